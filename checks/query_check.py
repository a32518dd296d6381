"""C04, C05, C06: conditions, orders and bulk statements."""
import json, os
from tlc import Raw

FLAV = ("my", "myq", "pg", "pgq", "sq")
ROWS = [(i, 1 - i % 2, (i // 2) - 1) for i in range(6)]
OTHER = [(0, 1, 0), (2, 0, -1), (3, 0, 1)]
DUPS = [(0, 0, -1), (1, 0, 1), (0, 0, -1), (1, 0, 0), (1, 0, 1), (2, 1, -1), (2, 1, -1)]
FILTERS = Raw('{None, Atom("eq", "w1", <<1>>), Atom("lt", "k1", <<4>>), Atom("isnull", "w2", <<>>), Atom("gt", "k1", <<5>>),'
              ' Or(<<Atom("eq", "w2", <<1>>), Atom("isnull", "w2", <<>>)>>)}')


def ready(c, flavours=FLAV):
    c.ws.corpus(list(flavours))
    b = c.ws.build(c.ws.harness("query"), "query", generated=True)
    c.log("built")
    return b


def ndjson(c, name, obj):
    p = os.path.join(c.tmp, name)
    open(p, "w").write(json.dumps(obj) + "\n")
    return p


def c04(c):
    b = ready(c)
    f = os.path.join(c.tmp, "trees")
    c.tlc("Query", dict(Rows=set(ROWS), KT={0, 3, 5}, W1T={0, 1}, W2T={-1, 0, 1}, Pats={0, 1, 99}, MaxDepth=3,
                        Pick=4 if c.thorough else 1, Out=f),
          invariants=["Laws"], action_constraints=["Emit"], mem="6g", timeout=1800)
    c.log("specification checked")
    c.replay(b, ["tree", f, ndjson(c, "rows", {"rows": ROWS})], timeout=3000)


def c05(c):
    b = ready(c)
    jobs, files = [], []
    for nf in (True, False):
        f = os.path.join(c.tmp, "order%d" % nf)
        files.append(f)
        jobs.append(("Order", dict(Rows=set(ROWS), Other=set(OTHER), Dups=DUPS, Filters=FILTERS, NullsFirst=nf,
                                   Offs={0, 1, 3, 6, 7}, Lims={0, 1, 2, 5, 6, 7} if c.thorough else {0, 1, 2, 6}, MaxCols=3, Out=f),
                     dict(invariants=["StrictOrder", "Window", "Grouped"], action_constraints=["Emit"], mem="6g", timeout=1800)))
    c.tlc_all(jobs)
    c.log("specification checked")
    c.replay(b, ["order"] + files + [ndjson(c, "rows", {"rows": ROWS, "other": OTHER})], timeout=3000)


def c06(c):
    b = ready(c)
    f = os.path.join(c.tmp, "bulk")
    c.tlc("Bulk", dict(Start=Raw("{{}, {%s}, {<<0,0,-1>>, <<1,1,0>>, <<3,0,1>>}}" % ", ".join("<<%d,%d,%d>>" % r for r in ROWS)),
                       Filters=FILTERS,
                       Sets=Raw('{<<[col |-> "w1", v |-> 1]>>, <<[col |-> "w2", v |-> -1]>>,'
                                ' <<[col |-> "w2", v |-> 1], [col |-> "w1", v |-> 0]>>}'),
                       Orders=Raw('{<<[col |-> "k1", asc |-> TRUE]>>, <<[col |-> "w2", asc |-> FALSE], [col |-> "k1", asc |-> FALSE]>>,'
                                  ' <<[col |-> "w1", asc |-> TRUE], [col |-> "w2", asc |-> TRUE], [col |-> "k1", asc |-> TRUE]>>}'),
                       Lims={0, 1, 2, 9}, NullsFirst=True, MaxSteps=3 if c.thorough else 2, Out=f),
          view="view", invariants=["KeysUnique"], properties=["OnlyMatching", "OnlySet"], action_constraints=["Emit"],
          mem="6g", timeout=1800)
    c.log("specification checked")
    c.replay(b, ["bulk", f], timeout=3000)


PFILT = Raw('{None, Atom("eq", "w1", <<1>>), Atom("isnull", "w2", <<>>), Or(<<Atom("eq", "w2", <<1>>), Atom("gt", "k1", <<5>>)>>)}')
PROWS = [(0, 1, 0, 0), (1, 0, -1, 0), (2, 1, -1, 0), (3, 1, 0, 0), (4, 0, 1, 0), (5, 1, 0, 0)]
PCOMP = [(0, 1, 0, 0), (0, 0, -1, 1), (1, 1, -1, 0), (1, 1, 0, 1), (2, 0, 1, 1), (2, 1, 0, 0)]


def c07(c):
    b = ready(c)
    jobs, files = [], []
    for nf in (True, False):
        for name, rows, keys in (("single", PROWS, ["k1"]), ("comp", PCOMP, ["k1", "k2"])):
            f = os.path.join(c.tmp, "pager_%s_%d" % (name, nf))
            files.append(f)
            jobs.append(("Pager", dict(Rows=set(rows), Keys=keys, Filters=PFILT, NullsFirst=nf,
                                       Lims={1, 2, 3, 4, 5, 6, 7, 65535} if c.thorough else {1, 2, 5, 65535}, MaxCols=3 if c.thorough else 2, Out=f),
                         dict(invariants=["PageSize", "Prefix", "ExactlyOnce", "Mirror", "CursorFirst"], action_constraints=["Emit"],
                              mem="6g", timeout=2400)))
    c.tlc_all(jobs)
    c.log("specification checked")
    c.replay(b, ["pager"] + files + [ndjson(c, "rows", {"single": PROWS, "comp": PCOMP})], timeout=3000)
