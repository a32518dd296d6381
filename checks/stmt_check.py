"""C08, C21: the statement builder and everything that is sent."""
import json, os
from tlc import Raw

FLAV = ("my", "myq", "pg", "pgq", "sq")
CONDS = Raw('{None, Atom("eq", "w1", <<1>>), Atom("ne", "w2", <<0>>), Atom("like", "w1", <<1>>), Atom("in", "w1", <<0, 1, 2>>),'
            ' Atom("nin", "k1", <<0>>), Atom("in", "w2", <<>>), Atom("between", "k1", <<0, 2>>), Atom("nbetween", "w2", <<0, 1>>),'
            ' Atom("eq", "w2", <<NULL>>), Atom("isnull", "w2", <<>>), Atom("ge", "k1", <<1>>),'
            ' And(<<Atom("gt", "k1", <<0>>), Or(<<Atom("in", "w1", <<0, 1>>), Atom("le", "k1", <<1>>), Atom("nlike", "w1", <<0>>)>>), Atom("lt", "w2", <<1>>)>>),'
            ' Or(<<And(<<Atom("eq", "k1", <<0>>), Atom("notnull", "w2", <<>>)>>), And(<<Atom("between", "w1", <<0, 1>>)>>)>>)}')
FEW = Raw('{None, Atom("in", "w1", <<0, 1>>), And(<<Atom("ge", "k1", <<0>>), Or(<<Atom("ne", "w1", <<2>>), Atom("isnull", "w2", <<>>)>>)>>)}')
ORDERS = Raw('{<<>>, <<[col |-> "w1", asc |-> FALSE]>>, <<[col |-> "w2", asc |-> TRUE], [col |-> "k1", asc |-> FALSE]>>}')
SETS = Raw('{<<[col |-> "w1", v |-> 1]>>, <<[col |-> "w2", v |-> 0], [col |-> "w1", v |-> 2]>>, <<[col |-> "w2", v |-> -1]>>}')
OMITS = Raw('{<<>>, <<"w1">>, <<"w1", "w2">>}')


def calls_consts(out, conds=CONDS, batches={0, 1, 2, 12}, data=3):
    return dict(Data=set(range(data)), Batches=batches, Conds=conds, Orders=ORDERS, Sets=SETS, Omits=OMITS,
                Lims={0, 3}, Offs={0, 2}, Out=out)


def stmt_job(c, f, numbered, pick, steps, pieces=(1, 2, 3, 4, 5), vals=(1, 2), maxvars=3):
    return ("Stmt", dict(Slots=set([1, 2]) if pick else {1}, Pieces=set(pieces), Vals=set(vals), MaxVars=maxvars, Numbered=numbered,
                         MaxSteps=steps, Pick=pick, Out=f),
            dict(invariants=["OnePerArgument"], properties=["FreshWhenTaken", "Apart"], action_constraints=["Emit"], mem="6g", timeout=2400))


def ready(c, flavours=FLAV):
    c.ws.corpus(list(flavours))
    b = c.ws.build(c.ws.harness("stmt"), "stmt", generated=True)
    c.log("built")
    return b


def stmts(c, b, mode):
    fs = [os.path.join(c.tmp, "stmt%d" % i) for i in range(3)]
    c.tlc_all([stmt_job(c, fs[0], True, 0, 5 if c.thorough else 4, pieces=(1, 2)),
               stmt_job(c, fs[1], True, 2, 15 if c.thorough else 13),
               stmt_job(c, fs[2], False, 2, 15 if c.thorough else 13, maxvars=12)])
    c.log("specification checked")
    for f in fs:
        c.replay(b, ["builder", f, mode], timeout=3000)
    c.log("builder replayed")


def c08(c):
    b = ready(c)
    stmts(c, b, "text")
    f, tr, rj = (os.path.join(c.tmp, x) for x in ("calls", "sent.ndjson", "rejects"))
    c.tlc("Calls", calls_consts(f), invariants=["SameForm", "Emitted"])
    c.replay(b, ["calls", f, tr])
    c.log("calls made")
    k = calls_consts("")
    k.update(File=tr, Rejects=rj)
    n = sum(1 for _ in open(tr))
    c.cov["statements_recorded"] = n
    r = c.tlc("SentTrace", k, spec="TSpec", mem="8g", timeout=1800)
    if r["states"] < n + 1:
        raise RuntimeError("the trace was not read to its end: %d of %d" % (r["states"], n + 1))
    if os.path.exists(rj):
        for l in open(rj):
            x = json.loads(json.loads(l))
            c.violation(x["what"], x["rec"]["m"], x["what"], x["rec"]["shape"], json.dumps({k: x["rec"][k] for k in
                        ("text", "nargs", "phs", "tag")}) + " before: " + x["prev"])


def c21(c):
    b = ready(c)
    stmts(c, b, "format")
