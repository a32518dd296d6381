"""C01, C02, C03: Store.tla against the generated helpers."""
import json, os

INV = ["TypeOK", "KeysUnique", "UniqueHolds"]
PROPS = "OnlyThatRecord KeysKept ReadOnlyKept InsertAdds UpdateExact UpsertExact".split()
KINDS = [("single", False), ("single", True), ("comp", False), ("comp", True),
         ("auto", False), ("auto", True), ("autoplus", False)]


def consts(kind, ro, acts, out, big):
    auto = kind.startswith("auto")
    k1 = {0} if auto else ({0, 1} if kind == "comp" else {0, 1, 2})
    return dict(Kind=kind, HasRO=ro, K1=k1, K2={0, 1}, W1={0, 1}, W2={-1, 0}, MaxBatch=2,
                MaxId=4 if big else 3, MaxRows=3 if big else 2, Acts=acts, Out=out)


def run(c, acts, kinds, flavours=("my", "myq", "pg", "pgq", "sq", "sqq"), record_acts=None, simulate=False, uniq=False):
    w = c.ws
    w.corpus(list(flavours))
    b = w.build(w.harness("store"), "store", generated=True)
    c.log("built")
    jobs, files = [], []
    for kind, ro in kinds:
        f = os.path.join(c.tmp, "%s%d.json" % (kind, ro))
        files.append(f)
        jobs.append(("Store", consts(kind, ro, acts, f, c.thorough),
                     dict(view="view", invariants=INV, properties=PROPS, constraints=["Small"],
                          action_constraints=["Emit"], mem="6g" if c.thorough else "3g")))
    c.tlc_all(jobs)
    c.log("specification checked")
    c.replay(b, ["replay"] + files)
    c.log("transitions replayed")
    # histories of the real code, followed by the specification
    rec = os.path.join(c.tmp, "hist.ndjson")
    env = {"VERIF_ACTS": ",".join(sorted(record_acts or acts))}
    if uniq:
        env["VERIF_AUTOUNIQ"] = "1"
    r = c.replay(b, ["record", rec], env=env)
    by = {}
    for l in open(rec):
        h = json.loads(l)
        by.setdefault((h["kind"], h["ro"]), []).append(l)
    jobs, rejects, n = [], [], 0
    for (kind, ro), ls in by.items():
        f, rj = (os.path.join(c.tmp, "h_%s%d.%s" % (kind, ro, x)) for x in ("ndjson", "rej"))
        open(f, "w").writelines(ls)
        rejects.append(rj)
        k = consts(kind, ro, acts, "", False)
        k.update(File=f, Rejects=rj, MaxId=100000)
        jobs.append(("StoreTrace", k, dict(spec="TSpec", invariants=["KeysUnique"])))
        n += len(ls)
    c.tlc_all(jobs)
    c.cov["histories_recorded"] = n
    for rj in rejects:
        if os.path.exists(rj):
            for l in open(rj):
                x = json.loads(json.loads(l))
                c.violation("history: " + x["step"]["op"]["name"], x["where"],
                            "a recorded history is not a behaviour of the specification", x, json.dumps(x)[:500])
    c.log("histories followed")
    c.assumptions += ["the reference database (harness/engine) executes the MySQL and PostgreSQL statements as those "
                      "servers do; SQLite statements run on real SQLite"]


def c01(c):
    run(c, {"insert", "find", "update", "delete"}, KINDS)


def c02(c):
    run(c, {"batch", "delete"} if not c.thorough else {"batch", "delete", "insert"}, KINDS,
        record_acts={"batch", "delete", "insert"})


def c03(c):
    run(c, {"upsert", "upsertone", "insert"}, KINDS + [("autouniq", False)],
        record_acts={"upsert", "upsertone", "delete", "insert"}, uniq=True)
