"""C20: failures of the database at every interaction."""
import json, os
from stmt_check import FEW, FLAV, calls_consts


def c20(c):
    c.ws.corpus(list(FLAV))
    b = c.ws.build(c.ws.harness("fault"), "fault", generated=True)
    c.log("built")
    f, tr, rj = (os.path.join(c.tmp, x) for x in ("calls", "traces.ndjson", "rejects"))
    c.tlc_all([("Calls", calls_consts(f, conds=FEW, batches={0, 1, 2, 3}, data=2 if c.thorough else 1), dict(invariants=["SameForm", "Emitted"])),
               ("Fault", dict(MaxSteps=12 if c.thorough else 9), dict(invariants=["Reported", "Clean"], properties=["Honest"]))])
    c.log("specification checked")
    c.replay(b, [f, tr], timeout=3000)
    c.log("calls made")
    n = sum(1 for _ in open(tr))
    c.cov["distinct_interaction_traces"] = n
    r = c.tlc("FaultTrace", dict(MaxSteps=10 ** 6, File=tr, Rejects=rj), spec="TSpec", invariants=["Reported", "Clean"], mem="8g", timeout=1800)
    if r["states"] < n:
        raise RuntimeError("the traces were not read to their end")
    if os.path.exists(rj):
        for l in open(rj):
            x = json.loads(json.loads(l))
            t = x["rec"]
            what = ("a database failure is not reported" if t["outcome"] == "ok" and x["failed"] else
                    "a result set stays open or a connection in use" if x["at"] == len(t["ev"]) and (t["open"] or t["inuse"]) else
                    "the interactions are not a behaviour of the specification")
            c.violation(what + " " + t["op"], t["where"], what, t, json.dumps(t)[:800])
