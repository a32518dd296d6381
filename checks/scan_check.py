"""C13: scanning scalars."""
import os
from tlc import Raw


def dests():
    out = []
    for c in ("int", "uint"):
        out += [(c, w, False) for w in (8, 16, 32, 64)]
    for s in (False, True):
        out += [("float", 32, s), ("float", 64, s), ("bool", 0, s), ("string", 0, s), ("bytes", 0, s)]
    out += [("time", 0, False), ("barr", 3, False), ("barr", 10, False), ("rarr", 3, False), ("rarr", 10, False),
            ("text", 0, False), ("scanner", 0, False), ("json", 0, False), ("binary", 0, False)]
    return out


def c13(c):
    b = c.ws.build(c.ws.harness("scan"), "scan", generated=False)
    c.log("built")
    ds = dests()
    n = 6
    jobs, fs = [], []
    for i in range(n):
        part = ds[i::n]
        f = os.path.join(c.tmp, "scans%d" % i)
        fs.append(f)
        k = dict(Dests=Raw("{" + ", ".join('[c |-> "%s", w |-> %d, s |-> %s]' % (x[0], x[1], str(x[2]).upper()) for x in part) + "}"),
                 Forms={"addr", "ptr"}, First=60 if c.thorough else 8, MaxScans=2, Out=f)
        jobs.append(("Scan", k, dict(invariants=["Exact", "Latest", "Fits"], action_constraints=["Emit"], view="View", mem="6g", timeout=2400)))
    c.tlc_all(jobs)
    c.log("specification checked")
    allf = os.path.join(c.tmp, "scans")
    with open(allf, "w") as o:
        for f in fs:
            o.write(open(f).read())
    c.replay(b, [allf], timeout=2400)
