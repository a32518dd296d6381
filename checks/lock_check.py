"""C23: locking reads."""
import os

INV = ["Exclusive", "Released"]
PROPS = ["ReadsOwn", "OnlyThat"]


def c23(c):
    c.ws.corpus(["my", "myq", "pg", "pgq"])
    b = c.ws.build(c.ws.harness("lock"), "lock", generated=True)
    c.log("built")
    fs = {d: os.path.join(c.tmp, d) for d in ("my", "pg")}
    modes = {"my": {"update", "share"}, "pg": {"update", "share", "nokeyupdate", "keyshare"}}
    jobs = []
    for d in fs:
        k = dict(Txs={1, 2}, Keys={1, 2}, Vals={0, 1}, Modes=modes[d], Pick=1, Starts=9 if c.thorough else 4, MaxSteps=7 if c.thorough else 6, Out=fs[d])
        jobs.append(("Lock", k, dict(invariants=INV, properties=PROPS, action_constraints=["Emit"], mem="8g", timeout=2400)))
        # every state, with a third transaction
        k = dict(Txs={1, 2, 3}, Keys={1, 2}, Vals={0, 1}, Modes=modes[d] if d == "my" or c.thorough else {"update", "keyshare", "nokeyupdate"}, Pick=0, Starts=0, MaxSteps=9 if c.thorough else 7, Out="")
        jobs.append(("Lock", k, dict(view="vw", constraints=["Short"], invariants=INV, mem="8g", timeout=2400)))
    c.tlc_all(jobs)
    c.log("specification checked")
    c.replay(b, [fs["my"], fs["pg"]], timeout=3000)
