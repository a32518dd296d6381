"""C19: calls at the same time."""
import os
import tlc
from stmt_check import FEW, FLAV, calls_consts


def pool(procs, sends, calls, twice, out, pick=0):
    return dict(Procs=set(range(1, procs + 1)), Buffers=set(range(1, procs * 2 + 2)), MaxSends=sends, Calls=calls, Twice=twice, Pick=pick, Out=out)


def c19(c):
    c.ws.corpus(list(FLAV))
    src = c.ws.harness("conc")
    b = c.ws.build(src, "conc", generated=True)
    race = c.ws.build(src, "conc.race", generated=True, race=True)
    c.log("built")
    f, s = os.path.join(c.tmp, "calls"), os.path.join(c.tmp, "schedules")
    c.tlc_all([
        ("Calls", calls_consts(f, conds=FEW, batches={0, 1, 2, 3}, data=3), dict(invariants=["SameForm", "Emitted"])),
        ("Pool", pool(3, 2, 3 if c.thorough else 2, False, ""), dict(view="vw", invariants=["OneOwner", "OwnText"], mem="6g", timeout=2400)),
        # complete schedules, each once
        ("Pool", pool(3, 1, 1, False, s), dict(invariants=["OneOwner", "OwnText"], action_constraints=["Emit"], mem="6g")),
    ])
    # the invariants are able to fail: a buffer given back twice breaks them
    try:
        tlc.run("Pool", pool(2, 1, 2, True, ""), c.tmp, view="vw", invariants=["OwnText"])
        raise RuntimeError("Pool.tla accepts a buffer given back twice")
    except tlc.TLCError as e:
        if "OwnText" not in str(e):
            raise
    c.log("specification checked")
    c.replay(b, ["gate", f, s], timeout=3000)
    c.log("schedules replayed")
    p = c.ws.run([race, "stress", f], check=False, timeout=3000, env={"GORACE": "halt_on_error=0 exitcode=0 history_size=3"})
    if "WARNING: DATA RACE" in p.stderr:
        i = p.stderr.index("WARNING: DATA RACE")
        c.violation("data race", "generated code", "calls at the same time share memory", None, p.stderr[i:i + 3000])
    import json
    try:
        c.take(json.loads(p.stdout.strip().splitlines()[-1]))
    except Exception:
        c.violation("crash", "generated code", "calls at the same time crash", None, (p.stdout + p.stderr)[-3000:])
    c.log("stress done")
