"""Runs TLC on a specification with given constants, returns its statistics."""
import os, re, subprocess, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")


class TLCError(Exception):
    pass


def tla(v):
    """Python value -> TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=repr)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    if isinstance(v, Raw):
        return v.s
    raise TypeError(v)


class Raw:
    def __init__(self, s):
        self.s = s


def run(module, consts, workdir, spec="Spec", init=None, next=None, invariants=(), properties=(), constraints=(),
        action_constraints=(), view=None, workers=1, timeout=600, deadlock=False, simulate=None, seed=1,
        symmetry=None, defs="", postcondition=None, mem="4g", name=None, depth=None):
    """Checks MODULE. Raises TLCError when the specification itself fails."""
    name = name or ("MC_" + module)
    d = tempfile.mkdtemp(prefix="tlc.", dir=workdir)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    body = ["---- MODULE %s ----" % name, "EXTENDS %s" % module]
    cfg = []
    for k, v in consts.items():
        body.append("c_%s == %s" % (k, tla(v)))
        cfg.append("CONSTANT %s <- c_%s" % (k, k))
    body.append(defs)
    body.append("====")
    open(os.path.join(d, name + ".tla"), "w").write("\n".join(body) + "\n")
    if init:
        cfg += ["INIT " + init, "NEXT " + next]
    else:
        cfg.append("SPECIFICATION " + spec)
    cfg += ["INVARIANT " + x for x in invariants]
    cfg += ["PROPERTY " + x for x in properties]
    cfg += ["CONSTRAINT " + x for x in constraints]
    cfg += ["ACTION_CONSTRAINT " + x for x in action_constraints]
    if view:
        cfg.append("VIEW " + view)
    if symmetry:
        cfg.append("SYMMETRY " + symmetry)
    if postcondition:
        cfg.append("POSTCONDITION " + postcondition)
    cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    open(os.path.join(d, name + ".cfg"), "w").write("\n".join(cfg) + "\n")
    cmd = ["tlc", "-workers", str(workers), "-config", name + ".cfg", "-metadir", os.path.join(d, "meta"),
           "-noGenerateSpecTE", "-seed", str(seed), "-fp", "1"]
    if simulate:
        cmd += ["-simulate", simulate]
        if depth:
            cmd += ["-depth", str(depth)]
    cmd.append(name + ".tla")
    env = dict(os.environ)
    env["JAVA_TOOL_OPTIONS"] = env.get("JAVA_TOOL_OPTIONS", "") + " -Xmx" + mem + " -Djava.io.tmpdir=" + d
    try:
        p = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        raise TLCError("TLC ran out of time on " + module)
    out = p.stdout + p.stderr
    st = dict(states=0, transitions=0, out=out, complete="Model checking completed" in out, rc=p.returncode)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        st["transitions"], st["states"] = int(m.group(1)), int(m.group(2))
    shutil.rmtree(d, ignore_errors=True)
    if p.returncode != 0 and not simulate:
        i = out.find("Error:")
        j = out.find("*** Errors")
        if j < 0:
            j = out.find("***Parse Error***")
        if j >= 0:
            out, i = out[j:j + 700], 0
        raise TLCError("TLC on %s: %s" % (module, out[max(0, i):i + 3500]))
    return st
