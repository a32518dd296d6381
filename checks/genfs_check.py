"""C17: the files a run reads and writes."""
import json, os, random
from concurrent.futures import ThreadPoolExecutor
from tlc import Raw


def t(x):
    """a TLA tuple of strings, from a path or a name with | between the parts"""
    return Raw("<<%s>>" % ", ".join('"%s"' % p for p in x))


def sett(xs):
    return Raw("{%s}" % ", ".join(getattr(x, "s", x) for x in xs))


def d(p):
    return p.split("/")


USER, MODEL, ORDER, LATE, UTIL = ["user", ".go"], ["user", "_", "model", ".go"], ["Order", "-", "model", ".go"], ["a", ".", "user", ".go"], ["util", ".go"]
TEST, TXT, BAK = ["user", "_test", ".go"], ["notes", ".txt"], ["user", ".go", ".bak"]
NAMES = [[], ["*"], ["*", ".go"], ["*", "_", "model", ".go"], ["user", "*"], ["*", "model", "*"], ["*", ".", "user", ".go"], USER, ORDER]
WILD = [n for n in NAMES if n]


def forms(*dn):
    return sett("[dirs |-> %s, name |-> %s]" % (t(a).s, t(b).s) for a, b in dn)


def world(c, name, dirs, files, full, db, op):
    f = os.path.join(c.tmp, "world_" + name)
    json.dump(dict(Dirs=[d(x) for x in dirs], Files=files, Full=full, DbDir=d(db), OpDir=d(op)), open(f, "w"))
    return f


def c17(c):
    th = c.thorough
    fs, jobs, worlds = {}, [], {}

    def job(name, dirs, files, bases, fm, full=False, db="p/db", op="p/db", faults=(), ms=1, me=0, mg=1, **kw):
        fs[name] = os.path.join(c.tmp, name)
        worlds[name] = world(c, name, dirs, files, full, db, op)
        k = dict(invariants=["Within", "Agrees", "Laws"], properties=["OnlyNamed"] + ([] if "simulate" in kw else ["Ends"]), constraints=["Emit"], mem="4g", timeout=2400)
        jobs.append(("GenFS", dict(Dirs=sett(t(d(x)) for x in dirs), Files=sett(t(x) for x in files), Full=full, Bases=sett(t(d(x)) for x in bases),
                                   Forms=fm, AnyOrder=not full, DbDir=t(d(db)), OpDir=t(d(op)), FaultKinds=set(faults) if faults else Raw("{}"), MaxSrc=ms, MaxEdit=me, MaxGen=mg, Out=fs[name]), dict(k, **kw)))
    wide = ["p", "p/m", "p/m/Deep-1", "p/m/Deep-1/x.y", "p/models", "p/models2", "p/m+k", "q", "q/m", "p/db"]
    allf = [USER, MODEL, ORDER, LATE, UTIL, TEST, TXT, BAK]
    every = forms(*([([], n) for n in NAMES] + [(["**"], n) for n in NAMES] + [(["*"], n) for n in WILD] + [(["**", "m"], n) for n in WILD] + [(["m", "**"], n) for n in WILD]
                    + [(["**", "m", "**"], n) for n in WILD[:3]]))
    some = forms(([], []), ([], ["*"]), ([], USER), ([], ["user", "*"]), (["**"], []), (["**"], ["*", ".go"]), (["**"], MODEL), (["*"], ["*"]), (["**", "m"], ["*"]))
    job("patterns", wide, allf, ["p", "p/m", "p/models", "q"], every, full=True, op="p/m+k")
    job("pairs", wide[:6] + ["q"], [USER, MODEL, UTIL], ["p", "p/m", "p/models", "q"], some, full=True, db="q", op="q", ms=3, simulate="num=%d" % (2500 if th else 150), depth=25)
    small, sb = ["p", "p/m", "p/m/sub", "q", "p/db"], ["p", "p/m", "q"]
    job("edits", small, [USER, MODEL, UTIL], sb, some, faults=("dup", "auto", "foot"), ms=2, me=9, mg=3, simulate="num=%d" % (2500 if th else 200), depth=60)
    job("faults", small[:3] + ["p/db"], [USER, MODEL, UTIL], ["p", "p/m"], forms(([], ["*"]), (["**"], []), ([], USER)), op="p/m/sub", faults=("dup", "block", "limit", "foot"), ms=1, me=8, mg=3,
        simulate="num=%d" % (2500 if th else 200), depth=60)
    job("short", ["p", "p/m"], [USER, MODEL] if th else [USER], ["p"], forms(([], ["*"]), (["**"], [])), db="p/m", op="p/m", faults=("dup", "limit"), me=3 if th else 2, mg=2)
    c.tlc_all(jobs)
    c.log("specification checked")
    b = c.ws.build(c.ws.harness("genfs"), "genfs")
    rng = random.Random(c.seed)
    n = 8
    cap = dict(patterns=10000 if th else 260, pairs=2500 if th else 150, edits=2500 if th else 150, faults=2500 if th else 150, short=1500 if th else 120)

    def one(a):
        name, i, ls = a
        dr = os.path.join(c.ws.h, "fs_%s%d" % (name, i))
        os.makedirs(dr)
        f = os.path.join(c.tmp, "%s.%d" % (name, i))
        open(f, "w").writelines(ls)
        c.replay(b, [worlds[name], f, dr], timeout=1800)
    parts = []
    for name in fs:
        ls = list(dict.fromkeys(open(fs[name])))
        rng.shuffle(ls)
        c.cov["emitted_" + name] = len(ls)
        ls = ls[:cap[name]]
        parts += [(name, i, ls[i::n]) for i in range(n) if ls[i::n]]
    with ThreadPoolExecutor(n) as ex:
        list(ex.map(one, parts))
