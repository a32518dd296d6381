"""C18: the effective configuration."""
import json, os, random
from concurrent.futures import ThreadPoolExecutor

ALL = {"src", "driver", "naming", "tag", "quote", "readonly", "strict", "skipempty", "execfile", "prefix",
       "dbpkg", "dbdir", "dbfile", "oppkg", "opdir", "opfile", "migdsn", "migpkg", "migdir", "migfile",
       "omitgetters", "sourcemap", "skipheader", "skiptidy", "dtA", "dtB", "dtC"}
SEEN = {"src", "driver", "naming", "tag", "quote", "execfile", "prefix", "dbpkg", "dbdir", "dbfile", "oppkg", "opdir", "opfile"}


def c18(c):
    th = c.thorough
    k = dict(invariants=["Done", "OnlyFirst"], properties=["Keeps"], constraints=["Emit"], mem="5g", timeout=2400)
    fs, jobs = {}, []

    def job(nm, names, settings, mf, mc, mt=0, calls=ALL, name=False, **kw):
        fs[nm] = os.path.join(c.tmp, nm)
        jobs.append(("Config", dict(Names=names, Settings=settings, Calls=calls, MayName=name, MaxFile=mf, MaxCall=mc, MinTotal=mt, Out=fs[nm]), dict(k, **kw)))
    job("one", 1, ALL, 2 if th else 1, 2)
    if not th:
        job("two", 1, ALL, 2, 1)
    job("types", 2, {"dtA", "dtB", "dtC", "driver"}, 4, 4)
    job("names", 4, {"driver", "execfile"} if not th else {"driver", "execfile", "dbdir"}, 1, 1)
    job("many", 2, ALL, 26, 26, 8, simulate="num=%d" % (6000 if th else 600), depth=45)
    job("seen", 2, SEEN, 13, 13, 3, name=True, simulate="num=%d" % (1500 if th else 250), depth=24)
    job("line", 2, SEEN | {"skiptidy"}, 14, 1, 1, calls={"src"}, name=True, simulate="num=%d" % (1200 if th else 150), depth=24)
    c.tlc_all(jobs)
    b = c.ws.build(c.ws.harness("conf"), "conf")
    c.log("specification checked")
    rng = random.Random(c.seed)
    lines = {n: list(dict.fromkeys(open(f))) for n, f in fs.items()}
    for n in lines:
        rng.shuffle(lines[n])
    n = 8

    def run(mode, ls, *more):
        ps = []
        for i in range(n):
            d = os.path.join(c.ws.h, "conf_%s%d" % (mode, i))
            os.makedirs(d)
            f = os.path.join(c.tmp, "%s%d" % (mode, i))
            open(f, "w").writelines(ls[i::n])
            ps.append((mode, f, d) + more)
        with ThreadPoolExecutor(n) as ex:
            list(ex.map(lambda a: c.replay(b, list(a), timeout=1500), ps))
    run("merge", [l for x in ("one", "two", "types", "names", "many") if x in lines for l in lines[x]])
    c.log("merged")
    run("init", lines["many"][:4000 if th else 800] + lines["one"][:400])
    c.log("written and loaded")
    run("full", lines["seen"][:1200 if th else 160])
    c.log("generated")
    cli = c.ws.build("github.com/si3nloong/sqlgen/cmd/sqlgen", "sqlgen")
    # the command line takes sources or a file
    alone = [l for l in lines["line"] if '\\"named\\":0' in l or '\\"caller\\":[]' in l]
    run("line", alone[:800 if th else 100], cli)
