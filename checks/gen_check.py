"""C16: regeneration over histories of edits and configurations."""
import os, random
from concurrent.futures import ThreadPoolExecutor

METHODS = {"TableName", "Columns", "Values", "Addrs", "SQLColumns", "InsertPlaceholders", "InsertColumns", "PK", "HasPK", "CompositeKey",
           "IsAutoIncr", "ScanAutoIncr", "FindOneByPKStmt", "UpdateOneByPKStmt", "InsertOneStmt", "F1Value", "ColumnF1", "GetF1"}
SWITCH = {"driver", "naming", "quote", "prefix", "strict", "db", "tag"}


def c16(c):
    th = c.thorough
    fs, jobs, pk = {}, [], {}

    def job(name, pkgs, structs, fields, methods, switches, me, mg, **kw):
        fs[name], pk[name] = os.path.join(c.tmp, name), sorted(pkgs)
        k = dict(invariants=["FreshOut", "Whole", "Live"], properties=["Keeps"], constraints=["Emit"], mem="4g", timeout=2400)
        jobs.append(("Gen", dict(Pkgs=pkgs, Structs=structs, Fields=fields, Methods=methods, Switches=switches, MaxEdit=me, MaxGen=mg, Out=fs[name]), dict(k, **kw)))
    job("own", {"a"}, {"A"}, {"F1"}, METHODS, {"strict"}, 2, 1)
    job("edit", {"a"}, {"A"}, {"F1", "F2"} if th else {"F1"}, {"TableName", "PK"}, {"prefix"}, 3, 2)
    n = 3000 if th else 240
    job("long", {"base", "a", "b"}, {"Base", "A", "B"}, {"F1", "F2", "F3", "F4"}, METHODS, SWITCH, 14, 3, simulate="num=%d" % n, depth=70)
    job("turns", {"base", "a"}, {"Base", "A"}, {"F1", "F2"}, {"TableName", "Values", "PK", "ColumnF1"}, SWITCH, 8, 5, simulate="num=%d" % n, depth=70)
    c.tlc_all(jobs)
    c.log("specification checked")
    b = c.ws.build(c.ws.harness("gen"), "gen")
    rng = random.Random(c.seed)
    cap = dict(own=1200, edit=1500, long=2500, turns=2000) if th else dict(own=110, edit=50, long=50, turns=32)
    w = 8

    def one(a):
        name, i, ls = a
        dr = os.path.join(c.ws.h, "gen_%s%d" % (name, i))
        os.makedirs(dr)
        f = os.path.join(c.tmp, "%s.%d" % (name, i))
        open(f, "w").writelines(ls)
        c.replay(b, [f, dr, ",".join(pk[name] if "base" in pk[name] else ["base"] + pk[name]), c.ws.h], timeout=2400)
    parts = []
    for name in fs:
        ls = list(dict.fromkeys(open(fs[name])))
        rng.shuffle(ls)
        c.cov["emitted_" + name] = len(ls)
        ls = ls[:cap[name]]
        parts += [(name, i, ls[i::w]) for i in range(w) if ls[i::w]]
    with ThreadPoolExecutor(w) as ex:
        list(ex.map(one, parts))
