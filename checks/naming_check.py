"""C15: naming conventions."""
import json, os, random
import ws as wsmod
from derive_check import lines


def c15(c):
    th = c.thorough
    ascii_, every, long_ = [os.path.join(c.tmp, x) for x in ("ascii", "every", "long")]
    k = dict(invariants=["Kept", "Split", "NonEmpty", "Again"], constraints=["Emit"], mem="6g", timeout=2400)
    A, E = {"U", "l", "d", "_"}, {"U", "l", "d", "_", "X", "x"}
    c.tlc_all([("Naming", dict(Classes=A, MaxLen=10 if th else 8, MinEmit=1, Out=ascii_), k),
               ("Naming", dict(Classes=E, MaxLen=7 if th else 5, MinEmit=1, Out=every), k),
               ("Naming", dict(Classes=E, MaxLen=24, MinEmit=14, Out=long_),
                dict(k, simulate="num=%d" % (800 if th else 60), depth=25))])
    b = c.ws.build(c.ws.harness("naming"), "naming")
    c.log("specification checked")
    ids = [l for f in (ascii_, every, long_) for l in open(f)]
    ids = list(dict.fromkeys(ids))
    allf = os.path.join(c.tmp, "ids")
    open(allf, "w").writelines(ids)
    c.replay(b, ["direct", allf])
    c.log("converted")
    rng = random.Random(c.seed)
    short = [l for l in ids if len(json.loads(json.loads(l))["id"]) <= 3]
    few = short + rng.sample(ids, 3000 if th else 500)
    rng.shuffle(few)
    fewf = os.path.join(c.tmp, "few")
    open(fewf, "w").writelines(dict.fromkeys(few))
    d = os.path.join(c.ws.h, "n")
    os.makedirs(d)
    c.ws.run([b, "compose", fewf, d])
    ks = ("snake", "camel", "pascal")
    res = c.ws.generate([dict(Driver="mysql", Naming=x, Source=["./n/n" + x], DB="n/db", DBPkg="db") for x in ks])
    for x, r in zip(ks, res):
        if r != "ok":
            raise wsmod.GenFailure("valid declarations were refused", "identifiers in %s case: %s" % (x, r))
    s = "package main\n\nimport (\n" + "".join("\t\"verifws/n/n%s\"\n" % x for x in ks) + ")\n\nfunc init() {\n"
    s += "".join("\tpkgs[\"n%s\"] = n%s.All\n" % (x, x) for x in ks) + "}\n"
    open(os.path.join(c.ws.h, "naming", "reg.go"), "w").write(s)
    b = c.ws.build("./naming", "naming2", generated=True)
    c.replay(b, ["generated", os.path.join(d, "members.json")])
