"""C22: columns of mapped types in every statement."""
import itertools, os, random

from ws import FLAVOURS, GenFailure, H

TYPES = dict(plain="mt.Plain", pplain="*mt.Plain", both="mt.Both", read="mt.Read", write="mt.Write", go="mt.Go", all="mt.All", basic="string",
             box="mt.Box", lit="mt.Lit", pboth="*mt.Both", pread="*mt.Read", pall="*mt.All", pbasic="*string", auto="int64")
LIT = "'\"?$1`'"
P = "verifws/mt."
MAPS = {
    P + "Both": dict(DataType="TEXT", SQLScanner="dec_both({{.}})", SQLValuer="enc_both({{.}})"),
    P + "Read": dict(DataType="TEXT", SQLScanner="dec_read({{.}})"),
    P + "Write": dict(DataType="TEXT", SQLValuer="enc_write({{.}})"),
    P + "Go": dict(DataType="TEXT", Scanner=P + "GoScanner({{.}})", Valuer=P + "GoValue({{.}})"),
    P + "All": dict(DataType="TEXT", SQLScanner="dec_all( {{ . }} )", SQLValuer="enc_all( {{ . }} )", Scanner=P + "AllScanner({{addr}})", Valuer=P + "AllValue({{goPath}})"),
    P + "Box": dict(DataType="TEXT", SQLScanner="dec_box({{.}})", SQLValuer="enc_box({{.}})", Scanner=P + "BoxScanner({{.}})", Valuer=P + "BoxValue({{.}})"),
    P + "Lit": dict(DataType="TEXT", SQLScanner="dec_lit(" + LIT + ",{{.}})", SQLValuer="enc_lit(" + LIT + ",{{.}})"),
    "string": dict(DataType="TEXT", SQLScanner="dec_basic({{.}})", SQLValuer="enc_basic({{.}})", Scanner=P + "BasicScanner({{.}})", Valuer=P + "BasicValue({{.}})"),
}
KINDS = [k for k in TYPES if k != "auto"]
KEYABLE = ["plain", "both", "read", "write", "go", "all", "basic", "box", "lit"]


def layouts(n, rng):
    """Models in which all kinds, roles, neighbours and embeddings occur evenly."""
    out, seen = [], {}

    def feats(l):
        cs = l["cols"]
        f = [(c["kind"], c["role"]) for c in cs]
        f += [(a["kind"], a["role"], b["kind"], b["role"]) for a, b in zip(cs, cs[1:])]
        f += [(l["emb"], c["kind"]) for c in cs[-2:]] + [("keys", tuple(c["kind"] for c in cs if c["role"] == "key"))]
        return f

    def one():
        k = rng.choice(["none", "key", "key", "two", "auto", "auto"])
        m = rng.randint(1 if k != "none" else 2, 4)
        cs = [dict(kind=rng.choice(KINDS), role="none")]
        cs += [dict(kind=rng.choice(KINDS), role=rng.choice(["none", "none", "ro"])) for _ in range(m - 1)]
        if k in ("key", "two"):
            cs += [dict(kind=rng.choice(KEYABLE), role="key") for _ in range(2 if k == "two" else 1)]
        if k == "auto":
            cs.append(dict(kind="plain", role="auto"))
        rng.shuffle(cs)
        return dict(cols=cs, emb=rng.choice(["none", "none", "val", "ptr", "excl"]))
    while len(out) < n:
        best = max((one() for _ in range(12)), key=lambda l: sum(1 / (1 + seen.get(f, 0)) ** 2 for f in feats(l)) / len(feats(l)))
        for f in feats(best):
            seen[f] = seen.get(f, 0) + 1
        out.append(best)
    return out


def word(n):
    return "abcdefghijklmnopqrstuvwxyz"[n // 26 % 26] + "abcdefghijklmnopqrstuvwxyz"[n % 26] + ("x" * (n // 676))


def source(ls):
    s = "package maps\n\nimport \"verifws/mt\"\n\nvar _ mt.Plain\n\n"
    s += "type Skipped struct {\n\tS mt.Both\n\tT string `sql:\"t,readonly\"`\n\tU mt.Plain\n}\n"
    for n, l in enumerate(ls, 1):
        fs = []
        for i, c in enumerate(l["cols"], 1):
            tag = {"none": "", "ro": ",readonly", "key": ",pk", "auto": ",auto_increment"}[c["role"]]
            t = TYPES["auto" if c["role"] == "auto" else c["kind"]]
            name = ["c%d" % i, "", "the_c%d" % i][(n + i) % 3]
            fs.append("\tC%s %s `sql:\"%s%s\"`\n" % ("abcdefgh"[i], t, name, tag))
        if l["emb"] in ("val", "ptr"):
            s += "\ntype E%s struct {\n%s}\n" % (word(n), "".join(fs[-2:]))
            fs[-2:] = ["\t%sE%s\n" % ("*" if l["emb"] == "ptr" else "", word(n))]
        if l["emb"] == "excl":
            fs.insert(n % len(fs), "\tSkipped `sql:\"-\"`\n")
        s += "\ntype M%s struct {\n%s}\n" % (word(n), "".join(fs))
    return s


def build(c, flavours, ls):
    w, jobs = c.ws, []
    src = source(ls)
    w.sub(H + "/mapped/mt.go.txt", w.h + "/mt/mt.go", {})
    w.sub(H + "/mapped/main.go", w.h + "/mapped/main.go", {})
    types = sorted({t for k, t in TYPES.items()})
    reg = "".join("\t%s[maps.M%s, *maps.M%s](\"M%d\")\n" % ("keyed" if any(x["role"] in ("key", "auto") for x in l["cols"]) else "view", word(n), word(n), n)
                  for n, l in enumerate(ls, 1))
    for fl in flavours:
        drv, quote = FLAVOURS[fl]
        name = "mp" + fl
        rep = {"FLAVOUR": name, "DRIVER": drv}
        base, a = os.path.join(w.h, "f", name), os.path.join(H, "adapter")
        os.makedirs(base + "/maps")
        open(base + "/maps/maps.go", "w").write(src)
        w.sub(a + "/common.go.txt", base + "/ad/common.go", rep)
        w.sub(a + ("/pg.go.txt" if drv == "postgres" else "/my.go.txt"), base + "/ad/drv.go", rep)
        ops = open(a + "/ops.go.txt").read().replace("FLAVOUR/std", "FLAVOUR/STD")
        i = ops.index("func opTable()")
        ops = ops[:i].replace('\t"time"\n', "").replace('"verifws/f/FLAVOUR/STD"', '"verifws/mt"') + "func opTable() kit.Ops {\n\tt := map[reflect.Type]kit.ColOps{}\n" + \
            "".join("\tops[%s](t)\n" % t for t in types) + "\treturn kit.Ops{Cols: t, And: db.And, Or: db.Or}\n}\n"
        open(base + "/ad/ops.go", "w").write(ops.replace("FLAVOUR", name))
        open(base + "/ad/reg.go", "w").write("package ad\n\nimport \"verifws/f/%s/maps\"\n\nfunc init() {\n%s}\n" % (name, reg))
        jobs.append(dict(Driver=drv, Quote=quote, Source=["./f/%s/maps" % name], DB="f/%s/db" % name, DBPkg="db", Types=MAPS))
    for j, r in zip(jobs, w.generate(jobs)):
        if r != "ok":
            raise GenFailure("generation failed for %s" % j["Driver"], r)
    os.makedirs(w.h + "/mtflav")
    s = "package mtflav\n\nimport (\n\t\"reflect\"\n\n\t\"github.com/si3nloong/sqlgen/sequel\"\n\t\"verifws/kit\"\n\t\"verifws/mt\"\n"
    s += "".join("\t%s \"verifws/f/mp%s/ad\"\n" % (f, f) for f in flavours) + ")\n\n"
    s += "var All = []*kit.Env{%s}\n\n" % ", ".join(f + ".Env" for f in flavours)
    s += """var ByHand = map[reflect.Type]func(any, func(string) string) any{}

func byHand[T any]() {
	var z T
	ByHand[reflect.TypeOf(&z).Elem()] = func(col any, f func(string) string) any {
		c := col.(sequel.ColumnConvertClause[T])
		return sequel.SQLColumn(c.ColumnName(), c.Value(), f, c.Convert)
	}
}

func init() {
%s}
""" % "".join("\tbyHand[%s]()\n" % t for t in types if t not in ("int64",))
    open(w.h + "/mtflav/flav.go", "w").write(s)
    return w.build("./mapped", "mapped", generated=True)


def bad(c):
    """Expressions that are none are refused."""
    w = c.ws
    d = os.path.join(w.h, "f", "mpbad")
    jobs = []
    for i, (role, key) in enumerate(itertools.product(["", ",pk"], ["SQLScanner", "SQLValuer"])):
        for drv in ("mysql", "postgres", "sqlite"):
            n = "b%d%s" % (i, drv)
            os.makedirs(os.path.join(d, n))
            open(os.path.join(d, n, "b.go"), "w").write("package %s\n\nimport \"verifws/mt\"\n\ntype B struct {\n\tA mt.Both `sql:\"%s\"`\n\tC mt.Plain\n}\n" % (n, "a" + role))
            jobs.append(dict(Driver=drv, Source=["./f/mpbad/" + n], Types={P + "Both": dict(DataType="TEXT", **{key: "f({{.Nope"})}))
    for j, r in zip(jobs, w.generate(jobs, name="bad")):
        c.cov["traces_validated_against_impl"] += 1
        if not r.startswith("error") or "panic" in r:
            c.violation("bad expression", j["Driver"], "an expression that cannot be parsed is not refused with an error", j, r)


def c22(c):
    th = c.thorough
    rng = random.Random(c.seed)
    ls = layouts(900 if th else 110, rng)
    fls = ["my", "myq", "pg", "pgq", "sq", "sqq"] if th else ["my", "pgq", "sq"]
    b = build(c, fls, ls)
    bad(c)
    c.log("built")
    ops = {"insertone", "insert", "upsertone", "upsert", "find", "lock", "update", "delete", "cond", "query", "set", "pages"}
    lay = [dict(cols=l["cols"]) for l in ls]
    files, jobs = [], []
    kw = dict(view="view", invariants=["CellsWrapped", "ReadBack", "PlainKept", "KeysUnique"], constraints=["Small"], action_constraints=["Emit"], mem="4g", timeout=2400)
    size = 30
    for i in range(0, len(lay), size):
        f = os.path.join(c.tmp, "map%d" % i)
        files.append((f, i))
        jobs.append(("Map", dict(Layouts=lay[i:i + size], Keys={"1", "2"}, MaxOps=1, Ops=ops, Out=f), kw))
        f += "s"
        files.append((f, i))
        jobs.append(("Map", dict(Layouts=lay[i:i + size], Keys={"1", "2"}, MaxOps=5, Ops=ops, Out=f), dict(kw, view=None, simulate="num=%d" % (400 if th else 12), depth=6)))
    c.tlc_all(jobs)
    c.log("specification checked")
    import json
    out = os.path.join(c.tmp, "cases")
    with open(out, "w") as o:
        for f, off in files:
            lines = list(dict.fromkeys(open(f)))
            c.cov["emitted"] = c.cov.get("emitted", 0) + len(lines)
            cap = (60000 if th else 4000) if f.endswith("s") else 10**9
            if len(lines) > cap:
                rng.shuffle(lines)
            for l in lines[:cap]:
                t = json.loads(json.loads(l))
                t["l"] += off
                o.write(json.dumps(t) + "\n")
    c.replay(b, [out], timeout=2400)
