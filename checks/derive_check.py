"""C09, C10, C11: what struct declarations mean."""
import json, os, random, re
from concurrent.futures import ThreadPoolExecutor
import ws as wsmod

GOOD = {"plain", "named1", "named2", "skip", "skipopt", "unexp", "blank", "pk", "primary", "namedpk", "spacedpk", "upperpk", "auto",
        "pkauto", "namedauto", "upperauto", "ro", "namedro", "upperro", "pair", "triple", "pairpk", "pksize", "opts", "emptyname",
        "table", "tablepriv"}
CORE = {"plain", "named1", "skip", "unexp", "pk", "auto", "ro", "pair", "table"}
FEW = {"plain", "pk", "skip"}
EMBS = {"val", "ptr", "file", "fileptr", "pkg", "pkgptr", "low", "lowptr", "skipval", "skipptr", "def", "defptr", "gen", "genptr", "alias", "aliasptr"}
NOTES = {"none", "group", "groupmid", "ignore", "ignoredoc", "ignorelist", "groupignore", "readonly", "unexported", "local", "ext", "generic"}
SILENT_NOTES = {"ignore", "ignoredoc", "ignorelist", "groupignore", "unexported", "local", "generic"}
TAGS = {"named1": "tag_one", "named2": "Tag2", "skip": "-", "skipopt": "-,pk", "pk": ",pk", "primary": ",primary_key", "namedpk": "tag_one,pk",
        "spacedpk": " Tag2 , pk ", "upperpk": ",PK", "auto": ",auto_increment", "pkauto": ",pk,auto_increment",
        "namedauto": "Tag2,auto_increment", "upperauto": ",Auto_Increment", "ro": ",readonly", "namedro": "tag_one,readonly",
        "upperro": ",ReadOnly", "pairpk": ",pk", "pksize": ",size:10,pk", "opts": ",size:10,unique", "emptyname": "", "pkro": ",pk,readonly",
        "autoro": ",readonly,auto_increment", "bad1": "9a", "bad2": "a b,pk", "bad3": "a-b", "bad4": "a.b", "againtag": "Tag2",
        "table": "tbl_name", "tableemb": "tbl_name", "tablepriv": "tbl_name"}
LIT = {"t1": "tag_one", "t2": "Tag2", "tbl": "tbl_name"}
PTREMB = {"ptr", "fileptr", "pkgptr", "lowptr", "defptr", "skipptr", "genptr", "aliasptr"}
GENEMB = {"gen", "genptr"}
KEYED = ("pk", "primary", "namedpk", "spacedpk", "upperpk", "pairpk", "pksize", "pkro")
TYPES = ["string", "int64", "bool", "float64", "time.Time", "*string", "*int64", "kit.Str", "int32", "uint16", "[]byte", "*time.Time", "*kit.Str", "kit.Num"]
KEYT = ["string", "int64", "kit.Str", "uint32", "kit.Num"]
AUTOT = ["int64", "uint32", "kit.Num", "int"]
LOCAL = 0.02   # share of types declared in the package itself
WIDTH = {"pair": 2, "triple": 3, "pairpk": 2}


def word(n, k=4):
    s = ""
    for _ in range(k):
        s = chr(97 + n % 26) + s
        n //= 26
    return s[0].upper() + s[1:]


def fname(i):
    return "Fld" + chr(64 + i // 10) + chr(97 + i % 10)


def conv(naming, *words):
    w = [x.lower() for x in words]
    if naming == "snake":
        return "_".join(w)
    s = "".join(x.capitalize() for x in w)
    return s if naming == "pascal" else s[0].lower() + s[1:]


class Writer:
    """Go source of one package and of the package its models import from."""
    def __init__(self, ws, name, naming, rng, tagkey="sql", light=False):
        self.ws, self.name, self.naming, self.rng, self.tagkey, self.light = ws, name, naming, rng, tagkey, light
        self.main, self.other, self.ext, self.twin, self.reg, self.cases = [], [], [], [], [], []
        self.exported = []

    def tag(self, k):
        if k not in TAGS:
            return ""
        v = '%s:"%s"' % (self.tagkey, TAGS[k])
        r = self.rng.random()
        if r < 0.15:
            v = 'json:"x,omitempty" ' + v
        if r > 0.9:
            return " " + json.dumps(v)
        return " `%s`" % v

    def typ(self, k, ids, params=False):
        r = self.rng
        if params and k not in ("ptrptr", "ptralias", "auto", "pkauto", "namedauto", "upperauto", "autoro") and r.random() < 0.7:
            # a type parameter of the struct
            return r.choice(["T", "U"] if k in KEYED or self.light else ["T", "U", "*T", "*U", "kit.Two[U]", "[]T"])
        if k == "ptrptr":
            return r.choice(["**string", "**int64", "***string"])
        if k == "ptralias":
            return "*PtrAlias"
        if k in ("auto", "pkauto", "namedauto", "upperauto", "autoro"):
            return r.choice(AUTOT if not self.light else ["int64"])
        if self.light:
            return r.choice(["string", "int64"])
        if k in KEYED:
            return r.choice(KEYT)
        return r.choice(TYPES)

    def struct(self, case, toks, start, prefix, pkg, params=False):
        """Body of the struct whose items start at toks[start] (1-based); returns (lines, next)"""
        out, i = [], start
        first = None
        if case["cols"]:
            first = fname(case["cols"][0]["p"][-1])
        while i <= len(toks) and toks[i - 1] != "close":
            t = toks[i - 1]
            if t in EMBS:
                lo = t in ("low", "lowptr")
                tn = ("emb" if lo else "Emb") + prefix + chr(64 + i)
                where = {"file": "other", "fileptr": "other", "pkg": "ext", "pkgptr": "ext"}.get(t, pkg)
                if pkg in ("ext", "twin"):
                    where = pkg
                if where == "ext" and pkg != "ext" and not self.light:
                    # a struct of the same name as another one, from another package of the same name
                    e = [x for x, at in case["exts"] if at != start]
                    if e:
                        where, tn = "twin", e[0]
                        case["exts"] = [x for x in case["exts"] if x[0] != tn]
                        case["as"][str(i)] = tn[-1]
                    else:
                        case["exts"].append((tn, start))
                body, j = self.struct(case, toks, i + 1, prefix, where if where in ("ext", "twin") else pkg, t in GENEMB)
                dst = getattr(self, where)
                if t in ("def", "defptr"):
                    dst.append("type Src%s struct {\n%s}\ntype %s Src%s\n" % (tn, "".join(body), tn, tn))
                elif t in ("alias", "aliasptr"):
                    dst.append("type Src%s struct {\n%s}\ntype %s = Src%s\n" % (tn, "".join(body), tn, tn))
                elif t in GENEMB:
                    dst.append("type %s[T, U any] struct {\n%s}\n" % (tn, "".join(body)))
                else:
                    dst.append("type %s struct {\n%s}\n" % (tn, "".join(body)))
                ref = ({"ext": "%sx.", "twin": "%sy."}[where] % self.name if where in ("ext", "twin") and pkg != where else "") + tn
                if t in GENEMB:
                    a = ["string", "int64"] if self.light else KEYT
                    ref += "[%s, %s]" % (("T", "U") if params and self.rng.random() < 0.5 else (self.rng.choice(a), self.rng.choice(a)))
                tag = ' `%s:"-"`' % self.tagkey if t in ("skipval", "skipptr") else ""
                out.append("\t%s%s%s\n" % ("*" if t in PTREMB else "", ref, tag))
                case["names"][i] = tn
                i = j + 1
                continue
            names = [fname(10 * i + s) for s in range(WIDTH.get(t, 1))]
            ty = self.typ(t, i, params)
            if t == "unexp":
                names = [n[0].lower() + n[1:] for n in names]
            elif t == "blank":
                names = ["_"]
            elif t in ("again", "againtag"):
                names = [first]
            elif t == "table":
                names, ty = ["_"], "sequel.TableName"
            elif t == "tablepriv":
                names, ty = ["table"], "sequel.TableName"
            elif t == "tableemb":
                names, ty = [""], "sequel.TableName"
            if t == "dupfirst":
                n = case["cols"][0]["n"]
                lit = LIT[n[1]] if n[0] == "tag" else conv(self.naming, "fld", fname(n[1])[3:])
                tag = ' `%s:"%s"`' % (self.tagkey, lit)
            else:
                tag = self.tag(t)
            for s, n in enumerate(names):
                case["names"][10 * i + s] = n
            if self.rng.random() < LOCAL * 5:
                ty = ty.replace("kit.", "")
            out.append("\t%s %s%s\n" % (", ".join(names), ty, tag))
            i += 1
        return out, i

    def add(self, case, idx):
        case = dict(case)
        case["names"], case["exts"], case["as"] = {}, [], {}
        w = word(idx)
        note = case["note"]
        tn = ("tab" if note == "unexported" else "Tab") + w
        body, _ = self.struct(case, case["t"], 1, w, "ext" if note == "ext" else "main")
        decl = "%s struct {\n%s}\n" % (tn, "".join(body))
        if note == "none":
            self.main.append("type " + decl)
        elif note == "group":
            self.main.append("type (\n%s)\n" % decl)
        elif note == "groupmid":
            self.main.append("type (\n\tKind%s int\n\n\t%s\n\tAfter%s []string\n)\n" % (w, decl, w))
        elif note == "ignore":
            self.main.append("// +sql:ignore\ntype " + decl)
        elif note == "ignoredoc":
            self.main.append("// %s says something.\n// +sql:ignore\ntype %s" % (tn, decl))
        elif note == "ignorelist":
            self.main.append("// +sql:readonly, ignore\ntype " + decl)
        elif note == "groupignore":
            self.main.append("type (\n\tFore%s struct {\n\t\tA string\n\t}\n\n\t// +sql:ignore\n\t%s\n)\n" % (w, decl))
            case["beside"] = "Fore" + w
        elif note == "readonly":
            self.main.append("// %s reads.\n// +sql:readonly\ntype %s" % (tn, decl))
        elif note == "generic":
            self.main.append("type " + decl.replace(" struct", "[T any] struct", 1))
        elif note == "unexported":
            self.main.append("type " + decl)
        elif note == "local":
            self.main.append("func Make%s() any {\n\ttype %s\n\treturn new(%s)\n}\n" % (w, decl, tn))
        elif note == "ext":
            self.ext.append("type " + decl)
            self.main.append("type %s %sx.%s\n" % (tn, self.name, tn))
        if note == "local":
            self.reg.append((idx, "Make%s()" % w))
        else:
            self.reg.append((idx, "new(%s)" % (tn + "[string]" * (note == "generic"))))
            if "beside" in case:
                self.reg.append((-idx, "new(%s)" % case["beside"]))
        case.update(id=idx, go=tn, pkg=self.name, naming=self.naming,
                    table=conv(self.naming, "tab", w) if case["tab"][0] == "conv" else "tbl_name")
        for col in case["cols"]:
            n = col["n"]
            col = col
            col["name"] = LIT[n[1]] if n[0] == "tag" else conv(self.naming, "fld", fname(n[1])[3:])
        del case["names"], case["exts"]
        self.cases.append(case)

    def imports(self, texts, pkgname, extra=()):
        s = "".join(texts)
        im = list(extra)
        if "PtrAlias" in s:
            texts = texts + ["type PtrAlias = *string\n"]
        for p, u in (("time", "time."), ("github.com/si3nloong/sqlgen/sequel", "sequel."), ("verifws/kit", "kit."), ("verifws/d/%sx" % self.name, self.name + "x.")):
            if u in s and not (pkgname.endswith("x") and u.endswith("x.")):
                im.append(p)
        im = ['"%s"' % x for x in im]
        if self.name + "y." in s:
            im.append('%sy "verifws/d/%sy"' % (self.name, self.name))
        out = "package %s\n\n" % pkgname
        if im:
            out += "import (\n%s)\n\n" % "".join("\t%s\n" % x for x in im)
        return out + "\n".join(texts)

    def write(self):
        d = os.path.join(self.ws.h, "d", self.name)
        os.makedirs(d)
        kinds = "type Str string\n\ntype Num uint32\n\ntype Two[V any] struct{ A, B V }\n"
        if not self.light:
            self.main.append(kinds)
        open(d + "/models.go", "w").write(self.imports(self.main, self.name))
        if self.other:
            open(d + "/zother.go", "w").write(self.imports(self.other, self.name))
        if self.ext:
            if not self.light:
                self.ext.append(kinds)
            os.makedirs(d + "x")
            open(d + "x/ext.go", "w").write(self.imports(self.ext, self.name + "x"))
        if self.twin:
            os.makedirs(d + "y")
            open(d + "y/ext.go", "w").write(self.imports(self.twin + [kinds], self.name + "x"))
        if not self.light:
            r = "package %s\n\n// All makes the models.\nvar All = map[int]func() any{\n" % self.name
            r += "".join("\t%d: func() any { return %s },\n" % x for x in self.reg) + "}\n"
            open(d + "/reg.go", "w").write(r)


def lines(p):
    if not os.path.exists(p):
        return []
    return [json.loads(json.loads(l)) for l in open(p) if l.strip()]


CHECKS = dict(invariants=["Exactly", "TableOnce", "Parts"], properties=["Stable"], constraints=["Emit"])


def declarations(c, errs):
    """TLC's declarations; with errs the refused ones, else the accepted ones"""
    base = dict(MinEmit=1)
    bad = {"pkro", "autoro", "ptrptr", "bad1", "bad2", "bad3", "bad4", "dupfirst", "again", "ptralias"}
    th = c.thorough
    bad.discard("" if th else "bad4")
    out, jobs, n = [], [], [0]

    def job(kinds, embs, notes, ntok, depth, minemit=1, sdepth=None, **kw):
        n[0] += 1
        f = os.path.join(c.tmp, "decl%d" % n[0])
        jobs.append(("Derive", dict(Kinds=kinds, Embs=embs, Notes=notes, MaxTok=ntok, MaxDepth=depth, MinEmit=minemit, Out=f),
                     dict(CHECKS, mem="4g", timeout=1500, depth=sdepth, **kw)))
        return f
    files = []
    if not errs:
        files.append((job(GOOD, set(), {"none"}, 2, 0), 900))
        files.append((job(CORE, set(), {"none"}, 4 if th else 3, 0), 5000 if th else 350))
        files.append((job(FEW, EMBS, {"none"}, 5 if th else 4, 2), 5000 if th else 350))
        files.append((job(FEW, {"val"}, NOTES - {"ext"}, 4, 1), 1500 if th else 250))
        files.append((job({"plain", "pk", "ro", "auto", "unexp"}, set(), {"ext"}, 2, 0), 60))
        files.append((job({"plain", "auto", "ro", "pair", "triple", "table", "skip", "named1", "unexp", "pk"}, EMBS - {"def", "defptr", "alias", "aliasptr"}, {"none"},
                          16, 4, 12, simulate="num=%d" % (3000 if th else 160), sdepth=17), 1500 if th else 250))
        files.append((job({"plain", "pk", "named1"}, {"gen", "genptr", "ptr", "pkg"}, {"none"}, 6 if th else 5, 2, 3), 800 if th else 120, 0, lambda t: "gen" in t or "genptr" in t))
        files.append((job({"plain"}, {"ptr", "pkg", "pkgptr"}, {"none"}, 10, 3, 6), 600 if th else 80, 0, twins))
        files.append((job({"plain", "againtag"}, {"val", "ptr", "low"}, {"none"}, 6, 2), 300 if th else 60))
        files.append((job({"plain"}, {"val"}, {"none"}, 13 if th else 12, 5, 9), 400 if th else 60, 4))
        files.append((job({"plain"}, {"ptr", "val", "pkg"}, {"none"}, 18, 6, 9, simulate="num=%d" % (20000 if th else 4000), sdepth=19), 400 if th else 60, 4))
    else:
        files.append((job(CORE | bad, set(), {"none"}, 3, 0), 1200 if th else 200))
        files.append((job({"plain", "auto"} | bad, EMBS - {"skipval", "skipptr"} if th else {"val", "fileptr", "pkg", "low"}, {"none"}, 4, 2), 1200 if th else 150))
        files.append((job({"plain", "auto", "pair", "skip", "table"} | bad, EMBS - {"def", "defptr", "alias", "aliasptr"}, {"none"}, 12, 3, 7,
                          simulate="num=%d" % (1500 if th else 100), sdepth=13), 800 if th else 100))
        files.append((job({"plain", "auto"} | bad, {"val"}, NOTES - SILENT_NOTES - {"ext"}, 3, 1), 600 if th else 80))
    c.tlc_all(jobs)
    rng = random.Random(c.seed)
    seen = set()
    for f, cap, *only in files:
        ls = lines(f)
        if only:
            ls = [x for x in ls if depth(x["t"]) >= only[0] and all(g(x["t"]) for g in only[1:])]
        ls = [x for x in ls if bool(x["errs"]) == errs and json.dumps([x["t"], x["note"]]) not in seen]
        u = {}
        for x in ls:
            u.setdefault(json.dumps([x["t"], x["note"]]), x)
        ls = list(u.values())
        c.cov["declarations_enumerated"] = c.cov.get("declarations_enumerated", 0) + len(ls)
        if len(ls) > cap:
            ls = pick(rng, ls, cap)
        seen.update(json.dumps([x["t"], x["note"]]) for x in ls)
        out += ls
    return out


def depth(toks):
    d = most = 0
    for t in toks:
        d += (t in EMBS) - (t == "close")
        most = max(most, d)
    return most


def twins(toks):
    """two structs of other packages are embedded in different structs"""
    at, up = set(), [0]
    for i, t in enumerate(toks):
        if t in EMBS:
            if t in ("pkg", "pkgptr") and "x" not in up:
                at.add(up[-1])
            up.append("x" if t in ("pkg", "pkgptr") else i + 1)
        elif t == "close":
            up.pop()
    return len(at) > 1


def pick(rng, ls, cap):
    """a sample in which every kind of item and every pair of neighbours occurs about equally often"""
    rng.shuffle(ls)
    cnt = {}
    feats = [set(x["t"]) | set(zip(x["t"], x["t"][1:])) | {("note", x["note"])} | {("err", e) for e in x["errs"]} for x in ls]
    left, out = list(range(len(ls))), []
    half = cap * 2 // 3
    # rare features first
    for _ in range(half):
        best = None
        for k in rng.sample(left, min(12, len(left))):
            s = sum(1.0 / (1 + cnt.get(f, 0)) for f in feats[k]) / (1 + len(feats[k]))
            if best is None or s > best[0]:
                best = (s, k)
        k = best[1]
        left.remove(k)
        out.append(ls[k])
        for f in feats[k]:
            cnt[f] = cnt.get(f, 0) + 1
    return out + [ls[k] for k in left[:cap - half]]


CONFIGS = [("mysql", False, "snake"), ("postgres", True, "camel"), ("sqlite", False, "pascal"), ("mysql", True, "pascal"),
           ("postgres", False, "snake"), ("sqlite", True, "camel"), ("postgres", True, "pascal"), ("mysql", False, "camel")]


def prepare(c):
    """writes, generates and compiles the accepted declarations; returns the probe"""
    ds = declarations(c, False)
    c.log("specification checked,", len(ds), "declarations")
    rng = random.Random(c.seed)
    rng.shuffle(ds)
    n = 16 if c.thorough else 8
    ws_, all_ = [], []
    for p in range(n):
        drv, quote, naming = CONFIGS[p % 8]
        w = Writer(c.ws, "p%d" % p, naming, random.Random(c.seed * 1000 + p), tagkey="db" if p % 8 == 5 else "sql")
        for k in range(p, len(ds), n):
            w.add(ds[k], k + 1)
        w.write()
        for x in w.cases:
            x["driver"], x["quote"] = drv, quote
        all_ += w.cases
        ws_.append(w)
    c.ws.gen_binary()

    def gen(p):
        drv, quote, naming = CONFIGS[p % 8]
        base = dict(Driver=drv, Quote=quote, Naming=naming, DB="d/db%d" % p, DBPkg="db", Tag="db" if p % 8 == 5 else "")
        jobs = [dict(base, Source=["./d/p%d" % p])]
        if ws_[p].ext and p % 2 == 0:
            # what the models import has been generated before
            jobs.insert(0, dict(base, Source=["./d/p%dx" % p]))
        return c.ws.generate(jobs, name="jobs%d" % p)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(gen, range(n)))
    for p, r in enumerate(res):
        for x in r:
            if x != "ok":
                raise wsmod.GenFailure("valid declarations were refused", "package p%d (%s): %s" % (p, CONFIGS[p % 8], x))
    c.log("generated")
    d = c.ws.harness("derive")
    s = "package main\n\nimport (\n" + "".join("\t\"verifws/d/p%d\"\n" % p for p in range(n)) + ")\n\nfunc init() {\n"
    s += "".join("\tpkgs[\"p%d\"] = p%d.All\n" % (p, p) for p in range(n)) + "}\n"
    open(os.path.join(c.ws.h, "derive", "reg.go"), "w").write(s)
    b = c.ws.build(d, "derive", generated=True)
    c.log("compiled")
    f = os.path.join(c.tmp, "cases.json")
    json.dump(all_, open(f, "w"))
    c.cov["declarations"] = len(all_)
    c.cov["equally_named_structs"] = sum(1 for x in all_ if x["as"])
    return b, f


def c09(c):
    b, f = prepare(c)
    c.replay(b, ["names", f])


def c11(c):
    b, f = prepare(c)
    c.replay(b, ["agree", f])


SURROUND = ["alone", "before", "after", "between", "first file", "last file"]


def good(w):
    return "type Good%s struct {\n\tA string `sql:\",pk\"`\n\tB int64\n}\n" % w


def c10(c):
    """every refused declaration in a package of its own, amid valid ones"""
    out = os.path.join(c.tmp, "refuse")
    mx = 3
    c.tlc("Refuse", dict(Drivers={"mysql", "postgres", "sqlite", "none", "oracle", "MySQL", "mssql", "pg"},
                         Kinds={"good", "missing", "empty", "space", "tabs", "badpkg"}, MaxSrc=mx, Out=out),
          invariants=["Refused", "Accepted", "Stops"], properties=["Ends"], constraints=["Emit"])
    confs = lines(out)
    ds = declarations(c, True)
    c.log("specification checked,", len(ds), "declarations,", len(confs), "configurations")
    c.cov["configurations_enumerated"] = len(confs)
    rng = random.Random(c.seed)
    rng.shuffle(ds)
    c.ws.gen_binary()
    jobs, what = [], []
    for k, d in enumerate(ds):
        drv, quote, naming = CONFIGS[k % 8]
        w = Writer(c.ws, "e%d" % k, naming, random.Random(c.seed * 7919 + k), light=True)
        w.add(d, k + 1)
        where = SURROUND[rng.randrange(len(SURROUND))]
        if where in ("before", "between"):
            w.main.append(good("After"))
        if where in ("after", "between"):
            w.main.insert(0, good("Before"))
        w.write()
        dd = os.path.join(c.ws.h, "d", w.name)
        if where == "first file":
            open(dd + "/zzz.go", "w").write("package %s\n\n" % w.name + good("Last"))
        if where == "last file":
            open(dd + "/aaa.go", "w").write("package %s\n\n" % w.name + good("First"))
        src = rng.choice(["./d/%s", "d/%s", c.ws.h + "/d/%s", "./d/%s/models.go", "./d/%s/**/*"]) % w.name
        jobs.append(dict(Driver=drv, Quote=quote, Naming=naming, DB="d/edb%d" % (k % 8), DBPkg="db", Source=[src]))
        what.append(dict(kind="declaration", declaration=d["t"], note=d["note"], faults=d["errs"], surroundings=where, source=src, dir=dd,
                         want="refused"))
    # configurations
    for nm in ("cgood", "cbad"):
        os.makedirs(os.path.join(c.ws.h, "d", nm))
    open(os.path.join(c.ws.h, "d", "cgood", "m.go"), "w").write("package cgood\n\n" + good(""))
    open(os.path.join(c.ws.h, "d", "cbad", "m.go"), "w").write("package cbad\n\ntype Bad struct {\n\tA string `sql:\"a b\"`\n}\n")
    SRC = {"good": "./d/cgood", "missing": "./d/nothing", "empty": "", "space": " ", "tabs": "\t \t", "badpkg": "./d/cbad"}
    rng.shuffle(confs)
    cap = 2000 if c.thorough else 160
    confs = sorted(confs, key=lambda x: (len(x["srcs"]) > 1, ))
    for x in confs[:cap]:
        jobs.append(dict(Driver="" if x["driver"] == "none" else x["driver"], DB="d/edb", DBPkg="db", Source=[SRC[s] for s in x["srcs"]]))
        what.append(dict(kind="configuration", driver=x["driver"], sources=x["srcs"], want=x["answer"]))
    n = 8
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda p: c.ws.generate(jobs[p::n], name="ejobs%d" % p), range(n)))
    rep = dict(runs=0, violations=[], samples=[], counts={})
    for p in range(n):
        for x, r in zip(what[p::n], res[p]):
            rep["runs"] += 1
            key = x["kind"] if x["kind"] == "configuration" else "/".join(sorted(x["faults"]))
            rep["counts"][key] = rep["counts"].get(key, 0) + 1
            bad = None
            if x["want"] == "accepted":
                if r != "ok":
                    bad = "a valid configuration is refused"
            elif r == "ok":
                bad = "an invalid %s is accepted" % x["kind"]
            elif r.startswith("error: panic:") or "no answer (crash)" in r:
                bad = "an invalid %s crashes the generator" % x["kind"]
            elif not r.startswith("error: ") or not r[7:].strip():
                bad = "the error says nothing"
            elif "dir" in x and os.path.exists(x["dir"] + "/generated.go"):
                bad = "code is generated for a package that is refused"
            if bad:
                y = dict(x)
                y.pop("dir", None)
                c.violation(bad + ": " + key, key, bad, y, r)
    c.cov["traces_validated_against_impl"] = c.cov.get("traces_validated_against_impl", 0) + rep["runs"]
    c.cov["refusals_by_fault"] = rep["counts"]
    c.cov.setdefault("samples", []).extend([dict((k, v) for k, v in x.items() if k != "dir") for x in what[:4]])
