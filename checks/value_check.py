"""C12: values written through the generated code read back equal, for every field type."""
import json, os, random, re

from tlc import Raw
from ws import FLAVOURS, GenFailure, H

# base types: expression -> class; the class tells the columns and the values
BASIC = {"bool": "bool", "string": "text", "int": "int", "int8": "int", "int16": "int", "int32": "int", "int64": "int", "uint": "int", "uint8": "int",
         "uint16": "int", "uint32": "int", "uint64": "int", "byte": "int", "rune": "rune", "float32": "float", "float64": "float", "time.Time": "time"}
NAMED = {"vt.Bool": "bool", "vt.Str": "text", "vt.Deep": "text", "vt.Int": "int", "vt.Int8": "int", "vt.Int16": "int", "vt.Int32": "int", "vt.Int64": "int", "vt.Uint": "int",
         "vt.Uint8": "int", "vt.Uint16": "int", "vt.Uint32": "int", "vt.Uint64": "int", "vt.Float32": "float", "vt.Float64": "float", "vt.AStr": "text", "vt.AInt": "int",
         "vt.ATime": "time", "time.Duration": "int", "time.Weekday": "int", "time.Month": "int", "reflect.Kind": "int", "vt.Level": "int", "vt.Kind": "text", "vt.Color": "int"}
BYTES = {"[]byte": "bytes", "vt.Bytes": "bytes", "[]uint8": "bytes", "vt.ABytes": "bytes", "sql.RawBytes": "bytes", "[4]byte": "bytes", "[300]byte": "bytes", "vt.Arr": "bytes",
         "[2]rune": "text", "vt.RuneArr": "text", "[]rune": "text", "vt.Runes": "text", "[3]int32": "list"}
ELEM = ["bool", "string", "int", "int8", "int16", "int32", "int64", "uint", "uint16", "uint32", "uint64", "float32", "float64"]
LISTS = ["[]" + e for e in ELEM] + ["[]vt.Str", "[]vt.Bool", "[]vt.Int8", "[]vt.Int64", "[]vt.Uint16", "[]vt.Uint64", "[]vt.Float32", "[]vt.AStr", "vt.Strs", "vt.Ints", "vt.Opt[string]", "vt.Opt[int64]",
        "[2]string", "[2]bool", "[2]vt.Str", "[3]int", "[2]float64", "[2]vt.Bool", "[1]string"]
JSON = ["[][]byte", "[][]string", "[][]int", "[]*string", "[]*int", "[]time.Time", "[]vt.Obj", "[]*vt.Obj", "[]vt.Bytes", "[]vt.Val2", "[2][]string", "[2]*int", "map[string]string", "map[string]int",
        "map[int]string", "map[string][]string", "map[string]any", "map[string]vt.Obj", "vt.Map", "vt.Names", "map[vt.Str]*int", "vt.Obj", "vt.Box[int]", "vt.Box[string]", "vt.Box[[]string]",
        "vt.Box[vt.Obj]", "struct { A int; B []string }", "struct { X map[string]int `json:\"x\"` }", "struct { A struct { B int } `json:\"aa\"` }", "struct { A int \"json:\\\"a\\\" x:\\\"`\\\"\" }",
        "*struct { P []struct { C *string `json:\"c\"` }; Q struct { D map[string]int } `json:\"q\"`; vt.Obj }", "struct { A, B int }", "struct { *vt.Obj; Z interface{} }",
        "any", "[]any", "vt.Valued", "vt.Scanned", "[]vt.Text", "map[string]vt.Text", "[2]vt.Text", "[]vt.JSON"]
OWN = {"vt.Text": "text", "vt.PText": "any", "vt.TextInt": "any", "vt.Val": "any", "vt.PVal": "any", "vt.ValInt": "any", "vt.JSON": "json", "vt.PJSON": "json",
       "json.RawMessage": "json", "json.Number": "text", "sql.NullString": "text", "sql.NullInt64": "int", "sql.NullInt32": "int", "sql.NullInt16": "int", "sql.NullByte": "int", "sql.NullBool": "bool",
       "sql.NullFloat64": "float", "sql.NullTime": "nulltime", "sql.Null[string]": "text", "sql.Null[int32]": "int", "netip.Addr": "text", "big.Int": "json", "url.URL": "json",
       "uuid.UUID": "text", "decimal.Decimal": "text", "civil.Date": "any", "civil.Time": "any", "civil.DateTime": "any", "orb.Point": "any", "net.IP": "bytes", "net.HardwareAddr": "bytes"}
UNPTR = {"any", "vt.APtr"}
NULLS = {"sql.Null"}
HUGE = {"uint", "uint64", "vt.Uint", "vt.Uint64"}


# bases of the types that are grown: how they are written inside of other types
def base(go, cls, kind):
    return Raw('[go |-> "%s", cls |-> "%s", kind |-> "%s"]' % (go, cls, kind))


BASES = [("bool", "bool", "bool"), ("string", "text", "text"), ("int", "int", "int"), ("int16", "int", "int"), ("int64", "int", "int"), ("uint8", "int", "byte"), ("byte", "int", "byte"), ("uint64", "int", "uint"),
         ("float32", "float", "float"), ("float64", "float", "float"), ("rune", "rune", "rune"), ("time.Time", "time", "json"), ("vt.ATime", "time", "json"), ("vt.Str", "text", "text"), ("vt.Deep", "text", "text"),
         ("vt.AStr", "text", "text"), ("vt.Bool", "bool", "bool"), ("vt.Int16", "int", "int"), ("vt.Uint8", "int", "byte"), ("vt.Uint64", "int", "uint"), ("vt.Float32", "float", "float"), ("vt.Level", "int", "int"),
         ("vt.Bytes", "bytes", "json"), ("vt.ABytes", "bytes", "json"), ("vt.Arr", "bytes", "json"), ("vt.Strs", "list", "json"), ("vt.Ints", "list", "json"), ("vt.Runes", "text", "json"), ("vt.Map", "json", "json"),
         ("vt.Obj", "json", "json"), ("vt.Text", "text", "json"), ("vt.PText", "any", "ptrown"), ("vt.TextInt", "any", "json"), ("vt.Val", "any", "own"), ("vt.PVal", "any", "own"), ("vt.ValInt", "any", "json"),
         ("vt.JSON", "json", "json"), ("vt.PJSON", "json", "ptrown"), ("json.RawMessage", "json", "json"), ("sql.NullString", "text", "json"), ("uuid.UUID", "text", "json"), ("decimal.Decimal", "text", "json"),
         ("any", "json", "any"), ("vt.APtr", "text", "ptr"), ("LStr", "text", "text"), ("LInt", "int", "int"), ("LObj", "json", "json"), ("LList", "list", "json"), ("XStr", "text", "text"), ("XObj", "json", "json"),
         ("LText", "text", "json")]
WRAPS = {"ptr", "slice", "array", "map", "box", "opt", "anon"}
LOCAL = """type (
	LStr  string
	LInt  int32
	LObj  struct {
		A int
		B []lstr
	}
	LList []string
	lstr  string
	lobj  struct{ C map[string]lstr }
	XStr  = lstr
	XObj  = lobj
	LText struct{ s string }
)

func (t LText) MarshalText() ([]byte, error)     { return []byte("l" + t.s), nil }
func (t *LText) UnmarshalText(b []byte) error { t.s = string(b[1:]); return nil }
func (t *LText) Make(s string)                 { t.s = s }

"""


def universe():
    out = []
    for d in (BASIC, NAMED, BYTES):
        out += list(d.items())
    out += [(e, "list") for e in LISTS] + [(e, "json") for e in JSON if e != "[]vt.Val2"] + list(OWN.items())
    out += [("*" + e, c) for e, c in list(out) if e not in UNPTR and e[0] != "*"]
    out += [("vt.APtr", "text")]
    return out


def source(types):
    s = "package vals\n\nimport (\n"
    imps = {"time": "time", "sql": "database/sql", "json": "encoding/json", "vt": "verifws/vt", "netip": "net/netip", "big": "math/big", "url": "net/url", "reflect": "reflect", "net": "net",
            "uuid": "github.com/google/uuid", "decimal": "github.com/shopspring/decimal", "civil": "cloud.google.com/go/civil", "orb": "github.com/paulmach/orb"}
    s += "".join("\t%s\"%s\"\n" % ("" if v.endswith(k) else k + " ", v) for k, v in imps.items() if any(k + "." in e for e, _ in types)) + ")\n\n" + LOCAL
    for i, (e, c) in enumerate(types):
        s += "// T%d: %s\ntype T%s struct {\n\tK int64 `sql:\",pk\"`\n\tA string\n\tV %s\n\tB string\n\tW %s\n}\n\n" % (i, e, word(i), e, e)
    return s


def word(n):
    return chr(97 + n // 676) + chr(97 + n // 26 % 26) + chr(97 + n % 26)


REG = """package ad

import (
	"reflect"

	"github.com/si3nloong/sqlgen/sequel"

	"verifws/f/FLAVOUR/db"
	"verifws/f/FLAVOUR/vals"
	"verifws/kit"
	"verifws/value/reg"
)

func set[T any](name string, m *kit.Model, col func(x any) sequel.ColumnClause[T]) {
	reg.Add("FLAVOUR", name, m, func(x any, v reflect.Value) sequel.SetClause {
		t, _ := v.Interface().(T)
		return db.Set(col(x), t)
	})
}

func init() {
%s}
"""


def build(c, types):
    w, jobs = c.ws, []
    src = source(types)
    w.sub(H + "/value/vt.go.txt", w.h + "/vt/vt.go", {})
    w.sub(H + "/value/main.go", w.h + "/value/main.go", {})
    w.sub(H + "/value/reg.go.txt", w.h + "/value/reg/reg.go", {})
    flavours = ["my", "pgq", "sq"]
    reg = "".join("\tset(\"T%d\", keyed[vals.T%s, *vals.T%s](\"T%d\"), func(x any) sequel.ColumnClause[REP%d] { return x.(*vals.T%s).ColumnV() })\n" % (i, word(i), word(i), i, i, word(i))
                  for i, (e, k) in enumerate(types))
    for fl in flavours:
        drv, quote = FLAVOURS[fl]
        name = "vl" + fl
        rep = {"FLAVOUR": name, "DRIVER": drv}
        base, a = os.path.join(w.h, "f", name), os.path.join(H, "adapter")
        os.makedirs(base + "/vals")
        open(base + "/vals/vals.go", "w").write(src)
        com = open(a + "/common.go.txt").read().replace("\tEnv.Ops = opTable()\n", "")
        os.makedirs(base + "/ad")
        for k, v in rep.items():
            com = com.replace(k, v)
        open(base + "/ad/common.go", "w").write(com)
        w.sub(a + ("/pg.go.txt" if drv == "postgres" else "/my.go.txt"), base + "/ad/drv.go", rep)
        r = REG % reg
        for i, (e, k) in enumerate(types):
            r = r.replace("REP%d]" % i, typ(e) + "]")
        r = r.replace("FLAVOUR", name)
        imps = {"time": "time", "sql": "database/sql", "json": "encoding/json", "vt": "verifws/vt", "netip": "net/netip", "big": "math/big", "url": "net/url", "net": "net",
                "uuid": "github.com/google/uuid", "decimal": "github.com/shopspring/decimal", "civil": "cloud.google.com/go/civil", "orb": "github.com/paulmach/orb"}
        r = r.replace("import (\n", "import (\n" + "".join("\t%s\"%s\"\n" % ("" if v.endswith(k) else k + " ", v) for k, v in imps.items() if any(k + "." in e for e, _ in types)), 1)
        open(base + "/ad/reg.go", "w").write(r)
        jobs.append(dict(Driver=drv, Quote=quote, Source=["./f/%s/vals" % name], DB="f/%s/db" % name, DBPkg="db"))
    for j, r in zip(jobs, w.generate(jobs)):
        if r != "ok":
            raise GenFailure("generation failed for %s" % j["Driver"], r)
    os.makedirs(w.h + "/vlflav")
    open(w.h + "/vlflav/flav.go", "w").write("package vlflav\n\nimport (\n\t\"verifws/kit\"\n" + "".join("\t%s \"verifws/f/vl%s/ad\"\n" % (f, f) for f in flavours) +
                                              ")\n\nvar All = []*kit.Env{%s}\n" % ", ".join(f + ".Env" for f in flavours))
    return w.build("./value", "value", generated=True)


def typ(e):
    return re.sub(r"\b(LStr|LInt|LObj|LList|XStr|XObj|LText)\b", r"vals.\1", e)


def grown(c, depth, bases, out):
    c.tlc("Types", dict(Depth=depth, Bases=Raw("{%s}" % ", ".join(base(*b).s for b in bases)), Wraps=WRAPS, Out=out), invariants=["Same", "Whole", "Known"], properties=["Settled"], constraints=["Emit"], mem="3g", timeout=900)
    return [json.loads(json.loads(l)) for l in dict.fromkeys(open(out))]


def c12(c):
    th = c.thorough
    types = universe()
    have = {e for e, _ in types}
    more = [t for t in grown(c, 3 if th else 2, BASES, os.path.join(c.tmp, "types")) if t["go"] not in have]
    c.cov["types_grown"] = len(more)
    rng = random.Random(c.seed)
    rng.shuffle(more)
    more = more[:int(os.environ.get("VERIF_TYPES", 0)) or (400 if th else 60)]
    types += [(t["go"], t["cls"]) for t in more]
    isptr = {t["go"] for t in more if t["ptr"]}
    b = build(c, types)
    c.log("built, %d types" % len(types))
    ops = {"insertone", "insert", "upsertone", "upsert", "update", "set", "find", "lock", "query"}
    files, jobs = [], []
    kw = dict(invariants=["ReadBack", "NullKept"], properties=["Frame", "Whole"], action_constraints=["Emit"], mem="3g", timeout=1500)
    for ptr in (False, True):
        for huge in (False, True):
            f = os.path.join(c.tmp, "val%d%d" % (ptr, huge))
            files.append((f, ptr, huge))
            jobs.append(("Value", dict(Kind=dict(ptr=ptr, huge=huge), Toks={"a", "b"}, Keys={"1", "2"}, MaxOps=2, Ops=ops, Out=f), dict(kw, view="view")))
    c.tlc_all(jobs)
    c.log("specification checked")
    arg = os.path.join(c.tmp, "types.json")
    json.dump([dict(name="T%d" % i, type=e, cls=k, ptr=e[0] == "*" or e == "vt.APtr" or e in isptr, huge=e.lstrip("*") in HUGE) for i, (e, k) in enumerate(types)], open(arg, "w"))
    out = os.path.join(c.tmp, "cases")
    with open(out, "w") as o:
        for f, ptr, huge in files:
            lines = list(dict.fromkeys(open(f)))
            c.cov["emitted"] = c.cov.get("emitted", 0) + len(lines)
            for l in lines:
                t = json.loads(json.loads(l))
                t["ptr"], t["huge"] = ptr, huge
                o.write(json.dumps(t) + "\n")
    c.replay(b, [arg, out, "thorough" if th else "quick", str(c.seed)], timeout=2400 if th else 800)
