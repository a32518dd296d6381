// gen edits models, switches the configuration and generates, again and again,
// and compares every output with that of a fresh generation.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"log"
	"log/slog"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"

	"verifws/kit"
)

type model struct {
	Fields []string
	Key    string
	Own    []string
	Wrong  string
	Base   bool
}

type config struct {
	Driver, Naming, Prefix, Db, Tag string
	Quote, Strict                   bool
}

type output struct {
	None bool
	Has  [][]string
}

type step struct {
	Op    string
	P, S  string
	What  string
	Key   string
	Value any
	M     model
	Pkgs  []string
	Ok    bool
	Src   map[string]map[string]model
	Cfg   config
	Out   map[string]output
}

var rep = new(kit.Report)

var modRoot = os.Args[4]

const genName = "generated.go"

var key = map[string]string{
	"none": "", "pk": "\tID int64 `sql:\",pk\" db:\"ident,pk\"`\n", "auto": "\tID int64 `sql:\",auto_increment\" db:\"ident,auto_increment\"`\n",
	"two": "\tK1 string `sql:\",pk\" db:\",pk\"`\n\tK2 int64 `sql:\"second,pk\" db:\",pk\"`\n",
}
var fields = map[string]string{
	"F1": "\tF1 string `sql:\"f_one\" db:\"f_uno\"`\n", "F2": "\tF2 *int64\n", "F3": "\tF3 time.Time\n", "F4": "\tF4 []string `sql:\"list\"`\n", "BaseA": "\tBaseA string\n",
}
var own = map[string]string{
	"TableName": "func (S) TableName() string { return \"own_S\" }", "Columns": "func (S) Columns() []string { return []string{\"own\"} }",
	"Values": "func (S) Values() []any { return []any{\"ownvalue\"} }", "Addrs": "func (v *S) Addrs() []any { return nil }",
	"SQLColumns": "func (S) SQLColumns() []string { return []string{\"own\"} }", "InsertPlaceholders": "func (S) InsertPlaceholders(row int) string { return \"(?)\" }",
	"InsertColumns": "func (S) InsertColumns() []string { return []string{\"own\"} }", "PK": "func (S) PK() (string, int, any) { return \"own\", 0, nil }",
	"HasPK": "func (S) HasPK() {}", "CompositeKey": "func (S) CompositeKey() ([]string, []int, []any) { return nil, nil, nil }",
	"IsAutoIncr": "func (S) IsAutoIncr() {}", "ScanAutoIncr": "func (v *S) ScanAutoIncr(int64) error { return nil }",
	"FindOneByPKStmt": "func (S) FindOneByPKStmt() (string, []any) { return \"own\", nil }", "UpdateOneByPKStmt": "func (v *S) UpdateOneByPKStmt() (string, []any) { return \"own\", nil }",
	"InsertOneStmt": "func (S) InsertOneStmt() (string, []any) { return \"own\", nil }", "F1Value": "func (v S) F1Value() any { return 1 }",
	"ColumnF1": "func (v *S) ColumnF1() int { return 1 }", "GetF1": "func (v S) GetF1() string { return v.ColumnF2x() }\n\nfunc (v S) ColumnF2x() string { return \"\" }",
}
var wrong = map[string]string{
	"TableName": "func (S) TableName() int { return 1 }", "Columns": "func (S) Columns() string { return \"\" }",
	"Values": "func (S) Values(x int) []any { return nil }", "Addrs": "func (S) Addrs() []string { return nil }",
}

// write puts the sources of a package.
func write(w, p string, ss map[string]model, r *rand.Rand) {
	dir := filepath.Join(w, p)
	os.MkdirAll(dir, 0o755)
	old, _ := filepath.Glob(dir + "/m_*.go")
	for _, f := range old {
		os.Remove(f)
	}
	var names []string
	for s, m := range ss {
		if m.Key != "absent" {
			names = append(names, s)
		}
	}
	sort.Strings(names)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	files := map[string]string{}
	uses := ""
	imp := strings.TrimPrefix(w, modRoot+"/")
	for i, s := range names {
		m := ss[s]
		var b strings.Builder
		b.WriteString("type " + s + " struct {\n" + key[m.Key])
		if m.Base {
			b.WriteString("\tbase.Base\n")
		}
		fs := append([]string{}, m.Fields...)
		sort.Strings(fs)
		for _, f := range fs {
			b.WriteString(fields[f])
		}
		b.WriteString("}\n")
		meth := ""
		for _, o := range m.Own {
			meth += "\n" + strings.ReplaceAll(own[o], "S)", s+")")
			meth = strings.ReplaceAll(meth, "own_S", "own_"+s)
			meth += "\n"
		}
		if m.Wrong != "none" {
			meth += "\n" + strings.ReplaceAll(wrong[m.Wrong], "S)", s+")") + "\n"
		}
		f := "m_all.go"
		if r.Intn(2) == 0 {
			f = fmt.Sprintf("m_%d.go", i)
		}
		files[f] += b.String() + "\n"
		if r.Intn(3) == 0 {
			f = "m_meth.go"
		}
		files[f] += meth
		uses += fmt.Sprintf("var _ = []any{%s{}.TableName, %s{}.Columns, (*%s).Addrs}\n", s, s, s)
	}
	if len(names) > 0 && r.Intn(2) == 0 {
		files["m_use.go"] = uses
	}
	files["m_doc.go"] = "const Doc = 1\n"
	for f, t := range files {
		head := "package " + p + "\n\n"
		if strings.Contains(t, "time.Time") {
			head += "import \"time\"\n\n"
		}
		if strings.Contains(t, "base.Base\n") {
			head += "import \"verifws/" + imp + "/base\"\n\n"
		}
		if err := os.WriteFile(filepath.Join(dir, f), []byte(head+t), 0o644); err != nil {
			panic(err)
		}
	}
}

func generate(c config, pkgs, all []string, r *rand.Rand) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	strict := c.Strict
	g := &codegen.Config{Driver: codegen.SqlDriver(c.Driver), QuoteIdentifier: c.Quote, SkipModTidy: true, Strict: &strict, Tag: c.Tag}
	if c.Naming == "camel" {
		g.NamingConvention = codegen.CamelCase
	}
	g.Getter.Prefix = c.Prefix
	g.Database = &codegen.DatabaseConfig{Dir: c.Db, Package: c.Db, Filename: "db.go"}
	if len(pkgs) == len(all) && r.Intn(2) == 0 {
		g.Source = []string{"./**/*"}
	} else {
		for _, p := range pkgs {
			g.Source = append(g.Source, []string{"./" + p, p + "/*.go", "./" + p + "/**"}[r.Intn(3)])
		}
		r.Shuffle(len(g.Source), func(i, j int) { g.Source[i], g.Source[j] = g.Source[j], g.Source[i] })
	}
	return codegen.Generate(g)
}

func methods(b []byte) ([]string, error) {
	f, err := parser.ParseFile(token.NewFileSet(), "", b, 0)
	if err != nil {
		return nil, err
	}
	var out []string
	for _, d := range f.Decls {
		if fn, ok := d.(*ast.FuncDecl); ok && fn.Recv != nil {
			t := fn.Recv.List[0].Type
			if st, ok := t.(*ast.StarExpr); ok {
				t = st.X
			}
			out = append(out, t.(*ast.Ident).Name+"."+fn.Name.Name)
		}
	}
	sort.Strings(out)
	return out, nil
}

func read(fs []string) map[string][]byte {
	out := map[string][]byte{}
	for _, f := range fs {
		if b, err := os.ReadFile(f); err == nil {
			out[f] = b
		}
	}
	return out
}

func put(fs []string, m map[string][]byte) {
	for _, f := range fs {
		if b, ok := m[f]; ok {
			os.WriteFile(f, b, 0o644)
		} else {
			os.Remove(f)
		}
	}
}

func differ(a, b map[string][]byte, fs []string) string {
	for _, f := range fs {
		if !bytes.Equal(a[f], b[f]) {
			return f
		}
	}
	return ""
}

func firstDiff(a, b []byte) string {
	x, y := strings.Split(string(a), "\n"), strings.Split(string(b), "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		l, m := "", ""
		if i < len(x) {
			l = x[i]
		}
		if i < len(y) {
			m = y[i]
		}
		if l != m {
			return fmt.Sprintf("line %d: %q against %q", i+1, l, m)
		}
	}
	return ""
}

type final struct {
	w    string
	src  map[string]map[string]model
	cfg  config
	hist []string
}

func run(hist []step, w string, pkgs []string, r *rand.Rand) *final {
	for _, p := range pkgs {
		os.MkdirAll(filepath.Join(w, p), 0o755)
	}
	if err := os.Chdir(w); err != nil {
		panic(err)
	}
	src := map[string]map[string]model{}
	for _, p := range pkgs {
		src[p] = map[string]model{}
	}
	src["base"]["Base"] = model{Fields: []string{"BaseA"}, Key: "none", Wrong: "none"}
	for _, p := range pkgs {
		write(w, p, src[p], r)
	}
	var outs []string
	for _, p := range pkgs {
		outs = append(outs, filepath.Join(w, p, genName))
	}
	var logs []string
	var begin step
	var last config
	var before map[string][]byte
	for _, s := range hist {
		switch s.Op {
		case "edit":
			logs = append(logs, fmt.Sprintf("%s %s.%s %+v", s.What, s.P, s.S, s.M))
			src[s.P][s.S] = s.M
			write(w, s.P, src[s.P], r)
		case "switch":
			logs = append(logs, fmt.Sprintf("switch %s to %v", s.Key, s.Value))
		case "begin":
			begin = s
			logs = append(logs, fmt.Sprintf("generate %v", s.Pkgs))
			before = read(outs)
		case "end":
			cs := map[string]any{"history": append([]string{}, logs...), "configuration": s.Cfg}
			bad := func(what, where, detail string) {
				rep.Add(kit.Violation{Sig: what + where, Where: where, What: what, Case: cs, Detail: detail})
			}
			seed := r.Int63()
			gen := func() error { return generate(s.Cfg, begin.Pkgs, pkgs, rand.New(rand.NewSource(seed))) }
			all := append(append([]string{}, outs...), filepath.Join(w, s.Cfg.Db, "db.go"), filepath.Join(w, s.Cfg.Db, "operator.go"))
			err := gen()
			rep.Run(1)
			if (err == nil) != s.Ok {
				bad("a run succeeds or fails unexpectedly", "", fmt.Sprint(err))
				return nil
			}
			got := read(all)
			ran := map[string]bool{}
			for _, p := range begin.Pkgs {
				ran[p] = true
			}
			for _, p := range pkgs {
				f := filepath.Join(w, p, genName)
				if !ran[p] && !bytes.Equal(before[f], got[f]) {
					bad("a package that is not generated changes", p, "")
					return nil
				}
				if !ran[p] || err != nil {
					continue
				}
				_, ok := got[f]
				if ok == s.Out[p].None {
					bad("a generated file is there unexpectedly, or is missing", p, "")
					return nil
				}
				if !ok {
					continue
				}
				have, perr := methods(got[f])
				if perr != nil {
					bad("a generated file is not valid", p, perr.Error())
					return nil
				}
				var want []string
				for _, x := range s.Out[p].Has {
					want = append(want, x[0]+"."+x[1])
				}
				sort.Strings(want)
				if strings.Join(have, " ") != strings.Join(want, " ") {
					miss, extra := minus(want, have), minus(have, want)
					where := strings.Join(append(kinds(extra), kinds(miss)...), " ")
					bad("the generated methods are not those the models need", where, fmt.Sprintf("missing %v, too many %v", miss, extra))
					return nil
				}
			}
			last = s.Cfg
			if err != nil {
				rep.Count("failing", 1)
				continue
			}
			rep.Count("generated", 1)
			if err := gen(); err != nil {
				bad("generating again fails", "", err.Error())
				return nil
			}
			if f := differ(got, read(all), all); f != "" {
				bad("generating again changes the output", filepath.Base(f), firstDiff(got[f], read(all)[f]))
				return nil
			}
			put(all, nil)
			if err := gen(); err != nil {
				bad("a fresh generation fails", "", err.Error())
				return nil
			}
			fresh := read(all)
			for _, p := range pkgs {
				if f := filepath.Join(w, p, genName); ran[p] && !bytes.Equal(got[f], fresh[f]) {
					bad("the output is not that of a fresh generation", "", firstDiff(got[f], fresh[f]))
					return nil
				}
			}
			put(all, got)
			if r.Intn(60) == 0 {
				rep.Sample(cs)
			}
		}
	}
	// all packages in the last configuration
	for _, ss := range src {
		for _, m := range ss {
			if m.Key != "absent" && m.Wrong != "none" {
				return nil
			}
		}
	}
	if err := generate(last, pkgs, pkgs, r); err != nil {
		rep.Add(kit.Violation{Sig: "full", What: "generating all packages fails", Case: map[string]any{"history": logs}, Detail: err.Error()})
		return nil
	}
	// directories of database files in earlier configurations stay behind
	return &final{w, src, last, logs}
}

func kinds(ms []string) []string {
	var out []string
	for _, m := range ms {
		_, n, _ := strings.Cut(m, ".")
		out = append(out, n)
	}
	return out
}

func minus(a, b []string) []string {
	n := map[string]int{}
	for _, x := range b {
		n[x]++
	}
	var out []string
	for _, x := range a {
		if n[x]--; n[x] < 0 {
			out = append(out, x)
		}
	}
	return out
}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// compile builds all final trees with a program that calls the methods.
func compile(dir string, fins []*final) {
	root := modRoot
	var imports, body strings.Builder
	n := 0
	for i, f := range fins {
		if f == nil {
			continue
		}
		imp := "verifws/" + strings.TrimPrefix(f.w, root+"/")
		for p, ss := range f.src {
			var names []string
			for s, m := range ss {
				if m.Key != "absent" {
					names = append(names, s)
				}
			}
			if len(names) == 0 {
				continue
			}
			sort.Strings(names)
			a := fmt.Sprintf("p%d_%s", i, p)
			fmt.Fprintf(&imports, "\t%s %q\n", a, imp+"/"+p)
			for _, s := range names {
				m := ss[s]
				n++
				fmt.Fprintf(&body, "\tprobe(%d, %q, %s.%s{}, new(%s.%s), %#v)\n", i, p+"."+s, a, s, a, s, m.Own)
			}
		}
	}
	if n == 0 {
		return
	}
	prog := `package main

import (
	"fmt"
	"strings"

	"github.com/si3nloong/sqlgen/sequel"
` + imports.String() + `)

func bad(i int, s, what string) { fmt.Printf("%d\t%s\t%s\n", i, s, what) }

func probe(i int, s string, v, ptr any, own []string) {
	has := func(x string) bool {
		for _, y := range own {
			if x == y {
				return true
			}
		}
		return false
	}
	if _, ok := v.(sequel.Tabler); !ok {
		bad(i, s, "no table")
	}
	if _, ok := v.(sequel.Columner); !ok {
		bad(i, s, "no columns")
	}
	if _, ok := ptr.(sequel.Scanner); !ok {
		bad(i, s, "no addresses")
	}
	_, n, _ := strings.Cut(s, ".")
	type ins interface{ InsertOneStmt() (string, []any) }
	type fnd interface{ FindOneByPKStmt() (string, []any) }
	type upd interface{ UpdateOneByPKStmt() (string, []any) }
	if has("TableName") {
		if x := v.(sequel.Tabler).TableName(); x != "own_"+n {
			bad(i, s, "the table name of the user is not used")
		}
		if x, ok := v.(ins); ok && !has("InsertOneStmt") {
			if q, _ := x.InsertOneStmt(); !strings.Contains(q, "INSERT INTO own_"+n+" ") {
				bad(i, s, "inserting does not use the table name of the user: "+q)
			}
		}
		if x, ok := v.(fnd); ok && !has("FindOneByPKStmt") {
			if q, _ := x.FindOneByPKStmt(); !strings.Contains(q, "FROM own_"+n+" ") {
				bad(i, s, "finding does not use the table name of the user: "+q)
			}
		}
		if x, ok := v.(upd); ok && !has("UpdateOneByPKStmt") {
			if q, _ := x.UpdateOneByPKStmt(); !strings.Contains(q, "UPDATE own_"+n+" ") {
				bad(i, s, "updating does not use the table name of the user: "+q)
			}
		}
	}
	if x, ok := v.(ins); ok && has("Values") && !has("InsertOneStmt") {
		if _, a := x.InsertOneStmt(); len(a) != 1 || a[0] != "ownvalue" {
			bad(i, s, "inserting does not use the values of the user")
		}
	}
}

func main() {
` + body.String() + "}\n"
	pd := filepath.Join(dir, "probe")
	os.MkdirAll(pd, 0o755)
	if err := os.WriteFile(filepath.Join(pd, "main.go"), []byte(prog), 0o644); err != nil {
		panic(err)
	}
	bin := filepath.Join(dir, "probe.bin")
	cmd := exec.Command("go", "build", "-gcflags=-e", "-p", "2", "-o", bin, "./"+strings.TrimPrefix(pd, root+"/"))
	cmd.Dir = root
	if o, err := cmd.CombinedOutput(); err != nil {
		// the packages that do not compile
		seen := map[string]bool{}
		for _, l := range strings.Split(string(o), "\n") {
			for i, f := range fins {
				if f == nil || !strings.Contains(l, strings.TrimPrefix(f.w, root+"/")+"/") || seen[f.w] || strings.HasPrefix(l, "#") {
					continue
				}
				seen[f.w] = true
				rep.Add(kit.Violation{Sig: "compile" + fmt.Sprint(i%4), What: "the generated code does not compile", Case: map[string]any{"history": f.hist, "configuration": f.cfg}, Detail: l})
			}
		}
		if len(seen) == 0 {
			panic("building fails: " + string(o))
		}
		return
	}
	rep.Count("compiled models", n)
	o, err := exec.Command(bin).CombinedOutput()
	if err != nil {
		panic(string(o))
	}
	for _, l := range strings.Split(strings.TrimSpace(string(o)), "\n") {
		if f := strings.SplitN(l, "\t", 3); len(f) == 3 {
			var i int
			fmt.Sscan(f[0], &i)
			w, _, _ := strings.Cut(f[2], ":")
			rep.Add(kit.Violation{Sig: w, Where: f[1], What: w, Case: map[string]any{"history": fins[i].hist, "configuration": fins[i].cfg}, Detail: f[2]})
		}
	}
}

func main() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	log.SetOutput(io.Discard)
	hs := kit.Lines[[]step](os.Args[1])
	dir := os.Args[2]
	pkgs := strings.Split(os.Args[3], ",")
	out := os.Stdout
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	var fins []*final
	for i, h := range hs {
		fins = append(fins, run(h, filepath.Join(dir, fmt.Sprintf("w%d", i)), pkgs, kit.Rng(fmt.Sprint("gen", os.Args[1], i))))
	}
	os.Chdir(dir)
	compile(dir, fins)
	os.Stdout = out
	rep.Print()
	os.Chdir("/")
	os.RemoveAll(dir)
}
