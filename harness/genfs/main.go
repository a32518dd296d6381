// genfs builds directory trees, runs the generator over sources in them and
// looks at every file afterwards.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"log"
	"log/slog"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"

	"verifws/kit"
)

type form struct{ Dirs, Name []string }
type source struct {
	Base []string
	Form form
}

// content is ["none"], ["stale"] or ["of", files]
type content []json.RawMessage

type step struct {
	Op    string
	D, F  []string
	Kind  string
	I     int
	Srcs  []source
	Limit bool
	Ok    bool
	Poss  [][2]json.RawMessage
	Db    [][]string
}

var rep = new(kit.Report)
var seen = map[string]string{}

func name(f []string) string { return strings.Join(f, "") }

// structName is the model that a file declares.
func structName(f []string) string {
	s := ""
	for _, p := range f {
		p = strings.Map(func(r rune) rune {
			if r == '.' || r == '_' || r == '-' {
				return -1
			}
			return r
		}, p)
		if p != "" {
			s += strings.ToUpper(p[:1]) + p[1:]
		}
	}
	return "M" + s
}

func text(f []string, fault string) string {
	n := structName(f)
	if f[0] == "util" {
		return "package pk\n\nconst " + n + " = 1\n\ntype hidden struct{ A int }\n"
	}
	switch fault {
	case "dup":
		return "package pk\n\ntype " + n + " struct {\n\tID int64 `sql:\",pk\"`\n\tA string `sql:\"a\"`\n\tB string `sql:\"a\"`\n}\n"
	case "auto":
		return "package pk\n\ntype " + n + " struct {\n\tID int64 `sql:\",auto_increment\"`\n\tA int64 `sql:\",auto_increment\"`\n}\n"
	case "foot":
		return "package pk\n\ntype " + n + " struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n\nfunc (" + n + ") Columns() int { return 1 }\n"
	}
	return "package pk\n\ntype " + n + " struct {\n\tID int64 `sql:\",pk\"`\n\tA string\n}\n"
}

const stale = "// Code generated by sqlgen, version 1.0.0; DO NOT EDIT.\n\npackage pk\n\nfunc (Gone) TableName() string {\n\treturn \"gone\"\n}\n"
const oldDb = "// Code generated by sqlgen, version 1.0.0; DO NOT EDIT.\n\npackage %s\n\nvar Old = 1\n"

// sourceText writes a source in one of its styles.
func sourceText(s source, w string, r *rand.Rand) string {
	parts := append([]string{}, s.Base...)
	parts = append(parts, s.Form.Dirs...)
	tail := name(s.Form.Name)
	if tail != "" {
		parts = append(parts, tail)
	}
	rel, _ := filepath.Rel("p", "x")
	_ = rel
	var t string
	k := r.Intn(5)
	switch {
	case k == 0:
		t = w + "/" + strings.Join(parts, "/")
	case parts[0] == "p" && k == 1 && len(s.Base) > 0:
		t = "../" + strings.Join(parts, "/")
	case parts[0] == "p":
		rest := strings.Join(parts[1:], "/")
		switch {
		case rest == "":
			t = []string{".", "./"}[r.Intn(2)]
		case k == 2:
			t = rest
		default:
			t = "./" + rest
		}
	default:
		t = "../" + strings.Join(parts, "/")
		if k == 3 {
			t = "./" + t
		}
	}
	if len(s.Form.Name) == 0 && len(s.Form.Dirs) == 0 && r.Intn(3) == 0 && !strings.HasSuffix(t, "/") {
		t += "/"
	}
	if r.Intn(8) == 0 {
		t = " " + t + "\t"
	}
	return t
}

func generate(c *codegen.Config) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return codegen.Generate(c)
}

func snapshot(w string) map[string]string {
	out := map[string]string{}
	filepath.Walk(w, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(w, p)
		if i.IsDir() {
			out[rel] = "directory"
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out[rel] = i.Mode().String() + "\x00" + string(b)
		return nil
	})
	return out
}

// models are the types that a generated file is for.
func models(src string) ([]string, error) {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, 0)
	if err != nil {
		return nil, err
	}
	set := map[string]bool{}
	for _, d := range f.Decls {
		if fn, ok := d.(*ast.FuncDecl); ok && fn.Recv != nil {
			t := fn.Recv.List[0].Type
			if st, ok := t.(*ast.StarExpr); ok {
				t = st.X
			}
			if id, ok := t.(*ast.Ident); ok {
				set[id.Name] = true
			}
		}
	}
	var out []string
	for n := range set {
		out = append(out, n)
	}
	sort.Strings(out)
	return out, nil
}

func put(p, s string) {
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
		panic(err)
	}
}

func limitSize(n uint64) func() {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(err)
	}
	lim := old
	lim.Cur = n
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		panic(err)
	}
	return func() {
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			panic(err)
		}
	}
}

type world struct {
	Dirs, Files  [][]string
	Full         bool
	DbDir, OpDir []string
}

func run(wd world, hist []step, w string, r *rand.Rand) {
	exec := []string{"generated.go", "zz_models_gen.go"}[r.Intn(2)]
	at := func(d []string, f string) string {
		return filepath.Join(append(append([]string{w}, d...), f)...)
	}
	for _, d := range wd.Dirs {
		os.MkdirAll(at(d, ""), 0o755)
		if wd.Full {
			for _, f := range wd.Files {
				put(at(d, name(f)), text(f, ""))
			}
		}
		put(at(d, "README.md"), "# "+name(d)+"\n")
	}
	put(at(wd.DbDir, "extra.go"), "package dbx\n\nvar Extra = 1\n")
	if strings.Join(wd.OpDir, "/") != strings.Join(wd.DbDir, "/") {
		put(at(wd.OpDir, "extra.go"), "package opx\n\nvar Extra = 1\n")
		put(at(wd.DbDir, "oper.go"), "package dbx\n\nvar Mine = 1\n")
		put(at(wd.OpDir, "db.go"), "package opx\n\nvar Mine = 1\n")
	}
	if err := os.Chdir(filepath.Join(w, "p")); err != nil {
		panic(err)
	}
	rel := func(d []string) string {
		s, _ := filepath.Rel(filepath.Join(w, "p"), at(d, ""))
		if r.Intn(2) == 0 {
			s = "./" + s
		}
		return s
	}
	dbs := [2]string{at(wd.DbDir, "db.go"), at(wd.OpDir, "oper.go")}
	pkgs := [2]string{"dbx", "opx"}
	if strings.Join(wd.OpDir, "/") == strings.Join(wd.DbDir, "/") {
		pkgs[1] = "dbx"
	}
	var log []string
	for _, s := range hist {
		switch s.Op {
		case "put":
			put(at(s.D, name(s.F)), text(s.F, ""))
		case "repair":
			put(at(s.D, name(s.F)), text(s.F, ""))
		case "take":
			os.Remove(at(s.D, name(s.F)))
		case "spoil":
			put(at(s.D, name(s.F)), text(s.F, s.Kind))
		case "block":
			put(at(s.D, exec+"/keep.txt"), "x")
		case "unblock":
			os.Remove(at(s.D, exec+"/keep.txt"))
			os.Remove(at(s.D, exec))
		case "leave":
			put(at(s.D, exec), stale)
		case "leavedb":
			put(dbs[s.I-1], fmt.Sprintf(oldDb, pkgs[s.I-1]))
		case "gen":
			var srcs []string
			for _, x := range s.Srcs {
				srcs = append(srcs, sourceText(x, w, r))
			}
			log = append(log, fmt.Sprintf("generate %q limit %v", srcs, s.Limit))
			c := &codegen.Config{Source: srcs, SkipModTidy: true}
			c.Exec.Filename = exec
			c.Database = &codegen.DatabaseConfig{Dir: rel(wd.DbDir), Package: pkgs[0], Filename: "db.go",
				Operator: &codegen.DatabaseOperatorConfig{Dir: rel(wd.OpDir), Package: pkgs[1], Filename: "oper.go"}}
			before := snapshot(w)
			failed := false
			restore := func() {}
			if s.Limit {
				restore = limitSize(uint64(100 + r.Intn(500)))
			}
			err := generate(c)
			restore()
			after := snapshot(w)
			cs := map[string]any{"history": log, "output": exec}
			bad := func(sig, where, what, detail string) {
				failed = true
				rep.Add(kit.Violation{Sig: what + sig, Where: where, What: what, Case: cs, Detail: detail})
			}
			shape := "?"
			if len(s.Srcs) > 0 {
				shape = strings.Join(s.Srcs[0].Form.Dirs, "/") + "/" + name(s.Srcs[0].Form.Name)
			}
			if (err == nil) != s.Ok {
				d := "no error"
				if err != nil {
					d = err.Error()
				}
				bad(shape, shape, "a run succeeds or fails unexpectedly", d)
			}
			// outputs
			outs := map[string]bool{}
			for _, p := range s.Poss {
				var d []string
				var cs []content
				if json.Unmarshal(p[0], &d) != nil || json.Unmarshal(p[1], &cs) != nil {
					panic(string(p[0]) + string(p[1]))
				}
				f, _ := filepath.Rel(w, at(d, exec))
				outs[f] = true
				got, ok := after[f]
				if before[f] == "directory" {
					outs[f] = false
					continue
				}
				_, src, _ := strings.Cut(got, "\x00")
				var want []string
				fits := false
				for _, c := range cs {
					var k string
					json.Unmarshal(c[0], &k)
					switch k {
					case "none":
						want = append(want, "no file")
						fits = fits || !ok
					case "stale":
						want = append(want, "the earlier file")
						fits = fits || src == stale
					case "of":
						var fs [][]string
						json.Unmarshal(c[1], &fs)
						var ms []string
						for _, f := range fs {
							ms = append(ms, structName(f))
						}
						sort.Strings(ms)
						want = append(want, strings.Join(ms, ","))
						if !ok {
							continue
						}
						if g, err := models(src); err == nil && strings.Join(g, ",") == strings.Join(ms, ",") {
							key := exec + strings.Join(ms, ",")
							if seen[key] == "" {
								seen[key] = src
							}
							fits = fits || seen[key] == src
						}
					}
				}
				if !fits {
					g := "no file"
					if ok {
						ms, err := models(src)
						g = "a file for " + strings.Join(ms, ",")
						if err != nil {
							g = "a broken file: " + err.Error() + "\n" + src
						} else if src == stale {
							g = "the earlier file"
						}
					}
					what := "a generated file is not that of the named sources"
					if err != nil || !s.Ok {
						what = "a failed run spoils a generated file"
					}
					bad(shape, shape, what, fmt.Sprintf("%s: got %s, want one of %v", f, g, want))
				}
			}
			for i, f := range dbs {
				f, _ = filepath.Rel(w, f)
				outs[f] = true
				_, src, _ := strings.Cut(after[f], "\x00")
				fits := false
				for _, k := range s.Db[i] {
					switch k {
					case "none":
						fits = fits || after[f] == ""
					case "old":
						fits = fits || src == fmt.Sprintf(oldDb, pkgs[i])
					case "new":
						key := fmt.Sprint("db", i, pkgs[i])
						if _, err := parser.ParseFile(token.NewFileSet(), "", src, 0); err == nil && seen[key] == "" && len(src) > 800 {
							seen[key] = src
						}
						fits = fits || src == seen[key] && src != ""
					}
				}
				if !fits {
					bad(f, f, "a database file is not as it should be", fmt.Sprintf("want %v, got %d bytes", s.Db[i], len(src)))
				}
			}
			// everything else
			for f, v := range before {
				if !outs[f] && after[f] != v {
					bad(shape, shape, "a run changes a file that is no output", f)
				}
			}
			for f := range after {
				if _, ok := before[f]; !ok && !outs[f] {
					bad(shape, shape, "a run creates a file that is no output", f)
				}
			}
			rep.Run(1)
			rep.Count("runs/"+map[bool]string{true: "complete", false: "failing"}[s.Ok], 1)
			for _, x := range s.Srcs {
				rep.Count("source/"+strings.Join(x.Form.Dirs, "/")+" "+name(x.Form.Name), 1)
			}
			if r.Intn(40) == 0 {
				rep.Sample(cs)
			}
			if failed {
				return
			}
		}
		if s.Op != "gen" {
			log = append(log, strings.TrimSpace(fmt.Sprint(s.Op, " ", strings.Join(s.D, "/"), "/", name(s.F), " ", s.Kind)))
		}
	}
}

func main() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	log.SetOutput(io.Discard)
	signal.Ignore(syscall.SIGXFSZ)
	var wd world
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &wd); err != nil {
		panic(err)
	}
	hs := kit.Lines[[]step](os.Args[2])
	dir := os.Args[3]
	out := os.Stdout
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	for i, h := range hs {
		w := filepath.Join(dir, fmt.Sprintf("w%d", i))
		run(wd, h, w, kit.Rng(fmt.Sprint("genfs", os.Args[2], i)))
		os.Chdir("/")
		os.RemoveAll(w)
	}
	os.Stdout = out
	rep.Print()
}
