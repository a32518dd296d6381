// conf loads, merges and writes configurations, and generates with them.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"log"
	"log/slog"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"

	"verifws/kit"
)

type file struct {
	Absent bool
	Given  []string
}

type kase struct {
	Files  []file
	Caller []string
	First  int
	Named  int
	Cfg    map[string]string
}

var names = []string{"sqlgen.yml", ".sqlgen.yml", ".sqlgen.yaml", "sqlgen.yaml"}

var rep = new(kit.Report)

// setting: how a value is given in a file and by a caller, and how it is read.
type setting struct {
	path string                 // in the file
	def  any                    // documented default
	vals func(level string) any // value given at a level
	set  func(c *codegen.Config, v any)
	get  func(c *codegen.Config) any
}

func db(c *codegen.Config) *codegen.DatabaseConfig {
	if c.Database == nil {
		c.Database = new(codegen.DatabaseConfig)
	}
	return c.Database
}

func op(c *codegen.Config) *codegen.DatabaseOperatorConfig {
	d := db(c)
	if d.Operator == nil {
		d.Operator = new(codegen.DatabaseOperatorConfig)
	}
	return d.Operator
}

func mig(c *codegen.Config) *codegen.MigrationConfig {
	if c.Migration == nil {
		c.Migration = new(codegen.MigrationConfig)
	}
	return c.Migration
}

func migGet(c *codegen.Config) *codegen.MigrationConfig {
	if c.Migration == nil {
		return new(codegen.MigrationConfig)
	}
	return c.Migration
}

func str(path string, def any, prefix, suffix string, f func(c *codegen.Config) *string) setting {
	return setting{path, def, func(l string) any { return prefix + strings.ReplaceAll(l, " ", "") + suffix },
		func(c *codegen.Config, v any) { *f(c) = v.(string) }, func(c *codegen.Config) any { return *f(c) }}
}

func flag(path string, f func(c *codegen.Config) *bool) setting {
	return setting{path, false, func(string) any { return true },
		func(c *codegen.Config, v any) { *f(c) = v.(bool) }, func(c *codegen.Config) any { return *f(c) }}
}

func dataType(key string) setting {
	return setting{"data_types." + key, nil, func(l string) any { return "TYPE_" + l },
		func(c *codegen.Config, v any) {
			if c.DataTypes == nil {
				c.DataTypes = map[string]*codegen.DataType{}
			}
			c.DataTypes[key] = &codegen.DataType{DataType: v.(string)}
		}, func(c *codegen.Config) any {
			if d := c.DataTypes[key]; d != nil {
				return d.DataType
			}
			return nil
		}}
}

var drivers = map[string]string{"file": "postgres", "caller": "sqlite", "other": "sqlite"}
var namings = map[string]string{"file": "camelCase", "caller": "PascalCase", "other": "PascalCase"}

var settings = map[string]setting{
	"src": {"src", []string{"./**/*"}, func(l string) any { return []string{"./" + l + "/*", "./more_" + l} },
		func(c *codegen.Config, v any) { c.Source = v.([]string) }, func(c *codegen.Config) any { return c.Source }},
	"driver": {"driver", "mysql", func(l string) any { return drivers[l] },
		func(c *codegen.Config, v any) { c.Driver = codegen.SqlDriver(v.(string)) }, func(c *codegen.Config) any { return string(c.Driver) }},
	"naming": {"naming_convention", "snake_case", func(l string) any { return namings[l] },
		func(c *codegen.Config, v any) { setNaming(c, v.(string)) }, func(c *codegen.Config) any { return string(c.NamingConvention) }},
	"tag":      str("struct_tag", "sql", "tag", "", func(c *codegen.Config) *string { return &c.Tag }),
	"quote":    flag("quote_identifier", func(c *codegen.Config) *bool { return &c.QuoteIdentifier }),
	"readonly": flag("read_only", func(c *codegen.Config) *bool { return &c.ReadOnly }),
	"strict": {"strict", true, func(l string) any { return l != "file" && l != "other" },
		func(c *codegen.Config, v any) { b := v.(bool); c.Strict = &b },
		func(c *codegen.Config) any {
			if c.Strict == nil {
				return nil
			}
			return *c.Strict
		}},
	"skipempty":   flag("exec.skip_empty", func(c *codegen.Config) *bool { return &c.Exec.SkipEmpty }),
	"execfile":    str("exec.filename", "generated.go", "gen_", ".go", func(c *codegen.Config) *string { return &c.Exec.Filename }),
	"prefix":      str("getter.prefix", "Column", "Get", "", func(c *codegen.Config) *string { return &c.Getter.Prefix }),
	"dbpkg":       str("database.package", "db", "pkg", "", func(c *codegen.Config) *string { return &db(c).Package }),
	"dbdir":       str("database.dir", "db", "dir_", "", func(c *codegen.Config) *string { return &db(c).Dir }),
	"dbfile":      str("database.filename", "db.go", "base_", ".go", func(c *codegen.Config) *string { return &db(c).Filename }),
	"oppkg":       str("database.operator.package", nil, "opkg", "", func(c *codegen.Config) *string { return &op(c).Package }),
	"opdir":       str("database.operator.dir", nil, "odir_", "", func(c *codegen.Config) *string { return &op(c).Dir }),
	"opfile":      str("database.operator.filename", "operator.go", "oper_", ".go", func(c *codegen.Config) *string { return &op(c).Filename }),
	"migdsn":      migration("dsn", "", func(c *codegen.MigrationConfig) *string { return &c.DSN }),
	"migpkg":      migration("package", "migrate", func(c *codegen.MigrationConfig) *string { return &c.Package }),
	"migdir":      migration("dir", "migrate", func(c *codegen.MigrationConfig) *string { return &c.Dir }),
	"migfile":     migration("filename", "migrate.go", func(c *codegen.MigrationConfig) *string { return &c.Filename }),
	"omitgetters": flag("omit_getters", func(c *codegen.Config) *bool { return &c.OmitGetters }),
	"sourcemap":   flag("source_map", func(c *codegen.Config) *bool { return &c.SourceMap }),
	"skipheader":  flag("skip_header", func(c *codegen.Config) *bool { return &c.SkipHeader }),
	"skiptidy":    flag("skip_mod_tidy", func(c *codegen.Config) *bool { return &c.SkipModTidy }),
	"dtA":         dataType("example.com/a.T"),
	"dtB":         dataType("example.com/b.T"),
	"dtC":         dataType("example.com/c.T"),
}

func migration(k, def string, f func(c *codegen.MigrationConfig) *string) setting {
	return setting{"migration." + k, def, func(l string) any { return "m" + k + l },
		func(c *codegen.Config, v any) { *f(mig(c)) = v.(string) }, func(c *codegen.Config) any { return *f(migGet(c)) }}
}

func setNaming(c *codegen.Config, s string) {
	switch s {
	case "camelCase":
		c.NamingConvention = codegen.CamelCase
	case "PascalCase":
		c.NamingConvention = codegen.PascalCase
	default:
		c.NamingConvention = codegen.SnakeCase
	}
}

// scalar writes a YAML scalar in one of its styles.
func scalar(s string, r *rand.Rand) string {
	plain := s != "" && strings.Trim(s, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_./0123456789") == "" && s[0] != '.'
	switch k := r.Intn(3); {
	case k == 0 && plain:
		return s
	case k == 1:
		return "'" + strings.ReplaceAll(s, "'", "''") + "'"
	}
	return strconv.Quote(s)
}

// yaml writes the settings of a file; sections without settings are left out or empty.
func yaml(given []string, level string, r *rand.Rand, val func(s string) any) string {
	type node struct {
		kids map[string]*node
		val  any
	}
	root := &node{kids: map[string]*node{}}
	put := func(path []string, v any) {
		n := root
		for i, p := range path {
			if n.kids == nil {
				n.kids = map[string]*node{}
			}
			if n.kids[p] == nil {
				n.kids[p] = &node{}
			}
			n = n.kids[p]
			if i == len(path)-1 && v != nil {
				n.val = v
			}
		}
	}
	for _, s := range []string{"src", "driver", "exec", "getter", "database", "database.operator", "data_types"} {
		if r.Intn(5) == 0 {
			put(strings.Split(s, "."), nil)
		}
	}
	for _, g := range given {
		p := settings[g].path
		path := strings.SplitN(p, ".", 2)
		if len(path) == 2 && path[0] != "data_types" {
			path = strings.Split(p, ".")
		}
		put(path, val(g))
	}
	var b strings.Builder
	if r.Intn(2) == 0 {
		b.WriteString("# configuration\n")
	}
	var out func(n *node, ind string)
	out = func(n *node, ind string) {
		var ks []string
		for k := range n.kids {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		for _, k := range ks {
			x := n.kids[k]
			key := k
			if strings.ContainsAny(k, "./") {
				key = strconv.Quote(k)
			}
			switch v := x.val.(type) {
			case nil:
				b.WriteString(ind + key + ":\n")
				out(x, ind+"  ")
			case string:
				if ind == "  " && strings.Contains(k, "example.com") {
					b.WriteString(ind + key + ":\n" + ind + "  data_type: " + scalar(v, r) + "\n")
					break
				}
				b.WriteString(ind + key + ": " + scalar(v, r) + "\n")
			case bool:
				b.WriteString(ind + key + ": " + strconv.FormatBool(v) + "\n")
			case []string:
				b.WriteString(ind + key + ":\n")
				for _, s := range v {
					b.WriteString(ind + "  - " + scalar(s, r) + "\n")
				}
			}
		}
	}
	out(root, "")
	return b.String()
}

func want(k *kase, s string, val func(level, s string) any) any {
	src := k.Cfg[s]
	st := settings[s]
	if rest, ok := strings.CutPrefix(src, "as "); ok {
		s2 := map[string]string{"oppkg": "dbpkg", "opdir": "dbdir"}[s]
		if rest == "default" {
			return settings[s2].def
		}
		return val(rest, s2)
	}
	switch src {
	case "none":
		if st.def == nil {
			return nil
		}
		if _, ok := st.def.(string); ok {
			return ""
		}
		return st.def
	case "default":
		return st.def
	}
	return val(src, s)
}

func given(level, s string) any { return settings[s].vals(level) }

func bad(what, setting string, k any, detail string) {
	rep.Add(kit.Violation{Sig: what + setting, Where: setting, What: what, Case: map[string]any{"case": k}, Detail: detail})
}

func safely(k any, f func()) {
	defer func() {
		if r := recover(); r != nil {
			bad("configuring panics", "", k, fmt.Sprint(r))
		}
	}()
	f()
}

func write(dir string, k *kase, r *rand.Rand, val func(level, s string) any) string {
	text := ""
	for i, f := range k.Files {
		if f.Absent {
			continue
		}
		level := "other"
		if i+1 == k.First {
			level = "file"
		}
		s := yaml(f.Given, level, r, func(s string) any { return val(level, s) })
		text += "--- " + names[i] + "\n" + s
		if err := os.WriteFile(filepath.Join(dir, names[i]), []byte(s), 0o644); err != nil {
			panic(err)
		}
	}
	return text
}

func clean(dir string) {
	for _, n := range names {
		os.Remove(filepath.Join(dir, n))
	}
}

// merge: the configuration that results from files and caller.
func merge(ks []kase, dir string) {
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	for i := range ks {
		k := &ks[i]
		r := kit.Rng(fmt.Sprint("conf", dir, i))
		text := write(dir, k, r, given)
		safely(k, func() {
			c := new(codegen.Config)
			for _, s := range k.Caller {
				settings[s].set(c, given("caller", s))
			}
			before, _ := json.Marshal(c)
			got := codegen.DefaultConfig().Merge(c)
			for s, st := range settings {
				if g, w := st.get(got), want(k, s, given); !reflect.DeepEqual(g, w) {
					bad("a setting has not its effective value", s, map[string]any{"files": text, "caller": k.Caller}, fmt.Sprintf("got %v want %v", g, w))
				}
			}
			if after, _ := json.Marshal(c); string(after) != string(before) {
				bad("merging changes the configuration of the caller", "", map[string]any{"files": text, "caller": k.Caller}, fmt.Sprintf("%s becomes %s", before, after))
			}
			// a file that is named is read by itself
			if k.First > 0 {
				lone, err := codegen.LoadConfigFrom(filepath.Join(dir, names[k.First-1]))
				if err != nil {
					bad("a configuration file is refused", "", text, err.Error())
					return
				}
				k2 := *k
				k2.Caller = nil
				lone = new(codegen.Config).Merge(lone)
				for s, st := range settings {
					if k.Cfg[s] == "file" {
						if g, w := st.get(lone), want(k, s, given); !reflect.DeepEqual(g, w) {
							bad("a setting of a named file has not its value", s, text, fmt.Sprintf("got %v want %v", g, w))
						}
					}
				}
			}
		})
		clean(dir)
		rep.Run(1)
		for s, v := range k.Cfg {
			if v == "caller" || v == "file" {
				rep.Count(s+"/"+v, 1)
			}
		}
		if i < 3 {
			rep.Sample(map[string]any{"files": text, "caller": k.Caller, "effective": k.Cfg})
		}
	}
}

var odd = []string{"yes", "null", "~", "1.0", "0x1F", "a: b", "- a", "#x", "'q'", `"q"`, "a'b", "{a}", "[a]", "*a", "&a", "!a", "%a", "@a", "`a`",
	"true", "été", "a b", " a ", "a#b", "a #b", "2020-01-01", "", "line\nbreak", `back\slash`, "|", ">", "?", ":", "-", "=", "<<", "12_3", "1e3", ".", "..", "./x", "no", "on", "Off", "012", "+1"}

// initial: a configuration that is written loads back as the same one.
func initial(ks []kase, dir string) {
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	for i := range ks {
		k := &ks[i]
		r := kit.Rng(fmt.Sprint("init", dir, i))
		c := new(codegen.Config)
		c.Init()
		for _, s := range append(append([]string{}, k.Caller...), fileGiven(k)...) {
			v := given("caller", s)
			switch s {
			case "driver":
				v = []string{"mysql", "postgres", "sqlite"}[r.Intn(3)]
			case "naming":
				v = []string{"snake_case", "camelCase", "PascalCase"}[r.Intn(3)]
			case "src":
				v = []string{odd[r.Intn(len(odd))] + "x", "./**/*", odd[r.Intn(len(odd))]}
			case "strict":
				v = r.Intn(2) == 0
			default:
				if x, ok := v.(string); ok && r.Intn(2) == 0 {
					v = odd[r.Intn(len(odd))]
					if v == "" {
						v = x
					}
				}
			}
			settings[s].set(c, v)
			if strings.HasPrefix(s, "dt") {
				d := c.DataTypes[settings[s].path[len("data_types."):]]
				d.Scanner, d.Valuer = odd[r.Intn(len(odd))], odd[r.Intn(len(odd))]
				if r.Intn(2) == 0 {
					x := odd[r.Intn(len(odd))]
					d.SQLScanner = &x
				}
				if r.Intn(2) == 0 {
					x := "F({{.}}, 'a\"')" + odd[r.Intn(len(odd))]
					d.SQLValuer = &x
				}
			}
		}
		safely(c, func() {
			if r.Intn(2) == 0 {
				// there is an earlier, longer file
				os.WriteFile("sqlgen.yml", []byte("src:\n"+strings.Repeat("  - ./something_long_that_was_here_before\n", 200)), 0o644)
			}
			w := effective(c)
			if err := codegen.Init(c); err != nil {
				bad("a configuration cannot be written", "", c, err.Error())
				return
			}
			got, err := codegen.LoadConfigFrom("sqlgen.yml")
			if err != nil {
				b, _ := os.ReadFile("sqlgen.yml")
				bad("a written configuration cannot be read", "", c, err.Error()+"\n"+string(b))
				return
			}
			if g := effective(got); g != w {
				bad("a written configuration loads as another one", "", c, fmt.Sprintf("got  %s\nwant %s", g, w))
			}
			if g := effective(codegen.DefaultConfig()); g != w {
				bad("a written configuration is not the one in effect", "", c, fmt.Sprintf("got  %s\nwant %s", g, w))
			}
		})
		clean(dir)
		rep.Run(1)
		rep.Count("written", 1)
	}
}

func fileGiven(k *kase) []string {
	if k.First == 0 {
		return nil
	}
	return k.Files[k.First-1].Given
}

func effective(c *codegen.Config) string {
	e := new(codegen.Config).Merge(c)
	if len(e.DataTypes) == 0 {
		e.DataTypes = nil
	}
	b, err := json.Marshal(e)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// ---------------------------------------------------------------- end to end

// The sources: one package per value of src, each with a struct whose tags name
// every level's column differently.
const model = `package %s

type ModelOne struct {
	IDNum int64 ` + "`sql:\"c_default,pk\" tagfile:\"c_file,pk\" tagcaller:\"c_caller,pk\" tagother:\"c_other,pk\"`" + `
	OtherCol string
}
`

func seen(dir string) []string {
	var out []string
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && strings.HasSuffix(p, ".go") && i.Name() != "m.go" {
			rel, _ := filepath.Rel(dir, p)
			out = append(out, rel)
		}
		return nil
	})
	sort.Strings(out)
	return out
}

// literal returns the string constants of the named method or function.
func literals(f *ast.File, name string) []string {
	var out []string
	for _, d := range f.Decls {
		if fn, ok := d.(*ast.FuncDecl); ok && fn.Name.Name == name && fn.Body != nil {
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
					s, _ := strconv.Unquote(l.Value)
					out = append(out, s)
				}
				return true
			})
		}
	}
	return out
}

func hasFunc(f *ast.File, name string) bool {
	for _, d := range f.Decls {
		if fn, ok := d.(*ast.FuncDecl); ok && fn.Name.Name == name {
			return true
		}
	}
	return false
}

// full generates with the configuration and reads the effective settings off the output.
// tidied is the file the stand-in of the go command leaves when it is asked to tidy the module.
const goStub = `#!/bin/sh
if [ "$1 $2" = "mod tidy" ]; then
	echo "$PWD" >> "$VERIF_TIDY"
	exit 0
fi
exec "$VERIF_GO" "$@"
`

// line gives the sources and the configuration file on the command line of the built program.
func line(bin, d string, k *kase, src string, tidy *bool) error {
	stub := filepath.Join(filepath.Dir(d), "stub")
	os.MkdirAll(stub, 0o755)
	os.WriteFile(filepath.Join(stub, "go"), []byte(goStub), 0o755)
	real, err := exec.LookPath("go")
	if err != nil {
		panic(err)
	}
	log := filepath.Join(stub, "log")
	os.Remove(log)
	args := []string{}
	if len(k.Caller) > 0 {
		args = []string{"generate", src}
	} else if k.Named > 0 {
		args = []string{[]string{"-c", "--config"}[k.Named%2], "etc/named.yaml"}
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = d
	cmd.Env = append(os.Environ(), "PATH="+stub+":"+os.Getenv("PATH"), "VERIF_GO="+real, "VERIF_TIDY="+log)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("sqlgen %s: %v\n%s", strings.Join(args, " "), err, out)
	}
	b, _ := os.ReadFile(log)
	*tidy = len(b) > 0
	rep.Count("command line", 1)
	return nil
}

func full(ks []kase, dir, bin string) {
	val := func(level, s string) any {
		if s == "src" {
			return []string{"./src_" + level}
		}
		return given(level, s)
	}
	for i := range ks {
		k := &ks[i]
		r := kit.Rng(fmt.Sprint("full", dir, i))
		d := filepath.Join(dir, fmt.Sprintf("w%d", i))
		for _, p := range []string{"src_default", "src_file", "src_caller", "src_other"} {
			os.MkdirAll(filepath.Join(d, p), 0o755)
			os.WriteFile(filepath.Join(d, p, "m.go"), []byte(fmt.Sprintf(model, p)), 0o644)
		}
		if err := os.Chdir(d); err != nil {
			panic(err)
		}
		text := write(d, k, r, val)
		cs := map[string]any{"files": text, "caller": k.Caller, "named": k.Named}
		c := new(codegen.Config)
		if k.Named > 0 {
			os.MkdirAll("etc", 0o755)
			os.Rename(names[k.Named-1], "etc/named.yaml")
			if bin == "" {
				var err error
				if c, err = codegen.LoadConfigFrom("etc/named.yaml"); err != nil {
					bad("a configuration file is refused", "", cs, err.Error())
					continue
				}
			}
		}
		c.SkipModTidy = true
		for _, s := range k.Caller {
			settings[s].set(c, val("caller", s))
		}
		err := error(nil)
		tidy := false
		safely(cs, func() {
			if bin != "" {
				err = line(bin, d, k, "./src_caller", &tidy)
			} else {
				err = codegen.Generate(c)
			}
		})
		rep.Run(1)
		rep.Count("generated", 1)
		if err != nil {
			bad("a valid configuration is refused", "", cs, err.Error())
			continue
		}
		eff := func(s string) string { return fmt.Sprint(want(k, s, val)) }
		if bin != "" && tidy != (eff("skiptidy") == "false") {
			bad("the module is tidied against the setting", "skiptidy", cs, fmt.Sprintf("tidied %v", tidy))
		}
		gen := eff("execfile")
		var expect []string
		src := []string{"src_default", "src_file", "src_caller", "src_other"}
		if k.Cfg["src"] != "default" {
			src = []string{"src_" + k.Cfg["src"]}
		}
		for _, p := range src {
			expect = append(expect, p+"/"+gen)
		}
		dbf, opf := filepath.Join(eff("dbdir"), eff("dbfile")), filepath.Join(eff("opdir"), eff("opfile"))
		expect = append(expect, dbf, opf)
		sort.Strings(expect)
		if got := seen(d); !reflect.DeepEqual(got, expect) {
			bad("the files generated are not the configured ones", "", cs, fmt.Sprintf("got %v want %v", got, expect))
			continue
		}
		parse := func(f string) *ast.File {
			x, err := parser.ParseFile(token.NewFileSet(), filepath.Join(d, f), nil, 0)
			if err != nil {
				bad("a generated file is not valid", "", cs, err.Error())
			}
			return x
		}
		cmp := func(what, got, want string) {
			if got != want {
				bad("the output does not follow a setting", what, cs, fmt.Sprintf("got %q want %q", got, want))
			}
		}
		m, b, o := parse(src[0]+"/"+gen), parse(dbf), parse(opf)
		if m == nil || b == nil || o == nil {
			continue
		}
		cmp("dbpkg", b.Name.Name, eff("dbpkg"))
		cmp("oppkg", o.Name.Name, eff("oppkg"))
		cols := literals(m, "Columns")
		if len(cols) != 2 {
			bad("the output does not follow a setting", "columns", cs, fmt.Sprint(cols))
			continue
		}
		q := ""
		if eff("quote") == "true" {
			q = `"`
			if eff("driver") == "mysql" {
				q = "`"
			}
		}
		tag := k.Cfg["tag"]
		cmp("tag", cols[0], q+"c_"+tag+q)
		cmp("naming", cols[1], q+map[string]string{"snake_case": "other_col", "camelCase": "otherCol", "PascalCase": "OtherCol"}[eff("naming")]+q)
		if t := literals(m, "TableName"); len(t) == 1 {
			cmp("naming", t[0], q+map[string]string{"snake_case": "model_one", "camelCase": "modelOne", "PascalCase": "ModelOne"}[eff("naming")]+q)
		}
		if !hasFunc(m, eff("prefix")+"OtherCol") {
			bad("the output does not follow a setting", "prefix", cs, "no "+eff("prefix")+"OtherCol")
		}
		st := strings.Join(literals(m, "FindOneByPKStmt"), " ")
		mark := "?"
		if eff("driver") == "postgres" {
			mark = "$1"
		}
		if !strings.Contains(st, mark) {
			bad("the output does not follow a setting", "driver", cs, st)
		}
		os.Chdir("/")
		os.RemoveAll(d)
	}
}

func main() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	log.SetOutput(io.Discard)
	ks := kit.Lines[kase](os.Args[2])
	out := os.Stdout
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	switch os.Args[1] {
	case "merge":
		merge(ks, os.Args[3])
	case "init":
		initial(ks, os.Args[3])
	case "full":
		full(ks, os.Args[3], "")
	case "line":
		full(ks, os.Args[3], os.Args[4])
	}
	os.Stdout = out
	rep.Print()
}
