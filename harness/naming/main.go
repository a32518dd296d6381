// naming converts identifiers, directly and by generating models.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"strings"
	"unicode"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"

	"verifws/kit"
)

type ident struct {
	ID    []string
	Words [][]int
}

// member is an identifier that occurs in a generated package.
type member struct {
	Pkg, Struct, Naming string
	Name, Want          string
	Field               int // -1: the struct itself
	Loose               bool
}

var pkgs = map[string]map[string]func() any{}

var pool = map[string][]rune{
	"U": []rune("AZIDMQ"), "l": []rune("azidmq"), "d": []rune("059"), "X": []rune("ÉΩЖ"), "x": []rune("éωж"), "_": []rune("_"),
}

var rep = new(kit.Report)

func spell(t ident, r *rand.Rand) string {
	var s []rune
	for _, c := range t.ID {
		p := pool[c]
		s = append(s, p[r.Intn(len(p))])
	}
	return string(s)
}

func want(name string, t ident, naming string) string {
	rs := []rune(name)
	var b strings.Builder
	for k, w := range t.Words {
		if naming == "snake" && k > 0 {
			b.WriteRune('_')
		}
		for j, p := range w {
			c := unicode.ToLower(rs[p-1])
			if j == 0 && (naming == "pascal" || naming == "camel" && k > 0) {
				c = unicode.ToUpper(c)
			}
			b.WriteRune(c)
		}
	}
	return b.String()
}

var runs = regexp.MustCompile(`_+`)

// squeeze forgets how many underscores the identifier itself has.
func squeeze(s string) string { return strings.Trim(runs.ReplaceAllString(s, "_"), "_") }

func loose(s string) bool { return strings.Contains(s, "__") || strings.HasSuffix(s, "_") }

func valid(s string) bool {
	for i, c := range s {
		if !unicode.IsLetter(c) && (i == 0 || !unicode.IsDigit(c) && c != '_') {
			return false
		}
	}
	return s != ""
}

func agree(got, want, name, naming string) bool {
	if naming == "snake" && loose(name) {
		return squeeze(got) == want && !strings.HasPrefix(got, "_")
	}
	return got == want
}

func bad(where, what, name, detail string) {
	rep.Add(kit.Violation{Sig: what + where, Where: where, What: what, Case: map[string]any{"identifier": name}, Detail: detail})
}

func convert(naming, s string) (out string, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			bad(naming, "conversion panics", s, fmt.Sprint(r))
			ok = false
		}
	}()
	c := codegen.Config{NamingConvention: codegen.SnakeCase}
	switch naming {
	case "camel":
		c.NamingConvention = codegen.CamelCase
	case "pascal":
		c.NamingConvention = codegen.PascalCase
	}
	return c.RenameFunc()(s), true
}

func check(naming, name, want, where string, got string) {
	if !agree(got, want, name, naming) {
		bad(where, "an identifier is converted wrongly", name, fmt.Sprintf("got %q want %q", got, want))
	}
}

func direct(ids []ident) {
	rounds := 2
	if kit.Thorough() {
		rounds = 6
	}
	kit.Parallel(len(ids), func(i int) {
		r := kit.Rng(fmt.Sprint("direct", i))
		for k := 0; k < rounds; k++ {
			name := spell(ids[i], r)
			for _, naming := range []string{"snake", "camel", "pascal"} {
				got, ok := convert(naming, name)
				if !ok {
					continue
				}
				w := want(name, ids[i], naming)
				check(naming, name, w, naming, got)
				if !valid(got) {
					bad(naming, "a converted name is no valid column name", name, fmt.Sprintf("%q", got))
				}
				if again, _ := convert(naming, name); again != got {
					bad(naming, "two conversions of one identifier differ", name, fmt.Sprintf("%q, %q", got, again))
				}
				if naming == "snake" {
					if again, _ := convert(naming, got); again != got {
						bad(naming, "converting a snake case name changes it", name, fmt.Sprintf("%q becomes %q", got, again))
					}
				}
				rep.Count(naming, 1)
				rep.Run(1)
			}
			if i%500 == 0 && k == 0 {
				rep.Sample(map[string]any{"identifier": name, "words": ids[i].Words})
			}
		}
	})
}

// compose writes packages whose structs and fields have the identifiers.
func compose(ids []ident, dir string) {
	var all []member
	for _, naming := range []string{"snake", "camel", "pascal"} {
		r := kit.Rng(naming)
		var src, reg strings.Builder
		pkg := "n" + naming
		fmt.Fprintf(&src, "package %s\n\n", pkg)
		fmt.Fprintf(&reg, "\n// All makes the models.\nvar All = map[string]func() any{\n")
		used := map[string]bool{"All": true}
		type group struct {
			names map[string]bool
			ms    []member
		}
		var groups []*group
		for _, t := range ids {
			name := spell(t, r)
			w := want(name, t, naming)
			ok := false
			m := member{Pkg: pkg, Naming: naming, Name: name, Want: w}
			for _, g := range groups {
				if len(g.ms) < 30 && !g.names[w] && !g.names["go:"+name] {
					g.names[w], g.names["go:"+name] = true, true
					g.ms = append(g.ms, m)
					ok = true
					break
				}
			}
			if !ok {
				groups = append(groups, &group{map[string]bool{w: true, "go:" + name: true}, []member{m}})
			}
		}
		k := 0
		for _, g := range groups {
			var sn, sw string
			for sn == "" || used[sn] {
				t := ids[(k*7+3)%len(ids)]
				k++
				sn = spell(t, r)
				sw = want(sn, t, naming)
			}
			used[sn] = true
			fmt.Fprintf(&src, "type %s struct {\n", sn)
			for j := range g.ms {
				g.ms[j].Struct, g.ms[j].Field = sn, j
				fmt.Fprintf(&src, "\t%s string\n", g.ms[j].Name)
				all = append(all, g.ms[j])
			}
			fmt.Fprintf(&src, "}\n\n")
			fmt.Fprintf(&reg, "\t%q: func() any { return new(%s) },\n", sn, sn)
			all = append(all, member{Pkg: pkg, Naming: naming, Struct: sn, Name: sn, Want: sw, Field: -1})
		}
		reg.WriteString("}\n")
		os.MkdirAll(dir+"/"+pkg, 0o755)
		os.WriteFile(dir+"/"+pkg+"/models.go", []byte(src.String()), 0o644)
		os.WriteFile(dir+"/"+pkg+"/reg.go", []byte("package "+pkg+"\n"+reg.String()), 0o644)
	}
	b, _ := json.Marshal(all)
	os.WriteFile(dir+"/members.json", b, 0o644)
}

func generated(file string) {
	var ms []member
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &ms); err != nil {
		panic(err)
	}
	for _, m := range ms {
		v := pkgs[m.Pkg][m.Struct]()
		where := "generated/" + m.Naming
		if m.Field < 0 {
			check(m.Naming, m.Name, m.Want, where+"/table", v.(interface{ TableName() string }).TableName())
		} else {
			cs := v.(interface{ Columns() []string }).Columns()
			if m.Field >= len(cs) {
				bad(where, "a column is missing", m.Name, fmt.Sprint(cs))
			} else {
				check(m.Naming, m.Name, m.Want, where, cs[m.Field])
			}
		}
		rep.Run(1)
	}
}

func main() {
	switch os.Args[1] {
	case "direct":
		direct(kit.Lines[ident](os.Args[2]))
		rep.Print()
	case "compose":
		compose(kit.Lines[ident](os.Args[2]), os.Args[3])
	case "generated":
		generated(os.Args[2])
		rep.Print()
	}
}
