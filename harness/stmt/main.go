// stmt replays the behaviours of Stmt.tla into the statement builder and the
// calls of Calls.tla into every helper, recording what is sent.
package main

import (
	"bufio"
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/si3nloong/sqlgen/sequel"

	"verifws/flav"
	"verifws/kit"
)

func main() {
	switch os.Args[1] {
	case "builder":
		builder(os.Args[2], os.Args[3] == "format")
	case "calls":
		calls(os.Args[2], os.Args[3])
	}
}

// ---- the builder

type act struct {
	A string `json:"a"`
	S int    `json:"s"`
	X int    `json:"x"`
}

type slot struct {
	Live  bool    `json:"live"`
	Text  [][]any `json:"text"`
	Args  []int   `json:"args"`
	Shown [][]any `json:"shown"`
}

type path struct {
	Hist []act  `json:"hist"`
	St   []slot `json:"st"`
}

type (
	myStr   string
	myInt   int16
	myFloat float32
	myBytes []byte
)

type val struct{ v driver.Value }

func (v val) Value() (driver.Value, error) {
	if e, ok := v.v.(error); ok {
		return nil, e
	}
	return v.v, nil
}

type ptrVal struct{ s string }

func (v *ptrVal) Value() (driver.Value, error) {
	if v == nil {
		return "nil pointer", nil
	}
	return v.s, nil
}

func ptr[T any](v T) *T { return &v }

var tm = time.Date(2024, 2, 29, 23, 59, 59, 123456789, time.FixedZone("x", 3600))

// values with the driver value that they stand for
var values = []struct{ v, want any }{
	{"plain", "plain"}, {nil, nil}, {int64(math.MinInt64), int64(math.MinInt64)}, {"it's \"q\" ? $1 \\ -- /* ; `b`", "it's \"q\" ? $1 \\ -- /* ; `b`"},
	{true, true}, {[]byte("by'te\\s\n\t?"), "by'te\\s\n\t?"}, {0.1, 0.1}, {tm, tm}, {"", ""}, {uint64(math.MaxUint64), uint64(math.MaxUint64)},
	{"\x00\x01\a\b\v\f\r\n\t\x1a\x7f é 日本 \U0001F600 \xff", "\x00\x01\a\b\v\f\r\n\t\x1a\x7f é 日本 \U0001F600 \xff"},
	{1e-20, 1e-20}, {1e300, 1e300}, {-123456789.123456789, -123456789.123456789}, {float32(0.5), 0.5}, {math.MaxFloat64, math.MaxFloat64},
	{myStr("?'"), "?'"}, {myInt(-7), int64(-7)}, {myFloat(2.25), 2.25}, {myBytes("x'y"), "x'y"}, {sql.RawBytes("raw ' ?"), "raw ' ?"},
	{val{"va'lue"}, "va'lue"}, {val{nil}, nil}, {val{int64(5)}, int64(5)}, {val{[]byte("$2")}, "$2"}, {val{tm}, tm}, {val{false}, false},
	{(*val)(nil), nil}, {(*ptrVal)(nil), "nil pointer"}, {&ptrVal{"p\\'"}, "p\\'"},
	{(*int)(nil), nil}, {ptr(9), int64(9)}, {ptr("po'int"), "po'int"}, {ptr(ptr(true)), true}, {(*time.Time)(nil), nil}, {ptr(tm), tm},
	{sql.NullString{}, nil}, {sql.NullString{String: "$1", Valid: true}, "$1"}, {sql.NullInt64{Int64: 3, Valid: true}, int64(3)}, {sql.NullTime{Time: tm, Valid: true}, tm},
	{json.RawMessage(`{"a":"?"}`), `{"a":"?"}`}, {int8(-128), int64(-128)}, {uint8(255), uint64(255)}, {uint(7), uint64(7)}, {int(42), int64(42)},
	{'x', int64('x')}, {time.Duration(99), int64(99)}, {"\\", "\\"}, {"'", "'"}, {"''", "''"}, {"\\'", "\\'"}, {"?", "?"}, {"$1", "$1"}, {"$10", "$10"},
	{[]byte(nil), nil}, {[]byte{}, ""}, {false, false}, {int64(math.MaxInt64), int64(math.MaxInt64)}, {-0.0, 0.0},
}

// odd values have no literal; rendering them must not panic.
var odd = []any{struct{ A int }{1}, []int{1, 2}, map[string]int{"a": 1}, val{errors.New("no ' value")}, complex(1, 2), make(chan int), func() {}, [2]int{1, 2},
	math.NaN(), math.Inf(1), math.Inf(-1), val{val{"x"}}, []string{"?"}, (*[]int)(nil), struct{}{}, errors.New("x"), [3]byte{1, 2, 3}}

// pieces of text by kind
func pieces(driver string) [][]string {
	p := [][]string{
		{"SELECT a FROM t WHERE b = ", " ", ",", ";", " AND c >= ", "(", ") ", " é日本 ", "x", " a-b ", " a / b "},
		{"'it''s ? and $1 and $10'", "'?'", "'$1'", "''", "'-- ?'", "'/* ?'", "'\"?'", "'`?'"},
		{"\"c?l$1\"", "\"?\"", "\"a''?\"", "\"$1\""},
		{" -- what? $1 $12 'x\n", " --\n", "-- ?'\n"},
		{" /* $1 ? ' \" */ ", "/**/", "/*?*/", "/* -- */"},
	}
	switch driver {
	case "mysql":
		p[1] = append(p[1], `'a\'?'`, `'\\'`, `"a\"?"`)
		p[2] = append(p[2], "`c?l$1`", "`?`", "`a\\`", "`''?`")
		p[0] = append(p[0], " $1 ", "$", "a$10")
	case "sqlite":
		p[1] = append(p[1], `'a\'`, `'\\?'`)
		p[2] = append(p[2], "`c?l$1`", "`?`")
		p[0] = append(p[0], "\\")
	case "postgres":
		p[1] = append(p[1], `'a\'`, `E'a\'?$1'`, `e'\\'`, `'\\$1'`)
		p[0] = append(p[0], " ? ", " ?| ", "$", "a$1", "é$1", "$a", "$0", " E ", "x$1$2", "`")
	}
	return p
}

func write(s sequel.Stmt, t string, how int) {
	switch how % 3 {
	case 0:
		s.WriteString(t)
	case 1:
		b := []byte(t)
		s.Write(b)
		for i := range b { // the builder must not keep the caller's bytes
			b[i] = '#'
		}
	case 2:
		for i := 0; i < len(t); i++ {
			s.WriteByte(t[i])
		}
	}
}

func builder(file string, format bool) {
	rep := &kit.Report{}
	paths := kit.Lines[path](file)
	rep.Distinct = len(paths)
	kit.Parallel(len(flav.All), func(i int) {
		e := flav.All[i]
		numbered := e.Driver == "postgres"
		ps := pieces(e.Driver)
		for pi, p := range paths {
			if !numbered {
				skip := false
				for _, a := range p.Hist {
					if a.A == "hold" || a.A == "flush" {
						skip = true
					}
				}
				if skip {
					continue
				}
			}
			rounds := 1
			if kit.Thorough() {
				rounds = 6
			}
			for r := 0; r < rounds; r++ {
				one(rep, e, p, ps, pi*7+r*131+int(kit.Seed()), format)
			}
		}
		rep.Count(e.Flavour, len(paths))
	})
	rep.Print()
}

func one(rep *kit.Report, e *kit.Env, p path, ps [][]string, salt int, format bool) {
	rep.Run(1)
	bad := func(what, f string, a ...any) {
		rep.Add(kit.Violation{Sig: what, Where: e.Flavour, What: what, Case: p, Detail: fmt.Sprintf(f, a...)})
	}
	ph := func(n int) string {
		if e.Driver == "postgres" {
			return "$" + strconv.Itoa(n)
		}
		return "?"
	}
	type cur struct {
		s    sequel.Stmt
		args []int // index into values, or -1-i into odd
		raw  []string
		held []string
	}
	cs := make([]cur, len(p.St))
	value := func(ix int) any {
		if ix < 0 {
			return odd[-1-ix]
		}
		return values[ix].v
	}
	pickVal := func(step, x int) int {
		n := salt + step*11 + x*5
		if format && n%17 == 0 {
			return -1 - n/17%len(odd)
		}
		return n % len(values)
	}
	err, panicked := kit.Safely(func() error {
		for k, a := range p.Hist {
			c := &cs[a.S-1]
			switch a.A {
			case "acquire":
				*c = cur{s: e.NewStmt()}
				if c.s.Query() != "" || len(c.s.Args()) != 0 {
					bad("a statement taken from the pool is not empty", "%q %v", c.s.Query(), c.s.Args())
				}
			case "release":
				e.Release(c.s)
				*c = cur{}
			case "reset":
				c.s.Reset()
				*c = cur{s: c.s}
			case "write":
				t := ps[a.X-1][(salt+k)%len(ps[a.X-1])]
				c.raw = append(c.raw, t)
				write(c.s, t, salt+k)
			case "var", "hold":
				ix := pickVal(k, a.X)
				c.args = append(c.args, ix)
				s := c.s.Var(value(ix))
				if want := ph(len(c.args)); s != want {
					bad("wrong placeholder", "argument %d: %q, want %q", len(c.args), s, want)
				}
				if a.A == "hold" {
					c.held = append(c.held, s)
				} else {
					write(c.s, s, salt)
				}
			case "flush":
				for i := len(c.held) - 1; i >= 0; i-- {
					write(c.s, c.held[i], 0)
				}
				c.held = nil
			case "vars":
				var vs []any
				for i := 1; i <= a.X; i++ {
					ix := pickVal(k, i)
					c.args = append(c.args, ix)
					vs = append(vs, value(ix))
				}
				write(c.s, c.s.Vars(vs), salt)
				for i := range vs { // nor the caller's slice
					vs[i] = "overwritten"
				}
			}
			if a.A != "release" && k%2 == salt%2 { // formatting on the way changes nothing
				_ = fmt.Sprintf("%v %s", c.s, c.s)
			}
		}
		return nil
	})
	if panicked {
		bad("the statement builder panics", "%v", err)
		return
	}
	for i, st := range p.St {
		c := cs[i]
		if !st.Live {
			continue
		}
		// the text: pieces with placeholders
		var want strings.Builder
		ri := 0
		var shown []any // string or index of a value
		first := true
		for _, t := range st.Text {
			n := int(t[1].(float64))
			switch t[0] {
			case "raw":
				want.WriteString(c.raw[ri])
				shown = append(shown, c.raw[ri])
				ri++
			case "open":
				want.WriteString("(")
				shown = append(shown, "(")
				first = true
			case "close":
				want.WriteString(")")
				shown = append(shown, ")")
			case "item", "var":
				if t[0] == "item" {
					if !first {
						want.WriteString(",")
						shown = append(shown, ",")
					}
					first = false
				}
				want.WriteString(ph(n))
				shown = append(shown, c.args[n-1])
			}
		}
		q, args := c.s.Query(), c.s.Args()
		if q != want.String() {
			bad("wrong statement text", "%q, want %q", q, want.String())
			continue
		}
		if len(args) != len(c.args) {
			bad("wrong number of arguments", "%d, want %d", len(args), len(c.args))
			continue
		}
		for k := range args {
			if !sameAny(args[k], value(c.args[k])) {
				bad("wrong argument", "%d: %#v, want %#v", k, args[k], value(c.args[k]))
			}
		}
		if !format || ambiguous(shown, c.args, ph) {
			continue
		}
		checkFormat(e, c.s, q, shown, bad)
		if c.s.Query() != q || len(c.s.Args()) != len(args) {
			bad("formatting changes the statement", "%q", c.s.Query())
		}
	}
	for _, c := range cs {
		if c.s != nil {
			e.Release(c.s)
		}
	}
}

// ambiguous texts have pieces that run together with what follows them into
// another token.
func ambiguous(shown []any, args []int, ph func(int) string) bool {
	var b strings.Builder
	for i, x := range shown {
		s, ok := x.(string)
		if !ok {
			s = ph(1)
		}
		if i > 0 {
			prev := b.String()
			if prev != "" && s != "" {
				l, f := prev[len(prev)-1], s[0]
				_, raw1 := shown[i-1].(string)
				if !(ok && raw1) && !strings.ContainsRune(" \n,;()=", rune(l)) && !strings.ContainsRune(" \n,;()=", rune(f)) {
					return true // a literal that runs into what is beside it
				}
				if l == f && strings.ContainsRune("'\"`-$", rune(l)) || l == '/' && f == '*' || l == '*' && f == '/' {
					return true
				}
				ident := func(c byte) bool {
					return c == '_' || c == '$' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
				}
				if ident(l) && (f == '\'' || ident(f)) {
					return true
				}
			}
		}
		b.WriteString(s)
	}
	return false
}

func sameAny(a, b any) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if a == nil {
		return true
	}
	v := reflect.ValueOf(a)
	switch v.Kind() {
	case reflect.Func, reflect.Chan, reflect.Pointer:
		return v.Pointer() == reflect.ValueOf(b).Pointer()
	case reflect.Float64:
		return math.Float64bits(a.(float64)) == math.Float64bits(b.(float64))
	}
	return reflect.DeepEqual(a, b)
}

func checkFormat(e *kit.Env, s sequel.Stmt, q string, shown []any, bad func(string, string, ...any)) {
	for _, f := range []string{"%s", "%v"} {
		if got := fmt.Sprintf(f, s); got != q {
			bad("the plain form is not the statement text", "%s: %q, want %q", f, got, q)
		}
	}
	for _, f := range []string{"%+v", "%#v"} {
		var out string
		err, panicked := kit.Safely(func() error { out = fmt.Sprintf(f, s); return nil })
		if panicked {
			bad("formatting panics", "%s: %v", f, err)
			continue
		}
		if strings.Contains(out, "PANIC=") {
			bad("formatting panics", "%s: %q", f, out)
			continue
		}
		rest := out
		for _, x := range shown {
			switch t := x.(type) {
			case string:
				if !strings.HasPrefix(rest, t) {
					bad("the rendering loses or changes text", "%q: at %q, want %q (text %q)", out, rest, t, q)
					return
				}
				rest = rest[len(t):]
			case int:
				if t < 0 {
					return // no defined literal
				}
				n, ok := literal(e.Driver, rest, values[t].want)
				if !ok {
					bad("a placeholder is not rendered as the literal of its argument", "%q: at %q, want %#v (text %q)", out, rest, values[t].want, q)
					return
				}
				rest = rest[n:]
			}
		}
		if rest != "" {
			bad("the rendering has text that the statement has not", "%q: %q", out, rest)
		}
	}
}

// literal reads a literal and tells whether it denotes the value.
func literal(drv, s string, want any) (int, bool) {
	word := func() string {
		i := 0
		for i < len(s) && (s[i] == '+' || s[i] == '-' || s[i] == '.' || s[i] >= '0' && s[i] <= '9' || s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z') {
			i++
		}
		return s[:i]
	}
	switch w := want.(type) {
	case nil:
		return 4, len(s) >= 4 && strings.EqualFold(s[:4], "NULL")
	case bool:
		for k, v := range map[string]bool{"true": true, "false": false, "TRUE": true, "FALSE": false, "1": true, "0": false} {
			if v == w && strings.HasPrefix(s, k) {
				return len(k), true
			}
		}
		return 0, false
	case int64:
		t := strconv.FormatInt(w, 10)
		return len(t), strings.HasPrefix(s, t)
	case uint64:
		t := strconv.FormatUint(w, 10)
		return len(t), strings.HasPrefix(s, t)
	case float64:
		// the longest prefix that reads as this number; the text that follows may start like one
		t := word()
		for n := len(t); n > 0; n-- {
			if f, err := strconv.ParseFloat(t[:n], 64); err == nil && f == w {
				return n, true
			}
		}
		return 0, false
	case time.Time:
		n, text, ok := str(drv, s)
		if !ok {
			return 0, false
		}
		for _, l := range []string{time.RFC3339Nano, "2006-01-02 15:04:05.999999999Z07:00", "2006-01-02 15:04:05.999999999 -0700 MST", "2006-01-02 15:04:05.999999999-07:00"} {
			if t, err := time.Parse(l, text); err == nil && t.Equal(w) {
				return n, true
			}
		}
		return 0, false
	case string:
		n, text, ok := str(drv, s)
		return n, ok && text == w
	}
	panic(fmt.Sprintf("%T", want))
}

// str reads a string literal as the database does.
func str(drv, s string) (int, string, bool) {
	esc := drv == "mysql"
	i := 0
	if drv == "postgres" && len(s) > 1 && (s[0] == 'E' || s[0] == 'e') {
		esc = true
		i++
	}
	if i >= len(s) || !(s[i] == '\'' || drv == "mysql" && s[i] == '"') {
		return 0, "", false
	}
	q := s[i]
	var b []byte
	for i++; i < len(s); i++ {
		c := s[i]
		switch {
		case c == q && i+1 < len(s) && s[i+1] == q:
			b = append(b, q)
			i++
		case c == q:
			return i + 1, string(b), true
		case esc && c == '\\':
			i++
			if i >= len(s) {
				return 0, "", false
			}
			c := s[i]
			if drv == "mysql" {
				m := map[byte]byte{'0': 0, 'b': 8, 'n': 10, 'r': 13, 't': 9, 'Z': 26}
				if r, ok := m[c]; ok {
					c = r
				}
			} else {
				m := map[byte]byte{'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9}
				if r, ok := m[c]; ok {
					c = r
				} else if c == 'x' && i+2 < len(s) {
					if n, err := strconv.ParseUint(s[i+1:i+3], 16, 8); err == nil {
						c = byte(n)
						i += 2
					}
				} else if c >= '0' && c <= '7' {
					n := 0
					for k := 0; k < 3 && i < len(s) && s[i] >= '0' && s[i] <= '7'; k++ {
						n = n*8 + int(s[i]-'0')
						i++
					}
					i--
					c = byte(n)
				}
			}
			b = append(b, c)
		default:
			b = append(b, c)
		}
	}
	return 0, "", false
}

// ---- the helpers

type shapeRec struct {
	Shape json.RawMessage `json:"shape"`
	Calls []kit.Call      `json:"calls"`
}

type sentRec struct {
	M      string          `json:"m"`
	Key    string          `json:"key"`
	I      int             `json:"i"`
	Sty    string          `json:"sty"`
	Phs    []int           `json:"phs"`
	Other  int             `json:"other"`
	NArgs  int             `json:"nargs"`
	Lits   int             `json:"lits"`
	Breaks int             `json:"breaks"`
	Text   string          `json:"text"`
	Shape  json.RawMessage `json:"shape"`
	NK     int             `json:"nk"`
	NI     int             `json:"ni"`
	NU     int             `json:"nu"`
	Tag    string          `json:"tag"`
}

func calls(file, out string) {
	rep := &kit.Report{}
	shapes := kit.Lines[shapeRec](file)
	type job struct{ m *kit.Model }
	var jobs []job
	for _, e := range flav.All {
		for _, n := range e.Names {
			jobs = append(jobs, job{e.Models[n]})
		}
	}
	results := make([][]sentRec, len(jobs))
	var counted = map[string]int{}
	_ = counted
	kit.Parallel(len(jobs), func(ji int) {
		m := jobs[ji].m
		nk, ni, nu := 0, 0, 0
		auto := false
		for i := range m.Cols {
			if m.Cols[i].Auto {
				auto = true
			}
		}
		for i := range m.Cols {
			c := &m.Cols[i]
			isKey := c.PK
			if auto {
				isKey = c.Auto
			}
			if isKey {
				nk++
			}
			if !c.Auto && !c.RO {
				ni++
				if !isKey {
					nu++
				}
			}
		}
		npal := 4
		for pal := 0; pal < npal; pal++ {
			rng := kit.Rng(m.Env.Flavour + m.Name)
			probe := &kit.Probe{}
			st, conc, tag := kit.OpenProbed(m, pal+4*int(kit.Seed()-1), rng, probe)
			for si := range shapes {
				for d, call := range shapes[si].Calls {
					if !call.Can(m, conc) {
						continue
					}
					if call.Op == "pages" && m.Kind == "view" {
						continue
					}
					rows := []kit.Row{}
					for k := 0; k < 3; k++ {
						w := (k + d) % 2
						if m.Kind == "autouniq" {
							w = k
						}
						rows = append(rows, m.Norm(kit.Row{k, k % 2, w, k - 1, kit.RODefault}))
					}
					st.Set(rows, 4)
					probe.Take()
					probe.Switch(true)
					ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
					err, panicked := kit.Safely(func() error { _, err := call.Do(ctx, m, st.DB(), conc); return err })
					cancel()
					probe.Switch(false)
					rep.Run(1)
					if panicked {
						rep.Add(kit.Violation{Sig: "panic " + call.Op, Where: m.Env.Flavour + "/" + m.Name, What: "a helper panics", Case: call, Detail: err.Error()})
						continue
					}
					sent := probe.Take()
					empty := call.Op == "insert" || call.Op == "upsert"
					if empty && len(call.Rows) == 0 {
						if len(sent) != 0 {
							rep.Add(kit.Violation{Sig: "empty batch", Where: m.Env.Flavour + "/" + m.Name, What: "an empty batch sends a statement", Case: call, Detail: sent[0].SQL})
						}
						continue
					}
					for i, s := range sent {
						if s.SQL == "" || strings.EqualFold(s.SQL, "BEGIN") || strings.EqualFold(s.SQL, "COMMIT") || strings.EqualFold(s.SQL, "ROLLBACK") {
							continue
						}
						r := scan(m.Env.Driver, s.SQL)
						r.M, r.I, r.NArgs = m.Env.Flavour+"/"+m.Name, i, len(s.Args)
						r.Key = fmt.Sprintf("%s/%d/%d", r.M, si, i)
						r.Shape, r.NK, r.NI, r.NU, r.Tag = shapes[si].Shape, nk, ni, nu, tag
						if m.Kind == "autoplus" {
							r.NI, r.NU = -1, -1
						}
						if call.Op == "pages" || m.Hand {
							r.NI = -1
						}
						results[ji] = append(results[ji], r)
					}
				}
			}
			st.Close()
		}
		rep.Count(m.Env.Flavour+"/"+m.Name, len(results[ji]))
	})
	f, err := os.Create(out)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(f)
	type uniq struct{ key, text string }
	n := 0
	for _, rs := range results {
		sort.SliceStable(rs, func(i, j int) bool { return rs[i].Key < rs[j].Key })
		seen := map[uniq]int{}
		for _, r := range rs {
			u := uniq{r.Key, fmt.Sprint(r.Text, r.NArgs)}
			if seen[u]++; seen[u] > 1 {
				continue // the same record again
			}
			if r.Phs == nil {
				r.Phs = []int{}
			}
			b, _ := json.Marshal(r)
			w.Write(append(b, '\n'))
			n++
			if n%997 == 1 {
				rep.Sample(map[string]any{"model": r.M, "text": r.Text, "args": r.NArgs})
			}
		}
	}
	w.Flush()
	f.Close()
	rep.Distinct = n
	rep.Print()
}

// scan finds the placeholders, literals and comments of a statement.
func scan(drv, q string) (r sentRec) {
	r.Text = q
	r.Sty = "?"
	if drv == "postgres" {
		r.Sty = "$"
	}
	for i := 0; i < len(q); {
		c := q[i]
		switch {
		case c == '\'' || c == '"' || c == '`':
			ident := c == '"' && drv != "mysql" || c == '`' && drv != "postgres"
			j := i + 1
			for j < len(q) && q[j] != c {
				if q[j] == '\\' && drv == "mysql" && c != '`' {
					j++
				}
				j++
			}
			if !ident {
				r.Lits++
			}
			i = j + 1
		case strings.HasPrefix(q[i:], "--") || strings.HasPrefix(q[i:], "/*") || c == '#':
			r.Lits++
			i += 2
		case c == '?':
			if r.Sty == "?" {
				r.Phs = append(r.Phs, len(r.Phs)+1)
			} else {
				r.Other++
			}
			i++
		case c == '$':
			j := i + 1
			for j < len(q) && q[j] >= '0' && q[j] <= '9' {
				j++
			}
			n, _ := strconv.Atoi(q[i+1 : j])
			if r.Sty == "$" {
				r.Phs = append(r.Phs, n)
			} else {
				r.Other++
			}
			i = j
		case c == ';':
			if strings.TrimSpace(q[i+1:]) != "" {
				r.Breaks++
			}
			i++
		default:
			i++
		}
	}
	return r
}
