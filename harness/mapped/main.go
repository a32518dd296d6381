// mapped replays the transitions of Map.tla into generated code with mapped types.
package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/mattn/go-sqlite3"
	"github.com/si3nloong/sqlgen/sequel"

	"verifws/engine"
	"verifws/kit"
	"verifws/mt"
	"verifws/mtflav"
)

type word []string

func (w word) String() string {
	if len(w) == 0 {
		return "NULL"
	}
	return strings.Join(w, ":")
}

type row []word

func (r row) String() string {
	var s []string
	for _, w := range r {
		s = append(s, w.String())
	}
	return strings.Join(s, ", ")
}

type call struct {
	Op   string     `json:"op"`
	Recs [][]string `json:"recs"`
	Over bool       `json:"over"`
	K    string     `json:"k"`
	V    string     `json:"v"`
	I    int        `json:"i"`
}

type outcome struct {
	Err  string `json:"err"`
	Tab  []row  `json:"tab"`
	Rows []any  `json:"rows"`
}

type trans struct {
	L      int     `json:"l"`
	Before []row   `json:"before"`
	Next   int     `json:"next"`
	Call   call    `json:"call"`
	Keyed  bool    `json:"keyed"`
	Want   outcome `json:"want"`
	Plain  outcome `json:"plain"`
	Ptr    outcome `json:"ptr"`
	Both   outcome `json:"both"`
}

func set(rs []row) string {
	m := map[string]bool{}
	for _, r := range rs {
		m[r.String()] = true
	}
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, " | ")
}

// rows of an outcome: a list of rows, or one set of rows
func rowsOf(x []any) []row {
	var out []row
	one := func(v any) row {
		var r row
		for _, w := range v.([]any) {
			var ws word
			for _, l := range w.([]any) {
				ws = append(ws, l.(string))
			}
			r = append(r, ws)
		}
		return r
	}
	for _, v := range x {
		l := v.([]any)
		if len(l) > 0 {
			if f, ok := l[0].([]any); ok && len(f) > 0 {
				if _, nested := f[0].([]any); nested { // a set of rows
					for _, r := range l {
						out = append(out, one(r))
					}
					continue
				}
			}
			out = append(out, one(v))
		}
	}
	return out
}

// ---- databases
var names = []string{"both", "read", "write", "all", "basic", "box", "lit"}

func fn(name string, enc bool) func(args []driver.Value) (driver.Value, error) {
	return func(args []driver.Value) (driver.Value, error) {
		if name == "lit" {
			if len(args) != 2 || str(args[0]) != Lit {
				return nil, fmt.Errorf("lit got %v", args)
			}
			args = args[1:]
		}
		if len(args) != 1 {
			return nil, fmt.Errorf("%s got %d arguments", name, len(args))
		}
		if args[0] == nil {
			return nil, nil
		}
		if enc {
			return mt.Enc(name, str(args[0])), nil
		}
		return mt.Dec(name, str(args[0])), nil
	}
}

// Lit is the literal in the expressions of the type Lit.
const Lit = "\"?$1`"

func str(v driver.Value) string {
	switch x := v.(type) {
	case []byte:
		return string(x)
	case string:
		return x
	}
	return fmt.Sprintf("%v", v)
}

func init() {
	sql.Register("sqlite3_mapped", &sqlite3.SQLiteDriver{ConnectHook: func(c *sqlite3.SQLiteConn) error {
		for _, n := range names {
			for _, enc := range []bool{true, false} {
				f, p := fn(n, enc), map[bool]string{true: "enc_", false: "dec_"}[enc]
				if err := c.RegisterFunc(p+n, func(args ...any) (any, error) {
					a := make([]driver.Value, len(args))
					for i := range args {
						a[i] = args[i]
						if b, ok := args[i].([]byte); ok && b == nil { // mattn hands NULL over like this
							a[i] = nil
						}
					}
					return f(a)
				}, true); err != nil {
					return err
				}
			}
		}
		return nil
	}})
}

type store interface {
	db() *sql.DB
	set(rows []row, next int)
	get() []row
}

type eng struct {
	m *kit.Model
	e *engine.DB
	d *sql.DB
}

func newEng(m *kit.Model, mode string) *eng {
	d := engine.MySQL
	if m.Env.Driver == "postgres" {
		d = engine.Postgres
	}
	s := &eng{m: m, e: engine.New(d)}
	s.e.Mode = mode
	s.e.Funcs = map[string]func([]driver.Value) (driver.Value, error){}
	for _, n := range names {
		s.e.Funcs["enc_"+n], s.e.Funcs["dec_"+n] = fn(n, true), fn(n, false)
	}
	t := &engine.Table{Name: m.Table}
	for i := range m.Cols {
		c := &m.Cols[i]
		ec := engine.Col{Name: c.Name, Kind: "text", Auto: c.Auto}
		if c.Auto {
			ec.Kind = "int"
		}
		if c.RO {
			ec.Default = "d"
		}
		if c.PK {
			t.PK = append(t.PK, i)
		}
		t.Cols = append(t.Cols, ec)
	}
	s.e.Create(t)
	s.d = s.e.Open()
	return s
}

func cell(c *kit.Col, w word) driver.Value {
	if len(w) == 0 {
		return nil
	}
	if c.Auto {
		var n int64
		fmt.Sscan(w[0], &n)
		return n
	}
	return strings.Join(w, ":")
}

func abs(cells []driver.Value) row {
	var r row
	for _, v := range cells {
		if v == nil {
			r = append(r, nil)
			continue
		}
		r = append(r, strings.Split(str(v), ":"))
	}
	return r
}

func (s *eng) db() *sql.DB { return s.d }
func (s *eng) set(rows []row, next int) {
	var rs [][]driver.Value
	for _, r := range rows {
		var cs []driver.Value
		for i, w := range r {
			cs = append(cs, cell(&s.m.Cols[i], w))
		}
		rs = append(rs, cs)
	}
	s.e.SetRows(s.m.Table, rs, int64(next-1))
}
func (s *eng) get() []row {
	var out []row
	for _, r := range s.e.Rows(s.m.Table) {
		out = append(out, abs(r))
	}
	return out
}

type lite struct {
	m   *kit.Model
	d   *sql.DB
	ins string
	sel string
}

func newLite(m *kit.Model) *lite {
	d, err := sql.Open("sqlite3_mapped", "file::memory:")
	if err != nil {
		panic(err)
	}
	d.SetMaxOpenConns(1)
	s := &lite{m: m, d: d}
	var defs, ns, ph, pk []string
	for _, c := range m.Cols {
		q := `"` + c.Name + `"`
		def := q + " TEXT"
		switch {
		case c.Auto:
			def = q + " INTEGER PRIMARY KEY AUTOINCREMENT"
		case c.PK:
			pk = append(pk, q)
			def += " NOT NULL"
		case c.RO:
			def += " DEFAULT 'd'"
		}
		defs, ns, ph = append(defs, def), append(ns, q), append(ph, "?")
	}
	if len(pk) > 0 {
		defs = append(defs, "PRIMARY KEY ("+strings.Join(pk, ",")+")")
	}
	if _, err := d.Exec(`CREATE TABLE "` + m.Table + `" (` + strings.Join(defs, ", ") + ")"); err != nil {
		panic(err)
	}
	s.ins = `INSERT INTO "` + m.Table + `" (` + strings.Join(ns, ",") + `) VALUES (` + strings.Join(ph, ",") + `)`
	s.sel = `SELECT ` + strings.Join(ns, ",") + ` FROM "` + m.Table + `"`
	return s
}

func (s *lite) db() *sql.DB { return s.d }
func (s *lite) set(rows []row, next int) {
	must := func(q string, a ...any) {
		if _, err := s.d.Exec(q, a...); err != nil {
			panic(q + ": " + err.Error())
		}
	}
	must(`DELETE FROM "` + s.m.Table + `"`)
	for _, r := range rows {
		var a []any
		for i, w := range r {
			a = append(a, cell(&s.m.Cols[i], w))
		}
		must(s.ins, a...)
	}
	for _, c := range s.m.Cols {
		if c.Auto {
			must(`DELETE FROM sqlite_sequence`)
			must(`INSERT INTO sqlite_sequence(name,seq) VALUES(?,?)`, s.m.Table, next-1)
		}
	}
}
func (s *lite) get() []row {
	rs, err := s.d.Query(s.sel)
	if err != nil {
		panic(err)
	}
	defer rs.Close()
	var out []row
	for rs.Next() {
		v := make([]any, len(s.m.Cols))
		p := make([]any, len(v))
		for i := range v {
			p[i] = &v[i]
		}
		if err := rs.Scan(p...); err != nil {
			panic(err)
		}
		c := make([]driver.Value, len(v))
		for i := range v {
			c[i] = v[i]
		}
		out = append(out, abs(c))
	}
	return out
}

// ---- models
func mk(m *kit.Model, k, v string) any {
	x := m.New()
	rv := reflect.ValueOf(x)
	for i := range m.Cols {
		c := &m.Cols[i]
		f := kit.Field(rv, c.Path)
		switch {
		case c.PK:
			mt.Set(f, k)
		case c.RO:
			mt.Set(f, "7")
		case v == "n":
			if !c.Ptr {
				mt.Set(f, "0")
			}
		default:
			mt.Set(f, v)
		}
	}
	return x
}

func fields(m *kit.Model, x any) row {
	var r row
	rv := reflect.ValueOf(x)
	if rv.Kind() != reflect.Ptr {
		p := reflect.New(rv.Type())
		p.Elem().Set(rv)
		rv = p
	}
	for i := range m.Cols {
		f, ok := kit.FieldRO(rv, m.Cols[i].Path)
		if !ok {
			r = append(r, nil)
			continue
		}
		w, ok := mt.Get(f)
		if !ok {
			r = append(r, nil)
			continue
		}
		r = append(r, strings.Split(w, ":"))
	}
	return r
}

func slice(m *kit.Model, recs [][]string) any {
	s := reflect.MakeSlice(reflect.SliceOf(m.T), 0, len(recs))
	for _, r := range recs {
		s = reflect.Append(s, reflect.ValueOf(mk(m, r[0], r[1])).Elem())
	}
	return s.Interface()
}

func all(m *kit.Model, s any) []row {
	var out []row
	v := reflect.ValueOf(s)
	for i := 0; i < v.Len(); i++ {
		e := v.Index(i)
		if e.Kind() == reflect.Ptr {
			e = e.Elem()
		}
		out = append(out, fields(m, e.Interface()))
	}
	return out
}

type result struct {
	err  string
	tab  string
	rows string
	has  bool
	text string
}

func column(m *kit.Model, c *kit.Col, zero any) any {
	return reflect.ValueOf(zero).Elem().MethodByName("Column" + c.Go).Call(nil)[0].Interface()
}

// byHand is the column with a hand-written SQL expression.
func byHand(c *kit.Col, kind string, ops kit.ColOps, col any) any {
	f := mtflav.ByHand[c.Type]
	if f == nil {
		return nil
	}
	return f(col, func(ph string) string {
		if kind == "lit" {
			return "enc_lit('" + Lit + "'," + ph + ")"
		}
		return "enc_" + kind + "(" + ph + ")"
	})
}

func do(m *kit.Model, s store, t *trans, seed int, hand bool) (r result) {
	s.set(t.Before, t.Next)
	ctx, d := context.Background(), s.db()
	var out []row
	var x any
	k := t.Call
	err, panicked := kit.Safely(func() error {
		if len(k.Recs) > 0 {
			x = mk(m, k.Recs[0][0], k.Recs[0][1])
		} else if k.K != "" {
			x = mk(m, k.K, k.V)
		} else {
			x = m.New()
		}
		where := func(op string, c *kit.Col, v string) sequel.WhereClause {
			ops := m.Env.Ops.(kit.Ops).Cols[c.Type]
			col := column(m, c, kitZero(m))
			if hand {
				col = byHand(c, kindName(c.Type), ops, col)
			}
			a := reflect.New(c.Type).Elem()
			mt.Set(a, v)
			switch op {
			case "in":
				return ops.List["in"](col, []reflect.Value{a, a})
			case "between":
				return ops.Two["between"](col, a, a)
			case "range":
				return m.Env.Ops.(kit.Ops).And(ops.One["ge"](col, a), ops.One["le"](col, a))
			case "notin":
				return m.Env.Ops.(kit.Ops).And(ops.One["eq"](col, a), ops.NotNull(col))
			}
			return ops.One["eq"](col, a)
		}
		switch k.Op {
		case "insertone":
			if err := m.InsertOne(ctx, d, x); err != nil {
				return err
			}
			out = []row{fields(m, x)}
		case "insert":
			sl := slice(m, k.Recs)
			if _, err := m.Insert(ctx, d, sl); err != nil {
				return err
			}
			out = all(m, sl)
		case "upsertone":
			if err := m.UpsertOne(ctx, d, x, k.Over, nil); err != nil {
				return err
			}
			out = []row{fields(m, x)}
		case "upsert":
			sl := slice(m, k.Recs)
			if _, err := m.Upsert(ctx, d, sl, k.Over, nil); err != nil {
				return err
			}
			out = all(m, sl)
		case "find":
			if err := m.Find(ctx, d, x); err != nil {
				return err
			}
			out = []row{fields(m, x)}
		case "lock":
			tx, err := d.BeginTx(ctx, nil)
			if err != nil {
				return err
			}
			defer tx.Rollback()
			if err := m.Lock(ctx, tx, x, "update"); err != nil {
				return err
			}
			out = []row{fields(m, x)}
		case "update":
			_, err := m.Update(ctx, d, x)
			return err
		case "delete":
			_, err := m.Delete(ctx, d, x)
			return err
		case "query", "cond":
			st := kit.SelectStmt{Limit: 100}
			if k.Op == "cond" {
				st.Where = where([]string{"eq", "in", "between", "range", "notin"}[seed%5], &m.Cols[k.I-1], k.V)
			}
			v, err := m.Query(ctx, d, st)
			if err != nil {
				return err
			}
			out = all(m, v)
		case "set":
			c := &m.Cols[k.I-1]
			ops := m.Env.Ops.(kit.Ops).Cols[c.Type]
			col := column(m, c, kitZero(m))
			if hand {
				col = byHand(c, kindName(c.Type), ops, col)
			}
			a := reflect.New(c.Type).Elem()
			mt.Set(a, k.V)
			_, err := m.ExecUpd(ctx, d, kit.UpdStmt{Set: []sequel.SetClause{ops.Set(col, a)}})
			return err
		case "pages":
			var bad error
			m.Pages(ctx, d, kit.PageStmt{Limit: 1}, seed%2 == 1, nil, func(p any, err error) bool {
				if err != nil {
					bad = err
					return true
				}
				out = append(out, all(m, p)...)
				return len(out) < 50
			})
			return bad
		default:
			panic("unknown call " + k.Op)
		}
		return nil
	})
	switch {
	case panicked:
		r.err = "panic"
	case err == nil:
		r.err = "none"
	case errors.Is(err, sql.ErrNoRows):
		r.err = "norows"
	default:
		r.err = "error"
	}
	if err != nil {
		r.text = err.Error()
	}
	r.tab = set(s.get())
	r.rows = set(out)
	r.has = len(out) > 0 || k.Op == "query" || k.Op == "cond" || k.Op == "pages"
	return
}

func kitZero(m *kit.Model) any {
	x := m.New()
	rv := reflect.ValueOf(x)
	for i := range m.Cols {
		kit.Field(rv, m.Cols[i].Path)
	}
	return x
}

func kindName(t reflect.Type) string {
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	if t.Kind() == reflect.String && t.PkgPath() == "" {
		return "basic"
	}
	return strings.ToLower(t.Name())
}

// sqlWritten tells whether the type has an expression to write it
func sqlWritten(t reflect.Type) bool {
	switch kindName(t) {
	case "both", "write", "all", "basic", "box", "lit":
		return true
	}
	return false
}

func (r result) is(m *kit.Model, t *trans, o outcome) bool {
	e := r.err
	if e == "error" && o.Err == "dup" {
		e = "dup"
	}
	if e != o.Err || r.tab != set(o.Tab) {
		return false
	}
	if o.Err != "none" || !r.has {
		return true
	}
	switch t.Call.Op {
	case "insertone", "insert", "upsertone", "upsert":
		// only this driver reads the records back; records that are kept are not
		if m.Env.Driver != "postgres" || t.Call.Op == "upsert" || len(o.Rows) != len(t.Call.Recs) {
			return true
		}
	}
	return r.rows == set(rowsOf(o.Rows))
}

func (o outcome) String() string {
	return o.Err + " table {" + set(o.Tab) + "} rows {" + set(rowsOf(o.Rows)) + "}"
}

func main() {
	var rep kit.Report
	ts := kit.Lines[trans](os.Args[1])
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].L < ts[j].L })
	type part struct {
		env *kit.Env
		w   int
	}
	var parts []part
	for _, e := range mtflav.All {
		for w := 0; w < 2; w++ {
			parts = append(parts, part{e, w})
		}
	}
	var once sync.Once
	kit.Parallel(len(parts), func(pi int) {
		e := parts[pi].env
		var s store
		cur := -1
		for i := range ts {
			t := &ts[i]
			if t.L%2 != parts[pi].w {
				continue
			}
			m := e.Models[fmt.Sprintf("M%d", t.L)]
			if m == nil || (t.Call.Op == "lock" && e.Driver == "sqlite") {
				continue
			}
			if cur != t.L {
				if s != nil {
					s.db().Close()
				}
				cur = t.L
				if e.Driver == "sqlite" {
					s = newLite(m)
				} else {
					s = newEng(m, []string{"native", "text", "bytes"}[t.L%3])
				}
			}
			for _, hand := range []bool{false, true} {
				if hand && (t.Call.Op != "cond" && t.Call.Op != "set" || !sqlWritten(m.Cols[t.Call.I-1].Type)) {
					continue
				}
				rep.Run(1)
				rep.Count(t.Call.Op, 1)
				r := do(m, s, t, i, hand)
				if r.is(m, t, t.Want) {
					continue
				}
				dev := ""
				w := false
				switch t.Call.Op {
				case "insert", "upsertone", "upsert":
					w = e.Driver != "postgres"
				case "delete", "lock", "cond", "set":
					w = !hand
				}
				switch {
				case w && r.is(m, t, t.Plain), w && r.is(m, t, t.Both):
					dev = "the placeholder is left plain"
				case r.is(m, t, t.Ptr):
					dev = "a pointer is read without the conversion"
				}
				what := dev
				if dev == "" {
					what = "the outcome differs"
				}
				op := t.Call.Op
				if hand {
					op += " by hand"
				}
				rep.Add(kit.Violation{Sig: op + " " + what, Where: e.Flavour, What: what, Case: t,
					Detail: fmt.Sprintf("%s %s: got %s table {%s} rows {%s} %s; want %v", m.Name, op, r.err, r.tab, r.rows, r.text, t.Want)})
			}
		}
		if s != nil {
			s.db().Close()
		}
	})
	once.Do(func() {
		for i := 0; i < len(ts) && i < 3; i++ {
			rep.Sample(ts[i*len(ts)/3])
		}
	})
	rep.Print()
}
