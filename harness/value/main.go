// value replays the behaviours of Value.tla for every field type: the tokens
// are made concrete by values of the type, written and read through the
// generated code.
package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"net"
	"net/netip"
	"net/url"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"cloud.google.com/go/civil"
	"github.com/google/uuid"
	_ "github.com/mattn/go-sqlite3"
	"github.com/shopspring/decimal"
	"github.com/si3nloong/sqlgen/sequel"

	"verifws/engine"
	"verifws/kit"
	"verifws/value/reg"
	"verifws/vlflav"
	"verifws/vt"
)

type typ struct {
	Name string `json:"name"`
	Type string `json:"type"`
	Cls  string `json:"cls"`
	Ptr  bool   `json:"ptr"`
	Huge bool   `json:"huge"`
}

type rec struct {
	K string `json:"k"`
	V string `json:"v"`
}

type trans struct {
	Ptr    bool        `json:"ptr"`
	Huge   bool        `json:"huge"`
	Before [][2]string `json:"before"`
	Dst    rec         `json:"dst"`
	Call   struct {
		Op   string `json:"op"`
		Recs []rec  `json:"recs"`
	} `json:"call"`
	Refused bool        `json:"refused"`
	May     bool        `json:"may"`
	Err     string      `json:"err"`
	After   [][2]string `json:"after"`
	Dst2    rec         `json:"dst2"`
	Null    []string    `json:"null"`
}

// ---- values
var texts = []string{"", "a", "hello world", "it's \"quoted\" `x`", `back\slash\`, "{a,\"b\",NULL}", "[1,2]", "null", "NULL", "true", "0", "-12.50", "1e5", "?", "$1", " lead and trail ", "tab\tnl\ncr\r",
	"日本語", "é", "\U0001F600 smile", "2024-02-29", "2024-02-29 10:11:12", "\\x41", "</script>&amp;", "\u2028", strings.Repeat("long ", 200), "\x01\x1f\x7f", "\u00ff\ufffd"}

var runes = []rune{'a', 'Z', '0', ' ', '"', '\\', 'é', '日', '\U0001F600', '\u2028', 0x7f, 1}

var times = []time.Time{
	time.Date(2024, 2, 29, 10, 11, 12, 0, time.UTC), time.Date(2024, 2, 29, 10, 11, 12, 123456000, time.UTC), time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC), {},
	time.Date(1, 1, 1, 0, 0, 0, 1000, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 999999000, time.UTC), time.Date(2023, 6, 30, 23, 30, 0, 5000, time.FixedZone("", 5*3600+1800)),
	time.Date(2023, 11, 5, 1, 30, 0, 0, time.FixedZone("EST", -5*3600)), time.Date(1969, 12, 31, 23, 59, 59, 999000000, time.UTC), time.Date(2000, 1, 1, 0, 0, 0, 100000000, time.UTC),
}

var special = map[reflect.Type]func(r *rand.Rand) any{}

func sp[T any](f func(r *rand.Rand) T) {
	special[reflect.TypeFor[T]()] = func(r *rand.Rand) any { return f(r) }
}

func text(r *rand.Rand) string { return texts[r.Intn(len(texts))] }

func init() {
	sp(func(r *rand.Rand) time.Time { return times[r.Intn(len(times))] })
	sp(func(r *rand.Rand) vt.Text { return vt.MakeText(strings.ReplaceAll(text(r), "|", ""), text(r)) })
	sp(func(r *rand.Rand) vt.PText { return vt.MakePText(text(r)) })
	sp(func(r *rand.Rand) vt.Val { return vt.MakeVal(int64(r.Uint64())) })
	sp(func(r *rand.Rand) vt.PVal { return vt.MakePVal(text(r)) })
	sp(func(r *rand.Rand) vt.JSON { return vt.MakeJSON(r.Intn(2000) - 1000) })
	sp(func(r *rand.Rand) vt.PJSON { return vt.MakePJSON(r.Intn(2000) - 1000) })
	sp(func(r *rand.Rand) json.RawMessage {
		l := []string{`{"a":[1,2,{"b":null}]}`, `[]`, `"x"`, `12`, `null`, `true`, `{"k":"日本 \" \\ "}`, `-1.5`}
		return json.RawMessage(l[r.Intn(len(l))])
	})
	sp(func(r *rand.Rand) json.Number {
		l := []json.Number{"0", "1", "-12", "1.5", "123456789012345678901234567890", "1e10", "-0.001"}
		return l[r.Intn(len(l))]
	})
	sp(func(r *rand.Rand) sql.NullString {
		if r.Intn(3) == 0 {
			return sql.NullString{}
		}
		return sql.NullString{String: text(r), Valid: true}
	})
	sp(func(r *rand.Rand) sql.Null[string] {
		if r.Intn(3) == 0 {
			return sql.Null[string]{}
		}
		return sql.Null[string]{V: text(r), Valid: true}
	})
	sp(func(r *rand.Rand) netip.Addr {
		l := []string{"127.0.0.1", "::1", "fe80::1%eth0", "10.0.0.255", "2001:db8::ff"}
		return netip.MustParseAddr(l[r.Intn(len(l))])
	})
	sp(func(r *rand.Rand) big.Int {
		l := []string{"0", "1", "-1", "123456789012345678901234567890", "-98765432109876543210"}
		var b big.Int
		b.SetString(l[r.Intn(len(l))], 10)
		return b
	})
	sp(func(r *rand.Rand) url.URL {
		l := []string{"https://example.com/a%2Fb?x=1&y=%20#frag", "mailto:a@b", "/rel", "http://[::1]:80/"}
		u, _ := url.Parse(l[r.Intn(len(l))])
		return *u
	})
	sp(func(r *rand.Rand) uuid.UUID {
		var u uuid.UUID
		if r.Intn(5) > 0 {
			r.Read(u[:])
		}
		return u
	})
	sp(func(r *rand.Rand) decimal.Decimal {
		l := []string{"0", "1.50", "-0.000001", "123456789012345678901234567890.123456789", "1e3", "-7"}
		return decimal.RequireFromString(l[r.Intn(len(l))])
	})
	sp(func(r *rand.Rand) civil.Date {
		return civil.Date{Year: 1 + r.Intn(9999), Month: time.Month(1 + r.Intn(12)), Day: 1 + r.Intn(28)}
	})
	sp(func(r *rand.Rand) civil.Time {
		return civil.Time{Hour: r.Intn(24), Minute: r.Intn(60), Second: r.Intn(60), Nanosecond: 1000 * r.Intn(1000000) * r.Intn(2)}
	})
	sp(func(r *rand.Rand) civil.DateTime {
		return civil.DateTime{Date: civil.Date{Year: 1 + r.Intn(9999), Month: time.Month(1 + r.Intn(12)), Day: 1 + r.Intn(28)}, Time: civil.Time{Hour: r.Intn(24), Second: r.Intn(60)}}
	})
	sp(func(r *rand.Rand) net.IP {
		l := []net.IP{net.ParseIP("::1"), net.IPv4(1, 2, 3, 4).To4(), {0, 255, 39, 34}}
		return l[r.Intn(len(l))]
	})
}

func isRune(t reflect.Type, spec string) bool {
	return t.Kind() == reflect.Int32 && (strings.Contains(spec, "rune") || strings.Contains(spec, "Rune"))
}

// gen makes a value; spec is the source text of the type.
func gen(t reflect.Type, spec string, r *rand.Rand, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	if f := special[t]; f != nil {
		v.Set(reflect.ValueOf(f(r)))
		return v
	}
	if m, ok := v.Addr().Interface().(interface{ Make(string) }); ok {
		m.Make(text(r))
		return v
	}
	bits := func(n int) uint64 {
		switch r.Intn(8) {
		case 0:
			return 0
		case 1:
			return 1
		case 2:
			return 1<<(n-1) - 1
		case 3:
			return 1 << (n - 1)
		case 4:
			return 1<<n - 1
		case 5:
			return uint64(r.Intn(256))
		}
		return r.Uint64()
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.String:
		v.SetString(text(r))
	case reflect.Int32:
		if isRune(t, spec) {
			v.SetInt(int64(runes[r.Intn(len(runes))]))
			break
		}
		v.SetInt(int64(int32(bits(32))))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int64:
		n := t.Bits()
		v.SetInt(int64(bits(n)<<(64-n)) >> (64 - n))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n := t.Bits()
		x := bits(n)
		if n < 64 {
			x &= 1<<n - 1
		} else if depth == 0 { // larger ones are "huge"
			x &= 1<<63 - 1
		}
		v.SetUint(x)
	case reflect.Float32:
		l := []float32{0, 1, -1.5, 0.1, math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 16777216, 1e10, 3.4e-20, r.Float32(), float32(r.NormFloat64())}
		v.SetFloat(float64(l[r.Intn(len(l))]))
	case reflect.Float64:
		l := []float64{0, 1, -1.5, 0.1, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, 1e21, 1e20, 123456789.123456789, 1e-7, r.NormFloat64(), r.Float64()}
		v.SetFloat(l[r.Intn(len(l))])
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			if r.Intn(6) == 0 {
				v.Set(reflect.MakeSlice(t, 0, 0))
				break
			}
			b := []byte(text(r))
			if r.Intn(2) == 0 {
				b = make([]byte, r.Intn(20))
				r.Read(b)
			}
			v.SetBytes(b)
			break
		}
		if r.Intn(8) == 0 {
			break
		}
		n := r.Intn(4)
		v.Set(reflect.MakeSlice(t, 0, 0))
		for i := 0; i < n; i++ {
			v.Set(reflect.Append(v, gen(t.Elem(), spec, r, depth+1)))
		}
	case reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 && depth == 0 && r.Intn(2) == 0 {
			b := make([]byte, t.Len())
			r.Read(b)
			reflect.Copy(v, reflect.ValueOf(b))
			break
		}
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(gen(t.Elem(), spec, r, depth+1))
		}
	case reflect.Ptr:
		if depth > 0 && r.Intn(3) == 0 {
			break
		}
		v.Set(reflect.New(t.Elem()))
		for {
			// a pointer to what is null itself is not told from a nil pointer
			v.Elem().Set(gen(t.Elem(), spec, r, depth))
			if !nullish(v.Elem()) {
				break
			}
		}
	case reflect.Map:
		if r.Intn(8) == 0 {
			break
		}
		v.Set(reflect.MakeMap(t))
		for i := r.Intn(4); i > 0; i-- {
			v.SetMapIndex(gen(t.Key(), spec, r, depth+1), gen(t.Elem(), spec, r, depth+1))
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).IsExported() {
				v.Field(i).Set(gen(t.Field(i).Type, spec, r, depth+1))
			}
		}
		if isNull(t) && !v.FieldByName("Valid").Bool() {
			v.SetZero()
		}
	case reflect.Interface:
		l := []any{"x", 1.5, true, nil, []any{1.0, "a", nil}, map[string]any{"a": 1.0, "日": []any{}}, text(r)}
		if x := l[r.Intn(len(l))]; x != nil {
			v.Set(reflect.ValueOf(x))
		}
	default:
		panic("no values of " + t.String())
	}
	return v
}

func isNull(t reflect.Type) bool {
	return t.PkgPath() == "database/sql" && strings.HasPrefix(t.Name(), "Null")
}

func nullish(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.Map, reflect.Interface:
		if m, ok := v.Interface().(json.RawMessage); ok && string(m) == "null" {
			return true
		}
		return v.IsNil()
	case reflect.Struct:
		return isNull(v.Type()) && !v.FieldByName("Valid").Bool()
	}
	return false
}

func nullOf(v reflect.Value) bool { return v.Kind() == reflect.Ptr && v.IsNil() }

// eq tells whether two values are the same to the user.
func eq(a, b reflect.Value) bool {
	t := a.Type()
	switch x := a.Interface().(type) {
	case time.Time:
		return x.Equal(b.Interface().(time.Time))
	case big.Int:
		y := b.Interface().(big.Int)
		return x.Cmp(&y) == 0
	case decimal.Decimal:
		return x.Equal(b.Interface().(decimal.Decimal))
	case url.URL:
		y := b.Interface().(url.URL)
		return x.String() == y.String()
	case json.RawMessage:
		return string(x) == string(b.Interface().(json.RawMessage))
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() && b.IsNil()
		}
		return a.Elem().Type() == b.Elem().Type() && eq(a.Elem(), b.Elem())
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !eq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			w := b.MapIndex(k)
			if !w.IsValid() || !eq(a.MapIndex(k), w) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !t.Field(i).IsExported() {
				return reflect.DeepEqual(a.Interface(), b.Interface())
			}
		}
		for i := 0; i < t.NumField(); i++ {
			if !eq(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func show(v reflect.Value) string {
	for v.Kind() == reflect.Ptr && !v.IsNil() {
		v = v.Elem()
	}
	s := fmt.Sprintf("%#v", v.Interface())
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return s
}

// ---- databases
type base struct {
	name string
	m    *kit.Model
	d    *sql.DB
	e    *engine.DB
	rows map[[2]string][]driver.Value
}

var decl = map[string]string{"int": "INTEGER", "rune": "TEXT", "text": "TEXT", "float": "REAL", "bool": "BOOL", "time": "TEXT", "bytes": "BLOB", "list": "TEXT", "json": "TEXT", "any": "", "nulltime": "TIMESTAMP"}

func open(m *kit.Model, ty *typ, mode string) *base {
	b := &base{name: m.Env.Driver + " " + mode, m: m, rows: map[[2]string][]driver.Value{}}
	if m.Env.Driver == "sqlite" {
		d, err := sql.Open("sqlite3", "file::memory:?_loc=UTC")
		if err != nil {
			panic(err)
		}
		d.SetMaxOpenConns(1)
		t := decl[ty.Cls]
		if mode == "plain" {
			t = ""
		}
		if mode == "stamp" {
			t = "TIMESTAMP"
		}
		if _, err := d.Exec(fmt.Sprintf("CREATE TABLE `%s` (k INTEGER PRIMARY KEY, a TEXT NOT NULL, v %s, b TEXT NOT NULL, w %s)", m.Table, t, t)); err != nil {
			panic(err)
		}
		b.d = d
		return b
	}
	d := engine.MySQL
	if m.Env.Driver == "postgres" {
		d = engine.Postgres
	}
	b.e = engine.New(d)
	b.e.Mode = mode
	b.e.BigUint = d == engine.MySQL
	kind := "any"
	if ty.Cls == "bool" || ty.Cls == "float" {
		kind = ty.Cls
	}
	single := strings.HasSuffix(ty.Type, "loat32")
	t := &engine.Table{Name: m.Table, PK: []int{0}, Cols: []engine.Col{{Name: "k", Kind: "int"}, {Name: "a", Kind: "text", NotNull: true}, {Name: "v", Kind: kind, Single: single},
		{Name: "b", Kind: "text", NotNull: true}, {Name: "w", Kind: kind, Single: single}}}
	if ty.Type == "*time.Time" && d == engine.MySQL && mode != "native" {
		t.Cols[2].Stamp, t.Cols[4].Stamp = true, true
	}
	b.e.Create(t)
	b.d = b.e.Open()
	return b
}

func (b *base) clear() {
	if b.e != nil {
		b.e.SetRows(b.m.Table, nil, 1)
		return
	}
	if _, err := b.d.Exec("DELETE FROM `" + b.m.Table + "`"); err != nil {
		panic(err)
	}
}

// nulls lists the keys whose v is null.
func (b *base) nulls() []string {
	out := []string{}
	if b.e != nil {
		for _, r := range b.e.Rows(b.m.Table) {
			if r[2] == nil {
				out = append(out, fmt.Sprint(r[0]))
			}
		}
		sort.Strings(out)
		return out
	}
	rs, err := b.d.Query("SELECT k FROM `" + b.m.Table + "` WHERE v IS NULL ORDER BY k")
	if err != nil {
		panic(err)
	}
	defer rs.Close()
	for rs.Next() {
		var s string
		rs.Scan(&s)
		out = append(out, s)
	}
	return out
}

// ---- runs
type world struct {
	ty   *typ
	m    *kit.Model
	set  func(any, reflect.Value) sequel.SetClause
	vals map[string]reflect.Value // token -> value
	b    *base
}

// other is the token of the column W.
func (w *world) other(tok string) string {
	switch tok {
	case "a":
		return "b"
	case "b":
		if w.ty.Ptr {
			return "nil"
		}
	}
	return "a"
}

func (w *world) mk(k, tok string) any {
	x := w.m.New()
	w.fill(x, k, tok)
	return x
}

func (w *world) fill(x any, k, tok string) {
	v := reflect.ValueOf(x).Elem()
	n, _ := strconv.Atoi(k)
	v.FieldByName("K").SetInt(int64(n))
	if tok == "fresh" {
		return
	}
	v.FieldByName("A").SetString("before " + k + tok)
	v.FieldByName("B").SetString("after " + k + tok)
	v.FieldByName("V").Set(dup(w.vals[tok]))
	v.FieldByName("W").Set(dup(w.vals[w.other(tok)]))
}

// dup copies what the scanner may write into.
func dup(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(dup(v.Elem()))
		return p.Convert(v.Type())
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(s, v)
		return s
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		s := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			s.SetMapIndex(k, v.MapIndex(k))
		}
		return s
	}
	return v
}

// same compares a record with the one that should be there; k2 tells whether A, B and W are of another token.
func (w *world) same(x reflect.Value, k, tok, rest string) string {
	if x.Kind() == reflect.Ptr {
		x = x.Elem()
	}
	y := reflect.ValueOf(w.mk(k, rest)).Elem()
	y.FieldByName("V").Set(w.vals[tok])
	for _, f := range []string{"K", "A", "V", "B", "W"} {
		if a, b := x.FieldByName(f), y.FieldByName(f); !eq(b, a) {
			return fmt.Sprintf("%s of record %s is %s, want %s", f, k, show(a), show(b))
		}
	}
	return ""
}

// run executes one transition; it returns what is wrong and details.
func (w *world) run(t *trans) (string, string) {
	b, m := w.b, w.m
	ctx := context.Background()
	b.clear()
	rest := map[string]string{}
	for _, r := range t.Before {
		rest[r[0]] = r[1]
		x := w.mk(r[0], r[1])
		if err, _ := kit.Safely(func() error { return m.InsertOne(ctx, b.d, x) }); err != nil {
			if r[1] == "huge" {
				return "", "" // this database does not hold it
			}
			return "a value is not stored", fmt.Sprintf("insert %s: %v", show(w.vals[r[1]]), err)
		}
	}
	after := t.After
	c := t.Call
	bad := ""
	err, panicked := kit.Safely(func() error {
		switch c.Op {
		case "insertone", "upsertone":
			x := w.mk(c.Recs[0].K, c.Recs[0].V)
			var err error
			if c.Op == "insertone" {
				err = m.InsertOne(ctx, b.d, x)
			} else {
				err = m.UpsertOne(ctx, b.d, x, true, nil)
			}
			if err != nil {
				return err
			}
			rest[c.Recs[0].K] = c.Recs[0].V
			bad = w.same(reflect.ValueOf(x), c.Recs[0].K, c.Recs[0].V, c.Recs[0].V)
		case "insert", "upsert":
			s := reflect.MakeSlice(reflect.SliceOf(m.T), 0, len(c.Recs))
			for _, r := range c.Recs {
				s = reflect.Append(s, reflect.ValueOf(w.mk(r.K, r.V)).Elem())
			}
			var err error
			if c.Op == "insert" {
				_, err = m.Insert(ctx, b.d, s.Interface())
			} else {
				_, err = m.Upsert(ctx, b.d, s.Interface(), true, nil)
			}
			if err != nil {
				return err
			}
			for i, r := range c.Recs {
				rest[r.K] = r.V
				if bad == "" {
					bad = w.same(s.Index(i), r.K, r.V, r.V)
				}
			}
		case "update":
			if _, err := m.Update(ctx, b.d, w.mk(c.Recs[0].K, c.Recs[0].V)); err != nil {
				return err
			}
			rest[c.Recs[0].K] = c.Recs[0].V
		case "set":
			e := w.m
			pk := reflect.ValueOf(w.mk(c.Recs[0].K, c.Recs[0].V))
			st := kit.UpdStmt{Set: []sequel.SetClause{w.set(pk.Interface(), w.vals[c.Recs[0].V])}, Where: keyIs(c.Recs[0].K)}
			_, err := e.ExecUpd(ctx, b.d, st)
			return err
		case "find":
			x := w.m.New()
			w.fill(x, t.Dst.K0(), t.Dst.V)
			reflect.ValueOf(x).Elem().FieldByName("K").SetInt(key(c.Recs[0].K))
			if err := m.Find(ctx, b.d, x); err != nil {
				return err
			}
			bad = w.same(reflect.ValueOf(x), c.Recs[0].K, t.Dst2.V, t.Dst2.V)
		case "lock":
			tx, err := b.d.BeginTx(ctx, nil)
			if err != nil {
				return err
			}
			defer tx.Rollback()
			x := w.m.New()
			w.fill(x, t.Dst.K0(), t.Dst.V)
			reflect.ValueOf(x).Elem().FieldByName("K").SetInt(key(c.Recs[0].K))
			if err := m.Lock(ctx, tx, x, "update"); err != nil {
				return err
			}
			bad = w.same(reflect.ValueOf(x), c.Recs[0].K, t.Dst2.V, t.Dst2.V)
		case "query":
		default:
			panic("unknown call " + c.Op)
		}
		return nil
	})
	got := "none"
	switch {
	case panicked:
		got = "panic"
	case errors.Is(err, sql.ErrNoRows):
		got = "norows"
	case err != nil:
		got = "refused"
	}
	call := fmt.Sprintf("%s %v", c.Op, w.recs(c.Recs))
	if got != t.Err {
		if t.May && (got == "refused" || got == "none") {
			return "", "" // the other outcome
		}
		if got == "refused" && (c.Op == "find" || c.Op == "lock") {
			return "a stored value is not read", fmt.Sprintf("%s: %v, stored %v", call, err, b.raw())
		}
		return "a call fails", fmt.Sprintf("%s: %s %v, want %s", call, got, err, t.Err)
	}
	if bad != "" {
		return "another value is read", fmt.Sprintf("%s: %s; stored %v", call, bad, b.raw())
	}
	// what is there now
	var rows any
	err, _ = kit.Safely(func() (err error) { rows, err = m.Query(ctx, b.d, kit.SelectStmt{Limit: 100}); return })
	if err != nil {
		return "a stored value is not read", fmt.Sprintf("after %s: %v; stored %v", call, err, b.raw())
	}
	rv := reflect.ValueOf(rows)
	if rv.Len() != len(after) {
		return "other records are there", fmt.Sprintf("after %s: %d records, want %d", call, rv.Len(), len(after))
	}
	for i := 0; i < rv.Len(); i++ {
		x := rv.Index(i)
		if x.Kind() == reflect.Ptr {
			x = x.Elem()
		}
		k := fmt.Sprint(x.FieldByName("K").Int())
		found := false
		for _, a := range after {
			if a[0] == k {
				found = true
				r := rest[k]
				if s := w.same(x, k, a[1], r); s != "" {
					return "another value is read", fmt.Sprintf("after %s: %s; stored %v", call, s, b.raw())
				}
			}
		}
		if !found {
			return "other records are there", fmt.Sprintf("after %s: record %s", call, k)
		}
	}
	if w.ty.Ptr {
		n := b.nulls()
		sort.Strings(t.Null)
		if strings.Join(n, ",") != strings.Join(t.Null, ",") {
			return "null and nil differ", fmt.Sprintf("after %s: null are %v, want %v; stored %v", call, n, t.Null, b.raw())
		}
	}
	return "", ""
}

// K0 is the key in the variable.
func (r rec) K0() string {
	if r.K == "" {
		return "0"
	}
	return r.K
}

func key(k string) int64 { n, _ := strconv.ParseInt(k, 10, 64); return n }

func keyIs(k string) sequel.WhereClause {
	return func(w sequel.StmtWriter) { w.WriteString("k = " + w.Var(key(k))) }
}

func (b *base) raw() string {
	if b.e != nil {
		s := fmt.Sprintf("%#v", b.e.Rows(b.m.Table))
		if len(s) > 300 {
			s = s[:300]
		}
		return s
	}
	return ""
}

func (w *world) recs(rs []rec) string {
	var out []string
	for _, r := range rs {
		s := r.K
		if v, ok := w.vals[r.V]; ok {
			s += "=" + show(v)
		}
		out = append(out, s)
	}
	return strings.Join(out, " ")
}

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var types []typ
	if err := json.Unmarshal(b, &types); err != nil {
		panic(err)
	}
	ts := kit.Lines[trans](os.Args[2])
	thorough := os.Args[3] == "thorough"
	seed, _ := strconv.ParseInt(os.Args[4], 10, 64)
	var rep kit.Report
	type part struct {
		env *kit.Env
		ty  *typ
	}
	var parts []part
	for _, e := range vlflav.All {
		for i := range types {
			parts = append(parts, part{e, &types[i]})
		}
	}
	kit.Parallel(len(parts), func(pi int) {
		p := parts[pi]
		en := reg.All[p.env.Flavour][p.ty.Name]
		m := en.M
		f, _ := m.T.FieldByName("V")
		modes := []string{"native", "text", "bytes", "str"}
		switch p.env.Driver {
		case "sqlite":
			modes = []string{"own", "plain"}
			if p.ty.Cls == "time" {
				modes = []string{"own", "plain", "stamp"}
			}
			if p.ty.Cls == "nulltime" { // reads times only
				modes = []string{"own"}
			}
		case "postgres":
			modes = []string{"native", "bytes", "str"}
		}
		for mi, mode := range modes {
			r := rand.New(rand.NewSource(seed*7919 + int64(pi)*31 + int64(mi)))
			n := 12
			if thorough {
				n = 120
			}
			var vals []reflect.Value
			for i := 0; i < n; i++ {
				vals = append(vals, gen(f.Type, p.ty.Type, r, 0))
			}
			w := &world{ty: p.ty, m: m, set: en.Set, b: open(m, p.ty, mode)}
			failed := map[string]int{}
			for i := range ts {
				t := &ts[i]
				if t.Ptr != p.ty.Ptr || t.Huge != p.ty.Huge || (t.Call.Op == "lock" && p.env.Driver == "sqlite") {
					continue
				}
				reps := 1
				if thorough {
					reps = 6
				}
				for k := 0; k < reps; k++ {
					w.vals = map[string]reflect.Value{"a": vals[r.Intn(n)], "b": vals[r.Intn(n)], "nil": reflect.Zero(f.Type)}
					if t.Huge {
						w.vals["huge"] = huge(f.Type, r)
					}
					rep.Run(1)
					what, detail := w.run(t)
					if what == "" {
						continue
					}
					sig := what
					if b, _ := json.Marshal(t); strings.Contains(string(b), `"v":"huge"`) || strings.Contains(string(b), `,"huge"]`) {
						sig = "huge: " + what
					}
					if failed[sig]++; failed[sig] > 3 {
						continue
					}
					rep.Add(kit.Violation{Sig: sig, Where: p.env.Flavour + " " + mode + " " + p.ty.Type, What: what, Case: t, Detail: detail})
				}
			}
			w.b.d.Close()
		}
	})
	rep.Count("types", len(types))
	for i := 0; i < 3 && i < len(ts); i++ {
		rep.Sample(ts[i*len(ts)/3])
	}
	rep.Print()
}

// huge is a number that no signed column holds.
func huge(t reflect.Type, r *rand.Rand) reflect.Value {
	v := reflect.New(t).Elem()
	x := v
	if t.Kind() == reflect.Ptr {
		v.Set(reflect.New(t.Elem()))
		x = v.Elem()
	}
	x.SetUint([]uint64{1 << 63, 1<<64 - 1, 1<<63 + uint64(r.Int63())}[r.Intn(3)])
	return v
}
