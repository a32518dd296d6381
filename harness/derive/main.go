// derive probes the code generated for struct declarations.
package main

import (
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"verifws/kit"
)

var pkgs = map[string]map[int]func() any{}

type col struct {
	Name string
	P    []int
}

type decl struct {
	ID                     int
	Go, Pkg, Naming, Table string
	Note                   string
	T                      []string
	Beside                 string
	Cols                   []col
	Keys, Auto, Ins, Thru  []int
	Driver                 string
	Quote                  bool
	As                     map[string]string
}

var rep = new(kit.Report)

func main() {
	b, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	var ds []decl
	if err := json.Unmarshal(b, &ds); err != nil {
		panic(err)
	}
	kit.Parallel(len(ds), func(i int) {
		d := &ds[i]
		t := &probe{d: d}
		defer func() {
			if r := recover(); r != nil {
				t.bad("probing panicked", fmt.Sprint(r))
			}
		}()
		t.setup()
		if os.Args[1] == "names" {
			t.names()
		} else {
			t.agree()
		}
		rep.Run(1)
		rep.Count(d.Driver+"/"+d.Naming, 1)
		if i < 4 {
			rep.Sample(map[string]any{"declaration": d.T, "columns": d.Cols})
		}
	})
	rep.Print()
}

type probe struct {
	d    *decl
	typ  reflect.Type
	path [][]int // reflect index of each column
	pub  []string
	acc  map[string]string
}

func (p *probe) bad(what, detail string) {
	rep.Add(kit.Violation{Sig: what, Where: p.d.Driver + "/" + p.d.Naming, What: what,
		Case: map[string]any{"declaration": p.d.T, "note": p.d.Note, "struct": p.d.Go, "package": p.d.Pkg}, Detail: detail})
}

func (p *probe) make() reflect.Value { return reflect.ValueOf(pkgs[p.d.Pkg][p.d.ID]()) }

var silent = map[string]bool{"ignore": true, "ignoredoc": true, "ignorelist": true, "groupignore": true, "unexported": true, "local": true, "generic": true}

// setup finds the fields by the names the writer gave them.
func (p *probe) setup() {
	p.typ = p.make().Type().Elem()
	for _, c := range p.d.Cols {
		idx := []int{}
		t := p.typ
		name := ""
		for k, id := range c.P {
			if t.Kind() == reflect.Pointer {
				t = t.Elem()
			}
			last := k == len(c.P)-1
			var f reflect.StructField
			ok := false
			if last {
				name = fieldName(p.d, id)
				f, ok = direct(t, func(f reflect.StructField) bool { return f.Name == name })
			} else {
				suffix := string(rune(64 + id))
				if as, ok := p.d.As[strconv.Itoa(id)]; ok {
					suffix = as
				}
				f, ok = direct(t, func(f reflect.StructField) bool {
					return f.Anonymous && strings.HasPrefix(strings.ToLower(f.Name), "emb") && strings.HasSuffix(f.Name, suffix)
				})
			}
			if !ok {
				panic(fmt.Sprintf("harness: no field %v in %v", c.P, t))
			}
			idx = append(idx, f.Index...)
			t = f.Type
		}
		p.path = append(p.path, idx)
		p.pub = append(p.pub, name)
	}
}

func fieldName(d *decl, id int) string {
	k := d.T[id/10-1]
	if k == "againtag" {
		id = d.Cols[0].P[len(d.Cols[0].P)-1]
	}
	return "Fld" + string(rune(64+id/10)) + string(rune('a'+id%10))
}

func direct(t reflect.Type, f func(reflect.StructField) bool) (reflect.StructField, bool) {
	for i := 0; i < t.NumField(); i++ {
		if f(t.Field(i)) {
			return t.Field(i), true
		}
	}
	return reflect.StructField{}, false
}

func (p *probe) unq(s string) string {
	if !p.d.Quote {
		return s
	}
	q := "`"
	if p.d.Driver != "mysql" {
		q = `"`
	}
	if len(s) < 2 || s[:1] != q || s[len(s)-1:] != q {
		return "unquoted " + s
	}
	return s[1 : len(s)-1]
}

func (p *probe) unqAll(s []string) []string {
	out := make([]string, len(s))
	for i := range s {
		out[i] = p.unq(s[i])
	}
	return out
}

func (p *probe) colNames(pos []int) []string {
	out := []string{}
	for _, i := range pos {
		out = append(out, p.d.Cols[i-1].Name)
	}
	return out
}

func (p *probe) allPos() []int {
	out := []int{}
	for i := range p.d.Cols {
		out = append(out, i+1)
	}
	return out
}

func has(v reflect.Value, m string) bool { return v.MethodByName(m).IsValid() }

// open makes a field reached through an unexported embedded struct settable.
func open(v reflect.Value) reflect.Value {
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func field(v reflect.Value, path []int) reflect.Value {
	for i, x := range path {
		if i > 0 && v.Kind() == reflect.Pointer {
			if v.IsNil() {
				v.Set(reflect.New(v.Type().Elem()))
			}
			v = v.Elem()
		}
		v = open(v.Field(x))
	}
	return v
}

func fieldRO(v reflect.Value, path []int) (reflect.Value, bool) {
	for i, x := range path {
		if i > 0 && v.Kind() == reflect.Pointer {
			if v.IsNil() {
				return v, false
			}
			v = v.Elem()
		}
		v = open(v.Field(x))
	}
	return v, true
}

// fill gives every column field a distinct value; embedded pointers are set.
func (p *probe) fill(v reflect.Value, base int) {
	for i, path := range p.path {
		set(field(v.Elem(), path), base+i)
	}
}

func set(f reflect.Value, n int) {
	switch f.Kind() {
	case reflect.Pointer:
		x := reflect.New(f.Type().Elem())
		set(x.Elem(), n)
		f.Set(x)
	case reflect.String:
		f.SetString(fmt.Sprintf("v%d", n))
	case reflect.Int, reflect.Int32, reflect.Int64:
		f.SetInt(int64(n))
	case reflect.Uint16, reflect.Uint32:
		f.SetUint(uint64(n))
	case reflect.Float64:
		f.SetFloat(float64(n) + 0.5)
	case reflect.Bool:
		f.SetBool(true)
	case reflect.Slice:
		if f.Type().Elem().Kind() == reflect.Uint8 {
			f.SetBytes([]byte(fmt.Sprintf("b%d", n)))
			return
		}
		f.Set(reflect.MakeSlice(f.Type(), 2, 2))
		set(f.Index(1), n)
	default:
		if f.Type() == reflect.TypeOf(time.Time{}) {
			f.Set(reflect.ValueOf(time.Date(2020, 1, 2, 3, 4, n%60, 0, time.UTC)))
			return
		}
		if f.Kind() == reflect.Struct {
			set(f.Field(f.NumField()-1), n)
			return
		}
		panic("harness: cannot set " + f.Type().String())
	}
}

func try[T any](p *probe, what string, f func() T) (out T, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			p.bad(what+" panics", fmt.Sprint(r))
			ok = false
		}
	}()
	return f(), true
}

type columner interface{ Columns() []string }
type tabler interface{ TableName() string }
type valuer interface{ Values() []any }
type scanner interface{ Addrs() []any }
type inserter interface{ InsertColumns() []string }
type placer interface{ InsertPlaceholders(int) string }
type pker interface{ PK() (string, int, any) }
type ckeyer interface {
	CompositeKey() ([]string, []int, []any)
}
type autoer interface{ IsAutoIncr() }
type ascanner interface{ ScanAutoIncr(int64) error }

// own reports whether the method is declared for the type itself rather than promoted.
func eq(a, b []string) bool {
	return len(a) == len(b) && strings.Join(a, "\x00") == strings.Join(b, "\x00")
}

func (p *probe) insertNames(v any) []string {
	if x, ok := v.(inserter); ok {
		return p.unqAll(x.InsertColumns())
	}
	return p.unqAll(v.(columner).Columns())
}

func (p *probe) names() {
	v := p.make().Interface()
	if silent[p.d.Note] || len(p.d.Cols) == 0 {
		for _, m := range []string{"Columns", "TableName", "Values", "Addrs", "InsertPlaceholders", "InsertOneStmt", "FindOneByPKStmt", "UpdateOneByPKStmt"} {
			if has(reflect.ValueOf(v), m) && !promoted(p.typ, m) {
				p.bad("code is generated for a struct that has none", m)
				return
			}
		}
		if p.d.Beside != "" {
			if _, ok := pkgs[p.d.Pkg][-p.d.ID]().(columner); !ok {
				p.bad("nothing is generated for the struct beside an ignored one", p.d.Beside)
			}
		}
		return
	}
	t, ok := v.(tabler)
	if !ok {
		p.bad("no table name is generated", "")
		return
	}
	if got := p.unq(t.TableName()); got != p.d.Table {
		p.bad("the table name is not the declared one", fmt.Sprintf("got %q want %q", got, p.d.Table))
	}
	c, ok := v.(columner)
	if !ok {
		p.bad("no columns are generated", "")
		return
	}
	want := p.colNames(p.allPos())
	if got := p.unqAll(c.Columns()); !eq(got, want) {
		p.bad("the columns are not the declared ones", fmt.Sprintf("got %q want %q", got, want))
		return
	}
	_, isAuto := v.(autoer)
	pk, isPK := v.(pker)
	ck, isCK := v.(ckeyer)
	if isAuto != (len(p.d.Auto) == 1) && !(isAuto && promoted(p.typ, "IsAutoIncr")) {
		p.bad("the auto-increment key is not the declared one", fmt.Sprintf("got %v want %v", isAuto, p.d.Auto))
	}
	switch {
	case len(p.d.Auto) == 1 || len(p.d.Keys) == 1:
		k := p.d.Keys
		if len(p.d.Auto) == 1 {
			k = p.d.Auto
		}
		if !isPK {
			p.bad("the key is not the declared one", "no key is generated")
			return
		}
		n, _, _ := pk.PK()
		if p.unq(n) != p.colNames(k)[0] {
			p.bad("the key is not the declared one", fmt.Sprintf("got %q want %q", n, p.colNames(k)[0]))
		}
	case len(p.d.Keys) > 1:
		if !isCK {
			p.bad("the key is not the declared one", "no composite key is generated")
			return
		}
		ns, _, _ := ck.CompositeKey()
		for i := range ns {
			ns[i] = strings.Trim(ns[i], "`\"")
		}
		if !eq(ns, p.colNames(p.d.Keys)) {
			p.bad("the key is not the declared one", fmt.Sprintf("got %q want %q", ns, p.colNames(p.d.Keys)))
		}
	default:
		if (isPK && !promoted(p.typ, "PK")) || (isCK && !promoted(p.typ, "CompositeKey")) {
			p.bad("a key is generated for a struct without one", "")
		}
	}
	if p.d.Note == "readonly" {
		for _, m := range []string{"Values", "InsertPlaceholders", "InsertOneStmt", "UpdateOneByPKStmt"} {
			if has(reflect.ValueOf(v), m) && !promoted(p.typ, m) {
				p.bad("a struct annotated read-only can be written", m)
			}
		}
		return
	}
	if len(p.d.Ins) > 0 {
		if got, want := p.insertNames(v), p.colNames(p.d.Ins); !eq(got, want) {
			p.bad("the inserted columns are not the declared ones", fmt.Sprintf("got %q want %q", got, want))
		}
	}
}

// promoted reports whether the method is that of an embedded struct.
func promoted(t reflect.Type, m string) bool {
	f, ok := t.MethodByName(m)
	if !ok {
		if f, ok = reflect.PointerTo(t).MethodByName(m); !ok {
			return false
		}
	}
	file, _ := runtime.FuncForPC(f.Func.Pointer()).FileLine(f.Func.Pointer())
	return file == "<autogenerated>"
}

func (p *probe) value(v reflect.Value, i int) (any, bool) {
	m := v.MethodByName(p.accessor(i) + "Value")
	if !m.IsValid() {
		p.bad("a column has no value accessor", p.d.Cols[i].Name)
		return nil, false
	}
	return try(p, "the value accessor", func() any { return m.Call(nil)[0].Interface() })
}

// accessor is what the names of the accessors of column i have in common: that
// of the method which returns the column named so.
func (p *probe) accessor(i int) string {
	if p.acc == nil {
		p.acc = map[string]string{}
		v := p.make()
		p.fill(v, 1)
		for k := 0; k < v.Type().NumMethod(); k++ {
			m := v.Type().Method(k)
			if strings.HasPrefix(m.Name, "Column") && m.Name != "Columns" && m.Type.NumIn() == 1 {
				if p.hidden(m.Name) {
					continue
				}
				var r any
				func() {
					// one promoted from an embedded pointer that is no part of the model
					defer func() { _ = recover() }()
					r = v.Method(k).Call(nil)[0].Interface()
				}()
				if x, ok := r.(interface{ ColumnName() string }); ok {
					p.acc[p.unq(x.ColumnName())] = strings.TrimPrefix(m.Name, "Column")
				}
			}
		}
	}
	if a, ok := p.acc[p.d.Cols[i].Name]; ok {
		return a
	}
	return p.pub[i]
}

// hidden reports whether the accessor is one that the embedded struct has for itself.
func (p *probe) hidden(m string) bool {
	if !promoted(p.typ, m) {
		return false
	}
	n := strings.TrimPrefix(m, "Column")
	for _, x := range p.pub {
		if x == n {
			return false
		}
	}
	return true
}

func same(a, b any) bool {
	return reflect.DeepEqual(a, b)
}

// norm resolves driver.Valuer.
func norm(v any) any {
	if x, ok := v.(interface{ Value() (any, error) }); ok {
		y, _ := x.Value()
		return y
	}
	return v
}

func assign(dst any, src any) error {
	if x, ok := src.(driver.Valuer); ok {
		v, err := x.Value()
		if err != nil {
			return err
		}
		src = v
	}
	if s, ok := dst.(sql.Scanner); ok {
		return s.Scan(src)
	}
	d := reflect.ValueOf(dst).Elem()
	if src == nil {
		d.Set(reflect.Zero(d.Type()))
		return nil
	}
	s := reflect.ValueOf(src)
	if d.Kind() == reflect.Pointer {
		x := reflect.New(d.Type().Elem())
		x.Elem().Set(s.Convert(d.Type().Elem()))
		d.Set(x)
		return nil
	}
	d.Set(s.Convert(d.Type()))
	return nil
}

var ident = regexp.MustCompile("`[^`]+`|\"[^\"]+\"")

func idents(q string) []string {
	out := ident.FindAllString(q, -1)
	for i := range out {
		out[i] = out[i][1 : len(out[i])-1]
	}
	return out
}

func (p *probe) agree() {
	if silent[p.d.Note] || len(p.d.Cols) == 0 {
		return
	}
	full := p.make()
	p.fill(full, 1)
	fi := full.Interface()
	want := make([]any, len(p.d.Cols))
	for i := range p.d.Cols {
		x, ok := p.value(full, i)
		if !ok {
			return
		}
		want[i] = x
		// the accessor depends on its own field only
		for j := range p.d.Cols {
			one := p.make()
			p.fill(one, 1)
			set2(field(one.Elem(), p.path[j]), 100+j)
			y, ok := p.value(one, i)
			if !ok {
				return
			}
			if same(x, y) == (i == j) {
				p.bad("a value accessor reads another field", fmt.Sprintf("column %q against field %s: %v, %v", p.d.Cols[i].Name, p.pub[j], x, y))
				return
			}
		}
	}
	// destinations
	sc, ok := fi.(scanner)
	if !ok {
		p.bad("no scan destinations are generated", "")
		return
	}
	_ = sc
	var n int
	if a, ok := try(p, "Addrs", func() []any { return p.make().Interface().(scanner).Addrs() }); ok {
		n = len(a)
	} else {
		return
	}
	if n != len(p.d.Cols) {
		p.bad("there are not as many destinations as columns", fmt.Sprint(n, len(p.d.Cols)))
		return
	}
	for i := range p.d.Cols {
		one := p.make()
		a := one.Interface().(scanner).Addrs()
		if err := assign(a[i], want[i]); err != nil {
			p.bad("a destination refuses the value of its column", fmt.Sprintf("%q: %v", p.d.Cols[i].Name, err))
			continue
		}
		ref := p.make()
		ref.Interface().(scanner).Addrs()
		field(ref.Elem(), p.path[i]).Set(field(full.Elem(), p.path[i]))
		if !reflect.DeepEqual(one.Interface(), ref.Interface()) {
			p.bad("a destination belongs to another field", fmt.Sprintf("column %q: got %s want %s", p.d.Cols[i].Name, show(one), show(ref)))
			return
		}
	}
	back := p.make()
	a := back.Interface().(scanner).Addrs()
	for i := range a {
		if err := assign(a[i], want[i]); err != nil {
			return
		}
	}
	if !reflect.DeepEqual(back.Interface(), fi) {
		p.bad("reading the stored columns back does not give the record", fmt.Sprintf("got %s want %s", show(back), show(full)))
	}
	// pointer columns that are nil
	p.nils()
	// keys
	p.keys(full, want)
	// column accessors
	for i, c := range p.d.Cols {
		m := full.MethodByName("Column" + p.accessor(i))
		if !m.IsValid() {
			p.bad("a column has no accessor", c.Name)
			continue
		}
		r, ok := try(p, "the column accessor", func() reflect.Value { return reflect.ValueOf(m.Call(nil)[0].Interface()) })
		if !ok {
			continue
		}
		if x := r.MethodByName("ColumnName").Call(nil)[0].String(); p.unq(x) != c.Name {
			p.bad("a column accessor names another column", fmt.Sprintf("got %q want %q", x, c.Name))
		}
		val := r.MethodByName("Value").Call(nil)[0]
		if !reflect.DeepEqual(val.Interface(), field(full.Elem(), p.path[i]).Interface()) {
			p.bad("a column accessor has the value of another field", c.Name)
		}
		if cv := r.MethodByName("Convert"); cv.IsValid() {
			if y := cv.Call([]reflect.Value{val})[0].Interface(); !same(norm(y), norm(want[i])) {
				p.bad("a column accessor converts otherwise than the value accessor", fmt.Sprintf("%q: %v, %v", c.Name, y, want[i]))
			}
		}
	}
	if p.d.Note == "readonly" || len(p.d.Ins) == 0 {
		return
	}
	vals, ok := try(p, "Values", func() []any { return fi.(valuer).Values() })
	if !ok {
		return
	}
	ins := p.insertNames(fi)
	if len(vals) != len(p.d.Ins) || len(ins) != len(vals) {
		p.bad("there are not as many values as inserted columns", fmt.Sprintf("%d values, columns %q", len(vals), ins))
		return
	}
	for j, i := range p.d.Ins {
		if ins[j] != p.d.Cols[i-1].Name || !same(norm(vals[j]), norm(want[i-1])) {
			p.bad("a value stands at the place of another column", fmt.Sprintf("place %d: %q %v, want %q %v", j, ins[j], vals[j], p.d.Cols[i-1].Name, want[i-1]))
			return
		}
	}
	next := 0
	for row := 0; row < 3; row++ {
		got := fi.(placer).InsertPlaceholders(row)
		w := []string{}
		for range p.d.Ins {
			next++
			if p.d.Driver == "postgres" {
				w = append(w, fmt.Sprintf("$%d", next))
			} else {
				w = append(w, "?")
			}
		}
		if strings.ReplaceAll(got, " ", "") != "("+strings.Join(w, ",")+")" {
			p.bad("the placeholders of a row do not match its values", fmt.Sprintf("row %d: %s", row, got))
			return
		}
	}
	p.stmts(full, want)
}

// set2 gives the field a value other than set does.
func set2(f reflect.Value, n int) {
	if f.Kind() == reflect.Bool {
		f.SetBool(false)
		return
	}
	set(f, n)
}

func show(v reflect.Value) string {
	b, _ := json.Marshal(v.Interface())
	return string(b)
}

func (p *probe) nils() {
	thru := map[int]bool{}
	for _, i := range p.d.Thru {
		thru[i-1] = true
	}
	zero := p.make()
	for i := range p.d.Cols {
		x, ok := p.value(zero, i)
		if !ok {
			return
		}
		f, isSet := fieldRO(zero.Elem(), p.path[i])
		null := !isSet || (f.Kind() == reflect.Pointer && f.IsNil())
		if null != (x == nil) && !(isSet && f.Kind() == reflect.Slice) {
			p.bad("a column that is absent has a value, or the reverse", fmt.Sprintf("%q: %v", p.d.Cols[i].Name, x))
		}
		if thru[i] {
			m := zero.MethodByName("Column" + p.accessor(i))
			if m.IsValid() {
				func() {
					defer func() {
						if r := recover(); r != nil {
							p.bad("a column accessor panics on a nil embedded pointer", fmt.Sprint(r))
						}
					}()
					m.Call(nil)
				}()
			}
		}
	}
	if p.d.Note != "readonly" && len(p.d.Ins) > 0 {
		vals, ok := try(p, "Values", func() []any { return zero.Interface().(valuer).Values() })
		if ok && len(vals) == len(p.d.Ins) {
			for j, i := range p.d.Ins {
				x, _ := p.value(zero, i-1)
				if !same(norm(x), norm(vals[j])) {
					p.bad("a value stands at the place of another column", fmt.Sprintf("empty record, place %d: %v want %v", j, vals[j], x))
				}
			}
		}
	}
	if x, ok := zero.Interface().(pker); ok && len(p.keyPos()) == 1 {
		try(p, "PK", func() int { _, n, _ := x.PK(); return n })
	}
	if x, ok := zero.Interface().(ckeyer); ok && len(p.keyPos()) > 1 {
		try(p, "CompositeKey", func() int { n, _, _ := x.CompositeKey(); return len(n) })
	}
}

func (p *probe) keyPos() []int {
	if len(p.d.Auto) == 1 {
		return p.d.Auto
	}
	return p.d.Keys
}

func (p *probe) keys(full reflect.Value, want []any) {
	k := p.keyPos()
	fi := full.Interface()
	check := func(n string, pos int, v any, i int) {
		if strings.Trim(n, "`\"") != p.d.Cols[i-1].Name || pos != i-1 || !same(norm(v), norm(want[i-1])) {
			p.bad("the key does not describe its column", fmt.Sprintf("got %q at %d = %v, want %q at %d = %v", n, pos, v, p.d.Cols[i-1].Name, i-1, want[i-1]))
		}
	}
	if len(k) == 1 {
		if x, ok := fi.(pker); ok {
			n, pos, v := x.PK()
			check(n, pos, v, k[0])
		} else {
			p.bad("the key does not describe its column", "no key")
		}
	} else if len(k) > 1 {
		x, ok := fi.(ckeyer)
		if !ok {
			p.bad("the key does not describe its column", "no key")
			return
		}
		ns, ps, vs := x.CompositeKey()
		if len(ns) != len(k) || len(ps) != len(k) || len(vs) != len(k) {
			p.bad("the key does not describe its column", fmt.Sprint(ns, ps, vs))
			return
		}
		for j, i := range k {
			check(ns[j], ps[j], vs[j], i)
		}
	}
	if len(p.d.Auto) == 1 && p.d.Note != "readonly" {
		one := p.make()
		p.fill(one, 1)
		if x, ok := one.Interface().(ascanner); ok {
			if err := x.ScanAutoIncr(777); err != nil {
				p.bad("the generated key is not taken over", err.Error())
				return
			}
			ref := p.make()
			p.fill(ref, 1)
			set(field(ref.Elem(), p.path[p.d.Auto[0]-1]), 777)
			if !reflect.DeepEqual(one.Interface(), ref.Interface()) {
				p.bad("the generated key goes to another field", fmt.Sprintf("got %s want %s", show(one), show(ref)))
			}
		}
	}
}

// stmts: the identifiers of a statement in order against its arguments.
func (p *probe) stmts(full reflect.Value, want []any) {
	at := map[string]int{}
	for i, c := range p.d.Cols {
		at[c.Name] = i
	}
	run := func(m string) (string, []any, bool) {
		f := full.MethodByName(m)
		if !f.IsValid() || promoted(p.typ, m) && f.Type().NumOut() != 2 {
			return "", nil, false
		}
		r := f.Call(nil)
		a, _ := r[1].Interface().([]any)
		return r[0].String(), a, true
	}
	match := func(m, q string, names []string, args []any) {
		if len(names) != len(args) {
			p.bad("a statement has more or fewer arguments than columns", fmt.Sprintf("%s: %s %v", m, q, args))
			return
		}
		for i, n := range names {
			j, ok := at[n]
			if !ok || !same(norm(args[i]), norm(want[j])) {
				p.bad("an argument of a statement belongs to another column", fmt.Sprintf("%s: %s, %q = %v", m, q, n, args[i]))
				return
			}
		}
	}
	if q, args, ok := run("InsertOneStmt"); ok {
		ids := idents(q)
		n := len(p.d.Ins)
		if len(ids) < n+1 || !eq(ids[1:n+1], p.colNames(p.d.Ins)) {
			p.bad("a statement inserts other columns", q)
			return
		}
		match("InsertOneStmt", q, ids[1:n+1], args)
		if rest := ids[n+1:]; len(rest) > 0 && !eq(rest, p.colNames(p.allPos())) {
			p.bad("a statement returns other columns", q)
		}
	}
	k := p.keyPos()
	if len(k) == 0 {
		return
	}
	if q, args, ok := run("FindOneByPKStmt"); ok {
		ids := idents(q)
		n := len(p.d.Cols)
		if len(ids) < n+1 || !eq(ids[:n], p.colNames(p.allPos())) {
			p.bad("a statement reads other columns", q)
			return
		}
		match("FindOneByPKStmt", q, ids[n+1:], args)
	}
	if q, args, ok := run("UpdateOneByPKStmt"); ok {
		ids := idents(q)
		if len(ids) > 0 {
			match("UpdateOneByPKStmt", q, ids[1:], args)
		}
	}
}
