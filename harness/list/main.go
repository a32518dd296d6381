// list replays the texts of ListCodec.tla against the list types, and records
// the texts that the list types produce.
package main

import (
	"bytes"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/si3nloong/sqlgen/sequel/driver/postgres/pgtype"
	"github.com/si3nloong/sqlgen/sequel/encoding"
	"github.com/si3nloong/sqlgen/sequel/sqltype"

	"verifws/kit"
)

type text struct {
	T []string          `json:"t"`
	O string            `json:"o"`
	L []json.RawMessage `json:"l"`
}

type (
	named    string
	namedInt int64
	flag     bool
	blob     []byte
)

type typ struct {
	name, syn, kind string
	t               reflect.Type
}

func of[T any](syn, kind string) typ {
	t := reflect.TypeFor[T]()
	n := t.String()
	if i := strings.LastIndexByte(n, '['); i > 0 {
		n = n[:i] + "[" + t.Elem().String() + "]"
	}
	return typ{n, syn, kind, t}
}

var types = []typ{
	of[sqltype.IntSlice[int]]("json", "int"), of[sqltype.Int8Slice[int8]]("json", "int"), of[sqltype.Int16Slice[int16]]("json", "int"),
	of[sqltype.Int32Slice[int32]]("json", "int"), of[sqltype.Int64Slice[int64]]("json", "int"), of[sqltype.Int64Slice[namedInt]]("json", "int"),
	of[sqltype.UintSlice[uint]]("json", "uint"), of[sqltype.Uint8Slice[uint8]]("json", "uint"), of[sqltype.Uint16Slice[uint16]]("json", "uint"),
	of[sqltype.Uint32Slice[uint32]]("json", "uint"), of[sqltype.Uint64Slice[uint64]]("json", "uint"),
	of[sqltype.Float32Slice[float32]]("json", "float"), of[sqltype.Float64Slice[float64]]("json", "float"),
	of[sqltype.BoolSlice[bool]]("json", "bool"), of[sqltype.BoolSlice[flag]]("json", "bool"),
	of[sqltype.StringSlice[string]]("json", "str"), of[sqltype.StringSlice[named]]("json", "str"),
	of[pgtype.IntArray[int]]("pg", "int"), of[pgtype.Int8Array[int8]]("pg", "int"), of[pgtype.Int16Array[int16]]("pg", "int"),
	of[pgtype.Int32Array[int32]]("pg", "int"), of[pgtype.Int64Array[int64]]("pg", "int"), of[pgtype.Int64Array[namedInt]]("pg", "int"),
	of[pgtype.UintArray[uint]]("pg", "uint"), of[pgtype.Uint8Array[uint8]]("pg", "uint"), of[pgtype.Uint16Array[uint16]]("pg", "uint"),
	of[pgtype.Uint32Array[uint32]]("pg", "uint"), of[pgtype.Uint64Array[uint64]]("pg", "uint"),
	of[pgtype.Float32Array[float32]]("pg", "float"), of[pgtype.Float64Array[float64]]("pg", "float"),
	of[pgtype.BoolArray[bool]]("pg", "bool"), of[pgtype.BoolArray[flag]]("pg", "bool"),
	of[pgtype.StringArray[string]]("pg", "str"), of[pgtype.StringArray[named]]("pg", "str"),
	of[pgtype.ByteaArray[[]byte]]("pg", "bytea"), of[pgtype.ByteaArray[blob]]("pg", "bytea"),
}

// how characters are written
var chars = map[string]string{"sp": " ", "eacute": "é", "ctrl": "\n", "bad": "\xff", "astral": "😀", "upair": `ud83d\ude00`, "tab": "\t", "nul": "\x00"}

// the text of a symbol for an element type
func word(t typ, x string) string {
	if t.kind == "str" {
		if s, ok := chars[x]; ok {
			return s
		}
		return x
	}
	if x == "sp" {
		return " "
	}
	e := t.t.Elem()
	switch x {
	case "zero":
		return "0"
	case "one":
		return "1"
	case "neg":
		return "-1"
	case "plus":
		return "+1"
	case "lead0":
		return "01"
	case "quoted":
		return `"1"`
	case "word":
		return "x1"
	case "huge":
		return "99999999999999999999999999999999999999999"
	case "exp":
		return "25e-1"
	case "nan":
		return "NaN"
	case "inf":
		return "Infinity"
	case "ninf":
		return "-Infinity"
	case "null":
		if t.syn == "pg" {
			return "NULL"
		}
		return "null"
	case "hexempty":
		return `"\\x"`
	case "hexab":
		return `"\\x00ff61"`
	case "plain":
		return `abc`
	case "octal":
		return `"\\000a\\377"`
	case "back":
		return `"\\\\a"`
	case "hexodd":
		return `"\\x0"`
	case "hexbad":
		return `"\\xzz"`
	case "octover":
		return `"\\400"`
	case "octshort":
		return `"a\\1"`
	case "octbad":
		return `"\\9zz"`
	}
	bits := 0
	switch e.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		bits = e.Bits()
		max := uint64(1)<<(bits-1) - 1
		switch x {
		case "max":
			return strconv.FormatUint(max, 10)
		case "over":
			return strconv.FormatUint(max+1, 10)
		case "min":
			return "-" + strconv.FormatUint(max+1, 10)
		case "under":
			return "-" + strconv.FormatUint(max+2, 10)
		case "frac":
			return "1.5"
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		bits = e.Bits()
		switch x {
		case "max":
			return strconv.FormatUint(math.MaxUint64>>(64-bits), 10)
		case "over":
			if bits == 64 {
				return "18446744073709551616"
			}
			return strconv.FormatUint(math.MaxUint64>>(64-bits)+1, 10)
		case "min":
			return "0"
		case "under":
			return "-2"
		case "frac":
			return "1.5"
		}
	case reflect.Float32, reflect.Float64:
		f32 := e.Kind() == reflect.Float32
		switch x {
		case "max":
			if f32 {
				return "3.4028234663852886e+38"
			}
			return "1.7976931348623157e+308"
		case "min":
			if f32 {
				return "-1e-45"
			}
			return "-5e-324"
		case "over":
			if f32 {
				return "1e39"
			}
			return "1e309"
		case "under":
			if f32 {
				return "-3.5e38"
			}
			return "-2e308"
		case "frac":
			return "0.1"
		}
	}
	return x
}

// the value that a spec element denotes
func value(t typ, raw json.RawMessage) reflect.Value {
	e := t.t.Elem()
	v := reflect.New(e).Elem()
	if t.kind == "str" {
		var cs []string
		if err := json.Unmarshal(raw, &cs); err != nil {
			panic(err)
		}
		var sb strings.Builder
		for _, x := range cs {
			sb.WriteString(word(t, x))
		}
		v.SetString(sb.String())
		return v
	}
	var x string
	if err := json.Unmarshal(raw, &x); err != nil {
		panic(err)
	}
	w := word(t, x)
	switch t.kind {
	case "int":
		n, err := strconv.ParseInt(w, 10, 64)
		must(err)
		v.SetInt(n)
	case "uint":
		n, err := strconv.ParseUint(w, 10, 64)
		must(err)
		v.SetUint(n)
	case "float":
		n, err := strconv.ParseFloat(w, e.Bits())
		must(err)
		v.SetFloat(n)
	case "bool":
		v.SetBool(w == "t" || w == "true")
	case "bytea":
		m := map[string]string{"hexempty": "", "hexab": "\x00\xffa", "plain": "abc", "octal": "\x00a\xff", "back": "\\a"}
		s, ok := m[x]
		if !ok {
			panic(x)
		}
		v.SetBytes([]byte(s))
	}
	return v
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func eq(a, b reflect.Value) bool {
	if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
		return false
	}
	for i := 0; i < a.Len(); i++ {
		if !eqElem(a.Index(i), b.Index(i)) {
			return false
		}
	}
	return true
}

func eqElem(x, y reflect.Value) bool {
	switch x.Kind() {
	case reflect.Float32, reflect.Float64:
		f, g := x.Float(), y.Float()
		return f == g && math.Signbit(f) == math.Signbit(g) || f != f && g != g
	case reflect.Slice:
		return string(x.Bytes()) == string(y.Bytes())
	}
	return x.Equal(y)
}

func clone(v reflect.Value) reflect.Value {
	if v.IsNil() {
		return reflect.Zero(v.Type())
	}
	o := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
	reflect.Copy(o, v)
	if v.Type().Elem().Kind() == reflect.Slice {
		for i := 0; i < v.Len(); i++ {
			o.Index(i).SetBytes(append([]byte{}, v.Index(i).Bytes()...))
		}
	}
	return o
}

var rep kit.Report

func randElem(t typ, r *rand.Rand) reflect.Value {
	e := t.t.Elem()
	v := reflect.New(e).Elem()
	switch t.kind {
	case "int":
		n := int64(r.Uint64()) >> uint(r.Intn(64))
		if r.Intn(4) == 0 {
			n = []int64{math.MinInt64, math.MaxInt64, 0, -1}[r.Intn(4)] >> uint(64-e.Bits())
		}
		v.SetInt(n << uint(64-e.Bits()) >> uint(64-e.Bits()))
	case "uint":
		v.SetUint(r.Uint64() >> uint(64-e.Bits()) >> uint(r.Intn(e.Bits())))
	case "float":
		for {
			var f float64
			if e.Kind() == reflect.Float32 {
				f = float64(math.Float32frombits(r.Uint32()))
			} else {
				f = math.Float64frombits(r.Uint64())
			}
			if r.Intn(3) == 0 {
				f = float64(r.Intn(2000)-1000) / 8
			}
			if t.syn == "json" && (math.IsNaN(f) || math.IsInf(f, 0)) {
				continue
			}
			v.SetFloat(f)
			break
		}
	case "bool":
		v.SetBool(r.Intn(2) == 0)
	case "str":
		v.SetString(randString(r))
	case "bytea":
		b := make([]byte, r.Intn(6))
		r.Read(b)
		v.SetBytes(b)
	}
	return v
}

var pool = []rune{'"', '\\', ',', '{', '}', '[', ']', ' ', '\t', '\n', '\r', '\b', '\f', 0, 1, 0x1f, 0x7f, 0x85, 0xa0, 0x2028, 0x2029, 0xfeff, 0xfffd, 0xffff,
	'é', '漢', '😀', 0x10ffff, 'a', 'N', 'n', 'u', 'x', '/', '<', '>', '&', '\'', '`', '$', '?', ';', '-', '0'}

func randString(r *rand.Rand) string {
	switch r.Intn(14) {
	case 0:
		return ""
	case 1:
		return []string{"NULL", "null", "nil", "true", `\x00`, "{}", "[]", `""`, `\`, `"`}[r.Intn(10)]
	}
	n := r.Intn(9)
	if r.Intn(30) == 0 {
		n = 200 + r.Intn(300)
	}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		if r.Intn(4) > 0 {
			sb.WriteRune(pool[r.Intn(len(pool))])
		} else {
			for {
				c := rune(r.Intn(0x3000))
				if utf8.ValidRune(c) {
					sb.WriteRune(c)
					break
				}
			}
		}
	}
	return sb.String()
}

func randList(t typ, r *rand.Rand) reflect.Value {
	n := r.Intn(5)
	if r.Intn(25) == 0 {
		n = 50 + r.Intn(300)
	}
	v := reflect.MakeSlice(t.t, 0, n)
	for i := 0; i < n; i++ {
		v = reflect.Append(v, randElem(t, r))
	}
	return v
}

func show(v reflect.Value) string {
	if v.IsNil() {
		return "nil"
	}
	return fmt.Sprintf("%q", fmt.Sprintf("%#v", v.Interface()))
}

// a destination with earlier contents and the list read earlier from it
type dest struct {
	p       reflect.Value
	earlier reflect.Value // still held by the caller
	was     reflect.Value // its contents
}

func newDest(t typ, r *rand.Rand) dest {
	d := dest{p: reflect.New(t.t)}
	if r.Intn(3) > 0 {
		l := randList(t, r)
		d.p.Elem().Set(l)
		d.earlier = l
	} else {
		d.earlier = reflect.Zero(t.t)
	}
	d.was = clone(d.earlier)
	return d
}

func scan(d dest, s string, asBytes bool) (err error, panicked bool) {
	var src any = s
	var b []byte
	if asBytes {
		b = []byte(s)
		src = b
	}
	err, panicked = kit.Safely(func() error { return d.p.Interface().(sql.Scanner).Scan(src) })
	// the bytes belong to the driver, which uses them again
	for i := range b {
		b[i] = '7'
	}
	return
}

func texts(t typ, file string) {
	r := kit.Rng("texts" + t.name)
	for _, x := range kit.Lines[text](file) {
		var sb strings.Builder
		for _, y := range x.T {
			sb.WriteString(word(t, y))
		}
		s := sb.String()
		var want reflect.Value
		if x.O == "ok" {
			want = reflect.MakeSlice(t.t, 0, len(x.L))
			for _, l := range x.L {
				want = reflect.Append(want, value(t, l))
			}
		}
		for _, asBytes := range []bool{true, false} {
			d := newDest(t, r)
			err, panicked := scan(d, s, asBytes)
			got := d.p.Elem()
			bad := ""
			switch {
			case panicked:
				bad = "decoding panics"
			case x.O == "any":
			case x.O == "ok" && err != nil:
				bad = "a well formed text is refused"
			case x.O == "ok" && !eq(want, got):
				bad = "a text is decoded to another list"
			case x.O == "err" && err == nil:
				bad = "a malformed text is decoded"
			case x.O == "err" && got.Len() > 0 && !eq(got, d.was):
				bad = "a malformed text alters the list"
			}
			if bad == "" && !eq(d.earlier, d.was) {
				bad = "decoding changes a list decoded before"
			}
			if bad != "" {
				w := "an error"
				if x.O == "ok" {
					w = show(want)
				}
				rep.Add(kit.Violation{Sig: bad, Where: t.name, What: bad, Case: x.T,
					Detail: fmt.Sprintf("text %q (bytes %v): want %s, got %s, error %v", s, asBytes, w, show(got), err)})
			}
			rep.Run(1)
		}
		if x.O == "ok" {
			encode(t, want, r, x.T)
		}
	}
}

type rec struct {
	S string   `json:"s"`
	K string   `json:"k"`
	T []string `json:"t"`
	L any      `json:"l"`
	w string
	x string
}

var (
	recMu sync.Mutex
	recs  []rec
	seen  = map[string]bool{}
)

func charSym(c string) string {
	switch c {
	case "\"", "\\", "/", "[", "]", "{", "}", ",", "n":
		return c
	case " ":
		return "sp"
	case "\n":
		return "ctrl"
	}
	if len(c) == 1 && c[0] < 0x20 {
		return "ctrl" // whichever: not allowed unescaped in JSON
	}
	if len(c) == 1 && c[0] >= 0x80 {
		return "bad"
	}
	return fmt.Sprintf("c%x", c)
}

// the symbols of a recorded text of strings
func symbols(t typ, s string) []string {
	var out []string
	for len(s) > 0 {
		if t.syn == "json" && s[0] == '\\' && len(s) > 1 {
			out = append(out, "\\")
			s = s[1:]
			switch s[0] {
			case 'u':
				var q string
				n := 5
				if len(s) >= 11 && s[5] == '\\' {
					if json.Unmarshal([]byte(`"\`+s[:11]+`"`), &q) == nil && utf8.RuneCountInString(q) == 1 && q != "\ufffd" {
						n = 11
					}
				}
				if n == 5 && (len(s) < 5 || json.Unmarshal([]byte(`"\`+s[:5]+`"`), &q) != nil) {
					out = append(out, "u")
					s = s[1:]
					continue
				}
				out = append(out, "u:"+charSym2(q))
				s = s[n:]
				continue
			case 't', 'r', 'b', 'f':
				out = append(out, "u:"+charSym2(map[byte]string{'t': "\t", 'r': "\r", 'b': "\b", 'f': "\f"}[s[0]]))
				s = s[1:]
				continue
			case 'n':
				out = append(out, "n")
				s = s[1:]
				continue
			}
		}
		_, n := utf8.DecodeRuneInString(s)
		if t.syn == "pg" {
			out = append(out, charSym2(s[:n]))
		} else {
			out = append(out, charSym(s[:n]))
		}
		s = s[n:]
	}
	return out
}

// the name of a character in a list
func charSym2(c string) string {
	if len(c) == 1 && c[0] < 0x20 && c != "\n" {
		return fmt.Sprintf("c%x", c)
	}
	return charSym(c)
}

func tokens(t typ, s string) []string {
	var out []string
	for len(s) > 0 {
		n := 1
		if !strings.ContainsRune("[]{},\"\\ ", rune(s[0])) {
			if n = strings.IndexAny(s, "[]{},\"\\ "); n < 0 {
				n = len(s)
			}
			out = append(out, tokenSym(t, s[:n]))
		} else {
			out = append(out, charSym(s[:1]))
		}
		s = s[n:]
	}
	return out
}

func tokenSym(t typ, w string) string {
	e := t.t.Elem()
	if t.syn == "json" && !json.Valid([]byte(w)) {
		return "word"
	}
	switch t.kind {
	case "int":
		if n, err := strconv.ParseInt(w, 10, 64); err == nil {
			return "v:" + strconv.FormatInt(n, 10)
		}
	case "uint":
		if n, err := strconv.ParseUint(w, 10, 64); err == nil {
			return "v:" + strconv.FormatUint(n, 10)
		}
	case "float":
		if f, err := strconv.ParseFloat(w, e.Bits()); err == nil {
			return "v:" + fstr(f)
		}
	case "bool":
		return w
	}
	return "word"
}

func fstr(f float64) string {
	if f != f {
		return "nan"
	}
	return strconv.FormatUint(math.Float64bits(f), 16)
}

func listOf(t typ, v reflect.Value) any {
	out := []any{}
	for i := 0; i < v.Len(); i++ {
		x := v.Index(i)
		switch t.kind {
		case "str":
			cs := []string{}
			for s := x.String(); len(s) > 0; {
				_, n := utf8.DecodeRuneInString(s)
				cs = append(cs, charSym2(s[:n]))
				s = s[n:]
			}
			out = append(out, cs)
		case "int":
			out = append(out, "v:"+strconv.FormatInt(x.Int(), 10))
		case "uint":
			out = append(out, "v:"+strconv.FormatUint(x.Uint(), 10))
		case "float":
			out = append(out, "v:"+fstr(x.Float()))
		case "bool":
			s := strconv.FormatBool(x.Bool())
			if t.syn == "pg" {
				s = s[:1]
			}
			out = append(out, s)
		}
	}
	return out
}

func record(t typ, where, s string, l reflect.Value) {
	if t.kind == "bytea" || l.Len() > 60 {
		return
	}
	k := where + "\x00" + s
	recMu.Lock()
	defer recMu.Unlock()
	if seen[k] {
		return
	}
	seen[k] = true
	x := rec{S: t.syn, K: t.kind, L: listOf(t, l), w: where, x: s}
	if t.kind == "str" {
		x.T = symbols(t, s)
	} else {
		x.T = tokens(t, s)
	}
	recs = append(recs, x)
}

// encode writes the list, records the text and reads it again
func encode(t typ, l reflect.Value, r *rand.Rand, c any) {
	before := clone(l)
	var v driver.Value
	err, panicked := kit.Safely(func() (err error) {
		v, err = l.Interface().(driver.Valuer).Value()
		return
	})
	rep.Run(1)
	bad, detail := "", ""
	var s string
	switch {
	case panicked:
		bad = "encoding panics"
	case err != nil:
		bad = "a list is refused"
	case !eq(l, before):
		bad = "encoding changes the list"
	case l.IsNil():
		if v != nil {
			bad = "nil is not stored as null"
		}
	default:
		switch x := v.(type) {
		case string:
			s = strings.Clone(x)
		case []byte:
			s = string(x)
		default:
			bad = "the encoding of a list is no text"
		}
	}
	if bad == "" && !l.IsNil() {
		record(t, t.name, s, l)
	}
	if bad == "" {
		d := newDest(t, r)
		var err error
		if l.IsNil() {
			err, panicked = kit.Safely(func() error { return d.p.Interface().(sql.Scanner).Scan(nil) })
		} else {
			err, panicked = scan(d, s, r.Intn(2) == 0)
		}
		switch {
		case panicked:
			bad = "decoding panics"
		case err != nil:
			bad = "the encoding of a list is refused"
		case !eq(l, d.p.Elem()):
			bad = "a list does not read back"
			detail = " got " + show(d.p.Elem())
		case !eq(d.earlier, d.was):
			bad = "decoding changes a list decoded before"
		}
		if err != nil {
			detail = " error " + err.Error()
		}
	}
	if bad != "" {
		if c == nil {
			c = show(l)
		}
		rep.Add(kit.Violation{Sig: bad, Where: t.name, What: bad, Case: c, Detail: fmt.Sprintf("list %s, text %q,%s error %v", show(l), s, detail, err)})
	}
}

// lists that a JSON text cannot hold
func refused(t typ) {
	var ls []reflect.Value
	one := func(f func(reflect.Value)) {
		for pos := 0; pos < 3; pos++ {
			v := reflect.MakeSlice(t.t, 3, 3)
			f(v.Index(pos))
			ls = append(ls, v)
		}
	}
	switch {
	case t.syn == "json" && t.kind == "float":
		for _, f := range []float64{math.NaN(), math.Inf(1), math.Inf(-1)} {
			one(func(v reflect.Value) { v.SetFloat(f) })
		}
	case t.syn == "json" && t.kind == "str":
		for _, s := range []string{"\xff", "a\xc3", "\xed\xa0\x80"} {
			one(func(v reflect.Value) { v.SetString(s) })
		}
	}
	for _, l := range ls {
		var v driver.Value
		err, panicked := kit.Safely(func() (err error) {
			v, err = l.Interface().(driver.Valuer).Value()
			return
		})
		rep.Run(1)
		if panicked || err != nil && v == nil {
			if panicked {
				rep.Add(kit.Violation{Sig: "encoding panics", Where: t.name, What: "encoding panics", Case: show(l), Detail: err.Error()})
			}
			continue
		}
		// accepted: then it has to read back
		d := reflect.New(t.t)
		s, _ := v.(string)
		if err := d.Interface().(sql.Scanner).Scan(s); err != nil || !eq(d.Elem(), l) {
			rep.Add(kit.Violation{Sig: "a list is altered", Where: t.name, What: "a list that its column cannot hold is stored altered", Case: show(l), Detail: fmt.Sprintf("text %q, read back %s, error %v", s, show(d.Elem()), err)})
		}
	}
}

// other values are no lists
func kinds(t typ) {
	r := kit.Rng("kinds" + t.name)
	for _, src := range []any{int64(1), float64(1.5), true, time.Unix(0, 0)} {
		d := newDest(t, r)
		err, panicked := kit.Safely(func() error { return d.p.Interface().(sql.Scanner).Scan(src) })
		rep.Run(1)
		if panicked || err == nil {
			rep.Add(kit.Violation{Sig: "a value that is no list is decoded", Where: t.name, What: "a value that is no list is decoded", Case: fmt.Sprint(src), Detail: fmt.Sprintf("%v %s", err, show(d.p.Elem()))})
		}
	}
}

// the marshalling functions of package encoding
func marshal(r *rand.Rand, n int) {
	check := func(t typ, name string, l reflect.Value, s string) {
		rep.Run(1)
		record(t, name, s, l)
	}
	for i := 0; i < n; i++ {
		marshalOne(r, "MarshalIntSlice", of[sqltype.Int64Slice[int64]]("json", "int"), func(v reflect.Value) string {
			return encoding.MarshalIntSlice(v.Interface().(sqltype.Int64Slice[int64]))
		}, check)
		marshalOne(r, "MarshalIntSlice", of[sqltype.Int8Slice[int8]]("json", "int"), func(v reflect.Value) string {
			return encoding.MarshalIntSlice(v.Interface().(sqltype.Int8Slice[int8]))
		}, check)
		marshalOne(r, "MarshalUintSlice", of[sqltype.Uint64Slice[uint64]]("json", "uint"), func(v reflect.Value) string {
			return encoding.MarshalUintSlice(v.Interface().(sqltype.Uint64Slice[uint64]))
		}, check)
		marshalOne(r, "MarshalUintSlice", of[sqltype.Uint16Slice[uint16]]("json", "uint"), func(v reflect.Value) string {
			return encoding.MarshalUintSlice(v.Interface().(sqltype.Uint16Slice[uint16]))
		}, check)
		marshalOne(r, "MarshalFloat64List", of[sqltype.Float64Slice[float64]]("json", "float"), func(v reflect.Value) string {
			return encoding.MarshalFloat64List(v.Interface().(sqltype.Float64Slice[float64]))
		}, check)
		marshalOne(r, "MarshalBoolSlice", of[sqltype.BoolSlice[bool]]("json", "bool"), func(v reflect.Value) string {
			return encoding.MarshalBoolSlice(v.Interface().(sqltype.BoolSlice[bool]))
		}, check)
		marshalOne(r, "MarshalStringSlice", of[sqltype.StringSlice[string]]("json", "str"), func(v reflect.Value) string {
			return encoding.MarshalStringSlice(v.Interface().(sqltype.StringSlice[string]))
		}, check)
		// times
		var ts []time.Time
		for k := r.Intn(4); k > 0; k-- {
			ts = append(ts, time.Unix(r.Int63n(4e9), r.Int63n(1e9)).In(time.FixedZone("", (r.Intn(48)-24)*1800)))
		}
		var s string
		err, panicked := kit.Safely(func() error { s = encoding.MarshalTimeList(ts); return nil })
		var back []time.Time
		if !panicked {
			err = json.NewDecoder(bytes.NewReader([]byte(s))).Decode(&back)
		}
		ok := err == nil && len(back) == len(ts)
		for k := range ts {
			ok = ok && back[k].Equal(ts[k])
		}
		rep.Run(1)
		if !ok {
			rep.Add(kit.Violation{Sig: "a list does not read back", Where: "encoding.MarshalTimeList", What: "a list does not read back", Case: fmt.Sprint(ts), Detail: fmt.Sprintf("text %q: %v", s, err)})
		}
	}
}

func marshalOne(r *rand.Rand, name string, t typ, f func(reflect.Value) string, check func(typ, string, reflect.Value, string)) {
	l := randList(t, r)
	var s string
	if err, p := kit.Safely(func() error { s = f(l); return nil }); p {
		rep.Add(kit.Violation{Sig: "encoding panics", Where: "encoding." + name, What: "encoding panics", Case: show(l), Detail: err.Error()})
		return
	}
	check(t, "encoding."+name, l, strings.Clone(s))
}

// usage: list TRACE TEXTDIR
func main() {
	out, dir := os.Args[1], os.Args[2]
	n := 400
	if kit.Thorough() {
		n = 20000
	}
	kit.Parallel(len(types), func(i int) {
		t := types[i]
		texts(t, dir+"/"+t.syn+"."+t.kind)
		r := kit.Rng("lists" + t.name)
		encode(t, reflect.Zero(t.t), r, nil)
		encode(t, reflect.MakeSlice(t.t, 0, 0), r, nil)
		for k := 0; k < n; k++ {
			encode(t, randList(t, r), r, nil)
		}
		refused(t)
		kinds(t)
	})
	marshal(kit.Rng("marshal"), n)
	f, err := os.Create(out)
	must(err)
	w := json.NewEncoder(f)
	max := 6000
	if kit.Thorough() {
		max = 60000
	}
	r := kit.Rng("keep")
	r.Shuffle(len(recs), func(i, j int) { recs[i], recs[j] = recs[j], recs[i] })
	for i, x := range recs {
		if i >= max {
			break
		}
		must(w.Encode(struct {
			rec
			W string `json:"w"`
			X string `json:"x"`
		}{x, x.w, fmt.Sprintf("%q", x.x)}))
	}
	must(f.Close())
	rep.Count("texts_recorded", min(len(recs), max))
	rep.Distinct = len(seen)
	rep.Print()
}
