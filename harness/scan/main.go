// scan replays the behaviours of Scan.tla against the scanners of the
// packages encoding and types.
package main

import (
	"database/sql"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/si3nloong/sqlgen/sequel/encoding"
	stypes "github.com/si3nloong/sqlgen/sequel/types"

	"verifws/kit"
)

type dest struct {
	C string `json:"c"`
	W int    `json:"w"`
	S bool   `json:"s"`
}

type step struct {
	K string `json:"k"`
	P string `json:"p"`
	O string `json:"o"`
}

type path struct {
	D dest   `json:"d"`
	F string `json:"f"`
	H []step `json:"h"`
}

type (
	myInt    int
	myInt8   int8
	myUint16 uint16
	myBool   bool
	myStr    string
	myBytes  []byte
	myF32    float32
)

// pair is read from text "a|b"; on malformed text it is left half read.
type pair struct{ A, B string }

func (p *pair) UnmarshalText(b []byte) error {
	x := strings.SplitN(string(b), "|", 2)
	p.A = x[0]
	if len(x) < 2 || x[1] == "" {
		return errors.New("pair: malformed")
	}
	if len(x[1]) > 1 || p.B == "" { // keeps the earlier one when it is set
		p.B = x[1]
	}
	return nil
}

type scanPair struct{ pair }

func (p *scanPair) Scan(v any) error {
	switch x := v.(type) {
	case string:
		return p.UnmarshalText([]byte(x))
	case []byte:
		return p.UnmarshalText(x)
	}
	return fmt.Errorf("scanPair: %T", v)
}

type obj struct {
	A *int
	B map[string]int
	C []string
}

type bin string

func (b *bin) UnmarshalBinary(x []byte) error {
	if string(x) == "abc" {
		return errors.New("bin: refused")
	}
	*b = bin(x)
	return nil
}

// a destination: the variable, its scanner, and what it holds as a value
type box struct {
	ptr  any
	scan sql.Scanner
	name string
}

func mk[T any, A any](p A, s sql.Scanner) box {
	return box{p, s, fmt.Sprintf("%T", p)}
}

// open makes the destinations of a class; several named types per class
func open(d dest, f string, r *rand.Rand) box {
	p := f == "ptr"
	n := r.Intn(2) == 0
	st := []bool{}
	if d.S || r.Intn(2) == 0 {
		st = append(st, d.S)
	}
	switch d.C {
	case "int":
		switch d.W {
		case 8:
			if n {
				return both(p, encoding.Int8Scanner[myInt8, *myInt8], encoding.Int8Scanner[myInt8, **myInt8])
			}
			return both(p, encoding.Int8Scanner[int8, *int8], encoding.Int8Scanner[int8, **int8])
		case 16:
			return both(p, encoding.Int16Scanner[int16, *int16], encoding.Int16Scanner[int16, **int16])
		case 32:
			return both(p, encoding.Int32Scanner[int32, *int32], encoding.Int32Scanner[int32, **int32])
		default:
			if n {
				return both(p, encoding.IntScanner[myInt, *myInt], encoding.IntScanner[myInt, **myInt])
			}
			if r.Intn(2) == 0 {
				return both(p, encoding.IntScanner[int, *int], encoding.IntScanner[int, **int])
			}
			return both(p, encoding.Int64Scanner[int64, *int64], encoding.Int64Scanner[int64, **int64])
		}
	case "uint":
		switch d.W {
		case 8:
			return both(p, encoding.Uint8Scanner[uint8, *uint8], encoding.Uint8Scanner[uint8, **uint8])
		case 16:
			if n {
				return both(p, encoding.Uint16Scanner[myUint16, *myUint16], encoding.Uint16Scanner[myUint16, **myUint16])
			}
			return both(p, encoding.Uint16Scanner[uint16, *uint16], encoding.Uint16Scanner[uint16, **uint16])
		case 32:
			return both(p, encoding.Uint32Scanner[uint32, *uint32], encoding.Uint32Scanner[uint32, **uint32])
		default:
			if n {
				return both(p, encoding.UintScanner[uint, *uint], encoding.UintScanner[uint, **uint])
			}
			return both(p, encoding.Uint64Scanner[uint64, *uint64], encoding.Uint64Scanner[uint64, **uint64])
		}
	case "float":
		if d.W == 32 {
			if n {
				return both(p, func(a *myF32) sql.Scanner { return encoding.Float32Scanner[myF32](a, st...) }, func(a **myF32) sql.Scanner { return encoding.Float32Scanner[myF32](a, st...) })
			}
			return both(p, func(a *float32) sql.Scanner { return encoding.Float32Scanner[float32](a, st...) }, func(a **float32) sql.Scanner { return encoding.Float32Scanner[float32](a, st...) })
		}
		return both(p, func(a *float64) sql.Scanner { return encoding.Float64Scanner[float64](a, st...) }, func(a **float64) sql.Scanner { return encoding.Float64Scanner[float64](a, st...) })
	case "bool":
		if n {
			return both(p, func(a *myBool) sql.Scanner { return encoding.BoolScanner[myBool](a, st...) }, func(a **myBool) sql.Scanner { return encoding.BoolScanner[myBool](a, st...) })
		}
		return both(p, func(a *bool) sql.Scanner { return encoding.BoolScanner[bool](a, st...) }, func(a **bool) sql.Scanner { return encoding.BoolScanner[bool](a, st...) })
	case "string":
		if n {
			return both(p, func(a *myStr) sql.Scanner { return encoding.StringScanner[myStr](a, st...) }, func(a **myStr) sql.Scanner { return encoding.StringScanner[myStr](a, st...) })
		}
		return both(p, func(a *string) sql.Scanner { return encoding.StringScanner[string](a, st...) }, func(a **string) sql.Scanner { return encoding.StringScanner[string](a, st...) })
	case "bytes":
		if n {
			return both(p, func(a *myBytes) sql.Scanner { return encoding.StringScanner[myBytes](a, st...) }, func(a **myBytes) sql.Scanner { return encoding.StringScanner[myBytes](a, st...) })
		}
		return both(p, func(a *[]byte) sql.Scanner { return encoding.StringScanner[[]byte](a, st...) }, func(a **[]byte) sql.Scanner { return encoding.StringScanner[[]byte](a, st...) })
	case "time":
		return both(p, encoding.TimeScanner[*time.Time], encoding.TimeScanner[**time.Time])
	case "barr":
		if d.W == 3 {
			v := new([3]byte)
			return box{v, encoding.ByteArrayScanner((*v)[:], 3), "[3]byte"}
		}
		v := new([10]byte)
		return box{v, encoding.ByteArrayScanner((*v)[:], 10), "[10]byte"}
	case "rarr":
		if d.W == 3 {
			v := new([3]rune)
			return box{v, encoding.RuneArrayScanner((*v)[:], 3), "[3]rune"}
		}
		v := new([10]rune)
		return box{v, encoding.RuneArrayScanner((*v)[:], 10), "[10]rune"}
	case "text":
		return both(p, encoding.TextScanner[pair, *pair, *pair], encoding.TextScanner[pair, *pair, **pair])
	case "scanner":
		v := new(*scanPair)
		return box{v, encoding.PtrScanner(v), "**scanPair"}
	case "json":
		if p {
			v := new(*obj)
			return box{v, encoding.JSONScanner(v), "**obj"}
		}
		v := new(obj)
		return box{v, encoding.JSONScanner(v), "*obj"}
	case "binary":
		v := new(bin)
		return box{v, stypes.BinaryUnmarshaler(v), "*bin"}
	}
	panic(d.C)
}

func both[T any](p bool, a func(*T) sql.Scanner, b func(**T) sql.Scanner) box {
	if p {
		v := new(*T)
		return box{v, b(v), fmt.Sprintf("%T", v)}
	}
	v := new(T)
	return box{v, a(v), fmt.Sprintf("%T", v)}
}

// fill puts earlier contents into the destination
func (b box) fill(r *rand.Rand) {
	v := reflect.ValueOf(b.ptr).Elem()
	if v.Kind() == reflect.Pointer {
		if r.Intn(3) == 0 {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		v = v.Elem()
	}
	switch x := v.Addr().Interface().(type) {
	case *time.Time:
		*x = time.Unix(99, 9)
		return
	case *pair:
		*x = pair{"old", "old"}
		return
	case *scanPair:
		*x = scanPair{pair{"old", "old"}}
		return
	case *obj:
		*x = obj{A: new(int), B: map[string]int{"old": 1}, C: []string{"old", "old2", "old3"}}
		return
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(-77)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(77)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(7.75)
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.String:
		v.SetString("old contents")
	case reflect.Slice:
		v.SetBytes([]byte("old contents"))
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			if e.CanInt() {
				e.SetInt(88)
			} else {
				e.SetUint(88)
			}
		}
	}
}

// deep copy as a comparable text
func (b box) text() string { return show(reflect.ValueOf(b.ptr).Elem()) }

func show(v reflect.Value) string {
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return "nil"
		}
		return "&" + show(v.Elem())
	}
	switch x := v.Interface().(type) {
	case time.Time:
		return x.Format(time.RFC3339Nano)
	case obj:
		a := "nil"
		if x.A != nil {
			a = strconv.Itoa(*x.A)
		}
		return fmt.Sprintf("{%s %v %q}", a, x.B, x.C)
	case float64:
		return strconv.FormatUint(math.Float64bits(x), 16)
	}
	if v.Kind() == reflect.Slice {
		return fmt.Sprintf("%q", v.Bytes())
	}
	return fmt.Sprintf("%#v", v.Interface())
}

func zero(v reflect.Value) bool {
	if v.Kind() == reflect.Slice {
		return v.Len() == 0
	}
	if o, ok := v.Interface().(obj); ok {
		return o.A == nil && len(o.B) == 0 && len(o.C) == 0
	}
	return v.IsZero()
}

// ---- concrete numbers

var gaps = map[string][2]string{"g0": {"-2^120", "-2^63-2"}, "g1": {"-2^63+1", "-2^31-2"}, "g2": {"-2^31+1", "-2^15-2"}, "g3": {"-2^15+1", "-130"},
	"g4": {"-127", "-2"}, "g5": {"2", "126"}, "g6": {"129", "254"}, "g7": {"257", "2^15-2"}, "g8": {"2^15+1", "2^16-2"}, "g9": {"2^16+1", "2^31-2"},
	"gA": {"2^31+1", "2^32-2"}, "gB": {"2^32+1", "2^63-2"}, "gC": {"2^63+1", "2^64-2"}, "gD": {"2^64+1", "2^120"}}

func eval(s string) *big.Int {
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	n := new(big.Int)
	if strings.HasPrefix(s, "2^") {
		s = s[2:]
		i := strings.IndexAny(s, "+-")
		add := "0"
		if i > 0 {
			s, add = s[:i], s[i:]
		}
		e, _ := strconv.Atoi(s)
		n.Lsh(big.NewInt(1), uint(e))
		if neg {
			n.Neg(n)
		}
		k, _ := strconv.ParseInt(add, 10, 64)
		return n.Add(n, big.NewInt(k))
	}
	if _, ok := n.SetString(s, 10); !ok {
		panic(s)
	}
	if neg {
		n.Neg(n)
	}
	return n
}

func integer(p string, r *rand.Rand) *big.Int {
	if g, ok := gaps[p]; ok {
		lo, hi := eval(g[0]), eval(g[1])
		d := new(big.Int).Sub(hi, lo)
		d.Add(d, big.NewInt(1))
		x := new(big.Int).Rand(r, d)
		if r.Intn(3) == 0 { // close to the end
			x.SetInt64(0)
			if r.Intn(2) == 0 {
				x.Sub(d, big.NewInt(1))
			}
		}
		return x.Add(x, lo)
	}
	return eval(p)
}

// a number as text, and exactly
func float(p string, r *rand.Rand) (string, *big.Float) {
	neg := strings.HasPrefix(p, "-")
	s := ""
	switch strings.TrimPrefix(p, "-") {
	case "frac":
		s = []string{"1.5", "0.5", "123456.0625", "1e-3", "300.25"}[r.Intn(5)]
	case "tenth":
		s = "0.1"
	case "tiny32":
		s = "1.401298464324817e-45"
	case "tiny64":
		s = "5e-324"
	case "max32":
		s = strconv.FormatFloat(math.MaxFloat32, 'g', -1, 64)
	case "over32":
		s = []string{"3.41e38", "1e39", "1e300", "340282366920938463463374607431768211456"}[r.Intn(4)]
	case "max64":
		s = "1.7976931348623157e308"
	case "over64":
		s = []string{"1.8e308", "1e309", "1e4000"}[r.Intn(3)]
	case "0":
		s = "0"
		if neg {
			return "-0", new(big.Float).Neg(new(big.Float))
		}
	case "inf":
		if neg {
			return "-inf", nil
		}
		return "inf", nil
	case "nan":
		return "NaN", nil
	case "float1":
		s = "1"
	case "float0":
		s = "0"
	case "float300":
		s = "300"
	case "gap":
		s = strconv.FormatFloat(float64(math.Float32frombits(r.Uint32()&0x3fffffff|0x20000000))+r.Float64()*1e-9+math.Pi*1e-12, 'g', -1, 64)
	}
	if neg {
		s = "-" + s
	}
	f, _, err := big.ParseFloat(s, 10, 2000, big.ToNearestEven)
	if err != nil {
		panic(s + err.Error())
	}
	return s, f
}

// source is a concrete value with what it denotes
type source struct {
	v    any
	num  *big.Float // its number, if it is one
	spec string     // inf, -inf, nan
	text string     // its text, for text kinds
	tm   time.Time
	isTm bool
}

var words = map[string]string{"plus": "+7", "lead0": "0012", "space": " 5", "under": "1_0", "hex": "0x1p3", "trail": "12x", "nul": "1\x00", "comma": "1,000",
	"exp": "1e2", "empty": "", "word": "abc", "dash": "-"}
var wordNum = map[string]string{"plus": "7", "lead0": "12", "space": "5", "under": "10", "hex": "8", "exp": "100"}
var times = map[string]string{"date": "2024-02-29", "datetime": "1999-12-31 23:59:59", "tenth": "2024-05-06 07:08:09.5", "millis": "2024-05-06 07:08:09.123", "micros": "2024-05-06 07:08:09.123456", "nanos": "2024-05-06 07:08:09.123456789",
	"rfc": "2024-05-06T07:08:09.5+05:30", "rfcz": "1969-07-20T20:17:40Z", "badday": "2023-02-30", "badhour": "2024-05-06 27:08:09", "zerodate": "0000-00-00 00:00:00",
	"short": "2024-05", "trailing": "2024-05-06x", "offset": "2024-05-06 07:08:09+05:30", "offfrac": "2024-05-06 07:08:09.25-03:00",
	"utc": "1969-12-31 23:59:59+00:00", "twodots": "2024-05-06 07:08:09.1.2", "badmin": "2024-05-06 07:60:09.5", "badmonth": "2024-13-06 07:08:09", "dangling": "2024-05-06 07:08:09."}
var texts = map[string]string{"": "", "a": "a", "ab": "ab", "abc": "abc", "abcd": "abcd", "quote": `"'\`, "uni": "é", "uni3": "é漢é", "uni4": "é漢é漢", "badutf": "a\xffb",
	"binary": "\x00\xfe\x01", "long": strings.Repeat("xyzw", 10)}
var objs = map[string]string{"full": `{"A":1,"B":{"x":2},"C":["p","q"]}`, "part": `{"C":["r"]}`, "null": "null", "broken": `{"A":1,"B":{"x":`, "tail": `{"A":1}{"A":2}`, "other": `{"A":5,"C":7}`}
var pairs = map[string]string{"pair": "l|r", "half": "l", "nopair": "l|"}

func concrete(s step, r *rand.Rand) source {
	switch s.K {
	case "nil":
		return source{}
	case "other":
		return source{v: struct{ X int }{1}}
	case "bool":
		return source{v: s.P == "true"}
	case "time":
		t := time.Date(2021, 3, 4, 5, 6, 7, 123456789, time.UTC)
		if s.P == "zone" {
			t = t.In(time.FixedZone("x", -3*3600))
		}
		return source{v: t, tm: t, isTm: true}
	case "int64":
		n := integer(s.P, r)
		return source{v: n.Int64(), num: new(big.Float).SetInt(n), tm: time.Unix(n.Int64(), 0), isTm: true}
	case "float64":
		t, n := float(s.P, r)
		f, err := strconv.ParseFloat(t, 64)
		if err != nil {
			panic(err)
		}
		x := source{v: f, num: n}
		if n == nil {
			x.spec = strings.ToLower(t)
		} else {
			x.num = new(big.Float).SetFloat64(f)
		}
		return x
	}
	var x source
	p := s.P[2:]
	switch s.P[:2] {
	case "i:":
		n := integer(p, r)
		x.text, x.num = n.String(), new(big.Float).SetPrec(2000).SetInt(n)
	case "f:":
		x.text, x.num = float(p, r)
		if x.num == nil {
			x.spec = strings.ToLower(x.text)
		}
	case "w:":
		x.text = words[p]
		if w, ok := wordNum[p]; ok {
			x.num, _, _ = big.ParseFloat(w, 10, 200, big.ToNearestEven)
		}
	case "b:":
		x.text = p
	case "t:":
		x.text = times[p]
		for _, l := range []string{"2006-01-02", "2006-01-02 15:04:05", "2006-01-02 15:04:05.999999999", "2006-01-02 15:04:05.999999999-07:00", time.RFC3339Nano} {
			if t, err := time.Parse(l, x.text); err == nil {
				x.tm, x.isTm = t, true
			}
		}
	case "s:":
		x.text = texts[p]
	case "o:":
		x.text = objs[p]
	case "p:":
		x.text = pairs[p]
	}
	if s.K == "bytes" {
		x.v = append(make([]byte, 0, len(x.text)+3), x.text...)
	} else {
		x.v = strings.Clone(x.text)
	}
	return x
}

// stored tells whether the destination holds the value of the source.
func stored(d dest, b box, s step, x source) bool {
	v := reflect.ValueOf(b.ptr).Elem()
	isPtr := v.Kind() == reflect.Pointer
	if s.K == "nil" || d.C == "json" && s.P == "o:null" {
		if isPtr {
			return v.IsNil()
		}
		return zero(v)
	}
	if isPtr {
		if v.IsNil() {
			return false
		}
		v = v.Elem()
	}
	switch d.C {
	case "int":
		return x.num != nil && x.num.Cmp(new(big.Float).SetInt64(v.Int())) == 0
	case "uint":
		return x.num != nil && x.num.Cmp(new(big.Float).SetUint64(v.Uint())) == 0
	case "float":
		f := v.Float()
		switch x.spec {
		case "inf":
			return math.IsInf(f, 1)
		case "-inf":
			return math.IsInf(f, -1)
		case "nan":
			return f != f
		}
		if x.num == nil {
			return false
		}
		var want float64
		if d.W == 32 {
			w, _ := x.num.Float32()
			want = float64(w)
		} else {
			want, _ = x.num.Float64()
		}
		return f == want && (want != 0 || math.Signbit(f) == math.Signbit(want))
	case "bool":
		want := false
		switch y := x.v.(type) {
		case bool:
			want = y
		case int64:
			want = y != 0
		default:
			switch strings.ToLower(x.text) {
			case "1", "true", "t":
				want = true
			case "0", "false", "f":
			default:
				return false
			}
		}
		return v.Bool() == want
	case "string", "bytes":
		got := ""
		if d.C == "string" {
			got = v.String()
		} else {
			got = string(v.Bytes())
		}
		switch y := x.v.(type) {
		case bool:
			g, err := strconv.ParseBool(got)
			return err == nil && g == y
		case int64:
			return got == strconv.FormatInt(y, 10)
		case float64:
			g, err := strconv.ParseFloat(got, 64)
			return err == nil && (g == y || g != g && y != y)
		}
		return got == x.text
	case "time":
		return x.isTm && v.Interface().(time.Time).Equal(x.tm)
	case "barr":
		t := []byte(x.text)
		for i := 0; i < v.Len(); i++ {
			w := uint64(0)
			if i < len(t) {
				w = uint64(t[i])
			}
			if v.Index(i).Uint() != w {
				return false
			}
		}
		return len(t) <= v.Len()
	case "rarr":
		t := []rune(x.text)
		for i := 0; i < v.Len(); i++ {
			w := int64(0)
			if i < len(t) {
				w = int64(t[i])
			}
			if v.Index(i).Int() != w {
				return false
			}
		}
		return len(t) <= v.Len()
	case "text":
		return v.Interface().(pair) == pair{"l", "r"}
	case "scanner":
		return v.Interface().(scanPair) == scanPair{pair{"l", "r"}}
	case "json":
		o := v.Interface().(obj)
		switch s.P[2:] {
		case "full":
			return o.A != nil && *o.A == 1 && reflect.DeepEqual(o.B, map[string]int{"x": 2}) && reflect.DeepEqual(o.C, []string{"p", "q"})
		case "part":
			return o.A == nil && len(o.B) == 0 && reflect.DeepEqual(o.C, []string{"r"})
		}
	case "binary":
		return string(v.Interface().(bin)) == x.text
	}
	return false
}

func main() {
	var rep kit.Report
	ps := kit.Lines[path](os.Args[1])
	const chunk = 2000
	kit.Parallel((len(ps)+chunk-1)/chunk, func(c int) {
		r := kit.Rng("scan" + strconv.Itoa(c))
		n := map[string]int{}
		for i := c * chunk; i < len(ps) && i < (c+1)*chunk; i++ {
			p := ps[i]
			b := open(p.D, p.F, r)
			b.fill(r)
			for _, s := range p.H {
				before := b.text()
				x := concrete(s, r)
				err, panicked := kit.Safely(func() error { return b.scan.Scan(x.v) })
				after := b.text()
				ok := err == nil && stored(p.D, b, s, x)
				bad := ""
				v := reflect.ValueOf(b.ptr).Elem()
				cleared := v.Kind() == reflect.Pointer && v.IsNil() || zero(v)
				switch {
				case panicked:
					bad = "scanning panics"
				case s.O == "must" && err != nil:
					bad = "a value that fits is refused"
				case (s.O == "must" || s.O == "may") && err == nil && !ok:
					bad = "another value is stored"
				case s.O == "err" && err == nil:
					bad = "a value that does not fit is stored"
				case err != nil && before != after && !cleared && p.D.C != "binary":
					bad = "a refused value is stored in part"
				}
				if y, isB := x.v.([]byte); isB && bad == "" {
					// the driver uses its memory again
					y = y[:cap(y)]
					for k := range y {
						y[k] = '#'
					}
					if after != b.text() {
						bad = "the stored value shares the memory of the driver"
					}
				}
				if bad != "" {
					rep.Add(kit.Violation{Sig: bad, Where: fmt.Sprintf("%s %s strict=%v", p.D.C, b.name, p.D.S), What: bad, Case: p.H,
						Detail: fmt.Sprintf("source %T(%v) %q, expected %s: before %s, after %s, error %v", x.v, x.v, x.text, s.O, before, after, err)})
					break
				}
				n[p.D.C]++
			}
			if i%40000 == 7 {
				rep.Sample(map[string]any{"dest": p.D, "form": p.F, "scans": p.H})
			}
		}
		rep.Run(min(chunk, len(ps)-c*chunk))
		for k, x := range n {
			rep.Count(k, x)
		}
	})
	rep.Distinct = len(ps)
	rep.Print()
}
