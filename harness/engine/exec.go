package engine

import (
	"bytes"
	"database/sql/driver"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Col describes a column.
type Col struct {
	Name    string
	Kind    string // int text float bool time bytes any
	NotNull bool
	Single  bool // numbers of 32 bits
	Stamp   bool // times are handed back as text
	Auto    bool
	Default driver.Value
	Max     int64 // for an integer column: largest value (0: no limit)
	Check   func(driver.Value) error
}

// Table is a stored table.
type Table struct {
	Name   string
	Cols   []Col
	PK     []int
	Unique [][]int
	Rows   [][]driver.Value
	NextID int64
}

func (t *Table) idx(d Dialect, name string) int {
	for i, c := range t.Cols {
		if c.Name == name || (d == MySQL && strings.EqualFold(c.Name, name)) {
			return i
		}
	}
	return -1
}

func cloneRow(r []driver.Value) []driver.Value { return append([]driver.Value(nil), r...) }

type env struct {
	d     Dialect
	db    *DB
	t     *Table
	row   []driver.Value
	excl  []driver.Value
	group [][]driver.Value
	args  []driver.Value
}

var errUnknown = errors.New("unknown")

func norm(v driver.Value) driver.Value {
	switch x := v.(type) {
	case []byte:
		return string(x)
	}
	return v
}

func kindOf(v driver.Value) string {
	switch v.(type) {
	case nil:
		return "null"
	case int64, uint64:
		return "int"
	case float64:
		return "float"
	case bool:
		return "bool"
	case string, []byte:
		return "text"
	case time.Time:
		return "time"
	}
	return fmt.Sprintf("%T", v)
}

func num(v driver.Value) (float64, bool) {
	switch x := v.(type) {
	case int64:
		return float64(x), true
	case float64:
		return x, true
	case bool:
		if x {
			return 1, true
		}
		return 0, true
	}
	return 0, false
}

// compare compares two non-null values.
func (e *env) compare(a, b driver.Value) (int, error) {
	a, b = norm(a), norm(b)
	if x, ok := a.(int64); ok {
		if y, ok := b.(int64); ok {
			switch {
			case x < y:
				return -1, nil
			case x > y:
				return 1, nil
			}
			return 0, nil
		}
	}
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return strings.Compare(x, y), nil
		}
	}
	if x, ok := a.(time.Time); ok {
		if y, ok := b.(time.Time); ok {
			return x.Compare(y), nil
		}
	}
	ka, kb := kindOf(a), kindOf(b)
	okKinds := (ka == "int" || ka == "float" || ka == "bool") && (kb == "int" || kb == "float" || kb == "bool")
	if okKinds && e.d == Postgres && (ka == "bool") != (kb == "bool") {
		okKinds = false
	}
	if okKinds {
		x, _ := num(a)
		y, _ := num(b)
		switch {
		case x < y:
			return -1, nil
		case x > y:
			return 1, nil
		}
		return 0, nil
	}
	return 0, fmt.Errorf("engine: operator does not exist: %s <> %s (comparing %v with %v)", ka, kb, a, b)
}

// eval evaluates to a value; nil is NULL.
func (e *env) eval(x expr) (driver.Value, error) {
	switch v := x.(type) {
	case eLit:
		if v.isStr {
			return v.v.(string), nil
		}
		if v.v == nil {
			return nil, nil
		}
		return v.v, nil
	case eParam:
		if v.n > len(e.args) {
			return nil, fmt.Errorf("engine: there is no parameter $%d", v.n)
		}
		return e.args[v.n-1], nil
	case eCol:
		row := e.row
		if v.table == "excluded" {
			row = e.excl
		} else if v.table != "" && v.table != e.t.Name && !strings.HasSuffix(e.t.Name, "."+v.table) {
			return nil, fmt.Errorf("engine: unknown table %q", v.table)
		}
		i := e.t.idx(e.d, v.name)
		if i < 0 {
			return nil, fmt.Errorf("engine: unknown column %q of table %q", v.name, e.t.Name)
		}
		if row == nil {
			return nil, fmt.Errorf("engine: column %q not allowed here", v.name)
		}
		return row[i], nil
	case eFunc:
		return e.fn(v)
	case eSub:
		in, err := e.inner(v.st)
		if err != nil {
			return nil, err
		}
		if len(v.st.Sel) != 1 {
			return nil, fmt.Errorf("engine: operand should contain 1 column")
		}
		idx, err := in.matchRows(v.st)
		if err != nil {
			return nil, err
		}
		if f, ok := v.st.Sel[0].(eFunc); ok && (f.name == "count" || f.name == "min" || f.name == "max" || f.name == "sum") {
			in.group = [][]driver.Value{}
			for _, i := range idx {
				in.group = append(in.group, in.t.Rows[i])
			}
			return in.eval(f)
		}
		if err := in.sortRows(idx, v.st.Order); err != nil {
			return nil, err
		}
		idx = window(idx, v.st.Limit, v.st.Offset)
		if len(idx) > 1 {
			return nil, fmt.Errorf("engine: subquery returns more than 1 row")
		}
		if len(idx) == 0 {
			return nil, nil
		}
		in.row = in.t.Rows[idx[0]]
		return in.eval(v.st.Sel[0])
	case eTuple:
		return nil, fmt.Errorf("engine: operand should contain 1 column")
	case eCmp, eAnd, eOr, eNot, eIn, eLike, eBetween, eIsNull:
		b, err := e.cond(x)
		if errors.Is(err, errUnknown) {
			return nil, nil
		}
		return b, err
	}
	return nil, fmt.Errorf("engine: bad expression %T", x)
}

func (e *env) fn(f eFunc) (driver.Value, error) {
	switch f.name {
	case "count", "min", "max", "sum":
		rows := e.group
		if rows == nil {
			return nil, fmt.Errorf("engine: aggregate %s without group", f.name)
		}
		var acc driver.Value
		n := int64(0)
		for _, r := range rows {
			if _, ok := f.args[0].(eStar); ok {
				n++
				continue
			}
			v, err := (&env{d: e.d, db: e.db, t: e.t, row: r, args: e.args}).eval(f.args[0])
			if err != nil {
				return nil, err
			}
			if v == nil {
				continue
			}
			n++
			if f.name == "count" {
				continue
			}
			if acc == nil {
				acc = v
				continue
			}
			switch f.name {
			case "sum":
				a, _ := acc.(int64)
				b, _ := v.(int64)
				acc = a + b
			default:
				c, err := e.compare(v, acc)
				if err != nil {
					return nil, err
				}
				if (f.name == "min") == (c < 0) && c != 0 {
					acc = v
				}
			}
		}
		if f.name == "count" {
			return n, nil
		}
		return acc, nil
	}
	fn, ok := e.db.Funcs[f.name]
	if !ok {
		return nil, fmt.Errorf("engine: function %s does not exist", f.name)
	}
	var args []driver.Value
	for _, a := range f.args {
		v, err := e.eval(a)
		if err != nil {
			return nil, err
		}
		args = append(args, v)
	}
	return fn(args)
}

func (e *env) tuple(x expr) ([]driver.Value, bool, error) {
	if t, ok := x.(eTuple); ok {
		var out []driver.Value
		for _, y := range t.xs {
			v, err := e.eval(y)
			if err != nil {
				return nil, true, err
			}
			out = append(out, v)
		}
		return out, true, nil
	}
	v, err := e.eval(x)
	return []driver.Value{v}, false, err
}

func cmpRes(op string, c int) bool {
	switch op {
	case "=":
		return c == 0
	case "<>", "!=":
		return c != 0
	case "<":
		return c < 0
	case "<=":
		return c <= 0
	case ">":
		return c > 0
	case ">=":
		return c >= 0
	}
	return false
}

func (e *env) rowCmp(op string, l, r []driver.Value) (bool, error) {
	if len(l) != len(r) {
		return false, fmt.Errorf("engine: row values of different length %d and %d", len(l), len(r))
	}
	if op == "=" || op == "<>" || op == "!=" {
		unknown := false
		for i := range l {
			if l[i] == nil || r[i] == nil {
				unknown = true
				continue
			}
			c, err := e.compare(l[i], r[i])
			if err != nil {
				return false, err
			}
			if c != 0 {
				return op != "=", nil
			}
		}
		if unknown {
			return false, errUnknown
		}
		return op == "=", nil
	}
	for i := range l {
		if l[i] == nil || r[i] == nil {
			return false, errUnknown
		}
		c, err := e.compare(l[i], r[i])
		if err != nil {
			return false, err
		}
		if c != 0 {
			return cmpRes(op, c), nil
		}
	}
	return cmpRes(op, 0), nil
}

// cond evaluates a condition; errUnknown stands for UNKNOWN.
func (e *env) cond(x expr) (bool, error) {
	switch v := x.(type) {
	case eAnd:
		a, ea := e.cond(v.l)
		if ea != nil && ea != errUnknown {
			return false, ea
		}
		b, eb := e.cond(v.r)
		if eb != nil && eb != errUnknown {
			return false, eb
		}
		if (ea == nil && !a) || (eb == nil && !b) {
			return false, nil
		}
		if ea != nil || eb != nil {
			return false, errUnknown
		}
		return true, nil
	case eOr:
		a, ea := e.cond(v.l)
		if ea != nil && ea != errUnknown {
			return false, ea
		}
		b, eb := e.cond(v.r)
		if eb != nil && eb != errUnknown {
			return false, eb
		}
		if (ea == nil && a) || (eb == nil && b) {
			return true, nil
		}
		if ea != nil || eb != nil {
			return false, errUnknown
		}
		return false, nil
	case eNot:
		a, err := e.cond(v.x)
		return !a, err
	case eCmp:
		l, lt, err := e.tuple(v.l)
		if err != nil {
			return false, err
		}
		r, rt, err := e.tuple(v.r)
		if err != nil {
			return false, err
		}
		if lt != rt {
			return false, fmt.Errorf("engine: comparing a row value with a scalar")
		}
		return e.rowCmp(v.op, l, r)
	case eIn:
		l, _, err := e.tuple(v.x)
		if err != nil {
			return false, err
		}
		unknown := false
		for _, s := range v.set {
			r, _, err := e.tuple(s)
			if err != nil {
				return false, err
			}
			ok, err := e.rowCmp("=", l, r)
			if err == errUnknown {
				unknown = true
				continue
			}
			if err != nil {
				return false, err
			}
			if ok {
				return !v.neg, nil
			}
		}
		if unknown {
			return false, errUnknown
		}
		return v.neg, nil
	case eLike:
		a, err := e.eval(v.x)
		if err != nil {
			return false, err
		}
		b, err := e.eval(v.p)
		if err != nil {
			return false, err
		}
		if a == nil || b == nil {
			return false, errUnknown
		}
		s, ok1 := norm(a).(string)
		p, ok2 := norm(b).(string)
		if !ok1 || !ok2 {
			if e.d == Postgres {
				return false, fmt.Errorf("engine: operator does not exist: %s ~~ %s", kindOf(a), kindOf(b))
			}
			s, p = fmt.Sprint(norm(a)), fmt.Sprint(norm(b))
		}
		return like(s, p) != v.neg, nil
	case eBetween:
		lo, err := e.cond(eCmp{">=", v.x, v.lo})
		if err != nil && err != errUnknown {
			return false, err
		}
		hi, err2 := e.cond(eCmp{"<=", v.x, v.hi})
		if err2 != nil && err2 != errUnknown {
			return false, err2
		}
		if (err == nil && !lo) || (err2 == nil && !hi) {
			return v.neg, nil
		}
		if err != nil || err2 != nil {
			return false, errUnknown
		}
		return !v.neg, nil
	case eIsNull:
		a, err := e.eval(v.x)
		if err != nil {
			return false, err
		}
		return (a == nil) != v.neg, nil
	default:
		a, err := e.eval(x)
		if err != nil {
			return false, err
		}
		if a == nil {
			return false, errUnknown
		}
		if b, ok := a.(bool); ok {
			return b, nil
		}
		if e.d == MySQL {
			if f, ok := num(a); ok {
				return f != 0, nil
			}
		}
		return false, fmt.Errorf("engine: argument of condition must be boolean, not %s", kindOf(a))
	}
}

func like(s, p string) bool {
	rs, rp := []rune(s), []rune(p)
	var m func(i, j int) bool
	m = func(i, j int) bool {
		if j == len(rp) {
			return i == len(rs)
		}
		switch rp[j] {
		case '%':
			for k := i; k <= len(rs); k++ {
				if m(k, j+1) {
					return true
				}
			}
			return false
		case '_':
			return i < len(rs) && m(i+1, j+1)
		case '\\':
			if j+1 < len(rp) {
				return i < len(rs) && rs[i] == rp[j+1] && m(i+1, j+2)
			}
		}
		return i < len(rs) && rs[i] == rp[j] && m(i+1, j+1)
	}
	return m(0, 0)
}

// coerce checks a value against the column.
func (e *env) coerce(c *Col, v driver.Value) (driver.Value, error) {
	if v == nil {
		if c.NotNull {
			return nil, fmt.Errorf("engine: null value in column %q violates not-null constraint", c.Name)
		}
		return nil, nil
	}
	if c.Check != nil {
		if err := c.Check(v); err != nil {
			return nil, fmt.Errorf("engine: column %q: %w", c.Name, err)
		}
	}
	k := kindOf(v)
	bad := func() (driver.Value, error) {
		return nil, fmt.Errorf("engine: column %q is of type %s but the value %v is of type %s", c.Name, c.Kind, v, k)
	}
	switch c.Kind {
	case "", "any":
	case "int":
		if k == "bool" && e.d == MySQL {
			if v.(bool) {
				v = int64(1)
			} else {
				v = int64(0)
			}
			k = "int"
		}
		if k != "int" {
			return bad()
		}
		if n, ok := v.(int64); ok && c.Max > 0 && (n > c.Max || n < -c.Max-1) {
			return nil, fmt.Errorf("engine: out of range value for column %q", c.Name)
		}
	case "float":
		if k == "int" {
			v = float64(v.(int64))
		} else if k != "float" {
			return bad()
		}
	case "text":
		if k != "text" {
			return bad()
		}
	case "bytes":
		if k != "text" {
			return bad()
		}
		if s, ok := v.(string); ok {
			v = []byte(s)
		}
	case "bool":
		if k == "int" && e.d == MySQL {
			break
		}
		if k != "bool" {
			return bad()
		}
		if e.d == MySQL {
			if v.(bool) {
				v = int64(1)
			} else {
				v = int64(0)
			}
		}
	case "time":
		if k != "time" {
			return bad()
		}
	default:
		return nil, fmt.Errorf("engine: bad column kind %q", c.Kind)
	}
	if b, ok := v.([]byte); ok {
		v = bytes.Clone(b)
	}
	return v, nil
}

func eqVal(e *env, a, b driver.Value) bool {
	if a == nil || b == nil {
		return false
	}
	c, err := e.compare(a, b)
	return err == nil && c == 0
}

// conflict finds a stored row that conflicts on one of the given unique sets, other than row skip.
func (e *env) conflict(row []driver.Value, sets [][]int, skip int) int {
	for _, set := range sets {
	next:
		for i, r := range e.t.Rows {
			if i == skip {
				continue
			}
			for _, c := range set {
				if !eqVal(e, r[c], row[c]) {
					continue next
				}
			}
			return i
		}
	}
	return -1
}

func (t *Table) uniqueSets() [][]int {
	var out [][]int
	if len(t.PK) > 0 {
		out = append(out, t.PK)
	}
	return append(out, t.Unique...)
}

func sameSet(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	x, y := append([]int(nil), a...), append([]int(nil), b...)
	sort.Ints(x)
	sort.Ints(y)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// Result of a statement.
type result struct {
	cols     []string
	rows     [][]driver.Value
	affected int64
	lastID   int64
	keys     []string // keys of the rows read or written
}

func (t *Table) key(row []driver.Value) string {
	var b strings.Builder
	b.WriteString(t.Name)
	for _, i := range t.PK {
		b.WriteByte('|')
		b.WriteString(fmt.Sprint(norm(row[i])))
	}
	return b.String()
}

func exprName(x expr) string {
	switch v := x.(type) {
	case eCol:
		return v.name
	case eFunc:
		return v.name
	case eParam:
		return "?"
	}
	return "?column?"
}

func (e *env) project(sel []expr, row []driver.Value, group [][]driver.Value) ([]driver.Value, error) {
	var out []driver.Value
	ee := *e
	ee.row, ee.group = row, group
	for _, x := range sel {
		if _, ok := x.(eStar); ok {
			for i := range row {
				out = append(out, e.db.render(&e.t.Cols[i], row[i]))
			}
			continue
		}
		v, err := ee.eval(x)
		if err != nil {
			return nil, err
		}
		var c *Col
		if ec, ok := x.(eCol); ok {
			if i := e.t.idx(e.d, ec.name); i >= 0 {
				c = &e.t.Cols[i]
			}
		}
		out = append(out, e.db.render(c, v))
	}
	return out, nil
}

func (e *env) selNames(sel []expr) []string {
	var out []string
	for _, x := range sel {
		if _, ok := x.(eStar); ok {
			for _, c := range e.t.Cols {
				out = append(out, c.Name)
			}
			continue
		}
		out = append(out, exprName(x))
	}
	return out
}

// render maps a stored value to what the server's driver would hand over.
func (db *DB) render(c *Col, v driver.Value) driver.Value {
	if v == nil {
		return nil
	}
	switch x := v.(type) {
	case []byte:
		v = bytes.Clone(x)
	}
	if x, ok := v.(time.Time); ok && c != nil && c.Stamp {
		v = stamp(x)
	}
	switch db.Mode {
	case "text": // everything as bytes, as in the text protocol
		switch x := v.(type) {
		case int64:
			return []byte(strconv.FormatInt(x, 10))
		case uint64:
			return []byte(strconv.FormatUint(x, 10))
		case float64:
			return []byte(strconv.FormatFloat(x, 'g', -1, 64))
		case bool:
			if db.Dialect == MySQL {
				if x {
					return []byte("1")
				}
				return []byte("0")
			}
			return []byte(strconv.FormatBool(x))
		case string:
			return []byte(x)
		}
	case "string":
		switch x := v.(type) {
		case int64:
			return strconv.FormatInt(x, 10)
		case float64:
			return strconv.FormatFloat(x, 'g', -1, 64)
		case bool:
			if db.Dialect == MySQL {
				if x {
					return "1"
				}
				return "0"
			}
			return strconv.FormatBool(x)
		case []byte:
			return string(x)
		}
	case "native":
		if f, ok := v.(float64); ok && c != nil && c.Single && db.Dialect == MySQL {
			return float32(f)
		}
	case "str": // native numbers, bytes as text
		if b, ok := v.([]byte); ok {
			return string(b)
		}
	case "bytes": // native numbers, text as bytes
		if s, ok := v.(string); ok {
			return []byte(s)
		}
	}
	return v
}

// stamp is the text of a DATETIME column with enough decimals, the number of which differs.
func stamp(t time.Time) string {
	t = t.UTC()
	text := t.Format("2006-01-02 15:04:05.000000")
	n := len(strings.TrimRight(text, "0.")) - len("2006-01-02 15:04:05.")
	if t.Nanosecond() == 0 {
		n = 0
	}
	n += t.YearDay() % (7 - n)
	if n == 0 {
		return t.Format("2006-01-02 15:04:05")
	}
	return text[:len("2006-01-02 15:04:05.")+n]
}

func (e *env) checkCols(x expr) error { return nil }

func (db *DB) run(c *conn, st *Stmt, src string, args []driver.Value) (*result, error) {
	t := db.tables[st.Table]
	if t == nil && db.Dialect == MySQL {
		t = db.tables[strings.ToLower(st.Table)]
	}
	if t == nil {
		return nil, fmt.Errorf("engine: table %q does not exist", st.Table)
	}
	e := &env{d: db.Dialect, db: db, t: t, args: args}
	switch st.Kind {
	case "insert":
		return db.insert(c, e, st, src)
	case "select":
		return db.sel(c, e, st)
	case "update":
		return db.update(c, e, st)
	case "delete":
		return db.del(c, e, st)
	}
	return nil, fmt.Errorf("engine: unsupported statement %q", src)
}

func (e *env) inner(st *Stmt) (*env, error) {
	if st.Kind != "select" || st.Lock != "" {
		return nil, fmt.Errorf("engine: bad subquery")
	}
	t := e.db.tables[st.Table]
	if t == nil {
		return nil, fmt.Errorf("engine: table %q does not exist", st.Table)
	}
	return &env{d: e.d, db: e.db, t: t, args: e.args}, nil
}

func (e *env) matchRows(st *Stmt) ([]int, error) {
	var out []int
	if err := e.staticCheck(st); err != nil {
		return nil, err
	}
	for i, r := range e.t.Rows {
		if st.Where != nil {
			ee := *e
			ee.row = r
			ok, err := ee.cond(st.Where)
			if err == errUnknown {
				continue
			}
			if err != nil {
				return nil, err
			}
			if !ok {
				continue
			}
		}
		out = append(out, i)
	}
	return out, nil
}

// staticCheck resolves names even when the table is empty.
func (e *env) staticCheck(st *Stmt) error {
	var walk func(x expr) error
	walk = func(x expr) error {
		switch v := x.(type) {
		case eCol:
			if v.table != "excluded" && v.table != "" && v.table != e.t.Name && !strings.HasSuffix(e.t.Name, "."+v.table) {
				return fmt.Errorf("engine: unknown table %q", v.table)
			}
			if e.t.idx(e.d, v.name) < 0 {
				return fmt.Errorf("engine: unknown column %q of table %q", v.name, e.t.Name)
			}
		case eTuple:
			for _, y := range v.xs {
				if err := walk(y); err != nil {
					return err
				}
			}
		case eCmp:
			return firstErr(walk(v.l), walk(v.r))
		case eAnd:
			return firstErr(walk(v.l), walk(v.r))
		case eOr:
			return firstErr(walk(v.l), walk(v.r))
		case eNot:
			return walk(v.x)
		case eIn:
			for _, y := range v.set {
				if err := walk(y); err != nil {
					return err
				}
			}
			return walk(v.x)
		case eLike:
			return firstErr(walk(v.x), walk(v.p))
		case eBetween:
			return firstErr(walk(v.x), walk(v.lo), walk(v.hi))
		case eIsNull:
			return walk(v.x)
		case eSub:
			in, err := e.inner(v.st)
			if err != nil {
				return err
			}
			return in.staticCheck(v.st)
		case eFunc:
			switch v.name {
			case "count", "min", "max", "sum":
			default:
				if _, ok := e.db.Funcs[v.name]; !ok {
					return fmt.Errorf("engine: function %s does not exist", v.name)
				}
			}
			for _, y := range v.args {
				if err := walk(y); err != nil {
					return err
				}
			}
		}
		return nil
	}
	for _, x := range st.Sel {
		if err := walk(x); err != nil {
			return err
		}
	}
	if st.Where != nil {
		if err := walk(st.Where); err != nil {
			return err
		}
	}
	for _, o := range st.Order {
		if tup, ok := o.x.(eTuple); ok && e.d != Postgres {
			return fmt.Errorf("engine: operand should contain 1 column, not %d", len(tup.xs))
		}
		if err := walk(o.x); err != nil {
			return err
		}
	}
	for _, x := range st.Group {
		if err := walk(x); err != nil {
			return err
		}
	}
	for _, a := range st.Set {
		if e.t.idx(e.d, a.col) < 0 {
			return fmt.Errorf("engine: unknown column %q of table %q", a.col, e.t.Name)
		}
		if err := walk(a.x); err != nil {
			return err
		}
	}
	return nil
}

func firstErr(errs ...error) error {
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

func (e *env) sortRows(idx []int, order []orderItem) error {
	if len(order) == 0 {
		// an unspecified order: whatever is convenient for the server
		if e.db.Unordered {
			for i, j := 0, len(idx)-1; i < j; i, j = i+1, j-1 {
				idx[i], idx[j] = idx[j], idx[i]
			}
		}
		return nil
	}
	var serr error
	keys := map[int][][]driver.Value{}
	for _, i := range idx {
		ee := *e
		ee.row = e.t.Rows[i]
		var ks [][]driver.Value
		for _, o := range order {
			v, _, err := ee.tuple(o.x)
			if err != nil {
				return err
			}
			ks = append(ks, v)
		}
		keys[i] = ks
	}
	if e.db.Unordered { // make reliance on stability visible
		for i, j := 0, len(idx)-1; i < j; i, j = i+1, j-1 {
			idx[i], idx[j] = idx[j], idx[i]
		}
	}
	sort.SliceStable(idx, func(a, b int) bool {
		ka, kb := keys[idx[a]], keys[idx[b]]
		for k := range order {
			for m := range ka[k] {
				x, y := ka[k][m], kb[k][m]
				if x == nil && y == nil {
					continue
				}
				if x == nil || y == nil {
					// MySQL: NULLs first ascending; PostgreSQL: NULLs last ascending
					less := (x == nil) == (e.d == MySQL)
					if order[k].desc {
						less = !less
					}
					return less
				}
				c, err := e.compare(x, y)
				if err != nil {
					serr = err
					return false
				}
				if c != 0 {
					return (c < 0) != order[k].desc
				}
			}
		}
		return false
	})
	return serr
}

func window(idx []int, limit, offset *int64) []int {
	if offset != nil {
		if *offset >= int64(len(idx)) {
			idx = nil
		} else {
			idx = idx[*offset:]
		}
	}
	if limit != nil && *limit < int64(len(idx)) {
		idx = idx[:*limit]
	}
	return idx
}

func (db *DB) sel(c *conn, e *env, st *Stmt) (*result, error) {
	for {
		idx, err := e.matchRows(st)
		if err != nil {
			return nil, err
		}
		if err := e.sortRows(idx, st.Order); err != nil {
			return nil, err
		}
		res := &result{cols: e.selNames(st.Sel)}
		if len(st.Group) > 0 {
			type grp struct {
				key  string
				rows [][]driver.Value
			}
			var groups []*grp
			byKey := map[string]*grp{}
			for _, i := range idx {
				var kb strings.Builder
				for _, g := range st.Group {
					ee := *e
					ee.row = e.t.Rows[i]
					v, err := ee.eval(g)
					if err != nil {
						return nil, err
					}
					fmt.Fprintf(&kb, "%T:%v|", norm(v), norm(v))
				}
				g := byKey[kb.String()]
				if g == nil {
					g = &grp{key: kb.String()}
					byKey[kb.String()] = g
					groups = append(groups, g)
				}
				g.rows = append(g.rows, e.t.Rows[i])
			}
			gi := make([]int, len(groups))
			for i := range gi {
				gi[i] = i
			}
			for _, k := range window(gi, st.Limit, st.Offset) {
				r, err := e.project(st.Sel, groups[k].rows[0], groups[k].rows)
				if err != nil {
					return nil, err
				}
				res.rows = append(res.rows, r)
			}
			return res, nil
		}
		idx = window(idx, st.Limit, st.Offset)
		if st.Lock != "" {
			var keys []string
			for _, i := range idx {
				keys = append(keys, e.t.key(e.t.Rows[i]))
			}
			waited, err := db.lockRows(c, keys, st.Lock)
			if err != nil {
				return nil, err
			}
			if waited {
				continue // the table may have changed while waiting
			}
		}
		for _, i := range idx {
			r, err := e.project(st.Sel, e.t.Rows[i], nil)
			if err != nil {
				return nil, err
			}
			res.rows = append(res.rows, r)
			res.keys = append(res.keys, e.t.key(e.t.Rows[i]))
		}
		return res, nil
	}
}

func (db *DB) insert(c *conn, e *env, st *Stmt, src string) (*result, error) {
	t := e.t
	pos := make([]int, len(st.Cols))
	seen := map[int]bool{}
	for i, n := range st.Cols {
		pos[i] = t.idx(e.d, n)
		if pos[i] < 0 {
			return nil, fmt.Errorf("engine: unknown column %q of table %q", n, t.Name)
		}
		if seen[pos[i]] {
			return nil, fmt.Errorf("engine: column %q specified twice", n)
		}
		seen[pos[i]] = true
	}
	var sets = t.uniqueSets()
	if e.d == Postgres && st.HasConf && len(st.Conflict) > 0 {
		var want []int
		for _, n := range st.Conflict {
			i := t.idx(e.d, n)
			if i < 0 {
				return nil, fmt.Errorf("engine: unknown column %q of table %q", n, t.Name)
			}
			want = append(want, i)
		}
		found := false
		for _, s := range sets {
			if sameSet(s, want) {
				found = true
			}
		}
		if !found {
			return nil, fmt.Errorf("engine: there is no unique or exclusion constraint matching the ON CONFLICT specification %v", st.Conflict)
		}
		sets = [][]int{want}
	}
	for _, a := range st.OnDup {
		if t.idx(e.d, a.col) < 0 {
			return nil, fmt.Errorf("engine: unknown column %q of table %q", a.col, t.Name)
		}
	}
	if st.HasRet {
		if err := e.staticCheck(&Stmt{Sel: st.Returning}); err != nil {
			return nil, err
		}
	}
	res := &result{}
	if st.HasRet {
		res.cols = e.selNames(st.Returning)
	}
	saved := t.snapshot()
	rollback := func() { t.restore(saved, e.d == Postgres || e.d == MySQL) }
	touched := map[string]bool{}
	for _, rx := range st.Rows {
		if len(rx) != len(st.Cols) {
			rollback()
			return nil, fmt.Errorf("engine: INSERT has %d target columns but %d values in %q", len(st.Cols), len(rx), src)
		}
		row := make([]driver.Value, len(t.Cols))
		given := make([]bool, len(t.Cols))
		for i, x := range rx {
			v, err := e.eval(x)
			if err != nil {
				rollback()
				return nil, err
			}
			row[pos[i]], given[pos[i]] = v, true
		}
		auto := -1
		for i := range t.Cols {
			col := &t.Cols[i]
			if col.Auto {
				n, isInt := row[i].(int64)
				if !given[i] || (e.d == MySQL && (row[i] == nil || (isInt && n == 0))) {
					t.NextID++
					row[i], given[i] = t.NextID, true
					auto = i
				} else if isInt && n > t.NextID && e.d == MySQL {
					t.NextID = n
				}
			}
			if !given[i] {
				row[i] = col.Default
			}
			v, err := e.coerce(col, row[i])
			if err != nil {
				rollback()
				return nil, err
			}
			row[i] = v
		}
		if k := e.conflict(row, sets, -1); k >= 0 && (st.HasConf || st.Ignore) {
			if st.Ignore || st.DoNothing {
				continue
			}
			old := t.Rows[k]
			if e.d == Postgres && touched[t.key(old)] {
				rollback()
				return nil, errors.New("engine: ON CONFLICT DO UPDATE command cannot affect row a second time")
			}
			upd := cloneRow(old)
			ee := *e
			ee.row, ee.excl = old, row
			for _, a := range st.OnDup {
				v, err := ee.eval(a.x)
				if err != nil {
					rollback()
					return nil, err
				}
				ci := t.idx(e.d, a.col)
				if v, err = e.coerce(&t.Cols[ci], v); err != nil {
					rollback()
					return nil, err
				}
				upd[ci] = v
				if e.d == MySQL {
					ee.row = upd
				}
			}
			if e.conflict(upd, t.uniqueSets(), k) >= 0 {
				rollback()
				return nil, fmt.Errorf("engine: duplicate key value violates unique constraint of %q", t.Name)
			}
			t.Rows[k] = upd
			touched[t.key(upd)] = true
			res.affected += 2
			if e.d == Postgres {
				res.affected--
			}
			for i := range t.Cols {
				if t.Cols[i].Auto {
					if n, ok := upd[i].(int64); ok && res.lastID == 0 {
						res.lastID = n
					}
				}
			}
			if st.HasRet {
				r, err := e.project(st.Returning, upd, nil)
				if err != nil {
					rollback()
					return nil, err
				}
				res.rows = append(res.rows, r)
			}
			continue
		}
		if e.conflict(row, t.uniqueSets(), -1) >= 0 {
			rollback()
			return nil, fmt.Errorf("engine: duplicate key value violates unique constraint of %q", t.Name)
		}
		t.Rows = append(t.Rows, row)
		touched[t.key(row)] = true
		res.affected++
		if auto >= 0 && res.lastID == 0 {
			res.lastID = row[auto].(int64)
		}
		if st.HasRet {
			r, err := e.project(st.Returning, row, nil)
			if err != nil {
				rollback()
				return nil, err
			}
			res.rows = append(res.rows, r)
		}
	}
	return res, nil
}

func (t *Table) snapshot() Table {
	cp := *t
	cp.Rows = append([][]driver.Value(nil), t.Rows...)
	return cp
}

func (t *Table) restore(s Table, keepID bool) {
	t.Rows = s.Rows
	if !keepID {
		t.NextID = s.NextID
	}
}

func (db *DB) update(c *conn, e *env, st *Stmt) (*result, error) {
	t := e.t
	for {
		idx, err := e.matchRows(st)
		if err != nil {
			return nil, err
		}
		if err := e.sortRows(idx, st.Order); err != nil {
			return nil, err
		}
		idx = window(idx, st.Limit, nil)
		var keys []string
		for _, i := range idx {
			keys = append(keys, t.key(t.Rows[i]))
		}
		waited, err := db.lockRows(c, keys, "UPDATE")
		if err != nil {
			return nil, err
		}
		if waited {
			continue
		}
		saved := t.snapshot()
		res := &result{}
		seen := map[string]bool{}
		for _, a := range st.Set {
			if seen[a.col] && e.d == Postgres {
				return nil, fmt.Errorf("engine: multiple assignments to same column %q", a.col)
			}
			seen[a.col] = true
		}
		for _, i := range idx {
			upd := cloneRow(t.Rows[i])
			ee := *e
			ee.row = t.Rows[i]
			for _, a := range st.Set {
				v, err := ee.eval(a.x)
				if err != nil {
					t.restore(saved, true)
					return nil, err
				}
				ci := t.idx(e.d, a.col)
				if v, err = e.coerce(&t.Cols[ci], v); err != nil {
					t.restore(saved, true)
					return nil, err
				}
				upd[ci] = v
			}
			if e.conflict(upd, t.uniqueSets(), i) >= 0 {
				t.restore(saved, true)
				return nil, fmt.Errorf("engine: duplicate key value violates unique constraint of %q", t.Name)
			}
			c.undo(t, saved)
			t.Rows[i] = upd
			res.affected++
		}
		return res, nil
	}
}

func (db *DB) del(c *conn, e *env, st *Stmt) (*result, error) {
	t := e.t
	for {
		idx, err := e.matchRows(st)
		if err != nil {
			return nil, err
		}
		if err := e.sortRows(idx, st.Order); err != nil {
			return nil, err
		}
		idx = window(idx, st.Limit, nil)
		var keys []string
		for _, i := range idx {
			keys = append(keys, t.key(t.Rows[i]))
		}
		waited, err := db.lockRows(c, keys, "UPDATE")
		if err != nil {
			return nil, err
		}
		if waited {
			continue
		}
		c.undo(t, t.snapshot())
		gone := map[int]bool{}
		for _, i := range idx {
			gone[i] = true
		}
		var keep [][]driver.Value
		for i, r := range t.Rows {
			if !gone[i] {
				keep = append(keep, r)
			}
		}
		t.Rows = keep
		return &result{affected: int64(len(idx))}, nil
	}
}
