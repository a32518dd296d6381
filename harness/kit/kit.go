// Package kit binds the abstract states of the specifications to real models,
// real generated code and real (or executable reference) databases.
//
// A model field takes part through its struct tag r:"role". The abstract value
// of a role is a small integer token; -1 is NULL. Tokens are made concrete by
// an order-preserving palette of the field's Go type.
package kit

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"
	"unicode"

	"github.com/si3nloong/sqlgen/sequel"
)

// Null is the token of NULL.
const Null = -1

// Env is one flavour: a driver with a generator configuration.
type Env struct {
	Flavour string
	Driver  string
	Models  map[string]*Model
	Names   []string
	Ops     any // operators of the flavour
	// PlainExec
	NewStmt func() sequel.Stmt
	Release func(sequel.Stmt)
}

// Model is one model struct with its operations.
type Model struct {
	Name  string
	Table string
	Kind  string // single comp auto autoplus autouniq view
	RO    bool
	Hand  bool
	Like  string // the model whose accessors fit
	T     reflect.Type
	Cols  []Col // declaration order
	Role  map[string]*Col
	Env   *Env

	New       func() any // *T
	InsertOne func(ctx context.Context, db *sql.DB, m any) error
	Find      func(ctx context.Context, db *sql.DB, m any) error
	Update    func(ctx context.Context, db *sql.DB, m any) (sql.Result, error)
	Delete    func(ctx context.Context, db *sql.DB, m any) (sql.Result, error)
	Lock      func(ctx context.Context, tx *sql.Tx, m any, mode string) error
	// Insert takes a slice of T
	Insert    func(ctx context.Context, db *sql.DB, s any) (sql.Result, error)
	UpsertOne func(ctx context.Context, db *sql.DB, m any, override bool, omit []string) error
	Upsert    func(ctx context.Context, db *sql.DB, s any, override bool, omit []string) (sql.Result, error)
	Query     func(ctx context.Context, db *sql.DB, s SelectStmt) (any, error) // []T
	QueryOne  func(ctx context.Context, db *sql.DB, s SelectStmt) (any, error) // *T
	ExecUpd   func(ctx context.Context, db *sql.DB, s UpdStmt) (sql.Result, error)
	ExecDel   func(ctx context.Context, db *sql.DB, s UpdStmt) (sql.Result, error)
	// Pages iterates; page func gets []T
	Pages func(ctx context.Context, db *sql.DB, s PageStmt, back bool, cursor any, page func(any, error) bool)
}

// SelectStmt mirrors the generated type.
type SelectStmt struct {
	Select    []string
	FromTable string
	Where     sequel.WhereClause
	OrderBy   []sequel.OrderByClause
	GroupBy   []string
	Offset    uint64
	Limit     uint16
}

// UpdStmt mirrors the generated UpdateStmt and DeleteStmt.
type UpdStmt struct {
	Table   string
	Set     []sequel.SetClause
	Where   sequel.WhereClause
	OrderBy []sequel.OrderByClause
	Limit   uint16
}

// PageStmt mirrors the generated PaginateStmt.
type PageStmt struct {
	Where   sequel.WhereClause
	OrderBy []sequel.OrderByClause
	Limit   uint16
}

// Col is a column of a model.
type Col struct {
	Name string // database name, from the declaration
	Go   string // field name
	Role string
	Path []int
	Type reflect.Type
	Auto bool
	PK   bool
	RO   bool
	Uniq bool
	Kind string
	Ptr  bool // the field is a pointer
}

var tableNameType = reflect.TypeOf(sequel.TableName{})

// Snake is the documented default naming for simple names.
func Snake(s string) string {
	var b strings.Builder
	rs := []rune(s)
	for i, r := range rs {
		if unicode.IsUpper(r) {
			if i > 0 && (unicode.IsLower(rs[i-1]) || (i+1 < len(rs) && unicode.IsLower(rs[i+1]))) {
				b.WriteByte('_')
			}
			r = unicode.ToLower(r)
		}
		b.WriteRune(r)
	}
	return b.String()
}

var timeType = reflect.TypeOf(time.Time{})

func kindOf(t reflect.Type) string {
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	if t == timeType {
		return "time"
	}
	switch t.Kind() {
	case reflect.String:
		return "text"
	case reflect.Bool:
		return "bool"
	case reflect.Float32, reflect.Float64:
		return "float"
	case reflect.Slice:
		return "bytes"
	}
	return "int"
}

func walk(t reflect.Type, path []int, m *Model) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		p := append(append([]int(nil), path...), i)
		tag := strings.Split(f.Tag.Get("sql"), ",")
		name := strings.TrimSpace(tag[0])
		if f.Type == tableNameType {
			if name != "" && m.Table == "" {
				m.Table = name
			}
			continue
		}
		if name == "-" {
			continue
		}
		if f.Anonymous {
			ft := f.Type
			if ft.Kind() == reflect.Ptr {
				ft = ft.Elem()
			}
			walk(ft, p, m)
			continue
		}
		if !f.IsExported() {
			continue
		}
		if name == "" {
			name = Snake(f.Name)
		}
		c := Col{Name: name, Go: f.Name, Role: f.Tag.Get("r"), Path: p, Type: f.Type, Kind: kindOf(f.Type), Ptr: f.Type.Kind() == reflect.Ptr}
		for _, o := range tag[1:] {
			switch strings.TrimSpace(o) {
			case "auto_increment":
				c.Auto = true
				c.PK = true
			case "pk", "primary_key":
				c.PK = true
			case "readonly":
				c.RO = true
			case "unique":
				c.Uniq = true
			}
		}
		m.Cols = append(m.Cols, c)
	}
}

// Init fills the derived parts of a model.
func (m *Model) Init(e *Env) {
	m.Env = e
	m.T = reflect.TypeOf(m.New()).Elem()
	if m.Table == "" {
		m.Table = ""
	}
	tbl := m.Table
	walk(m.T, nil, m)
	if tbl != "" {
		m.Table = tbl
	}
	if m.Table == "" {
		m.Table = Snake(m.T.Name())
	}
	m.Role = map[string]*Col{}
	for i := range m.Cols {
		c := &m.Cols[i]
		if c.Role != "" {
			m.Role[c.Role] = c
		}
		if c.RO {
			m.RO = true
		}
	}
	if m.Kind == "" {
		nk, auto := 0, false
		for _, c := range m.Cols {
			if c.Auto {
				auto = true
			} else if c.PK {
				nk++
			}
		}
		switch {
		case auto && nk == 0:
			m.Kind = "auto"
		case auto:
			m.Kind = "autoplus"
		case nk == 1:
			m.Kind = "single"
		case nk > 1:
			m.Kind = "comp"
		}
		for _, c := range m.Cols {
			if c.Uniq && auto {
				m.Kind = "autouniq"
			}
		}
	}
}

// Field returns the field of a column in v (*T), allocating embedded pointers.
func Field(v reflect.Value, path []int) reflect.Value {
	v = v.Elem()
	for i, x := range path {
		if i > 0 && v.Kind() == reflect.Ptr {
			if v.IsNil() {
				v.Set(reflect.New(v.Type().Elem()))
			}
			v = v.Elem()
		}
		v = v.Field(x)
	}
	return v
}

// FieldRO returns the field, ok is false when an embedded pointer is nil.
func FieldRO(v reflect.Value, path []int) (reflect.Value, bool) {
	v = v.Elem()
	for i, x := range path {
		if i > 0 && v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return v, false
			}
			v = v.Elem()
		}
		v = v.Field(x)
	}
	return v, true
}

// Roles in the order of an abstract row.
var Roles = []string{"k1", "k2", "w1", "w2", "r1"}

// Row is an abstract row: tokens in the order of Roles. Roles a model has not
// are ignored.
type Row [5]int

// Conc makes tokens concrete.
type Conc struct {
	Palette int
	T0      time.Time
}

var strPalettes = [][]string{
	{"a", "b", "c", "d", "e", "f"},
	{"", "'' OR 1=1 -- ", "?", "`col`; DROP TABLE x", "z\"$1\"", "zz\\"},
	{"$1", "%", "A_", "\n\t", "日本語?", "ﬀ"},
	{"", "0", "00", "1", "NULL", "true"},
}

func init() {
	for i := range strPalettes {
		sort.Strings(strPalettes[i])
	}
}

// Value is the driver value stored for a token in a column.
func (c Conc) Value(col *Col, tok int) driver.Value {
	if tok == Null {
		return nil
	}
	t := col.Type
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	if col.Auto {
		return int64(tok)
	}
	switch col.Kind {
	case "text":
		return strPalettes[c.Palette%len(strPalettes)][tok]
	case "bytes":
		return []byte(strPalettes[c.Palette%len(strPalettes)][tok])
	case "bool":
		return tok > 0
	case "float":
		return []float64{-2.5, -0.25, 0, 0.5, 1e6, 3e9}[tok]
	case "time":
		d := []time.Duration{1, 3600, 86400}[c.Palette%3]
		return c.T0.Add(time.Duration(tok) * d * time.Second)
	}
	var ints []int64
	switch t.Kind() {
	case reflect.Int8:
		ints = []int64{-128, -1, 0, 1, 100, 127}
	case reflect.Uint8:
		ints = []int64{0, 1, 100, 128, 200, 255}
	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		ints = [][]int64{{0, 1, 2, 3, 4, 5}, {0, 7, 255, 256, 40000, 65535}}[c.Palette%2]
	default:
		ints = [][]int64{{-1, 0, 1, 2, 3, 4}, {-2147483648, -2, 0, 1, 65536, 2147483647}, {0, 10, 20, 100, 101, 1000}}[c.Palette%3]
	}
	return ints[tok]
}

// SetField puts the value of a token in a model field.
func (c Conc) SetField(v reflect.Value, col *Col, tok int) {
	f := Field(v, col.Path)
	SetValue(f, c.Value(col, tok))
}

// SetValue stores a driver value in a Go value of a compatible type.
func SetValue(f reflect.Value, val driver.Value) {
	if val == nil {
		f.Set(reflect.Zero(f.Type()))
		return
	}
	if f.Kind() == reflect.Ptr {
		f.Set(reflect.New(f.Type().Elem()))
		f = f.Elem()
	}
	f.Set(reflect.ValueOf(val).Convert(f.Type()))
}

// GoValue makes a value of the column's Go type.
func (c Conc) GoValue(col *Col, tok int) reflect.Value {
	v := reflect.New(col.Type).Elem()
	SetValue(v, c.Value(col, tok))
	return v
}

// Make builds a *T from an abstract row. An embedded pointer stays nil when
// all its roles are NULL.
func (m *Model) Make(c Conc, r Row) any {
	p := m.New()
	v := reflect.ValueOf(p)
	for i, role := range Roles {
		if col := m.Role[role]; col != nil {
			if r[i] == Null {
				if f, ok := FieldRO(v, col.Path); ok {
					f.Set(reflect.Zero(f.Type()))
				}
				continue
			}
			c.SetField(v, col, r[i])
		}
	}
	return p
}

// MakeSlice builds a []T.
func (m *Model) MakeSlice(c Conc, rows []Row) any {
	s := reflect.MakeSlice(reflect.SliceOf(m.T), 0, len(rows))
	for _, r := range rows {
		s = reflect.Append(s, reflect.ValueOf(m.Make(c, r)).Elem())
	}
	return s.Interface()
}

const badTok = -99

func same(a, b driver.Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if x, ok := a.(time.Time); ok {
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	}
	if x, ok := a.([]byte); ok {
		a = string(x)
	}
	if x, ok := b.([]byte); ok {
		b = string(x)
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		if x, ok := a.(int64); ok {
			switch y := b.(type) {
			case float64:
				return float64(x) == y
			case bool:
				return (x != 0) == y
			}
		}
		if _, ok := b.(int64); ok {
			return same(b, a)
		}
		return false
	}
	return a == b
}

// Tok finds the token of a stored value, badTok when there is none.
func (c Conc) Tok(col *Col, v driver.Value) int {
	if v == nil {
		return Null
	}
	if col.Auto {
		if x, ok := v.(int64); ok {
			return int(x)
		}
		return badTok
	}
	n := 6
	if col.Kind == "bool" {
		n = 2
	}
	for t := 0; t < n; t++ {
		if same(c.Value(col, t), v) {
			return t
		}
	}
	return badTok
}

func toDriver(f reflect.Value) driver.Value {
	if f.Kind() == reflect.Ptr {
		if f.IsNil() {
			return nil
		}
		f = f.Elem()
	}
	if f.Type() == timeType {
		return f.Interface().(time.Time)
	}
	switch f.Kind() {
	case reflect.String:
		return f.String()
	case reflect.Bool:
		return f.Bool()
	case reflect.Float32, reflect.Float64:
		return f.Float()
	case reflect.Slice:
		return f.Bytes()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(f.Uint())
	}
	return f.Int()
}

// Abs is the abstract row of a model value (*T). Missing roles are 0; a role
// behind a nil embedded pointer is NULL.
func (m *Model) Abs(c Conc, p any) Row {
	var r Row
	v := reflect.ValueOf(p)
	for i, role := range Roles {
		if col := m.Role[role]; col != nil {
			f, ok := FieldRO(v, col.Path)
			if !ok {
				r[i] = Null
				continue
			}
			r[i] = c.Tok(col, toDriver(f))
		}
	}
	return r
}

// Norm clears the roles the model has not.
func (m *Model) Norm(r Row) Row {
	for i, role := range Roles {
		if m.Role[role] == nil {
			r[i] = 0
		}
	}
	return r
}

// Show prints a model value for messages.
func Show(v any) string { return fmt.Sprintf("%+v", v) }

// Column calls the generated accessor of a column on the zero model.
func (m *Model) Column(role string) any {
	col := m.Role[role]
	mv := reflect.New(m.T).MethodByName("Column" + col.Go)
	if !mv.IsValid() {
		panic("no accessor Column" + col.Go + " on " + m.Name)
	}
	v := reflect.New(m.T)
	Field(v, col.Path) // allocates the embedded pointers
	return v.MethodByName("Column" + col.Go).Call(nil)[0].Interface()
}

// ColumnName is the name the generated accessor reports.
func (m *Model) ColumnName(role string) string {
	if m.Hand {
		return m.Role[role].Name
	}
	return m.Column(role).(interface{ ColumnName() string }).ColumnName()
}
