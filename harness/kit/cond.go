package kit

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/si3nloong/sqlgen/sequel"
)

// Cond is a condition of the specification Cond.tla.
type Cond struct {
	Op   string `json:"op"`
	Col  string `json:"col"`
	Args []int  `json:"args"`
	Sub  []Cond `json:"sub"`
}

// Ord is one column of an order.
type Ord struct {
	Col string `json:"col"`
	Asc bool   `json:"asc"`
}

// SetTok is one column of a bulk update.
type SetTok struct {
	Col string `json:"col"`
	V   int    `json:"v"`
}

// AnyPat is the pattern that matches every text.
const AnyPat = 99

// Uses tells whether the condition has an operator (like matches nlike too).
func (x Cond) Uses(op string) bool {
	if strings.HasSuffix(x.Op, op) {
		return true
	}
	for _, s := range x.Sub {
		if s.Uses(op) {
			return true
		}
	}
	return false
}

// Fits tells whether the condition makes sense for the columns of a model.
func (x Cond) Fits(m *Model, c Conc) bool {
	for _, s := range x.Sub {
		if !s.Fits(m, c) {
			return false
		}
	}
	if x.Col == "" {
		return true
	}
	col := m.Role[x.Col]
	if col == nil {
		return false
	}
	if strings.HasSuffix(x.Op, "like") {
		// patterns with special characters mean something else
		return col.Kind == "text" && (c.Palette%4 == 0 || c.Palette%4 == 3)
	}
	return true
}

// Build makes the condition with the generated operators. src has the
// accessors.
func (x Cond) Build(src *Model, c Conc) sequel.WhereClause {
	switch x.Op {
	case "none":
		return nil
	case "and", "or":
		var sub []sequel.WhereClause
		for _, s := range x.Sub {
			sub = append(sub, s.Build(src, c))
		}
		if x.Op == "and" {
			return src.Env.Ops.(Ops).And(sub...)
		}
		return src.Env.Ops.(Ops).Or(sub...)
	}
	o, col := src.OpsFor(x.Col), src.Column(x.Col)
	var args []reflect.Value
	for _, t := range x.Args {
		if t == AnyPat {
			v := reflect.New(src.Role[x.Col].Type).Elem()
			SetValue(v, "%")
			args = append(args, v)
			continue
		}
		args = append(args, c.GoValue(src.Role[x.Col], t))
	}
	if f := o.One[x.Op]; f != nil {
		return f(col, args[0])
	}
	if f := o.Two[x.Op]; f != nil {
		return f(col, args[0], args[1])
	}
	if f := o.List[x.Op]; f != nil {
		return f(col, args)
	}
	switch x.Op {
	case "isnull":
		return o.IsNull(col)
	case "notnull":
		return o.NotNull(col)
	}
	panic("unknown operator " + x.Op)
}

// Orders makes order clauses.
func Orders(src *Model, o []Ord) []sequel.OrderByClause {
	var out []sequel.OrderByClause
	for _, x := range o {
		if x.Asc {
			out = append(out, src.OpsFor(x.Col).Asc(src.Column(x.Col)))
		} else {
			out = append(out, src.OpsFor(x.Col).Desc(src.Column(x.Col)))
		}
	}
	return out
}

// Sets makes set clauses.
func Sets(src *Model, c Conc, s []SetTok) []sequel.SetClause {
	var out []sequel.SetClause
	for _, x := range s {
		out = append(out, src.OpsFor(x.Col).Set(src.Column(x.Col), c.GoValue(src.Role[x.Col], x.V)))
	}
	return out
}

// Triples makes abstract rows of <<k1, w1, w2>>.
func Triples(ts [][]int) []Row {
	out := make([]Row, 0, len(ts))
	for _, t := range ts {
		r := Row{}
		r[0], r[2], r[3] = t[0], t[1], t[2]
		if len(t) > 3 {
			r[1] = t[3]
		}
		r[4] = RODefault
		out = append(out, r)
	}
	return out
}

// Src is the model whose accessors serve for m.
func (m *Model) Src() *Model {
	if m.Hand {
		return m.Env.Models[m.Like]
	}
	return m
}

// AbsAll lists abstract rows of a slice of T, in order.
func (m *Model) AbsAll(c Conc, s any) []Row {
	if s == nil {
		return nil
	}
	v := reflect.ValueOf(s)
	out := make([]Row, 0, v.Len())
	for i := 0; i < v.Len(); i++ {
		p := reflect.New(m.T)
		p.Elem().Set(v.Index(i))
		out = append(out, m.Abs(c, p.Interface()))
	}
	return out
}

var _ = fmt.Sprint
