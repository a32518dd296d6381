package kit

import (
	"reflect"

	"github.com/si3nloong/sqlgen/sequel"
)

// ColOps are the generated operators over one column type.
type ColOps struct {
	One     map[string]func(any, reflect.Value) sequel.WhereClause
	Two     map[string]func(any, reflect.Value, reflect.Value) sequel.WhereClause
	List    map[string]func(any, []reflect.Value) sequel.WhereClause
	IsNull  func(any) sequel.WhereClause
	NotNull func(any) sequel.WhereClause
	Set     func(any, reflect.Value) sequel.SetClause
	Asc     func(any) sequel.OrderByClause
	Desc    func(any) sequel.OrderByClause
}

// Ops are the generated operators of a flavour.
type Ops struct {
	Cols map[reflect.Type]ColOps
	And  func(...sequel.WhereClause) sequel.WhereClause
	Or   func(...sequel.WhereClause) sequel.WhereClause
}

// OpsFor gives the operators for the column of a role.
func (m *Model) OpsFor(role string) ColOps {
	o, ok := m.Env.Ops.(Ops).Cols[m.Role[role].Type]
	if !ok {
		panic("no operators for " + m.Role[role].Type.String())
	}
	return o
}
