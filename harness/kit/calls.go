package kit

import (
	"context"
	"database/sql"
	"fmt"
)

// Call is an abstract call of a helper, as in Calls.tla.
type Call struct {
	ID     int      `json:"id"`
	Op     string   `json:"op"`
	Rows   [][]int  `json:"rows"` // <<k1,k2,w1,w2>>
	Cond   Cond     `json:"cond"`
	Orders []Ord    `json:"orders"`
	Sets   []SetTok `json:"sets"`
	Lim    int      `json:"lim"`
	Off    int      `json:"off"`
	Ov     bool     `json:"ov"`
	Omit   []string `json:"omit"`
	Mode   string   `json:"mode"`
	Back   bool     `json:"back"`
	Cursor bool     `json:"cursor"`
	Stop   int      `json:"stop"` // pages to take, 0 for all
	Table  bool     `json:"table"`
}

// Quads makes abstract rows of <<k1, k2, w1, w2>>.
func Quads(ts [][]int) []Row {
	out := make([]Row, 0, len(ts))
	for _, t := range ts {
		out = append(out, Row{t[0], t[1], t[2], t[3], RODefault})
	}
	return out
}

// Can tells whether a call makes sense for a model.
func (k Call) Can(m *Model, c Conc) bool {
	src := m.Src()
	has := func(col string) bool { return m.Role[col] != nil }
	for _, o := range k.Orders {
		if !has(o.Col) {
			return false
		}
	}
	for _, s := range k.Sets {
		if !has(s.Col) || m.Role[s.Col].RO {
			return false
		}
	}
	if src == nil && (len(k.Orders) > 0 || len(k.Sets) > 0 || k.Cond.Op != "none") {
		return false
	}
	switch k.Op {
	case "insertone":
		return m.InsertOne != nil && !m.RO
	case "find":
		return m.Find != nil
	case "update":
		return m.Update != nil
	case "delete":
		return m.Delete != nil
	case "lock":
		return m.Lock != nil && m.Env.Driver != "sqlite"
	case "insert":
		return m.Insert != nil && !m.RO
	case "upsertone":
		return m.UpsertOne != nil
	case "upsert":
		return m.Upsert != nil
	case "pages":
		if m.Pages == nil {
			return false
		}
	case "query", "queryone", "upd", "del":
		if m.Kind == "notable" {
			return false
		}
	}
	return src == nil || k.Cond.Fits(src, c)
}

// Result is what a call gives.
type Result struct {
	Rows  []Row // records returned, or the models after the call
	Pages int
	N     int64 // affected
	HasN  bool
}

// Do runs the call.
func (k Call) Do(ctx context.Context, m *Model, db *sql.DB, c Conc) (r Result, err error) {
	src := m.Src()
	rows := Quads(k.Rows)
	for i := range rows {
		rows[i] = m.Norm(rows[i])
	}
	var one any
	if len(rows) > 0 {
		one = m.Make(c, rows[0])
	}
	affected := func(res sql.Result, err error) error {
		if err != nil || res == nil {
			return err
		}
		r.HasN = true
		r.N, err = res.RowsAffected()
		return err
	}
	omit := make([]string, 0, len(k.Omit))
	for _, o := range k.Omit {
		if m.Role[o] != nil {
			omit = append(omit, m.ColumnName(o))
		}
	}
	switch k.Op {
	case "insertone":
		err = m.InsertOne(ctx, db, one)
		r.Rows = []Row{m.Abs(c, one)}
	case "find":
		err = m.Find(ctx, db, one)
		r.Rows = []Row{m.Abs(c, one)}
	case "update":
		err = affected(m.Update(ctx, db, one))
	case "delete":
		err = affected(m.Delete(ctx, db, one))
	case "lock":
		var tx *sql.Tx
		if tx, err = db.BeginTx(ctx, nil); err != nil {
			return
		}
		if err = m.Lock(ctx, tx, one, k.Mode); err != nil {
			tx.Rollback()
			return
		}
		r.Rows = []Row{m.Abs(c, one)}
		err = tx.Commit()
	case "insert":
		s := m.MakeSlice(c, rows)
		err = affected(m.Insert(ctx, db, s))
		r.Rows = m.AbsAll(c, s)
	case "upsertone":
		err = m.UpsertOne(ctx, db, one, k.Ov, omit)
		r.Rows = []Row{m.Abs(c, one)}
	case "upsert":
		s := m.MakeSlice(c, rows)
		err = affected(m.Upsert(ctx, db, s, k.Ov, omit))
		r.Rows = m.AbsAll(c, s)
	case "query", "queryone":
		s := SelectStmt{OrderBy: Orders(src, k.Orders), Limit: uint16(k.Lim), Offset: uint64(k.Off), Where: k.Cond.Build(src, c)}
		if k.Table {
			s.FromTable = m.Table
			for _, role := range Roles {
				if m.Role[role] != nil {
					s.Select = nil
				}
			}
		}
		var v any
		if k.Op == "query" {
			v, err = m.Query(ctx, db, s)
			if err == nil {
				r.Rows = m.AbsAll(c, v)
			}
		} else {
			v, err = m.QueryOne(ctx, db, s)
			if err == nil {
				r.Rows = []Row{m.Abs(c, v)}
			}
		}
	case "upd", "del":
		s := UpdStmt{OrderBy: Orders(src, k.Orders), Limit: uint16(k.Lim), Where: k.Cond.Build(src, c)}
		if m.Env.Driver == "postgres" || m.Env.Driver == "sqlite" {
			s.OrderBy, s.Limit = nil, 0
		}
		if k.Op == "upd" {
			s.Set = Sets(src, c, k.Sets)
			err = affected(m.ExecUpd(ctx, db, s))
		} else {
			err = affected(m.ExecDel(ctx, db, s))
		}
	case "pages":
		s := PageStmt{OrderBy: Orders(src, k.Orders), Limit: uint16(k.Lim), Where: k.Cond.Build(src, c)}
		var cur any
		if k.Cursor {
			cur = one
		}
		errs := 0
		m.Pages(ctx, db, s, k.Back, cur, func(page any, e error) bool {
			if e != nil {
				errs++
				err = e
				return true
			}
			if errs > 0 {
				err = fmt.Errorf("a page after the error %w", err)
			}
			r.Pages++
			r.Rows = append(r.Rows, m.AbsAll(c, page)...)
			return k.Stop == 0 || r.Pages < k.Stop
		})
		if errs > 1 {
			err = fmt.Errorf("the error is reported %d times: %w", errs, err)
		}
	default:
		panic("unknown call " + k.Op)
	}
	return
}
