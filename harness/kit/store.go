package kit

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	"verifws/engine"
)

// Store is a database holding the table of one model.
type Store interface {
	DB() *sql.DB
	// Set replaces the content of the table.
	Set(rows []Row, nextID int)
	// Get returns the content, sorted.
	Get() []Row
	// Raw lists the stored rows for messages.
	Raw() string
	Close()
}

// EngineStore is the executable reference database.
type EngineStore struct {
	E     *engine.DB
	M     *Model
	C     Conc
	order []int // table position -> model column
	db    *sql.DB
}

// RODefault is the token of the value the database gives a read-only column.
const RODefault = 0

// ColDefs gives the table definition for the reference database.
func (m *Model) ColDefs(c Conc, order []int) *engine.Table {
	t := &engine.Table{Name: m.Table}
	for pos, i := range order {
		col := &m.Cols[i]
		ec := engine.Col{Name: col.Name, Kind: col.Kind, NotNull: !col.Ptr && col.Kind != "bytes", Auto: col.Auto}
		if len(col.Path) > 1 && !col.PK {
			ec.NotNull = false
		}
		if col.RO {
			ec.Default = c.Value(col, RODefault)
		}
		switch {
		case col.Auto:
			t.PK = append([]int{pos}, t.PK...)
		case col.PK && m.Kind != "autoplus":
			t.PK = append(t.PK, pos)
		}
		if col.Uniq {
			t.Unique = append(t.Unique, []int{pos})
		}
		t.Cols = append(t.Cols, ec)
	}
	return t
}

// NewEngineStore makes the reference database for a model.
func NewEngineStore(m *Model, c Conc, rng *rand.Rand, mode string) *EngineStore {
	d := engine.MySQL
	if m.Env.Driver == "postgres" {
		d = engine.Postgres
	}
	s := &EngineStore{E: engine.New(d), M: m, C: c}
	s.E.Mode = mode
	s.order = rng.Perm(len(m.Cols))
	s.E.Create(m.ColDefs(c, s.order))
	s.db = s.E.Open()
	return s
}

// DB is the handle.
func (s *EngineStore) DB() *sql.DB { return s.db }

// Close releases the handle.
func (s *EngineStore) Close() { s.db.Close() }

// Cells is a stored row.
func (s *EngineStore) Cells(r Row) []driver.Value {
	out := make([]driver.Value, len(s.order))
	for pos, i := range s.order {
		col := &s.M.Cols[i]
		for j, role := range Roles {
			if col.Role == role {
				out[pos] = s.C.Value(col, r[j])
			}
		}
	}
	return out
}

// AbsRow is the abstract row of stored cells.
func (s *EngineStore) AbsRow(cells []driver.Value) Row {
	var r Row
	for pos, i := range s.order {
		col := &s.M.Cols[i]
		for j, role := range Roles {
			if col.Role == role {
				r[j] = s.C.Tok(col, cells[pos])
			}
		}
	}
	return r
}

// Set replaces the content.
func (s *EngineStore) Set(rows []Row, nextID int) {
	var rs [][]driver.Value
	for _, r := range rows {
		rs = append(rs, s.Cells(r))
	}
	s.E.SetRows(s.M.Table, rs, int64(nextID))
}

// Get returns the content.
func (s *EngineStore) Get() []Row {
	var out []Row
	for _, r := range s.E.Rows(s.M.Table) {
		out = append(out, s.AbsRow(r))
	}
	SortRows(out)
	return out
}

// Raw lists the content.
func (s *EngineStore) Raw() string { return fmt.Sprintf("%v", s.E.Rows(s.M.Table)) }

// SortRows puts rows in a canonical order.
func SortRows(rs []Row) {
	sort.Slice(rs, func(i, j int) bool {
		for k := range rs[i] {
			if rs[i][k] != rs[j][k] {
				return rs[i][k] < rs[j][k]
			}
		}
		return false
	})
}

// SQLStore is a real SQL database (SQLite).
type SQLStore struct {
	M     *Model
	C     Conc
	db    *sql.DB
	ins   string
	defs  string
	sel   string
	order []int
}

// NewSQLiteStore makes a SQLite database for a model. open opens an empty
// in-memory database.
func NewSQLiteStore(m *Model, c Conc, rng *rand.Rand, open func() *sql.DB) *SQLStore {
	s := &SQLStore{M: m, C: c, db: open()}
	s.db.SetMaxOpenConns(1)
	s.order = rng.Perm(len(m.Cols))
	var defs, pk, names, ph []string
	for _, i := range s.order {
		col := &m.Cols[i]
		d := `"` + col.Name + `" ` + map[string]string{"int": "INTEGER", "text": "TEXT", "float": "REAL", "bool": "BOOLEAN", "time": "DATETIME", "bytes": "BLOB"}[col.Kind]
		switch {
		case col.Auto:
			d = `"` + col.Name + `" INTEGER PRIMARY KEY AUTOINCREMENT`
		case col.PK && m.Kind != "autoplus":
			pk = append(pk, `"`+col.Name+`"`)
			d += " NOT NULL"
		case !col.Ptr && col.Kind != "bytes" && len(col.Path) == 1:
			d += " NOT NULL"
		}
		if col.Uniq {
			d += " UNIQUE"
		}
		if col.RO {
			switch v := c.Value(col, RODefault).(type) {
			case string:
				d += " DEFAULT '" + strings.ReplaceAll(v, "'", "''") + "'"
			case time.Time:
				d += " DEFAULT '" + v.UTC().Format("2006-01-02 15:04:05+00:00") + "'"
			case bool:
				d += " DEFAULT " + map[bool]string{true: "1", false: "0"}[v]
			default:
				d += fmt.Sprintf(" DEFAULT %v", v)
			}
		}
		defs = append(defs, d)
		names = append(names, `"`+col.Name+`"`)
		ph = append(ph, "?")
	}
	if len(pk) > 0 {
		defs = append(defs, "PRIMARY KEY ("+strings.Join(pk, ",")+")")
	}
	s.defs = `(` + strings.Join(defs, ", ") + `)`
	if _, err := s.db.Exec(`CREATE TABLE "` + m.Table + `" ` + s.defs); err != nil {
		panic(err)
	}
	s.ins = `INSERT INTO "` + m.Table + `" (` + strings.Join(names, ",") + `) VALUES (` + strings.Join(ph, ",") + `)`
	s.sel = `SELECT ` + strings.Join(names, ",") + ` FROM "` + m.Table + `"`
	return s
}

// DB is the handle.
func (s *SQLStore) DB() *sql.DB { return s.db }

// Close releases it.
func (s *SQLStore) Close() { s.db.Close() }

// Set replaces the content.
func (s *SQLStore) Set(rows []Row, nextID int) {
	ctx := context.Background()
	tx, err := s.db.BeginTx(ctx, nil)
	if err != nil {
		panic(fmt.Sprintf("store: %v (a statement of the code under test still holds the connection?)", err))
	}
	must := func(q string, a ...any) {
		if _, err := tx.Exec(q, a...); err != nil {
			panic(q + ": " + err.Error())
		}
	}
	must(`DELETE FROM "` + s.M.Table + `"`)
	for _, r := range rows {
		args := make([]any, len(s.order))
		for pos, i := range s.order {
			col := &s.M.Cols[i]
			for j, role := range Roles {
				if col.Role == role {
					args[pos] = s.C.Value(col, r[j])
				}
			}
		}
		must(s.ins, args...)
	}
	if s.M.Kind == "auto" || s.M.Kind == "autoplus" || s.M.Kind == "autouniq" {
		must(`DELETE FROM sqlite_sequence`)
		must(`INSERT INTO sqlite_sequence(name,seq) VALUES(?,?)`, s.M.Table, nextID)
	}
	if err := tx.Commit(); err != nil {
		panic(err)
	}
}

func (s *SQLStore) raw() [][]driver.Value {
	rows, err := s.db.Query(s.sel)
	if err != nil {
		panic(err)
	}
	defer rows.Close()
	var out [][]driver.Value
	for rows.Next() {
		vals := make([]any, len(s.order))
		ptr := make([]any, len(s.order))
		for i := range vals {
			ptr[i] = &vals[i]
		}
		if err := rows.Scan(ptr...); err != nil {
			panic(err)
		}
		r := make([]driver.Value, len(vals))
		for i := range vals {
			r[i] = vals[i]
		}
		out = append(out, r)
	}
	if rows.Err() != nil {
		panic(rows.Err())
	}
	return out
}

// Get returns the content.
func (s *SQLStore) Get() []Row {
	var out []Row
	for _, cells := range s.raw() {
		var r Row
		for pos, i := range s.order {
			col := &s.M.Cols[i]
			for j, role := range Roles {
				if col.Role == role {
					r[j] = s.C.Tok(col, cells[pos])
				}
			}
		}
		out = append(out, r)
	}
	SortRows(out)
	return out
}

// Raw lists the content.
func (s *SQLStore) Raw() string { return fmt.Sprintf("%v", s.raw()) }
