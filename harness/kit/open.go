package kit

import (
	"database/sql"
	"database/sql/driver"
	"fmt"
	"math/rand"
	"time"

	_ "github.com/mattn/go-sqlite3" // the real database
	"verifws/engine"
)

// T0 is the instant that time tokens are relative to.
var T0 = time.Date(2024, 3, 4, 5, 6, 7, 0, time.UTC)

func openSQLite() *sql.DB {
	db, err := sql.Open("sqlite3", "file::memory:?_loc=UTC")
	if err != nil {
		panic(err)
	}
	return db
}

// OpenStore makes the database for a model: SQLite for the SQLite flavours,
// the reference database for the others. The variant picks the palette of
// concrete values and how the database hands values over.
func OpenStore(m *Model, variant int, rng *rand.Rand) (Store, Conc, string) {
	c := Conc{Palette: variant, T0: T0}
	if m.Env.Driver == "sqlite" {
		return NewSQLiteStore(m, c, rng, openSQLite), c, fmt.Sprintf("sqlite palette=%d", variant)
	}
	mode := []string{"native", "text", "bytes"}[variant%3]
	return NewEngineStore(m, c, rng, mode), c, fmt.Sprintf("mode=%s palette=%d", mode, variant)
}

// Copy makes another table with the same columns and these rows.
func (s *EngineStore) Copy(table string, rows []Row) {
	t := s.M.ColDefs(s.C, s.order)
	t.Name = table
	s.E.Create(t)
	var rs [][]driver.Value
	for _, r := range rows {
		rs = append(rs, s.Cells(r))
	}
	s.E.SetRows(table, rs, 0)
}

// GetOf lists the rows of a copy.
func (s *EngineStore) GetOf(table string) []Row {
	var out []Row
	for _, r := range s.E.Rows(table) {
		out = append(out, s.AbsRow(r))
	}
	SortRows(out)
	return out
}

// Statements counts the statements received since the last call.
func (s *EngineStore) Statements() int {
	s.E.Record = true
	return len(s.E.TakeEvents())
}

// Copy makes another table with the same columns and these rows.
func (s *SQLStore) Copy(table string, rows []Row) {
	s.Set(rows, 0)
	for _, q := range []string{`DROP TABLE IF EXISTS "` + table + `"`, `CREATE TABLE "` + table + `" ` + s.defs,
		`INSERT INTO "` + table + `" SELECT * FROM "` + s.M.Table + `"`} {
		if _, err := s.db.Exec(q); err != nil {
			panic(err)
		}
	}
}

// GetOf lists the rows of a copy.
func (s *SQLStore) GetOf(table string) []Row {
	t := *s
	t.sel = replaceTail(s.sel, `"`+s.M.Table+`"`, `"`+table+`"`)
	return t.Get()
}

func replaceTail(s, old, new string) string {
	return s[:len(s)-len(old)] + new
}

var _ = engine.MySQL
