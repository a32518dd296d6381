package engine

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
)

// Event is one statement received by the database.
type Event struct {
	SQL  string
	Args []driver.Value
	Stmt *Stmt
	Err  error
	Tx   bool
	Conn int
	Keys []string
	Wait bool
	Ctx  context.Context
}

// FaultPoint is a point at which the database may fail.
type FaultPoint struct {
	Op string // query exec next close lastid begin commit
	N  int    // row number for next
}

// DB is a database.
type DB struct {
	Dialect   Dialect
	Mode      string // how values are handed over: native, text, string, bytes
	BigUint   bool   // unsigned integers above the largest int64 are taken
	Unordered bool   // unspecified orders come out reversed
	Funcs     map[string]func([]driver.Value) (driver.Value, error)
	Fault     func(FaultPoint) error
	OnStmt    func(ctx context.Context, sql string, args []driver.Value)
	OnBlock   func(ctx context.Context)
	Record    bool

	mu       sync.Mutex
	cond     *sync.Cond
	tables   map[string]*Table
	locks    map[string]map[*conn]string
	events   []Event
	openRows int
	abort    bool
	nconn    int
	parsed   map[string]*Stmt
	perr     map[string]error
}

// New makes an empty database.
func New(d Dialect) *DB {
	db := &DB{Dialect: d, tables: map[string]*Table{}, locks: map[string]map[*conn]string{}, Funcs: map[string]func([]driver.Value) (driver.Value, error){},
		parsed: map[string]*Stmt{}, perr: map[string]error{}}
	db.cond = sync.NewCond(&db.mu)
	return db
}

// Create adds or replaces a table.
func (db *DB) Create(t *Table) {
	db.mu.Lock()
	defer db.mu.Unlock()
	for i, k := range t.PK {
		t.Cols[k].NotNull = true
		_ = i
	}
	db.tables[t.Name] = t
}

// SetRows replaces the content of a table.
func (db *DB) SetRows(table string, rows [][]driver.Value, nextID int64) {
	db.mu.Lock()
	defer db.mu.Unlock()
	t := db.tables[table]
	t.Rows = rows
	t.NextID = nextID
}

// Rows returns a copy of the content of a table.
func (db *DB) Rows(table string) [][]driver.Value {
	db.mu.Lock()
	defer db.mu.Unlock()
	var out [][]driver.Value
	for _, r := range db.tables[table].Rows {
		out = append(out, cloneRow(r))
	}
	return out
}

// NextID returns the last generated id.
func (db *DB) NextID(table string) int64 {
	db.mu.Lock()
	defer db.mu.Unlock()
	return db.tables[table].NextID
}

// TakeEvents returns and clears the recorded statements.
func (db *DB) TakeEvents() []Event {
	db.mu.Lock()
	defer db.mu.Unlock()
	e := db.events
	db.events = nil
	return e
}

// OpenRows is the number of result sets not closed.
func (db *DB) OpenRows() int {
	db.mu.Lock()
	defer db.mu.Unlock()
	return db.openRows
}

// Open returns a handle.
func (db *DB) Open() *sql.DB { return sql.OpenDB(connector{db}) }

type connector struct{ db *DB }

func (c connector) Connect(context.Context) (driver.Conn, error) {
	c.db.mu.Lock()
	defer c.db.mu.Unlock()
	c.db.nconn++
	return &conn{db: c.db, id: c.db.nconn}, nil
}
func (c connector) Driver() driver.Driver { return drv{} }

type drv struct{}

func (drv) Open(string) (driver.Conn, error) { return nil, errors.New("not supported") }

type conn struct {
	db      *DB
	id      int
	tx      bool
	cur     context.Context
	held    []string
	undoLog []undoRec
}

type undoRec struct {
	t *Table
	s Table
}

func (c *conn) undo(t *Table, s Table) {
	if c != nil && c.tx {
		c.undoLog = append(c.undoLog, undoRec{t, s})
	}
}

func (c *conn) Prepare(q string) (driver.Stmt, error) {
	return nil, errors.New("engine: prepare is not supported")
}
func (c *conn) Close() error { return nil }
func (c *conn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}
func (c *conn) BeginTx(ctx context.Context, _ driver.TxOptions) (driver.Tx, error) {
	if err := c.db.fault(FaultPoint{Op: "begin"}); err != nil {
		return nil, err
	}
	c.tx = true
	return &tx{c}, nil
}

type tx struct{ c *conn }

func (t *tx) end() {
	db := t.c.db
	for _, k := range t.c.held {
		delete(db.locks[k], t.c)
	}
	t.c.held, t.c.undoLog, t.c.tx = nil, nil, false
	db.cond.Broadcast()
}

func (t *tx) Commit() error {
	db := t.c.db
	db.mu.Lock()
	defer db.mu.Unlock()
	t.end()
	return nil
}

func (t *tx) Rollback() error {
	db := t.c.db
	db.mu.Lock()
	defer db.mu.Unlock()
	for i := len(t.c.undoLog) - 1; i >= 0; i-- {
		u := t.c.undoLog[i]
		u.t.Rows = u.s.Rows
	}
	t.end()
	return nil
}

func (db *DB) fault(p FaultPoint) error {
	if db.Fault == nil {
		return nil
	}
	return db.Fault(p)
}

var strength = map[string]int{"KEY SHARE": 1, "SHARE": 2, "NO KEY UPDATE": 3, "UPDATE": 4}

func compatible(a, b string) bool {
	x, y := strength[a], strength[b]
	if x > y {
		x, y = y, x
	}
	switch {
	case x == 1:
		return y <= 3
	case x == 2:
		return y == 2
	}
	return false
}

// lockRows takes row locks inside a transaction (waiting for other holders); outside of one it only waits.
// db.mu is held.
func (db *DB) lockRows(c *conn, keys []string, mode string) (bool, error) {
	waited := false
	for _, k := range keys {
		for {
			blocked := false
			for o, m := range db.locks[k] {
				if o != c && !compatible(m, mode) {
					blocked = true
				}
			}
			if !blocked {
				break
			}
			waited = true
			if db.OnBlock != nil {
				db.OnBlock(c.ctx())
			}
			db.cond.Wait()
			if db.closed() {
				return waited, errors.New("engine: lock wait aborted")
			}
		}
	}
	if c == nil || !c.tx {
		return waited, nil
	}
	if waited {
		return true, nil
	}
	for _, k := range keys {
		if db.locks[k] == nil {
			db.locks[k] = map[*conn]string{}
		}
		if strength[db.locks[k][c]] < strength[mode] {
			db.locks[k][c] = mode
		}
		c.held = append(c.held, k)
	}
	return false, nil
}

func (db *DB) closed() bool { return db.abort }

// Abort makes all lock waits fail.
func (db *DB) Abort() {
	db.mu.Lock()
	defer db.mu.Unlock()
	db.abort = true
	db.cond.Broadcast()
}

// Locks returns the lock modes held on a key, by connection.
func (db *DB) Locks() map[string][]string {
	db.mu.Lock()
	defer db.mu.Unlock()
	out := map[string][]string{}
	for k, m := range db.locks {
		for _, v := range m {
			out[k] = append(out[k], v)
		}
	}
	return out
}

func (c *conn) ctx() context.Context { return c.cur }

func (c *conn) do(ctx context.Context, op, q string, nargs []driver.NamedValue) (*result, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	args := make([]driver.Value, len(nargs))
	for i, a := range nargs {
		if a.Ordinal != i+1 || a.Name != "" {
			return nil, fmt.Errorf("engine: unexpected named argument")
		}
		args[i] = a.Value
	}
	if c.db.OnStmt != nil {
		c.db.OnStmt(ctx, q, args)
	}
	db := c.db
	db.mu.Lock()
	defer db.mu.Unlock()
	c.cur = ctx
	ev := Event{SQL: q, Args: args, Tx: c.tx, Conn: c.id, Ctx: ctx}
	st, err := db.parse(q)
	if err == nil {
		ev.Stmt = st
		if db.Dialect == MySQL && st.NParams != len(args) {
			err = fmt.Errorf("engine: expected %d arguments, got %d in %q", st.NParams, len(args), q)
		}
		if db.Dialect == Postgres {
			if st.MaxParam != len(args) {
				err = fmt.Errorf("engine: got %d parameters but the statement requires %d in %q", len(args), st.MaxParam, q)
			}
			for i := 1; i <= st.MaxParam && err == nil; i++ {
				if st.ParamUses[i] == 0 {
					err = fmt.Errorf("engine: could not determine data type of parameter $%d in %q", i, q)
				}
			}
		}
	}
	if err == nil {
		err = db.fault(FaultPoint{Op: op})
	}
	var res *result
	if err == nil {
		res, err = db.run(c, st, q, args)
	}
	ev.Err = err
	if res != nil {
		ev.Keys = res.keys
	}
	if db.Record {
		db.events = append(db.events, ev)
	}
	return res, err
}

func (db *DB) parse(q string) (*Stmt, error) {
	if st, ok := db.parsed[q]; ok {
		return st, db.perr[q]
	}
	st, err := Parse(db.Dialect, q)
	if len(db.parsed) > 5000 {
		db.parsed, db.perr = map[string]*Stmt{}, map[string]error{}
	}
	k := strings.Clone(q)
	db.parsed[k], db.perr[k] = st, err
	return st, err
}

func (c *conn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	r, err := c.do(ctx, "exec", q, args)
	if err != nil {
		return nil, err
	}
	return &res{c.db, r}, nil
}

type res struct {
	db *DB
	r  *result
}

func (r *res) LastInsertId() (int64, error) {
	if err := r.db.fault(FaultPoint{Op: "lastid"}); err != nil {
		return 0, err
	}
	if r.db.Dialect == Postgres {
		return 0, errors.New("no LastInsertId available")
	}
	return r.r.lastID, nil
}
func (r *res) RowsAffected() (int64, error) { return r.r.affected, nil }

func (c *conn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	r, err := c.do(ctx, "query", q, args)
	if err != nil {
		return nil, err
	}
	c.db.mu.Lock()
	c.db.openRows++
	c.db.mu.Unlock()
	return &rows{db: c.db, r: r}, nil
}

type rows struct {
	db     *DB
	r      *result
	i      int
	closed bool
	asked  bool
	extra  bool // one column too many
}

// Columns can have one too many: then no row can be scanned.
func (r *rows) Columns() []string {
	if !r.asked {
		r.asked = true
		r.extra = r.db.fault(FaultPoint{Op: "cols"}) != nil
	}
	if r.extra {
		return append(append([]string(nil), r.r.cols...), "unexpected")
	}
	return r.r.cols
}
func (r *rows) Close() error {
	if r.closed {
		return nil
	}
	r.closed = true
	r.db.mu.Lock()
	r.db.openRows--
	r.db.mu.Unlock()
	return r.db.fault(FaultPoint{Op: "close"})
}
func (r *rows) Next(dest []driver.Value) error {
	if err := r.db.fault(FaultPoint{Op: "next", N: r.i}); err != nil {
		return err
	}
	if r.i >= len(r.r.rows) {
		return io.EOF
	}
	copy(dest, r.r.rows[r.i])
	r.i++
	r.db.fault(FaultPoint{Op: "row", N: r.i - 1}) // only tells
	return nil
}

// CheckNamedValue lets uint64 through, as the MySQL driver does.
func (c *conn) CheckNamedValue(nv *driver.NamedValue) error {
	if u, ok := nv.Value.(uint64); ok && u > 1<<63-1 {
		if c.db.BigUint {
			return nil
		}
		return fmt.Errorf("engine: uint64 value %d out of range", u)
	}
	v, err := driver.DefaultParameterConverter.ConvertValue(nv.Value)
	if err != nil {
		return err
	}
	nv.Value = v
	return nil
}
