package kit

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"io"
	"math/rand"
	"strings"
	"sync"

	sqlite3 "github.com/mattn/go-sqlite3"
	"verifws/engine"
)

// Sent is a statement that reached the database.
type Sent struct {
	SQL  string
	Args []driver.Value
}

// Probe watches and disturbs a database.
type Probe struct {
	mu     sync.Mutex
	On     bool // record statements and inject faults
	Sent   []Sent
	open   int
	Fault  func(engine.FaultPoint) error
	OnStmt func(ctx context.Context, q string, args []driver.Value)
	eng    *engine.DB
}

// Take returns and clears the statements.
func (p *Probe) Take() []Sent {
	p.mu.Lock()
	defer p.mu.Unlock()
	s := p.Sent
	p.Sent = nil
	return s
}

// OpenRows counts the result sets not closed.
func (p *Probe) OpenRows() int {
	if p.eng != nil {
		return p.eng.OpenRows()
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.open
}

// Switch turns recording and faults on or off.
func (p *Probe) Switch(on bool) {
	p.mu.Lock()
	p.On = on
	p.mu.Unlock()
}

func (p *Probe) stmt(ctx context.Context, q string, args []driver.Value) {
	p.mu.Lock()
	on := p.On
	if on {
		p.Sent = append(p.Sent, Sent{strings.Clone(q), append([]driver.Value(nil), args...)})
	}
	f := p.OnStmt
	p.mu.Unlock()
	if on && f != nil {
		f(ctx, q, args)
	}
}

func (p *Probe) fault(f engine.FaultPoint) error {
	p.mu.Lock()
	on, fn := p.On, p.Fault
	p.mu.Unlock()
	if !on || fn == nil {
		return nil
	}
	return fn(f)
}

// OpenProbed is OpenStore with a probe.
func OpenProbed(m *Model, variant int, rng *rand.Rand, p *Probe) (Store, Conc, string) {
	if m.Env.Driver == "sqlite" {
		c := Conc{Palette: variant, T0: T0}
		return NewSQLiteStore(m, c, rng, func() *sql.DB {
			return sql.OpenDB(probed{&sqlite3.SQLiteDriver{}, p})
		}), c, "sqlite"
	}
	s, c, tag := OpenStore(m, variant, rng)
	p.eng = s.(*EngineStore).E
	p.eng.OnStmt = p.stmt
	p.eng.Fault = p.fault
	return s, c, tag
}

type probed struct {
	d *sqlite3.SQLiteDriver
	p *Probe
}

func (c probed) Connect(context.Context) (driver.Conn, error) {
	k, err := c.d.Open("file::memory:?_loc=UTC")
	if err != nil {
		return nil, err
	}
	return &pconn{k.(*sqlite3.SQLiteConn), c.p}, nil
}
func (c probed) Driver() driver.Driver { return c.d }

type pconn struct {
	*sqlite3.SQLiteConn
	p *Probe
}

func vals(a []driver.NamedValue) []driver.Value {
	out := make([]driver.Value, len(a))
	for i := range a {
		out[i] = a[i].Value
	}
	return out
}

// Prepare is not used by the generated code.
func (c *pconn) Prepare(q string) (driver.Stmt, error) { return c.SQLiteConn.Prepare(q) }

// PrepareContext is not used by the generated code.
func (c *pconn) PrepareContext(ctx context.Context, q string) (driver.Stmt, error) {
	return nil, errors.New("probe: prepare is not supported")
}

// BeginTx can fail.
func (c *pconn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	if err := c.p.fault(engine.FaultPoint{Op: "begin"}); err != nil {
		return nil, err
	}
	return c.SQLiteConn.BeginTx(ctx, o)
}

// ExecContext can fail.
func (c *pconn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	c.p.stmt(ctx, q, vals(args))
	if err := c.p.fault(engine.FaultPoint{Op: "exec"}); err != nil {
		return nil, err
	}
	r, err := c.SQLiteConn.ExecContext(ctx, q, args)
	if err != nil {
		return nil, err
	}
	return pres{r, c.p}, nil
}

// QueryContext can fail.
func (c *pconn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	c.p.stmt(ctx, q, vals(args))
	if err := c.p.fault(engine.FaultPoint{Op: "query"}); err != nil {
		return nil, err
	}
	r, err := c.SQLiteConn.QueryContext(ctx, q, args)
	if err != nil {
		return nil, err
	}
	c.p.mu.Lock()
	c.p.open++
	c.p.mu.Unlock()
	return &prows{Rows: r, p: c.p}, nil
}

type pres struct {
	driver.Result
	p *Probe
}

func (r pres) LastInsertId() (int64, error) {
	if err := r.p.fault(engine.FaultPoint{Op: "lastid"}); err != nil {
		return 0, err
	}
	return r.Result.LastInsertId()
}

type prows struct {
	driver.Rows
	p      *Probe
	n      int
	closed bool
	asked  bool
	extra  bool
}

// Columns can have one too many.
func (r *prows) Columns() []string {
	if !r.asked {
		r.asked = true
		r.extra = r.p.fault(engine.FaultPoint{Op: "cols"}) != nil
	}
	c := r.Rows.Columns()
	if r.extra {
		c = append(append([]string(nil), c...), "unexpected")
	}
	return c
}

func (r *prows) Close() error {
	if r.closed {
		return nil
	}
	r.closed = true
	r.p.mu.Lock()
	r.p.open--
	r.p.mu.Unlock()
	err := r.Rows.Close()
	if f := r.p.fault(engine.FaultPoint{Op: "close"}); f != nil {
		return f
	}
	return err
}

func (r *prows) Next(dest []driver.Value) error {
	if err := r.p.fault(engine.FaultPoint{Op: "next", N: r.n}); err != nil {
		return err
	}
	r.n++
	if r.extra {
		dest = dest[:len(dest)-1]
	}
	err := r.Rows.Next(dest)
	if err == nil {
		r.p.fault(engine.FaultPoint{Op: "row", N: r.n - 1}) // only tells
	}
	return err
}

var _ = io.EOF
