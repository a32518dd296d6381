// conc makes calls at the same time: in the order of the schedules of
// Pool.tla (gate), and freely under the race detector (stress).
package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"sync"
	"time"

	"verifws/engine"
	"verifws/flav"
	"verifws/kit"
)

var boom = errors.New("the database failed")

type shapeRec struct {
	Calls []kit.Call `json:"calls"`
}

// task is one call for one model, possibly with a failure.
type task struct {
	m     *kit.Model
	call  kit.Call
	pal   int
	fault int // interaction that fails, -1 for none
}

// seen is what a call does.
type seen struct {
	Sent  []kit.Sent
	Res   kit.Result
	Err   string
	Panic bool
	Rows  []kit.Row
}

func (s seen) String() string {
	b, _ := json.Marshal(s.Res)
	str := fmt.Sprintf("%s err=%q panic=%v stored=%v", b, s.Err, s.Panic, s.Rows)
	for _, x := range s.Sent {
		str += "\n  " + x.SQL + " " + show(x.Args)
	}
	return str
}

func show(a []driver.Value) string {
	out := ""
	for _, v := range a {
		if b, ok := v.([]byte); ok {
			out += fmt.Sprintf(" b%q", b)
		} else if t, ok := v.(time.Time); ok {
			out += " " + t.UTC().Format(time.RFC3339Nano)
		} else {
			out += fmt.Sprintf(" %T(%v)", v, v)
		}
	}
	return out
}

// place is where a process works: databases of its own.
type place struct {
	stores map[string]kit.Store
	probes map[string]*kit.Probe
	concs  map[string]kit.Conc
	gate   func()
}

func newPlace() *place {
	return &place{stores: map[string]kit.Store{}, probes: map[string]*kit.Probe{}, concs: map[string]kit.Conc{}}
}

func (p *place) close() {
	for _, s := range p.stores {
		s.Close()
	}
}

// prepare opens the database of a task.
func (p *place) prepare(t task) {
	k := t.m.Env.Flavour + "/" + t.m.Name + strconv.Itoa(t.pal)
	if p.stores[k] != nil {
		return
	}
	pr := &kit.Probe{}
	st, c, _ := kit.OpenProbed(t.m, t.pal, kit.Rng(k), pr)
	p.stores[k], p.probes[k], p.concs[k] = st, pr, c
}

func (p *place) run(t task) seen {
	k := t.m.Env.Flavour + "/" + t.m.Name + strconv.Itoa(t.pal)
	st, pr, c := p.stores[k], p.probes[k], p.concs[k]
	var rows []kit.Row
	for k := 0; k < 3; k++ {
		rows = append(rows, t.m.Norm(kit.Row{k, k % 2, k, k - 1, kit.RODefault}))
	}
	st.Set(rows, 4)
	pr.Take()
	n := 0
	pr.Fault = func(f engine.FaultPoint) error {
		if f.Op == "close" || f.Op == "row" {
			return nil
		}
		n++
		if n-1 == t.fault {
			return boom
		}
		return nil
	}
	pr.OnStmt = func(context.Context, string, []driver.Value) {
		if p.gate != nil {
			p.gate()
		}
	}
	pr.Switch(true)
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	var s seen
	err, panicked := kit.Safely(func() (err error) { s.Res, err = t.call.Do(ctx, t.m, st.DB(), c); return })
	pr.Switch(false)
	s.Panic = panicked
	if err != nil {
		s.Err = err.Error()
	}
	s.Sent = pr.Take()
	s.Rows = st.Get()
	return s
}

func tasks(file string) []task {
	shapes := kit.Lines[shapeRec](file)
	var out []task
	for _, e := range flav.All {
		for _, n := range e.Names {
			m := e.Models[n]
			if m.Kind == "stamped" || m.Kind == "autouniq" {
				continue
			}
			if col := m.Role["w1"]; col != nil && col.Kind == "bool" {
				continue
			}
			for _, s := range shapes {
				for d, call := range s.Calls {
					pal := d
					if !call.Can(m, kit.Conc{Palette: pal}) {
						continue
					}
					out = append(out, task{m, call, pal, -1})
				}
			}
		}
	}
	return out
}

func main() {
	ts := tasks(os.Args[2])
	rep := &kit.Report{Distinct: len(ts)}
	switch os.Args[1] {
	case "gate":
		gate(rep, ts, os.Args[3])
	case "stress":
		stress(rep, ts)
		tight(rep, ts)
	}
	rep.Print()
}

// pick gives a random task; now and then one that fails or stops early.
func pick(rng *rand.Rand, ts []task) task {
	t := ts[rng.Intn(len(ts))]
	if rng.Intn(3) == 0 {
		t.fault = rng.Intn(5)
	}
	return t
}

func key(t task) string {
	return fmt.Sprintf("%s/%s %d %d %+v", t.m.Env.Flavour, t.m.Name, t.pal, t.fault, t.call)
}

func diff(rep *kit.Report, how string, t task, want, got seen, with any) {
	w, g := want.String(), got.String()
	if w == g {
		return
	}
	what := "a call among others differs from the same call alone"
	if got.Panic && !want.Panic {
		what = "a call among others panics"
	}
	rep.Add(kit.Violation{Sig: what + " " + how, Where: t.m.Env.Flavour + "/" + t.m.Name, What: what,
		Case: map[string]any{"call": t.call, "fault": t.fault, "among": with}, Detail: "alone: " + w + "\namong others: " + g})
}

// ---- schedules

type schedule struct {
	S []int `json:"s"`
}

type proc struct {
	p      *place
	tasks  []task
	got    []seen
	step   chan struct{}
	parked chan bool // true: finished
	done   bool
}

func gate(rep *kit.Report, ts []task, file string) {
	runtime.GOMAXPROCS(1)
	scheds := kit.Lines[schedule](file)
	rng := kit.Rng("gate")
	rounds := 3
	if kit.Thorough() {
		rounds = 20
	}
	const procs, ncalls = 3, 2
	places := make([]*place, procs+1)
	for i := range places {
		places[i] = newPlace()
	}
	// every flavour uses a pool of its own: processes share a flavour
	by := map[string][]task{}
	for _, t := range ts {
		by[t.m.Env.Flavour] = append(by[t.m.Env.Flavour], t)
	}
	wants := map[string]seen{}
	for round := 0; round < rounds; round++ {
		for si := range scheds {
			fl := flav.All[(si+round)%len(flav.All)].Flavour
			var ps []*proc
			for i := 0; i < procs; i++ {
				q := &proc{p: places[i], step: make(chan struct{}), parked: make(chan bool)}
				for k := 0; k < ncalls; k++ {
					t := pick(rng, by[fl])
					q.tasks = append(q.tasks, t)
					places[i].prepare(t)
					places[procs].prepare(t)
					if _, ok := wants[key(t)]; !ok {
						wants[key(t)] = places[procs].run(t)
					}
				}
				ps = append(ps, q)
			}
			for _, q := range ps {
				q := q
				q.p.gate = func() { q.parked <- false; <-q.step }
				go func() {
					<-q.step
					for _, t := range q.tasks {
						q.got = append(q.got, q.p.run(t))
					}
					q.parked <- true
				}()
			}
			advance := func(q *proc) {
				if q.done {
					return
				}
				q.step <- struct{}{}
				q.done = <-q.parked
			}
			for _, i := range scheds[si].S {
				advance(ps[i-1])
			}
			for _, q := range ps {
				for !q.done {
					advance(q)
				}
				q.p.gate = nil
			}
			rep.Run(1)
			for _, q := range ps {
				for k, t := range q.tasks {
					diff(rep, "in a schedule", t, wants[key(t)], q.got[k], scheds[si].S)
				}
			}
		}
	}
	for _, p := range places {
		p.close()
	}
}

// ---- free running

func stress(rep *kit.Report, ts []task) {
	procs, n := 8, 400
	if kit.Thorough() {
		procs, n = 16, 4000
	}
	// what every task does alone
	alone := make([]seen, len(ts))
	rng := kit.Rng("stress")
	idx := rng.Perm(len(ts))
	if !kit.Thorough() && len(idx) > 1500 {
		idx = idx[:1500]
	}
	some := make([]task, len(idx))
	pl := newPlace()
	for i, k := range idx {
		some[i] = ts[k]
		if rng.Intn(4) == 0 {
			some[i].fault = rng.Intn(4)
		}
		pl.prepare(some[i])
		alone[i] = pl.run(some[i])
	}
	pl.close()
	var wg sync.WaitGroup
	for g := 0; g < procs; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			rng := kit.Rng("stress" + strconv.Itoa(g))
			p := newPlace()
			defer p.close()
			for k := 0; k < n; k++ {
				i := rng.Intn(len(some))
				p.prepare(some[i])
				diff(rep, "running freely", some[i], alone[i], p.run(some[i]), nil)
				rep.Run(1)
			}
		}(g)
	}
	wg.Wait()
}

// ---- tight: the first statement of every kind of call, over and over

// deaf is a database that notes the statement it is sent and answers with an error.
type deaf struct{ got string }

func (d *deaf) Connect(context.Context) (driver.Conn, error) { return d, nil }
func (d *deaf) Driver() driver.Driver                        { return nil }
func (d *deaf) Prepare(string) (driver.Stmt, error)          { return nil, boom }
func (d *deaf) Close() error                                 { return nil }
func (d *deaf) Begin() (driver.Tx, error)                    { return d, nil }
func (d *deaf) Commit() error                                { return nil }
func (d *deaf) Rollback() error                              { return nil }
func (d *deaf) ExecContext(_ context.Context, q string, a []driver.NamedValue) (driver.Result, error) {
	d.note(q, a)
	return nil, boom
}
func (d *deaf) QueryContext(_ context.Context, q string, a []driver.NamedValue) (driver.Rows, error) {
	d.note(q, a)
	return nil, boom
}
func (d *deaf) note(q string, a []driver.NamedValue) {
	v := make([]driver.Value, len(a))
	for i := range a {
		v[i] = a[i].Value
	}
	d.got = q + " " + show(v)
}

func tight(rep *kit.Report, ts []task) {
	dur := 110 * time.Millisecond
	if kit.Thorough() {
		dur = 1500 * time.Millisecond
	}
	for _, e := range flav.All {
		var some []task
		have := map[string]bool{}
		for _, t := range ts {
			k := fmt.Sprint(t.m.Kind, t.m.Hand, t.call.Op, len(t.call.Rows), t.call.Cond.Op, len(t.call.Orders), len(t.call.Sets), t.call.Ov, len(t.call.Omit))
			if t.m.Env != e || have[k] {
				continue
			}
			have[k] = true
			some = append(some, t)
		}
		if len(some) == 0 {
			continue
		}
		one := func(d *deaf, db *sql.DB, t task) string {
			d.got = ""
			_, panicked := kit.Safely(func() (err error) {
				_, err = t.call.Do(context.Background(), t.m, db, kit.Conc{Palette: t.pal})
				return
			})
			if panicked {
				d.got += " panicked"
			}
			return d.got
		}
		d := &deaf{}
		db := sql.OpenDB(d)
		want := make([]string, len(some))
		for i, t := range some {
			want[i] = one(d, db, t)
		}
		db.Close()
		// half of the goroutines make one kind of call, the others any
		groups := map[string][]int{}
		for i, t := range some {
			k := fmt.Sprint(t.call.Op, t.m.Hand, t.m.Kind)
			if !t.m.Hand {
				k = t.call.Op
			}
			groups[k] = append(groups[k], i)
		}
		for _, idx := range groups {
			var wg sync.WaitGroup
			end := time.Now().Add(dur)
			for g := 0; g < 12; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					rng := kit.Rng("tight" + strconv.Itoa(g))
					d := &deaf{}
					db := sql.OpenDB(d)
					defer db.Close()
					for time.Now().Before(end) {
						i := rng.Intn(len(some))
						if g%2 == 0 {
							i = idx[rng.Intn(len(idx))]
						}
						rep.Run(1)
						if got := one(d, db, some[i]); got != want[i] {
							rep.Add(kit.Violation{Sig: "statement among others", Where: some[i].m.Env.Flavour + "/" + some[i].m.Name, What: "a call among others sends a different statement than alone",
								Case: map[string]any{"call": some[i].call}, Detail: "alone: " + want[i] + "\namong others: " + got})
						}
					}
				}(g)
			}
			wg.Wait()
		}
	}
}
