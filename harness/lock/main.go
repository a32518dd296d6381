// lock replays the behaviours of Lock.tla with concurrent transactions.
package main

import (
	"context"
	"database/sql"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"verifws/engine"
	"verifws/flav"
	"verifws/kit"
)

const absent = -9

type res struct {
	Kind string `json:"kind"`
	V    int    `json:"v"`
}

type wake struct {
	T   int    `json:"t"`
	K   int    `json:"k"`
	M   string `json:"m"`
	Res res    `json:"res"`
}

type step struct {
	T     int        `json:"t"`
	A     string     `json:"a"`
	K     int        `json:"k"`
	M     string     `json:"m"`
	V     int        `json:"v"`
	Res   res        `json:"res"`
	Woke  []wake     `json:"woke"`
	Rows  []int      `json:"rows"`
	Locks [][]string `json:"locks"`
}

type path struct {
	Hist  []step          `json:"hist"`
	Modes json.RawMessage `json:"modes"`
}

type txKey struct{}

type answer struct {
	r       res
	err     error
	panic   bool
	blocked bool
}

type worker struct {
	tx  *sql.Tx
	out chan answer
}

type run struct {
	m    *kit.Model
	st   *kit.EngineStore
	c    kit.Conc
	tag  string
	ws   map[int]*worker
	rep  *kit.Report
	p    *path
	lock map[string]string
}

var names = map[string]string{"keyshare": "KEY SHARE", "share": "SHARE", "nokeyupdate": "NO KEY UPDATE", "update": "UPDATE"}

func (r *run) bad(what string, i int, f string, a ...any) {
	r.rep.Add(kit.Violation{Sig: what, Where: r.m.Env.Flavour + "/" + r.m.Name, What: what,
		Case: map[string]any{"behaviour": r.p.Hist, "step": i}, Detail: r.tag + " step " + strconv.Itoa(i) + ": " + fmt.Sprintf(f, a...)})
}

func (r *run) row(k, v int) kit.Row {
	return r.m.Norm(kit.Row{k, 1 - k%2, v, -1, kit.RODefault})
}

func (r *run) rows(vs []int) []kit.Row {
	var out []kit.Row
	for k, v := range vs {
		if v != absent {
			out = append(out, r.row(k, v))
		}
	}
	kit.SortRows(out)
	return out
}

func (r *run) quote(s string) string {
	if r.m.Env.Driver == "mysql" {
		return "`" + s + "`"
	}
	return `"` + s + `"`
}

func (r *run) write(ctx context.Context, tx *sql.Tx, k, v int) error {
	n := 0
	ph := func() string {
		n++
		if r.m.Env.Driver == "postgres" {
			return "$" + strconv.Itoa(n)
		}
		return "?"
	}
	q := "UPDATE " + r.quote(r.m.Table) + " SET " + r.quote(r.m.Role["w1"].Name) + " = " + ph() + " WHERE "
	args := []any{r.c.Value(r.m.Role["w1"], v)}
	row := r.row(k, v)
	for i, role := range kit.Roles[:2] {
		if col := r.m.Role[role]; col != nil && (col.PK || col.Auto) {
			if i > 0 {
				q += " AND "
			}
			q += r.quote(col.Name) + " = " + ph()
			args = append(args, r.c.Value(col, row[i]))
		}
	}
	_, err := tx.ExecContext(ctx, q, args...)
	return err
}

func (r *run) start(ctx context.Context, t int, f func(ctx context.Context) answer) {
	w := r.ws[t]
	ctx = context.WithValue(ctx, txKey{}, t)
	go func() {
		var a answer
		err, p := kit.Safely(func() error { a = f(ctx); return nil })
		if p {
			a = answer{err: err, panic: true}
		}
		w.out <- a
	}()
}

// wait gives the answer of a transaction, or that it is blocked.
func (r *run) wait(t int) answer {
	select {
	case a := <-r.ws[t].out:
		return a
	case <-time.After(15 * time.Second):
		return answer{err: errors.New("no answer")}
	}
}

func (r *run) doLock(ctx context.Context, t, k int, mode string) answer {
	v := r.m.Make(r.c, r.row(k, 0))
	err := r.m.Lock(ctx, r.ws[t].tx, v, mode)
	if errors.Is(err, sql.ErrNoRows) {
		return answer{r: res{Kind: "norows"}}
	}
	if err != nil {
		return answer{err: err}
	}
	got := r.m.Abs(r.c, v)
	a := answer{r: res{Kind: "row", V: got[2]}}
	want := r.row(k, got[2])
	if got != want {
		a.err = fmt.Errorf("read %v, want %v", got, want)
	}
	return a
}

func main() {
	rep := &kit.Report{}
	bydrv := map[string][]path{"mysql": kit.Lines[path](os.Args[1]), "postgres": kit.Lines[path](os.Args[2])}
	type job struct {
		m     *kit.Model
		i, of int
	}
	var jobs []job
	count := map[string]int{}
	for _, e := range flav.All {
		if e.Driver == "sqlite" {
			continue
		}
		for _, n := range e.Names {
			m := e.Models[n]
			if m.Lock == nil || m.Role["w1"] == nil || m.Role["w1"].RO || m.Kind == "autouniq" || m.Kind == "autoplus" || m.Kind == "stamped" {
				continue
			}
			jobs = append(jobs, job{m, count[e.Driver], 0})
			count[e.Driver]++
		}
	}
	share := 6
	if kit.Thorough() {
		share = 3
	}
	kit.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		ps := bydrv[j.m.Env.Driver]
		rng := kit.Rng(j.m.Env.Flavour + j.m.Name)
		st, c, tag := kit.OpenStore(j.m, i+int(kit.Seed()), rng)
		defer st.Close()
		r := &run{m: j.m, st: st.(*kit.EngineStore), c: c, tag: tag, rep: rep}
		n := 0
		for k := i % share; k < len(ps); k += share {
			r.p = &ps[k]
			r.replay()
			n++
		}
		rep.Count(j.m.Env.Flavour+"/"+j.m.Name, n)
	})
	rep.Distinct = len(bydrv["mysql"]) + len(bydrv["postgres"])
	rep.Print()
}

func (r *run) replay() {
	r.rep.Run(1)
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	h := r.p.Hist
	next := 0
	for k := range h[0].Rows {
		next = k + 1
	}
	r.st.Set(r.rows(h[0].Rows), next)
	r.ws = map[int]*worker{}
	for t := range h[0].Locks {
		r.ws[t+1] = &worker{out: make(chan answer, 4)}
	}
	r.st.E.OnBlock = func(ctx context.Context) {
		if t, ok := ctx.Value(txKey{}).(int); ok {
			select {
			case r.ws[t].out <- answer{blocked: true}:
			default:
			}
		}
	}
	r.st.E.Record = true
	defer func() {
		// nothing may be left running: the transactions end, which frees the others
		for k := 0; k < 4; k++ {
			for _, w := range r.ws {
				if w.tx != nil {
					w.tx.Rollback()
				}
			}
		}
		deadline := time.Now().Add(10 * time.Second)
		for r.st.DB().Stats().InUse > 0 && time.Now().Before(deadline) {
			time.Sleep(100 * time.Microsecond)
		}
	}()
	blockedNow := map[int]bool{}
	defer func() {
		// a transaction that waits cannot be rolled back before it is freed
		for t := range blockedNow {
			for _, w := range r.ws {
				if w != r.ws[t] && w.tx != nil {
					w.tx.Rollback()
				}
			}
		}
		for t, b := range blockedNow {
			for b {
				a := r.wait(t)
				b = a.blocked
			}
		}
	}()
	for i, s := range h[1:] {
		i++
		w := r.ws[s.T]
		r.st.E.TakeEvents()
		var err error
		switch s.A {
		case "begin":
			w.tx, err = r.st.DB().BeginTx(ctx, nil)
		case "commit", "rollback":
			if s.A == "commit" {
				err = w.tx.Commit()
			} else {
				err = w.tx.Rollback()
			}
			w.tx = nil
			woke := map[int]wake{}
			for _, x := range s.Woke {
				woke[x.T] = x
			}
			for t := range blockedNow {
				a := r.wait(t)
				if x, ok := woke[t]; ok {
					for a.blocked {
						a = r.wait(t)
					}
					delete(blockedNow, t)
					if !r.answer(i, a, x.Res) {
						return
					}
				} else if !a.blocked {
					delete(blockedNow, t)
					r.bad("a locking read does not wait for the lock", i, "got %+v", a)
					return
				}
			}
		case "write":
			r.start(ctx, s.T, func(ctx context.Context) answer { return answer{err: r.write(ctx, w.tx, s.K-1, s.V), r: res{Kind: "ok"}} })
			a := r.wait(s.T)
			if a.blocked {
				blockedNow[s.T] = true
				r.bad("a locking read holds more than it should", i, "a write of another record waits")
				return
			}
			err = a.err
		case "lock":
			r.start(ctx, s.T, func(ctx context.Context) answer { return r.doLock(ctx, s.T, s.K-1, s.M) })
			a := r.wait(s.T)
			if a.blocked {
				blockedNow[s.T] = true
			}
			if !r.answer(i, a, s.Res) {
				return
			}
			for _, e := range r.st.E.TakeEvents() {
				if !e.Tx {
					r.bad("a locking read runs outside the transaction", i, "%s", e.SQL)
					return
				}
				if e.Stmt != nil && e.Stmt.Lock != names[s.M] {
					r.bad("a locking read does not request the requested lock", i, "%q: %q, want %q", e.SQL, e.Stmt.Lock, names[s.M])
					return
				}
			}
		}
		if err != nil {
			r.bad("a step fails", i, "%s: %v", s.A, err)
			return
		}
		if got, want := fmt.Sprint(r.st.Get()), fmt.Sprint(r.rows(s.Rows)); got != want {
			r.bad("a locking read changes records", i, "%s: stored %v, want %v", s.A, got, want)
			return
		}
		var want []string
		for k := range s.Rows {
			var ms []string
			for t := range s.Locks {
				if s.Locks[t][k] != "" {
					ms = append(ms, names[s.Locks[t][k]])
				}
			}
			if len(ms) > 0 {
				sort.Strings(ms)
				want = append(want, strings.Join(ms, "+"))
			}
		}
		var got []string
		for _, ms := range r.st.E.Locks() {
			if len(ms) > 0 {
				sort.Strings(ms)
				got = append(got, strings.Join(ms, "+"))
			}
		}
		sort.Strings(want)
		sort.Strings(got)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			r.bad("wrong locks are held", i, "after %s: %v, want %v", s.A, got, want)
			return
		}
	}
}

func (r *run) answer(i int, a answer, want res) bool {
	switch {
	case a.panic:
		r.bad("a locking read panics", i, "%v", a.err)
	case a.err != nil:
		r.bad("a locking read fails", i, "%v (want %v)", a.err, want)
	case a.blocked && want.Kind == "blocked":
		return true
	case a.blocked:
		r.bad("a locking read waits though no lock conflicts", i, "want %v", want)
	case want.Kind == "blocked":
		r.bad("a locking read does not wait for the lock", i, "got %v", a.r)
	case a.r != want:
		r.bad("a locking read returns something else than the record", i, "got %v, want %v", a.r, want)
	default:
		return true
	}
	return false
}

var _ = engine.MySQL
