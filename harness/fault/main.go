// fault runs the calls of Calls.tla with a failure at every interaction with
// the database in turn, and records the interactions for FaultTrace.tla.
package main

import (
	"bufio"
	"context"
	"database/sql"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	"verifws/engine"
	"verifws/flav"
	"verifws/kit"
)

var boom = errors.New("the database failed")

type shapeRec struct {
	Shape json.RawMessage `json:"shape"`
	Calls []kit.Call      `json:"calls"`
}

type trace struct {
	Where   string   `json:"where"`
	Op      string   `json:"op"`
	Ev      [][2]any `json:"ev"`
	Base    string   `json:"base"`
	Outcome string   `json:"outcome"`
	Open    int      `json:"open"`
	InUse   int      `json:"inuse"`
	Err     string   `json:"err"`
	Stop    int      `json:"stop"`
}

type runner struct {
	m     *kit.Model
	st    kit.Store
	c     kit.Conc
	p     *kit.Probe
	rep   *kit.Report
	where string
}

func (r *runner) fill(d int) {
	rows := []kit.Row{}
	for k := 0; k < 3; k++ {
		w := (k + d) % 2
		if r.m.Kind == "autouniq" {
			w = k
		}
		rows = append(rows, r.m.Norm(kit.Row{k, k % 2, w, k - 1, kit.RODefault}))
	}
	r.st.Set(rows, 4)
}

// run makes the call with the failure at the n-th interaction (-1: none).
func (r *runner) run(call kit.Call, n int) (t trace, res kit.Result, err error, panicked bool) {
	var mu sync.Mutex
	t.Where, t.Op, t.Stop = r.where, call.Op, call.Stop
	i := 0
	r.p.Fault = func(f engine.FaultPoint) error {
		mu.Lock()
		defer mu.Unlock()
		switch f.Op {
		case "query", "exec", "next", "lastid", "cols":
			ok := 1
			if i == n {
				ok = 0
			}
			i++
			t.Ev = append(t.Ev, [2]any{f.Op, ok})
			if ok == 0 {
				return boom
			}
		case "close", "row":
			t.Ev = append(t.Ev, [2]any{f.Op, 1})
		}
		return nil
	}
	r.p.Switch(true)
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	err, panicked = kit.Safely(func() (err error) { res, err = call.Do(ctx, r.m, r.st.DB(), r.c); return })
	r.p.Switch(false)
	r.p.Take()
	mu.Lock()
	defer mu.Unlock()
	t.Outcome = "ok"
	if err != nil {
		t.Outcome, t.Err = "err", err.Error()
	}
	t.Open, t.InUse = r.p.OpenRows(), r.st.DB().Stats().InUse
	return
}

func main() {
	rep := &kit.Report{}
	shapes := kit.Lines[shapeRec](os.Args[1])
	var models []*kit.Model
	for _, e := range flav.All {
		for _, n := range e.Names {
			models = append(models, e.Models[n])
		}
	}
	var mu sync.Mutex
	seen := map[string]bool{}
	var traces []trace
	kit.Parallel(len(models), func(mi int) {
		m := models[mi]
		variants := 1
		if kit.Thorough() {
			variants = 3
		}
		for v := 0; v < variants; v++ {
			r := &runner{m: m, p: &kit.Probe{}, rep: rep, where: m.Env.Flavour + "/" + m.Name}
			var tag string
			r.st, r.c, tag = kit.OpenProbed(m, v+mi+int(kit.Seed()), kit.Rng(r.where), r.p)
			for _, s := range shapes {
				for d, call := range s.Calls {
					if !call.Can(m, r.c) {
						continue
					}
					r.calls(call, d, tag, &mu, seen, &traces)
				}
			}
			r.st.Close()
		}
	})
	f, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(f)
	for _, t := range traces {
		if t.Ev == nil {
			t.Ev = [][2]any{}
		}
		b, _ := json.Marshal(t)
		w.Write(append(b, '\n'))
	}
	w.Flush()
	f.Close()
	rep.Distinct = len(traces)
	rep.Print()
}

func (r *runner) calls(call kit.Call, d int, tag string, mu *sync.Mutex, seen map[string]bool, traces *[]trace) {
	bad := func(what string, n int, f string, a ...any) {
		r.rep.Add(kit.Violation{Sig: what + " " + call.Op, Where: r.where, What: what, Case: map[string]any{"call": call, "fault": n}, Detail: tag + " " + fmt.Sprintf(f, a...)})
	}
	keep := func(t trace) {
		mu.Lock()
		defer mu.Unlock()
		k := fmt.Sprint(r.m.Env.Driver, t.Op, t.Ev, t.Base, t.Outcome, t.Open, t.InUse)
		if !seen[k] {
			seen[k] = true
			*traces = append(*traces, t)
		}
	}
	r.fill(d)
	t, want, werr, panicked := r.run(call, -1)
	if panicked {
		bad("a helper panics", -1, "%v", werr)
		return
	}
	if werr != nil && !errors.Is(werr, sql.ErrNoRows) {
		return // refused by the database
	}
	t.Base = t.Outcome
	keep(t)
	after := fmt.Sprint(r.st.Get())
	n := 0
	for _, e := range t.Ev {
		if e[0] != "close" && e[0] != "row" {
			n++
		}
	}
	if n > 9 && !kit.Thorough() {
		n = 9
	}
	base := t.Outcome
	for i := 0; i < n; i++ {
		r.fill(d)
		ft, _, err, panicked := r.run(call, i)
		r.rep.Run(1)
		if panicked {
			bad("a helper panics when the database fails", i, "%v", err)
			continue
		}
		ft.Base = base
		keep(ft)
		hit := false
		cols := false
		for _, e := range ft.Ev {
			if e[0] == "cols" {
				cols = e[1] == 0
			} else {
				hit = hit || e[1] == 0 || cols && e[0] == "row"
			}
		}
		// a missing record is not what happened
		if hit && err != nil && errors.Is(err, sql.ErrNoRows) {
			bad("a database failure is reported as a missing record", i, "%v %v", ft.Ev, err)
		}
		if hit && err != nil && (strings.Contains(err.Error(), "a page after the error") || strings.Contains(err.Error(), "reported ")) {
			bad("a failed iteration goes on", i, "%v", err)
		}
	}
	// a failure leaves nothing behind that changes later calls
	r.fill(d)
	t2, got, gerr, panicked := r.run(call, -1)
	if panicked || (gerr == nil) != (werr == nil) || fmt.Sprint(got) != fmt.Sprint(want) || fmt.Sprint(t2.Ev) != fmt.Sprint(t.Ev) {
		bad("a call differs after failed calls", n, "%v %v, before: %v %v", got, gerr, want, werr)
	}
	if a := fmt.Sprint(r.st.Get()); a != after {
		bad("a call differs after failed calls", n, "stored %v, before: %v", a, after)
	}
	r.rep.Count(r.where, n+2)
}
