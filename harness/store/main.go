// store replays the transitions of Store.tla into the generated code, or
// records random histories of the generated code for the specification.
package main

import (
	"context"
	"database/sql"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"time"

	"verifws/flav"
	"verifws/kit"
)

type opRec struct {
	Name     string   `json:"name"`
	Row      []int    `json:"row"`
	Rows     [][]int  `json:"rows"`
	Override bool     `json:"override"`
	Omit     []string `json:"omit"`
	Twice    bool     `json:"twice"`
}

type resRec struct {
	Ok   bool    `json:"ok"`
	Row  []int   `json:"row"`
	Hit  bool    `json:"hit"`
	N    int     `json:"n"`
	Rows [][]int `json:"rows"`
}

type trans struct {
	Kind string  `json:"kind"`
	RO   bool    `json:"ro"`
	Pre  [][]int `json:"pre"`
	Nid  int     `json:"nid"`
	Op   opRec   `json:"op"`
	Post [][]int `json:"post"`
	Pnid int     `json:"pnid"`
	Res  resRec  `json:"res"`
}

func row(t []int) kit.Row {
	var r kit.Row
	copy(r[:], t)
	return r
}

func rows(ts [][]int) []kit.Row {
	out := make([]kit.Row, 0, len(ts))
	for _, t := range ts {
		out = append(out, row(t))
	}
	return out
}

const junkRO = 1

// callerRow is the record a caller holds: its read-only field has junk, its
// auto-increment key too when the record is to be inserted.
func callerRow(m *kit.Model, t []int, insert bool) kit.Row {
	r := row(t)
	r[4] = junkRO
	if insert && strings.HasPrefix(m.Kind, "auto") {
		r[0] = 77
	}
	return r
}

// runner executes operations on one model over one store.
type runner struct {
	m   *kit.Model
	c   kit.Conc
	st  kit.Store
	tag string
}

type outcome struct {
	ok    bool
	err   error
	row   kit.Row   // find, insert
	n     int64     // reported count
	rows  []kit.Row // refreshed batch
	panic bool
}

func (r *runner) omit(roles []string) []string {
	var out []string
	for _, x := range roles {
		if r.m.Role[x] != nil {
			out = append(out, r.m.ColumnName(x))
		}
	}
	return out
}

func (r *runner) do(op opRec) (o outcome) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	m, c := r.m, r.c
	db := r.st.DB()
	o.err, o.panic = kit.Safely(func() error {
		switch op.Name {
		case "insert":
			v := m.Make(c, callerRow(m, op.Row, true))
			err := m.InsertOne(ctx, db, v)
			o.row = m.Abs(c, v)
			return err
		case "find":
			// everything but the key is stale
			k := row(op.Row)
			k[2], k[3], k[4] = 1, 0, 1
			if m.Role["w2"] == nil {
				k[3] = 0
			}
			if m.Kind == "autoplus" {
				k[1] = 2
			}
			v := m.Make(c, k)
			err := m.Find(ctx, db, v)
			o.row = m.Abs(c, v)
			return err
		case "update":
			_, err := m.Update(ctx, db, m.Make(c, callerRow(m, op.Row, false)))
			return err
		case "delete":
			k := row(op.Row)
			k[2], k[3], k[4] = 1, 0, 1
			_, err := m.Delete(ctx, db, m.Make(c, k))
			return err
		case "batch":
			var rs []kit.Row
			for _, x := range op.Rows {
				rs = append(rs, callerRow(m, x, true))
			}
			s := m.MakeSlice(c, rs)
			res, err := m.Insert(ctx, db, s)
			if err != nil {
				return err
			}
			o.n, err = res.RowsAffected()
			v := reflect.ValueOf(s)
			for i := 0; i < v.Len(); i++ {
				o.rows = append(o.rows, m.Abs(c, v.Index(i).Addr().Interface()))
			}
			return err
		case "upsertone":
			v := m.Make(c, callerRow(m, op.Rows[0], true))
			return m.UpsertOne(ctx, db, v, op.Override, r.omit(op.Omit))
		case "upsert":
			var rs []kit.Row
			for _, x := range op.Rows {
				rs = append(rs, callerRow(m, x, true))
			}
			_, err := m.Upsert(ctx, db, m.MakeSlice(c, rs), op.Override, r.omit(op.Omit))
			return err
		}
		return errors.New("unknown operation " + op.Name)
	})
	o.ok = o.err == nil
	return o
}

func normAll(m *kit.Model, rs []kit.Row) []kit.Row {
	out := make([]kit.Row, 0, len(rs))
	for _, r := range rs {
		out = append(out, m.Norm(r))
	}
	kit.SortRows(out)
	return out
}

// ungap renumbers the keys above nid consecutively.
func ungap(rs []kit.Row, nid int) []kit.Row {
	out, next := append([]kit.Row{}, rs...), nid
	for i := range out { // sorted by key
		if out[i][0] > nid {
			next++
			out[i][0] = next
		}
	}
	return out
}

func (r *runner) where() string { return r.m.Env.Flavour + "/" + r.m.Name }

// check compares one execution with what the specification says.
func (r *runner) check(t *trans, rep *kit.Report) {
	m := r.m
	r.st.Set(rows(t.Pre), t.Nid)
	o := r.do(t.Op)
	post := r.st.Get()
	bad := func(what string) {
		d := fmt.Sprintf("store %s; outcome err=%v row=%v rows=%v n=%d; table after: %v", r.tag, o.err, o.row, o.rows, o.n, post)
		rep.Add(kit.Violation{Sig: t.Op.Name + ": " + what, Where: r.where(), What: what, Case: t, Detail: d})
	}
	if o.panic {
		bad("the operation panics")
		return
	}
	want := normAll(m, rows(t.Post))
	refuse := t.Op.Twice && t.Op.Override && m.Env.Driver == "postgres"
	if refuse && o.err != nil {
		want = normAll(m, rows(t.Pre))
	}
	got := normAll(m, post)
	if m.Kind == "autouniq" {
		// conflicts may leave gaps in the generated keys
		got = ungap(got, t.Nid)
	}
	if !reflect.DeepEqual(got, want) {
		bad("wrong table content")
		return
	}
	if refuse {
		return
	}
	if t.Op.Name == "find" {
		if t.Res.Ok {
			if o.err != nil {
				bad("find fails for a stored record")
			} else if m.Norm(o.row) != m.Norm(row(t.Res.Row)) {
				bad("find returns other values")
			}
		} else if !errors.Is(o.err, sql.ErrNoRows) {
			bad("find of a missing record does not report no rows")
		}
		return
	}
	if t.Res.Ok != o.ok {
		if o.ok {
			bad("no error although nothing could be stored")
		} else {
			bad("unexpected error")
		}
		return
	}
	if !o.ok {
		return
	}
	pg := m.Env.Driver == "postgres"
	if t.Op.Name == "insert" {
		// (a hand-written model says itself how it takes its key)
		if strings.HasPrefix(m.Kind, "auto") && !m.Hand && o.row[0] != t.Res.Row[0] {
			bad("the model does not hold its generated key")
		}
		a, b := m.Norm(o.row), m.Norm(row(t.Res.Row))
		if a[2] != b[2] || a[3] != b[3] {
			bad("insert changed the model")
		}
	}
	if t.Op.Name == "batch" {
		if int(o.n) != t.Res.N {
			bad("wrong number of rows reported")
		}
		if pg {
			for i := range o.rows {
				if m.Norm(o.rows[i]) != m.Norm(row(t.Res.Rows[i])) {
					bad("an element is not refreshed from its own row")
					break
				}
			}
		}
	}
}

func newRunner(m *kit.Model, variant int, rng *rand.Rand) *runner {
	r := &runner{m: m}
	r.st, r.c, r.tag = kit.OpenStore(m, variant, rng)
	return r
}

type job struct {
	m *kit.Model
	v int
}

func replay(files []string) {
	rep := &kit.Report{}
	byKind := map[string][]*trans{}
	for _, f := range files {
		ts := kit.Lines[trans](f)
		for i := range ts {
			if ts[i].Op.Name == "env" {
				continue
			}
			k := ts[i].Kind + strconv.FormatBool(ts[i].RO)
			byKind[k] = append(byKind[k], &ts[i])
			rep.Distinct++
		}
	}
	variants := 2
	if kit.Thorough() {
		variants = 8
	}
	var jobs []job
	only := os.Getenv("VERIF_ONLY")
	for _, e := range flav.All {
		for _, n := range e.Names {
			m := e.Models[n]
			if only != "" && only != e.Flavour+"/"+n {
				continue
			}
			if len(byKind[m.Kind+strconv.FormatBool(m.RO)]) == 0 {
				continue
			}
			for v := 0; v < variants; v++ {
				jobs = append(jobs, job{m, v + int(kit.Seed()-1)*variants})
			}
		}
	}
	kit.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		rng := kit.Rng(j.m.Env.Flavour + j.m.Name + strconv.Itoa(j.v))
		ts := byKind[j.m.Kind+strconv.FormatBool(j.m.RO)]
		r := newRunner(j.m, j.v, rng)
		defer r.st.Close()
		// SQLite is slow: a sample unless thorough
		limit := len(ts)
		max := 6000
		if j.m.Env.Driver == "sqlite" {
			max = 1200
		}
		if kit.Thorough() {
			max *= 10
		}
		if limit > max {
			limit = max
		}
		n := 0
		for _, x := range rng.Perm(len(ts))[:limit] {
			r.check(ts[x], rep)
			n++
		}
		rep.Run(n)
		rep.Count(r.where(), n)
	})
	for _, ts := range byKind {
		rep.Sample(ts[len(ts)/2])
	}
	rep.Print()
}

func main() {
	switch os.Args[1] {
	case "replay":
		replay(os.Args[2:])
	case "record":
		record(os.Args[2])
	}
}

// ---------------------------------------------------------------- record

type step struct {
	Op   map[string]any `json:"op"`
	Res  map[string]any `json:"res"`
	Post [][]int        `json:"post"`
	Nid  int            `json:"nid"`
}

type history struct {
	Kind  string `json:"kind"`
	RO    bool   `json:"ro"`
	Where string `json:"where"`
	Steps []step `json:"steps"`
}

func ints(r kit.Row, n int) []int { return append([]int{}, r[:n]...) }

func record(file string) {
	rep := &kit.Report{}
	acts := strings.Split(os.Getenv("VERIF_ACTS"), ",")
	nh, ns := 2, 40
	if kit.Thorough() {
		nh, ns = 12, 80
	}
	var jobs []job
	for _, e := range flav.All {
		for _, n := range e.Names {
			m := e.Models[n]
			if m.InsertOne == nil || m.Kind == "view" || m.Kind == "stamped" || (m.Kind == "autouniq" && os.Getenv("VERIF_AUTOUNIQ") == "") {
				continue
			}
			for v := 0; v < nh; v++ {
				jobs = append(jobs, job{m, v + int(kit.Seed())*nh})
			}
		}
	}
	out := make([]*history, len(jobs))
	kit.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		rng := kit.Rng("rec" + j.m.Env.Flavour + j.m.Name + strconv.Itoa(j.v))
		r := newRunner(j.m, j.v, rng)
		defer r.st.Close()
		out[i] = r.history(rng, acts, ns, rep)
		rep.Run(1)
	})
	f, err := os.Create(file)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(f)
	for _, h := range out {
		if h != nil {
			if err := enc.Encode(h); err != nil {
				panic(err)
			}
			rep.Count("steps", len(h.Steps))
		}
	}
	f.Close()
	rep.Sample(map[string]any{"where": out[0].Where, "steps": out[0].Steps[:3]})
	rep.Print()
}

func (r *runner) history(rng *rand.Rand, acts []string, n int, rep *kit.Report) *history {
	m := r.m
	h := &history{Kind: m.Kind, RO: m.RO, Where: r.where()}
	r.st.Set(nil, 0)
	auto := strings.HasPrefix(m.Kind, "auto")
	toks := func(role string) int {
		col := m.Role[role]
		switch {
		case col == nil:
			return 1
		case col.Kind == "bool":
			return 2
		}
		return 6
	}
	w2 := func() int { return rng.Intn(toks("w2")+1) - 1 }
	if m.Role["w2"] == nil {
		w2 = func() int { return 0 }
	}
	nid := 0
	// the keys of a model with conflicts are numbered in order of appearance
	canon, actual := map[int]int{}, map[int]int{}
	rec := func(forInsert bool) []int {
		x := make([]int, 4)
		if auto {
			x[0] = 1 + rng.Intn(nid+2)
			if forInsert {
				x[0] = 1
			}
		} else {
			x[0] = rng.Intn(4)
		}
		if m.Role["k2"] != nil {
			x[1] = rng.Intn(2)
		}
		x[2], x[3] = rng.Intn(toks("w1")), w2()
		return x
	}
	for s := 0; s < n; s++ {
		a := acts[rng.Intn(len(acts))]
		op := opRec{Name: a}
		js := map[string]any{"name": a}
		switch a {
		case "insert", "find", "update", "delete":
			op.Row = rec(a == "insert")
			js["row"] = op.Row
		case "batch", "upsert":
			op.Rows = [][]int{}
			for k := rng.Intn(5); k > 0; k-- {
				op.Rows = append(op.Rows, rec(true))
			}
		case "upsertone":
			op.Rows = [][]int{rec(true)}
		}
		if a == "upsert" || a == "upsertone" {
			op.Override = rng.Intn(2) == 0
			op.Omit = []string{}
			if op.Override {
				for _, c := range []string{"w1", "w2"} {
					if rng.Intn(3) == 0 {
						op.Omit = append(op.Omit, c)
					}
				}
			}
			js["override"], js["omit"] = op.Override, op.Omit
			if m.Env.Driver == "postgres" && op.Override {
				seen := map[string]bool{}
				dup := false
				for _, x := range op.Rows {
					k := fmt.Sprint(x[:2])
					if m.Kind == "single" {
						k = fmt.Sprint(x[0])
					} else if m.Kind == "autouniq" {
						k = fmt.Sprint(x[2])
					} else if auto {
						k = fmt.Sprint(len(seen))
					}
					dup = dup || seen[k]
					seen[k] = true
				}
				if dup {
					continue
				}
			}
		}
		if op.Rows != nil {
			js["rows"] = op.Rows
		}
		if m.Kind == "autouniq" && op.Row != nil {
			if a, ok := actual[op.Row[0]]; ok {
				op.Row = append([]int{a}, op.Row[1:]...)
			} else {
				op.Row = append([]int{1 << 20}, op.Row[1:]...)
			}
		}
		o := r.do(op)
		post := normAll(m, r.st.Get())
		if m.Kind == "autouniq" {
			for i := range post {
				if canon[post[i][0]] == 0 {
					n := len(canon) + 1
					canon[post[i][0]], actual[n] = n, post[i][0]
				}
				post[i][0] = canon[post[i][0]]
			}
		}
		st := step{Op: js, Post: [][]int{}}
		for _, p := range post {
			st.Post = append(st.Post, ints(p, 5))
			if auto && p[0] > nid {
				nid = p[0]
			}
		}
		st.Nid = nid
		res := map[string]any{"ok": o.ok}
		if o.panic {
			res["panic"] = true
		}
		if a == "find" {
			x := []int{}
			if o.ok {
				x = ints(m.Norm(o.row), 5)
			} else if !errors.Is(o.err, sql.ErrNoRows) {
				res["panic"] = true
			}
			res["row"] = x
		}
		if a == "batch" {
			res["n"] = o.n
		}
		if o.err != nil {
			res["err"] = o.err.Error()
		}
		st.Res = res
		h.Steps = append(h.Steps, st)
		if o.panic {
			break
		}
	}
	return h
}
