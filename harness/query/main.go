// query replays the cases of Query.tla, Order.tla and Bulk.tla into the
// generated query helpers.
package main

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"verifws/engine"
	"verifws/flav"
	"verifws/kit"
)

type job struct {
	m *kit.Model
	v int
}

type copier interface {
	kit.Store
	Copy(table string, rows []kit.Row)
	GetOf(table string) []kit.Row
}

type run struct {
	m, src *kit.Model
	c      kit.Conc
	st     copier
	tag    string
	rng    *rand.Rand
	rep    *kit.Report
}

func newRun(j job, rep *kit.Report) *run {
	r := &run{m: j.m, src: j.m.Src(), rng: kit.Rng(j.m.Env.Flavour + j.m.Name + strconv.Itoa(j.v)), rep: rep}
	st, c, tag := kit.OpenStore(j.m, j.v, r.rng)
	r.st, r.c, r.tag = st.(copier), c, tag
	if e, ok := st.(*kit.EngineStore); ok {
		e.E.Unordered = j.v%2 == 1
	}
	return r
}

func (r *run) where() string { return r.m.Env.Flavour + "/" + r.m.Name }

func (r *run) bad(sig, what string, cs any, format string, a ...any) {
	r.rep.Add(kit.Violation{Sig: sig + ": " + what, Where: r.where(), What: what, Case: cs, Detail: r.tag + " " + fmt.Sprintf(format, a...)})
}

const other = "other_t"

// table gives the FromTable of a request.
func (r *run) table() string {
	if r.m.Kind == "notable" {
		return r.m.Table
	}
	return ""
}

func (r *run) cols(sel []string) []string {
	var out []string
	for _, s := range sel {
		out = append(out, r.src.ColumnName(s))
	}
	return out
}

// sel is what must be selected explicitly.
func (r *run) sel() []string {
	if r.m.Kind == "notable" {
		return r.cols([]string{"k1", "w1", "w2"})
	}
	return nil
}

func ctx() (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), 20*time.Second)
}

func (r *run) query(s kit.SelectStmt) (rows []kit.Row, err error, panicked bool) {
	c, cancel := ctx()
	defer cancel()
	err, panicked = kit.Safely(func() error {
		v, err := r.m.Query(c, r.st.DB(), s)
		if err != nil {
			return err
		}
		rows = r.m.AbsAll(r.c, v)
		return nil
	})
	return
}

func (r *run) queryOne(s kit.SelectStmt) (row kit.Row, err error, panicked bool) {
	c, cancel := ctx()
	defer cancel()
	err, panicked = kit.Safely(func() error {
		v, err := r.m.QueryOne(c, r.st.DB(), s)
		if err != nil {
			return err
		}
		row = r.m.Abs(r.c, v)
		return nil
	})
	return
}

// shuffled inserts the rows in some order.
func (r *run) set(rows []kit.Row) map[int]kit.Row {
	by := map[int]kit.Row{}
	rs := append([]kit.Row{}, rows...)
	r.rng.Shuffle(len(rs), func(i, j int) { rs[i], rs[j] = rs[j], rs[i] })
	for _, x := range rs {
		by[x[0]] = r.m.Norm(x)
	}
	r.st.Set(rs, 9)
	return by
}

func keys(rs []kit.Row) []int {
	out := make([]int, 0, len(rs))
	for _, r := range rs {
		out = append(out, r[0])
	}
	sort.Ints(out)
	return out
}

// ------------------------------------------------------------------ C04

type treeCase struct {
	E    kit.Cond `json:"e"`
	D    int      `json:"d"`
	Want []int    `json:"want"`
	Rows [][]int  `json:"rows"`
}

func (r *run) tree(t *treeCase, by map[int]kit.Row, where kit.Cond) {
	s := kit.SelectStmt{Select: r.sel(), FromTable: r.table(), Where: where.Build(r.src, r.c)}
	got, err, p := r.query(s)
	switch {
	case p:
		r.bad("tree", "the query panics", t, "%v", err)
		return
	case err != nil:
		r.bad("tree", "the query fails", t, "%v", err)
		return
	}
	sort.Ints(t.Want)
	want := append([]int{}, t.Want...)
	if k := keys(got); fmt.Sprint(k) != fmt.Sprint(want) {
		r.bad("tree", "other records than those that satisfy the condition", t, "returned %v", got)
		return
	}
	for _, g := range got {
		if r.m.Norm(g) != by[g[0]] {
			r.bad("tree", "a returned record has other values than the stored one", t, "returned %v stored %v", g, by[g[0]])
			return
		}
	}
	one, err, p := r.queryOne(s)
	switch {
	case p:
		r.bad("tree one", "the query panics", t, "%v", err)
	case len(want) == 0:
		if !errors.Is(err, sql.ErrNoRows) {
			r.bad("tree one", "no record satisfies the condition but no no-rows error is reported", t, "row %v err %v", one, err)
		}
	case err != nil:
		r.bad("tree one", "the query fails", t, "%v", err)
	case sort.SearchInts(want, one[0]) == len(want) || want[sort.SearchInts(want, one[0])] != one[0] || r.m.Norm(one) != by[one[0]]:
		r.bad("tree one", "not a record that satisfies the condition", t, "row %v", one)
	}
}

// ------------------------------------------------------------------ C05

type orderCase struct {
	NF bool      `json:"nf"`
	O  []kit.Ord `json:"o"`
	Q  struct {
		Kind  string   `json:"kind"`
		F     kit.Cond `json:"f"`
		Off   int      `json:"off"`
		Lim   int      `json:"lim"`
		Want  []int    `json:"want"`
		Ranks [][]int  `json:"ranks"`
		Sel   []string `json:"sel"`
		From  string   `json:"from"`
		Got   [][]int  `json:"got"`
		Group []string `json:"group"`
		Rows  [][]int  `json:"rows"`
		One   bool     `json:"one"`
		Of    [][]int  `json:"of"`
		Set   [][]int  `json:"set"`
	} `json:"q"`
}

func (r *run) order(t *orderCase, by map[int]kit.Row) {
	q := &t.Q
	s := kit.SelectStmt{Select: r.sel(), FromTable: r.table(), Where: q.F.Build(r.src, r.c), OrderBy: kit.Orders(r.src, t.O),
		Offset: uint64(q.Off), Limit: uint16(q.Lim)}
	rank := map[int]int{}
	for _, x := range q.Ranks {
		rank[x[0]] = x[1]
	}
	if q.Kind == "one" {
		one, err, p := r.queryOne(s)
		switch {
		case p:
			r.bad("one", "the query panics", t, "%v", err)
		case len(q.Want) == 0:
			if !errors.Is(err, sql.ErrNoRows) {
				r.bad("one", "no no-rows error", t, "row %v err %v", one, err)
			}
		case err != nil:
			r.bad("one", "the query fails", t, "%v", err)
		default:
			if x, ok := rank[one[0]]; !ok || x != 0 || r.m.Norm(one) != by[one[0]] {
				r.bad("one", "not the first record of the sequence", t, "row %v", one)
			}
		}
		return
	}
	got, err, p := r.query(s)
	if p || err != nil {
		r.bad("list", "the query fails or panics", t, "%v", err)
		return
	}
	var ranks []int
	seen := map[int]bool{}
	for _, g := range got {
		x, ok := rank[g[0]]
		if !ok || seen[g[0]] || r.m.Norm(g) != by[g[0]] {
			r.bad("list", "a returned record does not match, is not as stored, or comes twice", t, "returned %v", got)
			return
		}
		seen[g[0]] = true
		ranks = append(ranks, x)
	}
	if fmt.Sprint(ranks) != fmt.Sprint(q.Want) {
		r.bad("list", "wrong sequence of records", t, "returned %v with ranks %v", got, ranks)
	}
}

func multiset(m *kit.Model, ts [][]int) []string {
	var out []string
	for _, x := range kit.Triples(ts) {
		x[4] = 0
		out = append(out, fmt.Sprint(x))
	}
	sort.Strings(out)
	return out
}

func gotset(rs []kit.Row) []string {
	var out []string
	for _, x := range rs {
		x[1], x[4] = 0, 0
		out = append(out, fmt.Sprint(x))
	}
	sort.Strings(out)
	return out
}

// columns and tables as requested, only for models whose columns are alike
func (r *run) columns(t *orderCase) {
	q := &t.Q
	s := kit.SelectStmt{Select: r.cols(q.Sel), Where: q.F.Build(r.src, r.c)}
	switch q.From {
	case "own":
		s.FromTable = r.table()
		if strings.Join(q.Sel, " ") == "k1 w1 w2" && r.m.Kind != "notable" {
			s.Select = nil
		}
	case "other":
		s.FromTable = other
	case "missing":
		if r.m.Kind != "notable" {
			return
		}
	}
	if e, ok := r.st.(*kit.EngineStore); ok {
		e.Statements()
	}
	got, err, p := r.query(s)
	if q.From == "missing" {
		_, err1, p1 := r.queryOne(s)
		if p || p1 || err == nil || err1 == nil || errors.Is(err1, sql.ErrNoRows) {
			r.bad("columns", "a model without table is not reported", t, "errors %v, %v", err, err1)
		}
		if e, ok := r.st.(*kit.EngineStore); ok && e.Statements() > 0 {
			r.bad("columns", "a statement is sent for a model without table", t, "")
		}
		return
	}
	if p || err != nil {
		r.bad("columns", "the query fails or panics", t, "%v", err)
		return
	}
	if fmt.Sprint(gotset(got)) != fmt.Sprint(multiset(r.m, q.Got)) {
		r.bad("columns", "not the requested columns of the requested table", t, "returned %v", got)
	}
}

func (r *run) group(t *orderCase) {
	q := &t.Q
	r.st.Set(kit.Triples(q.Rows), 0)
	got, err, p := r.query(kit.SelectStmt{Select: r.sel(), FromTable: r.table(), Where: q.F.Build(r.src, r.c), GroupBy: r.cols(q.Group)})
	if p || err != nil {
		r.bad("group", "the query fails or panics", t, "%v", err)
		return
	}
	if fmt.Sprint(gotset(got)) != fmt.Sprint(multiset(r.m, q.Set)) {
		r.bad("group", "not one record per group", t, "returned %v", got)
	}
}

// one record per group: grouped columns and the greatest of the others
func (r *run) agg(t *orderCase) {
	q := &t.Q
	by := map[string]bool{}
	for _, g := range q.Group {
		by[g] = true
	}
	sel := r.cols([]string{"k1", "w1", "w2"})
	for i, n := range []string{"k1", "w1", "w2"} {
		if !by[n] {
			sel[i] = "MAX(" + sel[i] + ")"
		}
	}
	s := kit.SelectStmt{Select: sel, FromTable: r.table(), Where: q.F.Build(r.src, r.c), GroupBy: r.cols(q.Group), OrderBy: kit.Orders(r.src, t.O),
		Offset: uint64(q.Off), Limit: uint16(q.Lim)}
	rank := map[string]int{}
	for _, x := range q.Of {
		rank[fmt.Sprint(x[:3])] = x[3]
	}
	of := func(g kit.Row) string { return fmt.Sprint([]int{g[0], g[2], g[3]}) }
	if q.One {
		one, err, p := r.queryOne(s)
		switch {
		case p:
			r.bad("group", "the query of one group panics", t, "%v", err)
		case len(q.Want) == 0:
			if !errors.Is(err, sql.ErrNoRows) {
				r.bad("group", "no no-rows error without groups", t, "row %v err %v", one, err)
			}
		case err != nil:
			r.bad("group", "the query of one group fails", t, "%v", err)
		default:
			if x, ok := rank[of(one)]; !ok || x != 0 {
				r.bad("group", "not the first of the groups", t, "row %v", one)
			}
		}
		return
	}
	got, err, p := r.query(s)
	if p || err != nil {
		r.bad("group", "the query of groups fails or panics", t, "%v", err)
		return
	}
	var ranks []int
	seen := map[string]bool{}
	for _, g := range got {
		x, ok := rank[of(g)]
		if !ok || seen[of(g)] {
			r.bad("group", "a record is not a group or comes twice", t, "returned %v", got)
			return
		}
		seen[of(g)] = true
		ranks = append(ranks, x)
	}
	if fmt.Sprint(ranks) != fmt.Sprint(q.Want) {
		r.bad("group", "wrong sequence of groups", t, "returned %v with ranks %v", got, ranks)
	}
}

// ------------------------------------------------------------------ C06

type bulkCase struct {
	NF  bool    `json:"nf"`
	Pre [][]int `json:"pre"`
	Op  struct {
		Name string       `json:"name"`
		F    kit.Cond     `json:"f"`
		Set  []kit.SetTok `json:"set"`
		O    []kit.Ord    `json:"o"`
		Lim  int          `json:"lim"`
	} `json:"op"`
	Post [][]int `json:"post"`
	N    int     `json:"n"`
}

func (r *run) bulk(t *bulkCase) {
	r.set(kit.Triples(t.Pre))
	norm := func(rs []kit.Row) []kit.Row {
		out := make([]kit.Row, 0, len(rs))
		for _, x := range rs {
			out = append(out, r.m.Norm(x))
		}
		kit.SortRows(out)
		return out
	}
	// a table named in the statement is the one that changes
	table, elsewhere := r.table(), false
	if r.rng.Intn(4) == 0 {
		table, elsewhere = other, true
		r.st.Copy(other, kit.Triples(t.Pre))
		r.set(kit.Triples(t.Pre))
	}
	u := kit.UpdStmt{Table: table, Where: t.Op.F.Build(r.src, r.c), OrderBy: kit.Orders(r.src, t.Op.O), Limit: uint16(t.Op.Lim), Set: kit.Sets(r.src, r.c, t.Op.Set)}
	c, cancel := ctx()
	defer cancel()
	var res sql.Result
	err, p := kit.Safely(func() (err error) {
		if t.Op.Name == "update" {
			res, err = r.m.ExecUpd(c, r.st.DB(), u)
		} else {
			res, err = r.m.ExecDel(c, r.st.DB(), u)
		}
		return err
	})
	sig := t.Op.Name
	if elsewhere {
		sig += " of another table"
	}
	if p || err != nil {
		r.bad(sig, "the statement fails or panics", t, "%v", err)
		return
	}
	got, own := r.st.Get(), r.st.Get()
	if elsewhere {
		got = r.st.GetOf(other)
		if !reflect.DeepEqual(norm(own), norm(kit.Triples(t.Pre))) {
			r.bad(sig, "the model's own table changed", t, "own %v", own)
			return
		}
	}
	if !reflect.DeepEqual(norm(got), norm(kit.Triples(t.Post))) {
		r.bad(sig, "wrong table content", t, "table %v", got)
		return
	}
	n, err := res.RowsAffected()
	if err != nil {
		r.bad(sig, "no count", t, "%v", err)
		return
	}
	if int(n) != t.N {
		r.bad(sig, "wrong count of affected records", t, "reported %d", n)
	}
}

// ------------------------------------------------------------------ C07

type pageCase struct {
	NF  bool `json:"nf"`
	Cfg struct {
		F     kit.Cond  `json:"f"`
		O     []kit.Ord `json:"o"`
		Lim   int       `json:"lim"`
		Fwd   bool      `json:"fwd"`
		Start []int     `json:"start"`
	} `json:"cfg"`
	Pages [][][]int `json:"pages"`
	End   string    `json:"end"`
}

func (r *run) pager(t *pageCase) {
	q := &t.Cfg
	st := kit.PageStmt{Where: q.F.Build(r.src, r.c), OrderBy: kit.Orders(r.src, q.O), Limit: uint16(q.Lim)}
	var cursor any
	if len(q.Start) > 0 {
		row := kit.Triples([][]int{q.Start})[0]
		if r.rng.Intn(2) == 0 { // only the key counts
			row[2], row[3] = 1-row[2], 0
		}
		cursor = r.m.Make(r.c, row)
	}
	var want []string
	for _, p := range t.Pages {
		for _, x := range kit.Triples(p) {
			want = append(want, fmt.Sprint(r.m.Norm(x)))
		}
	}
	e, _ := r.st.(*kit.EngineStore)
	boom := errors.New("boom")
	seen, hits := 0, 0
	if e != nil {
		e.E.Record = true
		e.E.TakeEvents()
		if t.End == "failed" {
			op := []string{"query", "next"}[r.rng.Intn(2)]
			e.E.Fault = func(p engine.FaultPoint) error {
				if seen == len(t.Pages) && p.Op == op {
					hits++
					return boom
				}
				return nil
			}
			defer func() { e.E.Fault = nil }()
		}
	} else if t.End == "failed" {
		return
	}
	var got []string
	var errs []error
	after, size := 0, ""
	c, cancel := ctx()
	defer cancel()
	err, p := kit.Safely(func() error {
		r.m.Pages(c, r.st.DB(), st, !q.Fwd, cursor, func(rows any, err error) bool {
			if len(errs) > 0 {
				after++
			}
			if err != nil {
				errs = append(errs, err)
				return len(errs) < 5
			}
			rs := r.m.AbsAll(r.c, rows)
			if len(rs) > q.Lim {
				size = fmt.Sprintf("page %d has %d records", seen+1, len(rs))
			}
			for _, x := range rs {
				got = append(got, fmt.Sprint(r.m.Norm(x)))
			}
			seen++
			return !(t.End == "stopped" && seen == len(t.Pages)) && seen < 40
		})
		return nil
	})
	sig := "next"
	if !q.Fwd {
		sig = "prev"
	}
	if e != nil {
		evs := e.E.TakeEvents()
		if n := e.E.OpenRows(); n > 0 {
			r.bad(sig, "the iteration leaves a result set open", t, "%d open", n)
		}
		if t.End == "stopped" && len(evs) > len(t.Pages)+1 {
			r.bad(sig, "statements are sent after the consumer stopped", t, "%d statements", len(evs))
		}
	}
	switch {
	case p:
		r.bad(sig, "the iteration panics", t, "%v", err)
	case t.End == "failed" && hits == 0:
		// the failing step was not reached, e.g. no row to read
		if len(errs) > 0 || fmt.Sprint(got) != fmt.Sprint(want) && len(got) < len(want) {
			r.bad(sig, "the iteration fails", t, "%v", errs)
		}
	case t.End == "failed":
		if len(errs) != 1 || after > 0 || !errors.Is(errs[0], boom) {
			r.bad(sig, "a database error is not reported exactly once", t, "errors %v, %d more yields", errs, after)
		} else if fmt.Sprint(got) != fmt.Sprint(want) {
			r.bad(sig, "wrong records before the error", t, "%v", got)
		}
	case len(errs) > 0:
		r.bad(sig, "the iteration fails", t, "%v", errs[0])
	case size != "":
		r.bad(sig, "a page is larger than the limit", t, "%s", size)
	case fmt.Sprint(got) != fmt.Sprint(want):
		r.bad(sig, "wrong sequence of records", t, "got %v want %v", got, want)
	}
}

// ------------------------------------------------------------------ main

func pick(rng *rand.Rand, n, max int) []int {
	p := rng.Perm(n)
	if len(p) > max {
		p = p[:max]
	}
	return p
}

func main() {
	rep := &kit.Report{}
	mode, files := os.Args[1], os.Args[2:]
	variants := 2
	scale := 1
	if kit.Thorough() {
		variants, scale = 8, 8
	}
	var jobs []job
	for _, e := range flav.All {
		for _, n := range e.Names {
			m := e.Models[n]
			if (m.Hand && m.Like == "") || m.Kind == "autouniq" || m.Role["w2"] == nil {
				continue
			}
			for v := 0; v < variants; v++ {
				jobs = append(jobs, job{m, v + int(kit.Seed()-1)*variants})
			}
		}
	}
	switch mode {
	case "tree":
		ts := kit.Lines[treeCase](files[0])
		table := kit.Lines[treeCase](files[1])[0].Rows
		rep.Distinct = len(ts)
		kit.Parallel(len(jobs), func(i int) {
			r := newRun(jobs[i], rep)
			defer r.st.Close()
			by := r.set(kit.Triples(table))
			max := 1500 * scale
			if r.m.Env.Driver == "sqlite" {
				max = 700 * scale
			}
			n := 0
			for _, x := range pick(r.rng, len(ts), 3*max) {
				if n >= max {
					break
				}
				t := ts[x]
				if !t.E.Fits(r.m.Src(), r.c) {
					continue
				}
				r.tree(&t, by, t.E)
				n++
			}
			rep.Run(n)
			rep.Count(r.where(), n)
		})
		rep.Sample(ts[len(ts)/2])
	case "order":
		by := map[bool][]orderCase{}
		for _, f := range files[:len(files)-1] {
			for _, t := range kit.Lines[orderCase](f) {
				by[t.NF] = append(by[t.NF], t)
				rep.Distinct++
			}
		}
		tables := kit.Lines[map[string][][]int](files[len(files)-1])[0]
		kit.Parallel(len(jobs), func(i int) {
			r := newRun(jobs[i], rep)
			defer r.st.Close()
			alike := r.m.Name == "Twins" || r.m.Kind == "notable"
			if alike {
				r.st.Copy(other, kit.Triples(tables["other"]))
			}
			rows := r.set(kit.Triples(tables["rows"]))
			ts := by[r.m.Env.Driver != "postgres"]
			max := 1200 * scale
			if r.m.Env.Driver == "sqlite" {
				max = 600 * scale
			}
			n := 0
			var groups []*orderCase
			for _, x := range pick(r.rng, len(ts), 1<<30) {
				t := ts[x]
				if !t.Q.F.Fits(r.src, r.c) {
					continue
				}
				switch t.Q.Kind {
				case "cols":
					if alike {
						r.columns(&t)
						n++
					}
				case "agg":
					if max--; alike && max > 0 {
						r.agg(&t)
						n++
					}
				case "group":
					if r.m.Kind == "notable" || r.m.Kind == "view" && r.m.Role["r1"] == nil {
						groups = append(groups, &t)
					}
				default:
					if max--; max > 0 {
						r.order(&t, rows)
						n++
					}
				}
			}
			for _, t := range groups {
				r.group(t)
				n++
			}
			rep.Run(n)
			rep.Count(r.where(), n)
		})
		for _, ts := range by {
			rep.Sample(ts[len(ts)/2])
		}
	case "pager":
		type key struct{ nf, comp bool }
		by := map[key][]pageCase{}
		for _, f := range files[:len(files)-1] {
			for _, t := range kit.Lines[pageCase](f) {
				k := key{t.NF, strings.Contains(f, "pager_comp")}
				by[k] = append(by[k], t)
				rep.Distinct++
			}
		}
		tables := kit.Lines[map[string][][]int](files[len(files)-1])[0]
		kit.Parallel(len(jobs), func(i int) {
			r := newRun(jobs[i], rep)
			defer r.st.Close()
			if r.m.Pages == nil {
				return
			}
			k := key{r.m.Env.Driver != "postgres", r.m.Kind == "comp"}
			if k.comp {
				r.set(kit.Triples(tables["comp"]))
			} else {
				r.set(kit.Triples(tables["single"]))
			}
			ts := by[k]
			max := 1500 * scale
			if r.m.Env.Driver == "sqlite" {
				max = 600 * scale
			}
			n := 0
			for _, x := range pick(r.rng, len(ts), max) {
				t := ts[x]
				if t.Cfg.F.Fits(r.src, r.c) {
					r.pager(&t)
					n++
				}
			}
			rep.Run(n)
			rep.Count(r.where(), n)
		})
		for _, ts := range by {
			rep.Sample(ts[len(ts)/2])
		}
	case "bulk":
		var ts []bulkCase
		for _, f := range files {
			ts = append(ts, kit.Lines[bulkCase](f)...)
		}
		rep.Distinct = len(ts)
		kit.Parallel(len(jobs), func(i int) {
			r := newRun(jobs[i], rep)
			defer r.st.Close()
			max := 1200 * scale
			if r.m.Env.Driver == "sqlite" {
				max = 500 * scale
			}
			n := 0
			for _, x := range pick(r.rng, len(ts), 1<<30) {
				if n >= max {
					break
				}
				t := ts[x]
				if !t.Op.F.Fits(r.src, r.c) {
					continue
				}
				// only MySQL orders and limits these statements; it sorts null first
				if r.m.Env.Driver != "mysql" && (len(t.Op.O) > 0 || t.Op.Lim > 0) {
					continue
				}
				r.bulk(&t)
				n++
			}
			rep.Run(n)
			rep.Count(r.where(), n)
		})
		rep.Sample(ts[len(ts)/2])
	}
	rep.Print()
}
