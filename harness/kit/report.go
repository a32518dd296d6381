package kit

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
)

// Report collects what a replayer did. It is printed as JSON on stdout.
type Report struct {
	mu         sync.Mutex
	Runs       int            `json:"runs"`
	Distinct   int            `json:"distinct"`
	Violations []Violation    `json:"violations"`
	Total      int            `json:"total_violations"`
	Counts     map[string]int `json:"counts"`
	Samples    []any          `json:"samples"`
	Peak       int64          `json:"peak_mb"`
}

// Violation is a disagreement between the specification and the code.
type Violation struct {
	Sig    string `json:"sig"`    // groups alike violations
	Where  string `json:"where"`  // flavour/model
	What   string `json:"what"`   // what disagrees
	Case   any    `json:"case"`   // the abstract case
	Detail string `json:"detail"` // concrete values
}

// Add records one violation, keeping a few of each signature.
func (r *Report) Add(v Violation) {
	r.tick()
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Total++
	n := 0
	for _, w := range r.Violations {
		if w.Sig == v.Sig && w.Where == v.Where {
			n++
		}
	}
	if n < 2 && len(r.Violations) < 400 {
		r.Violations = append(r.Violations, v)
	}
}

// Count adds to a counter.
func (r *Report) Count(k string, n int) {
	r.tick()
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.Counts == nil {
		r.Counts = map[string]int{}
	}
	r.Counts[k] += n
}

// Run counts an execution.
func (r *Report) Run(n int) {
	r.tick()
	r.mu.Lock()
	r.Runs += n
	r.mu.Unlock()
}

// Sample keeps a few cases.
func (r *Report) Sample(v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.Samples) < 6 {
		r.Samples = append(r.Samples, v)
	}
}

// Print writes the report.
func (r *Report) Print() {
	r.Peak = peak.Load() >> 20
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(append(b, '\n'))
}

// Seed is VERIF_SEED.
func Seed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

// Rng is a generator derived from the seed and a name.
func Rng(name string) *rand.Rand {
	h := Seed() * 1000003
	for _, c := range name {
		h = h*31 + int64(c)
	}
	return rand.New(rand.NewSource(h))
}

// Thorough tells the tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Lines reads a file written by TLC (each line a JSON text inside a JSON
// string) and decodes every line.
func Lines[T any](file string) []T {
	f, err := os.Open(file)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	var out []T
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		b := sc.Bytes()
		if len(b) == 0 {
			continue
		}
		if b[0] == '"' {
			var s string
			if err := json.Unmarshal(b, &s); err != nil {
				panic(err)
			}
			b = []byte(s)
		}
		var v T
		if err := json.Unmarshal(b, &v); err != nil {
			panic(fmt.Sprintf("%v: %s", err, b))
		}
		out = append(out, v)
	}
	if sc.Err() != nil {
		panic(sc.Err())
	}
	return out
}

// Safely runs f and turns a panic into an error.
func Safely(f func() error) (err error, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			err, panicked = fmt.Errorf("panic: %v", r), true
		}
	}()
	return f(), false
}

// Parallel runs f(0..n-1) on several goroutines.
func Parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}
