package kit

import (
	"fmt"
	"os"
	"regexp"
	"runtime"
	"runtime/metrics"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// A replayer that makes no progress, or whose memory grows without end, while
// it is inside the code under test has found an operation that does not end.

var (
	progress atomic.Int64
	peak     atomic.Int64
	current  atomic.Pointer[Report]
	stdout   = os.Stdout
)

func (r *Report) tick() {
	progress.Add(1)
	current.CompareAndSwap(nil, r)
}

var underTest = regexp.MustCompile(`(?m)^(github\.com/si3nloong/sqlgen/|verifws/f/\w+/(db|std|hand|vals|m\w*|q\w*)\.)`)

func cpu() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano())
}

func heap() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// inside returns the stack of a goroutine that is inside the code under test.
func inside(states *regexp.Regexp) string {
	b := make([]byte, 64<<20)
	for _, g := range strings.Split(string(b[:runtime.Stack(b, true)]), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if states.MatchString(head) && underTest.MatchString(g) && !strings.Contains(g, "kit.watch(") {
			if len(g) > 3000 {
				g = g[:3000]
			}
			return g
		}
	}
	return ""
}

var (
	working = regexp.MustCompile(`\[(running|runnable)`)
	waiting = regexp.MustCompile(`\[(sync|semacquire|select|chan|sleep)`)
)

func watch() {
	patience, limit := 150*time.Second, uint64(3)<<30
	if os.Getenv("VERIF_TIER") == "thorough" {
		patience, limit = 600*time.Second, 6<<30
	}
	last, since, used := progress.Load(), time.Now(), cpu()
	for {
		time.Sleep(200 * time.Millisecond)
		h := heap()
		peak.Store(max(peak.Load(), int64(h)))
		if p := progress.Load(); p != last {
			last, since, used = p, time.Now(), cpu()
		}
		what, g := "", ""
		switch idle := time.Since(since); {
		case h > limit:
			what, g = "an operation takes memory without end", inside(working)
		case idle > patience && cpu()-used > patience/2:
			what, g = "an operation does not end", inside(working)
		case idle > patience && cpu()-used < 10*time.Second:
			what, g = "an operation waits for ever", inside(waiting)
		}
		if g == "" {
			continue
		}
		r := current.Load()
		if r == nil {
			r = new(Report)
		}
		r.Add(Violation{Sig: what, Where: underTest.FindString(g), What: what, Detail: fmt.Sprintf("%d MB in use\n%s", h>>20, g)})
		os.Stdout = stdout
		r.Print()
		os.Exit(0)
	}
}

func init() { go watch() }
