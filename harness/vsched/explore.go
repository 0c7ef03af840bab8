package vsched

import (
	"database/sql"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

// Opts bounds one exploration.
type Opts struct {
	Name     string
	Bound    int           // deviations (preemptions, early timers, select order, map order)
	Horizon  time.Duration // fake time with nobody runnable after which the execution is over
	Quantum  time.Duration // >0: letting this much fake time pass while goroutines are runnable is a deviation
	MaxSteps int           // per execution (livelock guard)
	MaxRuns  int           // cap on executions
	Deadline time.Time     // wall-clock cap
	// FreeSwitch: when the running goroutine blocks, every other runnable goroutine
	// may be next without cost (preemption bounding); otherwise any choice but the
	// first costs one deviation (delay bounding).
	FreeSwitch bool
	OpenDB     func(driver, dsn string) (*sql.DB, error)
	MapOrders  bool // explore map iteration orders (each permutation of <=4 keys is a deviation)
	// Background: the execution is over as soon as the body returned, other
	// goroutines are ended.
	Background bool
	// SiteCap >0: a scheduling point (program site) is one only the first SiteCap
	// times a goroutine passes it since its last Op() (loops over big arrays).
	SiteCap int
}

// Run is what one execution produced.
type Run struct {
	Choices  []Choice
	Steps    int
	Deadlock bool // horizon passed and the body had not returned
	Livelock bool // MaxSteps reached
	Diverged string
	Panics   []Panic
	Fatals   []string
	Servers  int
	Elapsed  time.Duration // fake time
	Trace    []string
}

type Choice struct {
	Kind string
	N    int
	Pick int
	Cost []int // per alternative
	Info string
}

// Stats of an exploration.
type Stats struct {
	Name        string
	Executions  int
	Transitions int
	States      int // nodes of the execution tree visited
	Bound       int // deviations completely explored (-1: not even 0)
	BoundAsked  int
	Exhaustive  bool
	Outcomes    map[string]int
	MaxSteps    int
	PerBound    []int
	Sample      interface{}
	Wall        time.Duration
}

// Failure is a property violation on one execution.
type Failure struct {
	Scenario string
	Msg      string
	Choices  []int
	Trace    []string
}

type traceErr struct{ msg string }

const maxTrace = 400

// progress is bumped on every step; a watchdog uses it.
var progress atomic.Uint64

// runOne executes body once, following prefix, then default choices.
func runOne(t *testing.T, o *Opts, prefix []int, wantTrace bool, body func()) (run Run) {
	if o.Horizon == 0 {
		o.Horizon = time.Hour
	}
	if o.MaxSteps == 0 {
		o.MaxSteps = 20000
	}
	synctest.Test(t, func(t *testing.T) {
		e := newExec()
		e.OpenDB = o.OpenDB
		e.siteCap = o.SiteCap
		start := time.Now()
		idx := 0
		var cmu sync.Mutex
		pick := func(kind string, cost []int, info func() string) int {
			cmu.Lock()
			defer cmu.Unlock()
			n := len(cost)
			p := 0
			if idx < len(prefix) {
				p = prefix[idx]
				if p >= n {
					run.Diverged = fmt.Sprintf("choice %d: %s has %d alternatives, recorded %d", idx, kind, n, p)
					p = 0
				}
			}
			idx++
			c := Choice{Kind: kind, N: n, Pick: p, Cost: cost}
			if wantTrace {
				c.Info = info()
				if len(run.Trace) < maxTrace {
					run.Trace = append(run.Trace, fmt.Sprintf("%s %d/%d %s", kind, p, n, c.Info))
				}
			}
			run.Choices = append(run.Choices, c)
			return p
		}
		noinfo := func() string { return "" }
		e.Choose = func(kind string, n int) int {
			cost := make([]int, n)
			if kind != "data" {
				for i := 1; i < n; i++ {
					cost[i] = 1
				}
			}
			return pick(kind, cost, noinfo)
		}
		if o.MapOrders {
			MapChoice = func(n int) []int {
				if n > 4 {
					return ident(n)
				}
				perms := permutations(n)
				return perms[choose("map", len(perms))]
			}
		} else {
			MapChoice = nil
		}
		cur.Store(e)
		defer cur.Store(nil)
		main := e.spawn("main", body)
		last := main
		retried := false
		for {
			synctest.Wait()
			progress.Add(1)
			e.mu.Lock()
			if !(last.parked && last.yield >= 0) {
				e.prog++
				retried = false
			}
			mainDone := main.done
			var en []*G
			nparked := 0
			alldone := true
			for _, g := range e.gs {
				if !g.done {
					alldone = false
				}
				if g.parked {
					nparked++
					if g.yield < 0 || g.yield != e.prog {
						en = append(en, g)
					}
				}
			}
			fatal := len(e.Fatals) > 0
			panicked := len(e.Panics) > 0
			e.mu.Unlock()
			if alldone || fatal || panicked || (mainDone && o.Background) {
				break
			}
			if nparked > 0 && len(en) == 0 {
				// everybody runnable waits for a lock nobody runnable holds: try once
				// more, then let time pass
				if !retried {
					retried = true
					e.mu.Lock()
					e.prog++
					e.mu.Unlock()
					continue
				}
				retried = false
				if !e.waitTime(o.Horizon) {
					if !mainDone {
						run.Deadlock = true
					}
					break
				}
				e.mu.Lock()
				e.prog++
				e.mu.Unlock()
				continue
			}
			if len(en) == 0 {
				if !e.waitTime(o.Horizon) {
					if !mainDone {
						run.Deadlock = true
					}
					break
				}
				continue
			}
			if e.steps >= o.MaxSteps {
				run.Livelock = true
				break
			}
			// canonical order: running goroutine first, then by id
			sort.Slice(en, func(i, j int) bool {
				if (en[i] == last) != (en[j] == last) {
					return en[i] == last
				}
				return en[i].ID < en[j].ID
			})
			curEnabled := en[0] == last
			cost := make([]int, len(en))
			for i := 1; i < len(en); i++ {
				if curEnabled || !o.FreeSwitch {
					cost[i] = 1
				}
			}
			if o.Quantum > 0 && e.steps > 0 {
				cost = append(cost, 1)
			}
			p := 0
			if len(cost) > 1 {
				p = pick("sched", cost, func() string {
					s := make([]string, 0, len(en))
					for _, g := range en {
						s = append(s, g.Name)
					}
					return strings.Join(s, ",")
				})
			}
			if p == len(en) { // let time pass
				time.Sleep(o.Quantum)
				e.mu.Lock()
				e.steps++
				e.prog++
				e.mu.Unlock()
				continue
			}
			g := en[p]
			last = g
			e.mu.Lock()
			e.steps++
			g.parked = false
			g.yield = -1
			e.mu.Unlock()
			g.ch <- struct{}{}
		}
		run.Elapsed = time.Since(start)
		// end everything
		e.mu.Lock()
		e.killed = true
		run.Steps = e.steps
		e.mu.Unlock()
		close(e.kill)
		for _, f := range e.cleanups {
			f()
		}
		for i := 0; ; i++ {
			synctest.Wait()
			e.mu.Lock()
			var rel []*G
			left := 0
			for _, g := range e.gs {
				if g.parked && len(rel) == 0 { // one after the other
					g.parked = false
					rel = append(rel, g)
				}
				if !g.done {
					left++
				}
			}
			e.mu.Unlock()
			if left == 0 {
				break
			}
			for _, g := range rel {
				g.ch <- struct{}{}
			}
			if len(rel) == 0 {
				if !e.waitTime(24 * time.Hour) {
					buf := make([]byte, 1<<18)
					buf = buf[:runtime.Stack(buf, true)]
					fmt.Fprintf(os.Stderr, "vsched: goroutines cannot be ended:\n%s\n", buf)
					break
				}
			}
		}
		e.mu.Lock()
		dbs := e.dbs
		run.Panics = e.Panics
		run.Fatals = e.Fatals
		e.mu.Unlock()
		for _, db := range dbs {
			db.Close()
		}
	})
	return run
}

// waitTime lets fake time advance until a goroutine parks or d passed.
func (e *Exec) waitTime(d time.Duration) bool {
	select {
	case <-e.wake:
	default:
	}
	// somebody may have parked before the drain: check
	e.mu.Lock()
	for _, g := range e.gs {
		if g.parked && (g.yield < 0 || g.yield != e.prog) {
			e.mu.Unlock()
			return true
		}
	}
	e.mu.Unlock()
	tm := time.NewTimer(d)
	defer tm.Stop()
	select {
	case <-e.wake:
		return true
	case <-tm.C:
		return false
	}
}

// Cleanup registers f to be called when the current execution ends.
func Cleanup(f func()) {
	e := cur.Load()
	if e == nil {
		return
	}
	e.mu.Lock()
	e.cleanups = append(e.cleanups, f)
	e.mu.Unlock()
}

func ident(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	return p
}

func permutations(n int) [][]int {
	var res [][]int
	var rec func(cur, rest []int)
	rec = func(cur, rest []int) {
		if len(rest) == 0 {
			res = append(res, append([]int{}, cur...))
			return
		}
		for i := range rest {
			r := append(append([]int{}, rest[:i]...), rest[i+1:]...)
			rec(append(cur, rest[i]), r)
		}
	}
	rec(nil, ident(n))
	return res
}

// Scenario is one closed system: Body runs as the first controlled goroutine
// and returns what Check needs.
type Scenario struct {
	Opts
	// New returns a fresh body and the check of its execution. The check returns
	// the observed outcome (for counting) and the violation, if any.
	New func() (body func(), check func(r Run) (outcome string, violation string))
}

func picks(c []Choice) []int {
	p := make([]int, len(c))
	for i := range c {
		p[i] = c[i].Pick
	}
	return p
}

func exec(t *testing.T, s *Scenario, prefix []int, trace bool) (Run, string, string) {
	body, check := s.New()
	r := runOne(t, &s.Opts, prefix, trace, body)
	out, v := "", ""
	if r.Diverged != "" {
		return r, "diverged", ""
	}
	for _, p := range r.Panics {
		// a panic in finch code is a violation whatever the property
		v = fmt.Sprintf("panic in goroutine %s: %v\n%s", p.G, p.Val, p.Stack)
		return r, "panic", v
	}
	out, v = check(r)
	return r, out, v
}

type workItem struct {
	prefix []uint16
	cost   int
}

// Explore runs every execution of s within its bounds.
func Explore(t *testing.T, s *Scenario) (st Stats, f *Failure) {
	st = Stats{Name: s.Name, Bound: -1, BoundAsked: s.Bound, Outcomes: map[string]int{}, PerBound: make([]int, s.Bound+1)}
	begin := time.Now()
	defer func() { st.Wall = time.Since(begin) }()
	if s.MaxRuns == 0 {
		s.MaxRuns = 1 << 30
	}
	levels := make([][]workItem, s.Bound+1)
	levels[0] = []workItem{{}}
	diverged := 0
	capped := false
	for b := 0; b <= s.Bound; b++ {
		for len(levels[b]) > 0 {
			if st.Executions >= s.MaxRuns || (!s.Deadline.IsZero() && time.Now().After(s.Deadline)) {
				capped = true
				break
			}
			w := levels[b][len(levels[b])-1]
			levels[b] = levels[b][:len(levels[b])-1]
			prefix := make([]int, len(w.prefix))
			for i, p := range w.prefix {
				prefix[i] = int(p)
			}
			r, out, v := exec(t, s, prefix, false)
			st.Executions++
			st.PerBound[b]++
			st.Transitions += r.Steps
			if r.Steps > st.MaxSteps {
				st.MaxSteps = r.Steps
			}
			st.States += len(r.Choices) - len(prefix) + 1
			if r.Diverged != "" {
				diverged++
				if diverged > 3 {
					t.Logf("%s: %d replays diverged, last: %s", s.Name, diverged, r.Diverged)
				}
				continue
			}
			st.Outcomes[out]++
			if v != "" {
				full := picks(r.Choices)
				// confirm: the same schedule must fail every time
				confirmed := 0
				var last Run
				msg := v
				for i := 0; i < 5; i++ {
					r2, _, v2 := exec(t, s, full, true)
					last = r2
					if v2 != "" && r2.Diverged == "" {
						confirmed++
						msg = v2
					}
				}
				if confirmed == 5 {
					return st, &Failure{Scenario: s.Name, Msg: msg, Choices: full, Trace: last.Trace}
				}
				fmt.Fprintf(os.Stderr, "note: %s: unconfirmed failure (%d/5): %s\n", s.Name, confirmed, v)
				st.Outcomes["unconfirmed"]++
				continue
			}
			if st.Executions == 1 || st.Executions == 64 {
				st.Sample = map[string]interface{}{"scenario": s.Name, "choices": Compact(picks(r.Choices)), "steps": r.Steps, "outcome": cut(out)}
			}
			all := picks(r.Choices)
			for i := len(r.Choices) - 1; i >= len(prefix); i-- {
				c := r.Choices[i]
				for alt := 1; alt < c.N; alt++ {
					cost := w.cost + c.Cost[alt]
					if cost > s.Bound {
						continue
					}
					np := make([]uint16, i+1)
					for j := 0; j < i; j++ {
						np[j] = uint16(all[j])
					}
					np[i] = uint16(alt)
					levels[cost] = append(levels[cost], workItem{np, cost})
				}
			}
		}
		if capped {
			break
		}
		st.Bound = b
	}
	st.Exhaustive = !capped && diverged == 0
	if diverged > 0 {
		st.Outcomes["diverged"] = diverged
		fmt.Fprintf(os.Stderr, "note: %s: %d replays diverged\n", s.Name, diverged)
	}
	return st, nil
}

// Hash shortens an outcome.
func Hash(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("%x", h.Sum64())
}

// Progress counts steps taken so far (for watchdogs).
func Progress() uint64 { return progress.Load() }

func cut(s string) string {
	if len(s) > 500 {
		return s[:500] + "..."
	}
	return s
}

// Compact writes a choice list with trailing defaults dropped.
func Compact(p []int) string {
	for len(p) > 0 && p[len(p)-1] == 0 {
		p = p[:len(p)-1]
	}
	var b strings.Builder
	zeros := 0
	for _, c := range p {
		if c == 0 {
			zeros++
			continue
		}
		if zeros > 0 {
			fmt.Fprintf(&b, "0x%d ", zeros)
			zeros = 0
		}
		fmt.Fprintf(&b, "%d ", c)
	}
	return strings.TrimSpace(b.String())
}
