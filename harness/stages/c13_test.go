package stages

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/square/finch/config"
	"github.com/square/finch/data"

	"finchverif/fakedb"
	"finchverif/fin"
	"finchverif/report"
	"finchverif/vsched"
)

// boom is a data generator that panics on its n-th value.
func init() { data.Register("boom", boomFactory{}) }

type boomFactory struct{}

func (boomFactory) Make(name, key string, params map[string]string) (data.Generator, error) {
	return &boom{}, nil
}

type boom struct{ n int }

func (g *boom) Format() (uint, string)     { return 1, "%v" }
func (g *boom) Copy() data.Generator       { return &boom{} }
func (g *boom) Scan(any interface{}) error { return nil }
func (g *boom) Name() string               { return "boom" }
func (g *boom) Values(rc data.RunCount) []interface{} {
	g.n++
	if g.n == 2 && rc[data.CLIENT] == 1 {
		panic("boom")
	}
	return []interface{}{g.n}
}

// sgroup is a client group: clients, its iterations (0: no limit), its runtime,
// how long each statement takes and how its first client fails.
type sgroup struct {
	eg      int
	clients int
	iter    int
	runtime time.Duration
	delay   time.Duration
	fail    string // "": not, "abort": 2nd statement and the rollback fail, "panic": 2nd statement's data panics, "prepare", "use": when connecting
}

type shape struct {
	groups  []sgroup
	runtime time.Duration // of the stage
	cancel  time.Duration // the run is cancelled then
	slow    bool          // statements aren't cut off by cancellation
	refuse  bool          // no connection is ever accepted
}

func (s shape) String() string {
	return fmt.Sprintf("%+v stage runtime %s cancelled %s slow %v refused %v", s.groups, s.runtime, s.cancel, s.slow, s.refuse)
}

func (s shape) yaml() (string, map[string]string) {
	y := "stage:\n  name: s\n"
	if s.runtime > 0 {
		y += fmt.Sprintf("  runtime: %s\n", s.runtime)
	}
	y += "  trx:\n"
	files := map[string]string{}
	for i, g := range s.groups {
		y += fmt.Sprintf("    - file: f%d\n      data:\n        who%d:\n          generator: who\n        b%d:\n          generator: boom\n", i, i, i)
		f := fmt.Sprintf("SELECT 'g%d', @who%d", i, i)
		switch g.fail {
		case "panic":
			f = fmt.Sprintf("SELECT 'g%d', @b%d, @who%d", i, i, i)
		case "prepare":
			f = fmt.Sprintf("-- prepare\nSELECT 'g%d', @who%d", i, i)
		}
		files[fmt.Sprintf("f%d", i)] = f + "\n"
	}
	y += "  workload:\n"
	for i, g := range s.groups {
		y += fmt.Sprintf("    - clients: %d\n      group: e%d\n      trx: [f%d]\n      db: g%d\n", g.clients, g.eg, i, i)
		if g.iter > 0 {
			y += fmt.Sprintf("      iter: %d\n", g.iter)
		}
		if g.runtime > 0 {
			y += fmt.Sprintf("      runtime: %s\n", g.runtime)
		}
	}
	return y, files
}

// plan: what each client group's clients do, and when.
type planned struct {
	start  time.Duration
	counts []int // statements started, per client (sorted)
	end    time.Duration
}

const forever = 1000 * time.Hour

// predict is the timeline; ok is false if it would never end.
func (s shape) predict() (ps []planned, end time.Duration, ok bool) {
	stop := forever
	if s.runtime > 0 {
		stop = s.runtime
	}
	if s.cancel > 0 && s.cancel < stop {
		stop = s.cancel
	}
	t := time.Duration(0)
	for i := 0; i < len(s.groups); {
		egEnd := t
		j := i
		for ; j < len(s.groups) && s.groups[j].eg == s.groups[i].eg; j++ {
			g := s.groups[j]
			p := planned{start: t}
			dead := stop
			if g.runtime > 0 && t+g.runtime < dead {
				dead = t + g.runtime
			}
			for c := 1; c <= g.clients; c++ {
				if t >= stop {
					p.counts = append(p.counts, 0)
					continue
				}
				n := 0
				e := t
				fails := g.fail != "" && c == 1
				switch {
				case s.refuse:
					e = dead
				case fails && (g.fail == "use" || g.fail == "prepare"):
				default:
					for {
						if g.iter > 0 && n == g.iter || fails && n == 1 && g.fail == "panic" {
							break
						}
						if e > dead {
							break
						}
						n++
						if e+g.delay > dead && !s.slow {
							e = dead
							break
						}
						e += g.delay
						if fails && n == 2 && g.fail == "abort" {
							break
						}
						if n > 10000 {
							return nil, 0, false
						}
					}
				}
				if e >= forever {
					return nil, 0, false
				}
				p.counts = append(p.counts, n)
				if e > p.end {
					p.end = e
				}
			}
			sort.Ints(p.counts)
			if p.end > egEnd {
				egEnd = p.end
			}
			ps = append(ps, p)
		}
		t = egEnd
		i = j
	}
	return ps, t, true
}

type shapeRun struct {
	s      shape
	t0     time.Time
	endAt  time.Duration
	ended  bool
	counts map[int]int // conn -> statements
	late   string
}

func (s shape) scenario(cfg config.Stage, name string, bound int, exact bool) *vsched.Scenario {
	return &vsched.Scenario{
		Opts: vsched.Opts{Name: name, Bound: bound, Background: true, MaxSteps: 100000, Horizon: time.Hour},
		New: func() (func(), func(vsched.Run) (string, string)) {
			r := &shapeRun{s: s, counts: map[int]int{}}
			first := map[int]int{} // group -> first connection using it
			ng := map[int]int{}    // conn -> group
			db := &fakedb.DB{}
			db.Answer = func(e *fakedb.Event) (a fakedb.Answer) {
				if e.Kind == "connect" && s.refuse && e.Seq > 2 {
					a.Err = fakedb.MyErr(1040)
					return a
				}
				if strings.HasPrefix(e.SQL, "USE ") {
					var g int
					fmt.Sscanf(e.SQL, "USE `g%d`", &g)
					ng[e.Conn] = g
					if _, ok := first[g]; !ok {
						first[g] = e.Conn
						if s.groups[g].fail == "use" {
							a.Err = fakedb.MyErr(1049)
						}
					}
					return a
				}
				g, ok := ng[e.Conn]
				if e.Kind == "prepare" && ok && first[g] == e.Conn && s.groups[g].fail == "prepare" {
					a.Err = fakedb.MyErr(1064)
					return a
				}
				if e.Kind != "query" && e.Kind != "exec" && e.Kind != "squery" && e.Kind != "sexec" {
					return a
				}
				if !ok {
					return a
				}
				if e.SQL == "ROLLBACK" {
					a.Err = fakedb.MyErr(1290)
					return a
				}
				r.counts[e.Conn]++
				a = fin.OneRow("1")
				a.Delay = s.groups[g].delay
				a.NoCtx = s.slow
				if s.groups[g].fail == "abort" && first[g] == e.Conn && r.counts[e.Conn] == 2 {
					a.Err = fakedb.MyErr(1205) // rolled back, which fails too
				}
				return a
			}
			vsched.OpenDB = db.OpenFn()
			var err error
			body := func() {
				ctx, cancel := context.WithCancel(context.Background())
				if s.cancel > 0 {
					ctx, cancel = context.WithTimeout(context.Background(), s.cancel)
				}
				defer cancel()
				r.t0 = time.Now()
				err = fin.RunStage(ctx, cfg, data.NewScope(), nil)
				r.endAt = time.Since(r.t0)
				r.ended = true
				// whatever is still running may finish
				if exact {
					time.Sleep(10 * time.Second)
				}
			}
			return body, func(x vsched.Run) (string, string) {
				if err != nil {
					return "err", "stage failed: " + err.Error() + "\n" + s.String()
				}
				if !r.ended {
					return "stuck", "the stage does not end\n" + s.String()
				}
				o, v := r.judge(db.Events(), ng, first, exact)
				if v != "" {
					v += "\n" + s.String()
				}
				return o, v
			}
		},
	}
}

func (r *shapeRun) judge(evs []fakedb.Event, ng map[int]int, first map[int]int, exact bool) (string, string) {
	s := r.s
	ps, end, ok := s.predict()
	if !ok {
		panic("unpredictable shape")
	}
	slack := 300 * time.Millisecond
	if s.refuse {
		slack += 700 * time.Millisecond // an attempt to connect and the wait before the next
	}
	stop := forever
	if s.runtime > 0 {
		stop = s.runtime
	}
	if s.cancel > 0 && s.cancel < stop {
		stop = s.cancel
	}
	if r.endAt > end+slack {
		return "", fmt.Sprintf("the stage ends after %s, everything is done after %s", r.endAt, end)
	}
	if r.endAt > stop+slack {
		return "", fmt.Sprintf("the stage ends after %s, it is stopped after %s", r.endAt, stop)
	}
	if r.endAt < end && r.endAt < stop {
		return "", fmt.Sprintf("the stage ends after %s, its clients are done only after %s", r.endAt, end)
	}
	if s.refuse {
		return fmt.Sprint(r.endAt), ""
	}
	got := make([][]int, len(s.groups))
	who := map[string]int{}
	egFirst := map[int]int{}
	egLast := map[int]int{}
	for _, e := range evs {
		g, ok := ng[e.Conn]
		if !ok {
			continue
		}
		eg := s.groups[g].eg
		if _, ok := egFirst[eg]; !ok {
			egFirst[eg] = e.Seq
		}
		if e.Seq > egLast[eg] {
			egLast[eg] = e.Seq
		}
		at := e.At.Sub(r.t0)
		if e.Kind != "close" && e.Kind != "sclose" && at > stop {
			return "", fmt.Sprintf("%s %s %s after the stage was to end", e.Kind, e.SQL, at-stop)
		}
		for _, a := range append([]string{e.SQL}, e.Args...) {
			if i := strings.Index(a, "s1.e"); i >= 0 {
				w, ok := fin.ParseWho(a[i:])
				if !ok {
					return "", "unexpected statement " + e.SQL
				}
				if p, ok := who[w.Client()]; ok && p != e.Conn {
					return "", "client " + w.Client() + " runs on two connections"
				}
				who[w.Client()] = e.Conn
			}
		}
		if exact && strings.HasPrefix(e.SQL, "USE ") && at != ps[g].start {
			return "", fmt.Sprintf("a client of group %d starts after %s, its execution group after %s", g+1, at, ps[g].start)
		}
	}
	// connections of an execution group are closed before the next one begins
	for i := range s.groups {
		eg := s.groups[i].eg
		if i+1 < len(s.groups) && s.groups[i+1].eg != eg {
			if f, ok := egFirst[s.groups[i+1].eg]; ok && f < egLast[eg] {
				return "", fmt.Sprintf("execution group %d starts (event %d) before group %d is done (event %d)", s.groups[i+1].eg, f, eg, egLast[eg])
			}
		}
	}
	conns := make([]int, len(s.groups))
	for c, g := range ng {
		conns[g]++
		got[g] = append(got[g], r.counts[c])
		_ = c
	}
	for g := range s.groups {
		for len(got[g]) < s.groups[g].clients && ps[g].start >= stop {
			got[g] = append(got[g], 0) // never connected
		}
		sort.Ints(got[g])
		if len(got[g]) != s.groups[g].clients {
			return "", fmt.Sprintf("client group %d: %d clients ran, %d configured", g+1, len(got[g]), s.groups[g].clients)
		}
		if exact && fmt.Sprint(got[g]) != fmt.Sprint(ps[g].counts) {
			return "", fmt.Sprintf("client group %d: its clients execute %v statements, %v expected", g+1, got[g], ps[g].counts)
		}
		if !exact {
			// only the failing client may do less
			for k, n := range got[g] {
				if k > 0 || s.groups[g].fail == "" {
					if s.groups[g].iter > 0 && stop == forever && s.groups[g].runtime == 0 && n != s.groups[g].iter {
						return "", fmt.Sprintf("client group %d: its clients execute %v statements, %d each expected", g+1, got[g], s.groups[g].iter)
					}
				}
			}
		}
	}
	return fmt.Sprint(got, r.endAt), ""
}

func TestC13(t *testing.T) {
	ms := time.Millisecond
	one := func(c *report.Ctx, l *loader, s shape, bound int) {
		if c.TimeUp() || c.Violated() {
			return
		}
		if _, _, ok := s.predict(); !ok {
			return
		}
		y, files := s.yaml()
		cfg, err := l.load(y, files)
		if err != nil {
			c.Violate("rejected", "valid stage rejected: "+err.Error()+"\n"+y, y)
			return
		}
		sc := s.scenario(cfg, s.String(), bound, bound == 0)
		if bound > 0 {
			c.Explore(sc)
			return
		}
		st, f := vsched.Explore(c.T, sc)
		c.State(st.States, st.Transitions, st.Executions)
		for o := range st.Outcomes {
			c.Case(o)
		}
		if f != nil {
			c.Violate(strings.SplitN(f.Msg, "\n", 2)[0], f.Msg, map[string]interface{}{"yaml": y, "trx": files})
		}
	}
	us := time.Microsecond
	ends := []shape{{}, {runtime: 4517 * us}, {cancel: 4517 * us}, {runtime: 13513 * us}, {cancel: 2511 * us, runtime: 6523 * us}, {runtime: 4517 * us, slow: true}, {cancel: 4517 * us, slow: true}}
	var gs []sgroup
	for _, cl := range []int{1, 2} {
		for _, it := range []int{0, 1, 3} {
			for _, rt := range []time.Duration{0, 2707 * us, 8311 * us} {
				for _, f := range []string{"", "abort", "panic", "prepare", "use"} {
					gs = append(gs, sgroup{clients: cl, iter: it, runtime: rt, fail: f, delay: ms})
				}
			}
		}
	}
	var small []sgroup
	for _, g := range gs {
		if (g.iter == 0) != (g.runtime > 0) || g.runtime > 5*ms || g.fail == "prepare" || g.fail == "use" {
			continue
		}
		small = append(small, g)
	}
	var units []report.Unit
	for i := range ends {
		e := ends[i]
		units = append(units, report.Unit{Name: fmt.Sprintf("timeline %d", i), Run: func(c *report.Ctx) {
			l := newLoader(c.T)
			for _, a := range gs {
				s := e
				a.eg = 1
				s.groups = []sgroup{a}
				one(c, l, s, 0)
				s.refuse = true
				if !s.slow {
					one(c, l, s, 0)
				}
			}
			for _, a := range gs { // one statement runs on for 5 s
				if e.slow {
					s := e
					a.eg, a.delay = 1, 5*time.Second
					s.groups = []sgroup{a}
					one(c, l, s, 0)
					s.groups = []sgroup{a, {eg: 2, clients: 1, iter: 1, delay: ms}}
					one(c, l, s, 0)
				}
			}
			for _, a := range gs {
				for _, b := range small {
					for _, eg := range []int{1, 2} {
						a.eg, b.eg = 1, eg
						b.delay = 1700 * us
						s := e
						s.groups = []sgroup{a, b}
						one(c, l, s, 0)
						if eg == 2 || c.Thorough() {
							s.groups = []sgroup{b, a}
							s.groups[0].eg, s.groups[1].eg = 1, eg
							one(c, l, s, 0)
						}
					}
				}
			}
			for _, a := range small {
				for _, b := range small {
					for _, d := range small {
						for _, egs := range [][3]int{{1, 1, 1}, {1, 1, 2}, {1, 2, 2}, {1, 2, 3}} {
							if !c.Thorough() && (b.fail == "panic" || a.clients > 1 && d.clients > 1 || a.fail == "panic" || d.fail == "panic") {
								continue
							}
							a.eg, b.eg, d.eg = egs[0], egs[1], egs[2]
							b.delay, d.delay = 1700*us, 600*us
							s := e
							s.groups = []sgroup{a, b, d}
							one(c, l, s, 0)
						}
					}
				}
			}
		}})
	}
	// interleavings
	g := func(eg, clients, iter int) sgroup { return sgroup{eg: eg, clients: clients, iter: iter} }
	fail := func(x sgroup, how string) sgroup { x.fail = how; return x }
	inter := []struct {
		s    shape
		q, t int
	}{
		{shape{groups: []sgroup{g(1, 2, 1), g(2, 1, 1)}}, 2, 3},
		{shape{groups: []sgroup{g(1, 1, 1), g(2, 2, 1)}}, 2, 3},
		{shape{groups: []sgroup{g(1, 1, 1), g(1, 1, 2), g(2, 1, 1)}}, 2, 3},
		{shape{groups: []sgroup{g(1, 1, 1), g(2, 1, 1), g(3, 1, 1)}}, 2, 3},
		{shape{groups: []sgroup{g(1, 3, 1), g(2, 2, 1)}}, 1, 2},
		{shape{groups: []sgroup{fail(g(1, 2, 2), "abort"), g(2, 1, 1)}}, 2, 3},
		{shape{groups: []sgroup{fail(g(1, 2, 2), "panic"), g(2, 1, 1)}}, 2, 3},
		{shape{groups: []sgroup{fail(g(1, 2, 1), "use"), g(1, 1, 1), g(2, 1, 1)}}, 1, 2},
		{shape{groups: []sgroup{{eg: 1, clients: 2, delay: ms, runtime: 2500 * us}, g(2, 1, 1)}}, 2, 3},
		{shape{groups: []sgroup{{eg: 1, clients: 2, delay: ms}, g(2, 1, 1)}, runtime: 2500 * us}, 2, 3},
		{shape{groups: []sgroup{{eg: 1, clients: 2, delay: ms}, g(2, 1, 1)}, cancel: 2500 * us}, 2, 3},
	}
	for i := range inter {
		x := inter[i]
		units = append(units, report.Unit{Name: fmt.Sprintf("interleavings %d", i), Run: func(c *report.Ctx) {
			one(c, newLoader(c.T), x.s, c.Pick(x.q, x.t))
		}})
	}
	units = append(units, report.Unit{Name: "sizes", Run: func(c *report.Ctx) {
		l := newLoader(c.T)
		for _, e := range ends {
			for n := 3; n <= c.Pick(20, 80); n++ { // clients
				for _, f := range []string{"", "abort", "use"} {
					s := e
					s.groups = []sgroup{{eg: 1, clients: n, iter: 2, fail: f, delay: ms}, {eg: 1, clients: 2, iter: n, delay: 1700 * us}, {eg: 2, clients: n, iter: 1, delay: ms}}
					one(c, l, s, 0)
				}
			}
			for n := 3; n <= c.Pick(8, 20); n++ { // groups, one of which fails or takes long
				for k := -1; k < n; k++ {
					for _, egs := range []func(i int) int{func(i int) int { return i + 1 }, func(i int) int { return 1 }, func(i int) int { return i/2 + 1 }, func(i int) int { return 1 + i/(n-1) }} {
						for _, f := range []string{"abort", "use", "long"} {
							s := e
							for i := 0; i < n; i++ {
								g := sgroup{eg: egs(i), clients: 1 + i%2, iter: 1, delay: ms}
								if i == k && f == "long" {
									g.iter = 9
								} else if i == k {
									g.fail, g.iter = f, 3
								}
								s.groups = append(s.groups, g)
							}
							one(c, l, s, 0)
						}
					}
				}
			}
			for n := 1; n <= c.Pick(30, 300); n++ { // iterations, durations
				s := e
				s.groups = []sgroup{{eg: 1, clients: 1, iter: n, delay: ms}, {eg: 1, clients: 2, runtime: time.Duration(n) * 517 * us, delay: ms}, {eg: 2, clients: 1, iter: 1, delay: ms}}
				one(c, l, s, 0)
				if s.cancel > 0 || s.runtime > 0 {
					s.runtime, s.cancel = s.runtime*time.Duration(n), s.cancel*time.Duration(n)
					one(c, l, s, 0)
				}
			}
		}
	}})
	report.Main(t, report.Check{
		ID:    "C13",
		Level: "model_checking",
		Rule:  "every stage of a small alphabet (1-3 client groups in 1-3 execution groups, 1-2 clients, iterations, runtimes, failing clients, stage runtimes, cancellation, slow statements, refused connections) is run on the real code in virtual time and compared with a predicted timeline: start of every client, number of statements, end of the stage; for chosen stages every interleaving up to the deviation bound is explored and each client must run once, on one connection, execution groups strictly in sequence, and the stage must end",
		Assumptions: []string{
			"MySQL is a stand-in; statements take the given time",
			"a stage that is stopped is given 300 ms to return (1 s when connections are refused)",
			"idle times and rate limit waits, which cancellation does not interrupt, are not part of the alphabet",
		},
		Units: units,
	})
}
