// Package limits decides rate limits (C10) and data limits (C11).
package limits

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/square/finch/config"
	"github.com/square/finch/data"

	"finchverif/fakedb"
	"finchverif/fin"
	"finchverif/report"
	"finchverif/vsched"
)

// rates of one kind (queries or transactions per second) at the four levels.
type rates struct{ stage, exec, group, client int }

func (r rates) any() bool { return r != rates{} }

type cgroup struct {
	exec     string
	clients  int
	qps, tps rates // stage is ignored here; exec counts only in the first group of an exec group
}

type setup struct {
	qps, tps int // stage
	groups   []cgroup
	delays   []time.Duration // of a client's n-th query, cyclic
	file     string          // trx file (default: file)
	errs     []int           // MySQL error code of a client's n-th query, cyclic (0: none)
	runtime  time.Duration
}

func (s setup) String() string {
	return fmt.Sprintf("%+v", s.groups) + fmt.Sprintf(" stage qps %d tps %d delays %v runtime %s errors %v file %q", s.qps, s.tps, s.delays, s.runtime, s.errs, s.file)
}

func (s setup) yaml() string {
	y := "stage:\n  name: s\n"
	if s.qps > 0 {
		y += fmt.Sprintf("  qps: %d\n", s.qps)
	}
	if s.tps > 0 {
		y += fmt.Sprintf("  tps: %d\n", s.tps)
	}
	y += fmt.Sprintf("  runtime: %s\n", s.runtime)
	y += "  trx:\n"
	for i := range strings.Split(s.file, nextFile) {
		y += "    - file: " + trxName(i) + "\n"
	}
	y += "  workload:\n"
	for i, g := range s.groups {
		y += fmt.Sprintf("    - clients: %d\n      db: g%d\n", g.clients, i+1)
		if g.exec != "" {
			y += "      group: " + g.exec + "\n"
		}
		for _, l := range []struct {
			n string
			r rates
		}{{"qps", g.qps}, {"tps", g.tps}} {
			if l.r.exec > 0 {
				y += fmt.Sprintf("      %s-exec-group: %d\n", l.n, l.r.exec)
			}
			if l.r.group > 0 {
				y += fmt.Sprintf("      %s-clients: %d\n", l.n, l.r.group)
			}
			if l.r.client > 0 {
				y += fmt.Sprintf("      %s: %d\n", l.n, l.r.client)
			}
		}
	}
	return y
}

func begin(sql string) bool {
	return strings.HasPrefix(sql, "BEGIN") || strings.HasPrefix(sql, "START TRANSACTION")
}

func (s setup) trx() map[string]string {
	if s.file == "" {
		return map[string]string{"t.sql": file}
	}
	m := map[string]string{}
	for i, f := range strings.Split(s.file, nextFile) {
		m[trxName(i)] = f
	}
	return m
}

// nextFile separates the trx files in setup.file.
const nextFile = "\f"

func trxName(i int) string {
	if i == 0 {
		return "t.sql"
	}
	return fmt.Sprintf("t%d.sql", i+1)
}

const file = "BEGIN\n\nUPDATE t SET a = 1\n\nSELECT 1\n\nCOMMIT\n"

// limiter is one configured limit: what it covers and how much may pass.
type limiter struct {
	name  string
	rate  int
	burst int
	begin bool                // BEGINs only
	conns func(g, c int) bool // group index, client index (0-based, order of connecting)
}

// limiters lists the limits of s with the burst each allows: a token waiting in
// the limiter, one being made, and per combination with another limit two more.
func (s setup) limiters() []limiter {
	var ls []limiter
	kind := func(name string, begin bool, stage int, get func(cgroup) rates) {
		// combinations downstream of each limiter
		stageAnd := 0
		egAnd := map[int]int{}
		cgAnd := map[int]int{}
		eg := -1
		prev := "\x00"
		egOf := make([]int, len(s.groups))
		egRate := map[int]int{}
		for i, g := range s.groups {
			if g.exec != prev {
				eg++
				prev = g.exec
				egRate[eg] = get(g).exec
				if stage > 0 && egRate[eg] > 0 {
					stageAnd++
					egAnd[eg]++
				}
			}
			egOf[i] = eg
			up := stage > 0 || egRate[eg] > 0
			if up && get(g).group > 0 {
				stageAnd++
				egAnd[eg]++
				cgAnd[i]++
			}
			if (up || get(g).group > 0) && get(g).client > 0 {
				stageAnd += g.clients
				egAnd[eg] += g.clients
				cgAnd[i] += g.clients
			}
		}
		if stage > 0 {
			ls = append(ls, limiter{name + " of the stage", stage, 2 + 2*stageAnd, begin, func(int, int) bool { return true }})
		}
		for e := 0; e <= eg; e++ {
			e := e
			if egRate[e] > 0 {
				ls = append(ls, limiter{fmt.Sprintf("%s-exec-group of exec group %d", name, e+1), egRate[e], 2 + 2*egAnd[e], begin, func(g, _ int) bool { return egOf[g] == e }})
			}
		}
		for i, g := range s.groups {
			i := i
			if get(g).group > 0 {
				ls = append(ls, limiter{fmt.Sprintf("%s-clients of client group %d", name, i+1), get(g).group, 2 + 2*cgAnd[i], begin, func(g, _ int) bool { return g == i }})
			}
			if get(g).client > 0 {
				for c := 0; c < g.clients; c++ {
					c := c
					b := 2
					if stage > 0 || egRate[egOf[i]] > 0 || get(g).group > 0 {
						b += 2
					}
					ls = append(ls, limiter{fmt.Sprintf("%s of client %d of client group %d", name, c+1, i+1), get(g).client, b, begin, func(g, cl int) bool { return g == i && cl == c }})
				}
			}
		}
	}
	kind("qps", false, s.qps, func(g cgroup) rates { return g.qps })
	kind("tps", true, s.tps, func(g cgroup) rates { return g.tps })
	return ls
}

type q struct {
	at, done time.Duration
	group    int
	client   int
	sql      string
}

func (s setup) judge(evs []fakedb.Event, start time.Time) (outcome, violation string) {
	group := map[int]int{}
	client := map[int]int{}
	next := map[int]int{}
	var qs []q
	per := map[[2]int][]q{}
	for _, e := range evs {
		if strings.HasPrefix(e.SQL, "USE `g") {
			var g int
			fmt.Sscanf(e.SQL, "USE `g%d`", &g)
			group[e.Conn] = g - 1
			client[e.Conn] = next[g-1]
			next[g-1]++
			continue
		}
		if e.Kind != "exec" && e.Kind != "query" && e.Kind != "sexec" && e.Kind != "squery" || e.SQL == "ROLLBACK" {
			continue
		}
		x := q{e.At.Sub(start), e.Done.Sub(start), group[e.Conn], client[e.Conn], e.SQL}
		qs = append(qs, x)
		k := [2]int{x.group, x.client}
		per[k] = append(per[k], x)
	}
	for _, l := range s.limiters() {
		var t []time.Duration
		for _, x := range qs {
			if l.conns(x.group, x.client) && (!l.begin || begin(x.sql)) {
				t = append(t, x.at)
			}
		}
		sort.Slice(t, func(i, j int) bool { return t[i] < t[j] })
		for i := range t {
			for j := i; j < len(t); j++ {
				// tokens are made at exact multiples of 1/rate
				max := int((t[j]-t[i]+time.Microsecond)*time.Duration(l.rate)/time.Second) + l.burst
				if j-i+1 > max {
					return "over", fmt.Sprintf("%s = %d: %d executed in %s, at most %d may (from %s to %s)\n%s", l.name, l.rate, j-i+1, t[j]-t[i], max, t[i], t[j], s)
				}
			}
		}
	}
	// progress and freedom
	for gi, g := range s.groups {
		// other groups of the same exec group always run at the same time here
		for c := 0; c < g.clients; c++ {
			l := per[[2]int{gi, c}]
			limited := []int{}
			qlim := s.qps > 0 || g.qps.group > 0 || g.qps.client > 0
			tlim := s.tps > 0 || g.tps.group > 0 || g.tps.client > 0
			prev := "\x00"
			cover := 0
			for i, o := range s.groups {
				if o.exec != prev {
					prev = o.exec
					if o.exec == g.exec || i == gi {
						if o.qps.exec > 0 {
							qlim = true
							limited = append(limited, o.qps.exec)
						}
						if o.tps.exec > 0 {
							tlim = true
							limited = append(limited, o.tps.exec)
						}
					}
				}
				cover += o.clients
			}
			for _, r := range []int{s.qps, s.tps, g.qps.group, g.qps.client, g.tps.group, g.tps.client} {
				if r > 0 {
					limited = append(limited, r)
				}
			}
			for i := 1; i < len(l); i++ {
				if !qlim && (!tlim || !begin(l[i].sql)) && l[i].at > l[i-1].done+time.Millisecond {
					return "slowed", fmt.Sprintf("client %d of group %d has no limit on %q but waits %s before it\n%s", c+1, gi+1, l[i].sql, l[i].at-l[i-1].done, s)
				}
			}
			// the longest time a client may wait for its turn, generously
			wait := time.Duration(0)
			if len(limited) > 0 {
				sort.Ints(limited)
				wait = 4 * time.Duration(cover+1) * time.Second / time.Duration(limited[0])
			}
			last := time.Duration(0)
			for _, x := range l {
				if x.at-last > wait+time.Millisecond {
					return "starved", fmt.Sprintf("client %d of group %d waits %s for its next query\n%s", c+1, gi+1, x.at-last, s)
				}
				last = x.done
			}
			if s.runtime-last > wait+time.Millisecond {
				return "starved", fmt.Sprintf("client %d of group %d executed nothing from %s to the end\n%s", c+1, gi+1, last, s)
			}
			if len(l) == 0 && s.runtime > wait {
				return "starved", fmt.Sprintf("client %d of group %d executes nothing\n%s", c+1, gi+1, s)
			}
		}
	}
	var o []string
	for _, x := range qs {
		o = append(o, fmt.Sprintf("%d.%d@%s", x.group, x.client, x.at))
	}
	return strings.Join(o, " "), ""
}

func (s setup) scenario(c *report.Ctx, cfg config.Stage, name string, bound int, quantum time.Duration) *vsched.Scenario {
	return &vsched.Scenario{
		Opts: vsched.Opts{Name: name, Bound: bound, Background: true, MaxSteps: 200000, Quantum: quantum},
		New: func() (func(), func(vsched.Run) (string, string)) {
			n := map[int]int{}
			db := &fakedb.DB{}
			db.Answer = func(e *fakedb.Event) (a fakedb.Answer) {
				if strings.HasPrefix(e.SQL, "USE") {
					return a
				}
				switch e.Kind {
				case "exec", "query", "sexec", "squery":
					a.Delay = s.delays[n[e.Conn]%len(s.delays)]
					code := 0
					if len(s.errs) > 0 {
						code = s.errs[n[e.Conn]%len(s.errs)]
					}
					n[e.Conn]++
					if code != 0 && e.SQL != "ROLLBACK" {
						a.Err = fakedb.MyErr(uint16(code))
						return a
					}
					if e.Kind == "query" || e.Kind == "squery" {
						o := fin.OneRow("1")
						o.Delay = a.Delay
						return o
					}
				}
				return a
			}
			vsched.OpenDB = db.OpenFn()
			var err error
			var start time.Time
			body := func() {
				start = time.Now()
				err = fin.RunStage(context.Background(), cfg, data.NewScope(), nil)
			}
			return body, func(r vsched.Run) (string, string) {
				if err != nil {
					return "err", "stage failed: " + err.Error()
				}
				if r.Deadlock || r.Livelock {
					return "stuck", "the stage does not end\n" + s.String()
				}
				return s.judge(db.Events(), start)
			}
		},
	}
}

func TestC10(t *testing.T) {
	ms := time.Millisecond
	patterns := [][]time.Duration{
		{20 * ms},
		{700 * ms, 0, 0, 0, 5 * ms, 5 * ms},
		{5 * ms, 1000 * ms, 5 * ms, 5 * ms, 5 * ms, 5 * ms, 5 * ms, 5 * ms, 5 * ms},
	}
	one := func(c *report.Ctx, s setup) {
		if c.TimeUp() || c.Violated() {
			return
		}
		cfg := fin.Load(c.T, s.yaml(), s.trx())
		sc := s.scenario(c, cfg, "one", 0, 0)
		st, f := vsched.Explore(c.T, sc)
		c.State(st.States, st.Transitions, st.Executions)
		for o := range st.Outcomes {
			c.Case(s.String() + o)
		}
		if f != nil {
			c.Violate(strings.SplitN(f.Msg, ":", 2)[0], f.Msg+"\n"+s.yaml(), map[string]interface{}{"yaml": s.yaml(), "delays": fmt.Sprint(s.delays)})
		}
	}
	var units []report.Unit
	levels := func(kind string, clients int) report.Unit {
		return report.Unit{Name: fmt.Sprintf("levels %s %d", kind, clients), Run: func(c *report.Ctx) {
			rs := []int{0, 5, 20}
			if c.Thorough() {
				rs = []int{0, 3, 7, 20, 50}
			}
			for _, st := range rs {
				for _, ex := range rs {
					for _, g := range rs {
						for _, cl := range rs {
							for _, d := range patterns {
								s := setup{delays: d, runtime: 2500 * ms}
								cg := cgroup{clients: clients}
								r := rates{0, ex, g, cl}
								if kind == "qps" {
									cg.qps, s.qps = r, st
								} else {
									cg.tps, s.tps = r, st
								}
								s.groups = []cgroup{cg}
								if kind == "tps" && d[len(d)-1] != 20*ms && st+ex+g+cl == 0 {
									continue // nothing limited
								}
								one(c, s)
							}
						}
					}
				}
			}
		}}
	}
	units = append(units, levels("qps", 1), levels("qps", 2), levels("tps", 1), levels("tps", 2))
	units = append(units, report.Unit{Name: "both kinds", Run: func(c *report.Ctx) {
		for bits := 0; bits < 256; bits++ {
			pick := func(i, r int) int {
				if bits>>i&1 == 1 {
					return r
				}
				return 0
			}
			for _, d := range patterns[:c.Pick(2, 3)] {
				one(c, setup{qps: pick(0, 20), tps: pick(1, 5), delays: d, runtime: 2000 * ms, groups: []cgroup{
					{clients: 2, qps: rates{0, pick(2, 15), pick(3, 10), pick(4, 8)}, tps: rates{0, pick(5, 4), pick(6, 6), pick(7, 3)}},
				}})
			}
		}
	}})
	units = append(units, report.Unit{Name: "two groups", Run: func(c *report.Ctx) {
		// limits of one group must not touch the other; shared ones cover both
		for bits := 0; bits < 256; bits++ {
			pick := func(i, r int) int {
				if bits>>i&1 == 1 {
					return r
				}
				return 0
			}
			for k := 0; k < 2; k++ {
				s := setup{delays: patterns[0], runtime: 2000 * ms}
				if k == 0 {
					s.qps = pick(0, 16)
					s.groups = []cgroup{
						{exec: "e", clients: 1 + pick(1, 1), qps: rates{0, pick(2, 12), pick(3, 9), pick(4, 7)}},
						{exec: "e", clients: 1 + pick(5, 1), qps: rates{0, 0, pick(6, 5), pick(7, 6)}},
					}
				} else {
					s.tps = pick(0, 8)
					s.groups = []cgroup{
						{exec: "e", clients: 1 + pick(1, 1), tps: rates{0, pick(2, 6), pick(3, 5), pick(4, 4)}},
						{exec: "e", clients: 1 + pick(5, 1), tps: rates{0, 0, pick(6, 3), pick(7, 4)}},
					}
				}
				one(c, s)
			}
		}
	}})
	units = append(units, report.Unit{Name: "errors", Run: func(c *report.Ctx) {
		// an error starts a new iteration, not a new allowance
		for _, errs := range [][]int{{0, 1213}, {1213}, {0, 0, 1205}, {0, 0, 0, 1062}, {0, 1062, 0, 0, 1213}} {
			for bits := 1; bits < 256; bits++ {
				pick := func(i, r int) int {
					if bits>>i&1 == 1 {
						return r
					}
					return 0
				}
				one(c, setup{qps: pick(0, 20), tps: pick(1, 7), errs: errs, delays: []time.Duration{20 * ms}, runtime: 1500 * ms, groups: []cgroup{
					{clients: 2, qps: rates{0, pick(2, 15), pick(3, 10), pick(4, 8)}, tps: rates{0, pick(5, 4), pick(6, 6), pick(7, 3)}},
				}})
			}
		}
	}})
	units = append(units, report.Unit{Name: "files", Run: func(c *report.Ctx) {
		for _, f := range []string{
			"SELECT 1\n\nUPDATE t SET a = 1\n",
			"BEGIN\n\nUPDATE t SET a = 1\n\nCOMMIT\n\nSELECT 1\n\nSTART TRANSACTION\n\nSELECT 1\n\nCOMMIT\n",
			"SELECT 1\n\nBEGIN\n\n-- prepare\nUPDATE t SET a = 1\n\nCOMMIT\n\n-- prepare\nSELECT 2\n",
			"-- idle: 30ms\nnothing\n\nBEGIN\n\n-- idle: 200ms\nnothing\n\nSELECT 1\n\nCOMMIT\n",
			"START TRANSACTION READ ONLY\n\nSELECT 1\n\nCOMMIT\n",
			"SELECT 1\n" + nextFile + "SELECT 2\n\nUPDATE t SET a = 1\n" + nextFile + "BEGIN\n\nSELECT 3\n\nCOMMIT\n",
			"BEGIN\n\nSELECT 3\n\nCOMMIT\n" + nextFile + "UPDATE t SET a = 1\n\nSELECT 2\n" + nextFile + "BEGIN\n\nSELECT 4\n\nCOMMIT\n",
		} {
			for _, cl := range []int{1, 2} {
				for bits := 0; bits < 64; bits++ {
					pick := func(i, r int) int {
						if bits>>i&1 == 1 {
							return r
						}
						return 0
					}
					if strings.Contains(f, "idle") && bits&0x7 == 0 {
						continue // waits between statements are the idle time
					}
					one(c, setup{qps: pick(0, 20), tps: pick(3, 7), file: f, delays: patterns[0], runtime: 1500 * ms, groups: []cgroup{
						{clients: cl, qps: rates{0, pick(1, 15), 0, pick(2, 8)}, tps: rates{0, 0, pick(4, 6), pick(5, 3)}},
					}})
				}
			}
		}
	}})
	inter := func(name string, s setup, bound, tbound int) {
		units = append(units, report.Unit{Name: "interleavings " + name, Run: func(c *report.Ctx) {
			if c.Violated() {
				return
			}
			cfg := fin.Load(c.T, s.yaml(), s.trx())
			c.Explore(s.scenario(c, cfg, name, c.Pick(bound, tbound), 0))
		}})
	}
	fast := []time.Duration{0}
	inter("client qps", setup{delays: fast, runtime: 600 * ms, groups: []cgroup{{clients: 1, qps: rates{0, 0, 0, 5}}}}, 3, 5)
	inter("client qps, slow start", setup{delays: []time.Duration{700 * ms, 0, 0, 0}, runtime: 1500 * ms, groups: []cgroup{{clients: 1, qps: rates{0, 0, 0, 5}}}}, 3, 5)
	inter("shared qps", setup{delays: fast, runtime: 500 * ms, groups: []cgroup{{clients: 2, qps: rates{0, 0, 5, 0}}}}, 3, 4)
	inter("exec group, two groups", setup{delays: fast, runtime: 500 * ms, groups: []cgroup{{exec: "e", clients: 1, qps: rates{0, 5, 0, 0}}, {exec: "e", clients: 1}}}, 3, 4)
	inter("stage and client", setup{qps: 7, delays: fast, runtime: 500 * ms, groups: []cgroup{{clients: 2, qps: rates{0, 0, 0, 5}}}}, 2, 3)
	inter("all levels", setup{qps: 12, delays: fast, runtime: 400 * ms, groups: []cgroup{{clients: 2, qps: rates{0, 10, 9, 5}}}}, 2, 3)
	inter("qps and tps", setup{delays: fast, runtime: 500 * ms, groups: []cgroup{{clients: 2, qps: rates{0, 0, 0, 20}, tps: rates{0, 0, 4, 0}}}}, 2, 3)
	report.Main(t, report.Check{
		ID:    "C10",
		Level: "model_checking",
		Rule:  "every setting of the limits at all levels over a small set of rates, with slow and fast queries, in virtual time; all interleavings of clients and limiters within the deviation bound",
		Assumptions: []string{
			"virtual time: the database answers after exactly the given delay",
			"burst allowed per limiter: two, and two more for each combination with another limiter",
		},
		Units: units,
	})
}
