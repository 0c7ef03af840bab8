package statx

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/square/finch/config"
	"github.com/square/finch/stats"

	"finchverif/report"
	"finchverif/vsched"
)

// An arrival: host 0 is local (Collect), others are remote instances sending
// their statistics of an interval.
type arrival struct {
	host     int
	interval uint
}

func (a arrival) String() string {
	if a.host == 0 {
		return "collect"
	}
	return fmt.Sprintf("h%d/%d", a.host, a.interval)
}

// content of an instance is a function of host and interval, so that reports can
// be checked.
func mkInstance(host int, interval uint) stats.Instance {
	in := stats.NewInstance(fmt.Sprintf("h%d", host))
	in.Clients = uint(10 + host)
	in.Interval = interval
	in.Seconds = float64(host) + float64(interval)/8
	in.Runtime = in.Seconds * 2
	in.Total.Record(stats.READ, int64(1000*host)+int64(interval))
	in.Total.Errors[uint16(host)] = uint64(interval)
	in.Trx["t"] = stats.NewStats()
	in.Trx["t"].Record(stats.READ, int64(1000*host)+int64(interval))
	return in
}

// model of interval reporting
type model struct {
	n       int
	cur     uint
	pending []arrival
	reports [][]arrival
	local   uint
	partial map[uint]bool
}

func (m *model) flush() {
	if len(m.pending) > 0 {
		m.reports = append(m.reports, m.pending)
		m.pending = nil
		m.cur++
	}
}

func (m *model) recv(a arrival) {
	if a.host == 0 {
		m.local++
		a.interval = m.local
	}
	if a.interval < m.cur {
		return
	}
	if a.interval > m.cur {
		m.flush()
		m.cur = a.interval
	}
	for _, p := range m.pending {
		if p.host == a.host {
			return
		}
	}
	m.pending = append(m.pending, a)
	if len(m.pending) == m.n {
		m.flush()
	}
}

// complete: the report has every instance
func (m *model) complete(i uint) bool {
	for _, r := range m.reports {
		if r[0].interval >= i && len(r) == m.n {
			return true
		}
	}
	return false
}

func showReports(rs [][]arrival) string {
	var s []string
	for _, r := range rs {
		var x []string
		for _, a := range r {
			x = append(x, fmt.Sprintf("h%d/%d", a.host, a.interval))
		}
		sort.Strings(x)
		s = append(s, strings.Join(x, "+"))
	}
	return strings.Join(s, " ")
}

// reported turns what the reporter got into arrivals, checking contents.
func reported() (rs [][]arrival, bad string) {
	for k, l := range rec.got {
		if len(l) == 0 {
			return nil, fmt.Sprintf("report %d is empty", k+1)
		}
		var r []arrival
		for _, in := range l {
			a := arrival{interval: in.Interval}
			if in.Hostname != "local" {
				fmt.Sscanf(in.Hostname, "h%d", &a.host)
				if x := show(mkInstance(a.host, a.interval)); x != show(in) {
					return nil, fmt.Sprintf("report %d: instance %s differs from what was received: %s", k+1, in.Hostname, show(in))
				}
			}
			r = append(r, a)
		}
		rs = append(rs, r)
	}
	return rs, ""
}

// general checks of any history of reports
func wellFormed(rs [][]arrival) string {
	last := uint(0)
	for k, r := range rs {
		seen := map[int]bool{}
		for _, a := range r {
			if a.interval != r[0].interval {
				return fmt.Sprintf("report %d mixes intervals %d and %d", k+1, r[0].interval, a.interval)
			}
			if seen[a.host] {
				return fmt.Sprintf("report %d has instance h%d twice", k+1, a.host)
			}
			seen[a.host] = true
		}
		if r[0].interval <= last {
			return fmt.Sprintf("report %d is of interval %d, after one of interval %d", k+1, r[0].interval, last)
		}
		last = r[0].interval
	}
	return ""
}

func mkCollector(n int, freq time.Duration) *stats.Collector {
	c, err := stats.NewCollector(config.Stats{Freq: freqString(freq), Report: map[string]map[string]string{"verif": {}}}, "local", uint(n))
	if err != nil {
		panic(err)
	}
	c.Watch([]*stats.Trx{stats.NewTrx("t")})
	return c
}

const stopTimeout = 3 * time.Second

// history16: one sequence of arrivals, then Stop, with later arrivals while Stop
// waits.
func history16(c *report.Ctx, n int, freq time.Duration, seq, during []arrival) bool {
	m := &model{n: n, cur: 1}
	name := fmt.Sprintf("%d instances, freq %s: %v, stop, %v", n, freq, seq, during)
	s := &vsched.Scenario{
		Opts: vsched.Opts{Name: name, Bound: 0, MaxSteps: 20000, SiteCap: 1, Horizon: time.Hour},
		New: func() (func(), func(vsched.Run) (string, string)) {
			rec = &recorder{}
			m = &model{n: n, cur: 1}
			returned, got := false, false
			var took time.Duration
			bad := ""
			body := func() {
				col := mkCollector(n, freq)
				col.Start()
				do := func(a arrival) {
					m.recv(a)
					if a.host == 0 {
						col.Collect()
					} else {
						col.Recv(mkInstance(a.host, a.interval))
					}
					rs, b := reported()
					if bad == "" {
						bad = b
					}
					if bad == "" && showReports(rs) != showReports(m.reports) {
						bad = fmt.Sprintf("after %v: reported %s, expected %s", a, showReports(rs), showReports(m.reports))
					}
				}
				for _, a := range seq {
					do(a)
				}
				vsched.Sleep(freq - freq/8) // a last interval remains to be collected
				done := make(chan bool, 1)
				final := uint(0)
				vsched.Go(func() {
					for _, a := range during {
						vsched.Sleep(250 * time.Millisecond)
						do(a)
					}
					done <- true
				})
				t0 := time.Now()
				m.recv(arrival{})
				final = m.local
				got = col.Stop(stopTimeout, false)
				took = time.Since(t0)
				vsched.NoPreempt(func() {
					if m.cur <= final { // timed out
						m.flush()
					}
				})
				vsched.Recv(done)
				returned = true
			}
			check := func(vsched.Run) (string, string) {
				if !returned {
					return "", "Stop did not return"
				}
				if bad != "" {
					return "", bad
				}
				rs, b := reported()
				if b != "" {
					return "", b
				}
				if b := wellFormed(rs); b != "" {
					return "", b
				}
				if showReports(rs) != showReports(m.reports) {
					return "", fmt.Sprintf("reported %s, expected %s", showReports(rs), showReports(m.reports))
				}
				if took > stopTimeout+time.Second {
					return "", fmt.Sprintf("Stop took %s, timeout %s", took, stopTimeout)
				}
				if want := m.complete(m.local); got != want {
					return "", fmt.Sprintf("Stop says complete=%v; reported %s", got, showReports(rs))
				}
				if rec.stops > 1 { // compute.Server stops it when all instances are done: C22
					return "", fmt.Sprintf("reporter stopped %d times", rec.stops)
				}
				if b := rec.changed(); b != "" {
					return "", b
				}
				return showReports(rs), ""
			}
			return body, check
		},
	}
	c.Explore(s)
	return !c.Violated()
}

func histories(n, depth int, intervals uint, durings [][]arrival, freq time.Duration) func(*report.Ctx) {
	return func(c *report.Ctx) {
		abc := []arrival{{}}
		for h := 1; h < n; h++ {
			for i := uint(1); i <= intervals; i++ {
				abc = append(abc, arrival{h, i})
			}
		}
		var rec func(pre []arrival) bool
		rec = func(pre []arrival) bool {
			for _, d := range durings {
				if c.TimeUp() || !history16(c, n, freq, pre, d) {
					return false
				}
			}
			if len(pre) == depth {
				return true
			}
			for _, a := range abc {
				if !rec(append(append([]arrival{}, pre...), a)) {
					return false
				}
			}
			return true
		}
		rec(nil)
	}
}

// race16: instances deliver concurrently with local collection and Stop.
func race16(n int, lists [][]arrival, bound int) func(*report.Ctx) {
	return func(c *report.Ctx) {
		c.Explore(&vsched.Scenario{
			Opts: vsched.Opts{Name: fmt.Sprintf("%d instances, concurrent %v", n, lists), Bound: bound, MaxSteps: 20000, SiteCap: 1, Horizon: time.Hour},
			New: func() (func(), func(vsched.Run) (string, string)) {
				rec = &recorder{}
				returned, got := false, false
				sent := map[arrival]bool{}
				body := func() {
					col := mkCollector(n, 0)
					col.Start()
					end := make(chan bool, len(lists))
					for _, l := range lists {
						l := l
						vsched.Go(func() {
							for _, a := range l {
								vsched.Op()
								col.Recv(mkInstance(a.host, a.interval))
								sent[a] = true
							}
							end <- true
						})
					}
					vsched.Op()
					col.Collect()
					vsched.Op()
					got = col.Stop(stopTimeout, false)
					for range lists {
						vsched.Recv(end)
					}
					returned = true
				}
				return body, func(vsched.Run) (string, string) {
					if !returned {
						return "", "Stop did not return"
					}
					rs, b := reported()
					if b == "" {
						b = wellFormed(rs)
					}
					if b == "" {
						b = rec.changed()
					}
					if b != "" {
						return "", b
					}
					complete := false
					for _, r := range rs {
						if r[0].interval == 2 && len(r) == n {
							complete = true
						}
					}
					if got != complete {
						return "", fmt.Sprintf("Stop says complete=%v; reported %s", got, showReports(rs))
					}
					// everything sent in time and in order arrives: no interval may be skipped
					if len(rs) < 2 {
						return "", fmt.Sprintf("2 intervals collected, reported %s", showReports(rs))
					}
					return showReports(rs) + fmt.Sprint(got), ""
				}
			},
		})
	}
}

func TestC16(t *testing.T) {
	none := [][]arrival{nil}
	some := [][]arrival{nil, {{1, 1}}, {{1, 2}}, {{1, 1}, {1, 2}}}
	many := [][]arrival{{{1, 2}, {2, 2}}, {{2, 1}, {1, 1}, {2, 2}, {1, 2}}, {{1, 1}, {2, 2}, {1, 2}}, {{1, 3}}, {{2, 2}, {2, 2}, {1, 2}}}
	report.Main(t, report.Check{
		ID:    "C16",
		Level: "model_checking",
		Rule:  "evaluation = one history (sequence of deliveries from instances, local collections, Stop, and deliveries while Stop waits) run on the real collector in virtual time and compared step by step with a model of interval reporting, or one interleaving of concurrent deliveries, collection and Stop; distinct = by sequence of reports",
		Assumptions: []string{"instance names are unique", "sequential consistency",
			"an interval received before the current one is complete ends the current one (documented in the code)"},
		Units: []report.Unit{
			{Name: "1 instance", Run: func(c *report.Ctx) {
				histories(1, 3, 0, none, 0)(c)
				histories(1, 3, 0, none, 8*time.Second)(c)
			}},
			{Name: "2 instances", Run: func(c *report.Ctx) { histories(2, c.Pick(5, 6), 3, none, 0)(c) }},
			{Name: "2 instances, deliveries while stopping", Run: func(c *report.Ctx) { histories(2, c.Pick(3, 4), 3, some, 8*time.Second)(c) }},
			{Name: "3 instances", Run: func(c *report.Ctx) { histories(3, c.Pick(4, 6), 3, none, 0)(c) }},
			{Name: "3 instances, 2 intervals", Run: func(c *report.Ctx) { histories(3, c.Pick(5, 6), 2, none, 8*time.Second)(c) }},
			{Name: "3 instances, deliveries while stopping", Run: func(c *report.Ctx) { histories(3, c.Pick(3, 4), 2, many, 0)(c) }},
			{Name: "sizes", Run: sizes16},
			{Name: "2 concurrent", Run: func(c *report.Ctx) { race16(2, [][]arrival{{{1, 1}, {1, 2}}}, c.Pick(2, 3))(c) }},
			{Name: "3 concurrent", Run: func(c *report.Ctx) {
				race16(3, [][]arrival{{{1, 1}, {1, 2}}, {{2, 1}, {2, 2}}}, c.Pick(1, 2))(c)
			}},
		},
	})
}

// sizes16: one dimension at a time, far beyond the small histories.
func sizes16(c *report.Ctx) {
	round := func(n int, i uint, rot, skip int) []arrival {
		var l []arrival
		for k := 0; k < n; k++ {
			h := (k + rot) % n
			if h == skip {
				continue
			}
			l = append(l, arrival{h, i})
		}
		return l
	}
	run := func(n int, seq, during []arrival) bool {
		return !c.TimeUp() && history16(c, n, []time.Duration{0, 8 * time.Second}[len(seq)%2], seq, during)
	}
	for n := 4; n <= c.Pick(7, 16); n++ { // instances
		for rot := 0; rot < n; rot++ {
			for skip := -1; skip < n; skip++ {
				if skip == 0 {
					continue // without a local collection there's no next interval
				}
				seq := append(round(n, 1, rot, skip), round(n, 2, n-rot, -1)...)
				if !run(n, seq, round(n, 3, 1, 0)) || !run(n, seq, round(n, 3, 1, skip)[1:]) {
					return
				}
				// the last one's is late
				if skip > 0 && !run(n, append(append(append([]arrival{}, round(n, 1, rot, skip)...), arrival{skip, 1}), round(n, 2, 0, skip)...), []arrival{{skip, 2}, {skip, 3}}) {
					return
				}
			}
		}
	}
	for n := 1; n <= 3; n++ { // intervals
		for iv := 1; iv <= c.Pick(40, 200); iv += 1 + iv/12 {
			var all, early, lag []arrival
			for i := 1; i <= iv; i++ {
				all = append(all, round(n, uint(i), i, -1)...)
				early = append(early, round(n, uint(i), 0, -1)...)
				for h := 0; h < n; h++ { // the others are one interval behind
					if h == 0 {
						lag = append(lag, arrival{0, uint(i)})
					} else if i > 1 {
						lag = append(lag, arrival{h, uint(i - 1)})
					}
				}
			}
			if !run(n, all, nil) || !run(n, early, round(n, uint(iv+1), 0, 0)) || !run(n, lag, round(n, uint(iv+1), 0, 0)) {
				return
			}
			if n > 1 { // one jumps ahead
				if !run(n, append(append([]arrival{}, all...), arrival{1, uint(iv + iv)}), nil) || !run(n, []arrival{{1, uint(iv)}, {}, {1, 1}, {}}, nil) {
					return
				}
			}
		}
	}
}
