package remote

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/square/finch/stats"

	"finchverif/fakedb"
	"finchverif/report"
	"finchverif/simnet"
	"finchverif/vsched"
)

// statKey: stats of one instance for one interval of a stage
type statKey struct {
	stage    int
	host     string
	interval uint
}

func (k statKey) String() string {
	return fmt.Sprintf("stage %d %s interval %d", k.stage, k.host, k.interval)
}

func parseStats(body []byte) (in stats.Instance, ok bool) {
	ok = json.Unmarshal(body, &in) == nil && in.Total != nil
	return in, ok
}

// sentStats: what remotes put on the wire, per key the first body, and all attempts.
func (w *world) sentStats() (map[statKey]stats.Instance, map[statKey][]*simnet.Attempt) {
	first := map[statKey]stats.Instance{}
	all := map[statKey][]*simnet.Attempt{}
	for _, a := range w.net.Attempts() {
		if a.Path != "/stats" {
			continue
		}
		in, ok := parseStats(a.Body)
		if !ok {
			continue
		}
		k := statKey{w.ids[a.Query.Get("stage-id")], name(a.Tag), in.Interval}
		if _, ok := first[k]; !ok {
			first[k] = in
		}
		all[k] = append(all[k], a)
	}
	return first, all
}

func canon(in stats.Instance) string {
	b, _ := json.Marshal(in)
	return string(b)
}

// reportedOnce: what no fault may break.
func (w *world) reportedOnce() (map[statKey]stats.Instance, string) {
	sent, _ := w.sentStats()
	got := map[statKey]stats.Instance{}
	for _, r := range w.reports {
		if r.late {
			return nil, fmt.Sprintf("stage %d: report after the reporter was stopped", r.stage)
		}
		for _, in := range r.in {
			k := statKey{r.stage, in.Hostname, in.Interval}
			if in.Interval != r.in[0].Interval {
				return nil, fmt.Sprintf("%s is reported together with interval %d", k, r.in[0].Interval)
			}
			if _, ok := got[k]; ok {
				return nil, fmt.Sprintf("%s is reported twice", k)
			}
			got[k] = in
			ex := w.execs(r.stage)
			part := in.Hostname == "local" && !w.noLocal
			for p := range ex {
				part = part || name(p) == in.Hostname
			}
			if !part {
				return nil, fmt.Sprintf("%s is reported, but %q did not run the stage", k, in.Hostname)
			}
			for t := range in.Trx {
				if t != fmt.Sprintf("s%d.sql", r.stage) {
					return nil, fmt.Sprintf("%s: trx %s is reported", k, t)
				}
			}
			var sum [stats.TOTAL + 1]uint64
			for _, x := range in.Trx {
				for i := range sum {
					sum[i] += x.N[i]
				}
			}
			for i := range sum {
				if sum[i] != in.Total.N[i] {
					return nil, fmt.Sprintf("%s: the trx have %d events of type %d, all together %d", k, sum[i], i, in.Total.N[i])
				}
			}
			if in.Hostname == "local" {
				continue
			}
			s, ok := sent[k]
			if !ok {
				return nil, fmt.Sprintf("%s is reported, but was never sent", k)
			}
			if canon(s) != canon(in) {
				return nil, fmt.Sprintf("%s: reported %.300s sent %.300s", k, canon(in), canon(s))
			}
		}
	}
	// never more than was executed
	for s := 1; s <= w.stages; s++ {
		n := w.counts(got, s)
		for p, q := range w.queries(s) {
			if n[p] > q {
				return nil, fmt.Sprintf("stage %d: %d queries of %s are reported, %d were executed", s, n[p], p, q)
			}
			delete(n, p)
		}
		for p := range n {
			if n[p] > 0 {
				return nil, fmt.Sprintf("stage %d: queries of %s are reported, none were executed", s, p)
			}
		}
	}
	return got, ""
}

// counts: reported queries per instance.
func (w *world) counts(got map[statKey]stats.Instance, stage int) map[string]int {
	n := map[string]int{}
	for k, in := range got {
		if k.stage == stage {
			n[k.host] += int(in.Total.N[stats.READ])
		}
	}
	return n
}

// queries: executed queries per instance.
func (w *world) queries(stage int) map[string]int {
	n := map[string]int{}
	for p, l := range w.execs(stage) {
		n[name(p)] += len(l)
	}
	return n
}

// missing: keys that are not reported although a request with them reached the server.
func (w *world) missing(got map[statKey]stats.Instance) []statKey {
	sent, _ := w.sentStats()
	var l []statKey
	for k := range sent {
		if _, ok := got[k]; !ok {
			l = append(l, k)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}

func statsOnce(w *world) string {
	_, b := w.reportedOnce()
	return b
}

// statsAll: everything is reported, exactly once.
func statsAll(w *world) string {
	if b := all(w); b != "" {
		return b
	}
	got, b := w.reportedOnce()
	if b != "" {
		return b
	}
	if m := w.missing(got); len(m) > 0 {
		return fmt.Sprintf("%s was sent and is not reported", m[0])
	}
	return w.allCounted(got)
}

func (w *world) allCounted(got map[statKey]stats.Instance) string {
	for s := 1; s <= w.stages; s++ {
		if n := w.count[fmt.Sprintf("reporter of stage %d stopped", s)]; n != 1 {
			return fmt.Sprintf("the reporter of stage %d was stopped %d times", s, n)
		}
		n := w.counts(got, s)
		for p, q := range w.queries(s) {
			if n[p] != q {
				return fmt.Sprintf("stage %d: %d queries of %s are reported, %d were executed", s, n[p], p, q)
			}
		}
		// intervals without a gap
		last := map[string]uint{}
		for k := range got {
			if k.stage == s && k.interval > last[k.host] {
				last[k.host] = k.interval
			}
		}
		for h, m := range last {
			for i := uint(1); i <= m; i++ {
				if _, ok := got[statKey{s, h, i}]; !ok {
					return fmt.Sprintf("%s is not reported", statKey{s, h, i})
				}
			}
		}
	}
	return ""
}

// A stage waits this long for statistics of the last interval of the local
// instance, then reports them incomplete; the rest is discarded.
const lastWait = 3 * time.Second

// withSpeeds: statements take different times on different instances.
func withSpeeds(d map[string]time.Duration) func(w *world) {
	return func(w *world) {
		w.answer = func(e *fakedb.Event) (fakedb.Answer, bool) {
			s := stageOf(e.SQL)
			x, ok := d[name(e.Tag)]
			if s == 0 || !ok {
				return fakedb.Answer{}, false
			}
			w.record("exec", s)
			return fakedb.Answer{Delay: x}, true
		}
	}
}

var statFaults = []simnet.Fault{
	{},
	{Name: "request lost, connection reset", NoServe: true, Err: true},
	{Name: "request lost, no answer", NoServe: true, Hang: true},
	{Name: "response lost, connection reset", Err: true},
	{Name: "response lost, no answer", Hang: true},
	{Name: "request delayed until after the timeout", Late: -1},
	{Name: "request delayed, connection reset, arrives with the retry", Late: 10 * ms, Err: true},
	{Name: "request delayed, connection reset, arrives after the retry", Late: 100 * ms, Err: true},
	{Name: "request delayed, connection reset, arrives after the next interval", Late: 900 * ms, Err: true},
}

// withDuplicates: requests with stats reach the server again at any event.
func withDuplicates(n int) func(w *world) {
	return func(w *world) {
		left := n
		w.onTick(func() {
			if left == 0 {
				return
			}
			var old []*simnet.Attempt
			seen := map[statKey]bool{}
			for _, a := range w.net.Attempts() {
				if a.Path != "/stats" || !a.Served {
					continue
				}
				in, _ := parseStats(a.Body)
				k := statKey{w.ids[a.Query.Get("stage-id")], name(a.Tag), in.Interval}
				if !seen[k] {
					seen[k] = true
					old = append(old, a)
				}
			}
			k := vsched.Choose(1 + len(old))
			if k == 0 {
				return
			}
			left--
			a := old[k-1]
			w.record(fmt.Sprintf("duplicate %s", a.Tag), 0)
			w.net.Replay(a)
		})
	}
}

func TestC22(t *testing.T) {
	f := "600ms"
	two := spec{n: 2, stages: 1, iters: 5, delay: 350 * ms, freq: f}
	three := spec{n: 3, stages: 1, iters: 5, delay: 350 * ms, freq: f}
	remote2 := spec{n: 2, noLocal: true, stages: 1, iters: 5, delay: 350 * ms, freq: f}
	stages := spec{n: 2, stages: 2, iters: 3, delay: 350 * ms, freq: f}
	stages3 := spec{n: 3, stages: 2, iters: 3, delay: 350 * ms, freq: f}
	remotes2 := spec{n: 2, noLocal: true, stages: 2, iters: 3, delay: 350 * ms, freq: f}
	end := spec{n: 3, stages: 2, iters: 2, delay: 350 * ms}
	endRemote := spec{n: 2, noLocal: true, stages: 2, iters: 2, delay: 350 * ms}
	isStats := func(a *simnet.Attempt) bool { return a.Path == "/stats" }
	us := []report.Unit{}
	for i, s := range []spec{two, remote2, end, stages, stages3, three, remotes2, endRemote} {
		i, s := i, s
		fr := ""
		if s.freq == "" {
			fr = " at the end"
		}
		us = append(us,
			report.Unit{Name: "a fault of a request with stats: " + s.String() + fr, Run: func(c *report.Ctx) {
				explore(c, s, vsched.Opts{Name: "one fault"}, withKinds(1, statFaults, isStats), 2*time.Minute, nil, statsAll)
			}},
			report.Unit{Name: "faults of requests with stats: " + s.String() + fr, Run: func(c *report.Ctx) {
				n := 2
				if i >= 4 && !c.Thorough() { // single ones are above
					return
				}
				explore(c, s, vsched.Opts{Name: "faults"}, withKinds(c.Pick(n, n+1), statFaults, isStats), 2*time.Minute, nil, statsOnce)
			}},
			report.Unit{Name: "a fault of any request: " + s.String() + fr, Run: func(c *report.Ctx) {
				explore(c, s, vsched.Opts{Name: "a fault of any request"}, withFaults(1, anyRequest), 10*time.Minute, nil, statsOnce)
			}},
			report.Unit{Name: "duplicates: " + s.String() + fr, Run: func(c *report.Ctx) {
				explore(c, s, vsched.Opts{Name: "duplicates"}, withDuplicates(c.Pick(1, 2)), 2*time.Minute, nil, statsAll)
			}},
			report.Unit{Name: "crash or cancellation: " + s.String() + fr, Run: func(c *report.Ctx) {
				explore(c, s, vsched.Opts{Name: "crash of a remote"}, withCrash(anyRequest), 2*time.Minute, nil, statsOnce)
				explore(c, s, vsched.Opts{Name: "cancel"}, withCancel(nil, []time.Duration{0, 50 * ms}, afterCancel), 2*time.Minute, nil, statsOnce)
			}},
		)
	}
	for _, s := range []spec{{n: 2, stages: 1, iters: 3, delay: 320 * ms, freq: "200ms"}, {n: 2, noLocal: true, stages: 1, iters: 3, delay: 320 * ms, freq: "200ms"}} {
		s := s
		us = append(us, report.Unit{Name: "intervals shorter than a timeout: " + s.String(), Run: func(c *report.Ctx) {
			explore(c, s, vsched.Opts{Name: "short intervals"}, withKinds(c.Pick(2, 3), statFaults, isStats), 2*time.Minute, nil, statsOnce)
		}})
	}
	for _, s := range []spec{{n: 2, stages: 1, iters: 2, delay: 350 * ms, freq: "250ms"}, {n: 2, noLocal: true, stages: 1, iters: 1, delay: 320 * ms, freq: "200ms"}, {n: 3, stages: 1, iters: 1, delay: 300 * ms}, {n: 2, stages: 2, iters: 1, delay: 300 * ms}} {
		s := s
		us = append(us, report.Unit{Name: "schedules: " + s.String() + " freq " + s.freq, Run: func(c *report.Ctx) {
			explore(c, s, vsched.Opts{Name: "schedules", Bound: c.Pick(1, 2), SiteCap: 1}, nil, 2*time.Minute, nil, statsAll)
		}})
	}
	// instances that do not end at the same time
	type speeds map[string]time.Duration
	for i, sp := range []speeds{
		{"r1": 190 * ms},
		{"r1": 190 * ms, "r2": 550 * ms},
		{"server": 190 * ms},
		{"server": 950 * ms, "r2": 190 * ms},
		{"server": 190 * ms, "r1": 550 * ms},
		{"r1": 1150 * ms},
		{"r1": 2510 * ms},
	} {
		for _, s := range []spec{two, three, remote2, end, endRemote, stages3} {
			s, sp := s, sp
			us = append(us, report.Unit{Name: fmt.Sprintf("speeds %d: %s freq %s", i, s, s.freq), Run: func(c *report.Ctx) {
				explore(c, s, vsched.Opts{Name: fmt.Sprint("speeds ", sp)}, withSpeeds(sp), 2*time.Minute, nil, func(w *world) string {
					if b := w.safety(); b != "" && !strings.Contains(b, "still running") {
						return b
					}
					got, b := w.reportedOnce()
					if b != "" {
						return b
					}
					sent, att := w.sentStats()
					for _, k := range w.missing(got) {
						ex := w.execs(k.stage)["local"]
						if w.noLocal || len(ex) == 0 {
							return fmt.Sprintf("%s was sent and is not reported", k)
						}
						d := w.delay
						if x, ok := sp["server"]; ok {
							d = x
						}
						if att[k][0].At.Sub(ex[len(ex)-1].at.Add(d)) < lastWait {
							return fmt.Sprintf("%s was sent and is not reported", k)
						}
						got[k] = sent[k]
					}
					return w.allCounted(got)
				})
			}})
		}
	}
	us = append(us, report.Unit{Name: "sizes", Run: func(c *report.Ctx) {
		for _, freq := range []string{"", "1s"} {
			for _, s := range bigClusters(c, freq) {
				if d := time.Duration(s.iters) * s.delay; freq != "" && d > time.Second && d%time.Second < 550*ms {
					continue // what comes after the last collection: a finding of C15
				}
				explore(c, s, vsched.Opts{Name: "no fault"}, nil, 5*time.Minute, nil, statsAll)
			}
		}
		explore(c, spec{n: 5, stages: 1, iters: 3, delay: 350 * ms, freq: "600ms"}, vsched.Opts{Name: "one fault"}, withKinds(1, statFaults, isStats), 2*time.Minute, nil, statsAll)
		explore(c, spec{n: 2, stages: 1, iters: 19, delay: 350 * ms, freq: "1s"}, vsched.Opts{Name: "one fault"}, withKinds(1, statFaults, isStats), 2*time.Minute, nil, statsAll)
	}})
	us = append(us, senderUnits()...)
	report.Main(t, report.Check{
		ID:          "C22",
		Level:       "fault_enumeration",
		Rule:        "evaluation = one choice of faults, duplicates, speeds or one interleaving of a cluster of the real server and real clients with statistics; every reported interval is compared with the requests that carried it and with the executed statements; distinct = by history of observed events",
		Assumptions: assumptions,
		Units:       us,
	})
}
