package statx

import (
	"fmt"
	"testing"
	"time"

	"github.com/square/finch/config"
	"github.com/square/finch/stats"

	"finchverif/report"
	"finchverif/vsched"
)

// event is something recorded by a client, or a collection; when it began and
// ended (logical time).
type event struct {
	begin, end int
	trx        int
	class      byte
	us         int64
	errno      uint16
	clean      bool // overlaps no collection
}

// sc15: clients recording while intervals are collected.
type sc15 struct {
	clients  [][]step // what each client does
	trx      []string // name of each trx (the same for every client)
	collects int      // periodic collections
	freq     time.Duration
}

type step struct {
	trx   int
	class byte  // 0-3
	us    int64 // 0: an error instead
	errno uint16
}

func (s sc15) scenario(name string, bound int) *vsched.Scenario {
	return &vsched.Scenario{
		Opts: vsched.Opts{Name: name, Bound: bound, MaxSteps: 20000, SiteCap: 3, Horizon: time.Hour},
		New: func() (func(), func(vsched.Run) (string, string)) {
			rec = &recorder{}
			now := 0
			tick := func() (n int) {
				vsched.NoPreempt(func() { now++; n = now })
				return
			}
			evs := make([][]*event, len(s.clients))
			var cols []*event
			returned := false
			body := func() {
				c, err := stats.NewCollector(config.Stats{Freq: freqString(s.freq), Report: map[string]map[string]string{"verif": {}}}, "local", 1)
				if err != nil {
					panic(err)
				}
				all := make([][]*stats.Trx, len(s.clients))
				for i := range s.clients {
					for _, n := range s.trx {
						all[i] = append(all[i], stats.NewTrx(n))
					}
					c.Watch(all[i])
				}
				c.Start()
				left := make(chan bool, len(s.clients))
				open := make([]*event, len(s.clients)) // what each client is recording right now
				for i := range s.clients {
					i := i
					vsched.Go(func() {
						for _, st := range s.clients[i] {
							vsched.Op()
							e := &event{trx: st.trx, class: st.class, us: st.us, errno: st.errno, begin: tick()}
							evs[i] = append(evs[i], e)
							open[i] = e
							if st.us > 0 {
								all[i][st.trx].Record(st.class, st.us)
							} else {
								all[i][st.trx].Error(st.errno)
							}
							e.end = tick()
							open[i] = nil
							vsched.Point()
						}
						left <- true
					})
				}
				for k := 0; k < s.collects; k++ {
					vsched.Point()
					e := &event{begin: tick()}
					busy := append([]*event{}, open...)
					cols = append(cols, e)
					vsched.Op()
					c.Collect()
					e.end = tick()
					for _, b := range open { // those that began meanwhile
						busy = append(busy, b)
					}
					// recording takes much less time than an interval: whatever
					// was being recorded is recorded before the next collection
					for _, b := range busy {
						for b != nil && b.end == 0 {
							vsched.Sleep(time.Millisecond)
						}
					}
				}
				for range s.clients {
					vsched.Recv(left)
				}
				vsched.Sleep(time.Minute)
				e := &event{begin: tick()}
				cols = append(cols, e)
				vsched.Op()
				c.Stop(time.Second, false)
				e.end = tick()
				returned = true
			}
			check := func(r vsched.Run) (string, string) {
				if !returned {
					return "", fmt.Sprintf("Stop did not return (%+v)", r.Deadlock)
				}
				if m := rec.changed(); m != "" {
					return "", m
				}
				if rec.stops != 1 || rec.late {
					return "", fmt.Sprintf("reporter stopped %d times, report after stop: %v", rec.stops, rec.late)
				}
				if len(rec.got) != len(cols) {
					return "", fmt.Sprintf("%d reports of %d collections", len(rec.got), len(cols))
				}
				return s.judge(evs, cols)
			}
			return body, check
		},
	}
}

func freqString(d time.Duration) string {
	if d == 0 {
		return ""
	}
	return d.String()
}

func (s sc15) judge(evs [][]*event, cols []*event) (string, string) {
	out := ""
	for k, in := range rec.got {
		if len(in) != 1 || in[0].Interval != uint(k+1) || in[0].Clients != uint(len(s.clients)) {
			return "", fmt.Sprintf("report %d has %d instances, interval %d, %d clients", k+1, len(in), in[0].Interval, in[0].Clients)
		}
		out += showStats(in[0].Total) + "|"
	}
	// expected per interval and trx: what must, and what may be reported
	must := make([]map[string]*ref, len(cols))
	dirty := make([]map[string]bool, len(cols)) // something overlapping may be in it
	for k := range cols {
		must[k] = map[string]*ref{"": {}}
		dirty[k] = map[string]bool{}
		for _, n := range s.trx {
			must[k][n] = &ref{}
		}
	}
	for i := range evs {
		for _, e := range evs[i] {
			n := s.trx[e.trx]
			k0 := 0 // first collection that ends after e began
			for k0 < len(cols) && cols[k0].end < e.begin {
				k0++
			}
			if k0 == len(cols) {
				return "", "harness: record after the last collection"
			}
			if e.end < cols[k0].begin {
				if e.us > 0 {
					must[k0][n].record(e.class, e.us)
					must[k0][""].record(e.class, e.us)
				} else {
					must[k0][n].err(e.errno)
					must[k0][""].err(e.errno)
				}
				continue
			}
			// overlaps collection k0: in that interval or the next one, or neither; not in both
			dirty[k0][n], dirty[k0][""] = true, true
			dirty[k0+1][n], dirty[k0+1][""] = true, true
			if e.us == 0 {
				continue
			}
			b := bucketOf(e.us)
			for _, c := range []byte{e.class, stats.TOTAL} {
				sum := uint64(0)
				for k := range rec.got {
					sum += rec.got[k][0].Total.Buckets[c][b]
				}
				if sum > 1 {
					return "", fmt.Sprintf("the query that took %d us is reported %d times in class %d: %s", e.us, sum, c, out)
				}
			}
		}
	}
	for k := range cols {
		for n, r := range must[k] {
			st := rec.got[k][0].Total
			if n != "" {
				st = rec.got[k][0].Trx[n]
			}
			if st == nil {
				return "", fmt.Sprintf("interval %d has no statistics of trx %s", k+1, n)
			}
			if !dirty[k][n] {
				if m := equal(st, r, lists[:1]); m != "" {
					return "", fmt.Sprintf("interval %d, trx %q: %s; reports: %s", k+1, n, m, out)
				}
				continue
			}
			// every query recorded outside collections is in its interval, once
			for _, c := range classes {
				for _, d := range r.t[c] {
					if got := st.Buckets[c][bucketOf(d)]; got != 1 {
						return "", fmt.Sprintf("interval %d, trx %q: the query that took %d us is reported %d times in class %d; reports: %s", k+1, n, d, got, c, out)
					}
					if st.Max[c] < d || st.Min[c] > d {
						return "", fmt.Sprintf("interval %d, trx %q: min %d max %d of class %d, but a query took %d us", k+1, n, st.Min[c], st.Max[c], c, d)
					}
				}
				if st.N[c] < uint64(len(r.t[c])) {
					return "", fmt.Sprintf("interval %d, trx %q: %d queries of class %d, recorded %d", k+1, n, st.N[c], c, len(r.t[c]))
				}
			}
			for e, v := range r.errs {
				if st.Errors[e] < v {
					return "", fmt.Sprintf("interval %d, trx %q: error %d counted %d times, happened %d times", k+1, n, e, st.Errors[e], v)
				}
			}
		}
	}
	// in total: nothing more than what happened, errors exactly
	n, ne := uint64(0), uint64(0)
	all, alle := uint64(0), uint64(0)
	for i := range evs {
		for _, e := range evs[i] {
			if e.us > 0 {
				all++
			} else {
				alle++
			}
		}
	}
	for k := range rec.got {
		n += rec.got[k][0].Total.N[stats.TOTAL]
		for _, v := range rec.got[k][0].Total.Errors {
			ne += v
		}
	}
	if n > all || ne > alle {
		return "", fmt.Sprintf("%d queries and %d errors reported, %d and %d happened: %s", n, ne, all, alle, out)
	}
	return out, ""
}

func c15(s sc15, name string, bound int) func(*report.Ctx) {
	return func(c *report.Ctx) { c.Explore(s.scenario(name, bound)) }
}

// swapErrors: errors are counted in a map, which must not be written to while the
// collector reads it (the run-time ends the process then): once Swap has returned
// statistics, their errors don't change.
func swapErrors(nerr, nswap, bound int) func(*report.Ctx) {
	return func(c *report.Ctx) {
		c.Explore(&vsched.Scenario{
			Opts: vsched.Opts{Name: fmt.Sprintf("%d errors, %d swaps", nerr, nswap), Bound: bound, MaxSteps: 20000, SiteCap: 3, Horizon: time.Hour},
			New: func() (func(), func(vsched.Run) (string, string)) {
				t := stats.NewTrx("t")
				bad, out := "", ""
				total := uint64(0)
				done := 0
				body := func() {
					end := make(chan bool, 2)
					vsched.Go(func() {
						for i := 0; i < nerr; i++ {
							vsched.Op()
							t.Error(1213)
							vsched.Point()
						}
						end <- true
					})
					vsched.Go(func() {
						for i := 0; i < nswap; i++ {
							vsched.Op()
							s := t.Swap()
							n := s.Errors[1213]
							total += n
							out += fmt.Sprint(n, " ")
							vsched.Point() // the collector reads
							vsched.Point()
							if s.Errors[1213] != n && bad == "" {
								bad = fmt.Sprintf("errors counted while the collector reads them: %d, then %d (concurrent map access ends the run)", n, s.Errors[1213])
							}
						}
						end <- true
					})
					vsched.Recv(end)
					vsched.Recv(end)
					total += t.Swap().Errors[1213]
					done = 1
				}
				return body, func(r vsched.Run) (string, string) {
					if done == 0 {
						return "", "did not end"
					}
					if bad != "" {
						return "", bad
					}
					if total != uint64(nerr) {
						return "", fmt.Sprintf("%d errors collected, %d happened", total, nerr)
					}
					return out, ""
				}
			},
		})
	}
}

// settled: when the statistics Swap returned are read only after the query being
// recorded meanwhile is done, every query is in exactly one of them.
func settled(nrec, nswap, bound int) func(*report.Ctx) {
	return func(c *report.Ctx) {
		c.Explore(&vsched.Scenario{
			Opts: vsched.Opts{Name: fmt.Sprintf("%d records, %d swaps, settled", nrec, nswap), Bound: bound, MaxSteps: 20000, SiteCap: 3, Horizon: time.Hour},
			New: func() (func(), func(vsched.Run) (string, string)) {
				t := stats.NewTrx("t")
				all := stats.NewStats()
				r := &ref{}
				out := ""
				done := false
				body := func() {
					end := make(chan bool, 2)
					busy := false
					vsched.Go(func() {
						for i := 0; i < nrec; i++ {
							vsched.Op()
							busy = true
							t.Record(byte(i%3), int64(20+100*i*i))
							r.record(byte(i%3), int64(20+100*i*i))
							busy = false
							vsched.Point()
						}
						end <- true
					})
					vsched.Go(func() {
						for i := 0; i < nswap; i++ {
							vsched.Op()
							s := t.Swap()
							for busy {
								vsched.Sleep(time.Millisecond)
							}
							all.Combine(s)
							out += fmt.Sprint(s.N, " ")
						}
						end <- true
					})
					vsched.Recv(end)
					vsched.Recv(end)
					all.Combine(t.Swap())
					done = true
				}
				return body, func(vsched.Run) (string, string) {
					if !done {
						return "", "did not end"
					}
					if m := equal(all, r, nil); m != "" {
						return "", "all intervals together: " + m + "; per interval: " + out
					}
					return out, ""
				}
			},
		})
	}
}

const tailLost = "queries after the last periodic collection are not reported when the run ends less than half an interval later"

// periodic: statistics are collected every F; the run ends at a time end, queries
// are recorded all the time: every one is in exactly one interval, that of its time.
func periodic(c *report.Ctx) {
	const F = 8 * time.Second
	for end := F / 8; end <= 3*F+F/8; end += F / 8 {
		for _, off := range []time.Duration{0, time.Millisecond} { // ends with the tick, or later
			end := end + off
			if c.TimeUp() {
				return
			}
			type rc struct {
				at time.Duration
				us int64
			}
			var done []rc
			returned, ok := false, false
			s := &vsched.Scenario{
				Opts: vsched.Opts{Name: fmt.Sprintf("run of %s, interval %s", end, F), Bound: c.Pick(1, 2), MaxSteps: 20000, SiteCap: 1, Horizon: time.Hour},
				New: func() (func(), func(vsched.Run) (string, string)) {
					rec = &recorder{}
					done = nil
					returned = false
					body := func() {
						col, err := stats.NewCollector(config.Stats{Freq: F.String(), Report: map[string]map[string]string{"verif": {}}}, "local", 1)
						if err != nil {
							panic(err)
						}
						tr := stats.NewTrx("t")
						col.Watch([]*stats.Trx{tr})
						start := time.Now()
						col.Start()
						us := int64(20)
						for {
							vsched.Sleep(F/8 - time.Since(start)%(F/8) - F/16 + func() time.Duration {
								if time.Since(start)%(F/8) >= F/16 {
									return F / 8
								}
								return 0
							}())
							if time.Since(start) > end {
								break
							}
							tr.Record(stats.READ, us)
							done = append(done, rc{time.Since(start), us})
							us = us * 5 / 4
							if time.Since(start)+F/8 > end {
								break
							}
						}
						vsched.Sleep(end - time.Since(start))
						ok = col.Stop(3*time.Second, false)
						returned = true
					}
					check := func(r vsched.Run) (string, string) {
						if !returned {
							return "", "Stop did not return"
						}
						if !ok {
							return "", "Stop says that the final interval is incomplete"
						}
						out, prev := "", 0.0
						for k, in := range rec.got {
							x := in[0]
							if len(in) != 1 || x.Interval != uint(k+1) || x.Clients != 1 {
								return "", fmt.Sprintf("report %d has %d instances, interval %d", k+1, len(in), x.Interval)
							}
							if d := x.Runtime - prev - x.Seconds; d > 1e-6 || d < -1e-6 {
								return "", fmt.Sprintf("interval %d of %v s ends at %v s, the one before at %v s", k+1, x.Seconds, x.Runtime, prev)
							}
							if k < int(end/F) && x.Runtime != float64(k+1)*F.Seconds() || x.Runtime > end.Seconds()+1e-6 {
								return "", fmt.Sprintf("interval %d ends at %v s (run of %s, interval %s)", k+1, x.Runtime, end, F)
							}
							rr := &ref{}
							for _, q := range done {
								if q.at.Seconds() > prev && q.at.Seconds() <= x.Runtime {
									rr.record(stats.READ, q.us)
								}
							}
							if m := equal(x.Total, rr, nil); m != "" {
								return "", fmt.Sprintf("interval %d (%v s to %v s) of a run of %s: %s", k+1, prev, x.Runtime, end, m)
							}
							prev = x.Runtime
							out += fmt.Sprintf("%v:%d ", x.Runtime, len(rr.t[stats.TOTAL]))
						}
						lost := 0
						for _, q := range done {
							if q.at.Seconds() > prev {
								lost++
							}
						}
						if m := rec.changed(); m != "" {
							return "", m
						}
						if lost > 0 {
							if rest := end.Seconds() - prev; prev > 0 && rest < F.Seconds()/2 {
								c.Violate(tailLost, fmt.Sprintf("%s: run of %s, interval %s: %d queries lost", tailLost, end, F, lost), nil)
								return out + "tail lost", ""
							}
							return "", fmt.Sprintf("run of %s, interval %s: %d queries of the last %v s not reported", end, F, lost, end.Seconds()-prev)
						}
						return out, ""
					}
					return body, check
				},
			}
			c.Explore(s)
		}
	}
}

func TestC15(t *testing.T) {
	q := func(trx int, class byte, us int64) step { return step{trx: trx, class: class, us: us} }
	e := func(trx int, n uint16) step { return step{trx: trx, errno: n} }
	one := sc15{clients: [][]step{{q(0, stats.READ, 100), q(0, stats.WRITE, 2000), q(0, stats.COMMIT, 50), q(0, stats.TOTAL, 7), q(0, stats.READ, 9000)}}, trx: []string{"a"}, collects: 2}
	two := sc15{clients: [][]step{{q(0, stats.READ, 100), q(0, stats.WRITE, 2000)}, {q(0, stats.READ, 40), e(0, 1062)}}, trx: []string{"a"}, collects: 1}
	twoTrx := sc15{clients: [][]step{{q(0, stats.READ, 100), q(1, stats.WRITE, 2000), q(0, stats.COMMIT, 300)}, {q(1, stats.READ, 40), q(0, stats.READ, 60), q(1, stats.WRITE, 7000)}}, trx: []string{"a", "b"}, collects: 2}
	again := sc15{clients: [][]step{{q(0, stats.READ, 100), q(1, stats.WRITE, 2000), q(2, stats.COMMIT, 300), q(3, stats.READ, 50), e(3, 1062), q(4, stats.READ, 20)}}, trx: []string{"a", "b", "a", "a", "b"}, collects: 2}
	errs := sc15{clients: [][]step{{q(0, stats.READ, 100), e(0, 1213), e(0, 1213), q(0, stats.READ, 300), e(0, 1062)}}, trx: []string{"a"}, collects: 3}
	long := sc15{clients: [][]step{{q(0, stats.READ, 100), q(0, stats.READ, 200), q(0, stats.READ, 300), q(0, stats.READ, 400)}}, trx: []string{"a"}, collects: 3}
	report.Main(t, report.Check{
		ID:    "C15",
		Level: "model_checking",
		Rule:  "evaluation = one interleaving of the real recording code of 1-2 clients with the real collections (scheduling points at every statement of package stats that can touch shared state), every query of a distinct duration: each query is located in the reported intervals; distinct = by reported contents",
		Assumptions: []string{"sequential consistency",
			"recording one query is over before the second next collection starts (intervals are seconds, recording takes nanoseconds)",
			"a counter is incremented atomically with respect to a collection"},
		Units: []report.Unit{
			{Name: "1 client, 2 collections", Run: func(c *report.Ctx) { c15(one, "1 client", c.Pick(2, 3))(c) }},
			{Name: "2 clients, same trx", Run: func(c *report.Ctx) { c15(two, "2 clients same trx", 2)(c) }},
			{Name: "1 client, the same trx again", Run: func(c *report.Ctx) { c15(again, "1 client same trx again", c.Pick(1, 2))(c) }},
			{Name: "2 clients, 2 trx", Run: func(c *report.Ctx) { c15(twoTrx, "2 clients 2 trx", c.Pick(1, 2))(c) }},
			{Name: "errors, 3 collections", Run: func(c *report.Ctx) { c15(errs, "errors", c.Pick(2, 3))(c) }},
			{Name: "3 collections", Run: func(c *report.Ctx) { c15(long, "3 collections", c.Pick(2, 3))(c) }},
			{Name: "swap", Run: func(c *report.Ctx) { settled(3, 2, c.Pick(2, 3))(c) }},
			{Name: "periodic collection", Run: periodic},
			{Name: "errors while collecting", Run: func(c *report.Ctx) { swapErrors(2, 2, c.Pick(3, 4))(c) }},
		},
	})
}
