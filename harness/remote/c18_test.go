package remote

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"finchverif/fakedb"
	"finchverif/report"
	"finchverif/simnet"
	"finchverif/vsched"
)

// all is judged when nothing keeps the cluster from completing.
func all(w *world) string {
	for _, f := range []func() string{w.safety, w.notEarly, w.complete, w.bounded} {
		if b := f(); b != "" {
			return b
		}
	}
	return ""
}

func bootRequest(a *simnet.Attempt) bool {
	return a.Path == "/boot" || a.Path == "/run" && a.Method == "GET"
}

// withBootFailure: connecting fails for chosen boots of remote instances.
func withBootFailure(n int) func(w *world) {
	return func(w *world) {
		left := n
		w.answer = func(e *fakedb.Event) (fakedb.Answer, bool) {
			if e.Kind != "connect" || left == 0 || !strings.HasPrefix(e.Tag, "r") {
				return fakedb.Answer{}, false
			}
			for _, x := range w.log { // only while booting
				if x.kind == "booted" && x.who == e.Tag {
					return fakedb.Answer{}, false
				}
			}
			if vsched.Choose(2) == 1 {
				left--
				w.record("boot failure", 0)
				return fakedb.Answer{Err: fakedb.MyErr(1045)}, true
			}
			return fakedb.Answer{}, false
		}
	}
}

// withCrash: one remote crashes at a request, before it is sent or when it was
// answered.
func withCrash(match func(a *simnet.Attempt) bool) func(w *world) {
	return func(w *world) {
		w.plan = func(a *simnet.Attempt) simnet.Fault {
			if w.crashed() || !w.early(a) || !match(a) {
				return simnet.Fault{}
			}
			switch vsched.Choose(3) {
			case 1:
				w.kill(a.Tag)
			case 2:
				return simnet.Fault{After: func() { w.kill(a.Tag); vsched.Exit() }}
			}
			return simnet.Fault{}
		}
	}
}

func TestC18(t *testing.T) {
	two := spec{n: 2, stages: 1, iters: 2, delay: 300 * ms}
	three := spec{n: 3, stages: 1, iters: 2, delay: 300 * ms}
	remote2 := spec{n: 2, noLocal: true, stages: 1, iters: 2, delay: 300 * ms}
	extra := spec{n: 2, remotes: 2, stages: 1, iters: 2, delay: 300 * ms, late: []time.Duration{10 * ms, 10 * ms}}
	stages := spec{n: 2, stages: 2, iters: 2, delay: 300 * ms}
	stages3 := spec{n: 3, stages: 2, iters: 2, delay: 300 * ms}
	long := spec{n: 2, remotes: 2, stages: 2, iters: 3, delay: 1500 * ms, late: []time.Duration{10 * ms, 2500 * ms}}
	us := []report.Unit{}
	for _, s := range []spec{stages3, three, remote2, two, extra, stages, long} {
		s := s
		us = append(us,
			report.Unit{Name: "schedules: " + s.String(), Run: func(c *report.Ctx) {
				explore(c, s, vsched.Opts{Name: "schedules", Bound: c.Pick(1, 2), SiteCap: 1}, nil, 2*time.Minute, nil, all)
			}},
			report.Unit{Name: "one fault: " + s.String(), Run: func(c *report.Ctx) {
				explore(c, s, vsched.Opts{Name: "one fault", Bound: 0}, withFaults(1, anyRequest), 10*time.Minute, nil, all)
			}},
		)
	}
	// an instance that boots late: the others must wait for it
	waits := spec{n: 3, stages: 1, iters: 2, delay: 300 * ms, late: []time.Duration{10 * ms, 1500 * ms}}
	waits2 := spec{n: 2, noLocal: true, stages: 2, iters: 2, delay: 300 * ms, late: []time.Duration{10 * ms, 1500 * ms}}
	for _, s := range []spec{waits, waits2} {
		s := s
		for _, k := range lateKinds[1:] {
			k := k
			us = append(us, report.Unit{Name: k.Name + " and schedules: " + s.String(), Run: func(c *report.Ctx) {
				s := s
				if !c.Thorough() {
					s.stages = 1
				}
				explore(c, s, vsched.Opts{Name: k.Name + ", schedules", Bound: c.Pick(1, 2), SiteCap: 1},
					withKinds(1, []simnet.Fault{{}, k}, func(a *simnet.Attempt) bool {
						return (a.Path == "/boot" || c.Thorough() && bootRequest(a)) && name(a.Tag) == "r1"
					}), 10*time.Minute, nil, all)
			}})
		}
		us = append(us,
			report.Unit{Name: "two faults: " + s.String(), Run: func(c *report.Ctx) {
				explore(c, s, vsched.Opts{Name: "two faults"}, withFaults(2, func(a *simnet.Attempt) bool {
					return (a.Path == "/boot" || c.Thorough()) && len(a.Tag) < 5 // not of a late restart
				}), 5*time.Minute, nil, (*world).safety)
			}},
			report.Unit{Name: "crash: " + s.String(), Run: func(c *report.Ctx) {
				explore(c, s, vsched.Opts{Name: "crash of a remote", Bound: c.Pick(0, 1), SiteCap: 1}, withCrash(anyRequest), 2*time.Minute, nil, (*world).safety)
			}},
		)
	}
	// one message in two copies at the same time
	for _, s := range []spec{waits, waits2} {
		s := s
		s.stages = 1
		for _, k := range []string{"GET/boot", "POST/boot", "GET/run"} {
			k := k
			us = append(us, report.Unit{Name: "duplicate " + k + " and schedules: " + s.String(), Run: func(c *report.Ctx) {
				explore(c, s, vsched.Opts{Name: "duplicate " + k + ", schedules", Bound: c.Pick(1, 2), SiteCap: 1}, func(w *world) {
					w.plan = func(a *simnet.Attempt) simnet.Fault {
						if name(a.Tag) == "r1" && a.Method+a.Path == k {
							if w.count["dup"]++; w.count["dup"] == 1 {
								w.net.Replay(a) // delayed, arrives together with the retry
							}
						}
						return simnet.Fault{}
					}
				}, 2*time.Minute, nil, all)
			}})
		}
	}
	for _, s := range []spec{two, three, remote2, extra, stages} {
		s := s
		us = append(us,
			report.Unit{Name: "boot failures: " + s.String(), Run: func(c *report.Ctx) {
				explore(c, s, vsched.Opts{Name: "boot failures", Bound: c.Pick(0, 1), SiteCap: 1}, withBootFailure(c.Pick(2, 3)), 10*time.Minute, nil, all)
			}},
			report.Unit{Name: "crash while booting: " + s.String(), Run: func(c *report.Ctx) {
				// until the server knows that it booted
				explore(c, s, vsched.Opts{Name: "crash while booting", Bound: c.Pick(0, 1), SiteCap: 1}, withCrash(func(a *simnet.Attempt) bool {
					return a.Path == "/boot" && a.Method == "GET" || a.Path == "/file"
				}), 10*time.Minute, nil, all)
			}},
			report.Unit{Name: "local boot failure: " + s.String(), Run: func(c *report.Ctx) {
				if s.noLocal {
					return
				}
				for k := 1; k <= s.stages; k++ {
					k := k
					explore(c, s, vsched.Opts{Name: fmt.Sprintf("local boot failure in stage %d", k)}, func(w *world) {
						n := 0
						w.answer = func(e *fakedb.Event) (fakedb.Answer, bool) {
							if e.Kind == "connect" && e.Tag == "server" {
								n++
								if n == 2*(k-1)+1 {
									return fakedb.Answer{Err: fakedb.MyErr(1045)}, true
								}
							}
							return fakedb.Answer{}, false
						}
					}, 2*time.Minute, nil, func(w *world) string {
						if b := w.safety(); b != "" {
							return b
						}
						if w.hung || w.serverErr == nil {
							return fmt.Sprintf("hung %v, error %v although the local instance cannot boot stage %d", w.hung, w.serverErr, k)
						}
						if len(w.execs(k)) > 0 {
							return fmt.Sprintf("stage %d run although the local instance cannot boot it", k)
						}
						return ""
					})
				}
			}},
		)
	}
	for _, s := range []spec{two, three, remote2, extra, stages, stages3} {
		s := s
		s.test = true
		us = append(us, report.Unit{Name: "boot test: " + s.String(), Run: func(c *report.Ctx) {
			explore(c, s, vsched.Opts{Name: "schedules", Bound: c.Pick(1, 2), SiteCap: 1}, nil, 2*time.Minute, nil, func(w *world) string {
				if b := all(w); b != "" {
					return b
				}
				// remotes are told
				for _, a := range w.net.Attempts() {
					if a.Path == "/run" && a.Method == "GET" && a.Status != 205 {
						return fmt.Sprintf("%s booted successfully but got status %d (0: none) instead of the end of the boot test", a.Tag, a.Status)
					}
				}
				return ""
			})
			explore(c, s, vsched.Opts{Name: "one fault"}, withFaults(1, anyRequest), 10*time.Minute, nil, all)
		}})
	}
	us = append(us, report.Unit{Name: "sizes", Run: func(c *report.Ctx) {
		for _, s := range bigClusters(c, "") {
			explore(c, s, vsched.Opts{Name: "no fault"}, nil, 5*time.Minute, nil, all)
			s.test = true
			explore(c, s, vsched.Opts{Name: "no fault"}, nil, 5*time.Minute, nil, all)
		}
		// one fault in a larger cluster
		explore(c, spec{n: 5, stages: 2, iters: 1, delay: 300 * ms}, vsched.Opts{Name: "one fault"}, withFaults(1, anyRequest), 10*time.Minute, nil, all)
		explore(c, spec{n: 4, noLocal: true, stages: 3, iters: 1, delay: 300 * ms}, vsched.Opts{Name: "one fault"}, withFaults(1, anyRequest), 10*time.Minute, nil, all)
		for n := 4; n <= c.Pick(6, 8); n++ {
			for _, noLocal := range []bool{false, true} {
				explore(c, spec{n: n, noLocal: noLocal, stages: 1, iters: 1, delay: 300 * ms}, vsched.Opts{Name: "boot failures"}, withBootFailure(c.Pick(1, 2)), 10*time.Minute, nil, all)
			}
		}
	}})
	report.Main(t, report.Check{
		ID:          "C18",
		Level:       "model_checking",
		Rule:        "evaluation = one interleaving, or one choice of faults, of a cluster of the real server and real clients; distinct = by history of observed events",
		Assumptions: assumptions,
		Units:       us,
	})
}

var assumptions = []string{
	"processes share nothing but a simulated network and per-process virtual file systems; requests reach the real HTTP handlers, responses and errors come back as net/http would deliver them (connection reset, timeout, response lost, request delayed)",
	"virtual time: computing takes no time, statements and requests take the stated delays",
	"scheduling points are the statements of package compute that touch shared state and all blocking operations; other packages switch at blocking operations only",
	"an instance that does not answer is not distinguished from one that crashed",
}

// bigClusters: one dimension at a time, far beyond the small clusters.
func bigClusters(c *report.Ctx, freq string) (l []spec) {
	for n := 4; n <= c.Pick(12, 24); n++ {
		l = append(l, spec{n: n, stages: 1, iters: 2, delay: 300 * ms, freq: freq}, spec{n: n, noLocal: true, stages: 2, iters: 1, delay: 300 * ms, freq: freq})
	}
	for n := 3; n <= c.Pick(12, 24); n++ {
		l = append(l, spec{n: 2, stages: n, iters: 1, delay: 300 * ms, freq: freq}, spec{n: 2, noLocal: true, stages: n, iters: 2, delay: 300 * ms, freq: freq}, spec{n: 1 + n/3, stages: n, iters: 1, delay: 50 * ms, freq: freq})
	}
	for n := 3; n <= c.Pick(40, 200); n += 1 + n/4 {
		l = append(l, spec{n: 2, stages: 1, iters: n, delay: 300 * ms, freq: freq})
	}
	return
}
