package remote

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"finchverif/fakedb"
	"finchverif/report"
	"finchverif/simnet"
	"finchverif/vsched"
)

// onTick calls f at every event and request until the server returned.
func (w *world) onTick(f func()) {
	busy := false
	tick := func() {
		if busy || !w.returned.IsZero() || w.hung {
			return
		}
		busy = true
		f()
		busy = false
	}
	w.onEvent = func(e ev) {
		if e.kind != "return" {
			tick()
		}
	}
	plan := w.plan
	w.plan = func(a *simnet.Attempt) simnet.Fault {
		tick()
		if plan != nil {
			return plan(a)
		}
		return simnet.Fault{}
	}
}

// what happens to remotes and the network from the moment of cancellation
var afterCancel = []string{"", "remotes crash", "requests are lost", "requests are lost, no answer", "responses are lost"}

// withCancel: the server is cancelled at any event, or some time after it.
func withCancel(from func(w *world) bool, delays []time.Duration, after []string) func(w *world) {
	return func(w *world) {
		chosen, mode := false, ""
		plan := w.plan
		w.plan = func(a *simnet.Attempt) simnet.Fault {
			if !w.canceled.IsZero() {
				switch mode {
				case "requests are lost":
					return simnet.Fault{Name: mode, NoServe: true, Err: true}
				case "requests are lost, no answer":
					return simnet.Fault{Name: mode, NoServe: true, Hang: true}
				case "responses are lost":
					return simnet.Fault{Name: mode, Err: true}
				}
			}
			if plan != nil {
				return plan(a)
			}
			return simnet.Fault{}
		}
		w.onTick(func() {
			if chosen || from != nil && !from(w) {
				return
			}
			k := vsched.Choose(1 + len(delays)*len(after))
			if k == 0 {
				return
			}
			chosen = true
			d := delays[(k-1)/len(after)]
			mode = after[(k-1)%len(after)]
			do := func() {
				if !w.returned.IsZero() {
					return
				}
				w.canceled = time.Now()
				w.record("cancel "+mode, 0)
				w.cancel()
				if mode == "remotes crash" {
					for p, on := range w.procs {
						if on {
							w.dead[p] = true
						}
					}
				}
			}
			if d == 0 {
				do()
				return
			}
			vsched.Go(func() { vsched.Sleep(d); do() })
		})
	}
}

func (w *world) inStage(s int) bool {
	for _, e := range w.log {
		if e.stage >= s {
			return true
		}
	}
	return false
}

// cancelled is judged when nothing but the cancellation happened: remotes get the
// chance to stop and say that they are done.
func cancelled(w *world) string {
	for _, f := range []func() string{w.safety, w.notEarly, w.bounded} {
		if b := f(); b != "" {
			return b
		}
	}
	if w.canceled.IsZero() {
		return all(w)
	}
	if w.returned.Sub(w.canceled) >= 3*time.Second {
		return ""
	}
	// who runs a stage says so before the server returns
	run := map[string]bool{}
	for _, e := range w.log {
		switch e.kind {
		case "exec":
			if e.who != "local" {
				run[e.who] = true
			}
		case "done":
			delete(run, e.who)
		case "return":
			for p := range run {
				return fmt.Sprintf("cancelled at %.3f, the server returned at %.3f without waiting for %s", w.canceled.Sub(w.t0).Seconds(), w.returned.Sub(w.t0).Seconds(), p)
			}
		}
	}
	return ""
}

func safeAndBounded(w *world) string {
	if b := w.safety(); b != "" {
		return b
	}
	return w.bounded()
}

// withStale: requests of stage 1 reach the server again at any event of stage 2.
func withStale(n int) func(w *world) {
	return func(w *world) {
		left := n
		polling := false
		var tick func()
		tick = func() {
			if left == 0 || !w.inStage(2) || !w.returned.IsZero() {
				return
			}
			if !w.canceled.IsZero() && !polling {
				polling = true
				vsched.Go(func() {
					for i := 0; i < 3; i++ {
						vsched.Sleep(40 * ms)
						tick()
					}
				})
			}
			var old []*simnet.Attempt
			seen := map[string]bool{}
			for _, a := range w.net.Attempts() {
				id := a.Query.Get("stage-id")
				if id == "" || w.ids[id] != 1 {
					continue
				}
				k := name(a.Tag) + a.Method + a.Path
				if !seen[k] {
					seen[k] = true
					old = append(old, a)
				}
			}
			k := vsched.Choose(1 + len(old))
			if k == 0 {
				return
			}
			left--
			a := old[k-1]
			w.record(fmt.Sprintf("stale %s %s of %s", a.Method, a.Path, a.Tag), 0)
			w.net.Replay(a)
		}
		w.onTick(tick)
	}
}

// withErrors: instances may say that they are done with an error.
func withErrors(w *world) {
	said := map[string]int{}
	w.plan = func(a *simnet.Attempt) simnet.Fault {
		if a.Path == "/run" && a.Method == "POST" {
			k := a.Tag + a.Query.Get("stage-id")
			if said[k] == 0 {
				said[k] = 1 + vsched.Choose(2)
			}
			if said[k] == 2 {
				a.Body = []byte("Error 1290: The MySQL server is running with the --read-only option")
				w.record("says error", w.ids[a.Query.Get("stage-id")])
			}
		}
		return simnet.Fault{}
	}
}

func TestC19(t *testing.T) {
	run := spec{n: 2, stages: 1, iters: 3, delay: 900 * ms}
	three := spec{n: 3, stages: 1, iters: 3, delay: 900 * ms}
	remote2 := spec{n: 2, noLocal: true, stages: 1, iters: 3, delay: 900 * ms}
	stages := spec{n: 2, stages: 2, iters: 2, delay: 700 * ms}
	stages3 := spec{n: 3, stages: 2, iters: 2, delay: 700 * ms}
	remotes3 := spec{n: 2, noLocal: true, stages: 2, iters: 2, delay: 700 * ms}
	extra := spec{n: 2, remotes: 2, stages: 2, iters: 2, delay: 700 * ms}
	freq := spec{n: 2, stages: 1, iters: 3, delay: 900 * ms, freq: "500ms"}
	noStats := spec{n: 3, stages: 2, iters: 2, delay: 700 * ms, noStats: true}
	noStats2 := spec{n: 2, stages: 2, iters: 2, delay: 700 * ms, noStats: true}
	us := []report.Unit{}
	for _, s := range []spec{noStats2, stages3, remotes3, three, remote2, run, stages, extra, freq, noStats} {
		s := s
		suf := ""
		if s.noStats {
			suf = "no stats: "
		}
		if s.freq != "" {
			suf = "freq: "
		}
		us = append(us,
			report.Unit{Name: suf + "cancel: " + s.String(), Run: func(c *report.Ctx) {
				ds := []time.Duration{0, 50 * ms, 650 * ms}
				explore(c, s, vsched.Opts{Name: "cancel", Bound: 0}, withCancel(nil, ds, afterCancel[:1]), 2*time.Minute, nil, cancelled)
				explore(c, s, vsched.Opts{Name: "cancel and lose", Bound: 0}, withCancel(nil, ds[:1], afterCancel[1:]), 2*time.Minute, nil, safeAndBounded)
			}},
			report.Unit{Name: suf + "crash and cancel: " + s.String(), Run: func(c *report.Ctx) {
				explore(c, s, vsched.Opts{Name: "crash of a remote, then cancel", Bound: 0}, func(w *world) {
					withCrash(anyRequest)(w)
					later := false
					w.onTick(func() {
						if w.crashed() && !later {
							later = true
							k := vsched.Choose(3)
							vsched.Go(func() {
								vsched.Sleep([]time.Duration{0, 400 * ms, 5 * time.Second}[k])
								if w.returned.IsZero() {
									w.canceled = time.Now()
									w.record("cancel", 0)
									w.cancel()
								}
							})
						}
					})
				}, 2*time.Minute, nil, safeAndBounded)
			}},
			report.Unit{Name: suf + "crash while running, cancel: " + s.String(), Run: func(c *report.Ctx) {
				explore(c, s, vsched.Opts{Name: "crash of a remote in a statement, then cancel", Bound: 0}, func(w *world) {
					w.answer = func(e *fakedb.Event) (fakedb.Answer, bool) {
						if stageOf(e.SQL) == 0 || e.Tag == "server" || w.crashed() {
							return fakedb.Answer{}, false
						}
						k := vsched.Choose(3)
						if k == 0 {
							return fakedb.Answer{}, false
						}
						w.kill(e.Tag)
						vsched.Go(func() {
							vsched.Sleep([]time.Duration{0, 0, 4 * time.Second}[k])
							if w.returned.IsZero() {
								w.canceled = time.Now()
								w.record("cancel", 0)
								w.cancel()
							}
						})
						return fakedb.Answer{Delay: 24 * time.Hour, NoCtx: true}, true
					}
				}, 2*time.Minute, nil, safeAndBounded)
			}},
			report.Unit{Name: suf + "faults while running: " + s.String(), Run: func(c *report.Ctx) {
				m := func(a *simnet.Attempt) bool {
					return a.Path == "/ping" || a.Path == "/stats" || a.Path == "/run"
				}
				explore(c, s, vsched.Opts{Name: "faults while running", Bound: 0}, withFaults(c.Pick(1, 2), m), 10*time.Minute, nil, all)
				// all answers to the last message
				explore(c, s, vsched.Opts{Name: "no answer to POST /run", Bound: 0}, withKinds(c.Pick(3, 6), []simnet.Fault{{}, faultKinds[3], faultKinds[4]}, func(a *simnet.Attempt) bool {
					return a.Path == "/run" && a.Method == "POST"
				}), 10*time.Minute, nil, all)
			}},
		)
		us = append(us, report.Unit{Name: suf + "done with an error: " + s.String(), Run: func(c *report.Ctx) {
			explore(c, s, vsched.Opts{Name: "done with an error", Bound: 0}, withErrors, 2*time.Minute, nil, all)
			explore(c, s, vsched.Opts{Name: "done with an error, cancel", Bound: 0}, func(w *world) {
				withErrors(w)
				withCancel(nil, []time.Duration{0}, afterCancel[:1])(w)
			}, 2*time.Minute, nil, cancelled)
		}})
		if s.stages > 1 {
			us = append(us, report.Unit{Name: suf + "stale requests: " + s.String(), Run: func(c *report.Ctx) {
				explore(c, s, vsched.Opts{Name: "stale requests", Bound: 0}, withStale(c.Pick(1, 2)), 2*time.Minute, nil, all)
				if s.n == 2 && (!s.noLocal || c.Thorough()) {
					explore(c, s, vsched.Opts{Name: "stale requests and cancel", Bound: 0}, func(w *world) {
						withCancel(func(w *world) bool { return w.inStage(2) }, []time.Duration{0}, afterCancel[:1])(w)
						evf, pl := w.onEvent, w.plan
						withStale(1)(w)
						ev2, pl2 := w.onEvent, w.plan
						w.onEvent = func(e ev) { evf(e); ev2(e) }
						w.plan = func(a *simnet.Attempt) simnet.Fault {
							pl2(a)
							return pl(a)
						}
					}, 2*time.Minute, nil, cancelled)
				}
			}})
		}
	}
	for _, s := range []spec{run, remote2, stages} {
		s := s
		s.test = true
		us = append(us, report.Unit{Name: "cancel a boot test: " + s.String(), Run: func(c *report.Ctx) {
			explore(c, s, vsched.Opts{Name: "cancel", Bound: 0}, withCancel(nil, []time.Duration{0, 50 * ms}, afterCancel), 2*time.Minute, nil, safeAndBounded)
		}})
	}
	// the end of a stage under all schedules
	for _, s := range []spec{
		{n: 2, stages: 1, iters: 1, delay: 300 * ms},
		{n: 2, noLocal: true, stages: 1, iters: 1, delay: 300 * ms},
		{n: 2, stages: 2, iters: 1, delay: 300 * ms, noStats: true},
	} {
		s := s
		us = append(us, report.Unit{Name: "schedules: " + s.String(), Run: func(c *report.Ctx) {
			explore(c, s, vsched.Opts{Name: "schedules", Bound: c.Pick(1, 2), SiteCap: 1}, nil, 2*time.Minute, nil, all)
		}})
		us = append(us, report.Unit{Name: "cancel and schedules: " + s.String(), Run: func(c *report.Ctx) {
			explore(c, s, vsched.Opts{Name: "cancel and schedules", Bound: 1, SiteCap: 1}, withCancel(func(w *world) bool {
				return w.log[len(w.log)-1].kind == "exec" || w.log[len(w.log)-1].kind == "done"
			}, []time.Duration{0}, afterCancel[:1]), 2*time.Minute, nil, cancelled)
		}})
	}
	// one message in two copies at the same time, under all schedules
	for _, s := range []spec{
		{n: 3, stages: 1, iters: 1, delay: 900 * ms, noStats: true},
		{n: 2, noLocal: true, stages: 1, iters: 1, delay: 900 * ms, noStats: true},
	} {
		s := s
		us = append(us, report.Unit{Name: "duplicates and schedules: " + s.String(), Run: func(c *report.Ctx) {
			explore(c, s, vsched.Opts{Name: "duplicates and schedules", Bound: c.Pick(1, 2), SiteCap: 1}, func(w *world) {
				w.answer = func(e *fakedb.Event) (fakedb.Answer, bool) {
					if stageOf(e.SQL) == 1 && strings.HasPrefix(e.Tag, "r1") {
						w.record("exec", 1)
						return fakedb.Answer{Delay: 300 * ms}, true
					}
					return fakedb.Answer{}, false
				}
				w.plan = func(a *simnet.Attempt) simnet.Fault {
					if a.Path == "/run" && a.Method == "POST" && strings.HasPrefix(a.Tag, "r1") {
						if w.count["dup"]++; w.count["dup"] == 1 {
							w.net.Replay(a) // delayed, arrives together with the retry
						}
					}
					return simnet.Fault{}
				}
			}, 2*time.Minute, nil, func(w *world) string {
				for _, f := range []func() string{w.safety, w.complete, w.bounded} {
					if b := f(); b != "" {
						return b
					}
				}
				for _, e := range w.log {
					if e.kind == "exec" && !strings.HasPrefix(e.who, "r1") && w.returned.Before(e.at.Add(w.delay)) {
						return fmt.Sprintf("the server returned before %s was done", e.who)
					}
				}
				return ""
			})
		}})
	}
	report.Main(t, report.Check{
		ID:          "C19",
		Level:       "model_checking",
		Rule:        "evaluation = one choice of cancellation, crash, fault or stale request (and one interleaving) of a cluster of the real server and real clients; distinct = by history of observed events",
		Assumptions: assumptions,
		Units:       us,
	})
}
