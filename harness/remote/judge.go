package remote

import (
	"fmt"
	"time"

	"finchverif/fakedb"
	"finchverif/simnet"
	"finchverif/vsched"
)

// safety judges what no fault, schedule or cancellation may break: the boot barrier,
// the number of instances, the order of stages.
func (w *world) safety() string {
	for s := 1; s <= w.stages; s++ {
		var first *ev
		booted := map[string]bool{}
		connects := 0
		for i := range w.log {
			e := &w.log[i]
			if e.kind == "exec" && e.stage == s {
				first = e
				break
			}
			if e.kind == "booted" && e.stage == s {
				booted[name(e.who)] = true
			}
			if e.kind == "connect" && e.who == "local" {
				connects++
			}
		}
		if first == nil {
			continue
		}
		n := len(booted)
		if !w.noLocal && connects >= 2*(s-1)+1 {
			n++
		}
		if n < w.n {
			return fmt.Sprintf("%s runs stage %d when %d instances had booted it, %d required", first.who, s, n, w.n)
		}
		ex := w.execs(s)
		if len(ex) > w.n {
			return fmt.Sprintf("stage %d run by %d instances (%s), expected %d", s, len(ex), keys(ex), w.n)
		}
		names := map[string]string{}
		for p, l := range ex {
			if o := names[name(p)]; o != "" {
				return fmt.Sprintf("stage %d run twice by %s (%s and %s)", s, name(p), o, p)
			}
			names[name(p)] = p
			if p == "local" && w.noLocal {
				return fmt.Sprintf("stage %d run locally although disabled", s)
			}
			if p != "local" && !booted[name(p)] {
				return fmt.Sprintf("stage %d run by %s which did not boot it", s, p)
			}
			if len(l) > w.iters {
				return fmt.Sprintf("%s executed %d iterations of stage %d, expected %d", p, len(l), s, w.iters)
			}
		}
		if w.test {
			return fmt.Sprintf("%s runs stage %d in a boot test", first.who, s)
		}
	}
	// order
	var end time.Time
	cur := 0
	for _, e := range w.log {
		if e.kind != "exec" {
			continue
		}
		if e.stage < cur {
			return fmt.Sprintf("%s executes stage %d when stage %d had begun", e.who, e.stage, cur)
		}
		if e.stage > cur {
			if cur > 0 && e.stage != cur+1 || cur == 0 && e.stage != 1 {
				return fmt.Sprintf("%s executes stage %d after stage %d", e.who, e.stage, cur)
			}
			if e.at.Before(end) && !w.crashed() {
				return fmt.Sprintf("%s executes stage %d when stage %d was still running", e.who, e.stage, cur)
			}
			cur = e.stage
		}
		if x := e.at.Add(w.delay); x.After(end) {
			end = x
		}
	}
	return ""
}

func (w *world) crashed() bool { return len(w.dead) > 0 }

// complete: every stage was run by all its instances and the server returned after
// that, in time.
func (w *world) complete() string {
	if w.hung {
		return "the server did not return"
	}
	if w.serverErr != nil {
		return fmt.Sprintf("server returned error %v", w.serverErr)
	}
	end := w.t0
	for s := 1; s <= w.stages && !w.test; s++ {
		ex := w.execs(s)
		if len(ex) != w.n {
			return fmt.Sprintf("stage %d run by %d instances (%s), expected %d", s, len(ex), keys(ex), w.n)
		}
		for p, l := range ex {
			if len(l) != w.iters {
				return fmt.Sprintf("%s executed %d iterations of stage %d, expected %d", p, len(l), s, w.iters)
			}
			if x := l[len(l)-1].at.Add(w.delay); x.After(end) {
				end = x
			}
		}
	}
	return ""
}

// notEarly: the server does not move on while an instance runs a stage.
func (w *world) notEarly() string {
	if !w.canceled.IsZero() || w.returned.IsZero() {
		return ""
	}
	ret := false
	for _, e := range w.log {
		if e.kind == "return" {
			ret = true
		}
		if e.kind == "exec" && !w.dead[e.who] {
			if ret {
				return fmt.Sprintf("%s executes stage %d after the server returned", e.who, e.stage)
			}
			if x := e.at.Add(w.delay); x.After(w.returned) {
				return fmt.Sprintf("the server returned %.3fs before %s was done with stage %d", x.Sub(w.returned).Seconds(), e.who, e.stage)
			}
		}
	}
	return ""
}

// bounded: the server returns soon after everything is done.
func (w *world) bounded() string {
	if !w.canceled.IsZero() {
		if w.hung {
			return fmt.Sprintf("the server did not return after it was cancelled at %.3f", w.canceled.Sub(w.t0).Seconds())
		}
		if d := w.returned.Sub(w.canceled); d > 7*time.Second {
			return fmt.Sprintf("the server returned %s after it was cancelled", d)
		}
		return ""
	}
	if w.hung {
		return "the server did not return"
	}
	var last time.Time
	for _, e := range w.log {
		if e.kind == "done" || e.kind == "exec" || e.kind == "booted" {
			x := e.at
			if e.kind == "exec" {
				x = x.Add(w.delay)
			}
			if x.After(last) {
				last = x
			}
		}
	}
	if d := w.returned.Sub(last); d > 5*time.Second {
		return fmt.Sprintf("the server returned %s after the last instance was done", d)
	}
	return ""
}

// broken: something crashed
func broken(r vsched.Run) string {
	if len(r.Panics) > 0 {
		return fmt.Sprintf("panic: %v\n%s", r.Panics[0].Val, r.Panics[0].Stack)
	}
	if len(r.Fatals) > 0 {
		return "fatal: " + r.Fatals[0]
	}
	if r.Livelock {
		return "no progress (livelock)"
	}
	return ""
}

// faults that can happen to one request
var faultKinds = []simnet.Fault{
	{},
	{Name: "request lost, connection reset", NoServe: true, Err: true},
	{Name: "request lost, no answer", NoServe: true, Hang: true},
	{Name: "response lost, connection reset", Err: true},
	{Name: "response lost, no answer", Hang: true},
	{Name: "request delayed until after the timeout", Late: -1},
	{Name: "request delayed, connection reset", Late: 100 * time.Millisecond, Err: true}, // arrives together with the retry
}

// lateKinds: the request arrives although the client tries again.
var lateKinds = []simnet.Fault{{}, faultKinds[3], faultKinds[5], faultKinds[6]}

// pick chooses a fault for an attempt.
func (w *world) pick(a *simnet.Attempt, kinds []simnet.Fault) simnet.Fault {
	f := kinds[vsched.Choose(len(kinds))]
	if f.Late < 0 {
		f.Late = time.Second
		if a.HasDL {
			f.Late = time.Until(a.Deadline) + 20*time.Millisecond
		}
	}
	if f.Name != "" {
		w.record(fmt.Sprintf("fault %s %s %q: %s", a.Method, a.Path, a.Tag, f.Name), 0)
	}
	return f
}

func newWorld(s spec, cfg []configStage, dir string) *world {
	return &world{spec: s, cfg: cfg, dir: dir, db: &fakedb.DB{}}
}
