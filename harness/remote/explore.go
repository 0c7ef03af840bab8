package remote

import (
	"database/sql"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/square/finch/config"

	"finchverif/report"
	"finchverif/simnet"
	"finchverif/vsched"
)

type configStage = config.Stage

// explore runs a cluster. setup adds faults, judge decides.
func explore(c *report.Ctx, s spec, o vsched.Opts, setup func(w *world), limit time.Duration, during func(w *world) func(), judge func(w *world) string) bool {
	cfg := s.load(c.T)
	dir, err := os.MkdirTemp("", "cluster")
	if err != nil {
		c.T.Fatal(err)
	}
	defer os.RemoveAll(dir)
	o.Name = fmt.Sprintf("%s: %s", s, o.Name)
	if o.MaxSteps == 0 {
		o.MaxSteps = 200000
	}
	o.Background = true
	var w *world
	o.OpenDB = func(d, dsn string) (*sql.DB, error) { return w.db.Sql(), nil }
	c.Explore(&vsched.Scenario{Opts: o, New: func() (func(), func(vsched.Run) (string, string)) {
		w = newWorld(s, cfg, dir)
		if setup != nil {
			setup(w)
		}
		body := func() {
			var d func()
			if during != nil {
				d = during(w)
			}
			w.run(limit, d)
		}
		return body, func(r vsched.Run) (string, string) {
			vsched.FS = nil
			b := broken(r)
			if b == "" {
				b = judge(w)
			}
			if b != "" {
				return "", b + "\n" + w.history()
			}
			return w.outcome(), ""
		}
	}})
	return !c.Violated()
}

func (w *world) outcome() string {
	var s []string
	for _, e := range w.log {
		if e.kind != "connect" {
			s = append(s, e.String())
		}
	}
	if len(w.files) > 0 {
		n := 0
		for _, c := range w.files {
			n += len(c)
		}
		s = append(s, fmt.Sprint(w.order, n, w.sent()["server"]))
	}
	return strings.Join(s, ";")
}

const ms = time.Millisecond

// withFaults: at most n faults in an execution, on requests match accepts.
func withFaults(n int, match func(a *simnet.Attempt) bool) func(w *world) {
	return withKinds(n, faultKinds, match)
}

func withKinds(n int, kinds []simnet.Fault, match func(a *simnet.Attempt) bool) func(w *world) {
	return func(w *world) {
		left := n
		w.plan = func(a *simnet.Attempt) simnet.Fault {
			if left == 0 || !w.early(a) || !match(a) {
				return simnet.Fault{}
			}
			f := w.pick(a, kinds)
			if f.Name != "" {
				left--
			}
			return f
		}
	}
}

// early: one of the first requests of this kind by this process (clients poll).
func (w *world) early(a *simnet.Attempt) bool {
	k := a.Tag + a.Method + a.Path
	w.count[k]++
	return w.count[k] <= 3
}

func anyRequest(a *simnet.Attempt) bool { return true }

func (w *world) sent() map[string][]string {
	m := map[string][]string{}
	for _, e := range w.db.Log {
		if e.Kind != "prepare" && e.Kind != "sclose" && strings.Contains(e.SQL, "'file ") {
			m[e.Tag] = append(m[e.Tag], e.SQL)
		}
	}
	return m
}
