package remote

import (
	"fmt"
	"regexp"
	"time"

	"finchverif/report"
	"finchverif/vsched"
)

// use of data keys by a statement.
type use struct {
	who   string
	stage int
	sql   string
}

var keysRe = regexp.MustCompile(`'stage \d+', (\S+), (\S+)$`)

// scopes: a global key has one value in a process, and a stage key one per stage
// and process.
func (w *world) scopes() string {
	vals, of := map[string]string{}, map[string]string{}
	for _, u := range w.used {
		m := keysRe.FindStringSubmatch(u.sql)
		if m == nil {
			return fmt.Sprintf("%s executed %q", u.who, u.sql)
		}
		for k, val := range map[string]string{
			"the global key of " + u.who:                             m[1],
			fmt.Sprintf("the key of stage %d of %s", u.stage, u.who): m[2],
		} {
			if v, ok := vals[k]; ok && v != val {
				return fmt.Sprintf("%s has values %s and %s", k, v, val)
			}
			vals[k] = val
			if o, ok := of[val]; ok && o != k {
				return fmt.Sprintf("value %s belongs to %s and %s", val, o, k)
			}
			of[val] = k
		}
	}
	return ""
}

// ScopeUnits: data keys of stages that run on a server and remote instances.
func ScopeUnits() (us []report.Unit) {
	for _, s := range []spec{
		{n: 2, stages: 2, iters: 2},
		{n: 3, stages: 2, iters: 1},
		{n: 2, stages: 3, iters: 1},
		{n: 2, noLocal: true, stages: 2, iters: 2},
		{n: 1, stages: 3, iters: 2},
	} {
		s := s
		s.keys, s.delay = true, 300*ms
		us = append(us, report.Unit{Name: "several instances: " + s.String(), Run: func(c *report.Ctx) {
			judge := func(w *world) string {
				if b := w.scopes(); b != "" {
					return b
				}
				return w.complete()
			}
			explore(c, s, vsched.Opts{Name: "keys, schedules", Bound: c.Pick(1, 2), SiteCap: 1}, nil, 2*time.Minute, nil, judge)
			explore(c, s, vsched.Opts{Name: "keys, one fault"}, withFaults(1, anyRequest), 10*time.Minute, nil, judge)
		}})
	}
	return
}
