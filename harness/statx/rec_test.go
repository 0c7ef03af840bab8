package statx

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/square/finch/stats"

	"finchverif/vsched"
)

// recorder is a reporter that keeps what was reported: the live instances and a
// copy made then.
type recorder struct {
	mu    sync.Mutex
	live  [][]stats.Instance
	got   [][]stats.Instance
	stops int
	late  bool // reported after Stop
}

var rec *recorder

func (r *recorder) Report(from []stats.Instance) {
	vsched.NoPreempt(func() {
		r.mu.Lock()
		defer r.mu.Unlock()
		if r.stops > 0 {
			r.late = true
		}
		r.live = append(r.live, append([]stats.Instance{}, from...))
		var l []stats.Instance
		for _, in := range from {
			l = append(l, copyInstance(in))
		}
		r.got = append(r.got, l)
	})
}

func (r *recorder) Stop() { r.stops++ }

// changed: a reported instance is not what it was when reported.
func (r *recorder) changed() string {
	for i := range r.got {
		for j := range r.got[i] {
			if a, b := show(r.got[i][j]), show(r.live[i][j]); a != b {
				return fmt.Sprintf("instance %d of report %d changed after it was reported:\n%s\nnow\n%s", j+1, i+1, a, b)
			}
		}
	}
	return ""
}

func copyInstance(in stats.Instance) stats.Instance {
	c := in
	c.Total = copyStats(in.Total)
	c.Trx = map[string]*stats.Stats{}
	for k, v := range in.Trx {
		c.Trx[k] = copyStats(v)
	}
	return c
}

func copyStats(s *stats.Stats) *stats.Stats {
	if s == nil {
		return nil
	}
	n := stats.NewStats()
	for i := range s.Buckets {
		copy(n.Buckets[i], s.Buckets[i])
	}
	copy(n.Min, s.Min)
	copy(n.Max, s.Max)
	copy(n.N, s.N)
	for k, v := range s.Errors {
		n.Errors[k] = v
	}
	return n
}

func showStats(s *stats.Stats) string {
	if s == nil {
		return "nil"
	}
	var b strings.Builder
	for _, c := range classes {
		fmt.Fprintf(&b, "%d:%d,%d,%d", c, s.N[c], s.Min[c], s.Max[c])
		for i, n := range s.Buckets[c] {
			if n != 0 {
				fmt.Fprintf(&b, " b%d=%d", i, n)
			}
		}
		b.WriteString("; ")
	}
	var e []string
	for k, v := range s.Errors {
		if v != 0 {
			e = append(e, fmt.Sprintf("%d=%d", k, v))
		}
	}
	sort.Strings(e)
	return b.String() + strings.Join(e, ",")
}

func show(in stats.Instance) string {
	var names []string
	for k := range in.Trx {
		names = append(names, k)
	}
	sort.Strings(names)
	s := fmt.Sprintf("%s clients %d interval %d seconds %v runtime %v total {%s}", in.Hostname, in.Clients, in.Interval, in.Seconds, in.Runtime, showStats(in.Total))
	for _, n := range names {
		s += " " + n + " {" + showStats(in.Trx[n]) + "}"
	}
	return s
}

type recFactory struct{}

func (recFactory) Make(string, map[string]string) (stats.Reporter, error) { return rec, nil }

func init() { stats.Register("verif", recFactory{}) }
