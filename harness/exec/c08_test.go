package exec

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/square/finch/config"
	"github.com/square/finch/data"

	"finchverif/fakedb"
	"finchverif/fin"
	"finchverif/report"
	"finchverif/vsched"
)

var errDown = errors.New("connect: connection refused")
var errUse = errors.New("unknown database")
var errPrepare = errors.New("cannot prepare")

// outage is a connection history of one client.
type outage struct {
	pl       plan
	connects string // outcome of the client's connection attempts in order: o ok, r refused, h hangs; then ok
	use      int    // n-th USE fails (1-based), 0: none
	prepare  int    // n-th PREPARE fails
	cancelEv int    // the run is cancelled at this event of the log (1-based), 0: not
	cancelAt time.Duration
}

func (o outage) String() string {
	return fmt.Sprintf("errors:%s connects:%q use:%d prepare:%d cancel-event:%d cancel-at:%s", o.pl, o.connects, o.use, o.prepare, o.cancelEv, o.cancelAt)
}

type outageRun struct {
	db        *fakedb.DB
	events    int
	err       error
	cancel    context.CancelFunc
	cancelled bool
	cancelT   time.Time
	end       time.Time
}

func (o outage) start(r *outageRun) {
	stm := o.pl.answer(nil)
	nconn, nuse, nprep := 0, 0, 0
	r.db = &fakedb.DB{Answer: func(e *fakedb.Event) (a fakedb.Answer) {
		if e.Conn > 1 { // not the connection test
			r.events++
			if r.events == o.cancelEv {
				r.cancelled = true
				r.cancelT = time.Now()
				r.cancel()
			}
		}
		switch {
		case e.Kind == "connect" && e.Conn > 1:
			if nconn < len(o.connects) {
				switch o.connects[nconn] {
				case 'r':
					a.Err = errDown
				case 'h':
					a.Delay = time.Minute
					a.Err = errDown
				}
			}
			nconn++
			return a
		case e.Kind == "prepare":
			nprep++
			if nprep == o.prepare {
				a.Err = errPrepare
			}
			return a
		case strings.HasPrefix(e.SQL, "USE ") && e.Kind != "prepare":
			nuse++
			if nuse == o.use {
				a.Err = errUse
			}
			return a
		}
		return stm(e)
	}}
}

// safety: what must hold of the log whatever happened.
func (p program) safety(evs []fakedb.Event) string {
	want := map[string]bool{}
	for _, f := range p.files {
		for _, l := range f {
			if l.prep {
				for _, o := range l.out {
					s, _ := resolve(o, true, 1, 1, 1)
					want[s] = true
				}
			}
		}
	}
	db := p.groups[0].db
	type state struct {
		used     bool
		closed   bool
		stmts    map[int]string
		open     map[int]bool
		texts    map[string]bool
		executed bool
	}
	cs := map[int]*state{}
	last := 0
	for _, e := range evs {
		if e.Kind == "connect" {
			if e.Err == nil {
				cs[e.Conn] = &state{stmts: map[int]string{}, open: map[int]bool{}, texts: map[string]bool{}}
				last = e.Conn
			}
			continue
		}
		c := cs[e.Conn]
		if c == nil {
			return "event on a connection that was never made: " + e.String()
		}
		if c.closed && e.Kind != "sclose" {
			return "event on a closed connection: " + e.String()
		}
		switch e.Kind {
		case "close":
			c.closed = true
			continue
		case "sclose":
			delete(c.open, e.Stmt)
			continue
		}
		if e.Conn != last {
			return fmt.Sprintf("the old connection is used after connection %d was made: %s", last, e)
		}
		switch e.Kind {
		case "prepare":
			if db != "" && !c.used {
				return "statement prepared before the default database was selected: " + e.String()
			}
			if e.Err == nil {
				c.stmts[e.Stmt] = e.SQL
				c.open[e.Stmt] = true
				c.texts[e.SQL] = true
			}
		case "exec", "query", "sexec", "squery":
			if db != "" && e.SQL == "USE `"+db+"`" {
				if e.Err == nil {
					c.used = true
				}
				continue
			}
			if e.SQL == "ROLLBACK" {
				continue
			}
			if db != "" && !c.used {
				return fmt.Sprintf("connection %d executes %q without having selected the default database", e.Conn, e.SQL)
			}
			for s := range want {
				if !c.texts[s] {
					return fmt.Sprintf("connection %d executes %q without having prepared %q", e.Conn, e.SQL, s)
				}
			}
			if e.Kind[0] == 's' && c.stmts[e.Stmt] != e.SQL {
				return "statement prepared on another connection is used: " + e.String()
			}
		}
	}
	for n, c := range cs {
		if !c.closed {
			return fmt.Sprintf("connection %d is left open (%d prepared statements open on it)", n, len(c.open))
		}
	}
	return ""
}

func TestC08(t *testing.T) {
	var units []report.Unit
	try := func(c *report.Ctx, p program, cfg config.Stage, o outage) (events int, elapsed time.Duration) {
		if c.TimeUp() || c.Violated() {
			return
		}
		steps, fails, ok := p.predict(1, 1, o.pl)
		if !ok {
			return
		}
		var v string
		vsched.Explore(c.T, &vsched.Scenario{
			Opts: vsched.Opts{Name: "one", Bound: 0},
			New: func() (func(), func(vsched.Run) (string, string)) {
				r := &outageRun{}
				o.start(r)
				vsched.OpenDB = r.db.OpenFn()
				v = ""
				body := func() {
					ctx, cancel := context.WithCancel(context.Background())
					if o.cancelAt > 0 {
						ctx, cancel = context.WithTimeout(context.Background(), o.cancelAt)
						r.cancelled = true
						r.cancelT = time.Now().Add(o.cancelAt)
					}
					r.cancel = cancel
					defer cancel()
					r.err = fin.RunStage(ctx, cfg, data.NewScope(), nil)
					// clients that outlive the stage (it does not wait for them
					// after the run was cancelled) must clean up within bounded time
					r.end = time.Now()
					if r.cancelled {
						vsched.Sleep(5 * time.Second)
					}
				}
				return body, func(run vsched.Run) (string, string) {
					evs := r.db.Events()
					events, elapsed = r.events, run.Elapsed
					switch {
					case r.err != nil && !r.cancelled:
						v = "stage failed: " + r.err.Error()
					case run.Deadlock || run.Livelock:
						v = "the stage does not end"
					default:
						v = p.safety(evs)
					}
					if v == "" && o.use == 0 && o.prepare == 0 {
						want, got := expected(steps), sent(evs)
						if r.cancelled {
							if len(got) > len(want) {
								v = diff(want, got)
							} else {
								v = diff(want[:len(got)], got)
							}
						} else {
							v = diff(want, got)
						}
					}
					_ = fails
					if v == "" && r.cancelled {
						for _, e := range evs {
							if e.At.After(r.cancelT) && (strings.HasSuffix(e.Kind, "exec") || strings.HasSuffix(e.Kind, "query")) {
								v = fmt.Sprintf("statement sent %s after the run was cancelled: %s", e.At.Sub(r.cancelT), e)
							}
							if e.At.Sub(r.cancelT) > 3*time.Second {
								v = fmt.Sprintf("still busy %s after the run was cancelled: %s", e.At.Sub(r.cancelT), e)
							}
						}
					}
					return "x", v
				}
			},
		})
		if v != "" {
			c.Violate(p.String()+" "+o.String(), v+"\nprogram: "+p.String()+"\nhistory: "+o.String(), o.String())
		}
		c.Case(p.String() + o.String())
		c.State(1, len(steps), 1)
		return
	}
	progs := map[string]program{
		"prepared":        {files: [][]letter{letters("select/p", "keys/p")}, groups: []cgroup{{clients: 1, iter: 2, db: "d"}}},
		"prepared copies": {files: [][]letter{letters("copies/p", "select"), letters("keys/p")}, groups: []cgroup{{clients: 1, iter: 2, db: "d"}}},
		"prepared no db":  {files: [][]letter{letters("keys", "select/p")}, groups: []cgroup{{clients: 1, iter: 3}}},
		"text":            {files: [][]letter{letters("begin", "keys", "commit")}, groups: []cgroup{{clients: 1, iter: 2, db: "d"}}},
		"copies numbered": {files: [][]letter{letters("copyno/p", "save")}, groups: []cgroup{{clients: 1, iter: 2, db: "d"}}},
		"files twice":     {files: [][]letter{letters("keys/p"), letters("select/p")}, groups: []cgroup{{clients: 1, iter: 2, order: []int{1, 0, 1}, db: "d"}}},
	}
	conPlans := []string{"", "o", "or", "orr", "oh", "ohr", "orh", "r", "h", "rr", "rh", "rhorh", "orrrr", "ohhh", "oor", "ooh", "oorr"}
	lost := []int{6, 8, 9, 10, 11, 12, 15, 16} // reconnecting faults
	for name, p := range progs {
		name, p := name, p
		units = append(units, report.Unit{Name: name + ": losses", Run: func(c *report.Ctx) {
			cfg := p.load(c.T)
			n := p.total()
			for _, cp := range conPlans {
				try(c, p, cfg, outage{connects: cp})
				for a := 0; a < n; a++ {
					for _, f := range lost {
						try(c, p, cfg, outage{pl: plan{at: map[int]int{a: f}}, connects: cp})
					}
					for b := a + 1; b < n; b++ {
						for _, f := range lost[1:4] {
							try(c, p, cfg, outage{pl: plan{at: map[int]int{a: f, b: f}}, connects: cp})
						}
						// a handled error does not change the connection
						try(c, p, cfg, outage{pl: plan{at: map[int]int{a: 3, b: 8}}, connects: cp})
						try(c, p, cfg, outage{pl: plan{at: map[int]int{a: 8, b: 0}}, connects: cp})
					}
				}
			}
		}})
		units = append(units, report.Unit{Name: name + ": USE and PREPARE failures", Run: func(c *report.Ctx) {
			cfg := p.load(c.T)
			n := p.total()
			for k := 1; k <= 8; k++ {
				try(c, p, cfg, outage{use: k})
				try(c, p, cfg, outage{prepare: k})
				for a := 0; a < n; a++ {
					for _, cp := range []string{"", "or", "oh"} {
						try(c, p, cfg, outage{pl: plan{at: map[int]int{a: 8}}, use: k, connects: cp})
						try(c, p, cfg, outage{pl: plan{at: map[int]int{a: 8}}, prepare: k, connects: cp})
					}
				}
			}
		}})
		units = append(units, report.Unit{Name: name + ": run cancelled", Run: func(c *report.Ctx) {
			cfg := p.load(c.T)
			n := p.total()
			for _, cp := range []string{"", "or", "oh", "r", "h"} {
				for a := -1; a < n; a++ {
					o := outage{connects: cp}
					if a >= 0 {
						o.pl = plan{at: map[int]int{a: 8}}
					}
					evs, el := try(c, p, cfg, o)
					for k := 1; k <= evs; k++ {
						o.cancelEv = k
						try(c, p, cfg, o)
					}
					o.cancelEv = 0
					for d := 50 * time.Millisecond; d < el+100*time.Millisecond && d < 3*time.Second; d += 100 * time.Millisecond {
						o.cancelAt = d
						try(c, p, cfg, o)
					}
				}
			}
		}})
	}
	// several clients: each keeps to its own connection
	sched := func(name string, p program, bound int, thorough bool, lose string) {
		units = append(units, report.Unit{Name: name, Thorough: thorough, Run: func(c *report.Ctx) {
			cfg := p.load(c.T)
			c.Explore(&vsched.Scenario{
				Opts: vsched.Opts{Name: name, Bound: bound},
				New: func() (func(), func(vsched.Run) (string, string)) {
					done := map[string]int{}
					db := &fakedb.DB{Answer: func(e *fakedb.Event) (a fakedb.Answer) {
						if e.Kind == "sexec" || e.Kind == "exec" || e.Kind == "squery" {
							a = rowsFor(e)
							s := statement(*e)
							if strings.Contains(s, lose) && done["lost"] == 0 {
								done["lost"]++
								a.Err = fakedb.MyErr(2013)
							}
						}
						return
					}}
					vsched.OpenDB = db.OpenFn()
					var err error
					return func() { err = fin.RunStage(context.Background(), cfg, data.NewScope(), nil) }, func(r vsched.Run) (string, string) {
						if err != nil {
							return "err", err.Error()
						}
						if r.Deadlock || r.Livelock {
							return "stuck", "the stage does not end"
						}
						evs := db.Events()
						owner := map[int]string{}
						open := map[int]bool{}
						stm := map[int]int{}
						n := map[string]int{}
						o := ""
						for _, e := range evs {
							o += fmt.Sprintf("%d%s ", e.Conn, e.Kind)
							switch e.Kind {
							case "connect":
								open[e.Conn] = true
							case "close":
								delete(open, e.Conn)
							case "prepare":
								stm[e.Stmt] = e.Conn
							case "sexec", "squery":
								if stm[e.Stmt] != e.Conn {
									return o, "prepared statement used on another connection: " + e.String()
								}
							}
							if len(e.Args) > 0 {
								a := e.Args[0]
								cl := a[strings.Index(a, ".")+1 : strings.LastIndex(a, "i")]
								if owner[e.Conn] != "" && owner[e.Conn] != cl {
									return o, fmt.Sprintf("connection %d is used by clients %s and %s", e.Conn, owner[e.Conn], cl)
								}
								owner[e.Conn] = cl
								n[cl]++
							}
						}
						if len(open) > 0 {
							return o, fmt.Sprintf("connections left open: %v", open)
						}
						for cl, k := range n {
							if k < p.groups[0].iter {
								return o, fmt.Sprintf("client %s executed only %d statements", cl, k)
							}
						}
						if len(n) != p.groups[0].clients {
							return o, fmt.Sprintf("only clients %v executed anything", n)
						}
						return o, ""
					}
				},
			})
		}})
	}
	two := program{files: [][]letter{letters("select/p", "keys/p")}, groups: []cgroup{{clients: 2, iter: 2, db: "d"}}}
	sched("2 clients, the first loses its connection", two, 1, false, "g1c1i1")
	sched("2 clients, the second loses its connection", two, 1, false, "g1c2i1")
	sched("2 clients, the first loses its connection, bound 2", two, 2, true, "g1c1i1")
	report.Main(t, report.Check{ID: "C08", Level: "fault_enumeration",
		Rule:        "one case = one program with one history of connection losses, connection attempts (ok, refused, hanging), USE/PREPARE failures and cancellation points, run by the real client on the fake database in virtual time; the log is checked for use of stale connections and statements, missing USE/PREPARE, leaks, and against the reference model of executed statements; distinct = distinct histories",
		Assumptions: []string{"a connection is gone for MySQL when the driver connection is closed", "states = histories, transitions = expected statements; every history runs on the implementation"},
		Units:       units})
}
