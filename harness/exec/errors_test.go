package exec

import (
	"bytes"
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"log"
	"strings"
	"testing"
	"time"

	"github.com/go-sql-driver/mysql"
	"github.com/square/finch/config"
	"github.com/square/finch/data"
	"github.com/square/finch/stats"

	"finchverif/fakedb"
	"finchverif/fin"
	"finchverif/report"
	"finchverif/vsched"
)

// fault is what happens to one statement execution.
type fault struct {
	name     string
	err      error
	inRows   bool // the error comes after the first rows (SELECT only)
	handling int
	code     uint16
}

const (
	hContinue  = iota // same connection, next iteration
	hRollback         // ROLLBACK, same connection, next iteration
	hReconnect        // new connection, next iteration; DDL: stop
)

var faults = []fault{
	{name: "1213", err: fakedb.MyErr(1213), handling: hContinue, code: 1213},
	{name: "1317", err: fakedb.MyErr(1317), handling: hContinue, code: 1317},
	{name: "1062", err: fakedb.MyErr(1062), handling: hContinue, code: 1062},
	{name: "1205", err: fakedb.MyErr(1205), handling: hRollback, code: 1205},
	{name: "1290", err: fakedb.MyErr(1290), handling: hRollback, code: 1290},
	{name: "1836", err: fakedb.MyErr(1836), handling: hRollback, code: 1836},
	{name: "1054", err: fakedb.MyErr(1054), handling: hReconnect, code: 1054},
	{name: "1792", err: fakedb.MyErr(1792), handling: hReconnect, code: 1792},
	{name: "2013", err: fakedb.MyErr(2013), handling: hReconnect, code: 2013},
	{name: "generic", err: errors.New("read tcp: connection reset by peer"), handling: hReconnect},
	{name: "invalid connection", err: mysql.ErrInvalidConn, handling: hReconnect},
	{name: "bad connection", err: driver.ErrBadConn, handling: hReconnect},
	{name: "EOF", err: io.ErrUnexpectedEOF, handling: hReconnect},
	{name: "1213 in rows", err: fakedb.MyErr(1213), inRows: true, handling: hContinue, code: 1213},
	{name: "1205 in rows", err: fakedb.MyErr(1205), inRows: true, handling: hRollback, code: 1205},
	{name: "2013 in rows", err: fakedb.MyErr(2013), inRows: true, handling: hReconnect, code: 2013},
	{name: "lost in rows", err: mysql.ErrInvalidConn, inRows: true, handling: hReconnect},
}

// plan: fault of the n-th statement execution of the client, and the number of
// the ROLLBACK that fails (0: none).
type plan struct {
	at           map[int]int // execution -> index in faults
	failRollback bool
}

func (p plan) String() string {
	s := ""
	for n := 0; n < 64; n++ {
		if f, ok := p.at[n]; ok {
			s += fmt.Sprintf(" #%d:%s", n, faults[f].name)
		}
	}
	if p.failRollback {
		s += " ROLLBACK fails"
	}
	return s
}

// step is one expected statement.
type step struct {
	text     string
	conn     int // 1: first connection, ...
	n        int // execution number, -1: USE, ROLLBACK
	class    string
	file     int
	read     bool
	code     uint16
	isErr    bool
	boundary bool // first statement of an iteration
}

// predict is the reference model of one client with errors: what it must send
// and whether it ends with an error. ok is false when the plan does not apply
// (fault in the rows of a statement without rows, ambiguous DDL error).
func (p program) predict(gn, c uint, pl plan) (steps []step, fails error, ok bool) {
	g := p.groups[gn-1]
	conn, n, used := 0, 0, 0
	connect := func() {
		conn++
		if g.db != "" {
			steps = append(steps, step{text: "USE `" + g.db + "`", conn: conn, n: -1})
		}
	}
	connect()
ITER:
	for it := 1; it <= g.iter; it++ {
		first := true
		for _, fi := range p.order(g) {
			for _, l := range p.files[fi] {
				for _, o := range l.out {
					s, args := resolve(o, l.prep, gn, c, uint(it))
					if l.prep {
						s = "prepared " + s + " <- " + strings.Join(args, "|")
					}
					read := strings.HasPrefix(strings.ToUpper(o), "SELECT")
					class := l.classOf(o)
					st := step{text: s, conn: conn, n: n, class: class, file: fi, read: read, boundary: first}
					first = false
					f, bad := pl.at[n]
					n++
					if !bad {
						steps = append(steps, st)
						continue
					}
					used++
					ft := faults[f]
					if ft.inRows && !read {
						return nil, nil, false
					}
					if l.ddl && ft.code == 1062 {
						return nil, nil, false
					}
					st.isErr, st.code = true, ft.code
					steps = append(steps, st)
					switch ft.handling {
					case hContinue:
					case hRollback:
						steps = append(steps, step{text: "ROLLBACK", conn: conn, n: -1})
						if pl.failRollback {
							return steps, errRollback, true
						}
					case hReconnect:
						if l.ddl {
							return steps, ft.err, used == len(pl.at)
						}
						connect()
					}
					continue ITER
				}
			}
		}
	}
	return steps, nil, used == len(pl.at)
}

var errRollback = errors.New("rollback refused")

func (l letter) classOf(out string) string {
	if strings.HasPrefix(strings.ToUpper(out), "SELECT") {
		return "read"
	}
	return l.class
}

// answer scripts the faults of a single client.
func (pl plan) answer(delay func(n int) time.Duration) func(e *fakedb.Event) fakedb.Answer {
	n := 0
	return func(e *fakedb.Event) (a fakedb.Answer) {
		switch e.Kind {
		case "exec", "query", "sexec", "squery":
		default:
			return
		}
		if strings.HasPrefix(e.SQL, "USE ") {
			return
		}
		if e.SQL == "ROLLBACK" {
			if pl.failRollback {
				a.Err = errRollback
			}
			return
		}
		a = rowsFor(e)
		if delay != nil {
			a.Delay = delay(n)
		}
		if f, ok := pl.at[n]; ok {
			if faults[f].inRows {
				a.RowErr = faults[f].err
			} else {
				a.Err = faults[f].err
			}
		}
		n++
		return
	}
}

// sent renders the log in the form of step texts, with connections numbered in
// order of first use.
func sent(evs []fakedb.Event) (l []string) {
	cs := conns(evs)
	num := map[int]int{}
	for _, e := range evs {
		if cs[e.Conn] == nil {
			continue
		}
		switch e.Kind {
		case "exec", "query", "sexec", "squery":
			if num[e.Conn] == 0 {
				num[e.Conn] = len(num) + 1
			}
			l = append(l, fmt.Sprintf("conn %d: %s", num[e.Conn], statement(e)))
		}
	}
	return
}

func expected(steps []step) (l []string) {
	conn := map[int]int{}
	for _, s := range steps {
		if conn[s.conn] == 0 {
			conn[s.conn] = len(conn) + 1
		}
		l = append(l, fmt.Sprintf("conn %d: %s", conn[s.conn], s.text))
	}
	return
}

func diff(want, got []string) string {
	w, g := strings.Join(want, "\n"), strings.Join(got, "\n")
	if w == g {
		return ""
	}
	return fmt.Sprintf("expected\n%s\nbut the client sent\n%s", w, g)
}

// errLetters: statements used in the error programs.
func errLetters() []letter {
	want := []string{"select", "keys", "begin", "commit", "ddl", "select/p", "keys/p", "copies/p"}
	var r []letter
	for _, w := range want {
		for _, l := range alphabet() {
			if l.name == w {
				r = append(r, l)
			}
		}
	}
	return append(r,
		letter{name: "save", mods: "-- save-columns: @s\n", src: "SELECT v FROM t\n\nUPDATE t SET v = @s, a = @a", out: []string{"SELECT v FROM t", "UPDATE t SET v = @s, a = @a"}, class: "write"},
	)
}

func letters(names ...string) (r []letter) {
	for _, n := range names {
		for _, l := range append(alphabet(), errLetters()...) {
			if l.name == n {
				r = append(r, l)
				break
			}
		}
	}
	return
}

// total statement executions of an error free run.
func (p program) total() int {
	s, _, _ := p.predict(1, 1, plan{})
	n := 0
	for _, x := range s {
		if x.n >= 0 {
			n++
		}
	}
	return n
}

// nofile: saved column keys can be used only once per program.
func saves(files [][]letter) int {
	n := 0
	for _, f := range files {
		for _, l := range f {
			if strings.HasPrefix(l.name, "save") {
				n++
			}
		}
	}
	return n
}

func runLogged(cfg config.Stage, db *fakedb.DB, st *stats.Collector) (string, error) {
	var buf bytes.Buffer
	old := log.Writer()
	log.SetOutput(&buf)
	defer log.SetOutput(old)
	err := fin.RunStage(context.Background(), cfg, data.NewScope(), st)
	return buf.String(), err
}

func TestC07(t *testing.T) {
	var units []report.Unit
	// every run is one controlled execution: virtual time, no deviations
	try := func(c *report.Ctx, p program, cfg config.Stage, pl plan) {
		if c.TimeUp() || c.Violated() {
			return
		}
		steps, fails, ok := p.predict(1, 1, pl)
		if !ok {
			return
		}
		once := func() (v string) {
			s := &vsched.Scenario{
				Opts: vsched.Opts{Name: "one", Bound: 0},
				New: func() (func(), func(vsched.Run) (string, string)) {
					db := &fakedb.DB{Answer: pl.answer(nil)}
					vsched.OpenDB = db.OpenFn()
					v = ""
					var logged string
					var err error
					return func() { logged, err = runLogged(cfg, db, nil) }, func(r vsched.Run) (string, string) {
						switch {
						case err != nil:
							v = "stage failed: " + err.Error()
						case r.Deadlock || r.Livelock:
							v = "the stage does not end"
						default:
							v = diff(expected(steps), sent(db.Events()))
							want := ""
							if fails != nil {
								want = fails.Error()
							}
							i := strings.Index(logged, "client errors:")
							if v == "" && fails != nil && (i < 0 || !strings.Contains(logged[i:], want)) {
								v = fmt.Sprintf("the client must stop with error %q, but the stage reports: %s", want, logged)
							}
							if v == "" && fails == nil && i >= 0 {
								v = "the stage reports a client error, but every error was handled: " + logged[i:]
							}
						}
						return "x", v
					}
				},
			}
			vsched.Explore(c.T, s)
			return v
		}
		if v := once(); v != "" {
			c.Violate(p.String()+pl.String(), v+"\nprogram: "+p.String()+"\nerrors:"+pl.String(), pl.String())
		}
		c.Case(p.String() + pl.String())
		c.State(1, len(steps), 1)
	}
	ls := errLetters()
	singles := func(c *report.Ctx, p program) {
		if saves(p.files) > 1 {
			return
		}
		cfg := p.load(c.T)
		n := p.total()
		try(c, p, cfg, plan{})
		for k := 0; k < n; k++ {
			for f := range faults {
				try(c, p, cfg, plan{at: map[int]int{k: f}})
				if faults[f].handling == hRollback {
					try(c, p, cfg, plan{at: map[int]int{k: f}, failRollback: true})
				}
			}
		}
	}
	g2 := []cgroup{{clients: 1, iter: 2, db: "d"}}
	for i := range ls {
		first := ls[i]
		units = append(units, report.Unit{Name: "single errors, programs starting with " + first.name, Run: func(c *report.Ctx) {
			singles(c, program{files: [][]letter{{first}}, groups: g2})
			for _, second := range ls {
				singles(c, program{files: [][]letter{{first, second}}, groups: g2})
				singles(c, program{files: [][]letter{{first}, {second}}, groups: g2})
			}
		}})
		units = append(units, report.Unit{Name: "single errors, 3 statements starting with " + first.name, Thorough: false, Run: func(c *report.Ctx) {
			each([]int{2}, ls, func(fs [][]letter) {
				singles(c, program{files: [][]letter{{first, fs[0][0], fs[0][1]}}, groups: g2})
				singles(c, program{files: [][]letter{{first, fs[0][0]}, {fs[0][1]}}, groups: g2})
			})
		}})
	}
	pairs := func(name string, p program, thorough bool) {
		units = append(units, report.Unit{Name: "two errors: " + name, Thorough: thorough, Run: func(c *report.Ctx) {
			cfg := p.load(c.T)
			n := p.total()
			few := []int{0, 3, 6, 9, 11, 13, 15}
			if c.Thorough() {
				few = few[:0]
				for i := range faults {
					few = append(few, i)
				}
			}
			for a := 0; a < n; a++ {
				for b := a + 1; b < n; b++ {
					for _, f := range few {
						for _, g := range few {
							try(c, p, cfg, plan{at: map[int]int{a: f, b: g}})
						}
					}
				}
			}
		}})
	}
	pairs("BEGIN UPDATE SELECT COMMIT", program{files: [][]letter{letters("begin", "keys/p", "select", "commit")}, groups: []cgroup{{clients: 1, iter: 3, db: "d"}}}, false)
	pairs("two files", program{files: [][]letter{letters("begin", "keys"), letters("select/p", "commit")}, groups: []cgroup{{clients: 1, iter: 3}}}, false)
	pairs("saved columns", program{files: [][]letter{letters("save", "copies/p")}, groups: []cgroup{{clients: 1, iter: 3}}}, false)
	pairs("files in other order", program{files: [][]letter{letters("begin", "keys"), letters("select/p")}, groups: []cgroup{{clients: 1, iter: 3, order: []int{1, 0, 1}}}}, false)
	report.Main(t, report.Check{ID: "C07", Level: "fault_enumeration",
		Rule:        "one case = one program with one plan of query errors (position x error kind, 1-2 errors, failing ROLLBACK), run by the real client on the fake database and compared with the reference model: statements and connections in order, and the error reported; distinct = distinct programs and plans",
		Assumptions: []string{"error codes 1046, 1064 and 1146, whose handling code and documentation describe differently, are left out", "states = plans, transitions = statements; every plan runs on the implementation"},
		Units:       units})
}
