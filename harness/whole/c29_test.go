package whole

import (
	"database/sql"
	"fmt"
	"log"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/square/finch"
	"github.com/square/finch/boot"
	"github.com/square/finch/stats"

	"finchverif/fakedb"
	_ "finchverif/fin" // generators
	"finchverif/report"
	"finchverif/vsched"
)

const ms = time.Millisecond
const secret = "Secr3t"

// ev is something observed: an event of the database, or a report, of a stage.
type ev struct {
	at    time.Duration
	stage int
	kind  string // open, connect, prepare, exec, close, report, stop, interrupt
	what  string
	who   string // process, if there are several
}

func (e ev) String() string {
	return fmt.Sprintf("%.3f %s %d:%s %s", e.at.Seconds(), e.who, e.stage, e.kind, e.what)
}

// world is one run of the program.
type world struct {
	l     *lab
	mu    sync.Mutex
	t0    time.Time
	log   []ev
	n     map[int]uint64 // reported queries per stage
	stops map[int]int
	fin   bool // returned
	err   error
	end   time.Duration
	delay func(e *fakedb.Event, stage int) fakedb.Answer
	tick  func(kind string, stage int) time.Duration // called at every event
	dsns  []string
	body  func() // instead of run
}

var cur *world

func (w *world) add(stage int, kind, what string) {
	w.mu.Lock()
	w.log = append(w.log, ev{time.Since(w.t0), stage, kind, what, vsched.Tag()})
	w.mu.Unlock()
}

func (w *world) history() string {
	s := make([]string, len(w.log))
	for i, e := range w.log {
		s[i] = e.String()
	}
	return strings.Join(s, "\n")
}

// outcome without times.
func (w *world) outcome() string {
	s := make([]string, len(w.log))
	for i, e := range w.log {
		s[i] = fmt.Sprintf("%s%d:%s %s", e.who, e.stage, e.kind, e.what)
	}
	return strings.Join(s, ";") + fmt.Sprint(w.err != nil, w.fin)
}

type repFactory struct{}
type rep struct {
	w     *world
	stage int
}

func (repFactory) Make(_ string, opts map[string]string) (stats.Reporter, error) {
	r := rep{w: cur}
	fmt.Sscan(opts["stage"], &r.stage)
	return r, nil
}

func (r rep) Report(from []stats.Instance) {
	n := uint64(0)
	for _, in := range from {
		for _, x := range in.Total.N {
			n += x
		}
		n -= in.Total.N[stats.TOTAL]
	}
	r.w.mu.Lock()
	r.w.n[r.stage] += n
	r.w.mu.Unlock()
	r.w.add(r.stage, "report", fmt.Sprint(n))
	if r.w.tick != nil {
		if d := r.w.tick("report", r.stage); d > 0 {
			vsched.Sleep(d)
		}
	}
}

func (r rep) Stop() {
	r.w.mu.Lock()
	r.w.stops[r.stage]++
	r.w.mu.Unlock()
	r.w.add(r.stage, "stop", "")
}

func init() { stats.Register("whole", repFactory{}) }

// lab keeps a scratch directory, and everything finch logs.
type lab struct {
	c   *report.Ctx
	dir string
	out *os.File
	n   int
}

func newLab(c *report.Ctx) *lab {
	dir, err := os.MkdirTemp("", "c29")
	if err != nil {
		c.T.Fatal(err)
	}
	dir, _ = filepath.EvalSymlinks(dir)
	l := &lab{c: c, dir: dir}
	l.out, err = os.Create(dir + "/log")
	if err != nil {
		c.T.Fatal(err)
	}
	*os.Stderr = *l.out
	os.Stdout = l.out
	log.SetOutput(l.out)
	return l
}

func (l *lab) close() {
	os.Chdir("/")
	os.RemoveAll(l.dir)
}

func (l *lab) logged() string {
	b, _ := os.ReadFile(l.out.Name())
	return string(b)
}

var stageRe = regexp.MustCompile(`/d(\d+)`)
var stmtRe = regexp.MustCompile(`'stage (\d+)`)

func (w *world) open(_, dsn string) (*sql.DB, error) {
	stage := 0
	if m := stageRe.FindStringSubmatch(dsn); m != nil {
		fmt.Sscan(m[1], &stage)
	}
	w.dsns = append(w.dsns, dsn)
	w.add(stage, "open", "")
	vsched.Sleep(ms) // everything that was started before runs meanwhile
	db := &fakedb.DB{}
	db.Answer = func(e *fakedb.Event) fakedb.Answer {
		st := stage
		kind, what := e.Kind, ""
		if m := stmtRe.FindStringSubmatch(e.SQL); m != nil {
			fmt.Sscan(m[1], &st)
			what = e.SQL
			if kind != "prepare" && kind != "sclose" {
				kind = "exec"
			}
		}
		if kind == "close" || kind == "sclose" {
			return fakedb.Answer{}
		}
		if kind == "ping" {
			if w.delay != nil {
				return w.delay(e, st)
			}
			return fakedb.Answer{}
		}
		if what == "" {
			what = e.SQL
			if kind == "query" || kind == "exec" {
				kind = "admin"
			}
		}
		w.add(st, kind, what)
		a := fakedb.Answer{}
		if w.delay != nil {
			a = w.delay(e, st)
		}
		if w.tick != nil {
			if d := w.tick(kind, st); d > 0 && a.Delay < d {
				a.Delay = d
			}
		}
		return a
	}
	return db.Sql(), nil
}

// run the program with arguments.
func (w *world) run(args ...string) {
	w.t0 = time.Now()
	w.n, w.stops = map[int]uint64{}, map[int]int{}
	cur = w
	finch.Debugging, finch.CPUProfile = false, nil
	if err := os.Chdir(w.l.dir); err != nil {
		panic(err)
	}
	w.l.out.Truncate(0)
	err := boot.Up(boot.Env{Args: args, Env: []string{"X=1"}})
	vsched.NoPreempt(func() {
		w.err, w.end, w.fin = err, time.Since(w.t0), true
	})
}

func (l *lab) explore(name string, bound int, mk func() (w *world, args []string, judge func(w *world, r vsched.Run) string)) {
	var w *world
	o := vsched.Opts{Name: name, Bound: bound, MaxSteps: 300000, Background: true}
	if bound > 0 {
		o.SiteCap = 2
	}
	o.OpenDB = func(d, dsn string) (*sql.DB, error) { return w.open(d, dsn) }
	l.c.Explore(&vsched.Scenario{Opts: o, New: func() (func(), func(vsched.Run) (string, string)) {
		var args []string
		var judge func(w *world, r vsched.Run) string
		w, args, judge = mk()
		w.l = l
		run := func() { w.run(args...) }
		if w.body != nil {
			run = w.body
		}
		return run, func(r vsched.Run) (string, string) {
			b := ""
			switch {
			case r.Deadlock || r.Livelock:
				b = "the run does not end"
			default:
				b = judge(w, r)
			}
			if b == "" && strings.Contains(l.logged(), secret) {
				b = "a password is printed"
			}
			if b != "" {
				b += fmt.Sprintf("\n%s\nreturned %v error %v exit %q\n%s", strings.Join(args, " "), w.fin, w.err, r.Fatals, w.history())
			}
			return w.outcome(), b
		}
	}})
}

// A stage file and what is in it.
type item struct {
	kind string
	dir  string
	name string // of the stage, if not by number
}

var kinds = []string{"ok", "prepared", "groups", "freq", "disabled", "refused", "badtrx", "badgen", "nofile", "badyaml"}

// queries of a stage that runs.
func (k item) queries() int {
	switch k.kind {
	case "groups":
		return 6
	case "disabled":
		return 0
	}
	return 4
}

func (k item) prepareFails() bool {
	return k.kind == "refused" || k.kind == "badtrx" || k.kind == "badgen"
}
func (k item) invalid() bool { return k.kind == "nofile" || k.kind == "badyaml" }

// write a stage file; one directory has one file trx/a.sql per stage number.
func (l *lab) write(i int, k item) string {
	d := filepath.Join(l.dir, k.dir)
	os.MkdirAll(filepath.Join(d, "trx"), 0755)
	name := fmt.Sprintf("st%d", i)
	if k.name != "" {
		name = k.name
	}
	y := fmt.Sprintf("stage:\n  name: %s\n  mysql: {db: d%d, hostname: h%d, username: u, password: %s}\n", name, i, i, secret)
	trx := "trx/a.sql"
	if k.dir == "same" {
		trx = fmt.Sprintf("trx/a%d.sql", i)
	}
	text := fmt.Sprintf("SELECT 'stage %d of %s', @who\n", i, k.dir)
	gen := "who"
	w := "    - {clients: 2, iter: 2}\n"
	st := ""
	switch k.kind {
	case "prepared":
		text = "-- prepare\n" + text
	case "badtrx":
		text = "-- rows: many\n" + text
	case "groups":
		w = "    - {clients: 2, iter: 2, group: a}\n    - {clients: 1, iter: 2, group: b}\n"
	case "freq":
		st = "    freq: 250ms\n"
	case "disabled":
		y += "  disable: true\n"
	case "badgen":
		gen = "nosuch"
	case "nofile":
		trx = "trx/missing.sql"
	case "badyaml":
		y += "  nosuchkey: 1\n"
	}
	y += fmt.Sprintf("  trx:\n    - file: %s\n      data: {who: {generator: %s}}\n  workload:\n%s  stats:\n%s    report: {whole: {stage: %q}}\n", trx, gen, w, st, fmt.Sprint(i))
	if k.kind != "nofile" {
		os.WriteFile(filepath.Join(d, trx), []byte(text), 0644)
	}
	f := filepath.Join(d, fmt.Sprintf("s%d.yaml", i))
	os.WriteFile(f, []byte(y), 0644)
	return f
}

// answers: what the database does for the kinds of stages.
func answers(list []item, d time.Duration) func(e *fakedb.Event, stage int) fakedb.Answer {
	return func(e *fakedb.Event, stage int) fakedb.Answer {
		if stage < 1 || stage > len(list) {
			return fakedb.Answer{}
		}
		k := list[stage-1].kind
		switch {
		case k == "refused" && e.Kind == "connect":
			return fakedb.Answer{Err: fmt.Errorf("connection refused")}
		case stmtRe.MatchString(e.SQL) && e.Kind != "prepare" && e.Kind != "sclose":
			return fakedb.Answer{Delay: d}
		}
		return fakedb.Answer{}
	}
}

// inOrder: nothing of a stage happens before the earlier ones are over.
func (w *world) inOrder() string {
	last := 0
	for _, e := range w.log {
		if e.stage == 0 {
			continue
		}
		if e.stage < last {
			return fmt.Sprintf("stage %d goes on (%s) although stage %d has begun", e.stage, e.kind, last)
		}
		last = e.stage
	}
	return ""
}

func (w *world) count(stage int, kind string) (n int) {
	for _, e := range w.log {
		if e.stage == stage && e.kind == kind {
			n++
		}
	}
	return
}

// expect is judged when nothing interrupts the run.
func expect(list []item, test bool) func(w *world, r vsched.Run) string {
	return func(w *world, r vsched.Run) string {
		if b := w.inOrder(); b != "" {
			return b
		}
		for _, k := range list {
			if k.invalid() {
				if w.fin && w.err == nil {
					return "no error although a stage file is not valid"
				}
				if len(w.log) > 0 {
					return "something was done although a stage file is not valid"
				}
				return ""
			}
		}
		failed := false
		for i, k := range list {
			s := i + 1
			if failed || k.kind == "disabled" {
				for _, e := range w.log {
					if e.stage == s {
						return fmt.Sprintf("stage %d (%s) is begun", s, k.kind)
					}
				}
				continue
			}
			if k.kind != "badgen" && w.count(s, "connect") == 0 {
				return fmt.Sprintf("no connection was tested for stage %d", s)
			}
			n := k.queries()
			if failed = k.prepareFails(); failed || test {
				n = 0
			}
			if x := w.count(s, "exec"); x != n {
				return fmt.Sprintf("stage %d executed %d statements, expected %d", s, x, n)
			}
			for _, e := range w.log {
				if e.stage == s && e.kind == "exec" && k.kind != "prepared" && !strings.Contains(e.what, fmt.Sprintf("'stage %d of %s'", s, k.dir)) {
					return fmt.Sprintf("stage %d executed %s", s, e.what)
				}
			}
			if w.n[s] != uint64(n) {
				return fmt.Sprintf("stage %d: %d queries are reported, %d were executed", s, w.n[s], n)
			}
			if n > 0 && (w.count(s, "report") == 0 || w.stops[s] != 1) {
				return fmt.Sprintf("stage %d: %d reports, reporter stopped %d times", s, w.count(s, "report"), w.stops[s])
			}
		}
		if failed && w.fin && w.err == nil {
			return "no error although a stage could not be prepared"
		}
		if !failed && (w.err != nil || len(r.Fatals) > 0 || !w.fin) {
			return fmt.Sprintf("the run failed: %v %v", w.err, r.Fatals)
		}
		return ""
	}
}

var delays = []time.Duration{0, 30 * ms, 250 * ms}

func (l *lab) files(list []item, rel bool) (args []string) {
	args = []string{"finch"}
	for i, k := range list {
		f := l.write(i+1, k)
		if rel {
			f, _ = filepath.Rel(l.dir, f)
		}
		args = append(args, f)
	}
	return
}

// ctrlC explores CTRL-C at every event of a run, and delayed.
func (l *lab) ctrlC(name string, bound int, list []item, flags []string, stuck string) {
	args := append(l.files(list, false), flags...)
	l.explore(name, bound, func() (*world, []string, func(*world, vsched.Run) string) {
		w := &world{}
		base := answers(list, 100*ms)
		w.delay = func(e *fakedb.Event, stage int) fakedb.Answer {
			a := base(e, stage)
			if stuck != "" && (stuck == e.Kind || stuck == "exec" && a.Delay > 0) { // does not respond, whatever finch does
				a.Delay, a.NoCtx = 60*time.Second, true
			}
			return a
		}
		at, stage := time.Duration(-1), 0
		send := func(s int) {
			at, stage = time.Since(w.t0), s
			w.add(s, "interrupt", "")
			if !vsched.Interrupt() {
				vsched.OSExit(130)
			}
		}
		chosen := false
		current := 0
		w.tick = func(kind string, s int) time.Duration {
			if s > 0 {
				current = s
			}
			if chosen {
				return 0
			}
			k := vsched.Choose(1 + len(delays))
			if k == 0 {
				return 0
			}
			chosen = true
			if x := delays[k-1]; x > 0 {
				vsched.Go(func() {
					vsched.Sleep(x)
					vsched.NoPreempt(func() {
						if !w.fin {
							send(current)
						}
					})
				})
				return 0
			}
			send(s)
			return ms // the signal is delivered meanwhile
		}
		return w, args, func(w *world, r vsched.Run) string {
			if at < 0 || w.fin && w.end < at {
				if stuck != "" {
					return ""
				}
				return expect(list, false)(w, r)
			}
			if b := w.inOrder(); b != "" {
				return b
			}
			end := w.end
			if !w.fin {
				if len(r.Fatals) == 0 {
					return "the run does not end"
				}
				end = r.Elapsed
			}
			if end > at+7600*ms {
				return fmt.Sprintf("the run ended %s after CTRL-C", end-at)
			}
			if stuck != "" {
				return ""
			}
			if w.err != nil && !list[stage-1].prepareFails() || len(r.Fatals) > 0 {
				return fmt.Sprintf("the run failed after CTRL-C: %v %v", w.err, r.Fatals)
			}
			if end > at+200*ms {
				return fmt.Sprintf("the run ended %s after CTRL-C although everything responds", end-at)
			}
			for _, e := range w.log {
				if e.stage > stage && e.stage > 0 && e.at > at {
					return fmt.Sprintf("stage %d was begun after CTRL-C in stage %d", e.stage, stage)
				}
				if e.kind == "exec" && e.at > at+20*ms {
					return "statements were executed after CTRL-C"
				}
			}
			for s := 1; s <= stage; s++ {
				n := uint64(w.count(s, "exec"))
				if n == 0 {
					continue
				}
				if w.n[s] < n || w.n[s] > n+3 || s < stage && w.n[s] != n {
					return fmt.Sprintf("stage %d: %d queries are reported, %d were executed", s, w.n[s], n)
				}
				if w.stops[s] != 1 {
					return fmt.Sprintf("stage %d: the reporter was stopped %d times", s, w.stops[s])
				}
			}
			return ""
		}
	})
}

func TestC29(t *testing.T) {
	var us []report.Unit
	unit := func(name string, f func(l *lab)) {
		us = append(us, report.Unit{Name: name, Run: func(c *report.Ctx) {
			l := newLab(c)
			defer l.close()
			f(l)
		}})
	}
	for _, first := range kinds {
		first := first
		unit("stages, first "+first, func(l *lab) {
			n := l.c.Pick(3, 4)
			var list []item
			var rec func()
			rec = func() {
				if l.c.Violated() {
					return
				}
				for lay := 0; lay < 3; lay++ { // all in one directory, each in its own, some together
					if len(list) == 1 && lay > 0 || len(list) < 3 && lay == 2 {
						continue
					}
					lst := append([]item{}, list...)
					for i := range lst {
						lst[i].dir = []string{"same", fmt.Sprintf("own%d", i), []string{"same", "own", "same", "own2"}[i]}[lay]
					}
					args := l.files(lst, len(list)%2 == 0)
					for _, test := range []bool{false, true} {
						a := args
						if test {
							a = append([]string{args[0], "--test"}, args[1:]...)
						}
						test := test
						l.explore(fmt.Sprint(lst, test), 0, func() (*world, []string, func(*world, vsched.Run) string) {
							return &world{delay: answers(lst, 100*ms)}, a, expect(lst, test)
						})
					}
				}
				if len(list) == n {
					return
				}
				for _, k := range kinds {
					list = append(list, item{kind: k})
					rec()
					list = list[:len(list)-1]
				}
			}
			list = []item{{kind: first}}
			rec()
		})
	}
	runs := [][]item{
		{{kind: "ok", dir: "own1"}},
		{{kind: "ok", dir: "own1"}, {kind: "ok", dir: "own2"}},
		{{kind: "prepared", dir: "own1"}, {kind: "groups", dir: "own2"}},
		{{kind: "freq", dir: "own1"}, {kind: "disabled", dir: "own2"}, {kind: "ok", dir: "own3"}},
		{{kind: "groups", dir: "own1"}, {kind: "freq", dir: "own2"}, {kind: "ok", dir: "own3"}},
		{{kind: "ok", dir: "own1"}, {kind: "badtrx", dir: "own2"}, {kind: "ok", dir: "own3"}},
		{{kind: "ok", dir: "own1"}, {kind: "refused", dir: "own2"}},
	}
	for i, list := range runs {
		list, i := list, i
		unit(fmt.Sprintf("CTRL-C, run %d", i), func(l *lab) {
			l.ctrlC(fmt.Sprint("CTRL-C ", list), 0, list, nil, "")
		})
		if i < 4 {
			for _, s := range []string{"connect", "exec", "prepare", "ping"} {
				s := s
				unit(fmt.Sprintf("CTRL-C, run %d, no response to %s", i, s), func(l *lab) {
					l.ctrlC(fmt.Sprint("CTRL-C, no response to ", s, list), 0, list, nil, s)
				})
			}
			unit(fmt.Sprintf("schedules of CTRL-C, run %d", i), func(l *lab) {
				l.ctrlC(fmt.Sprint("schedules of CTRL-C ", list), l.c.Pick(1, 2), list, nil, "")
			})
		}
	}
	for _, layout := range []string{"same", "own"} {
		layout := layout
		unit("sizes, "+layout, func(l *lab) {
			for n := 4; n <= l.c.Pick(14, 30); n++ {
				for ki, kind := range kinds {
					for _, pos := range []int{0, 1, n / 2, n - 2, n - 1, n} {
						var lst []item
						for i := 0; i < n; i++ {
							it := item{kind: []string{"ok", "prepared", "groups", "disabled", "freq"}[i*(ki+1)%5], dir: layout}
							if pos == n {
								it.kind = "ok"
								if !l.c.Thorough() && i%3 == 1 || l.c.Thorough() && kind != "badtrx" {
									it.kind = kind
								}
							} else if i == pos {
								it.kind = kind
							}
							if layout == "own" {
								it.dir = fmt.Sprintf("own%d", i)
							}
							if ki%2 == 1 {
								it.name = "same"
							}
							lst = append(lst, it)
						}
						if l.c.Violated() || l.c.TimeUp() {
							return
						}
						args := l.files(lst, n%2 == 0)
						l.explore(fmt.Sprint(lst), 0, func() (*world, []string, func(*world, vsched.Run) string) {
							return &world{delay: answers(lst, 100*ms)}, args, expect(lst, false)
						})
					}
				}
			}
		})
	}
	unit("stage files given more than once", func(l *lab) {
		list := []item{{kind: "ok", dir: "own1"}, {kind: "prepared", dir: "own2"}, {kind: "groups", dir: "own3"}}
		files := l.files(list, false)[1:]
		var seq []int
		var rec func()
		rec = func() {
			if len(seq) > 1 {
				sq := append([]int{}, seq...)
				args := []string{"finch"}
				for _, i := range sq {
					args = append(args, files[i])
				}
				l.explore(fmt.Sprint(sq), 0, func() (*world, []string, func(*world, vsched.Run) string) {
					return &world{delay: answers(list, 100*ms)}, args, func(w *world, r vsched.Run) string { return w.repeated(list, sq) }
				})
			}
			if len(seq) == l.c.Pick(4, 6) || l.c.Violated() {
				return
			}
			for i := range list {
				seq = append(seq, i)
				rec()
				seq = seq[:len(seq)-1]
			}
		}
		rec()
	})
	programs(unit)
	for pos := 0; pos < 3; pos++ {
		pos := pos
		unit(fmt.Sprintf("options %d", pos), func(l *lab) { l.options(pos) })
	}
	report.Main(t, report.Check{
		ID:    "C29",
		Level: "model_checking",
		Rule:  "evaluation = one run of the program (boot.Up) with one command line, environment and list of stage files, or with CTRL-C at one event of it; every connection, statement and report is compared with the stages given; distinct = by history of observed events",
		Assumptions: []string{
			"except for the units with programs on several machines, the stages run on the local instance (remote instances: C18-C22)",
			"the database is a stand-in; it honours contexts unless a unit says it does not respond",
		},
		Units: us,
	})
}

// options: every combination of options, each given by flag, environment variable
// or both; two stages.
func (l *lab) options(pos int) {
	list := []item{{kind: "ok", dir: "own1"}, {kind: "ok", dir: "own2"}}
	files := l.files(list, false)[1:]
	for i, f := range files {
		b, _ := os.ReadFile(f)
		y := strings.Replace(string(b), "iter: 2", "iter: $params.it", 1)
		y = strings.Replace(y, "stage:\n", fmt.Sprintf("stage:\n  params: {it: \"%d\"}\n", i+2), 1)
		os.WriteFile(f, []byte(y), 0644)
	}
	envs := []string{"FINCH_DSN", "FINCH_DB", "FINCH_TEST", "FINCH_DEBUG", "FINCH_CLIENT", "FINCH_SERVER", "FINCH_CPU_PROFILE"}
	for _, e := range envs {
		os.Unsetenv(e)
	}
	type alt struct {
		args []string
		env  string
		want string
	}
	dsnA := "a:" + secret + "@tcp(hostA:1)/dsnA"
	dsnB := "b:" + secret + "@tcp(hostB:2)/dsnB"
	dsn := []alt{{}, {args: []string{"--dsn", dsnA}, want: "tcp(hostA:1)/dsnA"}, {env: "FINCH_DSN=" + dsnB, want: "tcp(hostB:2)/dsnB"}, {args: []string{"--dsn=" + dsnA}, env: "FINCH_DSN=" + dsnB, want: "tcp(hostA:1)/dsnA"}}
	db := []alt{{}, {args: []string{"-D", "flagdb"}, want: "flagdb"}, {args: []string{"--database", "flagdb"}, want: "flagdb"}, {env: "FINCH_DB=envdb", want: "envdb"}, {args: []string{"--database=flagdb"}, env: "FINCH_DB=envdb", want: "flagdb"}}
	par := []alt{{}, {args: []string{"-p", "it=3"}, want: "3"}, {args: []string{"--param", "it=1", "--param", "unused=x=y"}, want: "1"}, {args: []string{"-p", "it=1", "-p", "it=4"}, want: "4"}}
	test := []alt{{}, {args: []string{"--test"}, want: "y"}, {env: "FINCH_TEST=1", want: "y"}}
	debug := []alt{{}, {args: []string{"--debug"}, want: "y"}, {env: "FINCH_DEBUG=true", want: "y"}}
	n := 0
	for _, d := range dsn {
		for _, b := range db {
			for _, p := range par {
				for _, te := range test {
					for _, de := range debug {
						if l.c.Violated() {
							return
						}
						var flags []string
						var set []string
						for _, a := range []alt{d, b, p, te, de} {
							flags = append(flags, a.args...)
							if a.env != "" {
								kv := strings.SplitN(a.env, "=", 2)
								os.Setenv(kv[0], kv[1])
								set = append(set, kv[0])
							}
						}
						args := []string{"finch"}
						switch pos {
						case 0:
							args = append(append(args, flags...), files...)
						case 1:
							args = append(append(args, files...), flags...)
						case 2:
							args = append(append(append(args, files[0]), flags...), files[1])
						}
						n++
						d, b, p, te, de := d, b, p, te, de
						l.explore(fmt.Sprint(n), 0, func() (*world, []string, func(*world, vsched.Run) string) {
							return &world{}, args, func(w *world, r vsched.Run) string {
								if w.err != nil || !w.fin {
									return fmt.Sprintf("the run failed: %v %v", w.err, r.Fatals)
								}
								if len(w.dsns) == 0 {
									return "nothing was connected"
								}
								for _, x := range w.dsns {
									want := d.want
									if want == "" {
										want = "tcp(h"
										if b.want != "" {
											want = ")/" + b.want
										}
									}
									if !strings.Contains(x, want) {
										return fmt.Sprintf("connected to %s, expected %s", x, want)
									}
								}
								total := 0
								for s := 1; s <= 2; s++ {
									it := s + 1
									if p.want != "" {
										fmt.Sscan(p.want, &it)
									}
									if te.want != "" {
										it = 0
									}
									if x := w.count(s, "exec"); x != 2*it {
										return fmt.Sprintf("stage %d executed %d statements, expected %d", s, x, 2*it)
									}
									total += it
								}
								if out := l.logged(); strings.Contains(out, "DEBUG ") != (de.want != "") {
									return fmt.Sprintf("debug output is %v", de.want == "")
								}
								return ""
							}
						})
						for _, k := range set {
							os.Unsetenv(k)
						}
					}
				}
			}
		}
	}
	// no stage file, unknown options, help, version
	for _, x := range []struct {
		args []string
		ok   bool
	}{
		{nil, false}, {[]string{"--test"}, false}, {[]string{"--nosuch", files[0]}, false}, {[]string{l.dir + "/missing.yaml"}, false},
		{[]string{"--help"}, true}, {[]string{"--version"}, true}, {[]string{files[0], "--help"}, true}, {[]string{"--version", files[0]}, true},
	} {
		x := x
		l.explore(strings.Join(x.args, " "), 0, func() (*world, []string, func(*world, vsched.Run) string) {
			return &world{}, append([]string{"finch"}, x.args...), func(w *world, r vsched.Run) string {
				if len(w.log) > 0 {
					return "something was done"
				}
				if ok := w.fin && w.err == nil; ok != x.ok {
					return fmt.Sprintf("success is %v, expected %v", ok, x.ok)
				}
				return ""
			}
		})
	}
}

// repeated: the stages of list were given in order of seq.
func (w *world) repeated(list []item, seq []int) string {
	if !w.fin || w.err != nil {
		return "the run failed"
	}
	var want, got []int
	occ := map[int]int{}
	for _, i := range seq {
		occ[i+1]++
		if len(want) == 0 || want[len(want)-1] != i+1 {
			want = append(want, i+1)
		}
	}
	for _, e := range w.log {
		if e.kind == "exec" && (len(got) == 0 || got[len(got)-1] != e.stage) {
			got = append(got, e.stage)
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Sprintf("stages are executed in order %v, expected %v", got, want)
	}
	for s, n := range occ {
		q := n * list[s-1].queries()
		if x := w.count(s, "exec"); x != q {
			return fmt.Sprintf("stage %d, given %d times, executed %d statements, expected %d", s, n, x, q)
		}
		if w.n[s] != uint64(q) || w.stops[s] != n {
			return fmt.Sprintf("stage %d, given %d times: %d queries are reported, %d were executed; the reporter was stopped %d times", s, n, w.n[s], q, w.stops[s])
		}
	}
	return ""
}
