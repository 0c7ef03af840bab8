package remote

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/square/finch"
	"github.com/square/finch/compute"
	"github.com/square/finch/config"
	"github.com/square/finch/stats"

	"finchverif/fakedb"
	"finchverif/fin"
	"finchverif/simnet"
	"finchverif/vsched"
)

// spec of a cluster: a server, remote instances, and stages.
type spec struct {
	n       int  // instances per stage
	noLocal bool // disable-local
	remotes int  // remote instances there are (0: as many as needed)
	stages  int
	test    bool
	iters   int
	delay   time.Duration // of a statement
	freq    string
	noStats bool
	files   map[string]string // trx file (path in yaml) -> content; default one per stage
	order   []string          // trx files of a stage, in order
	names   []string          // of trx files
	once    bool              // remotes are not started again
	keys    bool              // statements have a stage and a global data key
	late    []time.Duration   // when remotes start
}

func (s spec) String() string {
	x := fmt.Sprintf("%d instances", s.n)
	if s.noLocal {
		x += " without local"
	}
	x += fmt.Sprintf(", %d remotes, %d stages", s.nrem(), s.stages)
	if s.test {
		x += ", test"
	}
	return x
}

// sql of a stage's default trx file.
func (s spec) sql(stage int) string {
	if s.keys {
		return fmt.Sprintf("SELECT 'stage %d', @g, @s\n", stage)
	}
	return fmt.Sprintf("SELECT 'stage %d'\n", stage)
}

// need: remotes that take part in a stage
func (s spec) need() int {
	if s.noLocal {
		return s.n
	}
	return s.n - 1
}

func (s spec) nrem() int {
	if s.remotes > 0 {
		return s.remotes
	}
	return s.need()
}

// ev is something observed.
type ev struct {
	at    time.Time
	who   string // local, r1#1
	kind  string // connect, start, end, ack, return, ...
	stage int
}

func (e ev) String() string { return fmt.Sprintf("%s %s/%d", e.who, e.kind, e.stage) }

// world is one execution of a cluster.
type world struct {
	spec
	cfg  []config.Stage
	dir  string
	fs   *vsched.VFS
	net  *simnet.Net
	db   *fakedb.DB
	mu   sync.Mutex
	log  []ev
	dead map[string]bool
	ids  map[string]int // stage id -> stage
	t0   time.Time

	plan    func(a *simnet.Attempt) simnet.Fault
	onEvent func(e ev)
	answer  func(e *fakedb.Event) (fakedb.Answer, bool)

	ctx       context.Context // the server's
	cancel    context.CancelFunc
	rctx      context.Context // the remotes'
	rcancel   context.CancelFunc
	canceled  time.Time
	returned  time.Time
	serverErr error
	hung      bool
	reports   []reported
	count     map[string]int
	procs     map[string]bool // remote processes that are running
	gone      map[string]bool // files removed from the server
	used      []use
}

type reported struct {
	stage int
	in    []stats.Instance
	late  bool // after Stop
}

var curWorld *world

type repFactory struct{}
type rep struct {
	w     *world
	stage int // collectors are made once per stage
	stops int
}

func (repFactory) Make(string, map[string]string) (stats.Reporter, error) {
	curWorld.count["collectors"]++
	return &rep{w: curWorld, stage: curWorld.count["collectors"]}, nil
}
func (r *rep) Report(from []stats.Instance) {
	vsched.NoPreempt(func() {
		r.w.mu.Lock()
		defer r.w.mu.Unlock()
		l := []stats.Instance{}
		for _, in := range from {
			b, _ := json.Marshal(in)
			var c stats.Instance
			json.Unmarshal(b, &c)
			l = append(l, c)
		}
		r.w.reports = append(r.w.reports, reported{stage: r.stage, in: l, late: r.stops > 0})
	})
}
func (r *rep) Stop() {
	vsched.NoPreempt(func() {
		r.stops++
		r.w.count[fmt.Sprintf("reporter of stage %d stopped", r.stage)]++
	})
}

func init() { stats.Register("verif", repFactory{}) }

// load makes the stage configs of a spec, once per scenario.
func (s spec) load(t *testing.T) []config.Stage {
	files := map[string]string{}
	for i := 1; i <= s.stages; i++ {
		order := s.order
		if order == nil {
			order = []string{fmt.Sprintf("trx/s%d.sql", i)}
			files[order[0]] = s.sql(i)
		}
		for n, c := range s.files {
			files[n] = c
		}
		trx := ""
		for i, f := range order {
			trx += fmt.Sprintf("    - file: %q\n", f)
			if i < len(s.names) {
				trx += "      name: " + s.names[i] + "\n"
			}
			if s.keys {
				trx += "      data:\n        g: {generator: tick, scope: global}\n        s: {generator: tick, scope: stage}\n"
			}
		}
		st := "    report:\n      verif: {}\n"
		if s.freq != "" {
			st += "    freq: " + s.freq + "\n"
		}
		if s.noStats {
			st += "    disable: true\n"
		}
		files[fmt.Sprintf("s%d.yaml", i)] = fmt.Sprintf("stage:\n  name: stage%d\n  compute:\n    instances: %d\n    disable-local: %v\n  trx:\n%s  workload:\n    - clients: 1\n      iter: %d\n  stats:\n%s", i, s.n, s.noLocal, trx, s.iters, st)
	}
	dir := fin.Write(t, files)
	var names []string
	for i := 1; i <= s.stages; i++ {
		names = append(names, filepath.Join(dir, fmt.Sprintf("s%d.yaml", i)))
	}
	st, err := config.Load(names, nil, "", "")
	if err != nil {
		t.Fatalf("config.Load: %s\n%v", err, files)
	}
	for i := range st {
		st[i].File = "/work" + strings.TrimPrefix(st[i].File, dir)
		for j := range st[i].Trx {
			st[i].Trx[j].File = strings.Replace(st[i].Trx[j].File, dir, "/work", 1)
		}
	}
	return st
}

// trxFiles: virtual path -> content, on the server.
func (s spec) trxFiles() map[string]string {
	m := map[string]string{}
	for i := 1; i <= s.stages; i++ {
		if s.order == nil {
			m[fmt.Sprintf("/work/trx/s%d.sql", i)] = s.sql(i)
		}
	}
	for n, c := range s.files {
		if !filepath.IsAbs(n) {
			n = filepath.Join("/work", n)
		}
		m[n] = c
	}
	return m
}

func name(who string) string { return strings.Split(who, "#")[0] }

func (w *world) record(kind string, stage int) {
	who := vsched.Tag()
	if who == "server" {
		who = "local"
	}
	w.mu.Lock()
	e := ev{time.Now(), who, kind, stage}
	w.log = append(w.log, e)
	w.mu.Unlock()
	if w.onEvent != nil {
		w.onEvent(e)
	}
}

func stageOf(q string) int {
	n := 0
	if i := strings.Index(q, "'stage "); i >= 0 {
		fmt.Sscanf(q[i:], "'stage %d", &n)
	}
	return n
}

func (w *world) mkfs(tag string) {
	os.MkdirAll(filepath.Join(w.dir, tag, "tmp"), 0755)
	os.MkdirAll(filepath.Join(w.dir, tag, "home"), 0755)
	w.fs.Chtag(tag, "/home")
}

// start sets up the world; called inside the execution.
func (w *world) start() {
	w.t0 = time.Now()
	fin.ResetTicks()
	w.dead, w.ids, w.procs, w.count = map[string]bool{}, map[string]int{}, map[string]bool{}, map[string]int{}
	w.fs = &vsched.VFS{Root: w.dir}
	os.RemoveAll(w.dir)
	w.mkfs("server")
	for p, c := range w.trxFiles() {
		p = filepath.Join(w.dir, "server", p)
		os.MkdirAll(filepath.Dir(p), 0755)
		os.WriteFile(p, []byte(c), 0644)
	}
	vsched.FS = w.fs
	curWorld = w
	w.ctx, w.cancel = context.WithCancel(context.Background())
	w.rctx, w.rcancel = context.WithCancel(context.Background())
	w.net = &simnet.Net{ServerTag: "server"}
	w.net.Plan = func(a *simnet.Attempt) simnet.Fault {
		if w.dead[a.Tag] {
			vsched.Exit()
		}
		w.bootAck(a)
		if w.plan != nil {
			f := w.plan(a)
			if w.dead[a.Tag] {
				vsched.Exit()
			}
			return f
		}
		return simnet.Fault{}
	}
	w.net.Done = func(a *simnet.Attempt) {
		if a.Path == "/boot" && a.Method == "GET" && a.Status == 200 {
			var st struct {
				Id, Name string
			}
			json.Unmarshal(a.Resp, &st)
			n := 0
			fmt.Sscanf(st.Name, "stage%d", &n)
			w.mu.Lock()
			w.ids[st.Id] = n
			w.mu.Unlock()
			w.record("config", n)
		}
	}
	vsched.OnServe = func(s *http.Server) { w.net.Up(s.Handler) }
	finch.MakeHTTPClient = w.net.Client
	w.db.Answer = func(e *fakedb.Event) fakedb.Answer {
		if w.answer != nil {
			if a, ok := w.answer(e); ok {
				return a
			}
		}
		if w.dead[e.Tag] {
			return fakedb.Answer{Delay: 24 * time.Hour, NoCtx: true}
		}
		if e.Kind == "connect" {
			w.record("connect", 0)
		}
		if s := stageOf(e.SQL); s > 0 {
			w.record("exec", s)
			if w.keys {
				w.used = append(w.used, use{e.Tag, s, e.SQL})
			}
			return fakedb.Answer{Delay: w.delay}
		}
		return fakedb.Answer{}
	}
}

// boots: an instance told the server that it booted.
func (w *world) bootAck(a *simnet.Attempt) {
	if a.Path == "/boot" && a.Method == "POST" && len(a.Body) == 0 {
		w.record("booted", w.ids[a.Query.Get("stage-id")])
	}
	if a.Path == "/run" && a.Method == "POST" {
		w.record("done", w.ids[a.Query.Get("stage-id")])
	}
}

func (w *world) server() chan bool {
	done := make(chan bool, 1)
	vsched.Go(func() {
		vsched.SetTag("server")
		var st []config.Stage
		for _, c := range w.cfg {
			st = append(st, fin.Clone(c))
		}
		err := compute.NewServer("local", "127.0.0.1:33075", w.test).Run(w.ctx, st)
		vsched.NoPreempt(func() {
			w.serverErr, w.returned = err, time.Now()
			w.record("return", 0)
			w.net.Down() // the process ends
		})
		done <- true
	})
	return done
}

// remote is a finch client, started again after it ended until the server is gone.
func (w *world) remote(nm string, delay time.Duration) chan bool {
	done := make(chan bool, 1)
	vsched.Go(func() {
		vsched.Sleep(delay)
		for k := 1; w.returned.IsZero(); k++ {
			ch := w.process(nm, fmt.Sprintf("%s#%d", nm, k))
			<-orDead(ch)
			vsched.Point()
			if w.once {
				break
			}
			vsched.Sleep(700 * time.Millisecond)
		}
		done <- true
	})
	return done
}

func orDead(c chan bool) chan bool {
	select {
	case v := <-c:
		c <- v
	case <-vsched.Killed():
		vsched.Exit()
	}
	return c
}

// process is one run of a client.
func (w *world) process(nm, tag string) chan bool {
	ch := make(chan bool, 1)
	w.mkfs(tag)
	w.procs[tag] = true
	vsched.Go(func() {
		vsched.SetTag(tag)
		defer func() { // crashed too
			w.procs[tag] = false
			select {
			case ch <- true:
			default:
			}
		}()
		w.record("up", 0)
		compute.NewClient(nm, "127.0.0.1:33075").Run(w.rctx)
		w.record("exit", 0)
	})
	return ch
}

func (w *world) kill(tag string) {
	w.dead[tag] = true
	w.record("crash "+tag, 0)
}

// run is the body of a scenario: everything runs until the server returned and
// remotes are down, or limit is over.
func (w *world) run(limit time.Duration, during func()) {
	w.start()
	srv := w.server()
	var rs []chan bool
	for i := 1; i <= w.nrem(); i++ {
		d := 10 * time.Millisecond
		if i <= len(w.late) {
			d = w.late[i-1]
		}
		rs = append(rs, w.remote(fmt.Sprintf("r%d", i), d))
	}
	if during != nil {
		vsched.Go(during)
	}
	tm := time.NewTimer(limit)
	defer tm.Stop()
	select {
	case <-srv:
	case <-tm.C:
		w.hung = true
	case <-vsched.Killed():
		vsched.Exit()
	}
	vsched.Point()
	if !w.hung {
		vsched.Go(func() { // the user ends remotes that still wait
			vsched.Sleep(20 * time.Second)
			w.rcancel()
		})
		for _, r := range rs {
			select {
			case <-r:
			case <-tm.C:
			case <-vsched.Killed():
				vsched.Exit()
			}
			vsched.Point()
		}
	}
	vsched.FS = nil
}

// execs: statements executed per stage and instance process, in order of log
func (w *world) execs(stage int) map[string][]ev {
	m := map[string][]ev{}
	for _, e := range w.log {
		if e.kind == "exec" && e.stage == stage {
			m[e.who] = append(m[e.who], e)
		}
	}
	return m
}

func (w *world) history() string {
	var s []string
	for _, e := range w.log {
		s = append(s, fmt.Sprintf("%6.3f %s", e.at.Sub(w.t0).Seconds(), e))
	}
	return strings.Join(s, "; ")
}

func keys(m map[string][]ev) string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}
