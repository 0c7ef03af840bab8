package whole

import (
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/square/finch"
	"github.com/square/finch/boot"

	"finchverif/fakedb"
	"finchverif/fin"
	"finchverif/simnet"
	"finchverif/vsched"
)

// Programs on several machines: one started with --server, others with --client.

type progSpec struct {
	stages  []item2
	test    bool
	server  []string // arguments and environment (NAME=value) that say where it listens
	client  []string // and where the clients connect to
	clients int
	listen  string // expected
	host    string
}

type item2 struct {
	instances int
	noLocal   bool
	failBoot  bool // on the server
}

func (s item2) remotes() int {
	if s.noLocal {
		return s.instances
	}
	return s.instances - 1
}

type proc struct {
	err   error
	at    time.Duration
	ended bool
	exit  string
}

type programsWorld struct {
	*world
	s      progSpec
	net    *simnet.Net
	fs     *vsched.VFS
	procs  map[string]*proc
	up     map[string]bool
	listen string
	mu2    sync.Mutex
	sig    map[string]time.Duration // CTRL-C sent
	over   bool                     // clients are not started again
	hung   bool                     // the server did not end
}

var envNames = []string{"FINCH_DSN", "FINCH_DB", "FINCH_TEST", "FINCH_DEBUG", "FINCH_CLIENT", "FINCH_SERVER", "FINCH_CPU_PROFILE"}

// start a program; the returned channel is closed when it has ended.
func (p *programsWorld) start(tag string, flags []string, files []string) chan struct{} {
	done := make(chan struct{})
	p.procs[tag] = &proc{}
	os.MkdirAll(filepath.Join(p.fs.Root, tag, "tmp"), 0755)
	os.MkdirAll(filepath.Join(p.fs.Root, tag, "home"), 0755)
	p.fs.Chtag(tag, "/home")
	vsched.Go(func() {
		vsched.SetTag(tag)
		defer close(done)
		args := []string{"finch"}
		for _, e := range envNames {
			os.Unsetenv(e)
		}
		for _, f := range flags {
			if i := strings.Index(f, "="); strings.HasPrefix(f, "FINCH_") {
				os.Setenv(f[:i], f[i+1:])
			} else {
				args = append(args, f)
			}
		}
		err := boot.Up(boot.Env{Args: append(args, files...), Env: []string{"X=1"}})
		vsched.NoPreempt(func() { p.end(tag, err, "") })
	})
	return done
}

func (p *programsWorld) end(tag string, err error, exit string) {
	x := p.procs[tag]
	if x == nil || x.ended {
		return
	}
	*x = proc{err, time.Since(p.t0), true, exit}
	p.add(0, "exit", fmt.Sprint(exit, err != nil))
	if tag == "server" {
		p.net.Down()
	}
}

func (p *programsWorld) interrupt(tag string) {
	if x := p.procs[tag]; x == nil || x.ended {
		return
	}
	p.sig[tag] = time.Since(p.t0)
	p.add(0, "interrupt", tag)
	if !vsched.InterruptTag(tag) {
		p.end(tag, fmt.Errorf("killed"), "130")
	}
}

func (p *programsWorld) run() {
	w := p.world
	w.t0 = time.Now()
	w.n, w.stops = map[int]uint64{}, map[int]int{}
	cur = w
	fin.ResetTicks()
	finch.Debugging, finch.CPUProfile = false, nil
	w.l.out.Truncate(0)
	p.procs, p.sig = map[string]*proc{}, map[string]time.Duration{}
	root := filepath.Join(w.l.dir, "fs")
	os.RemoveAll(root)
	p.fs = &vsched.VFS{Root: root}
	var files []string
	for i, s := range p.s.stages {
		d := filepath.Join(root, "server", fmt.Sprintf("work%d", i+1), "trx")
		os.MkdirAll(d, 0755)
		os.WriteFile(filepath.Join(d, "a.sql"), []byte(fmt.Sprintf("SELECT 'stage %d', @g, @s\n", i+1)), 0644)
		y := fmt.Sprintf("stage:\n  name: st%d\n  compute: {instances: %d, disable-local: %v}\n  mysql: {db: d%d, hostname: h, username: u, password: %s}\n", i+1, s.instances, s.noLocal, i+1, secret)
		y += "  trx:\n    - file: trx/a.sql\n      data:\n        g: {generator: tick, scope: global}\n        s: {generator: tick, scope: stage}\n  workload:\n    - {clients: 2, iter: 2}\n"
		y += fmt.Sprintf("  stats:\n    report: {whole: {stage: %q}}\n", fmt.Sprint(i+1))
		f := fmt.Sprintf("/work%d/s.yaml", i+1)
		os.WriteFile(filepath.Join(root, "server", f), []byte(y), 0644)
		files = append(files, f)
	}
	p.net = &simnet.Net{ServerTag: "server"}
	p.net.Plan = func(a *simnet.Attempt) simnet.Fault {
		if x := p.procs[a.Tag]; x != nil && x.ended && x.exit != "" {
			vsched.Exit()
		}
		if a.Host != p.s.host || p.listen != p.s.listen {
			return simnet.Fault{NoServe: true, Err: true, Delay: ms}
		}
		return simnet.Fault{}
	}
	vsched.FS = p.fs
	vsched.OnServe = func(s *http.Server) { p.listen = s.Addr; p.net.Up(s.Handler) }
	finch.MakeHTTPClient = p.net.Client
	vsched.OnExit = func(tag, why string) bool {
		vsched.NoPreempt(func() { p.end(tag, nil, why) })
		return true
	}
	defer func() { vsched.FS, vsched.OnServe, vsched.OnExit = nil, nil, nil }()
	flags := p.s.server
	if p.s.test {
		flags = append([]string{"--test"}, flags...)
	}
	srv := p.start("server", flags, files)
	var cs []chan struct{}
	for i := 1; i <= p.s.clients; i++ {
		i := i
		ch := make(chan struct{})
		cs = append(cs, ch)
		vsched.Go(func() {
			defer close(ch)
			vsched.Sleep(time.Duration(10*i) * ms)
			for k := 1; !p.over; k++ { // started again for the next stage
				tag := fmt.Sprintf("c%d#%d", i, k)
				p.wait(p.start(tag, p.s.client, nil), 0)
				vsched.Sleep(300 * ms)
			}
		})
	}
	if !p.wait(srv, 60*time.Second) {
		p.hung = len(p.sig) == 0 // it waits for a client that is gone until CTRL-C
		p.interrupt("server")
		p.wait(srv, 20*time.Second)
	}
	vsched.Sleep(5 * time.Second)
	vsched.NoPreempt(func() {
		p.over = true
		for tag := range p.procs {
			if _, ok := p.sig[tag]; !ok {
				p.interrupt(tag)
			}
		}
	})
	for _, c := range cs {
		p.wait(c, 20*time.Second)
	}
	vsched.NoPreempt(func() { w.fin, w.end = true, time.Since(w.t0) })
}

func (p *programsWorld) wait(c chan struct{}, d time.Duration) bool {
	if d == 0 {
		d = time.Hour
	}
	tm := time.NewTimer(d)
	defer tm.Stop()
	ok := false
	select {
	case <-c:
		ok = true
	case <-tm.C:
	case <-vsched.Killed():
		vsched.Exit()
	}
	vsched.Point()
	return ok
}

const perInstance = 4

func host(tag string) string { return strings.Split(tag, "#")[0] }

var keysRe = regexp.MustCompile(`'stage (\d+)', (\S+), (\S+)$`)

// scopes of the data keys: a global key has one value in a program, and a stage
// key one per stage and program.
func (p *programsWorld) scopes() string {
	g, s := map[string]string{}, map[string]string{}
	of := map[string]string{} // whose value it is
	for _, e := range p.log {
		if e.kind != "exec" {
			continue
		}
		m := keysRe.FindStringSubmatch(e.what)
		if m == nil {
			return fmt.Sprintf("executed %q", e.what)
		}
		for _, x := range []struct {
			m         map[string]string
			k, val, n string
		}{{g, e.who, m[2], "global"}, {s, e.who + " stage " + m[1], m[3], "stage"}} {
			if v, ok := x.m[x.k]; ok && v != x.val {
				return fmt.Sprintf("%s: the %s key has values %s and %s", x.k, x.n, v, x.val)
			}
			x.m[x.k] = x.val
			if o, ok := of[x.val]; ok && o != x.n+x.k {
				return fmt.Sprintf("value %s belongs to %s and %s", x.val, o, x.n+x.k)
			}
			of[x.val] = x.n + x.k
		}
	}
	return ""
}

// execs of a stage per machine.
func (p *programsWorld) execs(stage int) map[string]int {
	m := map[string]int{}
	for _, e := range p.log {
		if e.kind == "exec" && e.stage == stage {
			m[host(e.who)]++
		}
	}
	return m
}

func (p *programsWorld) judge() string {
	if !p.fin {
		return "the programs do not end"
	}
	if b := p.inOrder(); b != "" {
		return b
	}
	if p.hung {
		return "the server does not end"
	}
	if b := p.scopes(); b != "" {
		return b
	}
	srvSig, interrupted := p.sig["server"]
	clientSig := false // a client that takes part was told to end
	for tag, x := range p.procs {
		if !x.ended {
			return fmt.Sprintf("%s does not end", tag)
		}
		if x.exit != "" || x.err != nil {
			return fmt.Sprintf("%s ended with %s %v", tag, x.exit, x.err)
		}
		at, ok := p.sig[tag]
		if !ok {
			continue
		}
		lim := 1300 * ms     // a retry wait
		if tag == "server" { // clients have 3 s to send what they have
			lim = 3500 * ms
		}
		if x.at > at+lim {
			return fmt.Sprintf("%s ended %s after CTRL-C", tag, x.at-at)
		}
		for _, e := range p.log {
			if e.kind == "exec" && e.at > at+20*ms && e.who == tag {
				return fmt.Sprintf("%s executed statements after CTRL-C", tag)
			}
		}
		if tag != "server" && at < p.procs["server"].at {
			clientSig = true
		}
	}
	if !interrupted && clientSig {
		interrupted, srvSig = true, p.procs["server"].at
	}
	for i, s := range p.s.stages {
		m := p.execs(i + 1)
		n := 0
		for h, k := range m {
			n += k
			if h == "server" && s.noLocal {
				return fmt.Sprintf("stage %d runs on the server", i+1)
			}
			if k > perInstance || k < perInstance && !interrupted {
				return fmt.Sprintf("stage %d: %s executed %d statements, expected %d", i+1, h, k, perInstance)
			}
		}
		if p.s.test {
			if n > 0 {
				return fmt.Sprintf("stage %d is executed by a test", i+1)
			}
			continue
		}
		if len(m) > s.instances || len(m) < s.instances && !interrupted {
			return fmt.Sprintf("stage %d runs on %d instances, expected %d", i+1, len(m), s.instances)
		}
		if p.n[i+1] != uint64(n) && (!interrupted || p.n[i+1] > uint64(n)+6) {
			return fmt.Sprintf("stage %d: %d queries are reported, %d were executed", i+1, p.n[i+1], n)
		}
		for _, e := range p.log {
			if interrupted && e.stage == i+1 && e.kind == "exec" && e.at > srvSig+5*time.Second {
				return fmt.Sprintf("stage %d goes on after the end of the server", i+1)
			}
		}
	}
	return ""
}

func (l *lab) program(name string, bound int, s progSpec, ctrlC string) {
	l.explore(name, bound, func() (*world, []string, func(*world, vsched.Run) string) {
		w := &world{}
		p := &programsWorld{world: w, s: s}
		w.body = p.run
		w.delay = func(e *fakedb.Event, stage int) fakedb.Answer {
			if stmtRe.MatchString(e.SQL) {
				return fakedb.Answer{Delay: 100 * ms}
			}
			return fakedb.Answer{}
		}
		chosen := ctrlC == ""
		w.tick = func(kind string, st int) time.Duration {
			if chosen || p.over {
				return 0
			}
			k := vsched.Choose(1 + len(delays))
			if k == 0 {
				return 0
			}
			chosen = true
			vsched.Go(func() {
				vsched.Sleep(delays[k-1])
				vsched.NoPreempt(func() {
					for tag := range p.procs {
						if x := p.procs[tag]; !x.ended && host(tag) == ctrlC {
							p.interrupt(tag)
							p.over = p.over || tag == "server"
						}
					}
				})
			})
			return ms
		}
		args := append(append([]string{}, s.server...), s.client...)
		return w, args, func(*world, vsched.Run) string { return p.judge() }
	})
}

func programs(unit func(string, func(l *lab))) {
	kinds := []item2{{1, false, false}, {2, false, false}, {1, true, false}, {3, false, false}, {2, true, false}}
	addrs := []progSpec{
		{server: []string{"--server", "10.0.0.1"}, client: []string{"--client", "10.0.0.1"}, listen: "10.0.0.1:33075", host: "10.0.0.1:33075"},
		{server: []string{"--server", "10.0.0.1:7000"}, client: []string{"--client=10.0.0.1:7000"}, listen: "10.0.0.1:7000", host: "10.0.0.1:7000"},
		{server: []string{"--server=0.0.0.0"}, client: []string{"--client", "finch.example.com"}, listen: "0.0.0.0:33075", host: "finch.example.com:33075"},
		{server: []string{"FINCH_SERVER=10.0.0.1:9"}, client: []string{"FINCH_CLIENT=10.0.0.1:9"}, listen: "10.0.0.1:9", host: "10.0.0.1:9"},
		{server: []string{"FINCH_SERVER=10.0.0.1"}, client: []string{"FINCH_CLIENT=10.0.0.1"}, listen: "10.0.0.1:33075", host: "10.0.0.1:33075"},
		{server: []string{"FINCH_SERVER=10.0.0.9", "--server", "10.0.0.1"}, client: []string{"FINCH_CLIENT=10.0.0.9", "--client", "10.0.0.1"}, listen: "10.0.0.1:33075", host: "10.0.0.1:33075"},
	}
	unit("programs, addresses", func(l *lab) {
		for i, s := range addrs {
			for _, k := range kinds[:3] {
				for _, test := range []bool{false, true} {
					s.stages, s.clients, s.test = []item2{k}, k.remotes(), test
					l.program(fmt.Sprint("addresses ", i, k, test), 0, s, "")
				}
			}
		}
	})
	for _, test := range []bool{false, true} {
		test := test
		unit(fmt.Sprintf("programs, stages, test %v", test), func(l *lab) {
			var list []item2
			var rec func()
			rec = func() {
				if l.c.Violated() {
					return
				}
				if len(list) > 0 {
					s := addrs[0]
					s.stages, s.test = append([]item2{}, list...), test
					for _, x := range list {
						if x.remotes() > s.clients {
							s.clients = x.remotes()
						}
					}
					l.program(fmt.Sprint("stages ", list, test), 0, s, "")
				}
				if len(list) == l.c.Pick(2, 3) {
					return
				}
				for _, k := range kinds {
					list = append(list, k)
					rec()
					list = list[:len(list)-1]
				}
			}
			rec()
		})
	}
	for _, k := range kinds[:3] {
		k := k
		unit(fmt.Sprint("programs, schedules ", k), func(l *lab) {
			s := addrs[0]
			s.stages, s.clients = []item2{k, kinds[0]}, k.remotes()
			l.program(fmt.Sprint("schedules ", k), l.c.Pick(1, 2), s, "")
		})
	}
	for _, who := range []string{"server", "c1"} {
		for _, k := range kinds[1:] {
			who, k := who, k
			unit(fmt.Sprintf("programs, CTRL-C of %s, %v", who, k), func(l *lab) {
				s := addrs[0]
				s.stages, s.clients = []item2{k, {2, false, false}}, k.remotes()
				l.program(fmt.Sprint("CTRL-C ", who, k), 0, s, who)
			})
		}
	}
}
