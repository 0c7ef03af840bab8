// Package stages decides workload allocation (C12) and stage execution (C13).
package stages

import (
	"context"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/square/finch/config"
	"github.com/square/finch/data"

	"finchverif/fakedb"
	"finchverif/fin"
	"finchverif/report"
	"finchverif/vsched"
)

// sfile is a trx file: its name and whether it has DDL. rows > 0: its first
// statement ends the client after that many executions (over all clients).
type sfile struct {
	name string
	ddl  bool
	rows int
}

// cg is a configured client group.
type cg struct {
	clients string
	trx     []string
	group   string
	iter    string
	iterCl  string
	db      string
	ms      int // runtime, 9 ms if zero
}

type wl struct {
	files  []sfile
	groups []cg
	stageN uint
}

func (f sfile) text() string {
	n := f.name
	if f.ddl {
		return fmt.Sprintf("CREATE TABLE %s1 (a int)\n\nSELECT '%s2', @who%s\n", n, n, n)
	}
	mod := ""
	if f.rows > 0 {
		mod = fmt.Sprintf("-- rows: %d\n", f.rows)
	}
	return fmt.Sprintf("%sINSERT INTO t VALUES ('%s1', @who%s)\n\nSELECT '%s2', @who%s\n", mod, n, n, n, n)
}

func (w wl) yaml() string {
	y := "stage:\n  name: s\n  trx:\n"
	for _, f := range w.files {
		y += fmt.Sprintf("    - file: %s.sql\n      name: %s\n      data:\n        who%s:\n          generator: who\n", f.name, f.name, f.name)
	}
	if len(w.groups) > 0 {
		y += "  workload:\n"
	}
	for _, g := range w.groups {
		y += fmt.Sprintf("    - runtime: %dms\n", g.millis())
		if g.clients != "" {
			y += "      clients: " + g.clients + "\n"
		}
		if len(g.trx) > 0 {
			y += "      trx: [" + strings.Join(g.trx, ",") + "]\n"
		}
		if g.group != "" {
			y += "      group: " + g.group + "\n"
		}
		if g.iter != "" {
			y += "      iter: " + g.iter + "\n"
		}
		if g.iterCl != "" {
			y += "      iter-clients: " + g.iterCl + "\n"
		}
		if g.db != "" {
			y += "      db: " + g.db + "\n"
		}
	}
	return y
}

func (g cg) millis() int {
	if g.ms == 0 {
		return 9
	}
	return g.ms
}

func (w wl) trxFiles() map[string]string {
	m := map[string]string{}
	for _, f := range w.files {
		m[f.name+".sql"] = f.text()
	}
	return m
}

func (w wl) String() string { return fmt.Sprintf("files %+v groups %+v", w.files, w.groups) }

// want is what a client group must do.
type want struct {
	eg, cg  int // 1-based
	clients int
	trx     []string
	iter    int // 0: until the runtime ends or the rows are in
	iterCl  int
	db      string
	runtime bool
	ms      int
}

// expect allocates w as documented.
func (w wl) expect() []want {
	ddl := map[string]bool{}
	var all []string
	for _, f := range w.files {
		ddl[f.name] = f.ddl
		all = append(all, f.name)
	}
	var out []want
	if len(w.groups) == 0 {
		for _, n := range all {
			switch {
			case ddl[n]:
				out = append(out, want{eg: len(out) + 1, cg: 1, clients: 1, trx: []string{n}, iter: 1})
			case len(out) > 0 && !ddl[out[len(out)-1].trx[0]]:
				out[len(out)-1].trx = append(out[len(out)-1].trx, n)
			default:
				out = append(out, want{eg: len(out) + 1, cg: 1, clients: 1, trx: []string{n}})
			}
		}
		return out
	}
	eg, no := 0, 0
	type id struct {
		name string
		ddl  bool
	}
	var prev id
	for i, g := range w.groups {
		x := want{clients: 1, trx: g.trx, db: g.db, runtime: true, ms: g.millis()}
		if g.clients != "" {
			x.clients, _ = strconv.Atoi(g.clients)
		}
		if len(x.trx) == 0 {
			x.trx = all
		}
		x.iter, _ = strconv.Atoi(g.iter)
		x.iterCl, _ = strconv.Atoi(g.iterCl)
		anyDDL := false
		for _, n := range x.trx {
			anyDDL = anyDDL || ddl[n]
		}
		if anyDDL && x.iter == 0 {
			x.iter = 1
		}
		me := id{g.group, anyDDL}
		same := i > 0 && me.name == prev.name && (me.name != "" || !me.ddl && !prev.ddl)
		if same {
			no++
		} else {
			eg++
			no = 1
		}
		prev = me
		x.eg, x.cg = eg, no
		out = append(out, x)
	}
	return out
}

// ran is what one client was seen to do.
type ran struct {
	stmts   []string // "A1", "A2", ...
	who     []string
	db      string
	first   int
	last    int
	trouble string
}

func label(sql string) string {
	if strings.HasPrefix(sql, "CREATE TABLE ") {
		return strings.Fields(sql)[2]
	}
	if i := strings.Index(sql, "'"); i >= 0 && len(sql) > i+3 {
		return sql[i+1 : i+3]
	}
	return "?" + sql
}

func judge12(w wl, evs []fakedb.Event) (outcome, bad string) {
	exp := w.expect()
	conns := map[int]*ran{}
	byClient := map[string]*ran{}
	var order []int
	for _, e := range evs {
		r := conns[e.Conn]
		if r == nil {
			r = &ran{first: e.Seq}
			conns[e.Conn] = r
			order = append(order, e.Conn)
		}
		switch {
		case e.Kind == "connect" || e.Kind == "ping" || e.Kind == "close":
		case strings.HasPrefix(e.SQL, "USE "):
			if len(r.stmts) > 0 {
				r.trouble = "USE after statements"
			}
			r.db = strings.Trim(e.SQL[4:], "`")
		default:
			l := label(e.SQL)
			r.stmts = append(r.stmts, l)
			r.last = e.Seq
			wh := ""
			if i := strings.LastIndex(e.SQL, ", "); i >= 0 && !strings.HasPrefix(e.SQL, "CREATE") {
				wh = strings.Trim(strings.TrimRight(strings.TrimSpace(e.SQL[i+2:]), ")"), "' ")
			}
			r.who = append(r.who, wh)
		}
	}
	idle := []*ran{}
	for _, c := range order[1:] { // the first is the connection test
		r := conns[c]
		if r.trouble != "" {
			return "", r.trouble
		}
		var id string
		for _, s := range r.who {
			if p, ok := fin.ParseWho(s); ok {
				id = p.Client()
			}
		}
		if id == "" {
			if len(r.stmts) == 0 {
				idle = append(idle, r)
				continue
			}
			// cut off by the runtime right after a DDL statement
			return "", fmt.Sprintf("a client executed only %v", r.stmts)
		}
		if byClient[id] != nil {
			return "", "client " + id + " runs twice (or its number is used by two clients)"
		}
		byClient[id] = r
	}
	if len(conns[order[0]].stmts) > 0 {
		return "", "the connection test executes statements"
	}
	prevLast := -1
	seen := 0
	idleBy := map[string]int{}
	for _, r := range idle {
		idleBy[r.db]++
	}
	stage := w.stageN
	if stage == 0 {
		stage = 1
	}
	wantIdle := map[string]int{}
	rowsLeft := map[string]int{}
	for _, f := range w.files {
		rowsLeft[f.name] = f.rows
	}
	for i := 0; i < len(exp); {
		egLast := prevLast
		j := i
		for ; j < len(exp) && exp[j].eg == exp[i].eg; j++ {
			x := exp[j]
			iters := 0
			for c := 1; c <= x.clients; c++ {
				id := fmt.Sprintf("s%d.e%d.g%d.c%d", stage, x.eg, x.cg, c)
				r := byClient[id]
				if r == nil {
					if x.iterCl > 0 && x.iterCl < x.clients { // may come too late
						wantIdle[x.db]++
						continue
					}
					return "", fmt.Sprintf("client %s of client group %d did not execute anything", id, j+1)
				}
				seen++
				if r.db != x.db {
					return "", fmt.Sprintf("client %s has default database %q, should have %q", id, r.db, x.db)
				}
				if r.first < prevLast {
					return "", fmt.Sprintf("client %s starts before the previous execution group ended", id)
				}
				if r.last > egLast {
					egLast = r.last
				}
				var cycle []string
				for _, n := range x.trx {
					cycle = append(cycle, n+"1", n+"2")
				}
				for k, s := range r.stmts {
					if s != cycle[k%len(cycle)] {
						return "", fmt.Sprintf("client %s executes %v, its transactions are %v", id, r.stmts, x.trx)
					}
					p, ok := fin.ParseWho(r.who[k])
					if !ok {
						continue
					}
					it, tr, q := k/len(cycle)+1, k/2+1, k+1
					if p.Iter != it || p.Trx != tr || p.Stmt != q || p.Conn != 1 {
						return "", fmt.Sprintf("client %s statement %d is numbered %s, should be iteration %d, trx %d, statement %d", id, k+1, r.who[k], it, tr, q)
					}
				}
				full := len(r.stmts) / len(cycle)
				rest := len(r.stmts) % len(cycle)
				limited := false
				for _, f := range w.files {
					if f.rows > 0 && !x.runtime {
						limited = limited || contains(x.trx, f.name)
					}
				}
				switch {
				case limited:
					// the file with rows ends it, right before its first statement
					n := 0
					for k := 0; ; k++ {
						f := x.trx[(k/2)%len(x.trx)]
						if k%2 == 0 && rowsOf(w, f) > 0 {
							if rowsLeft[f] == 0 {
								n = k
								break
							}
							rowsLeft[f]--
						}
					}
					if len(r.stmts) != n {
						return "", fmt.Sprintf("client %s executes %v, %d statements expected", id, r.stmts, n)
					}
				case x.iter > 0 && x.iterCl == 0:
					n := x.iter
					if r.stmts != nil && (full != n || rest != 0) && n*len(cycle) <= x.ms-1 {
						return "", fmt.Sprintf("client %s executes %v, should do %d iterations of %v", id, r.stmts, n, cycle)
					}
					if full > n || full == n && rest > 0 {
						return "", fmt.Sprintf("client %s executes %v, at most %d iterations of %v", id, r.stmts, n, cycle)
					}
				case x.iter == 0 && x.iterCl == 0:
					if len(r.stmts) < x.ms-1 || len(r.stmts) > x.ms+1 {
						return "", fmt.Sprintf("client %s without limits executes %d statements in %d ms of 1 ms each", id, len(r.stmts), x.ms)
					}
				}
				if x.iter > 0 && (full > x.iter || full == x.iter && rest > 0) {
					return "", fmt.Sprintf("client %s executes %v, at most %d iterations of %v", id, r.stmts, x.iter, cycle)
				}
				iters += full
				if rest > 0 {
					iters++
				}
			}
			if x.iterCl > 0 {
				if iters > x.iterCl || x.iter == 0 && iters < x.iterCl && x.iterCl*len(x.trx)*2 <= x.ms-1 {
					return "", fmt.Sprintf("client group %d does %d iterations, limited to %d per client group", j+1, iters, x.iterCl)
				}
			}
		}
		prevLast = egLast
		i = j
	}
	if seen != len(byClient) {
		return "", fmt.Sprintf("%d clients ran, %d configured", len(byClient), seen)
	}
	ni, nw := 0, 0
	for _, n := range idleBy {
		ni += n
	}
	for _, n := range wantIdle {
		nw += n
	}
	if ni != nw {
		return "", fmt.Sprintf("%d clients connected without executing anything, %d expected", ni, nw)
	}
	var ids []string
	for id, r := range byClient {
		ids = append(ids, id+strings.Join(r.stmts, ""))
	}
	sort.Strings(ids)
	return strings.Join(ids, " "), ""
}

func rowsOf(w wl, name string) int {
	for _, f := range w.files {
		if f.name == name {
			return f.rows
		}
	}
	return 0
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// loader loads stage files in one reused scratch directory.
type loader struct{ dir string }

func newLoader(t *testing.T) *loader { return &loader{fin.Write(t, map[string]string{})} }

func (l *loader) load(yaml string, files map[string]string) (config.Stage, error) {
	for n, c := range files {
		if err := os.WriteFile(l.dir+"/"+n, []byte(c), 0644); err != nil {
			panic(err)
		}
	}
	if err := os.WriteFile(l.dir+"/s.yaml", []byte(yaml), 0644); err != nil {
		panic(err)
	}
	st, err := config.Load([]string{l.dir + "/s.yaml"}, nil, "", "")
	if err != nil {
		return config.Stage{}, err
	}
	for i := range st[0].Trx {
		if !strings.HasPrefix(st[0].Trx[i].File, "/") {
			st[0].Trx[i].File = l.dir + "/" + st[0].Trx[i].File
		}
	}
	return st[0], nil
}

func (w wl) scenario(cfg config.Stage) *vsched.Scenario {
	return &vsched.Scenario{
		Opts: vsched.Opts{Name: "alloc", Bound: 0, Background: true, MaxSteps: 100000},
		New: func() (func(), func(vsched.Run) (string, string)) {
			db := &fakedb.DB{Answer: func(e *fakedb.Event) (a fakedb.Answer) {
				if e.Kind == "exec" || e.Kind == "query" {
					if !strings.HasPrefix(e.SQL, "USE ") {
						a.Delay = time.Millisecond
						a.NoCtx = true
						a.Affected = 1
					}
					if strings.HasPrefix(e.SQL, "SELECT") {
						r := fin.OneRow("1")
						r.Delay, r.NoCtx = a.Delay, true
						return r
					}
				}
				return a
			}}
			vsched.OpenDB = db.OpenFn()
			var err error
			body := func() {
				ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
				defer cancel()
				err = fin.RunStage(ctx, cfg, data.NewScope(), nil)
			}
			return body, func(r vsched.Run) (string, string) {
				if err != nil {
					return "err", "stage failed: " + err.Error() + "\n" + w.String()
				}
				if r.Deadlock || r.Livelock || r.Elapsed > 50*time.Minute {
					return "stuck", "the stage does not end\n" + w.String()
				}
				o, v := judge12(w, db.Events())
				if v != "" {
					v += "\n" + w.String()
				}
				return o, v
			}
		},
	}
}

func kinds(n int, f func([]sfile)) {
	for m := 0; m < 1<<n; m++ {
		fs := make([]sfile, n)
		for i := range fs {
			fs[i] = sfile{name: string(rune('A' + i)), ddl: m>>i&1 == 1}
			if !fs[i].ddl {
				fs[i].rows = 2
			}
		}
		f(fs)
	}
}

func TestC12(t *testing.T) {
	one := func(c *report.Ctx, l *loader, w wl) {
		if c.TimeUp() || c.Violated() {
			return
		}
		cfg, err := l.load(w.yaml(), w.trxFiles())
		if err != nil {
			c.Violate("rejected", "valid workload rejected: "+err.Error()+"\n"+w.String(), w.yaml())
			return
		}
		if w.stageN > 0 {
			cfg.N = w.stageN
		}
		sc := w.scenario(cfg)
		st, f := vsched.Explore(c.T, sc)
		c.State(st.States, st.Transitions, st.Executions)
		for o := range st.Outcomes {
			c.Case(o)
		}
		if f != nil {
			c.Violate(strings.SplitN(f.Msg, "\n", 2)[0], f.Msg, map[string]interface{}{"yaml": w.yaml(), "trx": w.trxFiles()})
		}
	}
	two := []func(*[]sfile){
		func(f *[]sfile) {},
		func(f *[]sfile) { (*f)[0].ddl = true },
		func(f *[]sfile) { (*f)[1].ddl = true },
		func(f *[]sfile) { (*f)[0].ddl, (*f)[1].ddl = true, true },
	}
	files := func(k int) []sfile {
		fs := []sfile{{name: "A"}, {name: "B"}}
		two[k](&fs)
		return fs
	}
	valid := func(gs []cg) bool {
		last := map[string]int{}
		with, without := 0, 0
		for i, g := range gs {
			if g.group != "" {
				if p, ok := last[g.group]; ok && p != i-1 {
					return false
				}
				last[g.group] = i
			}
			if len(g.trx) > 0 {
				with++
			} else {
				without++
			}
		}
		return with == 0 || without == 0
	}
	trxs := [][]string{nil, {"A"}, {"B"}, {"B", "A"}, {"A", "A"}, {"A", "B", "A"}}
	var units []report.Unit
	units = append(units, report.Unit{Name: "no workload", Run: func(c *report.Ctx) {
		l := newLoader(c.T)
		for n := 1; n <= c.Pick(6, 8); n++ {
			kinds(n, func(fs []sfile) { one(c, l, wl{files: fs}) })
		}
	}})
	units = append(units, report.Unit{Name: "one group", Run: func(c *report.Ctx) {
		l := newLoader(c.T)
		for k := 0; k < 4; k++ {
			for _, cl := range []string{"", "1", "2", "3"} {
				for _, tr := range trxs {
					for _, gr := range []string{"", "x"} {
						for _, it := range []string{"", "1", "2", "3"} {
							for _, ic := range []string{"", "1", "3"} {
								for _, db := range []string{"", "d1"} {
									for _, n := range []uint{0, 3} {
										one(c, l, wl{files: files(k), stageN: n, groups: []cg{{clients: cl, trx: tr, group: gr, iter: it, iterCl: ic, db: db}}})
									}
								}
							}
						}
					}
				}
			}
		}
	}})
	for k := 0; k < 4; k++ {
		k := k
		units = append(units, report.Unit{Name: fmt.Sprintf("two groups, files %d", k), Run: func(c *report.Ctx) {
			l := newLoader(c.T)
			var gs []cg
			for _, cl := range []string{"", "2"} {
				for _, tr := range trxs[:c.Pick(5, 6)] {
					for _, gr := range []string{"", "x", "y"} {
						for _, it := range []string{"", "2"} {
							gs = append(gs, cg{clients: cl, trx: tr, group: gr, iter: it})
						}
					}
				}
			}
			for i, a := range gs {
				for j, b := range gs {
					if c.Tier != "thorough" && (i+j)%2 == 1 && len(a.trx) > 1 && len(b.trx) > 1 {
						continue
					}
					a.db, b.db = "", ""
					if i%2 == 0 {
						b.db = "d2"
					}
					if j%3 == 0 {
						a.db = "d1"
					}
					if p := []cg{a, b}; valid(p) {
						one(c, l, wl{files: files(k), groups: p})
					}
				}
			}
		}})
		units = append(units, report.Unit{Name: fmt.Sprintf("three groups, files %d", k), Run: func(c *report.Ctx) {
			l := newLoader(c.T)
			for _, n := range []int{3, c.Pick(3, 4)} {
				if n == 3 {
					var gs []cg
					for _, tr := range trxs[:3] {
						for _, gr := range []string{"", "x", "y"} {
							for _, cl := range []string{"", "2"} {
								gs = append(gs, cg{clients: cl, trx: tr, group: gr, iter: "1"})
							}
						}
					}
					for _, a := range gs {
						for _, b := range gs {
							for _, d := range gs {
								d.iter = ""
								if p := []cg{a, b, d}; valid(p) {
									one(c, l, wl{files: files(k), groups: p})
								}
							}
						}
					}
					continue
				}
				var gs []cg
				for _, tr := range trxs[1:3] {
					for _, gr := range []string{"", "x", "y"} {
						gs = append(gs, cg{trx: tr, group: gr, iter: "1"})
					}
				}
				for _, a := range gs {
					for _, b := range gs {
						for _, d := range gs {
							for _, e := range gs {
								if p := []cg{a, b, d, e}; valid(p) {
									one(c, l, wl{files: files(k), groups: p})
								}
							}
						}
					}
				}
			}
		}})
	}
	units = append(units, report.Unit{Name: "sizes", Run: func(c *report.Ctx) { sizes12(c, one) }})
	report.Main(t, report.Check{
		ID:    "C12",
		Level: "model_checking",
		Rule:  "every stage of a small alphabet (1-6 trx files with and without DDL and no workload; 1-3 client groups with clients, trx lists, group names, iterations, databases) is loaded, prepared and run on the real code against a stand-in database in virtual time; what every connection executed, its numbering and database, and the order of execution groups are compared with an independent allocation written from the documentation; one case = one configuration; distinct = distinct observed executions",
		Assumptions: []string{
			"MySQL is a stand-in: every statement takes 1 ms and succeeds",
			"one schedule per configuration (interleavings are C13's)",
			"names of automatically named execution groups are not observable and not checked",
		},
		Units: units,
	})
}

// sizes12: one dimension at a time, far beyond the small workloads.
func sizes12(c *report.Ctx, one func(*report.Ctx, *loader, wl)) {
	l := newLoader(c.T)
	name := func(i int) string { return string(rune('A' + i)) }
	files := func(n int, ddl func(i int) bool) []sfile {
		fs := make([]sfile, n)
		for i := range fs {
			fs[i] = sfile{name: name(i), ddl: ddl(i)}
		}
		return fs
	}
	none := func(int) bool { return false }
	for n := 9; n <= c.Pick(14, 26); n++ {
		pats := []func(int) bool{none, func(int) bool { return true }, func(i int) bool { return i%2 == 0 }, func(i int) bool { return i%2 == 1 }, func(i int) bool { return i%3 == 2 }, func(i int) bool { return i >= n/2 }, func(i int) bool { return i < n/2 }}
		for k := 0; k < n; k++ {
			k := k
			pats = append(pats, func(i int) bool { return i == k }, func(i int) bool { return i != k })
		}
		for _, p := range pats {
			fs := files(n, p)
			for i := range fs {
				if !fs[i].ddl {
					fs[i].rows = 2
				}
			}
			one(c, l, wl{files: fs})
		}
	}
	// clients
	for n := 4; n <= c.Pick(24, 120); n++ {
		g := cg{clients: fmt.Sprint(n), trx: []string{"A"}, iter: "2"}
		one(c, l, wl{files: files(1, none), groups: []cg{g}})
		one(c, l, wl{files: files(2, none), groups: []cg{g, {clients: "2", trx: []string{"B"}, iter: "1"}, g}})
		g.group = "x"
		one(c, l, wl{files: files(2, none), groups: []cg{{clients: "2", trx: []string{"B"}, iter: "1"}, g, g}})
		one(c, l, wl{files: files(1, none), stageN: uint(n), groups: []cg{g}})
	}
	// iterations, statements
	for n := 1; n <= c.Pick(40, 300); n++ {
		g := cg{clients: "2", trx: []string{"A"}, iter: fmt.Sprint(n), ms: 1300}
		one(c, l, wl{files: files(1, none), groups: []cg{g}})
		one(c, l, wl{files: files(1, none), groups: []cg{{trx: []string{"A"}, ms: n + 8}}})
		g.iter, g.iterCl = "", fmt.Sprint(n)
		one(c, l, wl{files: files(1, none), groups: []cg{g}})
	}
	// transactions of a client group
	for n := 4; n <= c.Pick(16, 26); n++ {
		var all, back, same, odd []string
		for i := 0; i < n; i++ {
			all = append(all, name(i))
			back = append(back, name(n-1-i))
			same = append(same, "A")
			odd = append(odd, name(i*5%n))
		}
		for _, tr := range [][]string{nil, all, back, same, odd} {
			for _, d := range []func(int) bool{none, func(i int) bool { return i == n-1 }} {
				g := cg{trx: tr, iter: "2", ms: 1000, clients: "2"}
				one(c, l, wl{files: files(n, d), groups: []cg{g}})
			}
		}
	}
	// client groups and execution groups
	for n := 4; n <= c.Pick(14, 26); n++ {
		for _, grp := range []func(i int) string{
			func(i int) string { return "" },
			func(i int) string { return "x" },
			func(i int) string { return fmt.Sprintf("g%d", i) },
			func(i int) string { return fmt.Sprintf("g%d", i/2) },
			func(i int) string { return fmt.Sprintf("%d", (i+1)/3) },
			func(i int) string { return []string{"", "x"}[btoi(i >= n/2)] },
			func(i int) string { return []string{"x", ""}[btoi(i >= n/2)] },
			func(i int) string { return []string{"", fmt.Sprintf("z%d", i)}[i%2] },
		} {
			for _, d := range []func(int) bool{none, func(i int) bool { return i == 2 }, func(i int) bool { return i%2 == 1 }, func(i int) bool { return i == n-1 }} {
				w := wl{files: files(n, d)}
				for i := 0; i < n; i++ {
					w.groups = append(w.groups, cg{trx: []string{name(i)}, group: grp(i), iter: "1", clients: []string{"", "2"}[i%3/2], db: []string{"", "d1", "d2"}[i*7%3]})
				}
				one(c, l, w)
			}
		}
	}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}
