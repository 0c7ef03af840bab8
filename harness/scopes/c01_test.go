package scopes

import (
	"context"
	"fmt"
	"regexp"
	"strings"
	"testing"

	"github.com/square/finch/client"
	"github.com/square/finch/data"

	"finchverif/fakedb"
	"finchverif/fin"
	"finchverif/report"
	"finchverif/vsched"
)

// A program: trx files of statements of key uses, e.g. {{"a b()", "a"}, {"b"}}.
type program struct {
	files  [][]string
	scope  map[string]string // key -> scope
	csv    int               // >0: uses are a CSV template repeated this many times
	order  []int             // assigned files (indexes), default all in order
	iters  int
	client int
	errAt  map[int]uint16 // n-th statement execution of a client (0-based) -> MySQL error
	prep   bool
}

func (p program) String() string {
	return fmt.Sprintf("files=%q scope=%v csv=%d order=%v iters=%d clients=%d errors=%v prepare=%v", p.files, p.scope, p.csv, p.order, p.iters, p.client, p.errAt, p.prep)
}

func (p program) stage() (yaml string, files map[string]string) {
	files = map[string]string{}
	yaml = "stage:\n  name: s\n  trx:\n"
	for i, f := range p.files {
		yaml += fmt.Sprintf("    - file: t%d.sql\n      name: t%d\n", i, i)
		yaml += "      data:\n        w:\n          generator: who\n          scope: value\n"
		for k, s := range p.scope {
			yaml += "        " + k + ":\n          generator: tick\n"
			if s != "" {
				yaml += "          scope: " + s + "\n"
			}
		}
		txt := ""
		for j, uses := range f {
			if p.prep {
				txt += "-- prepare\n"
			}
			txt += fmt.Sprintf("UPDATE t%d_%d SET w='@w', v='", i, j)
			if p.csv > 0 {
				txt += fmt.Sprintf("/*!csv %d %s*/", p.csv, tmpl(uses, " "))
			} else {
				txt += tmpl(uses, ", ")
			}
			txt += "'\n\n"
		}
		files[fmt.Sprintf("t%d.sql", i)] = txt
	}
	yaml += fmt.Sprintf("  workload:\n    - clients: %d\n      iter: %d\n", p.client, p.iters)
	if p.order != nil {
		yaml += "      trx: ["
		for i, o := range p.order {
			if i > 0 {
				yaml += ","
			}
			yaml += fmt.Sprintf("t%d", o)
		}
		yaml += "]\n"
	}
	return
}

func tmpl(uses, sep string) string {
	f := strings.Fields(uses)
	for i := range f {
		f[i] = "@" + f[i]
	}
	return strings.Join(f, sep)
}

var reQuoted = regexp.MustCompile(`'([^']*)'`)

// values extracts who and the values of one executed statement.
func values(e fakedb.Event) (fin.Who, []string, bool) {
	if len(e.Args) > 0 {
		w, ok := fin.ParseWho(e.Args[0])
		return w, e.Args[1:], ok
	}
	m := reQuoted.FindAllStringSubmatch(e.SQL, -1)
	if len(m) != 2 {
		return fin.Who{}, nil, false
	}
	w, ok := fin.ParseWho(m[0][1])
	return w, strings.FieldsFunc(m[1][1], func(r rune) bool { return r == ',' || r == ' ' }), ok
}

// ---- reference model of one client

type inst struct {
	last int
	n    int
}

// expect returns, per statement execution of client c, the expected values as
// "<model instance>:<n>", and the number of calls per model instance.
func (p program) expect(c int) (stmts [][]string, calls map[string]int) {
	in := map[string]*inst{}
	calls = map[string]int{}
	conn, iter, trx, st := 1, 0, 0, 0
	order := p.order
	if order == nil {
		for i := range p.files {
			order = append(order, i)
		}
	}
ITER:
	for iter < p.iters {
		iter++
		for pos, fi := range order {
			trx++
			for j, uses := range p.files[fi] {
				st++
				var vals []string
				reps := 1
				if p.csv > 0 {
					reps = p.csv
				}
				for r := 0; r < reps; r++ {
					first := map[string]bool{}
					for oi, u := range strings.Fields(uses) {
						key := strings.TrimSuffix(u, "()")
						explicit := key != u
						scope := p.scope[key]
						if scope == "" {
							scope = "statement"
							if p.csv > 0 {
								scope = "row"
							}
						}
						if scope == "row" && p.csv > 0 && !first[key] {
							explicit = true
						}
						first[key] = true
						id, cnt := "", 0
						switch scope {
						case "value":
							id = fmt.Sprintf("%s c%d p%d s%d o%d.%d", key, c, pos, j, r, oi)
							explicit = true
						case "statement", "row":
							id = fmt.Sprintf("%s c%d p%d s%d", key, c, pos, j)
							cnt = st
						case "trx":
							id = fmt.Sprintf("%s c%d p%d", key, c, pos)
							cnt = trx
						case "iter":
							id = fmt.Sprintf("%s c%d", key, c)
							cnt = iter
						case "client":
							id = fmt.Sprintf("%s c%d", key, c)
							cnt = conn
						}
						x := in[id]
						if x == nil {
							x = &inst{}
							in[id] = x
						}
						if explicit || cnt > x.last {
							x.n++
							x.last = cnt
							calls[id]++
						}
						vals = append(vals, fmt.Sprintf("%s:%d", id, x.n))
					}
				}
				stmts = append(stmts, vals)
				if _, ok := p.errAt[st-1]; ok {
					conn++
					continue ITER
				}
			}
		}
	}
	return
}

// run executes the program for real and compares.
func (p program) run(t *testing.T) (key string, violation string) {
	fin.ResetTicks()
	yaml, files := p.stage()
	cfg := fin.Load(t, yaml, files)
	n := map[string]int{}
	db := &fakedb.DB{}
	db.Answer = func(e *fakedb.Event) (a fakedb.Answer) {
		if e.Kind == "exec" || e.Kind == "sexec" {
			w, _, ok := values(*e)
			if ok {
				c := w.Client()
				if code, ok := p.errAt[n[c]]; ok {
					a.Err = fakedb.MyErr(code)
				}
				n[c]++
			}
		}
		return
	}
	vsched.OpenDB = db.OpenFn()
	if err := fin.RunStage(context.Background(), cfg, data.NewScope(), nil); err != nil {
		return "", "stage failed: " + err.Error()
	}
	got := map[string][][]string{}
	for _, e := range db.Events() {
		if e.Kind != "exec" && e.Kind != "sexec" {
			continue
		}
		w, vals, ok := values(e)
		if !ok {
			return "", "unexpected statement: " + e.String()
		}
		got[w.Client()] = append(got[w.Client()], vals)
	}
	toTick, toModel := map[string]string{}, map[string]string{}
	wantCalls := map[string]int{}
	for c := 1; c <= p.client; c++ {
		want, calls := p.expect(c)
		for k, v := range calls {
			wantCalls[k] += v
		}
		g := got[fmt.Sprintf("s1.e1.g1.c%d", c)]
		desc := func() string { return fmt.Sprintf("client %d: expected %v, executed %v", c, want, g) }
		if len(g) != len(want) {
			return "", fmt.Sprintf("%d statements executed, expected %d; %s", len(g), len(want), desc())
		}
		for i := range want {
			if len(g[i]) != len(want[i]) {
				return "", fmt.Sprintf("statement execution %d has %d values, expected %d; %s", i+1, len(g[i]), len(want[i]), desc())
			}
			for j := range want[i] {
				wi := strings.LastIndex(want[i][j], ":")
				gi := strings.LastIndex(g[i][j], ":")
				if gi < 0 || want[i][j][wi:] != g[i][j][gi:] {
					return "", fmt.Sprintf("statement execution %d value %d is %q, expected generation %s; %s", i+1, j+1, g[i][j], want[i][j], desc())
				}
				m, k := want[i][j][:wi], g[i][j][:gi]
				if a, ok := toTick[m]; ok && a != k {
					return "", fmt.Sprintf("scope instance %s uses generators %s and %s; %s", m, a, k, desc())
				}
				if a, ok := toModel[k]; ok && a != m {
					return "", fmt.Sprintf("generator %s is shared by scope instances %s and %s; %s", k, a, m, desc())
				}
				toTick[m], toModel[k] = k, m
			}
		}
	}
	gotCalls := map[string]int{}
	for _, c := range fin.Ticks.Calls {
		gotCalls[c.Val[:strings.LastIndex(c.Val, ":")]]++
	}
	for m, k := range toTick {
		if gotCalls[k] != wantCalls[m] {
			return "", fmt.Sprintf("generator of scope instance %s called %d times, expected %d", m, gotCalls[k], wantCalls[m])
		}
	}
	for k := range gotCalls {
		if _, ok := toModel[k]; !ok {
			return "", "generator " + k + " called but its value is never used"
		}
	}
	return fmt.Sprint(p), ""
}

var patterns = []string{"a", "", "a()", "a a", "a() a", "a a()", "a() a()"}
var singleScopes = []string{"", "statement", "trx", "iter", "client", "value"}

// programs of the given shape (statements per file): every pattern per statement.
func shapes(shape []int, pats []string, f func(files [][]string)) {
	total := 0
	for _, n := range shape {
		total += n
	}
	idx := make([]int, total)
	for {
		k := 0
		var files [][]string
		for _, n := range shape {
			var st []string
			for i := 0; i < n; i++ {
				st = append(st, pats[idx[k]])
				k++
			}
			files = append(files, st)
		}
		f(files)
		i := 0
		for i < total {
			idx[i]++
			if idx[i] < len(pats) {
				break
			}
			idx[i] = 0
			i++
		}
		if i == total {
			return
		}
	}
}

func TestC01(t *testing.T) {
	var units []report.Unit
	add := func(name string, thorough bool, f func(c *report.Ctx, try func(program))) {
		units = append(units, report.Unit{Name: name, Thorough: thorough, Run: func(c *report.Ctx) {
			client.ConnectRetryWait = 0
			try := func(p program) {
				if c.TimeUp() || c.Violated() {
					return
				}
				key, v := p.run(c.T)
				if v != "" {
					// the same program must fail again
					if _, v2 := p.run(c.T); v2 != "" {
						c.Violate(p.String(), v2+"\nprogram: "+p.String(), p.String())
					}
				}
				c.Case(key)
				c.State(1, len(p.files), 1)
			}
			f(c, try)
		}})
	}
	errPlans := func(n int) []map[int]uint16 {
		l := []map[int]uint16{nil}
		for i := 0; i < n; i++ {
			l = append(l, map[int]uint16{i: 1213}, map[int]uint16{i: 2013})
		}
		return l
	}
	for _, scope := range singleScopes {
		scope := scope
		for _, shape := range [][]int{{1}, {2}, {1, 1}, {2, 1}} {
			shape := shape
			add(fmt.Sprintf("scope %q shape %v", scope, shape), false, func(c *report.Ctx, try func(program)) {
				n := 0
				for _, k := range shape {
					n += k
				}
				shapes(shape, patterns, func(files [][]string) {
					for _, ep := range errPlans(n) {
						try(program{files: files, scope: map[string]string{"a": scope}, iters: 2, client: 1, errAt: ep})
					}
				})
			})
		}
		add(fmt.Sprintf("scope %q clients, files twice, prepared", scope), false, func(c *report.Ctx, try func(program)) {
			shapes([]int{1, 1}, patterns, func(files [][]string) {
				try(program{files: files, scope: map[string]string{"a": scope}, iters: 2, client: 2})
				try(program{files: files, scope: map[string]string{"a": scope}, iters: 2, client: 1, order: []int{0, 1, 0}})
				try(program{files: files, scope: map[string]string{"a": scope}, iters: 2, client: 1, order: []int{1, 0}})
				try(program{files: files, scope: map[string]string{"a": scope}, iters: 3, client: 1, prep: true, errAt: map[int]uint16{1: 1213}})
			})
		})
		add(fmt.Sprintf("scope %q shape [2 2] 3 iters 2 errors", scope), true, func(c *report.Ctx, try func(program)) {
			shapes([]int{2, 2}, patterns, func(files [][]string) {
				for i := 0; i < 6; i++ {
					for j := i; j < 9; j++ {
						try(program{files: files, scope: map[string]string{"a": scope}, iters: 3, client: 1, errAt: map[int]uint16{i: 1213, j: 2013}})
					}
				}
			})
		})
	}
	add("two keys", false, func(c *report.Ctx, try func(program)) {
		pats := []string{"a b", "b() a", "a b a()", "b"}
		for _, s1 := range singleScopes[1:] {
			for _, s2 := range singleScopes[1:] {
				shapes([]int{1, 1}, pats, func(files [][]string) {
					for _, ep := range errPlans(2) {
						try(program{files: files, scope: map[string]string{"a": s1, "b": s2}, iters: 2, client: 1, errAt: ep})
					}
				})
			}
		}
	})
	add("rows", false, func(c *report.Ctx, try func(program)) {
		pats := []string{"a", "a a", "a() a", "a a()", "a b", "b a b a", "a b a() b"}
		for _, n := range []int{1, 2, 3} {
			for _, s1 := range []string{"", "row", "statement", "trx", "iter", "value"} {
				for _, s2 := range []string{"", "row", "trx"} {
					shapes([]int{2}, pats, func(files [][]string) {
						sc := map[string]string{"a": s1, "b": s2}
						try(program{files: files, scope: sc, csv: n, iters: 2, client: 1})
					})
					shapes([]int{1, 1}, pats[1:5], func(files [][]string) {
						sc := map[string]string{"a": s1, "b": s2}
						try(program{files: files, scope: sc, csv: n, iters: 2, client: 1, errAt: map[int]uint16{1: 1213}})
					})
				}
			}
		}
	})
	report.Main(t, report.Check{ID: "C01", Level: "model_checking",
		Rule:        "one case = one program (trx files, key uses, scopes, error plan) executed by the real pipeline against the fake database and compared statement by statement with the reference model of scopes; distinct = distinct programs",
		Assumptions: []string{"single-client scopes do not depend on the interleaving of clients (multi-client scopes are C02)", "states = programs, transitions = transaction files executed per iteration, each replayed on the implementation"},
		Units:       units})
}
