package scopes

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/square/finch/client"
	"github.com/square/finch/compute"
	"github.com/square/finch/config"
	"github.com/square/finch/data"

	"finchverif/fakedb"
	"finchverif/fin"
	"finchverif/remote"
	"finchverif/report"
	"finchverif/vsched"
)

// use of shared keys by one statement execution
type use struct {
	who  fin.Who
	vals []string
	uses []string // as written: a, a()
	sql  string
}

// shared is a stage whose clients share the generator of key a.
type shared struct {
	name   string
	scope  string
	gen    string     // generator (tick, auto-inc, int...)
	files  [][]string // trx files of statements of uses of @a
	groups []sgroup
	prep   bool
	errAt  string // client whose 1st statement fails once with a deadlock
}

type sgroup struct {
	exec          string
	clients, iter int
	files         []int
}

// draws are random values that are all different.
type draws int64

func (d *draws) Int63n(n int64) int64 { *d++; return int64(*d) * 7919 % n }
func (d *draws) Norm() float64        { *d++; return float64(*d) / 1e6 }
func (d *draws) Word() uint64         { *d++; return uint64(*d) * 7919 }

func (p shared) load(t *testing.T) config.Stage {
	pr := program{files: p.files, scope: map[string]string{"a": p.scope}, iters: 1, client: 1, prep: p.prep}
	yaml, files := pr.stage()
	yaml = yaml[:strings.Index(yaml, "  workload:")]
	if p.gen != "" {
		yaml = strings.ReplaceAll(yaml, "generator: tick", "generator: "+strings.Replace(p.gen, " {", "\n          params: {", 1))
	}
	yaml += "  workload:\n"
	for _, g := range p.groups {
		yaml += fmt.Sprintf("    - clients: %d\n      iter: %d\n", g.clients, g.iter)
		if g.exec != "" {
			yaml += "      group: " + g.exec + "\n"
		}
		if g.files != nil {
			var l []string
			for _, f := range g.files {
				l = append(l, fmt.Sprintf("t%d", f))
			}
			yaml += "      trx: [" + strings.Join(l, ", ") + "]\n"
		}
	}
	return fin.Load(t, yaml, files)
}

// usesOf reads the executed statements; the table name t<file>_<stmt> says which
// configured statement it is.
func usesOf(evs []fakedb.Event, files [][]string) ([]use, string) {
	var l []use
	for _, e := range evs {
		if e.Kind != "exec" && e.Kind != "sexec" {
			continue
		}
		w, vals, ok := values(e)
		var f, s int
		n, _ := fmt.Sscanf(e.SQL, "UPDATE t%d_%d", &f, &s)
		if !ok || n != 2 {
			return nil, "unexpected statement " + e.String()
		}
		u := strings.Fields(files[f][s])
		if len(u) != len(vals) {
			return nil, fmt.Sprintf("%d values in %s, expected %d", len(vals), e.String(), len(u))
		}
		l = append(l, use{who: w, vals: vals, uses: u, sql: e.String()})
	}
	return l, ""
}

// instance names the scope instance a client belongs to.
func instance(scope string, w fin.Who) string {
	switch scope {
	case "client-group":
		return fmt.Sprintf("s%d.e%d.g%d", w.Stage, w.EG, w.CG)
	case "exec-group":
		return fmt.Sprintf("s%d.e%d", w.Stage, w.EG)
	case "workload", "stage":
		return fmt.Sprintf("s%d", w.Stage)
	}
	return "global"
}

// judgeShared: the multi client rule.
func judgeShared(p shared, us []use) string {
	// per client iteration: the values it saw in order
	type ci struct {
		c string
		i int
	}
	inst := map[string]string{}  // generator -> instance
	insts := map[string]string{} // instance -> generator
	owner := map[string]ci{}
	cur := map[ci]string{}
	calls := map[ci]int{}
	for _, u := range us {
		k := ci{u.who.Client(), u.who.Iter}
		for j, v := range u.vals {
			if strings.HasSuffix(u.uses[j], "()") || cur[k] == "" {
				// a new call
				if o, ok := owner[v]; ok {
					return fmt.Sprintf("value %s of %s iteration %d was already given to %s iteration %d (%s)", v, k.c, k.i, o.c, o.i, u.sql)
				}
				owner[v] = k
				cur[k] = v
				calls[k]++
			} else if v != cur[k] {
				return fmt.Sprintf("%s iteration %d uses value %s, expected its value %s (%s)", k.c, k.i, v, cur[k], u.sql)
			}
			if p.gen == "" {
				g := v[:strings.LastIndex(v, ":")]
				in := instance(p.scope, u.who)
				if inst[g] == "" {
					inst[g] = in
				}
				if insts[in] == "" {
					insts[in] = g
				}
				if inst[g] != in || insts[in] != g {
					return fmt.Sprintf("%s scope of %s uses generator %s; scope %s uses it, and %s uses %s", p.scope, in, g, inst[g], in, insts[in])
				}
			}
		}
	}
	if p.gen == "" {
		n := map[ci]int{}
		for _, c := range fin.Ticks.Calls {
			k := ci{fmt.Sprintf("s%d.e%d.g%d.c%d", c.RC[data.STAGE], c.RC[data.EXEC_GROUP], c.RC[data.CLIENT_GROUP], c.RC[data.CLIENT]), int(c.RC[data.ITER])}
			n[k]++
			if o, ok := owner[c.Val]; ok && o != k {
				return fmt.Sprintf("value %s generated by %s iteration %d is used by %s iteration %d", c.Val, k.c, k.i, o.c, o.i)
			}
		}
		for k := range n {
			if n[k] != calls[k] {
				return fmt.Sprintf("%s iteration %d called the generator %d times, expected %d", k.c, k.i, n[k], calls[k])
			}
		}
	}
	return ""
}

func outcome(us []use) string {
	var s []string
	for _, u := range us {
		s = append(s, u.who.Client()+":"+strings.Join(u.vals, ","))
	}
	return strings.Join(s, " ")
}

// expected number of statement executions per client
func (p shared) executions() map[string]int {
	m := map[string]int{}
	eg, cg, prev := 0, 0, "\x00"
	for _, g := range p.groups {
		if g.exec != prev {
			eg++
			cg = 0
			prev = g.exec
		}
		cg++
		n := 0
		if g.files == nil {
			for _, f := range p.files {
				n += len(f)
			}
		} else {
			for _, f := range g.files {
				n += len(p.files[f])
			}
		}
		for c := 1; c <= g.clients; c++ {
			m[fmt.Sprintf("s1.e%d.g%d.c%d", eg, cg, c)] = n * g.iter
		}
	}
	return m
}

func (p shared) scenario(t *testing.T, bound int) *vsched.Scenario {
	cfg := p.load(t)
	want := p.executions()
	return &vsched.Scenario{
		Opts: vsched.Opts{Name: p.name, Bound: bound, Background: true},
		New: func() (func(), func(vsched.Run) (string, string)) {
			fin.ResetTicks()
			if p.gen != "" {
				vsched.SetDraws(new(draws))
			}
			client.ConnectRetryWait = 0
			db := &fakedb.DB{}
			failed := false
			db.Answer = func(e *fakedb.Event) (a fakedb.Answer) {
				if p.errAt == "" || failed || (e.Kind != "exec" && e.Kind != "sexec") {
					return
				}
				if w, _, ok := values(*e); ok && w.Client() == p.errAt {
					failed = true
					a.Err = fakedb.MyErr(1213)
				}
				return
			}
			vsched.OpenDB = db.OpenFn()
			var err error
			body := func() { err = fin.RunStage(context.Background(), cfg, data.NewScope(), nil) }
			check := func(r vsched.Run) (string, string) {
				if err != nil {
					return "err", "stage failed: " + err.Error()
				}
				if r.Deadlock || r.Livelock {
					return "stuck", "the stage does not end"
				}
				us, v := usesOf(db.Events(), p.files)
				if v != "" {
					return "bad", v
				}
				if p.errAt == "" {
					n := map[string]int{}
					for _, u := range us {
						n[u.who.Client()]++
					}
					for c := range want {
						if n[c] != want[c] {
							return "count", fmt.Sprintf("client %s executed %d statements, expected %d", c, n[c], want[c])
						}
					}
				}
				if p.scope == "stage" || p.scope == "global" {
					return outcome(us), judgeOnce(p.scope, us, fin.Ticks)
				}
				return outcome(us), judgeShared(p, us)
			}
			return body, check
		},
	}
}

// judgeOnce: the one time rule, for one or several stages, given the executions
// in the order the database saw them.
func judgeOnce(scope string, us []use, ticks *fin.Tick) string {
	type st struct {
		vals  map[string]bool
		calls int
		gen   string
	}
	in := map[string]*st{}
	expl := map[string]int{}
	seen := map[string]int{} // client -> newest value it saw
	for _, u := range us {
		i := instance(scope, u.who)
		if in[i] == nil {
			in[i] = &st{vals: map[string]bool{}}
		}
		s := in[i]
		for j, v := range u.vals {
			if !strings.Contains(v, "#") || !strings.Contains(v, ":") {
				return fmt.Sprintf("%s has value %q, which no generator made", u.sql, v)
			}
			g := v[:strings.LastIndex(v, ":")]
			if s.gen == "" {
				s.gen = g
			}
			if s.gen != g {
				return fmt.Sprintf("%s scope of %s uses generators %s and %s", scope, i, s.gen, g)
			}
			n := 0
			fmt.Sscanf(v[strings.LastIndex(v, ":"):], ":%d", &n)
			if c := u.who.Client(); n < seen[c] {
				return fmt.Sprintf("%s uses value %s after the client used a newer one", u.sql, v)
			} else {
				seen[c] = n
			}
			if strings.HasSuffix(u.uses[j], "()") {
				expl[i]++
				if s.vals["()"+v] {
					return fmt.Sprintf("explicit call by %s returned value %s again", u.sql, v)
				}
				s.vals["()"+v] = true
			} else {
				s.vals[v] = true
			}
		}
	}
	gens := map[string]string{}
	for i, s := range in {
		if o := gens[s.gen]; o != "" {
			return fmt.Sprintf("%s and %s share generator %s", i, o, s.gen)
		}
		gens[s.gen] = i
		var impl []string
		for v := range s.vals {
			if !strings.HasPrefix(v, "()") {
				impl = append(impl, v)
			}
		}
		sort.Strings(impl)
		if expl[i] == 0 && len(impl) > 1 {
			return fmt.Sprintf("%s scope of %s: implicit uses saw different values %v", scope, i, impl)
		}
		// implicit uses see the first value or that of an explicit call
		calls := 0
		for _, c := range ticks.Calls {
			if strings.HasPrefix(c.Val, s.gen+":") {
				calls++
			}
		}
		if calls < 1 || calls > expl[i]+1 {
			return fmt.Sprintf("%s scope of %s: generator called %d times with %d explicit calls", scope, i, calls, expl[i])
		}
		other := 0
		for _, v := range impl {
			if !s.vals["()"+v] {
				other++
			}
		}
		if other > 1 {
			return fmt.Sprintf("%s scope of %s: implicit uses saw values %v, explicit calls made only some of them: %v", scope, i, impl, s.vals)
		}
		if other+expl[i] != calls {
			return fmt.Sprintf("%s scope of %s: generator called %d times; %d explicit calls, %d implicit values", scope, i, calls, expl[i], other)
		}
	}
	return ""
}

// stages runs several stages on a real server; keys says the scope of a in each
// ("-": a is not used).
func stages(t *testing.T, name string, bound int, keys []string, files [][]string, groups []sgroup) *vsched.Scenario {
	all := map[string]string{}
	var names []string
	for n, k := range keys {
		pr := program{files: files, scope: map[string]string{"a": k}, iters: 1, client: 1}
		yaml, fs := pr.stage()
		yaml = strings.ReplaceAll(yaml[:strings.Index(yaml, "  workload:")], "file: t", fmt.Sprintf("file: s%d_t", n+1))
		yaml = strings.Replace(yaml, "name: s\n", fmt.Sprintf("name: s%d\n", n+1), 1)
		yaml += "  stats:\n    disable: true\n  workload:\n"
		for _, g := range groups {
			yaml += fmt.Sprintf("    - clients: %d\n      iter: %d\n", g.clients, g.iter)
		}
		all[fmt.Sprintf("s%d.yaml", n+1)] = yaml
		for f, c := range fs {
			all[fmt.Sprintf("s%d_%s", n+1, f)] = c
		}
		names = append(names, fmt.Sprintf("s%d.yaml", n+1))
	}
	dir := fin.Write(t, all)
	for i := range names {
		names[i] = dir + "/" + names[i]
	}
	cfgs, err := config.Load(names, nil, "", "")
	if err != nil {
		t.Fatal(err)
	}
	return &vsched.Scenario{
		Opts: vsched.Opts{Name: name, Bound: bound, Background: true},
		New: func() (func(), func(vsched.Run) (string, string)) {
			fin.ResetTicks()
			client.ConnectRetryWait = 0
			db := &fakedb.DB{}
			vsched.OpenDB = db.OpenFn()
			var err error
			body := func() {
				var l []config.Stage
				for _, c := range cfgs {
					l = append(l, fin.Clone(c))
				}
				err = compute.NewServer("local", "", false).Run(context.Background(), l)
			}
			check := func(r vsched.Run) (string, string) {
				if err != nil {
					return "err", "run failed: " + err.Error()
				}
				if r.Deadlock || r.Livelock {
					return "stuck", "the run does not end"
				}
				us, v := usesOf(db.Events(), files)
				if v != "" {
					return "bad", v
				}
				byScope := map[string][]use{}
				per := map[int]int{}
				for _, u := range us {
					per[u.who.Stage]++
					k := keys[u.who.Stage-1]
					byScope[k] = append(byScope[k], u)
				}
				for n := range keys {
					want := 0
					for _, g := range groups {
						for _, f := range files {
							want += len(f) * g.clients * g.iter
						}
					}
					if per[n+1] != want {
						return "count", fmt.Sprintf("stage %d executed %d statements, expected %d", n+1, per[n+1], want)
					}
				}
				for k, l := range byScope {
					if k == "stage" || k == "global" {
						if v := judgeOnce(k, l, fin.Ticks); v != "" {
							return "v", v
						}
						continue
					}
					// statement scope: a new value per execution, one generator per statement and client
					seen := map[string]bool{}
					gen := map[string]string{}
					for _, u := range l {
						for _, v := range u.vals {
							g := v[:max(strings.LastIndex(v, ":"), 0)]
							id := u.who.Client() + fmt.Sprint(u.sql[:strings.Index(u.sql, " SET")], u.who.Stage)
							if gen[id] == "" {
								gen[id] = g
							}
							if seen[v] || gen[id] != g || g == "" {
								return "v", fmt.Sprintf("stage %d configures statement scope; %s uses value %s again, or of another generator than %s", u.who.Stage, u.sql, v, gen[id])
							}
						}
						for _, v := range u.vals {
							seen[v] = true
						}
					}
				}
				return outcome(us), ""
			}
			return body, check
		},
	}
}

func sharedUnits(list []shared, q, th int, thoroughOnly bool) []report.Unit {
	var units []report.Unit
	for _, p := range list {
		p := p
		units = append(units, report.Unit{Name: p.name, Thorough: thoroughOnly, Run: func(c *report.Ctx) {
			c.Explore(p.scenario(c.T, c.Pick(q, th)))
		}})
	}
	return units
}

func TestC02(t *testing.T) {
	var small, big []shared
	for _, sc := range []string{"client-group", "exec-group", "workload"} {
		groups := map[string][]sgroup{
			"2 clients": {{clients: 2, iter: 2}},
		}
		if sc != "client-group" {
			groups["2 groups"] = []sgroup{{exec: "x", clients: 1, iter: 2}, {exec: "x", clients: 1, iter: 2}}
			groups["2 groups, other files"] = []sgroup{{exec: "x", clients: 1, iter: 2, files: []int{0}}, {exec: "x", clients: 1, iter: 2, files: []int{1}}}
		} else {
			groups["2+1 clients"] = []sgroup{{exec: "x", clients: 2, iter: 1}, {exec: "x", clients: 1, iter: 2}}
		}
		groups["2 exec groups"] = []sgroup{{exec: "x", clients: 1, iter: 2}, {exec: "y", clients: 2, iter: 1}}
		var names []string
		for n := range groups {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			g := groups[n]
			small = append(small,
				shared{name: sc + ", " + n + ", 2 files", scope: sc, files: [][]string{{"a"}, {"a"}}, groups: g},
				shared{name: sc + ", " + n + ", explicit", scope: sc, files: [][]string{{"a", "a() a"}, {"a"}}, groups: g},
			)
			big = append(big,
				shared{name: sc + ", " + n + ", prepared", scope: sc, prep: true, files: [][]string{{"a a", "a"}, {"a()"}}, groups: g},
				shared{name: sc + ", " + n + ", auto-inc", scope: sc, gen: "auto-inc", files: [][]string{{"a", "a"}, {"a() a"}}, groups: g},
			)
		}
		small = append(small,
			shared{name: sc + ", deadlock", scope: sc, errAt: "s1.e1.g1.c1", files: [][]string{{"a"}, {"a"}}, groups: []sgroup{{clients: 2, iter: 2}}},
			shared{name: sc + ", 3 clients auto-inc", scope: sc, gen: "auto-inc", files: [][]string{{"a"}, {"a"}}, groups: []sgroup{{clients: 3, iter: 1}}})
	}
	for _, sc := range []string{"client-group", "exec-group", "workload"} {
		for _, g := range []string{"int {max: 1000000}", "int-gaps {max: 1000000, p: 100}"} {
			small = append(small, shared{name: sc + ", 2 clients " + g, scope: sc, gen: g, files: [][]string{{"a"}, {"a() a", "a"}}, groups: []sgroup{{clients: 2, iter: 1}}})
		}
	}
	units := append(sharedUnits(small, 2, 4, false), sharedUnits(big, 2, 3, true)...)
	report.Main(t, report.Check{ID: "C02", Level: "model_checking",
		Rule:        "every execution of the real stage, workload, client and data code with at most the stated number of scheduling deviations (preemptions at statements of package data and at every lock, channel and database operation) is judged: every value a client uses in an iteration comes from a call made by that client in that iteration, the generator is called once per client iteration plus explicit calls, one generator per scope instance",
		Assumptions: []string{"sequentially consistent memory", "fake database in place of MySQL"},
		Units:       units})
}

func TestC03(t *testing.T) {
	var small, big []shared
	for _, sc := range []string{"stage", "global"} {
		for n, g := range map[string][]sgroup{
			"1 client":      {{clients: 1, iter: 3}},
			"2 clients":     {{clients: 2, iter: 2}},
			"3 clients":     {{clients: 3, iter: 1}},
			"2 groups":      {{exec: "x", clients: 1, iter: 2}, {exec: "x", clients: 1, iter: 2}},
			"2 exec groups": {{exec: "x", clients: 1, iter: 2}, {exec: "y", clients: 2, iter: 1}},
		} {
			small = append(small,
				shared{name: sc + ", " + n + ", implicit", scope: sc, files: [][]string{{"a"}, {"a"}}, groups: g},
				shared{name: sc + ", " + n + ", explicit", scope: sc, files: [][]string{{"a", "a() a"}}, groups: g},
			)
			big = append(big,
				shared{name: sc + ", " + n + ", prepared", scope: sc, prep: true, files: [][]string{{"a a", "a"}, {"a()"}}, groups: g},
				shared{name: sc + ", " + n + ", explicit first", scope: sc, files: [][]string{{"a() a", "a"}, {"a"}}, groups: g},
			)
		}
	}
	sort.Slice(small, func(i, j int) bool { return small[i].name < small[j].name })
	units := append(sharedUnits(small, 2, 4, false), sharedUnits(big, 2, 3, true)...)
	scs := []string{"stage", "global", ""}
	for _, files := range [][][]string{{{"a"}, {"a a"}}, {{"a() a"}, {"a"}}} {
		for _, a := range scs {
			for _, b := range scs {
				if (a == "global") != (b == "global") && a != b && (a == "" || b == "") {
					continue // a global key's configuration in other stages is not specified
				}
				if (a == "global") != (b == "global") {
					continue
				}
				a, b, files := a, b, files
				name := fmt.Sprintf("stages %q %q %q", a, b, files)
				units = append(units, report.Unit{Name: name, Run: func(c *report.Ctx) {
					c.Explore(stages(c.T, name, c.Pick(1, 2), []string{a, b}, files, []sgroup{{clients: 1, iter: 2}, {clients: 1, iter: 1}}))
					c.Explore(stages(c.T, name+" thrice", 1, []string{a, b, a}, files, []sgroup{{clients: 2, iter: 1}}))
				}})
			}
		}
	}
	units = append(units, remote.ScopeUnits()...)
	report.Main(t, report.Check{ID: "C03", Level: "model_checking",
		Rule:        "every execution of the real server, stage, client and data code with at most the stated number of scheduling deviations is judged: all implicit uses in one stage (global: all stages) see the one value generated for it, or after explicit calls the newest; the generator is called exactly once plus explicit calls; stages do not share stage scoped generators or configurations",
		Assumptions: []string{"sequentially consistent memory", "fake database in place of MySQL"},
		Units:       units})
}
