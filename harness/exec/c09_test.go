package exec

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/square/finch/config"
	"github.com/square/finch/data"
	"github.com/square/finch/stats"

	"finchverif/fakedb"
	"finchverif/fin"
	"finchverif/report"
	"finchverif/vsched"
)

// recorder is a statistics reporter that keeps copies of everything reported.
type recorder struct {
	mu   sync.Mutex
	got  [][]stats.Instance
	stop int
}

var rec *recorder

func (r *recorder) Report(from []stats.Instance) {
	r.mu.Lock()
	defer r.mu.Unlock()
	var l []stats.Instance
	for _, in := range from {
		c := in
		c.Total = copyStats(in.Total)
		c.Trx = map[string]*stats.Stats{}
		for k, v := range in.Trx {
			c.Trx[k] = copyStats(v)
		}
		l = append(l, c)
	}
	r.got = append(r.got, l)
}
func (r *recorder) Stop() { r.stop++ }

func copyStats(s *stats.Stats) *stats.Stats {
	n := stats.NewStats()
	for i := range s.Buckets {
		copy(n.Buckets[i], s.Buckets[i])
	}
	copy(n.Min, s.Min)
	copy(n.Max, s.Max)
	copy(n.N, s.N)
	for k, v := range s.Errors {
		n.Errors[k] = v
	}
	return n
}

type recFactory struct{}

func (recFactory) Make(string, map[string]string) (stats.Reporter, error) { return rec, nil }

func init() { stats.Register("verif", recFactory{}) }

// expStats is the reference: every recorded time by class.
type expStats struct {
	times map[string][]int64 // read, write, commit, total
	errs  map[uint16]uint64
}

func newExp() *expStats { return &expStats{times: map[string][]int64{}, errs: map[uint16]uint64{}} }

func (x *expStats) add(class string, us int64) {
	x.times["total"] = append(x.times["total"], us)
	if class != "" {
		x.times[class] = append(x.times[class], us)
	}
}

func (x *expStats) compare(s *stats.Stats) string {
	for i, cl := range map[byte]string{stats.READ: "read", stats.WRITE: "write", stats.COMMIT: "commit", stats.TOTAL: "total"} {
		l := append([]int64{}, x.times[cl]...)
		sort.Slice(l, func(a, b int) bool { return l[a] < l[b] })
		if s.N[i] != uint64(len(l)) {
			return fmt.Sprintf("%s: %d queries counted, %d were executed", cl, s.N[i], len(l))
		}
		n := uint64(0)
		for _, b := range s.Buckets[i] {
			n += b
		}
		if n != uint64(len(l)) {
			return fmt.Sprintf("%s: histogram holds %d queries, %d were executed", cl, n, len(l))
		}
		if len(l) > 0 && (s.Min[i] != l[0] || s.Max[i] != l[len(l)-1]) {
			return fmt.Sprintf("%s: min %d max %d reported, response times were %v", cl, s.Min[i], s.Max[i], l)
		}
	}
	for k, v := range s.Errors {
		if x.errs[k] != v {
			return fmt.Sprintf("error %d counted %d times, happened %d times", k, v, x.errs[k])
		}
	}
	for k, v := range x.errs {
		if s.Errors[k] != v {
			return fmt.Sprintf("error %d counted %d times, happened %d times", k, s.Errors[k], v)
		}
	}
	return ""
}

func TestC09(t *testing.T) {
	var units []report.Unit
	delay := func(n int) time.Duration { return time.Duration((n*7919)%977+n+1) * 13 * time.Microsecond }
	collect := func(cfg config.Stage, freq string) (*stats.Collector, error) {
		return stats.NewCollector(config.Stats{Freq: freq, Report: map[string]map[string]string{"verif": {}}}, "local", 1)
	}
	one := func(c *report.Ctx, p program, cfg config.Stage, pl plan) {
		if c.TimeUp() || c.Violated() {
			return
		}
		steps, _, ok := p.predict(1, 1, pl)
		if !ok {
			return
		}
		want := newExp()
		per := map[string]*expStats{}
		for _, fi := range p.order(p.groups[0]) {
			per[fmt.Sprintf("t%d", fi)] = newExp()
		}
		for _, s := range steps {
			if s.n < 0 {
				continue
			}
			us := delay(s.n).Microseconds()
			f := per[fmt.Sprintf("t%d", s.file)]
			want.add(s.class, us)
			f.add(s.class, us)
			if s.isErr {
				want.errs[s.code]++
				f.errs[s.code]++
			}
		}
		var v string
		vsched.Explore(c.T, &vsched.Scenario{
			Opts: vsched.Opts{Name: "one", Bound: 0},
			New: func() (func(), func(vsched.Run) (string, string)) {
				rec = &recorder{}
				db := &fakedb.DB{Answer: pl.answer(delay)}
				vsched.OpenDB = db.OpenFn()
				v = ""
				var err error
				return func() {
						var col *stats.Collector
						if col, err = collect(cfg, ""); err == nil {
							err = fin.RunStage(context.Background(), cfg, data.NewScope(), col)
						}
					}, func(r vsched.Run) (string, string) {
						switch {
						case err != nil:
							v = "stage failed: " + err.Error()
						case r.Deadlock || r.Livelock:
							v = "the stage does not end"
						case len(rec.got) != 1 || len(rec.got[0]) != 1:
							v = fmt.Sprintf("%d reports, expected one of one instance", len(rec.got))
						default:
							in := rec.got[0][0]
							if v = want.compare(in.Total); v != "" {
								v = "stage total: " + v
							}
							for n, x := range per {
								if v != "" {
									break
								}
								if in.Trx[n] == nil {
									v = "no statistics of trx " + n
								} else if v = x.compare(in.Trx[n]); v != "" {
									v = "trx " + n + ": " + v
								}
							}
							if v == "" && len(in.Trx) != len(per) {
								v = fmt.Sprintf("statistics of %d trx, %d are assigned", len(in.Trx), len(per))
							}
							if v == "" && in.Clients != 1 {
								v = fmt.Sprintf("%d clients reported", in.Clients)
							}
							if v != "" {
								v += "\nexecuted: " + strings.Join(expected(steps), "\n")
							}
						}
						return "x", v
					}
			},
		})
		if v != "" {
			c.Violate(p.String()+pl.String(), v+"\nprogram: "+p.String()+"\nerrors:"+pl.String(), pl.String())
		}
		c.Case(p.String() + pl.String())
		c.State(1, len(steps), 1)
	}
	ls := append(errLetters(), letters("explicit", "csv", "copyno/p", "idle", "range", "multiline/p")...)
	ls = append(ls,
		letter{name: "lower commit", src: "commit", out: []string{"commit"}, class: "commit"},
		letter{name: "start", src: "START TRANSACTION", out: []string{"START TRANSACTION"}},
		letter{name: "rollback", src: "rollback work", out: []string{"rollback work"}},
		letter{name: "insert select", src: "INSERT INTO t SELECT * FROM u WHERE commit = 1", out: []string{"INSERT INTO t SELECT * FROM u WHERE commit = 1"}, class: "write"},
		letter{name: "delete/p", prep: true, src: "delete from t where a=@a", out: []string{"delete from t where a=@a"}, class: "write"},
	)
	few := []int{0, 3, 6, 9, 13, 16}
	g2 := []cgroup{{clients: 1, iter: 2, db: "d"}}
	singles := func(c *report.Ctx, p program, fs []int) {
		if saves(p.files) > 1 || onlyIdle(p.files) {
			return
		}
		cfg := p.load(c.T)
		one(c, p, cfg, plan{})
		for k := 0; k < p.total(); k++ {
			for _, f := range fs {
				one(c, p, cfg, plan{at: map[int]int{k: f}})
			}
		}
	}
	for i := range ls {
		first := ls[i]
		units = append(units, report.Unit{Name: "programs starting with " + first.name, Run: func(c *report.Ctx) {
			singles(c, program{files: [][]letter{{first}}, groups: g2}, few)
			for _, second := range ls {
				singles(c, program{files: [][]letter{{first, second}}, groups: g2}, few)
				singles(c, program{files: [][]letter{{first}, {second}}, groups: g2}, few)
				singles(c, program{files: [][]letter{{first}, {second}}, groups: []cgroup{{clients: 1, iter: 2, order: []int{1, 0, 1}}}}, few[:3])
				singles(c, program{files: [][]letter{{first}, {second}}, groups: []cgroup{{clients: 1, iter: 1, order: []int{0, 0, 0, 1, 1}}}}, few[:2])
			}
		}})
		units = append(units, report.Unit{Name: "3 files starting with " + first.name, Thorough: true, Run: func(c *report.Ctx) {
			each([]int{1, 1}, ls, func(fs [][]letter) {
				singles(c, program{files: [][]letter{{first}, fs[0], fs[1]}, groups: g2}, few)
			})
		}})
	}
	// several clients and groups, some without statistics
	type sgroup struct {
		cgroup
		disable bool
	}
	multi := func(name string, files [][]letter, groups []sgroup, bound int, freq string, thorough bool) {
		units = append(units, report.Unit{Name: name, Thorough: thorough, Run: func(c *report.Ctx) {
			p := program{files: files}
			for _, g := range groups {
				p.groups = append(p.groups, g.cgroup)
			}
			cfg := p.load(c.T)
			for i := range groups {
				cfg.Workload[i].DisableStats = groups[i].disable
			}
			conn := func(e fakedb.Event) (string, bool) { // client that sent e
				for _, s := range append([]string{e.SQL}, e.Args...) {
					if i := strings.Index(s, "#1.g"); i >= 0 {
						s = s[i+4:]
						return s[:strings.Index(s, "i")], true
					}
				}
				return "", false
			}
			c.Explore(&vsched.Scenario{
				Opts: vsched.Opts{Name: name, Bound: bound},
				New: func() (func(), func(vsched.Run) (string, string)) {
					rec = &recorder{}
					db := &fakedb.DB{}
					n := 0
					errs := 0
					db.Answer = func(e *fakedb.Event) (a fakedb.Answer) {
						if !strings.HasSuffix(e.Kind, "exec") && !strings.HasSuffix(e.Kind, "query") || strings.HasPrefix(e.SQL, "USE") {
							return
						}
						a = rowsFor(e)
						a.Delay = delay(n)
						n++
						if n == 3 {
							a.Err = fakedb.MyErr(1213)
							errs++
						}
						return
					}
					vsched.OpenDB = db.OpenFn()
					var err error
					return func() {
							var col *stats.Collector
							if col, err = collect(cfg, freq); err == nil {
								err = fin.RunStage(context.Background(), cfg, data.NewScope(), col)
							}
						}, func(r vsched.Run) (string, string) {
							if err != nil {
								return "err", "stage failed: " + err.Error()
							}
							if r.Deadlock || r.Livelock {
								return "stuck", "the stage does not end"
							}
							// reference: from the log
							evs := db.Events()
							owner := map[int]string{}
							for _, e := range evs {
								if cl, ok := conn(e); ok {
									owner[e.Conn] = cl
								}
							}
							want := newExp()
							per := map[string]*expStats{}
							o := ""
							for _, e := range evs {
								if !strings.HasSuffix(e.Kind, "exec") && !strings.HasSuffix(e.Kind, "query") || strings.HasPrefix(e.SQL, "USE") {
									continue
								}
								var gi, ci int
								fmt.Sscanf(owner[e.Conn], "%dc%d", &gi, &ci)
								if gi == 0 {
									return "", "statement of unknown client " + e.String()
								}
								o += fmt.Sprintf("%d.%d ", gi, ci)
								if groups[gi-1].disable {
									continue
								}
								us := e.Done.Sub(e.At).Microseconds()
								trx, class := "", ""
								for fi, f := range files {
									for _, l := range f {
										for _, out := range l.out {
											a, _ := resolve(out, l.prep, 0, 0, 0)
											b := e.SQL
											if len(a) > 8 {
												a, b = a[:8], b[:min(8, len(b))]
											}
											if a == b {
												trx, class = fmt.Sprintf("t%d", fi), l.classOf(out)
											}
										}
									}
								}
								if per[trx] == nil {
									per[trx] = newExp()
								}
								want.add(class, us)
								per[trx].add(class, us)
								if e.Err != nil {
									want.errs[1213]++
									per[trx].errs[1213]++
								}
							}
							if len(rec.got) == 0 {
								return o, "nothing reported"
							}
							total := stats.NewStats()
							trx := map[string]*stats.Stats{}
							add := func(s *stats.Stats, x *stats.Stats) {
								for i := range s.N {
									if x.N[i] > 0 && (s.N[i] == 0 || x.Min[i] < s.Min[i]) {
										s.Min[i] = x.Min[i]
									}
									if x.Max[i] > s.Max[i] {
										s.Max[i] = x.Max[i]
									}
									s.N[i] += x.N[i]
									for b := range s.Buckets[i] {
										s.Buckets[i][b] += x.Buckets[i][b]
									}
								}
								for k, v := range x.Errors {
									s.Errors[k] += v
								}
							}
							nclients := 0
							for _, g := range groups {
								if !g.disable {
									nclients += g.clients
								}
							}
							for _, l := range rec.got {
								if len(l) != 1 {
									return o, fmt.Sprintf("%d instances in a report", len(l))
								}
								if int(l[0].Clients) != nclients {
									return o, fmt.Sprintf("%d clients reported, %d have statistics", l[0].Clients, nclients)
								}
								add(total, l[0].Total)
								for k, x := range l[0].Trx {
									if trx[k] == nil {
										trx[k] = stats.NewStats()
									}
									add(trx[k], x)
								}
							}
							if v := want.compare(total); v != "" {
								return o, "stage total: " + v
							}
							for k, x := range per {
								if trx[k] == nil {
									return o, "no statistics of trx " + k
								}
								if v := x.compare(trx[k]); v != "" {
									return o, "trx " + k + ": " + v
								}
							}
							for k, s := range trx {
								if per[k] == nil && s.N[stats.TOTAL] > 0 {
									return o, "statistics of trx " + k + " that no client with statistics executed"
								}
							}
							return o, ""
						}
				},
			})
		}})
	}
	fa, fb := letters("select", "keys"), letters("range/p", "commit")
	multi("2 clients", [][]letter{fa, fb}, []sgroup{{cgroup: cgroup{clients: 2, iter: 2}}}, 1, "", false)
	multi("2 groups, one without statistics", [][]letter{fa, fb}, []sgroup{{cgroup: cgroup{clients: 1, iter: 2, order: []int{0}}, disable: true}, {cgroup: cgroup{clients: 2, iter: 2, order: []int{1, 0}}}}, 1, "", false)
	multi("2 groups, the second without statistics", [][]letter{fa, fb}, []sgroup{{cgroup: cgroup{clients: 2, iter: 1, order: []int{0, 1}}}, {cgroup: cgroup{clients: 1, iter: 2, order: []int{0}}, disable: true}}, 1, "", false)
	multi("3 groups, the first without statistics", [][]letter{fa, fb}, []sgroup{{cgroup: cgroup{clients: 1, iter: 1, order: []int{0}}, disable: true}, {cgroup: cgroup{clients: 1, iter: 1, order: []int{1}}}, {cgroup: cgroup{clients: 1, iter: 1, order: []int{0}}}}, 1, "", false)
	multi("3 groups, the last without statistics", [][]letter{fa, fb}, []sgroup{{cgroup: cgroup{clients: 1, iter: 1, order: []int{0}}}, {cgroup: cgroup{clients: 1, iter: 1, order: []int{1}}}, {cgroup: cgroup{clients: 1, iter: 1, order: []int{0}}, disable: true}}, 1, "", false)
	multi("3 clients", [][]letter{fa}, []sgroup{{cgroup: cgroup{clients: 3, iter: 1}}}, 2, "", true)
	multi("2 clients bound 2", [][]letter{fa, fb}, []sgroup{{cgroup: cgroup{clients: 2, iter: 1}}}, 2, "", true)
	report.Main(t, report.Check{ID: "C09", Level: "model_checking",
		Rule:        "one case = one program with one plan of query errors run by the real pipeline in virtual time with a distinct response time per query; the reported counts, minima, maxima, histogram totals and errors per class and transaction file are compared with the reference; plus interleavings of several clients; distinct = distinct programs and plans or event orders",
		Assumptions: []string{"response times are exact in virtual time", "states = programs and plans, transitions = statements; every one runs on the implementation"},
		Units:       units})
}
