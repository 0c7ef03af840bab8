package iters

import (
	"context"
	"fmt"
	"strings"
	"testing"

	"github.com/square/finch/data"

	"finchverif/fakedb"
	"finchverif/fin"
	"finchverif/report"
	"finchverif/vsched"
)

// scenario: client groups of one stage; each statement carries who runs it.
type group struct {
	clients, iter, iterClients, iterExec int
	exec                                 string
}

func (g group) yaml() string {
	s := fmt.Sprintf("    - clients: %d\n", g.clients)
	if g.iter > 0 {
		s += fmt.Sprintf("      iter: %d\n", g.iter)
	}
	if g.iterClients > 0 {
		s += fmt.Sprintf("      iter-clients: %d\n", g.iterClients)
	}
	if g.iterExec > 0 {
		s += fmt.Sprintf("      iter-exec-group: %d\n", g.iterExec)
	}
	if g.exec != "" {
		s += "      group: " + g.exec + "\n"
	}
	return s
}

func scenario(t *testing.T, name string, bound int, groups []group) *vsched.Scenario {
	yaml := "stage:\n  name: s\n  trx:\n    - file: t.sql\n      data:\n        w:\n          generator: who\n  workload:\n"
	for _, g := range groups {
		yaml += g.yaml()
	}
	cfg := fin.Load(t, yaml, map[string]string{"t.sql": "UPDATE t SET a = '@w'\n"})
	return &vsched.Scenario{
		Opts: vsched.Opts{Name: name, Bound: bound, Background: true, MaxSteps: 200000},
		New: func() (func(), func(vsched.Run) (string, string)) {
			db := &fakedb.DB{}
			vsched.OpenDB = db.OpenFn()
			var err error
			body := func() { err = fin.RunStage(context.Background(), cfg, data.NewScope(), nil) }
			check := func(r vsched.Run) (string, string) {
				if err != nil {
					return "err", "stage failed: " + err.Error()
				}
				if r.Deadlock || r.Livelock {
					return "stuck", "the stage does not end"
				}
				per := map[string]int{} // client -> iterations
				var order []string
				for _, e := range db.Events() {
					if e.Kind != "exec" {
						continue
					}
					i := strings.Index(e.SQL, "'")
					w, ok := fin.ParseWho(strings.Trim(e.SQL[i:], "'"))
					if !ok {
						return "bad", "unexpected statement " + e.SQL
					}
					per[w.Client()]++
					order = append(order, w.Client())
				}
				return strings.Join(order, " "), judge(groups, per)
			}
			return body, check
		},
	}
}

// judge compares the iterations of each client with the configured limits: none
// is exceeded, and a client stops only when a limit that covers it is reached.
func judge(groups []group, per map[string]int) string {
	type pos struct{ eg, cg int }
	var at []pos
	eg, cgn := 0, 0
	prev := "\x00"
	total := map[pos]int{}
	egTotal := map[int]int{}
	client := func(p pos, c int) int { return per[fmt.Sprintf("s1.e%d.g%d.c%d", p.eg, p.cg, c)] }
	all := 0
	for _, g := range groups {
		if g.exec != prev {
			eg++
			cgn = 0
			prev = g.exec
		}
		cgn++
		p := pos{eg, cgn}
		at = append(at, p)
		for c := 1; c <= g.clients; c++ {
			total[p] += client(p, c)
		}
		all += total[p]
		if g.iterExec > 0 {
			egTotal[eg] += total[p]
		}
	}
	for i, g := range groups {
		p := at[i]
		if g.iterClients > 0 && total[p] > g.iterClients {
			return fmt.Sprintf("iter-clients=%d: group %d of exec group %d executed %d iterations", g.iterClients, p.cg, p.eg, total[p])
		}
		if g.iterExec > 0 && egTotal[p.eg] > g.iterExec {
			return fmt.Sprintf("iter-exec-group=%d: exec group %d executed %d iterations", g.iterExec, p.eg, egTotal[p.eg])
		}
		for c := 1; c <= g.clients; c++ {
			n := client(p, c)
			if g.iter > 0 && n > g.iter {
				return fmt.Sprintf("iter=%d: client %d of group %d of exec group %d executed %d iterations", g.iter, c, p.cg, p.eg, n)
			}
			if g.iter > 0 && n == g.iter || g.iterClients > 0 && total[p] == g.iterClients || g.iterExec > 0 && egTotal[p.eg] == g.iterExec {
				continue
			}
			return fmt.Sprintf("iter=%d iter-clients=%d iter-exec-group=%d: client %d of group %d of exec group %d stopped after %d iterations (%d of its group, %d of its exec group)", g.iter, g.iterClients, g.iterExec, c, p.cg, p.eg, n, total[p], egTotal[p.eg])
		}
	}
	if sum := len(per); sum > 0 {
		n := 0
		for _, x := range per {
			n += x
		}
		if n != all {
			return fmt.Sprintf("%d iterations of clients that were not configured", n-all)
		}
	}
	return ""
}

func TestC04(t *testing.T) {
	type sc struct {
		name   string
		bound  int
		groups []group
	}
	list := []sc{
		{"iter 2 clients", 2, []group{{clients: 2, iter: 2}}},
		{"iter 1", 3, []group{{clients: 2, iter: 1}}},
		{"iter-clients 2 clients", 2, []group{{clients: 2, iterClients: 3}}},
		{"iter-clients 1", 3, []group{{clients: 2, iterClients: 1}}},
		{"iter-clients 3 clients", 2, []group{{clients: 3, iterClients: 2}}},
		{"iter-clients, 2 groups", 2, []group{{clients: 2, iterClients: 2, exec: "a"}, {clients: 1, iterClients: 1, exec: "a"}}},
		{"iter-exec 2 groups", 2, []group{{clients: 1, iterExec: 3, exec: "a"}, {clients: 1, iterExec: 3, exec: "a"}}},
		{"iter-exec 2 clients", 2, []group{{clients: 2, iterExec: 3, exec: "a"}}},
		{"iter-exec 2+1 clients", 2, []group{{clients: 2, iterExec: 2, exec: "a"}, {clients: 1, iterExec: 2, exec: "a"}}},
		{"iter-exec 2 exec groups", 2, []group{{clients: 2, iterExec: 2, exec: "a"}, {clients: 2, iterExec: 1, exec: "b"}}},
		{"iter-clients 2 exec groups", 2, []group{{clients: 2, iterClients: 2, exec: "a"}, {clients: 2, iterClients: 1, exec: "b"}}},
		{"iter and iter-clients", 2, []group{{clients: 2, iter: 2, iterClients: 3}}},
		{"iter and iter-exec", 2, []group{{clients: 2, iter: 1, iterExec: 3, exec: "a"}, {clients: 1, iter: 2, iterExec: 3, exec: "a"}}},
		{"iter-clients and iter-exec", 2, []group{{clients: 2, iterClients: 2, iterExec: 3, exec: "a"}, {clients: 1, iterExec: 3, exec: "a"}}},
		{"all three", 2, []group{{clients: 2, iter: 2, iterClients: 2, iterExec: 3, exec: "a"}, {clients: 1, iter: 2, iterClients: 2, iterExec: 3, exec: "a"}}},
		{"mixed groups", 2, []group{{clients: 1, iter: 2, exec: "a"}, {clients: 2, iterClients: 2, exec: "a"}}},
		{"4 clients", 1, []group{{clients: 4, iterClients: 3}}},
		{"large iter", 0, []group{{clients: 3, iter: 300}}},
		{"large iter-clients", 0, []group{{clients: 3, iterClients: 1000}}},
	}
	var units []report.Unit
	for _, s := range list {
		s := s
		units = append(units, report.Unit{Name: s.name, Run: func(c *report.Ctx) {
			b := s.bound
			if c.Thorough() && b > 0 {
				b += 2
			}
			c.Explore(scenario(c.T, s.name, b, s.groups))
		}})
	}
	for ec := 1; ec <= 2; ec++ { // all combinations of limits, two exec groups, few deviations
		ec := ec
		units = append(units, report.Unit{Name: fmt.Sprintf("combinations %d", ec), Run: func(c *report.Ctx) {
			for it := 0; it <= 2; it++ {
				for ic := 0; ic <= 3; ic++ {
					for ie := 0; ie <= 3; ie++ {
						if it+ic+ie == 0 {
							continue
						}
						gs := []group{{clients: 2, iter: it, iterClients: ic, iterExec: ie, exec: "a"}}
						if ec == 2 {
							gs = append(gs, group{clients: 1, iter: it, iterClients: ic, iterExec: ie, exec: "a"}, group{clients: 1, iter: 1, exec: "b"})
						}
						c.Explore(scenario(c.T, fmt.Sprintf("%+v", gs), c.Pick(1, 2), gs))
					}
				}
			}
		}})
	}
	report.Main(t, report.Check{ID: "C04", Level: "model_checking",
		Rule:        "every execution of the real stage and client code with at most the stated number of scheduling deviations (preemptions at statements touching shared state, locks, channel and database operations) is judged: iterations per client, client group and execution group are compared with the configured limits (none exceeded, and each client goes on until a limit that covers it is reached), and the stage must end",
		Assumptions: []string{"sequentially consistent memory", "fake database in place of MySQL"},
		Units:       units})
}
