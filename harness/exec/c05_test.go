package exec

import (
	"context"
	"fmt"
	"strings"
	"testing"

	"github.com/square/finch/data"

	"finchverif/fakedb"
	"finchverif/fin"
	"finchverif/report"
	"finchverif/vsched"
)

// rowsFor answers a SELECT with two rows nobody reads.
func rowsFor(e *fakedb.Event) (a fakedb.Answer) {
	if e.Kind == "query" || e.Kind == "squery" {
		a = fin.OneRow(int64(1))
		a.Rows = append(a.Rows, a.Rows[0])
	}
	return
}

func onlyIdle(files [][]letter) bool {
	for _, f := range files {
		for _, l := range f {
			if len(l.out) > 0 {
				return false
			}
		}
	}
	return true
}

func TestC05(t *testing.T) {
	var units []report.Unit
	try := func(c *report.Ctx, p program) {
		if c.TimeUp() || c.Violated() {
			return
		}
		cfg := p.load(c.T)
		once := func() string {
			evs, err := p.run(c.T, cfg, rowsFor)
			if err != nil {
				return "stage failed: " + err.Error()
			}
			return p.judge(evs)
		}
		if v := once(); v != "" && once() != "" {
			c.Violate(p.String(), v+"\nprogram: "+p.String()+"\n"+p.yaml(), p.String())
		}
		c.Case(p.String())
		n := 0
		for _, f := range p.files {
			n += len(f)
		}
		c.State(1, n, 1)
	}
	all := alphabet()
	one := []cgroup{{clients: 1, iter: 2, db: "db1"}}
	for _, shape := range [][]int{{1}, {2}, {1, 1}, {3}, {2, 1}, {1, 2}, {1, 1, 1}} {
		shape := shape
		n := 0
		for _, k := range shape {
			n += k
		}
		if n < 3 {
			units = append(units, report.Unit{Name: fmt.Sprintf("shape %v", shape), Run: func(c *report.Ctx) {
				each(shape, all, func(files [][]letter) {
					if onlyIdle(files) {
						return
					}
					try(c, program{files: files, groups: one})
					try(c, program{files: files, groups: []cgroup{{clients: 1, iter: 1}}})
				})
			}})
			continue
		}
		// split the first letter over units
		for i := 0; i < len(all); i += 5 {
			lo, hi := i, min(i+5, len(all))
			units = append(units, report.Unit{Name: fmt.Sprintf("shape %v first %s-%s", shape, all[lo].name, all[hi-1].name), Thorough: len(shape) == 2, Run: func(c *report.Ctx) {
				for _, first := range all[lo:hi] {
					rest := append([]int{}, shape...)
					rest[0]--
					drop := rest[0] == 0
					each(rest, all, func(files [][]letter) {
						fs := append([][]letter{}, files...)
						if drop {
							fs[0] = []letter{first}
						} else {
							fs[0] = append([]letter{first}, files[0]...)
						}
						if onlyIdle(fs) {
							return
						}
						try(c, program{files: fs, groups: one})
					})
				}
			}})
		}
	}
	units = append(units, report.Unit{Name: "groups and orders", Run: func(c *report.Ctx) {
		each([]int{1, 1}, all, func(files [][]letter) {
			if onlyIdle(files) || !files[0][0].keyed() {
				return
			}
			try(c, program{files: files, groups: []cgroup{{clients: 1, iter: 2, order: []int{1, 0}, db: "x"}, {clients: 2, iter: 1, order: []int{0, 1, 0}, db: "y"}}})
		})
	}})
	units = append(units, report.Unit{Name: "4 statements", Thorough: true, Run: func(c *report.Ctx) {
		var some []letter
		for _, l := range all {
			switch strings.TrimSuffix(l.name, "/p") {
			case "select", "keys", "begin", "range", "csv", "copies", "explicit", "idle":
				some = append(some, l)
			}
		}
		each([]int{2, 2}, some, func(files [][]letter) {
			if !onlyIdle(files) {
				try(c, program{files: files, groups: one})
			}
		})
	}})
	// One dimension at a time, far beyond the shapes above.
	units = append(units, report.Unit{Name: "sizes", Run: func(c *report.Ctx) {
		var some []letter
		for _, l := range all {
			if l.name != "idle" {
				some = append(some, l)
			}
		}
		pick := func(n, from int) (r []letter) {
			for i := 0; i < n; i++ {
				r = append(r, some[(from+i)%len(some)])
			}
			return
		}
		for n := 1; n <= 40; n++ { // statements
			try(c, program{files: [][]letter{pick(n, n)}, groups: one})
		}
		for n := 1; n <= 16; n++ { // files, clients, groups, iterations
			var files [][]letter
			var rev []int
			var groups []cgroup
			for i := 0; i < n; i++ {
				files = append(files, pick(1+i%3, 5*i))
				rev = append(rev, n-1-i)
				groups = append(groups, cgroup{clients: 1 + i%2, iter: 1 + i%3, order: []int{i % 2, (i + 1) % 2}[:1+i%2], db: fmt.Sprintf("db%d", i)})
			}
			try(c, program{files: files, groups: one})
			try(c, program{files: files, groups: []cgroup{{clients: 2, iter: 2, order: append(rev, rev...)}}})
			try(c, program{files: [][]letter{pick(3, n), pick(2, 2*n)}, groups: groups})
			try(c, program{files: [][]letter{pick(3, n)}, groups: []cgroup{{clients: n, iter: 2}}})
			try(c, program{files: [][]letter{pick(3, n)}, groups: []cgroup{{clients: 1, iter: 5 * n, db: "x"}}})
		}
		for n := 1; n <= 30; n++ { // data keys, values, rows, copies
			var more, list []string
			for i := 1; i <= n; i++ {
				k := fmt.Sprintf("k%d", i)
				keys[k] = keyDef{1, "%v"}
				more = append(more, k)
				list = append(list, "@"+k)
			}
			keys["m"] = keyDef{min(n, 9), "%v"}
			m := "@m#1"
			for i := 2; i <= min(n, 9); i++ {
				m += fmt.Sprintf(", @m#%d", i)
			}
			ks := strings.Join(list, ", ")
			row := "(@a, @ab)"
			var copies, nos []string
			for i := 1; i <= n; i++ {
				copies = append(copies, "DELETE FROM t WHERE id = @a")
				nos = append(nos, fmt.Sprintf("REPLACE INTO t%d VALUES (@ab)", i))
			}
			for _, prep := range []bool{false, true} {
				l := []letter{
					{name: fmt.Sprint("keys ", n), src: "UPDATE t SET a=" + ks, out: []string{"UPDATE t SET a=" + ks}, prep: prep},
					{name: fmt.Sprint("values ", n), src: "DELETE FROM t WHERE a IN (@m" + strings.Repeat(", @PREV", min(n, 9)-1) + ")", out: []string{"DELETE FROM t WHERE a IN (" + m + ")"}, prep: prep},
					{name: fmt.Sprint("rows ", n), src: fmt.Sprintf("INSERT INTO t VALUES /*!csv %d %s*/", n, row), out: []string{"INSERT INTO t VALUES " + row + strings.Repeat(", "+row, n-1)}, prep: prep},
					{name: fmt.Sprint("copies ", n), mods: fmt.Sprintf("-- copies: %d\n", n), src: copies[0], out: copies, once: true, prep: prep},
					{name: fmt.Sprint("numbered copies ", n), mods: fmt.Sprintf("-- copies: %d\n", n), src: "REPLACE INTO t/*!copy-number*/ VALUES (@ab)", out: nos, prep: prep},
				}
				for i := range l {
					try(c, program{files: [][]letter{{l[i], l[(i+1)%len(l)]}, {l[(i+2)%len(l)]}}, groups: one, more: append([]string{"m"}, more...)})
				}
			}
		}
	}})
	sched := func(p program, bound int, thorough bool) {
		units = append(units, report.Unit{Name: fmt.Sprintf("interleavings bound %d of %s", bound, p), Thorough: thorough, Run: func(c *report.Ctx) {
			cfg := p.load(c.T)
			c.Explore(&vsched.Scenario{
				Opts: vsched.Opts{Name: p.String(), Bound: bound, Background: true},
				New: func() (func(), func(vsched.Run) (string, string)) {
					db := &fakedb.DB{Answer: rowsFor}
					vsched.OpenDB = db.OpenFn()
					var err error
					return func() { err = fin.RunStage(context.Background(), cfg, data.NewScope(), nil) }, func(r vsched.Run) (string, string) {
						if err != nil {
							return "err", "stage failed: " + err.Error()
						}
						if r.Deadlock || r.Livelock {
							return "stuck", "the stage does not end"
						}
						evs := db.Events()
						o := ""
						for _, e := range evs {
							o += fmt.Sprintf("%d%s ", e.Conn, e.Kind)
						}
						return o, p.judge(evs)
					}
				},
			})
		}})
	}
	find := func(names ...string) (r []letter) {
		for _, n := range names {
			for _, l := range all {
				if l.name == n {
					r = append(r, l)
				}
			}
		}
		return
	}
	two := []cgroup{{clients: 2, iter: 1, db: "x"}}
	sched(program{files: [][]letter{find("keys", "range/p")}, groups: two}, 2, false)
	sched(program{files: [][]letter{find("copies/p", "keys")}, groups: two}, 1, false)
	sched(program{files: [][]letter{find("range"), find("csv/p")}, groups: []cgroup{{clients: 1, iter: 2, order: []int{0, 1}}, {clients: 1, iter: 1, order: []int{1, 0}}}}, 1, false)
	sched(program{files: [][]letter{find("select", "percentkey"), find("csv")}, groups: []cgroup{{clients: 3, iter: 1}}}, 1, false)
	sched(program{files: [][]letter{find("keys", "range/p"), find("copies/p", "csv")}, groups: two}, 2, true)
	sched(program{files: [][]letter{find("keys", "range/p")}, groups: []cgroup{{clients: 3, iter: 2}}}, 2, true)
	report.Main(t, report.Check{ID: "C05", Level: "model_checking",
		Rule:        "one case = one program (statements of the alphabet in trx files, client groups) run by the real pipeline on the fake database, whose log is compared connection by connection with the statements the documentation prescribes; plus interleavings of 2-3 clients; distinct = distinct programs or distinct event orders",
		Assumptions: []string{"the fake database stands for MySQL: no errors in these runs (errors are C07, C08)", "states = programs, transitions = statements per iteration, each replayed on the implementation"},
		Units:       units})
}

func (l letter) keyed() bool {
	for _, o := range l.out {
		if strings.Contains(o, "@") {
			return true
		}
	}
	return false
}
