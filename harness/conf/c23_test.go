package conf

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/square/finch/boot"
	"github.com/square/finch/config"

	"finchverif/enum"
	"finchverif/report"
)

// given is where a setting is given: the value per place (nil = not given).
type given struct {
	base  interface{}
	stage interface{}
	cmd   bool
}

func (x *setting) want(g given) interface{} {
	switch {
	case g.cmd:
		return x.cmd
	case g.stage != nil:
		if g.stage == "" && x.path[0] != "params" { // empty is not set
			break
		}
		return g.stage
	}
	if g.base != nil {
		return g.base
	}
	return x.def
}

// choose a combination of places and values.
func (x *setting) choose(ch *enum.Ch) given {
	g := given{}
	if k := ch.Choose(1 + len(x.b)); k > 0 {
		g.base = x.b[k-1]
	}
	if k := ch.Choose(1 + len(x.s)); k > 0 {
		g.stage = x.s[k-1]
	}
	if x.cmd != "" {
		g.cmd = ch.Choose(2) == 1
	}
	return g
}

// loader writes files to a scratch directory and loads stages.
type loader struct {
	last config.Stage
	dir  string
	old  files
}

func (l *loader) load(f files, cwd string, stageFiles []string, params []string, dsn, db string) (st []config.Stage, err error) {
	f.write(l.dir, l.old)
	l.old = f
	if err := os.Chdir(filepath.Join(l.dir, cwd)); err != nil {
		panic(err)
	}
	defer os.Chdir(l.dir)
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
			st = nil
		}
	}()
	st, err = config.Load(stageFiles, params, dsn, db)
	if err == nil {
		if wd, _ := os.Getwd(); wd != filepath.Join(l.dir, cwd) {
			return nil, fmt.Errorf("working directory changed to %s", wd)
		}
	}
	return st, err
}

// stageTree: the smallest stage, with trx files in its directory.
func stageTree() tree {
	return tree{"stage": tree{"trx": []tree{{"file": "t.sql"}}}}
}

func dirFiles(f files, dir string) files {
	f[dir+"/t.sql"] = "SELECT 1\n"
	f[dir+"/base.pem"] = ""
	f[dir+"/stage.pem"] = ""
	return f
}

func check(c *report.Ctx, l *loader, xs []*setting, gs []given) bool {
	base, stage := tree{}, stageTree()
	var params []string
	dsn, db := "", ""
	desc := ""
	for i, x := range xs {
		g := gs[i]
		if g.base != nil {
			base.set(g.base, x.path...)
		}
		if g.stage != nil {
			stage.set(g.stage, append([]string{"stage"}, x.path...)...)
		}
		if g.cmd {
			switch x.String() {
			case "mysql.dsn":
				dsn = x.cmd
			case "mysql.db":
				db = x.cmd
			default:
				params = append(params, x.path[1]+"="+x.cmd)
			}
		}
	}
	f := dirFiles(files{}, "a")
	if len(base) > 0 {
		f["a/_all.yaml"] = base.String()
	}
	f["a/s.yaml"] = stage.String()
	desc = fmt.Sprintf("%v--param %q --dsn %q --database %q", f, params, dsn, db)
	c.Case(desc)
	st, err := l.load(f, ".", []string{"a/s.yaml"}, params, dsn, db)
	if err != nil || len(st) != 1 {
		c.Violate("load", fmt.Sprintf("%d stages, error %v\n%s", len(st), err, desc), desc)
		return false
	}
	given := map[string]bool{}
	for i, x := range xs {
		given[x.String()] = true
		if got, want := show(x.get(&st[0])), show(x.want(gs[i])); got != want {
			c.Violate(x.String(), fmt.Sprintf("%s is %s, must be %s\n%s", x, got, want, desc), desc)
		}
	}
	for _, x := range settings() {
		if given[x.String()] {
			continue
		}
		if got, want := show(x.get(&st[0])), show(x.def); got != want {
			c.Violate(x.String(), fmt.Sprintf("%s is %s, must be %s (default)\n%s", x, got, want, desc), desc)
		}
	}
	return !c.Violated()
}

func TestC23(t *testing.T) {
	dir, rm := scratch()
	defer rm()
	defer os.Chdir("/")
	l := &loader{dir: dir}
	all := settings()
	us := []report.Unit{}
	// pairs of settings, all places and values
	for i := range all {
		i := i
		us = append(us, report.Unit{Name: fmt.Sprintf("%s and each other setting", all[i]), Run: func(c *report.Ctx) {
			for j := i + 1; j < len(all); j++ {
				xs := []*setting{all[i], all[j]}
				enum.All(func(ch *enum.Ch) bool {
					gs := []given{}
					for _, x := range xs {
						gs = append(gs, x.choose(ch))
					}
					return check(c, l, xs, gs) && !c.TimeUp()
				})
			}
		}})
	}
	// everything in the base file, subsets in the stage file
	for lo := 0; lo < len(all); lo += 5 {
		lo := lo
		us = append(us, report.Unit{Name: fmt.Sprintf("all settings in the base file, subsets in the stage file %d", lo), Run: func(c *report.Ctx) {
			for _, invert := range []bool{false, true} {
				for _, cmd := range []bool{false, true} {
					n := c.Pick(10, 14)
					for m := 0; m < 1<<n; m++ {
						gs := make([]given, len(all))
						for i, x := range all {
							set := false
							if k := (i - lo + len(all)) % len(all); k < n {
								set = m&(1<<k) != 0
							} else {
								set = k%2 == 0
							}
							if invert { // bases have the rest
								if set {
									gs[i].stage = x.s[0]
								} else {
									gs[i].base = x.b[len(x.b)-1]
								}
							} else {
								gs[i].base = x.b[0]
								if set {
									gs[i].stage = x.s[len(x.s)-1]
								}
							}
							gs[i].cmd = cmd && x.cmd != "" && i%2 == 0
						}
						if !check(c, l, all, gs) || c.TimeUp() {
							return
						}
					}
				}
			}
		}})
	}
	us = append(us, multi(l)...)
	us = append(us, report.Unit{Name: "command line", Run: commandLine})
	report.Main(t, report.Check{
		ID:    "C23",
		Level: "exploration",
		Rule:  "evaluation = one set of configuration files and command line options, written to a scratch directory and loaded; every setting of every stage is compared with the most specific place that gives it; distinct = by files and options",
		Assumptions: []string{
			"an empty string (except for a param) in a file is a setting that is not given",
			"stats.report is one setting: reporters of the stage file replace those of the base file",
		},
		Units: us,
	})
}

// multi: several stage files in two directories.
func multi(l *loader) []report.Unit {
	names := []string{"a/1.yaml", "a/2.yaml", "c/a/1.yaml"}
	dirOf := func(i int) string { return filepath.Dir(names[i]) }
	// what the base file of a directory gives, what a stage file gives
	type vals struct{ k, user, freq, csv string }
	baseVals := func(d string) vals { return vals{"k-" + d, "user-" + d, "1" + d + "s", "$params.k"} }
	freq := map[string]string{"a": "11s", "c/a": "12s"}
	put := func(t tree, v vals, pre ...string) {
		p := func(s ...string) []string { return append(append([]string{}, pre...), s...) }
		t.set(v.k, p("params", "k")...)
		t.set(v.user, p("mysql", "username")...)
		t.set(true, p("mysql", "disable-auto-tls")...)
		t.set(v.freq, p("stats", "freq")...)
		t.set(v.csv, p("stats", "report", "csv", "file")...)
	}
	run := func(c *report.Ctx, form int, cmd bool) {
		enum.All(func(ch *enum.Ch) bool {
			f := dirFiles(dirFiles(files{}, "a"), "c/a")
			bases := map[string]bool{}
			for _, d := range []string{"a", "c/a"} {
				if ch.Choose(2) == 1 {
					bases[d] = true
					b := tree{}
					v := baseVals(d)
					v.freq = freq[d]
					put(b, v)
					b.set("only-"+d, "params", "only")
					b.set("${params.only}/${params.k}", "params", "both")
					f[d+"/_all.yaml"] = b.String()
				}
			}
			kind := []int{}
			for i, n := range names {
				k := ch.Choose(5)
				kind = append(kind, k)
				t := stageTree()
				if k == 4 { // no params
					t.set(fmt.Sprintf("name-%d", i), "stage", "name")
				} else {
					t.set("name-${params.n}", "stage", "name")
					t.set(fmt.Sprint(i), "stage", "params", "n")
				}
				t.set([]tree{{"clients": "2", "db": "wdb"}, {"clients": "1"}}, "stage", "workload")
				switch k {
				case 1: // its own values
					put(t, vals{fmt.Sprintf("k%d", i), fmt.Sprintf("user%d", i), fmt.Sprintf("%ds", 20+i), "x-${params.k}"}, "stage")
					t.set(false, "stage", "mysql", "disable-auto-tls")
				case 2: // only some
					t.set(fmt.Sprintf("p%d", i), "stage", "params", "k")
				case 3:
					t.set(true, "stage", "disable")
				}
				f[n] = t.String()
			}
			var order []int
			for n := 1 + ch.Choose(3); n > 0; n-- {
				order = append(order, ch.Choose(len(names)))
			}
			var args []string
			cwd := "."
			for _, i := range order {
				switch form {
				case 0:
					args = append(args, names[i])
				case 1:
					args = append(args, "./"+names[i])
				case 2:
					args = append(args, filepath.Join(l.dir, names[i]))
				case 3:
					cwd = "a"
					args = append(args, []string{"1.yaml", "./2.yaml", "../c/a/1.yaml"}[i])
				}
			}
			var params []string
			db := ""
			if cmd {
				params = []string{"k=cmd", "more=m=1"}
				db = "cmddb"
			}
			desc := fmt.Sprintf("%vin %s: %q --param %q --database %q", f, cwd, args, params, db)
			c.Case(desc)
			st, err := l.load(f, cwd, args, params, "", db)
			bad := func(s string, v ...interface{}) bool {
				c.Violate("several stages", fmt.Sprintf(s, v...)+"\n"+desc, desc)
				return false
			}
			if err != nil {
				// a base file without its own k, or none: $params.k undefined
				return bad("error %v", err)
			}
			var en []int
			for _, i := range order {
				if kind[i] != 3 {
					en = append(en, i)
				}
			}
			if len(st) != len(en) {
				return bad("%d stages are returned, %d are enabled", len(st), len(en))
			}
			for j, i := range en {
				s := &st[j]
				d := dirOf(i)
				w := map[string]interface{}{
					"N": j + 1, "file": filepath.Join(l.dir, names[i]), "name": fmt.Sprintf("name-%d", i),
					"params.k": nil, "params.only": nil, "params.more": nil, "params.n": fmt.Sprint(i), "params.both": nil,
					"username": "", "auto": nil, "freq": "0s", "db": "", "wdb": "wdb", "wdb2": "", "ca": "",
					"report": map[string]map[string]string{"stdout": {"each-instance": "true"}},
					"dsn":    "", "compute": "1", "trx": "t.sql", "clients": "2", "test": false, "instances": "1",
				}
				k := ""
				if bases[d] {
					k = "k-" + d
					w["params.only"] = "only-" + d
					w["username"], w["auto"], w["freq"] = "user-"+d, true, freq[d]
				}
				if kind[i] == 1 {
					k = fmt.Sprintf("k%d", i)
					w["username"], w["auto"], w["freq"] = fmt.Sprintf("user%d", i), false, fmt.Sprintf("%ds", 20+i)
				}
				if kind[i] == 2 {
					k = fmt.Sprintf("p%d", i)
				}
				if cmd {
					k = "cmd"
					w["params.more"] = "m=1"
					w["db"], w["wdb"], w["wdb2"] = db, db, db
				}
				if kind[i] == 4 {
					w["params.n"] = nil
				}
				if k != "" {
					w["params.k"] = k
				}
				if bases[d] {
					w["params.both"] = "only-" + d + "/" + k
					w["report"] = map[string]map[string]string{"csv": {"file": k}}
				}
				if kind[i] == 1 {
					w["report"] = map[string]map[string]string{"csv": {"file": "x-" + k}}
				}
				param := func(n string) interface{} {
					if v, ok := s.Params[n]; ok {
						return v
					}
					return nil
				}
				if len(s.Workload) != 2 || len(s.Trx) != 1 {
					return bad("stage %d: %d client groups, %d trx", j+1, len(s.Workload), len(s.Trx))
				}
				got := map[string]interface{}{
					"N": s.N, "file": s.File, "name": s.Name,
					"params.k": param("k"), "params.only": param("only"), "params.more": param("more"), "params.n": param("n"), "params.both": param("both"),
					"username": s.MySQL.Username, "auto": s.MySQL.DisableAutoTLS, "freq": s.Stats.Freq, "db": s.MySQL.Db,
					"wdb": s.Workload[0].Db, "wdb2": s.Workload[1].Db, "ca": s.MySQL.TLS.CA, "report": s.Stats.Report,
					"dsn": s.MySQL.DSN, "compute": s.Compute.Instances, "trx": s.Trx[0].Name, "clients": s.Workload[0].Clients,
					"test": s.Test, "instances": s.Compute.Instances,
				}
				for n := range w {
					if show(got[n]) != show(w[n]) {
						return bad("stage %d (%s): %s is %s, must be %s", j+1, names[i], n, show(got[n]), show(w[n]))
					}
				}
			}
			return !c.TimeUp()
		})
	}
	var us []report.Unit
	for form := 0; form < 4; form++ {
		for _, cmd := range []bool{false, true} {
			form, cmd := form, cmd
			us = append(us, report.Unit{Name: fmt.Sprintf("1-3 stage files in 2 directories, paths %d, command line %v", form, cmd), Run: func(c *report.Ctx) { run(c, form, cmd) }})
		}
	}
	return us
}

// commandLine: options in any order between stage files; they override the
// environment.
func commandLine(c *report.Ctx) {
	type opt struct {
		forms [][]string
		env   string
		get   func(o boot.Options) interface{}
		want  interface{}
	}
	opts := []opt{
		{[][]string{{"--dsn", "d=1"}, {"--dsn=d=1"}}, "FINCH_DSN", func(o boot.Options) interface{} { return o.DSN }, "d=1"},
		{[][]string{{"--database", "db"}, {"-D", "db"}, {"--database=db"}}, "FINCH_DB", func(o boot.Options) interface{} { return o.Database }, "db"},
		{[][]string{{"--server", "0"}}, "FINCH_SERVER", func(o boot.Options) interface{} { return o.Server }, "0"},
		{[][]string{{"--client", "h:1"}}, "FINCH_CLIENT", func(o boot.Options) interface{} { return o.Client }, "h:1"},
		{[][]string{{"--test"}}, "", func(o boot.Options) interface{} { return o.Test }, true},
		{[][]string{{"--debug"}}, "", func(o boot.Options) interface{} { return o.Debug }, true},
		{[][]string{{"--param", "a=1"}, {"-p", "a=1"}, {"--param=a=1"}}, "", nil, "a=1"},
		{[][]string{{"--param", "a=2"}, {"-p", "b=x=y"}}, "", nil, ""},
	}
	for _, o := range opts {
		if o.env != "" {
			os.Unsetenv(o.env)
		}
	}
	enum.All(func(ch *enum.Ch) bool {
		// a sequence of up to 4 options, between up to 2 stage files
		args := []string{"finch"}
		var files, params []string
		got := map[int]bool{}
		n := ch.Choose(c.Pick(4, 5))
		file := func(s string) {
			files = append(files, s)
			args = append(args, s)
		}
		where := ch.Choose(3) // first file: before the first option, after it, at the end
		for k := 0; k < n; k++ {
			if k == where {
				file("a.yaml")
			}
			i := ch.Choose(len(opts))
			if got[i] {
				return true
			}
			got[i] = true
			f := opts[i].forms[ch.Choose(len(opts[i].forms))]
			args = append(args, f...)
			if opts[i].get == nil {
				p := strings.TrimPrefix(f[len(f)-1], "--param=")
				params = append(params, p)
			}
		}
		if where >= n {
			file("a.yaml")
		}
		file("b.yaml")
		env := ch.Choose(5) // one variable of the environment
		if env > 0 {
			os.Setenv(opts[env-1].env, "env")
			defer os.Unsetenv(opts[env-1].env)
		}
		desc := fmt.Sprintf("%q env %d", args, env)
		c.Case(desc)
		bad := func(s string, v ...interface{}) bool {
			c.Violate("command line", fmt.Sprintf(s, v...)+"\n"+desc, desc)
			return false
		}
		cl, err := boot.ParseCommandLine(args[0:])
		if err != nil {
			return bad("error %v", err)
		}
		if len(cl.Args) < 1 || fmt.Sprint(cl.Args[1:]) != fmt.Sprint(files) {
			return bad("stage files are %q", cl.Args)
		}
		if fmt.Sprint(cl.Options.Params) != fmt.Sprint(params) {
			return bad("params are %q", cl.Options.Params)
		}
		for i, o := range opts {
			if o.get == nil {
				continue
			}
			want := interface{}("")
			if _, ok := o.want.(bool); ok {
				want = false
			}
			if env == i+1 {
				want = "env"
			}
			if got[i] {
				want = o.want
			}
			if o.get(cl.Options) != want {
				return bad("option %s is %v, must be %v", o.forms[0][0], o.get(cl.Options), want)
			}
		}
		return !c.TimeUp()
	})
}
