package conf

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/square/finch/config"
	"github.com/square/finch/data"
	"github.com/square/finch/stage"
	"github.com/square/finch/stats"

	"finchverif/enum"
	"finchverif/fakedb"
	"finchverif/report"
	"finchverif/vsched"
)

// verdict on a configuration.
type verdict int

const (
	valid     verdict = iota
	unjudged          // documentation does not say
	invalid           // must be rejected, unless the stage is disabled
	malformed         // must be rejected: not the documented layout
)

func (v verdict) String() string {
	return []string{"valid", "unjudged", "invalid", "malformed"}[v]
}

// val of a field.
type val struct {
	v interface{}
	verdict
	big bool // many clients: don't prepare
}

type dev struct {
	name string
	set  func(t tree, v interface{})
	vals []val
}

// few values: the first two of each verdict.
func (d dev) few() dev {
	n := map[verdict]int{}
	r := dev{name: d.name, set: d.set}
	for _, v := range d.vals {
		if n[v.verdict] < 2 {
			r.vals = append(r.vals, v)
		}
		n[v.verdict]++
	}
	return r
}

func at(path string) func(t tree, v interface{}) {
	p := strings.Split(path, ".")
	return func(t tree, v interface{}) {
		s := t["stage"].(tree)
		switch p[0] {
		case "workload", "trx":
			if len(p) > 1 {
				l, ok := s[p[0]].([]tree)
				if path == "trx.data.d.scope" && ok { // of both
					l[0].set(v, p[1:]...)
				}
				if !ok || len(l) < 2 { // replaced by another field
					return
				}
				l[1].set(v, p[1:]...)
				return
			}
		}
		s.set(v, p...)
	}
}

func devs() []dev {
	var l []dev
	wrongType := []val{{v: []string{"1"}, verdict: malformed}, {v: tree{"x": "1"}, verdict: malformed}, {v: nil, verdict: valid}}
	add := func(path string, vals []val, more ...val) {
		l = append(l, dev{path, at(path), append(append([]val(nil), vals...), more...)})
	}
	ints := []val{}
	for _, s := range []string{"", "0", "1", "7", "007", "1,000", "1k", "2MiB", "4294967295"} {
		ints = append(ints, val{v: s, big: len(s) > 2})
	}
	for _, s := range []string{"-1", "x", "1.5", "1e3", "0x10", "1_0", "7 x", "--1", "1k2", "1m5s", "$", "५"} {
		ints = append(ints, val{v: s, verdict: invalid})
	}
	for _, s := range []string{"4294967296", "5GB", "99999999999999999999", " 7", "+7", "1,00", ",", "1kk"} {
		ints = append(ints, val{v: s, verdict: unjudged, big: true})
	}
	ints = append(ints, val{v: 3}, val{v: -3, verdict: invalid}, val{v: 2.5, verdict: invalid})
	ints = append(ints, wrongType...)
	durs := []val{{v: ""}, {v: nil}}
	for _, s := range []string{"1s", "100ms", "1h30m", "1.5s", "1ns"} {
		durs = append(durs, val{v: s})
	}
	for _, s := range []string{"5", "x", "-1s", "1 s", "1d", "s", "1k"} {
		durs = append(durs, val{v: s, verdict: invalid})
	}
	durs = append(durs, val{v: "0", verdict: unjudged}, val{v: "0s", verdict: unjudged}, val{v: 60, verdict: invalid},
		val{v: []string{"1s"}, verdict: malformed}, val{v: tree{"x": "1s"}, verdict: malformed})
	strs := append([]val{{v: ""}, {v: "x y"}, {v: "é"}, {v: 7}, {v: true, verdict: unjudged}}, wrongType...)
	bools := []val{{v: true}, {v: false}, {v: nil}, {v: "x", verdict: malformed}, {v: 2, verdict: malformed}, {v: []bool{true}, verdict: malformed}, {v: tree{"x": true}, verdict: malformed}}
	unknown := []val{{v: "1", verdict: malformed}, {v: nil, verdict: malformed}}

	add("disable", []val{{v: false}, {v: nil}, {v: "x", verdict: malformed}, {v: 2, verdict: malformed}}, val{v: true})
	add("name", strs)
	add("runtime", durs)
	add("qps", ints)
	add("tps", ints)
	add("compute.instances", ints)
	add("compute.disable-local", bools)
	add("stats.disable", bools)
	add("stats.freq", durs)
	add("stats.report", []val{{v: nil}, {v: tree{}}, {v: tree{"stdout": nil}}, {v: tree{"stdout": tree{}}}, {v: tree{"csv": tree{"file": "x.csv"}, "stdout": nil}},
		{v: tree{"nope": nil}, verdict: unjudged}, {v: tree{"stdout": tree{"percentiles": "x,"}}, verdict: unjudged}, {v: tree{"stdout": "x"}, verdict: malformed}, {v: "stdout", verdict: malformed}, {v: []string{"stdout"}, verdict: malformed}})
	for _, s := range []string{"db", "dsn", "hostname", "username", "password", "socket"} {
		add("mysql."+s, strs)
	}
	zero := append([]val(nil), durs...)
	for i, v := range zero {
		if v.verdict == unjudged {
			zero[i].verdict = valid
		}
	}
	add("mysql.timeout-connect", zero)
	add("mysql.disable-auto-tls", bools)
	add("mysql.tls.disable", bools)
	add("mysql.tls.skip-verify", bools)
	for _, p := range []string{"nope", "compute.nope", "stats.nope", "mysql.nope", "mysql.tls.nope", "trx.nope", "trx.data.d.nope", "workload.nope", "worklaod", "Name", "workload.iterations", "mysql.user"} {
		add(p, unknown)
	}
	for _, p := range []string{"compute", "stats", "mysql", "mysql.tls", "params"} {
		add(p, []val{{v: nil}, {v: tree{}}, {v: "x", verdict: malformed}, {v: []string{"x"}, verdict: malformed}})
	}
	add("params.p", []val{{v: ""}, {v: "x"}, {v: 7}, {v: "1k"}, {v: "$params.p", verdict: unjudged}, {v: []string{"x"}, verdict: malformed}})
	// trx
	files := []val{{v: "b.sql"}, {v: "sub/c.sql"}, {v: "./b.sql"}, {v: "", verdict: invalid}, {v: nil, verdict: invalid}, {v: "no.sql", verdict: invalid}, {v: "sub/b.sql", verdict: invalid},
		{v: []string{"b.sql"}, verdict: malformed}}
	add("trx.file", files)
	add("trx.data", []val{{v: nil}, {v: tree{}}, {v: "x", verdict: malformed}, {v: []string{"d"}, verdict: malformed}, {v: tree{"d": nil}, verdict: invalid}, {v: tree{"d": "int"}, verdict: malformed}})
	gens := []val{{v: "", verdict: invalid}, {v: nil, verdict: invalid}, {v: tree{}, verdict: malformed}, {v: "nope", verdict: unjudged}}
	for _, g := range []string{"int", "int-gaps", "int-range", "int-range-seq", "auto-inc", "str-fill-az", "xid", "client-id", "column"} {
		gens = append(gens, val{v: g})
	}
	add("trx.data.d.generator", gens)
	sc := []val{{v: ""}, {v: nil}, {v: []string{"trx"}, verdict: malformed}}
	for _, s := range scopes {
		sc = append(sc, val{v: s})
	}
	for _, s := range []string{"Trx", "clients", "x", "exec_group", "trx ", "0", "_", "none"} {
		sc = append(sc, val{v: s, verdict: invalid})
	}
	add("trx.data.d.scope", sc)
	add("trx.data.d.params", []val{{v: nil}, {v: tree{}}, {v: tree{"max": "10", "begin": "1"}}, {v: tree{"max": "x"}}, {v: tree{"max": "1k"}}, {v: tree{"max": []int{1}}, verdict: malformed}, {v: "x", verdict: malformed}})
	// workload
	for _, s := range []string{"iter", "iter-clients", "iter-exec-group", "qps", "qps-clients", "qps-exec-group", "tps", "tps-clients", "tps-exec-group"} {
		add("workload."+s, ints)
	}
	clients := []val{}
	for _, v := range ints {
		if v.v == "0" {
			v.verdict = unjudged
		}
		clients = append(clients, v)
	}
	add("workload.clients", clients)
	add("workload.runtime", durs)
	add("workload.db", strs)
	add("workload.disable-stats", bools)
	add("workload.group", strs)
	add("workload.trx", []val{{v: nil, verdict: invalid}, {v: []string{}, verdict: invalid}, {v: []string{"A"}}, {v: []string{"B", "A", "B"}}, {v: []string{"Z"}, verdict: invalid}, {v: []string{"A", "Z"}, verdict: invalid},
		{v: []string{""}, verdict: invalid}, {v: []string{"a"}, verdict: invalid}, {v: "A", verdict: malformed}, {v: tree{"A": 1}, verdict: malformed}})
	// whole sections
	l = append(l, dev{"trx", at("trx"), []val{{v: nil, verdict: invalid}, {v: []tree{}, verdict: invalid}, {v: "a.sql", verdict: malformed}, {v: tree{"file": "a.sql"}, verdict: malformed}, {v: []string{"a.sql"}, verdict: malformed}}})
	l = append(l, dev{"workload", at("workload"), []val{{v: nil}, {v: []tree{}}, {v: []tree{{}}}, {v: []interface{}{nil}}, {v: []tree{{}, {}}}, {v: tree{"clients": "1"}, verdict: malformed}, {v: "x", verdict: malformed}, {v: []string{"A"}, verdict: malformed}}})
	return l
}

var scopes = []string{"global", "stage", "workload", "exec-group", "client-group", "client", "iter", "trx", "statement", "row", "value"}

func c25files() files {
	return files{
		"a/a.sql":     "SELECT c FROM t WHERE id = @d\n",
		"a/b.sql":     "BEGIN\n\nINSERT INTO t VALUES (@d)\n\nCOMMIT\n",
		"a/sub/c.sql": "UPDATE t SET c = 1 WHERE id = @d\n",
	}
}

func c25tree() tree {
	d := func() tree { return tree{"d": tree{"generator": "int", "params": tree{"max": "10"}}} }
	return tree{"stage": tree{
		"trx": []tree{{"file": "a.sql", "name": "A", "data": d()}, {"file": "b.sql", "name": "B", "data": d()}},
		"workload": []tree{
			{"clients": "1", "trx": []string{"A"}},
			{"clients": "2", "trx": []string{"B"}},
			{"clients": "1", "trx": []string{"A", "B"}},
		},
	}}
}

// prepare a stage as the local instance does.
func (l *loader) prepare(c *report.Ctx, s config.Stage) error {
	if err := os.Chdir(filepath.Dir(s.File)); err != nil {
		panic(err)
	}
	defer os.Chdir(l.dir)
	db := &fakedb.DB{}
	vsched.OpenDB = db.OpenFn()
	defer func() { vsched.OpenDB = nil }()
	return try(func() error {
		var st *stats.Collector
		if !config.True(s.Stats.Disable) {
			var err error
			if st, err = stats.NewCollector(s.Stats, "local", 1); err != nil {
				return err
			}
			defer st.Close()
		}
		b, err := json.Marshal(s) // as sent to instances
		if err != nil {
			return err
		}
		var r config.Stage
		if err := json.Unmarshal(b, &r); err != nil {
			return err
		}
		if err := stage.New(r, data.NewScope(), nil).Prepare(context.Background()); err != nil {
			return err
		}
		return stage.New(s, data.NewScope(), st).Prepare(context.Background())
	})
}

func (l *loader) judge(c *report.Ctx, t tree, want verdict, disabled, big bool, key string) (config.Stage, bool) {
	fs := c25files()
	fs["a/s.yaml"] = t.String()
	if !l.checked(c, fs, want, disabled, big, key) {
		return config.Stage{}, false
	}
	return l.last, true
}

func (l *loader) checked(c *report.Ctx, fs files, want verdict, disabled, big bool, key string) bool {
	st, err := l.load(fs, ".", []string{"a/s.yaml"}, nil, "", "")
	c.Case(key)
	desc := fmt.Sprintf("%s (%s, disabled: %v)\n%s", key, want, disabled, fs)
	fail := func(f string, v ...interface{}) bool {
		c.Violate(strings.SplitN(key, " ", 2)[0], fmt.Sprintf(f, v...)+"\n"+desc, key)
		return false
	}
	if err != nil && strings.HasPrefix(err.Error(), "panic") {
		return fail("loading crashes: %v", err)
	}
	n := 1
	if disabled {
		n = 0
		if want == invalid {
			want = valid
		}
	}
	switch want {
	case valid:
		if err != nil || len(st) != n {
			return fail("%d stages loaded, error %v; must be %d", len(st), err, n)
		}
	case invalid, malformed:
		if err == nil {
			return fail("not rejected")
		}
		return true
	}
	l.last = config.Stage{}
	if err != nil || len(st) != 1 {
		return true
	}
	l.last = st[0]
	if n := st[0].Compute.Instances; n == "" || n == "0" {
		return fail("%q instances: a stage is run by at least 1", n)
	}
	for i, w := range st[0].Workload {
		if w.Clients == "" {
			return fail("workload[%d] has %q clients, must have at least 1", i, w.Clients)
		}
	}
	if big {
		return true
	}
	if err := l.prepare(c, st[0]); err != nil && strings.Contains(err.Error(), "PANIC") {
		return fail("accepted, but preparing the stage crashes: %v", err)
	}
	return true
}

func both(a, b verdict) verdict {
	if a > b {
		return a
	}
	return b
}

// pair of fields: all values; reading the second after the first.
func (l *loader) pair(c *report.Ctx, ds []dev) bool {
	ok := true
	enum.All(func(ch *enum.Ch) bool {
		t := c25tree()
		want, big, disabled := valid, false, false
		key := ""
		for _, d := range ds {
			k := ch.Choose(len(d.vals))
			v := d.vals[k]
			d.set(t, v.v)
			want = both(want, v.verdict)
			big = big || v.big
			disabled = disabled || d.name == "disable" && v.v == true
			b, _ := json.Marshal(v.v)
			key += fmt.Sprintf("%s=%s ", d.name, b)
		}
		_, ok = l.judge(c, t, want, disabled, big, key)
		return ok && !c.TimeUp()
	})
	return ok
}

func related(a, b string) bool {
	return a == b || strings.HasPrefix(a, b+".") || strings.HasPrefix(b, a+".") || a == "workload" && strings.HasPrefix(b, "workload") || a == "trx" && strings.HasPrefix(b, "trx") || a == "trx" && b == "workload" ||
		(a == "trx" || b == "trx") && strings.HasPrefix(a+b, "trxworkload")
}

// workloads of up to 3 groups: names, trx and clients.
func workloads(l *loader, first int) func(c *report.Ctx) {
	return func(c *report.Ctx) {
		names := []string{"", "x", "y"}
		trxs := [][]string{nil, {"A"}, {"b.sql"}, {"A", "b.sql"}, {"Z"}, {"A", "B"}}
		for n := 0; n <= 3; n++ {
			if n == 0 && first != 0 {
				continue
			}
			enum.All(func(ch *enum.Ch) bool {
				t := c25tree()
				s := t["stage"].(tree)
				trx := s["trx"].([]tree)
				delete(trx[1], "name") // b.sql
				want := valid
				ws := []tree{}
				seen := map[string]bool{}
				prev := ""
				with, without := 0, 0
				key := ""
				for i := 0; i < n; i++ {
					k := first
					if i > 0 {
						k = ch.Choose(len(names) * len(trxs))
					}
					name, tr := names[k%len(names)], trxs[k/len(names)]
					w := tree{}
					if name != "" {
						w["group"] = name
						if seen[name] && prev != name {
							want = invalid
						}
						seen[name] = true
					}
					prev = name
					if tr != nil {
						w["trx"] = tr
						with++
						for _, x := range tr {
							if x != "A" && x != "b.sql" {
								want = invalid
							}
						}
					} else {
						without++
					}
					ws = append(ws, w)
					key += fmt.Sprintf(" %q %q;", name, tr)
				}
				if with > 0 && without > 0 {
					want = invalid
				}
				s["workload"] = ws
				_, ok := l.judge(c, t, want, false, false, "workload"+key)
				return ok && !c.TimeUp()
			})
		}
	}
}

// dataKeys: scopes of two keys in two trx, in every map order.
func dataKeys(l *loader) func(c *report.Ctx) {
	return func(c *report.Ctx) {
		for _, pair := range [][2]string{{"", ""}, {"", "statement"}, {"", "trx"}, {"trx", "trx"}, {"trx", "client"}, {"global", "stage"}, {"row", "row"}, {"value", "statement"}, {"x", "x"}, {"iter", "Iter"}} {
			enum.All(func(ch *enum.Ch) bool {
				t := c25tree()
				trx := t["stage"].(tree)["trx"].([]tree)
				want := valid
				key := fmt.Sprintf("scopes %q:", pair)
				sc := map[string]string{}
				for i := range trx {
					m := tree{}
					for _, k := range []string{"d", "e"} {
						switch n := ch.Choose(3); n {
						case 0:
							if k == "d" {
								return true // a must: @d is used
							}
						default:
							s := pair[n-1]
							m[k] = tree{"generator": "int", "scope": s}
							if s == "x" || s == "Iter" {
								want = both(want, invalid)
							}
							if old, ok := sc[k]; ok && old != s {
								v := invalid
								if (old == "" || old == "statement") && (s == "" || s == "statement") {
									v = unjudged
								}
								want = both(want, v)
							}
							sc[k] = s
							key += fmt.Sprintf(" %d.%s %q", i, k, s)
						}
					}
					trx[i]["data"] = m
				}
				ok := false
				perms(ch, func() { _, ok = l.judge(c, t, want, false, false, key) })
				return ok && !c.TimeUp()
			})
		}
	}
}

// trxNames: a name refers to one transaction.
func trxNames(l *loader) func(c *report.Ctx) {
	return func(c *report.Ctx) {
		names := []string{"", "A", "B", "a.sql"}
		fs := []string{"a.sql", "b.sql", "sub/a.sql"}
		for n := 1; n <= 3; n++ {
			enum.All(func(ch *enum.Ch) bool {
				t := c25tree()
				s := t["stage"].(tree)
				l1 := []tree{}
				used := map[string]string{}
				want := valid
				key := "names"
				for i := 0; i < n; i++ {
					name, f := names[ch.Choose(len(names))], fs[ch.Choose(len(fs))]
					x := tree{"file": f, "data": tree{"d": tree{"generator": "int"}}}
					key += fmt.Sprintf(" %s %q;", f, name)
					if name != "" {
						x["name"] = name
					} else {
						name = filepath.Base(f)
					}
					if old, ok := used[name]; ok {
						if old != f {
							want = both(want, invalid)
						} else {
							want = both(want, unjudged)
						}
					}
					used[name] = f
					l1 = append(l1, x)
				}
				s["trx"] = l1
				delete(s, "workload")
				w := names[ch.Choose(len(names))]
				if w != "" {
					s["workload"] = []tree{{"trx": []string{w}}}
					if _, ok := used[w]; !ok {
						want = invalid
					}
				}
				files := c25files()
				files["a/sub/a.sql"] = "SELECT @d\n"
				files["a/s.yaml"] = t.String()
				return l.checked(c, files, want, false, false, key+" workload "+w) && !c.TimeUp()
			})
		}
	}
}

// texts: files that are no stage files.
func texts(l *loader) func(c *report.Ctx) {
	return func(c *report.Ctx) {
		for _, x := range []struct {
			s string
			verdict
		}{
			{"", invalid}, {"\n", invalid}, {"stage:", invalid}, {"stage: {}", invalid}, {"stage: []", malformed}, {"stage: x", malformed}, {"x", malformed}, {"- stage", malformed},
			{"stages: {}", malformed}, {"stage: {trx: [{file: a.sql}", malformed}, {"stage:\n\ttrx: []", malformed}, {"{", malformed}, {"stage: {trx: [{file: b.sql, data: {d: {generator: int}}}]}", valid},
			{"stage: {trx: [{file: b.sql}]}\nx: 1", malformed}, {"stage: {trx: [{file: b.sql}], trx: [{file: b.sql}]}", malformed}, {"stage: {trx: [null]}", invalid}, {"stage: {disable: true}", valid},
			{"stage: {trx: [{file: b.sql, data: {d: null}}]}", invalid}, {"trx: [{file: b.sql}]", malformed}, {"stage: {trx: [{file: b.sql}], workload: [null]}", valid},
			{"stage: {trx: [{file: b.sql}], workload: [{clients: 1, trx: [null]}]}", invalid},
		} {
			fs := c25files()
			fs["a/s.yaml"] = x.s
			if !l.checked(c, fs, x.verdict, strings.Contains(x.s, "disable"), false, "text "+x.s) {
				return
			}
			// base file
			fs = c25files()
			fs["a/s.yaml"] = c25tree().String()
			fs["a/_all.yaml"] = x.s
			want := malformed
			if strings.TrimSpace(x.s) == "" {
				want = valid
			}
			if !l.checked(c, fs, want, false, false, "base file "+x.s) {
				return
			}
		}
		for _, f := range []string{"mysql", "stats", "params", "nope", "compute", "trx"} {
			for _, v := range []string{"{}", "{nope: 1}", "x", "[x]", "{disable: true}", "{p: 1k}", "null"} {
				fs := c25files()
				fs["a/s.yaml"] = c25tree().String()
				fs["a/_all.yaml"] = f + ": " + v
				want := malformed
				switch {
				case f == "nope" || f == "compute" || f == "trx":
				case v == "{}" || v == "null" || f == "params" && strings.HasPrefix(v, "{") || f == "stats" && v == "{disable: true}":
					want = valid
				}
				if !l.checked(c, fs, want, false, false, "base file "+f+": "+v) {
					return
				}
			}
		}
		// files that do not exist
		for _, fs := range [][]string{{"a/no.yaml"}, {"no/s.yaml"}, {"a"}, {"a/s.yaml", "a/no.yaml"}, {""}} {
			f := c25files()
			f["a/s.yaml"] = c25tree().String()
			st, err := l.load(f, ".", fs, nil, "", "")
			c.Case(fmt.Sprint(fs))
			if err == nil || strings.HasPrefix(err.Error(), "panic") {
				c.Violate("file", fmt.Sprintf("stage files %q: %d stages, error %v", fs, len(st), err), fs)
				return
			}
		}
	}
}

func TestC25(t *testing.T) {
	log.SetOutput(io.Discard)
	dir, rm := scratch()
	defer rm()
	defer os.Chdir("/")
	os.Setenv("TMPDIR", dir)
	l := &loader{dir: dir}
	ds := devs()
	us := []report.Unit{
		{Name: "texts", Run: texts(l)},
		{Name: "scopes of data keys", Run: dataKeys(l)},
		{Name: "names of trx", Run: trxNames(l)},
		{Name: "each field", Run: func(c *report.Ctx) {
			for _, d := range ds {
				if !l.pair(c, []dev{d}) {
					return
				}
			}
		}},
	}
	for k := 0; k < 18; k++ {
		us = append(us, report.Unit{Name: fmt.Sprintf("workloads %d", k), Run: workloads(l, k)})
	}
	for i := range ds {
		i := i
		us = append(us, report.Unit{Name: ds[i].name + " and each other field", Run: func(c *report.Ctx) {
			for j := i + 1; j < len(ds); j++ {
				if related(ds[i].name, ds[j].name) {
					continue
				}
				if !l.pair(c, []dev{ds[i], ds[j]}) {
					return
				}
				if !c.Thorough() {
					continue
				}
				for k := j + 1; k < len(ds); k++ { // fewer values of each
					if related(ds[i].name, ds[k].name) || related(ds[j].name, ds[k].name) {
						continue
					}
					if !l.pair(c, []dev{ds[i].few(), ds[j].few(), ds[k].few()}) {
						return
					}
				}
			}
		}})
	}
	report.Main(t, report.Check{
		ID:    "C25",
		Level: "exploration",
		Rule:  "evaluation = one stage file loaded (and, when accepted, prepared twice: as is, and as sent to an instance), verdict compared with a reference validator; distinct = by content",
		Assumptions: []string{
			"not judged: integers over 32 bits, with a sign or blanks; zero clients; zero durations; scope \"\" together with \"statement\"; the same transaction file twice under one name",
			"the database answers every statement",
		},
		Units: us,
	})
}
