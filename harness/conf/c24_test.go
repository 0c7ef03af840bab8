package conf

import (
	"fmt"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/square/finch"
	"github.com/square/finch/config"

	"finchverif/enum"
	"finchverif/report"
	"finchverif/vsched"
)

var env = map[string]string{"VE1": "e,1", "VE1X": "5ms", "VE2": "$params.a 2k", "VE3": ""}

func setEnv() {
	for k, v := range env {
		os.Setenv(k, v)
	}
	os.Unsetenv("VNO")
}

// lookup a variable as documented.
func lookup(name string, params map[string]string) (string, bool) {
	var v string
	var ok bool
	switch {
	case strings.HasPrefix(name, "params."):
		v, ok = params[name[len("params."):]]
	case strings.HasPrefix(name, "sys."):
		v, ok = finch.SystemParams[name[len("sys."):]]
	default:
		v, ok = env[name]
	}
	return v, ok
}

// refVars is the reference: every variable is replaced once, an undefined one
// is an error.
func refVars(s string, params map[string]string, numbers bool) (string, bool) {
	out := ""
	for i := 0; i < len(s); {
		if s[i] != '$' {
			out += s[i : i+1]
			i++
			continue
		}
		name, end := "", i
		if i+1 < len(s) && s[i+1] == '{' {
			j := strings.IndexByte(s[i:], '}')
			name, end = s[i+2:i+j], i+j+1
		} else {
			end = i + 1
			for end < len(s) && !strings.ContainsRune(" \t\n\"'$", rune(s[end])) {
				end++
			}
			name = s[i+1 : end]
		}
		if name == "" { // only a $
			out += "$"
			i++
			continue
		}
		v, ok := lookup(name, params)
		if !ok {
			return "", false
		}
		out += v
		i = end
	}
	if numbers {
		out = refNumbers(out)
	}
	return out, true
}

var (
	word   = regexp.MustCompile(`[0-9A-Za-z_\-./,[:^ascii:]]+`)
	number = regexp.MustCompile(`^(\d{1,3}(?:,\d{3})+|\d+)([kKmMgG]?)(i?)([bB]?)$`)
)

var badUnit = regexp.MustCompile(`^[\d,]+[mkgbiMKGBI]+$`)

// unclear: lists of numbers separated by commas, unknown units
func unclear(s string) bool {
	for _, w := range word.FindAllString(s, -1) {
		if !number.MatchString(w) && (strings.Contains(w, ",") && strings.ContainsAny(w, "0123456789") || badUnit.MatchString(w)) {
			return true
		}
	}
	return false
}

// refNumbers: human-readable numbers that stand alone become integers.
func refNumbers(s string) string {
	return word.ReplaceAllStringFunc(s, func(w string) string {
		m := number.FindStringSubmatch(w)
		if m == nil || regexp.MustCompile(`^\d+$`).MatchString(w) {
			return w
		}
		n, err := strconv.ParseUint(strings.ReplaceAll(m[1], ",", ""), 10, 64)
		if err != nil {
			panic(err)
		}
		base := uint64(1000)
		if m[3] != "" {
			base = 1024
		}
		for e := strings.Index("kmg", strings.ToLower(m[2])); m[2] != "" && e >= 0; e-- {
			n *= base
		}
		return strconv.FormatUint(n, 10)
	})
}

// perms: map iteration orders are choices of ch.
func perms(ch *enum.Ch, f func()) {
	vsched.MapChoice = func(n int) []int {
		free := make([]int, n)
		for i := range free {
			free[i] = i
		}
		var p []int
		for len(free) > 0 {
			k := 0
			if n <= 3 {
				k = ch.Choose(len(free))
			}
			p = append(p, free[k])
			free = append(free[:k:k], free[k+1:]...)
		}
		return p
	}
	defer func() { vsched.MapChoice = nil }()
	f()
}

func try(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("PANIC: %v", r)
		}
	}()
	return f()
}

func stringsUnit(first int, tokens []string) func(c *report.Ctx) {
	params := map[string]string{"a": "1k", "ab": "$params.a", "a-b": "v w", "a.b": "", "n": "1,000", "k": "k"}
	return func(c *report.Ctx) {
		setEnv()
		max := c.Pick(4, 5)
		var rec func(n int, s string) bool
		rec = func(n int, s string) bool {
			for _, numbers := range []bool{false, true} {
				want, ok := refVars(s, params, numbers)
				plain, _ := refVars(s, params, false)
				if numbers && unclear(plain) {
					continue
				}
				var got string
				err := try(func() (err error) {
					got, err = config.Vars(s, params, numbers)
					return err
				})
				key := ""
				if strings.Contains(s, "$") || want != s {
					key = fmt.Sprint(s, numbers)
				}
				c.Case(key)
				if err != nil && strings.HasPrefix(err.Error(), "PANIC") || (err == nil) != ok || ok && got != want {
					c.Violate("Vars", fmt.Sprintf("Vars(%q, numbers %v) is %q, error %v; must be %q, error: %v", s, numbers, got, err, want, !ok), s)
					return false
				}
			}
			if n == max {
				return true
			}
			for _, t := range tokens {
				if c.TimeUp() || !rec(n+1, s+t) {
					return false
				}
			}
			return true
		}
		rec(1, tokens[first])
	}
}

var tokens = []string{
	"$params.a", "${params.a}", "$params.ab", "${params.ab}", "${params.a-b}", "${params.a.b}", "$params.n", "${params.k}",
	"$sys.CPU_CORES", "${VE1}", "$VE1X", "${VE2}", "$VE3", "${params.no}", "$VNO",
	"x", "-", "/", " ", "'", `"`, "=", "(", "5", "10k", "1,000", "2MiB", "3GB", "é", "7b",
}

// chain: params that use other params, in every map order.
func chain(c *report.Ctx) {
	setEnv()
	names := []string{"a", "ab", "b"}
	vals := []string{"1k", "x", "$params.a", "${params.ab}-y", "$params.b ${params.a}", "$VE2", "${params.no}", "$sys.CPU_CORES", ""}
	enum.All(func(ch *enum.Ch) bool {
		raw := map[string]string{}
		for _, n := range names {
			if k := ch.Choose(1 + len(vals)); k > 0 {
				raw[n] = vals[k-1]
			}
		}
		// reference: resolve by need
		want := map[string]string{}
		var resolve func(n string, busy map[string]bool) bool
		resolve = func(n string, busy map[string]bool) bool {
			if _, ok := want[n]; ok {
				return true
			}
			v, ok := raw[n]
			if !ok || busy[n] {
				return false
			}
			busy[n] = true
			defer delete(busy, n)
			for _, m := range names {
				if strings.Contains(v, "$params."+m+" ") || strings.HasSuffix(v, "$params."+m) || strings.Contains(v, "{params."+m+"}") {
					if !resolve(m, busy) {
						return false
					}
				}
			}
			r, ok := refVars(v, want, true)
			if ok {
				want[n] = r
			}
			return ok
		}
		valid := true
		for n := range raw {
			valid = resolve(n, map[string]bool{}) && valid
		}
		st := config.Stage{Name: "n", Params: map[string]string{}}
		for k, v := range raw {
			st.Params[k] = v
		}
		if valid {
			for n := range raw {
				st.Name += " ${params." + n + "}"
			}
			st.Name = strings.Join(sorted(strings.Fields(st.Name)), " ")
		}
		name, _ := refVars(st.Name, want, false)
		var err error
		perms(ch, func() { err = try(st.Vars) })
		c.Case(fmt.Sprint(raw, valid, ch.Picks()))
		if (err == nil) != valid || err != nil && strings.HasPrefix(err.Error(), "PANIC") {
			c.Violate("params", fmt.Sprintf("params %q: error %v, must be one: %v", raw, err, !valid), raw)
			return false
		}
		if valid && (fmt.Sprintf("%q", st.Params) != fmt.Sprintf("%q", want) || st.Name != name) {
			c.Violate("params", fmt.Sprintf("params %q: %q, name %q; must be %q, name %q", raw, st.Params, st.Name, want, name), raw)
			return false
		}
		return !c.TimeUp()
	})
}

func sorted(l []string) []string {
	sort.Strings(l)
	return l
}

// a field of the stage file and what it becomes.
type field struct {
	path    string
	numbers bool
	set     func(t tree, v string)
	get     func(s config.Stage) string
	valid   []string // values that must be valid after interpolation
}

func fields() []field {
	var l []field
	add := func(path string, numbers bool, get func(s config.Stage) string, valid ...string) {
		p := strings.Split(path, ".")
		l = append(l, field{path, numbers, func(t tree, v string) {
			switch p[0] {
			case "workload":
				t["stage"].(tree)["workload"].([]tree)[1].set(v, p[1:]...)
			case "trx":
				t["stage"].(tree)["trx"].([]tree)[1].set(v, p[1:]...)
			default:
				t.set(v, append([]string{"stage"}, p...)...)
			}
		}, get, valid})
	}
	add("name", false, func(s config.Stage) string { return s.Name })
	add("runtime", false, func(s config.Stage) string { return s.Runtime }, "5s", "1h2m")
	add("qps", true, func(s config.Stage) string { return s.QPS })
	add("tps", true, func(s config.Stage) string { return s.TPS })
	add("compute.instances", true, func(s config.Stage) string { return s.Compute.Instances })
	add("mysql.db", false, func(s config.Stage) string { return s.MySQL.Db })
	add("mysql.dsn", false, func(s config.Stage) string { return s.MySQL.DSN })
	add("mysql.hostname", false, func(s config.Stage) string { return s.MySQL.Hostname })
	add("mysql.mycnf", false, func(s config.Stage) string { return s.MySQL.MyCnf })
	add("mysql.username", false, func(s config.Stage) string { return s.MySQL.Username })
	add("mysql.password", false, func(s config.Stage) string { return s.MySQL.Password })
	add("mysql.password-file", false, func(s config.Stage) string { return s.MySQL.PasswordFile })
	add("mysql.socket", false, func(s config.Stage) string { return s.MySQL.Socket })
	add("mysql.timeout-connect", false, func(s config.Stage) string { return s.MySQL.TimeoutConnect }, "5s")
	add("mysql.tls.ca", false, func(s config.Stage) string { return s.MySQL.TLS.CA }, "base.pem")
	add("mysql.tls.cert", false, func(s config.Stage) string { return s.MySQL.TLS.Cert }, "base.pem")
	add("mysql.tls.key", false, func(s config.Stage) string { return s.MySQL.TLS.Key }, "base.pem")
	add("stats.freq", false, func(s config.Stage) string { return s.Stats.Freq }, "5s", "100ms")
	add("stats.report.csv.file", false, func(s config.Stage) string { return s.Stats.Report["csv"]["file"] })
	add("params.other", true, func(s config.Stage) string { return s.Params["other"] })
	add("trx.name", false, func(s config.Stage) string { return s.Trx[1].Name })
	add("trx.file", false, func(s config.Stage) string { return s.Trx[1].File }, "t.sql")
	add("trx.data.d.generator", false, func(s config.Stage) string { return s.Trx[1].Data["d"].Generator })
	add("trx.data.d.scope", false, func(s config.Stage) string { return s.Trx[1].Data["d"].Scope }, "row", "trx")
	add("trx.data.d.params.p", true, func(s config.Stage) string { return s.Trx[1].Data["d"].Params["p"] })
	w := func(s config.Stage) config.ClientGroup { return s.Workload[1] }
	add("workload.db", false, func(s config.Stage) string { return w(s).Db })
	add("workload.clients", true, func(s config.Stage) string { return w(s).Clients })
	add("workload.iter", true, func(s config.Stage) string { return w(s).Iter })
	add("workload.iter-clients", true, func(s config.Stage) string { return w(s).IterClients })
	add("workload.iter-exec-group", true, func(s config.Stage) string { return w(s).IterExecGroup })
	add("workload.qps", true, func(s config.Stage) string { return w(s).QPS })
	add("workload.qps-clients", true, func(s config.Stage) string { return w(s).QPSClients })
	add("workload.qps-exec-group", true, func(s config.Stage) string { return w(s).QPSExecGroup })
	add("workload.tps", true, func(s config.Stage) string { return w(s).TPS })
	add("workload.tps-clients", true, func(s config.Stage) string { return w(s).TPSClients })
	add("workload.tps-exec-group", true, func(s config.Stage) string { return w(s).TPSExecGroup })
	add("workload.runtime", false, func(s config.Stage) string { return w(s).Runtime }, "5s")
	add("workload.group", false, func(s config.Stage) string { return w(s).Group })
	return l
}

// fieldsUnit: one variable in one field (or in a file of base settings), and
// the other fields as they were.
func fieldsUnit(l *loader) func(c *report.Ctx) {
	return func(c *report.Ctx) {
		setEnv()
		fs := fields()
		mk := func() tree {
			return tree{"stage": tree{
				"params": tree{"keep": "1x"},
				"trx":    []tree{{"file": "t.sql", "name": "A"}, {"file": "t.sql", "name": "B", "data": tree{"d": tree{"generator": "int"}}}},
				"stats":  tree{"report": tree{"csv": tree{"x": "1k"}}},
				"workload": []tree{
					{"clients": "3", "db": "1k", "group": "g1"},
					{"clients": "2"},
				},
			}}
		}
		for fi, f := range fs {
			vals := f.valid
			if vals == nil && f.numbers {
				vals = []string{"7", "1,000", "1k", "2MB"}
			}
			if vals == nil {
				vals = []string{"plain", "a b", "1k", "us-east-1b", "x$y"}
			}
			if f.numbers && f.path != "params.other" && !strings.Contains(f.path, ".params.") {
				vals = []string{"7", "1,000", "1k", "2MB"}
			}
			for _, v := range vals {
				for _, how := range []string{"$params.v", "${params.v}", "$VE9", "${VE9}", "literal", "$params.v from base", "$params.v from --param", "$params.nope", "${VNO}"} {
					enum.All(func(ch *enum.Ch) bool {
						t := mk()
						val := strings.TrimSuffix(strings.TrimSuffix(how, " from base"), " from --param")
						var args []string
						want, bad := v, false
						files := dirFiles(files{}, "a")
						os.Setenv("VE9", v)
						raw := v
						if strings.Contains(v, "$") { // a $ in a value is no variable, but in a param it is
							if !strings.Contains(how, "VE9") {
								return true
							}
						}
						switch {
						case how == "literal":
							val = v
						case strings.Contains(how, "from base"):
							files["a/_all.yaml"] = tree{"params": tree{"v": raw}}.String()
						case strings.Contains(how, "from --param"):
							args = []string{"v=" + raw}
						case strings.Contains(how, "params.v"):
							t.set(raw, "stage", "params", "v")
						case strings.Contains(how, "no"), strings.Contains(how, "VNO"):
							bad = true
						}
						// numbers become integers where numbers are expected, and in params
						if f.numbers || strings.Contains(how, "params.v") {
							want = refNumbers(want)
						}
						f.set(t, val)
						files["a/s.yaml"] = t.String()
						desc := fmt.Sprintf("%s = %s (%q)", f.path, how, v)
						var st []config.Stage
						var err error
						perms(ch, func() { st, err = l.load(files, ".", []string{"a/s.yaml"}, args, "", "") })
						c.Case(desc + fmt.Sprint(ch.Picks()))
						fail := func(s string, v ...interface{}) bool {
							c.Violate(f.path, fmt.Sprintf(s, v...)+"\n"+desc+"\n"+files.String(), desc)
							return false
						}
						if bad {
							if err == nil {
								return fail("an undefined variable is not an error")
							}
							return true
						}
						if err != nil || len(st) != 1 {
							return fail("%d stages, error %v", len(st), err)
						}
						if got := f.get(st[0]); got != want {
							return fail("%s is %q, must be %q", f.path, got, want)
						}
						// the rest
						base := mk()
						if strings.Contains(how, "params.v") {
							base.set("v", "stage", "params", "v")
						}
						for i, g := range fs {
							if i == fi || g.path == "trx.name" || strings.HasPrefix(g.path, "trx.data") && strings.HasPrefix(f.path, "trx.data") {
								continue
							}
							w := map[string]string{"name": "s.yaml", "compute.instances": "1", "stats.freq": "0s", "trx.file": "t.sql", "trx.data.d.generator": "int", "workload.clients": "2"}[g.path]
							if got := g.get(st[0]); got != w {
								return fail("%s is %q, must be %q", g.path, got, w)
							}
						}
						if s := st[0]; s.Params["keep"] != "1x" || s.Stats.Report["csv"]["x"] != "1k" || s.Workload[0].Clients != "3" || s.Workload[0].Db != "1k" || s.Workload[0].Group != "g1" || s.Trx[0].Name != "A" {
							return fail("another value changed: %+v", s)
						}
						return !c.TimeUp()
					})
				}
			}
		}
	}
}

// refs: names of trx that are variables, and client groups that use them.
func refs(l *loader) func(c *report.Ctx) {
	return func(c *report.Ctx) {
		setEnv()
		names := []string{"$params.t1", "${params.t1}x", "T2", "1k", "2,000"}
		vals := map[string]string{"$params.t1": "T1", "${params.t1}x": "T1x", "T2": "T2", "1k": "1k", "2,000": "2,000"}
		enum.All(func(ch *enum.Ch) bool {
			f := dirFiles(files{}, "a")
			t := tree{"stage": tree{"params": tree{"t1": "T1"}}}
			trx := []tree{}
			for _, n := range names {
				trx = append(trx, tree{"name": n, "file": "t.sql"})
			}
			t.set(trx, "stage", "trx")
			var list, want []string
			for n := 1 + ch.Choose(3); n > 0; n-- {
				k := ch.Choose(len(names))
				s := names[k]
				if ch.Choose(2) == 1 {
					s = vals[s]
				}
				list = append(list, s)
				want = append(want, vals[names[k]])
			}
			t.set([]tree{{"trx": list}}, "stage", "workload")
			f["a/s.yaml"] = t.String()
			c.Case(fmt.Sprint(list))
			st, err := l.load(f, ".", []string{"a/s.yaml"}, nil, "", "")
			if err != nil || len(st) != 1 || !reflect.DeepEqual(st[0].Workload[0].Trx, want) {
				c.Violate("workload.trx", fmt.Sprintf("workload.trx %q: %+v, error %v, must be %q", list, st, err, want), list)
				return false
			}
			return true
		})
	}
}

func TestC24(t *testing.T) {
	dir, rm := scratch()
	defer rm()
	defer os.Chdir("/")
	l := &loader{dir: dir}
	us := []report.Unit{
		{Name: "params that use params", Run: chain},
		{Name: "fields", Run: fieldsUnit(l)},
		{Name: "names of trx", Run: refs(l)},
	}
	for i, tok := range tokens {
		us = append(us, report.Unit{Name: fmt.Sprintf("strings starting with %q", tok), Run: stringsUnit(i, tokens)})
	}
	report.Main(t, report.Check{
		ID:    "C24",
		Level: "exploration",
		Rule:  "evaluation = one string interpolated, or one set of params and one order of map iterations, or one configuration file with a variable in one field; compared with a reference interpolation; distinct = by input and map order",
		Assumptions: []string{
			"a bare variable ends at white space, a quote, a $ or the end",
			"lists of numbers separated by commas without blanks, and numbers with unknown units, are not judged where numbers are expected",
		},
		Units: us,
	})
}
