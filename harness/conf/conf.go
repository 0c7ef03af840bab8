// Package conf has the checks of configuration loading.
package conf

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"github.com/square/finch/config"
)

// tree is a YAML document (JSON is YAML).
type tree map[string]interface{}

func (t tree) set(v interface{}, path ...string) {
	for _, p := range path[:len(path)-1] {
		n, ok := t[p].(tree)
		if !ok {
			n = tree{}
			t[p] = n
		}
		t = n
	}
	t[path[len(path)-1]] = v
}

func (t tree) get(path ...string) (interface{}, bool) {
	for _, p := range path[:len(path)-1] {
		n, ok := t[p].(tree)
		if !ok {
			return nil, false
		}
		t = n
	}
	v, ok := t[path[len(path)-1]]
	return v, ok
}

func (t tree) String() string {
	b, err := json.Marshal(t)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// setting that can be given in several places.
type setting struct {
	path []string
	get  func(s *config.Stage) interface{}
	b, s []interface{} // values in the base file, in the stage file
	def  interface{}   // default
	cmd  string        // value on the command line ("" = can't)
}

func (x *setting) String() string {
	n := ""
	for i, p := range x.path {
		if i > 0 {
			n += "."
		}
		n += p
	}
	return n
}

func show(v interface{}) string {
	switch v := v.(type) {
	case nil:
		return "not set"
	case *bool:
		if v == nil {
			return "not set"
		}
		return fmt.Sprint(*v)
	}
	b, _ := json.Marshal(v)
	return string(b)
}

func str(name string, f func(s *config.Stage) string) func(s *config.Stage) interface{} {
	return func(s *config.Stage) interface{} { return f(s) }
}

// settings are all that base files, stage files and the command line share.
func settings() []*setting {
	var l []*setting
	strs := func(get func(s *config.Stage) string, path ...string) *setting {
		n := path[len(path)-1]
		x := &setting{path: path, def: "", get: str(n, get), b: []interface{}{"base-" + n}, s: []interface{}{"stage-" + n}}
		l = append(l, x)
		return x
	}
	bools := func(get func(s *config.Stage) *bool, path ...string) {
		l = append(l, &setting{path: path, get: func(s *config.Stage) interface{} {
			if b := get(s); b != nil {
				return *b
			}
			return nil
		}, b: []interface{}{true, false}, s: []interface{}{true, false}})
	}
	strs(func(s *config.Stage) string { return s.MySQL.DSN }, "mysql", "dsn").cmd = "cmd-dsn"
	strs(func(s *config.Stage) string { return s.MySQL.Db }, "mysql", "db").cmd = "cmd_db"
	strs(func(s *config.Stage) string { return s.MySQL.Hostname }, "mysql", "hostname")
	strs(func(s *config.Stage) string { return s.MySQL.MyCnf }, "mysql", "mycnf")
	strs(func(s *config.Stage) string { return s.MySQL.Username }, "mysql", "username")
	strs(func(s *config.Stage) string { return s.MySQL.Password }, "mysql", "password")
	strs(func(s *config.Stage) string { return s.MySQL.PasswordFile }, "mysql", "password-file")
	strs(func(s *config.Stage) string { return s.MySQL.Socket }, "mysql", "socket")
	x := strs(func(s *config.Stage) string { return s.MySQL.TimeoutConnect }, "mysql", "timeout-connect")
	x.b, x.s = []interface{}{"7s"}, []interface{}{"9s"}
	bools(func(s *config.Stage) *bool { return s.MySQL.DisableAutoTLS }, "mysql", "disable-auto-tls")
	for _, f := range []struct {
		n   string
		get func(s *config.Stage) string
	}{
		{"ca", func(s *config.Stage) string { return s.MySQL.TLS.CA }},
		{"cert", func(s *config.Stage) string { return s.MySQL.TLS.Cert }},
		{"key", func(s *config.Stage) string { return s.MySQL.TLS.Key }},
	} {
		x := strs(f.get, "mysql", "tls", f.n)
		x.b, x.s = []interface{}{"base.pem"}, []interface{}{"stage.pem"} // exist
	}
	bools(func(s *config.Stage) *bool { return s.MySQL.TLS.SkipVerify }, "mysql", "tls", "skip-verify")
	bools(func(s *config.Stage) *bool { return s.MySQL.TLS.Disable }, "mysql", "tls", "disable")
	bools(func(s *config.Stage) *bool { return s.Stats.Disable }, "stats", "disable")
	x = strs(func(s *config.Stage) string { return s.Stats.Freq }, "stats", "freq")
	x.b, x.s, x.def = []interface{}{"5s"}, []interface{}{"3s"}, "0s"
	m := func(s string) map[string]map[string]string {
		var m map[string]map[string]string
		if err := json.Unmarshal([]byte(s), &m); err != nil {
			panic(err)
		}
		return m
	}
	l = append(l, &setting{path: []string{"stats", "report"},
		get: func(s *config.Stage) interface{} { return s.Stats.Report },
		b:   []interface{}{m(`{"csv":{"file":"b.csv"},"stdout":{"combined":"yes"}}`), m(`{"stdout":{"percentiles":"P50"}}`)},
		s:   []interface{}{m(`{"csv":{"percentiles":"P90"}}`), m(`{"stdout":{}}`)},
		def: m(`{"stdout":{"each-instance":"true"}}`),
	})
	for _, p := range []string{"k", "kk"} {
		p := p
		l = append(l, &setting{path: []string{"params", p}, get: func(s *config.Stage) interface{} {
			v, ok := s.Params[p]
			if !ok {
				return nil
			}
			return v
		}, b: []interface{}{"base-" + p}, s: []interface{}{"stage-" + p, ""}, cmd: "cmd=" + p})
	}
	return l
}

// file names of a scratch directory, relative to its root.
type files map[string]string

func scratch() (string, func()) {
	d, err := os.MkdirTemp("", "verif-conf")
	if err != nil {
		panic(err)
	}
	d, err = filepath.EvalSymlinks(d)
	if err != nil {
		panic(err)
	}
	return d, func() { os.RemoveAll(d) }
}

// sync writes files below dir, and removes what was written before and is not in f.
func (f files) write(dir string, before files) {
	for n, c := range f {
		if old, ok := before[n]; ok && old == c {
			continue
		}
		p := filepath.Join(dir, n)
		os.MkdirAll(filepath.Dir(p), 0755)
		if err := os.WriteFile(p, []byte(c), 0644); err != nil {
			panic(err)
		}
	}
	for n := range before {
		if _, ok := f[n]; !ok {
			os.Remove(filepath.Join(dir, n))
		}
	}
}

func (f files) String() string {
	l := []string{}
	for n := range f {
		if filepath.Ext(n) == ".yaml" {
			l = append(l, n)
		}
	}
	sort.Strings(l)
	s := ""
	for _, n := range l {
		s += n + ": " + f[n] + "\n"
	}
	return s
}
