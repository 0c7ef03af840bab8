package exec

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/square/finch/config"
	"github.com/square/finch/data"

	"finchverif/fakedb"
	"finchverif/fin"
	"finchverif/vsched"
)

// ---- data keys: generator "lit" returns values that say who asked and when

func init() { data.Register("lit", litFactory{}) }

type litFactory struct{}

func (litFactory) Make(name, key string, params map[string]string) (data.Generator, error) {
	return lit{strings.TrimPrefix(key, "@")}, nil
}

type lit struct{ key string }

type keyDef struct {
	n      int    // values
	format string // of one value in text statements
}

// keys of the test programs: names are prefixes of each other.
var keys = map[string]keyDef{
	"a":    {1, "%v"},
	"ab":   {1, "'%v'"},
	"a-b":  {1, "%v"},
	"a_b2": {1, "%v"},
	"r":    {2, "%v"},
	"p":    {1, "'%v'"},
	"i":    {1, "%v"},
	"s":    {1, "%v"}, // saved column
}

// value of key (k-th value) for client c of group g in iteration i.
func value(key string, k int, g, c, i uint) interface{} {
	switch key {
	case "s":
		return int64(1)
	case "i":
		return int64(g*100000 + c*1000) // client scope: the same in every iteration
	case "p":
		return fmt.Sprintf("%%d%%s @a @p ? g%dc%di%d", g, c, i)
	}
	return fmt.Sprintf("%s#%d.g%dc%di%d", key, k, g, c, i)
}

func (g lit) Format() (uint, string) {
	d := keys[g.key]
	return uint(d.n), d.format
}
func (g lit) Copy() data.Generator       { return g }
func (g lit) Scan(any interface{}) error { return nil }
func (g lit) Name() string               { return "lit" }
func (g lit) Values(rc data.RunCount) []interface{} {
	vsched.Point()
	var r []interface{}
	for k := 1; k <= keys[g.key].n; k++ {
		r = append(r, value(g.key, k, rc[data.CLIENT_GROUP], rc[data.CLIENT], rc[data.ITER]))
	}
	return r
}

const keysYaml = `      data:
        a: {generator: lit}
        ab: {generator: lit}
        a-b: {generator: lit, scope: trx}
        a_b2: {generator: lit, scope: iter}
        r: {generator: lit}
        p: {generator: lit}
        i: {generator: lit, scope: client}
        s: {generator: column}
`

// ---- statements

// letter is one statement of the alphabet: its source in a trx file and the
// statements that must reach the database, with @key#k for the k-th value of key.
type letter struct {
	name  string
	mods  string // modifier lines
	src   string
	out   []string
	once  bool // all of out share one prepared statement
	prep  bool
	query bool // SELECT
	class string
	ddl   bool
}

// resolve returns the expected text, or the prepared text and arguments.
func resolve(tmpl string, prep bool, g, c, i uint) (string, []string) {
	var sb strings.Builder
	var args []string
	for k := 0; k < len(tmpl); {
		if tmpl[k] != '@' {
			sb.WriteByte(tmpl[k])
			k++
			continue
		}
		e := k + 1
		for e < len(tmpl) && (tmpl[e] == '_' || tmpl[e] == '-' || tmpl[e] >= 'a' && tmpl[e] <= 'z' || tmpl[e] >= '0' && tmpl[e] <= '9') {
			e++
		}
		key, n := tmpl[k+1:e], 1
		if e+1 < len(tmpl) && tmpl[e] == '#' {
			n = int(tmpl[e+1] - '0')
			e += 2
		}
		d, ok := keys[key]
		if !ok {
			panic("no key " + key + " in " + tmpl)
		}
		v := value(key, n, g, c, i)
		if prep {
			sb.WriteByte('?')
			args = append(args, fmt.Sprint(v))
		} else {
			fmt.Fprintf(&sb, d.format, v)
		}
		k = e
	}
	return sb.String(), args
}

func (l letter) source() string {
	s := l.mods
	if l.prep {
		s = "-- prepare\n" + s
	}
	return s + l.src + "\n\n"
}

// base letters; every one but idle also exists in a prepared variant.
var base = []letter{
	{name: "select", src: "SELECT c FROM t WHERE id = @a", out: []string{"SELECT c FROM t WHERE id = @a"}, query: true},
	{name: "keys", src: "UPDATE t SET x=@a, y=@ab, z=@a-b WHERE q=@a_b2 AND s=@a", out: []string{"UPDATE t SET x=@a, y=@ab, z=@a-b WHERE q=@a_b2 AND s=@a"}, class: "write"},
	{name: "begin", src: "BEGIN", out: []string{"BEGIN"}},
	{name: "commit", src: "COMMIT", out: []string{"COMMIT"}, class: "commit"},
	{name: "range", src: "select * from t where n between @r and @PREV and k = @a", out: []string{"select * from t where n between @r#1 and @r#2 and k = @a"}, query: true},
	{name: "csv", src: "INSERT INTO t VALUES /*!csv 2 (@a, NULL, @ab, @a)*/", out: []string{"INSERT INTO t VALUES (@a, NULL, @ab, @a), (@a, NULL, @ab, @a)"}, class: "write"},
	{name: "copies", mods: "-- copies: 2\n", src: "DELETE FROM t WHERE id = @a AND i = @i", out: []string{"DELETE FROM t WHERE id = @a AND i = @i", "DELETE FROM t WHERE id = @a AND i = @i"}, once: true, class: "write"},
	{name: "copyno", mods: "-- copies: 3\n", src: "REPLACE INTO t/*!copy-number*/ VALUES (@ab)", out: []string{"REPLACE INTO t1 VALUES (@ab)", "REPLACE INTO t2 VALUES (@ab)", "REPLACE INTO t3 VALUES (@ab)"}, class: "write"},
	{name: "multiline", src: "SELECT a,\n  b\nFROM t\n  WHERE c LIKE 'a%' AND d = '%d %s' AND e = '?'", out: []string{"SELECT a, b FROM t WHERE c LIKE 'a%' AND d = '%d %s' AND e = '?'"}, query: true},
	{name: "explicit", src: "SET @a() = @p, @a", out: []string{"SET @a = @p, @a"}},
	{name: "ddl", src: "CREATE TABLE x (id INT, n DECIMAL(5,2) DEFAULT @i)", out: []string{"CREATE TABLE x (id INT, n DECIMAL(5,2) DEFAULT @i)"}, ddl: true},
	{name: "percentkey", src: "UPDATE t SET a = '50%', b = @p, c = @i", out: []string{"UPDATE t SET a = '50%', b = @p, c = @i"}, class: "write"},
	{name: "idle", mods: "-- idle: 1us\n", src: "SELECT 'idle'"},
}

func alphabet() []letter {
	var l []letter
	for _, b := range base {
		l = append(l, b)
		if b.name == "idle" {
			continue
		}
		p := b
		p.prep = true
		p.name += "/p"
		l = append(l, p)
	}
	return l
}

// ---- programs

type cgroup struct {
	clients int
	iter    int
	order   []int // files
	db      string
}

func (g cgroup) String() string {
	return fmt.Sprintf("{clients %d iter %d trx %v db %q}", g.clients, g.iter, g.order, g.db)
}

type program struct {
	files  [][]letter
	groups []cgroup
	more   []string // more data keys
}

func (p program) String() string {
	s := ""
	for _, f := range p.files {
		s += "["
		for i, l := range f {
			if i > 0 {
				s += " "
			}
			s += l.name
		}
		s += "]"
	}
	return s + fmt.Sprint(p.groups)
}

func (p program) load(t *testing.T) config.Stage { return fin.Load(t, p.yaml(), p.trx()) }

func (p program) trx() map[string]string {
	files := map[string]string{}
	for i, f := range p.files {
		s := ""
		for _, l := range f {
			s += l.source()
		}
		files[fmt.Sprintf("t%d.sql", i)] = s
	}
	return files
}

func (p program) yaml() string {
	y := "stage:\n  name: s\n  trx:\n"
	for i := range p.files {
		y += fmt.Sprintf("    - file: t%d.sql\n      name: t%d\n", i, i) + keysYaml
		for _, k := range p.more {
			y += "        " + k + ": {generator: lit}\n"
		}
	}
	y += "  workload:\n"
	for _, g := range p.groups {
		y += fmt.Sprintf("    - clients: %d\n      iter: %d\n      group: e\n", g.clients, g.iter)
		if g.db != "" {
			y += "      db: " + g.db + "\n"
		}
		if g.order != nil {
			y += "      trx: ["
			for i, o := range g.order {
				if i > 0 {
					y += ","
				}
				y += fmt.Sprintf("t%d", o)
			}
			y += "]\n"
		}
	}
	return y
}

func (p program) order(g cgroup) []int {
	if g.order != nil {
		return g.order
	}
	var o []int
	for i := range p.files {
		o = append(o, i)
	}
	return o
}

// expect is what a client of group number gn (1-based) must send per iteration.
func (p program) expect(gn, c uint) (seq []string, prepares map[string]int) {
	g := p.groups[gn-1]
	prepares = map[string]int{}
	for i := 1; i <= g.iter; i++ {
		for _, fi := range p.order(g) {
			for _, l := range p.files[fi] {
				for k, o := range l.out {
					s, args := resolve(o, l.prep, gn, c, uint(i))
					if l.prep {
						if i == 1 && (!l.once || k == 0) {
							prepares[s]++
						}
						s = "prepared " + s + " <- " + strings.Join(args, "|")
					}
					seq = append(seq, s)
				}
			}
		}
	}
	return
}

// conns splits the database log by connection, without the connection test.
func conns(evs []fakedb.Event) map[int][]fakedb.Event {
	m := map[int][]fakedb.Event{}
	for _, e := range evs {
		if e.Conn > 0 {
			m[e.Conn] = append(m[e.Conn], e)
		}
	}
	for n, l := range m {
		test := true
		for _, e := range l {
			if e.Kind != "connect" && e.Kind != "ping" && e.Kind != "close" {
				test = false
			}
		}
		if test {
			delete(m, n)
		}
	}
	return m
}

// statement renders what reached the database as in expect.
func statement(e fakedb.Event) string {
	if e.Kind == "sexec" || e.Kind == "squery" {
		return "prepared " + e.SQL + " <- " + strings.Join(e.Args, "|")
	}
	if len(e.Args) > 0 {
		return e.SQL + " <- " + strings.Join(e.Args, "|")
	}
	return e.SQL
}

// judge compares the log of an error free run with the program.
func (p program) judge(evs []fakedb.Event) string {
	type got struct {
		seq   []string
		conn  int
		preps map[string]int
	}
	byKey := map[string][]got{}
	cs := conns(evs)
	for n, l := range cs {
		g := got{conn: n, preps: map[string]int{}}
		prepared := map[int]string{}
		for _, e := range l {
			switch e.Kind {
			case "exec", "query", "sexec", "squery":
				if (e.Kind == "sexec" || e.Kind == "squery") && prepared[e.Stmt] != e.SQL {
					return fmt.Sprintf("statement %s uses a prepared statement not made on its connection", e)
				}
				g.seq = append(g.seq, statement(e))
			case "prepare":
				prepared[e.Stmt] = e.SQL
				g.preps[e.SQL]++
			}
		}
		k := strings.Join(g.seq, "\n")
		byKey[k] = append(byKey[k], g)
		// default database first
		for _, e := range l {
			if e.Kind == "connect" || e.Kind == "ping" {
				continue
			}
			if e.Kind == "prepare" {
				for _, g := range p.groups {
					if g.db == "" {
						goto next
					}
				}
				return "statement prepared before the default database was selected"
			}
			break
		}
	next:
	}
	total := 0
	for gi, g := range p.groups {
		for c := 1; c <= g.clients; c++ {
			seq, preps := p.expect(uint(gi+1), uint(c))
			total++
			if g.db != "" {
				seq = append([]string{"USE `" + g.db + "`"}, seq...)
			}
			k := strings.Join(seq, "\n")
			l := byKey[k]
			if len(l) == 0 {
				var have []string
				for s := range byKey {
					have = append(have, s)
				}
				sort.Strings(have)
				return fmt.Sprintf("client %d of group %d must send\n%s\nbut no connection sent exactly that; connections sent\n%s", c, gi+1, k, strings.Join(have, "\n--\n"))
			}
			x := l[0]
			byKey[k] = l[1:]
			for s, n := range preps {
				if x.preps[s] == 0 {
					return fmt.Sprintf("%q is not prepared on the connection", s)
				}
				if x.preps[s] > n {
					return fmt.Sprintf("%q is prepared %d times, expected %d", s, x.preps[s], n)
				}
			}
			for s := range x.preps {
				if preps[s] == 0 {
					return fmt.Sprintf("%q is prepared but is no prepared statement of the client", s)
				}
			}
		}
	}
	if len(cs) != total {
		return fmt.Sprintf("%d clients used %d connections", total, len(cs))
	}
	return ""
}

// run executes the program once, uncontrolled.
func (p program) run(t *testing.T, cfg config.Stage, answer func(e *fakedb.Event) fakedb.Answer) ([]fakedb.Event, error) {
	db := &fakedb.DB{Answer: answer}
	vsched.OpenDB = db.OpenFn()
	err := fin.RunStage(context.Background(), cfg, data.NewScope(), nil)
	return db.Events(), err
}

// each calls f for every assignment of the letters to the shape.
func each(shape []int, ls []letter, f func(files [][]letter)) {
	total := 0
	for _, n := range shape {
		total += n
	}
	idx := make([]int, total)
	for {
		k := 0
		var files [][]letter
		for _, n := range shape {
			var st []letter
			for i := 0; i < n; i++ {
				st = append(st, ls[idx[k]])
				k++
			}
			files = append(files, st)
		}
		f(files)
		i := 0
		for i < total {
			idx[i]++
			if idx[i] < len(ls) {
				break
			}
			idx[i] = 0
			i++
		}
		if i == total {
			return
		}
	}
}
