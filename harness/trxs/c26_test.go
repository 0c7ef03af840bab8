// Package trxs has the check of transaction file parsing.
package trxs

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/dustin/go-humanize"

	"github.com/square/finch/config"
	"github.com/square/finch/data"
	"github.com/square/finch/trx"

	"finchverif/enum"
	"finchverif/fakedb"
	"finchverif/report"
)

// ---------------------------------------------------------------------------
// Reference parser

type verdict int

const (
	ok       verdict = iota
	bad              // must be an error
	unjudged         // documentation does not say
)

// stmt is a statement as documented.
type stmt struct {
	query         string
	resultSet     bool
	begin, commit bool
	write, ddl    bool
	prepare       bool
	multi         int // copies sharing the prepared statement
	idle          time.Duration
	in            []string
	calls         []byte
	out           []string
	insertId      string
	limit         bool
	limits        []limit
}

// limit is one limit of a statement.
type limit struct {
	kind string // rows, table-size, database-size
	name string
	max  uint64
}

type key struct {
	gen    string
	scope  string // "": default of the generator
	column int
}

type file struct {
	stmts []stmt
	keys  map[string]key
	ddl   bool
	v     verdict
}

type cfg map[string]config.Data // without @

var formats = map[string]string{"int": "%d", "int-range": "%d", "str-fill-az": "'%s'", "xid": "'%s'", "column": "%v"}

func isWord(c byte) bool {
	return c == '_' || c == '-' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// tokens splits s into data keys and other text.
func split(s string) (parts []string) {
	last := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '@' || i+1 == len(s) || !isWord(s[i+1]) {
			continue
		}
		j := i + 1
		for j < len(s) && isWord(s[j]) {
			j++
		}
		if strings.HasPrefix(s[j:], "()") {
			j += 2
		}
		parts = append(parts, s[last:i], s[i:j])
		last, i = j, j-1
	}
	return append(parts, s[last:]) // even: text, odd: keys
}

func (f *file) worse(v verdict) {
	if v > f.v {
		f.v = v
	}
}

func parse(content string, c cfg, params map[string]string, keys map[string]key) *file {
	f := &file{keys: keys}
	if keys == nil {
		f.keys = map[string]key{}
	}
	var text, mods []string
	gap := false // a modifier, then blank lines
	end := func() {
		if len(text) == 0 {
			gap = gap || len(mods) > 0
			return
		}
		if gap {
			f.worse(unjudged)
		}
		f.statement(strings.Join(text, " "), mods, c, params)
		text, mods, gap = nil, nil, false
	}
	for _, l := range strings.Split(content, "\n") {
		l = strings.TrimSpace(l)
		if l == "-- EOF" {
			break
		}
		switch {
		case l == "":
			end()
		case strings.HasPrefix(l, "-- "):
			if len(text) > 0 {
				f.worse(unjudged)
			}
			mods = append(mods, l[3:])
		default:
			text = append(text, l)
		}
	}
	end()
	if len(mods) > 0 {
		f.worse(unjudged)
	}
	if len(f.stmts) == 0 {
		f.worse(bad)
	}
	for _, s := range f.stmts {
		f.ddl = f.ddl || s.ddl
	}
	return f
}

var csv = regexp.MustCompile(`/\*!csv\s+(\d+)\s+(.+?)\*/`)

func (f *file) statement(text string, mods []string, c cfg, params map[string]string) {
	n, copies := 1, 0
	number := 0
	shared := false
	var ms [][]string
	for _, m := range mods {
		if strings.HasPrefix(m, "copies") {
			if copies++; copies > 1 { // repeated
				f.worse(unjudged)
			}
		}
	}
	for _, m := range mods {
		m = vars(m, params)
		if m == "" {
			f.worse(bad)
			return
		}
		w := strings.Fields(m)
		w[0] = strings.TrimSuffix(w[0], ":")
		if w[0] != "copies" {
			ms = append(ms, w)
			if (w[0] == "prepare" || w[0] == "prepared") && !strings.Contains(text, "/*!copy-number*/") {
				shared = true
			}
			continue
		}
		if len(w) < 2 {
			f.worse(bad)
			return
		}
		if len(w) > 2 {
			f.worse(unjudged)
		}
		v, err := strconv.Atoi(strings.ReplaceAll(w[1], ",", ""))
		if err != nil || v < 0 {
			f.worse(bad)
			return
		}
		n, number = v, 1
	}
	if copies == 0 && strings.Contains(text, "/*!copy-number*/") {
		f.worse(unjudged)
	}
	if n == 0 { // not written
		g := &file{keys: map[string]key{}}
		for k, v := range f.keys {
			g.keys[k] = v
		}
		if _, v := g.one(text, ms, c, 0); v != ok {
			f.worse(unjudged)
		}
		for k, v := range g.keys {
			if f.keys[k] != v && v.column >= 0 {
				f.worse(unjudged)
			}
		}
	}
	for i := 0; i < n; i++ {
		s, v := f.one(text, ms, c, number+i)
		f.worse(v)
		if v != ok {
			return
		}
		if i == 0 && n > 1 && shared {
			s.multi = n
		}
		f.stmts = append(f.stmts, s)
	}
}

func vars(m string, params map[string]string) string {
	for strings.Contains(m, "$params.") {
		i := strings.Index(m, "$params.")
		j := i + 8
		for j < len(m) && isWord(m[j]) {
			j++
		}
		v, ok := params[m[i+8:j]]
		if !ok {
			return ""
		}
		m = m[:i] + v + m[j:]
	}
	return m
}

func (f *file) one(q string, mods [][]string, c cfg, number int) (s stmt, v verdict) {
	worse := func(x verdict) {
		if x > v {
			v = x
		}
	}
	worst := func(x verdict) verdict {
		worse(x)
		return v
	}
	first := q
	for i := range q {
		if !isWord(q[i]) || q[i] == '-' {
			first = q[:i]
			break
		}
	}
	switch strings.ToUpper(first) {
	case "SELECT":
		s.resultSet = true
	case "BEGIN", "START":
		s.begin = true
	case "COMMIT":
		s.commit = true
	case "INSERT", "UPDATE", "DELETE", "REPLACE":
		s.write = true
	case "ALTER", "CREATE", "DROP", "RENAME", "TRUNCATE":
		s.ddl = true
	}
	col := func(name string, i int) {
		if name == "_" {
			return
		}
		if _, dup := f.keys[name]; dup {
			worse(bad)
			return
		}
		if !strings.HasPrefix(name, "@") || strings.Contains(name, ",") || strings.Contains(name, "(") {
			worse(unjudged)
		}
		f.keys[name] = key{gen: "column", scope: c[strings.TrimPrefix(name, "@")].Scope, column: i}
	}
	var limits []limit
	seen := map[string]bool{}
	for _, m := range mods {
		args := m[1:]
		if seen[m[0]] && m[0] != "prepare" { // twice
			worse(unjudged)
		}
		seen[m[0]] = true
		switch m[0] {
		case "prepare", "prepared":
			s.prepare = true
			if len(args) > 0 {
				worse(unjudged)
			}
		case "idle":
			if len(args) < 1 {
				return s, worst(bad)
			}
			d, err := time.ParseDuration(args[0])
			if err != nil {
				return s, worst(bad)
			}
			if len(args) > 1 || d < 0 {
				worse(unjudged)
			}
			s.idle = d
		case "rows":
			if len(args) < 1 {
				return s, worst(bad)
			}
			n, err := strconv.ParseInt(strings.ReplaceAll(args[0], ",", ""), 10, 64)
			if err != nil || n < 0 {
				return s, worst(bad)
			}
			if len(args) > 1 {
				worse(unjudged)
			}
			if n > 0 {
				limits = append(limits, limit{kind: "rows", max: uint64(n)})
			}
		case "table-size", "database-size":
			if len(args) != 2 {
				return s, worst(bad)
			}
			n, err := humanize.ParseBytes(args[1])
			if err != nil {
				return s, worst(bad)
			}
			if n == 0 {
				worse(unjudged)
			}
			limits = append(limits, limit{m[0], args[0], n})
		case "save-insert-id":
			if s.resultSet || len(args) < 1 {
				return s, worst(bad)
			}
			if len(args) > 1 || args[0] == "_" {
				worse(unjudged)
			}
			name := strings.TrimSuffix(args[0], ",")
			col(name, 0)
			s.insertId = name
			s.out = append(s.out, name)
		case "save-columns":
			if len(args) == 0 || !s.resultSet {
				worse(unjudged)
			}
			for i, a := range args {
				name := strings.TrimSuffix(a, ",")
				col(name, i)
				s.out = append(s.out, name)
			}
		default:
			return s, worst(bad)
		}
	}
	if v != ok {
		return
	}
	s.limit = len(limits) > 0
	s.limits = limits
	q = strings.ReplaceAll(q, "/*!copy-number*/", strconv.Itoa(number))
	// CSV
	for {
		m := csv.FindStringSubmatchIndex(q)
		if m == nil {
			break
		}
		n, err := strconv.Atoi(q[m[2]:m[3]])
		if err != nil || n > 1<<31 {
			return s, worst(bad)
		}
		if n == 0 {
			worse(unjudged)
		}
		t := split(strings.TrimSpace(q[m[4]:m[5]]))
		called := map[string]bool{}
		for i := 1; i < len(t); i += 2 {
			k := strings.TrimSuffix(t[i], "()")
			if k == "@PREV" {
				continue
			}
			d, have := c[k[1:]]
			if !have {
				if _, saved := f.keys[k]; saved { // column without configuration
					worse(unjudged)
					continue
				}
				return s, worst(bad)
			}
			if d.Scope != "" && d.Scope != "row" {
				continue
			}
			if _, have := f.keys[k]; !have {
				f.keys[k] = key{gen: d.Generator, scope: "row", column: -1}
			}
			if !called[k] {
				t[i] = k + "()"
			}
			called[k] = true
		}
		row := strings.Join(t, "")
		l := make([]string, n)
		for i := range l {
			l[i] = row
		}
		q = q[:m[0]] + strings.Join(l, ", ") + q[m[1]:]
	}
	// data keys
	parts := split(q)
	prev := ""
	for i := range parts {
		if i%2 == 0 {
			if !s.prepare {
				parts[i] = strings.ReplaceAll(strings.ReplaceAll(parts[i], "%%", "%"), "%", "%%")
			}
			continue
		}
		name := strings.TrimSuffix(parts[i], "()")
		call := byte(0)
		if name != parts[i] {
			call = 1
		}
		s.in = append(s.in, name)
		s.calls = append(s.calls, call)
		k := key{}
		if name == "@PREV" {
			if prev == "" {
				return s, worst(bad)
			}
			k = f.keys[prev]
			if call == 1 || k.gen != "int-range" || (len(s.in) > 1 && s.in[len(s.in)-2] == "@PREV") { // no second or third value
				worse(unjudged)
			}
		} else {
			have := false
			if k, have = f.keys[name]; !have {
				d, conf := c[name[1:]]
				if !conf {
					return s, worst(bad)
				}
				k = key{gen: d.Generator, scope: d.Scope, column: -1}
				if d.Scope == "" {
					k.scope = "statement"
				}
				f.keys[name] = k
				if d.Generator == "column" { // used before it's saved
					worse(unjudged)
				}
			}
			prev = name
		}
		parts[i] = formats[k.gen]
		if k.gen == "column" && c[strings.TrimPrefix(name, "@")].Params["quote-value"] == "yes" {
			parts[i] = "'%v'"
		}
		if s.prepare {
			parts[i] = "?"
		}
	}
	s.query = strings.Join(parts, "")
	return
}

// ---------------------------------------------------------------------------
// Comparison

type bench struct {
	dir  string
	null *os.File

	sizes *sizes
	conn  *sql.Conn

	scope *data.Scope // if not nil, of the stages so far
}

func config1(c cfg) map[string]config.Data {
	m := map[string]config.Data{}
	for k, v := range c {
		if v.Params != nil {
			p := map[string]string{}
			for a, b := range v.Params {
				p[a] = b
			}
			v.Params = p
		}
		m[k] = v
	}
	return m
}

func (b *bench) load(contents []string, c cfg, params map[string]string) (set *trx.Set, err error) {
	var l []config.Trx
	for i, s := range contents {
		n := filepath.Join(b.dir, fmt.Sprintf("f%d.sql", i))
		if err := os.WriteFile(n, []byte(s), 0600); err != nil {
			panic(err)
		}
		l = append(l, config.Trx{Name: fmt.Sprintf("T%d", i), File: n, Data: config1(c)})
	}
	return b.loadTrx(l, params)
}

func (b *bench) loadTrx(l []config.Trx, params map[string]string) (set *trx.Set, err error) {
	out := os.Stdout
	os.Stdout = b.null
	defer func() {
		os.Stdout = out
		if r := recover(); r != nil {
			err = fmt.Errorf("PANIC: %v", r)
		}
	}()
	if b.scope != nil {
		return trx.Load(l, b.scope, params)
	}
	return trx.Load(l, data.NewScope(), params)
}

// sizes is a database server whose tables have the given sizes.
type sizes struct {
	of map[string]uint64 // "database.table"
}

var (
	reSchema = regexp.MustCompile(`(?i)table_schema\s*=\s*'([^']*)'`)
	reTable  = regexp.MustCompile(`(?i)table_name\s*=\s*'([^']*)'`)
	reShow   = regexp.MustCompile("(?i)^SHOW FULL TABLES (?:FROM|IN) `?([^` ]+)`?$")
)

func (z *sizes) answer(e *fakedb.Event) (a fakedb.Answer) {
	one := func(v string) fakedb.Answer {
		return fakedb.Answer{Cols: []string{"v"}, Rows: [][]driver.Value{{[]byte(v)}}}
	}
	if strings.EqualFold(e.SQL, "SELECT DATABASE()") {
		return one("cur")
	}
	if m := reShow.FindStringSubmatch(e.SQL); m != nil {
		a.Cols = []string{"t", "k"}
		for t := range z.of {
			if p := strings.SplitN(t, ".", 2); p[0] == m[1] {
				a.Rows = append(a.Rows, []driver.Value{[]byte(p[1]), []byte("BASE TABLE")})
			}
		}
		return a
	}
	if strings.Contains(e.SQL, "information_schema") {
		sc, tb := reSchema.FindStringSubmatch(e.SQL), reTable.FindStringSubmatch(e.SQL)
		n := uint64(0)
		for t, b := range z.of {
			p := strings.SplitN(t, ".", 2)
			if (sc == nil && p[0] == "cur" || sc != nil && p[0] == sc[1]) && (tb == nil || p[1] == tb[1]) {
				n += b
			}
		}
		return one(strconv.FormatUint(n, 10))
	}
	return a
}

// probe drives the limiter of a statement just below all of its limits and then
// over limit k: the first must allow more data, the second end it, if not at
// once (sizes are measured periodically).
func (b *bench) probe(lm interface {
	Affected(int64)
	More(*sql.Conn) bool
}, limits []limit, k int) string {
	rows := int64(0)
	b.sizes.of = map[string]uint64{}
	set := func(l limit, n uint64) {
		switch l.kind {
		case "rows":
			lm.Affected(int64(n) - rows)
			rows = int64(n)
		case "table-size":
			if !strings.Contains(l.name, ".") {
				l.name = "cur." + l.name
			}
			b.sizes.of[l.name] = n
		case "database-size":
			b.sizes.of[l.name+".t"] = n/2 - n/4
			b.sizes.of[l.name+".u"] = n - (n/2 - n/4)
		}
	}
	for i, l := range limits {
		for _, o := range limits[:i] {
			if o.kind == l.kind || strings.HasPrefix(o.name, l.name+".") || strings.HasPrefix(l.name, o.name+".") {
				return "" // the same rows or tables
			}
		}
		if l.kind == "rows" && l.max == 1 {
			continue
		}
		set(l, l.max-1)
	}
	calls := 8
	for _, l := range limits {
		if l.kind != "rows" && l.max > 100e9 {
			calls = 1001
		}
	}
	for i := 0; i < calls; i++ {
		if !lm.More(b.conn) {
			return fmt.Sprintf("no more data before any limit (call %d)", i+1)
		}
	}
	set(limits[k], limits[k].max)
	for i := 0; i < calls; i++ {
		if !lm.More(b.conn) {
			return ""
		}
	}
	return fmt.Sprintf("%+v does not limit it", limits[k])
}

func show(s *trx.Statement) string {
	return fmt.Sprintf("%q result set %v begin %v commit %v write %v DDL %v prepare %v (%d) idle %s inputs %q calls %v outputs %q insert ID %q limit %v",
		s.Query, s.ResultSet, s.Begin, s.Commit, s.Write, s.DDL, s.Prepare, s.PrepareMulti, s.Idle, s.Inputs, s.Calls, s.Outputs, s.InsertId, s.Limit != nil)
}

func (s stmt) String() string {
	return fmt.Sprintf("%q result set %v begin %v commit %v write %v DDL %v prepare %v (%d) idle %s inputs %q calls %v outputs %q insert ID %q limit %v",
		s.query, s.resultSet, s.begin, s.commit, s.write, s.ddl, s.prepare, s.multi, s.idle, s.in, s.calls, s.out, s.insertId, s.limit)
}

func (b *bench) check(c *report.Ctx, contents []string, cf cfg, params map[string]string, group string) bool {
	keys := map[string]key{}
	var want []*file
	v := ok
	for _, s := range contents {
		f := parse(s, cf, params, keys)
		want = append(want, f)
		if f.v > v {
			v = f.v
		}
		if f.v != ok {
			break
		}
	}
	set, err := b.load(contents, cf, params)
	desc := fmt.Sprintf("%s\ndata: %v params: %v", strings.Join(contents, "\n=== next file\n"), cf, params)
	c.Case(desc)
	fail := func(f string, a ...interface{}) bool {
		c.Violate(group, fmt.Sprintf(f, a...)+"\nfile:\n"+desc, desc)
		return false
	}
	if err != nil && strings.HasPrefix(err.Error(), "PANIC") {
		return fail("%s", err)
	}
	if v == unjudged || reAdjacent.MatchString(desc) {
		return true
	}
	if err != nil && strings.Contains(err.Error(), "not referenced") && v == ok {
		// saved columns that no statement uses
		used := map[string]bool{}
		for _, f := range want {
			for _, s := range f.stmts {
				for _, k := range s.in {
					used[k] = true
				}
			}
		}
		for n, k := range keys {
			if k.column >= 0 && !used[n] {
				return true
			}
		}
		// used only in another file
		if len(contents) > 1 {
			return true
		}
	}
	if (err != nil) != (v == bad) {
		return fail("error %v; must be one: %v", err, v == bad)
	}
	if err != nil {
		return true
	}
	if len(set.Order) != len(contents) {
		return fail("trx in order %v", set.Order)
	}
	for i, f := range want {
		name := fmt.Sprintf("T%d", i)
		got := set.Statements[name]
		l := ""
		for _, s := range got {
			l += show(s) + "\n"
		}
		w := ""
		for _, s := range f.stmts {
			w += s.String() + "\n"
		}
		if l != w {
			return fail("file %d: statements:\n%smust be:\n%s", i+1, l, w)
		}
		if set.Meta[name].DDL != f.ddl || set.Order[i] != name {
			return fail("trx %d is %s, DDL %v; must be %s, %v", i+1, set.Order[i], set.Meta[name].DDL, name, f.ddl)
		}
		for j, s := range f.stmts {
			if got[j].Trx != name {
				return fail("statement %d is of trx %q", j+1, got[j].Trx)
			}
			for k := range s.limits {
				if k > 0 { // nothing reached yet
					if set, err = b.load(contents, cf, params); err != nil {
						return fail("second load: %s", err)
					}
					got = set.Statements[name]
				}
				if m := b.probe(got[j].Limit, s.limits, k); m != "" {
					return fail("statement %d with limits %+v: %s", j+1, s.limits, m)
				}
			}
		}
	}
	for n, k := range keys {
		g, have := set.Data.Keys[n]
		if !have || g.Generator.Name() != k.gen || g.Column != k.column && !(k.column >= 0 && g.Column >= 0) || k.scope != "" && g.Scope != k.scope {
			return fail("data key %s: %+v; must be %+v", n, g, k)
		}
	}
	return true
}

// ---------------------------------------------------------------------------
// Files

var stdCfg = cfg{
	"d":  {Generator: "int"},
	"de": {Generator: "int-range"},
	"s":  {Generator: "str-fill-az", Params: map[string]string{"len": "5"}},
	"t":  {Generator: "int", Scope: "trx"},
	"r":  {Generator: "int", Scope: "row"},
	"v":  {Generator: "xid", Scope: "value"},
	"c":  {Generator: "column"},
	"q":  {Generator: "column", Scope: "client", Params: map[string]string{"quote-value": "yes"}},
}

var lineKinds = []string{
	"", " \t", "SELECT c FROM t WHERE id = @d", " insert INTO t", "VALUES (@s, '5%') ", "begin", "COMMIT",
	"-- prepare", "-- rows: 2", "-- copies: 2", "-- copies: 0", "-- EOF", "-- save-columns: @c, _", "UPDATE t SET c = @c",
	"CREATE TABLE t/*!copy-number*/ (a int)", "-- idle: 5ms", "/*!csv 2 (@d, @t)*/", "-- nope",
	"-- save-insert-id: @q", "DELETE FROM t WHERE a = @q OR a BETWEEN @de AND @PREV",
}

// lines: all files of lines starting with one.
func lines(b *bench, first int) func(c *report.Ctx) {
	return func(c *report.Ctx) {
		max := c.Pick(4, 5)
		var rec func(n int, s string) bool
		rec = func(n int, s string) bool {
			if c.TimeUp() {
				return false
			}
			if !b.check(c, []string{s}, stdCfg, nil, "lines") {
				return false
			}
			if n == max {
				return true
			}
			for _, l := range lineKinds {
				if !rec(n+1, s+"\n"+l) {
					return false
				}
			}
			return true
		}
		rec(1, lineKinds[first])
	}
}

var modifiers = []string{
	"prepare", "prepared", "idle: 1s", "idle", "idle: 5", "idle 2ms", "rows: 3", "rows: 1,000", "rows", "rows: x", "rows: -1", "rows: 0", "rows: 1.5", "rows: $params.n",
	"rows: $params.nope", "table-size: t 1MB", "table-size: db.t 5.1GB", "table-size: t", "table-size", "table-size: t x", "database-size: db 2TiB", "database-size: db", "database-size: db 1 GB",
	"save-insert-id: @c", "save-insert-id", "save-insert-id: @d2", "save-columns: @c", "save-columns: @c, _, @q", "save-columns: _, _", "save-columns: @c @q", "save-columns: @c, @c", "save-columns:",
	"copies: 1", "copies: 3", "copies: 0", "copies", "copies: x", "copies: -1", "copies: $params.n", "nope", "nope: 1", "Prepare", "prepare:", "save-result: @c",
}

var modStmts = []string{"SELECT c FROM t WHERE id = @d", "INSERT INTO t VALUES (@d, '%d')", "START TRANSACTION", "CREATE TABLE t/*!copy-number*/ (a INT)", "UPDATE t/*!copy-number*/ SET\na = @de, b = @PREV", "REPLACE INTO t VALUES /*!csv 2 (@d, @s)*/"}

// mods: all sequences of modifiers on a statement, starting with one.
func mods(b *bench, first int) func(c *report.Ctx) {
	return func(c *report.Ctx) {
		max := c.Pick(3, 4)
		var rec func(n int, s string) bool
		rec = func(n int, s string) bool {
			if c.TimeUp() {
				return false
			}
			for i, st := range modStmts {
				if n == max && i > 1 && !c.Thorough() {
					break
				}
				tail := "\n\nUPDATE t SET a = 1 WHERE b = '1'"
				if strings.Contains(s, "@c") || strings.Contains(s, "@q") || strings.Contains(s, "@d2") {
					tail = "\n\nUPDATE t SET a = @c WHERE b = @q"
					if !strings.Contains(s, "@q") {
						tail = "\n\nUPDATE t SET a = @c"
					}
					if strings.Contains(s, "@d2") {
						tail += ", x = @d2"
					}
				}
				if !b.check(c, []string{s + st + tail}, stdCfg, map[string]string{"n": "4"}, "modifiers") {
					return false
				}
			}
			if n == max {
				return true
			}
			for _, m := range modifiers {
				if !rec(n+1, s+"-- "+m+"\n") {
					return false
				}
			}
			return true
		}
		rec(1, "-- "+modifiers[first]+"\n")
	}
}

// reAdjacent matches an explicit call that is directly followed by something
// that could be part of the key or another call, and @PREV directly after the
// key it refers to: nobody writes that, and it is not judged.
var reAdjacent = regexp.MustCompile(`\(\)(\(\)|[\w-]|/\*!copy-number)|@[\w-]+(\(\))?@PREV`)

var textTokens = []string{"@d", "@d()", "@de", "@de()", "@PREV", "@s", "@t", "@r", "@r()", "@v", "@c", "@q()", "@no", "%", "%%", ", ", "'", "(", "()", ")", "@", "1", "é", "/*!csv 2 (@d,@d)*/", "/*!csv 1 (@r, @r())*/", "/*!csv 3 (@de,@PREV, @t)*/", "/*!copy-number*/"}

// texts: statements of all sequences of tokens, starting with one.
func texts(b *bench, first int) func(c *report.Ctx) {
	return func(c *report.Ctx) {
		max := c.Pick(3, 4)
		var rec func(n int, s string) bool
		rec = func(n int, s string) bool {
			if c.TimeUp() {
				return false
			}
			for _, pre := range []string{"", "-- prepare\n", "-- copies: 2\n", "-- copies: 2\n-- prepare\n"} {
				if n == max && pre != "" && pre != "-- prepare\n" && !c.Thorough() {
					continue
				}
				f := "-- save-columns: @c, @q\nSELECT 1\n\n" + pre + "SELECT " + s + "\n\nUPDATE t SET a = @c, b = @q, d = @d"
				if !b.check(c, []string{f}, stdCfg, nil, "text") {
					return false
				}
			}
			if n == max {
				return true
			}
			for _, t := range textTokens {
				if !rec(n+1, s+t) {
					return false
				}
			}
			return true
		}
		rec(1, textTokens[first])
	}
}

// csvs: templates, numbers of rows and scopes.
func csvs(b *bench) func(c *report.Ctx) {
	return func(c *report.Ctx) {
		toks := []string{"@a", "@b", "@a()", "@ab", "NULL", "'x*'"}
		enum.All(func(ch *enum.Ch) bool {
			cf := cfg{}
			for _, k := range []string{"a", "b", "ab"} {
				cf[k] = config.Data{Generator: []string{"int", "str-fill-az"}[len(k)-1], Scope: []string{"", "row", "statement", "client"}[ch.Choose(4)], Params: map[string]string{"len": "3", "max": "9"}}
			}
			n := []string{"2", "3", "1", "99999999999"}[ch.Choose(c.Pick(2, 4))]
			var cols []string
			for i := 1 + ch.Choose(c.Pick(3, 4)); i > 0; i-- {
				cols = append(cols, toks[ch.Choose(len(toks))])
			}
			if !strings.Contains(strings.Join(cols, ""), "@") {
				return true
			}
			pre := []string{"", "-- prepare\n"}[ch.Choose(2)]
			f := []string{"INSERT INTO t VALUES ", "SELECT @a, "}[ch.Choose(2)] + []string{"/*!csv " + n + " (" + strings.Join(cols, ", ") + ")*/", "/*!csv  " + n + "   (" + strings.Join(cols, ",") + ")  */ x @ab"}[ch.Choose(2)]
			return b.check(c, []string{pre + f}, cf, nil, "csv") && !c.TimeUp()
		})
	}
}

// pairs: two files, and three.
func pairs(b *bench) func(c *report.Ctx) {
	return func(c *report.Ctx) {
		fs := []string{
			"SELECT 1", "SELECT @d", "-- prepare\nSELECT @d", "INSERT INTO t VALUES /*!csv 2 (@d)*/", "BEGIN\n\nSELECT @t\n\nCOMMIT", "CREATE TABLE t (a int)", "-- copies: 2\nDROP TABLE t/*!copy-number*/",
			"-- copies: 0\nCREATE TABLE t (a int)\n\nSELECT 1", "-- save-columns: @c\nSELECT 1\n\nSELECT @c", "-- save-insert-id: @q\nINSERT INTO t VALUES (1)\n\nDELETE FROM t WHERE a = @q",
			"-- rows: 2\nINSERT INTO t VALUES (@s)", "SELECT 1\n\n-- EOF\nnot SQL", "SELECT 1\n\n-- rows: 5", "-- save-columns: _\nSELECT 1", "SELECT @de, @PREV", "SELECT @c", "SELECT @q",
			"", "-- nope\nSELECT 1", "SELECT @no", "-- copies: 3\n-- prepare\nSELECT @v", "SELECT '5%'\n\nSELECT @r, @r", "SELECT /*!csv 1 (@r, @d)*/",
		}
		for n := 2; n <= 3; n++ {
			enum.All(func(ch *enum.Ch) bool {
				var l []string
				for i := 0; i < n; i++ {
					l = append(l, fs[ch.Choose(len(fs))])
				}
				return b.check(c, l, stdCfg, nil, "several files") && !c.TimeUp()
			})
		}
	}
}

// files: how the file is written and read.
func files(b *bench) func(c *report.Ctx) {
	return func(c *report.Ctx) {
		long := strings.Repeat("x", 70000)
		big := strings.Repeat("y ", 1<<21)
		for _, s := range []string{
			"SELECT 1\r\n\r\nSELECT 2\r\n", "SELECT 1\n\n\n\n\nSELECT 2\n\n\n", "\n\n\nSELECT 1", "\tSELECT 1 \n  ,2\t\n", "SELECT '" + long + "'\n\nSELECT 2", "SELECT '" + big + "z'",
			"SELECT 1\n" + strings.Repeat(", 2\n", 3000), strings.Repeat("SELECT @d\n\n", 3000), "-- EOF", "-- EOF\nSELECT 1", "SELECT 1\n-- EOF\nx", "SELECT 1\n-- EOF ", "SELECT 1\n\n-- EOF2\nSELECT 2", "\n", "\n\n \n",
			"-- rows: 5", "SELECT 1\n\n-- prepare\n", "SELECT 1 -- comment\n", "SELECT 1 /* @d */", "SELECT 1\v", "SELECT \x00", "SELECT é @d",
			"-- rows: $params.n\nINSERT INTO t VALUES (@d)", "-- table-size: $params.t 1MB\nINSERT INTO t VALUES (@d)", "-- copies: $params.n\nSELECT /*!copy-number*/", "-- copies: 1,000\nSELECT @d", "SELECT /*!csv 1 (@d)*/", "SELECT /*!csv 99999999999 (@d)*/", "-- idle: $params.i\nSELECT 1",
			"INSERT INTO t VALUES /*!csv 1000 (@d, @s, @r)*/", "INSERT INTO t VALUES /*!csv 2 (1, @d)*/, /*!csv 3 (2, @s)*/", "INSERT INTO t VALUES /*!csv 2 (@d,\n@s)*/",
		} {
			if !b.check(c, []string{s}, stdCfg, map[string]string{"n": "2", "t": "db.t", "i": "20ms"}, "file") {
				return
			}
		}
		// not readable: an error
		for _, n := range []string{b.dir, filepath.Join(b.dir, "none.sql"), ""} {
			_, err := b.loadTrx([]config.Trx{{Name: "A", File: n}}, nil)
			c.Case("file " + n)
			if err == nil || strings.HasPrefix(err.Error(), "PANIC") {
				c.Violate("unreadable file", fmt.Sprintf("file %q: error %v", n, err), n)
				return
			}
		}
		// configuration of a key with different generators in two files
		var l []config.Trx
		for i, g := range []string{"int", "str-fill-az"} {
			n := filepath.Join(b.dir, fmt.Sprintf("g%d.sql", i))
			os.WriteFile(n, []byte("SELECT @d"), 0600)
			l = append(l, config.Trx{Name: g, File: n, Data: map[string]config.Data{"d": {Generator: g, Params: map[string]string{"len": "3"}}}})
		}
		set, err := b.loadTrx(l, nil)
		c.Case("different generators")
		if err == nil {
			if q := set.Statements["str-fill-az"][0].Query; q != "SELECT '%s'" {
				c.Violate("a data key configured differently in two trx files", fmt.Sprintf("@d is generator int in one trx file and str-fill-az in another: the latter's statement is %q: it uses the former's generator, and that is no error", q), nil)
			}
		}
	}
}

// words: classification of statements by their first word.
func words(b *bench) func(c *report.Ctx) {
	return func(c *report.Ctx) {
		for _, w := range []string{"select", "begin", "start", "commit", "rollback", "insert", "update", "delete", "replace", "alter", "create", "drop", "rename", "truncate",
			"set", "use", "call", "show", "analyze", "lock", "unlock", "flush", "do", "with", "savepoint", "selected", "inserts", "creates", "dropped", "beginning", "grant", "load", "1", "(1"} {
			for _, f := range []func(string) string{strings.ToLower, strings.ToUpper, func(s string) string { return strings.ToUpper(s[:1]) + s[1:] }} {
				for _, sep := range []string{"", " ", "\t", "\n", ";", " ;", "(", "/* c */", "-- c", "\n-- c\n"} {
					for _, rest := range []string{"", "x", "TRANSACTION", "@d", "select", "'5%'"} {
						for _, pre := range []string{"", " ", "\t", "\n", "-- prepare\n", "-- save-insert-id: @c\n", "-- copies: 2\n", "SELECT 1\n\n", "SELECT\n", "DROP TABLE t\n\n"} {
							s := pre + f(w) + sep + rest
							if strings.Contains(s, "@c") {
								s += "\n\nSELECT @c"
							}
							if c.TimeUp() || !b.check(c, []string{s}, stdCfg, nil, "first words") {
								return
							}
						}
					}
				}
			}
		}
	}
}

// stages: what a stage parses has no effect on the stages after it (except global
// data keys, which have the same configuration here).
func stages(b *bench) func(c *report.Ctx) {
	return func(c *report.Ctx) {
		cf := cfg{}
		for k, v := range stdCfg {
			cf[k] = v
		}
		for _, sc := range []string{"statement", "iter", "client", "client-group", "exec-group", "workload", "stage", "global"} {
			cf[strings.ReplaceAll(sc, "-", "")] = config.Data{Generator: "int", Scope: sc}
		}
		texts := []string{
			"SELECT @d, @de, @PREV, @s, @t, @v",
			"SELECT @statement, @iter, @client, @clientgroup, @execgroup, @workload, @stage, @global",
			"-- save-columns: @c\nSELECT c FROM t\n\nUPDATE t SET a = @c",
			"-- save-columns: @x, @y, @z, @q\nSELECT x, y, z, q FROM t\n\nUPDATE t SET a = @x, b = @y, c = @z, d = @q",
			"-- save-columns: _, @x, _, @d\nSELECT 1, x, 2, d FROM t\n\nUPDATE t SET a = @x, b = @d",
			"-- save-insert-id: @q\nINSERT INTO t VALUES (@r)\n\nDELETE FROM t WHERE a = @q",
			"-- save-insert-id: @d\nINSERT INTO t VALUES (@r)\n\nDELETE FROM t WHERE a = @d",
			"INSERT INTO t VALUES /*!csv 3 (@d, @t, @r)*/",
			"-- prepare\n-- copies: 3\nSELECT @d, /*!copy-number*/, @global",
			"SELECT @statement\n\n-- idle: 5ms\nx\n\nCREATE TABLE t (a int)",
		}
		out := func(set *trx.Set, err error) string {
			if err != nil {
				return "error: " + err.Error()
			}
			o := ""
			for _, n := range set.Order {
				o += fmt.Sprintf("%s DDL %v\n", n, set.Meta[n].DDL)
				for _, s := range set.Statements[n] {
					o += show(s) + "\n"
				}
			}
			var ks []string
			for n, k := range set.Data.Keys {
				if k.Scope != "global" {
					ks = append(ks, fmt.Sprintf("%s: %s %d %s statement %d of %s, generator %s", n, k.Name, k.Column, k.Scope, k.Statement, k.Trx, k.Generator.Name()))
				}
			}
			sort.Strings(ks)
			return o + strings.Join(ks, "\n")
		}
		defer func() { b.scope = nil }()
		var rec func(list []string, depth int) bool
		rec = func(list []string, depth int) bool {
			b.scope = nil
			want := out(b.load(list[len(list)-1:], cf, nil))
			b.scope = data.NewScope()
			got := ""
			for _, s := range list {
				b.scope.Reset()
				got = out(b.load([]string{s}, cf, nil))
			}
			c.Case(strings.Join(list, "\n==\n"))
			if got != want {
				c.Violate("stages", fmt.Sprintf("the last stage's file is parsed to\n%s\n; parsed alone\n%s\nstages' files:\n%s", got, want, strings.Join(list, "\n=== next stage\n")), list)
				return false
			}
			if depth == 0 || c.TimeUp() {
				return true
			}
			for _, s := range texts {
				if !rec(append(list[:len(list):len(list)], s), depth-1) {
					return false
				}
			}
			return true
		}
		for _, s := range texts {
			if !rec([]string{s}, c.Pick(2, 3)) {
				return
			}
		}
	}
}

func TestC26(t *testing.T) {
	dir, err := os.MkdirTemp("", "verif-trx")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	z := &sizes{}
	conn, err := (&fakedb.DB{Answer: z.answer}).Sql().Conn(context.Background())
	if err != nil {
		t.Fatal(err)
	}
	b := &bench{dir: dir, null: null, sizes: z, conn: conn}
	us := []report.Unit{
		{Name: "files", Run: files(b)},
		{Name: "csv", Run: csvs(b)},
		{Name: "first words", Run: words(b)},
		{Name: "several files", Run: pairs(b)},
		{Name: "several stages", Run: stages(b)},
	}
	for i, l := range lineKinds {
		us = append(us, report.Unit{Name: fmt.Sprintf("lines starting with %q", l), Run: lines(b, i)})
	}
	for i, m := range modifiers {
		us = append(us, report.Unit{Name: fmt.Sprintf("modifiers starting with %q", m), Run: mods(b, i)})
	}
	for i, m := range textTokens {
		us = append(us, report.Unit{Name: fmt.Sprintf("texts starting with %q", m), Run: texts(b, i)})
	}
	report.Main(t, report.Check{
		ID:    "C26",
		Level: "exploration",
		Rule:  "evaluation = one or more transaction files loaded by the real parser and compared with a reference parser; distinct = by content and configuration",
		Assumptions: []string{
			"not judged: modifiers not immediately before a statement, repeated modifiers and surplus arguments, columns used before they are saved or never",
		},
		Units: us,
	})
}
