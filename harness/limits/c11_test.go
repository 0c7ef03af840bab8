package limits

import (
	"context"
	"database/sql/driver"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/square/finch/config"
	"github.com/square/finch/data"

	"finchverif/fakedb"
	"finchverif/fin"
	"finchverif/report"
	"finchverif/vsched"
)

// stmt is one statement of the trx file.
type stmt struct {
	sql     string // without modifiers
	prep    bool
	limited bool
	rows    int // row limit, 0: none
	offset  int
	size    string // "table t 5000", "database db1 5000"
	max     uint64 // bytes
	target  string // table that grows
}

func (s stmt) src() string {
	m := ""
	if s.prep {
		m += "-- prepare\n"
	}
	if s.rows > 0 {
		m += fmt.Sprintf("-- rows: %d", s.rows)
		if s.offset > 0 {
			m += fmt.Sprintf(" %d", s.offset)
		}
		m += "\n"
	}
	if s.size != "" {
		f := strings.Fields(s.size)
		m += fmt.Sprintf("-- %s-size: %s %s\n", f[0], f[1], f[2])
	}
	return m + s.sql + "\n"
}

type load struct {
	stmts    []stmt
	clients  []int // per client group
	exec     string
	affected []int // of the n-th execution of limited statements, cyclic; 1<<8|code: error
	grow     int   // bytes per affected row
	delay    time.Duration
	initial  map[string]int // table sizes
	views    map[string]bool
	iter     int
	csv      int
	bad      string // statements that fail: "show", "current", "analyze", "size"
	badFrom  int    // from this one on (1-based)
	badN     int    // and how many
}

func (l load) String() string {
	var b strings.Builder
	for _, s := range l.stmts {
		b.WriteString(s.src() + "\n")
	}
	return fmt.Sprintf("%sclients %v affected %v grow %d initial %v iter %d fail %s %d %d", b.String(), l.clients, l.affected, l.grow, l.initial, l.iter, l.bad, l.badFrom, l.badN)
}

func (l load) cfg(c *report.Ctx) config.Stage {
	y := "stage:\n  name: s\n  mysql:\n    db: db1\n  trx:\n    - file: t.sql\n  workload:\n"
	for _, n := range l.clients {
		y += fmt.Sprintf("    - clients: %d\n      group: e\n      db: db1\n", n)
		if l.iter > 0 {
			y += fmt.Sprintf("      iter: %d\n", l.iter)
		}
	}
	var f []string
	for _, s := range l.stmts {
		f = append(f, s.src())
	}
	return fin.Load(c.T, y, map[string]string{"t.sql": strings.Join(f, "\n")})
}

// server is a stand-in for MySQL that knows table sizes: statistics are only
// updated by ANALYZE TABLE.
type server struct {
	l       load
	real    map[string]int
	stat    map[string]int
	db      map[int]string
	n       int
	unknown string
	meas    []measure
	execs   []execution
	tried   map[string]int
	failed  bool // a statement that measures failed
	after   int  // executions since then
}

type measure struct {
	seq  int
	what string
	size uint64
	max  uint64 // of the limit it belongs to
}

type execution struct {
	seq, conn, stmt, affected int
	failed                    bool
	size                      uint64 // of the limit's table or database afterwards
}

var (
	reSchema = regexp.MustCompile("(?i)table_schema\\s*=\\s*'([^']*)'")
	reTable  = regexp.MustCompile("(?i)table_name\\s*=\\s*'([^']*)'")
	reAnTbl  = regexp.MustCompile("(?i)^ANALYZE (?:NO_WRITE_TO_BINLOG |LOCAL )?TABLE (.*)$")
	reShow   = regexp.MustCompile("(?i)^SHOW FULL TABLES (?:FROM|IN) `?([^` ]+)`?$")
)

func (s *server) names() []string {
	var l []string
	for t := range s.real {
		l = append(l, t)
	}
	sort.Strings(l)
	return l
}

func (s *server) sizeOf(st stmt) uint64 {
	f := strings.Fields(st.size)
	if len(f) == 0 {
		return 0
	}
	n := 0
	for t, b := range s.real {
		if f[0] == "database" && strings.HasPrefix(t, f[1]+".") || f[0] == "table" && (t == f[1] || t == "db1."+f[1]) {
			n += b
		}
	}
	return uint64(n)
}

func (s *server) answer(e *fakedb.Event) (a fakedb.Answer) {
	q := strings.TrimSpace(strings.TrimSuffix(strings.TrimSpace(e.SQL), ";"))
	switch e.Kind {
	case "connect", "ping", "prepare", "close", "sclose":
		return a
	}
	if strings.HasPrefix(q, "USE ") {
		s.db[e.Conn] = strings.Trim(q[4:], "`")
		return a
	}
	kind := ""
	switch {
	case strings.EqualFold(q, "SELECT DATABASE()"):
		kind = "current"
	case reShow.MatchString(q):
		kind = "show"
	case reAnTbl.MatchString(q):
		kind = "analyze"
	case strings.Contains(strings.ToLower(q), "information_schema"):
		kind = "size"
	}
	if kind != "" && kind == s.l.bad {
		if s.tried == nil {
			s.tried = map[string]int{}
		}
		s.tried[kind]++
		if n := s.tried[kind]; n >= s.l.badFrom && n < s.l.badFrom+s.l.badN {
			s.failed = true
			a.Err = fakedb.MyErr(1142)
			return a
		}
	}
	if s.failed && kind == "" && strings.HasPrefix(q, "INSERT") {
		if s.after++; s.after > 5000 {
			panic("still loading")
		}
	}
	if strings.EqualFold(q, "SELECT DATABASE()") {
		if s.db[e.Conn] == "" {
			return fakedb.Answer{Cols: []string{"d"}, Rows: [][]driver.Value{{nil}}}
		}
		return fin.OneRow([]byte(s.db[e.Conn]))
	}
	if m := reShow.FindStringSubmatch(q); m != nil {
		a.Cols = []string{"Tables_in_" + m[1], "Table_type"}
		for _, t := range s.names() {
			if p := strings.SplitN(t, ".", 2); p[0] == m[1] {
				k := "BASE TABLE"
				if s.l.views[t] {
					k = "VIEW"
				}
				a.Rows = append(a.Rows, []driver.Value{[]byte(p[1]), []byte(k)})
			}
		}
		return a
	}
	if m := reAnTbl.FindStringSubmatch(q); m != nil {
		for _, t := range strings.Split(m[1], ",") {
			t = strings.ReplaceAll(strings.TrimSpace(t), "`", "")
			if !strings.Contains(t, ".") {
				t = s.db[e.Conn] + "." + t
			}
			if _, ok := s.real[t]; !ok || s.l.views[t] {
				a.Err = fakedb.MyErr(1146)
				return a
			}
			s.stat[t] = s.real[t]
		}
		return a
	}
	if strings.Contains(strings.ToLower(q), "information_schema") {
		sc := reSchema.FindStringSubmatch(q)
		tb := reTable.FindStringSubmatch(q)
		if sc == nil && strings.Contains(strings.ToLower(q), "database()") {
			sc = []string{"", s.db[e.Conn]}
		}
		if sc == nil {
			s.unknown = q
			a.Err = fakedb.MyErr(1064)
			return a
		}
		sum := strings.Contains(strings.ToUpper(q), "SUM(")
		total, rows := 0, 0
		a.Cols = []string{"bytes"}
		for _, t := range s.names() {
			p := strings.SplitN(t, ".", 2)
			if p[0] != sc[1] || tb != nil && p[1] != tb[1] {
				continue
			}
			if !s.l.views[t] {
				total += s.stat[t]
			}
			rows++
			if !sum {
				a.Rows = append(a.Rows, []driver.Value{[]byte(fmt.Sprint(s.stat[t]))})
			}
		}
		if sum {
			a.Rows = [][]driver.Value{{[]byte(fmt.Sprint(total))}}
		}
		what := "database " + sc[1]
		if tb != nil {
			what = "table " + sc[1] + "." + tb[1]
		}
		s.meas = append(s.meas, measure{seq: e.Seq, what: what, size: uint64(total)})
		return a
	}
	a.Delay = s.l.delay
	for i, st := range s.l.stmts {
		if st.sql != q {
			continue
		}
		if !st.limited {
			if strings.HasPrefix(q, "SELECT") {
				return fin.OneRow("1")
			}
			return a
		}
		n := s.l.affected[s.n%len(s.l.affected)]
		s.n++
		x := execution{seq: e.Seq, conn: e.Conn, stmt: i, affected: n}
		if n >= 256 {
			a.Err = fakedb.MyErr(uint16(n >> 8))
			x.affected, x.failed = 0, true
		} else {
			a.Affected = int64(n)
			s.real[st.target] += n * s.l.grow
		}
		x.size = s.sizeOf(st)
		s.execs = append(s.execs, x)
		return a
	}
	if q != "ROLLBACK" {
		s.unknown = q
	}
	return a
}

func fault(code int) int { return code << 8 }

// judge checks the executions of every limited statement.
func (s *server) judge(evs []fakedb.Event, ended bool) string {
	if s.unknown != "" {
		return "unexpected statement: " + s.unknown
	}
	clients := 0
	for _, n := range s.l.clients {
		clients += n
	}
	// previous event of a connection, and first event after one
	byConn := map[int][]int{}
	for _, e := range evs {
		byConn[e.Conn] = append(byConn[e.Conn], e.Seq)
	}
	// the client checked the limit after its last event that isn't part of checking
	check := map[int]bool{}
	for _, e := range evs {
		q := strings.ToUpper(e.SQL)
		if strings.Contains(q, "INFORMATION_SCHEMA") || strings.HasPrefix(q, "ANALYZE") || strings.HasPrefix(q, "SHOW FULL") || q == "SELECT DATABASE()" {
			check[e.Seq] = true
		}
	}
	prevEv := func(conn, seq int) int {
		p := -1
		for _, q := range byConn[conn] {
			if q < seq && !check[q] {
				p = q
			}
		}
		return p
	}
	nextEv := func(conn, seq int) int {
		for _, q := range byConn[conn] {
			if q > seq {
				return q
			}
		}
		return 1 << 30
	}
	someReached := false
	for i, st := range s.l.stmts {
		if !st.limited {
			continue
		}
		var xs []execution
		for _, x := range s.execs {
			if x.stmt == i {
				xs = append(xs, x)
			}
		}
		if st.rows > 0 {
			total := st.offset
			for j, x := range xs {
				p := prevEv(x.conn, x.seq)
				known := st.offset
				for _, y := range xs[:j] {
					if y.conn == x.conn || nextEv(y.conn, y.seq) < p {
						known += y.affected
					}
				}
				if known >= st.rows {
					return fmt.Sprintf("statement %d is executed (execution %d) when %d rows of at most %d were already reported", i+1, j+1, known, st.rows)
				}
				total += x.affected
			}
			if total >= st.rows {
				someReached = true
			}
		}
		if st.size != "" {
			f := strings.Fields(st.size)
			what := f[0] + " " + f[1]
			if f[0] == "table" && !strings.Contains(f[1], ".") {
				what = "table db1." + f[1]
			}
			for _, m := range s.meas {
				if m.what != what || m.size < st.max {
					continue
				}
				someReached = true
				for _, x := range xs {
					if x.seq > m.seq && prevEv(x.conn, x.seq) > m.seq {
						return fmt.Sprintf("statement %d is executed after %s was measured with %d bytes, limit %d", i+1, what, m.size, st.max)
					}
				}
			}
			// checked often enough
			every := 6
			if st.max > 1<<30 {
				every = 10
			}
			if st.max >= 100<<30 {
				every = 2000
			}
			over := 0
			for _, x := range xs {
				if x.size >= st.max && !x.failed {
					over++
				}
			}
			if s.l.bad != "" && s.l.badN < 100 { // one measurement may be missing
				every *= 2
			}
			if s.l.badN >= 100 && s.after > every+clients+1 {
				return fmt.Sprintf("statement %d is executed %d times although %s cannot be measured", i+1, s.after, what)
			}
			if over > every+clients+1 {
				return fmt.Sprintf("statement %d is executed %d times although %s already has its limit of %d bytes", i+1, over, what, st.max)
			}
		}
	}
	if ended && !someReached && s.l.iter == 0 && !s.failed {
		return "the clients stopped before any limit was reached"
	}
	return ""
}

func (l load) scenario(cfg config.Stage, name string, bound int) *vsched.Scenario {
	return &vsched.Scenario{
		Opts: vsched.Opts{Name: name, Bound: bound, Background: true, MaxSteps: 200000},
		New: func() (func(), func(vsched.Run) (string, string)) {
			s := &server{l: l, real: map[string]int{}, stat: map[string]int{}, db: map[int]string{}}
			for t, n := range l.initial {
				s.real[t] = n
				s.stat[t] = n / 2
			}
			db := &fakedb.DB{Answer: s.answer}
			vsched.OpenDB = db.OpenFn()
			var err error
			body := func() {
				ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
				defer cancel()
				err = fin.RunStage(ctx, cfg, data.NewScope(), nil)
			}
			return body, func(r vsched.Run) (string, string) {
				if err != nil {
					return "err", "stage failed: " + err.Error()
				}
				if r.Deadlock || r.Livelock || r.Elapsed > 50*time.Minute {
					v := s.judge(db.Events(), false)
					if v == "" {
						v = "the stage does not end although a limit was reached"
					}
					return "stuck", v + "\n" + l.String()
				}
				v := s.judge(db.Events(), true)
				if v != "" {
					v += "\n" + l.String()
				}
				var o []string
				for _, x := range s.execs {
					o = append(o, fmt.Sprintf("c%d:%d+%d", x.conn, x.stmt, x.affected))
				}
				return strings.Join(o, " "), v
			}
		},
	}
}

func TestC11(t *testing.T) {
	ms := time.Millisecond
	one := func(c *report.Ctx, l load) {
		if c.TimeUp() || c.Violated() {
			return
		}
		sc := l.scenario(l.cfg(c), "one", 0)
		st, f := vsched.Explore(c.T, sc)
		c.State(st.States, st.Transitions, st.Executions)
		for o := range st.Outcomes {
			c.Case(l.String() + o)
		}
		if f != nil {
			c.Violate(strings.SplitN(f.Msg, "\n", 2)[0], f.Msg, map[string]interface{}{"load": l.String()})
		}
	}
	ins := func(rows, offset int) stmt {
		return stmt{sql: "INSERT INTO t VALUES (1)", limited: true, rows: rows, offset: offset, target: "db1.t"}
	}
	other := stmt{sql: "UPDATE u SET a = 1"}
	sel := stmt{sql: "SELECT a FROM u"}
	tables := map[string]int{"db1.t": 0, "db1.u": 0}
	var units []report.Unit
	units = append(units, report.Unit{Name: "rows", Run: func(c *report.Ctx) {
		for n := 1; n <= c.Pick(6, 12); n++ {
			for off := 0; off <= c.Pick(3, 5); off++ {
				for _, aff := range [][]int{{1}, {2}, {3}, {0, 1}, {1, 4, 2}, {fault(1213), 1}, {1, fault(1062)}, {2, fault(1205), 1}} {
					for _, cl := range [][]int{{1}, {2}, {3}, {1, 1}, {2, 1}} {
						prep := ins(n, off)
						prep.prep = true
						for k, ss := range [][]stmt{{ins(n, off)}, {prep}, {other, ins(n, off)}, {ins(n, off), sel, other}} {
							d := 1 * ms
							if k == 0 {
								d = 0
							}
							one(c, load{stmts: ss, clients: cl, affected: aff, delay: d, initial: tables})
						}
					}
				}
			}
		}
	}})
	units = append(units, report.Unit{Name: "two statements with limits", Run: func(c *report.Ctx) {
		for n := 1; n <= c.Pick(5, 8); n++ {
			for m := 1; m <= c.Pick(5, 8); m++ {
				for _, aff := range [][]int{{1}, {2, 1}, {1, 1, 3}} {
					for _, cl := range [][]int{{1}, {2}, {3}, {1, 1}} {
						b := ins(m, 0)
						b.sql = "INSERT INTO v VALUES (1)"
						b.target = "db1.u"
						one(c, load{stmts: []stmt{ins(n, 0), b}, clients: cl, affected: aff, delay: ms, initial: tables})
						one(c, load{stmts: []stmt{ins(n, 0), other, b}, clients: cl, affected: aff, delay: 0, initial: tables})
					}
				}
			}
		}
	}})
	sizes := func(c *report.Ctx, f func(kind string, max string, bytes uint64, per int)) {
		for _, k := range []string{"table t", "table db1.t", "table db2.t", "database db1", "database db2"} {
			for _, z := range []struct {
				s   string
				b   uint64
				per []int
			}{
				{"1", 1, []int{1}},
				{"1000", 1000, []int{100, 300, 999, 1000, 1001}},
				{"1,000", 1000, []int{250}},
				{"2KiB", 2048, []int{700}},
				{"5.1GB", 5100000000, []int{500000000, 1700000000}},
				{"1GiB", 1 << 30, []int{300000000}},
				{"100MB", 100000000, []int{30000000}},
				{"2GB", 2000000000, []int{400000000, 700000000}},
			} {
				for _, p := range z.per {
					f(k, z.s, z.b, p)
				}
			}
		}
	}
	sized := func(kind, max string, bytes uint64) stmt {
		s := ins(0, 0)
		s.size = kind + " " + max
		s.max = bytes
		if strings.Contains(kind, "db2") {
			s.target = "db2.t"
			s.sql = "INSERT INTO db2.t VALUES (1)"
		}
		return s
	}
	units = append(units, report.Unit{Name: "size", Run: func(c *report.Ctx) {
		sizes(c, func(kind, max string, bytes uint64, per int) {
			s := sized(kind, max, bytes)
			for _, cl := range [][]int{{1}, {2}, {1, 1}} {
				for _, init := range []map[string]int{
					{"db1.t": 0, "db1.u": 0, "db2.t": 0},
					{"db1.t": 0, "db1.v": 0, "db2.t": 0, "db2.w": 0, "db1.u": int(bytes) / 2, "db2.u": int(bytes) / 3},
					{"db1.t": int(bytes) - 1, "db2.t": int(bytes) - 1},
					{"db1.t": int(bytes), "db2.t": int(bytes)},
					{"db1.t": 0, "db2.t": 0, "db10.t": int(bytes) * 2, "db1.t2": 0, "db2.t2": 0},
				} {
					l := load{stmts: []stmt{s, other}, clients: cl, affected: []int{1}, grow: per, delay: ms, initial: init, views: map[string]bool{"db1.v": true, "db2.w": true}}
					one(c, l)
					if kind != "database db1" && kind != "database db2" {
						l2 := l
						l2.initial = map[string]int{"db1.t": 0, "db2.t": 0, "db1.big": int(bytes) * 3, "db2.big": int(bytes) * 3}
						one(c, l2)
					}
				}
			}
		})
	}})
	units = append(units, report.Unit{Name: "size cannot be measured", Run: func(c *report.Ctx) {
		sizes(c, func(kind, max string, bytes uint64, per int) {
			for _, bad := range []string{"show", "current", "analyze", "size"} {
				for from := 1; from <= c.Pick(2, 4); from++ {
					for _, n := range []int{1, 2, 1000} {
						for _, cl := range [][]int{{1}, {2}, {1, 1}} {
							s := sized(kind, max, bytes)
							l := load{stmts: []stmt{s}, clients: cl, affected: []int{1}, grow: per, delay: ms, initial: map[string]int{"db1.t": 0, "db2.t": 0}, bad: bad, badFrom: from, badN: n}
							one(c, l)
							l.stmts[0].rows = 40
							one(c, l)
						}
					}
				}
			}
		})
	}})
	units = append(units, report.Unit{Name: "rows or size", Run: func(c *report.Ctx) {
		sizes(c, func(kind, max string, bytes uint64, per int) {
			for _, rows := range []int{1, 3, 4, 7, 12} {
				for _, cl := range [][]int{{1}, {2}} {
					s := sized(kind, max, bytes)
					s.rows = rows
					one(c, load{stmts: []stmt{s}, clients: cl, affected: []int{1}, grow: per, delay: ms, initial: map[string]int{"db1.t": 0, "db2.t": 0}})
				}
			}
		})
	}})
	units = append(units, report.Unit{Name: "huge size", Run: func(c *report.Ctx) {
		for _, max := range []struct {
			s string
			b uint64
		}{{"100GiB", 100 << 30}, {"2TB", 2e12}} {
			s := sized("table t", max.s, max.b)
			one(c, load{stmts: []stmt{s}, clients: []int{1}, affected: []int{1}, grow: int(max.b / 1500), delay: ms, initial: tables})
			s = sized("database db1", max.s, max.b)
			one(c, load{stmts: []stmt{s}, clients: []int{2}, affected: []int{1}, grow: int(max.b / 700), delay: ms, initial: tables})
		}
	}})
	inter := func(name string, l load, bound, tbound int) {
		units = append(units, report.Unit{Name: "interleavings " + name, Run: func(c *report.Ctx) {
			if c.Violated() {
				return
			}
			c.Explore(l.scenario(l.cfg(c), name, c.Pick(bound, tbound)))
		}})
	}
	inter("two clients", load{stmts: []stmt{ins(3, 0)}, clients: []int{2}, affected: []int{1}, initial: tables}, 3, 5)
	inter("three clients", load{stmts: []stmt{ins(3, 0)}, clients: []int{3}, affected: []int{2, 1}, initial: tables}, 2, 3)
	inter("two groups and another statement", load{stmts: []stmt{other, ins(3, 1)}, clients: []int{1, 1}, affected: []int{1}, initial: tables}, 2, 4)
	inter("errors", load{stmts: []stmt{ins(2, 0), sel}, clients: []int{2}, affected: []int{1, fault(1213)}, initial: tables}, 2, 3)
	b := ins(2, 0)
	b.sql = "INSERT INTO v VALUES (1)"
	inter("two limits", load{stmts: []stmt{ins(3, 0), b}, clients: []int{2}, affected: []int{1}, initial: tables}, 2, 3)
	inter("table size", load{stmts: []stmt{sized("table t", "1000", 1000)}, clients: []int{2}, affected: []int{1}, grow: 400, initial: tables}, 2, 3)
	sr := sized("database db1", "1000", 1000)
	sr.rows = 4
	inter("rows or database size", load{stmts: []stmt{sr}, clients: []int{2}, affected: []int{1}, grow: 250, initial: tables}, 2, 3)
	report.Main(t, report.Check{
		ID:    "C11",
		Level: "model_checking",
		Rule:  "every limit over a small set of values, affected-row patterns, errors and client counts; all interleavings of 2-3 clients within the deviation bound; table sizes come from a stand-in whose statistics change only by ANALYZE TABLE",
		Assumptions: []string{
			"size limits are judged by the measured size and a generous bound on how often it is measured",
		},
		Units: units,
	})
}
