package exec

import (
	"context"
	"database/sql/driver"
	"fmt"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/square/finch/config"
	"github.com/square/finch/data"

	"finchverif/fakedb"
	"finchverif/fin"
	"finchverif/report"
	"finchverif/vsched"
)

// colValues are the column values of the test result sets.
var colValues = []interface{}{
	int64(42), int64(-7), uint64(18446744073709551615), 1.5, "text", "",
	[]byte("longer bytes"), []byte("b"), []byte(""), nil,
	time.Date(2026, 2, 3, 4, 5, 6, 789000000, time.UTC), time.Time{},
}

// matches says whether what a statement received (text form) is value v. mode:
// "text", "quoted" or "prepared".
func matches(v interface{}, got, mode string) bool {
	if mode == "quoted" {
		if v == nil {
			return got == "NULL"
		}
		if len(got) < 2 || got[0] != '\'' || got[len(got)-1] != '\'' {
			return false
		}
		got = got[1 : len(got)-1]
	}
	switch x := v.(type) {
	case nil:
		if mode == "prepared" {
			return got == "<nil>"
		}
		return got == "NULL"
	case []byte:
		return got == string(x)
	case float64:
		f, err := strconv.ParseFloat(got, 64)
		return err == nil && f == x
	case time.Time:
		if mode == "prepared" && got == fmt.Sprint(x) {
			return true
		}
		if x.IsZero() {
			return strings.HasPrefix(got, "0000-00-00")
		}
		for _, f := range []string{"2006-01-02 15:04:05.999999", "2006-01-02T15:04:05.999999", "2006-01-02"} {
			if t, err := time.Parse(f, got); err == nil {
				return t.Equal(x)
			}
		}
		return false
	}
	return got == fmt.Sprint(v)
}

// A flow: a trx file saving columns (and an insert id) and using them.
type flow struct {
	cols    []string // saved columns, "_" or key
	mode    string   // of the statement using them
	scope   string   // of the keys ("" default)
	files   int      // 1: save and use in one file; 2: use in a second file
	order   []int
	insert  bool // insert id too
	prepSel bool
	clients int
	iter    int
}

func (f flow) String() string {
	return fmt.Sprintf("save-columns %v mode=%s scope=%q files=%d order=%v insert-id=%v prepared-select=%v clients=%d", f.cols, f.mode, f.scope, f.files, f.order, f.insert, f.prepSel, f.clients)
}

func (f flow) uses() []string {
	var u []string
	for _, c := range f.cols {
		if c != "_" {
			u = append(u, c)
		}
	}
	if f.insert {
		u = append(u, "id")
	}
	u = append(u, u[0]) // first one twice
	return u
}

func (f flow) load(t *testing.T) config.Stage {
	d := "      data:\n        w: {generator: who, scope: value}\n"
	keys := append([]string{}, f.uses()...)
	seen := map[string]bool{}
	for _, k := range keys {
		if seen[k] {
			continue
		}
		seen[k] = true
		d += "        " + k + ":\n          generator: column\n"
		if f.scope != "" {
			d += "          scope: " + f.scope + "\n"
		}
		q := "no"
		if f.mode == "quoted" {
			q = "yes"
		}
		d += "          params:\n            quote-value: " + q + "\n"
	}
	save := "-- save-columns: "
	for i, c := range f.cols {
		if i > 0 {
			save += ", "
		}
		if c != "_" {
			c = "@" + c
		}
		save += c
	}
	if f.prepSel {
		save = "-- prepare\n" + save
	}
	save += "\nSELECT '@w' FROM t\n\n"
	if f.insert {
		if f.prepSel {
			save += "-- prepare\n"
		}
		save += "-- save-insert-id: @id\nINSERT INTO t VALUES ('@w')\n\n"
	}
	use := ""
	if f.mode == "prepared" {
		use = "-- prepare\n"
	}
	use += "UPDATE t SET w='@w'"
	for i, u := range f.uses() {
		use += fmt.Sprintf(" [c%d=@%s]", i, u)
	}
	use += "\n\n"
	y := "stage:\n  name: s\n  trx:\n    - file: t0.sql\n      name: t0\n" + d
	trx := map[string]string{"t0.sql": save + use}
	if f.files == 2 {
		y += "    - file: t1.sql\n      name: t1\n" + d
		trx["t1.sql"] = use // and in t0: a saved column must be used in its own file, too
	}
	y += fmt.Sprintf("  workload:\n    - clients: %d\n      iter: %d\n", f.clients, f.iter)
	if f.order != nil {
		y += "      trx: ["
		for i, o := range f.order {
			if i > 0 {
				y += ","
			}
			y += fmt.Sprintf("t%d", o)
		}
		y += "]\n"
	}
	return fin.Load(t, y, trx)
}

// result of the n-th SELECT of a client.
type result struct {
	rows [][]interface{} // only the saved columns' values matter
	err  error
}

// run executes the flow; results gives the n-th (0-based) answer to a client's
// SELECT, ids the n-th insert id, useErr an error for the n-th using statement.
func (f flow) runCheck(cfg config.Stage, db *fakedb.DB, results func(client string, n int) result, ids func(client string, n int) int64, useErr func(client string, n int) error) (func() error, func() string) {
	nsel, nins, nuse := map[string]int{}, map[string]int{}, map[string]int{}
	cur := map[string]map[string]interface{}{} // client -> key -> value it got last
	bad, quotedNull := "", false
	have := func(c string) map[string]interface{} {
		if cur[c] == nil {
			cur[c] = map[string]interface{}{}
		}
		return cur[c]
	}
	who := func(e *fakedb.Event) (string, bool) {
		s := e.SQL
		if len(e.Args) > 0 {
			s = "'" + e.Args[0]
		}
		i := strings.Index(s, "'")
		if i < 0 {
			return "", false
		}
		w, ok := fin.ParseWho(s[i+1:])
		return w.Client(), ok
	}
	db.Answer = func(e *fakedb.Event) (a fakedb.Answer) {
		switch {
		case e.Kind != "exec" && e.Kind != "query" && e.Kind != "sexec" && e.Kind != "squery":
			return
		case strings.HasPrefix(e.SQL, "SELECT"):
			c, ok := who(e)
			if !ok {
				bad = "unexpected statement " + e.String()
				return
			}
			r := results(c, nsel[c])
			nsel[c]++
			a.Err = r.err
			for i := range f.cols {
				a.Cols = append(a.Cols, fmt.Sprintf("c%d", i))
			}
			for _, row := range r.rows {
				var dv []driver.Value
				k := 0
				for _, col := range f.cols {
					if col == "_" {
						dv = append(dv, []byte("noise"))
					} else {
						dv = append(dv, row[k])
						if a.Err == nil {
							have(c)[col] = row[k]
						}
						k++
					}
				}
				a.Rows = append(a.Rows, dv)
			}
		case strings.HasPrefix(e.SQL, "INSERT"):
			c, ok := who(e)
			if !ok {
				bad = "unexpected statement " + e.String()
				return
			}
			a.LastId = ids(c, nins[c])
			have(c)["id"] = a.LastId
			nins[c]++
		case strings.HasPrefix(e.SQL, "UPDATE"):
			c, ok := who(e)
			if !ok {
				bad = "unexpected statement " + e.String()
				return
			}
			var got []string
			if f.mode == "prepared" {
				got = e.Args[1:]
			} else {
				for _, p := range strings.Split(e.SQL, "[")[1:] {
					p = strings.TrimSuffix(strings.TrimSpace(p), "]")
					got = append(got, p[strings.Index(p, "=")+1:])
				}
			}
			us := f.uses()
			if len(got) != len(us) {
				bad = fmt.Sprintf("statement received %d values, expected %d: %s", len(got), len(us), e)
				return
			}
			for i, u := range us {
				if f.mode == "quoted" && have(c)[u] == nil && got[i] == "'NULL'" {
					quotedNull = true
				} else if !matches(have(c)[u], got[i], f.mode) {
					if bad == "" {
						bad = fmt.Sprintf("column in a %s statement: client %s received %q for @%s, but the value it got last is %#v (statement %s)", f.mode, c, got[i], u, have(c)[u], e)
					}
				}
			}
			if useErr != nil {
				a.Err = useErr(c, nuse[c])
			}
			nuse[c]++
		}
		return
	}
	run := func() error {
		return fin.RunStage(context.Background(), cfg, data.NewScope(), nil)
	}
	check := func() string {
		if bad != "" {
			return bad
		}
		if quotedNull {
			return nullQuoted
		}
		if len(nuse) != f.clients {
			return fmt.Sprintf("%d clients executed the statement using the saved values, expected %d", len(nuse), f.clients)
		}
		return ""
	}
	return run, check
}

const nullQuoted = "a saved NULL column with quote-value is sent as 'NULL' in a text statement"

func TestC06(t *testing.T) {
	var units []report.Unit
	noids := func(c string, n int) int64 { return int64(1000 + n) }
	try := func(c *report.Ctx, f flow, cfg config.Stage, key string, results func(string, int) result, ids func(string, int) int64, useErr func(string, int) error) {
		if c.TimeUp() {
			return
		}
		once := func() string {
			db := &fakedb.DB{}
			vsched.OpenDB = db.OpenFn()
			run, check := f.runCheck(cfg, db, results, ids, useErr)
			if err := run(); err != nil {
				return "stage failed: " + err.Error()
			}
			return check()
		}
		if v := once(); v != "" && once() != "" {
			k := f.String() + " " + key
			if v == nullQuoted {
				k = v
			}
			c.Violate(k, v+"\nflow: "+f.String()+" values: "+key, key)
		}
		c.Case(f.String() + " " + key)
		c.State(1, f.iter, 1)
	}
	layouts := [][]string{{"c1"}, {"_", "c1"}, {"c1", "_"}, {"c1", "_", "c2"}, {"_", "c1", "_", "c2"}, {"c2", "c1"}}
	for _, mode := range []string{"text", "quoted", "prepared"} {
		for li, cols := range layouts {
			mode, cols, li := mode, cols, li
			units = append(units, report.Unit{Name: fmt.Sprintf("%s %v", mode, cols), Run: func(c *report.Ctx) {
				nsaved := 0
				for _, k := range cols {
					if k != "_" {
						nsaved++
					}
				}
				mk := func(v ...interface{}) []interface{} { return v[:nsaved] }
				f := flow{cols: cols, mode: mode, clients: 1, iter: 3, files: 1}
				for _, prepSel := range []bool{false, true} {
					for _, ins := range []bool{false, true} {
						if (prepSel || ins) && li > 3 {
							continue
						}
						f.prepSel, f.insert = prepSel, ins
						cfg := f.load(c.T)
						n := len(colValues)
						for a := 0; a < n; a++ {
							for b := 0; b < n; b++ {
								for d := 0; d < n; d++ {
									if d != 0 && d != 9 && !c.Thorough() && (a+b+d)%4 != 0 {
										continue
									}
									va, vb, vd := colValues[a], colValues[b], colValues[d]
									// one row each iteration
									res := [][][]interface{}{{mk(va, vb)}, {mk(vb, vd)}, {mk(vd, va)}}
									try(c, f, cfg, fmt.Sprintf("1 row: %v %v %v", a, b, d), func(_ string, i int) result { return result{rows: res[i]} }, noids, nil)
									if d == 0 || c.Thorough() {
										// two rows, then none, then two
										res2 := [][][]interface{}{{mk(va, vb), mk(vb, va)}, nil, {mk(vd, vb), mk(va, vd)}}
										try(c, f, cfg, fmt.Sprintf("2,0,2 rows: %v %v %v", a, b, d), func(_ string, i int) result { return result{rows: res2[i]} }, noids, nil)
										// error on the SELECT of iteration 2, and on the using statement of iteration 1
										try(c, f, cfg, fmt.Sprintf("error: %v %v %v", a, b, d), func(_ string, i int) result {
											if i == 1 {
												return result{err: fakedb.MyErr(1213)}
											}
											return result{rows: res[i]}
										}, noids, func(_ string, i int) error {
											if i == 0 {
												return fakedb.MyErr(1213)
											}
											return nil
										})
									}
								}
							}
						}
					}
				}
			}})
		}
	}
	units = append(units, report.Unit{Name: "across files", Run: func(c *report.Ctx) {
		for _, f := range []flow{
			{cols: []string{"c1", "_", "c2"}, mode: "text", scope: "iter", files: 2, clients: 1, iter: 2, insert: true},
			{cols: []string{"c1"}, mode: "prepared", scope: "iter", files: 2, clients: 1, iter: 2, insert: true, prepSel: true},
			{cols: []string{"c1"}, mode: "text", files: 1, order: []int{0, 0}, clients: 1, iter: 2, insert: true},
			{cols: []string{"c1", "c2"}, mode: "prepared", scope: "trx", files: 1, order: []int{0, 0}, clients: 1, iter: 2, insert: true},
		} {
			cfg := f.load(c.T)
			for a := range colValues {
				for b := range colValues {
					try(c, f, cfg, fmt.Sprintf("%d %d", a, b), func(_ string, i int) result {
						v := []interface{}{colValues[a], colValues[b], colValues[(a+b+1)%len(colValues)]}
						row := []interface{}{v[i%3], v[(i+1)%3], v[(i+2)%3]}
						return result{rows: [][]interface{}{row}}
					}, noids, nil)
				}
			}
		}
	}})
	units = append(units, report.Unit{Name: "insert ids", Run: func(c *report.Ctx) {
		vals := []int64{0, 1, 2, 1 << 40, 9223372036854775807, -5}
		for _, mode := range []string{"text", "quoted", "prepared"} {
			f := flow{cols: []string{"c1"}, mode: mode, files: 1, clients: 1, iter: 3, insert: true}
			cfg := f.load(c.T)
			for _, x := range vals {
				for _, y := range vals {
					for _, z := range vals {
						ids := []int64{x, y, z}
						try(c, f, cfg, fmt.Sprint(ids), func(_ string, i int) result { return result{rows: [][]interface{}{{int64(i)}}} }, func(_ string, i int) int64 { return ids[i] }, nil)
					}
				}
			}
		}
	}})
	// One dimension at a time, beyond the histories above.
	units = append(units, report.Unit{Name: "sizes", Run: func(c *report.Ctx) {
		for _, mode := range []string{"text", "quoted", "prepared"} {
			for n := 1; n <= 24; n++ { // columns, with a no-op at every position
				for skip := -1; skip <= n; skip++ {
					var cols []string
					for i := 0; i <= n; i++ {
						if i == skip {
							cols = append(cols, "_")
						}
						if i < n {
							cols = append(cols, fmt.Sprintf("c%d", i+1))
						}
					}
					f := flow{cols: cols, mode: mode, clients: 1, iter: 2, files: 1, insert: skip%2 == 0, prepSel: skip%3 == 0}
					try(c, f, f.load(c.T), fmt.Sprint("columns ", n, skip), func(_ string, i int) result {
						var row []interface{}
						for k := 0; k < n; k++ {
							row = append(row, fmt.Sprintf("%d.%d", k, i))
						}
						return result{rows: [][]interface{}{row}}
					}, noids, nil)
				}
			}
			f := flow{cols: []string{"c1", "_", "c2"}, mode: mode, clients: 1, iter: 40, files: 1, insert: true}
			cfg := f.load(c.T)
			for n := 0; n <= 40; n++ { // rows and iterations
				try(c, f, cfg, fmt.Sprint("rows ", n), func(_ string, i int) result {
					var r result
					for k := 0; k <= (n+i)%41; k++ {
						r.rows = append(r.rows, []interface{}{[]byte(strings.Repeat("x", (k*7+i)%23)), int64(k*1000 + i)})
					}
					return r
				}, noids, nil)
			}
			f.iter = 3
			cfg = f.load(c.T)
			for _, n := range []int{0, 1, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 70000} { // length of values
				for _, m := range []int{0, 1, 64, 300, 65536} {
					l := []int{n, m, n}
					try(c, f, cfg, fmt.Sprint("length ", l), func(_ string, i int) result {
						return result{rows: [][]interface{}{{strings.Repeat("s", l[i]), []byte(strings.Repeat("b", l[2-i]))}}}
					}, noids, nil)
				}
			}
			for _, v := range []int64{1<<31 - 1, 1 << 31, 1 << 32, 1<<53 + 1, 1<<63 - 1, -1 << 63, -1 << 31, 999999, 1000000, 21000000} {
				for _, v := range []interface{}{v, uint64(v), float64(v), float64(v) / 1024, fmt.Sprint(v)} {
					try(c, f, cfg, fmt.Sprintf("%T %v", v, v), func(_ string, i int) result {
						return result{rows: [][]interface{}{{v, v}}}
					}, noids, nil)
				}
			}
			for _, v := range []string{"'", "\\", "a'b", "%", "%d", "%%", "@c1", "@w", "?", "\x00", "\n", "é", "\xff\xfe", " ", "NULL", "0x10", "1e3"} { // not escaped: as it is
				if mode != "prepared" && strings.ContainsAny(v, "'\n ") {
					continue // the test's own parser of statements
				}
				for _, v := range []interface{}{v, []byte(v)} {
					try(c, f, cfg, fmt.Sprintf("%T %q", v, v), func(_ string, i int) result {
						return result{rows: [][]interface{}{{v, v}}}
					}, noids, nil)
				}
			}
		}
	}})
	sched := func(f flow, bound int, thorough bool) {
		units = append(units, report.Unit{Name: fmt.Sprintf("interleavings bound %d %s", bound, f), Thorough: thorough, Run: func(c *report.Ctx) {
			cfg := f.load(c.T)
			c.Explore(&vsched.Scenario{
				Opts: vsched.Opts{Name: f.String(), Bound: bound, Background: true},
				New: func() (func(), func(vsched.Run) (string, string)) {
					db := &fakedb.DB{}
					vsched.OpenDB = db.OpenFn()
					next := int64(0)
					run, check := f.runCheck(cfg, db, func(cl string, n int) result {
						row := []interface{}{[]byte(fmt.Sprintf("%s #%d", cl, n)), fmt.Sprintf("2nd %s #%d", cl, n)}
						return result{rows: [][]interface{}{{[]byte("first row of all"), "f"}, row}}
					}, func(string, int) int64 { next++; return next }, nil)
					var err error
					return func() { err = run() }, func(r vsched.Run) (string, string) {
						if err != nil {
							return "err", "stage failed: " + err.Error()
						}
						if r.Deadlock || r.Livelock {
							return "stuck", "the stage does not end"
						}
						o := ""
						for _, e := range db.Events() {
							o += fmt.Sprintf("%d%s ", e.Conn, e.Kind)
						}
						return o, check()
					}
				},
			})
		}})
	}
	sched(flow{cols: []string{"c1", "_", "c2"}, mode: "text", files: 1, clients: 2, iter: 1, insert: true}, 2, false)
	sched(flow{cols: []string{"c1", "_", "c2"}, mode: "prepared", prepSel: true, files: 1, clients: 2, iter: 2, insert: true}, 1, false)
	sched(flow{cols: []string{"c1"}, mode: "text", scope: "iter", files: 2, clients: 2, iter: 1, insert: true}, 1, false)
	sched(flow{cols: []string{"c1", "_", "c2"}, mode: "text", files: 1, clients: 3, iter: 2, insert: true}, 2, true)
	report.Main(t, report.Check{ID: "C06", Level: "model_checking",
		Rule:        "one case = one flow (saved columns, statement using them) with one history of result sets, executed by the real pipeline on the fake database; every received value is compared with the last value that client got; plus interleavings of 2-3 clients; distinct = distinct histories or event orders",
		Assumptions: []string{"result sets reuse byte buffers as drivers do", "a value is used after it was saved in the same scope iteration", "states = histories, transitions = iterations, each run on the implementation"},
		Units:       units})
}
