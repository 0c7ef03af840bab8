package statx

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/square/finch/config"
	"github.com/square/finch/stats"

	"finchverif/report"
)

// pOpt: a percentiles option, and what it means.
type pOpt struct {
	opt   string
	names []string
	p     []float64
}

var pOpts = []pOpt{
	{"", []string{"P999"}, []float64{99.9}},
	{"P95", []string{"P95"}, []float64{95}},
	{"p50,99.9", []string{"P50", "P99.9"}, []float64{50, 99.9}},
	{"P95,P99,P999", []string{"P95", "P99", "P999"}, []float64{95, 99, 99.9}},
	{"P9999, P100 ,P1", []string{"P9999", "P100", "P1"}, []float64{99.99, 100, 1}},
	{" 99, 50, 99", []string{"P99", "P50", "P99"}, []float64{99, 50, 99}},
}

// mkInst: an instance of kind k and its exact contents.
func mkInst(k, i int, interval uint) (stats.Instance, *ref) {
	in := stats.NewInstance(append([]string{"local", "Pluto-1", "P"}, strings.Fields(strings.Repeat("a.very.long.host-name.example.com-1 h ", 1+i/2))...)[i])
	in.Interval = interval
	in.Clients = uint(1 + 7*k + 1000*i)
	in.Seconds = []float64{20, 0.5, 2.5, 1}[k]
	in.Runtime = in.Seconds + float64(interval-1)*20
	r := &ref{}
	rec := func(c byte, us int64) { in.Total.Record(c, us); r.record(c, us) }
	switch k {
	case 1:
		rec(stats.READ, 80)
		rec(stats.READ, 1096)
		rec(stats.WRITE, 366)
	case 2:
		for j := int64(0); j < 40; j++ {
			rec(byte(j%4), 11+j*j*j*int64(1+i))
		}
		in.Total.Errors[1213] = 3
		in.Total.Errors[1062] = 1000
		r.errs = map[uint16]uint64{1213: 3, 1062: 1000}
	case 3:
		for j := 0; j < 2100+i; j++ {
			rec(stats.READ, 3600000)
		}
		rec(stats.COMMIT, 12345678)
		rec(stats.TOTAL, 5)
	}
	return in, r
}

// line is what a report line must say.
type line struct {
	interval     uint
	durLo, durHi float64
	runLo, runHi float64
	clients      uint
	r            *ref
	compute      []string // accepted names
	secLo, secHi float64
	errors       uint64
	p            []float64
}

func lineOf(from []stats.Instance, refs []*ref, p []float64) line {
	l := line{interval: from[0].Interval, r: &ref{}, p: p, secLo: math.Inf(1), runLo: math.Inf(1)}
	for i, in := range from {
		l.clients += in.Clients
		l.r.combine(refs[i])
		l.secLo, l.secHi = math.Min(l.secLo, in.Seconds), math.Max(l.secHi, in.Seconds)
		l.runLo, l.runHi = math.Min(l.runLo, in.Runtime), math.Max(l.runHi, in.Runtime)
	}
	for _, v := range l.r.errs {
		l.errors += v
	}
	l.compute = []string{from[0].Hostname}
	if len(from) > 1 {
		l.compute = []string{fmt.Sprintf("(%d combined)", len(from)), fmt.Sprintf("%d combined", len(from))}
	}
	return l
}

func num(s string) (float64, error) { return strconv.ParseFloat(strings.ReplaceAll(s, ",", ""), 64) }

// check compares the fields of a printed line.
func (l line) check(f []string) string {
	if want := 5 + 4*3 - 1 + 4*len(l.p) + 2; len(f) != want {
		return fmt.Sprintf("%d fields, expected %d: %q", len(f), want, f)
	}
	i := 0
	bad := ""
	within := func(what string, lo, hi float64) {
		v, err := num(f[i])
		if bad == "" && (err != nil || v < lo || v > hi) {
			bad = fmt.Sprintf("%s is %s, expected %v to %v", what, f[i], lo, hi)
		}
		i++
	}
	within("interval", float64(l.interval), float64(l.interval))
	within("duration", l.secLo-0.051, l.secHi+0.051)
	within("runtime", l.runLo-0.051, l.runHi+0.051)
	within("clients", float64(l.clients), float64(l.clients))
	for k, c := range []byte{stats.TOTAL, stats.READ, stats.WRITE, stats.COMMIT} {
		name := []string{"all", "read", "write", "commit"}[k]
		t := append([]int64{}, l.r.t[c]...)
		sort.Slice(t, func(a, b int) bool { return t[a] < t[b] })
		n := float64(len(t))
		within(name+" per second", math.Floor(n/l.secHi), math.Ceil(n/l.secLo))
		min, max := 0.0, 0.0
		if len(t) > 0 {
			min, max = float64(t[0]), float64(t[len(t)-1])
		}
		within(name+" min", min, min)
		for _, p := range l.p {
			v, err := num(f[i])
			ok := err == nil && (len(t) > 0 || v == 0)
			if ok && len(t) > 0 {
				ok = false
				for _, d := range candidates(t, p) {
					ok = ok || v >= 0 && inBucket(uint64(v), d)
				}
			}
			if !ok && bad == "" {
				bad = fmt.Sprintf("%s P%v is %s, the exact percentile is %v", name, p, f[i], cutInts(t))
			}
			i++
		}
		within(name+" max", max, max)
	}
	within("errors", float64(l.errors), float64(l.errors))
	if bad == "" {
		bad = fmt.Sprintf("compute is %q, expected %q", f[i], l.compute)
		for _, c := range l.compute {
			if f[i] == c {
				bad = ""
			}
		}
	}
	return bad
}

// header fields for a percentiles option
func header(o pOpt) []string {
	h := []string{"interval", "duration", "runtime", "clients"}
	add := func(rate, pre string) {
		h = append(h, rate, pre+"min")
		for _, n := range o.names {
			h = append(h, pre+n)
		}
		h = append(h, pre+"max")
	}
	add("QPS", "")
	add("r_QPS", "r_")
	add("w_QPS", "w_")
	add("TPS", "c_")
	return append(h, "errors", "compute")
}

// tuples of 1-3 instances of 4 kinds.
func kinds(max int) (ts [][]int) {
	for a := 0; a < 4; a++ {
		ts = append(ts, []int{a})
		for b := 0; b < 4 && max > 1; b++ {
			ts = append(ts, []int{a, b})
			for d := 0; d < 4 && max > 2; d++ {
				ts = append(ts, []int{a, b, d})
			}
		}
	}
	return
}

func build(t []int, interval uint) (from []stats.Instance, refs []*ref) {
	for i, k := range t {
		in, r := mkInst(k, i, interval)
		from = append(from, in)
		refs = append(refs, r)
	}
	return
}

func csvUnit(c *report.Ctx) {
	dir, _ := os.MkdirTemp("", "csv")
	defer os.RemoveAll(dir)
	n := 0
	for _, o := range pOpts {
		for _, t1 := range kinds(3) {
			for _, t2 := range [][]int{nil, {0}, {2, 1}} {
				if c.TimeUp() || c.Violated() {
					return
				}
				n++
				csvOne(c, dir, n, o, [][]int{t1, t2})
			}
		}
	}
}

// csvOne: reports ts of tuples of instances (nil: none).
func csvOne(c *report.Ctx, dir string, n int, o pOpt, ts [][]int) {
	name := filepath.Join(dir, fmt.Sprintf("f%d.csv", n))
	what := fmt.Sprintf("csv, percentiles %q, instances %v", o.opt, ts)
	c.Case(what)
	fail := func(f string, v ...interface{}) {
		c.Violate("csv: "+what, what+": "+fmt.Sprintf(f, v...), nil)
	}
	opts := map[string]string{"file": name}
	if o.opt != "" {
		opts["percentiles"] = o.opt
	}
	r, err := stats.NewCSV(opts)
	if err != nil {
		fail("%s", err)
		return
	}
	expect := []line{}
	verify := func(when string) bool {
		b, _ := os.ReadFile(name)
		if !strings.HasSuffix(string(b), "\n") {
			fail("%s: incomplete last line: %q", when, b)
			return false
		}
		lines := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
		if len(lines) != 1+len(expect) {
			fail("%s: %d lines on disk, expected %d: %q", when, len(lines), 1+len(expect), b)
			return false
		}
		if h := strings.Join(header(o), ","); lines[0] != h {
			fail("%s: header %q, expected %q", when, lines[0], h)
			return false
		}
		for i, l := range expect {
			if m := l.check(strings.Split(lines[1+i], ",")); m != "" {
				fail("%s: row %d: %s", when, i+1, m)
				return false
			}
		}
		return true
	}
	if !verify("at start") {
		return
	}
	for i, t := range ts {
		if t == nil {
			continue
		}
		from, refs := build(t, uint(i+1))
		r.Report(from)
		for j := range from { // the reporter must not modify what is reported
			if in, _ := mkInst(t[j], j, uint(i+1)); show(in) != show(from[j]) {
				fail("reported instance was modified: %s", show(from[j]))
				return
			}
		}
		expect = append(expect, lineOf(from, refs, o.p))
		if !verify(fmt.Sprintf("after report %d", i+1)) {
			return
		}
	}
	r.Stop()
	if !verify("after stop") {
		return
	}
	// never overwrites a file
	if _, err := stats.NewCSV(opts); err == nil {
		fail("an existing file is accepted")
		return
	}
	if !verify("after another run tried to use the file") {
		return
	}
	os.Remove(name)
}

var yesNo = []string{"", "yes", "no"} // "": not given

// divert sends the standard output to a file.
func divert(c *report.Ctx) (*os.File, func()) {
	f, err := os.CreateTemp("", "out")
	if err != nil {
		c.T.Fatal(err)
	}
	old := os.Stdout
	os.Stdout = f
	return f, func() { os.Stdout = old; f.Close(); os.Remove(f.Name()) }
}

func stdoutUnit(part int) func(*report.Ctx) {
	return func(c *report.Ctx) {
		f, done := divert(c)
		defer done()
		for oi, o := range pOpts {
			if oi%3 != part {
				continue
			}
			for _, each := range yesNo {
				for _, comb := range yesNo {
					for _, t1 := range kinds(3) {
						for _, t2 := range [][]int{nil, {0}, {2, 1}} {
							if c.TimeUp() || c.Violated() {
								return
							}
							stdoutOne(c, f, o, each, comb, [][]int{t1, t2})
						}
					}
				}
			}
		}
	}
}

func stdoutOne(c *report.Ctx, f *os.File, o pOpt, each, comb string, ts [][]int) {
	what := fmt.Sprintf("stdout, percentiles %q, each-instance %q, combined %q, instances %v", o.opt, each, comb, ts)
	c.Case(what)
	fail := func(f string, v ...interface{}) {
		c.Violate("stdout: "+what, what+": "+fmt.Sprintf(f, v...), nil)
	}
	opts := map[string]string{}
	if o.opt != "" {
		opts["percentiles"] = o.opt
	}
	if each != "" {
		opts["each-instance"] = each
	}
	if comb != "" {
		opts["combined"] = comb
	}
	f.Truncate(0)
	f.Seek(0, 0)
	r, err := stats.NewStdout(opts)
	if err != nil {
		fail("%s", err)
		return
	}
	for i, t := range ts {
		if t == nil {
			continue
		}
		f.Truncate(0)
		f.Seek(0, 0)
		from, refs := build(t, uint(i+1))
		r.Report(from)
		b, _ := os.ReadFile(f.Name())
		var rows [][]string
		for _, l := range strings.Split(string(b), "\n") {
			if strings.TrimSpace(l) == "" {
				continue
			}
			fs := strings.Split(l, "|")
			for i := range fs {
				fs[i] = strings.TrimSpace(fs[i])
			}
			rows = append(rows, fs)
		}
		if len(rows) == 0 || strings.Join(rows[0], ",") != strings.Join(header(o), ",") {
			fail("report %d: no header: %q", i+1, b)
			return
		}
		var one, all []line
		for j := range from {
			one = append(one, lineOf(from[j:j+1], refs[j:j+1], o.p))
		}
		if len(from) > 1 {
			all = []line{lineOf(from, refs, o.p)}
		}
		// each instance if asked for or nothing is configured; combined likewise
		var accept [][]line
		e, cb := each == "yes" || each == "" && comb == "", comb == "yes" || each == "" && comb == ""
		switch {
		case len(from) == 1 && (e || cb): // one instance: its line, once
			accept = [][]line{one}
		case e && cb:
			accept = [][]line{append(append([]line{}, one...), all...)}
		case e:
			accept = [][]line{one}
		case cb:
			accept = [][]line{all}
		default:
			accept = [][]line{nil}
		}
		// documented defaults (combined: yes, each-instance: no) when only the other is given
		if each != "" && comb == "" {
			if e {
				accept = append(accept, append(append([]line{}, one...), all...))
			} else {
				accept = append(accept, all)
				if len(from) == 1 {
					accept = append(accept, one)
				}
			}
		}
		msg := ""
		for _, a := range accept {
			msg = ""
			if len(rows)-1 != len(a) {
				msg = fmt.Sprintf("%d lines, expected %d: %q", len(rows)-1, len(a), b)
				continue
			}
			for k, l := range a {
				if m := l.check(rows[1+k]); m != "" {
					msg = fmt.Sprintf("line %d: %s", k+1, m)
					break
				}
			}
			if msg == "" {
				break
			}
		}
		if msg != "" {
			fail("report %d: %s", i+1, msg)
			return
		}
		for j := range from {
			if in, _ := mkInst(t[j], j, uint(i+1)); show(in) != show(from[j]) {
				fail("reported instance was modified: %s", show(from[j]))
				return
			}
		}
	}
	r.Stop()
}

// options: what percentiles options are accepted, and as what; reporters that
// don't exist are refused.
func optionsUnit(c *report.Ctx) {
	for i := 1; i <= 100; i++ {
		for _, f := range []string{"%d", "P%d", "p%d", " P%d "} {
			for _, g := range []string{"", ".5"} {
				if i == 100 && g != "" {
					continue
				}
				in := strings.Replace(fmt.Sprintf(f, i), fmt.Sprint(i), fmt.Sprint(i)+g, 1)
				_, p, err := stats.ParsePercentiles(in)
				want := float64(i)
				if g != "" {
					want += 0.5
				}
				c.Case(in)
				if err != nil || len(p) != 1 || p[0] != want {
					c.Violate("percentile option "+in, fmt.Sprintf("percentiles %q means %v (%v), expected %v", in, p, err, want), nil)
					return
				}
			}
		}
	}
	for _, in := range []string{"x", "P", "P-1", "101", "P50,,P60", "P50,abc"} {
		c.Case("invalid " + in)
		if _, p, err := stats.ParsePercentiles(in); err == nil {
			c.Violate("percentile option "+in, fmt.Sprintf("percentiles %q is accepted as %v", in, p), nil)
			return
		}
		for _, rep := range []string{"csv", "stdout"} {
			if rep == "csv" && in == "x" {
				os.MkdirAll("d", 0755)
			}
			if _, err := stats.MakeReporters(config.Stats{Report: map[string]map[string]string{rep: {"percentiles": in, "file": "d/f-" + strconv.Itoa(len(in)) + rep}}}); err == nil {
				c.Violate(rep+" with percentiles "+in, fmt.Sprintf("reporter %s accepts percentiles %q", rep, in), nil)
				return
			}
			os.RemoveAll("d")
			os.MkdirAll("d", 0755)
		}
	}
	if _, err := stats.MakeReporters(config.Stats{Report: map[string]map[string]string{"nosuch": {}}}); err == nil {
		c.Violate("unknown reporter", "a reporter that doesn't exist is accepted", nil)
	}
}

func TestC17(t *testing.T) {
	report.Main(t, report.Check{
		ID:    "C17",
		Level: "exploration",
		Rule:  "evaluation = one sequence of reports by the real csv/stdout reporter, of instances out of a small alphabet (nothing recorded; few queries; all classes and errors; thousands of slow queries) with given options, parsed back and compared field by field with values computed from the exact recorded times; distinct = all",
		Assumptions: []string{"percentile values are within the histogram bucket of the exact percentile (property C14)",
			"with only one of each-instance and combined given, the other may be off (code) or as documented",
			"combined intervals of different length: any of the lengths may be used for rates"},
		Units: []report.Unit{
			{Name: "csv", Run: csvUnit},
			{Name: "stdout 1", Run: stdoutUnit(0)},
			{Name: "stdout 2", Run: stdoutUnit(1)},
			{Name: "stdout 3", Run: stdoutUnit(2)},
			{Name: "options", Run: optionsUnit},
			{Name: "sizes", Run: func(c *report.Ctx) {
				dir, _ := os.MkdirTemp("", "csv")
				defer os.RemoveAll(dir)
				f, done := divert(c)
				defer done()
				many := pOpt{}
				for i := 1; i <= 100; i++ {
					many.opt += fmt.Sprintf("P%d,", 101-i)
					many.names = append(many.names, fmt.Sprintf("P%d", 101-i))
					many.p = append(many.p, float64(101-i))
				}
				many.opt = strings.TrimSuffix(many.opt, ",")
				n := 0
				try := func(o pOpt, ts [][]int) {
					if c.TimeUp() || c.Violated() {
						return
					}
					n++
					csvOne(c, dir, n, o, ts)
					stdoutOne(c, f, o, "yes", "yes", ts)
					stdoutOne(c, f, o, "no", "yes", ts)
				}
				for k := 0; k < 4; k++ {
					try(many, [][]int{{k}, {k, 2}})
				}
				for l := 4; l <= c.Pick(16, 60); l++ { // instances
					for k := 0; k < 4; k++ {
						same, mixed := make([]int, l), make([]int, l)
						for i := range same {
							same[i], mixed[i] = k, (k+i*i)%4
						}
						try(pOpts[l%len(pOpts)], [][]int{same, mixed, {0}})
					}
				}
				for l := 3; l <= c.Pick(40, 300); l += 1 + l/10 { // reports
					var ts [][]int
					for i := 0; i < l; i++ {
						ts = append(ts, [][]int{{1}, {2, 0, 1}, {0, 0}, {2, 2}}[(i+l)%4])
					}
					try(pOpts[l%len(pOpts)], ts)
				}
			}},
		},
	})
}
