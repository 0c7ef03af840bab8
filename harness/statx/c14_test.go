package statx

import (
	"fmt"
	"math"
	"sort"
	"testing"

	"github.com/square/finch/stats"

	"finchverif/report"
)

// The documented histogram: bucket 0 is [0,10) µs, bucket i is [10*f^(i-1), 10*f^i),
// the last one (449) everything above.
const growth = 1.0471285480508996
const nBuckets = 450

var edges = func() []float64 { // edges[i]: lower edge of bucket i
	e := make([]float64, nBuckets)
	for i := 1; i < nBuckets; i++ {
		e[i] = 10 * math.Pow(growth, float64(i-1))
	}
	return e
}()

func bucketOf(d int64) int {
	return sort.Search(nBuckets, func(i int) bool { return i > 0 && edges[i] > float64(d) }) - 1
}

// inBucket: v lies in the bucket of d, give or take 1 µs (values are whole microseconds)
func inBucket(v uint64, d int64) bool {
	b := bucketOf(d)
	hi := math.Inf(1)
	if b+1 < nBuckets {
		hi = edges[b+1]
	} else {
		hi = edges[b] * growth
	}
	return float64(v) >= math.Floor(edges[b])-1 && float64(v) <= hi+1 ||
		// a duration on an edge may be in either bucket (rounding of the logarithm)
		b > 0 && math.Abs(float64(d)-edges[b]) < 1e-6*edges[b] && float64(v) >= math.Floor(edges[b-1])-1 && float64(v) <= hi+1
}

var classes = []byte{stats.READ, stats.WRITE, stats.COMMIT, stats.TOTAL}

// ref is the reference: the exact multiset of recorded times per class.
type ref struct {
	t    [4][]int64
	errs map[uint16]uint64
}

func (r *ref) record(class byte, d int64) {
	r.t[class] = append(r.t[class], d)
	if class != stats.TOTAL {
		r.t[stats.TOTAL] = append(r.t[stats.TOTAL], d)
	}
}

func (r *ref) reset() { *r = ref{} }
func (r *ref) combine(o *ref) {
	for i := range r.t {
		r.t[i] = append(append([]int64{}, r.t[i]...), o.t[i]...)
	}
	e := map[uint16]uint64{}
	for k, v := range r.errs {
		e[k] += v
	}
	for k, v := range o.errs {
		e[k] += v
	}
	r.errs = e
}
func (r *ref) clone() *ref {
	n := &ref{}
	n.combine(r)
	return n
}

// candidates: the order statistics that may be the p-th percentile of sorted s
func candidates(s []int64, p float64) []int64 {
	x := p * float64(len(s)) / 100
	k := int(math.Ceil(x))
	l := []int64{}
	add := func(k int) {
		if k < 1 {
			k = 1
		}
		if k > len(s) {
			k = len(s)
		}
		l = append(l, s[k-1])
	}
	add(k)
	if r := math.Round(x); math.Abs(x-r) < 1e-9*math.Max(1, x) { // whole: floating point may fall on either side
		add(int(r))
		add(int(r) + 1)
	}
	return l
}

var percentiles = []float64{1, 5, 25, 33.3, 50, 66.7, 75, 90, 95, 99, 99.9, 99.99, 100}

// lists of percentiles, in any order, with repeats
var lists = [][]float64{
	percentiles,
	{100, 99.99, 99.9, 99, 95, 90, 75, 66.7, 50, 33.3, 25, 5, 1},
	{99, 50}, {50, 99}, {50, 50, 50}, {99.9, 1, 99.9}, {25, 100, 5, 95},
	{99}, {},
}

func checkPercentiles(s *stats.Stats, class byte, sorted []int64, list []float64) string {
	q := s.Percentiles(class, list)
	if len(q) != len(list) {
		return fmt.Sprintf("%d percentiles for %v", len(q), list)
	}
	for i, p := range list {
		if len(sorted) == 0 {
			if q[i] != 0 {
				return fmt.Sprintf("P%v of nothing is %d", p, q[i])
			}
			continue
		}
		ok := false
		c := candidates(sorted, p)
		for _, d := range c {
			ok = ok || inBucket(q[i], d)
		}
		if !ok {
			return fmt.Sprintf("P%v in list %v is %d, the exact percentile is %d (bucket [%.1f,...))", p, list, q[i], c[0], edges[bucketOf(c[0])])
		}
	}
	return ""
}

// equal compares s with the reference.
func equal(s *stats.Stats, r *ref, ll [][]float64) string {
	for _, c := range classes {
		l := append([]int64{}, r.t[c]...)
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		if s.N[c] != uint64(len(l)) {
			return fmt.Sprintf("class %d: count %d, recorded %d", c, s.N[c], len(l))
		}
		min, max := int64(0), int64(0)
		if len(l) > 0 {
			min, max = l[0], l[len(l)-1]
		}
		if s.Min[c] != min || s.Max[c] != max {
			return fmt.Sprintf("class %d: min %d max %d, recorded %v", c, s.Min[c], s.Max[c], l)
		}
		for _, p := range ll {
			if m := checkPercentiles(s, c, l, p); m != "" {
				return fmt.Sprintf("class %d: %s; recorded %v", c, m, cutInts(l))
			}
		}
	}
	for k, v := range s.Errors {
		if v != r.errs[k] {
			return fmt.Sprintf("error %d counted %d times, recorded %d", k, v, r.errs[k])
		}
	}
	for k, v := range r.errs {
		if v != s.Errors[k] {
			return fmt.Sprintf("error %d counted %d times, recorded %d", k, s.Errors[k], v)
		}
	}
	return ""
}

func cutInts(l []int64) string {
	if len(l) > 12 {
		return fmt.Sprintf("%v...%v (%d)", l[:6], l[len(l)-6:], len(l))
	}
	return fmt.Sprint(l)
}

// single: one recorded time d.
func single(c *report.Ctx, s *stats.Stats, d int64, seen map[int]bool) bool {
	s.Reset()
	s.Record(stats.READ, d)
	r := &ref{}
	r.record(stats.READ, d)
	msg := ""
	for _, cl := range []byte{stats.READ, stats.TOTAL} {
		if s.N[cl] != 1 || s.Min[cl] != d || s.Max[cl] != d {
			msg = fmt.Sprintf("class %d: N %d min %d max %d", cl, s.N[cl], s.Min[cl], s.Max[cl])
		}
	}
	if msg == "" {
		q := s.Percentiles(stats.READ, []float64{50, 99.9})
		if len(q) != 2 || !inBucket(q[0], d) || !inBucket(q[1], d) {
			msg = fmt.Sprintf("percentiles P50, P99.9 are %v, bucket from %.1f", q, edges[bucketOf(d)])
		}
	}
	key := ""
	if b := bucketOf(d); !seen[b] {
		seen[b] = true
		key = fmt.Sprintf("one query of %d us: bucket %d", d, b)
	}
	c.Case(key)
	if msg != "" {
		c.Violate("one recorded time", fmt.Sprintf("one query of %d us recorded: %s", d, msg), map[string]interface{}{"us": d})
		return false
	}
	return true
}

func singles(from, to int64) func(*report.Ctx) {
	return func(c *report.Ctx) {
		s := stats.NewStats()
		seen := map[int]bool{}
		for d := from; d < to; d++ {
			if !single(c, s, d, seen) || d%1024 == 0 && c.TimeUp() {
				return
			}
		}
	}
}

func singleEdges(c *report.Ctx) {
	s := stats.NewStats()
	seen := map[int]bool{}
	for _, e := range edges {
		for o := int64(-3); o <= 3; o++ {
			if d := int64(e) + o; d >= 0 && !single(c, s, d, seen) {
				return
			}
		}
	}
	// far beyond the last bucket
	for _, d := range []int64{9e9, 1e10, 1e11, 1e12, 1e15} {
		if !single(c, s, d, seen) {
			return
		}
	}
	// the bucket's inside, in steps
	for i := 1; i < nBuckets-1; i++ {
		for k := int64(1); k < 16; k++ {
			if !single(c, s, int64(edges[i]+(edges[i+1]-edges[i])*float64(k)/16), seen) {
				return
			}
		}
	}
}

// sequences: every sequence of n records over the given times and all classes.
func sequences(n int, times []int64) func(*report.Ctx) {
	return func(c *report.Ctx) {
		type sym struct {
			cl byte
			d  int64
		}
		var abc []sym
		for _, cl := range classes {
			for _, d := range times {
				abc = append(abc, sym{cl, d})
			}
		}
		var rec func(pre []sym)
		bad := false
		rec = func(pre []sym) {
			if bad || c.TimeUp() {
				return
			}
			s := stats.NewStats()
			r := &ref{}
			for _, x := range pre {
				s.Record(x.cl, x.d)
				r.record(x.cl, x.d)
			}
			c.Case(fmt.Sprint(r.t))
			if m := equal(s, r, lists); m != "" {
				bad = true
				c.Violate("records: "+fmt.Sprint(pre), fmt.Sprintf("after recording (class,us) %v: %s", pre, m), pre)
				return
			}
			if len(pre) < n {
				for _, x := range abc {
					rec(append(append([]sym{}, pre...), x))
				}
			}
		}
		rec(nil)
	}
}

// mixes: N records of which k take a and the others b, for every k.
func mixes(ns []int, pairs [][2]int64) func(*report.Ctx) {
	return func(c *report.Ctx) {
		for _, n := range ns {
			for _, ab := range pairs {
				for k := 0; k <= n; k++ {
					if c.TimeUp() {
						return
					}
					s := stats.NewStats()
					l := make([]int64, 0, n)
					for i := 0; i < n; i++ {
						d := ab[1]
						if i < k {
							d = ab[0]
						}
						s.Record(stats.WRITE, d)
						l = append(l, d)
					}
					c.Case(fmt.Sprintf("%d of %d take %d us, others %d us", k, n, ab[0], ab[1]))
					m := checkPercentiles(s, stats.WRITE, l, percentiles)
					if m == "" {
						m = checkPercentiles(s, stats.TOTAL, l, lists[1])
					}
					if m != "" {
						c.Violate("percentiles of many", fmt.Sprintf("%d of %d queries take %d us, others %d us: %s", k, n, ab[0], ab[1], m), nil)
						return
					}
				}
			}
		}
	}
}

// operations: every sequence of operations on three Stats, up to depth n.
func operations(n int) func(*report.Ctx) {
	type op struct {
		name string
		do   func(s []*stats.Stats, r []*ref)
	}
	var ops []op
	for i := 0; i < 2; i++ {
		i := i
		ops = append(ops,
			op{fmt.Sprintf("%d.read(50)", i), func(s []*stats.Stats, r []*ref) { s[i].Record(stats.READ, 50); r[i].record(stats.READ, 50) }},
			op{fmt.Sprintf("%d.commit(7000)", i), func(s []*stats.Stats, r []*ref) { s[i].Record(stats.COMMIT, 7000); r[i].record(stats.COMMIT, 7000) }},
			op{fmt.Sprintf("%d.error(1213)", i), func(s []*stats.Stats, r []*ref) { s[i].Errors[1213]++; r[i].err(1213) }},
			op{fmt.Sprintf("%d.reset", i), func(s []*stats.Stats, r []*ref) { s[i].Reset(); r[i].reset() }},
		)
	}
	ops = append(ops, op{"0.write(0)", func(s []*stats.Stats, r []*ref) { s[0].Record(stats.WRITE, 0); r[0].record(stats.WRITE, 0) }},
		op{"1.error(1062)", func(s []*stats.Stats, r []*ref) { s[1].Errors[1062]++; r[1].err(1062) }})
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			if i == j {
				continue
			}
			i, j := i, j
			ops = append(ops,
				op{fmt.Sprintf("%d.copy(%d)", i, j), func(s []*stats.Stats, r []*ref) { s[i].Copy(s[j]); r[i] = r[j].clone() }},
				op{fmt.Sprintf("%d.combine(%d)", i, j), func(s []*stats.Stats, r []*ref) { s[i].Combine(s[j]); r[i].combine(r[j]) }})
		}
	}
	return func(c *report.Ctx) {
		seq := make([]int, n)
		ll := [][]float64{{50, 99}, {100, 1}}
		for {
			if c.TimeUp() {
				return
			}
			s := []*stats.Stats{stats.NewStats(), stats.NewStats(), stats.NewStats()}
			r := []*ref{{}, {}, {}}
			var names []string
			for _, k := range seq {
				ops[k].do(s, r)
				names = append(names, ops[k].name)
			}
			c.State(1, n, 0)
			c.Case(fmt.Sprint(r[0].t, r[0].errs, r[1].t, r[1].errs, r[2].t, r[2].errs))
			for i := range s {
				if m := equal(s[i], r[i], ll); m != "" {
					c.Violate("operations "+fmt.Sprint(names), fmt.Sprintf("after %v, statistics %d: %s", names, i, m), names)
					return
				}
			}
			i := n - 1
			for ; i >= 0; i-- {
				seq[i]++
				if seq[i] < len(ops) {
					break
				}
				seq[i] = 0
			}
			if i < 0 {
				return
			}
		}
	}
}

func (r *ref) err(n uint16) {
	e := map[uint16]uint64{n: 1}
	for k, v := range r.errs {
		e[k] += v
	}
	r.errs = e
}

// combined: Instance.Combine of every list of 1-3 instances out of an alphabet,
// repeatedly into the same instance.
func combined(c *report.Ctx) {
	mk := func(k int) (stats.Instance, *ref) {
		in := stats.NewInstance(fmt.Sprintf("h%d", k))
		in.Clients = uint(1 + k)
		in.Interval = 3
		in.Seconds = 2
		in.Runtime = 6
		r := &ref{}
		switch k {
		case 0: // nothing recorded
		case 1:
			in.Total.Record(stats.READ, 100)
			r.record(stats.READ, 100)
		case 2:
			in.Total.Record(stats.WRITE, 9)
			in.Total.Record(stats.COMMIT, 1000000)
			r.record(stats.WRITE, 9)
			r.record(stats.COMMIT, 1000000)
			in.Total.Errors[1213] = 2
			r.err(1213)
			r.err(1213)
		case 3:
			in.Total.Errors[1062] = 1
			r.err(1062)
		}
		return in, r
	}
	var tuples [][]int
	for a := 0; a < 4; a++ {
		tuples = append(tuples, []int{a})
		for b := 0; b < 4; b++ {
			tuples = append(tuples, []int{a, b})
			for d := 0; d < 4; d++ {
				tuples = append(tuples, []int{a, b, d})
			}
		}
	}
	one := func(all *stats.Instance, t []int) string {
		var from []stats.Instance
		r := &ref{}
		cl := uint(0)
		for _, k := range t {
			in, x := mk(k)
			from = append(from, in)
			r.combine(x)
			cl += in.Clients
		}
		all.Combine(from)
		if all.Clients != cl || all.Interval != 3 || all.Seconds != 2 || all.Runtime != 6 {
			return fmt.Sprintf("clients %d (expected %d) interval %d seconds %v runtime %v", all.Clients, cl, all.Interval, all.Seconds, all.Runtime)
		}
		if m := equal(all.Total, r, lists[:2]); m != "" {
			return m
		}
		for i, k := range t { // combining must not change what was combined
			in, x := mk(k)
			if m := equal(from[i].Total, x, nil); m != "" || from[i].Clients != in.Clients || from[i].Hostname != in.Hostname {
				return fmt.Sprintf("instance %d was modified: %s", i, m)
			}
		}
		return ""
	}
	for _, t1 := range tuples {
		for _, t2 := range tuples {
			all := stats.NewInstance("all")
			c.Case(fmt.Sprint(t1, t2))
			m := one(&all, t1)
			if m == "" {
				m = one(&all, t2)
			}
			if m != "" {
				c.Violate("instances", fmt.Sprintf("combining instances %v then %v: %s", t1, t2, m), nil)
				return
			}
		}
	}
}

func TestC14(t *testing.T) {
	var units []report.Unit
	for i := int64(0); i < 6; i++ {
		units = append(units, report.Unit{Name: fmt.Sprintf("every time from %d to %d us", i*350000, (i+1)*350000), Run: singles(i*350000, (i+1)*350000)})
	}
	few := []int64{0, 9, 10, 11, 100, 5000, 20000000000}
	var to200 []int
	for i := 1; i <= 150; i++ {
		to200 = append(to200, i)
	}
	units = append(units,
		report.Unit{Name: "around bucket edges", Run: singleEdges},
		report.Unit{Name: "sequences of 3 records", Run: sequences(3, few)},
		report.Unit{Name: "sequences of 4 records", Thorough: true, Run: sequences(4, few)},
		report.Unit{Name: "mixes of up to 150", Run: mixes(to200, [][2]int64{{20, 3000}, {100, 103}, {5, 40000}})},
		report.Unit{Name: "mixes of 1000", Run: mixes([]int{999, 1000, 1001}, [][2]int64{{20, 3000}})},
		report.Unit{Name: "mixes of 10000", Thorough: true, Run: mixes([]int{10000, 9999}, [][2]int64{{20, 3000}})},
		report.Unit{Name: "4 operations", Run: operations(4)},
		report.Unit{Name: "5 operations", Thorough: true, Run: operations(5)},
		report.Unit{Name: "combined instances", Run: combined},
	)
	for i := int64(6); i < 30; i++ {
		units = append(units, report.Unit{Name: fmt.Sprintf("every time from %d to %d us", i*350000, (i+1)*350000), Thorough: true, Run: singles(i*350000, (i+1)*350000)})
	}
	report.Main(t, report.Check{
		ID:    "C14",
		Level: "exploration",
		Rule:  "evaluation = one history of Record, Errors, Reset, Copy, Combine and Instance.Combine calls on the real statistics, compared with the exact multiset of recorded times (count, min, max, errors exact; every percentile of every list in the documented bucket of the exact order statistic); distinct = by recorded contents",
		Assumptions: []string{"percentile values are whole microseconds, hence 1 us tolerance at the edges of the bucket",
			"when p*N/100 is whole, floating point may take either neighbouring order statistic"},
		Units: units,
	})
}
