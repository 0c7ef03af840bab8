// Package gens checks data generators.
package gens

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/square/finch/data"

	"finchverif/enum"
	"finchverif/report"
	"finchverif/vsched"
)

// ---------------------------------------------------------------------------
// Random draws

// drawer makes every random draw a choice.
type drawer struct {
	ch     *enum.Ch
	n      int     // draws
	exact  bool    // all values of all draws are enumerated
	weight float64 // probability of the draws, if exact
	rich   bool    // many different words
}

func (d *drawer) Int63n(n int64) int64 {
	d.n++
	if d.n > 6 { // retry loops end
		d.exact = false
		return int64(d.n) % n
	}
	if n <= 4096 {
		d.weight /= float64(n)
		return int64(d.ch.Choose(int(n)))
	}
	d.exact = false
	e := []int64{0, n - 1, 1, n - 2, n / 2, n / 3, n/2 + 1}
	return e[d.ch.Choose(len(e))]
}

func (d *drawer) Norm() float64 {
	d.n++
	d.exact = false
	if d.n > 3 {
		return float64(d.n%5) - 2
	}
	if !d.rich {
		return []float64{-3, -0.5, 0, 1, 60}[d.ch.Choose(5)]
	}
	k := d.ch.Choose(39)
	switch k {
	case 37:
		return -60
	case 38:
		return 60
	}
	return float64(k-18) / 4
}

// Word enumerates the low and high bits of the first words together.
func (d *drawer) Word() uint64 {
	d.n++
	d.exact = false
	switch {
	case d.n == 1 && d.rich:
		k := uint64(d.ch.Choose(4096))
		return k<<52 | k<<33 | k
	case d.n <= 3:
		return []uint64{0, math.MaxUint64, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 1, 1 << 62, 0xcf3cf3cf3cf3cf3c, 0x3233333333333333}[d.ch.Choose(8)]
	case d.n <= 5:
		return []uint64{0, math.MaxUint64}[d.ch.Choose(2)]
	}
	return uint64(d.n) * 0x9E3779B97F4A7C15
}

// ---------------------------------------------------------------------------

func makeGen(name string, params map[string]string) (g data.Generator, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("PANIC: %v", r)
		}
	}()
	return data.Make(name, "@d", params)
}

// values is a call of the generator; "" is no error.
func values(g data.Generator, rc data.RunCount) (v []interface{}, msg string) {
	defer func() {
		if r := recover(); r != nil {
			v, msg = nil, fmt.Sprintf("crash: %v", r)
		}
	}()
	v = g.Values(rc)
	if kept.g == g && !same(kept.v, kept.was) {
		return v, fmt.Sprintf("the value returned before was %v and is now %v", kept.was, kept.v)
	}
	kept.g, kept.v, kept.was = g, v, append(kept.was[:0], v...)
	return v, ""
}

// kept is the last value returned: finch keeps values for a scope, so they must
// not change when the generator is called again.
var kept struct {
	g      data.Generator
	v, was []interface{}
}

func same(a, b []interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		switch a[i].(type) {
		case nil, string, int64, uint64, int, uint, float64:
			if a[i] != b[i] {
				return false
			}
		}
	}
	return true
}

func text(name string, p map[string]string) string {
	var l []string
	for k, v := range p {
		l = append(l, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(l)
	return name + " " + strings.Join(l, " ")
}

type verdict int

const (
	valid verdict = iota
	invalid
	unjudged
)

// num reads an integer parameter; ok is false if it is not one.
func num(p map[string]string, k string, def int64) (int64, bool) {
	s, have := p[k]
	if !have {
		return def, true
	}
	n, err := strconv.ParseInt(s, 10, 64)
	return n, err == nil
}

// spec is the documentation of a generator.
type spec struct {
	name   string
	params map[string][]string // values of each parameter; "-" is not given
	judge  func(p map[string]string) verdict
	// value checks the values of one call
	value func(p map[string]string, v []interface{}) string
	// all checks everything that can be returned, with probabilities (if exact)
	all func(p map[string]string, out map[string]float64, exact bool) string
	n   int // number of values per call
}

func ints(v []interface{}, n int) ([]int64, string) {
	if len(v) != n {
		return nil, fmt.Sprintf("%d values, must be %d", len(v), n)
	}
	var l []int64
	for _, x := range v {
		i, ok := x.(int64)
		if !ok {
			return nil, fmt.Sprintf("value %v is a %T, must be int64", x, x)
		}
		l = append(l, i)
	}
	return l, ""
}

func uniform(out map[string]float64, want func(string) bool, n int) string {
	if len(out) != n {
		return fmt.Sprintf("%d different values are possible, must be %d", len(out), n)
	}
	for k, w := range out {
		if math.Abs(w-1/float64(n)) > 1e-9 {
			return fmt.Sprintf("probability of %s is %.4f, must be %.4f (uniform)", k, w, 1/float64(n))
		}
	}
	return ""
}

func bounds(p map[string]string) (min, max int64, ok bool) {
	min, a := num(p, "min", 1)
	max, b := num(p, "max", 100000)
	return min, max, a && b
}

func gapsCount(p map[string]string) (min, max, size int64, count float64) {
	min, max, _ = bounds(p)
	pc, _ := num(p, "p", 20)
	size = max - min + 1
	return min, max, size, float64(size) * float64(pc) / 100
}

func outcomes(out map[string]float64) []int64 {
	var l []int64
	for k := range out {
		n, _ := strconv.ParseInt(strings.Trim(k, "[]"), 10, 64)
		l = append(l, n)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

const big = "9007199254740991" // 2^53-1

var specs = []spec{
	{
		name: "int",
		params: map[string][]string{
			"min":  {"-", "0", "1", "5", "7", "1000", "x", "1.5", "-3", big},
			"max":  {"-", "0", "1", "5", "8", "1010", "x", "-1", big, "9223372036854775807"},
			"dist": {"-", "uniform", "gauss"},
		},
		judge: func(p map[string]string) verdict {
			min, max, ok := bounds(p)
			switch {
			case !ok || min > max || p["dist"] == "gauss":
				return invalid
			case min == max || min < 0:
				return unjudged
			}
			return valid
		},
		n: 1,
		value: func(p map[string]string, v []interface{}) string {
			l, e := ints(v, 1)
			min, max, _ := bounds(p)
			if e == "" && (l[0] < min || l[0] > max) {
				e = fmt.Sprintf("%d is not in [%d, %d]", l[0], min, max)
			}
			return e
		},
		all: func(p map[string]string, out map[string]float64, exact bool) string {
			min, max, _ := bounds(p)
			if exact {
				return uniform(out, nil, int(max-min+1))
			}
			return ""
		},
	},
	{
		name: "int",
		params: map[string][]string{
			"min":    {"-", "0", "1", "7", "1000"},
			"max":    {"-", "5", "8", "100", "1010", "9223372036854775807"},
			"dist":   {"normal"},
			"mean":   {"-", "1", "3", "6", "1005", "5000", "-5", "x", "2.5"},
			"stddev": {"-", "0", "1", "2.5", "100", "x", "-1", "NaN"},
		},
		judge: func(p map[string]string) verdict {
			min, max, ok := bounds(p)
			_, ok2 := num(p, "mean", 0)
			s, have := p["stddev"]
			f, err := strconv.ParseFloat(s, 64)
			switch {
			case !ok || min > max || !ok2 || have && err != nil:
				return invalid
			case min == max || p["mean"] == "-5" || have && !(f >= 0):
				return unjudged
			}
			return valid
		},
		n: 1,
		value: func(p map[string]string, v []interface{}) string {
			l, e := ints(v, 1)
			min, max, _ := bounds(p)
			if e == "" && (l[0] < min || l[0] > max) {
				e = fmt.Sprintf("%d is not in [%d, %d]", l[0], min, max)
			}
			return e
		},
	},
	{
		name: "int-gaps",
		params: map[string][]string{
			"min": {"-", "0", "1", "5", "7", "1000", "x"},
			"max": {"-", "1", "5", "8", "11", "100", "129", "1010", "x", "1000000000000"},
			"p":   {"-", "1", "2", "10", "29", "33", "50", "51", "66", "99", "100", "0", "101", "-1", "x"},
		},
		judge: func(p map[string]string) verdict {
			min, max, ok := bounds(p)
			pc, ok2 := num(p, "p", 20)
			switch {
			case !ok || !ok2 || min > max || pc < 1 || pc > 100:
				return invalid
			case min == max:
				return unjudged
			}
			return valid
		},
		n: 1,
		value: func(p map[string]string, v []interface{}) string {
			l, e := ints(v, 1)
			min, max, _ := bounds(p)
			if e == "" && (l[0] < min || l[0] > max) {
				e = fmt.Sprintf("%d is not in [%d, %d]", l[0], min, max)
			}
			return e
		},
		all: func(p map[string]string, out map[string]float64, exact bool) string {
			min, max, size, count := gapsCount(p)
			if !exact {
				return ""
			}
			if n := float64(len(out)); math.Abs(n-count) > 1+1e-9 && n != 1 {
				return fmt.Sprintf("%d different values are possible, must be %.2f", len(out), count)
			}
			if m := uniform(out, nil, len(out)); m != "" {
				return m
			}
			l := outcomes(out)
			if len(l) == 1 {
				return ""
			}
			most := 2*float64(size)/float64(len(l)) + 1
			last := min
			for _, n := range append(l, max) {
				if float64(n-last) > most {
					return fmt.Sprintf("no values between %d and %d: %v", last, n, l)
				}
				last = n
			}
			return ""
		},
	},
	{
		name: "int-range",
		params: map[string][]string{
			"min":  {"-", "0", "1", "5", "7", "1000", "x", "-4"},
			"max":  {"-", "0", "2", "5", "8", "12", "1010", "x", big},
			"size": {"-", "1", "2", "3", "5", "8", "0", "-1", "x", "100000", "9223372036854775807"},
		},
		judge: func(p map[string]string) verdict {
			min, max, ok := bounds(p)
			size, ok2 := num(p, "size", 100)
			switch {
			case !ok || !ok2 || min > max || size < 1:
				return invalid
			case min == max || size > max-min+1:
				return unjudged
			}
			return valid
		},
		n: 2,
		value: func(p map[string]string, v []interface{}) string {
			l, e := ints(v, 2)
			min, max, _ := bounds(p)
			size, _ := num(p, "size", 100)
			if e != "" {
				return e
			}
			if l[0] < min || l[0] > max || l[1] < l[0] || l[1] > max {
				return fmt.Sprintf("%v is not an ordered pair in [%d, %d]", l, min, max)
			}
			if uint64(l[1]-l[0])+1 != uint64(size) && l[1] != max || uint64(l[1]-l[0])+1 > uint64(size) {
				return fmt.Sprintf("%v is not %d values and does not end at %d", l, size, max)
			}
			return ""
		},
		all: func(p map[string]string, out map[string]float64, exact bool) string {
			min, max, _ := bounds(p)
			size, _ := num(p, "size", 100)
			if !exact {
				return ""
			}
			// lower bounds are uniform, except that the last ones, for which there is
			// no complete range, may be left out
			lo := map[int64]float64{}
			for k, w := range out {
				n, _ := strconv.ParseInt(strings.Fields(strings.Trim(k, "[]"))[0], 10, 64)
				lo[n] += w
			}
			for n, w := range lo {
				if math.Abs(w-1/float64(len(lo))) > 1e-9 {
					return fmt.Sprintf("probability of a range from %d is %.4f, must be %.4f (uniform)", n, w, 1/float64(len(lo)))
				}
			}
			last := max - size + 1
			if last >= max {
				last = max - 1
			}
			for n := min; n <= last; n++ {
				if lo[n] == 0 {
					return fmt.Sprintf("no range from %d is possible", n)
				}
			}
			return ""
		},
	},
	{
		name:   "str-fill-az",
		params: map[string][]string{"len": {"-", "1", "2", "3", "9", "10", "11", "20", "21", "64", "1000", "0", "-1", "x", "1.5"}},
		judge: func(p map[string]string) verdict {
			n, ok := num(p, "len", 100)
			if !ok || n < 1 {
				return invalid
			}
			return valid
		},
		n: 1,
		value: func(p map[string]string, v []interface{}) string {
			n, _ := num(p, "len", 100)
			if len(v) != 1 {
				return fmt.Sprintf("%d values", len(v))
			}
			s, ok := v[0].(string)
			if !ok || int64(len(s)) != n {
				return fmt.Sprintf("%q (%T) is not a string of %d characters", v[0], v[0], n)
			}
			for _, c := range s {
				if (c < 'a' || c > 'z') && (c < 'A' || c > 'Z') {
					return fmt.Sprintf("%q is not only a-z and A-Z", s)
				}
			}
			return ""
		},
		all: func(p map[string]string, out map[string]float64, exact bool) string {
			n, _ := num(p, "len", 100)
			if n > 2 {
				return ""
			}
			for i := 0; i < int(n); i++ {
				have := map[byte]bool{}
				for k := range out {
					have[strings.Trim(k, "[]")[i]] = true
				}
				if len(have) != 52 {
					return fmt.Sprintf("only %d different letters are possible at position %d", len(have), i)
				}
			}
			return ""
		},
	},
	{
		name:   "xid",
		params: map[string][]string{},
		judge:  func(map[string]string) verdict { return valid },
		n:      1,
		value: func(p map[string]string, v []interface{}) string {
			if len(v) != 1 {
				return fmt.Sprintf("%d values", len(v))
			}
			s, ok := v[0].(string)
			if !ok || len(s) != 20 || strings.Trim(s, "0123456789abcdefghijklmnopqrstuv") != "" {
				return fmt.Sprintf("%q (%T) is not an xid", v[0], v[0])
			}
			return ""
		},
	},
}

// combos calls f with all combinations of parameters.
func combos(m map[string][]string, f func(p map[string]string) bool) {
	var names []string
	for k := range m {
		names = append(names, k)
	}
	sort.Strings(names)
	enum.All(func(ch *enum.Ch) bool {
		p := map[string]string{}
		for _, k := range names {
			if v := m[k][ch.Choose(len(m[k]))]; v != "-" {
				p[k] = v
			}
		}
		return f(p)
	})
}

// domain: values of all draws of all parameters.
func domain(s spec) func(c *report.Ctx) {
	return func(c *report.Ctx) {
		defer vsched.SetDraws(nil)
		combos(s.params, func(p map[string]string) bool {
			if c.TimeUp() {
				return false
			}
			desc := text(s.name, p)
			v := s.judge(p)
			vsched.SetDraws(nil)
			g, err := makeGen(s.name, p)
			c.Case(desc)
			if err != nil {
				if strings.HasPrefix(err.Error(), "PANIC") {
					c.Violate(s.name+" params", desc+": "+err.Error(), p)
				} else if v == valid {
					c.Violate(s.name+" params", desc+": valid, but "+err.Error(), p)
				}
				return true
			}
			if v == invalid {
				c.Violate(s.name+" params", desc+": invalid, but no error", p)
				return true
			}
			if n, _ := g.Format(); n != uint(s.n) || g.Name() != s.name {
				c.Violate(s.name+" format", fmt.Sprintf("%s: name %s with %d values per call", desc, g.Name(), n), p)
				return true
			}
			for _, calls := range []int{1, 2} {
				for _, cp := range []bool{false, true} {
					x := g
					if cp {
						x = g.Copy()
						if x == nil || reflect.ValueOf(x).IsNil() {
							c.Violate(s.name+" copy", desc+": no copy", p)
							return true
						}
					}
					out := map[string]float64{}
					pair := map[string]float64{}
					exact := true
					drawn := 0
					bad := ""
					runs := 0
					enum.All(func(ch *enum.Ch) bool {
						d := &drawer{ch: ch, exact: true, weight: 1, rich: calls == 1}
						vsched.SetDraws(d)
						key := ""
						first := ""
						for i := 0; i < calls; i++ {
							v, m := values(x, data.RunCount{})
							if m == "" {
								m = s.value(p, v)
							}
							if m != "" {
								bad = fmt.Sprintf("call %d: %s (draws %v)", i+1, m, ch.Picks())
								return false
							}
							k := fmt.Sprint(v)
							if s.name == "xid" && k == first {
								bad = "two equal xids " + k
								return false
							}
							first = k
							key += k
							out[k] += d.weight // only used with one call
						}
						pair[key] += d.weight
						exact = exact && d.exact
						drawn += d.n
						runs++
						c.Case(desc + key)
						return runs < c.Pick(20000, 200000) && !c.TimeUp()
					})
					vsched.SetDraws(nil)
					if c.TimeUp() {
						return false
					}
					if bad == "" && calls == 1 && s.all != nil && drawn > 0 {
						bad = s.all(p, out, exact)
					}
					if bad == "" && calls == 2 && exact && drawn > 0 && runs < c.Pick(20000, 200000) {
						// the calls are independent: all pairs of values
						if s.name == "int" {
							min, max, _ := bounds(p)
							n := int(max - min + 1)
							bad = uniform(pair, nil, n*n)
						}
					}
					if bad != "" {
						c.Violate(s.name+" values", fmt.Sprintf("%s (copy %v): %s", desc, cp, bad), p)
						return true
					}
				}
			}
			return true
		})
	}
}

// ---------------------------------------------------------------------------
// Sequences

// seq is the documented sequence of a sequential generator: element i.
type seq struct {
	name   string
	params map[string][]string
	judge  func(p map[string]string) verdict
	at     func(p map[string]string, i int) string
}

func seqBounds(p map[string]string) (begin, end, size int64, ok bool) {
	begin, a := num(p, "begin", 1)
	end, b := num(p, "end", 100000)
	size, c := num(p, "size", 100)
	return begin, end, size, a && b && c
}

func unum(p map[string]string, k string, def uint64) (uint64, bool) {
	s, have := p[k]
	if !have {
		return def, true
	}
	n, err := strconv.ParseUint(s, 10, 64)
	return n, err == nil
}

var seqs = []seq{
	{
		name: "int-range-seq",
		params: map[string][]string{
			"begin": {"-", "0", "1", "5", "-3", "99990", "9223372036854775800", "x"},
			"end":   {"-", "1", "2", "5", "7", "12", "9223372036854775807", "x"},
			"size":  {"-", "1", "2", "3", "4", "7", "8", "0", "-2", "x", "99999", "9223372036854775807"},
		},
		judge: func(p map[string]string) verdict {
			begin, end, size, ok := seqBounds(p)
			switch {
			case !ok || begin > end || size < 1:
				return invalid
			case begin == end || end-begin < 0 || uint64(size) > uint64(end)-uint64(begin)+1:
				return unjudged
			}
			return valid
		},
		at: func(p map[string]string, i int) string {
			begin, end, size, _ := seqBounds(p)
			chunks := (uint64(end)-uint64(begin))/uint64(size) + 1
			k := uint64(i) % chunks
			n := begin + int64(k)*size
			m := end
			if uint64(end)-uint64(n) >= uint64(size) {
				m = n + size - 1
			}
			return fmt.Sprint([]interface{}{n, m})
		},
	},
	{
		name: "auto-inc",
		params: map[string][]string{
			"start": {"-", "0", "1", "10", "100", "9223372036854775807", "-1", "x", "1.5"},
			"step":  {"-", "1", "2", "5", "1000000", "0", "-1", "x"},
		},
		judge: func(p map[string]string) verdict {
			_, a := unum(p, "start", 0)
			step, b := unum(p, "step", 1)
			if !a || !b || step == 0 {
				return invalid
			}
			return valid
		},
		at: func(p map[string]string, i int) string {
			start, _ := unum(p, "start", 0)
			step, _ := unum(p, "step", 1)
			return fmt.Sprint([]interface{}{start + step*uint64(i+1)})
		},
	},
}

func sequences(s seq) func(c *report.Ctx) {
	return func(c *report.Ctx) {
		combos(s.params, func(p map[string]string) bool {
			if c.TimeUp() {
				return false
			}
			desc := text(s.name, p)
			v := s.judge(p)
			g, err := makeGen(s.name, p)
			c.Case(desc)
			switch {
			case err != nil && strings.HasPrefix(err.Error(), "PANIC"):
				c.Violate(s.name+" params", desc+": "+err.Error(), p)
				return true
			case err != nil && v == valid:
				c.Violate(s.name+" params", desc+": valid, but "+err.Error(), p)
				return true
			case err == nil && v == invalid:
				c.Violate(s.name+" params", desc+": invalid, but no error", p)
				return true
			case err != nil || v == unjudged:
				return true
			}
			// All interleavings of calls of the generator and a copy of it, and of a
			// long run of one of them (it wraps around several times)
			max := c.Pick(8, 12)
			enum.All(func(ch *enum.Ch) bool {
				g, _ := makeGen(s.name, p)
				cp := g.Copy()
				n := [2]int{}
				for i := 0; i < max; i++ {
					k := ch.Choose(2)
					v, m := values([]data.Generator{g, cp}[k], data.RunCount{})
					if want := s.at(p, n[k]); m == "" && fmt.Sprint(v) != want {
						m = fmt.Sprintf("value %d is %v, must be %s", n[k]+1, v, want)
					}
					if m != "" {
						c.Violate(s.name+" sequence", fmt.Sprintf("%s: calls of original (0) and copy (1) %v: %s", desc, ch.Picks(), m), p)
						return false
					}
					n[k]++
				}
				c.Case(fmt.Sprint(desc, ch.Picks()))
				return !c.TimeUp()
			})
			for i := 0; i < c.Pick(3000, 50000); i++ {
				v, m := values(g, data.RunCount{})
				if want := s.at(p, i); m == "" && fmt.Sprint(v) != want {
					m = fmt.Sprintf("value %d is %v, must be %s", i+1, v, want)
				}
				if m != "" {
					c.Violate(s.name+" sequence", desc+": "+m, p)
					return true
				}
			}
			// A copy of a used generator does not change it
			g, _ = makeGen(s.name, p)
			for i := 0; i < 5; i++ {
				g.Copy().Values(data.RunCount{})
				v, m := values(g, data.RunCount{})
				if want := s.at(p, i); m != "" || fmt.Sprint(v) != want {
					c.Violate(s.name+" sequence", fmt.Sprintf("%s: after %d copies, value is %v, must be %s %s", desc, i+1, v, want, m), p)
					return true
				}
			}
			return true
		})
	}
}

// ---------------------------------------------------------------------------
// Shared use

// validShared judges a value of a generator made with the parameters below.
func validShared(name, v string) bool {
	var a, b int
	switch name {
	case "int-range": // 10 to 20, 3 values
		n, _ := fmt.Sscanf(v, "[%d %d]", &a, &b)
		return n == 2 && a >= 10 && b <= 20 && b >= a && (b == a+2 || b == 20 && b < a+2)
	case "int", "int-gaps": // 10 to 20
		n, _ := fmt.Sscanf(v, "[%d]", &a)
		return n == 1 && a >= 10 && a <= 20
	}
	return len(v) >= 3 && strings.Trim(v, "[]abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") == ""
}

// draws are random values that are the same in every execution.
type draws int64

func (d *draws) Int63n(n int64) int64 { *d++; return int64(*d) * 7919 % n }
func (d *draws) Norm() float64        { *d++; return float64(*d) / 1e6 }
func (d *draws) Word() uint64         { *d++; return uint64(*d) * 0x9E3779B97F4A7C15 }

// shared: callers call one generator concurrently.
func shared(name string, params map[string]string, want func(i int) string) func(c *report.Ctx) {
	return func(c *report.Ctx) {
		for _, callers := range [][]int{{2, 2}, {3, 2}, {1, 1, 1}, {2, 1, 1}, {2, 2, 2}} {
			if len(callers) == 3 && callers[1] == 2 && !c.Thorough() {
				continue
			}
			desc := fmt.Sprintf("%s callers %v", text(name, params), callers)
			c.Explore(&vsched.Scenario{
				Opts: vsched.Opts{Name: desc, Bound: c.Pick(3, 5), Horizon: time.Minute},
				New: func() (func(), func(vsched.Run) (string, string)) {
					vsched.SourceMisuse.Store(0)
					vsched.SetDraws(new(draws))
					got := make([][]string, len(callers))
					vals := make([][][]interface{}, len(callers))
					bad := ""
					body := func() {
						g, err := makeGen(name, params)
						if err != nil {
							bad = err.Error()
							return
						}
						var wg sync.WaitGroup
						for i, n := range callers {
							wg.Add(1)
							i, n := i, n
							vsched.Go(func() {
								defer wg.Done()
								for k := 0; k < n; k++ {
									vals[i] = append(vals[i], g.Values(data.RunCount{}))
								}
							})
						}
						wg.Wait()
						for i := range vals { // they do not change later
							for _, v := range vals[i] {
								got[i] = append(got[i], fmt.Sprint(v))
							}
						}
					}
					return body, func(r vsched.Run) (string, string) {
						vsched.SetDraws(nil)
						out := fmt.Sprint(got)
						if bad != "" {
							return bad, desc + ": " + bad
						}
						if n := vsched.SourceMisuse.Load(); n > 0 {
							return "misuse", desc + ": a random source that is not safe for concurrent use is used concurrently"
						}
						if r.Deadlock || r.Livelock {
							return "stuck", desc + ": callers are stuck"
						}
						if want == nil {
							for _, l := range got {
								for _, v := range l {
									if !validShared(name, v) {
										return "bad", desc + ": value " + v
									}
								}
							}
							return "ok", ""
						}
						// exactly the first elements of the sequence, each caller in order
						pos := map[string][]int{}
						n := 0
						for _, l := range got {
							n += len(l)
						}
						for i := 0; i < n; i++ {
							pos[want(i)] = append(pos[want(i)], i)
						}
						all := map[string]int{}
						for _, l := range got {
							for _, v := range l {
								all[v]++
							}
						}
						for v, k := range all {
							if len(pos[v]) != k {
								return out, fmt.Sprintf("%s: callers got %v: %s %d times, must be %d times", desc, got, v, k, len(pos[v]))
							}
						}
						for _, l := range got {
							last := -1
							for _, v := range l {
								if len(pos[v]) != 1 {
									continue
								}
								if pos[v][0] < last {
									return out, fmt.Sprintf("%s: a caller got %v: not in order", desc, l)
								}
								last = pos[v][0]
							}
						}
						return out, ""
					}
				},
			})
		}
	}
}

// ---------------------------------------------------------------------------
// client-id and column

func clientIds(c *report.Ctx) {
	names := []string{"statement", "trx", "iter", "conn", "client", "client-group", "exec-group"}
	at := map[string]byte{"statement": data.STATEMENT, "trx": data.TRX, "iter": data.ITER, "conn": data.CONN, "client": data.CLIENT, "client-group": data.CLIENT_GROUP, "exec-group": data.EXEC_GROUP}
	alpha := append(append([]string{}, names...), "nope", "stage")
	var rc data.RunCount
	for i := range rc {
		rc[i] = uint(100 + i)
	}
	check := func(p map[string]string, ids []string) {
		desc := text("client-id", p)
		c.Case(desc)
		bad := false
		for _, n := range ids {
			if n == "stage" { // not a documented level
				return
			}
			if _, ok := at[n]; !ok {
				bad = true
			}
		}
		g, err := makeGen("client-id", p)
		if (err != nil) != bad || err != nil && strings.HasPrefix(err.Error(), "PANIC") {
			c.Violate("client-id", fmt.Sprintf("%s: error %v", desc, err), p)
			return
		}
		if err != nil {
			return
		}
		for _, g := range []data.Generator{g, g.Copy()} {
			if n, f := g.Format(); int(n) != len(ids) || f != "%d" {
				c.Violate("client-id", fmt.Sprintf("%s: format %d %s", desc, n, f), p)
				return
			}
			v1, m1 := values(g, rc)
			s1 := fmt.Sprint(v1)
			var rc2 data.RunCount
			v2, m2 := values(g, rc2)
			want, zero := []interface{}{}, []interface{}{}
			for _, n := range ids {
				want = append(want, rc[at[n]])
				zero = append(zero, 0)
			}
			if m1+m2 != "" || s1 != fmt.Sprint(want) || fmt.Sprint(v1) != s1 || fmt.Sprint(v2) != fmt.Sprint(zero) {
				c.Violate("client-id", fmt.Sprintf("%s: values %v (%v after the next call), must be %v; then %v, must be %v %s", desc, s1, v1, want, v2, zero, m1+m2), p)
				return
			}
		}
	}
	check(nil, []string{"client"})
	check(map[string]string{}, []string{"client"})
	var rec func(l []string)
	rec = func(l []string) {
		if len(l) > 0 {
			check(map[string]string{"ids": strings.Join(l, ",")}, l)
		}
		if len(l) == c.Pick(3, 5) {
			return
		}
		for _, n := range alpha {
			rec(append(append([]string{}, l...), n))
		}
	}
	rec(nil)
}

type scanned struct {
	v    interface{}
	want string // "" if only that there is no crash
}

func columns(c *report.Ctx) {
	t := time.Date(2024, 2, 3, 14, 5, 6, 7000, time.UTC)
	kinds := []scanned{
		{int64(5), "5"}, {int64(-1), "-1"}, {"str", "str"}, {[]byte("bytes"), "bytes"}, {[]byte(""), ""}, {[]byte("x"), "x"},
		{1.5, "1.5"}, {nil, "NULL"}, {t, "2024-02-03 14:05:06.000007"}, {uint64(math.MaxUint64), "18446744073709551615"},
	}
	all := kinds
	for i, q := range []string{"yes", "no", "true", "false", "on", "off", "aye", "YES"} {
		quoted := q != "no" && q != "false" && q != "off"
		kinds := all
		if i > 1 && !c.Thorough() {
			kinds = []scanned{all[0], all[2], all[3], all[7], all[8]}
		}
		p := map[string]string{"quote-value": q}
		g, err := makeGen("column", p)
		c.Case("column " + q)
		f := ""
		if err == nil {
			_, f = g.Format()
		}
		if err != nil || (f == "%v") == quoted || !strings.Contains(f, "%v") {
			c.Violate("column quote-value", fmt.Sprintf("quote-value %q: error %v format %s", q, err, f), p)
			return
		}
		if _, f2 := g.Copy().Format(); f2 != f {
			c.Violate("column copy", fmt.Sprintf("quote-value %q: format %s, of the copy %s", q, f, f2), p)
			return
		}
		// sequences of operations on a generator and its copy
		max := c.Pick(4, 5)
		enum.All(func(ch *enum.Ch) bool {
			g, _ := makeGen("column", p)
			gs := []data.Generator{g, g.Copy()}
			want := []string{"-", "-"}
			var old []interface{} // values taken before, and what they were
			var was []string
			var desc []string
			for i := 0; i < max; i++ {
				k := ch.Choose(2)
				o := ch.Choose(len(kinds) + 2)
				if o == len(kinds)+1 { // of a generator in use
					gs[1] = gs[0].Copy()
					want[1] = "-"
					desc = append(desc, "copy")
					continue
				}
				if o < len(kinds) {
					x := kinds[o]
					v := x.v
					if b, ok := v.([]byte); ok {
						v = append([]byte{}, b...)
					}
					if err := gs[k].Scan(v); err != nil {
						c.Violate("column", fmt.Sprintf("scan %v: %s", v, err), nil)
						return false
					}
					if b, ok := v.([]byte); ok { // the driver reuses its buffer
						for i := range b {
							b[i] = '#'
						}
					}
					want[k] = x.want
					desc = append(desc, fmt.Sprintf("%d saves %T %q", k, x.v, x.want))
				} else {
					if want[k] == "-" {
						return true // nothing saved
					}
					v, m := values(gs[k], data.RunCount{})
					desc = append(desc, fmt.Sprintf("%d returns %v", k, v))
					if m != "" || len(v) != 1 || fmt.Sprint(v[0]) != want[k] {
						c.Violate("column", fmt.Sprintf("generator (0) and copy (1): %s; must be %s %s", strings.Join(desc, ", "), want[k], m), nil)
						return false
					}
					old = append(old, v[0])
					was = append(was, want[k])
				}
			}
			for i := range old {
				if fmt.Sprint(old[i]) != was[i] {
					c.Violate("column", fmt.Sprintf("generator (0) and copy (1): %s; value %d is now %v", strings.Join(desc, ", "), i+1, old[i]), nil)
					return false
				}
			}
			c.Case(q + strings.Join(desc, ","))
			return !c.TimeUp()
		})
		if c.Violated() || c.TimeUp() {
			return
		}
	}
	g, err := makeGen("column", nil)
	if err == nil {
		if _, f := g.Format(); f == "%v" {
			c.Violate("default of column quote-value", "quote-value is documented to default to yes, but without it values are not quoted", nil)
		}
	}
}

func unknown(c *report.Ctx) {
	for _, n := range []string{"", "nope", "INT", "int ", "int-gap"} {
		g, err := makeGen(n, nil)
		c.Case(n)
		if err == nil || strings.HasPrefix(err.Error(), "PANIC") {
			c.Violate("unknown generator", fmt.Sprintf("%q: %v %v", n, g, err), n)
		}
	}
}

func TestC27(t *testing.T) {
	var us []report.Unit
	for _, s := range specs {
		us = append(us, report.Unit{Name: "values of " + s.name + " " + fmt.Sprint(s.params["dist"]), Run: domain(s)})
	}
	for _, s := range seqs {
		us = append(us, report.Unit{Name: "sequence of " + s.name, Run: sequences(s)})
		for _, p := range map[string][]map[string]string{
			"int-range-seq": {{"begin": "1", "end": "5", "size": "2"}, {"begin": "1", "end": "100", "size": "10"}, {"begin": "0", "end": "1", "size": "1"}},
			"auto-inc":      {{}, {"start": "10", "step": "3"}},
		}[s.name] {
			s, p := s, p
			us = append(us, report.Unit{Name: "shared " + text(s.name, p), Run: shared(s.name, p, func(i int) string { return s.at(p, i) })})
		}
	}
	us = append(us,
		report.Unit{Name: "shared str-fill-az", Run: shared("str-fill-az", map[string]string{"len": "3"}, nil)},
		report.Unit{Name: "shared int", Run: shared("int", map[string]string{"min": "10", "max": "20"}, nil)},
		report.Unit{Name: "shared int-gaps", Run: shared("int-gaps", map[string]string{"min": "10", "max": "20", "p": "50"}, nil)},
		report.Unit{Name: "shared int-range", Run: shared("int-range", map[string]string{"min": "10", "max": "20", "size": "3"}, nil)},
		report.Unit{Name: "shared xid", Run: shared("xid", nil, nil)},
		report.Unit{Name: "client-id", Run: clientIds},
		report.Unit{Name: "column", Run: columns},
		report.Unit{Name: "unknown", Run: unknown},
	)
	report.Main(t, report.Check{
		ID:    "C27",
		Level: "exploration",
		Rule:  "evaluation = one sequence of calls of a generator with given random draws or schedule; distinct = by parameters and values",
		Assumptions: []string{
			"math/rand functions return every value in their documented range; bounded draws of up to 4096 alternatives are all enumerated, larger ones and normal deviates at edges and on a grid",
			"not judged: min equal to max, negative bounds, upper bounds near 2^53 and over for int-gaps, whether int-range ever starts at max, ranges larger than the interval, undocumented parameters",
		},
		Units: us,
	})
}
