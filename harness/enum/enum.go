// Package enum enumerates all choices of a function.
package enum

// Ch makes the choices of one run.
type Ch struct {
	pre []int // choices to repeat
	n   []int // alternatives of each choice made
	got []int
}

// Choose returns a number in [0, n); over all runs, every one.
func (c *Ch) Choose(n int) int {
	k := 0
	if len(c.got) < len(c.pre) {
		k = c.pre[len(c.got)]
	}
	c.got = append(c.got, k)
	c.n = append(c.n, n)
	return k
}

// Picks returns the choices made so far.
func (c *Ch) Picks() []int { return append([]int(nil), c.got...) }

// All runs f for every sequence of choices, until f returns false. It returns
// the number of runs and whether all were made.
func All(f func(c *Ch) bool) (runs int, complete bool) {
	var pre []int
	for {
		c := &Ch{pre: pre}
		runs++
		if !f(c) {
			return runs, false
		}
		i := len(c.got) - 1
		for i >= 0 && c.got[i]+1 >= c.n[i] {
			i--
		}
		if i < 0 {
			return runs, true
		}
		pre = append(append([]int(nil), c.got[:i]...), c.got[i]+1)
	}
}

// One runs f with the given choices.
func One(picks []int, f func(c *Ch)) { f(&Ch{pre: picks}) }
