// Package mc is a stateless, deviation-bounded model checker for sequential code: a harness draws every decision from
// a choice tree, the explorer runs every path of that tree against the real code.
package mc

// C is the source of decisions of one execution.
type C struct {
	path, width []int
	pos         int
	devs, bound int
	Tier        string
}

// Choose enumerates all n alternatives.
func (c *C) Choose(n int) int {
	if n <= 0 {
		panic("mc: Choose of nothing")
	}
	if c.pos < len(c.path) {
		v := c.path[c.pos]
		if v >= n {
			panic("mc: replayed choice out of range (the harness is not deterministic)")
		}
		c.width[c.pos] = n
		c.pos++
		return v
	}
	c.path = append(c.path, 0)
	c.width = append(c.width, n)
	c.pos++
	return 0
}

// Dev enumerates n alternatives of which 0 is the default; any other costs one deviation of the budget.
func (c *C) Dev(n int) int {
	if c.devs >= c.bound {
		n = 1
	}
	v := c.Choose(n)
	if v != 0 {
		c.devs++
	}
	return v
}

func (c *C) Bool() bool    { return c.Choose(2) == 1 }
func (c *C) DevBool() bool { return c.Dev(2) == 1 }

// Spend takes one unit of the deviation budget if there is one (for grouping several free choices under a deviation).
func (c *C) Left() int { return c.bound - c.devs }

func Pick[T any](c *C, xs ...T) T    { return xs[c.Choose(len(xs))] }
func PickDev[T any](c *C, xs ...T) T { return xs[c.Dev(len(xs))] }

func (c *C) Thorough() bool { return c.Tier == "thorough" }

func newC(path []int, bound int, tier string) *C {
	p := append([]int{}, path...)
	return &C{path: p, width: make([]int, len(p)), bound: bound, Tier: tier}
}

// next gives the path following c's in depth-first order, or nil.
func (c *C) next() ([]int, int) {
	for i := c.pos - 1; i >= 0; i-- {
		if c.path[i]+1 < c.width[i] {
			p := append([]int{}, c.path[:i+1]...)
			p[i]++
			return p, i
		}
	}
	return nil, 0
}

// Each runs f on every path of its choice tree (no bound, no cases): used to materialize menus.
func Each(f func(c *C)) {
	var path []int
	for {
		c := newC(path, 1<<30, "quick")
		f(c)
		c.path, c.width = c.path[:c.pos], c.width[:c.pos]
		path, _ = c.next()
		if path == nil {
			return
		}
	}
}
