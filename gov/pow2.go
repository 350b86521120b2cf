package main

import "math/bits"

// powerOfTwo is the predicate "n is 1, 2, 4, 8, ...", unfolded one level: n is a power of two iff
// it is 1, or even and its half is one.
func (e *Exec) powerOfTwo(n *Term) *Term {
	c := e.c
	if n.op == "int" && n.iv.IsUint64() {
		if bits.OnesCount64(n.iv.Uint64()) == 1 {
			return c.T
		}
		return c.F
	}
	p := c.UF("ispow2", SBool, n)
	if !n.bound && !p.bound {
		half := c.Div(n, c.Int(2))
		even := c.Eq(c.Mod(n, c.Int(2)), c.Int(0))
		one := c.Eq(n, c.Int(1))
		c.AddFact(p, c.Eq(p, c.Or(one, c.And(c.Le(c.Int(2), n), even, c.UF("ispow2", SBool, half)))))
	}
	return p
}
