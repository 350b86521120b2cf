package main

// Text terms are brought to a normal form under a path condition before a goal goes to a solver:
// sub-texts known to lie within their base become "sub!" terms, whose length is known exactly.
// Such terms live only inside one goal.

func (c *Ctx) sub(s, o, n *Term) *Term {
	if n.op == "int" && n.iv.Sign() == 0 {
		return c.Str("")
	}
	if s.op == "sub!" {
		return c.sub(s.args[0], c.Add(s.args[1], o), n)
	}
	if s.op == "str" && o.op == "int" && n.op == "int" {
		return c.Substr(s, o, n)
	}
	return c.mk("sub!", "", SStr, []*Term{s, o, n})
}

func mentions(t *Term, ops map[string]bool, memo map[int]bool) bool {
	if r, ok := memo[t.id]; ok {
		return r
	}
	r := ops[t.op]
	for _, a := range t.args {
		if r {
			break
		}
		r = mentions(a, ops, memo)
	}
	memo[t.id] = r
	return r
}

var subOps = map[string]bool{"str.substr": true}

// normal rewrites t under st.
func (e *Exec) normal(st *State, t *Term) *Term {
	c := e.c
	memoM := map[int]bool{}
	if !mentions(t, subOps, memoM) {
		return t
	}
	var arith []*Term
	for _, p := range st.pc {
		if p.op != "forall" && p.op != "exists" && !(p.op == "not" && (p.args[0].op == "forall" || p.args[0].op == "exists")) {
			arith = append(arith, p)
		}
	}
	budget := 60
	ent := func(g *Term) bool {
		if g == c.T {
			return true
		}
		if g == c.F || g.bound {
			return false
		}
		for _, p := range st.pc {
			if p == g {
				return true
			}
		}
		if budget <= 0 {
			return false
		}
		budget--
		return e.s.Check(append(append([]*Term{}, arith...), c.Not(g)), 300, false) == "unsat"
	}
	zero := c.Int(0)
	var sub func(s, o, n *Term, d int) *Term
	sub = func(s, o, n *Term, d int) *Term {
		if d > 12 {
			return c.Substr(s, o, n)
		}
		if n.op == "int" && n.iv.Sign() == 0 {
			return c.Str("")
		}
		if s.op == "str.++" {
			ps := s.args
			ch := false
			for len(ps) > 1 && ent(c.Le(c.Len(ps[0]), o)) {
				o = c.Sub(o, c.Len(ps[0]))
				ps = ps[1:]
				ch = true
			}
			l := c.Len(ps[0])
			if len(ps) == 1 {
				return sub(ps[0], o, n, d+1)
			}
			if ent(c.And(c.Le(zero, o), c.Le(c.Add(o, n), l))) {
				return sub(ps[0], o, n, d+1)
			}
			if ent(c.And(c.Le(zero, o), c.Le(o, l), c.Le(l, c.Add(o, n)))) {
				k := c.Sub(l, o)
				return c.Cat(sub(ps[0], o, k, d+1), sub(c.Cat(ps[1:]...), zero, c.Sub(n, k), d+1))
			}
			if ch {
				return c.Substr(c.Cat(ps...), o, n)
			}
			return c.Substr(s, o, n)
		}
		in := c.And(c.Le(zero, o), c.Le(zero, n), c.Le(c.Add(o, n), c.Len(s)))
		if ent(in) {
			if ent(c.And(c.Eq(o, zero), c.Eq(n, c.Len(s)))) {
				return s
			}
			if ent(c.Eq(n, zero)) {
				return c.Str("")
			}
			return c.sub(s, o, n)
		}
		if ent(c.And(c.Eq(o, zero), c.Le(c.Len(s), n))) {
			return s
		}
		return c.Substr(s, o, n)
	}
	memo := map[int]*Term{}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if x, ok := memo[t.id]; ok {
			return x
		}
		if len(t.args) == 0 || !mentions(t, subOps, memoM) {
			return t
		}
		if t.op == "forall" || t.op == "exists" {
			return t
		}
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = walk(a)
		}
		var n *Term
		if t.op == "str.substr" && !t.bound {
			n = sub(as[0], as[1], as[2], 0)
		} else {
			n = c.rebuild(t, as)
			for _, f := range c.facts[t.id] {
				c.AddFact(n, f)
			}
		}
		memo[t.id] = n
		return n
	}
	return walk(t)
}
