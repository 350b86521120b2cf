package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
)

// Ground consequences of a query: existential quantifiers are replaced by fresh constants,
// universal ones by instances at the index terms that occur. What remains is implied by the query
// (up to the fresh constants), so that its refutation refutes the query.

type univ struct {
	x     *Term
	body  *Term
	done  map[int]bool
	trig  []trigger
	quiet bool // part of a definition: its predicates have been counted
}
type trigger struct {
	key  string
	off  *Term // index = x + off
	late bool  // another array of the same kind: tried after the array itself
}

func (s *Solver) skolem(q *Term) *Term {
	if t, ok := s.skol[q.id]; ok {
		return t
	}
	t := s.c.Var("sk!"+strconv.Itoa(q.id), q.args[0].sort)
	s.skol[q.id] = t
	return t
}

// nnf pushes negations to the quantifiers in t (polarity pos), replacing existential ones by
// constants and gathering universal ones as instances of one variable.
func (s *Solver) nnf(t *Term, pos bool, memo map[int]bool, lifted **Term) *Term {
	c := s.c
	if !hasQuant(t, memo) {
		if pos {
			return t
		}
		return c.Not(t)
	}
	switch t.op {
	case "not":
		return s.nnf(t.args[0], !pos, memo, lifted)
	case "and", "or":
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = s.nnf(a, pos, memo, lifted)
		}
		if (t.op == "and") == pos {
			return c.And(as...)
		}
		return c.Or(as...)
	case "ite":
		if t.sort == SBool && !hasQuant(t.args[0], memo) {
			return c.And(c.Or(c.Not(t.args[0]), s.nnf(t.args[1], pos, memo, lifted)), c.Or(t.args[0], s.nnf(t.args[2], pos, memo, lifted)))
		}
		if t.sort == SBool {
			return c.And(c.Or(s.nnf(t.args[0], false, memo, lifted), s.nnf(t.args[1], pos, memo, lifted)), c.Or(s.nnf(t.args[0], true, memo, lifted), s.nnf(t.args[2], pos, memo, lifted)))
		}
	case "forall", "exists":
		if t.bound {
			break
		}
		if (t.op == "exists") == pos {
			b := c.Subst(t.args[1], t.args[0], s.skolem(t))
			return s.nnf(b, pos, memo, lifted)
		}
		lift := c.mk("bvar", "gx"+string(t.args[0].sort), t.args[0].sort, nil)
		if *lifted != nil && *lifted != lift {
			break
		}
		*lifted = lift
		b := c.Subst(t.args[1], t.args[0], lift)
		if !pos {
			b = c.Not(b)
		}
		return b
	case "=":
		if len(t.args) == 2 && t.args[0].sort == SBool {
			a, b := t.args[0], t.args[1]
			if pos {
				return c.And(c.Or(s.nnf(a, false, memo, lifted), s.nnf(b, true, memo, lifted)), c.Or(s.nnf(a, true, memo, lifted), s.nnf(b, false, memo, lifted)))
			}
			return c.And(c.Or(s.nnf(a, true, memo, lifted), s.nnf(b, true, memo, lifted)), c.Or(s.nnf(a, false, memo, lifted), s.nnf(b, false, memo, lifted)))
		}
	}
	s.nabs++
	if os.Getenv("GOV_QABS") != "" {
		println("QABS", s.nabs, pos, s.c.show(t))
	}
	return c.Var("qabs!"+strconv.Itoa(s.nabs), SBool)
}

func hasQuant(t *Term, memo map[int]bool) bool {
	if len(t.args) == 0 {
		return false
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	r := t.op == "forall" || t.op == "exists"
	for _, a := range t.args {
		if r {
			break
		}
		r = hasQuant(a, memo)
	}
	memo[t.id] = r
	return r
}

// roots: the named arrays an array term is built from.
func roots(a *Term, out map[string]bool) {
	switch a.op {
	case "store", "select", "hv":
		roots(a.args[0], out)
	case "ite":
		roots(a.args[1], out)
		roots(a.args[2], out)
	case "var", "uf":
		out["s:"+a.name] = true
	default:
		out["s:"+string(a.sort)] = true
	}
}

// indexOf reports the keys and index argument of a term that reads at an integer index.
func indexOf(t *Term) (map[string]bool, *Term) {
	switch t.op {
	case "select":
		if t.args[1].sort == SInt || t.args[1].sort == SStr {
			m := map[string]bool{}
			roots(t.args[0], m)
			if t.args[0].op == "select" && !t.args[0].bound {
				m["a:"+strconv.Itoa(t.args[0].id)] = true
			}
			return m, t.args[1]
		}
	case "str.substr", "sub!", "str.at":
		return map[string]bool{"t": true}, t.args[1]
	}
	return nil, nil
}

const maxInst = 500
const maxGround = 6000
var lateRound = 2

// ground returns ground consequences of conj (nil: contradiction) and whether anything was left out.
func (s *Solver) ground(conj []*Term) ([]*Term, bool) {
	c := s.c
	memo := map[int]bool{}
	var out []*Term
	out = []*Term{}
	var us []*univ
	have := map[int]bool{}
	bad := false
	// a definition with quantifiers is used in a direction only where the other one could meet it:
	// what makes the predicate true matters where it is denied, and the other way round
	pol := map[string]int{}
	polSeen := map[[2]int]bool{}
	var occ func(t *Term, p int)
	occ = func(t *Term, p int) {
		k := [2]int{t.id, p}
		if polSeen[k] {
			return
		}
		polSeen[k] = true
		switch {
		case t.op == "not":
			occ(t.args[0], (p&1)<<1|p>>1)
		case t.op == "and" || t.op == "or":
			for _, a := range t.args {
				occ(a, p)
			}
		case t.op == "forall" || t.op == "exists":
			occ(t.args[1], p)
		default:
			if t.op == "uf" && t.sort == SBool {
				pol[t.name] |= p
			}
			for _, a := range t.args {
				occ(a, 3)
			}
		}
	}
	type half struct {
		name string
		need int
		f    *Term
		body *Term
	}
	var halves []half
	quiet := false
	var add func(t *Term)
	add = func(t *Term) {
		if t == c.T || have[t.id] {
			return
		}
		have[t.id] = true
		if !quiet {
			occ(t, 1)
		}
		if t == c.F {
			bad = true
			if os.Getenv("GOV_DEBUG") == "2" {
				println("BAD")
			}
			return
		}
		if t.op == "and" {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if !hasQuant(t, memo) {
			out = append(out, t)
			return
		}
		switch {
		case t.op == "forall":
			us = append(us, &univ{x: t.args[0], body: t.args[1], quiet: quiet})
			return
		case t.op == "not" && t.args[0].op == "exists":
			us = append(us, &univ{x: t.args[0].args[0], body: c.Not(t.args[0].args[1]), quiet: quiet})
			return
		}
		var lifted *Term
		n := s.nnf(t, true, memo, &lifted)
		if lifted != nil {
			us = append(us, &univ{x: lifted, body: n, quiet: quiet})
		} else {
			add(n)
		}
	}
	for _, t := range conj {
		add(t)
	}
	// facts of the ground terms
	closed := 0
	seen := map[int]bool{}
	var cats []*Term
	var walk func(t *Term)
	idx := map[string][]*Term{}
	idxHave := map[string]map[int]bool{}
	addIdx := func(k string, i *Term) {
		if idxHave[k] == nil {
			idxHave[k] = map[int]bool{}
		}
		if !idxHave[k][i.id] {
			idxHave[k][i.id] = true
			idx[k] = append(idx[k], i)
		}
	}
	walk = func(t *Term) {
		if seen[t.id] || t.bound {
			return
		}
		seen[t.id] = true
		if t.op == "forall" || t.op == "exists" {
			return
		}
		if f := s.bounds(t); f != nil {
			add(f)
		}
		if s.isCat != nil && s.isCat(t) {
			cats = append(cats, t)
		}
		if ks, i := indexOf(t); ks != nil {
			for k := range ks {
				addIdx(k, i)
			}
		}
		if t.op == "uf" {
			for k, a := range t.args {
				if a.sort == SInt || a.sort == SStr {
					addIdx("u:"+t.name+":"+strconv.Itoa(k), a)
				}
			}
		}
		for _, f := range c.facts[t.id] {
			if f.op == "=" && f.args[0].op == "uf" && f.args[0].sort == SBool && f.args[0] == t && strings.HasPrefix(t.name, "ghost_") && hasQuant(f.args[1], memo) {
				for i, h := range []*Term{c.Imp(t, f.args[1]), c.Imp(f.args[1], t)} {
					if h.bound {
						h = c.closeQ(h)
					}
					halves = append(halves, half{t.name, i + 1, h, f.args[1]})
				}
				continue
			}
			if f.bound {
				f = c.closeQ(f)
			}
			add(f)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	closeAll := func() {
		for more := true; more; {
			more = false
			for closed < len(out) {
				walk(out[closed])
				closed++
			}
			var rest []half
			for _, h := range halves {
				if pol[h.name]&h.need != 0 {
					occ(h.body, h.need)
					quiet = true
					add(h.f)
					quiet = false
					more = true
				} else {
					rest = append(rest, h)
				}
			}
			halves = rest
		}
	}
	closeAll()
	ncat := 0
	count := 0
	for round := 0; round < 4 && !bad; round++ {
		n0 := len(out) + len(us)
		if len(cats) > 1 && len(cats) != ncat && s.catFacts != nil {
			ncat = len(cats)
			for _, f := range s.catFacts(cats) {
				add(f)
			}
			closeAll()
		}
		for ui := 0; ui < len(us) && !bad; ui++ {
			u := us[ui]
			if u.done == nil {
				u.done = map[int]bool{}
				u.trig = s.triggers(u.x, u.body)
				if len(u.trig) == 0 && u.x.sort == SInt {
					for _, v := range s.limits(u.x, u.body) {
						quiet = u.quiet
						add(c.Subst(u.body, u.x, v))
						quiet = false
					}
				}
			}
			for _, tr := range u.trig {
				if tr.late && round < lateRound {
					continue
				}
				for _, g := range idx[tr.key] {
					v := g
					if g.sort != u.x.sort {
						continue
					}
					if tr.off != nil {
						v = c.Sub(g, tr.off)
					}
					if u.done[v.id] || count >= maxInst || len(out) > maxGround || len(u.done) > 40 {
						continue
					}
					u.done[v.id] = true
					count++
					nb := c.Subst(u.body, u.x, v)
					if os.Getenv("GOV_SLOW") == "3" {
						println("INST", round, count, dagSize(out), dagSize([]*Term{nb}), tr.key, firstN(c.show(v), 150), "IN", firstN(c.show(u.body), 300))
					}
					if nb == c.F && os.Getenv("GOV_DEBUG") == "2" {
						println("INST", c.show(u.body), "AT", c.show(v))
					}
					quiet = u.quiet
					add(nb)
					quiet = false
				}
			}
		}
		closeAll()
		if len(out)+len(us) == n0 {
			if round >= lateRound {
				break
			}
			round = lateRound - 1
		}
	}
	if os.Getenv("GOV_SLOW") == "2" && len(out)+count > 500 {
		names := map[string]int{}
		for id := range seen {
			_ = id
		}
		for _, u := range us {
			names[fmt.Sprint(len(u.done))+" "+firstN(c.show(u.body), 220)]++
		}
		println("GROUND", len(out), len(us), count, len(seen), len(cats))
		kinds := map[string]int{}
		for _, t := range out {
			kinds[firstN(c.show(t), 90)]++
		}
		for n, k := range pol {
			println("  POL", k, n)
		}
		for n, k := range kinds {
			if k > 200 {
				println("  KIND", k, n)
			}
		}
		for n, k := range names {
			println("   ", k, n)
		}
	}
	if bad {
		return nil, false
	}
	return out, len(us) > 0
}

// limits: the least and greatest value of x in a body that bounds x and does not read at x.
func (s *Solver) limits(x, body *Term) []*Term {
	c := s.c
	var out []*Term
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.bound || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "<=" {
			a, b := t.args[0], t.args[1]
			if a == x && !b.bound {
				out = append(out, b, c.Add(b, c.Int(1)))
			}
			if b == x && !a.bound {
				out = append(out, a, c.Sub(a, c.Int(1)))
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	if len(out) > 12 {
		out = out[:12]
	}
	return out
}

// triggers: where does body read at x?
func (s *Solver) triggers(x, body *Term) []trigger {
	c := s.c
	var out []trigger
	have := map[string]bool{}
	seen := map[int]bool{}
	put := func(k string, i *Term, late bool) {
		if !c.contains(i, x) {
			return
		}
		if x.sort != SInt {
			if i == x && !have[k] {
				have[k] = true
				out = append(out, trigger{k, nil, late})
			}
			return
		}
		if i.sort != SInt {
			return
		}
		off := c.Sub(i, x)
		if off.bound || c.contains(off, x) {
			return
		}
		key := k + "|" + strconv.Itoa(off.id)
		if !have[key] {
			have[key] = true
			out = append(out, trigger{k, off, late})
		}
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.bound || seen[t.id] {
			return
		}
		seen[t.id] = true
		if ks, i := indexOf(t); ks != nil {
			exact := t.op == "select" && t.args[0].op == "select" && !t.args[0].bound
			for _, k := range sortedKeys(ks) {
				put(k, i, exact && !strings.HasPrefix(k, "a:"))
			}
		}
		if t.op == "uf" {
			for k, a := range t.args {
				if a.sort == SInt || a.sort == SStr {
					put("u:"+t.name+":"+strconv.Itoa(k), a, false)
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	return out
}

func usesText(ts []*Term) bool {
	seen := map[int]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.sort == SStr {
			return true
		}
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	for _, t := range ts {
		if f(t) {
			return true
		}
	}
	return false
}

// textAxioms: what the uninterpreted texts still obey.
func (s *Solver) textAxioms(ts []*Term) []*Term {
	c := s.c
	seen := map[int]bool{}
	var out []*Term
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t.id] || t.bound {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			f(a)
		}
		if t.sort == SStr && t.op != "str" && t.op != "ite" {
			l := c.mk("str.len", "", SInt, []*Term{t})
			out = append(out, c.mk("<=", "", SBool, []*Term{c.Int(0), l}))
			out = append(out, c.mk("=", "", SBool, []*Term{c.mk("=", "", SBool, []*Term{l, c.Int(0)}), c.mk("=", "", SBool, []*Term{t, c.Str("")})}))
			switch t.op {
			case "str.++", "sub!":
				out = append(out, c.mk("=", "", SBool, []*Term{l, c.Len(t)}))
			case "str.substr":
				o, n, ls := t.args[1], t.args[2], c.Len(t.args[0])
				in := c.And(c.Le(c.Int(0), o), c.Le(c.Int(0), n), c.Le(c.Add(o, n), ls))
				out = append(out, c.Imp(in, c.mk("=", "", SBool, []*Term{l, n})))
				out = append(out, c.Imp(c.And(c.Eq(o, c.Int(0)), c.Le(ls, n)), c.mk("=", "", SBool, []*Term{t, t.args[0]})))
			}
		}
	}
	for _, t := range ts {
		f(t)
	}
	return out
}

var deepOps = map[string]bool{"str.prefixof": true, "str.suffixof": true, "str.contains": true, "str.indexof": true, "str.replace": true, "str.replace_all": true, "str.at": true, "str.to_code": true, "str.from_code": true, "str.to_int": true, "str.from_int": true, "str.<": true, "str.<=": true, "str.substr": true}

// deepText: do the terms use text operations that the uninterpreted view says too little about?
func deepText(ts []*Term) bool {
	memo := map[int]bool{}
	for _, t := range ts {
		if mentions(t, deepOps, memo) {
			return true
		}
	}
	return false
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
