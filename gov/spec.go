package main

// Contracts: intrinsics of the specification package, ghost functions, use of contracts at calls.

import (
	"fmt"
	"os"
	"go/types"
	"math/big"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Contract struct {
	Name        string
	Transparent []string // opaque definitions of other packages are unfolded
	Folded      []string // definitions left folded in this contract
	Assumed     string   // not verified: assumed at calls, with the reason
	Kind        string   // contract, lemma
	Fn          *ssa.Function
	Target      *ssa.Function
	Props       []string
	Use         bool
	Pure        bool
	Local       bool
	Bodies      bool
	MayPanic    bool
	Invs        []*ssa.Function
	Pkg         string
	TargetName  string
	Timeout     int
	Depth       int
	Fuel        int
	Missing     bool
	NoReplay    bool
	Helper      bool
	Bounded     string
}

func (e *Exec) params() []namedVal { return e.pvals }

// evalMerged runs a specification function or closure and merges its outcomes into one value.
func (e *Exec) evalMerged(st *State, fn *ssa.Function, args []any, bind []any) Val {
	e.noFeas++
	savePC := len(st.pc)
	s2 := st.clone()
	var outs []Outcome
	func() {
		defer func() { e.noFeas-- }()
		outs = e.callFn(s2, fn, args, bind, true, false)
	}()
	if len(outs) == 0 {
		// a state that cannot be reached has no outcome, and nothing said about it matters
		if r := fn.Signature.Results(); r.Len() == 1 && e.s.Check(append([]*Term{}, st.pc...), 2000, false) == "unsat" {
			if b, ok := r.At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				return Val{e.c.T}
			}
		}
		e.fail("specification function %s has no outcome", fn)
	}
	c := e.c
	res := outs[len(outs)-1].res
	for k := len(outs) - 2; k >= 0; k-- {
		o := outs[k]
		g := c.And(o.st.pc[min(savePC, len(o.st.pc)):]...)
		var v Val
		for i := range res {
			v = append(v, c.Ite(g, o.res[i], res[i]))
		}
		res = v
	}
	return res
}

// specBool evaluates a boolean specification function in st.
func (e *Exec) specBool(st *State, fn *ssa.Function, args []any, bind []any) *Term {
	v := e.evalMerged(st, fn, args, bind)
	return v[0]
}

func (e *Exec) closureOf(t *Term) *Closure {
	if t.op == "int" && t.iv.IsInt64() {
		if cl := e.clos[t.iv.Int64()]; cl != nil {
			return cl
		}
	}
	e.fail("specification closure is not known: %s", e.c.show(t))
	return nil
}

func (e *Exec) quant(q string, st *State, lo, hi *Term, cl *Closure) *Term {
	c := e.c
	if c.isT(c.Le(hi, lo)) {
		return c.Bool(q == "forall")
	}
	var bl, bh *big.Int
	if lo.lo != nil {
		bl = lo.lo
	}
	if hi.hi != nil {
		bh = new(big.Int).Sub(hi.hi, big.NewInt(1))
	}
	i := c.FreshB("q", bl, bh)
	mark := i.id
	s2 := st.clone()
	s2.pc = append(s2.pc, c.Le(lo, i), c.Lt(i, hi))
	n := len(s2.pc)
	_ = n
	v := e.evalMerged(s2, cl.fn, []any{Val{i}}, cl.bind)
	e.noneMade(v[0], mark)
	bv := c.BVar("k")
	body := c.Subst(v[0], i, bv)
	rng := c.And(c.Le(lo, bv), c.Lt(bv, hi))
	if q == "forall" {
		return c.Quant("forall", bv, c.Imp(rng, body))
	}
	return c.Quant("exists", bv, c.And(rng, body))
}

// quantKey: a condition on every, or on some, key and value of a map.
func (e *Exec) quantKey(q string, st *State, mt *types.Map, m *Term, cl *Closure) *Term {
	c := e.c
	k := e.freshVal("key", mt.Key(), big.NewInt(e.next))
	kt := e.mapKey(mt, k)
	if len(k) == 1 && k[0] == kt {
		// a map with known keys: one condition for each
		dom := e.mapDom(st, mt, m)
		var keys []*Term
		for dom.op == "store" && len(keys) < 100 {
			keys = append(keys, dom.args[1])
			dom = dom.args[0]
		}
		if dom.op == "constarr" && dom.args[0].op == "false" {
			var out []*Term
			dom = e.mapDom(st, mt, m)
			some := c.Not(c.Eq(m, c.Int(0)))
			for i, key := range keys {
				if i > 0 && slices.Contains(keys[:i], key) {
					continue
				}
				in := c.And(some, c.Select(dom, key))
				s2 := st.clone()
				e.add(s2, in)
				v := e.evalMerged(s2, cl.fn, []any{Val{key}, e.mapVal(st, mt, m, key)}, cl.bind)
				if q == "forall" {
					out = append(out, c.Imp(in, v[0]))
				} else {
					out = append(out, c.And(in, v[0]))
				}
			}
			if q == "forall" {
				return c.And(out...)
			}
			return c.Or(out...)
		}
	}
	mark := c.Fresh("mark", SInt).id
	in := c.And(c.Not(c.Eq(m, c.Int(0))), c.Select(e.mapDom(st, mt, m), kt))
	s2 := st.clone()
	e.add(s2, in)
	v := e.evalMerged(s2, cl.fn, []any{k, e.mapVal(st, mt, m, kt)}, cl.bind)
	e.noneMade(v[0], mark)
	bv := c.mk("bvar", c.FreshName("k"), kt.sort, nil)
	body, rng := c.Subst(v[0], kt, bv), c.Subst(in, kt, bv)
	if q == "forall" {
		return c.Quant("forall", bv, c.Imp(rng, body))
	}
	return c.Quant("exists", bv, c.And(rng, body))
}

// noneMade: t does not depend on a value made after the mark.
func (e *Exec) noneMade(t *Term, mark int) {
	seen := map[int]bool{}
	var made func(t *Term)
	made = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "var" && t.id > mark && !strings.HasPrefix(t.name, "H0.") {
			e.fail("a quantified condition depends on an unspecified value (%s)", t.name)
		}
		for _, a := range t.args {
			made(a)
		}
	}
	made(t)
}

func (e *Exec) intrinsicTry(p *Path, st *State, fr *frame, name string, fn *ssa.Function, args []any) ([]callOut, bool) {
	c := e.c
	one := func(v Val) ([]callOut, bool) { return []callOut{{st, v}}, true }
	t := func(i int) *Term { return e.flat(p, args[i])[0] }
	switch name {
	case "Requires":
		if e.reqMode == "oblige" {
			e.oblige(st, e.reqName+": precondition", "requires", t(0))
			e.add(st, t(0))
			return one(nil)
		}
		g := t(0)
		if !e.feasible(st, g) {
			return nil, true
		}
		e.add(st, g)
		return one(nil)
	case "Assume":
		e.trusted["assumption: "+e.reqName] = true
		e.add(st, t(0))
		return one(nil)
	case "Ensures", "Assert":
		nm := t(0)
		s := "?"
		if nm.op == "str" {
			s = nm.name
		}
		g := t(1)
		if e.ensMode == "assume" {
			if !e.feasibleQuick(st, g) {
				return nil, true
			}
			e.add(st, g)
			return one(nil)
		}
		if e.dry == 0 {
			if !e.reach[s] {
				if r := e.s.Check(st.pc, 500, false); r != "unsat" {
					e.reach[s] = true
				} else {
					return nil, true
				}
			}
		}
		e.oblige(st, s, "ensures", g)
		e.add(st, g)
		return one(nil)
	case "NoPanic":
		e.nopanic = true
		return one(nil)
	case "ForAll", "Exists":
		q := map[string]string{"ForAll": "forall", "Exists": "exists"}[name]
		cl := e.closureOf(t(2))
		return one(Val{e.quant(q, st, t(0), t(1), cl)})
	case "Concat", "ConcatS":
		cl := e.closureOf(t(1))
		i := c.FreshB("q", big.NewInt(0), big40)
		s2 := st.clone()
		v := e.evalMerged(s2, cl.fn, []any{Val{i}}, cl.bind)
		r := e.catTerm(v[len(v)-1], i, t(0), 1)
		if name == "ConcatS" {
			return one(Val{r})
		}
		return one(Val{c.F, r})
	case "Same":
		// identity of two values of any type
		a, b := e.flat(p, args[0]), e.flat(p, args[1])
		return one(Val{c.Eq(a[0], b[0])})
	case "Cut":
		// prove, then use, a fact on the way
		nm := t(0)
		if e.ensMode != "assume" {
			e.oblige(st, nm.name, "lemma", t(1))
		}
		e.add(st, t(1))
		return one(nil)
	case "Draws":
		return one(Val{(&mctx{e: e, st: st}).drawCount()})
	case "Draw":
		return one(Val{c.F, c.Select(e.heapArr(st, "ghost:draw", extStr), t(0))})
	case "PowerOfTwo":
		return one(Val{e.powerOfTwo(t(0))})
	}
	return nil, false
}
func (e *Exec) feasibleQuick(st *State, g *Term) bool { return g != e.c.F }

func (e *Exec) intrinsic(p *Path, st *State, fr *frame, name string, fn *ssa.Function, args []any) []callOut {
	c := e.c
	switch name {
	case "Same":
		a, b := e.flat(p, args[0]), e.flat(p, args[1])
		var es []*Term
		for i := range a {
			es = append(es, c.Eq(a[i], b[i]))
		}
		return []callOut{{st, Val{c.And(es...)}}}
	case "Fresh":
		// an object made by the function itself
		r := e.flat(p, args[0])[0]
		if e.ensMode == "assume" {
			if lo := big.NewInt(e.freshFrom); r.op == "var" && (r.lo == nil || r.lo.Cmp(lo) < 0) {
				r.lo = lo
			}
			return []callOut{{st, Val{c.T}}}
		}
		return []callOut{{st, Val{c.Lt(c.Int(refHi.Int64()), r)}}}
	case "Old":
		return []callOut{{st, args[0]}}
	case "EachKey", "SomeKey":
		q := map[string]string{"EachKey": "forall", "SomeKey": "exists"}[name]
		m := e.flat(p, args[0])[0]
		mt := fn.Params[0].Type().Underlying().(*types.Map)
		cl := e.closureOf(e.flat(p, args[1])[0])
		return []callOut{{st, Val{e.quantKey(q, st, mt, m, cl)}}}
	}
	e.fail("intrinsic %s", name)
	return nil
}

// ---------------------------------------------------------------- concatenations over an index

type catDef struct {
	name  string
	skel  *Term // body over the placeholders
	nargs int
}

func placeholder(c *Ctx, k int, s Sort) *Term {
	return c.Var(fmt.Sprintf("PH%d_%s", k, sane(string(s))), s)
}

// lift abstracts the maximal sub-terms of body that do not contain i.
func (e *Exec) lift(body, i *Term) (*Term, []*Term) {
	c := e.c
	contains := map[int]bool{}
	var has func(t *Term) bool
	seen := map[int]bool{}
	has = func(t *Term) bool {
		if seen[t.id] {
			return contains[t.id]
		}
		seen[t.id] = true
		r := t == i
		for _, a := range t.args {
			if has(a) {
				r = true
			}
		}
		contains[t.id] = r
		return r
	}
	has(body)
	var args []*Term
	memo := map[int]*Term{}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if r, ok := memo[t.id]; ok {
			return r
		}
		var r *Term
		switch {
		case t == i:
			r = placeholder(c, 0, SInt)
		case !contains[t.id]:
			if len(t.args) == 0 && t.op != "var" {
				r = t
			} else if t.op == "var" && strings.HasPrefix(t.name, "H0.") {
				r = t
			} else {
				args = append(args, t)
				r = placeholder(c, len(args), t.sort)
				if r.lo == nil {
					// placeholders carry no bounds: they stand for any term
				}
			}
		default:
			as := make([]*Term, len(t.args))
			for k, a := range t.args {
				as[k] = walk(a)
			}
			r = c.mk(t.op, t.name, t.sort, as) // raw rebuild keeps the skeleton syntactic
			if r.iv == nil {
				r.iv = t.iv
			}
			if r.typ == "" {
				r.typ = t.typ
			}
		}
		memo[t.id] = r
		return r
	}
	return walk(body), args
}

// catTerm is body(0) ++ ... ++ body(n-1).
func (e *Exec) catTerm(body, i, n *Term, fuel int) *Term {
	c := e.c
	skel, args := e.lift(body, i)
	name := fmt.Sprintf("cat%d", skel.id)
	as := append([]*Term{n}, args...)
	if n.op == "int" && n.iv.Sign() <= 0 {
		return c.Str("")
	}
	if n.op == "ite" {
		return c.Ite(n.args[0], e.catTerm(body, i, n.args[1], fuel), e.catTerm(body, i, n.args[2], fuel))
	}
	if n.op == "int" && n.iv.IsInt64() && n.iv.Int64() <= 12 {
		var ps []*Term
		for k := int64(0); k < n.iv.Int64(); k++ {
			ps = append(ps, c.Subst(body, i, c.Int(k)))
		}
		return c.Cat(ps...)
	}
	// single characters of one text make a part of that text
	if body.op == "str.substr" && body.args[2].op == "int" && body.args[2].iv.Cmp(one) == 0 {
		base, off := body.args[0], c.Sub(body.args[1], i)
		if !occurs(base, i) && !occurs(off, i) {
			return c.Substr(base, off, n)
		}
	}
	r := c.UF(name, SStr, as...)
	e.cats[r.id] = &catInfo{n: n, body: body, i: i}
	if e.catN[name] == nil {
		e.catN[name] = &catInfo{skel: skel}
	}
	if fuel > 0 && !e.catUnf[r.id] {
		e.catUnf[r.id] = true
		e.catSplit(r, body, i, n, fuel)
		m := c.Sub(n, c.Int(1))
		prev := e.catTerm(body, i, m, fuel-1)
		unf := c.Cat(prev, c.Subst(body, i, m))
		c.AddFact(r, c.Imp(c.Le(n, c.Int(0)), c.mk("=", "", SBool, []*Term{r, c.Str("")})))
		if !(n.hi != nil && n.hi.Sign() <= 0) {
			c.AddFact(r, c.Imp(c.Lt(c.Int(0), n), c.mk("=", "", SBool, []*Term{r, unf})))
		}
	}
	return r
}

func occurs(t, v *Term) bool {
	seen := map[int]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// appInfo remembers what an appended list was made of.
type appInfo struct {
	la, lb, a, aoff, b, boff *Term
}

// catSplit: what is laid end to end over an appended list is what is laid over its parts.
func (e *Exec) catSplit(r, body, i, n *Term, fuel int) {
	c := e.c
	var info *appInfo
	var pa, pb []*Term
	var from []*Term
	okay := true
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if e.apps[t.id] != nil {
			okay = false // used otherwise than through select below
			return
		}
		if t.op == "select" && e.apps[t.args[0].id] != nil && t.args[1] == i {
			x := e.apps[t.args[0].id]
			if info == nil {
				info = x
			}
			if x.la != info.la || x.lb != info.lb {
				okay = false
			}
			from = append(from, t)
			pa = append(pa, c.Select(x.a, c.Add(x.aoff, i)))
			pb = append(pb, c.Select(x.b, c.Add(x.boff, i)))
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	if info == nil || !okay || c.Add(info.la, info.lb) != n {
		return
	}
	ba, bb := body, body
	for k := range from {
		ba = c.Subst(ba, from[k], pa[k])
		bb = c.Subst(bb, from[k], pb[k])
	}
	parts := c.Cat(e.catTerm(ba, i, info.la, fuel-1), e.catTerm(bb, i, info.lb, fuel-1))
	c.AddFact(r, c.Imp(c.And(c.Le(c.Int(0), info.la), c.Le(c.Int(0), info.lb)), c.mk("=", "", SBool, []*Term{r, parts})))
}

const maxCats = 16

type catInfo struct {
	n, body, i, skel *Term
}

// catFacts relates the concatenations met in one query: equal pieces give equal concatenations.
func (e *Exec) catFacts(cs []*Term) []*Term {
	c := e.c
	var out []*Term
	if len(cs) > maxCats {
		cs = cs[:maxCats]
	}
	for x := 0; x < len(cs); x++ {
		for y := x + 1; y < len(cs); y++ {
			a, b := e.cats[cs[x].id], e.cats[cs[y].id]
			if a == nil || b == nil || c.distinctI(a.n, b.n) {
				continue
			}
			if len(cs) > 10 && cs[x].name == cs[y].name {
				continue
			}
			k := c.BVar2("ck")
			f := c.Imp(c.And(c.Eq(a.n, b.n), c.Quant("forall", k, c.Imp(c.And(c.Le(c.Int(0), k), c.Lt(k, a.n)), c.Eq(c.Subst(a.body, a.i, k), c.Subst(b.body, b.i, k))))), c.mk("=", "", SBool, []*Term{cs[x], cs[y]}))
			out = append(out, f)
		}
	}
	return out
}

// ---------------------------------------------------------------- ghost functions

func (e *Exec) preBounded(v Val) bool {
	for _, t := range v {
		if t.sort == SInt {
			if t.op == "var" || t.op == "select" || t.op == "uf" || t.op == "ite" || t.op == "int" || t.op == "+" || t.op == "str.len" {
				if t.hi == nil {
					continue // opaque
				}
			}
		}
	}
	return true
}

// ghostCall: a (recursive) specification function becomes an uninterpreted function with its
// definition unfolded once per use.
func (e *Exec) ghostCall(p *Path, st *State, fn *ssa.Function, args []any) Val {
	c := e.c
	var as []*Term
	pre := true
	for i, a := range args {
		v := e.flat(p, a)
		for k, cp := range compsOf(fn.Params[i].Type()) {
			t := v[k]
			if cp.kind == KRef {
				h := t.hi
				if t.sort.isArr() {
					h = t.eHi
				}
				if h == nil || h.Cmp(refHi) > 0 {
					pre = false
				}
			}
			as = append(as, t)
		}
	}
	// which heap does it read?
	var keys map[string]bool
	if !e.w.uninterp[fn] {
		keys = e.ghostReads(st, fn, args)
	}
	ver := ""
	// the definition holds on every path: it is evaluated under no path condition
	est := &State{heap: map[string]*Term{}, pc: nil}
	if pre {
		for k := range keys {
			if t, ok := st.heap[k]; ok {
				for t.op == "store" && t.args[1].lo != nil && t.args[1].lo.Cmp(refHi) > 0 {
					t = t.args[0]
				}
				if !(t.op == "var" && strings.HasPrefix(t.name, "H0.")) {
					pre = false
				}
			}
		}
	}
	if !pre && !e.w.uninterp[fn] {
		est = &State{heap: st.heap, pc: nil}
		var ids []string
		for _, k := range sortedKeys(keys) {
			if t, ok := st.heap[k]; ok {
				t = e.withoutSpecCells(t)
				if t.op == "var" && strings.HasPrefix(t.name, "H0.") {
					continue
				}
				ids = append(ids, fmt.Sprint(t.id))
				if os.Getenv("GOV_VER") != "" {
					fmt.Println("VER", fn.Name(), k, t.id, t.op, t.name)
				}
			}
		}
		ver = "@" + strings.Join(ids, "_")
	}
	var out Val
	name := "ghost_" + sane(fn.String()) + sane(ver)
	rt := fn.Signature.Results()
	for k, cp := range compsOf(rt) {
		t := c.UF(fmt.Sprintf("%s_%d", name, k), cp.sort, as...)
		if t.lo == nil && t.eLo == nil {
			e.boundComp(t, cp, big.NewInt(e.next+regionW))
			if pre {
				t.lo, t.hi, t.eLo, t.eHi = nil, nil, nil, nil
				e.boundComp(t, cp, refHi)
			}
		}
		out = append(out, t)
	}
	e.typeFacts(out, rt)
	if e.w.uninterp[fn] {
		return out
	}
	flat := e.ghostD >= e.fuel && !e.recursive(fn)
	opaque := e.w.opaque[fn] && e.self != nil && !slices.Contains(e.self.Transparent, fn.Name()) && e.self.Fn != nil && e.self.Fn.Pkg != fn.Pkg
	if e.self != nil && slices.Contains(e.self.Folded, fn.Name()) {
		opaque = true
	}
	if !opaque && (e.ghostD < e.fuel || flat) {
		key := fmt.Sprintf("%s:%v", name, ids(as))
		if !e.ghostDone[key] {
			e.ghostDone[key] = true
			if !flat {
				e.ghostD++
			}
			sr := e.reads
			body := e.evalGhost(est, fn, args)
			e.reads = sr
			if !flat {
				e.ghostD--
			}
			for k := range out {
				if out[k].bound {
					continue
				}
				c.AddFact(out[k], c.mk("=", "", SBool, []*Term{out[k], body[k]}))
			}
		}
	}
	return out
}

// recursive: can the definition reach itself (through the functions and closures it mentions)?
func (e *Exec) recursive(fn *ssa.Function) bool {
	if r, ok := e.recGhost[fn]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	found := false
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || found {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if g == fn {
						found = true
						return
					}
					if g.Pkg == fn.Pkg || e.w.isSpecFn(g) {
						walk(g)
					}
				}
			}
		}
	}
	walk(fn)
	if e.recGhost == nil {
		e.recGhost = map[*ssa.Function]bool{}
	}
	e.recGhost[fn] = found
	return found
}

func ids(ts []*Term) []int {
	var o []int
	for _, t := range ts {
		o = append(o, t.id)
	}
	return o
}
func sortedKeys(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sortStrings(o)
	return o
}

func (e *Exec) evalGhost(st *State, fn *ssa.Function, args []any) Val {
	return e.evalMerged(st, fn, args, nil)
}

func (e *Exec) ghostReads(st *State, fn *ssa.Function, args []any) map[string]bool {
	if m, ok := e.ghostR[fn]; ok {
		return m
	}
	m := map[string]bool{}
	e.ghostR[fn] = m
	save := e.reads
	e.reads = &m
	e.ghostD++
	func() {
		defer func() { e.ghostD-- }()
		e.evalGhost(&State{heap: map[string]*Term{}, pc: nil}, fn, args)
	}()
	e.reads = save
	e.ghostR[fn] = m
	return m
}

// ---------------------------------------------------------------- contracts at calls

func (e *Exec) useContract(p *Path, st *State, fr *frame, ct *Contract, args []any) []callOut {
	e.used[ct.Name] = true
	c := e.c
	if ct.Assumed != "" {
		e.trusted["assumed contract of "+ct.TargetName+": "+ct.Assumed] = true
	}
	if ct.Bounded != "" {
		e.trusted["contract of "+ct.TargetName+" decided by a bounded check only: "+ct.Bounded] = true
	}
	var flat []any
	for _, a := range args {
		flat = append(flat, e.flat(p, a))
	}
	// pre part
	sm, sn, se, np := e.reqMode, e.reqName, e.ensMode, e.nopanic
	e.reqMode, e.reqName = "oblige", "call of "+ct.Name
	if fr.spec || e.dry > 0 {
		e.reqMode = "assume"
	}
	outs := e.callFn(st, ct.Fn, flat, nil, true, false)
	e.reqMode, e.reqName, e.nopanic = sm, sn, np
	var res []callOut
	for _, o := range outs {
		A := e.next
		e.next += regionW
		rt := ct.Target.Signature.Results()
		var rv Val
		hi := big.NewInt(A + regionW - 1)
		if ct.Pure {
			hi = refHi
		}
		for i := 0; i < rt.Len(); i++ {
			rv = append(rv, e.freshVal(fmt.Sprintf("r_%s_%d", ct.Target.Name(), i), rt.At(i).Type(), hi)...)
		}
		s2 := o.st
		if len(o.res) == 1 {
			cl := e.closureOf(o.res[0])
			e.ensMode = "assume"
			e.freshFrom = A
			var ra []any
			off := 0
			for i := 0; i < rt.Len(); i++ {
				n := len(compsOf(rt.At(i).Type()))
				ra = append(ra, append(Val{}, rv[off:off+n]...))
				off += n
			}
			o2 := e.callFn(s2, cl.fn, ra, cl.bind, true, false)
			e.ensMode = se
			for _, x := range o2 {
				res = append(res, callOut{x.st, e.solveFor(x.st, len(s2.pc), rv)})
			}
		} else {
			res = append(res, callOut{s2, rv})
		}
	}
	_ = c
	return res
}

var _ = types.Identical

// solveFor replaces result variables that the postcondition gives outright.
func (e *Exec) solveFor(st *State, from int, rv Val) Val {
	out := append(Val{}, rv...)
	if from > len(st.pc) {
		from = len(st.pc)
	}
	for i, r := range rv {
		if r.op != "var" {
			continue
		}
		for _, q := range st.pc[from:] {
			switch {
			case q == r:
				out[i] = e.c.T
			case q.op == "not" && q.args[0] == r:
				out[i] = e.c.F
			case q.op == "=" && q.args[0] == r && !occursAny(q.args[1], rv):
				out[i] = q.args[1]
			case q.op == "=" && q.args[1] == r && !occursAny(q.args[0], rv):
				out[i] = q.args[0]
			}
		}
	}
	return out
}
func occursAny(t *Term, vs Val) bool {
	for _, v := range vs {
		if v.op == "var" && occurs(t, v) {
			return true
		}
	}
	return false
}
