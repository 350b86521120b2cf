package main

// Terms: hash-consed SMT terms with a light simplifier. One Ctx per worker.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort string

const (
	SBool Sort = "Bool"
	SInt  Sort = "Int"
	SStr  Sort = "String"
	SReal Sort = "Flt"
)

func arr(s Sort) Sort      { return Sort("(Array Int " + string(s) + ")") }
func arrK(k, s Sort) Sort  { return Sort("(Array " + string(k) + " " + string(s) + ")") }
func (s Sort) isArr() bool { return strings.HasPrefix(string(s), "(Array ") }
func (s Sort) parts() (Sort, Sort) {
	t := string(s[len("(Array ") : len(s)-1])
	if t[0] == '(' {
		d := 0
		for i, c := range t {
			if c == '(' {
				d++
			}
			if c == ')' {
				d--
				if d == 0 {
					return Sort(t[:i+1]), Sort(t[i+2:])
				}
			}
		}
	}
	i := strings.Index(t, " ")
	return Sort(t[:i]), Sort(t[i+1:])
}
func (s Sort) elem() Sort { _, e := s.parts(); return e }

type Term struct {
	id    int
	op    string // const ops: "int","str","true","false"; "var"; "uf"; "forall"; "exists"; smt ops
	name  string // var/uf name, string literal
	args  []*Term
	sort  Sort
	iv    *big.Int
	lo    *big.Int // declared/derived bounds for Int terms (nil = none)
	hi    *big.Int
	eLo   *big.Int // for arrays: declared element bounds (innermost Int)
	eHi   *big.Int
	bound bool // contains a bound variable
	size  int
	typ   string // dynamic type tag for boxes
	rh    bool   // heap array of references: element bounds hold only for addresses within them
}

type Ctx struct {
	tab    map[string]*Term
	n      int
	T, F   *Term
	fresh  map[string]int
	facts  map[int][]*Term // globally valid facts keyed by a trigger term id
	ufs    map[string]string
	factIn map[string]bool
	rules  []func(*Term)
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, fresh: map[string]int{}, facts: map[int][]*Term{}, ufs: map[string]string{}, factIn: map[string]bool{}}
	c.T = c.mk("true", "", SBool, nil)
	c.F = c.mk("false", "", SBool, nil)
	return c
}

func (c *Ctx) mk(op, name string, s Sort, args []*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(string(s))
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	k := b.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{id: c.n, op: op, name: name, args: args, sort: s, size: 1}
	c.n++
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	if op == "bvar" {
		t.bound = true
	}
	c.tab[k] = t
	return t
}

func (c *Ctx) isT(t *Term) bool { return t == c.T }
func (c *Ctx) isF(t *Term) bool { return t == c.F }

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}
func (c *Ctx) Int(n int64) *Term { return c.Big(big.NewInt(n)) }
func (c *Ctx) Big(n *big.Int) *Term {
	t := c.mk("int", n.String(), SInt, nil)
	if t.iv == nil {
		t.iv = new(big.Int).Set(n)
		t.lo, t.hi = t.iv, t.iv
	}
	return t
}
func (c *Ctx) Str(s string) *Term { return c.mk("str", s, SStr, nil) }

func (c *Ctx) Var(name string, s Sort) *Term { return c.mk("var", name, s, nil) }
func (c *Ctx) FreshName(p string) string {
	p = sane(p)
	c.fresh[p]++
	return fmt.Sprintf("%s!%d", p, c.fresh[p])
}
func (c *Ctx) Fresh(p string, s Sort) *Term { return c.Var(c.FreshName(p), s) }
func (c *Ctx) FreshB(p string, lo, hi *big.Int) *Term {
	t := c.Fresh(p, SInt)
	t.lo, t.hi = lo, hi
	return t
}
func (c *Ctx) BVar(p string) *Term { return c.mk("bvar", c.FreshName(p), SInt, nil) }

// BVar2 names a bound variable once for all.
func (c *Ctx) BVar2(p string) *Term { return c.mk("bvar", p, SInt, nil) }

func sane(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	if b.Len() == 0 {
		return "x"
	}
	return b.String()
}

func (c *Ctx) UF(name string, s Sort, args ...*Term) *Term {
	t := c.mk("uf", sane(name), s, args)
	for _, r := range c.rules {
		r(t)
	}
	return t
}

func (c *Ctx) AddFact(trigger, fact *Term) {
	if c.isT(fact) {
		return
	}
	k := fmt.Sprintf("%d:%d", trigger.id, fact.id)
	if c.factIn[k] {
		return
	}
	c.factIn[k] = true
	c.facts[trigger.id] = append(c.facts[trigger.id], fact)
}

// ---- boolean
func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a == c.T:
		return c.F
	case a == c.F:
		return c.T
	case a.op == "not":
		return a.args[0]
	}
	return c.mk("not", "", SBool, []*Term{a})
}
func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == c.F {
			return false
		}
		if t == c.T || seen[t.id] {
			return true
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		n := c.Not(t)
		if seen[n.id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.F
		}
	}
	if len(out) == 0 {
		return c.T
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("and", "", SBool, out)
}
func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == c.T {
			return false
		}
		if t == c.F || seen[t.id] {
			return true
		}
		if t.op == "or" {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.T
		}
	}
	if len(out) == 0 {
		return c.F
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("or", "", SBool, out)
}
func (c *Ctx) Imp(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g == c.T || a == b {
		return a
	}
	if g == c.F {
		return b
	}
	if g.op == "not" {
		return c.Ite(g.args[0], b, a)
	}
	if a.sort == SBool {
		if a == c.T && b == c.F {
			return g
		}
		if a == c.F && b == c.T {
			return c.Not(g)
		}
		if a == c.T {
			return c.Or(g, b)
		}
		if a == c.F {
			return c.And(c.Not(g), b)
		}
		if b == c.T {
			return c.Or(c.Not(g), a)
		}
		if b == c.F {
			return c.And(g, a)
		}
	}
	if a.op == "ite" && a.args[0] == g {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == g {
		b = b.args[2]
	}
	if b.op == "ite" && b.args[1] == a {
		return c.Ite(c.Or(g, b.args[0]), a, b.args[2])
	}
	if a == b {
		return a
	}
	t := c.mk("ite", "", a.sort, []*Term{g, a, b})
	if a.lo != nil && b.lo != nil {
		t.lo = minB(a.lo, b.lo)
	}
	if a.hi != nil && b.hi != nil {
		t.hi = maxB(a.hi, b.hi)
	}
	if a.eLo != nil && b.eLo != nil {
		t.eLo, t.eHi = minB(a.eLo, b.eLo), maxB(a.eHi, b.eHi)
	}
	return t
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// ---- integers: linear normal form  (+ c (* k a) ...)
type lin struct {
	c  *big.Int
	ks map[int]*big.Int
	ts map[int]*Term
}

func (c *Ctx) lin(t *Term) lin {
	l := lin{big.NewInt(0), map[int]*big.Int{}, map[int]*Term{}}
	c.linAdd(&l, t, big.NewInt(1))
	return l
}
func (c *Ctx) linAdd(l *lin, t *Term, k *big.Int) {
	switch t.op {
	case "int":
		l.c.Add(l.c, new(big.Int).Mul(k, t.iv))
	case "+":
		for _, a := range t.args {
			c.linAdd(l, a, k)
		}
	case "*":
		if t.args[0].op == "int" {
			c.linAdd(l, t.args[1], new(big.Int).Mul(k, t.args[0].iv))
			return
		}
		fallthrough
	default:
		if o, ok := l.ks[t.id]; ok {
			s := new(big.Int).Add(o, k)
			if s.Sign() == 0 {
				delete(l.ks, t.id)
				delete(l.ts, t.id)
			} else {
				l.ks[t.id] = s
			}
		} else {
			l.ks[t.id] = new(big.Int).Set(k)
			l.ts[t.id] = t
		}
	}
}
func (c *Ctx) unlin(l lin) *Term {
	ids := make([]int, 0, len(l.ks))
	for id := range l.ks {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var as []*Term
	for _, id := range ids {
		k := l.ks[id]
		if k.Cmp(big.NewInt(1)) == 0 {
			as = append(as, l.ts[id])
		} else {
			as = append(as, c.mkB("*", []*Term{c.Big(k), l.ts[id]}))
		}
	}
	if l.c.Sign() != 0 || len(as) == 0 {
		as = append(as, c.Big(l.c))
	}
	if len(as) == 1 {
		return as[0]
	}
	return c.mkB("+", as)
}

// mkB makes an arithmetic term and derives interval bounds.
func (c *Ctx) mkB(op string, as []*Term) *Term {
	t := c.mk(op, "", SInt, as)
	if t.lo != nil || t.hi != nil {
		return t
	}
	switch op {
	case "+":
		lo, hi := big.NewInt(0), big.NewInt(0)
		for _, a := range as {
			if lo != nil && a.lo != nil {
				lo = new(big.Int).Add(lo, a.lo)
			} else {
				lo = nil
			}
			if hi != nil && a.hi != nil {
				hi = new(big.Int).Add(hi, a.hi)
			} else {
				hi = nil
			}
		}
		t.lo, t.hi = lo, hi
	case "*":
		if as[0].op == "int" && as[1].lo != nil && as[1].hi != nil {
			x, y := new(big.Int).Mul(as[0].iv, as[1].lo), new(big.Int).Mul(as[0].iv, as[1].hi)
			t.lo, t.hi = minB(x, y), maxB(x, y)
		}
	}
	return t
}
func (c *Ctx) Add(as ...*Term) *Term {
	l := lin{big.NewInt(0), map[int]*big.Int{}, map[int]*Term{}}
	for _, a := range as {
		c.linAdd(&l, a, big.NewInt(1))
	}
	return c.unlin(l)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	l := c.lin(a)
	c.linAdd(&l, b, big.NewInt(-1))
	return c.unlin(l)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == "int" || b.op == "int" {
		if b.op == "int" {
			a, b = b, a
		}
		l := lin{big.NewInt(0), map[int]*big.Int{}, map[int]*Term{}}
		c.linAdd(&l, b, a.iv)
		return c.unlin(l)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mkB("*", []*Term{a, b})
}
func (c *Ctx) Div(a, b *Term) *Term { // SMT floor-ish div; use only for b>0,a>=0
	if a.op == "int" && b.op == "int" && b.iv.Sign() > 0 {
		return c.Big(new(big.Int).Div(a.iv, b.iv))
	}
	t := c.mk("div", "", SInt, []*Term{a, b})
	if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() > 0 {
		t.lo = big.NewInt(0)
		t.hi = a.hi
	}
	return t
}
func (c *Ctx) Mod(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" && b.iv.Sign() > 0 {
		return c.Big(new(big.Int).Mod(a.iv, b.iv))
	}
	if b.op != "int" {
		// by a variable: what is needed of it, as facts
		t := c.UF("imod", SInt, a, b)
		if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() >= 0 {
			t.lo = big.NewInt(0)
			t.hi = a.hi
			if b.hi != nil && (t.hi == nil || b.hi.Cmp(t.hi) < 0) {
				t.hi = b.hi
			}
		}
		if !t.bound {
			pos := c.And(c.Le(c.Int(0), a), c.Lt(c.Int(0), b))
			c.AddFact(t, c.Imp(pos, c.And(c.mk("<=", "", SBool, []*Term{c.Int(0), t}), c.mk("not", "", SBool, []*Term{c.mk("<=", "", SBool, []*Term{b, t})}))))
			c.AddFact(t, c.Imp(c.And(pos, c.Lt(a, b)), c.mk("=", "", SBool, []*Term{t, a})))
			c.AddFact(t, c.Imp(c.And(pos, c.Le(b, a), c.Lt(a, c.Add(b, b))), c.mk("=", "", SBool, []*Term{t, c.Sub(a, b)})))
		}
		return t
	}
	t := c.mk("mod", "", SInt, []*Term{a, b})
	if b.lo != nil && b.lo.Sign() > 0 {
		t.lo = big.NewInt(0)
		if b.hi != nil {
			t.hi = new(big.Int).Sub(b.hi, big.NewInt(1))
		}
	}
	return t
}
func (c *Ctx) Le(a, b *Term) *Term {
	d := c.Sub(b, a) // d >= 0
	if d.op == "int" {
		return c.Bool(d.iv.Sign() >= 0)
	}
	if d.lo != nil && d.lo.Sign() >= 0 {
		return c.T
	}
	if d.hi != nil && d.hi.Sign() < 0 {
		return c.F
	}
	return c.mk("<=", "", SBool, []*Term{a, b})
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Not(c.Le(b, a)) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

func (c *Ctx) distinctI(a, b *Term) bool {
	if a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) > 0 {
		return true
	}
	if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) < 0 {
		return true
	}
	d := c.Sub(a, b)
	if d.op == "int" && d.iv.Sign() != 0 {
		return true
	}
	if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
		return true
	}
	return false
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %s vs %s: %s / %s", a.sort, b.sort, c.show(a), c.show(b)))
	}
	switch a.sort {
	case SBool:
		if a == c.T {
			return b
		}
		if b == c.T {
			return a
		}
		if a == c.F {
			return c.Not(b)
		}
		if b == c.F {
			return c.Not(a)
		}
	case SInt:
		if c.distinctI(a, b) {
			return c.F
		}
		if a.op == "ite" && (b.op == "int" || b.op == "var") {
			x, y := c.Eq(a.args[1], b), c.Eq(a.args[2], b)
			if x == c.T || x == c.F || y == c.T || y == c.F {
				return c.Ite(a.args[0], x, y)
			}
		}
		if b.op == "ite" && (a.op == "int" || a.op == "var") {
			return c.Eq(b, a)
		}
		if a.op == "uf" && b.op == "uf" && a.typ != "" && b.typ != "" {
			if a.typ != b.typ {
				return c.F
			}
			if strings.HasPrefix(a.name, "box_") && a.name == b.name {
				var es []*Term
				for i := range a.args {
					es = append(es, c.Eq(a.args[i], b.args[i]))
				}
				return c.And(es...)
			}
		}
	case SStr:
		return c.eqStr(a, b)
	}
	if a.sort != SInt && a.op == "ite" && b.op != "ite" {
		x, y := c.Eq(a.args[1], b), c.Eq(a.args[2], b)
		if x == c.T || x == c.F || y == c.T || y == c.F {
			return c.Ite(a.args[0], x, y)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", "", SBool, []*Term{a, b})
}

// ---- strings
func (c *Ctx) parts(t *Term) []*Term {
	if t.op == "str.++" {
		return t.args
	}
	if t.op == "str" && t.name == "" {
		return nil
	}
	return []*Term{t}
}
func (c *Ctx) Cat(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		for _, p := range c.parts(a) {
			if p.op == "str" && len(out) > 0 && out[len(out)-1].op == "str" {
				out[len(out)-1] = c.Str(out[len(out)-1].name + p.name)
				continue
			}
			if p.op == "sub!" && len(out) > 0 {
				q := out[len(out)-1]
				if q.op == "sub!" && q.args[0] == p.args[0] && p.args[1] == c.Add(q.args[1], q.args[2]) {
					k := c.Add(q.args[2], p.args[2])
					if q.args[1] == c.Int(0) && k == c.Len(p.args[0]) {
						out[len(out)-1] = p.args[0]
					} else {
						out[len(out)-1] = c.sub(p.args[0], q.args[1], k)
					}
					continue
				}
			}
			// merge adjacent substrings of the same base
			if p.op == "str.substr" && len(out) > 0 {
				q := out[len(out)-1]
				if q.op == "str.substr" && q.args[0] == p.args[0] && p.args[1] == c.Add(q.args[1], q.args[2]) && c.nonneg(q.args[1]) && c.nonneg(q.args[2]) && c.nonneg(p.args[2]) {
					out[len(out)-1] = c.Substr(p.args[0], q.args[1], c.Add(q.args[2], p.args[2]))
					continue
				}
			}
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return c.Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("str.++", "", SStr, out)
}
func (c *Ctx) nonneg(t *Term) bool { return t.lo != nil && t.lo.Sign() >= 0 }

var big40 = new(big.Int).Lsh(big.NewInt(1), 40)

func (c *Ctx) Len(s *Term) *Term {
	switch s.op {
	case "str":
		return c.Int(int64(len(s.name)))
	case "str.++":
		var ls []*Term
		for _, a := range s.args {
			ls = append(ls, c.Len(a))
		}
		return c.Add(ls...)
	case "ite":
		return c.Ite(s.args[0], c.Len(s.args[1]), c.Len(s.args[2]))
	case "uf":
		if n, ok := fixedLen[s.name]; ok {
			return c.Int(int64(n))
		}
	case "str.from_code":
		return c.Int(1)
	case "sub!":
		return s.args[2]
	}
	t := c.mk("str.len", "", SInt, []*Term{s})
	if t.lo == nil {
		t.lo, t.hi = big.NewInt(0), big40
	}
	return t
}

var fixedLen = map[string]int{}

func (c *Ctx) eqStr(a, b *Term) *Term {
	if a.op == "str" && b.op == "str" {
		return c.Bool(a.name == b.name)
	}
	pa, pb := append([]*Term{}, c.parts(a)...), append([]*Term{}, c.parts(b)...)
	strip := func() {
		for len(pa) > 0 && len(pb) > 0 {
			x, y := pa[0], pb[0]
			if x == y {
				pa, pb = pa[1:], pb[1:]
				continue
			}
			if x.op == "str" && y.op == "str" {
				n := 0
				for n < len(x.name) && n < len(y.name) && x.name[n] == y.name[n] {
					n++
				}
				if n < len(x.name) && n < len(y.name) {
					pa, pb = []*Term{c.Str("0")}, []*Term{c.Str("1")}
					return
				}
				if n == len(x.name) {
					pa = pa[1:]
				} else {
					pa[0] = c.Str(x.name[n:])
				}
				if n == len(y.name) {
					pb = pb[1:]
				} else {
					pb[0] = c.Str(y.name[n:])
				}
				continue
			}
			break
		}
		for len(pa) > 0 && len(pb) > 0 {
			x, y := pa[len(pa)-1], pb[len(pb)-1]
			if x == y {
				pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
				continue
			}
			break
		}
	}
	strip()
	ca, cb := c.Cat(pa...), c.Cat(pb...)
	if ca == cb {
		return c.T
	}
	if ca.op == "str" && cb.op == "str" {
		return c.Bool(ca.name == cb.name)
	}
	// same-length leading/trailing pieces decompose
	if len(pa) > 0 && len(pb) > 0 && (len(pa) > 1 || len(pb) > 1) {
		lx, ly := c.Len(pa[0]), c.Len(pb[0])
		if lx == ly {
			return c.And(c.eqStr(pa[0], pb[0]), c.eqStr(c.Cat(pa[1:]...), c.Cat(pb[1:]...)))
		}
		lx, ly = c.Len(pa[len(pa)-1]), c.Len(pb[len(pb)-1])
		if lx == ly {
			return c.And(c.eqStr(pa[len(pa)-1], pb[len(pb)-1]), c.eqStr(c.Cat(pa[:len(pa)-1]...), c.Cat(pb[:len(pb)-1]...)))
		}
	}
	la, lb := c.Len(ca), c.Len(cb)
	if c.distinctI(la, lb) {
		return c.F
	}
	if ca.op == "str" && ca.name == "" {
		ca, cb = cb, ca
	}
	if ca.op == "ite" && cb.op == "str" {
		return c.Ite(ca.args[0], c.eqStr(ca.args[1], cb), c.eqStr(ca.args[2], cb))
	}
	if cb.op == "ite" && ca.op == "str" {
		return c.eqStr(cb, ca)
	}
	if ca.id > cb.id {
		ca, cb = cb, ca
	}
	return c.mk("=", "", SBool, []*Term{ca, cb})
}

func (c *Ctx) Substr(s, off, n *Term) *Term {
	if n.op == "int" && n.iv.Sign() <= 0 {
		return c.Str("")
	}
	if s.op == "str" && off.op == "int" && n.op == "int" && off.iv.IsInt64() && n.iv.IsInt64() {
		o, k := off.iv.Int64(), n.iv.Int64()
		if o < 0 || o >= int64(len(s.name)) || k <= 0 {
			return c.Str("")
		}
		if o+k > int64(len(s.name)) {
			k = int64(len(s.name)) - o
		}
		return c.Str(s.name[o : o+k])
	}
	if off.op == "int" && off.iv.Sign() == 0 && n == c.Len(s) {
		return s
	}
	// drop whole leading pieces
	if s.op == "str.++" {
		ps := s.args
		o := off
		for len(ps) > 0 {
			l := c.Len(ps[0])
			if o == l {
				ps, o = ps[1:], c.Int(0)
				break
			}
			d := c.Sub(o, l)
			if c.nonneg(d) && c.nonneg(o) {
				ps, o = ps[1:], d
				continue
			}
			break
		}
		if o.op == "int" && o.iv.Sign() == 0 {
			// take whole pieces while n covers them
			tot := c.Int(0)
			for i := 0; i <= len(ps); i++ {
				if tot == n {
					return c.Cat(ps[:i]...)
				}
				if i < len(ps) {
					tot = c.Add(tot, c.Len(ps[i]))
				}
			}
		}
		if len(ps) != len(s.args) {
			return c.Substr(c.Cat(ps...), o, n)
		}
	}
	if s.op == "str.substr" && c.nonneg(off) && c.nonneg(s.args[1]) {
		// substr(substr(b,o1,n1),o2,n2) with o2+n2<=n1
		if c.isT(c.Le(c.Add(off, n), s.args[2])) {
			return c.Substr(s.args[0], c.Add(s.args[1], off), n)
		}
	}
	return c.mk("str.substr", "", SStr, []*Term{s, off, n})
}

func (c *Ctx) S(op string, s Sort, as ...*Term) *Term {
	t := c.mk(op, "", s, as)
	if op == "str.to_code" && t.lo == nil {
		t.lo, t.hi = big.NewInt(-1), big.NewInt(255)
	}
	if op == "str.indexof" && t.lo == nil {
		t.lo, t.hi = big.NewInt(-1), big40
	}
	return t
}
func (c *Ctx) PrefixOf(p, s *Term) *Term {
	if p.op == "str" && s.op == "str" {
		return c.Bool(strings.HasPrefix(s.name, p.name))
	}
	if p.op == "str" && p.name == "" || p == s {
		return c.T
	}
	pp, sp := c.parts(p), c.parts(s)
	if len(sp) > 0 && len(pp) > 0 && pp[0] == sp[0] {
		return c.PrefixOf(c.Cat(pp[1:]...), c.Cat(sp[1:]...))
	}
	if len(sp) > 0 && len(pp) > 0 && pp[0].op == "str" && sp[0].op == "str" {
		a, b := pp[0].name, sp[0].name
		n := len(a)
		if len(b) < n {
			n = len(b)
		}
		if a[:n] != b[:n] {
			return c.F
		}
		pp = append([]*Term{c.Str(a[n:])}, pp[1:]...)
		sp = append([]*Term{c.Str(b[n:])}, sp[1:]...)
		return c.PrefixOf(c.Cat(pp...), c.Cat(sp...))
	}
	return c.mk("str.prefixof", "", SBool, []*Term{p, s})
}

func (c *Ctx) SuffixOf(p, s *Term) *Term {
	if p.op == "str" && s.op == "str" {
		return c.Bool(strings.HasSuffix(s.name, p.name))
	}
	if p.op == "str" && p.name == "" || p == s {
		return c.T
	}
	pp, sp := c.parts(p), c.parts(s)
	if len(sp) > 0 && len(pp) > 0 {
		x, y := pp[len(pp)-1], sp[len(sp)-1]
		if x == y {
			return c.SuffixOf(c.Cat(pp[:len(pp)-1]...), c.Cat(sp[:len(sp)-1]...))
		}
		if x.op == "str" && y.op == "str" {
			a, b := x.name, y.name
			n := len(a)
			if len(b) < n {
				n = len(b)
			}
			if a[len(a)-n:] != b[len(b)-n:] {
				return c.F
			}
			pp = append(append([]*Term{}, pp[:len(pp)-1]...), c.Str(a[:len(a)-n]))
			sp = append(append([]*Term{}, sp[:len(sp)-1]...), c.Str(b[:len(b)-n]))
			return c.SuffixOf(c.Cat(pp...), c.Cat(sp...))
		}
	}
	return c.mk("str.suffixof", "", SBool, []*Term{p, s})
}

// ---- arrays
func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		return c.Store(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	t := c.mk("store", "", a.sort, []*Term{a, i, v})
	if t.eLo == nil && a.eLo != nil {
		vlo, vhi := v.lo, v.hi
		if v.sort.isArr() {
			vlo, vhi = v.eLo, v.eHi
		}
		if vlo != nil && vhi != nil {
			t.eLo, t.eHi = minB(a.eLo, vlo), maxB(a.eHi, vhi)
		}
	}
	return t
}

// Hv: values below addr come from old, the rest from new.
func (c *Ctx) Hv(old, addr, nw *Term) *Term {
	return c.mk("hv", "", old.sort, []*Term{old, addr, nw})
}

func (c *Ctx) Select(a, i *Term) *Term {
	for {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if a.args[1].sort == SInt && c.distinctI(a.args[1], i) {
				a = a.args[0]
				continue
			}
			if a.args[1].sort == SStr && c.isF(c.Eq(a.args[1], i)) {
				a = a.args[0]
				continue
			}
		}
		if a.op == "hv" {
			ad := a.args[1]
			if i.hi != nil && i.hi.Cmp(ad.iv) < 0 {
				a = a.args[0]
				continue
			}
			if i.lo != nil && i.lo.Cmp(ad.iv) >= 0 {
				a = a.args[2]
				continue
			}
			if i.op == "ite" {
				return c.Ite(i.args[0], c.Select(a, i.args[1]), c.Select(a, i.args[2]))
			}
			return c.Ite(c.Lt(i, ad), c.Select(a.args[0], i), c.Select(a.args[2], i))
		}
		break
	}
	if a.op == "ite" {
		return c.Ite(a.args[0], c.Select(a.args[1], i), c.Select(a.args[2], i))
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	if i.op == "ite" && (a.op == "store" || a.op == "var") && i.sort == SInt && i.size < 40 && (c.isConstish(i)) {
		return c.Ite(i.args[0], c.Select(a, i.args[1]), c.Select(a, i.args[2]))
	}
	if a.op == "store" && hasHv(a) {
		// cannot leave hv in SMT text: expand the store
		return c.Ite(c.Eq(a.args[1], i), a.args[2], c.Select(a.args[0], i))
	}
	t := c.mk("select", "", a.sort.elem(), []*Term{a, i})
	if a.eLo != nil {
		if b := heapBase(a); b.rh && (i.hi == nil || i.hi.Cmp(b.eHi) > 0) {
			// an address beyond the objects this heap knows of: an object made no later than i.hi
			// holds references to objects made no later than that
			if t.sort == SInt && t.lo == nil && i.hi != nil {
				t.lo, t.hi = a.eLo, i.hi
				if a.eHi.Cmp(t.hi) > 0 {
					t.hi = a.eHi
				}
			}
		} else if t.sort == SInt && t.lo == nil {
			t.lo, t.hi = a.eLo, a.eHi
		} else if t.sort.isArr() && t.eLo == nil {
			t.eLo, t.eHi = a.eLo, a.eHi
		}
	}
	return t
}
func (c *Ctx) isConstish(t *Term) bool {
	if t.op == "int" || t.op == "var" || t.op == "select" {
		return true
	}
	if t.op == "ite" {
		return c.isConstish(t.args[1]) && c.isConstish(t.args[2])
	}
	return false
}
func heapBase(a *Term) *Term {
	for a.op == "store" {
		a = a.args[0]
	}
	return a
}
func hasHv(a *Term) bool {
	for a.op == "store" {
		a = a.args[0]
	}
	return a.op == "hv"
}
func (c *Ctx) ConstArr(k Sort, v *Term) *Term {
	return c.mk("constarr", "", arrK(k, v.sort), []*Term{v})
}

// ---- quantifiers
func (c *Ctx) Quant(q string, bv *Term, body *Term) *Term {
	if body == c.T || body == c.F {
		return body
	}
	if !c.contains(body, bv) {
		return body
	}
	t := c.mk(q, bv.name, SBool, []*Term{bv, body})
	t.bound = c.hasOtherBound(body, map[int]bool{bv.id: true})
	return t
}
func (c *Ctx) contains(t, v *Term) bool {
	seen := map[int]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == v {
			return true
		}
		if !t.bound || seen[t.id] {
			return false
		}
		seen[t.id] = true
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}
func (c *Ctx) hasOtherBound(t *Term, in map[int]bool) bool {
	seen := map[int]bool{}
	var f func(t *Term, in map[int]bool) bool
	f = func(t *Term, in map[int]bool) bool {
		if t.op == "bvar" {
			return !in[t.id]
		}
		if !t.bound && t.op != "forall" && t.op != "exists" || seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.op == "forall" || t.op == "exists" {
			in2 := map[int]bool{t.args[0].id: true}
			for k := range in {
				in2[k] = true
			}
			return f(t.args[1], in2)
		}
		for _, a := range t.args {
			if f(a, in) {
				return true
			}
		}
		return false
	}
	return f(t, in)
}

// Subst replaces leaf v by r, rebuilding with the simplifier and carrying facts over.
func (c *Ctx) Subst(t, v, r *Term) *Term {
	memo := map[int]*Term{v.id: r}
	return c.substM(t, memo, 0)
}
func (c *Ctx) substM(t *Term, memo map[int]*Term, depth int) *Term {
	if x, ok := memo[t.id]; ok {
		return x
	}
	if len(t.args) == 0 {
		return t
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = c.substM(a, memo, depth)
		if as[i] != a {
			ch = true
		}
	}
	if !ch {
		memo[t.id] = t
		return t
	}
	n := c.rebuild(t, as)
	memo[t.id] = n
	if depth < 3 {
		for _, f := range c.facts[t.id] {
			c.AddFact(n, c.substM(f, memo, depth+1))
		}
	}
	return n
}
func (c *Ctx) rebuild(t *Term, as []*Term) *Term {
	var n *Term
	switch t.op {
	case "not":
		n = c.Not(as[0])
	case "and":
		n = c.And(as...)
	case "or":
		n = c.Or(as...)
	case "ite":
		n = c.Ite(as[0], as[1], as[2])
	case "+":
		n = c.Add(as...)
	case "*":
		n = c.Mul(as[0], as[1])
	case "div":
		n = c.Div(as[0], as[1])
	case "mod":
		n = c.Mod(as[0], as[1])
	case "<=":
		n = c.Le(as[0], as[1])
	case "=":
		n = c.Eq(as[0], as[1])
	case "str.++":
		n = c.Cat(as...)
	case "str.len":
		n = c.Len(as[0])
	case "str.substr":
		n = c.Substr(as[0], as[1], as[2])
	case "str.prefixof":
		n = c.PrefixOf(as[0], as[1])
	case "select":
		n = c.Select(as[0], as[1])
	case "store":
		n = c.Store(as[0], as[1], as[2])
	case "forall", "exists":
		n = c.Quant(t.op, as[0], as[1])
	case "uf":
		n = c.mk("uf", t.name, t.sort, as)
		n.typ = t.typ
		if n.lo == nil {
			n.lo, n.hi = t.lo, t.hi
		}
		if n.eLo == nil {
			n.eLo, n.eHi = t.eLo, t.eHi
		}
		for _, r := range c.rules {
			r(n)
		}
	default:
		n = c.mk(t.op, t.name, t.sort, as)
		if n.lo == nil && n.sort == SInt {
			n.lo, n.hi = t.lo, t.hi
		}
	}
	return n
}

func (c *Ctx) show(t *Term) string {
	s := c.smt(t, nil, 0)
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

func smtInt(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}
func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if ch == '"' {
			b.WriteString("\"\"")
		} else if ch >= 32 && ch < 127 && ch != '\\' {
			b.WriteByte(ch)
		} else {
			fmt.Fprintf(&b, "\\u{%x}", ch)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (c *Ctx) smt(t *Term, names map[int]string, depth int) string {
	if names != nil {
		if n, ok := names[t.id]; ok {
			return n
		}
	}
	switch t.op {
	case "int":
		return smtInt(t.iv)
	case "str":
		return smtStr(t.name)
	case "true", "false":
		return t.op
	case "var", "bvar":
		return "|" + t.name + "|"
	case "uf":
		if len(t.args) == 0 {
			return "|" + t.name + "|"
		}
		var b strings.Builder
		b.WriteString("(|" + t.name + "|")
		for _, a := range t.args {
			b.WriteByte(' ')
			b.WriteString(c.smt(a, names, depth+1))
		}
		b.WriteByte(')')
		return b.String()
	case "forall", "exists":
		return "(" + t.op + " ((|" + t.args[0].name + "| Int)) " + c.smt(t.args[1], names, depth+1) + ")"
	case "constarr":
		return "((as const " + string(t.sort) + ") " + c.smt(t.args[0], names, depth+1) + ")"
	}
	var b strings.Builder
	if t.op == "sub!" {
		b.WriteString("(str.substr")
	} else {
		b.WriteString("(" + t.op)
	}
	for _, a := range t.args {
		b.WriteByte(' ')
		b.WriteString(c.smt(a, names, depth+1))
	}
	b.WriteByte(')')
	return b.String()
}
