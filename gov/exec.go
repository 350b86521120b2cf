package main

// Symbolic execution of Go SSA: every path of the function body, callees either inlined from
// /repo's current source or replaced by their contract, loops cut at their headers by invariants.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val []*Term

type sel struct {
	field int
	idx   *Term // nil for a field selector
}

type Addr struct {
	ref   *Term
	root  types.Type // type of the object at ref
	sels  []sel
	slice Val // element of a slice value (read only), when ref == nil
	sty   types.Type
}

type SliceCell struct { // a slice made by make([]T, n): cell holding array components and a length
	ref  *Term
	typ  types.Type // slice type
	off  *Term
	ln   *Term
	nil_ *Term
}

type madeSlice struct {
	sc *SliceCell
	by ssa.Value
}

type MapIter struct {
	m   *Term
	mt  *types.Map
	id  string
	vis *Term // the keys gone through, kept as a map of its own
	dom *Term // the keys at the start
}

func (m *MapIter) visType() *types.Map { return types.NewMap(m.mt.Key(), types.Typ[types.Bool]) }

type StrIter struct{ s *Term }

type Closure struct {
	fn   *ssa.Function
	bind []any
}

type State struct {
	heap map[string]*Term
	pc   []*Term
}

func (s *State) clone() *State {
	h := make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{h, append(make([]*Term, 0, len(s.pc)+4), s.pc...)}
}

type Path struct {
	st   *State
	regs map[ssa.Value]any
}

func (p *Path) clone() *Path {
	r := make(map[ssa.Value]any, len(p.regs))
	for k, v := range p.regs {
		r[k] = v
	}
	return &Path{p.st.clone(), r}
}

type Outcome struct {
	st  *State
	res Val
}

type Oblig struct {
	Name   string
	Kind   string
	Status string // proved, failed, unknown
	By     string
	Model  string
	Detail string
	Ms     int64
}

type writeRec struct {
	key  string
	addr *Term
}

type Exec struct {
	w           *World
	c           *Ctx
	s           *Solver
	next        int64
	maxRec      int // how deep a function of the code may be entered again (directive depth)
	dynOf       map[int64]types.Type
	specCells   map[int64]bool // captured variables of specifications: no object reaches them
	kcell       map[int64]bool
	streams     map[int64]string // cipher streams made, and what they do
	clos        map[int64]*Closure
	fnAddr      map[*ssa.Function]int64
	obl         []*Oblig
	dry         int
	writes      *[]writeRec
	reads       *map[string]bool
	stack       []*ssa.Function
	unk         []string
	nopanic     bool
	assume      bool // Ensures are assumed (contract used at a call)
	self        *Contract
	depth       int
	ghostD      int
	paramOf     map[string][]namedVal // contract params visible to loop templates
	invs        []*ssa.Function
	trusted     map[string]bool
	inlined     map[string]bool
	used        map[string]bool
	loops       int
	invsKept    int
	ncand       int
	reach       map[string]bool
	failAt      map[string]bool
	steps       int
	heapKeyT    map[string]Comp
	deadline    int64
	fuel        int
	quantD      int
	paths       int
	maxPaths    int
	reqSat      string
	curPos      string
	noFeas      int
	inLemma     *ssa.Function
	globalsDone map[*ssa.Global]bool
	proofMs     int
	pvals       []namedVal
	made        []madeSlice
	wantVar     map[string]bool
	seenVar     []namedVal
	reqMode     string
	reqName     string
	ensMode     string
	freshFrom   int64
	selfAt      int
	cats        map[int]*catInfo
	catN        map[string]*catInfo
	catUnf      map[int]bool
	apps        map[int]*appInfo
	ghostDone   map[string]bool
	recGhost    map[*ssa.Function]bool
	ghostR      map[*ssa.Function]map[string]bool
}

type namedVal struct {
	name string
	typ  types.Type
	val  any
}

func (e *Exec) fail(f string, a ...any) {
	panic(unsupported(fmt.Sprintf(f, a...) + " at " + e.curPos))
}

// ---------------------------------------------------------------- values

func (e *Exec) zero(t types.Type) Val {
	var out Val
	for _, c := range compsOf(t) {
		out = append(out, e.zeroComp(c, c.sort))
	}
	return out
}
func (e *Exec) zeroComp(c Comp, s Sort) *Term {
	if s.isArr() {
		k, el := s.parts()
		return e.c.ConstArr(k, e.zeroComp(c, el))
	}
	switch {
	case s == SBool:
		return e.c.Bool(c.role == "nil" || isSliceNil(c))
	case s == SStr:
		if c.flen > 0 {
			return e.c.Str(strings.Repeat("\x00", c.flen))
		}
		return e.c.Str("")
	case s == SReal:
		return e.c.UF("flt_zero", SReal)
	}
	if c.kind == KOpaque {
		return e.c.UF("zero_"+tkey(c.typ), SInt)
	}
	return e.c.Int(0)
}
func isSliceNil(c Comp) bool { return strings.HasSuffix(c.path, ".nil") }

func refLo(t types.Type) *big.Int {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return new(big.Int).Neg(pow2(60))
	}
	return big.NewInt(0)
}

// freshVal makes an arbitrary value of type t whose references lie at or below hi.
func (e *Exec) freshVal(p string, t types.Type, hi *big.Int) Val {
	var out Val
	base := e.c.FreshName(p)
	for _, c := range compsOf(t) {
		v := e.c.Var(base+sane(c.path), c.sort)
		e.boundComp(v, c, hi)
		out = append(out, v)
	}
	e.typeFacts(out, t)
	return out
}
func (e *Exec) boundComp(v *Term, c Comp, hi *big.Int) {
	switch c.kind {
	case KInt:
		setBounds(v, c, nil, nil)
	case KRef:
		setBounds(v, c, refLo(c.typ), hi)
	}
}

// typeFacts records what holds of every value of type t.
func (e *Exec) typeFacts(v Val, t types.Type) { e.typeFactsOf(v, t, false) }

// typeFactsOf is told whether the terms were made to be a value of type t, whatever the path.
func (e *Exec) typeFactsOf(v Val, t types.Type, made bool) {
	c := e.c
	// what is computed has its properties by the path it was computed on, not everywhere
	given := func(t *Term) bool {
		for t.op == "select" {
			t = t.args[0]
		}
		return t.op == "var" || made && t.op == "uf"
	}
	for i, cp := range compsOf(t) {
		if cp.role == "nil" && cp.depth == 0 && !cp.sort.isArr() {
			if i+1 < len(v) && v[i+1].sort == SStr {
				if given(v[i]) && given(v[i+1]) {
					f := c.Imp(v[i], c.Eq(v[i+1], c.Str("")))
					c.AddFact(v[i], f)
					c.AddFact(v[i+1], f)
				}
			} else if i+2 < len(v) {
				if given(v[i]) && given(v[i+2]) {
					f := c.Imp(v[i], c.Eq(v[i+2], c.Int(0)))
					c.AddFact(v[i], f)
					c.AddFact(v[i+2], f)
				}
			}
		}
		if cp.flen > 0 && v[i].sort == SStr && given(v[i]) {
			if _, ok := fixedLen[v[i].name]; !(ok && v[i].op == "uf") {
				c.AddFact(v[i], c.mk("=", "", SBool, []*Term{c.Len(v[i]), c.Int(int64(cp.flen))}))
			}
		}
	}
}

func (e *Exec) newAddr() int64 {
	a := e.next
	e.next++
	delete(e.dynOf, e.next-1)
	delete(e.specCells, e.next-1)
	delete(e.kcell, e.next-1)
	delete(e.streams, e.next-1)
	return a
}

// ---------------------------------------------------------------- heap

func (e *Exec) heapArr(st *State, key string, cp Comp) *Term {
	if e.reads != nil {
		(*e.reads)[key] = true
	}
	if t, ok := st.heap[key]; ok {
		return t
	}
	e.heapKeyT[key] = cp
	t := e.c.Var("H0."+sane(key), arr(cp.sort))
	if t.eLo == nil {
		if cp.kind == KInt {
			t.eLo, t.eHi = cp.lo, cp.hi
		} else if cp.kind == KRef {
			t.eLo, t.eHi = refLo(cp.typ), refHi
			t.rh = true
		}
	}
	return t
}

func (e *Exec) heapWrite(st *State, key string, cp Comp, ref, v *Term) {
	a := e.heapArr(st, key, cp)
	if e.c.Select(a, ref) == v {
		return // what is there already
	}
	st.heap[key] = e.c.Store(a, ref, v)
	if e.writes != nil {
		*e.writes = append(*e.writes, writeRec{key, ref})
	}
}

// prefix of selectors up to (excluding) the first index selector
func (e *Exec) locate(root types.Type, sels []sel) (t types.Type, lo, hi, n int) {
	t = root
	lo, hi = 0, len(compsOf(root))
	for n = 0; n < len(sels); n++ {
		if sels[n].idx != nil {
			return
		}
		a, b := fieldRange(t, sels[n].field)
		lo, hi = lo+a, lo+b
		t = t.Underlying().(*types.Struct).Field(sels[n].field).Type()
	}
	return
}

// elemsOf gives the element type of an array or of the cell of a slice, and the number of
// components ahead of the elements.
func elemsOf(t types.Type) (interface{ Elem() types.Type }, int) {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if isByte(u.Elem()) {
			return u, 1
		}
		return u, 3
	case *types.Array:
		return u, 0
	}
	panic("elements of " + t.String())
}

func (e *Exec) applySels(v Val, t types.Type, sels []sel) (Val, types.Type) {
	for _, s := range sels {
		if s.idx == nil {
			a, b := fieldRange(t, s.field)
			v = v[a:b]
			t = t.Underlying().(*types.Struct).Field(s.field).Type()
			continue
		}
		u, drop := elemsOf(t)
		v = v[drop:]
		if isByte(u.Elem()) {
			v = Val{e.byteAt(v[0], s.idx)}
		} else {
			var o Val
			for _, a := range v {
				o = append(o, e.c.Select(a, s.idx))
			}
			v = o
		}
		t = u.Elem()
	}
	return v, t
}
func (e *Exec) updSels(v Val, t types.Type, sels []sel, nv Val) Val {
	if len(sels) == 0 {
		return nv
	}
	s := sels[0]
	out := append(Val{}, v...)
	if s.idx == nil {
		a, b := fieldRange(t, s.field)
		copy(out[a:b], e.updSels(v[a:b], t.Underlying().(*types.Struct).Field(s.field).Type(), sels[1:], nv))
		return out
	}
	u, drop := elemsOf(t)
	if isByte(u.Elem()) {
		out[drop] = e.byteSet(v[drop], s.idx, nv[0])
		return out
	}
	var old Val
	for _, a := range v[drop:] {
		old = append(old, e.c.Select(a, s.idx))
	}
	x := e.updSels(old, u.Elem(), sels[1:], nv)
	for i, a := range v[drop:] {
		out[drop+i] = e.c.Store(a, s.idx, x[i])
	}
	return out
}
func (e *Exec) byteAt(s, i *Term) *Term {
	c := e.c
	r := c.S("str.to_code", SInt, c.Substr(s, i, c.Int(1)))
	if !r.bound {
		c.AddFact(r, c.Imp(c.And(c.Le(c.Int(0), i), c.Lt(i, c.Len(s))), c.And(c.mk("<=", "", SBool, []*Term{c.Int(0), r}), c.mk("<=", "", SBool, []*Term{r, c.Int(255)}))))
	}
	return r
}
func (e *Exec) byteSet(s, i, b *Term) *Term {
	c := e.c
	return c.Cat(c.Substr(s, c.Int(0), i), e.byteStr(b), c.Substr(s, c.Add(i, c.Int(1)), c.Sub(c.Sub(c.Len(s), i), c.Int(1))))
}
func (e *Exec) byteStr(b *Term) *Term {
	if b.op == "int" {
		return e.c.Str(string([]byte{byte(b.iv.Int64())}))
	}
	if b.op == "str.to_code" {
		if x := b.args[0]; x.op == "str.substr" && x.args[2].op == "int" && x.args[2].iv.IsInt64() && x.args[2].iv.Int64() == 1 {
			return x
		}
	}
	return e.c.mk("str.from_code", "", SStr, []*Term{b})
}

func (e *Exec) load(st *State, a *Addr) Val {
	if a.ref == nil {
		v, t := e.applySels(a.slice, a.sty, a.sels)
		_ = t
		return v
	}
	t, lo, hi, n := e.locate(a.root, a.sels)
	cs := compsOf(a.root)[lo:hi]
	var v Val
	for _, cp := range cs {
		v = append(v, e.loadComp(st, a.root, cp, a.ref))
	}
	e.typeFacts(v, t)
	if n < len(a.sels) {
		var t2 types.Type
		v, t2 = e.applySels(v, t, a.sels[n:])
		e.typeFacts(v, t2)
	}
	return v
}
func (e *Exec) loadComp(st *State, root types.Type, cp Comp, ref *Term) *Term {
	key := tkey(root) + "#" + cp.path
	return e.c.Select(e.heapArr(st, key, cp), ref)
}
func (e *Exec) store(st *State, a *Addr, v Val) {
	if a.ref == nil {
		e.fail("store to an element of a slice value")
	}
	t, lo, hi, n := e.locate(a.root, a.sels)
	if n < len(a.sels) {
		old := e.load(st, &Addr{ref: a.ref, root: a.root, sels: a.sels[:n]})
		v = e.updSels(old, t, a.sels[n:], v)
	}
	for i, cp := range compsOf(a.root)[lo:hi] {
		e.heapWrite(st, tkey(a.root)+"#"+cp.path, cp, a.ref, v[i])
	}
}

// ---------------------------------------------------------------- path conditions

func (e *Exec) add(st *State, t *Term) {
	if t == e.c.T {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			e.add(st, a)
		}
		return
	}
	for _, p := range st.pc {
		if p == t {
			return
		}
	}
	st.pc = append(st.pc, t)
}

// feasible: may the state with t added be reached? unknown counts as yes.
func (e *Exec) feasible(st *State, t *Term) bool {
	if t == e.c.F {
		return false
	}
	nt := e.c.Not(t)
	for _, p := range st.pc {
		if p == nt || p == e.c.F {
			return false
		}
	}
	if t == e.c.T {
		return true
	}
	for _, p := range st.pc {
		if p == t {
			return true
		}
	}
	if e.noFeas > 0 {
		return true
	}
	return e.s.Check(append(append([]*Term{}, st.pc...), t), 400, false) != "unsat"
}

// entails: cheap proof attempt
func (e *Exec) entails(st *State, t *Term) bool {
	if t == e.c.T {
		return true
	}
	for _, p := range st.pc {
		if p == t || p == e.c.F {
			return true
		}
	}
	if t = e.normal(st, t); t == e.c.T {
		return true
	}
	return e.s.Check(append(append([]*Term{}, st.pc...), e.c.Not(t)), 1500, false) == "unsat"
}

// oblige proves t in st, recording the obligation.
func (e *Exec) oblige(st *State, name, kind string, t *Term) {
	if e.dry > 0 {
		return
	}
	o := &Oblig{Name: name, Kind: kind}
	e.obl = append(e.obl, o)
	goals := []*Term{t}
	if t.op == "and" {
		goals = t.args
	}
	o.Status, o.By = "proved", "simplifier"
	if e.failAt[name] {
		// already failed on another path: do not spend time again
		o.Status = "failed"
		o.Detail = "also fails on a further path"
		return
	}
	for _, g := range goals {
		triv := g == e.c.T
		for _, p := range st.pc {
			if p == g {
				triv = true
			}
		}
		if triv {
			continue
		}
		if g = e.normal(st, g); g == e.c.T {
			continue
		}
		q := append(append([]*Term{}, st.pc...), e.c.Not(g))
		r, by := e.s.CheckBy(q, e.proofMs, true)
		if r != "unsat" {
			o.Status = "failed"
			if r == "unknown" {
				o.Status = "unknown"
			}
			o.Detail = e.curPos + ": cannot show " + e.c.show(g)
			if os.Getenv("GOV_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "FAILED %s (%s)\n  goal: %s\n", name, r, e.c.show(g))
				for _, p := range st.pc {
					fmt.Fprintf(os.Stderr, "  pc: %s\n", e.c.show(p))
				}
			}
			e.failAt[name] = true
			return
		}
		o.By = by
	}
}

// guard: the program is expected not to panic here.
func (e *Exec) guard(st *State, fr *frame, what string, t *Term) {
	if t == e.c.T || fr.spec {
		return
	}
	if e.nopanic {
		e.oblige(st, "no panic: "+what, "nopanic", t)
	}
	e.add(st, t)
}

// ---------------------------------------------------------------- frames

type frame struct {
	fn    *ssa.Function
	spec  bool
	order map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	outs  []Outcome
	cutAt *ssa.BasicBlock
	back  []*Path
	top   bool
}

func rpo(fn *ssa.Function) map[*ssa.BasicBlock]int {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	m := map[*ssa.BasicBlock]int{}
	for i := range post {
		m[post[len(post)-1-i]] = i
	}
	return m
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	loops := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					loops[s] = body
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if body[x] {
						return
					}
					body[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	return loops
}

func (e *Exec) pos(in ssa.Instruction) string {
	p := e.w.prog.Fset.Position(in.Pos())
	if !p.IsValid() {
		return in.Parent().String()
	}
	return fmt.Sprintf("%s (%s:%d)", in.Parent().String(), strings.TrimPrefix(p.Filename, "/repo/"), p.Line)
}

// callFn runs fn from its source.
func (e *Exec) callFn(st *State, fn *ssa.Function, args []any, bind []any, spec bool, top bool) []Outcome {
	if len(fn.Blocks) == 0 {
		e.fail("no body for %s", fn)
	}
	if !spec || top {
		n := 0
		for _, f := range e.stack {
			if f == fn {
				n++
			}
		}
		if n > e.maxRec && !e.w.isSpecFn(fn) {
			e.fail("recursive function %s has no contract", fn)
		}
	}
	e.depth++
	if e.depth > 200 {
		e.fail("call depth")
	}
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1]; e.depth-- }()
	if !e.w.isSpecFn(fn) {
		e.inlined[fn.String()] = true
	}
	fr := &frame{fn: fn, spec: spec, order: rpo(fn), loops: findLoops(fn), top: top}
	p := &Path{st: st.clone(), regs: map[ssa.Value]any{}}
	if len(args) != len(fn.Params) {
		e.fail("arity of %s", fn)
	}
	for i, a := range fn.Params {
		p.regs[a] = args[i]
	}
	for i, a := range fn.FreeVars {
		p.regs[a] = bind[i]
	}
	e.runBlocks(fr, map[*ssa.BasicBlock][]*Path{fn.Blocks[0]: {p}}, nil)
	outs := fr.outs
	// merge outcomes that leave the heap alone and return no references
	if len(outs) > 1 && e.mergeable(fn) {
		if spec && !top && e.w.isSpecFn(fn) && fn.Signature.Results().Len() > 0 {
			// specification functions have no effects
			for i := range outs {
				outs[i].st.heap = st.heap
			}
		}
		outs = e.mergeOuts(st, outs)
	}
	return outs
}

func (e *Exec) mergeable(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	for _, c := range compsOf(r) {
		if c.kind == KRef {
			return false
		}
	}
	return true
}

func sameHeap(a, b map[string]*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// suffix conditions of st beyond the common prefix
func (e *Exec) mergeOuts(base *State, outs []Outcome) []Outcome {
	var res []Outcome
	for _, o := range outs {
		done := false
		for i := range res {
			if sameHeap(res[i].st.heap, o.st.heap) {
				if m, v, ok := e.mergeStates(res[i].st, o.st, res[i].res, o.res); ok {
					res[i] = Outcome{m, v}
					done = true
					break
				}
			}
		}
		if !done {
			res = append(res, o)
		}
	}
	return res
}

func (e *Exec) mergeStates(a, b *State, va, vb Val) (*State, Val, bool) {
	n := 0
	for n < len(a.pc) && n < len(b.pc) && a.pc[n] == b.pc[n] {
		n++
	}
	c := e.c
	ga, gb := c.And(a.pc[n:]...), c.And(b.pc[n:]...)
	// the discriminating guard: prefer the first diverging condition
	g := ga
	if n < len(a.pc) && n < len(b.pc) && a.pc[n] == c.Not(b.pc[n]) {
		g = a.pc[n]
	} else if n >= len(a.pc) || n >= len(b.pc) {
		// one is a prefix of the other: overlapping paths cannot be merged by a guard
		if len(va) > 0 {
			same := true
			for i := range va {
				if va[i] != vb[i] {
					same = false
				}
			}
			if !same {
				g = ga
				if n >= len(a.pc) {
					g = c.Not(gb)
				}
			}
		}
	}
	var v Val
	for i := range va {
		v = append(v, c.Ite(g, va[i], vb[i]))
	}
	st := &State{a.heap, append([]*Term{}, a.pc[:n]...)}
	e.add(st, c.Or(ga, gb))
	return st, v, true
}

func (e *Exec) joinPaths(ps []*Path) []*Path {
	var res []*Path
	for _, p := range ps {
		done := false
		for i, q := range res {
			if !sameHeap(p.st.heap, q.st.heap) {
				continue
			}
			if m := e.joinTwo(q, p); m != nil {
				res[i] = m
				done = true
				break
			}
		}
		if !done {
			res = append(res, p)
		}
	}
	return res
}
func (e *Exec) joinTwo(a, b *Path) *Path {
	var keys []ssa.Value
	var va, vb Val
	regs := map[ssa.Value]any{}
	for k, x := range a.regs {
		y, ok := b.regs[k]
		if !ok {
			continue
		}
		xv, ok1 := x.(Val)
		yv, ok2 := y.(Val)
		if ok1 && ok2 {
			if len(xv) != len(yv) {
				return nil
			}
			same := true
			for i := range xv {
				if xv[i] != yv[i] {
					same = false
				}
			}
			if same {
				regs[k] = x
				continue
			}
			keys = append(keys, k)
			continue
		}
		if !sameAny(x, y) {
			return nil
		}
		regs[k] = x
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].Name() < keys[j].Name() })
	for _, k := range keys {
		va = append(va, a.regs[k].(Val)...)
		vb = append(vb, b.regs[k].(Val)...)
	}
	for i := range va {
		// do not merge different fresh objects or closures: keep the paths apart
		if va[i] != vb[i] && va[i].sort == SInt && e.isObj(va[i]) && e.isObj(vb[i]) {
			return nil
		}
	}
	st, v, ok := e.mergeStates(a.st, b.st, va, vb)
	if !ok {
		return nil
	}
	o := 0
	for _, k := range keys {
		n := len(a.regs[k].(Val))
		regs[k] = v[o : o+n]
		o += n
	}
	return &Path{st, regs}
}
func (e *Exec) isObj(t *Term) bool {
	return t.op == "int" && (t.iv.Cmp(refHi) > 0) || t.op == "uf" && t.typ != ""
}

func sameAny(x, y any) bool {
	switch a := x.(type) {
	case *Addr:
		b, ok := y.(*Addr)
		if !ok || a.ref != b.ref || a.root != b.root || len(a.sels) != len(b.sels) || len(a.slice) != len(b.slice) {
			return false
		}
		for i := range a.sels {
			if a.sels[i] != b.sels[i] {
				return false
			}
		}
		for i := range a.slice {
			if a.slice[i] != b.slice[i] {
				return false
			}
		}
		return true
	case *SliceCell:
		b, ok := y.(*SliceCell)
		return ok && *a == *b
	}
	return x == y
}

// runBlocks drives pending paths in reverse post-order; region limits execution to a loop body.
func (e *Exec) runBlocks(fr *frame, pend map[*ssa.BasicBlock][]*Path, region map[*ssa.BasicBlock]bool) map[*ssa.BasicBlock][]*Path {
	exits := map[*ssa.BasicBlock][]*Path{}
	for len(pend) > 0 {
		var best *ssa.BasicBlock
		for b := range pend {
			if best == nil || fr.order[b] < fr.order[best] {
				best = b
			}
		}
		ps := pend[best]
		delete(pend, best)
		if region != nil && !region[best] {
			exits[best] = append(exits[best], ps...)
			continue
		}
		if len(ps) > 1 {
			ps = e.joinPaths(ps)
		}
		for _, p := range ps {
			if body, ok := fr.loops[best]; ok && best != fr.cutAt {
				ex := e.runLoop(fr, best, body, p)
				for b, xs := range ex {
					if b == fr.cutAt {
						// an inner loop that leaves for the header of the outer one ends its iteration
						fr.back = append(fr.back, xs...)
						continue
					}
					pend[b] = append(pend[b], xs...)
				}
				continue
			}
			e.runBlock(fr, best, 0, p, pend)
		}
	}
	return exits
}

func (e *Exec) goTo(fr *frame, from, to *ssa.BasicBlock, p *Path, pend map[*ssa.BasicBlock][]*Path) {
	// phis
	pi := -1
	for i, q := range to.Preds {
		if q == from {
			pi = i
		}
	}
	var vals []any
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, e.val(p, fr, ph.Edges[pi]))
	}
	for i, ph := range phis {
		p.regs[ph] = vals[i]
	}
	if fr.cutAt == to && from != nil {
		fr.back = append(fr.back, p)
		return
	}
	pend[to] = append(pend[to], p)
}

func (e *Exec) runBlock(fr *frame, b *ssa.BasicBlock, from int, p *Path, pend map[*ssa.BasicBlock][]*Path) {
	for i := from; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		e.steps++
		if in.Pos() != token.NoPos && !fr.spec {
			e.curPos = e.pos(in)
		}
		switch x := in.(type) {
		case *ssa.DebugRef:
			if id, ok := x.Expr.(*ast.Ident); ok && !x.IsAddr && !fr.spec && e.dry == 0 && len(e.wantVar) > 0 && len(e.seenVar) < 200 {
				if v, ok := p.regs[x.X].(Val); ok && e.wantVar[x.X.Type().String()] {
					dup := false
					for _, o := range e.seenVar {
						if o.name == id.Name && sameVal(o.val, v) {
							dup = true
						}
					}
					if !dup {
						e.seenVar = append(e.seenVar, namedVal{id.Name, x.X.Type(), v})
					}
				}
			}
			continue
		case *ssa.Phi:
			continue
		case *ssa.Jump:
			e.goTo(fr, b, b.Succs[0], p, pend)
			return
		case *ssa.If:
			cond := e.term(p, fr, x.Cond)
			cond = e.simplifyBy(p.st, cond)
			if cond == e.c.T {
				e.goTo(fr, b, b.Succs[0], p, pend)
				return
			}
			if cond == e.c.F {
				e.goTo(fr, b, b.Succs[1], p, pend)
				return
			}
			ft := e.feasible(p.st, cond)
			ff := e.feasible(p.st, e.c.Not(cond))
			if ft && ff {
				q := p.clone()
				e.add(p.st, cond)
				e.add(q.st, e.c.Not(cond))
				e.learn(p, cond)
				e.learn(q, e.c.Not(cond))
				e.goTo(fr, b, b.Succs[0], p, pend)
				e.goTo(fr, b, b.Succs[1], q, pend)
			} else if ft {
				e.add(p.st, cond)
				e.learn(p, cond)
				e.goTo(fr, b, b.Succs[0], p, pend)
			} else if ff {
				e.add(p.st, e.c.Not(cond))
				e.learn(p, e.c.Not(cond))
				e.goTo(fr, b, b.Succs[1], p, pend)
			}
			return
		case *ssa.Return:
			var res Val
			for _, r := range x.Results {
				res = append(res, e.flat(p, e.val(p, fr, r))...)
			}
			fr.outs = append(fr.outs, Outcome{p.st, res})
			if len(fr.outs) > 4000 {
				e.fail("too many paths in %s", fr.fn)
			}
			return
		case *ssa.Panic:
			if !fr.spec && e.nopanic {
				e.oblige(p.st, "no panic: explicit panic", "nopanic", e.c.F)
			}
			return
		case *ssa.Call:
			e.curPos = e.pos(in)
			outs := e.call(p, fr, x)
			if len(outs) == 0 {
				return
			}
			for k, o := range outs {
				q := p
				if k < len(outs)-1 {
					q = &Path{regs: make(map[ssa.Value]any, len(p.regs))}
					for a, v := range p.regs {
						q.regs[a] = v
					}
				}
				q.st = o.st
				q.regs[x] = o.any
				if len(outs) == 1 {
					break
				}
				e.runBlock(fr, b, i+1, q, pend)
			}
			if len(outs) > 1 {
				return
			}
		case *ssa.Store:
			a := e.addrOf(p, fr, x.Addr)
			if a == nil {
				return
			}
			v := e.val(p, fr, x.Val)
			if sc, ok := v.(*SliceCell); ok {
				v = e.snap(p, sc)
			}
			e.store(p.st, a, e.flat(p, v))
		case *ssa.MapUpdate:
			m := e.term(p, fr, x.Map)
			mt := x.Map.Type().Underlying().(*types.Map)
			e.guard(p.st, fr, "map write", e.c.Not(e.c.Eq(m, e.c.Int(0))))
			e.mapUpdate(p.st, mt, m, e.mapKey(mt, e.flat(p, e.val(p, fr, x.Key))), e.flat(p, e.val(p, fr, x.Value)))
		case ssa.Value:
			v := e.instr(p, fr, x)
			if v == nil {
				return // infeasible (panicking) path
			}
			p.regs[x] = v
		default:
			e.fail("instruction %T", in)
		}
	}
}

// learn replaces the registers that a decided condition chooses between.
func (e *Exec) learn(p *Path, cond *Term) {
	dec := map[*Term]bool{}
	var note func(t *Term, v bool)
	note = func(t *Term, v bool) {
		dec[t] = v
		if t.op == "not" {
			note(t.args[0], !v)
		}
		if t.op == "and" && v || t.op == "or" && !v {
			for _, a := range t.args {
				note(a, v)
			}
		}
	}
	note(cond, true)
	for i, q := range p.st.pc {
		if q.op != "or" {
			continue
		}
		var rest []*Term
		for _, d := range q.args {
			if v, ok := dec[d]; ok && !v {
				continue
			}
			rest = append(rest, d)
		}
		if len(rest) < len(q.args) {
			n := e.c.Or(rest...)
			if n.op == "and" {
				p.st.pc[i] = n.args[0]
				p.st.pc = append(p.st.pc, n.args[1:]...)
			} else {
				p.st.pc[i] = n
			}
		}
	}
	var pick func(t *Term) *Term
	pick = func(t *Term) *Term {
		for t.op == "ite" {
			v, ok := dec[t.args[0]]
			if !ok {
				return t
			}
			if v {
				t = t.args[1]
			} else {
				t = t.args[2]
			}
		}
		return t
	}
	for r, v := range p.regs {
		w, ok := v.(Val)
		if !ok {
			continue
		}
		for i, t := range w {
			if t.op == "ite" {
				if n := pick(t); n != t {
					o := append(Val{}, w...)
					for k := i; k < len(o); k++ {
						o[k] = pick(o[k])
					}
					p.regs[r] = o
					break
				}
			}
		}
	}
}

func (e *Exec) simplifyBy(st *State, t *Term) *Term {
	n := e.c.Not(t)
	for _, p := range st.pc {
		if p == t {
			return e.c.T
		}
		if p == n {
			return e.c.F
		}
	}
	return t
}

// ---------------------------------------------------------------- operands

func (e *Exec) constVal(x *ssa.Const) Val {
	t := x.Type()
	if x.Value == nil {
		return e.zero(t)
	}
	switch x.Value.Kind() {
	case constant.Bool:
		return Val{e.c.Bool(constant.BoolVal(x.Value))}
	case constant.String:
		return Val{e.c.Str(constant.StringVal(x.Value))}
	case constant.Int, constant.Float:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return Val{e.c.UF("flt_"+x.Value.ExactString(), SReal)}
		}
		n, ok := new(big.Int).SetString(constant.ToInt(x.Value).ExactString(), 10)
		if !ok {
			e.fail("constant %s", x)
		}
		return Val{e.c.Big(n)}
	}
	e.fail("constant %s", x)
	return nil
}

func (e *Exec) fnRef(fn *ssa.Function) int64 {
	if a, ok := e.fnAddr[fn]; ok {
		return a
	}
	a := e.newAddr()
	e.fnAddr[fn] = a
	e.clos[a] = &Closure{fn: fn}
	return a
}

func (e *Exec) val(p *Path, fr *frame, v ssa.Value) any {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return Val{e.c.Int(e.fnRef(x))}
	case *ssa.Global:
		return e.globalAddr(p.st, x)
	case *ssa.Builtin:
		e.fail("builtin value")
	}
	r, ok := p.regs[v]
	if !ok {
		e.fail("register %s of %s not set", v.Name(), fr.fn)
	}
	return r
}
func (e *Exec) snap(p *Path, sc *SliceCell) Val {
	u := sc.typ.Underlying().(*types.Slice)
	if isByte(u.Elem()) {
		s := e.load(p.st, &Addr{ref: sc.ref, root: sc.typ})
		return Val{sc.nil_, e.c.Substr(s[1], sc.off, sc.ln)}
	}
	s := e.load(p.st, &Addr{ref: sc.ref, root: sc.typ})
	return append(Val{sc.nil_, sc.off, sc.ln}, s[3:]...)
}
func (e *Exec) flat(p *Path, v any) Val {
	switch x := v.(type) {
	case Val:
		return x
	case *SliceCell:
		return e.snap(p, x)
	case *Addr:
		if x.ref != nil && len(x.sels) == 0 {
			return Val{x.ref}
		}
		e.fail("interior pointer used as a value")
	}
	e.fail("value %T", v)
	return nil
}
func (e *Exec) term(p *Path, fr *frame, v ssa.Value) *Term {
	x := e.flat(p, e.val(p, fr, v))
	if len(x) != 1 {
		e.fail("scalar expected for %s", v)
	}
	return x[0]
}
func (e *Exec) addrOf(p *Path, fr *frame, v ssa.Value) *Addr {
	x := e.val(p, fr, v)
	switch a := x.(type) {
	case *Addr:
		return a
	case Val:
		ref := a[0]
		el := v.Type().Underlying().(*types.Pointer).Elem()
		nz := e.c.Not(e.c.Eq(ref, e.c.Int(0)))
		e.guard(p.st, fr, "nil dereference", nz)
		if nz == e.c.F {
			if fr.spec {
				return &Addr{ref: ref, root: el}
			}
			return nil
		}
		return &Addr{ref: ref, root: el}
	}
	e.fail("address %T", x)
	return nil
}

// ---------------------------------------------------------------- instructions

func (e *Exec) instr(p *Path, fr *frame, in ssa.Value) any {
	c := e.c
	switch x := in.(type) {
	case *ssa.Alloc:
		a := e.newAddr()
		el := x.Type().Underlying().(*types.Pointer).Elem()
		ref := c.Int(a)
		e.dynOf[a] = x.Type()
		if e.w.isSpecFn(fr.fn) && onlyCaptured(x) {
			if e.specCells == nil {
				e.specCells = map[int64]bool{}
			}
			e.specCells[a] = true
		}
		e.store(p.st, &Addr{ref: ref, root: el}, e.zero(el))
		return Val{ref}
	case *ssa.BinOp:
		return e.binop(p, fr, x)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := e.addrOf(p, fr, x.X)
			if a == nil {
				return nil
			}
			v := e.load(p.st, a)
			if _, ok := x.X.(*ssa.Global); ok {
				for i, cp := range compsOf(x.Type()) {
					if cp.kind == KRef && v[i].sort == SInt {
						c.AddFact(v[i], c.Not(c.mk("=", "", SBool, []*Term{v[i], c.Int(0)})))
						e.add(p.st, c.Not(c.Eq(v[i], c.Int(0))))
					}
				}
			}
			return v
		case token.NOT:
			return Val{c.Not(e.term(p, fr, x.X))}
		case token.SUB:
			t := e.term(p, fr, x.X)
			if t.sort == SReal {
				return Val{c.UF("flt_neg", SReal, t)}
			}
			return Val{e.wrap(c.Sub(c.Int(0), t), x.Type())}
		case token.XOR:
			t := e.term(p, fr, x.X)
			_, hi, _ := intBounds(x.Type().Underlying().(*types.Basic))
			if lo, _, _ := intBounds(x.Type().Underlying().(*types.Basic)); lo.Sign() == 0 {
				return Val{c.Sub(c.Big(hi), t)}
			}
			return Val{c.Sub(c.Int(-1), t)}
		}
		e.fail("unop %s", x.Op)
	case *ssa.FieldAddr:
		base := e.val(p, fr, x.X)
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		if isOpaque(st) {
			if a := e.extFieldOf(p, fr, x, st, base); a != nil {
				return a
			}
			return e.extField(p, fr, x, base)
		}
		switch a := base.(type) {
		case *Addr:
			return &Addr{ref: a.ref, root: a.root, sels: append(append([]sel{}, a.sels...), sel{field: x.Field}), slice: a.slice, sty: a.sty}
		case Val:
			nz := c.Not(c.Eq(a[0], c.Int(0)))
			e.guard(p.st, fr, "nil dereference", nz)
			if nz == c.F && !fr.spec {
				return nil
			}
			return &Addr{ref: a[0], root: st, sels: []sel{{field: x.Field}}}
		}
		e.fail("field address of %T", base)
	case *ssa.Field:
		v := e.flat(p, e.val(p, fr, x.X))
		if isOpaque(x.X.Type()) {
			if r, ok := e.extRead(x.X.Type(), x.Field, v[0]); ok {
				return r
			}
			e.fail("field of external struct %s", x.X.Type())
		}
		a, b := fieldRange(x.X.Type(), x.Field)
		return append(Val{}, v[a:b]...)
	case *ssa.IndexAddr:
		idx := e.term(p, fr, x.Index)
		base := e.val(p, fr, x.X)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Pointer: // array
			n := u.Elem().Underlying().(*types.Array).Len()
			e.guard(p.st, fr, "index out of range", c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Int(n))))
			switch a := base.(type) {
			case *Addr:
				return &Addr{ref: a.ref, root: a.root, sels: append(append([]sel{}, a.sels...), sel{idx: idx}), slice: a.slice, sty: a.sty}
			case Val:
				return &Addr{ref: a[0], root: u.Elem(), sels: []sel{{idx: idx}}}
			}
		case *types.Slice:
			if sc, ok := base.(*SliceCell); ok {
				e.guard(p.st, fr, "index out of range", c.And(c.Le(c.Int(0), idx), c.Lt(idx, sc.ln)))
				return &Addr{ref: sc.ref, root: sc.typ, sels: []sel{{idx: c.Add(sc.off, idx)}}, sty: sc.typ}
			}
			v := base.(Val)
			el, ok := e.sliceElem(p.st, fr, v, u, idx)
			if !ok {
				return nil
			}
			return &Addr{slice: el, sty: u.Elem()}
		}
		e.fail("index address")
	case *ssa.Index:
		idx := e.term(p, fr, x.Index)
		v := e.flat(p, e.val(p, fr, x.X))
		switch u := x.X.Type().Underlying().(type) {
		case *types.Array:
			r, _ := e.applySels(v, x.X.Type(), []sel{{idx: idx}})
			return r
		case *types.Basic:
			_ = u
			e.guard(p.st, fr, "index out of range", c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Len(v[0]))))
			return Val{e.byteAt(v[0], idx)}
		}
		e.fail("index")
	case *ssa.Slice:
		return e.slice(p, fr, x)
	case *ssa.MakeInterface:
		v := e.val(p, fr, x.X)
		return e.makeIface(p, v, x.X.Type())
	case *ssa.ChangeInterface:
		v := e.val(p, fr, x.X)
		if im := e.w.impls(x.X.Type()); len(im) > 0 && e.w.repoIface(x.X.Type()) && !types.Identical(x.X.Type(), x.Type()) {
			// only the types that implement it can be held
			if w, ok := v.(Val); ok && len(w) == 1 && (w[0].op == "var" || w[0].op == "select" || w[0].op == "uf" && w[0].typ == "") {
				or := []*Term{c.Eq(w[0], c.Int(0))}
				for _, d := range im {
					or = append(or, c.Eq(e.dynUF(w[0]), c.Int(e.w.typeID(d))))
				}
				e.add(p.st, c.Or(or...))
			}
		}
		return v
	case *ssa.ChangeType:
		return e.val(p, fr, x.X)
	case *ssa.Convert:
		return e.convert(p, fr, x)
	case *ssa.SliceToArrayPointer:
		v := e.flat(p, e.val(p, fr, x.X))
		at := x.Type().Underlying().(*types.Pointer).Elem()
		n := c.Int(at.Underlying().(*types.Array).Len())
		if !isByteArray(at) {
			e.fail("slice to array")
		}
		e.guard(p.st, fr, "slice to array of another length", c.Le(n, c.Len(v[1])))
		a := e.newAddr()
		e.dynOf[a] = x.Type()
		e.store(p.st, &Addr{ref: c.Int(a), root: at}, Val{c.Substr(v[1], c.Int(0), n)})
		return Val{c.Int(a)}
	case *ssa.Extract:
		v := e.val(p, fr, x.Tuple)
		if tv, ok := v.([]any); ok {
			return tv[x.Index]
		}
		tt := x.Tuple.Type().(*types.Tuple)
		o := 0
		for i := 0; i < x.Index; i++ {
			if tt.At(i).Type() == types.Typ[types.Invalid] {
				continue // a blank in a range statement
			}
			o += len(compsOf(tt.At(i).Type()))
		}
		part := append(Val{}, v.(Val)[o:o+len(compsOf(tt.At(x.Index).Type()))]...)
		if call, ok := x.Tuple.(*ssa.Call); ok && isByteSlice(x.Type()) && overwritten(x, map[ssa.Value]bool{}) {
			if fn := call.Common().StaticCallee(); fn != nil && freshBytes[modelName(fn)] {
				return e.bytesCell(p, part, x.Type())
			}
		}
		return part
	case *ssa.MakeClosure:
		a := e.newAddr()
		var b []any
		for _, bv := range x.Bindings {
			b = append(b, e.val(p, fr, bv))
		}
		e.clos[a] = &Closure{fn: x.Fn.(*ssa.Function), bind: b}
		return Val{c.Int(a)}
	case *ssa.MakeMap:
		a := e.newAddr()
		mt := x.Type().Underlying().(*types.Map)
		dk, dc, ks := e.mapKeys(mt)
		e.heapWrite(p.st, dk, dc, c.Int(a), c.ConstArr(ks, c.F))
		e.heapWrite(p.st, dk+".n", Comp{sort: SInt, kind: KInt, lo: big.NewInt(0), hi: big40}, c.Int(a), c.Int(0))
		return Val{c.Int(a)}
	case *ssa.MakeSlice:
		n := e.term(p, fr, x.Len)
		e.guard(p.st, fr, "make with a negative length", c.Le(c.Int(0), n))
		a := e.newAddr()
		t := x.Type()
		z := e.zero(t)
		u := t.Underlying().(*types.Slice)
		if isByte(u.Elem()) {
			s := c.UF("zeros", SStr, n)
			if n.op == "int" && n.iv.IsInt64() && n.iv.Int64() < 10000 {
				s = c.Str(strings.Repeat("\x00", int(n.iv.Int64())))
			} else {
				c.AddFact(s, c.Imp(c.Le(c.Int(0), n), c.Eq(c.Len(s), n)))
			}
			z = Val{c.F, s}
		} else {
			el := e.zero(u.Elem())
			z = Val{c.F, c.Int(0), n}
			for _, x := range el {
				z = append(z, c.ConstArr(SInt, x))
			}
		}
		e.store(p.st, &Addr{ref: c.Int(a), root: t}, z)
		sc := &SliceCell{ref: c.Int(a), typ: t, off: c.Int(0), ln: n, nil_: c.F}
		e.made = append(e.made, madeSlice{sc, x})
		return sc
	case *ssa.Lookup:
		return e.lookup(p, fr, x)
	case *ssa.TypeAssert:
		return e.typeAssert(p, fr, x)
	case *ssa.Range:
		v := e.flat(p, e.val(p, fr, x.X))
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			mi := &MapIter{m: v[0], mt: mt, id: x.Name(), vis: c.Int(e.newAddr()), dom: e.mapDom(p.st, mt, v[0])}
			vt := mi.visType()
			dk, dc, ks := e.mapKeys(vt)
			e.heapWrite(p.st, dk, dc, mi.vis, c.ConstArr(ks, c.F))
			e.heapWrite(p.st, dk+".n", Comp{sort: SInt, kind: KInt, lo: big.NewInt(0), hi: big40}, mi.vis, c.Int(0))
			return mi
		}
		return &StrIter{v[0]}
	case *ssa.Next:
		it := e.val(p, fr, x.Iter)
		if mi, ok := it.(*MapIter); ok {
			ok := c.Fresh("mapok", SBool)
			k := e.freshVal("mapk", mi.mt.Key(), big.NewInt(e.next))
			dom := e.mapDom(p.st, mi.mt, mi.m)
			some := c.Not(c.Eq(mi.m, c.Int(0)))
			kt := e.mapKey(mi.mt, k)
			if len(k) == 1 && k[0] == kt {
				if o := onlyKey(mi.dom); o != nil && o.sort == kt.sort {
					k, kt = Val{o}, o // the map holds that key and no other
				}
			}
			v := e.mapVal(p.st, mi.mt, mi.m, kt)
			// every key is met once: one that is met has not been, and at the end all have been
			vt := mi.visType()
			vis := e.mapDom(p.st, vt, mi.vis)
			e.add(p.st, c.Imp(ok, c.And(some, c.Select(dom, kt), c.Not(c.Select(vis, kt)))))
			q := c.mk("bvar", "mk"+string(kt.sort), kt.sort, nil)
			rest := mi.dom
			for rest.op == "store" {
				rest = rest.args[0]
			}
			known := rest.op == "constarr" && rest.args[0].op == "false" // then each key is told apart below
			e.add(p.st, c.Or(c.Bool(known), ok, c.Not(some), c.Quant("forall", q, c.Imp(c.And(c.Select(dom, q), c.Select(mi.dom, q)), c.Select(vis, q)))))
			for d := mi.dom; d.op == "store"; d = d.args[0] {
				e.add(p.st, c.Or(ok, c.Not(some), c.Not(c.And(c.Select(dom, d.args[1]), c.Select(mi.dom, d.args[1]))), c.Select(vis, d.args[1])))
			}
			e.mapUpdate(p.st, vt, mi.vis, kt, Val{c.T})
			out := Val{ok}
			tt := x.Type().(*types.Tuple)
			if tt.At(1).Type() != types.Typ[types.Invalid] {
				out = append(out, k...)
			}
			if tt.At(2).Type() != types.Typ[types.Invalid] {
				out = append(out, v...)
			}
			return out
		}
		e.fail("range over a string")
	}
	e.fail("instruction %T %s", in, in)
	return nil
}

func (e *Exec) sliceElem(st *State, fr *frame, v Val, u *types.Slice, idx *Term) (Val, bool) {
	c := e.c
	if isByte(u.Elem()) {
		g := c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Len(v[1])))
		e.guard(st, fr, "index out of range", g)
		if g == c.F && !fr.spec {
			return nil, false
		}
		return Val{e.byteAt(v[1], idx)}, true
	}
	g := c.And(c.Le(c.Int(0), idx), c.Lt(idx, v[2]))
	e.guard(st, fr, "index out of range", g)
	if g == c.F && !fr.spec {
		return nil, false
	}
	var el Val
	for _, a := range v[3:] {
		el = append(el, c.Select(a, c.Add(v[1], idx)))
	}
	e.typeFacts(el, u.Elem())
	return el, true
}

func (e *Exec) wrap(t *Term, ty types.Type) *Term {
	b, ok := ty.Underlying().(*types.Basic)
	if !ok {
		return t
	}
	lo, hi, ok := intBounds(b)
	if !ok {
		return t
	}
	c := e.c
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	size := new(big.Int).Add(new(big.Int).Sub(hi, lo), one)
	// one wrap suffices when the value is within one size of the range
	in := c.And(c.Le(c.Big(lo), t), c.Le(t, c.Big(hi)))
	var r *Term
	if t.lo != nil && t.hi != nil && new(big.Int).Add(t.lo, size).Cmp(lo) >= 0 && new(big.Int).Sub(t.hi, size).Cmp(hi) <= 0 {
		r = c.Ite(c.Lt(t, c.Big(lo)), c.Add(t, c.Big(size)), c.Ite(c.Gt(t, c.Big(hi)), c.Sub(t, c.Big(size)), t))
	} else {
		m := c.Mod(c.Sub(t, c.Big(lo)), c.Big(size))
		r = c.Ite(in, t, c.Add(m, c.Big(lo)))
	}
	if r.op == "ite" {
		r.lo, r.hi = lo, hi
	}
	return r
}

func (e *Exec) binop(p *Path, fr *frame, x *ssa.BinOp) any {
	c := e.c
	xa, xb := e.val(p, fr, x.X), e.val(p, fr, x.Y)
	a, b := e.flat(p, xa), e.flat(p, xb)
	t := x.X.Type()
	switch x.Op {
	case token.EQL, token.NEQ:
		r := e.eqVals(a, b, t, x.Y)
		if x.Op == token.NEQ {
			r = c.Not(r)
		}
		return Val{r}
	}
	A, B := a[0], b[0]
	if A.sort == SStr {
		switch x.Op {
		case token.ADD:
			return Val{c.Cat(A, B)}
		case token.LSS:
			return Val{c.S("str.<", SBool, A, B)}
		case token.LEQ:
			return Val{c.S("str.<=", SBool, A, B)}
		case token.GTR:
			return Val{c.S("str.<", SBool, B, A)}
		case token.GEQ:
			return Val{c.S("str.<=", SBool, B, A)}
		}
	}
	if A.sort == SReal {
		n := map[token.Token]string{token.ADD: "flt_add", token.SUB: "flt_sub", token.MUL: "flt_mul", token.QUO: "flt_quo"}[x.Op]
		if n != "" {
			return Val{c.UF(n, SReal, A, B)}
		}
		n = map[token.Token]string{token.LSS: "flt_lt", token.LEQ: "flt_le", token.GTR: "flt_gt", token.GEQ: "flt_ge"}[x.Op]
		if n != "" {
			return Val{c.UF(n, SBool, A, B)}
		}
		e.fail("float operation %s", x.Op)
	}
	switch x.Op {
	case token.LSS:
		return Val{c.Lt(A, B)}
	case token.LEQ:
		return Val{c.Le(A, B)}
	case token.GTR:
		return Val{c.Gt(A, B)}
	case token.GEQ:
		return Val{c.Ge(A, B)}
	case token.ADD:
		return Val{e.wrap(c.Add(A, B), x.Type())}
	case token.SUB:
		return Val{e.wrap(c.Sub(A, B), x.Type())}
	case token.MUL:
		return Val{e.wrap(c.Mul(A, B), x.Type())}
	case token.QUO, token.REM:
		nz := c.Not(c.Eq(B, c.Int(0)))
		e.guard(p.st, fr, "division by zero", nz)
		lo, _, _ := intBounds(x.Type().Underlying().(*types.Basic))
		if A.op == "int" && B.op == "int" && B.iv.Sign() != 0 {
			if x.Op == token.QUO {
				return Val{c.Big(new(big.Int).Quo(A.iv, B.iv))}
			}
			return Val{c.Big(new(big.Int).Rem(A.iv, B.iv))}
		}
		if lo.Sign() != 0 && !(c.nonneg(A) && c.nonneg(B)) {
			// truncated division
			ab := c.Ite(c.Lt(A, c.Int(0)), c.Sub(c.Int(0), A), A)
			bb := c.Ite(c.Lt(B, c.Int(0)), c.Sub(c.Int(0), B), B)
			q := c.Div(ab, bb)
			neg := c.Not(c.Eq(c.Lt(A, c.Int(0)), c.Lt(B, c.Int(0))))
			q = c.Ite(neg, c.Sub(c.Int(0), q), q)
			if x.Op == token.QUO {
				return Val{q}
			}
			return Val{c.Sub(A, c.Mul(q, B))}
		}
		if x.Op == token.QUO {
			return Val{c.Div(A, B)}
		}
		return Val{c.Mod(A, B)}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if A.sort == SBool {
			if x.Op == token.AND {
				return Val{c.And(A, B)}
			}
			if x.Op == token.OR {
				return Val{c.Or(A, B)}
			}
		}
		return Val{e.bitop(x.Op, A, B, x.Type())}
	case token.SHL, token.SHR:
		if B.op == "int" && B.iv.IsInt64() && B.iv.Int64() < 64 {
			k := c.Big(pow2(uint(B.iv.Int64())))
			if x.Op == token.SHL {
				return Val{e.wrap(c.Mul(A, k), x.Type())}
			}
			return Val{c.Div(A, k)}
		}
	}
	e.fail("operator %s", x.Op)
	return nil
}

func (e *Exec) bitop(op token.Token, A, B *Term, t types.Type) *Term {
	c := e.c
	if A.op == "ite" {
		return c.Ite(A.args[0], e.bitop(op, A.args[1], B, t), e.bitop(op, A.args[2], B, t))
	}
	if B.op == "ite" {
		return c.Ite(B.args[0], e.bitop(op, A, B.args[1], t), e.bitop(op, A, B.args[2], t))
	}
	if A.op == "int" && B.op == "int" && A.iv.Sign() >= 0 && B.iv.Sign() >= 0 {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(A.iv, B.iv)
		case token.OR:
			r.Or(A.iv, B.iv)
		case token.XOR:
			r.Xor(A.iv, B.iv)
		case token.AND_NOT:
			r.AndNot(A.iv, B.iv)
		}
		return c.Big(r)
	}
	if A.op == "int" && A.iv.Sign() == 0 && (op == token.OR || op == token.XOR) {
		return B
	}
	if B.op == "int" && B.iv.Sign() == 0 && (op == token.OR || op == token.XOR) {
		return A
	}
	if A.id > B.id && op != token.AND_NOT {
		A, B = B, A
	}
	r := c.UF("bit_"+map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.AND_NOT: "andnot"}[op], SInt, A, B)
	lo, hi, _ := intBounds(t.Underlying().(*types.Basic))
	if r.lo == nil {
		r.lo, r.hi = lo, hi
	}
	if c.nonneg(A) && c.nonneg(B) && !r.bound {
		switch op {
		case token.AND:
			c.AddFact(r, c.And(c.Le(r, A), c.Le(r, B)))
			if B == A {
				return A
			}
			// x & (x-1) == 0 iff x is zero or a power of two
			if c.Add(A, c.Int(1)) == B || c.Add(B, c.Int(1)) == A {
				x := A
				if c.Add(A, c.Int(1)) == B {
					x = B
				}
				c.AddFact(r, c.Eq(c.Eq(r, c.Int(0)), c.Or(c.Eq(x, c.Int(0)), c.UF("ispow2", SBool, x))))
			}
		case token.OR:
			c.AddFact(r, c.And(c.Le(A, r), c.Le(B, r)))
		}
	}
	return r
}

func (e *Exec) eqVals(a, b Val, t types.Type, y ssa.Value) *Term {
	c := e.c
	switch t.Underlying().(type) {
	case *types.Slice:
		// only comparison with nil
		if k, ok := y.(*ssa.Const); ok && k.Value == nil {
			return a[0]
		}
		return b[0]
	}
	var es []*Term
	for i := range a {
		es = append(es, c.Eq(a[i], b[i]))
	}
	return c.And(es...)
}

func (e *Exec) slice(p *Path, fr *frame, x *ssa.Slice) any {
	c := e.c
	base := e.val(p, fr, x.X)
	var lo, hi *Term = c.Int(0), nil
	if x.Low != nil {
		lo = e.term(p, fr, x.Low)
	}
	if x.High != nil {
		hi = e.term(p, fr, x.High)
	}
	chk := func(n *Term) bool {
		if hi == nil {
			hi = n
		}
		g := c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n))
		e.guard(p.st, fr, "slice bounds out of range", g)
		return !(g == c.F && !fr.spec)
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		var a *Addr
		switch b := base.(type) {
		case *Addr:
			a = b
		case Val:
			a = &Addr{ref: b[0], root: u.Elem()}
		}
		v := e.load(p.st, a)
		n := c.Int(at.Len())
		if !chk(n) {
			return nil
		}
		if isByte(at.Elem()) {
			if lo == c.Int(0) && hi == n {
				return Val{c.F, v[0]}
			}
			return Val{c.F, c.Substr(v[0], lo, c.Sub(hi, lo))}
		}
		return append(Val{c.F, lo, c.Sub(hi, lo)}, v...)
	case *types.Basic:
		v := base.(Val)
		if !chk(c.Len(v[0])) {
			return nil
		}
		return Val{c.Substr(v[0], lo, c.Sub(hi, lo))}
	case *types.Slice:
		if sc, ok := base.(*SliceCell); ok {
			if !chk(sc.ln) {
				return nil
			}
			return &SliceCell{ref: sc.ref, typ: sc.typ, off: c.Add(sc.off, lo), ln: c.Sub(hi, lo), nil_: c.F}
		}
		v := base.(Val)
		if isByte(u.Elem()) {
			if !chk(c.Len(v[1])) {
				return nil
			}
			return Val{v[0], c.Substr(v[1], lo, c.Sub(hi, lo))}
		}
		if !chk(v[2]) {
			return nil
		}
		l := c.Sub(hi, lo)
		return append(Val{v[0], c.Add(v[1], lo), l}, v[3:]...)
	}
	e.fail("slice of %s", x.X.Type())
	return nil
}

func (e *Exec) makeIface(p *Path, v any, t types.Type) any {
	switch t.Underlying().(type) {
	case *types.Pointer:
		return Val{e.flat(p, v)[0]}
	case *types.Interface:
		return v
	}
	return Val{e.box(e.flat(p, v), t)}
}

func (e *Exec) box(v Val, t types.Type) *Term {
	r := e.c.UF("box_"+tkey(t), SInt, v...)
	r.typ = tkey(t)
	if r.hi == nil {
		r.lo, r.hi = new(big.Int).Neg(pow2(60)), big.NewInt(-1)
	}
	if !r.bound {
		for i, x := range v {
			e.c.AddFact(r, e.c.Eq(e.c.UF(fmt.Sprintf("unbox_%s_%d", tkey(t), i), x.sort, r), x))
		}
		e.c.AddFact(r, e.c.Eq(e.dynUF(r), e.c.Int(e.w.typeID(t))))
	}
	return r
}
func (e *Exec) unbox(r *Term, t types.Type) Val {
	if r.op == "uf" && r.typ == tkey(t) && strings.HasPrefix(r.name, "box_") {
		return append(Val{}, r.args...)
	}
	var out Val
	for i, cp := range compsOf(t) {
		x := e.c.UF(fmt.Sprintf("unbox_%s_%d", tkey(t), i), cp.sort, r)
		e.boundComp(x, cp, refHi)
		out = append(out, x)
	}
	e.typeFacts(out, t)
	return out
}
func (e *Exec) dynUF(r *Term) *Term { return e.c.UF("dyn", SInt, r) }

// typeIs gives the condition that interface value r holds dynamic type t (r of static type it).
func (e *Exec) typeIs(r *Term, t types.Type, it types.Type) *Term {
	c := e.c
	if r.op == "ite" {
		return c.Ite(r.args[0], e.typeIs(r.args[1], t, it), e.typeIs(r.args[2], t, it))
	}
	if r.op == "int" {
		if d, ok := e.dynOf[r.iv.Int64()]; ok && r.iv.IsInt64() {
			return c.Bool(types.Identical(d, t))
		}
		return c.F
	}
	if r.op == "uf" && r.typ != "" {
		return c.Bool(r.typ == tkey(t))
	}
	nz := c.Not(c.Eq(r, c.Int(0)))
	if im := e.w.impls(it); len(im) == 1 && types.Identical(im[0], t) {
		return nz
	}
	return c.And(nz, c.Eq(e.dynUF(r), c.Int(e.w.typeID(t))))
}

func (e *Exec) typeAssert(p *Path, fr *frame, x *ssa.TypeAssert) any {
	c := e.c
	v := e.flat(p, e.val(p, fr, x.X))
	r := v[0]
	t := x.AssertedType
	if _, ok := t.Underlying().(*types.Interface); ok {
		var ok *Term = c.F
		im := e.w.impls(t)
		if len(im) == 0 || !e.w.repoIface(x.X.Type()) && len(e.w.impls(x.X.Type())) == 0 && !emptyIface(x.X.Type()) {
			ok = c.UF("implements_"+tkey(t), SBool, r)
		}
		for _, d := range im {
			ok = c.Or(ok, e.typeIs(r, d, x.X.Type()))
		}
		if x.CommaOk {
			return append(Val{c.Ite(ok, r, c.Int(0))}, ok)
		}
		e.guard(p.st, fr, "type assertion", ok)
		return Val{r}
	}
	ok := e.typeIs(r, t, x.X.Type())
	var u Val
	if _, isP := t.Underlying().(*types.Pointer); isP {
		u = Val{r}
	} else {
		u = e.unbox(r, t)
	}
	if x.CommaOk {
		z := e.zero(t)
		var o Val
		for i := range u {
			o = append(o, c.Ite(ok, u[i], z[i]))
		}
		return append(o, ok)
	}
	e.guard(p.st, fr, "type assertion", ok)
	if ok == c.F && !fr.spec {
		return nil
	}
	return u
}
func emptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

func (e *Exec) convert(p *Path, fr *frame, x *ssa.Convert) any {
	c := e.c
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	v := e.flat(p, e.val(p, fr, x.X))
	fb, ok1 := from.(*types.Basic)
	tb, ok2 := to.(*types.Basic)
	switch {
	case ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		return Val{e.wrap(v[0], x.Type())}
	case ok1 && fb.Info()&types.IsString != 0 && isByteSlice(x.Type()):
		return Val{c.F, v[0]}
	case ok2 && tb.Info()&types.IsString != 0 && isByteSlice(x.X.Type()):
		return Val{v[1]}
	case ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		if v[0].hi != nil && v[0].hi.Cmp(big.NewInt(127)) <= 0 {
			return Val{e.byteStr(v[0])}
		}
		return Val{c.UF("runestr", SStr, v[0])}
	case ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
		return Val{c.UF("flt_of_int", SReal, v[0])}
	case ok1 && ok2 && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
		r := c.UF("int_of_flt_"+tb.Name(), SInt, v[0])
		lo, hi, _ := intBounds(tb)
		if r.lo == nil {
			r.lo, r.hi = lo, hi
		}
		return Val{r}
	case ok1 && ok2 && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		if tb.Kind() == types.Float32 && fb.Kind() != types.Float32 {
			return Val{c.UF("flt32", SReal, v[0])}
		}
		return v
	case ok1 && ok2 && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return v
	}
	e.fail("conversion %s to %s", x.X.Type(), x.Type())
	return nil
}

// ---------------------------------------------------------------- maps

func (e *Exec) mapKeys(mt *types.Map) (string, Comp, Sort) {
	kc := compsOf(mt.Key())
	if len(kc) != 1 {
		e.fail("map key %s", mt.Key())
	}
	ks := kc[0].sort
	return "map:" + tkey(mt) + "#dom", Comp{sort: arrK(ks, SBool), kind: KBool}, ks
}
func (e *Exec) mapKey(mt *types.Map, v Val) *Term { return v[0] }
func (e *Exec) mapVal(st *State, mt *types.Map, m, k *Term) Val {
	var out Val
	_, _, ks := e.mapKeys(mt)
	for _, cp := range compsOf(mt.Elem()) {
		d := cp
		d.sort = arrK(ks, cp.sort)
		a := e.heapArr(st, "map:"+tkey(mt)+"#v"+cp.path, d)
		out = append(out, e.c.Select(e.c.Select(a, m), k))
	}
	e.typeFacts(out, mt.Elem())
	return out
}

// onlyKey returns the key of a map known to hold one key only.
func onlyKey(dom *Term) *Term {
	if dom.op == "store" && dom.args[2].op == "true" && dom.args[0].op == "constarr" && dom.args[0].args[0].op == "false" {
		return dom.args[1]
	}
	return nil
}

func (e *Exec) mapDom(st *State, mt *types.Map, m *Term) *Term {
	dk, dc, _ := e.mapKeys(mt)
	return e.c.Select(e.heapArr(st, dk, dc), m)
}
func (e *Exec) lookup(p *Path, fr *frame, x *ssa.Lookup) any {
	c := e.c
	if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
		v := e.flat(p, e.val(p, fr, x.X))
		idx := e.term(p, fr, x.Index)
		g := c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Len(v[0])))
		e.guard(p.st, fr, "index out of range", g)
		return Val{e.byteAt(v[0], idx)}
	}
	mt := x.X.Type().Underlying().(*types.Map)
	m := e.term(p, fr, x.X)
	k := e.mapKey(mt, e.flat(p, e.val(p, fr, x.Index)))
	has := c.And(c.Not(c.Eq(m, c.Int(0))), c.Select(e.mapDom(p.st, mt, m), k))
	v := e.mapVal(p.st, mt, m, k)
	if !has.bound {
		dk, _, _ := e.mapKeys(mt)
		n := c.Select(e.heapArr(p.st, dk+".n", Comp{sort: SInt, kind: KInt, lo: big.NewInt(0), hi: big40}), m)
		e.add(p.st, c.Imp(has, c.Le(c.Int(1), n)))
	}
	if e.w.isKeys(x.X.Type()) {
		v = Val{has} // of a key, whether it has been gone through
	}
	z := e.zero(mt.Elem())
	var out Val
	for i := range v {
		out = append(out, c.Ite(has, v[i], z[i]))
	}
	e.typeFacts(out, mt.Elem())
	if x.CommaOk {
		return append(out, has)
	}
	return out
}
func (e *Exec) mapUpdate(st *State, mt *types.Map, m, k *Term, v Val) {
	c := e.c
	dk, dc, ks := e.mapKeys(mt)
	dom := e.mapDom(st, mt, m)
	nc := Comp{sort: SInt, kind: KInt, lo: big.NewInt(0), hi: big40}
	n := c.Select(e.heapArr(st, dk+".n", nc), m)
	had := c.Select(dom, k)
	e.heapWrite(st, dk+".n", nc, m, c.Ite(had, n, c.Add(n, c.Int(1))))
	e.heapWrite(st, dk, dc, m, c.Store(dom, k, c.T))
	for i, cp := range compsOf(mt.Elem()) {
		d := cp
		d.sort = arrK(ks, cp.sort)
		key := "map:" + tkey(mt) + "#v" + cp.path
		a := c.Select(e.heapArr(st, key, d), m)
		e.heapWrite(st, key, d, m, c.Store(a, k, v[i]))
	}
}
func (e *Exec) mapDelete(st *State, mt *types.Map, m, k *Term) {
	c := e.c
	dk, dc, _ := e.mapKeys(mt)
	dom := e.mapDom(st, mt, m)
	nc := Comp{sort: SInt, kind: KInt, lo: big.NewInt(0), hi: big40}
	n := c.Select(e.heapArr(st, dk+".n", nc), m)
	had := c.Select(dom, k)
	e.heapWrite(st, dk+".n", nc, m, c.Ite(had, c.Sub(n, c.Int(1)), n))
	e.heapWrite(st, dk, dc, m, c.Store(dom, k, c.F))
}

// onlyCaptured: a variable whose address goes to closures only
func onlyCaptured(x *ssa.Alloc) bool {
	for _, r := range *x.Referrers() {
		switch u := r.(type) {
		case *ssa.Store:
			if u.Addr != x || u.Val == x {
				return false
			}
		case *ssa.UnOp, *ssa.MakeClosure, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// withoutSpecCells drops what specifications wrote to variables of their own
func (e *Exec) withoutSpecCells(t *Term) *Term {
	if t.op != "store" || len(e.specCells) == 0 {
		return t
	}
	b := e.withoutSpecCells(t.args[0])
	if t.args[1].op == "int" && t.args[1].iv.IsInt64() && e.specCells[t.args[1].iv.Int64()] {
		return b
	}
	if b == t.args[0] {
		return t
	}
	return e.c.mk("store", "", t.sort, []*Term{b, t.args[1], t.args[2]})
}
