package main

// Loops are cut at their header. Candidate invariants come from templates (the header test, the
// number of completed iterations, the templates of the contract in force); those that hold on entry
// and are kept by every iteration are retained (Houdini) and assumed for the arbitrary iteration.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type cand struct {
	name string
	ph   *ssa.Phi // for ph = init + step*iter
	step int64
	bnd  bool // ph lies between 0 and 2^40
	ln   bool // the length of ph is init + iter
	f    func(regs map[ssa.Value]any, st *State, iter *Term) *Term
	live bool
}

const maxUnroll = 16

// mapHeader: the loop goes through a map
func (e *Exec) mapHeader(h *ssa.BasicBlock) bool {
	for _, in := range h.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

// steadyHeader: the loop goes on for an index below a length
func (e *Exec) steadyHeader(h *ssa.BasicBlock) bool {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	b, ok := iff.Cond.(*ssa.BinOp)
	return ok && (b.Op == token.LSS || b.Op == token.GTR || b.Op == token.LEQ || b.Op == token.GEQ)
}

func (e *Exec) runLoop(fr *frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, entry *Path) map[*ssa.BasicBlock][]*Path {
	c := e.c
	e.loops++
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			phis = append(phis, ph)
		} else {
			break
		}
	}
	init := map[ssa.Value]any{}
	for _, ph := range phis {
		init[ph] = entry.regs[ph]
	}
	saveCut, saveBack := fr.cutAt, fr.back
	defer func() { fr.cutAt, fr.back = saveCut, saveBack }()

	type havoc struct {
		full  bool
		addrs map[int]*Term
	}
	written := map[string]*havoc{}

	L := e.next
	hdrHi := big.NewInt(L + regionW - 1)

	type keep struct {
		obl int
	}
	var cells []*Term
	var cands []*cand
	mkHeader := func() (*Path, *Term) {
		cells = nil
		e.next = L + regionW
		p := entry.clone()
		iter := c.FreshB("iter", big.NewInt(0), big40)
		var ks []string
		for k := range written {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			hv := written[k]
			cp, ok := e.heapKeyT[k]
			if !ok {
				if t, ok2 := p.st.heap[k]; ok2 {
					cp = Comp{sort: t.sort.elem(), kind: KBool}
				}
			}
			old := e.heapArr(p.st, k, cp)
			if hv.full {
				n := c.Fresh("H."+k, old.sort)
				if cp.kind == KRef {
					n.eLo, n.eHi, n.rh = refLo(cp.typ), hdrHi, true
				} else if cp.kind == KInt {
					n.eLo, n.eHi = cp.lo, cp.hi
				}
				p.st.heap[k] = n
			} else {
				t := old
				var ids []int
				for id := range hv.addrs {
					ids = append(ids, id)
				}
				sort.Ints(ids)
				for _, id := range ids {
					v := c.Fresh("h."+k, cp.sort)
					if cp.kind == KRef {
						setBounds(v, cp, refLo(cp.typ), hdrHi)
					} else {
						setBounds(v, cp, nil, nil)
					}
					cells = append(cells, v)
					t = c.Store(t, hv.addrs[id], v)
				}
				p.st.heap[k] = t
			}
		}
		for _, ph := range phis {
			switch init[ph].(type) {
			case Val:
				v := e.freshVal(ph.Comment+"_"+ph.Name(), ph.Type(), hdrHi)
				for _, cd := range cands {
					if cd.bnd && cd.live && cd.ph == ph && len(v) == 1 {
						v = Val{c.FreshB(ph.Comment+"_"+ph.Name(), big.NewInt(0), big40)}
					}
				}
				p.regs[ph] = v
			default:
				// keep (must not change)
			}
		}
		return p, iter
	}
	runBody := func(p *Path) (map[*ssa.BasicBlock][]*Path, []*Path) {
		fr.cutAt = h
		fr.back = nil
		ex := map[*ssa.BasicBlock][]*Path{}
		pend := map[*ssa.BasicBlock][]*Path{}
		e.runBlock(fr, h, 0, p, pend)
		if len(pend) > 0 {
			x := e.runBlocks(fr, pend, body)
			for b, q := range x {
				ex[b] = append(ex[b], q...)
			}
		}
		return ex, fr.back
	}
	// a loop whose number of iterations is known here (over a list written out, say) is run as it is
	outsMark := len(fr.outs)
	steady := e.steadyHeader(h)
	unrolled := func() (map[*ssa.BasicBlock][]*Path, bool) {
		ex := map[*ssa.BasicBlock][]*Path{}
		ps := []*Path{entry.clone()}
		forked := false
		for n := 0; ; n++ {
			var backs []*Path
			for _, p := range ps {
				fr.cutAt = h
				fr.back = nil
				pend := map[*ssa.BasicBlock][]*Path{}
				e.runBlock(fr, h, 0, p, pend)
				in, out := 0, 0
				for b, qs := range pend {
					if body[b] {
						in += len(qs)
					} else {
						out += len(qs)
					}
				}
				if in > 0 && n >= maxUnroll || in > 0 && out > 0 && (n > 0 || steady) {
					return nil, false
				}
				forked = forked || in > 0 && out > 0
				if len(pend) > 0 {
					for b, q := range e.runBlocks(fr, pend, body) {
						ex[b] = append(ex[b], q...)
					}
				}
				backs = append(backs, fr.back...)
			}
			if forked && len(backs) > 0 {
				return nil, false
			}
			if len(backs) == 0 {
				return ex, true
			}
			if ps = e.joinPaths(backs); len(ps) > 8 {
				return nil, false
			}
		}
	}
	if steady || e.mapHeader(h) {
		e.dry++
		saveW, saveNext := e.writes, e.next
		e.writes = nil
		_, ok := unrolled()
		fr.outs = fr.outs[:outsMark]
		e.writes, e.next = saveW, saveNext
		e.dry--
		if ok {
			ex, _ := unrolled()
			return ex
		}
	}
	// discover what the loop writes
	e.dry++
	for round := 0; round < 6; round++ {
		p, _ := mkHeader()
		var ws []writeRec
		save := e.writes
		e.writes = &ws
		fnOuts := fr.outs
		_, _ = runBody(p)
		fr.outs = fnOuts[:outsMark]
		e.writes = save
		changed := false
		for _, w := range ws {
			if w.addr.lo != nil && w.addr.lo.Cmp(big.NewInt(L+regionW)) >= 0 {
				continue // an object made in this very iteration
			}
			hv := written[w.key]
			if hv == nil {
				hv = &havoc{addrs: map[int]*Term{}}
				written[w.key] = hv
				changed = true
			}
			if hv.full {
				continue
			}
			if w.addr.op == "int" {
				if hv.addrs[w.addr.id] == nil {
					hv.addrs[w.addr.id] = w.addr
					changed = true
				}
			} else if e.fixedIn(w.addr, entry) {
				if hv.addrs[w.addr.id] == nil {
					hv.addrs[w.addr.id] = w.addr
					changed = true
				}
			} else {
				hv.full = true
				changed = true
			}
		}
		if save != nil {
			*save = append(*save, ws...)
		}
		if !changed {
			break
		}
		if round == 5 {
			e.fail("loop frame does not settle")
		}
	}
	// candidates
	cands = e.candidates(fr, h, body, phis, init, entry)
	e.ncand += len(cands)
	zero := c.Int(0)
	for _, cd := range cands {
		t := cd.f(init, entry.st, zero)
		cd.live = t != nil && e.entails(entry.st, t)
		if e.w.debug && !cd.live && t != nil && strings.HasPrefix(cd.name, "template") {
			fmt.Printf("    not at entry %s: %s\n", cd.name, c.smt(t, nil, 0))
			for _, q := range entry.st.pc {
				if strings.Contains(cd.name, os.Getenv("GOV_PC")) && os.Getenv("GOV_PC") != "" {
					fmt.Printf("         pc %s\n", c.show(q))
				}
			}
		}
	}
	houdini := func() (*Path, *Term, []*Path) {
		var p *Path
		var iter *Term
		var backs []*Path
		for round := 0; round < 30; round++ {
			p, iter = mkHeader()
			hdr0 := len(p.st.pc)
			_ = hdr0
			e.assumeCands(p, iter, cands, phis, cells)
			fnOuts := fr.outs
			hp := p.clone()
			_, backs = runBody(p)
			p = hp
			fr.outs = fnOuts[:outsMark]
			next := c.Add(iter, c.Int(1))
			dropped := false
			for _, b := range backs {
				var ts []*Term
				var cs []*cand
				for _, cd := range cands {
					if !cd.live {
						continue
					}
					t := cd.f(b.regs, b.st, next)
					if t == nil {
						cd.live = false
						dropped = true
						continue
					}
					ts = append(ts, t)
					cs = append(cs, cd)
				}
				if e.entails(b.st, c.And(ts...)) {
					continue
				}
				for i, cd := range cs {
					if !e.entails(b.st, ts[i]) {
						if e.w.debug && len(cd.name) > 8 && cd.name[:8] == "template" {
							fmt.Printf("    dropped %s: %s\n", cd.name, c.show(ts[i]))
							for _, q := range b.st.pc {
								fmt.Printf("         pc %s\n", c.show(q))
							}
						}
						cd.live = false
						dropped = true
					}
				}
			}
			if !dropped {
				break
			}
		}
		return p, iter, backs
	}
	hp, hiter, backs := houdini()
	if more := e.derive(h, phis, init, entry, hp, hiter, backs, cands); len(more) > 0 {
		for _, cd := range more {
			t := cd.f(init, entry.st, zero)
			cd.live = t != nil && e.entails(entry.st, t)
		}
		cands = append(cands, more...)
		e.ncand += len(more)
		houdini()
	}
	e.dry--
	for _, cd := range cands {
		if cd.live {
			e.invsKept++
		}
	}
	if e.w.debug {
		for _, cd := range cands {
			fmt.Printf("    loop %s %s: %s live=%v\n", fr.fn.Name(), h, cd.name, cd.live)
		}
	}
	// the arbitrary iteration
	p, iter := mkHeader()
	e.assumeCands(p, iter, cands, phis, cells)
	ex, _ := runBody(p)
	return ex
}

// assumeCands assumes the retained invariants, solving equalities for the loop-carried values.
func (e *Exec) assumeCands(p *Path, iter *Term, cands []*cand, phis []*ssa.Phi, cells []*Term) {
	c := e.c
	vars := map[int]bool{}
	isCell := map[int]bool{}
	for _, x := range cells {
		vars[x.id] = true
		isCell[x.id] = true
	}
	for _, ph := range phis {
		if v, ok := p.regs[ph].(Val); ok {
			for _, x := range v {
				if x.op == "var" {
					vars[x.id] = true
				}
			}
		}
	}
	n := len(p.st.pc)
	subst := func(v, r *Term) {
		if isCell[v.id] {
			for k, t := range p.st.heap {
				p.st.heap[k] = c.Subst(t, v, r)
			}
		}
		for _, ph := range phis {
			if w, ok := p.regs[ph].(Val); ok {
				o := make(Val, len(w))
				for i, x := range w {
					o[i] = c.Subst(x, v, r)
				}
				p.regs[ph] = o
			}
		}
		for i := n; i < len(p.st.pc); i++ {
			p.st.pc[i] = c.Subst(p.st.pc[i], v, r)
		}
		delete(vars, v.id)
	}
	var solve func(t *Term)
	solve = func(t *Term) {
		switch {
		case t.op == "and":
			for _, a := range t.args {
				solve(a)
			}
			return
		case t.op == "var" && vars[t.id]:
			subst(t, c.T)
			return
		case t.op == "not" && t.args[0].op == "var" && vars[t.args[0].id]:
			subst(t.args[0], c.F)
			return
		case t.op == "=":
			a, b := t.args[0], t.args[1]
			if b.op == "var" && vars[b.id] && !(a.op == "var" && vars[a.id]) {
				a, b = b, a
			}
			if a.op == "var" && vars[a.id] && !occurs(b, a) {
				subst(a, b)
				return
			}
			// v + k = r
			if a.sort == SInt {
				for k := 0; k < 2; k++ {
					l := c.lin(c.Sub(t.args[k], t.args[1-k]))
					for id, co := range l.ks {
						if vars[id] && (co.IsInt64() && (co.Int64() == 1 || co.Int64() == -1)) {
							v := l.ts[id]
							rest := c.Sub(c.Sub(t.args[k], t.args[1-k]), c.Mul(c.Big(co), v)) // co*v + rest = 0
							r := c.Mul(c.Int(-co.Int64()), rest)
							if !occurs(r, v) {
								subst(v, r)
								return
							}
						}
					}
				}
			}
		}
		e.add(p.st, t)
	}
	for _, cd := range cands {
		if cd.live {
			if t := cd.f(p.regs, p.st, iter); t != nil {
				solve(t)
			}
		}
	}
	// conditions may have become trivial
	pc := p.st.pc
	p.st.pc = append([]*Term{}, pc[:n]...)
	for _, t := range pc[n:] {
		e.add(p.st, t)
	}
}

// fixedIn: the term is made only of values that exist before the loop (fresh names made later are
// not).
func (e *Exec) fixedIn(t *Term, entry *Path) bool {
	known := map[int]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if known[t.id] {
			return
		}
		known[t.id] = true
		for _, a := range t.args {
			mark(a)
		}
	}
	for _, v := range entry.regs {
		if vv, ok := v.(Val); ok {
			for _, x := range vv {
				mark(x)
			}
		}
	}
	for _, v := range entry.st.heap {
		mark(v)
	}
	for _, v := range entry.st.pc {
		mark(v)
	}
	var ok func(t *Term) bool
	ok = func(t *Term) bool {
		if known[t.id] {
			return true
		}
		if t.op == "var" {
			return len(t.name) > 3 && t.name[:3] == "H0."
		}
		if t.bound {
			return false
		}
		for _, a := range t.args {
			if !ok(a) {
				return false
			}
		}
		return true
	}
	return ok(t)
}

func (e *Exec) candidates(fr *frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi, init map[ssa.Value]any, entry *Path) []*cand {
	c := e.c
	var out []*cand
	addc := func(name string, f func(regs map[ssa.Value]any, st *State, iter *Term) *Term) {
		out = append(out, &cand{name: name, f: f})
	}
	for _, ph := range phis {
		ph := ph
		iv, ok := init[ph].(Val)
		if !ok {
			addc("same", func(regs map[ssa.Value]any, st *State, iter *Term) *Term {
				return c.Bool(sameAny(regs[ph], init[ph]))
			})
			continue
		}
		cs := compsOf(ph.Type())
		nm := ph.Name() + "/" + ph.Comment
		if len(cs) > 1 {
			addc(nm+" unchanged", func(regs map[ssa.Value]any, st *State, iter *Term) *Term {
				v := regs[ph].(Val)
				var es []*Term
				for i := range v {
					es = append(es, c.Eq(v[i], iv[i]))
				}
				return c.And(es...)
			})
		}
		if bt, ok := ph.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 && len(cs) == 1 {
			out = append(out, &cand{name: nm + " small", ph: ph, bnd: true, f: func(regs map[ssa.Value]any, st *State, iter *Term) *Term {
				x := regs[ph].(Val)[0]
				return c.And(c.Le(c.Int(0), x), c.Le(x, c.Big(big40)))
			}})
		}
		for i, cp := range cs {
			i, cp := i, cp
			get := func(regs map[ssa.Value]any) *Term { return regs[ph].(Val)[i] }
			addc(fmt.Sprintf("%s[%d]=init", nm, i), func(regs map[ssa.Value]any, st *State, iter *Term) *Term {
				return c.Eq(get(regs), iv[i])
			})
			if cp.sort == SInt && cp.kind == KInt && cp.role == "" {
				if b, ok := ph.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					for _, stp := range stepsOf(ph, body) {
						stp := stp
						addc(fmt.Sprintf("%s=init+%d*iter", nm, stp), func(regs map[ssa.Value]any, st *State, iter *Term) *Term {
							return c.Eq(get(regs), c.Add(iv[i], c.Mul(c.Int(stp), iter)))
						})
						out[len(out)-1].ph, out[len(out)-1].step = ph, stp
						if stp > 0 {
							addc(nm+">=init", func(regs map[ssa.Value]any, st *State, iter *Term) *Term {
								return c.Le(iv[i], get(regs))
							})
						} else {
							addc(nm+"<=init", func(regs map[ssa.Value]any, st *State, iter *Term) *Term {
								return c.Le(get(regs), iv[i])
							})
						}
					}
					addc(nm+"<=init+iter", func(regs map[ssa.Value]any, st *State, iter *Term) *Term {
						return c.Le(get(regs), c.Add(iv[i], iter))
					})
				}
			}
			if cp.sort == SInt && cp.kind == KRef && cp.role == "" {
				addc(nm+" nonnil", func(regs map[ssa.Value]any, st *State, iter *Term) *Term {
					return c.Not(c.Eq(get(regs), c.Int(0)))
				})
			}
			if cp.role == "off" {
				addc(nm+" off0", func(regs map[ssa.Value]any, st *State, iter *Term) *Term {
					return c.Eq(get(regs), c.Int(0))
				})
			}
			if cp.role == "nil" && i+2 < len(cs) && cs[i+1].role == "off" {
				addc(nm+" nil iff empty", func(regs map[ssa.Value]any, st *State, iter *Term) *Term {
					v := regs[ph].(Val)
					return c.Eq(v[i], c.Eq(v[i+2], c.Int(0)))
				})
			}
			if cp.role == "len" {
				addc(nm+" len=init+iter", func(regs map[ssa.Value]any, st *State, iter *Term) *Term {
					return c.Eq(get(regs), c.Add(iv[i], iter))
				})
				out[len(out)-1].ph, out[len(out)-1].ln = ph, true
				addc(nm+" len<=init+iter", func(regs map[ssa.Value]any, st *State, iter *Term) *Term {
					return c.Le(get(regs), c.Add(iv[i], iter))
				})
				addc(nm+" len>=init", func(regs map[ssa.Value]any, st *State, iter *Term) *Term {
					return c.Le(iv[i], get(regs))
				})
			}
		}
	}
	// header test
	if n := len(h.Instrs); n > 0 {
		if iff, ok := h.Instrs[n-1].(*ssa.If); ok {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && (bo.Op == token.LSS || bo.Op == token.GTR || bo.Op == token.LEQ || bo.Op == token.GEQ || bo.Op == token.NEQ) {
				if b, ok := bo.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					addc("header bound", func(regs map[ssa.Value]any, st *State, iter *Term) *Term {
						a, b := e.pureEval(fr, regs, st, bo.X, h, 0), e.pureEval(fr, regs, st, bo.Y, h, 0)
						if a == nil || b == nil {
							return nil
						}
						if bo.Op == token.GTR || bo.Op == token.GEQ {
							a, b = b, a
						}
						if bo.Op == token.LEQ || bo.Op == token.GEQ {
							return c.Le(a, c.Add(b, c.Int(1)))
						}
						return c.Le(a, b)
					})
				}
			}
		}
	}
	// templates of the contract
	for _, inv := range e.invs {
		out = append(out, e.templateCands(fr, h, inv, phis, init, entry)...)
	}
	return out
}

// pureEval evaluates simple integer expressions of the header block.
func (e *Exec) pureEval(fr *frame, regs map[ssa.Value]any, st *State, v ssa.Value, h *ssa.BasicBlock, d int) *Term {
	if d > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)[0]
	case *ssa.Phi:
		if x.Block() == h {
			if w, ok := regs[x].(Val); ok {
				return w[0]
			}
			return nil
		}
	case *ssa.BinOp:
		if x.Block() == h {
			a, b := e.pureEval(fr, regs, st, x.X, h, d+1), e.pureEval(fr, regs, st, x.Y, h, d+1)
			if a == nil || b == nil {
				return nil
			}
			switch x.Op {
			case token.ADD:
				return e.wrap(e.c.Add(a, b), x.Type())
			case token.SUB:
				return e.wrap(e.c.Sub(a, b), x.Type())
			}
			return nil
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && x.Block() == h {
			w, ok := regs[x.Call.Args[0]]
			if !ok {
				return nil
			}
			vv, ok := w.(Val)
			if !ok {
				if sc, ok := w.(*SliceCell); ok {
					return sc.ln
				}
				return nil
			}
			switch u := x.Call.Args[0].Type().Underlying().(type) {
			case *types.Basic:
				return e.c.Len(vv[0])
			case *types.Slice:
				if isByte(u.Elem()) {
					return e.c.Len(vv[1])
				}
				return vv[2]
			}
			return nil
		}
	}
	if in, ok := v.(ssa.Instruction); ok && in.Block() == h {
		return nil
	}
	w, ok := regs[v].(Val)
	if !ok || len(w) != 1 {
		return nil
	}
	return w[0]
}

// stepsOf lists the constant steps by which a loop counter changes.
func stepsOf(ph *ssa.Phi, body map[*ssa.BasicBlock]bool) []int64 {
	m := map[int64]bool{}
	var walk func(v ssa.Value, acc int64, d int)
	walk = func(v ssa.Value, acc int64, d int) {
		if d > 5 {
			return
		}
		if v == ssa.Value(ph) {
			if acc != 0 {
				m[acc] = true
			}
			return
		}
		switch x := v.(type) {
		case *ssa.BinOp:
			if k, ok := x.Y.(*ssa.Const); ok && k.Value != nil && (x.Op == token.ADD || x.Op == token.SUB) {
				n := k.Int64()
				if x.Op == token.SUB {
					n = -n
				}
				walk(x.X, acc+n, d+1)
			}
		case *ssa.Phi:
			for _, y := range x.Edges {
				walk(y, acc, d+1)
			}
		}
	}
	for i, pr := range ph.Block().Preds {
		if body[pr] {
			walk(ph.Edges[i], 0, 0)
		}
	}
	var out []int64
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// templateCands instantiates a loop template of the contract with loop-carried values and with the
// parameters of the contract.
func (e *Exec) templateCands(fr *frame, h *ssa.BasicBlock, inv *ssa.Function, phis []*ssa.Phi, init map[ssa.Value]any, entry *Path) []*cand {
	c := e.c
	type choice struct {
		iter bool
		ph   *ssa.Phi
		val  any
		cell *Term
		ct   types.Type
		by   ssa.Value
	}
	chBys := func(ch []choice) []ssa.Value {
		var out []ssa.Value
		for _, x := range ch {
			if x.by != nil {
				out = append(out, x.by)
			}
		}
		return out
	}
	var opts [][]choice
	for _, prm := range inv.Params {
		var ch, seen, all []choice
		if e.w.isIter(prm.Type()) {
			opts = append(opts, []choice{{iter: true}})
			continue
		}
		if e.w.isKeys(prm.Type()) {
			for _, in := range h.Instrs {
				if nx, ok := in.(*ssa.Next); ok {
					if mi, ok := entry.regs[nx.Iter].(*MapIter); ok {
						ch = append(ch, choice{val: Val{mi.vis}})
					}
				}
			}
			if len(ch) == 0 {
				return nil
			}
			opts = append(opts, ch)
			continue
		}
		for _, nv := range e.params() {
			if nv.name == prm.Name() && types.Identical(nv.typ, prm.Type()) {
				ch = append(ch, choice{val: nv.val})
			}
		}
		if len(ch) == 0 {
			for _, ph := range phis {
				if types.Identical(ph.Type(), prm.Type()) || types.Identical(ph.Type().Underlying(), prm.Type().Underlying()) && types.AssignableTo(ph.Type(), prm.Type()) {
					if _, ok := init[ph].(Val); ok {
						ch = append(ch, choice{ph: ph, by: ph})
					}
				}
			}
			// values of enclosing registers (same type), by the template's parameter name "fix_..." only
			if len(prm.Name()) > 4 && prm.Name()[:4] == "fix_" {
				for r, v := range entry.regs {
					if types.Identical(r.Type(), prm.Type()) {
						if vv, ok := v.(Val); ok {
							isPhi := false
							for _, ph := range phis {
								if ssa.Value(ph) == r {
									isPhi = true
								}
							}
							if !isPhi {
								ch = append(ch, choice{val: vv, by: r})
							}
						}
					}
				}
			}
			if strings.HasPrefix(prm.Name(), "fix_") && !anyNamed(e.w, chBys(ch), prm.Name()[4:]) {
				// a variable of that name in a function executed before
				for _, nv := range e.seenVar {
					if types.Identical(nv.typ, prm.Type()) {
						all = append(all, choice{val: nv.val})
						if nv.name == prm.Name()[4:] {
							seen = append(seen, choice{val: nv.val})
						}
					}
				}
				if len(seen) > 0 {
					ch = seen
				} else {
					ch = append(ch, all...)
				}
			}
			if len(prm.Name()) > 5 && prm.Name()[:5] == "cell_" {
				// local variables and arrays living in memory
				for r, v := range entry.regs {
					if pt, ok := r.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), prm.Type()) {
						if vv, ok := v.(Val); ok {
							ch = append(ch, choice{cell: vv[0], ct: pt.Elem(), by: r})
						}
					}
					if sc, ok := v.(*SliceCell); ok && types.Identical(sc.typ, prm.Type()) {
						ch = append(ch, choice{cell: sc.ref, ct: sc.typ, by: r})
					}
				}
				for _, m := range e.made {
					if types.Identical(m.sc.typ, prm.Type()) {
						ch = append(ch, choice{cell: m.sc.ref, ct: m.sc.typ, by: m.by})
					}
				}
			}
		}
		if len(ch) == 0 {
			return nil
		}
		// a variable of that name is preferred; without one, everything of the type is tried
		base := strings.TrimPrefix(strings.TrimPrefix(prm.Name(), "fix_"), "cell_")
		var named []choice
		for _, x := range ch {
			if x.by != nil && e.w.namesOf(x.by)[base] {
				named = append(named, x)
			}
		}
		if len(named) > 0 {
			ch = named
		}
		// drop duplicates
		var uq []choice
		for _, x := range ch {
			dup := false
			for _, y := range uq {
				if x.ph == y.ph && x.cell == y.cell && x.ph == nil && x.cell == nil && sameVal(x.val, y.val) || x.cell != nil && x.cell == y.cell {
					dup = true
				}
			}
			if !dup {
				uq = append(uq, x)
			}
		}
		opts = append(opts, uq)
	}
	var out []*cand
	var rec func(i int, cur []choice)
	rec = func(i int, cur []choice) {
		if len(out) > 60 {
			return
		}
		if i == len(opts) {
			cs := append([]choice{}, cur...)
			nm := "template " + inv.Name()
			for _, x := range cs {
				if x.ph != nil {
					nm += " " + x.ph.Name() + "/" + x.ph.Comment
				}
			}
			out = append(out, &cand{name: nm, f: func(regs map[ssa.Value]any, st *State, iter *Term) *Term {
				var args []any
				for _, x := range cs {
					switch {
					case x.iter:
						args = append(args, Val{iter})
					case x.ph != nil:
						args = append(args, regs[x.ph])
					case x.cell != nil:
						args = append(args, e.load(st, &Addr{ref: x.cell, root: x.ct}))
					default:
						args = append(args, x.val)
					}
				}
				return e.specBool(st, inv, args, nil)
			}})
			return
		}
		for _, x := range opts[i] {
			rec(i+1, append(cur, x))
		}
	}
	rec(0, nil)
	_ = c
	return out
}
func sameVal(a, b any) bool {
	x, ok1 := a.(Val)
	y, ok2 := b.(Val)
	if !ok1 || !ok2 || len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// derive proposes invariants from what one iteration does: texts grown by a piece per iteration,
// lists grown by an element per iteration, and tests passed by every iteration so far.
func (e *Exec) derive(h *ssa.BasicBlock, phis []*ssa.Phi, init map[ssa.Value]any, entry, hp *Path, iter *Term, backs []*Path, cands []*cand) []*cand {
	c := e.c
	if len(backs) == 0 || len(backs) > 12 {
		return nil
	}
	j := c.FreshB("q", big.NewInt(0), big40)
	// counters in terms of the iteration number
	type sb struct{ v, r *Term }
	var subs []sb
	lens := map[*ssa.Phi]bool{}
	for _, cd := range cands {
		if !cd.live || cd.ph == nil {
			continue
		}
		if cd.ln {
			lens[cd.ph] = true
			continue
		}
		x := hp.regs[cd.ph].(Val)[0]
		if x.op == "var" && false {
			subs = append(subs, sb{x, c.Add(init[cd.ph].(Val)[0], c.Mul(c.Int(cd.step), j))})
		}
	}
	inIter := func(t *Term) *Term {
		for _, s := range subs {
			t = c.Subst(t, s.v, s.r)
		}
		return c.Subst(t, iter, j)
	}
	var out []*cand
	n := len(hp.st.pc)
	known := e.knownIn(entry, j)
	suffix := func(b *Path) []*Term {
		if len(b.st.pc) < n {
			return nil
		}
		return b.st.pc[n:]
	}
	// equalities of the iteration that tell what a fresh value is
	norm := func(b *Path, t *Term) *Term {
		t = inIter(t)
		for round := 0; round < 3 && !known(t); round++ {
			for _, q := range suffix(b) {
				if q.op != "=" {
					continue
				}
				x, y := inIter(q.args[0]), inIter(q.args[1])
				if occurs(t, x) && !known(x) && len(x.args) <= 2 && !occurs(y, x) {
					t = c.Subst(t, x, y)
				} else if occurs(t, y) && !known(y) && !occurs(x, y) {
					t = c.Subst(t, y, x)
				}
			}
		}
		return t
	}
	conds := make([]*Term, len(backs))
	okc := make([]bool, len(backs))
	for i, b := range backs {
		okc[i] = true
		var cs []*Term
		for _, q := range suffix(b) {
			q = norm(b, q)
			if known(q) {
				cs = append(cs, q)
			} else {
				okc[i] = false
			}
		}
		conds[i] = c.And(cs...)
	}
	// merge a value over the back paths
	merge := func(vs []*Term) *Term {
		r := vs[len(vs)-1]
		for i := len(vs) - 2; i >= 0; i-- {
			if vs[i] != r && !okc[i] {
				return nil
			}
			r = c.Ite(conds[i], vs[i], r)
		}
		return r
	}
	for _, ph := range phis {
		ph := ph
		iv, ok := init[ph].(Val)
		if !ok {
			continue
		}
		hv := hp.regs[ph].(Val)
		cs := compsOf(ph.Type())
		for k, cp := range cs {
			k := k
			if cp.sort == SStr {
				var ws []*Term
				good := true
				for _, b := range backs {
					bt := b.regs[ph].(Val)[k]
					ps := c.parts(bt)
					if len(ps) == 0 || ps[0] != hv[k] {
						good = false
						break
					}
					w := norm(b, c.Cat(ps[1:]...))
					if !known(w) {
						good = false
						break
					}
					ws = append(ws, w)
				}
				if !good {
					continue
				}
				w := merge(ws)
				if w == nil || w == c.Str("") {
					continue
				}
				out = append(out, &cand{name: ph.Name() + " grows by a piece", f: func(regs map[ssa.Value]any, st *State, it *Term) *Term {
					return c.Eq(regs[ph].(Val)[k], c.Cat(iv[k], e.catTerm(w, j, it, 1)))
				}})
			}
			if cp.role == "arr" && lens[ph] && k >= 3 {
				var vs []*Term
				good := true
				for _, b := range backs {
					bt := b.regs[ph].(Val)[k]
					if bt.op != "store" || bt.args[0] != hv[k] || bt.args[1] != c.Add(hv[1], hv[2]) {
						good = false
						break
					}
					v := norm(b, bt.args[2])
					if !known(v) {
						good = false
						break
					}
					vs = append(vs, v)
				}
				if iv[2] != c.Int(0) {
					out = append(out, &cand{name: ph.Name() + " keeps its beginning", f: func(regs map[ssa.Value]any, st *State, it *Term) *Term {
						v := regs[ph].(Val)
						q := c.BVar2("qk")
						return c.Quant("forall", q, c.Imp(c.And(c.Le(c.Int(0), q), c.Lt(q, iv[2])), c.Eq(c.Select(v[k], c.Add(v[1], q)), c.Select(iv[k], c.Add(iv[1], q)))))
					}})
				}
				if !good {
					continue
				}
				v := merge(vs)
				if v == nil {
					continue
				}
				out = append(out, &cand{name: ph.Name() + " grows by an element", f: func(regs map[ssa.Value]any, st *State, it *Term) *Term {
					x := regs[ph].(Val)
					q := c.BVar2("qe")
					return c.Quant("forall", q, c.Imp(c.And(c.Le(c.Int(0), q), c.Lt(q, it)), c.Eq(c.Select(x[k], c.Add(x[1], iv[2], q)), c.Subst(v, j, q))))
				}})
			}
		}
	}
	// tests passed
	var ds []*Term
	for i := range backs {
		ds = append(ds, conds[i])
	}
	d := c.Or(ds...)
	if d != c.T && occurs(d, j) && d.size < 4000 {
		parts := []*Term{d}
		if d.op == "and" {
			parts = d.args
		}
		for _, d := range parts {
			d := d
			if !occurs(d, j) {
				continue
			}
			out = append(out, &cand{name: "test passed so far", f: func(regs map[ssa.Value]any, st *State, it *Term) *Term {
				q := c.BVar2("qt")
				return c.Quant("forall", q, c.Imp(c.And(c.Le(c.Int(0), q), c.Lt(q, it)), c.Subst(d, j, q)))
			}})
		}
	}
	return out
}

// knownIn tells whether a term speaks only of values that exist before the loop, and of j.
func (e *Exec) knownIn(entry *Path, j *Term) func(t *Term) bool {
	base := map[int]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if base[t.id] {
			return
		}
		base[t.id] = true
		for _, a := range t.args {
			mark(a)
		}
	}
	for _, v := range entry.regs {
		if vv, ok := v.(Val); ok {
			for _, x := range vv {
				mark(x)
			}
		}
	}
	for _, v := range entry.st.heap {
		mark(v)
	}
	for _, v := range entry.st.pc {
		mark(v)
	}
	for _, nv := range e.pvals {
		if vv, ok := nv.val.(Val); ok {
			for _, x := range vv {
				mark(x)
			}
		}
	}
	L := e.next - regionW // objects made by the body lie above the header's region
	memo := map[int]bool{}
	var ok func(t *Term) bool
	ok = func(t *Term) bool {
		if base[t.id] || t == j {
			return true
		}
		if r, has := memo[t.id]; has {
			return r
		}
		r := true
		switch t.op {
		case "var":
			r = len(t.name) > 3 && t.name[:3] == "H0."
		case "int":
			r = !(t.iv.IsInt64() && t.iv.Int64() > 2_000_000 && t.iv.Int64() >= L && t.iv.Int64() < L+10*regionW && e.dynOf[t.iv.Int64()] != nil)
		default:
			for _, a := range t.args {
				if !ok(a) {
					r = false
					break
				}
			}
		}
		memo[t.id] = r
		return r
	}
	return ok
}

var namesMu sync.Mutex

// namesOf gives the names of the source variables a value was bound to.
func (w *World) namesOf(v ssa.Value) map[string]bool {
	fn := v.Parent()
	if fn == nil {
		return nil
	}
	namesMu.Lock()
	defer namesMu.Unlock()
	m, ok := w.names[fn]
	if !ok {
		m = map[ssa.Value]map[string]bool{}
		add := func(v ssa.Value, n string) {
			if m[v] == nil {
				m[v] = map[string]bool{}
			}
			m[v][n] = true
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.DebugRef:
					if id, ok := x.Expr.(*ast.Ident); ok && !x.IsAddr {
						add(x.X, id.Name)
					}
				case *ssa.Phi:
					add(x, x.Comment)
				case *ssa.Alloc:
					add(x, x.Comment)
				}
			}
		}
		for _, p := range fn.Params {
			add(p, p.Name())
		}
		w.names[fn] = m
	}
	return m[v]
}

func anyNamed(w *World, vs []ssa.Value, name string) bool {
	for _, v := range vs {
		if w.namesOf(v)[name] {
			return true
		}
	}
	return false
}
