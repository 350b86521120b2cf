package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callOut struct {
	st  *State
	any any
}

const regionW = 1_000_000

func (e *Exec) call(p *Path, fr *frame, x *ssa.Call) []callOut {
	cc := x.Common()
	var args []any
	if cc.IsInvoke() {
		recv := e.term(p, fr, cc.Value)
		for _, a := range cc.Args {
			args = append(args, e.arg(p, fr, a))
		}
		return e.invoke(p.st, fr, x, recv, cc.Value.Type(), cc.Method, args, p)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(p, fr, x, b)
	}
	for _, a := range cc.Args {
		args = append(args, e.arg(p, fr, a))
	}
	switch f := cc.Value.(type) {
	case *ssa.Function:
		return e.callStatic(p, p.st, fr, f, args, nil)
	case *ssa.MakeClosure:
		a := e.term(p, fr, f)
		cl := e.clos[a.iv.Int64()]
		return e.callStatic(p, p.st, fr, cl.fn, args, cl.bind)
	}
	t := e.term(p, fr, cc.Value)
	return e.callDyn(p, p.st, fr, t, cc.Signature(), args)
}

func (e *Exec) arg(p *Path, fr *frame, a ssa.Value) any {
	v := e.val(p, fr, a)
	if ad, ok := v.(*Addr); ok && ad.ref != nil && len(ad.sels) == 0 {
		return Val{ad.ref}
	}
	return v
}

// callDyn calls a function value.
func (e *Exec) callDyn(p *Path, st *State, fr *frame, t *Term, sig *types.Signature, args []any) []callOut {
	c := e.c
	if t.op == "ite" {
		var outs []callOut
		for k, g := range []*Term{t.args[0], c.Not(t.args[0])} {
			s2 := st.clone()
			if !e.feasible(s2, g) {
				continue
			}
			e.add(s2, g)
			outs = append(outs, e.callDyn(p, s2, fr, t.args[1+k], sig, args)...)
		}
		return outs
	}
	if t.op == "int" {
		if cl, ok := e.clos[t.iv.Int64()]; ok && t.iv.IsInt64() {
			return e.callStatic(p, st, fr, cl.fn, args, cl.bind)
		}
	}
	if t.op == "select" {
		// read back from where it was put: one of the functions of that type, if that follows
		var ids []int64
		for id, cl := range e.clos {
			if types.Identical(cl.fn.Signature, sig) {
				ids = append(ids, id)
			}
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		among := func(ids []int64) bool {
			var or []*Term
			for _, id := range ids {
				or = append(or, c.Eq(t, c.Int(id)))
			}
			return e.entails(st, c.Or(or...))
		}
		if len(ids) > 0 && among(ids) {
			for len(ids) > 1 {
				h := len(ids) / 2
				if among(ids[:h]) {
					ids = ids[:h]
				} else if among(ids[h:]) {
					ids = ids[h:]
				} else {
					break
				}
			}
			if len(ids) == 1 {
				cl := e.clos[ids[0]]
				return e.callStatic(p, st, fr, cl.fn, args, cl.bind)
			}
		}
	}
	e.guard(st, fr, "call of a nil function", c.Not(c.Eq(t, c.Int(0))))
	// an arbitrary function value: a deterministic function of its arguments without effects
	e.trusted["function values given by the caller are deterministic and leave the objects at hand alone"] = true
	var as []*Term
	as = append(as, t)
	for _, a := range args {
		as = append(as, e.flat(p, a)...)
	}
	return []callOut{{st, e.ufResult("apply_"+tkey(sig), sig.Results(), as)}}
}

// ufResult makes the results of an external call as uninterpreted functions of its arguments.
func (e *Exec) ufResult(name string, r *types.Tuple, as []*Term) Val {
	var out Val
	for i := 0; i < r.Len(); i++ {
		o := len(out)
		for k, cp := range compsOf(r.At(i).Type()) {
			t := e.c.UF(fmt.Sprintf("%s_%d_%d", name, i, k), cp.sort, as...)
			if t.lo == nil && t.eLo == nil {
				e.boundComp(t, cp, refHi)
			}
			out = append(out, t)
		}
		e.typeFactsOf(out[o:], r.At(i).Type(), true)
	}
	return out
}

func (e *Exec) callStatic(p *Path, st *State, fr *frame, fn *ssa.Function, args []any, bind []any) []callOut {
	if o := fn.Origin(); o != nil && o.Pkg != nil && strings.HasSuffix(o.Pkg.Pkg.Path(), "/zzgov") {
		return e.intrinsic(p, st, fr, o.Name(), fn, args)
	}
	if fn.Pkg != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), "/zzgov") {
		if outs, ok := e.intrinsicTry(p, st, fr, fn.Name(), fn, args); ok {
			return outs
		}
	}
	if e.w.ghost[fn] {
		return []callOut{{st, e.ghostCall(p, st, fn, args)}}
	}
	if ct := e.w.use[fn]; ct != nil && !(ct.Local && e.self != nil && e.self.Fn != nil && (e.self.Fn.Pkg != ct.Fn.Pkg || e.self.Bodies)) {
		return e.useContract(p, st, fr, ct, args)
	}
	if m, ok := models[modelName(fn)]; ok {
		var vs []Val
		for _, a := range args {
			if ad, ok := a.(*Addr); ok && len(ad.sels) > 0 && (strings.Contains(modelName(fn), "crypto/rsa.") || strings.Contains(modelName(fn), "crypto/x509.")) {
				vs = append(vs, Val{e.c.Int(1)}) // read through raw
				continue
			}
			vs = append(vs, e.flat(p, a))
		}
		e.trusted["external function "+modelName(fn)] = true
		return m(&mctx{e: e, p: p, st: st, fr: fr, fn: fn, args: vs, raw: args, sig: fn.Signature})
	}
	if fn.Pkg == nil && fn.Parent() == nil && len(fn.Blocks) > 0 || fn.Parent() != nil || isRepoFn(fn) || inlineExt[modelName(fn)] && len(fn.Blocks) > 0 {
		spec := fr != nil && fr.spec
		if fr != nil && fr.top && !e.w.isSpecFn(fn) {
			spec = false
		}
		snapArgs := make([]any, len(args))
		copy(snapArgs, args)
		outs := e.callFn(st, fn, snapArgs, bind, spec, false)
		var r []callOut
		for _, o := range outs {
			r = append(r, callOut{o.st, o.res})
		}
		return r
	}
	e.fail("external function %s has no model", modelName(fn))
	return nil
}

func (e *Exec) selfDepth() int { return e.selfAt }

func isRepoFn(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	return f.Pkg != nil && isRepo(f.Pkg.Pkg)
}

func modelName(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	return fn.String()
}

func (e *Exec) invoke(st *State, fr *frame, x *ssa.Call, recv *Term, it types.Type, m *types.Func, args []any, p *Path) []callOut {
	c := e.c
	if recv.op == "ite" {
		var outs []callOut
		for k, g := range []*Term{recv.args[0], c.Not(recv.args[0])} {
			s2 := st.clone()
			if !e.feasible(s2, g) {
				continue
			}
			e.add(s2, g)
			outs = append(outs, e.invoke(s2, fr, x, recv.args[1+k], it, m, args, p)...)
		}
		return e.mergeCall(outs, m.Type().(*types.Signature))
	}
	nz := c.Not(c.Eq(recv, c.Int(0)))
	e.guard(st, fr, "nil dereference", nz)
	if nz == c.F && !fr.spec {
		return nil
	}
	// known dynamic type
	if recv.op == "int" {
		if d, ok := e.dynOf[recv.iv.Int64()]; ok && recv.iv.IsInt64() {
			return e.dispatch(st, fr, recv, d, m, args, p)
		}
	}
	if recv.op == "uf" && recv.typ != "" {
		if d := e.w.typeOf(recv.typ); d != nil {
			return e.dispatch(st, fr, recv, d, m, args, p)
		}
	}
	im := e.w.impls(it)
	if len(im) == 1 {
		return e.dispatch(st, fr, recv, im[0], m, args, p)
	}
	if len(im) == 0 {
		mn := "(" + tkeyIface(it) + ")." + m.Name()
		if mod, ok := models[mn]; ok {
			vs := []Val{{recv}}
			for _, a := range args {
				vs = append(vs, e.flat(p, a))
			}
			e.trusted["external method "+mn] = true
			return mod(&mctx{e: e, p: p, st: st, fr: fr, args: vs, raw: append([]any{Val{recv}}, args...), sig: m.Type().(*types.Signature)})
		}
		e.fail("no implementation of %s and no model %s", it, mn)
	}
	var outs []callOut
	for _, d := range im {
		g := c.Eq(e.dynUF(recv), c.Int(e.w.typeID(d)))
		s2 := st.clone()
		if !e.feasible(s2, g) {
			continue
		}
		e.add(s2, g)
		outs = append(outs, e.dispatch(s2, fr, recv, d, m, args, p)...)
	}
	if !fr.spec {
		e.trusted["values of a repository interface are of a repository type implementing it"] = true
	}
	return e.mergeCall(outs, m.Type().(*types.Signature))
}

func tkeyIface(t types.Type) string { return types.TypeString(t, nil) }

func (e *Exec) mergeCall(outs []callOut, sig *types.Signature) []callOut {
	for _, c := range compsOf(sig.Results()) {
		if c.kind == KRef {
			return outs
		}
	}
	var os []Outcome
	for _, o := range outs {
		v, ok := o.any.(Val)
		if !ok {
			return outs
		}
		os = append(os, Outcome{o.st, v})
	}
	os = e.mergeOuts(nil, os)
	outs = nil
	for _, o := range os {
		outs = append(outs, callOut{o.st, o.res})
	}
	return outs
}

func (e *Exec) dispatch(st *State, fr *frame, recv *Term, d types.Type, m *types.Func, args []any, p *Path) []callOut {
	fn := e.w.method(d, m)
	if fn == nil {
		e.fail("method %s of %s", m.Name(), d)
	}
	var rv any = Val{recv}
	if _, ok := d.Underlying().(*types.Pointer); !ok {
		rv = e.unbox(recv, d)
	}
	return e.callStatic(p, st, fr, fn, append([]any{rv}, args...), nil)
}

func (e *Exec) builtin(p *Path, fr *frame, x *ssa.Call, b *ssa.Builtin) []callOut {
	c := e.c
	cc := x.Common()
	one := func(v any) []callOut { return []callOut{{p.st, v}} }
	switch b.Name() {
	case "len", "cap":
		raw := e.val(p, fr, cc.Args[0])
		if sc, ok := raw.(*SliceCell); ok {
			return one(Val{sc.ln})
		}
		v := e.flat(p, raw)
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Basic:
			return one(Val{c.Len(v[0])})
		case *types.Slice:
			if isByte(u.Elem()) {
				return one(Val{c.Len(v[1])})
			}
			return one(Val{v[2]})
		case *types.Map:
			dk, dc, _ := e.mapKeys(u)
			dom := c.Select(e.heapArr(p.st, dk, dc), v[0])
			nc := Comp{sort: SInt, kind: KInt, lo: big.NewInt(0), hi: big40}
			n := c.Select(e.heapArr(p.st, dk+".n", nc), v[0])
			r := c.Ite(c.Eq(v[0], c.Int(0)), c.Int(0), n)
			_ = dom
			return one(Val{r})
		case *types.Pointer:
			return one(Val{c.Int(u.Elem().Underlying().(*types.Array).Len())})
		case *types.Array:
			return one(Val{c.Int(u.Len())})
		}
	case "append":
		a := e.flat(p, e.val(p, fr, cc.Args[0]))
		bb := e.flat(p, e.val(p, fr, cc.Args[1]))
		st := cc.Args[0].Type().Underlying().(*types.Slice)
		if isByte(st.Elem()) {
			s := bb[len(bb)-1]
			return one(Val{c.And(a[0], c.Eq(c.Len(s), c.Int(0))), c.Cat(a[1], s)})
		}
		return one(e.appendSlices(p.st, a, bb, st))
	case "delete":
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		m := e.term(p, fr, cc.Args[0])
		k := e.mapKey(mt, e.flat(p, e.val(p, fr, cc.Args[1])))
		// delete on a nil map is a no-op
		e.mapDelete(p.st, mt, m, k)
		return one(Val{})
	case "copy":
		dst, ok := e.val(p, fr, cc.Args[0]).(*SliceCell)
		if ok && isByteSlice(dst.typ) {
			src := e.flat(p, e.val(p, fr, cc.Args[1]))
			s := src[len(src)-1]
			old := e.load(p.st, &Addr{ref: dst.ref, root: dst.typ})
			n := c.Ite(c.Le(dst.ln, c.Len(s)), dst.ln, c.Len(s))
			nv := c.Cat(c.Substr(old[1], c.Int(0), dst.off), c.Substr(s, c.Int(0), n), c.Substr(old[1], c.Add(dst.off, n), c.Sub(c.Sub(c.Len(old[1]), dst.off), n)))
			e.store(p.st, &Addr{ref: dst.ref, root: dst.typ}, Val{old[0], nv})
			return one(Val{n})
		}
	case "ssa:wrapnilchk":
		return one(e.val(p, fr, cc.Args[0]))
	}
	e.fail("builtin %s", b.Name())
	return nil
}

// appendSlices: the result is a value of its own (see the aliasing assumption in DESIGN.md).
func (e *Exec) appendSlices(st *State, a, b Val, t *types.Slice) Val {
	c := e.c
	la, lb := a[2], b[2]
	nil_ := c.And(a[0], c.Eq(lb, c.Int(0)))
	if lb.op == "int" && lb.iv.IsInt64() && lb.iv.Int64() <= 8 {
		out := Val{nil_, a[1], c.Add(la, lb)}
		for k := 3; k < len(a); k++ {
			ar := a[k]
			for i := int64(0); i < lb.iv.Int64(); i++ {
				ar = c.Store(ar, c.Add(a[1], la, c.Int(i)), c.Select(b[k], c.Add(b[1], c.Int(i))))
			}
			out = append(out, ar)
		}
		return out
	}
	if la.op == "int" && la.iv.Sign() == 0 {
		return append(Val{nil_}, b[1:]...)
	}
	out := Val{nil_, c.Int(0), c.Add(la, lb)}
	for k := 3; k < len(a); k++ {
		r := c.Fresh("app", a[k].sort)
		r.eLo, r.eHi = nil, nil
		if a[k].eLo != nil && b[k].eLo != nil {
			r.eLo, r.eHi = minB(a[k].eLo, b[k].eLo), maxB(a[k].eHi, b[k].eHi)
		}
		i := c.BVar("i")
		f1 := c.Quant("forall", i, c.Imp(c.And(c.Le(c.Int(0), i), c.Lt(i, la)), c.Eq(c.Select(r, i), c.Select(a[k], c.Add(a[1], i)))))
		j := c.BVar("j")
		f2 := c.Quant("forall", j, c.Imp(c.And(c.Le(la, j), c.Lt(j, c.Add(la, lb))), c.Eq(c.Select(r, j), c.Select(b[k], c.Add(b[1], c.Sub(j, la))))))
		c.AddFact(r, f1)
		c.AddFact(r, f2)
		e.apps[r.id] = &appInfo{la: la, lb: lb, a: a[k], aoff: a[1], b: b[k], boff: b[1]}
		out = append(out, r)
	}
	return out
}

// ---------------------------------------------------------------- globals

func (e *Exec) globalAddr(st *State, g *ssa.Global) *Addr {
	el := g.Type().Underlying().(*types.Pointer).Elem()
	e.initGlobal(st, g)
	// each global has its own key
	return &Addr{ref: e.c.Int(e.w.globalID(g)), root: el}
}

// initGlobal gives a package level variable that is never assigned after initialisation a fixed
// but unknown value.
func (e *Exec) initGlobal(st *State, g *ssa.Global) {
}

// inlineExt names functions of dependencies whose own code is read instead of a model.
var inlineExt = map[string]bool{
	"(github.com/satori/go.uuid.UUID).Bytes": true,
}
