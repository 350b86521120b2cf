package main

// Models of the elliptic curve library: scalars form a commutative ring with inverses, points a
// module over it generated (for multiples of the base point) by one point. Terms are kept in a
// normal form, so that two sides of an identity of the group become the same term.
//
// A scalar or point is known by its value. Operations are modelled on a fresh receiver, as
// curve.Scalar() and curve.Point() give them; an operation that would overwrite an object that
// already has a value is outside the model and fails the contract.

import (
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// ---- polynomials over scalar atoms

type mono struct {
	key   string
	atoms []*Term
	coef  *big.Int
}
type poly map[string]*mono

func (p poly) add(atoms []*Term, k *big.Int) {
	as := append([]*Term{}, atoms...)
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	var b strings.Builder
	for _, a := range as {
		b.WriteString(big.NewInt(int64(a.id)).String())
		b.WriteByte(',')
	}
	m := p[b.String()]
	if m == nil {
		m = &mono{key: b.String(), atoms: as, coef: new(big.Int)}
		p[b.String()] = m
	}
	m.coef = new(big.Int).Add(m.coef, k)
	if m.coef.Sign() == 0 {
		delete(p, b.String())
	}
}

// fpoly reads a scalar term in normal form.
func (c *Ctx) fpoly(t *Term) poly {
	p := poly{}
	ms := []*Term{t}
	if t.op == "uf" && t.name == "F.add" {
		ms = t.args
	}
	for _, m := range ms {
		k := big.NewInt(1)
		if m.op == "uf" && m.name == "F.c" {
			k = m.args[0].iv
			if len(m.args) == 1 {
				p.add(nil, k)
				continue
			}
			m = m.args[1]
		}
		if m.op == "uf" && m.name == "F.mul" {
			p.add(m.args, k)
		} else {
			p.add([]*Term{m}, k)
		}
	}
	return p
}

func (c *Ctx) fterm(p poly) *Term {
	var ms []*mono
	for _, m := range p {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].key < ms[j].key })
	var ts []*Term
	for _, m := range ms {
		var t *Term
		switch len(m.atoms) {
		case 0:
			ts = append(ts, c.UF("F.c", SInt, c.Big(m.coef)))
			continue
		case 1:
			t = m.atoms[0]
		default:
			t = c.UF("F.mul", SInt, m.atoms...)
		}
		if m.coef.Cmp(one) != 0 {
			t = c.UF("F.c", SInt, c.Big(m.coef), t)
		}
		ts = append(ts, t)
	}
	switch len(ts) {
	case 0:
		return c.UF("F.c", SInt, c.Int(0))
	case 1:
		return ts[0]
	}
	return c.UF("F.add", SInt, ts...)
}

func (c *Ctx) fadd(a, b *Term, k int64) *Term {
	p := c.fpoly(a)
	for _, m := range c.fpoly(b) {
		p.add(m.atoms, new(big.Int).Mul(m.coef, big.NewInt(k)))
	}
	return c.fterm(p)
}

// fmul multiplies; an atom next to its inverse cancels when the atom is a challenge (the digest
// of a text), taken to be non-zero.
func (c *Ctx) fmul(a, b *Term) *Term {
	p := poly{}
	for _, x := range c.fpoly(a) {
		for _, y := range c.fpoly(b) {
			as := append(append([]*Term{}, x.atoms...), y.atoms...)
			for again := true; again; {
				again = false
				for i, q := range as {
					if q.op != "uf" || q.name != "F.inv" || q.args[0].op != "uf" || q.args[0].name != "F.bytes" {
						continue
					}
					for j, r := range as {
						if r == q.args[0] && !again {
							var n []*Term
							for k, z := range as {
								if k != i && k != j {
									n = append(n, z)
								}
							}
							as, again = n, true
						}
					}
					if again {
						break
					}
				}
			}
			p.add(as, new(big.Int).Mul(x.coef, y.coef))
		}
	}
	return c.fterm(p)
}
func (c *Ctx) finv(a *Term) *Term { return c.UF("F.inv", SInt, a) }

// ---- points: G.B(f) is f times the base point, G.add a sum, G.mul(s, P) a multiple of an
// arbitrary point.

// gpoly reads a point as multiples of the base point (nil) and of other points.
type gpart struct {
	pt *Term // nil for the base point
	k  *Term // scalar
}

func (c *Ctx) gparts(t *Term) []gpart {
	ms := []*Term{t}
	if t.op == "uf" && t.name == "G.add" {
		ms = t.args
	}
	var out []gpart
	for _, m := range ms {
		switch {
		case m.op == "uf" && m.name == "G.B":
			out = append(out, gpart{nil, m.args[0]})
		case m.op == "uf" && m.name == "G.mul":
			out = append(out, gpart{m.args[1], m.args[0]})
		default:
			out = append(out, gpart{m, c.UF("F.c", SInt, c.Int(1))})
		}
	}
	return out
}
func (c *Ctx) gterm(ps []gpart) *Term {
	zero := c.UF("F.c", SInt, c.Int(0))
	unit := c.UF("F.c", SInt, c.Int(1))
	sum := map[int]gpart{}
	var ids []int
	for _, p := range ps {
		id := -1
		if p.pt != nil {
			id = p.pt.id
		}
		if q, ok := sum[id]; ok {
			sum[id] = gpart{p.pt, c.fadd(q.k, p.k, 1)}
		} else {
			sum[id] = p
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	var ts []*Term
	for _, id := range ids {
		p := sum[id]
		switch {
		case p.k == zero:
		case p.pt == nil:
			ts = append(ts, c.UF("G.B", SInt, p.k))
		case p.k == unit:
			ts = append(ts, p.pt)
		default:
			ts = append(ts, c.UF("G.mul", SInt, p.k, p.pt))
		}
	}
	switch len(ts) {
	case 0:
		return c.UF("G.B", SInt, zero)
	case 1:
		return ts[0]
	}
	return c.UF("G.add", SInt, ts...)
}
func (c *Ctx) gadd(a, b *Term) *Term {
	return c.gterm(append(append([]gpart{}, c.gparts(a)...), c.gparts(b)...))
}
func (c *Ctx) gneg(a *Term) *Term { return c.gmul(c.UF("F.c", SInt, c.Int(-1)), a) }
func (c *Ctx) gmul(s, a *Term) *Term {
	var ps []gpart
	for _, p := range c.gparts(a) {
		ps = append(ps, gpart{p.pt, c.fmul(s, p.k)})
	}
	return c.gterm(ps)
}

// ---- objects

const kyb = "go.dedis.ch/kyber/v3"
const edw = "go.dedis.ch/kyber/v3/group/edwards25519"

func (e *Exec) kval(m *mctx, t *Term) *Term {
	c := e.c
	switch {
	case t.op == "ite":
		return c.Ite(t.args[0], e.kval(m, t.args[1]), e.kval(m, t.args[2]))
	case t.op == "uf" && t.name == "kbox":
		return t.args[0]
	case t.op == "int" && t.iv.IsInt64() && e.kcell[t.iv.Int64()]:
		return c.Select(e.heapArr(m.st, "ext:kyber", extInt), t)
	}
	old := c.UF("kval", SInt, t)
	if t.op == "int" || t.hi != nil && t.hi.Cmp(refHi) <= 0 {
		return old
	}
	// possibly an object made here
	return c.Ite(c.Le(t, c.Big(refHi)), old, c.Select(e.heapArr(m.st, "ext:kyber", extInt), t))
}

func (e *Exec) kbox(v *Term) *Term {
	r := e.c.UF("kbox", SInt, v)
	r.lo, r.hi = new(big.Int).Neg(pow2(60)), big.NewInt(-1)
	e.c.AddFact(r, e.c.Eq(e.c.UF("kval", SInt, r), v))
	return r
}

// kset gives the receiver a value; it must not have one yet.
func (e *Exec) kset(m *mctx, recv, v *Term) *Term {
	if !(recv.op == "int" && recv.iv.IsInt64() && e.kcell[recv.iv.Int64()]) {
		e.fail("a curve operation overwrites an object that is not fresh")
	}
	e.heapWrite(m.st, "ext:kyber", extInt, recv, v)
	return e.kbox(v)
}

func kop(f func(m *mctx, v func(i int) *Term) *Term) model {
	return func(m *mctx) []callOut {
		v := func(i int) *Term { return m.e.kval(m, m.a(i)) }
		return m.ret(m.e.kset(m, m.a(0), f(m, v)))
	}
}

// ktext: the encoding of a value, 32 bytes in hexadecimal; decoding gives the value back.
func (e *Exec) kbin(kind string, v *Term) *Term {
	c := e.c
	b := c.UF(kind+"_enc", SStr, v)
	if !b.bound {
		c.AddFact(b, c.Eq(c.UF(kind+"_dec", SInt, b), v))
		c.AddFact(b, c.UF(kind+"_ok", SBool, b))
		c.AddFact(b, c.mk("=", "", SBool, []*Term{c.Len(b), c.Int(32)}))
	}
	return b
}

func addCryptoModels() {
	P, S := "("+kyb+".Point).", "("+kyb+".Scalar)."
	cell := func(m *mctx) []callOut {
		a := m.e.newAddr()
		m.e.kcell[a] = true
		r := m.c().Int(a)
		m.e.heapWrite(m.st, "ext:kyber", extInt, r, m.c().UF("F.c", SInt, m.c().Int(0)))
		return m.ret(r)
	}
	models["(*"+edw+".Curve).Scalar"] = cell
	models["(*"+edw+".Curve).Point"] = cell
	models["(*"+edw+".SuiteEd25519).Hash"] = newHash("sha256")
	models["(*"+edw+".SuiteEd25519).RandomStream"] = func(m *mctx) []callOut {
		r := m.c().Fresh("stream", SInt)
		r.lo, r.hi = big.NewInt(1), refHi
		return m.ret(r)
	}
	models[S+"Pick"] = kop(func(m *mctx, v func(int) *Term) *Term { return m.c().Fresh("scalar", SInt) })
	models[S+"Zero"] = kop(func(m *mctx, v func(int) *Term) *Term { return m.c().UF("F.c", SInt, m.c().Int(0)) })
	models[S+"One"] = kop(func(m *mctx, v func(int) *Term) *Term { return m.c().UF("F.c", SInt, m.c().Int(1)) })
	models[S+"Set"] = kop(func(m *mctx, v func(int) *Term) *Term { return v(1) })
	models[P+"Set"] = models[S+"Set"]
	models[S+"Add"] = kop(func(m *mctx, v func(int) *Term) *Term { return m.c().fadd(v(1), v(2), 1) })
	models[S+"Sub"] = kop(func(m *mctx, v func(int) *Term) *Term { return m.c().fadd(v(1), v(2), -1) })
	models[S+"Neg"] = kop(func(m *mctx, v func(int) *Term) *Term {
		return m.c().fadd(m.c().UF("F.c", SInt, m.c().Int(0)), v(1), -1)
	})
	models[S+"Mul"] = kop(func(m *mctx, v func(int) *Term) *Term { return m.c().fmul(v(1), v(2)) })
	models[S+"Div"] = kop(func(m *mctx, v func(int) *Term) *Term { return m.c().fmul(v(1), m.c().finv(v(2))) })
	models[S+"Inv"] = kop(func(m *mctx, v func(int) *Term) *Term { return m.c().finv(v(1)) })
	models[S+"SetBytes"] = kop(func(m *mctx, v func(int) *Term) *Term { return m.c().UF("F.bytes", SInt, m.str(1)) })
	models[S+"Clone"] = func(m *mctx) []callOut { return m.ret(m.e.kbox(m.e.kval(m, m.a(0)))) }
	models[P+"Clone"] = models[S+"Clone"]
	eq := func(m *mctx) []callOut { return m.ret(m.c().Eq(m.e.kval(m, m.a(0)), m.e.kval(m, m.a(1)))) }
	models[S+"Equal"] = eq
	models[P+"Equal"] = eq
	models[P+"Base"] = kop(func(m *mctx, v func(int) *Term) *Term {
		c := m.c()
		return c.UF("G.B", SInt, c.UF("F.c", SInt, c.Int(1)))
	})
	models[P+"Null"] = kop(func(m *mctx, v func(int) *Term) *Term {
		c := m.c()
		return c.UF("G.B", SInt, c.UF("F.c", SInt, c.Int(0)))
	})
	models[P+"Add"] = kop(func(m *mctx, v func(int) *Term) *Term {
		c := m.c()
		u := c.gadd(v(1), v(2))
		if u.op != "uf" || u.name != "G.add" {
			return u
		}
		// a point known to be a multiple of the base point: the sum in these terms
		for _, q := range m.st.pc {
			if q.op != "=" {
				continue
			}
			x, y := q.args[0], q.args[1]
			if y.op == "uf" && y.name == "G.B" {
				x, y = y, x
			}
			if !(x.op == "uf" && x.name == "G.B") {
				continue
			}
			var ps []gpart
			hit := false
			for _, p := range c.gparts(u) {
				if p.pt == y {
					hit = true
					p = gpart{nil, c.fmul(p.k, x.args[0])}
				}
				ps = append(ps, p)
			}
			if hit {
				c.AddFact(u, c.Imp(q, c.Eq(u, c.gterm(ps))))
			}
		}
		return u
	})
	models[P+"Sub"] = kop(func(m *mctx, v func(int) *Term) *Term { return m.c().gadd(v(1), m.c().gneg(v(2))) })
	models[P+"Neg"] = kop(func(m *mctx, v func(int) *Term) *Term { return m.c().gneg(v(1)) })
	models[P+"Mul"] = kop(func(m *mctx, v func(int) *Term) *Term {
		c := m.c()
		if m.a(2) == c.Int(0) {
			return c.UF("G.B", SInt, v(1))
		}
		return c.gmul(v(1), v(2))
	})
	text := func(kind string) {
		O := P
		if kind == "scalar" {
			O = S
		}
		models[O+"String"] = func(m *mctx) []callOut { return m.ret(m.e.hexOf(m.e.kbin(kind, m.e.kval(m, m.a(0))))) }
		models[O+"MarshalBinary"] = func(m *mctx) []callOut {
			return m.ret(m.c().F, m.e.kbin(kind, m.e.kval(m, m.a(0))), m.c().Int(0))
		}
		un := func(m *mctx, b *Term) []callOut {
			c := m.c()
			e := m.e
			fail := func(st *State) Val {
				return Val{e.errVal(c.Str(kind), b)}
			}
			if b.op == "uf" && b.name == kind+"_enc" {
				e.kset(m, m.a(0), b.args[0])
				return m.ret(c.Int(0))
			}
			return m.fork(c.UF(kind+"_ok", SBool, b), func(st *State) []callOut {
				m2 := *m
				m2.st = st
				e.kset(&m2, m.a(0), c.UF(kind+"_dec", SInt, b))
				return []callOut{{st, Val{c.Int(0)}}}
			}, func(st *State) []callOut {
				m2 := *m
				m2.st = st
				e.kset(&m2, m.a(0), c.Fresh("undef", SInt))
				return []callOut{{st, fail(st)}}
			})
		}
		models[O+"UnmarshalBinary"] = func(m *mctx) []callOut { return un(m, m.str(1)) }
		models[O+"UnmarshalFrom"] = func(m *mctx) []callOut {
			c := m.c()
			r := m.a(1)
			if !(r.op == "uf" && r.name == "bytes_reader") {
				m.e.fail("the reader is not known")
			}
			b := r.args[0]
			// the first 32 bytes are read; a shorter text is refused
			var out []callOut
			ok := c.UF(kind+"_ok", SBool, b)
			c.AddFact(ok, c.mk("=", "", SBool, []*Term{ok, c.Le(c.Int(32), c.Len(b))}))
			for _, o := range un(m, b) {
				v := o.any.(Val)
				out = append(out, callOut{o.st, Val{c.Int(32), v[0]}})
			}
			return out
		}
	}
	text("point")
	text("scalar")
	models["bytes.NewReader"] = func(m *mctx) []callOut {
		r := m.c().UF("bytes_reader", SInt, m.str(0))
		r.lo, r.hi = big.NewInt(1), refHi
		return m.ret(r)
	}
}

var _ types.Type
