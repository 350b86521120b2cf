package main

// Models of the ciphers: AES in cipher feedback mode, RSA with optimal asymmetric encryption
// padding, the encodings of RSA keys, and the source of randomness.

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// rawArg gives an argument as it was passed (a made slice keeps its identity).
func (m *mctx) cell(i int) *SliceCell {
	if i < len(m.raw) {
		if sc, ok := m.raw[i].(*SliceCell); ok {
			return sc
		}
	}
	m.e.fail("bytes overwritten in place that were not made here")
	return nil
}

// at reads what a pointer argument points to.
func (m *mctx) at(i int) *Term {
	t := m.ptr(i)
	return m.e.load(m.st, t)[0]
}
func (m *mctx) ptr(i int) *Addr {
	if a, ok := m.raw[i].(*Addr); ok {
		return a
	}
	r := m.args[i][0]
	m.e.guard(m.st, m.fr, "nil dereference", m.c().Not(m.c().Eq(r, m.c().Int(0))))
	var pt types.Type
	if rv := m.fn.Signature.Recv(); rv != nil {
		if i == 0 {
			pt = rv.Type()
		} else {
			pt = m.fn.Signature.Params().At(i - 1).Type()
		}
	} else {
		pt = m.fn.Signature.Params().At(i).Type()
	}
	return &Addr{ref: r, root: pt.Underlying().(*types.Pointer).Elem()}
}

// fill overwrites the first bytes of a made byte slice.
func (e *Exec) fill(st *State, dst *SliceCell, s, n *Term) {
	c := e.c
	a := &Addr{ref: dst.ref, root: dst.typ}
	old := e.load(st, a)
	nv := c.Cat(c.Substr(old[1], c.Int(0), dst.off), s, c.Substr(old[1], c.Add(dst.off, n), c.Sub(c.Sub(c.Len(old[1]), dst.off), n)))
	e.store(st, a, Val{old[0], nv})
}

// bytesCell turns bytes made by a call into a made slice, when they are overwritten in place.
func (e *Exec) bytesCell(p *Path, v Val, t types.Type) *SliceCell {
	a := e.newAddr()
	e.store(p.st, &Addr{ref: e.c.Int(a), root: t}, Val{v[0], v[1]})
	return &SliceCell{ref: e.c.Int(a), typ: t, off: e.c.Int(0), ln: e.c.Len(v[1]), nil_: v[0]}
}

// overwritten tells whether the bytes behind a value are overwritten in this function.
func overwritten(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Slice:
			if x.X == v && overwritten(x, seen) {
				return true
			}
		case *ssa.Phi:
			if overwritten(x, seen) {
				return true
			}
		case *ssa.IndexAddr:
			if x.X != v {
				continue
			}
			for _, q := range *x.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == x {
					return true
				}
			}
		case *ssa.Call:
			cc := x.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				if b.Name() == "copy" && cc.Args[0] == v {
					return true
				}
				continue
			}
			if cc.IsInvoke() {
				if cc.Method.Name() == "XORKeyStream" && cc.Args[0] == v {
					return true
				}
				continue
			}
			if fn := cc.StaticCallee(); fn != nil {
				if modelName(fn) == "io.ReadFull" && cc.Args[1] == v || modelName(fn) == "crypto/rand.Read" && cc.Args[0] == v {
					return true
				}
				if isRepoFn(fn) {
					for i, a := range cc.Args {
						if a == v && i < len(fn.Params) && overwritten(fn.Params[i], seen) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (m *mctx) drawCount() *Term {
	r := m.c().Select(m.e.heapArr(m.st, "ghost:draws", extInt), m.c().Int(1))
	if r.lo == nil {
		r.lo, r.hi = big.NewInt(0), big40
	}
	return r
}

// draw fills a slice with fresh random bytes, and notes what was drawn.
func (m *mctx) draw(dst *SliceCell) {
	c := m.c()
	s := c.Fresh("random", SStr)
	m.e.add(m.st, c.mk("=", "", SBool, []*Term{c.Len(s), dst.ln}))
	n := m.drawCount()
	m.e.heapWrite(m.st, "ghost:draw", extStr, n, s)
	m.e.heapWrite(m.st, "ghost:draws", extInt, c.Int(1), c.Add(n, c.Int(1)))
	m.e.fill(m.st, dst, s, dst.ln)
}

func addCipherModels() {
	randomFrom := func(arg int) model {
		return func(m *mctx) []callOut {
			c := m.c()
			dst := m.cell(arg)
			return m.fork(c.Fresh("drawn", SBool), func(st *State) []callOut {
				q := *m
				q.st = st
				q.draw(dst)
				return []callOut{{st, Val{dst.ln, c.Int(0)}}}
			}, func(st *State) []callOut {
				// some of the bytes may have been overwritten
				s := c.Fresh("partial", SStr)
				m.e.add(st, c.mk("=", "", SBool, []*Term{c.Len(s), dst.ln}))
				m.e.fill(st, dst, s, dst.ln)
				n := c.FreshB("n", big.NewInt(0), big40)
				m.e.add(st, c.Lt(n, c.Ite(c.Lt(c.Int(0), dst.ln), dst.ln, c.Int(1))))
				return []callOut{{st, Val{n, m.e.errVal(c.Str("random source"))}}}
			})
		}
	}
	models["io.ReadFull"] = func(m *mctx) []callOut {
		if m.args[0][0] != m.e.randReader(m.st) {
			m.e.fail("reading from something else than the random source")
		}
		return randomFrom(1)(m)
	}
	models["crypto/rand.Read"] = randomFrom(0)

	// AES
	models["crypto/aes.NewCipher"] = func(m *mctx) []callOut {
		c := m.c()
		k := m.str(0)
		n := c.Len(k)
		return m.fork(c.Or(c.Eq(n, c.Int(16)), c.Eq(n, c.Int(24)), c.Eq(n, c.Int(32))), func(st *State) []callOut {
			r := c.Int(m.e.newAddr())
			m.e.heapWrite(st, "ext:block", extStr, r, k)
			return []callOut{{st, Val{r, c.Int(0)}}}
		}, func(st *State) []callOut {
			return []callOut{{st, Val{c.Int(0), m.e.errVal(c.Str("aes key size"), n)}}}
		})
	}
	models["(crypto/cipher.Block).BlockSize"] = func(m *mctx) []callOut { return m.ret(m.c().Int(16)) }
	stream := func(op string) model {
		return func(m *mctx) []callOut {
			c := m.c()
			m.e.guard(m.st, m.fr, "nil dereference", c.Not(c.Eq(m.a(0), c.Int(0))))
			iv := m.str(1)
			m.e.guard(m.st, m.fr, "initialisation vector of a wrong length", c.Eq(c.Len(iv), c.Int(16)))
			a := m.e.newAddr()
			m.e.streams[a] = op
			r := c.Int(a)
			m.e.heapWrite(m.st, "ext:streamkey", extStr, r, c.Select(m.e.heapArr(m.st, "ext:block", extStr), m.a(0)))
			m.e.heapWrite(m.st, "ext:streamiv", extStr, r, iv)
			m.e.heapWrite(m.st, "ext:streamused", extInt, r, c.Int(0))
			return m.ret(r)
		}
	}
	for _, pk := range []string{"crypto/cipher."} {
		models[pk+"NewCFBEncrypter"] = stream("cfb_enc")
		models[pk+"NewCFBDecrypter"] = stream("cfb_dec")
		models[pk+"NewCTR"] = stream("ctr")
		models[pk+"NewOFB"] = stream("ofb")
	}
	inverse := map[string]string{"cfb_enc": "cfb_dec", "cfb_dec": "cfb_enc", "ctr": "ctr", "ofb": "ofb"}
	models["(crypto/cipher.Stream).XORKeyStream"] = func(m *mctx) []callOut {
		c := m.c()
		r := m.a(0)
		op := ""
		if r.op == "int" && r.iv.IsInt64() {
			op = m.e.streams[r.iv.Int64()]
		}
		if op == "" {
			m.e.fail("cipher stream of unknown origin")
		}
		sel := func(k string, cp Comp) *Term { return c.Select(m.e.heapArr(m.st, k, cp), r) }
		if u := sel("ext:streamused", extInt); u.op != "int" || u.iv.Sign() != 0 {
			m.e.fail("a cipher stream is used more than once")
		}
		dst := m.cell(1)
		if s, ok := m.raw[2].(*SliceCell); ok && s.ref == dst.ref && s.off != dst.off {
			m.e.fail("cipher stream over overlapping bytes")
		}
		src := m.str(2)
		n := c.Len(src)
		m.e.guard(m.st, m.fr, "cipher output shorter than its input", c.Le(n, dst.ln))
		out := c.UF(op, SStr, sel("ext:streamkey", extStr), sel("ext:streamiv", extStr), src)
		if !out.bound {
			c.AddFact(out, c.mk("=", "", SBool, []*Term{c.UF(inverse[op], SStr, out.args[0], out.args[1], out), src}))
			c.AddFact(out, c.mk("=", "", SBool, []*Term{c.Len(out), n}))
		}
		m.e.heapWrite(m.st, "ext:streamused", extInt, r, c.Int(1))
		m.e.fill(m.st, dst, out, n)
		return m.ret()
	}

	// RSA
	pub := func(m *mctx, k *Term) *Term { return m.e.rsaPub(k) }
	models["crypto/rsa.GenerateKey"] = func(m *mctx) []callOut {
		c := m.c()
		return m.fork(c.Fresh("generated", SBool), func(st *State) []callOut {
			r := c.Int(m.e.newAddr())
			k := c.Fresh("rsakey", SInt)
			m.e.add(st, c.UF("rsa_valid", SBool, k))
			m.e.add(st, c.UF("rsa_pubvalid", SBool, m.e.rsaPub(k)))
			m.e.store(st, &Addr{ref: r, root: m.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()}, Val{k})
			return []callOut{{st, Val{r, c.Int(0)}}}
		}, func(st *State) []callOut {
			return []callOut{{st, Val{c.Int(0), m.e.errVal(c.Str("rsa key generation"))}}}
		})
	}
	models["(*crypto/rsa.PrivateKey).Validate"] = func(m *mctx) []callOut {
		c := m.c()
		k := m.at(0)
		v := c.UF("rsa_valid", SBool, k)
		return m.fork(v, func(st *State) []callOut {
			m.e.add(st, c.UF("rsa_pubvalid", SBool, m.e.rsaPub(k)))
			return []callOut{{st, Val{c.Int(0)}}}
		}, func(st *State) []callOut {
			return []callOut{{st, Val{m.e.errVal(c.Str("rsa key"))}}}
		})
	}
	// keys are compared by value
	models["(*crypto/rsa.PublicKey).Equal"] = func(m *mctx) []callOut {
		return m.ret(m.c().Eq(m.at(0), m.keyOf(1)))
	}
	models["(*crypto/rsa.PrivateKey).Equal"] = models["(*crypto/rsa.PublicKey).Equal"]
	alg := func(m *mctx, i int) *Term {
		a := m.c().Select(m.e.heapArr(m.st, "ext:hashalg", extStr), m.a(i))
		if a.op != "str" {
			m.e.fail("hash algorithm is not known")
		}
		return a
	}
	models["crypto/rsa.EncryptOAEP"] = func(m *mctx) []callOut { // hash, random, pub, msg, label
		c := m.c()
		k := m.at(2)
		h, msg, label := alg(m, 0), m.str(3), m.str(4)
		fits := c.UF("oaep_fits", SBool, k, h, c.Len(msg))
		return m.fork(fits, func(st *State) []callOut {
			ct := c.UF("oaep", SStr, k, h, msg, label, c.Fresh("padding", SStr))
			if !ct.bound {
				c.AddFact(ct, c.UF("oaep_ok", SBool, k, h, label, ct))
				c.AddFact(ct, c.mk("=", "", SBool, []*Term{c.UF("oaep_text", SStr, k, h, label, ct), msg}))
			}
			return []callOut{{st, Val{c.F, ct, c.Int(0)}}}
		}, func(st *State) []callOut {
			return []callOut{{st, Val{c.T, c.Str(""), m.e.errVal(c.Str("message too long"))}}}
		})
	}
	models["crypto/rsa.DecryptOAEP"] = func(m *mctx) []callOut { // hash, random, priv, ciphertext, label
		c := m.c()
		k := m.at(2)
		h, ct, label := alg(m, 0), m.str(3), m.str(4)
		q := pub(m, k)
		ok := c.Ite(c.UF("rsa_valid", SBool, k), c.UF("oaep_ok", SBool, q, h, label, ct), c.UF("oaep_odd", SBool, k, h, label, ct))
		text := c.Ite(c.UF("rsa_valid", SBool, k), c.UF("oaep_text", SStr, q, h, label, ct), c.UF("oaep_oddtext", SStr, k, h, label, ct))
		return m.fork(ok, func(st *State) []callOut {
			return []callOut{{st, Val{c.F, text, c.Int(0)}}}
		}, func(st *State) []callOut {
			return []callOut{{st, Val{c.T, c.Str(""), m.e.errVal(c.Str("decryption error"))}}}
		})
	}

	// encodings of keys: what is encoded of a sound key is read back
	for _, kd := range []struct{ name, valid string }{{"Private", "rsa_valid"}, {"Public", "rsa_pubvalid"}} {
		kd := kd
		enc, ok, dec := "pkcs1_"+kd.name, "pkcs1_"+kd.name+"_ok", "pkcs1_"+kd.name+"_key"
		models["crypto/x509.MarshalPKCS1"+kd.name+"Key"] = func(m *mctx) []callOut {
			c := m.c()
			k := m.at(0)
			b := c.UF(enc, SStr, k)
			if !b.bound {
				c.AddFact(b, c.Imp(c.UF(kd.valid, SBool, k), c.And(c.UF(ok, SBool, b), c.mk("=", "", SBool, []*Term{c.UF(dec, SInt, b), k}))))
			}
			return m.ret(c.F, b)
		}
		models["crypto/x509.ParsePKCS1"+kd.name+"Key"] = func(m *mctx) []callOut {
			c := m.c()
			b := m.str(0)
			return m.fork(c.UF(ok, SBool, b), func(st *State) []callOut {
				r := c.Int(m.e.newAddr())
				k := c.UF(dec, SInt, b)
				if !k.bound {
					c.AddFact(k, c.Imp(c.UF(ok, SBool, b), c.UF(kd.valid, SBool, k)))
					if kd.name == "Private" {
						c.AddFact(k, c.Imp(c.UF(ok, SBool, b), c.UF("rsa_pubvalid", SBool, m.e.rsaPub(k))))
					}
				}
				m.e.store(st, &Addr{ref: r, root: m.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()}, Val{k})
				return []callOut{{st, Val{r, c.Int(0)}}}
			}, func(st *State) []callOut {
				return []callOut{{st, Val{c.Int(0), m.e.errVal(c.Str("not a key"), b)}}}
			})
		}
	}
}

func (e *Exec) rsaPub(k *Term) *Term { return e.c.UF("rsa_pub", SInt, k) }

// extRead reads a field of an external structure that is known by its value.
func (e *Exec) extRead(st types.Type, field int, v *Term) (Val, bool) {
	if tkey(st) == "crypto/rsa.PrivateKey" && st.Underlying().(*types.Struct).Field(field).Name() == "PublicKey" {
		return Val{e.rsaPub(v)}, true
	}
	return nil, false
}

// extFieldOf: a field of an external structure that is known by its value, when it is only read.
func (e *Exec) extFieldOf(p *Path, fr *frame, x *ssa.FieldAddr, st types.Type, base any) *Addr {
	if _, ok := e.extRead(st, x.Field, e.c.Int(0)); !ok {
		return nil
	}
	for _, r := range *x.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		if u, ok := r.(*ssa.UnOp); !ok || u.X != x {
			e.fail("field of an external structure used other than read")
		}
	}
	a, ok := base.(*Addr)
	if !ok {
		r := e.flat(p, base)[0]
		e.guard(p.st, fr, "nil dereference", e.c.Not(e.c.Eq(r, e.c.Int(0))))
		a = &Addr{ref: r, root: st}
	}
	v, _ := e.extRead(st, x.Field, e.load(p.st, a)[0])
	el := x.Type().Underlying().(*types.Pointer).Elem()
	n := &Addr{ref: e.c.Int(e.newAddr()), root: el}
	e.store(p.st, n, v)
	return n
}

// keyOf reads the key an interface holds a pointer to.
func (m *mctx) keyOf(i int) *Term {
	var pt types.Type = m.fn.Signature.Recv().Type()
	return m.e.load(m.st, &Addr{ref: m.args[i][0], root: pt.Underlying().(*types.Pointer).Elem()})[0]
}

func (e *Exec) randReader(st *State) *Term {
	pk := e.w.prog.ImportedPackage("crypto/rand")
	if pk == nil || pk.Var("Reader") == nil {
		return nil
	}
	g := pk.Var("Reader")
	a := e.globalAddr(st, g)
	return e.load(st, a)[0]
}

// freshBytes: calls that give bytes nobody else holds.
var freshBytes = map[string]bool{
	"(*encoding/base64.Encoding).DecodeString": true,
	"encoding/hex.DecodeString":                true,
}
