package main

// Models of the external functions the repository calls. Each is an assumption, listed in the
// evidence of every property that meets it.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type mctx struct {
	e    *Exec
	p    *Path
	st   *State
	fr   *frame
	fn   *ssa.Function
	args []Val
	raw  []any // the arguments as passed
	sig  *types.Signature
}

type model func(m *mctx) []callOut

func (m *mctx) ret(v ...*Term) []callOut { return []callOut{{m.st, Val(v)}} }
func (m *mctx) c() *Ctx                  { return m.e.c }
func (m *mctx) a(i int) *Term            { return m.args[i][0] }

// str gives the text of a string or byte slice argument.
func (m *mctx) str(i int) *Term { v := m.args[i]; return v[len(v)-1] }

func (e *Exec) errVal(parts ...*Term) *Term {
	r := e.c.UF("err_text", SInt, parts...)
	r.typ = "error!"
	r.lo, r.hi = new(big.Int).Neg(pow2(60)), big.NewInt(-1)
	return r
}

// fork continues under g with then and under not g with els.
func (m *mctx) fork(g *Term, then, els func(st *State) []callOut) []callOut {
	var out []callOut
	e := m.e
	if g == e.c.T {
		return then(m.st)
	}
	if g == e.c.F {
		return els(m.st)
	}
	s1, s2 := m.st, m.st.clone()
	f1, f2 := e.feasible(s1, g), e.feasible(s2, e.c.Not(g))
	if f1 {
		e.add(s1, g)
		out = append(out, then(s1)...)
	}
	if f2 {
		e.add(s2, e.c.Not(g))
		out = append(out, els(s2)...)
	}
	return out
}

// pure uninterpreted string function
func ufS(name string) model {
	return func(m *mctx) []callOut {
		var as []*Term
		for _, a := range m.args {
			as = append(as, a...)
		}
		return []callOut{{m.st, m.e.ufResult(name, m.sig.Results(), as)}}
	}
}

// itoa: decimal text of an integer; injective, never empty.
func (e *Exec) itoa(n *Term) *Term {
	c := e.c
	if n.op == "int" {
		return c.Str(n.iv.String())
	}
	r := c.UF("itoa", SStr, n)
	if r.bound {
		return r
	}
	c.AddFact(r, c.mk("=", "", SBool, []*Term{c.UF("atoi_val", SInt, r), n}))
	c.AddFact(r, c.UF("atoi_ok", SBool, r))
	c.AddFact(r, c.mk("<=", "", SBool, []*Term{c.Int(1), c.Len(r)}))
	if c.nonneg(n) {
		c.AddFact(r, c.mk("=", "", SBool, []*Term{c.mk("str.to_int", "", SInt, []*Term{r}), n}))
		c.AddFact(r, c.mk("=", "", SBool, []*Term{r, c.mk("str.from_int", "", SStr, []*Term{n})}))
	} else {
		pos := c.mk("=", "", SBool, []*Term{r, c.mk("str.from_int", "", SStr, []*Term{n})})
		neg := c.mk("=", "", SBool, []*Term{r, c.Cat(c.Str("-"), c.mk("str.from_int", "", SStr, []*Term{c.Sub(c.Int(0), n)}))})
		c.AddFact(r, c.Imp(c.Le(c.Int(0), n), pos))
		c.AddFact(r, c.Imp(c.Lt(n, c.Int(0)), neg))
	}
	return r
}

// sprintf expands constant formats with %s, %d, %x, %t.
func (e *Exec) sprintf(m *mctx) *Term {
	c := e.c
	f := m.a(0)
	va := m.args[1] // []any: nil off len arr
	gen := func() *Term {
		as := []*Term{f}
		as = append(as, va[2:]...)
		return c.UF("sprintf", SStr, as...)
	}
	if f.op != "str" {
		return gen()
	}
	var out []*Term
	k := int64(0)
	s := f.name
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			out = append(out, c.Str(string(s[i])))
			continue
		}
		i++
		if i >= len(s) {
			return gen()
		}
		if s[i] == '%' {
			out = append(out, c.Str("%"))
			continue
		}
		el := c.Select(va[3], c.Add(va[1], c.Int(k)))
		k++
		t := ""
		if el.op == "uf" && strings.HasPrefix(el.name, "box_") {
			t = el.typ
		}
		d := e.w.typeOf(t)
		if d == nil {
			return gen()
		}
		u := e.unbox(el, d)
		b, _ := d.Underlying().(*types.Basic)
		switch {
		case s[i] == 's' && b != nil && b.Info()&types.IsString != 0:
			out = append(out, u[0])
		case s[i] == 'd' && b != nil && b.Info()&types.IsInteger != 0:
			out = append(out, e.itoa(u[0]))
		case s[i] == 'x' && isByteSlice(d):
			out = append(out, e.hexOf(u[1]))
		default:
			out = append(out, c.UF("fmt_"+string(s[i])+"_"+t, SStr, u...))
		}
	}
	return c.Cat(out...)
}

// hexOf: lower-case hexadecimal; decoding it gives the bytes back.
func (e *Exec) hexOf(s *Term) *Term {
	c := e.c
	r := c.UF("hex_enc", SStr, s)
	if !r.bound {
		c.AddFact(r, c.mk("=", "", SBool, []*Term{c.UF("hex_dec", SStr, r), s}))
		c.AddFact(r, c.UF("hex_ok", SBool, r))
		c.AddFact(r, c.mk("=", "", SBool, []*Term{c.Len(r), c.Mul(c.Int(2), c.Len(s))}))
	}
	return r
}

// encDec models an encoding of bytes as text and its inverse; a receiver (the alphabet in use)
// belongs to both.
func encDec(enc, dec, ok string) (model, model) {
	all := func(m *mctx) []*Term {
		as := []*Term{m.str(len(m.args) - 1)}
		for i := 0; i+1 < len(m.args); i++ {
			as = append(as, m.args[i]...)
		}
		return as
	}
	return func(m *mctx) []callOut { // encode
			c := m.c()
			as := all(m)
			if len(as) == 1 && enc == "hex_enc" {
				return m.ret(m.e.hexOf(as[0]))
			}
			r := c.UF(enc, SStr, as...)
			if !r.bound {
				ds := append([]*Term{r}, as[1:]...)
				c.AddFact(r, c.mk("=", "", SBool, []*Term{c.UF(dec, SStr, ds...), as[0]}))
				c.AddFact(r, c.UF(ok, SBool, ds...))
			}
			return m.ret(r)
		}, func(m *mctx) []callOut { // decode
			c := m.c()
			as := all(m)
			s := as[0]
			if s.op == "uf" && s.name == enc && len(s.args) == len(as) {
				same := true
				for i := 1; i < len(as); i++ {
					same = same && as[i] == s.args[i]
				}
				if same {
					return []callOut{{m.st, Val{c.F, s.args[0], c.Int(0)}}}
				}
			}
			d := c.UF(dec, SStr, as...)
			return m.fork(c.UF(ok, SBool, as...), func(st *State) []callOut {
				return []callOut{{st, Val{c.F, d, c.Int(0)}}}
			}, func(st *State) []callOut {
				return []callOut{{st, Val{c.UF(dec+"_nil", SBool, as...), c.UF(dec+"_part", SStr, as...), m.e.errVal(append([]*Term{c.Str(dec)}, as...)...)}}}
			})
		}
}

// freeOf tells whether a text cannot contain the character.
func (e *Exec) freeOf(t *Term, ch byte) bool {
	switch {
	case t.op == "str":
		return strings.IndexByte(t.name, ch) < 0
	case t.op == "str.++" || t.op == "ite":
		for i, a := range t.args {
			if t.op == "ite" && i == 0 {
				continue
			}
			if !e.freeOf(a, ch) {
				return false
			}
		}
		return true
	case t.op == "uf" && t.name == "hex_enc":
		return strings.IndexByte("0123456789abcdef", ch) < 0
	case t.op == "uf" && t.name == "itoa":
		return strings.IndexByte("-0123456789", ch) < 0
	case t.op == "uf" && t.name == "b64_enc":
		return !(ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || strings.IndexByte("+/-_=", ch) >= 0)
	case t.op == "uf" && e.cats[t.id] != nil:
		return e.freeOf(e.cats[t.id].body, ch)
	}
	return false
}

// splitKnown splits a text whose pieces are known to hold the separator or not.
func (e *Exec) splitKnown(s *Term, ch byte, free map[*Term]bool) (*Term, *Term, bool) {
	c := e.c
	ps := c.parts(s)
	if len(ps) == 1 && ps[0].op == "uf" && e.cats[ps[0].id] != nil {
		// pieces each ending with the separator, then nothing
		ci := e.cats[ps[0].id]
		bp := c.parts(ci.body)
		l := len(bp) - 1
		if l >= 0 && bp[l].op == "str" && bp[l].name == string(ch) && e.freeOf(c.Cat(bp[:l]...), ch) {
			ar := c.Fresh("split_el", arr(SStr))
			n := c.Ite(c.Le(ci.n, c.Int(0)), c.Int(0), ci.n)
			q := c.BVar2("sk")
			c.AddFact(ar, c.Quant("forall", q, c.Imp(c.And(c.Le(c.Int(0), q), c.Lt(q, n)), c.Eq(c.Select(ar, q), c.Subst(c.Cat(bp[:l]...), ci.i, q)))))
			c.AddFact(ar, c.Eq(c.Select(ar, n), c.Str("")))
			return c.Add(n, c.Int(1)), ar, true
		}
	}
	segs := [][]*Term{{}}
	for _, p := range ps {
		if p.op == "str" {
			for i, x := range strings.Split(p.name, string(ch)) {
				if i > 0 {
					segs = append(segs, nil)
				}
				segs[len(segs)-1] = append(segs[len(segs)-1], c.Str(x))
			}
			continue
		}
		if !free[p] && !e.freeOf(p, ch) {
			return nil, nil, false
		}
		segs[len(segs)-1] = append(segs[len(segs)-1], p)
	}
	ar := c.UF("split_none", arr(SStr))
	for i, g := range segs {
		ar = c.Store(ar, c.Int(int64(i)), c.Cat(g...))
	}
	return c.Int(int64(len(segs))), ar, true
}

// parseInt models the strconv parsers: an error or the number written.
func parse(name string, lo, hi *big.Int) model {
	return func(m *mctx) []callOut {
		c := m.c()
		s := m.str(0)
		v := c.UF("atoi_val", SInt, s)
		lo, hi := lo, hi
		if len(m.args) > 2 && m.a(2).op == "int" {
			if n := uint(m.a(2).iv.Int64()); n > 0 && n < 64 {
				if name == "ParseUint" {
					hi = new(big.Int).Sub(pow2(n), one)
				} else {
					lo, hi = new(big.Int).Neg(pow2(n-1)), new(big.Int).Sub(pow2(n-1), one)
				}
			}
		}
		ok := c.And(c.UF("atoi_ok", SBool, s), c.Le(c.Big(lo), v), c.Le(v, c.Big(hi)))
		if len(m.args) > 2 && m.a(2).op != "int" {
			// a size known only as a term: 0 stands for 64
			b := m.a(2)
			half := c.UF("half_range", SInt, b)
			for _, k := range []uint{8, 16, 32} {
				c.AddFact(half, c.Imp(c.mk("=", "", SBool, []*Term{b, c.Int(int64(k))}), c.mk("=", "", SBool, []*Term{half, c.Big(pow2(k - 1))})))
			}
			full := c.Or(c.Eq(b, c.Int(0)), c.Eq(b, c.Int(64)))
			c.AddFact(half, c.Imp(full, c.mk("=", "", SBool, []*Term{half, c.Big(pow2(63))})))
			c.AddFact(half, c.And(c.mk("<=", "", SBool, []*Term{c.Int(1), half}), c.mk("<=", "", SBool, []*Term{half, c.Big(pow2(63))})))
			top := c.Sub(half, c.Int(1))
			if name == "ParseUint" {
				top = c.Sub(c.Add(half, half), c.Int(1))
			} else {
				ok = c.And(ok, c.Le(c.Sub(c.Int(0), half), v))
			}
			ok = c.And(ok, c.Le(c.Int(0), b), c.Le(b, c.Int(64)), c.Le(v, top))
		}
		if name == "ParseUint" {
			// no sign is allowed
			ok = c.And(ok, c.Not(c.PrefixOf(c.Str("-"), s)), c.Not(c.PrefixOf(c.Str("+"), s)))
		}
		if len(m.args) > 1 && !(m.a(1).op == "int" && m.a(1).iv.Cmp(big.NewInt(10)) == 0) {
			m.e.fail("base of %s", name)
		}
		digits(m.e, s)
		return m.fork(ok, func(st *State) []callOut {
			r := v
			if r.lo == nil {
				// the path knows the range
			}
			return []callOut{{st, Val{r, c.Int(0)}}}
		}, func(st *State) []callOut {
			x := c.UF(name+"_bad", SInt, s)
			x.lo, x.hi = lo, hi
			return []callOut{{st, Val{x, m.e.errVal(c.Str(name), s)}}}
		})
	}
}

// digits relates the parsed value to the text: decimal digits, an optional sign.
func digits(e *Exec, s *Term) {
	c := e.c
	if s.bound {
		return
	}
	v, ok := c.UF("atoi_val", SInt, s), c.UF("atoi_ok", SBool, s)
	if s.op == "str" {
		n, good := new(big.Int).SetString(s.name, 10)
		if strings.HasPrefix(s.name, "+") {
			n, good = new(big.Int).SetString(s.name[1:], 10)
		}
		if strings.ContainsAny(s.name, "_ ") {
			good = false
		}
		c.AddFact(ok, c.Eq(ok, c.Bool(good)))
		if good {
			c.AddFact(v, c.mk("=", "", SBool, []*Term{v, c.Big(n)}))
		}
		return
	}
	if s.op == "str.++" && s.args[0].op == "str" && s.args[0].name == "-" {
		// a sign before a number
		t := c.Cat(s.args[1:]...)
		if t.op != "str" {
			signed := c.Or(c.PrefixOf(c.Str("-"), t), c.PrefixOf(c.Str("+"), t))
			vt, okt := c.UF("atoi_val", SInt, t), c.UF("atoi_ok", SBool, t)
			c.AddFact(ok, c.Eq(ok, c.And(okt, c.Not(signed))))
			c.AddFact(ok, c.Imp(ok, c.mk("=", "", SBool, []*Term{v, c.Sub(c.Int(0), vt)})))
			digits(e, t)
		}
	}
	neg := c.PrefixOf(c.Str("-"), s)
	c.AddFact(ok, c.Imp(c.And(ok, c.Not(neg)), c.Le(c.Int(0), v)))
	c.AddFact(ok, c.Imp(c.And(ok, neg), c.Le(v, c.Int(0))))
	c.AddFact(ok, c.Imp(c.Eq(s, c.Str("")), c.Not(ok)))
	c.AddFact(ok, c.Imp(c.Not(c.Or(neg, c.PrefixOf(c.Str("+"), s))), c.Eq(ok, c.mk("<=", "", SBool, []*Term{c.Int(0), c.mk("str.to_int", "", SInt, []*Term{s})}))))
	c.AddFact(ok, c.Imp(c.And(ok, c.Not(c.Or(neg, c.PrefixOf(c.Str("+"), s)))), c.mk("=", "", SBool, []*Term{v, c.mk("str.to_int", "", SInt, []*Term{s})})))
}

var models map[string]model

func init() {
	hexE, hexD := encDec("hex_enc", "hex_dec", "hex_ok")
	b64E, b64D := encDec("b64_enc", "b64_dec", "b64_ok")
	_ = hexE
	i64lo, i64hi := new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), one)
	u64hi := new(big.Int).Sub(pow2(64), one)
	fixedLen["sha512"] = 64
	fixedLen["sha256"] = 32
	models = map[string]model{
		"errors.New":  func(m *mctx) []callOut { return m.ret(m.e.errVal(m.str(0))) },
		"fmt.Sprintf": func(m *mctx) []callOut { return m.ret(m.e.sprintf(m)) },
		"(error).Error": func(m *mctx) []callOut {
			r := m.c().UF("error_text", SStr, m.a(0))
			return m.ret(r)
		},
		"log.Printf":        func(m *mctx) []callOut { return m.ret() },
		"strconv.Itoa":      func(m *mctx) []callOut { return m.ret(m.e.itoa(m.a(0))) },
		"strconv.Atoi":      parse("Atoi", i64lo, i64hi),
		"strconv.ParseInt":  parse("ParseInt", i64lo, i64hi),
		"strconv.ParseUint": parse("ParseUint", big.NewInt(0), u64hi),
		"strconv.ParseFloat": func(m *mctx) []callOut {
			c := m.c()
			s := m.str(0)
			return m.fork(c.UF("float_ok", SBool, s), func(st *State) []callOut {
				return []callOut{{st, Val{c.UF("float_val", SReal, s, m.a(1)), c.Int(0)}}}
			}, func(st *State) []callOut {
				return []callOut{{st, Val{c.UF("float_bad", SReal, s), m.e.errVal(c.Str("ParseFloat"), s)}}}
			})
		},
		"(*encoding/base64.Encoding).EncodeToString": b64E,
		"(*encoding/base64.Encoding).DecodeString":   b64D,
		"encoding/hex.DecodeString":                  hexD,
		"encoding/hex.EncodeToString":                func(m *mctx) []callOut { return m.ret(m.e.hexOf(m.str(0))) },
		"bytes.Compare": func(m *mctx) []callOut {
			c := m.c()
			a, b := m.str(0), m.str(1)
			r := c.UF("bytes_cmp", SInt, a, b)
			r.lo, r.hi = big.NewInt(-1), big.NewInt(1)
			c.AddFact(r, c.Eq(c.mk("=", "", SBool, []*Term{r, c.Int(0)}), c.Eq(a, b)))
			if a == b {
				return m.ret(c.Int(0))
			}
			return m.ret(r)
		},
		"bytes.Equal":     func(m *mctx) []callOut { return m.ret(m.c().Eq(m.str(0), m.str(1))) },
		"bytes.HasPrefix": func(m *mctx) []callOut { return m.ret(m.c().PrefixOf(m.str(1), m.str(0))) },
		"bytes.Join": func(m *mctx) []callOut {
			return m.joinM(true)
		},
		"strings.Join":      func(m *mctx) []callOut { return m.joinM(false) },
		"strings.HasPrefix": func(m *mctx) []callOut { return m.ret(m.c().PrefixOf(m.str(1), m.str(0))) },
		"strings.HasSuffix": func(m *mctx) []callOut {
			return m.ret(m.c().SuffixOf(m.str(1), m.str(0)))
		},
		"strings.TrimSpace": trimSpace,
		"strings.Replace": func(m *mctx) []callOut {
			c := m.c()
			n := m.a(3)
			if n.op == "int" && n.iv.Sign() < 0 {
				return m.ret(c.mk("str.replace_all", "", SStr, []*Term{m.str(0), m.str(1), m.str(2)}))
			}
			return m.ret(c.UF("replace_n", SStr, m.str(0), m.str(1), m.str(2), n))
		},
		"strings.Split": func(m *mctx) []callOut {
			c := m.c()
			s, sep := m.str(0), m.str(1)
			if sep.op == "str" && len(sep.name) == 1 {
				if n, ar, ok := m.e.splitKnown(s, sep.name[0], nil); ok {
					return m.ret(c.F, c.Int(0), n, ar)
				}
				// unknown pieces around a known separator: they hold none of their own, or it is opaque
				free := map[*Term]bool{}
				seen := false
				g := c.T
				for _, p := range c.parts(s) {
					if p.op == "str" {
						seen = seen || strings.Contains(p.name, sep.name)
					} else if !m.e.freeOf(p, sep.name[0]) {
						free[p] = true
						g = c.And(g, c.Not(c.mk("str.contains", "", SBool, []*Term{p, sep})))
					}
				}
				if seen && !s.bound {
					return m.fork(g, func(st *State) []callOut {
						n, ar, ok := m.e.splitKnown(s, sep.name[0], free)
						if !ok {
							m.e.fail("split of %s", c.show(s))
						}
						return []callOut{{st, Val{c.F, c.Int(0), n, ar}}}
					}, func(st *State) []callOut {
						n := c.UF("split_n", SInt, s, sep)
						n.lo, n.hi = big.NewInt(1), big40
						ar := c.UF("split_el", arr(SStr), s, sep)
						splitFacts(m.e, s, sep, n, ar)
						return []callOut{{st, Val{c.F, c.Int(0), n, ar}}}
					})
				}
			}
			n := c.UF("split_n", SInt, s, sep)
			n.lo, n.hi = big.NewInt(1), big40
			ar := c.UF("split_el", arr(SStr), s, sep)
			splitFacts(m.e, s, sep, n, ar)
			return m.ret(c.F, c.Int(0), n, ar)
		},
		"math/rand.Int": func(m *mctx) []callOut {
			return m.ret(m.c().FreshB("rand", big.NewInt(0), i64hi))
		},
		"path/filepath.Join": ufS("filepath_join"),
		"math.Log":           ufS("math_log"), "math.Ceil": ufS("math_ceil"), "math.Pow": ufS("math_pow"),
		"(github.com/google/uuid.UUID).String": ufS("uuid_string"),
		// time: an instant in nanoseconds
		"(time.Time).UTC": func(m *mctx) []callOut { return m.ret(m.a(0)) },
		"(time.Time).Before": func(m *mctx) []callOut {
			return m.ret(m.c().Lt(m.e.instant(m.a(0)), m.e.instant(m.a(1))))
		},
		"(time.Time).After": func(m *mctx) []callOut {
			return m.ret(m.c().Lt(m.e.instant(m.a(1)), m.e.instant(m.a(0))))
		},
		"(time.Time).Equal": func(m *mctx) []callOut {
			return m.ret(m.c().Eq(m.e.instant(m.a(1)), m.e.instant(m.a(0))))
		},
		"(time.Time).UnixNano": func(m *mctx) []callOut { return m.ret(m.e.instant(m.a(0))) },
		"(time.Time).Unix": func(m *mctx) []callOut {
			c := m.c()
			i := m.e.instant(m.a(0))
			r := c.UF("time_unix", SInt, i)
			r.lo, r.hi = i64lo, i64hi
			if !r.bound {
				c.AddFact(r, c.And(c.Le(c.Mul(r, c.Int(1000000000)), i), c.Lt(i, c.Add(c.Mul(r, c.Int(1000000000)), c.Int(1000000000)))))
			}
			return m.ret(r)
		},
		"(time.Time).String": func(m *mctx) []callOut { return m.ret(m.c().UF("time_text", SStr, m.a(0))) },
		"(time.Time).IsZero": func(m *mctx) []callOut { return m.ret(m.c().UF("time_iszero", SBool, m.a(0))) },
		// hashes
		"crypto/sha512.New":    newHash("sha512"),
		"crypto/sha256.New":    newHash("sha256"),
		"crypto/sha512.Sum512": func(m *mctx) []callOut { return m.ret(m.c().UF("sha512", SStr, m.str(0))) },
	}
	models["(hash.Hash).Write"] = hashWrite
	models["(hash.Hash).Sum"] = hashSum
	models["(hash.Hash).Reset"] = func(m *mctx) []callOut {
		m.e.heapWrite(m.st, "ext:hash", extStr, m.a(0), m.c().Str(""))
		return m.ret()
	}
	models["(io.Writer).Write"] = hashWrite
	addCryptoModels()
	addMoreModels()
	addCipherModels()
}

func (e *Exec) instant(t *Term) *Term {
	r := e.c.UF("time_instant", SInt, t)
	if r.lo == nil {
		r.lo, r.hi = new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), one)
	}
	return r
}

var extStr = Comp{sort: SStr, kind: KStr}
var extInt = Comp{sort: SInt, kind: KOpaque}

// hash.Hash objects: the bytes written so far, per object; the algorithm is a tag of the object.
func newHash(alg string) model {
	return func(m *mctx) []callOut {
		a := m.e.newAddr()
		r := m.c().Int(a)
		m.e.heapWrite(m.st, "ext:hash", extStr, r, m.c().Str(""))
		m.e.heapWrite(m.st, "ext:hashalg", extStr, r, m.c().Str(alg))
		return m.ret(r)
	}
}
func hashWrite(m *mctx) []callOut {
	c := m.c()
	old := c.Select(m.e.heapArr(m.st, "ext:hash", extStr), m.a(0))
	m.e.heapWrite(m.st, "ext:hash", extStr, m.a(0), c.Cat(old, m.str(1)))
	return m.ret(c.Len(m.str(1)), c.Int(0))
}
func hashSum(m *mctx) []callOut {
	c := m.c()
	old := c.Select(m.e.heapArr(m.st, "ext:hash", extStr), m.a(0))
	alg := c.Select(m.e.heapArr(m.st, "ext:hashalg", extStr), m.a(0))
	if alg.op != "str" {
		m.e.fail("hash algorithm is not known")
	}
	return m.ret(c.F, c.Cat(m.str(1), c.UF(alg.name, SStr, old)))
}

// joinM: concatenation of a list of strings or byte slices with a separator.
func (m *mctx) joinM(isBytes bool) []callOut {
	c := m.c()
	v := m.args[0]
	sep := m.str(1)
	ar := v[len(v)-1]
	n := v[2]
	var r *Term
	if n.op == "int" && n.iv.Int64() < 20 {
		var ps []*Term
		for i := int64(0); i < n.iv.Int64(); i++ {
			if i > 0 {
				ps = append(ps, sep)
			}
			ps = append(ps, c.Select(ar, c.Add(v[1], c.Int(i))))
		}
		r = c.Cat(ps...)
	} else {
		i := c.FreshB("q", big.NewInt(0), big40)
		el := c.Select(ar, c.Add(v[1], i))
		if sep.op == "str" && sep.name == "" {
			r = m.e.catTerm(el, i, n, 1)
		} else {
			// every element followed by the separator, minus the last separator
			full := m.e.catTerm(c.Cat(el, sep), i, c.Sub(n, c.Int(1)), 1)
			last := c.Select(ar, c.Add(v[1], c.Sub(n, c.Int(1))))
			r = c.Ite(c.Le(n, c.Int(0)), c.Str(""), c.Cat(full, last))
		}
	}
	if isBytes {
		return m.ret(c.F, r)
	}
	return m.ret(r)
}

// splitFacts: joining the pieces gives the text back; the number of pieces is told by the separators.
func splitFacts(e *Exec, s, sep, n, ar *Term) {
	c := e.c
	if s.bound || sep.op == "str" && sep.name == "" {
		return
	}
	has := c.mk("str.contains", "", SBool, []*Term{s, sep})
	if sep.op != "str" {
		// an empty separator splits into characters
		some := c.Not(c.Eq(sep, c.Str("")))
		has0 := has
		has = c.And(has0, some)
		c.AddFact(n, c.Imp(c.And(some, c.Not(has0)), c.And(c.Eq(n, c.Int(1)), c.Eq(c.Select(ar, c.Int(0)), s))))
	}
	e0, e1 := c.Select(ar, c.Int(0)), c.Select(ar, c.Int(1))
	if sep.op == "str" {
		c.AddFact(n, c.Imp(c.Not(has), c.And(c.Eq(n, c.Int(1)), c.Eq(e0, s))))
	}
	c.AddFact(n, c.Imp(has, c.Le(c.Int(2), n)))
	// the first piece ends at the first separator
	ix := c.S("str.indexof", SInt, s, sep, c.Int(0))
	c.AddFact(n, c.Imp(has, c.Eq(e0, c.mk("str.substr", "", SStr, []*Term{s, c.Int(0), ix}))))
	rest := c.mk("str.substr", "", SStr, []*Term{s, c.Add(ix, c.Len(sep)), c.Sub(c.Sub(c.Len(s), ix), c.Len(sep))})
	has2 := c.mk("str.contains", "", SBool, []*Term{rest, sep})
	c.AddFact(n, c.Imp(has, c.Eq(c.Eq(n, c.Int(2)), c.Not(has2))))
	c.AddFact(n, c.Imp(c.And(has, c.Not(has2)), c.Eq(e1, rest)))
}

func (e *Exec) extField(p *Path, fr *frame, x *ssa.FieldAddr, base any) any {
	st := x.X.Type().Underlying().(*types.Pointer).Elem()
	v := e.flat(p, base)
	el := x.Type().Underlying().(*types.Pointer).Elem()
	// the field of an external object: one value per object
	name := fmt.Sprintf("extfield_%s_%d", tkey(st), x.Field)
	r := e.c.UF(name, SInt, v[0])
	if r.lo == nil {
		r.lo, r.hi = big.NewInt(1), refHi
	}
	return &Addr{ref: r, root: el}
}

var _ = fmt.Sprint
