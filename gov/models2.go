package main

// Models of further library functions, mostly those a rewrite of the repository's code is likely
// to reach for.

import (
	"go/types"
	"math/big"
	"strings"
)

// textual library types: their value is the text written so far.
var textTypes = map[string]bool{"strings.Builder": true, "bytes.Buffer": true}

func isTextType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && textTypes[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
}

func addMoreModels() {
	root := func(m *mctx) *Addr {
		return &Addr{ref: m.a(0), root: m.fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()}
	}
	text := func(m *mctx) *Term { return m.e.load(m.st, root(m))[0] }
	write := func(piece func(m *mctx) *Term, ret func(m *mctx, s *Term) []*Term) model {
		return func(m *mctx) []callOut {
			s := piece(m)
			m.e.store(m.st, root(m), Val{m.c().Cat(text(m), s)})
			return m.ret(ret(m, s)...)
		}
	}
	str := func(m *mctx) *Term { return m.str(1) }
	byt := func(m *mctx) *Term { return m.e.byteStr(m.a(1)) }
	lenErr := func(m *mctx, s *Term) []*Term { return []*Term{m.c().Len(s), m.c().Int(0)} }
	onlyErr := func(m *mctx, s *Term) []*Term { return []*Term{m.c().Int(0)} }
	for _, t := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		models[t+"WriteString"] = write(str, lenErr)
		models[t+"Write"] = write(str, lenErr)
		models[t+"WriteByte"] = write(byt, onlyErr)
		models[t+"String"] = func(m *mctx) []callOut { return m.ret(text(m)) }
		models[t+"Len"] = func(m *mctx) []callOut { return m.ret(m.c().Len(text(m))) }
		models[t+"Grow"] = func(m *mctx) []callOut { return m.ret() }
		models[t+"Reset"] = func(m *mctx) []callOut {
			m.e.store(m.st, root(m), Val{m.c().Str("")})
			return m.ret()
		}
	}
	models["(*bytes.Buffer).Bytes"] = func(m *mctx) []callOut {
		return m.ret(m.c().UF("buffer_nil", SBool, text(m)), text(m))
	}
	models["fmt.Errorf"] = func(m *mctx) []callOut { return m.ret(m.e.errVal(m.e.sprintf(m))) }
	has := func(m *mctx) []callOut {
		return m.ret(m.c().mk("str.contains", "", SBool, []*Term{m.str(0), m.str(1)}))
	}
	models["strings.Contains"], models["bytes.Contains"] = has, has
	index := func(m *mctx) []callOut {
		r := m.c().S("str.indexof", SInt, m.str(0), m.str(1), m.c().Int(0))
		if r.lo == nil {
			r.lo, r.hi = big.NewInt(-1), big40
		}
		return m.ret(r)
	}
	models["strings.Index"], models["bytes.Index"] = index, index
	suffix := func(m *mctx) []callOut {
		return m.ret(m.c().SuffixOf(m.str(1), m.str(0)))
	}
	models["bytes.HasSuffix"] = suffix
	trimPrefix := func(m *mctx) *Term {
		c := m.c()
		return c.Ite(c.PrefixOf(m.str(1), m.str(0)), c.Substr(m.str(0), c.Len(m.str(1)), c.Sub(c.Len(m.str(0)), c.Len(m.str(1)))), m.str(0))
	}
	trimSuffix := func(m *mctx) *Term {
		c := m.c()
		ends := c.SuffixOf(m.str(1), m.str(0))
		return c.Ite(ends, c.Substr(m.str(0), c.Int(0), c.Sub(c.Len(m.str(0)), c.Len(m.str(1)))), m.str(0))
	}
	models["strings.TrimPrefix"] = func(m *mctx) []callOut { return m.ret(trimPrefix(m)) }
	models["strings.TrimSuffix"] = func(m *mctx) []callOut { return m.ret(trimSuffix(m)) }
	dec := func(m *mctx) []callOut {
		if m.a(1).op != "int" || m.a(1).iv.Cmp(big.NewInt(10)) != 0 {
			m.e.fail("base of %s", m.fn)
		}
		return m.ret(m.e.itoa(m.a(0)))
	}
	models["strconv.FormatInt"], models["strconv.FormatUint"] = dec, dec
}

// solidEnd tells whether a text surely begins (ends) with a character that is not a space.
func solidEnd(t *Term, begin bool) bool {
	switch {
	case t.op == "str":
		if t.name == "" {
			return false
		}
		ch := t.name[0]
		if !begin {
			ch = t.name[len(t.name)-1]
		}
		return ch > ' ' && ch < 0x7f
	case t.op == "uf" && t.name == "itoa":
		return true
	case t.op == "ite":
		return solidEnd(t.args[1], begin) && solidEnd(t.args[2], begin)
	case t.op == "str.++":
		if begin {
			return solidEnd(t.args[0], begin)
		}
		return solidEnd(t.args[len(t.args)-1], begin)
	}
	return false
}

// trimSpace drops the spaces around a text. Where the text is known to be something that neither
// begins nor ends with a space, between two others, it is told whether these are only spaces.
func trimSpace(m *mctx) []callOut {
	c := m.c()
	s := m.str(0)
	trim := func(s *Term) *Term {
		if s.op == "str" {
			return c.Str(strings.TrimSpace(s.name))
		}
		if solidEnd(s, true) && solidEnd(s, false) {
			return s
		}
		r := c.UF("trim", SStr, s)
		if s.op == "uf" && s.name == "trim" {
			return s
		}
		if !r.bound {
			c.AddFact(r, c.mk("str.contains", "", SBool, []*Term{s, r}))
			c.AddFact(r, c.mk("=", "", SBool, []*Term{c.UF("trim", SStr, r), r}))
		}
		return r
	}
	ps := c.parts(s)
	lo, hi := 0, len(ps)
	for lo < hi && !solidEnd(ps[lo], true) {
		lo++
	}
	for hi > lo && !solidEnd(ps[hi-1], false) {
		hi--
	}
	if lo < hi && (lo > 0 || hi < len(ps)) {
		blank := c.Str("")
		g := c.And(c.Eq(trim(c.Cat(ps[:lo]...)), blank), c.Eq(trim(c.Cat(ps[hi:]...)), blank))
		return m.fork(g, func(st *State) []callOut {
			return []callOut{{st, Val{c.Cat(ps[lo:hi]...)}}}
		}, func(st *State) []callOut {
			return []callOut{{st, Val{trim(s)}}}
		})
	}
	return m.ret(trim(s))
}
