package main

// Go types are flattened to a list of components, each of one SMT sort.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
	"sync"
)

type Kind int

const (
	KBool Kind = iota
	KInt
	KStr
	KRef // pointers, maps, functions, interfaces
	KFlt
	KOpaque // external struct value
)

type Comp struct {
	path  string
	sort  Sort
	kind  Kind // kind of the innermost element
	lo    *big.Int
	hi    *big.Int
	typ   types.Type // innermost Go type
	role  string     // "", "nil", "off", "len", "arr"
	flen  int        // fixed length of string components ([N]byte)
	depth int
}

const repoPath = "github.com/steve-care-software/steve"

var tcache sync.Map

func isRepo(pkg *types.Package) bool {
	return pkg != nil && (pkg.Path() == repoPath || strings.HasPrefix(pkg.Path(), repoPath+"/"))
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}
func isByteArray(t types.Type) bool {
	s, ok := t.Underlying().(*types.Array)
	return ok && isByte(s.Elem())
}

var (
	two   = big.NewInt(2)
	one   = big.NewInt(1)
	refHi = big.NewInt(999_999)
)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(one, n) }

func intBounds(b *types.Basic) (*big.Int, *big.Int, bool) {
	u := func(n uint) (*big.Int, *big.Int, bool) { return big.NewInt(0), new(big.Int).Sub(pow2(n), one), true }
	s := func(n uint) (*big.Int, *big.Int, bool) {
		return new(big.Int).Neg(pow2(n - 1)), new(big.Int).Sub(pow2(n-1), one), true
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return s(64)
	case types.Int32, types.UntypedRune:
		return s(32)
	case types.Int16:
		return s(16)
	case types.Int8:
		return s(8)
	case types.Uint, types.Uint64, types.Uintptr:
		return u(64)
	case types.Uint32:
		return u(32)
	case types.Uint16:
		return u(16)
	case types.Uint8:
		return u(8)
	}
	return nil, nil, false
}

// external named struct types are opaque values
func isOpaque(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); ok {
		return !isRepo(n.Obj().Pkg())
	}
	return false
}

func compsOf(t types.Type) []Comp {
	if c, ok := tcache.Load(t); ok {
		return c.([]Comp)
	}
	c := compsOf0(t)
	tcache.Store(t, c)
	return c
}
func compsOf0(t types.Type) []Comp {
	if isTextType(t) {
		return []Comp{{path: ".text", sort: SStr, kind: KStr, typ: t}}
	}
	if isOpaque(t) {
		return []Comp{{path: "", sort: SInt, kind: KOpaque, typ: t}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Comp{{sort: SBool, kind: KBool, typ: t}}
		case u.Info()&types.IsString != 0:
			return []Comp{{sort: SStr, kind: KStr, typ: t}}
		case u.Info()&types.IsInteger != 0:
			lo, hi, _ := intBounds(u)
			return []Comp{{sort: SInt, kind: KInt, lo: lo, hi: hi, typ: t}}
		case u.Info()&types.IsFloat != 0:
			return []Comp{{sort: SReal, kind: KFlt, typ: t}}
		case u.Kind() == types.UntypedNil:
			return []Comp{{sort: SInt, kind: KRef, typ: t}}
		case u.Kind() == types.UnsafePointer:
			return []Comp{{sort: SInt, kind: KRef, typ: t}}
		}
	case *types.Pointer, *types.Map, *types.Signature, *types.Interface, *types.Chan:
		return []Comp{{sort: SInt, kind: KRef, lo: nil, hi: refHi, typ: t}}
	case *types.Slice:
		if isByte(u.Elem()) {
			return []Comp{{path: ".nil", sort: SBool, kind: KBool, role: "nil", typ: t}, {path: ".s", sort: SStr, kind: KStr, typ: t}}
		}
		out := []Comp{
			{path: ".nil", sort: SBool, kind: KBool, role: "nil", typ: t},
			{path: ".off", sort: SInt, kind: KInt, role: "off", lo: big.NewInt(0), hi: big40, typ: t},
			{path: ".len", sort: SInt, kind: KInt, role: "len", lo: big.NewInt(0), hi: big40, typ: t},
		}
		for _, c := range compsOf(u.Elem()) {
			d := c
			d.path = ".[]" + c.path
			d.sort = arr(c.sort)
			d.role = "arr"
			d.depth++
			out = append(out, d)
		}
		return out
	case *types.Array:
		if isByte(u.Elem()) {
			return []Comp{{path: "", sort: SStr, kind: KStr, typ: t, flen: int(u.Len())}}
		}
		var out []Comp
		for _, c := range compsOf(u.Elem()) {
			d := c
			d.path = ".[]" + c.path
			d.sort = arr(c.sort)
			d.role = "arr"
			d.depth++
			out = append(out, d)
		}
		return out
	case *types.Struct:
		var out []Comp
		for i := 0; i < u.NumFields(); i++ {
			for _, c := range compsOf(u.Field(i).Type()) {
				d := c
				d.path = "." + u.Field(i).Name() + c.path
				out = append(out, d)
			}
		}
		return out
	case *types.Tuple:
		var out []Comp
		for i := 0; i < u.Len(); i++ {
			for _, c := range compsOf(u.At(i).Type()) {
				d := c
				d.path = fmt.Sprintf(".%d%s", i, c.path)
				out = append(out, d)
			}
		}
		return out
	}
	panic(unsupported("type " + t.String()))
}

type unsup struct{ msg string }

func unsupported(m string) unsup { return unsup{m} }

func tkey(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string {
		return strings.TrimPrefix(p.Path(), repoPath+"/")
	})
	return s
}

// fieldRange gives the component range of field i of struct type t.
func fieldRange(t types.Type, i int) (int, int) {
	u := t.Underlying().(*types.Struct)
	o := 0
	for k := 0; k < i; k++ {
		o += len(compsOf(u.Field(k).Type()))
	}
	return o, o + len(compsOf(u.Field(i).Type()))
}

// boundsFor narrows a fresh component term by its kind.
func setBounds(t *Term, c Comp, lo, hi *big.Int) {
	if c.kind == KInt || c.kind == KRef {
		l, h := c.lo, c.hi
		if c.kind == KRef {
			l, h = lo, hi
		}
		if t.sort == SInt {
			t.lo, t.hi = l, h
		} else if t.sort.isArr() {
			t.eLo, t.eHi = l, h
		}
	}
}
