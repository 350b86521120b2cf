//go:build go1.21

package zzgov

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/group/edwards25519"
)

// Case is one contract to execute on the real code.
type Case struct {
	Name   string
	Fn     any // the contract or lemma
	Target any // the function under contract, nil for a lemma
}

// Report is what the execution of one case found.
type Report struct {
	Name    string
	Runs    int
	Skipped int
	Checked int
	Failed  []string
	Input   []string
	Seed    int64
	Iter    int
	Ints    []int64
	Strs    []string
}

var structs []reflect.Type
var gens = map[reflect.Type]func(g *Gen) reflect.Value{}

// Register makes a type of the repository known to the generator.
func Register(ts ...reflect.Type) { structs = append(structs, ts...) }

// GenFor makes a generator known.
func GenFor[T any](f func(g *Gen) T) {
	gens[reflect.TypeOf((*T)(nil)).Elem()] = func(g *Gen) reflect.Value {
		v := f(g)
		return reflect.ValueOf(&v).Elem()
	}
}

// Gen makes values.
type Gen struct {
	R    *rand.Rand
	Ints []int64
	Strs []string
	pool map[reflect.Type][]reflect.Value
	size int
}

// Make makes a value of a type.
func Make[T any](g *Gen) T {
	return g.make(reflect.TypeOf((*T)(nil)).Elem(), 0).Interface().(T)
}

var smallStrs = []string{"", "a", "b", "c", "ab", "abc", "x", "myName", "first", "second", " ", "aa", "ba", "0", "1", "7", "12", "-1", "{", "}", ",", "\n", "a\nb", "é"}
var smallInts = []int64{0, 0, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 31, 32, 63, 64, 65, 100, 127, 128, 255, 256, -1, -2, 1000, 65535}

// Int is a small or interesting number.
func (g *Gen) Int() int64 {
	switch g.R.Intn(8) {
	case 0:
		if len(g.Ints) > 0 {
			return g.Ints[g.R.Intn(len(g.Ints))] + int64(g.R.Intn(3)-1)
		}
	case 1:
		return int64(g.R.Intn(2000))
	case 2, 3, 4:
		return int64(g.R.Intn(5))
	}
	return smallInts[g.R.Intn(len(smallInts))]
}

// Str is a short or interesting text.
func (g *Gen) Str() string {
	switch g.R.Intn(9) {
	case 0, 1:
		if len(g.Strs) > 0 {
			return g.Strs[g.R.Intn(len(g.Strs))]
		}
	case 2:
		n := g.R.Intn(1 + g.size*3)
		b := make([]byte, n)
		for i := range b {
			b[i] = "abcxyz01 \n{},+*?#"[g.R.Intn(17)]
		}
		return string(b)
	case 3:
		return g.Str() + g.Str()
	case 4:
		b := make([]byte, []int{1, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129}[g.R.Intn(15)])
		g.R.Read(b)
		return string(b)
	case 5:
		b := make([]byte, 64)
		g.R.Read(b)
		return hex.EncodeToString(b)
	case 6:
		return strconv.FormatInt(g.Int(), 10)
	}
	return smallStrs[g.R.Intn(len(smallStrs))]
}

// Bool tosses a coin.
func (g *Gen) Bool() bool { return g.R.Intn(2) == 0 }

func (g *Gen) make(t reflect.Type, d int) reflect.Value {
	if f, ok := gens[t]; ok {
		return f(g)
	}
	switch t.Kind() {
	case reflect.Bool:
		return reflect.ValueOf(g.Bool()).Convert(t)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v := reflect.New(t).Elem()
		v.SetInt(g.Int())
		return v
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v := reflect.New(t).Elem()
		n := g.Int()
		if n < 0 {
			n = -n
		}
		if t.Kind() == reflect.Uint8 && g.Bool() {
			n = int64(g.R.Intn(256))
		}
		v.SetUint(uint64(n))
		return v
	case reflect.Float32, reflect.Float64:
		v := reflect.New(t).Elem()
		v.SetFloat(float64(g.Int()) / []float64{1, 1, 2, 4, 10}[g.R.Intn(5)])
		return v
	case reflect.String:
		v := reflect.New(t).Elem()
		v.SetString(g.Str())
		return v
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			v := reflect.New(t).Elem()
			if g.R.Intn(12) == 0 {
				return v
			}
			v.SetBytes([]byte(g.Str()))
			return v
		}
		if g.R.Intn(12) == 0 {
			return reflect.Zero(t)
		}
		n := g.R.Intn(2 + g.size/2)
		if d > 3 && n > 2 {
			n = 2
		}
		if d > 6 {
			n = 0
		}
		v := reflect.MakeSlice(t, n, n)
		for i := 0; i < n; i++ {
			if i > 0 && g.R.Intn(6) == 0 {
				v.Index(i).Set(v.Index(g.R.Intn(i)))
				continue
			}
			x := g.make(t.Elem(), d+1)
			if (t.Elem().Kind() == reflect.Interface || t.Elem().Kind() == reflect.Ptr) && x.IsNil() && g.R.Intn(10) != 0 {
				x = g.make(t.Elem(), d+1)
			}
			v.Index(i).Set(x)
		}
		return v
	case reflect.Array:
		v := reflect.New(t).Elem()
		if t.Elem().Kind() == reflect.Uint8 {
			if p := g.pool[t]; len(p) > 0 && g.Bool() {
				v.Set(p[g.R.Intn(len(p))])
				if g.Bool() {
					v.Index(g.R.Intn(t.Len())).SetUint(uint64(g.R.Intn(256)))
				}
				return v
			}
			for i := 0; i < t.Len(); i++ {
				v.Index(i).SetUint(uint64(g.R.Intn(256)))
			}
			g.pool[t] = append(g.pool[t], v)
			return v
		}
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(g.make(t.Elem(), d+1))
		}
		return v
	case reflect.Map:
		if g.R.Intn(12) == 0 {
			return reflect.Zero(t)
		}
		v := reflect.MakeMap(t)
		n := g.R.Intn(3)
		for i := 0; i < n; i++ {
			v.SetMapIndex(g.make(t.Key(), d+1), g.make(t.Elem(), d+1))
		}
		return v
	case reflect.Ptr:
		if p := g.pool[t]; len(p) > 0 && g.R.Intn(5) == 0 {
			return p[g.R.Intn(len(p))]
		}
		if g.R.Intn(8) == 0 || d > 9 {
			return reflect.Zero(t)
		}
		v := reflect.New(t.Elem())
		v.Elem().Set(g.make(t.Elem(), d+1))
		g.pool[t] = append(g.pool[t], v)
		return v
	case reflect.Struct:
		v := reflect.New(t).Elem()
		for i := 0; i < t.NumField(); i++ {
			f := v.Field(i)
			f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			f.Set(g.make(f.Type(), d+1))
		}
		return v
	case reflect.Interface:
		if p := g.pool[t]; len(p) > 0 && (g.R.Intn(6) == 0 || d > 9 && g.R.Intn(2) == 0) {
			return p[g.R.Intn(len(p))]
		}
		nilOdds := 8
		if d == 0 {
			nilOdds = 14
		}
		if g.R.Intn(nilOdds) == 0 || d > 9 {
			return reflect.Zero(t)
		}
		if t.NumMethod() == 0 {
			v := reflect.New(t).Elem()
			switch g.R.Intn(3) {
			case 0:
				v.Set(reflect.ValueOf(g.Str()))
			case 1:
				v.Set(reflect.ValueOf(int(g.Int())))
			case 2:
				v.Set(reflect.ValueOf([]byte(g.Str())))
			}
			return v
		}
		if t == reflect.TypeOf((*error)(nil)).Elem() {
			return reflect.ValueOf(&[]error{errors.New(g.Str())}[0]).Elem()
		}
		var cs []reflect.Type
		for _, s := range structs {
			if s.Implements(t) {
				cs = append(cs, s)
			} else if reflect.PtrTo(s).Implements(t) {
				cs = append(cs, reflect.PtrTo(s))
			}
		}
		v := reflect.New(t).Elem()
		if len(cs) == 0 {
			return v
		}
		c := cs[g.R.Intn(len(cs))]
		if c.Kind() == reflect.Ptr {
			x := reflect.New(c.Elem())
			v.Set(x)
			x.Elem().Set(g.make(c.Elem(), d+1))
		} else {
			v.Set(g.make(c, d+1))
		}
		g.pool[t] = append(g.pool[t], v)
		return v
	case reflect.Func:
		if g.R.Intn(8) == 0 {
			return reflect.Zero(t)
		}
		salt := g.R.Int63()
		memo := map[string][]reflect.Value{}
		return reflect.MakeFunc(t, func(args []reflect.Value) []reflect.Value {
			k := ""
			for _, a := range args {
				k += show(a, 3) + ";"
			}
			if r, ok := memo[k]; ok {
				return r
			}
			h := salt
			for _, b := range []byte(k) {
				h = h*31 + int64(b)
			}
			g2 := &Gen{R: rand.New(rand.NewSource(h)), Ints: g.Ints, Strs: g.Strs, pool: g.pool, size: g.size}
			var out []reflect.Value
			for i := 0; i < t.NumOut(); i++ {
				out = append(out, g2.make(t.Out(i), d+2))
			}
			if n := t.NumOut(); n > 1 && t.Out(n-1) == reflect.TypeOf((*error)(nil)).Elem() {
				if g2.R.Intn(3) > 0 {
					out[n-1] = reflect.Zero(t.Out(n - 1))
				} else {
					for i := 0; i < n-1; i++ {
						out[i] = reflect.Zero(t.Out(i))
					}
				}
			}
			memo[k] = out
			return out
		})
	}
	return reflect.Zero(t)
}

func show(v reflect.Value, d int) string {
	var b bytes.Buffer
	dump(&b, v, d, map[uintptr]bool{})
	return b.String()
}
func dump(b *bytes.Buffer, v reflect.Value, d int, seen map[uintptr]bool) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	t := v.Type()
	if b.Len() > 20000 {
		b.WriteString("...")
		return
	}
	switch t.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		dump(b, v.Elem(), d, seen)
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if s, ok := v, v.CanInterface(); ok {
			if st, ok := s.Interface().(interface{ MarshalBinary() ([]byte, error) }); ok && !strings.Contains(t.String(), "steve") {
				x, err := st.MarshalBinary()
				if err == nil {
					b.WriteString(t.String() + "(" + hex.EncodeToString(x) + ")")
					return
				}
			}
		}
		if d <= 0 || seen[v.Pointer()] {
			fmt.Fprintf(b, "&%s{...}", t.Elem())
			return
		}
		seen[v.Pointer()] = true
		b.WriteString("&")
		dump(b, v.Elem(), d-1, seen)
		delete(seen, v.Pointer())
	case reflect.Struct:
		b.WriteString(t.String() + "{")
		for i := 0; i < t.NumField(); i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(t.Field(i).Name + ": ")
			dump(b, v.Field(i), d, seen)
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			if t.Kind() == reflect.Slice && v.IsNil() {
				b.WriteString("nil")
				return
			}
			bs := make([]byte, v.Len())
			for i := range bs {
				bs[i] = byte(v.Index(i).Uint())
			}
			fmt.Fprintf(b, "%q", bs)
			return
		}
		if t.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString(t.String() + "{")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			dump(b, v.Index(i), d-1, seen)
		}
		b.WriteString("}")
	case reflect.Map:
		var ks []string
		for _, k := range v.MapKeys() {
			ks = append(ks, show(k, 2)+": "+show(v.MapIndex(k), d-1))
		}
		sort.Strings(ks)
		b.WriteString(t.String() + "{" + strings.Join(ks, ", ") + "}")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprintf(b, "%v", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(b, "%d", v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%v", v.Float())
	case reflect.Func:
		if v.IsNil() {
			b.WriteString("nil")
		} else {
			b.WriteString("func")
		}
	default:
		b.WriteString(t.String())
	}
}

func init() {
	suite := edwards25519.NewBlakeSHA256Ed25519()
	var scal []kyber.Scalar
	var pts []kyber.Point
	for i := 0; i < 3; i++ {
		scal = append(scal, suite.Scalar().Pick(suite.RandomStream()))
		pts = append(pts, suite.Point().Mul(scal[i], nil))
	}
	GenFor(func(g *Gen) kyber.Scalar {
		if g.R.Intn(20) == 0 {
			return nil
		}
		if g.R.Intn(3) == 0 {
			return suite.Scalar().SetInt64(int64(g.R.Intn(5)))
		}
		return scal[g.R.Intn(3)].Clone()
	})
	GenFor(func(g *Gen) kyber.Point {
		if g.R.Intn(20) == 0 {
			return nil
		}
		if g.R.Intn(6) == 0 {
			return suite.Point().Null()
		}
		return pts[g.R.Intn(3)].Clone()
	})
	GenFor(func(g *Gen) time.Time {
		t := time.Unix(g.Int(), int64(g.R.Intn(3))).UTC()
		if g.R.Intn(4) == 0 {
			t = t.In(time.FixedZone("z", 3600*(g.R.Intn(5)-2)))
		}
		return t
	})
	GenFor(func(g *Gen) *time.Time {
		if g.R.Intn(8) == 0 {
			return nil
		}
		t := time.Unix(g.Int(), int64(g.R.Intn(3))).UTC()
		return &t
	})
}

// run executes one case once.
func (c *Case) run(g *Gen) (r *Run, args []reflect.Value) {
	r = &Run{Name: c.Name}
	Cur = r
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(skip); ok {
				return
			}
			r.Panic = fmt.Sprint(x)
			if r.noPanic && !r.post {
				r.Failed = append(r.Failed, "no panic: "+r.Panic)
			} else {
				r.Skipped = true
			}
		}
	}()
	f := reflect.ValueOf(c.Fn)
	for i := 0; i < f.Type().NumIn(); i++ {
		args = append(args, g.make(f.Type().In(i), 0))
	}
	if dumpCur != nil {
		dumpCur(c, args)
	}
	call := func(f reflect.Value, args []reflect.Value) []reflect.Value {
		if f.Type().IsVariadic() {
			return f.CallSlice(args)
		}
		return f.Call(args)
	}
	out := call(f, args)
	if c.Target == nil {
		return
	}
	tg := reflect.ValueOf(c.Target)
	ta := make([]reflect.Value, len(args))
	for i, a := range args {
		if a.Kind() == reflect.Interface && tg.Type().In(i).Kind() != reflect.Interface {
			if a.IsNil() {
				r.Skipped = true
				return
			}
			a = a.Elem()
		}
		ta[i] = a
	}
	res := call(tg, ta)
	if len(out) == 1 && !out[0].IsNil() {
		r.post = true
		out[0].Call(res)
	}
	return
}

var dumpCur func(c *Case, args []reflect.Value)

// Replay executes cases on generated inputs until the time is over; the first failure of each is
// kept.
func Replay(cases []Case) {
	debug.SetMaxStack(256 << 20)
	seed, _ := strconv.ParseInt(os.Getenv("ZZ_SEED"), 10, 64)
	secs, _ := strconv.ParseFloat(os.Getenv("ZZ_SECS"), 64)
	if secs == 0 {
		secs = 5
	}
	out := os.Getenv("ZZ_OUT")
	var consts struct {
		Ints []int64
		Strs []string
	}
	if b, err := os.ReadFile(os.Getenv("ZZ_CONSTS")); err == nil {
		json.Unmarshal(b, &consts)
	}
	var reps []*Report
	write := func() {
		b, _ := json.Marshal(reps)
		os.WriteFile(out, b, 0o644)
	}
	names := map[string]bool{}
	for _, n := range strings.Fields(os.Getenv("ZZ_CASES")) {
		names[n] = true
	}
	from, one := 0, false
	if s := os.Getenv("ZZ_ITER"); s != "" {
		from, _ = strconv.Atoi(s)
		one = true
	}
	for i := range cases {
		c := &cases[i]
		if len(names) > 0 && !names[c.Name] {
			continue
		}
		rep := &Report{Name: c.Name, Seed: seed}
		reps = append(reps, rep)
		start := time.Now()
		last := start
		dumpCur = func(c *Case, args []reflect.Value) {
			// what is being executed is written down now and then, in case the process dies
			if time.Since(last) > 0 && (rep.Iter < 200 || rep.Iter%64 == 0) {
				b, _ := json.Marshal(map[string]any{"name": c.Name, "iter": rep.Iter})
				os.WriteFile(out+".cur", b, 0o644)
			}
		}
		for it := from; ; it++ {
			if time.Since(start).Seconds() > secs || it > 400000 {
				break
			}
			rep.Iter = it
			g := &Gen{R: rand.New(rand.NewSource(seed*1_000_003 + int64(it))), Ints: consts.Ints, Strs: consts.Strs, pool: map[reflect.Type][]reflect.Value{}, size: 1 + it/40%9}
			r, args := c.run(g)
			rep.Runs++
			if r.Skipped || (r.Checked == 0 && len(r.Failed) == 0) {
				rep.Skipped++
			}
			rep.Checked += r.Checked
			if len(r.Failed) > 0 && !(r.Skipped && r.Panic == "") {
				rep.Failed = r.Failed
				for _, a := range args {
					s := show(a, 7)
					if len(s) > 6000 {
						s = s[:6000] + "..."
					}
					rep.Input = append(rep.Input, a.Type().String()+" "+s)
				}
				break
			}
			if one {
				break
			}
		}
		write()
	}
	os.Remove(out + ".cur")
}
