package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Result struct {
	Contract string
	Kind     string
	Target   string
	Props    []string
	Obl      []*Oblig
	Err      string
	Ms       int64
	SolverMs int64
	Queries  int
	By       map[string]int
	Inlined  []string
	Used     []string
	Trusted  []string
	Loops    int
	Invs     int
	Cands    int
	Paths    int
}

func (r *Result) bad() []*Oblig {
	var b []*Oblig
	for _, o := range r.Obl {
		if o.Status != "proved" {
			b = append(b, o)
		}
	}
	return b
}

func newExec(w *World) *Exec {
	c := newCtx()
	e := &Exec{w: w, c: c, s: newSolver(c), next: 2_000_000, dynOf: map[int64]types.Type{}, kcell: map[int64]bool{}, streams: map[int64]string{}, clos: map[int64]*Closure{}, fnAddr: map[*ssa.Function]int64{},
		trusted: map[string]bool{}, inlined: map[string]bool{}, used: map[string]bool{}, reach: map[string]bool{}, failAt: map[string]bool{}, heapKeyT: map[string]Comp{},
		cats: map[int]*catInfo{}, catN: map[string]*catInfo{}, catUnf: map[int]bool{}, apps: map[int]*appInfo{}, ghostDone: map[string]bool{}, ghostR: map[*ssa.Function]map[string]bool{}, fuel: 1, proofMs: 10000}
	e.s.isCat = func(t *Term) bool { _, ok := e.cats[t.id]; return ok }
	e.s.catFacts = e.catFacts
	c.rules = append(c.rules, e.catRule)
	return e
}

// catRule registers concatenation terms made by substitution.
func (e *Exec) catRule(t *Term) {
	if t.bound || !strings.HasPrefix(t.name, "cat") {
		return
	}
	if _, ok := e.cats[t.id]; ok {
		return
	}
	ci := e.catN[t.name]
	if ci == nil {
		return
	}
	// rebuild the body from the skeleton and the actual arguments
	if ci.skel == nil {
		return
	}
	i := e.c.FreshB("q", big.NewInt(0), big40)
	body := e.c.Subst(ci.skel, placeholder(e.c, 0, SInt), i)
	for k := 1; k < len(t.args); k++ {
		body = e.c.Subst(body, placeholder(e.c, k, t.args[k].sort), t.args[k])
	}
	e.cats[t.id] = &catInfo{n: t.args[0], body: body, i: i}
}

func verify(w *World, ct *Contract, proofMs int) *Result {
	return verifyBy(w, ct, proofMs, 1, time.Time{})
}

func verifyBy(w *World, ct *Contract, proofMs, scale int, deadline time.Time) (res *Result) {
	t0 := time.Now()
	res = &Result{Contract: ct.Name, Kind: ct.Kind, Target: ct.TargetName, Props: ct.Props}
	if ct.Missing {
		res.Err = "no function " + ct.TargetName + " in the current source"
		return
	}
	e := newExec(w)
	e.s.scale, e.s.deadline = scale, deadline
	e.proofMs = proofMs
	e.maxRec = ct.Depth
	if ct.Timeout > 0 {
		e.proofMs = ct.Timeout * 1000
	}
	if ct.Fuel > 0 {
		e.fuel = ct.Fuel
	}
	e.self = ct
	e.invs = ct.Invs
	for _, iv := range ct.Invs {
		for _, prm := range iv.Params {
			if strings.HasPrefix(prm.Name(), "fix_") {
				if e.wantVar == nil {
					e.wantVar = map[string]bool{}
				}
				e.wantVar[prm.Type().String()] = true
			}
		}
	}
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(unsup); ok {
				res.Err = u.msg
			} else {
				buf := make([]byte, 6000)
				buf = buf[:runtime.Stack(buf, false)]
				res.Err = fmt.Sprintf("internal: %v at %s\n%s", x, e.curPos, buf)
			}
		}
		e.s.Close()
		res.Obl = e.obl
		res.Ms = time.Since(t0).Milliseconds()
		res.SolverMs = e.s.Time.Milliseconds()
		res.Queries = e.s.N
		res.By = map[string]int{}
		for _, o := range e.obl {
			if o.Status == "proved" {
				res.By[o.By]++
			}
		}
		for k := range e.inlined {
			res.Inlined = append(res.Inlined, k)
		}
		for k := range e.used {
			res.Used = append(res.Used, k)
		}
		for k := range e.trusted {
			res.Trusted = append(res.Trusted, k)
		}
		sort.Strings(res.Inlined)
		sort.Strings(res.Used)
		sort.Strings(res.Trusted)
		res.Loops, res.Invs, res.Cands = e.loops, e.invsKept, e.ncand
		if res.Err == "" {
			any := false
			for _, o := range e.obl {
				if o.Kind == "ensures" {
					any = true
				}
			}
			if !any {
				res.Err = "vacuous: no postcondition is ever reached"
			}
			for _, n := range ensuresNames(ct.Fn) {
				if !e.reach[n] {
					res.Err = "vacuous: postcondition \"" + n + "\" is never reached"
				}
			}
		}
	}()
	st := &State{heap: map[string]*Term{}}
	var args []any
	for _, prm := range ct.Fn.Params {
		v := e.freshVal("p_"+prm.Name(), prm.Type(), refHi)
		args = append(args, v)
		e.pvals = append(e.pvals, namedVal{prm.Name(), prm.Type(), v})
	}
	outs := e.callFn(st, ct.Fn, args, nil, true, true)
	if ct.Kind == "contract" {
		for _, o := range outs {
			var ra []any = args
			e.selfAt = 1
			r := e.callFn(o.st, ct.Target, ra, nil, false, false)
			res.Paths += len(r)
			if len(o.res) == 0 {
				continue
			}
			cl := e.closureOf(o.res[0])
			rt := ct.Target.Signature.Results()
			for _, x := range r {
				var vs []any
				off := 0
				for i := 0; i < rt.Len(); i++ {
					n := len(compsOf(rt.At(i).Type()))
					vs = append(vs, append(Val{}, x.res[off:off+n]...))
					off += n
				}
				np := e.nopanic
				e.nopanic = false
				e.callFn(x.st, cl.fn, vs, cl.bind, true, true)
				e.nopanic = np
				if ct.Use {
					e.obligeFrame(x.st)
				}
			}
		}
	} else {
		res.Paths = len(outs)
	}
	return
}

// ensuresNames lists the constant names of the postconditions written in fn and its closures.
func ensuresNames(fn *ssa.Function) []string {
	var out []string
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if g, ok := c.Call.Value.(*ssa.Function); ok && (g.Name() == "Ensures" || g.Name() == "Assert") && g.Pkg != nil && strings.HasSuffix(g.Pkg.Pkg.Path(), "/zzgov") {
						if k, ok := c.Call.Args[0].(*ssa.Const); ok {
							s := k.Value.ExactString()
							out = append(out, strings.Trim(s, "\""))
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(fn)
	return out
}

func main() {
	if len(os.Args) > 1 {
		switch os.Args[1] {
		case "check":
			mainCheck(os.Args[2:])
			return
		case "replay":
			mainReplay(os.Args[2:])
			return
		}
	}
	prop := flag.String("prop", "", "property to check")
	only := flag.String("only", "", "verify only contracts whose name contains this")
	jsonOut := flag.String("json", "", "write results here")
	debug := flag.Bool("debug", false, "")
	ms := flag.Int("ms", 10000, "proof time limit (ms)")
	workers := flag.Int("j", 8, "")
	flag.StringVar(&repoDir, "repo", "/repo", "")
	flag.StringVar(&specDir, "specs", "/verif/specs", "")
	flag.Parse()
	t0 := time.Now()
	w, err := loadWorld(nil)
	if err != nil {
		fmt.Println("LOAD ERROR:", err)
		os.Exit(2)
	}
	w.debug = *debug
	for _, e := range w.errs {
		fmt.Println("NOTE:", e)
	}
	var cts []*Contract
	for _, c := range w.contractsOf(*prop, *only) {
		if c.Bounded == "" {
			cts = append(cts, c)
		}
	}
	results := verifyAll(w, cts, *ms, *workers, 0)
	nb := 0
	for _, r := range results {
		st := "OK"
		if r.Err != "" || len(r.bad()) > 0 {
			st = "FAIL"
			nb++
		}
		fmt.Printf("%-5s %s  obligations=%d paths=%d loops=%d invs=%d queries=%d solver=%dms total=%dms\n", st, r.Contract, len(r.Obl), r.Paths, r.Loops, r.Invs, r.Queries, r.SolverMs, r.Ms)
		if r.Err != "" {
			fmt.Println("      error:", r.Err)
		}
		for _, o := range r.bad() {
			fmt.Printf("      %s [%s] %s: %s\n", o.Status, o.Kind, o.Name, o.Detail)
		}
	}
	fmt.Printf("%d contracts, %d failing, %s\n", len(results), nb, time.Since(t0).Round(time.Millisecond))
	if *jsonOut != "" {
		b, _ := json.MarshalIndent(results, "", " ")
		os.MkdirAll(filepath.Dir(*jsonOut), 0o755)
		os.WriteFile(*jsonOut, b, 0o644)
	}
}

// obligeFrame: callers take a function under contract to leave existing objects as they are.
func (e *Exec) obligeFrame(st *State) {
	c := e.c
	for _, k := range sortedKeysT(st.heap) {
		t := st.heap[k]
		for t.op == "store" && t.args[1].lo != nil && t.args[1].lo.Cmp(refHi) > 0 {
			t = t.args[0]
		}
		if t.op == "var" && strings.HasPrefix(t.name, "H0.") {
			continue
		}
		cp, ok := e.heapKeyT[k]
		if !ok {
			continue
		}
		if typ := k[:max(0, strings.Index(k, "#"))]; strings.HasSuffix(typ, "uilder") {
			// builders are where things are put together: what they hold between calls is not relied on
			e.trusted["what a builder holds between calls is not relied on ("+typ+")"] = true
			continue
		}
		h0 := e.heapArr(&State{heap: map[string]*Term{}}, k, cp)
		r := c.FreshB("frame", big.NewInt(1), refHi)
		e.oblige(st, "existing objects are left as they are ("+k+")", "frame", c.Eq(c.Select(t, r), c.Select(h0, r)))
	}
}

func sortedKeysT(m map[string]*Term) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sortStrings(o)
	return o
}
