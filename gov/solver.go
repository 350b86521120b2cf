package main

// Solver back ends. One incremental z3 (newer release) process per worker; cvc5 and the older z3
// are asked, one process per query, when it gives no answer.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// proc is one running solver with the definitions sent to it so far. In abs mode texts are an
// uninterpreted sort and text operations uninterpreted functions: whatever it refutes is refuted.
type proc struct {
	c     *Ctx
	abs   bool
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	defd  map[int]bool
	decl  map[string]bool
	names map[int]string
	log   *strings.Builder // every declaration/definition sent so far
	lits  int
}

type Solver struct {
	c        *Ctx
	full     *proc
	fast     *proc
	Time     time.Duration
	N        int
	By       map[string]int
	Unknown  int
	scale    int       // stretches the time limits on a second attempt
	deadline time.Time // no question is asked after it
	cache    map[string]string
	ByTime   map[string]time.Duration
	isCat    func(*Term) bool
	catFacts func([]*Term) []*Term
	skol     map[int]*Term
	nabs     int
}

func newSolver(c *Ctx) *Solver {
	s := &Solver{c: c, By: map[string]int{}, cache: map[string]string{}, ByTime: map[string]time.Duration{}, skol: map[int]*Term{}}
	s.full = &proc{c: c}
	s.fast = &proc{c: c, abs: true}
	s.full.start()
	s.fast.start()
	return s
}

func (s *proc) start() {
	s.defd, s.decl, s.names = map[int]bool{}, map[string]bool{}, map[int]string{}
	s.log = &strings.Builder{}
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = os.Stderr
	s.out = bufio.NewReaderSize(o, 1<<20)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.raw("(set-option :global-declarations true)\n(set-option :auto_config false)\n(set-option :smt.mbqi true)\n(set-option :model.completion true)\n")
	s.def("(declare-sort Flt 0)\n")
	if s.abs {
		s.def("(declare-sort Str 0)\n(declare-fun lit.code (Str) Int)\n(declare-fun a.str.len (Str) Int)\n")
	}
}
func (s *Solver) Close() {
	s.full.close()
	s.fast.close()
}
func (s *proc) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}
func (s *proc) raw(t string) { io.WriteString(s.in, t) }
func (s *proc) def(t string) { s.raw(t); s.log.WriteString(t) }

func (s *proc) sortOf(x Sort) string {
	if s.abs {
		return strings.ReplaceAll(string(x), "String", "Str")
	}
	return string(x)
}

func absName(t *Term) string {
	return fmt.Sprintf("a.%s", t.op)
}

func isStrOp(t *Term) bool {
	return strings.HasPrefix(t.op, "str.") || t.op == "sub!"
}

func (s *proc) declare(t *Term) {
	switch {
	case t.op == "var":
		if !s.decl[t.name] {
			s.decl[t.name] = true
			s.def(fmt.Sprintf("(declare-fun |%s| () %s)\n", t.name, s.sortOf(t.sort)))
		}
	case t.op == "uf":
		k := "uf:" + ufName(t)
		if !s.decl[k] {
			s.decl[k] = true
			var as []string
			for _, a := range t.args {
				as = append(as, s.sortOf(a.sort))
			}
			s.def(fmt.Sprintf("(declare-fun |%s| (%s) %s)\n", ufName(t), strings.Join(as, " "), s.sortOf(t.sort)))
		}
	case s.abs && t.op == "str":
		n := s.litName(t)
		if !s.decl[n] {
			s.decl[n] = true
			s.lits++
			s.def(fmt.Sprintf("(declare-fun %s () Str)\n(assert (= (lit.code %s) %d))\n(assert (= (a.str.len %s) %d))\n", n, n, s.lits, n, len(t.name)))
		}
	case s.abs && isStrOp(t):
		n := s.opName(t)
		if t.op != "str.len" && !s.decl[n] {
			s.decl[n] = true
			var as []string
			for _, a := range t.args {
				as = append(as, s.sortOf(a.sort))
			}
			s.def(fmt.Sprintf("(declare-fun %s (%s) %s)\n", n, strings.Join(as, " "), s.sortOf(t.sort)))
		}
	}
}

func (s *proc) litName(t *Term) string { return "lit" + strconv.Itoa(t.id) }
func (s *proc) opName(t *Term) string {
	n := t.op
	if n == "sub!" {
		n = "str.substr"
	}
	if n == "str.++" || len(t.args) > 3 {
		n += strconv.Itoa(len(t.args))
	}
	return "|a." + n + "|"
}

// send makes every symbol and shared sub-term of t known to the solver and returns its text.
func (s *proc) send(t *Term) string {
	s.prep(t, map[int]bool{})
	return s.smt(t)
}
func (s *proc) prep(t *Term, seen map[int]bool) {
	if s.defd[t.id] || seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == "hv" {
		panic("hv term reached the solver")
	}
	for _, a := range t.args {
		s.prep(a, seen)
	}
	s.declare(t)
	if !t.bound && len(t.args) > 0 {
		n := "t" + strconv.Itoa(t.id)
		body := s.smt(t)
		s.def(fmt.Sprintf("(define-fun %s () %s %s)\n", n, s.sortOf(t.sort), body))
		s.names[t.id] = n
		s.defd[t.id] = true
	} else if len(t.args) == 0 {
		s.defd[t.id] = true
	}
}

func (s *proc) smt(t *Term) string {
	if n, ok := s.names[t.id]; ok {
		return n
	}
	head := ""
	switch t.op {
	case "int":
		return smtInt(t.iv)
	case "str":
		if s.abs {
			return s.litName(t)
		}
		return smtStr(t.name)
	case "true", "false":
		return t.op
	case "var", "bvar":
		return "|" + t.name + "|"
	case "uf":
		head = "|" + ufName(t) + "|"
		if len(t.args) == 0 {
			return head
		}
	case "forall", "exists":
		return "(" + t.op + " ((|" + t.args[0].name + "| Int)) " + s.smt(t.args[1]) + ")"
	case "constarr":
		head = "(as const " + s.sortOf(t.sort) + ")"
	case "sub!":
		head = "str.substr"
	default:
		head = t.op
	}
	if s.abs && isStrOp(t) {
		head = s.opName(t)
	}
	var b strings.Builder
	b.WriteString("(" + head)
	for _, a := range t.args {
		b.WriteByte(' ')
		b.WriteString(s.smt(a))
	}
	b.WriteByte(')')
	return b.String()
}

// closure collects facts of all sub-terms of ts, transitively.
func (s *Solver) closure(ts []*Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	var facts, cats []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "forall" || t.op == "exists" {
			walk(t.args[1])
			return
		}
		if !t.bound {
			if f := s.bounds(t); f != nil {
				out = append(out, f)
			}
		}
		if s.isCat != nil && !t.bound && s.isCat(t) {
			cats = append(cats, t)
		}
		for _, f := range s.c.facts[t.id] {
			if f.bound {
				f = s.c.closeQ(f)
			}
			facts = append(facts, f)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	for i := 0; i < len(facts); i++ {
		f := facts[i]
		out = append(out, f)
		walk(f)
	}
	if len(cats) > 1 {
		n := len(facts)
		facts = append(facts, s.catFacts(cats)...)
		for i := n; i < len(facts); i++ {
			out = append(out, facts[i])
			walk(facts[i])
		}
	}
	return out
}

// closeQ quantifies the free bound variables of a fact.
func (c *Ctx) closeQ(f *Term) *Term {
	free := map[int]*Term{}
	var walk func(t *Term, in map[int]bool)
	walk = func(t *Term, in map[int]bool) {
		if t.op == "bvar" {
			if !in[t.id] {
				free[t.id] = t
			}
			return
		}
		if !t.bound && t.op != "forall" && t.op != "exists" {
			return
		}
		if t.op == "forall" || t.op == "exists" {
			in2 := map[int]bool{t.args[0].id: true}
			for k := range in {
				in2[k] = true
			}
			walk(t.args[1], in2)
			return
		}
		for _, a := range t.args {
			walk(a, in)
		}
	}
	walk(f, map[int]bool{})
	var idl []int
	for id := range free {
		idl = append(idl, id)
	}
	sort.Ints(idl)
	for _, id := range idl {
		f = c.Quant("forall", free[id], f)
	}
	return f
}

var noBound = map[string]bool{"int": true, "+": true, "*": true, "ite": true, "str.len": true, "bvar": true, "div": true, "mod": true, "str.to_code": true, "str.indexof": true}

func (s *Solver) bounds(t *Term) *Term {
	if t.sort == SInt && t.op == "str.len" && t.args[0].op == "var" {
		return s.c.mk("<=", "", SBool, []*Term{t, s.c.Big(big40)}) // texts fit in memory
	}
	if t.sort != SInt || noBound[t.op] {
		return nil
	}
	c := s.c
	var fs []*Term
	if t.lo != nil {
		fs = append(fs, c.mk("<=", "", SBool, []*Term{c.Big(t.lo), t}))
	}
	if t.hi != nil {
		fs = append(fs, c.mk("<=", "", SBool, []*Term{t, c.Big(t.hi)}))
	}
	if len(fs) == 0 {
		return nil
	}
	return c.And(fs...)
}

func (s *proc) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "error: " + err.Error()
	}
	return strings.TrimSpace(l)
}

// ask puts one query to the running solver.
func (s *proc) ask(all []*Term, ms int) (res string, text string) {
	c := s.c
	var b strings.Builder
	seen := map[int]bool{}
	for _, t := range all {
		if seen[t.id] || t == c.T {
			continue
		}
		seen[t.id] = true
		b.WriteString("(assert " + s.send(t) + ")\n")
	}
	s.raw("(push 1)\n")
	s.raw(fmt.Sprintf("(set-option :timeout %d)\n", ms))
	s.raw(b.String())
	s.raw("(check-sat)\n(echo \"done\")\n")
	done := make(chan bool, 1)
	go func(cmd *exec.Cmd) {
		select {
		case <-done:
		case <-time.After(time.Duration(ms)*time.Millisecond*2 + 5*time.Second):
			cmd.Process.Kill()
		}
	}(s.cmd)
	var errs []string
	for {
		l := s.readLine()
		if l == "done" || l == "\"done\"" {
			break
		}
		if strings.HasPrefix(l, "error: ") {
			done <- true
			s.cmd.Wait()
			s.start()
			return "unknown", b.String()
		}
		if strings.HasPrefix(l, "(error") {
			errs = append(errs, l)
			continue
		}
		res = l
	}
	done <- true
	s.raw("(pop 1)\n")
	if len(errs) > 0 {
		if os.Getenv("GOV_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "z3 error:", errs[0])
			os.WriteFile("/tmp/gov_err.smt2", []byte(s.script(b.String())), 0o644)
		}
		return "unknown", b.String()
	}
	if res != "sat" && res != "unsat" {
		res = "unknown"
	}
	return res, b.String()
}

// Check asks whether the conjunction of ts is satisfiable.
func (s *Solver) Check(ts []*Term, ms int, fallback bool) string {
	r, _ := s.CheckBy(ts, ms, fallback)
	return r
}

// CheckBy: three stages. (1) ground instances with texts uninterpreted, (2) ground instances with
// the theory of texts, (3) the whole query, by each solver in turn. A refutation at any stage is a
// refutation of the query.
func (s *Solver) CheckBy(ts []*Term, ms int, fallback bool) (string, string) {
	c := s.c
	g := c.And(ts...)
	if g == c.F {
		return "unsat", "simplifier"
	}
	if g == c.T {
		return "sat", "simplifier"
	}
	key := strconv.Itoa(g.id)
	if r, ok := s.cache[key]; ok && (r != "unknown" || !fallback) {
		return r, "z3-new"
	}
	t0 := time.Now()
	if !s.deadline.IsZero() && t0.After(s.deadline) {
		s.Unknown++
		return "unknown", "z3-new"
	}
	k := max(s.scale, 1)
	defer func() { s.Time += time.Since(t0) }()
	s.N++
	conj := []*Term{g}
	if g.op == "and" {
		conj = append([]*Term{}, g.args...)
	}
	res, by, stage := "unknown", "z3-new", 1
	all := append(append([]*Term{}, conj...), s.closure(conj)...)
	if os.Getenv("GOV_SLOW") == "2" {
		println("Q", s.N, len(conj), dagSize(conj), len(all), dagSize(all))
	}
	gr, dropped := s.ground(conj)
	if os.Getenv("GOV_SLOW") == "2" {
		println("G", s.N, len(gr), dagSize(gr), time.Since(t0).String())
	}
	if gr == nil {
		res = "unsat"
	} else {
		hasStr := usesText(gr)
		var extra []*Term
		if hasStr {
			extra = s.textAxioms(gr)
		}
		res, _ = s.fast.ask(append(append([]*Term{}, gr...), extra...), min(ms, 2000)*k)
		if res == "sat" && (hasStr || dropped) {
			res = "unknown"
		}
		if res == "unknown" && hasStr && (ms > 500 || deepText(gr)) {
			stage = 2
			m := min(ms, 400)
			if fallback {
				m = min(ms, 4000)
			} else if ms <= 500 {
				m = min(ms, 150)
			}
			var text string
			res, text = s.full.ask(gr, m*k)
			if dumpAll && res != "unsat" {
				os.WriteFile(fmt.Sprintf("%s/g%d_%s_%d.smt2", dumpDir, s.N, res, m), []byte(s.full.script(text)), 0o644)
			}
			if res == "sat" && dropped {
				res = "unknown"
			}
		}
		if res == "unknown" && dropped && ms > 500 {
			stage = 3
			var text string
			res, text = s.full.ask(all, ms*min(k, 2))
			if dumpDir != "" && fallback {
				os.WriteFile(fmt.Sprintf("%s/q%d_%s.smt2", dumpDir, s.N, res), []byte(s.full.script(text)), 0o644)
			}
		}
		if res == "unknown" && fallback {
			stage = 4
			var b strings.Builder
			for _, t := range all {
				if t != c.T {
					b.WriteString("(assert " + s.full.send(t) + ")\n")
				}
			}
			script := s.full.script(b.String())
			for _, alt := range [][]string{{"cvc5", "--lang=smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", 2*ms)}, {"z3", "-smt2", "-in", fmt.Sprintf("-T:%d", ms/1000+1)}} {
				r := runAlt(alt, script, ms*2)
				if r == "unsat" || r == "sat" && alt[0] != "cvc5" {
					res, by = r, alt[0]
					break
				}
			}
		}
	}
	if res == "unknown" {
		s.Unknown++
	}
	if d := time.Since(t0); os.Getenv("GOV_SLOW") != "" && d > 500*time.Millisecond {
		fmt.Fprintf(os.Stderr, "SLOW %v %s stage %d fb %v ms %d: %s\n", d, res, stage, fallback, ms, c.show(ts[len(ts)-1]))
		var b strings.Builder
		for _, t := range gr {
			b.WriteString("(assert " + s.full.send(t) + ")\n")
		}
		os.WriteFile(fmt.Sprintf("/tmp/slow%d.smt2", s.N), []byte(s.full.script(b.String())), 0o644)
		b.Reset()
		for _, t := range append(append([]*Term{}, gr...), s.textAxioms(gr)...) {
			b.WriteString("(assert " + s.fast.send(t) + ")\n")
		}
		os.WriteFile(fmt.Sprintf("/tmp/fast%d.smt2", s.N), []byte(s.fast.script(b.String())), 0o644)
	}
	if os.Getenv("GOV_DEBUG") == "2" {
		fmt.Fprintf(os.Stderr, "Q%d %s stage %d %v ms %d fb %v: %s\n", s.N, res, stage, time.Since(t0), ms, fallback, c.show(g))
	}
	s.cache[key] = res
	s.By[by]++
	return res, by
}

var dumpDir, dumpAll = os.Getenv("GOV_DUMP"), os.Getenv("GOV_DUMPALL") != ""

func (s *proc) script(asserts string) string {
	return "(set-logic ALL)\n" + s.log.String() + asserts + "(check-sat)\n"
}

func runAlt(cmd []string, script string, ms int) string {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond+5*time.Second)
	defer cancel()
	p := exec.CommandContext(ctx, cmd[0], cmd[1:]...)
	p.Stdin = strings.NewReader(script)
	o, _ := p.Output()
	for _, l := range strings.Split(string(o), "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" {
			return l
		}
	}
	return "unknown"
}

// ufName separates the sums and products of the curve by their number of arguments.
func ufName(t *Term) string {
	if len(t.name) > 2 && (t.name[:2] == "F." || t.name[:2] == "G.") {
		return fmt.Sprintf("%s/%d", t.name, len(t.args))
	}
	return t.name
}

func dagSize(ts []*Term) int {
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return len(seen)
}
