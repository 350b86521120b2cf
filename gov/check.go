package main

// check decides one property: every obligation of its contracts, from /repo's current source.

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

const verifDir = "/verif"

type finding struct{ prop, contract, what string }

// known findings: lines "known: property=ID contract=NAME what fails".
func knownFindings() []finding {
	var out []finding
	f, err := os.Open(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		fs := strings.Fields(sc.Text())
		if len(fs) < 3 || fs[0] != "known:" {
			continue
		}
		out = append(out, finding{strings.TrimPrefix(fs[1], "property="), strings.TrimPrefix(fs[2], "contract="), strings.Join(fs[3:], " ")})
	}
	return out
}

func (w *World) contractsOf(prop, only string) []*Contract {
	var cts []*Contract
	for _, c := range w.contracts {
		if only != "" && !strings.Contains(c.Name, only) {
			continue
		}
		ok := prop == ""
		for _, p := range c.Props {
			ok = ok || p == prop
		}
		if ok {
			cts = append(cts, c)
		}
	}
	return cts
}

// verifyAll verifies the contracts; what is not proved is tried once more, for up to again, with longer time limits.
func verifyAll(w *World, cts []*Contract, ms, workers int, again time.Duration) []*Result {
	results := make([]*Result, len(cts))
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				results[i] = verify(w, cts[i], ms)
			}
		}()
	}
	for i := range cts {
		ch <- i
	}
	close(ch)
	wg.Wait()
	if again > 0 {
		deadline := time.Now().Add(again)
		for i, r := range results {
			if r.Err != "" || len(r.bad()) == 0 {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				if n := verifyBy(w, cts[i], ms, 5, deadline); n.Err == "" && len(n.bad()) == 0 {
					n.Ms += r.Ms
					n.SolverMs += r.SolverMs
					results[i] = n
				}
			}()
		}
		wg.Wait()
	}
	return results
}

func mainCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	fs.StringVar(&repoDir, "repo", "/repo", "")
	fs.StringVar(&specDir, "specs", "/verif/specs", "")
	evDir := fs.String("evidence", filepath.Join(verifDir, "evidence"), "")
	fs.Parse(args)
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	ms := 12000
	if tier == "thorough" {
		ms = 60000
	}
	w, err := loadWorld(nil)
	if err != nil {
		fmt.Println("LOAD ERROR:", err)
		os.Exit(2)
	}
	for _, e := range w.errs {
		fmt.Println("NOTE:", e)
	}
	var proofs, bounded []*Contract
	for _, c := range w.contractsOf(*prop, "") {
		if c.Bounded != "" {
			bounded = append(bounded, c)
		} else {
			proofs = append(proofs, c)
		}
	}
	var gone []string // specification files that speak of things the source no longer has
	for _, l := range w.lostSpecs {
		for _, p := range l.props {
			if p == *prop {
				gone = append(gone, l.file+": "+l.msg)
			}
		}
	}
	results := verifyAll(w, proofs, ms, 8, 150*time.Second)
	known := knownFindings()
	isKnown := func(c string) *finding {
		for i := range known {
			if known[i].prop == *prop && known[i].contract == c {
				return &known[i]
			}
		}
		return nil
	}
	type fail struct {
		ct *Contract
		r  *Result
	}
	var fails []fail
	obl, dis := 0, 0
	by := map[string]int{}
	var solverMs int64
	queries, loops, invs := 0, 0, 0
	trusted, inl := map[string]bool{}, map[string]bool{}
	var fnlist, bmax []map[string]any
	for i, r := range results {
		obl += len(r.Obl)
		dis += len(r.Obl) - len(r.bad())
		for k, n := range r.By {
			by[k] += n
		}
		solverMs += r.SolverMs
		queries += r.Queries
		loops += r.Loops
		invs += r.Invs
		for _, t := range r.Trusted {
			trusted[t] = true
		}
		for _, t := range r.Inlined {
			inl[t] = true
		}
		m := map[string]any{"contract": r.Contract, "kind": r.Kind, "obligations": len(r.Obl), "discharged": len(r.Obl) - len(r.bad()), "solver_ms": r.SolverMs}
		if r.Target != "" {
			m["function"] = r.Target
		}
		if len(r.Used) > 0 {
			m["by_contract"] = r.Used
		}
		if r.Err != "" {
			m["error"] = r.Err
		}
		fnlist = append(fnlist, m)
		st := "ok  "
		if r.Err != "" || len(r.bad()) > 0 {
			st = "FAIL"
			fails = append(fails, fail{proofs[i], r})
		}
		fmt.Printf("%s %-60s obligations=%d discharged=%d solver=%dms\n", st, r.Contract, len(r.Obl), len(r.Obl)-len(r.bad()), r.SolverMs)
	}
	// replays on the real code: bounded stand-ins, failed contracts; everything when thorough
	reports := map[string]*Report{}
	msgs := map[string]string{}
	runReplays := func(cts []*Contract, secs float64) {
		byPkg := map[string][]*Contract{}
		for _, c := range cts {
			if !c.NoReplay && !c.Missing {
				byPkg[c.Pkg] = append(byPkg[c.Pkg], c)
			}
		}
		consts := map[string]bool{}
		for k := range inl {
			if i := strings.LastIndex(k, "/"); i >= 0 {
				// package path of an inlined function
				k = strings.TrimLeft(k, "(*")
				j := strings.LastIndex(k, "/")
				if d := strings.Index(k[j:], "."); d > 0 {
					consts[k[:j+d]] = true
				}
			}
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		sem := make(chan bool, 6)
		var pk []string
		for p := range byPkg {
			pk = append(pk, p)
		}
		sort.Strings(pk)
		for _, p := range pk {
			p := p
			// large packages are split so that the parts run side by side
			cs := byPkg[p]
			for len(cs) > 0 {
				n := len(cs)
				if n > 12 {
					n = 12
				}
				part := cs[:n]
				cs = cs[n:]
				wg.Add(1)
				go func() {
					defer wg.Done()
					sem <- true
					defer func() { <-sem }()
					cc := map[string]bool{p: true}
					for k := range consts {
						cc[k] = true
					}
					rs, msg := w.replay(p, part, seed, secs, -1, cc)
					mu.Lock()
					for _, r := range rs {
						reports[r.Name] = r
					}
					if msg != "" {
						msgs[p] += msg
					}
					mu.Unlock()
				}()
			}
		}
		wg.Wait()
	}
	var rc []*Contract
	rc = append(rc, bounded...)
	if tier == "thorough" {
		rc = append(rc, proofs...)
	} else {
		for _, f := range fails {
			rc = append(rc, f.ct)
		}
	}
	secs := 25.0
	if tier == "thorough" {
		secs = 30
	}
	if n := len(rc); n > 6 {
		secs = secs * 6 / float64(n)
		if secs < 4 {
			secs = 4
		}
	}
	if len(rc) > 0 {
		runReplays(rc, secs)
	}
	os.MkdirAll(filepath.Join(*evDir, "replays"), 0o755)
	violations := 0
	var lines []string
	report := func(ct *Contract, name string, r *Result, why string) {
		if k := isKnown(name); k != nil {
			lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s (%s)", *prop, k.what, name))
			return
		}
		violations++
		path := filepath.Join(*evDir, "replays", *prop+"-"+strings.NewReplacer("/", "_", ".", "_").Replace(name)+".json")
		m := map[string]any{"property": *prop, "contract": name, "why": why}
		suffix := " no-failing-input-found"
		if r != nil {
			m["error"] = r.Err
			m["failed_obligations"] = r.bad()
		}
		rep := reports[name]
		if rep != nil {
			m["replay"] = rep
			if len(rep.Failed) > 0 {
				suffix = ""
				m["failing_input"] = rep.Input
				m["broken"] = rep.Failed
				m["rerun"] = fmt.Sprintf("/verif/bin/gov replay -contract %s -seed %d -iter %d", name, rep.Seed, rep.Iter)
				fmt.Printf("  %s: on the real code, %s fails for input %.400s\n", name, strings.Join(rep.Failed, "; "), strings.Join(rep.Input, " | "))
			} else if rep.Died {
				m["died"] = msgs[ct.Pkg]
				if ct != nil && strings.Contains(msgs[ct.Pkg], "stack overflow") {
					suffix = ""
					m["rerun"] = fmt.Sprintf("/verif/bin/gov replay -contract %s -seed %d -iter %d", name, rep.Seed, rep.Iter)
				}
			}
		}
		if ct != nil && msgs[ct.Pkg] != "" {
			m["replay_note"] = msgs[ct.Pkg]
		}
		b, _ := json.MarshalIndent(m, "", " ")
		os.WriteFile(path, b, 0o644)
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s%s", *prop, path, suffix))
	}
	failed := map[string]bool{}
	for _, f := range fails {
		failed[f.r.Contract] = true
		if f.r.Err != "" {
			fmt.Printf("  %s: %s\n", f.r.Contract, f.r.Err)
		}
		for _, o := range f.r.bad() {
			fmt.Printf("  %s: %s [%s] %s\n", f.r.Contract, o.Name, o.Status, o.Detail)
		}
		report(f.ct, f.r.Contract, f.r, "an obligation of this contract is not discharged")
	}
	for _, g := range gone {
		report(nil, "specification-"+filepath.Base(strings.SplitN(g, ":", 2)[0]), nil, "the specification no longer fits the source: "+g)
	}
	for _, c := range rc {
		rep := reports[c.Name]
		if failed[c.Name] {
			continue
		}
		if rep == nil {
			if c.Bounded != "" {
				report(c, c.Name, nil, "the bounded check did not run")
			}
			continue
		}
		if len(rep.Failed) > 0 || rep.Died && c.Bounded != "" {
			report(c, c.Name, nil, "execution of the contract on the real code fails")
		}
		if c.Bounded != "" {
			bmax = append(bmax, map[string]any{"contract": c.Name, "bound": c.Bounded, "runs": rep.Runs, "effective": rep.Runs - rep.Skipped})
			if rep.Runs == rep.Skipped {
				report(c, c.Name, nil, "the bounded check is vacuous")
			}
		}
	}
	if len(proofs)+len(bounded) == 0 {
		report(nil, "none", nil, "no contract of this property is left")
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	// evidence
	set := func(m map[string]bool) []string {
		o := []string{}
		for k := range m {
			o = append(o, k)
		}
		sort.Strings(o)
		return o
	}
	cov := map[string]any{
		"obligations": obl, "discharged": dis,
		"checker_cmd":          "/verif/bin/gov check -prop " + *prop,
		"trusted_base":         append([]string{"the verification-condition generator /verif/gov over golang.org/x/tools/go/ssa", "z3 5.3.2, cvc5 1.1.2, z3 4.8.12"}, set(trusted)...),
		"contracts":            fnlist,
		"functions_executed":   set(inl),
		"discharged_by":        by,
		"solver_ms":            solverMs,
		"solver_queries":       queries,
		"loops_cut":            loops,
		"loop_invariants_kept": invs,
		"bounded_stand_ins":    bmax,
	}
	if len(reports) > 0 {
		n, sk := 0, 0
		for _, r := range reports {
			n += r.Runs
			sk += r.Skipped
		}
		cov["replay_executions"] = n
		cov["replay_executions_meeting_the_preconditions"] = n - sk
	}
	ev := map[string]any{"property": *prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": append(assumptions, w.errs...), "wall_s": time.Since(t0).Seconds(), "violations": violations}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(*evDir, *prop+".json"), b, 0o644)
	fmt.Printf("%s: %d contracts, %d obligations, %d discharged, %d violations, %.1fs\n", *prop, len(results), obl, dis, violations, time.Since(t0).Seconds())
	if violations > 0 {
		os.Exit(1)
	}
}

var assumptions = []string{
	"integers are mathematical with the wrap-around of their Go type; lengths stay below 2^40",
	"append yields a list of its own: two lists never share spare capacity",
	"maps are finite functions; iteration order is arbitrary",
	"no goroutine changes the objects at hand; memory is not exhausted and recursion does not run out of stack",
	"an object given to a function was made before the call; private fields are changed by the code of their package only",
	"external functions (standard library, kyber, uuid) behave as their models in /verif/gov/models.go say; a hash is a fixed unknown function of its input",
	"termination is not proved",
}

func mainReplay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	name := fs.String("contract", "", "")
	prop := fs.String("prop", "", "")
	seed := fs.Int64("seed", 1, "")
	iter := fs.Int("iter", -1, "")
	secs := fs.Float64("secs", 5, "")
	fs.StringVar(&repoDir, "repo", "/repo", "")
	fs.StringVar(&specDir, "specs", "/verif/specs", "")
	fs.Parse(args)
	w, err := loadWorld(nil)
	if err != nil {
		fmt.Println("LOAD ERROR:", err)
		os.Exit(2)
	}
	by := map[string][]*Contract{}
	for _, c := range w.contractsOf(*prop, *name) {
		if !c.NoReplay && !c.Missing {
			by[c.Pkg] = append(by[c.Pkg], c)
		}
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 7)
	var mu sync.Mutex
	for p, cs := range by {
		for len(cs) > 0 {
			n := min(len(cs), 10)
			part := cs[:n]
			cs = cs[n:]
			wg.Add(1)
			go func(p string) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				rs, msg := w.replay(p, part, *seed, *secs, *iter, nil)
				mu.Lock()
				defer mu.Unlock()
				if msg != "" {
					fmt.Println(msg)
				}
				for _, r := range rs {
					st := "ok"
					if len(r.Failed) > 0 || r.Died {
						st = "FAIL"
					} else if r.Runs == r.Skipped {
						st = "VACUOUS"
					}
					fmt.Printf("%-7s %s runs=%d skipped=%d checks=%d iter=%d %s\n", st, r.Name, r.Runs, r.Skipped, r.Checked, r.Iter, strings.Join(r.Failed, "; "))
					for _, i := range r.Input {
						fmt.Println("        ", i)
					}
				}
			}(p)
		}
	}
	wg.Wait()
}
