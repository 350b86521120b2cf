package main

// Replay: the contract text is ordinary Go. For a contract with a failed obligation it is executed
// on the real code, with generated inputs, in a test laid over the package.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Report struct {
	Name    string
	Runs    int
	Skipped int
	Checked int
	Failed  []string
	Input   []string
	Seed    int64
	Iter    int
	Died    bool
}

func (w *World) targetExpr(ct *Contract) string {
	if ct.Kind != "contract" || ct.Target == nil {
		return "nil"
	}
	f := ct.Target
	if r := f.Signature.Recv(); r != nil {
		t := types.TypeString(r.Type(), func(p *types.Package) string { return "" })
		return "(" + t + ")." + f.Name()
	}
	return f.Name()
}

// regFile lists the struct types of a package for the generator.
func (w *World) regFile(pkgPath string) string {
	var ns []string
	name := ""
	for _, n := range w.named {
		if n.Obj().Pkg().Path() != pkgPath {
			continue
		}
		name = n.Obj().Pkg().Name()
		if _, ok := n.Underlying().(*types.Interface); ok {
			continue
		}
		ns = append(ns, n.Obj().Name())
	}
	if len(ns) == 0 {
		return ""
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"reflect\"\n\n\t\"%s/zzgov\"\n)\n\nfunc init() {\n\tzzgov.Register(\n", name, repoPath)
	for _, n := range ns {
		fmt.Fprintf(&b, "\t\treflect.TypeOf((*%s)(nil)).Elem(),\n", n)
	}
	b.WriteString("\t)\n}\n")
	return b.String()
}

// constants harvests the literals of the packages involved.
func (w *World) constants(pkgs map[string]bool) (ints []int64, strs []string) {
	si, ss := map[int64]bool{}, map[string]bool{}
	for _, p := range w.pkgs {
		if !pkgs[p.PkgPath] {
			continue
		}
		for _, f := range p.Syntax {
			if strings.HasPrefix(filepath.Base(w.prog.Fset.Position(f.Pos()).Filename), "zz_") {
				continue
			}
			ast.Inspect(f, func(n ast.Node) bool {
				if l, ok := n.(*ast.BasicLit); ok {
					switch l.Kind {
					case token.INT:
						if x, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
							si[x] = true
						}
					case token.STRING:
						if x, err := strconv.Unquote(l.Value); err == nil && len(x) < 30 && !strings.Contains(x, " ") {
							ss[x] = true
						}
					}
				}
				return true
			})
		}
	}
	for k := range si {
		ints = append(ints, k)
	}
	for k := range ss {
		strs = append(strs, k)
	}
	sort.Slice(ints, func(i, j int) bool { return ints[i] < ints[j] })
	sort.Strings(strs)
	return
}

// replay executes contracts of one package on the real code.
func (w *World) replay(pkg string, cts []*Contract, seed int64, secs float64, iter int, consts map[string]bool) ([]*Report, string) {
	dir, err := os.MkdirTemp("", "gov-replay")
	if err != nil {
		return nil, err.Error()
	}
	defer os.RemoveAll(dir)
	rep := map[string]string{}
	for k, v := range w.overlay {
		rep[k] = v
	}
	put := func(at, text string) {
		f := filepath.Join(dir, strconv.Itoa(len(rep))+".go")
		os.WriteFile(f, []byte(text), 0o644)
		rep[at] = f
	}
	for _, p := range w.pkgs {
		if !isRepo(p.Types) || strings.HasSuffix(p.PkgPath, "/zzgov") || p.Name == "main" {
			continue
		}
		if t := w.regFile(p.PkgPath); t != "" {
			put(filepath.Join(repoDir, strings.TrimPrefix(p.PkgPath, repoPath), "zz_reg.go"), t)
		}
	}
	var b strings.Builder
	pname := ""
	for _, p := range w.pkgs {
		if p.PkgPath == pkg {
			pname = p.Name
		}
	}
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"testing\"\n\n\t\"%s/zzgov\"\n)\n\nfunc TestZZReplay(t *testing.T) {\n\tzzgov.Replay([]zzgov.Case{\n", pname, repoPath)
	var names []string
	for _, ct := range cts {
		fmt.Fprintf(&b, "\t\t{Name: %q, Fn: %s, Target: %s},\n", ct.Name, ct.Fn.Name(), w.targetExpr(ct))
		names = append(names, ct.Name)
	}
	b.WriteString("\t})\n}\n")
	rel := strings.TrimPrefix(pkg, repoPath)
	put(filepath.Join(repoDir, rel, "zz_replay_test.go"), b.String())
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	if consts == nil {
		consts = map[string]bool{pkg: true}
	}
	ints, strs := w.constants(consts)
	cb, _ := json.Marshal(map[string]any{"Ints": ints, "Strs": strs})
	os.WriteFile(filepath.Join(dir, "consts.json"), cb, 0o644)
	out := filepath.Join(dir, "out.json")
	bin := filepath.Join(dir, "replay.test")
	env := append(os.Environ(), "GOFLAGS=-mod=vendor", "GOPROXY=off", "GOWORK=off", "GOMEMLIMIT=3GiB", "ZZ_SEED="+strconv.FormatInt(seed, 10), fmt.Sprintf("ZZ_SECS=%g", secs), "ZZ_OUT="+out, "ZZ_CONSTS="+filepath.Join(dir, "consts.json"))
	build := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", bin, "."+rel)
	build.Dir = repoDir
	build.Env = env
	if o, err := build.CombinedOutput(); err != nil {
		return nil, "the replay does not build: " + string(o)
	}
	var all []*Report
	todo := names
	msg := ""
	for len(todo) > 0 {
		limit := time.Duration(secs*float64(len(todo))+20) * time.Second
		e2 := append(append([]string{}, env...), "ZZ_CASES="+strings.Join(todo, " "))
		if iter >= 0 {
			e2 = append(e2, "ZZ_ITER="+strconv.Itoa(iter))
		}
		run := exec.Command("timeout", "-k", "2", fmt.Sprintf("%.0f", limit.Seconds()), bin, "-test.run", "TestZZReplay", "-test.timeout", "0")
		run.Dir = dir
		run.Env = e2
		os.Remove(out)
		o, err := run.CombinedOutput()
		var rs []*Report
		if b, e := os.ReadFile(out); e == nil {
			json.Unmarshal(b, &rs)
		}
		done := map[string]bool{}
		for _, r := range rs {
			done[r.Name] = true
			all = append(all, r)
		}
		if err == nil {
			break
		}
		// the process died: on which case?
		var cur struct {
			Name string
			Iter int
		}
		if b, e := os.ReadFile(out + ".cur"); e == nil {
			json.Unmarshal(b, &cur)
		}
		tail := string(o)
		if len(tail) > 1500 {
			tail = tail[:1500]
		}
		msg += "the replay process died: " + tail + "\n"
		if cur.Name == "" || done[cur.Name] {
			break
		}
		r := &Report{Name: cur.Name, Iter: cur.Iter, Seed: seed, Died: true, Runs: cur.Iter + 1}
		all = append(all, r)
		done[cur.Name] = true
		var rest []string
		for _, n := range todo {
			if !done[n] {
				rest = append(rest, n)
			}
		}
		if len(rest) == len(todo) {
			break
		}
		todo = rest
	}
	return all, msg
}
