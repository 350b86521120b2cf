package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type World struct {
	names     map[*ssa.Function]map[ssa.Value]map[string]bool
	prog      *ssa.Program
	pkgs      []*packages.Package
	ssaPkgs   map[string]*ssa.Package
	named     []*types.Named
	implC     map[string][]types.Type
	typeIDs   map[string]int64
	typeByKey map[string]types.Type
	globals   map[*ssa.Global]int64
	ghost     map[*ssa.Function]bool
	opaque    map[*ssa.Function]bool
	uninterp  map[*ssa.Function]bool
	use       map[*ssa.Function]*Contract
	contracts []*Contract
	specPkgs  map[string]bool
	debug     bool
	errs      []string
	lostSpecs []lostSpec
	overlay   map[string]string
	mu        sync.Mutex
	ikeys     map[types.Type]string
}

func sortStrings(s []string) { sort.Strings(s) }

type lostSpec struct {
	file, msg string
	props     []string
}

var repoDir = "/repo"
var specDir = "/verif/specs"

// specOverlay maps files laid over /repo to their sources under specDir.
func specOverlay() map[string]string {
	m := map[string]string{}
	filepath.Walk(specDir, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(specDir, p)
		m[filepath.Join(repoDir, rel)] = p
		return nil
	})
	return m
}

func loadWorld(only map[string]bool) (*World, error) {
	w := &World{names: map[*ssa.Function]map[ssa.Value]map[string]bool{}, ssaPkgs: map[string]*ssa.Package{}, implC: map[string][]types.Type{}, ikeys: map[types.Type]string{}, typeIDs: map[string]int64{}, typeByKey: map[string]types.Type{}, globals: map[*ssa.Global]int64{}, ghost: map[*ssa.Function]bool{}, opaque: map[*ssa.Function]bool{}, uninterp: map[*ssa.Function]bool{}, use: map[*ssa.Function]*Contract{}, specPkgs: map[string]bool{}}
	ov := specOverlay()
	w.overlay = ov
	overlay := map[string][]byte{}
	for k, p := range ov {
		b, err := os.ReadFile(p)
		if err != nil {
			return nil, err
		}
		overlay[k] = b
	}
	for tries := 0; ; tries++ {
		cfg := &packages.Config{
			Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
			Dir:  repoDir, Overlay: overlay,
			Env: append(os.Environ(), "GOFLAGS=-mod=vendor", "GOPROXY=off", "GOWORK=off"),
		}
		ps, err := packages.Load(cfg, "./...")
		if err != nil {
			return nil, err
		}
		bad := map[string]string{}
		var hard []string
		packages.Visit(ps, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				file := strings.SplitN(e.Pos, ":", 2)[0]
				if strings.HasPrefix(filepath.Base(file), "zz_") {
					bad[file] = e.Error()
				} else if strings.HasPrefix(p.PkgPath, repoPath) {
					hard = append(hard, e.Error())
				}
			}
		})
		if len(bad) > 0 && tries < 4 {
			for f, m := range bad {
				w.errs = append(w.errs, "specification file "+ov[f]+" does not compile against the current source: "+m)
				ls := lostSpec{file: ov[f], msg: m}
				for _, l := range strings.Split(string(overlay[f]), "\n") {
					if strings.HasPrefix(l, "//gov:fileprops ") || strings.HasPrefix(l, "//gov:lemma ") || strings.HasPrefix(l, "//gov:prop ") {
						ls.props = append(ls.props, strings.Fields(l)[1:]...)
					}
				}
				w.lostSpecs = append(w.lostSpecs, ls)
				delete(overlay, f)
				delete(w.overlay, f)
			}
			continue
		}
		if len(hard) > 0 {
			return nil, fmt.Errorf("/repo does not compile: %s", hard[0])
		}
		w.pkgs = ps
		break
	}
	prog, sp := ssautil.AllPackages(w.pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	w.prog = prog
	for i, p := range w.pkgs {
		if sp[i] == nil {
			continue
		}
		w.ssaPkgs[p.PkgPath] = sp[i]
		if strings.HasSuffix(p.PkgPath, "/zzgov") {
			continue
		}
		if !isRepo(p.Types) {
			continue
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			f := prog.Fset.Position(tn.Pos()).Filename
			if strings.HasPrefix(filepath.Base(f), "zz_") || strings.HasSuffix(f, "_test.go") {
				continue
			}
			if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams() == nil {
				w.named = append(w.named, nt)
			}
		}
	}
	w.collect()
	return w, nil
}

func (w *World) impls(it types.Type) []types.Type {
	i, ok := it.Underlying().(*types.Interface)
	if !ok || i.NumMethods() == 0 {
		return nil
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	k, has := w.ikeys[it]
	if !has {
		k = types.TypeString(it, nil)
		w.ikeys[it] = k
	}
	if r, ok := w.implC[k]; ok {
		return r
	}
	var out []types.Type
	if w.repoIface(it) {
		for _, n := range w.named {
			if _, isI := n.Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(n, i) {
				out = append(out, n)
			} else if types.Implements(types.NewPointer(n), i) {
				out = append(out, types.NewPointer(n))
			}
		}
	}
	w.implC[k] = out
	return out
}
func (w *World) repoIface(it types.Type) bool {
	n, ok := types.Unalias(it).(*types.Named)
	if !ok {
		return false
	}
	return isRepo(n.Obj().Pkg())
}
func (w *World) typeID(t types.Type) int64 {
	w.mu.Lock()
	defer w.mu.Unlock()
	k := tkey(t)
	if _, ok := w.typeIDs[k]; !ok {
		w.typeIDs[k] = int64(len(w.typeIDs) + 1)
		w.typeByKey[k] = t
	}
	return w.typeIDs[k]
}
func (w *World) globalID(g *ssa.Global) int64 {
	w.mu.Lock()
	defer w.mu.Unlock()
	if _, ok := w.globals[g]; !ok {
		w.globals[g] = 1_000 + int64(len(w.globals))
	}
	return w.globals[g]
}
func (w *World) method(d types.Type, m *types.Func) *ssa.Function {
	return w.prog.LookupMethod(d, m.Pkg(), m.Name())
}
func (w *World) isSpecFn(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg == nil {
		return false
	}
	if strings.HasSuffix(f.Pkg.Pkg.Path(), "/zzgov") {
		return true
	}
	return strings.HasPrefix(filepath.Base(w.prog.Fset.Position(f.Pos()).Filename), "zz_")
}
func (w *World) isKeys(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Keys" && strings.HasSuffix(n.Obj().Pkg().Path(), "/zzgov")
}

func (w *World) isIter(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Iter" && strings.HasSuffix(n.Obj().Pkg().Path(), "/zzgov")
}

func (w *World) typeOf(k string) types.Type {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.typeByKey[k]
}

// collect reads the //gov: directives of the specification files.
func (w *World) collect() {
	for _, p := range w.pkgs {
		sp := w.ssaPkgs[p.PkgPath]
		if sp == nil {
			continue
		}
		for _, f := range p.Syntax {
			fn := w.prog.Fset.Position(f.Pos()).Filename
			if !strings.HasPrefix(filepath.Base(fn), "zz_") {
				continue
			}
			var fileProps []string
			for _, cg := range f.Comments {
				for _, c := range cg.List {
					if strings.HasPrefix(c.Text, "//gov:fileprops ") {
						fileProps = strings.Fields(c.Text)[1:]
					}
				}
			}
			invs := map[string]*ssa.Function{}
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil {
					invs[fd.Name.Name] = sp.Func(fd.Name.Name)
				}
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				ct := &Contract{Name: strings.TrimPrefix(p.PkgPath, repoPath+"/") + "." + fd.Name.Name, Fn: sp.Func(fd.Name.Name), Pkg: p.PkgPath, Props: fileProps}
				for _, c := range fd.Doc.List {
					if !strings.HasPrefix(c.Text, "//gov:") {
						continue
					}
					fs := strings.Fields(strings.TrimPrefix(c.Text, "//gov:"))
					switch fs[0] {
					case "contract":
						ct.Kind = "contract"
						ct.TargetName = fs[1]
						ct.Target = w.resolve(p, sp, fs[1])
						if ct.Target == nil {
							ct.Missing = true
						}
					case "lemma":
						ct.Kind = "lemma"
						if len(fs) > 1 {
							ct.Props = fs[1:]
						}
					case "prop":
						ct.Props = fs[1:]
					case "helper":
						ct.Helper = true
					case "use":
						ct.Use = true
					case "pure":
						ct.Pure = true
					case "local":
						// other packages execute the function itself
						ct.Local = true
					case "bodies":
						// the functions with local contracts are executed themselves
						ct.Bodies = true
					case "maypanic":
						ct.MayPanic = true
					case "noreplay":
						ct.NoReplay = true
					case "bounded":
						ct.Bounded = strings.Join(fs[1:], " ")
					case "ghost":
						w.ghost[ct.Fn] = true
					case "opaque":
						w.opaque[ct.Fn] = true
					case "transparent":
						ct.Transparent = fs[1:]
					case "folded":
						ct.Folded = fs[1:]
					case "uninterpreted":
						w.ghost[ct.Fn] = true
						w.uninterp[ct.Fn] = true
					case "assumed":
						ct.Use = true
						ct.Assumed = strings.Join(fs[1:], " ")
					case "depth":
						fmt.Sscan(fs[1], &ct.Depth)
					case "fuel":
						fmt.Sscan(fs[1], &ct.Fuel)
					case "timeout":
						fmt.Sscan(fs[1], &ct.Timeout)
					case "inv":
						for _, n := range fs[1:] {
							if iv := invs[n]; iv != nil {
								ct.Invs = append(ct.Invs, iv)
							} else {
								w.errs = append(w.errs, ct.Name+": no template "+n)
							}
						}
					default:
						w.errs = append(w.errs, ct.Name+": directive "+fs[0])
					}
				}
				if ct.Kind == "" {
					continue
				}
				if ct.Missing && ct.Helper {
					w.errs = append(w.errs, ct.Name+": its function "+ct.TargetName+" is gone; callers are verified through whatever replaced it")
					continue
				}
				if ct.Assumed == "" {
					w.contracts = append(w.contracts, ct)
				}
				if ct.Use && ct.Target != nil {
					w.use[ct.Target] = ct
				}
			}
		}
	}
	sort.Slice(w.contracts, func(i, j int) bool { return w.contracts[i].Name < w.contracts[j].Name })
}

// resolve finds a function: "name", "(*T).m", "(T).m" or "Iface.m" (the only implementation).
func (w *World) resolve(p *packages.Package, sp *ssa.Package, n string) *ssa.Function {
	if !strings.Contains(n, ".") {
		return sp.Func(n)
	}
	i := strings.LastIndex(n, ".")
	tn, m := strings.Trim(n[:i], "(*)"), n[i+1:]
	o, ok := p.Types.Scope().Lookup(tn).(*types.TypeName)
	if !ok {
		return nil
	}
	var t types.Type = o.Type()
	if _, isI := t.Underlying().(*types.Interface); isI {
		im := w.impls(t)
		if len(im) != 1 {
			return nil
		}
		t = im[0]
	} else if w.prog.MethodSets.MethodSet(t).Lookup(p.Types, m) == nil {
		t = types.NewPointer(t)
	}
	if w.prog.MethodSets.MethodSet(t).Lookup(p.Types, m) == nil {
		return nil
	}
	return w.prog.LookupMethod(t, p.Types, m)
}
