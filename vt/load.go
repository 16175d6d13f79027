package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/youthlin/t"

// World is the type-checked program under analysis.
type World struct {
	dir       string
	pkgs      []*packages.Package
	prog      *ssa.Program
	ssaPkgs   map[string]*ssa.Package
	instIDs   map[string]int
	ctxIDs    map[string]int
	siteIDs   map[string]int
	ownMemo   map[*ssa.Function]bool
	firstTerm int // terms up to here belong to package initialisation
	fnInfos   map[*ssa.Function]*fnInfo
	valIDs    map[ssa.Value]int
	all       map[*ssa.Function]bool
	gconst    map[*ssa.Global]*Term
	gstate    map[*ssa.Global]int // 0 unknown 1 in progress 2 done
	gcells    *State
	gwriters  map[*ssa.Global][]*ssa.Function
	modsMemo  map[*ssa.Function]*modSet
}

func repoDir() string {
	if d := os.Getenv("VT_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadWorld() (*World, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir(), Env: os.Environ()}
	pkgs, err := packages.Load(cfg, modPath+"/...", modPath+"/cmd/xtemplate/...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("type-check: %s", strings.Join(errs, "; "))
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{dir: repoDir(), pkgs: pkgs, prog: prog, ssaPkgs: map[string]*ssa.Package{}, instIDs: map[string]int{}, ownMemo: map[*ssa.Function]bool{}, ctxIDs: map[string]int{}, siteIDs: map[string]int{},
		fnInfos: map[*ssa.Function]*fnInfo{}, valIDs: map[ssa.Value]int{}, gconst: map[*ssa.Global]*Term{}, gstate: map[*ssa.Global]int{}, modsMemo: map[*ssa.Function]*modSet{}}
	for i, p := range pkgs {
		if sp[i] != nil {
			w.ssaPkgs[p.PkgPath] = sp[i]
		}
	}
	w.all = ssautil.AllFunctions(prog)
	w.gwriters = map[*ssa.Global][]*ssa.Function{}
	for fn := range w.all {
		if !w.isRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					// a plain load does not write; anything else may
					if u, ok := in.(*ssa.UnOp); ok && u.X == g {
						continue
					}
					if d, ok := in.(*ssa.DebugRef); ok && d.X == g {
						continue
					}
					w.gwriters[g] = append(w.gwriters[g], fn)
				}
			}
		}
	}
	return w, nil
}

func (w *World) valID(v ssa.Value) int {
	if id, ok := w.valIDs[v]; ok {
		return id
	}
	id := len(w.valIDs) + 1
	w.valIDs[v] = id
	return id
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg()
		}
		if o := f.Origin(); o != nil && o != f {
			return fnPkg(o)
		}
	}
	return nil
}

// isRepo: the function is defined by the repository.
func (w *World) isRepo(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

// canon is the name of a function independent of instantiation.
func canon(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	if fn.Synthetic != "" {
		if o, ok := fn.Object().(*types.Func); ok && !strings.HasPrefix(fn.Synthetic, "instance") {
			_ = o
		}
	}
	return fn.String()
}

// fn finds a package-level function or method: "pkgsuffix.Name" or "pkgsuffix.(*T).M".
func (w *World) fn(pkg, name string) *ssa.Function {
	path := modPath
	if pkg != "" {
		path += "/" + pkg
	}
	p := w.ssaPkgs[path]
	if p == nil {
		return nil
	}
	if recv, m, ok := strings.Cut(name, "."); ok {
		ptr := strings.HasPrefix(recv, "*")
		recv = strings.TrimPrefix(recv, "*")
		tn, ok := p.Pkg.Scope().Lookup(recv).(*types.TypeName)
		if !ok {
			return nil
		}
		var t types.Type = tn.Type()
		if ptr {
			t = types.NewPointer(t)
		}
		sel := w.prog.MethodSets.MethodSet(t).Lookup(p.Pkg, m)
		if sel == nil {
			return nil
		}
		f := w.prog.MethodValue(sel)
		if f != nil && f.Synthetic != "" && len(f.Blocks) > 0 && !ptr {
			return f
		}
		return f
	}
	return p.Func(name)
}

func (w *World) typ(pkg, name string) types.Type {
	path := modPath
	if pkg != "" {
		path += "/" + pkg
	}
	p := w.ssaPkgs[path]
	if p == nil {
		return nil
	}
	tn, ok := p.Pkg.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return nil
	}
	return tn.Type()
}

func (w *World) posString(p interface{ IsValid() bool }) string { return "" }
