package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/steve-care-software/rodkina"

// World is the resolved program under analysis.
type World struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  []*packages.Package
	Prog  *ssa.Program
	SPkgs map[string]*ssa.Package
	// Funcs: every source function/method/closure of the repository, sorted.
	Funcs      []*ssa.Function
	filledMaps map[string]bool
	// Named: every named (non interface) type of the repository.
	Named []*types.Named
	// Ifaces: every named interface of the repository.
	Ifaces   []*types.Named
	implMemo map[*types.Named][]types.Type
	reads    map[*types.Var]bool

	sharedShapes *ShapeDB
	sharedSum    *SumDB
	mutMemo      map[*types.Var]bool
}

func loadWorld(dir string) (*World, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=vendor", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "GOWORK=off")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedExportFile | packages.NeedDeps,
		Dir: dir, Env: env, Fset: token.NewFileSet(), Tests: false,
	}
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no package loaded from %s", dir)
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	w := &World{Dir: dir, Fset: cfg.Fset, Pkgs: pkgs, Prog: prog, SPkgs: map[string]*ssa.Package{}, implMemo: map[*types.Named][]types.Type{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for package %s", pkgs[i].PkgPath)
		}
		sp.Build()
		w.SPkgs[pkgs[i].PkgPath] = sp
	}
	all := ssautil.AllFunctions(prog)
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !w.inRepo(f) || f.Synthetic != "" && !strings.HasPrefix(f.Synthetic, "range-over-func") && f.Origin() == nil {
			return
		}
		seen[f] = true
		w.Funcs = append(w.Funcs, f)
	}
	for f := range all {
		add(f)
	}
	for _, sp := range w.SPkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				n, ok := types.Unalias(m.Type()).(*types.Named)
				if !ok {
					continue
				}
				if types.IsInterface(n) {
					w.Ifaces = append(w.Ifaces, n)
					continue
				}
				w.Named = append(w.Named, n)
				for _, t := range []types.Type{n, types.NewPointer(n)} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						add(prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	for i := 0; i < len(w.Funcs); i++ {
		for _, a := range w.Funcs[i].AnonFuncs {
			add(a)
		}
	}
	sort.Slice(w.Funcs, func(i, j int) bool { return w.Funcs[i].String() < w.Funcs[j].String() })
	key := func(n *types.Named) string { return n.Obj().Pkg().Path() + "." + n.Obj().Name() }
	sort.Slice(w.Named, func(i, j int) bool { return key(w.Named[i]) < key(w.Named[j]) })
	sort.Slice(w.Ifaces, func(i, j int) bool { return key(w.Ifaces[i]) < key(w.Ifaces[j]) })
	return w, nil
}

func (w *World) inRepo(f *ssa.Function) bool {
	p := f.Pkg
	if p == nil && f.Origin() != nil {
		p = f.Origin().Pkg
	}
	if p == nil && f.Parent() != nil {
		return w.inRepo(f.Parent())
	}
	if p == nil {
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath)
		}
		return false
	}
	return strings.HasPrefix(p.Pkg.Path(), modPath)
}

func pkgInRepo(p *types.Package) bool { return p != nil && strings.HasPrefix(p.Path(), modPath) }

// impls lists the repository types implementing a repository interface.
func (w *World) impls(n *types.Named) []types.Type {
	if r, ok := w.implMemo[n]; ok {
		return r
	}
	var out []types.Type
	if it, ok := n.Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
		for _, c := range w.Named {
			if c.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(c, it) {
				out = append(out, c)
			} else if p := types.NewPointer(c); types.Implements(p, it) {
				out = append(out, p)
			}
		}
	}
	w.implMemo[n] = out
	return out
}

// devirt resolves an interface method call to its unique implementation.
func (w *World) devirt(recv types.Type, m *types.Func) *ssa.Function {
	n, ok := types.Unalias(recv).(*types.Named)
	if !ok || !pkgInRepo(n.Obj().Pkg()) {
		return nil
	}
	is := w.impls(n)
	if len(is) != 1 {
		return nil
	}
	return w.methodOf(is[0], m.Name())
}

func (w *World) methodOf(t types.Type, name string) *ssa.Function {
	ms := w.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return w.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (w *World) pkg(rel string) *ssa.Package { return w.SPkgs[modPath+"/"+rel] }

// iface finds a named interface of a package by name.
func (w *World) iface(rel, name string) *types.Named {
	sp := w.pkg(rel)
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// ifaceMethod finds the implementation of an exported interface method.
func (w *World) ifaceMethod(rel, ifc, meth string) (*ssa.Function, error) {
	n := w.iface(rel, ifc)
	if n == nil {
		return nil, fmt.Errorf("unresolved anchor: interface %s.%s", rel, ifc)
	}
	is := w.impls(n)
	if len(is) != 1 {
		return nil, fmt.Errorf("unresolved anchor: interface %s.%s has %d implementations in the repository, 1 expected", rel, ifc, len(is))
	}
	f := w.methodOf(is[0], meth)
	if f == nil || f.Blocks == nil {
		return nil, fmt.Errorf("unresolved anchor: method %s.%s.%s", rel, ifc, meth)
	}
	return f, nil
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.Fset.Position(p)
	r, err := filepath.Rel(w.Dir, q.Filename)
	if err != nil || strings.HasPrefix(r, "..") {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

// short gives a readable, line-free name of a function.
func short(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

func derefNamed(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

func isErrorType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}
