package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/msaf1980/go-matcher"

// Prog is the type-checked program of the repository with its SSA form.
type Prog struct {
	repo  string
	fset  *token.FileSet
	pkgs  map[string]*packages.Package // by path relative to the module
	prog  *ssa.Program
	spkgs map[string]*ssa.Package
	funcs []*ssa.Function // all module functions with a body (methods, closures, instances), sorted
	named []*types.Named  // all named non-interface types of the module, sorted
	decls map[token.Pos]*ast.FuncDecl
}

func isModPkg(path string) bool { return path == modPath || strings.HasPrefix(path, modPath+"/") }

func rel(path string) string { return strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/") }

// loadProg loads every package of the repository (non-test sources, default build tags) with types and SSA.
func loadProg(repo string) (*Prog, error) {
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: env, Tests: false}
	initial, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, fmt.Errorf("load: %w", err)
	}
	if len(initial) == 0 {
		return nil, fmt.Errorf("load: no packages")
	}
	p := &Prog{repo: repo, pkgs: map[string]*packages.Package{}, spkgs: map[string]*ssa.Package{}, decls: map[token.Pos]*ast.FuncDecl{}}
	for _, ip := range initial {
		for _, e := range ip.Errors {
			return nil, fmt.Errorf("package %s does not type-check: %v", ip.PkgPath, e)
		}
		if ip.IllTyped {
			return nil, fmt.Errorf("package %s is ill-typed", ip.PkgPath)
		}
		p.pkgs[rel(ip.PkgPath)] = ip
		p.fset = ip.Fset
	}
	prog, spkgs := ssautil.Packages(initial, ssa.InstantiateGenerics)
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", initial[i].PkgPath)
		}
		p.spkgs[rel(initial[i].PkgPath)] = sp
	}
	prog.Build()
	p.prog = prog
	for _, want := range []string{"glob", "gglob", "gtags", "expand", "pkg/items", "pkg/utils", "pkg/escape"} {
		if p.spkgs[want] == nil {
			return nil, fmt.Errorf("package %s is missing from the loaded program", want)
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil {
			continue
		}
		if fn.Pkg != nil && isModPkg(fn.Pkg.Pkg.Path()) {
			if strings.HasPrefix(rel(fn.Pkg.Pkg.Path()), "pkg/tests") {
				continue
			}
			p.funcs = append(p.funcs, fn)
		} else if fn.Pkg == nil && fn.Origin() != nil && fn.Origin().Pkg != nil && isModPkg(fn.Origin().Pkg.Pkg.Path()) {
			p.funcs = append(p.funcs, fn)
		} else if fn.Pkg == nil && fn.Object() != nil && fn.Object().Pkg() != nil && isModPkg(fn.Object().Pkg().Path()) {
			p.funcs = append(p.funcs, fn) // synthetic wrappers
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool {
		a, b := p.funcs[i], p.funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	for _, k := range sortedKeys(p.pkgs) {
		sc := p.pkgs[k].Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
					p.named = append(p.named, nt)
				}
			}
		}
		for _, f := range p.pkgs[k].Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					p.decls[fd.Name.Pos()] = fd
				}
			}
		}
	}
	return p, nil
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// instrPos is the position of an instruction or of the closest operand with a position.
func (p *Prog) instrPos(in ssa.Instruction) string {
	if in.Pos().IsValid() {
		return p.pos(in.Pos())
	}
	var ops []*ssa.Value
	for _, o := range in.Operands(ops) {
		if *o != nil && (*o).Pos().IsValid() {
			if _, ok := (*o).(ssa.Instruction); ok {
				return p.pos((*o).Pos())
			}
		}
	}
	if b := in.Block(); b != nil {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				return p.pos(i.Pos())
			}
		}
	}
	return p.pos(in.Parent().Pos())
}

// fnName is a short stable name: pkg.(*T).M, pkg.F.
func fnName(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

// lookupFunc resolves "pkg.F" or "pkg.T.M" (method of T or *T).
func (p *Prog) lookupFunc(name string) *ssa.Function {
	i := strings.LastIndex(name, "/")
	j := strings.Index(name[i+1:], ".")
	if j < 0 {
		return nil
	}
	pk, rest := name[:i+1+j], name[i+2+j:]
	sp := p.spkgs[pk]
	if sp == nil {
		return nil
	}
	if k := strings.Index(rest, "."); k >= 0 {
		tn, m := rest[:k], rest[k+1:]
		o, ok := sp.Pkg.Scope().Lookup(tn).(*types.TypeName)
		if !ok {
			return nil
		}
		for _, t := range []types.Type{o.Type(), types.NewPointer(o.Type())} {
			ms := types.NewMethodSet(t)
			if sel := ms.Lookup(sp.Pkg, m); sel != nil {
				fn := p.prog.MethodValue(sel)
				if fn != nil && fn.Synthetic != "" {
					// promoted or pointer wrapper: use the declared method
					if d := p.prog.FuncValue(sel.Obj().(*types.Func)); d != nil {
						return d
					}
				}
				return fn
			}
		}
		return nil
	}
	return sp.Func(rest)
}

func (p *Prog) lookupType(name string) types.Type {
	i := strings.LastIndex(name, ".")
	sp := p.spkgs[name[:i]]
	if sp == nil {
		return nil
	}
	if o, ok := sp.Pkg.Scope().Lookup(name[i+1:]).(*types.TypeName); ok {
		return o.Type()
	}
	return nil
}

// implementers lists the module's concrete types (T or *T) which implement iface.
func (p *Prog) implementers(iface *types.Interface) []types.Type {
	var r []types.Type
	for _, n := range p.named {
		if types.IsInterface(n) {
			continue
		}
		if types.Implements(n, iface) {
			r = append(r, n)
		}
		if pt := types.NewPointer(n); types.Implements(pt, iface) {
			if !types.Implements(n, iface) {
				r = append(r, pt)
			} else {
				r = append(r, pt)
			}
		}
	}
	return r
}

// methodOf resolves a method of a concrete type to its SSA function (wrappers are resolved to declared functions when the receiver is the same).
func (p *Prog) methodOf(t types.Type, m *types.Func) *ssa.Function {
	ms := p.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

// pkgByPath gives a package of the module by its path within the module.
func (p *Prog) pkgByPath(path string) *types.Package {
	if sp := p.spkgs[path]; sp != nil {
		return sp.Pkg
	}
	return nil
}
