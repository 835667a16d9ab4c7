package main

import (
	"errors"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/hashicorp/hcl2"

// Prog is the loaded repository.
type Prog struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  []*packages.Package // packages of the repository, sorted by path
	ByPat map[string]*packages.Package
	SSA   *ssa.Program
	Inits []*ssa.Function // package initialisers (variable initialisers and calls of init functions)
	Funcs []*ssa.Function // functions with a body in the repository, closures included

	funcDecl   map[*types.Func]*ast.FuncDecl
	impls      map[string][]*ssa.Function
	addrOf     map[string][]*ssa.Function
	eff        *effects
	named      []*types.Named
	callers    map[*ssa.Function][]*ssa.Function
	live       map[*ssa.Function]liveSets
	factsCache *facts
}

// Load reads and type-checks the repository and builds its SSA form.
func Load(dir string) (*Prog, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "GOWORK=off")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, errors.New("no packages")
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{Dir: dir, SSA: prog, ByPat: map[string]*packages.Package{}, funcDecl: map[*types.Func]*ast.FuncDecl{}}
	p.Fset = prog.Fset
	for _, pkg := range pkgs {
		if pkg.PkgPath == modPath || strings.HasPrefix(pkg.PkgPath, modPath+"/") {
			p.Pkgs = append(p.Pkgs, pkg)
			p.ByPat[strings.TrimPrefix(strings.TrimPrefix(pkg.PkgPath, modPath), "/")] = pkg
			for _, f := range pkg.Syntax {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						if obj, ok := pkg.TypesInfo.Defs[fd.Name].(*types.Func); ok {
							p.funcDecl[obj] = fd
						}
					}
				}
			}
			sc := pkg.Types.Scope()
			for _, n := range sc.Names() {
				if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
					if nt, ok := tn.Type().(*types.Named); ok {
						p.named = append(p.named, nt)
					}
				}
			}
		}
	}
	sort.Slice(p.Pkgs, func(i, j int) bool { return p.Pkgs[i].PkgPath < p.Pkgs[j].PkgPath })
	for f := range ssautil.AllFunctions(prog) {
		if f.Synthetic == "package initializer" && p.InRepo(f) {
			p.Inits = append(p.Inits, f)
			continue
		}
		if len(f.Blocks) == 0 || f.Synthetic != "" && f.Parent() == nil {
			continue
		}
		if p.InRepo(f) {
			p.Funcs = append(p.Funcs, f)
		}
	}
	sort.Slice(p.Inits, func(i, j int) bool { return p.Inits[i].String() < p.Inits[j].String() })
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	return p, nil
}

// InRepo tells whether a function belongs to the repository.
func (p *Prog) InRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return p.isRepoPath(f.Pkg.Pkg.Path())
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return p.isRepoPath(o.Pkg().Path())
	}
	return false
}

func (p *Prog) isRepoPath(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

// PkgOf gives the repository-relative package path of a function ("hcl/json").
func (p *Prog) PkgOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return relPkg(f.Pkg.Pkg)
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return relPkg(o.Pkg())
	}
	return ""
}

func relPkg(pkg *types.Package) string {
	if pkg == nil {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(pkg.Path(), modPath), "/")
}

// PosString gives a position relative to the repository.
func (p *Prog) PosString(pos token.Pos) string {
	if !pos.IsValid() {
		return ""
	}
	ps := p.Fset.Position(pos)
	if rel, err := filepath.Rel(p.Dir, ps.Filename); err == nil && !strings.HasPrefix(rel, "..") {
		ps.Filename = rel
	}
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}

// FuncName gives a readable name without the module path.
func (p *Prog) FuncName(f *ssa.Function) string {
	return strings.ReplaceAll(f.String(), modPath+"/", "")
}

// TypeName gives the type as written with short package paths.
func (p *Prog) TypeName(t types.Type) string {
	return strings.ReplaceAll(t.String(), modPath+"/", "")
}

// isNamed reports whether t (or what it points to) is pkg.name; pkg is the
// full import path.
func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == pkg
}

func isPtrTo(t types.Type, pkg, name string) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && isNamed(pt.Elem(), pkg, name)
}

const (
	hclPath  = modPath + "/hcl"
	synPath  = modPath + "/hcl/hclsyntax"
	jsonPath = modPath + "/hcl/json"
	ctyPath  = "github.com/zclconf/go-cty/cty"
)

// LookupFunc finds a package-level function or a method ("T.m") of a
// repository package.
func (p *Prog) LookupFunc(pkg, name string) *ssa.Function {
	pk := p.ByPat[pkg]
	if pk == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		tn, ok := pk.Types.Scope().Lookup(name[:i]).(*types.TypeName)
		if !ok {
			return nil
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			obj, _, _ := types.LookupFieldOrMethod(t, true, pk.Types, name[i+1:])
			if fn, ok := obj.(*types.Func); ok {
				return p.SSA.FuncValue(fn)
			}
		}
		return nil
	}
	fn, ok := pk.Types.Scope().Lookup(name).(*types.Func)
	if !ok {
		return nil
	}
	return p.SSA.FuncValue(fn)
}

// LookupType finds a named type of a repository package.
func (p *Prog) LookupType(pkg, name string) *types.Named {
	pk := p.ByPat[pkg]
	if pk == nil {
		return nil
	}
	tn, ok := pk.Types.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return nil
	}
	n, _ := tn.Type().(*types.Named)
	return n
}

// Callees gives the functions a call may reach: the static callee, or for
// interface calls every method of a repository type that fits, or for calls of
// function values every repository function of that signature whose address is
// taken.
func (p *Prog) Callees(call *ssa.CallCommon) []*ssa.Function {
	if f := call.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if call.IsInvoke() {
		return p.implsOf(call.Value.Type(), call.Method)
	}
	if _, ok := call.Value.(*ssa.Builtin); ok {
		return nil
	}
	p.initAddr()
	sig, ok := call.Value.Type().Underlying().(*types.Signature)
	if !ok {
		return nil
	}
	return p.addrOf[sigKey(sig)]
}

func sigKey(s *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, stripNames(s.Params()), stripNames(s.Results()), s.Variadic()), nil)
}

func stripNames(t *types.Tuple) *types.Tuple {
	var vs []*types.Var
	for i := 0; i < t.Len(); i++ {
		vs = append(vs, types.NewVar(0, nil, "", t.At(i).Type()))
	}
	return types.NewTuple(vs...)
}

func (p *Prog) initAddr() {
	if p.addrOf != nil {
		return
	}
	p.addrOf = map[string][]*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f == nil || seen[f] || !p.InRepo(f) {
			return
		}
		seen[f] = true
		k := sigKey(f.Signature)
		p.addrOf[k] = append(p.addrOf[k], f)
	}
	visit := func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = ci.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if *op == nil || *op == callee {
						continue
					}
					if fn, ok := (*op).(*ssa.Function); ok {
						add(fn)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if fn, ok := mc.Fn.(*ssa.Function); ok {
						add(fn)
					}
				}
			}
		}
	}
	for f := range ssautil.AllFunctions(p.SSA) {
		if p.InRepo(f) {
			visit(f)
		}
	}
	for k := range p.addrOf {
		fs := p.addrOf[k]
		sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	}
}

func (p *Prog) implsOf(iface types.Type, m *types.Func) []*ssa.Function {
	if p.impls == nil {
		p.impls = map[string][]*ssa.Function{}
	}
	key := types.TypeString(iface, nil) + "." + m.Name()
	if r, ok := p.impls[key]; ok {
		return r
	}
	var out []*ssa.Function
	it, ok := iface.Underlying().(*types.Interface)
	if ok {
		for _, n := range p.named {
			if types.IsInterface(n) {
				continue
			}
			for _, t := range []types.Type{n, types.NewPointer(n)} {
				if !types.Implements(t, it) {
					continue
				}
				sel := p.SSA.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
				if sel == nil {
					continue
				}
				if f := p.SSA.MethodValue(sel); f != nil {
					out = append(out, f)
				}
				break
			}
		}
	}
	p.impls[key] = out
	return out
}

// Implementers lists the repository types (T or *T) that implement an interface.
func (p *Prog) Implementers(it *types.Interface) []types.Type {
	var out []types.Type
	for _, n := range p.named {
		if types.IsInterface(n) {
			continue
		}
		if types.Implements(n, it) {
			out = append(out, n)
		} else if types.Implements(types.NewPointer(n), it) {
			out = append(out, types.NewPointer(n))
		}
	}
	return out
}

// Decl gives the syntax of a declared function.
func (p *Prog) Decl(f *ssa.Function) *ast.FuncDecl {
	if fd, ok := f.Syntax().(*ast.FuncDecl); ok {
		return fd
	}
	return nil
}

// PkgInfo gives the type information of the package a function is in.
func (p *Prog) PkgInfo(f *ssa.Function) *types.Info {
	if pk := p.ByPat[p.PkgOf(f)]; pk != nil {
		return pk.TypesInfo
	}
	return nil
}

// AllFuncs is Funcs and the package initialisers.
func (p *Prog) AllFuncs() []*ssa.Function {
	return append(append([]*ssa.Function(nil), p.Inits...), p.Funcs...)
}

// addressTaken: is the function used as a value somewhere?
func (p *Prog) addressTaken(f *ssa.Function) bool {
	p.initAddr()
	for _, fs := range p.addrOf {
		for _, g := range fs {
			if g == f {
				return true
			}
		}
	}
	return false
}

// generated: is the function in a file made by a generator?
func (p *Prog) generated(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	pk := p.ByPat[p.PkgOf(f)]
	if pk == nil || !f.Pos().IsValid() {
		return false
	}
	for _, file := range pk.Syntax {
		if file.FileStart <= f.Pos() && f.Pos() < file.FileEnd {
			for _, cg := range file.Comments {
				if cg.Pos() > file.Package+400 {
					break
				}
				for _, cm := range cg.List {
					if strings.Contains(cm.Text, "DO NOT EDIT") || strings.HasPrefix(cm.Text, "//line ") {
						return true
					}
				}
			}
		}
	}
	return false
}
