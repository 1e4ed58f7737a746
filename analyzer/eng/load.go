package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the analysed program.
type Prog struct {
	Dir      string
	Fset     *token.FileSet
	Pkgs     []*packages.Package
	SSA      *ssa.Program
	Repo     map[*ssa.Package]bool
	Mod      string
	Globals  *State // memory after the package initialisers
	Funcs    []*ssa.Function
	frozen   map[*ssa.Global]bool
	siteIDs  map[string]int
	dyn      types.Type
	writes   map[string]bool
	InitErrs []string
	loops    map[*ssa.Function]*loopInfo
	guard    map[string]*guardKind
}

// Load type-checks the tree at dir and builds SSA for its packages.
func Load(dir string) (*Prog, error) {
	mode := packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedSyntax |
		packages.NeedTypes | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedImports |
		packages.NeedModule | packages.NeedDeps
	env := append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GO111MODULE=on")
	pkgs, err := packages.Load(&packages.Config{Mode: mode, Dir: dir, Env: env}, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{Dir: dir, Fset: prog.Fset, Pkgs: pkgs, SSA: prog, Repo: map[*ssa.Package]bool{},
		siteIDs: map[string]int{}, writes: map[string]bool{}, loops: map[*ssa.Function]*loopInfo{}}
	for i, p := range spkgs {
		if p == nil {
			return nil, fmt.Errorf("%s: no SSA", pkgs[i].PkgPath)
		}
		P.Repo[p] = true
		if pkgs[i].Module != nil {
			P.Mod = pkgs[i].Module.Path
		}
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if f.Blocks != nil && P.IsRepo(f) {
			P.Funcs = append(P.Funcs, f)
		}
	}
	// methods not reachable through interfaces are still members of the program
	sort.Slice(P.Funcs, func(i, j int) bool {
		a, b := P.Funcs[i], P.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	P.freeze()
	P.runInits()
	return P, nil
}

// IsRepo reports whether f has its source in the analysed module.
func (p *Prog) IsRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return p.Repo[f.Pkg]
	}
	// wrappers and instantiations
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), p.Mod) && f.Blocks != nil
	}
	if f.Signature.Recv() != nil || f.Synthetic != "" {
		return f.Blocks != nil && strings.Contains(f.String(), p.Mod)
	}
	return false
}

// Pos renders a position relative to the tree.
func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(strings.TrimPrefix(q.Filename, p.Dir), "/"), q.Line)
}

// Pkg finds a repository package by its path below the module root.
func (p *Prog) Pkg(path string) *ssa.Package {
	for s := range p.Repo {
		if s.Pkg.Path() == p.Mod+"/"+path {
			return s
		}
	}
	return nil
}

// Func finds a package-level function.
func (p *Prog) Func(pkg, name string) *ssa.Function {
	s := p.Pkg(pkg)
	if s == nil {
		return nil
	}
	return s.Func(name)
}

// Named finds a named type.
func (p *Prog) Named(pkg, name string) *types.Named {
	s := p.Pkg(pkg)
	if s == nil {
		return nil
	}
	o, ok := s.Pkg.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// MethodOf finds the declared method of type t (value or pointer receiver).
func (p *Prog) MethodOf(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := p.SSA.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				if f := p.SSA.MethodValue(ms.At(i)); f != nil {
					// prefer the declared function over a wrapper
					if fo, ok := ms.At(i).Obj().(*types.Func); ok && len(ms.At(i).Index()) == 1 {
						if d := p.SSA.FuncValue(fo); d != nil {
							return d
						}
					}
					return f
				}
			}
		}
	}
	return nil
}

// Method finds a method by package, type and name.
func (p *Prog) Method(pkg, typ, name string) *ssa.Function {
	n := p.Named(pkg, typ)
	if n == nil {
		return nil
	}
	return p.MethodOf(n, name)
}

// Const returns a package-level integer constant.
func (p *Prog) Const(pkg, name string) *T {
	s := p.Pkg(pkg)
	if s == nil {
		return nil
	}
	if c, ok := s.Members[name].(*ssa.NamedConst); ok {
		return constTerm(c.Value)
	}
	return nil
}

// freeze finds the globals that are never written after initialisation.
func (p *Prog) freeze() {
	p.frozen = map[*ssa.Global]bool{}
	var gs []*ssa.Global
	for s := range p.Repo {
		for _, m := range s.Members {
			if g, ok := m.(*ssa.Global); ok {
				gs = append(gs, g)
				p.frozen[g] = true
			}
		}
	}
	for _, f := range p.Funcs {
		if f.Synthetic == "package initializer" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && p.frozen[g] {
						if p.instrWrites(in, g, 0) {
							p.frozen[g] = false
						}
					}
				}
			}
		}
	}
}

// instrWrites reports whether the instruction lets the memory at address v be
// written.
func (p *Prog) instrWrites(in ssa.Instruction, v ssa.Value, d int) bool {
	if d > 12 {
		return true
	}
	switch i := in.(type) {
	case *ssa.Store:
		return i.Addr == v
	case *ssa.UnOp:
		// the loaded value may be a slice, map or pointer into the same data
		return p.addrWritten(i, d+1)
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.ChangeType, *ssa.Phi, *ssa.Index, *ssa.Field:
		return p.addrWritten(in.(ssa.Value), d+1)
	case *ssa.MapUpdate:
		return i.Map == v
	case *ssa.MakeInterface:
		return p.addrWritten(i, d+1)
	case *ssa.DebugRef, *ssa.BinOp, *ssa.Return, *ssa.Range, *ssa.Lookup, *ssa.If, *ssa.Convert, *ssa.Next, *ssa.Extract:
		return false
	case ssa.CallInstruction:
		c := i.Common()
		if f := c.StaticCallee(); f != nil {
			for n, a := range c.Args {
				if a == v && p.WritesParam(f, n) {
					return true
				}
			}
			return false
		}
		if b, ok := c.Value.(*ssa.Builtin); ok {
			return (b.Name() == "copy" || b.Name() == "delete") && c.Args[0] == v
		}
		if c.IsInvoke() {
			for _, f := range p.implementations(c) {
				if c.Value == v && p.WritesParam(f, 0) {
					return true
				}
				for n, a := range c.Args {
					if a == v && p.WritesParam(f, n+1) {
						return true
					}
				}
			}
		}
		return false
	}
	return false
}

// WritesParamAs is WritesParam for an interface parameter that holds a t.
func (p *Prog) WritesParamAs(f *ssa.Function, n int, t types.Type) bool {
	if n >= len(f.Params) || !types.IsInterface(f.Params[n].Type()) || t == nil {
		return p.WritesParam(f, n)
	}
	was, dyn := p.writes, p.dyn
	p.writes, p.dyn = map[string]bool{}, t
	defer func() { p.writes, p.dyn = was, dyn }()
	return p.WritesParam(f, n)
}

// implementations of the method called through an interface.
func (p *Prog) implementations(c *ssa.CallCommon) []*ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	if p.dyn != nil && types.Implements(p.dyn, it) {
		if f := p.MethodOf(p.dyn, c.Method.Name()); f != nil {
			return []*ssa.Function{f}
		}
	}
	var r []*ssa.Function
	for _, q := range p.Packages() {
		for _, m := range q.Members {
			t, ok := m.(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) {
				continue
			}
			for _, u := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if types.Implements(u, it) {
					if f := p.MethodOf(u, c.Method.Name()); f != nil {
						r = append(r, f)
					}
					break
				}
			}
		}
	}
	return r
}

func isRef(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
		return true
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (p *Prog) addrWritten(v ssa.Value, d int) bool {
	if !isRef(v.Type()) || v.Referrers() == nil {
		return false
	}
	switch v.Type().Underlying().(type) {
	case *types.Struct, *types.Array:
		// a copy; writes through contained references are ignored
		return false
	}
	for _, r := range *v.Referrers() {
		if p.instrWrites(r, v, d) {
			return true
		}
	}
	return false
}

// WritesParam reports whether f may write memory reachable from parameter n.
func (p *Prog) WritesParam(f *ssa.Function, n int) bool {
	key := fmt.Sprintf("%p/%d", f, n)
	if r, ok := p.writes[key]; ok {
		return r
	}
	p.writes[key] = false // recursion
	r := false
	if f.Blocks == nil || !p.IsRepo(f) {
		r = externWrites(f, n)
	} else if n < len(f.Params) {
		r = p.addrWritten(f.Params[n], 0)
	}
	p.writes[key] = r
	return r
}

func constOf(p *ssa.Package, name string) *ssa.NamedConst {
	c, _ := p.Members[name].(*ssa.NamedConst)
	return c
}

func (p *Prog) runInits() {
	st := newState()
	done := map[*ssa.Package]bool{}
	var visit func(s *ssa.Package)
	visit = func(s *ssa.Package) {
		if done[s] || !p.Repo[s] {
			return
		}
		done[s] = true
		imps := s.Pkg.Imports()
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, i := range imps {
			if q := p.SSA.Package(i); q != nil {
				visit(q)
			}
		}
		f := s.Func("init")
		if f == nil {
			return
		}
		x := New(p, Config{init: true, Opaque: func(c *ssa.Function, _ []*T) bool {
			return strings.HasPrefix(c.Name(), "init#")
		}})
		for _, pa := range x.RunIn(f, nil, st.fork()) {
			if pa.End == "return" {
				st = pa.St
			}
		}
		p.InitErrs = append(p.InitErrs, x.Problems...)
	}
	var ps []*ssa.Package
	for s := range p.Repo {
		ps = append(ps, s)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Pkg.Path() < ps[j].Pkg.Path() })
	for _, s := range ps {
		visit(s)
	}
	// variables that are written later have no known value
	for c := range st.mem {
		if r := Root(c); r.Op == "glob" {
			if g := globTable[r.S]; g == nil || !p.frozen[g] {
				delete(st.mem, c)
			}
		}
	}
	p.Globals = st
}

func (p *Prog) site(key string) int {
	if n, ok := p.siteIDs[key]; ok {
		return n
	}
	n := len(p.siteIDs) + 1
	p.siteIDs[key] = n
	return n
}
