package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/RenatoGeh/gospn"

// Program is the type-checked repository with the SSA form of every repository package. Nothing of
// it is executed: all rules inspect this representation.
type Program struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  []*packages.Package
	ByRel map[string]*packages.Package // path relative to the module ("spn", "learn/gens", ...)
	SSA   *ssa.Program
	SPkg  map[string]*ssa.Package
	Funcs []*ssa.Function // every source function of the repository, closures included
	inRep map[*types.Package]bool

	implCache map[string][]*ssa.Function
	ptas      map[*ssa.Function]*PTA
	flows     map[*ssa.Function]*Flow
}

func loadProgram(dir string) (*Program, error) {
	env := os.Environ()
	env = append(env, "CGO_ENABLED=0", "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GO111MODULE=on", "GOTOOLCHAIN=local", "GOENV=off")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir, Env: env, Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{Dir: dir, ByRel: map[string]*packages.Package{}, SPkg: map[string]*ssa.Package{}, inRep: map[*types.Package]bool{}, implCache: map[string][]*ssa.Function{}}
	for _, q := range pkgs {
		if !(q.PkgPath == modPath || strings.HasPrefix(q.PkgPath, modPath+"/")) {
			continue
		}
		for _, e := range q.Errors {
			return nil, fmt.Errorf("%s: %v", q.PkgPath, e)
		}
		p.Pkgs = append(p.Pkgs, q)
		rel := strings.TrimPrefix(strings.TrimPrefix(q.PkgPath, modPath), "/")
		p.ByRel[rel] = q
		p.inRep[q.Types] = true
		p.Fset = q.Fset
	}
	if len(p.Pkgs) == 0 {
		return nil, fmt.Errorf("no packages of %s found in %s", modPath, dir)
	}
	prog, spk := ssautil.Packages(p.Pkgs, ssa.InstantiateGenerics)
	p.SSA = prog
	for i, s := range spk {
		if s == nil {
			return nil, fmt.Errorf("no SSA for %s", p.Pkgs[i].PkgPath)
		}
		s.Build()
		rel := strings.TrimPrefix(strings.TrimPrefix(p.Pkgs[i].PkgPath, modPath), "/")
		p.SPkg[rel] = s
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if f.Blocks != nil {
			p.Funcs = append(p.Funcs, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for i, s := range spk {
		for _, m := range s.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for j := 0; j < ms.Len(); j++ {
						f := prog.MethodValue(ms.At(j))
						if f != nil && f.Pkg == s && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
		_ = i
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.fname(p.Funcs[i]) < p.fname(p.Funcs[j]) })
	return p, nil
}

// inRepo reports whether fn has source in the repository.
func (p *Program) inRepo(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return p.inRep[f.Pkg.Pkg]
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return p.inRep[o.Pkg()]
	}
	return false
}

func (p *Program) rel(fn *ssa.Function) string {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	var pk *types.Package
	if f.Pkg != nil {
		pk = f.Pkg.Pkg
	} else if f.Object() != nil {
		pk = f.Object().Pkg()
	}
	if pk == nil {
		return "?"
	}
	return strings.TrimPrefix(strings.TrimPrefix(pk.Path(), modPath), "/")
}

// fname names a function in reports: "spn.(*Sum).Value", "learn/gens.indepStep$1".
func (p *Program) fname(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	r, err := filepath.Rel(p.Dir, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

func (p *Program) ipos(i ssa.Instruction) string {
	if i.Pos().IsValid() {
		return p.pos(i.Pos())
	}
	// fall back on a neighbouring instruction of the same block
	b := i.Block()
	if b != nil {
		for _, k := range b.Instrs {
			if k.Pos().IsValid() {
				return p.pos(k.Pos())
			}
		}
	}
	return p.pos(i.Parent().Pos())
}

// fn looks a package-level function up; method looks a method up. Both return nil if absent.
func (p *Program) fn(rel, name string) *ssa.Function {
	s := p.SPkg[rel]
	if s == nil {
		return nil
	}
	return s.Func(name)
}

func (p *Program) named(rel, name string) *types.Named {
	s := p.SPkg[rel]
	if s == nil {
		return nil
	}
	t := s.Type(name)
	if t == nil {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}

func (p *Program) method(rel, typ, name string) *ssa.Function {
	n := p.named(rel, typ)
	if n == nil {
		return nil
	}
	for _, t := range []types.Type{types.NewPointer(n), n} {
		sel := p.SSA.MethodSets.MethodSet(t).Lookup(n.Obj().Pkg(), name)
		if sel != nil {
			return p.SSA.MethodValue(sel)
		}
	}
	return nil
}

// declared reports whether the method is declared on typ itself and not promoted from an embedded
// field.
func (p *Program) declared(rel, typ, name string) *ssa.Function {
	n := p.named(rel, typ)
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if m := n.Method(i); m.Name() == name {
			return p.SSA.FuncValue(m)
		}
	}
	return nil
}

func (p *Program) global(rel, name string) *ssa.Global {
	s := p.SPkg[rel]
	if s == nil {
		return nil
	}
	return s.Var(name)
}

// exported returns the exported package-level functions and methods of package rel.
func (p *Program) exported(rel string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Parent() != nil || p.rel(f) != rel || f.Object() == nil {
			continue
		}
		if !f.Object().Exported() {
			continue
		}
		if r := f.Signature.Recv(); r != nil {
			t := r.Type()
			if q, ok := t.(*types.Pointer); ok {
				t = q.Elem()
			}
			if n, ok := t.(*types.Named); ok && !n.Obj().Exported() {
				continue
			}
		}
		out = append(out, f)
	}
	return out
}

// implementers returns the concrete named repository types T such that *T or T implements iface.
func (p *Program) implementers(iface *types.Interface) []types.Type {
	var out []types.Type
	for _, q := range p.Pkgs {
		sc := q.Types.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || n.TypeParams() != nil {
				continue
			}
			if _, isI := n.Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(n, iface) {
				out = append(out, n)
			} else if types.Implements(types.NewPointer(n), iface) {
				out = append(out, types.NewPointer(n))
			}
		}
	}
	return out
}

// invokeTargets resolves an interface method call to repository methods by class hierarchy.
func (p *Program) invokeTargets(c *ssa.CallCommon) []*ssa.Function {
	iface, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	key := types.TypeString(c.Value.Type(), nil) + "." + c.Method.Name()
	if r, ok := p.implCache[key]; ok {
		return r
	}
	var out []*ssa.Function
	for _, t := range p.implementers(iface) {
		sel := p.SSA.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name())
		if sel == nil {
			continue
		}
		if f := p.SSA.MethodValue(sel); f != nil {
			out = append(out, p.unwrap(f))
		}
	}
	p.implCache[key] = out
	return out
}

// unwrap follows synthetic promotion wrappers to the declared method.
func (p *Program) unwrap(f *ssa.Function) *ssa.Function {
	if f != nil && f.Synthetic != "" && f.Object() != nil {
		if o, ok := f.Object().(*types.Func); ok {
			if g := p.SSA.FuncValue(o); g != nil && g.Blocks != nil {
				return g
			}
		}
	}
	return f
}

func calleeFull(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	if f := c.StaticCallee(); f != nil {
		if f.Object() != nil {
			return f.Object().(*types.Func).FullName()
		}
		return f.String()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return ""
}

func funcDecl(p *Program, f *ssa.Function) ast.Node { return f.Syntax() }
