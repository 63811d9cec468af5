package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/bodgit/sevenzip"

// Prog is the resolved program: the module's packages from /repo's working
// tree (non-test files, default build tags) and all dependencies, in SSA form.
type Prog struct {
	repo  string
	ssa   *ssa.Program
	pkgs  map[string]*ssa.Package // module packages that make up the library
	tpkgs []*packages.Package
	fset  *token.FileSet
	funcs []*ssa.Function // all module functions with bodies (incl. closures)

	mods map[*ssa.Function]*modSet
	ids  map[ssa.Value]int
}

func loadProg(repo string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  repo,
		Env:  goEnv(),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, fmt.Errorf("loading %s: %w", repo, err)
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the module does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{repo: repo, ssa: prog, pkgs: map[string]*ssa.Package{}, tpkgs: pkgs, fset: prog.Fset, ids: map[ssa.Value]int{}}
	for _, tp := range pkgs {
		if tp.PkgPath == modPath || strings.HasPrefix(tp.PkgPath, modPath+"/") {
			if sp := prog.Package(tp.Types); sp != nil && tp.Name != "main" {
				p.pkgs[tp.PkgPath] = sp
			}
		}
	}
	if p.pkgs[modPath] == nil {
		return nil, fmt.Errorf("package %s not found in %s", modPath, repo)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil || !p.inModule(fn) || fn.Synthetic != "" && fn.Name() != "init" {
			continue
		}
		p.funcs = append(p.funcs, fn)
	}
	sort.Slice(p.funcs, func(i, j int) bool { return p.fname(p.funcs[i]) < p.fname(p.funcs[j]) })
	if len(p.funcs) < 60 {
		return nil, fmt.Errorf("only %d module functions found", len(p.funcs))
	}
	return p, nil
}

func goEnv() []string {
	env := os.Environ()
	set := func(k, v string) { env = append(env, k+"="+v) }
	if os.Getenv("HOME") == "" {
		set("HOME", "/root")
	}
	set("GOTOOLCHAIN", "local")
	set("GOFLAGS", "-mod=readonly")
	set("GOPROXY", "off")
	set("GOWORK", "off")
	return env
}

// modFn returns the source function for fn (unwrapping instantiations).
func (p *Prog) inModule(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg == nil {
		return false
	}
	_, ok := p.pkgs[fn.Pkg.Pkg.Path()]
	return ok
}

func (p *Prog) isModPkg(pkg *types.Package) bool {
	if pkg == nil {
		return false
	}
	_, ok := p.pkgs[pkg.Path()]
	return ok
}

// fname is a stable readable name for a function.
func (p *Prog) fname(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, modPath+"/internal/", "")
	s = strings.ReplaceAll(s, modPath+".", "sevenzip.")
	return s
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.fset.Position(pos)
	rel, err := filepath.Rel(p.repo, ps.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = filepath.Base(ps.Filename)
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

// ipos gives the best position for an instruction.
func (p *Prog) ipos(i ssa.Instruction) string {
	if i == nil {
		return "?"
	}
	if i.Pos().IsValid() {
		return p.pos(i.Pos())
	}
	if v, ok := i.(ssa.Value); ok {
		if refs := v.Referrers(); refs != nil {
			for _, r := range *refs {
				if r.Pos().IsValid() && r.Parent() == i.Parent() {
					return p.pos(r.Pos())
				}
			}
		}
	}
	b := i.Block()
	if b != nil {
		idx := -1
		for k, x := range b.Instrs {
			if x == i {
				idx = k
			}
		}
		for k := idx; k >= 0; k-- {
			if b.Instrs[k].Pos().IsValid() {
				return p.pos(b.Instrs[k].Pos())
			}
		}
		for k := idx + 1; k > 0 && k < len(b.Instrs); k++ {
			if b.Instrs[k].Pos().IsValid() {
				return p.pos(b.Instrs[k].Pos())
			}
		}
	}
	if i.Parent() != nil {
		return p.pos(i.Parent().Pos())
	}
	return "?"
}

func (p *Prog) vid(v ssa.Value) int {
	id, ok := p.ids[v]
	if !ok {
		id = len(p.ids) + 1
		p.ids[v] = id
	}
	return id
}

// named looks up a type declared in a module package.
func (p *Prog) named(pkg, name string) *types.Named {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// method finds the SSA function for a method declared on T or *T.
func (p *Prog) method(n *types.Named, name string) *ssa.Function {
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.ssa.FuncValue(n.Method(i))
		}
	}
	return nil
}

func (p *Prog) fn(pkg, name string) *ssa.Function {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// pkgTypes lists the named (non-alias, non-generic) types declared in module packages.
func (p *Prog) pkgTypes() []*types.Named {
	var out []*types.Named
	var paths []string
	for k := range p.pkgs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		sc := p.pkgs[k].Pkg.Scope()
		for _, nm := range sc.Names() {
			if tn, ok := sc.Lookup(nm).(*types.TypeName); ok && !tn.IsAlias() {
				if n, ok := tn.Type().(*types.Named); ok && n.TypeParams().Len() == 0 {
					out = append(out, n)
				}
			}
		}
	}
	return out
}

func derefT(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

func isNamedT(t types.Type, pkg, name string) bool {
	if t == nil {
		return false
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	if o.Name() != name {
		return false
	}
	if o.Pkg() == nil {
		return pkg == ""
	}
	return o.Pkg().Path() == pkg
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
		return true
	}
	return false
}

// isConstInt returns the integer value of a constant.
func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := derefT(t).Underlying().(*types.Struct)
	return s
}

func fieldName(t types.Type, i int) string {
	s := structOf(t)
	if s == nil || i >= s.NumFields() {
		return "?"
	}
	return s.Field(i).Name()
}

// calleeName gives "pkgpath.Func" or "(pkgpath.T).M" for a resolved callee object.
func objFull(o types.Object) string {
	if f, ok := o.(*types.Func); ok {
		return f.FullName()
	}
	if o.Pkg() != nil {
		return o.Pkg().Path() + "." + o.Name()
	}
	return o.Name()
}

// staticName returns the full name of a statically called function or of the
// interface method for an invoke; "" if dynamic.
func staticName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		return fnFull(v)
	case *ssa.Builtin:
		return "builtin." + v.Name()
	case *ssa.MakeClosure:
		return fnFull(v.Fn.(*ssa.Function))
	}
	return ""
}

func fnFull(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Object() != nil {
		return objFull(fn.Object())
	}
	return fn.String()
}

// modSet: struct fields (of module types) that a function may store to, transitively
// through static module calls and closures.
type modSet struct {
	fields map[string]bool // typestring.fieldname
	all    bool
}

func fieldKey(t types.Type, i int) string {
	return types.TypeString(derefT(t), nil) + "." + fieldName(t, i)
}

func (p *Prog) modOf(fn *ssa.Function) *modSet {
	if p.mods == nil {
		p.mods = map[*ssa.Function]*modSet{}
	}
	if m := p.mods[fn]; m != nil {
		return m
	}
	m := &modSet{fields: map[string]bool{}}
	p.mods[fn] = m
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !p.inModule(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						m.fields[fieldKey(fa.X.Type(), fa.Field)] = true
					}
				case ssa.CallInstruction:
					c := x.Common()
					if f := c.StaticCallee(); f != nil {
						walk(f)
					}
					if c.IsInvoke() {
						for _, g := range p.implementers(c.Value.Type(), c.Method) {
							walk(g)
						}
					}
				}
				for _, op := range in.Operands(nil) {
					switch v := (*op).(type) {
					case *ssa.MakeClosure:
						walk(v.Fn.(*ssa.Function))
					case *ssa.Function:
						walk(v)
					}
				}
			}
		}
	}
	walk(fn)
	return m
}

// implementers returns module methods that an invoke of m on interface type t may reach.
func (p *Prog) implementers(t types.Type, m *types.Func) []*ssa.Function {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, n := range p.pkgTypes() {
		for _, ty := range []types.Type{n, types.NewPointer(n)} {
			if types.IsInterface(n) || !types.Implements(ty, it) {
				continue
			}
			ms := p.ssa.MethodSets.MethodSet(ty)
			sel := ms.Lookup(m.Pkg(), m.Name())
			if sel == nil {
				continue
			}
			if f := p.ssa.MethodValue(sel); f != nil {
				// unwrap synthetic wrappers to the declared method
				if o, ok := sel.Obj().(*types.Func); ok {
					if g := p.ssa.FuncValue(o); g != nil && g.Blocks != nil && p.inModule(g) {
						out = append(out, g)
					}
				}
			}
			break
		}
	}
	return out
}
