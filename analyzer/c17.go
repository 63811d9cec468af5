package main

// C17: the fs.FS view. Decided on the paths of the method that opens a name and
// of the function that builds the list, and on where the names shown come from.

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C17"] = c17 }

func (p *Prog) ioFS(name string) types.Type {
	for _, q := range p.ssa.AllPackages() {
		if q.Pkg.Path() == "io/fs" {
			if o := q.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

func isStringT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func c17(c *Check) {
	p := c.P
	c.rule("opening a name succeeds only after io/fs.ValidPath was found true for exactly that name, and then with a non-nil file")
	c.rule("a name that is invalid or not found is reported as *fs.PathError with that name and a cause")
	c.rule("whatever a member is opened as implements fs.File")
	c.rule("an entry is listed only under a name for which io/fs.ValidPath was found true and which is not \".\" (or which is a directory of such a name)")
	c.rule("the name an entry or its information shows is the last element of the name that was found valid, not the name stored in the archive")
	file := p.ioFS("File")
	if file == nil {
		c.bad("missing", "io/fs.File is not used")
		return
	}
	for _, n := range p.pkgTypes() {
		m := p.method(n, "Open")
		if m == nil || m.Blocks == nil || m.Signature.Params().Len() != 1 || m.Signature.Results().Len() != 2 {
			continue
		}
		if !isStringT(m.Signature.Params().At(0).Type()) || !types.Identical(m.Signature.Results().At(0).Type(), file) {
			continue
		}
		c17open(c, p, m, file)
	}
	l := p.fsList()
	if l.t == nil || l.name < 0 {
		c.bad("missing", "the list of entries behind the file system view was not found")
		return
	}
	l.walk()
	l.report(c, "valid")
	for _, k := range []string{"entries judged", "append sites", "entries not judged"} {
		if l.count[k] > 0 {
			c.count(k, l.count[k])
		}
	}
	c17names(c, p, l)
	for _, fn := range p.funcs {
		if fn.Blocks != nil && isSplit(fn) && fn.Pkg != nil && fn.Pkg.Pkg.Path() == modPath {
			c17split(c, p, fn)
		}
	}
	c.need("names opened", 1)
	c.need("successful exits judged", 2)
	c.need("refusals judged", 2)
	c.need("entries judged", 2)
	c.need("shown names judged", 2)
	c.need("opened values judged", 2)
}

// c17open: the method behind fs.FS.
func c17open(c *Check, p *Prog, fn *ssa.Function, file types.Type) {
	name := p.fname(fn)
	c.count("names opened", 1)
	pe := p.ioFS("PathError")
	tb := types.Typ[types.Bool]
	rel := reaches(p, func(fn *ssa.Function) bool {
		return anyInstr(fn, func(in ssa.Instruction) bool {
			switch x := in.(type) {
			case *ssa.Call:
				return staticName(&x.Call) == "io/fs.ValidPath"
			case *ssa.MakeInterface:
				return types.Identical(x.Type(), file)
			case *ssa.TypeAssert:
				return types.Identical(x.AssertedType, file)
			case *ssa.Alloc:
				return pe != nil && types.Identical(derefT(x.Type()), pe)
			}
			return false
		})
	})
	own := map[AV]bool{} // errors of functions that open members
	ownV := map[AV]bool{}
	opened := map[*ssa.Function]bool{}
	var nameAV AV
	h := Hooks{}
	h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool {
		if s.fn.Parent() != nil {
			return true
		}
		takes := false
		for i := range s.c.Args {
			takes = takes || isStringT(s.c.Args[i].Type())
		}
		rs := s.fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			takes = takes || types.Identical(rs.At(i).Type(), file)
		}
		return takes && rel(s.fn)
	}
	h.Call = func(e *Engine, st *State, s *Site) (AV, bool) {
		if s.name == "io/fs.ValidPath" {
			return e.op("validpath", tb, s.args[0]), true
		}
		return 0, false
	}
	h.After = func(e *Engine, st *State, s *Site, res AV) {
		rs := s.c.Signature().Results()
		if rs.Len() == 2 && isErrorType(rs.At(1).Type()) {
			if _, ok := rs.At(0).Type().Underlying().(*types.Interface); ok {
				own[e.ext(res, 1, rs.At(1).Type())] = true
				ownV[e.ext(res, 0, rs.At(0).Type())] = true
			}
			if s.fn != nil && p.inModule(s.fn) {
				opened[s.fn] = true
			}
		}
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		valid := st.facts[e.op("validpath", tb, nameAV)] == 1
		if e.nilness(st, vals[1]) != 1 {
			c.count("successful exits judged", 1)
			if !valid {
				c.bad("gate:"+name, "%s: %s succeeds without having found the name to be valid; path: %s", p.ipos(in), name, st.path())
			}
			if e.nilness(st, vals[0]) != 1 {
				// what an opener returned with no error
				if !ownV[stripTA(e, vals[0])] {
					c.bad("nofile:"+name, "%s: %s can succeed without a file; path: %s", p.ipos(in), name, st.path())
				}
			}
			return
		}
		if own[vals[1]] {
			if !valid {
				c.bad("gate:"+name, "%s: %s opens a member without having found the name to be valid; path: %s", p.ipos(in), name, st.path())
			}
			return
		}
		c.count("refusals judged", 1)
		n := e.n(vals[1])
		if n.k != kIface || pe == nil || !types.Identical(derefT(n.typ), pe) {
			for _, x := range e.n(vals[1]).args {
				if own[x] {
					return
				}
			}
			c.bad("patherror:"+name, "%s: %s refuses a name with something other than *fs.PathError; path: %s", p.ipos(in), name, st.path())
			return
		}
		s := structOf(pe)
		for i := 0; i < s.NumFields(); i++ {
			a := e.field(n.args[0], i, pe)
			v, ok := st.mem[a]
			switch s.Field(i).Name() {
			case "Path":
				if ok && v != nameAV {
					c.bad("path:"+name, "%s: %s reports a name other than the one asked for; path: %s", p.ipos(in), name, st.path())
				}
			case "Err":
				if !ok && e.n(n.args[0]).k == kAlloc && !st.havoc[n.args[0]] || ok && e.nilness(st, v) == -1 {
					c.bad("cause:"+name, "%s: %s refuses a name without a cause; path: %s", p.ipos(in), name, st.path())
				}
			}
		}
	}
	e := newEngine(p, h)
	e.Run(fn, func(e *Engine, ctx *Ctx, st *State) {
		nameAV = e.param(ctx, 1)
		st.marks[nameAV] = "name"
	})
	// what members are opened as
	iface, _ := file.Underlying().(*types.Interface)
	for f := range opened {
		if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Interface); !ok {
			continue
		}
		for _, t := range resultTypes(f, 0, map[*ssa.Function]bool{}) {
			c.count("opened values judged", 1)
			if iface != nil && !types.Implements(t, iface) {
				c.bad("notfile:"+p.fname(f), "%s: %s can open a member as %s, which is no fs.File", p.pos(f.Pos()), p.fname(f), types.TypeString(t, nil))
			}
		}
	}
}

// resultTypes: the concrete types a function puts into its i-th result.
func resultTypes(fn *ssa.Function, i int, seen map[*ssa.Function]bool) []types.Type {
	if seen[fn] {
		return nil
	}
	seen[fn] = true
	var out []types.Type
	done := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if done[v] {
			return
		}
		done[v] = true
		switch x := v.(type) {
		case *ssa.MakeInterface:
			out = append(out, x.X.Type())
		case *ssa.ChangeInterface:
			visit(x.X)
		case *ssa.Phi:
			for _, y := range x.Edges {
				visit(y)
			}
		case *ssa.Extract:
			if cl, ok := x.Tuple.(*ssa.Call); ok {
				if f := cl.Call.StaticCallee(); f != nil && f.Blocks != nil {
					out = append(out, resultTypes(f, x.Index, seen)...)
				}
			}
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && f.Blocks != nil {
				out = append(out, resultTypes(f, 0, seen)...)
			}
		}
	}
	anyInstr(fn, func(in ssa.Instruction) bool {
		if r, ok := in.(*ssa.Return); ok && i < len(r.Results) {
			visit(r.Results[i])
		}
		return false
	})
	return out
}

// c17names: the Name methods of what listings and files show.
func c17names(c *Check, p *Prog, l *listInfo) {
	for _, n := range p.pkgTypes() {
		if structOf(n) == nil || n.Obj().Pkg().Path() != modPath {
			continue
		}
		info := false
		for _, t := range []types.Type{n, types.NewPointer(n)} {
			if hasMethod(t, "Name", 0, 1) && hasMethod(t, "ModTime", 0, 1) && hasMethod(t, "Sys", 0, 1) {
				info = true
			}
		}
		m := p.method(n, "Name")
		if !info || m == nil || m.Blocks == nil || !isStringT(m.Signature.Results().At(0).Type()) {
			continue
		}
		c.count("shown names judged", 1)
		f := &nameFlow{p: p, l: l, seen: map[string]bool{}}
		anyInstr(m, func(in ssa.Instruction) bool {
			if r, ok := in.(*ssa.Return); ok {
				f.flow(r.Results[0], nil, false)
			}
			return false
		})
		fn := p.fname(m)
		if f.raw {
			c.bad("raw:"+fn, "%s: %s shows the name as it is stored in the archive, not the one that was found valid", p.pos(m.Pos()), fn)
		}
		if f.whole {
			c.bad("whole:"+fn, "%s: %s shows more than the last element of the name", p.pos(m.Pos()), fn)
		}
		for _, x := range f.open {
			c.sample("%s: not followed: %s", fn, x)
		}
	}
}

// nameFlow follows a shown name back to where it comes from.
type nameFlow struct {
	p          *Prog
	l          *listInfo
	seen       map[string]bool
	raw, whole bool
	open       []string
}

type nameCall struct {
	up   *nameCall
	call *ssa.CallCommon
}

func (f *nameFlow) flow(v ssa.Value, up *nameCall, reduced bool) {
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	if v.Parent() == nil {
		return
	}
	k := v.Name() + "@" + f.p.fname(v.Parent())
	if reduced {
		k += "r"
	}
	if f.seen[k] {
		return
	}
	f.seen[k] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, y := range x.Edges {
			f.flow(y, up, reduced)
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			f.field(fa.X.Type(), fa.Field, reduced)
			return
		}
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					f.flow(s.Val, up, reduced)
				}
			}
			return
		}
		f.open = append(f.open, v.String())
	case *ssa.Field:
		f.field(x.X.Type(), x.Field, reduced)
	case *ssa.Slice:
		f.flow(x.X, up, reduced || x.Low != nil)
	case *ssa.ChangeType:
		f.flow(x.X, up, reduced)
	case *ssa.Convert:
		f.flow(x.X, up, reduced)
	case *ssa.BinOp:
		f.flow(x.X, up, reduced)
		f.flow(x.Y, up, reduced)
	case *ssa.Parameter:
		if up == nil {
			f.open = append(f.open, v.String())
			return
		}
		for i, q := range x.Parent().Params {
			if q == x && i < len(up.call.Args) {
				f.flow(up.call.Args[i], up.up, reduced)
			}
		}
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			f.call(&cl.Call, x.Index, up, reduced)
		}
	case *ssa.Call:
		f.call(&x.Call, 0, up, reduced)
	default:
		f.open = append(f.open, v.String())
	}
}

func (f *nameFlow) field(t types.Type, i int, reduced bool) {
	s := structOf(t)
	if s == nil || !isStringT(s.Field(i).Type()) {
		return
	}
	if f.l.isElem(derefT(t)) && i == f.l.name {
		f.whole = f.whole || !reduced
		return
	}
	if s.Field(i).Exported() {
		f.raw = true
	}
}

func (f *nameFlow) call(cc *ssa.CallCommon, i int, up *nameCall, reduced bool) {
	fn := cc.StaticCallee()
	if fn == nil {
		f.open = append(f.open, cc.String())
		return
	}
	if f.p.inModule(fn) && fn.Blocks != nil {
		if isSplit(fn) && i == 1 {
			for _, a := range cc.Args {
				f.flow(a, up, true)
			}
			return
		}
		if isNameFn(fn) && f.sanitises(fn) {
			f.whole = f.whole || !reduced
			return
		}
		anyInstr(fn, func(in ssa.Instruction) bool {
			if r, ok := in.(*ssa.Return); ok && i < len(r.Results) {
				f.flow(r.Results[i], &nameCall{up, cc}, reduced)
			}
			return false
		})
		return
	}
	switch fn.String() {
	case "path.Base", "strings.LastIndex", "strings.LastIndexByte", "path/filepath.Base":
		reduced = true
	case "path.Split":
		reduced = reduced || i == 1
	}
	for _, a := range cc.Args {
		if isStringT(a.Type()) {
			f.flow(a, up, reduced)
		}
	}
}

// sanitises: what an entry's name came out of; without such a function, any
// that cleans a path.
func (f *nameFlow) sanitises(fn *ssa.Function) bool {
	if len(f.l.san) > 0 {
		return f.l.san[fn]
	}
	return anyInstr(fn, func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && staticName(ci.Common()) == "path.Clean"
	})
}

// c17split: the last element of a name holds no slash. noslash(x, i) says that
// no byte of x above position i is a slash.
func c17split(c *Check, p *Prog, fn *ssa.Function) {
	name := p.fname(fn)
	tb, ti := types.Typ[types.Bool], types.Typ[types.Int]
	slash := func(e *Engine, x AV) bool {
		k := e.constOf(x)
		if k == nil {
			return false
		}
		if k.Kind() == constant.String {
			return constant.StringVal(k) == "/"
		}
		v, ok := constant.Int64Val(k)
		return ok && v == '/'
	}
	none := func(e *Engine, x, i AV) AV { return e.op("noslash", tb, x, i) }
	differs := func(e *Engine, st *State, x, i AV) bool {
		for f, v := range st.facts {
			n := e.n(f)
			if v != -1 || n.k != kOp || n.tag != "==" {
				continue
			}
			for k := range 2 {
				m := e.n(n.args[k])
				if m.k == kOp && m.tag == "at" && m.args[0] == x && m.args[1] == i && slash(e, n.args[1-k]) {
					return true
				}
			}
		}
		return false
	}
	h := Hooks{}
	h.Call = func(e *Engine, st *State, s *Site) (AV, bool) {
		switch s.name {
		case "strings.LastIndexByte", "strings.LastIndex":
			if slash(e, s.args[1]) {
				r := e.op("lastslash", ti, s.args[0])
				st.facts[none(e, s.args[0], r)] = 1
				return r, true
			}
		case "path.Base":
			return e.op("element", types.Typ[types.String], s.args[0]), true
		case "path.Split":
			return e.tuple([]AV{e.op("directory", types.Typ[types.String], s.args[0]), e.op("element", types.Typ[types.String], s.args[0])}), true
		}
		return 0, false
	}
	h.Instr = func(e *Engine, st *State, ctx *Ctx, in ssa.Instruction) {
		b, ok := in.(*ssa.BinOp)
		if !ok {
			return
		}
		x, y := e.eval(st, ctx, b.X), e.eval(st, ctx, b.Y)
		k := e.constOf(y)
		if k == nil {
			return
		}
		v, _ := constant.Int64Val(k)
		if !(b.Op == token.SUB && v == 1 || b.Op == token.ADD && v == -1) || !isIntT(b.Type()) {
			return
		}
		r := e.binop(st, b.Op, x, y, b.Type(), b.X.Type())
		if n := e.n(x); n.k == kOp && n.tag == "len" {
			st.facts[none(e, n.args[0], r)] = 1
		}
		for f, v := range st.facts {
			if n := e.n(f); v == 1 && n.k == kOp && n.tag == "noslash" && n.args[1] == x && differs(e, st, n.args[0], x) {
				st.facts[none(e, n.args[0], r)] = 1
			}
		}
	}
	h.Assume = func(e *Engine, st *State, cond AV, truth bool) {
		for f, w := range st.facts { // nothing found from end to end
			if m := e.n(f); w == 1 && m.k == kOp && m.tag == "noslash" && e.nonneg(st, lin{c: -1}.add(e.lin(st, m.args[1]), -1)) {
				st.facts[e.op("clean", tb, m.args[0])] = 1
			}
		}
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		v := vals[1]
		n := e.n(v)
		if e.isConst(v) || n.k == kOp && n.tag == "element" {
			return
		}
		c.count("last elements judged", 1)
		if n.k == kOp && n.tag == "slice" {
			for f, v := range st.facts {
				m := e.n(f)
				if v == 1 && m.k == kOp && m.tag == "noslash" && m.args[0] == n.args[0] {
					l := e.lin(st, n.args[1]).add(e.lin(st, m.args[1]), -1)
					if l.c >= 1 && len(l.t) == 0 {
						return
					}
				}
			}
		}
		if st.facts[e.op("clean", tb, v)] == 1 {
			return
		}
		c.bad("element:"+name, "%s: %s can return an element with a slash in it; path: %s", p.ipos(in), name, st.path())
	}
	newEngine(p, h).Run(fn, nil)
}
