package main

// Call graph, "after opening" function set, and value-origin queries shared by
// the flow-insensitive analyses.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type CallSite struct {
	in     ssa.CallInstruction
	caller *ssa.Function
}

type CG struct {
	p        *Prog
	callers  map[*ssa.Function][]CallSite // static callers inside the module
	taken    map[*ssa.Function]bool       // address taken (used as a value)
	bySig    map[string][]*ssa.Function
	decomp   []*ssa.Function // functions registered or converted to Decompressor
	postOpen map[*ssa.Function]bool
	inits    map[*ssa.Function]bool // run during package initialisation only
}

var cgMemo *CG

func (p *Prog) cg() *CG {
	if cgMemo != nil && cgMemo.p == p {
		return cgMemo
	}
	g := &CG{p: p, callers: map[*ssa.Function][]CallSite{}, taken: map[*ssa.Function]bool{}, bySig: map[string][]*ssa.Function{}, inits: map[*ssa.Function]bool{}}
	cgMemo = g
	dec := p.named(modPath, "Decompressor")
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					c := ci.Common()
					if f := c.StaticCallee(); f != nil {
						g.callers[f] = append(g.callers[f], CallSite{ci, fn})
					}
					for _, a := range c.Args {
						g.take(a)
					}
					continue
				}
				for _, op := range in.Operands(nil) {
					if _, ok := in.(*ssa.MakeClosure); ok && *op == in.(*ssa.MakeClosure).Fn {
						g.taken[in.(*ssa.MakeClosure).Fn.(*ssa.Function)] = true
						continue
					}
					g.take(*op)
				}
			}
		}
	}
	for f := range g.taken {
		k := types.TypeString(f.Signature, nil)
		g.bySig[sigKey(f.Signature)] = append(g.bySig[sigKey(f.Signature)], f)
		_ = k
	}
	for _, l := range g.bySig {
		sort.Slice(l, func(i, j int) bool { return p.fname(l[i]) < p.fname(l[j]) })
	}
	if dec != nil {
		sk := sigKey(dec.Underlying().(*types.Signature))
		g.decomp = g.bySig[sk]
	}
	// package initialisers
	var w []*ssa.Function
	for _, fn := range p.funcs {
		if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			if fn.Signature.Recv() == nil && fn.Parent() == nil {
				w = append(w, fn)
			}
		}
	}
	for len(w) > 0 {
		f := w[len(w)-1]
		w = w[:len(w)-1]
		if g.inits[f] {
			continue
		}
		g.inits[f] = true
	}
	g.postOpen = g.reach(g.postRoots())
	return g
}

func sigKey(s *types.Signature) string {
	var b strings.Builder
	for _, t := range []*types.Tuple{s.Params(), s.Results()} {
		b.WriteByte('(')
		for i := 0; i < t.Len(); i++ {
			b.WriteString(types.TypeString(t.At(i).Type(), nil))
			b.WriteByte(',')
		}
		b.WriteByte(')')
	}
	if s.Variadic() {
		b.WriteString("...")
	}
	return b.String()
}

func (g *CG) take(v ssa.Value) {
	switch x := v.(type) {
	case *ssa.Function:
		g.taken[x] = true
	case *ssa.MakeClosure:
		g.taken[x.Fn.(*ssa.Function)] = true
	}
}

// callees lists module functions an instruction may call.
func (g *CG) callees(ci ssa.CallInstruction) []*ssa.Function {
	c := ci.Common()
	if c.IsInvoke() {
		return g.p.implementers(c.Value.Type(), c.Method)
	}
	if f := c.StaticCallee(); f != nil {
		if g.p.inModule(f) && f.Blocks != nil {
			return []*ssa.Function{f}
		}
		return nil
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	return g.bySig[sigKey(c.Signature())]
}

func (g *CG) reach(roots []*ssa.Function) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	w := append([]*ssa.Function{}, roots...)
	for len(w) > 0 {
		f := w[len(w)-1]
		w = w[:len(w)-1]
		if f == nil || m[f] || f.Blocks == nil || !g.p.inModule(f) {
			continue
		}
		m[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					w = append(w, g.callees(ci)...)
				}
				for _, op := range in.Operands(nil) {
					switch x := (*op).(type) {
					case *ssa.Function:
						w = append(w, x)
					case *ssa.MakeClosure:
						w = append(w, x.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	return m
}

// postRoots: what a caller (or the library on its behalf) can run after the
// archive is open: every exported or interface-implementing method, plus the
// decompressor constructors.
func (g *CG) postRoots() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range g.p.funcs {
		if f.Signature.Recv() == nil || f.Parent() != nil {
			continue
		}
		if o := f.Object(); o != nil && o.Exported() {
			out = append(out, f)
		}
	}
	out = append(out, g.decomp...)
	return out
}

// isStream: values of this type are single-owner streams or handles.
func (p *Prog) isStream(t types.Type) bool {
	for _, ty := range []types.Type{t, types.NewPointer(derefT(t))} {
		ms := types.NewMethodSet(ty)
		sel := ms.Lookup(nil, "Read")
		if sel == nil {
			continue
		}
		sig, ok := sel.Type().(*types.Signature)
		if ok && sig.Params().Len() == 1 && sig.Results().Len() == 2 && types.TypeString(sig.Params().At(0).Type(), nil) == "[]byte" {
			return true
		}
	}
	return false
}

// sharedTypes: module struct types reachable from the exported archive types
// through fields, except streams.
func (p *Prog) sharedTypes() map[string]*types.Named {
	out := map[string]*types.Named{}
	var visit func(t types.Type)
	seen := map[types.Type]bool{}
	visit = func(t types.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch x := types.Unalias(t).(type) {
		case *types.Named:
			if !p.isModPkg(x.Obj().Pkg()) {
				return
			}
			if it, ok := x.Underlying().(*types.Interface); ok {
				if p.isStream(x) {
					return
				}
				for _, n := range p.pkgTypes() {
					if types.IsInterface(n) {
						continue
					}
					if types.Implements(n, it) || types.Implements(types.NewPointer(n), it) {
						visit(n)
					}
				}
				return
			}
			if p.isStream(x) {
				return
			}
			if s, ok := x.Underlying().(*types.Struct); ok {
				out[types.TypeString(x, nil)] = x
				for i := 0; i < s.NumFields(); i++ {
					visit(s.Field(i).Type())
				}
				// types a method's own containers may hold (container/list elements)
				return
			}
			visit(x.Underlying())
		case *types.Pointer:
			visit(x.Elem())
		case *types.Slice:
			visit(x.Elem())
		case *types.Array:
			visit(x.Elem())
		case *types.Map:
			visit(x.Key())
			visit(x.Elem())
		case *types.Struct:
			for i := 0; i < x.NumFields(); i++ {
				visit(x.Field(i).Type())
			}
		case *types.Interface:
		}
	}
	for _, n := range []string{"Reader", "ReadCloser", "File"} {
		if t := p.named(modPath, n); t != nil {
			visit(t)
		}
	}
	// values kept in containers by shared types of the same package
	for _, sp := range p.pkgs {
		has := false
		for _, n := range out {
			if n.Obj().Pkg() == sp.Pkg && n.Obj().Pkg().Path() != modPath {
				has = true
			}
		}
		if !has {
			continue
		}
		for _, nm := range sp.Pkg.Scope().Names() {
			if tn, ok := sp.Pkg.Scope().Lookup(nm).(*types.TypeName); ok {
				if n, ok := tn.Type().(*types.Named); ok {
					if _, ok := n.Underlying().(*types.Struct); ok && !p.isStream(n) && strings.HasSuffix(sp.Pkg.Path(), "/pool") {
						visit(n)
					}
				}
			}
		}
	}
	return out
}

// ---- origins

// Origin of a reference (pointer, slice, map): where the memory it refers to
// may have come from.
type Origin struct {
	fresh  bool
	fields map[string]bool // loaded from these struct fields
	global map[*ssa.Global]bool
	params map[*ssa.Parameter]bool // root parameters that could not be resolved further
	other  bool
}

func (o *Origin) onlyFresh() bool {
	return o.fresh && len(o.fields) == 0 && len(o.global) == 0 && len(o.params) == 0 && !o.other
}

// origin traces v backwards. Parameters of functions that are not entry points
// and whose callers are all known are traced into the callers.
func (g *CG) origin(v ssa.Value) *Origin {
	o := &Origin{fields: map[string]bool{}, global: map[*ssa.Global]bool{}, params: map[*ssa.Parameter]bool{}}
	seen := map[ssa.Value]bool{}
	g.trace(v, o, seen, 0)
	return o
}

func (g *CG) entry(fn *ssa.Function) bool {
	if fn.Parent() != nil {
		return false
	}
	if g.taken[fn] {
		return true
	}
	if o := fn.Object(); o != nil && o.Exported() {
		return true
	}
	return len(g.callers[fn]) == 0
}

func (g *CG) trace(v ssa.Value, o *Origin, seen map[ssa.Value]bool, d int) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	if d > 60 {
		o.other = true
		return
	}
	switch x := v.(type) {
	case *ssa.Const:
		o.fresh = true
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		o.fresh = true
	case *ssa.FieldAddr:
		// address inside an object; an embedded struct belongs to the object
		g.trace(x.X, o, seen, d+1)
	case *ssa.IndexAddr:
		g.trace(x.X, o, seen, d+1)
	case *ssa.Slice:
		g.trace(x.X, o, seen, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			g.trace(e, o, seen, d+1)
		}
	case *ssa.ChangeType:
		g.trace(x.X, o, seen, d+1)
	case *ssa.ChangeInterface:
		g.trace(x.X, o, seen, d+1)
	case *ssa.MakeInterface:
		g.trace(x.X, o, seen, d+1)
	case *ssa.TypeAssert:
		g.trace(x.X, o, seen, d+1)
	case *ssa.Convert:
		if isByteSlice(x.Type()) && !isByteSlice(x.X.Type()) || !isByteSlice(x.Type()) && isByteSlice(x.X.Type()) {
			o.fresh = true
			return
		}
		g.trace(x.X, o, seen, d+1)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			g.traceCall(t, x.Index, o, seen, d+1)
		case *ssa.TypeAssert:
			g.trace(t.X, o, seen, d+1)
		case *ssa.Lookup:
			g.trace(t.X, o, seen, d+1)
		default:
			o.other = true
		}
	case *ssa.Call:
		g.traceCall(x, 0, o, seen, d+1)
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			o.fields[fieldKey(fa.X.Type(), fa.Field)] = true
			return
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			g.trace(ia.X, o, seen, d+1)
			return
		}
		if gl, ok := x.X.(*ssa.Global); ok {
			o.global[gl] = true
			return
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			// local variable cell: union of what is stored
			g.traceCell(al, o, seen, d+1)
			return
		}
		if fv, ok := x.X.(*ssa.FreeVar); ok {
			g.traceFree(fv, true, o, seen, d+1)
			return
		}
		o.other = true
	case *ssa.Field:
		o.fields[fieldKey(x.X.Type(), x.Field)] = true
	case *ssa.Global:
		o.global[x] = true
	case *ssa.FreeVar:
		g.traceFree(x, false, o, seen, d+1)
	case *ssa.Parameter:
		fn := x.Parent()
		if g.entry(fn) || fn.Parent() != nil && !g.callersComplete(fn) {
			o.params[x] = true
			return
		}
		i := paramIndex(x)
		for _, cs := range g.callers[fn] {
			a := cs.in.Common().Args
			if i < len(a) {
				g.trace(a[i], o, seen, d+1)
			}
		}
	default:
		o.other = true
	}
}

// callersComplete: every use of the closure fn is a direct call.
func (g *CG) callersComplete(fn *ssa.Function) bool { return len(g.callers[fn]) > 0 && !g.taken[fn] }

func paramIndex(x *ssa.Parameter) int {
	for i, p := range x.Parent().Params {
		if p == x {
			return i
		}
	}
	return -1
}

func (g *CG) traceCell(al *ssa.Alloc, o *Origin, seen map[ssa.Value]bool, d int) {
	for _, r := range *al.Referrers() {
		switch s := r.(type) {
		case *ssa.Store:
			if s.Addr == ssa.Value(al) {
				g.trace(s.Val, o, seen, d)
			}
		case *ssa.MakeClosure:
			fn := s.Fn.(*ssa.Function)
			for i, b := range s.Bindings {
				if b == ssa.Value(al) {
					for _, fr := range *fn.FreeVars[i].Referrers() {
						if st, ok := fr.(*ssa.Store); ok && st.Addr == ssa.Value(fn.FreeVars[i]) {
							g.trace(st.Val, o, seen, d)
						}
					}
				}
			}
		}
	}
}

func (g *CG) traceFree(fv *ssa.FreeVar, load bool, o *Origin, seen map[ssa.Value]bool, d int) {
	fn := fv.Parent()
	idx := -1
	for i, f := range fn.FreeVars {
		if f == fv {
			idx = i
		}
	}
	par := fn.Parent()
	if par == nil || idx < 0 {
		o.other = true
		return
	}
	found := false
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
				found = true
				bd := mc.Bindings[idx]
				if load {
					if al, ok := bd.(*ssa.Alloc); ok {
						g.traceCell(al, o, seen, d)
						continue
					}
					if f2, ok := bd.(*ssa.FreeVar); ok {
						g.traceFree(f2, true, o, seen, d)
						continue
					}
				}
				g.trace(bd, o, seen, d)
			}
		}
	}
	if !found {
		o.other = true
	}
}

func (g *CG) traceCall(c *ssa.Call, idx int, o *Origin, seen map[ssa.Value]bool, d int) {
	cc := &c.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			g.trace(cc.Args[0], o, seen, d)
			return
		}
		o.fresh = true
		return
	}
	cs := g.callees(c)
	if len(cs) == 0 {
		// external call: results treated as separate objects
		n := staticName(cc)
		switch n {
		case "bytes.TrimSpace", "bytes.Trim", "bytes.TrimRight", "bytes.TrimLeft", "slices.Grow", "slices.Clip", "bytes.NewBuffer", "bytes.NewReader", "slices.Delete", "slices.Compact", "slices.Insert":
			g.trace(cc.Args[0], o, seen, d)
			return
		}
		o.fresh = true
		return
	}
	for _, f := range cs {
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				g.trace(r.Results[idx], o, seen, d)
			}
		}
	}
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isSlice(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

// addrBase walks an address to the object it lies in: the innermost FieldAddr
// on a pointer, or the slice/array it indexes.
func addrBase(a ssa.Value) ssa.Value {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				a = x.X
				continue
			}
			return x.X
		default:
			return a
		}
	}
}
