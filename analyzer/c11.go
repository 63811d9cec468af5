package main

// C11: recycled decoders. Constructors are run abstractly with typestate for
// every object taken from a sync.Pool; the methods of the stream types are run
// with typestate for every object given back.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C11"] = c11 }

func callsPool(fn *ssa.Function, name string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil && f.String() == name {
					return true
				}
			}
		}
	}
	return false
}

func c11(c *Check) {
	p := c.P
	c.rule("a decoder taken from a sync.Pool is reset onto an input of the stream under construction before it is used or returned; a new decoder is made on such an input; a decoder is given back at most once, only by Close of its stream (or by the constructor that does not return it), is not used afterwards, and every field that refers to it is cleared")
	n := 0
	for _, fn := range p.funcs {
		if callsPool(fn, "(*sync.Pool).Get") {
			n++
		}
	}
	c.counts["functions taking from a pool"] = n
	holders := map[*types.Named]map[int]bool{} // stream type -> fields referring to the decoder
	var ctors []*ssa.Function
	for _, fn := range p.funcs {
		if fn.Parent() == nil && fn.Signature.Recv() == nil && fn.Blocks != nil && rcResult(fn.Signature) >= 0 {
			ctors = append(ctors, fn)
		}
	}
	reach := func(fn *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		var visit func(f *ssa.Function) bool
		visit = func(f *ssa.Function) bool {
			if f == nil || seen[f] || f.Blocks == nil || !p.inModule(f) {
				return false
			}
			seen[f] = true
			if callsPool(f, "(*sync.Pool).Get") || callsPool(f, "(*sync.Pool).Put") {
				return true
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && visit(ci.Common().StaticCallee()) {
						return true
					}
				}
			}
			for _, a := range f.AnonFuncs {
				if visit(a) {
					return true
				}
			}
			return false
		}
		return visit(fn)
	}
	for _, fn := range ctors {
		if !reach(fn) {
			continue
		}
		c.count("constructors of recycled decoders", 1)
		c11ctor(c, p, fn, holders)
	}
	for _, t := range p.pkgTypes() {
		if structOf(t) == nil || types.IsInterface(t) {
			continue
		}
		for i := 0; i < t.NumMethods(); i++ {
			if m := p.ssa.FuncValue(t.Method(i)); m != nil && m.Blocks != nil && reach(m) {
				c11method(c, p, t, m, holders[t])
			}
		}
	}
	c.need("pooled decoders obtained", 4)
	c.need("decoders given back", 4)
	c.need("constructors of recycled decoders", 4)
	c.assume("Reset of a library decoder discards everything it knew about its previous input")
	c.assume("a recycling pool only holds what the module puts into it")
}

func c11inline(p *Prog, fn *ssa.Function) func(e *Engine, ctx *Ctx, s *Site) bool {
	return func(e *Engine, ctx *Ctx, s *Site) bool {
		if s.fn.Parent() != nil || s.fn.Pkg == fn.Pkg {
			return true
		}
		return p.inModule(s.fn) && (callsPool(s.fn, "(*sync.Pool).Get") || callsPool(s.fn, "(*sync.Pool).Put"))
	}
}

func stripTA(e *Engine, a AV) AV {
	for {
		n := e.n(a)
		if n.k == kIface || n.k == kOp && strings.HasPrefix(n.tag, "ta:") {
			a = n.args[0]
			continue
		}
		if n.k == kOp && n.tag == "ext" {
			if m := e.n(n.args[0]); m.k == kOp && strings.HasPrefix(m.tag, "ta") {
				a = m.args[0]
				continue
			}
		}
		return a
	}
}

func c11ctor(c *Check, p *Prog, fn *ssa.Function, holders map[*types.Named]map[int]bool) {
	name := p.fname(fn)
	from := map[AV]AV{}
	inner := map[AV][]AV{}
	madeBy := map[AV]string{}
	lists := map[AV][]AV{}
	assertT := map[string]*ssa.TypeAssert{}
	var ctx0 *Ctx
	// derives: a is or wraps an input of fn
	var derives func(e *Engine, st *State, a AV, seen map[AV]bool) bool
	derives = func(e *Engine, st *State, a AV, seen map[AV]bool) bool {
		if a == 0 || seen[a] {
			return false
		}
		seen[a] = true
		n := *e.n(a)
		if n.k == kSym && n.ctx == ctx0 {
			if pr, ok := n.v.(*ssa.Parameter); ok {
				return isRC(pr.Type()) || isRCList(pr.Type()) || hasMethod(pr.Type(), "Read", 1, 2)
			}
		}
		if f, ok := from[a]; ok && derives(e, st, f, seen) {
			return true
		}
		for _, x := range inner[a] {
			if derives(e, st, x, seen) {
				return true
			}
		}
		for _, x := range n.args {
			if n.k == kConst {
				break
			}
			if derives(e, st, x, seen) {
				return true
			}
		}
		if n.k == kAlloc {
			for k, v := range st.mem {
				if e.root(k) == a && derives(e, st, v, seen) {
					return true
				}
			}
		}
		return false
	}
	h := Hooks{}
	h.Inline = c11inline(p, fn)
	h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) {
		if _, ok := from[val]; !ok {
			from[val] = addr
		}
	}
	h.Instr = func(e *Engine, st *State, ctx *Ctx, in ssa.Instruction) {
		if ta, ok := in.(*ssa.TypeAssert); ok {
			assertT[types.TypeString(ta.AssertedType, nil)] = ta
		}
	}
	h.Assume = func(e *Engine, st *State, cond AV, truth bool) {
		n := *e.n(cond)
		if truth || n.k != kOp || !strings.HasPrefix(n.tag, "taok:") {
			return
		}
		x := stripTA(e, n.args[0])
		if st.marks[x] == "" {
			return
		}
		// a pooled value asserted to a wider interface: what is in the pool?
		ta := assertT[n.tag[len("taok:"):]]
		if ta == nil {
			return
		}
		it, _ := ta.AssertedType.Underlying().(*types.Interface)
		if it == nil {
			return
		}
		if dyn := pooledTypes(p, fn.Pkg, ta.X.Type()); len(dyn) > 0 {
			for _, d := range dyn {
				if !types.Implements(d, it) {
					return
				}
			}
			st.dead = true
		}
	}
	h.Call = func(e *Engine, st *State, s *Site) (AV, bool) {
		if len(s.args) == 0 {
			return 0, false
		}
		for _, a := range s.args {
			if n := e.n(a); n.k == kOp && n.tag == "slice" {
				lists[a] = e.elems(st, a) // a call may change what is in the list
			}
		}
		x := stripTA(e, s.args[0])
		m := st.marks[x]
		if m == "" || s.name == "(*sync.Pool).Put" {
			return 0, false
		}
		recv := s.c.IsInvoke() || s.c.Signature().Recv() != nil
		if !recv {
			return 0, false
		}
		switch {
		case s.method() == "Reset":
		case m == "raw" && s.method() != "Close":
			c.bad("stale:"+name, "%s: %s is called on a recycled decoder before it is reset; path: %s", s.pos(e), shortName(s.name), st.path())
		case m == "given":
			c.bad("given:"+name, "%s: %s is called on a decoder that was given back; path: %s", s.pos(e), shortName(s.name), st.path())
		}
		return 0, false
	}
	h.After = func(e *Engine, st *State, s *Site, res AV) {
		switch {
		case s.name == "(*sync.Pool).Get":
			st.marks[res] = "raw"
			c.count("pooled decoders obtained", 1)
			return
		case s.name == "(*sync.Pool).Put":
			if x := stripTA(e, s.args[1]); st.marks[x] != "" {
				st.marks[x] = "given"
			}
			return
		}
		if s.method() == "Reset" && len(s.args) > 0 {
			x := stripTA(e, s.args[0])
			if st.marks[x] == "raw" {
				sig := s.c.Signature()
				needs, ok := false, false
				for i := 0; i < sig.Params().Len(); i++ {
					if hasMethod(sig.Params().At(i).Type(), "Read", 1, 2) {
						needs = true
						if derives(e, st, s.args[i+1], map[AV]bool{}) {
							ok = true
						}
					}
				}
				if needs && !ok {
					c.bad("input:"+name, "%s: a recycled decoder is reset onto something that is not an input of the stream; path: %s", s.pos(e), st.path())
				}
				st.marks[x] = "reset"
				return
			}
			if madeBy[x] != "" {
				inner[x] = append(inner[x], s.args[1:]...)
				delete(st.flags, fmt.Sprint("input", x))
				for _, a := range s.args[1:] {
					if derives(e, st, a, map[AV]bool{}) {
						st.flags[fmt.Sprint("input", x)] = "1"
					}
				}
				return
			}
		}
		sig := s.c.Signature()
		for i := 0; i < sig.Results().Len(); i++ {
			if res == 0 || !hasMethod(sig.Results().At(i).Type(), "Read", 1, 2) {
				continue
			}
			r := res
			if sig.Results().Len() > 1 {
				r = e.ext(res, i, sig.Results().At(i).Type())
			}
			inner[r] = append(inner[r], s.args...)
			for _, a := range s.args {
				inner[r] = append(inner[r], lists[a]...)
			}
			madeBy[r] = s.name
			if derives(e, st, r, map[AV]bool{}) {
				st.flags[fmt.Sprint("input", r)] = "1"
			} else {
				delete(st.flags, fmt.Sprint("input", r))
			}
		}
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		ei := errResult(fn.Signature)
		if ei >= 0 && e.nilness(st, vals[ei]) == 1 {
			return
		}
		c.count("constructor exits judged", 1)
		x := stripTA(e, vals[rcResult(fn.Signature)])
		seen := map[AV]bool{}
		var walk func(a AV, top *types.Named, field int, nested bool)
		walk = func(a AV, top *types.Named, field int, nested bool) {
			a = stripTA(e, a)
			if a == 0 || seen[a] {
				return
			}
			if m := st.marks[a]; m != "" && field >= 0 {
				if holders[top] == nil {
					holders[top] = map[int]bool{}
				}
				holders[top][field] = true
			}
			switch st.marks[a] {
			case "raw":
				c.bad("stale:"+name, "%s: %s returns a stream over a recycled decoder that was not reset onto its input; path: %s", p.ipos(in), name, st.path())
			case "given":
				c.bad("shared:"+name, "%s: %s returns a stream over a decoder it has given back; path: %s", p.ipos(in), name, st.path())
			}
			if st.marks[a] != "" {
				return // fields of the decoder itself
			}
			n := *e.n(a)
			if n.k == kAlloc {
				seen[a] = true
				s := structOf(n.typ)
				named, _ := derefT(n.typ).(*types.Named)
				for i := 0; s != nil && i < s.NumFields(); i++ {
					if v, ok := st.mem[e.field(a, i, derefT(n.typ))]; ok {
						if field < 0 {
							walk(v, named, i, nested)
						} else {
							walk(v, top, field, nested)
						}
					}
				}
				return
			}
			by := madeBy[a]
			if by != "" && field >= 0 && !nested && st.flags[fmt.Sprint("input", a)] == "" {
				c.bad("input:"+name, "%s: the decoder made by %s does not read an input of the stream; path: %s", p.ipos(in), shortName(by), st.path())
			}
			for _, y := range inner[a] {
				walk(y, top, field, nested || by != "" && field >= 0)
			}
		}
		walk(x, nil, -1, false)
	}
	e := newEngine(p, h)
	e.Run(fn, func(e *Engine, ctx *Ctx, st *State) { ctx0 = ctx })
}

// pooledTypes: the concrete types behind results of type t of library calls in
// the package; nil if they are not all known.
func pooledTypes(p *Prog, pkg *ssa.Package, t types.Type) []types.Type {
	var out []types.Type
	for _, fn := range p.funcs {
		if fn.Pkg != pkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cl, ok := in.(*ssa.Call)
				if !ok || !types.Identical(cl.Type(), t) {
					continue
				}
				d := dynTypes(cl, map[ssa.Value]bool{})
				if d == nil {
					return nil
				}
				out = append(out, d...)
			}
		}
	}
	return out
}

// dynTypes: the concrete types an interface value can have; nil if unknown.
func dynTypes(v ssa.Value, seen map[ssa.Value]bool) []types.Type {
	if seen[v] {
		return nil
	}
	seen[v] = true
	var out []types.Type
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return []types.Type{v.X.Type()}
	case *ssa.Phi:
		for _, x := range v.Edges {
			d := dynTypes(x, seen)
			if d == nil {
				return nil
			}
			out = append(out, d...)
		}
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil || f.Blocks == nil || f.Signature.Results().Len() != 1 {
			return nil
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Return); ok {
					d := dynTypes(r.Results[0], seen)
					if d == nil {
						return nil
					}
					out = append(out, d...)
				}
			}
		}
	}
	return out
}

func c11method(c *Check, p *Prog, t *types.Named, fn *ssa.Function, holders map[int]bool) {
	tn := t.Obj().Pkg().Name() + "." + t.Obj().Name()
	from := map[AV]int{}
	var recv AV
	h := Hooks{}
	h.Inline = c11inline(p, fn)
	fieldAddr := func(e *Engine, addr AV) int {
		q := e.n(addr)
		if q.k != kField || q.args[0] != recv {
			return -1
		}
		i, _ := strconv.Atoi(q.tag)
		return i
	}
	h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) {
		if i := fieldAddr(e, addr); i >= 0 && !e.isNil(val) {
			if _, ok := from[val]; !ok {
				from[val] = i
			}
		}
	}
	h.Call = func(e *Engine, st *State, s *Site) (AV, bool) {
		if s.name == "(*sync.Pool).Put" {
			c.count("decoders given back", 1)
			i, ok := from[stripTA(e, s.args[1])]
			if !ok {
				return 0, false
			}
			if fn.Name() != "Close" {
				c.bad("early:"+tn+"."+fn.Name(), "%s: %s gives the decoder of %s back although the stream is not closed; path: %s", s.pos(e), fn.Name(), tn, st.path())
			}
			k := "put" + strconv.Itoa(i)
			if st.flags[k] != "" {
				c.bad("twice:"+tn, "%s: closing %s gives its decoder back twice; path: %s", s.pos(e), tn, st.path())
			}
			st.flags[k] = "1"
			return 0, false
		}
		if len(s.args) > 0 {
			for _, a := range s.args {
				if i, ok := from[stripTA(e, a)]; ok && st.flags["put"+strconv.Itoa(i)] != "" {
					c.bad("used:"+tn, "%s: %s uses the decoder of %s after giving it back; path: %s", s.pos(e), shortName(s.name), tn, st.path())
				}
			}
		}
		return 0, false
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		c.count("method exits judged", 1)
		var put []int
		for k := range st.flags {
			if strings.HasPrefix(k, "put") {
				i, _ := strconv.Atoi(k[3:])
				put = append(put, i)
			}
		}
		if len(put) == 0 {
			return
		}
		sort.Ints(put)
		fs := map[int]bool{}
		for _, i := range put {
			fs[i] = true
		}
		for i := range holders {
			fs[i] = true
		}
		for i := range fs {
			v, ok := st.mem[e.field(recv, i, t)]
			if !ok || e.nilness(st, v) != -1 {
				c.bad("kept:"+tn, "%s: %s gave its decoder back but still refers to it in %s; path: %s", p.ipos(in), tn, fieldName(t, i), st.path())
			}
		}
	}
	e := newEngine(p, h)
	e.Run(fn, func(e *Engine, ctx *Ctx, st *State) { recv = e.param(ctx, 0) })
}
