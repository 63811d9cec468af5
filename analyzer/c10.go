package main

// C10: closed handles stay closed. The states Close can leave a stream in are
// computed by running it abstractly; Read, ReadByte, WriteTo and Close are then
// run from each of these states.

import (
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C10"] = c10 }

// postState: fields known to be nil or constant after a successful Close.
type postState map[int]*ssa.Const

func (s postState) key(n *types.Named) string {
	var ks []string
	for i, c := range s {
		ks = append(ks, fieldName(n, i)+"="+c.String())
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func c10(c *Check) {
	p := c.P
	c.rule("after any successful Close, every path of Read/ReadByte/WriteTo returns no data and an error (or nothing was asked for), without touching a nil reference; every path of a second Close touches no resource again")
	for _, n := range p.pkgTypes() {
		st := structOf(n)
		if st == nil || types.IsInterface(n) || !isRC(types.NewPointer(n)) {
			continue
		}
		cl := p.method(n, "Close")
		if cl == nil || cl.Blocks == nil {
			continue // Close is promoted: the wrapped stream decides
		}
		owns := false
		for i := 0; i < st.NumFields(); i++ {
			if closable(st.Field(i).Type()) {
				owns = true
			}
		}
		if !owns {
			continue
		}
		tn := n.Obj().Pkg().Name() + "." + n.Obj().Name()
		c.count("stream types", 1)
		posts := c10post(c, p, n, cl)
		if len(posts) == 0 {
			c.bad("neverclosed:"+tn, "Close of %s cannot succeed", tn)
		}
		var keys []string
		for k := range posts {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			c.sample("%s after Close: %s", tn, k)
			c.count("closed states", 1)
			for _, m := range []string{"Read", "ReadByte", "WriteTo", "ReadAt", "Close"} {
				f := p.method(n, m)
				if f == nil || f.Blocks == nil || f.Signature.Recv() == nil {
					continue
				}
				c10run(c, p, n, f, posts[k], k)
				c.count("methods run on closed streams", 1)
			}
		}
	}
	c.need("stream types", 12)
	c.need("methods run on closed streams", 24)
	c.assume("a Close that fails leaves the stream open")
}

func sameNamed(t types.Type, n *types.Named) bool {
	return t != nil && types.Identical(derefT(t), n)
}

func c10post(c *Check, p *Prog, n *types.Named, cl *ssa.Function) map[string]postState {
	out := map[string]postState{}
	from := map[AV]int{}
	h := Hooks{}
	var recv AV
	isField := func(e *Engine, addr AV) int {
		q := e.n(addr)
		if q.k != kField || q.args[0] != recv {
			return -1
		}
		i, _ := strconv.Atoi(q.tag)
		return i
	}
	h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool {
		return s.fn.Parent() != nil || s.fn.Pkg == cl.Pkg
	}
	h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) {
		if i := isField(e, addr); i >= 0 {
			if _, ok := st.mem[addr]; !ok {
				from[val] = i
			} else if _, ok := from[val]; !ok && e.n(val).k == kSym {
				from[val] = i
			}
		}
	}
	h.Store = func(e *Engine, st *State, ctx *Ctx, in *ssa.Store, addr, val AV) {
		if i := isField(e, addr); i >= 0 {
			delete(st.flags, "nil"+strconv.Itoa(i))
		}
	}
	h.Assume = func(e *Engine, st *State, cond AV, truth bool) {
		m := *e.n(cond)
		if m.k != kOp || m.tag != "==" || !truth {
			return
		}
		for k, x := range m.args {
			if i, ok := from[x]; ok && e.isNil(m.args[1-k]) && st.mem[e.field(recv, i, n)] == x {
				st.dead = true // the stream being closed is a complete one
			}
		}
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		if ei := errResult(cl.Signature); ei < 0 || e.nilness(st, vals[ei]) == 1 {
			return
		}
		s := structOf(n)
		ps := postState{}
		for i := 0; i < s.NumFields(); i++ {
			v, ok := st.mem[e.field(recv, i, n)]
			switch {
			case ok && e.n(v).k == kConst && e.n(v).cv != nil && e.n(v).cv.Value != nil:
				ps[i] = ssa.NewConst(e.n(v).cv.Value, s.Field(i).Type())
			case ok && e.nilnessT(st, v, s.Field(i).Type()) == -1, st.flags["nil"+strconv.Itoa(i)] != "":
				ps[i] = ssa.NewConst(nil, s.Field(i).Type())
			}
		}
		out[ps.key(n)] = ps
	}
	e := newEngine(p, h)
	e.Run(cl, func(e *Engine, ctx *Ctx, st *State) {
		recv = e.param(ctx, 0)
		st.facts[recv] = 1
		s := structOf(n)
		for i := 0; i < s.NumFields(); i++ {
			if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				st.mem[e.field(recv, i, n)] = e.konst(ssa.NewConst(constant.MakeBool(startsTrue(p, n, i, cl)), s.Field(i).Type()))
			}
		}
	})
	return out
}

// startsTrue: a flag of a stream is set when it is made (not by its Close).
func startsTrue(p *Prog, n *types.Named, field int, cl *ssa.Function) bool {
	yes := false
	for _, fn := range p.funcs {
		if fn == cl || fn.Parent() == cl {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != field || !sameNamed(fa.X.Type(), n) {
					continue
				}
				k, ok := s.Val.(*ssa.Const)
				if !ok || k.Value == nil || !constant.BoolVal(k.Value) {
					return false
				}
				yes = true
			}
		}
	}
	return yes
}

func c10run(c *Check, p *Prog, n *types.Named, fn *ssa.Function, ps postState, key string) {
	tn := n.Obj().Pkg().Name() + "." + n.Obj().Name()
	name := p.fname(fn)
	var recv AV
	h := Hooks{}
	h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool {
		return s.fn.Parent() != nil || s.fn.Pkg == fn.Pkg
	}
	nilUse := func(e *Engine, st *State, where, what string) {
		c.bad("crash:"+name, "%s: %s on a closed %s uses a nil %s; path: %s", where, fn.Name(), tn, what, st.path())
		st.dead = true
	}
	h.Deref = func(e *Engine, st *State, ctx *Ctx, in ssa.Instruction, a AV) {
		if e.nilness(st, a) == -1 {
			nilUse(e, st, p.ipos(in), "pointer")
		}
	}
	h.Call = func(e *Engine, st *State, s *Site) (AV, bool) {
		if len(s.args) == 0 {
			return 0, false
		}
		_, builtin := s.c.Value.(*ssa.Builtin)
		if builtin {
			return 0, false
		}
		method := s.c.IsInvoke() || s.c.Signature().Recv() != nil
		if method && e.nilness(st, s.args[0]) == -1 {
			if !s.c.IsInvoke() && s.fn != nil && p.inModule(s.fn) {
				return 0, false // analysed by inlining
			}
			nilUse(e, st, s.pos(e), "receiver of "+shortName(s.name))
			return 0, false
		}
		if fn.Name() == "Close" && method && (isCloseCall(s.c) || s.method() == "Put") {
			if s.fn != nil && p.inModule(s.fn) && s.args[0] == recv {
				return 0, false
			}
			c.bad("again:"+tn, "%s: closing a closed %s (%s) releases a resource again: %s; path: %s", s.pos(e), tn, key, shortName(s.name), st.path())
		}
		return 0, false
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		c.count("exits judged", 1)
		if fn.Name() == "Close" {
			return
		}
		ei := errResult(fn.Signature)
		fail := ei >= 0 && e.nilness(st, vals[ei]) == 1
		asked := true
		for a, v := range st.ceq {
			if q := e.n(a); q.k == kOp && q.tag == "len" {
				if k := e.constOf(v); k != nil && k.String() == "0" {
					asked = false
				}
			}
		}
		if st.flags["empty"] != "" {
			asked = false
		}
		if !fail && asked {
			c.bad("readable:"+tn, "%s: %s on a closed %s (%s) can succeed; path: %s", p.ipos(in), fn.Name(), tn, key, st.path())
			return
		}
		if ei > 0 && fn.Name() != "ReadByte" {
			k := e.constOf(vals[0])
			if k == nil || k.String() != "0" {
				c.bad("data:"+tn, "%s: %s on a closed %s (%s) can return data; path: %s", p.ipos(in), fn.Name(), tn, key, st.path())
			}
		}
	}
	h.Assume = func(e *Engine, st *State, cond AV, truth bool) {
		m := *e.n(cond)
		if m.k != kOp || m.tag != "==" && m.tag != "<" {
			return
		}
		for k, x := range m.args {
			q := e.n(x)
			v := e.constOf(m.args[1-k])
			if q.k != kOp || q.tag != "len" || v == nil {
				continue
			}
			switch {
			case m.tag == "==" && truth && v.ExactString() == "0",
				m.tag == "<" && k == 0 && truth && v.ExactString() == "1",
				m.tag == "<" && k == 1 && !truth && v.ExactString() == "0":
				st.flags["empty"] = "1"
			}
		}
	}
	e := newEngine(p, h)
	e.Run(fn, func(e *Engine, ctx *Ctx, st *State) {
		recv = e.param(ctx, 0)
		st.facts[recv] = 1
		for i, k := range ps {
			st.mem[e.field(recv, i, n)] = e.konst(k)
		}
	})
}
