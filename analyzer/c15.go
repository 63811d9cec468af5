package main

// C15: stream reuse. Where a stream is parked and fetched, the abstract values
// of position, group and start offset are compared as access paths; the pool's
// own choice and the stream's Seek are judged with linear forms over the facts
// of each path.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C15"] = c15 }

// isStreamT: a positioned stream: Read, Seek, Close and Size.
func isStreamT(t types.Type) bool {
	return hasMethod(t, "Read", 1, 2) && hasMethod(t, "Seek", 2, 2) && hasMethod(t, "Close", 0, 1) && hasMethod(t, "Size", 0, 1)
}

// poolCall: Get or Put of a pool of streams.
func poolCall(c *ssa.CallCommon) string {
	sig := c.Signature()
	name := ""
	if c.IsInvoke() {
		name = c.Method.Name()
	} else if f := c.StaticCallee(); f != nil && sig.Recv() != nil {
		name = f.Name()
	}
	p, r := sig.Params(), sig.Results()
	switch {
	case name == "Get" && p.Len() == 1 && r.Len() == 2 && isIntT(p.At(0).Type()) && isStreamT(r.At(0).Type()):
		return "Get"
	case name == "Put" && p.Len() == 2 && isIntT(p.At(0).Type()) && isStreamT(p.At(1).Type()):
		return "Put"
	}
	return ""
}

func c15(c *Check) {
	p := c.P
	c.rule("a stream is parked in the pool of its member's group under the position it reports itself, with nothing read in between")
	c.rule("a stream fetched for a member comes from the pool (or decoder) of that member's group under that member's start, and is moved to that start before the handle is returned")
	c.rule("a pool hands out only a stream parked at or before the requested position")
	c.rule("Seek of a stream succeeds only for positions at or after the current one, advances by exactly the difference and reports the requested position; the position counter sees every byte read")
	c.rule("each group has a pool of its own")
	direct := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && poolCall(ci.Common()) != "" {
					return true
				}
			}
		}
		return false
	}
	memo := map[*ssa.Function]bool{}
	var reach func(fn *ssa.Function) bool
	reach = func(fn *ssa.Function) bool {
		if v, ok := memo[fn]; ok {
			return v
		}
		memo[fn] = false
		r := direct(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && !r {
					if f := ci.Common().StaticCallee(); f != nil && p.inModule(f) && f.Blocks != nil && reach(f) {
						r = true
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			if reach(a) {
				r = true
			}
		}
		memo[fn] = r
		return r
	}
	called := p.calledFns()
	for _, fn := range p.funcs {
		if fn.Parent() != nil || fn.Blocks == nil || !reach(fn) || isPoolMethod(fn) {
			continue
		}
		if direct(fn) && (fn.Object() != nil && fn.Object().Exported()) || !called[fn] {
			c15use(c, p, fn, reach)
		}
	}
	for _, n := range p.pkgTypes() {
		if types.IsInterface(n) {
			continue
		}
		if get := p.method(n, "Get"); get != nil && get.Blocks != nil && rcResult(get.Signature) >= 0 && p.method(n, "Put") != nil {
			c15get(c, p, n, get)
		}
		if sk := p.method(n, "Seek"); sk != nil && sk.Blocks != nil && structOf(n) != nil && isStreamT(types.NewPointer(n)) {
			c15seek(c, p, n, sk)
			c15counter(c, p, n, "position counter", func(t types.Type) bool { return hasMethod(t, "Count", 0, 1) })
		}
	}
	c15pools(c, p)
	c.need("streams parked", 1)
	c.need("streams fetched", 1)
	c.need("handles judged", 1)
	c.need("pool choices judged", 2)
	c.need("seeks judged", 3)
	c.need("position counter judged", 1)
	c.need("pool elements set", 1)
	c.assume("Seek(0, SeekCurrent) of a stream reports its position (decided for the module's own streams by the Seek rule)")
	c.assume("positions fit in int64, so integer conversions keep their value")
}

func isPoolMethod(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	return r != nil && hasMethod(r.Type(), "Get", 1, 2) && hasMethod(r.Type(), "Put", 2, 2)
}

func c15use(c *Check, p *Prog, fn *ssa.Function, reach func(*ssa.Function) bool) {
	name := p.fname(fn)
	q := newProv()
	type src struct{ group, key string }
	srcs := map[AV]src{} // fetched streams
	posOf := map[AV]AV{} // reported position -> stream
	seekT := map[AV]string{}
	h := Hooks{}
	h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) { q.load(e, in, addr, val) }
	h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool {
		if s.fn.Parent() != nil {
			return true
		}
		if isPoolMethod(s.fn) || s.fn.Pkg != fn.Pkg || producesStream(s.fn) && !reach(s.fn) {
			return false
		}
		if reach(s.fn) {
			return true
		}
		for _, x := range s.fn.Params {
			t := derefT(x.Type())
			if isStreamT(x.Type()) && !types.IsInterface(t) {
				return false
			}
			if n, ok := t.(*types.Named); ok && (isStreamT(t) || structOf(n) != nil && holdsStream(n)) {
				return true
			}
		}
		return len(s.fn.Params) > 0 && isNamedT(derefT(s.fn.Params[0].Type()), modPath, "File")
	}
	strip := func(e *Engine, a AV) AV { return stripTA(e, a) }
	h.Call = func(e *Engine, st *State, s *Site) (AV, bool) {
		if poolCall(s.c) == "Put" {
			c.count("streams parked", 1)
			pool, key, rc := q.path(e, s.args[0]), s.args[1], strip(e, s.args[2])
			who := fmt.Sprintf("%s: %s", s.pos(e), name)
			// the position
			k := key
			for e.n(k).k == kOp && strings.HasPrefix(e.n(k).tag, "conv:") {
				k = e.n(k).args[0]
			}
			switch {
			case posOf[k] == rc && st.flags[fmt.Sprint("at", k)] != "":
			case posOf[k] == rc:
				c.bad("moved:"+name, "%s parks a stream under a position it has since left; path: %s", who, st.path())
			default:
				c.bad("position:"+name, "%s parks a stream under %s, which is not the position the stream reports; path: %s", who, q.path(e, key), st.path())
			}
			// the group
			owner := strings.TrimSuffix(q.path(e, rc), lastField(q.path(e, rc)))
			idx := between(pool)
			if g, ok := srcs[rc]; ok {
				if g.group != idx {
					c.bad("group:"+name, "%s parks a stream fetched for group %s in the pool of group %s; path: %s", who, g.group, idx, st.path())
				}
			} else if idx == "" || owner == "" || !strings.HasPrefix(idx, owner+".") {
				c.bad("group:"+name, "%s parks the stream of %s in %s, which is not chosen by that handle's member; path: %s", who, strings.TrimPrefix(owner, "p:"), pool, st.path())
			}
		}
		return 0, false
	}
	h.After = func(e *Engine, st *State, s *Site, res AV) {
		switch poolCall(s.c) {
		case "Get":
			c.count("streams fetched", 1)
			r := e.ext(res, 0, s.c.Signature().Results().At(0).Type())
			srcs[r] = src{between(q.path(e, s.args[0])), q.path(e, s.args[1])}
			st.marks[r] = "fetched"
			return
		case "Put":
			return
		}
		if s.fn != nil && producesStream(s.fn) && res != 0 {
			r := res
			if rs := s.c.Signature().Results(); rs.Len() > 1 {
				r = e.ext(res, 0, rs.At(0).Type())
			}
			g := ""
			for i, a := range s.args {
				if isIntT(e.typOf(a)) && !(i == 0 && s.c.Signature().Recv() != nil) {
					g = q.path(e, a)
				}
			}
			if g != "" {
				srcs[r] = src{group: g}
				st.marks[r] = "fetched"
			}
			return
		}
		if len(s.args) == 0 {
			return
		}
		rc := strip(e, s.args[0])
		isM := s.c.IsInvoke() || s.c.Signature().Recv() != nil
		if isM && s.method() == "Seek" && len(s.args) == 3 && isStreamT(e.typOf(s.args[0])) {
			w := e.constOf(s.args[2])
			for k := range posOf {
				if posOf[k] == rc {
					delete(st.flags, fmt.Sprint("at", k))
				}
			}
			pos := e.ext(res, 0, s.c.Signature().Results().At(0).Type())
			posOf[pos] = rc
			st.flags[fmt.Sprint("at", pos)] = "1"
			delete(st.flags, fmt.Sprint("start", rc))
			if w != nil && w.ExactString() == "0" {
				seekT[res] = q.path(e, s.args[1])
				st.flags[fmt.Sprint("start", rc)] = fmt.Sprint(int(res))
			}
			return
		}
		for i, a := range s.args {
			x := strip(e, a)
			reads := i > 0 || s.method() != "Size" && s.method() != "Close"
			if !reads || !isStreamT(e.typOf(a)) && srcs[x] == (src{}) {
				continue
			}
			for k := range posOf {
				if posOf[k] == x {
					delete(st.flags, fmt.Sprint("at", k))
				}
			}
			delete(st.flags, fmt.Sprint("start", x))
		}
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		if ei := errResult(fn.Signature); ei >= 0 && e.nilness(st, vals[ei]) == 1 {
			return
		}
		for _, v := range vals {
			v = strip(e, v)
			n := *e.n(v)
			s := structOf(derefT(n.typ))
			if n.k != kAlloc || s == nil {
				continue
			}
			// the handle: a stream and the member it reads
			for i := 0; i < s.NumFields(); i++ {
				sv, ok := st.mem[e.field(v, i, derefT(n.typ))]
				if !ok {
					continue
				}
				sv = strip(e, sv)
				g, ok := srcs[sv]
				if !ok {
					continue
				}
				c.count("handles judged", 1)
				var members []string
				for j := 0; j < s.NumFields(); j++ {
					if mv, ok := st.mem[e.field(v, j, derefT(n.typ))]; ok && j != i {
						if m := structOf(derefT(e.typOf(mv))); m != nil {
							members = append(members, q.path(e, mv))
						}
					}
				}
				who := fmt.Sprintf("%s: %s", p.ipos(in), name)
				own := false
				m := ""
				for _, x := range members {
					if strings.HasPrefix(g.group, x+".") {
						own, m = true, x
					}
				}
				if !own {
					c.bad("group:"+name, "%s returns a handle on a stream of group %s, which is not that of its member (%s); path: %s", who, g.group, strings.Join(members, ", "), st.path())
					continue
				}
				start := ""
				if f := st.flags[fmt.Sprint("start", sv)]; f != "" {
					var r int
					fmt.Sscan(f, &r)
					start = seekT[AV(r)]
					if e.nilness(st, e.ext(AV(r), 1, types.Universe.Lookup("error").Type())) == 1 {
						start = ""
					}
				}
				if start == "" {
					c.bad("start:"+name, "%s returns a handle without moving the stream to the member's start; path: %s", who, st.path())
					continue
				}
				if !strings.HasPrefix(start, m+".") {
					c.bad("start:"+name, "%s returns a handle on a stream moved to %s, not to the start of the member; path: %s", who, start, st.path())
				}
				if g.key != "" && g.key != start {
					c.bad("key:"+name, "%s fetched the stream under %s but needs it at %s; path: %s", who, g.key, start, st.path())
				}
			}
		}
	}
	e := newEngine(p, h)
	e.Run(fn, nil)
}

func producesStream(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	return r.Len() > 0 && isStreamT(r.At(0).Type())
}

func holdsStream(n *types.Named) bool {
	s := structOf(n)
	for i := 0; i < s.NumFields(); i++ {
		if isStreamT(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

func lastField(p string) string {
	if i := strings.LastIndexByte(p, '.'); i >= 0 {
		return p[i:]
	}
	return p
}

// between: the index of an access path that ends in an element.
func between(p string) string {
	if !strings.HasSuffix(p, "]") {
		return ""
	}
	d := 0
	for i := len(p) - 1; i >= 0; i-- {
		switch p[i] {
		case ']':
			d++
		case '[':
			if d--; d == 0 {
				return p[i+1 : len(p)-1]
			}
		}
	}
	return ""
}

func c15get(c *Check, p *Prog, n *types.Named, fn *ssa.Function) {
	q := newProv()
	keyOf := map[AV]AV{}
	var off AV
	within := func(e *Engine, v AV) (AV, bool) {
		for d := 0; d < 14; d++ {
			v = stripTA(e, v)
			if _, ok := keyOf[v]; ok {
				return v, true
			}
			n := *e.n(v)
			if f, ok := q.from[v]; ok {
				v = f
				continue
			}
			switch {
			case n.k == kField || n.k == kIndex || n.k == kOp && (strings.HasPrefix(n.tag, "ext") || strings.HasPrefix(n.tag, "fld")):
				v = n.args[0]
				continue
			}
			break
		}
		return 0, false
	}
	judge := func(e *Engine, st *State) {
		for el, k := range keyOf {
			if st.flags[fmt.Sprint("live", el)] == "" {
				continue
			}
			d := e.lin(st, off).add(e.lin(st, k), -1)
			if d.zero() || q.nonneg(e, st, d) {
				st.flags[fmt.Sprint("le", el)] = "1"
			}
		}
	}
	h := Hooks{}
	h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool { return s.fn.Parent() != nil || s.fn.Pkg == fn.Pkg }
	h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) { q.load(e, in, addr, val) }
	pending := map[ssa.Value]AV{}
	h.Instr = func(e *Engine, st *State, ctx *Ctx, in ssa.Instruction) {
		if lk, ok := in.(*ssa.Lookup); ok {
			pending[lk] = e.eval(st, ctx, lk.Index)
			el := e.sym(ctx, lk, "")
			if lk.CommaOk {
				el = e.op("ext0", nil, el)
				for i, n := range e.nodes { // find the typed extract
					if n.k == kOp && n.tag == "ext0" && n.args[0] == e.sym(ctx, lk, "") {
						el = AV(i)
					}
				}
			}
			keyOf[el] = pending[lk]
			delete(st.flags, fmt.Sprint("le", el))
			st.flags[fmt.Sprint("live", el)] = "1"
			judge(e, st)
		}
	}
	h.Assume = func(e *Engine, st *State, cond AV, truth bool) { judge(e, st) }
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		v := vals[rcResult(fn.Signature)]
		c.count("pool choices judged", 1)
		if e.nilness(st, v) == -1 {
			return
		}
		el, ok := within(e, v)
		if !ok {
			c.sample("%s: the choice of %s is not recognised and not judged", p.ipos(in), p.fname(fn))
			return
		}
		if st.flags[fmt.Sprint("le", el)] == "" {
			c.bad("choice:"+p.fname(fn), "%s: %s hands out a stream parked under %s, which may lie behind the requested position; path: %s", p.ipos(in), p.fname(fn), q.path(e, keyOf[el]), st.path())
		}
	}
	e := newEngine(p, h)
	e.Run(fn, func(e *Engine, ctx *Ctx, st *State) {
		off = e.param(ctx, 1)
		st.marks[off] = "param" // keeps facts about it
	})
}

// c15seek: Seek of a stream type, per origin.
func c15seek(c *Check, p *Prog, n *types.Named, fn *ssa.Function) {
	name := p.fname(fn)
	for whence := int64(0); whence < 3; whence++ {
		q := newProv()
		var recv, off AV
		sizeF := returnedField(p, n, "Size")
		adv := map[string]lin{}
		intT := types.Typ[types.Int64]
		count := func(e *Engine) AV { return e.free("count", intT) }
		size := func(e *Engine) AV { return e.free("size", intT) }
		h := Hooks{}
		h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) { q.load(e, in, addr, val) }
		h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool {
			return s.fn.Pkg == fn.Pkg && s.fn.Name() != "Read"
		}
		h.Assume = func(e *Engine, st *State, cond AV, truth bool) { q.assume(e, st, cond, truth) }
		own := func(e *Engine, a AV) bool {
			a = stripTA(e, a)
			if a == recv {
				return true
			}
			f, ok := q.from[a]
			return ok && e.n(f).k == kField && e.n(f).args[0] == recv && hasMethod(e.typOf(a), "Read", 1, 2)
		}
		h.Call = func(e *Engine, st *State, s *Site) (AV, bool) {
			sig := s.c.Signature()
			isM := (s.c.IsInvoke() || sig.Recv() != nil) && len(s.args) == 1 && sig.Results().Len() == 1 && isIntT(sig.Results().At(0).Type())
			if !isM {
				return 0, false
			}
			f, ok := q.from[stripTA(e, s.args[0])]
			if ok && e.n(f).k == kField && e.n(f).args[0] == recv && (s.fn == nil || !p.inModule(s.fn)) {
				// the position counter
				if st.flags["advanced"] == "" {
					return count(e), true
				}
			}
			if stripTA(e, s.args[0]) == recv && s.method() == "Size" {
				return size(e), true
			}
			return 0, false
		}
		advance := func(e *Engine, st *State, by AV) {
			l := e.lin(st, by)
			adv[l.key()] = l
			st.flags["advanced"] = l.key()
			if !q.nonneg(e, st, l) {
				st.flags["negative"] = "1"
			}
		}
		h.After = func(e *Engine, st *State, s *Site, res AV) {
			switch s.name {
			case "io.CopyN":
				if own(e, s.args[1]) {
					advance(e, st, s.args[2])
				}
			case "io.ReadFull":
				if own(e, s.args[0]) {
					advance(e, st, e.op("len", types.Typ[types.Int], s.args[1]))
				}
			default:
				for _, a := range s.args {
					if own(e, a) && s.method() != "Size" {
						st.flags["advanced"] = "?"
					}
				}
			}
		}
		h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
			if e.nilness(st, vals[1]) == 1 {
				return
			}
			c.count("seeks judged", 1)
			want := e.lin(st, off)
			switch whence {
			case 1:
				want = want.add(lin{t: map[AV]int64{count(e): 1}}, 1)
			case 2:
				want = want.add(lin{t: map[AV]int64{size(e): 1}}, 1)
			}
			pos := fmt.Sprintf("%s: %s from origin %d", p.ipos(in), name, whence)
			step := want.add(lin{t: map[AV]int64{count(e): 1}}, -1)
			a := st.flags["advanced"]
			if a == "?" {
				c.sample("%s advances in an unrecognised way", pos)
				return
			}
			if !e.lin(st, vals[0]).add(want, -1).zero() && !q.zeroDiff(e, st, e.lin(st, vals[0]).add(want, -1)) {
				c.bad("result:"+name, "%s reports a position other than the requested one; path: %s", pos, st.path())
			}
			got := lin{t: map[AV]int64{}}
			if a != "" {
				got = adv[a]
			}
			if d := got.add(step, -1); !d.zero() && !q.zeroDiff(e, st, d) {
				c.bad("advance:"+name, "%s succeeds without advancing the stream by exactly the distance to the requested position; path: %s", pos, st.path())
				return
			}
			if st.flags["negative"] != "" {
				c.bad("backwards:"+name, "%s succeeds for a position before the current one; path: %s", pos, st.path())
			}
		}
		e := newEngine(p, h)
		w := whence
		e.Run(fn, func(e *Engine, ctx *Ctx, st *State) {
			recv, off = e.param(ctx, 0), e.param(ctx, 1)
			if sizeF >= 0 {
				st.mem[e.field(recv, sizeF, n)] = size(e)
			}
			st.ceq[e.param(ctx, 2)] = e.konst(ssa.NewConst(constInt64(w), types.Typ[types.Int]))
		})
	}
}

// c15counter: every byte read through the stream passes its position counter.
func c15counter(c *Check, p *Prog, n *types.Named, what string, match func(types.Type) bool) {
	s := structOf(n)
	emb := -1
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() && hasMethod(s.Field(i).Type(), "Read", 1, 2) {
			emb = i
		}
	}
	if emb < 0 {
		return
	}
	for _, fn := range p.funcs {
		if fn.Blocks == nil || fn.Parent() != nil || fn.Signature.Recv() != nil || fn.Signature.Results().Len() == 0 || !types.Identical(derefT(fn.Signature.Results().At(0).Type()), n) {
			continue
		}
		made := map[AV][]AV{}
		h := Hooks{}
		h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool { return s.fn.Pkg == fn.Pkg }
		h.Call = func(e *Engine, st *State, s *Site) (AV, bool) {
			for _, a := range s.args {
				if m := e.n(a); m.k == kOp && m.tag == "slice" {
					made[a] = e.elems(st, a)
				}
			}
			return 0, false
		}
		h.After = func(e *Engine, st *State, s *Site, res AV) { made[res] = append([]AV{}, s.args...) }
		h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
			if e.nilness(st, vals[0]) == -1 {
				return
			}
			v := stripTA(e, vals[0])
			r, ok := st.mem[e.field(v, emb, n)]
			if !ok {
				return
			}
			c.count(what+" judged", 1)
			seen := map[AV]bool{}
			var walk func(a AV)
			walk = func(a AV) {
				a = stripTA(e, a)
				if seen[a] {
					return
				}
				seen[a] = true
				for _, x := range made[a] {
					walk(x)
				}
			}
			walk(r)
			for i := 0; i < s.NumFields(); i++ {
				t := s.Field(i).Type()
				if i == emb || !match(t) {
					continue
				}
				if w, ok := st.mem[e.field(v, i, n)]; !ok || !seen[stripTA(e, w)] {
					c.bad("counter:"+p.fname(fn), "%s: the "+what+" %s of %s does not see the bytes read; path: %s", p.ipos(in), fieldName(n, i), n.Obj().Name(), st.path())
				}
			}
		}
		e := newEngine(p, h)
		e.Run(fn, nil)
	}
}

// c15pools: the elements of a list of pools are distinct: each is made in the
// iteration that stores it.
func c15pools(c *Check, p *Prog) {
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var val ssa.Value
				switch x := in.(type) {
				case *ssa.Store:
					ia, ok := x.Addr.(*ssa.IndexAddr)
					if !ok || !hasMethod(derefT(ia.Type()), "Get", 1, 2) || !hasMethod(derefT(ia.Type()), "Put", 2, 2) {
						continue
					}
					val = x.Val
				default:
					continue
				}
				c.count("pool elements set", 1)
				src := val
				for {
					if ex, ok := src.(*ssa.Extract); ok {
						src = ex.Tuple
						continue
					}
					if mi, ok := src.(*ssa.MakeInterface); ok {
						src = mi.X
						continue
					}
					break
				}
				if ld, ok := src.(*ssa.UnOp); ok {
					if _, ok := ld.X.(*ssa.IndexAddr); ok {
						c.bad("pools:"+p.fname(fn), "%s: a group is given the pool of another group", p.ipos(in))
						continue
					}
				}
				di, ok := src.(ssa.Instruction)
				if !ok {
					c.bad("pools:"+p.fname(fn), "%s: a list of pools is filled with a pool made elsewhere, so groups share it", p.ipos(in))
					continue
				}
				for _, h := range fn.Blocks {
					body := naturalLoop(h)
					if body != nil && body[b] && !body[di.Block()] {
						c.bad("pools:"+p.fname(fn), "%s: the same pool is stored for several groups", p.ipos(in))
						break
					}
				}
			}
		}
	}
}

// returnedField: the field a getter returns, or -1.
func returnedField(p *Prog, n *types.Named, m string) int {
	fn := p.method(n, m)
	if fn == nil || len(fn.Blocks) != 1 {
		return -1
	}
	r, ok := fn.Blocks[0].Instrs[len(fn.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(r.Results) != 1 {
		return -1
	}
	ld, ok := r.Results[0].(*ssa.UnOp)
	if !ok {
		return -1
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok || fa.X != ssa.Value(fn.Params[0]) {
		return -1
	}
	return fa.Field
}
