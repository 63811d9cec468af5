package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// c23packs: where the packed streams of a group begin, and which they are.
func c23packs(c *Check) {
	p := c.P
	loads := func(fn *ssa.Function) bool { return mentionsField(fn, "packInfo.size") }
	base := map[*ssa.Function]bool{}
	var use []*ssa.Function
	for _, fn := range p.funcs {
		if fn.Blocks == nil || fn.Parent() != nil || !loads(fn) {
			continue
		}
		r := fn.Signature.Results()
		if r.Len() == 1 && isInt64T(r.At(0).Type()) && fn.Signature.Params().Len() == 1 && isIntT(fn.Signature.Params().At(0).Type()) && mentionsField(fn, "packInfo.position") {
			base[fn] = true
			c23begin(c, fn)
		} else if anyInstr(fn, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && staticName(ci.Common()) == "io.NewSectionReader"
		}) {
			use = append(use, fn)
		}
	}
	if len(use) > 0 {
		for _, f := range []string{"packInfo.position"} {
			read := false
			for _, fn := range p.funcs {
				read = read || anyInstr(fn, func(in ssa.Instruction) bool {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok || trackedField(fa.X.Type(), fa.Field) != f {
						return false
					}
					for _, u := range *fa.Referrers() {
						if s, isStore := u.(*ssa.Store); !isStore || s.Addr != ssa.Value(fa) {
							return true
						}
					}
					return false
				})
			}
			if !read {
				c.bad("position", "the inputs of the decoders do not begin at the recorded position: %s is never used", f)
			}
		}
	}
	for _, fn := range use {
		c23inputs(c, fn, base)
	}
}

func isInt64T(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int64
}

func intParam(e *Engine, ctx *Ctx) AV {
	for i, x := range ctx.fn.Params {
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
			return e.param(ctx, i)
		}
	}
	return 0
}

func sumOf(e *Engine) func(sumEdge) lin {
	return func(ed sumEdge) lin {
		l := lin{}
		for _, v := range ed.sum {
			l = l.add(e.lin(nil, v), 1)
		}
		return l
	}
}

func c23begin(c *Check, fn *ssa.Function) {
	p := c.P
	name := p.fname(fn)
	r := newSum(c)
	r.loadk = "packInfo.size"
	h := r.hooks()
	type exit struct {
		pos, hd, path string
		val           AV
		since         lin
		cmps          map[AV]bool
		late          map[AV]bool // decided after the iteration
	}
	var exits []exit
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		x := exit{pos: p.ipos(in), hd: st.flags["hd"], val: vals[0], cmps: map[AV]bool{}, late: map[AV]bool{}, path: st.path()}
		for a, m := range st.marks {
			switch {
			case strings.HasPrefix(m, "cmp:"):
				x.cmps[a] = m == "cmp:true"
			case m == "late":
				x.late[e.n(a).args[0]] = true
			case m == "ev", m == "last":
				x.since = x.since.add(e.lin(nil, a), 1)
			}
		}
		exits = append(exits, x)
	}
	e := newEngine(p, h)
	e.keyBools = true
	r.e = e
	var par AV
	e.Run(fn, func(e *Engine, ctx *Ctx, st *State) { par = intParam(e, ctx) })
	if len(r.evs) == 0 || par == 0 {
		c.sample("%s: how the sizes of the packed streams are added up is not understood", name)
		return
	}
	c.count("packed sizes judged", len(r.evs))
	r.slots(name, "pack")
	for _, x := range exits {
		// position + what was added up
		v := e.lin(nil, x.val)
		var at AV
		for a := range v.t {
			if r.elem[a].key == ".packInfo.position" {
				at = a
			}
		}
		pot := v.add(x.since, -1)
		start := lin{}
		if at != 0 {
			pot = pot.sub1(at)
		} else if p0, ok := r.deepEntry(pot, 0); ok {
			for a, k := range p0.t {
				if r.elem[a].key == ".packInfo.position" && k == 1 && len(p0.t) == 1 && p0.c == 0 {
					start = p0
				}
			}
		}
		one := len(pot.t) == 1
		for a := range pot.t {
			if _, isPhi := r.inits[a]; !isPhi {
				one = false
			}
		}
		if !one || at == 0 && start.zero() {
			if at == 0 && one {
				c.bad("begin:"+name, "%s: the position of the packed streams is not added (path: %s)", x.pos, x.path)
			} else {
				c.sample("%s: result %s not understood", x.pos, e.str(x.val))
			}
			continue
		}
		c.count("group positions judged", 1)
		r.ghost("sum:"+name, "the running position", map[string]lin{"": start, x.hd: pot}, sumOf(e))
		// the groups before the one asked for
		for a, t := range x.cmps {
			b, ok := less(e, a, !t)
			if !ok || b.t[par] != 1 || len(b.t) != 2 {
				continue
			}
			w, ok := r.entry(b.sub1(par))
			if x.late[a] {
				w.c++
			}
			if ok && len(w.t) == 0 && w.c != 0 {
				c.bad("groups:"+name, "%s: %d groups fewer or more than there are before it are skipped (path: %s)", x.pos, w.c, x.path)
			}
		}
	}
	// each of them with all its packed streams
	outer := map[string]bool{}
	for _, ed := range r.edges {
		if ed.inside != "" {
			outer[ed.inside] = true
		}
	}
	for _, ed := range r.edges {
		if !ed.back || !outer[ed.to] || ed.from == ed.to {
			continue
		}
		for a, t := range ed.cmps {
			b, ok := less(e, a, !t)
			if !ok {
				continue
			}
			for s, k := range b.t {
				el := ed.rel[s]
				if el.key != ".folder.packedStreams" || k != 1 {
					continue
				}
				w, ok := r.entry(b.sub1(s))
				steps := true
				for _, y := range r.edges {
					if y.back && y.to == ed.from {
						if ch := r.change(b, y); len(ch.t) != 0 || ch.c != -1 {
							steps = false
						}
					}
				}
				if ed.late[a] {
					w.c++
				}
				if ok && steps && len(w.t) == 0 && w.c != 0 {
					c.bad("streams:"+name, "%s: %d packed streams more or fewer than the group has are skipped (path: %s)", ed.pos, w.c, ed.path)
				}
				r.nth(name, ed.pos, ed.rel[el.idx], ed.path)
			}
		}
	}
}

// nth: a group used in a loop over the groups is that of the iteration.
func (r *sumRun) nth(name, pos string, g elemOf, path string) {
	if g.key != "unpackInfo.folder" {
		r.c.sample("%s: group not understood", pos)
		return
	}
	k, why := r.counts(g.idx)
	if k < 0 {
		r.c.bad("nth:"+name, "%s: the number of the group %s (path: %s)", pos, why, path)
		return
	}
	l := r.e.lin(nil, g.idx)
	fixed := true
	for a := range l.t {
		if _, ok := r.e.n(a).v.(*ssa.Parameter); !ok {
			fixed = false
		}
	}
	if fixed {
		r.c.bad("nth:"+name, "%s: the same group %s is used for every one (path: %s)", pos, r.e.str(g.idx), path)
	}
}

// deepEntry: the value before any of the nested or preceding loops.
func (r *sumRun) deepEntry(l lin, d int) (lin, bool) {
	o, ok := r.entry(l)
	if !ok || d > 4 {
		return o, false
	}
	for a := range o.t {
		if _, isPhi := r.inits[a]; isPhi {
			return r.deepEntry(o, d+1)
		}
	}
	return o, true
}

func c23inputs(c *Check, fn *ssa.Function, base map[*ssa.Function]bool) {
	p := c.P
	name := p.fname(fn)
	r := newSum(c)
	r.loadk = "packInfo.size"
	r.stop = func(g *ssa.Function) bool { return base[g] }
	h := r.hooks()
	type use struct {
		pos, hd, path string
		off, n        AV
		since         lin
		rel           map[AV]elemOf
		none          bool // there is no group before it
	}
	var uses []use
	begin := map[AV]bool{}
	after := h.After
	var par AV
	h.After = func(e *Engine, st *State, s *Site, res AV) {
		after(e, st, s, res)
		if s.fn != nil && base[s.fn] && res != 0 {
			begin[res] = true
			st.marks[e.op("rel:begin", types.Typ[types.Int], res, s.args[len(s.args)-1])] = "rel"
		}
		if s.name == "io.NewSectionReader" {
			u := use{pos: s.pos(e), hd: st.flags["hd"], path: st.path(), off: s.args[1], n: s.args[2], rel: rels(e, st)}
			for a, m := range st.marks {
				if m == "ev" || m == "last" {
					u.since = u.since.add(e.lin(nil, a), 1)
				}
				if d, ok := less(e, a, m == "cmp:true"); ok && strings.HasPrefix(m, "cmp:") && len(d.t) == 1 && d.t[par] == -1 && d.c <= 1 {
					u.none = true
				}
			}
			uses = append(uses, u)
		}
	}
	// nothing of interest happens once the inputs can no longer be reached
	live := map[*ssa.BasicBlock]bool{}
	for w := packBlocks(fn, base); len(w) > 0; {
		b := w[0]
		w = w[1:]
		if !live[b] {
			live[b] = true
			w = append(w, b.Preds...)
		}
	}
	instr := h.Instr
	h.Instr = func(e *Engine, st *State, ctx *Ctx, in ssa.Instruction) {
		instr(e, st, ctx, in)
		if ctx.fn == fn && ctx.parent == nil && in.Block() != nil && !live[in.Block()] {
			st.dead = true
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			u, ok := ia.X.(*ssa.UnOp)
			if !ok {
				continue
			}
			fa, ok := u.X.(*ssa.FieldAddr)
			if !ok || trackedField(fa.X.Type(), fa.Field) != "unpackInfo.digest" {
				continue
			}
			c.count("group checksums judged", 1)
			if _, isC := ia.Index.(*ssa.Const); isC {
				c.bad("digest:"+name, "%s: the checksum is always that of group %s", p.ipos(in), ia.Index.Name())
			}
		}
	}
	e := newEngine(p, h)
	e.K = 6
	r.e = e
	e.Run(fn, func(e *Engine, ctx *Ctx, st *State) { par = intParam(e, ctx) })
	for _, u := range uses {
		c.count("inputs judged", 1)
		n := e.lin(nil, u.n)
		var sz AV
		for a, k := range n.t {
			if u.rel[a].key == "packInfo.size" && k == 1 {
				sz = a
			}
		}
		if sz == 0 || len(n.t) != 1 || n.c != 0 {
			if sz != 0 {
				c.bad("length:"+name, "%s: the length of an input is %s (path: %s)", u.pos, e.str(u.n), u.path)
			} else {
				c.sample("%s: length %s not understood", u.pos, e.str(u.n))
			}
			continue
		}
		// where it begins: the begin of the group plus the inputs before
		off := e.lin(nil, u.off)
		var b AV
		for a := range off.t {
			if begin[a] {
				b = a
			}
		}
		pot, start := lin{}, lin{}
		pot = off.add(u.since, -1).add(e.lin(nil, sz), 1) // its own size comes after it
		if b != 0 {
			pot = pot.sub1(b)
		} else if e0, ok := r.deepEntry(pot, 0); ok {
			for a, k := range e0.t {
				if begin[a] && k == 1 && len(e0.t) == 1 && e0.c == 0 {
					b, start = a, e0
				}
			}
		}
		one := len(pot.t) == 1
		for a := range pot.t {
			if _, isPhi := r.inits[a]; !isPhi {
				one = false
			}
		}
		switch {
		case b == 0:
			c.sample("%s: offset %s not understood", u.pos, e.str(u.off))
		case !one:
			if len(pot.t) == 0 || r.known(pot) {
				c.bad("offset:"+name, "%s: an input begins at %s (path: %s)", u.pos, e.str(u.off), u.path)
			} else {
				c.sample("%s: offset %s not understood", u.pos, e.str(u.off))
			}
		default:
			r.ghost("offset:"+name, "where the next input begins", map[string]lin{"": start, u.hd: pot}, sumOf(e))
		}
		if b != 0 && par != 0 {
			if g := u.rel[b]; g.key == "begin" {
				if l := e.lin(nil, g.idx); !l.sub1(par).zero() {
					known := true
					for a := range l.t {
						m := e.n(a)
						if m.k == kOp && m.tag == "len" {
							continue
						}
						known = known && r.known(lin{t: map[AV]int64{a: 1}})
					}
					if known {
						c.bad("begin:"+name, "%s: the inputs are those of group %s (path: %s)", u.pos, e.str(g.idx), u.path)
					}
				}
			}
		}
		// which it is: those of the earlier groups come first
		idx := e.lin(nil, u.rel[sz].idx)
		for _, ed := range r.edges {
			if !ed.back || ed.to != u.hd {
				continue
			}
			if ch := r.change(idx, ed); len(ch.t) == 0 && ch.c != 1 && len(idx.t) > 0 && ed.n > 0 {
				c.bad("which:"+name, "%s: the next input is the one %d after (path: %s)", ed.pos, ch.c, ed.path)
			}
		}
		i0, ok := r.entryOf(idx, u.hd)
		if !ok {
			c.sample("%s: index %s not understood", u.pos, e.str(u.rel[sz].idx))
			continue
		}
		if !has2(r, idx, u.hd) {
			if r.known(idx) {
				c.bad("which:"+name, "%s: every input is the one at %s (path: %s)", u.pos, r.str(idx), u.path)
			} else {
				c.sample("%s: index %s not understood", u.pos, r.str(idx))
			}
			continue
		}
		// passing over a group adds its packed streams
		passed := func(pos, path string, ch lin, rel map[AV]elemOf) {
			var s AV
			for a, k := range ch.t {
				m := e.n(a)
				if k == 1 && len(ch.t) == 1 && ch.c == 0 {
					if m.k == kOp && m.tag == "len" && rel[m.args[0]].key == ".folder.packed" {
						s = m.args[0]
					}
					if rel[a].key == ".folder.packedStreams" {
						s = a
					}
				}
			}
			if s != 0 {
				c.count("groups passed over", 1)
				r.nth(name, pos, rel[rel[s].idx], path)
				return
			}
			known := true
			for a := range ch.t {
				m := e.n(a)
				if m.k == kOp && m.tag == "len" && r.org[m.args[0]] != "" {
					continue
				}
				known = known && r.known(lin{t: map[AV]int64{a: 1}})
			}
			if known {
				c.bad("which:"+name, "%s: passing over a group adds %s, not the number of its packed streams (path: %s)", pos, r.str(ch), path)
			} else {
				c.sample("%s: inputs before the group not understood: %s", pos, r.str(ch))
			}
		}
		var B AV
		for a, k := range i0.t {
			if _, isPhi := r.inits[a]; isPhi && k == 1 {
				B = a
			}
		}
		if B == 0 {
			one := len(i0.t) == 1
			for a := range i0.t {
				m := e.n(a)
				one = one && (u.rel[a].key == ".folder.packedStreams" || m.k == kOp && m.tag == "len" && u.rel[m.args[0]].key == ".folder.packed")
			}
			switch {
			case i0.zero() && u.none:
			case one:
				c.bad("which:"+name, "%s: the inputs begin after those of one earlier group, not of all (path: %s)", u.pos, u.path)
			case r.known(i0):
				c.bad("which:"+name, "%s: the first input is the one at %s (path: %s)", u.pos, r.str(i0), u.path)
			default:
				c.sample("%s: index %s not understood", u.pos, r.str(i0))
			}
			continue
		}
		if d := i0.sub1(B); !d.zero() {
			passed(u.pos, u.path, d, u.rel)
		}
		if l, ok := r.init(B); ok && len(l.t) == 0 && l.c != 0 {
			c.bad("which:"+name, "%s: the first input of the first group is the one at %d (path: %s)", u.pos, l.c, u.path)
		}
		for _, ed := range r.edges {
			if v, is := ed.vals[B]; is && ed.back {
				passed(ed.pos, ed.path, e.lin(nil, v).sub1(B), ed.rel)
			}
		}
	}
}

// entryOf: the value before the loop with this header.
func (r *sumRun) entryOf(l lin, hdr string) (lin, bool) {
	o := lin{c: l.c, t: map[AV]int64{}}
	for a, k := range l.t {
		if has2(r, lin{t: map[AV]int64{a: 1}}, hdr) {
			i, ok := r.init(a)
			if !ok {
				return o, false
			}
			o = o.add(i, k)
		} else {
			o = o.add(lin{t: map[AV]int64{a: 1}}, k)
		}
	}
	return o, true
}

// packBlocks: the blocks that deal with the packed streams.
func packBlocks(fn *ssa.Function, base map[*ssa.Function]bool) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			hit := false
			switch x := in.(type) {
			case *ssa.FieldAddr:
				hit = trackedField(x.X.Type(), x.Field) == "packInfo.size"
			case ssa.CallInstruction:
				g := x.Common().StaticCallee()
				hit = staticName(x.Common()) == "io.NewSectionReader" || g != nil && (base[g] || g.Blocks != nil && mentionsField(g, "packInfo.size"))
			}
			if hit {
				out = append(out, b)
				break
			}
		}
	}
	return out
}

// has2: a loop variable of the loop is part of the term.
func has2(r *sumRun, l lin, hdr string) bool {
	for _, ed := range r.edges {
		if ed.to == hdr && has(ed.vals, l) {
			return true
		}
	}
	return false
}
