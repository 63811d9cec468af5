package main

// C23: members with data consume substreams one to one in archive order, and a
// member's group, size, checksum and offset describe the same data.
//
// Loops are decided by induction: what is recorded on the edges into a loop
// header (the value every loop variable takes, in terms of its value in this
// iteration) and what happened in the iteration.

import (
	"go/token"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C23"] = c23 }

func c23(c *Check) {
	p := c.P
	c.rule("the index of the substream of a member starts at zero and advances by one exactly for the members that looked one up")
	c.rule("a substream is looked up for a member that is not an empty stream, and for every one of them")
	c.rule("what is looked up is stored in the member it was looked up for")
	c.rule("the offset of a member is that of the previous one plus its size in the same group, and zero in a new group; members without data change neither")
	c.rule("the lookup finds the group k with sum(streams[0..k-1]) <= file < sum(streams[0..k]), and takes sizes and checksums at the position of the file, or of the group for a group of one file")
	c.rule("sizes of substreams are stored contiguously, one per substream, the last of a group being what remains of the group")
	c.rule("the packed streams of a group begin after all packed streams of the earlier groups")
	look := map[*ssa.Function]bool{}
	for _, fn := range p.funcs {
		if isStreamLookup(fn) {
			look[fn] = true
			c23lookup(c, fn)
		}
	}
	loops := c23loops(p, look)
	for _, fn := range loops {
		c23members(c, fn, look, loops)
	}
	c.count("lookups", len(look))
	c23sizes(c)
	c23packs(c)
	c.assume("loop variables kept in memory cells other than the function's own are not followed")
}

// isStreamLookup: (int) -> (group, size, checksum, error).
func isStreamLookup(fn *ssa.Function) bool {
	if fn.Blocks == nil || fn.Parent() != nil {
		return false
	}
	r := fn.Signature.Results()
	if r.Len() != 4 || fn.Signature.Params().Len() != 1 || !isErrorType(r.At(3).Type()) {
		return false
	}
	is := func(t types.Type, k types.BasicKind) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == k
	}
	return isIntT(fn.Signature.Params().At(0).Type()) && is(r.At(0).Type(), types.Int) && is(r.At(1).Type(), types.Uint64) && is(r.At(2).Type(), types.Uint32)
}

// c23loops: the functions holding the loop around the calls of the lookups.
func c23loops(p *Prog, look map[*ssa.Function]bool) []*ssa.Function {
	loopOf := func(in ssa.Instruction) bool {
		b := in.Block()
		for _, h := range b.Parent().Blocks {
			for _, q := range h.Preds {
				if h.Dominates(q) && h.Dominates(b) && cycles(b, q, h) {
					return true
				}
			}
		}
		return false
	}
	out, seen := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	var up func(fn *ssa.Function, d int)
	up = func(fn *ssa.Function, d int) {
		if seen[fn] || d > 4 {
			return
		}
		seen[fn] = true
		for _, cs := range p.cg().callers[fn] {
			if loopOf(cs.in) {
				g := cs.caller
				for g.Parent() != nil {
					g = g.Parent()
				}
				out[g] = true
			} else if !look[fn] || d == 0 {
				up(cs.caller, d+1)
			}
		}
	}
	for fn := range look {
		delete(seen, fn)
		up(fn, 0)
	}
	var l []*ssa.Function
	for fn := range out {
		l = append(l, fn)
	}
	sort.Slice(l, func(i, j int) bool { return p.fname(l[i]) < p.fname(l[j]) })
	return l
}

// cycles: from b to q without leaving through h.
func cycles(b, q, h *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	w := []*ssa.BasicBlock{b}
	for len(w) > 0 {
		x := w[len(w)-1]
		w = w[:len(w)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == q {
			return true
		}
		for _, s := range x.Succs {
			if s != h {
				w = append(w, s)
			}
		}
	}
	return false
}

// loopAround: the innermost loop around an instruction, looking outwards
// through the inlined calls.
func loopAround(ctx *Ctx, in ssa.Instruction) (*Ctx, *ssa.BasicBlock) {
	for ; ctx != nil; ctx = ctx.parent {
		b := in.Block()
		var best *ssa.BasicBlock
		for _, h := range b.Parent().Blocks {
			for _, q := range h.Preds {
				if h.Dominates(q) && h.Dominates(b) && cycles(b, q, h) && (best == nil || best.Dominates(h)) {
					best = h
				}
			}
		}
		if best != nil {
			return ctx, best
		}
		if ctx.call == nil {
			return nil, nil
		}
		in = ctx.call
	}
	return nil, nil
}

type c23iter struct {
	pos    string
	looked int
	idx    AV // index looked up
	tuple  AV
	off    AV // offset stored
	same   string
	prev   AV // what the group was compared with
	es, ef string
	elem   AV
	vals   map[AV]AV // loop variable -> next value
	path   string
}

// flagOf: the value of an emptiness flag of a member: the member and the flag.
func flagOf(e *Engine, a AV, loads map[AV]AV) (AV, string) {
	f := a
	if x, ok := loads[a]; ok {
		f = x
	} else if n := e.n(a); n.k == kOp && n.tag == "cell" {
		f = n.args[0]
	} else {
		return 0, ""
	}
	n := e.n(f)
	if n.k != kField {
		return 0, ""
	}
	k := fieldKeyOf(e, f)
	switch k {
	case "FileHeader.isEmptyStream":
		return n.args[0], "es"
	case "FileHeader.isEmptyFile":
		return n.args[0], "ef"
	}
	return 0, ""
}

func c23members(c *Check, fn *ssa.Function, look map[*ssa.Function]bool, loops []*ssa.Function) {
	p := c.P
	name := p.fname(fn)
	reach := map[*ssa.Function]bool{}
	for g := range look {
		reach[g] = true
	}
	for w := keys(reach); len(w) > 0; {
		g := w[0]
		w = w[1:]
		for _, cs := range p.cg().callers[g] {
			if !reach[cs.caller] && !slices.Contains(loops, cs.caller) {
				reach[cs.caller] = true
				w = append(w, cs.caller)
			}
		}
	}
	loads := map[AV]AV{}
	type loop struct {
		ctx *Ctx
		h   *ssa.BasicBlock
	}
	iters := map[loop][]c23iter{}
	inits := map[loop]map[AV][]AV{}
	lookLoop := map[loop]bool{}
	var cur loop // the loop of the lookups; known before it is run
	h := Hooks{}
	h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool {
		if look[s.fn] {
			return false
		}
		if reach[s.fn] || s.fn.Parent() != nil && s.fn.Parent() == ctx.fn {
			return true
		}
		r := s.fn.Signature.Results()
		if r.Len() == 1 && isBoolT(r.At(0).Type()) && s.fn.Signature.Recv() != nil {
			t := derefT(s.fn.Signature.Recv().Type())
			return isNamedT(t, "", "FileHeader") || strings.HasSuffix(types.TypeString(t, nil), ".FileHeader") || strings.HasSuffix(types.TypeString(t, nil), ".File")
		}
		return s.fn.Signature.Recv() != nil && mentionsField(s.fn, "FileHeader.isEmptyStream")
	}
	h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) {
		if e.n(addr).k == kField && isBoolT(in.Type()) && e.n(val).k == kSym {
			if strings.HasPrefix(fieldKeyOf(e, addr), "FileHeader.isEmpty") {
				loads[val] = addr
			}
		}
	}
	h.Assume = func(e *Engine, st *State, cond AV, truth bool) {
		if el, k := flagOf(e, cond, loads); k != "" {
			v := "f"
			if truth {
				v = "t"
			}
			if o := st.flags[k]; o != "" && o != v {
				return
			}
			st.flags[k] = v
			st.marks[el] = "elem"
			return
		}
		n := e.n(cond)
		if n.k == kOp && n.tag == "==" {
			for i := range 2 {
				x, y := n.args[i], n.args[1-i]
				m := e.n(x)
				if m.k != kOp || m.tag != "ext0" || st.marks[m.args[0]] != "looked" {
					continue
				}
				if ph, ok := e.n(y).v.(*ssa.Phi); ok && e.n(y).k == kSym && isIntT(ph.Type()) {
					st.flags["same"] = "f"
					if truth {
						st.flags["same"] = "t"
					}
					st.marks[y] = "prev"
				}
			}
		}
	}
	h.After = func(e *Engine, st *State, s *Site, res AV) {
		if s.fn == nil || !look[s.fn] || res == 0 {
			return
		}
		cx, hd := loopAround(s.ctx, s.instr)
		if hd == nil {
			return
		}
		lookLoop[loop{cx, hd}] = true
		st.flags["n"] += "1"
		st.marks[s.args[len(s.args)-1]] = "index"
		st.marks[res] = "looked"
		c.count("lookup calls judged", 1)
	}
	h.Store = func(e *Engine, st *State, ctx *Ctx, in *ssa.Store, addr, val AV) {
		n := e.n(addr)
		if n.k != kField {
			return
		}
		fa, ok := in.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		own := func() (AV, int) { // what of the lookup the value is
			m := e.n(val)
			if m.k == kOp && strings.HasPrefix(m.tag, "ext") && st.marks[m.args[0]] == "looked" {
				return m.args[0], int(m.tag[3] - '0')
			}
			return 0, -1
		}
		tn := types.TypeString(derefT(fa.X.Type()), func(*types.Package) string { return "" })
		fnm := fieldName(fa.X.Type(), fa.Field)
		switch {
		case tn == "FileHeader" && (fnm == "UncompressedSize" || fnm == "CRC32"):
			t, _ := own()
			if t == 0 {
				return
			}
			c.count("stores of looked up values judged", 1)
			el := AV(0)
			for a, m := range st.marks {
				if m == "elem" {
					el = a
				}
			}
			x, y := e.n(n.args[0]), e.n(el)
			if el == 0 || n.args[0] == el || x.k != kIndex || y.k != kIndex {
				return
			}
			if d := e.lin(nil, x.args[1]).add(e.lin(nil, y.args[1]), -1); !d.zero() {
				c.bad("other:"+name+":"+fnm, "%s: stored in %s, but looked up for %s", p.ipos(in), e.str(n.args[0]), e.str(el))
			}
		case tn == "FileHeader" && fnm == "Stream" || tn == "File" && isIntT(fieldT(fa)) && bits(fieldT(fa).Underlying().(*types.Basic)) == 64 && fieldT(fa).Underlying().(*types.Basic).Kind() == types.Int:
			if st.flags["n"] == "" {
				return
			}
			_, k := own()
			c.count("stores of looked up values judged", 1)
			if k == 0 {
				return
			}
			if m := e.n(val); m.k == kSym {
				if _, ok := m.v.(*ssa.Phi); ok {
					c.bad("group:"+name+":"+fnm, "%s: the group of the member is set to %s, which is not what was looked up", p.ipos(in), e.str(val))
				}
			}
		case tn == "File" && isIntT(fieldT(fa)) && fieldT(fa).Underlying().(*types.Basic).Kind() == types.Int64:
			if st.flags["n"] == "" && !e.isConst(val) {
				st.flags["offempty"] = "1"
			}
			if st.flags["off"] != "" {
				st.flags["off"] = "2"
			} else {
				st.flags["off"] = "1"
			}
			st.marks[e.op("offset", types.Typ[types.Int64], val)] = "off"
		}
	}
	h.Head = func(e *Engine, st *State, ctx *Ctx, from, to *ssa.BasicBlock, phis []*ssa.Phi, vals []AV) {
		l := loop{ctx, to}
		if cur.h != nil && cur != l {
			return
		}
		if cur.h == nil {
			st.flags, st.marks = map[string]string{}, map[AV]string{}
			return
		}
		if !to.Dominates(from) {
			m := inits[l]
			if m == nil {
				m = map[AV][]AV{}
				inits[l] = m
			}
			for i, ph := range phis {
				a := e.sym(ctx, ph, "")
				m[a] = append(m[a], vals[i])
			}
			st.flags, st.marks = map[string]string{}, map[AV]string{}
			return
		}
		it := c23iter{pos: p.ipos(from.Instrs[len(from.Instrs)-1]), looked: len(st.flags["n"]), es: st.flags["es"], ef: st.flags["ef"], same: st.flags["same"], vals: map[AV]AV{}, path: st.path()}
		for a, m := range st.marks {
			switch m {
			case "index":
				it.idx = a
			case "looked":
				it.tuple = a
			case "prev":
				it.prev = a
			case "elem":
				it.elem = a
			case "off":
				if st.flags["off"] == "1" {
					it.off = e.n(a).args[0]
				}
			}
		}
		for i, ph := range phis {
			it.vals[e.sym(ctx, ph, "")] = vals[i]
		}
		iters[l] = append(iters[l], it)
		st.flags, st.marks = map[string]string{}, map[AV]string{}
	}
	var eng *Engine
	run := func() *Engine {
		e := newEngine(p, h)
		e.K = 6
		e.Run(fn, nil)
		return e
	}
	eng = run()
	var ls []loop
	for l := range lookLoop {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if ls[i].ctx.id != ls[j].ctx.id {
			return ls[i].ctx.id < ls[j].ctx.id
		}
		return ls[i].h.Index < ls[j].h.Index
	})
	for k := range ls {
		// a second run in which iterations are those of this loop
		want := ls[k]
		id, hb := want.ctx.id, want.h
		iters, inits = map[loop][]c23iter{}, map[loop]map[AV][]AV{}
		hh := h.Head
		h2 := h
		h2.Head = func(e *Engine, st *State, ctx *Ctx, from, to *ssa.BasicBlock, phis []*ssa.Phi, vals []AV) {
			if ctx.id == id && to == hb {
				cur = loop{ctx, to}
				want = cur
				hh(e, st, ctx, from, to, phis, vals)
			}
		}
		e := newEngine(p, h2)
		e.K = 6
		e.Run(fn, nil)
		eng = e
		cur = loop{}
		c23judge(c, eng, name, iters[want], inits[want], nestedHeader(hb))
	}
}

func nestedHeader(h *ssa.BasicBlock) bool {
	for _, o := range h.Parent().Blocks {
		if o == h {
			continue
		}
		for _, q := range o.Preds {
			if o.Dominates(q) && o.Dominates(h) && cycles(h, q, o) {
				return true
			}
		}
	}
	return false
}

func mentionsField(fn *ssa.Function, key string) bool {
	return anyInstr(fn, func(in ssa.Instruction) bool {
		fa, ok := in.(*ssa.FieldAddr)
		return ok && trackedField(fa.X.Type(), fa.Field) == key
	})
}

func fieldT(fa *ssa.FieldAddr) types.Type { return derefT(fa.Type()) }

// fieldKeyOf names the field an address term refers to.
func fieldKeyOf(e *Engine, f AV) string {
	n := e.n(f)
	i := 0
	for _, r := range n.tag {
		if r < '0' || r > '9' {
			return ""
		}
		i = i*10 + int(r-'0')
	}
	t := n.typ
	if t == nil {
		return ""
	}
	s := structOf(derefT(t))
	if s == nil || i >= s.NumFields() {
		return ""
	}
	return trackedField(t, i)
}

// phiOf: a term that is a loop variable plus a constant.
func phiOf(e *Engine, vals map[AV]AV, l lin) (AV, bool) {
	if len(l.t) != 1 {
		return 0, false
	}
	for a, k := range l.t {
		if k == 1 {
			if _, ok := vals[a]; ok {
				return a, true
			}
		}
	}
	return 0, false
}

func c23judge(c *Check, e *Engine, name string, its []c23iter, init map[AV][]AV, nested bool) {
	if len(its) == 0 {
		c.sample("%s: loop over the members not followed", name)
		return
	}
	// which loop variables count substreams, keep the group and the offset
	var idx, prev, off AV
	ci := lin{}
	for _, it := range its {
		if it.idx != 0 && idx == 0 {
			l := e.lin(nil, it.idx)
			if a, ok := phiOf(e, it.vals, l); ok {
				idx, ci = a, lin{c: l.c}
			}
		}
		if it.prev != 0 {
			if _, ok := it.vals[it.prev]; ok {
				prev = it.prev
			}
		}
		if it.off != 0 && off == 0 {
			if a, ok := phiOf(e, it.vals, e.lin(nil, it.off)); ok {
				off = a
			}
		}
	}
	if off == 0 {
		for _, it := range its {
			if it.off == 0 {
				continue
			}
			for a := range e.lin(nil, it.off).t {
				if _, ok := it.vals[a]; !ok || off != 0 {
					continue
				}
				if size, ok := memberSize(e, e.lin(nil, it.off).sub1(a)); ok && size {
					c.bad("after:"+name, "%s: the offset of a member, %s, already includes its size (path: %s)", it.pos, e.str(it.off), it.path)
					off = a
				}
			}
		}
	}
	if idx == 0 {
		c.sample("%s: the index of the substreams is not a loop variable", name)
		return
	}
	for _, v := range init[idx] {
		if l := e.lin(nil, v); len(l.t) == 0 && l.c+ci.c != 0 && !nested {
			c.bad("first:"+name, "%s: the first substream looked up is number %d", name, l.c+ci.c)
		}
	}
	unknown := false
	for _, it := range its {
		c.count("iterations judged", 1)
		if it.looked > 1 {
			c.sample("%s: several lookups in one iteration", it.pos)
			continue
		}
		l := e.lin(nil, it.vals[idx]).add(lin{t: map[AV]int64{idx: 1}}, -1)
		switch {
		case len(l.t) != 0:
			c.sample("%s: next index %s not understood", it.pos, e.str(it.vals[idx]))
		case l.c != int64(it.looked):
			c.bad("step:"+name, "%s: the index of the substreams advances by %d although the member looked up %d (path: %s)", it.pos, l.c, it.looked, it.path)
		}
		if it.looked == 1 {
			if il := e.lin(nil, it.idx).add(lin{t: map[AV]int64{idx: 1}}, -1); len(il.t) == 0 && il.c != ci.c {
				c.bad("index:"+name, "%s: the index looked up is %s", it.pos, e.str(it.idx))
			} else if _, ok := phiOf(e, it.vals, e.lin(nil, it.idx)); ok && len(il.t) != 0 {
				c.bad("index:"+name, "%s: the index looked up is %s", it.pos, e.str(it.idx))
			}
		}
		switch {
		case it.looked == 1 && it.es == "t":
			c.bad("consumes:"+name, "%s: a substream is looked up for a member without data (path: %s)", it.pos, it.path)
		case it.looked == 1 && it.es == "" && it.ef != "":
			c.bad("consumes:"+name, "%s: a substream is looked up for a member that may be an empty stream (path: %s)", it.pos, it.path)
		case it.looked == 0 && it.es == "f" && it.ef != "t":
			c.bad("skips:"+name, "%s: a member with data looks up no substream (path: %s)", it.pos, it.path)
		case it.elem == 0 && !unknown:
			unknown = true
			c.sample("%s: why a member looks up a substream or not is not understood (path: %s)", it.pos, it.path)
		case it.looked == 0 && it.es == "" && it.ef == "f":
			c.bad("skips:"+name, "%s: a member that may have data looks up no substream (path: %s)", it.pos, it.path)
		}
		c23offset(c, e, name, it, prev, off, nested)
	}
	if off != 0 && !nested {
		for _, v := range init[off] {
			if l := e.lin(nil, v); len(l.t) == 0 && l.c != 0 {
				c.bad("offset0:"+name, "%s: the first member is at offset %d", name, l.c)
			}
		}
	}
}

func c23offset(c *Check, e *Engine, name string, it c23iter, prev, off AV, nested bool) {
	if off == 0 {
		return
	}
	nextOff := it.vals[off]
	if it.looked == 0 {
		if l := e.lin(nil, nextOff).add(lin{t: map[AV]int64{off: 1}}, -1); !l.zero() {
			if len(l.t) == 0 || e.isConst(nextOff) {
				c.bad("emptyoff:"+name, "%s: a member without data changes the running offset to %s (path: %s)", it.pos, e.str(nextOff), it.path)
			} else if _, ok := memberSize(e, l); ok {
				c.bad("emptyoff:"+name, "%s: a member without data changes the running offset to %s (path: %s)", it.pos, e.str(nextOff), it.path)
			}
		}
		if prev != 0 && it.vals[prev] != prev {
			c.bad("emptygroup:"+name, "%s: a member without data changes the group the next member is compared with to %s (path: %s)", it.pos, e.str(it.vals[prev]), it.path)
		}
		return
	}
	if it.off == 0 {
		c.sample("%s: offset of the member not found", it.pos)
		return
	}
	c.count("offsets judged", 1)
	v := e.lin(nil, it.off)
	a, isPhi := phiOf(e, it.vals, v)
	switch it.same {
	case "t":
		if len(v.t) == 0 {
			c.bad("offset:"+name, "%s: the offset of a member of the same group is %d (path: %s)", it.pos, v.c, it.path)
			return
		}
		if !isPhi || a != off || v.c != 0 {
			c.sample("%s: offset %s not understood", it.pos, e.str(it.off))
			if isPhi && a == off {
				c.bad("offset:"+name, "%s: the offset of a member is %s (path: %s)", it.pos, e.str(it.off), it.path)
			}
			return
		}
	case "f":
		if len(v.t) != 0 && isPhi && a == off || len(v.t) == 0 && v.c != 0 {
			c.bad("reset:"+name, "%s: the offset of the first member of a group is %s (path: %s)", it.pos, e.str(it.off), it.path)
			return
		}
		if len(v.t) != 0 {
			c.sample("%s: offset %s not understood", it.pos, e.str(it.off))
			return
		}
	default:
		if isPhi && a == off && !nested {
			c.bad("reset:"+name, "%s: the offset never starts again for a new group (path: %s)", it.pos, it.path)
		}
		return
	}
	d := e.lin(nil, nextOff).add(v, -1)
	switch s, ok := memberSize(e, d); {
	case ok && s:
	case len(d.t) == 0, ok:
		c.bad("advance:"+name, "%s: the running offset becomes %s after a member at %s (path: %s)", it.pos, e.str(nextOff), e.str(it.off), it.path)
	default:
		c.sample("%s: next offset %s not understood", it.pos, e.str(nextOff))
	}
	if prev == 0 {
		return
	}
	n := it.vals[prev]
	if m := e.n(n); m.k == kOp && m.tag == "ext0" && m.args[0] == it.tuple {
		return
	}
	if n == prev && it.same == "t" {
		return
	}
	if d := e.lin(nil, n).sub1(prev); n == prev || e.isConst(n) || len(d.t) == 0 {
		c.bad("group:"+name, "%s: the next member is compared with group %s (path: %s)", it.pos, e.str(n), it.path)
		return
	}
	if _, ok := e.n(n).v.(*ssa.Phi); ok && e.n(n).k == kSym {
		c.bad("group:"+name, "%s: the next member is compared with group %s (path: %s)", it.pos, e.str(n), it.path)
		return
	}
	c.sample("%s: next group %s not understood", it.pos, e.str(n))
}

// memberSize: a difference that is one field of a member; whether it is the
// size.
func memberSize(e *Engine, d lin) (size, field bool) {
	if len(d.t) != 1 || d.c != 0 {
		return false, false
	}
	for a, k := range d.t {
		n := e.n(a)
		if n.k == kOp && n.tag == "ext1" && k == 1 {
			return true, true
		}
		var key string
		if n.k == kOp && n.tag == "cell" {
			key = fieldKeyOf(e, n.args[0])
		} else if u, ok := n.v.(*ssa.UnOp); ok && n.k == kSym && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				key = trackedField(fa.X.Type(), fa.Field)
			}
		}
		if strings.HasPrefix(key, "FileHeader.") {
			return key == "FileHeader.UncompressedSize" && k == 1, true
		}
		if key == "File.offset" {
			return false, false
		}
	}
	return false, false
}
