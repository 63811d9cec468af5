package main

// C14: a member never yields bytes beyond its recorded size or its neighbours'
// bytes. Three nested confinements are judged: each coder's output is cut off at
// its own recorded size, each packed input is a section of its own region inside
// the stream area, and a member handle counts what it delivers.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C14"] = c14 }

// isDecompressorSig: func([]byte, uint64, []io.ReadCloser) (io.ReadCloser, error)
func isDecompressorSig(sig *types.Signature) bool {
	return sig.Params().Len() == 3 && sig.Results().Len() == 2 && isRCList(sig.Params().At(2).Type()) && isRC(sig.Results().At(0).Type())
}

func isReaderAtT(t types.Type) bool { return t != nil && hasMethod(t, "ReadAt", 2, 2) }

func reaches(p *Prog, direct func(*ssa.Function) bool) func(*ssa.Function) bool {
	memo := map[*ssa.Function]bool{}
	var reach func(fn *ssa.Function) bool
	reach = func(fn *ssa.Function) bool {
		if v, ok := memo[fn]; ok {
			return v
		}
		memo[fn] = false
		r := direct(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && !r {
					if f := ci.Common().StaticCallee(); f != nil && p.inModule(f) && f.Blocks != nil && reach(f) {
						r = true
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			if reach(a) {
				r = true
			}
		}
		memo[fn] = r
		return r
	}
	return reach
}

func instantiates(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				c := ci.Common()
				if !c.IsInvoke() && c.StaticCallee() == nil && isDecompressorSig(c.Signature()) {
					if _, b := c.Value.(*ssa.Builtin); !b {
						return true
					}
				}
			}
		}
	}
	return false
}

// streamBuilders: the innermost functions that build a whole group's stream.
func streamBuilders(p *Prog) []*ssa.Function {
	reach := reaches(p, instantiates)
	var out []*ssa.Function
	for _, fn := range p.funcs {
		if fn.Parent() != nil || fn.Blocks == nil || !producesStream(fn) || !reach(fn) {
			continue
		}
		inner := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil && f.Blocks != nil && producesStream(f) && reach(f) {
						inner = true
					}
				}
			}
		}
		if !inner {
			out = append(out, fn)
		}
	}
	return out
}

func c14(c *Check) {
	p := c.P
	c.rule("the output of every coder is cut off at the size recorded for that same coder before anything else can read it")
	c.rule("every packed input is a section of the stream area, as long as its recorded size, starting where the previous one of the group ends; the stream area is the section between the start header and the header")
	c.rule("a member handle starts with the member's recorded size, never asks its stream for more than what is left, subtracts what it got and reports end of data when nothing is left")
	builders := streamBuilders(p)
	for _, fn := range builders {
		c14coders(c, p, fn)
		c14packed(c, p, fn)
	}
	c14area(c, p, builders)
	c14handles(c, p)
	c.need("decoders instantiated", 1)
	c.need("outputs cut off", 1)
	c.need("packed inputs", 1)
	c.need("stream areas", 1)
	c.need("handles made", 1)
	c.need("bounded reads", 1)
	c.need("read exits", 3)
	c.assume("LimitReadCloser, CopyN and SectionReader enforce the bounds they are given")
}

func limiter(s *Site) int { // index of the limit, the reader is before it
	switch s.name {
	case "github.com/bodgit/plumbing.LimitReadCloser", "io.LimitReader":
		return 1
	}
	return -1
}

// inBrackets: the index that follows the last occurrence of field in a path.
func indexAfter(path, field string) string {
	i := strings.LastIndex(path, "."+field+"[")
	if i < 0 {
		return ""
	}
	rest := path[i+len(field)+1:]
	d := 0
	for j := range rest {
		switch rest[j] {
		case '[':
			d++
		case ']':
			if d--; d == 0 {
				return rest[1:j]
			}
		}
	}
	return ""
}

func c14coders(c *Check, p *Prog, fn *ssa.Function) {
	name := p.fname(fn)
	q := newProv()
	idx := map[AV]string{} // decoder -> coder index it was made for
	h := Hooks{}
	h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) { q.load(e, in, addr, val) }
	h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool { return s.fn.Parent() != nil || s.fn.Pkg == fn.Pkg }
	raw := func(e *Engine, st *State, a AV) AV {
		a = stripTA(e, a)
		if strings.HasPrefix(st.marks[a], "raw") {
			return a
		}
		if n := *e.n(a); n.k == kAlloc {
			if s := structOf(derefT(n.typ)); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					if isIntT(s.Field(i).Type()) {
						return 0 // may do its own counting
					}
				}
				for i := 0; i < s.NumFields(); i++ {
					if v, ok := st.mem[e.field(a, i, derefT(n.typ))]; ok && strings.HasPrefix(st.marks[stripTA(e, v)], "raw") {
						return stripTA(e, v)
					}
				}
			}
		}
		return 0
	}
	use := func(e *Engine, st *State, where, why string) {
		if st.flags["raw"] != "" {
			c.bad("unlimited:"+name, "%s: %s %s although the output of a coder (%s) was kept without being cut off at its size; path: %s", where, name, why, st.flags["raw"], st.path())
		}
	}
	h.Call = func(e *Engine, st *State, s *Site) (AV, bool) {
		if l := limiter(s); l > 0 && len(s.args) > l {
			if r := raw(e, st, s.args[l-1]); r != 0 {
				c.count("outputs cut off", 1)
				lim := q.path(e, s.args[l])
				var bad string
				if i := between(lim); i == "" || i != idx[r] && idx[r] != "" {
					bad = lim
				} else if !strings.HasSuffix(strings.TrimSuffix(lim, "["+i+"]"), sizeField(fn)) {
					bad = lim
				}
				if bad != "" {
					c.bad("limit:"+name, "%s: %s cuts the output of coder %s off at %s, which is not its recorded size; path: %s", s.pos(e), name, idx[r], bad, st.path())
				}
			}
		}
		return 0, false
	}
	h.After = func(e *Engine, st *State, s *Site, res AV) {
		if s.fn == nil && !s.c.IsInvoke() && isDecompressorSig(s.c.Signature()) && len(s.args) >= 3 {
			use(e, st, s.pos(e), "makes another decoder")
			c.count("decoders instantiated", 1)
			r := e.ext(res, 0, s.c.Signature().Results().At(0).Type())
			a := s.args[len(s.args)-3:]
			st.marks[r] = "raw"
			cd := q.path(e, a[0])
			if i := strings.LastIndexByte(cd, '.'); i >= 0 {
				cd = cd[:i]
			}
			idx[r] = between(cd)
			if sz := q.path(e, a[1]); idx[r] != "" && between(sz) != idx[r] {
				c.bad("size:"+name, "%s: %s gives the decoder of coder %s the size %s; path: %s", s.pos(e), name, idx[r], sz, st.path())
			}
			return
		}
		if limiter(s) > 0 {
			return
		}
		// a library wrapper keeps what it wraps unlimited
		if res != 0 && s.c.Signature().Results().Len() == 1 && hasMethod(s.c.Signature().Results().At(0).Type(), "Read", 1, 2) {
			for _, a := range s.args {
				if r := raw(e, st, a); r != 0 {
					st.marks[res] = "raw"
					idx[res] = idx[r]
				}
			}
		}
	}
	h.Store = func(e *Engine, st *State, ctx *Ctx, in *ssa.Store, addr, val AV) {
		n := e.n(addr)
		if n.k != kIndex && n.k != kField {
			return
		}
		if n.k == kField && e.n(n.args[0]).k == kAlloc && !isStreamT(types.NewPointer(derefT(e.n(n.args[0]).typ))) {
			return // a wrapper under construction
		}
		if r := raw(e, st, val); r != 0 {
			st.flags["raw"] = p.ipos(in)
		}
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		if ei := errResult(fn.Signature); ei >= 0 && e.nilness(st, vals[ei]) == 1 || e.nilness(st, vals[0]) == -1 {
			return
		}
		c.count("streams built", 1)
		use(e, st, p.ipos(in), "succeeds")
	}
	e := newEngine(p, h)
	e.Run(fn, nil)
}

// sizeField: the field of the coder group that holds one size per coder.
func sizeField(fn *ssa.Function) string { return ".size" }

// ---- linear forms over SSA values (loop carried offsets)

type slin struct {
	c int64
	t map[ssa.Value]int64
}

func (l slin) add(m slin, k int64) slin {
	r := slin{l.c + k*m.c, map[ssa.Value]int64{}}
	for a, x := range l.t {
		r.t[a] += x
	}
	for a, x := range m.t {
		r.t[a] += k * x
	}
	for a, x := range r.t {
		if x == 0 {
			delete(r.t, a)
		}
	}
	return r
}

func sLin(v ssa.Value) slin {
	switch x := v.(type) {
	case *ssa.Const:
		if n, ok := constInt(x); ok {
			return slin{c: n}
		}
	case *ssa.Convert:
		if isIntT(x.Type()) && isIntT(x.X.Type()) {
			return sLin(x.X)
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD:
			return sLin(x.X).add(sLin(x.Y), 1)
		case token.SUB:
			return sLin(x.X).add(sLin(x.Y), -1)
		}
	case *ssa.ChangeType:
		return sLin(x.X)
	}
	return slin{t: map[ssa.Value]int64{v: 1}}
}

func (l slin) String() string {
	var out []string
	for v, k := range l.t {
		out = append(out, fmt.Sprintf("%d*%s", k, v.Name()))
	}
	return strings.Join(out, "+") + fmt.Sprintf("+%d", l.c)
}

// eqSV: the same value, or the same pure expression over the same values.
func eqSV(a, b ssa.Value, d int) bool {
	if a == b {
		return true
	}
	if d > 8 {
		return false
	}
	switch x := a.(type) {
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
	case *ssa.Convert:
		y, ok := b.(*ssa.Convert)
		return ok && types.Identical(x.Type(), y.Type()) && eqSV(x.X, y.X, d+1)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && eqSV(x.X, y.X, d+1)
	case *ssa.BinOp:
		y, ok := b.(*ssa.BinOp)
		return ok && x.Op == y.Op && eqSV(x.X, y.X, d+1) && eqSV(x.Y, y.Y, d+1)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && eqSV(x.X, y.X, d+1)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && eqSV(x.X, y.X, d+1) && eqSV(x.Index, y.Index, d+1)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && eqSV(x.X, y.X, d+1)
	}
	return false
}

func (l slin) equal(m slin) bool {
	if l.c != m.c || len(l.t) != len(m.t) {
		return false
	}
	for a, x := range l.t {
		hit := false
		for b, y := range m.t {
			if x == y && eqSV(a, b, 0) {
				hit = true
			}
		}
		if !hit {
			return false
		}
	}
	return true
}

// fieldPath names the field chain a value is loaded from: "packInfo.size[]".
func fieldPath(v ssa.Value, d int) string {
	if d > 10 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return fieldPath(x.X, d+1)
	case *ssa.ChangeType:
		return fieldPath(x.X, d+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return fieldPath(x.X, d+1)
		}
	case *ssa.FieldAddr:
		return fieldPath(x.X, d+1) + "." + fieldName(derefT(x.X.Type()), x.Field)
	case *ssa.IndexAddr:
		return fieldPath(x.X, d+1) + "[]"
	case *ssa.Parameter:
		return x.Name()
	}
	return ""
}

func c14packed(c *Check, p *Prog, root *ssa.Function) {
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if seen[fn] || fn.Blocks == nil || fn.Pkg != root.Pkg {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := ci.Common().StaticCallee()
				if f != nil && p.inModule(f) {
					visit(f)
				}
				if f == nil || f.String() != "io.NewSectionReader" {
					continue
				}
				c.count("packed inputs", 1)
				a := ci.Common().Args
				who := fmt.Sprintf("%s: %s", p.ipos(in), p.fname(fn))
				fp := fieldPath(a[2], 0)
				if _, ok := a[2].(*ssa.Parameter); ok {
					c.sample("%s takes the length of a packed input from its caller", who)
					continue
				}
				if !strings.HasSuffix(fp, "[]") {
					c.bad("length:"+p.fname(fn), "%s opens a packed input over a length (%s) that is not one recorded for a packed stream", who, orName(fp, a[2]))
					continue
				}
				// where it starts: loop carried sum of the lengths
				off := sLin(a[1])
				var phi *ssa.Phi
				for v := range off.t {
					if ph, ok := v.(*ssa.Phi); ok && isIntT(ph.Type()) {
						phi = ph
					}
				}
				inLoop := false
				for _, h := range fn.Blocks {
					if body := naturalLoop(h); body != nil && body[b] {
						inLoop = true
					}
				}
				if !inLoop {
					continue
				}
				if phi == nil {
					c.bad("start:"+p.fname(fn), "%s opens every packed input of a group at the same place", who)
					continue
				}
				h := phi.Block()
				body := naturalLoop(h)
				if body == nil || !body[b] {
					c.bad("start:"+p.fname(fn), "%s opens packed inputs at a place that does not move with them", who)
					continue
				}
				base := off.add(slin{t: map[ssa.Value]int64{phi: 1}}, -1)
				for i, ed := range phi.Edges {
					if !body[h.Preds[i]] {
						base = base.add(sLin(ed), 1)
						continue
					}
					delta := sLin(ed).add(slin{t: map[ssa.Value]int64{phi: 1}}, -1)
					if !delta.equal(sLin(a[2])) {
						c.bad("start:"+p.fname(fn), "%s: the next packed input does not start where this one ends (advances by %s)", who, delta)
					}
				}
				calls := 0
				for v, k := range base.t {
					cl, ok := v.(*ssa.Call)
					if ok && k == 1 && cl.Call.StaticCallee() != nil && p.inModule(cl.Call.StaticCallee()) {
						calls++
					}
				}
				if base.c != 0 || len(base.t) != 1 || calls != 1 {
					if len(base.t) == 0 && base.c == 0 {
						c.bad("base:"+p.fname(fn), "%s: packed inputs of every group start at the beginning of the stream area", who)
					} else {
						c.sample("%s: start of the group %s not judged", who, base)
					}
				}
			}
		}
	}
	visit(root)
}

func orName(s string, v ssa.Value) string {
	if s != "" {
		return s
	}
	return v.Name() + " = " + v.String()
}

// c14area: builders are given a section of the archive that ends at the header.
func c14area(c *Check, p *Prog, builders []*ssa.Function) {
	isB := map[*ssa.Function]bool{}
	for _, b := range builders {
		isB[b] = true
	}
	reach := reaches(p, func(fn *ssa.Function) bool { return false })
	_ = reach
	for _, fn := range p.funcs {
		if fn.Blocks == nil || isB[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil || !isB[ci.Common().StaticCallee()] {
					continue
				}
				for i, a := range ci.Common().Args {
					if !isReaderAtT(ci.Common().StaticCallee().Params[i].Type()) {
						continue
					}
					who := fmt.Sprintf("%s: %s", p.ipos(in), p.fname(fn))
					c.count("stream areas", 1)
					c14section(c, p, who, p.fname(fn), a)
				}
			}
		}
	}
}

func c14section(c *Check, p *Prog, who, name string, v ssa.Value) {
	for d := 0; d < 6; d++ {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		break
	}
	cl, ok := v.(*ssa.Call)
	if ok && cl.Call.StaticCallee() != nil && cl.Call.StaticCallee().Blocks != nil && p.inModule(cl.Call.StaticCallee()) {
		for _, b := range cl.Call.StaticCallee().Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Return); ok {
					c14section(c, p, who, name, r.Results[0])
				}
			}
		}
		return
	}
	if !ok || cl.Call.StaticCallee() == nil || cl.Call.StaticCallee().String() != "io.NewSectionReader" {
		if fp := fieldPath(v, 0); fp != "" || !ok {
			c.bad("area:"+name, "%s reads packed streams from %s, which is not confined to the stream area", who, orName(fp, v))
		}
		return
	}
	a := cl.Call.Args
	lo, n := sLin(a[1]), sLin(a[2])
	end := lo.add(slin{}, 1)
	// lengths: n + lo must be a single recorded end
	sum := slin{c: n.c + end.c, t: map[ssa.Value]int64{}}
	var vals []ssa.Value
	for v := range n.t {
		vals = append(vals, v)
	}
	for v := range lo.t {
		vals = append(vals, v)
	}
	for _, v := range vals {
		k := n.t[v] + lo.t[v]
		placed := false
		for w := range sum.t {
			if eqSV(v, w, 0) {
				if v != w {
					sum.t[w] += n.t[v] + lo.t[v]
				}
				placed = true
			}
		}
		if !placed {
			sum.t[v] = k
		}
	}
	for w, k := range sum.t {
		if k == 0 {
			delete(sum.t, w)
		}
	}
	if sum.c != 0 || len(sum.t) != 1 {
		c.bad("area:"+name, "%s confines packed streams to a section that does not end at a recorded position (%s)", who, sum)
		return
	}
	for w, k := range sum.t {
		fp := fieldPath(w, 0)
		if k != 1 || fp == "" {
			c.bad("area:"+name, "%s confines packed streams to a section that ends at %d*%s", who, k, orName(fp, w))
		}
		for l := range lo.t {
			if fl := fieldPath(l, 0); fl == fp {
				c.bad("area:"+name, "%s confines packed streams to an empty section", who)
			}
		}
		if len(lo.t) == 0 {
			c.bad("area:"+name, "%s confines packed streams to a section that starts at %d, not after the start header", who, lo.c)
		}
	}
}

// ---- handles

func c14handles(c *Check, p *Prog) {
	// handle types: a stream, the member it reads and one count
	for _, n := range p.pkgTypes() {
		s := structOf(n)
		if s == nil || types.IsInterface(n) {
			continue
		}
		sf, cf := -1, -1
		member := false
		for i := 0; i < s.NumFields(); i++ {
			t := s.Field(i).Type()
			switch {
			case isStreamT(t) && types.IsInterface(t.Underlying()):
				sf = i
			case isNamedT(derefT(t), modPath, "File"):
				member = true
			case isIntT(t):
				if cf >= 0 {
					cf = -2
				} else if cf == -1 {
					cf = i
				}
			}
		}
		if sf < 0 || !member {
			continue
		}
		if cf < 0 {
			c.bad("nocount:"+n.Obj().Name(), "%s has no single count of what is left of the member", n.Obj().Name())
			continue
		}
		for _, fn := range p.funcs {
			r := fn.Signature.Recv()
			if fn.Blocks == nil || fn.Parent() != nil {
				continue
			}
			if r != nil && types.Identical(derefT(r.Type()), n) {
				c14method(c, p, n, fn, sf, cf)
			}
		}
		c14made(c, p, n, sf, cf)
	}
}

func c14method(c *Check, p *Prog, n *types.Named, fn *ssa.Function, sf, cf int) {
	name := p.fname(fn)
	q := newProv()
	var recv AV
	intT := types.Typ[types.Int64]
	left := func(e *Engine) AV { return e.free("left", intT) }
	h := Hooks{}
	h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) { q.load(e, in, addr, val) }
	h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool {
		return s.fn.Parent() != nil || s.fn.Signature.Recv() != nil && types.Identical(derefT(s.fn.Signature.Recv().Type()), n)
	}
	h.Assume = func(e *Engine, st *State, cond AV, truth bool) { q.assume(e, st, cond, truth) }
	isStream := func(e *Engine, a AV) bool {
		a = stripTA(e, a)
		for m := *e.n(a); m.k == kOp && strings.HasPrefix(m.tag, "conv:"); m = *e.n(a) {
			a = stripTA(e, m.args[0])
		}
		if m := *e.n(a); m.k == kClosure && m.fn.Synthetic != "" && len(m.args) == 1 {
			a = stripTA(e, m.args[0]) // a method value
		}
		f, ok := q.from[a]
		return ok && e.n(f).k == kField && e.n(f).args[0] == recv && e.n(f).tag == fmt.Sprint(sf)
	}
	cur := func(e *Engine, st *State) lin {
		if v, ok := st.mem[e.field(recv, cf, n)]; ok {
			return e.lin(st, v)
		}
		return lin{t: map[AV]int64{0: 1}}
	}
	bound := func(e *Engine, st *State, s *Site, size lin, got AV) {
		c.count("bounded reads", 1)
		if !q.nonneg(e, st, cur(e, st).add(size, -1)) {
			c.bad("bound:"+name, "%s: %s may read more from the stream than what is left of the member; path: %s", s.pos(e), name, st.path())
		}
		if got != 0 {
			st.flags["got"] = fmt.Sprint(int(got))
		}
	}
	h.Call = func(e *Engine, st *State, s *Site) (AV, bool) {
		if s.method() == "Read" && len(s.args) == 2 && isStream(e, s.args[0]) {
			bound(e, st, s, e.lin(st, e.op("len", types.Typ[types.Int], s.args[1])), 0)
		}
		return 0, false
	}
	h.After = func(e *Engine, st *State, s *Site, res AV) {
		rs := s.c.Signature().Results()
		first := func() AV {
			if rs.Len() > 1 {
				return e.ext(res, 0, rs.At(0).Type())
			}
			return res
		}
		for i, a := range s.args {
			if !isStream(e, a) {
				continue
			}
			switch {
			case i == 0 && (s.c.IsInvoke() || s.c.Signature().Recv() != nil):
				switch s.method() {
				case "Read":
					st.flags["got"] = fmt.Sprint(int(first()))
				case "Close", "Size", "Checksum":
				case "Seek":
					if w := e.constOf(s.args[2]); w == nil || w.ExactString() != "1" || e.constOf(s.args[1]) == nil || e.constOf(s.args[1]).ExactString() != "0" {
						c.bad("seek:"+name, "%s: %s moves the stream of a member; path: %s", s.pos(e), name, st.path())
					}
				default:
					c.bad("bound:"+name, "%s: %s reads from the stream by %s without a bound; path: %s", s.pos(e), name, s.method(), st.path())
				}
			case s.name == "io.CopyN" && i == 1:
				bound(e, st, s, e.lin(st, s.args[2]), first())
			case s.name == "io.ReadFull" && i == 0:
				bound(e, st, s, e.lin(st, e.op("len", types.Typ[types.Int], s.args[1])), first())
			case limiter(s) > 0:
				bound(e, st, s, e.lin(st, s.args[limiter(s)]), 0)
				st.marks[res] = "limited"
			case poolCall(s.c) == "Put" || s.fn != nil && p.inModule(s.fn):
			case isErrMaker(s.name):
			default:
				c.bad("bound:"+name, "%s: %s lets %s read from the stream without a bound; path: %s", s.pos(e), name, shortName(s.name), st.path())
			}
			return
		}
		for _, a := range s.args {
			if st.marks[stripTA(e, a)] == "limited" && isIntT(e.typOf(first())) {
				st.flags["got"] = fmt.Sprint(int(first()))
			}
		}
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		if st.flags["got"] != "" {
			c.count("read exits", 1)
			var g int
			fmt.Sscan(st.flags["got"], &g)
			want := lin{t: map[AV]int64{left(e): 1}}.add(e.lin(st, AV(g)), -1)
			d := cur(e, st).add(want, -1)
			if !d.zero() && !q.zeroDiff(e, st, d) {
				c.bad("count:"+name, "%s: %s does not subtract what it read from what is left of the member; path: %s", p.ipos(in), name, st.path())
			}
			return
		}
		// nothing was read: end of data must be reported once nothing is left
		if fn.Name() != "Read" {
			return
		}
		c.count("read exits", 1)
		if n := e.lin(st, vals[0]); !n.zero() {
			c.bad("phantom:"+name, "%s: %s reports data it did not read; path: %s", p.ipos(in), name, st.path())
		}
		if e.nilness(st, vals[1]) == 1 {
			return
		}
		pl := e.lin(st, e.op("len", types.Typ[types.Int], e.param(ctx, 1)))
		if !q.zeroDiff(e, st, pl) {
			c.bad("noend:"+name, "%s: %s reports neither data nor end of data nor an error; path: %s", p.ipos(in), name, st.path())
		}
	}
	e := newEngine(p, h)
	e.Run(fn, func(e *Engine, ctx *Ctx, st *State) {
		recv = e.param(ctx, 0)
		st.mem[e.field(recv, cf, n)] = left(e)
		st.marks[recv] = "recv"
		if len(fn.Params) > 1 {
			st.marks[e.param(ctx, 1)] = "buf"
		}
		if e.h.Load != nil {
			st.marks[left(e)] = "left"
		}
	})
}

// c14made: handles start with the size of the member they carry.
func c14made(c *Check, p *Prog, n *types.Named, sf, cf int) {
	s := structOf(n)
	makes := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && types.Identical(derefT(a.Type()), n) {
					return true
				}
			}
		}
		return false
	}
	reach := reaches(p, makes)
	for _, fn := range p.funcs {
		if fn.Parent() != nil || fn.Blocks == nil || !makes(fn) && !(reach(fn) && isMemberOpen(p, fn)) {
			continue
		}
		if !isMemberOpen(p, fn) && fn.Signature.Recv() == nil {
			continue // judged where it is used
		}
		name := p.fname(fn)
		q := newProv()
		h := Hooks{}
		h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) { q.load(e, in, addr, val) }
		h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool {
			return s.fn.Parent() != nil || s.fn.Pkg == fn.Pkg && !producesStream(s.fn) && (makes(s.fn) || s.fn.Signature.Recv() != nil && isNamedT(derefT(s.fn.Signature.Recv().Type()), modPath, "File"))
		}
		h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
			if ei := errResult(fn.Signature); ei >= 0 && e.nilness(st, vals[ei]) == 1 {
				return
			}
			for _, v := range vals {
				v = stripTA(e, v)
				if m := e.n(v); m.k != kAlloc || !types.Identical(derefT(m.typ), n) {
					continue
				}
				c.count("handles made", 1)
				sv, ok := st.mem[e.field(v, sf, n)]
				if !ok || e.nilness(st, sv) == -1 {
					continue // no data
				}
				cv, ok := st.mem[e.field(v, cf, n)]
				if !ok {
					cv = e.zero(types.Typ[types.Int64])
				}
				got := q.path(e, cv)
				okk := false
				for i := 0; i < s.NumFields(); i++ {
					if mv, ok := st.mem[e.field(v, i, n)]; ok && isNamedT(derefT(s.Field(i).Type()), modPath, "File") {
						if strings.HasPrefix(got, q.path(e, mv)+".") && strings.HasSuffix(got, ".UncompressedSize") {
							okk = true
						}
					}
				}
				if !okk {
					c.bad("initial:"+name, "%s: %s returns a handle that may deliver %s bytes instead of the member's recorded size; path: %s", p.ipos(in), name, got, st.path())
				}
			}
		}
		e := newEngine(p, h)
		e.Run(fn, nil)
	}
}

func isMemberOpen(p *Prog, fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	return r != nil && isNamedT(derefT(r.Type()), modPath, "File") && fn.Object() != nil && fn.Object().Exported()
}
