package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func keys(m map[*ssa.Function]bool) []*ssa.Function {
	var l []*ssa.Function
	for f := range m {
		l = append(l, f)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}

// sumRun follows the lists of the parsed description through a function.
type sumRun struct {
	p     *Prog
	c     *Check
	e     *Engine
	org   map[AV]string // slice value -> field it is
	elem  map[AV]elemOf // element value -> where from
	usize map[AV]AV     // size of a group -> the group
	edges []sumEdge
	evs   []sumEvent
	inits map[AV][]AV
	track func(e *Engine, base AV) bool // slices whose element stores are events
	loadk string                        // field whose element loads are events
	stop  func(*ssa.Function) bool      // functions not looked into
}

type elemOf struct {
	key string
	idx AV
}

type sumEdge struct {
	pos      string
	from, to string // loop last entered or advanced, loop reached
	back     bool
	n        int // events since
	vals     map[AV]AV
	sum      []AV // what was stored or loaded since
	last     AV
	cmps     map[AV]bool // comparisons that hold or do not
	late     map[AV]bool // of those, decided at the end of an iteration
	path     string
	s0       string        // whether the group is known to have no substreams
	rel      map[AV]elemOf // where values come from on this path
	inside   string        // the loop around the one reached
}

// rels: where values come from on this path.
func rels(e *Engine, st *State) map[AV]elemOf {
	m := map[AV]elemOf{}
	for a, k := range st.marks {
		if k == "rel" {
			n := e.n(a)
			m[n.args[0]] = elemOf{n.tag[4:], n.args[1]}
		}
	}
	return m
}

type sumEvent struct {
	pos  string
	hdr  string
	idx  AV
	n    int // events before, since the header
	val  AV
	base AV
	path string
}

func hdrKey(ctx *Ctx, b *ssa.BasicBlock) string {
	return strconv.Itoa(ctx.id) + "." + strconv.Itoa(b.Index) + "." + b.Parent().Name()
}

func isFolderT(t types.Type) bool {
	n, ok := derefT(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath {
		return false
	}
	return n.Obj().Name() == "folder"
}

// hooks common to the runs
func (r *sumRun) hooks() Hooks {
	h := Hooks{}
	h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool {
		if r.stop != nil && r.stop(s.fn) {
			return false
		}
		if s.fn.Parent() != nil && s.fn.Parent() == ctx.fn {
			return true
		}
		if v := s.fn.Signature.Recv(); v != nil && isFolderT(v.Type()) {
			return false
		}
		for _, x := range s.fn.Params {
			switch t := x.Type().Underlying().(type) {
			case *types.Slice:
				if isFolderT(t.Elem()) || isUint64T(t.Elem()) {
					return true
				}
			case *types.Pointer:
				if n, ok := t.Elem().(*types.Named); ok && r.p.isModPkg(n.Obj().Pkg()) && structOf(n) != nil && strings.Contains(strings.ToLower(n.Obj().Name()), "info") {
					return true
				}
			}
		}
		return false
	}
	h.Instr = func(e *Engine, st *State, ctx *Ctx, in ssa.Instruction) {
		iff, ok := in.(*ssa.If)
		if !ok {
			return
		}
		for _, q := range iff.Block().Succs {
			if q.Dominates(iff.Block()) {
				for a := e.eval(st, ctx, iff.Cond); a != 0; {
					st.marks[e.op("late", types.Typ[types.Bool], a)] = "late"
					n := e.n(a)
					a = 0
					if n.k == kOp && n.tag == "!" {
						a = n.args[0]
					}
				}
			}
		}
	}
	h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) {
		n := e.n(addr)
		switch n.k {
		case kField:
			if _, ok := in.Type().Underlying().(*types.Slice); ok {
				if k := fieldKeyOf(e, addr); k != "" {
					if r.org[val] == "" {
						r.org[val] = k
					}
					if strings.HasPrefix(k, "folder.") {
						st.marks[e.op("rel:."+k, types.Typ[types.Int], val, n.args[0])] = "rel"
					}
				}
			} else if isIntT(in.Type()) {
				if k := fieldKeyOf(e, addr); k != "" {
					r.elem[val] = elemOf{"." + k, n.args[0]}
					if strings.HasPrefix(k, "folder.") {
						st.marks[e.op("rel:."+k, in.Type(), val, n.args[0])] = "rel"
					}
				}
			}
			if fieldKeyOf(e, addr) == "subStreamsInfo.streams" {
				st.flags["ss"] = "1"
			}
		case kIndex:
			k := r.org[n.args[0]]
			if k == "" {
				if t, ok := e.typOf(n.args[0]).Underlying().(*types.Slice); ok && isFolderT(t.Elem()) {
					k = "unpackInfo.folder"
				}
			}
			if k == "" {
				break
			}
			r.elem[val] = elemOf{k, n.args[1]}
			st.marks[e.op("rel:"+k, in.Type(), val, n.args[1])] = "rel"
			if k == r.loadk {
				r.event(e, st, ctx, in, n.args[0], n.args[1], val)
			}
		}
	}
	h.After = func(e *Engine, st *State, s *Site, res AV) {
		if res == 0 || s.fn == nil || len(s.args) != 1 {
			return
		}
		if v := s.fn.Signature.Recv(); v != nil && isFolderT(v.Type()) && isIntT(s.fn.Signature.Results().At(0).Type()) {
			r.usize[res] = s.args[0]
			st.marks[e.op("rel:usize", types.Typ[types.Int], res, s.args[0])] = "rel"
		}
	}
	h.Assume = func(e *Engine, st *State, cond AV, truth bool) {
		n := e.n(cond)
		if n.k != kOp || len(n.args) != 2 {
			return
		}
		rel := false
		for _, x := range n.args {
			for a := range e.lin(nil, x).t {
				m := e.n(a)
				if r.elem[a].key != "" || n.tag != "==" && m.k == kOp && m.tag == "len" && r.org[m.args[0]] != "" {
					rel = true
				}
				if m.k == kSym && n.tag != "==" {
					switch m.v.(type) {
					case *ssa.Phi, *ssa.Parameter:
						rel = true
					}
				}
			}
		}
		if !rel {
			return
		}
		switch n.tag {
		case "<", "<=", "==":
			st.marks[cond] = "cmp:" + strconv.FormatBool(truth)
		}
	}
	h.Store = func(e *Engine, st *State, ctx *Ctx, in *ssa.Store, addr, val AV) {
		n := e.n(addr)
		if n.k == kIndex && r.track != nil && r.track(e, n.args[0]) {
			r.event(e, st, ctx, in, n.args[0], n.args[1], val)
		}
		if n.k == kField {
			if _, ok := e.typOf(val).Underlying().(*types.Slice); ok {
				if k := fieldKeyOf(e, addr); k != "" {
					r.org[val] = k
				}
			}
		}
	}
	h.Head = func(e *Engine, st *State, ctx *Ctx, from, to *ssa.BasicBlock, phis []*ssa.Phi, vals []AV) {
		ed := sumEdge{pos: r.p.ipos(from.Instrs[len(from.Instrs)-1]), from: st.flags["hd"], to: hdrKey(ctx, to), back: to.Dominates(from), n: len(st.flags["n"]), vals: map[AV]AV{}, cmps: map[AV]bool{}, late: map[AV]bool{}, path: st.path(), rel: rels(e, st), inside: enclosing(ctx, to)}
		for a, m := range st.marks {
			switch {
			case strings.HasPrefix(m, "cmp:"):
				ed.cmps[a] = m == "cmp:true"
			case m == "late":
				ed.late[e.n(a).args[0]] = true
			case m == "ev":
				ed.sum = append(ed.sum, a)
			case m == "last":
				ed.sum = append(ed.sum, a)
				ed.last = a
			}
		}
		for i, ph := range phis {
			a := e.sym(ctx, ph, "")
			ed.vals[a] = vals[i]
			if !ed.back {
				r.inits[a] = append(r.inits[a], vals[i])
			}
		}
		r.edges = append(r.edges, ed)
		ss := st.flags["ss"]
		// what is known of the surrounding iteration stays
		st.flags = map[string]string{"hd": ed.to}
		if ss != "" {
			st.flags["ss"] = ss
		}
		for a, m := range st.marks {
			if (strings.HasPrefix(m, "cmp:") || m == "rel" || m == "late") && (!ed.back || !r.within(e, ctx, to, a)) {
				continue
			}
			delete(st.marks, a)
		}
	}
	return h
}

// within: the term has a value computed in the loop.
func (r *sumRun) within(e *Engine, ctx *Ctx, h *ssa.BasicBlock, a AV) bool {
	for _, x := range e.n(a).syms {
		n := e.n(x)
		if n.k == kOld {
			return true
		}
		c := n.ctx
		for c != nil && c.depth > ctx.depth {
			c = c.parent
		}
		if n.ctx != nil && c == ctx && n.ctx != ctx {
			return true
		}
		if in, ok := n.v.(ssa.Instruction); ok && n.ctx == ctx && in.Block() != nil && h.Dominates(in.Block()) {
			for _, q := range h.Preds {
				if h.Dominates(q) && cycles(in.Block(), q, h) {
					return true
				}
			}
			if in.Block() == h {
				return true
			}
		}
	}
	return false
}

// enclosing: the loop around the loop with this header.
func enclosing(ctx *Ctx, h *ssa.BasicBlock) string {
	var best *ssa.BasicBlock
	for _, o := range h.Parent().Blocks {
		if o == h || !o.Dominates(h) {
			continue
		}
		for _, q := range o.Preds {
			if o.Dominates(q) && cycles(h, q, o) && (best == nil || best.Dominates(o)) {
				best = o
			}
		}
	}
	if best != nil {
		return hdrKey(ctx, best)
	}
	if ctx.call != nil && ctx.parent != nil {
		if cx, b := loopAround(ctx.parent, ctx.call); b != nil {
			return hdrKey(cx, b)
		}
	}
	return ""
}

func (r *sumRun) event(e *Engine, st *State, ctx *Ctx, in ssa.Instruction, base, idx, val AV) {
	r.evs = append(r.evs, sumEvent{r.p.ipos(in), st.flags["hd"], idx, len(st.flags["n"]), val, base, st.path()})
	st.flags["n"] += "1"
	for a, m := range st.marks {
		if m == "last" {
			st.marks[a] = "ev"
		}
	}
	if st.marks[val] == "ev" || e.isConst(val) {
		st.flags["dup"] = "1"
	}
	st.marks[val] = "last"
}

func isUint64T(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint64
}

// less brings a comparison into the form 0 < lin.
func less(e *Engine, cond AV, truth bool) (lin, bool) {
	n := e.n(cond)
	if n.k != kOp || len(n.args) != 2 {
		return lin{}, false
	}
	x, y := e.lin(nil, n.args[0]), e.lin(nil, n.args[1])
	d := y.add(x, -1)
	switch n.tag {
	case "<":
	case "<=":
		d.c++
	default:
		return lin{}, false
	}
	if !truth { // not 0 < d: d <= 0, 0 < 1-d
		d = lin{c: 1}.add(d, -1)
	}
	return d, true
}

func (l lin) sub1(a AV) lin { return l.add(lin{t: map[AV]int64{a: 1}}, -1) }

// same value on every edge into the loop
func (r *sumRun) init(a AV) (lin, bool) {
	vs := r.inits[a]
	if len(vs) == 0 {
		return lin{}, false
	}
	l := r.e.lin(nil, vs[0])
	for _, v := range vs[1:] {
		if !r.e.lin(nil, v).add(l, -1).zero() {
			return lin{}, false
		}
	}
	return l, true
}

// counts: a term that is a loop variable plus a constant, going up from zero
// by one: 1, 0 if it is another loop variable arithmetic, -1 if it is wrong.
func (r *sumRun) counts(a AV) (int8, string) {
	l := r.e.lin(nil, a)
	if len(l.t) != 1 {
		return 0, ""
	}
	for p, k := range l.t {
		if k != 1 {
			return 0, ""
		}
		i, ok := r.init(p)
		if !ok || len(i.t) != 0 {
			return 0, ""
		}
		if i.c+l.c != 0 {
			return -1, "starts at " + strconv.FormatInt(i.c+l.c, 10)
		}
		for _, ed := range r.edges {
			v, has := ed.vals[p]
			if !has || !ed.back {
				continue
			}
			d := r.e.lin(nil, v).sub1(p)
			if len(d.t) != 0 {
				return 0, ""
			}
			if d.c != 1 {
				return -1, "goes up by " + strconv.FormatInt(d.c, 10)
			}
		}
	}
	return 1, ""
}

// potential: the linear form, minus what is added to it by the iterations: its
// value on entry and its change on every edge back.
func (r *sumRun) entry(l lin) (lin, bool) {
	o := lin{c: l.c, t: map[AV]int64{}}
	for a, k := range l.t {
		if _, isPhi := r.inits[a]; isPhi {
			i, ok := r.init(a)
			if !ok {
				return o, false
			}
			o = o.add(i, k)
		} else {
			o = o.add(lin{t: map[AV]int64{a: 1}}, k)
		}
	}
	return o, true
}

func (r *sumRun) change(l lin, ed sumEdge) lin {
	d := lin{}
	for a, k := range l.t {
		if v, ok := ed.vals[a]; ok {
			d = d.add(r.e.lin(nil, v).sub1(a), k)
		}
	}
	return d
}

func (r *sumRun) known(l lin) bool {
	for a := range l.t {
		n := r.e.n(a)
		if _, ok := r.elem[a]; ok {
			continue
		}
		if _, ok := r.usize[a]; ok {
			continue
		}
		if n.k == kSym {
			switch n.v.(type) {
			case *ssa.Parameter, *ssa.Phi, *ssa.Call, *ssa.Extract:
				continue
			}
		}
		if n.k == kOp && strings.HasPrefix(n.tag, "ext") {
			continue
		}
		if n.k == kOp && arithOp[n.tag] && r.knownArgs(n) {
			continue
		}
		return false
	}
	return true
}

// arithOp: operations that are no sums.
var arithOp = map[string]bool{"max": true, "min": true, "*": true, "/": true, "%": true}

func (r *sumRun) knownArgs(n *node) bool {
	for _, x := range n.args {
		for a := range r.e.lin(nil, x).t {
			m := r.e.n(a)
			if m.k == kOp && m.tag == "len" && r.org[m.args[0]] != "" {
				continue
			}
			if !r.known(lin{t: map[AV]int64{a: 1}}) {
				return false
			}
		}
	}
	return true
}

func newSum(c *Check) *sumRun {
	return &sumRun{p: c.P, c: c, org: map[AV]string{}, elem: map[AV]elemOf{}, usize: map[AV]AV{}, inits: map[AV][]AV{}}
}

// c23lookup judges the lookup itself.
func c23lookup(c *Check, fn *ssa.Function) {
	p := c.P
	name := p.fname(fn)
	r := newSum(c)
	h := r.hooks()
	type exit struct {
		pos  string
		vals []AV
		cmps map[AV]bool
		rel  map[AV]elemOf
		ss   bool
		path string
	}
	var exits []exit
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		if len(vals) != 4 || e.nilness(st, vals[3]) == 1 {
			return
		}
		x := exit{p.ipos(in), vals, map[AV]bool{}, rels(e, st), st.flags["ss"] != "", st.path()}
		for a, m := range st.marks {
			if strings.HasPrefix(m, "cmp:") {
				x.cmps[a] = m == "cmp:true"
				n := e.n(a)
				if n.tag == "==" {
					continue
				}
				d := e.lin(st, n.args[1]).add(e.lin(st, n.args[0]), -1)
				if n.tag == "<=" {
					d.c++
				}
				if m == "cmp:true" && len(d.t) == 1 && d.c <= 0 {
					for f, k := range d.t {
						if _, ok := e.n(f).v.(*ssa.Parameter); ok && k == -1 {
							return // before the first group
						}
					}
				}
			}
		}
		exits = append(exits, x)
	}
	e := newEngine(p, h)
	e.keyBools, e.peel = true, true
	r.e = e
	var file AV
	e.Run(fn, func(e *Engine, ctx *Ctx, st *State) {
		for i, x := range fn.Params {
			if isIntT(x.Type()) {
				file = e.param(ctx, i)
			}
		}
	})
	if file == 0 {
		return
	}
	isFile := func(a AV) lin { return e.lin(nil, a).sub1(file) }
	for _, x := range exits {
		f := e.lin(nil, x.vals[0])
		sameF := func(a AV) lin { return e.lin(nil, a).add(f, -1) }
		// what is known of the number of substreams of the group
		whole, found, dig := false, false, map[string]bool{}
		infeasible := false
		for a, t := range x.cmps {
			n := e.n(a)
			if n.tag == "==" {
				for i := range 2 {
					if el := x.rel[n.args[i]]; el.key == "subStreamsInfo.streams" {
						if k := e.constOf(n.args[1-i]); k != nil && k.ExactString() == "1" && t {
							whole = true
						}
					}
				}
				continue
			}
			d, ok := less(e, a, t)
			if !ok {
				continue
			}
			if len(d.t) == 1 && d.t[file] == -1 && d.c <= 0 {
				infeasible = true
			}
			for s, k := range d.t {
				el := x.rel[s]
				if el.key == "subStreamsInfo.streams" && k == -1 && len(d.t) == 1 && d.c == 2 {
					whole = true
				}
				m := e.n(s)
				if m.k == kOp && arithOp[m.tag] && d.t[file] == -1 && r.known(d) {
					for _, y := range m.args {
						for z := range e.lin(nil, y).t {
							if x.rel[z].key == "subStreamsInfo.streams" {
								found = true
								c.bad("search:"+name, "%s: the group is found by %s, which is not file < sum(streams[0..k]) (path: %s)", x.pos, e.str(a), x.path)
							}
						}
					}
				}
				if m.k == kOp && m.tag == "len" && k == 1 && len(d.t) == 1 && d.c <= 0 {
					dig[r.org[m.args[0]]] = true
				}
				if el.key == "subStreamsInfo.streams" && k == 1 && d.t[file] <= 0 && sameF(el.idx).zero() && len(d.t) > 1 {
					// 0 < streams[f] + P
					pot := d.sub1(s)
					p0, ok := r.entry(pot)
					if !ok {
						continue
					}
					found = true
					c.count("group searches judged", 1)
					if w := p0.add(lin{t: map[AV]int64{file: 1}}, 1); !w.zero() {
						if r.known(p0) {
							c.bad("search:"+name, "%s: the group is found by %s, which is not file < sum(streams[0..k]) (path: %s)", x.pos, e.str(a), x.path)
						} else {
							c.sample("%s: search %s not understood", x.pos, e.str(a))
						}
					}
					for _, ed := range r.edges {
						if !ed.back || len(ed.vals) == 0 || !has(ed.vals, pot) {
							continue
						}
						ch := r.change(pot, ed)
						if w := ch.sub1(s); !w.zero() {
							if r.known(ch) {
								c.bad("total:"+name, "%s: going on to the next group adds %s instead of the substreams of the group (path: %s)", ed.pos, r.str(ch), ed.path)
							}
						}
						for b, bt := range ed.cmps {
							if b == a && bt == t {
								c.bad("passes:"+name, "%s: the search goes on although the group was found (path: %s)", ed.pos, ed.path)
							}
						}
					}
					if k, why := r.counts(x.vals[0]); k < 0 {
						c.bad("group:"+name, "%s: the group returned %s", x.pos, why)
					}
				}
			}
		}
		if infeasible {
			continue
		}
		c.count("lookup exits judged", 1)
		if x.ss && !found {
			c.sample("%s: how the group was found is not understood (path: %s)", x.pos, x.path)
		}
		if !x.ss {
			whole = true
			if d := isFile(x.vals[0]); !d.zero() {
				if len(f.t) == 0 || len(d.t) == 0 || f.t[file] < 0 {
					c.bad("onefile:"+name, "%s: without substreams the group of a file is %s (path: %s)", x.pos, e.str(x.vals[0]), x.path)
				} else {
					c.sample("%s: group %s not understood", x.pos, e.str(x.vals[0]))
				}
			}
		}
		judge := func(what string, v AV) {
			if el, ok := x.rel[v]; ok && el.key != "usize" {
				switch el.key {
				case "subStreamsInfo.size", "subStreamsInfo.digest":
					if !isFile(el.idx).zero() {
						c.bad(what+":"+name, "%s: the %s is taken from position %s of %s (path: %s)", x.pos, what, e.str(el.idx), el.key, x.path)
					}
					if el.key == "subStreamsInfo.size" && !x.ss {
						c.sample("%s: size of a substream without looking for its group", x.pos)
					}
				case "unpackInfo.digest":
					if !sameF(el.idx).zero() {
						c.bad(what+":"+name, "%s: the %s is taken from position %s of %s (path: %s)", x.pos, what, e.str(el.idx), el.key, x.path)
					} else if !whole {
						c.bad(what+"-whole:"+name, "%s: the %s of a group that may hold several files is that of the group (path: %s)", x.pos, what, x.path)
					}
				default:
					c.sample("%s: %s from %s", x.pos, what, el.key)
				}
				return
			}
			if u, ok := x.rel[v]; ok && u.key == "usize" {
				g := u.idx
				el := x.rel[g]
				if el.key != "unpackInfo.folder" {
					c.sample("%s: group %s not understood", x.pos, e.str(g))
					return
				}
				if !sameF(el.idx).zero() {
					c.bad(what+":"+name, "%s: the %s is that of group %s, not of the one returned (path: %s)", x.pos, what, e.str(el.idx), x.path)
				} else if !whole {
					c.bad(what+"-whole:"+name, "%s: the %s of a file is that of a group that may hold several (path: %s)", x.pos, what, x.path)
				}
				return
			}
			if k := e.constOf(v); k != nil && k.Kind() == constant.Int {
				if what == "size" {
					c.bad("size:"+name, "%s: the size is always %s (path: %s)", x.pos, k, x.path)
				} else if x.ss && dig["subStreamsInfo.digest"] || whole && dig["unpackInfo.digest"] {
					c.bad("checksum:"+name, "%s: no checksum although one is recorded (path: %s)", x.pos, x.path)
				}
				return
			}
			c.sample("%s: %s %s not understood", x.pos, what, e.str(v))
		}
		judge("size", x.vals[1])
		judge("checksum", x.vals[2])
	}
	if c.counts["group searches judged"] == 0 {
		c.sample("%s: no search for the group recognised", name)
	}
}

func has(vals map[AV]AV, l lin) bool {
	for a := range l.t {
		if _, ok := vals[a]; ok {
			return true
		}
	}
	return false
}

func (r *sumRun) str(l lin) string {
	var out []string
	for a, k := range l.t {
		s := r.e.str(a)
		if k != 1 {
			s = strconv.FormatInt(k, 10) + "*" + s
		}
		out = append(out, s)
	}
	sort.Strings(out)
	if l.c != 0 || len(out) == 0 {
		out = append(out, strconv.FormatInt(l.c, 10))
	}
	return strings.Join(out, " + ")
}

var _ = token.ADD

// c23sizes judges the functions that store the list of substream sizes.
func c23sizes(c *Check) {
	for _, fn := range c.P.funcs {
		if fn.Blocks == nil || fn.Parent() != nil {
			continue
		}
		if anyInstr(fn, func(in ssa.Instruction) bool {
			s, ok := in.(*ssa.Store)
			if !ok {
				return false
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			return ok && trackedField(fa.X.Type(), fa.Field) == "subStreamsInfo.size"
		}) {
			c23store(c, fn)
		}
	}
}
