package main

// C09: every decompression stream is closed or pooled exactly once. Four
// analyses: typestate of streams in the functions that obtain them, Close of
// every stream type over its input fields, constructors keeping every input in
// a field Close closes, and the bookkeeping of the stream pool.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C09"] = c09 }

func hasMethod(t types.Type, name string, params, results int) bool {
	sel := types.NewMethodSet(t).Lookup(nil, name)
	if sel == nil {
		return false
	}
	s, ok := sel.Type().(*types.Signature)
	return ok && s.Params().Len() == params && s.Results().Len() == results
}

// closable: has Close() error.
func closable(t types.Type) bool {
	if t == nil {
		return false
	}
	sel := types.NewMethodSet(t).Lookup(nil, "Close")
	if sel == nil {
		return false
	}
	s := sel.Type().(*types.Signature)
	return s.Params().Len() == 0 && s.Results().Len() == 1 && isErrorType(s.Results().At(0).Type())
}

// isRC: a stream: Read and Close, not a file on disk.
func isRC(t types.Type) bool {
	return t != nil && closable(t) && hasMethod(t, "Read", 1, 2) && !isFileT(t)
}

func isRCList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isRC(s.Elem())
}

// rcResult returns the index of a stream result, or -1.
func rcResult(sig *types.Signature) int {
	for i := 0; i < sig.Results().Len(); i++ {
		if isRC(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// producesRC: returns a stream together with an error or an ok flag.
func producesRC(sig *types.Signature) bool {
	i := rcResult(sig)
	n := sig.Results().Len()
	if i < 0 || n < 2 {
		return false
	}
	l := sig.Results().At(n - 1).Type()
	return isErrorType(l) || types.Identical(l, types.Typ[types.Bool])
}

type streamRun struct {
	c     *Check
	p     *Prog
	dirty map[*ssa.Function]bool // may return a live stream together with an error
	final bool
	sw    func(*ssa.Function) []*sweep
}

func (r *streamRun) bad(key, f string, a ...any) {
	if r.final {
		r.c.bad(key, f, a...)
	}
}

func c09(c *Check) {
	p := c.P
	c.rule("a stream obtained from a constructor, a folder or the pool is, at every exit of the function that obtained it, in exactly one state: closed, parked in the pool, or reachable from the returned value; lists of streams under construction are swept on every failing exit")
	c.rule("Close of a stream type closes every closable field on every path that closes any, or finds one already nil; a handle that parked its stream forgets it whatever the pool answers")
	c.rule("a constructor keeps each of its input streams in exactly one closable field of the stream it returns (or returns the input itself)")
	c.rule("pool: a removed element is removed from every container and its stream is either returned or closed; a parked stream is inserted into every container or closed; no entry is overwritten")
	cache := map[*ssa.Function][]*sweep{}
	sw := func(fn *ssa.Function) []*sweep {
		if s, ok := cache[fn]; ok {
			return s
		}
		cache[fn] = sweeps(fn)
		return cache[fn]
	}
	r := &streamRun{c: c, p: p, dirty: map[*ssa.Function]bool{}, sw: sw}
	var roots []*ssa.Function
	for _, fn := range p.funcs {
		if fn.Parent() != nil || fn.Blocks == nil || r.inlines(fn) {
			continue
		}
		roots = append(roots, fn)
	}
	for pass := 0; ; pass++ {
		n := len(r.dirty)
		for _, fn := range roots {
			r.run(fn)
		}
		if len(r.dirty) == n {
			break
		}
	}
	r.final = true
	c.counts["streams obtained"] = 0
	c.counts["exits judged"] = 0
	for _, fn := range roots {
		r.run(fn)
	}
	c.need("streams obtained", 5)
	c.need("exits judged", 20)
	for _, n := range p.pkgTypes() {
		c09type(c, p, n, sw)
	}
	c.need("stream types with inputs", 10)
	for _, fn := range p.cg().decomp {
		c09ctor(c, p, fn)
	}
	c.need("constructors judged", 12)
	c09pool(c, p)
	c.need("pool operations judged", 4)
	c.assume("library wrappers around a stream (plumbing, bufio, flate) keep it until they are closed and close it at most once")
	c.assume("a stream constructor that fails has not taken over its inputs; the caller closes them")
}

// inlines: helpers analysed as part of their callers.
func (r *streamRun) inlines(fn *ssa.Function) bool {
	if fn.Parent() != nil {
		return true
	}
	if producesRC(fn.Signature) || rcResult(fn.Signature) >= 0 {
		return false
	}
	if fn.Signature.Recv() != nil && isRC(fn.Signature.Recv().Type()) {
		return false
	}
	if o := fn.Object(); o != nil && o.Exported() {
		return false
	}
	for _, x := range fn.Params {
		if isRC(x.Type()) || isRCList(x.Type()) || closable(x.Type()) {
			return true
		}
		if s, ok := x.Type().Underlying().(*types.Slice); ok && closable(s.Elem()) {
			return true
		}
	}
	return false
}

func (r *streamRun) run(fn *ssa.Function) {
	c, p := r.c, r.p
	name := p.fname(fn)
	pm := posMap{p}
	from := map[AV]AV{}
	type partner struct {
		a     AV
		err   bool
		dirty bool
	}
	errOf := map[AV]partner{}
	inner := map[AV][]AV{} // wrapper -> wrapped
	unwrap := func(e *Engine, a AV) AV {
		for {
			n := e.n(a)
			if n.k == kIface || n.k == kOp && strings.HasPrefix(n.tag, "ta:") {
				a = n.args[0]
				continue
			}
			return a
		}
	}
	// base lists the tracked streams an operation on a acts upon
	var base func(e *Engine, st *State, a AV, seen map[AV]bool) []AV
	base = func(e *Engine, st *State, a AV, seen map[AV]bool) []AV {
		a = unwrap(e, a)
		if a == 0 || seen[a] {
			return nil
		}
		seen[a] = true
		if st.marks[a] != "" {
			return []AV{a}
		}
		var out []AV
		for _, x := range inner[a] {
			out = append(out, base(e, st, x, seen)...)
		}
		if f, ok := from[a]; ok && len(out) == 0 {
			n := *e.n(f)
			if n.k == kField {
				i, _ := strconv.Atoi(n.tag)
				if s := structOf(n.typ); s != nil && i < s.NumFields() && s.Field(i).Embedded() {
					out = append(out, base(e, st, n.args[0], seen)...)
				}
			}
		}
		if n := *e.n(a); n.k == kAlloc && len(out) == 0 {
			if s := structOf(n.typ); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					if v, ok := st.mem[e.field(a, i, derefT(n.typ))]; ok {
						out = append(out, base(e, st, v, seen)...)
					}
				}
			}
		}
		return out
	}
	listOf := func(e *Engine, a AV) string {
		l := e.root(a)
		for e.n(l).k == kOp && e.n(l).tag == "slice" {
			l = e.root(e.n(l).args[0])
		}
		return "list" + strconv.Itoa(int(l))
	}
	isElem := func(e *Engine, a AV) string { // list an element was loaded from
		if f, ok := from[unwrap(e, a)]; ok && e.n(f).k == kIndex {
			return listOf(e, e.n(f).args[0])
		}
		return ""
	}
	end := func(e *Engine, st *State, x AV, how, where string) {
		m := st.marks[x]
		switch {
		case m == "open":
			st.marks[x] = how
		default:
			r.bad("twice:"+name+":"+pm.at(e, x), "%s: the stream obtained at %s is %s although it may already be %s; path: %s", where, pm.at(e, x), how, strings.ReplaceAll(m, "|", " or "), st.path())
		}
	}
	reach := func(e *Engine, st *State, vals []AV) map[AV]bool {
		out := map[AV]bool{}
		seen := map[AV]bool{}
		var walk func(a AV)
		walk = func(a AV) {
			a = unwrap(e, a)
			if a == 0 || seen[a] {
				return
			}
			seen[a] = true
			if st.marks[a] != "" {
				out[a] = true
			}
			for _, x := range inner[a] {
				walk(x)
			}
			if n := *e.n(a); n.k == kAlloc || n.k == kTuple || n.k == kClosure || n.k == kOp {
				for _, x := range n.args {
					walk(x)
				}
				for k, v := range st.mem {
					if e.n(k).k != kGlobal && e.root(k) == a {
						walk(v)
					}
				}
			}
		}
		for _, v := range vals {
			walk(v)
		}
		return out
	}
	h := Hooks{}
	h.Prune = func(e *Engine, st *State) {
		for x := range st.marks {
			if e.nilness(st, x) == -1 {
				delete(st.marks, x)
				continue
			}
			if q, ok := errOf[x]; ok && !q.dirty {
				if q.err && e.nilness(st, q.a) == 1 || !q.err && st.facts[q.a] == -1 {
					delete(st.marks, x)
				}
			}
		}
	}
	h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool { return r.inlines(s.fn) }
	h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) {
		if _, ok := from[val]; !ok {
			from[val] = addr
		}
		if e.n(addr).k == kIndex {
			delete(st.flags, "clr:"+listOf(e, e.n(addr).args[0]))
		}
	}
	h.Store = func(e *Engine, st *State, ctx *Ctx, in *ssa.Store, addr, val AV) {
		if e.n(addr).k != kIndex || !isRC(in.Val.Type()) {
			return
		}
		l := listOf(e, e.n(addr).args[0])
		if e.isNil(val) {
			delete(st.flags, "moved:"+l)
			st.flags["clr:"+l] = "1"
			return
		}
		xs := base(e, st, val, map[AV]bool{})
		for _, x := range xs {
			if st.marks[x] == "open" {
				delete(st.marks, x) // now accounted for by the list
				st.flags[l] = "holds"
			}
		}
		if src := isElem(e, val); src != "" && st.flags[src] == "holds" {
			st.flags[l] = "holds"
			if src != l && st.flags["clr:"+src] == "" {
				st.flags["moved:"+src] = "1"
			}
			delete(st.flags, "clr:"+src)
		}
	}
	h.Instr = func(e *Engine, st *State, ctx *Ctx, in ssa.Instruction) {
		var parts []ssa.Value // lists a new slice is made of
		switch x := in.(type) {
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				parts = x.Call.Args
			}
		case *ssa.Slice:
			parts = []ssa.Value{x.X}
		}
		if len(parts) > 0 {
			key := func(v ssa.Value) string { return fmt.Sprintf("app:%d:%s", ctx.id, v.Name()) }
			delete(st.flags, key(in.(ssa.Value)))
			var ls []string
			for _, a := range parts {
				if l := listOf(e, e.eval(st, ctx, a)); st.flags[l] == "holds" {
					ls = append(ls, l)
				}
				if k := st.flags[key(a)]; k != "" {
					ls = append(ls, k)
				}
			}
			if len(ls) > 0 {
				st.flags[key(in.(ssa.Value))] = strings.Join(ls, ",")
			}
			return
		}
		i, ok := in.(*ssa.If)
		if !ok {
			return
		}
		for _, s := range r.sw(ctx.fn) {
			if s.ifi == i && s.full {
				k := fmt.Sprintf("app:%d:%s", ctx.id, s.list.Name())
				for _, l := range strings.Split(st.flags[k], ",") {
					delete(st.flags, l)
				}
				delete(st.flags, k)
				l := listTerm(e, st, ctx, s.list)
				delete(st.flags, listOf(e, l))
				for f := range st.flags {
					if strings.HasPrefix(f, "moved:") {
						r.bad("twice:"+name, "%s: a stream moved from one list to another is still in the first one when both are closed; path: %s", p.ipos(i), st.path())
					}
				}
				// a list built for the purpose
				var walk func(a AV, d int)
				walk = func(a AV, d int) {
					n := *e.n(a)
					if d > 4 || n.k != kOp || n.tag != "app" && n.tag != "spread" && n.tag != "slice" {
						return
					}
					delete(st.flags, listOf(e, a))
					for _, x := range n.args {
						delete(st.flags, listOf(e, x))
						walk(x, d+1)
					}
				}
				walk(l, 0)
			}
		}
	}
	h.Call = func(e *Engine, st *State, s *Site) (AV, bool) {
		if isCloseCall(s.c) && len(s.args) > 0 {
			if v := closeRecv(s.c); v != nil {
				for _, w := range r.sw(s.ctx.fn) {
					if w.loads[v] {
						return 0, false
					}
				}
			}
			for _, x := range base(e, st, s.args[0], map[AV]bool{}) {
				end(e, st, x, "closed", s.pos(e))
			}
		}
		return 0, false
	}
	h.After = func(e *Engine, st *State, s *Site, res AV) {
		sig := s.c.Signature()
		var streams []AV
		for k, a := range s.args {
			t := e.n(unwrap(e, a)).typ
			if k == 0 && s.c.IsInvoke() && isRC(s.c.Value.Type()) {
				continue // a method of the stream itself
			}
			if k == 0 && !s.c.IsInvoke() && sig.Recv() != nil && isRC(sig.Recv().Type()) {
				continue
			}
			_ = t
			streams = append(streams, a)
		}
		if producesRC(sig) && res != 0 {
			i := rcResult(sig)
			x := e.ext(res, i, sig.Results().At(i).Type())
			n := sig.Results().Len() - 1
			if tn := e.nodes[res]; tn.k == kTuple {
				x = tn.args[i]
			}
			st.marks[x] = "open"
			callee := s.c.StaticCallee()
			errOf[x] = partner{e.ext(res, n, sig.Results().At(n).Type()), isErrorType(sig.Results().At(n).Type()), callee != nil && r.dirty[callee]}
			c.count("streams obtained", 1)
			if *debugFlag && r.final {
				c.sample("%s obtains a stream from %s at %s", name, shortName(s.name), s.pos(e))
			}
			return
		}
		if i := rcResult(sig); i >= 0 && res != 0 {
			x := res
			for _, a := range streams {
				if len(base(e, st, a, map[AV]bool{})) > 0 || isElem(e, a) != "" {
					inner[x] = append(inner[x], unwrap(e, a))
				}
			}
			return
		}
		// parked: a pool (an interface of the module) takes the stream
		if s.method() == "Put" && sig.Params().Len() >= 1 {
			for _, a := range streams {
				for _, x := range base(e, st, a, map[AV]bool{}) {
					end(e, st, x, "parked", s.pos(e))
				}
			}
		}
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		h.Prune(e, st)
		ei := errResult(fn.Signature)
		fail := ei >= 0 && e.nilness(st, vals[ei]) == 1
		c.count("exits judged", 1)
		got := reach(e, st, vals)
		for x, m := range st.marks {
			if strings.Contains(m, "open") && !got[x] {
				r.bad("dropped:"+name+":"+pm.at(e, x), "%s: %s drops the stream obtained at %s: it is neither closed, parked nor returned; path: %s", p.ipos(in), name, pm.at(e, x), st.path())
			}
			if got[x] && m != "open" && !fail {
				r.bad("handed:"+name+":"+pm.at(e, x), "%s: %s returns the stream obtained at %s although it is %s; path: %s", p.ipos(in), name, pm.at(e, x), strings.ReplaceAll(m, "|", " or "), st.path())
			}
			if got[x] && fail && strings.Contains(m, "open") {
				if o := fn.Object(); o != nil && o.Exported() {
					r.bad("dropped:"+name+":"+pm.at(e, x), "%s: %s fails but leaves the stream obtained at %s open; path: %s", p.ipos(in), name, pm.at(e, x), st.path())
				} else {
					r.dirty[fn] = true
				}
			}
		}
		if fail {
			for k, v := range st.flags {
				if strings.HasPrefix(k, "list") && v == "holds" {
					r.bad("list:"+name, "%s: %s fails without closing the streams it has already built; path: %s", p.ipos(in), name, st.path())
				}
			}
		}
	}
	e := newEngine(p, h)
	e.K = 24
	e.Run(fn, nil)
}

// ---- stream types

// c09type judges Close of a module type that has closable fields.
func c09type(c *Check, p *Prog, n *types.Named, sw func(*ssa.Function) []*sweep) {
	st := structOf(n)
	if st == nil || types.IsInterface(n) || !isRC(types.NewPointer(n)) {
		return
	}
	var fields []int
	for i := 0; i < st.NumFields(); i++ {
		if closable(st.Field(i).Type()) {
			fields = append(fields, i)
		}
	}
	if len(fields) == 0 {
		return
	}
	tn := n.Obj().Pkg().Name() + "." + n.Obj().Name()
	cl := p.method(n, "Close")
	if cl == nil || cl.Blocks == nil {
		if len(fields) > 1 || !st.Field(fields[0]).Embedded() {
			c.bad("noclose:"+tn, "%s wraps a stream but has no Close of its own", tn)
		}
		return
	}
	c.count("stream types with inputs", 1)
	c.sample("%s closes %d field(s)", tn, len(fields))
	from := map[AV]AV{}
	fieldOf := func(e *Engine, a AV) int {
		for e.n(a).k == kIface || e.n(a).k == kOp && strings.HasPrefix(e.n(a).tag, "ta:") {
			a = e.n(a).args[0]
		}
		f, ok := from[a]
		if !ok || e.n(f).k != kField {
			return -1
		}
		i, _ := strconv.Atoi(e.n(f).tag)
		if !types.Identical(derefT(e.n(f).typ), n) {
			return -1
		}
		for _, k := range fields {
			if k == i {
				return i
			}
		}
		return -1
	}
	h := Hooks{}
	h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool {
		if s.fn.Parent() != nil || s.fn.Signature.Recv() == nil || types.Identical(derefT(s.fn.Signature.Recv().Type()), n) {
			return true
		}
		if s.fn.Pkg != cl.Pkg || producesRC(s.fn.Signature) {
			return false
		}
		for _, x := range s.fn.Params[1:] {
			if isRC(x.Type()) {
				return true // a helper given the stream
			}
		}
		return false
	}
	h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) {
		if _, ok := from[val]; !ok {
			from[val] = addr
		}
	}
	done := func(e *Engine, st *State, i int, how, where string) {
		k := "f" + strconv.Itoa(i)
		if st.flags[k] != "" {
			c.bad("twice:"+tn+":"+n.Underlying().(*types.Struct).Field(i).Name(), "%s: closing %s closes or parks its %s a second time; path: %s", where, tn, n.Underlying().(*types.Struct).Field(i).Name(), st.path())
		}
		st.flags[k] = how
	}
	h.Instr = func(e *Engine, st *State, ctx *Ctx, in ssa.Instruction) {
		i, ok := in.(*ssa.If)
		if !ok {
			return
		}
		for _, w := range sw(ctx.fn) {
			k := fmt.Sprintf("swept:%d:%d", ctx.id, i.Block().Index)
			if w.ifi != i || !w.full || st.flags[k] != "" {
				continue
			}
			st.flags[k] = "1"
			l := listTerm(e, st, ctx, w.list)
			el := e.elems(st, l)
			if n := e.n(l); n.k == kOp && n.tag == "app" {
				el = n.args
			}
			for _, x := range el {
				if j := fieldOf(e, x); j >= 0 {
					done(e, st, j, "closed", p.ipos(i))
				}
			}
		}
	}
	h.Call = func(e *Engine, st *State, s *Site) (AV, bool) {
		if isCloseCall(s.c) && len(s.args) > 0 {
			if v := closeRecv(s.c); v != nil {
				for _, w := range sw(s.ctx.fn) {
					if w.loads[v] {
						return 0, false
					}
				}
			}
			if i := fieldOf(e, s.args[0]); i >= 0 {
				done(e, st, i, "closed", s.pos(e))
			}
			return 0, false
		}
		if s.method() == "Put" && s.c.IsInvoke() {
			for _, a := range s.args[1:] {
				if i := fieldOf(e, a); i >= 0 {
					done(e, st, i, "parked", s.pos(e))
				}
			}
		}
		return 0, false
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		c.count("exits of Close judged", 1)
		ei := errResult(cl.Signature)
		fail := ei >= 0 && e.nilness(st, vals[ei]) == 1
		some, nils := false, false
		recv := e.param(ctx, 0)
		cleared := func(i int) bool {
			v, ok := st.mem[e.field(recv, i, n)]
			return ok && e.nilness(st, v) == -1
		}
		isNil := map[int]bool{}
		for a, f := range st.facts {
			if i := fieldOf(e, a); i >= 0 && f == -1 {
				isNil[i] = true
			}
		}
		for _, i := range fields {
			if st.flags["f"+strconv.Itoa(i)] != "" {
				some = true
			} else if isNil[i] {
				nils = true
			}
		}
		for _, i := range fields {
			fn := n.Underlying().(*types.Struct).Field(i).Name()
			f := st.flags["f"+strconv.Itoa(i)]
			switch {
			case f == "parked" && !cleared(i):
				c.bad("parkedkept:"+tn, "%s: %s still refers to its stream after handing it to the pool; path: %s", p.ipos(in), tn, st.path())
			case f == "" && some && !isNil[i]:
				c.bad("unclosed:"+tn+":"+fn, "%s: closing %s leaves its input %s open; path: %s", p.ipos(in), tn, fn, st.path())
			case f == "" && !some && !nils && !fail:
				c.bad("unclosed:"+tn+":"+fn, "%s: closing %s can succeed without closing its input %s; path: %s", p.ipos(in), tn, fn, st.path())
			case f == "" && cleared(i) && !isNil[i]:
				c.bad("forgotten:"+tn+":"+fn, "%s: closing %s forgets its input %s without closing it; path: %s", p.ipos(in), tn, fn, st.path())
			}
		}
	}
	e := newEngine(p, h)
	e.Run(cl, nil)
}

// ---- constructors

func c09ctor(c *Check, p *Prog, fn *ssa.Function) {
	if fn.Blocks == nil || len(fn.Params) == 0 || !p.inModule(fn) {
		return
	}
	li := -1
	for i, x := range fn.Params {
		if isRCList(x.Type()) {
			li = i
		}
	}
	if li < 0 {
		return
	}
	c.count("constructors judged", 1)
	from := map[AV]AV{}
	inner := map[AV][]AV{}
	name := p.fname(fn)
	h := Hooks{}
	h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool {
		return s.fn.Parent() != nil || s.fn.Pkg == fn.Pkg && s.fn.Signature.Recv() == nil
	}
	h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) {
		if _, ok := from[val]; !ok {
			from[val] = addr
		}
	}
	h.After = func(e *Engine, st *State, s *Site, res AV) {
		if res == 0 {
			return
		}
		sig := s.c.Signature()
		if sig.Results().Len() == 1 && closable(sig.Results().At(0).Type()) {
			inner[res] = append(inner[res], s.args...)
		}
	}
	h.Assume = func(e *Engine, st *State, cond AV, truth bool) {
		m := *e.n(cond)
		if !truth || m.k != kOp || m.tag != "==" {
			return
		}
		for k, x := range m.args {
			q := *e.n(x)
			if v := e.constOf(m.args[1-k]); v != nil && q.k == kOp && q.tag == "len" && q.args[0] == e.sym(e.root0(fn), fn.Params[li], "") {
				st.flags["arity"] = v.ExactString()
			}
		}
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		ei := errResult(fn.Signature)
		if ei >= 0 && e.nilness(st, vals[ei]) == 1 {
			return
		}
		list := e.param(ctx, li)
		n := int64(-1)
		if v, ok := st.flags["arity"]; ok {
			n, _ = strconv.ParseInt(v, 10, 64)
		}
		if n < 1 {
			c.bad("arity:"+name, "%s: %s returns a stream without having checked how many input streams it was given; path: %s", p.ipos(in), name, st.path())
			return
		}
		// inputs held in closable fields
		held := map[int64]int{}
		var inputs func(a AV, seen map[AV]bool) map[int64]bool
		inputs = func(a AV, seen map[AV]bool) map[int64]bool {
			out := map[int64]bool{}
			for e.n(a).k == kIface || e.n(a).k == kOp && strings.HasPrefix(e.n(a).tag, "ta:") {
				a = e.n(a).args[0]
			}
			if seen[a] {
				return out
			}
			seen[a] = true
			if f, ok := from[a]; ok && e.n(f).k == kIndex && e.n(f).args[0] == list {
				k := int64(-1)
				if v := e.constOf(e.n(f).args[1]); v != nil {
					fmt.Sscan(v.ExactString(), &k)
				}
				out[k] = true
			}
			for _, x := range inner[a] {
				for k := range inputs(x, seen) {
					out[k] = true
				}
			}
			return out
		}
		x := vals[0]
		for e.n(x).k == kIface {
			x = e.n(x).args[0]
		}
		for k := range inputs(x, map[AV]bool{}) {
			held[k]++
		}
		if s := structOf(e.n(x).typ); s != nil && e.n(x).k == kAlloc {
			// wrappers the module built itself count through their own fields
			var walk func(obj AV, d int)
			walk = func(obj AV, d int) {
				s := structOf(e.n(obj).typ)
				if s == nil || d > 3 {
					return
				}
				pooled := map[int64]bool{}
				for i := 0; i < s.NumFields(); i++ {
					v, ok := st.mem[e.field(obj, i, derefT(e.n(obj).typ))]
					if !ok || !closable(s.Field(i).Type()) {
						continue
					}
					w := v
					for e.n(w).k == kIface {
						w = e.n(w).args[0]
					}
					if e.n(w).k == kAlloc {
						walk(w, d+1)
						continue
					}
					direct := true
					if len(inner[w]) > 0 && e.n(w).typ != nil && !moduleWrap(p, e, w) {
						direct = false // a library decoder over the input
					}
					for k := range inputs(v, map[AV]bool{}) {
						if direct {
							held[k]++
						} else {
							pooled[k] = true
						}
					}
				}
				_ = pooled
			}
			walk(x, 0)
		}
		for k := int64(0); k < n; k++ {
			switch {
			case held[k] == 0 && held[-1] == 0:
				c.bad(fmt.Sprintf("input:%s:%d", name, k), "%s: the stream %s returns does not hold its input %d in a field that Close closes; path: %s", p.ipos(in), name, k, st.path())
			case held[k] > 1:
				c.bad(fmt.Sprintf("input2:%s:%d", name, k), "%s: the stream %s returns holds its input %d in more than one field that Close closes; path: %s", p.ipos(in), name, k, st.path())
			}
		}
		c.count("constructor exits judged", 1)
	}
	e := newEngine(p, h)
	e.Run(fn, nil)
}

// moduleWrap: the wrapper was made by a function of this module.
func moduleWrap(p *Prog, e *Engine, a AV) bool {
	if cl, ok := e.n(a).v.(*ssa.Call); ok {
		f := cl.Call.StaticCallee()
		return f != nil && p.inModule(f)
	}
	return false
}

// ---- the pool

func c09pool(c *Check, p *Prog) {
	for _, n := range p.pkgTypes() {
		if types.IsInterface(n) {
			continue
		}
		get, put := p.method(n, "Get"), p.method(n, "Put")
		if get == nil || put == nil || get.Blocks == nil || put.Blocks == nil {
			continue
		}
		if rcResult(get.Signature) < 0 {
			continue
		}
		c.sample("pool type %s", n.Obj().Name())
		inserted := c09poolFn(c, p, n, put, nil)
		c09poolFn(c, p, n, get, inserted)
		for _, m := range []string{"Close", "Purge", "Clear"} {
			if f := p.method(n, m); f != nil && f.Blocks != nil {
				c09poolFn(c, p, n, f, inserted)
			}
		}
	}
}

func c09poolFn(c *Check, p *Prog, n *types.Named, fn *ssa.Function, want map[string]bool) map[string]bool {
	c.count("pool operations judged", 1)
	name := p.fname(fn)
	from := map[AV]AV{}
	also := map[AV][]AV{}      // further addresses read by the same load
	keyOf := map[AV][2]AV{}    // looked up element -> map, key
	okOf := map[AV][2]AV{}     // ok flag -> map, key
	elemHolds := map[AV]bool{} // list elements that hold the stream
	inserted := map[string]bool{}
	type exitIns struct {
		n   int
		msg string
	}
	var partial []exitIns
	strip := func(e *Engine, a AV) AV {
		for e.n(a).k == kIface || e.n(a).k == kOp && (strings.HasPrefix(e.n(a).tag, "ta:") || strings.HasPrefix(e.n(a).tag, "conv")) {
			a = e.n(a).args[0]
		}
		return a
	}
	cont := func(e *Engine, a AV) string { // container field name
		f, ok := from[a]
		if !ok || e.n(f).k != kField || !types.Identical(derefT(e.n(f).typ), n) {
			return ""
		}
		i, _ := strconv.Atoi(e.n(f).tag)
		return fieldName(e.n(f).typ, i)
	}
	// within: does v come out of element el?
	var within func(e *Engine, v, el AV, d int) bool
	within = func(e *Engine, v, el AV, d int) bool {
		v = strip(e, v)
		if v == el {
			return true
		}
		if d > 12 {
			return false
		}
		n := *e.n(v)
		if f, ok := from[v]; ok && within(e, f, el, d+1) {
			return true
		}
		for _, f := range also[v] {
			if within(e, f, el, d+1) {
				return true
			}
		}
		switch n.k {
		case kField, kIndex:
			return within(e, n.args[0], el, d+1)
		case kOp:
			if strings.HasPrefix(n.tag, "ext") || strings.HasPrefix(n.tag, "fld") {
				return within(e, n.args[0], el, d+1)
			}
		}
		return false
	}
	h := Hooks{}
	h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool {
		return s.fn.Parent() != nil || s.fn.Pkg == fn.Pkg
	}
	h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) {
		if f, ok := from[val]; !ok {
			from[val] = addr
		} else if f != addr && len(also[val]) < 8 {
			also[val] = append(also[val], addr)
		}
	}
	put := func(st *State, k, v string) {
		for _, x := range strings.Split(st.flags[k], ",") {
			if x == v {
				return
			}
		}
		parts := []string{v}
		if st.flags[k] != "" {
			parts = append(parts, strings.Split(st.flags[k], ",")...)
		}
		sort.Strings(parts)
		st.flags[k] = strings.Join(parts, ",")
	}
	h.Instr = func(e *Engine, st *State, ctx *Ctx, in ssa.Instruction) {
		if mu, ok := in.(*ssa.MapUpdate); ok {
			m, k := e.eval(st, ctx, mu.Map), e.eval(st, ctx, mu.Key)
			f := cont(e, m)
			if f == "" {
				return
			}
			v := strip(e, e.eval(st, ctx, mu.Value))
			for _, x := range fn.Params[1:] {
				if isRC(x.Type()) {
					a := st.env[Val{e.root0(fn), x}]
					if a == 0 {
						a = e.sym(e.root0(fn), x, "")
					}
					if holdsAV(e, st, v, a, 0) || elemHolds[v] {
						put(st, "ins", f)
						inserted[f] = true
					}
				}
			}
			// the key must be known to be free
			free := false
			for _, x := range strings.Split(st.flags["free:"+f], ",") {
				free = free || x == fmt.Sprint(k)
			}
			if !free && !strings.Contains(st.flags["del:"+f], fmt.Sprint(k)) {
				c.bad("overwrite:"+name, "%s: %s may overwrite a parked stream under the same key, which is then neither closed nor found again; path: %s", p.ipos(in), name, st.path())
			}
		}
	}
	h.Assume = func(e *Engine, st *State, cond AV, truth bool) {
		if mk, ok := okOf[cond]; ok && !truth {
			if f := cont(e, mk[0]); f != "" {
				put(st, "free:"+f, fmt.Sprint(mk[1]))
			}
		}
		m := *e.n(cond)
		if m.k == kOp && m.tag == "==" && truth {
			for k, x := range m.args {
				if mk, ok := keyOf[x]; ok && e.isNil(m.args[1-k]) {
					if f := cont(e, mk[0]); f != "" {
						put(st, "free:"+f, fmt.Sprint(mk[1]))
					}
				}
			}
		}
	}
	h.Call = func(e *Engine, st *State, s *Site) (AV, bool) {
		if b, ok := s.c.Value.(*ssa.Builtin); ok {
			if b.Name() == "delete" {
				if f := cont(e, s.args[0]); f != "" {
					put(st, "del:"+f, fmt.Sprint(s.args[1]))
					put(st, "delkeys", fmt.Sprint(s.args[1]))
				}
			}
			return 0, false
		}
		if isCloseCall(s.c) && len(s.args) > 0 {
			put(st, "closed", fmt.Sprint(strip(e, s.args[0])))
		}
		return 0, false
	}
	h.After = func(e *Engine, st *State, s *Site, res AV) {
		switch {
		case s.name == "(*container/list.List).Remove":
			if f := cont(e, s.args[0]); f != "" {
				put(st, "rem", fmt.Sprint(s.args[1])+"@"+f)
			}
		case strings.HasPrefix(s.name, "(*container/list.List).Push"), strings.HasPrefix(s.name, "(*container/list.List).Insert"):
			f := cont(e, s.args[0])
			if f == "" || len(s.args) < 2 {
				return
			}
			v := strip(e, s.args[1])
			for _, x := range fn.Params[1:] {
				if isRC(x.Type()) && holdsAV(e, st, v, e.sym(e.root0(fn), x, ""), 0) {
					put(st, "ins", f)
					inserted[f] = true
					if res != 0 {
						elemHolds[res] = true
					}
				}
			}
		}
	}
	// lookups are seen when their result is extracted
	inst := h.Instr
	h.Instr = func(e *Engine, st *State, ctx *Ctx, in ssa.Instruction) {
		inst(e, st, ctx, in)
		switch x := in.(type) {
		case *ssa.Extract:
			if l, ok := x.Tuple.(*ssa.Lookup); ok {
				t := e.eval(st, ctx, x.Tuple)
				mk := [2]AV{e.eval(st, ctx, l.X), e.eval(st, ctx, l.Index)}
				if x.Index == 0 {
					keyOf[e.ext(t, 0, x.Type())] = mk
				} else {
					okOf[e.ext(t, 1, x.Type())] = mk
				}
			}
		case *ssa.UnOp, *ssa.BinOp:
			for _, o := range in.Operands(nil) {
				if l, ok := (*o).(*ssa.Lookup); ok && !l.CommaOk {
					keyOf[e.eval(st, ctx, l)] = [2]AV{e.eval(st, ctx, l.X), e.eval(st, ctx, l.Index)}
				}
			}
		}
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		c.count("pool exits judged", 1)
		split := func(s string) []string {
			if s == "" {
				return nil
			}
			return strings.Split(s, ",")
		}
		av := func(s string) AV { i, _ := strconv.Atoi(s); return AV(i) }
		closed := split(st.flags["closed"])
		// removed elements
		ri := rcResult(fn.Signature)
		var ret AV
		if ri >= 0 && e.nilness(st, vals[ri]) != -1 {
			ret = vals[ri]
		}
		remElems := map[AV]map[string]bool{}
		for _, x := range split(st.flags["rem"]) {
			q := strings.SplitN(x, "@", 2)
			a := av(q[0])
			if remElems[a] == nil {
				remElems[a] = map[string]bool{}
			}
			remElems[a][q[1]] = true
		}
		// map-only pools: deleted keys
		deleted := map[string][]AV{}
		for k, v := range st.flags {
			if strings.HasPrefix(k, "del:") {
				for _, x := range split(v) {
					deleted[k[4:]] = append(deleted[k[4:]], av(x))
				}
			}
		}
		outOf := func(el AV) map[string]bool { // containers el was taken out of
			m := map[string]bool{}
			for f := range remElems[el] {
				m[f] = true
			}
			for f, ks := range deleted {
				for _, k := range ks {
					if within(e, k, el, 0) {
						m[f] = true
					}
					if mk, ok := keyOf[el]; ok && mk[1] == k && cont(e, mk[0]) == f {
						m[f] = true
					}
					// a value looked up without ok
					if l, ok := e.n(el).v.(*ssa.Lookup); ok {
						_ = l
						if mk, ok := keyOf[el]; ok && mk[1] == k {
							m[f] = true
						}
					}
				}
			}
			return m
		}
		for el := range remElems {
			retd := ret != 0 && within(e, ret, el, 0)
			cl := false
			for _, x := range closed {
				if within(e, av(x), el, 0) {
					cl = true
				}
			}
			switch {
			case retd && cl:
				c.bad("both:"+name, "%s: %s closes the parked stream it hands out; path: %s", p.ipos(in), name, st.path())
			case !retd && !cl && e.nilness(st, el) != -1:
				c.bad("evicted:"+name, "%s: %s removes a parked stream without closing it or handing it out; path: %s", p.ipos(in), name, st.path())
			}
			for f := range want {
				if !outOf(el)[f] {
					c.bad("still:"+name+":"+f, "%s: %s takes a parked stream out of the pool but leaves it in %s; path: %s", p.ipos(in), name, f, st.path())
				}
			}
		}
		if ret != 0 {
			c.count("hand-outs judged", 1)
			ok := len(want) == 0
			// find the element the stream comes from
			cands := map[AV]bool{}
			for el := range remElems {
				cands[el] = true
			}
			for el := range keyOf {
				cands[el] = true
			}
			for el := range cands {
				if !within(e, ret, el, 0) {
					continue
				}
				all := true
				for f := range want {
					if !outOf(el)[f] {
						all = false
					}
				}
				if all {
					ok = true
				}
			}
			if !ok {
				c.bad("shared:"+name, "%s: %s hands out a parked stream that stays in the pool, so it can be handed out again; path: %s", p.ipos(in), name, st.path())
			}
		}
		// the stream given to Put
		for _, x := range fn.Params[1:] {
			if !isRC(x.Type()) {
				continue
			}
			a := e.sym(e.root0(fn), x, "")
			cl := false
			for _, q := range closed {
				if av(q) == a {
					cl = true
				}
			}
			ins := len(split(st.flags["ins"]))
			switch {
			case cl && ins > 0:
				c.bad("both:"+name, "%s: %s parks a stream it has closed; path: %s", p.ipos(in), name, st.path())
			case !cl && ins == 0:
				c.bad("lost:"+name, "%s: %s neither parks nor closes the stream it is given; path: %s", p.ipos(in), name, st.path())
			case ins > 0 && !cl:
				partial = append(partial, exitIns{ins, fmt.Sprintf("%s: %s inserts the stream into some of its containers only; path: %s", p.ipos(in), name, st.path())})
			}
		}
	}
	e := newEngine(p, h)
	e.K = 32
	e.Run(fn, nil)
	for _, x := range partial {
		if x.n != len(inserted) {
			c.bad("partial:"+name, "%s", x.msg)
		}
	}
	return inserted
}

// holdsAV: v is a, or an object with a field holding a.
func holdsAV(e *Engine, st *State, v, a AV, d int) bool {
	for e.n(v).k == kIface {
		v = e.n(v).args[0]
	}
	if v == a {
		return true
	}
	if d > 3 || e.n(v).k != kAlloc {
		return false
	}
	for k, w := range st.mem {
		if e.root(k) == v && holdsAV(e, st, w, a, d+1) {
			return true
		}
	}
	return false
}
