package main

// C08: volume files are all released. Typestate of every file opened while an
// archive is opened by name (open, closed, owned by the result), over all paths
// of the functions that open files, helpers inlined. A list is released by a
// sweep (see sweep.go): a loop that closes each element and cannot be left early.

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C08"] = c08 }

// isFileT: a file handle: can be examined, read at offsets and closed.
func isFileT(t types.Type) bool {
	ms := types.NewMethodSet(t)
	return ms.Lookup(nil, "Close") != nil && ms.Lookup(nil, "Stat") != nil && ms.Lookup(nil, "ReadAt") != nil
}

func isFileList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isFileT(s.Elem())
}

// opensFile: a library call that returns a new file handle.
func opensFile(p *Prog, c *ssa.CallCommon) bool {
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return false
	}
	r := c.Signature().Results()
	if r.Len() != 2 || !isFileT(r.At(0).Type()) || !isErrorType(r.At(1).Type()) {
		return false
	}
	f := c.StaticCallee()
	return f == nil || !p.inModule(f)
}

func c08(c *Check) {
	p := c.P
	c.rule("typestate: every file opened by a library call is, at every exit of the outermost function that opens volumes, closed exactly once (failure) or stored in the returned object's file list and still open (success)")
	c.rule("a list of files is released only by a loop that closes each element on every iteration and has no exit but its range end")
	c.rule("Close of the type that owns the file list runs such a loop over that list on every path")
	opens := fileOpeners(p)
	// helpers that handle files on behalf of an opener
	helper := func(fn *ssa.Function) bool {
		if opens[fn] || fn.Parent() != nil {
			return true
		}
		for _, x := range fn.Params {
			t := x.Type()
			if isFileT(t) || isFileList(t) {
				return true
			}
			if s := structOf(t); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					if isFileList(s.Field(i).Type()) && fn.Name() != "init" {
						return touchesList(fn)
					}
				}
			}
			if s, ok := t.Underlying().(*types.Slice); ok {
				if ms := types.NewMethodSet(s.Elem()); ms.Lookup(nil, "Close") != nil {
					return true
				}
			}
			if _, ok := t.Underlying().(*types.Interface); ok && types.NewMethodSet(t).Lookup(nil, "Close") != nil {
				return true
			}
		}
		return false
	}
	swCache := map[*ssa.Function][]*sweep{}
	sw := func(fn *ssa.Function) []*sweep {
		if s, ok := swCache[fn]; ok {
			return s
		}
		swCache[fn] = sweeps(fn)
		return swCache[fn]
	}
	var roots []*ssa.Function
	for _, fn := range p.funcs {
		if !opens[fn] || fn.Parent() != nil {
			continue
		}
		if fn.Object() != nil && fn.Object().Exported() {
			roots = append(roots, fn)
			continue
		}
		called := false
		for _, cs := range p.cg().callers[fn] {
			if opens[cs.caller] {
				called = true
			}
		}
		if !called {
			roots = append(roots, fn)
		}
	}
	for _, fn := range roots {
		c08root(c, p, fn, helper, sw)
	}
	c.need("files opened", 2)
	c.need("exits judged", 4)
	// owners
	owners := 0
	for _, n := range p.pkgTypes() {
		st := structOf(n)
		if st == nil {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if !isFileList(st.Field(i).Type()) {
				continue
			}
			owners++
			c.count("owning types", 1)
			cl := p.method(n, "Close")
			if cl == nil || cl.Blocks == nil {
				c.bad("owner:"+n.Obj().Name(), "type %s owns a list of files but has no Close method", n.Obj().Name())
				continue
			}
			c08close(c, p, n, i, cl, sw)
		}
	}
	c.need("owning types", 1)
}

// touchesList: fn closes something itself.
func touchesList(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && isCloseCall(ci.Common()) {
				return true
			}
		}
	}
	return false
}

func c08root(c *Check, p *Prog, fn *ssa.Function, helper func(*ssa.Function) bool, sw func(*ssa.Function) []*sweep) {
	from := map[AV]AV{}  // loaded value -> address
	errOf := map[AV]AV{} // file -> its open error
	opened := posMap{p: p}
	name := p.fname(fn)
	unwrap := func(e *Engine, a AV) AV {
		for e.n(a).k == kIface || e.n(a).k == kOp && (strings.HasPrefix(e.n(a).tag, "ta:") || e.n(a).tag == "conv") {
			a = e.n(a).args[0]
		}
		return a
	}
	bounded := func(e *Engine, n *node) bool { // part of a list only
		for k, x := range n.args {
			if k == 0 || k == 3 {
				continue
			}
			v := e.constOf(x)
			if k == 1 && v != nil && v.ExactString() == "0" || e.n(x).k == kConst && v == nil || e.isNil(x) {
				continue
			}
			if m := e.n(x); k == 2 && m.k == kOp && m.tag == "len" {
				continue
			}
			if e.str(x) == "_" {
				continue
			}
			return true
		}
		return false
	}
	// members lists the tracked files a list term contains
	var members func(e *Engine, st *State, a AV, seen map[AV]bool) []AV
	members = func(e *Engine, st *State, a AV, seen map[AV]bool) []AV {
		if a == 0 || seen[a] {
			return nil
		}
		seen[a] = true
		if x := unwrap(e, a); st.marks[x] != "" {
			return []AV{x}
		}
		n := *e.n(a)
		var out []AV
		switch {
		case n.k == kOp && n.tag == "app", n.k == kOp && n.tag == "spread":
			for _, x := range n.args {
				out = append(out, members(e, st, x, seen)...)
			}
		case n.k == kOp && n.tag == "slice":
			r := n.args[0]
			if bounded(e, &n) {
				return nil
			}
			for k, v := range st.mem {
				if m := e.n(k); m.k == kIndex && m.args[0] == r {
					out = append(out, members(e, st, v, seen)...)
				}
			}
			if e.n(r).k != kAlloc {
				out = append(out, members(e, st, r, seen)...)
			}
		case n.k == kAlloc:
			for k, v := range st.mem {
				if m := e.n(k); m.k == kIndex && m.args[0] == a {
					out = append(out, members(e, st, v, seen)...)
				}
			}
		}
		return out
	}
	closeOne := func(e *Engine, st *State, f AV, at, where string) {
		m := st.marks[f]
		switch {
		case m == "open":
			st.marks[f] = "closed"
			c.count("closing sites reached", 1)
		case strings.HasPrefix(m, "closed"):
			c.bad("twice:"+name+":"+opened.at(e, f), "%s: the file opened at %s is closed a second time; path: %s", where, opened.at(e, f), st.path())
		case strings.Contains(m, "|"):
			// several files opened by one call site: some closed already
			c.bad("twice:"+name+":"+opened.at(e, f), "%s: a file opened at %s may be closed a second time; path: %s", where, opened.at(e, f), st.path())
		}
		_ = at
	}
	h := Hooks{}
	h.Prune = func(e *Engine, st *State) {
		for f := range st.marks {
			if er := errOf[f]; er != 0 && e.nilness(st, er) == 1 {
				delete(st.marks, f) // not opened at all
			}
		}
	}
	h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool { return helper(s.fn) }
	h.After = func(e *Engine, st *State, s *Site, res AV) {
		if !opensFile(p, s.c) || res == 0 {
			return
		}
		f := e.ext(res, 0, s.c.Signature().Results().At(0).Type())
		st.marks[f] = "open"
		errOf[f] = e.ext(res, 1, s.c.Signature().Results().At(1).Type())
		c.count("files opened", 1)
	}
	h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) {
		if _, ok := from[val]; !ok {
			from[val] = addr
		}
	}
	h.Instr = func(e *Engine, st *State, ctx *Ctx, in ssa.Instruction) {
		i, ok := in.(*ssa.If)
		if !ok {
			return
		}
		for _, s := range sw(ctx.fn) {
			if s.ifi != i || !s.full {
				continue
			}
			key := "sweep" + strconv.Itoa(ctx.id) + "." + strconv.Itoa(i.Block().Index)
			if st.flags[key] != "" {
				return // further iterations of the same loop
			}
			st.flags[key] = "1"
			l := listTerm(e, st, ctx, s.list)
			c.count("sweeps applied", 1)
			for _, f := range members(e, st, l, map[AV]bool{}) {
				closeOne(e, st, f, "", p.ipos(i))
			}
		}
	}
	h.Call = func(e *Engine, st *State, s *Site) (AV, bool) {
		if !isCloseCall(s.c) || len(s.args) == 0 {
			return 0, false
		}
		if s.fn != nil && helper(s.fn) && p.inModule(s.fn) {
			return 0, false
		}
		if v := closeRecv(s.c); v != nil {
			for _, w := range sw(s.ctx.fn) {
				if w.loads[v] {
					return 0, false // accounted for at the loop
				}
			}
		}
		x := unwrap(e, s.args[0])
		if st.marks[x] != "" {
			closeOne(e, st, x, "", s.pos(e))
			return 0, false
		}
		return 0, false
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		h.Prune(e, st)
		ei := errResult(fn.Signature)
		fail := ei >= 0 && e.nilness(st, vals[ei]) == 1
		ok := ei >= 0 && e.nilness(st, vals[ei]) == -1
		c.count("exits judged", 1)
		owned := map[AV]bool{}
		if !fail {
			// file lists reachable from the results
			for _, v := range vals {
				x := unwrap(e, v)
				for k, w := range st.mem {
					if e.n(k).k == kField && e.root(k) == x {
						for _, f := range members(e, st, w, map[AV]bool{}) {
							owned[f] = true
						}
					}
				}
				for _, f := range members(e, st, v, map[AV]bool{}) {
					owned[f] = true
				}
			}
		}
		for f, m := range st.marks {
			switch {
			case fail && strings.Contains(m, "open"):
				c.bad("leak:"+name+":"+opened.at(e, f), "%s: %s fails but the file opened at %s has not been closed; path: %s", p.ipos(in), name, opened.at(e, f), st.path())
			case !fail && strings.Contains(m, "closed"):
				c.bad("closed:"+name+":"+opened.at(e, f), "%s: %s succeeds although the file opened at %s has been closed; path: %s", p.ipos(in), name, opened.at(e, f), st.path())
			case !fail && !owned[f] && ok:
				c.bad("unowned:"+name+":"+opened.at(e, f), "%s: %s succeeds but the file opened at %s is not in the list the result closes; path: %s", p.ipos(in), name, opened.at(e, f), st.path())
			case !fail && !owned[f]:
				c.bad("undecided:"+name+":"+opened.at(e, f), "%s: at an exit of %s of unknown outcome the file opened at %s is neither closed nor owned by the result; path: %s", p.ipos(in), name, opened.at(e, f), st.path())
			}
		}
	}
	e := newEngine(p, h)
	e.K = 40
	e.Run(fn, nil)
}

type posMap struct{ p *Prog }

// at names the call a tracked value came from.
func (m posMap) at(e *Engine, a AV) string {
	for {
		n := e.n(a)
		if in, ok := n.v.(ssa.Instruction); ok {
			return m.p.ipos(in)
		}
		if len(n.args) == 0 {
			return "an earlier iteration"
		}
		a = n.args[0]
	}
}

// c08close: Close runs a complete sweep over the owned list on every path.
func c08close(c *Check, p *Prog, n *types.Named, field int, cl *ssa.Function, sw func(*ssa.Function) []*sweep) {
	tn := n.Obj().Name()
	stored := map[string]bool{}
	for _, b := range cl.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					stored[fieldName(fa.X.Type(), fa.Field)] = true
				}
			}
		}
	}
	isList := func(e *Engine, a AV, from map[AV]AV) bool {
		f, ok := from[a]
		if !ok {
			return false
		}
		m := e.n(f)
		i, _ := strconv.Atoi(m.tag)
		return m.k == kField && i == field && types.Identical(derefT(m.typ), n)
	}
	from := map[AV]AV{}
	h := Hooks{}
	h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool { return true }
	h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) { from[val] = addr }
	h.Instr = func(e *Engine, st *State, ctx *Ctx, in ssa.Instruction) {
		i, ok := in.(*ssa.If)
		if !ok {
			return
		}
		for _, s := range sw(ctx.fn) {
			if s.ifi != i {
				continue
			}
			if !isList(e, listTerm(e, st, ctx, s.list), from) {
				continue
			}
			if !s.full {
				c.bad("sweep:"+tn, "%s: closing %s: %s, so some volume files stay open", p.ipos(i), tn, s.why)
				continue
			}
			key := strconv.Itoa(ctx.id) + "." + strconv.Itoa(i.Block().Index)
			if st.flags["by"] == "" {
				st.flags["by"] = key
			} else if st.flags["by"] != key {
				c.bad("twice:"+tn, "%s: closing %s closes every volume file twice; path: %s", p.ipos(i), tn, st.path())
			}
			st.flags["swept"] = "1"
		}
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		c.count("exits of Close judged", 1)
		if st.flags["swept"] != "" {
			return
		}
		// already closed, as recorded in a field Close itself sets; or nothing to close
		for a, f := range st.facts {
			n := e.n(a)
			if n.k == kOp && (n.tag == "==" || n.tag == "<") {
				continue
			}
			if src, ok := from[a]; ok && e.n(src).k == kField {
				i, _ := strconv.Atoi(e.n(src).tag)
				nm := fieldName(e.n(src).typ, i)
				if f == 1 && stored[nm] || f == -1 && isList(e, a, from) {
					return
				}
			}
		}
		for a, f := range st.facts {
			n := e.n(a)
			if f == 1 && n.k == kOp && n.tag == "==" {
				for k, x := range n.args {
					m := e.n(x)
					if v := e.constOf(n.args[1-k]); v != nil && v.ExactString() == "0" && m.k == kOp && m.tag == "len" && isList(e, m.args[0], from) {
						return
					}
				}
			}
		}
		c.bad("unswept:"+tn, "%s: closing %s can finish without closing every volume file; path: %s", p.ipos(in), tn, st.path())
	}
	e := newEngine(p, h)
	e.Run(cl, nil)
}

// fileOpeners: functions that open files, or call one that does.
func fileOpeners(p *Prog) map[*ssa.Function]bool {
	opens := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, fn := range p.funcs {
			if opens[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						cc := ci.Common()
						if opensFile(p, cc) || cc.StaticCallee() != nil && opens[cc.StaticCallee()] {
							opens[fn] = true
							ch = true
						}
					}
					if mc, ok := in.(*ssa.MakeClosure); ok && opens[mc.Fn.(*ssa.Function)] && !opens[fn] {
						opens[fn] = true
						ch = true
					}
				}
			}
		}
	}
	return opens
}

// listTerm evaluates a slice value at a loop that only uses it through its length
// or a captured variable.
func listTerm(e *Engine, st *State, ctx *Ctx, v ssa.Value) AV {
	if a, ok := st.env[Val{ctx, v}]; ok {
		return a
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		var addr AV
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			if a, ok := st.env[Val{ctx, fa}]; ok {
				addr = a
			} else {
				addr = e.field(e.eval(st, ctx, fa.X), fa.Field, derefT(fa.X.Type()))
			}
		} else {
			addr = e.eval(st, ctx, u.X)
		}
		if a, ok := st.mem[addr]; ok {
			return a
		}
	}
	return e.eval(st, ctx, v)
}
