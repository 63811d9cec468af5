package main

// C26: listings. The list is sorted by directory and element, lookups search by
// the same order, every name is in it once together with the directories above
// it, and ReadDir walks over a directory's part of it.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C26"] = c26 }

func c26(c *Check) {
	p := c.P
	c.rule("every path on which entries are added to the list sorts it afterwards; the comparison orders by directory and then element (decided for every outcome of comparing the two)")
	c.rule("each search over the list looks for the first entry at, or after, a directory or a directory and element, by that order; a lookup returns an entry only if its name is the one looked for, a directory's part of the list is bounded by the searches for its first entry and for the first one after it")
	c.rule("an entry is added only under a name found missing in everything that records the names added before, and is then recorded")
	c.rule("every directory above an added name is recorded, and every recorded directory without an entry gets one")
	c.rule("ReadDir returns entries from its position on, moves it by exactly as many, leaves it alone when it fails, and reports the end only when nothing remains and a count was given")
	l := p.fsList()
	if l.t == nil || l.name < 0 {
		c.bad("missing", "the list of entries behind the file system view was not found")
		return
	}
	l.walk()
	for _, k := range []string{"sorted", "unique", "parents"} {
		l.report(c, k)
	}
	for k, n := range l.count {
		if k != "entries not judged" || n > 0 {
			c.count(k, n)
		}
	}
	o := &listOrder{c: c, p: p, l: l, srch: map[ssa.CallInstruction]*cut{}}
	for _, fn := range p.funcs {
		if fn.Blocks == nil || fn.Pkg == nil || fn.Pkg.Pkg.Path() != modPath {
			continue
		}
		o.sorts(fn)
	}
	for _, fn := range p.funcs {
		if fn.Blocks != nil && fn.Pkg != nil && fn.Pkg.Pkg.Path() == modPath && anyInstr(fn, func(in ssa.Instruction) bool { return o.search(in) != nil }) {
			o.lookup(fn)
		}
	}
	for _, n := range p.pkgTypes() {
		m := p.method(n, "ReadDir")
		if m == nil || m.Blocks == nil || m.Signature.Params().Len() != 1 || m.Signature.Results().Len() != 2 || structOf(n) == nil {
			continue
		}
		c26readdir(c, p, l, n, m)
	}
	c.need("builders", 1)
	c.need("exits judged", 1)
	c.need("entries judged", 2)
	c.need("implied parents judged", 1)
	c.need("sort orders judged", 1)
	c.need("ReadDir exits judged", 3)
	c.assume("a module function from a name to two strings divides it into its directory and its last element, as path.Dir and path.Base do for valid names; sort and search functions of the library do what they document")
}

// listOrder decides comparisons between entries.
type listOrder struct {
	c    *Check
	p    *Prog
	l    *listInfo
	srch map[ssa.CallInstruction]*cut
}

// cut: the place in the order a search looks for. rank counts how many of the
// ordered outcomes (dir<, dir= elem<, both =, dir= elem>, dir>) come before it.
type cut struct {
	ok        bool
	why       string
	rank      int // 0..5
	dirT, elT string
	caps      []AV
}

// part splits a term into the name it is made of and which part of it.
func namePart(e *Engine, a AV) (AV, string) {
	n := e.n(a)
	if n.k == kOp && (n.tag == "path.Dir" || n.tag == "path.Base") {
		return n.args[0], n.tag[5:]
	}
	return a, ""
}

type exitPath struct {
	facts map[AV]int8
	val   AV
}

// paths runs a predicate and keeps its exits.
func (o *listOrder) paths(fn *ssa.Function, q *prov, init func(e *Engine, ctx *Ctx, st *State)) (*Engine, []exitPath) {
	var out []exitPath
	h := Hooks{}
	h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) { q.load(e, in, addr, val) }
	h.Call = func(e *Engine, st *State, s *Site) (AV, bool) {
		ts := types.Typ[types.String]
		n := s.name
		if i := strings.IndexByte(n, '['); i >= 0 {
			n = n[:i]
		}
		switch {
		case n == "path.Dir":
			return e.op("path.Dir", ts, s.args[0]), true
		case n == "path.Base":
			return e.op("path.Base", ts, s.args[0]), true
		case n == "strings.Compare" || n == "cmp.Compare":
			if isStringT(e.typOf(s.args[0])) || isStringT(s.c.Args[0].Type()) {
				return e.op("cmp", types.Typ[types.Int], s.args...), true
			}
		case n == "cmp.Less":
			return e.op("<", types.Typ[types.Bool], s.args...), true
		case s.fn != nil && o.p.inModule(s.fn) && isSplit(s.fn):
			return e.tuple([]AV{e.op("path.Dir", ts, s.args[0]), e.op("path.Base", ts, s.args[0])}), true
		}
		return 0, false
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		f := map[AV]int8{}
		for k, v := range st.facts {
			f[k] = v
		}
		out = append(out, exitPath{f, vals[0]})
	}
	// facts outlive the values they are about
	h.Assume = func(e *Engine, st *State, cond AV, truth bool) {
		for _, s := range e.n(cond).syms {
			st.marks[s] = "kept"
		}
	}
	e := newEngine(o.p, h)
	e.Run(fn, init)
	return e, out
}

// outcomes enumerates, for the named order variables, every combination and the
// values the paths consistent with it return; nil if one is not decided.
type orderVars struct {
	e    *Engine
	kind func(x, y AV) (string, int) // variable and orientation of a comparison
	vars map[string]bool
	bad  string
}

func (v *orderVars) scan(a AV) {
	n := v.e.n(a)
	if n.k != kOp {
		return
	}
	if (n.tag == "<" || n.tag == "==" || n.tag == "cmp") && len(n.args) == 2 {
		if isStringT(v.e.typOf(n.args[0])) || isStringT(v.e.typOf(n.args[1])) {
			if k, s := v.kind(n.args[0], n.args[1]); s != 0 {
				v.vars[k] = true
			} else {
				v.bad = v.e.str(a)
			}
			return
		}
	}
	for _, x := range n.args {
		v.scan(x)
	}
}

// eval: -2 unknown; booleans 0/1, comparisons -1/0/1.
func (v *orderVars) eval(a AV, val map[string]int) int {
	e := v.e
	if k := e.constOf(a); k != nil {
		switch k.Kind() {
		case constant.Bool:
			if constant.BoolVal(k) {
				return 1
			}
			return 0
		case constant.Int:
			x, _ := constant.Int64Val(k)
			if x < -1 || x > 1 {
				return -2
			}
			return int(x)
		}
		return -2
	}
	n := e.n(a)
	if n.k != kOp {
		return -2
	}
	if n.tag == "!" {
		if x := v.eval(n.args[0], val); x >= 0 {
			return 1 - x
		}
		return -2
	}
	if len(n.args) != 2 {
		return -2
	}
	switch n.tag {
	case "<", "==", "cmp":
		r := 0
		if isStringT(e.typOf(n.args[0])) || isStringT(e.typOf(n.args[1])) {
			k, s := v.kind(n.args[0], n.args[1])
			if s == 0 {
				return -2
			}
			r = s * val[k]
		} else {
			x, y := v.eval(n.args[0], val), v.eval(n.args[1], val)
			if x == -2 || y == -2 {
				return -2
			}
			r = x - y
		}
		switch n.tag {
		case "cmp":
			return r
		case "<":
			if r < 0 {
				return 1
			}
		case "==":
			if r == 0 {
				return 1
			}
		}
		return 0
	}
	return -2
}

func (v *orderVars) result(paths []exitPath, val map[string]int) (int, bool) {
	res, any := -2, false
	for _, p := range paths {
		ok := true
		for f, t := range p.facts {
			if x := v.eval(f, val); x >= 0 && (x == 1) != (t > 0) && isBoolT(v.e.typOf(f)) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		x := v.eval(p.val, val)
		if x == -2 || any && x != res {
			return 0, false
		}
		res, any = x, true
	}
	return res, any
}

// entryKey: the name of an entry, by what it is an element of: its index or
// the parameter it is.
func (o *listOrder) entryKey(e *Engine, q *prov, a AV) AV {
	if addr, ok := q.from[a]; ok {
		n := e.n(addr)
		if n.k != kField {
			return 0
		}
		b := n.args[0]
		if x, ok := q.from[b]; ok { // a list of pointers
			b = x
		}
		if m := e.n(b); m.k == kIndex {
			return m.args[1]
		}
		return b
	}
	n := e.n(a)
	if n.k == kOp && strings.HasPrefix(n.tag, "fld") || n.k == kOp && n.tag == "cell" {
		b := n.args[0]
		if m := e.n(b); m.k == kField {
			b = m.args[0]
		}
		if x, ok := q.from[b]; ok {
			b = x
		}
		if m := e.n(b); m.k == kIndex {
			return m.args[1]
		}
		return b
	}
	if n.k == kSym {
		if _, ok := n.v.(*ssa.Parameter); ok {
			return a
		}
	}
	return 0
}

// sorts judges the comparison handed to the sort of the list.
func (o *listOrder) sorts(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || !isSorter(staticName(ci.Common())) || len(ci.Common().Args) == 0 || !o.l.sortedArg(ci.Common().Args[0]) {
				continue
			}
			var less *ssa.Function
			if len(ci.Common().Args) > 1 {
				switch x := ci.Common().Args[1].(type) {
				case *ssa.MakeClosure:
					less, _ = x.Fn.(*ssa.Function)
				case *ssa.Function:
					less = x
				}
			} else if mi, ok := ci.Common().Args[0].(*ssa.MakeInterface); ok {
				if n, ok := mi.X.Type().(*types.Named); ok {
					less = o.p.method(n, "Less")
				}
			}
			if less == nil || less.Blocks == nil {
				o.c.sample("%s: the comparison is not followed", o.p.ipos(in))
				continue
			}
			o.order(less, o.p.ipos(in))
		}
	}
}

func (o *listOrder) order(less *ssa.Function, pos string) {
	o.c.count("sort orders judged", 1)
	q := newProv()
	var ps []AV
	e, paths := o.paths(less, q, func(e *Engine, ctx *Ctx, st *State) {
		for i := range less.Params {
			if i == 0 && less.Signature.Recv() != nil {
				continue
			}
			ps = append(ps, e.param(ctx, i))
			st.marks[e.param(ctx, i)] = "param"
		}
	})
	if len(ps) != 2 {
		return
	}
	side := func(a AV) int {
		k := o.entryKey(e, q, a)
		for i, x := range ps {
			if k == x {
				return i + 1
			}
		}
		// a copy of a parameter
		if k != 0 {
			for i, x := range ps {
				for _, y := range e.n(k).syms {
					if y == x {
						return i + 1
					}
				}
			}
		}
		return 0
	}
	v := &orderVars{e: e, vars: map[string]bool{}}
	v.kind = func(x, y AV) (string, int) {
		nx, px := namePart(e, x)
		ny, py := namePart(e, y)
		if px != py || px == "" {
			return "", 0
		}
		switch a, b := side(nx), side(ny); {
		case a == 1 && b == 2:
			return px, 1
		case a == 2 && b == 1:
			return px, -1
		}
		return "", 0
	}
	for _, x := range paths {
		for f := range x.facts {
			v.scan(f)
		}
		v.scan(x.val)
	}
	isCmp := !isBoolT(less.Signature.Results().At(0).Type())
	for d := -1; d <= 1; d++ {
		for el := -1; el <= 1; el++ {
			want := d
			if d == 0 {
				want = el
			}
			r, ok := v.result(paths, map[string]int{"Dir": d, "Base": el})
			if !isCmp {
				if want < 0 {
					want = 1
				} else {
					want = 0
				}
			}
			o.c.count("order cases decided", 1)
			if !ok || r != want {
				o.c.bad("order:"+o.p.fname(less), "%s: the list is not sorted by directory and element: comparing directories %s and elements %s gives %s, want %d", pos, sgn(d), sgn(el), show(r, ok), want)
				return
			}
		}
	}
}

func sgn(x int) string { return []string{"<", "=", ">"}[x+1] }

func show(r int, ok bool) string {
	if !ok {
		return "nothing that depends on them alone"
	}
	return fmt.Sprint(r)
}

// search: in is a search over the list by a predicate; its closure.
func (o *listOrder) search(in ssa.Instruction) *ssa.MakeClosure {
	ci, ok := in.(ssa.CallInstruction)
	if !ok || staticName(ci.Common()) != "sort.Search" {
		return nil
	}
	mc, _ := ci.Common().Args[1].(*ssa.MakeClosure)
	if mc == nil {
		return nil
	}
	f := mc.Fn.(*ssa.Function)
	// over the list
	if !anyInstr(f, func(in ssa.Instruction) bool {
		x, ok := in.(*ssa.IndexAddr)
		return ok && o.l.isList(x.X.Type())
	}) {
		return nil
	}
	return mc
}

// pred decides what a search predicate looks for.
func (o *listOrder) pred(mc *ssa.MakeClosure) *cut {
	f := mc.Fn.(*ssa.Function)
	q := newProv()
	r := &cut{}
	var idx AV
	e, paths := o.paths(f, q, func(e *Engine, ctx *Ctx, st *State) {
		idx = e.param(ctx, 0)
		st.marks[idx] = "param"
		for i, v := range f.FreeVars {
			a := e.sym(ctx, v, "")
			k := e.free(fmt.Sprintf("cap:%d", i), derefT(v.Type()))
			if _, ok := v.Type().Underlying().(*types.Pointer); ok {
				st.mem[a] = k
				st.marks[a] = "cap"
			}
			st.marks[k] = "cap"
		}
	})
	entry := func(a AV) bool {
		k := o.entryKey(e, q, a)
		return k != 0 && e.lin(nil, k).t[idx] == 1
	}
	target := map[string]string{}
	v := &orderVars{e: e, vars: map[string]bool{}}
	v.kind = func(x, y AV) (string, int) {
		s := 1
		nx, px := namePart(e, x)
		if px == "" || !entry(nx) {
			x, y, s = y, x, -1
			nx, px = namePart(e, x)
			if px == "" || !entry(nx) {
				return "", 0
			}
		}
		if ny, _ := namePart(e, y); entry(ny) {
			return "", 0
		}
		t := e.str(y)
		if o, ok := target[px]; ok && o != t {
			return "", 0
		}
		target[px] = t
		return px, s
	}
	for _, x := range paths {
		for f := range x.facts {
			v.scan(f)
		}
		v.scan(x.val)
	}
	r.dirT, r.elT = target["Dir"], target["Base"]
	// the ordered outcomes
	prev := 0
	for i, c := range [][][2]int{{{-1, -1}, {-1, 0}, {-1, 1}}, {{0, -1}}, {{0, 0}}, {{0, 1}}, {{1, -1}, {1, 0}, {1, 1}}} {
		got := -2
		for _, x := range c {
			y, ok := v.result(paths, map[string]int{"Dir": x[0], "Base": x[1]})
			if !ok {
				r.why = "it depends on something other than how the entry's directory and element compare"
				return r
			}
			if got == -2 {
				got = y
			} else if got != y {
				r.why = "it depends on the elements of different directories"
				return r
			}
		}
		o.c.count("order cases decided", len(c))
		if got < prev {
			r.why = "it does not agree with the order of the list"
			return r
		}
		if got == 0 {
			r.rank = i + 1
		}
		prev = got
	}
	r.ok = true
	return r
}

// excluded: the position found is past the list, or something about the entry
// there (its name) was examined and did not fit.
func (o *listOrder) excluded(e *Engine, q *prov, st *State, at AV) bool {
	var about func(a AV) bool
	seen := map[AV]bool{}
	about = func(a AV) bool {
		if seen[a] {
			return false
		}
		seen[a] = true
		if o.entryKey(e, q, a) == at {
			return true
		}
		for _, x := range e.n(a).args {
			if about(x) {
				return true
			}
		}
		return false
	}
	for f, w := range st.facts {
		n := e.n(f)
		if n.k != kOp {
			continue
		}
		clear(seen)
		if w == -1 && (n.tag == "==" || n.tag == "<") && about(f) || w == 1 && n.tag == "<" && about(f) {
			return true
		}
		if len(n.args) == 2 && isIntT(e.typOf(n.args[0])) {
			d := e.lin(st, n.args[0]).add(e.lin(st, n.args[1]), -1)
			for a := range d.t {
				m := e.n(a)
				if m.k != kOp || m.tag != "len" || !o.l.isList(e.typOf(m.args[0])) {
					continue
				}
				past := e.lin(st, at).add(lin{t: map[AV]int64{a: 1}}, -1)
				if q.nonneg(e, st, past) || q.zeroDiff(e, st, past) {
					return true
				}
			}
		}
	}
	return false
}

// lookup judges a function that searches the list.
func (o *listOrder) lookup(fn *ssa.Function) {
	name := o.p.fname(fn)
	c, p := o.c, o.p
	type hit struct {
		cut      *cut
		dir, elt string
	}
	hits := map[AV]hit{}
	q := newProv()
	ts := types.Typ[types.String]
	h := Hooks{}
	h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) { q.load(e, in, addr, val) }
	h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool { return !isSplit(s.fn) && s.fn.Parent() != nil }
	h.Call = func(e *Engine, st *State, s *Site) (AV, bool) {
		if s.name == "path.Dir" || s.name == "path.Base" {
			return e.op(s.name, ts, s.args[0]), true
		}
		if s.fn != nil && p.inModule(s.fn) && isSplit(s.fn) {
			return e.tuple([]AV{e.op("path.Dir", ts, s.args[0]), e.op("path.Base", ts, s.args[0])}), true
		}
		return 0, false
	}
	h.Assume = func(e *Engine, st *State, cond AV, truth bool) {
		q.assume(e, st, cond, truth)
		if n := e.n(cond); n.k == kOp && len(n.args) == 2 && (isIntT(e.typOf(n.args[0])) || isStringT(e.typOf(n.args[0])) || isStringT(e.typOf(n.args[1]))) {
			for _, s := range n.syms {
				st.marks[s] = "kept"
			}
		}
	}
	h.After = func(e *Engine, st *State, s *Site, res AV) {
		mc := o.search(s.instr)
		if mc == nil {
			return
		}
		k, ok := o.srch[s.instr]
		if !ok {
			k = o.pred(mc)
			o.srch[s.instr] = k
			c.count("searches judged", 1)
			if !k.ok {
				c.bad("search:"+name, "%s: %s searches the list by a condition that does not fit: %s", p.ipos(s.instr), name, k.why)
			}
		}
		ht := hit{cut: k}
		cl := e.n(s.args[1])
		if cl.k == kClosure {
			val := func(t string) string {
				for i := range cl.args {
					x := cl.args[i]
					if v, ok := st.mem[x]; ok {
						x = v
					}
					t = strings.ReplaceAll(t, fmt.Sprintf("cap:%d", i), "<"+e.str(x)+">")
				}
				return t
			}
			ht.dir, ht.elt = val(k.dirT), val(k.elT)
		}
		hits[res] = ht
		st.marks[res] = "found"
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		for vi, v := range vals {
			t := fn.Signature.Results().At(vi).Type()
			n := e.n(v)
			if n.k == kOp && n.tag == "slice" && o.l.isList(t) {
				c.count("directory ranges judged", 1)
				bound := func(a AV, off AV) (hit, bool) {
					if ht, ok := hits[a]; ok {
						return ht, true
					}
					l := e.lin(st, a)
					if off != 0 {
						l = l.add(e.lin(st, off), -1)
					}
					if l.c == 0 && len(l.t) == 1 {
						for x, k := range l.t {
							if ht, ok := hits[x]; ok && k == 1 {
								return ht, true
							}
						}
					}
					return hit{}, false
				}
				// a value made of what the searches found and nothing else, but not the end of the list
				known := func(a AV) bool {
					l, some := e.lin(st, a), false
					for x := range l.t {
						if _, ok := hits[x]; ok {
							some = true
						} else if m := e.n(x); m.k != kOp || m.tag != "len" {
							return false
						}
					}
					return some
				}
				lo, ok1 := bound(n.args[1], 0)
				hi, ok2 := bound(n.args[2], n.args[1])
				switch {
				case (!ok1 || !ok2) && known(n.args[1]) && known(n.args[2]):
					c.bad("range:"+name, "%s: %s does not return the entries from the first one of the directory to the first one after it; path: %s", p.ipos(in), name, st.path())
				case !ok1 || !ok2:
					if e.n(n.args[1]).tag == "_" || e.n(n.args[2]).tag == "_" {
						c.bad("open:"+name, "%s: %s returns a part of the list without a bound; path: %s", p.ipos(in), name, st.path())
					} else {
						c.sample("%s: bounds of %s not followed", p.ipos(in), e.str(v))
					}
				case !lo.cut.ok || !hi.cut.ok:
				case lo.cut.rank != 1 || hi.cut.rank != 4:
					c.bad("range:"+name, "%s: %s does not return the entries from the first one of the directory to the first one after it; path: %s", p.ipos(in), name, st.path())
				case lo.dir != hi.dir:
					c.bad("range:"+name, "%s: %s bounds the entries by different directories, %s and %s; path: %s", p.ipos(in), name, lo.dir, hi.dir, st.path())
				}
				continue
			}
			if _, isPtr := t.(*types.Pointer); !isPtr && !o.l.isElem(t) {
				continue
			}
			// an entry, or none
			at := AV(0)
			if n.k == kIndex {
				at = n.args[1]
			} else if x, ok := q.from[v]; ok && e.n(x).k == kIndex {
				at = e.n(x).args[1]
			}
			if at == 0 && e.isNil(v) {
				var found AV
				for a, ht := range hits {
					if st.marks[a] != "" && ht.cut.rank == 2 && ht.cut.ok && found < a {
						found = a
					}
				}
				if found != 0 && !o.excluded(e, q, st, found) {
					c.bad("missed:"+name, "%s: %s can report an entry as missing without having looked at the one found; path: %s", p.ipos(in), name, st.path())
				}
			}
			if at == 0 {
				continue
			}
			ht, ok := hits[at]
			if !ok {
				c.sample("%s: index %s not followed", p.ipos(in), e.str(at))
				continue
			}
			c.count("lookups judged", 1)
			if ht.cut.ok && ht.cut.rank != 2 {
				c.bad("first:"+name, "%s: %s does not look for the first entry at the directory and element asked for; path: %s", p.ipos(in), name, st.path())
			}
			same := false
			for f, w := range st.facts {
				m := e.n(f)
				if w != 1 || m.k != kOp || m.tag != "==" {
					continue
				}
				for k := range 2 {
					x, y := m.args[k], m.args[1-k]
					if s := e.n(x); s.k == kOp && s.tag == "slice" && e.n(s.args[1]).tag == "_" {
						x = s.args[0]
					}
					if !isStringT(e.typOf(y)) {
						continue
					}
					if k := o.entryKey(e, q, x); k == at && o.entryKey(e, q, y) != at {
						same = true
					}
				}
			}
			if !same {
				c.bad("other:"+name, "%s: %s returns an entry without having found its name to be the one asked for; path: %s", p.ipos(in), name, st.path())
			}
		}
	}
	newEngine(p, h).Run(fn, nil)
}

// c26readdir: the position of an open directory.
func c26readdir(c *Check, p *Prog, l *listInfo, n *types.Named, fn *ssa.Function) {
	name := p.fname(fn)
	s := structOf(n)
	fl, off := -1, -1
	for i := 0; i < s.NumFields(); i++ {
		if l.isList(s.Field(i).Type()) {
			fl = i
		}
	}
	anyInstr(fn, func(in ssa.Instruction) bool {
		if st, ok := in.(*ssa.Store); ok {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isIntT(derefT(fa.Type())) && structOf(fa.X.Type()) == s {
				off = fa.Field
			}
		}
		return false
	})
	if fl < 0 {
		return
	}
	if off < 0 {
		c.bad("stuck:"+name, "%s: %s never moves on", p.pos(fn.Pos()), name)
		return
	}
	c.count("ReadDir methods judged", 1)
	q := newProv()
	var recv, cnt, files0, off0 AV
	ti := types.Typ[types.Int]
	h := Hooks{}
	h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) { q.load(e, in, addr, val) }
	h.Assume = func(e *Engine, st *State, cond AV, truth bool) { q.assume(e, st, cond, truth) }
	h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool {
		if s.fn.Parent() != nil {
			return true
		}
		r := s.fn.Signature.Recv()
		return r != nil && structOf(r.Type()) == structOf(n)
	}
	h.Instr = func(e *Engine, st *State, ctx *Ctx, in ssa.Instruction) {
		if m, ok := in.(*ssa.MakeSlice); ok {
			a := e.alloc(ctx, m)
			ln := e.eval(st, ctx, m.Len)
			if k := e.constOf(ln); k != nil && constant.Sign(k) == 0 {
				ln = e.free("unknown", ti) // filled by appending
			}
			st.flags[fmt.Sprintf("mk:%d", a)] = fmt.Sprint(int(ln))
			st.marks[ln] = "len"
		}
	}
	h.After = func(e *Engine, st *State, s *Site, res AV) {
		// what an entry says about itself stands for the entry
		for _, a := range s.args {
			b := a
			if x, ok := q.from[a]; ok {
				b = x
			}
			if m := e.n(b); m.k == kIndex && l.isList(e.typOf(m.args[0])) {
				st.flags[fmt.Sprintf("of:%d", res)] = fmt.Sprintf("%d %d", m.args[0], m.args[1])
				st.marks[res] = "entry"
				st.marks[b] = "at"
			}
		}
	}
	h.Store = func(e *Engine, st *State, ctx *Ctx, in *ssa.Store, addr, val AV) {
		a := e.n(addr)
		if a.k != kIndex || st.flags[fmt.Sprintf("mk:%d", e.root(addr))] == "" {
			return
		}
		v := stripTA(e, val)
		m := e.n(v)
		if m.k == kOp && strings.HasPrefix(m.tag, "ext") {
			v = m.args[0]
		}
		var b, i AV
		if o := st.flags[fmt.Sprintf("of:%d", v)]; o != "" {
			fmt.Sscan(o, &b, &i)
		} else if m := e.n(v); m.k == kIndex {
			b, i = m.args[0], m.args[1]
		} else {
			c.sample("%s: %s not followed to an entry", p.ipos(in), e.str(val))
			return
		}
		c.count("listed entries judged", 1)
		pos := e.lin(st, i)
		if sl := e.n(b); sl.k == kOp && sl.tag == "slice" {
			if e.n(sl.args[1]).tag != "_" {
				pos = pos.add(e.lin(st, sl.args[1]), 1)
			}
			b = sl.args[0]
		}
		d := pos.add(e.lin(st, a.args[1]), -1).add(lin{t: map[AV]int64{off0: 1}}, -1)
		if !d.zero() || b != files0 {
			c.bad("which:"+name, "%s: %s does not list the entry at its position: entry %s as element %s; path: %s", p.ipos(in), name, e.str(i), e.str(a.args[1]), st.path())
		}
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		raw := *st
		raw.ceq = nil
		for _, f := range e.equalities(&raw, 1) {
			if e.nonzero(&raw, f) || q.nonneg(e, &raw, f.add(lin{c: 1}, -1)) || q.nonneg(e, &raw, lin{c: -1}.add(f, -1)) {
				return // cannot happen
			}
		}
		c.count("ReadDir exits judged", 1)
		cur, ok := st.mem[e.field(recv, off, n)]
		if !ok {
			cur = off0
		}
		moved := e.lin(st, cur).add(lin{t: map[AV]int64{off0: 1}}, -1)
		rest := e.lin(st, e.op("len", ti, files0)).add(lin{t: map[AV]int64{off0: 1}}, -1)
		pos := q.nonneg(e, st, e.lin(st, cnt).add(lin{c: 1}, -1)) // a count was given
		if e.nilness(st, vals[1]) == 1 {
			if !q.zeroDiff(e, st, moved) {
				c.bad("moved:"+name, "%s: %s moves on although it fails; path: %s", p.ipos(in), name, st.path())
			}
			if e.errIs(st, vals[1], eofName) || e.gerrNamed(vals[1], eofName[0], eofName[1]) {
				if !pos {
					c.bad("eof:"+name, "%s: %s reports the end although no count was given; path: %s", p.ipos(in), name, st.path())
				}
				if !q.nonneg(e, st, lin{}.add(rest, -1)) {
					c.bad("early:"+name, "%s: %s reports the end although entries may remain; path: %s", p.ipos(in), name, st.path())
				}
			}
			return
		}
		ln := lin{}
		switch m := e.n(vals[0]); {
		case e.isNil(vals[0]):
		case st.flags[fmt.Sprintf("mk:%d", e.root(vals[0]))] != "" && m.k == kAlloc:
			var a int
			fmt.Sscan(st.flags[fmt.Sprintf("mk:%d", e.root(vals[0]))], &a)
			if AV(a) == e.free("unknown", ti) {
				c.sample("%s: length of what %s returns not followed", p.ipos(in), name)
				return
			}
			ln = e.lin(st, AV(a))
		default:
			c.sample("%s: length of what %s returns not followed", p.ipos(in), name)
			return
		}
		if !q.zeroDiff(e, st, moved.add(ln, -1)) {
			c.bad("position:"+name, "%s: %s does not move on by as many entries as it returns; path: %s", p.ipos(in), name, st.path())
			return
		}
		if pos {
			var some func(l lin) bool
			some = func(l lin) bool {
				if q.nonneg(e, st, l.add(lin{c: 1}, -1)) || e.nonzero(st, l) {
					return true
				}
				for a, k := range l.t {
					if m := e.n(a); k == 1 && len(l.t) == 1 && l.c == 0 && m.k == kOp && m.tag == "min" {
						for _, x := range m.args {
							if !some(e.lin(st, x)) {
								return false
							}
						}
						return true
					}
				}
				return false
			}
			ok := some(ln)
			for _, f := range e.equalities(st, 1) {
				ok = ok || some(f) // such a path cannot happen
			}
			if !ok {
				c.bad("nothing:"+name, "%s: %s returns nothing although a count was given, instead of reporting the end; path: %s", p.ipos(in), name, st.path())
			}
			if !q.nonneg(e, st, e.lin(st, cnt).add(ln, -1)) {
				c.bad("toomany:"+name, "%s: %s can return more entries than asked for; path: %s", p.ipos(in), name, st.path())
			}
		} else if q.nonneg(e, st, lin{}.add(e.lin(st, cnt), -1)) && !q.zeroDiff(e, st, rest.add(ln, -1)) {
			c.bad("notall:"+name, "%s: %s does not return all that remains although no count was given; path: %s", p.ipos(in), name, st.path())
		}
	}
	e := newEngine(p, h)
	e.Run(fn, func(e *Engine, ctx *Ctx, st *State) {
		recv, cnt = e.param(ctx, 0), e.param(ctx, 1)
		files0, off0 = e.free("files", s.Field(fl).Type()), e.free("offset", s.Field(off).Type())
		st.mem[e.field(recv, fl, n)] = files0
		st.mem[e.field(recv, off, n)] = off0
		for _, a := range []AV{recv, cnt, files0, off0} {
			st.marks[a] = "start"
		}
	})
}

// equalities: the differences known to be (val 1) or not to be (val -1) 0.
func (e *Engine) equalities(st *State, val int8) []lin {
	var ks []AV
	for f := range st.facts {
		ks = append(ks, f)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	var out []lin
	for _, f := range ks {
		n := e.n(f)
		if st.facts[f] == val && n.k == kOp && n.tag == "==" && isIntT(e.typOf(n.args[0])) {
			out = append(out, e.lin(st, n.args[0]).add(e.lin(st, n.args[1]), -1), e.lin(nil, n.args[0]).add(e.lin(nil, n.args[1]), -1))
		}
	}
	return out
}

// nonzero: l is known to differ from 0.
func (e *Engine) nonzero(st *State, l lin) bool {
	for _, d := range e.equalities(st, -1) {
		if d.add(l, -1).zero() || d.add(l, 1).zero() {
			return true
		}
	}
	return false
}
