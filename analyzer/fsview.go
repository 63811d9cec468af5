package main

// The list behind the file system view: how its entries come about. Shared by
// C17 (valid names) and C26 (sorted, once each, implied parents).

import (
	"fmt"
	"go/constant"
	"go/types"
	"io/fs"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// listInfo: the type of the entries and the field their names are in.
type listInfo struct {
	p     *Prog
	t     *types.Named
	name  int
	ptr   bool // the list holds pointers
	roots []*ssa.Function

	san   map[*ssa.Function]bool // functions an entry's name came out of
	msgs  map[string][]listMsg
	count map[string]int
}

type listMsg struct{ id, text string }

func (l *listInfo) isElem(t types.Type) bool {
	n, ok := derefT(t).(*types.Named)
	return ok && l.t != nil && n.Obj() == l.t.Obj()
}

func (l *listInfo) isList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && l.isElem(s.Elem())
}

func appendOf(in ssa.Instruction) *ssa.Call {
	if x, ok := in.(*ssa.Call); ok {
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return x
		}
	}
	return nil
}

var sorters = map[string]bool{"sort.Slice": true, "sort.SliceStable": true, "sort.Sort": true, "sort.Stable": true, "slices.SortFunc": true, "slices.SortStableFunc": true, "slices.Sort": true}

func isSorter(name string) bool {
	if i := strings.IndexByte(name, '['); i >= 0 {
		name = name[:i]
	}
	return sorters[name]
}

func anyInstr(fn *ssa.Function, pred func(ssa.Instruction) bool) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if pred(in) {
				return true
			}
		}
	}
	return false
}

// nameFields: the string fields of n the method Name reads, through helpers.
func (p *Prog) nameField(n *types.Named) int {
	s := structOf(n)
	m := p.method(n, "Name")
	if s == nil || m == nil || m.Blocks == nil {
		return -1
	}
	idx, only := -1, -1
	cnt := 0
	for i := 0; i < s.NumFields(); i++ {
		if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			only = i
			cnt++
		}
	}
	if cnt == 1 {
		return only
	}
	anyInstr(m, func(in ssa.Instruction) bool {
		var x ssa.Value
		var f int
		switch v := in.(type) {
		case *ssa.FieldAddr:
			x, f = v.X, v.Field
		case *ssa.Field:
			x, f = v.X, v.Field
		default:
			return false
		}
		if t, ok := derefT(x.Type()).(*types.Named); ok && t.Obj() == n.Obj() {
			if b, ok := s.Field(f).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				idx = f
				return true
			}
		}
		return false
	})
	return idx
}

// dirEntryT: a module struct that can be shown in a listing.
func dirEntryT(n *types.Named) bool {
	for _, t := range []types.Type{n, types.NewPointer(n)} {
		if hasMethod(t, "Name", 0, 1) && hasMethod(t, "IsDir", 0, 1) && hasMethod(t, "Type", 0, 1) && hasMethod(t, "Info", 0, 2) {
			return true
		}
	}
	return false
}

func (p *Prog) fsList() *listInfo {
	l := &listInfo{p: p, san: map[*ssa.Function]bool{}, msgs: map[string][]listMsg{}, count: map[string]int{}, name: -1}
	for _, n := range p.pkgTypes() {
		if structOf(n) == nil || !dirEntryT(n) {
			continue
		}
		l.t = n
		used := false
		for _, fn := range p.funcs {
			used = used || anyInstr(fn, func(in ssa.Instruction) bool {
				x := appendOf(in)
				return x != nil && l.isList(x.Type())
			})
		}
		if used {
			l.name = p.nameField(n)
			break
		}
		l.t = nil
	}
	if l.t == nil || l.name < 0 {
		return l
	}
	app := reaches(p, func(fn *ssa.Function) bool {
		return anyInstr(fn, func(in ssa.Instruction) bool {
			x := appendOf(in)
			return x != nil && l.isList(x.Type())
		})
	})
	srt := reaches(p, func(fn *ssa.Function) bool {
		return anyInstr(fn, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && isSorter(staticName(ci.Common())) && len(ci.Common().Args) > 0 && l.sortedArg(ci.Common().Args[0])
		})
	})
	both := func(fn *ssa.Function) bool { return fn.Blocks != nil && app(fn) && srt(fn) }
	pick := func(sel func(*ssa.Function) bool) {
		for _, fn := range p.funcs {
			if fn.Blocks == nil || !sel(fn) {
				continue
			}
			inner := anyInstr(fn, func(in ssa.Instruction) bool {
				ci, ok := in.(ssa.CallInstruction)
				f := (*ssa.Function)(nil)
				if ok {
					f = ci.Common().StaticCallee()
				}
				return f != nil && p.inModule(f) && sel(f)
			})
			for _, a := range fn.AnonFuncs {
				inner = inner || sel(a)
			}
			if !inner {
				l.roots = append(l.roots, fn)
			}
		}
	}
	pick(both)
	if len(l.roots) == 0 {
		pick(app)
	}
	return l
}

// sortedArg: the argument of a sort call is the list (or a type made of it).
func (l *listInfo) sortedArg(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	return l.isList(v.Type())
}

// wholeArg: not only a part of the list is sorted.
func (l *listInfo) wholeArg(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Slice:
			if x.Low != nil {
				if k, ok := x.Low.(*ssa.Const); !ok || k.Int64() != 0 {
					return false
				}
			}
			if x.High != nil {
				ci, ok := x.High.(*ssa.Call)
				if !ok {
					return false
				}
				b, ok := ci.Call.Value.(*ssa.Builtin)
				if !ok || b.Name() != "len" || !l.isList(ci.Call.Args[0].Type()) {
					return false
				}
			}
			v = x.X
			continue
		}
		return true
	}
}

func (l *listInfo) bad(kind, id, f string, a ...any) {
	for _, m := range l.msgs[kind] {
		if m.id == id {
			return
		}
	}
	l.msgs[kind] = append(l.msgs[kind], listMsg{id, fmt.Sprintf(f, a...)})
}

func (l *listInfo) report(c *Check, kind string) {
	for _, m := range l.msgs[kind] {
		c.bad(m.id, "%s", m.text)
	}
}

// listRun: one walk over a function that builds the list.
type listRun struct {
	l      *listInfo
	p      *Prog
	fn     *ssa.Function
	dry    bool
	badMap map[ssa.Value]bool            // maps with a key that is no valid name
	ranged map[ssa.Value]bool            // maps that are ranged over
	recs   map[string]map[ssa.Value]bool // append -> maps its names are recorded in
	unrec  map[string]bool
	at     map[string]string
	sites  map[string]bool
	unique map[string]bool // its names are the keys of one map
}

func (l *listInfo) walk() {
	for _, fn := range l.roots {
		r := &listRun{l: l, p: l.p, fn: fn, badMap: map[ssa.Value]bool{}, ranged: map[ssa.Value]bool{}, recs: map[string]map[ssa.Value]bool{}, unrec: map[string]bool{}, at: map[string]string{}, sites: map[string]bool{}, unique: map[string]bool{}}
		for _, dry := range []bool{true, true, false} {
			r.dry = dry
			r.run()
		}
		l.count["builders"]++
		l.count["append sites"] += len(r.sites)
	}
}

func (r *listRun) run() {
	l, p := r.l, r.p
	tb := types.Typ[types.Bool]
	rel := reaches(p, func(fn *ssa.Function) bool {
		return anyInstr(fn, func(in ssa.Instruction) bool {
			switch x := in.(type) {
			case *ssa.MapUpdate, *ssa.Lookup:
				return true
			case *ssa.Call:
				if a := appendOf(in); a != nil && l.isList(a.Type()) {
					return true
				}
				n := staticName(&x.Call)
				return n == "io/fs.ValidPath" || n == "path.Dir" || isSorter(n)
			}
			return false
		})
	})
	strT := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	vp := func(e *Engine, x AV) AV { return e.op("validpath", tb, x) }
	dotK := func(e *Engine) AV { return e.konst(ssa.NewConst(constant.MakeString("."), types.Typ[types.String])) }
	isDot := func(e *Engine, st *State, x AV) AV { return e.op("==", tb, x, dotK(e)) }
	valid := func(e *Engine, st *State, x AV) bool {
		if k := e.constOf(x); k != nil && k.Kind() == constant.String {
			return fs.ValidPath(constant.StringVal(k))
		}
		return st.facts[vp(e, x)] == 1
	}
	notDot := func(e *Engine, st *State, x AV) bool {
		if k := e.constOf(x); k != nil && k.Kind() == constant.String {
			return constant.StringVal(k) != "."
		}
		return st.facts[isDot(e, st, x)] == -1
	}
	has := func(e *Engine, m, k AV) AV { return e.op("has", tb, m, k) }
	wasnew := func(e *Engine, m, k AV) AV { return e.op("wasnew", tb, m, k) }
	imp := func(e *Engine, n, d AV) AV { return e.op("imp", tb, n, d) }   // all between recorded
	impr := func(e *Engine, n, d AV) AV { return e.op("impr", tb, n, d) } // and d itself
	closed := func(e *Engine, n AV) AV { return e.op("closed", tb, n) }
	mapV := func(e *Engine, m AV) ssa.Value {
		if n := e.n(m); n.k == kAlloc || n.k == kSym {
			if mm, ok := n.v.(*ssa.MakeMap); ok {
				return mm
			}
		}
		return nil
	}
	isKey := func(e *Engine, x AV) bool {
		n := e.n(x)
		if n.k != kOp || n.tag != "ext1" {
			return false
		}
		s := e.n(n.args[0])
		_, ok := s.v.(*ssa.Next)
		return ok
	}
	closedBy := func(e *Engine, st *State, d AV) {
		for f, v := range st.facts {
			if n := e.n(f); v == 1 && n.k == kOp && n.tag == "imp" && n.args[1] == d {
				st.facts[closed(e, n.args[0])] = 1
			}
		}
	}
	dir := func(e *Engine, st *State, x AV) AV {
		if k := e.constOf(x); k != nil {
			return e.free("dirconst", types.Typ[types.String])
		}
		d := e.op("path.Dir", types.Typ[types.String], x)
		if valid(e, st, x) {
			st.facts[vp(e, d)] = 1
		}
		st.facts[imp(e, x, d)] = 1
		for f, v := range st.facts {
			if n := e.n(f); v == 1 && n.k == kOp && n.tag == "impr" && n.args[1] == x {
				st.facts[imp(e, n.args[0], d)] = 1
			}
		}
		return d
	}
	record := func(e *Engine, st *State, x AV) {
		for f, v := range st.facts {
			if n := e.n(f); v == 1 && n.k == kOp && n.tag == "imp" && n.args[1] == x {
				st.facts[impr(e, n.args[0], x)] = 1
			}
		}
	}
	// check: the incarnation of x ends here
	check := func(e *Engine, st *State, x AV) {
		m := st.marks[x]
		if m == "key" {
			if !r.dry {
				l.count["implied directories judged"]++
				l.bad("parents", "unlisted:"+p.fname(r.fn), "%s: %s leaves out a directory implied by a member's path although no entry has its name; path: %s", p.pos(r.fn.Pos()), p.fname(r.fn), st.path())
			}
			delete(st.marks, x)
			return
		}
		if !strings.HasPrefix(m, "n:") {
			return
		}
		site := strings.TrimSuffix(m[2:], "+")
		rec := st.facts[e.op("recd", tb, x)] == 1
		if !rec {
			r.unrec[site] = true
		}
		if !r.dry {
			if strings.HasSuffix(m, "+") {
				l.count["implied parents judged"]++
				if st.facts[closed(e, x)] != 1 {
					l.bad("parents", "parents:"+p.fname(r.fn), "%s: %s adds an entry without making sure that every directory above it is listed; path: %s", r.at[site], p.fname(r.fn), st.path())
				}
			}
		}
		delete(st.marks, x)
	}
	checkAll := func(e *Engine, st *State) {
		for x := range st.marks {
			check(e, st, x)
		}
	}
	usesDir := reaches(p, func(fn *ssa.Function) bool {
		return anyInstr(fn, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			if staticName(ci.Common()) == "path.Dir" {
				return true
			}
			return isSplit(ci.Common().StaticCallee())
		})
	})(r.fn)
	if !usesDir && !r.dry {
		l.bad("parents", "noparents:"+p.fname(r.fn), "%s: %s never looks at the directory of a name, so directories implied by members' paths are not listed", p.pos(r.fn.Pos()), p.fname(r.fn))
	}
	h := Hooks{}
	h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool {
		if isSplit(s.fn) || isNameFn(s.fn) {
			return false
		}
		return s.fn.Parent() != nil || rel(s.fn)
	}
	h.Carry = func(e *Engine, st *State, val, phi AV) {
		if !isStringT(e.typOf(phi)) || e.isConst(val) {
			return
		}
		for _, y := range e.n(val).syms {
			if y == phi || y == e.old(phi) {
				return
			}
		}
		st.facts[impr(e, val, phi)] = 1
	}
	h.Call = func(e *Engine, st *State, s *Site) (AV, bool) {
		switch {
		case s.name == "io/fs.ValidPath":
			return vp(e, s.args[0]), true
		case s.name == "path.Dir":
			return dir(e, st, s.args[0]), true
		case s.fn != nil && p.inModule(s.fn) && isSplit(s.fn):
			return e.tuple([]AV{dir(e, st, s.args[0]), e.op("path.Base", types.Typ[types.String], s.args[0])}), true
		case isSorter(s.name):
			if len(s.c.Args) > 0 && l.sortedArg(s.c.Args[0]) {
				if l.wholeArg(s.c.Args[0]) {
					delete(st.flags, "dirty")
				}
				if !r.dry {
					l.count["sort calls"]++
				}
			}
		}
		if a := appendOf(s.instr); a != nil && l.isList(a.Type()) && len(s.args) == 2 {
			in := siteKey(p, s.ctx, a)
			r.sites[in] = true
			r.at[in] = p.ipos(a)
			st.flags["dirty"] = "1"
			for _, el := range e.elems(st, s.args[1]) {
				r.entry(e, st, in, el, valid, notDot, has, wasnew, isKey, mapV, record)
			}
			return e.free("list", a.Type()), true
		}
		return 0, false
	}
	h.Assume = func(e *Engine, st *State, cond AV, truth bool) {
		n := *e.n(cond)
		for n.k == kOp && n.tag == "!" {
			cond, truth = n.args[0], !truth
			n = *e.n(cond)
		}
		if !truth || n.k != kOp {
			return
		}
		switch n.tag {
		case "==":
			if n.args[1] == dotK(e) {
				closedBy(e, st, n.args[0])
			}
		case "has":
			closedBy(e, st, n.args[1])
			if st.marks[n.args[1]] == "key" {
				delete(st.marks, n.args[1])
			}
		}
	}
	h.Instr = func(e *Engine, st *State, ctx *Ctx, in ssa.Instruction) {
		if v, ok := in.(ssa.Value); ok && len(st.marks) > 0 {
			s := e.sym(ctx, v, "")
			if _, ok := in.(*ssa.Phi); ok {
				s = e.old(s)
			}
			for x := range st.marks {
				for _, y := range e.n(x).syms {
					if y == s {
						check(e, st, x)
						break
					}
				}
			}
		}
		switch x := in.(type) {
		case *ssa.MapUpdate:
			if !strT(x.Key.Type()) {
				return
			}
			m, k := e.eval(st, ctx, x.Map), e.eval(st, ctx, x.Key)
			mv := mapV(e, m)
			if mv != nil && !(valid(e, st, k) && notDot(e, st, k)) {
				r.badMap[mv] = true
			}
			if c := e.constOf(e.eval(st, ctx, x.Value)); c != nil && c.Kind() == constant.Bool && !constant.BoolVal(c) {
				return
			}
			hk := has(e, m, k)
			if st.facts[hk] == -1 {
				st.facts[wasnew(e, m, k)] = 1
			}
			for f, v := range st.facts {
				if n := e.n(f); v == -1 && n.k == kOp && n.tag == "has" && n.args[0] == m {
					delete(st.facts, f)
				}
			}
			st.facts[hk] = 1
			if mk := st.marks[k]; strings.HasPrefix(mk, "n:") {
				r.keep(e, st, strings.TrimSuffix(mk[2:], "+"), mv, k)
			}
			if mv == nil || r.ranged[mv] {
				record(e, st, k)
			}
		case *ssa.Range:
			if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
				return
			}
			checkAll(e, st)
			m := e.eval(st, ctx, x.X)
			st.flags[fmt.Sprintf("rng:%d", p.vid(x))] = fmt.Sprint(int(m))
			st.marks[m] = "map"
			if mv := mapV(e, m); mv != nil {
				for _, ref := range rangeBody(x) {
					if a := appendOf(ref); a != nil && l.isList(a.Type()) {
						r.ranged[mv] = true
					}
					if ci, ok := ref.(ssa.CallInstruction); ok {
						f := ci.Common().StaticCallee()
						if mc, ok := ci.Common().Value.(*ssa.MakeClosure); ok {
							f = mc.Fn.(*ssa.Function)
						}
						if f != nil && p.inModule(f) && rel(f) {
							r.ranged[mv] = true
						}
					}
				}
			}
		case *ssa.Extract:
			nx, ok := x.Tuple.(*ssa.Next)
			if !ok || x.Index != 1 || !strT(x.Type()) {
				return
			}
			rg, ok := nx.Iter.(*ssa.Range)
			if !ok {
				return
			}
			var i int
			fmt.Sscan(st.flags[fmt.Sprintf("rng:%d", p.vid(rg))], &i)
			mv := ssa.Value(nil)
			if i != 0 {
				mv = mapV(e, AV(i))
			}
			k := e.ext(e.eval(st, ctx, nx), 1, x.Type())
			if mv != nil && !r.badMap[mv] {
				st.facts[vp(e, k)] = 1
				st.facts[isDot(e, st, k)] = -1
			}
			if mv != nil && r.ranged[mv] {
				st.marks[k] = "key"
				if !r.dry {
					l.count["implied directories judged"]++
				}
			}
		}
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		checkAll(e, st)
		if r.dry {
			return
		}
		l.count["exits judged"]++
		if st.flags["dirty"] != "" {
			l.bad("sorted", "unsorted:"+p.fname(r.fn), "%s: %s can leave the list unsorted after adding to it; path: %s", p.ipos(in), p.fname(r.fn), st.path())
		}
	}
	e := newEngine(p, h)
	e.maps = true
	e.K = 400
	e.Run(r.fn, nil)
}

// entry: el is being added to the list.
func (r *listRun) entry(e *Engine, st *State, in string, el AV, valid, notDot func(*Engine, *State, AV) bool, has, wasnew func(*Engine, AV, AV) AV, isKey func(*Engine, AV) bool, mapV func(*Engine, AV) ssa.Value, record func(*Engine, *State, AV)) {
	l, p := r.l, r.p
	var name AV
	if _, ok := e.typOf(el).(*types.Pointer); ok || e.n(el).k == kAlloc {
		name = st.mem[e.field(el, l.name, l.t)]
	} else {
		name = e.fieldOf(el, l.name, structOf(l.t).Field(l.name).Type())
	}
	if name == 0 || e.n(el).k == kOp && e.n(el).tag == "spread" {
		if !r.dry {
			l.count["entries not judged"]++
		}
		return
	}
	if n := e.n(name); n.k == kSym && n.v != nil {
		if cl, ok := n.v.(*ssa.Call); ok {
			if f := cl.Call.StaticCallee(); f != nil && p.inModule(f) && isNameFn(f) {
				l.san[f] = true
			}
		}
	}
	if !r.dry {
		l.count["entries judged"]++
		if !valid(e, st, name) || !notDot(e, st, name) {
			what := "is a valid path"
			if valid(e, st, name) {
				what = "is not the root"
			}
			l.bad("valid", "entry:"+p.fname(r.fn), "%s: %s lists a name without having made sure that it %s; path: %s", r.at[in], p.fname(r.fn), what, st.path())
		}
	}
	// once each
	key := isKey(e, name)
	if key {
		r.unique[in] = true
	}
	if !r.dry {
		for s := range r.sites {
			if s == in && key {
				continue
			}
			if r.unique[s] && len(r.recs[s]) == 0 {
				if s != in && st.flags["app:"+s] != "" {
					l.bad("unique", "again:"+p.fname(r.fn), "%s: %s may list a name again that it has listed at %s; path: %s", r.at[in], p.fname(r.fn), r.at[s], st.path())
				}
				continue
			}
			if len(r.recs[s]) == 0 {
				l.bad("unique", "unrecorded:"+p.fname(r.fn), "%s: %s adds names to the list without keeping track of them, so repeated names are listed repeatedly", r.at[s], p.fname(r.fn))
				continue
			}
			for m := range r.recs[s] {
				ok := false
				for f, v := range st.facts {
					n := e.n(f)
					if n.k == kOp && len(n.args) == 2 && n.args[1] == name && mapV(e, n.args[0]) == m {
						if n.tag == "has" && v == -1 || n.tag == "wasnew" && v == 1 {
							ok = true
						}
					}
				}
				l.count["membership tests judged"]++
				if !ok {
					l.bad("unique", "twice:"+p.fname(r.fn), "%s: %s lists a name without having made sure that it is not among those listed at %s; path: %s", r.at[in], p.fname(r.fn), r.at[s], st.path())
				}
			}
			if r.unrec[s] {
				l.bad("unique", "notkept:"+p.fname(r.fn), "%s: %s does not always keep track of a name it has listed", r.at[s], p.fname(r.fn))
			}
		}
	}
	st.flags["app:"+in] = "1"
	record(e, st, name)
	if key {
		delete(st.marks, name)
		return
	}
	m := "n:" + in
	parent := false // of an entry whose parents are being seen to
	for f, v := range st.facts {
		n := e.n(f)
		if v == 1 && n.k == kOp && (n.tag == "imp" || n.tag == "impr") && n.args[1] == name {
			parent = true
		}
	}
	if !parent {
		m += "+"
	}
	st.marks[name] = m
	for f, v := range st.facts {
		n := e.n(f)
		if n.k == kOp && len(n.args) == 2 && n.args[1] == name && n.tag == "has" && v == 1 {
			r.keep(e, st, in, mapV(e, n.args[0]), name)
		}
	}
}

// keep: the name added at site is now in the map m.
func (r *listRun) keep(e *Engine, st *State, site string, m ssa.Value, name AV) {
	st.facts[e.op("recd", types.Typ[types.Bool], name)] = 1
	if m != nil {
		if r.recs[site] == nil {
			r.recs[site] = map[ssa.Value]bool{}
		}
		r.recs[site][m] = true
	}
}

// isSplit: a module function that divides a name into directory and element.
func isSplit(fn *ssa.Function) bool {
	if fn == nil || fn.Signature.Recv() != nil || fn.Signature.Params().Len() != 1 || fn.Signature.Results().Len() != 2 {
		return false
	}
	for _, t := range []types.Type{fn.Signature.Params().At(0).Type(), fn.Signature.Results().At(0).Type(), fn.Signature.Results().At(1).Type()} {
		if b, ok := t.Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
			return false
		}
	}
	return true
}

// isNameFn: a function from name to name.
func isNameFn(fn *ssa.Function) bool {
	if fn == nil || fn.Signature.Recv() != nil || fn.Signature.Params().Len() != 1 || fn.Signature.Results().Len() != 1 {
		return false
	}
	for _, t := range []types.Type{fn.Signature.Params().At(0).Type(), fn.Signature.Results().At(0).Type()} {
		if b, ok := t.Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
			return false
		}
	}
	return true
}

// rangeBody: the instructions of the loop over rg.
func rangeBody(rg *ssa.Range) []ssa.Instruction {
	var next *ssa.Next
	for _, r := range *rg.Referrers() {
		if n, ok := r.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return nil
	}
	head := next.Block()
	var out []ssa.Instruction
	seen := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if seen[b] || !head.Dominates(b) {
			return
		}
		seen[b] = true
		out = append(out, b.Instrs...)
		if b != head {
			for _, q := range b.Preds {
				back(q)
			}
		}
	}
	seen[head] = false
	for _, q := range head.Preds {
		if head.Dominates(q) {
			back(q)
		}
	}
	return out
}

// siteKey: an append and the calls that lead to it.
func siteKey(p *Prog, ctx *Ctx, a *ssa.Call) string {
	k := fmt.Sprint(p.vid(a))
	for ; ctx != nil && ctx.call != nil; ctx = ctx.parent {
		if v, ok := ctx.call.(ssa.Value); ok {
			k += fmt.Sprintf("/%d", p.vid(v))
		}
	}
	return k
}
