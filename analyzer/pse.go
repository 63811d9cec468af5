package main

// Path-sensitive typestate dataflow (property simulation) over the SSA form
// with virtual inlining of module functions. Abstract values are hash-consed
// terms over program points; a program point executed again (loop) renames its
// previous value to a summary "old" value, so the domain is finite.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type AV int32

type NK uint8

const (
	kSym NK = iota + 1
	kOld
	kConst
	kAlloc
	kField // address of field: args[0] base, tag index
	kIndex // address of element
	kGlobal
	kFunc
	kClosure
	kIface
	kTuple
	kOp
)

type node struct {
	k     NK
	tag   string
	ctx   *Ctx
	v     ssa.Value
	args  []AV
	typ   types.Type
	fn    *ssa.Function
	g     *ssa.Global
	cv    *ssa.Const
	depth int
	syms  []AV // base symbols contained
}

type Ctx struct {
	id     int
	parent *Ctx
	call   ssa.Instruction // call site in parent (Call, or RunDefers for defers)
	def    *ssa.Defer
	fn     *ssa.Function
	depth  int
	inLoop bool
}

type Val struct {
	c *Ctx
	v ssa.Value
}

type deferRec struct {
	ctx  *Ctx
	d    *ssa.Defer
	fn   AV
	args []AV
}

type traceNode struct {
	prev *traceNode
	s    string
}

type State struct {
	env   map[Val]AV
	mem   map[AV]AV
	facts map[AV]int8 // +1 true/nonnil, -1 false/nil
	ceq   map[AV]AV   // value known equal to constant
	marks map[AV]string
	flags map[string]string
	defs  []deferRec
	havoc map[AV]bool
	trace *traceNode
	dead  bool
}

func newState() *State {
	return &State{env: map[Val]AV{}, mem: map[AV]AV{}, facts: map[AV]int8{}, ceq: map[AV]AV{}, marks: map[AV]string{}, flags: map[string]string{}, havoc: map[AV]bool{}}
}

func (s *State) clone() *State {
	n := &State{env: make(map[Val]AV, len(s.env)), mem: make(map[AV]AV, len(s.mem)), facts: make(map[AV]int8, len(s.facts)), ceq: make(map[AV]AV, len(s.ceq)), marks: make(map[AV]string, len(s.marks)), flags: make(map[string]string, len(s.flags)), havoc: make(map[AV]bool, len(s.havoc)), trace: s.trace}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.ceq {
		n.ceq[k] = v
	}
	for k, v := range s.marks {
		n.marks[k] = v
	}
	for k, v := range s.flags {
		n.flags[k] = v
	}
	for k, v := range s.havoc {
		n.havoc[k] = v
	}
	n.defs = append([]deferRec{}, s.defs...)
	return n
}

func (s *State) note(f string, a ...any) {
	s.trace = &traceNode{s.trace, fmt.Sprintf(f, a...)}
}

func (s *State) path() string {
	var out []string
	for t := s.trace; t != nil && len(out) < 14; t = t.prev {
		out = append(out, t.s)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return strings.Join(out, " > ")
}

// Site is a call as seen by hooks.
type Site struct {
	ctx   *Ctx
	instr ssa.CallInstruction
	c     *ssa.CallCommon
	name  string        // full name of static callee / interface method / builtin
	fn    *ssa.Function // resolved callee, if known
	args  []AV          // receiver first
	res   AV            // default result symbol
}

func (s *Site) pos(e *Engine) string { return e.p.ipos(s.instr) }

// method reports the bare name of the callee.
func (s *Site) method() string {
	n := s.name
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		n = n[i+1:]
	}
	return n
}

type Hooks struct {
	// Call may handle a call itself: return (result, true).
	Call func(e *Engine, st *State, s *Site) (AV, bool)
	// After is told about every opaque call after its result was set up.
	After  func(e *Engine, st *State, s *Site, res AV)
	Store  func(e *Engine, st *State, ctx *Ctx, in *ssa.Store, addr, val AV)
	Load   func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV)
	Instr  func(e *Engine, st *State, ctx *Ctx, in ssa.Instruction)
	Assume func(e *Engine, st *State, cond AV, truth bool)
	Ret    func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) // inlined return
	Exit   func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV)
	Inline func(e *Engine, ctx *Ctx, s *Site) bool
	Prune  func(e *Engine, st *State)
	Carry  func(e *Engine, st *State, val, phi AV) // a loop variable takes a value
	Deref  func(e *Engine, st *State, ctx *Ctx, in ssa.Instruction, ptr AV)
	// Head is told about every edge into a loop header before the loop
	// variables take their values.
	Head func(e *Engine, st *State, ctx *Ctx, from, to *ssa.BasicBlock, phis []*ssa.Phi, vals []AV)
}

type Engine struct {
	p      *Prog
	nodes  []node
	intern map[string]AV
	h      Hooks
	ctxs   map[string]*Ctx
	K      int
	limit  int
	steps  int
	seen   map[string]map[string]bool
	lists  map[string][]*State
	work   []item
	nodesN int
	fi     map[*ssa.Function]*fnInfo
	merges int
	inl    map[string]int // inlined function names
	frozen bool

	peel     bool // the first iteration of a loop knows the initial values
	maps     bool // membership in maps is a fact about the map and the key
	keyBools bool // states that differ in a known boolean are kept apart
}

type item struct {
	ctx *Ctx
	b   *ssa.BasicBlock
	idx int
	st  *State
}

type fnInfo struct {
	liveIn  map[*ssa.BasicBlock]map[ssa.Value]bool
	inLoop  map[*ssa.BasicBlock]bool
	header  map[*ssa.BasicBlock]bool
	liveAft map[ssa.Instruction]map[ssa.Value]bool
}

func newEngine(p *Prog, h Hooks) *Engine {
	e := &Engine{p: p, intern: map[string]AV{}, ctxs: map[string]*Ctx{}, K: 64, limit: 3000000, fi: map[*ssa.Function]*fnInfo{}, inl: map[string]int{}}
	e.h = h
	e.nodes = make([]node, 1, 4096)
	return e
}

// ---- terms

const maxDepth = 9

func (e *Engine) mk(key string, n node) AV {
	if a, ok := e.intern[key]; ok {
		return a
	}
	d := 0
	set := map[AV]bool{}
	for _, a := range n.args {
		if e.nodes[a].depth > d {
			d = e.nodes[a].depth
		}
		for _, s := range e.nodes[a].syms {
			set[s] = true
		}
	}
	n.depth = d + 1
	a := AV(len(e.nodes))
	if n.k == kSym || n.k == kOld || n.k == kAlloc {
		set[a] = true
	}
	for s := range set {
		n.syms = append(n.syms, s)
	}
	sort.Slice(n.syms, func(i, j int) bool { return n.syms[i] < n.syms[j] })
	e.nodes = append(e.nodes, n)
	e.intern[key] = a
	return a
}

func (e *Engine) n(a AV) *node { return &e.nodes[a] }

func (e *Engine) sym(c *Ctx, v ssa.Value, tag string) AV {
	id := 0
	if c != nil {
		id = c.id
	}
	return e.mk(fmt.Sprintf("S%d:%d:%s", id, e.p.vid(v), tag), node{k: kSym, ctx: c, v: v, tag: tag, typ: v.Type()})
}

// named symbol with no program point
func (e *Engine) free(tag string, t types.Type) AV {
	return e.mk("F"+tag, node{k: kSym, tag: tag, typ: t})
}

func (e *Engine) alloc(c *Ctx, v ssa.Value) AV {
	return e.mk(fmt.Sprintf("A%d:%d", c.id, e.p.vid(v)), node{k: kAlloc, ctx: c, v: v, typ: v.Type()})
}

func (e *Engine) old(a AV) AV {
	n := e.n(a)
	return e.mk(fmt.Sprintf("O%d", a), node{k: kOld, ctx: n.ctx, v: n.v, typ: n.typ, tag: n.tag, fn: n.fn})
}

func (e *Engine) konst(c *ssa.Const) AV {
	val := "nil"
	if c.Value != nil {
		val = c.Value.ExactString()
	} else if !isNilable(c.Type()) {
		val = "zero"
	}
	if c.Value == nil && isNilable(c.Type()) {
		return e.mk("Knil", node{k: kConst, cv: c, tag: "nil"})
	}
	return e.mk("K"+val+":"+kindOf(c.Type()), node{k: kConst, cv: c, tag: val, typ: c.Type()})
}

func kindOf(t types.Type) string {
	if b, ok := t.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsNumeric != 0 {
			return "num"
		}
		return b.Name()
	}
	return types.TypeString(t, nil)
}

func (e *Engine) nilAV() AV {
	return e.mk("Knil", node{k: kConst, tag: "nil"})
}

func (e *Engine) boolAV(b bool) AV {
	return e.konst(ssa.NewConst(constant.MakeBool(b), types.Typ[types.Bool]))
}

func (e *Engine) zero(t types.Type) AV { return e.konst(ssa.NewConst(zeroVal(t), t)) }

func zeroVal(t types.Type) constant.Value {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.MakeBool(false)
		case b.Info()&types.IsNumeric != 0:
			return constant.MakeInt64(0)
		case b.Info()&types.IsString != 0:
			return constant.MakeString("")
		}
	}
	return nil
}

func (e *Engine) op(tag string, t types.Type, args ...AV) AV {
	for _, a := range args {
		if a == 0 {
			panic("op with invalid arg " + tag)
		}
	}
	var sb strings.Builder
	sb.WriteString("P")
	sb.WriteString(tag)
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(int(a)))
	}
	return e.mk(sb.String(), node{k: kOp, tag: tag, args: args, typ: t})
}

func (e *Engine) field(base AV, i int, structT types.Type) AV {
	return e.mk(fmt.Sprintf("f%d.%d:%s", base, i, types.TypeString(structT, nil)), node{k: kField, tag: strconv.Itoa(i), args: []AV{base}, typ: structT})
}

func (e *Engine) isNil(a AV) bool   { return e.n(a).k == kConst && e.n(a).tag == "nil" }
func (e *Engine) isConst(a AV) bool { return e.n(a).k == kConst }

func (e *Engine) constOf(a AV) constant.Value {
	n := e.n(a)
	if n.k != kConst || n.cv == nil {
		return nil
	}
	if n.cv.Value == nil {
		return zeroVal(n.cv.Type())
	}
	return n.cv.Value
}

func (e *Engine) boolOf(st *State, a AV) int8 {
	if v := e.constOf(a); v != nil && v.Kind() == constant.Bool {
		if constant.BoolVal(v) {
			return 1
		}
		return -1
	}
	n := e.n(a)
	if n.k == kOp && n.tag == "!" {
		return -e.boolOf(st, n.args[0])
	}
	if f := st.facts[a]; f != 0 {
		return f
	}
	if e.peel && n.k == kOp && n.tag == "<" && isIntT(e.typOf(n.args[0])) {
		x, y := e.lin(st, n.args[0]), e.lin(st, n.args[1])
		if e.nonneg(st, y.add(x, -1).add(lin{c: 1}, -1)) {
			return 1
		}
		if e.nonneg(st, x.add(y, -1)) {
			return -1
		}
	}
	if n.k == kOp && n.tag == "==" {
		x, y := n.args[0], n.args[1]
		if x == y {
			return 1
		}
		if e.isNil(y) {
			return -e.nilness(st, x)
		}
		if e.isNil(x) {
			return -e.nilness(st, y)
		}
		if c := e.constOf(y); c != nil {
			if k, ok := st.ceq[x]; ok {
				if k == y {
					return 1
				}
				return -1
			}
			if kc := e.constOf(x); kc != nil {
				if constant.Compare(kc, token.EQL, c) {
					return 1
				}
				return -1
			}
		}
		// distinct immutable globals differ
	}
	return 0
}

// nilness: +1 nonnil, -1 nil, 0 unknown
func (e *Engine) nilness(st *State, a AV) int8 {
	n := e.n(a)
	switch n.k {
	case kConst:
		if n.tag == "nil" {
			return -1
		}
		return 1
	case kAlloc, kField, kIndex, kFunc, kClosure, kIface, kGlobal:
		return 1
	}
	if f := st.facts[a]; f != 0 {
		return f
	}
	if n.k == kOp {
		switch n.tag {
		case "errorf", "errnew":
			return 1
		case "gerr":
			return 1
		case "gload":
			if g := e.nodes[n.args[0]].g; g != nil && g.Pkg.Pkg.Path() == "io" {
				return 1
			}
		case "joinerr":
			r := int8(-1)
			for _, x := range n.args {
				switch e.nilness(st, x) {
				case 1:
					return 1
				case 0:
					r = 0
				}
			}
			return r
		case "app":
			if len(n.args) > 1 {
				return 1
			}
		}
	}
	return 0
}

// nilnessT: nilness of a value of a type that can be nil, else 0.
func (e *Engine) nilnessT(st *State, a AV, t types.Type) int8 {
	switch t.Underlying().(type) {
	case *types.Interface, *types.Pointer, *types.Slice, *types.Map, *types.Signature:
		return e.nilness(st, a)
	}
	return 0
}

func (e *Engine) str(a AV) string {
	if a == 0 {
		return "<none>"
	}
	n := e.n(a)
	arg := func() string {
		var s []string
		for _, x := range n.args {
			s = append(s, e.str(x))
		}
		return strings.Join(s, ",")
	}
	switch n.k {
	case kSym, kOld:
		nm := n.tag
		if n.v != nil {
			if c, ok := n.v.(*ssa.Call); ok {
				nm = "call " + shortName(staticName(&c.Call)) + nm
			} else {
				nm = n.v.Name() + nm
			}
		}
		if n.k == kOld {
			nm += "'"
		}
		return nm
	case kConst:
		return n.tag
	case kAlloc:
		return "new(" + n.v.Name() + ")"
	case kField:
		i, _ := strconv.Atoi(n.tag)
		return e.str(n.args[0]) + "." + fieldName(n.typ, i)
	case kIndex:
		return "idx(" + arg() + ")"
	case kGlobal:
		return n.g.Name()
	case kFunc:
		return n.fn.Name()
	case kIface:
		return e.str(n.args[0])
	}
	return n.tag + "(" + arg() + ")"
}

func shortName(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		s = s[i+1:]
	}
	return strings.Trim(s, "()")
}

// subst replaces symbol from by to inside a.
func (e *Engine) subst(a, from, to AV) AV {
	if a == 0 {
		return 0
	}
	if a == from {
		return to
	}
	n := e.nodes[a]
	has := false
	for _, s := range n.syms {
		if s == from {
			has = true
			break
		}
	}
	if !has {
		return a
	}
	args := make([]AV, len(n.args))
	for i, x := range n.args {
		args[i] = e.subst(x, from, to)
	}
	return e.rebuild(n, args)
}

func (e *Engine) rebuild(n node, args []AV) AV {
	switch n.k {
	case kField:
		i, _ := strconv.Atoi(n.tag)
		return e.field(args[0], i, n.typ)
	case kIndex:
		return e.index(args[0], args[1])
	case kIface:
		return e.iface(n.typ, args[0])
	case kTuple:
		return e.tuple(args)
	case kClosure:
		return e.closure(n.fn, args)
	case kOp:
		switch n.tag {
		case "joinerr", "app":
			return e.setOp(n.tag, n.typ, args)
		}
		return e.op(n.tag, n.typ, args...)
	}
	panic("rebuild")
}

func (e *Engine) setOp(tag string, t types.Type, args []AV) AV {
	set := map[AV]bool{}
	var out []AV
	for _, a := range args {
		l := []AV{a}
		if n := e.n(a); n.k == kOp && n.tag == tag {
			l = n.args
		}
		for _, x := range l {
			if !set[x] {
				set[x] = true
				out = append(out, x)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return e.op(tag, t, out...)
}

func (e *Engine) index(b, i AV) AV {
	return e.mk(fmt.Sprintf("i%d[%d]", b, i), node{k: kIndex, args: []AV{b, i}})
}

func (e *Engine) iface(t types.Type, x AV) AV {
	return e.mk(fmt.Sprintf("I%s:%d", types.TypeString(t, nil), x), node{k: kIface, typ: t, args: []AV{x}})
}

func (e *Engine) tuple(args []AV) AV {
	var sb strings.Builder
	sb.WriteString("T")
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a)
	}
	return e.mk(sb.String(), node{k: kTuple, args: args})
}

func (e *Engine) closure(fn *ssa.Function, b []AV) AV {
	var sb strings.Builder
	fmt.Fprintf(&sb, "C%d", e.p.vid(fn))
	for _, a := range b {
		fmt.Fprintf(&sb, ",%d", a)
	}
	return e.mk(sb.String(), node{k: kClosure, fn: fn, args: b})
}

func (e *Engine) substState(st *State, from, to AV) {
	toLive := false
	check := func(a AV) {
		if a == 0 || toLive {
			return
		}
		for _, s := range e.nodes[a].syms {
			if s == to {
				toLive = true
				return
			}
		}
	}
	uses := func(a AV) bool {
		if a == 0 {
			return false
		}
		for _, s := range e.nodes[a].syms {
			if s == from {
				return true
			}
		}
		return false
	}
	any := false
	visit := func(a AV) {
		check(a)
		if !any && uses(a) {
			any = true
		}
	}
	for _, v := range st.env {
		visit(v)
	}
	for k, v := range st.mem {
		visit(k)
		visit(v)
	}
	for k := range st.facts {
		visit(k)
	}
	for k := range st.ceq {
		visit(k)
	}
	for k := range st.marks {
		visit(k)
	}
	for k := range st.havoc {
		visit(k)
	}
	for _, d := range st.defs {
		visit(d.fn)
		for _, a := range d.args {
			visit(a)
		}
	}
	if !any {
		return
	}
	for k, v := range st.env {
		if uses(v) {
			st.env[k] = e.subst(v, from, to)
		}
	}
	for k, v := range st.mem {
		if uses(k) || uses(v) {
			delete(st.mem, k)
			nk := e.subst(k, from, to)
			nv := e.subst(v, from, to)
			if o, ok := st.mem[nk]; ok && o != nv {
				delete(st.mem, nk)
				st.havoc[e.root(nk)] = true
				continue
			}
			st.mem[nk] = nv
		}
	}
	// what is known of both the renamed value and the one it joins stays known
	both := map[AV]int8{}
	for k, v := range st.facts {
		if uses(k) {
			delete(st.facts, k)
			nk := e.subst(k, from, to)
			if !toLive {
				st.facts[nk] = v
			} else if w, ok := st.facts[nk]; ok && w == v {
				both[nk] = v
			}
		}
	}
	if toLive {
		for k := range st.facts {
			for _, s := range e.nodes[k].syms {
				if s == to {
					if _, ok := both[k]; !ok {
						delete(st.facts, k)
					}
					break
				}
			}
		}
		for k := range st.ceq {
			for _, s := range e.nodes[k].syms {
				if s == to {
					delete(st.ceq, k)
					break
				}
			}
		}
	}
	for k, v := range st.ceq {
		if uses(k) {
			delete(st.ceq, k)
			if !toLive {
				st.ceq[e.subst(k, from, to)] = v
			}
		}
	}
	for k, v := range st.marks {
		if uses(k) {
			delete(st.marks, k)
			nk := e.subst(k, from, to)
			if o, ok := st.marks[nk]; ok && o != v {
				parts := map[string]bool{}
				for _, x := range strings.Split(o+"|"+v, "|") {
					parts[x] = true
				}
				var ps []string
				for x := range parts {
					ps = append(ps, x)
				}
				sort.Strings(ps)
				v = strings.Join(ps, "|")
			}
			st.marks[nk] = v
		}
	}
	for k, v := range st.havoc {
		if uses(k) {
			delete(st.havoc, k)
			st.havoc[e.subst(k, from, to)] = v
		}
	}
	for i := range st.defs {
		d := &st.defs[i]
		d.fn = e.subst(d.fn, from, to)
		args := make([]AV, len(d.args))
		for j, a := range d.args {
			args[j] = e.subst(a, from, to)
		}
		d.args = args
	}
}

// root strips field/index addressing.
func (e *Engine) root(a AV) AV {
	for {
		n := e.n(a)
		if n.k == kField || n.k == kIndex {
			a = n.args[0]
			continue
		}
		if n.k == kOp && (n.tag == "slice") {
			a = n.args[0]
			continue
		}
		return a
	}
}

// ---- function info

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if f := e.fi[fn]; f != nil {
		return f
	}
	f := &fnInfo{liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}, inLoop: map[*ssa.BasicBlock]bool{}, header: map[*ssa.BasicBlock]bool{}, liveAft: map[ssa.Instruction]map[ssa.Value]bool{}}
	e.fi[fn] = f
	// loops: SCC membership by reachability
	reach := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		m := map[*ssa.BasicBlock]bool{}
		var w []*ssa.BasicBlock
		w = append(w, b.Succs...)
		for len(w) > 0 {
			x := w[len(w)-1]
			w = w[:len(w)-1]
			if m[x] {
				continue
			}
			m[x] = true
			w = append(w, x.Succs...)
		}
		reach[b] = m
		if m[b] {
			f.inLoop[b] = true
		}
	}
	for _, b := range fn.Blocks {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				f.header[b] = true
			}
		}
	}
	// liveness
	for _, b := range fn.Blocks {
		f.liveIn[b] = map[ssa.Value]bool{}
	}
	tracked := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
			return false
		}
		return true
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				pi := predIndex(s, b)
				for v := range f.liveIn[s] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					live[v] = true
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					_ = pi
					for k, p := range s.Preds {
						if p == b && tracked(ph.Edges[k]) {
							live[ph.Edges[k]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				if ph, ok := in.(*ssa.Phi); ok {
					live[ph] = true // set on entry
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && tracked(*op) {
						live[*op] = true
					}
				}
			}
			if len(live) != len(f.liveIn[b]) {
				f.liveIn[b] = live
				ch = true
			} else {
				for v := range live {
					if !f.liveIn[b][v] {
						f.liveIn[b] = live
						ch = true
						break
					}
				}
			}
		}
	}
	return f
}

func predIndex(s, b *ssa.BasicBlock) int {
	for i, p := range s.Preds {
		if p == b {
			return i
		}
	}
	return -1
}

func (e *Engine) liveAfter(in ssa.Instruction) map[ssa.Value]bool {
	fn := in.Parent()
	f := e.info(fn)
	if l := f.liveAft[in]; l != nil {
		return l
	}
	b := in.Block()
	live := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range f.liveIn[s] {
			if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
				continue
			}
			live[v] = true
		}
		for _, x := range s.Instrs {
			ph, ok := x.(*ssa.Phi)
			if !ok {
				break
			}
			for k, p := range s.Preds {
				if p == b {
					live[ph.Edges[k]] = true
				}
			}
		}
	}
	for j := len(b.Instrs) - 1; j >= 0; j-- {
		x := b.Instrs[j]
		if x == in {
			break
		}
		if v, ok := x.(ssa.Value); ok {
			delete(live, v)
		}
		for _, op := range x.Operands(nil) {
			if *op != nil {
				live[*op] = true
			}
		}
	}
	f.liveAft[in] = live
	return live
}

// ---- state canonicalisation

func (e *Engine) prune(st *State, ctx *Ctx, live map[ssa.Value]bool) {
	for k := range st.env {
		if k.c == ctx && !live[k.v] {
			delete(st.env, k)
		}
	}
	if e.h.Prune != nil {
		e.h.Prune(e, st)
	}
	// reachable terms
	keep := map[AV]bool{}
	var visit func(a AV)
	visit = func(a AV) {
		if a == 0 || keep[a] {
			return
		}
		keep[a] = true
		n := e.nodes[a]
		for _, x := range n.args {
			visit(x)
		}
	}
	visit(e.free("_", types.Typ[types.Int]))
	for _, v := range st.env {
		visit(v)
	}
	for k := range st.marks {
		visit(k)
	}
	for _, d := range st.defs {
		visit(d.fn)
		for _, a := range d.args {
			visit(a)
		}
	}
	for ch := true; ch; {
		ch = false
		for k, v := range st.mem {
			if !keep[v] && e.addrLive(k, keep) {
				visit(v)
				ch = true
			}
		}
	}
	for k := range st.mem {
		if !e.addrLive(k, keep) {
			delete(st.mem, k)
		}
	}
	live2 := func(a AV) bool {
		for _, s := range e.nodes[a].syms {
			if !keep[s] {
				return false
			}
		}
		return true
	}
	for k := range st.facts {
		if !live2(k) {
			delete(st.facts, k)
		}
	}
	for k := range st.ceq {
		if !live2(k) {
			delete(st.ceq, k)
		}
	}
	for k := range st.havoc {
		if !live2(k) {
			delete(st.havoc, k)
		}
	}
}

func (e *Engine) addrLive(a AV, keep map[AV]bool) bool {
	if keep[a] {
		return true
	}
	r := e.root(a)
	n := e.n(r)
	if n.k == kGlobal {
		return true
	}
	if keep[r] {
		return true
	}
	if n.k == kSym && n.v != nil {
		if _, ok := n.v.(*ssa.Parameter); ok && n.ctx != nil && n.ctx.parent == nil {
			return true
		}
	}
	// address rooted at something loaded from a live address
	for _, s := range e.nodes[r].syms {
		if !keep[s] {
			return false
		}
	}
	return len(e.nodes[r].syms) > 0
}

func (e *Engine) key(st *State) string {
	var parts []string
	for k, v := range st.env {
		parts = append(parts, fmt.Sprintf("e%d.%p=%d", k.c.id, k.v, v))
	}
	for k, v := range st.mem {
		parts = append(parts, fmt.Sprintf("m%d=%d", k, v))
	}
	for k, v := range st.facts {
		parts = append(parts, fmt.Sprintf("f%d=%d", k, v))
	}
	for k, v := range st.ceq {
		parts = append(parts, fmt.Sprintf("c%d=%d", k, v))
	}
	for k := range st.havoc {
		parts = append(parts, fmt.Sprintf("h%d", k))
	}
	sort.Strings(parts)
	return e.autoKey(st) + "#" + strings.Join(parts, ";")
}

func (e *Engine) autoKey(st *State) string {
	var parts []string
	for k, v := range st.marks {
		parts = append(parts, fmt.Sprintf("M%d=%s", k, v))
	}
	for k, v := range st.flags {
		parts = append(parts, fmt.Sprintf("G%s=%s", k, v))
	}
	sort.Strings(parts)
	for _, d := range st.defs {
		parts = append(parts, fmt.Sprintf("D%d.%p", d.ctx.id, d.d))
	}
	n := len(parts)
	if e.keyBools {
		for k, v := range st.env {
			if isBoolT(k.v.Type()) {
				if x := e.boolOf(st, v); x != 0 {
					parts = append(parts, fmt.Sprintf("B%d.%p=%d", k.c.id, k.v, x))
				}
			}
			if tt, ok := k.v.Type().(*types.Tuple); ok {
				if n := e.n(v); n.k == kTuple {
					for i, y := range n.args {
						if i < tt.Len() && isBoolT(tt.At(i).Type()) {
							parts = append(parts, fmt.Sprintf("B%d.%p.%d=%d", k.c.id, k.v, i, e.boolOf(st, y)))
						}
					}
				}
			}
		}
		for k, v := range st.mem {
			if isBoolT(e.typOf(v)) {
				if x := e.boolOf(st, v); x != 0 {
					parts = append(parts, fmt.Sprintf("B%d=%d", k, x))
				}
			}
		}
	}
	for k, v := range st.env {
		// error values are never merged with each other
		if isErrorType(k.v.Type()) {
			parts = append(parts, fmt.Sprintf("E%d.%p=%d.%d", k.c.id, k.v, v, st.facts[v]))
		}
	}
	sort.Strings(parts[n:])
	return strings.Join(parts, ";")
}

func (e *Engine) merge(a, b *State, where string) *State {
	n := a.clone()
	e.merges++
	nils := map[AV]int8{}
	join := func(v, w, s AV, t types.Type) AV {
		if v == w {
			return v
		}
		if isBoolT(t) {
			if l := e.boolOf(a, v); l == e.boolOf(b, w) {
				nils[s] = l
			} else {
				nils[s] = 0
			}
			return s
		}
		if l := e.nilnessT(a, v, t); l != 0 && l == e.nilnessT(b, w, t) {
			nils[s] = l
		} else {
			nils[s] = 0
		}
		return s
	}
	for k, v := range a.env {
		w, ok := b.env[k]
		if !ok {
			delete(n.env, k)
			continue
		}
		if v != w {
			x, y := e.nodes[v], e.nodes[w]
			if x.k == kTuple && y.k == kTuple && len(x.args) == len(y.args) {
				if tt, ok := k.v.Type().(*types.Tuple); ok && tt.Len() == len(x.args) {
					var args []AV
					for i := range x.args {
						args = append(args, join(x.args[i], y.args[i], e.ext(e.sym(k.c, k.v, "~"+where), i, tt.At(i).Type()), tt.At(i).Type()))
					}
					n.env[k] = e.tuple(args)
					continue
				}
			}
			n.env[k] = join(v, w, e.sym(k.c, k.v, "~"+where), k.v.Type())
		}
	}
	for k, v := range a.mem {
		if w, ok := b.mem[k]; !ok || w != v {
			delete(n.mem, k)
			n.havoc[e.root(k)] = true
		}
	}
	for k := range b.mem {
		if _, ok := a.mem[k]; !ok {
			n.havoc[e.root(k)] = true
		}
	}
	for k, v := range a.facts {
		if b.facts[k] != v {
			delete(n.facts, k)
		}
	}
	for k, l := range nils {
		if l == 0 {
			delete(n.facts, k)
		} else {
			n.facts[k] = l
		}
	}
	for k, v := range a.ceq {
		if b.ceq[k] != v {
			delete(n.ceq, k)
		}
	}
	for k := range b.havoc {
		n.havoc[k] = true
	}
	return n
}

func (e *Engine) push(ctx *Ctx, b *ssa.BasicBlock, idx int, st *State) {
	if st.dead {
		return
	}
	where := fmt.Sprintf("%d.%p.%d", ctx.id, b, idx)
	k := e.key(st)
	if e.seen[where] == nil {
		e.seen[where] = map[string]bool{}
	}
	if e.seen[where][k] {
		return
	}
	l := e.lists[where]
	if len(l) >= e.K {
		ak := e.autoKey(st)
		for i, o := range l {
			if e.autoKey(o) == ak {
				m := e.merge(o, st, fmt.Sprintf("%d.%d.%d", ctx.id, b.Index, idx))
				mk := e.key(m)
				if e.seen[where][mk] {
					return
				}
				l[i] = m
				st, k = m, mk
				break
			}
		}
	} else {
		e.lists[where] = append(l, st)
	}
	e.seen[where][k] = true
	e.work = append(e.work, item{ctx, b, idx, st.clone()})
}

// ---- running

func (e *Engine) root0(fn *ssa.Function) *Ctx {
	key := fmt.Sprintf("root:%d", e.p.vid(fn))
	c := e.ctxs[key]
	if c == nil {
		c = &Ctx{id: len(e.ctxs) + 1, fn: fn}
		e.ctxs[key] = c
	}
	return c
}

func (e *Engine) param(ctx *Ctx, i int) AV { return e.sym(ctx, ctx.fn.Params[i], "") }

// Run analyses fn as a root; init may set up the entry state.
func (e *Engine) Run(fn *ssa.Function, init func(e *Engine, ctx *Ctx, st *State)) {
	ctx := e.root0(fn)
	e.seen = map[string]map[string]bool{}
	e.lists = map[string][]*State{}
	e.work = nil
	st := newState()
	for _, p := range fn.Params {
		st.env[Val{ctx, p}] = e.sym(ctx, p, "")
	}
	for _, p := range fn.FreeVars {
		st.env[Val{ctx, p}] = e.sym(ctx, p, "")
	}
	if init != nil {
		init(e, ctx, st)
	}
	e.push(ctx, fn.Blocks[0], 0, st)
	for len(e.work) > 0 {
		it := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.steps++
		if e.steps > e.limit {
			panic(fmt.Sprintf("analysis of %s did not converge", e.p.fname(fn)))
		}
		e.exec(it)
	}
}

func (e *Engine) eval(st *State, ctx *Ctx, v ssa.Value) AV {
	switch x := v.(type) {
	case *ssa.Const:
		return e.konst(x)
	case *ssa.Global:
		return e.mk(fmt.Sprintf("G%d", e.p.vid(x)), node{k: kGlobal, g: x, typ: x.Type()})
	case *ssa.Function:
		return e.mk(fmt.Sprintf("N%d", e.p.vid(x)), node{k: kFunc, fn: x, typ: x.Type()})
	case *ssa.Builtin:
		return e.free("builtin."+x.Name(), x.Type())
	}
	if a, ok := st.env[Val{ctx, v}]; ok {
		return a
	}
	return e.sym(ctx, v, "")
}

func (e *Engine) set(st *State, ctx *Ctx, v ssa.Value, a AV) {
	if e.n(a).depth > maxDepth {
		nl := e.nilnessT(st, a, v.Type())
		a = e.fresh(st, ctx, v, "^")
		if nl != 0 {
			st.facts[a] = nl
		}
	}
	st.env[Val{ctx, v}] = a
}

// fresh creates the symbol for v at ctx, renaming its previous incarnation.
func (e *Engine) fresh(st *State, ctx *Ctx, v ssa.Value, tag string) AV {
	a := e.sym(ctx, v, tag)
	e.renew(st, ctx, v, a)
	return a
}

func (e *Engine) renew(st *State, ctx *Ctx, v ssa.Value, a AV) {
	loop := ctx.inLoop
	if in, ok := v.(ssa.Instruction); ok && in.Block() != nil && e.info(in.Parent()).inLoop[in.Block()] {
		loop = true
	}
	if ctx.def != nil {
		loop = true
	}
	if loop {
		delete(st.env, Val{ctx, v})
		e.substState(st, a, e.old(a))
	}
}

func (e *Engine) exec(it item) {
	ctx, b, st := it.ctx, it.b, it.st
	for i := it.idx; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if e.h.Instr != nil {
			e.h.Instr(e, st, ctx, in)
			if st.dead {
				return
			}
		}
		switch x := in.(type) {
		case *ssa.Phi:
			// handled on edges
		case *ssa.If:
			e.branch(ctx, b, st, e.eval(st, ctx, x.Cond), x)
			return
		case *ssa.Jump:
			e.goTo(ctx, b, b.Succs[0], st)
			return
		case *ssa.Return:
			vals := make([]AV, len(x.Results))
			for k, r := range x.Results {
				vals[k] = e.eval(st, ctx, r)
			}
			e.ret(ctx, st, x, vals)
			return
		case *ssa.Panic:
			return
		case *ssa.RunDefers:
			if e.runDefers(ctx, b, i, st) {
				return
			}
		case *ssa.Defer:
			d := deferRec{ctx: ctx, d: x}
			if x.Call.IsInvoke() {
				d.args = append(d.args, e.eval(st, ctx, x.Call.Value))
			} else {
				d.fn = e.eval(st, ctx, x.Call.Value)
			}
			for _, a := range x.Call.Args {
				d.args = append(d.args, e.eval(st, ctx, a))
			}
			st.defs = append(st.defs, d)
		case *ssa.Call:
			s := e.site(st, ctx, x, &x.Call)
			if e.call(ctx, b, i, st, s, x, nil) {
				return
			}
		case *ssa.Go:
			s := e.site(st, ctx, x, &x.Call)
			e.clobber(st, s)
		default:
			e.step(ctx, st, in)
		}
		if st.dead {
			return
		}
	}
}

func (e *Engine) site(st *State, ctx *Ctx, in ssa.CallInstruction, c *ssa.CallCommon) *Site {
	s := &Site{ctx: ctx, instr: in, c: c, name: staticName(c)}
	if c.IsInvoke() {
		recv := e.eval(st, ctx, c.Value)
		s.args = append(s.args, recv)
		e.resolveInvoke(s, recv)
	} else {
		fv := e.eval(st, ctx, c.Value)
		n := e.n(fv)
		switch n.k {
		case kFunc:
			s.fn = n.fn
			s.name = fnFull(n.fn)
		case kClosure:
			s.fn = n.fn
			s.name = fnFull(n.fn)
		}
	}
	for _, a := range c.Args {
		s.args = append(s.args, e.eval(st, ctx, a))
	}
	return s
}

func (e *Engine) resolveInvoke(s *Site, recv AV) {
	n := e.n(recv)
	if n.k != kIface {
		return
	}
	sel := e.p.ssa.MethodSets.MethodSet(n.typ).Lookup(s.c.Method.Pkg(), s.c.Method.Name())
	if sel == nil {
		return
	}
	if o, ok := sel.Obj().(*types.Func); ok {
		if f := e.p.ssa.FuncValue(o); f != nil && len(sel.Index()) == 1 {
			// receiver kind must match (no auto-address/deref wrappers)
			if f.Signature.Recv() != nil && types.Identical(f.Signature.Recv().Type(), n.typ) {
				s.fn = f
				s.args[0] = n.args[0]
				s.name = fnFull(f)
			}
		}
	}
}

// call executes a call; returns true if control left this item (inlined).
// cont, when non-nil, is the RunDefers context.
func (e *Engine) call(ctx *Ctx, b *ssa.BasicBlock, i int, st *State, s *Site, v ssa.Value, d *ssa.Defer) bool {
	if bi, ok := s.c.Value.(*ssa.Builtin); ok && !s.c.IsInvoke() {
		if e.h.Call != nil {
			if r, ok := e.h.Call(e, st, s); ok {
				if v != nil {
					e.set(st, ctx, v, r)
				}
				return false
			}
		}
		if v != nil {
			e.builtin(ctx, st, bi.Name(), s, v)
		}
		return false
	}
	if e.h.Call != nil {
		if r, ok := e.h.Call(e, st, s); ok {
			if st.dead {
				return true
			}
			if v != nil {
				e.set(st, ctx, v, r)
			}
			return false
		}
	}
	if r := e.model(st, ctx, s, v); r != 0 {
		if v != nil {
			e.set(st, ctx, v, r)
		}
		return false
	}
	if s.fn != nil && s.fn.Blocks != nil && e.canInline(ctx, s) {
		nctx := e.subctx(ctx, b.Instrs[i], s.fn, d)
		e.inl[e.p.fname(s.fn)]++
		for k, p := range s.fn.Params {
			st.env[Val{nctx, p}] = s.args[k]
		}
		if len(s.fn.FreeVars) > 0 {
			var fv AV
			if d != nil {
				// closure recorded in the defer record; args appended by caller
				fv = s.res
			} else {
				fv = e.eval(st, ctx, s.c.Value)
			}
			n := e.n(fv)
			for k, p := range s.fn.FreeVars {
				if n.k == kClosure {
					st.env[Val{nctx, p}] = n.args[k]
				}
			}
		}
		e.prune(st, ctx, e.liveAfter(b.Instrs[i]))
		st.note("%s: call %s", e.p.ipos(s.instr), s.fn.Name())
		e.push(nctx, s.fn.Blocks[0], 0, st)
		return true
	}
	e.opaque(ctx, st, s, v)
	return false
}

func (e *Engine) subctx(ctx *Ctx, site ssa.Instruction, fn *ssa.Function, d *ssa.Defer) *Ctx {
	key := fmt.Sprintf("%d/%p/%d/%p", ctx.id, site, e.p.vid(fn), d)
	c := e.ctxs[key]
	if c == nil {
		c = &Ctx{id: len(e.ctxs) + 1, parent: ctx, call: site, def: d, fn: fn, depth: ctx.depth + 1}
		c.inLoop = ctx.inLoop || e.info(ctx.fn).inLoop[site.Block()]
		e.ctxs[key] = c
	}
	return c
}

func (e *Engine) canInline(ctx *Ctx, s *Site) bool {
	fn := s.fn
	if !e.p.inModule(fn) || ctx.depth > 12 {
		return false
	}
	for c := ctx; c != nil; c = c.parent {
		if c.fn == fn {
			return false
		}
	}
	if e.h.Inline != nil {
		return e.h.Inline(e, ctx, s)
	}
	return true
}

func (e *Engine) opaque(ctx *Ctx, st *State, s *Site, v ssa.Value) {
	e.clobber(st, s)
	var r AV
	if v != nil {
		r = e.fresh(st, ctx, v, "")
		st.env[Val{ctx, v}] = r
	}
	if e.h.After != nil {
		e.h.After(e, st, s, r)
	}
}

// clobber forgets memory an opaque call may write.
func (e *Engine) clobber(st *State, s *Site) {
	if s.fn != nil && e.p.inModule(s.fn) {
		m := e.p.modOf(s.fn)
		e.clobberFields(st, m)
	} else if s.c.IsInvoke() {
		m := &modSet{fields: map[string]bool{}}
		for _, g := range e.p.implementers(s.c.Value.Type(), s.c.Method) {
			for k := range e.p.modOf(g).fields {
				m.fields[k] = true
			}
		}
		_ = m
	}
	seen := map[AV]bool{}
	var visit func(a AV)
	visit = func(a AV) {
		if a == 0 || seen[a] {
			return
		}
		seen[a] = true
		n := e.nodes[a]
		switch n.k {
		case kAlloc:
			t := derefT(n.typ)
			mod := false
			if nt, ok := t.(*types.Named); ok && e.p.isModPkg(nt.Obj().Pkg()) {
				if _, ok := nt.Underlying().(*types.Struct); ok {
					mod = true
				}
			}
			if s.fn != nil && e.p.inModule(s.fn) && mod {
				return
			}
			if mod {
				e.havocExported(st, a)
				return
			}
			e.havocObj(st, a)
			for k, v := range st.mem {
				if e.root(k) == a {
					visit(v)
				}
			}
		case kField, kIndex:
			if s.fn != nil && e.p.inModule(s.fn) {
				// module callee: may write through the pointer
			}
			e.havocAddr(st, a)
		case kIface, kTuple, kClosure:
			for _, x := range n.args {
				visit(x)
			}
		case kOp:
			if n.tag == "slice" {
				r := e.root(a)
				// contents of the varargs array: visit elements, keep array
				for k, v := range st.mem {
					if e.root(k) == r {
						visit(v)
					}
				}
				if e.n(r).k == kAlloc {
					if _, ok := e.n(r).v.(*ssa.Alloc); ok && !strings.Contains(e.n(r).v.(*ssa.Alloc).Comment, "varargs") {
						e.havocObj(st, r)
					}
				}
				return
			}
		}
	}
	for _, a := range s.args {
		visit(a)
	}
}

func (e *Engine) clobberFields(st *State, m *modSet) {
	for k := range st.mem {
		n := e.n(k)
		if n.k == kField {
			i, _ := strconv.Atoi(n.tag)
			if m.fields[fieldKey(n.typ, i)] {
				delete(st.mem, k)
				st.havoc[k] = true
				st.havoc[e.root(k)] = true
			}
		}
	}
}

func (e *Engine) havocObj(st *State, a AV) {
	for k := range st.mem {
		if e.root(k) == a {
			delete(st.mem, k)
		}
	}
	st.havoc[a] = true
}

func (e *Engine) havocExported(st *State, a AV) {
	t := derefT(e.n(a).typ)
	for i := 0; structOf(t) != nil && i < structOf(t).NumFields(); i++ {
		if structOf(t).Field(i).Exported() {
			st.havoc[e.field(a, i, t)] = true
		}
	}
	for k := range st.mem {
		n := e.n(k)
		if e.root(k) == a && n.k == kField {
			i, _ := strconv.Atoi(n.tag)
			if token.IsExported(fieldName(n.typ, i)) && e.n(k).args[0] == a {
				delete(st.mem, k)
			}
		}
	}
}

func (e *Engine) havocAddr(st *State, a AV) {
	for k := range st.mem {
		x := k
		for {
			if x == a {
				delete(st.mem, k)
				break
			}
			n := e.n(x)
			if n.k != kField && n.k != kIndex {
				break
			}
			x = n.args[0]
		}
	}
	st.havoc[a] = true
	st.havoc[e.root(a)] = true
}

func (e *Engine) ret(ctx *Ctx, st *State, in *ssa.Return, vals []AV) {
	if ctx.parent == nil {
		if e.h.Exit != nil {
			e.h.Exit(e, st, ctx, in, vals)
		}
		return
	}
	if e.h.Ret != nil {
		e.h.Ret(e, st, ctx, in, vals)
		if st.dead {
			return
		}
	}
	for k := range st.env {
		if k.c == ctx {
			delete(st.env, k)
		}
	}
	b := ctx.call.Block()
	idx := instrIndex(ctx.call)
	if ctx.def != nil {
		e.push(ctx.parent, b, idx, st) // re-run RunDefers
		return
	}
	if v, ok := ctx.call.(ssa.Value); ok {
		switch len(vals) {
		case 0:
			st.env[Val{ctx.parent, v}] = e.free("unit", v.Type())
		case 1:
			e.set(st, ctx.parent, v, vals[0])
		default:
			st.env[Val{ctx.parent, v}] = e.tuple(vals)
		}
	}
	e.prune(st, ctx.parent, addVal(e.liveAfter(ctx.call), ctx.call))
	e.push(ctx.parent, b, idx+1, st)
}

func addVal(m map[ssa.Value]bool, in ssa.Instruction) map[ssa.Value]bool {
	v, ok := in.(ssa.Value)
	if !ok {
		return m
	}
	n := make(map[ssa.Value]bool, len(m)+1)
	for k := range m {
		n[k] = true
	}
	n[v] = true
	return n
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// runDefers pops one deferred call of ctx; true if control left the item.
func (e *Engine) runDefers(ctx *Ctx, b *ssa.BasicBlock, i int, st *State) bool {
	for {
		k := -1
		for j := len(st.defs) - 1; j >= 0; j-- {
			if st.defs[j].ctx == ctx {
				k = j
				break
			}
		}
		if k < 0 {
			return false
		}
		d := st.defs[k]
		st.defs = append(append([]deferRec{}, st.defs[:k]...), st.defs[k+1:]...)
		s := &Site{ctx: ctx, instr: d.d, c: &d.d.Call, name: staticName(&d.d.Call), args: append([]AV{}, d.args...), res: d.fn}
		if d.d.Call.IsInvoke() {
			e.resolveInvoke(s, d.args[0])
		} else if d.fn != 0 {
			n := e.n(d.fn)
			if n.k == kFunc || n.k == kClosure {
				s.fn = n.fn
				s.name = fnFull(n.fn)
			}
		}
		if e.call(ctx, b, i, st, s, nil, d.d) {
			return true
		}
	}
}

func (e *Engine) goTo(ctx *Ctx, from, to *ssa.BasicBlock, st *State) {
	e.edge(ctx, from, to, st, -1)
}

func (e *Engine) edge(ctx *Ctx, from, to *ssa.BasicBlock, st *State, succ int) {
	f := e.info(ctx.fn)
	// choose pred index (first occurrence matching; critical edges with equal preds have equal phis mostly)
	pi := predIndex(to, from)
	if succ == 1 && len(from.Succs) == 2 && from.Succs[0] == from.Succs[1] {
		for k := len(to.Preds) - 1; k >= 0; k-- {
			if to.Preds[k] == from {
				pi = k
				break
			}
		}
	}
	var phis []*ssa.Phi
	var vals []AV
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, e.eval(st, ctx, ph.Edges[pi]))
	}
	if e.h.Head != nil && f.header[to] {
		e.h.Head(e, st, ctx, from, to, phis, vals)
		if st.dead {
			return
		}
	}
	// prune before renaming so that dead previous values disappear
	live := f.liveIn[to]
	keepVals := map[Val]AV{}
	for k, ph := range phis {
		keepVals[Val{ctx, ph}] = vals[k]
	}
	for k, v := range keepVals {
		st.env[k] = v
	}
	e.prune(st, ctx, live)
	for k, ph := range phis {
		if !f.header[to] {
			continue
		}
		bt, ok := ph.Type().Underlying().(*types.Basic)
		if ok && bt.Info()&types.IsBoolean == 0 {
			_ = k
			a := e.sym(ctx, ph, "")
			if st.env[Val{ctx, ph}] == a {
				continue // unchanged by this iteration
			}
			carry := e.factsAbout(st, st.env[Val{ctx, ph}], a)
			delete(st.env, Val{ctx, ph})
			e.renew(st, ctx, ph, a)
			st.env[Val{ctx, ph}] = a
			for f, v := range carry {
				st.facts[f] = v
			}
			if e.h.Carry != nil {
				e.h.Carry(e, st, vals[k], a)
			}
			if e.peel && e.isConst(vals[k]) && !to.Dominates(from) {
				st.ceq[a] = vals[k]
			}
		}
	}
	for _, ph := range phis {
		if a := st.env[Val{ctx, ph}]; a != 0 && e.n(a).depth > maxDepth {
			nl := e.nilnessT(st, a, ph.Type())
			s := e.sym(ctx, ph, "^")
			e.renew(st, ctx, ph, s)
			st.env[Val{ctx, ph}] = s
			if nl != 0 {
				st.facts[s] = nl
			}
		}
	}
	e.push(ctx, to, 0, st)
}

// factsAbout: what is known of val, restated for the new name to.
func (e *Engine) factsAbout(st *State, val, to AV) map[AV]int8 {
	if val == 0 || val == to || e.isConst(val) {
		return nil
	}
	var out map[AV]int8
	for k, v := range st.facts {
		nk, hit := e.replaceTerm(k, val, to)
		if !hit {
			continue
		}
		probe, _ := e.replaceTerm(k, val, e.nilAV())
		clean := true
		for _, s := range e.nodes[probe].syms {
			if s == to {
				clean = false
			}
		}
		if clean {
			if out == nil {
				out = map[AV]int8{}
			}
			out[nk] = v
		}
	}
	return out
}

func (e *Engine) replaceTerm(a, from, to AV) (AV, bool) {
	if a == from {
		return to, true
	}
	n := e.nodes[a]
	hit := false
	if n.k != kOp {
		return a, false
	}
	args := make([]AV, len(n.args))
	for i, x := range n.args {
		y, h := e.replaceTerm(x, from, to)
		args[i] = y
		hit = hit || h
	}
	if !hit {
		return a, false
	}
	return e.rebuild(n, args), true
}

func (e *Engine) branch(ctx *Ctx, b *ssa.BasicBlock, st *State, cond AV, in *ssa.If) {
	t := e.boolOf(st, cond)
	pos := ""
	if e.steps < 1<<30 {
		pos = e.p.ipos(in)
	}
	if t >= 0 {
		s := st
		if t == 0 {
			s = st.clone()
		}
		if e.assume(s, cond, true) {
			if t == 0 {
				s.note("%s: %s", pos, e.str(cond))
			}
			e.edge(ctx, b, b.Succs[0], s, 0)
		}
	}
	if t <= 0 {
		if e.assume(st, cond, false) {
			if t == 0 {
				st.note("%s: not %s", pos, e.str(cond))
			}
			e.edge(ctx, b, b.Succs[1], st, 1)
		}
	}
}

// assume refines st with cond == truth; false if infeasible.
func (e *Engine) assume(st *State, cond AV, truth bool) bool {
	f := int8(-1)
	if truth {
		f = 1
	}
	if t := e.boolOf(st, cond); t != 0 {
		if t != f {
			return false
		}
		if e.h.Assume != nil {
			e.h.Assume(e, st, cond, truth)
		}
		return !st.dead
	}
	n := e.nodes[cond]
	if n.k == kOp && n.tag == "!" {
		return e.assume(st, n.args[0], !truth)
	}
	st.facts[cond] = f
	if n.k == kOp && n.tag == "==" {
		x, y := n.args[0], n.args[1]
		if e.isNil(x) {
			x, y = y, x
		}
		if e.isNil(y) {
			if !e.setNil(st, x, -f) {
				return false
			}
		} else if truth {
			if e.constOf(y) != nil {
				st.ceq[x] = y
			} else if e.nilness(st, y) == 1 {
				if !e.setNil(st, x, 1) {
					return false
				}
			}
		}
	}
	if n.k == kOp && strings.HasPrefix(n.tag, "taok:") && truth {
		if !e.setNil(st, n.args[0], 1) {
			return false
		}
		if ta, ok := e.intern[fmt.Sprintf("Pta:%s,%d", n.tag[5:], n.args[0])]; ok && st.facts[ta] == 0 {
			st.facts[ta] = 1
		}
	}
	if n.k == kOp && (n.tag == "errors.Is" || n.tag == "notexist") && truth {
		if !e.setNil(st, n.args[0], 1) {
			return false
		}
	}
	if e.h.Assume != nil {
		e.h.Assume(e, st, cond, truth)
	}
	return !st.dead
}

func (e *Engine) setNil(st *State, x AV, f int8) bool {
	if k := e.nilness(st, x); k != 0 {
		return k == f
	}
	st.facts[x] = f
	n := e.n(x)
	if n.k == kOp && n.tag == "joinerr" && f == -1 {
		for _, a := range n.args {
			if !e.setNil(st, a, -1) {
				return false
			}
		}
	}
	if n.k == kOp && n.tag == "joinerr" && f == 1 && len(n.args) == 1 {
		return e.setNil(st, n.args[0], 1)
	}
	return true
}

func (e *Engine) builtin(ctx *Ctx, st *State, name string, s *Site, v ssa.Value) {
	switch name {
	case "len", "cap":
		if _, ok := s.c.Args[0].Type().Underlying().(*types.Map); ok {
			e.set(st, ctx, v, e.fresh(st, ctx, v, ""))
			return
		}
		if c := e.constOf(s.args[0]); c != nil && c.Kind() == constant.String && name == "len" {
			e.set(st, ctx, v, e.konst(ssa.NewConst(constant.MakeInt64(int64(len(constant.StringVal(c)))), types.Typ[types.Int])))
			return
		}
		e.set(st, ctx, v, e.op(name, v.Type(), s.args[0]))
	case "append":
		base := s.args[0]
		parts := []AV{}
		if n := e.n(base); n.k == kOp && n.tag == "app" {
			parts = append(parts, n.args...)
		} else {
			parts = append(parts, base)
			if n.k == kOp && n.tag == "slice" {
				// a slice literal: what it holds now is in the result
				if el := e.elems(st, base); len(el) < 6 {
					for _, x := range el {
						if x != base && !e.isNil(x) {
							parts = append(parts, x)
						}
					}
				}
			}
		}
		if len(s.args) > 1 {
			parts = append(parts, e.elems(st, s.args[1])...)
		}
		if len(parts) > 14 {
			e.set(st, ctx, v, e.fresh(st, ctx, v, ""))
			return
		}
		r := e.setOp("app", v.Type(), parts)
		e.set(st, ctx, v, r)
	case "min", "max":
		e.set(st, ctx, v, e.op(name, v.Type(), s.args...))
	case "copy":
		r := e.root(s.args[0])
		e.havocAddr(st, r)
		e.set(st, ctx, v, e.fresh(st, ctx, v, ""))
	default:
		e.set(st, ctx, v, e.fresh(st, ctx, v, ""))
	}
}

// elems lists the abstract elements of a slice term.
func (e *Engine) elems(st *State, a AV) []AV {
	n := e.nodes[a]
	if n.k == kOp && n.tag == "slice" {
		r := n.args[0]
		if e.n(r).k == kAlloc && !st.havoc[r] {
			if at, ok := derefT(e.n(r).typ).Underlying().(*types.Array); ok && at.Len() < 32 {
				var out []AV
				for i := int64(0); i < at.Len(); i++ {
					addr := e.index(r, e.konst(ssa.NewConst(constant.MakeInt64(i), types.Typ[types.Int])))
					if v, ok := st.mem[addr]; ok {
						out = append(out, v)
					} else if structOf(at.Elem()) != nil {
						out = append(out, e.structVal(st, addr, at.Elem()))
					} else {
						out = append(out, e.zero(at.Elem()))
					}
				}
				return out
			}
		}
	}
	if n.k == kOp && n.tag == "app" {
		return n.args
	}
	if n.k == kConst {
		return nil
	}
	return []AV{e.op("spread", nil, a)}
}

// model handles well known pure library functions; 0 if not modelled.
func (e *Engine) model(st *State, ctx *Ctx, s *Site, v ssa.Value) AV {
	t := types.Type(nil)
	if v != nil {
		t = v.Type()
	}
	switch s.name {
	case "errors.Is":
		if e.nilness(st, s.args[0]) == -1 {
			return e.boolAV(e.nilness(st, s.args[1]) == -1)
		}
		return e.op("errors.Is", t, s.args[0], s.args[1])
	case "os.IsNotExist":
		if e.nilness(st, s.args[0]) == -1 {
			return e.boolAV(false)
		}
		return e.op("notexist", t, s.args[0])
	case "errors.New":
		return e.op("errnew", t, s.args[0])
	case "fmt.Errorf":
		args := []AV{s.args[0]}
		if len(s.args) > 1 {
			args = append(args, e.elems(st, s.args[1])...)
		}
		return e.op("errorf", t, args...)
	case "errors.Join":
		var el []AV
		for _, x := range e.elems(st, s.args[0]) {
			if n := e.n(x); n.k == kOp && n.tag == "app" {
				el = append(el, n.args...)
				continue
			}
			el = append(el, x)
		}
		var out []AV
		for _, x := range el {
			if e.isNil(x) {
				continue
			}
			if n := e.n(x); n.typ != nil && !isErrorLike(n.typ) && n.k != kIface && n.k != kOp {
				continue // slice base (make)
			}
			if n := e.n(x); n.k == kOp && n.tag == "slice" {
				continue
			}
			out = append(out, x)
		}
		if len(out) == 0 {
			return e.nilAV()
		}
		return e.setOp("joinerr", t, out)
	}
	if s.fn != nil && s.fn.Pkg != nil && !e.p.inModule(s.fn) {
		switch s.fn.Pkg.Pkg.Path() {
		case "strings", "path", "path/filepath", "strconv", "math/bits", "unicode/utf8":
			if s.fn.Signature.Recv() == nil && s.fn.Signature.Results().Len() == 1 && s.fn.Name() != "NewReader" && s.fn.Name() != "NewReplacer" {
				pure := true
				for i := 0; i < s.fn.Signature.Params().Len(); i++ {
					if _, ok := s.fn.Signature.Params().At(i).Type().Underlying().(*types.Basic); !ok {
						pure = false
					}
				}
				if pure {
					return e.op(s.name, t, s.args...)
				}
			}
		}
		if s.name == "fmt.Sprintf" {
			return e.op("fmt.Sprintf", t, append([]AV{s.args[0]}, e.elems(st, s.args[1])...)...)
		}
		if s.name == "io/fs.ValidPath" {
			return e.op(s.name, t, s.args...)
		}
	}
	return 0
}

func isErrorLike(t types.Type) bool {
	if isErrorType(t) {
		return true
	}
	errT := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	return types.Implements(t, errT)
}

// immutable globals: never stored to outside package initialisation
func (p *Prog) globalStable(g *ssa.Global) bool {
	if g.Pkg == nil {
		return false
	}
	if !p.isModPkg(g.Pkg.Pkg) {
		return true // module code never assigns other packages' variables (C20 checks)
	}
	for _, fn := range p.funcs {
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
					return false
				}
			}
		}
	}
	return true
}

func (e *Engine) load(st *State, ctx *Ctx, in *ssa.UnOp, addr AV) AV {
	n := e.nodes[addr]
	if v, ok := st.mem[addr]; ok {
		return v
	}
	if n.k == kGlobal {
		if e.p.globalStable(n.g) {
			tag := "gload"
			if isErrorType(derefT(n.g.Type())) {
				tag = "gerr"
			}
			return e.op(tag, in.Type(), addr)
		}
	}
	if n.k == kField {
		i, _ := strconv.Atoi(n.tag)
		if base, ok := st.mem[n.args[0]]; ok && e.n(n.args[0]).k != kField {
			return e.fieldOf(base, i, in.Type())
		} else if ok {
			return e.fieldOf(base, i, in.Type())
		}
	}
	r := e.root(addr)
	if e.n(r).k == kAlloc && !st.havoc[r] && !st.havoc[addr] {
		if _, isA := e.n(r).v.(*ssa.Alloc); isA {
			t := in.Type()
			if _, ok := t.Underlying().(*types.Struct); ok {
				return e.structVal(st, addr, t)
			}
			if _, ok := t.Underlying().(*types.Array); !ok {
				if n.k != kIndex || e.isConst(n.args[1]) {
					return e.zero(t)
				}
			}
		}
	}
	if _, ok := in.Type().Underlying().(*types.Struct); ok {
		// gather known fields
		return e.structVal(st, addr, in.Type())
	}
	a := e.fresh(st, ctx, in, "")
	st.mem[addr] = a
	return a
}

func (e *Engine) structVal(st *State, addr AV, t types.Type) AV {
	s := t.Underlying().(*types.Struct)
	r := e.root(addr)
	known := e.n(r).k == kAlloc && !st.havoc[r]
	args := make([]AV, s.NumFields())
	for i := range args {
		fa := e.field(addr, i, t)
		if v, ok := st.mem[fa]; ok {
			args[i] = v
			continue
		}
		if _, ok := s.Field(i).Type().Underlying().(*types.Struct); ok {
			args[i] = e.structVal(st, fa, s.Field(i).Type())
			continue
		}
		if known {
			args[i] = e.zero(s.Field(i).Type())
		} else {
			args[i] = e.op("cell", s.Field(i).Type(), fa)
		}
	}
	return e.op("struct", t, args...)
}

func (e *Engine) fieldOf(base AV, i int, t types.Type) AV {
	n := e.nodes[base]
	if n.k == kOp && n.tag == "struct" && i < len(n.args) {
		return n.args[i]
	}
	if n.k == kConst {
		return e.zero(t)
	}
	return e.op("fld"+strconv.Itoa(i), t, base)
}

func (e *Engine) store(st *State, ctx *Ctx, in *ssa.Store, addr, val AV) {
	n := e.nodes[addr]
	if n.k == kField {
		// may-alias invalidation
		for k := range st.mem {
			m := e.n(k)
			if k != addr && m.k == kField && m.tag == n.tag && types.Identical(derefT(m.typ), derefT(n.typ)) {
				if e.n(m.args[0]).k == kAlloc || e.n(n.args[0]).k == kAlloc {
					continue
				}
				delete(st.mem, k)
			}
		}
	}
	// whole-object store replaces sub-entries
	for k := range st.mem {
		x := k
		for k != addr {
			m := e.n(x)
			if m.k != kField && m.k != kIndex {
				break
			}
			x = m.args[0]
			if x == addr {
				delete(st.mem, k)
				break
			}
		}
	}
	vn := e.nodes[val]
	if vn.k == kOp && vn.tag == "struct" {
		if s, ok := vn.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				st.mem[e.field(addr, i, vn.typ)] = vn.args[i]
			}
			delete(st.mem, addr)
			return
		}
	}
	st.mem[addr] = val
}

func (e *Engine) step(ctx *Ctx, st *State, in ssa.Instruction) {
	ev := func(v ssa.Value) AV { return e.eval(st, ctx, v) }
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		a := e.alloc(ctx, x)
		e.renew(st, ctx, x, a)
		e.havocObj(st, a)
		delete(st.havoc, a)
		st.env[Val{ctx, x}] = a
	case *ssa.MakeSlice:
		a := e.alloc(ctx, x)
		e.renew(st, ctx, x, a)
		st.env[Val{ctx, x}] = a
	case *ssa.MakeMap, *ssa.MakeChan:
		a := e.alloc(ctx, x.(ssa.Value))
		e.renew(st, ctx, x.(ssa.Value), a)
		st.env[Val{ctx, x.(ssa.Value)}] = a
	case *ssa.Store:
		addr, val := ev(x.Addr), ev(x.Val)
		if e.h.Deref != nil {
			e.h.Deref(e, st, ctx, in, addr)
		}
		if e.h.Store != nil {
			e.h.Store(e, st, ctx, x, addr, val)
		}
		e.store(st, ctx, x, addr, val)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			addr := ev(x.X)
			if e.h.Deref != nil {
				e.h.Deref(e, st, ctx, in, addr)
			}
			v := e.load(st, ctx, x, addr)
			e.set(st, ctx, x, v)
			if e.h.Load != nil {
				e.h.Load(e, st, ctx, x, addr, st.env[Val{ctx, x}])
			}
		case token.NOT:
			a := ev(x.X)
			e.set(st, ctx, x, e.not(a))
		case token.ARROW:
			e.set(st, ctx, x, e.fresh(st, ctx, x, ""))
		default:
			a := ev(x.X)
			if c := e.constOf(a); c != nil && c.Kind() == constant.Int {
				var prec uint
				if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
					prec = uint(bits(bt))
				}
				r := constant.UnaryOp(x.Op, c, prec)
				e.set(st, ctx, x, e.konst(ssa.NewConst(r, x.Type())))
				return
			}
			e.set(st, ctx, x, e.op(x.Op.String(), x.Type(), a))
		}
	case *ssa.BinOp:
		e.set(st, ctx, x, e.binop(st, x.Op, ev(x.X), ev(x.Y), x.Type(), x.X.Type()))
	case *ssa.FieldAddr:
		b := ev(x.X)
		if e.h.Deref != nil {
			e.h.Deref(e, st, ctx, in, b)
		}
		e.set(st, ctx, x, e.field(b, x.Field, derefT(x.X.Type())))
	case *ssa.Field:
		e.set(st, ctx, x, e.fieldOf(ev(x.X), x.Field, x.Type()))
	case *ssa.IndexAddr:
		e.set(st, ctx, x, e.index(ev(x.X), ev(x.Index)))
	case *ssa.Index:
		e.set(st, ctx, x, e.op("at", x.Type(), ev(x.X), ev(x.Index)))
	case *ssa.Slice:
		args := []AV{ev(x.X)}
		for _, o := range []ssa.Value{x.Low, x.High, x.Max} {
			if o == nil {
				args = append(args, e.free("_", types.Typ[types.Int]))
			} else {
				args = append(args, ev(o))
			}
		}
		e.set(st, ctx, x, e.op("slice", x.Type(), args...))
	case *ssa.MakeInterface:
		e.set(st, ctx, x, e.iface(x.X.Type(), ev(x.X)))
	case *ssa.ChangeInterface:
		e.set(st, ctx, x, ev(x.X))
	case *ssa.ChangeType:
		e.set(st, ctx, x, ev(x.X))
	case *ssa.Convert:
		a := ev(x.X)
		if c := e.constOf(a); c != nil && c.Kind() == constant.Int {
			if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
				if fits(c, bt) {
					e.set(st, ctx, x, e.konst(ssa.NewConst(c, x.Type())))
					return
				}
			}
		}
		e.set(st, ctx, x, e.op("conv:"+types.TypeString(x.Type(), nil), x.Type(), a))
	case *ssa.MultiConvert, *ssa.SliceToArrayPointer:
		v := x.(ssa.Value)
		e.set(st, ctx, v, e.fresh(st, ctx, v, ""))
	case *ssa.MakeClosure:
		var b []AV
		for _, y := range x.Bindings {
			b = append(b, ev(y))
		}
		e.set(st, ctx, x, e.closure(x.Fn.(*ssa.Function), b))
	case *ssa.TypeAssert:
		e.typeAssert(ctx, st, x, ev(x.X))
	case *ssa.Extract:
		t := ev(x.Tuple)
		n := e.nodes[t]
		if n.k == kTuple {
			e.set(st, ctx, x, n.args[x.Index])
			return
		}
		e.set(st, ctx, x, e.ext(t, x.Index, x.Type()))
	case *ssa.Lookup:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			e.set(st, ctx, x, e.op("at", x.Type(), ev(x.X), ev(x.Index)))
			return
		}
		if e.maps {
			m, k := ev(x.X), ev(x.Index)
			ok := e.op("has", types.Typ[types.Bool], m, k)
			if x.CommaOk {
				e.set(st, ctx, x, e.tuple([]AV{e.sym(ctx, x, ""), ok}))
				return
			}
			if isBoolT(x.Type()) {
				e.set(st, ctx, x, ok)
				return
			}
		}
		e.set(st, ctx, x, e.fresh(st, ctx, x, ""))
	case *ssa.Range, *ssa.Next, *ssa.Select:
		v := x.(ssa.Value)
		e.set(st, ctx, v, e.fresh(st, ctx, v, ""))
	case *ssa.MapUpdate, *ssa.Send:
	default:
		if v, ok := in.(ssa.Value); ok {
			e.set(st, ctx, v, e.fresh(st, ctx, v, ""))
		}
	}
}

func (e *Engine) ext(t AV, i int, typ types.Type) AV {
	return e.op("ext"+strconv.Itoa(i), typ, t)
}

func bits(b *types.Basic) int {
	switch b.Kind() {
	case types.Uint8, types.Int8:
		return 8
	case types.Uint16, types.Int16:
		return 16
	case types.Uint32, types.Int32:
		return 32
	}
	return 64
}

func fits(c constant.Value, b *types.Basic) bool {
	w := bits(b)
	if b.Info()&types.IsUnsigned != 0 {
		if constant.Sign(c) < 0 {
			return false
		}
		return constant.BitLen(c) <= w
	}
	return constant.BitLen(c) < w
}

func (e *Engine) not(a AV) AV {
	n := e.n(a)
	if n.k == kOp && n.tag == "!" {
		return n.args[0]
	}
	if c := e.constOf(a); c != nil && c.Kind() == constant.Bool {
		return e.boolAV(!constant.BoolVal(c))
	}
	return e.op("!", types.Typ[types.Bool], a)
}

func (e *Engine) binop(st *State, op token.Token, x, y AV, t, xt types.Type) AV {
	cx, cy := e.constOf(x), e.constOf(y)
	isCmp := false
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		isCmp = true
	}
	if cx != nil && cy != nil && cx.Kind() == cy.Kind() {
		if isCmp {
			return e.boolAV(constant.Compare(cx, op, cy))
		}
		if cx.Kind() == constant.Int || cx.Kind() == constant.String {
			if r := foldInt(op, cx, cy, t); r != nil {
				return e.konst(ssa.NewConst(r, t))
			}
		}
	}
	if isCmp {
		switch op {
		case token.NEQ:
			return e.not(e.binop(st, token.EQL, x, y, t, xt))
		case token.EQL:
			if isBoolT(xt) {
				if cx != nil {
					x, y, cx, cy = y, x, cy, cx
				}
				if cy != nil && cy.Kind() == constant.Bool {
					if constant.BoolVal(cy) {
						return x
					}
					return e.not(x)
				}
			}
			if cx != nil && cy == nil || e.isNil(x) {
				x, y = y, x
			} else if cy == nil && !e.isNil(y) && x > y {
				x, y = y, x
			}
			return e.op("==", t, x, y)
		case token.GTR:
			return e.op("<", t, y, x)
		case token.LEQ:
			return e.not(e.op("<", t, y, x))
		case token.GEQ:
			return e.not(e.op("<", t, x, y))
		case token.LSS:
			return e.op("<", t, x, y)
		}
	}
	switch op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
			if cx != nil && cy == nil {
				x, y = y, x
			} else if cy == nil && x > y {
				x, y = y, x
			}
		}
	}
	return e.op(op.String(), t, x, y)
}

func foldInt(op token.Token, x, y constant.Value, t types.Type) (r constant.Value) {
	defer func() {
		if recover() != nil {
			r = nil
		}
	}()
	switch op {
	case token.SHL, token.SHR:
		n, ok := constant.Uint64Val(y)
		if !ok || n > 64 {
			return nil
		}
		r = constant.Shift(x, op, uint(n))
	case token.QUO:
		if constant.Sign(y) == 0 {
			return nil
		}
		r = constant.BinaryOp(x, token.QUO_ASSIGN, y)
	default:
		r = constant.BinaryOp(x, op, y)
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && !fits(r, b) {
		return nil
	}
	return r
}

func (e *Engine) typeAssert(ctx *Ctx, st *State, x *ssa.TypeAssert, v AV) {
	n := e.nodes[v]
	res := func(val AV, ok AV) {
		if x.CommaOk {
			st.env[Val{ctx, x}] = e.tuple([]AV{val, ok})
		} else {
			e.set(st, ctx, x, val)
		}
	}
	if e.nilness(st, v) == -1 && x.CommaOk {
		res(e.zero(x.AssertedType), e.boolAV(false))
		return
	}
	if n.k == kIface {
		if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			if types.Implements(n.typ, it) {
				res(v, e.boolAV(true))
			} else {
				res(e.nilAV(), e.boolAV(false))
			}
			return
		}
		if types.Identical(n.typ, x.AssertedType) {
			res(n.args[0], e.boolAV(true))
		} else {
			res(e.zero(x.AssertedType), e.boolAV(false))
		}
		return
	}
	ts := types.TypeString(x.AssertedType, nil)
	okAV := e.op("taok:"+ts, types.Typ[types.Bool], v)
	if _, ok := x.AssertedType.Underlying().(*types.Interface); ok {
		// the value keeps its identity through interface assertions
		res(v, okAV)
		return
	}
	res(e.op("ta:"+ts, x.AssertedType, v), okAV)
}
