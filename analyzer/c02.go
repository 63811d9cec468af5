package main

// C02: every size of an allocation is classified on every path: a fixed or
// existing size, a count checked against a limit, or neither. Loop variables,
// parameters, results and fields are classified by everything they are given.

import (
	"go/constant"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C02"] = c02 }

const (
	szSmall   = iota // fixed, a few bytes, or the length of something that exists
	szCount          // checked against a limit of at most 2^32-1
	szUnknown        // not from an archive as far as can be told
	szBad            // from an archive, not checked
)

const (
	maxCount = 1<<32 - 1
	maxSmall = 1 << 16
)

// sizeExp is the bound of a value, depending on those of others.
type sizeExp struct {
	op   string // "", "key", "add", "mul", "or", "shl", "min", "max"
	cls  int
	max  float64
	mem  bool // length of something that exists
	key  string
	args []sizeExp
	why  string
}

type sizeVal struct {
	cls int
	max float64
	mem bool
	why string
}

type sizeDef struct {
	exp sizeExp
	pos string
}

type sizeOb struct {
	key, pos, what, path string
	exp                  sizeExp
	reading              bool
}

type sizeRun struct {
	c    *Check
	p    *Prog
	g    *CG
	defs map[string][]sizeDef
	seen map[string]bool
	env  map[string]sizeVal
	obs  []sizeOb
	work []*ssa.Function
	done map[*ssa.Function]bool
	want map[string]bool
}

func c02(c *Check) {
	p := c.P
	c.rule("the size of every allocation is, on every path, a constant or small value, the length of something that already exists, or a number found to be at most 2^32-1 and, where it is a difference, not negative; sums and products of counts are checked themselves")
	c.rule("a list that is filled while reading reserves only a small number of elements in advance")
	r := &sizeRun{c: c, p: p, g: p.cg(), defs: map[string][]sizeDef{}, seen: map[string]bool{}, env: map[string]sizeVal{}, done: map[*ssa.Function]bool{}, want: map[string]bool{}}
	for _, fn := range p.funcs {
		if fn.Blocks == nil {
			continue
		}
		if anyInstr(fn, func(in ssa.Instruction) bool { return len(allocSizes(in)) > 0 }) {
			r.need(fn)
		}
	}
	for len(r.work) > 0 {
		fn := r.work[0]
		r.work = r.work[1:]
		r.run(fn)
	}
	r.solve()
	for _, o := range r.obs {
		c.count("allocations judged", 1)
		v := r.eval(o.exp)
		switch {
		case v.cls == szBad:
			c.bad("size:"+o.key, "%s: the size %s of an allocation %s (path: %s)", o.pos, o.what, v.why, o.path)
		case v.cls == szUnknown:
			c.sample("%s: size %s not understood", o.pos, o.what)
		case v.cls == szCount && o.reading:
			c.bad("reserve:"+o.key, "%s: a list filled while reading reserves %s elements in advance (path: %s)", o.pos, o.what, o.path)
		}
	}
	c.counts["functions analysed"] = len(r.done)
	c.assume("a call that returns a length of what it transferred returns at most the size of its buffer")
}

// allocSizes: the values that size what the instruction allocates.
func allocSizes(in ssa.Instruction) []ssa.Value {
	var out []ssa.Value
	add := func(v ssa.Value) {
		if v == nil {
			return
		}
		if _, ok := v.(*ssa.Const); !ok {
			out = append(out, v)
		}
	}
	switch x := in.(type) {
	case *ssa.MakeSlice:
		add(x.Len)
		if x.Cap != x.Len {
			add(x.Cap)
		}
	case *ssa.MakeMap:
		add(x.Reserve)
	case *ssa.MakeChan:
		add(x.Size)
	case ssa.CallInstruction:
		switch staticName(x.Common()) {
		case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow", "slices.Grow", "bytes.Repeat", "strings.Repeat", "bufio.NewReaderSize", "bufio.NewWriterSize":
			a := x.Common().Args
			add(a[len(a)-1])
		}
		if g := x.Common().StaticCallee(); g != nil && g.Origin() != nil && g.Origin().String() == "slices.Grow" {
			a := x.Common().Args
			add(a[len(a)-1])
		}
	}
	return out
}

func (r *sizeRun) need(fn *ssa.Function) {
	if fn != nil && fn.Blocks != nil && !r.done[fn] {
		r.done[fn] = true
		r.work = append(r.work, fn)
	}
}

// numeric functions are looked into
func smallNumeric(fn *ssa.Function) bool {
	if len(fn.Blocks) > 12 || len(fn.Params) == 0 {
		return false
	}
	for i := range fn.Signature.Results().Len() {
		t := fn.Signature.Results().At(i).Type()
		if b, ok := t.Underlying().(*types.Basic); !isErrT(t) && (!ok || b.Info()&(types.IsInteger|types.IsBoolean) == 0) {
			return false
		}
	}
	for _, b := range fn.Blocks {
		for _, q := range b.Preds {
			if b.Dominates(q) {
				return false
			}
		}
	}
	return true
}

func isErrT(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (r *sizeRun) run(fn *ssa.Function) {
	p := r.p
	name := p.fname(fn)
	h := Hooks{}
	phis := map[AV]bool{}
	org := map[AV]string{}
	phiKey := func(a AV) string { return "phi:" + name + ":" + strconv.Itoa(int(a)) }
	h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool {
		return s.fn.Parent() != nil && s.fn.Parent() == ctx.fn || smallNumeric(s.fn)
	}
	var b func(e *Engine, st *State, a AV, d int) sizeExp
	bound := func(e *Engine, st *State, a AV) sizeExp { return b(e, st, a, 0) }
	b = func(e *Engine, st *State, a AV, d int) sizeExp {
		unknown := func(w string) sizeExp { return sizeExp{cls: szUnknown, why: w} }
		if d > 12 {
			return unknown("is too deep")
		}
		if k, ok := st.ceq[a]; ok {
			a = k
		}
		if k := e.constOf(a); k != nil && k.Kind() == constant.Int {
			f, _ := constant.Float64Val(k)
			return sizeExp{max: math.Abs(f)}
		}
		n := *e.n(a)
		for m := range st.marks {
			if x := e.n(m); x.k == kOp && x.tag == "chk" && x.args[0] == a && e.nilness(st, x.args[1]) == -1 {
				return unknown("is checked elsewhere")
			}
		}
		t := e.typOf(a)
		// what the type allows
		byType := math.Inf(1)
		if bt, ok := t.Underlying().(*types.Basic); ok {
			switch bt.Kind() {
			case types.Uint8, types.Int8:
				byType = 255
			case types.Uint16, types.Int16:
				byType = 65535
			case types.Uint32:
				byType = maxCount
			case types.Int32:
				byType = math.MaxInt32
			}
		}
		if byType <= maxSmall {
			return sizeExp{max: byType}
		}
		if n.k == kOp && n.tag == "len" || n.k == kOp && n.tag == "cap" {
			return sizeExp{mem: true, max: math.Inf(1)}
		}
		// what the path knows: a + q >= 0 gives a lower, q - a >= 0 an upper bound
		l := e.lin(st, a)
		best := sizeExp{cls: szBad}
		if lim, ok := upper(e, st, l); ok {
			best = limitExp(lim)
		}
		if best.cls == szBad {
			for _, q := range e.ineqs(st) {
				w := q.add(l, 1) // a <= w
				if len(w.t) != 1 {
					continue
				}
				for x, k := range w.t {
					if k != 1 || l.t[x] != 0 || x == a {
						continue
					}
					if m := e.n(x); m.k == kOp && (m.tag == "len" || m.tag == "cap") {
						return sizeExp{mem: true, max: math.Inf(1)}
					}
					if lim, ok := upper(e, st, lin{t: map[AV]int64{x: 1}}); ok {
						best = limitExp(lim)
					} else if d < 4 {
						if y := b(e, st, x, d+8); y.op == "" && y.cls <= szCount || y.op == "key" {
							return y
						}
					}
				}
			}
		}
		neg := false
		for _, k := range l.t {
			neg = neg || k < 0
		}
		neg = neg || l.c < 0 && len(l.t) > 0
		if best.cls <= szCount && (!neg || nonneg(e, st, l)) {
			return best
		}
		if n.k == kOp {
			args := func() []sizeExp {
				var out []sizeExp
				for _, x := range n.args {
					out = append(out, b(e, st, x, d+1))
				}
				return out
			}
			switch {
			case strings.HasPrefix(n.tag, "conv:"):
				x := b(e, st, n.args[0], d+1)
				if byType <= maxCount {
					return sizeExp{op: "min", args: []sizeExp{x, limitExp(byType)}}
				}
				return x
			case n.tag == "min":
				return sizeExp{op: "min", args: args()}
			case n.tag == "max":
				return sizeExp{op: "max", args: args()}
			case n.tag == "+":
				if len(l.t) > 0 && !neg {
					return sizeExp{op: "add", args: args(), why: "is a sum of counts that is not checked"}
				}
				fallthrough
			case n.tag == "-":
				if len(l.t) == 0 {
					break
				}
				var pos []sizeExp
				mem := true
				for x, k := range l.t {
					m := e.n(x)
					mem = mem && m.k == kOp && (m.tag == "len" || m.tag == "cap")
					if k > 0 {
						y := b(e, st, x, d+1)
						if k != 1 {
							y = sizeExp{op: "mul", args: []sizeExp{y, {max: float64(k)}}}
						}
						pos = append(pos, y)
					}
				}
				sum := sizeExp{op: "add", args: pos, why: "is a sum of counts that is not checked"}
				if len(pos) == 1 {
					sum = pos[0]
				} else if n.tag == "-" && len(n.args) == 2 {
					sum = b(e, st, n.args[0], d+1)
				}
				pl := lin{t: map[AV]int64{}}
				for x, k := range l.t {
					if k > 0 {
						pl.t[x] = k
					}
				}
				if lim, ok := upper(e, st, pl); ok {
					sum = limitExp(lim)
				}
				if !neg || mem || nonneg(e, st, l) {
					return sum
				}
				for x := range l.t {
					if strings.Contains(e.n(x).tag, "~") || n.depth > maxDepth-3 {
						return unknown("differs between paths")
					}
				}
				return sizeExp{op: "diff", args: []sizeExp{sum}, why: "is a difference that may be negative"}
			case n.tag == "*":
				return sizeExp{op: "mul", args: args(), why: "is a product of counts that is not checked"}
			case n.tag == "|" || n.tag == "^":
				return sizeExp{op: "or", args: args(), why: "is put together from bytes of the archive and not checked"}
			case n.tag == "&":
				return sizeExp{op: "min", args: args()}
			case n.tag == "%":
				return sizeExp{op: "min", args: args()}
			case n.tag == "/" || n.tag == ">>" || n.tag == "&^":
				return b(e, st, n.args[0], d+1)
			case n.tag == "<<":
				return sizeExp{op: "shl", args: args(), why: "is put together from bytes of the archive and not checked"}
			}
		}
		if ph, ok := n.v.(*ssa.Phi); ok && phis[e.sym(n.ctx, ph, "")] {
			return sizeExp{op: "key", key: phiKey(e.sym(n.ctx, ph, "")), max: byType}
		}
		k := org[a]
		if u, ok := n.v.(*ssa.UnOp); ok && k == "" && (n.k == kSym || n.k == kOld) {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				k = trackedField(fa.X.Type(), fa.Field)
			}
		}
		if k != "" {
			r.field(k)
			return sizeExp{op: "key", key: "field:" + k, max: byType}
		}
		if x, ok := r.source(e, st, a, byType); ok {
			return x
		}
		if byType <= maxCount {
			return limitExp(byType)
		}
		return unknown("is " + e.str(a))
	}
	lists := map[AV]string{}
	h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) {
		switch n := e.n(addr); {
		case n.k == kField && isIntT(in.Type()) && e.n(val).k == kSym:
			if k := fieldKeyOf(e, addr); k != "" {
				org[val] = k
			}
		case n.k == kField && isSliceT(in.Type()):
			if k := fieldKeyOf(e, addr); k != "" && lists[val] == "" {
				lists[val] = k
			}
		case n.k == kIndex && isIntT(in.Type()) && e.n(val).k == kSym && lists[n.args[0]] != "":
			org[val] = lists[n.args[0]] + "[]"
		}
	}
	h.Store = func(e *Engine, st *State, ctx *Ctx, in *ssa.Store, addr, val AV) {
		switch n := e.n(addr); {
		case n.k == kField && isSliceT(e.typOf(val)):
			if k := fieldKeyOf(e, addr); k != "" {
				lists[val] = k
			}
		case n.k == kIndex && isIntT(e.typOf(val)) && lists[n.args[0]] != "":
			r.def("field:"+lists[n.args[0]]+"[]", bound(e, st, val), p.ipos(in))
		}
	}
	h.Head = func(e *Engine, st *State, ctx *Ctx, from, to *ssa.BasicBlock, ps []*ssa.Phi, vals []AV) {
		for i, ph := range ps {
			if !isIntT(ph.Type()) {
				continue
			}
			a := e.sym(ctx, ph, "")
			phis[a] = true
			r.def(phiKey(a), bound(e, st, vals[i]), p.ipos(from.Instrs[len(from.Instrs)-1]))
		}
	}
	h.After = func(e *Engine, st *State, s *Site, res AV) {
		if s.fn == nil || !p.inModule(s.fn) {
			return
		}
		off := 0
		if len(s.args) == len(s.fn.Params) {
			for i, x := range s.fn.Params {
				if isIntT(x.Type()) {
					r.def("param:"+p.fname(s.fn)+":"+strconv.Itoa(i), bound(e, st, s.args[i+off]), s.pos(e))
				}
			}
		}
		// a check that was not looked into
		rs := s.fn.Signature.Results()
		if res != 0 && rs.Len() == 1 && isErrT(rs.At(0).Type()) {
			for _, x := range s.args {
				st.marks[e.op("chk", types.Typ[types.Bool], x, res)] = "chk"
				for _, y := range e.elems(st, x) {
					st.marks[e.op("chk", types.Typ[types.Bool], y, res)] = "chk"
				}
			}
		}
	}
	h.Instr = func(e *Engine, st *State, ctx *Ctx, in ssa.Instruction) {
		for _, v := range allocSizes(in) {
			a := e.eval(st, ctx, v)
			o := sizeOb{key: name, pos: p.ipos(in), what: e.str(a), path: st.path(), exp: bound(e, st, a)}
			if ms, ok := in.(*ssa.MakeSlice); ok && ms.Len != ms.Cap && v == ms.Cap {
				if k, ok := ms.Len.(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) == 0 {
					o.reading = filledReading(p, ms)
				}
			}
			r.obs = append(r.obs, o)
		}
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		rs := fn.Signature.Results()
		if k := rs.Len(); k > 0 && isErrT(rs.At(k-1).Type()) && e.nilness(st, vals[k-1]) == 1 {
			return
		}
		for i := range rs.Len() {
			if isIntT(rs.At(i).Type()) {
				r.def("res:"+name+":"+strconv.Itoa(i), bound(e, st, vals[i]), p.ipos(in))
			}
		}
		for addr, val := range st.mem {
			if e.n(addr).k == kField && isIntT(e.typOf(val)) {
				if k := fieldKeyOf(e, addr); k != "" && org[val] != k {
					r.def("field:"+k, bound(e, st, val), p.ipos(in))
				}
			}
		}
	}
	e := newEngine(p, h)
	e.K = 24
	e.Run(fn, nil)
}

func limitExp(lim float64) sizeExp {
	switch {
	case lim <= maxSmall:
		return sizeExp{max: lim}
	case lim <= maxCount:
		return sizeExp{cls: szCount, max: lim}
	}
	return sizeExp{cls: szBad, why: "may be as large as " + strconv.FormatFloat(lim, 'g', 4, 64)}
}

// upper: the least constant the path knows the form not to exceed.
func upper(e *Engine, st *State, l lin) (float64, bool) {
	best, ok := 0.0, false
	if len(l.t) == 0 {
		return float64(l.c), true
	}
	for _, q := range e.ineqs(st) {
		if w := q.add(l, 1); len(w.t) == 0 {
			if f := float64(w.c); !ok || f < best {
				best, ok = f, true
			}
		}
	}
	return best, ok && best <= maxCount
}

// nonneg: the path knows the form not to be negative.
func nonneg(e *Engine, st *State, l lin) bool {
	for _, q := range e.ineqs(st) {
		if w := l.add(q, -1); len(w.t) == 0 && w.c >= 0 {
			return true
		}
	}
	return false
}

// source: values from calls and parameters.
func (r *sizeRun) source(e *Engine, st *State, a AV, byType float64) (sizeExp, bool) {
	n := *e.n(a)
	var call *ssa.CallCommon
	idx := 0
	switch v := n.v.(type) {
	case *ssa.Parameter:
		if n.k != kSym || n.ctx == nil || n.ctx.parent != nil {
			return sizeExp{}, false
		}
		fn := v.Parent()
		for i, x := range fn.Params {
			if x == v {
				return r.param(fn, i, byType), true
			}
		}
	case *ssa.Call:
		call = v.Common()
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			call, idx = c.Common(), v.Index
		}
	}
	if call == nil && n.k == kOp && strings.HasPrefix(n.tag, "ext") && len(n.args) == 1 {
		if c, ok := e.n(n.args[0]).v.(*ssa.Call); ok {
			i, err := strconv.Atoi(n.tag[3:])
			if err == nil {
				call, idx = c.Common(), i
			}
		}
	}
	if call == nil {
		return sizeExp{}, false
	}
	if g := call.StaticCallee(); g != nil && r.p.inModule(g) && g.Blocks != nil {
		r.need(g)
		return sizeExp{op: "key", key: "res:" + r.p.fname(g) + ":" + strconv.Itoa(idx), max: byType}, true
	}
	nm := staticName(call)
	if call.IsInvoke() {
		nm = call.Method.Name()
	}
	if i := strings.LastIndexByte(nm, '.'); i >= 0 {
		nm = nm[i+1:]
	}
	switch {
	case nm == "Uint64" || nm == "Uvarint" || nm == "ReadUvarint" || nm == "Varint" || nm == "ReadVarint":
		return sizeExp{cls: szBad, why: "is a number of the archive that is not checked"}, true
	case nm == "Uint32" || nm == "Uint16":
		return limitExp(maxCount), true
	case strings.HasPrefix(nm, "Read") || nm == "Copy" || nm == "CopyN":
		return sizeExp{mem: true, max: math.Inf(1)}, true
	}
	return sizeExp{}, false
}

func (r *sizeRun) param(fn *ssa.Function, i int, byType float64) sizeExp {
	if r.g.callersComplete(fn) {
		for _, ci := range r.g.callers[fn] {
			r.need(ci.caller)
		}
		return sizeExp{op: "key", key: "param:" + r.p.fname(fn) + ":" + strconv.Itoa(i), max: byType}
	}
	if byType <= maxCount {
		return limitExp(byType)
	}
	if r.archiveParam(fn, i) {
		return sizeExp{cls: szBad, why: "is a number of the archive that is not checked"}
	}
	return sizeExp{cls: szUnknown, why: "is given by the caller"}
}

// archiveParam: the unpacked size a decompressor is constructed with.
func (r *sizeRun) archiveParam(fn *ssa.Function, i int) bool {
	s := fn.Signature
	if s.Recv() != nil || s.Params().Len() != 3 || i != 1 {
		return false
	}
	sl, ok := s.Params().At(0).Type().Underlying().(*types.Slice)
	b, ok2 := s.Params().At(1).Type().Underlying().(*types.Basic)
	_, ok3 := s.Params().At(2).Type().Underlying().(*types.Slice)
	return ok && ok2 && ok3 && isByteT(sl.Elem()) && b.Kind() == types.Uint64
}

// field: everything that assigns the field takes part.
func (r *sizeRun) field(k string) {
	if r.want[k] {
		return
	}
	r.want[k] = true
	for _, fn := range r.p.funcs {
		if fn.Blocks == nil {
			continue
		}
		stores := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && trackedField(fa.X.Type(), fa.Field) == strings.TrimSuffix(k, "[]") {
					stores = true
				}
			}
		}
		if stores {
			r.need(fn)
		}
	}
	// filled from outside
	tn, fl, _ := strings.Cut(k, ".")
	for _, fn := range r.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || staticName(ci.Common()) != "encoding/binary.Read" {
					continue
				}
				x := ci.Common().Args[2]
				if mi, ok := x.(*ssa.MakeInterface); ok {
					x = mi.X
				}
				if n, ok := derefT(x.Type()).(*types.Named); ok && n.Obj().Name() == tn {
					if s := structOf(n); s != nil {
						for i := range s.NumFields() {
							if bt, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && s.Field(i).Name() == fl && bt.Kind() == types.Uint64 {
								r.def("field:"+k, sizeExp{cls: szBad, why: "is a number of the archive that is not checked"}, r.p.ipos(in))
							}
						}
					}
				}
			}
		}
	}
}

func (r *sizeRun) def(key string, x sizeExp, pos string) {
	s := key + "\x00" + x.String()
	if r.seen[s] {
		return
	}
	r.seen[s] = true
	r.defs[key] = append(r.defs[key], sizeDef{x, pos})
}

func (x sizeExp) String() string {
	s := x.op + strconv.Itoa(x.cls) + x.key + strconv.FormatFloat(x.max, 'g', -1, 64) + strconv.FormatBool(x.mem)
	for _, y := range x.args {
		s += "(" + y.String() + ")"
	}
	return s
}

// filledReading: the list is appended to in a loop that reads.
func filledReading(p *Prog, ms *ssa.MakeSlice) bool {
	fn := ms.Parent()
	alias := map[ssa.Value]bool{ms: true}
	cells := map[string]bool{}
	hit := false
	var appends []*ssa.Call
	for ch := true; ch; {
		ch = false
		add := func(v ssa.Value) {
			if !alias[v] {
				alias[v], ch = true, true
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Phi:
					for _, e := range x.Edges {
						if alias[e] {
							add(x)
						}
					}
				case *ssa.Store:
					if alias[x.Val] {
						if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
							cells[trackedField(fa.X.Type(), fa.Field)] = true
						} else {
							cells[x.Addr.Name()] = true
						}
					}
				case *ssa.UnOp:
					if fa, ok := x.X.(*ssa.FieldAddr); ok && cells[trackedField(fa.X.Type(), fa.Field)] || !ok && cells[x.X.Name()] {
						add(x)
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && alias[x.Call.Args[0]] {
						if !alias[x] {
							appends = append(appends, x)
						}
						add(x)
					}
				}
			}
		}
	}
	for _, a := range appends {
		for _, h := range fn.Blocks {
			for _, q := range h.Preds {
				if !h.Dominates(q) || !h.Dominates(a.Block()) || !(a.Block() == h || a.Block() == q || cycles(a.Block(), q, h)) {
					continue
				}
				for _, b := range fn.Blocks {
					if b != h && b != q && (!h.Dominates(b) || !cycles(b, q, h)) {
						continue
					}
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && callReads(p, ci.Common()) {
							hit = true
						}
					}
				}
			}
		}
	}
	return hit
}

// callReads: the call reads from something.
func callReads(p *Prog, c *ssa.CallCommon) bool {
	nm := staticName(c)
	if c.IsInvoke() {
		nm = c.Method.Name()
	}
	if i := strings.LastIndexByte(nm, '.'); i >= 0 {
		nm = nm[i+1:]
	}
	if nm == "Scan" || strings.HasPrefix(nm, "Read") {
		return true
	}
	for _, a := range c.Args {
		ms := types.NewMethodSet(a.Type())
		for i := range ms.Len() {
			if m := ms.At(i).Obj().Name(); m == "Read" || m == "ReadByte" {
				return true
			}
		}
	}
	return false
}

func (r *sizeRun) solve() {
	var keys []string
	for k := range r.defs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for ch := true; ch; {
		ch = false
		for _, k := range keys {
			w := sizeVal{}
			for i, d := range r.defs[k] {
				v := r.eval(d.exp)
				if i == 0 || v.cls > w.cls {
					w.cls, w.why = v.cls, v.why
				}
				w.max = math.Max(w.max, v.max)
				w.mem = w.mem || v.mem
			}
			if w.cls == szSmall && w.max > 4096 {
				w.max = maxSmall
			}
			if w.cls == szCount {
				w.max = maxCount
			}
			if old, ok := r.env[k]; !ok || old.cls != w.cls || old.max != w.max || old.mem != w.mem {
				if ok {
					w.cls = max(w.cls, old.cls)
					w.max = math.Max(w.max, old.max)
					w.mem = w.mem || old.mem
				}
				if !ok || w.cls != old.cls || w.max != old.max || w.mem != old.mem {
					r.env[k] = w
					ch = true
				}
			}
		}
	}
}

func (r *sizeRun) eval(x sizeExp) sizeVal {
	norm := func(v sizeVal) sizeVal {
		switch {
		case v.cls > szCount || v.mem:
		case v.max <= maxSmall:
			v.cls = szSmall
		case v.max <= maxCount:
			v.cls = szCount
		default:
			v.cls, v.why = szBad, x.why
		}
		return v
	}
	worst := func(vs []sizeVal) (sizeVal, bool) {
		w := sizeVal{}
		for i, v := range vs {
			if i == 0 || v.cls > w.cls {
				w = v
			}
		}
		return w, w.cls > szCount
	}
	var vs []sizeVal
	for _, a := range x.args {
		vs = append(vs, r.eval(a))
	}
	switch x.op {
	case "":
		return sizeVal{x.cls, x.max, x.mem, x.why}
	case "key":
		v, ok := r.env[x.key]
		if !ok {
			if len(r.defs[x.key]) > 0 {
				return sizeVal{} // not reached yet
			}
			v = sizeVal{cls: szUnknown, why: "is not known"}
		}
		if v.cls > szCount && x.max <= maxCount {
			return norm(sizeVal{max: x.max})
		}
		return v
	case "min":
		w := vs[0]
		for _, v := range vs[1:] {
			if v.cls < w.cls || v.cls == w.cls && !v.mem && (w.mem || v.max < w.max) {
				w = v
			}
		}
		if w.cls == szSmall && !w.mem && w.max > maxSmall {
			w.cls = szCount
		}
		return w
	case "diff":
		if w, bad := worst(vs); bad {
			return w
		} else if w.cls == szSmall {
			return w
		}
		return sizeVal{cls: szBad, why: x.why}
	case "max", "add", "mul", "or", "shl":
		w, bad := worst(vs)
		if bad {
			return w
		}
		out := sizeVal{}
		if x.op == "mul" {
			out.max = 1
		}
		counts := 0
		for i, v := range vs {
			out.mem = out.mem || v.mem
			if v.cls == szCount {
				counts++
			}
			switch x.op {
			case "max":
				out.max = math.Max(out.max, v.max)
			case "mul":
				out.max *= v.max
			case "shl":
				if i == 0 {
					out.max = v.max
				} else {
					out.max *= math.Exp2(v.max)
				}
			default:
				out.max += v.max
			}
		}
		// a step or a margin does not make a count something else
		if x.op == "add" && counts <= 1 {
			rest := 0.0
			for _, v := range vs {
				if v.cls != szCount && !v.mem {
					rest += v.max
				}
			}
			if rest <= maxSmall {
				return sizeVal{w.cls, w.max, out.mem, w.why}
			}
		}
		if out.mem && counts == 0 {
			return sizeVal{szSmall, out.max, true, ""}
		}
		if out.mem {
			out.mem = false
			out.max = math.Inf(1)
		}
		return norm(out)
	}
	return sizeVal{cls: szUnknown}
}
