package main

// A small abstract interpreter (constant and bit-provenance propagation with
// trace partitioning) for code whose control depends on constants and a few
// input bits: package initialisers, the method table, file mode mapping.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type aval any

// bit: 0, 1, bitTop, or 2+2*j (input bit j) / 3+2*j (its complement).
type bit int16

const bitTop bit = -1

type aBits struct {
	b [64]bit
	w int
	s bool // signed
}

type (
	aNil  struct{}
	aTop  struct{ why string }
	aStr  string
	aBool int8 // -1 false, 0 unknown, 1 true
	aFlt  struct{}
)

type aCell struct{ v aval }

type aStruct struct {
	t types.Type
	f []*aCell
}

type aArr struct{ e []*aCell }

type aSlice struct {
	arr         *aArr
	lo, hi, cap int
}

type aMap struct {
	keys []string
	k    map[string]aval
	v    map[string]aval
}

type aFn struct {
	fn   *ssa.Function
	bind []aval
}

type aIface struct {
	t types.Type
	v aval
}

type aTuple []aval

type aIter struct {
	m   *aMap
	pos int
}

// aExt: result of a library call that could not be evaluated, known non-nil.
type aExt struct{ name string }

type aStop struct{ why string }

type absint struct {
	p       *Prog
	globals map[*ssa.Global]*aCell
	objs    map[*aCell]*aMap // contents of sync.Map cells
	dec     []bool
	pos     int
	steps   int
	inited  map[*ssa.Function]bool
	extern  func(name string, args []aval) (aval, bool)
	condLog []string
	assumed map[int16]bool // facts about input bits on this path
	callHk  func(fn *ssa.Function, args []aval)
	skipFn  func(fn *ssa.Function) bool
	dynHk   func(c *ssa.CallCommon, fv aval, args []aval)
	exact   bool // tell equalities that hold for some inputs only (aBoth) from undecided ones
	inexact bool // a branch on an undecided condition was taken on this path
}

// aBoth: true for some inputs and false for others.
const aBoth aBool = 2

func newAbsint(p *Prog) *absint {
	return &absint{p: p, globals: map[*ssa.Global]*aCell{}, objs: map[*aCell]*aMap{}, inited: map[*ssa.Function]bool{}}
}

func width(t types.Type) (int, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	s := b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, s, true
	case types.Int16, types.Uint16:
		return 16, s, true
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32, s, true
	}
	return 64, s, true
}

func topBits(w int, s bool) aBits {
	r := aBits{w: w, s: s}
	for i := 0; i < w; i++ {
		r.b[i] = bitTop
	}
	return r
}

func constBits(v *big.Int, w int, s bool) aBits {
	r := aBits{w: w, s: s}
	m := new(big.Int).And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1)))
	for i := 0; i < w; i++ {
		r.b[i] = bit(m.Bit(i))
	}
	return r
}

func intBits(n int64, w int, s bool) aBits { return constBits(big.NewInt(n), w, s) }

// inputBits: a fully symbolic input word.
func inputBits(w int, s bool) aBits {
	r := aBits{w: w, s: s}
	for i := 0; i < w; i++ {
		r.b[i] = bit(2 + 2*i)
	}
	return r
}

func (a aBits) known() (uint64, bool) {
	var v uint64
	for i := 0; i < a.w; i++ {
		switch a.b[i] {
		case 0:
		case 1:
			v |= 1 << i
		default:
			return 0, false
		}
	}
	return v, true
}

func (a aBits) int() (int64, bool) {
	v, ok := a.known()
	if !ok {
		return 0, false
	}
	if a.s && a.w < 64 && v>>(a.w-1)&1 == 1 {
		return int64(v) - 1<<a.w, true
	}
	return int64(v), true
}

func (a aBits) String() string {
	if v, ok := a.known(); ok {
		return fmt.Sprintf("%#x", v)
	}
	var sb strings.Builder
	for i := a.w - 1; i >= 0; i-- {
		switch b := a.b[i]; {
		case b == bitTop:
			sb.WriteByte('?')
		case b < 2:
			sb.WriteByte(byte('0' + b))
		case b&1 == 0:
			fmt.Fprintf(&sb, "[%d]", (b-2)/2)
		default:
			fmt.Fprintf(&sb, "[!%d]", (b-2)/2)
		}
	}
	return sb.String()
}

func notBit(b bit) bit {
	switch {
	case b == bitTop:
		return b
	case b < 2:
		return 1 - b
	}
	return b ^ 1
}

func andBit(x, y bit) bit {
	switch {
	case x == 0 || y == 0:
		return 0
	case x == 1:
		return y
	case y == 1:
		return x
	case x == y:
		return x
	case x != bitTop && y != bitTop && x == notBit(y):
		return 0
	}
	return bitTop
}

func orBit(x, y bit) bit { return notBit(andBit(notBit(x), notBit(y))) }

func xorBit(x, y bit) bit {
	switch {
	case x == 0:
		return y
	case y == 0:
		return x
	case x == 1:
		return notBit(y)
	case y == 1:
		return notBit(x)
	case x != bitTop && x == y:
		return 0
	case x != bitTop && y != bitTop && x == notBit(y):
		return 1
	}
	return bitTop
}

func zip(x, y aBits, f func(a, b bit) bit) aBits {
	r := aBits{w: x.w, s: x.s}
	for i := 0; i < x.w; i++ {
		r.b[i] = f(x.b[i], y.b[i])
	}
	return r
}

// decide resolves an unknown condition by partitioning the traces.
func (a *absint) decide(why string) bool {
	if a.pos < len(a.dec) {
		d := a.dec[a.pos]
		a.pos++
		return d
	}
	if len(a.dec) > 24 {
		panic(aStop{"too many undecided branches at " + why})
	}
	a.dec = append(a.dec, false)
	a.pos++
	return false
}

// explore runs f for every combination of undecided branches.
func (a *absint) explore(f func() aval, each func(r aval, stop string)) {
	a.dec = nil
	for n := 0; n < 4096; n++ {
		a.pos, a.steps, a.inexact = 0, 0, false
		var r aval
		stop := ""
		func() {
			defer func() {
				if x := recover(); x != nil {
					s, ok := x.(aStop)
					if !ok {
						panic(x)
					}
					stop = s.why
				}
			}()
			r = f()
		}()
		each(r, stop)
		a.dec = a.dec[:a.pos]
		for len(a.dec) > 0 && a.dec[len(a.dec)-1] {
			a.dec = a.dec[:len(a.dec)-1]
		}
		if len(a.dec) == 0 {
			return
		}
		a.dec[len(a.dec)-1] = true
	}
	each(nil, "too many paths")
}

func (a *absint) zero(t types.Type) aval {
	switch x := t.Underlying().(type) {
	case *types.Basic:
		if w, s, ok := width(t); ok {
			return intBits(0, w, s)
		}
		switch {
		case x.Info()&types.IsBoolean != 0:
			return aBool(-1)
		case x.Info()&types.IsString != 0:
			return aStr("")
		case x.Info()&types.IsFloat != 0:
			return aFlt{}
		}
		return aNil{}
	case *types.Struct:
		s := &aStruct{t: t}
		for i := 0; i < x.NumFields(); i++ {
			s.f = append(s.f, &aCell{a.zero(x.Field(i).Type())})
		}
		return s
	case *types.Array:
		r := &aArr{}
		if x.Len() > 1<<16 {
			return aTop{"large array"}
		}
		for i := int64(0); i < x.Len(); i++ {
			r.e = append(r.e, &aCell{a.zero(x.Elem())})
		}
		return r
	}
	return aNil{}
}

// top is an unknown value of type t.
func (a *absint) top(t types.Type, why string) aval {
	if t == nil {
		return aTop{why}
	}
	if tu, ok := t.(*types.Tuple); ok {
		r := make(aTuple, tu.Len())
		for i := range r {
			r[i] = a.top(tu.At(i).Type(), why)
		}
		return r
	}
	if w, s, ok := width(t); ok {
		return topBits(w, s)
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return aBool(0)
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		s := &aStruct{t: t}
		for i := 0; i < st.NumFields(); i++ {
			s.f = append(s.f, &aCell{a.top(st.Field(i).Type(), why)})
		}
		return s
	}
	return aTop{why}
}

func copyVal(v aval) aval {
	switch x := v.(type) {
	case *aStruct:
		n := &aStruct{t: x.t}
		for _, c := range x.f {
			n.f = append(n.f, &aCell{copyVal(c.v)})
		}
		return n
	case *aArr:
		n := &aArr{}
		for _, c := range x.e {
			n.e = append(n.e, &aCell{copyVal(c.v)})
		}
		return n
	}
	return v
}

func (a *absint) konst(c *ssa.Const) aval {
	if c.Value == nil {
		return a.zero(c.Type())
	}
	if w, s, ok := width(c.Type()); ok {
		if v, ok := constant.Val(constant.ToInt(c.Value)).(*big.Int); ok {
			return constBits(v, w, s)
		}
		if v, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return intBits(v, w, s)
		}
		if v, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
			return constBits(new(big.Int).SetUint64(v), w, s)
		}
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return aBool(1)
		}
		return aBool(-1)
	case constant.String:
		return aStr(constant.StringVal(c.Value))
	}
	return aFlt{}
}

type frame struct {
	fn  *ssa.Function
	env map[ssa.Value]aval
	def []func()
}

func (a *absint) get(f *frame, v ssa.Value) aval {
	switch x := v.(type) {
	case *ssa.Const:
		return a.konst(x)
	case *ssa.Function:
		return aFn{fn: x}
	case *ssa.Global:
		return a.global(x)
	case *ssa.Builtin:
		return aTop{"builtin"}
	}
	if r, ok := f.env[v]; ok {
		return r
	}
	return a.top(v.Type(), "undefined "+v.Name())
}

func (a *absint) global(g *ssa.Global) *aCell {
	c := a.globals[g]
	if c == nil {
		if a.p.isModPkg(g.Pkg.Pkg) {
			c = &aCell{a.zero(derefT(g.Type()))}
		} else {
			c = &aCell{a.top(derefT(g.Type()), "global "+g.Name())}
			if isErrorType(derefT(g.Type())) {
				c.v = aExt{"error " + g.Name()}
			}
		}
		a.globals[g] = c
	}
	return c
}

func mapKey(v aval) (string, bool) {
	switch x := v.(type) {
	case aStr:
		return "s" + string(x), true
	case aBits:
		if n, ok := x.known(); ok {
			return fmt.Sprintf("i%d", n), true
		}
	case aBool:
		if x != 0 && x != aBoth {
			return fmt.Sprint("b", int(x)), true
		}
	case *aArr:
		s := "a"
		for _, c := range x.e {
			k, ok := mapKey(c.v)
			if !ok {
				return "", false
			}
			s += k + ","
		}
		return s, true
	case *aStruct:
		s := "t"
		for _, c := range x.f {
			k, ok := mapKey(c.v)
			if !ok {
				return "", false
			}
			s += k + ","
		}
		return s, true
	case aIface:
		k, ok := mapKey(x.v)
		return "I" + types.TypeString(x.t, nil) + k, ok
	case *aCell:
		return fmt.Sprintf("p%p", x), true
	}
	return "", false
}

func newMap() *aMap { return &aMap{k: map[string]aval{}, v: map[string]aval{}} }

func (m *aMap) set(k string, kv, v aval) {
	if _, ok := m.k[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.k[k], m.v[k] = kv, v
}

// call interprets fn; the result is nil, a value or an aTuple.
func (a *absint) call(fn *ssa.Function, args []aval, bind []aval, depth int) aval {
	if fn.Blocks == nil || depth > 60 {
		return a.top(fn.Signature.Results(), "no body")
	}
	if a.callHk != nil {
		a.callHk(fn, args)
	}
	f := &frame{fn: fn, env: map[ssa.Value]aval{}}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			f.env[p] = bind[i]
		}
	}
	var prev *ssa.BasicBlock
	b := fn.Blocks[0]
	for {
		// phis in parallel
		var phis []aval
		np := 0
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			np++
			for i, p := range b.Preds {
				if p == prev {
					phis = append(phis, a.get(f, ph.Edges[i]))
					break
				}
			}
		}
		for i := 0; i < np; i++ {
			f.env[b.Instrs[i].(*ssa.Phi)] = phis[i]
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs[np:] {
			a.steps++
			if a.steps > 400000 {
				panic(aStop{"too many steps in " + a.p.fname(fn)})
			}
			switch x := in.(type) {
			case *ssa.If:
				c := a.cond(f, x)
				if c {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				switch len(x.Results) {
				case 0:
					return nil
				case 1:
					return copyVal(a.get(f, x.Results[0]))
				}
				r := make(aTuple, len(x.Results))
				for i, v := range x.Results {
					r[i] = copyVal(a.get(f, v))
				}
				return r
			case *ssa.Panic:
				panic(aStop{"panic at " + a.p.ipos(in)})
			case *ssa.RunDefers:
				for i := len(f.def) - 1; i >= 0; i-- {
					f.def[i]()
				}
				f.def = nil
			case *ssa.Defer:
				fr, d := f, depth
				dargs := make([]aval, 0)
				for _, v := range x.Call.Args {
					dargs = append(dargs, a.get(f, v))
				}
				dx := x
				f.def = append(f.def, func() { a.invoke(fr, &dx.Call, dargs, dx.Call.Signature().Results(), d) })
			case *ssa.Call:
				args := make([]aval, 0, len(x.Call.Args))
				for _, v := range x.Call.Args {
					args = append(args, a.get(f, v))
				}
				f.env[x] = a.invoke(f, &x.Call, args, x.Type(), depth)
			case *ssa.Go:
			default:
				a.instr(f, in)
			}
		}
		if next == nil {
			return nil
		}
		prev, b = b, next
	}
}

// cond decides a branch; undecided ones partition the traces.
func (a *absint) cond(f *frame, x *ssa.If) bool {
	v, _ := a.get(f, x.Cond).(aBool)
	if v == 1 || v == -1 {
		return v == 1
	}
	if v == 0 {
		a.inexact = true
	}
	return a.decide(a.p.ipos(x))
}

func (a *absint) invoke(f *frame, c *ssa.CallCommon, args []aval, rt types.Type, depth int) aval {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return a.builtin(f, b.Name(), c, args, rt)
	}
	name := staticName(c)
	var fn *ssa.Function
	var bind []aval
	if c.IsInvoke() {
		recv := a.get(f, c.Value)
		args = append([]aval{recv}, args...)
		if i, ok := recv.(aIface); ok {
			if sel := a.p.ssa.MethodSets.MethodSet(i.t).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
				fn = a.p.ssa.MethodValue(sel)
				args[0] = i.v
			}
		}
	} else if s := c.StaticCallee(); s != nil {
		fn = s
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				bind = append(bind, a.get(f, b))
			}
		}
	} else {
		if a.dynHk != nil {
			a.dynHk(c, a.get(f, c.Value), args)
		}
		if fv, ok := a.get(f, c.Value).(aFn); ok {
			fn, bind = fv.fn, fv.bind
			name = fnFull(fn)
		}
	}
	if a.extern != nil {
		if r, ok := a.extern(name, args); ok {
			return r
		}
	}
	if r, ok := a.library(name, args, rt, depth); ok {
		return r
	}
	if fn != nil && fn.Blocks != nil && (a.p.inModule(fn) || a.evaluable(fn)) {
		if fn.Name() == "init" && fn.Synthetic != "" {
			if a.inited[fn] {
				return nil
			}
			a.inited[fn] = true
		}
		if a.skipFn == nil || !a.skipFn(fn) {
			return a.call(fn, args, bind, depth+1)
		}
	}
	return a.top(rt, "call of "+name)
}

// evaluable: small pure library functions worth following (bit manipulation).
func (a *absint) evaluable(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return fn.Synthetic != "" && strings.HasPrefix(fn.Synthetic, "wrapper") || strings.HasPrefix(fn.Synthetic, "bound") || strings.HasPrefix(fn.Synthetic, "instance")
	}
	switch fn.Pkg.Pkg.Path() {
	case "io/fs", "encoding/hex", "slices", "maps", "cmp", "math/bits", "encoding/binary":
		return true
	}
	return false
}

func (a *absint) library(name string, args []aval, rt types.Type, depth int) (aval, bool) {
	syncMap := func() *aMap {
		c, ok := args[0].(*aCell)
		if !ok {
			return nil
		}
		if a.objs[c] == nil {
			a.objs[c] = newMap()
		}
		return a.objs[c]
	}
	switch name {
	case "(*sync.Map).Store", "(*sync.Map).Swap", "(*sync.Map).LoadOrStore":
		m := syncMap()
		k, ok := mapKey(args[1])
		if m == nil || !ok {
			panic(aStop{"table key is not constant"})
		}
		old, had := m.v[k]
		if name == "(*sync.Map).LoadOrStore" && had {
			return aTuple{old, aBool(1)}, true
		}
		m.set(k, args[1], args[2])
		switch name {
		case "(*sync.Map).LoadOrStore":
			return aTuple{args[2], aBool(-1)}, true
		case "(*sync.Map).Swap":
			if had {
				return aTuple{old, aBool(1)}, true
			}
			return aTuple{aNil{}, aBool(-1)}, true
		}
		return nil, true
	case "(*sync.Map).Load":
		m := syncMap()
		k, ok := mapKey(args[1])
		if m == nil || !ok {
			return aTuple{aTop{"lookup"}, aBool(0)}, true
		}
		if v, ok := m.v[k]; ok {
			return aTuple{v, aBool(1)}, true
		}
		return aTuple{aNil{}, aBool(-1)}, true
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		return nil, true
	case "(*sync.Once).Do":
		if fv, ok := args[1].(aFn); ok {
			c, _ := args[0].(*aCell)
			if c != nil && a.objs[c] == nil {
				a.objs[c] = newMap()
				a.call(fv.fn, nil, fv.bind, depth+1)
			}
		}
		return nil, true
	case "errors.New", "fmt.Errorf":
		return aExt{name}, true
	case "bytes.Equal", "slices.Equal":
		x, ok := bitsOfSlice(args[0])
		y, ok2 := bitsOfSlice(args[1])
		if !ok || !ok2 {
			return aBool(0), true
		}
		if len(x) != len(y) {
			return aBool(-1), true
		}
		if a.exact {
			var p, q []bit
			for i := range x {
				p = append(p, x[i].b[:8]...)
				q = append(q, y[i].b[:8]...)
			}
			return equalBits(p, q), true
		}
		r := aBool(1)
		for i := range x {
			if x[i].b == y[i].b {
				known := true
				for j := 0; j < 8; j++ {
					known = known && x[i].b[j] != bitTop
				}
				if known {
					continue
				}
			}
			if !a.mayEqual(x[i], y[i]) {
				return aBool(-1), true
			}
			r = 0
		}
		return r, true
	case "(encoding/binary.bigEndian).Uint32", "(encoding/binary.littleEndian).Uint32":
		x, ok := bitsOfSlice(args[len(args)-1])
		if !ok {
			return topBits(32, false), true
		}
		if len(x) < 4 {
			panic(aStop{"index out of range"})
		}
		r := intBits(0, 32, false)
		for i := 0; i < 4; i++ {
			k := i
			if strings.Contains(name, "big") {
				k = 3 - i
			}
			copy(r.b[k*8:k*8+8], x[i].b[:8])
		}
		return r, true
	case "bytes.Clone", "slices.Clone":
		if s, ok := args[0].(aSlice); ok {
			n := &aArr{}
			for i := s.lo; i < s.hi; i++ {
				n.e = append(n.e, &aCell{copyVal(s.arr.e[i].v)})
			}
			return aSlice{n, 0, len(n.e), len(n.e)}, true
		}
	}
	return nil, false
}

func bitsOfSlice(v aval) ([]aBits, bool) {
	switch s := v.(type) {
	case aNil:
		return nil, true
	case aSlice:
		var out []aBits
		for i := s.lo; i < s.hi; i++ {
			b, ok := s.arr.e[i].v.(aBits)
			if !ok {
				return nil, false
			}
			out = append(out, b)
		}
		return out, true
	}
	return nil, false
}

func aSliceOf(el []*aCell) aSlice { return aSlice{&aArr{el}, 0, len(el), len(el)} }

func (a *absint) builtin(f *frame, name string, c *ssa.CallCommon, args []aval, rt types.Type) aval {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case aSlice:
			if name == "cap" {
				return intBits(int64(x.cap-x.lo), 64, true)
			}
			return intBits(int64(x.hi-x.lo), 64, true)
		case aStr:
			return intBits(int64(len(x)), 64, true)
		case *aMap:
			return intBits(int64(len(x.keys)), 64, true)
		case aNil:
			return intBits(0, 64, true)
		case *aArr:
			return intBits(int64(len(x.e)), 64, true)
		}
		return topBits(64, true)
	case "append":
		var out []aval
		switch x := args[0].(type) {
		case aSlice:
			for i := x.lo; i < x.hi; i++ {
				out = append(out, x.arr.e[i].v)
			}
		case aNil:
		default:
			return aTop{"append"}
		}
		if len(args) > 1 {
			switch y := args[1].(type) {
			case aSlice:
				for i := y.lo; i < y.hi; i++ {
					out = append(out, y.arr.e[i].v)
				}
			case aNil:
			case aStr:
				for i := 0; i < len(y); i++ {
					out = append(out, intBits(int64(y[i]), 8, false))
				}
			default:
				return aTop{"append"}
			}
		}
		n := &aArr{}
		for _, v := range out {
			n.e = append(n.e, &aCell{copyVal(v)})
		}
		return aSlice{n, 0, len(n.e), len(n.e)}
	case "copy":
		d, ok1 := args[0].(aSlice)
		s, ok2 := args[1].(aSlice)
		if ok1 && ok2 {
			n := min(d.hi-d.lo, s.hi-s.lo)
			for i := 0; i < n; i++ {
				d.arr.e[d.lo+i].v = copyVal(s.arr.e[s.lo+i].v)
			}
			return intBits(int64(n), 64, true)
		}
		if st, ok := args[1].(aStr); ok && ok1 {
			n := min(d.hi-d.lo, len(st))
			for i := 0; i < n; i++ {
				d.arr.e[d.lo+i].v = intBits(int64(st[i]), 8, false)
			}
			return intBits(int64(n), 64, true)
		}
		return topBits(64, true)
	case "delete":
		if m, ok := args[0].(*aMap); ok {
			if k, ok := mapKey(args[1]); ok {
				delete(m.k, k)
				delete(m.v, k)
				for i, x := range m.keys {
					if x == k {
						m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
						break
					}
				}
			}
		}
		return nil
	case "min", "max":
		if x, ok := args[0].(aBits); ok {
			if v, ok := x.int(); ok {
				best := v
				for _, y := range args[1:] {
					w, ok := y.(aBits)
					if !ok {
						return a.top(rt, name)
					}
					n, ok := w.int()
					if !ok {
						return a.top(rt, name)
					}
					if name == "min" && n < best || name == "max" && n > best {
						best = n
					}
				}
				return intBits(best, x.w, x.s)
			}
		}
	}
	return a.top(rt, "builtin "+name)
}

func (a *absint) instr(f *frame, in ssa.Instruction) {
	g := func(v ssa.Value) aval { return a.get(f, v) }
	set := func(v ssa.Value, x aval) { f.env[v] = x }
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		set(x, &aCell{a.zero(derefT(x.Type()))})
	case *ssa.MakeSlice:
		n, ok1 := a.intOf(g(x.Len))
		c, ok2 := a.intOf(g(x.Cap))
		if !ok1 || !ok2 || n < 0 || c < n || c > 1<<16 {
			set(x, aTop{"make"})
			return
		}
		r := &aArr{}
		for i := int64(0); i < c; i++ {
			r.e = append(r.e, &aCell{a.zero(x.Type().Underlying().(*types.Slice).Elem())})
		}
		set(x, aSlice{r, 0, int(n), int(c)})
	case *ssa.MakeMap:
		set(x, newMap())
	case *ssa.MakeChan:
		set(x, aTop{"chan"})
	case *ssa.Store:
		if c, ok := g(x.Addr).(*aCell); ok {
			a.assign(c, g(x.Val))
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if c, ok := g(x.X).(*aCell); ok {
				set(x, copyVal(c.v))
				return
			}
			set(x, a.top(x.Type(), "load"))
		case token.NOT:
			b, _ := g(x.X).(aBool)
			if b != aBoth {
				b = -b
			}
			set(x, b)
		case token.XOR:
			if v, ok := g(x.X).(aBits); ok {
				for i := 0; i < v.w; i++ {
					v.b[i] = notBit(v.b[i])
				}
				set(x, v)
				return
			}
			set(x, a.top(x.Type(), "unop"))
		case token.SUB:
			if v, ok := g(x.X).(aBits); ok {
				if n, ok := v.int(); ok {
					set(x, intBits(-n, v.w, v.s))
					return
				}
			}
			set(x, a.top(x.Type(), "unop"))
		default:
			set(x, a.top(x.Type(), "unop"))
		}
	case *ssa.BinOp:
		set(x, a.binop(x.Op, g(x.X), g(x.Y), x.Type(), x.X.Type()))
	case *ssa.FieldAddr:
		if c, ok := g(x.X).(*aCell); ok {
			if s, ok := c.v.(*aStruct); ok {
				set(x, s.f[x.Field])
				return
			}
		}
		set(x, aTop{"field"})
	case *ssa.Field:
		if s, ok := g(x.X).(*aStruct); ok {
			set(x, copyVal(s.f[x.Field].v))
			return
		}
		set(x, a.top(x.Type(), "field"))
	case *ssa.IndexAddr:
		i, ok := a.intOf(g(x.Index))
		switch b := g(x.X).(type) {
		case aSlice:
			if ok {
				if i < 0 || int(i) >= b.hi-b.lo {
					panic(aStop{"index out of range at " + a.p.ipos(in)})
				}
				set(x, b.arr.e[b.lo+int(i)])
				return
			}
		case *aCell:
			if r, isA := b.v.(*aArr); isA && ok {
				if i < 0 || int(i) >= len(r.e) {
					panic(aStop{"index out of range at " + a.p.ipos(in)})
				}
				set(x, r.e[i])
				return
			}
		}
		set(x, aTop{"index"})
	case *ssa.Index:
		i, ok := a.intOf(g(x.Index))
		switch b := g(x.X).(type) {
		case *aArr:
			if ok && i >= 0 && int(i) < len(b.e) {
				set(x, copyVal(b.e[i].v))
				return
			}
		case aStr:
			if ok && i >= 0 && int(i) < len(b) {
				set(x, intBits(int64(b[i]), 8, false))
				return
			}
		}
		set(x, a.top(x.Type(), "index"))
	case *ssa.Slice:
		a.slice(f, x)
	case *ssa.MakeInterface:
		set(x, aIface{x.X.Type(), copyVal(g(x.X))})
	case *ssa.ChangeInterface:
		set(x, g(x.X))
	case *ssa.ChangeType:
		set(x, g(x.X))
	case *ssa.Convert:
		set(x, a.convert(g(x.X), x.X.Type(), x.Type()))
	case *ssa.SliceToArrayPointer:
		if s, ok := g(x.X).(aSlice); ok && s.lo == 0 && s.hi == len(s.arr.e) {
			set(x, &aCell{s.arr})
			return
		}
		set(x, aTop{"array pointer"})
	case *ssa.MakeClosure:
		var b []aval
		for _, y := range x.Bindings {
			b = append(b, g(y))
		}
		set(x, aFn{x.Fn.(*ssa.Function), b})
	case *ssa.TypeAssert:
		a.assert(f, x)
	case *ssa.Extract:
		if t, ok := g(x.Tuple).(aTuple); ok && x.Index < len(t) {
			set(x, t[x.Index])
			return
		}
		set(x, a.top(x.Type(), "extract"))
	case *ssa.Lookup:
		a.lookup(f, x)
	case *ssa.MapUpdate:
		m, ok := g(x.Map).(*aMap)
		if !ok {
			if _, isNil := g(x.Map).(aNil); isNil {
				panic(aStop{"assignment to nil map at " + a.p.ipos(in)})
			}
			return
		}
		k, ok := mapKey(g(x.Key))
		if !ok {
			panic(aStop{"map key is not constant at " + a.p.ipos(in)})
		}
		m.set(k, g(x.Key), copyVal(g(x.Value)))
	case *ssa.Range:
		switch m := g(x.X).(type) {
		case *aMap:
			set(x, &aIter{m: m})
		case aNil:
			set(x, &aIter{m: newMap()})
		default:
			set(x, aTop{"range"})
		}
	case *ssa.Next:
		if it, ok := g(x.Iter).(*aIter); ok {
			if it.pos >= len(it.m.keys) {
				set(x, aTuple{aBool(-1), aTop{"end"}, aTop{"end"}})
				return
			}
			k := it.m.keys[it.pos]
			it.pos++
			set(x, aTuple{aBool(1), it.m.k[k], it.m.v[k]})
			return
		}
		set(x, a.top(x.Type(), "next"))
	default:
		if v, ok := in.(ssa.Value); ok {
			set(v, a.top(v.Type(), fmt.Sprintf("%T", in)))
		}
	}
}

func (a *absint) assign(c *aCell, v aval) {
	// keep cell identity of aggregates
	switch n := v.(type) {
	case *aStruct:
		if o, ok := c.v.(*aStruct); ok && len(o.f) == len(n.f) {
			for i := range n.f {
				a.assign(o.f[i], n.f[i].v)
			}
			return
		}
	case *aArr:
		if o, ok := c.v.(*aArr); ok && len(o.e) == len(n.e) {
			for i := range n.e {
				a.assign(o.e[i], n.e[i].v)
			}
			return
		}
	}
	c.v = copyVal(v)
}

func (a *absint) intOf(v aval) (int64, bool) {
	b, ok := v.(aBits)
	if !ok {
		return 0, false
	}
	return b.int()
}

func (a *absint) slice(f *frame, x *ssa.Slice) {
	idx := func(v ssa.Value, def int) (int, bool) {
		if v == nil {
			return def, true
		}
		n, ok := a.intOf(a.get(f, v))
		return int(n), ok
	}
	switch s := a.get(f, x.X).(type) {
	case aStr:
		lo, ok1 := idx(x.Low, 0)
		hi, ok2 := idx(x.High, len(s))
		if ok1 && ok2 && 0 <= lo && lo <= hi && hi <= len(s) {
			f.env[x] = s[lo:hi]
			return
		}
	case aSlice:
		lo, ok1 := idx(x.Low, 0)
		hi, ok2 := idx(x.High, s.hi-s.lo)
		mx, ok3 := idx(x.Max, s.cap-s.lo)
		if ok1 && ok2 && ok3 {
			if lo < 0 || lo > hi || hi > s.cap-s.lo || mx < hi || mx > s.cap-s.lo {
				panic(aStop{"slice out of range at " + a.p.ipos(x)})
			}
			f.env[x] = aSlice{s.arr, s.lo + lo, s.lo + hi, s.lo + mx}
			return
		}
	case *aCell:
		if r, ok := s.v.(*aArr); ok {
			lo, ok1 := idx(x.Low, 0)
			hi, ok2 := idx(x.High, len(r.e))
			mx, ok3 := idx(x.Max, len(r.e))
			if ok1 && ok2 && ok3 && 0 <= lo && lo <= hi && hi <= mx && mx <= len(r.e) {
				f.env[x] = aSlice{r, lo, hi, mx}
				return
			}
		}
	case aNil:
		f.env[x] = aNil{}
		return
	}
	f.env[x] = aTop{"slice"}
}

func (a *absint) convert(v aval, from, to types.Type) aval {
	if w, s, ok := width(to); ok {
		switch x := v.(type) {
		case aBits:
			r := aBits{w: w, s: s}
			for i := 0; i < w; i++ {
				switch {
				case i < x.w:
					r.b[i] = x.b[i]
				case x.s:
					r.b[i] = x.b[x.w-1]
				}
			}
			return r
		}
		return a.top(to, "convert")
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		switch x := v.(type) {
		case aSlice:
			if isByteSlice(from) {
				var out []byte
				for i := x.lo; i < x.hi; i++ {
					n, ok := a.intOf(x.arr.e[i].v)
					if !ok {
						return aTop{"string of unknown bytes"}
					}
					out = append(out, byte(n))
				}
				return aStr(out)
			}
		case aNil:
			return aStr("")
		case aStr:
			return x
		case aBits:
			if n, ok := x.int(); ok {
				return aStr(string(rune(n)))
			}
		}
		return aTop{"convert"}
	}
	if isByteSlice(to) {
		if x, ok := v.(aStr); ok {
			r := &aArr{}
			for i := 0; i < len(x); i++ {
				r.e = append(r.e, &aCell{intBits(int64(x[i]), 8, false)})
			}
			return aSlice{r, 0, len(x), len(x)}
		}
	}
	return a.top(to, "convert")
}

func (a *absint) assert(f *frame, x *ssa.TypeAssert) {
	v := a.get(f, x.X)
	res := func(r aval, ok int8) {
		if x.CommaOk {
			f.env[x] = aTuple{r, aBool(ok)}
			return
		}
		if ok == -1 {
			panic(aStop{"failed type assertion at " + a.p.ipos(x)})
		}
		f.env[x] = r
	}
	switch i := v.(type) {
	case aIface:
		if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			if types.Implements(i.t, it) {
				res(i, 1)
			} else {
				res(a.zero(x.AssertedType), -1)
			}
			return
		}
		if types.Identical(i.t, x.AssertedType) {
			res(i.v, 1)
		} else {
			res(a.zero(x.AssertedType), -1)
		}
	case aNil:
		res(a.zero(x.AssertedType), -1)
	default:
		res(a.top(x.AssertedType, "assert"), 0)
	}
}

func (a *absint) lookup(f *frame, x *ssa.Lookup) {
	k := a.get(f, x.Index)
	switch m := a.get(f, x.X).(type) {
	case aStr:
		if i, ok := a.intOf(k); ok && i >= 0 && int(i) < len(m) {
			f.env[x] = intBits(int64(m[i]), 8, false)
			return
		}
	case *aMap, aNil:
		mm, _ := m.(*aMap)
		if mm == nil {
			mm = newMap()
		}
		et := x.X.Type().Underlying().(*types.Map).Elem()
		key, ok := mapKey(k)
		if !ok {
			// unknown key: partition over the entries it can match
			if kb, isB := k.(aBits); isB {
				for _, ks := range mm.keys {
					if e, ok := mm.k[ks].(aBits); ok && a.mayEqual(kb, e) {
						if a.decide("map lookup") {
							key = ks
							goto found
						}
					}
				}
				key = "?none"
				goto found
			}
			break
		}
	found:
		v, has := mm.v[key]
		if !has {
			v = a.zero(et)
		}
		if x.CommaOk {
			ok := aBool(-1)
			if has {
				ok = 1
			}
			f.env[x] = aTuple{copyVal(v), ok}
		} else {
			f.env[x] = copyVal(v)
		}
		return
	}
	if x.CommaOk {
		f.env[x] = aTuple{a.top(x.Type().(*types.Tuple).At(0).Type(), "lookup"), aBool(0)}
		return
	}
	f.env[x] = a.top(x.Type(), "lookup")
}

func (a *absint) mayEqual(x, y aBits) bool {
	for i := 0; i < x.w; i++ {
		d := xorBit(x.b[i], y.b[i])
		if d == 1 {
			return false
		}
	}
	return true
}

// equalBits decides the equality of two strings of bits: each is a constant,
// an input bit or its complement.
func equalBits(x, y []bit) aBool {
	up := map[bit]bit{} // literal -> literal it equals, by even representatives
	var find func(b bit) bit
	find = func(b bit) bit {
		neg := b & 1
		b &^= 1
		if u, ok := up[b]; ok {
			return find(u) ^ neg
		}
		return b ^ neg
	}
	r := aBool(1)
	for i := range x {
		if x[i] == bitTop || y[i] == bitTop {
			return 0
		}
		p, q := find(x[i]), find(y[i])
		if p == q {
			continue
		}
		if p^1 == q {
			return -1
		}
		r = aBoth
		if p&^1 == 0 { // constants stay representatives
			p, q = q, p
		}
		up[p&^1] = q ^ p&1
	}
	return r
}

func boolVal(b bool) aBool {
	if b {
		return 1
	}
	return -1
}

func isNilVal(v aval) (bool, bool) {
	switch x := v.(type) {
	case aNil:
		return true, true
	case *aCell, aFn, aSlice, *aMap, aExt:
		return false, true
	case aIface:
		_ = x
		return false, true
	}
	return false, false
}

func (a *absint) binop(op token.Token, x, y aval, t, xt types.Type) aval {
	if op == token.EQL || op == token.NEQ {
		r := a.equal(x, y)
		if op == token.NEQ {
			r = -r
		}
		return r
	}
	switch p := x.(type) {
	case aStr:
		if q, ok := y.(aStr); ok {
			switch op {
			case token.ADD:
				return p + q
			case token.LSS:
				return boolVal(p < q)
			case token.LEQ:
				return boolVal(p <= q)
			case token.GTR:
				return boolVal(p > q)
			case token.GEQ:
				return boolVal(p >= q)
			}
		}
	case aBits:
		q, ok := y.(aBits)
		if !ok {
			return a.top(t, "binop")
		}
		switch op {
		case token.AND:
			return zip(p, q, andBit)
		case token.OR:
			return zip(p, q, orBit)
		case token.XOR:
			return zip(p, q, xorBit)
		case token.AND_NOT:
			return zip(p, q, func(u, v bit) bit { return andBit(u, notBit(v)) })
		case token.SHL, token.SHR:
			n, ok := q.known()
			if !ok {
				return a.top(t, "shift")
			}
			r := aBits{w: p.w, s: p.s}
			for i := 0; i < p.w; i++ {
				j := i - int(min(n, 64))
				if op == token.SHR {
					j = i + int(min(n, 64))
				}
				switch {
				case j >= 0 && j < p.w:
					r.b[i] = p.b[j]
				case op == token.SHR && p.s && j >= p.w:
					r.b[i] = p.b[p.w-1]
				}
			}
			return r
		}
		m, ok1 := p.int()
		n, ok2 := q.int()
		if ok1 && ok2 {
			bm, bn := big.NewInt(m), big.NewInt(n)
			if !p.s {
				u, _ := p.known()
				bm = new(big.Int).SetUint64(u)
			}
			if !q.s {
				u, _ := q.known()
				bn = new(big.Int).SetUint64(u)
			}
			switch op {
			case token.ADD:
				return constBits(new(big.Int).Add(bm, bn), p.w, p.s)
			case token.SUB:
				return constBits(new(big.Int).Sub(bm, bn), p.w, p.s)
			case token.MUL:
				return constBits(new(big.Int).Mul(bm, bn), p.w, p.s)
			case token.QUO, token.REM:
				if bn.Sign() == 0 {
					panic(aStop{"division by zero"})
				}
				if op == token.QUO {
					return constBits(new(big.Int).Quo(bm, bn), p.w, p.s)
				}
				return constBits(new(big.Int).Rem(bm, bn), p.w, p.s)
			case token.LSS:
				return boolVal(bm.Cmp(bn) < 0)
			case token.LEQ:
				return boolVal(bm.Cmp(bn) <= 0)
			case token.GTR:
				return boolVal(bm.Cmp(bn) > 0)
			case token.GEQ:
				return boolVal(bm.Cmp(bn) >= 0)
			}
		}
		// x > 0 for an unsigned word is x != 0
		if !p.s && ok2 && n == 0 && (op == token.GTR || op == token.LEQ) {
			r := a.equal(p, q)
			if op == token.GTR {
				r = -r
			}
			return r
		}
		// addition without carries is or
		if op == token.ADD || op == token.SUB && false {
			carry := false
			for i := 0; i < p.w; i++ {
				if andBit(p.b[i], q.b[i]) != 0 {
					carry = true
				}
			}
			if !carry {
				return zip(p, q, orBit)
			}
		}
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return aBool(0)
		}
	}
	return a.top(t, "binop "+op.String())
}

func (a *absint) equal(x, y aval) aBool {
	xn, ok1 := isNilVal(x)
	yn, ok2 := isNilVal(y)
	if ok1 && ok2 && (xn || yn) {
		return boolVal(xn == yn)
	}
	switch p := x.(type) {
	case aBits:
		q, ok := y.(aBits)
		if !ok {
			return 0
		}
		all := true
		for i := 0; i < p.w; i++ {
			switch xorBit(p.b[i], q.b[i]) {
			case 0:
			case 1:
				return -1
			default:
				all = false
			}
		}
		if all {
			return 1
		}
		if a.exact {
			return equalBits(p.b[:p.w], q.b[:p.w])
		}
		return 0
	case aStr:
		if q, ok := y.(aStr); ok {
			return boolVal(p == q)
		}
	case aBool:
		if q, ok := y.(aBool); ok && p != 0 && q != 0 && p != aBoth && q != aBoth {
			return boolVal(p == q)
		}
	case *aCell:
		if q, ok := y.(*aCell); ok {
			return boolVal(p == q)
		}
	case aFn:
		if q, ok := y.(aFn); ok {
			return boolVal(p.fn == q.fn)
		}
	case aIface:
		if q, ok := y.(aIface); ok {
			if !types.Identical(p.t, q.t) {
				return -1
			}
			return a.equal(p.v, q.v)
		}
	case *aArr:
		if q, ok := y.(*aArr); ok && len(p.e) == len(q.e) {
			r := aBool(1)
			for i := range p.e {
				switch a.equal(p.e[i].v, q.e[i].v) {
				case -1:
					return -1
				case 0:
					r = 0
				}
			}
			return r
		}
	case *aStruct:
		if q, ok := y.(*aStruct); ok && len(p.f) == len(q.f) {
			r := aBool(1)
			for i := range p.f {
				switch a.equal(p.f[i].v, q.f[i].v) {
				case -1:
					return -1
				case 0:
					r = 0
				}
			}
			return r
		}
	}
	return 0
}
