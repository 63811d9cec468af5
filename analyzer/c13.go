package main

// C13: reading never alters the parsed description. Forward, flow-insensitive,
// interprocedural may-alias propagation of description memory.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C13"] = c13 }

// alias labels: aFull: the slice ends at its capacity, so append reallocates;
// aSub: there may be description bytes behind its end.
const (
	aFull = 1
	aSub  = 2
)

type aliasFlow struct {
	p       *Prog
	g       *CG
	in      map[*ssa.Function]bool // functions analysed
	lab     map[ssa.Value]int
	why     map[ssa.Value]string
	fields  map[string]int // field keys of other structs holding aliases
	fwhy    map[string]string
	cells   map[ssa.Value]int // local variable cells holding aliases
	cwhy    map[ssa.Value]string
	elems   map[ssa.Value]int // containers (by defining value) whose elements alias
	full    map[string]int
	changed bool
}

func refType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer, *types.Interface:
		return true
	}
	return false
}

func (a *aliasFlow) set(v ssa.Value, l int, why string) {
	if l == 0 || !refType(v.Type()) || isErrorType(v.Type()) {
		return
	}
	if a.lab[v]|l == a.lab[v] {
		return
	}
	a.lab[v] |= l
	if a.why[v] == "" {
		a.why[v] = why
	}
	a.changed = true
}

func (a *aliasFlow) setField(k string, l int, why string) {
	if a.fields[k]|l != a.fields[k] {
		a.fields[k] |= l
		if a.fwhy[k] == "" {
			a.fwhy[k] = why
		}
		a.changed = true
	}
}

func (a *aliasFlow) setCell(v ssa.Value, l int, why string) {
	if a.cells[v]|l != a.cells[v] {
		a.cells[v] |= l
		if a.cwhy[v] == "" {
			a.cwhy[v] = why
		}
		a.changed = true
	}
}

// descFields: fields that make up the parsed description.
func (p *Prog) descFields(g *CG) map[string]bool {
	shared := p.sharedTypes()
	written := map[string]bool{}
	for _, fn := range p.funcs {
		if !g.postOpen[fn] || g.inits[fn] {
			continue
		}
		for _, ac := range g.accesses(fn, shared) {
			if ac.write {
				k := strings.TrimSuffix(ac.key, "[]")
				f := k[strings.LastIndexByte(k, '.')+1:]
				if k != ac.key && len(f) > 0 && f[0] >= 'A' && f[0] <= 'Z' {
					continue // changing the elements of an exported list is not building it
				}
				written[k] = true
			}
		}
	}
	out := map[string]bool{}
	seen := map[types.Type]bool{}
	var visit func(t types.Type)
	visit = func(t types.Type) {
		t = types.Unalias(t)
		if seen[t] {
			return
		}
		seen[t] = true
		switch x := t.(type) {
		case *types.Named:
			s, ok := x.Underlying().(*types.Struct)
			if !ok || shared[types.TypeString(x, nil)] == nil || x.Obj().Pkg().Path() != modPath {
				return
			}
			for i := 0; i < s.NumFields(); i++ {
				k := fieldKey(x, i)
				nm := x.Obj().Name()
				if (nm == "Reader" || nm == "ReadCloser") && written[k] {
					continue // lazily built under the once; judged by C12
				}
				out[k] = true
				visit(s.Field(i).Type())
			}
		case *types.Pointer:
			visit(x.Elem())
		case *types.Slice:
			visit(x.Elem())
		case *types.Array:
			visit(x.Elem())
		case *types.Map:
			visit(x.Key())
			visit(x.Elem())
		case *types.Struct:
			for i := 0; i < x.NumFields(); i++ {
				visit(x.Field(i).Type())
			}
		}
	}
	for _, n := range []string{"Reader", "ReadCloser", "File"} {
		if t := p.named(modPath, n); t != nil {
			visit(t)
		}
	}
	return out
}

// fullSlice: does x[lo:hi:max] end at its capacity when x does?
func fullSlice(x *ssa.Slice) bool {
	if x.High == nil {
		return true
	}
	if x.Max != nil && x.Max == x.High {
		return true
	}
	if c, ok := x.High.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") && c.Call.Args[0] == x.X {
			return true
		}
	}
	if x.Max != nil {
		a, ok1 := x.Max.(*ssa.Const)
		b, ok2 := x.High.(*ssa.Const)
		return ok1 && ok2 && a.Value != nil && b.Value != nil && a.Value.ExactString() == b.Value.ExactString()
	}
	return false
}

// fieldLabel: whether the slices stored in a description field are known to
// have no spare capacity.
func (a *aliasFlow) fieldLabel(k string) int {
	if l, ok := a.full[k]; ok {
		return l
	}
	l := aFull
	for _, fn := range a.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldKey(fa.X.Type(), fa.Field) != k || !isSlice(st.Val.Type()) {
					continue
				}
				if !clipped(a.g, st.Val, map[ssa.Value]bool{}) {
					l = aSub
				}
			}
		}
	}
	a.full[k] = l
	return l
}

// clipped: a slice value whose capacity equals its length.
func clipped(g *CG, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeSlice:
		return x.Len == x.Cap
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return x.High == nil
		}
		if x.Max != nil && x.Max == x.High {
			return true
		}
		return fullSlice(x) && clipped(g, x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !clipped(g, e, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				switch s := r.(type) {
				case *ssa.Store:
					if s.Addr == ssa.Value(al) && !clipped(g, s.Val, seen) {
						return false
					}
				case *ssa.MakeClosure:
					return false
				}
			}
			return true
		}
		// read back from the same field
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			_ = fa
			return false
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return clippedCall(g, c, x.Index, seen)
		}
	case *ssa.Call:
		return clippedCall(g, x, 0, seen)
	}
	return false
}

func clippedCall(g *CG, c *ssa.Call, idx int, seen map[ssa.Value]bool) bool {
	if staticName(&c.Call) == "slices.Clip" {
		return true
	}
	cs := g.callees(c)
	if len(cs) == 0 {
		return false
	}
	for _, f := range cs {
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				if !clipped(g, r.Results[idx], seen) {
					return false
				}
			}
		}
	}
	return true
}

// propsLabel: the label of what dynamic decompressor calls pass.
func (a *aliasFlow) propsLabel() int {
	dec := a.p.named(modPath, "Decompressor")
	if dec == nil {
		return aFull
	}
	l := aFull
	key := sigKey(dec.Underlying().(*types.Signature))
	for _, fn := range a.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || ci.Common().IsInvoke() || ci.Common().StaticCallee() != nil {
					continue
				}
				if _, ok := ci.Common().Value.(*ssa.Builtin); ok || sigKey(ci.Common().Signature()) != key {
					continue
				}
				o := a.g.origin(ci.Common().Args[0])
				for f := range o.fields {
					l |= a.fieldLabel(f)
				}
			}
		}
	}
	return l
}

func newAliasFlow(p *Prog) *aliasFlow {
	return &aliasFlow{p: p, g: p.cg(), lab: map[ssa.Value]int{}, why: map[ssa.Value]string{}, fields: map[string]int{}, fwhy: map[string]string{}, cells: map[ssa.Value]int{}, cwhy: map[ssa.Value]string{}, elems: map[ssa.Value]int{}, full: map[string]int{}}
}

func (a *aliasFlow) run(fns []*ssa.Function, desc map[string]bool) {
	for i := 0; i < 100; i++ {
		a.changed = false
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					a.instr(fn, in, desc)
				}
			}
		}
		if !a.changed {
			break
		}
	}
}

func (a *aliasFlow) l(v ssa.Value) int { return a.lab[v] }

func (a *aliasFlow) instr(fn *ssa.Function, in ssa.Instruction, desc map[string]bool) {
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op.String() != "*" {
			return
		}
		switch ad := x.X.(type) {
		case *ssa.FieldAddr:
			k := fieldKey(ad.X.Type(), ad.Field)
			if desc[k] {
				if !a.g.origin(rootPtr(ad.X)).onlyFresh() {
					a.set(x, a.fieldLabel(k), "field "+short(k))
				}
			}
			a.set(x, a.fields[k], a.fwhy[k])
		case *ssa.IndexAddr:
			if l := a.l(ad.X); l != 0 {
				a.set(x, aFull, a.why[ad.X])
			}
			if l := a.elems[ad.X]; l != 0 {
				a.set(x, l, a.why[ad.X])
			}
		case *ssa.Alloc, *ssa.FreeVar, *ssa.Global:
			a.set(x, a.cells[x.X], a.cwhy[x.X])
		default:
			if l := a.l(x.X); l != 0 {
				a.set(x, l, a.why[x.X])
			}
		}
	case *ssa.Field:
		k := fieldKey(x.X.Type(), x.Field)
		if desc[k] {
			a.set(x, a.fieldLabel(k), "field "+short(k))
		}
		a.set(x, a.fields[k], a.fwhy[k])
	case *ssa.FieldAddr:
		if l := a.l(x.X); l != 0 {
			a.set(x, l, a.why[x.X])
		}
	case *ssa.IndexAddr:
		if l := a.l(x.X); l != 0 && isSlice(x.X.Type()) {
			a.set(x, l, a.why[x.X])
		}
	case *ssa.Index:
	case *ssa.Lookup:
		if l := a.l(x.X); l != 0 && !x.CommaOk {
			a.set(x, aFull, a.why[x.X])
		}
	case *ssa.Slice:
		if l := a.l(x.X); l != 0 {
			if !fullSlice(x) {
				l = aSub
			}
			a.set(x, l, a.why[x.X])
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.set(x, a.l(e), a.why[e])
		}
	case *ssa.ChangeType:
		a.set(x, a.l(x.X), a.why[x.X])
	case *ssa.ChangeInterface:
		a.set(x, a.l(x.X), a.why[x.X])
	case *ssa.MakeInterface:
		a.set(x, a.l(x.X), a.why[x.X])
	case *ssa.SliceToArrayPointer:
		a.set(x, a.l(x.X), a.why[x.X])
	case *ssa.TypeAssert:
		if !x.CommaOk {
			a.set(x, a.l(x.X), a.why[x.X])
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.TypeAssert:
			if x.Index == 0 {
				a.set(x, a.l(t.X), a.why[t.X])
			}
		case *ssa.Lookup:
			if x.Index == 0 && a.l(t.X) != 0 {
				a.set(x, aFull, a.why[t.X])
			}
		case *ssa.Call:
			a.results(x, t, x.Index)
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok && a.l(r.X) != 0 && x.Index == 2 {
				a.set(x, aFull, a.why[r.X])
			}
		}
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			fv := f.FreeVars[i]
			a.set(fv, a.l(b), a.why[b])
			// the cell is shared both ways
			if l := a.cells[b]; l != 0 {
				a.setCell(fv, l, a.cwhy[b])
			}
			if l := a.cells[fv]; l != 0 {
				a.setCell(b, l, a.cwhy[fv])
			}
		}
	case *ssa.Store:
		l := a.l(x.Val)
		if l == 0 {
			return
		}
		switch ad := x.Addr.(type) {
		case *ssa.FieldAddr:
			a.setField(fieldKey(ad.X.Type(), ad.Field), l, a.why[x.Val])
		case *ssa.Alloc, *ssa.FreeVar, *ssa.Global:
			a.setCell(x.Addr, l, a.why[x.Val])
		case *ssa.IndexAddr:
			// element of a local container (varargs, [][]byte)
			b := ad.X
			if a.elems[b]|l != a.elems[b] {
				a.elems[b] |= l
				a.changed = true
				if a.why[b] == "" {
					a.why[b] = a.why[x.Val]
				}
			}
			for _, r := range *b.Referrers() {
				if s, ok := r.(*ssa.Slice); ok && a.elems[s]|l != a.elems[s] {
					a.elems[s] |= l
					a.changed = true
					if a.why[s] == "" {
						a.why[s] = a.why[x.Val]
					}
				}
			}
		}
	case *ssa.Call:
		a.call(x, x)
		a.results(x, x, -1)
	case *ssa.Defer:
		a.call(x, nil)
	case *ssa.Go:
		a.call(x, nil)
	}
}

// call propagates arguments into module callees.
func (a *aliasFlow) call(ci ssa.CallInstruction, v *ssa.Call) {
	c := ci.Common()
	for _, f := range a.g.callees(ci) {
		args := c.Args
		if c.IsInvoke() {
			args = append([]ssa.Value{c.Value}, args...)
		}
		for i, ar := range args {
			if i < len(f.Params) {
				if l := a.l(ar); l != 0 {
					a.set(f.Params[i], l, a.why[ar])
				}
			}
		}
		if mc, ok := c.Value.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
			_ = mc
		}
	}
}

// results propagates aliases out of a call; idx -1: single result.
func (a *aliasFlow) results(dst ssa.Value, c *ssa.Call, idx int) {
	cc := &c.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			base := cc.Args[0]
			if l := a.l(base); l&aSub != 0 {
				a.set(dst, l, a.why[base])
			} else if l&aFull != 0 && len(cc.Args) > 1 && !nonEmptyVarargs(cc.Args[1]) {
				a.set(dst, l, a.why[base])
			}
			// elements
			if e := a.elems[base]; e != 0 && a.elems[dst]|e != a.elems[dst] {
				a.elems[dst] |= e
				a.why[dst] = a.why[base]
				a.changed = true
			}
			if len(cc.Args) > 1 {
				if e := a.elems[cc.Args[1]]; e != 0 && a.elems[dst]|e != a.elems[dst] {
					a.elems[dst] |= e
					a.why[dst] = a.why[cc.Args[1]]
					a.changed = true
				}
			}
		}
		return
	}
	cs := a.g.callees(c)
	for _, f := range cs {
		for _, b := range f.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			i := idx
			if i < 0 {
				if len(r.Results) != 1 {
					continue
				}
				i = 0
			}
			if i < len(r.Results) {
				a.set(dst, a.l(r.Results[i]), a.why[r.Results[i]])
			}
		}
	}
	if len(cs) > 0 || idx > 0 {
		return
	}
	n := staticName(cc)
	args := cc.Args
	switch n {
	case "bytes.TrimSpace", "bytes.Trim", "bytes.TrimLeft", "bytes.TrimRight", "bytes.TrimPrefix", "bytes.TrimSuffix",
		"slices.Delete", "slices.Compact", "slices.DeleteFunc":
		if l := a.l(args[0]); l != 0 {
			a.set(dst, aSub, a.why[args[0]])
		}
	case "slices.Clip", "bytes.NewBuffer", "slices.Grow", "(*bytes.Buffer).Bytes", "unsafe.SliceData":
		l := a.l(args[0])
		if n == "(*bytes.Buffer).Bytes" && l != 0 {
			l = aSub
		}
		if n == "slices.Clip" && l != 0 {
			l = aFull
		}
		a.set(dst, l, a.why[args[0]])
	}
}

// nonEmptyVarargs: append(x, a, b): at least one element is appended.
func nonEmptyVarargs(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return false
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	at, ok := derefT(al.Type()).Underlying().(*types.Array)
	return ok && at.Len() > 0 && s.High == nil
}

// appendLike: external functions that append to an argument.
func appendLike(n string) int {
	switch {
	case strings.HasPrefix(n, "strconv.Append"), n == "unicode/utf8.AppendRune", n == "unicode/utf16.AppendRune", n == "fmt.Append", n == "fmt.Appendf", n == "fmt.Appendln",
		n == "encoding/binary.Append", n == "encoding/hex.AppendEncode", n == "encoding/hex.AppendDecode", n == "slices.Insert", n == "slices.AppendSeq", n == "encoding/binary.AppendUvarint", n == "encoding/binary.AppendVarint":
		return 0
	case strings.Contains(n, ").AppendUint"), strings.HasSuffix(n, ").Sum"), strings.HasSuffix(n, "hash.Hash).Sum"), strings.HasSuffix(n, ").AppendEncode"):
		return 1
	}
	return -1
}

func bufMethod(n string) string {
	if strings.HasPrefix(n, "(*bytes.Buffer).") {
		return strings.TrimPrefix(n, "(*bytes.Buffer).")
	}
	return ""
}

func c13(c *Check) {
	p := c.P
	g := p.cg()
	c.rule("aliases of description memory (slices, maps and pointers loaded from fields of the parsed archive types, and the properties argument of every decompressor constructor) are propagated through assignments, slicing, calls, closures, struct fields and containers; nothing reachable after opening stores through such an alias, copies or reads into it, appends to one whose capacity may exceed its length, writes to a bytes.Buffer over one that is not capacity-clipped or was read from, or hands it to a library function that writes its argument; no field of a description type is assigned after opening")
	desc := p.descFields(g)
	var dk []string
	for k := range desc {
		dk = append(dk, short(k))
	}
	sort.Strings(dk)
	c.count("description fields", len(dk))
	c.sample("description fields: %s", strings.Join(dk, ", "))
	a := newAliasFlow(p)
	var fns []*ssa.Function
	for _, fn := range p.funcs {
		if g.postOpen[fn] && !g.inits[fn] {
			fns = append(fns, fn)
		}
	}
	for _, f := range g.decomp {
		if len(f.Params) == 3 {
			a.set(f.Params[0], a.propsLabel(), "the properties passed to "+p.fname(f))
			c.count("decompressor constructors", 1)
		}
	}
	a.run(fns, desc)
	c.count("values that may refer to description memory", len(a.lab))
	// stores to description fields
	shared := p.sharedTypes()
	for _, fn := range fns {
		for _, ac := range g.accesses(fn, shared) {
			k := strings.TrimSuffix(ac.key, "[]")
			if !ac.write || !desc[k] && !strings.HasPrefix(k, "[]") {
				continue
			}
			if strings.HasPrefix(k, "[]") {
				continue // element writes are judged by alias below
			}
			c.bad("assign:"+p.fname(fn)+":"+short(ac.key), "%s: %s changes %s (%s) of the parsed archive description after opening", p.ipos(ac.in), p.fname(fn), short(ac.key), ac.what)
		}
	}
	hit := func(fn *ssa.Function, in ssa.Instruction, what string, v ssa.Value) {
		c.bad("mutate:"+p.fname(fn)+":"+a.why[v], "%s: %s %s memory of the archive description (%s)", p.ipos(in), p.fname(fn), what, a.why[v])
	}
	a.judge(c, fns, desc, hit)
	c.need("description fields", 15)
	c.need("decompressor constructors", 10)
	c.need("values that may refer to description memory", 20)
	c.assume("library functions other than the known writers (copy, append, Read, Put*, Sort*, Sum, CryptBlocks, ...) do not write to their arguments; slices allocated by the parser have no spare capacity")
}

// judge reports every write through an alias.
func (a *aliasFlow) judge(c *Check, fns []*ssa.Function, desc map[string]bool, hit func(fn *ssa.Function, in ssa.Instruction, what string, v ssa.Value)) {
	g := a.g
	read := map[ssa.Value]bool{} // buffers something is consumed from
	root := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
			case *ssa.ChangeInterface:
				v = x.X
			case *ssa.ChangeType:
				v = x.X
			default:
				return v
			}
		}
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					switch bufMethod(staticName(ci.Common())) {
					case "Read", "ReadByte", "Next", "Reset", "Truncate", "ReadBytes", "ReadRune", "ReadString", "WriteTo":
						read[root(ci.Common().Args[0])] = true
					}
				}
			}
		}
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					c.count("stores judged", 1)
					switch ad := x.Addr.(type) {
					case *ssa.IndexAddr:
						if a.l(ad.X) != 0 {
							hit(fn, in, "stores into", ad.X)
						}
					case *ssa.FieldAddr:
						// only through a pointer known to be description memory
						if n, ok := derefT(ad.X.Type()).(*types.Named); ok && desc[fieldKey(n, ad.Field)] {
							// judged above
							continue
						}
					case *ssa.Alloc, *ssa.FreeVar, *ssa.Global:
					default:
						if a.l(x.Addr) != 0 {
							hit(fn, in, "stores through a pointer into", x.Addr)
						}
					}
				case *ssa.MakeInterface:
					// a buffer handed out as a writer
					if types.TypeString(x.X.Type(), nil) == "*bytes.Buffer" && (a.l(x.X)&aSub != 0 || a.l(x.X) != 0 && read[root(x.X)]) && types.NewMethodSet(x.Type()).Lookup(nil, "Write") != nil {
						hit(fn, in, "hands out a bytes.Buffer as a writer over", x.X)
					}
				case *ssa.MapUpdate:
					if a.l(x.Map) != 0 {
						hit(fn, in, "updates a map in", x.Map)
					}
				case ssa.CallInstruction:
					cc := x.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "copy", "clear", "delete":
							if a.l(cc.Args[0]) != 0 {
								hit(fn, in, "uses "+bi.Name()+" on", cc.Args[0])
							}
						case "append":
							if a.l(cc.Args[0])&aSub != 0 {
								hit(fn, in, "appends to a slice with spare capacity over", cc.Args[0])
							}
						}
						continue
					}
					if len(g.callees(x)) > 0 && !cc.IsInvoke() {
						continue
					}
					n := staticName(cc)
					c.count("library calls judged", 1)
					arg := func(i int) ssa.Value {
						if cc.IsInvoke() {
							i--
						}
						if i < 0 || i >= len(cc.Args) {
							return nil
						}
						return root(cc.Args[i])
					}
					for _, i := range mutatorArgs(n) {
						if v := arg(i); v != nil && a.l(v) != 0 && !strings.HasSuffix(n, ".Sum") {
							hit(fn, in, fmt.Sprintf("lets %s write to", n), v)
						}
					}
					if i := appendLike(n); i >= 0 {
						if v := arg(i); v != nil && a.l(v)&aSub != 0 {
							hit(fn, in, fmt.Sprintf("lets %s append to a slice with spare capacity over", n), v)
						}
					}
					w := ssa.Value(nil)
					switch bufMethod(n) {
					case "Write", "WriteByte", "WriteString", "WriteRune", "ReadFrom", "AvailableBuffer":
						w = root(cc.Args[0])
					}
					if n == "encoding/binary.Write" || n == "io.Copy" || n == "io.CopyN" || n == "io.WriteString" || n == "fmt.Fprintf" || n == "fmt.Fprint" {
						w = root(cc.Args[0])
					}
					if n == "(io.Writer).Write" || n == "(io.ByteWriter).WriteByte" {
						w = root(cc.Value)
					}
					if w != nil && types.TypeString(w.Type(), nil) == "*bytes.Buffer" && a.l(w) != 0 && (a.l(w)&aSub != 0 || read[w]) {
						hit(fn, in, "writes through a bytes.Buffer over", w)
					}
				}
			}
		}
	}
}
