package main

// C07: the encryption hint. A group's stream builder must report a decryption
// step exactly when one of the coders it set up takes a password; the stream it
// returns carries the same hint; every ReadError built for a failure of the
// builder or of its stream takes the hint from there.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C07"] = c07 }

// isCryptoT: an interface through which a decoder is given the password.
func isCryptoT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok && hasMethod(t, "Password", 1, 1)
}

func boolResult(sig *types.Signature) int {
	idx := -1
	for i := 0; i < sig.Results().Len(); i++ {
		if b, ok := sig.Results().At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			idx = i
		}
	}
	return idx
}

type hintUse struct {
	c     *Check
	p     *Prog
	re    *types.Named // ReadError
	enc   int          // its hint
	fld   map[string]bool
	owner map[string]*types.Named
	prod  func(*ssa.Function) bool

	asserted map[string]bool
}

func c07(c *Check) {
	p := c.P
	c.rule("a group's stream builder reports a decryption step on every exit exactly when a coder it has set up takes a password")
	c.rule("the stream a builder returns carries the builder's hint and nothing changes it")
	c.rule("every ReadError for a failure of a builder or of its stream has its hint from that builder or stream, and opening an archive reports such failures as ReadError")
	u := &hintUse{c: c, p: p, re: p.named(modPath, "ReadError"), fld: map[string]bool{}, owner: map[string]*types.Named{}}
	if u.re == nil || structOf(u.re) == nil {
		c.bad("missing", "type ReadError not found")
		return
	}
	u.enc = -1
	s := structOf(u.re)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "Encrypted" {
			u.enc = i
		}
	}
	if u.enc < 0 {
		c.bad("missing", "ReadError has no field Encrypted")
		return
	}
	reachB := reaches(p, instantiates)
	isB := map[*ssa.Function]bool{}
	for _, b := range streamBuilders(p) {
		isB[b] = true
	}
	u.prod = func(fn *ssa.Function) bool {
		return fn != nil && fn.Blocks != nil && producesStream(fn) && reachB(fn) && (isB[fn] || boolResult(fn.Signature) >= 0)
	}
	makesRE := reaches(p, func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && isNamedT(derefT(a.Type()), modPath, "ReadError") {
					return true
				}
			}
		}
		return false
	})
	// uses first: they say which field of a stream carries the hint
	for _, fn := range p.funcs {
		if fn.Blocks == nil || fn.Parent() != nil || fn.Pkg == nil || fn.Pkg.Pkg.Path() != modPath || u.prod(fn) {
			continue
		}
		direct := false
		anon := append([]*ssa.Function{fn}, fn.AnonFuncs...)
		for _, f := range anon {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if g := ci.Common().StaticCallee(); u.prod(g) {
							direct = true
						} else if len(ci.Common().Args) > 0 && ci.Common().IsInvoke() && isStreamT(ci.Common().Value.Type()) && makesRE(fn) {
							direct = true
						}
					}
				}
			}
		}
		if direct && errResult(fn.Signature) >= 0 {
			u.use(fn, makesRE)
		}
	}
	for _, fn := range p.funcs {
		if u.prod(fn) && fn.Parent() == nil {
			u.builder(fn)
		}
	}
	u.stores()
	c.need("failures judged", 4)
	c.need("builder exits with a decryption step", 2)
	c.need("builder exits without one", 2)
	c.need("streams carrying the hint", 1)
	c.assume("a decoder that takes a password is recognised by its Password method; a decoder whose constructor fails has not been set up")
}

func (u *hintUse) builder(fn *ssa.Function) {
	c, p := u.c, u.p
	name := p.fname(fn)
	hi := boolResult(fn.Signature)
	if hi < 0 {
		c.bad("nohint:"+name, "%s: %s builds a stream but does not say whether a decryption step is involved when it fails", p.pos(fn.Pos()), name)
		return
	}
	relevant := reaches(p, func(fn *ssa.Function) bool {
		if instantiates(fn) {
			return true
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.TypeAssert:
					if isCryptoT(x.AssertedType) {
						return true
					}
				case *ssa.Alloc:
					if isStreamT(x.Type()) {
						return true
					}
				}
			}
		}
		return false
	})
	h := Hooks{}
	h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool {
		return s.fn.Parent() != nil || s.fn.Pkg == fn.Pkg && !u.prod(s.fn) && relevant(s.fn)
	}
	h.Assume = func(e *Engine, st *State, cond AV, truth bool) {
		n := *e.n(cond)
		for n.k == kOp && n.tag == "!" {
			n, truth = *e.n(n.args[0]), !truth
		}
		if truth && n.k == kOp && strings.HasPrefix(n.tag, "taok:") {
			if t, ok := u.asserted[n.tag]; ok && t {
				st.flags["crypto"] = "1"
			}
		}
	}
	h.Instr = func(e *Engine, st *State, ctx *Ctx, in ssa.Instruction) {
		if ta, ok := in.(*ssa.TypeAssert); ok && isCryptoT(ta.AssertedType) {
			if u.asserted == nil {
				u.asserted = map[string]bool{}
			}
			u.asserted["taok:"+types.TypeString(ta.AssertedType, nil)] = true
			if !ta.CommaOk {
				st.flags["crypto"] = "1"
			}
		}
	}
	h.After = func(e *Engine, st *State, s *Site, res AV) {
		if u.prod(s.fn) {
			if i := boolResult(s.fn.Signature); i >= 0 {
				st.flags["inner"] = fmt.Sprint(int(e.ext(res, i, types.Typ[types.Bool])))
				st.flags["innerS"] = fmt.Sprint(int(e.ext(res, 0, s.fn.Signature.Results().At(0).Type())))
			}
		}
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		v := vals[hi]
		b := e.boolOf(st, v)
		if st.flags["inner"] != "" {
			var i, sv int
			fmt.Sscan(st.flags["inner"], &i)
			fmt.Sscan(st.flags["innerS"], &sv)
			if v != AV(i) && (b == 0 || b != e.boolOf(st, AV(i))) {
				c.bad("passed:"+name, "%s: %s does not pass on whether a decryption step is involved; path: %s", p.ipos(in), name, st.path())
			}
			return
		}
		crypto := st.flags["crypto"] != ""
		if crypto {
			c.count("builder exits with a decryption step", 1)
		} else {
			c.count("builder exits without one", 1)
		}
		switch {
		case crypto && b != 1:
			c.bad("unset:"+name, "%s: %s does not report the decryption step it has set up; path: %s", p.ipos(in), name, st.path())
		case !crypto && b != -1:
			c.bad("set:"+name, "%s: %s reports a decryption step without having set one up; path: %s", p.ipos(in), name, st.path())
		}
		if ei := errResult(fn.Signature); ei >= 0 && e.nilness(st, vals[ei]) == 1 || e.nilness(st, vals[0]) == -1 {
			return
		}
		r := stripTA(e, vals[0])
		n := *e.n(r)
		if n.k != kAlloc {
			c.sample("%s: stream returned by %s not judged", p.ipos(in), name)
			return
		}
		for i := 0; structOf(derefT(n.typ)) != nil && i < structOf(derefT(n.typ)).NumFields(); i++ {
			if !u.fld[fieldKey(derefT(n.typ), i)] {
				continue
			}
			c.count("streams carrying the hint", 1)
			fv, ok := st.mem[e.field(r, i, derefT(n.typ))]
			if !ok {
				fv = e.zero(types.Typ[types.Bool])
			}
			if fv != v && (b == 0 || e.boolOf(st, fv) != b) {
				c.bad("carried:"+name, "%s: the stream %s returns does not carry whether a decryption step is involved (field %s); path: %s", p.ipos(in), name, fieldName(derefT(n.typ), i), st.path())
			}
		}
	}
	e := newEngine(p, h)
	e.keyBools = true
	e.Run(fn, nil)
}

// stores: the hint of a stream is set where the stream is made and nowhere else.
func (u *hintUse) stores() {
	for _, fn := range u.p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !u.fld[fieldKey(derefT(fa.X.Type()), fa.Field)] {
					continue
				}
				u.c.count("stores of the hint", 1)
				if _, ok := fa.X.(*ssa.Alloc); !ok {
					u.c.bad("changed:"+u.p.fname(fn), "%s: %s changes the hint of an existing stream", u.p.ipos(in), u.p.fname(fn))
				}
			}
		}
	}
}

type hintCause struct {
	hint, stream AV
	what         string
}

func (u *hintUse) use(fn *ssa.Function, makesRE func(*ssa.Function) bool) {
	c, p := u.c, u.p
	name := p.fname(fn)
	q := newProv()
	causes := map[AV]hintCause{} // error -> where it comes from
	hintOf := map[AV]AV{}        // stream -> hint of its builder
	derived := map[AV]AV{}       // reader made over a stream -> stream
	taTypes := map[string]types.Type{}
	opens := false
	h := Hooks{}
	h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) { q.load(e, in, addr, val) }
	h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool {
		if s.fn.Parent() != nil {
			return true
		}
		if s.fn.Pkg != fn.Pkg || u.prod(s.fn) {
			return false
		}
		return makesRE(s.fn) && s.fn.Object() != nil && !s.fn.Object().Exported() || s.fn.Signature.Results().Len() == 1 && boolResult(s.fn.Signature) == 0
	}
	streamOf := func(e *Engine, st *State, a AV) AV {
		a = stripTA(e, a)
		if s, ok := derived[a]; ok {
			return s
		}
		n := *e.n(a)
		t := n.typ
		if t == nil && n.v != nil {
			t = n.v.Type()
		}
		if t != nil && isStreamT(t) {
			return a
		}
		if n.k == kAlloc { // wrapped in a struct
			if s := structOf(derefT(n.typ)); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					if v, ok := st.mem[e.field(a, i, derefT(n.typ))]; ok {
						v = stripTA(e, v)
						if x := e.n(v); x.typ != nil && isStreamT(x.typ) || x.v != nil && isStreamT(x.v.Type()) {
							return v
						}
					}
				}
			}
		}
		return 0
	}
	h.Instr = func(e *Engine, st *State, ctx *Ctx, in ssa.Instruction) {
		if ta, ok := in.(*ssa.TypeAssert); ok {
			taTypes["taok:"+types.TypeString(ta.AssertedType, nil)] = ta.AssertedType
		}
	}
	h.Assume = func(e *Engine, st *State, cond AV, truth bool) {
		n := *e.n(cond)
		for n.k == kOp && n.tag == "!" {
			n, truth = *e.n(n.args[0]), !truth
		}
		if !truth && n.k == kOp && strings.HasPrefix(n.tag, "taok:") {
			st.flags[fmt.Sprintf("notT:%d", stripTA(e, n.args[0]))] = n.tag
		}
	}
	h.After = func(e *Engine, st *State, s *Site, res AV) {
		ei := errResult(s.c.Signature())
		rs := s.c.Signature().Results()
		if u.prod(s.fn) {
			opens = true
			sv := e.ext(res, 0, rs.At(0).Type())
			var hv AV
			if i := boolResult(s.c.Signature()); i >= 0 {
				hv = e.ext(res, i, types.Typ[types.Bool])
				st.marks[hv] = "hint"
				hintOf[sv] = hv
			}
			x := e.errOf(s, res)
			causes[x] = hintCause{hv, sv, "building the stream"}
			st.flags[fmt.Sprintf("x:%d", x)] = s.pos(e)
			return
		}
		if poolCall(s.c) != "" || s.method() == "Close" || isErrMaker(s.name) {
			return
		}
		for i, a := range s.args {
			sv := streamOf(e, st, a)
			if sv == 0 {
				continue
			}
			if ei >= 0 {
				what := shortName(s.name)
				if i > 0 {
					what = "reading by " + what
				}
				x := e.errOf(s, res)
				causes[x] = hintCause{hintOf[sv], sv, what}
				st.flags[fmt.Sprintf("x:%d", x)] = s.pos(e)
			} else if rs.Len() == 1 && hasMethod(rs.At(0).Type(), "Read", 1, 2) {
				derived[res] = sv
			}
		}
	}
	// isHint: the hint as this path may know it
	isHint := func(e *Engine, st *State, v AV, cs hintCause) bool {
		var ok []AV
		if cs.hint != 0 {
			ok = append(ok, cs.hint)
		}
		for x, addr := range q.from {
			if n := e.n(addr); n.k == kField && stripTA(e, n.args[0]) == cs.stream && isBoolT(e.typOf(x)) {
				i := 0
				fmt.Sscan(n.tag, &i)
				u.fld[fieldKey(derefT(n.typ), i)] = true
				ok = append(ok, x)
			}
		}
		b := e.boolOf(st, v)
		for _, x := range ok {
			if x == v || b != 0 && e.boolOf(st, x) == b {
				return true
			}
		}
		// no stream of ours
		if t := st.flags[fmt.Sprintf("notT:%d", cs.stream)]; t != "" && b == -1 && isStreamT(taTypes[t]) {
			return true
		}
		return false
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		r := vals[errResult(fn.Signature)]
		if e.nilness(st, r) == -1 {
			return
		}
		for x, cs := range causes {
			at := st.flags[fmt.Sprintf("x:%d", x)]
			if at == "" || e.nilness(st, x) == -1 || !e.inChain(st, r, x, map[AV]bool{}) || e.errIs(st, x, eofName) {
				continue
			}
			c.count("failures judged", 1)
			res := u.readErrors(e, st, r, x, map[AV]bool{})
			if len(res) == 0 {
				if opens || makesRE(fn) && e.nilness(st, x) == 1 {
					c.bad("plain:"+name, "%s: %s reports a failure of %s (%s) without an encryption hint; path: %s", p.ipos(in), name, cs.what, at, st.path())
				}
				continue
			}
			for _, b := range res {
				v, ok := st.mem[e.field(b, u.enc, u.re)]
				if !ok {
					v = e.zero(types.Typ[types.Bool])
				}
				if !isHint(e, st, v, cs) {
					c.bad("hint:"+name, "%s: %s reports a failure of %s (%s) with an encryption hint that is not the stream's (%s); path: %s", p.ipos(in), name, cs.what, at, e.str(v), st.path())
				}
			}
		}
	}
	newEngine(p, h).Run(fn, nil)
}

func isBoolT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// readErrors: the ReadError values in the chain of r that hold x.
func (u *hintUse) readErrors(e *Engine, st *State, r, x AV, seen map[AV]bool) []AV {
	if r == 0 || seen[r] {
		return nil
	}
	seen[r] = true
	n := e.nodes[r]
	switch n.k {
	case kIface:
		b := n.args[0]
		if isNamedT(derefT(n.typ), modPath, "ReadError") {
			if e.inChain(st, r, x, map[AV]bool{}) {
				return []AV{b}
			}
			return nil
		}
		if i := e.p.unwrapField(n.typ); i >= 0 {
			if v, ok := st.mem[e.field(b, i, derefT(n.typ))]; ok {
				return u.readErrors(e, st, v, x, seen)
			}
		}
		return u.readErrors(e, st, b, x, seen)
	case kOp:
		var out []AV
		switch n.tag {
		case "joinerr", "spread", "app", "errorf":
			for _, a := range n.args {
				out = append(out, u.readErrors(e, st, a, x, seen)...)
			}
		}
		return out
	}
	return nil
}
