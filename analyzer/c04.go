package main

// C04: header checksums. On every path that opens an archive, the comparisons
// that were passed are collected together with what had been fed to the hash
// when its sum was taken; a successful exit needs one for the start header, one
// for the header and, for an encoded header with a recorded checksum, one for
// its decoded form.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C04"] = c04 }

func isUint32T(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint32
}

// structRead: binary.Read into a struct.
func structRead(in ssa.CallInstruction) bool {
	f := in.Common().StaticCallee()
	if f == nil || f.String() != "encoding/binary.Read" {
		return false
	}
	v := in.Common().Args[2]
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	n, ok := derefT(v.Type()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	return structOf(n) != nil
}

func c04(c *Check) {
	p := c.P
	c.rule("opening succeeds only after the checksum recorded before the start header was found equal to the hash of exactly the start header")
	c.rule("opening succeeds only after the checksum recorded in the start header was found equal to the hash of the header as it was read, taken after the last byte was parsed and when nothing is left of it")
	c.rule("opening succeeds with an encoded header only if no checksum is recorded for it or that checksum was found equal to the hash of what was decoded, taken after it was parsed")
	c.rule("the comparison accepts a sum exactly when it equals the recorded 32 bits (decided bit by bit)")
	reachB := reaches(p, instantiates)
	prod := func(fn *ssa.Function) bool {
		return fn != nil && fn.Blocks != nil && producesStream(fn) && reachB(fn)
	}
	calls := func(pred func(ssa.CallInstruction) bool) func(*ssa.Function) bool {
		return func(fn *ssa.Function) bool {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && pred(ci) {
						return true
					}
				}
			}
			return false
		}
	}
	start := reaches(p, func(fn *ssa.Function) bool {
		return fn.Pkg != nil && fn.Pkg.Pkg.Path() == modPath && calls(structRead)(fn)
	})
	enc := reaches(p, calls(func(ci ssa.CallInstruction) bool { return prod(ci.Common().StaticCallee()) }))
	relevant := reaches(p, calls(func(ci ssa.CallInstruction) bool {
		cc := ci.Common()
		if structRead(ci) || prod(cc.StaticCallee()) {
			return true
		}
		if f := cc.StaticCallee(); f != nil && (f.String() == "io.NewSectionReader" || f.Name() == "Checksum") {
			return true
		}
		return cc.IsInvoke() && isHashT(cc.Value.Type())
	}))
	both := func(fn *ssa.Function) bool { return fn.Blocks != nil && start(fn) && enc(fn) }
	for _, fn := range p.funcs {
		if fn.Parent() != nil || !both(fn) || errResult(fn.Signature) < 0 {
			continue
		}
		inner := calls(func(ci ssa.CallInstruction) bool {
			f := ci.Common().StaticCallee()
			return f != nil && p.inModule(f) && both(f)
		})(fn)
		if !inner {
			c04open(c, p, fn, prod, relevant)
		}
	}
	for _, n := range p.pkgTypes() {
		ck := p.method(n, "Checksum")
		if ck == nil || ck.Blocks == nil || structOf(n) == nil || !isStreamT(types.NewPointer(n)) {
			continue
		}
		c15counter(c, p, n, "hash", isHashT)
		c04checksum(c, p, n, ck)
	}
	c.need("hash judged", 1)
	c.need("checksum methods judged", 1)
	c.need("opening functions", 1)
	c.need("successful exits judged", 2)
	c.need("comparisons passed", 3)
	c.assume("a reader built on top of another passes on exactly its bytes; TeeReaderAt feeds the hash with what is read")
}

type c04sum struct {
	src AV
	fed string
}

func c04open(c *Check, p *Prog, fn *ssa.Function, prod, relevant func(*ssa.Function) bool) {
	name := p.fname(fn)
	c.count("opening functions", 1)
	q := newProv()
	over := map[AV]AV{}    // reader -> hash it feeds (or stream it reads)
	alias := map[AV]AV{}   // writer over a hash
	recd := map[AV][]AV{}  // value -> the recorded values it was made from
	cmps := map[AV][2]AV{} // comparison result -> sum, recorded
	cmpFn := map[*ssa.Function]bool{}
	crcOf := map[AV]AV{} // stream -> recorded checksum
	sizeOf := map[AV]AV{}
	hashOf := func(e *Engine, a AV) AV {
		a = stripTA(e, a)
		if h, ok := alias[a]; ok {
			return h
		}
		if t := e.typOf(a); t != nil && isHashT(t) {
			return a
		}
		return 0
	}
	src := func(e *Engine, a AV) AV {
		a = stripTA(e, a)
		if h, ok := over[a]; ok {
			return h
		}
		if t := e.typOf(a); t != nil && isStreamT(t) {
			return a
		}
		return 0
	}
	fed := func(st *State, h AV) string { return st.flags[fmt.Sprintf("fed:%d", h)] }
	// recorded: the struct a recorded value was read from, or the value itself
	recorded := func(e *Engine, a AV) []AV {
		var out []AV
		todo, seen := []AV{a}, map[AV]bool{}
		for len(todo) > 0 {
			x := stripTA(e, todo[0])
			todo = todo[1:]
			if seen[x] {
				continue
			}
			seen[x] = true
			out = append(out, x)
			todo = append(todo, recd[x]...)
			if n := *e.n(x); n.k == kOp || n.k == kTuple {
				todo = append(todo, n.args...)
			}
			if addr, ok := q.from[x]; ok && e.n(addr).k == kField {
				out = append(out, e.n(addr).args[0])
			}
		}
		return out
	}
	sumIs := func(st *State, a AV) (c04sum, bool) { // what a sum sums up
		m := st.marks[a]
		if !strings.HasPrefix(m, "sum:") {
			return c04sum{}, false
		}
		var i int
		fmt.Sscan(m[4:], &i)
		return c04sum{AV(i), m[strings.Index(m, "|")+1:]}, true
	}
	isSum := func(st *State, a, src AV, fed string) { st.marks[a] = fmt.Sprintf("sum:%d |%s", src, fed) }
	passed := func(e *Engine, st *State, s c04sum, rec AV) {
		c.count("comparisons passed", 1)
		rs := recorded(e, rec)
		// the checksum of a stream
		for sv, cv := range crcOf {
			if s.src == sv {
				for _, r := range rs {
					if r == cv && s.fed != "" {
						st.flags["enc:ok"] = "1"
					}
				}
			}
		}
		ev := strings.Fields(s.fed)
		for _, r := range rs {
			if e.n(r).k != kAlloc {
				continue
			}
			if len(ev) == 1 && strings.HasPrefix(ev[0], "S") && ev[0] != fmt.Sprintf("S%d", r) {
				st.flags["start"] = ev[0][1:]
			}
			hdr := len(ev) > 0
			for _, x := range ev {
				if !strings.HasPrefix(x, "P") {
					hdr = false
				}
			}
			if hdr && st.flags["start"] == fmt.Sprint(int(r)) {
				st.flags["hdr"] = fmt.Sprint(int(s.src))
			}
		}
	}
	h := Hooks{}
	h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) { q.load(e, in, addr, val) }
	h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool {
		if r := s.fn.Signature.Recv(); r != nil && isStreamT(r.Type()) {
			return false
		}
		return s.fn.Parent() != nil || s.fn.Pkg == fn.Pkg && !prod(s.fn) && relevant(s.fn)
	}
	h.Assume = func(e *Engine, st *State, cond AV, truth bool) {
		n := *e.n(cond)
		for n.k == kOp && n.tag == "!" {
			cond, truth = n.args[0], !truth
			n = *e.n(cond)
		}
		if !truth {
			return
		}
		if cm, ok := cmps[cond]; ok {
			if s, ok := sumIs(st, cm[0]); ok {
				passed(e, st, s, cm[1])
			}
		} else if n.k == kOp && n.tag == "==" {
			for i := range 2 {
				if s, ok := sumIs(st, n.args[i]); ok {
					passed(e, st, s, n.args[1-i])
				}
			}
		}
	}
	h.After = func(e *Engine, st *State, s *Site, res AV) {
		sig := s.c.Signature()
		rs := sig.Results()
		if prod(s.fn) {
			sv := e.ext(res, 0, rs.At(0).Type())
			st.flags["enc"] = fmt.Sprint(int(sv))
			delete(st.flags, "enc:ok")
			for i := 0; i < rs.Len(); i++ {
				if isUint32T(rs.At(i).Type()) {
					crcOf[sv] = e.ext(res, i, rs.At(i).Type())
					st.marks[crcOf[sv]] = "crc"
				}
			}
			return
		}
		single := rs.Len() == 1
		// sums
		if len(s.args) > 0 {
			m := s.method()
			if hv := hashOf(e, s.args[0]); hv != 0 && sig.Recv() != nil || hv != 0 && s.c.IsInvoke() {
				switch m {
				case "Sum", "Sum32", "Sum64":
					isSum(st, res, hv, fed(st, hv))
					return
				case "Reset":
					delete(st.flags, fmt.Sprintf("fed:%d", hv))
					return
				case "Write":
					st.flags[fmt.Sprintf("fed:%d", hv)] = fed(st, hv) + " W"
					return
				}
			}
			if m == "Checksum" {
				if sv := src(e, s.args[0]); sv != 0 {
					isSum(st, res, sv, fed(st, sv))
					return
				}
			}
		}
		// comparisons and conversions of sums
		for i, a := range s.args {
			sm, ok := sumIs(st, stripTA(e, a))
			if !ok {
				continue
			}
			if single && isBoolT(rs.At(0).Type()) && len(s.args) == 2 {
				cmps[res] = [2]AV{stripTA(e, a), s.args[1-i]}
				if s.fn != nil && p.inModule(s.fn) && !cmpFn[s.fn] {
					cmpFn[s.fn] = true
					c04equal(c, p, s.fn)
				}
			} else if single {
				isSum(st, res, sm.src, sm.fed)
			}
			return
		}
		if single {
			for _, a := range s.args {
				if t := e.typOf(a); t != nil && isUint32T(t) {
					recd[res] = append(recd[res], a)
				}
			}
		}
		// readers and writers on top of others
		for i, a := range s.args {
			if hv := hashOf(e, a); hv != 0 && single {
				if hasMethod(rs.At(0).Type(), "ReadAt", 2, 2) || hasMethod(rs.At(0).Type(), "Read", 1, 2) {
					over[res] = hv
				} else if hasMethod(rs.At(0).Type(), "Write", 1, 2) {
					alias[res] = hv
				}
				return
			}
			hv := src(e, a)
			if hv == 0 {
				continue
			}
			if single && (hasMethod(rs.At(0).Type(), "ReadAt", 2, 2) || hasMethod(rs.At(0).Type(), "Read", 1, 2)) {
				over[res] = hv
				if s.name == "io.NewSectionReader" {
					sizeOf[hv] = s.args[2]
					st.flags[fmt.Sprintf("size:%d", hv)] = fmt.Sprint(int(s.args[2]))
					st.marks[s.args[2]] = "size"
				}
				return
			}
			switch s.method() {
			case "Seek", "Close", "Size", "Len", "Buffered":
				return
			}
			if rs.Len() == 0 {
				return
			}
			ev := "P"
			if s.name == "encoding/binary.Read" && i == 0 {
				if d := stripTA(e, s.args[2]); e.n(d).k == kAlloc && structOf(derefT(e.n(d).typ)) != nil {
					ev = fmt.Sprintf("S%d", d)
					if st.flags["start"] == ev[1:] { // overwritten
						delete(st.flags, "start")
						delete(st.flags, "hdr")
					}
				}
			}
			k := fmt.Sprintf("fed:%d", hv)
			f := strings.Fields(st.flags[k])
			if ev != "P" || len(f) == 0 || f[len(f)-1] != "P" {
				f = append(f, ev)
			}
			if len(f) > 4 {
				f = f[:4]
			}
			st.flags[k] = strings.Join(f, " ")
			if st.flags["hdr"] == fmt.Sprint(int(hv)) {
				delete(st.flags, "hdr")
			}
			if st.flags["enc"] == fmt.Sprint(int(hv)) {
				delete(st.flags, "enc:ok")
			}
			// what the last read brought
			if e.typOf(hv) == nil || !isHashT(e.typOf(hv)) {
				return
			}
			for _, k := range []string{"lastn", "laste"} {
				var i int
				fmt.Sscan(st.flags[fmt.Sprintf("%s:%d", k, hv)], &i)
				delete(st.marks, AV(i))
			}
			st.flags[fmt.Sprintf("lastn:%d", hv)] = ""
			for j := 0; j < rs.Len(); j++ {
				x := res
				if rs.Len() > 1 {
					x = e.ext(res, j, rs.At(j).Type())
				}
				if isIntT(rs.At(j).Type()) && !isByteT(rs.At(j).Type()) {
					st.flags[fmt.Sprintf("lastn:%d", hv)] = fmt.Sprint(int(x))
					st.marks[x] = "n"
				}
				if isErrorType(rs.At(j).Type()) {
					st.flags[fmt.Sprintf("laste:%d", hv)] = fmt.Sprint(int(x))
					st.marks[x] = "e"
				}
			}
			return
		}
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		r := vals[errResult(fn.Signature)]
		if e.nilness(st, r) == 1 {
			return
		}
		c.count("successful exits judged", 1)
		num := func(k string) AV {
			var i int
			fmt.Sscan(st.flags[k], &i)
			return AV(i)
		}
		if st.flags["start"] == "" {
			c.bad("start:"+name, "%s: %s succeeds without having found the checksum of the start header equal; path: %s", p.ipos(in), name, st.path())
			return
		}
		if st.flags["hdr"] == "" {
			c.bad("header:"+name, "%s: %s succeeds without having found the checksum of the header equal after it was parsed; path: %s", p.ipos(in), name, st.path())
			return
		}
		hv := num("hdr")
		// nothing left
		left := true
		if n := num(fmt.Sprintf("lastn:%d", hv)); n != 0 {
			if l := e.lin(st, n); l.zero() || q.zeroDiff(e, st, l) {
				left = false
			}
		}
		if x := num(fmt.Sprintf("laste:%d", hv)); x != 0 && e.errIs(st, x, eofName) {
			left = false
		}
		if left {
			c.bad("rest:"+name, "%s: %s succeeds without having found the end of the header; path: %s", p.ipos(in), name, st.path())
		}
		// as long as the start header says
		if sz := num(fmt.Sprintf("size:%d", hv)); sz != 0 {
			hit := false
			for a, k := range e.lin(st, sz).t {
				for _, b := range recorded(e, a) {
					if k == 1 && fmt.Sprint(int(b)) == st.flags["start"] {
						hit = true
					}
				}
			}
			if l := e.lin(st, sz); !hit || l.c != 0 || len(l.t) != 1 {
				c.bad("size:"+name, "%s: %s hashes a header that is not as long as the start header says; path: %s", p.ipos(in), name, st.path())
			}
		}
		if st.flags["enc"] != "" && st.flags["enc:ok"] == "" {
			cv := crcOf[num("enc")]
			if cv == 0 {
				c.bad("encoded:"+name, "%s: %s decodes a header without learning its recorded checksum; path: %s", p.ipos(in), name, st.path())
				return
			}
			k := e.constOf(cv)
			if x, ok := st.ceq[cv]; ok {
				k = e.constOf(x)
			}
			if k == nil || constant.Sign(k) != 0 {
				c.bad("encoded:"+name, "%s: %s succeeds although the recorded checksum of the decoded header was not compared with what was decoded; path: %s", p.ipos(in), name, st.path())
			}
		}
	}
	e := newEngine(p, h)
	e.peel = true
	e.Run(fn, nil)
}

// c04checksum: the checksum of a stream is the sum of its hash.
func c04checksum(c *Check, p *Prog, n *types.Named, fn *ssa.Function) {
	q := newProv()
	sums := map[AV]bool{}
	h := Hooks{}
	h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) { q.load(e, in, addr, val) }
	h.After = func(e *Engine, st *State, s *Site, res AV) {
		if s.c.IsInvoke() && s.method() == "Sum" && isHashT(s.c.Value.Type()) {
			if addr, ok := q.from[stripTA(e, s.args[0])]; ok && e.n(addr).k == kField && (e.isNil(s.args[1]) || e.lin(st, e.op("len", types.Typ[types.Int], s.args[1])).zero()) {
				sums[res] = true
			}
		}
		if s.c.IsInvoke() && s.method() == "Sum32" && isHashT(s.c.Value.Type()) {
			sums[res] = true
		}
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		c.count("checksum methods judged", 1)
		if sums[vals[0]] {
			return
		}
		if n := e.n(vals[0]); n.k == kSym && n.v != nil {
			if _, isCall := n.v.(*ssa.Call); isCall {
				return // converted by a call
			}
		}
		c.bad("sum:"+p.fname(fn), "%s: %s does not return the sum of what was read; path: %s", p.ipos(in), p.fname(fn), st.path())
	}
	newEngine(p, h).Run(fn, nil)
}

// c04equal decides the comparison on symbolic bits: equal sums are accepted, a
// sum with any one bit flipped or of another length is not, whatever the rest.
func c04equal(c *Check, p *Prog, fn *ssa.Function) {
	sig := fn.Signature
	if sig.Params().Len() != 2 || sig.Recv() != nil || !isSliceT(sig.Params().At(0).Type()) || !isUint32T(sig.Params().At(1).Type()) {
		c.sample("comparison %s not judged", p.fname(fn))
		return
	}
	a := newAbsint(p)
	a.exact = true
	try := func(what string, n, flip int, want bool) {
		a.explore(func() aval {
			in := inputBits(32, false)
			el := make([]*aCell, n)
			for i := range el {
				b := intBits(0, 8, false)
				for j := 0; j < 8 && i < 4; j++ {
					k := (3-i)*8 + j
					b.b[j] = in.b[k]
					if k == flip {
						b.b[j] = notBit(in.b[k])
					}
				}
				el[i] = &aCell{b}
			}
			return a.call(fn, []aval{aSliceOf(el), in}, nil, 0)
		}, func(r aval, stop string) {
			if stop != "" {
				c.sample("comparison %s not decided for %s: %s", p.fname(fn), what, stop)
				return
			}
			c.count("comparison cases decided", 1)
			b, ok := r.(aBool)
			if !ok || b == 0 || a.inexact || a.pos > 1 || a.pos == 1 && b == aBoth {
				c.sample("comparison %s not decided for %s", p.fname(fn), what)
				return
			}
			if b == aBoth || (b == 1) != want {
				c.bad("equal:"+p.fname(fn), "%s: %s says %v for %s", p.pos(fn.Pos()), p.fname(fn), !want, what)
			}
		})
	}
	try("equal sums", 4, -1, true)
	for i := 0; i < 32; i++ {
		try(fmt.Sprintf("a sum that differs in bit %d", i), 4, i, false)
	}
	try("a sum of three bytes", 3, -1, false)
	try("an empty sum", 0, -1, false)
}
