package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C05"] = func(c *Check) { failures(c, "C05") }
	checks["C06"] = func(c *Check) { failures(c, "C06") }
}

// errResult returns the index of the (last) error result, or -1.
func errResult(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && isErrorType(sig.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

func lastErr(sig *types.Signature) bool { return errResult(sig) >= 0 }

// errOf returns the abstract error value of a call result.
func (e *Engine) errOf(s *Site, res AV) AV {
	sig := s.c.Signature()
	i := errResult(sig)
	if i < 0 || res == 0 {
		return 0
	}
	if sig.Results().Len() == 1 {
		return res
	}
	n := e.nodes[res]
	if n.k == kTuple {
		return n.args[i]
	}
	return e.ext(res, i, sig.Results().At(i).Type())
}

// infallible lists calls whose error result is documented to be always nil
// (or to be irrelevant); one reason per line.
func infallible(e *Engine, s *Site) bool {
	n := s.name
	switch {
	case strings.HasPrefix(n, "(*bytes.Buffer).Write"), strings.HasPrefix(n, "(*strings.Builder).Write"):
		return true // documented: err is always nil
	case n == "(io.Writer).Write":
		return isHashT(s.c.Value.Type()) // hash.Hash: never returns an error
	case n == "encoding/binary.Write":
		// writing fixed-size values to memory
		a := e.nodes[s.args[0]]
		if a.k == kIface && types.TypeString(a.typ, nil) == "*bytes.Buffer" {
			return true
		}
		return a.typ != nil && isHashT(a.typ)
	case n == "(*golang.org/x/text/transform.Writer).Write":
		return true // UTF-16 encoder into memory: invalid runes are replaced
	case n == "(*github.com/andybalholm/brotli.Reader).Reset":
		return true // error result is always nil
	}
	return false
}

func isHashT(t types.Type) bool {
	return isNamedT(t, "hash", "Hash") || isNamedT(t, "hash", "Hash32")
}

func discards(s *Site) bool {
	i := errResult(s.c.Signature())
	v, ok := s.instr.(ssa.Value)
	if !ok {
		return true // deferred or go
	}
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	if s.c.Signature().Results().Len() == 1 {
		for _, r := range *refs {
			if _, ok := r.(*ssa.DebugRef); !ok {
				return false
			}
		}
		return true
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.Extract:
			if x.Index == i && x.Referrers() != nil && len(*x.Referrers()) > 0 {
				return false
			}
		case *ssa.Return:
			return false
		}
	}
	return true
}

// failing reports whether fn contains, transitively through static module
// calls, an operation that can fail.
func (p *Prog) failing(fn *ssa.Function, memo map[*ssa.Function]int) bool {
	if m := memo[fn]; m != 0 {
		return m == 2
	}
	memo[fn] = 1
	r := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			c := ci.Common()
			if _, ok := c.Value.(*ssa.Builtin); ok {
				continue
			}
			if f := c.StaticCallee(); f != nil && p.inModule(f) {
				if p.failing(f, memo) {
					r = true
				}
				continue
			}
			if isErrMaker(staticName(c)) {
				continue
			}
			if lastErr(c.Signature()) {
				r = true
			}
		}
	}
	if r {
		memo[fn] = 2
	} else {
		memo[fn] = 3
	}
	return r
}

func isErrMaker(n string) bool {
	switch n {
	case "fmt.Errorf", "errors.New", "errors.Join", "errors.Unwrap":
		return true
	}
	return false
}

// touchesErrors: fn could pass on, store or look at an error.
func touchesErrors(fn *ssa.Function) bool {
	if hasErrParam(fn) {
		return true
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		t := fn.Signature.Results().At(i).Type()
		if isErrorLike(t) {
			return true
		}
		if _, ok := t.Underlying().(*types.Signature); ok {
			return true
		}
	}
	for _, x := range fn.Params {
		if _, ok := x.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if _, ok := addrBase(x.Addr).(*ssa.Alloc); !ok {
					return true
				}
			case *ssa.UnOp:
				if isErrorLike(x.Type()) {
					return true
				}
			case *ssa.Defer, *ssa.MapUpdate:
				return true
			case *ssa.Phi:
				if isErrorLike(x.Type()) {
					return true
				}
			}
		}
	}
	return false
}

func hasErrParam(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if isErrorLike(p.Type()) {
			return true
		}
	}
	return false
}

// readOnlyCtx computes functions that run only on behalf of a Read method.
func (p *Prog) readHelpers() map[*ssa.Function]bool {
	isRead := func(fn *ssa.Function) bool {
		return fn.Name() == "Read" && fn.Signature.Recv() != nil && fn.Signature.Params().Len() == 1 && fn.Signature.Results().Len() == 2
	}
	reach := func(roots []*ssa.Function) map[*ssa.Function]bool {
		m := map[*ssa.Function]bool{}
		for len(roots) > 0 {
			f := roots[len(roots)-1]
			roots = roots[:len(roots)-1]
			if m[f] {
				continue
			}
			m[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						switch x := (*op).(type) {
						case *ssa.Function:
							if p.inModule(x) {
								roots = append(roots, x)
							}
						}
					}
					if mc, ok := in.(*ssa.MakeClosure); ok {
						roots = append(roots, mc.Fn.(*ssa.Function))
					}
				}
			}
		}
		return m
	}
	called := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if x, ok := (*op).(*ssa.Function); ok {
						called[x] = true
					}
				}
			}
		}
	}
	var reads, others []*ssa.Function
	for _, f := range p.funcs {
		if isRead(f) {
			reads = append(reads, f)
		} else if !called[f] && f.Parent() == nil || f.Object() != nil && f.Object().Exported() {
			others = append(others, f)
		}
	}
	r, o := reach(reads), reach(others)
	out := map[*ssa.Function]bool{}
	for f := range r {
		if !o[f] || isRead(f) {
			out[f] = true
		}
	}
	return out
}

func (e *Engine) gerrNamed(a AV, pkg, name string) bool {
	n := e.nodes[a]
	if n.k != kOp || (n.tag != "gerr" && n.tag != "gload") {
		return false
	}
	g := e.nodes[n.args[0]].g
	return g != nil && g.Name() == name && g.Pkg.Pkg.Path() == pkg
}

// errIs: is x known to match the global error pkg.name on this path?
func (e *Engine) errIs(st *State, x AV, names ...[2]string) bool {
	for f, v := range st.facts {
		if v != 1 {
			continue
		}
		n := e.nodes[f]
		if n.k == kOp && n.tag == "notexist" && n.args[0] == x && len(names) > 0 && names[0][1] == "ErrNotExist" {
			return true
		}
		if n.k != kOp || n.tag != "errors.Is" && n.tag != "==" {
			continue
		}
		o := AV(0)
		if n.args[0] == x {
			o = n.args[1]
		} else if n.tag == "==" && n.args[1] == x {
			o = n.args[0]
		}
		if o == 0 {
			continue
		}
		for _, nm := range names {
			if e.gerrNamed(o, nm[0], nm[1]) {
				return true
			}
		}
	}
	return false
}

var eofName = [2]string{"io", "EOF"}

// inChain: does error term r keep cause x reachable by errors.Is/As?
func (e *Engine) inChain(st *State, r, x AV, seen map[AV]bool) bool {
	if r == x {
		return true
	}
	if r == 0 || seen[r] {
		return false
	}
	seen[r] = true
	n := e.nodes[r]
	switch n.k {
	case kOp:
		switch n.tag {
		case "joinerr":
			for _, a := range n.args {
				if e.inChain(st, a, x, seen) {
					return true
				}
				if m := e.nodes[a]; m.k == kOp && (m.tag == "spread" || m.tag == "app") {
					for _, b := range m.args {
						if e.inChain(st, b, x, seen) {
							return true
						}
					}
				}
			}
		case "errorf":
			f := e.constOf(n.args[0])
			if f == nil || f.Kind() != constant.String {
				return false
			}
			for _, i := range wrapVerbs(constant.StringVal(f)) {
				if i+1 < len(n.args) && e.inChain(st, n.args[i+1], x, seen) {
					return true
				}
			}
		}
	case kIface:
		// struct error with an Unwrap method returning one of its fields, or *fs.PathError
		t := n.typ
		base := n.args[0]
		if i := e.p.unwrapField(t); i >= 0 {
			stt := derefT(t)
			if v, ok := st.mem[e.field(base, i, stt)]; ok {
				return e.inChain(st, v, x, seen)
			}
			if b := e.nodes[base]; b.k == kOp && b.tag == "struct" && i < len(b.args) {
				return e.inChain(st, b.args[i], x, seen)
			}
		}
		return e.inChain(st, base, x, seen)
	}
	return false
}

// unwrapField finds the field a type's Unwrap() error method returns.
func (p *Prog) unwrapField(t types.Type) int {
	sel := p.ssa.MethodSets.MethodSet(t).Lookup(nil, "Unwrap")
	if sel == nil {
		return -1
	}
	o, ok := sel.Obj().(*types.Func)
	if !ok {
		return -1
	}
	f := p.ssa.FuncValue(o)
	if f == nil || f.Blocks == nil {
		return -1
	}
	idx := -1
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok || len(r.Results) != 1 {
				continue
			}
			switch v := r.Results[0].(type) {
			case *ssa.UnOp:
				if fa, ok := v.X.(*ssa.FieldAddr); ok {
					idx = fa.Field
				}
			case *ssa.Field:
				idx = v.Field
			}
		}
	}
	return idx
}

// wrapVerbs returns the argument indexes formatted with %w.
func wrapVerbs(f string) []int {
	var out []int
	arg := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.[]", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			continue
		}
		if f[i] == 'w' {
			out = append(out, arg)
		}
		arg++
	}
	return out
}

func failures(c *Check, mode string) {
	p := c.P
	if mode == "C05" {
		c.rule("every call that can fail and is not documented infallible: on every path on which its error is not known to be nil (or an end of data absorbed by code running only for Read, an end of data of ReadAt, or the absence of a next volume), the enclosing function returns a non-nil error; functions without error result are judged inside their callers; a bufio.Scanner loop is followed by a check of Err")
	} else {
		c.rule("on every path on which a failing call's error is known non-nil, the returned error's chain (same value, errors.Join, fmt.Errorf %w, struct error whose Unwrap returns the field) contains it; an end of data turned into another error and an absent next volume are exempt; failures under File.Open and Read of the member handle are *ReadError")
	}
	memo := map[*ssa.Function]int{}
	readOnly := p.readHelpers()
	ops := map[ssa.Instruction]bool{}
	exits := 0
	roots := 0
	reported := map[string]bool{}

	var curRoot *ssa.Function
	var h Hooks
	type opInfo struct {
		name, pos, fn string
		site          *ssa.CallCommon
		infn          *ssa.Function
		disc          bool
	}
	infos := map[string]*opInfo{}

	h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool {
		fn := s.fn
		if fn.Parent() != nil {
			return true
		}
		if errResult(fn.Signature) < 0 {
			return p.failing(fn, memo) || len(fn.Blocks) < 12 && touchesErrors(fn)
		}
		if hasErrParam(fn) || !p.failing(fn, memo) {
			return true
		}
		return discards(s)
	}
	h.Prune = func(e *Engine, st *State) {
		for x, m := range st.marks {
			if m != "scan" && e.nilness(st, x) == -1 {
				delete(st.marks, x)
			}
		}
	}
	h.After = func(e *Engine, st *State, s *Site, res AV) {
		if s.name == "(*bufio.Scanner).Scan" {
			st.marks[s.args[0]] = "scan"
			return
		}
		if s.name == "(*bufio.Scanner).Err" {
			delete(st.marks, s.args[0])
		}
		if !lastErr(s.c.Signature()) || isErrMaker(s.name) {
			return
		}
		if infallible(e, s) {
			c.count("infallible operations", 1)
			return
		}
		ops[s.instr] = true
		id := fmt.Sprintf("op%d.%p", s.ctx.id, s.instr)
		if infos[id] == nil {
			infos[id] = &opInfo{name: s.name, pos: s.pos(e), fn: p.fname(s.ctx.fn), site: s.c, infn: s.ctx.fn, disc: discards(s)}
			if s.name == "" {
				infos[id].name = "dynamic call " + s.c.Value.Name()
			}
		}
		if res == 0 {
			// deferred call whose error is dropped
			if errResult(s.c.Signature()) >= 0 && mode == "C05" {
				c.bad("swallow:"+p.fname(s.ctx.fn)+":"+shortName(s.name), "%s: the error of deferred %s is dropped (in %s)", s.pos(e), s.name, p.fname(s.ctx.fn))
			}
			return
		}
		if probe(e, s) {
			c.count("probe reads", 1)
			return
		}
		x := e.errOf(s, res)
		st.marks[x] = id
		// a successful call does not return the error together with a nil result
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		exits++
		ri := errResult(ctx.fn.Signature)
		var r AV
		if ri >= 0 && ri < len(vals) {
			r = vals[ri]
		}
		for x, m := range st.marks {
			if m == "scan" {
				if mode == "C05" && (r == 0 || e.nilness(st, r) != 1) {
					report(c, reported, "scan:"+p.fname(curRoot), "%s: %s can return success after Scanner.Scan stopped without checking Scanner.Err; path: %s", p.ipos(in), p.fname(curRoot), st.path())
				}
				continue
			}
			if e.nilness(st, x) == -1 {
				continue
			}
			for _, id := range strings.Split(m, "|") {
				inf := infos[id]
				if inf == nil {
					continue
				}
				eof := e.errIs(st, x, eofName)
				if strings.HasSuffix(inf.name, ".ReadAt") && (eof || e.nilness(st, x) == 0 && !inf.disc) {
					// ReadAt reports the end of data, or an error, along with the
					// bytes it did read; if those suffice the error need not be
					// looked at on that path
					continue
				}
				if eof && readOnly[inf.infn] && inf.name != "encoding/binary.Read" {
					continue
				}
				if e.errIs(st, x, [2]string{"io/fs", "ErrNotExist"}, [2]string{"os", "ErrNotExist"}) && (strings.HasSuffix(inf.name, ".Open") || fileOpeners(p)[inf.site.StaticCallee()]) {
					continue
				}
				if mode == "C05" {
					ok := r != 0 && (e.nilness(st, r) == 1 || covers(e, r, x))
					if !ok {
						report(c, reported, "swallow:"+inf.fn+":"+shortName(inf.name), "%s: if %s at %s (in %s) fails, %s can still return without an error; path: %s", p.ipos(in), inf.name, inf.pos, inf.fn, p.fname(curRoot), st.path())
					}
					continue
				}
				// C06
				if e.nilness(st, x) != 1 || r == 0 || e.nilness(st, r) == -1 {
					continue
				}
				if eof {
					continue
				}
				if !e.inChain(st, r, x, map[AV]bool{}) {
					report(c, reported, "chain:"+inf.fn+":"+shortName(inf.name), "%s: the error %s returns when %s at %s fails does not keep that failure in its chain; path: %s", p.ipos(in), p.fname(curRoot), inf.name, inf.pos, st.path())
				}
				if want := readErrorRoots(p)[curRoot]; want {
					c.count("ReadError exits", 1)
					if !e.hasReadError(st, r, map[AV]bool{}) && !alwaysReadError(p, inf.site.StaticCallee(), h, memo, map[*ssa.Function]bool{}) {
						report(c, reported, "type:"+p.fname(curRoot)+":"+shortName(inf.name), "%s: the error %s returns when %s at %s fails is not a *ReadError; path: %s", p.ipos(in), p.fname(curRoot), inf.name, inf.pos, st.path())
					}
				}
			}
		}
	}
	// which functions need to be roots: all with an error result, plus those
	// nobody in the module calls
	called := p.calledFns()
	var names []string
	for _, fn := range p.funcs {
		if fn.Parent() != nil && called[fn] {
			continue // closure, inlined where it runs
		}
		if errResult(fn.Signature) < 0 && (called[fn] || !p.failing(fn, memo)) {
			continue
		}
		curRoot = fn
		roots++
		e := newEngine(p, h)
		e.K = 48
		e.Run(fn, nil)
		names = append(names, p.fname(fn))
		c.count("program points visited", e.steps)
		if *debugFlag {
			fmt.Println("root", p.fname(fn), "steps", e.steps, "merges", e.merges)
		}
	}
	c.count("functions analysed as roots", roots)
	c.count("fallible call sites", len(ops))
	c.count("return paths judged", exits)
	for i, n := range names {
		if i%8 == 0 {
			c.sample("root %s", n)
		}
	}
	c.need("functions analysed as roots", 60)
	c.need("fallible call sites", 80)
	if mode == "C06" {
		c.need("ReadError exits", 3)
	}
	c.assume("module functions report a failure of their own callees (checked for each of them as its own root)")
}

// alwaysReadError: every error fn returns is a *ReadError (so a caller may
// just pass it on).
func alwaysReadError(p *Prog, fn *ssa.Function, h Hooks, memo map[*ssa.Function]int, busy map[*ssa.Function]bool) bool {
	if fn == nil || !p.inModule(fn) || fn.Blocks == nil || busy[fn] {
		return false
	}
	busy[fn] = true
	ok := true
	sites := map[AV]*ssa.Function{}
	inner := Hooks{Inline: h.Inline, Prune: h.Prune}
	inner.After = func(e *Engine, st *State, s *Site, res AV) {
		if lastErr(s.c.Signature()) && !isErrMaker(s.name) && res != 0 {
			if x := e.errOf(s, res); x != 0 {
				sites[x] = s.c.StaticCallee()
			}
		}
	}
	inner.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		ri := errResult(ctx.fn.Signature)
		if ri < 0 || !ok {
			return
		}
		r := vals[ri]
		if e.nilness(st, r) == -1 || e.hasReadError(st, r, map[AV]bool{}) {
			return
		}
		ok = alwaysReadError(p, sites[r], h, memo, busy)
	}
	e := newEngine(p, inner)
	e.K = 48
	e.Run(fn, nil)
	delete(busy, fn)
	return ok
}

func report(c *Check, seen map[string]bool, key, f string, a ...any) {
	c.bad(key, f, a...)
}

// covers: r is non-nil whenever x is.
func covers(e *Engine, r, x AV) bool {
	if r == x {
		return true
	}
	n := e.nodes[r]
	if n.k == kOp && n.tag == "joinerr" {
		for _, a := range n.args {
			if covers(e, a, x) {
				return true
			}
		}
	}
	return false
}

// probe: reading a constant number of bytes into io.Discard only to see
// whether data is left; the count decides, the error is irrelevant.
func probe(e *Engine, s *Site) bool {
	if s.name != "io.CopyN" || !discards(s) {
		return false
	}
	n := e.nodes[s.args[0]]
	if n.k != kOp || !strings.HasPrefix(n.tag, "gload") {
		return false
	}
	if g := e.nodes[n.args[0]].g; g == nil || g.Name() != "Discard" {
		return false
	}
	return e.constOf(s.args[2]) != nil
}

func (p *Prog) calledFns() map[*ssa.Function]bool {
	called := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					c := x.Common()
					if g := c.StaticCallee(); g != nil {
						called[g] = true
					}
				}
			}
		}
	}
	return called
}

var rerMemo map[*ssa.Function]bool

// readErrorRoots: (*File).Open and the Read methods of what it returns.
func readErrorRoots(p *Prog) map[*ssa.Function]bool {
	if rerMemo != nil {
		return rerMemo
	}
	rerMemo = map[*ssa.Function]bool{}
	open := p.method(p.named(modPath, "File"), "Open")
	if open == nil {
		return rerMemo
	}
	rerMemo[open] = true
	for _, n := range p.handleTypes() {
		if r := p.method(n, "Read"); r != nil {
			rerMemo[r] = true
		}
	}
	return rerMemo
}

// handleTypes: concrete module types that (*File).Open returns as io.ReadCloser.
func (p *Prog) handleTypes() []*types.Named {
	open := p.method(p.named(modPath, "File"), "Open")
	if open == nil {
		return nil
	}
	seen := map[*types.Named]bool{}
	var out []*types.Named
	var visitFn func(f *ssa.Function, d int)
	visitFn = func(f *ssa.Function, d int) {
		if d > 4 {
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MakeInterface:
					if n, ok := derefT(x.X.Type()).(*types.Named); ok && p.isModPkg(n.Obj().Pkg()) && p.method(n, "Read") != nil && p.method(n, "Stat") != nil && !seen[n] {
						seen[n] = true
						out = append(out, n)
					}
				case ssa.CallInstruction:
					if g := x.Common().StaticCallee(); g != nil && p.inModule(g) {
						visitFn(g, d+1)
					}
				}
			}
		}
	}
	visitFn(open, 0)
	return out
}

// hasReadError: errors.As(r, **ReadError) succeeds.
func (e *Engine) hasReadError(st *State, r AV, seen map[AV]bool) bool {
	if seen[r] {
		return false
	}
	seen[r] = true
	n := e.nodes[r]
	switch n.k {
	case kIface:
		if isNamedT(derefT(n.typ), modPath, "ReadError") {
			_, ptr := n.typ.(*types.Pointer)
			return ptr
		}
		if i := e.p.unwrapField(n.typ); i >= 0 {
			if v, ok := st.mem[e.field(n.args[0], i, derefT(n.typ))]; ok {
				return e.hasReadError(st, v, seen)
			}
		}
	case kOp:
		if n.tag == "joinerr" {
			for _, a := range n.args {
				if e.hasReadError(st, a, seen) {
					return true
				}
			}
		}
		if n.tag == "errorf" {
			if f := e.constOf(n.args[0]); f != nil && f.Kind() == constant.String {
				for _, i := range wrapVerbs(constant.StringVal(f)) {
					if i+1 < len(n.args) && e.hasReadError(st, n.args[i+1], seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

var _ = strconv.Itoa
