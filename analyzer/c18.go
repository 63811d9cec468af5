package main

// C18: the key cache.

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C18"] = c18 }

// cacheOp classifies calls of a keyed cache: 1 lookup, 2 insertion, 3 both.
func cacheOp(n string) int {
	i := strings.LastIndexByte(n, '.')
	if i < 0 {
		return 0
	}
	m := n[i+1:]
	switch {
	case strings.Contains(n, "golang-lru"), strings.HasPrefix(n, "(*sync.Map)"):
		switch m {
		case "Get", "Peek", "Load":
			return 1
		case "Add", "Store":
			return 2
		case "PeekOrAdd", "LoadOrStore", "Swap":
			return 3
		}
	}
	return 0
}

// injective: can x be recovered from the key term?
func (e *Engine) injective(key, x AV, d int) bool {
	if key == x {
		return true
	}
	if d > 12 || key == 0 {
		return false
	}
	n := e.nodes[key]
	switch n.k {
	case kIface:
		return e.injective(n.args[0], x, d+1)
	case kOp:
		switch {
		case n.tag == "struct":
			for _, a := range n.args {
				if e.injective(a, x, d+1) {
					return true
				}
			}
		case strings.HasPrefix(n.tag, "conv:"):
			to := n.typ
			if b, ok := to.Underlying().(*types.Basic); ok {
				if b.Info()&types.IsString != 0 {
					// string(int) is not meant here
					if f := e.n(n.args[0]).typ; f != nil {
						if fb, ok := f.Underlying().(*types.Basic); ok && fb.Info()&types.IsInteger != 0 {
							return false
						}
					}
					return e.injective(n.args[0], x, d+1)
				}
				if b.Info()&types.IsInteger != 0 {
					return e.injective(n.args[0], x, d+1)
				}
				return false
			}
			return e.injective(n.args[0], x, d+1)
		case n.tag == "encode":
			return e.injective(n.args[0], x, d+1)
		case strings.HasPrefix(n.tag, "strconv.Itoa"), strings.HasPrefix(n.tag, "strconv.Format"), n.tag == "strconv.Quote":
			return e.injective(n.args[0], x, d+1)
		case n.tag == "+":
			parts := e.concat(key)
			if len(parts) < 2 {
				return false
			}
			return e.joined(parts, x, d)
		case n.tag == "fmt.Sprintf":
			f := e.constOf(n.args[0])
			if f == nil || f.Kind() != constant.String {
				return false
			}
			return e.sprintf(constant.StringVal(f), n.args[1:], x, d)
		}
	}
	return false
}

// concat flattens a string concatenation.
func (e *Engine) concat(a AV) []AV {
	n := e.nodes[a]
	if n.k == kOp && n.tag == "+" {
		return append(e.concat(n.args[0]), e.concat(n.args[1])...)
	}
	return []AV{a}
}

// joined: parts of a concatenation, uniquely splittable when at most one part
// is unrestricted and parts are separated by constants.
func (e *Engine) joined(parts []AV, x AV, d int) bool {
	raw, found, prevConst := 0, false, true
	for _, p := range parts {
		n := e.nodes[p]
		if n.k == kConst {
			c := e.constOf(p)
			prevConst = prevConst || c != nil && c.Kind() == constant.String && strings.Trim(constant.StringVal(c), "0123456789abcdefABCDEF") != ""
			continue
		}
		if !prevConst {
			return false
		}
		prevConst = false
		restricted := n.k == kOp && (n.tag == "encode" || strings.HasPrefix(n.tag, "strconv."))
		if !restricted {
			raw++
		}
		if e.injective(p, x, d+1) {
			found = true
		}
	}
	return found && raw <= 1
}

func (e *Engine) sprintf(f string, args []AV, x AV, d int) bool {
	raw, arg, found, sep := 0, 0, false, true
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			if strings.IndexByte("0123456789abcdefABCDEF", f[i]) < 0 {
				sep = true
			}
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) || f[i] == '%' {
			continue
		}
		if !sep {
			return false
		}
		sep = false
		switch f[i] {
		case 'd', 'x', 'X', 'q':
		case 's', 'v':
			if arg < len(args) {
				n := e.nodes[args[arg]]
				if n.k == kIface {
					if b, ok := n.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
						break
					}
				}
			}
			raw++
		default:
			return false
		}
		if arg < len(args) && e.injective(args[arg], x, d+1) {
			found = true
		}
		arg++
	}
	return found && raw <= 1
}

func c18(c *Check) {
	p := c.P
	g := p.cg()
	c.rule("in every function that looks up and fills a key cache: the key looked up and the key stored under are the same value on every path, and every parameter (and receiver field read before the insertion) can be recovered from it (struct fields, string/hex conversions, separated concatenation); a cached value is returned only when the lookup succeeded; a value is inserted only on paths that go on to succeed, and neither the function nor any caller writes to a key after it entered or came from the cache")
	reach := map[*ssa.Function]int{}
	ops := func(fn *ssa.Function) int {
		r := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					r |= cacheOp(staticName(ci.Common()))
				}
			}
		}
		return r
	}
	for _, fn := range p.funcs {
		if fn.Pkg != nil && fn.Pkg.Pkg.Path() == modPath {
			continue // the registry of decompressors is not a key cache (C16)
		}
		for f := range g.reach([]*ssa.Function{fn}) {
			if f.Pkg != nil && f.Pkg.Pkg.Path() == modPath {
				continue
			}
			reach[fn] |= ops(f)
		}
	}
	var roots []*ssa.Function
	for _, fn := range p.funcs {
		if reach[fn] != 3 {
			continue
		}
		inner := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil && f != fn && reach[f] == 3 {
						inner = true
					}
				}
			}
		}
		if !inner && fn.Parent() == nil {
			roots = append(roots, fn)
		}
	}
	for _, fn := range roots {
		c.count("caching functions", 1)
		c.sample("caching function %s", p.fname(fn))
		c18root(c, fn)
	}
	// nobody writes to a cached key
	a := newAliasFlow(p)
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				hit := cacheOp(staticName(&call.Call))&1 != 0 && fn.Pkg.Pkg.Path() != modPath
				if f := call.Call.StaticCallee(); f != nil {
					for _, r := range roots {
						hit = hit || r == f
					}
				}
				if !hit {
					continue
				}
				why := "result of " + shortName(staticName(&call.Call))
				if call.Call.Signature().Results().Len() == 1 {
					a.set(call, aSub, why)
				}
				for _, r := range *call.Referrers() {
					if x, ok := r.(*ssa.Extract); ok {
						a.set(x, aSub, why)
					}
				}
			}
		}
	}
	a.run(p.funcs, map[string]bool{})
	c.count("values that may refer to a cached key", len(a.lab))
	a.judge(c, p.funcs, map[string]bool{}, func(fn *ssa.Function, in ssa.Instruction, what string, v ssa.Value) {
		if !isByteSlice(v.Type()) {
			return
		}
		c.bad("mutate:"+p.fname(fn), "%s: %s %s a cached key (%s)", p.ipos(in), p.fname(fn), what, a.why[v])
	})
	c.assume("a cache is a golang-lru cache or sync.Map outside the root package; without one the property holds trivially")
}

func c18root(c *Check, fn *ssa.Function) {
	p := c.P
	var h Hooks
	recvFields := map[string]map[AV]bool{}
	keys := map[AV]string{}
	encoders := map[string]bool{"encoding/hex.EncodeToString": true, "(*encoding/base64.Encoding).EncodeToString": true, "strings.Clone": true, "bytes.Clone": true}
	has := func(st *State, m string) AV {
		for k, v := range st.marks {
			if v == m {
				return k
			}
		}
		return 0
	}
	h.Call = func(e *Engine, st *State, s *Site) (AV, bool) {
		if encoders[s.name] {
			v := s.instr.(ssa.Value)
			return e.op("encode", v.Type(), s.args[len(s.args)-1]), true
		}
		added := has(st, "added")
		if added != 0 {
			n := s.name
			if b, ok := s.c.Value.(*ssa.Builtin); ok {
				n = b.Name()
				if (n == "copy" || n == "clear") && e.root(s.args[0]) == added {
					c.bad("late:"+p.fname(fn), "%s: %s writes to the key after it was inserted in the cache; path: %s", s.pos(e), p.fname(s.ctx.fn), st.path())
				}
			}
			for _, i := range mutatorArgs(n) {
				if i < len(s.args) && e.root(s.args[i]) == added {
					c.bad("late:"+p.fname(fn), "%s: %s lets %s write to the key after it was inserted in the cache; path: %s", s.pos(e), p.fname(s.ctx.fn), n, st.path())
				}
			}
		}
		return 0, false
	}
	h.After = func(e *Engine, st *State, s *Site, res AV) {
		op := cacheOp(s.name)
		if op != 0 && len(s.args) > 1 {
			key := s.args[1]
			if n := e.n(key); n.k == kIface {
				key = n.args[0]
			}
			keys[key] = s.pos(e)
			c.count("cache operations judged", 1)
			if op&1 != 0 && res != 0 {
				st.marks[key] = "getkey"
				st.marks[res] = "gethit"
			}
			if op&2 != 0 {
				for k, v := range st.marks {
					if v == "getkey" && k != key {
						c.bad("samekey:"+p.fname(fn), "%s: the key is inserted under a different cache key than it was looked up with; path: %s", s.pos(e), st.path())
					}
					if v == "err" && e.nilness(st, k) == 1 {
						c.bad("failed:"+p.fname(fn), "%s: a key is cached after its derivation failed; path: %s", s.pos(e), st.path())
					}
				}
				if len(s.args) > 2 {
					v := s.args[2]
					if n := e.n(v); n.k == kIface {
						v = n.args[0]
					}
					st.marks[e.root(v)] = "added"
				}
			}
			return
		}
		if lastErr(s.c.Signature()) && res != 0 {
			if x := e.errOf(s, res); x != 0 {
				st.marks[x] = "err"
			}
		}
	}
	h.Store = func(e *Engine, st *State, ctx *Ctx, in *ssa.Store, addr, val AV) {
		if added := has(st, "added"); added != 0 && e.root(addr) == added && addr != added {
			c.bad("late:"+p.fname(fn), "%s: %s writes to the key after it was inserted in the cache; path: %s", p.ipos(in), p.fname(ctx.fn), st.path())
		}
	}
	h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) {
		n := e.n(addr)
		if n.k != kField || fn.Signature.Recv() == nil {
			return
		}
		root := ctx
		for root.parent != nil {
			root = root.parent
		}
		if n.args[0] != e.param(root, 0) || has(st, "added") != 0 {
			return
		}
		if res := has(st, "gethit"); res != 0 {
			if e.nilness(st, e.ext(res, 1, types.Typ[types.Bool])) == 1 || e.boolOf(st, e.ext(res, 1, types.Typ[types.Bool])) == 1 {
				return
			}
		}
		switch t := val2type(in).Underlying().(type) {
		case *types.Basic:
		case *types.Slice:
			_ = t
		default:
			return
		}
		k := e.str(addr)
		if recvFields[k] == nil {
			recvFields[k] = map[AV]bool{}
		}
		recvFields[k][val] = true
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		c.count("return paths judged", 1)
		ri := errResult(ctx.fn.Signature)
		if has(st, "added") != 0 && ri >= 0 && e.nilness(st, vals[ri]) != -1 {
			c.bad("failed:"+p.fname(fn), "%s: %s can fail after it has cached a key; path: %s", p.ipos(in), p.fname(fn), st.path())
		}
		res := has(st, "gethit")
		if res == 0 || ri >= 0 && e.nilness(st, vals[ri]) == 1 {
			return
		}
		hit := e.ext(res, 0, nil)
		ok := e.boolOf(st, e.ext(res, 1, types.Typ[types.Bool]))
		for _, v := range vals {
			if e.contains(v, hit) && ok != 1 && e.nilness(st, hit) != 1 {
				c.bad("hit:"+p.fname(fn), "%s: %s returns the result of a cache lookup that may not have succeeded; path: %s", p.ipos(in), p.fname(fn), st.path())
			}
		}
	}
	e := newEngine(p, h)
	e.Run(fn, nil)
	ctx := e.root0(fn)
	for key, pos := range keys {
		for i, prm := range fn.Params {
			if i == 0 && fn.Signature.Recv() != nil {
				continue
			}
			if prm.Referrers() == nil || len(*prm.Referrers()) == 0 {
				continue
			}
			c.count("inputs judged", 1)
			if !e.injective(key, e.param(ctx, i), 0) {
				c.bad("input:"+p.fname(fn)+":"+prm.Name(), "%s: the cache key %s does not determine %s, which the key is derived from: another archive's key could be returned", pos, e.str(key), prm.Name())
			}
		}
		for f, vs := range recvFields {
			ok := false
			for v := range vs {
				ok = ok || e.injective(key, v, 0)
			}
			c.count("inputs judged", 1)
			if !ok {
				c.bad("input:"+p.fname(fn)+":"+f, "%s: the cache key %s does not determine %s, which the key is derived from: another archive's key could be returned", pos, e.str(key), f)
			}
		}
	}
}

func val2type(v ssa.Value) types.Type { return v.Type() }

// contains: does term a mention x?
func (e *Engine) contains(a, x AV) bool {
	if a == x {
		return true
	}
	if a == 0 {
		return false
	}
	for _, y := range e.nodes[a].args {
		if e.contains(y, x) {
			return true
		}
	}
	return false
}
