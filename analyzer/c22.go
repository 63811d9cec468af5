package main

// C22: header grammar. Path-sensitive analysis of the header parsers: every ID
// byte is pinned to a constant before anything else is read or success is
// returned, each pinned ID stores stream data into the field the format assigns
// to it, and nothing stored externally is accepted.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C22"] = c22 }

// the 7z format's assignment of property IDs
var idFields = map[string]int{
	"FileHeader.isEmptyStream": 0x0e, "FileHeader.isEmptyFile": 0x0f, "FileHeader.Name": 0x11,
	"FileHeader.Created": 0x12, "FileHeader.Accessed": 0x13, "FileHeader.Modified": 0x14, "FileHeader.Attributes": 0x15,
	"header.streamsInfo": 0x04, "header.filesInfo": 0x05,
	"streamsInfo.packInfo": 0x06, "streamsInfo.unpackInfo": 0x07, "streamsInfo.subStreamsInfo": 0x08,
	"packInfo.size": 0x09, "packInfo.digest": 0x0a,
	"unpackInfo.folder": 0x0b, "folder.size": 0x0c, "unpackInfo.digest": 0x0a,
	"subStreamsInfo.streams": 0x0d, "subStreamsInfo.size": 0x09, "subStreamsInfo.digest": 0x0a,
}

// fields read one after the other
var fieldOrder = [][2]string{
	{"coder.in", "coder.out"}, {"bindPair.in", "bindPair.out"}, {"packInfo.position", "packInfo.streams"},
	{"signatureHeader.Major", "signatureHeader.Minor"},
}

// fields whose value must come from an indexed list at the file's own index
var perFile = map[string]bool{"FileHeader.isEmptyStream": true, "FileHeader.Name": true, "FileHeader.Created": true, "FileHeader.Accessed": true, "FileHeader.Modified": true, "FileHeader.Attributes": true}

func byteReaderT(t types.Type) bool {
	if t == nil {
		return false
	}
	ms := types.NewMethodSet(t)
	sel := ms.Lookup(nil, "ReadByte")
	if sel == nil {
		return false
	}
	sig := sel.Type().(*types.Signature)
	return sig.Params().Len() == 0 && sig.Results().Len() == 2
}

func readerParam(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if byteReaderT(p.Type()) {
			return true
		}
	}
	for _, p := range fn.FreeVars {
		if byteReaderT(p.Type()) || byteReaderT(derefT(p.Type())) {
			return true
		}
	}
	return false
}

func readerArg(c *ssa.CallCommon) bool {
	if c.IsInvoke() && byteReaderT(c.Value.Type()) {
		return true
	}
	for _, a := range c.Args {
		v := a
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		if ci, ok := v.(*ssa.ChangeInterface); ok {
			v = ci.X
		}
		if byteReaderT(v.Type()) {
			return true
		}
	}
	return false
}

func isByteT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func isReadByte(c *ssa.CallCommon) bool {
	n := staticName(c)
	return strings.HasSuffix(n, ".ReadByte") && c.Signature().Results().Len() == 2 && isByteT(c.Signature().Results().At(0).Type())
}

func trackedField(t types.Type, i int) string {
	n, _ := derefT(t).(*types.Named)
	st := structOf(t)
	if n == nil || st == nil || i >= st.NumFields() || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath {
		return ""
	}
	return n.Obj().Name() + "." + st.Field(i).Name()
}

func touchesTracked(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					if _, ok := idFields[trackedField(fa.X.Type(), fa.Field)]; ok {
						return true
					}
				}
			}
		}
	}
	return false
}

// grammarInline: helpers that are part of their caller's grammar position.
func grammarInline(p *Prog, fn *ssa.Function) bool {
	if !p.inModule(fn) || fn.Blocks == nil {
		return false
	}
	o := fn
	for o.Parent() != nil {
		o = o.Parent()
	}
	if o.Pkg == nil || o.Pkg.Pkg.Path() != modPath {
		return false
	}
	if fn.Parent() != nil {
		return true
	}
	res := fn.Signature.Results()
	if readerParam(fn) {
		data := 0
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			if isErrorType(t) || t.Underlying() == types.Typ[types.Bool] {
				continue
			}
			if isByteT(t) {
				return true
			}
			data++
		}
		return data == 0
	}
	if fn.Signature.Recv() != nil && fn.Signature.Recv().Type().String() == "*"+modPath+".Reader" {
		return false
	}
	if touchesTracked(fn) {
		return true
	}
	for _, q := range fn.Params {
		if isByteT(q.Type()) {
			return true
		}
	}
	return false
}

func stripConv(e *Engine, a AV) AV {
	for {
		n := e.n(a)
		if n.k == kOp && strings.HasPrefix(n.tag, "conv:") && len(n.args) == 1 {
			a = n.args[0]
			continue
		}
		return a
	}
}

func c22(c *Check) {
	p := c.P
	c.rule("in every header parser, each property ID byte read is pinned to one constant before the next ID byte is read and before success is returned; while ID K is current, data read from the header is stored only into the field the 7z format assigns to K; each assigned field has such a store; file attributes are stored at their own file's index; externally stored data is refused; skipped properties are skipped by exactly their length")
	var roots []*ssa.Function
	for _, fn := range p.funcs {
		o := fn
		for o.Parent() != nil {
			o = o.Parent()
		}
		if fn.Parent() != nil || o.Pkg == nil || o.Pkg.Pkg.Path() != modPath || fn.Synthetic != "" {
			continue
		}
		reads := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if isReadByte(ci.Common()) || readerArg(ci.Common()) {
						reads = true
					}
				}
			}
		}
		if !reads && !readerParam(fn) {
			continue
		}
		if grammarInline(p, fn) && len(p.cg().callers[fn]) > 0 {
			continue
		}
		roots = append(roots, fn)
	}
	type storeEv struct {
		field string
		k     int
	}
	stored := map[string]map[storeEv]bool{} // root -> events
	accepted := map[string]map[int]string{}
	dataStores := map[string]int{}
	called := map[string]map[int]map[string]bool{} // root -> K -> result type names of parsers called
	skipped := map[string]bool{}
	extParsers := map[*ssa.Function]string{} // parsers of things that may be stored externally
	zeroSel := map[*ssa.Function]bool{}
	for _, fn := range roots {
		fn := fn
		name := p.fname(fn)
		stored[name] = map[storeEv]bool{}
		accepted[name] = map[int]string{}
		called[name] = map[int]map[string]bool{}
		c.count("parsers analysed", 1)
		boolVec := false
		if r := fn.Signature.Results(); r.Len() > 0 {
			if s, ok := r.At(0).Type().Underlying().(*types.Slice); ok && s.Elem().Underlying() == types.Typ[types.Bool] {
				boolVec = true
			}
		}
		from := map[AV]AV{}      // value -> address it was loaded from
		owner := map[AV]string{} // allocation -> field it was stored in
		streamy := map[AV]bool{} // allocation filled from the stream
		buf := map[AV]bool{}     // allocation handed to a read call
		var derived func(e *Engine, a AV, seen map[AV]bool) bool
		derived = func(e *Engine, a AV, seen map[AV]bool) bool {
			if a == 0 || seen[a] {
				return false
			}
			seen[a] = true
			n := *e.n(a)
			if streamy[a] || buf[a] {
				return true
			}
			if n.k == kSym || n.k == kOld {
				if call, ok := n.v.(*ssa.Call); ok && readerArg(&call.Call) {
					return true
				}
				if n.v != nil && streamSSA(n.v, map[ssa.Value]bool{}) {
					return true
				}
				if f, ok := from[a]; ok && derived(e, f, seen) {
					return true
				}
			}
			for _, x := range n.args {
				if derived(e, x, seen) {
					return true
				}
			}
			return false
		}
		pend := func(st *State) (AV, bool) {
			s := st.flags["cur"]
			if s == "" {
				return 0, false
			}
			i, _ := strconv.Atoi(s)
			return AV(i), true
		}
		sel := func(st *State) int {
			if s := st.flags["sel"]; s != "" {
				i, _ := strconv.Atoi(s)
				return i
			}
			return -1
		}
		event := func(e *Engine, st *State, in ssa.Instruction, field string, val ssa.Value) {
			k := sel(st)
			stored[name][storeEv{field, k}] = true
			dataStores[field]++
			c.count("field stores judged", 1)
			if want := idFields[field]; want != k {
				c.bad(fmt.Sprintf("field:%s:%s:%d", field, name, k), "%s: %s stores header data into %s while the current property ID is %s; the format assigns it ID %#x; path: %s", p.ipos(in), name, field, idStr(k), want, st.path())
			}
		}
		h := Hooks{}
		h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool { return grammarInline(p, s.fn) }
		h.Call = func(e *Engine, st *State, s *Site) (AV, bool) {
			if _, ok := s.c.Value.(*ssa.Builtin); ok {
				return 0, false
			}
			if readerArg(s.c) && !(s.fn != nil && grammarInline(p, s.fn)) {
				if k := sel(st); k > 0 && accepted[name][k] == "" {
					accepted[name][k] = st.path()
				}
				if b, ok := pend(st); ok && !boolVec && isReadByte(s.c) {
					c.bad("unpinned:"+name+":"+p.fname(s.ctx.fn), "%s: %s reads on although the ID byte %s read before is not pinned to a known value, so an unknown property is accepted; path: %s", s.pos(e), name, e.str(b), st.path())
					delete(st.flags, "cur")
				}
			}
			return 0, false
		}
		h.After = func(e *Engine, st *State, s *Site, res AV) {
			if !readerArg(s.c) {
				return
			}
			if isReadByte(s.c) && res != 0 {
				b := e.ext(res, 0, types.Typ[types.Uint8])
				delete(st.flags, "prev")
				if k, ok := st.flags["sel"]; ok {
					st.flags["prev"] = k
					delete(st.flags, "sel")
				}
				st.flags["cur"] = strconv.Itoa(int(b))
				c.count("header bytes read", 1)
				return
			}
			for _, a := range s.args { // buffers filled by the call
				x := a
				if n := e.n(x); n.k == kIface {
					x = n.args[0]
				}
				buf[x] = true
				if n := e.n(x); n.k == kIndex {
					buf[n.args[0]] = true
					streamy[n.args[0]] = true
					if f := owner[n.args[0]]; f != "" {
						event(e, st, s.instr, f, nil)
					}
				} else if n.k == kAlloc {
					streamy[x] = true
				} else if n.k == kField {
					i, _ := strconv.Atoi(n.tag)
					if f := trackedField(n.typ, i); f != "" {
						if _, ok := idFields[f]; ok {
							event(e, st, s.instr, f, nil)
						}
					}
				}
			}
			if k := sel(st); k > 0 {
				if called[name][k] == nil {
					called[name][k] = map[string]bool{}
				}
				rs := s.c.Signature().Results()
				for i := 0; i < rs.Len(); i++ {
					if n, ok := derefT(rs.At(i).Type()).(*types.Named); ok && !isErrorType(n) {
						called[name][k][n.Obj().Name()] = true
					}
				}
				// a skip consumes the property's length
				if k == 0x19 {
					ok := false
					for _, a := range s.args {
						x := stripConv(e, a)
						if n := e.n(x); n.k == kOp && n.tag == "ext0" {
							if cl, isC := e.n(n.args[0]).v.(*ssa.Call); isC && readerArg(&cl.Call) && !isReadByte(&cl.Call) {
								ok = true
							}
						}
					}
					if ok {
						skipped[name] = true
					}
				}
			}
		}
		h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) {
			if _, ok := from[val]; !ok {
				from[val] = addr
			}
		}
		h.Store = func(e *Engine, st *State, ctx *Ctx, in *ssa.Store, addr, val AV) {
			n := *e.n(addr)
			d := derived(e, val, map[AV]bool{})
			if !d && streamSSA(in.Val, map[ssa.Value]bool{}) {
				d = true
			}
			switch n.k {
			case kIndex:
				base := n.args[0]
				if d {
					streamy[base] = true
					f := owner[base]
					if f == "" {
						if fa, ok := from[base]; ok && e.n(fa).k == kField {
							i, _ := strconv.Atoi(e.n(fa).tag)
							f = trackedField(e.n(fa).typ, i)
						}
					}
					if _, ok := idFields[f]; ok {
						event(e, st, in, f, in.Val)
					}
				}
			case kField:
				i, _ := strconv.Atoi(n.tag)
				f := trackedField(n.typ, i)
				if _, ok := idFields[f]; !ok {
					return
				}
				if e.n(val).k == kAlloc {
					owner[val] = f
				}
				if !d {
					return
				}
				event(e, st, in, f, in.Val)
				if perFile[f] {
					bn := *e.n(n.args[0])
					va, ok := from[val]
					if bn.k == kIndex && ok && e.n(va).k == kIndex {
						c.count("file indexes compared", 1)
						if e.n(va).args[1] != bn.args[1] {
							c.bad("index:"+f, "%s: %s of file %s is taken from entry %s of the list read for it; path: %s", p.ipos(in), f, e.str(bn.args[1]), e.str(e.n(va).args[1]), st.path())
						}
					}
				}
			}
		}
		h.Instr = func(e *Engine, st *State, ctx *Ctx, in ssa.Instruction) {
			b, ok := pend(st)
			if !ok {
				return
			}
			use := func(v ssa.Value) {
				if stripConv(e, e.eval(st, ctx, v)) == b {
					delete(st.flags, "cur") // a data byte
				}
			}
			switch x := in.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				default:
					if onlyCompared(x) {
						return // a comparison under a mask does not pin the byte
					}
					use(x.X)
					use(x.Y)
				}
			case *ssa.UnOp:
				if x.Op == token.XOR || x.Op == token.SUB {
					use(x.X)
				}
			case *ssa.IndexAddr:
				use(x.Index)
			case *ssa.Index:
				use(x.Index)
			}
		}
		h.Assume = func(e *Engine, st *State, cond AV, truth bool) {
			b, ok := pend(st)
			if !ok {
				return
			}
			k := -1
			n := e.n(cond)
			if n.k != kOp || len(n.args) != 2 {
				return
			}
			x, y := stripConv(e, n.args[0]), stripConv(e, n.args[1])
			num := func(a AV) int {
				if v := e.constOf(a); v != nil && v.Kind() == constant.Int {
					if i, ok := constant.Int64Val(v); ok {
						return int(i)
					}
				}
				return -1
			}
			switch {
			case n.tag == "==" && truth && x == b:
				k = num(y)
			case n.tag == "==" && truth && y == b:
				k = num(x)
			case n.tag == "<" && truth && x == b && num(y) == 1:
				k = 0
			case n.tag == "<" && !truth && y == b && num(x) == 0:
				k = 0
			}
			if k < 0 {
				return
			}
			delete(st.flags, "cur")
			if k == 0 {
				zeroSel[fn] = true
				st.flags["ext"] = "0"
				if k, ok := st.flags["prev"]; ok {
					st.flags["sel"] = k
				}
				return
			}
			st.flags["sel"] = strconv.Itoa(k)
		}
		h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
			ei := errResult(fn.Signature)
			if ei >= 0 && ei < len(vals) && e.nilness(st, vals[ei]) == 1 {
				return
			}
			c.count("successful exits judged", 1)
			if k := sel(st); k > 0 && accepted[name][k] == "" {
				accepted[name][k] = st.path()
			}
			if b, ok := pend(st); ok && !boolVec {
				// a byte returned to the caller is the caller's business
				for _, v := range vals {
					if stripConv(e, v) == b {
						return
					}
				}
				c.bad("unpinned:"+name+":exit", "%s: %s returns success although the byte %s is not pinned to a known value; path: %s", p.ipos(in), name, e.str(b), st.path())
			}
			if st.flags["ext"] == "" {
				extParsers[fn] = st.path()
			}
		}
		e := newEngine(p, h)
		e.K = 12
		e.Run(fn, nil)
	}
	// IDs accepted are consumed
	var ns []string
	for k := range accepted {
		ns = append(ns, k)
	}
	sort.Strings(ns)
	for _, name := range ns {
		for k, path := range accepted[name] {
			c.count("accepted IDs", 1)
			c.sample("%s accepts ID %#x", name, k)
			ok := false
			for ev := range stored[name] {
				if ev.k == k && idFields[ev.field] == k {
					ok = true
				}
			}
			switch k {
			case 0x19:
				ok = skipped[name]
			case 0x01:
				ok = called[name][k]["header"]
			case 0x17:
				ok = called[name][k]["streamsInfo"]
			}
			if !ok {
				c.bad(fmt.Sprintf("ignored:%s:%#x", name, k), "%s accepts property ID %#x but stores nothing from it in the field the format assigns to it (skipping is only right for the dummy property, by its length); path: %s", name, k, path)
			}
		}
	}
	// every assigned field is filled
	var fs []string
	for f := range idFields {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		d := strings.Split(f, ".")
		if !fieldExists(p, d[0], d[1]) {
			c.count("assigned fields absent", 1)
			continue
		}
		c.count("assigned fields", 1)
		if dataStores[f] == 0 {
			c.bad("unfilled:"+f, "no parser stores header data into %s (property ID %#x)", f, idFields[f])
		}
	}
	if c.counts["assigned fields absent"] > 8 {
		c.bad("coverage:fields", "%d of the fields the format assigns to property IDs were not found", c.counts["assigned fields absent"])
	}
	// externally stored data: the parsers whose results land in these fields
	// must have pinned a flag byte to zero on every successful path.
	ext := map[*ssa.Function]bool{}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				switch f := trackedField(fa.X.Type(), fa.Field); f {
				case "FileHeader.Name", "FileHeader.Created", "FileHeader.Accessed", "FileHeader.Modified", "FileHeader.Attributes":
					n := 0
					for _, src := range streamCalls(st.Val, map[ssa.Value]bool{}) {
						if src != nil && p.inModule(src) {
							ext[src] = true
							n++
						}
					}
				case "unpackInfo.folder":
					ext[fn] = true
				}
			}
		}
	}
	for fn := range ext {
		// readers that wrap the parser are inlined in their callers
		if len(fn.Params) == 0 || !readerParam(fn) {
			continue
		}
		found := false
		for _, r := range roots {
			if r == fn {
				found = true
			}
		}
		if !found {
			continue
		}
		c.count("externally storable sections", 1)
		if path, bad := extParsers[fn]; bad {
			c.bad("external:"+p.fname(fn), "%s can succeed without the external flag being known to be zero; path: %s", p.fname(fn), path)
		}
	}
	// fields read one after the other
	for _, o := range fieldOrder {
		first, second := fieldSources(p, o[0]), fieldSources(p, o[1])
		for _, a := range first {
			for _, b := range second {
				if a == b || a.Parent() != b.Parent() {
					continue
				}
				c.count("read orders judged", 1)
				if !before(a, b) {
					c.bad("order:"+o[0], "%s: %s is read after %s (%s); the format stores them in the opposite order", p.ipos(a), o[0], o[1], p.ipos(b))
				}
			}
		}
	}
	c22EmptyIndex(p, c)
	c.need("parsers analysed", 8)
	c.need("header bytes read", 15)
	c.need("field stores judged", 12)
	c.need("accepted IDs", 15)
	c.need("externally storable sections", 3)
}

func idStr(k int) string {
	if k < 0 {
		return "none"
	}
	return fmt.Sprintf("%#x", k)
}

// streamSSA: v is computed from something read from a byte reader (SSA slice).
func streamSSA(v ssa.Value, seen map[ssa.Value]bool) bool { return len(streamCalls(v, seen)) > 0 }

// streamCalls lists the reader-taking functions v is computed from (nil entries
// are library reads).
func streamCalls(v ssa.Value, seen map[ssa.Value]bool) []*ssa.Function {
	if v == nil || seen[v] {
		return nil
	}
	seen[v] = true
	var out []*ssa.Function
	add := func(x ssa.Value) { out = append(out, streamCalls(x, seen)...) }
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			add(e)
		}
	case *ssa.Extract:
		add(x.Tuple)
	case *ssa.Call:
		if readerArg(&x.Call) {
			return []*ssa.Function{x.Call.StaticCallee()}
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			for _, a := range x.Call.Args {
				add(a)
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.IndexAddr:
				add(a.X)
			case *ssa.FieldAddr:
				if _, ok := a.X.(*ssa.Alloc); ok {
					add(a.X)
				}
			case *ssa.Alloc:
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
						add(s.Val)
					}
				}
			}
			return out
		}
		add(x.X)
	case *ssa.Convert:
		add(x.X)
	case *ssa.ChangeType:
		add(x.X)
	case *ssa.Slice:
		add(x.X)
	case *ssa.BinOp:
		add(x.X)
		add(x.Y)
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			switch y := r.(type) {
			case *ssa.FieldAddr:
				for _, q := range *y.Referrers() {
					if s, ok := q.(*ssa.Store); ok && s.Addr == ssa.Value(y) {
						add(s.Val)
					}
				}
			case *ssa.IndexAddr:
				for _, q := range *y.Referrers() {
					if s, ok := q.(*ssa.Store); ok && s.Addr == ssa.Value(y) {
						add(s.Val)
					}
				}
			}
		}
	}
	return out
}

// fieldSources lists the reading calls whose results are stored into a field.
func fieldSources(p *Prog, field string) []ssa.Instruction {
	var out []ssa.Instruction
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || trackedField(fa.X.Type(), fa.Field) != field {
					continue
				}
				v := s.Val
				for {
					if e, ok := v.(*ssa.Extract); ok {
						v = e.Tuple
						continue
					}
					break
				}
				if cl, ok := v.(*ssa.Call); ok && readerArg(&cl.Call) {
					out = append(out, cl)
				}
			}
		}
	}
	return out
}

// before: a dominates b.
func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return instrIndex(a) < instrIndex(b)
	}
	return a.Block().Dominates(b.Block())
}

func onlyCompared(v ssa.Value) bool {
	rs := v.Referrers()
	if rs == nil || len(*rs) == 0 {
		return false
	}
	for _, r := range *rs {
		b, ok := r.(*ssa.BinOp)
		if _, dbg := r.(*ssa.DebugRef); dbg {
			continue
		}
		if !ok {
			return false
		}
		switch b.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		default:
			return false
		}
	}
	return true
}
