package main

// C16: the method table. The package initialisers are evaluated by constant
// propagation; the function that instantiates a coder is then evaluated on
// synthetic coders whose method ID is each documented ID, near misses of it
// and IDs registered by a user, and the constructor it selects is identified.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C16"] = c16 }

type methodSpec struct {
	id   string
	name string
	pkg  string // internal package whose code must be selected ("" = none)
	conv string // converter type, for the branch filters
}

var methodTable = []methodSpec{
	{"\x00", "Copy", "", ""},
	{"\x03", "Delta", "delta", ""},
	{"\x0a", "ARM64", "bra", "arm64"},
	{"\x21", "LZMA2", "lzma2", ""},
	{"\x03\x01\x01", "LZMA", "lzma", ""},
	{"\x03\x03\x01\x03", "BCJ", "bra", "bcj"},
	{"\x03\x03\x01\x1b", "BCJ2", "bcj2", ""},
	{"\x03\x03\x02\x05", "PPC", "bra", "ppc"},
	{"\x03\x03\x05\x01", "ARM", "bra", "arm"},
	{"\x03\x03\x08\x05", "SPARC", "bra", "sparc"},
	{"\x03\x04\x01", "PPMD", "ppmd", ""},
	{"\x04\x01\x08", "Deflate", "deflate", ""},
	{"\x04\x02\x02", "Bzip2", "bzip2", ""},
	{"\x04\xf7\x11\x01", "Zstandard", "zstd", ""},
	{"\x04\xf7\x11\x02", "Brotli", "brotli", ""},
	{"\x04\xf7\x11\x04", "LZ4", "lz4", ""},
	{"\x06\xf1\x07\x01", "AES-256", "aes7z", ""},
}

var decoderPkgs = []string{"aes7z", "bcj2", "bra", "brotli", "bzip2", "deflate", "delta", "lz4", "lzma", "lzma2", "ppmd", "zstd"}

// staticReach: functions reached by static calls and function values only.
func (p *Prog) staticReach(fn *ssa.Function) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	w := []*ssa.Function{fn}
	for len(w) > 0 {
		f := w[len(w)-1]
		w = w[:len(w)-1]
		if f == nil || m[f] {
			continue
		}
		m[f] = true
		if !p.inModule(f) && f.Synthetic == "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch x := (*op).(type) {
					case *ssa.Function:
						w = append(w, x)
					case *ssa.MakeClosure:
						w = append(w, x.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	return m
}

// identify names the decoder a constructor belongs to.
func (p *Prog) identify(v aFn) (pkgs, convs []string) {
	sp, sc := map[string]bool{}, map[string]bool{}
	reach := p.staticReach(v.fn)
	for _, b := range v.bind {
		if bf, ok := b.(aFn); ok {
			for f := range p.staticReach(bf.fn) {
				reach[f] = true
			}
		}
	}
	for f := range reach {
		o := f
		for o.Parent() != nil {
			o = o.Parent()
		}
		if o.Pkg != nil {
			for _, d := range decoderPkgs {
				if o.Pkg.Pkg.Path() == modPath+"/internal/"+d {
					sp[d] = true
				}
			}
		}
		if !p.inModule(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mi, ok := in.(*ssa.MakeInterface)
				if !ok {
					continue
				}
				n, _ := derefT(mi.X.Type()).(*types.Named)
				if n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/internal/bra" && types.NewMethodSet(mi.X.Type()).Lookup(n.Obj().Pkg(), "Convert") != nil {
					sc[strings.ToLower(n.Obj().Name())] = true
				}
			}
		}
	}
	for k := range sp {
		pkgs = append(pkgs, k)
	}
	for k := range sc {
		convs = append(convs, k)
	}
	sort.Strings(pkgs)
	sort.Strings(convs)
	return
}

// is reports whether the constructor v implements method m.
func (p *Prog) implements(v aFn, m methodSpec) (bool, string) {
	pkgs, convs := p.identify(v)
	got := fmt.Sprintf("%s (decoder packages %v, converters %v)", p.fname(v.fn), pkgs, convs)
	if m.pkg == "" {
		return len(pkgs) == 0, got
	}
	if len(pkgs) != 1 || pkgs[0] != m.pkg {
		return false, got
	}
	if m.conv == "" {
		return true, got
	}
	if len(convs) != 1 {
		return false, got
	}
	return convTok(convs[0]) == m.conv, got
}

func convTok(n string) string {
	for _, t := range []string{"arm64", "arm", "ppc", "powerpc", "sparc", "bcj", "x86"} {
		if strings.Contains(n, t) {
			switch t {
			case "powerpc":
				return "ppc"
			case "x86":
				return "bcj"
			}
			return t
		}
	}
	return n
}

func byteSlice(s string) aSlice {
	r := &aArr{}
	for i := 0; i < len(s); i++ {
		r.e = append(r.e, &aCell{intBits(int64(s[i]), 8, false)})
	}
	return aSlice{r, 0, len(s), len(s)}
}

func bytesOf(v aval) (string, bool) {
	s, ok := v.(aSlice)
	if !ok {
		return "", false
	}
	var b []byte
	for i := s.lo; i < s.hi; i++ {
		x, ok := s.arr.e[i].v.(aBits)
		if !ok {
			return "", false
		}
		n, ok := x.known()
		if !ok {
			return "", false
		}
		b = append(b, byte(n))
	}
	return string(b), true
}

// synth builds an argument of type t in which slices have two elements, every
// integer is 1, and every byte slice and integer slice element carries a marker
// naming the field it sits in; idField receives the method IDs.
type synth struct {
	p       *Prog
	a       *absint
	idField string
	ids     [2]string
	byField map[string]bool // []byte fields seen
	marks   map[string]string
	nums    map[int64]string
	next    int64
}

func (s *synth) val(t types.Type, path string, e, d int) aval {
	if d > 6 {
		return s.a.zero(t)
	}
	if isByteSlice(t) {
		s.byField[path] = true
		if path == s.idField {
			return byteSlice(s.ids[e])
		}
		m := fmt.Sprintf("#%s/%d", path, e)
		s.marks[m] = path
		return byteSlice(m)
	}
	switch x := t.Underlying().(type) {
	case *types.Pointer:
		return &aCell{s.val(x.Elem(), path, e, d+1)}
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && !s.p.isModPkg(n.Obj().Pkg()) {
			return s.a.zero(t)
		}
		r := &aStruct{t: t}
		for i := 0; i < x.NumFields(); i++ {
			fp := x.Field(i).Name()
			if n, ok := t.(*types.Named); ok {
				fp = n.Obj().Name() + "." + fp
			}
			r.f = append(r.f, &aCell{s.val(x.Field(i).Type(), fp, e, d+1)})
		}
		return r
	case *types.Slice:
		if x.Elem().Underlying() == types.Typ[types.String] {
			return s.a.zero(t)
		}
		r := &aArr{}
		for i := 0; i < 2; i++ {
			if w, sg, ok := width(x.Elem()); ok && w == 64 {
				s.next++
				s.nums[s.next] = fmt.Sprintf("%s/%d", path, i)
				r.e = append(r.e, &aCell{intBits(s.next, w, sg)})
				continue
			}
			r.e = append(r.e, &aCell{s.val(x.Elem(), path, i, d+1)})
		}
		return aSlice{r, 0, 2, 2}
	case *types.Basic:
		if w, sg, ok := width(t); ok {
			return intBits(1, w, sg)
		}
		return s.a.zero(t)
	case *types.Interface:
		return aExt{"argument"}
	}
	return s.a.zero(t)
}

type selRes struct {
	fv    aval
	props string
	size  string
	stop  string
	ret   aval
	hit   bool
}

func c16(c *Check) {
	p := c.P
	g := p.cg()
	c.rule("the package initialisers, evaluated by constant propagation, associate every documented method ID with the constructor of its decoder; instantiating a coder selects by the complete method ID, passes that same coder's properties and unpacked size, refuses an ID nobody registered with an error, and takes up constructors registered by the user")
	c.assume("sync.Map stores and loads by key equality; a converter type of package bra implements the architecture its name says")
	root := p.pkgs[modPath]
	ini := root.Func("init")
	dec := p.named(modPath, "Decompressor")
	reg := root.Func("RegisterDecompressor")
	if ini == nil || dec == nil || reg == nil {
		c.bad("anchor", "package initialiser, Decompressor or RegisterDecompressor not found")
		return
	}
	dk := sigKey(dec.Underlying().(*types.Signature))
	isDyn := func(cc *ssa.CallCommon) bool {
		if cc.IsInvoke() || cc.StaticCallee() != nil {
			return false
		}
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return false
		}
		return sigKey(cc.Signature()) == dk
	}
	var cand []*ssa.Function
	for _, f := range p.funcs {
		if g.inits[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && isDyn(ci.Common()) {
					cand = append(cand, f)
					c.count("constructor call sites", 1)
					c.sample("constructor called at %s in %s", p.ipos(in), p.fname(f))
				}
			}
		}
	}
	c.need("constructor call sites", 1)
	boot := func() *absint {
		a := newAbsint(p)
		a.inited[ini] = true
		a.call(ini, nil, nil, 0)
		return a
	}
	var a *absint
	registered := map[string]bool{}
	fail := ""
	func() {
		defer func() {
			if x := recover(); x != nil {
				s, ok := x.(aStop)
				if !ok {
					panic(x)
				}
				fail = s.why
			}
		}()
		a = newAbsint(p)
		a.inited[ini] = true
		a.callHk = func(fn *ssa.Function, args []aval) {
			if fn == reg {
				if s, ok := bytesOf(args[0]); ok {
					registered[s] = true
				}
			}
		}
		a.call(ini, nil, nil, 0)
		a.callHk = nil
	}()
	if fail != "" {
		c.bad("init", "package initialisation does not evaluate: %s", fail)
		return
	}
	c.count("registered IDs", len(registered))

	run := func(a *absint, f *ssa.Function, idField string, id string) (out []selRes, s *synth) {
		other := "\x00"
		if id == other {
			other = "\x21"
		}
		var cur selRes
		a.dynHk = func(cc *ssa.CallCommon, fv aval, args []aval) {
			if sigKey(cc.Signature()) != dk {
				return
			}
			cur.hit, cur.fv = true, fv
			cur.props, cur.size = "?", "?"
			if b, ok := bytesOf(args[0]); ok {
				cur.props = b
			}
			if n, ok := a.intOf(args[1]); ok {
				cur.size = s.nums[n]
			}
			panic(aStop{"selected"})
		}
		a.explore(func() aval {
			cur = selRes{}
			s = &synth{p: p, a: a, idField: idField, ids: [2]string{other, id}, byField: map[string]bool{}, marks: map[string]string{}, nums: map[int64]string{}, next: 1000}
			var args []aval
			for i, pr := range f.Params {
				args = append(args, s.val(pr.Type(), fmt.Sprintf("param %d", i), 1, 0))
			}
			return a.call(f, args, nil, 0)
		}, func(r aval, stop string) {
			cur.ret, cur.stop = r, stop
			out = append(out, cur)
		})
		a.dynHk = nil
		return
	}
	// find the root and the field that carries the method ID
	probe := methodTable[4] // LZMA
	var sel *ssa.Function
	idField := ""
	tried := map[*ssa.Function]bool{}
	queue := append([]*ssa.Function{}, cand...)
	for len(queue) > 0 && sel == nil {
		f := queue[0]
		queue = queue[1:]
		if tried[f] {
			continue
		}
		tried[f] = true
		_, s := run(a, f, "", probe.id)
		var fs []string
		for k := range s.byField {
			fs = append(fs, k)
		}
		sort.Strings(fs)
		for _, k := range fs {
			rs, _ := run(a, f, k, probe.id)
			for _, r := range rs {
				if fv, ok := r.fv.(aFn); ok && r.hit {
					if ok, _ := p.implements(fv, probe); ok || idField == "" {
						sel, idField = f, k
					}
				}
			}
		}
		if sel == nil {
			for _, cs := range g.callers[f] {
				queue = append(queue, cs.caller)
			}
		}
	}
	if sel == nil {
		c.bad("select", "no function selects a constructor for the LZMA method ID when evaluated on a coder with that ID (tried %d functions from the constructor call up)", len(tried))
		return
	}
	c.sample("selection evaluated in %s, method ID taken from %s", p.fname(sel), idField)
	sizes := map[string]bool{}
	propsF := map[string]bool{}
	for _, m := range methodTable {
		rs, s := run(a, sel, idField, m.id)
		hit := false
		c.count("documented IDs evaluated", 1)
		for _, r := range rs {
			if !r.hit {
				continue
			}
			hit = true
			fv, ok := r.fv.(aFn)
			if !ok {
				c.bad("unknown:"+m.name, "%s: the constructor selected for %s (% x) is not determined by the method table: %T", p.fname(sel), m.name, m.id, r.fv)
				continue
			}
			ok, got := p.implements(fv, m)
			if !ok {
				c.bad("wrong:"+m.name, "method %s (ID % x) selects %s in %s", m.name, m.id, got, p.fname(sel))
			}
			c.sample("% x %s -> %s", m.id, m.name, got)
			pf, known := s.marks[r.props]
			if !known || !strings.HasSuffix(r.props, "/1") {
				c.bad("properties:"+p.fname(sel), "%s passes the constructor other properties than those of the coder being instantiated (for %s)", p.fname(sel), m.name)
			} else {
				propsF[pf] = true
			}
			if !strings.HasSuffix(r.size, "/1") {
				c.bad("size:"+p.fname(sel), "%s passes the constructor a size that is not the one recorded for the coder being instantiated (for %s)", p.fname(sel), m.name)
			} else {
				sizes[strings.TrimSuffix(r.size, "/1")] = true
			}
		}
		if !hit {
			c.bad("missing:"+m.name, "method %s (ID % x) is not available: evaluating %s on a coder with that ID never calls a constructor", m.name, m.id, p.fname(sel))
		}
	}
	if len(sizes) > 1 || len(propsF) > 1 {
		c.bad("mixed:"+p.fname(sel), "size or properties come from different fields for different methods: %v %v", sizes, propsF)
	}
	for k := range sizes {
		if k != "folder.size" && fieldExists(p, "folder", "size") {
			c.bad("size:"+p.fname(sel), "%s passes %s as the unpacked size", p.fname(sel), k)
		}
	}
	// refusal of everything else
	doc := map[string]bool{}
	for _, m := range methodTable {
		doc[m.id] = true
	}
	near := map[string]bool{"": true, "\xff": true, "\x7f\x7f\x7f": true}
	for _, m := range methodTable {
		near[m.id+"\x00"] = true
		near["\x00"+m.id] = true
		near[m.id[:len(m.id)-1]] = true
		near[m.id[1:]] = true
		near[m.id[:len(m.id)-1]+string([]byte{m.id[len(m.id)-1] ^ 0x40})] = true
		near[string([]byte{m.id[0] ^ 0x80})+m.id[1:]] = true
		near[m.id+m.id] = true
		r := []byte(m.id)
		for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
		near[string(r)] = true
		for i := 1; i < len(m.id); i++ {
			near[m.id[:i]] = true
		}
	}
	var ns []string
	for k := range near {
		if !doc[k] && !registered[k] {
			ns = append(ns, k)
		}
	}
	sort.Strings(ns)
	for _, id := range ns {
		rs, _ := run(a, sel, idField, id)
		c.count("unregistered IDs evaluated", 1)
		for _, r := range rs {
			switch {
			case r.hit:
				if nl, known := isNilVal(r.fv); known && nl {
					c.bad("nilcall", "%s calls a nil constructor for the unregistered method ID % x", p.fname(sel), id)
				} else if fv, ok := r.fv.(aFn); ok {
					c.bad("accepts", "%s accepts the unregistered method ID % x and selects %s", p.fname(sel), id, p.fname(fv.fn))
				} else {
					c.bad("accepts", "%s may call a constructor for the unregistered method ID % x", p.fname(sel), id)
				}
			case r.stop != "":
				c.bad("stop:"+r.stop, "%s on the unregistered method ID % x: %s", p.fname(sel), id, r.stop)
			default:
				if !errRet(sel.Signature, r.ret) {
					c.bad("silent:"+p.fname(sel), "%s does not return a (certainly non-nil) error for the unregistered method ID % x", p.fname(sel), id)
				}
			}
		}
	}
	// user registrations
	mark := aFn{fn: ini}
	for _, id := range []string{"\x7f\x01", "\x21", "\x04\xf7\x11\x04"} {
		b := boot()
		key := byteSlice(id)
		stop := ""
		func() {
			defer func() {
				if x := recover(); x != nil {
					s, ok := x.(aStop)
					if !ok {
						panic(x)
					}
					stop = s.why
				}
			}()
			b.call(reg, []aval{key, mark}, nil, 0)
		}()
		if stop != "" {
			c.bad("register", "registering a decompressor for % x: %s", id, stop)
			continue
		}
		for _, e := range key.arr.e { // the caller may reuse its slice
			e.v = intBits(0x55, 8, false)
		}
		c.count("user registrations evaluated", 1)
		rs, _ := run(b, sel, idField, id)
		ok := false
		for _, r := range rs {
			if fv, is := r.fv.(aFn); r.hit && is && fv.fn == ini {
				ok = true
			} else if r.hit {
				c.bad("override", "after registering a custom decompressor for % x, %s does not select it", id, p.fname(sel))
			}
		}
		if !ok {
			c.bad("override", "after registering a custom decompressor for % x, %s does not select it", id, p.fname(sel))
		}
		for _, m := range methodTable {
			if m.id == id {
				continue
			}
			rs, _ := run(b, sel, idField, m.id)
			for _, r := range rs {
				if fv, is := r.fv.(aFn); !r.hit || !is || fv.fn == ini {
					c.bad("disturb", "registering a custom decompressor for % x changes what %s selects for %s", id, p.fname(sel), m.name)
				}
			}
		}
	}
	// Copy hands on its input
	rs, _ := run(a, sel, idField, "\x00")
	for _, r := range rs {
		fv, ok := r.fv.(aFn)
		if !r.hit || !ok {
			continue
		}
		in := aExt{"the input"}
		a.explore(func() aval {
			return a.call(fv.fn, []aval{byteSlice(""), intBits(1, 64, false), aSlice{&aArr{[]*aCell{{in}}}, 0, 1, 1}}, fv.bind, 0)
		}, func(r aval, stop string) {
			t, ok := r.(aTuple)
			if !ok || len(t) != 2 || t[0] != aval(in) {
				c.bad("copy", "the Copy method's constructor %s does not return its single input unchanged", p.fname(fv.fn))
			}
		})
	}
	c.need("registered IDs", 1)
}

func fieldExists(p *Prog, typ, field string) bool {
	n := p.named(modPath, typ)
	if n == nil {
		return false
	}
	st := structOf(n)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return true
		}
	}
	return false
}

// errRet: some result of r is an error known not to be nil.
func errRet(sig *types.Signature, r aval) bool {
	t, ok := r.(aTuple)
	if !ok {
		t = aTuple{r}
	}
	for i, v := range t {
		if i >= sig.Results().Len() || !isErrorType(sig.Results().At(i).Type()) {
			continue
		}
		switch x := v.(type) {
		case aExt:
			return true
		case aIface:
			if types.Implements(x.t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
				return true
			}
		}
	}
	return false
}
