package main

// C19: passwords and derived keys stay inside. Forward information-flow
// analysis (flow-insensitive, interprocedural, field-based).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C19"] = c19 }

type secretFlow struct {
	p       *Prog
	g       *CG
	val     map[ssa.Value]string // secret values and objects holding secrets
	fields  map[string]string
	changed bool
}

// carries: can a value of this type hold a secret?
func carries(t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Info()&types.IsString != 0 || x.Kind() == types.Uint8 || x.Kind() == types.Int32 || x.Kind() == types.UnsafePointer || x.Kind() == types.Uint16
	case *types.Tuple:
		return false
	case *types.Signature:
		return false
	}
	return true
}

func (s *secretFlow) mark(v ssa.Value, why string) {
	if v == nil || why == "" || s.val[v] != "" {
		return
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return
	}
	if !carries(v.Type()) {
		return
	}
	s.val[v] = why
	s.changed = true
	// the object v refers to now holds a secret: so do the names it has elsewhere
}

func (s *secretFlow) markField(k, why string) {
	if why == "" || s.fields[k] != "" {
		return
	}
	s.fields[k] = why
	s.changed = true
}

// object marks the object v denotes as holding a secret (after a write to it).
func (s *secretFlow) object(v ssa.Value, why string, d int) {
	if v == nil || d > 12 || why == "" {
		return
	}
	if s.val[v] != "" && d > 0 {
		return
	}
	switch v.Type().Underlying().(type) {
	case *types.Basic, *types.Struct:
		return // a copy
	}
	if gl, ok := v.(*ssa.Global); ok && !s.p.isModPkg(gl.Pkg.Pkg) {
		return
	}
	if mi, ok := v.(*ssa.MakeInterface); ok {
		switch mi.X.Type().Underlying().(type) {
		case *types.Basic, *types.Struct:
			return
		}
	}
	s.mark(v, why)
	switch x := v.(type) {
	case *ssa.MakeInterface:
		s.object(x.X, why, d+1)
	case *ssa.ChangeInterface:
		s.object(x.X, why, d+1)
	case *ssa.ChangeType:
		s.object(x.X, why, d+1)
	case *ssa.Slice:
		s.object(x.X, why, d+1)
	case *ssa.TypeAssert:
		s.object(x.X, why, d+1)
	case *ssa.IndexAddr:
		s.object(x.X, why, d+1)
	case *ssa.FieldAddr:
		s.markField(fieldKey(x.X.Type(), x.Field), why)
	case *ssa.Phi:
		for _, e := range x.Edges {
			s.object(e, why, d+1)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			s.wrapped(c, why, d+1)
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
			s.object(ta.X, why, d+1)
		}
	case *ssa.Call:
		s.wrapped(x, why, d+1)
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			s.markField(fieldKey(a.X.Type(), a.Field), why)
		case *ssa.Alloc, *ssa.FreeVar:
			s.mark(x.X, why)
		case *ssa.Global:
			if s.p.isModPkg(a.Pkg.Pkg) {
				s.mark(x.X, why)
			}
		}
	case *ssa.Parameter:
		i := paramIndex(x)
		for _, cs := range s.g.callers[x.Parent()] {
			if a := cs.in.Common().Args; i < len(a) {
				s.object(a[i], why, d+1)
			}
		}
	}
}

// wrapped: writing to a wrapper made by a library call reaches what it wraps.
func (s *secretFlow) wrapped(c *ssa.Call, why string, d int) {
	if len(s.g.callees(c)) > 0 {
		return
	}
	if _, ok := c.Call.Value.(*ssa.Builtin); ok {
		return
	}
	for _, a := range c.Call.Args {
		switch a.Type().Underlying().(type) {
		case *types.Pointer, *types.Interface:
			s.object(a, why, d)
		}
	}
}

func (s *secretFlow) instr(in ssa.Instruction) {
	w := func(v ssa.Value) string { return s.val[v] }
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op.String() == "*" {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				s.mark(x, s.fields[fieldKey(fa.X.Type(), fa.Field)])
				// a value copied out of an object known to be all secret
				return
			}
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				s.mark(x, w(ia.X))
				return
			}
			s.mark(x, w(x.X))
			return
		}
		s.mark(x, w(x.X))
	case *ssa.Field:
		s.mark(x, s.fields[fieldKey(x.X.Type(), x.Field)])
	case *ssa.FieldAddr:
		s.mark(x, s.fields[fieldKey(x.X.Type(), x.Field)])
	case *ssa.IndexAddr:
		s.mark(x, w(x.X))
	case *ssa.Index:
		s.mark(x, w(x.X))
	case *ssa.Lookup:
		s.mark(x, w(x.X))
	case *ssa.Slice:
		s.mark(x, w(x.X))
	case *ssa.Phi:
		for _, e := range x.Edges {
			s.mark(x, w(e))
		}
	case *ssa.ChangeType:
		s.mark(x, w(x.X))
	case *ssa.ChangeInterface:
		s.mark(x, w(x.X))
	case *ssa.MakeInterface:
		s.mark(x, w(x.X))
	case *ssa.Convert:
		s.mark(x, w(x.X))
	case *ssa.MultiConvert:
		s.mark(x, w(x.X))
	case *ssa.SliceToArrayPointer:
		s.mark(x, w(x.X))
	case *ssa.TypeAssert:
		s.mark(x, w(x.X))
	case *ssa.Range:
		if w(x.X) != "" && s.val[x] == "" {
			s.val[x] = w(x.X)
			s.changed = true
		}
	case *ssa.Next:
		if w(x.Iter) != "" && s.val[x] == "" {
			s.val[x] = w(x.Iter)
			s.changed = true
		}
	case *ssa.BinOp:
		switch x.Op.String() {
		case "+", "^", "|", "&", "-":
			s.mark(x, w(x.X))
			s.mark(x, w(x.Y))
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			s.result(x, t, x.Index)
		case *ssa.TypeAssert:
			s.mark(x, w(t.X))
		case *ssa.Lookup:
			s.mark(x, w(t.X))
		case *ssa.Next:
			if x.Index > 0 {
				s.mark(x, w(t.Iter))
			}
		}
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			s.mark(f.FreeVars[i], w(b))
			s.mark(b, w(f.FreeVars[i]))
		}
	case *ssa.Store:
		why := w(x.Val)
		if why == "" {
			return
		}
		switch a := x.Addr.(type) {
		case *ssa.FieldAddr:
			s.markField(fieldKey(a.X.Type(), a.Field), why)
		case *ssa.IndexAddr:
			s.object(a.X, why, 0)
		default:
			s.mark(x.Addr, why)
			s.object(x.Addr, why, 0)
		}
	case *ssa.MapUpdate:
		if why := w(x.Value) + w(x.Key); why != "" {
			s.object(x.Map, why, 0)
		}
	case *ssa.Call:
		s.call(x)
		s.result(x, x, -1)
	case *ssa.Defer:
		s.call(x)
	case *ssa.Go:
		s.call(x)
	}
}

func (s *secretFlow) call(ci ssa.CallInstruction) {
	c := ci.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() == "copy" || b.Name() == "append" {
			if len(c.Args) > 1 && s.val[c.Args[1]] != "" {
				if b.Name() == "copy" {
					s.object(c.Args[0], s.val[c.Args[1]], 0)
				}
			}
		}
		return
	}
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, args...)
	}
	cs := s.g.callees(ci)
	for _, f := range cs {
		for i, a := range args {
			if i < len(f.Params) {
				if i == 0 && f.Signature.Recv() != nil {
					continue // objects are tracked by their fields
				}
				s.mark(f.Params[i], s.val[a])
			}
		}
	}
	if len(cs) > 0 {
		return
	}
	n := staticName(c)
	if cryptoSink(n) || cacheOp(n) != 0 {
		if cacheOp(n) != 0 {
			for _, a := range args[1:] {
				if s.val[a] != "" {
					s.object(args[0], s.val[a], 0)
				}
			}
		}
		return
	}
	// a library call that gets a secret may store it in the objects it gets
	why := ""
	for _, a := range args {
		if s.val[a] != "" {
			why = s.val[a]
		}
	}
	if why == "" {
		return
	}
	for i, a := range args {
		if s.val[a] != "" {
			continue
		}
		switch a.Type().Underlying().(type) {
		case *types.Pointer, *types.Interface:
			if i == 0 || writerArg(n) {
				s.object(a, why, 0)
			}
		case *types.Slice:
			if !isByteSlice(a.Type()) {
				continue
			}
			s.object(a, why, 0)
		}
	}
}

func writerArg(n string) bool {
	return strings.HasPrefix(n, "encoding/") || strings.HasPrefix(n, "io.") || strings.HasPrefix(n, "fmt.Fprint")
}

// cryptoSink: calls that legitimately consume the key; what they return is not
// a secret any more.
func cryptoSink(n string) bool {
	return strings.HasPrefix(n, "crypto/aes.") || strings.HasPrefix(n, "crypto/cipher.") || strings.HasPrefix(n, "(crypto/cipher.") || strings.HasPrefix(n, "crypto/subtle.")
}

func (s *secretFlow) result(dst ssa.Value, c *ssa.Call, idx int) {
	cc := &c.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" || b.Name() == "min" || b.Name() == "max" {
			for _, a := range cc.Args {
				s.mark(dst, s.val[a])
			}
		}
		return
	}
	cs := s.g.callees(c)
	for _, f := range cs {
		for _, b := range f.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			i := idx
			if i < 0 {
				if len(r.Results) != 1 {
					continue
				}
				i = 0
			}
			if i < len(r.Results) {
				s.mark(dst, s.val[r.Results[i]])
			}
		}
	}
	if len(cs) > 0 {
		return
	}
	n := staticName(cc)
	if cryptoSink(n) {
		return
	}
	t := dst.Type()
	if _, ok := t.(*types.Tuple); ok {
		return
	}
	if isErrorType(t) {
		switch {
		case strings.HasPrefix(n, "strconv."), strings.HasPrefix(n, "net/url."), n == "time.Parse", n == "fmt.Errorf", n == "errors.New":
		default:
			return // library errors do not quote their input
		}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
		return
	}
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	for _, a := range args {
		s.mark(dst, s.val[a])
	}
}

// sources finds the values passed to Password methods, traced back to where
// they enter.
func (s *secretFlow) sources(c *Check) {
	var w []ssa.Value
	seen := map[ssa.Value]bool{}
	add := func(v ssa.Value) {
		if v != nil && !seen[v] {
			seen[v] = true
			w = append(w, v)
		}
	}
	isPw := func(sig *types.Signature, name string) bool {
		if name != "Password" || sig.Params().Len() != 1 {
			return false
		}
		b, ok := sig.Params().At(0).Type().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	for _, fn := range s.p.funcs {
		if fn.Signature.Recv() != nil && isPw(fn.Signature, fn.Name()) {
			add(fn.Params[1])
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if cc.IsInvoke() && isPw(cc.Method.Type().(*types.Signature), cc.Method.Name()) {
						add(cc.Args[0])
						c.count("places a password is set", 1)
					} else if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil && isPw(f.Signature, f.Name()) {
						add(cc.Args[1])
						c.count("places a password is set", 1)
					}
				}
			}
		}
	}
	fields := map[string]bool{}
	for len(w) > 0 {
		v := w[len(w)-1]
		w = w[:len(w)-1]
		if _, ok := v.(*ssa.Const); ok {
			continue
		}
		s.mark(v, "the password "+v.Name())
		switch x := v.(type) {
		case *ssa.Parameter:
			i := paramIndex(x)
			for _, cs := range s.g.callers[x.Parent()] {
				if a := cs.in.Common().Args; i < len(a) {
					add(a[i])
				}
			}
			c.count("password parameters", 1)
			c.sample("password parameter %s of %s", x.Name(), s.p.fname(x.Parent()))
		case *ssa.Phi:
			for _, e := range x.Edges {
				add(e)
			}
		case *ssa.ChangeType:
			add(x.X)
		case *ssa.Convert:
			add(x.X)
		case *ssa.UnOp:
			var cell ssa.Value
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				k := fieldKey(a.X.Type(), a.Field)
				if fields[k] {
					continue
				}
				fields[k] = true
				s.markField(k, "field "+short(k))
				c.sample("password field %s", short(k))
				for _, fn := range s.p.funcs {
					for _, b := range fn.Blocks {
						for _, in := range b.Instrs {
							if st, ok := in.(*ssa.Store); ok {
								if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldKey(fa.X.Type(), fa.Field) == k {
									add(st.Val)
								}
							}
						}
					}
				}
			case *ssa.Alloc:
				cell = a
			case *ssa.FreeVar:
				// the captured variable in the enclosing function
				f := a.Parent()
				for i, fv := range f.FreeVars {
					if fv != a || f.Parent() == nil {
						continue
					}
					for _, b := range f.Parent().Blocks {
						for _, in := range b.Instrs {
							if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
								cell = mc.Bindings[i]
							}
						}
					}
				}
			}
			if cell != nil && cell.Referrers() != nil {
				for _, r := range *cell.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == cell {
						add(st.Val)
					}
				}
			}
		case *ssa.Field:
			s.markField(fieldKey(x.X.Type(), x.Field), "field "+x.String())
		}
	}
}

// holds: does formatting a value of type t show a secret field?
func (s *secretFlow) holds(t types.Type, d int) string {
	if d > 6 {
		return ""
	}
	if d > 0 {
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return "" // printed as an address
		}
	}
	for _, ty := range []types.Type{t, types.NewPointer(derefT(t))} {
		ms := types.NewMethodSet(ty)
		for _, m := range []string{"Error", "String"} {
			if ms.Lookup(nil, m) != nil && (ty == t) {
				return "" // formatted by its own method, judged there
			}
		}
	}
	switch x := derefT(t).Underlying().(type) {
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			k := fieldKey(derefT(t), i)
			if s.fields[k] != "" {
				return short(k)
			}
			if h := s.holds(x.Field(i).Type(), d+1); h != "" {
				return h
			}
		}
	case *types.Slice:
		return s.holds(x.Elem(), d+1)
	case *types.Array:
		return s.holds(x.Elem(), d+1)
	case *types.Map:
		if h := s.holds(x.Key(), d+1); h != "" {
			return h
		}
		return s.holds(x.Elem(), d+1)
	}
	return ""
}

// secretConsumer: library calls that may see a secret.
func secretConsumer(n string) bool {
	if n == "" {
		return true // dynamic call of a function value: its module targets are followed
	}
	if strings.HasPrefix(n, "fmt.Sprint") || strings.HasPrefix(n, "fmt.Append") {
		return true // the result is followed
	}
	for _, pre := range []string{"crypto/", "(crypto/", "(*crypto/", "hash.", "(hash.", "(*hash", "hash/", "bytes.", "(*bytes.", "strings.", "(*strings.", "encoding/", "(encoding/", "(*encoding/", "unicode", "(unicode", "golang.org/x/text/", "(golang.org/x/text/", "(*golang.org/x/text/",
		"(*github.com/hashicorp/golang-lru", "github.com/hashicorp/golang-lru", "strconv.", "slices.", "maps.", "sort.", "unsafe.", "(*sync.", "sync.", "runtime.KeepAlive", "io.Copy", "io.ReadAll", "io.WriteString", "io.MultiWriter", "io.TeeReader", "io.MultiReader", "cmp.", "golang.org/x/crypto/", "(*bufio.", "bufio.", "io.ReadFull", "unique.", "(*golang.org/x/crypto", "math/", "(*math/"} {
		if strings.HasPrefix(n, pre) {
			return true
		}
	}
	return false
}

func c19(c *Check) {
	p := c.P
	s := &secretFlow{p: p, g: p.cg(), val: map[ssa.Value]string{}, fields: map[string]string{}}
	c.rule("secrets are every value passed to a Password method, traced back to the parameters and fields it comes from, and everything computed from them (conversions, concatenation, formatting, buffers and hashes they are written to, hash sums, containers, struct fields, module call results); no secret or object that prints one is an argument of fmt.Errorf, errors.New, print or log functions, os or file system calls, panic, or any library call outside the crypto, encoding, text and cache packages; none is written to a writer that is not a local buffer or hash, stored in an exported field or variable, or returned by an exported function of the root package or by an Error, String, Format or Marshal method")
	s.sources(c)
	for i := 0; i < 200; i++ {
		s.changed = false
		for _, fn := range p.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					s.instr(in)
				}
			}
		}
		if !s.changed {
			break
		}
	}
	c.count("values that hold secrets", len(s.val))
	c.count("fields that hold secrets", len(s.fields))
	for k := range s.fields {
		c.sample("secret field %s", short(k))
	}
	textMethods := map[string]bool{"Error": true, "String": true, "GoString": true, "MarshalText": true, "MarshalJSON": true, "MarshalBinary": true, "LogValue": true}
	for k, why := range s.fields {
		i := strings.LastIndexByte(k, '.')
		f := k[i+1:]
		t := k[:i]
		tn := t[strings.LastIndexByte(t, '.')+1:]
		if strings.HasPrefix(t, modPath+".") && f != "" && f[0] >= 'A' && f[0] <= 'Z' && tn != "" && tn[0] >= 'A' && tn[0] <= 'Z' {
			c.bad("field:"+short(k), "%s is an exported field and holds %s", short(k), why)
		}
	}
	for _, fn := range p.funcs {
		exported := false
		if o := fn.Object(); o != nil && o.Exported() && fn.Pkg != nil && fn.Pkg.Pkg.Path() == modPath {
			exported = true
		}
		text := fn.Signature.Recv() != nil && textMethods[fn.Name()]
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Return:
					for _, r := range x.Results {
						if s.val[r] == "" || !(exported || text) {
							continue
						}
						switch t := derefT(r.Type()).Underlying().(type) {
						case *types.Struct:
							continue // judged by its fields
						case *types.Interface:
							_ = t
							if !isErrorType(r.Type()) {
								continue
							}
						}
						c.bad("return:"+p.fname(fn), "%s: %s returns %s", p.ipos(in), p.fname(fn), s.val[r])
					}
				case *ssa.Panic:
					if s.val[x.X] != "" {
						c.bad("panic:"+p.fname(fn), "%s: %s panics with %s", p.ipos(in), p.fname(fn), s.val[x.X])
					}
				case *ssa.Store:
					if gl, ok := x.Addr.(*ssa.Global); ok && s.val[x.Val] != "" && gl.Object() != nil && gl.Object().Exported() && gl.Pkg.Pkg.Path() == modPath {
						c.bad("global:"+gl.Name(), "%s: %s stores %s in the exported variable %s", p.ipos(in), p.fname(fn), s.val[x.Val], gl.Name())
					}
				case ssa.CallInstruction:
					s.judgeCall(c, fn, x)
				}
			}
		}
	}
	c.need("places a password is set", 1)
	c.need("password parameters", 2)
	c.need("values that hold secrets", 10)
	c.assume("errors returned by library calls other than strconv, net/url and time parsing do not quote their input; user-registered decryptors are outside the library")
}

func (s *secretFlow) judgeCall(c *Check, fn *ssa.Function, ci ssa.CallInstruction) {
	p := s.p
	cc := ci.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "print" || b.Name() == "println" {
			for _, a := range cc.Args {
				if s.val[a] != "" {
					c.bad("print:"+p.fname(fn), "%s: %s prints %s", p.ipos(ci), p.fname(fn), s.val[a])
				}
			}
		}
		return
	}
	if len(s.g.callees(ci)) > 0 {
		return
	}
	n := staticName(cc)
	if n == "" && cc.IsInvoke() {
		n = "(" + types.TypeString(cc.Value.Type(), nil) + ")." + cc.Method.Name()
	}
	c.count("library calls judged", 1)
	if cc.IsInvoke() && cc.Method.Name() == "Password" {
		return
	}
	secret := ""
	args := cc.Args
	for _, a := range args {
		if s.val[a] != "" {
			secret = s.val[a]
		}
		if mi, ok := a.(*ssa.MakeInterface); ok && formats(n) {
			if h := s.holds(mi.X.Type(), 0); h != "" {
				secret = "a value that holds " + h
			}
		}
		// variadic interface arguments
		if sl, ok := a.(*ssa.Slice); ok && formats(n) {
			if al, ok := sl.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if ia, ok := r.(*ssa.IndexAddr); ok {
						for _, r2 := range *ia.Referrers() {
							if st, ok := r2.(*ssa.Store); ok {
								if mi, ok := st.Val.(*ssa.MakeInterface); ok {
									if h := s.holds(mi.X.Type(), 0); h != "" {
										secret = "a value that holds " + h
									}
								}
							}
						}
					}
				}
			}
		}
	}
	if secret == "" {
		return
	}
	c.count("library calls given a secret", 1)
	bad := !secretConsumer(n)
	var w ssa.Value
	if cc.IsInvoke() {
		switch cc.Method.Name() {
		case "Write", "WriteString":
			w = cc.Value
			bad = false
			if isHashT(w.Type()) {
				w = nil
			}
		}
	} else {
		switch n {
		case "encoding/binary.Write", "io.WriteString", "io.Copy", "io.CopyN", "io.CopyBuffer":
			w = args[0]
		}
	}
	if w != nil && !s.localWriter(w, map[ssa.Value]bool{}, 0) {
		bad = true
	}
	if bad {
		c.bad("leak:"+p.fname(fn)+":"+shortName(n), "%s: %s passes %s to %s", p.ipos(ci), p.fname(fn), secret, n)
	}
}

func formats(n string) bool {
	return strings.HasPrefix(n, "fmt.Errorf") || strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "log") || strings.HasPrefix(n, "(*log") || strings.Contains(n, "spew")
}

// localWriter: a hash or an in-memory buffer made by the module.
func (s *secretFlow) localWriter(v ssa.Value, seen map[ssa.Value]bool, d int) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if isHashT(v.Type()) {
		return true
	}
	switch types.TypeString(v.Type(), nil) {
	case "*bytes.Buffer", "*strings.Builder", "*golang.org/x/text/transform.Writer":
		return true
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return s.localWriter(x.X, seen, d+1)
	case *ssa.ChangeInterface:
		return s.localWriter(x.X, seen, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !s.localWriter(e, seen, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		n := staticName(&x.Call)
		if n == "io.MultiWriter" || n == "bufio.NewWriter" {
			return s.localWriter(x.Call.Args[0], seen, d+1)
		}
		return strings.HasPrefix(n, "crypto/") || strings.HasPrefix(n, "encoding/") || strings.HasPrefix(n, "golang.org/x/text/")
	case *ssa.Parameter:
		i := paramIndex(x)
		cs := s.g.callers[x.Parent()]
		for _, c := range cs {
			if a := c.in.Common().Args; i < len(a) && !s.localWriter(a[i], seen, d+1) {
				return false
			}
		}
		return len(cs) > 0
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) && !s.localWriter(st.Val, seen, d+1) {
					return false
				}
			}
			return true
		}
	}
	return false
}
