package main

// C12, C13 and C20: effects on shared memory and on the outside world.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C12"] = c12
	checks["C20"] = c20
}

// access is one write or read of memory that may be shared.
type access struct {
	key   string
	in    ssa.Instruction
	fn    *ssa.Function
	write bool
	what  string
}

// sliceKeys names shared containers v may refer to.
func (g *CG) sharedKeys(v ssa.Value, shared map[string]*types.Named, isElem bool) []string {
	o := g.origin(v)
	var out []string
	for f := range o.fields {
		i := strings.LastIndexByte(f, '.')
		if i > 0 && shared[f[:i]] != nil {
			out = append(out, f)
		}
	}
	for gl := range o.global {
		if g.p.isModPkg(gl.Pkg.Pkg) {
			out = append(out, "global "+gl.Name())
		}
	}
	if isElem && len(out) == 0 && !o.onlyFresh() {
		var el types.Type
		switch t := v.Type().Underlying().(type) {
		case *types.Slice:
			el = t.Elem()
		case *types.Map:
			el = t.Elem()
		}
		if el != nil {
			if n, ok := derefT(el).(*types.Named); ok && shared[types.TypeString(n, nil)] != nil {
				if _, ptr := el.Underlying().(*types.Pointer); !ptr {
					out = append(out, "[]"+types.TypeString(n, nil))
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

// addrKeys names the shared fields a store to addr (or a load from it) touches.
func (g *CG) addrKeys(addr ssa.Value, shared map[string]*types.Named) []string {
	var out []string
	for {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			n, _ := derefT(x.X.Type()).(*types.Named)
			if n != nil && shared[types.TypeString(n, nil)] != nil {
				root := rootPtr(x.X)
				if ia, ok := root.(*ssa.IndexAddr); ok && isSlice(ia.X.Type()) {
					if !g.origin(ia.X).onlyFresh() {
						out = append(out, fieldKey(x.X.Type(), x.Field))
					}
				} else if !g.origin(root).onlyFresh() {
					out = append(out, fieldKey(x.X.Type(), x.Field))
				}
				return out
			}
			addr = x.X
		case *ssa.IndexAddr:
			if isSlice(x.X.Type()) {
				for _, k := range g.sharedKeys(x.X, shared, true) {
					out = append(out, k+"[]")
				}
				return out
			}
			addr = x.X
		case *ssa.Global:
			if g.p.isModPkg(x.Pkg.Pkg) {
				out = append(out, "global "+x.Name())
			} else {
				out = append(out, "global "+x.Pkg.Pkg.Path()+"."+x.Name())
			}
			return out
		default:
			// plain pointer
			if n, ok := derefT(addr.Type()).(*types.Named); ok && shared[types.TypeString(n, nil)] != nil {
				if !g.origin(addr).onlyFresh() {
					s := n.Underlying().(*types.Struct)
					for i := 0; i < s.NumFields(); i++ {
						out = append(out, fieldKey(n, i))
					}
				}
				return out
			}
			o := g.origin(addr)
			for gl := range o.global {
				out = append(out, "*global "+gl.Name())
			}
			return out
		}
	}
}

func rootPtr(v ssa.Value) ssa.Value {
	for {
		if fa, ok := v.(*ssa.FieldAddr); ok {
			v = fa.X
			continue
		}
		return v
	}
}

// mutatorArgs: argument positions an external function writes through.
func mutatorArgs(name string) []int {
	switch {
	case strings.HasPrefix(name, "sort.") && !strings.HasPrefix(name, "sort.Search") && !strings.HasPrefix(name, "sort.Find") && !strings.Contains(name, "AreSorted") && !strings.Contains(name, "IsSorted"),
		strings.HasPrefix(name, "slices.Sort"), name == "slices.Reverse", strings.HasPrefix(name, "slices.Delete"), strings.HasPrefix(name, "slices.Compact"), name == "slices.Insert", name == "slices.Replace",
		name == "maps.DeleteFunc", name == "maps.Copy":
		return []int{0}
	case name == "io.ReadFull", name == "io.ReadAtLeast":
		return []int{1}
	case name == "math/rand.Read", name == "crypto/rand.Read":
		return []int{0}
	case strings.HasSuffix(name, ").PutUint16"), strings.HasSuffix(name, ").PutUint32"), strings.HasSuffix(name, ").PutUint64"):
		return []int{1}
	case name == "encoding/hex.Decode", name == "encoding/hex.Encode", name == "crypto/subtle.XORBytes":
		return []int{0}
	case strings.HasSuffix(name, ").Read"), strings.HasSuffix(name, ").ReadAt"):
		return []int{1} // receiver is argument 0 for static method calls
	case strings.HasSuffix(name, ").CryptBlocks"), strings.HasSuffix(name, ").Sum"), strings.HasSuffix(name, ").XORKeyStream"), strings.HasSuffix(name, ").Decrypt"), strings.HasSuffix(name, ").Encrypt"):
		return []int{1}
	case name == "encoding/binary.Read":
		return []int{2}
	}
	return nil
}

// accesses lists the shared memory reads and writes of fn.
func (g *CG) accesses(fn *ssa.Function, shared map[string]*types.Named) []access {
	var out []access
	add := func(in ssa.Instruction, w bool, what string, keys ...string) {
		for _, k := range keys {
			out = append(out, access{k, in, fn, w, what})
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				add(in, true, "store", g.addrKeys(x.Addr, shared)...)
			case *ssa.MapUpdate:
				for _, k := range g.sharedKeys(x.Map, shared, true) {
					add(in, true, "map update", k+"[]")
				}
			case *ssa.UnOp:
				if x.Op.String() == "*" {
					add(in, false, "load", g.addrKeys(x.X, shared)...)
				}
			case *ssa.FieldAddr:
				// address taken for something other than load/store
				for _, r := range *x.Referrers() {
					switch y := r.(type) {
					case *ssa.UnOp, *ssa.FieldAddr, *ssa.DebugRef, *ssa.IndexAddr:
					case *ssa.Store:
						if y.Addr != ssa.Value(x) {
							add(in, false, "address", g.addrKeys(x, shared)...)
						}
					default:
						add(in, false, "address", g.addrKeys(x, shared)...)
					}
				}
			case *ssa.Lookup:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					for _, k := range g.sharedKeys(x.X, shared, true) {
						add(in, false, "map lookup", k+"[]")
					}
				}
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					for _, k := range g.sharedKeys(x.X, shared, true) {
						add(in, false, "map iteration", k+"[]")
					}
				}
			case *ssa.Field:
			case ssa.CallInstruction:
				c := x.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len":
						if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
							for _, k := range g.sharedKeys(c.Args[0], shared, true) {
								add(in, false, "len", k+"[]")
							}
						}
					case "copy", "append", "clear", "delete":
						for _, k := range g.sharedKeys(c.Args[0], shared, true) {
							add(in, true, bi.Name(), k+"[]")
						}
					}
					continue
				}
				n := staticName(c)
				if f := c.StaticCallee(); f != nil && g.p.inModule(f) {
					continue
				}
				for _, i := range mutatorArgs(n) {
					args := c.Args
					if c.IsInvoke() {
						i--
					}
					if i < 0 || i >= len(args) {
						continue
					}
					a := args[i]
					if mi, ok := a.(*ssa.MakeInterface); ok {
						a = mi.X
					}
					if isSlice(a.Type()) {
						for _, k := range g.sharedKeys(a, shared, true) {
							add(in, true, "call of "+shortName(n), k+"[]")
						}
					} else if _, ok := a.Type().Underlying().(*types.Pointer); ok {
						add(in, true, "call of "+shortName(n), g.addrKeys(a, shared)...)
					}
				}
			}
		}
	}
	return out
}

func lockFacts(fs factSet) []string {
	var out []string
	for k := range fs {
		if k[0] == 'L' || k[0] == 'I' {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func short(k string) string {
	k = strings.ReplaceAll(k, modPath+"/internal/", "")
	return strings.ReplaceAll(k, modPath+".", "")
}

// safeShared: values of this type may be used by several goroutines at once
// (for the given method).
func (p *Prog) safeShared(t types.Type, method string) bool {
	switch method {
	case "Name", "Stat", "ReadAt", "Size", "String", "Error", "Close":
		if _, ok := t.Underlying().(*types.Interface); ok {
			return true
		}
	}
	switch x := types.Unalias(derefT(t)).(type) {
	case *types.Named:
		pk := ""
		if x.Obj().Pkg() != nil {
			pk = x.Obj().Pkg().Path()
		}
		nm := x.Obj().Name()
		switch {
		case pk == "":
			return true // error
		case p.isModPkg(x.Obj().Pkg()):
			return true // judged by its own fields
		case pk == "sync" || pk == "sync/atomic":
			return true
		case pk == "time" && nm == "Time", pk == "io" && nm == "ReaderAt", pk == "io/fs", pk == "reflect":
			return true
		case pk == "github.com/hashicorp/golang-lru/v2" && strings.HasPrefix(nm, "Cache"):
			return true
		case pk == "github.com/spf13/afero" && (nm == "Fs" || nm == "OsFs"):
			return true
		case pk == "hash/crc32" && nm == "Table":
			return true
		case strings.HasPrefix(pk, "encoding/binary"), strings.HasPrefix(pk, "golang.org/x/text/encoding"):
			return true
		}
		switch u := x.Underlying().(type) {
		case *types.Basic, *types.Signature:
			return true
		case *types.Slice, *types.Map, *types.Array:
			_ = u
			return true
		}
		return false
	case *types.Basic, *types.Signature, *types.Slice, *types.Map, *types.Array:
		return true
	}
	return false
}

func c12(c *Check) {
	p := c.P
	g := p.cg()
	gu := p.guards()
	shared := p.sharedTypes()
	c.rule("every write that code reachable after opening makes to a field, element or global of a shared type (types reachable from Reader, ReadCloser, File, except single-owner streams) happens under a lock of the shared object or inside its once-function, and every read of such memory is under the same lock or after the once; values of types that are not safe for concurrent use are not kept in shared objects or globals and used without a lock; the stored io.ReaderAt is the caller's reader or a stateless join of files")
	var names []string
	for n := range shared {
		names = append(names, short(n))
	}
	sort.Strings(names)
	c.count("shared types", len(names))
	c.sample("shared types: %s", strings.Join(names, ", "))
	var accs []access
	nf := 0
	for _, fn := range p.funcs {
		if !g.postOpen[fn] || g.inits[fn] {
			continue
		}
		nf++
		accs = append(accs, g.accesses(fn, shared)...)
	}
	c.count("functions reachable after opening", nf)
	guard := map[string]factSet{}
	for _, a := range accs {
		if !a.write {
			continue
		}
		c.count("shared writes", 1)
		fs := gu.at[a.in]
		var held factSet = factSet{}
		for _, k := range lockFacts(fs) {
			held[k] = true
		}
		if len(held) == 0 {
			c.bad("write:"+p.fname(a.fn)+":"+short(a.key), "%s: %s writes %s (%s), which is shared after opening, without holding a lock or running inside a once-function", p.ipos(a.in), p.fname(a.fn), short(a.key), a.what)
			continue
		}
		c.sample("write of %s in %s guarded by %v", short(a.key), p.fname(a.fn), lockFacts(fs))
		guard[a.key] = meet(guard[a.key], held)
		if len(guard[a.key]) == 0 {
			c.bad("guard:"+short(a.key), "%s: writes of %s are guarded by different locks", p.ipos(a.in), short(a.key))
		}
	}
	for _, a := range accs {
		gs := guard[a.key]
		if a.write || gs == nil {
			continue
		}
		c.count("guarded reads", 1)
		fs := gu.at[a.in]
		ok := false
		for k := range gs {
			switch k[0] {
			case 'L':
				ok = ok || fs[k] || fs["R:"+k[2:]]
			case 'I':
				ok = ok || fs[k] || fs["O:"+k[2:]]
			}
		}
		if !ok {
			c.bad("read:"+p.fname(a.fn)+":"+short(a.key), "%s: %s reads %s, which is written after opening under %v, without that lock held or that initialisation completed", p.ipos(a.in), p.fname(a.fn), short(a.key), gs)
		}
	}
	// stateful values held by shared objects or globals
	for _, fn := range p.funcs {
		if !g.postOpen[fn] || g.inits[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if _, ok := cc.Value.(*ssa.Builtin); ok {
					continue
				}
				vals := append([]ssa.Value{}, cc.Args...)
				meth := ""
				if cc.IsInvoke() {
					vals = append([]ssa.Value{cc.Value}, vals...)
					meth = cc.Method.Name()
				} else if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil {
					meth = f.Name()
				}
				ext := len(g.callees(ci)) == 0
				if !ext {
					continue
				}
				for i, v := range vals {
					m := ""
					if i == 0 {
						m = meth
					}
					c.statefulUse(gu, shared, fn, in, v, m)
				}
			}
		}
	}
	c.readerAt(g)
	c.need("shared types", 8)
	c.need("functions reachable after opening", 60)
}

// statefulUse flags the use of an unsynchronised stateful value that lives in a
// shared object or a global.
func (c *Check) statefulUse(gu *Guards, shared map[string]*types.Named, fn *ssa.Function, in ssa.Instruction, v ssa.Value, method string) {
	p := c.P
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.TypeAssert:
			v = x.X
			continue
		case *ssa.Slice:
			v = x.X
			continue
		}
		break
	}
	key := ""
	t := v.Type()
	switch x := v.(type) {
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			if n, ok := derefT(a.X.Type()).(*types.Named); ok && shared[types.TypeString(n, nil)] != nil && !gu.g.origin(rootPtr(a.X)).onlyFresh() {
				key = fieldKey(a.X.Type(), a.Field)
			}
		case *ssa.Global:
			if p.isModPkg(a.Pkg.Pkg) {
				key = "global " + a.Name()
			}
		}
	case *ssa.FieldAddr:
		if n, ok := derefT(x.X.Type()).(*types.Named); ok && shared[types.TypeString(n, nil)] != nil && !gu.g.origin(rootPtr(x.X)).onlyFresh() {
			key = fieldKey(x.X.Type(), x.Field)
		}
	case *ssa.Global:
		if p.isModPkg(x.Pkg.Pkg) {
			key = "global " + x.Name()
		}
	}
	if key == "" {
		return
	}
	c.count("uses of shared values in library calls", 1)
	if p.safeShared(t, method) {
		return
	}
	for k := range gu.at[in] {
		if k[0] == 'L' || k[0] == 'I' {
			return
		}
	}
	c.bad("stateful:"+p.fname(fn)+":"+short(key), "%s: %s uses %s of type %s, which is shared between goroutines and not safe for concurrent use, without holding a lock", p.ipos(in), p.fname(fn), short(key), t)
}

// readerAt: what is stored as the archive's reader.
func (c *Check) readerAt(g *CG) {
	p := c.P
	rd := p.named(modPath, "Reader")
	if rd == nil {
		c.bad("anchor:Reader", "type Reader not found")
		return
	}
	s := rd.Underlying().(*types.Struct)
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(derefT(fa.X.Type()), rd) {
					continue
				}
				ft := s.Field(fa.Field).Type()
				if types.NewMethodSet(ft).Lookup(nil, "ReadAt") == nil {
					continue
				}
				c.count("stores of the archive reader", 1)
				var bad []string
				c.traceReader(g, st.Val, map[ssa.Value]bool{}, &bad)
				if len(bad) > 0 {
					c.bad("readerat:"+p.fname(fn), "%s: the archive's reader is %s, not the caller's io.ReaderAt or a stateless join of the volume files", p.ipos(in), strings.Join(bad, ", "))
				}
			}
		}
	}
	c.need("stores of the archive reader", 1)
}

func (c *Check) traceReader(g *CG, v ssa.Value, seen map[ssa.Value]bool, bad *[]string) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter:
		fn := x.Parent()
		if o := fn.Object(); o != nil && o.Exported() && len(g.callers[fn]) == 0 || len(g.callers[fn]) == 0 {
			return
		}
		for _, cs := range g.callers[fn] {
			if i := paramIndex(x); i < len(cs.in.Common().Args) {
				c.traceReader(g, cs.in.Common().Args[i], seen, bad)
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			c.traceReader(g, e, seen, bad)
		}
	case *ssa.MakeInterface:
		c.traceReader(g, x.X, seen, bad)
	case *ssa.ChangeInterface:
		c.traceReader(g, x.X, seen, bad)
	case *ssa.TypeAssert:
		c.traceReader(g, x.X, seen, bad)
	case *ssa.Const:
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
					c.traceReader(g, s.Val, seen, bad)
				}
			}
			return
		}
		*bad = append(*bad, "loaded from "+x.X.String())
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			c.traceReaderCall(g, call, x.Index, seen, bad)
			return
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
			c.traceReader(g, ta.X, seen, bad)
			return
		}
		*bad = append(*bad, x.String())
	case *ssa.Call:
		c.traceReaderCall(g, x, 0, seen, bad)
	default:
		*bad = append(*bad, v.String())
	}
}

func (c *Check) traceReaderCall(g *CG, call *ssa.Call, idx int, seen map[ssa.Value]bool, bad *[]string) {
	n := staticName(&call.Call)
	if cs := g.callees(call); len(cs) > 0 {
		for _, f := range cs {
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
					c.traceReader(g, r.Results[idx], seen, bad)
				}
			}
		}
		return
	}
	switch {
	case n == "go4.org/readerutil.NewMultiReaderAt", n == "io.NewSectionReader", strings.HasSuffix(n, "afero.Fs).Open"), n == "bytes.NewReader", n == "strings.NewReader":
		return
	}
	*bad = append(*bad, fmt.Sprintf("the result of %s", n))
}
