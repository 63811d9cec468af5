package main

// Must-dataflow of held locks and completed once-initialisations over the
// whole module (interprocedural, context-insensitive, greatest fixpoint).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type factSet map[string]bool

func (f factSet) copy() factSet {
	n := make(factSet, len(f))
	for k := range f {
		n[k] = true
	}
	return n
}

func meet(a, b factSet) factSet {
	if a == nil {
		return b.copy()
	}
	n := factSet{}
	for k := range a {
		if b[k] {
			n[k] = true
		}
	}
	return n
}

func sameFacts(a, b factSet) bool {
	if (a == nil) != (b == nil) || len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

type Guards struct {
	g     *CG
	entry map[*ssa.Function]factSet // nil: not reached
	gen   map[*ssa.Function]factSet
	kill  map[*ssa.Function]factSet
	typeF map[string]factSet
	at    map[ssa.Instruction]factSet
}

// syncKey names the mutex or once an address denotes; "" if it is a local copy.
func (gu *Guards) syncKey(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		if o := gu.g.origin(x.X); o.onlyFresh() {
			if _, ok := x.X.(*ssa.Alloc); ok {
				return ""
			}
		}
		return fieldKey(x.X.Type(), x.Field)
	case *ssa.Global:
		return x.Pkg.Pkg.Path() + "." + x.Name()
	case *ssa.UnOp:
		switch y := x.X.(type) {
		case *ssa.FieldAddr:
			return fieldKey(y.X.Type(), y.Field)
		case *ssa.Global:
			return y.Pkg.Pkg.Path() + "." + y.Name()
		}
	}
	return ""
}

func funcArgs(c *ssa.CallCommon) []*ssa.Function {
	var out []*ssa.Function
	for _, a := range c.Args {
		for {
			if ct, ok := a.(*ssa.ChangeType); ok {
				a = ct.X
				continue
			}
			if mi, ok := a.(*ssa.MakeInterface); ok {
				a = mi.X
				continue
			}
			break
		}
		switch x := a.(type) {
		case *ssa.Function:
			out = append(out, x)
		case *ssa.MakeClosure:
			out = append(out, x.Fn.(*ssa.Function))
		}
	}
	return out
}

func (p *Prog) guards() *Guards {
	g := p.cg()
	gu := &Guards{g: g, entry: map[*ssa.Function]factSet{}, gen: map[*ssa.Function]factSet{}, kill: map[*ssa.Function]factSet{}, typeF: map[string]factSet{}, at: map[ssa.Instruction]factSet{}}
	// kill/gen summaries
	for i := 0; i < 6; i++ {
		for _, f := range p.funcs {
			k := factSet{}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					c := ci.Common()
					if n := staticName(c); strings.HasSuffix(n, "nlock") && strings.HasPrefix(n, "(*sync.") && len(c.Args) > 0 {
						key := gu.syncKey(c.Args[0])
						k["L:"+key] = true
						k["R:"+key] = true
					}
					for _, h := range g.callees(ci) {
						for x := range gu.kill[h] {
							k[x] = true
						}
					}
				}
			}
			gu.kill[f] = k
		}
	}
	for i := 0; i < 6; i++ {
		for _, f := range p.funcs {
			gu.gen[f] = gu.flow(f, factSet{}, nil)
		}
	}
	all := factSet{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && staticName(ci.Common()) == "(*sync.Once).Do" {
					all["O:"+gu.syncKey(ci.Common().Args[0])] = true
				}
			}
		}
	}
	for _, n := range p.pkgTypes() {
		gu.typeF[types.TypeString(n, nil)] = all.copy()
	}
	for round := 0; round < 12; round++ {
		entry := map[*ssa.Function]factSet{}
		var work []*ssa.Function
		put := func(f *ssa.Function, fs factSet) {
			if f == nil || f.Blocks == nil || !p.inModule(f) {
				return
			}
			old := entry[f]
			n := meet(old, fs)
			if old == nil || !sameFacts(old, n) {
				entry[f] = n
				work = append(work, f)
			}
		}
		for _, f := range p.funcs {
			if !g.entry(f) && len(g.callers[f]) > 0 || f.Parent() != nil {
				continue
			}
			fs := factSet{}
			if r := f.Signature.Recv(); r != nil {
				if n, ok := derefT(r.Type()).(*types.Named); ok {
					fs = gu.typeF[types.TypeString(n, nil)].copy()
				}
			}
			put(f, fs)
		}
		at := map[ssa.Instruction]factSet{}
		for len(work) > 0 {
			f := work[len(work)-1]
			work = work[:len(work)-1]
			gu.flow(f, entry[f], func(in ssa.Instruction, fs factSet) {
				at[in] = fs.copy()
				gu.propagate(in, fs, put)
			})
		}
		// closures never reached by a known call
		for _, f := range p.funcs {
			if entry[f] == nil {
				put(f, factSet{})
			}
		}
		for len(work) > 0 {
			f := work[len(work)-1]
			work = work[:len(work)-1]
			gu.flow(f, entry[f], func(in ssa.Instruction, fs factSet) {
				at[in] = fs.copy()
				gu.propagate(in, fs, put)
			})
		}
		// construction facts
		tf := map[string]factSet{}
		for _, f := range p.funcs {
			if g.inits[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var t types.Type
					switch x := in.(type) {
					case *ssa.Alloc:
						t = derefT(x.Type())
					case *ssa.MakeSlice:
						t = x.Type().Underlying().(*types.Slice).Elem()
					default:
						continue
					}
					n, ok := t.(*types.Named)
					if !ok || !p.isModPkg(n.Obj().Pkg()) {
						continue
					}
					fs := factSet{}
					for k := range at[in] {
						if strings.HasPrefix(k, "O:") {
							fs[k] = true
						}
						if strings.HasPrefix(k, "I:") {
							fs["O:"+k[2:]] = true
						}
					}
					ts := types.TypeString(n, nil)
					tf[ts] = meet(tf[ts], fs)
				}
			}
		}
		changed := false
		for ts, old := range gu.typeF {
			n := tf[ts]
			if n == nil {
				continue
			}
			n = meet(old, n)
			if !sameFacts(old, n) {
				gu.typeF[ts] = n
				changed = true
			}
		}
		gu.entry, gu.at = entry, at
		if !changed {
			break
		}
	}
	return gu
}

func (gu *Guards) propagate(in ssa.Instruction, fs factSet, put func(*ssa.Function, factSet)) {
	switch x := in.(type) {
	case *ssa.Go:
		for _, h := range gu.g.callees(x) {
			put(h, factSet{})
		}
		for _, h := range funcArgs(&x.Call) {
			put(h, factSet{})
		}
	case *ssa.Defer:
		for _, h := range gu.g.callees(x) {
			put(h, fs.minusLocks())
		}
		for _, h := range funcArgs(&x.Call) {
			put(h, fs.minusLocks())
		}
	case *ssa.Call:
		n := staticName(&x.Call)
		extra := ""
		switch {
		case n == "(*sync.Once).Do":
			extra = "I:" + gu.syncKey(x.Call.Args[0])
			if extra == "I:" {
				extra = ""
			}
		case strings.HasPrefix(n, "sync.OnceFunc"), strings.HasPrefix(n, "sync.OnceValue"):
			extra = "I:oncefunc"
		}
		for _, h := range gu.g.callees(x) {
			put(h, fs)
		}
		for _, h := range funcArgs(&x.Call) {
			f := fs.copy()
			if extra != "" {
				f[extra] = true
			}
			if !strings.HasPrefix(n, "(*sync.Once).Do") && gu.g.p.inModule(x.Call.StaticCallee()) {
				f = factSet{} // stored or called later by module code
			}
			put(h, f)
		}
	}
}

func (f factSet) minusLocks() factSet {
	n := factSet{}
	for k := range f {
		if k[0] == 'O' || k[0] == 'I' {
			n[k] = true
		}
	}
	return n
}

// flow runs the intraprocedural must-analysis and returns the facts at return.
func (gu *Guards) flow(f *ssa.Function, entry factSet, visit func(ssa.Instruction, factSet)) factSet {
	in := map[*ssa.BasicBlock]factSet{f.Blocks[0]: entry.copy()}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	var exit factSet
	first := true
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		fs := in[b].copy()
		for _, i := range b.Instrs {
			gu.step(f, i, fs)
		}
		for _, s := range b.Succs {
			n := meet(in[s], fs)
			if in[s] == nil || !sameFacts(in[s], n) {
				in[s] = n
				work = append(work, s)
			}
		}
	}
	for _, b := range f.Blocks {
		if in[b] == nil {
			continue
		}
		fs := in[b].copy()
		for _, i := range b.Instrs {
			if visit != nil {
				visit(i, fs)
			}
			gu.step(f, i, fs)
			if _, ok := i.(*ssa.Return); ok {
				if first {
					exit, first = fs.copy(), false
				} else {
					exit = meet(exit, fs)
				}
			}
		}
	}
	if exit == nil {
		exit = factSet{}
	}
	return exit
}

func (gu *Guards) step(f *ssa.Function, in ssa.Instruction, fs factSet) {
	switch x := in.(type) {
	case *ssa.Call:
		n := staticName(&x.Call)
		if strings.HasPrefix(n, "(*sync.") && len(x.Call.Args) > 0 {
			key := gu.syncKey(x.Call.Args[0])
			switch n {
			case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
				if key != "" {
					fs["L:"+key] = true
				}
				return
			case "(*sync.RWMutex).RLock":
				if key != "" {
					fs["R:"+key] = true
				}
				return
			case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
				delete(fs, "L:"+key)
				delete(fs, "R:"+key)
				return
			case "(*sync.Once).Do":
				if key != "" {
					fs["O:"+key] = true
				}
				return
			}
		}
		cs := gu.g.callees(x)
		var gen factSet
		for i, h := range cs {
			for k := range gu.kill[h] {
				delete(fs, k)
			}
			if i == 0 {
				gen = gu.gen[h].copy()
			} else {
				gen = meet(gen, gu.gen[h])
			}
		}
		for k := range gen {
			fs[k] = true
		}
	case *ssa.RunDefers:
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if d, ok := i.(*ssa.Defer); ok {
					n := staticName(&d.Call)
					if strings.HasPrefix(n, "(*sync.") && strings.HasSuffix(n, "nlock") {
						key := gu.syncKey(d.Call.Args[0])
						delete(fs, "L:"+key)
						delete(fs, "R:"+key)
					}
					for _, h := range gu.g.callees(d) {
						for k := range gu.kill[h] {
							delete(fs, k)
						}
					}
				}
			}
		}
	}
}
