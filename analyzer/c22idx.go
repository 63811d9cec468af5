package main

// The empty-file flags are stored for the files without a stream only, so the
// position in that vector advances exactly for those files.

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// flagRegion lists the blocks only entered when a load of the field is true.
func flagRegion(fn *ssa.Function, field string) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		v, neg := f.Cond, false
		for {
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
				v, neg = u.X, !neg
				continue
			}
			break
		}
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			continue
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || trackedField(fa.X.Type(), fa.Field) != field {
			continue
		}
		t := b.Succs[0]
		if neg {
			t = b.Succs[1]
		}
		if len(t.Preds) != 1 {
			continue
		}
		for _, x := range fn.Blocks {
			if t.Dominates(x) {
				in[x] = true
			}
		}
	}
	return in
}

func c22EmptyIndex(p *Prog, c *Check) {
	for _, fn := range p.funcs {
		var region map[*ssa.BasicBlock]bool
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || trackedField(fa.X.Type(), fa.Field) != "FileHeader.isEmptyFile" {
					continue
				}
				if _, isC := st.Val.(*ssa.Const); isC {
					continue
				}
				u, ok := st.Val.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					continue
				}
				ia, ok := u.X.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				c.count("empty-file flag positions judged", 1)
				if fi, ok := fa.X.(*ssa.IndexAddr); ok && fi.Index == ia.Index {
					c.bad("emptyindex:"+p.fname(fn), "%s: the empty-file flag of a file is taken from the position of the file itself, but the flags are stored for the files without a stream only", p.ipos(in))
					continue
				}
				if region == nil {
					region = flagRegion(fn, "FileHeader.isEmptyStream")
				}
				if !region[b] {
					continue
				}
				cur := ia.Index
				step := func(v ssa.Value) ssa.Value { // v = x+1
					if a, ok := v.(*ssa.BinOp); ok && a.Op == token.ADD {
						if k, ok := a.Y.(*ssa.Const); ok && k.Value != nil && k.Int64() == 1 {
							return a.X
						}
					}
					return nil
				}
				if k, ok := cur.(*ssa.Const); ok && k.Value != nil && k.Int64() == 0 {
					cur = ia.X
					step = func(v ssa.Value) ssa.Value {
						if s, ok := v.(*ssa.Slice); ok && s.High == nil && s.Low != nil {
							if k, ok := s.Low.(*ssa.Const); ok && k.Value != nil && k.Int64() == 1 {
								return s.X
							}
						}
						return nil
					}
				}
				phi, ok := cur.(*ssa.Phi)
				if !ok {
					continue
				}
				head := phi.Block()
				// the value on each edge into a join, with the edge's source
				seen := map[*ssa.Phi]bool{}
				var edge func(v ssa.Value, pred *ssa.BasicBlock)
				edge = func(v ssa.Value, pred *ssa.BasicBlock) {
					if v == ssa.Value(phi) {
						if region[pred] {
							c.bad("emptyindex:"+p.fname(fn)+":stays", "%s: the position in the empty-file flags does not advance although the file has no stream", p.ipos(in))
						}
						return
					}
					if x := step(v); x == ssa.Value(phi) {
						if !region[pred] || !region[v.(ssa.Instruction).Block()] {
							c.bad("emptyindex:"+p.fname(fn)+":advances", "%s: the position in the empty-file flags also advances for files that have a stream", p.ipos(v.(ssa.Instruction)))
						}
						return
					}
					if q, ok := v.(*ssa.Phi); ok && !seen[q] {
						seen[q] = true
						for i, w := range q.Edges {
							edge(w, q.Block().Preds[i])
						}
					}
				}
				for i, v := range phi.Edges {
					pred := head.Preds[i]
					if !head.Dominates(pred) {
						continue // entering the loop
					}
					// an unconditional step seen at the back edge itself
					if x := step(v); x == ssa.Value(phi) && !region[v.(ssa.Instruction).Block()] {
						c.bad("emptyindex:"+p.fname(fn)+":advances", "%s: the position in the empty-file flags also advances for files that have a stream", p.ipos(v.(ssa.Instruction)))
						continue
					}
					edge(v, pred)
				}
			}
		}
	}
}
