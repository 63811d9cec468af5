package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A sweep is a loop that visits every element of a slice and closes each of
// them: no iteration skips the Close and nothing leaves the loop early.
type sweep struct {
	header *ssa.BasicBlock
	ifi    *ssa.If
	list   ssa.Value // the slice
	loads  map[ssa.Value]bool
	full   bool
	why    string
}

func isCloseCall(c *ssa.CallCommon) bool {
	name := ""
	if c.IsInvoke() {
		name = c.Method.Name()
	} else if f := c.StaticCallee(); f != nil && f.Signature.Recv() != nil {
		name = f.Name()
	}
	s := c.Signature()
	return name == "Close" && s.Results().Len() == 1 && isErrorType(s.Results().At(0).Type())
}

func closeRecv(c *ssa.CallCommon) ssa.Value {
	if c.IsInvoke() {
		return c.Value
	}
	if len(c.Args) > 0 {
		return c.Args[0]
	}
	return nil
}

// naturalLoop lists the blocks of the loop with the given header.
func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{}
	var w []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			w = append(w, p)
		}
	}
	if len(w) == 0 {
		return nil
	}
	body[h] = true
	for len(w) > 0 {
		b := w[len(w)-1]
		w = w[:len(w)-1]
		if body[b] {
			continue
		}
		body[b] = true
		w = append(w, b.Preds...)
	}
	return body
}

func isLenOf(v ssa.Value) ssa.Value {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.Call.Args[0]
		}
	}
	return nil
}

func constInt(v ssa.Value) (int64, bool) {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil {
		if b, ok := k.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return k.Int64(), true
		}
	}
	return 0, false
}

// sameLoad: two values denote the same slice (identical, or loads of the same
// local cell or field path without a store in between is assumed for captured
// variables and fields).
func sameSlice(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL {
		if x.X == y.X {
			return true
		}
		f, ok1 := x.X.(*ssa.FieldAddr)
		g, ok2 := y.X.(*ssa.FieldAddr)
		return ok1 && ok2 && f.X == g.X && f.Field == g.Field
	}
	return false
}

// fullRange reports the slice a loop header iterates over completely.
func fullRange(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) (list, index ssa.Value, ifi *ssa.If) {
	i, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, nil, nil
	}
	if !body[h.Succs[0]] || body[h.Succs[1]] {
		return nil, nil, nil
	}
	c, ok := i.Cond.(*ssa.BinOp)
	if !ok {
		return nil, nil, nil
	}
	phiOf := func(v ssa.Value) (*ssa.Phi, bool) { // v is the phi or phi+1 (range form)
		if p, ok := v.(*ssa.Phi); ok && p.Block() == h {
			return p, false
		}
		if a, ok := v.(*ssa.BinOp); ok && a.Op == token.ADD {
			if k, ok := constInt(a.Y); ok && k == 1 {
				if p, ok := a.X.(*ssa.Phi); ok && p.Block() == h {
					return p, true
				}
			}
		}
		return nil, false
	}
	steps := func(p *ssa.Phi, next func(ssa.Value) bool, start func(ssa.Value) bool) bool {
		for k, e := range p.Edges {
			if body[h.Preds[k]] {
				if !next(e) {
					return false
				}
			} else if !start(e) {
				return false
			}
		}
		return true
	}
	inc := func(x ssa.Value, d int64) func(ssa.Value) bool {
		return func(e ssa.Value) bool {
			a, ok := e.(*ssa.BinOp)
			if !ok || a.X != x {
				return false
			}
			k, ok := constInt(a.Y)
			return ok && (a.Op == token.ADD && k == d || a.Op == token.SUB && k == -d)
		}
	}
	isK := func(want int64) func(ssa.Value) bool {
		return func(e ssa.Value) bool { k, ok := constInt(e); return ok && k == want }
	}
	x, y, op := c.X, c.Y, c.Op
	if op == token.GTR {
		x, y, op = y, x, token.LSS
	}
	if op == token.LSS || op == token.NEQ {
		if l := isLenOf(y); l != nil {
			if p, r := phiOf(x); p != nil {
				if r && steps(p, func(e ssa.Value) bool { return e == x }, isK(-1)) {
					return l, x, i
				}
				if !r && steps(p, inc(p, 1), isK(0)) {
					return l, p, i
				}
			}
		}
	}
	// descending: i >= 0
	if (c.Op == token.GEQ) && isK(0)(c.Y) || c.Op == token.GTR && isK(-1)(c.Y) {
		if p, r := phiOf(c.X); p != nil && !r {
			var l ssa.Value
			if steps(p, inc(p, -1), func(e ssa.Value) bool {
				a, ok := e.(*ssa.BinOp)
				if !ok || a.Op != token.SUB {
					return false
				}
				k, ok := constInt(a.Y)
				l = isLenOf(a.X)
				return ok && k == 1 && l != nil
			}) {
				return l, p, i
			}
		}
	}
	return nil, nil, nil
}

// nilBranch: the successor of b taken when the element is nil, or -1.
func nilBranch(b *ssa.BasicBlock, loads map[ssa.Value]bool) int {
	i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return -1
	}
	c, ok := i.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.EQL && c.Op != token.NEQ {
		return -1
	}
	for _, q := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
		if k, ok := q[1].(*ssa.Const); ok && k.Value == nil && loads[q[0]] {
			if c.Op == token.EQL {
				return 0
			}
			return 1
		}
	}
	return -1
}

// sweeps finds the closing loops of a function, complete or not.
func sweeps(fn *ssa.Function) []*sweep {
	var out []*sweep
	for _, h := range fn.Blocks {
		body := naturalLoop(h)
		if body == nil {
			continue
		}
		list, idx, ifi := fullRange(h, body)
		if list == nil {
			continue
		}
		s := &sweep{header: h, ifi: ifi, list: list, loads: map[ssa.Value]bool{}, full: true}
		closing := map[*ssa.BasicBlock]bool{}
		for b := range body {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if ok && u.Op == token.MUL {
					if ia, ok := u.X.(*ssa.IndexAddr); ok && ia.Index == idx && sameSlice(ia.X, list) {
						s.loads[u] = true
					}
				}
			}
		}
		for b := range body {
			for _, in := range b.Instrs {
				ci, ok := in.(*ssa.Call)
				if !ok || !isCloseCall(&ci.Call) {
					continue
				}
				if s.loads[closeRecv(&ci.Call)] {
					closing[b] = true
				}
			}
		}
		if len(closing) == 0 {
			continue
		}
		// every iteration closes
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock)
		walk = func(b *ssa.BasicBlock) {
			if seen[b] || closing[b] {
				return
			}
			seen[b] = true
			skip := nilBranch(b, s.loads)
			if b != h {
				for k, t := range b.Succs {
					if t == h && k != skip {
						s.full, s.why = false, "an iteration can skip the Close"
					}
				}
			}
			for k, t := range b.Succs {
				if body[t] && t != h && k != skip {
					walk(t)
				}
			}
		}
		walk(h)
		// no early way out
		for b := range body {
			if b == h {
				continue
			}
			if len(b.Succs) == 0 {
				s.full, s.why = false, "the loop can be left before the last element"
			}
			for _, t := range b.Succs {
				if !body[t] {
					s.full, s.why = false, "the loop can be left before the last element"
				}
			}
		}
		out = append(out, s)
	}
	return out
}
