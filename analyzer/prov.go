package main

// Access paths and linear forms over abstract values, shared by the checks that
// compare where values come from.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// prov remembers the address each loaded value was read from and the inequalities assumed on a path (facts over dead values are dropped by
// the engine).
type prov struct {
	from map[AV]AV
	reg  map[string]lin
}

func newProv() *prov { return &prov{from: map[AV]AV{}, reg: map[string]lin{}} }

// assume keeps the inequality a condition stands for.
func (q *prov) assume(e *Engine, st *State, cond AV, truth bool) {
	n := *e.n(cond)
	if n.k == kOp && n.tag == "!" {
		q.assume(e, st, n.args[0], !truth)
		return
	}
	if n.k != kOp || len(n.args) != 2 || n.tag != "<" && n.tag != "==" || !isIntT(e.typOf(n.args[0])) && !isIntT(e.typOf(n.args[1])) {
		return
	}
	for _, a := range n.args {
		for _, y := range e.n(a).syms {
			if m := e.n(y); m.ctx != nil && m.ctx.inLoop {
				return
			}
		}
	}
	x, y := e.lin(st, n.args[0]), e.lin(st, n.args[1])
	var ls []lin
	switch {
	case n.tag == "<" && truth:
		ls = append(ls, y.add(x, -1).add(lin{c: 1}, -1))
	case n.tag == "<":
		ls = append(ls, x.add(y, -1))
	case truth:
		d := x.add(y, -1)
		ls = append(ls, d, lin{}.add(d, -1))
	}
	for _, l := range ls {
		k := l.key()
		q.reg[k] = l
		st.flags["iq:"+k] = "1"
	}
}

func (l lin) key() string {
	var xs []string
	for a, c := range l.t {
		xs = append(xs, fmt.Sprintf("%d*%d", c, a))
	}
	sort.Strings(xs)
	return strings.Join(xs, "+") + fmt.Sprintf("+%d", l.c)
}

// known: everything known to be >= 0.
func (q *prov) known(e *Engine, st *State) []lin {
	out := e.ineqs(st)
	var ks []string
	for k := range st.flags {
		if strings.HasPrefix(k, "iq:") {
			ks = append(ks, k[3:])
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, q.reg[k])
	}
	return out
}

func (q *prov) nonneg(e *Engine, st *State, l lin) bool {
	return e.nonneg1(st, l, q.known(e, st), 3)
}

func (q *prov) load(e *Engine, in *ssa.UnOp, addr, val AV) {
	n := e.n(val)
	if n.k == kSym && n.v == ssa.Value(in) {
		q.from[val] = addr
	}
}

// path names where a value comes from: "p:f.zip.pool[p:f.folder]".
func (q *prov) path(e *Engine, a AV) string {
	n := *e.n(a)
	switch n.k {
	case kSym:
		if addr, ok := q.from[a]; ok {
			return q.path(e, addr)
		}
		switch v := n.v.(type) {
		case *ssa.Parameter:
			return "p:" + v.Name()
		case *ssa.FreeVar:
			return "v:" + v.Name()
		}
	case kConst:
		if n.cv != nil {
			return n.cv.String()
		}
		return n.tag
	case kField:
		i, _ := strconv.Atoi(n.tag)
		b := n.args[0]
		t := n.typ // the struct the field belongs to
		if t == nil {
			t = q.structT(e, b)
		}
		return q.path(e, b) + "." + fieldName(derefT(t), i)
	case kIndex:
		return q.path(e, n.args[0]) + "[" + q.path(e, n.args[1]) + "]"
	case kGlobal:
		return "g:" + n.g.String()
	case kIface:
		return q.path(e, n.args[0])
	case kOp:
		switch {
		case strings.HasPrefix(n.tag, "conv:"), n.tag == "cell", n.tag == "gload", strings.HasPrefix(n.tag, "ta:"):
			return q.path(e, n.args[0])
		case strings.HasPrefix(n.tag, "fld"):
			i, _ := strconv.Atoi(n.tag[3:])
			if t := e.n(n.args[0]).typ; t != nil {
				return q.path(e, n.args[0]) + "." + fieldName(t, i)
			}
		}
		var xs []string
		for _, x := range n.args {
			xs = append(xs, q.path(e, x))
		}
		return n.tag + "(" + strings.Join(xs, ",") + ")"
	}
	return fmt.Sprintf("#%d", a)
}

// structT: the struct type an address or pointer value refers to.
func (q *prov) structT(e *Engine, b AV) types.Type {
	t := e.n(b).typ
	if t == nil {
		if v := e.n(b).v; v != nil {
			t = v.Type()
		}
	}
	if t == nil {
		return types.Typ[types.Invalid]
	}
	return derefT(t)
}

// lin is a linear combination of atoms plus a constant.
type lin struct {
	c int64
	t map[AV]int64
}

func (l lin) add(m lin, k int64) lin {
	r := lin{l.c + k*m.c, map[AV]int64{}}
	for a, x := range l.t {
		r.t[a] += x
	}
	for a, x := range m.t {
		r.t[a] += k * x
	}
	for a, x := range r.t {
		if x == 0 {
			delete(r.t, a)
		}
	}
	return r
}

func (l lin) zero() bool { return l.c == 0 && len(l.t) == 0 }

// lin brings an integer term into linear form; integer conversions are taken
// to keep the value.
func (e *Engine) lin(st *State, a AV) lin {
	if st != nil {
		if k, ok := st.ceq[a]; ok {
			a = k
		}
	}
	if c := e.constOf(a); c != nil && c.Kind() == constant.Int {
		if v, ok := constant.Int64Val(c); ok {
			return lin{c: v}
		}
	}
	n := *e.n(a)
	if n.k == kOp && (n.tag == "len" || n.tag == "cap") && len(n.args) == 1 && n.tag == "len" {
		if m := *e.n(n.args[0]); m.k == kOp && m.tag == "slice" && len(m.args) >= 3 {
			lo, hi := lin{}, lin{}
			if x := e.n(m.args[1]); x.tag != "_" {
				lo = e.lin(st, m.args[1])
			}
			if x := e.n(m.args[2]); x.tag != "_" {
				hi = e.lin(st, m.args[2])
			} else if isSliceT(e.typOf(m.args[0])) {
				hi = e.lin(st, e.op("len", types.Typ[types.Int], m.args[0]))
			} else {
				return lin{t: map[AV]int64{a: 1}}
			}
			return hi.add(lo, -1)
		}
	}
	if n.k == kOp {
		switch {
		case strings.HasPrefix(n.tag, "conv:") && isIntT(n.typ) && isIntT(e.typOf(n.args[0])):
			return e.lin(st, n.args[0])
		case n.tag == token.ADD.String() && len(n.args) == 2 && isIntT(n.typ):
			return e.lin(st, n.args[0]).add(e.lin(st, n.args[1]), 1)
		case n.tag == token.SUB.String() && len(n.args) == 2:
			return e.lin(st, n.args[0]).add(e.lin(st, n.args[1]), -1)
		case n.tag == token.SUB.String() && len(n.args) == 1:
			return lin{}.add(e.lin(st, n.args[0]), -1)
		case n.tag == token.MUL.String() && len(n.args) == 2:
			x, y := e.lin(st, n.args[0]), e.lin(st, n.args[1])
			if len(x.t) == 0 {
				x, y = y, x
			}
			if len(y.t) == 0 {
				return lin{}.add(x, y.c)
			}
		}
	}
	return lin{t: map[AV]int64{a: 1}}
}

func (e *Engine) typOf(a AV) types.Type {
	n := e.n(a)
	if n.typ != nil {
		return n.typ
	}
	if n.cv != nil {
		return n.cv.Type()
	}
	if n.v != nil {
		return n.v.Type()
	}
	return nil
}

func isIntT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isUnsignedT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// ineqs: linear forms known to be >= 0 from the facts of the path.
func (e *Engine) ineqs(st *State) []lin {
	var out []lin
	var keys []AV
	for f := range st.facts {
		keys = append(keys, f)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	for _, f := range keys {
		n := *e.n(f)
		if n.k != kOp || len(n.args) != 2 {
			continue
		}
		truth := st.facts[f] > 0
		switch n.tag {
		case "<":
			if !isIntT(e.typOf(n.args[0])) && !isIntT(e.typOf(n.args[1])) {
				continue
			}
			x, y := e.lin(st, n.args[0]), e.lin(st, n.args[1])
			if truth {
				out = append(out, y.add(x, -1).add(lin{c: 1}, -1))
			} else {
				out = append(out, x.add(y, -1))
			}
		case "==":
			if !truth && isIntT(e.typOf(n.args[0])) {
				for i := range 2 {
					if c := e.constOf(n.args[i]); c != nil && constant.Sign(c) == 0 && e.nonnegAtom(n.args[1-i]) {
						out = append(out, lin{c: -1, t: map[AV]int64{n.args[1-i]: 1}})
					}
				}
			}
			if truth && isIntT(e.typOf(n.args[0])) {
				d := e.lin(st, n.args[0]).add(e.lin(st, n.args[1]), -1)
				out = append(out, d, lin{}.add(d, -1))
				// a sum found equal to a constant still says something about its terms
				if x, y := e.lin(nil, n.args[0]), e.lin(nil, n.args[1]); len(x.t) > 1 || len(y.t) > 1 {
					d := x.add(y, -1)
					out = append(out, d, lin{}.add(d, -1))
				}
			}
		}
	}
	return out
}

// nonneg: can l be shown >= 0 on this path?
func (e *Engine) nonneg(st *State, l lin) bool {
	return e.nonneg1(st, l, e.ineqs(st), 2)
}

func (e *Engine) nonneg1(st *State, l lin, in []lin, depth int) bool {
	ok := l.c >= 0
	for a, x := range l.t {
		if x < 0 || !e.nonnegAtom(a) {
			ok = false
		}
	}
	if ok {
		return true
	}
	if depth == 0 {
		return false
	}
	for a, x := range l.t {
		n := e.n(a)
		if x < 0 && n.k == kOp && n.tag == "min" {
			for _, y := range n.args {
				in = append(in[:len(in):len(in)], e.lin(st, y).add(lin{t: map[AV]int64{a: 1}}, -1))
			}
		}
		if x > 0 && n.k == kOp && n.tag == "max" {
			for _, y := range n.args {
				in = append(in[:len(in):len(in)], lin{t: map[AV]int64{a: 1}}.add(e.lin(st, y), -1))
			}
		}
	}
	for _, f := range in {
		share := false
		for a := range f.t {
			if l.t[a] != 0 && (l.t[a] < 0) == (f.t[a] < 0) {
				share = true
			}
		}
		if share && e.nonneg1(st, l.add(f, -1), in, depth-1) {
			return true
		}
	}
	return false
}

func (e *Engine) nonnegAtom(a AV) bool {
	n := e.n(a)
	if n.k == kOp && (n.tag == "len" || n.tag == "cap") {
		return true
	}
	return isUnsignedT(e.typOf(a))
}

// zeroDiff: l is 0 by the facts of the path.
func (q *prov) zeroDiff(e *Engine, st *State, l lin) bool {
	return q.nonneg(e, st, l) && q.nonneg(e, st, lin{}.add(l, -1))
}

func constInt64(v int64) constant.Value { return constant.MakeInt64(v) }

func isSliceT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}
