package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// c23store: the sizes of the substreams are stored contiguously, streams[i] of
// them for group i, adding up to the size of the group.
func c23store(c *Check, fn *ssa.Function) {
	p := c.P
	name := p.fname(fn)
	r := newSum(c)
	made := map[AV]bool{}
	r.track = func(e *Engine, base AV) bool {
		if r.org[base] == "subStreamsInfo.size" {
			return true
		}
		n := e.n(base)
		if _, ok := n.v.(*ssa.MakeSlice); ok && isUint64T(e.typOf(base).Underlying().(*types.Slice).Elem()) {
			made[base] = true
			return r.org[base] == ""
		}
		return false
	}
	h := r.hooks()
	e := newEngine(p, h)
	e.keyBools = true
	r.e = e
	e.Run(fn, nil)
	// only the list that becomes the sizes
	evs := r.evs[:0]
	for _, ev := range r.evs {
		if r.org[ev.base] == "subStreamsInfo.size" {
			evs = append(evs, ev)
		}
	}
	r.evs = evs
	if len(evs) == 0 {
		c.sample("%s: how sizes are stored is not understood", name)
		return
	}
	c.count("stores of sizes judged", len(evs))
	if !r.slots(name, "size") {
		return
	}
	inner := map[string]bool{}
	for _, ev := range evs {
		inner[ev.hdr] = true
	}
	outer := map[string]bool{}
	for _, ed := range r.edges {
		if inner[ed.to] && ed.inside != "" {
			outer[ed.inside] = true
		}
	}
	for _, ed := range r.edges {
		if ed.back && outer[ed.to] {
			r.group(name, ed)
		}
	}
}

// slots: every event is at the position counted so far.
func (r *sumRun) slots(name, what string) bool {
	c, e := r.c, r.e
	pos := map[string]lin{"": {}}       // where the events of a loop start
	of := func(hdr string, a AV) bool { // a loop variable of the loop
		for _, ed := range r.edges {
			if _, ok := ed.vals[a]; ok && ed.to == hdr {
				return true
			}
		}
		return false
	}
	ok := true
	for _, ev := range r.evs {
		l := e.lin(nil, ev.idx)
		a, one := AV(0), false
		if len(l.t) == 1 {
			for x, k := range l.t {
				a, one = x, k == 1
			}
		}
		if len(l.t) == 0 && ev.hdr == "" {
			continue
		}
		if !one || !of(ev.hdr, a) {
			again, other := false, false
			for _, ed := range r.edges {
				again = again || ed.back && ed.to == ev.hdr && ed.from == ev.hdr && ed.n > 0
				other = other || ed.vals[a] != 0
			}
			if one && again && other {
				c.bad("slot:"+what+":"+name, "%s: the position %s is the same every time (path: %s)", ev.pos, e.str(ev.idx), ev.path)
				ok = false
				continue
			}
			c.sample("%s: position %s not understood", ev.pos, e.str(ev.idx))
			ok = false
			continue
		}
		want := l
		want.c -= int64(ev.n)
		if w, seen := pos[ev.hdr]; seen {
			if d := want.add(w, -1); !d.zero() {
				if len(d.t) == 0 {
					c.bad("slot:"+what+":"+name, "%s: the position %s is not the next one (path: %s)", ev.pos, e.str(ev.idx), ev.path)
				} else {
					c.sample("%s: position %s not understood", ev.pos, e.str(ev.idx))
				}
				ok = false
			}
			continue
		}
		pos[ev.hdr] = want
	}
	if !ok {
		return false
	}
	return r.ghost("slot:"+what+":"+name, "the next position", pos, func(ed sumEdge) lin { return lin{c: int64(ed.n)} })
}

// ghost: what the loop variables at the headers stand for is a running total
// of what the edges contribute, starting at nothing.
func (r *sumRun) ghost(rule, what string, pos map[string]lin, inc func(sumEdge) lin) bool {
	c := r.c
	ok := true
	of := func(hdr string, a AV) bool {
		for _, ed := range r.edges {
			if _, ok := ed.vals[a]; ok && ed.to == hdr {
				return true
			}
		}
		return false
	}
	for ch := true; ch; {
		ch = false
		for _, ed := range r.edges {
			w, h1 := pos[ed.to]
			if _, h2 := pos[ed.from]; !h1 || h2 {
				continue
			}
			l := r.next(w, ed).add(inc(ed), -1)
			for a := range l.t {
				if !of(ed.from, a) {
					l.t = nil
					break
				}
			}
			if len(l.t) == 1 {
				pos[ed.from], ch = l, true
			}
		}
	}
	for _, ed := range r.edges {
		w, h1 := pos[ed.to]
		f, h2 := pos[ed.from]
		if !h1 || !h2 {
			continue
		}
		c.count("loop edges judged", 1)
		got := r.next(w, ed)
		if d := got.add(f, -1).add(inc(ed), -1); !d.zero() && !r.byExit(d, ed) {
			if r.known(d) {
				c.bad(rule, "%s: %s is %s, off by %s (path: %s)", ed.pos, what, r.str(got), r.str(d), ed.path)
			} else {
				c.sample("%s: %s %s not understood", ed.pos, what, r.str(got))
			}
			ok = false
		}
	}
	return ok
}

// next: the value a linear form over loop variables takes over the edge.
func (r *sumRun) next(l lin, ed sumEdge) lin {
	o := lin{c: l.c, t: map[AV]int64{}}
	for a, k := range l.t {
		if v, ok := ed.vals[a]; ok {
			o = o.add(r.e.lin(nil, v), k)
		} else {
			o = o.add(lin{t: map[AV]int64{a: 1}}, k)
		}
	}
	return o
}

// byExit: the difference is zero because a loop counting up by one has ended.
func (r *sumRun) byExit(d lin, ed sumEdge) bool {
	for a, t := range ed.cmps {
		b, ok := less(r.e, a, !t)
		if !ok { // not 0 < b, with b counting down to zero: b is zero
			continue
		}
		steps := false
		for _, x := range r.edges {
			if x.back && x.to == ed.from {
				if w := r.change(b, x); len(w.t) == 0 && w.c == -1 {
					steps = true
				} else {
					steps = false
					break
				}
			}
		}
		if !steps {
			continue
		}
		for _, k := range []int64{1, -1} {
			if d.add(b, k).zero() {
				return true
			}
		}
	}
	return false
}

// group judges one iteration of the loop over the groups.
func (r *sumRun) group(name string, ed sumEdge) {
	c, e := r.c, r.e
	c.count("groups judged", 1)
	// the number of substreams of the group and what is known of it
	var S AV
	zero, nonzero, one := false, false, false
	for a, t := range ed.cmps {
		n := e.n(a)
		if n.tag == "==" {
			for i := range 2 {
				if ed.rel[n.args[i]].key == "subStreamsInfo.streams" {
					if k := e.constOf(n.args[1-i]); k != nil {
						S = n.args[i]
						switch {
						case k.ExactString() == "0" && t:
							zero = true
						case k.ExactString() == "0":
							nonzero = true
						case k.ExactString() == "1" && t:
							one, nonzero = true, true
						}
					}
				}
			}
			continue
		}
		d, ok := less(e, a, t)
		if !ok {
			continue
		}
		for s, k := range d.t {
			if ed.rel[s].key != "subStreamsInfo.streams" {
				continue
			}
			S = s
			if len(d.t) == 1 && k == 1 && d.c <= 0 {
				nonzero = true
			}
			if len(d.t) == 1 && k == -1 && d.c == 1 {
				zero = true
			}
		}
	}
	if ed.from == ed.to {
		switch {
		case ed.n == 0 && zero:
		case ed.n == 1 && one:
		case ed.n == 0:
			c.bad("none:"+name, "%s: no size is stored for a group that may have substreams (path: %s)", ed.pos, ed.path)
		default:
			c.sample("%s: number of sizes stored not understood (path: %s)", ed.pos, ed.path)
		}
		return
	}
	if S == 0 {
		c.sample("%s: number of substreams not found (path: %s)", ed.pos, ed.path)
		return
	}
	// the loop over the substreams ended because of its bound
	var bound lin
	got := false
	for a, t := range ed.cmps {
		b, ok := less(e, a, !t)
		if !ok || b.t[S] != 1 || len(b.t) < 2 {
			continue
		}
		ch := true
		for _, x := range r.edges {
			if x.to == ed.from && x.back {
				if w := r.change(b, x); len(w.t) != 0 || w.c != -int64(x.n) {
					ch = false
					if len(w.t) == 0 && r.known(b) {
						c.bad("count:"+name, "%s: the substreams left go down by %d although %d sizes were stored (path: %s)", x.pos, -w.c, x.n, x.path)
						return
					}
				}
			}
		}
		if ch {
			bound, got = b, true
		}
	}
	if !got {
		c.sample("%s: bound of the loop over the substreams not understood (path: %s)", ed.pos, ed.path)
		return
	}
	b0, ok := r.entry(bound.sub1(S))
	if !ok || len(b0.t) != 0 {
		c.sample("%s: bound of the loop over the substreams not understood (path: %s)", ed.pos, ed.path)
		return
	}
	// S + b0 in the loop, n after it
	if b0.c+int64(ed.n) != 0 {
		c.bad("count:"+name, "%s: the number of sizes stored for a group differs by %d from its substreams (path: %s)", ed.pos, b0.c+int64(ed.n), ed.path)
		return
	}
	if ed.n > 0 && !nonzero {
		c.bad("zero:"+name, "%s: a size is stored for a group that may have no substreams (path: %s)", ed.pos, ed.path)
		return
	}
	if ed.n != 1 || len(ed.sum) != 1 {
		c.sample("%s: last size of the group not understood (path: %s)", ed.pos, ed.path)
		return
	}
	// the last size and what the others add up to make the size of the group
	last := e.lin(nil, ed.sum[0])
	p0, ok := r.entry(last)
	if !ok {
		c.sample("%s: last size %s not understood", ed.pos, e.str(ed.sum[0]))
		return
	}
	var U AV
	for a, k := range p0.t {
		if ed.rel[a].key == "usize" && k == 1 {
			U = a
		}
	}
	if U == 0 {
		if r.known(p0) {
			c.bad("rest:"+name, "%s: the last size of a group is %s, not what remains of the group (path: %s)", ed.pos, e.str(ed.sum[0]), ed.path)
		} else {
			c.sample("%s: last size %s not understood", ed.pos, e.str(ed.sum[0]))
		}
		return
	}
	if w := p0.sub1(U); !w.zero() {
		c.bad("rest:"+name, "%s: the last size of a group is off by %s (path: %s)", ed.pos, r.str(w), ed.path)
	}
	for _, x := range r.edges {
		if x.to != ed.from || !x.back {
			continue
		}
		ch := r.change(last, x)
		for _, v := range x.sum {
			ch = ch.add(e.lin(nil, v), 1)
		}
		if !ch.zero() {
			if r.known(ch) {
				c.bad("rest:"+name, "%s: what remains of the group is off by %s after a size was stored (path: %s)", x.pos, r.str(ch), x.path)
			} else {
				c.sample("%s: rest of the group not understood: %s", x.pos, r.str(ch))
			}
		}
	}
	// both are those of the same group
	g := ed.rel[ed.rel[U].idx]
	if g.key == "unpackInfo.folder" {
		d := e.lin(nil, g.idx).add(e.lin(nil, ed.rel[S].idx), -1)
		flip := false
		for a := range e.lin(nil, ed.rel[S].idx).t {
			flip = flip || e.lin(nil, g.idx).t[a] < 0
		}
		if !d.zero() && (flip || r.known(d)) {
			c.bad("align:"+name, "%s: the substreams of group %s are taken from group %s (path: %s)", ed.pos, e.str(ed.rel[S].idx), e.str(g.idx), ed.path)
		}
	}
	if k, why := r.counts(ed.rel[S].idx); k < 0 {
		c.bad("groups:"+name, "%s: the number of the group %s", ed.pos, why)
	}
}

var _ = strings.Contains
