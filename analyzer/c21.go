package main

// C21: volumes. Every path of the functions that open archives by name is
// interpreted. Names of further volumes are evaluated for sample archive names
// and every position of the loop; the number must advance by one; the end of
// the sequence must have been found by an open failing with "does not exist";
// each file's section covers that file's own size; and what the archive is
// read from is the joined whole.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C21"] = c21 }

func isFileSliceOrSections(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	return types.NewMethodSet(s.Elem()).Lookup(nil, "ReadAt") != nil
}

func c21(c *Check) {
	p := c.P
	c.rule("the names of further volumes are the archive's name with .001 replaced by .002, .003, ... in this order, one per iteration (evaluated)")
	c.rule("opening succeeds with several volumes only after the open of the next one failed because it does not exist; without having looked for them only if the name does not end in .001")
	c.rule("every opened volume is joined, as a section from 0 to its own size, appended after the earlier ones")
	c.rule("the archive is read from the joined volumes over their joint size, or from the single file over its own size")
	c.rule("Volumes returns the name of every file of the list, in order")
	opens := fileOpeners(p)
	helper := func(fn *ssa.Function) bool {
		if opens[fn] || fn.Parent() != nil {
			return true
		}
		if !p.inModule(fn) || fn.Blocks == nil {
			return false
		}
		files, rd := false, false
		for _, x := range fn.Params {
			files = files || isFileT(x.Type()) || isFileSliceOrSections(x.Type())
			rd = rd || isReaderAtT(x.Type()) && !isFileT(x.Type())
		}
		r := fn.Signature.Results()
		str, all := false, true
		for i := 0; i < r.Len(); i++ {
			str = str || isStringT(r.At(i).Type())
		}
		for _, x := range fn.Params {
			all = all && (isStringT(x.Type()) || isIntT(x.Type()))
		}
		if str && all || fn.Signature.Recv() == nil && all && r.Len() == 1 && isBoolT(r.At(0).Type()) {
			return true // forms or examines a name
		}
		if fn.Signature.Recv() == nil && len(fn.Params) == 1 && isErrorType(fn.Params[0].Type()) {
			return true
		}
		return files && !rd
	}
	for _, fn := range p.funcs {
		if !opens[fn] || fn.Parent() != nil {
			continue
		}
		top := fn.Object() != nil && fn.Object().Exported()
		if !top {
			top = true
			for _, cs := range p.cg().callers[fn] {
				if opens[cs.caller] {
					top = false
				}
			}
		}
		if top {
			c21root(c, p, fn, helper)
		}
	}
	for _, n := range p.pkgTypes() {
		s := structOf(n)
		if s == nil {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if !isFileList(s.Field(i).Type()) {
				continue
			}
			for _, m := range p.funcs {
				r := m.Signature.Results()
				if m.Blocks == nil || r.Len() != 1 || len(m.Params) != 1 || m.Signature.Recv() == nil || structOf(m.Signature.Recv().Type()) != s {
					continue
				}
				if !anyInstr(m, func(in ssa.Instruction) bool {
					x, ok := in.(*ssa.FieldAddr)
					return ok && structOf(x.X.Type()) == s && x.Field == i
				}) {
					continue
				}
				if sl, ok := r.At(0).Type().Underlying().(*types.Slice); ok && isStringT(sl.Elem()) {
					c21volumes(c, p, n, i, m)
				}
			}
		}
	}
	c.need("volume names evaluated", 6)
	c.need("successful exits judged", 2)
	c.need("name lists judged", 1)
	c.assume("a library call named Open/OpenFile opens the file its string argument names; NewMultiReaderAt joins its arguments in order")
}

var c21names = []string{"a.7z.001", "dir/a.7z.001", "x.001/b.001.7z.001", "./c.001", "d e/.001", "a.100.001", "b0.001"}

// strEval evaluates a string, integer or boolean term for a sample name.
type strEval struct {
	e     *Engine
	name  string
	round int64 // number of volumes joined so far, less the first
	phis  map[AV]bool
	deps  map[AV]bool // loop variables used
	start map[AV]int64
}

func (v *strEval) eval(a AV) constant.Value {
	e := v.e
	n := *e.n(a)
	if c := e.constOf(a); c != nil {
		return c
	}
	switch n.k {
	case kIface:
		return v.eval(n.args[0])
	case kSym:
		switch x := n.v.(type) {
		case *ssa.Parameter:
			if isStringT(x.Type()) && n.typ != nil || isStringT(x.Type()) {
				return constant.MakeString(v.name)
			}
		case *ssa.Phi:
			if k, ok := stepper(x); ok {
				v.deps[a] = true
				return constant.MakeInt64(k + v.round)
			}
		}
		return nil
	case kOp:
	default:
		return nil
	}
	var args []constant.Value
	for _, x := range n.args {
		if n.tag == "len" && len(n.args) == 1 && !isStringT(e.typOf(x)) {
			if isFileSliceOrSections(e.typOf(x)) {
				v.deps[a] = true
				return constant.MakeInt64(1 + v.round)
			}
			return nil
		}
		y := constant.Value(nil)
		if m := e.n(x); m.tag != "_" {
			if y = v.eval(x); y == nil {
				return nil
			}
		}
		args = append(args, y)
	}
	str := func(i int) string {
		if i < len(args) && args[i] != nil && args[i].Kind() == constant.String {
			return constant.StringVal(args[i])
		}
		return ""
	}
	num := func(i int) int64 {
		if i < len(args) && args[i] != nil && args[i].Kind() == constant.Int {
			k, _ := constant.Int64Val(args[i])
			return k
		}
		return 0
	}
	switch n.tag {
	case "len":
		return constant.MakeInt64(int64(len(str(0))))
	case "slice":
		s := str(0)
		lo, hi := int64(0), int64(len(s))
		if len(args) > 1 && args[1] != nil {
			lo = num(1)
		}
		if len(args) > 2 && args[2] != nil {
			hi = num(2)
		}
		if lo < 0 || hi < lo || hi > int64(len(s)) {
			return nil
		}
		return constant.MakeString(s[lo:hi])
	case "call:fmt.Sprintf":
		var xs []any
		for _, y := range args[1:] {
			switch y.Kind() {
			case constant.String:
				xs = append(xs, constant.StringVal(y))
			case constant.Int:
				k, _ := constant.Int64Val(y)
				xs = append(xs, k)
			default:
				return nil
			}
		}
		return constant.MakeString(fmt.Sprintf(str(0), xs...))
	case "call:fmt.Sprint":
		return nil
	case "call:strconv.Itoa":
		return constant.MakeString(strconv.FormatInt(num(0), 10))
	case "call:strconv.FormatInt":
		return constant.MakeString(strconv.FormatInt(num(0), int(num(1))))
	case "call:strings.TrimSuffix":
		return constant.MakeString(strings.TrimSuffix(str(0), str(1)))
	case "call:strings.TrimRight":
		return constant.MakeString(strings.TrimRight(str(0), str(1)))
	case "call:strings.TrimPrefix":
		return constant.MakeString(strings.TrimPrefix(str(0), str(1)))
	case "call:strings.Replace":
		return constant.MakeString(strings.Replace(str(0), str(1), str(2), int(num(3))))
	case "call:strings.ReplaceAll":
		return constant.MakeString(strings.ReplaceAll(str(0), str(1), str(2)))
	case "call:strings.Repeat":
		if k := num(1); k >= 0 && k < 100 {
			return constant.MakeString(strings.Repeat(str(0), int(k)))
		}
	case "call:strings.ToLower":
		return constant.MakeString(strings.ToLower(str(0)))
	case "call:strings.LastIndex":
		return constant.MakeInt64(int64(strings.LastIndex(str(0), str(1))))
	case "call:strings.Index":
		return constant.MakeInt64(int64(strings.Index(str(0), str(1))))
	case "call:strings.HasSuffix":
		return constant.MakeBool(strings.HasSuffix(str(0), str(1)))
	case "call:strings.HasPrefix":
		return constant.MakeBool(strings.HasPrefix(str(0), str(1)))
	case "call:strings.Contains":
		return constant.MakeBool(strings.Contains(str(0), str(1)))
	case "call:strings.EqualFold":
		return constant.MakeBool(strings.EqualFold(str(0), str(1)))
	case "call:path/filepath.Ext", "call:path.Ext":
		return constant.MakeString(filepath.Ext(str(0)))
	case "call:path/filepath.Clean", "call:path.Clean":
		return constant.MakeString(filepath.Clean(str(0)))
	case "call:path/filepath.Base", "call:path.Base":
		return constant.MakeString(filepath.Base(str(0)))
	case "call:path/filepath.Dir", "call:path.Dir":
		return constant.MakeString(filepath.Dir(str(0)))
	case "call:path/filepath.Join", "call:path.Join":
		var xs []string
		for i := range args {
			xs = append(xs, str(i))
		}
		return constant.MakeString(filepath.Join(xs...))
	case "!":
		if len(args) == 1 && args[0] != nil && args[0].Kind() == constant.Bool {
			return constant.MakeBool(!constant.BoolVal(args[0]))
		}
	}
	if strings.HasPrefix(n.tag, "conv") && len(args) == 1 {
		return args[0]
	}
	if len(args) == 2 && args[0] != nil && args[1] != nil && args[0].Kind() == args[1].Kind() {
		switch n.tag {
		case "+", "-", "*":
			op := map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL}[n.tag]
			if args[0].Kind() == constant.String && n.tag != "+" {
				return nil
			}
			return constant.BinaryOp(args[0], op, args[1])
		case "==", "<", "<=":
			op := map[string]token.Token{"==": token.EQL, "<": token.LSS, "<=": token.LEQ}[n.tag]
			return constant.MakeBool(constant.Compare(args[0], op, args[1]))
		}
	}
	return nil
}

// stepper: a loop variable that starts at a constant and goes up by one on
// every iteration.
func stepper(x *ssa.Phi) (int64, bool) {
	k, has := int64(0), false
	for _, y := range x.Edges {
		for {
			if cv, ok := y.(*ssa.Convert); ok {
				y = cv.X
				continue
			}
			break
		}
		switch z := y.(type) {
		case *ssa.Const:
			if z.Value == nil || z.Value.Kind() != constant.Int || has && z.Int64() != k {
				return 0, false
			}
			k, has = z.Int64(), true
		case *ssa.BinOp:
			o, ok := z.Y.(*ssa.Const)
			if z.Op != token.ADD || z.X != ssa.Value(x) || !ok || o.Value == nil || o.Int64() != 1 {
				return 0, false
			}
		case *ssa.Phi:
			if z != x {
				return 0, false
			}
		default:
			return 0, false
		}
	}
	return k, has
}

// counts up, but not by one: what a loop variable is increased by otherwise
func badStep(x *ssa.Phi) bool {
	init, step, other := false, false, false
	for _, y := range x.Edges {
		switch z := y.(type) {
		case *ssa.Const:
			init = true
		case *ssa.BinOp:
			o, ok := z.Y.(*ssa.Const)
			if (z.Op == token.ADD || z.Op == token.SUB || z.Op == token.MUL) && z.X == ssa.Value(x) && ok && o.Value != nil && (z.Op != token.ADD || o.Int64() != 1) {
				step = true
			} else if !(z.Op == token.ADD && z.X == ssa.Value(x) && ok) {
				other = true
			}
		default:
			other = true
		}
	}
	return init && step && !other
}

func c21root(c *Check, p *Prog, fn *ssa.Function, helper func(*ssa.Function) bool) {
	name := p.fname(fn)
	errOf := map[AV]AV{}  // file -> its open error
	statOf := map[AV]AV{} // result of Stat -> file
	sizeOf := map[AV]AV{} // size -> file or joined reader
	secOf := map[AV]AV{}  // section -> file
	vol := map[AV]bool{}  // file opened as a further volume
	sections := false
	opened := posMap{p: p}
	judged := map[ssa.Instruction]bool{}
	ts := types.Typ[types.String]
	h := Hooks{}
	h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool { return helper(s.fn) }
	h.Prune = func(e *Engine, st *State) {
		for f, m := range st.marks {
			if er := errOf[f]; er != 0 && e.nilness(st, er) == 1 && m != "err" {
				delete(st.marks, f) // not opened at all
			}
		}
	}
	pure := map[string]bool{"strings.TrimSuffix": true, "strings.TrimRight": true, "strings.TrimPrefix": true, "strings.Replace": true,
		"strings.ReplaceAll": true, "strings.ToLower": true, "strings.LastIndex": true, "strings.Index": true, "strings.HasSuffix": true,
		"strings.HasPrefix": true, "strings.Contains": true, "strings.EqualFold": true, "strings.Repeat": true, "strconv.Itoa": true, "strconv.FormatInt": true,
		"path/filepath.Ext": true, "path/filepath.Clean": true, "path/filepath.Base": true, "path/filepath.Dir": true,
		"path.Ext": true, "path.Clean": true, "path.Base": true, "path.Dir": true}
	judgeName := func(e *Engine, st *State, s *Site, a AV) bool {
		// true: a further volume
		further := true
		first := judged[s.instr]
		judged[s.instr] = true
		for _, nm := range c21names {
			base := strings.TrimSuffix(nm, ".001")
			at := int64(-1)
			for d := range int64(1100) {
				if d > 10 && d < 97 || d > 101 && d < 997 || d > 1002 {
					continue
				}
				v := &strEval{e: e, name: nm, round: d, deps: map[AV]bool{}}
				r := v.eval(a)
				if r == nil || r.Kind() != constant.String {
					bad := false
					for _, x := range e.n(a).syms {
						if ph, ok := e.n(x).v.(*ssa.Phi); ok && isIntT(ph.Type()) && badStep(ph) {
							bad = true
						}
					}
					if bad {
						c.bad("step:"+name, "%s: the number of the volume does not go up by one: %s", s.pos(e), e.str(a))
						return true
					}
					if !first {
						c.sample("%s: name %s not evaluated", s.pos(e), e.str(a))
					}
					return !strings.Contains(e.str(a), "path/filepath.Clean(") || !strings.Contains(e.str(a), "param")
				}
				got := filepath.Clean(constant.StringVal(r))
				if len(v.deps) == 0 {
					if got != filepath.Clean(nm) {
						want := fmt.Sprintf("%s.%03d", base, 2)
						if got == filepath.Clean(want) {
							break // a further volume opened outside a loop
						}
						c.bad("name:"+name, "%s: opens %q for the archive %q", s.pos(e), got, nm)
						return true
					}
					further = false
					c.count("archive names evaluated", 1)
					break
				}
				c.count("volume names evaluated", 1)
				if at < 0 {
					at = 2
					if got == filepath.Clean(nm) {
						at = 1
					}
				}
				want := filepath.Clean(fmt.Sprintf("%s.%03d", base, at+d))
				if got != want {
					c.bad("name:"+name, "%s: opens %q as volume number %d of %q, want %q", s.pos(e), got, at+d, nm, want)
					return true
				}
			}
		}
		return further
	}
	// what was not joined counts unless the sections of such files are made elsewhere
	var late []func()
	direct, fromList := map[AV]bool{}, false
	skip := func(e *Engine, f AV, text string) {
		at := opened.at(e, f)
		late = append(late, func() {
			if direct[f] || !fromList {
				c.bad("skipped:"+name+at, "%s", text)
			}
		})
	}
	h.Assume = func(e *Engine, st *State, cond AV, truth bool) {
		n := e.n(cond)
		if !truth || n.k != kOp || n.tag != "==" || len(n.args) != 2 {
			return
		}
		d := e.lin(nil, n.args[0]).add(e.lin(nil, n.args[1]), -1)
		for a := range d.t {
			if f := sizeOf[a]; len(d.t) == 1 && d.c == 0 && st.marks[f] == "open" {
				st.marks[f] = "empty"
			}
		}
	}
	h.Call = func(e *Engine, st *State, s *Site) (AV, bool) {
		switch {
		case pure[s.name]:
			return e.op("call:"+s.name, s.c.Signature().Results().At(0).Type(), s.args...), true
		case s.name == "fmt.Sprintf":
			args := []AV{s.args[0]}
			if len(s.args) > 1 {
				args = append(args, e.elems(st, s.args[1])...)
			}
			return e.op("call:fmt.Sprintf", ts, args...), true
		case s.name == "path/filepath.Join" || s.name == "path.Join":
			return e.op("call:"+s.name, ts, e.elems(st, s.args[0])...), true
		}
		if s.instr != nil && s.c != nil && opensFile(p, s.c) {
			for f, m := range st.marks {
				if m == "err" {
					if e.nilness(st, f) == 1 && st.flags["vol"] != "" {
						c.bad("hole:"+name, "%s: %s looks for further volumes after one could not be opened; path: %s", s.pos(e), name, st.path())
					}
					delete(st.marks, f)
				}
			}
			h.Prune(e, st)
			for f, m := range st.marks {
				if sections && m == "open" && st.flags["vol"] != "" {
					skip(e, f, fmt.Sprintf("%s: the volume opened at %s is not joined; path: %s", s.pos(e), opened.at(e, f), st.path()))
				}
			}
		}
		return 0, false
	}
	atVal := func(e *Engine, x AV) AV { return stripTA(e, x) }
	h.After = func(e *Engine, st *State, s *Site, res AV) {
		if res == 0 {
			return
		}
		sig := s.c.Signature()
		switch {
		case opensFile(p, s.c):
			f := e.ext(res, 0, sig.Results().At(0).Type())
			er := e.ext(res, 1, sig.Results().At(1).Type())
			errOf[f] = er
			c.count("opens judged", 1)
			further := true
			for _, a := range s.args {
				if isStringT(e.typOf(a)) {
					further = judgeName(e, st, s, a)
				}
			}
			st.marks[f] = "open"
			if further {
				vol[f] = true
				st.flags["vol"] = "1"
			}
			st.marks[er] = "err"
		case s.method() == "Stat" && len(s.args) > 0:
			if f := atVal(e, s.args[0]); st.marks[f] != "" {
				for i := 0; i < sig.Results().Len(); i++ {
					x := e.ext(res, i, sig.Results().At(i).Type())
					statOf[x] = f
					if isErrorType(sig.Results().At(i).Type()) {
						st.marks[x] = "staterr"
					}
				}
			}
		case s.method() == "Size" && len(s.args) == 1:
			x := atVal(e, s.args[0])
			if f, ok := statOf[x]; ok {
				sizeOf[res] = f
				st.marks[res] = "size"
			} else if st.marks[x] == "joined whole" || secOf[x] != 0 {
				sizeOf[res] = x
				st.marks[res] = "size"
			}
		case s.name == "io.NewSectionReader":
			f := atVal(e, s.args[0])
			if st.marks[f] == "" || errOf[f] == 0 {
				if isFileT(e.typOf(f)) {
					fromList = true
				}
				return
			}
			sections = true
			direct[f] = true
			secOf[res] = f
			st.marks[res] = "section"
			c.count("sections judged", 1)
			if k := e.constOf(s.args[1]); k == nil || constant.Sign(k) != 0 {
				c.bad("start:"+name, "%s: the section over the file opened at %s does not start at its beginning", s.pos(e), opened.at(e, f))
			}
			size(c, e, st, s.pos(e), name, s.args[2], f, sizeOf, opened)
		case len(s.args) == 1 && strings.Contains(s.name, "NewMultiReaderAt"):
			if sig.Results().Len() == 1 {
				st.marks[res] = "joined whole"
			} else {
				st.marks[e.ext(res, 0, sig.Results().At(0).Type())] = "joined whole"
			}
			st.flags["joined"] = "1"
			h.Prune(e, st)
			for f, m := range st.marks {
				if sections && m == "open" && errOf[f] != 0 {
					skip(e, f, fmt.Sprintf("%s: the volume opened at %s is not joined; path: %s", s.pos(e), opened.at(e, f), st.path()))
				}
			}
			// anything but the whole list
			if m := e.n(s.args[0]); m.k == kOp && m.tag == "slice" && e.n(m.args[0]).k != kAlloc {
				for i := 1; i < len(m.args) && i < 3; i++ {
					if k := e.constOf(m.args[i]); e.n(m.args[i]).tag != "_" && (k == nil || constant.Sign(k) != 0) && e.n(m.args[i]).tag != "len" {
						c.bad("part:"+name, "%s: only a part of the volumes is joined: %s", s.pos(e), e.str(s.args[0]))
					}
				}
			}
		case s.fn != nil && p.inModule(s.fn) && !helper(s.fn):
			var rd, n AV
			for i, a := range s.args {
				if i >= len(s.fn.Params) {
					break
				}
				t := s.fn.Params[i].Type()
				if isReaderAtT(t) {
					rd = a
				}
				if isIntT(t) && rd != 0 {
					n = a
				}
			}
			if rd == 0 || n == 0 {
				return
			}
			c.count("archives judged", 1)
			x := atVal(e, rd)
			switch {
			case st.marks[x] == "joined whole":
			case errOf[x] != 0 && st.flags["vol"] != "":
				c.bad("reader:"+name, "%s: the archive is read from one volume only although further ones were looked for; path: %s", s.pos(e), st.path())
			case errOf[x] != 0:
			case st.flags["vol"] != "" && secOf[x] != 0:
				c.bad("reader:"+name, "%s: the archive is read from one volume only although further ones were looked for; path: %s", s.pos(e), st.path())
			default:
				c.sample("%s: reader %s not followed", s.pos(e), e.str(rd))
				return
			}
			size(c, e, st, s.pos(e), name, n, x, sizeOf, opened)
		}
	}
	put := func(e *Engine, st *State, v AV) {
		v = atVal(e, v)
		if f, ok := secOf[v]; ok && st.marks[f] == "open" {
			st.marks[f] = "joined"
		}
	}
	h.Store = func(e *Engine, st *State, ctx *Ctx, in *ssa.Store, addr, val AV) {
		if e.n(addr).k == kIndex {
			// the arguments of an append are stored as well: only what is kept counts
			if t := derefT(e.n(e.root(addr)).typ); t != nil {
				put(e, st, val)
			}
		}
	}
	h.Instr = func(e *Engine, st *State, ctx *Ctx, in ssa.Instruction) {
		x := appendOf(in)
		if x == nil || !isFileSliceOrSections(x.Type()) || len(x.Call.Args) != 2 {
			return
		}
		a, b := e.eval(st, ctx, x.Call.Args[0]), e.eval(st, ctx, x.Call.Args[1])
		for _, y := range e.elems(st, b) {
			put(e, st, y)
		}
		lit := func(v ssa.Value) bool { // written out here
			sl, ok := v.(*ssa.Slice)
			if !ok {
				return false
			}
			al, ok := sl.X.(*ssa.Alloc)
			return ok && al.Block() == x.Block()
		}
		if lit(x.Call.Args[0]) && !lit(x.Call.Args[1]) {
			for _, y := range e.elems(st, a) {
				y = atVal(e, y)
				if vol[y] || vol[secOf[y]] {
					c.bad("order:"+name, "%s: a volume is put before the earlier ones", p.ipos(in))
				}
			}
		}
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		h.Prune(e, st)
		ei := errResult(fn.Signature)
		if ei < 0 || e.nilness(st, vals[ei]) == 1 {
			return
		}
		c.count("successful exits judged", 1)
		for a, m := range st.marks {
			if m == "staterr" && e.nilness(st, a) != -1 {
				c.bad("stat:"+name, "%s: %s can succeed although a volume could not be examined; path: %s", p.ipos(in), name, st.path())
			}
		}
		if st.flags["vol"] == "" {
			// a name that ends in .001 cannot take this path
			for _, nm := range c21names {
				var why []string
				bad := true
				for f, w := range st.facts {
					v := &strEval{e: e, name: nm, deps: map[AV]bool{}}
					if r := v.eval(f); r != nil && r.Kind() == constant.Bool && constant.BoolVal(r) != (w == 1) {
						bad = false
					}
					why = append(why, e.str(f))
				}
				sort.Strings(why)
				if bad {
					c.bad("single:"+name, "%s: %s can succeed for %q without having looked for further volumes; path: %s", p.ipos(in), name, nm, st.path())
				}
			}
			return
		}
		for a, m := range st.marks {
			if m != "err" {
				continue
			}
			ok := e.nilness(st, a) != -1
			if ok {
				ok = false
				for f, w := range st.facts {
					n := e.n(f)
					if w != 1 || n.k != kOp || n.tag != "errors.Is" && n.tag != "notexist" && n.tag != "==" {
						continue
					}
					if !e.inChain(st, n.args[0], a, map[AV]bool{}) {
						continue
					}
					if n.tag == "notexist" || e.gerrNamed(n.args[1], "io/fs", "ErrNotExist") || e.gerrNamed(n.args[1], "os", "ErrNotExist") {
						ok = true
					}
				}
			}
			if !ok {
				c.bad("end:"+name, "%s: %s can succeed although the last volume looked for was not found to be missing; path: %s", p.ipos(in), name, st.path())
			}
		}
		if st.flags["joined"] == "" && sections {
			c.bad("unjoined:"+name, "%s: %s can succeed without having joined the volumes; path: %s", p.ipos(in), name, st.path())
		}
	}
	e := newEngine(p, h)
	e.K = 40
	e.Run(fn, func(e *Engine, ctx *Ctx, st *State) {
		for i, x := range fn.Params {
			if isStringT(x.Type()) {
				st.marks[e.param(ctx, i)] = "name"
			}
		}
	})
	for _, f := range late {
		f()
	}
}

// size: n is the size of x (a file, or the joined volumes).
func size(c *Check, e *Engine, st *State, pos, name string, n, x AV, sizeOf map[AV]AV, opened posMap) {
	l := e.lin(st, n)
	var own, other, unknown, sum bool
	for a, k := range l.t {
		y, ok := sizeOf[a]
		if !ok && e.n(a).k == kOp {
			for _, s := range e.n(a).syms {
				if z, ok := sizeOf[s]; ok && z != x {
					other = true // computed from it
				}
			}
		}
		switch {
		case ok && y != x && k == 1 && st.marks[x] == "joined whole":
			sum = true
		case ok && y == x && k == 1:
			own = true
		case ok:
			other = true
		default:
			unknown = true
		}
	}
	switch {
	case own && !other && !unknown && l.c == 0:
	case sum && (unknown || own) && !other && l.c == 0:
		c.sample("%s: sum of sizes %s not followed", pos, e.str(n))
	case unknown && !other && !sum:
		c.sample("%s: size %s not followed", pos, e.str(n))
	default:
		what := "the joined volumes"
		if st.marks[x] != "joined whole" {
			what = "the file opened at " + opened.at(e, x)
		}
		c.bad("size:"+name, "%s: %s are read over a size that is not theirs: %s; path: %s", pos, what, e.str(n), st.path())
	}
}

// c21volumes: the list of names.
func c21volumes(c *Check, p *Prog, n *types.Named, field int, fn *ssa.Function) {
	name := p.fname(fn)
	c.count("name lists judged", 1)
	q := newProv()
	var files, recv AV
	ft := structOf(n).Field(field).Type()
	nameOf := map[AV]AV{} // name -> index of the file
	made := map[AV]AV{}   // list -> length
	isFiles := func(e *Engine, a AV) bool { return a == files }
	h := Hooks{}
	h.Inline = func(e *Engine, ctx *Ctx, s *Site) bool { return true }
	idxOf := func(e *Engine, f AV) AV {
		x, ok := q.from[f]
		if !ok {
			if m := e.n(f); m.k == kIndex && isFiles(e, m.args[0]) {
				return m.args[1]
			}
			return 0
		}
		if m := e.n(x); m.k == kIndex && isFiles(e, m.args[0]) {
			return m.args[1]
		}
		return 0
	}
	h.Load = func(e *Engine, st *State, ctx *Ctx, in *ssa.UnOp, addr, val AV) {
		q.load(e, in, addr, val)
		if i := idxOf(e, val); i != 0 {
			if st.flags["pending"] != "" {
				c.bad("left:"+name, "%s: %s can leave out a file; path: %s", p.ipos(in), name, st.path())
			}
			st.flags["pending"] = "1"
			st.marks[val] = "file"
			ln := e.op("len", types.Typ[types.Int], files)
			want := e.lin(nil, i).add(e.lin(nil, ln), -1)
			for f, w := range st.facts {
				m := e.n(f)
				if w != 1 || m.k != kOp || m.tag != "<" || len(m.args) != 2 {
					continue
				}
				d := e.lin(nil, m.args[0]).add(e.lin(nil, m.args[1]), -1)
				if x := d.add(want, -1); d.t[ln] == -1 && len(x.t) == 0 && x.c > 0 {
					c.bad("early:"+name, "%s: %s leaves out the last files; path: %s", p.ipos(in), name, st.path())
				}
			}
		}
	}
	h.Assume = func(e *Engine, st *State, cond AV, truth bool) {
		q.assume(e, st, cond, truth)
		for e.n(cond).k == kOp && e.n(cond).tag == "!" {
			cond, truth = e.n(cond).args[0], !truth
		}
		m := e.n(cond)
		if m.k != kOp || len(m.args) != 2 || m.tag != "<" && m.tag != "==" {
			return
		}
		ln := e.op("len", types.Typ[types.Int], files)
		if d := e.lin(nil, m.args[0]).add(e.lin(nil, m.args[1]), -1); d.t[ln] != 0 && !truth == (m.tag == "<") {
			st.flags["done"] = "1"
		}
	}
	h.Instr = func(e *Engine, st *State, ctx *Ctx, in ssa.Instruction) {
		if m, ok := in.(*ssa.MakeSlice); ok {
			made[e.alloc(ctx, m)] = e.eval(st, ctx, m.Len)
		}
		if x := appendOf(in); x != nil && len(x.Call.Args) == 2 {
			for _, y := range e.elems(st, e.eval(st, ctx, x.Call.Args[1])) {
				if _, ok := nameOf[y]; ok {
					delete(st.flags, "pending")
					c.count("names listed", 1)
				}
			}
		}
	}
	h.After = func(e *Engine, st *State, s *Site, res AV) {
		if s.method() == "Name" && len(s.args) == 1 {
			if i := idxOf(e, stripTA(e, s.args[0])); i != 0 {
				nameOf[res] = i
				st.marks[res] = "name"
			}
		}
	}
	h.Store = func(e *Engine, st *State, ctx *Ctx, in *ssa.Store, addr, val AV) {
		a := e.n(addr)
		i, ok := nameOf[val]
		if a.k != kIndex || !ok {
			return
		}
		if ln, ok := made[e.root(addr)]; ok {
			c.count("names listed", 1)
			if d := e.lin(st, i).add(e.lin(st, a.args[1]), -1); !d.zero() {
				c.bad("place:"+name, "%s: %s lists the name of file %s at position %s", p.ipos(in), name, e.str(i), e.str(a.args[1]))
			}
			if d := e.lin(st, ln).add(e.lin(st, e.op("len", types.Typ[types.Int], files)), -1); !d.zero() {
				c.bad("length:"+name, "%s: the list of %s is not as long as the list of files", p.ipos(in), name)
			}
			delete(st.flags, "pending")
		}
	}
	h.Exit = func(e *Engine, st *State, ctx *Ctx, in *ssa.Return, vals []AV) {
		c.count("name list exits judged", 1)
		if st.flags["pending"] != "" {
			c.bad("left:"+name, "%s: %s can leave out a file; path: %s", p.ipos(in), name, st.path())
		}
		// the end of the list was reached
		done := st.flags["done"] != "" || e.nilness(st, files) == -1
		if !done {
			c.bad("early:"+name, "%s: %s can return before the end of the list of files; path: %s", p.ipos(in), name, st.path())
		}
	}
	e := newEngine(p, h)
	e.Run(fn, func(e *Engine, ctx *Ctx, st *State) {
		recv = e.param(ctx, 0)
		files = e.free("files", ft)
		st.mem[e.field(recv, field, n)] = files
		st.marks[files] = "start"
	})
}
