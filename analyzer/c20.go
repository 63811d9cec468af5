package main

// C20: the library only reads. Effect analysis over every function reference
// in the module, following statically bound calls into dependencies.

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// effectOf classifies an external function as an outside effect ("" = none).
func effectOf(fn *ssa.Function) string {
	if fn.Pkg == nil && fn.Object() == nil {
		return ""
	}
	var path string
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		path = fn.Object().Pkg().Path()
	} else if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	}
	name := fn.Name()
	recv := ""
	if r := fn.Signature.Recv(); r != nil {
		if n, ok := derefT(r.Type()).(*types.Named); ok {
			recv = n.Obj().Name()
		}
	}
	switch path {
	case "os":
		if recv == "File" {
			switch name {
			case "Read", "ReadAt", "Seek", "Close", "Stat", "Name", "Fd", "ReadDir", "Readdir", "Readdirnames", "SyscallConn", "ReadFrom", "WriteTo":
				if name == "ReadFrom" {
					return "writes to a file"
				}
				return ""
			}
			return "modifies a file (os.File." + name + ")"
		}
		if recv != "" {
			return ""
		}
		switch name {
		case "Exit":
			return "terminates the process"
		case "Open", "Stat", "Lstat", "Getenv", "LookupEnv", "Getpagesize", "IsNotExist", "IsExist", "IsPermission", "NewSyscallError", "Getwd", "Getuid", "Getpid", "ReadFile", "ReadDir", "DirFS", "Readlink", "Environ", "IsPathSeparator", "IsTimeout", "SameFile", "Hostname", "TempDir", "UserHomeDir", "UserCacheDir", "UserConfigDir", "ExpandEnv", "Expand", "Executable", "Getppid", "Geteuid", "Getgid", "Getegid":
			return ""
		}
		if fn.Object() == nil || !fn.Object().Exported() {
			return ""
		}
		return "calls os." + name
	case "syscall":
		switch name {
		case "Write", "Unlink", "Rename", "Mkdir", "Rmdir", "Kill", "Exit", "Exec", "ForkExec", "Setenv", "Chmod", "Chown", "Ftruncate", "Socket", "Connect":
			return "calls syscall." + name
		}
		return ""
	case "os/exec", "os/signal", "net", "net/http", "log", "log/slog", "log/syslog", "os/user", "plugin", "io/ioutil", "testing", "flag":
		if path == "io/ioutil" && (name == "ReadAll" || name == "NopCloser" || name == "ReadFile") {
			return ""
		}
		if name == "init" || fn.Object() == nil || !fn.Object().Exported() {
			return ""
		}
		return "calls " + path + "." + name
	case "fmt":
		switch name {
		case "Print", "Printf", "Println", "Scan", "Scanf", "Scanln":
			return "writes to or reads from a standard stream (fmt." + name + ")"
		}
	case "runtime":
		switch name {
		case "Goexit", "LockOSThread", "SetCPUProfileRate", "GC", "SetBlockProfileRate", "SetMutexProfileFraction", "Breakpoint":
			return "changes process-wide settings (runtime." + name + ")"
		}
	case "runtime/debug":
		if strings.HasPrefix(name, "Set") || name == "FreeOSMemory" || name == "PrintStack" {
			return "changes process-wide settings (debug." + name + ")"
		}
	case "github.com/spf13/afero":
		switch recv {
		case "":
			switch name {
			case "WriteFile", "WriteReader", "SafeWriteReader", "TempFile", "TempDir", "Symlink":
				return "writes files (afero." + name + ")"
			}
		}
	case "math/rand":
		if name == "Seed" && recv == "" {
			return "reseeds the process-wide random source"
		}
	}
	return ""
}

var aferoRead = map[string]bool{"Open": true, "Stat": true, "Name": true, "LstatIfPossible": true}
var fileRead = map[string]bool{"Read": true, "ReadAt": true, "Seek": true, "Close": true, "Stat": true, "Name": true, "Readdir": true, "Readdirnames": true}

func c20(c *Check) {
	p := c.P
	c.rule("no function of the module references (calls, or uses as a value), directly or through statically bound calls in its dependencies, an operation that creates, modifies or removes files, writes to standard streams or logs, starts processes or network activity, changes process-wide settings or ends the process; on file systems only Open/Stat are used and on files only read operations; only the name parameter and names built from it are opened; no other package's variables are assigned")
	memo := map[*ssa.Function]string{}
	state := map[*ssa.Function]int{}
	var eff func(fn *ssa.Function, d int) string
	eff = func(fn *ssa.Function, d int) string {
		if e := effectOf(fn); e != "" {
			return e
		}
		if state[fn] != 0 || d > 40 {
			return memo[fn]
		}
		state[fn] = 1
		if fn.Pkg != nil {
			switch pk := fn.Pkg.Pkg.Path(); {
			case pk == "os" || pk == "runtime" || pk == "syscall" || pk == "reflect" || pk == "sync" || strings.HasPrefix(pk, "internal/") || strings.HasPrefix(pk, "crypto/") || strings.HasPrefix(pk, "runtime/"):
				return ""
			}
		}
		live := constReach(fn)
		for _, b := range fn.Blocks {
			if !live[b] {
				continue
			}
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && !p.inModule(g) {
						if e := eff(g, d+1); e != "" {
							memo[fn] = e + " via " + g.String()
							return memo[fn]
						}
					}
				}
			}
		}
		return ""
	}
	refs := 0
	pkgsSeen := map[string]bool{}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch x := (*op).(type) {
					case *ssa.Function:
						if p.inModule(x) && x.Synthetic == "" {
							continue
						}
						refs++
						if x.Pkg != nil {
							pkgsSeen[x.Pkg.Pkg.Path()] = true
						}
						if x.Name() == "init" && x.Synthetic != "" {
							continue // initialisers of imported packages
						}
						e := eff(x, 0)
						if fnFull(x) == "runtime.GOMAXPROCS" {
							if ci, ok := in.(ssa.CallInstruction); ok && len(ci.Common().Args) == 1 {
								if k, ok := ci.Common().Args[0].(*ssa.Const); ok && constant.Sign(k.Value) <= 0 {
									continue // query only
								}
							}
							e = "changes process-wide settings (GOMAXPROCS)"
						}
						if e != "" {
							c.bad("effect:"+p.fname(fn)+":"+fnFull(x), "%s: %s uses %s, which %s", p.ipos(in), p.fname(fn), fnFull(x), e)
						}
					case *ssa.Builtin:
						if x.Name() == "print" || x.Name() == "println" {
							c.bad("effect:"+p.fname(fn)+":print", "%s: %s writes to standard error with %s", p.ipos(in), p.fname(fn), x.Name())
						}
					case *ssa.Global:
						if !p.isModPkg(x.Pkg.Pkg) {
							n := x.Pkg.Pkg.Path() + "." + x.Name()
							if n == "os.Stdout" || n == "os.Stderr" || n == "os.Stdin" || n == "os.Args" {
								c.bad("stream:"+p.fname(fn)+":"+n, "%s: %s uses %s", p.ipos(in), p.fname(fn), n)
							}
							if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(x) && fn.Synthetic == "" {
								c.bad("assign:"+p.fname(fn)+":"+n, "%s: %s assigns another package's variable %s", p.ipos(in), p.fname(fn), n)
							}
						}
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if cc.IsInvoke() {
					refs++
					nt, _ := cc.Value.Type().(*types.Named)
					if nt == nil || nt.Obj().Pkg() == nil {
						continue
					}
					owner := nt.Obj().Pkg().Path() + "." + nt.Obj().Name()
					m := cc.Method.Name()
					switch owner {
					case "github.com/spf13/afero.Fs":
						c.count("file system calls", 1)
						if m == "OpenFile" {
							if k, ok := cc.Args[1].(*ssa.Const); ok && constant.Sign(k.Value) == 0 {
								continue
							}
						}
						if !aferoRead[m] {
							c.bad("fs:"+p.fname(fn)+":"+m, "%s: %s calls %s.%s, which is not a read operation", p.ipos(in), p.fname(fn), owner, m)
						}
					case "github.com/spf13/afero.File":
						c.count("file calls", 1)
						if !fileRead[m] {
							c.bad("file:"+p.fname(fn)+":"+m, "%s: %s calls %s.%s, which is not a read operation", p.ipos(in), p.fname(fn), owner, m)
						}
					case "log/slog.Handler", "net.Conn", "net.Listener":
						c.bad("effect:"+p.fname(fn)+":"+m, "%s: %s calls %s.%s", p.ipos(in), p.fname(fn), owner, m)
					}
					continue
				}
			}
		}
	}
	// what is opened derives from the caller's name
	g := p.cg()
	opens := 0
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				n := staticName(cc)
				var nameArg ssa.Value
				if cc.IsInvoke() && strings.HasPrefix(n, "(github.com/spf13/afero.Fs).") {
					nameArg = cc.Args[0]
				} else if n == "os.Open" || n == "os.ReadFile" || n == "os.Stat" || n == "os.Lstat" || n == "os.ReadDir" || n == "os.DirFS" {
					nameArg = cc.Args[0]
				}
				if nameArg == nil {
					continue
				}
				opens++
				if !g.nameDerived(nameArg, map[ssa.Value]bool{}) {
					c.bad("open:"+p.fname(fn), "%s: %s opens a path that is not built from the caller's archive name", p.ipos(in), p.fname(fn))
				}
			}
		}
	}
	c.count("external references checked", refs)
	c.count("functions", len(p.funcs))
	c.count("dependency functions followed", len(state))
	c.count("paths opened", opens)
	var ps []string
	for k := range pkgsSeen {
		ps = append(ps, k)
	}
	sort.Strings(ps)
	c.sample("packages referenced: %s", strings.Join(ps, " "))
	c.need("external references checked", 150)
	c.need("paths opened", 1)
	c.assume("functions of dependencies reached only through interfaces or function values (decoders, io) have no outside effects")
}

// nameDerived: every non-constant component of the string comes from string
// parameters of exported functions (through string functions).
func (g *CG) nameDerived(v ssa.Value, seen map[ssa.Value]bool) bool {
	found := false
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.Parameter:
			fn := x.Parent()
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return true
			}
			if len(g.callers[fn]) == 0 {
				found = true
				return true
			}
			ok := true
			for _, cs := range g.callers[fn] {
				if !walk(cs.in.Common().Args[paramIndex(x)]) {
					ok = false
				}
			}
			return ok
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !walk(e) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			return walk(x.X) && walk(x.Y)
		case *ssa.Convert:
			return walk(x.X)
		case *ssa.MakeInterface:
			return walk(x.X)
		case *ssa.ChangeType:
			return walk(x.X)
		case *ssa.Extract:
			return walk(x.Tuple)
		case *ssa.FreeVar, *ssa.UnOp:
			if u, ok := v.(*ssa.UnOp); ok {
				if al, ok := u.X.(*ssa.Alloc); ok {
					for _, r := range *al.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) && !walk(s.Val) {
							return false
						}
					}
					return true
				}
				if ia, ok := u.X.(*ssa.IndexAddr); ok {
					return walk(ia.X)
				}
				if _, ok := u.X.(*ssa.Global); ok {
					return false
				}
			}
			if fv, ok := v.(*ssa.FreeVar); ok {
				par := fv.Parent().Parent()
				for i, f := range fv.Parent().FreeVars {
					if f != fv || par == nil {
						continue
					}
					for _, b := range par.Blocks {
						for _, in := range b.Instrs {
							if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fv.Parent()) {
								if !walk(mc.Bindings[i]) {
									return false
								}
							}
						}
					}
				}
				return true
			}
			return false
		case *ssa.Alloc:
			for _, r := range *x.Referrers() {
				switch s := r.(type) {
				case *ssa.Store:
					if s.Addr == ssa.Value(x) && !walk(s.Val) {
						return false
					}
				case *ssa.IndexAddr:
					for _, r2 := range *s.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && !walk(st.Val) {
							return false
						}
					}
				}
			}
			return true
		case *ssa.Slice:
			return walk(x.X)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				_ = b
				return true
			}
			if cs := g.callees(x); len(cs) > 0 {
				for _, f := range cs {
					for _, b := range f.Blocks {
						if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
							for _, res := range r.Results {
								if bt, ok := res.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 && !walk(res) {
									return false
								}
							}
						}
					}
				}
				return true
			}
			n := staticName(&x.Call)
			switch {
			case strings.HasPrefix(n, "strings."), strings.HasPrefix(n, "path."), strings.HasPrefix(n, "path/filepath."), strings.HasPrefix(n, "strconv."), strings.HasPrefix(n, "fmt.Sprint"):
				for _, a := range x.Call.Args {
					if !walk(a) {
						return false
					}
				}
				return true
			}
			return false
		}
		return false
	}
	return walk(v) && found
}

// constReach: blocks reachable when branches on constants are resolved.
func constReach(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	m := map[*ssa.BasicBlock]bool{}
	if len(fn.Blocks) == 0 {
		return m
	}
	w := []*ssa.BasicBlock{fn.Blocks[0]}
	if fn.Recover != nil {
		w = append(w, fn.Recover)
	}
	for len(w) > 0 {
		b := w[len(w)-1]
		w = w[:len(w)-1]
		if m[b] {
			continue
		}
		m[b] = true
		if len(b.Instrs) > 0 {
			if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if k, ok := i.Cond.(*ssa.Const); ok && k.Value != nil {
					if constant.BoolVal(k.Value) {
						w = append(w, b.Succs[0])
					} else {
						w = append(w, b.Succs[1])
					}
					continue
				}
			}
		}
		w = append(w, b.Succs...)
	}
	return m
}
