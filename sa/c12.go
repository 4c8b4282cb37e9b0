package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// effects of the operating system the tool may have, by callee
var osReaders = map[string]int{"os.ReadFile": 0, "os.Open": 0, "os.Stat": 0, "os.Lstat": 0}
var osWriters = map[string]int{"os.WriteFile": 0, "os.MkdirAll": 0, "os.Mkdir": 0, "os.Create": 0}
var osNeutral = map[string]bool{"os.Exit": true, "os.Getwd": true, "os.IsNotExist": true, "os.IsExist": true, "os.IsPermission": true,
	"(*os.File).Write": true, "(*os.File).WriteString": true, "(*os.File).Close": true, "(*os.File).Read": true, "(*os.File).Sync": true, "(*os.File).Stat": true, "(*os.File).Name": true,
	"(*os.PathError).Error": true, "(*io/fs.PathError).Error": true}

func effectPkg(p string) bool {
	switch p {
	case "os", "os/exec", "os/signal", "os/user", "syscall", "plugin", "io/ioutil", "net", "net/http", "net/rpc", "net/smtp", "runtime/debug", "testing", "log/syslog", "embed":
		return true
	}
	return strings.HasPrefix(p, "net/") || strings.HasPrefix(p, "golang.org/x/sys")
}

var fsWalk = map[string]bool{"path/filepath.Walk": true, "path/filepath.WalkDir": true, "path/filepath.Glob": true, "io/fs.WalkDir": true, "path/filepath.EvalSymlinks": true}

func checkC12(w *World, r *Report) {
	r.Explain = "Every call to a function of the operating-system packages was enumerated over all functions of the tool and classified. Only reading the file named by a schema file identifier and creating directories or files are allowed; the path of every write, followed back through the calls that lead to it, must be the output path or a join of the output path with a relative name that was checked not to leave it or that is built only from identifiers."
	writers := map[*ssa.Function]bool{}
	for _, fn := range sortedFns(w.ToolFuncs()) {
		if !w.InRepo(fn) {
			continue
		}
		r.OK("function-scanned", fnName(fn))
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					// using an os function as a value hides the call
					for _, op := range i.Operands(nil) {
						if f, ok := (*op).(*ssa.Function); ok && f.Pkg != nil && effectPkg(f.Pkg.Pkg.Path()) {
							r.Bad("os-call", fnName(fn)+" "+extName(f), w.Pos(instrPos(i)), "an operating-system function is used as a value")
						}
					}
					continue
				}
				f := ci.Common().StaticCallee()
				n := callName(ci)
				if fsWalk[n] {
					r.Bad("os-call", fnName(fn)+" "+n, w.Pos(instrPos(i)), "examines files other than the input and its imports")
					continue
				}
				var pkg string
				if f != nil && f.Pkg != nil {
					pkg = f.Pkg.Pkg.Path()
				} else if f != nil && f.Object() != nil && f.Object().Pkg() != nil {
					pkg = f.Object().Pkg().Path()
				}
				if !effectPkg(pkg) || f.Name() == "init" {
					continue
				}
				switch {
				case osNeutral[n]:
					r.OK("os-call", fnName(fn)+" "+n, "no file-system effect of its own")
				case n == "os.OpenFile":
					writers[fn] = true
				case hasKey(osReaders, n):
					checkReadPath(w, r, fn, ci, osReaders[n])
				case hasKey(osWriters, n):
					writers[fn] = true
				default:
					r.Bad("os-call", fnName(fn)+" "+n, w.Pos(instrPos(i)), "calls "+n+", an effect outside reading the schema and writing the output")
				}
			}
		}
	}
	// all functions from which a writer is reached by direct calls
	reach := reverseReach(w, writers)
	var roots []*ssa.Function
	for _, fn := range sortedFns(reach) {
		called := false
		for _, o := range w.Funcs {
			if !reach[o] || o == fn || o.Synthetic != "" {
				continue
			}
			for _, b := range o.Blocks {
				for _, i := range b.Instrs {
					if ci, ok := i.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
						called = true
					}
				}
			}
		}
		if !called && fn.Parent() == nil && fn.Synthetic == "" {
			roots = append(roots, fn)
		}
	}
	nw := 0
	for _, root := range roots {
		e := NewEval(w)
		e.Traverse(e.Root(root), func(f *ssa.Function) bool { return reach[f] }, func(s *Site) {
			ci, ok := s.Instr.(ssa.CallInstruction)
			if !ok {
				return
			}
			n := callName(ci)
			k, isW := osWriters[n]
			if n == "os.OpenFile" {
				isW, k = true, 0
			}
			if !isW {
				return
			}
			nw++
			px := e.Val(s.Env, ci.Common().Args[k])
			construct := fnName(root) + " -> " + n
			if why := containedPath(w, px, s.Guards, n == "os.MkdirAll" || n == "os.Mkdir"); why != "" {
				r.Bad("write-path", construct, w.Pos(instrPos(s.Instr)), why+": "+short(px.String(), 300))
			} else {
				r.OK("write-path", construct, short(px.String(), 160))
			}
		})
	}
	r.Floor("write-path", 8)
	r.Floor("read-path", 2)
	r.Floor("function-scanned", 800)
}

func hasKey[V any](m map[string]V, k string) bool { _, ok := m[k]; return ok }

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func reverseReach(w *World, seed map[*ssa.Function]bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for f := range seed {
		out[f] = true
	}
	for ch := true; ch; {
		ch = false
		for _, fn := range w.Funcs {
			if out[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					if ci, ok := i.(ssa.CallInstruction); ok {
						if c := ci.Common().StaticCallee(); c != nil && out[c] {
							out[fn] = true
							ch = true
						}
					}
					if mc, ok := i.(*ssa.MakeClosure); ok && out[mc.Fn.(*ssa.Function)] {
						out[fn] = true
						ch = true
					}
				}
			}
		}
	}
	return out
}

// checkReadPath: the path read must be the path of a file identifier (the input
// or an import), possibly handed through parameters.
func checkReadPath(w *World, r *Report, fn *ssa.Function, ci ssa.CallInstruction, k int) {
	seen := map[ssa.Value]bool{}
	bad := ""
	var rec func(f *ssa.Function, v ssa.Value, d int)
	rec = func(f *ssa.Function, v ssa.Value, d int) {
		if seen[v] || bad != "" {
			return
		}
		seen[v] = true
		if d > 30 {
			bad = "the origin of the path could not be followed"
			return
		}
		switch x := v.(type) {
		case *ssa.Const:
			if s, ok := constString(x); ok && s == "" {
				return
			}
			bad = "reads a fixed path " + x.String()
		case *ssa.Parameter:
			callers := 0
			for _, o := range w.Funcs {
				for _, b := range o.Blocks {
					for _, i := range b.Instrs {
						c, ok := i.(ssa.CallInstruction)
						if !ok || c.Common().StaticCallee() != f {
							continue
						}
						for pi, p := range f.Params {
							if p == x && pi < len(c.Common().Args) {
								callers++
								rec(o, c.Common().Args[pi], d+1)
							}
						}
					}
				}
			}
			if callers == 0 && !isInputRoot(f) {
				bad = "the path comes from " + fnName(f) + ", which has no caller to supply the input file"
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(f, e, d+1)
			}
		case *ssa.Extract:
			rec(f, x.Tuple, d+1)
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				if strings.HasSuffix(typeName(fa.X.Type()), "FileIdentifer") {
					return
				}
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				for _, u := range *al.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == al {
						rec(f, st.Val, d+1)
					}
				}
				return
			}
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				rec(f, ia.X, d+1)
				return
			}
			bad = "the path is loaded from " + x.X.String()
		case *ssa.Field:
			if strings.HasSuffix(typeName(x.X.Type()), "FileIdentifer") {
				return
			}
			bad = "the path is field " + x.String()
		case *ssa.Call:
			n := callName(x)
			switch n {
			case "path/filepath.Abs", "path/filepath.Clean", "path/filepath.FromSlash":
				rec(f, x.Call.Args[0], d+1)
				return
			case "path/filepath.Join", "strconv.Unquote":
				return // a join of a relative import with the importing file's directory, decided by C05
			case "flag.Args", "flag.Arg":
				return
			}
			if c := x.Call.StaticCallee(); c != nil && w.InRepo(c) && c.Blocks != nil {
				for _, b := range c.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, res := range ret.Results {
							if b, ok := res.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
								rec(c, res, d+1)
							}
						}
					}
				}
				return
			}
			bad = "the path is computed by " + n
		default:
			bad = "the path is " + v.String()
		}
	}
	rec(fn, ci.Common().Args[k], 0)
	c := fnName(fn) + " " + callName(ci)
	if bad != "" {
		r.Bad("read-path", c, w.Pos(instrPos(ci)), "reads a file that is neither the input nor an import: "+bad)
	} else {
		r.OK("read-path", c, "path of a file identifier")
	}
}

func isInputRoot(f *ssa.Function) bool {
	switch f.Name() {
	case "CompileFile", "Compile", "main", "GetFileContent", "GetFileExistingStatus":
		return true
	}
	return false
}

func isOutputPath(x *X) bool {
	return (x.Op == "field") && x.Lit == "OutputPath"
}

// containedPath explains why a written path may lie outside the output path.
func containedPath(w *World, p *X, guards []*X, isDir bool) string {
	switch {
	case isOutputPath(p):
		return ""
	case p.Op == "sel":
		if s := containedPath(w, p.Args[1], append(append([]*X{}, guards...), p.Args[0]), isDir); s != "" {
			return s
		}
		return containedPath(w, p.Args[2], append(append([]*X{}, guards...), Not(p.Args[0])), isDir)
	case p.Op == "anyof":
		for _, a := range p.Args {
			if s := containedPath(w, a, guards, isDir); s != "" {
				return s
			}
		}
		return ""
	case p.Op == "extract" && p.Lit == "0":
		return containedPath(w, p.Args[0], guards, isDir)
	case p.Op == "field" && p.Args[0].Op == "nil":
		return "" // the failed step returned no file identifier; its error is checked
	case p.Op == "str" && p.Lit == "":
		return "" // results of failed steps, guarded by their error
	case p.Op == "call":
		switch p.Lit {
		case "path/filepath.Abs", "path/filepath.Clean", "path/filepath.FromSlash":
			return containedPath(w, p.Args[0], guards, isDir)
		case "path/filepath.Dir":
			if isDir {
				return containedPath(w, p.Args[0], guards, isDir)
			}
		case "path/filepath.Join":
			as := joinArgs(p)
			for len(as) > 1 && isEmptyDir(as[0]) {
				as = as[1:]
			}
			if len(as) == 1 {
				return containedPath(w, as[0], guards, isDir)
			}
			if len(as) == 0 || containedPath(w, as[0], guards, isDir) != "" {
				return "the path does not start at the output path"
			}
			for _, a := range as[1:] {
				if !localName(a, guards) {
					return "the name joined to the output path is not checked to stay below it"
				}
			}
			return ""
		}
	}
	return "the written path is not derived from the output path (" + short(p.String(), 400) + ")"
}

func isEmptyDir(x *X) bool {
	if x.Op == "str" && (x.Lit == "" || x.Lit == ".") {
		return true
	}
	return x.Op == "call" && x.Lit == "path/filepath.Dir" && len(x.Args) == 1 && x.Args[0].Op == "str" && x.Args[0].Lit == ""
}

func joinArgs(p *X) []*X {
	if len(p.Args) == 1 && p.Args[0].Op == "list" {
		return p.Args[0].Args
	}
	return p.Args
}

// localName: a relative name that cannot leave its directory, by construction
// or because the guards say so.
func localName(a *X, guards []*X) bool {
	for _, g := range guards {
		if impliesLocal(g, a) {
			return true
		}
	}
	// Join("/", name) or Clean("/"+name): rooted, so ".." cannot climb
	if a.Op == "call" && a.Lit == "path/filepath.Join" {
		as := joinArgs(a)
		return len(as) > 0 && as[0].Op == "str" && as[0].Lit == "/"
	}
	if a.Op == "call" && a.Lit == "path/filepath.Clean" && a.Args[0].Op == "cat" {
		c := a.Args[0].Args[0]
		return c.Op == "str" && strings.HasPrefix(c.Lit, "/")
	}
	return false
}

func impliesLocal(g, name *X) bool {
	switch g.Op {
	case "call":
		return g.Lit == "path/filepath.IsLocal" && g.Args[0].Has(func(y *X) bool { return y.Key() == name.Key() })
	case "and":
		for _, a := range g.Args {
			if impliesLocal(a, name) {
				return true
			}
		}
	case "or":
		// name empty, or local
		some := false
		for _, a := range g.Args {
			some = some || impliesLocal(a, name)
			if !impliesLocal(a, name) && !(a.Op == "eq0" || a.Has(func(y *X) bool { return y.Op == "str" && y.Lit == "" || strings.Contains(y.Op+y.Lit, "len") })) {
				return false
			}
		}
		return some
	case "not":
		x := g.Args[0]
		if x.Op == "call" && x.Lit == "strings.HasPrefix" && len(x.Args) == 2 && x.Args[1].Op == "str" && strings.HasPrefix(x.Args[1].Lit, "..") {
			return x.Args[0].Has(func(y *X) bool { return y.Op == "call" && y.Lit == "path/filepath.Rel" })
		}
	}
	return false
}
