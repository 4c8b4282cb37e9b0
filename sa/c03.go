package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C03", "path analysis of the driver: error paths end the process with output and status; must-precede (dominance across calls) of validation and compilation before generation; value-graph provenance of what is generated", checkC03)
	register("C32", "interprocedural flow of every warning to a print on all paths", checkC32)
}

// exitRule follows a non-nil error in the driver: it must be printed to
// standard error, then the process ends with a non-zero status, and nothing
// is compiled or generated in between.
type exitRule struct {
	w     *World
	memo  map[string]string
	depth int
}

func (x *exitRule) onExit(fn *ssa.Function) func(st *efState, i ssa.Instruction) (bool, string) {
	return func(st *efState, i ssa.Instruction) (bool, string) {
		switch v := i.(type) {
		case *ssa.Panic:
			return false, "ends in a panic instead of an error message"
		case *ssa.Return:
			for _, r := range v.Results {
				if st.taint[r] {
					return true, ""
				}
			}
			if fn.Name() == "main" && fn.Parent() == nil && fn.Signature.Recv() == nil {
				return false, "ends main normally (status 0)"
			}
			return false, "returns without the error"
		case ssa.CallInstruction:
			n := callName(v)
			c := v.Common()
			switch {
			case n == "os.Exit":
				if !st.flags["printed"] {
					return false, "ends the process without printing the error"
				}
				if k, ok := constInt(c.Args[0]); ok && k == 0 {
					return false, "ends the process with status 0"
				}
				return true, ""
			case strings.HasPrefix(n, "log.Fatal"):
				return true, ""
			case strings.HasPrefix(n, "fmt.Fprint") && toStderr(c.Args[0]):
				if x.argTainted(st, c.Args[1:]) {
					st.flags["printed"] = true
				}
			case strings.HasPrefix(n, "log.Print"):
				if x.argTainted(st, c.Args) {
					st.flags["printed"] = true
				}
			case n == "(*os.File).WriteString":
				if toStderr(c.Args[0]) && x.argTainted(st, c.Args[1:]) {
					st.flags["printed"] = true
				}
			}
			if isGenerateCall(x.w, v) {
				return false, "goes on to generate code"
			}
			f := c.StaticCallee()
			if f == nil {
				if mc := closureOf(c.Value); mc != nil {
					f = mc.Fn.(*ssa.Function)
				}
			}
			if f != nil && x.w.InRepo(f) && (x.w.RelPkg(f) == "" || x.w.RelPkg(f) == "generator") && f.Blocks != nil && x.depth < 6 {
				switch x.summary(f, st, c.Args, st.flags["printed"]) {
				case "exits":
					return true, ""
				case "prints":
					st.flags["printed"] = true
				}
			}
		}
		return false, ""
	}
}

func (x *exitRule) argTainted(st *efState, as []ssa.Value) bool {
	for _, a := range as {
		if st.taint[a] || isAlloc(rootOf(a)) && st.taint[rootOf(a)] {
			return true
		}
	}
	return false
}

// summary of a driver helper called with the error: "exits", "prints" or "".
func (x *exitRule) summary(f *ssa.Function, st *efState, args []ssa.Value, printed bool) string {
	t := map[ssa.Value]bool{}
	for k, a := range args {
		if k < len(f.Params) && (st.taint[a] || isAlloc(rootOf(a)) && st.taint[rootOf(a)]) {
			t[f.Params[k]] = true
		}
	}
	x.depth++
	defer func() { x.depth-- }()
	run := func(retOK bool, needPrint bool) string {
		ef := newErrFlow(x.w)
		ef.strict = true
		inner := x.onExit(f)
		first := true
		ef.onExit = func(s *efState, i ssa.Instruction) (bool, string) {
			if first && printed {
				s.flags["printed"] = true
			}
			first = false
			if _, ok := i.(*ssa.Return); ok {
				if retOK && s.flags["printed"] {
					return true, ""
				}
				return false, "returns"
			}
			return inner(s, i)
		}
		bad, _ := ef.lost(f, f.Blocks[0], 0, t)
		return bad
	}
	if run(false, true) == "" {
		return "exits"
	}
	if len(t) > 0 && run(true, true) == "" {
		return "prints"
	}
	return ""
}

func toStderr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.UnOp:
			if g, ok := x.X.(*ssa.Global); ok {
				return g.String() == "os.Stderr"
			}
		}
		return false
	}
}

func isGenerateCall(w *World, ci ssa.CallInstruction) bool {
	c := ci.Common()
	if c.IsInvoke() {
		return c.Method.Name() == "Generate" && strings.HasSuffix(typeName(c.Value.Type()), "generator.Generator")
	}
	f := c.StaticCallee()
	return f != nil && w.RelPkg(f) == "generator" && f.Name() == "Generate"
}

func driverFuncs(w *World) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range sortedFns(w.CG().Reach(w.SSA[""].Func("main"))) {
		if w.InRepo(fn) && w.RelPkg(fn) == "" && fn.Synthetic == "" {
			out = append(out, fn)
		}
	}
	return out
}

func checkC03(w *World, r *Report) {
	r.Explain = "In package main (and helpers it is split into) every call that can fail was followed under a non-nil error: each path must print that error to os.Stderr and then leave through os.Exit with a non-zero status, without compiling or generating first. The generation call must be preceded, on every path from main, by target selection, validation of -signext and -unroll, and compilation, and must receive exactly the units returned by that compilation and the validated options."
	x := &exitRule{w: w, memo: map[string]string{}}
	fns := driverFuncs(w)
	var gens, compiles []ssa.CallInstruction
	compile := w.Fn("compiler", "", "Compile")
	for _, fn := range fns {
		for _, f := range fallibleCalls(w, fn, false) {
			c := "main." + fn.Name() + " <- " + shortCallee(f.call)
			where := w.Pos(instrPos(f.call))
			if f.val == nil || noUses(f.val) {
				r.Bad("error-exits", c, where, "the error is ignored")
				continue
			}
			b, i := posAfter(f.val)
			ef := newErrFlow(w)
			ef.strict = true
			ef.onExit = x.onExit(fn)
			bad, at := ef.lost(fn, b, i, map[ssa.Value]bool{f.val: true})
			if bad != "" {
				if at != nil {
					where = w.Pos(instrPos(at))
				}
				r.Bad("error-exits", c, where, "a path on which this call failed "+bad)
			} else {
				r.OK("error-exits", c)
			}
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if isGenerateCall(w, ci) {
					gens = append(gens, ci)
				}
				if f := ci.Common().StaticCallee(); f != nil && w.RelPkg(f) == "compiler" {
					if f == compile {
						compiles = append(compiles, ci)
					}
				}
			}
		}
	}
	r.Floor("error-exits", 4)
	r.Check(len(gens) > 0, "order", "generation call", "main.go", "main never calls a generator")
	r.Check(len(compiles) > 0, "order", "compilation call", "main.go", "main never calls the compiler")
	steps := map[string]*ssa.Function{
		"target selection": w.Fn("generator", "", "GetGenerator"), "-signext validation": w.Fn("generator/gen", "", "SignExtMethod"),
		"-unroll validation": w.Fn("generator/gen", "", "LoopUnroll"), "compilation": compile,
	}
	for _, g := range gens {
		for _, k := range sortedKeys(steps) {
			if steps[k] == nil {
				r.Bad("order", k, "-", "function not found")
				continue
			}
			p := newPrecede(w, callEvent(steps[k]))
			r.Check(p.Before(g), "order", k+" before generation", w.Pos(instrPos(g)), "there is a path to the generator on which "+k+" has not happened")
		}
		checkGenerateArgs(w, r, g, compile)
	}
	for _, c := range compiles {
		p := newPrecede(w, callEvent(steps["target selection"]))
		r.Check(p.Before(c), "order", "target selection before compilation", w.Pos(instrPos(c)), "the schema is compiled before the target is known to exist")
	}
	checkCompileResult(w, r, compile)
}

// checkGenerateArgs: the context handed to the generator carries the compiled units.
func checkGenerateArgs(w *World, r *Report, g ssa.CallInstruction, compile *ssa.Function) {
	e := w.vx
	e.NoInline[compile] = true
	defer delete(e.NoInline, compile)
	found := false
	e.Traverse(e.Root(w.SSA[""].Func("main")), func(fn *ssa.Function) bool { return w.RelPkg(fn) == "" || w.RelPkg(fn) == "generator" }, func(s *Site) {
		if s.Instr != g.(ssa.Instruction) {
			return
		}
		found = true
		ok := false
		var units *X
		for _, a := range g.Common().Args {
			x := e.Val(s.Env, a)
			x.Walk(func(y *X) {
				if y.Op == "kv" && y.Lit == "Units" {
					units = y.Args[0]
				}
			})
			if units == nil && strings.Contains(typeName(a.Type()), "CompilationUnit") {
				units = x
			}
		}
		if units != nil && units.Op == "extract" && units.Lit == "0" && units.Args[0].Op == "call" && units.Args[0].Fn == compile {
			ok = true
		}
		r.Check(ok, "provenance", "units given to the generator", w.Pos(instrPos(g)), "the generator does not receive exactly the units the compiler returned")
		for _, ux := range []*X{units} {
			if ux == nil {
				continue
			}
			ux.Walk(func(y *X) {
				if y.Op == "call" && y.Fn == compile {
					checkInputArg(w, r, y.Args[0], s, g)
				}
			})
		}
	})
	r.Check(found, "provenance", "generation reached from main", w.Pos(instrPos(g)), "the generation call is not reached from main")
}

// checkInputArg: the compiled file is the only positional argument.
func checkInputArg(w *World, r *Report, in *X, s *Site, g ssa.CallInstruction) {
	isArgs := func(x *X) bool { return x.Op == "call" && strings.HasSuffix(x.Lit, "flag.Args") }
	isArg0 := in.Op == "index" && isArgs(in.Args[0]) && in.Args[1].Lit == "0" ||
		in.Op == "call" && strings.HasSuffix(in.Lit, "flag.Arg") && len(in.Args) == 1 && in.Args[0].Lit == "0"
	r.Check(isArg0, "provenance", "compiled file", w.Pos(instrPos(g)), "the compiled file is not the first positional argument but "+in.String())
}

// checkCompileResult: the compiler entry point reports the error of the file it compiles.
func checkCompileResult(w *World, r *Report, compile *ssa.Function) {
	if compile == nil {
		return
	}
	n := 0
	for _, fn := range sortedFns(staticReach(w, compile)) {
		if w.RelPkg(fn) != "compiler" {
			continue
		}
		for _, f := range fallibleCalls(w, fn, false) {
			c := fnName(fn) + " <- " + shortCallee(f.call)
			if f.val == nil || noUses(f.val) {
				if cannotFail(w, f.call) || addedBefore(w, f.call) {
					continue
				}
				r.Bad("compile-error", c, w.Pos(instrPos(f.call)), "the error is ignored, so a rejected schema would be generated")
				continue
			}
			n++
			checkErrLost(w, r, "compile-error", c, fn, f.val)
		}
	}
	r.Floor("compile-error", 8)
}

// ---------------------------------------------------------------- warnings

func checkC32(w *World, r *Report) {
	r.Explain = "Every call that returns a warning was followed under a non-nil warning: it must be returned as the warning, joined to an accumulator that is, or, in the driver, printed to standard error before the process can end. Accumulator fields keep what they hold, every visitor's accumulated warnings are collected after it ran whether or not it failed, and every warning that is built is handed on."
	fns := sortedFns(w.ToolFuncs())
	for _, fn := range fns {
		if !w.InRepo(fn) || w.RelPkg(fn) == "parser" || fn.Synthetic != "" {
			continue
		}
		main := w.RelPkg(fn) == ""
		for _, f := range warningSources(w, fn) {
			c := fnName(fn) + " <- " + f.name
			where := w.Pos(instrPos(f.at))
			if f.val == nil || noUses(f.val) {
				r.Bad("warning-discarded", c, where, "the warning is discarded")
				continue
			}
			b, i := posAfter(f.val)
			ef := newErrFlow(w)
			ef.needWarn = !main
			if main {
				ef.strict = true
				ef.onExit = func(st *efState, ins ssa.Instruction) (bool, string) {
					ci, ok := ins.(ssa.CallInstruction)
					if !ok {
						return false, ""
					}
					n := callName(ci)
					x := &exitRule{w: w}
					if strings.HasPrefix(n, "fmt.Fprint") && toStderr(ci.Common().Args[0]) && x.argTainted(st, ci.Common().Args[1:]) {
						return true, ""
					}
					if n == "os.Exit" {
						return false, "ends the process before the warning is printed"
					}
					if cf := ci.Common().StaticCallee(); cf != nil && w.InRepo(cf) && w.RelPkg(cf) == "" && x.argTainted(st, ci.Common().Args) {
						if s := x.summaryWarn(cf, st, ci.Common().Args); s {
							return true, ""
						}
					}
					return false, ""
				}
			}
			bad, at := ef.lost(fn, b, i, map[ssa.Value]bool{f.val: true})
			if bad != "" {
				if at != nil {
					where = w.Pos(instrPos(at))
				}
				r.Bad("warning-path", c, where, "a path on which there is a warning "+bad)
			} else {
				r.OK("warning-path", c)
			}
		}
		checkAccumulatorFields(w, r, fn, "TopLevelWarning")
	}
	checkJoin(w, r, "definition", "TopLevelWarningsJoin")
	checkVisitorWarnings(w, r)
	checkGeneratorWarnings(w, r)
	r.Floor("warning-path", 30)
	r.Floor("accumulator", 1)
	r.Floor("collected", 2)
	r.Floor("generator-warning", 9)
}

func (x *exitRule) summaryWarn(f *ssa.Function, st *efState, args []ssa.Value) bool {
	t := map[ssa.Value]bool{}
	for k, a := range args {
		if k < len(f.Params) && (st.taint[a] || isAlloc(rootOf(a)) && st.taint[rootOf(a)]) {
			t[f.Params[k]] = true
		}
	}
	ef := newErrFlow(x.w)
	ef.strict = true
	ef.onExit = func(s *efState, i ssa.Instruction) (bool, string) {
		if ci, ok := i.(ssa.CallInstruction); ok {
			if strings.HasPrefix(callName(ci), "fmt.Fprint") && toStderr(ci.Common().Args[0]) && x.argTainted(s, ci.Common().Args[1:]) {
				return true, ""
			}
		}
		return false, ""
	}
	bad, _ := ef.lost(f, f.Blocks[0], 0, t)
	return bad == ""
}

type warnSrc struct {
	val  ssa.Value
	at   ssa.Instruction
	name string
}

func isWarnType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && strings.Contains(n.Obj().Name(), "Warning") && isErrorT(t)
}

// warningSources: calls returning warnings and warnings built here.
func warningSources(w *World, fn *ssa.Function) []warnSrc {
	var out []warnSrc
	for _, f := range fallibleCalls(w, fn, true) {
		out = append(out, warnSrc{f.val, f.call.(ssa.Instruction), shortCallee(f.call)})
	}
	if strings.HasSuffix(fn.Name(), "WarningsJoin") || w.RelPkg(fn) == "definition" {
		return out
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			al, ok := i.(*ssa.Alloc)
			if ok && al.Heap && isWarnType(al.Type()) {
				if _, isStruct := deref(al.Type()).Underlying().(*types.Struct); isStruct {
					out = append(out, warnSrc{al, al, "new " + typeName(deref(al.Type()))})
				}
			}
		}
	}
	return out
}

// checkVisitorWarnings: a visitor with a warning accumulator has it read after
// it ran, and what is read is handed on.
func checkVisitorWarnings(w *World, r *Report) {
	for _, fn := range sortedFns(w.ToolFuncs()) {
		if !w.InRepo(fn) || fn.Synthetic != "" || w.RelPkg(fn) == "parser" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				al, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				// construction of a visitor by a constructor of this repository
				f := al.Call.StaticCallee()
				if f == nil || !w.InRepo(f) || al.Referrers() == nil {
					continue
				}
				fi := warnField(al.Type())
				if fi < 0 {
					continue
				}
				ran := false
				for _, u := range *al.Referrers() {
					if mi, ok := u.(*ssa.MakeInterface); ok && mi.Referrers() != nil {
						for _, u2 := range *mi.Referrers() {
							if isAccept(u2) {
								ran = true
							}
						}
					}
				}
				if !ran {
					continue
				}
				c := fnName(fn) + " " + typeName(al.Type())
				// every Return reachable after the visitor ran must be preceded by a read of the field that is handed on
				var loads []ssa.Value
				for _, u := range *al.Referrers() {
					if fa, ok := u.(*ssa.FieldAddr); ok && fa.Field == fi {
						for _, u2 := range *fa.Referrers() {
							if ld, ok := u2.(*ssa.UnOp); ok {
								loads = append(loads, ld)
							}
						}
					}
				}
				if len(loads) == 0 {
					r.Bad("collected", c, w.Pos(al.Pos()), "the warnings this visitor accumulates are never read")
					continue
				}
				// the run of the visitor
				bad := ""
				for _, u := range *al.Referrers() {
					mi, ok := u.(*ssa.MakeInterface)
					if !ok {
						continue
					}
					for _, u2 := range *mi.Referrers() {
						if isAccept(u2) {
							ci := u2.(ssa.CallInstruction)
							if at := reachesReturnWithout(ci.(ssa.Instruction), loads); at != nil {
								bad = w.Pos(instrPos(at))
							}
						}
					}
				}
				if bad != "" {
					r.Bad("collected", c, bad, "a return is reachable after this visitor ran without its warnings having been read")
					continue
				}
				for _, ld := range loads {
					bb, ii := posAfter(ld)
					ef := newErrFlow(w)
					ef.needWarn = true
					if bad, at := ef.lost(fn, bb, ii, map[ssa.Value]bool{ld: true}); bad != "" {
						p := "-"
						if at != nil {
							p = w.Pos(instrPos(at))
						}
						r.Bad("collected", c, p, "a path on which the visitor accumulated a warning "+bad)
					} else {
						r.OK("collected", c)
					}
				}
			}
		}
	}
}

func warnField(t types.Type) int {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if n := namedOf(st.Field(i).Type()); n != nil && n.Obj().Name() == "TopLevelWarning" && !st.Field(i).Anonymous() {
			return i
		}
	}
	return -1
}

func reachesReturnWithout(from ssa.Instruction, stops []ssa.Value) ssa.Instruction {
	stop := map[ssa.Instruction]bool{}
	for _, s := range stops {
		stop[s.(ssa.Instruction)] = true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) ssa.Instruction
	walk = func(b *ssa.BasicBlock, i int) ssa.Instruction {
		for ; i < len(b.Instrs); i++ {
			if stop[b.Instrs[i]] {
				return nil
			}
			if ret, ok := b.Instrs[i].(*ssa.Return); ok {
				return ret
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if x := walk(s, 0); x != nil {
					return x
				}
			}
		}
		return nil
	}
	return walk(from.Block(), instrIndex(from)+1)
}

func isAccept(i ssa.Instruction) bool {
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	c := ci.Common()
	if c.IsInvoke() {
		return c.Method.Name() == "Accept" || strings.HasPrefix(c.Method.Name(), "Visit")
	}
	f := c.StaticCallee()
	return f != nil && (f.Name() == "Accept" || strings.HasPrefix(f.Name(), "Visit"))
}

// checkGeneratorWarnings: what a generator accumulated is what it returns.
func checkGeneratorWarnings(w *World, r *Report) {
	gi := w.NamedType("generator", "Generator")
	if gi == nil {
		r.Bad("generator-warning", "generator.Generator", "-", "interface not found")
		return
	}
	it := gi.Underlying().(*types.Interface)
	for k := 0; k < it.NumMethods(); k++ {
		for _, fn := range w.CG().ImplementationsOf(it.Method(k)) {
			if fn.Synthetic != "" || fn.Signature.Recv() == nil || fn.Signature.Results().Len() != 2 {
				continue
			}
			fi := warnField(fn.Signature.Recv().Type())
			if fi < 0 {
				r.OK("generator-warning", fnName(fn), "accumulates nothing")
				continue
			}
			for _, b := range fn.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				v := ret.Results[1]
				for {
					if c, ok := v.(*ssa.ChangeInterface); ok {
						v = c.X
						continue
					}
					break
				}
				good := false
				if ld, ok := v.(*ssa.UnOp); ok {
					if fa, ok := ld.X.(*ssa.FieldAddr); ok && fa.Field == fi && namedOf(fa.X.Type()) == namedOf(fn.Signature.Recv().Type()) {
						good = !callBetween(w, ld, ret)
					}
				}
				r.Check(good, "generator-warning", fnName(fn), w.Pos(instrPos(ret)), "returns without the warnings accumulated while generating")
			}
		}
	}
}

// callBetween: a repository function may run after a and before the return.
func callBetween(w *World, a, to ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int, called bool) bool
	walk = func(b *ssa.BasicBlock, i int, called bool) bool {
		for ; i < len(b.Instrs); i++ {
			if b.Instrs[i] == to {
				return called
			}
			if ci, ok := b.Instrs[i].(ssa.CallInstruction); ok {
				for _, g := range w.CG().Callees(ci) {
					if w.InRepo(g) && w.RelPkg(g) != "definition" && w.RelPkg(g) != "util" {
						called = true
					}
				}
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0, called) {
					return true
				}
			}
		}
		return false
	}
	return walk(a.Block(), instrIndex(a)+1, false)
}
