package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C05", "value-graph and control-flow ordering analysis of the compilation runtime's tables over all call paths", checkC05)
}

type omSite struct {
	*Site
	Method string
	Args   []*X // receiver first
}

// omSites are the operations on ordered tables reached from entry.
func omSites(w *World, entry *Env, inScope func(*ssa.Function) bool, others func(*Site)) []*omSite {
	var out []*omSite
	w.vx.Traverse(entry, func(f *ssa.Function) bool { return omMethod(w, f) == "" && inScope(f) }, func(s *Site) {
		if others != nil {
			others(s)
		}
		ci, ok := s.Instr.(ssa.CallInstruction)
		if !ok {
			return
		}
		f := ci.Common().StaticCallee()
		if f == nil {
			return
		}
		m := omMethod(w, f)
		if m == "" {
			return
		}
		o := &omSite{Site: s, Method: m}
		for _, a := range ci.Common().Args {
			o.Args = append(o.Args, w.vx.Val(s.Env, a))
		}
		out = append(out, o)
	})
	return out
}

// given simplifies x under facts, wherever they occur in it.
func given(x *X, facts ...*X) *X {
	val := map[string]*X{}
	var add func(f *X)
	add = func(f *X) {
		switch f.Op {
		case "and":
			for _, a := range f.Args {
				add(a)
			}
		case "not":
			val[f.Args[0].Key()] = Bool(false)
		case "bool":
		default:
			val[f.Key()] = Bool(true)
			if f.Op == "lt0" {
				val[Not(f).Key()] = Bool(false)
			}
		}
	}
	for _, f := range facts {
		add(f)
	}
	if len(val) == 0 {
		return x
	}
	return Subst(x, func(y *X) *X { return val[y.Key()] })
}

// propagate closes facts under the guards (unit propagation); false when the
// two contradict each other.
func propagate(guards []*X, facts ...*X) ([]*X, bool) {
	all := append([]*X{}, facts...)
	for round := 0; round < 6; round++ {
		n := len(all)
		var next []*X
		for _, g := range guards {
			// each guard is simplified by the facts and by the other literal guards
			h := given(g, all...)
			if h.Op == "bool" {
				if h.Lit == "false" {
					return all, false
				}
				continue
			}
			switch h.Op {
			case "or", "sel":
			default:
				next = append(next, h)
			}
		}
		all = append(all, next...)
		all = dedup(all)
		for _, a := range all {
			na := Not(a)
			for _, b := range all {
				if Eq(na, b) {
					return all, false
				}
			}
		}
		if len(all) == n {
			break
		}
	}
	return all, true
}

// under tells whether the guards entail fact.
func under(guards []*X, fact *X) bool {
	_, ok := propagate(guards, Not(fact))
	return !ok
}

func checkC05(w *World, r *Report) {
	r.Explain = "From the entry point of the compilation runtime, every operation on its tables, every start of the parser and every recursive compilation is collected with its arguments and guards over all call paths. Parsing and recursion must be unreachable when the file is on the stack or done, a file on the stack must yield an error and a done file its unit; the file must be on the stack before its imports are compiled, they must be compiled before anything of the file itself is declared or the file is marked done, and the loop over them must visit all; package names are admitted only when unused; every path used as a key is canonical."
	e := w.vx
	entry := w.Fn("compiler", "CompilationRuntime", "Compile")
	if entry == nil {
		r.Bad("anchor", "CompilationRuntime.Compile", "-", "entry point not found")
		return
	}
	rt := namedOf(entry.Signature.Recv().Type())
	inScope := func(fn *ssa.Function) bool {
		p := w.RelPkg(fn)
		return p == "compiler" || p == "fileio" || p == "definition"
	}
	env := e.Root(entry)
	var recs, parses, accepts, rets []*Site
	var addImports []*Site
	oms := omSites(w, env, inScope, func(s *Site) {
		switch i := s.Instr.(type) {
		case ssa.CallInstruction:
			c := i.Common()
			if f := c.StaticCallee(); f != nil {
				for _, g := range s.Chain {
					if g == f && namedOf2(f) == rt {
						recs = append(recs, s)
					}
				}
				if w.RelPkg(f) == "parser" && startsRule(f) {
					parses = append(parses, s)
				}
				if fnName(f) == "(*definition.CompilationUnit).AddImport" {
					addImports = append(addImports, s)
				}
			}
			if c.IsInvoke() && c.Method.Name() == "Accept" && len(s.Chain) > 0 && namedOf2(s.Instr.Parent()) == rt {
				accepts = append(accepts, s)
			}
		case *ssa.Return:
			rets = append(rets, s)
		}
	})
	// operations on the runtime's own tables
	table := func(x *X) string {
		x = stripConv(x)
		if x.Op == "field" && len(x.Args) == 1 && strings.HasPrefix(x.Args[0].Op, "param") || x.Op == "field" {
			st, ok := rt.Underlying().(*types.Struct)
			if !ok {
				return ""
			}
			for k := 0; k < st.NumFields(); k++ {
				if st.Field(k).Name() == x.Lit && x.Args[0].Has(func(y *X) bool { return strings.Contains(y.Op+y.Lit, "Compile:r") }) || st.Field(k).Name() == x.Lit && x.Args[0].Op != "field" {
					return x.Lit
				}
			}
		}
		return ""
	}
	puts := map[string][]*omSite{}
	removes := map[string][]*omSite{}
	for _, o := range oms {
		t := table(o.Args[0])
		if t == "" {
			continue
		}
		switch o.Method {
		case "Put":
			puts[t] = append(puts[t], o)
		case "Remove":
			removes[t] = append(removes[t], o)
		case "Get", "Has", "MustGet", "Len", "Last", "Values", "Keys", "Entries", "First", "ForEach", "Range":
		default:
			r.Bad("table-op", fnName(o.Instr.Parent())+" "+t+"."+o.Method, w.Pos(instrPos(o.Instr)), "an operation on a compilation table that the analysis does not know")
		}
	}
	stack := ""
	for t := range removes {
		if stack != "" || len(removes) > 1 {
			r.Bad("anchor", "stack", "-", "entries are removed from several compilation tables")
			return
		}
		stack = t
	}
	if stack == "" || len(puts[stack]) == 0 {
		r.Bad("anchor", "stack", "-", "no table of files being compiled was recognised (entries added before and removed after the imports)")
		return
	}
	key := puts[stack][0].Args[1]
	done := ""
	pkgs := ""
	for t, ps := range puts {
		if t == stack {
			continue
		}
		if Eq(ps[0].Args[1], key) {
			done = t
		} else {
			pkgs = t
		}
	}
	if done == "" || pkgs == "" {
		r.Bad("anchor", "tables", "-", "the tables of finished files and of packages were not recognised")
		return
	}
	for t, want := range map[string]int{stack: 1, done: 1, pkgs: 1} {
		r.Check(len(puts[t]) == want, "single-put", t, w.Pos(instrPos(puts[t][0].Instr)), "the table is filled at more than one place")
	}
	tbl := func(t string) *X { return puts[t][0].Args[0] }
	onStack := mk("has", "", tbl(stack), key)
	isDone := mk("has", "", tbl(done), key)
	pk := puts[pkgs][0].Args[1]
	hasPkg := mk("has", "", tbl(pkgs), pk)
	at := func(s *Site) (string, string) { return fnName(s.Instr.Parent()), w.Pos(instrPos(s.Instr)) }
	for _, s := range append(append([]*Site{}, parses...), recs...) {
		c, where := at(s)
		c += " " + callName(s.Instr.(ssa.CallInstruction))
		r.Check(under(s.Guards, Not(onStack)), "cycle-cut", c, where, "a file that is already being compiled can be compiled again")
		r.Check(under(s.Guards, Not(isDone)), "once", c, where, "a file that was already compiled can be compiled again")
	}
	for _, p := range append(append([]*omSite{}, puts[stack]...), puts[done]...) {
		c, where := at(p.Site)
		r.Check(under(p.Guards, Not(onStack)) && under(p.Guards, Not(isDone)), "put-guard", c+" Put", where, "the file is entered into a table without knowing that it is new")
	}
	for _, p := range puts[pkgs] {
		c, where := at(p.Site)
		r.Check(under(p.Guards, Not(hasPkg)), "package-unique", c+" "+pkgs+".Put", where, "a package name is entered without knowing that no other file declared it")
		r.Check(p.Args[1].Has(func(y *X) bool { return y.Op == "field" && strings.HasSuffix(y.Lit, "Package") }), "package-key", c, where, "the key is not the package of the file: "+p.Args[1].String())
	}
	// returns
	nErr, nDone, nSucc, nPkg := 0, 0, 0, 0
	errIdx, unitIdx := -1, -1
	for k := 0; k < entry.Signature.Results().Len(); k++ {
		t := entry.Signature.Results().At(k).Type()
		if typeName(t) == "*definition.CompilationUnit" || namedOf(t) != nil && namedOf(t).Obj().Name() == "CompilationUnit" {
			unitIdx = k
		} else if isErrorIface(t) && errIdx < 0 {
			errIdx = k
		}
	}
	// the function of the runtime that does the work: where Put(stack) and recursion meet
	for _, s := range rets {
		ret := s.Instr.(*ssa.Return)
		fn := ret.Parent()
		if namedOf2(fn) != rt || len(ret.Results) != entry.Signature.Results().Len() {
			continue
		}
		c, where := at(s)
		facts := s.Guards
		unitX, errX := e.Val(s.Env, ret.Results[unitIdx]), e.Val(s.Env, ret.Results[errIdx])
		if errX.Op == "extract" {
			if cl := errX.Args[0]; cl.Op == "call" && cl.Fn != nil && namedOf2(cl.Fn) == rt {
				continue // handed through from a function already looked at
			}
		}
		decided := mentions(facts, onStack) || mentions(facts, isDone) || errX.Has(func(y *X) bool { return Eq(y, onStack) })
		if fs, ok := propagate(facts, onStack); ok && decided {
			nErr++
			ex := given(errX, fs...)
			r.Check(alwaysErr(ex), "cycle-error", c, where, "a file that is being compiled is not answered with an error: "+trimX(ex))
		}
		if fs, ok := propagate(facts, isDone, Not(onStack)); ok && decided {
			nDone++
			ex, ux := given(errX, fs...), given(unitX, fs...)
			r.Check(ex.Op == "nil" && Eq(ux, mk("lookup", "", tbl(done), key)), "shared", c, where, "a file compiled before is not answered with its unit: "+trimX(ux)+" / "+trimX(ex))
		}
		if fs, ok := propagate(facts, hasPkg); ok && (mentions(facts, hasPkg) || errX.Has(func(y *X) bool { return Eq(y, hasPkg) })) {
			nPkg++
			r.Check(alwaysErr(given(errX, fs...)), "package-error", c, where, "a file declaring a package that another file declared is not answered with an error: "+trimX(given(errX, fs...)))
		}
		// success: done must be recorded
		if errX.Op == "nil" && unitX.Op != "nil" && !under(facts, isDone) {
			nSucc++
			for _, p := range append(append([]*omSite{}, puts[done]...), removes[stack]...) {
				r.Check(mustPrecede(p.Site, s), "finish", c+" "+p.Method, where, "a file can succeed without "+p.Method+" on its table")
			}
			for _, p := range puts[done] {
				r.Check(Eq(p.Args[2], unitX), "finish-unit", c, where, "the unit returned is not the one recorded for the file")
			}
		}
	}
	r.Check(nErr > 0 && nDone > 0 && nSucc > 0 && nPkg > 0, "returns", "CompilationRuntime", "-", "the returns answering a cycle, a finished file, a duplicate package and success were not all found")
	for _, p := range removes[stack] {
		c, where := at(p.Site)
		r.Check(Eq(p.Args[1], key), "stack-key", c, where, "a different key is removed from the stack than was entered")
		for _, s := range recs {
			r.Check(!canFollow(p.Site, s), "stack-during-imports", c+" Remove", where, "imports can be compiled after the file has left the stack")
		}
	}
	for _, p := range puts[done] {
		c, where := at(p.Site)
		r.Check(Eq(p.Args[1], key), "done-key", c, where, "finished files are recorded under a different key than is looked up")
		for _, s := range recs {
			r.Check(!canFollow(p.Site, s), "imports-first", c+" Put", where, "imports can be compiled after the file was recorded as finished, so a cycle would be accepted and the order of units would not be topological")
		}
	}
	for _, s := range recs {
		c, where := at(s)
		for _, p := range puts[stack] {
			r.Check(mustPrecede(p.Site, s), "stack-before-imports", c, where, "imports are compiled before the file is known to be in progress")
		}
		for _, p := range puts[pkgs] {
			r.Check(mustPrecede(p.Site, s), "package-before-imports", c, where, "imports are compiled before the package of the file is registered")
		}
	}
	// anything that declares types of the file comes after its imports
	for _, a := range accepts {
		com := a.Instr.(ssa.CallInstruction).Common()
		if !visitorDeclares(w, com) {
			continue
		}
		c, where := at(a)
		for _, s := range recs {
			r.Check(!canFollow(a, s), "declare-after-imports", c, where, "definitions of a file are compiled before one of its imports")
		}
		for _, p := range puts[done] {
			_ = p
		}
		r.OK("declares", c)
	}
	r.Floor("declares", 1)
	// the loop over imports
	for _, s := range recs {
		checkImportLoop(w, r, s, addImports)
	}
	r.Floor("cycle-cut", 2)
	checkAddImport(w, r)
	checkPaths(w, r)
}

func trimX(x *X) string {
	s := x.String()
	if len(s) > 160 {
		s = s[:160] + "…"
	}
	return s
}

func mentions(gs []*X, f *X) bool {
	for _, g := range gs {
		if g.Has(func(y *X) bool { return Eq(y, f) }) {
			return true
		}
	}
	return false
}

// alwaysErr: the value is an error object on every branch.
func alwaysErr(x *X) bool {
	x = stripConv(x)
	switch x.Op {
	case "sel":
		return alwaysErr(x.Args[1]) && alwaysErr(x.Args[2])
	case "new":
		return true
	case "bottom":
		return true
	}
	return false
}

func namedOf2(fn *ssa.Function) *types.Named {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Signature.Recv() == nil {
		return nil
	}
	return namedOf(fn.Signature.Recv().Type())
}

// visitorDeclares: the visitor handed to Accept, or one it creates, calls AddLocalType or AddLocalName.
func visitorDeclares(w *World, com *ssa.CallCommon) bool {
	seenT := map[*types.Named]bool{}
	seenF := map[*ssa.Function]bool{}
	found := false
	var visitT func(n *types.Named)
	var visitF func(f *ssa.Function)
	visitT = func(n *types.Named) {
		if n == nil || seenT[n] {
			return
		}
		seenT[n] = true
		for k := 0; k < n.NumMethods(); k++ {
			if f := w.Prog.FuncValue(n.Method(k)); f != nil {
				visitF(f)
			}
		}
	}
	visitF = func(f *ssa.Function) {
		if f == nil || seenF[f] || !w.InRepo(f) || w.RelPkg(f) == "parser" {
			return
		}
		seenF[f] = true
		if n := fnName(f); n == "(*definition.CompilationUnit).AddLocalType" || n == "(*definition.CompilationUnit).AddLocalName" {
			found = true
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch t := i.(type) {
				case ssa.CallInstruction:
					visitF(t.Common().StaticCallee())
				case *ssa.MakeClosure:
					visitF(t.Fn.(*ssa.Function))
				case *ssa.MakeInterface:
					if n := namedOf(t.X.Type()); n != nil && strings.HasSuffix(n.Obj().Name(), "Visitor") && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/compiler") {
						visitT(n)
					}
				}
			}
		}
	}
	for _, a := range com.Args {
		v := a
		for {
			switch t := v.(type) {
			case *ssa.MakeInterface:
				v = t.X
				continue
			case *ssa.ChangeInterface:
				v = t.X
				continue
			}
			break
		}
		visitT(namedOf(v.Type()))
	}
	return found
}

// checkImportLoop: the loop that compiles imports runs over the whole list the
// import visitor collected, and merges each unit it gets.
func checkImportLoop(w *World, r *Report, s *Site, adds []*Site) {
	e := w.vx
	in, loop, head := enclosingLoop(s)
	where := w.Pos(instrPos(s.Instr))
	c := fnName(s.Instr.Parent())
	if loop == nil {
		r.Bad("all-imports", c, where, "the recursive compilation is not inside a loop over the imports")
		return
	}
	// exits: only through the head, or returning an error
	var exitOK = true
	for b := range loop {
		for _, sc := range b.Succs {
			if !loop[sc] && b != head {
				// an exit: everything reachable must return an error — accept only direct error returns
				if !onlyErrorReturns(sc, 3) {
					exitOK = false
				}
			}
		}
	}
	r.Check(exitOK, "all-imports", c+" exits", where, "the loop over the imports can be left early without an error, so some imports would be skipped")
	lc := loopOf(e, s, in, head)
	if lc == nil {
		r.Bad("all-imports", c, where, "the loop over the imports does not run over a list from its first to its last element")
		return
	}
	r.Check(lc.fromZero && lc.stepOne, "all-imports", c+" range", where, "the loop over the imports does not run from the first to the last element")
	// the argument of the recursion is the element of the list at the loop's index
	arg := e.Val(s.Env, s.Instr.(ssa.CallInstruction).Common().Args[1])
	arg = stripConv(arg)
	r.Check(arg.Op == "index" && Eq(arg.Args[0], lc.list), "all-imports", c+" element", where, "the file compiled is not the element of the list of imports: "+trimX(arg)+" vs "+trimX(lc.list))
	r.Check(lc.list.Has(func(y *X) bool { return y.Op == "field" && strings.Contains(y.Lit, "Imports") }), "all-imports", c+" list", where, "the loop does not run over the imports collected from the file: "+trimX(lc.list))
	// the call is reached in every iteration
	r.Check(everyIteration(loop, head, in.Block()), "all-imports", c+" each", where, "an import can be skipped inside the loop")
	// AddImport(unit)
	ok := false
	for _, a := range adds {
		args := a.Instr.(ssa.CallInstruction).Common().Args
		ux := e.Val(a.Env, args[1])
		if ux.Op != "extract" || !ux.Has(func(y *X) bool { return y.V == s.Instr.(ssa.Value) }) {
			continue
		}
		// guarded only by: no error, unit not nil, loop condition
		extra := ""
		for _, g := range a.Guards {
			if Eq(g, Not(EqX(ux, mk("nil", "")))) {
				continue
			}
			shared := false
			for _, h := range s.Guards {
				if Eq(g, h) {
					shared = true
				}
			}
			if shared {
				continue
			}
			g2 := g
			for y := true; y; {
				y = false
				if g2.Op == "not" || g2.Op == "eq" {
					break
				}
			}
			if g2.Op == "eq" && (g2.Args[0].Op == "nil" || g2.Args[1].Op == "nil") && g2.Has(func(y *X) bool { return y.Op == "extract" && y.V != nil }) || g2.Op == "eq" && (g2.Args[0].Op == "nil" || g2.Args[1].Op == "nil") && g2.Has(func(y *X) bool { return y.V == s.Instr.(ssa.Value) }) {
				continue
			}
			extra = trimX(g)
		}
		r.Check(extra == "", "merge", c+" AddImport", w.Pos(instrPos(a.Instr)), "an imported unit is merged only under a further condition: "+extra)
		ok = true
	}
	r.Check(ok, "merge", c, where, "the unit of an import is not merged into the importing unit")
}

func onlyErrorReturns(b *ssa.BasicBlock, depth int) bool {
	if depth == 0 {
		return false
	}
	for _, i := range b.Instrs {
		if ret, ok := i.(*ssa.Return); ok {
			for _, v := range ret.Results {
				if isErrorIface(v.Type()) && !isNilConst(v) {
					return true
				}
			}
			return false
		}
	}
	if len(b.Succs) == 0 {
		return false
	}
	for _, s := range b.Succs {
		if !onlyErrorReturns(s, depth-1) {
			return false
		}
	}
	return true
}

type listLoop struct {
	list              *X
	fromZero, stepOne bool
	idx               ssa.Value
}

// loopOf recognises "for i := 0; i < len(list); i++" and "for i := range list".
func loopOf(e *Eval, s *Site, in ssa.Instruction, head *ssa.BasicBlock) *listLoop {
	env := envOf(s, in.Parent())
	if env == nil {
		return nil
	}
	iff, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	var phi *ssa.Phi
	off := int64(0)
	find := func(v ssa.Value) {
		switch t := v.(type) {
		case *ssa.Phi:
			if t.Block() == head {
				phi = t
			}
		case *ssa.BinOp:
			if p, ok := t.X.(*ssa.Phi); ok && p.Block() == head {
				if k, ok := constInt(t.Y); ok && t.Op.String() == "+" {
					phi, off = p, k
				}
			}
		}
	}
	idx, lim := cmp.X, cmp.Y
	find(cmp.X)
	if phi == nil {
		find(cmp.Y)
		idx, lim = cmp.Y, cmp.X
	}
	if phi == nil {
		return nil
	}
	lx := e.Val(env, lim)
	if lx.Op != "len" {
		return nil
	}
	l := &listLoop{list: lx.Args[0], idx: idx}
	body := iff.Block().Succs[0]
	switch cmp.Op.String() {
	case "<", "!=":
		if idx == cmp.Y && cmp.Op.String() == "<" {
			return nil
		}
	case ">":
		if idx != cmp.Y {
			return nil
		}
	case ">=", "==":
		body = iff.Block().Succs[1]
		if idx == cmp.Y && cmp.Op.String() == ">=" {
			return nil
		}
	default:
		return nil
	}
	_ = body
	for k, p := range head.Preds {
		if head.Dominates(p) { // back edge
			if b, ok := phi.Edges[k].(*ssa.BinOp); ok && b.Op.String() == "+" && b.X == ssa.Value(phi) {
				if n, ok := constInt(b.Y); ok && n == 1 {
					l.stepOne = true
					continue
				}
			}
			l.stepOne = false
			return l
		}
		if n, ok := constInt(phi.Edges[k]); ok && n+off == 0 {
			l.fromZero = true
		}
	}
	return l
}

// everyIteration: no path from the loop head back to it avoids block b (other
// than leaving the loop).
func everyIteration(loop map[*ssa.BasicBlock]bool, head, b *ssa.BasicBlock) bool {
	if b == head {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{b: true}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == head {
				return false
			}
			if !loop[s] || seen[s] {
				continue
			}
			seen[s] = true
			if !walk(s) {
				return false
			}
		}
		return true
	}
	return walk(head)
}

// checkAddImport: merging a unit enters it, its imports, its names and types.
func checkAddImport(w *World, r *Report) {
	e := w.vx
	fn := w.Fn("definition", "CompilationUnit", "AddImport")
	if fn == nil {
		r.Bad("anchor", "CompilationUnit.AddImport", "-", "function not found")
		return
	}
	env := e.RootBound(fn, "c", "other")
	var rets []*Site
	oms := omSites(w, env, func(f *ssa.Function) bool { return w.RelPkg(f) == "definition" }, func(s *Site) {
		if _, ok := s.Instr.(*ssa.Return); ok && s.Env == env {
			rets = append(rets, s)
		}
	})
	other := Sym("other")
	okey := fieldOf(fieldOf(other, "UnitName"), "Path")
	_ = okey
	seen := map[string]*omSite{}
	for _, o := range oms {
		if o.Method != "Put" {
			continue
		}
		t := stripConv(o.Args[0])
		if t.Op == "field" && len(o.Args) == 3 && Eq(o.Args[2], other) {
			seen[t.Lit] = o
			for _, s := range rets {
				ret := s.Instr.(*ssa.Return)
				x := e.Val(s.Env, ret.Results[0])
				_ = x
			}
		}
	}
	r.Check(len(seen) >= 2, "import-recorded", "CompilationUnit.AddImport", w.Pos(fn.Pos()), "an imported unit is not recorded both among the direct and among all imports")
	// every nil return is preceded, on every path, by a Put of other into the direct imports
	direct := map[ssa.Instruction]bool{}
	for _, o := range oms {
		t := stripConv(o.Args[0])
		if o.Method == "Put" && len(o.Args) == 3 && Eq(o.Args[2], other) && t.Op == "field" && strings.Contains(t.Lit, "Local") {
			direct[o.Instr] = true
		}
	}
	pr := newPrecede(w, func(i ssa.Instruction) bool { return direct[i] })
	for _, s := range rets {
		ret := s.Instr.(*ssa.Return)
		x := e.Val(s.Env, ret.Results[0])
		if alwaysErr(x) {
			continue
		}
		in := pr.flow(fn)[ret.Block()]
		for _, i := range ret.Block().Instrs {
			if i == ssa.Instruction(ret) {
				break
			}
			if pr.step(i) {
				in = true
			}
		}
		r.Check(in, "import-direct", "CompilationUnit.AddImport return", w.Pos(instrPos(ret)), "an import can succeed without being recorded among the direct imports")
	}
	r.Floor("import-direct", 1)
}

// checkPaths: every path by which a file is identified is canonical.
func checkPaths(w *World, r *Report) {
	e := w.vx
	var canon func(x *X, depth int) bool
	canon = func(x *X, depth int) bool {
		x = stripConv(x)
		if depth > 8 {
			return false
		}
		switch x.Op {
		case "sel":
			return canon(x.Args[1], depth+1) && canon(x.Args[2], depth+1)
		case "anyof":
			for _, a := range x.Args {
				if !canon(a, depth+1) {
					return false
				}
			}
			return true
		case "extract":
			if len(x.Args) == 1 {
				return canon(x.Args[0], depth+1)
			}
		case "call":
			return x.Lit == "path/filepath.Abs" || x.Lit == "path/filepath.Clean" || strings.HasSuffix(x.Lit, "filepath.Abs") || strings.HasSuffix(x.Lit, "filepath.Clean") || strings.HasSuffix(x.Lit, "filepath.Join")
		case "str":
			return x.Lit == ""
		case "field":
			return x.Lit == "Path"
		case "bottom":
			return true
		}
		return false
	}
	for _, fn := range sortedFns(w.ToolFuncs()) {
		p := w.RelPkg(fn)
		if p != "compiler" && p != "fileio" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldKey(fa) == "" {
					continue
				}
				n := namedOf(fa.X.Type())
				if n == nil || n.Obj().Name() != "FileIdentifer" || fieldNameOf(fa) != "Path" {
					continue
				}
				x := e.Val(e.Root(fn), st.Val)
				r.Check(canon(x, 0), "canonical-path", fnName(fn), w.Pos(instrPos(st)), "a file is identified by a path that is not canonical, so one file could be compiled twice: "+trimX(x))
			}
		}
	}
	r.Floor("canonical-path", 3)
}

func fieldNameOf(fa *ssa.FieldAddr) string {
	t := fa.X.Type().Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	if st, ok := t.(*types.Struct); ok {
		return st.Field(fa.Field).Name()
	}
	return ""
}
