package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C04", "typestate analysis of lexer, parser and error listener on SSA, with identity-tracking value graph", checkC04)
}

// stripField removes field selections and conversions from a receiver value.
func stripField(x *X) *X {
	for {
		switch x.Op {
		case "field", "conv", "deref", "addr":
			if len(x.Args) != 1 {
				return x
			}
			x = x.Args[0]
		default:
			return x
		}
	}
}

func objID(x *X) string {
	x = stripField(x)
	if x.Op == "new" {
		for _, kv := range x.Args {
			if kv.Op == "kv" && kv.Lit == "@" {
				return x.Lit + "@" + kv.Args[0].Lit
			}
		}
	}
	return ""
}

func checkC04(w *World, r *Report) {
	r.Explain = "From the entry point that compiles one file, every place a grammar rule is started was found with the parser, token stream, lexer and text it works on. The listener object must be attached to both before parsing starts and never removed afterwards; it must record every report; the tree must only be used where the listener recorded nothing, and what it recorded must be the error returned. Every rule of the generated parser reports an error before clearing it, and the start rule consumes the end of the file."
	e := w.vx
	entry := w.Fn("compiler", "CompilationRuntime", "Compile")
	if entry == nil {
		r.Bad("anchor", "CompilationRuntime.Compile", "-", "entry point not found")
		return
	}
	inScope := func(fn *ssa.Function) bool {
		p := w.RelPkg(fn)
		return p == "compiler" || p == "fileio"
	}
	for _, fn := range w.Funcs {
		if w.RelPkg(fn) == "parser" && fn.Parent() == nil {
			e.NoInline[fn] = true
			defer delete(e.NoInline, fn)
		}
	}
	type att struct {
		i        ssa.Instruction
		recv     string
		listener string
		lx       *X
	}
	var adds, removes []att
	type parse struct {
		call *ssa.Call
		env  *Env
		x    *X
	}
	var parses []parse
	var accepts []*Site
	e.Traverse(e.Root(entry), inScope, func(s *Site) {
		ci, ok := s.Instr.(ssa.CallInstruction)
		if !ok {
			return
		}
		c := ci.Common()
		name := ""
		var recv *X
		var args []ssa.Value
		if c.IsInvoke() {
			name, recv, args = c.Method.Name(), e.Val(s.Env, c.Value), c.Args
		} else if f := c.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(c.Args) > 0 {
			name, recv, args = f.Name(), e.Val(s.Env, c.Args[0]), c.Args[1:]
		} else {
			return
		}
		switch name {
		case "AddErrorListener":
			lx := e.Val(s.Env, args[0])
			adds = append(adds, att{s.Instr, stripField(recv).Key(), objID(lx), lx})
		case "RemoveErrorListeners":
			removes = append(removes, att{s.Instr, stripField(recv).Key(), "", nil})
		case "Accept":
			cp := *s
			accepts = append(accepts, &cp)
		}
		if f := c.StaticCallee(); f != nil && w.RelPkg(f) == "parser" && startsRule(f) {
			if call, ok := s.Instr.(*ssa.Call); ok {
				parses = append(parses, parse{call, s.Env, stripField(recv)})
			}
		}
	})
	for _, p := range parses {
		where := w.Pos(p.call.Pos())
		c := fnName(p.call.Parent()) + " " + p.call.Call.StaticCallee().Name()
		r.Check(p.call.Call.StaticCallee().Name() == "Proto", "start-rule", c, where, "parsing does not start at the rule for a whole file")
		// parser <- token stream <- lexer <- input stream <- text
		lexer := findCall(p.x, func(f *ssa.Function) bool { return w.RelPkg(f) == "parser" && strings.HasSuffix(f.Name(), "Lexer") })
		input := findExt(p.x, "NewInputStream")
		if lexer == nil || input == nil {
			r.Bad("chain", c, where, "the lexer and the text the parser works on could not be traced: "+p.x.String())
			continue
		}
		r.OK("chain", c)
		if len(input.Args) > 0 {
			t := stripConv(input.Args[0])
			r.Check(isFileText(t), "whole-text", c, where, "the text parsed is not exactly the content of the file: "+t.String())
		}
		var lst *X
		for what, obj := range map[string]*X{"lexer": lexer, "parser": p.x} {
			ok := false
			why := "no error listener is attached to the " + what + " before parsing"
			for _, a := range adds {
				if a.recv != obj.Key() || a.listener == "" {
					continue
				}
				pr := newPrecede(w, func(i ssa.Instruction) bool { return i == a.i })
				if !pr.Before(p.call) {
					continue
				}
				bad := false
				for _, rm := range removes {
					if rm.recv == obj.Key() {
						rp := newPrecede(w, func(i ssa.Instruction) bool { return i == rm.i })
						if !rp.Before(a.i) || pr.Before(rm.i) {
							bad = true
						}
					}
				}
				if bad {
					why = "the listener attached to the " + what + " is removed again"
					continue
				}
				if lst != nil && objID(lst) != a.listener {
					why = "lexer and parser report to different listeners, only one of which is consulted"
					continue
				}
				ok = true
				lst = a.lx
				break
			}
			r.Check(ok, "listener", c+" "+what, where, why)
		}
		if lst == nil {
			continue
		}
		checkListener(w, r, lst, input.Args[0], c, where)
		// the tree is used only where nothing was recorded
		n := 0
		for _, s := range accepts {
			com := s.Instr.(ssa.CallInstruction).Common()
			v := com.Value
			if !com.IsInvoke() {
				v = com.Args[0]
			}
			x := e.Val(s.Env, v)
			if !x.Has(func(y *X) bool { return y.Op == "call" && y.Fn == p.call.Call.StaticCallee() }) {
				continue
			}
			n++
			ok := false
			for _, g := range s.Guards {
				if implies(g, func(y *X) bool { return isErrNil(y, objID(lst)) }) {
					ok = true
				}
			}
			r.Check(ok, "tree-use", fnName(s.Instr.Parent())+" Accept", w.Pos(instrPos(s.Instr)), "the syntax tree is used without knowing that the listener recorded no error")
		}
		r.Check(n > 0, "tree-use", c, where, "the use of the syntax tree was not found")
		// the error returned is the one recorded
		ret := 0
		e.Traverse(e.Root(entry), inScope, func(s *Site) {
			rt, ok := s.Instr.(*ssa.Return)
			if !ok {
				return
			}
			set := false
			for _, g := range s.Guards {
				if g.Op == "not" && isErrNil(g.Args[0], objID(lst)) {
					set = true
				}
			}
			if !set {
				return
			}
			for _, v := range rt.Results {
				if isErrorIface(v.Type()) {
					x := e.Val(s.Env, v)
					if x.Has(func(y *X) bool { return y.Op == "field" && objID(y.Args[0]) == objID(lst) }) {
						ret++
					}
					break
				}
			}
		})
		r.Check(ret > 0, "returned", c, where, "no return of the recorded syntax error was found")
	}
	r.Floor("start-rule", 1)
	r.Floor("tree-use", 3)
	checkRuleFns(w, r)
}

// implies: the guard (a conjunction or a single fact) contains a fact accepted by p.
func implies(g *X, p func(*X) bool) bool {
	if p(g) {
		return true
	}
	if g.Op == "and" {
		for _, a := range g.Args {
			if implies(a, p) {
				return true
			}
		}
	}
	return false
}

func isErrNil(g *X, id string) bool {
	if g.Op != "eq" || id == "" {
		return false
	}
	for k := 0; k < 2; k++ {
		f := g.Args[1-k]
		if g.Args[k].Op == "nil" && f.Op == "field" && objID(f.Args[0]) == id {
			return true
		}
	}
	return false
}

// startsRule: a method of the generated parser that enters a grammar rule.
func startsRule(f *ssa.Function) bool {
	if f.Signature.Recv() == nil || f.Blocks == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && g.Name() == "EnterRule" {
					return true
				}
			}
		}
	}
	return false
}

func findCall(x *X, p func(*ssa.Function) bool) *X {
	var out *X
	x.Walk(func(y *X) {
		if out == nil && y.Op == "call" && y.Fn != nil && p(y.Fn) {
			out = y
		}
	})
	return out
}

func findExt(x *X, suffix string) *X {
	var out *X
	x.Walk(func(y *X) {
		if out == nil && y.Op == "call" && strings.HasSuffix(y.Lit, suffix) {
			out = y
		}
	})
	return out
}

func stripConv(x *X) *X {
	for x.Op == "conv" && len(x.Args) == 1 {
		x = x.Args[0]
	}
	return x
}

// isFileText: the value is what os.ReadFile returned (or an error path's empty text).
func isFileText(x *X) bool {
	x = stripConv(x)
	switch x.Op {
	case "sel":
		return isFileText(x.Args[1]) && isFileText(x.Args[2])
	case "extract":
		return x.Lit == "0" && x.Args[0].Op == "call" && x.Args[0].Lit == "os.ReadFile"
	case "str":
		return x.Lit == ""
	case "const", "nil":
		return true
	}
	return false
}

// checkListener: the object records every report it receives.
func checkListener(w *World, r *Report, lst, text *X, c, where string) {
	l := stripField(lst)
	var named *types.Named
	for _, sp := range w.SSA {
		for _, m := range sp.Members {
			if t, ok := m.(*ssa.Type); ok && typeName(t.Type()) == l.Lit {
				named = namedOf(t.Type())
			}
		}
	}
	if named == nil {
		r.Bad("record", c, where, "the type of the listener is not a type of the repository: "+l.Lit)
		return
	}
	var fn *ssa.Function
	for _, n := range []*types.Named{named} {
		fn = w.Method(n, "SyntaxError")
	}
	if fn == nil || fn.Blocks == nil || len(fn.Params) < 7 {
		r.Bad("record", l.Lit, where, "the listener does not override SyntaxError, so reports are dropped")
		return
	}
	e := w.vx
	ok := false
	why := "SyntaxError does not store the error it is told of on every path"
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			st, isSt := i.(*ssa.Store)
			if !isSt {
				continue
			}
			fa, isF := st.Addr.(*ssa.FieldAddr)
			if !isF || fa.X != ssa.Value(fn.Params[0]) || !isErrorT(deref(fa.Type())) {
				continue
			}
			pr := newPrecede(w, func(j ssa.Instruction) bool { return j == i })
			if !pr.mustExec(fn) {
				continue
			}
			x := e.Val(e.Root(fn), st.Val)
			keeps := x.Has(func(y *X) bool {
				return y.Op == "field" && y.Lit == fieldName(fa) && y.Args[0].Op == "param" && y.Args[0].Lit == "0"
			})
			pos := x.Has(func(y *X) bool {
				if y.Op != "new" || !strings.HasSuffix(y.Lit, "Position") {
					return false
				}
				ln, cl, fl := fieldOf(y, "Line"), fieldOf(y, "Column"), fieldOf(y, "File")
				return ln.Op == "param" && ln.Lit == "3" && cl.Op == "param" && cl.Lit == "4" && fl.Op == "field" && fl.Args[0].Op == "param" && fl.Args[0].Lit == "0"
			})
			msg := x.Has(func(y *X) bool { return y.Op == "param" && y.Lit == "5" })
			switch {
			case !keeps:
				why = "a later report replaces the first one"
			case !pos:
				why = "the file, line and column reported are not those of the syntax error"
			case !msg:
				why = "the message of the parser is not part of the error"
			default:
				ok = true
			}
		}
	}
	r.Check(ok, "record", l.Lit+".SyntaxError", w.Pos(fn.Pos()), why)
	// nobody else clears it
	st := named.Underlying().(*types.Struct)
	for _, g := range sortedFns(w.ToolFuncs()) {
		if g == fn {
			continue
		}
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if ok && namedOf(deref(fa.X.Type())) == named && isErrorT(st.Field(fa.Field).Type()) {
					if _, local := fa.X.(*ssa.Alloc); local {
						continue // building the listener
					}
					r.Bad("record", fnName(g), w.Pos(s.Pos()), "the recorded syntax error is overwritten")
				}
			}
		}
	}
	// the file it names is the file parsed
	f := fieldOf(l, "File")
	r.Check(text.Has(func(y *X) bool { return y.Key() == f.Key() }), "record", l.Lit+".File", where, "the listener is not given the path of the file parsed but "+f.String())
}

// checkRuleFns: each generated rule function reports an error before it clears it,
// and the start rule consumes the end of the file.
func checkRuleFns(w *World, r *Report) {
	for _, fn := range w.Funcs {
		if w.RelPkg(fn) != "parser" || !startsRule(fn) {
			continue
		}
		clears, bad := 0, ""
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := ci.Common().StaticCallee()
				if f == nil || f.Name() != "SetError" {
					continue
				}
				a := ci.Common().Args[len(ci.Common().Args)-1]
				k, isC := unwrapIface(a).(*ssa.Const)
				if !isC || k.Value != nil {
					continue
				}
				clears++
				pr := newPrecede(w, func(j ssa.Instruction) bool {
					c2, ok := j.(ssa.CallInstruction)
					return ok && c2.Common().IsInvoke() && c2.Common().Method.Name() == "ReportError"
				})
				in := pr.flow(fn)
				seen := in[b]
				for _, j := range b.Instrs {
					if j == i {
						break
					}
					seen = seen || pr.step(j)
				}
				if !seen {
					bad = "an error of the rule is cleared without being reported"
				}
			}
		}
		if clears == 0 {
			bad = "the rule never reports its error"
		}
		r.Check(bad == "", "rule-reports", fnName(fn), w.Pos(fn.Pos()), bad)
		if fn.Name() != "Proto" {
			continue
		}
		// every path to the return matched the end of file or has an error
		type st struct{ ok bool }
		in := map[*ssa.BasicBlock]bool{}
		for _, b := range fn.Blocks {
			in[b] = true
		}
		in[fn.Blocks[0]] = false
		hasErr := func(v ssa.Value) bool {
			ci, ok := v.(*ssa.Call)
			return ok && ci.Call.StaticCallee() != nil && ci.Call.StaticCallee().Name() == "HasError"
		}
		setsErr := func(i ssa.Instruction) bool {
			ci, ok := i.(ssa.CallInstruction)
			if !ok || ci.Common().StaticCallee() == nil {
				return false
			}
			f := ci.Common().StaticCallee()
			as := ci.Common().Args
			switch f.Name() {
			case "Match":
				n, ok := constInt(as[len(as)-1])
				return ok && n == -1
			case "SetError":
				k, isC := unwrapIface(as[len(as)-1]).(*ssa.Const)
				return !isC || k.Value != nil
			}
			return false
		}
		for ch := true; ch; {
			ch = false
			for _, b := range fn.Blocks[1:] {
				v := true
				for _, p := range b.Preds {
					o := in[p]
					for _, i := range p.Instrs {
						o = o || setsErr(i)
					}
					if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && hasErr(iff.Cond) && p.Succs[0] == b {
						o = true
					}
					v = v && o
				}
				if v != in[b] {
					in[b] = v
					ch = true
				}
			}
		}
		ok := true
		for _, b := range fn.Blocks {
			if _, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR && b.Comment != "recover" {
				ok = ok && in[b]
			}
		}
		r.Check(ok, "end-of-file", fnName(fn), w.Pos(fn.Pos()), "the start rule can end successfully before the end of the file")
	}
	r.Floor("rule-reports", 40)
	r.Floor("end-of-file", 1)
}
