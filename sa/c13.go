package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", "value-graph def-use analysis from each flag through its setter to the option field, and reachability of reads of the field in each generator", checkC13)
}

// the documented options: flag, the option field it controls, default.
var documentedFlags = []struct{ flag, field, def string }{
	{"rmpath", "RemovePath", `""`},
	{"relpath", "RelativePath", "false"},
	{"inner", "InnerClass", "false"},
	{"single", "SingleFile", "false"},
	{"minimal", "MinimalCode", "false"},
	{"decnum", "DecimalNumber", "false"},
	{"memcpy", "MemoryCopy", "false"},
	{"compat", "CompatibleMode", "false"},
	{"signext", "SignExtMethod", `""`},
	{"unroll", "LoopUnroll", "4"},
}

// options each target is documented to honour (README.md).
var honoured = map[string][]string{
	"c":        {"SingleFile", "MinimalCode", "MemoryCopy", "RelativePath", "DecimalNumber", "SignExtMethod", "LoopUnroll", "RemovePath"},
	"cpp":      {"SingleFile", "MinimalCode", "MemoryCopy", "RelativePath", "DecimalNumber", "SignExtMethod", "LoopUnroll", "RemovePath"},
	"csharp":   {"SingleFile", "MinimalCode", "MemoryCopy", "DecimalNumber", "SignExtMethod", "LoopUnroll", "RemovePath"},
	"commonjs": {"SingleFile", "CompatibleMode", "DecimalNumber", "SignExtMethod", "LoopUnroll", "RemovePath"},
	"esm":      {"SingleFile", "CompatibleMode", "DecimalNumber", "SignExtMethod", "LoopUnroll", "RemovePath"},
	"golang":   {"SingleFile", "MinimalCode", "MemoryCopy", "RelativePath", "DecimalNumber", "SignExtMethod", "LoopUnroll", "RemovePath"},
	"java":     {"MinimalCode", "DecimalNumber", "SignExtMethod", "LoopUnroll", "RemovePath"},
	"kotlin":   {"MinimalCode", "DecimalNumber", "SignExtMethod", "LoopUnroll", "RemovePath"},
	"python":   {"SingleFile", "MinimalCode", "RelativePath", "DecimalNumber", "SignExtMethod", "LoopUnroll", "RemovePath"},
}

type flagDef struct {
	cell *X
	def  string
	pos  ssa.Instruction
	kind string
}

func checkC13(w *World, r *Report) {
	r.Explain = "Every documented flag is found at its registration with the flag package, with its default; the cell it fills is followed through the setter that receives it to the option field it stores, which must be its own field and carry its value (identity for switches and the threshold; the documented table for -signext; a comma split for -rmpath). Every setter must be applied to the one options object, which must be the one given to the generator; -o and -t must reach the output path and target selection. Each target must read every option it is documented to honour on code reachable from its entry point."
	e := w.vx
	sp := w.SSA[""]
	main := sp.Func("main")
	flags := map[string]flagDef{}
	newOpts := w.Fn("generator/gen", "", "NewGenOptions")
	getGen := w.Fn("generator", "", "GetGenerator")
	if newOpts == nil || getGen == nil {
		r.Bad("flag", "NewGenOptions/GetGenerator", "-", "function not found")
		return
	}
	e.NoInline[newOpts], e.NoInline[getGen] = true, true
	defer func() { delete(e.NoInline, newOpts); delete(e.NoInline, getGen) }()
	inMain := func(fn *ssa.Function) bool { return w.RelPkg(fn) == "" }
	type use struct {
		env  *Env
		call *ssa.Call
	}
	var optCalls, tgtCalls []use
	var gens []*Site
	roots := []*ssa.Function{sp.Func("init"), main}
	for _, root := range roots {
		e.Traverse(e.Root(root), inMain, func(s *Site) {
			ci, ok := s.Instr.(ssa.CallInstruction)
			if !ok {
				return
			}
			c := ci.Common()
			n := callName(ci)
			if f := c.StaticCallee(); f != nil && (f == newOpts || f == getGen) {
				call, _ := s.Instr.(*ssa.Call)
				if f == newOpts {
					optCalls = append(optCalls, use{s.Env, call})
				} else {
					tgtCalls = append(tgtCalls, use{s.Env, call})
				}
			}
			if isGenerateCall(w, ci) {
				cp := *s
				gens = append(gens, &cp)
			}
			isFlag := strings.HasPrefix(n, "flag.") || strings.HasPrefix(n, "(*flag.FlagSet).")
			if !isFlag {
				return
			}
			as := c.Args
			if strings.HasPrefix(n, "(*flag") {
				as = as[1:]
			}
			short := n[strings.LastIndex(n, ".")+1:]
			kind := strings.TrimSuffix(short, "Var")
			switch kind {
			case "String", "Bool", "Int":
			default:
				return
			}
			var cell *X
			if strings.HasSuffix(short, "Var") {
				cell = e.addrCell(s.Env, as[0])
				if cell == nil {
					cell = e.Val(s.Env, as[0])
				}
				as = as[1:]
			} else {
				cell = mk("deref", "", e.Val(s.Env, ci.(ssa.Value)))
			}
			name := e.Val(s.Env, as[0])
			if name.Op != "str" {
				return
			}
			if _, dup := flags[name.Lit]; dup {
				return
			}
			flags[name.Lit] = flagDef{cell, e.Val(s.Env, as[1]).String(), s.Instr, kind}
		})
	}
	for _, d := range documentedFlags {
		f, ok := flags[d.flag]
		if !ok {
			r.Bad("flag", "-"+d.flag, "main.go", "the documented option is not registered")
			continue
		}
		r.Check(f.def == d.def, "flag", "-"+d.flag+" default", w.Pos(instrPos(f.pos)), "default is "+f.def+", documented is "+d.def)
	}
	for _, n := range []string{"t", "o"} {
		_, ok := flags[n]
		r.Check(ok, "flag", "-"+n, "main.go", "the documented option is not registered")
	}
	// ---- setters
	r.Check(len(optCalls) >= 1, "setter", "NewGenOptions call", "main.go", "main never builds the options")
	for _, u := range optCalls {
		where := w.Pos(u.call.Pos())
		set := map[string]*X{} // field -> value stored by the setter given
		lx := e.Val(u.env, u.call.Call.Args[0])
		var elems []*X
		if lx.Op == "list" {
			elems = lx.Args
		} else {
			elems = appendElems(lx)
		}
		for _, s := range elems {
			field, val := setterEffect(w, u.env, s)
			if field == "" {
				r.Bad("setter", "unrecognised setter", where, "an option setter does not store exactly one option field: "+s.String())
				continue
			}
			if set[field] != nil {
				r.Bad("setter", field, where, "the option is set twice")
			}
			set[field] = val
		}
		for _, d := range documentedFlags {
			c := "-" + d.flag + " -> " + d.field
			f, ok := flags[d.flag]
			if !ok {
				continue
			}
			v := set[d.field]
			if v == nil {
				r.Bad("setter", c, where, "no setter given to NewGenOptions stores this option")
				continue
			}
			only := func() bool { // no other flag's cell takes part
				bad := false
				for _, n := range sortedKeys(flags) {
					if n != d.flag && flags[n].cell != nil {
						k := flags[n].cell.Key()
						if v.Has(func(y *X) bool { return y.Key() == k }) {
							bad = true
						}
					}
				}
				return !bad
			}
			has := v.Has(func(y *X) bool { return y.Key() == f.cell.Key() })
			switch d.flag {
			case "rmpath":
				ok := has && only() && v.Has(func(y *X) bool {
					return y.Op == "call" && y.Lit == "strings.Split" && y.Args[0].Key() == f.cell.Key() && y.Args[1].Lit == ","
				})
				r.Check(ok, "setter", c, where, "the paths stored are not the comma-separated value of the flag: "+v.String())
			case "signext":
				rv := v
				ok := rv.Op == "lookup" && has && only() && rv.Args[0].Op == "global"
				r.Check(ok, "setter", c, where, "the method stored is not looked up by the flag's value: "+v.String())
				if ok {
					checkSignExtTable(w, r, rv.Args[0])
				}
			default:
				r.Check(v.Key() == f.cell.Key(), "setter", c, where, "the option does not receive the value of its flag but "+v.String())
			}
		}
	}
	checkNewGenOptions(w, r, newOpts)
	// ---- use of the options, target and output
	for _, u := range tgtCalls {
		v := e.Val(u.env, u.call.Call.Args[0])
		f, ok := flags["t"]
		r.Check(ok && v.Key() == f.cell.Key(), "reach", "-t -> target selection", w.Pos(u.call.Pos()), "the target selected is not the value of -t but "+v.String())
	}
	for _, g := range gens {
		var ctx *X
		for _, a := range g.Instr.(ssa.CallInstruction).Common().Args {
			x := e.Val(g.Env, a)
			if x.Op == "new" && strings.HasSuffix(x.Lit, "GenCtx") {
				ctx = x
			}
		}
		where := w.Pos(instrPos(g.Instr))
		if ctx == nil {
			r.Bad("reach", "generation context", where, "the context given to the generator could not be traced")
			continue
		}
		o := fieldOf(ctx, "OutputPath")
		f, ok := flags["o"]
		r.Check(ok && o.Key() == f.cell.Key(), "reach", "-o -> OutputPath", where, "the output path is not the value of -o but "+o.String())
		g2 := fieldOf(ctx, "GenOptions")
		r.Check(g2.Op == "call" && g2.Fn == newOpts, "reach", "options -> generator", where, "the generator does not receive the options built from the flags")
	}
	r.Check(len(gens) > 0, "reach", "generation", "main.go", "main never calls a generator")
	// flags are read after they were parsed
	parse := newPrecede(w, func(i ssa.Instruction) bool {
		_, ok := isCall(i, "flag.Parse", "(*flag.FlagSet).Parse")
		return ok
	})
	for _, u := range optCalls {
		r.Check(parse.Before(u.call), "reach", "flags parsed before use", w.Pos(u.call.Pos()), "the options are built before the flags are parsed")
	}
	checkHonoured(w, r)
	checkRemovePath(w, r)
	r.Floor("setter", 12)
}

// appendElems collects the elements of a list built by append calls.
func appendElems(x *X) []*X {
	switch x.Op {
	case "list":
		return x.Args
	case "builtin":
		if x.Lit == "append" && len(x.Args) == 2 {
			return append(append([]*X{}, appendElems(x.Args[0])...), appendElems(x.Args[1])...)
		}
	case "sel":
		return append(append([]*X{}, appendElems(x.Args[1])...), appendElems(x.Args[2])...)
	}
	return nil
}

// setterEffect: the one option field a setter closure stores and the value.
func setterEffect(w *World, env *Env, s *X) (string, *X) {
	e := w.vx
	if s.Op == "sel" {
		// the setter is only usable where its constructor did not fail
		a, b := s.Args[1], s.Args[2]
		if a.Op == "nil" {
			return setterEffect(w, env, b)
		}
		if b.Op == "nil" {
			return setterEffect(w, env, a)
		}
	}
	if s.Op == "call" && s.Fn != nil && s.Fn.Blocks != nil && s.Fn.Signature.Recv() == nil {
		// a constructor that is more than straight-line code: what it returns
		ne := e.call(env, s.Fn, s.Args)
		var ret *X
		for _, b := range s.Fn.Blocks {
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if ret != nil {
					return "", nil
				}
				ret = e.Val(ne, rt.Results[0])
			}
		}
		if ret == nil || ret.Op == "call" {
			return "", nil
		}
		return setterEffect(w, ne, ret)
	}
	if s.Op != "closure" || s.Fn == nil || s.Fn.Blocks == nil {
		return "", nil
	}
	field := ""
	var val *X
	n := 0
	var base *Env = env
	if s.Env != nil {
		base = s.Env
	}
	ne := e.call(base, s.Fn, nil)
	for _, b := range s.Fn.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !strings.HasSuffix(typeName(deref(fa.X.Type())), "GenOptions") {
				continue
			}
			if len(s.Fn.Params) > 0 && fa.X != ssa.Value(s.Fn.Params[0]) {
				return "", nil
			}
			if len(e.Guards(ne, b)) > 0 {
				return "", nil
			}
			n++
			field, val = fieldName(fa), e.Val(ne, st.Val)
		}
	}
	if n != 1 {
		return "", nil
	}
	return field, val
}

func checkSignExtTable(w *World, r *Report, g *X) {
	gl, ok := g.V.(*ssa.Global)
	if !ok {
		return
	}
	m := w.vx.GlobalVal(gl)
	want := map[string]string{"": "Default", "shift": "Shift", "arith": "Arith"}
	sp := w.SSA["generator/gen"]
	for _, k := range []string{"", "shift", "arith"} {
		nc, _ := sp.Members["SignExtMethod"+want[k]].(*ssa.NamedConst)
		got := ""
		if m != nil && m.Op == "map" {
			for _, en := range m.Args {
				if en.Args[0].Op == "str" && en.Args[0].Lit == k {
					got = en.Args[1].String()
				}
			}
		}
		r.Check(nc != nil && got == nc.Value.Value.ExactString(), "setter", "-signext "+k, w.Pos(gl.Pos()), "the documented method name does not select its own method")
	}
}

// checkNewGenOptions: every setter given is applied to the object returned.
func checkNewGenOptions(w *World, r *Report, fn *ssa.Function) {
	n := 0
	heads := loopHeads(fn)
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(*ssa.Call)
			if !ok || c.Call.IsInvoke() || c.Call.StaticCallee() != nil {
				continue
			}
			if _, ok := c.Call.Value.(*ssa.Builtin); ok {
				continue
			}
			n++
			// the only decision on the way is the loop over the setters
			bad := ""
			g := w.vx.Guards(w.vx.Root(fn), b)
			if len(g) != 1 || len(heads) == 0 {
				bad = "a setter is applied only under a further condition"
			}
			for _, rb := range fn.Blocks {
				if ret, ok := rb.Instrs[len(rb.Instrs)-1].(*ssa.Return); ok {
					if ret.Results[0] != c.Call.Args[0] {
						bad = "the options returned are not the ones the setters changed"
					}
					// leaving the loop early would skip setters
					for _, h := range heads {
						body := naturalLoop(h)
						for bb := range body {
							if bb == h {
								continue
							}
							for _, s := range bb.Succs {
								if !body[s] {
									bad = "the loop over the setters can end early"
								}
							}
						}
					}
				}
			}
			r.Check(bad == "", "setter", "NewGenOptions applies every setter", w.Pos(c.Pos()), bad)
		}
	}
	r.Check(n == 1, "setter", "NewGenOptions", w.Pos(fn.Pos()), "the setters are not applied exactly once")
}

// checkHonoured: each target consults the options it is documented to honour.
func checkHonoured(w *World, r *Report) {
	opt := w.NamedType("generator/gen", "GenOptions")
	if opt == nil {
		r.Bad("honoured", "GenOptions", "-", "type not found")
		return
	}
	st := opt.Underlying().(*types.Struct)
	for _, t := range sortedKeys(honoured) {
		sp := w.SSA["generator/target/"+t]
		if sp == nil {
			r.Bad("honoured", t, "-", "package not found")
			continue
		}
		var roots []*ssa.Function
		for _, fn := range w.Funcs {
			if w.RelPkg(fn) == "generator/target/"+t && fn.Name() == "Generate" && fn.Synthetic == "" && fn.Signature.Recv() != nil && fn.Signature.Results().Len() == 2 {
				roots = append(roots, fn)
			}
		}
		reads := map[string][]ssa.Instruction{}
		for fn := range w.CG().Reach(roots...) {
			p := w.RelPkg(fn)
			if p != "generator/target/"+t && p != "generator/gen" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					var f int
					var base types.Type
					var val ssa.Value
					switch x := i.(type) {
					case *ssa.FieldAddr:
						base, f = deref(x.X.Type()), x.Field
						for _, u := range *x.Referrers() {
							if ld, ok := u.(*ssa.UnOp); ok && !noUses(ld) {
								val = ld
							}
						}
					case *ssa.Field:
						base, f, val = x.X.Type(), x.Field, x
					}
					if base == nil || val == nil || namedOf(base) != opt {
						continue
					}
					if onlyWarns(w, val) {
						continue
					}
					reads[st.Field(f).Name()] = append(reads[st.Field(f).Name()], i)
				}
			}
		}
		inTmpl := map[string]bool{}
		for _, s := range w.TmplSites() {
			if w.RelPkg(s.Fn) != "generator/target/"+t {
				continue
			}
			w.CheckSite(s, func(string) {}, func(ty types.Type, member string) {
				if namedOf(ty) == opt {
					inTmpl[member] = true
				}
			})
		}
		for _, o := range honoured[t] {
			r.Check(len(reads[o]) > 0 || inTmpl[o], "honoured", t+" "+o, "generator/target/"+t, "the option is documented for this target but no code reachable from its Generate acts on it")
		}
	}
}

// onlyWarns: the value only decides whether a warning is issued (or the option
// overwritten).
func onlyWarns(w *World, v ssa.Value) bool {
	for _, u := range *v.Referrers() {
		iff, ok := u.(*ssa.If)
		if !ok {
			if _, ok := u.(*ssa.DebugRef); ok {
				continue
			}
			if n, ok := u.(*ssa.UnOp); ok && onlyWarns(w, n) {
				continue
			}
			return false
		}
		for _, s := range iff.Block().Succs {
			if len(s.Preds) != 1 {
				continue
			}
			for _, i := range s.Instrs {
				if al, ok := i.(*ssa.Alloc); ok && isWarnType(al.Type()) {
					return true
				}
				if ci, ok := i.(*ssa.Call); ok && ci.Call.StaticCallee() != nil && strings.HasPrefix(ci.Call.StaticCallee().Name(), "warn") {
					return true
				}
			}
		}
		return false
	}
	return true
}

var _ = sort.Strings

// checkRemovePath: every prefix given is tried until one matches, the matching
// one is cut off, and what is written is the shortened name.
func checkRemovePath(w *World, r *Report) {
	e := w.vx
	for _, fn := range sortedFns(w.ToolFuncs()) {
		if !strings.HasPrefix(w.RelPkg(fn), "generator") || fn.Blocks == nil || !readsField(fn, "RemovePath") {
			continue
		}
		e.Traverse(e.Root(fn), func(f *ssa.Function) bool { return w.RelPkg(f) == "generator/gen" || w.RelPkg(f) == "util" }, func(s *Site) {
			c, ok := isCall(s.Instr, "strings.HasPrefix", "strings.CutPrefix", "strings.TrimPrefix")
			if !ok {
				return
			}
			el := e.Val(s.Env, c.Args[1])
			if el.Op != "index" || !el.Args[0].Has(func(y *X) bool { return y.Op == "field" && y.Lit == "RemovePath" }) {
				return
			}
			where := w.Pos(instrPos(s.Instr))
			name := fnName(fn)
			in, loop, head := enclosingLoop(s)
			if loop == nil {
				r.Bad("rmpath", name, where, "the prefixes to remove are not tried one after another")
				return
			}
			lc := loopOf(e, s, in, head)
			r.Check(lc != nil && lc.fromZero && lc.stepOne && Eq(lc.list, el.Args[0]) && everyIteration(loop, head, in.Block()), "rmpath", name+" range", where, "the prefixes to remove are not all tried")
			// leaving the loop early only where the prefix matched
			fact := e.Val(s.Env, s.Instr.(ssa.Value))
			if isTuple(s.Instr.(ssa.Value)) {
				fact = mk("extract", "1", fact)
			}
			env := envOf(s, in.Parent())
			for _, lb := range in.Parent().Blocks {
				if !loop[lb] || lb == head {
					continue
				}
				for _, sc := range lb.Succs {
					if loop[sc] {
						continue
					}
					gs := e.Guards(env, lb)
					if iff, ok := lb.Instrs[len(lb.Instrs)-1].(*ssa.If); ok {
						c := e.Val(env, iff.Cond)
						if lb.Succs[1] == sc {
							c = Not(c)
						}
						gs = append(gs, c)
					}
					r.Check(under(gs, fact), "rmpath", name+" exit", where, "the search for a prefix can end although the current one did not match")
				}
			}
		})
	}
	r.Floor("rmpath", 1)
}

func isTuple(v ssa.Value) bool {
	_, ok := v.Type().(*types.Tuple)
	return ok
}

func readsField(fn *ssa.Function, name string) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if fa, ok := i.(*ssa.FieldAddr); ok && fieldNameOf(fa) == name {
				for _, u := range *fa.Referrers() {
					if _, ok := u.(*ssa.UnOp); ok {
						return true
					}
				}
			}
		}
	}
	return false
}
