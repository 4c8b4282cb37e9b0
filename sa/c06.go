package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06", "guarded-insertion analysis of the declaration tables (insertion and success are unreachable once the key is present), must-register path analysis of every declaration, and propagation of the duplicate errors", c06)
}

func c06(w *World, r *Report) {
	r.Explain = "every table that collects declarations (types, names, fields, values, options, accessors) is filled only where the same key was looked up before; in the scene where the key is already there (at another position) neither the insertion nor a successful return can be reached, and the error returned names the entry found. Every declaration the grammar knows reaches such an insertion under its own name, merging an import does so for all its names, and the duplicate errors are followed to the caller that reports them."
	g := &c06t{w: w, r: r, e: w.vx, guarded: map[ssa.Instruction]*X{}, carriers: map[*ssa.Function]bool{}}
	g.inserts()
	g.positions()
	g.types()
	g.fields()
	g.options()
	g.methods()
	g.imports()
	g.flow()
}

type c06t struct {
	w        *World
	r        *Report
	e        *Eval
	guarded  map[ssa.Instruction]*X // insertions that are guarded -> guard table
	carriers map[*ssa.Function]bool // functions that return a duplicate error
}

// declTable: the table's values are declarations; grp when they are tables of
// declarations.
func (g *c06t) declTable(fn *ssa.Function) (decl, grp bool) {
	sig := fn.Signature
	if sig.Recv() == nil || sig.Params().Len() != 2 {
		return
	}
	switch t := typeName(sig.Params().At(1).Type()); {
	case strings.Contains(t, "OrderedMap") && strings.Contains(t, "definition.Method"):
		return true, true
	case t == "definition.Position" || t == "definition.CustomType" || t == "definition.Field" || t == "definition.Method" || t == "*definition.Option" || t == "*definition.EnumValue" || t == "definition.Option" || t == "definition.EnumValue" || t == "*definition.Struct" || t == "*definition.Enum":
		return true, false
	}
	return
}

// taken is the scene where the key is in the table.
func (g *c06t) taken(table, key *X, facts ...*X) func(*X) *X {
	prev := mk("lookup", "", table, key)
	nilX := mk("nil", "")
	step := func(x *X) *X {
		x = Subst(x, func(y *X) *X {
			switch {
			case y.Op == "has" && len(y.Args) == 2 && sameTable(y.Args[0], table) && Eq(y.Args[1], key):
				return Bool(true)
			case y.Op == "inv" && y.Lit == "PositionEquals" && len(y.Args) == 2 && (Eq(y.Args[0], prev) || Eq(y.Args[1], prev)):
				return Bool(false)
			case Eq(y, EqX(prev, nilX)):
				return Bool(false)
			}
			return nil
		})
		return sat(x, facts...)
	}
	return func(x *X) *X {
		for i := 0; i < 4; i++ {
			k := x.Key()
			x = step(x)
			if x.Key() == k {
				break
			}
		}
		return x
	}
}

func (g *c06t) success(simp func(*X) *X) func(env *Env, i ssa.Instruction) bool {
	return func(env *Env, i ssa.Instruction) bool {
		ret, ok := i.(*ssa.Return)
		return ok && !g.e.failing(env, ret, simp)
	}
}

func never(*Env, ssa.Instruction) bool { return false }

// inserts: every insertion is guarded.
func (g *c06t) inserts() {
	w, r, e := g.w, g.r, g.e
	const rule = "guarded insertion"
	for _, fn := range w.Funcs {
		if p := w.RelPkg(fn); p != "compiler" && p != "definition" || fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok || c.Common().StaticCallee() == nil {
					continue
				}
				m := omMethod(w, c.Common().StaticCallee())
				if m != "Put" {
					continue
				}
				decl, grp := g.declTable(c.Common().StaticCallee())
				if !decl {
					continue
				}
				name := fmt.Sprintf("%s into %s", fnName(fn), typeName(c.Common().Args[0].Type()))
				at := w.Pos(c.Pos())
				// judged in the function itself, else in each of its callers
				why := g.judge(e.Root(fn), c, nil, grp)
				if why != "" {
					callers := g.callers(fn)
					if len(callers) > 0 {
						why = ""
						for _, ci := range callers {
							cc, ok := ci.(*ssa.Call)
							if !ok {
								why = "it is deferred"
								continue
							}
							penv := e.Root(cc.Parent())
							if x := g.judge(penv, c, cc, grp); x != "" {
								why = x + " (called by " + fnName(cc.Parent()) + ")"
							}
						}
					}
				}
				r.Check(why == "", rule, name, at, why)
			}
		}
	}
	r.Floor(rule, 12)
}

func (g *c06t) callers(fn *ssa.Function) []ssa.CallInstruction {
	out := append([]ssa.CallInstruction{}, g.w.callersOf()[fn]...)
	if fn.Parent() != nil {
		// a closure is called where it was made, or by itself
		for p := fn.Parent(); p != nil; p = p.Parent() {
			for _, f := range append([]*ssa.Function{p}, p.AnonFuncs...) {
				if f == fn {
					continue
				}
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						if c, ok := i.(*ssa.Call); ok && !c.Common().IsInvoke() && c.Common().StaticCallee() == nil {
							if x := g.e.Val(g.e.Root(f), c.Common().Value); x.Op == "closure" && x.Fn == fn {
								out = append(out, c)
							}
						}
					}
				}
			}
		}
	}
	return out
}

// judge: in the context of root (entering the call via, when given), the insertion
// cannot happen and success cannot be reported once the key is in the table.
func (g *c06t) judge(env *Env, put *ssa.Call, via *ssa.Call, grp bool) string {
	e := g.e
	penv := env
	if via != nil {
		penv = e.calleeEnv(env, via)
		if penv == nil {
			return "the insertion is reached in an unknown way"
		}
	}
	args := e.omCall(penv, put, "Put")
	if args == nil {
		return "the insertion is not understood"
	}
	table, key := args[0], args[1]
	// the tables asked about this key in this context
	cands := []*X{}
	add := func(t *X) {
		for _, c := range cands {
			if sameTable(c, t) {
				return
			}
		}
		cands = append(cands, t)
	}
	conds := func(ev *Env) {
		for _, b := range ev.fn.Blocks {
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				e.Val(ev, iff.Cond).Walk(func(y *X) {
					if y.Op == "has" && len(y.Args) == 2 && Eq(y.Args[1], key) {
						add(y.Args[0])
					}
				})
			}
		}
	}
	conds(env)
	if via != nil {
		conds(penv)
	}
	if len(cands) == 0 {
		return "an entry is inserted although the table was not asked whether the name is taken"
	}
	why := ""
	// what kind of declaration it is about
	var kind []*X
	for _, gd := range e.Guards(penv, put.Block()) {
		if !gd.Has(func(y *X) bool {
			return y.Op == "has" || y.Op == "lookup" || y.Op == "new" || y.Op == "PositionEquals" || y.Op == "inv" && y.Lit == "PositionEquals"
		}) {
			kind = append(kind, gd)
		}
	}
	var leaves func(t *X, facts []*X) bool
	leaves = func(t *X, facts []*X) bool {
		if t.Op == "sel" {
			return leaves(t.Args[1], append(append([]*X{}, facts...), t.Args[0])) && leaves(t.Args[2], append(append([]*X{}, facts...), Not(t.Args[0])))
		}
		if len(facts) > len(kind) && t.Op == "new" {
			return true // a fresh table
		}
		for _, guard := range cands {
			simp := g.taken(guard, key, facts...)
			isPut := func(_ *Env, i ssa.Instruction) bool {
				return via == nil && i == ssa.Instruction(put) || via != nil && i == ssa.Instruction(via)
			}
			q := &pathQ{e: e, simp: simp, pass: never, goal: isPut}
			hit := q.reaches(env, env.fn.Blocks[0])
			if hit != nil && via != nil {
				q2 := &pathQ{e: e, simp: simp, pass: never, goal: func(_ *Env, i ssa.Instruction) bool { return i == ssa.Instruction(put) }}
				hit = q2.reaches(penv, penv.fn.Blocks[0])
			}
			if hit != nil {
				why = "an entry is inserted although the name is taken"
				continue
			}
			if grp {
				g.guarded[put] = guard
				return true
			}
			q = &pathQ{e: e, simp: simp, pass: never, goal: g.success(simp)}
			if hit := q.reaches(env, env.fn.Blocks[0]); hit != nil {
				why = "nothing is reported (" + g.w.Pos(instrPos(hit)) + ") when the name is taken"
				continue
			}
			// the guard table knows every name of the table
			if !sameTable(guard, t) {
				passG := func(pe *Env, i ssa.Instruction) bool {
					a := e.omCall(pe, i, "Put")
					return a != nil && sameTable(a[0], guard) && Eq(a[1], key)
				}
				before := &pathQ{e: e, simp: noHas, pass: passG, goal: isPut}
				if before.reaches(env, env.fn.Blocks[0]) != nil && !g.after(env, put, passG) {
					why = "the name is not entered into the table that is asked whether it is taken"
					continue
				}
			}
			// the error names the earlier declaration
			named := false
			prev := mk("lookup", "", guard, key)
			collect := &pathQ{e: e, simp: simp, pass: never, goal: func(pe *Env, i ssa.Instruction) bool {
				if ret, ok := i.(*ssa.Return); ok {
					for _, v := range ret.Results {
						x := simp(e.Val(pe, v))
						named = named || x.Has(func(y *X) bool {
							return Eq(y, prev) || y.Op == "lookup" && sameTable(y.Args[0], guard) && Eq(y.Args[1], key)
						})
					}
				}
				return false
			}}
			collect.reaches(env, env.fn.Blocks[0])
			if !named {
				why = "the error does not name the earlier declaration"
				continue
			}
			g.guarded[put] = guard
			for f := env.fn; f != nil; f = nil {
				g.carriers[f] = true
			}
			return true
		}
		return false
	}
	if leaves(table, kind) {
		return ""
	}
	return why
}

// after: behind the insertion every successful path enters the guard table.
func (g *c06t) after(env *Env, put *ssa.Call, pass func(*Env, ssa.Instruction) bool) bool {
	b := put.Block()
	k := instrIndex(put)
	for _, i := range b.Instrs[k+1:] {
		if pass(env, i) {
			return true
		}
	}
	if len(b.Succs) == 0 {
		return false
	}
	q := &pathQ{e: g.e, simp: noHas, pass: pass, goal: g.success(noHas)}
	for _, s := range b.Succs {
		if q.reaches(env, s) != nil {
			return false
		}
	}
	return true
}

// registers: an insertion, guarded, under the key.
func (g *c06t) registers(simp func(*X) *X, keys ...*X) func(env *Env, i ssa.Instruction) bool {
	return func(env *Env, i ssa.Instruction) bool {
		if g.guarded[i] == nil {
			return false
		}
		a := g.e.omCall(env, i, "Put")
		if a == nil {
			return false
		}
		for _, k := range keys {
			if Eq(simp(a[1]), simp(k)) {
				return true
			}
		}
		return false
	}
}

// positions: two declarations are the same only when file, line and column agree.
func (g *c06t) positions() {
	w, r, e := g.w, g.r, g.e
	const rule = "same position"
	p := func(x *X, n string) *X { return fieldOf(x, n) }
	n := 0
	for _, fn := range w.Funcs {
		if w.RelPkg(fn) != "definition" || fn.Name() != "PositionEquals" || fn.Synthetic != "" || fn.Blocks == nil {
			continue
		}
		n++
		env := e.RootBound(fn, "p", "q")
		x := e.Result(env)
		ps, q := Sym("p"), Sym("q")
		var alts []*X
		for _, self := range []*X{ps, mk("deref", "", ps)} {
			alts = append(alts, And(And(EqX(p(self, "File"), mk("inv", "GetFile", q)), EqX(p(self, "Line"), mk("inv", "GetLine", q))), EqX(p(self, "Column"), mk("inv", "GetColumn", q))))
		}
		ok := false
		for _, a := range alts {
			ok = ok || x != nil && equalBool(x, a)
		}
		r.Check(ok, rule, fnName(fn), w.Pos(fn.Pos()), fmt.Sprintf("two declarations count as the same when %v", x))
	}
	for get, f := range map[string]string{"GetFile": "File", "GetLine": "Line", "GetColumn": "Column"} {
		for _, fn := range w.Funcs {
			if w.RelPkg(fn) != "definition" || fn.Name() != get || fn.Synthetic != "" || fn.Blocks == nil || fn.Signature.Recv() == nil || !strings.HasSuffix(typeName(fn.Signature.Recv().Type()), "BasePosition") {
				continue
			}
			n++
			x := e.Result(e.RootBound(fn, "p"))
			r.Check(x != nil && (Eq(x, p(Sym("p"), f)) || Eq(x, p(mk("deref", "", Sym("p")), f))), rule, fnName(fn), w.Pos(fn.Pos()), fmt.Sprintf("%s is %v", get, x))
		}
	}
	r.Floor(rule, 4)
}

// equalBool: two conditions over atoms agree under every assignment.
func equalBool(a, b *X) bool {
	if Eq(a, b) {
		return true
	}
	atoms := map[string]*X{}
	var order []string
	var collect func(x *X)
	collect = func(x *X) {
		switch x.Op {
		case "and", "or", "not":
			for _, y := range x.Args {
				collect(y)
			}
		case "sel":
			for _, y := range x.Args {
				collect(y)
			}
		case "bool":
		default:
			if atoms[x.Key()] == nil {
				atoms[x.Key()] = x
				order = append(order, x.Key())
			}
		}
	}
	collect(a)
	collect(b)
	if len(order) > 10 {
		return false
	}
	for m := 0; m < 1<<len(order); m++ {
		val := func(x *X) *X {
			return Subst(x, func(y *X) *X {
				for k, key := range order {
					if y.Key() == key {
						return Bool(m>>k&1 == 1)
					}
				}
				return nil
			})
		}
		if !Eq(val(a), val(b)) {
			return false
		}
	}
	return true
}

// types: every type definition enters its name, at its own position.
func (g *c06t) types() {
	w, r, e := g.w, g.r, g.e
	const rule = "types registered"
	for _, kind := range []string{"Struct", "Enum"} {
		for _, fn := range w.visitFns(kind + "Def") {
			v := newVis(w, e, fn)
			nm := v.accept(kind + "Name")
			at := w.Pos(fn.Pos())
			if nm == nil {
				r.Bad(rule, fnName(fn), at, "the name of the type is not visited")
				continue
			}
			sc := v.scene().is(nm, "string")
			simp := func(x *X) *X { return noHas(sc.eval(noHas(x))) }
			q := &pathQ{e: e, simp: simp, pass: g.registers(simp, nm), goal: g.success(simp)}
			hit := q.reaches(v.env, fn.Blocks[0])
			r.Check(hit == nil, rule, fnName(fn), at, "a type can be defined without its name being entered")
			g.taken2(v, fn, nm, sc, rule)
			// the position it is entered with
			found := false
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					c, ok := i.(*ssa.Call)
					if !ok || c.Common().StaticCallee() == nil || !g.carriers[c.Common().StaticCallee()] {
						continue
					}
					var args []*X
					for _, a := range c.Common().Args {
						args = append(args, e.Val(v.env, a))
					}
					if len(args) < 3 || !Eq(simp(args[1]), simp(nm)) {
						continue
					}
					found = true
					g.ownPosition(v, args[2], rule, fnName(fn)+" position", w.Pos(c.Pos()))
				}
			}
			r.Check(found, rule, fnName(fn)+" entered", at, "the place where the name of a type is entered was not found")
		}
	}
	r.Floor(rule, 6)
}

// ownPosition: the position is that of the declaration in its file.
func (g *c06t) ownPosition(v *vis, pos *X, rule, name, at string) {
	fs := g.e.newFields(v.env, pos)
	get := func(f string) string {
		if fs[f] == nil {
			return ""
		}
		return fs[f].String()
	}
	file, line, col := get("File"), get("Line"), get("Column")
	g.r.Check(strings.Contains(file, "Unit.UnitName.Path"), rule, name, at, "the file of the declaration is "+cut(file, 100))
	g.r.Check(strings.Contains(line, "GetLine") && strings.Contains(line, "GetStart") && strings.Contains(col, "GetColumn") && strings.Contains(col, "GetStart"), rule, name+" line", at, "line and column of the declaration are "+cut(line, 100)+" and "+cut(col, 100))
}

// taken2: with the name taken the definition is rejected.
func (g *c06t) taken2(v *vis, fn *ssa.Function, nm *X, sc *scene, rule string) {
	e := g.e
	guards := map[string]*X{}
	for _, b := range fn.Blocks {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			e.Val(v.env, iff.Cond).Walk(func(y *X) {
				if y.Op == "has" && Eq(sc.eval(y.Args[1]), sc.eval(nm)) {
					guards[y.Args[0].Key()] = y.Args[0]
				}
			})
		}
	}
	ok := false
	for _, t := range guards {
		tk := g.taken(t, nm)
		simp := func(x *X) *X { return tk(sc.eval(tk(x))) }
		q := &pathQ{e: e, simp: simp, pass: never, goal: g.success(simp)}
		ok = ok || q.reaches(v.env, fn.Blocks[0]) == nil
	}
	g.r.Check(ok, rule, fnName(fn)+" rejected", g.w.Pos(fn.Pos()), "a second type with a name that is taken is not rejected")
}

// eachElement checks a visitor that collects the elements of a list: in the given
// scenes every element is registered before the next one or before success.
func (g *c06t) eachElement(rule, grammar, list string, what map[string][]string, keys func(kind string, elem *X) []*X, more func(v *vis, ov *overAll, elem *X)) {
	w, r, e := g.w, g.r, g.e
	seen := false
	for _, fn := range w.visitFns(grammar) {
		v := newVis(w, e, fn)
		at := w.Pos(fn.Pos())
		for _, ov := range e.loopsOver(v.env) {
			if ov.List.Op != "call" || ov.List.Fn == nil || ov.List.Fn.Name() != list || !Eq(ov.List.Args[0], v.ctx) {
				continue
			}
			var elem *X
			var body *ssa.BasicBlock
			for _, s := range ov.Head.Succs {
				if ov.Loop[s] {
					body = s
				}
			}
			for b := range ov.Loop {
				for _, i := range b.Instrs {
					if c, ok := i.(*ssa.Call); ok {
						if x := e.Val(ov.Env, c); x.Op == "inv" && x.Lit == "Accept" && Eq(x.Args[0], ov.Elem) {
							elem = x
						}
					}
				}
			}
			if elem == nil || body == nil {
				continue
			}
			seen = true
			r.Check(ov.exitsByReturn(), rule, fnName(fn)+" to the end", at, "not all elements are looked at")
			for kind, types := range what {
				sc := v.scene().is(elem, types...).fact(Not(EqX(elem, mk("nil", ""))))
				simp := func(x *X) *X { return noHas(sc.eval(noHas(x))) }
				for n, key := range keys(kind, elem) {
					base := sc
					if kind == "constant" {
						base = sc.fact(Not(EqX(fieldOf(elem, "FieldName"), Str(""))))
						simp = func(x *X) *X { return noHas(base.eval(noHas(x))) }
					}
					reg := g.registers(simp, key)
					q := &pathQ{e: e, simp: simp, pass: func(env *Env, i ssa.Instruction) bool { return reg(env, i) || isJoin(i) }, goal: func(env *Env, i ssa.Instruction) bool {
						if i.Block() == ov.Head {
							return true
						}
						return g.success(simp)(env, i)
					}}
					hit := q.reaches(ov.Env, body)
					where := at
					if hit != nil {
						where = w.Pos(instrPos(hit))
					}
					r.Check(hit == nil, rule, fmt.Sprintf("%s %s %d", fnName(fn), kind, n), where, "a "+kind+" can be accepted without its name being entered")
				}
				if more != nil {
					more(v, ov, elem)
				}
			}
		}
	}
	r.Check(seen, rule, grammar, "compiler", "the elements are not collected one by one")
}

func isJoin(i ssa.Instruction) bool {
	c, ok := i.(*ssa.Call)
	return ok && c.Common().StaticCallee() != nil && c.Common().StaticCallee().Name() == "TopLevelErrorsJoin"
}

func (g *c06t) fields() {
	const rule = "fields registered"
	done := false
	g.eachElement(rule, "StructBody", "AllStructElement", map[string][]string{
		"field":              {"definition.Field", "*definition.NormalField"},
		"constant":           {"definition.Field", "*definition.ConstantField"},
		"embedded structure": {"definition.Field", "*definition.EmbeddedField"},
	}, func(kind string, elem *X) []*X {
		if kind == "embedded structure" {
			return []*X{fieldOf(fieldOf(elem, "FieldType"), "StructName")}
		}
		return []*X{fieldOf(elem, "FieldName")}
	}, func(v *vis, ov *overAll, elem *X) {
		if done {
			return
		}
		done = true
		var table *X
		for _, o := range outcomes(v.res) {
			if o.Op == "new" && strings.Contains(o.Lit, "OrderedMap") {
				table = o
			}
		}
		if table == nil {
			g.r.Bad(rule, fnName(v.fn)+" table", g.w.Pos(v.fn.Pos()), "no table of fields is returned")
			return
		}
		c33embed(g.w, g.r, g.e, v, ov, elem, table, fnName(v.fn))
		g.accessorNames(v, ov, elem)
	})
	g.eachElement("values registered", "EnumBody", "AllEnumElement", map[string][]string{"value": {"*definition.EnumValue"}}, func(_ string, elem *X) []*X {
		return []*X{fieldOf(elem, "EnumValueName")}
	}, nil)
	g.r.Floor(rule, 5)
}

func (g *c06t) options() {
	const rule = "options registered"
	key := func(_ string, elem *X) []*X { return []*X{fieldOf(elem, "OptionName")} }
	g.eachElement(rule, "FieldOptions", "AllFieldOption", map[string][]string{"option": {"*definition.Option"}}, key, nil)
	g.eachElement(rule, "Proto", "AllOptionStatement", map[string][]string{"option": {"*definition.Option"}}, key, nil)
	g.r.Floor(rule, 4)
}

func (g *c06t) methods() {
	const rule = "accessors registered"
	g.eachElement(rule, "FieldMethods", "AllFieldMethod", map[string][]string{"get": {"definition.Method", "*definition.GetMethod"}, "set": {"definition.Method", "*definition.SetMethod"}}, func(_ string, elem *X) []*X {
		return []*X{mk("inv", "GetMethodKind", elem)}
	}, nil)
	w, r, e := g.w, g.r, g.e
	kinds := map[string]string{}
	for _, fn := range w.Funcs {
		if w.RelPkg(fn) != "definition" || fn.Signature.Recv() == nil || fn.Synthetic != "" || fn.Blocks == nil {
			continue
		}
		rt := strings.TrimPrefix(typeName(fn.Signature.Recv().Type()), "*")
		if rt != "definition.GetMethod" && rt != "definition.SetMethod" {
			continue
		}
		x := e.Result(e.RootBound(fn, "m"))
		switch fn.Name() {
		case "GetMethodKind":
			if x != nil {
				kinds[x.String()] += rt + " "
			}
			_, ok := x.IsInt()
			r.Check(x != nil && ok, rule, fnName(fn), w.Pos(fn.Pos()), fmt.Sprintf("the kind of an accessor is %v", x))
		case "GetMethodName":
			r.Check(x != nil && x.Op == "field" && x.Lit == "MethodName", rule, fnName(fn), w.Pos(fn.Pos()), fmt.Sprintf("the name of an accessor is %v", x))
		}
	}
	r.Check(len(kinds) == 2, rule, "kinds", "definition/method.go", fmt.Sprintf("getters and setters do not have two different kinds: %v", kinds))
	r.Floor(rule, 7)
}

// imports: all names of an imported file are merged into the importing one.
func (g *c06t) imports() {
	w, r, e := g.w, g.r, g.e
	const rule = "imported names"
	for _, fn := range w.Funcs {
		if w.RelPkg(fn) != "definition" || fn.Signature.Recv() == nil || !strings.HasSuffix(typeName(fn.Signature.Recv().Type()), "CompilationUnit") || fn.Name() != "AddImport" || fn.Synthetic != "" {
			continue
		}
		env := e.RootBound(fn, "unit", "other")
		unit, other := Sym("unit"), Sym("other")
		at := w.Pos(fn.Pos())
		names := fieldOf(other, "GlobalNames")
		n := 0
		var all []*overAll
		for _, ov := range e.loopsOver(env) {
			el, key := ov.Elem, (*X)(nil)
			if ov.List.Op == "om" && ov.List.Lit == "Entries" && len(ov.List.Args) > 0 && Eq(ov.List.Args[0], names) {
				key, el = fieldOf(ov.Elem, "Key"), fieldOf(ov.Elem, "Value")
			} else {
				continue
			}
			n++
			all = append(all, ov)
			var body *ssa.BasicBlock
			for _, s := range ov.Head.Succs {
				if ov.Loop[s] {
					body = s
				}
			}
			r.Check(ov.exitsByReturn(), rule, fnName(fn)+" all", at, "not all names of an imported file are merged")
			reg := g.registers(noHas, key)
			atHead := func(pe *Env, i ssa.Instruction) bool { return i.Block() == ov.Head || g.success(noHas)(pe, i) }
			q := &pathQ{e: e, simp: noHas, pass: func(pe *Env, i ssa.Instruction) bool {
				if !reg(pe, i) {
					return false
				}
				a := e.omCall(pe, i, "Put")
				return sameTable(a[0], fieldOf(unit, "GlobalNames")) && Eq(a[2], el)
			}, goal: atHead}
			r.Check(q.reaches(ov.Env, body) == nil, rule, fnName(fn)+" merged", at, "a name of an imported file can be left out")
			simp := g.taken(fieldOf(unit, "GlobalNames"), key)
			q = &pathQ{e: e, simp: simp, pass: func(_ *Env, i ssa.Instruction) bool { return isJoin(i) }, goal: func(pe *Env, i ssa.Instruction) bool {
				return i.Block() == ov.Head || g.success(simp)(pe, i)
			}}
			r.Check(q.reaches(ov.Env, body) == nil, rule, fnName(fn)+" rejected", at, "a name that is both imported and taken is not reported")
		}
		r.Check(n > 0, rule, fnName(fn), at, "the names of an imported file are not merged one by one")
		// left out only when the same file was merged before
		imported := mk("has", "", fieldOf(unit, "GlobalImports"), fieldOf(fieldOf(other, "UnitName"), "Path"))
		simp := func(x *X) *X { return sat(x, Not(imported)) }
		for _, ov := range all {
			q := &pathQ{e: e, simp: simp, pass: func(_ *Env, i ssa.Instruction) bool { return i.Block() == ov.Head }, goal: g.success(simp)}
			r.Check(q.reaches(env, fn.Blocks[0]) == nil, rule, fnName(fn)+" always", at, "the names of an imported file are not always merged")
		}
		// what counts as merged: the file itself and the files merged into it
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				a := e.omCall(env, i, "Put")
				if a == nil || !Eq(a[0], fieldOf(unit, "GlobalImports")) {
					continue
				}
				ok := Eq(a[2], other) || a[2].Has(func(y *X) bool { return Eq(y, fieldOf(other, "GlobalImports")) })
				ok = ok && Eq(a[1], fieldOf(fieldOf(a[2], "UnitName"), "Path"))
				for _, ov := range all {
					dom := ov.Head.Dominates(b)
					ok = ok && dom
				}
				r.Check(ok, rule, fnName(fn)+" marked", w.Pos(instrPos(i)), "a file is marked as merged that was not")
			}
		}
	}
	// nobody else marks
	for _, fn := range w.Funcs {
		if w.RelPkg(fn) == "parser" || fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok || c.Common().StaticCallee() == nil {
					continue
				}
				switch omMethod(w, c.Common().StaticCallee()) {
				case "Put", "PutAnonymous", "Remove", "Clear", "Set", "Delete":
				default:
					continue
				}
				f := fieldLoaded(c.Common().Args[0])
				switch f {
				case "GlobalImports", "GlobalNames", "LocalNames", "GlobalTypes", "LocalTypes":
					in := w.RelPkg(fn) == "definition"
					r.Check(in && omMethod(w, c.Common().StaticCallee()) == "Put", rule, fnName(fn)+" changes "+f, w.Pos(c.Pos()), "the tables of names are changed outside the functions that check them")
				}
			}
		}
	}
	r.Floor(rule, 8)
}

func fieldLoaded(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fieldName(fa)
		}
	}
	return ""
}

// flow: the duplicate errors reach the caller of every function they pass.
func (g *c06t) flow() {
	w, r := g.w, g.r
	const rule = "duplicate reported"
	visits := map[string]bool{}
	done := map[ssa.Instruction]bool{}
	asserted := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for f := range g.carriers {
			if strings.HasPrefix(f.Name(), "Visit") && !visits[f.Name()] {
				visits[f.Name()] = true
				changed = true
			}
		}
		for _, fn := range w.Funcs {
			if p := w.RelPkg(fn); p != "compiler" && p != "definition" && p != "" || fn.Synthetic != "" || fn.Blocks == nil {
				continue
			}
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					c, ok := i.(*ssa.Call)
					if !ok || done[i] || c.Call.Signature().Results().Len() == 0 {
						continue
					}
					com := c.Common()
					carrier := false
					if com.IsInvoke() && com.Method.Name() == "Accept" {
						t := typeName(com.Value.Type())
						t = strings.TrimSuffix(strings.TrimPrefix(t[strings.LastIndexByte(t, '.')+1:], "I"), "Context")
						carrier = visits["Visit"+t]
						if t == "ParseTree" || t == "ParserRuleContext" || t == "Proto" {
							carrier = true
						}
					} else if f := com.StaticCallee(); f != nil {
						carrier = g.carriers[f]
					} else if !com.IsInvoke() {
						x := g.e.Val(g.e.Root(fn), com.Value)
						carrier = x.Op == "closure" && g.carriers[x.Fn]
					}
					if !carrier {
						continue
					}
					done[i] = true
					changed = true
					g.carriers[fn] = true
					if fn.Parent() == nil {
						// a closure given away is called by whoever got it
					}
					construct := fnName(fn) + " <- " + shortCallee(c)
					if addedBefore(w, c) {
						r.OK(rule, construct)
						continue
					}
					checked := false
					for _, f := range fallibleCalls(w, fn, false) {
						if f.call == ssa.CallInstruction(c) {
							checked = true
							if f.val == nil || noUses(f.val) {
								r.Bad(rule, construct, w.Pos(c.Pos()), "the error is discarded")
							} else {
								checkErrLost(w, r, rule, construct, fn, f.val)
							}
						}
					}
					if !checked && !asserted[fn] {
						asserted[fn] = true
						checkAssertedErrors(w, r, fn)
					}
				}
			}
		}
	}
	checkJoin(w, r, "definition", "TopLevelErrorsJoin")
	r.Floor(rule, 15)
}

// accessorNames: the accessors of a field take their names in the structure, too.
func (g *c06t) accessorNames(v *vis, outer *overAll, elem *X) {
	w, r, e := g.w, g.r, g.e
	const rule = "fields registered"
	methods := fieldOf(elem, "FieldMethods")
	found := false
	for b := range outer.Loop {
		for _, i := range b.Instrs {
			c, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			ne := e.calleeEnv(outer.Env, c)
			if ne == nil {
				continue
			}
			for _, ov := range e.loopsOver(ne) {
				if ov.List.Op != "om" || len(ov.List.Args) == 0 || !Eq(ov.List.Args[0], methods) {
					continue
				}
				key := ov.Elem
				if ov.List.Lit == "Entries" {
					key = fieldOf(ov.Elem, "Key")
				} else if ov.List.Lit != "Keys" {
					continue
				}
				found = true
				var body *ssa.BasicBlock
				for _, s := range ov.Head.Succs {
					if ov.Loop[s] {
						body = s
					}
				}
				sc := v.scene().is(elem, "definition.Field", "*definition.NormalField")
				simp := func(x *X) *X { return noHas(sc.eval(noHas(x))) }
				reg := g.registers(simp, key)
				at := w.Pos(ne.fn.Pos())
				q := &pathQ{e: e, simp: simp, pass: func(env *Env, i ssa.Instruction) bool { return reg(env, i) || isJoin(i) }, goal: func(env *Env, i ssa.Instruction) bool {
					return i.Block() == ov.Head || g.success(simp)(env, i)
				}}
				r.Check(q.reaches(ov.Env, body) == nil, rule, fnName(ne.fn)+" accessor names", at, "the name of an accessor can be left out of the names of its structure")
				q = &pathQ{e: e, simp: simp, pass: func(env *Env, i ssa.Instruction) bool { return i.Block() == ov.Head }, goal: g.success(simp)}
				r.Check(q.reaches(ne, ne.fn.Blocks[0]) == nil, rule, fnName(ne.fn)+" accessors", at, "the accessors of a field can be left out of the names of its structure")
			}
		}
	}
	r.Check(found, rule, fnName(v.fn)+" accessors", w.Pos(v.fn.Pos()), "the names of a field's accessors are not entered one by one")
}
