package main

import (
	"fmt"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C31", "reachability in every target's structure generator (no accessor can be passed over, plain ones only without minimal code) and symbolic rendering of what is appended: each accessor's text, in every branch, has its own name, field and expression", c31)
}

type c31t struct {
	w   *World
	r   *Report
	e   *Eval
	cur *X // the field
	// per target: how accessors are named, and the path to a field
	nameStyle, access map[string]map[string]bool
}

func c31(w *World, r *Report) {
	r.Explain = "accessors are followed from the schema's text to the generated one: the visitor keeps the name, the type and the expression of each; every structure generator runs over all groups and all methods of all normal fields and no path through an iteration skips appending the text; each appended text, rendered branch by branch, names the accessor after the method, reads or assigns that method's field and holds the generated form of that method's expression only; plain accessors are appended on every path without minimal code and on none with it."
	g := &c31t{w: w, r: r, e: w.textEval("GenerateExpr", "generateExpr", "GenerateType", "GenerateEncoder", "GenerateDecoder"), nameStyle: map[string]map[string]bool{}, access: map[string]map[string]bool{}}
	g.declared()
	g.targets()
}

// declared: the visitor keeps what the schema says.
func (g *c31t) declared() {
	const rule = "declared accessor"
	w, r, e := g.w, g.r, g.w.vx
	for _, fn := range w.visitFns("FieldMethod") {
		v := newVis(w, e, fn)
		at, name := w.Pos(fn.Pos()), fnName(fn)
		if onlyPanics(fn) {
			continue
		}
		nm, ty, ex := v.accept("MethodName"), v.accept("BasicType"), v.accept("Expr")
		if nm == nil || ty == nil || ex == nil {
			r.Bad(rule, name, at, "the name, type or expression of an accessor is not visited")
			continue
		}
		for _, k := range []struct{ tok, other, typ, tyField string }{{"GET", "SET", "GetMethod", "MethodRetType"}, {"SET", "GET", "SetMethod", "MethodParamType"}} {
			s := v.scene().has(k.tok).hasNot(k.other).has("MethodName").is(nm, "string").is(ty, "*definition.BasicType", "definition.Type").is(ex, "definition.Expr").fact(Not(EqX(nm, Str(""))))
			n := 0
			for _, o := range outcomes(s.result()) {
				if rejected(o) {
					continue
				}
				n++
				if o.Op != "new" || !strings.HasSuffix(o.Lit, "."+k.typ) {
					r.Bad(rule, name+" "+k.tok, at, "a "+k.tok+" accessor becomes "+cut(o.String(), 100))
					continue
				}
				fs := e.newFields(v.env, o)
				for f, want := range map[string]*X{"MethodName": nm, "MethodExpr": ex, k.tyField: ty} {
					got := fs[f]
					if got != nil {
						got = s.eval(got)
					}
					r.Check(got != nil && Eq(got, want), rule, name+" "+k.tok+" "+f, at, fmt.Sprintf("%s of the accessor is %v", f, got))
				}
			}
			r.Check(n > 0, rule, name+" "+k.tok, at, "a "+k.tok+" accessor is never accepted")
		}
	}
	for _, fn := range w.visitFns("MethodName") {
		if onlyPanics(fn) {
			continue
		}
		v := newVis(w, e, fn)
		id := v.accept("Ident")
		for _, o := range outcomes(v.res) {
			if !rejected(o) {
				r.Check(id != nil && (Eq(o, id)), rule, fnName(fn), w.Pos(fn.Pos()), "the name of an accessor becomes "+cut(o.String(), 100))
			}
		}
	}
	// kept with the field
	for _, fn := range w.visitFns("FieldNormal") {
		v := newVis(w, e, fn)
		ms := v.accept("FieldMethods")
		if ms == nil {
			r.Bad(rule, fnName(fn), w.Pos(fn.Pos()), "the accessors of a field are not visited")
			continue
		}
		s := v.scene().has("FieldMethods").is(ms, typeNameOM)
		for _, o := range outcomes(s.result()) {
			if rejected(o) || o.Op != "new" {
				continue
			}
			got := e.newFields(v.env, o)["FieldMethods"]
			if got != nil {
				got = s.eval(got)
			}
			ok := false
			for _, y := range leaves2(got) {
				ok = ok || Eq(y, ms)
			}
			r.Check(ok, rule, fnName(fn), w.Pos(fn.Pos()), fmt.Sprintf("the accessors of a field become %v", got))
		}
	}
	g.kept(rule)
	r.Floor(rule, 15)
}

// kept: every accessor of a field is entered under its name and kind, belongs to
// the field, and stays when the field is copied.
func (g *c31t) kept(rule string) {
	w, r, e := g.w, g.r, g.w.vx
	found := false
	for _, fn := range w.visitFns("FieldMethods") {
		v := newVis(w, e, fn)
		at := w.Pos(fn.Pos())
		for _, ov := range e.loopsOver(v.env) {
			if ov.List.Op != "call" || ov.List.Fn == nil || ov.List.Fn.Name() != "AllFieldMethod" {
				continue
			}
			found = true
			elem := mk("inv", "Accept", ov.Elem, Sym("v"))
			for b := range ov.Loop {
				for _, i := range b.Instrs {
					if c, ok := i.(*ssa.Call); ok {
						if x := e.Val(ov.Env, c); x.Op == "inv" && x.Lit == "Accept" && Eq(x.Args[0], ov.Elem) {
							elem = x
						}
					}
				}
			}
			nm, kd := mk("inv", "GetMethodName", elem), mk("inv", "GetMethodKind", elem)
			for _, k := range []string{"Get", "Set"} {
				sc := v.scene().is(elem, "definition.Method", "*definition."+k+"Method").fact(Not(EqX(elem, mk("nil", ""))))
				for _, known := range []bool{false, true} {
					simp := func(x *X) *X {
						for i := 0; i < 4; i++ {
							key := x.Key()
							x = sc.eval(Subst(sc.eval(x), func(y *X) *X {
								if y.Op == "has" {
									return Bool(known && Eq(sc.eval(y.Args[1]), sc.eval(nm)))
								}
								return nil
							}))
							if x.Key() == key {
								break
							}
						}
						return x
					}
					try := func(what string, put func(a []*X) bool, why string) {
						q := &pathQ{e: e, simp: simp, pass: func(env *Env, i ssa.Instruction) bool {
							if isJoin(i) {
								return true
							}
							a := e.omCall(env, i, "Put")
							return a != nil && put(a)
						}, goal: func(env *Env, i ssa.Instruction) bool {
							ret, ok := i.(*ssa.Return)
							return i.Block() == ov.Head || ok && env == ov.Env && !e.failing(env, ret, simp)
						}}
						r.Check(q.reaches(ov.Env, bodyOf(ov)) == nil, rule, fmt.Sprintf("%s %s %s known %v", fnName(fn), k, what, known), at, why)
					}
					try("kind", func(a []*X) bool {
						if known && !simp(a[0]).Has(func(y *X) bool { return y.Op == "lookup" && Eq(simp(y.Args[1]), simp(nm)) }) {
							return false
						}
						return Eq(simp(a[1]), simp(kd)) && Eq(simp(a[2]), simp(elem))
					}, "an accessor can be accepted without being entered with its kind")
					if !known {
						try("name", func(a []*X) bool { return Eq(simp(a[1]), simp(nm)) }, "an accessor can be accepted without its group being entered")
					}
				}
			}
		}
	}
	r.Check(found, rule, "field methods", "compiler", "the accessors of a field are not collected one by one")
	for _, fn := range w.visitFns("FieldNormal") {
		ok := false
		env := e.Root(fn)
		for _, ov := range e.loopsOver(env) {
			for _, in := range e.loopsOver(ov.Env) {
				if ov.List.Op != "om" || ov.List.Lit != "Values" || in.List.Op != "om" || in.List.Lit != "Values" || !Eq(in.List.Args[0], ov.Elem) || !ov.Loop[in.Head] {
					continue
				}
				q := &pathQ{e: e, pass: func(env *Env, i ssa.Instruction) bool {
					c, ok := i.(*ssa.Call)
					return ok && c.Call.IsInvoke() && c.Call.Method.Name() == "SetMethodBelongs" && Eq(e.Val(env, c.Call.Value), in.Elem)
				}, goal: func(env *Env, i ssa.Instruction) bool { return i.Block() == in.Head }}
				q2 := &pathQ{e: e, pass: func(_ *Env, i ssa.Instruction) bool { return i.Block() == in.Head }, goal: func(env *Env, i ssa.Instruction) bool { return i.Block() == ov.Head }}
				ok = ok || ov.exitsByReturn() && in.exitsByReturn() && q.reaches(in.Env, bodyOf(in)) == nil && q2.reaches(ov.Env, bodyOf(ov)) == nil
			}
		}
		r.Check(ok, rule, fnName(fn)+" belongs", w.Pos(fn.Pos()), "not every accessor is told the field it belongs to")
	}
	for _, fn := range w.Funcs {
		if w.RelPkg(fn) != "definition" || fn.Name() != "Copy" || fn.Synthetic != "" || fn.Signature.Recv() == nil || !strings.HasSuffix(typeName(fn.Signature.Recv().Type()), ".NormalField") {
			continue
		}
		env := e.RootBound(fn, "f")
		x := e.Result(env)
		if x == nil || x.Op != "new" {
			r.Bad(rule, fnName(fn), w.Pos(fn.Pos()), fmt.Sprintf("the copy of a field is %v", x))
			continue
		}
		got := e.newFields(env, x)["FieldMethods"]
		r.Check(got != nil && strings.HasSuffix(got.String(), "f.FieldMethods"), rule, fnName(fn), w.Pos(fn.Pos()), fmt.Sprintf("the accessors of the copy of a field are %v", got))
	}
}

const typeNameOM = "*util.OrderedMap[string,*github.com/xaxys/bubbler/util.OrderedMap[github.com/xaxys/bubbler/definition.MethodKindID,github.com/xaxys/bubbler/definition.Method]]"

func leaves2(x *X) []*X {
	if x == nil {
		return nil
	}
	if x.Op == "sel" {
		return append(leaves2(x.Args[1]), leaves2(x.Args[2])...)
	}
	return []*X{x}
}

func (g *c31t) targets() {
	const rule = "every accessor"
	w, r, e := g.w, g.r, g.e
	seen := map[string]bool{}
	all := map[string]bool{}
	for _, fn := range w.Funcs {
		pkg := w.RelPkg(fn)
		if !strings.HasPrefix(pkg, "generator/target/") {
			continue
		}
		all[pkg] = true
		if fn.Synthetic != "" {
			continue
		}
		env := e.Root(fn)
		for _, ov := range e.loopsOver(env) {
			x := ov.List
			if x.Op != "om" || (x.Lit != "Values" && x.Lit != "Entries") || x.Args[0].Op != "field" || x.Args[0].Lit != "FieldMethods" {
				if partOf(x) {
					r.Bad(rule, fnName(fn), w.Pos(fn.Pos()), "not all accessors are generated, only "+cut(x.String(), 100))
				}
				continue
			}
			seen[pkg] = true
			g.structure(fn, ov.Env, ov, x.Args[0].Args[0], pkg)
		}
	}
	for p := range all {
		r.Check(seen[p], rule, p, p, "the target never runs over the accessors of a field")
		for what, m := range map[string]map[string]map[string]bool{"accessors are named": g.nameStyle, "fields are reached": g.access} {
			r.Check(len(m[p]) == 1, "one way of naming", p+" "+what, p, fmt.Sprintf("in the accessors of this target %s in more than one way: %v", what, m[p]))
		}
	}
	r.Floor(rule, 60)
	r.Floor("plain accessors", 40)
	r.Floor("written out", 10)
	r.Floor("one way of naming", 18)
}

// partOf: the list is taken from the values of a field's accessors.
func partOf(x *X) bool {
	switch x.Op {
	case "slice", "anyof", "sel", "list", "tail":
		for _, a := range x.Args {
			if partOf(a) {
				return true
			}
		}
	case "om":
		return len(x.Args) > 0 && x.Args[0].Op == "field" && x.Args[0].Lit == "FieldMethods"
	}
	return false
}

// structure judges the function that runs over the accessors of a field.
func (g *c31t) structure(fn *ssa.Function, env *Env, ov *overAll, field *X, pkg string) {
	const rule = "every accessor"
	w, r, e := g.w, g.r, g.e
	at, name := w.Pos(fn.Pos()), fnName(fn)
	group := ov.Elem
	if ov.List.Lit == "Entries" {
		group = fieldOf(ov.Elem, "Value")
	}
	r.Check(ov.exitsByReturn(), rule, name+" all groups", at, "the accessors of a field are not all visited")
	// reached for every normal field
	normal, _ := w.Const("definition", "FieldKindID_Normal")
	sc := (&scene{}).is(field, "*definition.NormalField", "definition.Field")
	if normal != nil {
		sc = sc.put(mk("inv", "GetFieldKind", field), normal)
	}
	base := sc
	simp := func(s *scene) func(x *X) *X {
		return func(x *X) *X { return s.eval(x) }
	}
	success := func(s *scene) func(env *Env, i ssa.Instruction) bool {
		return func(env *Env, i ssa.Instruction) bool {
			ret, ok := i.(*ssa.Return)
			return ok && !e.failing(env, ret, simp(s))
		}
	}
	if k := field; k.Op == "param" || k.Op == "sym" {
		q := &pathQ{e: e, simp: simp(base), pass: func(_ *Env, i ssa.Instruction) bool { return i.Block() == ov.Head }, goal: success(base)}
		hit := q.reaches(env, fn.Blocks[0])
		r.Check(hit == nil, rule, name+" normal fields", at, "the accessors of a normal field can be passed over")
		r.Check(g.visitsFields(fn), rule, name+" fields", at, "the function is not applied to every field of the structure")
	} else {
		ok := false
		for _, f := range e.loopsOver(e.Root(fn)) {
			if f.List.Op != "om" || f.List.Lit != "Values" || f.List.Args[0].Op != "field" || f.List.Args[0].Lit != "StructFields" || !f.Loop[ov.Head] {
				continue
			}
			for _, o2 := range e.loopsOver(f.Env) {
				if o2.Head != ov.Head || o2.List.Op != "om" || !Eq(o2.List.Args[0], fieldOf(f.Elem, "FieldMethods")) {
					continue
				}
				// judged in the outer iteration
				ok = true
				ov, env, field = o2, o2.Env, f.Elem
				base = (&scene{}).is(field, "*definition.NormalField", "definition.Field").put(mk("inv", "GetFieldKind", field), normal)
				group = ov.Elem
				if ov.List.Lit == "Entries" {
					group = fieldOf(ov.Elem, "Value")
				}
				r.Check(f.exitsByReturn(), rule, name+" fields", at, "not all fields are visited")
				q := &pathQ{e: e, simp: simp(base), pass: func(_ *Env, i ssa.Instruction) bool { return i.Block() == ov.Head }, goal: func(env *Env, i ssa.Instruction) bool {
					return i.Block() == f.Head || success(base)(env, i)
				}}
				r.Check(q.reaches(f.Env, bodyOf(f)) == nil, rule, name+" normal fields", at, "the accessors of a normal field can be passed over")
			}
		}
		r.Check(ok, rule, name+" fields", at, "the fields of the structure are not visited one by one")
	}
	g.cur = field
	// the methods of a group
	var inner *overAll
	for _, in := range e.loopsOver(ov.Env) {
		if ov.Loop[in.Head] && in.Head != ov.Head && in.List.Op == "om" && in.List.Lit == "Values" && Eq(in.List.Args[0], group) {
			inner = in
		}
	}
	kinds := []string{"Get", "Set"}
	decls := []bool{false}
	if g.hasDecl(pkg) {
		decls = append(decls, true)
	}
	if inner != nil {
		r.Check(inner.exitsByReturn(), rule, name+" all methods", at, "the accessors of a group are not all visited")
		q := &pathQ{e: e, simp: simp(base), pass: func(_ *Env, i ssa.Instruction) bool { return i.Block() == inner.Head || isJoin(i) }, goal: func(env *Env, i ssa.Instruction) bool {
			return i.Block() == ov.Head || success(base)(env, i)
		}}
		r.Check(q.reaches(env, bodyOf(ov)) == nil, rule, name+" every group", at, "a group of accessors can be passed over")
		for _, k := range kinds {
			s := base.is(inner.Elem, "*definition."+k+"Method", "definition.Method").putF(inner.Elem, "MethodName", Str("some_name"))
			judgeS := base.is(inner.Elem, "*definition."+k+"Method", "definition.Method").fact(Not(EqX(fieldOf(inner.Elem, "MethodName"), Str(""))), Not(EqX(Str(""), fieldOf(inner.Elem, "MethodName"))))
			_ = s
			for _, d := range decls {
				what := name + " " + k
				if d {
					what += " declaration"
				}
				why := "nothing is appended for it"
				q := &pathQ{e: e, simp: simp(judgeS), pass: func(env *Env, i ssa.Instruction) bool {
					if isJoin(i) {
						return true
					}
					for _, x := range g.appended(env, i) {
						x = g.expand(pkg, judgeS.eval(x))
						x = judgeS.eval(x)
						ok, no := g.accessor(pkg, x, k, d, func(m *X) bool { return Eq(m, inner.Elem) })
						if ok {
							return true
						}
						if no != "" {
							why = no
						}
					}
					return false
				}, goal: func(env *Env, i ssa.Instruction) bool {
					return i.Block() == inner.Head || success(judgeS)(env, i)
				}}
				r.Check(q.reaches(inner.Env, bodyOf(inner)) == nil, rule, what, at, "a "+k+" accessor is not generated as such: "+why)
			}
		}
	} else {
		g.groups(fn, env, ov, group, base, pkg)
	}
	g.written(fn, ov)
	// plain accessors
	g.plain(fn, env, field, base, pkg)
}

// visitsFields: the closure is what a structure's fields are visited with.
func (g *c31t) visitsFields(fn *ssa.Function) bool {
	if fn.Parent() == nil {
		return len(g.w.callersOf()[fn]) > 0
	}
	for _, b := range fn.Parent().Blocks {
		for _, i := range b.Instrs {
			mc, ok := i.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn || mc.Referrers() == nil {
				continue
			}
			for _, ref := range *mc.Referrers() {
				var c *ssa.Call
				switch ref := ref.(type) {
				case *ssa.Call:
					c = ref
				case *ssa.ChangeType:
					for _, r2 := range *ref.Referrers() {
						if c2, ok := r2.(*ssa.Call); ok {
							c = c2
						}
					}
				}
				if c == nil {
					continue
				}
				if f := c.Common().StaticCallee(); f != nil && g.w.RelPkg(f) == "definition" && strings.HasPrefix(f.Name(), "ForEachField") {
					return true
				}
			}
		}
	}
	return false
}

func bodyOf(ov *overAll) *ssa.BasicBlock {
	for _, s := range ov.Head.Succs {
		if ov.Loop[s] && s != ov.Head {
			return s
		}
	}
	return ov.Head
}

// hasDecl: the target declares accessors apart from defining them.
func (g *c31t) hasDecl(pkg string) bool {
	for _, fn := range g.w.Funcs {
		if g.w.RelPkg(fn) == pkg && fn.Name() == "GenerateCustomGetterDecl" && fn.Synthetic == "" && fn.Blocks != nil && !onlyPanics(fn) {
			x := g.e.Result(g.e.Root(fn))
			if x != nil && x.Op == "tuple" && x.Args[0].Op != "str" && x.Args[0].Op != "bottom" {
				return true
			}
		}
	}
	return false
}

// appended are the values an instruction adds to a list of texts.
func (g *c31t) appended(env *Env, i ssa.Instruction) []*X {
	c, ok := i.(*ssa.Call)
	if !ok {
		return nil
	}
	b, ok := c.Common().Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" {
		return nil
	}
	switch a := c.Common().Args[0].(type) {
	case *ssa.Slice, *ssa.MakeSlice, *ssa.Const:
		_ = a
		return nil // not added to what is there
	}
	kept := false
	for _, ref := range *c.Referrers() {
		switch ref := ref.(type) {
		case *ssa.Store:
			u, ok := c.Common().Args[0].(*ssa.UnOp)
			kept = kept || !ok || u.X == ref.Addr
		case *ssa.Phi, *ssa.Call:
			kept = true
		}
	}
	if !kept {
		return nil
	}
	x := g.e.Val(env, c.Common().Args[1])
	if x.Op == "list" {
		return x.Args
	}
	return nil
}

// noErr: what was generated was generated without an error.
func noErr(x *X) *X {
	return Subst(x, func(y *X) *X {
		if y.Op == "eq" && (y.Args[0].Op == "nil" || y.Args[1].Op == "nil") {
			for _, a := range y.Args {
				if a.Op == "extract" && a.Lit == "1" && (a.Args[0].Op == "call" || a.Args[0].Op == "inv") {
					return Bool(true)
				}
			}
		}
		return nil
	})
}

// expand replaces what a target's own methods generate by their text.
func (g *c31t) expand(pkg string, x *X) *X {
	method := func(n string, args []*X) *X {
		var fn *ssa.Function
		for _, f := range g.w.Funcs {
			if g.w.RelPkg(f) == pkg && f.Name() == n && f.Signature.Recv() != nil && f.Synthetic == "" && f.Parent() == nil {
				fn = f
			}
		}
		if n == "GenerateMethod" || n == "GenerateMethodDecl" {
			if f := g.w.method("generator/gen", "GenDispatcher", strings.Replace(n, "Generate", "Accept", 1)); f != nil {
				fn = f
			}
		}
		if fn == nil || fn.Blocks == nil || onlyPanics(fn) {
			return nil
		}
		env := g.e.Root(fn)
		for i, p := range fn.Params {
			if i == 0 {
				env.bind[p] = Sym("g")
			} else if i-1 < len(args) {
				env.bind[p] = args[i-1]
			}
		}
		return g.e.Result(env)
	}
	for i := 0; i < 4; i++ {
		k := x.Key()
		x = Subst(x, func(y *X) *X {
			switch {
			case y.Op == "extract" && y.Args[0].Op == "inv" && strings.Contains(y.Args[0].Lit, "etter"):
				c := y.Args[0]
				if t := method(c.Lit, c.Args[1:]); t != nil && t.Op == "tuple" && y.Lit == "0" {
					return t.Args[0]
				}
			case y.Op == "tfn" && (strings.Contains(y.Lit, "etter") || strings.Contains(y.Lit, "Method")) && strings.HasPrefix(y.Lit, "Generate"):
				if t := method(y.Lit, y.Args); t != nil {
					if t.Op == "tuple" {
						return t.Args[0]
					}
					return t
				}
			}
			return nil
		})
		if x.Key() == k {
			break
		}
	}
	return noErr(x)
}

var (
	reComment = regexp.MustCompile(`(?s)/\*.*?\*/|//[^\n]*|(?m)^\s*#[^\n]*`)
	reGet     = regexp.MustCompile(`(?:return|=>|get\(\)\s*=)\s*«E:([^«»]*«F[^«»]*»)»\s*(?:[;}\n]|$)`)
	reSet     = regexp.MustCompile(`([\w.>\-*]*«F[^«»]*»)\s*=\s*«E:(\w+)»\s*(?:[;}\n]|$)`)
	reHoles   = regexp.MustCompile(`«E:`)
)

// roles writes a branch of a text with its holes named by what they stand for:
// «M» the accessor's name, «F» its field's, «E:v» its expression of v, «T» its
// type, «S» the structure's name.
func (g *c31t) roles(pkg string, parts []*X, k string, own func(m *X) bool) (string, string) {
	var b strings.Builder
	why := ""
	style := func(m map[string]map[string]bool, s string) {
		if m[pkg] == nil {
			m[pkg] = map[string]bool{}
		}
		m[pkg][s] = true
	}
	var role func(x *X) string
	name := func(x *X) string {
		switch x.Op {
		case "field":
			switch x.Lit {
			case "MethodName":
				if own(x.Args[0]) {
					return "«M»"
				}
				return "«other accessor»"
			case "FieldName":
				if y := x.Args[0]; y.Op == "field" && y.Lit == "MethodBelongs" && own(y.Args[0]) || own(y) || g.cur != nil && (Eq(y, g.cur) || len(y.Args) == 1 && Eq(y.Args[0], g.cur)) {
					return "«F»"
				}
				return "«other field»"
			case "StructName":
				return "«S»"
			case "Key":
				if own(x) {
					return "«M»"
				}
			}
		case "inv", "call":
			n := x.Lit
			if x.Fn != nil {
				n = x.Fn.Name()
			}
			if n == "GetMethodName" && len(x.Args) == 1 {
				if own(x.Args[0]) {
					return "«M»"
				}
				return "«other accessor»"
			}
		}
		return ""
	}
	role = func(x *X) string {
		switch x.Op {
		case "str":
			return x.Lit
		case "cat":
			s := ""
			for _, a := range x.Args {
				s += role(a)
			}
			return s
		}
		if n := name(x); n != "" {
			return n
		}
		n := x.Lit
		if x.Fn != nil {
			n = x.Fn.Name()
		}
		if x.Op == "extract" && len(x.Args) == 1 {
			y := x.Args[0]
			if y.Op == "call" || y.Op == "inv" {
				return role(y)
			}
		}
		if x.Op != "tfn" && x.Op != "call" && x.Op != "inv" {
			return "«?»"
		}
		args := x.Args
		if strings.HasPrefix(n, "To") && len(args) >= 1 {
			if m := name(args[len(args)-1]); m != "" {
				switch m {
				case "«F»":
					return "«F/" + n + "»"
				case "«M»":
					style(g.nameStyle, n)
				}
				return m
			}
		}
		switch strings.ToUpper(n[:1]) + n[1:] {
		case "GenerateExpr":
			if len(args) < 2 {
				break
			}
			ex := args[len(args)-2]
			if ex.Op == "field" && ex.Lit == "MethodExpr" && own(ex.Args[0]) {
				return "«E:" + role(args[len(args)-1]) + "»"
			}
			why = "the expression is that of another accessor: " + cut(ex.String(), 80)
			return "«?»"
		case "GenerateType":
			t := args[len(args)-1]
			ok := false
			for _, l := range leaves2(t) {
				if l.Op == "field" && (l.Lit == "MethodRetType" && k == "Get" || l.Lit == "MethodParamType" && k == "Set") && own(l.Args[0]) {
					ok = true
				}
				if l.Op == "field" && (l.Lit == "FieldType" || l.Lit == "ElementType") && k == "" {
					ok = true
				}
				if l.Op == "field" && (l.Lit == "MethodRetType" || l.Lit == "MethodParamType") && own(l.Args[0]) && k == "both" {
					ok = true
				}
			}
			if ok {
				return "«T»"
			}
		}
		return "«?»"
	}
	for _, p := range parts {
		b.WriteString(role(p))
	}
	return reComment.ReplaceAllString(b.String(), ""), why
}

// accessor: in every branch the text is the accessor of kind k of a method own
// holds for.
func (g *c31t) accessor(pkg string, x *X, k string, decl bool, own func(m *X) bool) (bool, string) {
	bs := branches(x, 64)
	if len(bs) == 0 {
		return false, "its text has too many forms"
	}
	for _, b := range bs {
		t, why := g.roles(pkg, b.parts, k, own)
		if why != "" {
			return false, why
		}
		if !strings.Contains(t, "«M»") {
			return false, "its name is not in " + strings.TrimSpace(cut(t, 160))
		}
		if ok, why := g.judge(pkg, t, k, decl); !ok {
			return false, why
		}
	}
	return true, ""
}

func (g *c31t) judge(pkg, t, k string, decl bool) (bool, string) {
	t = strings.TrimSpace(t)
	if strings.Contains(t, "«other") {
		return false, "it names another accessor or field: " + cut(t, 160)
	}
	target := pkg[strings.LastIndex(pkg, "/")+1:]
	typed := target != "commonjs" && target != "esm"
	if typed && !strings.Contains(t, "«T»") {
		return false, "its own type is not in " + cut(t, 160)
	}
	if decl {
		if strings.Contains(t, "«E:") {
			return false, "its declaration has an expression"
		}
		m := strings.Index(t, "«M»(")
		typ := strings.Index(t, "«T»")
		if m < 0 || (k == "Get") != (typ < m) {
			return false, "its declaration is " + cut(t, 160)
		}
		return true, ""
	}
	if n := len(reHoles.FindAllString(t, -1)); n != 1 {
		return false, fmt.Sprintf("%d expressions are in %s", n, cut(t, 160))
	}
	access := func(s string) {
		if g.access[pkg] == nil {
			g.access[pkg] = map[string]bool{}
		}
		g.access[pkg][s] = true
	}
	e := strings.Index(t, "«E:")
	if k == "Get" {
		m := reGet.FindStringSubmatch(t)
		if m == nil {
			return false, "its expression is not what is returned in " + cut(t, 160)
		}
		access(m[1])
		if strings.Count(t, "return") > 1 {
			return false, "it returns more than once"
		}
		_ = e
		return true, ""
	}
	m := reSet.FindStringSubmatch(t)
	if m == nil {
		return false, "its expression is not what is assigned to the field in " + cut(t, 160)
	}
	access(m[1])
	word := regexp.MustCompile(`\b` + regexp.QuoteMeta(m[2]) + `\b`)
	if target != "csharp" && !word.MatchString(t[:strings.Index(t, m[0])]) {
		return false, "the value " + m[2] + " it is given is not its parameter"
	}
	if strings.Count(t, "return") > 0 {
		return false, "it returns before"
	}
	return true, ""
}

// groups judges targets that write the accessors of one name together.
func (g *c31t) groups(fn *ssa.Function, env *Env, ov *overAll, group *X, base *scene, pkg string) {
	const rule = "every accessor"
	w, r, e := g.w, g.r, g.e
	at, name := w.Pos(fn.Pos()), fnName(fn)
	kid := map[string]*X{}
	for _, k := range []string{"Get", "Set"} {
		kid[k], _ = w.Const("definition", "MethodKindID_"+k)
	}
	own := func(k string) func(m *X) bool {
		return func(m *X) bool {
			switch {
			case m.Op == "field" && m.Lit == "Key":
				return Eq(m.Args[0], ov.Elem)
			case m.Op == "lookup" && Eq(m.Args[0], group):
				return k == "" || Eq(m.Args[1], kid[k])
			case m.Op == "index" && m.Args[0].Op == "om" && Eq(m.Args[0].Args[0], group), m.Op == "field" && m.Lit == "Value" && m.Args[0].Op == "om" && m.Args[0].Lit == "First" && Eq(m.Args[0].Args[0], group):
				return true
			}
			return false
		}
	}
	member := func(x *X) bool {
		return own("")(x)
	}
	for _, combo := range [][]string{{"Get"}, {"Set"}, {"Get", "Set"}} {
		s := base
		in := map[string]bool{}
		for _, k := range combo {
			in[k] = true
		}
		for _, k := range []string{"Get", "Set"} {
			m := mk("lookup", "", group, kid[k])
			s = s.put(mk("has", "", group, kid[k]), Bool(in[k])).put(mk("truth", "", m), Bool(in[k]))
			if in[k] {
				s = s.is(m, "*definition."+k+"Method", "definition.Method").fact(Not(EqX(m, mk("nil", ""))))
			} else {
				s = s.put(EqX(m, mk("nil", "")), Bool(true))
			}
		}
		first := combo[0]
		s = s.is(fieldOf(mk("om", "First", group), "Value"), "*definition."+first+"Method", "definition.Method")
		s = s.put(EqX(fieldOf(ov.Elem, "Key"), Str("")), Bool(false))
		simp := func(x *X) *X { return s.eval(x) }
		what := fmt.Sprintf("%s %s", name, strings.Join(combo, "+"))
		why := "nothing is generated for it"
		// a target may reject accessors that can only be set
		if combo[0] == "Set" {
			rej := &pathQ{e: e, simp: simp, pass: never, goal: func(env *Env, i ssa.Instruction) bool {
				ret, isRet := i.(*ssa.Return)
				return i.Block() == ov.Head || isRet && !e.failing(env, ret, simp)
			}}
			if rej.reaches(env, bodyOf(ov)) == nil {
				r.OK(rule, what+" (rejected)", at)
				continue
			}
		}
		// texts that are appended
		q := &pathQ{e: e, simp: simp, pass: func(env *Env, i ssa.Instruction) bool {
			if isJoin(i) {
				return true
			}
			for _, x := range g.appended(env, i) {
				x = s.eval(g.expand(pkg, s.eval(x)))
				good := true
				for _, k := range combo {
					ok, no := g.groupText(pkg, x, k, combo, own, member, s)
					if !ok {
						good, why = false, no
					}
				}
				if good {
					return true
				}
			}
			return false
		}, goal: func(env *Env, i ssa.Instruction) bool {
			ret, isRet := i.(*ssa.Return)
			return i.Block() == ov.Head || isRet && !e.failing(env, ret, simp)
		}}
		hit := q.reaches(env, bodyOf(ov))
		if hit == nil {
			rej := &pathQ{e: e, simp: simp, pass: never, goal: func(env *Env, i ssa.Instruction) bool { return i.Block() == ov.Head }}
			r.Check(rej.reaches(env, bodyOf(ov)) != nil, rule, what, at, "such accessors are rejected")
			continue
		}
		// texts that are written
		if x, no := e.writes(env, bodyOf(ov), simp, func(b *ssa.BasicBlock) bool { return b == ov.Head }); x != nil {
			good := x.Op != "str"
			for _, k := range combo {
				ok, n := g.groupText(pkg, x, k, combo, own, member, s)
				if !ok {
					good, why = false, n
				}
			}
			r.Check(good, rule, what, at, "accessors ("+strings.Join(combo, " and ")+") are not generated as such: "+why)
			continue
		} else if no != "" && !strings.HasPrefix(no, "undecided") {
			why = no
		} else if no != "" && why == "nothing is generated for it" {
			why = no
		}
		r.Bad(rule, what, at, "accessors ("+strings.Join(combo, " and ")+") are not generated as such: "+why)
	}
}

// groupText: the text of a group has the accessor of kind k.
func (g *c31t) groupText(pkg string, x *X, k string, combo []string, own func(string) func(*X) bool, member func(*X) bool, s *scene) (bool, string) {
	// one by one
	found, named, ok, why := false, true, true, ""
	x.Walk(func(y *X) {
		if y.Op != "each" || !(y.Args[0].Op == "om" && y.Args[0].Lit == "Values") {
			return
		}
		var elem *X
		y.Args[1].Walk(func(z *X) {
			if z.Op == "index" && Eq(z.Args[0], y.Args[0]) && elem == nil {
				elem = z
			}
		})
		if elem == nil || !member(elem) {
			return
		}
		found = true
		t := s.is(elem, "*definition."+k+"Method", "definition.Method").fact(Not(EqX(fieldOf(elem, "MethodName"), Str("")))).eval(y.Args[1])
		t = s.is(elem, "*definition."+k+"Method", "definition.Method").fact(Not(EqX(fieldOf(elem, "MethodName"), Str("")))).eval(g.expand(pkg, t))
		for _, b := range branches(t, 64) {
			txt, no := g.roles(pkg, b.parts, k, func(m *X) bool { return Eq(m, elem) })
			if no != "" {
				ok, why = false, no
				continue
			}
			named = named && strings.Contains(txt, "«M»")
			word := map[string]string{"Get": "get", "Set": "set"}[k]
			if !regexp.MustCompile(`\b` + word + `\b`).MatchString(txt) {
				ok, why = false, "it is not a "+word+" accessor: "+cut(strings.TrimSpace(txt), 160)
				continue
			}
			if o, no := g.judge(pkg, txt, k, false); !o {
				ok, why = false, no
			}
		}
	})
	if found && named {
		return ok, why
	}
	if found {
		// the name is outside
		full := false
		for _, b := range branches(x, 64) {
			var parts []*X
			for _, p := range b.parts {
				if p.Op == "each" {
					parts = append(parts, p.Args[1])
				} else {
					parts = append(parts, p)
				}
			}
			txt, _ := g.roles(pkg, parts, k, member)
			full = strings.Contains(txt, "«M»")
			if strings.Contains(txt, "«other") || !full {
				return false, "the name of the accessors is not in " + cut(strings.TrimSpace(txt), 160)
			}
		}
		return ok, why
	}
	for _, b := range branches(x, 64) {
		// the getter's part and the setter's part of one property
		kk := k
		if len(combo) > 1 {
			kk = "both"
		}
		ownK := func(m *X) bool { return own("")(m) }
		txt, no := g.roles(pkg, b.parts, kk, ownK)
		if no != "" {
			return false, no
		}
		if !strings.Contains(txt, "«M»") || strings.Contains(txt, "«other") {
			return false, "the name of the accessor is not in " + cut(strings.TrimSpace(txt), 160)
		}
		target := pkg[strings.LastIndex(pkg, "/")+1:]
		if !strings.Contains(txt, "«T»") && target != "commonjs" && target != "esm" {
			return false, "its own type is not in " + cut(strings.TrimSpace(txt), 160)
		}
		if n := len(reHoles.FindAllString(txt, -1)); n != len(combo) {
			return false, fmt.Sprintf("%d expressions are in %s", n, cut(strings.TrimSpace(txt), 200))
		}
		// each with its own expression
		strict, _ := g.roles(pkg, b.parts, kk, own(k))
		if k == "Get" && !reGet.MatchString(strict) {
			return false, "its expression is not what is returned in " + cut(strings.TrimSpace(strict), 200)
		}
		sm := reSet.FindStringSubmatch(strict)
		if k == "Set" && sm == nil {
			return false, "its expression is not what is assigned to the field in " + cut(strings.TrimSpace(strict), 200)
		}
		if k == "Set" {
			g.note(pkg, sm[1])
		} else {
			g.note(pkg, reGet.FindStringSubmatch(strict)[1])
		}
	}
	return true, ""
}

func (g *c31t) note(pkg, s string) {
	if g.access[pkg] == nil {
		g.access[pkg] = map[string]bool{}
	}
	g.access[pkg][s] = true
}

// plain judges the accessors every field has.
func (g *c31t) plain(fn *ssa.Function, env *Env, field *X, base *scene, pkg string) {
	const rule = "plain accessors"
	w, r, e := g.w, g.r, g.e
	at, name := w.Pos(fn.Pos()), fnName(fn)
	need := false
	for _, f := range w.Funcs {
		if w.RelPkg(f) == pkg && strings.HasPrefix(f.Name(), "GenerateRawGetter") && f.Blocks != nil && !onlyPanics(f) && f.Synthetic == "" {
			x := e.Result(e.Root(f))
			if x != nil && !(x.Op == "tuple" && x.Args[0].Op == "str") {
				need = true
			}
		}
	}
	if !need {
		r.OK(rule, name+" (fields are public)", at)
		return
	}
	mini := func(v bool) *scene {
		s := base
		for _, b := range fn.Blocks {
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				e.Val(env, iff.Cond).Walk(func(y *X) {
					if y.Op == "field" && y.Lit == "MinimalCode" {
						s = s.put(y, Bool(v))
					}
				})
			}
		}
		return s
	}
	decls := []bool{false}
	if g.hasDecl(pkg) {
		decls = append(decls, true)
	}
	for _, arr := range []bool{false, true} {
		for _, k := range []string{"Get", "Set"} {
			for _, d := range decls {
				s := mini(false)
				what := fmt.Sprintf("%s plain %s array %v declaration %v", name, k, arr, d)
				why := "nothing is appended for it"
				match := func(s *scene, env *Env, i ssa.Instruction) bool {
					for _, x := range g.appended(env, i) {
						x = s.eval(g.expand(pkg, s.eval(x)))
						x = arrayOf(x, field, arr)
						ok, no := g.plainText(pkg, x, k, d, field)
						if ok {
							return true
						}
						if no != "" {
							why = no
						}
					}
					return false
				}
				q := &pathQ{e: e, simp: s.eval, pass: func(env *Env, i ssa.Instruction) bool { return isJoin(i) || match(s, env, i) }, goal: func(env *Env, i ssa.Instruction) bool {
					ret, ok := i.(*ssa.Return)
					return ok && !e.failing(env, ret, s.eval)
				}}
				r.Check(q.reaches(env, fn.Blocks[0]) == nil, rule, what, at, "the plain accessor of a field is not generated as such: "+why)
				m := mini(true)
				q2 := &pathQ{e: e, simp: m.eval, pass: never, goal: func(env *Env, i ssa.Instruction) bool { return match(m, env, i) }}
				r.Check(q2.reaches(env, fn.Blocks[0]) == nil, rule, what+" minimal", at, "a plain accessor is generated although minimal code is asked for")
			}
		}
	}
}

// arrayOf decides whether the field is an array.
func arrayOf(x, field *X, yes bool) *X {
	x = Subst(x, func(y *X) *X {
		if (y.Op == "inv" || y.Op == "call") && strings.HasSuffix(y.Lit, "IsArray") && len(y.Args) == 1 {
			return Bool(yes)
		}
		return nil
	})
	return sat(Subst(x, func(y *X) *X {
		if y.Op == "truth" && y.Args[0].Op == "bool" {
			return y.Args[0]
		}
		return nil
	}))
}

var (
	reRawGet  = regexp.MustCompile(`(?:return|=>)\s*([\w.>\-*&]*«F[^«»]*»)\s*[;}\n]`)
	reRawSet  = regexp.MustCompile(`([\w.>\-*]*«F[^«»]*»)(?:\[[^\]]*\])?\s*=\s*value\b`)
	reReturns = regexp.MustCompile(`(?:return|=>)\s*([^;}\n]*)`)
)

func (g *c31t) plainText(pkg string, x *X, k string, decl bool, field *X) (bool, string) {
	bs := branches(x, 64)
	if len(bs) == 0 {
		return false, "its text has too many forms"
	}
	for _, b := range bs {
		var parts []*X
		for _, p := range b.parts {
			if p.Op == "each" {
				parts = append(parts, p.Args[1])
			} else {
				parts = append(parts, p)
			}
		}
		t, _ := g.roles(pkg, parts, "", func(m *X) bool { return Eq(m, field) })
		t = strings.TrimSpace(t) + "\n"
		if strings.Contains(t, "«other") || strings.Contains(t, "«E:") || strings.Contains(t, "«M»") {
			return false, "it is about something else: " + cut(t, 160)
		}
		if decl {
			if !regexp.MustCompile(`(?i)`+k+`\w*«F`).MatchString(t) || reRawSet.MatchString(t) || reRawGet.MatchString(t) {
				return false, "its declaration is " + cut(t, 160)
			}
			continue
		}
		if k == "Get" {
			m := reRawGet.FindStringSubmatch(t)
			if m == nil {
				return false, "the field is not what is returned in " + cut(t, 160)
			}
			g.note(pkg, m[1])
		} else {
			m := reRawSet.FindStringSubmatch(t)
			if m == nil {
				return false, "the value is not what is assigned to the field in " + cut(t, 160)
			}
			g.note(pkg, m[1])
		}
	}
	return true, ""
}

// written: what is appended for the accessors gets into a text of the structure.
func (g *c31t) written(fn *ssa.Function, ov *overAll) {
	const rule = "written out"
	w, r := g.w, g.r
	at, name := w.Pos(fn.Pos()), fnName(fn)
	parent := fn.Parent()
	if parent == nil {
		// a text is the result
		for _, ci := range w.callersOf()[fn] {
			call, ok := ci.(*ssa.Call)
			if !ok {
				continue
			}
			e := g.e
			env := e.Root(call.Parent())
			q := &pathQ{e: e, pass: func(_ *Env, i ssa.Instruction) bool {
				c, ok := i.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || !strings.HasPrefix(c.Call.StaticCallee().Name(), "Write") && !strings.HasPrefix(c.Call.StaticCallee().Name(), "Fprint") {
					return false
				}
				for _, a := range c.Call.Args {
					if x, ok := a.(*ssa.Extract); ok && x.Tuple == call && x.Index == 0 {
						return true
					}
				}
				return false
			}, goal: func(env *Env, i ssa.Instruction) bool {
				ret, ok := i.(*ssa.Return)
				return ok && !e.failing(env, ret, nil)
			}}
			r.Check(q.reaches(env, call.Parent().Blocks[0]) == nil, rule, name, at, "the accessors are not written in the class")
		}
		return
	}
	cells := map[string]bool{}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok || !ov.Loop[b] {
				continue
			}
			c, ok := st.Val.(*ssa.Call)
			if ok {
				_, ok = c.Call.Value.(*ssa.Builtin)
			}
			fv, isFv := st.Addr.(*ssa.FreeVar)
			if !ok || !isFv {
				continue
			}
			for k, v := range fn.FreeVars {
				if v != fv {
					continue
				}
				for _, b := range parent.Blocks {
					for _, j := range b.Instrs {
						if mc, ok := j.(*ssa.MakeClosure); ok && mc.Fn == fn {
							if al, ok := mc.Bindings[k].(*ssa.Alloc); ok {
								cells[fnName(parent)+":"+al.Name()] = true
							}
						}
					}
				}
			}
		}
	}
	r.Check(len(cells) > 0, rule, name, at, "the accessors' texts are not kept")
	for cell := range cells {
		ok := false
		for _, t := range w.TmplSites() {
			if t.Fn != parent {
				continue
			}
			for _, x := range w.vx.Render(t) {
				bs := branches(x, 64)
				all, own := len(bs) > 0, false
				for _, b := range bs {
					has := false
					for _, p := range b.parts {
						mine := false
						if p.Op != "each" || !p.Args[0].Has(func(y *X) bool {
							mine = mine || y.Op == "cell" && y.Lit == cell
							return y.Op == "cell" && cells[y.Lit]
						}) {
							continue
						}
						inner := branches(p.Args[1], 16)
						every := len(inner) > 0
						for _, in := range inner {
							one := false
							for _, q := range in.parts {
								one = one || q.Op == "index" && Eq(q.Args[0], p.Args[0])
							}
							every = every && one
						}
						has = has || every
						own = own || every && mine
					}
					all = all && has
				}
				ok = ok || all && own
			}
		}
		r.Check(ok, rule, name+" "+cell, at, "no text of the structure has all of the accessors' texts")
	}
}
