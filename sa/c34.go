package main

import (
	"fmt"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C34", "closed form of the value given to each enumeration element (the visitor's gated result and the effect of one step on the table), and symbolic rendering of each target's enumeration text: every value of the table, in order, bound to its own name", c34)
}

func c34(w *World, r *Report) {
	r.Explain = "the visitor of an enumeration value is reduced to what it stores under which condition; the body visitor's loop is checked to add every element, with the number it was given or the last one plus one; the generators' enumeration texts are rendered symbolically, and each has to run over all values of the enumeration and write the name and the number of the same value, unchanged."
	c34visit(w, r)
	c34body(w, r)
	c34targets(w, r)
}

func c34visit(w *World, r *Report) {
	e := w.vx
	const rule = "written value"
	for _, fn := range w.visitFns("EnumValue") {
		v := newVis(w, e, fn)
		at, name := w.Pos(fn.Pos()), fnName(fn)
		nm, cn := v.accept("EnumValueName"), v.accept("Constant")
		if nm == nil || cn == nil {
			r.Bad(rule, name, at, "the name or the value of an enumeration element is not visited")
			continue
		}
		base := v.scene().is(nm, "string")
		lit := base.has("Constant").hasNot("Ident").is(cn, "definition.Literal", "*definition.IntLiteral")
		stored := func(s *scene, what string, want func(x *X) bool) {
			n := 0
			for _, o := range outcomes(s.result()) {
				if rejected(o) {
					continue
				}
				n++
				if o.Op != "new" {
					r.Bad(rule, name, at, what+": the visitor can return "+cut(o.String(), 120))
					continue
				}
				fs := e.newFields(v.env, o)
				got := fs["EnumValue"]
				if got != nil {
					got = s.eval(got)
				}
				r.Check(got != nil && want(got), rule, name+" "+what, at, fmt.Sprintf("%s is stored as %v", what, got))
				r.Check(fs["EnumValueName"] != nil && Eq(s.eval(fs["EnumValueName"]), nm), rule, name+" name", at, fmt.Sprintf("the element's name is stored as %v", fs["EnumValueName"]))
			}
			r.Check(n > 0, rule, name+" "+what+" accepted", at, what+" is never accepted")
		}
		for _, n := range []int64{0, 1, 7, 255, 1 << 40, 1<<63 - 1} {
			n := n
			stored(lit.putF(cn, "IntValue", Int(n)).put(mk("inv", "GetLiteralValue", cn), Int(n)), fmt.Sprintf("the value %d", n), func(x *X) bool { return Eq(x, Int(n)) })
		}
		for _, n := range []int64{-1, -2, -1 << 63} {
			x := lit.putF(cn, "IntValue", Int(n)).put(mk("inv", "GetLiteralValue", cn), Int(n)).result()
			r.Check(rejected(x), rule, name+" negative", at, fmt.Sprintf("the value %d is not rejected: %s", n, leftover(x)))
		}
		stored(base.hasNot("Constant").hasNot("Ident"), "no value", func(x *X) bool { return Eq(x, Int(-1)) })
		// the value of another element
		id := v.child("Ident")
		if id != nil {
			var ref *X
			v.eachVal(func(y *X) {
				y.Walk(func(z *X) {
					if z.Op == "lookup" && len(z.Args) == 2 && z.Args[0].Op == "field" && z.Args[0].Lit == "GlobalNames" {
						ref = z
					}
				})
			})
			if ref == nil {
				r.Bad(rule, name+" reference", at, "the element a value refers to is not looked up")
				continue
			}
			s := base.hasNot("Constant").has("Ident").is(ref, "*definition.EnumValue")
			stored(s, "the value of another element", func(x *X) bool { return Eq(x, fieldOf(ref, "EnumValue")) })
			txt := ref.Args[1]
			r.Check(txt.Op == "call" && txt.Fn != nil && txt.Fn.Name() == "GetText" || txt.Op == "inv" && txt.Lit == "GetText", rule, name+" reference name", at, "the element is looked up under "+cut(txt.String(), 80))
			bad := base.hasNot("Constant").has("Ident").is(ref, "definition.Position").result()
			r.Check(rejected(bad), rule, name+" reference kind", at, "a value that refers to something else than an enumeration element is not rejected")
		}
	}
	r.Floor(rule, 15)
}

func c34body(w *World, r *Report) {
	e := w.vx
	const rule = "value list"
	nilX := mk("nil", "")
	for _, fn := range w.visitFns("EnumBody") {
		v := newVis(w, e, fn)
		at, name := w.Pos(fn.Pos()), fnName(fn)
		var table *X
		for _, o := range outcomes(v.res) {
			if o.Op == "new" && strings.Contains(o.Lit, "OrderedMap") {
				table = o
			}
		}
		if table == nil {
			r.Bad(rule, name, at, "no table of values is returned")
			continue
		}
		seen := false
		for _, ov := range e.loopsOver(v.env) {
			if ov.List.Op != "call" || ov.List.Fn == nil || ov.List.Fn.Name() != "AllEnumElement" || !Eq(ov.List.Args[0], v.ctx) {
				continue
			}
			seen = true
			var elem *X
			var body *ssa.BasicBlock
			for _, s := range ov.Head.Succs {
				if ov.Loop[s] {
					body = s
				}
			}
			for b := range ov.Loop {
				for _, i := range b.Instrs {
					if c, ok := i.(*ssa.Call); ok {
						if x := e.Val(ov.Env, c); x.Op == "inv" && x.Lit == "Accept" && Eq(x.Args[0], ov.Elem) {
							elem = x
						}
					}
				}
			}
			if elem == nil || body == nil {
				r.Bad(rule, name, at, "the elements are not visited")
				continue
			}
			r.Check(ov.exitsByReturn(), rule, name+" to the end", at, "the elements are not visited to the end")
			num := fieldOf(elem, "EnumValue")
			given := v.scene().is(elem, "*definition.EnumValue").fact(Not(EqX(elem, nilX)), Not(EqX(num, Int(-1))), Not(EqX(Int(-1), num)))
			open := v.scene().is(elem, "*definition.EnumValue").fact(Not(EqX(elem, nilX))).putF(elem, "EnumValue", Int(-1))
			putElem := func(simp func(*X) *X) func(env *Env, i ssa.Instruction) bool {
				return func(env *Env, i ssa.Instruction) bool {
					a := e.omCall(env, i, "Put")
					return a != nil && len(a) == 3 && sameTable(a[0], table) && Eq(simp(a[2]), elem) && Eq(simp(a[1]), fieldOf(elem, "EnumValueName"))
				}
			}
			next := func(simp func(*X) *X) func(env *Env, i ssa.Instruction) bool {
				return func(env *Env, i ssa.Instruction) bool {
					if i.Block() == ov.Head {
						return true
					}
					ret, ok := i.(*ssa.Return)
					return ok && !e.failing(env, ret, simp)
				}
			}
			// a store to the element's number
			store := func(env *Env, i ssa.Instruction) *X {
				st, ok := i.(*ssa.Store)
				if !ok {
					return nil
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldName(fa) != "EnumValue" || !Eq(e.Val(env, fa.X), elem) {
					return nil
				}
				return e.Val(env, st.Val)
			}
			for what, sc := range map[string]*scene{"a value with a number": given, "a value without a number": open} {
				simp := func(x *X) *X { return noHas(sc.eval(noHas(x))) }
				q := &pathQ{e: e, simp: simp, pass: putElem(simp), goal: next(simp)}
				g := q.reaches(ov.Env, body)
				where := at
				if g != nil {
					where = w.Pos(g.Pos())
				}
				r.Check(g == nil, rule, name+" "+what, where, what+" is not always added to the enumeration under its name")
			}
			// the number: kept when given, else the last one plus one
			var envs []*Env
			envs = append(envs, ov.Env)
			for b := range ov.Loop {
				for _, i := range b.Instrs {
					if c, ok := i.(*ssa.Call); ok {
						if ne := e.calleeEnv(ov.Env, c); ne != nil {
							envs = append(envs, ne)
						}
					}
				}
			}
			last := fieldOf(fieldOf(mk("om", "Last", table), "Value"), "EnumValue")
			stores := 0
			for _, env := range envs {
				for _, b := range env.fn.Blocks {
					if env == ov.Env && !ov.Loop[b] {
						continue
					}
					for _, i := range b.Instrs {
						x := store(env, i)
						if x == nil {
							continue
						}
						stores++
						from := env.fn.Blocks[0]
						if env == ov.Env {
							from = body
						}
						pos := w.Pos(i.Pos())
						simpG := func(x *X) *X { return noHas(given.eval(noHas(x))) }
						q := &pathQ{e: e, simp: simpG, pass: func(*Env, ssa.Instruction) bool { return false }, goal: func(_ *Env, j ssa.Instruction) bool { return j == i }}
						r.Check(q.reaches(env, from) == nil, rule, name+" given number", pos, "the number written in the schema is replaced")
						// in an enumeration without values so far, and in one with some
						ln := mk("len", "", table)
						y := sat(open.eval(x), Not(Lt(Int(0), ln)), EqX(ln, Int(0)))
						y = open.eval(substX(y, ln, Int(0)))
						r.Check(Eq(y, Int(0)), rule, name+" first number", pos, "the first value gets "+cut(y.String(), 100))
						for _, cnt := range []int64{1, 2, 3} {
							z := open.eval(substX(x, ln, Int(cnt)))
							z = Subst(z, func(a *X) *X {
								if a.Op == "field" && a.Lit == "EnumValue" && a.Args[0].Op == "field" && a.Args[0].Lit == "Value" && a.Args[0].Args[0].Op == "om" && a.Args[0].Args[0].Lit == "Last" && len(a.Args[0].Args[0].Args) > 0 && sameTable(a.Args[0].Args[0].Args[0], table) {
									return Sym("last")
								}
								return nil
							})
							r.Check(Eq(z, Add(Sym("last"), Int(1))) || Eq(z, Add(last, Int(1))), rule, name+" next number", pos, "the next value gets "+cut(z.String(), 100))
						}
						// and no way around it
						simpO := func(x *X) *X { return noHas(open.eval(noHas(x))) }
						q = &pathQ{e: e, simp: simpO, pass: func(env *Env, i ssa.Instruction) bool { return store(env, i) != nil }, goal: putElem(simpO)}
						r.Check(q.reaches(env, from) == nil, rule, name+" numbered", pos, "a value without a number can be added without getting one")
					}
				}
			}
			r.Check(stores == 1, rule, name+" numbering", at, fmt.Sprintf("%d places give numbers to values", stores))
		}
		r.Check(seen, rule, name, at, "no loop visits all elements of the enumeration in order")
	}
	// the enumeration gets the table of its body
	for _, fn := range w.visitFns("EnumDef") {
		v := newVis(w, e, fn)
		body, sz := v.accept("EnumBody"), v.accept("Size_")
		n := 0
		for _, o := range outcomes(v.res) {
			if o.Op != "new" || rejected(o) {
				continue
			}
			n++
			fs := e.newFields(v.env, o)
			sc := v.scene().is(sz, "int64").is(body, "*util.OrderedMap[string, *definition.EnumValue]")
			r.Check(body != nil && fs["EnumValues"] != nil && Eq(sc.eval(fs["EnumValues"]), body), rule, fnName(fn)+" values", w.Pos(fn.Pos()), fmt.Sprintf("the enumeration gets %v as its values", fs["EnumValues"]))
			r.Check(sz != nil && fs["EnumBitSize"] != nil && Eq(sc.eval(fs["EnumBitSize"]), sz), rule, fnName(fn)+" size", w.Pos(fn.Pos()), fmt.Sprintf("the enumeration gets the size %v", fs["EnumBitSize"]))
		}
		r.Check(n > 0, rule, fnName(fn), w.Pos(fn.Pos()), "no enumeration is returned")
	}
	// nobody changes a number afterwards
	for _, fn := range w.Funcs {
		if w.RelPkg(fn) == "parser" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldName(fa) != "EnumValue" || typeName(deref(fa.X.Type())) != "definition.EnumValue" {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				in := false
				for f := fn; f != nil; f = f.Parent() {
					in = in || f.Name() == "VisitEnumBody"
				}
				if !in {
					// a helper of the body visitor is judged there
					for _, ci := range w.callersOf()[fn] {
						for f := ci.Parent(); f != nil; f = f.Parent() {
							in = in || f.Name() == "VisitEnumBody"
						}
					}
				}
				r.Check(in, "value changed", fnName(fn), w.Pos(st.Pos()), "the number of an enumeration value is changed after it was fixed")
			}
		}
	}
	r.Floor(rule, 10)
}

var enumAdj = regexp.MustCompile(`\w$|(^|[^/*])[.+\-*/%^~!&|<)][ \t]*$`)
var enumAdjAfter = regexp.MustCompile(`^\w|^[ \t]*([.+*%^~|&<>?!]|-[^>]|/[^/*])`)

// c34binding checks one text written for one value: name and number are those
// of the value, each stands alone, and a name is bound to the number.
func c34binding(text *X, elem *X) (ok bool, binds bool, why string) {
	parts := []*X{text}
	if text.Op == "cat" {
		parts = text.Args
	}
	var b strings.Builder
	nName, nVal := 0, 0
	for i, p := range parts {
		switch {
		case p.Op == "str":
			b.WriteString(p.Lit)
			continue
		case Eq(p, fieldOf(elem, "EnumValueName")):
			nName++
			b.WriteString("§N")
		case Eq(p, fieldOf(elem, "EnumValue")):
			nVal++
			b.WriteString("§V")
			before, after := "", ""
			if i > 0 && parts[i-1].Op == "str" {
				before = parts[i-1].Lit
			}
			if i+1 < len(parts) && parts[i+1].Op == "str" {
				after = parts[i+1].Lit
			}
			after = regexp.MustCompile(`^[LlUu]+\b`).ReplaceAllString(after, "")
			if enumAdj.MatchString(before) || enumAdjAfter.MatchString(after) {
				return false, false, "the number is changed by the text around it"
			}
		case p.Op == "sel" && !p.Has(func(z *X) bool { return Eq(z, fieldOf(elem, "EnumValue")) || Eq(z, fieldOf(elem, "EnumValueName")) }):
			b.WriteString("§O") // a separator
		default:
			if p.Has(func(z *X) bool { return Eq(z, elem) }) {
				return false, false, "the text for a value contains " + cut(p.String(), 100)
			}
			b.WriteString("§T")
		}
	}
	if nVal == 0 || nName == 0 {
		return false, false, "the text for a value lacks its name or its number"
	}
	t := regexp.MustCompile(`\s+`).ReplaceAllString(b.String(), " ")
	return true, regexp.MustCompile(`§N"?\]?( §T)? ?= ?§V|§N\(§V|§N"\] ?= ?§V`).MatchString(t), ""
}

func c34targets(w *World, r *Report) {
	e := w.vx
	const rule = "target enumeration"
	bound := map[string]int{}
	targets := map[string]bool{}
	for _, fn := range w.Funcs {
		if p := w.RelPkg(fn); strings.HasPrefix(p, "generator/target/") {
			targets[p] = true
		}
	}
	isValues := func(x *X) (*X, bool) {
		if x.Op == "om" && x.Lit == "Values" && len(x.Args) > 0 && x.Args[0].Op == "field" && x.Args[0].Lit == "EnumValues" {
			return x.Args[0].Args[0], true
		}
		return nil, false
	}
	judge := func(p, name, at string, text, elem *X) {
		ok, binds, why := c34binding(text, elem)
		r.Check(ok, rule, name, at, why)
		if ok && binds {
			bound[p]++
		}
	}
	for _, s := range w.TmplSites() {
		p := w.RelPkg(s.Fn)
		for k, x := range e.Render(s) {
			at := w.Pos(s.Call.Pos())
			name := fmt.Sprintf("%s %s", fnName(s.Fn), s.Names[k])
			top := x
			top.Walk(func(y *X) {
				if y.Op != "each" {
					return
				}
				if _, ok := isValues(y.Args[0]); !ok {
					return
				}
				// the element: index(list, i)
				var elem *X
				y.Args[1].Walk(func(z *X) {
					if z.Op == "index" && Eq(z.Args[0], y.Args[0]) && elem == nil {
						elem = z
					}
				})
				if elem == nil {
					r.Bad(rule, name, at, "the values are visited without being written")
					return
				}
				judge(p, name, at, y.Args[1], elem)
				// written under no condition
				cond := false
				top.Walk(func(z *X) {
					if z.Op == "sel" && (z.Args[1].Has(func(a *X) bool { return Eq(a, y) }) != z.Args[2].Has(func(a *X) bool { return Eq(a, y) })) {
						cond = true
					}
				})
				r.Check(!cond, rule, name+" always", at, "the values of an enumeration are only written sometimes")
			})
			if strings.Contains(x.String(), "EnumValues") && !x.Has(func(y *X) bool {
				if y.Op != "each" {
					return false
				}
				_, ok := isValues(y.Args[0])
				return ok
			}) {
				r.Bad(rule, name, at, "the values of an enumeration are not written one by one")
			}
		}
	}
	// texts written by printing
	for _, fn := range w.Funcs {
		p := w.RelPkg(fn)
		if !targets[p] || fn.Synthetic != "" {
			continue
		}
		uses := false
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if fa, ok := i.(*ssa.FieldAddr); ok && fieldName(fa) == "EnumValue" {
					uses = true
				}
			}
		}
		if !uses {
			continue
		}
		env := e.Root(fn)
		for _, ov := range e.loopsOver(env) {
			at := w.Pos(fn.Pos())
			if _, ok := isValues(ov.List); !ok {
				if ov.List.Has(func(y *X) bool { _, ok := isValues(y); return ok }) {
					r.Bad(rule, fnName(fn)+" all", at, "not all values of an enumeration are written, only "+cut(ov.List.String(), 100))
				}
				continue
			}
			r.Check(ov.exitsByReturn(), rule, fnName(fn)+" all", at, "not all values of an enumeration are written")
			n := 0
			for b := range ov.Loop {
				for _, i := range b.Instrs {
					c, ok := i.(*ssa.Call)
					if !ok || c.Common().StaticCallee() == nil {
						continue
					}
					q := c.Common().StaticCallee().RelString(nil)
					if q != "fmt.Fprintf" && q != "fmt.Sprintf" {
						continue
					}
					var args []*X
					for _, a := range c.Common().Args {
						args = append(args, e.Val(ov.Env, a))
					}
					if q == "fmt.Fprintf" {
						args = args[1:]
					}
					x := sprintf(args)
					if x == nil {
						continue
					}
					if x.Has(func(z *X) bool { return Eq(z, fieldOf(ov.Elem, "EnumValue")) }) {
						n++
						judge(p, fnName(fn), w.Pos(c.Pos()), x, ov.Elem)
						r.Check(everyIteration(ov.Loop, ov.Head, b), rule, fnName(fn)+" each", w.Pos(c.Pos()), "a value of an enumeration can be skipped")
					}
				}
			}
			r.Check(n > 0, rule, fnName(fn), at, "the values of an enumeration are visited without being written")
		}
	}
	for p := range targets {
		r.Check(bound[p] > 0, rule, p, p, "the target's text binds no name to the number of its value")
	}
	r.Floor(rule, 16)
}
