package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C33", "transition relation of the one field traversal (initial value, step, argument of the callback), closed forms of every size method, construction of the field list, and parameter-role inference of the bit position through every generator", c33)
}

func (w *World) method(pkg, typ, name string) *ssa.Function {
	for _, fn := range w.Funcs {
		if w.RelPkg(fn) == pkg && fn.Name() == name && fn.Parent() == nil && fn.Synthetic == "" && fn.Signature.Recv() != nil && typeName(deref(fn.Signature.Recv().Type())) == pkg+"."+typ {
			return fn
		}
	}
	return nil
}

func (w *World) need(r *Report, rule, pkg, typ, name string) *ssa.Function {
	fn := w.method(pkg, typ, name)
	if fn == nil {
		r.Bad(rule, pkg+"."+typ+"."+name, pkg, "the method is gone")
	}
	return fn
}

// unwrapElem: an element taken from Values() or the value of an entry.
func elemOf(x *X, table *X) bool {
	if x.Op == "field" && x.Lit == "Value" {
		x = x.Args[0]
		return x.Op == "index" && x.Args[0].Op == "om" && x.Args[0].Lit == "Entries" && Eq(x.Args[0].Args[0], table)
	}
	return x.Op == "index" && x.Args[0].Op == "om" && x.Args[0].Lit == "Values" && Eq(x.Args[0].Args[0], table)
}

func c33(w *World, r *Report) {
	r.Explain = "the loop of ForEachField and of SumFieldBitSize is reduced to its transition relation and compared with: start at 0, hand over the position before the field, add the field's size when it is fixed; the size methods are reduced to closed forms; the visitor that builds the field list is checked to add every element in order and to expand embedded structures through copies; in the generators, the parameter that carries the position is inferred through all calls and has to be handed on unchanged or moved by a multiple of the element's size."
	e := w.vx
	c33walk(w, r, e)
	c33sizes(w, r, e)
	c33build(w, r, e)
	c33roles(w, r, e)
}

func c33walk(w *World, r *Report, e *Eval) {
	nilX := mk("nil", "")
	fe := w.need(r, "traversal", "definition", "Struct", "ForEachField")
	if fe != nil {
		env := e.RootBound(fe, "s", "visit")
		table := fieldOf(Sym("s"), "StructFields")
		at := w.Pos(fe.Pos())
		name := fnName(fe)
		found := false
		for _, ov := range e.loopsOver(env) {
			elem := mk("index", "", ov.List, ov.Idx)
			if ov.List.Op == "om" && ov.List.Lit == "Entries" {
				elem = fieldOf(elem, "Value")
			}
			if !elemOf(elem, table) {
				continue
			}
			// the callback
			var call *ssa.Call
			for b := range ov.Loop {
				for _, i := range b.Instrs {
					if c, ok := i.(*ssa.Call); ok && !c.Common().IsInvoke() && c.Common().StaticCallee() == nil && Eq(e.Val(env, c.Common().Value), Sym("visit")) {
						if call != nil {
							r.Bad("traversal", name, w.Pos(c.Pos()), "the callback is called twice in one round")
						}
						call = c
					}
				}
			}
			if call == nil || len(call.Common().Args) != 4 {
				continue
			}
			found = true
			args := call.Common().Args
			r.Check(Eq(e.Val(ov.Env, args[0]), elem), "traversal", name+" field", at, "the callback gets "+e.Val(ov.Env, args[0]).String()+" instead of the current field")
			r.Check(Eq(e.Val(ov.Env, args[1]), ov.Idx), "traversal", name+" index", at, "the callback gets "+e.Val(ov.Env, args[1]).String()+" instead of the field's number")
			r.Check(everyIteration(ov.Loop, ov.Head, call.Block()), "traversal", name+" every field", at, "the callback is not called for every field")
			r.Check(ov.exitsByReturn() && errorReturned(call), "traversal", name+" error", at, "an error of the callback does not end the traversal with that error")
			size := mk("inv", "GetFieldBitSize", elem)
			for k, what := range map[int]string{2: "position", 3: "variable"} {
				x := e.Val(ov.Env, args[k])
				var p *ssa.Phi
				for _, q := range ov.Phis {
					if Eq(ov.Sym[q], x) {
						p = q
					}
				}
				if p == nil {
					r.Bad("traversal", name+" "+what, at, "the callback gets "+x.String()+", which is not what the loop has added up before this field")
					continue
				}
				init, step := ov.Init[p], ov.Step[p]
				for _, n := range []int64{-1, 0, 1, 7, 8, 64, 13} {
					start := Int(0)
					if k == 3 {
						start = Bool(false)
					}
					// a field whose type is sized at run time ends at a place
					// known at run time only, fixed part or not
					for _, dyn := range []bool{false, true} {
						if n == -1 && !dyn {
							continue
						}
						got := Subst(substX(step, size, Int(n)), func(y *X) *X {
							switch {
							case y.Op == "is" && y.Lit == "*definition.NormalField" && len(y.Args) == 1 && Eq(y.Args[0], elem):
								return Bool(true)
							case y.Op == "is" && strings.HasPrefix(y.Lit, "*definition.") && len(y.Args) == 1 && Eq(y.Args[0], elem):
								return Bool(false)
							case y.Op == "inv" && y.Lit == "GetTypeDynamic" && len(y.Args) == 1 && Eq(y.Args[0], fieldOf(elem, "FieldType")):
								return Bool(dyn)
							}
							return nil
						})
						want := ov.Sym[p]
						if k == 2 {
							if n > 0 {
								want = Add(want, Int(n))
							}
						} else if n == -1 || dyn {
							want = Bool(true)
						}
						r.Check(Eq(got, want), "position step", fmt.Sprintf("%s %s after size %d", name, what, n), at, fmt.Sprintf("after a field of size %d (type sized at run time: %v) the %s becomes %s instead of %s", n, dyn, what, got, want))
					}
					r.Check(Eq(init, start), "position step", name+" "+what+" at first", at, "the first field gets "+init.String())
				}
			}
		}
		r.Check(found, "traversal", name, at, "no loop over all fields of the structure calls the callback")
		// success is reported after the loop only
		res := e.Result(e.RootBound(fe, "s", "visit"))
		_ = res
		for _, b := range fe.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				x := e.Val(env, ret.Results[0])
				if Eq(x, nilX) {
					in := false
					for _, h := range loopHeads(fe) {
						if naturalLoop(h)[b] {
							in = true
						}
					}
					r.Check(!in, "traversal", name+" end", w.Pos(ret.Pos()), "the traversal can end early without an error")
				}
			}
		}
	}
	// the variant with a printed position
	if fp := w.need(r, "traversal", "definition", "Struct", "ForEachFieldWithPos"); fp != nil {
		env := e.RootBound(fp, "s", "visit")
		ok := false
		var got string
		for _, b := range fp.Blocks {
			for _, i := range b.Instrs {
				c, isCall := i.(*ssa.Call)
				if !isCall || c.Common().StaticCallee() != fe {
					continue
				}
				recv, cb := e.Val(env, c.Common().Args[0]), e.Val(env, c.Common().Args[1])
				if !Eq(recv, Sym("s")) || cb.Op != "closure" {
					continue
				}
				a := []*X{Sym("a"), Sym("b"), Sym("c"), Sym("d")}
				// what the inner callback calls
				inner := e.Apply(env, cb, a, nil)
				got = fmt.Sprint(inner)
				inner.Walk(func(y *X) {
					if (y.Op == "apply" || y.Op == "call") && len(y.Args) >= 4 {
						as := y.Args
						if y.Op == "apply" && Eq(as[0], Sym("visit")) {
							as = as[1:]
						}
						if len(as) >= 4 && Eq(as[0], a[0]) && Eq(as[1], a[1]) && Eq(as[2], a[2]) && Eq(as[3], a[3]) {
							ok = true
						}
					}
				})
				ok = ok && c.Referrers() != nil && returnsValue(fp, c)
			}
		}
		r.Check(ok, "traversal", fnName(fp), w.Pos(fp.Pos()), "the printed-position traversal does not hand the values of the traversal on unchanged: "+cut(got, 200))
	}
	if sf := w.need(r, "sum of sizes", "definition", "Struct", "SumFieldBitSize"); sf != nil {
		env := e.RootBound(sf, "s")
		at, name := w.Pos(sf.Pos()), fnName(sf)
		table := fieldOf(Sym("s"), "StructFields")
		found := false
		for _, ov := range e.loopsOver(env) {
			elem := mk("index", "", ov.List, ov.Idx)
			if ov.List.Op == "om" && ov.List.Lit == "Entries" {
				elem = fieldOf(elem, "Value")
			}
			if !elemOf(elem, table) || !ov.exitsByReturn() {
				continue
			}
			var sum, dyn *ssa.Phi
			for _, b := range sf.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 2 {
					for _, p := range ov.Phis {
						if ret.Results[0] == ssa.Value(p) {
							sum = p
						}
						if ret.Results[1] == ssa.Value(p) {
							dyn = p
						}
					}
				}
			}
			if sum == nil || dyn == nil {
				continue
			}
			found = true
			size := mk("inv", "GetFieldBitSize", elem)
			r.Check(Eq(ov.Init[sum], Int(0)), "sum of sizes", name+" start", at, "the sum starts at "+ov.Init[sum].String())
			r.Check(Eq(ov.Init[dyn], Bool(false)), "sum of sizes", name+" start variable", at, "the structure starts as "+ov.Init[dyn].String())
			for _, kind := range []string{"NormalField", "VoidField", "EmbeddedField", "ConstantField"} {
				v := &vis{w: w, e: e, fn: sf}
				td := mk("inv", "GetTypeDynamic", fieldOf(elem, "FieldType"))
				for _, n := range []int64{-1, 0, 1, 7, 64} {
					s := v.scene().is(elem, "definition.Field", "*definition."+kind).put(size, Int(n))
					got := s.eval(ov.Step[sum])
					want := ov.Sym[sum]
					if n > 0 {
						want = Add(want, Int(n))
					}
					r.Check(Eq(got, want), "sum of sizes", fmt.Sprintf("%s %s of %d", name, kind, n), at, fmt.Sprintf("a %s of size %d changes the sum to %s", kind, n, got))
				}
				s := v.scene().is(elem, "definition.Field", "*definition."+kind).put(size, Int(8))
				if kind == "NormalField" {
					got := s.fact(td).eval(ov.Step[dyn])
					r.Check(Eq(got, Bool(true)), "sum of sizes", name+" variable field", at, "a variable-sized field does not make the structure variable-sized: "+got.String())
					s = s.fact(Not(td))
				}
				got := s.eval(ov.Step[dyn])
				r.Check(Eq(got, ov.Sym[dyn]), "sum of sizes", name+" fixed "+kind, at, "a fixed-size field changes whether the structure is variable-sized to "+got.String())
			}
		}
		r.Check(found, "sum of sizes", name, at, "no loop over all fields adds their sizes up to what is returned")
	}
	r.Floor("position step", 10)
	r.Floor("sum of sizes", 15)
}

// errorReturned: when the result of the call is not nil, it is what the function returns.
func errorReturned(c *ssa.Call) bool {
	for _, ref := range *c.Referrers() {
		if ret, ok := ref.(*ssa.Return); ok && len(ret.Results) == 1 {
			return true
		}
		bo, ok := ref.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, r2 := range *bo.Referrers() {
			iff, ok := r2.(*ssa.If)
			if !ok {
				continue
			}
			k := 0
			if bo.Op.String() == "==" {
				k = 1
			}
			if ret, ok := iff.Block().Succs[k].Instrs[len(iff.Block().Succs[k].Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 && ret.Results[0] == ssa.Value(c) {
				return true
			}
		}
	}
	return false
}

func returnsValue(fn *ssa.Function, c *ssa.Call) bool {
	n := 0
	for _, b := range fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			n++
			if len(ret.Results) != 1 || ret.Results[0] != ssa.Value(c) {
				if !errorReturned(c) {
					return false
				}
			}
		}
	}
	return n > 0
}

func c33sizes(w *World, r *Report, e *Eval) {
	closed := func(typ, m string, want ...*X) {
		fn := w.need(r, "size of "+typ, "definition", typ, m)
		if fn == nil {
			return
		}
		x := e.Result(e.RootBound(fn, "t"))
		ok := false
		for _, k := range want {
			ok = ok || x != nil && (Eq(x, k))
		}
		r.Check(ok, "size method", fnName(fn), w.Pos(fn.Pos()), fmt.Sprintf("%s is %v", m, x))
	}
	t := Sym("t")
	f := func(n string) []*X { return []*X{fieldOf(t, n), fieldOf(mk("deref", "", t), n)} }
	for _, k := range []string{"NormalField", "VoidField", "ConstantField"} {
		closed(k, "GetFieldBitSize", f("FieldBitSize")...)
	}
	closed("EmbeddedField", "GetFieldBitSize", Int(0))
	closed("BasicType", "GetTypeBitSize", f("TypeBitSize")...)
	closed("BasicType", "GetTypeDynamic", Bool(false))
	for _, k := range []string{"String", "Bytes"} {
		closed(k, "GetTypeBitSize", Int(-1))
		closed(k, "GetTypeDynamic", Bool(true))
	}
	closed("Struct", "GetTypeBitSize", f("StructBitSize")...)
	closed("Struct", "GetTypeDynamic", f("StructDynamic")...)
	closed("Enum", "GetTypeBitSize", f("EnumBitSize")...)
	closed("Enum", "GetTypeDynamic", Bool(false))
	el := f("ElementType")
	var dyn, sz []*X
	for i, x := range el {
		d := mk("inv", "GetTypeDynamic", x)
		dyn = append(dyn, d)
		sz = append(sz, Sel(d, Int(-1), Mul(mk("inv", "GetTypeBitSize", x), f("Length")[i])))
	}
	closed("Array", "GetTypeDynamic", dyn...)
	closed("Array", "GetTypeBitSize", sz...)
	// the sizes of the basic types
	for name, n := range map[string]int64{"Bool": 8, "Uint8": 8, "Uint16": 16, "Uint32": 32, "Uint64": 64, "Int8": 8, "Int16": 16, "Int32": 32, "Int64": 64, "Float32": 32, "Float64": 64} {
		g, ok := w.SSA["definition"].Members[name].(*ssa.Global)
		if !ok {
			r.Bad("basic type size", name, "definition", "the type is gone")
			continue
		}
		x := e.GlobalVal(g)
		ok = x != nil
		var got *X
		if ok {
			got = fieldOf(x, "TypeBitSize")
			id, _ := w.Const("definition", "TypeID_"+name)
			r.Check(Eq(fieldOf(x, "TypeTypeID"), id), "basic type size", name+" id", w.Pos(g.Pos()), "the type has the identity of another one")
		}
		r.Check(ok && Eq(got, Int(n)), "basic type size", name, w.Pos(g.Pos()), fmt.Sprintf("the size is %v", got))
	}
}

// c33build: what the visitors put into fields, and the list of fields.
func c33build(w *World, r *Report, e *Eval) {
	for rule, spec := range map[string]struct{ typ, child string }{
		"FieldVoid": {"VoidField", "Size_"}, "FieldNormal": {"NormalField", "Size_"}, "FieldConstant": {"ConstantField", "Size_"}} {
		for _, fn := range w.visitFns(rule) {
			v := newVis(w, e, fn)
			sz := v.accept(spec.child)
			if sz == nil {
				r.Bad("declared size", fnName(fn), w.Pos(fn.Pos()), "the declared size is not visited")
				continue
			}
			n := 0
			for _, o := range outcomes(v.res) {
				if o.Op != "new" || !strings.Contains(o.Lit, "definition."+spec.typ) {
					continue
				}
				n++
				got := e.newFields(v.env, o)["FieldBitSize"]
				if got == nil {
					r.Bad("declared size", fnName(fn), w.Pos(fn.Pos()), "the size is not stored")
					continue
				}
				base := v.scene().is(sz, "int64")
				x := base.has("Size_").put(sz, Int(13)).eval(got)
				r.Check(Eq(x, Int(13)), "declared size", fnName(fn), w.Pos(fn.Pos()), "a declared size of 13 bits is stored as "+cut(x.String(), 120))
				if rule == "FieldVoid" {
					continue
				}
				ty := v.accept("Type_")
				if rule == "FieldConstant" {
					ty = v.accept("BasicType")
				}
				y := base.hasNot("Size_").is(ty, "definition.Type", "*definition.BasicType").put(mk("inv", "GetTypeBitSize", ty), Int(32)).putF(ty, "TypeBitSize", Int(32)).eval(got)
				r.Check(Eq(y, Int(32)), "declared size", fnName(fn)+" default", w.Pos(fn.Pos()), "without a declared size, the field gets "+cut(y.String(), 120)+" instead of its type's size")
				gt := e.newFields(v.env, o)["FieldType"]
				r.Check(gt != nil && Eq(base.eval(gt), ty), "declared size", fnName(fn)+" type", w.Pos(fn.Pos()), "the field does not get its declared type")
			}
			r.Check(n > 0, "declared size", fnName(fn)+" field", w.Pos(fn.Pos()), "no "+spec.typ+" is returned")
		}
	}
	for _, fn := range w.visitFns("StructDef") {
		v := newVis(w, e, fn)
		body := v.accept("StructBody")
		n := 0
		for _, o := range outcomes(v.res) {
			if o.Op != "new" || !strings.Contains(o.Lit, "definition.Struct") || strings.Contains(o.Lit, "Error") {
				continue
			}
			n++
			fs := e.newFields(v.env, o)
			ok := fs["StructFields"] != nil && Eq(v.scene().eval(fs["StructFields"]), body)
			r.Check(ok, "structure", fnName(fn)+" fields", w.Pos(fn.Pos()), fmt.Sprintf("the structure does not get the fields of its body but %v", fs["StructFields"]))
			for field, ext := range map[string]string{"StructBitSize": "0", "StructDynamic": "1"} {
				x := fs[field]
				good := false
				if x != nil {
					var alts []*X
					if x.Op == "anyof" {
						alts = x.Args
					} else {
						alts = []*X{x}
					}
					for _, a := range alts {
						if a.Op == "extract" && a.Lit == ext && a.Args[0].Op == "call" && a.Args[0].Fn != nil && a.Args[0].Fn.Name() == "SumFieldBitSize" {
							good = true
						}
					}
				}
				r.Check(good, "structure", fnName(fn)+" "+field, w.Pos(fn.Pos()), fmt.Sprintf("the %s of the structure is %v instead of what its fields add up to", field, x))
			}
			// every field is told its structure
			told := false
			for _, ov := range e.loopsOver(v.env) {
				elem := mk("index", "", ov.List, ov.Idx)
				if ov.List.Op == "om" && ov.List.Lit == "Entries" {
					elem = fieldOf(elem, "Value")
				}
				for b := range ov.Loop {
					for _, i := range b.Instrs {
						c, ok := i.(*ssa.Call)
						if ok && c.Common().IsInvoke() && c.Common().Method.Name() == "SetFieldBelongs" && everyIteration(ov.Loop, ov.Head, b) {
							if Eq(v.scene().eval(e.Val(ov.Env, c.Common().Value)), v.scene().eval(elem)) && elemOf(elem, ov.List.Args[0]) && len(c.Common().Args) == 1 {
								a := e.Val(ov.Env, c.Common().Args[0])
								told = told || a.V != nil && o.V == a.V || Eq(a, o) || strings.Contains(a.String(), "definition.Struct@")
							}
						}
					}
				}
			}
			r.Check(told, "structure", fnName(fn)+" belongs", w.Pos(fn.Pos()), "not every field is told which structure it belongs to")
		}
		r.Check(n > 0, "structure", fnName(fn), w.Pos(fn.Pos()), "no structure is returned")
	}
	c33copy(w, r, e)
	c33body(w, r, e)
}

// c33copy: a copied field has all values of the original.
func c33copy(w *World, r *Report, e *Eval) {
	for _, typ := range []string{"NormalField", "VoidField", "EmbeddedField", "ConstantField"} {
		fn := w.need(r, "copy", "definition", typ, "Copy")
		if fn == nil {
			continue
		}
		env := e.RootBound(fn, "f")
		x := e.Result(env)
		st := deref(fn.Signature.Recv().Type()).Underlying().(*types.Struct)
		var fs map[string]*X
		if x != nil && x.Op == "new" {
			fs = e.newFields(env, x)
		}
		for i := 0; i < st.NumFields(); i++ {
			n := st.Field(i).Name()
			y := fs[n]
			r.Check(y != nil && (Eq(y, fieldOf(Sym("f"), n)) || Eq(y, fieldOf(mk("deref", "", Sym("f")), n))), "copy", fnName(fn)+" "+n, w.Pos(fn.Pos()), fmt.Sprintf("the copy gets %v", y))
		}
	}
}

// c33body: the body of a structure adds every element, in order, and an
// embedded structure is followed by copies of its fields.
func c33body(w *World, r *Report, e *Eval) {
	const rule = "field list"
	nilX := mk("nil", "")
	for _, fn := range w.visitFns("StructBody") {
		v := newVis(w, e, fn)
		at, name := w.Pos(fn.Pos()), fnName(fn)
		var table *X
		for _, o := range outcomes(v.res) {
			if o.Op == "new" && strings.Contains(o.Lit, "OrderedMap") {
				table = o
			}
		}
		if table == nil {
			r.Bad(rule, name, at, "no table of fields is returned")
			continue
		}
		seen := false
		for _, ov := range e.loopsOver(v.env) {
			if ov.List.Op != "call" || ov.List.Fn == nil || ov.List.Fn.Name() != "AllStructElement" || !Eq(ov.List.Args[0], v.ctx) {
				continue
			}
			seen = true
			elem := mk("inv", "Accept", ov.Elem)
			acc := func(x *X) bool { return x.Op == "inv" && x.Lit == "Accept" && Eq(x.Args[0], ov.Elem) }
			var body *ssa.BasicBlock
			for _, s := range ov.Head.Succs {
				if ov.Loop[s] {
					body = s
				}
			}
			// the value of visiting the element
			for b := range ov.Loop {
				for _, i := range b.Instrs {
					if c, ok := i.(*ssa.Call); ok {
						if x := e.Val(ov.Env, c); acc(x) {
							elem = x
						}
					}
				}
			}
			r.Check(ov.exitsByReturn(), rule, name+" to the end", at, "the elements are not visited to the end")
			for _, k := range []struct {
				kind string
				put  func(sc *scene, args []*X, m string) bool
				sc   func(*scene) *scene
				what string
			}{
				{"NormalField", func(sc *scene, a []*X, m string) bool {
					return m == "Put" && Eq(sc.eval(a[1]), fieldOf(elem, "FieldName"))
				}, nil, "a field"},
				{"VoidField", func(sc *scene, a []*X, m string) bool { return m == "PutAnonymous" }, nil, "an unnamed gap"},
				{"ConstantField", func(sc *scene, a []*X, m string) bool { return m == "PutAnonymous" }, func(s *scene) *scene { return s.putF(elem, "FieldName", Str("")) }, "an unnamed constant"},
				{"ConstantField", func(sc *scene, a []*X, m string) bool {
					return m == "Put" && Eq(sc.eval(a[1]), fieldOf(elem, "FieldName"))
				}, func(s *scene) *scene { return s.fact(Not(EqX(fieldOf(elem, "FieldName"), Str("")))) }, "a named constant"},
				{"EmbeddedField", func(sc *scene, a []*X, m string) bool {
					return m == "Put" && Eq(sc.eval(a[1]), fieldOf(fieldOf(elem, "FieldType"), "StructName"))
				}, nil, "an embedded structure"},
			} {
				sc := v.scene().is(elem, "definition.Field", "*definition."+k.kind).fact(Not(EqX(elem, nilX)))
				if k.sc != nil {
					sc = k.sc(sc)
				}
				q := &pathQ{e: e, simp: func(x *X) *X { return noHas(sc.eval(noHas(x))) }}
				q.pass = func(env *Env, i ssa.Instruction) bool {
					for _, m := range []string{"Put", "PutAnonymous"} {
						if a := e.omCall(env, i, m); a != nil && len(a) > 1 && sameTable(a[0], table) && Eq(q.simp(a[len(a)-1]), elem) {
							return k.put(sc, a, m)
						}
					}
					return false
				}
				q.goal = func(env *Env, i ssa.Instruction) bool {
					if i.Block() == ov.Head {
						return true
					}
					ret, ok := i.(*ssa.Return)
					return ok && !e.failing(env, ret, q.simp)
				}
				g := q.reaches(ov.Env, body)
				where := at
				if g != nil {
					where = w.Pos(g.Pos())
				}
				r.Check(g == nil, rule, name+" "+k.what, where, k.what+" of the body does not always become a field of the structure")
			}
			c33embed(w, r, e, v, ov, elem, table, name)
		}
		r.Check(seen, rule, name, at, "no loop visits all elements of the body in order")
	}
	r.Floor(rule, 6)
}

func sameTable(x, table *X) bool {
	return Eq(x, table) || x.V != nil && x.V == table.V
}

// c33embed: the marker of an embedded structure is put first, then each of its
// fields is copied and added in order, once.
func c33embed(w *World, r *Report, e *Eval, v *vis, outer *overAll, elem, table *X, name string) {
	const rule = "embedding"
	found := false
	for b := range outer.Loop {
		for _, i := range b.Instrs {
			c, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			ne := e.calleeEnv(outer.Env, c)
			if ne == nil {
				continue
			}
			arg := -1
			for k, a := range c.Common().Args {
				if Eq(e.Val(outer.Env, a), elem) {
					arg = k
				}
			}
			if arg < 0 || found {
				continue
			}
			fields := fieldOf(fieldOf(elem, "FieldType"), "StructFields")
			for _, ov := range e.loopsOver(ne) {
				el := mk("index", "", ov.List, ov.Idx)
				if ov.List.Op == "om" && ov.List.Lit == "Entries" {
					el = fieldOf(el, "Value")
				}
				if !elemOf(el, fields) {
					continue
				}
				at := w.Pos(ne.fn.Pos())
				for lb := range ov.Loop {
					for _, li := range lb.Instrs {
						rc, ok := li.(*ssa.Call)
						if !ok || e.recursesTo(ov.Env, rc) != ne.fn || len(rc.Common().Args) <= arg {
							continue
						}
						found = true
						x := e.Val(ov.Env, rc.Common().Args[arg])
						r.Check(x.Op == "inv" && x.Lit == "Copy" && Eq(x.Args[0], el), rule, name+" copy", w.Pos(rc.Pos()), "the fields of an embedded structure are not added as copies, in order: "+x.String())
						r.Check(everyIteration(ov.Loop, ov.Head, lb), rule, name+" each", w.Pos(rc.Pos()), "a field of an embedded structure can be skipped")
						r.Check(ov.exitsByReturn() && errorReturned(rc), rule, name+" error", w.Pos(rc.Pos()), "adding the fields of an embedded structure can end early without an error")
						marks := func(env *Env, i ssa.Instruction) bool {
							a := e.omCall(env, i, "Put", "PutAnonymous")
							return a != nil && len(a) > 1 && sameTable(a[0], table) && Eq(a[len(a)-1], elem)
						}
						base := v.scene().is(elem, "definition.Field", "*definition.EmbeddedField")
						first := base.fact(EqX(fieldOf(elem, "FieldBelongs"), mk("nil", "")))
						again := base.fact(Not(EqX(fieldOf(elem, "FieldBelongs"), mk("nil", ""))))
						reach := func(sc *scene, pass func(*Env, ssa.Instruction) bool, goal func(*Env, ssa.Instruction) bool) bool {
							q := &pathQ{e: e, simp: func(x *X) *X { return noHas(sc.eval(noHas(x))) }, pass: pass, goal: goal}
							return q.reaches(ne, ne.fn.Blocks[0]) != nil
						}
						never := func(*Env, ssa.Instruction) bool { return false }
						atHead := func(env *Env, i ssa.Instruction) bool { return i.Block() == ov.Head }
						success := func(env *Env, i ssa.Instruction) bool {
							ret, ok := i.(*ssa.Return)
							return ok && !e.failing(env, ret, func(x *X) *X { return noHas(x) })
						}
						r.Check(!reach(first, marks, atHead), rule, name+" marker first", at, "the fields of an embedded structure come before the mark that it is there")
						r.Check(!reach(first, atHead, success), rule, name+" expanded", at, "an embedded structure is not always expanded")
						r.Check(!reach(again, never, atHead), rule, name+" once", at, "a structure embedded in an embedded one is expanded twice")
						r.Check(!reach(again, marks, success), rule, name+" kept", at, "the mark of a structure embedded in an embedded one is lost")
					}
				}
			}
		}
	}
	r.Check(found, rule, name, w.Pos(v.fn.Pos()), "the fields of an embedded structure are not added one by one")
}

// recursesTo: the function a call enters, looking through a variable that holds
// one closure.
func (e *Eval) recursesTo(env *Env, c *ssa.Call) *ssa.Function {
	if fn := c.Common().StaticCallee(); fn != nil {
		return fn
	}
	x := e.Val(env, c.Common().Value)
	if x.Op == "closure" {
		return x.Fn
	}
	if y := e.Val(env, c); y.Op == "call" {
		return y.Fn
	}
	return nil
}

// c33roles follows the position through every generator: the callback's start
// (and its "behind a variable field" flag) is handed to the functions that
// generate the text of a field. By induction over the calls, each parameter that
// carries the position gets the position of what the function is told to
// generate: unchanged, or moved by whole elements of the array being taken apart;
// a parameter that carries the end gets the position plus the size.
func c33roles(w *World, r *Report, e *Eval) {
	const rule = "position handed on"
	start, end, dyn := Sym("start"), Sym("end"), Sym("dyn")
	type job struct {
		fn   *ssa.Function
		role string
	}
	done := map[job]bool{}
	carry := map[*ssa.Function]map[int]string{}
	judged := map[ssa.Instruction]map[int]bool{}
	pkgs := map[string]int{}
	var work func(fn *ssa.Function, roles []string, parent *Env)
	scan := func(env *Env, fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				sc, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				cal := sc.Common().StaticCallee()
				if cal == nil || !w.InRepo(cal) || !strings.HasPrefix(w.RelPkg(cal), "generator/target/") {
					continue
				}
				at := w.Pos(sc.Pos())
				rs := make([]string, len(sc.Common().Args))
				hit := false
				var from, to *X
				for k, a := range sc.Common().Args {
					x := e.Val(env, a)
					name := fmt.Sprintf("%s -> %s argument %d", fnName(fn), cal.Name(), k)
					if isBoolType(a.Type()) {
						if Eq(x, dyn) {
							rs[k] = "dyn"
							hit = true
						}
						if Eq(x, dyn) || Eq(x, Bool(true)) {
							ok := judged[i]
							if ok == nil {
								ok = map[int]bool{}
								judged[i] = ok
							}
							ok[k] = true
						}
						continue
					}
					if !isIntType(a.Type()) || !x.Has(func(y *X) bool { return Eq(y, start) || Eq(y, end) }) {
						continue
					}
					x = steppedBy(x)
					if x.Has(func(y *X) bool {
						return (y.Op == "loop" || y.Op == "div" || y.Op == "bin" || y.Op == "sel") && y.Has(func(z *X) bool { return Eq(z, start) || Eq(z, end) })
					}) {
						if judged[i] == nil {
							judged[i] = map[int]bool{}
						}
						judged[i][k] = true
						continue // arithmetic inside the field, decided by the bit layout itself (C25)
					}
					hit = true
					role, what := positionRole(e, x)
					if role == "" {
						r.Bad(rule, name, at, "the position handed on is "+cut(x.String(), 160)+", neither the position of the field nor one moved by whole elements")
						continue
					}
					rs[k] = role
					if role == "end" {
						to = what
					} else {
						from = what
					}
					if judged[i] == nil {
						judged[i] = map[int]bool{}
					}
					judged[i][k] = true
					r.OK(rule, name, at)
				}
				if from != nil && to != nil {
					d := Sub(to, from)
					size := isFieldSize(d) || isElemSize(d) || Eq(d, Sub(end, start))
					r.Check(size, "extent", fmt.Sprintf("%s -> %s", fnName(fn), cal.Name()), at, "the extent handed on is "+cut(d.String(), 160)+", not the size of the field or of an element")
				}
				if !hit {
					continue
				}
				for k, role := range rs {
					if role != "" {
						if carry[cal] == nil {
							carry[cal] = map[int]string{}
						}
						if old := carry[cal][k]; old != "" && old != role {
							r.Bad(rule, fmt.Sprintf("%s parameter %d", fnName(cal), k), at, "the parameter gets the "+old+" here and the "+role+" there")
						}
						carry[cal][k] = role
					}
				}
				work(cal, rs, nil)
			}
		}
	}
	work = func(fn *ssa.Function, roles []string, parent *Env) {
		j := job{fn, strings.Join(roles, ",")}
		if done[j] {
			return
		}
		done[j] = true
		pkgs[w.RelPkg(fn)]++
		env := e.RootBound(fn, roles...)
		env.parent = parent
		scan(env, fn)
		var inner func(env *Env, fn *ssa.Function)
		inner = func(env *Env, fn *ssa.Function) {
			for _, a := range fn.AnonFuncs {
				ne := e.Root(a)
				ne.parent = env
				scan(ne, a)
				inner(ne, a)
			}
		}
		inner(env, fn)
	}
	n := 0
	for _, fn := range w.Funcs {
		if !strings.HasPrefix(w.RelPkg(fn), "generator/target/") {
			continue
		}
		env := e.Root(fn)
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok || c.Common().StaticCallee() == nil || !strings.HasPrefix(c.Common().StaticCallee().Name(), "ForEachField") || len(c.Common().Args) != 2 {
					continue
				}
				cb := e.Val(env, c.Common().Args[1])
				if cb.Fn == nil {
					r.Bad("traversal used", fnName(fn), w.Pos(c.Pos()), "the function called for each field is not known")
					continue
				}
				n++
				work(cb.Fn, []string{"", "", "start", "dyn", ""}, env)
			}
		}
	}
	// a parameter that carries the position gets one wherever the function is called
	for _, fn := range w.Funcs {
		if fn.Synthetic != "" {
			continue // method wrappers hand everything on
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok || c.Common().StaticCallee() == nil {
					continue
				}
				for k, role := range carry[c.Common().StaticCallee()] {
					r.Check(judged[i][k], "position always given", fmt.Sprintf("%s -> %s argument %d", fnName(fn), c.Common().StaticCallee().Name(), k), w.Pos(c.Pos()), "something else than the "+role+" of the field is passed where the "+role+" is expected")
				}
			}
		}
	}
	// every target takes its positions from the traversal
	ts := map[string]bool{}
	for _, fn := range w.Funcs {
		if p := w.RelPkg(fn); strings.HasPrefix(p, "generator/target/") {
			ts[p] = true
		}
	}
	for p := range ts {
		r.Check(pkgs[p] >= 6, "traversal used", p, p, "the target does not take the positions of its fields from the traversal")
	}
	r.Floor("traversal used", 8)
	r.Floor(rule, 100)
	r.Floor("extent", 20)
}

// steppedBy writes a position that moves on by a whole element per round as
// the first one plus so many elements.
func steppedBy(x *X) *X {
	return Subst(x, func(y *X) *X {
		if y.Op != "loop" || len(y.Args) < 2 || !Eq(y.Args[0], Sym("start")) && !Eq(y.Args[0], Sym("end")) {
			return nil
		}
		var mu *X
		y.Args[1].Walk(func(z *X) {
			if z.Op == "mu" {
				mu = z
			}
		})
		if mu == nil {
			return nil
		}
		if d := Sub(y.Args[1], mu); isElemSize(d) {
			i := mk("loop", "", Int(0), Add(mk("mu", "1"), Int(1)))
			return Add(y.Args[0], Mul(i, d))
		}
		return nil
	})
}

// positionRole: start or end, and the position itself.
func positionRole(e *Eval, x *X) (string, *X) {
	start, end := Sym("start"), Sym("end")
	if Eq(x, start) {
		return "start", x
	}
	if Eq(x, end) {
		return "end", x
	}
	d := Sub(x, start)
	if isFieldSize(d) || isElemSize(d) {
		return "end", x
	}
	// i whole elements further
	size, ok := wholeElems(d)
	switch {
	case !ok:
		return "", nil
	case size:
		return "end", x
	}
	return "start", x
}

func isFieldSize(d *X) bool {
	return d.Op == "field" && d.Lit == "FieldBitSize" || d.Op == "inv" && d.Lit == "GetFieldBitSize" || d.Op == "call" && d.Fn != nil && d.Fn.Name() == "GetFieldBitSize"
}

// isElemSize: the field's size divided by the number of elements.
func isElemSize(d *X) bool {
	if d.Op == "div" || d.Op == "bin" && d.Lit == "/" {
		return len(d.Args) == 2 && isFieldSize(d.Args[0]) && d.Args[1].Op == "field" && d.Args[1].Lit == "Length"
	}
	return false
}

// wholeElems: d is i*E (false) or i*E + E (true) for an element size E and a
// counter i that runs from zero by one.
func wholeElems(d *X) (bool, bool) {
	var E, i *X
	d.Walk(func(y *X) {
		if isElemSize(y) && E == nil {
			E = y
		}
		if y.Op == "loop" && i == nil {
			i = y
		}
	})
	if E == nil || i == nil || len(i.Args) < 2 || !Eq(i.Args[0], Int(0)) {
		return false, false
	}
	step := i.Args[1]
	if step.Op == "anyof" {
		return false, false
	}
	one := false
	step.Walk(func(y *X) {
		if y.Op == "mu" && Eq(step, Add(y, Int(1))) {
			one = true
		}
	})
	if !one {
		return false, false
	}
	if Eq(d, Mul(i, E)) {
		return false, true
	}
	if Eq(d, Add(Mul(i, E), E)) {
		return true, true
	}
	return false, false
}
