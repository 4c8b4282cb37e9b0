package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C07", "evaluation of each checking visitor to its gated result; under the facts that describe an impossible layout every remaining outcome has to be an error, and under the facts of a possible one an accepted outcome has to remain", c07)
}

// scene is a situation in which a visitor is evaluated: which children are
// there, what visiting them gives, what holds of the numbers.
type scene struct {
	v     *vis
	facts []*X
	typed []typedX
	subst [][2]*X
}

type typedX struct {
	x   *X
	yes []string
}

func (v *vis) scene() *scene { return &scene{v: v} }

func (s *scene) copy() *scene {
	return &scene{v: s.v, facts: append([]*X{}, s.facts...), typed: append([]typedX{}, s.typed...), subst: append([][2]*X{}, s.subst...)}
}

func (s *scene) fact(fs ...*X) *scene {
	s = s.copy()
	s.facts = append(s.facts, fs...)
	return s
}

// is states the dynamic types of x: every type test on x is decided.
func (s *scene) is(x *X, yes ...string) *scene {
	s = s.copy()
	s.typed = append(s.typed, typedX{x, yes})
	return s
}

func (s *scene) put(x, y *X) *scene {
	s = s.copy()
	s.subst = append(s.subst, [2]*X{x, y})
	return s
}

// has / hasNot: an optional child is there or not.
func (s *scene) has(child string, kids ...string) *scene {
	c := s.v.child(child)
	if c == nil {
		return s
	}
	return s.fact(present(c))
}
func (s *scene) hasNot(child string) *scene {
	c := s.v.child(child)
	if c == nil {
		return s
	}
	return s.fact(Not(present(c)))
}

// putF gives a field of the object x points to.
func (s *scene) putF(x *X, f string, y *X) *scene {
	return s.put(fieldOf(x, f), y).put(fieldOf(mk("deref", "", x), f), y)
}

// eval simplifies x in the scene.
func (s *scene) eval(x *X) *X {
	for i := 0; i < 12; i++ {
		k0 := x.Key()
		for j := 0; j < 8; j++ {
			k := x.Key()
			x = sat(x, s.facts...)
			var fs []*X
			for _, t := range s.typed {
				fs = append(fs, isFacts(x, t.x, t.yes...)...)
			}
			x = sat(x, fs...)
			if x.Key() == k {
				break
			}
		}
		for _, p := range s.subst {
			x = substX(x, p[0], p[1])
		}
		if x.Key() == k0 {
			return x
		}
	}
	return x
}

func (s *scene) result() *X { return s.eval(s.v.res) }

// accepted: an outcome that is not an error is possible.
func accepted(x *X) bool {
	for _, o := range outcomes(x) {
		if o.Op == "new" && !rejected(o) {
			return true
		}
	}
	return false
}

func leftover(x *X) string {
	for _, o := range outcomes(x) {
		if !rejected(o) {
			return cut(o.String(), 160)
		}
	}
	return "nothing"
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func c07(w *World, r *Report) {
	r.Explain = "every visitor that checks a layout is reduced to one gated value: the tree of what it returns under which condition (helpers inlined, constants folded). Facts describing an impossible layout are substituted; every outcome that is then left has to be a freshly made error object. The complementary, possible layout has to keep an accepted outcome, so that the facts are known to be about something."
	e := w.vx
	must := func(rule string, fn *ssa.Function, what string, s *scene) {
		if os.Getenv("BBSA_TRACE") != "" && !rejected(s.result()) {
			fmt.Println(what, cut(s.result().String(), 900))
		}
		x := s.result()
		r.Check(rejected(x), rule, fnName(fn), w.Pos(fn.Pos()), fmt.Sprintf("%s is not rejected: the visitor can return %s", what, leftover(x)))
	}
	may := func(rule string, fn *ssa.Function, what string, s *scene) {
		x := s.result()
		r.Check(accepted(x), rule, fnName(fn), w.Pos(fn.Pos()), fmt.Sprintf("%s is never accepted (%s)", what, cut(x.String(), 160)))
	}
	one := func(rule string) []*ssa.Function {
		fs := w.visitFns(rule)
		if len(fs) == 0 {
			r.Bad("checking visitor", "Visit"+rule, "compiler", "no visitor implements this rule")
		}
		return fs
	}

	// ---- sizes
	for _, fn := range one("Size_") {
		v := newVis(w, e, fn)
		by, bi := v.accept("ByteSize"), v.accept("BitSize")
		if by == nil || bi == nil {
			r.Bad("declared size", fnName(fn), w.Pos(fn.Pos()), "the byte or bit part of a size is not visited")
			continue
		}
		base := v.scene().is(by, "int64").is(bi, "int64")
		z := Int(0)
		must("size zero", fn, "a size of no bytes", base.has("ByteSize").hasNot("BitSize").put(by, z))
		must("size zero", fn, "a size of no bits", base.has("BitSize").hasNot("ByteSize").put(bi, z))
		must("size zero", fn, "a size of no bytes and no bits", base.has("BitSize").has("ByteSize").put(bi, z).put(by, z))
		for _, big := range [][2]int64{{1 << 60, 0}, {1 << 62, 5}, {1<<60 - 1, 8}, {2305843009213693953, 0}} {
			must("size overflow", fn, fmt.Sprintf("a size of %d bytes and %d bits, which is no 64-bit number of bits,", big[0], big[1]),
				base.has("BitSize").has("ByteSize").put(bi, Int(big[1])).put(by, Int(big[0])))
		}
		for _, ok := range [][2]int64{{2, 3}, {0, 1}, {1, 0}, {0, 7}} {
			x := base.has("BitSize").has("ByteSize").put(bi, Int(ok[1])).put(by, Int(ok[0])).result()
			r.Check(Eq(x, Int(8*ok[0]+ok[1])), "size value", fnName(fn), w.Pos(fn.Pos()), fmt.Sprintf("%d bytes and %d bits are taken as %s bits", ok[0], ok[1], cut(x.String(), 80)))
		}
		x := base.has("BitSize").hasNot("ByteSize").put(bi, Int(5)).result()
		r.Check(Eq(x, Int(5)), "size value", fnName(fn), w.Pos(fn.Pos()), "5 bits are taken as "+cut(x.String(), 80))
		x = base.has("ByteSize").hasNot("BitSize").put(by, Int(5)).result()
		r.Check(Eq(x, Int(40)), "size value", fnName(fn), w.Pos(fn.Pos()), "5 bytes are taken as "+cut(x.String(), 80)+" bits")
	}

	// ---- arrays
	for _, fn := range one("ArrayType") {
		v := newVis(w, e, fn)
		el, ln := v.accept("ArrayElementType"), v.accept("IntLit")
		if el == nil || ln == nil {
			r.Bad("array type", fnName(fn), w.Pos(fn.Pos()), "the element type or the length is not visited")
			continue
		}
		base := v.scene().is(el, "definition.Type").is(ln, "int64")
		must("array length", fn, "an array of no elements", base.put(ln, Int(0)))
		ts := mk("inv", "GetTypeBitSize", el)
		td := mk("inv", "GetTypeDynamic", el)
		fixed := base.fact(Not(td))
		must("array length", fn, "an array of 2^61+1 bytes", fixed.put(ln, Int(1<<61+1)).put(ts, Int(8)))
		may("array length", fn, "an array of three bytes", fixed.put(ln, Int(3)).put(ts, Int(8)))
		may("array length", fn, "an array of one byte", fixed.put(ln, Int(1)).put(ts, Int(8)))
		may("array length", fn, "an array of three strings", base.fact(td).put(ln, Int(3)).put(ts, Int(-1)))
	}

	c07field(w, r, e, one, must, may)
	c07const(w, r, e, one, must, may)
	c07enum(w, r, e, one, must, may)
	c07struct(w, r, e, one, must, may)
	r.Floor("size zero", 3)
	r.Floor("field size", 10)
	r.Floor("constant fit", 10)
	r.Floor("enum value fit", 2)
	r.Floor("struct layout", 5)
	r.Floor("alignment", 8)
}

type sceneCheck func(rule string, fn *ssa.Function, what string, s *scene)

func c07field(w *World, r *Report, e *Eval, one func(string) []*ssa.Function, must, may sceneCheck) {
	for _, fn := range one("FieldNormal") {
		v := newVis(w, e, fn)
		ty, sz, nm := v.accept("Type_"), v.accept("Size_"), v.accept("FieldName")
		if ty == nil || sz == nil || nm == nil {
			r.Bad("field size", fnName(fn), w.Pos(fn.Pos()), "the type, name or size of a field is not visited")
			continue
		}
		base := v.scene().is(sz, "int64").is(nm, "string").has("Size_").has("FieldName").hasNot("FieldOptions").hasNot("FieldMethods")
		ts := mk("inv", "GetTypeBitSize", ty)
		n := Sym("declared")
		b := base.put(sz, n)
		for _, kind := range []string{"*definition.BasicType", "*definition.Enum", "*definition.Array"} {
			k := b.is(ty, "definition.Type", kind)
			if kind == "*definition.Array" {
				k = k.is(fieldOf(ty, "ElementType"), "definition.Type", "*definition.BasicType")
			}
			must("field size", fn, "a size larger than the type ("+kind+")", k.fact(Lt(Int(0), n), Lt(ts, n), Not(Le(n, ts)), Not(EqX(n, Int(0))), Not(EqX(ts, Int(-1))), Not(EqX(n, ts)), Not(EqX(mk("bin", "%", n, fieldOf(ty, "Length")), Int(0)))))
			kk := base.is(ty, "definition.Type", kind).putF(ty, "Length", Int(4))
			if kind == "*definition.Array" {
				kk = kk.is(fieldOf(ty, "ElementType"), "definition.Type", "*definition.BasicType")
			}
			must("field size", fn, "36 bits for a type of 32 ("+kind+")", kk.put(sz, Int(36)).put(ts, Int(32)))
			may("field size", fn, "16 bits for a type of 32 ("+kind+")", kk.put(sz, Int(16)).put(ts, Int(32)))
			may("field size", fn, "32 bits for a type of 32 ("+kind+")", kk.put(sz, Int(32)).put(ts, Int(32)))
		}
		for _, kind := range []string{"*definition.String", "*definition.Bytes", "*definition.Array"} {
			for _, num := range []int64{1, 8, 64} {
				k := base.is(ty, "definition.Type", kind).put(sz, Int(num)).put(ts, Int(-1)).putF(ty, "Length", Int(1))
				if kind == "*definition.Array" {
					k = k.is(fieldOf(ty, "ElementType"), "definition.Type", "*definition.String")
				}
				must("field size", fn, fmt.Sprintf("a size of %d bits on a variable-sized type (%s)", num, kind), k)
			}
		}
		arr := base.is(ty, "definition.Type", "*definition.Array").put(ts, Int(96)).putF(ty, "Length", Int(12))
		ba := arr.is(fieldOf(ty, "ElementType"), "definition.Type", "*definition.BasicType")
		for _, num := range []int64{1, 8, 16, 11, 64, 80, 95} {
			must("array divisible", fn, fmt.Sprintf("%d bits for twelve elements", num), ba.put(sz, Int(num)))
		}
		for _, num := range []int64{12, 36, 96} {
			may("array divisible", fn, fmt.Sprintf("%d bits for twelve elements", num), ba.put(sz, Int(num)))
		}
		st := base.is(ty, "definition.Type", "*definition.Struct").put(ts, Int(64))
		sa := arr.is(fieldOf(ty, "ElementType"), "definition.Type", "*definition.Struct")
		for _, num := range []int64{8, 32, 56, 72} {
			must("structure size", fn, fmt.Sprintf("%d bits for a structure of 64", num), st.put(sz, Int(num)))
		}
		for _, num := range []int64{12, 48, 84, 108} {
			must("structure size", fn, fmt.Sprintf("%d bits for an array of twelve structures of 8", num), sa.put(sz, Int(num)))
		}
		may("structure size", fn, "64 bits for a structure of 64", st.put(sz, Int(64)))
		// without a declared size nothing is refused
		none := base.hasNot("Size_")
		none.facts = nil
		none = none.hasNot("Size_").has("FieldName").hasNot("FieldOptions").hasNot("FieldMethods")
		for _, kind := range []string{"*definition.BasicType", "*definition.Enum", "*definition.Array", "*definition.Struct", "*definition.String", "*definition.Bytes"} {
			may("field size", fn, "a field of "+kind+" without a size", none.is(ty, "definition.Type", kind))
		}
	}
}

func c07const(w *World, r *Report, e *Eval, one func(string) []*ssa.Function, must, may sceneCheck) {
	id := func(name string) *X {
		if o, ok := w.Const("definition", name); ok {
			return o
		}
		r.Bad("constant fit", name, "definition", "the constant is not declared")
		return Int(-1)
	}
	for _, fn := range one("FieldConstant") {
		v := newVis(w, e, fn)
		ty, sz, nm, cn := v.accept("BasicType"), v.accept("Size_"), v.accept("FieldName"), v.accept("Constant")
		if ty == nil || sz == nil || nm == nil || cn == nil {
			r.Bad("constant fit", fnName(fn), w.Pos(fn.Pos()), "the type, name, size or value of a constant field is not visited")
			continue
		}
		base := v.scene().is(ty, "definition.Type", "*definition.BasicType").is(sz, "int64").is(nm, "string").has("FieldName").hasNot("FieldOptions")
		lit := base.has("Constant").hasNot("Ident").is(cn, "definition.Literal", "*definition.IntLiteral").
			put(mk("inv", "GetLiteralKind", cn), id("LiteralKindID_Int"))
		val := func(s *scene, n int64) *scene {
			return s.put(mk("inv", "GetLiteralValue", cn), Int(n)).putF(cn, "IntValue", Int(n)).is(Int(n), "int64")
		}
		typed := func(s *scene, t string, bits, size int64) *scene {
			s = s.putF(ty, "TypeTypeID", id("TypeID_"+t)).putF(ty, "TypeBitSize", Int(bits))
			if size == 0 {
				return s.hasNot("Size_")
			}
			return s.has("Size_").put(sz, Int(size))
		}
		for _, t := range []struct {
			ty         string
			bits, size int64
			v          int64
			ok         bool
		}{
			{"Uint8", 8, 3, 8, false}, {"Uint8", 8, 3, 7, true}, {"Uint8", 8, 0, 256, false}, {"Uint8", 8, 0, 255, true},
			{"Uint8", 8, 0, -1, false}, {"Uint64", 64, 0, -1, false}, {"Uint64", 64, 0, 1<<63 - 1, true}, {"Uint32", 32, 0, 1 << 32, false},
			{"Int8", 8, 0, 128, false}, {"Int8", 8, 0, 127, true}, {"Int8", 8, 0, -128, true}, {"Int8", 8, 0, -129, false},
			{"Int16", 16, 3, 4, false}, {"Int16", 16, 3, 3, true}, {"Int16", 16, 3, -4, true}, {"Int16", 16, 3, -5, false},
			{"Int64", 64, 0, -1 << 63, true}, {"Int32", 32, 1, 1, false}, {"Int32", 32, 1, -1, true}, {"Uint16", 16, 1, 1, true}, {"Uint16", 16, 1, 2, false},
		} {
			what := fmt.Sprintf("the constant %d in %s of %d bits", t.v, t.ty, map[bool]int64{true: t.bits, false: t.size}[t.size == 0])
			s := val(typed(lit, t.ty, t.bits, t.size), t.v)
			if t.ok {
				may("constant fit", fn, what, s)
			} else {
				must("constant fit", fn, what, s)
			}
		}
		must("field size", fn, "a constant field larger than its type", val(typed(lit, "Uint8", 8, 9), 1))
		must("field size", fn, "a constant field larger than its type", val(typed(lit, "Int32", 32, 64), 1))
		// classes
		class := map[string]string{"Bool": "Bool", "Uint8": "Int", "Uint64": "Int", "Int8": "Int", "Int64": "Int", "Float32": "Float", "Float64": "Float"}
		for _, kind := range []string{"Bool", "Int", "Float", "String"} {
			for _, t := range []string{"Bool", "Uint8", "Uint64", "Int8", "Int64", "Float32", "Float64"} {
				s := base.has("Constant").hasNot("Ident").is(cn, "definition.Literal", "*definition."+kind+"Literal").put(mk("inv", "GetLiteralKind", cn), id("LiteralKindID_"+kind))
				s = val(typed(s, t, 64, 0), 1)
				what := "a " + strings.ToLower(kind) + " constant in a field of type " + t
				if class[t] == kind {
					may("constant class", fn, what, s)
				} else {
					must("constant class", fn, what, s)
				}
			}
		}
	}
}

func c07enum(w *World, r *Report, e *Eval, one func(string) []*ssa.Function, must, may sceneCheck) {
	for _, fn := range one("EnumDef") {
		v := newVis(w, e, fn)
		sz, body := v.accept("Size_"), v.accept("EnumBody")
		if sz == nil || body == nil {
			r.Bad("enum value fit", fnName(fn), w.Pos(fn.Pos()), "the size or body of an enumeration is not visited")
			continue
		}
		base := v.scene().is(sz, "int64").is(v.accept("EnumName"), "string").is(body, "*util.OrderedMap[string, *definition.EnumValue]")
		values := mk("om", "Values", body)
		must("enum values", fn, "an enumeration without values", base.put(mk("len", "", body), Int(0)).put(mk("om", "Len", body), Int(0)).put(mk("len", "", values), Int(0)))
		must("enum width", fn, "an enumeration wider than 64 bits", base.put(sz, Int(65)))
		must("enum width", fn, "an enumeration wider than 64 bits", base.put(sz, Int(128)))

		good := 0
		for _, ov := range e.loopsOver(v.env) {
			l := base.eval(ov.List)
			if !Eq(l, values) {
				continue
			}
			elem := mk("index", "", ov.List, ov.Idx)
			for _, p := range ov.Phis {
				if !strings.Contains(p.Type().String(), "TopLevelError") {
					continue
				}
				okAll := true
				for _, t := range []struct{ size, v int64 }{{3, 8}, {1, 2}, {8, 256}, {63, 1<<63 - 1}, {64, -1}, {3, -1}} {
					x := base.put(fieldOf(elem, "EnumValue"), Int(t.v)).put(sz, Int(t.size)).eval(ov.Step[p])
					x = base.put(fieldOf(base.eval(elem), "EnumValue"), Int(t.v)).put(sz, Int(t.size)).eval(x)
					bad := false
					for _, o := range outcomes(x) {
						if !addsError(o, ov.Sym[p]) {
							bad = true
						}
					}
					if t.v == 1<<63-1 && t.size == 63 {
						// the largest 63-bit value fits
						bad = !bad
					}
					okAll = okAll && !bad
				}
				x := base.put(fieldOf(elem, "EnumValue"), Int(7)).put(sz, Int(3)).eval(ov.Step[p])
				keeps := false
				for _, o := range outcomes(x) {
					if Eq(o, ov.Sym[p]) {
						keeps = true
					}
				}
				if okAll && keeps && ov.exitsByReturn() {
					// what was collected is returned
					if returnedWhenNotNil(e, v, p) {
						good++
					}
				}
			}
		}
		r.Check(good > 0, "enum value fit", fnName(fn), w.Pos(fn.Pos()), "no loop over all values of the enumeration collects an error exactly for values that do not fit its width and returns it")
		r.Check(good > 0, "enum value fit", fnName(fn)+" return", w.Pos(fn.Pos()), "the collected errors are not returned")
	}
	for _, fn := range one("EnumValue") {
		v := newVis(w, e, fn)
		cn, nm := v.accept("Constant"), v.accept("EnumValueName")
		if cn == nil || nm == nil {
			r.Bad("enum value fit", fnName(fn), w.Pos(fn.Pos()), "the name or value is not visited")
			continue
		}
		base := v.scene().is(nm, "string").has("Constant").hasNot("Ident")
		for _, k := range []string{"Bool", "Float", "String"} {
			must("enum value class", fn, "a "+strings.ToLower(k)+" as enumeration value", base.is(cn, "definition.Literal", "*definition."+k+"Literal"))
		}
		in := base.is(cn, "definition.Literal", "*definition.IntLiteral")
		for _, n := range []int64{-1, -2, -1 << 63} {
			must("enum value sign", fn, fmt.Sprintf("the enumeration value %d", n), in.putF(cn, "IntValue", Int(n)))
		}
		may("enum value sign", fn, "the enumeration value 0", in.putF(cn, "IntValue", Int(0)))
	}
}

// addsError: o is the collection with an error added.
func addsError(o, old *X) bool {
	return o.Op == "call" && o.Fn != nil && o.Fn.Name() == "TopLevelErrorsJoin" && o.Has(func(y *X) bool { return y.Op == "new" && rejected(y) }) && o.Has(func(y *X) bool { return Eq(y, old) || y.Op == "call" && y != o && addsError(y, old) })
}

// returnedWhenNotNil: a loop variable that is not nil after its loop is what the function returns.
func returnedWhenNotNil(e *Eval, v *vis, p *ssa.Phi) bool {
	x := e.Val(v.env, p)
	var res *X
	// from the block of the loop on
	for _, b := range v.fn.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !p.Block().Dominates(b) || naturalLoop(p.Block())[b] {
			continue
		}
		c := e.Val(v.env, iff.Cond)
		k := -1
		if Eq(c, EqX(x, mk("nil", ""))) {
			k = 1
		} else if Eq(c, Not(EqX(x, mk("nil", "")))) {
			k = 0
		}
		if k < 0 {
			continue
		}
		// reached directly from the loop's exit, without other ways around it
		if ret, ok := b.Succs[k].Instrs[len(b.Succs[k].Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
			y := e.Val(v.env, ret.Results[0])
			if Eq(y, x) || y.Has(func(z *X) bool { return Eq(z, x) }) {
				res = y
			}
		}
		// no return of success between the loop and this test
		if res != nil {
			for _, s := range p.Block().Succs {
				if !naturalLoop(p.Block())[s] && !onlyTo(s, b, 0) {
					res = nil
				}
			}
		}
	}
	return res != nil
}

// onlyTo: every path from s comes to b without returning before.
func onlyTo(s, b *ssa.BasicBlock, d int) bool {
	if s == b {
		return true
	}
	if d > 20 || len(s.Succs) == 0 {
		return false
	}
	for _, t := range s.Succs {
		if !onlyTo(t, b, d+1) {
			return false
		}
	}
	return true
}

func c07struct(w *World, r *Report, e *Eval, one func(string) []*ssa.Function, must, may sceneCheck) {
	for _, fn := range one("StructDef") {
		v := newVis(w, e, fn)
		sz, body, nm := v.accept("Size_"), v.accept("StructBody"), v.accept("StructName")
		var sumCall, each *X
		v.eachVal(func(x *X) {
			x.Walk(func(y *X) {
				if y.Op == "call" && y.Fn != nil && y.Fn.Name() == "SumFieldBitSize" {
					sumCall = y
				}
				if y.Op == "call" && y.Fn != nil && strings.HasPrefix(y.Fn.Name(), "ForEachField") {
					each = y
				}
			})
		})
		if sz == nil || body == nil || nm == nil || sumCall == nil || each == nil {
			r.Bad("struct layout", fnName(fn), w.Pos(fn.Pos()), "the size, name, body, sum of sizes or field positions are not looked at")
			continue
		}
		base := v.scene().is(sz, "int64").is(nm, "string").is(body, "*util.OrderedMap[string, definition.Field]")
		lens := []*X{mk("len", "", body), mk("om", "Len", body), mk("len", "", mk("om", "Values", body))}
		n := func(s *scene, k int64) *scene {
			for _, l := range lens {
				s = s.put(l, Int(k))
			}
			return s
		}
		must("struct layout", fn, "a structure without fields", n(base, 0))
		base = n(base, 3)
		sum, dyn := mk("extract", "0", sumCall), mk("extract", "1", sumCall)
		nilX := mk("nil", "")
		bad := base.fact(Not(EqX(each, nilX)))
		x := bad.result()
		okAll := true
		for _, o := range outcomes(x) {
			if !rejected(o) && !Eq(o, each) {
				okAll = false
			}
		}
		r.Check(okAll, "struct layout", fnName(fn)+" alignment", w.Pos(fn.Pos()), "the error of the alignment check is not returned: "+cut(x.String(), 200))
		good := base.fact(EqX(each, nilX))
		for _, k := range []int64{1, 4, 12, 7, 63, 9} {
			must("struct layout", fn, fmt.Sprintf("a structure of %d bits", k), good.hasNot("Size_").put(sum, Int(k)).fact(Not(dyn)))
			must("struct layout", fn, fmt.Sprintf("a structure of %d bits declared as such", k), good.has("Size_").put(sum, Int(k)).fact(Not(dyn)).put(sz, Int(k)))
			must("struct layout", fn, fmt.Sprintf("a structure of %d bits and a variable part", k), good.hasNot("Size_").put(sum, Int(k)).fact(dyn))
		}
		must("struct layout", fn, "a declared size on a structure with a variable-sized field", good.has("Size_").put(sum, Int(16)).fact(dyn).put(sz, Int(16)))
		for _, k := range []int64{8, 24, 1, 128} {
			must("struct layout", fn, fmt.Sprintf("a declared size of %d bits on a structure of 16", k), good.has("Size_").put(sum, Int(16)).fact(Not(dyn)).put(sz, Int(k)))
		}
		may("struct layout", fn, "a structure of 16 bits declared as such", good.has("Size_").put(sum, Int(16)).fact(Not(dyn)).put(sz, Int(16)))
		may("struct layout", fn, "a structure of 16 bits", good.hasNot("Size_").put(sum, Int(16)).fact(Not(dyn)))
		may("struct layout", fn, "a structure of 16 bits and a variable part", good.hasNot("Size_").put(sum, Int(16)).fact(dyn))

		// the alignment check itself
		var cl *X
		for _, a := range each.Args {
			if a.Op == "closure" {
				cl = a
			}
		}
		if cl == nil || cl.Fn == nil {
			r.Bad("alignment", fnName(fn), w.Pos(fn.Pos()), "no check is applied to every field")
			continue
		}
		field, idx, start, ds := Sym("field"), Sym("index"), Sym("start"), Sym("dynstart")
		res := e.Apply(v.env, cl, []*X{field, idx, start, ds}, nil)
		if res == nil {
			r.Bad("alignment", fnName(fn), w.Pos(fn.Pos()), "what the check returns cannot be evaluated")
			continue
		}
		fv := &vis{w: w, e: e, fn: cl.Fn, res: res}
		ft := fieldOf(field, "FieldType")
		el := fieldOf(ft, "ElementType")
		unaligned := []int64{1, 4, 7, 15, 65}
		accepts := func(s *scene) bool { return Eq(s.result(), nilX) }
		nf := fv.scene().is(field, "definition.Field", "*definition.NormalField")
		for _, kind := range []string{"*definition.Struct", "*definition.String", "*definition.Bytes"} {
			one := nf.is(ft, "definition.Type", kind)
			arr := nf.is(ft, "definition.Type", "*definition.Array").is(el, "definition.Type", kind)
			rejectedOne, rejectedArr := true, true
			for _, k := range unaligned {
				if !rejected(one.put(start, Int(k)).result()) {
					rejectedOne = false
				}
				x := arr.put(start, Int(k)).result()
				// the check applied to the element type is the check itself
				x = Subst(x, func(y *X) *X {
					if y.Op == "call" && y.Fn != nil && len(y.Args) > 0 && Eq(y.Args[len(y.Args)-1], el) && isBoolType(y.Fn.Signature.Results().At(0).Type()) {
						return Bool(rejectedOne)
					}
					return nil
				})
				if !rejected(x) {
					rejectedArr = false
				}
			}
			r.Check(rejectedOne, "alignment", fnName(fn)+" "+kind, w.Pos(cl.Fn.Pos()), "a field of this type is accepted at a position that is no whole byte")
			r.Check(rejectedArr, "alignment", fnName(fn)+" array of "+kind, w.Pos(cl.Fn.Pos()), "an array of this type is accepted at a position that is no whole byte")
			for _, k := range []int64{0, 8, 64} {
				r.Check(accepts(one.put(start, Int(k))), "alignment", fmt.Sprintf("%s %s at %d", fnName(fn), kind, k), w.Pos(cl.Fn.Pos()), "a field of this type is refused at a byte boundary")
			}
		}
		for _, kind := range []string{"*definition.BasicType", "*definition.Enum"} {
			r.Check(accepts(nf.is(ft, "definition.Type", kind).put(start, Int(3))), "alignment", fnName(fn)+" "+kind, w.Pos(cl.Fn.Pos()), "a bit field is refused")
		}
	}
}
