package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C10", "value provenance of every numeric literal from the token text to the object that stores it: exact 64-bit parse of the unmodified text, error returned when the parse fails, sign applied once, no narrowing conversion and no later write on the way; gated results of the visitors under accepted and failing parses", c10)
}

func c10(w *World, r *Report) {
	r.Explain = "the visitors of numeric tokens are reduced to their gated result: a failed parse leaves only error objects, a successful one leaves exactly the parsed number; the parse call has to read the token's own text with base detection and the full 64 bits. Every later holder of the number (literal object, option, constant, expression, array length, size) has to store exactly that value."
	c10token(w, r)
	c10literal(w, r)
	c10holders(w, r)
	c10lossy(w, r)
}

// tokenText: x is the whole text of the token visited.
func tokenText(x, ctx *X, tok string) bool {
	if x == nil || !(x.Op == "inv" && x.Lit == "GetText" || x.Op == "call" && x.Fn != nil && x.Fn.Name() == "GetText") || len(x.Args) != 1 {
		return false
	}
	a := x.Args[0]
	if Eq(a, ctx) {
		return true
	}
	return a.Op == "call" && a.Fn != nil && a.Fn.Name() == tok && len(a.Args) == 1 && Eq(a.Args[0], ctx)
}

func c10token(w *World, r *Report) {
	e := w.vx
	const rule = "exact parse"
	for _, t := range []struct{ rule, tok, fn string }{{"IntLit", "INT_LIT", "ParseInt"}, {"FloatLit", "FLOAT_LIT", "ParseFloat"}} {
		parsed := 0
		for _, fn := range w.visitFns(t.rule) {
			v := newVis(w, e, fn)
			at, name := w.Pos(fn.Pos()), fnName(fn)
			if delegates(v) {
				r.OK(rule, name, at)
				continue
			}
			var call *X
			others := ""
			v.eachVal(func(y *X) {
				y.Walk(func(z *X) {
					if z.Op == "call" && z.Fn != nil && z.Fn.Pkg != nil && z.Fn.Pkg.Pkg.Path() == "strconv" && strings.HasPrefix(z.Fn.Name(), "Parse") {
						if call == nil {
							call = z
						} else if !Eq(call, z) {
							others = cut(z.String(), 80)
						}
					}
				})
			})
			if call == nil || others != "" {
				r.Bad(rule, name, at, "the number is not obtained by one parse of the token "+others)
				continue
			}
			parsed++
			ok := call.Fn.Name() == t.fn && tokenText(call.Args[0], v.ctx, t.tok)
			if t.fn == "ParseInt" {
				ok = ok && Eq(call.Args[1], Int(0)) && Eq(call.Args[2], Int(64))
			} else {
				ok = ok && Eq(call.Args[1], Int(64))
			}
			r.Check(ok, rule, name+" parse", at, "the token is parsed by "+cut(call.String(), 140)+", which is not an exact 64-bit reading of its text in every base")
			val, err := mk("extract", "0", call), mk("extract", "1", call)
			fail := v.scene().fact(present(err)).result()
			r.Check(rejected(fail), rule, name+" failure", at, "a literal that does not fit in 64 bits is not rejected: "+leftover(fail))
			good := v.scene().fact(Not(present(err))).result()
			n := 0
			for _, o := range outcomes(good) {
				if rejected(o) {
					// a further refusal may only be of values that are no literal at all
					continue
				}
				n++
				r.Check(Eq(o, val), rule, name+" value", at, "the value taken for the literal is "+cut(o.String(), 120))
			}
			r.Check(n > 0, rule, name+" accepted", at, "no literal is ever accepted")
		}
		r.Check(parsed > 0, rule, "Visit"+t.rule, "compiler", "no visitor reads this token")
	}
	r.Floor(rule, 8)
}

// delegates: the visitor does nothing but have its own node visited by another visitor.
func delegates(v *vis) bool {
	os := outcomes(v.res)
	if len(os) != 1 {
		return false
	}
	o := os[0]
	if o.Op == "inv" && o.Lit == "Accept" || o.Op == "call" && o.Fn != nil && o.Fn.Name() == "Accept" {
		return Eq(o.Args[0], v.ctx) && len(o.Args) > 1 && isLiteralVisitor(o.Args[1])
	}
	// inlined: the literal visitor's own function of the same name
	if o.Op == "call" && o.Fn != nil && o.Fn.Name() == v.fn.Name() && len(o.Args) == 2 {
		return Eq(o.Args[1], v.ctx)
	}
	return false
}

func isLiteralVisitor(x *X) bool {
	found := false
	x.Walk(func(y *X) {
		if strings.Contains(y.Lit, "LiteralVisitor") || y.Fn != nil && strings.Contains(y.Fn.Name(), "LiteralVisitor") {
			found = true
		}
		if y.V != nil && strings.Contains(typeName(y.V.Type()), "LiteralVisitor") {
			found = true
		}
	})
	return found
}

func negated(x, y *X) bool {
	return Eq(x, Neg(y)) || x.Op == "neg" && Eq(x.Args[0], y)
}

func c10literal(w *World, r *Report) {
	e := w.vx
	const rule = "literal value"
	fns := 0
	for _, fn := range w.visitFns("Constant") {
		v := newVis(w, e, fn)
		at, name := w.Pos(fn.Pos()), fnName(fn)
		if delegates(v) {
			r.OK(rule, name, at)
			continue
		}
		fns++
		for _, t := range []struct{ child, goType, lit, field string }{
			{"IntLit", "int64", "IntLiteral", "IntValue"}, {"FloatLit", "float64", "FloatLiteral", "FloatValue"}} {
			x := v.accept(t.child)
			if x == nil {
				r.Bad(rule, name+" "+t.child, at, "the number is not visited")
				continue
			}
			base := v.scene()
			for _, c := range []string{"IntLit", "FloatLit", "BoolLit", "StrLit"} {
				if c == t.child {
					base = base.has(c)
				} else {
					base = base.hasNot(c)
				}
			}
			bad := base.is(x, "error", "*definition.CompileError").result()
			okErr := true
			for _, o := range outcomes(bad) {
				if !rejected(o) && !Eq(o, x) {
					okErr = false
				}
			}
			r.Check(okErr, rule, name+" "+t.child+" failure", at, "a literal whose token was rejected is accepted: "+leftover(bad))
			for _, minus := range []bool{false, true} {
				s := base.is(x, t.goType)
				what := name + " " + t.child
				if minus {
					s = s.has("SUB")
					what += " negative"
				} else {
					s = s.hasNot("SUB")
				}
				n := 0
				for _, o := range outcomes(s.result()) {
					if rejected(o) {
						continue
					}
					n++
					if o.Op != "new" || !strings.Contains(o.Lit, t.lit) {
						r.Bad(rule, what, at, "the literal is turned into "+cut(o.String(), 120))
						continue
					}
					got := e.newFields(v.env, o)[t.field]
					if got != nil {
						got = s.eval(got)
					}
					r.Check(got != nil && (!minus && Eq(got, x) || minus && negated(got, x)), rule, what, at, fmt.Sprintf("the literal's value is stored as %v", got))
				}
				r.Check(n > 0, rule, what+" accepted", at, "the literal is never accepted")
			}
		}
	}
	r.Check(fns > 0, rule, "VisitConstant", "compiler", "no visitor makes literals")
	// kinds and values of the literal objects
	for _, t := range []struct{ typ, kind, field string }{{"IntLiteral", "LiteralKindID_Int", "IntValue"}, {"FloatLiteral", "LiteralKindID_Float", "FloatValue"}, {"BoolLiteral", "LiteralKindID_Bool", "BoolValue"}, {"StringLiteral", "LiteralKindID_String", "StringValue"}} {
		want, ok := w.Const("definition", t.kind)
		if !ok {
			r.Bad(rule, t.kind, "definition", "the kind is not declared")
			continue
		}
		if fn := w.need(r, rule, "definition", t.typ, "GetLiteralKind"); fn != nil {
			x := e.Result(e.Root(fn))
			r.Check(x != nil && Eq(x, want), rule, fnName(fn), w.Pos(fn.Pos()), fmt.Sprintf("the kind is %v", x))
		}
		if fn := w.need(r, rule, "definition", t.typ, "GetLiteralValue"); fn != nil {
			env := e.Root(fn)
			x := e.Result(env)
			ok := x != nil && x.Op == "field" && x.Lit == t.field
			r.Check(ok, rule, fnName(fn), w.Pos(fn.Pos()), fmt.Sprintf("the value is given as %v", x))
		}
	}
	r.Floor(rule, 16)
}

func c10holders(w *World, r *Report) {
	e := w.vx
	const rule = "kept value"
	one := func(rl string) []*ssa.Function {
		fs := w.visitFns(rl)
		if len(fs) == 0 {
			r.Bad(rule, "Visit"+rl, "compiler", "no visitor implements this rule")
		}
		return fs
	}
	// objects that hold a literal
	for _, t := range []struct{ rule, typ, field string }{
		{"FieldOption", "Option", "OptionValue"}, {"OptionStatement", "Option", "OptionValue"}, {"ExprConstant", "ConstantExpr", "ConstantValue"}, {"FieldConstant", "ConstantField", "FieldConstant"}} {
		for _, fn := range one(t.rule) {
			v := newVis(w, e, fn)
			at, name := w.Pos(fn.Pos()), fnName(fn)
			cn := v.accept("Constant")
			if cn == nil {
				r.Bad(rule, name, at, "the constant is not visited")
				continue
			}
			s := v.scene().is(cn, "definition.Literal", "*definition.IntLiteral")
			if t.rule == "FieldConstant" {
				s = s.has("Constant").hasNot("Ident")
			}
			n := 0
			for _, o := range outcomes(s.result()) {
				if o.Op != "new" || !strings.Contains(o.Lit, t.typ) {
					continue
				}
				n++
				got := e.newFields(v.env, o)[t.field]
				if got != nil {
					got = s.eval(got)
				}
				r.Check(got != nil && Eq(got, cn), rule, name, at, fmt.Sprintf("the constant is kept as %v", got))
			}
			r.Check(n > 0, rule, name+" accepted", at, "the constant is never accepted")
			bad := v.scene().is(cn, "error", "*definition.CompileError")
			if t.rule == "FieldConstant" {
				bad = bad.has("Constant")
			}
			for _, o := range outcomes(bad.result()) {
				r.Check(rejected(o) || o.Op == "inv" && o.Lit == "Accept", rule, name+" failure", at, "a rejected literal is accepted: "+cut(o.String(), 120))
			}
		}
	}
	// a constant given by the name of an enumeration value; floating range
	for _, fn := range one("FieldConstant") {
		v := newVis(w, e, fn)
		at, name := w.Pos(fn.Pos()), fnName(fn)
		cn, ty := v.accept("Constant"), v.accept("BasicType")
		if cn == nil || ty == nil {
			continue
		}
		s := v.scene().hasNot("Constant").has("Ident")
		n := 0
		for _, o := range outcomes(s.result()) {
			if o.Op != "new" || !strings.Contains(o.Lit, "ConstantField") {
				continue
			}
			n++
			for _, l := range outcomes(s.eval(e.newFields(v.env, o)["FieldConstant"])) {
				ok := false
				if l.Op == "new" && strings.Contains(l.Lit, "IntLiteral") {
					got := e.newFields(v.env, l)["IntValue"]
					ok = got != nil && got.Op == "field" && got.Lit == "EnumValue" && namedDefinition(v, got)
				}
				r.Check(ok, rule, name+" named value", at, "a constant given by an enumeration value's name is kept as "+cut(l.String(), 160))
			}
		}
		r.Check(n > 0, rule, name+" named value accepted", at, "a constant given by name is never accepted")

		lit := v.scene().has("Constant").hasNot("Ident").hasNot("FieldOptions").hasNot("Size_").has("FieldName").is(cn, "definition.Literal", "*definition.FloatLiteral")
		if nm := v.accept("FieldName"); nm != nil {
			lit = lit.is(nm, "string")
		}
		if k, ok := w.Const("definition", "LiteralKindID_Float"); ok {
			lit = lit.put(mk("inv", "GetLiteralKind", cn), k)
		}
		typed := func(t string) *scene {
			s := lit
			if k, ok := w.Const("definition", "TypeID_"+t); ok {
				s = s.putF(ty, "TypeTypeID", k)
			}
			return s.is(ty, "definition.Type", "*definition.BasicType")
		}
		// the comparisons made on the value, decided for a concrete one
		decide := func(s *scene, f float64) *X {
			var fs []*X
			s.result().Walk(func(z *X) {
				t, ok := floatTest(z, f)
				if ok && t {
					fs = append(fs, z)
				} else if ok {
					fs = append(fs, Not(z))
				}
			})
			return s.fact(fs...).result()
		}
		for _, f := range []float64{1e39, 3.41e38, 1e300} {
			for _, f := range []float64{f, -f} {
				x := decide(typed("Float32"), f)
				r.Check(rejected(x), rule, name+" float32 range", at, fmt.Sprintf("the constant %g, which no float32 can hold, is accepted in a float32: %s", f, leftover(x)))
				x = decide(typed("Float64"), f)
				r.Check(accepted(x), rule, name+" float64", at, fmt.Sprintf("the constant %g, which fits a float64, is rejected", f))
			}
		}
		for _, f := range []float64{0, 1, 0.5, 3.4e38, 1e-30} {
			for _, f := range []float64{f, -f} {
				for _, t := range []string{"Float32", "Float64"} {
					x := decide(typed(t), f)
					r.Check(accepted(x), rule, name+" "+t, at, fmt.Sprintf("the constant %g is never accepted in a %s", f, t))
				}
			}
		}
	}
	// lengths and sizes
	for _, fn := range one("ArrayType") {
		v := newVis(w, e, fn)
		at, name := w.Pos(fn.Pos()), fnName(fn)
		ln := v.accept("IntLit")
		if ln == nil {
			r.Bad(rule, name, at, "the length is not visited")
			continue
		}
		s := v.scene().is(ln, "int64")
		n := 0
		for _, o := range outcomes(s.result()) {
			if o.Op == "new" && strings.Contains(o.Lit, "definition.Array") {
				n++
				got := e.newFields(v.env, o)["Length"]
				r.Check(got != nil && Eq(s.eval(got), ln), rule, name, at, fmt.Sprintf("the length is kept as %v", got))
			}
		}
		r.Check(n > 0, rule, name+" accepted", at, "no array is ever accepted")
		for _, o := range outcomes(v.scene().is(ln, "error", "*definition.CompileError").result()) {
			r.Check(rejected(o) || o.Op == "inv" && o.Lit == "Accept", rule, name+" failure", at, "an array whose length was rejected is accepted: "+cut(o.String(), 120))
		}
	}
	for _, rl := range []string{"BitSize", "ByteSize"} {
		for _, fn := range one(rl) {
			v := newVis(w, e, fn)
			at, name := w.Pos(fn.Pos()), fnName(fn)
			x := v.accept("IntLit")
			r.Check(x != nil && Eq(v.res, x), rule, name, at, "the number is passed on as "+cut(v.res.String(), 120))
		}
	}
	for _, fn := range one("Size_") {
		v := newVis(w, e, fn)
		at, name := w.Pos(fn.Pos()), fnName(fn)
		by, bi := v.accept("ByteSize"), v.accept("BitSize")
		if by == nil || bi == nil {
			r.Bad(rule, name, at, "the parts of a size are not visited")
			continue
		}
		base := v.scene().is(by, "int64").is(bi, "int64")
		for _, c := range [][2]int64{{0, 1}, {3, 5}, {1 << 31, 0}, {1<<60 - 1, 7}, {1 << 40, 1 << 41}, {0, 1 << 62}} {
			x := base.has("ByteSize").has("BitSize").put(by, Int(c[0])).put(bi, Int(c[1])).result()
			r.Check(Eq(x, Int(8*c[0]+c[1])), rule, name, at, fmt.Sprintf("%d bytes and %d bits are kept as %s bits", c[0], c[1], cut(x.String(), 80)))
		}
		for _, c := range []*X{by, bi} {
			p := "ByteSize"
			if c == bi {
				p = "BitSize"
			}
			for _, o := range outcomes(v.scene().has(p).is(c, "error", "*definition.CompileError").result()) {
				ok := rejected(o) || o.Op == "inv" && o.Lit == "Accept"
				r.Check(ok, rule, name+" failure", at, "a size whose number was rejected is accepted: "+cut(o.String(), 120))
			}
		}
	}
	r.Floor(rule, 25)
}

// namedDefinition: the field is read from the definition found under the identifier's text.
func namedDefinition(v *vis, x *X) bool {
	ok := false
	id := v.child("Ident")
	x.Walk(func(y *X) {
		if y.Op == "lookup" && len(y.Args) == 2 && id != nil {
			t := y.Args[1]
			if len(t.Args) > 0 && Eq(t.Args[0], id) && (t.Op == "call" && t.Fn != nil && t.Fn.Name() == "GetText" || t.Op == "inv" && t.Lit == "GetText" || t.Op == "inv" && t.Lit == "Accept") {
				ok = true
			}
		}
	})
	return ok
}

// c10lossy: no narrowing of a literal's number and no write to it once made.
func c10lossy(w *World, r *Report) {
	const rule = "unchanged number"
	number := func(v ssa.Value) bool {
		seen := map[ssa.Value]bool{}
		var do func(v ssa.Value) bool
		do = func(v ssa.Value) bool {
			if seen[v] {
				return false
			}
			seen[v] = true
			switch t := v.(type) {
			case *ssa.UnOp:
				if f := fieldLoaded(v); f == "IntValue" || f == "FloatValue" || f == "EnumValue" {
					return true
				}
				return t.Op.String() == "-" && do(t.X)
			case *ssa.Phi:
				for _, x := range t.Edges {
					if do(x) {
						return true
					}
				}
			case *ssa.TypeAssert:
				return types.IsInterface(t.X.Type())
			case *ssa.Extract:
				return do(t.Tuple)
			case *ssa.Call:
				if f := t.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "strconv" {
					return true
				}
			}
			return false
		}
		return do(v)
	}
	n := 0
	for _, fn := range w.Funcs {
		pkg := w.RelPkg(fn)
		if pkg != "compiler" && pkg != "definition" || fn.Blocks == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch t := i.(type) {
				case *ssa.Convert:
					if lossyNumber(t.X.Type(), t.Type()) && pkg == "compiler" && number(t.X) {
						r.Bad(rule, fnName(fn), w.Pos(t.Pos()), fmt.Sprintf("a number read from the schema is converted from %s to %s, which cannot hold all of its values", t.X.Type(), t.Type()))
					}
				case *ssa.Store:
					fa, ok := t.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					st, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
					if !ok {
						continue
					}
					f := st.Field(fa.Field).Name()
					if f != "IntValue" && f != "FloatValue" {
						continue
					}
					n++
					_, fresh := fa.X.(*ssa.Alloc)
					r.Check(fresh && fa.X.(*ssa.Alloc).Parent() == fn, rule, fnName(fn)+" "+f, w.Pos(t.Pos()), "the value of an existing literal is overwritten")
				}
			}
		}
		r.OK(rule, fnName(fn), w.Pos(fn.Pos()))
	}
	r.Check(n >= 2, rule, "literals", "compiler", "no literal is given a value")
	r.Floor(rule, 50)
}

// lossyNumber: some value of a is not a value of b.
func lossyNumber(a, b types.Type) bool {
	x, ok1 := a.Underlying().(*types.Basic)
	y, ok2 := b.Underlying().(*types.Basic)
	if !ok1 || !ok2 || x.Info()&types.IsNumeric == 0 || y.Info()&types.IsNumeric == 0 {
		return false
	}
	fx, fy := x.Info()&types.IsFloat != 0, y.Info()&types.IsFloat != 0
	sz := func(t *types.Basic) int64 { return types.SizesFor("gc", "amd64").Sizeof(t) }
	switch {
	case fx && fy:
		return sz(y) < sz(x)
	case fx != fy:
		return true
	}
	ux, uy := x.Info()&types.IsUnsigned != 0, y.Info()&types.IsUnsigned != 0
	if x.Kind() == types.Int && sz(y) < 8 || y.Kind() == types.Int && sz(x) == 8 {
		return y.Kind() != x.Kind() // int may have 32 bits
	}
	if ux == uy {
		return sz(y) < sz(x)
	}
	if ux {
		return sz(y) <= sz(x)
	}
	return false // int64 -> uint64 keeps all bits
}

// floatTest decides a comparison or a classification of a float literal's value.
func floatTest(z *X, f float64) (val, ok bool) {
	var num func(x *X) (float64, bool)
	num = func(x *X) (float64, bool) {
		switch {
		case x.Op == "field" && x.Lit == "FloatValue":
			return f, true
		case x.Op == "const":
			v, err := strconv.ParseFloat(x.Lit, 64)
			return v, err == nil
		case x.Op == "int":
			v, err := strconv.ParseFloat(x.String(), 64)
			return v, err == nil
		case x.Op == "neg" && len(x.Args) == 1:
			v, ok := num(x.Args[0])
			return -v, ok
		case x.Op == "call" && x.Fn != nil && x.Fn.Name() == "Abs" && len(x.Args) == 1:
			v, ok := num(x.Args[0])
			return math.Abs(v), ok
		case strings.HasPrefix(x.Op, "conv") && len(x.Args) == 1 && strings.Contains(x.Lit, "float32"):
			v, ok := num(x.Args[0])
			return float64(float32(v)), ok
		case strings.HasPrefix(x.Op, "conv") && len(x.Args) == 1:
			return num(x.Args[0])
		}
		return 0, false
	}
	if z.Op == "call" && z.Fn != nil && z.Fn.Pkg != nil && z.Fn.Pkg.Pkg.Path() == "math" && len(z.Args) > 0 {
		v, ok := num(z.Args[0])
		switch z.Fn.Name() {
		case "IsInf":
			s, ok2 := z.Args[1].IsInt()
			return ok2 && math.IsInf(v, int(s.Int64())), ok && ok2
		case "IsNaN":
			return math.IsNaN(v), ok
		}
		return false, false
	}
	if len(z.Args) != 2 {
		return false, false
	}
	a, ok1 := num(z.Args[0])
	b, ok2 := num(z.Args[1])
	if !ok1 || !ok2 {
		return false, false
	}
	switch z.Op {
	case "less", "lt":
		return a < b, true
	case "le", "lesseq":
		return a <= b, true
	case "eq":
		return a == b, true
	}
	return false, false
}
