package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C27", "evaluation of each target's type and default functions for every basic type (tables folded from their initialisers), compared with a dictionary of the native types' class, width and signedness; exhaustive check of every table keyed by type or size and of the basic types' own definitions and classification", c27)
}

type basicKind struct {
	name  string
	id    *X
	class string // bool int float
	bits  int64
	neg   bool // signed
}

func basicKinds(w *World, r *Report) []*basicKind {
	var out []*basicKind
	for _, k := range []*basicKind{
		{"Bool", nil, "bool", 8, false},
		{"Uint8", nil, "int", 8, false}, {"Uint16", nil, "int", 16, false}, {"Uint32", nil, "int", 32, false}, {"Uint64", nil, "int", 64, false},
		{"Int8", nil, "int", 8, true}, {"Int16", nil, "int", 16, true}, {"Int32", nil, "int", 32, true}, {"Int64", nil, "int", 64, true},
		{"Float32", nil, "float", 32, true}, {"Float64", nil, "float", 64, true}} {
		c, ok := w.Const("definition", "TypeID_"+k.name)
		if !ok {
			r.Bad("basic types", "TypeID_"+k.name, "definition", "the type is not declared")
			continue
		}
		k.id = c
		out = append(out, k)
	}
	return out
}

// native says whether a native type of a target can hold exactly the values of
// a basic type: same class, same width, same signedness where the language has it.
func native(target, t string, k *basicKind) bool {
	u := ""
	if !k.neg {
		u = "u"
	}
	n := fmt.Sprint(k.bits)
	pick := func(b bool, x, y string) string {
		if b {
			return x
		}
		return y
	}
	switch target {
	case "c", "cpp":
		switch k.class {
		case "bool":
			return t == "bool" || t == "_Bool"
		case "int":
			return t == u+"int"+n+"_t" || t == "std::"+u+"int"+n+"_t"
		}
		return t == pick(k.bits == 32, "float", "double")
	case "golang":
		switch k.class {
		case "bool":
			return t == "bool"
		case "int":
			return t == u+"int"+n || t == "byte" && n == "8" && !k.neg
		}
		return t == "float"+n
	case "csharp":
		switch k.class {
		case "bool":
			return t == "bool" || t == "Boolean"
		case "int":
			return t == map[string]string{"u8": "byte", "u16": "ushort", "u32": "uint", "u64": "ulong", "8": "sbyte", "16": "short", "32": "int", "64": "long"}[u+n] || t == strings.ToUpper(u)+"Int"+n && n != "8"
		}
		return t == pick(k.bits == 32, "float", "double")
	case "java": // no unsigned types: the same width holds the same bits
		switch k.class {
		case "bool":
			return t == "boolean"
		case "int":
			return t == map[string]string{"8": "byte", "16": "short", "32": "int", "64": "long"}[n]
		}
		return t == pick(k.bits == 32, "float", "double")
	case "kotlin":
		switch k.class {
		case "bool":
			return t == "Boolean"
		case "int":
			return t == map[string]string{"u8": "UByte", "u16": "UShort", "u32": "UInt", "u64": "ULong", "8": "Byte", "16": "Short", "32": "Int", "64": "Long"}[u+n]
		}
		return t == pick(k.bits == 32, "Float", "Double")
	case "python":
		return t == map[string]string{"bool": "bool", "int": "int", "float": "float"}[k.class]
	case "commonjs", "esm":
		switch k.class {
		case "bool":
			return t == "Boolean" || t == "boolean"
		case "int":
			return (t == "BigInt" || t == "bigint") && k.bits > 53 || (t == "Number" || t == "number") && k.bits <= 53
		}
		return t == "Number" || t == "number"
	}
	return false
}

var reZero = regexp.MustCompile(`^[+]?0+(\.0*)?([a-zA-Z]*)$`)

// neutral: the text is the zero of the type in the target.
func neutral(target, t string, k *basicKind) bool {
	if k.class == "bool" {
		if target == "python" {
			return t == "False"
		}
		return t == "false"
	}
	m := reZero.FindStringSubmatch(t)
	if m == nil {
		return false
	}
	frac, suf := strings.Contains(t, "."), m[2]
	low := strings.ToLower(suf)
	if k.class == "float" {
		if target == "kotlin" {
			return k.bits == 32 && low == "f" || k.bits == 64 && suf == "" && frac
		}
		switch low {
		case "":
			return true
		case "f":
			return k.bits == 32 && (frac || target == "csharp" || target == "java") && target != "golang" && target != "python" && target != "commonjs" && target != "esm"
		case "d":
			return k.bits == 64 && (target == "csharp" || target == "java")
		}
		return false
	}
	if frac {
		return false
	}
	switch target {
	case "kotlin":
		if k.neg {
			return suf == "" && k.bits < 64 || suf == "L" && k.bits == 64
		}
		return (low == "u") && k.bits < 64 || low == "ul" && k.bits == 64
	case "commonjs", "esm":
		return suf == "n" && k.bits > 53 || suf == "" && k.bits <= 53
	case "golang", "python":
		return suf == ""
	case "java":
		return suf == "" || low == "l" && k.bits == 64
	case "c", "cpp", "csharp":
		switch low {
		case "", "u":
			return true
		case "l", "ul", "ll", "ull":
			return k.bits == 64
		}
	}
	return false
}

// foldTables folds lookups of a constant in a constant table.
func foldTables(e *Eval, x *X) *X {
	ev := &exprEval{w: e.w, e: e}
	for i := 0; i < 4; i++ {
		k := x.Key()
		x = ev.mapOps(e.ResolveGlobals(x))
		if x.Key() == k {
			break
		}
	}
	return x
}

func c27(w *World, r *Report) {
	r.Explain = "for every target and every basic type the functions that name the native type and its default are evaluated with the type's identity substituted and the tables they consult folded; the text has to be a native type of the same class, width and signedness, or its zero. Every other table keyed by type identity, by width or by literal code is read entry by entry."
	e := w.vx
	kinds := basicKinds(w, r)
	c27own(w, r, e, kinds)
	const rule = "native type"
	targets := map[string]int{}
	for _, fn := range w.Funcs {
		pkg := w.RelPkg(fn)
		if !strings.HasPrefix(pkg, "generator/target/") || fn.Signature.Recv() == nil || fn.Synthetic != "" || fn.Parent() != nil {
			continue
		}
		target := pkg[strings.LastIndex(pkg, "/")+1:]
		if fn.Name() != "GenerateBasicType" && fn.Name() != "GenerateBasicTypeDefaultValue" {
			continue
		}
		at := w.Pos(fn.Pos())
		env := e.RootBound(fn, "g", "ty")
		res := e.Result(env)
		for _, k := range kinds {
			text, err := typedResult(e, res, "ty", k)
			what := fmt.Sprintf("%s %s %s", target, fn.Name(), k.name)
			if text == nil {
				r.Bad(rule, what, at, "the text for "+k.name+" is not determined by the type: "+err)
				continue
			}
			if fn.Name() == "GenerateBasicType" {
				targets[target]++
				r.Check(native(target, *text, k), rule, what, at, fmt.Sprintf("%s is generated as %q, which is no %s of %d bits, signed %v, in this target", k.name, *text, k.class, k.bits, k.neg))
			} else {
				r.Check(neutral(target, *text, k), rule, what, at, fmt.Sprintf("the default of %s is %q, which is not the zero of that type", k.name, *text))
			}
		}
	}
	r.Check(len(targets) >= 9, rule, "targets", "generator/target", fmt.Sprintf("native types were found in %d targets only", len(targets)))
	for t, n := range targets {
		r.Check(n >= len(kinds), rule, t+" types", "generator/target/"+t, "not every basic type has a native type")
	}
	c27arrays(w, r, e, kinds)
	c27tables(w, r, e, kinds)
	r.Floor(rule, 150)
}

// typedResult evaluates a (string, error) result for one basic type.
func typedResult(e *Eval, res *X, param string, k *basicKind) (*string, string) {
	if res == nil {
		return nil, "no result"
	}
	x := ofKind(e, res, param, k)
	text, err := x, mk("nil", "")
	if x.Op == "tuple" && len(x.Args) == 2 {
		text, err = x.Args[0], x.Args[1]
	}
	if text.Op != "str" || err.Op != "nil" {
		return nil, cut(x.String(), 160)
	}
	s := text.Lit
	return &s, ""
}

// ofKind substitutes the identity, name and width of a basic type.
func ofKind(e *Eval, x *X, param string, k *basicKind) *X {
	of := func(y *X) bool {
		for y.Op == "deref" {
			y = y.Args[0]
		}
		return y.Op == "sym" && y.Lit == param || Eq(y, Sym(param))
	}
	for i := 0; i < 4; i++ {
		key := x.Key()
		x = Subst(x, func(y *X) *X {
			if len(y.Args) == 0 {
				return nil
			}
			n := ""
			switch {
			case y.Op == "field" && of(y.Args[0]):
				n = y.Lit
			case y.Op == "inv" && of(y.Args[0]):
				n = y.Lit
			case y.Op == "call" && y.Fn != nil && len(y.Args) == 1 && of(y.Args[0]):
				n = y.Fn.Name()
			}
			switch n {
			case "TypeTypeID", "GetTypeID":
				return k.id
			case "TypeBitSize", "GetTypeBitSize":
				return Int(k.bits)
			case "TypeName", "GetTypeName":
				return Str(strings.ToLower(k.name))
			}
			return nil
		})
		x = foldTables(e, x)
		if x.Key() == key {
			break
		}
	}
	return x
}

// c27own checks the basic types' own definitions and classification.
func c27own(w *World, r *Report, e *Eval, kinds []*basicKind) {
	const rule = "basic types"
	p := w.SSA["definition"]
	if p == nil {
		r.Bad(rule, "definition", "definition", "the package is missing")
		return
	}
	// the package variables
	vals := map[string]map[string]*X{}
	for _, fn := range initAndFuncs(w, "definition") {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				note := func(g *ssa.Global, f string, v ssa.Value) {
					if vals[g.Name()] == nil {
						vals[g.Name()] = map[string]*X{}
					}
					x := e.Val(e.Root(fn), v)
					if old := vals[g.Name()][f]; old != nil {
						x = mk("anyof", "", old, x)
					}
					vals[g.Name()][f] = x
				}
				switch a := st.Addr.(type) {
				case *ssa.FieldAddr:
					if g, ok := a.X.(*ssa.Global); ok && strings.HasSuffix(typeName(deref(g.Type())), ".BasicType") {
						note(g, fieldName(a), st.Val)
					}
				case *ssa.Global: // a composite literal, copied
					u, ok := st.Val.(*ssa.UnOp)
					if !ok || !strings.HasSuffix(typeName(deref(a.Type())), ".BasicType") {
						continue
					}
					al, ok := u.X.(*ssa.Alloc)
					if !ok {
						continue
					}
					for _, ref := range *al.Referrers() {
						fa, ok := ref.(*ssa.FieldAddr)
						if !ok {
							continue
						}
						for _, ref := range *fa.Referrers() {
							if fs, ok := ref.(*ssa.Store); ok && fs.Addr == fa {
								note(a, fieldName(fa), fs.Val)
							}
						}
					}
				}
			}
		}
	}
	for _, k := range kinds {
		fs := vals[k.name]
		at := "definition/type.go"
		if g := p.Var(k.name); g != nil {
			at = w.Pos(g.Pos())
		}
		r.Check(fs != nil && fs["TypeTypeID"] != nil && Eq(fs["TypeTypeID"], k.id), rule, k.name+" identity", at, fmt.Sprintf("its identity is %v", fs["TypeTypeID"]))
		r.Check(fs != nil && fs["TypeBitSize"] != nil && Eq(fs["TypeBitSize"], Int(k.bits)), rule, k.name+" width", at, fmt.Sprintf("its width is %v bits", fs["TypeBitSize"]))
		r.Check(fs != nil && fs["TypeName"] != nil && Eq(fs["TypeName"], Str(strings.ToLower(k.name))), rule, k.name+" name", at, fmt.Sprintf("its name is %v", fs["TypeName"]))
		for _, t := range [][2]string{{"GetTypeID", "TypeTypeID"}, {"GetTypeBitSize", "TypeBitSize"}, {"GetTypeName", "TypeName"}} {
			fn := w.need(r, rule, "definition", "BasicType", t[0])
			if fn == nil {
				continue
			}
			x := e.Result(e.RootBound(fn, "t"))
			r.Check(x != nil && x.Op == "field" && x.Lit == t[1], rule, fnName(fn), w.Pos(fn.Pos()), fmt.Sprintf("it gives %v", x))
		}
	}
	// classification of identities
	preds := map[string]func(k *basicKind) bool{
		"IsBasic":     func(k *basicKind) bool { return true },
		"IsBool":      func(k *basicKind) bool { return k.class == "bool" },
		"IsUint":      func(k *basicKind) bool { return k.class == "int" && !k.neg },
		"IsInt":       func(k *basicKind) bool { return k.class == "int" && k.neg },
		"IsFloat":     func(k *basicKind) bool { return k.class == "float" },
		"IsIntOrUint": func(k *basicKind) bool { return k.class == "int" },
		"IsNumber":    func(k *basicKind) bool { return k.class != "bool" },
		"IsString":    func(k *basicKind) bool { return false }, "IsBytes": func(k *basicKind) bool { return false }, "IsArray": func(k *basicKind) bool { return false },
		"IsStruct": func(k *basicKind) bool { return false }, "IsEnum": func(k *basicKind) bool { return false },
	}
	others := []string{"String", "Bytes", "Array", "Struct", "Enum"}
	var names []string
	for n := range preds {
		names = append(names, n)
	}
	sort.Strings(names)
	seen := map[string]string{}
	for _, n := range names {
		fn := w.need(r, rule, "definition", "TypeID", n)
		if fn == nil {
			continue
		}
		res := e.Result(e.RootBound(fn, "t"))
		at := func(id *X) *X { return sat(substX(res, Sym("t"), id)) }
		for _, k := range kinds {
			r.Check(Eq(at(k.id), Bool(preds[n](k))), rule, fnName(fn)+" "+k.name, w.Pos(fn.Pos()), fmt.Sprintf("%s of %s is %s", n, k.name, at(k.id)))
		}
		for _, o := range others {
			if id, ok := w.Const("definition", "TypeID_"+o); ok {
				r.Check(Eq(at(id), Bool(n == "Is"+o)), rule, fnName(fn)+" "+o, w.Pos(fn.Pos()), fmt.Sprintf("%s of %s is %s", n, o, at(id)))
			}
		}
	}
	if fn := w.need(r, rule, "definition", "TypeID", "String"); fn != nil {
		res := e.Result(e.RootBound(fn, "t"))
		for _, k := range append([]*basicKind{}, kinds...) {
			x := sat(substX(res, Sym("t"), k.id))
			r.Check(Eq(x, Str(strings.ToLower(k.name))), rule, fnName(fn)+" "+k.name, w.Pos(fn.Pos()), fmt.Sprintf("%s is called %s", k.name, x))
			seen[x.String()] = k.name
		}
	}
	// the words of the schema language
	for _, fn := range w.visitFns("BasicType") {
		v := newVis(w, e, fn)
		for _, k := range kinds {
			tok := strings.ToUpper(k.name)
			s := v.scene()
			for _, o := range kinds {
				if o == k {
					s = s.has(tok)
				} else {
					s = s.hasNot(strings.ToUpper(o.name))
				}
			}
			x := s.result()
			ok := strings.Contains(x.String(), "'definition."+k.name+"'") && !strings.Contains(x.String(), "sel(")
			r.Check(ok, rule, fnName(fn)+" "+tok, w.Pos(fn.Pos()), fmt.Sprintf("the word %s gives %s", tok, cut(x.String(), 100)))
		}
	}
	r.Floor(rule, 200)
}

// c27arrays: the type generated for an array of a basic type is built from that type.
func c27arrays(w *World, r *Report, e *Eval, kinds []*basicKind) {
	const rule = "array type"
	for _, fn := range w.Funcs {
		pkg := w.RelPkg(fn)
		if !strings.HasPrefix(pkg, "generator/target/") || fn.Signature.Recv() == nil || fn.Synthetic != "" || fn.Name() != "GenerateArray" {
			continue
		}
		target := pkg[strings.LastIndex(pkg, "/")+1:]
		at := w.Pos(fn.Pos())
		res := e.Result(e.RootBound(fn, "g", "array"))
		if res == nil || res.Op == "bottom" {
			r.OK(rule, target, at)
			continue
		}
		elem := fieldOf(Sym("array"), "ElementType")
		for _, k := range kinds {
			x := substX(res, mk("inv", "GetTypeID", elem), k.id)
			x = foldTables(e, sat(x))
			text := x
			if x.Op == "tuple" {
				text = x.Args[0]
			}
			ok := false
			for _, t := range outcomes(text) {
				if t.Op == "str" && t.Lit == "" {
					continue // error
				}
				if t.Op == "str" {
					n := strings.TrimSuffix(t.Lit, "Array")
					ok = t.Lit == "Array" && (target == "commonjs" || target == "esm") || n != t.Lit && native(target, n, k)
				} else {
					t.Walk(func(y *X) {
						if (y.Op == "call" || y.Op == "inv") && len(y.Args) > 0 && Eq(y.Args[len(y.Args)-1], elem) {
							ok = true
						}
					})
				}
				if !ok {
					r.Bad(rule, target+" "+k.name, at, "an array of "+k.name+" is generated as "+cut(t.String(), 100))
				}
			}
			r.Check(ok, rule, target+" "+k.name, at, "an array of "+k.name+" has no type built from its element's")
		}
	}
	r.Floor(rule, 50)
}

var packCodes = map[string][3]string{ // Python struct: class, bits, signed
	"?": {"bool", "8", "u"}, "b": {"int", "8", "s"}, "B": {"int", "8", "u"}, "h": {"int", "16", "s"}, "H": {"int", "16", "u"}, "i": {"int", "32", "s"}, "I": {"int", "32", "u"}, "l": {"int", "32", "s"}, "L": {"int", "32", "u"},
	"q": {"int", "64", "s"}, "Q": {"int", "64", "u"}, "f": {"float", "32", "s"}, "d": {"float", "64", "s"},
}

func packs(code string, k *basicKind) bool {
	p, ok := packCodes[code]
	if !ok {
		return false
	}
	s := "u"
	if k.neg {
		s = "s"
	}
	if k.class == "bool" {
		return code == "?" || code == "B"
	}
	return p[0] == k.class && p[1] == fmt.Sprint(k.bits) && p[2] == s
}

// c27tables reads every package-level table keyed by type identity or width.
func c27tables(w *World, r *Report, e *Eval, kinds []*basicKind) {
	const rule = "tables"
	var pkgs []string
	for p := range w.SSA {
		if strings.HasPrefix(p, "generator") || p == "definition" {
			pkgs = append(pkgs, p)
		}
	}
	sort.Strings(pkgs)
	for _, p := range pkgs {
		target := p[strings.LastIndex(p, "/")+1:]
		for _, n := range sortedMembers(w.SSA[p]) {
			g, ok := w.SSA[p].Members[n].(*ssa.Global)
			if !ok {
				continue
			}
			m, ok := deref(g.Type()).Underlying().(*types.Map)
			if !ok {
				continue
			}
			kt, vt := typeName(m.Key()), typeName(m.Elem())
			byID := kt == "definition.TypeID"
			bySize := strings.HasSuffix(vt, "definition.TypeID") && isIntType(m.Key()) && !byID
			if !byID && !bySize {
				continue
			}
			at := w.Pos(g.Pos())
			x := e.GlobalVal(g)
			if x == nil || x.Op != "map" {
				r.Bad(rule, p+"."+n, at, "the table is not one constant table")
				continue
			}
			get := func(k *X) *X {
				for _, en := range x.Args {
					if Eq(en.Args[0], k) {
						return en.Args[1]
					}
				}
				return nil
			}
			if bySize {
				un, sg := 0, 0
				for _, en := range x.Args {
					for _, k := range kinds {
						if Eq(en.Args[1], k.id) {
							if k.neg {
								sg++
							} else {
								un++
							}
						}
					}
				}
				for _, k := range kinds {
					if k.class != "int" || k.neg != (sg > un) {
						continue
					}
					v := get(Int(k.bits))
					r.Check(v != nil && Eq(v, k.id), rule, fmt.Sprintf("%s.%s[%d]", p, n, k.bits), at, fmt.Sprintf("for %d bits the table gives %v instead of %s", k.bits, v, k.name))
				}
				r.Check(len(x.Args) == 4, rule, p+"."+n+" entries", at, "the table has other entries than the four widths")
				// a table that names itself signed or unsigned is one
				low := strings.ToLower(n)
				if strings.Contains(low, "uint") {
					r.Check(un == 4, rule, p+"."+n+" signedness", at, "the table of unsigned types has a signed type")
				} else if strings.Contains(low, "int") {
					r.Check(sg == 4, rule, p+"."+n+" signedness", at, "the table of signed types has an unsigned type")
				}
				continue
			}
			if !isStringType(m.Elem()) {
				// a table of types
				for _, k := range kinds {
					v := get(k.id)
					ok := v != nil && strings.Contains(v.String(), "definition."+k.name)
					r.Check(ok, rule, p+"."+n+" "+k.name, at, fmt.Sprintf("for %s the table gives %v", k.name, v))
				}
				continue
			}
			judges := []func(t string, k *basicKind) bool{
				func(t string, k *basicKind) bool { return native(target, t, k) },
				func(t string, k *basicKind) bool { return neutral(target, t, k) },
				packs,
			}
			best, score := 0, -1
			for j, f := range judges {
				s := 0
				for _, k := range kinds {
					if v := get(k.id); v != nil && v.Op == "str" && f(v.Lit, k) {
						s++
					}
				}
				if s > score {
					best, score = j, s
				}
			}
			if score < len(kinds)/2 {
				r.OK(rule, p+"."+n+" (names)", at)
				for _, k := range kinds {
					r.Check(get(k.id) != nil, rule, p+"."+n+" "+k.name, at, k.name+" is missing from the table")
				}
				continue
			}
			for _, k := range kinds {
				v := get(k.id)
				r.Check(v != nil && v.Op == "str" && judges[best](v.Lit, k), rule, p+"."+n+" "+k.name, at, fmt.Sprintf("the entry of %s is %v", k.name, v))
			}
		}
	}
	r.Floor(rule, 60)
}
