package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C08", "gated result of the option validator in each case of its tables, path search in the collecting visitors (every accepted option is entered and its warning joined before the next one, every refused one reported), provenance of the option tables stored on files and fields, and agreement of the declared tables with documentation and consumers", c08)
}

func c08(w *World, r *Report) {
	r.Explain = "the validator's result is evaluated under each combination of its table look-ups; the visitors that collect options are searched for a path from an option's visit to the next option or to success that omits what that option needs (entry in the table, warning, error); the tables kept on files and fields are traced to the visit that produced them; names and kinds in the validators' tables are compared with the documentation and with every place that consults an option."
	c08validator(w, r)
	used := c08collect(w, r)
	c08stored(w, r)
	c08tables(w, r, used)
}

// optCase is one combination of what the validator's tables say about an option.
type optCase struct {
	name               string
	known, kind        bool
	restricted, inside bool
	want               string // ok, warn, error
}

var optCases = []optCase{
	{"a known option of the right type", true, true, false, false, "ok"},
	{"a known option with one of its values", true, true, true, true, "ok"},
	{"a known option with a value that is not one of its values", true, true, true, false, "error"},
	{"a known option of the wrong type", true, false, false, false, "error"},
	{"a known option of the wrong type with one of its values", true, false, true, true, "error"},
	{"an unknown option", false, false, false, false, "warn"},
}

// isNew decides a type test on an object made in place.
func (w *World) isNew(y *X) *X {
	if y.Op != "is" || len(y.Args) != 1 || y.Args[0].Op != "new" {
		return nil
	}
	named := func(s string) *types.Named {
		if i := strings.Index(s, "@"); i >= 0 {
			s = s[:i]
		}
		if p := strings.SplitN(strings.TrimPrefix(s, "*"), ".", 2); len(p) == 2 {
			return w.NamedType(p[0], p[1])
		}
		return nil
	}
	t := named(y.Args[0].Lit)
	if t == nil {
		return nil
	}
	if y.Lit == "error" {
		return Bool(types.Implements(types.NewPointer(t), types.Universe.Lookup("error").Type().Underlying().(*types.Interface)))
	}
	u := named(y.Lit)
	if u == nil {
		return nil
	}
	if it, ok := u.Underlying().(*types.Interface); ok {
		return Bool(types.Implements(types.NewPointer(t), it))
	}
	return Bool(strings.HasPrefix(y.Lit, "*") && types.Identical(t, u))
}

// simp decides the look-ups of the validator's tables; in no other table has a
// name been seen before.
func (c optCase) simp(w *World, x *X) *X {
	isTab := func(y *X, f string) bool { return y.Op == "field" && y.Lit == f }
	for i := 0; i < 6; i++ {
		k := x.Key()
		x = Subst(x, func(y *X) *X {
			switch y.Op {
			case "is":
				return w.isNew(y)
			case "has":
				if len(y.Args) == 0 {
					return nil
				}
				t := y.Args[0]
				switch {
				case isTab(t, "OptionType"):
					return Bool(c.known)
				case isTab(t, "OptionValues"):
					return Bool(c.restricted)
				case t.Op == "lookup" && isTab(t.Args[0], "OptionValues"):
					return Bool(c.inside)
				}
				return Bool(false)
			case "eq":
				for j, a := range y.Args {
					if a.Op == "lookup" && isTab(a.Args[0], "OptionType") && len(y.Args) == 2 {
						o := y.Args[1-j]
						if o.Op == "inv" && o.Lit == "GetLiteralKind" {
							return Bool(c.kind)
						}
					}
				}
			}
			return nil
		})
		if x.Key() == k {
			break
		}
	}
	return x
}

func isWarn(x *X) bool {
	return x.Op == "new" && strings.Contains(x.Lit, "Warning")
}

func c08validator(w *World, r *Report) {
	e := w.vx
	const rule = "verdict"
	fn := w.need(r, rule, "compiler", "OptionValidator", "ValidateOption")
	if fn == nil {
		return
	}
	at, name := w.Pos(fn.Pos()), fnName(fn)
	env := e.RootBound(fn, "v", "option")
	res := e.Result(env)
	for _, c := range optCases {
		x := c.simp(w, res)
		os := outcomes(x)
		ok := len(os) > 0
		for _, o := range os {
			switch c.want {
			case "ok":
				ok = ok && o.Op == "nil"
			case "warn":
				ok = ok && isWarn(o)
			default:
				ok = ok && o.Op == "new" && strings.HasSuffix(o.Lit, "Error")
			}
		}
		r.Check(ok, rule, name+": "+c.name, at, c.name+" gives "+cut(x.String(), 160))
	}
	// the look-ups are of this option's name and value
	opt := Sym("option")
	keys := 0
	res.Walk(func(y *X) {
		if y.Op != "has" && y.Op != "lookup" || len(y.Args) < 2 {
			return
		}
		if y.Args[0].Op == "global" {
			return
		}
		keys++
		ok := false
		switch t := y.Args[0]; {
		case t.Op == "field" && (t.Lit == "OptionType" || t.Lit == "OptionValues"):
			ok = Eq(y.Args[1], fieldOf(opt, "OptionName"))
		case t.Op == "lookup":
			ok = Eq(y.Args[1], mk("inv", "GetLiteralValue", fieldOf(opt, "OptionValue")))
		}
		r.Check(ok, rule, name+" looked up", at, "the option is looked up as "+cut(y.String(), 120))
	})
	r.Check(keys >= 3, rule, name+" look-ups", at, "the tables are not consulted")

	add := w.need(r, rule, "compiler", "OptionValidator", "AddOption")
	if add == nil {
		return
	}
	at, name = w.Pos(add.Pos()), fnName(add)
	aenv := e.RootBound(add, "v", "name", "ty", "values")
	put := func(tab string, args ...*X) func(*Env, ssa.Instruction) bool {
		return func(env *Env, i ssa.Instruction) bool {
			a := e.omCall(env, i, "Put")
			return len(a) == 3 && a[0].Op == "field" && a[0].Lit == tab && Eq(a[1], args[0]) && (args[1] == nil || Eq(a[2], args[1]))
		}
	}
	q := &pathQ{e: e, pass: put("OptionType", Sym("name"), Sym("ty")), goal: isReturn}
	r.Check(q.reaches(aenv, add.Blocks[0]) == nil, rule, name+" type", at, "an option can be declared without its type being entered")
	some := func(x *X) *X { return sat(x, Lt(Int(0), mk("len", "", Sym("values")))) }
	q = &pathQ{e: e, simp: some, pass: put("OptionValues", Sym("name"), nil), goal: isReturn}
	r.Check(q.reaches(aenv, add.Blocks[0]) == nil, rule, name+" values", at, "an option can be declared without its values being entered")
	loops := 0
	for _, ov := range e.loopsOver(aenv) {
		if !Eq(ov.List, Sym("values")) {
			continue
		}
		loops++
		ok := ov.exitsByReturn()
		for _, s := range ov.Head.Succs {
			if ov.Loop[s] {
				q := &pathQ{e: e, pass: func(env *Env, i ssa.Instruction) bool {
					a := e.omCall(env, i, "Put")
					return len(a) == 3 && Eq(a[1], ov.Elem)
				}, goal: func(env *Env, i ssa.Instruction) bool { return i.Block() == ov.Head || isReturn(env, i) }}
				ok = ok && q.reaches(ov.Env, s) == nil
			}
		}
		r.Check(ok, rule, name+" each value", at, "not every allowed value of an option is entered")
	}
	r.Check(loops > 0, rule, name+" each value", at, "the allowed values of an option are not entered one by one")
	r.Floor(rule, 10)
}

func isReturn(_ *Env, i ssa.Instruction) bool {
	_, ok := i.(*ssa.Return)
	return ok
}

// c08collect checks the visitors that collect options; it returns which
// validator judges which kind of option.
func c08collect(w *World, r *Report) map[string]*ssa.Global {
	e := w.vx
	const rule = "every option"
	used := map[string]*ssa.Global{}
	success := (&c06t{w: w, r: r, e: e}).success
	for _, t := range []struct{ grammar, list, kind string }{{"FieldOptions", "AllFieldOption", "field"}, {"Proto", "AllOptionStatement", "file"}} {
		seen := false
		for _, fn := range w.visitFns(t.grammar) {
			v := newVis(w, e, fn)
			at, name := w.Pos(fn.Pos()), fnName(fn)
			for _, ov := range e.loopsOver(v.env) {
				if ov.List.Op != "call" || ov.List.Fn == nil || ov.List.Fn.Name() != t.list || !Eq(ov.List.Args[0], v.ctx) {
					continue
				}
				var elem *X
				var body *ssa.BasicBlock
				for _, s := range ov.Head.Succs {
					if ov.Loop[s] {
						body = s
					}
				}
				for b := range ov.Loop {
					for _, i := range b.Instrs {
						if c, ok := i.(*ssa.Call); ok {
							if x := e.Val(ov.Env, c); x.Op == "inv" && x.Lit == "Accept" && Eq(x.Args[0], ov.Elem) {
								elem = x
							}
						}
					}
				}
				if elem == nil || body == nil {
					continue
				}
				seen = true
				r.Check(ov.exitsByReturn(), rule, name+" to the end", at, "not all options are looked at")
				// where the table goes
				sc := v.scene().is(elem, "*definition.Option").fact(Not(EqX(elem, mk("nil", ""))))
				next := func(env *Env, i ssa.Instruction) bool { return i.Block() == ov.Head }
				for _, c := range optCases {
					simp := func(x *X) *X { return c.simp(w, sc.eval(c.simp(w, x))) }
					goal := func(env *Env, i ssa.Instruction) bool { return next(env, i) || success(simp)(env, i) }
					entered := func(env *Env, i ssa.Instruction) bool {
						a := e.omCall(env, i, "Put")
						if len(a) != 3 {
							return false
						}
						return Eq(simp(a[1]), fieldOf(elem, "OptionName")) && Eq(simp(a[2]), elem)
					}
					warned := func(env *Env, i ssa.Instruction) bool {
						st, ok := i.(*ssa.Store)
						if !ok {
							return false
						}
						fa, ok := st.Addr.(*ssa.FieldAddr)
						if !ok || fieldName(fa) != "Warning" || !strings.HasPrefix(typeName(deref(fa.X.Type())), "compiler.") {
							return false
						}
						x := simp(e.Val(env, st.Val))
						has := false
						x.Walk(func(y *X) {
							if isWarn(y) {
								has = true
							}
						})
						return has
					}
					find := func(pass func(*Env, ssa.Instruction) bool) string {
						q := &pathQ{e: e, simp: simp, pass: pass, goal: goal}
						if hit := q.reaches(ov.Env, body); hit != nil {
							return w.Pos(instrPos(hit))
						}
						return ""
					}
					what := name + ": " + c.name
					if c.want != "error" {
						p := find(entered)
						r.Check(p == "", rule, what+" kept", at, c.name+" can be passed over without being entered in the table (reaching "+p+")")
					}
					if c.want == "warn" {
						p := find(warned)
						r.Check(p == "", rule, what+" warning", at, c.name+" can be passed over without a warning (reaching "+p+")")
					}
					if c.want == "error" {
						p := find(func(env *Env, i ssa.Instruction) bool { return isJoin(i) })
						r.Check(p == "", rule, what+" reported", at, c.name+" can be passed over without an error (reaching "+p+")")
					}
					if c.want == "ok" {
						// no error is made of it
						hit := false
						q := &pathQ{e: e, simp: simp, pass: func(env *Env, i ssa.Instruction) bool { return next(env, i) }, goal: func(env *Env, i ssa.Instruction) bool {
							if isJoin(i) {
								hit = true
							}
							return hit
						}}
						q.reaches(ov.Env, body)
						r.Check(!hit, rule, what+" accepted", at, c.name+" is reported as an error")
					}
				}
				// which validator
				for b := range ov.Loop {
					for _, i := range b.Instrs {
						c, ok := i.(*ssa.Call)
						if !ok || c.Common().StaticCallee() == nil || c.Common().StaticCallee().Name() != "ValidateOption" {
							continue
						}
						if ld, ok := c.Common().Args[0].(*ssa.UnOp); ok {
							if g, ok := ld.X.(*ssa.Global); ok {
								used[t.kind] = g
							}
						}
					}
				}
			}
		}
		r.Check(seen, rule, t.grammar, "compiler", "the options are not collected one by one")
	}
	r.Floor(rule, 16)
	return used
}

// c08stored: the collected table is what is kept on the file or field.
func c08stored(w *World, r *Report) {
	e := w.vx
	const rule = "stored table"
	for _, fn := range w.visitFns("Proto") {
		v := newVis(w, e, fn)
		at, name := w.Pos(fn.Pos()), fnName(fn)
		n := 0
		var table *X
		for _, ov := range e.loopsOver(v.env) {
			if ov.List.Op == "call" && ov.List.Fn != nil && ov.List.Fn.Name() == "AllOptionStatement" {
				n++
			}
		}
		if n == 0 {
			continue
		}
		// the table the options are put into
		e.Traverse(v.env, func(fn *ssa.Function) bool { return e.Inlinable(fn) }, func(s *Site) {
			if a := e.omCall(s.Env, s.Instr, "Put"); len(a) == 3 && a[1].Op == "field" && a[1].Lit == "OptionName" {
				table = a[0]
			}
		})
		if table == nil {
			r.Bad(rule, name, at, "the options are not entered in a table")
			continue
		}
		unitOptions := func(env *Env, i ssa.Instruction) bool {
			st, ok := i.(*ssa.Store)
			if !ok {
				return false
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			return ok && fieldName(fa) == "Options" && strings.HasSuffix(typeName(deref(fa.X.Type())), "CompilationUnit")
		}
		q := &pathQ{e: e, pass: func(env *Env, i ssa.Instruction) bool {
			if !unitOptions(env, i) {
				return false
			}
			return Eq(e.Val(env, i.(*ssa.Store).Val), table) || Eq(fieldOf(fieldOf(v.env.recv(e), "Unit"), "Options"), table)
		}, goal: (&c06t{w: w, r: r, e: e}).success(func(x *X) *X { return x })}
		hit := q.reaches(v.env, fn.Blocks[0])
		p := at
		if hit != nil {
			p = w.Pos(instrPos(hit))
		}
		direct := Eq(fieldOf(fieldOf(v.env.recv(e), "Unit"), "Options"), table)
		r.Check(hit == nil || direct, rule, name, p, "a file can be accepted without its options being stored on it")
	}
	// nobody else replaces the options of a file
	for _, fn := range w.Funcs {
		if fn.Blocks == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				f := fieldName(fa)
				tn := typeName(deref(fa.X.Type()))
				if f != "Options" && f != "FieldOptions" || !strings.HasPrefix(tn, "definition.") {
					continue
				}
				switch {
				case f == "Options" && !(fn.Name() == "VisitProto" || strings.HasPrefix(fn.Name(), "New") || calledFromVisit(w, fn)):
					r.Bad(rule, fnName(fn), w.Pos(st.Pos()), "the options of a file are replaced outside the visitor that collects them")
				case f == "FieldOptions":
					_, fresh := fa.X.(*ssa.Alloc)
					r.Check(fresh, rule, fnName(fn)+" FieldOptions", w.Pos(st.Pos()), "the options of an existing field are replaced")
				default:
					r.OK(rule, fnName(fn), w.Pos(st.Pos()))
				}
			}
		}
	}
	for _, t := range []struct{ rule, typ string }{{"FieldNormal", "NormalField"}, {"FieldConstant", "ConstantField"}, {"FieldVoid", "VoidField"}, {"FieldEmbedded", "EmbeddedField"}} {
		fns := w.visitFns(t.rule)
		if len(fns) == 0 {
			r.Bad(rule, "Visit"+t.rule, "compiler", "no visitor implements this rule")
		}
		for _, fn := range fns {
			v := newVis(w, e, fn)
			at, name := w.Pos(fn.Pos()), fnName(fn)
			op := v.accept("FieldOptions")
			if op == nil {
				r.Bad(rule, name, at, "the options of the field are not visited")
				continue
			}
			s := v.scene().has("FieldOptions").is(op, "*util.OrderedMap[string, *definition.Option]")
			n := 0
			for _, o := range outcomes(s.result()) {
				if o.Op != "new" || !strings.Contains(o.Lit, t.typ) {
					continue
				}
				n++
				got := e.newFields(v.env, o)["FieldOptions"]
				if got != nil {
					got = s.eval(got)
				}
				r.Check(got != nil && Eq(got, op), rule, name, at, fmt.Sprintf("the options are kept as %v", got))
			}
			r.Check(n > 0, rule, name+" accepted", at, "a field with options is never accepted")
			bad := v.scene().has("FieldOptions").is(op, "error", "definition.TopLevelError").result()
			for _, o := range outcomes(bad) {
				r.Check(rejected(o) || o.Op == "inv" && o.Lit == "Accept", rule, name+" failure", at, "a field whose options were refused is accepted: "+cut(o.String(), 100))
			}
		}
	}
	// the option itself
	for _, t := range []string{"FieldOption", "OptionStatement"} {
		for _, fn := range w.visitFns(t) {
			v := newVis(w, e, fn)
			at, name := w.Pos(fn.Pos()), fnName(fn)
			n := 0
			for _, o := range outcomes(v.res) {
				if o.Op != "new" || !strings.Contains(o.Lit, "Option") || rejected(o) {
					continue
				}
				n++
				got := e.newFields(v.env, o)["OptionName"]
				nm := v.child("OptionName")
				ok := got != nil && nm != nil && len(got.Args) > 0 && Eq(got.Args[0], nm)
				r.Check(ok, rule, name+" name", at, fmt.Sprintf("the option's name is kept as %v", got))
			}
			r.Check(n > 0, rule, name, at, "no option is ever accepted")
		}
	}
	r.Floor(rule, 14)
}

func (env *Env) recv(e *Eval) *X {
	if len(env.fn.Params) == 0 {
		return bottom
	}
	return e.Val(env, env.fn.Params[0])
}

// calledFromVisit: a helper only the collecting visitor uses.
func calledFromVisit(w *World, fn *ssa.Function) bool {
	cs := w.callersOf()[fn]
	if len(cs) == 0 {
		return false
	}
	for _, c := range cs {
		if c.Parent().Name() != "VisitProto" {
			return false
		}
	}
	return true
}

func initAndFuncs(w *World, pkg string) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range w.Funcs {
		if w.RelPkg(fn) == pkg {
			out = append(out, fn)
		}
	}
	if p := w.SSA[pkg]; p != nil {
		if f := p.Func("init"); f != nil && !slices.Contains(out, f) {
			out = append(out, f)
		}
	}
	return out
}

type optDecl struct {
	kind   string
	values []string
	at     string
}

// optTable reads the declarations made on a validator.
func optTable(w *World, g *ssa.Global) map[string]optDecl {
	out := map[string]optDecl{}
	add := w.method("compiler", "OptionValidator", "AddOption")
	if add == nil || g == nil {
		return out
	}
	kinds := map[string]string{}
	for _, k := range []string{"Bool", "Int", "Float", "String"} {
		if c, ok := w.Const("definition", "LiteralKindID_"+k); ok {
			kinds[c.String()] = k
		}
	}
	stored := map[ssa.Value]bool{}
	for _, fn := range initAndFuncs(w, "compiler") {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					stored[st.Val] = true
				}
			}
		}
	}
	onGlobal := func(v ssa.Value) bool {
		if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL && ld.X == ssa.Value(g) {
			return true
		}
		return stored[v]
	}
	for _, ci := range w.callersOf()[add] {
		a := ci.Common().Args
		if len(a) != 4 || !onGlobal(a[0]) {
			continue
		}
		nm, ok := a[1].(*ssa.Const)
		if !ok || nm.Value == nil {
			continue
		}
		k := ""
		if c, ok := a[2].(*ssa.Const); ok && c.Value != nil {
			if n, ok := constant.Int64Val(c.Value); ok {
				k = kinds[Int(n).String()]
			} else {
				k = kinds[c.Value.ExactString()]
			}
		}
		d := optDecl{kind: k, at: w.Pos(ci.Pos())}
		if sl, ok := a[3].(*ssa.Slice); ok {
			for _, ref := range *sl.X.Referrers() {
				if ia, ok := ref.(*ssa.IndexAddr); ok {
					for _, r2 := range *ia.Referrers() {
						if st, ok := r2.(*ssa.Store); ok {
							if mi, ok := st.Val.(*ssa.MakeInterface); ok {
								if c, ok := mi.X.(*ssa.Const); ok && c.Value != nil {
									d.values = append(d.values, c.Value.ExactString())
								}
							}
						}
					}
				}
			}
		}
		sort.Strings(d.values)
		out[constant.StringVal(nm.Value)] = d
	}
	return out
}

var (
	reDocFile  = regexp.MustCompile(`(?m)^option\s+([a-z_]+)\s*=\s*(.+?);`)
	reDocField = regexp.MustCompile(`\[\s*([a-z_]+)\s*=\s*("[^"]*"|true|false|[0-9.]+)\s*\]`)
	reTmplOpt  = regexp.MustCompile(`Options\.(?:Has|MustGet|Get)\s+"([a-z_]+)"`)
)

func literalKind(s string) string {
	switch {
	case strings.HasPrefix(s, `"`):
		return "String"
	case s == "true" || s == "false":
		return "Bool"
	case strings.Contains(s, "."):
		return "Float"
	}
	return "Int"
}

func c08tables(w *World, r *Report, used map[string]*ssa.Global) {
	const rule = "known options"
	tabs := map[string]map[string]optDecl{}
	for _, k := range []string{"file", "field"} {
		tabs[k] = optTable(w, used[k])
		r.Check(len(tabs[k]) > 0, rule, k+" options", "compiler/option_validator.go", "no "+k+" option is known to the validator its visitor uses")
		for n, d := range tabs[k] {
			r.Check(d.kind != "", rule, k+" option "+n, d.at, "the option is declared without a kind")
		}
	}
	need := func(k, name, kind, val, where, who string) {
		d, ok := tabs[k][name]
		what := k + " option " + name
		if !ok {
			r.Bad(rule, what, where, fmt.Sprintf("the option %s is used by %s but unknown to the validator of %s options: setting it gives a warning only, and its type is not checked", name, who, k))
			return
		}
		if kind != "" {
			r.Check(d.kind == kind, rule, what+" kind", d.at, fmt.Sprintf("the option is declared as %s and used by %s as %s", d.kind, who, kind))
		}
		if val != "" && len(d.values) > 0 {
			in := false
			for _, x := range d.values {
				in = in || x == val
			}
			r.Check(in, rule, what+" value", d.at, fmt.Sprintf("the value %s of the option, used by %s, is not one of %v", val, who, d.values))
		}
	}
	// documentation
	doc, err := os.ReadFile(filepath.Join(w.Repo, "README.md"))
	if err != nil {
		r.Bad(rule, "README.md", "README.md", "the documentation of the options cannot be read")
	}
	for _, m := range reDocFile.FindAllStringSubmatch(string(doc), -1) {
		need("file", m[1], literalKind(m[2]), "", "README.md", "the documentation")
	}
	for _, m := range reDocField.FindAllStringSubmatch(string(doc), -1) {
		need("field", m[1], literalKind(m[2]), m[2], "README.md", "the documentation")
	}
	// consumers in code
	consulted := map[string]map[string]bool{}
	mark := func(k, n, pkg string) {
		if consulted[k+" "+n] == nil {
			consulted[k+" "+n] = map[string]bool{}
		}
		consulted[k+" "+n][pkg] = true
	}
	kindOfTable := func(v ssa.Value) string {
		if f := fieldLoaded(v); f == "Options" {
			return "file"
		} else if f == "FieldOptions" {
			return "field"
		}
		return ""
	}
	var paramKind func(v ssa.Value, d int) string
	paramKind = func(v ssa.Value, d int) string {
		if k := kindOfTable(v); k != "" {
			return k
		}
		p, ok := v.(*ssa.Parameter)
		if !ok || d > 4 {
			return ""
		}
		for _, ci := range w.callersOf()[p.Parent()] {
			for i, q := range p.Parent().Params {
				if q == p && i < len(ci.Common().Args) && !ci.Common().IsInvoke() {
					if k := paramKind(ci.Common().Args[i], d+1); k != "" {
						return k
					}
				}
			}
		}
		return ""
	}
	for _, fn := range w.Funcs {
		if fn.Blocks == nil || w.RelPkg(fn) == "compiler" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok || c.Common().StaticCallee() == nil || len(c.Common().Args) < 2 {
					continue
				}
				a := c.Common().Args
				nm, ok := a[1].(*ssa.Const)
				if !ok || nm.Value == nil || nm.Value.Kind() != constant.String || !strings.Contains(typeName(a[0].Type()), "definition.Option") {
					continue
				}
				name := constant.StringVal(nm.Value)
				k := paramKind(a[0], 0)
				if k == "" {
					r.Bad(rule, fnName(fn)+" "+name, w.Pos(c.Pos()), "an option is looked up in a table that is neither a file's nor a field's")
					continue
				}
				kind, val := "", ""
				if len(a) == 3 {
					if mi, ok := a[2].(*ssa.MakeInterface); ok {
						if cc, ok := mi.X.(*ssa.Const); ok && cc.Value != nil {
							switch cc.Value.Kind() {
							case constant.Bool:
								kind = "Bool"
							case constant.String:
								kind, val = "String", cc.Value.ExactString()
							case constant.Int:
								kind = "Int"
								r.Check(strings.HasSuffix(typeName(mi.X.Type()), "int64"), rule, fnName(fn)+" "+name, w.Pos(c.Pos()), "a numeric option is compared with a number of another type than its value has")
							case constant.Float:
								kind = "Float"
							}
						}
					}
				}
				need(k, name, kind, val, w.Pos(c.Pos()), fnName(fn))
				mark(k, name, w.RelPkg(fn))
			}
		}
	}
	for rel, p := range w.Pkgs {
		for _, f := range p.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				l, ok := n.(*ast.BasicLit)
				if !ok || l.Kind != token.STRING {
					return true
				}
				s, err := strconv.Unquote(l.Value)
				if err != nil {
					return true
				}
				for _, m := range reTmplOpt.FindAllStringSubmatch(s, -1) {
					need("file", m[1], "", "", w.Pos(l.Pos()), "a template of "+rel)
					mark("file", m[1], rel)
				}
				return true
			})
		}
	}
	// every known option is consulted by the targets it is for
	targets := map[string]bool{}
	for _, fn := range w.Funcs {
		if p := w.RelPkg(fn); strings.HasPrefix(p, "generator/target/") && strings.Count(p, "/") == 2 {
			targets[p] = true
		}
	}
	r.Check(len(targets) >= 8, rule, "targets", "generator/target", "the targets were not found")
	lang := map[string]string{"csharp": "csharp", "cpp": "cpp", "go": "golang", "java": "java", "kotlin": "kotlin"}
	for _, k := range []string{"file", "field"} {
		for n, d := range tabs[k] {
			l := lang[strings.SplitN(n, "_", 2)[0]]
			for t := range targets {
				if l != "" && !strings.HasSuffix(t, "/"+l) {
					continue
				}
				ok := consulted[k+" "+n][t]
				if !ok && strings.HasSuffix(t, "/cpp") { // the C++ target is built on the C target
					ok = consulted[k+" "+n]["generator/target/c"]
				}
				if l == "" && !ok && len(consulted[k+" "+n]) == 0 {
					ok = false
				}
				r.Check(ok, rule, k+" option "+n+" in "+t, d.at, "the option is accepted but never consulted by "+t)
			}
		}
	}
	r.Floor(rule, 30)
}
