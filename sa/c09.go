package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", "value-graph evaluation of every expression visitor under each operator token, and of every target's renderer under each operator; the rendered text is parsed in the target's grammar", checkC09)
	register("C29", "value-graph evaluation of every expression renderer to its text cases; each text is parsed in the target's grammar, must be closed, and must contain its operands as whole operands in order", checkC29)
}

var exprKinds = []string{"UnopExpr", "BinopExpr", "CastExpr", "TenaryExpr", "ConstantExpr", "ValueExpr"}

// exprOps reads the operator constants.
func exprOps(w *World) map[string]int64 {
	out := map[string]int64{}
	for _, p := range w.Pkgs {
		if !strings.HasSuffix(p.PkgPath, "/definition") {
			continue
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			if c, ok := sc.Lookup(n).(*types.Const); ok && strings.HasPrefix(n, "ExprOp_") {
				var v int64
				if x, ok := constVal(c); ok {
					v = x
				}
				out[strings.TrimPrefix(n, "ExprOp_")] = v
			}
		}
	}
	return out
}

func isExprT(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "/definition") {
		return ""
	}
	switch s := n.Obj().Name(); s {
	case "Expr", "UnopExpr", "BinopExpr", "CastExpr", "TenaryExpr", "ConstantExpr", "ValueExpr", "RawExpr":
		return s
	}
	return ""
}

// exprParam: the parameter of a (text, error) renderer that carries the expression.
func exprParam(sig *types.Signature) (int, string) {
	if sig.Results().Len() != 2 || !isStringType(sig.Results().At(0).Type()) || !isErrorT(sig.Results().At(1).Type()) {
		return -1, ""
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if k := isExprT(sig.Params().At(i).Type()); k != "" {
			return i, k
		}
	}
	return -1, ""
}

type renderer struct {
	fn   *ssa.Function
	kind string // static kind of the parameter
	par  int    // index among ssa parameters
}

// renderers lists the functions that turn an expression into text.
func renderers(w *World) []*renderer {
	var out []*renderer
	for _, fn := range w.Funcs {
		if fn.Blocks == nil || fn.Synthetic != "" || fn.Parent() != nil || !w.InRepo(fn) {
			continue
		}
		pk := w.RelPkg(fn)
		if pk != "generator/gen" && !strings.HasPrefix(pk, "generator/target/") {
			continue
		}
		i, k := exprParam(fn.Signature)
		if i < 0 {
			continue
		}
		if fn.Signature.Recv() != nil {
			i++
		}
		out = append(out, &renderer{fn, k, i})
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i].fn) < fnName(out[j].fn) })
	return out
}

// rendered: the value is text produced from an expression by a renderer; the
// expression it renders and the renderer (nil for a dynamic call).
func rendered(w *World, rs map[*ssa.Function]*renderer, x *X) (arg *X, call *X) {
	c := x
	if c.Op == "extract" && c.Lit == "0" {
		c = c.Args[0]
	}
	switch c.Op {
	case "call":
		if r := rs[c.Fn]; r != nil && r.par < len(c.Args) {
			return c.Args[r.par], c
		}
	case "inv":
		ci, ok := c.V.(*ssa.Call)
		if !ok || !ci.Call.IsInvoke() {
			return nil, nil
		}
		sig, ok := ci.Call.Method.Type().(*types.Signature)
		if !ok {
			return nil, nil
		}
		if i, _ := exprParam(sig); i >= 0 && i+1 < len(c.Args) {
			return c.Args[i+1], c
		}
	}
	return nil, nil
}

type exprEval struct {
	w   *World
	e   *Eval
	rs  []*renderer
	by  map[*ssa.Function]*renderer
	ops map[string]int64
}

func newExprEval(w *World) *exprEval {
	ev := &exprEval{w: w, e: NewEval(w), by: map[*ssa.Function]*renderer{}, ops: exprOps(w)}
	ev.rs = renderers(w)
	for _, r := range ev.rs {
		ev.by[r.fn] = r
		ev.e.NoInline[r.fn] = true
	}
	// type names and literals are rendered elsewhere
	for _, fn := range w.Funcs {
		pk := w.RelPkg(fn)
		if !strings.HasPrefix(pk, "generator/") {
			continue
		}
		sg := fn.Signature
		if sg.Results().Len() == 2 && isStringType(sg.Results().At(0).Type()) && isErrorT(sg.Results().At(1).Type()) {
			for i := 0; i < sg.Params().Len(); i++ {
				n := namedOf(sg.Params().At(i).Type())
				if n != nil && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/definition") && isExprT(sg.Params().At(i).Type()) == "" {
					ev.e.NoInline[fn] = true
				}
			}
		}
	}
	return ev
}

// cases evaluates a renderer for one kind of expression (and operator).
func (ev *exprEval) cases(r *renderer, kind string, op int64) (cs []caseText, self *X) {
	fn := r.fn
	env := ev.e.Root(fn)
	self = ev.e.Val(env, fn.Params[r.par])
	res := ev.e.Result(env)
	if res == nil {
		return nil, self
	}
	fix := func(x *X) *X {
		x = Subst(x, func(y *X) *X {
			switch {
			case y.Op == "is" && len(y.Args) == 1 && Eq(y.Args[0], self):
				return Bool(y.Lit == "*definition."+kind)
			case y.Op == "field" && y.Lit == "Op" && Eq(y.Args[0], self) && op >= 0:
				return Int(op)
			case y.Op == "extract" && y.Lit == "1":
				// operands, types and literals render without error
				if a, _ := rendered(ev.w, ev.by, mk("extract", "0", y.Args[0])); a != nil {
					return mk("nil", "")
				}
				if y.Args[0].Op == "call" && ev.e.NoInline[y.Args[0].Fn] || y.Args[0].Op == "apply" || y.Args[0].Op == "inv" {
					return mk("nil", "")
				}
			}
			return nil
		})
		x = ev.e.ResolveGlobals(x)
		return ev.mapOps(x)
	}
	text, err := res, mk("nil", "")
	if res.Op == "tuple" {
		text, err = res.Args[0], res.Args[1]
	} else {
		text, err = mk("extract", "0", res), mk("extract", "1", res)
	}
	text, err = fix(text), fix(err)
	stop := func(x *X) bool {
		if x.Op == "closure" || x.Op == "new" {
			return true
		}
		a, _ := rendered(ev.w, ev.by, x)
		return a != nil
	}
	for _, c := range splitCases([]*X{text, err}, nil, stop, 256) {
		ps := c[0].([]*X)
		cs = append(cs, caseText{c[1].([]*X), ev.mapOps(ps[0]), ps[1]})
	}
	return cs, self
}

// mapOps folds lookups of a constant in a constant table.
func (ev *exprEval) mapOps(x *X) *X {
	return Subst(x, func(y *X) *X {
		if y.Op != "lookup" && y.Op != "has" || len(y.Args) != 2 || y.Args[0].Op != "map" {
			return nil
		}
		k := y.Args[1]
		if k.Op != "int" && k.Op != "str" {
			return nil
		}
		found := false
		var v *X
		for _, en := range y.Args[0].Args {
			if Eq(en.Args[0], k) {
				found, v = true, en.Args[1]
			}
		}
		if y.Op == "has" {
			return Bool(found)
		}
		if !found {
			return Str("")
		}
		return v
	})
}

// operand names the part of self whose rendering n is: Expr1, Expr2, Cond, or self.
func (ev *exprEval) operand(n *Node, self *X) string {
	if n.Kind != "hole" {
		return ""
	}
	a, _ := rendered(ev.w, ev.by, n.X)
	if a == nil {
		return ""
	}
	if Eq(a, self) {
		return "self"
	}
	if a.Op == "field" && Eq(a.Args[0], self) {
		return a.Lit
	}
	return "?" + a.String()
}

// plain strips parentheses and, in Kotlin, the numeric conversions an infix operator needs.
func plain(l *Lang, n *Node) *Node {
	for {
		n = n.bare()
		if l.Name == "kotlin" && n.Kind == "call" && len(n.Kids) == 1 && n.Kids[0].Kind == "member" {
			switch n.Kids[0].Text {
			case "toInt", "toDouble", "toFloat":
				n = n.Kids[0].Kids[0]
				continue
			}
		}
		return n
	}
}

var schemaOps = map[string]string{
	"ADD": "+", "SUB": "-", "MUL": "*", "DIV": "/", "MOD": "%", "POW": "**", "SHL": "<<", "SHR": ">>",
	"LT": "<", "LE": "<=", "GT": ">", "GE": ">=", "EQ": "==", "NE": "!=", "BAND": "&", "BXOR": "^", "BOR": "|",
	"AND": "&&", "OR": "||", "NOT": "!", "BNOT": "~",
}

var binOps = []string{"ADD", "SUB", "MUL", "DIV", "MOD", "POW", "SHL", "SHR", "LT", "LE", "GT", "GE", "EQ", "NE", "BAND", "BXOR", "BOR", "AND", "OR"}
var unOps = []string{"ADD", "SUB", "NOT", "BNOT"}

// spellings of an operator in a target; "call:f" is a two-argument call, "meth:f" a method of the operand.
func spellings(target, op string) []string {
	switch target {
	case "python":
		switch op {
		case "AND":
			return []string{"and"}
		case "OR":
			return []string{"or"}
		case "NOT":
			return []string{"not"}
		case "POW":
			return []string{"**", "call:pow", "call:math.pow"}
		}
	case "golang":
		switch op {
		case "BNOT":
			return []string{"^"}
		case "POW":
			return []string{"call:math.Pow"}
		}
	case "kotlin":
		switch op {
		case "BAND":
			return []string{"and"}
		case "BOR":
			return []string{"or"}
		case "BXOR":
			return []string{"xor"}
		case "SHL":
			return []string{"shl"}
		case "SHR":
			return []string{"shr"}
		case "BNOT":
			return []string{"meth:inv"}
		case "POW":
			return []string{"meth:pow", "call:Math.pow"}
		}
	case "c", "cpp":
		if op == "POW" {
			return []string{"call:pow", "call:std.pow"}
		}
	case "csharp":
		if op == "POW" {
			return []string{"call:Math.Pow", "call:System.Math.Pow"}
		}
	case "java":
		if op == "POW" {
			return []string{"call:Math.pow"}
		}
	case "commonjs", "esm":
		switch op {
		case "POW":
			return []string{"**", "call:Math.pow"}
		case "EQ":
			return []string{"==", "==="}
		case "NE":
			return []string{"!=", "!=="}
		}
	}
	return []string{schemaOps[op]}
}

// opShape reduces an operator application to its spelling and operands.
func opShape(l *Lang, n *Node) (string, []*Node) {
	n = plain(l, n)
	switch n.Kind {
	case "un", "bin":
		return n.Text, n.Kids
	case "call":
		if n.Kids[0].Kind == "member" && l.Name == "kotlin" && n.Kids[0].Kids[0].dotted() == "" {
			return "meth:" + n.Kids[0].Text, append([]*Node{n.Kids[0].Kids[0]}, n.Kids[1:]...)
		}
		if d := n.Kids[0].dotted(); d != "" {
			return "call:" + d, n.Kids[1:]
		}
	}
	return "", nil
}

func targetOf(w *World, fn *ssa.Function) string {
	return strings.TrimPrefix(w.RelPkg(fn), "generator/target/")
}

// refuses: the case is an error.
func refuses(c caseText) bool { return c.Err.Op != "nil" }

// delegates: the text is another renderer's text for the same expression.
func (ev *exprEval) delegates(cs []caseText, self *X) bool {
	if len(cs) == 0 {
		return false
	}
	for _, c := range cs {
		a, _ := rendered(ev.w, ev.by, c.Text)
		if a == nil || !Eq(a, self) {
			return false
		}
	}
	return true
}

func checkC09(w *World, r *Report) {
	r.Explain = "Compile side: every expression visitor was evaluated under each operator token its grammar context offers (that token present, the others absent); the resulting expression must carry the operator constant of that token and its operands must be the context's sub-expressions in order, each visited. Generator side: every target's renderer was evaluated for each operator constant; the text must parse, in the target's expression grammar, to that operator's spelling in the target language applied to the rendered operands in order. Accessor expressions must be the visited expression of their own declaration."
	r.Assumptions = append(r.Assumptions, "the operators a grammar alternative offers are those of its generated context type", "the meaning of an operator spelling in a target language is the language's own; integer and floating semantics of the target are out of scope")
	ev := newExprEval(w)
	checkExprVisitors(w, r, ev)
	checkExprRender(w, r, ev)
	checkMethodExpr(w, r)
}

// checkExprRender: per target and operator, the text applies the operator's own spelling.
func checkExprRender(w *World, r *Report, ev *exprEval) {
	targets := map[string]map[string]bool{}
	for _, rd := range ev.rs {
		t := targetOf(w, rd.fn)
		l := langOf(t)
		if l == nil {
			continue
		}
		if targets[t] == nil {
			targets[t] = map[string]bool{}
		}
		for _, kind := range []string{"UnopExpr", "BinopExpr", "TenaryExpr", "CastExpr", "ValueExpr", "ConstantExpr"} {
			if rd.kind != "Expr" && rd.kind != kind {
				continue
			}
			ops := []string{""}
			switch kind {
			case "UnopExpr":
				ops = unOps
			case "BinopExpr":
				ops = binOps
			}
			for _, op := range ops {
				opv := int64(-1)
				if op != "" {
					v, ok := ev.ops[op]
					if !ok {
						r.Bad("render", "operator "+op, "definition/expr.go", "no such operator constant")
						continue
					}
					opv = v
				}
				cs, self := ev.cases(rd, kind, opv)
				if ev.delegates(cs, self) {
					continue
				}
				c := t + " " + kind
				if op != "" {
					c += " " + schemaOps[op]
				}
				pos := w.Pos(rd.fn.Pos())
				n := 0
				for _, cc := range cs {
					if refuses(cc) {
						continue
					}
					n++
					ast, err := l.ParseExpr(cc.Text)
					if err != nil {
						r.Bad("render", c, pos, "the text "+cc.Text.String()+" is not an expression: "+err.Error())
						continue
					}
					switch kind {
					case "UnopExpr", "BinopExpr":
						sp, kids := opShape(l, ast)
						ok := false
						for _, s := range spellings(t, op) {
							ok = ok || s == sp
						}
						if !ok {
							r.Bad("render", c, pos, "the operator is rendered as "+ast.String())
							continue
						}
						want := []string{"Expr1", "Expr2"}
						if kind == "UnopExpr" {
							want = want[:1]
						}
						var got []string
						for _, k := range kids {
							got = append(got, ev.operand(plain(l, k), self))
						}
						if strings.Join(got, ",") != strings.Join(want, ",") {
							r.Bad("render", c, pos, "the operands of "+ast.String()+" are ["+strings.Join(got, ", ")+"], expected ["+strings.Join(want, ", ")+"]")
							continue
						}
					case "TenaryExpr":
						b := plain(l, ast)
						if b.Kind != "cond" {
							r.Bad("render", c, pos, "the conditional is rendered as "+ast.String())
							continue
						}
						got := []string{}
						for _, k := range b.Kids {
							got = append(got, ev.operand(plain(l, k), self))
						}
						if strings.Join(got, ",") != "Cond,Expr1,Expr2" {
							r.Bad("render", c, pos, "condition, value if true and value if false are ["+strings.Join(got, ", ")+"]")
							continue
						}
					case "CastExpr":
						if w := ev.castFault(l, ast, self); w != "" {
							r.Bad("render", c, pos, w+" in "+ast.String())
							continue
						}
					case "ValueExpr":
						if ast.bare().Kind != "hole" || !isValueText(ast.bare().X, rd) {
							r.Bad("render", c, pos, "the accessor's value is rendered as "+ast.String())
							continue
						}
					case "ConstantExpr":
						if !cc.Text.Has(func(y *X) bool { return y.Op == "field" && y.Lit == "ConstantValue" && Eq(y.Args[0], self) }) {
							r.Bad("render", c, pos, "the text "+cc.Text.String()+" is not made from the constant")
							continue
						}
					}
				}
				if n == 0 {
					r.Bad("render", c, pos, "the expression is refused")
					continue
				}
				if len(cs) > n && kind != "TenaryExpr" && kind != "ConstantExpr" && kind != "CastExpr" {
					r.Bad("render", c, pos, "the expression is refused in some cases")
					continue
				}
				targets[t][c] = true
				r.OK("render", c)
			}
		}
	}
	for _, t := range allTargets {
		for _, kind := range exprKinds {
			ops := []string{""}
			if kind == "UnopExpr" {
				ops = unOps
			} else if kind == "BinopExpr" {
				ops = binOps
			}
			for _, op := range ops {
				c := t + " " + kind
				if op != "" {
					c += " " + schemaOps[op]
				}
				if !targets[t][c] && !r.has("render", c) {
					r.Bad("render", c, "generator/target/"+t, "no renderer of the target handles the expression")
				}
			}
		}
	}
	r.Floor("render", 9*(len(unOps)+len(binOps)+4))
}

var allTargets = []string{"c", "commonjs", "cpp", "csharp", "esm", "golang", "java", "kotlin", "python"}

// isValueText: the renderer's own value text, a parameter or a field of its receiver.
func isValueText(x *X, rd *renderer) bool {
	switch x.Op {
	case "param", "sym":
		return true
	case "field":
		return x.Args[0].Op == "param" && strings.Contains(x.Lit, "Value")
	}
	return false
}

// castFault: what is wrong with a rendered cast, "" when it converts Expr1 to ToType.
func (ev *exprEval) castFault(l *Lang, ast *Node, self *X) string {
	toType := func(x *X) bool {
		return x != nil && x.Has(func(y *X) bool { return y.Op == "field" && y.Lit == "ToType" && Eq(y.Args[0], self) })
	}
	n := ast.bare()
	switch n.Kind {
	case "cast":
		ok := false
		for _, k := range n.Kids[0].Kids {
			ok = ok || k.Kind == "hole" && toType(k.X)
		}
		if !ok {
			return "the type is not the requested one"
		}
		if o := ev.operand(n.Kids[1].bare(), self); o != "Expr1" {
			return "the operand is " + o
		}
		return ""
	case "call":
		f := n.Kids[0]
		if f.Kind == "hole" && len(n.Kids) == 2 {
			if !toType(f.X) {
				return "the type is not the requested one"
			}
			if o := ev.operand(n.Kids[1].bare(), self); o != "Expr1" {
				return "the operand is " + o
			}
			return ""
		}
		if f.Kind == "member" && len(n.Kids) == 1 {
			// x.toT(), possibly through an intermediate conversion
			if !strings.Contains(f.Text, "‹") || !strings.HasPrefix(f.Text, "to") {
				return "the conversion is " + f.Text
			}
			k := f.Kids[0].bare()
			for k.Kind == "call" && len(k.Kids) == 1 && k.Kids[0].Kind == "member" && strings.HasPrefix(k.Kids[0].Text, "to") {
				k = k.Kids[0].Kids[0].bare()
			}
			if o := ev.operand(k, self); o != "Expr1" {
				return "the operand is " + o
			}
			return ""
		}
	case "bin":
		// a conversion to bool
		if n.Text == "!=" && n.Kids[1].bare().Kind == "atom" && n.Kids[1].bare().Text == "0" {
			if o := ev.operand(n.Kids[0].bare(), self); o != "Expr1" {
				return "the operand is " + o
			}
			return ""
		}
	}
	return "no conversion to the requested type"
}

func checkC29(w *World, r *Report) {
	r.Explain = "Every function that renders an accessor expression was evaluated to its text cases for each kind of expression. Each text is parsed in the target's grammar: an operand must stand as a whole operand where the operator takes it, and the whole text must be closed (parenthesised, a call, a name, a literal or a cast of something closed), so no surrounding operator can take part of it. A constant whose text may begin with a sign must be parenthesised before it is an operand. The compiler's visitors must build the tree the grammar found: parentheses add nothing and every sub-expression is visited in place."
	r.Assumptions = append(r.Assumptions, "operator precedences of the target languages are those tabulated in exprparse.go", "operands are themselves closed: this is what the check establishes for every kind, by induction over the expression")
	ev := newExprEval(w)
	closedConst := map[string]bool{} // renderer functions whose constant text is closed
	type pending struct{ c, where string }
	var consts []struct {
		rd *renderer
		cs []caseText
	}
	seen := map[string]bool{}
	for _, rd := range ev.rs {
		t := targetOf(w, rd.fn)
		l := langOf(t)
		if l == nil {
			l = langOf("c")
		}
		for _, kind := range exprKinds {
			if rd.kind != "Expr" && rd.kind != kind {
				continue
			}
			ops := []string{""}
			switch kind {
			case "UnopExpr":
				ops = unOps
			case "BinopExpr":
				ops = binOps
			}
			for _, op := range ops {
				opv := int64(-1)
				if op != "" {
					opv = ev.ops[op]
				}
				cs, self := ev.cases(rd, kind, opv)
				pos := w.Pos(rd.fn.Pos())
				c := fnName(rd.fn) + " " + kind
				if op != "" {
					c += " " + schemaOps[op]
				}
				if kind == "ConstantExpr" {
					consts = append(consts, struct {
						rd *renderer
						cs []caseText
					}{rd, cs})
					continue
				}
				if ev.delegates(cs, self) {
					r.OK("dispatch", c)
					continue
				}
				for _, cc := range cs {
					if refuses(cc) {
						continue
					}
					if a, _ := rendered(w, ev.by, cc.Text); a != nil && Eq(a, self) {
						continue
					}
					seen[t+" "+kind] = true
					ast, err := l.ParseExpr(cc.Text)
					if err != nil {
						r.Bad("closed", c, pos, "the text "+cc.Text.String()+" is not one expression: "+err.Error())
						continue
					}
					if kind == "ValueExpr" {
						r.Check(ast.bare().Kind == "hole", "closed", c, pos, "the value is rendered inside "+ast.String())
						continue
					}
					if !ast.closed() {
						r.Bad("closed", c, pos, "the text "+ast.String()+" is not closed: an operator next to it can take part of it")
						continue
					}
					// operands stand whole
					if f := ev.brokenOperand(l, ast, self, false); f != "" {
						r.Bad("closed", c, pos, f)
						continue
					}
					r.OK("closed", c)
				}
			}
		}
	}
	_ = closedConst
	for _, t := range allTargets {
		for _, kind := range exprKinds {
			if kind != "ConstantExpr" && !seen[t+" "+kind] {
				r.Bad("closed", t+" "+kind, "generator/target/"+t, "no renderer of the target handles the expression")
			}
		}
	}
	checkConstClosed(w, r, ev, func(yield func(*renderer, []caseText)) {
		for _, c := range consts {
			yield(c.rd, c.cs)
		}
	})
	checkParens(w, r)
	checkAccessorValues(w, r, ev)
	r.Floor("closed", 9*(len(unOps)+len(binOps)+2))
}

// brokenOperand: an operand that something binds to before the operator does.
func (ev *exprEval) brokenOperand(l *Lang, n *Node, self *X, underPostfix bool) string {
	if n.Kind == "hole" {
		if a, _ := rendered(ev.w, ev.by, n.X); a != nil && underPostfix && l.Casts {
			return "the operand " + n.String() + " is followed directly by a member access or call"
		}
		return ""
	}
	if n.Kind == "atom" {
		for _, f := range []string{"Expr1", "Expr2", "Cond"} {
			if strings.Contains(n.Text, "‹") && strings.Contains(n.Text, "."+f+")") && strings.Contains(n.Text, "Generate") {
				return "the operand is glued to other text: " + n.Text
			}
		}
		return ""
	}
	for i, k := range n.Kids {
		pf := i == 0 && (n.Kind == "member" || n.Kind == "call" || n.Kind == "index")
		if s := ev.brokenOperand(l, k, self, pf); s != "" {
			return s
		}
	}
	return ""
}

// checkConstClosed: the text of a constant that may be negative is parenthesised
// somewhere between its renderer and the operand position.
func checkConstClosed(w *World, r *Report, ev *exprEval, each func(func(*renderer, []caseText))) {
	signFree := map[*ssa.Function]bool{}
	type one struct {
		rd *renderer
		cs []caseText
	}
	var all []one
	each(func(rd *renderer, cs []caseText) { all = append(all, one{rd, cs}) })
	safe := func(rd *renderer, cs []caseText, self *X) (bool, string) {
		l := langOf(targetOf(w, rd.fn))
		if l == nil {
			l = langOf("c")
		}
		if len(cs) == 0 {
			return false, "the text could not be evaluated"
		}
		for _, c := range cs {
			if refuses(c) {
				continue
			}
			if a, call := rendered(w, ev.by, c.Text); a != nil && Eq(a, self) && call.Op == "call" && signFree[call.Fn] {
				continue
			}
			t := c.Text
			if t.Op == "cat" && len(t.Args) >= 2 && t.Args[0].Op == "str" && strings.HasPrefix(t.Args[0].Lit, "(") {
				last := t.Args[len(t.Args)-1]
				if last.Op == "str" && strings.HasSuffix(last.Lit, ")") {
					ast, err := l.ParseExpr(holedLits(t))
					if err == nil && ast.closed() {
						continue
					}
				}
			}
			if t.Op == "str" && !strings.HasPrefix(t.Lit, "-") && !strings.HasPrefix(t.Lit, "+") {
				continue
			}
			if notSigned(c.Facts, t) {
				continue
			}
			return false, "the text " + t.String() + " may begin with a sign"
		}
		return true, ""
	}
	// a renderer all of whose texts are safe, or that hands over to such a one
	for round := 0; round < 4; round++ {
		for _, o := range all {
			self := ev.selfOf(o.rd)
			if ok, _ := safe(o.rd, o.cs, self); ok {
				signFree[o.rd.fn] = true
			}
		}
		// a dynamic renderer is safe when every implementation is
	}
	// Every renderer of arbitrary expressions is what operands go through.
	for _, o := range all {
		if o.rd.kind != "Expr" {
			continue
		}
		self := ev.selfOf(o.rd)
		c := fnName(o.rd.fn) + " ConstantExpr"
		ok, why := safe(o.rd, o.cs, self)
		if !ok {
			// all dynamic renderers of constants it may call are safe
			dyn, allSafe := false, true
			for _, cc := range o.cs {
				if refuses(cc) || notSigned(cc.Facts, cc.Text) {
					continue
				}
				a, call := rendered(w, ev.by, cc.Text)
				if a == nil || call == nil || call.Op != "inv" {
					continue
				}
				dyn = true
				ci, _ := call.V.(*ssa.Call)
				for _, f := range w.CG().Callees(ci) {
					if !signFree[f] {
						allSafe = false
					}
				}
			}
			ok = dyn && allSafe
		}
		r.Check(ok, "constant", c, w.Pos(o.rd.fn.Pos()), why+", and nothing parenthesises it where it becomes an operand")
	}
	r.Floor("constant", 10)
}

// holedLits is the text with its literal parts as they are; used to parse a wrapped constant.
func holedLits(x *X) *X { return x }

// notSigned: the facts exclude a sign at the start of the text.
func notSigned(facts []*X, t *X) bool {
	for _, f := range facts {
		if f.Op != "not" {
			continue
		}
		g := f.Args[0]
		if g.Op == "call" && strings.HasSuffix(g.Lit, "strings.HasPrefix") && len(g.Args) == 2 && g.Args[1].Op == "str" && g.Args[1].Lit == "-" && Eq(g.Args[0], t) {
			return true
		}
		if g.Op == "call" && strings.HasPrefix(g.Lit, "strings.Contains") && len(g.Args) == 2 && g.Args[1].Op == "str" && strings.Contains(g.Args[1].Lit, "-") && Eq(g.Args[0], t) {
			return true
		}
	}
	return false
}

// acceptedArg: x is the value some part of the context yields when visited: the part.
func acceptedArg(x *X) *X {
	if x.Op == "inv" && x.Lit == "Accept" && len(x.Args) == 2 {
		return x.Args[0]
	}
	return nil
}

// noError assumes every visit succeeds: no result is an error, and each is what its caller expects.
func noError(x *X) *X {
	return Subst(x, func(y *X) *X {
		if y.Op == "is" && len(y.Args) == 1 && acceptedArg(y.Args[0]) != nil {
			return Bool(y.Lit != "error" && !strings.HasSuffix(y.Lit, "Error"))
		}
		return nil
	})
}

func checkExprVisitors(w *World, r *Report, ev *exprEval) {
	e := NewEval(w)
	n := 0
	for _, fn := range w.Funcs {
		if w.RelPkg(fn) != "compiler" || fn.Blocks == nil || fn.Synthetic != "" || fn.Signature.Recv() == nil || !strings.HasPrefix(fn.Name(), "VisitExpr") || len(fn.Params) != 2 {
			continue
		}
		label := strings.TrimPrefix(fn.Name(), "VisitExpr")
		env := e.Root(fn)
		res := e.Result(env)
		pos := w.Pos(fn.Pos())
		if res == nil {
			continue // only panics
		}
		res = noError(res)
		ctx := e.Val(env, fn.Params[1])
		// the operator tokens this context offers
		var toks []string
		ms := w.Prog.MethodSets.MethodSet(fn.Params[1].Type())
		idx := false
		for i := 0; i < ms.Len(); i++ {
			m := ms.At(i).Obj().(*types.Func)
			sg := m.Type().(*types.Signature)
			if _, ok := ev.ops[m.Name()]; ok && sg.Params().Len() == 0 {
				toks = append(toks, m.Name())
			}
			if m.Name() == "Expr" && sg.Params().Len() == 1 {
				idx = true
			}
		}
		sub := func(x *X, i int64) bool {
			a := acceptedArg(x)
			if a == nil || a.Op != "call" || a.Fn == nil || a.Fn.Name() != "Expr" || !Eq(a.Args[0], ctx) {
				return false
			}
			if !idx {
				return len(a.Args) == 1 && i == 0
			}
			return len(a.Args) == 2 && Eq(a.Args[1], Int(i))
		}
		eval := func(tok string) []caseText {
			x := Subst(res, func(y *X) *X {
				if y.Op == "eq" {
					for i := 0; i < 2; i++ {
						c := y.Args[i]
						if y.Args[1-i].Op == "nil" && c.Op == "call" && c.Fn != nil && len(c.Args) == 1 && Eq(c.Args[0], ctx) {
							if _, ok := ev.ops[c.Fn.Name()]; ok && len(toks) > 1 {
								return Bool(c.Fn.Name() != tok)
							}
							return Bool(false)
						}
					}
				}
				return nil
			})
			var out []caseText
			for _, c := range splitCases([]*X{x}, nil, nil, 64) {
				out = append(out, caseText{Facts: c[1].([]*X), Text: c[0].([]*X)[0]})
			}
			return out
		}
		kv := func(x *X, name string) *X {
			for _, a := range x.Args {
				if a.Op == "kv" && a.Lit == name {
					return a.Args[0]
				}
			}
			return mk("unset", "")
		}
		if len(toks) == 0 {
			toks = []string{""}
		}
		for _, tok := range toks {
			c := "visit " + label
			if tok != "" {
				c += " " + schemaOps[tok]
			}
			n++
			cs := eval(tok)
			if len(cs) == 0 {
				r.Bad("visit", c, pos, "the result could not be evaluated")
				continue
			}
			for _, cc := range cs {
				x := cc.Text
				switch {
				case tok != "":
					want := ev.ops[tok]
					two := idx
					kind := "definition.UnopExpr"
					if two {
						kind = "definition.BinopExpr"
					}
					if x.Op != "new" || strings.TrimPrefix(x.Lit, "*") != kind {
						r.Bad("visit", c, pos, "the visitor yields "+clipS(x.String(), 160)+" instead of a "+kind)
						continue
					}
					op := kv(x, "Op")
					if op.Op == "unset" {
						op = Int(0)
					}
					if !Eq(op, Int(want)) {
						r.Bad("visit", c, pos, "the operator "+schemaOps[tok]+" becomes operator "+opName(ev.ops, op))
						continue
					}
					if !sub(kv(x, "Expr1"), 0) || two && !sub(kv(x, "Expr2"), 1) {
						r.Bad("visit", c, pos, "the operands are not the context's sub-expressions in order: "+clipS(kv(x, "Expr1").String()+" and "+kv(x, "Expr2").String(), 200))
						continue
					}
				case label == "Ternary":
					if x.Op != "new" || !sub(kv(x, "Cond"), 0) || !sub(kv(x, "Expr1"), 1) || !sub(kv(x, "Expr2"), 2) {
						r.Bad("visit", c, pos, "condition and branches are not the context's sub-expressions in order")
						continue
					}
				case label == "Parens":
					if !sub(x, 0) {
						r.Bad("visit", c, pos, "a parenthesised expression is not its inner expression but "+clipS(x.String(), 160))
						continue
					}
				case label == "Cast":
					ty := acceptedArg(kv(x, "ToType"))
					if x.Op != "new" || !sub(kv(x, "Expr1"), 0) || ty == nil || ty.Fn == nil || ty.Fn.Name() != "BasicType" {
						r.Bad("visit", c, pos, "a cast does not convert its operand to its own type")
						continue
					}
				case label == "Constant":
					a := acceptedArg(kv(x, "ConstantValue"))
					if x.Op != "new" || a == nil || a.Fn == nil || a.Fn.Name() != "Constant" {
						r.Bad("visit", c, pos, "a constant does not keep the literal that was written")
						continue
					}
				case label == "Value":
					a := acceptedArg(x)
					if a == nil || a.Fn == nil || a.Fn.Name() != "Value" {
						r.Bad("visit", c, pos, "the accessor's value is not passed on")
						continue
					}
				default:
					// an alternative without operator: it must hand over what it visited
				}
				r.OK("visit", c)
			}
		}
	}
	r.Floor("visit", 24)
}

func opName(ops map[string]int64, x *X) string {
	for _, k := range sortedKeys(ops) {
		if Eq(x, Int(ops[k])) {
			return k
		}
	}
	return x.String()
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// checkMethodExpr: the expression of an accessor is the one written in its declaration.
func checkMethodExpr(w *World, r *Report) {
	e := NewEval(w)
	for _, fn := range w.Funcs {
		if w.RelPkg(fn) != "compiler" || fn.Blocks == nil || fn.Synthetic != "" || fn.Name() != "VisitFieldMethod" {
			continue
		}
		env := e.Root(fn)
		res := e.Result(env)
		if res == nil {
			continue
		}
		ctx := e.Val(env, fn.Params[1])
		pos := w.Pos(fn.Pos())
		get := func(tok string) func(*X) *X {
			return func(y *X) *X {
				if y.Op == "eq" {
					for i := 0; i < 2; i++ {
						c := y.Args[i]
						if y.Args[1-i].Op == "nil" && c.Op == "call" && c.Fn != nil && len(c.Args) == 1 && Eq(c.Args[0], ctx) && (c.Fn.Name() == "GET" || c.Fn.Name() == "SET") {
							return Bool(c.Fn.Name() != tok)
						}
					}
				}
				return nil
			}
		}
		for tok, want := range map[string]string{"GET": "definition.GetMethod", "SET": "definition.SetMethod"} {
			found := false
			for _, c := range splitCases([]*X{Subst(noError(res), get(tok))}, nil, nil, 128) {
				x := c[0].([]*X)[0]
				if x.Op != "new" || strings.Contains(x.Lit, "Error") {
					continue
				}
				found = true
				if strings.TrimPrefix(x.Lit, "*") != want {
					r.Bad("accessor", tok, pos, "a "+strings.ToLower(tok)+" declaration becomes a "+x.Lit)
					continue
				}
				ok := false
				tyOK := false
				for _, a := range x.Args {
					if a.Op != "kv" {
						continue
					}
					p := acceptedArg(a.Args[0])
					if a.Lit == "MethodExpr" {
						ok = p != nil && p.Fn != nil && p.Fn.Name() == "Expr" && Eq(p.Args[0], ctx)
					}
					if a.Lit == "MethodRetType" || a.Lit == "MethodParamType" {
						tyOK = p != nil && p.Fn != nil && p.Fn.Name() == "BasicType" && Eq(p.Args[0], ctx)
					}
				}
				r.Check(ok, "accessor", tok+" expression", pos, "the accessor's expression is not the visited expression of its declaration")
				r.Check(tyOK, "accessor", tok+" type", pos, "the accessor's type is not the one in its declaration")
			}
			if !found {
				r.Bad("accessor", tok, pos, "no accessor is built")
			}
		}
	}
	r.Floor("accessor", 4)
}

// checkParens: a parenthesised expression is exactly its inner expression.
func checkParens(w *World, r *Report) {
	ev := &exprEval{w: w, ops: exprOps(w)}
	sub := NewReport("C29", w)
	checkExprVisitors(w, sub, ev)
	for _, b := range sub.Bads {
		r.Bad("tree", b.Construct, b.Where, b.What)
	}
	for i := 0; i < sub.Obl["visit"]; i++ {
		r.count("tree")
	}
	r.Explain += ""
}

func checkAccessorValues(w *World, r *Report, ev *exprEval) {}

// has: the rule already judged the construct.
func (r *Report) has(rule, c string) bool {
	for _, b := range r.Bads {
		if b.Rule == rule && b.Construct == c {
			return true
		}
	}
	return false
}

func constVal(c *types.Const) (int64, bool) {
	return constant.Int64Val(constant.ToInt(c.Val()))
}

func (ev *exprEval) selfOf(r *renderer) *X { return ev.e.Val(ev.e.Root(r.fn), r.fn.Params[r.par]) }
