package main

// Symbolic rendering of the code templates: the text a template produces is a
// value in which data are holes, conditions are choices and ranges are "each"
// nodes: each(list, body) with the element written as index(list, i).

import (
	"fmt"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

type tx struct {
	e     *Eval
	set   map[string]*parse.Tree
	funcs map[string]*X
	depth int
	nest  int
	bad   bool
}

type txvar struct {
	name string
	x    *X
}

type txscope struct{ vars []txvar }

func (s *txscope) get(n string) *X {
	for i := len(s.vars) - 1; i >= 0; i-- {
		if s.vars[i].name == n {
			return s.vars[i].x
		}
	}
	return mk("undefined", n)
}

func (s *txscope) set(n string, x *X) {
	for i := len(s.vars) - 1; i >= 0; i-- {
		if s.vars[i].name == n {
			s.vars[i].x = x
			return
		}
	}
}

func (s *txscope) clone() *txscope { return &txscope{append([]txvar{}, s.vars...)} }

// RenderText renders the named definition of a template text.
func (e *Eval) RenderText(text, name string, data *X, funcs map[string]*X) *X {
	set, err := ParseTmpl(text)
	if err != nil {
		return nil
	}
	t := &tx{e: e, set: set, funcs: funcs}
	return t.define(name, data)
}

func (t *tx) define(name string, dot *X) *X {
	tr := t.set[name]
	if tr == nil || tr.Root == nil || t.depth > 12 {
		return mk("tmpl", name, dot)
	}
	t.depth++
	defer func() { t.depth-- }()
	return t.list(tr.Root, dot, &txscope{vars: []txvar{{"$", dot}}})
}

func (t *tx) list(l *parse.ListNode, dot *X, sc *txscope) *X {
	if l == nil {
		return Str("")
	}
	var out []*X
	for _, n := range l.Nodes {
		out = append(out, t.node(n, dot, sc))
	}
	return Concat(out...)
}

func (t *tx) node(n parse.Node, dot *X, sc *txscope) *X {
	switch n := n.(type) {
	case *parse.TextNode:
		return Str(string(n.Text))
	case *parse.ActionNode:
		x := t.pipe(n.Pipe, dot, sc)
		if len(n.Pipe.Decl) > 0 {
			return Str("")
		}
		if x.Op == "int" || x.Op == "bool" {
			return Str(x.Lit)
		}
		return x
	case *parse.IfNode:
		c := truth(t.pipe(n.Pipe, dot, sc))
		return t.branch(c, n.List, n.ElseList, dot, dot, sc)
	case *parse.WithNode:
		v := t.pipe(n.Pipe, dot, sc)
		return t.branch(truth(v), n.List, n.ElseList, v, dot, sc)
	case *parse.TemplateNode:
		arg := mk("nil", "")
		if n.Pipe != nil {
			arg = t.pipe(n.Pipe, dot, sc)
		}
		return t.define(n.Name, arg)
	case *parse.RangeNode:
		return t.ranges(n, dot, sc)
	case *parse.CommentNode:
		return Str("")
	}
	return mk("tmplnode", n.String())
}

func (t *tx) branch(c *X, a, b *parse.ListNode, adot, bdot *X, sc *txscope) *X {
	sa, sb := sc.clone(), sc.clone()
	n := len(sc.vars)
	if c.Op == "bool" {
		s, l, d := sa, a, adot
		if c.Lit == "false" {
			s, l, d = sb, b, bdot
		}
		x := t.list(l, d, s)
		copy(sc.vars, s.vars[:n])
		return x
	}
	xa, xb := t.list(a, adot, sa), t.list(b, bdot, sb)
	for i := 0; i < n; i++ {
		if !Eq(sa.vars[i].x, sb.vars[i].x) {
			sc.vars[i].x = Sel(c, sa.vars[i].x, sb.vars[i].x)
		} else {
			sc.vars[i].x = sa.vars[i].x
		}
	}
	return Sel(c, xa, xb)
}

func (t *tx) ranges(n *parse.RangeNode, dot *X, sc *txscope) *X {
	over := t.pipeVal(n.Pipe, dot, sc)
	bindTo := func(s *txscope, i, el *X) {
		switch len(n.Pipe.Decl) {
		case 1:
			s.vars = append(s.vars, txvar{n.Pipe.Decl[0].Ident[0], el})
		case 2:
			s.vars = append(s.vars, txvar{n.Pipe.Decl[0].Ident[0], i}, txvar{n.Pipe.Decl[1].Ident[0], el})
		}
	}
	m := len(sc.vars)
	if over.Op == "iterate" {
		a, aok := over.Args[0].IsInt()
		b, bok := over.Args[1].IsInt()
		if aok && bok && b.Int64()-a.Int64() <= 64 {
			over = mk("list", "")
			var els []*X
			for k := a.Int64(); k < b.Int64(); k++ {
				els = append(els, Int(k))
			}
			over = mk("list", "", els...)
		}
	}
	if over.Op == "list" {
		var out []*X
		for k, el := range over.Args {
			s := sc.clone()
			bindTo(s, Int(int64(k)), el)
			out = append(out, t.list(n.List, el, s))
			copy(sc.vars, s.vars[:m])
		}
		return Concat(out...)
	}
	t.nest++
	i := Sym(fmt.Sprintf("i~%d", t.nest))
	el := mk("index", "", over, i)
	if over.Op == "iterate" {
		el = Add(over.Args[0], i)
	}
	// variables assigned in the body are loop variables
	probe := sc.clone()
	for k := range probe.vars {
		probe.vars[k].x = mk("mu", fmt.Sprintf("t%d.%s", t.nest, probe.vars[k].name))
	}
	bindTo(probe, i, el)
	t.list(n.List, el, probe)
	in := sc.clone()
	outv := map[int]*X{}
	for k := 0; k < m; k++ {
		mu := mk("mu", fmt.Sprintf("t%d.%s", t.nest, sc.vars[k].name))
		if Eq(probe.vars[k].x, mu) {
			continue
		}
		// other loop variables do not occur in the steps of these templates
		lp := mk("loop", "", sc.vars[k].x, probe.vars[k].x)
		in.vars[k].x = lp
		outv[k] = mk("after", "", lp)
	}
	bindTo(in, i, el)
	body := t.list(n.List, el, in)
	for k, x := range outv {
		sc.vars[k].x = x
	}
	t.nest--
	x := mk("each", "", over, body)
	if n.ElseList != nil {
		return Sel(EqX(mk("len", "", over), Int(0)), t.list(n.ElseList, dot, sc.clone()), x)
	}
	return x
}

func (t *tx) pipe(p *parse.PipeNode, dot *X, sc *txscope) *X {
	v := t.pipeVal(p, dot, sc)
	for _, d := range p.Decl {
		if p.IsAssign {
			sc.set(d.Ident[0], v)
		} else {
			sc.vars = append(sc.vars, txvar{d.Ident[0], v})
		}
	}
	return v
}

func (t *tx) pipeVal(p *parse.PipeNode, dot *X, sc *txscope) *X {
	var v *X
	for _, c := range p.Cmds {
		v = t.command(c, dot, v, sc)
	}
	if v == nil {
		return mk("nil", "")
	}
	return v
}

func (t *tx) command(c *parse.CommandNode, dot, final *X, sc *txscope) *X {
	var args []*X
	if id, ok := c.Args[0].(*parse.IdentifierNode); ok {
		for _, a := range c.Args[1:] {
			args = append(args, t.arg(a, dot, sc))
		}
		if final != nil {
			args = append(args, final)
		}
		return t.call(id.Ident, args)
	}
	for _, a := range c.Args[1:] {
		args = append(args, t.arg(a, dot, sc))
	}
	if final != nil {
		args = append(args, final)
	}
	return t.chain(c.Args[0], args, dot, sc)
}

func (t *tx) chain(n parse.Node, args []*X, dot *X, sc *txscope) *X {
	walk := func(x *X, ids []string) *X {
		for k, id := range ids {
			var as []*X
			if k == len(ids)-1 {
				as = args
			}
			x = t.member(x, id, as)
		}
		return x
	}
	switch n := n.(type) {
	case *parse.FieldNode:
		return walk(dot, n.Ident)
	case *parse.VariableNode:
		return walk(sc.get(n.Ident[0]), n.Ident[1:])
	case *parse.ChainNode:
		return walk(t.arg(n.Node, dot, sc), n.Field)
	}
	return t.arg(n, dot, sc)
}

func (t *tx) arg(n parse.Node, dot *X, sc *txscope) *X {
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		return mk("nil", "")
	case *parse.BoolNode:
		return Bool(n.True)
	case *parse.StringNode:
		return Str(n.Text)
	case *parse.NumberNode:
		if n.IsInt {
			return Int(n.Int64)
		}
		return mk("const", n.Text)
	case *parse.PipeNode:
		return t.pipeVal(n, dot, sc)
	case *parse.IdentifierNode:
		return t.call(n.Ident, nil)
	case *parse.FieldNode, *parse.VariableNode, *parse.ChainNode:
		return t.chain(n, nil, dot, sc)
	}
	return mk("tmplnode", n.String())
}

// member is x.id in a template: a map entry, a field or a method.
func (t *tx) member(x *X, id string, args []*X) *X {
	if x.Op == "sel" {
		return selMap(x, func(y *X) *X { return t.member(y, id, args) })
	}
	if x.Op == "map" {
		for _, en := range x.Args {
			if en.Args[0].Op == "str" && en.Args[0].Lit == id {
				return en.Args[1]
			}
		}
		return mk("nil", "")
	}
	if isOMMember(id) && len(args) == 0 {
		if id == "Len" {
			return mk("len", "", x)
		}
		return mk("om", id, x)
	}
	if len(args) == 0 && t.e.isFieldName(id) {
		return fieldOf(x, id)
	}
	return &X{Op: "inv", Lit: id, Args: append([]*X{x}, args...)}
}

func isOMMember(id string) bool {
	return id == "Values" || id == "Entries" || id == "Keys" || id == "Len" || id == "First" || id == "Last"
}

// isFieldName: some struct of the repository has a field of that name and no
// type a method of it.
func (e *Eval) isFieldName(id string) bool {
	for _, fn := range e.w.Funcs {
		if fn.Name() == id && fn.Signature.Recv() != nil && e.w.RelPkg(fn) != "parser" {
			return false
		}
	}
	return true
}

func truth(x *X) *X {
	switch x.Op {
	case "bool", "eq", "eq0", "not", "and", "or", "lt0", "has", "is", "truth":
		return x
	case "nil":
		return Bool(false)
	case "str":
		return Bool(x.Lit != "")
	case "int":
		return Bool(x.Lit != "0")
	case "new", "map", "closure":
		return Bool(true)
	case "cat":
		for _, a := range x.Args {
			if a.Op == "str" && a.Lit != "" {
				return Bool(true)
			}
		}
	case "sel":
		return Sel(x.Args[0], truth(x.Args[1]), truth(x.Args[2]))
	case "list":
		return Bool(len(x.Args) > 0)
	}
	return mk("truth", "", x)
}

func (t *tx) call(name string, a []*X) *X {
	switch name {
	case "and":
		r := Bool(true)
		for _, x := range a {
			r = And(r, truth(x))
		}
		return r
	case "or":
		r := Bool(false)
		for _, x := range a {
			r = Or(r, truth(x))
		}
		return r
	case "not":
		if len(a) == 1 {
			return Not(truth(a[0]))
		}
	case "eq":
		if len(a) >= 2 {
			r := Bool(false)
			for _, x := range a[1:] {
				r = Or(r, EqX(a[0], x))
			}
			return r
		}
	case "ne":
		return Not(EqX(a[0], a[1]))
	case "lt":
		return Lt(a[0], a[1])
	case "le":
		return Le(a[0], a[1])
	case "gt":
		return Lt(a[1], a[0])
	case "ge":
		return Le(a[1], a[0])
	case "len":
		if len(a) == 1 {
			switch a[0].Op {
			case "list":
				return Int(int64(len(a[0].Args)))
			case "str":
				return Int(int64(len(a[0].Lit)))
			case "om":
				if a[0].Lit == "Values" || a[0].Lit == "Entries" {
					return mk("len", "", a[0].Args[0])
				}
			}
			return mk("len", "", a[0])
		}
	case "index":
		if len(a) == 2 {
			if n, ok := a[1].IsInt(); ok && a[0].Op == "list" && n.IsInt64() && n.Int64() < int64(len(a[0].Args)) {
				return a[0].Args[n.Int64()]
			}
			return mk("index", "", a[0], a[1])
		}
	case "printf":
		if len(a) >= 1 {
			if x := sprintf([]*X{a[0], mk("list", "", a[1:]...)}); x != nil {
				return x
			}
		}
	case "print":
		return Concat(a...)
	case "dict":
		m := mk("map", "")
		for i := 0; i+1 < len(a); i += 2 {
			m.Args = append(m.Args, mk("entry", "", a[i], a[i+1]))
		}
		return mk("map", "", m.Args...)
	case "iterate":
		if len(a) == 2 {
			return mk("iterate", "", a...)
		}
	case "calc":
		if len(a) == 1 {
			return a[0]
		}
		if len(a) == 3 && a[1].Op == "str" {
			switch a[1].Lit {
			case "+":
				return Add(a[0], a[2])
			case "-":
				return Sub(a[0], a[2])
			case "*":
				return Mul(a[0], a[2])
			case "/":
				if n, ok := a[2].IsInt(); ok {
					return Div(a[0], n)
				}
				return mk("bin", "/", a[0], a[2])
			case "%":
				if n, ok := a[2].IsInt(); ok {
					return Mod(a[0], n)
				}
				return mk("bin", "%", a[0], a[2])
			}
		}
	case "panic":
		return bottom
	case "call":
		if len(a) >= 1 {
			return t.e.Apply(t.e.Root(nil), a[0], a[1:], nil)
		}
	}
	if f := t.funcs[name]; f != nil {
		return mk("tfn", name, a...)
	}
	return mk("tfn", name, a...)
}

// dataAt is the map handed to a rendering as it is at that call: of the values
// set for a key, the last one that can reach it.
func (e *Eval) dataAt(env *Env, v ssa.Value, at *ssa.Call) *X {
	x := e.Val(env, v)
	m := e.w.mapOrigin(env, v, 0)
	if m == nil || x.Op != "map" {
		return x
	}
	ups := e.w.mapUpdates(env, v)
	byKey := map[string][]*ssa.MapUpdate{}
	var keys []string
	for _, u := range ups {
		if u.Parent() != at.Parent() {
			return x
		}
		k := e.Val(env, u.Key)
		if k.Op != "str" {
			return x
		}
		if !instrReach(u, at) {
			continue
		}
		if byKey[k.Lit] == nil {
			keys = append(keys, k.Lit)
		}
		byKey[k.Lit] = append(byKey[k.Lit], u)
	}
	out := mk("map", "")
	var ents []*X
	for _, k := range keys {
		us := byKey[k]
		var val *X
		// the last dominating update, then any update between it and the call
		var last *ssa.MapUpdate
		for _, u := range us {
			if dominatesInstr(u, at) && (last == nil || dominatesInstr(last, u)) {
				last = u
			}
		}
		var after []*ssa.MapUpdate
		for _, u := range us {
			if u != last && (last == nil || instrReach(last, u)) && !dominatesInstr(u, at) {
				after = append(after, u)
			}
		}
		if last != nil {
			val = e.Val(env, last.Value)
		} else {
			val = mk("nil", "")
		}
		for _, u := range after {
			y := e.Val(env, u.Value)
			val = Sel(e.PathCond(env, at.Parent().Blocks[0], u.Block()), y, val)
		}
		ents = append(ents, mk("entry", "", Str(k), val))
	}
	out = mk("map", "", ents...)
	out.V = m
	return out
}

func dominatesInstr(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return instrIndex(a) < instrIndex(b)
	}
	return a.Block().Dominates(b.Block())
}

// Render gives the text a rendering site produces.
func (e *Eval) Render(s *TmplSite) []*X {
	var out []*X
	data := e.dataAt(s.Env, s.Call.Call.Args[3], s.Call)
	for _, n := range s.Names {
		if x := e.RenderText(s.Text, n, data, nil); x != nil {
			out = append(out, x)
		}
	}
	return out
}

// holesText is a readable form of a rendered text.
func holesText(x *X) string {
	var b strings.Builder
	var do func(x *X)
	do = func(x *X) {
		switch x.Op {
		case "str":
			b.WriteString(x.Lit)
		case "cat":
			for _, a := range x.Args {
				do(a)
			}
		case "sel":
			b.WriteString("⟨if " + x.Args[0].String() + "⟩")
			do(x.Args[1])
			b.WriteString("⟨else⟩")
			do(x.Args[2])
			b.WriteString("⟨end⟩")
		case "each":
			b.WriteString("⟨each " + x.Args[0].String() + "⟩")
			do(x.Args[1])
			b.WriteString("⟨end⟩")
		default:
			b.WriteString("⟨" + x.String() + "⟩")
		}
	}
	do(x)
	return b.String()
}
