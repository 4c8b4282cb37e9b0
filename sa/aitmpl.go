package main

import (
	"fmt"
	"go/types"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

// Evaluation of text/template source over abstract values.

type aiTree struct {
	set map[string]*parse.Tree
}

func (it *AI) parseTmpl(text string, funcs *aiMap) (*aiTree, error) {
	if t, ok := it.shared.tmpl[text]; ok {
		if e, ok := t.(error); ok {
			return nil, e
		}
		return t.(*aiTree), nil
	}
	set := map[string]*parse.Tree{}
	t := parse.New("")
	t.Mode = parse.SkipFuncCheck
	tr, err := t.Parse(text, "", "", set)
	if err != nil {
		it.shared.tmpl[text] = err
		return nil, err
	}
	if _, ok := set[""]; !ok {
		set[""] = tr
	}
	r := &aiTree{set}
	it.shared.tmpl[text] = r
	return r, nil
}

type tmState struct {
	it   *AI
	t    *aiTmpl
	out  *strings.Builder
	vars []tmVar
}

type tmVar struct {
	name string
	v    any
}

type tmBreak struct{ cont bool }

func (it *AI) execTmpl(t *aiTmpl, name string, data any, out *strings.Builder) {
	tr := t.tree.set[name]
	if tr == nil || tr.Root == nil {
		it.stop("template %q is not defined", name)
	}
	s := &tmState{it: it, t: t, out: out}
	s.vars = []tmVar{{"$", data}}
	s.walk(data, tr.Root)
}

func (s *tmState) walk(dot any, n parse.Node) {
	it := s.it
	it.steps++
	switch x := n.(type) {
	case *parse.ListNode:
		if x == nil {
			return
		}
		for _, c := range x.Nodes {
			s.walk(dot, c)
		}
	case *parse.TextNode:
		s.out.Write(x.Text)
	case *parse.CommentNode:
	case *parse.ActionNode:
		v := s.pipe(dot, x.Pipe)
		if len(x.Pipe.Decl) == 0 {
			s.print(v)
		}
	case *parse.IfNode:
		n := len(s.vars)
		v := s.pipe(dot, x.Pipe)
		if s.truth(v) {
			s.walk(dot, x.List)
		} else if x.ElseList != nil {
			s.walk(dot, x.ElseList)
		}
		s.vars = s.vars[:n]
	case *parse.WithNode:
		n := len(s.vars)
		v := s.pipe(dot, x.Pipe)
		if s.truth(v) {
			s.walk(v, x.List)
		} else if x.ElseList != nil {
			s.walk(dot, x.ElseList)
		}
		s.vars = s.vars[:n]
	case *parse.RangeNode:
		s.rangeNode(dot, x)
	case *parse.TemplateNode:
		tr := s.t.tree.set[x.Name]
		if tr == nil || tr.Root == nil {
			it.stop("template %q is not defined", x.Name)
		}
		var v any = aiNil{}
		if x.Pipe != nil {
			v = s.pipe(dot, x.Pipe)
		}
		sub := &tmState{it: it, t: s.t, out: s.out, vars: []tmVar{{"$", v}}}
		it.depth++
		if it.depth > 400 {
			it.stop("template recursion")
		}
		sub.walk(v, tr.Root)
		it.depth--
	case *parse.BreakNode:
		panic(tmBreak{})
	case *parse.ContinueNode:
		panic(tmBreak{true})
	default:
		it.stop("template node %T", n)
	}
}

func (s *tmState) rangeNode(dot any, x *parse.RangeNode) {
	it := s.it
	n := len(s.vars)
	defer func() { s.vars = s.vars[:n] }()
	// the pipeline's declarations are set per element
	v := s.pipeVal(dot, x.Pipe)
	var ks, vs []any
	switch c := unbox(v).(type) {
	case *aiSlice:
		et := elemType(v)
		for i, e := range c.arr[c.lo:c.hi] {
			ks = append(ks, &aiIface{types.Typ[types.Int], aiInt(int64(i))})
			vs = append(vs, s.boxAs(e.v, et))
		}
	case *aiMap:
		// text/template visits maps in key order
		keys := append([]string{}, c.order...)
		sortStrings(keys)
		et := elemType(v)
		for _, k := range keys {
			ks = append(ks, s.boxAs(c.m[k].k, types.Typ[types.String]))
			vs = append(vs, s.boxAs(c.m[k].v, et))
		}
	case aiNil:
	case aiNum:
		for i := int64(0); i < c.c; i++ {
			ks = append(ks, &aiIface{types.Typ[types.Int], aiInt(i)})
			vs = append(vs, &aiIface{types.Typ[types.Int], aiInt(i)})
		}
	default:
		it.stop("range over %s in a template", descOf(v))
	}
	if len(vs) == 0 {
		if x.ElseList != nil {
			s.walk(dot, x.ElseList)
		}
		return
	}
	for i := range vs {
		m := len(s.vars)
		if d := x.Pipe.Decl; len(d) > 0 {
			if len(d) == 1 {
				s.set(d[0].Ident[0], vs[i], x.Pipe.IsAssign)
			} else {
				s.set(d[0].Ident[0], ks[i], x.Pipe.IsAssign)
				s.set(d[1].Ident[0], vs[i], x.Pipe.IsAssign)
			}
		}
		stop := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					if b, ok := r.(tmBreak); ok {
						stop = !b.cont
						return
					}
					panic(r)
				}
			}()
			s.walk(vs[i], x.List)
		}()
		s.vars = s.vars[:m]
		if stop {
			break
		}
	}
}

func sortStrings(ss []string) {
	for i := range ss {
		for j := i; j > 0 && ss[j] < ss[j-1]; j-- {
			ss[j], ss[j-1] = ss[j-1], ss[j]
		}
	}
}

func unbox(v any) any {
	for {
		i, ok := v.(*aiIface)
		if !ok {
			return v
		}
		v = i.v
	}
}

func elemType(v any) types.Type {
	if i, ok := v.(*aiIface); ok {
		switch t := i.t.Underlying().(type) {
		case *types.Slice:
			return t.Elem()
		case *types.Map:
			return t.Elem()
		case *types.Array:
			return t.Elem()
		}
	}
	return nil
}

func (s *tmState) boxAs(v any, t types.Type) any {
	if t == nil {
		return v
	}
	return s.it.box(v, t)
}

func (s *tmState) set(name string, v any, assign bool) {
	if assign {
		for i := len(s.vars) - 1; i >= 0; i-- {
			if s.vars[i].name == name {
				s.vars[i].v = v
				return
			}
		}
	}
	s.vars = append(s.vars, tmVar{name, v})
}

func (s *tmState) lookup(name string) any {
	for i := len(s.vars) - 1; i >= 0; i-- {
		if s.vars[i].name == name {
			return s.vars[i].v
		}
	}
	s.it.stop("template variable %s is not set", name)
	return nil
}

func (s *tmState) pipe(dot any, p *parse.PipeNode) any {
	v := s.pipeVal(dot, p)
	for _, d := range p.Decl {
		s.set(d.Ident[0], v, p.IsAssign)
	}
	return v
}

type noArg struct{}

func (s *tmState) pipeVal(dot any, p *parse.PipeNode) any {
	var v any = noArg{}
	for _, c := range p.Cmds {
		v = s.command(dot, c, v)
	}
	return v
}

func (s *tmState) command(dot any, c *parse.CommandNode, final any) any {
	it := s.it
	args := c.Args[1:]
	evalArgs := func() []any {
		var r []any
		for _, a := range args {
			r = append(r, s.arg(dot, a))
		}
		if _, no := final.(noArg); !no {
			r = append(r, final)
		}
		return r
	}
	switch x := c.Args[0].(type) {
	case *parse.IdentifierNode:
		// and/or evaluate lazily
		if x.Ident == "and" || x.Ident == "or" {
			var v any
			for _, a := range args {
				v = s.arg(dot, a)
				if s.truth(v) == (x.Ident == "or") {
					return v
				}
			}
			if _, no := final.(noArg); !no {
				v = final
			}
			return v
		}
		return s.function(x.Ident, evalArgs())
	case *parse.FieldNode:
		return s.fieldChain(dot, x.Ident, evalArgs())
	case *parse.ChainNode:
		v := s.arg(dot, x.Node)
		return s.fieldChain(v, x.Field, evalArgs())
	case *parse.VariableNode:
		v := s.lookup(x.Ident[0])
		if len(x.Ident) == 1 {
			if len(args) > 0 {
				it.stop("template variable called")
			}
			return v
		}
		return s.fieldChain(v, x.Ident[1:], evalArgs())
	case *parse.PipeNode:
		return s.pipe(dot, x)
	}
	return s.arg(dot, c.Args[0])
}

func (s *tmState) arg(dot any, n parse.Node) any {
	it := s.it
	switch x := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		return aiNil{}
	case *parse.StringNode:
		return &aiIface{types.Typ[types.String], x.Text}
	case *parse.BoolNode:
		return &aiIface{types.Typ[types.Bool], x.True}
	case *parse.NumberNode:
		if x.IsInt {
			return &aiIface{types.Typ[types.Int], aiInt(x.Int64)}
		}
		return &aiIface{types.Typ[types.Float64], x.Float64}
	case *parse.FieldNode:
		return s.fieldChain(dot, x.Ident, nil)
	case *parse.VariableNode:
		v := s.lookup(x.Ident[0])
		return s.fieldChain(v, x.Ident[1:], nil)
	case *parse.PipeNode:
		return s.pipe(dot, x)
	case *parse.IdentifierNode:
		return s.function(x.Ident, nil)
	case *parse.ChainNode:
		return s.fieldChain(s.arg(dot, x.Node), x.Field, nil)
	}
	it.stop("template argument %T", n)
	return nil
}

func (s *tmState) fieldChain(v any, ids []string, args []any) any {
	for i, id := range ids {
		var a []any
		if i == len(ids)-1 {
			a = args
		}
		v = s.field(v, id, a)
	}
	return v
}

func (s *tmState) field(recv any, id string, args []any) any {
	it := s.it
	i, ok := recv.(*aiIface)
	if !ok {
		switch r := recv.(type) {
		case *aiUnk:
			d := r.desc + "." + id
			if v, ok := it.preset[d]; ok {
				return v
			}
			return it.unk("%s", d)
		case *aiMap:
			if e, ok := r.m[aiKey(id)]; ok {
				return e.v
			}
			return aiNoValue{}
		}
		it.stop("template field .%s of %s", id, descOf(recv))
	}
	// method?
	if fn := it.methodOf(i.t, id); fn != nil {
		if _, un := i.v.(*aiUnk); !un {
			r := it.call(fn, append([]any{i.v}, it.convArgs(fn, args, 1)...), nil)
			return s.results(fn, r)
		}
	}
	if _, un := i.v.(*aiUnk); !un {
		if p, isP := i.t.Underlying().(*types.Pointer); !isP || p == nil {
			// methods of addressable values
			if fn := it.methodOf(types.NewPointer(i.t), id); fn != nil {
				if _, isS := i.t.Underlying().(*types.Struct); isS {
					r := it.call(fn, append([]any{&aiCell{i.v}}, it.convArgs(fn, args, 1)...), nil)
					return s.results(fn, r)
				}
			}
		}
	}
	t := i.t
	v := i.v
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		switch c := v.(type) {
		case *aiCell:
			v = c.v
		case aiNil:
			it.Panics = append(it.Panics, "nil in a template")
			it.stop("panic: template field .%s of nil", id)
		}
	}
	switch st := t.Underlying().(type) {
	case *types.Struct:
		obj, index, _ := types.LookupFieldOrMethod(t, true, nil, id)
		if obj == nil {
			for k := 0; k < st.NumFields(); k++ {
				if st.Field(k).Name() == id {
					index = []int{k}
				}
			}
		}
		if len(index) == 0 {
			it.stop("no field or method %s in %s", id, t)
		}
		for _, k := range index {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
				if c, ok := v.(*aiCell); ok {
					v = c.v
				}
			}
			ust := t.Underlying().(*types.Struct)
			switch o := v.(type) {
			case *aiObj:
				v = o.f[k].v
			case *aiUnk:
				v = it.unkField(o, k, t).v
			default:
				it.stop("template field .%s of %s", id, descOf(v))
			}
			t = ust.Field(k).Type()
		}
		return it.box(v, t)
	case *types.Map:
		switch m := v.(type) {
		case *aiMap:
			if e, ok := m.m[aiKey(id)]; ok {
				return it.box(e.v, st.Elem())
			}
			return aiNoValue{}
		case *aiUnk:
			return it.unk("%s.%s", m.desc, id)
		}
	}
	if u, ok := v.(*aiUnk); ok {
		return it.unk("%s.%s", u.desc, id)
	}
	it.stop("template field .%s of %s", id, t)
	return nil
}

type aiNoValue struct{}

func (s *tmState) results(fn *ssa.Function, r any) any {
	res := fn.Signature.Results()
	if tp, ok := r.(aiTuple); ok {
		if len(tp) == 2 {
			if _, isNil := tp[1].(aiNil); !isNil {
				s.it.stop("template call of %s fails: %s", fn.Name(), s.it.fmtV(tp[1]))
			}
		}
		if len(tp) == 0 {
			return aiNoValue{}
		}
		return s.it.box(tp[0], res.At(0).Type())
	}
	return s.it.box(r, res.At(0).Type())
}

// convArgs gives template values the parameter types of a function.
func (it *AI) convArgs(fn *ssa.Function, args []any, skip int) []any {
	sig := fn.Signature
	var out []any
	np := sig.Params().Len()
	for i, a := range args {
		if sig.Variadic() && i >= np-1 {
			break
		}
		if i >= np {
			it.stop("too many template arguments for %s", fn.Name())
		}
		out = append(out, it.convArg(a, sig.Params().At(i).Type()))
	}
	if sig.Variadic() {
		el := sig.Params().At(np - 1).Type().(*types.Slice).Elem()
		sl := &aiSlice{}
		for i := np - 1; i < len(args); i++ {
			sl.arr = append(sl.arr, &aiCell{it.convArg(args[i], el)})
		}
		sl.hi = len(sl.arr)
		out = append(out, sl)
	}
	return out
}

func (it *AI) convArg(a any, t types.Type) any {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return a
	}
	i, ok := a.(*aiIface)
	if !ok {
		return a
	}
	if b := basicOf(t); b != nil {
		if _, isNum := i.v.(aiNum); isNum && b.Info()&types.IsInteger != 0 {
			return i.v
		}
		if n, isNum := i.v.(aiNum); isNum && b.Info()&types.IsFloat != 0 && n.a == 0 {
			return float64(n.c)
		}
	}
	return i.v
}

func (s *tmState) truth(v any) bool {
	it := s.it
	switch x := unbox(v).(type) {
	case bool:
		return x
	case aiNum:
		if x.a != 0 {
			return true
		}
		return x.c != 0
	case float64:
		return x != 0
	case string:
		return x != ""
	case aiNil, aiNoValue:
		return false
	case *aiSlice:
		return x.hi > x.lo
	case *aiMap:
		return len(x.m) > 0
	case *aiCell, *aiFn, *aiObj, *aiNative:
		return true
	case *aiUnk:
		return it.choose(x.desc)
	}
	it.stop("truth of %s", descOf(v))
	return false
}

func (s *tmState) print(v any) {
	switch x := v.(type) {
	case aiNoValue:
		s.out.WriteString("<no value>")
		return
	case aiNil:
		s.out.WriteString("<no value>")
		return
	case noArg:
		return
	case *aiIface:
		if _, ok := x.v.(aiNoValue); ok {
			s.out.WriteString("<no value>")
			return
		}
	}
	s.out.WriteString(s.it.fmtV(v))
}

func (s *tmState) function(name string, args []any) any {
	it := s.it
	bi := func(b any) any {
		if u, ok := b.(*aiUnk); ok {
			return u
		}
		return &aiIface{types.Typ[types.Bool], b}
	}
	if s.t.funcs != nil {
		if e, ok := s.t.funcs.m[aiKey(name)]; ok {
			fv, ok := unbox(e.v).(*aiFn)
			if !ok {
				it.stop("template function %s is %s", name, descOf(e.v))
			}
			r := it.call(fv.fn, it.convArgs(fv.fn, args, 0), fv.free)
			return s.results(fv.fn, r)
		}
	}
	switch name {
	case "not":
		return bi(!s.truth(args[0]))
	case "eq":
		for _, a := range args[1:] {
			if s.eq(args[0], a) {
				return bi(true)
			}
		}
		return bi(false)
	case "ne":
		return bi(!s.eq(args[0], args[1]))
	case "lt", "le", "gt", "ge":
		op := map[string]int{"lt": 0, "le": 1, "gt": 2, "ge": 3}[name]
		x, ok1 := unbox(args[0]).(aiNum)
		y, ok2 := unbox(args[1]).(aiNum)
		if ok1 && ok2 {
			toks := tmOps
			r := it.numop(toks[op], x, y, types.Typ[types.Int64], types.Typ[types.Int64])
			if b, ok := r.(bool); ok {
				return bi(b)
			}
			return bi(it.choose(descOf(r)))
		}
		return bi(it.choose(fmt.Sprintf("%s(%s,%s)", name, descOf(args[0]), descOf(args[1]))))
	case "len":
		switch x := unbox(args[0]).(type) {
		case string:
			return &aiIface{types.Typ[types.Int], aiInt(int64(len(x)))}
		case *aiSlice:
			return &aiIface{types.Typ[types.Int], aiInt(int64(x.hi - x.lo))}
		case *aiMap:
			return &aiIface{types.Typ[types.Int], aiInt(int64(len(x.m)))}
		case aiNil:
			return &aiIface{types.Typ[types.Int], aiInt(0)}
		}
	case "index":
		v := args[0]
		for _, a := range args[1:] {
			et := elemType(v)
			switch x := unbox(v).(type) {
			case *aiSlice:
				n := it.concInt(unbox(a))
				if n < 0 || x.lo+n >= x.hi {
					it.stop("template index out of range")
				}
				v = s.boxAs(x.arr[x.lo+n].v, et)
			case *aiMap:
				if e, ok := x.m[aiKey(unbox(a))]; ok {
					v = s.boxAs(e.v, et)
				} else {
					v = aiNoValue{}
				}
			default:
				it.stop("template index of %s", descOf(v))
			}
		}
		return v
	case "call":
		fv, ok := unbox(args[0]).(*aiFn)
		if !ok {
			it.stop("template call of %s", descOf(args[0]))
		}
		return s.results(fv.fn, it.call(fv.fn, it.convArgs(fv.fn, args[1:], 0), fv.free))
	case "printf":
		return &aiIface{types.Typ[types.String], it.sprintf(it.str(args[0]), args[1:])}
	case "print":
		var sb strings.Builder
		for i, a := range args {
			if i > 0 {
				_, s1 := unbox(args[i-1]).(string)
				_, s2 := unbox(a).(string)
				if !s1 && !s2 {
					sb.WriteByte(' ')
				}
			}
			sb.WriteString(it.fmtV(a))
		}
		return &aiIface{types.Typ[types.String], sb.String()}
	}
	it.stop("template function %s", name)
	return nil
}

func (s *tmState) eq(a, b any) bool {
	r := s.it.equal(unbox(a), unbox(b))
	if v, ok := r.(bool); ok {
		return v
	}
	return s.it.choose(descOf(r))
}
