package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// vis is one visitor function of the compiler, evaluated to its gated result.
type vis struct {
	w   *World
	e   *Eval
	fn  *ssa.Function
	env *Env
	ctx *X
	res *X
}

func newVis(w *World, e *Eval, fn *ssa.Function) *vis {
	v := &vis{w: w, e: e, fn: fn, env: e.Root(fn)}
	for _, p := range fn.Params {
		if strings.HasSuffix(typeName(p.Type()), "Context") {
			v.ctx = e.Val(v.env, p)
		}
	}
	v.res = e.Result(v.env)
	if v.res == nil {
		v.res = bottom
	}
	return v
}

// rule is the visitor function of a grammar rule; when several visitors
// implement it, the one that does not only panic.
func (w *World) visitFns(rule string) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range w.Funcs {
		if w.RelPkg(fn) == "compiler" && fn.Parent() == nil && fn.Signature.Recv() != nil && fn.Name() == "Visit"+rule && fn.Blocks != nil && fn.Synthetic == "" {
			if onlyPanics(fn) {
				continue
			}
			out = append(out, fn)
		}
	}
	return out
}

func onlyPanics(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				return false
			}
		}
	}
	return true
}

// child is the value of ctx.Name(), child(…).Accept the value of visiting it.
func (v *vis) child(name string) *X {
	var found *X
	see := func(y *X) {
		y.Walk(func(z *X) {
			if found == nil && z.Op == "call" && z.Fn != nil && z.Fn.Name() == name && len(z.Args) > 0 && Eq(z.Args[0], v.ctx) {
				found = z
			}
		})
	}
	v.eachVal(see)
	return found
}

func (v *vis) eachVal(f func(*X)) {
	for _, b := range v.fn.Blocks {
		for _, i := range b.Instrs {
			if x, ok := i.(*ssa.Call); ok {
				f(v.e.Val(v.env, x))
			}
		}
	}
	f(v.res)
}

func (v *vis) accept(name string) *X {
	c := v.child(name)
	if c == nil {
		return nil
	}
	var found *X
	v.eachVal(func(y *X) {
		y.Walk(func(z *X) {
			if found == nil && z.Op == "inv" && z.Lit == "Accept" && Eq(z.Args[0], c) {
				found = z
			}
		})
	})
	return found
}

// isFacts decides every type test on x: true for the listed types, false for all others.
func isFacts(in *X, x *X, yes ...string) []*X {
	var out []*X
	seen := map[string]bool{}
	in.Walk(func(z *X) {
		if z.Op == "is" && Eq(z.Args[0], x) && !seen[z.Lit] {
			seen[z.Lit] = true
			t := false
			for _, y := range yes {
				if y == z.Lit {
					t = true
				}
			}
			if t {
				out = append(out, z)
			} else {
				out = append(out, Not(z))
			}
		}
	})
	return out
}

func present(c *X) *X { return Not(EqX(c, mk("nil", ""))) }

// sat simplifies x under the facts until nothing changes; facts are applied to
// each other as well.
func sat(x *X, facts ...*X) *X {
	for i := 0; i < 8; i++ {
		y := given(x, facts...)
		if y.Key() == x.Key() {
			return y
		}
		x = y
	}
	return x
}

// substX replaces one value by another.
func substX(x, from, to *X) *X {
	k := from.Key()
	return Subst(x, func(y *X) *X {
		if y.Key() == k {
			return to
		}
		return nil
	})
}

// rejected: every outcome left is an error object.
func rejected(x *X) bool {
	for _, o := range outcomes(x) {
		if o.Op == "call" && (o.Lit == "fmt.Errorf" || o.Lit == "errors.New") {
			continue
		}
		if o.Op != "new" || !strings.HasSuffix(o.Lit, "Error") && !strings.Contains(o.Lit, "Error@") {
			return false
		}
	}
	return true
}

// outcomes lists the leaves of a gated value.
func outcomes(x *X) []*X {
	var out []*X
	seen := map[*X]bool{}
	keys := map[string]bool{}
	var do func(x *X)
	do = func(x *X) {
		if seen[x] {
			return
		}
		seen[x] = true
		switch x.Op {
		case "sel":
			do(x.Args[1])
			do(x.Args[2])
		case "bottom":
		default:
			if !keys[x.Key()] {
				keys[x.Key()] = true
				out = append(out, x)
			}
		}
	}
	do(x)
	return out
}

// newFields are the values stored in the fields of an object made in place.
func (e *Eval) newFields(env *Env, x *X) map[string]*X {
	out := map[string]*X{}
	for _, a := range x.Args {
		if a.Op == "kv" {
			out[a.Lit] = a.Args[0]
		}
	}
	al, ok := x.V.(*ssa.Alloc)
	if !ok || len(x.Args) > 0 {
		return out
	}
	for ; env != nil; env = env.parent {
		if env.fn == al.Parent() {
			break
		}
	}
	if env == nil {
		return out
	}
	st, ok := deref(al.Type()).Underlying().(*types.Struct)
	if !ok {
		return out
	}
	for i := 0; i < st.NumFields(); i++ {
		out[st.Field(i).Name()] = mk("zero", typeName(st.Field(i).Type()))
	}
	for _, ref := range *al.Referrers() {
		switch t := ref.(type) {
		case *ssa.Store:
			if t.Addr == ssa.Value(al) {
				b := e.Val(env, t.Val)
				for i := 0; i < st.NumFields(); i++ {
					out[st.Field(i).Name()] = fieldOf(b, st.Field(i).Name())
				}
			}
		case *ssa.FieldAddr:
			for _, r2 := range *t.Referrers() {
				if s, ok := r2.(*ssa.Store); ok && s.Addr == ssa.Value(t) {
					n := st.Field(t.Field).Name()
					if old := out[n]; old != nil && old.Op != "zero" && !(len(old.Args) > 0 && old.Op == "field") {
						out[n] = mk("anyof", "", old, e.Val(env, s.Val))
					} else {
						out[n] = e.Val(env, s.Val)
					}
				}
			}
		}
	}
	return out
}

// Rec is the transition relation of one loop: every loop variable is a symbol
// and Step gives its value for the next iteration.
type Rec struct {
	Head *ssa.BasicBlock
	Loop map[*ssa.BasicBlock]bool
	Env  *Env // loop variables bound to symbols
	Out  *Env // environment of the values before the loop
	Phis []*ssa.Phi
	Sym  map[*ssa.Phi]*X
	Init map[*ssa.Phi]*X
	Step map[*ssa.Phi]*X
	Stay *X // condition under which the body is entered (nil: not decided at the head)
}

var recCount int

func (e *Eval) Recurrence(env *Env, head *ssa.BasicBlock) *Rec {
	r := &Rec{Head: head, Loop: naturalLoop(head), Out: env, Sym: map[*ssa.Phi]*X{}, Init: map[*ssa.Phi]*X{}, Step: map[*ssa.Phi]*X{}}
	ne := &Env{fn: env.fn, bind: map[ssa.Value]*X{}, parent: env.parent, depth: env.depth, memo: map[ssa.Value]*X{}, busy: map[ssa.Value]bool{}, args: env.args}
	for k, v := range env.bind {
		ne.bind[k] = v
	}
	for _, i := range head.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		s := Sym(fnName(env.fn) + "~" + p.Name())
		r.Phis = append(r.Phis, p)
		r.Sym[p] = s
		ne.bind[p] = s
		for k, pr := range head.Preds {
			if !head.Dominates(pr) {
				x := e.Val(env, p.Edges[k])
				if r.Init[p] == nil {
					r.Init[p] = x
				} else if !Eq(r.Init[p], x) {
					r.Init[p] = mk("anyof", "", r.Init[p], x)
				}
			}
		}
	}
	r.Env = ne
	if iff, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If); ok {
		c := e.Val(ne, iff.Cond)
		switch {
		case r.Loop[head.Succs[0]] && !r.Loop[head.Succs[1]]:
			r.Stay = c
		case !r.Loop[head.Succs[0]] && r.Loop[head.Succs[1]]:
			r.Stay = Not(c)
		}
	}
	for _, p := range r.Phis {
		r.Step[p] = e.latchValue(r, p)
	}
	return r
}

// latchValue is the value of a loop variable at the end of one iteration,
// gated by the conditions decided inside the body; leaving the loop is no outcome.
func (e *Eval) latchValue(r *Rec, p *ssa.Phi) *X {
	memo := map[*ssa.BasicBlock]*X{}
	var from func(b *ssa.BasicBlock) *X
	edge := func(b, s *ssa.BasicBlock) *X {
		if s == r.Head {
			for k, pr := range r.Head.Preds {
				if pr == b {
					return e.Val(r.Env, p.Edges[k])
				}
			}
		}
		if !r.Loop[s] || s.Dominates(b) {
			return bottom
		}
		return from(s)
	}
	from = func(b *ssa.BasicBlock) *X {
		if m, ok := memo[b]; ok {
			return m
		}
		memo[b] = bottom
		var x *X
		switch t := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.If:
			a, c := edge(b, b.Succs[0]), edge(b, b.Succs[1])
			if a.Op == "bottom" {
				x = c
			} else if c.Op == "bottom" {
				x = a
			} else {
				x = Sel(e.Val(r.Env, t.Cond), a, c)
			}
		case *ssa.Jump:
			x = edge(b, b.Succs[0])
		default:
			x = bottom
		}
		memo[b] = x
		return x
	}
	return from(r.Head)
}

// overAll describes a loop that visits list[0], list[1], … to the end.
type overAll struct {
	*Rec
	List *X
	Elem *X // the element of the current iteration
	Idx  *X
}

// loopsOver finds the loops of fn that run over all elements of a list from the
// first to the last; leaving early is only allowed by returning.
func (e *Eval) loopsOver(env *Env) []*overAll {
	var out []*overAll
	for _, h := range loopHeads(env.fn) {
		r := e.Recurrence(env, h)
		if r.Stay == nil {
			continue
		}
		for _, p := range r.Phis {
			i := r.Sym[p]
			if !isIntType(p.Type()) || !Eq(r.Step[p], Add(i, Int(1))) {
				continue
			}
			st, ok := r.Init[p].IsInt()
			if !ok {
				continue
			}
			idx := Sub(i, bigX(st)) // counts from zero
			// stay is idx < len(list)
			var list *X
			r.Stay.Walk(func(y *X) {
				if y.Op == "len" && list == nil && (Eq(r.Stay, Lt(idx, y)) || Eq(r.Stay, Not(EqX(idx, y)))) {
					list = y.Args[0]
				}
			})
			if list != nil {
				out = append(out, &overAll{Rec: r, List: list, Idx: idx, Elem: mk("index", "", list, idx)})
			}
		}
	}
	return out
}

// exitsByReturn: apart from its head, the loop is only left to blocks that return.
func (r *Rec) exitsByReturn() bool {
	for b := range r.Loop {
		if b == r.Head {
			continue
		}
		for _, s := range b.Succs {
			if !r.Loop[s] && !returnsSoon(s, 6) {
				return false
			}
		}
	}
	return true
}

func returnsSoon(b *ssa.BasicBlock, depth int) bool {
	if depth == 0 {
		return false
	}
	switch b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Return, *ssa.Panic:
		return true
	}
	for _, s := range b.Succs {
		if len(s.Preds) > 1 && s != b {
			// joins code after the loop
			if _, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); !ok {
				return false
			}
		}
		if !returnsSoon(s, depth-1) {
			return false
		}
	}
	return len(b.Succs) > 0
}

// Const is the value of a named constant of the repository.
func (w *World) Const(pkg, name string) (*X, bool) {
	p := w.SSA[pkg]
	if p == nil {
		return nil, false
	}
	c, ok := p.Members[name].(*ssa.NamedConst)
	if !ok {
		return nil, false
	}
	return constX(c.Value), true
}
