package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pathQ searches for a path to a goal that avoids the passes. Branches decided
// in the scene (simp) are not taken; a call to a repository function counts as a
// pass when every successful return of the callee has passed.
type pathQ struct {
	e     *Eval
	simp  func(*X) *X
	pass  func(env *Env, i ssa.Instruction) bool
	goal  func(env *Env, i ssa.Instruction) bool
	depth int
}

func (q *pathQ) cond(env *Env, c ssa.Value) *X {
	x := q.e.Val(env, c)
	if q.simp != nil {
		x = q.simp(x)
	}
	return x
}

// reaches is the first goal found, nil when every path passes first.
func (q *pathQ) reaches(env *Env, start *ssa.BasicBlock) ssa.Instruction {
	seen := map[*ssa.BasicBlock]bool{}
	var do func(b *ssa.BasicBlock) ssa.Instruction
	do = func(b *ssa.BasicBlock) ssa.Instruction {
		if seen[b] {
			return nil
		}
		seen[b] = true
		for _, i := range b.Instrs {
			if q.goal(env, i) {
				return i
			}
			if q.pass(env, i) || q.callPasses(env, i) {
				return nil
			}
		}
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			c := q.cond(env, iff.Cond)
			if c.Op == "bool" {
				k := 1
				if c.Lit == "true" {
					k = 0
				}
				return do(b.Succs[k])
			}
		}
		for _, s := range b.Succs {
			if g := do(s); g != nil {
				return g
			}
		}
		return nil
	}
	return do(start)
}

func (q *pathQ) callPasses(env *Env, i ssa.Instruction) bool {
	c, ok := i.(*ssa.Call)
	if !ok || c.Common().IsInvoke() || q.depth > 4 {
		return false
	}
	ne := q.e.calleeEnv(env, c)
	if ne == nil || q.e.onStack(env, ne.fn) {
		return false
	}
	sub := &pathQ{e: q.e, simp: q.simp, pass: q.pass, depth: q.depth + 1, goal: func(env *Env, i ssa.Instruction) bool {
		ret, ok := i.(*ssa.Return)
		return ok && !q.e.failing(env, ret, q.simp)
	}}
	// something has to be there to be passed
	any := false
	q.e.Traverse(ne, func(fn *ssa.Function) bool { return q.e.Inlinable(fn) }, func(s *Site) {
		any = any || q.pass(s.Env, s.Instr)
	})
	return any && sub.reaches(ne, ne.fn.Blocks[0]) == nil
}

// calleeEnv is the environment of a call to a function of the repository, nil
// when the callee is not known.
func (e *Eval) calleeEnv(env *Env, c *ssa.Call) *Env {
	com := c.Common()
	if com.IsInvoke() {
		return nil
	}
	var args []*X
	for _, a := range com.Args {
		args = append(args, e.Val(env, a))
	}
	mkEnv := func(fn *ssa.Function, cenv *Env) *Env {
		if fn == nil || !e.Inlinable(fn) {
			return nil
		}
		ne := e.call(env, fn, args)
		if cenv != nil {
			ne.parent = &Env{fn: env.fn, bind: env.bind, parent: cenvChain(env, cenv), depth: env.depth, memo: env.memo, busy: env.busy}
		}
		return ne
	}
	if fn := com.StaticCallee(); fn != nil {
		var cenv *Env
		if _, ok := com.Value.(*ssa.MakeClosure); ok {
			cenv = env
		}
		return mkEnv(fn, cenv)
	}
	if fx := e.Val(env, com.Value); fx.Op == "closure" {
		return mkEnv(fx.Fn, fx.Env)
	}
	return nil
}

// failing: the return hands back an error (its last error-typed result is one).
func (e *Eval) failing(env *Env, ret *ssa.Return, simp func(*X) *X) bool {
	for _, v := range ret.Results {
		if !isErrorLike(v) {
			continue
		}
		x := e.Val(env, v)
		if simp != nil {
			x = simp(x)
		}
		if rejected(x) && len(outcomes(x)) > 0 {
			return true
		}
		all := x
		for _, g := range e.Guards(env, ret.Block()) {
			if simp != nil {
				g = simp(g)
			}
			if Eq(g, Not(EqX(x, mk("nil", "")))) {
				return true
			}
			if g.Op == "is" && Eq(g.Args[0], x) && (g.Lit == "error" || strings.HasSuffix(g.Lit, "Error")) {
				return true
			}
			if z := sat(x, g); rejected(z) && len(outcomes(z)) > 0 {
				return true
			}
			all = sat(all, g)
		}
		if rejected(all) && len(outcomes(all)) > 0 {
			return true
		}
	}
	return false
}

func isErrorLike(v ssa.Value) bool {
	n := typeName(v.Type())
	return n == "error" || strings.HasSuffix(n, "Error") || n == "any" || n == "interface{}"
}

// noHas: no name has been seen before.
func noHas(x *X) *X {
	for i := 0; i < 4; i++ {
		k := x.Key()
		x = Subst(x, func(y *X) *X {
			if y.Op == "has" {
				return Bool(false)
			}
			return nil
		})
		if x.Key() == k {
			break
		}
	}
	return x
}

// omCall: the instruction is a call of the named method of an ordered table;
// its receiver and arguments.
func (e *Eval) omCall(env *Env, i ssa.Instruction, names ...string) []*X {
	c, ok := i.(*ssa.Call)
	if !ok || c.Common().StaticCallee() == nil {
		return nil
	}
	m := omMethod(e.w, c.Common().StaticCallee())
	for _, n := range names {
		if m == n {
			var args []*X
			for _, a := range c.Common().Args {
				args = append(args, e.Val(env, a))
			}
			return args
		}
	}
	return nil
}
