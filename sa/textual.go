package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// textEval is an evaluator in which a rendering is its text: a call of
// util.ExecuteTemplate is replaced by the rendered template. Functions named in
// keep stay calls.
func (w *World) textEval(keep ...string) *Eval {
	e := NewEval(w)
	e.texts = true
	for _, fn := range w.Funcs {
		if !strings.HasPrefix(w.RelPkg(fn), "generator/") {
			continue
		}
		for _, k := range keep {
			if fn.Name() == k || strings.HasPrefix(fn.Name(), k+"$") {
				e.NoInline[fn] = true
			}
		}
	}
	return e
}

// rendered is the text of a call of util.ExecuteTemplate.
func (e *Eval) rendered(env *Env, args []*X, site *ssa.Call) *X {
	if site == nil || len(args) < 4 || len(site.Call.Args) < 4 {
		return nil
	}
	text := ""
	switch tx := args[0]; tx.Op {
	case "str":
		text = tx.Lit
	case "global":
		if g, ok := tx.V.(*ssa.Global); ok {
			if gx := e.GlobalVal(g); gx != nil && gx.Op == "str" {
				text = gx.Lit
			}
		}
	}
	if text == "" {
		return nil
	}
	data := e.dataAt(env, site.Call.Args[3], site)
	var one func(n *X) *X
	one = func(n *X) *X {
		switch n.Op {
		case "str":
			return e.RenderText(text, n.Lit, data, nil)
		case "sel":
			a, b := one(n.Args[1]), one(n.Args[2])
			if a == nil || b == nil {
				return nil
			}
			return Sel(n.Args[0], a, b)
		}
		return nil
	}
	return one(e.ResolveGlobals(args[1]))
}

// pieces flattens a text into its branches: each is a sequence of constant
// texts and holes, with the conditions that lead to it. More than max branches
// give nil.
type branchText struct {
	conds []*X
	parts []*X
}

func branches(x *X, max int) []branchText {
	out := []branchText{{}}
	var add func(bs []branchText, x *X) []branchText
	add = func(bs []branchText, x *X) []branchText {
		switch x.Op {
		case "cat":
			for _, a := range x.Args {
				bs = add(bs, a)
				if len(bs) > max {
					return bs
				}
			}
			return bs
		case "sel":
			var r []branchText
			var yes, no []branchText
			for _, b := range bs {
				y, known := decided(x.Args[0], b.conds)
				if !known || y {
					c := branchText{append(append([]*X{}, b.conds...), x.Args[0]), append([]*X{}, b.parts...)}
					if known {
						c.conds = append([]*X{}, b.conds...)
					}
					yes = append(yes, c)
				}
				if !known || !y {
					c := branchText{append(append([]*X{}, b.conds...), Not(x.Args[0])), append([]*X{}, b.parts...)}
					if known {
						c.conds = append([]*X{}, b.conds...)
					}
					no = append(no, c)
				}
			}
			if len(yes) > 0 {
				r = append(r, add(yes, x.Args[1])...)
			}
			if len(no) > 0 {
				r = append(r, add(no, x.Args[2])...)
			}
			return r
		}
		for i := range bs {
			bs[i].parts = append(bs[i].parts, x)
		}
		return bs
	}
	out = add(out, x)
	if len(out) > max {
		return nil
	}
	return out
}

func decided(c *X, conds []*X) (bool, bool) {
	for _, d := range conds {
		if Eq(c, d) {
			return true, true
		}
		if Eq(Not(c), d) || Eq(c, Not(d)) {
			return false, true
		}
	}
	return false, false
}

// writes are the texts written along the one path the scene leaves open from
// start to a block for which stop holds; error branches are not taken. A nil
// result says the path is not determined.
func (e *Eval) writes(env *Env, start *ssa.BasicBlock, simp func(*X) *X, stop func(b *ssa.BasicBlock) bool) (*X, string) {
	var out []*X
	seen := map[*ssa.BasicBlock]bool{}
	b := start
	for first := true; first || !stop(b); first = false {
		if seen[b] {
			return nil, "the path loops"
		}
		seen[b] = true
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if x := e.writeOf(env, c); x != nil {
					out = append(out, simp(x))
				}
			}
		}
		switch t := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return, *ssa.Panic:
			return Concat(out...), ""
		case *ssa.Jump:
			b = b.Succs[0]
		case *ssa.If:
			c := simp(e.Val(env, t.Cond))
			switch {
			case c.Op == "bool" && c.Lit == "true":
				b = b.Succs[0]
			case c.Op == "bool":
				b = b.Succs[1]
			case errBranch(b.Succs[0]):
				b = b.Succs[1]
			case errBranch(b.Succs[1]):
				b = b.Succs[0]
			default:
				return nil, "undecided: " + cut(c.String(), 120)
			}
		}
	}
	return Concat(out...), ""
}

// errBranch: the block returns an error.
func errBranch(b *ssa.BasicBlock) bool {
	r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	if !ok || len(r.Results) == 0 {
		return false
	}
	last := r.Results[len(r.Results)-1]
	if c, ok := last.(*ssa.Const); ok && c.IsNil() {
		return false
	}
	return isErrorLike(last)
}

// writeOf is the text a call writes to a builder or buffer.
func (e *Eval) writeOf(env *Env, c *ssa.Call) *X {
	fn := c.Common().StaticCallee()
	if fn == nil {
		return nil
	}
	var args []*X
	for _, a := range c.Common().Args {
		args = append(args, e.Val(env, a))
	}
	switch n := fn.RelString(nil); {
	case n == "fmt.Fprintf":
		if x := sprintf(args[1:]); x != nil {
			return x
		}
		return mk("write", n, args...)
	case strings.HasSuffix(n, ".WriteString"):
		return args[1]
	case strings.HasSuffix(n, ".WriteByte"), strings.HasSuffix(n, ".WriteRune"):
		if v, ok := args[1].IsInt(); ok {
			return Str(string(rune(v.Int64())))
		}
		return mk("write", n, args...)
	case n == "fmt.Fprint", n == "fmt.Fprintln":
		return mk("write", n, args...)
	}
	return nil
}

var _ = fmt.Sprint
