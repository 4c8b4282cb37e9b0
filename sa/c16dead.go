package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// namelessAccessors finds the functions that only run for an accessor without a
// name: everything called where MethodName == "" is known to hold. It reports an
// obligation for each place a name is stored, which must have excluded "".
func namelessAccessors(w *World, r *Report) map[*ssa.Function]bool {
	e := w.vx
	isNameless := func(g *X) bool {
		if g.Op != "eq" {
			return false
		}
		for k := 0; k < 2; k++ {
			if g.Args[k].Op == "str" && g.Args[k].Lit == "" && g.Args[1-k].Op == "field" && g.Args[1-k].Lit == "MethodName" {
				return true
			}
		}
		return false
	}
	// candidates: callees of such calls; dead when no other call reaches them
	cand := map[*ssa.Function]bool{}
	guarded := map[ssa.CallInstruction]bool{}
	for _, fn := range sortedFns(w.ToolFuncs()) {
		if w.RelPkg(fn) != "generator/gen" {
			continue
		}
		env := e.Root(fn)
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, g := range e.Guards(env, b) {
					if isNameless(g) {
						guarded[ci] = true
						for _, c := range w.CG().Callees(ci) {
							cand[c] = true
						}
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for f := range cand {
			for _, ci := range w.callersOf()[f] {
				if !guarded[ci] && !cand[ci.Parent()] {
					delete(cand, f)
					changed = true
					break
				}
			}
		}
	}
	// an accessor's name is never empty
	for _, fn := range sortedFns(w.ToolFuncs()) {
		env := e.Root(fn)
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				s := deref(fa.X.Type()).Underlying().(*types.Struct)
				if s.Field(fa.Field).Name() != "MethodName" || !isDefType(fa.X.Type(), "GetMethod", "SetMethod") {
					continue
				}
				v := e.Val(env, st.Val)
				ok = false
				for _, g := range e.Guards(env, b) {
					if Eq(g, Not(EqX(v, Str("")))) {
						ok = true
					}
				}
				r.Check(ok, "accessor-named", fnName(fn)+" "+typeName(fa.X.Type()), w.Pos(st.Pos()), "an accessor can be built without a name, for which the rendered default-accessor templates are not usable")
			}
		}
	}
	return cand
}

// isDefType: t is (a pointer to) one of the named types of package definition.
func isDefType(t types.Type, names ...string) bool {
	n := namedOf(deref(t))
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Name() != "definition" {
		return false
	}
	for _, x := range names {
		if n.Obj().Name() == x {
			return true
		}
	}
	return false
}
