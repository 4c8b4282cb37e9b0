package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C14", "value-graph evaluation of the registry's initialisation and of the lookup; path analysis of the listing loop", checkC14)
}

// documentedTargets is the README's table of targets and aliases, by the
// package that implements each.
var documentedTargets = map[string]string{
	"c": "c", "cpp": "cpp", "csharp": "csharp", "cs": "csharp", "commonjs": "commonjs", "cjs": "commonjs",
	"esmodule": "esm", "javascript": "esm", "js": "esm", "mjs": "esm", "esm": "esm",
	"go": "golang", "java": "java", "kotlin": "kotlin", "kt": "kotlin", "python": "python", "py": "python",
}

func checkC14(w *World, r *Report) {
	r.Explain = "The package initialisation of generator was evaluated to the list of (key, generator) registrations, following helper functions and expanding table loops; each documented target name must be registered first with a generator of its own package. GetGenerator was evaluated to its gated result: with a nil error it must be the registered value for exactly the requested name, and otherwise an error. In ListGenerators every path through the loop must record the key it visits, and nothing recorded may be dropped."
	r.Assumptions = append(r.Assumptions, "the table of documented target names is that of README.md at the pinned commit")
	sp := w.SSA["generator"]
	if sp == nil || sp.Func("init") == nil {
		r.Bad("registry", "generator", "-", "package not found")
		return
	}
	got := map[string]string{}
	where := map[string]string{}
	e := w.vx
	e.Traverse(e.Root(sp.Func("init")), func(fn *ssa.Function) bool { return w.RelPkg(fn) == "generator" }, func(s *Site) {
		var kx, vx *X
		switch i := s.Instr.(type) {
		case *ssa.Call:
			fn := i.Call.StaticCallee()
			if fn == nil {
				return
			}
			m := omMethod(w, fn)
			if m != "Put" && m != "MustPut" || !strings.Contains(typeName(fn.Signature.Params().At(1).Type()), "Generator") {
				return
			}
			kx, vx = e.Val(s.Env, i.Call.Args[1]), e.Val(s.Env, i.Call.Args[2])
		case *ssa.MapUpdate:
			if !isStringType(i.Key.Type()) || !strings.Contains(typeName(i.Value.Type()), "Generator") {
				return
			}
			kx, vx = e.Val(s.Env, i.Key), e.Val(s.Env, i.Value)
		default:
			return
		}
		pos := w.Pos(instrPos(s.Instr))
		for _, row := range expandLists(e.ResolveGlobals(kx), e.ResolveGlobals(vx)) {
			k, v := row[0], row[1]
			if k.Op != "str" {
				r.Bad("registry", fnName(s.Env.fn), pos, "registers a name that is not a constant: "+k.String())
				continue
			}
			pkg := "?"
			if v.Op == "new" {
				pkg = strings.TrimPrefix(strings.SplitN(v.Lit, ".", 2)[0], "*")
			} else if v.V != nil {
				if n := namedOf(v.V.Type()); n != nil && n.Obj().Pkg() != nil {
					p := n.Obj().Pkg().Path()
					pkg = p[strings.LastIndex(p, "/")+1:]
				}
			}
			if old, ok := got[k.Lit]; ok {
				if old != pkg {
					r.Bad("registry", k.Lit, pos, "registered twice, as "+old+" and as "+pkg)
				}
				continue
			}
			got[k.Lit], where[k.Lit] = pkg, pos
		}
	})
	for _, k := range sortedKeys(documentedTargets) {
		if got[k] == "" {
			r.Bad("registry", "target "+k, "generator/generator.go", "the documented target is not registered")
			continue
		}
		r.Check(got[k] == documentedTargets[k], "registry", "target "+k, where[k], "selects the "+got[k]+" generator instead of "+documentedTargets[k])
	}
	checkGetGenerator(w, r)
	checkListing(w, r)
}

func checkGetGenerator(w *World, r *Report) {
	fn := w.Fn("generator", "", "GetGenerator")
	if fn == nil {
		r.Bad("lookup", "GetGenerator", "-", "not found")
		return
	}
	e := w.vx
	env := e.RootBound(fn, "target")
	res := e.Result(env)
	if res == nil || res.Op != "tuple" || len(res.Args) != 2 {
		r.Bad("lookup", fnName(fn), w.Pos(fn.Pos()), "the result could not be evaluated")
		return
	}
	// cases of the gated result
	n := 0
	var cases func(v, er *X, g []*X)
	cases = func(v, er *X, g []*X) {
		for _, x := range []*X{er, v} {
			if x.Op == "sel" {
				c := x.Args[0]
				cases(assume(v, c, true), assume(er, c, true), append(append([]*X{}, g...), c))
				cases(assume(v, c, false), assume(er, c, false), append(append([]*X{}, g...), Not(c)))
				return
			}
		}
		n++
		has := false
		for _, c := range g {
			if c.Op == "has" && c.Args[1].Key() == Sym("target").Key() {
				has = true
			}
			if c.Op == "and" {
				for _, a := range c.Args {
					has = has || a.Op == "has" && a.Args[1].Key() == Sym("target").Key()
				}
			}
		}
		if er.Op == "nil" {
			ok := v.Op == "lookup" && v.Args[1].Key() == Sym("target").Key() && v.Args[0].Op == "global"
			r.Check(ok && has, "lookup", "GetGenerator success", w.Pos(fn.Pos()), "a name is accepted without returning the generator registered under exactly that name (returns "+v.String()+")")
		} else {
			r.Check(!has, "lookup", "GetGenerator failure", w.Pos(fn.Pos()), "a registered name is refused")
			r.Check(er.Op == "new", "lookup", "GetGenerator failure error", w.Pos(fn.Pos()), "an unknown name does not yield an error value")
		}
	}
	cases(res.Args[0], res.Args[1], nil)
	r.Floor("lookup", 3)
}

// checkListing: every registered name that the listing reads ends up in the list.
func checkListing(w *World, r *Report) {
	root := w.Fn("generator", "", "ListGenerators")
	if root == nil {
		r.Bad("listing", "ListGenerators", "-", "not found")
		return
	}
	n := 0
	for _, fn := range sortedFns(staticReach(w, root)) {
		if w.RelPkg(fn) != "generator" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				v, ok := i.(ssa.Value)
				if !ok || !isStringType(v.Type()) {
					continue
				}
				key := false
				switch x := i.(type) {
				case *ssa.Field:
					key = strings.Contains(typeName(x.X.Type()), "util.Entry[") && x.Field == 0
				case *ssa.UnOp:
					switch a := x.X.(type) {
					case *ssa.FieldAddr:
						key = strings.Contains(typeName(deref(a.X.Type())), "util.Entry[") && a.Field == 0
					case *ssa.IndexAddr:
						if c, ok := a.X.(*ssa.Call); ok && c.Call.StaticCallee() != nil {
							key = omMethod(w, c.Call.StaticCallee()) == "Keys"
						}
					}
				}
				if !key || noUses(v) {
					continue
				}
				n++
				bb, ii := posAfter(v)
				ef := newErrFlow(w)
				bad, at := ef.lost(fn, bb, ii, map[ssa.Value]bool{v: true})
				if bad != "" {
					r.Bad("listing", fnName(fn), w.Pos(instrPos(at)), "a registered target name is left out of the list on some path")
				} else {
					r.OK("listing", fnName(fn))
				}
			}
		}
	}
	if n == 0 {
		r.Bad("listing", fnName(root), w.Pos(root.Pos()), "the registered names are never read")
	}
	r.Floor("listing", 1)
}
