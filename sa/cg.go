package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- call graph

// CG resolves calls between repository functions: static calls, closures,
// method values, and interface calls by the method sets of the repository's types.
type CG struct {
	w     *World
	impls map[*types.Func][]*ssa.Function
	taken map[string][]*ssa.Function // functions used as values, by signature
	named []*types.Named
}

func (w *World) CG() *CG {
	if w.cg != nil {
		return w.cg.(*CG)
	}
	g := &CG{w: w, impls: map[*types.Func][]*ssa.Function{}, taken: map[string][]*ssa.Function{}}
	seen := map[*types.Named]bool{}
	var rels []string
	for k := range w.SSA {
		rels = append(rels, k)
	}
	sort.Strings(rels)
	for _, k := range rels {
		sp := w.SSA[k]
		var ns []string
		for n := range sp.Members {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			if t, ok := sp.Members[n].(*ssa.Type); ok {
				if nt, ok := types.Unalias(t.Type()).(*types.Named); ok && !seen[nt] && nt.TypeParams().Len() == 0 {
					if _, isI := nt.Underlying().(*types.Interface); !isI {
						seen[nt] = true
						g.named = append(g.named, nt)
					}
				}
			}
		}
	}
	for _, fn := range w.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				var callee ssa.Value
				if ci, ok := i.(ssa.CallInstruction); ok {
					callee = ci.Common().Value
				}
				for _, op := range i.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && f != callee {
						k := types.TypeString(f.Signature, nil)
						g.taken[k] = append(g.taken[k], f)
					}
				}
				if mc, ok := i.(*ssa.MakeClosure); ok {
					f := mc.Fn.(*ssa.Function)
					k := types.TypeString(f.Signature, nil)
					g.taken[k] = append(g.taken[k], f)
				}
			}
		}
	}
	w.cg = g
	return g
}

// ImplementationsOf lists the repository's methods an interface method can dispatch to.
func (g *CG) ImplementationsOf(m *types.Func) []*ssa.Function {
	if r, ok := g.impls[m]; ok {
		return r
	}
	var out []*ssa.Function
	it, _ := m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface)
	dd := map[*ssa.Function]bool{}
	for _, n := range g.named {
		for _, t := range []types.Type{n, types.NewPointer(n)} {
			if it == nil || !types.Implements(t, it) {
				continue
			}
			sel := g.w.Prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
			if sel == nil {
				continue
			}
			if o, ok := sel.Obj().(*types.Func); ok {
				if f := g.w.Prog.FuncValue(o); f != nil && f.Blocks != nil && !dd[f] {
					dd[f] = true
					out = append(out, f)
				}
			}
		}
	}
	g.impls[m] = out
	return out
}

// Callees resolves a call. External (non-repository) static callees are included.
func (g *CG) Callees(ci ssa.CallInstruction) []*ssa.Function {
	c := ci.Common()
	if c.IsInvoke() {
		return g.ImplementationsOf(c.Method)
	}
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	return g.taken[types.TypeString(c.Value.Type().Underlying(), nil)]
}

// Reach lists the repository functions reachable from the roots. A function
// value that is created counts as called.
func (g *CG) Reach(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	push := func(f *ssa.Function) {
		if f != nil && f.Blocks != nil && !seen[f] {
			if !g.w.InRepo(f) && (f.Synthetic == "" || f.Pkg != nil || f.Origin() != nil) {
				return
			}
			seen[f] = true
			work = append(work, f)
		}
	}
	for _, r := range roots {
		push(r)
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					for _, c := range g.Callees(ci) {
						push(c)
					}
				}
				for _, op := range i.Operands(nil) {
					if ff, ok := (*op).(*ssa.Function); ok {
						push(ff)
					}
				}
			}
		}
	}
	return seen
}

// ToolFuncs are the functions reachable from the program's entry point and
// package initialisers, plus every method a template or an interface of the
// standard library may call on the repository's types.
func (w *World) ToolFuncs() map[*ssa.Function]bool {
	g := w.CG()
	var roots []*ssa.Function
	for _, k := range sortedKeys(w.SSA) {
		sp := w.SSA[k]
		roots = append(roots, sp.Func("init"))
		if k == "" {
			roots = append(roots, sp.Func("main"))
		}
	}
	for _, n := range g.named {
		for _, t := range []types.Type{n, types.NewPointer(n)} {
			ms := w.Prog.MethodSets.MethodSet(t)
			for i := 0; i < ms.Len(); i++ {
				if o, ok := ms.At(i).Obj().(*types.Func); ok && o.Exported() {
					roots = append(roots, w.Prog.FuncValue(o))
				}
			}
		}
	}
	return g.Reach(roots...)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var r []*ssa.Function
	for f := range m {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].String() != r[j].String() {
			return r[i].String() < r[j].String()
		}
		return r[i].Pos() < r[j].Pos()
	})
	return r
}

// extName names a function outside the repository: "os.ReadFile", "(*os.File).Write".
func extName(f *ssa.Function) string { return f.RelString(nil) }

// callName names the callee of a call, static or interface.
func callName(ci ssa.CallInstruction) string {
	c := ci.Common()
	if c.IsInvoke() {
		return "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		if o := f.Origin(); o != nil {
			f = o
		}
		return extName(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return "?"
}

// isCall reports whether i calls a function with one of the given full names.
func isCall(i ssa.Instruction, names ...string) (*ssa.CallCommon, bool) {
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return nil, false
	}
	n := callName(ci)
	for _, x := range names {
		if n == x {
			return ci.Common(), true
		}
	}
	return nil, false
}

func constString(v ssa.Value) (string, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value), true
	}
	return "", false
}

func constInt(v ssa.Value) (int64, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		return c.Int64(), true
	}
	return 0, false
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

// ---------------------------------------------------------------- CFG

// naturalLoop lists the blocks of the loop headed at h (nil if h heads none).
func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	var loop map[*ssa.BasicBlock]bool
	for _, p := range h.Preds {
		if !h.Dominates(p) {
			continue
		}
		if loop == nil {
			loop = map[*ssa.BasicBlock]bool{h: true}
		}
		work := []*ssa.BasicBlock{p}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if loop[b] {
				continue
			}
			loop[b] = true
			work = append(work, b.Preds...)
		}
	}
	return loop
}

func loopHeads(fn *ssa.Function) []*ssa.BasicBlock {
	var r []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		if naturalLoop(b) != nil {
			r = append(r, b)
		}
	}
	return r
}

// errorType and friends
var errorType = types.Universe.Lookup("error").Type()
var errorIface = errorType.Underlying().(*types.Interface)

func isErrorT(t types.Type) bool {
	if t == nil {
		return false
	}
	return types.Implements(t, errorIface)
}

func isErrorIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok && types.Implements(t, errorIface)
}

func pathHas(s string, subs ...string) bool {
	for _, x := range subs {
		if strings.Contains(s, x) {
			return true
		}
	}
	return false
}

var _ = token.NoPos
