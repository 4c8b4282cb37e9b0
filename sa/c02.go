package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C02", "interprocedural error-flow analysis: from every fallible call, every path on which the error is not nil must hand it on", checkC02)
}

// neverFails: external functions whose error is documented to be always nil, or
// concerns only printing to the terminal.
func neverFailsExt(n string) bool {
	switch {
	case strings.HasPrefix(n, "fmt.Print"), strings.HasPrefix(n, "fmt.Fprint"):
		return true
	case strings.HasPrefix(n, "(*strings.Builder)."), strings.HasPrefix(n, "(*bytes.Buffer).Write"):
		return true
	}
	return false
}

// nilAlways: result k of f is nil on every return.
func nilAlways(w *World, f *ssa.Function, k int, depth int) bool {
	if f.Blocks == nil || depth > 6 {
		return false
	}
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		v := ret.Results[k]
		if isNilConst(v) {
			continue
		}
		if ex, ok := v.(*ssa.Extract); ok {
			if c, ok := ex.Tuple.(*ssa.Call); ok && callNilAlways(w, c, ex.Index, depth+1) {
				continue
			}
		}
		if c, ok := v.(*ssa.Call); ok && callNilAlways(w, c, 0, depth+1) {
			continue
		}
		return false
	}
	return true
}

func callNilAlways(w *World, c ssa.CallInstruction, k, depth int) bool {
	if neverFailsExt(callName(c)) {
		return true
	}
	cs := w.CG().Callees(c)
	if len(cs) == 0 {
		return false
	}
	for _, f := range cs {
		if !w.InRepo(f) || !nilAlways(w, f, k, depth) {
			return false
		}
	}
	return true
}

// isWarningResult tells the warning of an (err, warning) pair from the error.
func isWarningResult(ci ssa.CallInstruction, k int) bool {
	sig := ci.Common().Signature()
	v := sig.Results().At(k)
	if strings.Contains(strings.ToLower(v.Name()), "warn") {
		return true
	}
	if n := namedOf(v.Type()); n != nil && strings.Contains(n.Obj().Name(), "Warning") {
		return true
	}
	return false
}

type fallible struct {
	fn   *ssa.Function
	call ssa.CallInstruction
	k    int // result index
	val  ssa.Value
}

func extractOf(call ssa.Value, k int) ssa.Value {
	if call == nil || call.Referrers() == nil {
		return nil
	}
	if _, ok := call.Type().(*types.Tuple); !ok {
		return call
	}
	for _, u := range *call.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index == k {
			return e
		}
	}
	return nil
}

// fallibleCalls lists the calls of fn that can yield an error.
func fallibleCalls(w *World, fn *ssa.Function, warnings bool) []fallible {
	var out []fallible
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, ok := ci.Common().Value.(*ssa.Builtin); ok {
				continue
			}
			res := ci.Common().Signature().Results()
			for k := 0; k < res.Len(); k++ {
				if !isErrorIface(res.At(k).Type()) || isWarningResult(ci, k) != warnings {
					continue
				}
				if warnings && isErrorOnlyName(res.At(k)) {
					continue
				}
				n := callName(ci)
				if strings.HasSuffix(n, "ErrorsJoin") || strings.HasPrefix(n, "errors.") || n == "fmt.Errorf" {
					continue // builds an error out of others
				}
				if callNilAlways(w, ci, k, 0) {
					continue
				}
				v, _ := ci.(ssa.Value)
				out = append(out, fallible{fn, ci, k, extractOf(v, k)})
			}
		}
	}
	return out
}

func isErrorOnlyName(v *types.Var) bool { return false }

// isBasicTy: v is a *definition.BasicType (possibly seen as a definition.Type).
func isBasicTy(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		}
		break
	}
	return typeName(v.Type()) == "*definition.BasicType"
}

// cannotFail: naming a basic type (the type tables are total, C27) or casting
// already generated text to one.
func cannotFail(w *World, ci ssa.CallInstruction) bool {
	c := ci.Common()
	name := ""
	if c.IsInvoke() {
		name = c.Method.Name()
	} else if f := c.StaticCallee(); f != nil {
		name = f.Name()
	}
	args := c.Args
	switch name {
	case "GenerateBasicType":
		return true
	case "GenerateType":
		return len(args) > 0 && isBasicTy(args[len(args)-1])
	case "GenerateCastExpr":
		if len(args) == 0 {
			return false
		}
		al, ok := args[len(args)-1].(*ssa.Alloc)
		if !ok {
			return false
		}
		to, e1 := false, false
		for _, u := range *al.Referrers() {
			fa, ok := u.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			for _, u2 := range *fa.Referrers() {
				st, ok := u2.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(fa) {
					continue
				}
				switch fieldName(fa) {
				case "ToType":
					to = isBasicTy(st.Val)
				case "Expr1":
					if mi, ok := st.Val.(*ssa.MakeInterface); ok {
						e1 = typeName(mi.X.Type()) == "*definition.RawExpr"
					}
				}
			}
		}
		return to && e1
	}
	return false
}

// addedBefore: entering a type found by a visitor into the unit cannot fail
// because every visitor that yields a type has entered its name at the same
// position already, checking the error.
func addedBefore(w *World, ci ssa.CallInstruction) bool {
	c := ci.Common()
	f := c.StaticCallee()
	if f == nil || f.Name() != "AddLocalType" {
		return false
	}
	for _, vn := range []string{"VisitStructDef", "VisitEnumDef"} {
		v := w.Fn("compiler", "ProtoVisitor", vn)
		if v == nil {
			return false
		}
		found := false
		for fn := range staticReach(w, v) {
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					c2, ok := i.(*ssa.Call)
					if !ok {
						continue
					}
					g := c2.Call.StaticCallee()
					if g == nil || g.Name() != "AddLocalName" && g.Name() != "AddLocalType" && g.Name() != "AddGlobalName" {
						continue
					}
					if !noUses(c2) {
						found = true
					}
				}
			}
		}
		if !found {
			return false
		}
	}
	return true
}

func checkC02(w *World, r *Report) {
	r.Explain = "For every call that can produce an error (a result of an error interface type, other than the warning of an error/warning pair) and for every value found by a type switch to be an error, all control-flow paths from that point were followed under the assumption that the value is not nil. On each path the value must be returned, wrapped in something returned, joined to an accumulator that is returned, stored for the caller, or end the process; accumulator updates must keep what was accumulated before."
	fns := sortedFns(w.ToolFuncs())
	for _, fn := range fns {
		if !w.InRepo(fn) || w.RelPkg(fn) == "parser" || fn.Synthetic != "" {
			continue
		}
		for _, f := range fallibleCalls(w, fn, false) {
			construct := fnName(fn) + " <- " + shortCallee(f.call)
			where := w.Pos(instrPos(f.call))
			if f.val == nil || noUses(f.val) {
				if cannotFail(w, f.call) || addedBefore(w, f.call) {
					r.OK("error-impossible", construct)
					continue
				}
				r.Bad("error-discarded", construct, where, "the error result of "+shortCallee(f.call)+" is discarded")
				continue
			}
			checkErrLost(w, r, "error-path", construct, fn, f.val)
		}
		checkAssertedErrors(w, r, fn)
		checkAccumulatorFields(w, r, fn, "TopLevelError")
	}
	checkJoin(w, r, "definition", "TopLevelErrorsJoin")
	checkErrorText(w, r)
	r.Floor("error-path", 250)
	r.Floor("error-asserted", 40)
}

func noUses(v ssa.Value) bool {
	if v.Referrers() == nil {
		return true
	}
	for _, u := range *v.Referrers() {
		if _, ok := u.(*ssa.DebugRef); !ok {
			return false
		}
	}
	return true
}

func shortCallee(ci ssa.CallInstruction) string {
	c := ci.Common()
	if c.IsInvoke() {
		return "(" + typeName(c.Value.Type()) + ")." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	return c.Value.Name()
}

func posAfter(v ssa.Value) (*ssa.BasicBlock, int) {
	i := v.(ssa.Instruction)
	return i.Block(), instrIndex(i) + 1
}

func checkErrLost(w *World, r *Report, rule, construct string, fn *ssa.Function, v ssa.Value) {
	b, i := posAfter(v)
	ef := newErrFlow(w)
	bad, at := ef.lost(fn, b, i, map[ssa.Value]bool{v: true})
	if bad != "" {
		where := w.Pos(v.Pos())
		if where == "-" {
			where = w.Pos(instrPos(v.(ssa.Instruction)))
		}
		p := ""
		if at != nil {
			p = " at " + w.Pos(instrPos(at))
		}
		r.Bad(rule, construct, where, "a path on which this error is not nil "+bad+p)
	} else {
		r.OK(rule, construct)
	}
}

// checkAssertedErrors: values of interface type found by a type switch or
// assertion to be errors.
func checkAssertedErrors(w *World, r *Report, fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			ta, ok := i.(*ssa.TypeAssert)
			if !ok || !isErrorT(ta.AssertedType) {
				continue
			}
			if n := namedOf(ta.AssertedType); n != nil && strings.Contains(n.Obj().Name(), "Warning") {
				continue
			}
			// only dynamic results (any), errors proper are tracked from their call
			if !isAny(ta.X.Type()) {
				continue
			}
			construct := fnName(fn) + " " + ta.X.Name() + ".(" + typeName(ta.AssertedType) + ")"
			construct = fnName(fn) + " (" + describeVal(ta.X) + ").(" + typeName(ta.AssertedType) + ")"
			if !ta.CommaOk {
				if noUses(ta) {
					r.Bad("error-asserted", construct, w.Pos(ta.Pos()), "the error is discarded")
				} else {
					checkErrLost(w, r, "error-asserted", construct, fn, ta)
				}
				continue
			}
			var val, okv ssa.Value
			for _, u := range *ta.Referrers() {
				if e, isE := u.(*ssa.Extract); isE {
					if e.Index == 0 {
						val = e
					} else {
						okv = e
					}
				}
			}
			if okv == nil {
				continue
			}
			// entry of the branch on which the assertion holds
			for _, u := range *okv.Referrers() {
				iff, isIf := u.(*ssa.If)
				if !isIf {
					continue
				}
				t := map[ssa.Value]bool{ta.X: true}
				if val != nil {
					t[val] = true
				}
				to := iff.Block().Succs[0]
				ef := newErrFlow(w)
				ef.other = true
				bad, at := ef.lost(fn, to, 0, edgeTaint(iff.Block(), to, 0, t))
				if bad != "" {
					p := ""
					if at != nil {
						p = " at " + w.Pos(instrPos(at))
					}
					r.Bad("error-asserted", construct, w.Pos(ta.Pos()), "a path on which the value is an error "+bad+p)
				} else {
					r.OK("error-asserted", construct)
				}
			}
		}
	}
}

func describeVal(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Call:
		s := shortCallee(x)
		if x.Call.IsInvoke() {
			s = describeVal(x.Call.Value) + "." + x.Call.Method.Name()
		}
		return s + "()"
	case *ssa.Extract:
		return describeVal(x.Tuple)
	case *ssa.Parameter:
		return x.Name()
	case *ssa.Phi:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.UnOp:
		return describeVal(x.X)
	case *ssa.FieldAddr:
		return describeVal(x.X) + "." + fieldName(x)
	case *ssa.IndexAddr:
		return describeVal(x.X) + "[]"
	case *ssa.Alloc:
		return x.Comment
	case *ssa.TypeAssert:
		return typeName(x.AssertedType)
	}
	return "value"
}

func fieldName(fa *ssa.FieldAddr) string {
	st, _ := deref(fa.X.Type()).Underlying().(*types.Struct)
	if st == nil {
		return "?"
	}
	return st.Field(fa.Field).Name()
}

// checkAccumulatorFields: a field holding accumulated errors (or warnings) is
// only ever replaced by something that contains its previous content.
func checkAccumulatorFields(w *World, r *Report, fn *ssa.Function, typ string) {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			n := namedOf(deref(fa.Type()))
			if n == nil || n.Obj().Name() != typ {
				continue
			}
			if al, ok := fa.X.(*ssa.Alloc); ok && al.Heap {
				// construction of a fresh object
				if firstStore(al, fa, st) {
					continue
				}
			}
			c := fnName(fn) + " " + typeName(deref(fa.X.Type())) + "." + fieldName(fa)
			if valueContainsLoad(st.Val, fa, 0) || guardedNil(w, st, fa) || isNilConst(st.Val) && resetAtEntry(st) {
				r.OK("accumulator", c)
			} else {
				r.Bad("accumulator", c, w.Pos(st.Pos()), "replaces what was accumulated before instead of adding to it")
			}
		}
	}
}

func firstStore(al *ssa.Alloc, fa *ssa.FieldAddr, st *ssa.Store) bool {
	if fa.Block() != al.Block() {
		return false
	}
	for _, u := range *al.Referrers() {
		if o, ok := u.(*ssa.FieldAddr); ok && o.Field == fa.Field && o != fa && o.Block() == al.Block() && instrIndex(o) < instrIndex(fa) {
			return false
		}
	}
	return true
}

func sameField(a, b *ssa.FieldAddr) bool {
	return a.Field == b.Field && (a.X == b.X || sameLoad(a.X, b.X)) && types.Identical(a.X.Type(), b.X.Type())
}

func sameLoad(a, b ssa.Value) bool {
	ua, ok1 := a.(*ssa.UnOp)
	ub, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && ua.Op == ub.Op {
		return ua.X == ub.X || sameAddr(ua.X, ub.X)
	}
	return sameAddr(a, b)
}

func sameAddr(a, b ssa.Value) bool {
	fa, ok1 := a.(*ssa.FieldAddr)
	fb, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && sameField(fa, fb)
}

func valueContainsLoad(v ssa.Value, fa *ssa.FieldAddr, d int) bool {
	if d > 12 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if f2, ok := x.X.(*ssa.FieldAddr); ok && sameField(f2, fa) {
			return true
		}
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if valueContainsLoad(a, fa, d+1) {
				return true
			}
		}
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, o := range allocStores(al) {
				if valueContainsLoad(o, fa, d+1) {
					return true
				}
			}
		}
	case *ssa.MakeInterface:
		return valueContainsLoad(x.X, fa, d+1)
	case *ssa.ChangeInterface:
		return valueContainsLoad(x.X, fa, d+1)
	case *ssa.TypeAssert:
		return valueContainsLoad(x.X, fa, d+1)
	case *ssa.Extract:
		return valueContainsLoad(x.Tuple, fa, d+1)
	case *ssa.Alloc:
		for _, o := range allocStores(x) {
			if valueContainsLoad(o, fa, d+1) {
				return true
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !valueContainsLoad(e, fa, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

func allocStores(al *ssa.Alloc) []ssa.Value {
	var out []ssa.Value
	for _, u := range *al.Referrers() {
		switch x := u.(type) {
		case *ssa.Store:
			if x.Addr == al {
				out = append(out, x.Val)
			}
		case *ssa.IndexAddr:
			for _, u2 := range *x.Referrers() {
				if st, ok := u2.(*ssa.Store); ok && st.Addr == x {
					out = append(out, st.Val)
				}
			}
		case *ssa.FieldAddr:
			for _, u2 := range *x.Referrers() {
				if st, ok := u2.(*ssa.Store); ok && st.Addr == x {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

// guardedNil: the store happens only where the field was found nil.
func guardedNil(w *World, st *ssa.Store, fa *ssa.FieldAddr) bool {
	for d := st.Block(); d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			return false
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		var ld ssa.Value
		if isNilConst(bo.Y) {
			ld = bo.X
		} else if isNilConst(bo.X) {
			ld = bo.Y
		}
		u, ok := ld.(*ssa.UnOp)
		if !ok {
			continue
		}
		f2, ok := u.X.(*ssa.FieldAddr)
		if !ok || !sameField(f2, fa) {
			continue
		}
		if bo.Op.String() == "==" && p.Succs[0].Dominates(st.Block()) && len(p.Succs[0].Preds) == 1 {
			return true
		}
		if bo.Op.String() == "!=" && p.Succs[1].Dominates(st.Block()) && len(p.Succs[1].Preds) == 1 {
			return true
		}
	}
	return false
}

// checkJoin: every non-nil element given to the joining function, and every
// element of a join given to it, is in the list it returns.
func checkJoin(w *World, r *Report, pkg, name string) {
	fn := w.Fn(pkg, "", name)
	if fn == nil {
		r.Bad("join", name, "-", "function not found")
		return
	}
	n := 0
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			v, ok := i.(ssa.Value)
			if !ok {
				continue
			}
			elem := false
			switch x := i.(type) {
			case *ssa.UnOp:
				if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op.String() == "*" {
					elem = rootOf(ia) == fn.Params[0] && isErrorT(v.Type())
				}
			case *ssa.Extract:
				if nx, ok := x.Tuple.(*ssa.Next); ok && x.Index == 2 && nx != nil {
					elem = isErrorT(v.Type())
				}
			}
			if !elem {
				continue
			}
			n++
			bb, ii := posAfter(v)
			ef := newErrFlow(w)
			bad, at := ef.lost(fn, bb, ii, map[ssa.Value]bool{v: true})
			if bad != "" {
				r.Bad("join", fnName(fn), w.Pos(at.Pos()), "an element that is not nil is left out of the result: "+bad)
			} else {
				r.OK("join", fnName(fn))
			}
		}
	}
	if n == 0 {
		r.Bad("join", fnName(fn), w.Pos(fn.Pos()), "the elements are never read")
	}
}

// checkErrorText: the text of an error shows every error it wraps.
func checkErrorText(w *World, r *Report) {
	sp := w.SSA["definition"]
	if sp == nil {
		return
	}
	for _, mn := range sortedMembers(sp) {
		t, ok := sp.Members[mn].(*ssa.Type)
		if !ok {
			continue
		}
		named, ok := types.Unalias(t.Type()).(*types.Named)
		if !ok {
			continue
		}
		st, ok := named.Underlying().(*types.Struct)
		if !ok || !isErrorT(types.NewPointer(named)) {
			continue
		}
		em := w.Method(named, "Error")
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			ft := f.Type()
			if sl, ok := ft.Underlying().(*types.Slice); ok {
				ft = sl.Elem()
			}
			if f.Anonymous() || !isErrorT(ft) {
				continue
			}
			c := "definition." + mn + "." + f.Name()
			if em == nil {
				r.Bad("error-text", c, w.Pos(f.Pos()), "the type has no Error method of its own, so the wrapped error is never shown")
				continue
			}
			shown := false
			for fn := range staticReach(w, em) {
				for _, b := range fn.Blocks {
					for _, ins := range b.Instrs {
						var val ssa.Value
						switch x := ins.(type) {
						case *ssa.UnOp:
							if fa, ok := x.X.(*ssa.FieldAddr); ok && fa.Field == i && namedOf(deref(fa.X.Type())) == named {
								val = x
							}
						case *ssa.Field:
							if x.Field == i && namedOf(x.X.Type()) == named {
								val = x
							}
						}
						if val != nil && !noUses(val) {
							shown = true
						}
					}
				}
			}
			r.Check(shown, "error-text", c, w.Pos(f.Pos()), "the wrapped error is not part of the text the user sees")
		}
	}
	r.Floor("error-text", 10)
}

func sortedMembers(sp *ssa.Package) []string {
	var ns []string
	for n := range sp.Members {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

// staticReach: v and the repository functions it calls statically, other
// visitor methods excluded.
func staticReach(w *World, v *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{v: true}
	work := []*ssa.Function{v}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		add := func(g *ssa.Function) {
			if g != nil && !out[g] && g.Blocks != nil && w.InRepo(g) && !(strings.HasPrefix(g.Name(), "Visit") && g.Signature.Recv() != nil) {
				out[g] = true
				work = append(work, g)
			}
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					add(c.Common().StaticCallee())
				}
			}
		}
	}
	return out
}

// resetAtEntry: the store happens before anything else the function calls.
func resetAtEntry(st *ssa.Store) bool {
	if st.Block().Index != 0 {
		return false
	}
	for _, i := range st.Block().Instrs[:instrIndex(st)] {
		if _, ok := i.(ssa.CallInstruction); ok {
			return false
		}
	}
	return true
}
