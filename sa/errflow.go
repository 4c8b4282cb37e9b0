package main

// Forward tracking of one error value on the paths where it is not nil: every
// such path must hand it on (return it, wrap it into something returned, add
// it to an accumulator that is returned, store it for the caller, or stop).

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type errFlow struct {
	w        *World
	memo     map[string]bool
	busy     map[string]bool
	onExit   func(path *efState, i ssa.Instruction) (done bool, bad string) // overrides acceptance at calls
	strict   bool
	needWarn bool // only a warning result of the function will do
	other    bool // a return of some other definite error is enough
	names    map[ssa.Value]int
	visited  int
}

type efState struct {
	fn    *ssa.Function
	b     *ssa.BasicBlock
	i     int
	taint map[ssa.Value]bool
	flags map[string]bool
	from  *ssa.BasicBlock
}

func newErrFlow(w *World) *errFlow {
	return &errFlow{w: w, memo: map[string]bool{}, busy: map[string]bool{}, names: map[ssa.Value]int{}}
}

func (ef *errFlow) id(v ssa.Value) int {
	n, ok := ef.names[v]
	if !ok {
		n = len(ef.names) + 1
		ef.names[v] = n
	}
	return n
}

func carriesError(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if carriesError(u.At(i).Type()) {
				return true
			}
		}
		return false
	case *types.Map, *types.Chan:
		return false
	}
	return true
}

func rootOf(a ssa.Value) ssa.Value {
	for {
		switch v := a.(type) {
		case *ssa.FieldAddr:
			a = v.X
		case *ssa.IndexAddr:
			a = v.X
		case *ssa.Slice:
			a = v.X
		case *ssa.ChangeType:
			a = v.X
		default:
			return a
		}
	}
}

// lost explores from (b,i) and returns the first place where a path ends
// without the error having been handed on, or "".
func (ef *errFlow) lost(fn *ssa.Function, b *ssa.BasicBlock, i int, taint map[ssa.Value]bool) (string, ssa.Instruction) {
	seen := map[string]bool{}
	type item struct {
		b     *ssa.BasicBlock
		i     int
		taint map[ssa.Value]bool
		flags map[string]bool
	}
	key := func(b *ssa.BasicBlock, i int, t map[ssa.Value]bool, f map[string]bool) string {
		var ns []int
		for v := range t {
			ns = append(ns, ef.id(v))
		}
		sort.Ints(ns)
		var sb strings.Builder
		sb.WriteString(itoa(b.Index) + "." + itoa(i) + ":")
		for _, n := range ns {
			sb.WriteString(itoa(n) + ",")
		}
		for _, k := range sortedKeys(f) {
			sb.WriteString(k)
		}
		return sb.String()
	}
	work := []item{{b, i, taint, map[string]bool{}}}
	steps := 0
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		k := key(it.b, it.i, it.taint, it.flags)
		if seen[k] {
			continue
		}
		seen[k] = true
		steps++
		if steps > 30000 {
			return "the error could not be followed (too many paths)", nil
		}
		t := map[ssa.Value]bool{}
		for v := range it.taint {
			t[v] = true
		}
		fl := map[string]bool{}
		for v := range it.flags {
			fl[v] = true
		}
		done := false
		for x := it.i; x < len(it.b.Instrs) && !done; x++ {
			ins := it.b.Instrs[x]
			if ef.onExit != nil {
				st := &efState{fn: fn, b: it.b, i: x, taint: t, flags: fl}
				d, bad := ef.onExit(st, ins)
				if bad != "" {
					return bad, ins
				}
				if d {
					done = true
					break
				}
			}
			switch v := ins.(type) {
			case *ssa.Phi:
				// applied when the edge was taken
			case *ssa.Store:
				root := rootOf(v.Addr)
				if al, ok := root.(*ssa.Alloc); ok {
					if t[v.Val] {
						t[al] = true
					} else if v.Addr == ssa.Value(al) {
						delete(t, al)
					}
				} else if t[v.Val] {
					if !ef.strict {
						done = true // kept for the caller
					}
				}
			case *ssa.MapUpdate:
				if t[v.Value] && !ef.strict {
					done = true
				}
			case *ssa.Panic:
				done = true
			case *ssa.Return:
				for k, res := range v.Results {
					if ef.needWarn && !warnSlot(fn, k) {
						continue
					}
					if t[res] || (ef.other || joined(t)) && definiteError(res, it.b) {
						done = true
					}
				}
				if !done || ef.strict {
					return "returns without it", ins
				}
			case *ssa.If:
				succs := it.b.Succs
				take := []int{0, 1}
				switch d := nilTest(v.Cond, t); d {
				case 1:
					take = []int{0}
				case -1:
					take = []int{1}
				}
				for _, s := range take {
					work = append(work, item{succs[s], 0, edgeTaint(it.b, succs[s], s, t), fl})
				}
				done = true
			case *ssa.Jump:
				work = append(work, item{it.b.Succs[0], 0, edgeTaint(it.b, it.b.Succs[0], 0, t), fl})
				done = true
			case ssa.CallInstruction:
				if ef.call(fn, v, t) {
					done = true
				}
			default:
				if val, ok := ins.(ssa.Value); ok {
					delete(t, val) // a new instance of a value in a loop
					if ef.propagates(ins, t) {
						t[val] = true
					}
				}
			}
		}
	}
	ef.visited += steps
	return "", nil
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	neg := n < 0
	if neg {
		n = -n
	}
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	if neg {
		s = "-" + s
	}
	return s
}

func edgeTaint(from, to *ssa.BasicBlock, which int, t map[ssa.Value]bool) map[ssa.Value]bool {
	idx := -1
	cnt := 0
	for k, p := range to.Preds {
		if p == from {
			// both edges of an If may lead to the same block
			if idx < 0 || cnt == which {
				idx = k
			}
			cnt++
		}
	}
	n := map[ssa.Value]bool{}
	for v := range t {
		n[v] = true
	}
	type upd struct {
		p *ssa.Phi
		t bool
	}
	var us []upd
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		us = append(us, upd{p, idx >= 0 && t[p.Edges[idx]]})
	}
	for _, u := range us {
		if u.t {
			n[u.p] = true
		} else {
			delete(n, u.p)
		}
	}
	return n
}

// nilTest: 1 when cond is certainly true, -1 when certainly false, 0 unknown,
// given that tainted values are not nil.
func nilTest(c ssa.Value, t map[ssa.Value]bool) int {
	switch v := c.(type) {
	case *ssa.UnOp:
		if v.Op == token.NOT {
			return -nilTest(v.X, t)
		}
	case *ssa.BinOp:
		// a list that holds the error is not empty
		if c, ok := v.X.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && t[c.Call.Args[0]] {
				if n, ok := constInt(v.Y); ok && n == 0 {
					switch v.Op {
					case token.EQL, token.LEQ:
						return -1
					case token.NEQ, token.GTR:
						return 1
					}
				}
			}
		}
		var other ssa.Value
		if t[v.X] {
			other = v.Y
		} else if t[v.Y] {
			other = v.X
		}
		if other != nil && isNilConst(other) {
			switch v.Op {
			case token.NEQ:
				return 1
			case token.EQL:
				return -1
			}
		}
	case *ssa.Extract:
		// comma-ok assertion of a tainted error to the error interface itself
		if ta, ok := v.Tuple.(*ssa.TypeAssert); ok && v.Index == 1 && t[ta.X] {
			if types.Identical(ta.AssertedType, errorType) {
				return 1
			}
			// asserting an error to a type that cannot hold it
			if !isErrorT(ta.AssertedType) && !isAny(ta.AssertedType) {
				return -1
			}
		}
	}
	return 0
}

func isAny(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	return ok && it.NumMethods() == 0
}

func (ef *errFlow) propagates(ins ssa.Instruction, t map[ssa.Value]bool) bool {
	switch v := ins.(type) {
	case *ssa.MakeInterface:
		return t[v.X]
	case *ssa.ChangeInterface:
		return t[v.X]
	case *ssa.ChangeType:
		return t[v.X]
	case *ssa.Convert:
		return t[v.X]
	case *ssa.TypeAssert:
		return t[v.X] && (isErrorT(v.AssertedType) || isAny(v.AssertedType) || carriesError(v.AssertedType))
	case *ssa.Extract:
		return t[v.Tuple] && carriesError(v.Type())
	case *ssa.Slice:
		return t[v.X]
	case *ssa.FieldAddr:
		return t[v.X]
	case *ssa.IndexAddr:
		return t[v.X]
	case *ssa.Field:
		return t[v.X]
	case *ssa.Index:
		return t[v.X]
	case *ssa.UnOp:
		return v.Op == token.MUL && (t[v.X] || t[rootOf(v.X)])
	case *ssa.BinOp:
		return v.Op == token.ADD && carriesError(v.Type()) && (t[v.X] || t[v.Y])
	case *ssa.MakeClosure:
		for _, b := range v.Bindings {
			if t[b] {
				return true
			}
		}
	}
	return false
}

// call applies the effect of a call on the taint; true when the error is
// certainly dealt with by it.
func (ef *errFlow) call(fn *ssa.Function, ci ssa.CallInstruction, t map[ssa.Value]bool) bool {
	c := ci.Common()
	val, _ := ci.(ssa.Value)
	if val != nil {
		delete(t, val)
	}
	n := callName(ci)
	any := false
	var idx []int
	for k, a := range c.Args {
		if t[a] || t[rootOf(a)] && isAlloc(rootOf(a)) {
			any = true
			idx = append(idx, k)
		}
	}
	recv := c.IsInvoke() && t[c.Value]
	if n == "os.Exit" || n == "runtime.Goexit" {
		return true
	}
	if !any && !recv {
		// a closure over an error accumulator returns or updates it
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				if t[b] && val != nil && carriesError(val.Type()) {
					t[val] = true
				}
			}
		}
		return false
	}
	// results carry it
	if val != nil && carriesError(val.Type()) {
		t[val] = true
	}
	// out-parameters and captured accumulators carry it
	for _, a := range c.Args {
		if al, ok := rootOf(unwrapIface(a)).(*ssa.Alloc); ok {
			t[al] = true
		}
	}
	if mc := closureOf(c.Value); mc != nil {
		for _, b := range mc.Bindings {
			if al, ok := b.(*ssa.Alloc); ok && carriesError(deref(al.Type())) {
				t[al] = true
			}
		}
		if fn2, ok := mc.Fn.(*ssa.Function); ok && ef.keepsParam(fn2, idx, false) {
			for _, b := range mc.Bindings {
				if _, ok := b.(*ssa.FreeVar); ok {
					return true
				}
			}
		}
	}
	if ef.strict {
		return false
	}
	if strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "log.") {
		return true
	}
	if f := c.StaticCallee(); f != nil && ef.w.InRepo(f) && f.Blocks != nil {
		return ef.keepsParam(f, idx, true)
	}
	return false
}

func isAlloc(v ssa.Value) bool { _, ok := v.(*ssa.Alloc); return ok }

func unwrapIface(v ssa.Value) ssa.Value {
	if m, ok := v.(*ssa.MakeInterface); ok {
		return m.X
	}
	return v
}

func closureOf(v ssa.Value) *ssa.MakeClosure {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return x
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			var mc *ssa.MakeClosure
			for _, u := range *al.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == al {
					m, ok := st.Val.(*ssa.MakeClosure)
					if !ok || mc != nil {
						return nil
					}
					mc = m
				}
			}
			return mc
		}
	}
	return nil
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// keepsParam: the callee stores the parameter for its caller on every path
// (without relying on its return value).
func (ef *errFlow) keepsParam(f *ssa.Function, idx []int, _ bool) bool {
	k := f.String() + ":"
	for _, i := range idx {
		k += itoa(i) + ","
	}
	if v, ok := ef.memo[k]; ok {
		return v
	}
	if ef.busy[k] {
		return false
	}
	ef.busy[k] = true
	t := map[ssa.Value]bool{}
	for _, i := range idx {
		if i < len(f.Params) {
			t[f.Params[i]] = true
		}
	}
	sub := &errFlow{w: ef.w, memo: ef.memo, busy: ef.busy, names: map[ssa.Value]int{}}
	sub.onExit = func(st *efState, i ssa.Instruction) (bool, string) {
		if _, ok := i.(*ssa.Return); ok {
			return false, "returned"
		}
		return false, ""
	}
	bad, _ := sub.lost(f, f.Blocks[0], 0, t)
	ef.busy[k] = false
	ef.memo[k] = bad == ""
	return bad == ""
}

// definiteError: v is certainly a non-nil error in block b: a freshly built
// error, or a value found by an assertion or nil test on the way to b.
func definiteError(v ssa.Value, b *ssa.BasicBlock) bool {
	for {
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.MakeInterface:
			if isErrorT(x.X.Type()) {
				if _, ok := x.X.(*ssa.Alloc); ok {
					return true
				}
				if _, ok := x.X.Type().Underlying().(*types.Struct); ok {
					return true
				}
			}
			v = x.X
			continue
		}
		break
	}
	var cond func(c ssa.Value, want bool) bool
	cond = func(c ssa.Value, want bool) bool {
		switch x := c.(type) {
		case *ssa.UnOp:
			return x.Op == token.NOT && cond(x.X, !want)
		case *ssa.Extract:
			ta, ok := x.Tuple.(*ssa.TypeAssert)
			if !ok || x.Index != 1 || !want || !isErrorT(ta.AssertedType) {
				return false
			}
			if e, ok := v.(*ssa.Extract); ok && e.Tuple == x.Tuple && e.Index == 0 {
				return true
			}
			return v == ta.X
		case *ssa.BinOp:
			if !isErrorT(v.Type()) || (x.Op != token.NEQ && x.Op != token.EQL) || (x.Op == token.NEQ) != want {
				return false
			}
			return x.X == v && isNilConst(x.Y) || x.Y == v && isNilConst(x.X)
		}
		return false
	}
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil {
			return false
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 {
			continue
		}
		if cond(iff.Cond, p.Succs[0] == d) {
			return true
		}
	}
	return false
}

// joined: the error is already part of an accumulator.
func joined(t map[ssa.Value]bool) bool {
	for v := range t {
		if c, ok := v.(*ssa.Call); ok && strings.HasSuffix(callName(c), "sJoin") {
			return true
		}
	}
	return false
}

// warnSlot: result k of fn is where it reports warnings (or its only error-like
// result).
func warnSlot(fn *ssa.Function, k int) bool {
	rs := fn.Signature.Results()
	if strings.Contains(strings.ToLower(rs.At(k).Name()), "warn") || isWarnType(rs.At(k).Type()) {
		return true
	}
	for j := 0; j < rs.Len(); j++ {
		if j != k && (strings.Contains(strings.ToLower(rs.At(j).Name()), "warn") || isWarnType(rs.At(j).Type())) {
			return false
		}
	}
	return true
}
