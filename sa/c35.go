package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C35", "representation-invariant analysis: every write to the table's state is classified by its value graph and ordering, every reader compared with the invariant", checkC35)
}

func checkC35(w *World, r *Report) {
	r.Explain = "Every method of the ordered table was analysed, with its helpers inlined. The invariant is: the index maps exactly the keys of the entries to their positions, each key once. Each write to entries or index must be one of the forms that preserve it (append of a new key with its position, deletion with the later positions renumbered, reset of both, update in place of an indexed entry), and each reader must enumerate, look up or slice all entries in order."
	e := NewEval(w)
	e.rawOM = true
	methods := map[string]*ssa.Function{}
	for _, fn := range w.Funcs {
		if fn.Parent() != nil || fn.Blocks == nil {
			continue
		}
		m := omMethod(w, fn)
		if m == "" {
			continue
		}
		if cur := methods[m]; cur == nil || preferInst(fn, cur) {
			methods[m] = fn
		}
	}
	for _, m := range []string{"Put", "Get", "Has", "Remove", "Keys", "Values", "Entries", "Len", "Sub"} {
		if methods[m] == nil {
			r.Bad("anchor", m, "util", "the ordered table has no method "+m)
		}
	}
	self := Sym("m")
	ent := mk("field", "entries", self)
	idx := mk("field", "index", self)
	inUtil := func(f *ssa.Function) bool { return w.RelPkg(f) == "util" }
	own := func(x *X, name string) bool {
		x = stripConv(x)
		return x.Op == "field" && x.Lit == name && Eq(x.Args[0], self)
	}
	exported := func(n string) bool { return n != "" && n[0] >= 'A' && n[0] <= 'Z' }
	for _, name := range sortedKeys(methods) {
		if !exported(name) {
			continue
		}
		fn := methods[name]
		where := w.Pos(fn.Pos())
		env := e.RootBound(fn, "m", "a", "b")
		var writes, idxPuts, deletes, elemWrites, resets []*Site
		var rets []*Site
		var appends []*Site
		e.Traverse(env, inUtil, func(s *Site) {
			switch i := s.Instr.(type) {
			case *ssa.Store:
				if fa, ok := i.Addr.(*ssa.FieldAddr); ok {
					base := e.Val(s.Env, fa.X)
					f := fieldNameOf(fa)
					if Eq(stripConv(base), self) {
						if f == "entries" {
							writes = append(writes, s)
						} else if f == "index" {
							resets = append(resets, s)
						} else {
							r.Bad("write", name+" ."+f, w.Pos(instrPos(i)), "a field of the table that no rule knows is written")
						}
					}
					a := e.Val(s.Env, fa.X)
					if a.Op == "addrIdx" && own(a.Args[0], "entries") {
						elemWrites = append(elemWrites, s)
					}
				}
				if ia, ok := i.Addr.(*ssa.IndexAddr); ok && own(e.Val(s.Env, ia.X), "entries") {
					r.Bad("write", name+" entries[i]", w.Pos(instrPos(i)), "an entry is overwritten as a whole")
				}
			case *ssa.MapUpdate:
				if own(e.Val(s.Env, i.Map), "index") {
					idxPuts = append(idxPuts, s)
				}
			case *ssa.Return:
				if s.Env == env {
					rets = append(rets, s)
				}
			case *ssa.Call:
				if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" && own(e.Val(s.Env, i.Call.Args[0]), "index") {
					deletes = append(deletes, s)
				} else if ok && b.Name() == "append" {
					appends = append(appends, s)
				}
			}
		})
		usedIdx := map[*Site]bool{}
		usedDel := map[*Site]bool{}
		usedReset := map[*Site]bool{}
		for _, s := range writes {
			v := stripConv(e.Val(s.Env, s.Instr.(*ssa.Store).Val))
			at := w.Pos(instrPos(s.Instr))
			c := name + " entries"
			switch {
			case v.Op == "builtin" && v.Lit == "append" && own(v.Args[0], "entries") && len(v.Args) == 2 && v.Args[1].Op == "list" && len(v.Args[1].Args) == 1 && v.Args[1].Args[0].Op == "new":
				en := v.Args[1].Args[0]
				en = e.entryOf(s, en)
				k := fieldOf(en, "Key")
				if own(k, "defaultK") || k.Op == "const" && k.Lit == "zero" || k.Op == "field" && k.Args[0].Op == "new" {
					r.OK("append-anonymous", c)
					continue
				}
				has := mk("has", "", idx, k)
				r.Check(under(s.Guards, Not(has)), "append-new", c, at, "an entry is appended without knowing that its key is new, so a key could be entered twice")
				ok := false
				for _, u := range idxPuts {
					mu := u.Instr.(*ssa.MapUpdate)
					uk, uv := e.Val(u.Env, mu.Key), e.Val(u.Env, mu.Value)
					want := mk("len", "", ent)
					if canFollow(s, u) && !canFollow(u, s) {
						want = Sub(want, Int(1))
					}
					if Eq(uk, k) && Eq(uv, want) && sameGuards(u.Guards, s.Guards) {
						ok, usedIdx[u] = true, true
					}
				}
				r.Check(ok, "append-indexed", c, at, "an entry is appended without its position being entered in the index")
			case isRemoveOf(v, ent, idx):
				i := removeIdx(v)
				if i.Op != "lookup" || !own(i.Args[0], "index") {
					r.Bad("remove", c, at, "the position removed is not the one the index gives for the key: "+trimX(i))
					continue
				}
				k := i.Args[1]
				has := mk("has", "", idx, k)
				r.Check(under(s.Guards, has), "remove", c+" present", at, "an entry is removed without knowing that it exists")
				ok := false
				for _, d := range deletes {
					if Eq(e.Val(d.Env, d.Instr.(*ssa.Call).Call.Args[1]), k) && sameGuards(d.Guards, s.Guards) {
						ok, usedDel[d] = true, true
					}
				}
				r.Check(ok, "remove", c+" forgotten", at, "a removed entry stays in the index")
				// renumbering
				ok = false
				why := "the positions of the later entries are not renumbered after a removal"
				for _, u := range idxPuts {
					if usedIdx[u] {
						continue
					}
					mu := u.Instr.(*ssa.MapUpdate)
					in, loop, head := enclosingLoop(u)
					if loop == nil {
						continue
					}
					usedIdx[u] = true
					uk, uv := e.Val(u.Env, mu.Key), e.Val(u.Env, mu.Value)
					if !(uk.Op == "field" && uk.Lit == "Key") {
						why = "the renumbering uses something else than the key of an entry"
						continue
					}
					el := uk.Args[0]
					if !(el.Op == "index" || el.Op == "addrIdx") {
						why = "the renumbering does not run over the entries"
						continue
					}
					base, off := el.Args[0], Int(0)
					if base.Op == "slice" { // for j := range entries[i:]
						off, base = base.Args[1], base.Args[0]
						if off.Op == "nil" {
							off = Int(0)
						}
					}
					if !own(base, "entries") || !Eq(Add(el.Args[1], off), uv) {
						why = "the position entered is not that of the entry"
						continue
					}
					if !canFollow(s, u) {
						why = "the renumbering happens before the removal"
						continue
					}
					start := loopStart(e, u, in, head)
					if start == nil || !(Eq(Add(start, off), i) || Eq(Add(start, off), Int(0))) {
						why = "the renumbering does not start at the removed position"
						continue
					}
					if !loopCovers(e, u, in, head, loop) {
						why = "the renumbering does not reach the last entry"
						continue
					}
					// only anonymous entries may be left out
					if !skipsOnly(e, u, loop, head, in, func(g *X) bool {
						return g.Op == "eq" && g.Has(func(y *X) bool { return y.Op == "field" && y.Lit == "Key" })
					}) {
						why = "some later entries are not renumbered"
						continue
					}
					ok = true
				}
				r.Check(ok, "remove", c+" renumber", at, why)
			case v.Op == "slice" && own(v.Args[0], "entries") && len(v.Args) > 2 && isZeroOrNil(v.Args[1]) && v.Args[2].Op == "int" && v.Args[2].Lit == "0",
				v.Op == "nil", v.Op == "makeslice" && v.Args[0].Op == "int" && v.Args[0].Lit == "0":
				ok := false
				for _, u := range resets {
					x := e.Val(u.Env, u.Instr.(*ssa.Store).Val)
					if (x.Op == "makemap" || x.Op == "map" || strings.HasPrefix(x.Op, "map") || x.Op == "opaque") && sameGuards(u.Guards, s.Guards) {
						ok, usedReset[u] = true, true
					}
				}
				for _, cs := range deletes {
					_ = cs
				}
				r.Check(ok || clearsIndex(e, env, inUtil, own), "reset", c, at, "the entries are dropped but the index keeps them")
			default:
				r.Bad("write", c, at, "the entries are replaced in a way that is not known to keep the index in step: "+trimX(v))
			}
		}
		for _, s := range idxPuts {
			r.Check(usedIdx[s], "index-write", name+" index", w.Pos(instrPos(s.Instr)), "the index is changed without a matching change of the entries")
		}
		for _, s := range deletes {
			r.Check(usedDel[s], "index-write", name+" delete", w.Pos(instrPos(s.Instr)), "a key is dropped from the index but its entry stays")
		}
		for _, s := range resets {
			r.Check(usedReset[s], "index-write", name+" index reset", w.Pos(instrPos(s.Instr)), "the index is replaced but the entries stay")
		}
		for _, s := range elemWrites {
			fa := s.Instr.(*ssa.Store).Addr.(*ssa.FieldAddr)
			a := e.Val(s.Env, fa.X)
			i := a.Args[1]
			ok := fieldNameOf(fa) == "Value" && i.Op == "lookup" && own(i.Args[0], "index") && under(s.Guards, mk("has", "", idx, i.Args[1]))
			r.Check(ok, "update", name+" "+fieldNameOf(fa), w.Pos(instrPos(s.Instr)), "an entry is changed in place other than the value of the key looked up")
		}
		_ = appends
		checkOMReader(w, r, e, name, fn, env, rets, where, self)
	}
	r.Floor("append-new", 1)
	r.Floor("remove", 3)
	r.Floor("reader", 8)
}

func preferInst(a, b *ssa.Function) bool {
	return strings.Contains(fnName(a), "[any, any]") && !strings.Contains(fnName(b), "[any, any]")
}

// entryOf resolves the fields of an entry built in place.
func (e *Eval) entryOf(s *Site, en *X) *X {
	for x := s.Env; x != nil; x = x.parent {
		if x.fn == nil {
			continue
		}
		for _, b := range x.fn.Blocks {
			for _, i := range b.Instrs {
				al, ok := i.(*ssa.Alloc)
				if !ok || !Eq(e.Val(x, al), en) {
					continue
				}
				out := mk("new", en.Lit)
				for _, u := range *al.Referrers() {
					if fa, ok := u.(*ssa.FieldAddr); ok {
						for _, q := range *fa.Referrers() {
							if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
								out.Args = append(out.Args, mk("kv", fieldNameOf(fa), e.Val(x, st.Val)))
							}
						}
					}
				}
				return out
			}
		}
	}
	return en
}

func sameGuards(a, b []*X) bool {
	in := func(g *X, l []*X) bool {
		for _, x := range l {
			if Eq(x, g) {
				return true
			}
		}
		return false
	}
	for _, g := range a {
		if !in(g, b) {
			return false
		}
	}
	for _, g := range b {
		if !in(g, a) {
			return false
		}
	}
	return true
}

func isZeroOrNil(x *X) bool { return x.Op == "nil" || x.Op == "int" && x.Lit == "0" }

// isRemoveOf: append(entries[:i], entries[i+1:]...) or slices.Delete(entries, i, i+1).
func isRemoveOf(v, ent, idx *X) bool { return removeIdxOf(v, ent) != nil }

func removeIdx(v *X) *X { return removeIdxOf(v, nil) }

func removeIdxOf(v, ent *X) *X {
	if v.Op == "builtin" && v.Lit == "append" && len(v.Args) == 2 {
		a, b := v.Args[0], v.Args[1]
		if a.Op != "slice" || b.Op != "slice" || !isZeroOrNil(a.Args[1]) || b.Args[2].Op != "nil" {
			return nil
		}
		if ent != nil && (!Eq(a.Args[0], ent) || !Eq(b.Args[0], ent)) {
			return nil
		}
		if !Eq(Add(a.Args[2], Int(1)), b.Args[1]) {
			return nil
		}
		return a.Args[2]
	}
	if v.Op == "call" && strings.Contains(v.Lit, "slices.Delete") && len(v.Args) == 3 {
		if ent != nil && !Eq(v.Args[0], ent) || !Eq(Add(v.Args[1], Int(1)), v.Args[2]) {
			return nil
		}
		return v.Args[1]
	}
	return nil
}

func clearsIndex(e *Eval, env *Env, in func(*ssa.Function) bool, own func(*X, string) bool) bool {
	ok := false
	e.Traverse(env, in, func(s *Site) {
		if c, k := s.Instr.(*ssa.Call); k {
			if b, k := c.Call.Value.(*ssa.Builtin); k && b.Name() == "clear" && own(e.Val(s.Env, c.Call.Args[0]), "index") {
				ok = true
			}
		}
	})
	return ok
}

// loopStart is the first value of the index of a counting loop.
func loopStart(e *Eval, s *Site, in ssa.Instruction, head *ssa.BasicBlock) *X {
	env := envOf(s, in.Parent())
	iff, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if !ok || env == nil {
		return nil
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	for _, v := range []ssa.Value{cmp.X, cmp.Y} {
		off := int64(0)
		if b, ok := v.(*ssa.BinOp); ok && b.Op.String() == "+" {
			if k, ok := constInt(b.Y); ok {
				off, v = k, b.X
			}
		}
		phi, ok := v.(*ssa.Phi)
		if !ok || phi.Block() != head {
			continue
		}
		for k, p := range head.Preds {
			if !head.Dominates(p) {
				return Add(e.Val(env, phi.Edges[k]), Int(off))
			}
		}
	}
	return nil
}

// loopCovers: the loop counts by one up to the length of a list.
func loopCovers(e *Eval, s *Site, in ssa.Instruction, head *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool) bool {
	lc := loopOf(e, s, in, head)
	if lc == nil || !lc.stepOne {
		return false
	}
	for b := range loop {
		for _, sc := range b.Succs {
			if !loop[sc] && b != head {
				return false
			}
		}
	}
	return true
}

// skipsOnly: within an iteration the site is passed over only under the condition.
func skipsOnly(e *Eval, s *Site, loop map[*ssa.BasicBlock]bool, head *ssa.BasicBlock, in ssa.Instruction, allow func(*X) bool) bool {
	env := envOf(s, in.Parent())
	for _, b := range in.Parent().Blocks {
		if !loop[b] || b == head {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		// does one side avoid the site?
		for k, sc := range b.Succs {
			if sc == in.Block() || !avoids(sc, in.Block(), head, loop) || !b.Dominates(in.Block()) {
				continue
			}
			c := e.Val(env, iff.Cond)
			if k == 1 {
				c = Not(c)
			}
			if !allow(c) {
				return false
			}
		}
	}
	return true
}

func avoids(from, b, head *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool) bool {
	seen := map[*ssa.BasicBlock]bool{b: true}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == head || !loop[x] {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(from)
}

func normIdx(x *X) *X {
	return Subst(x, func(y *X) *X {
		if y.Op == "addrIdx" {
			return mk("index", "", y.Args...)
		}
		if y.Op == "deref" && len(y.Args) == 1 && y.Args[0].Op == "index" {
			return y.Args[0]
		}
		return nil
	})
}

// checkOMReader compares what a reading method returns with the invariant.
func checkOMReader(w *World, r *Report, e *Eval, name string, fn *ssa.Function, env *Env, rets []*Site, where string, self *X) {
	ent := mk("field", "entries", self)
	idx := mk("field", "index", self)
	a := Sym("a")
	has := mk("has", "", idx, a)
	at := mk("index", "", ent, mk("lookup", "", idx, a))
	val := mk("field", "Value", at)
	ret := func(k int) *X {
		x := e.Result(e.RootBoundCopy(env))
		if x == nil {
			return mk("none", "")
		}
		x = normIdx(x)
		if x.Op == "tuple" {
			if k < len(x.Args) {
				return x.Args[k]
			}
			return mk("none", "")
		}
		return x
	}
	noEnt := func(x *X) bool { return !x.Has(func(y *X) bool { return Eq(y, ent) }) }
	check := func(cond bool, what string, got *X) {
		g := ""
		if got != nil {
			g = ": " + trimX(got)
		}
		r.Check(cond, "reader", name, where, what+g)
	}
	switch name {
	case "Get":
		x, ok := ret(0), ret(1)
		check(Eq(given(x, has), val) && noEnt(given(x, Not(has))), "Get does not return the value of the entry at the position of the key", x)
		check(Eq(ok, has) || Eq(given(ok, has), Bool(true)) && Eq(given(ok, Not(has)), Bool(false)), "Get does not report exactly whether the key is present", ok)
	case "MustGet":
		x := ret(0)
		check(Eq(given(x, has), val) && noEnt(given(x, Not(has))), "MustGet does not return the value of the entry at the position of the key", x)
	case "Has":
		x := ret(0)
		check(Eq(x, has), "Has does not report exactly whether the key is present", x)
	case "Rank":
		x := ret(0)
		check(Eq(given(x, has), mk("lookup", "", idx, a)) && Eq(given(x, Not(has)), Int(-1)), "Rank does not return the position of the key, or -1", x)
	case "Len":
		x := ret(0)
		check(Eq(x, mk("len", "", ent)), "Len is not the number of entries", x)
	case "First":
		x := ret(0)
		check(Eq(x, mk("index", "", ent, Int(0))), "First is not the first entry", x)
	case "Last":
		x := ret(0)
		check(Eq(x, mk("index", "", ent, Sub(mk("len", "", ent), Int(1)))), "Last is not the last entry", x)
	case "Index":
		x := ret(0)
		check(Eq(x, mk("index", "", ent, a)), "Index does not return the entry at the position", x)
	case "Put":
		// reports whether it entered the key
		x := ret(0)
		if fn.Signature.Results().Len() == 1 {
			check(Eq(x, Not(has)) || Eq(given(x, has), Bool(false)) && Eq(given(x, Not(has)), Bool(true)), "Put does not report whether the key was new", x)
		}
	case "Keys", "Values", "Entries":
		field := strings.TrimSuffix(name, "s")
		if name == "Entries" {
			x := ret(0)
			if Eq(stripConv(x), ent) || x.Op == "call" && strings.Contains(x.Lit, "slices.Clone") && Eq(x.Args[0], ent) || x.Op == "builtin" && x.Lit == "append" && len(x.Args) == 2 && Eq(x.Args[1], ent) && (x.Args[0].Op == "nil" || x.Args[0].Op == "makeslice" && x.Args[0].Args[0].Lit == "0" || x.Args[0].Op == "list" && len(x.Args[0].Args) == 0) {
				r.OK("reader", name)
				return
			}
			field = ""
		}
		check(collectsAll(w, e, env, rets, ent, field), name+" does not enumerate every entry once, in order", nil)
	case "Sub":
		checkSub(w, r, e, env, rets, where, ent)
	}
}

// RootBoundCopy starts a fresh evaluation with the same parameters.
func (e *Eval) RootBoundCopy(env *Env) *Env {
	n := e.Root(env.fn)
	for k, v := range env.bind {
		n.bind[k] = v
	}
	return n
}

// collectsAll: the list returned is built by one loop over all entries that
// adds the field of each.
func collectsAll(w *World, e *Eval, env *Env, rets []*Site, list *X, field string) bool {
	good := 0
	e.Traverse(env, func(f *ssa.Function) bool { return w.RelPkg(f) == "util" }, func(s *Site) {
		var elem, pos *X
		switch i := s.Instr.(type) {
		case *ssa.Call:
			if b, ok := i.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
				return
			}
			l := e.Val(s.Env, i.Call.Args[1])
			if l.Op != "list" || len(l.Args) != 1 {
				return
			}
			elem = l.Args[0]
		case *ssa.Store:
			ia, ok := i.Addr.(*ssa.IndexAddr)
			if !ok {
				return
			}
			base := e.Val(s.Env, ia.X)
			if base.Op != "makeslice" || !Eq(base.Args[0], mk("len", "", list)) {
				return
			}
			elem, pos = e.Val(s.Env, i.Val), e.Val(s.Env, ia.Index)
		default:
			return
		}
		elem = normIdx(elem)
		in, loop, head := enclosingLoop(s)
		if loop == nil {
			return
		}
		if field != "" {
			if elem.Op != "field" || elem.Lit != field {
				return
			}
			elem = elem.Args[0]
		}
		lc := loopOf(e, s, in, head)
		if lc == nil || !lc.fromZero || !lc.stepOne || !Eq(lc.list, list) || !loopCovers(e, s, in, head, loop) || !everyIteration(loop, head, in.Block()) {
			return
		}
		if elem.Op != "index" || !Eq(elem.Args[0], list) {
			return
		}
		if pos != nil && !Eq(pos, elem.Args[1]) {
			return
		}
		good++
	})
	if good != 1 || len(rets) != 1 {
		return false
	}
	x := e.Val(env, rets[0].Instr.(*ssa.Return).Results[0])
	if x.Op == "makeslice" {
		return true
	}
	// loop(start, append(mu, ...)) with an empty start
	if x.Op == "loop" {
		s := x.Args[0]
		return s.Op == "makeslice" && s.Args[0].Lit == "0" || s.Op == "nil" || s.Op == "list" && len(s.Args) == 0
	}
	return x.Op == "call"
}

// checkSub: the slice [start, end) with negative bounds counted from the end,
// each entry of it entered in order into a new table.
func checkSub(w *World, r *Report, e *Eval, env *Env, rets []*Site, where string, ent *X) {
	a, b := Sym("a"), Sym("b")
	n := mk("len", "", ent)
	lo := Sel(Lt(a, Int(0)), Add(n, a), a)
	hi := Sel(Lt(b, Int(0)), Add(n, b), b)
	want := mk("slice", "", ent, lo, hi)
	found, anon := false, false
	why := "Sub does not enter each entry of the requested range into the new table"
	e.Traverse(env, func(f *ssa.Function) bool {
		return w.RelPkg(f) == "util" && omMethod(w, f) != "Put" && omMethod(w, f) != "PutAnonymous"
	}, func(s *Site) {
		ci, ok := s.Instr.(*ssa.Call)
		if !ok {
			return
		}
		f := ci.Call.StaticCallee()
		if f == nil {
			return
		}
		m := omMethod(w, f)
		if m != "Put" && m != "MustPut" && m != "PutAnonymous" {
			return
		}
		dst := e.Val(s.Env, ci.Call.Args[0])
		in, loop, head := enclosingLoop(s)
		if loop == nil || dst.Op != "new" {
			return
		}
		v := normIdx(e.Val(s.Env, ci.Call.Args[len(ci.Call.Args)-1]))
		if v.Op != "field" || v.Lit != "Value" || v.Args[0].Op != "index" {
			return
		}
		el := v.Args[0]
		lc := loopOf(e, s, in, head)
		okRange := false
		if Eq(el.Args[0], want) {
			okRange = lc != nil && lc.fromZero && Eq(lc.list, want) && loopCovers(e, s, in, head, loop)
		} else if Eq(el.Args[0], ent) {
			st := loopStart(e, s, in, head)
			okRange = st != nil && Eq(st, lo) && loopLimit(e, s, in, head, hi)
		}
		if !okRange {
			why = "the range of Sub is not the requested one: " + trimX(el.Args[0])
			return
		}
		if m == "PutAnonymous" {
			anon = true
			return
		}
		k := normIdx(e.Val(s.Env, ci.Call.Args[1]))
		if !(k.Op == "field" && k.Lit == "Key" && Eq(k.Args[0], el)) {
			why = "Sub enters a value under another key"
			return
		}
		if !skipsOnly(e, s, loop, head, in, func(g *X) bool {
			return g.Op == "eq" && g.Has(func(y *X) bool { return y.Op == "field" && y.Lit == "Key" })
		}) {
			why = "Sub leaves out entries of the range"
			return
		}
		found = true
	})
	r.Check(found && anon, "reader", "Sub", where, why)
	for _, s := range rets {
		x := e.Val(s.Env, s.Instr.(*ssa.Return).Results[0])
		if x.Op == "nil" {
			r.Check(under(s.Guards, Lt(hi, lo)), "reader", "Sub nil", where, "Sub answers nothing although the range is not negative")
		}
	}
}

// loopLimit: the loop runs while its index is below lim.
func loopLimit(e *Eval, s *Site, in ssa.Instruction, head *ssa.BasicBlock, lim *X) bool {
	env := envOf(s, in.Parent())
	iff, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if !ok || env == nil {
		return false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	return ok && cmp.Op.String() == "<" && Eq(e.Val(env, cmp.Y), lim)
}

var _ types.Type
