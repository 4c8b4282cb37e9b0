package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An abstract interpreter for the generators.
//
// The generators are read as SSA and evaluated over abstract values: integers
// are congruences a*q+c of one unknown q (so a position "8q+3" stands for every
// position with that residue), texts are sequences of known pieces and such
// integers, anything the analysis was not told about is an unknown. A branch on
// an unknown splits the state and both sides are analysed (trace
// partitioning); nothing of the tool is executed. The result is the text a
// generator emits for a whole class of schemas, which the target-text analysis
// (tl*.go) then evaluates over bit provenance.

type (
	aiNum   struct{ a, c int64 } // a*q + c; for unsigned types c holds the bit pattern
	aiNil   struct{}
	aiUnk   struct{ desc string }
	aiCell  struct{ v any }
	aiStr   = string
	aiObj   struct{ f []*aiCell } // struct or array value
	aiSlice struct {
		arr    []*aiCell
		lo, hi int
	}
	aiMapE struct{ k, v any }
	aiMap  struct {
		order []string
		m     map[string]*aiMapE
	}
	aiIface struct {
		t types.Type
		v any
	}
	aiFn struct {
		fn   *ssa.Function
		free []any
		nat  func(it *AI, args []any) any // a function of the standard library, modelled
		name string
	}
	aiTuple  []any
	aiNative struct {
		v any
	}
)

type aiStop struct{ msg string }

// AI is one abstract run (one element of the partition).
type AI struct {
	w       *World
	choices map[string]bool
	order   []string
	force   func(cond string) (bool, bool)
	globals map[*ssa.Global]*aiCell
	inited  map[*ssa.Package]bool
	unkMem  map[string]*aiCell
	native  map[*aiCell]*strings.Builder
	Files   []aiFile
	Printed []string
	steps   int
	depth   int
	where   []*ssa.Function
	qname   string
	shared  *aiShared
	preset  map[string]any
	Panics  []string
}

type aiFile struct{ Name, Text string }

type aiShared struct {
	tmpl map[string]any
}

func (w *World) newAI() *AI {
	return &AI{w: w, choices: map[string]bool{}, globals: map[*ssa.Global]*aiCell{}, inited: map[*ssa.Package]bool{},
		unkMem: map[string]*aiCell{}, native: map[*aiCell]*strings.Builder{}, shared: &aiShared{tmpl: map[string]any{}}, preset: map[string]any{}}
}

func (it *AI) stop(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	if len(it.where) > 0 {
		s += " in " + fnName(it.where[len(it.where)-1])
	}
	panic(aiStop{s})
}

// choose decides a branch on an unknown; the alternatives are explored by aiPaths.
func (it *AI) choose(cond string) bool {
	if it.force != nil {
		if b, ok := it.force(cond); ok {
			return b
		}
	}
	if b, ok := it.choices[cond]; ok {
		return b
	}
	it.choices[cond] = true
	it.order = append(it.order, cond)
	return true
}

// Outcome of one partition.
type aiOut struct {
	Conds []string // decisions taken, "!" prefixed when false
	Val   any
	Err   string // the analysis could not go on
	It    *AI
	Steps int
}

// aiPaths runs body under every partition its unknown branches ask for.
func (w *World) aiPaths(shared *aiShared, max int, body func(it *AI) any) []aiOut {
	var outs []aiOut
	type pre struct {
		order []string
		ch    map[string]bool
	}
	work := []pre{{}}
	for len(work) > 0 && len(outs) < max {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		it := w.newAI()
		if shared != nil {
			it.shared = shared
		}
		for k, v := range p.ch {
			it.choices[k] = v
		}
		n := len(p.order)
		it.order = append([]string{}, p.order...)
		var o aiOut
		func() {
			defer func() {
				if r := recover(); r != nil {
					if s, ok := r.(aiStop); ok {
						o.Err = s.msg
						return
					}
					panic(r)
				}
			}()
			o.Val = body(it)
		}()
		for i := len(it.order) - 1; i >= n; i-- {
			ch := map[string]bool{}
			for _, c := range it.order[:i] {
				ch[c] = it.choices[c]
			}
			ch[it.order[i]] = false
			work = append(work, pre{append([]string{}, it.order[:i+1]...), ch})
		}
		for _, c := range it.order {
			if it.choices[c] {
				o.Conds = append(o.Conds, c)
			} else {
				o.Conds = append(o.Conds, "!"+c)
			}
		}
		o.It = it
		o.Steps = it.steps
		outs = append(outs, o)
	}
	if len(work) > 0 {
		outs = append(outs, aiOut{Err: "too many partitions"})
	}
	return outs
}

// ---------------------------------------------------------------- values

func aiInt(n int64) aiNum { return aiNum{0, n} }

const qOpen, qClose = '\u27e6', '\u27e7'

// text of an integer; an unknown position becomes a bracketed hole.
func (n aiNum) text(signed bool) string {
	if n.a == 0 {
		if !signed {
			return fmt.Sprintf("%d", uint64(n.c))
		}
		return fmt.Sprintf("%d", n.c)
	}
	return fmt.Sprintf("%c%d,%d%c", qOpen, n.a, n.c, qClose)
}

func (it *AI) zero(t types.Type) any {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return aiNum{}
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsString != 0:
			return ""
		}
		return aiNil{}
	case *types.Struct:
		o := &aiObj{}
		for i := 0; i < u.NumFields(); i++ {
			o.f = append(o.f, &aiCell{it.zero(u.Field(i).Type())})
		}
		return o
	case *types.Array:
		o := &aiObj{}
		for i := int64(0); i < u.Len(); i++ {
			o.f = append(o.f, &aiCell{it.zero(u.Elem())})
		}
		return o
	case *types.Tuple:
		var tp aiTuple
		for i := 0; i < u.Len(); i++ {
			tp = append(tp, it.zero(u.At(i).Type()))
		}
		return tp
	}
	return aiNil{}
}

func copyVal(v any) any {
	if o, ok := v.(*aiObj); ok {
		n := &aiObj{f: make([]*aiCell, len(o.f))}
		for i, c := range o.f {
			n.f[i] = &aiCell{copyVal(c.v)}
		}
		return n
	}
	return v
}

// store keeps the identity of field cells, so addresses taken earlier stay valid.
func storeVal(c *aiCell, v any) {
	if o, ok := v.(*aiObj); ok {
		if d, ok := c.v.(*aiObj); ok && len(d.f) == len(o.f) {
			for i := range o.f {
				storeVal(d.f[i], o.f[i].v)
			}
			return
		}
		c.v = copyVal(o)
		return
	}
	c.v = v
}

func aiKey(v any) string {
	switch x := v.(type) {
	case aiNum:
		return fmt.Sprintf("n%d,%d", x.a, x.c)
	case string:
		return "s" + x
	case bool:
		return fmt.Sprintf("b%v", x)
	case float64:
		return fmt.Sprintf("f%v", x)
	case aiNil:
		return "nil"
	case *aiIface:
		return "i" + x.t.String() + aiKey(x.v)
	case *aiCell:
		return fmt.Sprintf("p%p", x)
	case *aiUnk:
		return "u" + x.desc
	case *aiObj:
		s := "o"
		for _, c := range x.f {
			s += "(" + aiKey(c.v) + ")"
		}
		return s
	}
	return fmt.Sprintf("%p", v)
}

func (it *AI) unk(format string, a ...any) *aiUnk {
	d := fmt.Sprintf(format, a...)
	if len(d) > 200 {
		d = d[:200]
	}
	return &aiUnk{d}
}

func descOf(v any) string {
	switch x := v.(type) {
	case *aiUnk:
		return x.desc
	case aiNum:
		return x.text(true)
	case string:
		return fmt.Sprintf("%q", x)
	case *aiIface:
		return descOf(x.v)
	case aiNil:
		return "nil"
	}
	return fmt.Sprintf("%v", v)
}

// ---------------------------------------------------------------- functions

func (it *AI) call(fn *ssa.Function, args []any, free []any) any {
	if nat := it.w.aiModel(fn); nat != nil {
		return nat(it, args)
	}
	if fn.Blocks == nil || !it.w.aiKnown(fn) {
		it.stop("no model of %s", fn.String())
	}
	it.depth++
	if it.depth > 400 {
		it.stop("recursion too deep")
	}
	it.where = append(it.where, fn)
	defer func() {
		it.depth--
		it.where = it.where[:len(it.where)-1]
	}()
	fr := &aiFrame{it: it, fn: fn, env: make(map[ssa.Value]any, 64)}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(free) {
			fr.env[f] = free[i]
		}
	}
	return fr.run()
}

// aiKnown: the body is part of the repository (or a wrapper made from it).
func (w *World) aiKnown(fn *ssa.Function) bool {
	if w.InRepo(fn) {
		return true
	}
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return strings.HasPrefix(o.Pkg.Pkg.Path(), modPath)
		}
		if ob := f.Object(); ob != nil && ob.Pkg() != nil {
			return strings.HasPrefix(ob.Pkg().Path(), modPath)
		}
	}
	return fn.Synthetic != ""
}

type aiFrame struct {
	it     *AI
	fn     *ssa.Function
	env    map[ssa.Value]any
	defers []func()
}

func (f *aiFrame) run() (res any) {
	it := f.it
	b := f.fn.Blocks[0]
	var prev *ssa.BasicBlock
	for {
		// phis in parallel
		var phis []any
		n := 0
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			n++
			for i, p := range b.Preds {
				if p == prev {
					phis = append(phis, f.get(phi.Edges[i]))
					break
				}
			}
		}
		for i := 0; i < n; i++ {
			f.env[b.Instrs[i].(*ssa.Phi)] = phis[i]
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs[n:] {
			it.steps++
			if it.steps > 40000000 {
				it.stop("too many steps")
			}
			switch x := in.(type) {
			case *ssa.If:
				c := f.get(x.Cond)
				t, ok := c.(bool)
				if !ok {
					t = it.choose(descOf(c))
				}
				if t {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				switch len(x.Results) {
				case 0:
					res = aiTuple{}
				case 1:
					res = f.get(x.Results[0])
				default:
					var tp aiTuple
					for _, r := range x.Results {
						tp = append(tp, f.get(r))
					}
					res = tp
				}
				return res
			case *ssa.Panic:
				v := f.get(x.X)
				it.Panics = append(it.Panics, it.fmtV(v))
				it.stop("panic %s", it.fmtV(v))
			case *ssa.RunDefers:
				for i := len(f.defers) - 1; i >= 0; i-- {
					f.defers[i]()
				}
				f.defers = nil
			default:
				f.exec(in)
			}
		}
		if next == nil {
			it.stop("no successor")
		}
		prev, b = b, next
	}
}

func (f *aiFrame) get(v ssa.Value) any {
	it := f.it
	switch x := v.(type) {
	case *ssa.Const:
		return it.constVal(x)
	case *ssa.Function:
		return &aiFn{fn: x}
	case *ssa.Global:
		return it.global(x)
	case *ssa.Builtin:
		return &aiFn{name: x.Name()}
	}
	r, ok := f.env[v]
	if !ok {
		it.stop("value %s not available", v.Name())
	}
	return r
}

func (it *AI) constVal(x *ssa.Const) any {
	if x.Value == nil {
		return it.zero(x.Type())
	}
	switch x.Value.Kind() {
	case constant.Bool:
		return constant.BoolVal(x.Value)
	case constant.String:
		return constant.StringVal(x.Value)
	case constant.Int, constant.Float:
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			fl, _ := constant.Float64Val(x.Value)
			return fl
		}
		iv := constant.ToInt(x.Value)
		if n, ok := constant.Int64Val(iv); ok {
			return aiNum{0, n}
		}
		if n, ok := constant.Uint64Val(iv); ok {
			return aiNum{0, int64(n)}
		}
	}
	it.stop("constant %s", x)
	return nil
}

func (it *AI) global(g *ssa.Global) *aiCell {
	if c, ok := it.globals[g]; ok {
		return c
	}
	p := g.Pkg
	if p != nil && strings.HasPrefix(p.Pkg.Path(), modPath) && !strings.Contains(p.Pkg.Path(), "/gen/parser") {
		it.initPkg(p)
		if c, ok := it.globals[g]; ok {
			return c
		}
	}
	c := &aiCell{}
	if p != nil && strings.HasPrefix(p.Pkg.Path(), modPath) {
		c.v = it.zero(g.Type().(*types.Pointer).Elem())
	} else {
		c.v = it.unk("%s", g.String())
	}
	it.globals[g] = c
	return c
}

func (it *AI) initPkg(p *ssa.Package) {
	if it.inited[p] {
		return
	}
	it.inited[p] = true
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, has := it.globals[g]; !has {
				it.globals[g] = &aiCell{it.zero(g.Type().(*types.Pointer).Elem())}
			}
		}
	}
	init := p.Func("init")
	if init != nil && init.Blocks != nil {
		it.call(init, nil, nil)
	}
}

func (f *aiFrame) exec(in ssa.Instruction) {
	it := f.it
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		f.env[x] = &aiCell{it.zero(x.Type().Underlying().(*types.Pointer).Elem())}
	case *ssa.Store:
		p := f.get(x.Addr)
		if c, ok := p.(*aiCell); ok {
			storeVal(c, f.get(x.Val))
		} else {
			it.stop("store through %s", descOf(p))
		}
	case *ssa.UnOp:
		f.env[x] = f.unop(x)
	case *ssa.BinOp:
		f.env[x] = it.binop(x.Op, f.get(x.X), f.get(x.Y), x.X.Type(), x.Y.Type())
	case *ssa.FieldAddr:
		f.env[x] = it.fieldAddr(f.get(x.X), x.Field, x.X.Type())
	case *ssa.Field:
		v := f.get(x.X)
		switch o := v.(type) {
		case *aiObj:
			f.env[x] = o.f[x.Field].v
		case *aiUnk:
			f.env[x] = it.unkField(o, x.Field, x.X.Type()).v
		default:
			it.stop("field of %s", descOf(v))
		}
	case *ssa.IndexAddr:
		v := f.get(x.X)
		i := it.concInt(f.get(x.Index))
		switch o := v.(type) {
		case *aiSlice:
			if i < 0 || o.lo+i >= o.hi {
				it.stop("index out of range")
			}
			f.env[x] = o.arr[o.lo+i]
		case *aiCell:
			ob, ok := o.v.(*aiObj)
			if !ok || i < 0 || i >= len(ob.f) {
				it.stop("index out of range")
			}
			f.env[x] = ob.f[i]
		default:
			it.stop("index of %s", descOf(v))
		}
	case *ssa.Index:
		v := f.get(x.X)
		i := it.concInt(f.get(x.Index))
		switch o := v.(type) {
		case *aiObj:
			f.env[x] = o.f[i].v
		case string:
			if i < 0 || i >= len(o) {
				it.stop("index out of range")
			}
			f.env[x] = aiInt(int64(o[i]))
		default:
			it.stop("index of %s", descOf(v))
		}
	case *ssa.Lookup:
		f.env[x] = f.lookup(x)
	case *ssa.MapUpdate:
		m, ok := f.get(x.Map).(*aiMap)
		if !ok {
			it.stop("assignment to an unknown map")
		}
		m.put(f.get(x.Key), copyVal(f.get(x.Value)))
	case *ssa.MakeMap:
		f.env[x] = &aiMap{m: map[string]*aiMapE{}}
	case *ssa.MakeSlice:
		n := it.concInt(f.get(x.Len))
		c := it.concInt(f.get(x.Cap))
		s := &aiSlice{lo: 0, hi: n}
		el := x.Type().Underlying().(*types.Slice).Elem()
		for i := 0; i < c; i++ {
			s.arr = append(s.arr, &aiCell{it.zero(el)})
		}
		f.env[x] = s
	case *ssa.MakeClosure:
		var fr []any
		for _, b := range x.Bindings {
			fr = append(fr, f.get(b))
		}
		f.env[x] = &aiFn{fn: x.Fn.(*ssa.Function), free: fr}
	case *ssa.MakeInterface:
		v := f.get(x.X)
		f.env[x] = &aiIface{x.X.Type(), copyVal(v)}
	case *ssa.ChangeInterface:
		f.env[x] = f.get(x.X)
	case *ssa.ChangeType:
		f.env[x] = f.get(x.X)
	case *ssa.Convert:
		f.env[x] = it.convert(f.get(x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		f.env[x] = it.convert(f.get(x.X), x.X.Type(), x.Type())
	case *ssa.TypeAssert:
		f.env[x] = f.typeAssert(x)
	case *ssa.Extract:
		v := f.get(x.Tuple)
		switch t := v.(type) {
		case aiTuple:
			f.env[x] = t[x.Index]
		case *aiUnk:
			f.env[x] = it.unk("%s#%d", t.desc, x.Index)
		default:
			it.stop("extract of %s", descOf(v))
		}
	case *ssa.Slice:
		f.env[x] = f.slice(x)
	case *ssa.Range:
		f.env[x] = it.rangeOf(f.get(x.X))
	case *ssa.Next:
		r := f.get(x.Iter).(*aiRange)
		if r.i >= len(r.k) {
			f.env[x] = aiTuple{false, it.zero(types.Typ[types.Int]), it.zero(types.Typ[types.Int])}
		} else {
			f.env[x] = aiTuple{true, r.k[r.i], r.v[r.i]}
			r.i++
		}
	case *ssa.Call:
		f.env[x] = f.doCall(&x.Call, x)
	case *ssa.Defer:
		c := x.Call
		args := f.callArgs(&c)
		f.defers = append(f.defers, func() { f.callWith(&c, args) })
	case *ssa.SliceToArrayPointer:
		it.stop("slice to array")
	default:
		it.stop("instruction %T", in)
	}
}

type aiRange struct {
	k, v []any
	i    int
}

func (it *AI) rangeOf(v any) *aiRange {
	r := &aiRange{}
	switch x := v.(type) {
	case *aiMap:
		for _, k := range x.order {
			e := x.m[k]
			r.k = append(r.k, e.k)
			r.v = append(r.v, e.v)
		}
	case string:
		for i, c := range x {
			r.k = append(r.k, aiInt(int64(i)))
			r.v = append(r.v, aiInt(int64(c)))
		}
	case aiNil:
	default:
		it.stop("range over %s", descOf(v))
	}
	return r
}

func (m *aiMap) put(k, v any) {
	s := aiKey(k)
	if e, ok := m.m[s]; ok {
		e.v = v
		return
	}
	m.m[s] = &aiMapE{k, v}
	m.order = append(m.order, s)
}

func (m *aiMap) del(k any) {
	s := aiKey(k)
	if _, ok := m.m[s]; !ok {
		return
	}
	delete(m.m, s)
	for i, o := range m.order {
		if o == s {
			m.order = append(m.order[:i:i], m.order[i+1:]...)
			break
		}
	}
}

func (it *AI) concInt(v any) int {
	if n, ok := v.(aiNum); ok && n.a == 0 {
		return int(n.c)
	}
	it.stop("index or length %s is not known", descOf(v))
	return 0
}

func (f *aiFrame) lookup(x *ssa.Lookup) any {
	it := f.it
	m := f.get(x.X)
	k := f.get(x.Index)
	var el types.Type
	if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
		el = mt.Elem()
	}
	var v any
	ok := false
	switch mm := m.(type) {
	case *aiMap:
		if e, has := mm.m[aiKey(k)]; has {
			v, ok = copyVal(e.v), true
		}
	case string:
		i := it.concInt(k)
		if i < 0 || i >= len(mm) {
			it.stop("index out of range")
		}
		return aiInt(int64(mm[i]))
	case aiNil:
	case *aiUnk:
		v, ok = it.unk("%s[%s]", mm.desc, descOf(k)), true
	default:
		it.stop("lookup in %s", descOf(m))
	}
	if !ok {
		v = it.zero(el)
	}
	if x.CommaOk {
		return aiTuple{v, ok}
	}
	return v
}

func (it *AI) fieldAddr(p any, field int, pt types.Type) *aiCell {
	switch c := p.(type) {
	case *aiCell:
		switch o := c.v.(type) {
		case *aiObj:
			return o.f[field]
		case *aiUnk:
			return it.unkField(o, field, pt)
		}
		it.stop("field of %s", descOf(c.v))
	case *aiUnk:
		return it.unkField(c, field, pt)
	case aiNil:
		it.Panics = append(it.Panics, "nil dereference")
		it.stop("panic: nil dereference")
	}
	it.stop("field of %s", descOf(p))
	return nil
}

func (it *AI) unkField(u *aiUnk, field int, t types.Type) *aiCell {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st := t.Underlying().(*types.Struct)
	d := u.desc + "." + st.Field(field).Name()
	if c, ok := it.unkMem[d]; ok {
		return c
	}
	c := &aiCell{&aiUnk{d}}
	if v, ok := it.preset[d]; ok {
		c.v = v
	}
	it.unkMem[d] = c
	return c
}

func (f *aiFrame) unop(x *ssa.UnOp) any {
	it := f.it
	v := f.get(x.X)
	switch x.Op {
	case token.MUL:
		switch c := v.(type) {
		case *aiCell:
			return copyVal(c.v)
		case *aiUnk:
			d := "*" + c.desc
			if m, ok := it.unkMem[d]; ok {
				return copyVal(m.v)
			}
			return &aiUnk{c.desc}
		case aiNil:
			it.Panics = append(it.Panics, "nil dereference")
			it.stop("panic: nil dereference")
		}
		it.stop("load through %s", descOf(v))
	case token.NOT:
		switch b := v.(type) {
		case bool:
			return !b
		case *aiUnk:
			return !it.choose(b.desc)
		}
	case token.SUB:
		switch n := v.(type) {
		case aiNum:
			return it.wrap(aiNum{-n.a, -n.c}, x.Type())
		case float64:
			return -n
		}
	case token.XOR:
		if n, ok := v.(aiNum); ok && n.a == 0 {
			return it.wrap(aiNum{0, ^n.c}, x.Type())
		}
	}
	if u, ok := v.(*aiUnk); ok {
		return it.unk("%s(%s)", x.Op, u.desc)
	}
	it.stop("operator %s on %s", x.Op, descOf(v))
	return nil
}

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func unsignedT(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsUnsigned != 0
}

func widthT(t types.Type) int {
	if b := basicOf(t); b != nil {
		switch b.Kind() {
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32:
			return 32
		}
	}
	return 64
}

func (it *AI) wrap(n aiNum, t types.Type) aiNum {
	if n.a != 0 {
		return n
	}
	w := widthT(t)
	if w == 64 {
		return n
	}
	if unsignedT(t) {
		n.c &= int64(1)<<w - 1
	} else {
		n.c = n.c << (64 - w) >> (64 - w)
	}
	return n
}

func (it *AI) binop(op token.Token, a, b any, ta, tb types.Type) any {
	// interface comparisons
	if op == token.EQL || op == token.NEQ {
		r := it.equal(a, b)
		if bv, ok := r.(bool); ok {
			return bv == (op == token.EQL)
		}
		u := r.(*aiUnk)
		if op == token.NEQ {
			return !it.choose(u.desc)
		}
		return u
	}
	switch x := a.(type) {
	case aiNum:
		if y, ok := b.(aiNum); ok {
			return it.numop(op, x, y, ta, tb)
		}
	case string:
		if y, ok := b.(string); ok {
			switch op {
			case token.ADD:
				return x + y
			case token.LSS:
				return x < y
			case token.GTR:
				return x > y
			case token.LEQ:
				return x <= y
			case token.GEQ:
				return x >= y
			}
		}
	case float64:
		if y, ok := b.(float64); ok {
			switch op {
			case token.ADD:
				return x + y
			case token.SUB:
				return x - y
			case token.MUL:
				return x * y
			case token.QUO:
				return x / y
			case token.LSS:
				return x < y
			case token.GTR:
				return x > y
			case token.LEQ:
				return x <= y
			case token.GEQ:
				return x >= y
			}
		}
	case bool:
		if y, ok := b.(bool); ok {
			switch op {
			case token.LAND, token.AND:
				return x && y
			case token.LOR, token.OR:
				return x || y
			}
		}
	}
	return it.unk("(%s %s %s)", descOf(a), op, descOf(b))
}

// aiFar: the two positions are far apart for every q the analysis stands for
// (q is any number of at least 2^12; positions near zero are analysed with
// plain constants).
func aiFar(x, y aiNum) bool {
	d := aiNum{x.a - y.a, x.c - y.c}
	abs := func(n int64) int64 {
		if n < 0 {
			return -n
		}
		return n
	}
	return d.a != 0 && abs(d.c) < 4096
}

func (it *AI) equal(a, b any) any {
	if ai, ok := a.(*aiIface); ok {
		if bi, ok := b.(*aiIface); ok {
			if !types.Identical(ai.t, bi.t) {
				return false
			}
			return it.equal(ai.v, bi.v)
		}
	}
	_, an := a.(aiNil)
	_, bn := b.(aiNil)
	if an && bn {
		return true
	}
	if an || bn {
		o := a
		if an {
			o = b
		}
		if u, ok := o.(*aiUnk); ok {
			return &aiUnk{"(" + u.desc + " == nil)"}
		}
		return false
	}
	if u, ok := a.(*aiUnk); ok {
		if v, ok := b.(*aiUnk); ok && u.desc == v.desc {
			return true
		}
		return &aiUnk{"(" + u.desc + " == " + descOf(b) + ")"}
	}
	if u, ok := b.(*aiUnk); ok {
		return &aiUnk{"(" + u.desc + " == " + descOf(a) + ")"}
	}
	if x, ok := a.(aiNum); ok {
		if y, ok := b.(aiNum); ok {
			if x.a == y.a {
				return x.c == y.c
			}
			if aiFar(x, y) {
				return false
			}
			return it.unk("(%s == %s)", descOf(a), descOf(b))
		}
	}
	switch a.(type) {
	case *aiCell, *aiSlice, *aiMap, *aiFn:
		return a == b
	}
	return aiKey(a) == aiKey(b)
}

func (it *AI) numop(op token.Token, x, y aiNum, ta, tb types.Type) any {
	uns := unsignedT(ta)
	if x.a == 0 && y.a == 0 {
		return it.concop(op, x.c, y.c, ta, uns)
	}
	fail := func() any { return it.unk("(%s %s %s)", descOf(x), op, descOf(y)) }
	switch op {
	case token.ADD:
		return aiNum{x.a + y.a, x.c + y.c}
	case token.SUB:
		return aiNum{x.a - y.a, x.c - y.c}
	case token.MUL:
		if y.a == 0 {
			return aiNum{x.a * y.c, x.c * y.c}
		}
		if x.a == 0 {
			return aiNum{y.a * x.c, y.c * x.c}
		}
	case token.QUO:
		if y.a == 0 && y.c > 0 && x.a%y.c == 0 && x.c >= 0 {
			return aiNum{x.a / y.c, x.c / y.c}
		}
	case token.REM:
		if y.a == 0 && y.c > 0 && x.a%y.c == 0 && x.c >= 0 {
			return aiNum{0, x.c % y.c}
		}
	case token.SHR:
		if y.a == 0 && y.c >= 0 && y.c < 62 && x.a%(1<<y.c) == 0 && x.c >= 0 {
			return aiNum{x.a >> y.c, x.c >> y.c}
		}
	case token.SHL:
		if y.a == 0 && y.c >= 0 && y.c < 32 {
			return aiNum{x.a << y.c, x.c << y.c}
		}
	case token.AND:
		if x.a == 0 {
			x, y = y, x
		}
		if y.a == 0 {
			// x & (2^k-1), and x & ^(2^k-1)
			if m := y.c; m >= 0 && m&(m+1) == 0 && x.a%(m+1) == 0 {
				return aiNum{0, x.c & m}
			}
			if m := ^y.c; m >= 0 && m&(m+1) == 0 && x.a%(m+1) == 0 {
				return aiNum{x.a, x.c &^ m}
			}
		}
	case token.AND_NOT:
		if y.a == 0 {
			if m := y.c; m >= 0 && m&(m+1) == 0 && x.a%(m+1) == 0 {
				return aiNum{x.a, x.c &^ m}
			}
		}
	case token.OR:
		if x.a == 0 {
			x, y = y, x
		}
		if y.a == 0 && y.c >= 0 {
			m := int64(1)
			for m <= y.c {
				m <<= 1
			}
			if x.a%m == 0 && x.c >= 0 {
				return aiNum{x.a, x.c | y.c}
			}
		}
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		// q is any non-negative number
		d := aiNum{x.a - y.a, x.c - y.c}
		if d.a == 0 {
			return it.concop(op, d.c, 0, types.Typ[types.Int64], false)
		}
		switch {
		case d.a > 0 && d.c > 0: // x > y
			return op == token.GTR || op == token.GEQ
		case d.a > 0 && d.c == 0 && (op == token.GEQ || op == token.LSS): // x >= y
			return op == token.GEQ
		case d.a < 0 && d.c < 0:
			return op == token.LSS || op == token.LEQ
		case d.a < 0 && d.c == 0 && (op == token.LEQ || op == token.GTR):
			return op == token.LEQ
		case aiFar(x, y):
			return (op == token.GTR || op == token.GEQ) == (d.a > 0)
		}
	}
	return fail()
}

func (it *AI) concop(op token.Token, x, y int64, t types.Type, uns bool) any {
	n := func(v int64) any { return it.wrap(aiNum{0, v}, t) }
	switch op {
	case token.ADD:
		return n(x + y)
	case token.SUB:
		return n(x - y)
	case token.MUL:
		return n(x * y)
	case token.QUO, token.REM:
		if y == 0 {
			it.Panics = append(it.Panics, "division by zero")
			it.stop("panic: division by zero")
		}
		if uns {
			if op == token.QUO {
				return n(int64(uint64(x) / uint64(y)))
			}
			return n(int64(uint64(x) % uint64(y)))
		}
		if op == token.QUO {
			return n(x / y)
		}
		return n(x % y)
	case token.AND:
		return n(x & y)
	case token.OR:
		return n(x | y)
	case token.XOR:
		return n(x ^ y)
	case token.AND_NOT:
		return n(x &^ y)
	case token.SHL:
		if uint64(y) > 63 {
			return n(0)
		}
		return n(x << uint(y))
	case token.SHR:
		if uint64(y) > 63 {
			y = 63
			if uns {
				return n(0)
			}
		}
		if uns {
			return n(int64(uint64(x) >> uint(y)))
		}
		return n(x >> uint(y))
	case token.LSS:
		if uns {
			return uint64(x) < uint64(y)
		}
		return x < y
	case token.LEQ:
		if uns {
			return uint64(x) <= uint64(y)
		}
		return x <= y
	case token.GTR:
		if uns {
			return uint64(x) > uint64(y)
		}
		return x > y
	case token.GEQ:
		if uns {
			return uint64(x) >= uint64(y)
		}
		return x >= y
	}
	it.stop("operator %s", op)
	return nil
}

func (it *AI) convert(v any, from, to types.Type) any {
	fb, tb := basicOf(from), basicOf(to)
	switch x := v.(type) {
	case aiNum:
		if tb != nil {
			switch {
			case tb.Info()&types.IsInteger != 0:
				return it.wrap(x, to)
			case tb.Info()&types.IsFloat != 0 && x.a == 0:
				if unsignedT(from) {
					return float64(uint64(x.c))
				}
				return float64(x.c)
			case tb.Info()&types.IsString != 0 && x.a == 0:
				return string(rune(x.c))
			}
		}
	case float64:
		if tb != nil && tb.Info()&types.IsFloat != 0 {
			if tb.Kind() == types.Float32 {
				return float64(float32(x))
			}
			return x
		}
		if tb != nil && tb.Info()&types.IsInteger != 0 {
			if unsignedT(to) {
				return it.wrap(aiNum{0, int64(uint64(x))}, to)
			}
			return it.wrap(aiNum{0, int64(x)}, to)
		}
	case string:
		if tb != nil {
			return x
		}
		if sl, ok := to.Underlying().(*types.Slice); ok {
			s := &aiSlice{}
			if b := basicOf(sl.Elem()); b != nil && b.Kind() == types.Int32 {
				for _, c := range x {
					s.arr = append(s.arr, &aiCell{aiInt(int64(c))})
				}
			} else {
				for i := 0; i < len(x); i++ {
					s.arr = append(s.arr, &aiCell{aiInt(int64(x[i]))})
				}
			}
			s.hi = len(s.arr)
			return s
		}
	case *aiSlice:
		if tb != nil && tb.Info()&types.IsString != 0 {
			var sb strings.Builder
			rune32 := false
			if sl, ok := from.Underlying().(*types.Slice); ok {
				if b := basicOf(sl.Elem()); b != nil && b.Kind() == types.Int32 {
					rune32 = true
				}
			}
			for _, c := range x.arr[x.lo:x.hi] {
				n := it.concInt(c.v)
				if rune32 {
					sb.WriteRune(rune(n))
				} else {
					sb.WriteByte(byte(n))
				}
			}
			return sb.String()
		}
		return x
	case *aiUnk:
		return it.unk("%s(%s)", to.String(), x.desc)
	}
	if fb == nil && tb == nil {
		return v
	}
	it.stop("conversion of %s to %s", descOf(v), to)
	return nil
}

func (it *AI) implements(t types.Type, iface *types.Interface) bool {
	return types.Implements(t, iface)
}

func (f *aiFrame) typeAssert(x *ssa.TypeAssert) any {
	it := f.it
	v := f.get(x.X)
	ok := false
	var r any
	switch i := v.(type) {
	case *aiIface:
		if it2, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok = it.implements(i.t, it2)
			r = i
		} else {
			ok = types.Identical(i.t, x.AssertedType)
			r = i.v
		}
	case aiNil:
	case *aiUnk:
		ok = it.choose("is " + x.AssertedType.String() + "(" + i.desc + ")")
		r = i
	default:
		it.stop("type assertion on %s", descOf(v))
	}
	if !ok {
		r = it.zero(x.AssertedType)
	}
	if x.CommaOk {
		return aiTuple{r, ok}
	}
	if !ok {
		it.Panics = append(it.Panics, "type assertion")
		it.stop("panic: type assertion to %s fails", x.AssertedType)
	}
	return r
}

func (f *aiFrame) slice(x *ssa.Slice) any {
	it := f.it
	v := f.get(x.X)
	idx := func(e ssa.Value, d int) int {
		if e == nil {
			return d
		}
		return it.concInt(f.get(e))
	}
	switch s := v.(type) {
	case string:
		lo := idx(x.Low, 0)
		hi := idx(x.High, len(s))
		if lo < 0 || hi > len(s) || lo > hi {
			it.stop("panic: slice out of range")
		}
		return s[lo:hi]
	case *aiSlice:
		lo := idx(x.Low, 0)
		hi := idx(x.High, s.hi-s.lo)
		if lo < 0 || lo > hi || s.lo+hi > len(s.arr) {
			it.stop("panic: slice out of range")
		}
		return &aiSlice{s.arr, s.lo + lo, s.lo + hi}
	case *aiCell:
		if o, ok := s.v.(*aiObj); ok {
			lo := idx(x.Low, 0)
			hi := idx(x.High, len(o.f))
			return &aiSlice{o.f, lo, hi}
		}
	case aiNil:
		return v
	}
	it.stop("slice of %s", descOf(v))
	return nil
}

// ---------------------------------------------------------------- calls

func (f *aiFrame) callArgs(c *ssa.CallCommon) []any {
	var args []any
	if c.IsInvoke() {
		args = append(args, f.get(c.Value))
	} else {
		args = append(args, f.get(c.Value))
	}
	for _, a := range c.Args {
		args = append(args, f.get(a))
	}
	return args
}

func (f *aiFrame) doCall(c *ssa.CallCommon, at ssa.Value) any {
	return f.callWith(c, f.callArgs(c))
}

func (f *aiFrame) callWith(c *ssa.CallCommon, args []any) any {
	it := f.it
	if c.IsInvoke() {
		return it.invoke(args[0], c.Method, args[1:])
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return f.builtin(b.Name(), args[1:], c)
	}
	return it.callFn(args[0], args[1:])
}

func (it *AI) callFn(fv any, args []any) any {
	switch fn := fv.(type) {
	case *aiFn:
		if fn.nat != nil {
			return fn.nat(it, args)
		}
		return it.call(fn.fn, args, fn.free)
	case *aiUnk:
		return it.unk("%s(…)", fn.desc)
	case *aiIface:
		return it.callFn(fn.v, args)
	}
	it.stop("call of %s", descOf(fv))
	return nil
}

func (it *AI) invoke(recv any, m *types.Func, args []any) any {
	switch r := recv.(type) {
	case *aiIface:
		if nv, ok := r.v.(*aiNative); ok {
			return it.nativeMethod(nv, m.Name(), args)
		}
		if _, isI := r.t.Underlying().(*types.Interface); isI {
			return it.invoke(r.v, m, args)
		}
		fn := it.w.Prog.LookupMethod(r.t, m.Pkg(), m.Name())
		if fn == nil {
			it.stop("no method %s on %s", m.Name(), r.t)
		}
		return it.call(fn, append([]any{r.v}, args...), nil)
	case *aiUnk:
		d := r.desc + "." + m.Name() + "("
		for i, a := range args {
			if i > 0 {
				d += ","
			}
			d += descOf(a)
		}
		d += ")"
		if v, ok := it.preset[d]; ok {
			return v
		}
		return it.unk("%s", d)
	case aiNil:
		it.Panics = append(it.Panics, "nil dereference")
		it.stop("panic: method %s of nil", m.Name())
	}
	it.stop("method %s of %s", m.Name(), descOf(recv))
	return nil
}

func (f *aiFrame) builtin(name string, args []any, c *ssa.CallCommon) any {
	it := f.it
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case string:
			return aiInt(int64(len(x)))
		case *aiSlice:
			if name == "cap" {
				return aiInt(int64(len(x.arr) - x.lo))
			}
			return aiInt(int64(x.hi - x.lo))
		case *aiMap:
			return aiInt(int64(len(x.m)))
		case *aiObj:
			return aiInt(int64(len(x.f)))
		case aiNil:
			return aiInt(0)
		case *aiUnk:
			return it.unk("len(%s)", x.desc)
		}
	case "append":
		var add []*aiCell
		switch y := args[1].(type) {
		case *aiSlice:
			for _, cc := range y.arr[y.lo:y.hi] {
				add = append(add, &aiCell{copyVal(cc.v)})
			}
		case aiNil:
		case string:
			for i := 0; i < len(y); i++ {
				add = append(add, &aiCell{aiInt(int64(y[i]))})
			}
		default:
			it.stop("append of %s", descOf(y))
		}
		switch x := args[0].(type) {
		case aiNil:
			if len(add) == 0 {
				return x
			}
			return &aiSlice{add, 0, len(add)}
		case *aiSlice:
			if x.hi+len(add) <= len(x.arr) && x.hi < len(x.arr) {
				for i, cc := range add {
					storeVal(x.arr[x.hi+i], cc.v)
				}
				return &aiSlice{x.arr, x.lo, x.hi + len(add)}
			}
			arr := make([]*aiCell, 0, x.hi-x.lo+len(add))
			for _, cc := range x.arr[x.lo:x.hi] {
				arr = append(arr, &aiCell{copyVal(cc.v)})
			}
			arr = append(arr, add...)
			return &aiSlice{arr, 0, len(arr)}
		}
	case "copy":
		d, ok := args[0].(*aiSlice)
		if !ok {
			return aiInt(0)
		}
		n := 0
		if s, ok := args[1].(*aiSlice); ok {
			var tmp []any
			for _, cc := range s.arr[s.lo:s.hi] {
				tmp = append(tmp, copyVal(cc.v))
			}
			for n < len(tmp) && d.lo+n < d.hi {
				storeVal(d.arr[d.lo+n], tmp[n])
				n++
			}
		}
		return aiInt(int64(n))
	case "delete":
		if m, ok := args[0].(*aiMap); ok {
			m.del(args[1])
		}
		return aiTuple{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, ok1 := r.(aiNum)
			y, ok2 := a.(aiNum)
			if !ok1 || !ok2 {
				it.stop("%s of unknowns", name)
			}
			lt := it.binop(token.LSS, x, y, c.Args[0].Type(), c.Args[0].Type())
			b, ok := lt.(bool)
			if !ok {
				b = it.choose(descOf(lt))
			}
			if b != (name == "min") {
				r = y
			}
		}
		return r
	case "ssa:wrapnilchk":
		return args[0]
	case "clear":
		if m, ok := args[0].(*aiMap); ok {
			m.m = map[string]*aiMapE{}
			m.order = nil
		}
		return aiTuple{}
	case "recover":
		return aiNil{}
	case "print", "println":
		return aiTuple{}
	}
	it.stop("builtin %s on %s", name, descOf(args[0]))
	return nil
}

// ---------------------------------------------------------------- formatting

// method looks a method without parameters up on a dynamic type.
func (it *AI) methodOf(t types.Type, name string) *ssa.Function {
	ms := it.w.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			return it.w.Prog.MethodValue(s)
		}
	}
	return nil
}

// stringer renders a value the way fmt does when it has Error or String.
func (it *AI) stringer(i *aiIface) (string, bool) {
	for _, n := range []string{"Error", "String"} {
		fn := it.methodOf(i.t, n)
		if fn == nil {
			continue
		}
		sg := fn.Signature
		if sg.Params().Len() != 0 || sg.Results().Len() != 1 {
			continue
		}
		if _, isNil := i.v.(aiNil); isNil {
			return "<nil>", true
		}
		if _, isPtr := i.t.Underlying().(*types.Pointer); isPtr {
			if _, ok := i.v.(*aiUnk); ok {
				return "⟪" + descOf(i.v) + "⟫", true
			}
		}
		r := it.call(fn, []any{i.v}, nil)
		return it.fmtV(r), true
	}
	return "", false
}

func (it *AI) fmtV(v any) string {
	switch x := v.(type) {
	case *aiIface:
		if nv, ok := x.v.(*aiNative); ok {
			if e, ok := nv.v.(*aiErr); ok {
				return e.msg
			}
			return "native"
		}
		if s, ok := it.stringer(x); ok {
			return s
		}
		return it.fmtT(x.v, x.t)
	case aiNum:
		return x.text(true)
	case string:
		return x
	case aiNil:
		return "<nil>"
	case *aiUnk:
		return "⟪" + x.desc + "⟫"
	}
	return it.fmtT(v, nil)
}

func (it *AI) fmtT(v any, t types.Type) string {
	switch x := v.(type) {
	case aiNum:
		return x.text(t == nil || !unsignedT(t))
	case string:
		return x
	case bool:
		return fmt.Sprint(x)
	case float64:
		return fmt.Sprint(x)
	case aiNil:
		return "<nil>"
	case *aiUnk:
		return "⟪" + x.desc + "⟫"
	case *aiSlice:
		var el types.Type
		if t != nil {
			if s, ok := t.Underlying().(*types.Slice); ok {
				el = s.Elem()
			}
		}
		var ps []string
		for _, c := range x.arr[x.lo:x.hi] {
			if el != nil {
				ps = append(ps, it.fmtV(it.box(c.v, el)))
			} else {
				ps = append(ps, it.fmtV(c.v))
			}
		}
		return "[" + strings.Join(ps, " ") + "]"
	}
	return fmt.Sprintf("⟪%T⟫", v)
}

// box puts a value into an interface (unless it already is one).
func (it *AI) box(v any, t types.Type) any {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	if _, ok := v.(*aiIface); ok {
		return v
	}
	return &aiIface{t, v}
}

func (it *AI) sprintf(format string, args []any) string {
	var sb strings.Builder
	n := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			sb.WriteByte(c)
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			sb.WriteString("%!(NOVERB)")
			break
		}
		verb := format[j]
		spec := format[i : j+1]
		i = j
		if verb == '%' {
			sb.WriteByte('%')
			continue
		}
		if n >= len(args) {
			sb.WriteString("%!" + string(verb) + "(MISSING)")
			continue
		}
		sb.WriteString(it.fmtArg(spec, verb, args[n]))
		n++
	}
	if n < len(args) {
		sb.WriteString("%!(EXTRA)")
	}
	return sb.String()
}

func (it *AI) fmtArg(spec string, verb byte, a any) string {
	i, ok := a.(*aiIface)
	if !ok {
		switch verb {
		case 'T':
			return descOf(a)
		}
		if _, ok := a.(aiNil); ok {
			return "<nil>"
		}
		return it.fmtV(a)
	}
	switch verb {
	case 'T':
		return strings.ReplaceAll(i.t.String(), modPath+"/", "")
	case 'v', 's', 'q':
		s := it.fmtV(i)
		if verb == 'q' {
			return fmt.Sprintf("%q", s)
		}
		if verb == 's' {
			if _, isNum := i.v.(aiNum); isNum && it.methodOf(i.t, "String") == nil {
				return "%!s(" + i.t.String() + "=" + s + ")"
			}
		}
		return fmt.Sprintf(spec[:len(spec)-1]+"s", s)
	}
	switch x := i.v.(type) {
	case aiNum:
		if x.a != 0 {
			if verb == 'd' && spec == "%d" {
				return x.text(true)
			}
			return "⟪" + spec + " of a position⟫"
		}
		if verb == 't' || verb == 'f' || verb == 'g' || verb == 'e' {
			return "%!" + string(verb) + "(int)"
		}
		if unsignedT(i.t) {
			return fmt.Sprintf(spec, uint64(x.c))
		}
		return fmt.Sprintf(spec, x.c)
	case float64:
		return fmt.Sprintf(spec, x)
	case bool:
		return fmt.Sprintf(spec, x)
	case string:
		return fmt.Sprintf(spec, x)
	}
	return "⟪" + descOf(i.v) + "⟫"
}

func (it *AI) sliceOf(v any) []any {
	switch s := v.(type) {
	case *aiSlice:
		var r []any
		for _, c := range s.arr[s.lo:s.hi] {
			r = append(r, c.v)
		}
		return r
	case aiNil:
		return nil
	}
	it.stop("list expected, found %s", descOf(v))
	return nil
}

func (it *AI) strSlice(ss []string) *aiSlice {
	s := &aiSlice{}
	for _, x := range ss {
		s.arr = append(s.arr, &aiCell{x})
	}
	s.hi = len(s.arr)
	return s
}

var tmOps = [4]token.Token{token.LSS, token.LEQ, token.GTR, token.GEQ}
var _ = sort.Strings
var _ = math.Pow
