package main

// Model of the code templates: every ExecuteTemplate call with the template
// text, the definitions it can execute and the values it supplies, and a type
// checker that follows every template action.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

// TT is the set of things a template value may be.
type TT struct {
	Types   []types.Type
	Dict    map[string]*TT // a dict built in a template or a Go map literal
	Unknown bool
	Const   *X // value expression, when known
}

func ttOf(t types.Type) *TT { return &TT{Types: []types.Type{t}} }

func ttJoin(a, b *TT) *TT {
	if a == nil {
		return b
	}
	if b == nil || a == b {
		return a
	}
	r := &TT{Unknown: a.Unknown || b.Unknown}
	seen := map[string]bool{}
	for _, t := range append(append([]types.Type{}, a.Types...), b.Types...) {
		if k := t.String(); !seen[k] {
			seen[k] = true
			r.Types = append(r.Types, t)
		}
	}
	if a.Dict != nil || b.Dict != nil {
		r.Dict = map[string]*TT{}
		for _, d := range []map[string]*TT{a.Dict, b.Dict} {
			for k, v := range d {
				r.Dict[k] = ttJoin(r.Dict[k], v)
			}
		}
		if a.Dict != nil && b.Dict != nil {
			for k := range r.Dict {
				if (a.Dict[k] == nil) != (b.Dict[k] == nil) && !strings.HasPrefix(k, "?") {
					r.Dict["?"+k] = &TT{}
				}
			}
		}
	}
	return r
}

type TmplSite struct {
	Call     *ssa.Call // the ExecuteTemplate call
	Fn       *ssa.Function
	Key      string   // name of the template variable
	Text     string   // template text
	Names    []string // definitions that may be executed
	NamesAll bool     // every possible name is known
	Root     *TT      // what dot is
	Missing  map[string]bool
	Funcs    map[string]*ssa.Function // extra functions
	FuncSigs map[string]*types.Signature
	DataEnv  *Env
	DataMap  map[string]*X // values by key, for keys with one value
	Env      *Env
}

// funcs ExecuteTemplate itself adds are read from its source.
func (w *World) templateBaseFuncs() map[string]*types.Signature {
	out := map[string]*types.Signature{}
	fn := w.Fn("util", "", "ExecuteTemplate")
	if fn == nil {
		return out
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			mu, ok := i.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			if k, ok := constString(mu.Key); ok {
				v := unwrapIface(mu.Value)
				if s, ok := v.Type().Underlying().(*types.Signature); ok {
					out[k] = s
				}
			}
		}
	}
	return out
}

var builtinTmplFuncs = map[string]types.Type{
	"and": nil, "or": nil, "not": types.Typ[types.Bool], "len": types.Typ[types.Int], "index": nil, "slice": nil,
	"print": types.Typ[types.String], "printf": types.Typ[types.String], "println": types.Typ[types.String],
	"html": types.Typ[types.String], "js": types.Typ[types.String], "urlquery": types.Typ[types.String], "call": nil,
	"eq": types.Typ[types.Bool], "ge": types.Typ[types.Bool], "gt": types.Typ[types.Bool], "le": types.Typ[types.Bool],
	"lt": types.Typ[types.Bool], "ne": types.Typ[types.Bool],
}

// TmplSites finds every rendering of a template.
func (w *World) TmplSites() []*TmplSite {
	if w.tm != nil {
		return w.tm.([]*TmplSite)
	}
	ex := w.Fn("util", "", "ExecuteTemplate")
	var out []*TmplSite
	if ex == nil {
		return nil
	}
	e := w.vx
	for _, ci := range w.callersOf()[ex] {
		call, ok := ci.(*ssa.Call)
		if !ok {
			continue
		}
		for _, env := range w.envsFor(call.Parent(), call.Call.Args, 0) {
			s := &TmplSite{Call: call, Fn: call.Parent(), Env: env}
			tx := e.Val(env, call.Call.Args[0])
			switch tx.Op {
			case "global":
				s.Key = tx.Lit
				if g, ok := tx.V.(*ssa.Global); ok {
					if gx := e.GlobalVal(g); gx != nil && gx.Op == "str" {
						s.Text = gx.Lit
					}
				}
			case "str":
				s.Key = "const in " + fnName(call.Parent())
				s.Text = tx.Lit
			}
			s.NamesAll = true
			for _, n := range leaves(e.ResolveGlobals(e.Val(env, call.Call.Args[1]))) {
				if n.Op == "str" {
					s.Names = append(s.Names, n.Lit)
				} else {
					s.NamesAll = false
				}
			}
			s.FuncSigs = map[string]*types.Signature{}
			w.collectFuncs(env, call.Call.Args[2], s.FuncSigs)
			s.Root = w.dataType(env, call.Call.Args[3], call)
			s.DataMap = map[string]*X{}
			dx := e.Val(env, call.Call.Args[3])
			if dx.Op == "map" {
				cnt := map[string]int{}
				for _, en := range dx.Args {
					if en.Args[0].Op == "str" {
						cnt[en.Args[0].Lit]++
						s.DataMap[en.Args[0].Lit] = en.Args[1]
					}
				}
				for k, n := range cnt {
					if n > 1 {
						delete(s.DataMap, k)
					}
				}
			}
			out = append(out, s)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Call.Pos() < out[j].Call.Pos() })
	w.tm = out
	return out
}

// leaves of a gated value.
func leaves(x *X) []*X {
	switch x.Op {
	case "sel":
		return append(leaves(x.Args[1]), leaves(x.Args[2])...)
	case "anyof":
		var r []*X
		for _, a := range x.Args {
			r = append(r, leaves(a)...)
		}
		return r
	}
	return []*X{x}
}

// envsFor gives environments for fn: its own root, or, when one of the
// interesting arguments comes from a parameter, one per caller.
func (w *World) envsFor(fn *ssa.Function, args []ssa.Value, depth int) []*Env {
	e := w.vx
	needs := false
	for _, a := range args {
		if _, ok := unwrapIface(a).(*ssa.Parameter); ok {
			needs = true
		}
	}
	if !needs || depth > 4 {
		return []*Env{e.Root(fn)}
	}
	var out []*Env
	for _, ci := range w.callersOf()[fn] {
		c := ci.Common()
		if c.IsInvoke() {
			continue
		}
		for _, penv := range w.envsFor(ci.Parent(), c.Args, depth+1) {
			var as []*X
			for _, a := range c.Args {
				as = append(as, e.Val(penv, a))
			}
			ne := e.call(penv, fn, as)
			ne.args = c.Args
			out = append(out, ne)
		}
	}
	if len(out) == 0 {
		return []*Env{e.Root(fn)}
	}
	return out
}

// origin follows a value to the caller when it is a parameter bound in env.
func (env *Env) origin(v ssa.Value) (*Env, ssa.Value) {
	for {
		p, ok := unwrapIface(v).(*ssa.Parameter)
		if !ok || env.args == nil || env.parent == nil || p.Parent() != env.fn {
			return env, v
		}
		found := false
		for i, q := range env.fn.Params {
			if q == p && i < len(env.args) {
				v = env.args[i]
				found = true
			}
		}
		if !found {
			return env, v
		}
		env = env.parent
	}
}

// collectFuncs lists the functions of a FuncMap value.
func (w *World) collectFuncs(env *Env, v ssa.Value, out map[string]*types.Signature) {
	env, v = env.origin(v)
	for _, mu := range w.mapUpdates(env, v) {
		if k, ok := constString(mu.Key); ok {
			val := unwrapIface(mu.Value)
			if s, ok := val.Type().Underlying().(*types.Signature); ok {
				out[k] = s
			}
		}
	}
}

// mapOrigin finds the MakeMap a map value comes from.
func (w *World) mapOrigin(env *Env, v ssa.Value, depth int) *ssa.MakeMap {
	if depth > 8 {
		return nil
	}
	env, v = env.origin(v)
	switch x := v.(type) {
	case *ssa.MakeMap:
		return x
	case *ssa.FreeVar:
		if c, cenv := w.vx.rootCell(env, x); c != ssa.Value(x) {
			return w.mapOrigin(cenv, c, depth+1)
		}
	case *ssa.Phi:
		var m *ssa.MakeMap
		for _, ed := range x.Edges {
			if ed == ssa.Value(x) {
				continue
			}
			o := w.mapOrigin(env, ed, depth+1)
			if o == nil || m != nil && o != m {
				return nil
			}
			m = o
		}
		return m
	case *ssa.MakeInterface:
		return w.mapOrigin(env, x.X, depth+1)
	case *ssa.ChangeType:
		return w.mapOrigin(env, x.X, depth+1)
	case *ssa.ChangeInterface:
		return w.mapOrigin(env, x.X, depth+1)
	case *ssa.UnOp:
		cell, cenv := w.vx.rootCell(env, x.X)
		if al, ok := cell.(*ssa.Alloc); ok {
			sts := w.vx.stores(al)
			if len(sts) == 1 {
				return w.mapOrigin(cenv, sts[0].Val, depth+1)
			}
		}
		if g, ok := x.X.(*ssa.Global); ok {
			w.vx.GlobalVal(g)
			if st := w.vx.gstores[g]; len(st) == 1 {
				return w.mapOrigin(w.vx.Root(st[0].Parent()), st[0].Val, depth+1)
			}
		}
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f != nil && w.InRepo(f) && f.Blocks != nil {
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 {
					if m := w.mapOrigin(w.vx.Root(f), ret.Results[0], depth+1); m != nil {
						return m
					}
				}
			}
		}
	}
	return nil
}

func (w *World) mapUpdates(env *Env, v ssa.Value) []*ssa.MapUpdate {
	m := w.mapOrigin(env, v, 0)
	if m == nil {
		return nil
	}
	var out []*ssa.MapUpdate
	w.updatesOf(m, &out, 0)
	return out
}

// updatesOf collects the updates of a map through its aliases.
func (w *World) updatesOf(m ssa.Value, out *[]*ssa.MapUpdate, depth int) {
	if m.Referrers() == nil || depth > 6 {
		return
	}
	for _, u := range *m.Referrers() {
		switch x := u.(type) {
		case *ssa.MapUpdate:
			if x.Map == m {
				*out = append(*out, x)
			}
		case *ssa.ChangeType:
			w.updatesOf(x, out, depth+1)
		case *ssa.Store:
			if al, ok := x.Addr.(*ssa.Alloc); ok && x.Val == m {
				w.loadsOf(al, out, depth+1)
			}
		case *ssa.Phi:
			w.updatesOf(x, out, depth+1)
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == m {
					w.updatesOf(x.Fn.(*ssa.Function).FreeVars[i], out, depth+1)
				}
			}
		case *ssa.Return:
			for _, ci := range w.callersOf()[x.Parent()] {
				if v, ok := ci.(ssa.Value); ok {
					w.updatesOf(v, out, depth+1)
				}
			}
		case ssa.CallInstruction:
			if f := x.Common().StaticCallee(); f != nil && w.InRepo(f) && f.Blocks != nil && f.Name() != "ExecuteTemplate" {
				for k, a := range x.Common().Args {
					if a == m && k < len(f.Params) {
						w.updatesOf(f.Params[k], out, depth+1)
					}
				}
			}
		}
	}
}

// loadsOf follows the loads of a cell that holds the map, in closures too.
func (w *World) loadsOf(cell ssa.Value, out *[]*ssa.MapUpdate, depth int) {
	if depth > 6 || cell.Referrers() == nil {
		return
	}
	for _, r := range *cell.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			w.updatesOf(r, out, depth+1)
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == cell {
					w.loadsOf(r.Fn.(*ssa.Function).FreeVars[i], out, depth+1)
				}
			}
		}
	}
}

// dataType abstracts the data argument; keys that are not set on every path to
// the rendering are recorded as optional.
func (w *World) dataType(env *Env, v ssa.Value, at *ssa.Call) *TT {
	env, v = env.origin(v)
	m := w.mapOrigin(env, v, 0)
	if m == nil {
		if c, ok := v.(*ssa.Const); ok && c.Value == nil {
			return &TT{Dict: map[string]*TT{}}
		}
		return ttOf(unwrapIface(v).Type())
	}
	t := &TT{Dict: map[string]*TT{}}
	var ups []*ssa.MapUpdate
	w.updatesOf(m, &ups, 0)
	sure := map[string]bool{}
	for _, u := range ups {
		k, ok := constString(u.Key)
		if !ok {
			t.Unknown = true
			continue
		}
		vt := valueTT(u.Value)
		t.Dict[k] = ttJoin(t.Dict[k], vt)
		if u.Parent() != at.Parent() || u.Block().Dominates(at.Block()) || u.Block() == m.Block() {
			sure[k] = true
		}
	}
	for k := range t.Dict {
		if !sure[k] && !everyPathSets(m, k, ups, at) {
			c := *t.Dict[k]
			c.Types = append([]types.Type{}, c.Types...)
			t.Dict[k] = &c
			t.Dict["?"+k] = &TT{}
		}
	}
	return t
}

// everyPathSets: on each feasible path from the map's creation to the
// rendering the key is set. Infeasible paths are those that contradict a
// comparison of a string or boolean joined on the way.
func everyPathSets(m *ssa.MakeMap, k string, ups []*ssa.MapUpdate, at *ssa.Call) bool {
	if m.Parent() != at.Parent() {
		return true
	}
	stop := map[ssa.Instruction]bool{}
	for _, u := range ups {
		if kk, ok := constString(u.Key); ok && kk == k {
			stop[u] = true
		}
	}
	// only what is compared with a constant matters for feasibility
	type state struct {
		b   *ssa.BasicBlock
		key string
	}
	seen := map[state]bool{}
	steps := 0
	keyOf := func(vals map[ssa.Value]string) string {
		var s []string
		for v, x := range vals {
			s = append(s, v.Name()+"="+x)
		}
		sort.Strings(s)
		return strings.Join(s, ",")
	}
	abs := func(vals map[ssa.Value]string, v ssa.Value) string {
		if x, ok := vals[v]; ok {
			return x
		}
		switch c := v.(type) {
		case *ssa.Const:
			if c.Value != nil && (c.Value.Kind() == constant.String || c.Value.Kind() == constant.Bool) {
				return c.Value.ExactString()
			}
		case *ssa.Call:
			if strings.HasSuffix(callName(c), "util.ExecuteTemplate") {
				return "nonempty"
			}
		}
		return ""
	}
	var walk func(b *ssa.BasicBlock, i int, vals map[ssa.Value]string) bool
	walk = func(b *ssa.BasicBlock, i int, vals map[ssa.Value]string) bool {
		steps++
		for ; i < len(b.Instrs); i++ {
			if stop[b.Instrs[i]] {
				return true
			}
			if b.Instrs[i] == ssa.Instruction(at) {
				return false
			}
		}
		for si, s := range b.Succs {
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				truth := ""
				if t := abs(vals, iff.Cond); t == "true" || t == "false" {
					truth = t
				} else if bo, ok := iff.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
					x, y := abs(vals, bo.X), abs(vals, bo.Y)
					if x != "" && y != "" {
						eq := ""
						if x == y && x != "nonempty" {
							eq = "true"
						} else if x == "nonempty" && y == `""` || y == "nonempty" && x == `""` || x != "nonempty" && y != "nonempty" {
							eq = "false"
						}
						if eq != "" {
							truth = fmt.Sprint((eq == "true") == (bo.Op == token.EQL))
						}
					}
				}
				if truth == "true" && si == 1 || truth == "false" && si == 0 {
					continue
				}
			}
			nv := vals
			copied := false
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for pi, p := range s.Preds {
					if p == b {
						x := abs(vals, ph.Edges[pi])
						if !copied {
							nv = map[ssa.Value]string{}
							for a, c := range vals {
								nv[a] = c
							}
							copied = true
						}
						if x == "" {
							delete(nv, ph)
						} else {
							nv[ph] = x
						}
					}
				}
			}
			st := state{s, keyOf(nv)}
			if seen[st] {
				continue
			}
			seen[st] = true
			if steps > 20000 || !walk(s, 0, nv) {
				return false
			}
		}
		return true
	}
	return walk(m.Block(), instrIndex(m)+1, map[ssa.Value]string{})
}

func valueTT(v ssa.Value) *TT {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return valueTT(x.X)
	case *ssa.ChangeInterface:
		return valueTT(x.X)
	case *ssa.Phi:
		var t *TT
		for _, e := range x.Edges {
			if e != ssa.Value(x) {
				t = ttJoin(t, ttOf(unwrapIface(e).Type()))
			}
		}
		return t
	case *ssa.MakeMap:
		if isStringType(x.Type().Underlying().(*types.Map).Key()) {
			t := &TT{Dict: map[string]*TT{}}
			for _, u := range *x.Referrers() {
				if mu, ok := u.(*ssa.MapUpdate); ok && mu.Map == x {
					if k, ok := constString(mu.Key); ok {
						t.Dict[k] = ttJoin(t.Dict[k], valueTT(mu.Value))
					} else {
						t.Unknown = true
					}
				}
			}
			if !t.Unknown {
				return t
			}
		}
	}
	t := ttOf(v.Type())
	if c, ok := v.(*ssa.Const); ok && c.Value != nil {
		switch c.Value.Kind() {
		case constant.String:
			t.Const = Str(constant.StringVal(c.Value))
		case constant.Bool:
			t.Const = mk("bool", c.Value.String())
		}
	}
	return t
}

// stripContinuations does what ExecuteTemplate does before parsing.
func stripContinuations(s string) string {
	for _, x := range []string{"\\\r\n", "\\\r", "\\\n"} {
		s = strings.ReplaceAll(s, x, "")
	}
	return s
}

var parsedTmpl = map[string]map[string]*parse.Tree{}
var parsedErr = map[string]error{}

// ParseTmpl parses the text into its definitions.
func ParseTmpl(text string) (map[string]*parse.Tree, error) {
	if t, ok := parsedTmpl[text]; ok {
		return t, parsedErr[text]
	}
	set := map[string]*parse.Tree{}
	tr := parse.New("")
	tr.Mode = parse.SkipFuncCheck
	_, err := tr.Parse(stripContinuations(text), "", "", set)
	parsedTmpl[text], parsedErr[text] = set, err
	return set, err
}

// ---------------------------------------------------------------- checker

type tmplCheck struct {
	w     *World
	site  *TmplSite
	set   map[string]*parse.Tree
	base  map[string]*types.Signature
	bad   func(what string)
	use   func(recv types.Type, member string) // every member access
	acts  int
	stack []string
	vars  []tvar
	root  *TT
	funcs map[string]bool
}

type tvar struct {
	name string
	t    *TT
}

// CheckSite follows everything the site can render.
func (w *World) CheckSite(s *TmplSite, bad func(string), use func(types.Type, string)) int {
	set, err := ParseTmpl(s.Text)
	if err != nil {
		bad("the template does not parse: " + err.Error())
		return 0
	}
	c := &tmplCheck{w: w, site: s, set: set, base: w.templateBaseFuncs(), bad: bad, use: use}
	for _, n := range s.Names {
		c.define(n, s.Root)
	}
	return c.acts
}

func (c *tmplCheck) define(name string, dot *TT) {
	t := c.set[name]
	if t == nil {
		c.bad(fmt.Sprintf("definition %q does not exist", name))
		return
	}
	for _, s := range c.stack {
		if s == name {
			return
		}
	}
	if len(c.stack) > 12 {
		return
	}
	saveV, saveR := c.vars, c.root
	c.stack = append(c.stack, name)
	c.vars = []tvar{{"$", dot}}
	c.root = dot
	c.list(t.Root, dot)
	c.stack = c.stack[:len(c.stack)-1]
	c.vars, c.root = saveV, saveR
}

func (c *tmplCheck) list(l *parse.ListNode, dot *TT) {
	if l == nil {
		return
	}
	for _, n := range l.Nodes {
		c.node(n, dot)
	}
}

func (c *tmplCheck) scoped(f func()) {
	n := len(c.vars)
	f()
	c.vars = c.vars[:n]
}

func (c *tmplCheck) node(n parse.Node, dot *TT) {
	switch n := n.(type) {
	case *parse.ActionNode:
		c.acts++
		c.pipe(n.Pipe, dot)
	case *parse.IfNode:
		c.acts++
		c.scoped(func() {
			t := c.pipe(n.Pipe, dot)
			if t.Const == nil || t.Const.Op != "bool" || t.Const.Lit == "true" {
				c.scoped(func() { c.list(n.List, dot) })
			}
			if t.Const == nil || t.Const.Op != "bool" || t.Const.Lit == "false" {
				c.scoped(func() { c.list(n.ElseList, dot) })
			}
		})
	case *parse.WithNode:
		c.acts++
		c.scoped(func() {
			t := c.pipe(n.Pipe, dot)
			c.scoped(func() { c.list(n.List, t) })
			c.scoped(func() { c.list(n.ElseList, dot) })
		})
	case *parse.RangeNode:
		c.acts++
		c.scoped(func() {
			t := c.pipeVal(n.Pipe, dot)
			k, el := c.elem(t)
			d := n.Pipe.Decl
			switch len(d) {
			case 1:
				c.vars = append(c.vars, tvar{d[0].Ident[0], el})
			case 2:
				c.vars = append(c.vars, tvar{d[0].Ident[0], k}, tvar{d[1].Ident[0], el})
			}
			c.scoped(func() { c.list(n.List, el) })
			c.scoped(func() { c.list(n.ElseList, dot) })
		})
	case *parse.TemplateNode:
		c.acts++
		t := &TT{Dict: map[string]*TT{}}
		if n.Pipe != nil {
			t = c.pipe(n.Pipe, dot)
		}
		c.define(n.Name, t)
	case *parse.ListNode:
		c.list(n, dot)
	}
}

// elem gives key and element types of a range.
func (c *tmplCheck) elem(t *TT) (*TT, *TT) {
	k, el := &TT{}, &TT{}
	if t.Unknown || len(t.Types) == 0 {
		return &TT{Unknown: true}, &TT{Unknown: true}
	}
	k, el = nil, nil
	for _, ty := range t.Types {
		switch u := ty.Underlying().(type) {
		case *types.Slice:
			k, el = ttJoin(k, ttOf(types.Typ[types.Int])), ttJoin(el, ttOf(u.Elem()))
		case *types.Array:
			k, el = ttJoin(k, ttOf(types.Typ[types.Int])), ttJoin(el, ttOf(u.Elem()))
		case *types.Map:
			k, el = ttJoin(k, ttOf(u.Key())), ttJoin(el, ttOf(u.Elem()))
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				k, el = ttJoin(k, ttOf(ty)), ttJoin(el, ttOf(ty))
				continue
			}
			c.bad(fmt.Sprintf("cannot range over %s in %q", typeName(ty), c.cur()))
		case *types.Interface:
			return &TT{Unknown: true}, &TT{Unknown: true}
		default:
			c.bad(fmt.Sprintf("cannot range over %s in %q", typeName(ty), c.cur()))
		}
	}
	if k == nil {
		return &TT{Unknown: true}, &TT{Unknown: true}
	}
	return k, el
}

func (c *tmplCheck) cur() string {
	if len(c.stack) == 0 {
		return ""
	}
	return c.stack[len(c.stack)-1]
}

func (c *tmplCheck) pipe(p *parse.PipeNode, dot *TT) *TT {
	t := c.pipeVal(p, dot)
	for _, d := range p.Decl {
		if p.IsAssign {
			for i := len(c.vars) - 1; i >= 0; i-- {
				if c.vars[i].name == d.Ident[0] {
					c.vars[i].t = ttJoin(c.vars[i].t, t)
					break
				}
			}
		} else {
			c.vars = append(c.vars, tvar{d.Ident[0], t})
		}
	}
	return t
}

func (c *tmplCheck) pipeVal(p *parse.PipeNode, dot *TT) *TT {
	var t *TT
	for i, cmd := range p.Cmds {
		t = c.command(cmd, dot, t, i > 0)
	}
	if t == nil {
		t = &TT{Unknown: true}
	}
	return t
}

func (c *tmplCheck) command(cmd *parse.CommandNode, dot, final *TT, hasFinal bool) *TT {
	var args []*TT
	nargs := func(from int) []*TT {
		for _, a := range cmd.Args[from:] {
			args = append(args, c.arg(a, dot))
		}
		if hasFinal {
			args = append(args, final)
		}
		return args
	}
	switch n := cmd.Args[0].(type) {
	case *parse.IdentifierNode:
		return c.call(n.Ident, nargs(1), cmd)
	case *parse.FieldNode:
		return c.chain(dot, n.Ident, nargs(1))
	case *parse.VariableNode:
		return c.chain(c.variable(n.Ident[0]), n.Ident[1:], nargs(1))
	case *parse.ChainNode:
		return c.chain(c.arg(n.Node, dot), n.Field, nargs(1))
	}
	nargs(1)
	return c.arg(cmd.Args[0], dot)
}

func (c *tmplCheck) variable(n string) *TT {
	for i := len(c.vars) - 1; i >= 0; i-- {
		if c.vars[i].name == n {
			return c.vars[i].t
		}
	}
	return &TT{Unknown: true}
}

func (c *tmplCheck) arg(n parse.Node, dot *TT) *TT {
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.FieldNode:
		return c.chain(dot, n.Ident, nil)
	case *parse.VariableNode:
		return c.chain(c.variable(n.Ident[0]), n.Ident[1:], nil)
	case *parse.ChainNode:
		return c.chain(c.arg(n.Node, dot), n.Field, nil)
	case *parse.PipeNode:
		return c.pipeVal(n, dot)
	case *parse.StringNode:
		t := ttOf(types.Typ[types.String])
		t.Const = Str(n.Text)
		return t
	case *parse.NumberNode:
		if n.IsInt {
			return ttOf(types.Typ[types.Int])
		}
		return ttOf(types.Typ[types.Float64])
	case *parse.BoolNode:
		t := ttOf(types.Typ[types.Bool])
		t.Const = mk("bool", fmt.Sprint(n.True))
		return t
	case *parse.NilNode:
		return &TT{Unknown: true}
	case *parse.IdentifierNode:
		return c.call(n.Ident, nil, nil)
	}
	return &TT{Unknown: true}
}

func (c *tmplCheck) call(name string, args []*TT, cmd *parse.CommandNode) *TT {
	if c.funcs != nil {
		c.funcs[name] = true
	}
	if name == "dict" {
		d := &TT{Dict: map[string]*TT{}}
		if len(args)%2 != 0 {
			c.bad(fmt.Sprintf("dict with an odd number of arguments in %q", c.cur()))
			return d
		}
		for i := 0; i+1 < len(args); i += 2 {
			if args[i].Const == nil {
				c.bad(fmt.Sprintf("dict key %d in %q is not a constant string", i/2, c.cur()))
				continue
			}
			d.Dict[args[i].Const.Lit] = args[i+1]
		}
		return d
	}
	sig := c.site.FuncSigs[name]
	if c.base[name] != nil {
		sig = c.base[name] // ExecuteTemplate overrides
	}
	if sig != nil {
		n := sig.Params().Len()
		if !sig.Variadic() && len(args) != n || sig.Variadic() && len(args) < n-1 {
			c.bad(fmt.Sprintf("function %s called with %d arguments in %q, takes %d", name, len(args), c.cur(), n))
		}
		if sig.Results().Len() == 0 {
			c.bad(fmt.Sprintf("function %s has no result (in %q)", name, c.cur()))
			return &TT{Unknown: true}
		}
		rt := sig.Results().At(0).Type()
		for i, a := range args {
			if i < n && !(sig.Variadic() && i >= n-1) {
				c.assignable(a, sig.Params().At(i).Type(), name)
			}
		}
		if it, ok := rt.Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
			return &TT{Unknown: true}
		}
		return ttOf(rt)
	}
	bt, ok := builtinTmplFuncs[name]
	if !ok {
		c.bad(fmt.Sprintf("function %q used in %q is not supplied", name, c.cur()))
		return &TT{Unknown: true}
	}
	if (name == "eq" || name == "ne") && len(args) == 2 && args[0].Const != nil && args[1].Const != nil {
		t := ttOf(bt)
		t.Const = mk("bool", fmt.Sprint(Eq(args[0].Const, args[1].Const) == (name == "eq")))
		return t
	}
	if name == "not" && len(args) == 1 && args[0].Const != nil && args[0].Const.Op == "bool" {
		t := ttOf(bt)
		t.Const = mk("bool", fmt.Sprint(args[0].Const.Lit == "false"))
		return t
	}
	if bt != nil {
		return ttOf(bt)
	}
	switch name {
	case "and", "or":
		var t *TT
		for _, a := range args {
			t = ttJoin(t, a)
		}
		if t != nil {
			return t
		}
	case "index":
		if len(args) > 0 {
			_, el := c.elem(args[0])
			return el
		}
	}
	return &TT{Unknown: true}
}

// assignable: a value of type a can be passed for a parameter of type t.
func (c *tmplCheck) assignable(a *TT, t types.Type, name string) {
	if a.Unknown || a.Dict != nil || len(a.Types) == 0 {
		return
	}
	for _, x := range a.Types {
		if _, ok := x.Underlying().(*types.Interface); ok {
			return
		}
		if types.AssignableTo(x, t) {
			return
		}
		// numeric constants convert
		bx, ok1 := x.Underlying().(*types.Basic)
		bt, ok2 := t.Underlying().(*types.Basic)
		if ok1 && ok2 && bx.Info()&types.IsNumeric != 0 && bt.Info()&types.IsNumeric != 0 {
			return
		}
	}
	c.bad(fmt.Sprintf("function %s in %q is given a %s where it takes a %s", name, c.cur(), typeName(a.Types[0]), typeName(t)))
}

func (c *tmplCheck) chain(t *TT, idents []string, args []*TT) *TT {
	for i, id := range idents {
		var as []*TT
		if i == len(idents)-1 {
			as = args
		}
		t = c.member(t, id, as)
	}
	return t
}

func (c *tmplCheck) member(t *TT, id string, args []*TT) *TT {
	var r *TT
	found := false
	if t.Unknown && t.Dict == nil && len(t.Types) == 0 {
		return &TT{Unknown: true}
	}
	if t.Dict != nil {
		if _, opt := t.Dict["?"+id]; opt {
			c.bad(fmt.Sprintf("value .%s used in %q is supplied only on some paths", id, c.cur()))
		}
		if v, ok := t.Dict[id]; ok {
			r, found = ttJoin(r, v), true
		} else if !t.Unknown {
			c.bad(fmt.Sprintf("value .%s used in %q is not supplied", id, c.cur()))
			return &TT{Unknown: true}
		} else {
			return &TT{Unknown: true}
		}
	}
	for _, ty := range t.Types {
		cands := []types.Type{ty}
		if it, ok := ty.Underlying().(*types.Interface); ok {
			cands = append(cands, c.w.implementers(it)...)
			if it.NumMethods() == 0 {
				return &TT{Unknown: true}
			}
		}
		for _, cd := range cands {
			if m, ok := cd.Underlying().(*types.Map); ok && isStringType(m.Key()) {
				r, found = ttJoin(r, ttOf(m.Elem())), true
				continue
			}
			obj, _, _ := types.LookupFieldOrMethod(cd, true, nil, id)
			if obj == nil {
				continue
			}
			if !obj.Exported() {
				continue
			}
			switch o := obj.(type) {
			case *types.Var:
				found = true
				if c.use != nil {
					c.use(c.owner(cd, id), id)
				}
				r = ttJoin(r, ttOf(o.Type()))
			case *types.Func:
				sig := o.Type().(*types.Signature)
				found = true
				if c.use != nil {
					c.use(cd, id)
				}
				n := sig.Params().Len()
				if !sig.Variadic() && len(args) != n || sig.Variadic() && len(args) < n-1 {
					c.bad(fmt.Sprintf("method %s called with %d arguments in %q, takes %d", id, len(args), c.cur(), n))
				}
				if sig.Results().Len() > 0 {
					r = ttJoin(r, ttOf(sig.Results().At(0).Type()))
				}
			}
		}
	}
	if !found && !t.Unknown {
		c.bad(fmt.Sprintf("%q uses .%s, which %s does not have", c.cur(), id, c.describe(t)))
		return &TT{Unknown: true}
	}
	if r == nil {
		return &TT{Unknown: true}
	}
	return r
}

// owner is the struct that declares a (possibly promoted) field.
func (c *tmplCheck) owner(t types.Type, id string) types.Type {
	_, idx, _ := types.LookupFieldOrMethod(t, true, nil, id)
	cur := t
	for _, k := range idx[:max(0, len(idx)-1)] {
		st, ok := deref(cur).Underlying().(*types.Struct)
		if !ok {
			return t
		}
		cur = st.Field(k).Type()
	}
	return cur
}

func (c *tmplCheck) describe(t *TT) string {
	var s []string
	for _, x := range t.Types {
		s = append(s, typeName(x))
	}
	if t.Dict != nil {
		s = append(s, "the supplied map")
	}
	return strings.Join(s, "/")
}

// implementers lists the repository's types that implement it.
func (w *World) implementers(it *types.Interface) []types.Type {
	var out []types.Type
	for _, n := range w.CG().named {
		if n.TypeParams().Len() > 0 {
			continue
		}
		if _, ok := n.Underlying().(*types.Interface); ok {
			continue
		}
		if types.Implements(n, it) {
			out = append(out, n)
		} else if types.Implements(types.NewPointer(n), it) {
			out = append(out, types.NewPointer(n))
		}
	}
	return out
}
