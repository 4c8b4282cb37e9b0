package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Evaluator of emitted codec functions. Input bits (of fields, of the buffer)
// are symbols; every path through undecided conditions is explored by
// re-execution; a condition on bits refines them on the path taken.

type (
	tself struct{}
	tfld  struct { // a schema field, or an element of one
		path string
		ty   *scType
		f    *scField
	}
	tflt  struct{ bits []tbit } // floating point value, by bit pattern
	tenum struct{ n *tn }       // enum value, by number
	tptr  struct {              // position in the buffer
		off *tlin
		lim *tlin // length of the slice, when it has one
	}
	tview struct { // a field's or variable's storage seen as an unsigned number
		of any
		ty tty
	}
	tcell struct {
		v  any
		ty string
	}
	taddr  struct{ of any }
	tstr   struct{ s string }
	ttup   struct{ v []any }
	tnil   struct{}
	tundef struct{}
	topq   struct{ d string }
	tbytes struct{ path string } // the bytes of a text or bytes field
	tsl    struct {              // bytes taken from the buffer
		off, n *tlin
		copied bool
		text   bool
	}
	tnew struct { // fresh zeroed bytes
		term bool
		n    *tlin
		k    string
		fill *tsl
	}
	telem struct {
		path string
		i    *tlin
	}
	tdiv struct { // exact quotient, not yet rounded (JavaScript)
		a *tn
		k int64
	}
	tmeth struct {
		recv any
		name string
	}
)

type tpred struct {
	bits []tbit // some bit is set
	d    *tlin  // d >= 0
	desc string
}

type tevent struct {
	kind string // copy, nested, checked, read
	path string
	at   *tlin
	n    *tlin
	fail bool
	typ  string
	lim  *tlin
}

type TL struct {
	lang     string
	files    []*tlFile
	fns      map[string][]*tlFn
	st       *scStruct
	types    map[string]*scType // generated type name -> enum or struct
	role     string
	opts     map[string]any
	syms     []string
	symID    map[string]tbit
	preds    map[tbit]*tpred
	linB     map[string]*tn
	env      map[tbit]tbit
	facts    []*tlin
	conds    []string
	dec      []bool
	taken    int
	forced   []bool
	scopes   []map[string]*tcell
	mem      map[string][]tbit
	memAt    map[string]*tlin
	fields   map[string]any
	events   []tevent
	notes    []string
	reads    []*tlin
	guard    tbit
	steps    int
	ret      any
	line     int
	enumCls  string
	loopV    string
	loopN    *tlin
	base     *tlin
	depth    int
	size     *tlin // number of bytes of input there are
	zero     bool  // the output buffer starts zeroed
	cut      bool
	dv       []tbit
	dvLE     bool
	fnName   string
	shape    map[string]int // array -> how its elements were named
	done     bool           // evaluation has ended: nothing is decided any more
	maxG     int
	high     map[string]int
	startArg bool
}

type tlReturn struct{}
type tlBreak struct{}
type tlContinue struct{}
type tlCut struct{ why string }

type tlPath struct {
	Conds  []string
	Ret    any
	Mem    map[string][]tbit
	At     map[string]*tlin
	Fields map[string]any
	Events []tevent
	Notes  []string
	Facts  []*tlin
	Reads  []*tlin
	TL     *TL
	Err    string
	Cut    string
}

func (t *TL) fail(f string, a ...any) {
	panic(tlErr{fmt.Sprintf("%s line %d: ", t.fnName, t.line) + fmt.Sprintf(f, a...)})
}

func (t *TL) note(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	for _, n := range t.notes {
		if n == s {
			return
		}
	}
	t.notes = append(t.notes, s)
}

// ---- symbols

func (t *TL) sym(name string) tbit {
	if b, ok := t.symID[name]; ok {
		return b
	}
	t.syms = append(t.syms, name)
	b := tbit(len(t.syms) * 2)
	t.symID[name] = b
	return b
}

func (t *TL) res(b tbit) tbit {
	for b >= 2 {
		r, ok := t.env[b&^1]
		if !ok {
			return b
		}
		if b&1 == 1 {
			r = bnot(r)
		}
		b = r
	}
	return b
}

func (t *TL) resN(v *tn) *tn {
	if v.bits == nil || len(t.env) == 0 {
		return v
	}
	ch := t.res(v.sx) != v.sx
	bs := make([]tbit, len(v.bits))
	for i, b := range v.bits {
		bs[i] = t.res(b)
		ch = ch || bs[i] != b
	}
	if !ch {
		return v
	}
	r := fromBits(v.ty, bs, t.res(v.sx))
	if r.lin == nil {
		r.lin = v.lin
	}
	return r
}

func (t *TL) bitName(b tbit) string {
	switch {
	case b == bit0:
		return "0"
	case b == bit1:
		return "1"
	case b == bitTop:
		return "?"
	}
	s := t.syms[b/2-1]
	if b&1 == 1 {
		return "!" + s
	}
	return s
}

// bitsName renders a run of bits compactly: x.0-7.
func (t *TL) bitsName(v *tn) string {
	if c, ok := v.konst(); ok {
		return strconv.FormatInt(c, 10)
	}
	if v.bits == nil {
		if v.lin != nil {
			return v.lin.String()
		}
		return "?"
	}
	var out []string
	i := 0
	for i < len(v.bits) {
		n := t.bitName(v.bits[i])
		j := i + 1
		if k := strings.LastIndexByte(n, '.'); k > 0 {
			if s, err := strconv.Atoi(n[k+1:]); err == nil {
				for j < len(v.bits) && t.bitName(v.bits[j]) == fmt.Sprintf("%s%d", n[:k+1], s+j-i) {
					j++
				}
				if j > i+1 {
					out = append(out, fmt.Sprintf("%s-%d", n, s+j-i-1))
					i = j
					continue
				}
			}
		}
		for j < len(v.bits) && t.bitName(v.bits[j]) == n {
			j++
		}
		if j > i+1 {
			n += fmt.Sprintf("*%d", j-i)
		}
		out = append(out, n)
		i = j
	}
	s := "[" + strings.Join(out, ",")
	if v.sx != bit0 {
		s += "," + t.bitName(v.sx) + ".."
	}
	return s + "]"
}

// lin gives the linear form of a number, naming a quantity after its bits.
func (t *TL) lin(v *tn) *tlin {
	v = t.resN(v)
	if v.lin != nil {
		return v.lin
	}
	if v.bits == nil {
		return nil
	}
	for _, b := range v.bits {
		if b == bitTop {
			return nil
		}
	}
	if v.sx == bit1 {
		return nil
	}
	if v.sx != bit0 && !t.done {
		if t.branch(v.sx) {
			t.note("a length taken from the input can be negative")
			panic(tlCut{"negative length"})
		}
		return t.lin(v)
	}
	if t.role == "encode_size" && !t.done {
		// a number made from a comparison: both outcomes are followed
		hi := len(v.bits)
		for hi > 0 && t.res(v.bits[hi-1]) == bit0 {
			hi--
		}
		for _, b := range v.bits {
			if b = t.res(b); b >= 2 && (t.preds[b&^1] != nil || hi <= 8) {
				t.branch(b)
				return t.lin(v)
			}
		}
	}
	n := t.bitsName(v)
	if t.linB[n] == nil {
		hi := len(v.bits)
		for hi > 0 && t.res(v.bits[hi-1]) == bit0 {
			hi--
		}
		if t.high == nil {
			t.high = map[string]int{}
		}
		t.high[n] = hi
	}
	t.linB[n] = v
	return linS(n)
}

// overflow notes a sum with a length taken from the input that nothing bounds.
func (t *TL) overflow(l *tlin, ty tty) {
	if t.role != "decode_size" || t.done || ty.k != 'i' || ty.w < 32 || l == nil || t.lang == "python" || t.js() {
		return
	}
	wide := false
	for n, k := range l.t {
		if t.high[n] >= ty.w-1 && k > 0 {
			wide = true
		}
	}
	if !wide {
		return
	}
	max := int64(1)<<31 - 1
	if ty.w == 64 {
		max = 1<<63 - 1
	}
	// constants of the layout do not count
	l = l.add(linC(l.c), -1)
	if t.size != nil && t.holds(t.size.add(l, -1)) || t.holds(linC(max).add(l, -1)) {
		return
	}
	t.note("a sum with a length taken from the input can overflow")
}

// ---- decisions

func (t *TL) choose(desc string) bool {
	i := t.taken
	t.taken++
	if i < len(t.forced) {
		b := t.forced[i]
		t.dec = append(t.dec, b)
		t.conds = append(t.conds, cond01(desc, b))
		return b
	}
	t.dec = append(t.dec, true)
	t.conds = append(t.conds, cond01(desc, true))
	return true
}

func cond01(d string, b bool) string {
	if b {
		return d
	}
	return "not " + d
}

// branch decides a condition bit, exploring both outcomes when it is open.
func (t *TL) branch(b tbit) bool {
	b = t.res(b)
	switch b {
	case bit0:
		return false
	case bit1:
		return true
	}
	if b == bitTop {
		t.fail("condition on a value that could not be followed")
	}
	base := b &^ 1
	neg := b&1 == 1
	if p := t.preds[base]; p != nil {
		if v, ok := t.known(p); ok {
			t.env[base] = tbit(b2i(v))
			return v != neg
		}
	}
	desc := t.bitName(base)
	out := t.choose(cond01(desc, !neg))
	set := out != neg // value of the base symbol
	t.env[base] = tbit(b2i(set))
	if p := t.preds[base]; p != nil {
		if p.bits != nil && !set {
			for _, x := range p.bits {
				x = t.res(x)
				if x >= 2 {
					t.env[x&^1] = tbit(x & 1)
				}
			}
		}
		if p.d != nil {
			if set {
				t.facts = append(t.facts, p.d)
			} else {
				t.facts = append(t.facts, p.d.scale(-1).add(linC(1), -1))
			}
		}
	}
	return out
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (t *TL) known(p *tpred) (bool, bool) {
	if p.bits != nil {
		any := false
		for _, x := range p.bits {
			switch t.res(x) {
			case bit1:
				return true, true
			case bit0:
			default:
				any = true
			}
		}
		return false, !any
	}
	if t.holds(p.d) {
		return true, true
	}
	if t.holds(p.d.scale(-1).add(linC(1), -1)) {
		return false, true
	}
	return false, false
}

// holds: d >= 0 follows from the signs of the named quantities and one fact
// (or a sum of two).
func (t *TL) holds(d *tlin) bool {
	nonneg := func(x *tlin) bool {
		if x.c < 0 {
			return false
		}
		for _, k := range x.t {
			if k < 0 {
				return false
			}
		}
		return true
	}
	// q stands for a large number
	d2 := d
	if k := d.t["q"]; k > 0 && d.c < 0 && d.c > -4096*k {
		d2 = d.add(linC(-d.c), 1)
	}
	if nonneg(d2) {
		return true
	}
	for i, f := range t.facts {
		if nonneg(d.add(f, -1)) {
			return true
		}
		for _, g := range t.facts[:i] {
			if nonneg(d.add(f, -1).add(g, -1)) {
				return true
			}
		}
	}
	return false
}

func (t *TL) predBits(bs []tbit) tbit {
	var keep []tbit
	for _, b := range bs {
		b = t.res(b)
		if b == bit1 {
			return bit1
		}
		if b == bitTop {
			return bitTop
		}
		if b != bit0 {
			dup := false
			for _, k := range keep {
				if k == b {
					dup = true
				}
				if k == bnot(b) {
					return bit1
				}
			}
			if !dup {
				keep = append(keep, b)
			}
		}
	}
	switch len(keep) {
	case 0:
		return bit0
	case 1:
		return keep[0]
	}
	for b, p := range t.preds {
		if p.bits != nil && t.env[b] == bit1 && t.within(p.bits, keep) {
			return bit1
		}
	}
	v := &tn{bits: keep, sx: bit0}
	n := "nonzero" + t.bitsName(v)
	b := t.sym(n)
	if t.preds[b] == nil {
		t.preds[b] = &tpred{bits: keep, desc: n}
	}
	return b
}

// within: every bit of xs that is not known to be zero is one of ys.
func (t *TL) within(xs, ys []tbit) bool {
	for _, x := range xs {
		x = t.res(x)
		if x == bit0 {
			continue
		}
		ok := false
		for _, y := range ys {
			if x == y {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func (t *TL) predLin(d *tlin) tbit {
	if t.holds(d) {
		return bit1
	}
	if t.holds(d.scale(-1).add(linC(1), -1)) {
		return bit0
	}
	n := "(" + d.String() + " >= 0)"
	b := t.sym(n)
	if t.preds[b] == nil {
		t.preds[b] = &tpred{d: d, desc: n}
	}
	return b
}

func boolN(b tbit) *tn { return fromBits(tBool, []tbit{b}, bit0) }

// ---- running

func tlRun(mk func() *TL, body func(t *TL), max int) []tlPath {
	var out []tlPath
	var forced []bool
	for n := 0; ; n++ {
		if n >= max {
			out = append(out, tlPath{Err: "too many paths"})
			return out
		}
		t := mk()
		t.forced = forced
		p := tlPath{TL: t}
		func() {
			defer func() {
				switch r := recover().(type) {
				case nil:
				case tlErr:
					p.Err = r.msg
				case tlCut:
					p.Cut = r.why
				default:
					panic(r)
				}
			}()
			body(t)
		}()
		t.done = true
		p.Conds, p.Ret, p.Mem, p.At, p.Fields, p.Events, p.Notes, p.Facts, p.Reads = t.conds, t.ret, t.mem, t.memAt, t.fields, t.events, t.notes, t.facts, t.reads
		out = append(out, p)
		d := t.dec
		for len(d) > 0 && !d[len(d)-1] {
			d = d[:len(d)-1]
		}
		if len(d) == 0 {
			return out
		}
		forced = append(append([]bool(nil), d[:len(d)-1]...), false)
	}
}

func (t *TL) find(class, name string, nparams int, typ string) *tlFn {
	for _, f := range t.fns[name] {
		if class != "" && f.class != class {
			continue
		}
		if nparams >= 0 && len(f.params) != nparams {
			continue
		}
		if typ != "" && (len(f.params) == 0 || !strings.Contains(f.params[0].typ, typ)) {
			continue
		}
		return f
	}
	return nil
}

func (t *TL) push() { t.scopes = append(t.scopes, map[string]*tcell{}) }
func (t *TL) pop()  { t.scopes = t.scopes[:len(t.scopes)-1] }
func (t *TL) lookup(n string) *tcell {
	for i := len(t.scopes) - 1; i >= 0; i-- {
		if v, ok := t.scopes[i][n]; ok {
			return v
		}
	}
	return nil
}
func (t *TL) declare(n string, v *tcell) { t.scopes[len(t.scopes)-1][n] = v }

// invoke evaluates a function of the emitted file.
func (t *TL) invoke(fn *tlFn, args map[string]any) any {
	t.depth++
	if t.depth > 20 {
		t.fail("call depth")
	}
	saveS, saveG, saveF := t.scopes, t.guard, t.fnName
	t.scopes = nil
	t.guard = bit1
	t.fnName = fn.name
	t.push()
	for _, p := range fn.params {
		v, ok := args[p.name]
		if !ok {
			v = tundef{}
		}
		t.declare(p.name, &tcell{t.convDecl(v, p.typ), p.typ})
	}
	t.ret = nil
	body := fn.tree()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tlReturn); ok {
					return
				}
				panic(r)
			}
		}()
		t.exec(body)
	}()
	r := t.ret
	t.ret = nil
	t.scopes, t.guard, t.fnName = saveS, saveG, saveF
	t.depth--
	return r
}

// ---- statements

func (t *TL) exec(n *tnd) {
	t.steps++
	if t.steps > 20000000 {
		t.fail("step limit")
	}
	if n.line > 0 {
		t.line = n.line
	}
	switch n.op {
	case "block":
		t.push()
		for _, k := range n.k {
			t.exec(k)
		}
		t.pop()
	case "seq":
		for _, k := range n.k {
			t.exec(k)
		}
	case "decl":
		ty := n.k[0].s
		var v any = tundef{}
		if len(n.k) > 1 {
			v = t.rval(n.k[1])
		} else if t.lang == "go" {
			if it, ok := t.intType(ty); ok {
				v = numC(it, 0)
			} else if strings.HasPrefix(ty, "float") {
				v = &tflt{make([]tbit, floatW(ty))}
			}
		}
		if t.lang == "python" {
			if x := t.lookup(n.s); x != nil {
				x.v = v
				return
			}
			t.scopes[0][n.s] = &tcell{v, ""}
			return
		}
		if t.lang == "commonjs" || t.lang == "esm" {
			// var is function scoped; a second declaration reuses it
			ty = ""
		}
		t.declare(n.s, &tcell{t.convDecl(v, ty), ty})
	case "unpack":
		v := t.rval(n.k[0])
		tp, ok := v.(*ttup)
		names := strings.Split(n.s, ",")
		if !ok || len(tp.v) != len(names) {
			t.fail("cannot unpack %s", t.desc(v))
		}
		for i, nm := range names {
			if x := t.lookup(nm); x != nil {
				x.v = tp.v[i]
			} else {
				t.declare(nm, &tcell{tp.v[i], ""})
			}
		}
	case "expr":
		t.ev(n.k[0])
	case "if":
		c := t.cond(n.k[0])
		c = t.res(c)
		if c >= 2 && len(n.k) == 2 && t.preds[c&^1] == nil && simpleBody(n.k[1]) {
			save := t.guard
			t.guard = band(t.guard, c)
			if t.guard == bitTop {
				t.guard = save
			} else {
				t.exec(n.k[1])
				t.guard = save
				return
			}
		}
		if t.branch(c) {
			t.exec(n.k[1])
		} else if len(n.k) > 2 {
			t.exec(n.k[2])
		}
	case "while":
		t.loop(n.k[0], n.k[1], nil)
	case "dowhile":
		open := 0
		for i := 0; ; i++ {
			if i > 200 {
				t.fail("unbounded loop")
			}
			if open >= t.groups() {
				panic(tlCut{"loop"})
			}
			tk := t.taken
			if t.body(n.k[0]) {
				return
			}
			if t.taken > tk {
				open++
			}
			if !t.branch(t.cond(n.k[1])) {
				return
			}
		}
	case "for":
		t.push()
		t.exec(n.k[0])
		if !t.symLoop(n) {
			t.loop(n.k[1], n.k[3], n.k[2])
		}
		t.pop()
	case "each":
		lo, hi := t.rangeOf(n.k[0])
		for i := lo; i < hi; i++ {
			t.push()
			v := numC(t.natInt(), i)
			t.declare(n.s, &tcell{v, ""})
			b := t.body(n.k[1])
			t.pop()
			if b {
				break
			}
		}
	case "range":
		v := t.ev(n.k[0])
		f, ok := v.(*tfld)
		if !ok || f.ty.kind != "array" {
			t.fail("range over %s", t.desc(v))
		}
		nm := strings.Split(n.s, ",")
		for i := int64(0); i < f.ty.n; i++ {
			t.push()
			if nm[0] != "" && nm[0] != "_" {
				t.declare(nm[0], &tcell{numC(t.natInt(), i), ""})
			}
			if nm[1] != "" && nm[1] != "_" {
				t.declare(nm[1], &tcell{t.index(f, numC(t.natInt(), i)), ""})
			}
			b := t.body(n.k[1])
			t.pop()
			if b {
				break
			}
		}
	case "ret":
		if len(n.k) > 0 {
			t.ret = t.rval(n.k[0])
		}
		panic(tlReturn{})
	case "break":
		panic(tlBreak{})
	case "continue":
		panic(tlContinue{})
	case "throw":
		t.ret = topq{"exception"}
		panic(tlReturn{})
	default:
		t.fail("statement %s", n.op)
	}
}

// body executes a loop body; true when it broke out.
func (t *TL) body(n *tnd) (brk bool) {
	depth := len(t.scopes)
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case tlBreak:
				brk = true
				t.scopes = t.scopes[:depth]
			case tlContinue:
				t.scopes = t.scopes[:depth]
			default:
				panic(r)
			}
		}
	}()
	t.exec(n)
	return false
}

func simpleBody(n *tnd) bool {
	for n.op == "block" && len(n.k) == 1 {
		n = n.k[0]
	}
	return n.op == "expr" && n.k[0].op == "asg"
}

func (t *TL) loop(c, body, post *tnd) {
	open, tk := 0, t.taken
	for i := 0; ; i++ {
		if i > 300 {
			t.fail("unbounded loop")
		}
		if t.taken > tk && post == nil {
			open++
		}
		tk = t.taken
		if open >= t.groups() {
			panic(tlCut{"loop"})
		}
		if i == 0 && post == nil && t.scanLoop(c, body) {
			return
		}
		if !t.branch(t.cond(c)) {
			return
		}
		if t.taken > tk && post != nil {
			open++
		}
		if t.body(body) {
			return
		}
		if post != nil {
			t.exec(post)
		}
	}
}

// scanLoop: while the byte at a moving index is not zero, advance. The index
// variable becomes its start plus the (named) distance to the next zero byte;
// the body is evaluated once from that general state and must advance by one
// and keep the bound facts.
func (t *TL) scanLoop(c, body *tnd) bool {
	name := ""
	var inc *tnd
	body.walk(func(n *tnd) {
		if (n.op == "post" || n.op == "pre") && n.s == "++" && n.k[0].op == "id" {
			if name != "" && name != n.k[0].s {
				inc = nil
			}
			name, inc = n.k[0].s, n
		}
		if n.op == "asg" && n.s == "+=" && n.k[0].op == "id" && n.k[1].op == "num" && n.k[1].s == "1" {
			if name != "" && name != n.k[0].s {
				name = "?"
			}
			name, inc = n.k[0].s, n
		} else if n.op == "asg" {
			name = "?"
		}
	})
	if inc == nil || name == "" || name == "?" {
		return false
	}
	v := t.lookup(name)
	if v == nil {
		return false
	}
	v0, ok := v.v.(*tn)
	if !ok || t.lin(v0) == nil {
		return false
	}
	nr := len(t.reads)
	cb := t.res(t.cond(c))
	if cb < 2 {
		t.reads = t.reads[:nr]
		return false
	}
	p := t.preds[cb&^1]
	if p == nil || len(p.bits) != 8 || len(t.reads) != nr+1 {
		t.reads = t.reads[:nr]
		return false
	}
	at := t.reads[nr]
	for i, b := range p.bits {
		if b != t.sym(fmt.Sprintf("d[%s].%d", at, i)) {
			t.reads = t.reads[:nr]
			return false
		}
	}
	// the first read happens with the facts known here
	t.checkRead(at)
	n := "nul(" + at.String() + ")"
	init := t.lin(v0)
	entry := append([]*tlin(nil), t.facts...)
	// candidate invariants: facts lowered by the distance
	var inv []*tlin
	for _, f := range entry {
		inv = append(inv, f.add(linS(n), -1))
	}
	cur := &tn{ty: v0.ty, lin: init.add(linS(n), 1)}
	if t.choose("the text at " + at.String() + " continues past any point") {
		// one general iteration; ends the path
		v.v = cur
		t.facts = append(t.facts, inv...)
		t.reads = t.reads[:nr]
		cc := t.cond(c)
		_ = cc
		if len(t.reads) > nr {
			t.checkRead(t.reads[len(t.reads)-1])
		}
		if t.body(body) {
			t.fail("text scan leaves by break")
		}
		got, _ := v.v.(*tn)
		if got == nil || t.lin(got) == nil || t.lin(got).add(cur.lin, -1).String() != "1" {
			t.fail("text scan does not advance by one")
		}
		// which candidates are preserved
		for _, f := range inv {
			if !t.holds(f.add(linC(1), -1)) && strings.Contains(f.String(), "size") {
				t.note("text scan: the bound %s is not re-established by the loop body", f)
			}
		}
		panic(tlCut{"scan step"})
	}
	t.reads = t.reads[:nr]
	v.v = cur
	for _, f := range inv {
		if strings.Contains(f.String(), "size") {
			t.facts = append(t.facts, f)
		}
	}
	t.reads = append(t.reads, at.add(linS(n), 1))
	t.checkRead(t.reads[len(t.reads)-1])
	return true
}

// symLoop: for (i = 0; i < N; i++) with a symbolic N, as used to copy bytes.
func (t *TL) symLoop(n *tnd) bool {
	c := n.k[1]
	if c.op != "bin" || c.s != "<" || c.k[0].op != "id" {
		return false
	}
	v := t.lookup(c.k[0].s)
	if v == nil {
		return false
	}
	lo, ok := v.v.(*tn)
	if !ok {
		return false
	}
	if k, ok := lo.konst(); !ok || k != 0 {
		return false
	}
	hi, ok := t.rval(c.k[1]).(*tn)
	if !ok {
		return false
	}
	if _, ok := hi.konst(); ok {
		return false
	}
	l := t.lin(hi)
	if l == nil {
		return false
	}
	t.loopV, t.loopN = "i#", l
	v.v = &tn{ty: lo.ty, lin: linS("i#")}
	t.body(n.k[3])
	v.v = &tn{ty: lo.ty, lin: l}
	t.loopV, t.loopN = "", nil
	return true
}

func (t *TL) rangeOf(e *tnd) (int64, int64) {
	for e.op == "paren" {
		e = e.k[0]
	}
	k := func(x *tnd) int64 {
		c, ok := t.num(t.rval(x)).konst()
		if !ok {
			t.fail("loop bound is not constant")
		}
		return c
	}
	if e.op == "bin" && e.s == "until" {
		return k(e.k[0]), k(e.k[1])
	}
	if e.op == "call" && e.k[0].op == "id" && e.k[0].s == "range" {
		if len(e.k) == 2 {
			return 0, k(e.k[1])
		}
		if len(e.k) == 3 {
			return k(e.k[1]), k(e.k[2])
		}
	}
	t.fail("loop over %s", e)
	return 0, 0
}

func (t *TL) cond(e *tnd) tbit {
	return t.truth(t.rval(e))
}

func (t *TL) truth(v any) tbit {
	switch x := v.(type) {
	case *tn:
		x = t.resN(x)
		if x.ty.k == 'B' {
			return x.bit(0)
		}
		return t.nz(x)
	case tnil, tundef:
		return bit0
	case *tptr, *tfld, tself, *tstr:
		return bit1
	case topq:
		return t.sym(x.d)
	}
	t.fail("condition %s", t.desc(v))
	return bitTop
}

func (t *TL) nz(x *tn) tbit {
	if c, ok := x.konst(); ok {
		return tbit(b2i(c != 0))
	}
	if x.bits == nil {
		if x.lin != nil {
			return t.predLin(x.lin.add(linC(1), -1))
		}
		return bitTop
	}
	bs := append([]tbit(nil), x.bits...)
	return t.predBits(append(bs, x.sx))
}

func (t *TL) desc(v any) string {
	switch x := v.(type) {
	case *tn:
		return x.ty.String() + " " + t.bitsName(x)
	case *tfld:
		return "field " + x.path
	case *tflt:
		return "float " + t.bitsName(&tn{bits: x.bits})
	case *tenum:
		return "enum " + t.bitsName(x.n)
	case *tptr:
		return "buffer+" + x.off.String()
	case topq:
		return x.d
	case *tsl:
		return fmt.Sprintf("input[%s:+%s] copied=%v text=%v", x.off, x.n, x.copied, x.text)
	case *tbytes:
		return "bytes of " + x.path
	case *tnew:
		return "new bytes " + x.n.String()
	case *tstr:
		return strconv.Quote(x.s)
	case *ttup:
		var s []string
		for _, k := range x.v {
			s = append(s, t.desc(k))
		}
		return "(" + strings.Join(s, ", ") + ")"
	}
	return fmt.Sprintf("%T", v)
}

func (p *tlPath) show() string {
	var b strings.Builder
	fmt.Fprintf(&b, "conds=%v err=%q cut=%q ret=%s\n", p.Conds, p.Err, p.Cut, p.TL.desc(p.Ret))
	var ks []string
	for k := range p.Mem {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "  [%s] = %s\n", k, p.TL.bitsName(p.TL.resN(&tn{bits: p.Mem[k], sx: bit0})))
	}
	ks = nil
	for k := range p.Fields {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "  %s = %s\n", k, p.TL.desc(p.Fields[k]))
	}
	for _, e := range p.Events {
		fmt.Fprintf(&b, "  event %s %s at %v n %v fail=%v\n", e.kind, e.path, e.at, e.n, e.fail)
	}
	for _, n := range p.Notes {
		fmt.Fprintf(&b, "  note %s\n", n)
	}
	return b.String()
}

// groups: the most seven-bit groups a length of the target's own type needs.
// Longer (malformed) prefixes are not explored.
func (t *TL) groups() int {
	if t.maxG > 0 {
		return t.maxG
	}
	switch t.lang {
	case "c", "cpp", "go", "python":
		return 10
	case "commonjs", "esm":
		return 5
	}
	return 5
}
