package main

// Canonical value expressions: a gated value graph over SSA, with calls to
// repository functions inlined, brought into an algebraic normal form so that
// two spellings of one computation compare equal.

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type X struct {
	Op   string // see constructors
	Lit  string
	Args []*X
	Fn   *ssa.Function // for Op "closure"
	Env  *Env          // for Op "closure": environment providing its bindings
	V    ssa.Value     // provenance of opaque values, not part of the key
	k    string
}

func (x *X) Key() string {
	if x.k == "" {
		if x.Op == "new" && len(x.Args) > 0 && x.Args[0].Lit == "@" {
			// an object with identity
			x.k = "new'" + x.Lit + "@" + x.Args[0].Args[0].Lit + "'"
			return x.k
		}
		var b strings.Builder
		b.WriteString(x.Op)
		if x.Lit != "" {
			b.WriteString("'" + x.Lit + "'")
		}
		if len(x.Args) > 0 {
			b.WriteString("(")
			for i, a := range x.Args {
				if i > 0 {
					b.WriteString(",")
				}
				b.WriteString(a.Key())
			}
			b.WriteString(")")
		}
		x.k = b.String()
		if len(x.k) > 1500 {
			// shared values make long keys explode: from here on a digest stands for it
			h := sha256.Sum256([]byte(x.k))
			x.k = x.Op + "#" + hex.EncodeToString(h[:16])
		}
	}
	return x.k
}

// String is a readable rendering.
func (x *X) String() string {
	left := 20000
	return x.str(&left)
}

func (x *X) str(left *int) string {
	if x == nil {
		return "<nil>"
	}
	*left--
	if *left < 0 {
		return "…"
	}
	as := func() string {
		var s []string
		for _, a := range x.Args {
			s = append(s, a.str(left))
		}
		return strings.Join(s, ", ")
	}
	switch x.Op {
	case "new":
		if len(x.Args) > 0 && x.Args[0].Lit == "@" {
			return x.Key()
		}
	case "int", "str", "bool", "sym", "const":
		if x.Op == "str" {
			return fmt.Sprintf("%q", x.Lit)
		}
		return x.Lit
	case "field":
		return x.Args[0].str(left) + "." + x.Lit
	case "add":
		var s []string
		for _, a := range x.Args {
			s = append(s, a.str(left))
		}
		return "(" + strings.Join(s, " + ") + ")"
	case "mul":
		var s []string
		for _, a := range x.Args {
			s = append(s, a.str(left))
		}
		return strings.Join(s, "*")
	case "lt0":
		return x.Args[0].str(left) + " < 0"
	case "eq0":
		return x.Args[0].str(left) + " == 0"
	}
	l := x.Op
	if x.Lit != "" {
		l += "'" + x.Lit + "'"
	}
	if len(x.Args) == 0 {
		return l
	}
	return l + "(" + as() + ")"
}

func mk(op, lit string, args ...*X) *X { return &X{Op: op, Lit: lit, Args: args} }
func Sym(n string) *X                  { return mk("sym", n) }
func Int(n int64) *X                   { return mk("int", fmt.Sprint(n)) }
func bigX(n *big.Int) *X               { return mk("int", n.String()) }
func Str(s string) *X                  { return mk("str", s) }
func Bool(b bool) *X                   { return mk("bool", fmt.Sprint(b)) }
func Eq(a, b *X) bool                  { return a != nil && b != nil && a.Key() == b.Key() }

func (x *X) IsInt() (*big.Int, bool) {
	if x.Op != "int" {
		return nil, false
	}
	n, ok := new(big.Int).SetString(x.Lit, 10)
	return n, ok
}

// ---------------------------------------------------------------- polynomials

type mono struct {
	c  *big.Int
	as []*X
}

func monoKey(as []*X) string {
	var s []string
	for _, a := range as {
		s = append(s, a.Key())
	}
	sort.Strings(s)
	return strings.Join(s, "*")
}

type poly map[string]*mono

func (p poly) addMono(c *big.Int, as []*X) {
	// combine powers of two
	var rest []*X
	var exp *X
	for _, a := range as {
		if a.Op == "pow2" {
			if exp == nil {
				exp = a.Args[0]
			} else {
				exp = Add(exp, a.Args[0])
			}
		} else {
			rest = append(rest, a)
		}
	}
	if exp != nil {
		e := Pow2(exp)
		switch e.Op {
		case "int":
			n, _ := e.IsInt()
			c = new(big.Int).Mul(c, n)
		case "mul":
			for _, a := range e.Args {
				if n, ok := a.IsInt(); ok {
					c = new(big.Int).Mul(c, n)
				} else {
					rest = append(rest, a)
				}
			}
		default:
			rest = append(rest, e)
		}
	}
	sort.Slice(rest, func(i, j int) bool { return rest[i].Key() < rest[j].Key() })
	k := monoKey(rest)
	if m, ok := p[k]; ok {
		m.c = new(big.Int).Add(m.c, c)
		if m.c.Sign() == 0 {
			delete(p, k)
		}
		return
	}
	if c.Sign() != 0 {
		p[k] = &mono{new(big.Int).Set(c), rest}
	}
}

func toPoly(x *X) poly {
	p := poly{}
	addInto(p, x, big.NewInt(1))
	return p
}

func addInto(p poly, x *X, c *big.Int) {
	switch x.Op {
	case "int":
		n, _ := x.IsInt()
		p.addMono(new(big.Int).Mul(c, n), nil)
	case "add":
		for _, a := range x.Args {
			addInto(p, a, c)
		}
	case "mul":
		cc := new(big.Int).Set(c)
		var as []*X
		for _, a := range x.Args {
			if n, ok := a.IsInt(); ok {
				cc.Mul(cc, n)
			} else {
				as = append(as, a)
			}
		}
		p.addMono(cc, as)
	default:
		p.addMono(c, []*X{x})
	}
}

func fromPoly(p poly) *X {
	if len(p) == 0 {
		return Int(0)
	}
	// push the remainder into a single min/max term of coefficient +-1
	var mmKey string
	n := 0
	for k, m := range p {
		if len(m.as) == 1 && (m.as[0].Op == "min" || m.as[0].Op == "max") {
			n++
			mmKey = k
		}
	}
	if n == 1 && len(p) > 1 {
		m := p[mmKey]
		if m.c.IsInt64() && (m.c.Int64() == 1 || m.c.Int64() == -1) {
			rest := poly{}
			for k, t := range p {
				if k != mmKey {
					rest[k] = t
				}
			}
			r := fromPoly(rest)
			var as []*X
			op := m.as[0].Op
			for _, a := range m.as[0].Args {
				if m.c.Int64() == 1 {
					as = append(as, Add(a, r))
				} else {
					as = append(as, Sub(r, a))
				}
			}
			if m.c.Int64() == -1 {
				if op == "min" {
					op = "max"
				} else {
					op = "min"
				}
			}
			return minmax(op, as...)
		}
	}
	if n == 1 && len(p) == 1 {
		m := p[mmKey]
		if m.c.IsInt64() && m.c.Int64() == -1 {
			op := "min"
			if m.as[0].Op == "min" {
				op = "max"
			}
			var as []*X
			for _, a := range m.as[0].Args {
				as = append(as, Neg(a))
			}
			return minmax(op, as...)
		}
	}
	var ks []string
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var ts []*X
	for _, k := range ks {
		m := p[k]
		if len(m.as) == 0 {
			ts = append(ts, bigX(m.c))
			continue
		}
		if m.c.IsInt64() && m.c.Int64() == 1 {
			if len(m.as) == 1 {
				ts = append(ts, m.as[0])
			} else {
				ts = append(ts, mk("mul", "", m.as...))
			}
			continue
		}
		ts = append(ts, mk("mul", "", append([]*X{bigX(m.c)}, m.as...)...))
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return mk("add", "", ts...)
}

func Add(a, b *X) *X {
	p := toPoly(a)
	addInto(p, b, big.NewInt(1))
	return fromPoly(p)
}
func Sub(a, b *X) *X {
	p := toPoly(a)
	addInto(p, b, big.NewInt(-1))
	return fromPoly(p)
}
func Neg(a *X) *X { return Sub(Int(0), a) }
func Mul(a, b *X) *X {
	pa, pb := toPoly(a), toPoly(b)
	r := poly{}
	for _, x := range pa {
		for _, y := range pb {
			r.addMono(new(big.Int).Mul(x.c, y.c), append(append([]*X{}, x.as...), y.as...))
		}
	}
	return fromPoly(r)
}

func isPow2(n *big.Int) (uint, bool) {
	if n.Sign() <= 0 {
		return 0, false
	}
	k := uint(n.BitLen() - 1)
	return k, new(big.Int).Lsh(big.NewInt(1), k).Cmp(n) == 0
}

// Pow2 is 2^e.
func Pow2(e *X) *X {
	p := toPoly(e)
	c := big.NewInt(0)
	if m, ok := p[""]; ok {
		c = m.c
	}
	if c.Sign() > 0 && c.IsInt64() && c.Int64() < 512 {
		r := poly{}
		for k, m := range p {
			if k != "" {
				r[k] = m
			}
		}
		f := new(big.Int).Lsh(big.NewInt(1), uint(c.Int64()))
		if len(r) == 0 {
			return bigX(f)
		}
		return mk("mul", "", bigX(f), mk("pow2", "", fromPoly(r)))
	}
	if len(p) == 0 {
		return Int(1)
	}
	return mk("pow2", "", fromPoly(p))
}

// divmod splits p into m*q + r termwise.
func divmod(x *X, m *big.Int) (q, r *X) {
	if x.Op == "min" || x.Op == "max" {
		return nil, x
	}
	p := toPoly(x)
	qp, rp := poly{}, poly{}
	for _, t := range p {
		if len(t.as) == 0 {
			qq, rr := new(big.Int).DivMod(t.c, m, new(big.Int))
			qp.addMono(qq, nil)
			rp.addMono(rr, nil)
			continue
		}
		qq, rr := new(big.Int).QuoRem(t.c, m, new(big.Int))
		if rr.Sign() == 0 {
			qp.addMono(qq, t.as)
		} else {
			rp.addMono(t.c, t.as)
		}
	}
	return fromPoly(qp), fromPoly(rp)
}

// Div and Mod assume non-negative operands (bit positions, widths, lengths).
func Div(x *X, m *big.Int) *X {
	if m.Cmp(big.NewInt(1)) == 0 {
		return x
	}
	q, r := divmod(x, m)
	if q == nil {
		return mk("div", m.String(), x)
	}
	if n, ok := r.IsInt(); ok {
		return Add(q, bigX(new(big.Int).Div(n, m)))
	}
	if r.Op == "mod" { // mod(x,k)/m with k<=m is 0
		if k, ok := new(big.Int).SetString(r.Lit, 10); ok && k.Cmp(m) <= 0 {
			return q
		}
	}
	return Add(q, mk("div", m.String(), r))
}
func Mod(x *X, m *big.Int) *X {
	_, r := divmod(x, m)
	if n, ok := r.IsInt(); ok {
		return bigX(new(big.Int).Mod(n, m))
	}
	if r.Op == "mod" {
		if k, ok := new(big.Int).SetString(r.Lit, 10); ok && k.Cmp(m) <= 0 {
			return r
		}
	}
	return mk("mod", m.String(), r)
}

func minmax(op string, args ...*X) *X {
	var flat []*X
	for _, a := range args {
		if a.Op == op {
			flat = append(flat, a.Args...)
		} else {
			flat = append(flat, a)
		}
	}
	// drop dominated entries whose difference is a constant
	var out []*X
	for i, a := range flat {
		drop := false
		for j, b := range flat {
			if i == j {
				continue
			}
			if n, ok := Sub(a, b).IsInt(); ok {
				s := n.Sign()
				if s == 0 {
					drop = drop || i > j
				} else if (op == "min") == (s > 0) {
					drop = true
				}
			}
		}
		if !drop {
			out = append(out, a)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Key() < out[j].Key() })
	return mk(op, "", out...)
}

// ---------------------------------------------------------------- booleans

func Lt(a, b *X) *X { // a < b over integers
	d := Sub(a, b)
	if n, ok := d.IsInt(); ok {
		return Bool(n.Sign() < 0)
	}
	return mk("lt0", "", d)
}
func Le(a, b *X) *X { return Lt(a, Add(b, Int(1))) }

func EqX(a, b *X) *X {
	if a.Key() == b.Key() && a.Op != "call" && a.Op != "opaque" {
		return Bool(true)
	}
	if (a.Op == "int" || b.Op == "int") || (isNumOp(a) && isNumOp(b)) {
		d := Sub(a, b)
		if n, ok := d.IsInt(); ok {
			return Bool(n.Sign() == 0)
		}
		nd := Neg(d)
		if nd.Key() < d.Key() {
			d = nd
		}
		return mk("eq0", "", d)
	}
	if a.Op == "bool" {
		a, b = b, a
	}
	if b.Op == "bool" {
		if b.Lit == "true" {
			return a
		}
		return Not(a)
	}
	if lit(a) && lit(b) {
		return Bool(a.Key() == b.Key())
	}
	if a.Op == "nil" && b.Op == "sel" || b.Op == "nil" && a.Op == "sel" {
		n, c := a, b
		if b.Op == "nil" {
			n, c = b, a
		}
		// decide per branch when one of them is known to be nil or not
		x, y := EqX(n, c.Args[1]), EqX(n, c.Args[2])
		if x.Op == "bool" || y.Op == "bool" {
			return Or(And(c.Args[0], x), And(Not(c.Args[0]), y))
		}
	}
	if a.Op == "nil" && nonNil(b) || b.Op == "nil" && nonNil(a) {
		return Bool(false)
	}
	if b.Key() < a.Key() {
		a, b = b, a
	}
	return mk("eq", "", a, b)
}

// nonNil: the value is a pointer to something.
func nonNil(x *X) bool { return x.Op == "new" || x.Op == "closure" }

func lit(x *X) bool { return x.Op == "str" || x.Op == "const" || x.Op == "int" || x.Op == "nil" }
func isNumOp(x *X) bool {
	switch x.Op {
	case "int", "add", "mul", "mod", "div", "min", "max", "pow2":
		return true
	}
	return false
}

func Not(a *X) *X {
	switch a.Op {
	case "bool":
		return Bool(a.Lit != "true")
	case "not":
		return a.Args[0]
	case "lt0":
		return Lt(Neg(a.Args[0]), Int(1))
	case "and":
		var s []*X
		for _, x := range a.Args {
			s = append(s, Not(x))
		}
		return Or(s...)
	case "or":
		var s []*X
		for _, x := range a.Args {
			s = append(s, Not(x))
		}
		return And(s...)
	}
	return mk("not", "", a)
}

func And(xs ...*X) *X { return boolop("and", xs) }
func Or(xs ...*X) *X  { return boolop("or", xs) }
func boolop(op string, xs []*X) *X {
	absorb, unit := "false", "true"
	if op == "or" {
		absorb, unit = "true", "false"
	}
	seen := map[string]*X{}
	var walk func(x *X) bool
	walk = func(x *X) bool {
		if x.Op == op {
			for _, a := range x.Args {
				if walk(a) {
					return true
				}
			}
			return false
		}
		if x.Op == "bool" {
			return x.Lit == absorb
		}
		seen[x.Key()] = x
		return false
	}
	for _, x := range xs {
		if walk(x) {
			return Bool(absorb == "true")
		}
	}
	order := func() []string {
		var ks []string
		for k := range seen {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return ks
	}
	for _, x := range seen {
		if _, ok := seen[Not(x).Key()]; ok {
			return Bool(absorb == "true")
		}
	}
	if len(seen) == 0 {
		return Bool(unit == "true")
	}
	// unit resolution: in an "or", drop from an "and" term whatever another term negates, and dually
	dual := "and"
	if op == "and" {
		dual = "or"
	}
	for _, k := range order() {
		x := seen[k]
		if x == nil || x.Op != dual {
			continue
		}
		var keep []*X
		changed := false
		for _, a := range x.Args {
			if _, ok := seen[Not(a).Key()]; ok {
				changed = true
				continue
			}
			keep = append(keep, a)
		}
		if changed {
			delete(seen, k)
			var rest []*X
			for _, k := range order() {
				rest = append(rest, seen[k])
			}
			rest = append(rest, boolop(dual, keep))
			return boolop(op, rest)
		}
		// absorption
		for _, a := range x.Args {
			if _, ok := seen[a.Key()]; ok {
				delete(seen, k)
				break
			}
		}
	}
	ks := order()
	if len(ks) == 1 {
		return seen[ks[0]]
	}
	var as []*X
	for _, k := range ks {
		as = append(as, seen[k])
	}
	return mk(op, "", as...)
}

func isBoolX(x *X) bool {
	switch x.Op {
	case "bool", "and", "or", "not", "lt0", "eq0", "eq", "is":
		return true
	}
	return false
}

// Sel is "c ? a : b"; bottom marks an impossible branch.
var bottom = mk("bottom", "")

func Sel(c, a, b *X) *X {
	if a.Op == "bottom" {
		return b
	}
	if b.Op == "bottom" {
		return a
	}
	if c.Op == "bool" {
		if c.Lit == "true" {
			return a
		}
		return b
	}
	if a.Key() == b.Key() {
		return a
	}
	if c.Op == "not" {
		return Sel(c.Args[0], b, a)
	}
	if isBoolX(a) && isBoolX(b) || a.Op == "bool" || b.Op == "bool" {
		return Or(And(c, a), And(Not(c), b))
	}
	if c.Op == "lt0" {
		// (x<y)?x:y
		if Eq(Lt(a, b), c) || Eq(Le(a, b), c) {
			return minmax("min", a, b)
		}
		if Eq(Lt(b, a), c) || Eq(Le(b, a), c) {
			return minmax("max", a, b)
		}
	}
	// the same condition nested below is already decided
	a, b = assume(a, c, true), assume(b, c, false)
	if a.Key() == b.Key() {
		return a
	}
	nc := Not(c)
	if c.Op != "not" && nc.Op != "not" && nc.Key() < c.Key() {
		c, a, b = nc, b, a
	}
	return mk("sel", "", c, a, b)
}

func assume(x, c *X, v bool) *X {
	if x.Op == "sel" {
		if Eq(x.Args[0], c) {
			if v {
				return assume(x.Args[1], c, v)
			}
			return assume(x.Args[2], c, v)
		}
		if Eq(x.Args[0], Not(c)) {
			if v {
				return assume(x.Args[2], c, v)
			}
			return assume(x.Args[1], c, v)
		}
	}
	return x
}

// Concat joins strings.
func Concat(xs ...*X) *X {
	var out []*X
	var add func(x *X)
	add = func(x *X) {
		if x.Op == "cat" {
			for _, a := range x.Args {
				add(a)
			}
			return
		}
		if x.Op == "str" {
			if x.Lit == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].Op == "str" {
				out[n-1] = Str(out[n-1].Lit + x.Lit)
				return
			}
		}
		out = append(out, x)
	}
	for _, x := range xs {
		add(x)
	}
	if len(out) == 0 {
		return Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("cat", "", out...)
}

// Subst rebuilds x with f applied bottom-up where f returns non-nil.
func Subst(x *X, f func(*X) *X) *X {
	memo := map[*X]*X{}
	var do func(x *X) *X
	do = func(x *X) *X {
		if len(x.Args) > 0 {
			if r := memo[x]; r != nil {
				return r
			}
		}
		r := f(x)
		if r == nil {
			r = x
			if len(x.Args) > 0 {
				as := make([]*X, len(x.Args))
				changed := false
				for i, a := range x.Args {
					as[i] = do(a)
					changed = changed || as[i] != a
				}
				if changed {
					r = rebuild(x, as)
				}
			}
		}
		if len(x.Args) > 0 {
			memo[x] = r
		}
		return r
	}
	return do(x)
}

func rebuild(x *X, as []*X) *X {
	switch x.Op {
	case "add":
		r := Int(0)
		for _, a := range as {
			r = Add(r, a)
		}
		return r
	case "mul":
		r := Int(1)
		for _, a := range as {
			r = Mul(r, a)
		}
		return r
	case "div", "mod":
		m, _ := new(big.Int).SetString(x.Lit, 10)
		if x.Op == "div" {
			return Div(as[0], m)
		}
		return Mod(as[0], m)
	case "pow2":
		return Pow2(as[0])
	case "min", "max":
		return minmax(x.Op, as...)
	case "lt0":
		return Lt(as[0], Int(0))
	case "eq0":
		return EqX(as[0], Int(0))
	case "eq":
		return EqX(as[0], as[1])
	case "not":
		return Not(as[0])
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "sel":
		return Sel(as[0], as[1], as[2])
	case "cat":
		return Concat(as...)
	case "field":
		return fieldOf(as[0], x.Lit)
	case "is":
		if _, ok := as[0].IsInt(); ok && strings.HasPrefix(x.Lit, "int") {
			return Bool(x.Lit == "int64")
		} else if ok {
			return Bool(false)
		}
	case "bin", "shr":
		a, ok1 := as[0].IsInt()
		b, ok2 := as[len(as)-1].IsInt()
		if ok2 && len(as) == 2 {
			switch {
			case x.Op == "shr" && b.IsInt64() && b.Int64() >= 0 && b.Int64() < 64:
				m := new(big.Int).Lsh(big.NewInt(1), uint(b.Int64()))
				if ok1 {
					return bigX(new(big.Int).Div(a, m))
				}
				return Div(as[0], m)
			case x.Lit == "%" && ok1 && b.Sign() != 0:
				return bigX(new(big.Int).Rem(a, b))
			case x.Lit == "/" && ok1 && b.Sign() != 0:
				return bigX(new(big.Int).Quo(a, b))
			}
		}
	case "index":
		if n, ok := as[1].IsInt(); ok && as[0].Op == "list" && n.IsInt64() && n.Int64() >= 0 && n.Int64() < int64(len(as[0].Args)) {
			return as[0].Args[n.Int64()]
		}
	}
	return &X{Op: x.Op, Lit: x.Lit, Args: as, Fn: x.Fn, Env: x.Env, V: x.V}
}

// Find visits every node.
// Walk visits every value x is made of; in large values shared ones only once.
func (x *X) Walk(f func(*X)) {
	n := 0
	var seen map[*X]bool
	var do func(x *X)
	do = func(x *X) {
		if n++; n > 300 && len(x.Args) > 0 {
			if seen == nil {
				seen = map[*X]bool{}
			}
			if seen[x] {
				return
			}
			seen[x] = true
		}
		f(x)
		for _, a := range x.Args {
			do(a)
		}
	}
	do(x)
}
func (x *X) Has(pred func(*X) bool) bool {
	found := false
	x.Walk(func(y *X) {
		if pred(y) {
			found = true
		}
	})
	return found
}

// ---------------------------------------------------------------- evaluation

type Env struct {
	fn     *ssa.Function
	bind   map[ssa.Value]*X
	parent *Env
	depth  int
	memo   map[ssa.Value]*X
	busy   map[ssa.Value]bool
	args   []ssa.Value // actual arguments, when the environment stands for one call
}

type Eval struct {
	w        *World
	muDepth  int
	rawOM    bool // look inside ordered tables
	texts    bool // a rendering is its text
	budget   int
	NoInline map[*ssa.Function]bool
	refs     map[*ssa.Function]bool
	globals  map[*ssa.Global]*X
	gstores  map[*ssa.Global][]*ssa.Store
	cellBusy map[ssa.Value]bool
}

func NewEval(w *World) *Eval { return &Eval{w: w, NoInline: map[*ssa.Function]bool{}} }

func (e *Eval) Root(fn *ssa.Function) *Env {
	return &Env{fn: fn, bind: map[ssa.Value]*X{}, memo: map[ssa.Value]*X{}, busy: map[ssa.Value]bool{}}
}

// RootBound binds the parameters by position to symbols named after their role.
func (e *Eval) RootBound(fn *ssa.Function, names ...string) *Env {
	env := e.Root(fn)
	for i, p := range fn.Params {
		if i < len(names) && names[i] != "" {
			env.bind[p] = Sym(names[i])
		}
	}
	return env
}

func (e *Eval) call(env *Env, fn *ssa.Function, args []*X) *Env {
	n := &Env{fn: fn, bind: map[ssa.Value]*X{}, parent: env, depth: env.depth + 1, memo: map[ssa.Value]*X{}, busy: map[ssa.Value]bool{}}
	for i, p := range fn.Params {
		if i < len(args) {
			n.bind[p] = args[i]
		}
	}
	return n
}

func (e *Eval) onStack(env *Env, fn *ssa.Function) bool {
	for x := env; x != nil; x = x.parent {
		if x.fn == fn {
			return true
		}
	}
	return false
}

func opaque(v ssa.Value) *X {
	return &X{Op: "opaque", Lit: fmt.Sprintf("%s:%s", fnName(v.Parent()), v.Name()), V: v}
}

func isIntType(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStringType(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolType(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func constX(c *ssa.Const) *X {
	if c.Value == nil {
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Kind() != types.UntypedNil {
			return mk("const", "zero")
		}
		if _, ok := c.Type().Underlying().(*types.Struct); ok {
			return mk("new", typeName(c.Type()))
		}
		return mk("nil", "")
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int:
		n, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if ok {
			if isIntType(c.Type()) {
				return bigX(n)
			}
			return mk("const", n.String())
		}
	}
	return mk("const", c.Value.ExactString())
}

// Val evaluates v in env.
func (e *Eval) Val(env *Env, v ssa.Value) *X {
	if b, ok := env.bind[v]; ok {
		return b
	}
	if m, ok := env.memo[v]; ok {
		return m
	}
	if env.busy[v] {
		return opaque(v)
	}
	e.budget++
	env.busy[v] = true
	x := e.val(env, v)
	delete(env.busy, v)
	if e.muDepth == 0 {
		env.memo[v] = x
	}
	if x.V == nil && x.Op != "int" && x.Op != "str" && x.Op != "bool" {
		x.V = v
	}
	return x
}

func (e *Eval) val(env *Env, v ssa.Value) *X {
	switch v := v.(type) {
	case *ssa.Const:
		return constX(v)
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v {
				return &X{Op: "param", Lit: fmt.Sprintf("%d", i), V: v}
			}
		}
	case *ssa.FreeVar:
		// resolve through the (unique) closure creation in the parent
		if mc := e.makeClosureOf(v.Parent()); mc != nil {
			for i, fv := range v.Parent().FreeVars {
				if fv == v {
					penv := env.parentFor(mc.Parent())
					if penv == nil {
						penv = e.Root(mc.Parent())
					}
					return e.Val(penv, mc.Bindings[i])
				}
			}
		}
		return opaque(v)
	case *ssa.Function:
		return &X{Op: "closure", Lit: fnName(v), Fn: v}
	case *ssa.MakeClosure:
		fn := v.Fn.(*ssa.Function)
		return &X{Op: "closure", Lit: fnName(fn), Fn: fn, Env: env, V: v}
	case *ssa.Global:
		return &X{Op: "global", Lit: strings.TrimPrefix(strings.ReplaceAll(v.RelString(nil), modPath+"/", ""), modPath+"."), V: v}
	case *ssa.Builtin:
		return mk("builtin", v.Name())
	case *ssa.MakeInterface:
		return e.Val(env, v.X)
	case *ssa.ChangeInterface:
		return e.Val(env, v.X)
	case *ssa.ChangeType:
		return e.Val(env, v.X)
	case *ssa.Convert:
		if isIntType(v.Type()) && isIntType(v.X.Type()) {
			if w := intWidth(v.Type()); w < intWidth(v.X.Type()) {
				x := e.Val(env, v.X)
				if n, ok := x.IsInt(); ok && n.Sign() >= 0 && n.BitLen() < w {
					return x
				}
				return mk("conv", typeName(v.Type()), x)
			}
			return e.Val(env, v.X)
		}
		if isStringType(v.Type()) && isStringType(v.X.Type()) {
			return e.Val(env, v.X)
		}
		return mk("conv", typeName(v.Type()), e.Val(env, v.X))
	case *ssa.MultiConvert:
		return e.Val(env, v.X)
	case *ssa.TypeAssert:
		if v.CommaOk {
			return mk("tuple", "", e.Val(env, v.X), mk("is", typeName(v.AssertedType), e.Val(env, v.X)))
		}
		return e.Val(env, v.X)
	case *ssa.Extract:
		t := e.Val(env, v.Tuple)
		if t.Op == "tuple" && v.Index < len(t.Args) {
			return t.Args[v.Index]
		}
		if t.Op == "sel" {
			return selMap(t, func(y *X) *X {
				if y.Op == "tuple" && v.Index < len(y.Args) {
					return y.Args[v.Index]
				}
				return mk("extract", fmt.Sprint(v.Index), y)
			})
		}
		return &X{Op: "extract", Lit: fmt.Sprint(v.Index), Args: []*X{t}, V: v}
	case *ssa.FieldAddr:
		st := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return mk("addr", st.Field(v.Field).Name(), e.Val(env, v.X))
	case *ssa.Field:
		st := v.X.Type().Underlying().(*types.Struct)
		b := e.Val(env, v.X)
		return fieldOf(b, st.Field(v.Field).Name())
	case *ssa.IndexAddr:
		return mk("addrIdx", "", e.Val(env, v.X), e.Val(env, v.Index))
	case *ssa.Index:
		return mk("index", "", e.Val(env, v.X), e.Val(env, v.Index))
	case *ssa.Lookup:
		x := mk("lookup", "", e.Val(env, v.X), e.Val(env, v.Index))
		if v.CommaOk {
			return mk("tuple", "", x, mk("has", "", x.Args...))
		}
		return x
	case *ssa.Slice:
		return e.sliceVal(env, v)
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			return e.load(env, v)
		case token.NOT:
			return Not(e.Val(env, v.X))
		case token.SUB:
			if isIntType(v.Type()) {
				return Neg(e.Val(env, v.X))
			}
			return mk("neg", "", e.Val(env, v.X))
		case token.XOR:
			// ^x = -x-1 over two's complement
			return Sub(Neg(e.Val(env, v.X)), Int(1))
		case token.ARROW:
			return opaque(v)
		}
	case *ssa.BinOp:
		return e.binop(env, v)
	case *ssa.Phi:
		return e.phi(env, v)
	case *ssa.Alloc:
		return e.alloc(env, v)
	case *ssa.MakeMap:
		return e.makeMap(env, v)
	case *ssa.MakeSlice:
		return mk("makeslice", "", e.Val(env, v.Len))
	case *ssa.Call:
		return e.callVal(env, v)
	case *ssa.SliceToArrayPointer:
		return e.Val(env, v.X)
	case *ssa.Range:
		return mk("range", "", e.Val(env, v.X))
	case *ssa.Next:
		it := e.Val(env, v.Iter)
		return mk("tuple", "", mk("more", "", it), mk("key", "", it), mk("elem", "", it))
	}
	return opaque(v)
}

func (env *Env) parentFor(fn *ssa.Function) *Env {
	for x := env; x != nil; x = x.parent {
		if x.fn == fn {
			return x
		}
	}
	return nil
}

func (e *Eval) makeClosureOf(fn *ssa.Function) *ssa.MakeClosure {
	p := fn.Parent()
	if p == nil {
		return nil
	}
	for _, b := range p.Blocks {
		for _, i := range b.Instrs {
			if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == fn {
				return mc
			}
		}
	}
	return nil
}

func selMap(x *X, f func(*X) *X) *X {
	if x.Op == "sel" {
		return Sel(x.Args[0], selMap(x.Args[1], f), selMap(x.Args[2], f))
	}
	return f(x)
}

// fieldOf selects a field of a value; known composites are looked into.
func fieldOf(b *X, name string) *X {
	if b.Op == "new" {
		for _, kv := range b.Args {
			if kv.Op == "kv" && kv.Lit == name {
				return kv.Args[0]
			}
		}
		if len(b.Args) > 0 {
			return mk("const", "zero")
		}
	}
	if b.Op == "sel" {
		return selMap(b, func(y *X) *X { return fieldOf(y, name) })
	}
	return mk("field", name, b)
}

// cell collects the stores to an allocation in its function and the closures that capture it.
func (e *Eval) stores(al ssa.Value) []*ssa.Store {
	var out []*ssa.Store
	seen := map[ssa.Value]bool{}
	var visit func(a ssa.Value)
	visit = func(a ssa.Value) {
		if seen[a] || a.Referrers() == nil {
			return
		}
		seen[a] = true
		for _, r := range *a.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == a {
					out = append(out, r)
				}
			case *ssa.MakeClosure:
				for i, b := range r.Bindings {
					if b == a {
						visit(r.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			}
		}
	}
	visit(al)
	return out
}

func (e *Eval) rootCell(env *Env, v ssa.Value) (ssa.Value, *Env) {
	for {
		fv, ok := v.(*ssa.FreeVar)
		if !ok {
			return v, env
		}
		mc := e.makeClosureOf(fv.Parent())
		if mc == nil {
			return v, env
		}
		for i, f := range fv.Parent().FreeVars {
			if f == fv {
				v = mc.Bindings[i]
			}
		}
		p := env.parentFor(mc.Parent())
		if p == nil {
			p = e.Root(mc.Parent())
		}
		env = p
	}
}

func (e *Eval) load(env *Env, v *ssa.UnOp) *X {
	switch a := v.X.(type) {
	case *ssa.Global:
		return e.Val(env, a)
	case *ssa.FieldAddr:
		st := a.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		name := st.Field(a.Field).Name()
		if e.w.mutated(a) {
			// anyone holding the object may have changed the field since
			return selMap(e.Val(env, a.X), func(y *X) *X { return mk("field", name, y) })
		}
		// local composite with a single store to that field
		if al, ok := a.X.(*ssa.Alloc); ok {
			if x := e.localField(env, al, a.Field, v); x != nil {
				return x
			}
		}
		return fieldOf(e.Val(env, a.X), name)
	case *ssa.IndexAddr:
		return mk("index", "", e.Val(env, a.X), e.Val(env, a.Index))
	case *ssa.Alloc, *ssa.FreeVar:
		cell, cenv := e.rootCell(env, v.X)
		return e.cellValue(cenv, cell, v)
	}
	return mk("deref", "", e.Val(env, v.X))
}

func (e *Eval) localField(env *Env, al *ssa.Alloc, field int, at *ssa.UnOp) *X {
	if al.Referrers() == nil {
		return nil
	}
	if fieldEscapes(al, field) {
		return cellFieldX(al, field)
	}
	var sts []*ssa.Store
	whole := 0
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.FieldAddr:
			if r.Field == field && r.Referrers() != nil {
				for _, q := range *r.Referrers() {
					if s, ok := q.(*ssa.Store); ok && s.Addr == r {
						sts = append(sts, s)
					}
				}
			}
		case *ssa.Store:
			if r.Addr == al {
				whole++
			}
		}
	}
	if len(sts) == 1 && whole == 0 {
		return e.Val(env, sts[0].Val)
	}
	if len(sts) == 0 && whole == 1 {
		for _, r := range *al.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == al {
				st := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				return fieldOf(e.Val(env, s.Val), st.Field(field).Name())
			}
		}
	}
	return nil
}

// cellValue is the value of a memory cell at a load.
func (e *Eval) cellValue(env *Env, cell ssa.Value, at *ssa.UnOp) *X {
	al, ok := cell.(*ssa.Alloc)
	if !ok {
		return mk("deref", "", e.Val(env, cell))
	}
	sts := e.stores(al)
	if _, isStruct := deref(al.Type()).Underlying().(*types.Struct); !isStruct && escapes(al) {
		// someone else writes it through its address
		return cellX(al)
	}
	// struct built field by field
	if len(sts) == 0 {
		if _, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok {
			return e.alloc(env, al)
		}
		return mk("const", "zero")
	}
	if len(sts) == 1 && sts[0].Parent() == env.fn {
		return e.Val(env, sts[0].Val)
	}
	// nearest dominating store in the same function if the cell is only stored there
	if at != nil && at.Parent() == env.fn {
		same := true
		for _, s := range sts {
			if s.Parent() != at.Parent() {
				same = false
			}
		}
		if same {
			if x := e.gatedStore(env, sts, at.Block(), at); x != nil {
				return x
			}
		}
	}
	// value at the end of the creating function when captured by a closure: gate over stores
	if at == nil || at.Parent() != env.fn {
		same := true
		for _, s := range sts {
			if s.Parent() != env.fn {
				same = false
			}
		}
		if same {
			// the conditional-override idiom: x := a; if c { x = b }
			if len(sts) == 2 {
				a, b := sts[0], sts[1]
				if b.Block().Dominates(a.Block()) && b.Block() != a.Block() {
					a, b = b, a
				}
				if a.Block().Dominates(b.Block()) && a.Block() != b.Block() {
					g := e.PathCond(env, a.Block(), b.Block())
					return Sel(g, e.Val(env, b.Val), e.Val(env, a.Val))
				}
			}
		}
	}
	if e.cellBusy[al] {
		return cellX(al)
	}
	if e.cellBusy == nil {
		e.cellBusy = map[ssa.Value]bool{}
	}
	e.cellBusy[al] = true
	defer delete(e.cellBusy, al)
	var xs []*X
	for _, s := range sts {
		if s.Parent() == env.fn {
			xs = append(xs, e.Val(env, s.Val))
		} else {
			xs = append(xs, e.Val(e.Root(s.Parent()), s.Val))
		}
	}
	sort.Slice(xs, func(i, j int) bool { return xs[i].Key() < xs[j].Key() })
	return mk("anyof", "", xs...)
}

// gatedStore finds the value reaching a load by walking single-predecessor chains and simple joins.
func (e *Eval) gatedStore(env *Env, sts []*ssa.Store, b *ssa.BasicBlock, at ssa.Instruction) *X {
	byBlock := map[*ssa.BasicBlock][]*ssa.Store{}
	for _, s := range sts {
		byBlock[s.Block()] = append(byBlock[s.Block()], s)
	}
	visiting := map[*ssa.BasicBlock]bool{}
	var exit func(b *ssa.BasicBlock) *X
	var entry func(b *ssa.BasicBlock) *X
	exit = func(b *ssa.BasicBlock) *X {
		if ss := byBlock[b]; len(ss) > 0 {
			last := ss[0]
			for _, s := range ss {
				if instrIndex(s) > instrIndex(last) {
					last = s
				}
			}
			return e.Val(env, last.Val)
		}
		return entry(b)
	}
	entry = func(b *ssa.BasicBlock) *X {
		if visiting[b] {
			return nil
		}
		visiting[b] = true
		defer delete(visiting, b)
		if len(b.Preds) == 0 {
			return mk("const", "zero")
		}
		var xs []*X
		for _, p := range b.Preds {
			if b.Dominates(p) {
				return nil // loop-carried
			}
			x := exit(p)
			if x == nil {
				return nil
			}
			xs = append(xs, x)
		}
		same := true
		for _, x := range xs {
			same = same && Eq(x, xs[0])
		}
		if same {
			return xs[0]
		}
		return e.gate(env, b, func(i int) *X { return xs[i] })
	}
	var before *ssa.Store
	for _, s := range byBlock[b] {
		if instrIndex(s) < instrIndex(at) && (before == nil || instrIndex(s) > instrIndex(before)) {
			before = s
		}
	}
	if before != nil {
		return e.Val(env, before.Val)
	}
	return entry(b)
}

func instrIndex(i ssa.Instruction) int {
	for k, j := range i.Block().Instrs {
		if j == i {
			return k
		}
	}
	return -1
}

// alloc represents a locally built composite: the pointer and the value share one form.
func (e *Eval) alloc(env *Env, al *ssa.Alloc) *X {
	el := al.Type().Underlying().(*types.Pointer).Elem()
	if _, ok := el.Underlying().(*types.Struct); ok {
		x := mk("new", typeName(el))
		if e.w.hasIdentity(el) {
			x.Args = append(x.Args, mk("kv", "@", Str(fnName(al.Parent())+":"+al.Name())))
		}
		if al.Referrers() != nil {
			st := el.Underlying().(*types.Struct)
			per := map[int][]*ssa.Store{}
			for _, r := range *al.Referrers() {
				if fa, ok := r.(*ssa.FieldAddr); ok && fa.Referrers() != nil {
					for _, q := range *fa.Referrers() {
						if s, ok := q.(*ssa.Store); ok && s.Addr == fa {
							per[fa.Field] = append(per[fa.Field], s)
						}
					}
				}
				if s, ok := r.(*ssa.Store); ok && s.Addr == al {
					return e.Val(env, s.Val)
				}
			}
			for i := 0; i < st.NumFields(); i++ {
				ss := per[i]
				if fieldEscapes(al, i) {
					x.Args = append(x.Args, mk("kv", st.Field(i).Name(), cellFieldX(al, i)))
				} else if len(ss) == 1 {
					x.Args = append(x.Args, mk("kv", st.Field(i).Name(), e.Val(env, ss[0].Val)))
				} else if len(ss) > 1 {
					var xs []*X
					for _, s := range ss {
						xs = append(xs, e.Val(env, s.Val))
					}
					x.Args = append(x.Args, mk("kv", st.Field(i).Name(), mk("anyof", "", xs...)))
				}
			}
		}
		return x
	}
	return &X{Op: "cell", Lit: fnName(al.Parent()) + ":" + al.Name(), V: al}
}

func (e *Eval) sliceVal(env *Env, v *ssa.Slice) *X {
	if al, ok := v.X.(*ssa.Alloc); ok && al.Referrers() != nil {
		if arr, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
			el := make([]*X, arr.Len())
			for _, r := range *al.Referrers() {
				ia, ok := r.(*ssa.IndexAddr)
				if !ok || ia.Referrers() == nil {
					continue
				}
				c, ok := ia.Index.(*ssa.Const)
				if !ok {
					continue
				}
				idx, _ := constant.Int64Val(c.Value)
				for _, q := range *ia.Referrers() {
					if s, ok := q.(*ssa.Store); ok && s.Addr == ia && idx < int64(len(el)) {
						el[idx] = e.Val(env, s.Val)
					}
				}
			}
			for i := range el {
				if el[i] == nil {
					el[i] = mk("const", "zero")
				}
			}
			return mk("list", "", el...)
		}
	}
	x := e.Val(env, v.X)
	lo, hi := mk("nil", ""), mk("nil", "")
	if v.Low != nil {
		lo = e.Val(env, v.Low)
	}
	if v.High != nil {
		hi = e.Val(env, v.High)
	}
	if lo.Op == "nil" && hi.Op == "nil" {
		return x
	}
	return mk("slice", "", x, lo, hi)
}

func (e *Eval) makeMap(env *Env, v *ssa.MakeMap) *X {
	x := mk("map", "")
	x.V = v
	if v.Referrers() != nil {
		for _, r := range *v.Referrers() {
			if u, ok := r.(*ssa.MapUpdate); ok && u.Map == v {
				k := e.Val(env, u.Key)
				val := e.Val(env, u.Value)
				x.Args = append(x.Args, mk("entry", "", k, val))
			}
		}
	}
	sort.SliceStable(x.Args, func(i, j int) bool { return x.Args[i].Args[0].Key() < x.Args[j].Args[0].Key() })
	return x
}

func (e *Eval) binop(env *Env, v *ssa.BinOp) *X {
	a, b := e.Val(env, v.X), e.Val(env, v.Y)
	isInt := isIntType(v.X.Type())
	switch v.Op {
	case token.ADD:
		if isStringType(v.X.Type()) {
			return Concat(a, b)
		}
		if isInt {
			return Add(a, b)
		}
	case token.SUB:
		if isInt {
			return Sub(a, b)
		}
	case token.MUL:
		if isInt {
			return Mul(a, b)
		}
	case token.QUO:
		if n, ok := b.IsInt(); ok && isInt && n.Sign() > 0 {
			return Div(a, n)
		}
	case token.REM:
		if n, ok := b.IsInt(); ok && isInt && n.Sign() > 0 {
			return Mod(a, n)
		}
	case token.SHL:
		return Mul(a, Pow2(b))
	case token.SHR:
		if n, ok := b.IsInt(); ok && n.IsInt64() && n.Int64() < 64 {
			return Div(a, new(big.Int).Lsh(big.NewInt(1), uint(n.Int64())))
		}
		return mk("shr", "", a, b)
	case token.AND:
		return AndBits(a, b)
	case token.AND_NOT:
		return AndBits(a, Sub(Neg(b), Int(1)))
	case token.OR:
		as := []*X{a, b}
		sort.Slice(as, func(i, j int) bool { return as[i].Key() < as[j].Key() })
		return mk("bor", "", as...)
	case token.XOR:
		as := []*X{a, b}
		sort.Slice(as, func(i, j int) bool { return as[i].Key() < as[j].Key() })
		return mk("bxor", "", as...)
	case token.EQL:
		return EqX(a, b)
	case token.NEQ:
		return Not(EqX(a, b))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isInt {
			switch v.Op {
			case token.LSS:
				return Lt(a, b)
			case token.LEQ:
				return Le(a, b)
			case token.GTR:
				return Lt(b, a)
			default:
				return Le(b, a)
			}
		}
		switch v.Op {
		case token.LSS:
			return mk("less", "", a, b)
		case token.GTR:
			return mk("less", "", b, a)
		case token.LEQ:
			return mk("lesseq", "", a, b)
		default:
			return mk("lesseq", "", b, a)
		}
	}
	return mk("bin", v.Op.String(), a, b)
}

// AndBits is a & b with the mask idioms recognised.
func AndBits(a, b *X) *X {
	if _, ok := a.IsInt(); ok {
		a, b = b, a
	}
	if n, ok := b.IsInt(); ok {
		if m, ok := a.IsInt(); ok {
			return bigX(new(big.Int).And(m, n))
		}
		n1 := new(big.Int).Add(n, big.NewInt(1))
		if _, ok := isPow2(n1); ok { // x & (2^k-1)
			return Mod(a, n1)
		}
		neg := new(big.Int).Neg(n)
		if _, ok := isPow2(neg); ok { // x & -2^k
			return Mul(bigX(neg), Div(a, neg))
		}
	}
	// (2^b - 1) & -(2^a)  ==  2^b - 2^a   (a <= b)
	for i := 0; i < 2; i++ {
		p := Add(a, Int(1))
		q := Neg(b)
		if isPow2X(p) && isPow2X(q) {
			return Sub(p, q)
		}
		a, b = b, a
	}
	as := []*X{a, b}
	sort.Slice(as, func(i, j int) bool { return as[i].Key() < as[j].Key() })
	return mk("band", "", as...)
}

func isPow2X(x *X) bool {
	switch x.Op {
	case "pow2":
		return true
	case "int":
		n, _ := x.IsInt()
		_, ok := isPow2(n)
		return ok
	case "mul":
		for _, a := range x.Args {
			if !isPow2X(a) {
				return false
			}
		}
		return true
	}
	return false
}

// ---------------------------------------------------------------- control

// phi evaluates a join; loop-header phis become recurrences.
func (e *Eval) phi(env *Env, v *ssa.Phi) *X {
	b := v.Block()
	loop := false
	for _, p := range b.Preds {
		if b.Dominates(p) {
			loop = true
		}
	}
	if !loop {
		return e.gate(env, b, func(i int) *X { return e.Val(env, v.Edges[i]) })
	}
	// loop variable: init from outside, step from the back edges
	e.muDepth++
	mu := mk("mu", fmt.Sprint(e.muDepth))
	env.bind[v] = mu
	var init, step []*X
	for i, p := range b.Preds {
		x := e.Val(env, v.Edges[i])
		if b.Dominates(p) {
			step = append(step, x)
		} else {
			init = append(init, x)
		}
	}
	delete(env.bind, v)
	e.muDepth--
	one := func(xs []*X) *X {
		xs = dedup(xs)
		if len(xs) == 1 {
			return xs[0]
		}
		return mk("anyof", "", xs...)
	}
	st := one(step)
	if st.Key() == mu.Key() {
		return one(init)
	}
	return &X{Op: "loop", Args: []*X{one(init), st}, V: v}
}

func dedup(xs []*X) []*X {
	seen := map[string]bool{}
	var out []*X
	for _, x := range xs {
		if !seen[x.Key()] {
			seen[x.Key()] = true
			out = append(out, x)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Key() < out[j].Key() })
	return out
}

// gate merges the values arriving on b's incoming edges under the conditions decided since b's dominator.
func (e *Eval) gate(env *Env, b *ssa.BasicBlock, edge func(i int) *X) *X {
	d := b.Idom()
	if d == nil {
		return edge(0)
	}
	memo := map[*ssa.BasicBlock]*X{}
	var from func(x *ssa.BasicBlock, depth int) *X
	// value at b when control is at the end of x
	toward := func(x, s *ssa.BasicBlock, depth int) *X {
		if s == b {
			for i, p := range b.Preds {
				if p == x {
					return edge(i)
				}
			}
		}
		if !d.Dominates(s) || s == d || s.Dominates(x) {
			return bottom
		}
		return from(s, depth+1)
	}
	from = func(x *ssa.BasicBlock, depth int) *X {
		if m, ok := memo[x]; ok {
			return m
		}
		if depth > 200 {
			return bottom
		}
		var r *X
		switch t := x.Instrs[len(x.Instrs)-1].(type) {
		case *ssa.If:
			if x.Succs[0] == x.Succs[1] {
				r = toward(x, x.Succs[0], depth)
				break
			}
			a := toward(x, x.Succs[0], depth)
			c := toward(x, x.Succs[1], depth)
			if a.Op == "bottom" || c.Op == "bottom" {
				r = Sel(Bool(true), a, c)
				if a.Op == "bottom" {
					r = c
				}
				break
			}
			// a two-predecessor short cut: same successor both edges handled above
			r = Sel(e.Val(env, t.Cond), a, c)
		case *ssa.Jump:
			r = toward(x, x.Succs[0], depth)
		default:
			r = bottom
		}
		memo[x] = r
		return r
	}
	return from(d, 0)
}

// PathCond is the condition under which control, having reached from, reaches to.
func (e *Eval) PathCond(env *Env, from, to *ssa.BasicBlock) *X {
	memo := map[*ssa.BasicBlock]*X{}
	busy := map[*ssa.BasicBlock]bool{}
	var reach func(x *ssa.BasicBlock) *X
	reach = func(x *ssa.BasicBlock) *X {
		if x == to {
			return Bool(true)
		}
		if m, ok := memo[x]; ok {
			return m
		}
		if busy[x] {
			return Bool(false)
		}
		busy[x] = true
		var r *X
		switch t := x.Instrs[len(x.Instrs)-1].(type) {
		case *ssa.If:
			a, c := reach(x.Succs[0]), reach(x.Succs[1])
			if Eq(a, c) {
				r = a
			} else {
				r = Sel(e.Val(env, t.Cond), a, c)
			}
		case *ssa.Jump:
			r = reach(x.Succs[0])
		default:
			r = Bool(false)
		}
		delete(busy, x)
		memo[x] = r
		return r
	}
	return reach(from)
}

// Guards are the conditions that every path to b has decided (dominating branch edges).
func (e *Eval) Guards(env *Env, b *ssa.BasicBlock) []*X {
	var out []*X
	for x := b; x != nil; x = x.Idom() {
		d := x.Idom()
		if d == nil {
			break
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] == d.Succs[1] {
			continue
		}
		for k, s := range d.Succs {
			if s == x && len(s.Preds) == 1 {
				c := e.Val(env, iff.Cond)
				if k == 1 {
					c = Not(c)
				}
				out = append(out, c)
			}
		}
		// a join of early exits: x has several preds but one branch of d cannot reach it
		if len(x.Preds) > 1 {
			c := e.PathCond(env, d, x)
			if c.Op != "bool" {
				out = append(out, c)
			}
		}
	}
	var flat []*X
	for _, g := range out {
		if g.Op == "and" {
			flat = append(flat, g.Args...)
		} else if g.Op != "bool" {
			flat = append(flat, g)
		}
	}
	return dedup(flat)
}

// ---------------------------------------------------------------- calls

func (e *Eval) Inlinable(fn *ssa.Function) bool {
	if fn == nil || fn.Blocks == nil || e.NoInline[fn] {
		return false
	}
	return e.w.InRepo(fn) && e.w.RelPkg(fn) != "parser"
}

func (e *Eval) callVal(env *Env, c *ssa.Call) *X {
	com := c.Common()
	var args []*X
	for _, a := range com.Args {
		args = append(args, e.Val(env, a))
	}
	if com.IsInvoke() {
		recv := e.Val(env, com.Value)
		return &X{Op: "inv", Lit: com.Method.Name(), Args: append([]*X{recv}, args...), V: c}
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "min", "max":
			if isIntType(c.Type()) {
				return minmax(b.Name(), args...)
			}
		case "len":
			if args[0].Op == "list" {
				return Int(int64(len(args[0].Args)))
			}
			return mk("len", "", args[0])
		}
		return &X{Op: "builtin", Lit: b.Name(), Args: args, V: c}
	}
	if fn := com.StaticCallee(); fn != nil {
		var cenv *Env
		if mc, ok := com.Value.(*ssa.MakeClosure); ok {
			_ = mc
			cenv = env
		}
		return e.applyFn(env, cenv, fn, args, c)
	}
	fv := e.Val(env, com.Value)
	return e.Apply(env, fv, args, c)
}

// Apply calls a function value.
func (e *Eval) Apply(env *Env, fv *X, args []*X, site *ssa.Call) *X {
	if fv.Op == "sel" {
		return selMap(fv, func(y *X) *X { return e.Apply(env, y, args, site) })
	}
	if fv.Op == "closure" && fv.Fn != nil {
		return e.applyFn(env, fv.Env, fv.Fn, args, site)
	}
	return &X{Op: "apply", Args: append([]*X{fv}, args...), V: site}
}

func (e *Eval) applyFn(env, cenv *Env, fn *ssa.Function, args []*X, site *ssa.Call) *X {
	name := fn.RelString(nil)
	switch name {
	case "fmt.Sprintf":
		if x := sprintf(args); x != nil {
			return x
		}
	case "strings.Join":
		return mk("join", "", args...)
	}
	if fn.Synthetic != "" && strings.HasPrefix(fn.Synthetic, "bound method") && len(fn.FreeVars) == 1 {
		// method value g.M
		if site != nil {
			if o, ok := fn.Object().(*types.Func); ok {
				if m := e.w.Prog.FuncValue(o); m != nil && cenv != nil {
					if mc := findBound(cenv, fn); mc != nil {
						return e.applyFn(env, nil, m, append([]*X{e.Val(cenv, mc.Bindings[0])}, args...), site)
					}
				}
			}
		}
	}
	if e.texts && fn.Name() == "ExecuteTemplate" && e.w.RelPkg(fn) == "util" {
		if x := e.rendered(env, args, site); x != nil {
			return x
		}
	}
	if m := omMethod(e.w, fn); m != "" && !e.rawOM {
		switch m {
		case "Get":
			return mk("tuple", "", mk("lookup", "", args...), mk("has", "", args...))
		case "MustGet":
			return mk("lookup", "", args...)
		case "Has":
			return mk("has", "", args...)
		case "Len":
			return mk("len", "", args...)
		}
		return &X{Op: "om", Lit: m, Args: args, V: site, Fn: fn}
	}
	opaqueCall := func() *X {
		return &X{Op: "call", Lit: fnName(fn), Args: args, V: site, Fn: fn}
	}
	if !e.Inlinable(fn) || e.onStack(env, fn) || env.depth > 12 || e.hasLoop(fn) {
		return opaqueCall()
	}
	ne := e.call(env, fn, args)
	if cenv != nil {
		// closures resolve free variables in the environment that created them
		ne.parent = &Env{fn: env.fn, bind: env.bind, parent: cenvChain(env, cenv), depth: env.depth, memo: env.memo, busy: env.busy}
	}
	r := e.Result(ne)
	if r == nil {
		return opaqueCall()
	}
	return r
}

func findBound(env *Env, fn *ssa.Function) *ssa.MakeClosure {
	for _, b := range env.fn.Blocks {
		for _, i := range b.Instrs {
			if mc, ok := i.(*ssa.MakeClosure); ok && mc.Fn == fn {
				return mc
			}
		}
	}
	return nil
}

// cenvChain makes the closure's defining environment findable from the caller's chain.
func cenvChain(env, cenv *Env) *Env {
	if env.parentFor(cenv.fn) == cenv {
		return env.parent
	}
	return &Env{fn: cenv.fn, bind: cenv.bind, parent: cenv.parent, depth: cenv.depth, memo: cenv.memo, busy: cenv.busy}
}

func (e *Eval) hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// Result is the gated return value of an acyclic function.
func (e *Eval) Result(env *Env) *X {
	fn := env.fn
	if fn.Signature.Results().Len() == 0 {
		return nil
	}
	memo := map[*ssa.BasicBlock]*X{}
	var at func(b *ssa.BasicBlock) *X
	at = func(b *ssa.BasicBlock) *X {
		if m, ok := memo[b]; ok {
			return m
		}
		memo[b] = &X{Op: "opaque", Lit: fnName(env.fn) + " loop"}
		var r *X
		switch t := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			if len(t.Results) == 1 {
				r = e.Val(env, t.Results[0])
			} else {
				var xs []*X
				for _, v := range t.Results {
					xs = append(xs, e.Val(env, v))
				}
				r = mk("tuple", "", xs...)
			}
		case *ssa.If:
			if out := quietLoop(b); out != nil {
				r = at(out)
				break
			}
			a, c := at(b.Succs[0]), at(b.Succs[1])
			if a.Op == "bottom" {
				r = c
			} else if c.Op == "bottom" {
				r = a
			} else {
				cond := e.Val(env, t.Cond)
				if a.Op == "tuple" && c.Op == "tuple" && len(a.Args) == len(c.Args) {
					var xs []*X
					for i := range a.Args {
						xs = append(xs, Sel(cond, a.Args[i], c.Args[i]))
					}
					r = mk("tuple", "", xs...)
				} else {
					r = Sel(cond, a, c)
				}
			}
		case *ssa.Jump:
			r = at(b.Succs[0])
		default:
			r = bottom
		}
		memo[b] = r
		return r
	}
	r := at(fn.Blocks[0])
	if r.Op == "bottom" {
		return nil
	}
	return r
}

// quietLoop: b heads a loop that is only left at b itself; the block it is left to.
func quietLoop(b *ssa.BasicBlock) *ssa.BasicBlock {
	back := false
	for _, p := range b.Preds {
		back = back || b.Dominates(p)
	}
	if !back {
		return nil
	}
	l := naturalLoop(b)
	var out *ssa.BasicBlock
	switch {
	case l[b.Succs[0]] && !l[b.Succs[1]]:
		out = b.Succs[1]
	case !l[b.Succs[0]] && l[b.Succs[1]]:
		out = b.Succs[0]
	default:
		return nil
	}
	for c := range l {
		if c == b {
			continue
		}
		for _, s := range c.Succs {
			if !l[s] {
				if _, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Panic); !ok {
					return nil
				}
			}
		}
	}
	return out
}

// sprintf turns a constant format into a concatenation.
func sprintf(args []*X) *X {
	if len(args) != 2 || args[0].Op != "str" {
		return nil
	}
	var vals []*X
	if args[1].Op == "list" {
		vals = args[1].Args
	} else if args[1].Op != "nil" {
		return nil
	}
	f := args[0].Lit
	var out []*X
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, Str(string(f[i])))
			continue
		}
		j := i + 1
		for j < len(f) && strings.ContainsRune("+-# 0123456789.[]*", rune(f[j])) {
			j++
		}
		if j >= len(f) {
			return nil
		}
		verb := f[i : j+1]
		i = j
		if verb == "%%" {
			out = append(out, Str("%"))
			continue
		}
		if n >= len(vals) {
			return nil
		}
		a := vals[n]
		n++
		switch {
		case (verb == "%s" || verb == "%v") && a.Op == "str":
			out = append(out, a)
		case verb == "%s" || verb == "%v" || verb == "%d":
			if a.Op == "int" {
				out = append(out, Str(a.Lit))
			} else {
				out = append(out, a)
			}
		default:
			out = append(out, mk("verb", verb, a))
		}
	}
	return Concat(out...)
}

// ---------------------------------------------------------------- traversal

type Site struct {
	Env    *Env
	Instr  ssa.Instruction
	Guards []*X
	Chain  []*ssa.Function
	Path   []ssa.Instruction // the calls leading here, outermost first
}

// Traverse visits every instruction reachable from env.fn through calls to
// repository functions, with parameters bound and guards accumulated.
// descend decides whether to enter a callee.
func (e *Eval) Traverse(env *Env, descend func(fn *ssa.Function) bool, visit func(*Site)) {
	e.traverse(env, nil, nil, nil, descend, visit, map[*ssa.Function]int{})
}

func (e *Eval) traverse(env *Env, guards []*X, chain []*ssa.Function, path []ssa.Instruction, descend func(*ssa.Function) bool, visit func(*Site), depth map[*ssa.Function]int) {
	if depth[env.fn] > 0 || len(chain) > 24 {
		return
	}
	depth[env.fn]++
	defer func() { depth[env.fn]-- }()
	chain = append(append([]*ssa.Function{}, chain...), env.fn)
	for _, b := range env.fn.Blocks {
		g := append(append([]*X{}, guards...), e.Guards(env, b)...)
		for _, i := range b.Instrs {
			visit(&Site{env, i, g, chain, path})
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			com := ci.Common()
			if com.IsInvoke() {
				continue
			}
			var args []*X
			enter := func(fn *ssa.Function, cenv *Env, gs []*X) {
				if fn == nil || fn.Blocks == nil || !e.w.InRepo(fn) || !descend(fn) {
					return
				}
				if args == nil {
					for _, a := range com.Args {
						args = append(args, e.Val(env, a))
					}
				}
				ne := e.call(env, fn, args)
				if cenv != nil {
					ne.parent = &Env{fn: env.fn, bind: env.bind, parent: cenvChain(env, cenv), depth: env.depth, memo: env.memo, busy: env.busy}
				}
				e.traverse(ne, gs, chain, append(append([]ssa.Instruction{}, path...), i), descend, visit, depth)
			}
			if fn := com.StaticCallee(); fn != nil {
				var cenv *Env
				if _, ok := com.Value.(*ssa.MakeClosure); ok {
					cenv = env
				}
				enter(fn, cenv, g)
				// closures passed to iteration helpers are entered too
				for _, a := range com.Args {
					if isFuncType(a.Type()) {
						fx := e.Val(env, a)
						e.eachClosure(fx, g, func(cf *X, gs []*X) {
							if cf.Fn != nil && cf.Fn.Parent() != nil && descend(cf.Fn) && cf.Fn.Blocks != nil {
								ne := e.call(env, cf.Fn, nil)
								if cf.Env != nil {
									ne.parent = &Env{fn: env.fn, bind: env.bind, parent: cenvChain(env, cf.Env), depth: env.depth, memo: env.memo, busy: env.busy}
								}
								if !e.w.InRepo(fn) || !e.callsParam(fn) || !descend(fn) {
									e.traverse(ne, gs, chain, append(append([]ssa.Instruction{}, path...), i), descend, visit, depth)
								}
							}
						})
					}
				}
				continue
			}
			fx := e.Val(env, com.Value)
			e.eachClosure(fx, g, func(cf *X, gs []*X) { enter(cf.Fn, cf.Env, gs) })
		}
	}
}

func isFuncType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

// callsParam tells whether fn itself calls one of its function parameters.
func (e *Eval) callsParam(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok {
				if _, ok := ci.Common().Value.(*ssa.Parameter); ok && !ci.Common().IsInvoke() {
					return true
				}
			}
		}
	}
	return false
}

func (e *Eval) eachClosure(fx *X, g []*X, f func(*X, []*X)) {
	switch fx.Op {
	case "closure":
		f(fx, g)
	case "sel":
		e.eachClosure(fx.Args[1], append(append([]*X{}, g...), fx.Args[0]), f)
		e.eachClosure(fx.Args[2], append(append([]*X{}, g...), Not(fx.Args[0])), f)
	case "anyof":
		for _, a := range fx.Args {
			e.eachClosure(a, g, f)
		}
	}
}

// omMethod names the method when fn belongs to util.OrderedMap (decided by C35
// to be an insertion-ordered map).
func omMethod(w *World, fn *ssa.Function) string {
	if w.RelPkg(fn) != "util" || fn.Signature.Recv() == nil {
		return ""
	}
	n := namedOf(fn.Signature.Recv().Type())
	if n == nil || n.Obj().Name() != "OrderedMap" {
		return ""
	}
	name := fn.Name()
	if i := strings.IndexByte(name, '['); i >= 0 {
		name = name[:i]
	}
	return name
}

// expandLists replaces index(list, i) for every list element, coherently over
// all given expressions; the expressions themselves when there is none.
func expandLists(xs ...*X) [][]*X {
	var found *X
	for _, x := range xs {
		x.Walk(func(y *X) {
			if found == nil && y.Op == "index" && y.Args[0].Op == "list" && y.Args[1].Op != "int" {
				found = y
			}
		})
	}
	if found == nil {
		return [][]*X{xs}
	}
	idx, n := found.Args[1].Key(), len(found.Args[0].Args)
	var out [][]*X
	for k := 0; k < n; k++ {
		var row []*X
		for _, x := range xs {
			row = append(row, simplifyIdx(Subst(x, func(y *X) *X {
				if y.Op == "index" && y.Args[0].Op == "list" && y.Args[1].Key() == idx && k < len(y.Args[0].Args) {
					return y.Args[0].Args[k]
				}
				return nil
			})))
		}
		out = append(out, expandLists(row...)...)
	}
	return out
}

// simplifyIdx re-reduces fields of composites after substitution.
func simplifyIdx(x *X) *X {
	return Subst(x, func(y *X) *X {
		if y.Op == "field" && y.Args[0].Op == "new" {
			return fieldOf(y.Args[0], y.Lit)
		}
		return nil
	})
}

// GlobalVal is the value of a package variable that is assigned exactly once,
// in its package's initialisation; nil otherwise.
func (e *Eval) GlobalVal(g *ssa.Global) *X {
	if e.globals == nil {
		e.globals = map[*ssa.Global]*X{}
		st := map[*ssa.Global][]*ssa.Store{}
		for _, fn := range e.w.Funcs {
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					if s, ok := i.(*ssa.Store); ok {
						if gg, ok := s.Addr.(*ssa.Global); ok {
							st[gg] = append(st[gg], s)
						}
					}
				}
			}
		}
		e.gstores = st
	}
	if x, ok := e.globals[g]; ok {
		return x
	}
	e.globals[g] = nil
	sts := e.gstores[g]
	if len(sts) == 1 && strings.HasPrefix(sts[0].Parent().Name(), "init") {
		e.globals[g] = e.Val(e.Root(sts[0].Parent()), sts[0].Val)
	}
	return e.globals[g]
}

// ResolveGlobals replaces references to once-assigned package variables.
func (e *Eval) ResolveGlobals(x *X) *X {
	return Subst(x, func(y *X) *X {
		if y.Op == "global" {
			if g, ok := y.V.(*ssa.Global); ok {
				if v := e.GlobalVal(g); v != nil {
					return v
				}
			}
		}
		return nil
	})
}

// escapes: the address of a is handed to a call.
func escapes(a ssa.Value) bool {
	if a.Referrers() == nil {
		return false
	}
	for _, r := range *a.Referrers() {
		if ci, ok := r.(ssa.CallInstruction); ok {
			for _, x := range ci.Common().Args {
				if x == a {
					return true
				}
			}
		}
	}
	return false
}

func fieldEscapes(al *ssa.Alloc, field int) bool {
	st, ok := deref(al.Type()).Underlying().(*types.Struct)
	if !ok || al.Referrers() == nil {
		return false
	}
	// a field that is itself a structure is handed around by address all the time
	if _, ok := st.Field(field).Type().Underlying().(*types.Basic); !ok {
		return false
	}
	for _, r := range *al.Referrers() {
		if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == field && escapes(fa) {
			return true
		}
	}
	return false
}

func cellX(al *ssa.Alloc) *X {
	return &X{Op: "cell", Lit: fnName(al.Parent()) + ":" + al.Name(), V: al}
}

func cellFieldX(al *ssa.Alloc, field int) *X {
	st := deref(al.Type()).Underlying().(*types.Struct)
	return &X{Op: "cell", Lit: fnName(al.Parent()) + ":" + al.Name() + "." + st.Field(field).Name(), V: al}
}

// addrCell identifies the cell an address expression denotes.
func (e *Eval) addrCell(env *Env, v ssa.Value) *X {
	switch a := v.(type) {
	case *ssa.Alloc:
		return cellX(a)
	case *ssa.Global:
		return e.Val(env, a)
	case *ssa.FieldAddr:
		if al, ok := a.X.(*ssa.Alloc); ok {
			return cellFieldX(al, a.Field)
		}
		st := deref(a.X.Type()).Underlying().(*types.Struct)
		return mk("field", st.Field(a.Field).Name(), e.Val(env, a.X))
	case *ssa.FreeVar:
		c, _ := e.rootCell(env, v)
		if al, ok := c.(*ssa.Alloc); ok {
			return cellX(al)
		}
	}
	return nil
}

// mutated: the field is stored somewhere through a pointer that was not created
// by the storing function, so its value at a load is not the one it was built with.
func (w *World) mutated(fa *ssa.FieldAddr) bool {
	if w.mutFields == nil {
		w.mutFields = map[string]bool{}
		for _, fn := range w.Funcs {
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					st, ok := i.(*ssa.Store)
					if !ok {
						continue
					}
					f, ok := st.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					base := f.X
					for {
						if in, ok := base.(*ssa.FieldAddr); ok {
							base = in.X
							continue
						}
						break
					}
					if _, ok := base.(*ssa.Alloc); ok {
						continue
					}
					w.mutFields[fieldKey(f)] = true
				}
			}
		}
	}
	return fa != nil && w.mutFields[fieldKey(fa)]
}

func fieldKey(f *ssa.FieldAddr) string {
	n := namedOf(deref(f.X.Type()))
	if n == nil {
		return ""
	}
	return n.Origin().String() + "." + fieldName(f)
}

// hasIdentity: objects of the type are changed after they were built.
func (w *World) hasIdentity(t types.Type) bool {
	n := namedOf(t)
	if n == nil {
		return false
	}
	if w.mutTypes == nil {
		w.mutated(nil)
		w.mutTypes = map[string]bool{}
		for k := range w.mutFields {
			if j := strings.LastIndex(k, "."); j > 0 {
				w.mutTypes[k[:j]] = true
			}
		}
	}
	return w.mutTypes[n.Origin().String()]
}

// intWidth is the width of an integer type on the 64-bit platforms the tool is
// built for.
func intWidth(t types.Type) int {
	b, _ := t.Underlying().(*types.Basic)
	if b == nil {
		return 64
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}
