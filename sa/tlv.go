package main

import (
	"fmt"
	"sort"
	"strings"
)

// Values of the emitted-code interpreter: integers whose bits are constants,
// single input bits (possibly negated) or unknown, and integers that are
// linear over named non-negative quantities (offsets, lengths, positions).

type tbit int32

const (
	bit0   tbit = 0
	bit1   tbit = 1
	bitTop tbit = -1
)

func bnot(b tbit) tbit {
	if b == bitTop {
		return b
	}
	return b ^ 1
}

func bxor(a, b tbit) tbit {
	switch {
	case a == bit0:
		return b
	case b == bit0:
		return a
	case a == bit1:
		return bnot(b)
	case b == bit1:
		return bnot(a)
	case a == bitTop || b == bitTop:
		return bitTop
	case a == b:
		return bit0
	case a == bnot(b):
		return bit1
	}
	return bitTop
}

func band(a, b tbit) tbit {
	switch {
	case a == bit0 || b == bit0:
		return bit0
	case a == bit1:
		return b
	case b == bit1:
		return a
	case a == bitTop || b == bitTop:
		return bitTop
	case a == b:
		return a
	case a == bnot(b):
		return bit0
	}
	return bitTop
}

func bor(a, b tbit) tbit { return bnot(band(bnot(a), bnot(b))) }

func bmaj(a, b, c tbit) tbit {
	if a == b && a != bitTop {
		return a
	}
	if a == c && a != bitTop {
		return a
	}
	if b == c && b != bitTop {
		return b
	}
	if a != bitTop && b != bitTop && a == bnot(b) {
		return c
	}
	if a != bitTop && c != bitTop && a == bnot(c) {
		return b
	}
	if b != bitTop && c != bitTop && b == bnot(c) {
		return a
	}
	return bitTop
}

func bmux(c, a, b tbit) tbit {
	switch {
	case a == b:
		return a
	case c == bit1:
		return a
	case c == bit0:
		return b
	case a == bit1 && b == bit0:
		return c
	case a == bit0 && b == bit1:
		return bnot(c)
	case b == bit0:
		return band(c, a)
	case a == bit0:
		return band(bnot(c), b)
	case a == bit1:
		return bor(c, b)
	case b == bit1:
		return bor(bnot(c), a)
	}
	return bitTop
}

// tlin: c + sum of k*symbol, every symbol standing for a non-negative number.
type tlin struct {
	c int64
	t map[string]int64
}

func linC(c int64) *tlin { return &tlin{c: c} }

func linS(s string) *tlin { return &tlin{t: map[string]int64{s: 1}} }

func (a *tlin) add(b *tlin, k int64) *tlin {
	r := &tlin{c: satAdd(a.c, satMul(k, b.c))}
	if len(a.t)+len(b.t) > 0 {
		r.t = map[string]int64{}
		for s, v := range a.t {
			r.t[s] = v
		}
		for s, v := range b.t {
			if n := r.t[s] + k*v; n != 0 {
				r.t[s] = n
			} else {
				delete(r.t, s)
			}
		}
	}
	return r
}

// satAdd, satMul: the constants are only near the ends of the range in bounds
// that compare with the largest number.
func satAdd(a, b int64) int64 {
	c := a + b
	if a > 0 && b > 0 && c < 0 {
		return 1<<63 - 1
	}
	if a < 0 && b < 0 && c >= 0 {
		return -1 << 63
	}
	return c
}

func satMul(k, b int64) int64 {
	if k == 0 || b == 0 || k == 1 {
		return k * b
	}
	if c := k * b; c/b == k && !(k == -1 && b == -1<<63) {
		return c
	}
	if k > 0 == (b > 0) {
		return 1<<63 - 1
	}
	return -1 << 63
}

func (a *tlin) scale(k int64) *tlin {
	return linC(0).add(a, k)
}

func (a *tlin) isC() bool { return len(a.t) == 0 }

// div: exact-coefficient floor division.
func (a *tlin) div(k int64) (*tlin, int64, bool) {
	r := &tlin{t: map[string]int64{}}
	for s, v := range a.t {
		if v%k != 0 {
			return nil, 0, false
		}
		r.t[s] = v / k
	}
	m := a.c % k
	if m < 0 {
		m += k
	}
	r.c = (a.c - m) / k
	return r, m, true
}

func (a *tlin) String() string {
	var ks []string
	for s := range a.t {
		ks = append(ks, s)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, s := range ks {
		switch a.t[s] {
		case 1:
			fmt.Fprintf(&b, "+%s", s)
		default:
			fmt.Fprintf(&b, "%+d%s", a.t[s], s)
		}
	}
	if a.c != 0 || b.Len() == 0 {
		fmt.Fprintf(&b, "%+d", a.c)
	}
	return strings.TrimPrefix(b.String(), "+")
}

// tty: an integer type. w = 0: unbounded (BigInt, Python), 'N' JS numbers.
type tty struct {
	w  int
	sg bool
	k  byte // 'i' fixed width, 'G' unbounded, 'N' JS number, 'B' bool, 'U' untyped constant (Go)
}

func (t tty) String() string {
	switch t.k {
	case 'G':
		return "unbounded integer"
	case 'N':
		return "number"
	case 'B':
		return "bool"
	case 'U':
		return "constant"
	}
	if t.sg {
		return fmt.Sprintf("int%d", t.w)
	}
	return fmt.Sprintf("uint%d", t.w)
}

var (
	tI8, tI16, tI32, tI64 = tty{8, true, 'i'}, tty{16, true, 'i'}, tty{32, true, 'i'}, tty{64, true, 'i'}
	tU8, tU16, tU32, tU64 = tty{8, false, 'i'}, tty{16, false, 'i'}, tty{32, false, 'i'}, tty{64, false, 'i'}
	tBool                 = tty{1, false, 'B'}
	tBig                  = tty{0, true, 'G'}
	tNum                  = tty{0, true, 'N'}
	tUnt                  = tty{0, true, 'U'}
)

// tn: an integer value.
type tn struct {
	ty   tty
	lin  *tlin  // when known to be linear
	bits []tbit // when its bits are known; all higher bits are sx
	sx   tbit
	not  *tn // the number is ~not
	neg  *tn // the number is -neg, whose bits are not followed
}

func (v *tn) konst() (int64, bool) {
	if v.lin != nil && v.lin.isC() {
		return v.lin.c, true
	}
	return 0, false
}

func (v *tn) bit(i int) tbit {
	if i < len(v.bits) {
		return v.bits[i]
	}
	return v.sx
}

func numC(ty tty, c int64) *tn { return wrapT(&tn{lin: linC(c)}, ty) }

func (v *tn) withBits() *tn {
	if v.bits != nil || v.lin == nil || !v.lin.isC() {
		return v
	}
	r := &tn{ty: v.ty, lin: v.lin}
	c := v.lin.c
	for i := 0; i < 64; i++ {
		r.bits = append(r.bits, tbit(c>>i&1))
	}
	r.sx = tbit(c >> 63 & 1)
	if v.ty.k == 'i' && v.ty.w == 64 && !v.ty.sg {
		r.sx = bit0
	}
	return r
}

// fromBits makes a number; constants get their linear form too.
func fromBits(ty tty, bits []tbit, sx tbit) *tn {
	n := len(bits)
	for n > 0 && bits[n-1] == sx {
		n--
	}
	if bits == nil {
		bits = []tbit{}
	}
	bits = bits[:n]
	r := &tn{ty: ty, bits: bits, sx: sx}
	if sx != bit0 && sx != bit1 {
		return r
	}
	if n > 64 || n == 64 && !(ty.k == 'i' && ty.w == 64) && sx == bit0 {
		return r
	}
	c := int64(0)
	if sx == bit1 {
		c = -1
	}
	for i, b := range bits {
		if b != bit0 && b != bit1 {
			return r
		}
		c = c&^(1<<i) | int64(b)<<i
	}
	r.lin = linC(c)
	if r.bits == nil {
		r.bits = []tbit{}
	}
	return r
}

// wrapT converts a mathematical integer to a type.
func wrapT(v *tn, ty tty) *tn {
	if ty.k != 'i' {
		if v.lin != nil && ty.k != 'B' && !(v.bits == nil && v.lin.isC()) {
			return &tn{ty: ty, lin: v.lin, bits: v.bits, sx: v.sx}
		}
		v = v.withBits()
		if v.bits == nil {
			return &tn{ty: ty}
		}
		return fromBits(ty, append([]tbit(nil), v.bits...), v.sx)
	}
	if v.lin != nil && !v.lin.isC() {
		// a symbolic quantity: taken to stay within range of the index types
		r := &tn{ty: ty, lin: v.lin}
		if v.bits != nil {
			w := wrapT(&tn{bits: v.bits, sx: v.sx}, ty)
			r.bits, r.sx = w.bits, w.sx
		}
		if ty.w < 32 {
			r.lin = nil
			if r.bits == nil {
				return topN(ty)
			}
		}
		return r
	}
	v = v.withBits()
	if v.bits == nil {
		return topN(ty)
	}
	bs := make([]tbit, ty.w)
	for i := range bs {
		bs[i] = v.bit(i)
	}
	sx := bit0
	if ty.sg {
		sx = bs[ty.w-1]
	}
	return fromBits(ty, bs, sx)
}

func topN(ty tty) *tn {
	w := ty.w
	if w == 0 {
		w = 1
	}
	bs := make([]tbit, w)
	for i := range bs {
		bs[i] = bitTop
	}
	sx := bitTop
	if ty.k == 'i' && !ty.sg {
		sx = bit0
	}
	return &tn{ty: ty, bits: bs, sx: sx}
}

func maxlen(a, b *tn) int {
	n := len(a.bits)
	if len(b.bits) > n {
		n = len(b.bits)
	}
	return n
}

func bitwise(a, b *tn, f func(x, y tbit) tbit) *tn {
	a, b = a.withBits(), b.withBits()
	if a.bits == nil || b.bits == nil {
		return topN(tBig)
	}
	n := maxlen(a, b)
	bs := make([]tbit, n)
	for i := range bs {
		bs[i] = f(a.bit(i), b.bit(i))
	}
	return fromBits(tBig, bs, f(a.sx, b.sx))
}

func addBits(a, b *tn, c tbit) *tn {
	a, b = a.withBits(), b.withBits()
	if a.bits == nil || b.bits == nil {
		return topN(tBig)
	}
	n := maxlen(a, b) + 2
	bs := make([]tbit, n)
	for i := range bs {
		x, y := a.bit(i), b.bit(i)
		bs[i] = bxor(bxor(x, y), c)
		// xor of a carry that repeats an operand may still be known
		if bs[i] == bitTop && x != bitTop && c == x {
			bs[i] = y
		} else if bs[i] == bitTop && y != bitTop && c == y {
			bs[i] = x
		}
		c = bmaj(x, y, c)
	}
	return fromBits(tBig, bs, bs[n-1])
}

func notBits(a *tn) *tn {
	a = a.withBits()
	if a.bits == nil {
		return topN(tBig)
	}
	bs := make([]tbit, len(a.bits))
	for i := range bs {
		bs[i] = bnot(a.bits[i])
	}
	return fromBits(tBig, bs, bnot(a.sx))
}

func shlBits(a *tn, k int) *tn {
	if c, ok := a.konst(); ok && (c == 0 || k < 62 && c < 1<<(62-k) && c > -(1<<(62-k))) {
		return &tn{ty: tBig, lin: linC(c << k)}
	}
	a = a.withBits()
	if a.bits == nil {
		if a.lin != nil && k < 32 {
			return &tn{ty: tBig, lin: a.lin.scale(1 << k)}
		}
		return topN(tBig)
	}
	bs := make([]tbit, k, k+len(a.bits))
	bs = append(bs, a.bits...)
	r := fromBits(tBig, bs, a.sx)
	if r.lin == nil && a.lin != nil && k < 32 {
		r.lin = a.lin.scale(1 << k)
	}
	return r
}

func shrBits(a *tn, k int) *tn {
	if a.lin != nil && a.bits == nil && k < 62 {
		if q, _, ok := a.lin.div(1 << k); ok {
			return &tn{ty: tBig, lin: q}
		}
	}
	a = a.withBits()
	if a.bits == nil {
		return topN(tBig)
	}
	var bs []tbit
	if k < len(a.bits) {
		bs = append(bs, a.bits[k:]...)
	}
	return fromBits(tBig, bs, a.sx)
}

// math operators on unbounded integers

func mAdd(a, b *tn) *tn {
	if a.lin != nil && b.lin != nil {
		r := &tn{ty: tBig, lin: a.lin.add(b.lin, 1)}
		if r.lin.isC() && fitsAdd(a, b, 1) {
			return r
		}
		if !r.lin.isC() {
			return r
		}
	}
	return addBits(a, b, bit0)
}

func fitsAdd(a, b *tn, k int64) bool {
	x, ok1 := a.konst()
	y, ok2 := b.konst()
	if !ok1 || !ok2 {
		return true
	}
	const m = int64(1) << 62
	neg := func(v *tn, c int64) bool { return c < 0 && v.ty.k == 'i' && !v.ty.sg }
	return x < m && x > -m && y < m && y > -m && !neg(a, x) && !neg(b, y)
}

func mSub(a, b *tn) *tn {
	if a.lin != nil && b.lin != nil {
		r := &tn{ty: tBig, lin: a.lin.add(b.lin, -1)}
		if !r.lin.isC() || fitsAdd(a, b, -1) {
			return r
		}
	}
	return addBits(a, notBits(b), bit1)
}

func mMul(a, b *tn) *tn {
	if _, ok := a.konst(); ok {
		a, b = b, a
	}
	k, ok := b.konst()
	if !ok {
		return topN(tBig)
	}
	if a.lin != nil {
		if c, ok := a.konst(); !ok || c < 1<<31 && c > -(1<<31) && k < 1<<31 && k > -(1<<31) {
			return &tn{ty: tBig, lin: a.lin.scale(k)}
		}
	}
	if k < 0 {
		return mSub(numC(tBig, 0), mMul(a, numC(tBig, -k)))
	}
	r := numC(tBig, 0)
	for i := 0; k>>i != 0 && i < 63; i++ {
		if k>>i&1 == 1 {
			r = addBits(r, shlBits(a, i), bit0)
		}
	}
	return r
}

// mDiv: floor division and remainder by a positive constant; trunc differs only
// for negative numbers, which are refused unless the dividend is known.
func mDiv(a *tn, k int64, trunc bool) (*tn, *tn, bool) {
	if k <= 0 {
		return nil, nil, false
	}
	if c, ok := a.konst(); ok {
		if c < 0 && trunc {
			return numC(tBig, c/k), numC(tBig, c%k), true
		}
		q, m, _ := a.lin.div(k)
		return &tn{ty: tBig, lin: q}, numC(tBig, m), true
	}
	if a.lin != nil {
		if q, m, ok := a.lin.div(k); ok {
			return &tn{ty: tBig, lin: q}, numC(tBig, m), true
		}
	}
	if k&(k-1) == 0 && a.bits != nil && a.sx == bit0 {
		s := 0
		for k>>s != 1 {
			s++
		}
		return shrBits(a, s), bitwise(a, numC(tBig, k-1), band), true
	}
	return nil, nil, false
}

func mAnd(a, b *tn) *tn {
	if _, ok := a.konst(); ok {
		a, b = b, a
	}
	if k, ok := b.konst(); ok && a.lin != nil && a.bits == nil && !a.lin.isC() {
		if k >= 0 && k&(k+1) == 0 {
			if _, m, ok := a.lin.div(k + 1); ok {
				return numC(tBig, m)
			}
		}
		if m := ^k; m >= 0 && m&(m+1) == 0 {
			if _, r, ok := a.lin.div(m + 1); ok {
				return &tn{ty: tBig, lin: a.lin.add(linC(r), -1)}
			}
		}
	}
	return bitwise(a, b, band)
}

// exact: no bit of the number is unknown.
func (v *tn) exact() bool {
	for _, b := range v.bits {
		if b == bitTop {
			return false
		}
	}
	return v.sx != bitTop
}
