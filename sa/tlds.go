package main

import (
	"fmt"
	"sort"
	"strings"
)

// The wire format of structures with parts of run-time size, walked along
// each symbolic path of an emitted codec.

type dynPart struct {
	kind string // bits, bytes, string, nested
	l    tlLeaf // bits
	path string
	from int64 // position in the fixed part, bits
	st   *scStruct
	f    *scField
}

func dynParts(st *scStruct) (ps []dynPart, total int64) {
	pos := int64(0)
	one := func(f *scField, ty *scType, path string, from, w int64) {
		p := dynPart{path: path, from: from, f: f}
		switch {
		case ty.kind == "string", ty.kind == "bytes":
			p.kind = ty.kind
		case ty.st != nil:
			p.kind, p.st = "nested", ty.st
		default:
			p.kind = "bits"
			p.l = tlLeaf{path: path, ty: ty, from: from, w: w, big: f.opts["order"] == "big", f: f}
		}
		ps = append(ps, p)
	}
	var walk func(st *scStruct)
	walk = func(st *scStruct) {
		for _, f := range st.fields {
			w := f.bits.c
			if w < 0 {
				w = 0
			}
			switch f.kind {
			case "embedded":
				walk(f.sub)
				continue
			case "normal":
				if f.ty.kind == "array" {
					for i := int64(0); i < f.ty.n; i++ {
						one(f, f.ty.elem, fmt.Sprintf("%s[%d]", f.name, i), pos+i*(w/f.ty.n), w/f.ty.n)
					}
				} else {
					one(f, f.ty, f.name, pos, w)
				}
			case "const":
				one(f, f.ty, f.name, pos, w)
			}
			pos += w
		}
	}
	walk(st)
	return ps, pos
}

func (p *dynPart) desc() string {
	s := p.kind
	if p.kind == "bits" {
		s = p.l.kind()
	} else if p.kind == "nested" {
		s = "structure"
		if p.st.dynamic {
			s = "structure of run-time size"
		}
	}
	if p.f.ty != nil && p.f.ty.kind == "array" && p.kind != "bits" {
		s = "array of " + s
	}
	return s
}

type dynBad struct {
	part *dynPart
	cls  string // coverage, wire, prefix, alias, const, total, size, length, extra
	what string
}

type dynWalk struct {
	p    *tlPath
	t    *TL
	lang string
	dyn  *tlin
	base *tlin
	bad  []dynBad
	cur  *dynPart
	stop bool
}

func (d *dynWalk) fault(cls, f string, a ...any) {
	d.bad = append(d.bad, dynBad{d.cur, cls, fmt.Sprintf(f, a...)})
}

func newDynWalk(p *tlPath, lang string) *dynWalk {
	d := &dynWalk{p: p, t: p.TL, lang: lang, dyn: linC(0), base: linC(0)}
	if p.TL.hasStart() {
		d.base = linS("start")
	}
	return d
}

func (d *dynWalk) at(bits int64) *tlin {
	return d.base.add(linC(bits/8), 1).add(d.dyn, 1)
}

// zeroAbove: whether the path establishes that the bits of a length from k on
// are zero (1), are not all zero (-1), or leaves it open (0).
func (d *dynWalk) zeroAbove(bits []tbit, k int) int {
	if k >= len(bits) {
		return 1
	}
	switch d.t.res(d.t.predBits(append([]tbit(nil), bits[k:]...))) {
	case bit0:
		return 1
	case bit1:
		return -1
	}
	return 0
}

// encodeGroups walks the written prefix of a length and returns its groups.
func (d *dynWalk) encodeGroups(path string, at *tlin, put func(*tlin)) int {
	ln := d.t.resN(d.t.lenOf(path))
	for k := 0; ; k++ {
		a := at.add(linC(int64(k)), 1)
		m := d.p.Mem[a.String()]
		if m == nil {
			d.fault("prefix", "group %d of the length is not written", k+1)
			return k
		}
		put(a)
		for i := 0; i < 7; i++ {
			want := bit0
			if 7*k+i < len(ln.bits) {
				want = d.t.res(ln.bits[7*k+i])
			}
			if g := d.t.res(m[i]); g != want {
				d.fault("prefix", "bit %d of group %d of the length is %s, not %s", i, k+1, d.t.bitName(g), d.t.bitName(want))
				return k + 1
			}
		}
		z := d.zeroAbove(ln.bits, 7*k+7)
		switch d.t.res(m[7]) {
		case bit0:
			if z != 1 {
				d.fault("prefix", "group %d ends the length although bits from %d on can be set", k+1, 7*k+7)
			}
			return k + 1
		case bit1:
			if z != -1 {
				d.fault("prefix", "group %d continues the length although nothing may remain", k+1)
			}
		default:
			d.fault("prefix", "the continuation bit of group %d is %s", k+1, d.t.bitName(m[7]))
			return k + 1
		}
		if k > 10 {
			d.fault("prefix", "the length does not end")
			return k
		}
	}
}

func dynEncode(p *tlPath, lang string, st *scStruct) []dynBad {
	d := newDynWalk(p, lang)
	t := d.t
	parts, total := dynParts(st)
	type own struct {
		part *dynPart
		bits [8]tbit
		has  [8]bool
	}
	want := map[string]*own{}
	seen := map[string]bool{}
	put := func(a *tlin) { seen[a.String()] = true }
	used := map[int]bool{}
	event := func(kind, path string) *tevent {
		var r *tevent
		for i := range p.Events {
			e := &p.Events[i]
			if e.kind == kind && e.path == path {
				if r != nil {
					d.fault("coverage", "%s: processed more than once", path)
				}
				r = e
				used[i] = true
			}
		}
		return r
	}
	for i := range parts {
		q := &parts[i]
		d.cur = q
		switch q.kind {
		case "bits":
			for s := int64(0); s < q.l.w; s++ {
				a := d.at(q.from + s).String()
				if want[a] == nil {
					want[a] = &own{part: q}
				}
				k := (q.from + s) % 8
				want[a].bits[k] = q.l.valueBit(t, wireBit(s, q.l.w, q.l.big))
				want[a].has[k] = true
			}
		case "bytes", "string":
			at := d.at(q.from)
			ln := linS("len " + q.path)
			n := int64(0)
			if q.kind == "bytes" {
				n = int64(d.encodeGroups(q.path, at, put))
			}
			at = at.add(linC(n), 1)
			e := event("copy", q.path)
			switch {
			case e == nil:
				d.fault("coverage", "%s is not written", q.path)
			case e.at.String() != at.String():
				d.fault("place", "%s is written at %s, not %s", q.path, e.at, at)
			case e.n == nil || e.n.String() != ln.String():
				d.fault("place", "%v bytes of %s are written, not its length", e.n, q.path)
			}
			d.dyn = d.dyn.add(linC(n), 1).add(ln, 1)
			if q.kind == "string" {
				z := at.add(ln, 1)
				put(z)
				m := p.Mem[z.String()]
				if m == nil {
					d.fault("place", "no zero byte after the text %s", q.path)
				}
				for i := range m {
					if t.res(m[i]) != bit0 {
						d.fault("place", "the byte after the text %s is not zero", q.path)
						break
					}
				}
				d.dyn = d.dyn.add(linC(1), 1)
			}
		case "nested":
			e := event("nested encode", q.path)
			at := d.at(q.from)
			if e == nil {
				d.fault("coverage", "%s is not encoded", q.path)
			} else if e.at.String() != at.String() {
				d.fault("place", "%s is encoded at %s, not %s", q.path, e.at, at)
			}
			if q.st.dynamic {
				d.dyn = d.dyn.add(linS("n("+at.String()+")"), 1)
			}
		}
	}
	for a, o := range want {
		m := p.Mem[a]
		d.cur = o.part
		for k := 0; k < 8; k++ {
			if !o.has[k] {
				continue
			}
			g := bit0
			if m != nil {
				g = t.res(m[k])
			}
			if g != o.bits[k] {
				d.fault("place", "%s: bit %d of byte %s is written with %s, not %s", o.part.path, k, a, t.bitName(g), t.bitName(o.bits[k]))
				break
			}
		}
		seen[a] = true
	}
	d.cur = nil
	for a, m := range p.Mem {
		if !seen[a] {
			for k := range m {
				if t.res(m[k]) != bit0 {
					d.fault("extra", "byte %s, which belongs to no field, is written", a)
					break
				}
			}
		}
	}
	for i := range p.Events {
		e := &p.Events[i]
		if !used[i] && (e.kind == "copy" || e.kind == "nested encode") {
			d.fault("extra", "%s %s at %s is no part of the format", e.kind, e.path, e.at)
		}
	}
	d.total(linC(total/8), "encoder")
	return d.bad
}

// sizes of nested values: the encoder knows them by place, the size functions
// by value.
func (d *dynWalk) total(fixed *tlin, who string) {
	d.cur = nil
	want := fixed.add(d.dyn, 1)
	r, ok := d.p.Ret.(*tn)
	if !ok {
		if d.p.Ret == nil || fmt.Sprintf("%T", d.p.Ret) == "tnil" {
			return
		}
		if tp, k := d.p.Ret.(*ttup); k && len(tp.v) == 2 {
			r, ok = tp.v[1].(*tn)
		}
	}
	if !ok {
		return
	}
	l := d.t.lin(r)
	if l == nil || l.String() != want.String() {
		alt := want
		if d.p.TL.role == "encode" {
			// sizes asked of the values themselves
			for _, e := range d.p.Events {
				if e.kind == "nested encode" {
					for _, x := range d.p.Events {
						if x.kind == "encode_size" && x.path == e.path {
							alt = alt.subst("n("+e.at.String()+")", x.n)
						}
					}
				}
			}
		}
		if l == nil || l.String() != alt.String() {
			d.fault("total", "the %s reports %s bytes, not %s", who, d.t.desc(r), want)
		}
	}
}

// subst replaces a quantity by an expression, also inside other names.
func (a *tlin) subst(name string, by *tlin) *tlin {
	r := linC(a.c)
	var ks []string
	for k := range a.t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if k == name {
			r = r.add(by, a.t[k])
		} else {
			r = r.add(linS(k), a.t[k])
		}
	}
	return r
}

// fails: whether the path ends in failure; open when it cannot be told.
func (p *tlPath) fails() (bool, bool) {
	v := p.Ret
	if tp, ok := v.(*ttup); ok && len(tp.v) == 2 {
		v = tp.v[0]
		if n, ok := v.(*tn); ok {
			switch b := p.TL.res(n.bit(0)); b {
			case bit0:
				return true, true
			case bit1:
				return false, true
			}
		}
		return false, false
	}
	n, ok := v.(*tn)
	if !ok {
		return false, false
	}
	if b, ok := p.TL.constOf(n); ok {
		return b < 0, true
	}
	l := p.TL.lin(n)
	if l == nil {
		return false, false
	}
	neg, pos := l.c < 0, l.c >= 0
	for _, k := range l.t {
		if k > 0 {
			neg = false
		} else {
			pos = false
		}
	}
	if neg {
		return true, true
	}
	if pos {
		return false, true
	}
	return false, p.TL.holds(l)
}

// decodeGroups walks the prefix of a length as far as the path examined it.
// done is false when the path does not say whether the length goes on.
func (d *dynWalk) decodeGroups(at *tlin) (n int, length *tlin, done bool) {
	var bits []tbit
	for k := 0; k < 12; k++ {
		a := at.add(linC(int64(k)), 1).String()
		for i := 0; i < 7; i++ {
			if len(bits) == d.t.decLenBits() {
				break // the target's lengths hold no more
			}
			bits = append(bits, d.t.res(d.t.sym(fmt.Sprintf("d[%s].%d", a, i))))
		}
		switch d.t.res(d.t.sym(fmt.Sprintf("d[%s].7", a))) {
		case bit0:
			for len(bits) > 0 && bits[len(bits)-1] == bit0 {
				bits = bits[:len(bits)-1]
			}
			return k + 1, d.t.lin(fromBits(tBig, bits, bit0)), true
		case bit1:
		default:
			return k + 1, nil, false
		}
	}
	return 12, nil, false
}

func dynDecode(p *tlPath, lang string, st *scStruct, mustCopy bool) []dynBad {
	d := newDynWalk(p, lang)
	t := d.t
	failed, known := p.fails()
	if !known {
		d.fault("result", "whether decoding succeeds cannot be told from the result %s", t.desc(p.Ret))
		return d.bad
	}
	if failed {
		return nil
	}
	for _, e := range p.Events {
		if e.fail {
			d.fault("const", "decoding succeeds although %s of %s fails", e.kind, e.path)
		}
	}
	parts, total := dynParts(st)
	for i := range parts {
		q := &parts[i]
		d.cur = q
		switch q.kind {
		case "bits":
			l := q.l
			ms := p.decodeLeaf(&l, func(pos int64) tbit {
				return t.res(t.sym(fmt.Sprintf("d[%s].%d", d.at(pos), pos%8)))
			})
			for _, m := range ms {
				c := map[string]string{"wire": "place", "ext": "", "unset": "coverage", "const": "const"}[m.cls]
				if c != "" {
					d.fault(c, "%s: %s", q.path, m.what)
				}
			}
		case "bytes", "string":
			at := d.at(q.from)
			var ln *tlin
			n := 0
			if q.kind == "bytes" {
				var done bool
				n, ln, done = d.decodeGroups(at)
				if !done || ln == nil {
					d.fault("prefix", "decoding succeeds without having seen the end of the length of %s (group %d at %s)", q.path, n, at)
					return d.bad
				}
			} else {
				ln = linS("nul(" + at.String() + ")")
			}
			at = at.add(linC(int64(n)), 1)
			d.checkSlice(q, at, ln, mustCopy)
			d.dyn = d.dyn.add(linC(int64(n)), 1).add(ln, 1)
			if q.kind == "string" {
				d.dyn = d.dyn.add(linC(1), 1)
			}
		case "nested":
			at := d.at(q.from)
			cnt := 0
			for _, e := range p.Events {
				if e.kind == "nested decode" && (e.path == q.path || strings.HasPrefix(e.path, "?")) && e.at.String() == at.String() {
					cnt++
				}
			}
			if cnt == 0 {
				w := ""
				for _, e := range p.Events {
					if e.kind == "nested decode" && e.path == q.path {
						w = " (but at " + e.at.String() + ")"
					}
				}
				c := "coverage"
				if w != "" {
					c = "place"
				}
				d.fault(c, "%s is not decoded from %s%s", q.path, at, w)
			}
			if q.st.dynamic {
				d.dyn = d.dyn.add(linS("n("+at.String()+")"), 1)
			}
		}
	}
	d.total(linC(total/8), "decoder")
	return d.bad
}

func (d *dynWalk) checkSlice(q *dynPart, at, ln *tlin, mustCopy bool) {
	p, t := d.p, d.t
	var off, n *tlin
	copied := false
	v, ok := p.Fields[q.path]
	if !ok {
		dv, ok1 := p.Fields[q.path+".data"]
		lv, ok2 := p.Fields[q.path+".length"]
		if !ok1 || !ok2 {
			d.fault("coverage", "%s is not set", q.path)
			return
		}
		num, ok := lv.(*tn)
		if !ok {
			d.fault("prefix", "the length of %s is %s", q.path, t.desc(lv))
			return
		}
		n = t.lin(num)
		if n == nil {
			d.fault("prefix", "the length of %s is %s, not %s", q.path, t.desc(lv), ln)
			return
		}
		switch x := dv.(type) {
		case *tptr:
			off = x.off
		default:
			v = dv
		}
	}
	switch x := v.(type) {
	case nil:
	case *tsl:
		off, n, copied = x.off, x.n, x.copied
	case *tnew:
		copied = true
		n = x.n
		if x.fill != nil {
			off = x.fill.off
			if lang := d.lang; lang == "c" && q.kind == "string" {
				n = n.add(linC(1), -1)
				if !x.term {
					d.fault("place", "%s is not ended with a zero", q.path)
				}
			}
			if x.fill.n == nil || x.fill.n.String() != ln.String() {
				d.fault("place", "%v bytes are copied into %s, not its length %s", x.fill.n, q.path, ln)
				return
			}
		} else {
			d.fault("coverage", "%s is allocated but not filled", q.path)
			return
		}
	case *tptr:
		// C text: up to its zero byte
		off, n = x.off, linS("nul("+x.off.String()+")")
	default:
		d.fault("place", "%s is set to %s", q.path, t.desc(v))
		return
	}
	if off == nil || off.String() != at.String() {
		d.fault("place", "%s is taken from byte %v, not %s", q.path, off, at)
	}
	if n == nil || n.String() != ln.String() {
		c := "place"
		if q.kind == "bytes" {
			c = "prefix"
		}
		d.fault(c, "%s is %v bytes long, not %s", q.path, n, ln)
	}
	if (mustCopy || alwaysCopies(d.lang, q.kind)) && !copied {
		d.fault("alias", "%s shares memory with the input", q.path)
	}
}

// dynSize: the size functions.
func dynSize(p *tlPath, lang string, st *scStruct) []dynBad {
	d := newDynWalk(p, lang)
	t := d.t
	parts, total := dynParts(st)
	if t.role == "encode_size" {
		for i := range parts {
			q := &parts[i]
			d.cur = q
			switch q.kind {
			case "bytes":
				ln := t.resN(t.lenOf(q.path))
				k := 1
				for {
					z := d.zeroAbove(ln.bits, 7*k)
					if z == 1 {
						break
					}
					if z == 0 {
						d.fault("prefix", "the size does not depend on whether the length of %s needs more than %d groups", q.path, k)
						break
					}
					k++
				}
				d.dyn = d.dyn.add(linC(int64(k)), 1).add(linS("len "+q.path), 1)
			case "string":
				d.dyn = d.dyn.add(linC(1), 1).add(linS("len "+q.path), 1)
			case "nested":
				if q.st.dynamic {
					d.dyn = d.dyn.add(linS("n("+q.path+")"), 1)
				}
			}
		}
		d.total(linC(total/8), "size function")
		return d.bad
	}
	for _, n := range p.Notes {
		d.fault("unchecked", "%s", n)
	}
	failed, known := p.fails()
	if !known {
		d.fault("result", "whether the input suffices cannot be told from the result %s", t.desc(p.Ret))
		return d.bad
	}
	if failed {
		d.shortfall()
		return d.bad
	}
	for _, e := range p.Events {
		if e.fail {
			d.fault("size", "a size is reported although %s of %s reports a shortfall", e.kind, e.path)
		}
	}
	for i := range parts {
		q := &parts[i]
		d.cur = q
		at := d.at(q.from)
		switch q.kind {
		case "bytes":
			n, ln, done := d.decodeGroups(at)
			if !done || ln == nil {
				d.fault("prefix", "a size is reported without having seen the end of the length of %s (group %d at %s)", q.path, n, at)
				return d.bad
			}
			d.dyn = d.dyn.add(linC(int64(n)), 1).add(ln, 1)
		case "string":
			d.dyn = d.dyn.add(linC(1), 1).add(linS("nul("+at.String()+")"), 1)
		case "nested":
			if q.st.dynamic {
				d.dyn = d.dyn.add(linS("n("+at.String()+")"), 1)
			}
		}
	}
	d.total(linC(total/8), "size function")
	need := d.at(total)
	if t.size != nil && !t.holds(t.size.add(need, -1)) {
		d.fault("size", "a size of %s is reported although the input may be shorter", need)
	}
	return d.bad
}

// shortfall: a failing size function reports more bytes than there are, or
// the path shows a length no input can have.
func (d *dynWalk) shortfall() {
	t := d.t
	n, ok := d.p.Ret.(*tn)
	if !ok {
		return
	}
	l := t.lin(n)
	if l == nil {
		return
	}
	need := l.scale(-1).add(d.base, 1)
	if t.holds(need.add(t.size, -1).add(linC(1), -1)) {
		return
	}
	for _, e := range d.p.Events {
		if e.fail {
			for k := range l.t {
				if strings.HasPrefix(k, "short(") {
					return
				}
			}
		}
	}
	if l.isC() && l.c == -1 && d.overlong() {
		return
	}
	d.fault("size", "a shortfall of %s is reported although the input may be that long", l)
}

// overlong: the path saw a length that the target's numbers do not hold or
// that no input reaches.
func (d *dynWalk) overlong() bool {
	for _, c := range d.p.Conds {
		if dynHuge(c) {
			return true
		}
	}
	max := (d.t.decLenBits() + 6) / 7
	if max > 9 {
		max = 9 // sizes are signed
	}
	if d.lang == "python" {
		max = 9
	}
	parts, _ := dynParts(d.t.st)
	for i := range parts {
		q := &parts[i]
		at := d.at(q.from)
		switch q.kind {
		case "bytes":
			n, ln, done := d.decodeGroups(at)
			if n > max {
				return true
			}
			if n == 5 && d.t.decLenBits() == 31 && d.t.res(d.t.sym(fmt.Sprintf("d[%s].3", at.add(linC(4), 1)))) == bit1 {
				return true
			}
			if !done || ln == nil {
				// the last group's bits beyond the number's own
				return n == max && 7*max > d.t.decLenBits()
			}
			d.dyn = d.dyn.add(linC(int64(n)), 1).add(ln, 1)
		case "string":
			d.dyn = d.dyn.add(linC(1), 1).add(linS("nul("+at.String()+")"), 1)
		case "nested":
			if q.st.dynamic {
				d.dyn = d.dyn.add(linS("n("+at.String()+")"), 1)
			}
		}
	}
	return false
}

func dynHuge(c string) bool {
	// a comparison with a number no input length reaches
	i := strings.LastIndexAny(c, "+-")
	if i < 0 {
		return false
	}
	v := strings.TrimRight(strings.Fields(c[i+1:] + " ")[0], ")")
	var n int64
	fmt.Sscan(v, &n)
	return n >= 1<<30
}

// constOf: the value of a number that is the same on every run.
func (t *TL) constOf(n *tn) (int64, bool) {
	n = t.resN(n)
	if n.bits == nil {
		if n.lin != nil && n.lin.isC() {
			return n.lin.c, true
		}
		return 0, false
	}
	v := int64(0)
	for i := 0; i < 63; i++ {
		switch n.bit(i) {
		case bit1:
			v |= 1 << uint(i)
		case bit0:
		default:
			return 0, false
		}
	}
	switch n.sx {
	case bit1:
		return v - 1<<62 - 1<<62, true
	case bit0:
		return v, true
	}
	return 0, false
}

// decLenBits: the bits of a decoded length the target's numbers keep.
func (t *TL) decLenBits() int {
	switch t.lang {
	case "c", "cpp":
		return 64
	case "commonjs", "esm":
		return 32
	case "go":
		return 63
	case "python":
		return 1 << 20
	}
	return 31
}
