package main

import (
	"fmt"
	"math"
	"os"
	"strings"
)

// The wire format the emitted codecs are compared with: fields take
// consecutive bits; bit s of a field of w bits carries bit s of the value
// (little-endian), or, for order = "big", the bits of its bytes taken from the
// most significant one.

func wireBit(s, w int64, big bool) int64 {
	if !big {
		return s
	}
	lo := w - 8*(s/8+1)
	if lo < 0 {
		lo = 0
	}
	return lo + s%8
}

type tlLeaf struct {
	path string
	ty   *scType
	from int64
	w    int64
	big  bool
	f    *scField
	desc string
}

// leaves lists the fixed-position leaves of a structure in declaration order.
// Dynamic fields take no bits of the fixed part.
func tlLeaves(st *scStruct) (ls []tlLeaf, total int64) {
	var walk func(st *scStruct, pos int64) int64
	walk = func(st *scStruct, pos int64) int64 {
		for _, f := range st.fields {
			w := f.bits.c
			big := f.opts["order"] == "big"
			switch f.kind {
			case "embedded":
				pos = walk(f.sub, pos)
				continue
			case "normal":
				if f.ty.kind == "array" {
					ew := w / f.ty.n
					for i := int64(0); i < f.ty.n; i++ {
						ls = append(ls, tlLeaf{path: fmt.Sprintf("%s[%d]", f.name, i), ty: f.ty.elem, from: pos + i*ew, w: ew, big: big, f: f})
					}
				} else {
					ls = append(ls, tlLeaf{path: f.name, ty: f.ty, from: pos, w: w, big: big, f: f})
				}
			case "const":
				ls = append(ls, tlLeaf{path: f.name, ty: f.ty, from: pos, w: w, big: big, f: f})
			}
			pos += w
		}
		return pos
	}
	total = walk(st, 0)
	return
}

func (l *tlLeaf) kind() string {
	k := l.ty.kind
	if l.f.kind == "const" {
		k = "constant " + k
	}
	if l.f.ty.kind == "array" {
		k = fmt.Sprintf("%s<%d>", k, l.f.ty.n)
	}
	if l.big {
		k += " big-endian"
	}
	return fmt.Sprintf("%s of %d bits at bit %d of a byte", k, l.w, l.from%8)
}

// ---- construction of test structures

type tlSuite struct {
	sts   []*scStruct
	enums []*scEnum
	cur   *scStruct
	pos   int64
	n     int
	max   int
	extra []*scStruct
}

func (s *tlSuite) open() {
	if s.cur != nil && len(s.cur.fields) < s.max {
		return
	}
	s.close()
	s.cur = &scStruct{name: fmt.Sprintf("St%d", len(s.sts))}
	s.pos = 0
}

func (s *tlSuite) close() {
	if s.cur == nil {
		return
	}
	if p := s.pos % 8; p != 0 {
		s.void(8 - p)
	}
	s.cur.bits = aiInt(s.pos)
	s.sts = append(s.sts, s.cur)
	s.cur = nil
}

func (s *tlSuite) void(n int64) {
	s.cur.add(&scField{kind: "void", bits: aiInt(n)})
	s.pos += n
}

// at adds a field at the wanted offset within a byte.
func (s *tlSuite) at(res int64, f *scField) {
	s.open()
	if p := s.pos % 8; p != res {
		s.void((res - p + 8) % 8)
	}
	if f.name == "" {
		f.name = fmt.Sprintf("f%d", s.n)
	}
	s.n++
	s.cur.add(f)
	s.pos += f.bits.c
}

func scB(k string) *scType { return &scType{kind: k} }
func scArr(e *scType, n int64) *scType {
	return &scType{kind: "array", elem: e, n: n}
}
func (s *tlSuite) enumT(bits int64) *scType {
	for _, e := range s.enums {
		if e.bits == bits {
			return &scType{kind: "enum", bits: bits, name: e.name, enum: e}
		}
	}
	e := &scEnum{name: fmt.Sprintf("En%d", bits), bits: bits, vals: []scEV{{"Zero", 0}, {"One", 1}}}
	s.enums = append(s.enums, e)
	return &scType{kind: "enum", bits: bits, name: e.name, enum: e}
}

func ord(big bool) map[string]any {
	if big {
		return map[string]any{"order": "big"}
	}
	return nil
}

func (s *tlSuite) unit() (*scUnit, map[string]*scType) {
	s.close()
	u := &scUnit{path: "/w/tst.bb", pkg: []string{"tst"}, structs: s.sts, enums: s.enums}
	types := map[string]*scType{}
	for _, e := range s.enums {
		types[e.name] = &scType{kind: "enum", bits: e.bits, name: e.name, enum: e}
	}
	for _, st := range s.sts {
		types[st.name] = &scType{kind: "struct", name: st.name, st: st}
	}
	return u, types
}

var tlBaseOpts = map[string]any{"SingleFile": false, "InnerClass": false, "MinimalCode": true, "RelativePath": false, "CompatibleMode": false, "DecimalNumber": false, "MemoryCopy": false,
	"SignExtMethod": aiInt(0), "LoopUnroll": aiInt(8)}

func tlOpts(kv ...any) map[string]any {
	o := map[string]any{}
	for k, v := range tlBaseOpts {
		o[k] = v
	}
	for i := 0; i+1 < len(kv); i += 2 {
		o[kv[i].(string)] = kv[i+1]
	}
	return o
}

// emit generates the schema for a target and loads the result.
func (w *World) tlEmit(shared *aiShared, lang string, u *scUnit, types map[string]*scType, opts map[string]any) (*tlProg, error) {
	outs := w.generate(shared, lang, []*scUnit{u}, opts, 16)
	if len(outs) != 1 {
		return nil, fmt.Errorf("generation for %s takes %d paths: %v", lang, len(outs), outs[len(outs)-1].Conds)
	}
	o := outs[0]
	if o.It == nil || o.Err != "" {
		return nil, fmt.Errorf("generation for %s could not be evaluated: %s", lang, o.Err)
	}
	texts := map[string]string{}
	for _, f := range o.It.Files {
		texts[f.Name] += f.Text
		if d := os.Getenv("BBSA_DUMP"); d != "" {
			os.WriteFile(d+"/"+lang+"_"+strings.ReplaceAll(f.Name, "/", "_"), []byte(f.Text), 0o644)
		}
	}
	return tlLoad(lang, texts, types)
}

// ---- comparison

type tlMismatch struct {
	leaf *tlLeaf
	what string
	cls  string
}

func (p *tlPath) byteBits(lang string, i int64) []tbit {
	off := linC(i)
	if lang == "java" || lang == "kotlin" || lang == "commonjs" || lang == "esm" {
		off = off.add(linS("start"), 1)
	}
	return p.Mem[off.String()]
}

// old is the symbol of a bit of the output buffer before encoding.
func (p *tlPath) old(lang string, b, k int64) string {
	off := linC(b)
	if lang == "java" || lang == "kotlin" || lang == "commonjs" || lang == "esm" {
		off = off.add(linS("start"), 1)
	}
	return fmt.Sprintf("d[%s].%d", off, k)
}

// valueBit: the symbol of bit k of a leaf's value on the encode side.
func (l *tlLeaf) valueBit(t *TL, k int64) tbit {
	if l.f.kind == "const" {
		c, ok := constBits(l)
		if !ok {
			return bitTop
		}
		return tbit(c >> uint(k) & 1)
	}
	if l.ty.kind == "bool" && k > 0 {
		return bit0
	}
	if l.ty.kind == "enum" && k >= l.ty.enum.bits {
		return bit0
	}
	return t.res(t.sym(fmt.Sprintf("%s.%d", l.path, k)))
}

// checkEncode compares the bytes written with the wire format.
func (p *tlPath) checkEncode(lang string, ls []tlLeaf, total int64) []tlMismatch {
	var out []tlMismatch
	want := make([]tbit, total)
	for i := range ls {
		l := &ls[i]
		for s := int64(0); s < l.w; s++ {
			want[l.from+s] = l.valueBit(p.TL, wireBit(s, l.w, l.big))
		}
	}
	owner := func(pos int64) *tlLeaf {
		for i := range ls {
			if pos >= ls[i].from && pos < ls[i].from+ls[i].w {
				return &ls[i]
			}
		}
		return nil
	}
	seen := map[*tlLeaf]bool{}
	for b := int64(0); b < total/8; b++ {
		got := p.byteBits(lang, b)
		for k := int64(0); k < 8; k++ {
			g := bit0
			if got != nil {
				g = p.TL.res(got[k])
			}
			if g != want[b*8+k] {
				l := owner(b*8 + k)
				if l == nil || seen[l] {
					if l == nil && g != p.TL.res(p.TL.sym(p.old(lang, b, k))) {
						out = append(out, tlMismatch{nil, fmt.Sprintf("bit %d of byte %d belongs to no field but is written with %s", k, b, p.TL.bitName(g)), "outside"})
					}
					continue
				}
				seen[l] = true
				out = append(out, tlMismatch{l, fmt.Sprintf("bit %d of the field's wire bits is written with %s, not %s", b*8+k-l.from, p.TL.bitName(g), p.TL.bitName(want[b*8+k])), "wire"})
			}
		}
	}
	n := int(total / 8)
	for k := range p.Mem {
		found := false
		for b := 0; b < n; b++ {
			off := linC(int64(b))
			if lang == "java" || lang == "kotlin" || lang == "commonjs" || lang == "esm" {
				off = off.add(linS("start"), 1)
			}
			if off.String() == k {
				found = true
			}
		}
		if !found {
			out = append(out, tlMismatch{nil, "byte " + k + " outside the structure is written", "outside"})
		}
	}
	return out
}

// checkDecode compares the fields after decoding with the wire format.
func (p *tlPath) checkDecode(lang string, ls []tlLeaf) []tlMismatch {
	var out []tlMismatch
	t := p.TL
	dbit := func(pos int64) tbit {
		off := linC(pos / 8)
		if lang == "java" || lang == "kotlin" || lang == "commonjs" || lang == "esm" {
			off = off.add(linS("start"), 1)
		}
		return t.res(t.sym(fmt.Sprintf("d[%s].%d", off, pos%8)))
	}
	for i := range ls {
		out = append(out, p.decodeLeaf(&ls[i], dbit)...)
	}
	return out
}

// decodeLeaf compares one field after decoding with the wire bits given.
func (p *tlPath) decodeLeaf(l *tlLeaf, dbit func(pos int64) tbit) []tlMismatch {
	var out []tlMismatch
	t := p.TL
	if l.f.kind == "const" {
		c, ok := constBits(l)
		for s := int64(0); ok && s < l.w; s++ {
			want := tbit(c >> uint(wireBit(s, l.w, l.big)) & 1)
			if g := dbit(l.from + s); g != want {
				out = append(out, tlMismatch{l, fmt.Sprintf("a frame whose bit %d of the constant is not %d is accepted", s, want), "const"})
				break
			}
		}
		return out
	}
	v, ok := p.Fields[l.path]
	if !ok {
		out = append(out, tlMismatch{l, "the field is not set", "unset"})
		return out
	}
	want := make([]tbit, l.w)
	for s := int64(0); s < l.w; s++ {
		want[wireBit(s, l.w, l.big)] = dbit(l.from + s)
	}
	cls := "wire"
	bad := func(f string, a ...any) { out = append(out, tlMismatch{l, fmt.Sprintf(f, a...), cls}) }
	cmp := func(bits func(i int) tbit, n int, ext tbit) {
		for i := 0; i < n; i++ {
			w := ext
			if i < len(want) {
				w = want[i]
			}
			if g := t.res(bits(i)); g != w {
				if i >= len(want) {
					cls = "ext"
				}
				bad("bit %d of the value is read from %s, not %s", i, t.bitName(g), t.bitName(w))
				return
			}
		}
	}
	switch x := v.(type) {
	case *tn:
		if l.ty.kind == "bool" {
			// any set bit, or bit 0
			g := t.res(x.bit(0))
			any := t.predBits(append([]tbit(nil), want...))
			if g != want[0] && g != any {
				bad("the value is read from %s, not %s", t.bitName(g), t.bitName(want[0]))
			}
			return out
		}
		if l.ty.kind == "enum" || strings.HasPrefix(l.ty.kind, "float") {
			bad("the field is set to %s", t.desc(v))
			return out
		}
		x = t.resN(x)
		if x.bits == nil {
			x = x.withBits()
		}
		n := l.ty.width()
		ext := bit0
		if strings.HasPrefix(l.ty.kind, "int") {
			ext = want[l.w-1]
		}
		cmp(func(i int) tbit { return x.bit(i) }, n, ext)
		// the number itself: what the type holds above its width
		cls = "ext"
		top := ext
		if n == int(l.w) {
			top = want[n-1]
		}
		sg := x.ty.sg || x.ty.w == 0
		if strings.HasPrefix(l.ty.kind, "uint") {
			if x.ty.w == 0 || x.ty.w > n {
				if g := t.res(x.bit(n)); g != bit0 {
					bad("an unsigned value can come out negative or too large (%s above its %d bits)", t.bitName(g), n)
				}
			}
		} else if sg && (x.ty.w == 0 || x.ty.w > n) {
			if g := t.res(x.bit(n)); g != top {
				bad("the sign of the value is taken from %s, not %s", t.bitName(g), t.bitName(top))
			}
		} else if !sg {
			bad("a signed field holds an unsigned number")
		}
	case *tflt:
		if !strings.HasPrefix(l.ty.kind, "float") || len(x.bits) != l.ty.width() {
			bad("the field is set to %s", t.desc(v))
			return out
		}
		cmp(func(i int) tbit { return x.bits[i] }, len(x.bits), bit0)
	case *tenum:
		if l.ty.kind != "enum" {
			bad("the field is set to an enumeration value")
			return out
		}
		y := t.resN(x.n).withBits()
		n := int(l.w) + 1
		if n > 63 {
			n = 63
		}
		cmp(func(i int) tbit { return y.bit(i) }, n, bit0)
	default:
		bad("the field is set to %s", t.desc(v))
	}
	return out
}

// constBits: the bits of a constant's value.
func constBits(l *tlLeaf) (uint64, bool) {
	switch v := l.f.konst.(type) {
	case float64:
		if l.ty.kind == "float32" {
			return uint64(math.Float32bits(float32(v))), true
		}
		return math.Float64bits(v), true
	case int64:
		if l.ty.kind == "float32" {
			return uint64(math.Float32bits(float32(v))), true
		}
		if l.ty.kind == "float64" {
			return math.Float64bits(float64(v)), true
		}
		return uint64(v), true
	case uint64:
		return v, true
	case bool:
		if v {
			return 1, true
		}
		return 0, true
	}
	return 0, false
}
