package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// Expressions of emitted code: typing, promotions and conversions follow the
// rules of the target language.

type (
	tbyte struct{ at *tlin } // a byte of the buffer
	tcast struct {           // a pointer to storage, retyped
		of any
		ty string
	}
	tpack struct{ bits []tbit } // bytes of a number (struct.pack, GetBytes)
	ttyp  struct{ name string } // a type used as a value
	tslot struct {              // length or data of a bytes field (C, C++)
		f    *tfld
		slot string
	}
	ttext struct{ of any } // encoded text of a string field
)

func (t *TL) js() bool { return t.lang == "commonjs" || t.lang == "esm" }

func tlNorm(s string) string {
	return strings.ToLower(strings.ReplaceAll(strings.Trim(s, "_"), "_", ""))
}

func cleanType(s string) string {
	s = strings.ReplaceAll(s, "const ", "")
	for _, p := range []string{"enum ", "struct ", "const", "static ", "final "} {
		s = strings.TrimPrefix(s, p)
	}
	s = strings.TrimPrefix(s, "std.")
	return strings.TrimSpace(s)
}

// intType: the integer type a name denotes in the language at hand.
func (t *TL) intType(ty string) (tty, bool) {
	ty = cleanType(ty)
	switch t.lang {
	case "c", "cpp":
		switch ty {
		case "uint8_t", "unsigned char":
			return tU8, true
		case "uint16_t", "unsigned short":
			return tU16, true
		case "uint32_t", "unsigned", "unsigned int":
			return tU32, true
		case "uint64_t", "size_t", "unsigned long", "uintptr_t":
			return tU64, true
		case "int8_t", "char", "signed char":
			return tI8, true
		case "int16_t", "short":
			return tI16, true
		case "int32_t", "int":
			return tI32, true
		case "int64_t", "long", "ssize_t", "ptrdiff_t":
			return tI64, true
		case "bool", "_Bool":
			return tBool, true
		}
	case "go":
		switch ty {
		case "uint8", "byte":
			return tU8, true
		case "uint16":
			return tU16, true
		case "uint32":
			return tU32, true
		case "uint64", "uint", "uintptr":
			return tU64, true
		case "int8":
			return tI8, true
		case "int16":
			return tI16, true
		case "int32", "rune":
			return tI32, true
		case "int64", "int":
			return tI64, true
		case "bool":
			return tBool, true
		}
	case "java":
		switch ty {
		case "byte":
			return tI8, true
		case "short":
			return tI16, true
		case "char":
			return tU16, true
		case "int", "Integer":
			return tI32, true
		case "long", "Long":
			return tI64, true
		case "boolean":
			return tBool, true
		}
	case "csharp":
		switch ty {
		case "byte":
			return tU8, true
		case "sbyte":
			return tI8, true
		case "short":
			return tI16, true
		case "ushort", "char":
			return tU16, true
		case "int":
			return tI32, true
		case "uint":
			return tU32, true
		case "long":
			return tI64, true
		case "ulong":
			return tU64, true
		case "bool":
			return tBool, true
		}
	case "kotlin":
		switch strings.TrimSuffix(ty, "?") {
		case "Byte":
			return tI8, true
		case "Short":
			return tI16, true
		case "Int":
			return tI32, true
		case "Long":
			return tI64, true
		case "UByte":
			return tU8, true
		case "UShort":
			return tU16, true
		case "UInt":
			return tU32, true
		case "ULong":
			return tU64, true
		case "Boolean":
			return tBool, true
		}
	case "python":
		switch ty {
		case "int":
			return tBig, true
		case "bool":
			return tBool, true
		}
	}
	return tty{}, false
}

func floatW(ty string) int {
	switch cleanType(ty) {
	case "float", "float32", "Float":
		return 32
	case "double", "float64", "Double":
		return 64
	}
	return 0
}

func (t *TL) natInt() tty {
	switch t.lang {
	case "c", "cpp", "go":
		return tI64
	case "python":
		return tBig
	case "commonjs", "esm":
		return tNum
	}
	return tI32
}

func (t *TL) lenBits() int {
	switch t.lang {
	case "c", "cpp":
		return 64
	case "go", "python":
		return 63
	}
	return 31
}

// basicT: the native type of a schema's basic type (checked by C27).
func (t *TL) basicT(b *scType) tty {
	w := b.width()
	sg := strings.HasPrefix(b.kind, "int")
	if b.kind == "bool" {
		return tBool
	}
	switch t.lang {
	case "python":
		return tBig
	case "commonjs", "esm":
		if w == 64 {
			return tBig
		}
		return tNum
	case "java":
		sg = true
	}
	return tty{w, sg, 'i'}
}

func (s *scType) width() int {
	for _, w := range []int{8, 16, 32, 64} {
		if strings.HasSuffix(s.kind, strconv.Itoa(w)) {
			return w
		}
	}
	switch s.kind {
	case "bool":
		return 1
	}
	return 0
}

// ---- reading and writing storage

func (t *TL) valBits(prefix string, n int) []tbit {
	bs := make([]tbit, n)
	for i := range bs {
		bs[i] = t.sym(fmt.Sprintf("%s.%d", prefix, i))
	}
	return bs
}

func (t *TL) lenOf(path string) *tn {
	n := "len " + path
	r := &tn{ty: t.natInt(), bits: t.valBits(n, t.lenBits()), sx: bit0, lin: linS(n)}
	if t.lang == "c" || t.lang == "cpp" {
		r.ty = tU64
	}
	return r
}

func (t *TL) initial(f *tfld) any {
	p := f.path
	if t.role != "encode" {
		p = "old " + p
	}
	ty := f.ty
	switch ty.kind {
	case "bool":
		return boolN(t.sym(p + ".0"))
	case "float32", "float64":
		return &tflt{t.valBits(p, ty.width())}
	case "enum":
		w := int(ty.enum.bits)
		if t.js() {
			return &tenum{fromBits(tNum, t.valBits(p, w), bit0)}
		}
		return &tenum{fromBits(tBig, t.valBits(p, w), bit0)}
	case "string", "bytes":
		return &tbytes{f.path}
	}
	if w := ty.width(); w > 0 {
		bt := t.basicT(ty)
		bs := t.valBits(p, w)
		sx := bit0
		if strings.HasPrefix(ty.kind, "int") || bt.k == 'i' && bt.sg {
			sx = bs[w-1]
		}
		return fromBits(bt, bs, sx)
	}
	return f
}

func (t *TL) leaf(f *tfld) bool { return f.ty.kind != "array" && f.ty.kind != "struct" }

func (t *TL) load(v any) any {
	switch x := v.(type) {
	case *tcell:
		if _, ok := x.v.(tundef); ok {
			it, ok := t.intType(x.ty)
			if !ok {
				if t.js() || t.lang == "python" {
					return tundef{}
				}
				if t.lang == "go" && x.ty == "[]byte" {
					return &tptr{off: linS("nothing"), lim: linC(0)}
				}
				t.fail("use of an uninitialised variable of type %q", x.ty)
			}
			t.note("uninitialised variable is used (line %d)", t.line)
			return topN(it)
		}
		return x.v
	case *tbyte:
		return t.readByte(x.at)
	case *tfld:
		if !t.leaf(x) {
			return x
		}
		if v, ok := t.fields[x.path]; ok {
			return v
		}
		return t.initial(x)
	case *tview:
		return t.loadView(x)
	case *tslot:
		if v, ok := t.fields[x.f.path+"."+x.slot]; ok {
			return v
		}
		if x.slot == "length" {
			return t.lenOf(x.f.path)
		}
		return &tbytes{x.f.path}
	}
	return v
}

func rawBits(v any) ([]tbit, bool) {
	switch x := v.(type) {
	case *tflt:
		return x.bits, true
	case *tn:
		x = x.withBits()
		if x.bits == nil {
			return nil, false
		}
		w := x.ty.w
		if x.ty.k == 'B' {
			w = 8
		}
		if w == 0 {
			return nil, false
		}
		bs := make([]tbit, w)
		for i := range bs {
			bs[i] = x.bit(i)
			if x.ty.k == 'B' && i > 0 {
				bs[i] = bit0
			}
		}
		return bs, true
	case *tenum:
		bs := make([]tbit, 64)
		for i := range bs {
			bs[i] = x.n.bit(i)
		}
		return bs, true
	}
	return nil, false
}

func (t *TL) loadView(x *tview) any {
	bs, ok := rawBits(t.load(x.of))
	if !ok {
		t.fail("reinterpretation of %s", t.desc(t.load(x.of)))
	}
	if len(bs) < x.ty.w {
		t.fail("reinterpreting %d bits as %d", len(bs), x.ty.w)
	}
	if len(bs) > x.ty.w {
		t.note("storage of %d bits read as %d bits", len(bs), x.ty.w)
	}
	return wrapT(&tn{bits: bs, sx: bit0}, x.ty)
}

func (t *TL) readByte(at *tlin) *tn {
	t.reads = append(t.reads, at)
	if t.loopV == "" {
		t.checkRead(at)
	}
	bs := t.memBits(at)
	switch t.lang {
	case "java", "kotlin":
		return fromBits(tI8, append([]tbit(nil), bs...), bs[7])
	case "python":
		return fromBits(tBig, append([]tbit(nil), bs...), bit0)
	case "commonjs", "esm":
		return fromBits(tNum, append([]tbit(nil), bs...), bit0)
	}
	return fromBits(tU8, append([]tbit(nil), bs...), bit0)
}

func (t *TL) memBits(at *tlin) []tbit {
	k := at.String()
	if b, ok := t.mem[k]; ok {
		return b
	}
	if t.zero && t.role == "encode" {
		return make([]tbit, 8)
	}
	return t.valBits("d["+k+"]", 8)
}

func (t *TL) writeByte(at *tlin, bits []tbit) {
	k := at.String()
	if t.mem == nil {
		t.mem = map[string][]tbit{}
		t.memAt = map[string]*tlin{}
	}
	t.mem[k] = bits
	t.memAt[k] = at
	t.events = append(t.events, tevent{kind: "write", at: at})
}

func (t *TL) checkRead(at *tlin) {
	if t.role != "decode_size" || t.size == nil {
		return
	}
	if !t.holds(t.size.add(at, -1).add(linC(1), -1)) {
		t.note("reads byte %s without having checked that the input is that long", at)
	}
}

// store assigns v to an lvalue, converting as the language does.
func (t *TL) store(lv, v any) {
	if c, ok := lv.(*tcell); ok {
		v = t.convDecl(v, c.ty)
	}
	if t.guard != bit1 {
		v = t.mux(t.guard, t.convTo(lv, v), t.load(lv))
	}
	switch x := lv.(type) {
	case *tcell:
		x.v = v
	case *tbyte:
		if e, ok := v.(*telem); ok {
			t.events = append(t.events, tevent{kind: "copy", path: e.path, at: x.at.add(e.i, -1), n: t.loopN})
			return
		}
		n := t.num(v)
		n = t.resN(n)
		if t.lang == "python" {
			for i := 8; i < len(n.bits) || i == 8; i++ {
				if t.res(n.bit(i)) != bit0 {
					t.note("a value outside 0..255 may be stored into a byte (line %d): %s", t.line, t.bitsName(n))
					break
				}
			}
		}
		w := wrapT(n, tU8)
		bs := make([]tbit, 8)
		for i := range bs {
			bs[i] = w.bit(i)
		}
		t.writeByte(x.at, bs)
	case *tfld:
		if !t.leaf(x) {
			t.fields[x.path] = v
			return
		}
		t.fields[x.path] = t.convTo(lv, v)
	case *tslot:
		t.fields[x.f.path+"."+x.slot] = v
	case *tview:
		t.storeView(x, v)
	case *telem:
		// copying bytes one by one
		b, ok := v.(*tbyte)
		if !ok {
			t.fail("element store of %s", t.desc(v))
		}
		_ = b
	default:
		t.fail("assignment to %s", t.desc(lv))
	}
}

func (t *TL) storeView(x *tview, v any) {
	n := wrapT(t.num(v), x.ty)
	bs := make([]tbit, x.ty.w)
	for i := range bs {
		bs[i] = n.bit(i)
	}
	put := func(of any) {
		switch c := of.(type) {
		case *tcell:
			if w := floatW(c.ty); w > 0 {
				if w != len(bs) {
					t.fail("%d bits stored in a float of %d", len(bs), w)
				}
				c.v = &tflt{bs}
				return
			}
			it, ok := t.intType(c.ty)
			if !ok || it.w > len(bs) {
				t.fail("%d bits stored in a variable of type %q", len(bs), c.ty)
			}
			if it.w < len(bs) {
				t.note("storing %d bits overruns a variable of %d bits", len(bs), it.w)
			}
			c.v = wrapT(&tn{bits: bs, sx: bit0}, it)
		case *tfld:
			switch c.ty.kind {
			case "float32", "float64":
				if c.ty.width() != len(bs) {
					t.fail("%d bits stored in a %s", len(bs), c.ty.kind)
				}
				t.fields[c.path] = &tflt{bs}
			case "bool":
				t.fields[c.path] = &tn{ty: tU8, bits: bs, sx: bit0}
			default:
				bt := t.basicT(c.ty)
				if bt.w != len(bs) {
					t.note("%d bits stored in a field of %d", len(bs), bt.w)
				}
				t.fields[c.path] = wrapT(&tn{bits: bs, sx: bit0}, bt)
			}
		default:
			t.fail("reinterpreting store into %s", t.desc(of))
		}
	}
	put(x.of)
}

// convTo converts a value to what the target of an assignment holds.
func (t *TL) convTo(lv, v any) any {
	f, ok := lv.(*tfld)
	if !ok {
		return v
	}
	switch f.ty.kind {
	case "bool":
		if n, ok := v.(*tn); ok && n.ty.k != 'B' {
			switch t.lang {
			case "c", "cpp":
				return boolN(t.nz(t.resN(n)))
			}
		}
		return v
	case "enum", "float32", "float64", "string", "bytes", "struct", "array":
		if n, ok := v.(*tn); ok && f.ty.kind == "enum" {
			return &tenum{n}
		}
		return v
	}
	n, ok := v.(*tn)
	if !ok {
		return v
	}
	if t.js() || t.lang == "python" {
		return n
	}
	return wrapT(n, t.basicT(f.ty))
}

func (t *TL) convDecl(v any, ty string) any {
	ty = cleanType(ty)
	if ty == "" || ty == "auto" || ty == "var" || ty == "let" || t.js() || t.lang == "python" {
		if n, ok := v.(*tn); ok && t.lang == "go" && n.ty.k == 'U' {
			return wrapT(n, tI64)
		}
		return v
	}
	if it, ok := t.intType(ty); ok {
		switch x := v.(type) {
		case *tn:
			if it.k == 'B' {
				if x.ty.k == 'B' {
					return x
				}
				return boolN(t.nz(t.resN(x)))
			}
			return wrapT(x, it)
		case *tenum:
			return wrapT(x.n, it)
		}
	}
	return v
}

func (t *TL) mux(c tbit, a, b any) any {
	c = t.res(c)
	switch c {
	case bit1:
		return a
	case bit0:
		return b
	}
	switch x := a.(type) {
	case *tn:
		y, ok := b.(*tn)
		if !ok {
			break
		}
		x, y = x.withBits(), y.withBits()
		if x.bits == nil || y.bits == nil {
			break
		}
		n := maxlen(x, y)
		bs := make([]tbit, n)
		for i := range bs {
			bs[i] = bmux(c, t.res(x.bit(i)), t.res(y.bit(i)))
		}
		ty := x.ty
		if y.ty.w > ty.w {
			ty = y.ty
		}
		return fromBits(ty, bs, bmux(c, t.res(x.sx), t.res(y.sx)))
	case *tenum:
		if y, ok := b.(*tenum); ok {
			return &tenum{t.mux(c, x.n, y.n).(*tn)}
		}
	}
	return nil
}

// num gives the integer a value stands for in an arithmetic context.
func (t *TL) num(v any) *tn {
	switch x := v.(type) {
	case *tn:
		return x
	case *tenum:
		return x.n
	case *tdiv:
		t.fail("fractional number used as an integer")
	case tundef:
		t.fail("undefined value used as a number")
	}
	t.fail("%s used as a number", t.desc(v))
	return nil
}

// ---- literals

func (t *TL) literal(s string) any {
	if strings.HasPrefix(s, "⟦") {
		in := s[len("⟦"):strings.Index(s, "⟧")]
		suf := s[strings.Index(s, "⟧")+len("⟧"):]
		p := strings.Split(in, ",")
		a, _ := strconv.ParseInt(p[0], 10, 64)
		c, _ := strconv.ParseInt(p[1], 10, 64)
		l := linS("q").scale(a).add(linC(c), 1)
		ty := t.natInt()
		switch {
		case t.lang == "c" || t.lang == "cpp":
			ty = tI32
		case t.lang == "go":
			ty = tUnt
		case strings.Contains(suf, "L"):
			ty = tI64
		}
		return &tn{ty: ty, lin: l}
	}
	raw := strings.ReplaceAll(s, "_", "")
	low := strings.ToLower(raw)
	hex := strings.HasPrefix(low, "0x")
	big := false
	suf := ""
	for len(low) > 1 {
		c := low[len(low)-1]
		if c == 'u' || c == 'l' || c == 'n' && t.js() {
			if c == 'n' {
				big = true
			} else {
				suf = string(c) + suf
			}
			low = low[:len(low)-1]
			continue
		}
		break
	}
	if !hex && !strings.HasPrefix(low, "0b") && (strings.ContainsAny(low, ".e") || strings.HasSuffix(low, "f") || strings.HasSuffix(low, "d")) {
		w := 64
		switch {
		case strings.HasSuffix(low, "f"):
			low = low[:len(low)-1]
			if !t.js() && t.lang != "python" && t.lang != "go" {
				w = 32
			}
		case strings.HasSuffix(low, "d"):
			low = low[:len(low)-1]
		}
		v, err := strconv.ParseFloat(low, 64)
		if err != nil {
			return topq{"float literal " + s}
		}
		return fltConst(v, w)
	}
	u, err := strconv.ParseUint(low, 0, 64)
	if err != nil {
		t.fail("literal %s", s)
	}
	mk := func(ty tty) *tn {
		if u >= 1<<63 && ty.k != 'i' {
			bs := make([]tbit, 64)
			for i := range bs {
				bs[i] = tbit(u >> i & 1)
			}
			return fromBits(ty, bs, bit0)
		}
		return numC(ty, int64(u))
	}
	dec := !hex && !strings.HasPrefix(low, "0b")
	un, lg := strings.Contains(suf, "u"), strings.Contains(suf, "l")
	switch t.lang {
	case "c", "cpp":
		switch {
		case !un && !lg && u < 1<<31:
			return mk(tI32)
		case !lg && u < 1<<32 && (un || !dec):
			return mk(tU32)
		case !un && u < 1<<63:
			return mk(tI64)
		}
		return mk(tU64)
	case "csharp":
		switch {
		case !un && !lg && u < 1<<31:
			return mk(tI32)
		case !lg && u < 1<<32:
			return mk(tU32)
		case !un && u < 1<<63:
			return mk(tI64)
		}
		return mk(tU64)
	case "java":
		if lg {
			return mk(tI64)
		}
		return mk(tI32)
	case "kotlin":
		switch {
		case un && lg:
			return mk(tU64)
		case un && u < 1<<32:
			return mk(tU32)
		case un:
			return mk(tU64)
		case lg || u >= 1<<31:
			return mk(tI64)
		}
		return mk(tI32)
	case "go":
		return mk(tUnt)
	case "python":
		return mk(tBig)
	}
	if big {
		return mk(tBig)
	}
	return mk(tNum)
}

// ---- expressions

func (t *TL) rval(n *tnd) any { return t.load(t.ev(n)) }

func (t *TL) ev(n *tnd) any {
	t.steps++
	if t.steps > 3000000 {
		t.fail("step limit")
	}
	if n.line > 0 {
		t.line = n.line
	}
	switch n.op {
	case "num":
		return t.literal(n.s)
	case "char":
		if n.s == "\\0" {
			return numC(tI32, 0)
		}
		if len(n.s) == 1 {
			return numC(tI32, int64(n.s[0]))
		}
		t.fail("character literal %s", n.s)
	case "str":
		return &tstr{n.s}
	case "paren":
		return t.ev(n.k[0])
	case "comma":
		var v any
		for _, k := range n.k {
			v = t.rval(k)
		}
		return v
	case "tuple":
		r := &ttup{}
		for _, k := range n.k {
			r.v = append(r.v, t.rval(k))
		}
		return r
	case "id":
		return t.ident(n.s)
	case "kw":
		return t.ev(n.k[0])
	case "member":
		return t.member(n)
	case "index":
		return t.indexE(n)
	case "slice":
		return t.sliceE(n)
	case "un":
		return t.unary(n)
	case "pre", "post":
		lv := t.ev(n.k[0])
		old := t.load(lv)
		op := "+"
		if n.s == "--" {
			op = "-"
		}
		one := any(numC(tI32, 1))
		if o, ok := old.(*tn); ok && o.ty.k != 'i' {
			one = numC(o.ty, 1)
		} else if ok {
			one = numC(o.ty, 1)
		}
		t.store(lv, t.convLike(old, t.bin(op, old, one)))
		if n.op == "post" {
			return old
		}
		return t.load(lv)
	case "bin":
		return t.binE(n)
	case "cond":
		return t.condE(n)
	case "asg":
		return t.assign(n)
	case "cast":
		return t.castTo(n.s, t.ev(n.k[0]))
	case "call":
		return t.callE(n)
	case "new":
		return t.newE(n)
	case "list":
		r := &ttup{}
		for _, k := range n.k {
			r.v = append(r.v, t.rval(k))
		}
		return r
	case "lambda":
		return topq{"function"}
	case "obj":
		return topq{"object"}
	case "type":
		return ttyp{n.s}
	case "istype":
		v := t.rval(n.k[0])
		if _, ok := v.(tnil); ok {
			return boolN(bit0)
		}
		return boolN(bit1)
	}
	t.fail("expression %s", n.op)
	return nil
}

func (t *TL) ident(s string) any {
	if v := t.lookup(s); v != nil {
		return v
	}
	switch s {
	case "this", "self":
		return tself{}
	case "true", "True":
		return boolN(bit1)
	case "false", "False":
		return boolN(bit0)
	case "NULL", "nullptr", "null", "nil", "None":
		return tnil{}
	case "undefined":
		return tundef{}
	case "$package", "namespace", "root":
		return ttyp{"$"}
	case "view":
		return ttyp{"view"}
	}
	if (t.lang == "c" || t.lang == "cpp") && tlMax[s] != nil {
		return tlMax[s]
	}
	if t.types[s] != nil {
		return ttyp{s}
	}
	if k := strings.LastIndexByte(s, '.'); k >= 0 && t.types[s[k+1:]] != nil {
		return ttyp{s[k+1:]}
	}
	return ttyp{s}
}

// tlMax: the targets' names for the largest numbers.
var tlMax = map[string]*tn{
	"Integer": numC(tI32, 1<<31-1), "Int": numC(tI32, 1<<31-1), "int": numC(tI32, 1<<31-1), "Int32": numC(tI32, 1<<31-1),
	"Long": numC(tI64, 1<<63-1), "long": numC(tI64, 1<<63-1), "Int64": numC(tI64, 1<<63-1),
	"INT32_MAX": numC(tI32, 1<<31-1), "INT_MAX": numC(tI32, 1<<31-1), "INT64_MAX": numC(tI64, 1<<63-1), "UINT32_MAX": numC(tU32, 1<<32-1),
	"UINT64_MAX": fromBits(tU64, ones(64), bit0), "SIZE_MAX": fromBits(tU64, ones(64), bit0),
	"ULong": fromBits(tU64, ones(64), bit0), "ulong": fromBits(tU64, ones(64), bit0), "UInt64": fromBits(tU64, ones(64), bit0), "UInt": numC(tU32, 1<<32-1), "uint": numC(tU32, 1<<32-1),
}

func ones(n int) []tbit {
	b := make([]tbit, n)
	for i := range b {
		b[i] = bit1
	}
	return b
}

func strip(n *tnd) *tnd {
	for n.op == "paren" && len(n.k) == 1 {
		n = n.k[0]
	}
	return n
}

func (t *TL) field(s *scStruct, prefix, name string) *tfld {
	want := tlNorm(name)
	for _, f := range s.fields {
		if f.name != "" && tlNorm(f.name) == want {
			return &tfld{path: prefix + f.name, ty: f.ty, f: f}
		}
	}
	return nil
}

func (t *TL) member(n *tnd) any {
	recv := t.ev(n.k[0])
	name := n.s
	switch r := recv.(type) {
	case tself:
		if f := t.field(t.st, "", name); f != nil {
			return f
		}
		return &tmeth{r, name}
	case *tfld:
		if r.ty.kind == "struct" {
			return &tmeth{r, name}
		}
		if r.ty.kind == "bytes" && (name == "length" || name == "data") && (t.lang == "c" || t.lang == "cpp") {
			return &tslot{r, name}
		}
	case ttyp:
		if r.name == "$" || t.types[r.name] == nil && t.types[name] != nil {
			return ttyp{name}
		}
		if (name == "MAX_VALUE" || name == "MaxValue") && tlMax[r.name] != nil {
			return tlMax[r.name]
		}
		if r.name == "Encoding" && name == "UTF8" {
			return ttyp{name}
		}
		return &tmeth{r, name}
	}
	v := t.load(recv)
	switch r := v.(type) {
	case *tcell:
		v = r.v
	case *ttup:
	case tself:
		if f := t.field(t.st, "", name); f != nil {
			return f
		}
	case *tfld:
		return &tmeth{r, name}
	case *tptr:
		switch name {
		case "length", "Length", "size":
			if t.lang == "java" || t.lang == "csharp" || t.js() || t.lang == "kotlin" {
				return t.limOf(r)
			}
		case "Span":
			return r
		}
	case *tbytes:
		switch name {
		case "length", "Length", "size", "Count":
			if t.lang != "cpp" {
				return t.lenOf(r.path)
			}
		case "Span":
			return r
		}
	case *ttext:
		if b, ok := r.of.(*tbytes); ok && (name == "length" || name == "Length" || name == "size") {
			return t.lenOf(b.path)
		}
	case *tsl:
		if name == "length" || name == "Length" || name == "size" {
			return &tn{ty: t.natInt(), lin: r.n}
		}
	case *tnew:
		if name == "length" || name == "Length" || name == "size" {
			return &tn{ty: t.natInt(), lin: r.n}
		}
	case *tenum:
		switch name {
		case "value", "number":
			if t.lang == "kotlin" {
				return wrapT(r.n, tI64)
			}
			return r.n
		}
	}
	return &tmeth{v, name}
}

func (t *TL) limOf(p *tptr) *tn {
	if p.lim == nil {
		t.fail("length of the buffer is not known")
	}
	return &tn{ty: t.natInt(), lin: p.lim}
}

func (t *TL) indexE(n *tnd) any {
	base := t.load(t.ev(n.k[0]))
	if ty, ok := base.(ttyp); ok {
		if e := t.types[ty.name]; e != nil && e.kind == "enum" {
			i := t.rval(n.k[1])
			switch x := i.(type) {
			case *tenum:
				return x
			case *tn:
				return &tenum{x}
			}
			t.fail("%s indexed by %s", ty.name, t.desc(i))
		}
	}
	if f, ok := base.(*tfld); ok && f.ty.kind == "array" {
		if t.shape == nil {
			t.shape = map[string]int{}
		}
		if namesIn(n.k[1]) {
			t.shape[f.path] |= 2 // by a variable
		} else {
			t.shape[f.path] |= 1 // by a number written out
		}
	}
	return t.index(base, t.rval(n.k[1]))
}

// namesIn: the expression names a variable.
func namesIn(n *tnd) bool {
	if n == nil {
		return false
	}
	if n.op == "id" {
		return true
	}
	for _, k := range n.k {
		if namesIn(k) {
			return true
		}
	}
	return false
}

func (t *TL) index(base, iv any) any {
	switch b := base.(type) {
	case *tfld:
		if b.ty.kind != "array" {
			break
		}
		i, ok := t.num(iv).konst()
		if !ok {
			t.fail("array %s indexed by a number that is not known", b.path)
		}
		if i < 0 || i >= int64(b.ty.n) {
			t.note("index %d is outside the array %s of %d elements", i, b.path, b.ty.n)
		}
		return &tfld{path: fmt.Sprintf("%s[%d]", b.path, i), ty: b.ty.elem, f: b.f}
	case *tptr:
		i := t.num(iv)
		l := t.lin(i)
		if l == nil {
			t.fail("buffer index is not known: %s", t.desc(i))
		}
		return &tbyte{b.off.add(l, 1)}
	case *tbytes:
		i := t.num(iv)
		if l := t.lin(i); l != nil {
			return &telem{b.path, l}
		}
	case *tnew:
		i := t.num(iv)
		if l := t.lin(i); l != nil {
			return &tnelem{b, l}
		}
	case *ttup:
		if i, ok := t.num(iv).konst(); ok && i >= 0 && int(i) < len(b.v) {
			return b.v[i]
		}
	}
	t.fail("index into %s", t.desc(base))
	return nil
}

type tnelem struct {
	of *tnew
	i  *tlin
}

func (t *TL) sliceE(n *tnd) any {
	base := t.load(t.ev(n.k[0]))
	var lo *tlin = linC(0)
	if n.k[1] != nil {
		lo = t.lin(t.num(t.rval(n.k[1])))
	}
	var hi *tlin
	if n.k[2] != nil {
		hi = t.lin(t.num(t.rval(n.k[2])))
		if hi == nil {
			t.fail("slice bound is not known")
		}
	}
	if lo == nil {
		t.fail("slice bound is not known")
	}
	switch b := base.(type) {
	case *tptr:
		if hi == nil {
			var lim *tlin
			if b.lim != nil {
				lim = b.lim.add(lo, -1)
			}
			return &tptr{b.off.add(lo, 1), lim}
		}
		return &tsl{off: b.off.add(lo, 1), n: hi.add(lo, -1)}
	case *tbytes, *ttext, *tsl, *tnew:
		if n.k[1] == nil && n.k[2] == nil {
			return b
		}
	}
	t.fail("slice of %s", t.desc(base))
	return nil
}

func (t *TL) unary(n *tnd) any {
	if n.s == "&" {
		return &taddr{t.ev(n.k[0])}
	}
	if n.s == "*" {
		v := t.load(t.ev(n.k[0]))
		switch p := v.(type) {
		case *tcast:
			ty := strings.TrimSuffix(strings.TrimPrefix(strings.TrimSpace(p.ty), "*"), "*")
			a, ok := p.of.(*taddr)
			if !ok {
				t.fail("dereference of %s", t.desc(p.of))
			}
			if it, ok := t.intType(ty); ok {
				return &tview{a.of, it}
			}
			if strings.Contains(ty, "[]byte") || cleanType(ty) == "[]byte" {
				return a.of
			}
			t.fail("dereference as %s", ty)
		case *taddr:
			return p.of
		case *tptr:
			return &tbyte{p.off}
		case tself:
			return p
		}
		t.fail("dereference of %s", t.desc(v))
	}
	if n.s == "typeof" {
		v := t.rval(n.k[0])
		switch v.(type) {
		case *tenum:
			return topq{"typeof enum"}
		case *tn:
			return &tstr{"number"}
		case tundef:
			return &tstr{"undefined"}
		}
		return &tstr{"object"}
	}
	v := t.rval(n.k[0])
	switch n.s {
	case "!":
		return boolN(bnot(t.truth(v)))
	case "+":
		return v
	case "-":
		if f, ok := v.(*tflt); ok {
			// the sign bit, the other bits unchanged
			bs := append([]tbit(nil), f.bits...)
			bs[len(bs)-1] = bnot(bs[len(bs)-1])
			return &tflt{bs}
		}
		x := t.num(v)
		if x.neg != nil {
			return x.neg
		}
		p := t.promote(x)
		return wrapT(mSub(numC(tBig, 0), x), p)
	case "~":
		x := t.num(v)
		p := t.promote(x)
		if t.js() && x.ty.k != 'G' {
			r := *wrapT(notBits(wrapT(x, tI32)), tNum)
			r.not = wrapT(wrapT(x, tI32), tNum)
			return &r
		}
		r := *wrapT(notBits(x), p)
		r.not = wrapT(x, p)
		return &r
	}
	t.fail("operator %s", n.s)
	return nil
}

// promote: the type an operand has after integer promotion.
func (t *TL) promote(a *tn) tty {
	switch t.lang {
	case "c", "cpp", "csharp", "java":
		if a.ty.k != 'i' || a.ty.w < 32 {
			return tI32
		}
		return a.ty
	case "kotlin":
		return a.ty
	case "python":
		return tBig
	case "commonjs", "esm":
		if a.ty.k == 'G' {
			return tBig
		}
		return tNum
	}
	return a.ty
}

func (t *TL) common(a, b *tn) tty {
	x, y := t.promote(a), t.promote(b)
	switch t.lang {
	case "c", "cpp", "csharp":
		if x == y {
			return x
		}
		if x.w < y.w {
			x, y = y, x
		}
		if x.w > y.w {
			return x
		}
		if t.lang == "csharp" && x.w == 32 {
			return tI64
		}
		if !x.sg {
			return x
		}
		return y
	case "java":
		if x.w == 64 || y.w == 64 {
			return tI64
		}
		return tI32
	case "kotlin":
		if x.sg != y.sg && x.k == 'i' && y.k == 'i' {
			t.note("signed and unsigned operands are mixed (line %d)", t.line)
		}
		if x.w < 32 && y.w < 32 {
			if x.sg {
				return tI32
			}
			return tU32
		}
		if x.w >= y.w {
			return x
		}
		return y
	case "go":
		if x.k == 'U' {
			return y
		}
		if y.k == 'U' || x == y {
			return x
		}
		if x != y {
			t.note("operands of different types %s and %s (line %d)", x, y, t.line)
		}
		if x.w >= y.w {
			return x
		}
		return y
	case "python":
		return tBig
	}
	if x.k != y.k {
		t.note("BigInt and number are mixed (line %d)", t.line)
	}
	return x
}

func (t *TL) convLike(old any, v any) any {
	if o, ok := old.(*tn); ok {
		if n, ok := v.(*tn); ok {
			if o.ty.k == 'i' {
				return wrapT(n, o.ty)
			}
		}
	}
	return v
}

func (t *TL) binE(n *tnd) any {
	op := n.s
	switch op {
	case "&&", "and":
		if op == "and" && t.lang == "kotlin" {
			break
		}
		l := t.rval(n.k[0])
		if !t.branch(t.truth(l)) {
			return boolN(bit0)
		}
		return boolN(t.truth(t.rval(n.k[1])))
	case "||", "or":
		if op == "or" && t.lang == "kotlin" {
			break
		}
		l := t.rval(n.k[0])
		if t.branch(t.truth(l)) {
			return boolN(bit1)
		}
		return boolN(t.truth(t.rval(n.k[1])))
	}
	a := t.rval(n.k[0])
	b := t.rval(n.k[1])
	return t.bin(op, a, b)
}

func isNil(v any) bool {
	switch v.(type) {
	case tnil, tundef:
		return true
	}
	return false
}

func (t *TL) bin(op string, a, b any) any {
	switch op {
	case "is", "===", "==":
		if isNil(a) || isNil(b) {
			return boolN(tbit(b2i(isNil(a) == isNil(b))))
		}
	case "is not", "!==", "!=":
		if isNil(a) || isNil(b) {
			return boolN(tbit(b2i(isNil(a) != isNil(b))))
		}
	}
	if q, ok := a.(topq); ok && (op == "===" || op == "==") && q.d == "typeof enum" {
		return q
	}
	if x, ok := a.(*tstr); ok {
		if y, ok := b.(*tstr); ok {
			switch op {
			case "==", "===":
				return boolN(tbit(b2i(x.s == y.s)))
			case "!=", "!==":
				return boolN(tbit(b2i(x.s != y.s)))
			}
		}
	}
	if p, ok := a.(*tptr); ok {
		if q, ok := b.(*tptr); ok {
			if op == "-" {
				return &tn{ty: tI64, lin: p.off.add(q.off, -1)}
			}
			t.fail("comparison of pointers")
		}
		l := t.lin(t.num(b))
		if l == nil {
			t.fail("pointer moved by an unknown distance")
		}
		k := int64(1)
		if op == "-" {
			k = -1
		} else if op != "+" {
			t.fail("operator %s on a pointer", op)
		}
		var lim *tlin
		if p.lim != nil {
			lim = p.lim.add(l, -k)
		}
		return &tptr{p.off.add(l, k), lim}
	}
	if q, ok := b.(*tptr); ok && op == "+" {
		return t.bin(op, q, a)
	}
	if d, ok := a.(*tdiv); ok && op == "|" {
		if k, ok := t.num(b).konst(); ok && k == 0 {
			q, _, ok := mDiv(d.a, d.k, true)
			if !ok {
				t.fail("division of %s", t.desc(d.a))
			}
			return wrapT(q, tNum)
		}
	}
	x, y := t.resN(t.num(a)), t.resN(t.num(b))
	switch op {
	case "<<", ">>", ">>>", "shl", "shr", "ushr":
		return t.shift(op, x, y)
	case "==", "!=", "===", "!==":
		c := t.equal(x, y)
		if op[0] == '!' {
			c = bnot(c)
		}
		return boolN(c)
	case "<", ">", "<=", ">=":
		return boolN(t.less(op, x, y))
	}
	ty := t.common(x, y)
	if op == "+" && x.not != nil && ty == x.ty {
		// two's complement negation
		if k, ok := y.konst(); ok && k == 1 {
			r := *topN(ty)
			r.neg = x.not
			return &r
		}
	}
	if t.lang != "python" && !t.js() {
		x, y = wrapT(x, ty), wrapT(y, ty)
	}
	isBit := false
	switch op {
	case "&", "|", "^", "and", "or", "xor", "&^":
		isBit = true
	}
	if isBit && t.js() && ty.k == 'N' {
		x, y = wrapT(x, tI32), wrapT(y, tI32)
	}
	if x.ty.k == 'B' && y.ty.k == 'B' && isBit {
		ty = tBool
	}
	var r *tn
	switch op {
	case "+":
		r = mAdd(x, y)
		if r.lin == nil && r.bits != nil && !r.exact() {
			// carries between unknown bits: keep the sum by name
			if a, b := t.lin(x), t.lin(y); a != nil && b != nil {
				r = &tn{ty: tBig, lin: a.add(b, 1)}
			}
		}
		t.overflow(r.lin, ty)
	case "-":
		r = mSub(x, y)
	case "*":
		r = mMul(x, y)
	case "/", "//", "%":
		k, ok := y.konst()
		if !ok {
			t.fail("division by an unknown number")
		}
		if t.js() && op == "/" && ty.k == 'N' {
			if q, m, ok := mDiv(x, k, true); ok {
				if c, ok := m.konst(); ok && c == 0 {
					return wrapT(q, tNum)
				}
			}
			return &tdiv{x, k}
		}
		if t.lang == "python" && op == "/" {
			t.fail("fractional division")
		}
		q, m, ok := mDiv(x, k, t.lang != "python")
		if !ok {
			t.fail("division of %s by %d", t.desc(x), k)
		}
		r = q
		if op == "%" {
			r = m
		}
	case "&", "and":
		r = mAnd(x, y)
	case "&^":
		r = bitwise(x, notBits(y), band)
	case "|", "or":
		if k, ok := y.konst(); ok && k == 0 {
			r = x
		} else if k, ok := x.konst(); ok && k == 0 {
			r = y
		} else {
			r = bitwise(x, y, bor)
		}
	case "^", "xor":
		r = bitwise(x, y, bxor)
	default:
		t.fail("operator %s", op)
	}
	if isBit && t.js() && ty.k == 'N' {
		return wrapT(wrapT(r, tI32), tNum)
	}
	return wrapT(r, ty)
}

func (t *TL) shift(op string, x, y *tn) any {
	k, ok := y.konst()
	if !ok {
		t.fail("shift by an unknown distance: %s", t.desc(y))
	}
	ty := t.promote(x)
	left := op == "<<" || op == "shl"
	logical := op == ">>>" || op == "ushr"
	w := ty.w
	switch t.lang {
	case "java", "csharp", "kotlin":
		if w < 32 {
			w = 32
		}
		if k < 0 || k >= int64(w) {
			t.note("shift distance %d is taken modulo %d (line %d)", k, w, t.line)
		}
		k &= int64(w - 1)
	case "commonjs", "esm":
		if ty.k == 'N' {
			if k < 0 || k >= 32 {
				t.note("shift distance %d is taken modulo 32 (line %d)", k, t.line)
			}
			k &= 31
			x = wrapT(x, tI32)
			switch {
			case left:
				return wrapT(wrapT(shlBits(x, int(k)), tI32), tNum)
			case logical:
				return wrapT(shrBits(wrapT(x, tU32), int(k)), tNum)
			}
			return wrapT(shrBits(x, int(k)), tNum)
		}
	case "c", "cpp":
		if k < 0 || k >= int64(w) {
			t.note("shift by %d in a type of %d bits is undefined (line %d)", k, w, t.line)
			return topN(ty)
		}
	case "go":
		if k < 0 {
			t.fail("negative shift")
		}
		if w > 0 && k > 64 {
			k = 64
		}
	}
	if k < 0 || k > 4096 {
		t.fail("shift distance %d", k)
	}
	if t.lang != "python" && !t.js() && ty.k == 'i' {
		x = wrapT(x, ty)
	}
	switch {
	case left:
		return wrapT(shlBits(x, int(k)), ty)
	case logical:
		u := ty
		u.sg = false
		return wrapT(shrBits(wrapT(x, u), int(k)), ty)
	}
	return wrapT(shrBits(x, int(k)), ty)
}

func (t *TL) equal(x, y *tn) tbit {
	if t.lang != "python" && !t.js() {
		ty := t.common(x, y)
		if x.ty.k == 'B' || y.ty.k == 'B' {
			ty = tty{8, false, 'i'}
		}
		x, y = wrapT(x, ty), wrapT(y, ty)
	} else if t.js() && x.ty.k != y.ty.k && x.ty.k != 'B' && y.ty.k != 'B' {
		t.note("BigInt and number are compared (line %d)", t.line)
	}
	if a, ok := x.konst(); ok {
		if b, ok := y.konst(); ok {
			return tbit(b2i(a == b))
		}
	}
	if x.lin != nil && y.lin != nil && (x.bits == nil || y.bits == nil) {
		d := x.lin.add(y.lin, -1)
		if !t.branch(t.predLin(d)) {
			return bit0
		}
		return tbit(b2i(t.branch(t.predLin(d.scale(-1)))))
	}
	x, y = x.withBits(), y.withBits()
	if x.bits == nil || y.bits == nil {
		return bitTop
	}
	n := maxlen(x, y)
	var ds []tbit
	for i := 0; i <= n; i++ {
		d := bxor(t.res(x.bit(i)), t.res(y.bit(i)))
		if d == bit1 {
			return bit0
		}
		ds = append(ds, d)
	}
	return bnot(t.predBits(ds))
}

// less decides an order comparison.
func (t *TL) less(op string, x, y *tn) tbit {
	if t.lang == "c" || t.lang == "cpp" {
		ty := t.common(x, y)
		if !ty.sg {
			x, y = wrapT(x, ty), wrapT(y, ty)
		}
	}
	if c, ok := y.konst(); ok && c == 1<<63-1 && op == ">" && x.bits != nil && !(x.ty.k == 'i' && x.ty.sg) {
		// bit 63 and up
		var hi []tbit
		for i := 63; i < len(x.bits); i++ {
			hi = append(hi, x.bits[i])
		}
		return t.predBits(hi)
	}
	// against a constant, on known bits
	if c, ok := x.konst(); ok && c >= 0 {
		if _, ok := y.konst(); !ok {
			sw := map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
			return t.less(sw, y, x)
		}
	}
	if c, ok := y.konst(); ok && c >= 0 {
		if _, ok := x.konst(); !ok && x.bits != nil && c < 1<<62 {
			k := c // x >= k
			neg := false
			switch op {
			case ">":
				k = c + 1
			case "<":
				neg = true
			case "<=":
				k, neg = c+1, true
			}
			var r tbit
			done := false
			sx := t.res(x.sx)
			switch {
			case k == 0:
				r, done = bnot(sx), true
			case k&(k-1) == 0 && sx != bitTop:
				s := 0
				for k>>s != 1 {
					s++
				}
				var hi []tbit
				for i := s; i < len(x.bits); i++ {
					hi = append(hi, x.bits[i])
				}
				p := t.predBits(hi)
				if sx != bit0 {
					// negative numbers are smaller
					if t.branch(sx) {
						p = bit0
					}
				}
				r, done = p, true
			}
			if done {
				if neg {
					r = bnot(r)
				}
				return r
			}
		}
	}
	a, b := t.lin(x), t.lin(y)
	if a == nil || b == nil {
		t.fail("comparison %s %s %s", t.desc(x), op, t.desc(y))
	}
	switch op {
	case "<":
		return t.predLin(b.add(a, -1).add(linC(1), -1))
	case "<=":
		return t.predLin(b.add(a, -1))
	case ">":
		return t.predLin(a.add(b, -1).add(linC(1), -1))
	}
	return t.predLin(a.add(b, -1))
}

func (t *TL) condE(n *tnd) any {
	cv := t.rval(n.k[0])
	if q, ok := cv.(topq); ok && q.d == "typeof enum" {
		a, b := t.rval(n.k[1]), t.rval(n.k[2])
		if t.desc(a) != t.desc(b) {
			t.note("the two ways of giving an enumeration value differ: %s, %s", t.desc(a), t.desc(b))
		}
		return a
	}
	c := t.res(t.truth(cv))
	switch c {
	case bit1:
		return t.rval(n.k[1])
	case bit0:
		return t.rval(n.k[2])
	}
	if pureE(n.k[1]) && pureE(n.k[2]) {
		a, b := t.rval(n.k[1]), t.rval(n.k[2])
		if _, ok := a.(*tn); ok {
			if m := t.mux(c, a, b); m != nil {
				return m
			}
		}
	}
	if t.branch(c) {
		return t.rval(n.k[1])
	}
	return t.rval(n.k[2])
}

func pureE(n *tnd) bool {
	ok := true
	n.walk(func(x *tnd) {
		switch x.op {
		case "asg", "pre", "post", "new":
			ok = false
		}
	})
	return ok
}

func (t *TL) assign(n *tnd) any {
	op := n.s
	l := strip(n.k[0])
	if t.lang == "python" && op == "=" && l.op == "id" && t.lookup(l.s) == nil {
		v := t.rval(n.k[1])
		t.scopes[0][l.s] = &tcell{v, ""}
		return v
	}
	if l.op == "slice" {
		// Python: data[a:b] = x
		p, ok := t.load(t.ev(l.k[0])).(*tptr)
		if !ok || l.k[1] == nil || l.k[2] == nil {
			t.fail("slice assignment")
		}
		lo, hi := t.lin(t.num(t.rval(l.k[1]))), t.lin(t.num(t.rval(l.k[2])))
		src := t.rval(n.k[1])
		if lo == nil || hi == nil {
			t.fail("slice bounds are not known")
		}
		t.copyIn(src, p.off.add(lo, 1), hi.add(lo, -1))
		return tnil{}
	}
	lv := t.ev(l)
	if e, ok := lv.(*tnelem); ok {
		r := t.ev(n.k[1])
		if k, ok := r.(*tn); ok && op == "=" {
			// the zero that ends a C text
			if c, ok := k.konst(); ok && c == 0 && e.i.add(linC(1), 1).String() == e.of.n.String() {
				e.of.term = true
				return tnil{}
			}
		}
		b, ok := r.(*tbyte)
		if !ok || op != "=" || t.loopN == nil || e.i.String() != t.loopV {
			t.fail("element store")
		}
		e.of.fill = &tsl{off: b.at.add(e.i, -1), n: t.loopN, copied: true}
		return tnil{}
	}
	var v any
	if op == "=" || op == ":=" {
		v = t.rval(n.k[1])
	} else {
		b := strings.TrimSuffix(op, "=")
		old := t.load(lv)
		r := t.rval(n.k[1])
		v = t.bin(b, old, r)
		if t.lang == "java" || t.lang == "csharp" || t.lang == "c" || t.lang == "cpp" || t.lang == "go" {
			v = t.convLike(old, v)
		}
	}
	t.store(lv, v)
	return v
}

func (t *TL) castTo(ty string, v any) any {
	ty = cleanType(ty)
	if strings.HasSuffix(ty, "*") {
		x := t.load(v)
		switch p := x.(type) {
		case *taddr:
			return &tcast{p, ty}
		case *tcast:
			return &tcast{p.of, ty}
		}
		return x
	}
	v = t.load(v)
	if it, ok := t.intType(ty); ok {
		if it.k == 'B' {
			return boolN(t.truth(v))
		}
		if d, ok := v.(*tdiv); ok {
			_ = d
		}
		if x, ok := v.(*tptr); ok {
			return x
		}
		n := t.num(v)
		if n.ty.k == 'B' {
			return wrapT(fromBits(tBig, []tbit{n.bit(0)}, bit0), it)
		}
		return wrapT(n, it)
	}
	if floatW(ty) > 0 {
		if f, ok := v.(*tflt); ok {
			if len(f.bits) != floatW(ty) {
				if v, ok := f.konst(); ok {
					return fltConst(v, floatW(ty))
				}
				t.note("floating point value of %d bits converted to %d (line %d)", len(f.bits), floatW(ty), t.line)
			}
			return v
		}
		return topq{"float of " + t.desc(v)}
	}
	leaf := ty[strings.LastIndexByte(ty, '.')+1:]
	if e := t.types[leaf]; e != nil && e.kind == "enum" {
		return &tenum{t.num(v)}
	}
	return v
}

// fltConst is a floating point constant of w bits.
func fltConst(v float64, w int) *tflt {
	u := math.Float64bits(v)
	if w == 32 {
		u = uint64(math.Float32bits(float32(v)))
	}
	f := &tflt{make([]tbit, w)}
	for i := range f.bits {
		f.bits[i] = tbit(u >> i & 1)
	}
	return f
}

func (f *tflt) konst() (float64, bool) {
	u := uint64(0)
	for i, b := range f.bits {
		switch b {
		case bit0:
		case bit1:
			u |= 1 << i
		default:
			return 0, false
		}
	}
	if len(f.bits) == 32 {
		return float64(math.Float32frombits(uint32(u))), true
	}
	return math.Float64frombits(u), true
}
