package main

import (
	"fmt"
	"strings"
)

// Calls of emitted code: conversions, library functions, helpers of the same
// file (evaluated) and codec functions of nested structures (kept as events).

func (t *TL) copyIn(src any, at, n *tlin) {
	path := ""
	var want *tlin
	switch s := src.(type) {
	case *tbytes:
		path, want = s.path, t.lenOf(s.path).lin
	case *ttext:
		if b, ok := s.of.(*tbytes); ok {
			path, want = b.path, t.lenOf(b.path).lin
		}
	}
	if path == "" {
		t.fail("copy of %s into the buffer", t.desc(src))
	}
	if n == nil {
		n = want
	}
	t.events = append(t.events, tevent{kind: "copy", path: path, at: at, n: n})
}

func (t *TL) nulAt(off *tlin) *tlin { return linS("nul(" + off.String() + ")") }

func (t *TL) linOf(v any) *tlin {
	l := t.lin(t.num(v))
	if l == nil {
		t.fail("a length or position is not known: %s", t.desc(v))
	}
	return l
}

// codecRole maps the name of an emitted codec function to its role.
func codecRole(name string) string {
	switch tlNorm(name) {
	case "encode", "encodeto":
		return "encode"
	case "decode":
		return "decode"
	case "decodesize":
		return "decode_size"
	case "encodesize":
		return "encode_size"
	}
	return ""
}

func (t *TL) callE(n *tnd) any {
	f := strip(n.k[0])
	argN := n.k[1:]
	args := func() []any {
		var out []any
		for _, a := range argN {
			out = append(out, t.rval(a))
		}
		return out
	}
	switch f.op {
	case "type":
		return t.goConv(f.s, t.ev(argN[0]))
	case "id":
		if t.lookup(f.s) == nil {
			return t.callName(f.s, args, argN)
		}
	case "member":
		m := t.ev(f)
		switch x := m.(type) {
		case *tmeth:
			return t.callMethod(x, args, argN)
		case ttyp:
			return t.callName(x.name, args, argN)
		}
		t.fail("call of %s", t.desc(m))
	}
	t.fail("call of %s", f)
	return nil
}

func (t *TL) goConv(ty string, v any) any {
	if strings.HasPrefix(ty, "*") {
		return &tcast{t.load(v), ty}
	}
	v = t.load(v)
	if _, ok := t.intType(ty); ok {
		return t.castTo(ty, v)
	}
	switch ty {
	case "string":
		if s, ok := v.(*tsl); ok {
			return &tsl{off: s.off, n: s.n, copied: true, text: true}
		}
		return v
	case "[]byte":
		if b, ok := v.(*tbytes); ok {
			return &ttext{b}
		}
		return v
	}
	if floatW(ty) > 0 {
		return t.castTo(ty, v)
	}
	if e := t.types[ty]; e != nil && e.kind == "enum" {
		return &tenum{t.num(v)}
	}
	t.fail("conversion to %s", ty)
	return nil
}

func (t *TL) flt(v any, w int) any {
	n := t.resN(t.num(v))
	n = n.withBits()
	if n.bits == nil {
		t.fail("float of %s", t.desc(v))
	}
	bs := make([]tbit, w)
	for i := range bs {
		bs[i] = n.bit(i)
	}
	return &tflt{bs}
}

func (t *TL) fltBits(v any, w int, ty tty) any {
	f, ok := v.(*tflt)
	if !ok {
		t.fail("bits of %s", t.desc(v))
	}
	if len(f.bits) != w {
		t.note("a float of %d bits is taken apart as %d bits (line %d)", len(f.bits), w, t.line)
	}
	bs := make([]tbit, w)
	for i := range bs {
		if i < len(f.bits) {
			bs[i] = f.bits[i]
		} else {
			bs[i] = bitTop
		}
	}
	return wrapT(&tn{bits: bs, sx: bit0}, ty)
}

func (t *TL) callName(name string, argf func() []any, argN []*tnd) any {
	base := name
	if k := strings.LastIndexByte(base, '.'); k >= 0 {
		base = base[k+1:]
	}
	base = strings.TrimPrefix(base, "::")
	// conversions spelled like calls
	if t.lang == "go" || t.lang == "cpp" {
		if _, ok := t.intType(base); ok {
			return t.castTo(base, t.ev(argN[0]))
		}
		if floatW(base) > 0 && len(argN) == 1 {
			return t.castTo(base, t.ev(argN[0]))
		}
		if t.lang == "go" && base == "string" {
			return t.goConv(base, t.ev(argN[0]))
		}
	}
	if e := t.types[base]; e != nil && e.kind == "enum" && len(argN) == 1 {
		return &tenum{t.num(t.rval(argN[0]))}
	}
	if t.enumCls != "" && len(argN) == 1 && (base == "forNumber" || base == "valueOf") {
		return t.enumNumber(t.enumCls, base, t.rval(argN[0]))
	}
	// codec functions of C: Name_encode
	if t.lang == "c" {
		if k := strings.LastIndex(name, "_"); k > 0 {
			for tn, ty := range t.types {
				if ty.kind == "struct" && strings.HasPrefix(name, tn+"_") {
					if role := codecRole(name[len(tn)+1:]); role != "" {
						return t.codec(role, tn, argf())
					}
				}
			}
		}
	}
	if role := codecRole(base); role != "" && t.lang == "kotlin" && base == name {
		return t.codec(role, t.st.name, append([]any{tself{}}, argf()...))
	}
	if fn := t.find("", name, -1, ""); fn != nil && t.fieldFn(name) == "" {
		if v, ok := t.builtinHelper(name, argf); ok {
			return v
		}
		av := argf()
		return t.callFn(fn, av)
	}
	if v, ok := t.builtinHelper(name, argf); ok {
		return v
	}
	a := argf
	switch {
	case strings.HasPrefix(base, "shared_ptr<"):
		v := a()[0]
		return v
	case strings.HasPrefix(base, "span<"):
		v := a()
		if p, ok := v[0].(*tptr); ok && len(v) == 2 {
			return &tptr{p.off, t.linOf(v[1])}
		}
	}
	switch base {
	case "string", "std.string":
		v := a()
		if p, ok := v[0].(*tptr); ok && len(v) == 2 {
			return &tsl{off: p.off, n: t.linOf(v[1]), copied: true, text: true}
		}
	case "memcpy":
		v := a()
		return t.memcpy(v[0], v[1], v[2])
	case "strlen":
		v := a()[0]
		switch x := v.(type) {
		case *tbytes:
			return t.lenOf(x.path)
		case *tptr:
			return &tn{ty: tU64, lin: t.nulAt(x.off)}
		}
		t.fail("strlen of %s", t.desc(v))
	case "memchr":
		v := a()
		p, ok := v[0].(*tptr)
		if !ok {
			t.fail("memchr of %s", t.desc(v[0]))
		}
		nn := t.linOf(v[2])
		if !t.holds(nn) {
			t.note("memchr is given a length that may wrap: %s", nn)
		}
		if t.size != nil && !t.holds(t.size.add(p.off, -1).add(nn, -1)) {
			t.note("memchr may read past the input: %s bytes from %s", nn, p.off)
		}
		nul := t.nulAt(p.off)
		if t.choose("no zero byte at " + p.off.String()) {
			t.facts = append(t.facts, nul.add(nn, -1))
			return tnil{}
		}
		t.facts = append(t.facts, nn.add(nul, -1).add(linC(1), -1))
		return &tptr{p.off.add(nul, 1), nil}
	case "malloc":
		return &tnew{n: t.linOf(a()[0]), k: "malloc"}
	case "len":
		v := a()[0]
		switch x := v.(type) {
		case *tptr:
			return t.limOf(x)
		case *tbytes:
			r := t.lenOf(x.path)
			r.ty = t.natInt()
			return r
		case *ttext:
			if b, ok := x.of.(*tbytes); ok {
				return t.lenOf(b.path)
			}
		case *tsl:
			return &tn{ty: t.natInt(), lin: x.n}
		}
		t.fail("length of %s", t.desc(v))
	case "copy":
		v := a()
		p, ok := v[0].(*tptr)
		if !ok {
			if d, ok := v[0].(*tnew); ok {
				if s, ok := v[1].(*tsl); ok {
					d.fill = &tsl{off: s.off, n: s.n, copied: true}
					return &tn{ty: tI64, lin: s.n}
				}
			}
			t.fail("copy into %s", t.desc(v[0]))
		}
		src := v[1]
		if b, ok := src.(*tcast); ok {
			src = b.of
		}
		t.copyIn(src, p.off, nil)
		return tnil{}
	case "append":
		// append([]byte(nil), x...): a copy
		v := a()
		if len(v) == 2 {
			if s, ok := v[1].(*tsl); ok {
				return &tsl{off: s.off, n: s.n, copied: true}
			}
		}
		t.fail("append")
	case "make":
		if len(argN) == 2 {
			return &tnew{n: t.linOf(t.rval(argN[1])), k: "make"}
		}
	case "bool":
		return boolN(t.truth(a()[0]))
	case "int":
		v := a()[0]
		x := t.num(v)
		if x.ty.k == 'B' {
			return fromBits(tBig, []tbit{x.bit(0)}, bit0)
		}
		return x
	case "bytes", "bytearray", "str", "memoryview":
		v := a()
		if len(v) == 0 {
			return &tnew{n: linC(0)}
		}
		switch x := v[0].(type) {
		case *tbytes:
			if base == "bytes" || base == "bytearray" {
				return &ttext{x}
			}
			return x
		case *tsl:
			if base == "memoryview" {
				return x
			}
			return &tsl{off: x.off, n: x.n, copied: true, text: base == "str"}
		case *tptr:
			return x
		case *tn:
			return &tnew{n: t.linOf(x)}
		case *tnew:
			return x
		}
		t.fail("%s of %s", base, t.desc(v[0]))
	case "isinstance":
		v := t.rval(argN[0])
		switch v.(type) {
		case *tptr, *tbytes:
			return boolN(bit1)
		case *tenum:
			return boolN(bit1)
		}
		return topq{"isinstance " + t.desc(v)}
	case "max", "maxOf":
		v := a()
		x, y := t.num(v[0]), t.num(v[1])
		d := t.linOf(x).add(t.linOf(y), -1)
		if t.branch(t.predLin(d)) {
			return x
		}
		return y
	case "BigInt":
		v := a()[0]
		x := t.num(v)
		if x.ty.k == 'B' {
			return fromBits(tBig, []tbit{x.bit(0)}, bit0)
		}
		return wrapT(x, tBig)
	case "Number":
		v := a()[0]
		x := t.resN(t.num(v))
		if x.ty.k == 'B' {
			return fromBits(tNum, []tbit{x.bit(0)}, bit0)
		}
		return wrapT(x, tNum)
	case "Boolean":
		return boolN(t.truth(a()[0]))
	case "Uint8Array":
		return &tnew{n: t.linOf(a()[0])}
	case "ByteArray":
		return &tnew{n: t.linOf(a()[0])}
	}
	for tn, ty := range t.types {
		if ty.kind == "enum" && tn == base {
			return &tenum{t.num(a()[0])}
		}
	}
	t.fail("call of unknown function %s", name)
	return nil
}

// fieldFn: nothing named like a helper is a field.
func (t *TL) fieldFn(string) string { return "" }

func (t *TL) callFn(fn *tlFn, av []any) any {
	m := map[string]any{}
	for i, p := range fn.params {
		if i < len(av) {
			m[p.name] = av[i]
		}
	}
	return t.invoke(fn, m)
}

// enumNumber: Java picks the overload for the argument's type; overloads that
// only convert are followed, one with a switch names the value.
func (t *TL) enumNumber(class, name string, v any) any {
	n := t.resN(t.num(v))
	if t.lang != "java" {
		return &tenum{n}
	}
	var best *tlFn
	var bw int
	for _, f := range t.fns[name] {
		if f.class != class || len(f.params) != 1 {
			continue
		}
		it, ok := t.intType(strings.TrimPrefix(f.params[0].typ, "final "))
		if !ok || it.k != 'i' || n.ty.k == 'i' && it.w < n.ty.w {
			continue
		}
		if best == nil || it.w < bw {
			best, bw = f, it.w
		}
	}
	if best == nil {
		t.note("%s has no %s for a value of type %s (line %d)", class, name, n.ty, t.line)
		return &tenum{n}
	}
	for _, k := range best.body {
		if k.s == "switch" {
			return &tenum{n}
		}
	}
	save := t.enumCls
	t.enumCls = class
	r := t.callFn(best, []any{n})
	t.enumCls = save
	return r
}

// builtinHelper: emitted helpers whose bodies work on text are taken at their
// meaning; float views are evaluated.
func (t *TL) builtinHelper(name string, argf func() []any) (any, bool) {
	if !t.js() {
		return nil, false
	}
	switch name {
	case "stringToUTF8BytesCount":
		v := argf()[0]
		if b, ok := v.(*tbytes); ok {
			return t.lenOf(b.path), true
		}
	case "stringToUTF8Bytes":
		v := argf()
		if b, ok := v[0].(*tbytes); ok {
			t.copyIn(b, t.linOf(v[2]), nil)
			return t.lenOf(b.path), true
		}
	case "stringFromUTF8Bytes":
		v := argf()
		if p, ok := v[0].(*tptr); ok {
			off := p.off.add(t.linOf(v[1]), 1)
			nul := t.nulAt(off)
			return &ttup{[]any{&tsl{off: off, n: nul, copied: true, text: true}, &tn{ty: tNum, lin: nul}}}, true
		}
	default:
		return nil, false
	}
	t.fail("call of %s", name)
	return nil, false
}

func (t *TL) memcpy(dst, src, nv any) any {
	if d, ok := dst.(*taddr); ok {
		s, ok := src.(*taddr)
		if !ok {
			t.fail("copy into a variable from %s", t.desc(src))
		}
		n, ok := t.num(nv).konst()
		bs, ok2 := rawBits(t.load(s.of))
		if !ok || !ok2 || len(bs) != int(n)*8 {
			t.fail("copy of %v bytes from %s", n, t.desc(t.load(s.of)))
		}
		t.storeView(&tview{d.of, tty{len(bs), false, 'i'}}, wrapT(&tn{bits: bs, sx: bit0}, tty{len(bs), false, 'i'}))
		return tnil{}
	}
	n := t.linOf(nv)
	switch d := dst.(type) {
	case *tptr:
		t.copyIn(src, d.off, n)
		return tnil{}
	case *tnew:
		if s, ok := src.(*tptr); ok {
			d.fill = &tsl{off: s.off, n: n, copied: true}
			return d
		}
	}
	t.fail("memcpy to %s from %s", t.desc(dst), t.desc(src))
	return nil
}

// codec records a call of another structure's codec function.
func (t *TL) codec(role, tname string, args []any) any {
	var path string
	var buf *tptr
	var start *tlin
	for _, a := range args {
		switch x := a.(type) {
		case *taddr:
			if f, ok := x.of.(*tfld); ok {
				path = f.path
			}
		case *tfld:
			path = x.path
		case *tptr:
			buf = x
		case *tn:
			start = t.lin(x)
			if start == nil {
				t.fail("position of a nested structure is not known")
			}
		case tself:
			path = "this"
		case tundef:
			start = linC(0)
		}
	}
	st := t.types[tname]
	ty := t.natInt()
	if role == "encode_size" {
		if t.role == "encode" {
			// what the encoder of the same value reported
			for _, e := range t.events {
				if e.kind == "nested encode" && e.path == path {
					return &tn{ty: ty, lin: e.n}
				}
			}
		}
		n := linS("n(" + path + ")")
		t.events = append(t.events, tevent{kind: "encode_size", path: path, n: n})
		if t.lang == "c" || t.lang == "cpp" {
			ty = tU64
		}
		return &tn{ty: ty, lin: n}
	}
	if buf == nil {
		t.fail("nested %s without a buffer", role)
	}
	at := buf.off
	if start != nil && t.hasStart() {
		at = at.add(start, 1)
	}
	if start != nil && t.lang == "c" && role == "decode_size" {
		b := *buf
		b.lim, buf = start, &b
	}
	if path == "" {
		path = "?" + tname
	}
	self := tname == t.st.name && (path == "this" || path == "?"+tname)
	ev := tevent{kind: "nested " + role, path: path, at: at, typ: tname, lim: buf.lim}
	var n *tlin
	name := "n(" + at.String() + ")"
	if st != nil && st.st != nil && !st.st.dynamic && role != "decode_size" {
		n = linC(st.st.bits.c / 8)
	} else {
		n = linS(name)
	}
	ev.n = n
	switch role {
	case "encode":
		t.events = append(t.events, ev)
		if t.lang == "c" || t.lang == "cpp" {
			ty = tU64
		}
		return &tn{ty: ty, lin: n}
	case "decode", "decode_size":
		what := role
		if self {
			what = "own " + role
			ev.kind = what
		}
		known := false
		if role == "decode_size" {
			for _, e := range t.events {
				if e.kind == "nested decode" && !e.fail && e.path == path && e.at.String() == at.String() {
					known = true // the value decoded from there has a size
				}
			}
		}
		empty := buf.lim != nil && buf.lim.isC() && buf.lim.c == 0 // no structure fits
		if !known && (empty || t.choose(what+" of "+path+" at "+at.String()+" fails")) {
			ev.fail = true
			t.events = append(t.events, ev)
			if t.lang == "python" && role == "decode" {
				return &ttup{[]any{boolN(bit0), numC(tBig, -1)}}
			}
			return &tn{ty: ty, lin: linS("short("+at.String()+")").scale(-1).add(linC(1), -1)}
		}
		if role == "decode_size" && buf.lim != nil {
			t.facts = append(t.facts, buf.lim.add(n, -1))
		}
		if role == "decode_size" && buf.lim == nil {
			t.note("the length left is not passed on to the size function of %s", path)
		}
		t.events = append(t.events, ev)
		if t.lang == "python" && role == "decode" {
			return &ttup{[]any{boolN(bit1), &tn{ty: tBig, lin: n}}}
		}
		return &tn{ty: ty, lin: n}
	}
	t.fail("codec %s", role)
	return nil
}

func (t *TL) hasStart() bool {
	return t.lang == "java" || t.lang == "kotlin" || t.js() || t.lang == "csharp" && t.startArg
}

func (t *TL) callMethod(m *tmeth, argf func() []any, argN []*tnd) any {
	role := codecRole(m.name)
	switch r := m.recv.(type) {
	case tself:
		if role != "" {
			return t.codec(role, t.st.name, append([]any{tself{}}, argf()...))
		}
	case *tfld:
		if r.ty.kind == "struct" && role != "" {
			return t.codec(role, r.ty.st.name, append([]any{r}, argf()...))
		}
	case ttyp:
		if ty := t.types[r.name]; ty != nil && ty.kind == "struct" && role != "" {
			return t.codec(role, r.name, argf())
		}
		if ty := t.types[r.name]; ty != nil && ty.kind == "enum" {
			switch m.name {
			case "forNumber", "fromNumber":
				return t.enumNumber(r.name, m.name, argf()[0])
			}
		}
		return t.libCall(r.name, m.name, argf, argN)
	case *tptr:
		switch m.name {
		case "Slice", "subspan":
			a := argf()
			off := t.linOf(a[0])
			if len(a) == 2 {
				return &tsl{off: r.off.add(off, 1), n: t.linOf(a[1])}
			}
			var lim *tlin
			if r.lim != nil {
				lim = r.lim.add(off, -1)
			}
			return &tptr{r.off.add(off, 1), lim}
		case "data":
			return r
		case "size":
			n := t.limOf(r)
			return &tn{ty: tU64, lin: n.lin}
		case "copyOfRange":
			a := argf()
			lo, hi := t.linOf(a[0]), t.linOf(a[1])
			return &tsl{off: r.off.add(lo, 1), n: hi.add(lo, -1), copied: true}
		case "ToArray":
			return &tptr{r.off, r.lim}
		case "subarray":
			a := argf()
			lo, hi := t.linOf(a[0]), t.linOf(a[1])
			return &tsl{off: r.off.add(lo, 1), n: hi.add(lo, -1)}
		case "slice":
			a := argf()
			if len(a) == 2 {
				lo, hi := t.linOf(a[0]), t.linOf(a[1])
				return &tsl{off: r.off.add(lo, 1), n: hi.add(lo, -1), copied: true}
			}
		}
	case *tsl:
		switch m.name {
		case "ToArray", "tobytes":
			return &tsl{off: r.off, n: r.n, copied: true, text: r.text}
		case "decodeToString":
			return &tsl{off: r.off, n: r.n, copied: true, text: true}
		case "decode":
			return &tsl{off: r.off, n: r.n, copied: true, text: true}
		case "CopyTo":
			a := argf()
			if d, ok := a[0].(*tnew); ok {
				d.fill = &tsl{off: r.off, n: r.n, copied: true}
				return tnil{}
			}
		}
	case *tnew:
		switch m.name {
		case "get", "data":
			return r
		}
	case *tbytes:
		switch m.name {
		case "size", "length":
			return &tn{ty: tU64, lin: t.lenOf(r.path).lin, bits: t.lenOf(r.path).bits}
		case "data", "get", "c_str":
			return r
		case "getBytes", "encodeToByteArray", "encode":
			return &ttext{r}
		case "CopyTo", "copyInto":
			return t.copyTo(r, argf())
		}
	case *ttext:
		switch m.name {
		case "CopyTo", "copyInto":
			return t.copyTo(r, argf())
		}
	case *tenum:
		switch m.name {
		case "getNumber":
			return wrapT(r.n, tI64)
		}
	case *tflt:
		switch m.name {
		case "toRawBits", "toBits":
			ty := tI32
			if len(r.bits) == 64 {
				ty = tI64
			}
			return t.fltBits(r, len(r.bits), ty)
		}
	case *tn:
		if t.lang == "kotlin" {
			switch m.name {
			case "inv":
				return wrapT(notBits(r), r.ty)
			}
			if strings.HasPrefix(m.name, "to") {
				if it, ok := t.intType(m.name[2:]); ok {
					return wrapT(r, it)
				}
			}
			switch m.name {
			case "and", "or", "xor", "shl", "shr", "ushr":
				return t.bin(m.name, r, argf()[0])
			}
		}
	}
	if s, ok := m.recv.(*tstr); ok {
		_ = s
	}
	t.fail("method %s of %s", m.name, t.desc(m.recv))
	return nil
}

func (t *TL) copyTo(src any, a []any) any {
	if p, ok := a[0].(*tptr); ok {
		at := p.off
		if len(a) > 1 {
			at = at.add(t.linOf(a[1]), 1)
		}
		t.copyIn(src, at, nil)
		return tnil{}
	}
	t.fail("copy to %s", t.desc(a[0]))
	return nil
}

func (t *TL) libCall(recv, name string, argf func() []any, argN []*tnd) any {
	switch recv + "." + name {
	case "unsafe.Pointer":
		return t.load(t.ev(argN[0]))
	case "Byte.toUnsignedInt":
		return wrapT(wrapT(t.num(argf()[0]), tU8), tI32)
	case "Short.toUnsignedInt":
		return wrapT(wrapT(t.num(argf()[0]), tU16), tI32)
	case "math.Float32frombits":
		return t.flt(argf()[0], 32)
	case "math.Float64frombits":
		return t.flt(argf()[0], 64)
	case "math.Float32bits":
		return t.fltBits(argf()[0], 32, tU32)
	case "math.Float64bits":
		return t.fltBits(argf()[0], 64, tU64)
	case "Float.floatToRawIntBits", "Float.floatToIntBits", "BitConverter.SingleToInt32Bits":
		return t.fltBits(argf()[0], 32, tI32)
	case "Double.doubleToRawLongBits", "Double.doubleToLongBits", "BitConverter.DoubleToInt64Bits":
		return t.fltBits(argf()[0], 64, tI64)
	case "Float.intBitsToFloat", "Float.fromBits":
		return t.flt(argf()[0], 32)
	case "Double.longBitsToDouble", "Double.fromBits":
		return t.flt(argf()[0], 64)
	case "BitConverter.GetBytes":
		v := argf()[0]
		bs, ok := rawBits(v)
		if !ok {
			t.fail("bytes of %s", t.desc(v))
		}
		return &tpack{bs}
	case "BitConverter.ToUInt32", "BitConverter.ToUInt64", "BitConverter.ToSingle", "BitConverter.ToDouble", "BitConverter.ToInt32", "BitConverter.ToInt64":
		a := argf()
		p, ok := a[0].(*tpack)
		if k, ok2 := t.num(a[1]).konst(); !ok || !ok2 || k != 0 {
			t.fail("conversion from %s", t.desc(a[0]))
		}
		w := 32
		if strings.HasSuffix(name, "64") || name == "ToDouble" {
			w = 64
		}
		if len(p.bits) != w {
			t.note("%d bytes are converted by %s (line %d)", len(p.bits)/8, name, t.line)
			if len(p.bits) < w {
				t.fail("%s needs more bytes", name)
			}
		}
		if name == "ToSingle" || name == "ToDouble" {
			return &tflt{p.bits[:w]}
		}
		return wrapT(&tn{bits: p.bits[:w], sx: bit0}, tty{w, strings.HasPrefix(name, "ToI"), 'i'})
	case "Encoding.UTF8":
		return ttyp{"UTF8"}
	case "UTF8.GetByteCount":
		if b, ok := argf()[0].(*tbytes); ok {
			return t.lenOf(b.path)
		}
	case "UTF8.GetBytes":
		if b, ok := argf()[0].(*tbytes); ok {
			return &ttext{b}
		}
	case "UTF8.GetString":
		a := argf()
		if s, ok := a[0].(*tsl); ok {
			return &tsl{off: s.off, n: s.n, copied: true, text: true}
		}
		if p, ok := a[0].(*tptr); ok && len(a) == 3 {
			return &tsl{off: p.off.add(t.linOf(a[1]), 1), n: t.linOf(a[2]), copied: true, text: true}
		}
	case "System.arraycopy", "Array.Copy", "Buffer.BlockCopy":
		a := argf()
		n := t.linOf(a[4])
		switch d := a[2].(type) {
		case *tptr:
			if k, ok := t.num(a[1]).konst(); !ok || k != 0 {
				t.fail("copy does not start at the beginning")
			}
			t.copyIn(a[0], d.off.add(t.linOf(a[3]), 1), n)
			return tnil{}
		case *tnew:
			s, ok := a[0].(*tptr)
			k, ok2 := t.num(a[3]).konst()
			if ok && ok2 && k == 0 {
				d.fill = &tsl{off: s.off.add(t.linOf(a[1]), 1), n: n, copied: true}
				return tnil{}
			}
		}
	case "Arrays.copyOfRange":
		a := argf()
		if p, ok := a[0].(*tptr); ok {
			lo, hi := t.linOf(a[1]), t.linOf(a[2])
			return &tsl{off: p.off.add(lo, 1), n: hi.add(lo, -1), copied: true}
		}
	case "Math.floor":
		v := argf()[0]
		switch x := v.(type) {
		case *tn:
			return x
		case *tdiv:
			q, _, ok := mDiv(x.a, x.k, false)
			if !ok {
				t.fail("Math.floor of %s / %d", t.desc(x.a), x.k)
			}
			return wrapT(q, tNum)
		}
	case "Math.pow":
		a := argf()
		b, ok := t.num(a[0]).konst()
		e, ok2 := t.num(a[1]).konst()
		if ok && ok2 && b == 2 && e >= 0 && e < 53 {
			return numC(tNum, 1<<e)
		}
		t.fail("Math.pow")
	case "BigInt.asIntN", "BigInt.asUintN":
		a := argf()
		w, ok := t.num(a[0]).konst()
		if !ok || w <= 0 || w > 64 {
			t.fail("%s", name)
		}
		return wrapT(wrapT(t.num(a[1]), tty{int(w), name == "asIntN", 'i'}), tBig)
	case "struct.pack":
		a := argf()
		f := a[0].(*tstr).s
		bs, ok := rawBits(a[1])
		if n, ok2 := a[1].(*tn); !ok && ok2 {
			n = n.withBits()
			w := packW(f)
			bs = make([]tbit, w)
			for i := range bs {
				bs[i] = n.bit(i)
			}
			ok = n.bits != nil
		}
		if !ok || len(bs) != packW(f) || f[0] != '<' {
			t.fail("struct.pack(%q, %s)", f, t.desc(a[1]))
		}
		return &tpack{bs}
	case "struct.unpack":
		a := argf()
		f := a[0].(*tstr).s
		p, ok := a[1].(*tpack)
		if !ok || len(p.bits) != packW(f) || f[0] != '<' {
			t.fail("struct.unpack(%q, %s)", f, t.desc(a[1]))
		}
		if strings.ContainsAny(f, "fd") {
			return &ttup{[]any{&tflt{p.bits}}}
		}
		return &ttup{[]any{wrapT(wrapT(&tn{bits: p.bits, sx: bit0}, tty{len(p.bits), strings.ToLower(f[1:]) == f[1:], 'i'}), tBig)}}
	case "view.setFloat32", "view.setFloat64", "view.setUint32", "view.setBigUint64":
		a := argf()
		w := 32
		if strings.HasSuffix(name, "64") {
			w = 64
		}
		var bs []tbit
		if strings.HasPrefix(name, "setFloat") {
			f, ok := a[1].(*tflt)
			if !ok || len(f.bits) != w {
				t.fail("%s of %s", name, t.desc(a[1]))
			}
			bs = f.bits
		} else {
			n := t.num(a[1]).withBits()
			bs = make([]tbit, w)
			for i := range bs {
				bs[i] = n.bit(i)
			}
		}
		t.dv, t.dvLE = bs, len(a) > 2 && t.truth(a[2]) == bit1
		return tnil{}
	case "view.getFloat32", "view.getFloat64", "view.getUint32", "view.getBigUint64":
		a := argf()
		w := 32
		if strings.HasSuffix(name, "64") {
			w = 64
		}
		le := len(a) > 1 && t.truth(a[1]) == bit1
		if len(t.dv) != w || le != t.dvLE {
			t.note("%s does not read what was stored", name)
			return topN(tNum)
		}
		switch name {
		case "getUint32":
			return wrapT(wrapT(&tn{bits: t.dv, sx: bit0}, tU32), tNum)
		case "getBigUint64":
			return wrapT(wrapT(&tn{bits: t.dv, sx: bit0}, tU64), tBig)
		}
		return &tflt{t.dv}
	}
	if t.lang == "cpp" && (recv == "std") {
		return t.callName(name, argf, argN)
	}
	if recv == "$" || t.types[recv] != nil {
		t.fail("call of %s.%s", recv, name)
	}
	if t.lang == "cpp" {
		return t.callName(recv+"."+name, argf, argN)
	}
	t.fail("library function %s.%s", recv, name)
	return nil
}

func packW(f string) int {
	if len(f) != 2 {
		return -1
	}
	switch f[1] {
	case 'f', 'I', 'i':
		return 32
	case 'd', 'Q', 'q':
		return 64
	}
	return -1
}

func (t *TL) newE(n *tnd) any {
	ty := cleanType(n.s)
	var a []any
	for _, k := range n.k {
		a = append(a, t.rval(k))
	}
	switch {
	case strings.HasSuffix(ty, "[]"), ty == "Uint8Array":
		if len(a) == 1 {
			if _, ok := a[0].(*tn); ok {
				return &tnew{n: t.linOf(a[0])}
			}
		}
	case ty == "DataView":
		return ttyp{"view"}
	case ty == "ArrayBuffer":
		return tnil{}
	case strings.HasPrefix(ty, "Memory"), strings.HasPrefix(ty, "Span"), strings.HasPrefix(ty, "ReadOnly"):
		switch x := a[0].(type) {
		case *tptr:
			if len(a) == 3 {
				return &tptr{x.off.add(t.linOf(a[1]), 1), t.linOf(a[2])}
			}
			return x
		case *tsl, *tnew:
			return x
		}
	case ty == "String":
		if p, ok := a[0].(*tptr); ok && len(a) >= 3 {
			return &tsl{off: p.off.add(t.linOf(a[1]), 1), n: t.linOf(a[2]), copied: true, text: true}
		}
		if s, ok := a[0].(*tsl); ok {
			return &tsl{off: s.off, n: s.n, copied: true, text: true}
		}
	case strings.HasPrefix(ty, "string"):
		if p, ok := a[0].(*tptr); ok {
			return &tsl{off: p.off, n: t.linOf(a[1]), copied: true, text: true}
		}
	case strings.HasPrefix(ty, "uint8_t"):
		if len(a) == 1 {
			return &tnew{n: t.linOf(a[0])}
		}
	}
	if e := t.types[ty]; e != nil && e.kind == "struct" {
		return topq{"new " + ty}
	}
	t.fail("new %s", n.s)
	return nil
}

var _ = fmt.Sprint
