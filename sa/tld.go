package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Entry points of emitted codecs.

var tlLangs = []string{"c", "cpp", "csharp", "commonjs", "esm", "go", "java", "kotlin", "python"}

type tlProg struct {
	lang  string
	files []*tlFile
	fns   map[string][]*tlFn
	types map[string]*scType
}

func tlLoad(lang string, texts map[string]string, types map[string]*scType) (*tlProg, error) {
	p := &tlProg{lang: lang, fns: map[string][]*tlFn{}, types: types}
	names := map[string]bool{}
	for n := range types {
		names[n] = true
	}
	var fs []string
	for f := range texts {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, n := range fs {
		f, err := tlScan(lang, n, texts[n], names)
		if err != nil {
			return nil, err
		}
		p.files = append(p.files, f)
		for _, x := range f.fns {
			p.fns[x.name] = append(p.fns[x.name], x)
		}
	}
	return p, nil
}

// roleOf: canonical role of a function of the emitted program.
var tlEntryNames = map[string]map[string]string{
	"encode":      {"c": "%s_encode", "cpp": "encode", "csharp": "Encode", "go": "EncodeTo", "java": "encode", "kotlin": "encode", "python": "encode", "commonjs": "encode", "esm": "encode"},
	"decode":      {"c": "%s_decode", "cpp": "decode", "csharp": "Decode", "go": "Decode", "java": "decode", "kotlin": "decode", "python": "decode", "commonjs": "decode", "esm": "decode"},
	"decode_size": {"c": "%s_decode_size", "cpp": "decode_size", "csharp": "DecodeSize", "go": "DecodeSize", "java": "decodeSize", "kotlin": "decodeSize", "python": "decode_size", "commonjs": "decode_size", "esm": "decode_size"},
	"encode_size": {"c": "%s_encode_size", "cpp": "encode_size", "csharp": "EncodeSize", "go": "EncodeSize", "java": "encodeSize", "kotlin": "encodeSize", "python": "encode_size", "commonjs": "encode_size", "esm": "encode_size"},
}

// entry finds the function that does the work of a role (not the overloads
// that only forward to it).
func (p *tlProg) entry(role, st string) *tlFn {
	name := tlEntryNames[role][p.lang]
	class := st
	if strings.Contains(name, "%s") {
		name = fmt.Sprintf(name, st)
		class = ""
	}
	var best *tlFn
	for _, f := range p.fns[name] {
		if class != "" && f.class != class && !strings.HasSuffix(f.class, "."+class) {
			continue
		}
		sig := ""
		for _, q := range f.params {
			sig += q.typ + ";"
		}
		n := len(f.params)
		ok := true
		switch p.lang {
		case "cpp":
			ok = role == "encode_size" && n == 0 || n == 1 && strings.Contains(sig, "span")
		case "csharp":
			switch role {
			case "encode":
				ok = n == 1 && strings.Contains(sig, "Span") || n == 2 && strings.Contains(sig, "byte[]")
			case "encode_size":
				ok = n == 0
			default:
				ok = n == 1 && strings.Contains(sig, "Memory") || n == 2 && strings.Contains(sig, "byte[]")
			}
		case "java", "kotlin":
			ok = n == 2 || role == "encode_size" && n == 0
		case "commonjs", "esm":
			switch role {
			case "encode", "decode":
				ok = n == 3
			case "decode_size":
				ok = n == 2 && (best == nil)
			case "encode_size":
				ok = n == 1
			}
		}
		if ok {
			best = f
		}
	}
	return best
}

// run evaluates one role of a structure.
func (p *tlProg) run(st *scStruct, genName, role string, opts map[string]any, max int, pre func(*TL)) []tlPath {
	fn := p.entry(role, genName)
	if fn == nil {
		return []tlPath{{Err: "no " + role + " function for " + genName, TL: &TL{lang: p.lang}}}
	}
	mk := func() *TL {
		t := &TL{lang: p.lang, files: p.files, fns: p.fns, st: st, types: p.types, role: role, opts: opts,
			symID: map[string]tbit{}, preds: map[tbit]*tpred{}, linB: map[string]*tn{}, env: map[tbit]tbit{},
			mem: map[string][]tbit{}, memAt: map[string]*tlin{}, fields: map[string]any{}, guard: bit1, zero: true}
		t.size = linS("size")
		if pre != nil {
			pre(t)
		}
		return t
	}
	return tlRun(mk, func(t *TL) {
		args := map[string]any{}
		for _, q := range fn.params {
			switch q.name {
			case "data", "buf", "buffer", "memory", "memoryData", "span":
				args[q.name] = &tptr{off: linC(0), lim: t.size}
			case "start":
				t.startArg = true
				args[q.name] = &tn{ty: t.natInt(), lin: linS("start")}
			case "size":
				args[q.name] = &tn{ty: tU64, lin: t.size}
			case "ptr", "self", "obj", "this":
				args[q.name] = tself{}
			}
		}
		t.ret = t.invoke(fn, args)
		if role != "encode" {
			t.settle()
		}
	}, max)
}

// ---- demo

func tlDemo() (map[string]*scType, []*scStruct) {
	n8 := func(n int64) aiNum { return aiInt(n) }
	e := &scEnum{name: "E", bits: 3}
	et := func() *scType { return &scType{kind: "enum", bits: 3, name: "E", enum: e} }
	s := &scStruct{name: "S", dynamic: true, bits: n8(8)}
	s.add(&scField{kind: "normal", name: "x", ty: &scType{kind: "uint8"}, bits: n8(8)})
	s.add(&scField{kind: "normal", name: "s", ty: &scType{kind: "bytes"}})
	s.add(&scField{kind: "normal", name: "t", ty: &scType{kind: "string"}})
	r := &scStruct{name: "R", bits: n8(8)}
	r.add(&scField{kind: "normal", name: "y", ty: &scType{kind: "uint8"}, bits: n8(8)})
	t := &scStruct{name: "T", dynamic: true}
	nf := func(name string, ty *scType, bits int64, big bool) {
		f := &scField{kind: "normal", name: name, ty: ty, bits: n8(bits)}
		if big {
			f.opts = map[string]any{"order": "big"}
		}
		t.add(f)
	}
	arr := func(el *scType, n int64) *scType { return &scType{kind: "array", elem: el, n: n} }
	b := func(k string) *scType { return &scType{kind: k} }
	st := func(x *scStruct) *scType { return &scType{kind: "struct", name: x.name, st: x} }
	t.add(&scField{kind: "void", bits: n8(3)})
	nf("a", b("int16"), 13, false)
	nf("u", arr(b("uint8"), 3), 15, false)
	nf("pad", b("int8"), 1, true)
	t.add(&scField{kind: "const", name: "k", ty: b("int16"), bits: n8(11), konst: int64(-5)})
	nf("v", arr(b("int16"), 2), 22, true)
	nf("e", et(), 3, false)
	nf("es", arr(et(), 2), 6, false)
	nf("bb", b("bool"), 1, false)
	nf("f", b("float32"), 32, false)
	nf("ff", arr(b("float64"), 2), 128, false)
	nf("lng", arr(b("int8"), 20), 60, false)
	nf("el", arr(et(), 9), 27, false)
	nf("fl", arr(b("float32"), 9), 288, false)
	nf("r1", st(r), 8, false)
	nf("rr", arr(st(r), 9), 72, false)
	nf("ss", st(s), 8, false)
	nf("st", arr(b("string"), 9), 0, false)
	nf("bt", arr(b("bytes"), 9), 0, false)
	types := map[string]*scType{"E": et(), "S": st(s), "R": st(r), "T": st(t)}
	return types, []*scStruct{s, r, t}
}

func tlTryDir(args []string) {
	lang, dir := args[0], args[1]
	types, sts := tlDemo()
	texts := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			s, _ := readFileString(p)
			texts[p] = s
		}
		return nil
	})
	p, err := tlLoad(lang, texts, types)
	if err != nil {
		fmt.Println("load:", err)
		return
	}
	mx := 3000
	if v := os.Getenv("MAX"); v != "" {
		fmt.Sscan(v, &mx)
	}
	roles := []string{"encode", "decode", "decode_size", "encode_size"}
	only := ""
	verbose := false
	for _, a := range args[2:] {
		if a == "-v" {
			verbose = true
		} else if tlEntryNames[a] != nil {
			roles = []string{a}
		} else {
			only = a
		}
	}
	for _, st := range sts {
		if only != "" && only != st.name {
			continue
		}
		for _, role := range roles {
			ps := p.run(st, st.name, role, nil, mx, nil)
			errs := map[string]int{}
			for _, x := range ps {
				if x.Err != "" {
					errs[x.Err]++
				}
			}
			fmt.Printf("%s %s.%s: %d paths", lang, st.name, role, len(ps))
			for e, n := range errs {
				fmt.Printf("; %dx %s", n, e)
			}
			fmt.Println()
			if verbose {
				for _, x := range ps {
					fmt.Print(x.show())
				}
			}
		}
	}
}

func (w *World) tlSpecDump(args []string) {
	s := &tlSuite{max: 120}
	kinds := strings.Split(args[1], ",")
	for _, k := range kinds {
		big := strings.HasSuffix(k, "B")
		k = strings.TrimSuffix(k, "B")
		var ty *scType
		n := int64(0)
		if i := strings.IndexByte(k, '*'); i > 0 {
			fmt.Sscan(k[i+1:], &n)
			k = k[:i]
		}
		for wd := int64(1); wd <= 64; wd++ {
			switch {
			case k == "enum":
				ty = s.enumT(wd)
			case wd > int64(scB(k).width()) || strings.HasPrefix(k, "float") && wd != int64(scB(k).width()):
				continue
			default:
				ty = scB(k)
			}
			if len(args) > 2 {
				if fmt.Sprint(wd) != args[2] {
					continue
				}
			}
			for r := int64(0); r < 8; r++ {
				if len(args) > 3 && fmt.Sprint(r) != args[3] {
					continue
				}
				if n > 0 {
					s.at(r, &scField{kind: "normal", ty: scArr(ty, n), bits: aiInt(wd * n), opts: ord(big)})
				} else {
					s.at(r, &scField{kind: "normal", ty: ty, bits: aiInt(wd), opts: ord(big)})
				}
			}
		}
	}
	u, types := s.unit()
	langs := tlLangs
	if args[0] != "all" {
		langs = strings.Split(args[0], ",")
	}
	var kv []any
	for _, o := range []string{"SignExtMethod", "LoopUnroll"} {
		if v := os.Getenv(o); v != "" {
			var n int64
			fmt.Sscan(v, &n)
			kv = append(kv, o, aiInt(n))
		}
	}
	for _, lang := range langs {
		t0 := time.Now()
		p, err := w.tlEmit(nil, lang, u, types, tlOpts(kv...))
		if err != nil {
			fmt.Println(lang, err)
			continue
		}
		t1 := time.Now()
		bad := 0
		show := func(role string, st *scStruct, l *tlLeaf, what string) {
			bad++
			if bad > 6 {
				return
			}
			d := ""
			if l != nil {
				d = l.path + " " + l.kind()
			}
			fmt.Printf("%s %s.%s %s: %s\n", lang, st.name, role, d, what)
		}
		nf := 0
		for _, st := range s.sts {
			ls, total := tlLeaves(st)
			nf += len(ls)
			for _, role := range []string{"encode", "decode"} {
				ps := p.run(st, st.name, role, nil, 300, func(t *TL) { t.zero = os.Getenv("DIRTY") == "" })
				for i := range ps {
					x := &ps[i]
					if x.Err != "" {
						show(role, st, nil, x.Err)
						continue
					}
					for _, n := range x.Notes {
						show(role, st, nil, "note: "+n)
					}
					if role == "encode" {
						for _, m := range x.checkEncode(lang, ls, total) {
							show(role, st, m.leaf, m.what)
						}
					} else if len(x.Fields) > 0 || len(ps) == 1 {
						for _, m := range x.checkDecode(lang, ls) {
							show(role, st, m.leaf, m.what)
						}
					}
				}
			}
		}
		fmt.Printf("%s: %d structs, %d leaves, %d bad; generate %v run %v\n", lang, len(s.sts), nf, bad, t1.Sub(t0).Round(time.Millisecond), time.Since(t1).Round(time.Millisecond))
		if os.Getenv("TEXT") != "" {
			for _, f := range p.files {
				fmt.Println(f.name)
				os.WriteFile("/tmp/w/gen_"+filepath.Base(f.name), []byte(f.text), 0644)
			}
		}
	}
}

// settle follows both outcomes of the comparisons a result is made of.
func (t *TL) settle() {
	n, ok := t.ret.(*tn)
	if !ok {
		return
	}
	for again := true; again; {
		again = false
		n = t.resN(n)
		for _, b := range append(append([]tbit(nil), n.bits...), n.sx) {
			if b = t.res(b); b >= 2 && t.preds[b&^1] != nil {
				t.branch(b)
				again = true
				break
			}
		}
	}
	t.ret = n
}
