package main

import (
	"fmt"
	"sort"
)

func init() {
	register("C17", "abstract interpretation of the generators over structures of every field and element kind, then path-by-path evaluation of the emitted encoder, decoder and both size functions: every part must be reached in each, once, at its place, and counted in the sizes", c17)
	register("C19", "path-by-path evaluation of the emitted decoders and size functions over symbolic input bytes: on every path each read is preceded by a comparison that covers it, a reported size is covered by the input, a shortfall exceeds it", c19)
	register("C20", "path-by-path evaluation of the emitted decoders: a path that succeeds implies every bit of every constant and the success of every nested decode", c20)
	register("C23", "abstract interpretation of the generators over array lengths on both sides of the loop threshold, then evaluation of the emitted codecs: shape of the element accesses, each element once at its place", c23)
	register("C24", "path-by-path evaluation of the emitted codecs of byte fields: groups written, groups read and groups counted are compared with one prefix format on every path", c24)
	register("C30", "value provenance in the emitted decoders: what a text or bytes field is set to, on every path, traced to a copy or to the input", c30)
}

const dynExplain = "The generators' code was interpreted abstractly (no generator is run) for structures whose parts have run-time sizes; the text they would emit was parsed and its functions were followed along every path over symbolic field values, lengths and input bytes. "

func (d *dynSuite) enumT(name string, bits int64) *scType {
	e := &scEnum{name: name, bits: bits, vals: []scEV{{name + "_A", 0}, {name + "_B", 1}}}
	return &scType{kind: "enum", bits: bits, name: name, enum: e}
}

// dynAll: every kind of field and of element.
func dynAll(n int64) *dynSuite {
	d := newDyn()
	u8 := scB("uint8")
	r := d.add("Ra", fld(u8, 8), fld(scB("uint16"), 16))
	da := d.add("Da", fld(u8, 8), fld(tByt, 0), fld(tStr, 0), fld(u8, 8))
	et := d.enumT("Ea", 5)
	var single, arrs []*scField
	for _, k := range append(append([]string{}, intKinds...), "bool", "float32", "float64") {
		w := int64(scB(k).width())
		if k == "bool" {
			w = 8
		}
		single = append(single, fld(scB(k), w))
		if k[0] == 'i' || k[0] == 'u' {
			single = append(single, fld(scB(k), w-3), scVoid(3))
		}
		arrs = append(arrs, fld(scArr(scB(k), n), w*n))
	}
	single = append(single, fld(et, 5), scVoid(3), fld(r, 24), &scField{kind: "const", name: "k1", ty: scB("int16"), bits: aiInt(16), konst: int64(-77)}, fld(u8, 8))
	arrs = append(arrs, fld(scArr(et, n), 5*n))
	if 5*n%8 != 0 {
		arrs = append(arrs, scVoid(8-5*n%8))
	}
	arrs = append(arrs, scN(r, n), fld(u8, 8))
	d.add("Fs", single...)
	d.add("Fa", arrs...)
	cp := func(fs []*scField) (o []*scField) {
		for _, f := range fs {
			g := *f
			g.name = ""
			if f.kind == "const" {
				g.name = f.name
			}
			o = append(o, &g)
		}
		return
	}
	d.add("Ds", append([]*scField{fld(tStr, 0)}, cp(single)...)...)
	d.add("Dt", append([]*scField{fld(tByt, 0)}, cp(arrs)...)...)
	d.add("Du", fld(u8, 8), scN(tStr, n), fld(u8, 8))
	d.add("Dv", fld(u8, 8), scN(tByt, n), fld(u8, 8))
	d.add("Dw", fld(u8, 8), scN(da, n), fld(u8, 8))
	d.add("Dx", fld(u8, 8), fld(da, da.st.bits.c), fld(u8, 8), fld(da, da.st.bits.c), fld(tStr, 0), fld(da, da.st.bits.c), fld(u8, 8))
	return d
}

var oneGroup = func(t *TL) { t.maxG = 1 }

func c17(w *World, r *Report) {
	r.Explain = dynExplain + "Every part of every structure must be written, read and counted exactly once and at its place."
	var jobs []*dynJob
	for _, n := range []int64{2, 5} {
		what := map[int64]string{2: "arrays unrolled", 5: "arrays looped"}[n]
		for _, cp := range []bool{false, true} {
			if cp && n == 5 && !thorough() {
				continue
			}
			s := what
			if cp {
				s += ", -memcpy"
			}
			js := dynJobs(dynAll(n), s, tlOpts("LoopUnroll", aiInt(4), "MemoryCopy", cp), false)
			for _, j := range js {
				j.pre = oneGroup
			}
			jobs = append(jobs, js...)
		}
	}
	w.dynRun(jobs)
	r.dynJudge("every part handled", jobs, map[string]bool{"coverage": true, "place": true, "total": true, "extra": true, "result": true})
	r.Floor("every part handled", 9*60)
}

func c24(w *World, r *Report) {
	r.Explain = dynExplain + "A length must be written as groups of seven bits, least significant first, the top bit set on all but the last, and read and counted the same way."
	d := newDyn()
	u8 := scB("uint8")
	d.add("Ba", fld(u8, 8), fld(tByt, 0), fld(u8, 8))
	d.add("Bb", fld(tByt, 0), fld(scB("uint16"), 16), fld(tByt, 0))
	d.add("Bc", fld(u8, 8), fld(scArr(tByt, 2), 0), fld(u8, 8))
	var jobs []*dynJob
	for _, un := range []int64{4, 1} {
		for _, cp := range []bool{false, true} {
			what := map[int64]string{4: "unrolled", 1: "looped"}[un]
			if cp {
				what += ", -memcpy"
			}
			js := dynJobs(d, what, tlOpts("LoopUnroll", aiInt(un), "MemoryCopy", cp), false)
			for _, j := range js {
				if un == 1 {
					j.only = map[string]bool{"Bc": true}
				}
			}
			jobs = append(jobs, js...)
		}
	}
	w.dynRun(jobs)
	r.dynJudge("length prefix", jobs, map[string]bool{"prefix": true, "note": true, "total": true})
	r.Floor("length prefix", 9*12)
}

func c19(w *World, r *Report) {
	r.Explain = dynExplain + "No input byte may be read before a comparison shows the input to be long enough; a size reported must be covered by the input; a shortfall must exceed it. C and C++ decode from a bare pointer: there the size function is what is checked."
	d := dynBase()
	var jobs []*dynJob
	for _, un := range []int64{4, 1} {
		what := map[int64]string{4: "unrolled", 1: "looped"}[un]
		js := dynJobs(d, what, tlOpts("LoopUnroll", aiInt(un)), false)
		for _, j := range js {
			j.roles = []string{"decode", "decode_size"}
			j.checked = true
			if un == 1 {
				j.only = map[string]bool{"Db": true, "Dd": true}
			}
		}
		jobs = append(jobs, js...)
	}
	w.dynRun(jobs)
	r.dynJudge("input length", jobs, map[string]bool{"unchecked": true, "size": true, "result": true, "negative": true})
	r.Floor("input length", 9*20)
}

func c20(w *World, r *Report) {
	r.Explain = dynExplain + "A decode that reports success must have compared every bit of every constant with the declared value and must have seen every nested decode succeed."
	d := newDyn()
	u8 := scB("uint8")
	rs := d.add("Ra", fld(u8, 8), &scField{kind: "const", name: "m", ty: scB("uint8"), bits: aiInt(8), konst: int64(0x5a)})
	da := d.add("Da", fld(u8, 8), fld(tStr, 0), &scField{kind: "const", name: "m", ty: scB("int8"), bits: aiInt(8), konst: int64(-3)})
	var cs []*scField
	i := 0
	konst := func(k string, w int64, v any, opts map[string]any) {
		cs = append(cs, &scField{kind: "const", name: fmt.Sprintf("k%d", i), ty: scB(k), bits: aiInt(w), konst: v, opts: opts})
		if w%8 != 0 {
			cs = append(cs, scVoid(8-w%8))
		}
		i++
	}
	for _, k := range intKinds {
		W := int64(scB(k).width())
		for _, wd := range []int64{W, W - 3} {
			v := int64(0x5aa5c33c0f123456) >> uint(64-wd+1)
			konst(k, wd, v, nil)
			konst(k, wd, v, ord(true))
			if k[0] == 'i' {
				konst(k, wd, -v, nil)
			}
		}
		konst(k, W, int64(0), nil)
	}
	konst("bool", 8, true, nil)
	konst("bool", 8, false, nil)
	konst("float32", 32, float64(-3.5), nil)
	konst("float64", 64, float64(1.0/3), nil)
	// without a name
	cs = append(cs, &scField{kind: "const", ty: scB("uint8"), bits: aiInt(8), konst: int64(99)})
	fixed := append([]*scField{fld(u8, 8)}, cs...)
	d.add("Ck", fixed...)
	var dyn []*scField
	for _, f := range fixed {
		g := *f
		if g.kind == "normal" {
			g.name = ""
		}
		dyn = append(dyn, &g)
	}
	d.add("Cd", append([]*scField{fld(tStr, 0)}, dyn...)...)
	d.add("Cn", fld(u8, 8), fld(rs, rs.st.bits.c), fld(scArr(rs, 3), 3*rs.st.bits.c), fld(u8, 8))
	d.add("Cm", fld(u8, 8), fld(rs, rs.st.bits.c), fld(da, da.st.bits.c), scN(da, 3), fld(scArr(rs, 3), 3*rs.st.bits.c), fld(u8, 8))
	var jobs []*dynJob
	for _, un := range []int64{4, 2} {
		what := map[int64]string{4: "unrolled", 2: "looped"}[un]
		js := dynJobs(d, what, tlOpts("LoopUnroll", aiInt(un)), false)
		for _, j := range js {
			j.roles = []string{"decode"}
			j.pre = oneGroup
		}
		jobs = append(jobs, js...)
	}
	w.dynRun(jobs)
	r.dynJudge("constants and nested failures", jobs, map[string]bool{"const": true, "result": true})
	r.Floor("constants and nested failures", 9*12)
}

func c23(w *World, r *Report) {
	r.Explain = dynExplain + "Arrays shorter than, as long as and longer than the threshold: elements must be named by a loop variable exactly when the array is longer than a non-negative threshold, and each must be handled once at its place."
	var jobs []*dynJob
	shapes := map[string][2]int{}
	for _, un := range []int64{-1, 0, 1, 2, 4} {
		d := newDyn()
		u8 := scB("uint8")
		rs := d.add("Ra", fld(u8, 8))
		da := d.add("Da", fld(u8, 8), fld(tStr, 0))
		et := d.enumT("Ea", 8)
		for _, n := range []int64{1, 2, 3, 5} {
			if n > un+3 && un >= 0 && !thorough() {
				continue
			}
			for i, t := range []*scType{u8, scB("int16"), scB("uint64"), scB("bool"), et, scB("float32"), scB("float64"), rs, tStr, tByt, da} {
				if i == 9 && n > 3 {
					continue
				}
				a := fld(u8, 8)
				b := scN(t, n)
				if t.kind == "bool" {
					b.bits = aiInt(8 * n)
				}
				d.add(fmt.Sprintf("S%dx%d", i, n), a, b, fld(u8, 8))
			}
		}
		js := dynJobs(d, fmt.Sprintf("threshold %d", un), tlOpts("LoopUnroll", aiInt(un)), false)
		for _, j := range js {
			j.pre = oneGroup
			j.un = &[]int64{un}[0]
			j.shapes = map[string][2]int{}
			j.skip = map[string]bool{"Ra": true, "Da": true}
		}
		jobs = append(jobs, js...)
	}
	w.dynRun(jobs)
	for _, j := range jobs {
		for k, v := range j.shapes {
			s := shapes[k]
			shapes[k] = [2]int{s[0] + v[0], s[1] + v[1]}
		}
	}
	r.dynJudge("arrays around the threshold", jobs, map[string]bool{"coverage": true, "place": true, "total": true, "extra": true, "result": true, "shape": true, "prefix": true})
	r.Floor("arrays around the threshold", 9*40)
	var ks []string
	for k := range shapes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r.OK("shape of the code", k, fmt.Sprintf("%d arrays looped, %d written out", shapes[k][1], shapes[k][0]))
	}
	r.Floor("shape of the code", 9*15)
}

// alwaysCopies: what a target documents as copied without being asked.
func alwaysCopies(lang, kind string) bool {
	switch lang {
	case "kotlin", "java", "python", "commonjs", "esm":
		return true // -memcpy is forced
	case "c":
		return false
	}
	return kind == "string"
}

func c30(w *World, r *Report) {
	r.Explain = dynExplain + "With -memcpy every text and bytes field must be set to fresh memory filled from the input; without it, text and bytes are copied where the target's documentation says they are in any case."
	d := newDyn()
	u8 := scB("uint8")
	d.add("Ma", fld(u8, 8), fld(tByt, 0), fld(tStr, 0), fld(u8, 8))
	d.add("Mb", fld(u8, 8), scN(tStr, 3), fld(u8, 8))
	d.add("Mc", fld(u8, 8), scN(tByt, 2), fld(u8, 8))
	var jobs []*dynJob
	for _, cp := range []bool{true, false} {
		for _, un := range []int64{4, 1} {
			what := map[int64]string{4: "unrolled", 1: "looped"}[un]
			if cp {
				what += ", -memcpy"
			}
			js := dynJobs(d, what, tlOpts("LoopUnroll", aiInt(un), "MemoryCopy", cp), cp)
			for _, j := range js {
				j.roles = []string{"decode"}
				j.pre = oneGroup
			}
			jobs = append(jobs, js...)
		}
	}
	w.dynRun(jobs)
	r.dynJudge("copies", jobs, map[string]bool{"alias": true})
	r.Floor("copies", 9*5)
}
