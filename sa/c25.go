package main

import "strings"

func init() {
	register("C25", "abstract interpretation of the generators over a matrix of field types, widths and bit offsets, then bit-level dataflow over the emitted straight-line codecs: every wire bit must come from, and every value bit go to, the position the schema assigns", c25)
	register("C26", "abstract interpretation of the generators with a loop threshold, then bit-level dataflow through the emitted loops and runtime bit helpers: the wire positions must be those of the straight-line code", c26)
	register("C22", "bit-level dataflow over emitted codecs of big-endian and default-order fields of every kind, single, unrolled, looped and constant, compared with the byte order the schema asks for", c22)
	register("C21", "bit-level dataflow over emitted decoders of narrow signed fields with every sign-extension method: each bit above the field's width must be the field's sign bit", c21)
}

const tlExplain = "The generators' code was interpreted abstractly (no generator is run) for structures holding each field kind at each width and each bit offset; the text they would emit was parsed and its encoders and decoders were evaluated over symbolic value bits, wire bits and a previously used output buffer. "

func scalarKinds() []string {
	return append(append([]string{}, intKinds...), "bool", "float32", "float64", "enum")
}

func c25(w *World, r *Report) {
	r.Explain = tlExplain + "Each bit of each wire byte must be written with exactly the value bit the layout assigns to it (bits of no field: untouched or cleared), and each value bit must be read back from there."
	s := &tlSuite{max: 100}
	s.fill(tlPick{kinds: scalarKinds()})
	jobs := s.jobs(tlLangs, "single", tlOpts(), 6)
	s = &tlSuite{max: 100}
	s.fill(tlPick{kinds: []string{"enum wide"}})
	wide := s.jobs([]string{"c", "cpp", "csharp", "go", "kotlin", "python"}, "single", tlOpts(), 6)
	s = &tlSuite{max: 100}
	s.enumT(40)
	for res := int64(0); res < 8; res++ {
		s.at(res, &scField{kind: "normal", ty: s.enumT(40), bits: aiInt(40)})
	}
	wide = append(wide, s.jobs([]string{"java", "commonjs", "esm"}, "enumeration wider than 32 bits", tlOpts(), 6)...)
	s = &tlSuite{max: 60}
	some := func(k string) []int64 {
		W := int64(scB(k).width())
		var o []int64
		for _, x := range []int64{1, 3, 5, 8, 11, 13, 16, 17, 24, 27, 32, 33, 40, 45, 63, 64} {
			if x <= W && (x == W || x > W/2 || W >= 64) {
				o = append(o, x)
			}
		}
		return o
	}
	s.fill(tlPick{kinds: append(append([]string{}, intKinds...), "bool", "float32", "float64"), arr: 2, widths: some})
	// enumerations as array elements
	for _, x := range []int64{1, 3, 8, 9, 13, 16, 17, 19, 24, 25, 31} {
		for res := int64(0); res < 8; res++ {
			s.at(res, &scField{kind: "normal", ty: scArr(s.enumT(x), 2), bits: aiInt(x * 2)})
		}
	}
	jobs = append(jobs, s.jobs(tlLangs, "array of two, unrolled", tlOpts("LoopUnroll", aiInt(-1)), 6)...)
	w.tlRunJobs(append(jobs, wide...))
	r.tlJudge(wide, tlVerdict{rule: "wide enumerations", cls: map[string]bool{"wire": true, "unset": true, "outside": true, "ext": true}})
	r.tlJudge(jobs, tlVerdict{rule: "straight-line bit positions", cls: map[string]bool{"wire": true, "unset": true, "outside": true, "note": true, "ext": true}, skip: narrowSign})
	r.tlFloor("straight-line bit positions", jobs, 1500)
}

// narrowSign: the bits above a narrow signed field are C21's.
func narrowSign(l *tlLeaf, cls string) bool {
	return cls == "ext" && strings.HasPrefix(l.ty.kind, "int") && l.w < int64(l.ty.width())
}

func c26(w *World, r *Report) {
	r.Explain = tlExplain + "Arrays one element longer than the threshold were taken through the emitted loops and the runtime helpers they call."
	widths := func(k string) []int64 {
		W := int64(scB(k).width())
		if W < 64 {
			var o []int64
			for _, x := range []int64{1, 3, 7, 8, 9, 13, 16, 17, 24, 29, 32} {
				if x <= W && x > W/4 {
					o = append(o, x)
				}
			}
			return o
		}
		if !thorough() {
			return []int64{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 21, 23, 24, 25, 29, 31, 32, 33, 37, 39, 40, 41, 47, 48, 49, 53, 55, 56, 57, 59, 61, 62, 63, 64}
		}
		var o []int64
		for x := int64(1); x <= 64; x++ {
			o = append(o, x)
		}
		return o
	}
	var jobs []*tlJob
	for _, big := range []bool{false, true} {
		s := &tlSuite{max: 60}
		kinds := append(append([]string{}, intKinds...), "bool", "float32", "float64")
		s.fill(tlPick{kinds: kinds, arr: 3, big: big, widths: widths})
		for _, x := range []int64{1, 3, 8, 9, 13, 16, 17, 19, 24, 25, 31} {
			for res := int64(0); res < 8; res++ {
				s.at(res, &scField{kind: "normal", ty: scArr(s.enumT(x), 3), bits: aiInt(x * 3), opts: ord(big)})
			}
		}
		what := "array of three, loop threshold 2"
		if big {
			what += ", big-endian"
		}
		jobs = append(jobs, s.jobs(tlLangs, what, tlOpts("LoopUnroll", aiInt(2)), 3)...)
	}
	w.tlRunJobs(jobs)
	r.tlJudge(jobs, tlVerdict{rule: "looped bit positions", cls: map[string]bool{"wire": true, "unset": true, "outside": true, "note": true, "ext": true}, skip: narrowSign})
	r.tlFloor("looped bit positions", jobs, 1500)
}

func c22(w *World, r *Report) {
	r.Explain = tlExplain + "Bytes of multi-byte values must be taken most significant first under order = \"big\" and least significant first otherwise, in encoder and decoder, for single fields, enumerations, constants and array elements, unrolled and looped."
	widths := func(k string) []int64 {
		W := int64(scB(k).width())
		var o []int64
		for _, x := range []int64{5, 8, 9, 12, 16, 17, 20, 24, 27, 32, 33, 40, 47, 48, 56, 57, 64} {
			if x <= W && (x > W/2 || W >= 32) {
				o = append(o, x)
			}
		}
		return o
	}
	var jobs []*tlJob
	for _, big := range []bool{true, false} {
		sfx := ", no order given"
		if big {
			sfx = ", big-endian"
		}
		s := &tlSuite{max: 100}
		p := tlPick{kinds: scalarKinds(), big: big, widths: widths}
		if !big {
			p.res = []int64{0, 3}
		}
		s.fill(p)
		jobs = append(jobs, s.jobs(tlLangs, "single"+sfx, tlOpts(), 6)...)
		for _, loop := range []bool{false, true} {
			s := &tlSuite{max: 60}
			s.fill(tlPick{kinds: append(append([]string{}, intKinds...), "float32", "float64"), big: big, arr: 2, widths: func(k string) []int64 {
				W := int64(scB(k).width())
				if W == 8 {
					return []int64{8}
				}
				return []int64{W, W - 3, W/2 + 4}
			}, res: []int64{0, 1, 5}})
			for _, x := range []int64{8, 9, 16, 17, 24, 31} {
				for _, res := range []int64{0, 5} {
					s.at(res, &scField{kind: "normal", ty: scArr(s.enumT(x), 2), bits: aiInt(x * 2), opts: ord(big)})
				}
			}
			un, what := int64(-1), "array of two, unrolled"
			if loop {
				un, what = 1, "array of two, looped"
			}
			jobs = append(jobs, s.jobs(tlLangs, what+sfx, tlOpts("LoopUnroll", aiInt(un)), 6)...)
		}
		jobs = append(jobs, constSuite(big, "constants"+sfx)...)
	}
	w.tlRunJobs(jobs)
	r.tlJudge(jobs, tlVerdict{rule: "byte order", cls: map[string]bool{"wire": true, "unset": true, "const": true}})
	r.tlFloor("byte order", jobs, 1000)
}

// constSuite: constant fields of each type. Widths are those that hold the
// values in whole.
func constSuite(big bool, what string) []*tlJob {
	s := &tlSuite{max: 60}
	add := func(k string, w, res int64, v any) {
		s.at(res, &scField{kind: "const", ty: scB(k), bits: aiInt(w), opts: ord(big), konst: v})
	}
	for _, res := range []int64{0, 3, 6} {
		for _, k := range intKinds {
			W := int64(scB(k).width())
			for _, wd := range []int64{W, W - 3, W/2 + 1} {
				v := int64(0x5aa5c33c0f123456) >> uint(64-wd+1)
				add(k, wd, res, v)
				if k[0] == 'i' {
					add(k, wd, res, -v)
				}
			}
		}
		add("bool", 1, res, true)
		add("bool", 8, res, false)
		add("float32", 32, res, float64(-3.5))
		add("float64", 64, res, float64(1.0/3))
	}
	return s.jobs(tlLangs, what, tlOpts(), 6)
}

func c21(w *World, r *Report) {
	r.Explain = tlExplain + "Every bit of the decoded number above the field's width must be the field's sign bit, with either sign-extension method, for single fields and for array elements, unrolled and looped."
	signed := []string{"int8", "int16", "int32", "int64"}
	var jobs []*tlJob
	for m := int64(0); m <= 2; m++ {
		what := []string{"default", "shift", "arithmetic"}[m] + " sign extension"
		for _, big := range []bool{false, true} {
			s := &tlSuite{max: 100}
			p := tlPick{kinds: signed, big: big}
			if big && !thorough() {
				p.res = []int64{0, 3}
			} else if !thorough() {
				p.res = []int64{0, 1, 3, 6}
			}
			s.fill(p)
			jobs = append(jobs, s.jobs(tlLangs, what+", single", tlOpts("SignExtMethod", aiInt(m)), 6)...)
		}
		for _, un := range []int64{-1, 1} {
			s := &tlSuite{max: 60}
			s.fill(tlPick{kinds: signed, arr: 2, res: []int64{0, 3}, widths: func(k string) []int64 {
				W := int64(scB(k).width())
				var o []int64
				for x := int64(1); x <= W; x++ {
					if thorough() || W < 32 || x%3 == 0 || x%8 <= 1 || x%8 == 7 {
						o = append(o, x)
					}
				}
				return o
			}})
			sh := ", unrolled array"
			if un >= 0 {
				sh = ", looped array"
			}
			jobs = append(jobs, s.jobs(tlLangs, what+sh, tlOpts("SignExtMethod", aiInt(m), "LoopUnroll", aiInt(un)), 4)...)
		}
	}
	for _, j := range jobs {
		j.roles = []string{"decode"}
	}
	w.tlRunJobs(jobs)
	r.tlJudge(jobs, tlVerdict{rule: "sign extension", cls: map[string]bool{"ext": true, "unset": true}, name: func(j *tlJob, role string, l *tlLeaf) string {
		return tlKey(j.lang, role, l) + ", " + strings.SplitN(j.what, ",", 2)[0]
	}})
	r.tlFloor("sign extension", jobs, 800)
}
