package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
)

// The matrix: structures covering field kinds, widths, positions, orders and
// shapes; each is taken through the generators of every target and the emitted
// codecs are compared bit by bit with the wire format.

type tlJob struct {
	lang   string
	what   string // the option set, for messages
	u      *scUnit
	types  map[string]*scType
	sts    []*scStruct
	opts   map[string]any
	roles  []string
	max    int
	visit  func(j *tlJob, p *tlProg, st *scStruct, role string, ps []tlPath) // instead of the comparison
	prog   func(j *tlJob, p *tlProg)
	texts  bool
	res    []tlRes
	undec  []string
	leaves int
}

type tlRes struct {
	st   *scStruct
	role string
	leaf *tlLeaf
	cls  string // wire, ext, unset, outside, note
	what string
}

var tlDirs = map[string]string{"c": "c", "cpp": "cpp", "csharp": "csharp", "commonjs": "commonjs", "esm": "esm", "go": "golang", "java": "java", "kotlin": "kotlin", "python": "python"}

func tlWhere(lang string) string { return "generator/target/" + tlDirs[lang] }

func thorough() bool { return tierName == "thorough" }

// tlRunJobs evaluates the jobs on all processors.
func (w *World) tlRunJobs(jobs []*tlJob) {
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		sem <- true
		go func(j *tlJob) {
			defer func() { <-sem; wg.Done() }()
			w.tlDo(j)
		}(j)
	}
	wg.Wait()
}

func (w *World) tlDo(j *tlJob) {
	defer func() {
		if r := recover(); r != nil {
			j.undec = append(j.undec, fmt.Sprintf("%s: %v", j.lang, r))
		}
	}()
	p, err := w.tlEmit(nil, j.lang, j.u, j.types, j.opts)
	if err != nil {
		j.undec = append(j.undec, err.Error())
		return
	}
	if j.prog != nil {
		j.prog(j, p)
		return
	}
	max := j.max
	if max == 0 {
		max = 300
	}
	roles := j.roles
	if roles == nil {
		roles = []string{"encode", "decode"}
	}
	for _, st := range j.sts {
		ls, total := tlLeaves(st)
		for _, role := range roles {
			ps := p.run(st, st.name, role, nil, max, func(t *TL) { t.zero = false })
			if j.visit != nil {
				j.visit(j, p, st, role, ps)
				continue
			}
			j.leaves += len(ls)
			seen := map[string]bool{}
			for i := range ps {
				x := &ps[i]
				if x.Err != "" {
					j.undec = append(j.undec, fmt.Sprintf("%s %s.%s: %s", j.lang, st.name, role, x.Err))
					continue
				}
				add := func(l *tlLeaf, cls, what string) {
					k := cls + what
					if l != nil {
						k += l.path
					}
					if !seen[k] {
						seen[k] = true
						j.res = append(j.res, tlRes{st, role, l, cls, what})
					}
				}
				for _, n := range x.Notes {
					add(nil, "note", n)
				}
				var ms []tlMismatch
				if role == "encode" {
					ms = x.checkEncode(j.lang, ls, total)
				} else if len(x.Fields) > 0 || len(ps) == 1 {
					ms = x.checkDecode(j.lang, ls)
				}
				for _, m := range ms {
					add(m.leaf, m.cls, m.what)
				}
			}
		}
	}
}

// tlKey groups leaves for reporting: target, role, type, order and shape.
func tlKey(lang, role string, l *tlLeaf) string {
	k := l.ty.kind
	if l.f.kind == "const" {
		k = "constant " + k
	}
	if l.f.ty.kind == "array" {
		k += " array"
	}
	if l.big {
		k += " big-endian"
	}
	return lang + " " + role + " of " + k
}

type tlVerdict struct {
	cls  map[string]bool
	rule string
	pick func(l *tlLeaf) bool
	skip func(l *tlLeaf, cls string) bool
	name func(j *tlJob, role string, l *tlLeaf) string
}

// tlJudge turns the results into obligations: one per target, role, type,
// order and width. Mismatches outside the verdict's classes belong to another
// property.
func (r *Report) tlJudge(jobs []*tlJob, v tlVerdict) {
	type grp struct {
		lang, key string
		n         int
		bad       []string
	}
	gs := map[string]*grp{}
	get := func(j *tlJob, role string, l *tlLeaf) *grp {
		k := tlKey(j.lang, role, l)
		if v.name != nil {
			k = v.name(j, role, l)
		}
		full := k + fmt.Sprintf(" [%d bits]", l.w)
		if gs[full] == nil {
			gs[full] = &grp{lang: j.lang, key: k}
		}
		return gs[full]
	}
	for _, j := range jobs {
		for _, u := range j.undec {
			r.undecided(u)
		}
		roles := j.roles
		if roles == nil {
			roles = []string{"encode", "decode"}
		}
		if len(j.undec) > 0 && j.leaves == 0 {
			continue
		}
		for _, st := range j.sts {
			ls, _ := tlLeaves(st)
			for i := range ls {
				if v.pick != nil && !v.pick(&ls[i]) {
					continue
				}
				for _, role := range roles {
					get(j, role, &ls[i]).n++
				}
			}
		}
		for _, x := range j.res {
			if x.leaf == nil {
				continue
			}
			if !v.cls[x.cls] || v.pick != nil && !v.pick(x.leaf) || v.skip != nil && v.skip(x.leaf, x.cls) {
				continue
			}
			g := get(j, x.role, x.leaf)
			g.bad = append(g.bad, x.leaf.kind()+" ("+j.what+"): "+x.what)
		}
	}
	var ks []string
	for k := range gs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		g := gs[k]
		if len(g.bad) == 0 {
			r.OK(v.rule, k, fmt.Sprintf("%d fields", g.n))
			continue
		}
		sort.Strings(g.bad)
		r.Bad(v.rule, g.key, tlWhere(g.lang), fmt.Sprintf("%s (%d more)", g.bad[0], len(g.bad)-1))
	}
	// what is no field's: bytes outside, notes
	for _, j := range jobs {
		seen := map[string]bool{}
		for _, x := range j.res {
			if x.leaf != nil || !v.cls[x.cls] {
				continue
			}
			k := x.role + stripNum(x.what)
			if seen[k] {
				continue
			}
			seen[k] = true
			r.Bad(v.rule+": "+x.cls, j.lang+" "+x.role, tlWhere(j.lang), x.what+" ("+j.what+")")
		}
	}
}

func stripNum(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c < '0' || c > '9' {
			b.WriteRune(c)
		}
	}
	return b.String()
}

// ---- suites

var intKinds = []string{"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"}

func tlWidths(k string) []int64 {
	W := int64(scB(k).width())
	var out []int64
	for w := int64(1); w <= W; w++ {
		if W == 64 || thorough() {
			out = append(out, w)
			continue
		}
		for _, c := range []int64{1, 2, 3, 5, 7, 8, 9, 11, 13, 15, 16, 17, 20, 23, 24, 25, 29, 31, 32} {
			if c == w {
				out = append(out, w)
			}
		}
	}
	return out
}

type tlPick struct {
	kinds  []string
	big    bool
	arr    int64 // 0: single
	widths func(k string) []int64
	res    []int64
}

func (s *tlSuite) fill(p tlPick) {
	res := p.res
	if res == nil {
		res = []int64{0, 1, 2, 3, 4, 5, 6, 7}
	}
	for _, k := range p.kinds {
		var ws []int64
		switch k {
		case "bool":
			ws = []int64{1, 2, 7, 8}
		case "float32", "float64":
			ws = []int64{int64(scB(k).width())}
		case "enum":
			for w := int64(1); w < 32; w++ {
				ws = append(ws, w)
			}
		case "enum wide":
			for w := int64(32); w <= 64; w++ {
				ws = append(ws, w)
			}
		default:
			if p.widths != nil {
				ws = p.widths(k)
			} else {
				ws = tlWidths(k)
			}
		}
		for _, w := range ws {
			for _, r := range res {
				ty := scB(k)
				if strings.HasPrefix(k, "enum") {
					ty = s.enumT(w)
				}
				if p.arr > 0 {
					s.at(r, &scField{kind: "normal", ty: scArr(ty, p.arr), bits: aiInt(w * p.arr), opts: ord(p.big)})
				} else {
					s.at(r, &scField{kind: "normal", ty: ty, bits: aiInt(w), opts: ord(p.big)})
				}
			}
		}
	}
}

// jobs splits the suite's structures into units of at most n structures, one
// job per target.
func (s *tlSuite) jobs(langs []string, what string, opts map[string]any, per int) []*tlJob {
	s.close()
	var out []*tlJob
	for i := 0; i < len(s.sts); i += per {
		hi := i + per
		if hi > len(s.sts) {
			hi = len(s.sts)
		}
		sts := s.sts[i:hi]
		need := map[string]bool{}
		for _, st := range sts {
			for _, f := range st.fields {
				if f.ty == nil {
					continue
				}
				need[f.ty.name] = true
				if f.ty.elem != nil {
					need[f.ty.elem.name] = true
				}
			}
		}
		u := &scUnit{path: "/w/tst.bb", pkg: []string{"tst"}, structs: append(append([]*scStruct(nil), s.extra...), sts...)}
		types := map[string]*scType{}
		for _, e := range s.enums {
			if need[e.name] {
				u.enums = append(u.enums, e)
				types[e.name] = &scType{kind: "enum", bits: e.bits, name: e.name, enum: e}
			}
		}
		for _, st := range u.structs {
			types[st.name] = &scType{kind: "struct", name: st.name, st: st}
		}
		for _, l := range langs {
			out = append(out, &tlJob{lang: l, what: what, u: u, types: types, sts: sts, opts: opts})
		}
	}
	return out
}

// tlFloor: where everything could be followed, the matrix must have been
// compared in full.
func (r *Report) tlFloor(rule string, jobs []*tlJob, n int) {
	for _, j := range jobs {
		if len(j.undec) > 0 {
			return
		}
	}
	r.Floor(rule, n)
}
