package main

import (
	"fmt"
	"sort"
)

type dynJob struct {
	lang    string
	what    string
	d       *dynSuite
	opts    map[string]any
	copy    bool // decoded text and bytes must be copies
	roles   []string
	only    map[string]bool // structures to check; nil: all
	skip    map[string]bool
	pre     func(t *TL)
	checked bool   // reads of decoders must be preceded by a length check
	un      *int64 // the loop threshold, when the shape of the code is checked
	shapes  map[string][2]int
	bad     []dynJobBad
	undec   []string
	parts   map[string]int // role + kind of part -> how many
	paths   int
}

type dynJobBad struct {
	st, role, cls, part, what string
}

var dynRoles = []string{"encode", "decode", "encode_size", "decode_size"}

func (w *World) dynDo(j *dynJob) {
	defer func() {
		if r := recover(); r != nil {
			j.undec = append(j.undec, fmt.Sprintf("%s: %v", j.lang, r))
		}
	}()
	j.parts = map[string]int{}
	p, err := w.tlEmit(nil, j.lang, j.d.u, j.d.types, j.opts)
	if err != nil {
		j.undec = append(j.undec, err.Error())
		return
	}
	roles := j.roles
	if roles == nil {
		roles = dynRoles
	}
	for _, name := range j.d.order {
		if j.only != nil && !j.only[name] || j.skip[name] {
			continue
		}
		st := j.d.sts[name]
		parts, _ := dynParts(st)
		for _, role := range roles {
			ps := p.run(st, name, role, nil, 6000, j.pre)
			for i := range parts {
				j.parts[role+" of "+parts[i].desc()]++
			}
			j.paths += len(ps)
			seen := map[string]bool{}
			ended := 0
			for i := range ps {
				x := &ps[i]
				if x.Err != "" {
					j.undec = append(j.undec, fmt.Sprintf("%s %s.%s: %s", j.lang, name, role, x.Err))
					continue
				}
				if x.Cut != "" {
					if x.Cut == "negative length" && j.checked && !(role == "decode" && sized(x)) {
						x.Cut = "a length taken from the input can be negative"
						if !seen[x.Cut] {
							seen[x.Cut] = true
							j.bad = append(j.bad, dynJobBad{name, role, "negative", "bytes", x.Cut})
						}
					}
					continue
				}
				ended++
				var bs []dynBad
				switch role {
				case "encode":
					bs = dynEncode(x, j.lang, st)
				case "decode":
					bs = dynDecode(x, j.lang, st, j.copy)
				default:
					bs = dynSize(x, j.lang, st)
				}
				if j.checked && role == "decode" && j.lang != "c" && j.lang != "cpp" {
					bs = append(bs, dynChecked(x, j.lang, st)...)
				}
				if j.un != nil {
					bs = append(bs, dynShape(j, x, role, st)...)
				}
				for _, n := range x.Notes {
					if role != "decode_size" {
						bs = append(bs, dynBad{nil, "note", n})
					}
				}
				for _, b := range bs {
					part := "the whole"
					if b.part != nil {
						part = b.part.desc()
					}
					k := b.cls + part + stripNum(b.what)
					if !seen[k] {
						seen[k] = true
						j.bad = append(j.bad, dynJobBad{name, role, b.cls, part, b.what})
					}
				}
			}
			if ended == 0 {
				j.undec = append(j.undec, fmt.Sprintf("%s %s.%s: no path could be followed to its end", j.lang, name, role))
			}
		}
	}
}

func (w *World) dynRun(jobs []*dynJob) { parallel(len(jobs), func(i int) { w.dynDo(jobs[i]) }) }

// dynJudge turns results into obligations: one per target, role and kind of
// part.
func (r *Report) dynJudge(rule string, jobs []*dynJob, cls map[string]bool) {
	type grp struct {
		n   int
		bad []string
	}
	gs := map[string]map[string]*grp{}
	get := func(lang, k string) *grp {
		if gs[lang] == nil {
			gs[lang] = map[string]*grp{}
		}
		if gs[lang][k] == nil {
			gs[lang][k] = &grp{}
		}
		return gs[lang][k]
	}
	for _, j := range jobs {
		for _, u := range j.undec {
			r.undecided(u)
		}
		for k, n := range j.parts {
			get(j.lang, k).n += n
		}
		for _, b := range j.bad {
			if !cls[b.cls] {
				continue
			}
			g := get(j.lang, b.role+" of "+b.part)
			g.bad = append(g.bad, b.what+" ("+b.st+"; "+j.what+")")
		}
	}
	for _, lang := range tlLangs {
		var ks []string
		for k := range gs[lang] {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			g := gs[lang][k]
			if len(g.bad) == 0 {
				r.OK(rule, lang+" "+k, fmt.Sprintf("%d parts", g.n))
				continue
			}
			sort.Strings(g.bad)
			r.Bad(rule, lang+" "+k, tlWhere(lang), fmt.Sprintf("%s (%d more)", g.bad[0], len(g.bad)-1))
		}
	}
}

func dynJobs(d *dynSuite, what string, opts map[string]any, cp bool) (js []*dynJob) {
	for _, l := range tlLangs {
		js = append(js, &dynJob{lang: l, what: what, d: d, opts: opts, copy: cp})
	}
	return
}

// tlDynCheck: everything at once, for development.
func (w *World) tlDynCheck(args []string) {
	un := int64(8)
	cp := false
	if len(args) > 1 {
		fmt.Sscan(args[1], &un)
	}
	if len(args) > 2 {
		cp = args[2] == "copy"
	}
	js := dynJobs(dynBase(), "x", tlOpts("LoopUnroll", aiInt(un), "MemoryCopy", cp), cp)
	var run []*dynJob
	for _, j := range js {
		if args[0] == "all" || args[0] == j.lang {
			run = append(run, j)
		}
	}
	w.dynRun(run)
	for _, j := range run {
		fmt.Println("==", j.lang, j.paths)
		for i, u := range j.undec {
			if i < 4 {
				fmt.Println("  undecided", u)
			}
		}
		for i, b := range j.bad {
			if i < 14 {
				fmt.Println("  ", b.st, b.role, b.cls, "|", b.part, "|", b.what)
			}
		}
	}
}

// dynChecked: a decoder reads nothing before its input is known to suffice.
func dynChecked(p *tlPath, lang string, st *scStruct) []dynBad {
	d := newDynWalk(p, lang)
	own := false
	for _, e := range p.Events {
		if e.kind == "own decode_size" {
			own = true
			if !e.fail && e.at.String() != d.base.String() {
				d.fault("unchecked", "the size is asked for the input at %s, not at %s", e.at, d.base)
			}
			break
		}
		if e.kind == "nested decode" {
			d.fault("unchecked", "%s is decoded before the length of the input is checked", e.path)
			break
		}
	}
	if own {
		return d.bad
	}
	_, total := dynParts(st)
	if !st.dynamic && d.t.holds(d.t.size.add(d.at(total), -1)) {
		return d.bad
	}
	if len(p.Reads) > 0 || len(p.Fields) > 0 {
		d.fault("unchecked", "the input is read without its length having been checked")
	}
	return d.bad
}

// dynShape: how the elements of arrays are named.
func dynShape(j *dynJob, p *tlPath, role string, st *scStruct) []dynBad {
	var out []dynBad
	if role == "decode" {
		if failed, ok := p.fails(); !ok || failed {
			return nil
		}
	}
	for _, f := range st.fields {
		if f.ty == nil || f.ty.kind != "array" {
			continue
		}
		s := p.TL.shape[f.name]
		if s == 0 {
			continue
		}
		loop := *j.un >= 0 && f.ty.n > *j.un
		parts, _ := dynParts(st)
		var q *dynPart
		for i := range parts {
			if parts[i].f == f {
				q = &parts[i]
				break
			}
		}
		k := j.lang + " " + role + " of array of " + f.ty.elem.kind
		v := j.shapes[k]
		if loop {
			v[1]++
		} else {
			v[0]++
		}
		j.shapes[k] = v
		switch {
		case loop && s&1 != 0:
			out = append(out, dynBad{q, "shape", fmt.Sprintf("an array of %d is written out under threshold %d", f.ty.n, *j.un)})
		case !loop && s&2 != 0:
			out = append(out, dynBad{q, "shape", fmt.Sprintf("an array of %d is looped under threshold %d", f.ty.n, *j.un)})
		}
	}
	return out
}

// sized: the decoder asked its own size function first and went on; what that
// function accepts is judged there.
func sized(p *tlPath) bool {
	for _, e := range p.Events {
		if e.kind == "own decode_size" && !e.fail {
			return true
		}
	}
	return false
}
