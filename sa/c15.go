package main

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
)

func init() {
	register("C15", "abstract interpretation of the generators over ordered pairs of schema files: the text of a file generated after another must be the text generated for it alone", c15)
}

// tlFiles interprets the generators of a target over units and returns the
// files they would write, in order.
func (w *World) tlFiles(lang string, us []*scUnit, opts map[string]any) (fs []aiFile, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("%v", x)
		}
	}()
	outs := w.generate(nil, lang, us, opts, 16)
	if len(outs) != 1 {
		return nil, fmt.Errorf("generation takes %d paths", len(outs))
	}
	o := outs[0]
	if o.It == nil || o.Err != "" {
		return nil, fmt.Errorf("%s", o.Err)
	}
	return o.It.Files, nil
}

// parallel runs f(0..n-1) on all processors.
func parallel(n int, f func(i int)) {
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			f(i)
		}(i)
	}
	wg.Wait()
}

func c15(w *World, r *Report) {
	r.Explain = "The generators' code was interpreted abstractly (no generator is run) over schema files each using one feature, alone and after other files (long runs in several orders, and pairs), and the emitted texts were compared."
	first, second := zqProfiles("P"), zqProfiles("Q")
	optSets := []map[string]any{tlOpts("MinimalCode", false, "LoopUnroll", aiInt(4)), tlOpts("MinimalCode", true, "MemoryCopy", true, "LoopUnroll", aiInt(-1)), tlOpts("CompatibleMode", true, "RelativePath", true, "InnerClass", true, "LoopUnroll", aiInt(4))}
	optNames := []string{"default options", "-minimal -memcpy -unroll -1", "-compat -relpath -inner"}
	type job struct {
		lang  string
		oi    int
		p     profile
		n     int
		undec string
		bad   []string
		want  map[string]string
	}
	var jobs []*job
	for _, l := range tlLangs {
		for oi := range optSets {
			for i := range second {
				jobs = append(jobs, &job{lang: l, oi: oi, p: second[i]})
			}
		}
	}
	parallel(len(jobs), func(k int) {
		j := jobs[k]
		alone, err := w.tlFiles(j.lang, []*scUnit{j.p.u}, optSets[j.oi])
		if err != nil {
			j.undec = err.Error()
			return
		}
		want := map[string]string{}
		for _, f := range alone {
			want[f.Name] += f.Text
		}
		j.want = want
	})
	type run struct {
		lang string
		oi   int
		us   []profile
	}
	var runs []run
	for _, l := range tlLangs {
		for oi := range optSets {
			rot := func(k int) []profile {
				var o []profile
				for i := range second {
					o = append(o, second[(i+k)%len(second)])
				}
				return o
			}
			var rev []profile
			for i := range second {
				rev = append(rev, second[len(second)-1-i])
			}
			runs = append(runs, run{l, oi, append(append([]profile{}, first...), second...)}, run{l, oi, rot(len(second) / 2)}, run{l, oi, rev})
			// direct neighbours
			step := 7
			if thorough() {
				step = 1
			}
			for k := range second {
				for i := k % step; i < len(first); i += step {
					if i%3 == oi || thorough() {
						runs = append(runs, run{l, oi, []profile{first[i], second[k]}})
					}
				}
			}
		}
	}
	idx := map[string]*job{}
	for _, j := range jobs {
		idx[fmt.Sprint(j.lang, j.oi, j.p.name)] = j
	}
	var mu sync.Mutex
	parallel(len(runs), func(k int) {
		x := runs[k]
		var us []*scUnit
		var names []string
		for _, p := range x.us {
			us = append(us, p.u)
			names = append(names, p.name)
		}
		fs, err := w.tlFiles(x.lang, us, optSets[x.oi])
		mu.Lock()
		defer mu.Unlock()
		if err != nil {
			j := idx[fmt.Sprint(x.lang, x.oi, x.us[len(us)-1].name)]
			j.undec = err.Error()
			return
		}
		got := map[string]string{}
		for _, f := range fs {
			got[f.Name] += f.Text
		}
		for i, p := range x.us {
			j := idx[fmt.Sprint(x.lang, x.oi, p.name)]
			if i == 0 || j == nil || j.p.u != p.u {
				continue
			}
			before := "files with " + strings.Join(names[max(0, i-3):i], ", ")
			if i == 1 {
				before = "a file with " + names[0]
			}
			j.n++
			for n, t := range j.want {
				if g, ok := got[n]; !ok {
					j.bad = append(j.bad, fmt.Sprintf("after %s, %s is not generated", before, n))
				} else if g != t {
					j.bad = append(j.bad, fmt.Sprintf("after %s the text of %s (%s) differs from what it is alone: %s", before, n, p.name, firstDiff(t, g)))
				}
			}
		}
	})
	n := 0
	bad := map[string][]string{}
	for _, j := range jobs {
		n += j.n
		if j.undec != "" {
			r.undecided(j.lang + ", " + optNames[j.oi] + ", " + j.p.name + ": " + j.undec)
		}
		for _, b := range j.bad {
			bad[j.lang] = append(bad[j.lang], b+" ["+optNames[j.oi]+"]")
		}
	}
	for _, j := range jobs {
		if j.undec == "" && len(j.bad) == 0 {
			r.OK("a file's text is its own", j.lang+", "+optNames[j.oi]+", "+j.p.name, fmt.Sprintf("after %d other files", j.n))
		}
	}
	for _, l := range tlLangs {
		if len(bad[l]) > 0 {
			r.Bad("a file's text is its own", l+" generator", tlWhere(l), fmt.Sprintf("%s (%d cases)", bad[l][0], len(bad[l])))
		}
	}
	r.Explain += fmt.Sprintf(" %d ordered pairs of files were compared.", n)
	if len(r.Undec) == 0 {
		r.Floor("a file's text is its own", 500)
	}
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) {
			return fmt.Sprintf("line %d %q is missing", i+1, x[i])
		}
		if x[i] != y[i] {
			return fmt.Sprintf("line %d is %q instead of %q", i+1, strings.TrimSpace(y[i]), strings.TrimSpace(x[i]))
		}
	}
	return "it is longer"
}
