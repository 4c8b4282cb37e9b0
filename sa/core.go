package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/xaxys/bubbler"

// World is everything loaded from the repository under analysis.
type World struct {
	mutFields   map[string]bool
	mutTypes    map[string]bool
	Repo        string
	Pkgs        map[string]*packages.Package // by path relative to the module ("" is main)
	SSA         map[string]*ssa.Package
	Prog        *ssa.Program
	Fset        *token.FileSet
	Funcs       []*ssa.Function // every function with a body that belongs to the repository
	vx          *Eval
	tm          any
	newMaps     map[string]*ssa.Function
	newMapsOnce sync.Once
	cg          any
	callers     map[*ssa.Function][]ssa.CallInstruction
}

func relPath(p string) string {
	return strings.TrimPrefix(strings.TrimPrefix(p, modPath), "/")
}

func Load(repo string) (*World, error) {
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule | packages.NeedDeps,
		Dir:  repo,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local",
			"GOWORK=off", "CGO_ENABLED=0"),
	}
	// the tool itself: main and everything it needs; the end-to-end driver under
	// e2e is test code and is not analysed.
	ps, err := packages.Load(cfg, ".", "./...")
	if err != nil {
		return nil, err
	}
	w := &World{Repo: repo, Pkgs: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}}
	var keep []*packages.Package
	for _, p := range ps {
		if strings.HasPrefix(relPath(p.PkgPath), "e2e") {
			continue
		}
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s does not type-check: %v", p.PkgPath, e)
		}
		keep = append(keep, p)
	}
	prog, spkgs := ssautil.AllPackages(keep, ssa.InstantiateGenerics)
	prog.Build()
	w.Prog = prog
	w.Fset = prog.Fset
	for i, p := range keep {
		w.Pkgs[relPath(p.PkgPath)] = p
		w.SSA[relPath(p.PkgPath)] = spkgs[i]
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil || !w.InRepo(fn) {
			continue
		}
		w.Funcs = append(w.Funcs, fn)
	}
	sort.Slice(w.Funcs, func(i, j int) bool { return w.Funcs[i].String() < w.Funcs[j].String() })
	w.vx = NewEval(w)
	return w, nil
}

func pkgOf(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
		if r := f.Signature.Recv(); r != nil {
			if n := namedOf(r.Type()); n != nil {
				return n.Obj().Pkg()
			}
		}
	}
	return nil
}

func (w *World) InRepo(fn *ssa.Function) bool {
	p := pkgOf(fn)
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

func (w *World) RelPkg(fn *ssa.Function) string {
	if p := pkgOf(fn); p != nil {
		return relPath(p.Path())
	}
	return ""
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// typeName renders a type relative to the module: "*definition.Struct".
func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		r := relPath(p.Path())
		if i := strings.LastIndex(r, "/"); i >= 0 {
			r = r[i+1:]
		}
		if r == "" && p.Path() == modPath {
			r = "main"
		}
		return r
	})
}

// fnName is a stable readable name for a function: "(CGenerator).GenerateUnit".
func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/generator/target/", "")
	s = strings.ReplaceAll(s, modPath+"/generator/", "")
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "main.")
	return s
}

func (w *World) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := w.Fset.Position(p)
	r, err := filepath.Rel(w.Repo, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

// Fn finds a function by package, receiver type name ("" for none) and name.
// A pointer-receiver method and a value-receiver method are both found.
func (w *World) Fn(pkg, recv, name string) *ssa.Function {
	sp := w.SSA[pkg]
	if sp == nil {
		return nil
	}
	if recv == "" {
		return sp.Func(name)
	}
	t := sp.Type(recv)
	if t == nil {
		return nil
	}
	return w.Method(t.Type(), name)
}

// Method finds the declared (not promoted) method of a named type.
func (w *World) Method(t types.Type, name string) *ssa.Function {
	n := namedOf(t)
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return w.Prog.FuncValue(n.Method(i))
		}
	}
	return nil
}

func (w *World) NamedType(pkg, name string) *types.Named {
	sp := w.SSA[pkg]
	if sp == nil || sp.Type(name) == nil {
		return nil
	}
	n, _ := types.Unalias(sp.Type(name).Type()).(*types.Named)
	return n
}

// instrPos gives a usable position for any instruction.
func instrPos(i ssa.Instruction) token.Pos {
	if i.Pos().IsValid() {
		return i.Pos()
	}
	b := i.Block()
	if b == nil {
		return i.Parent().Pos()
	}
	for _, j := range b.Instrs {
		if j.Pos().IsValid() {
			return j.Pos()
		}
	}
	return i.Parent().Pos()
}

// ---------------------------------------------------------------- reports

type Finding struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Where     string `json:"where"`
	What      string `json:"what"`
}

type Report struct {
	Prop        string
	W           *World
	Obl         map[string]int
	OblOrder    []string
	Samples     []string
	Bads        []Finding
	Assumptions []string
	Explain     string
	Analysed    map[string]bool
	Undec       map[string]int
}

func NewReport(prop string, w *World) *Report {
	return &Report{Prop: prop, W: w, Obl: map[string]int{}, Analysed: map[string]bool{}}
}

func (r *Report) count(rule string) {
	if _, ok := r.Obl[rule]; !ok {
		r.OblOrder = append(r.OblOrder, rule)
	}
	r.Obl[rule]++
}

// OK records a discharged obligation.
func (r *Report) OK(rule, construct string, detail ...string) {
	r.count(rule)
	r.Analysed[construct] = true
	n := 0
	for _, s := range r.Samples {
		if strings.HasPrefix(s, rule+":") {
			n++
		}
	}
	if n < 4 {
		r.Samples = append(r.Samples, rule+": "+construct+" "+strings.Join(detail, " "))
	}
}

// Bad records an obligation that does not hold.
func (r *Report) Bad(rule, construct, where, what string) {
	r.count(rule)
	for _, b := range r.Bads {
		if b.Rule == rule && b.Construct == construct && b.What == what {
			return
		}
	}
	r.Bads = append(r.Bads, Finding{rule, construct, where, what})
}

// Check is OK or Bad depending on cond.
func (r *Report) Check(cond bool, rule, construct, where, what string) bool {
	if cond {
		r.OK(rule, construct)
	} else {
		r.Bad(rule, construct, where, what)
	}
	return cond
}

// undecided records something the analysis could not follow; it is reported in
// the evidence and raises no alarm.
func (r *Report) undecided(what string) {
	if r.Undec == nil {
		r.Undec = map[string]int{}
	}
	r.Undec[what]++
}

// Floor demands that a rule found at least n instances; otherwise the rule has
// lost its anchor in the code and the property is not decided.
func (r *Report) Floor(rule string, n int) {
	if r.Obl[rule] < n {
		r.Bad("anchor", rule, "-", fmt.Sprintf("rule %q applied to %d constructs, at least %d expected: the construct it decides is gone or no longer recognised", rule, r.Obl[rule], n))
	}
}

type Known struct {
	Property  string `json:"property"`
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	What      string `json:"what"`
}

type KnownFile struct {
	Findings []Known  `json:"findings"`
	Fixed    []string `json:"fixed"`
}

func loadKnown(dir string) KnownFile {
	var k KnownFile
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &k); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			os.Exit(2)
		}
	}
	return k
}

// Finish prints the verdict, writes the evidence file and returns the exit code.
func (r *Report) Finish(dir string, start time.Time, tier string, seed int, technique string) int {
	known := loadKnown(dir)
	var fresh []Finding
	type kf struct{ f Finding }
	knownSeen := 0
	sort.SliceStable(r.Bads, func(i, j int) bool {
		a, b := r.Bads[i], r.Bads[j]
		return a.Rule+a.Construct+a.What < b.Rule+b.Construct+b.What
	})
	for _, b := range r.Bads {
		matched := false
		for _, k := range known.Findings {
			if k.Property == r.Prop && k.Rule == b.Rule && k.Construct == b.Construct {
				matched = true
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%s)\n", r.Prop, b.Construct, k.What, b.Where)
				knownSeen++
				break
			}
		}
		if !matched {
			fresh = append(fresh, b)
		}
	}
	total, disch := 0, 0
	rules := map[string]any{}
	for _, o := range r.OblOrder {
		total += r.Obl[o]
		rules[o] = r.Obl[o]
	}
	disch = total - len(r.Bads)
	var an []string
	for a := range r.Analysed {
		an = append(an, a)
	}
	sort.Strings(an)
	nAn := len(an)
	if len(an) > 60 {
		an = an[:60]
	}
	cov := map[string]any{
		"explanation":            r.Explain + " Deciding technique: " + technique + ". Every count was measured on this run from the current source of /repo.",
		"obligations":            total,
		"discharged":             disch,
		"obligations_by_rule":    rules,
		"constructs_analysed":    nAn,
		"constructs":             an,
		"repo_functions_loaded":  len(r.W.Funcs),
		"repo_packages_loaded":   len(r.W.Pkgs),
		"known_findings_present": knownSeen,
		"samples":                r.Samples,
	}
	if len(r.Undec) > 0 {
		var us []string
		for u := range r.Undec {
			us = append(us, cut(u, 300))
		}
		sort.Strings(us)
		if len(us) > 20 {
			us = us[:20]
		}
		cov["not_followed"] = us
		cov["not_followed_count"] = len(r.Undec)
		fmt.Printf("%s: %d place(s) could not be followed and raise no alarm, e.g. %s\n", r.Prop, len(r.Undec), us[0])
	}
	ev := map[string]any{
		"property": r.Prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(fresh),
		"assumptions": append([]string{}, r.Assumptions...),
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "evidence", r.Prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rep := filepath.Join("evidence", r.Prop+".violation.txt")
	full := filepath.Join(dir, rep)
	os.Remove(full)
	if len(fresh) == 0 {
		fmt.Printf("%s: %d obligations, %d discharged, %d known finding(s)\n", r.Prop, total, disch, knownSeen)
		return 0
	}
	var sb strings.Builder
	for _, f := range fresh {
		fmt.Fprintf(&sb, "rule %s\n  construct %s\n  at %s\n  %s\n", f.Rule, f.Construct, f.Where, f.What)
	}
	os.WriteFile(full, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, full)
	return 1
}
