package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", "effect analysis of every function of the tool: order-sensitive use of map iteration, and calls to sources of nondeterminism", checkC11)
	register("C12", "who-may-call and provenance analysis of file-system, process and network effects", checkC12)
}

var nondetPkgs = []string{"math/rand", "math/rand/v2", "crypto/rand", "hash/maphash", "net", "net/http", "os/user", "os/signal", "unique", "weak"}

var nondetFuncs = map[string]string{
	"time.Now": "clock", "time.Since": "clock", "time.Until": "clock", "time.After": "clock", "time.Tick": "clock", "time.NewTimer": "clock", "time.NewTicker": "clock", "time.AfterFunc": "clock", "time.Sleep": "",
	"os.Getenv": "environment", "os.LookupEnv": "environment", "os.Environ": "environment", "os.ExpandEnv": "environment", "os.Expand": "",
	"os.Getpid": "process id", "os.Getppid": "process id", "os.Hostname": "host name", "os.TempDir": "environment", "os.MkdirTemp": "random name", "os.CreateTemp": "random name", "os.UserHomeDir": "environment", "os.UserCacheDir": "environment", "os.UserConfigDir": "environment", "os.Getuid": "user", "os.Geteuid": "user",
	"syscall.Getenv": "environment", "syscall.Getpid": "process id",
	"runtime.NumGoroutine": "scheduling", "runtime.NumCPU": "host", "runtime.GOMAXPROCS": "host", "runtime.ReadMemStats": "memory", "runtime.Gosched": "scheduling", "runtime.SetFinalizer": "collector", "runtime.AddCleanup": "collector",
	"(reflect.Value).MapKeys": "map order", "(reflect.Value).MapRange": "map order", "(reflect.Value).Seq": "map order", "(reflect.Value).Seq2": "map order", "(reflect.Value).Pointer": "address", "(reflect.Value).UnsafePointer": "address", "(reflect.Value).UnsafeAddr": "address",
	"(*sync.Map).Range": "map order", "maps.Keys": "map order", "maps.Values": "map order", "maps.All": "map order",
	"os.Stat#ModTime": "", "(io/fs.FileInfo).ModTime": "file time",
}

func checkC11(w *World, r *Report) {
	r.Explain = "Every function reachable from main, the package initialisers or by a method call was scanned. A range over a Go map must only do order-insensitive work (update another map under the iterated key, accumulate with a commutative operator, collect and then sort); goroutines, channels, select, clocks, random sources, environment, pointer formatting and reflective map enumeration must not occur. Two runs can then differ only through inputs."
	fns := sortedFns(w.ToolFuncs())
	ranges := 0
	for _, fn := range fns {
		if !w.InRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				name := fnName(fn)
				where := w.Pos(instrPos(i))
				switch v := i.(type) {
				case *ssa.Go:
					r.Bad("no-concurrency", name, where, "starts a goroutine; the interleaving with the rest of the run is not fixed")
				case *ssa.Select:
					r.Bad("no-concurrency", name, where, "select chooses among ready cases at random")
				case *ssa.MakeChan:
					r.Bad("no-concurrency", name, where, "creates a channel")
				case *ssa.Range:
					if _, ok := v.X.Type().Underlying().(*types.Map); ok {
						ranges++
						if why := mapRangeOrder(w, v); why != "" {
							r.Bad("map-order", name+" range "+typeName(v.X.Type()), where, "iterates over a map in an order that changes from run to run, and "+why)
						} else {
							r.OK("map-order", name+" range "+typeName(v.X.Type()), "order-insensitive")
						}
					}
				case ssa.CallInstruction:
					checkNondetCall(w, r, fn, v)
				}
			}
		}
		r.OK("function-scanned", fnName(fn))
	}
	r.Floor("function-scanned", 800)
	r.Assumptions = append(r.Assumptions, "the antlr runtime and the Go standard library are deterministic for fixed inputs (text/template and fmt print maps in key order)")
}

func checkNondetCall(w *World, r *Report, fn *ssa.Function, ci ssa.CallInstruction) {
	n := callName(ci)
	where := w.Pos(instrPos(ci))
	if why, ok := nondetFuncs[n]; ok && why != "" {
		if why == "map order" && collectedAndSorted(ci) {
			r.OK("map-order", fnName(fn)+" "+n, "sorted")
			return
		}
		r.Bad("no-nondet-source", fnName(fn)+" "+n, where, "calls "+n+": its result depends on "+why)
		return
	}
	if f := ci.Common().StaticCallee(); f != nil && f.Pkg != nil {
		for _, p := range nondetPkgs {
			if f.Pkg.Pkg.Path() == p {
				r.Bad("no-nondet-source", fnName(fn)+" "+n, where, "calls "+n+" of package "+p)
				return
			}
		}
	}
	if strings.HasPrefix(n, "fmt.") {
		for k, a := range ci.Common().Args {
			if s, ok := constString(a); ok && strings.HasSuffix(n, "f") && (k == 0 || k == 1) {
				if fmtHasVerb(s, 'p') {
					r.Bad("no-address", fnName(fn)+" "+n, where, "formats a pointer with %p")
				}
			}
		}
		for _, v := range variadicOps(ci.Common()) {
			if mi, ok := v.(*ssa.MakeInterface); ok {
				if p := printsAddress(mi.X.Type(), 0, map[types.Type]bool{}); p != "" {
					r.Bad("no-address", fnName(fn)+" "+n+" "+typeName(mi.X.Type()), where, "prints a value whose default rendering contains a memory address ("+p+")")
				} else {
					r.OK("no-address", fnName(fn)+" "+n)
				}
			}
		}
	}
}

func fmtHasVerb(s string, v byte) bool {
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			continue
		}
		i++
		for i < len(s) && strings.IndexByte("+-# 0123456789.[]*", s[i]) >= 0 {
			i++
		}
		if i < len(s) && s[i] == v {
			return true
		}
	}
	return false
}

// variadicOps lists the values stored into the variadic slice of a call.
func variadicOps(c *ssa.CallCommon) []ssa.Value {
	if len(c.Args) == 0 {
		return nil
	}
	last := c.Args[len(c.Args)-1]
	sl, ok := last.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	type kv struct {
		i int64
		v ssa.Value
	}
	var out []kv
	for _, ref := range *al.Referrers() {
		if ia, ok := ref.(*ssa.IndexAddr); ok {
			idx, _ := constInt(ia.Index)
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
					out = append(out, kv{idx, st.Val})
				}
			}
		}
	}
	res := make([]ssa.Value, len(out))
	for _, e := range out {
		if int(e.i) < len(res) {
			res[e.i] = e.v
		}
	}
	return res
}

func hasMethod(t types.Type, names ...string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		for _, n := range names {
			if ms.At(i).Obj().Name() == n {
				return true
			}
		}
	}
	return false
}

func printsAddress(t types.Type, depth int, seen map[types.Type]bool) string {
	if hasMethod(t, "String", "Error", "Format") || seen[t] {
		return ""
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if depth > 0 {
			return typeName(t)
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array, *types.Slice, *types.Map:
			return printsAddress(u.Elem(), depth+1, seen)
		}
		return typeName(t)
	case *types.Chan, *types.Signature:
		return typeName(t)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if s := printsAddress(u.Field(i).Type(), depth+1, seen); s != "" {
				return s
			}
		}
	case *types.Slice:
		return printsAddress(u.Elem(), depth+1, seen)
	case *types.Array:
		return printsAddress(u.Elem(), depth+1, seen)
	case *types.Map:
		if s := printsAddress(u.Key(), depth+1, seen); s != "" {
			return s
		}
		return printsAddress(u.Elem(), depth+1, seen)
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return "unsafe.Pointer"
		}
	}
	return ""
}

// collectedAndSorted: the iterator is handed to slices.Sorted*.
func collectedAndSorted(ci ssa.CallInstruction) bool {
	v, ok := ci.(ssa.Value)
	if !ok || v.Referrers() == nil {
		return false
	}
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.DebugRef:
		case ssa.CallInstruction:
			if n := callName(x); strings.HasPrefix(n, "slices.Sorted") {
				continue
			}
			if n := callName(x); n == "slices.Collect" {
				if xv, ok := x.(ssa.Value); ok && isSortedLater(xv) {
					continue
				}
			}
			return false
		case *ssa.ChangeType:
			for _, u2 := range *x.Referrers() {
				if c, ok := u2.(ssa.CallInstruction); !ok || !strings.HasPrefix(callName(c), "slices.Sorted") {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func isSortCall(i ssa.Instruction) bool {
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	n := callName(ci)
	switch n {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc":
		return true
	}
	return false
}

// isSortedLater: v (a slice) reaches a sorting call, directly or through phis/conversions.
func isSortedLater(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			if isSortCall(u) {
				return true
			}
			switch x := u.(type) {
			case *ssa.Phi:
				if rec(x) {
					return true
				}
			case *ssa.MakeInterface:
				if rec(x) {
					return true
				}
			case *ssa.ChangeType:
				if rec(x) {
					return true
				}
			case *ssa.Slice:
				if rec(x) {
					return true
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) > 0 && x.Call.Args[0] == v {
					if rec(x) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(v)
}

// mapRangeOrder explains why the work done by a range over a map depends on
// the iteration order ("" when it does not).
func mapRangeOrder(w *World, rg *ssa.Range) string {
	var next *ssa.Next
	for _, u := range *rg.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	h := next.Block()
	loop := naturalLoop(h)
	if loop == nil {
		return "" // runs at most once through
	}
	// blocks from which the loop is left early are examined with the loop
	for b := range loop {
		for _, i := range b.Instrs {
			switch v := i.(type) {
			case *ssa.Phi:
				if b == h && !commutativePhi(v, loop) && !sortedAccum(v, loop) {
					return "carries a value from one element to the next (" + w.Pos(v.Pos()) + ")"
				}
			case *ssa.MapUpdate:
				if !derivesFrom(v.Key, next, 0) {
					return "updates a map under a key that is not the iterated one (" + w.Pos(v.Pos()) + ")"
				}
			case *ssa.Store:
				if !localAddr(v.Addr, loop) {
					return "stores to memory that outlives the iteration (" + w.Pos(v.Pos()) + ")"
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Panic:
				return "has an effect whose order is visible (" + w.Pos(instrPos(i)) + ")"
			case *ssa.Return:
			case ssa.CallInstruction:
				if !pureCall(w, v, 0) {
					return "calls " + callName(v) + ", whose effect order is visible (" + w.Pos(instrPos(i)) + ")"
				}
			}
		}
	}
	// early exits must not reveal which element came first
	for b := range loop {
		if b == h {
			continue
		}
		for _, s := range b.Succs {
			if loop[s] {
				continue
			}
			for k, i := range s.Instrs {
				switch v := i.(type) {
				case *ssa.Return:
					for _, x := range v.Results {
						if _, ok := x.(*ssa.Const); !ok {
							return "returns a value chosen by the element met first (" + w.Pos(v.Pos()) + ")"
						}
					}
				case *ssa.Phi:
					for pi, e := range v.Edges {
						if s.Preds[pi] == b {
							if _, ok := e.(*ssa.Const); !ok {
								return "leaves the loop with a value chosen by the element met first"
							}
						}
					}
				default:
					_ = k
				}
			}
		}
	}
	return ""
}

func derivesFrom(v ssa.Value, next ssa.Value, d int) bool {
	if v == next {
		return true
	}
	if d > 6 {
		return false
	}
	i, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range i.Operands(nil) {
		if *op != nil && derivesFrom(*op, next, d+1) {
			return true
		}
	}
	return false
}

func localAddr(a ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	switch v := a.(type) {
	case *ssa.Alloc:
		return loop[v.Block()]
	case *ssa.FieldAddr:
		return localAddr(v.X, loop)
	case *ssa.IndexAddr:
		return localAddr(v.X, loop)
	}
	return false
}

func commutativePhi(p *ssa.Phi, loop map[*ssa.BasicBlock]bool) bool {
	okType := false
	if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0 {
		okType = true
	}
	if !okType {
		return false
	}
	for i, e := range p.Edges {
		if !loop[p.Block().Preds[i]] {
			continue
		}
		if e == p {
			continue
		}
		if !commutes(e, p, 0) {
			return false
		}
	}
	return true
}

func commutes(e ssa.Value, p *ssa.Phi, d int) bool {
	if e == p {
		return true
	}
	if d > 5 {
		return false
	}
	switch v := e.(type) {
	case *ssa.Const:
		return true // flag set to a constant
	case *ssa.BinOp:
		switch v.Op {
		case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
			return (commutes(v.X, p, d+1) && !derivesFrom(v.Y, p, 0)) || (commutes(v.Y, p, d+1) && !derivesFrom(v.X, p, 0))
		}
	case *ssa.Phi:
		for _, x := range v.Edges {
			if !commutes(x, p, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// sortedAccum: the loop only appends to a slice that is sorted afterwards.
func sortedAccum(p *ssa.Phi, loop map[*ssa.BasicBlock]bool) bool {
	if _, ok := p.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	for _, u := range *p.Referrers() {
		if i := u.(ssa.Instruction); !loop[i.Block()] && !isSortCall(i) {
			// used after the loop: must be dominated by a sort
			ok := false
			for _, u2 := range *p.Referrers() {
				if s := u2.(ssa.Instruction); isSortCall(s) && s.Block().Dominates(i.Block()) {
					ok = true
				}
				if mi, is := u2.(*ssa.MakeInterface); is {
					for _, u3 := range *mi.Referrers() {
						if isSortCall(u3) && u3.Block().Dominates(i.Block()) {
							ok = true
						}
					}
				}
			}
			if !ok {
				return false
			}
		}
	}
	return isSortedLater(p)
}

var pureExt = []string{"strings.", "strconv.", "unicode.", "fmt.Sprint", "fmt.Sprintf", "fmt.Errorf", "errors.", "math.", "path.", "len", "cap", "min", "max", "reflect.TypeOf"}

func pureCall(w *World, ci ssa.CallInstruction, depth int) bool {
	n := callName(ci)
	if b, ok := ci.Common().Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap", "min", "max", "append", "delete", "real", "imag", "complex", "ssa:wrapnilchk":
			return true
		}
		return false
	}
	for _, p := range pureExt {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	if depth > 4 {
		return false
	}
	cs := w.CG().Callees(ci)
	if len(cs) == 0 {
		return false
	}
	for _, f := range cs {
		if !w.InRepo(f) || f.Blocks == nil {
			return false
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch v := i.(type) {
				case *ssa.Store:
					if !rootedLocal(v.Addr) {
						return false
					}
				case *ssa.MapUpdate:
					if _, ok := v.Map.(*ssa.MakeMap); !ok {
						return false
					}
				case *ssa.Go, *ssa.Send, *ssa.Defer, *ssa.Select:
					return false
				case ssa.CallInstruction:
					if !pureCall(w, v, depth+1) {
						return false
					}
				}
			}
		}
	}
	return true
}

func rootedLocal(a ssa.Value) bool {
	switch v := a.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return rootedLocal(v.X)
	case *ssa.IndexAddr:
		return rootedLocal(v.X)
	}
	return false
}
