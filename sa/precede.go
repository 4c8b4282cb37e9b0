package main

// Interprocedural "must have happened before" analysis.

import (
	"golang.org/x/tools/go/ssa"
)

type precede struct {
	w       *World
	event   func(ssa.Instruction) bool
	exec    map[*ssa.Function]int // 1 yes, 2 no, 3 busy
	callers map[*ssa.Function][]ssa.CallInstruction
	before  map[ssa.Instruction]int
}

func newPrecede(w *World, event func(ssa.Instruction) bool) *precede {
	p := &precede{w: w, event: event, exec: map[*ssa.Function]int{}, before: map[ssa.Instruction]int{}}
	p.callers = w.callersOf()
	return p
}

// callersOf maps each repository function to the calls that may reach it.
func (w *World) callersOf() map[*ssa.Function][]ssa.CallInstruction {
	if w.callers != nil {
		return w.callers
	}
	w.callers = map[*ssa.Function][]ssa.CallInstruction{}
	for _, fn := range sortedFns(w.ToolFuncs()) {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					for _, g := range w.CG().Callees(ci) {
						w.callers[g] = append(w.callers[g], ci)
					}
				}
			}
		}
	}
	return w.callers
}

// step: the event certainly happened when i has completed (given before).
func (p *precede) step(i ssa.Instruction) bool {
	if p.event(i) {
		return true
	}
	if ci, ok := i.(*ssa.Call); ok {
		cs := p.w.CG().Callees(ci)
		if len(cs) == 0 {
			return false
		}
		for _, g := range cs {
			if !p.w.InRepo(g) || !p.mustExec(g) {
				return false
			}
		}
		return true
	}
	return false
}

// flow computes, per block, whether the event happened at its entry.
func (p *precede) flow(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{}
	out := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		in[b], out[b] = true, true
	}
	in[fn.Blocks[0]] = false
	for ch := true; ch; {
		ch = false
		for _, b := range fn.Blocks {
			v := b.Index != 0
			for _, q := range b.Preds {
				v = v && out[q]
			}
			if b.Index == 0 {
				v = false
			}
			o := v
			if !o {
				for _, i := range b.Instrs {
					if p.step(i) {
						o = true
						break
					}
					if _, ok := isCall(i, "os.Exit"); ok {
						o = true // nothing follows
						break
					}
				}
			}
			if v != in[b] || o != out[b] {
				in[b], out[b] = v, o
				ch = true
			}
		}
	}
	return in
}

func (p *precede) mustExec(fn *ssa.Function) bool {
	if fn.Blocks == nil {
		return false
	}
	switch p.exec[fn] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	p.exec[fn] = 3
	in := p.flow(fn)
	res := true
	for _, b := range fn.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); !ok {
			continue
		}
		o := in[b]
		for _, i := range b.Instrs {
			o = o || p.step(i)
		}
		res = res && o
	}
	p.exec[fn] = 2
	if res {
		p.exec[fn] = 1
	}
	return res
}

// Before: the event happens before site on every path from the entry point.
func (p *precede) Before(site ssa.Instruction) bool {
	switch p.before[site] {
	case 1:
		return true
	case 2:
		return false
	case 3:
		return true // recursion: decided by the other callers
	}
	p.before[site] = 3
	fn := site.Parent()
	in := p.flow(fn)
	ok := in[site.Block()]
	for _, i := range site.Block().Instrs {
		if ok || i == site {
			break
		}
		ok = p.step(i)
	}
	if !ok {
		cs := p.callers[fn]
		ok = len(cs) > 0
		for _, c := range cs {
			ok = ok && p.Before(c)
		}
	}
	p.before[site] = 2
	if ok {
		p.before[site] = 1
	}
	return ok
}

// callEvent matches calls to any of the given functions.
func callEvent(fns ...*ssa.Function) func(ssa.Instruction) bool {
	return func(i ssa.Instruction) bool {
		ci, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		f := ci.Common().StaticCallee()
		for _, g := range fns {
			if g != nil && f == g {
				return true
			}
		}
		return false
	}
}
