package main

// Order of two sites of one traversal.

import "golang.org/x/tools/go/ssa"

// lift finds the innermost common activation of two sites and the two
// instructions of it that lead to them.
func lift(a, b *Site) (ssa.Instruction, ssa.Instruction) {
	pa := append(append([]ssa.Instruction{}, a.Path...), a.Instr)
	pb := append(append([]ssa.Instruction{}, b.Path...), b.Instr)
	k := 0
	for k < len(pa)-1 && k < len(pb)-1 && pa[k] == pb[k] {
		k++
	}
	return pa[k], pb[k]
}

// canFollow: within the activation the two sites share, b may run after a.
func canFollow(a, b *Site) bool {
	ia, ib := lift(a, b)
	return instrReach(ia, ib)
}

func instrReach(ia, ib ssa.Instruction) bool {
	if ia.Parent() != ib.Parent() {
		return true // not comparable: assume so
	}
	if ia.Block() == ib.Block() && instrIndex(ib) > instrIndex(ia) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == ib.Block() {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(ia.Block())
}

// mustPrecede: every path of the shared activation that reaches b ran a first
// (a's own guards inside callees are the caller's business).
func mustPrecede(a, b *Site) bool {
	ia, ib := lift(a, b)
	return instrDominates(ia, ib)
}

func instrDominates(ia, ib ssa.Instruction) bool {
	if ia.Parent() != ib.Parent() {
		return false
	}
	if ia.Block() == ib.Block() {
		return instrIndex(ia) < instrIndex(ib)
	}
	return ia.Block().Dominates(ib.Block())
}

// enclosingLoop finds the innermost loop around a site: the activation that
// contains it, walking the call path upwards, and the instruction in it.
func enclosingLoop(s *Site) (in ssa.Instruction, loop map[*ssa.BasicBlock]bool, head *ssa.BasicBlock) {
	path := append(append([]ssa.Instruction{}, s.Path...), s.Instr)
	for k := len(path) - 1; k >= 0 && loop == nil; k-- {
		for _, h := range loopHeads(path[k].Parent()) {
			l := naturalLoop(h)
			if l[path[k].Block()] && (loop == nil || len(l) < len(loop)) {
				loop, in, head = l, path[k], h
			}
		}
	}
	return
}

// envOf is the environment of the activation of fn the site belongs to.
func envOf(s *Site, fn *ssa.Function) *Env {
	env := s.Env
	for env != nil && env.fn != fn {
		env = env.parent
	}
	return env
}
