package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// recursive returns the functions reachable from roots that are part of a call cycle, as components.
func (p *Program) recursive(roots ...*ssa.Function) (map[*ssa.Function]int, [][]*ssa.Function) {
	idx := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	comp := map[*ssa.Function]int{}
	var comps [][]*ssa.Function
	n := 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		self := false
		for _, c := range p.callees[f] {
			if c == f {
				self = true
			}
			if idx[c] == 0 {
				visit(c)
				if low[c] < low[f] {
					low[f] = low[c]
				}
			} else if on[c] && idx[c] < low[f] {
				low[f] = idx[c]
			}
		}
		if low[f] == idx[f] {
			var cs []*ssa.Function
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				cs = append(cs, g)
				if g == f {
					break
				}
			}
			if len(cs) > 1 || self {
				sort.Slice(cs, func(i, j int) bool { return p.FuncName(cs[i]) < p.FuncName(cs[j]) })
				for _, g := range cs {
					comp[g] = len(comps)
				}
				comps = append(comps, cs)
			}
		}
	}
	for _, r := range roots {
		if idx[r] == 0 {
			visit(r)
		}
	}
	return comp, comps
}
