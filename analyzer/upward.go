package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// upwardTo decides obligations located in each start function: first when it
// is entered with unknown arguments; those that do not hold there must hold
// when it is entered from each of its callers (with only the functions on the
// way followed), up to maxUp levels.
func (c *Check) upwardTo(rule string, start []*ssa.Function, run func(root, target *ssa.Function, res *rootResult, relevant map[*ssa.Function]bool), maxUp int, exempt func(f *ssa.Function) bool) {
	type rk struct{ root, target *ssa.Function }
	cache := map[rk]*rootResult{}
	reach := map[*ssa.Function]map[*ssa.Function]bool{}
	get := func(root, f *ssa.Function) *rootResult {
		k := rk{root, f}
		if r, ok := cache[k]; ok {
			return r
		}
		if reach[f] == nil {
			set := map[*ssa.Function]bool{f: true}
			work := []*ssa.Function{f}
			for len(work) > 0 {
				g := work[len(work)-1]
				work = work[:len(work)-1]
				for _, h := range c.p.callers[g] {
					if !set[h] {
						set[h] = true
						work = append(work, h)
					}
				}
				if p := g.Parent(); p != nil && !set[p] {
					set[p] = true
					work = append(work, p)
				}
			}
			reach[f] = set
		}
		r := &rootResult{inst: map[string]instRes{}}
		run(root, f, r, reach[f])
		cache[k] = r
		return r
	}
	for _, f := range start {
		r := get(f, f)
		for _, key := range r.order {
			var decide func(g *ssa.Function, depth int, stack map[*ssa.Function]bool) (bool, instRes)
			decide = func(g *ssa.Function, depth int, stack map[*ssa.Function]bool) (bool, instRes) {
				i, ok := get(g, f).inst[key]
				if !ok || i.ok {
					return true, i
				}
				if depth >= maxUp {
					return i.soft, i
				}
				callers := c.p.callers[g]
				if g.Parent() != nil {
					callers = append([]*ssa.Function{g.Parent()}, callers...)
				}
				n := 0
				for _, h := range callers {
					if h == g || stack[h] || c.p.isGen(h.Pos()) || (exempt != nil && exempt(h)) {
						continue
					}
					if _, reached := get(h, f).inst[key]; !reached {
						continue
					}
					n++
					stack[h] = true
					ok, hi := decide(h, depth+1, stack)
					delete(stack, h)
					if !ok {
						return false, hi
					}
				}
				return n > 0 || i.soft, i
			}
			i := r.inst[key]
			ok, fi := decide(f, 0, map[*ssa.Function]bool{f: true})
			c.rules[rule]++
			if ok {
				c.ok[rule]++
				if len(c.samples) < 60 {
					c.samples = append(c.samples, fmt.Sprintf("%s: %s @%s", rule, key, c.p.pos(i.pos)))
				}
			} else {
				c.fail(rule, key, c.p.pos(fi.pos), fi.detail, fi.path)
			}
		}
	}
}
