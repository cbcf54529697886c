package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// errResult: the position of a signature's error result, or -1.
func errResult(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && isErrorT(sig.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

// carriers: the functions with an error result that reach a leaf call and
// satisfy keep; a failure of the leaf is theirs to report.
func (c *Check) carriers(leaf func(cc *ssa.CallCommon) bool, keep func(f *ssa.Function) bool) map[*ssa.Function]bool {
	set := map[*ssa.Function]bool{}
	for f := range c.p.reachesStatic(leaf) {
		if errResult(f.Signature) >= 0 && !c.p.isGen(f.Pos()) && keep(f) {
			set[f] = true
		}
	}
	return set
}

// reachesStatic: functions that may make a leaf call themselves or through the
// functions they call (passing a function on counts as calling it).
func (p *Prog) reachesStatic(leaf func(cc *ssa.CallCommon) bool) map[*ssa.Function]bool {
	return p.reachesCall(leaf)
}

// propagate: in every function, on every error-free way out, no leaf call and
// no call of a carrier may have failed.
func (c *Check) propagate(rule string, leaf func(cc *ssa.CallCommon) bool, carrier map[*ssa.Function]bool, skip func(f *ssa.Function) bool, extra func(e *Engine, st *State, ev *Event) string) {
	hit := func(cc *ssa.CallCommon) bool {
		if leaf(cc) {
			return true
		}
		for _, t := range c.p.targets(cc) {
			if carrier[t] {
				return true
			}
		}
		return false
	}
	var start []*ssa.Function
	for _, f := range c.p.AllFuncs {
		if skip(f) || f.Blocks == nil {
			continue
		}
		has := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && hit(ci.Common()) {
					has = true
				}
			}
		}
		if has {
			start = append(start, f)
		}
	}
	sort.Slice(start, func(i, j int) bool { return start[i].Pos() < start[j].Pos() })
	for _, f := range start {
		c.propagateIn(rule, f, hit, extra)
	}
}

func (c *Check) propagateIn(rule string, f *ssa.Function, hit func(cc *ssa.CallCommon) bool, extra func(e *Engine, st *State, ev *Event) string) {
	type site struct {
		call ssa.CallInstruction
		bad  string
		at   string
	}
	sites := map[string]*site{}
	var order []string
	key := func(in ssa.CallInstruction) string { return c.p.pos(in.Pos()) }
	var e *Engine
	h := Hooks{
		Call: func(st *State, ci *CallInfo) Action {
			if ci.Site != nil && hit(ci.Site.Common()) {
				return Opaque
			}
			return Default
		},
		After: func(st *State, ci *CallInfo, r *Expr) {
			if ci.Site == nil || ci.In != f || !hit(ci.Site.Common()) {
				return
			}
			k := key(ci.Site)
			if sites[k] == nil {
				sites[k] = &site{call: ci.Site}
				order = append(order, k)
			}
			if ci.Go || ci.Defer {
				return
			}
			st.record(Event{Kind: "must", Pending: extra == nil, Name: ci.Name, Args: ci.Args, Res: r, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx, Err: e.errOf(ci.Site, r)})
		}}
	e = newEngine(c.p, h)
	exits := e.Run(f)
	c.useBounded(e)
	if errResult(f.Signature) < 0 {
		for _, k := range order {
			sites[k].bad = "its failure cannot be reported: " + fnName(f) + " has no error result"
			sites[k].at = c.p.pos(f.Pos())
		}
	} else {
		for _, x := range e.okExits(f, exits) {
			for _, ev := range x.st.events("must") {
				s := sites[c.p.pos(ev.Pos)]
				if s == nil || s.bad != "" {
					continue
				}
				if ev.Err != nil && x.st.isNil(ev.Err) != 1 && !otherError(x.st, ev.Err) {
					s.bad = "its failure is not reported"
					s.at = c.p.pos(x.pos)
					continue
				}
				if extra != nil {
					if w := extra(e, x.st, ev); w != "" {
						s.bad, s.at = w, c.p.pos(x.pos)
					}
				}
			}
		}
	}
	for _, k := range order {
		s := sites[k]
		c.ob(rule, fmt.Sprintf("%s:%s", fnName(f), calleeName(s.call.Common())), s.call.Pos(), s.bad == "", s.bad+" (way out: "+s.at+")")
	}
}

// otherError: err is known to be an error kind this module declares itself -
// an answer about the message or request at hand, not a failure of the
// operating system.
func otherError(st *State, err *Expr) bool {
	own := func(s string) bool {
		return strings.Contains(s, Mod) || strings.HasPrefix(s, "ts.") || strings.HasPrefix(s, "ts/")
	}
	for b, v := range st.bf {
		if !v {
			continue
		}
		switch {
		case b.k == KExtract && b.n == 1 && b.a[0].k == KAssert && b.a[0].a[0] == err:
			if own(b.a[0].s) {
				return true
			}
		case b.k == KCall && (b.s == "errors.Is" || b.s == "errors.As") && len(b.a) == 2 && b.a[0] == err:
			t := b.a[1]
			for t.k == KConv || t.k == KIface {
				t = t.a[0]
			}
			if t.k == KLoad && t.a[0].k == KGlobal && own(t.a[0].s) || t.t != nil && own(t.t.String()) {
				return true
			}
		}
	}
	return false
}
