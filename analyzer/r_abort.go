package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// abortInstr: the instruction ends the process or panics.
func (p *Prog) abortInstr(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Panic:
		return x.Pos().IsValid() // not the one the compiler puts after a select
	case *ssa.Call:
		if noReturn(calleeName(x.Common())) {
			return true
		}
		if f := x.Common().StaticCallee(); f != nil {
			return p.aborters[f]
		}
	}
	return false
}

// findAborters: functions that cannot return.
func (p *Prog) findAborters() {
	if p.aborters != nil {
		return
	}
	p.aborters = map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range p.AllFuncs {
			if f.Blocks == nil || p.aborters[f] {
				continue
			}
			seen := map[*ssa.BasicBlock]bool{}
			var returns func(b *ssa.BasicBlock) bool
			returns = func(b *ssa.BasicBlock) bool {
				if seen[b] {
					return false
				}
				seen[b] = true
				for _, in := range b.Instrs {
					if p.abortInstr(in) {
						return false
					}
					if _, ok := in.(*ssa.Return); ok {
						return true
					}
				}
				for _, s := range b.Succs {
					if returns(s) {
						return true
					}
				}
				return false
			}
			// a function that only loops for ever is not meant
			if !returns(f.Blocks[0]) {
				for b := range seen {
					for _, in := range b.Instrs {
						if p.abortInstr(in) && !p.aborters[f] {
							p.aborters[f] = true
							ch = true
						}
					}
				}
			}
		}
	}
}

// abortBlock: entering the block means the end.
func (p *Prog) abortBlock(b *ssa.BasicBlock) bool {
	for hops := 0; hops < 8; hops++ {
		for _, in := range b.Instrs {
			if p.abortInstr(in) {
				return true
			}
		}
		if len(b.Succs) != 1 {
			return false
		}
		b = b.Succs[0]
	}
	return false
}

// environment: calls that fail only when the machine does.
func environment(name string, call *Expr) bool {
	if name == "io.ReadFull" && len(call.a) > 0 && call.a[0] != nil {
		r := call.a[0].strip()
		for r.k == KLoad {
			r = r.a[0].strip()
		}
		return r.k == KGlobal && strings.HasSuffix(r.s, "crypto/rand.Reader")
	}
	for _, p := range []string{"os.", "os/exec.", "crypto/rand."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	// a function of ours that works on nothing but such results
	if len(call.a) == 0 {
		return false
	}
	for _, a := range call.a {
		if a == nil || a.k == KConst {
			continue
		}
		r := a.strip()
		for r.k == KLoad || r.k == KExtract || r.k == KIface {
			r = r.a[0].strip()
		}
		if r.k == KGlobal && strings.HasPrefix(r.s, "os.") {
			continue
		}
		if r.k == KCall && r != call && environment(r.s, r) {
			continue
		}
		return false
	}
	return true
}

// noAbort: the process ends, or panics on purpose, only over its environment
// or over what is its own; never over what it was sent.
func (c *Check) noAbort(skip func(*ssa.Function) bool) {
	c.p.findAborters()
	var start []*ssa.Function
	for _, f := range c.p.AllFuncs {
		if skip(f) || f.Blocks == nil || c.p.aborters[f] {
			continue
		}
		has := false
		for _, b := range f.Blocks {
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				_ = iff
				if c.p.abortBlock(b.Succs[0]) != c.p.abortBlock(b.Succs[1]) {
					has = true
				}
			}
		}
		if has {
			start = append(start, f)
		}
	}
	sort.Slice(start, func(i, j int) bool { return start[i].Pos() < start[j].Pos() })
	c.upwardTo("no-abort", start, func(root, target *ssa.Function, res *rootResult, relevant map[*ssa.Function]bool) {
		var e *Engine
		key := func(in *ssa.If) string {
			return fmt.Sprintf("%s@%s", fnName(in.Parent()), c.p.pos(in.Cond.Pos()))
		}
		aborts := func(in *ssa.If) (bool, int) {
			a, b := c.p.abortBlock(in.Block().Succs[0]), c.p.abortBlock(in.Block().Succs[1])
			if a == b {
				return false, 0
			}
			if a {
				return true, 0
			}
			return true, 1
		}
		h := Hooks{}
		h.Instr = func(st *State, fr *Frame, in ssa.Instruction) {
			iff, ok := in.(*ssa.If)
			if fr.fn != target || !ok {
				return
			}
			if yes, _ := aborts(iff); yes {
				res.put(key(iff), iff.Cond.Pos(), fr.fn, true, "", "")
			}
		}
		h.Branch = func(st *State, fr *Frame, in *ssa.If, cond *Expr, val bool) {
			if fr.fn != target {
				return
			}
			yes, side := aborts(in)
			if !yes || val != (side == 0) {
				return
			}
			cl := c.abortClass(e, st, fr, in, root, cond)
			trace("C12 abort? %s: %v root %s: %s", c.p.pos(in.Cond.Pos()), cond, fnName(root), cl)
			switch cl {
			case "ok":
				return
			case "loop":
				c.undecided[key(in)] = true
				return
			}
			trace("C12 abort %s: %v root %s", c.p.pos(in.Cond.Pos()), cond, fnName(root))
			res.put(key(in), in.Cond.Pos(), fr.fn, false, "ends the program depending on what it was given", c.p.ctxPath(fr.ctx))
		}
		h.After = func(st *State, ci *CallInfo, r *Expr) { e.rangeModels(st, ci, r) }
		e = newEngine(c.p, h)
		e.relevant = relevant
		e.Run(root)
		c.useBounded(e)
	}, 4, skip)
}

func (c *Check) abortClass(e *Engine, st *State, fr *Frame, in *ssa.If, root *ssa.Function, cond *Expr) string {
	var miss []*Expr
	env := true
	var walk func(x *Expr)
	walk = func(x *Expr) {
		if x == nil || x.k == KConst || x.isNil() {
			return
		}
		if x.k == KBin || x.k == KUn || x.k == KConv {
			for _, a := range x.a {
				walk(a)
			}
			return
		}
		y := x.strip()
		if y.k == KExtract {
			y = y.a[0]
		}
		if y.k == KCall && environment(y.s, y) {
			return
		}
		if y.k == KCall && y.s == "builtin.len" {
			l := e.lenLin(y.a[0])
			if n, m := st.interval(l); n == m {
				return
			}
			env = false
			for a := range l.c {
				miss = append(miss, a)
			}
			return
		}
		env = false
		miss = append(miss, x)
	}
	walk(cond)
	if env {
		return "ok"
	}
	for _, x := range miss {
		if x.t != nil && isErrorT(x.t) {
			y := x.strip()
			if y.k == KPhi || y.k == KJoin || y.k == KStale || y.k == KMut {
				return "loop"
			}
			return ""
		}
	}
	switch c.classify(e, st, fr, in, root, miss) {
	case "local":
		return "ok"
	case "loop":
		return "loop"
	}
	return ""
}

var _ = types.Typ
