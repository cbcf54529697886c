package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&propDef{
		ID: "C10",
		Expl: "Linear-interval dataflow from both decrypt entry points: wherever a skipped message key is added to a chain, and wherever a tag is checked with a newly derived key, the state must prove message counter - chain index <= 2000 and >= 0; " +
			"a tag check with a stored key requires that key to have been removed from its chain; on paths where the counter is behind the chain and no stored key exists the duplicate error is returned. " +
			"For every function growing the list of receiving chains (archived sessions), at its exits (or its callers') the list is proved no longer than 5 (40) or no longer than before.",
		Assume:  []string{"int is 64 bits wide", "stored sessions respect the limits when loaded"},
		Minimum: map[string]int{"skip-window": 1, "window-before-use": 2, "stored-key-consumed": 2, "chains-bounded": 1, "archive-bounded": 1},
		Run:     runC10,
	})
}

// windowFact: the state proves  lo <= counter - index <= hi  for a message
// counter and a chain index.
func windowFact(e *Engine, st *State) (lo, hi int64) {
	lo, hi = negInf, posInf
	for _, b := range st.bd {
		if len(b.l.c) != 2 {
			continue
		}
		var ctr, idx int64
		n := 0
		for a, k := range b.l.c {
			switch {
			case isIndexTerm(e, a):
				idx, n = k, n+1
			case isCounterTerm(e, a):
				ctr, n = k, n+1
			}
		}
		if n != 2 || ctr*idx != -1 {
			continue
		}
		l, h := b.lo, b.hi
		if ctr < 0 {
			l, h = neg(h), neg(l)
		}
		if l > lo {
			lo = l
		}
		if h < hi {
			hi = h
		}
	}
	return
}

func neg(x int64) int64 {
	switch x {
	case negInf:
		return posInf
	case posInf:
		return negInf
	}
	return -x
}

// isIndexTerm: the index of a chain key.
func isIndexTerm(e *Engine, a *Expr) bool {
	a = a.strip()
	return (a.k == KField || a.k == KLoad) && e.fromField(a, "Index")
}

func isCounterTerm(e *Engine, a *Expr) bool {
	a = a.strip()
	return a.k == KParam || ((a.k == KField || a.k == KLoad) && e.fromField(a, "Counter"))
}

// shrinks: unless v is visibly two parts of a list put together again with
// not exactly the entry that was looked for left out between them.
func shrinks(e *Engine, st *State, v *Expr) bool {
	v = v.strip()
	if v.k != KCall || v.s != "builtin.append" || len(v.a) != 2 {
		return true
	}
	x, y := v.a[0].strip(), v.a[1].strip()
	list := func(l *Expr) bool { return e.fieldTerm(l.strip()) == "MessageKeys" }
	part := func(l *Expr) *Expr {
		if l.k == KSlice {
			return l.a[0]
		}
		return l
	}
	if x.k != KSlice || x.a[2] == nil || !list(part(x)) || !list(part(y)) {
		return true
	}
	lo := lin{}
	if y.k == KSlice && y.a[1] != nil {
		lo = e.linOf(y.a[1])
	}
	hi := e.linOf(x.a[2])
	if l, h := st.interval(lo.add(hi, -1)); l != 1 || h != 1 {
		return false
	}
	for _, b := range st.bd { // which entry has the counter that was asked for?
		if len(b.l.c) != 2 || b.l.k != 0 || b.lo != 0 || b.hi != 0 {
			continue
		}
		for a := range b.l.c {
			var at *Expr
			if isIndexTerm(e, a) {
				e.it.contains(a, func(z *Expr) bool {
					if (z.k == KIndexAddr || z.k == KIndex) && list(z.a[0]) {
						at = z.a[1]
					}
					return false
				})
			}
			if at != nil {
				if l, h := st.interval(e.linOf(at).add(hi, -1)); l > 0 || h < 0 {
					return false
				}
			}
		}
	}
	return true
}

func runC10(c *Check) {
	isMsgKeysStore := func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		return ok && fieldOf(fa.X.Type(), fa.Field).Name() == "MessageKeys" && isStructPtr(fa.X.Type(), "SessionStructure_Chain")
	}
	grows := func(e *Engine, v *Expr) bool { // an append of something else than the rest of the same list
		v = v.strip()
		if v.k != KCall || v.s != "builtin.append" || len(v.a) != 2 {
			return false
		}
		return !e.fromField(v.a[1], "MessageKeys")
	}
	rel := c.p.reachesInstr(func(in ssa.Instruction) bool {
		if ci, ok := in.(ssa.CallInstruction); ok {
			return isMacEq(calleeName(ci.Common()))
		}
		return isMsgKeysStore(in)
	})
	// skipped keys
	var start []*ssa.Function
	for f := range c.p.reachesInstr(isMsgKeysStore) {
		own := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if isMsgKeysStore(in) {
					own = true
				}
			}
		}
		if own {
			start = append(start, f)
		}
	}
	sort.Slice(start, func(i, j int) bool { return start[i].Pos() < start[j].Pos() })
	c.upward("skip-window", start, rel, func(root *ssa.Function, res *rootResult, relevant map[*ssa.Function]bool) {
		var e *Engine
		h := Hooks{Call: ratchetCalls}
		h.Store = func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
			if !isMsgKeysStore(in) || !grows(e, val) {
				return
			}
			_, hi := windowFact(e, st)
			res.put(fnName(fr.fn), in.Pos(), fr.fn, hi <= 2000, "a skipped message key is kept without the counter being within 2000 of its chain", c.p.ctxPath(fr.ctx))
		}
		e = newEngine(c.p, h)
		e.relevant = relevant
		e.smallMax = 25
		e.Run(root)
		c.use(e)
	}, 4, nil)
	for _, name := range []string{scDec, scPre} {
		fn := c.anchor(name)
		if fn == nil {
			continue
		}
		var e *Engine
		n, nd := 0, 0
		badW, badS := "", ""
		// the key of one message: expanded from a code keyed with the chain key
		derive := func(st *State, ci *CallInfo) {
			var secret *Expr
			switch ci.Name {
			case axo + "DeriveSecrets":
				secret = ci.Args[0]
			case "golang.org/x/crypto/hkdf.New":
				secret = ci.Args[1]
			}
			if secret == nil || !e.fromCall(secret, names("crypto/hmac.New")) {
				return
			}
			nd++
			lo, hi := windowFact(e, st)
			where := " (derived at " + c.p.pos(ci.Pos()) + ")"
			if hi > 2000 {
				badW = "a message key is derived for a counter that may be more than 2000 ahead" + where
			} else if lo < 0 {
				badW = "a message key is derived for a counter that may be behind the chain" + where
			}
			st.recordSet(Event{Kind: "derived", Fn: ci.In})
		}
		h := Hooks{}
		h.Call = func(st *State, ci *CallInfo) Action {
			derive(st, ci)
			return ratchetCalls(st, ci)
		}
		h.Store = func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
			if isMsgKeysStore(in) && !grows(e, val) && shrinks(e, st, val) {
				st.recordSet(Event{Kind: "consumed", Fn: fr.fn})
			}
		}
		h.After = func(st *State, ci *CallInfo, res *Expr) {
			if !isMacEq(ci.Name) {
				return
			}
			n++
			if len(st.events("consumed"))+len(st.events("derived")) == 0 {
				badS = "a message key is used that was neither derived now nor removed from the stored ones (tag checked at " + c.p.pos(ci.Pos()) + ")"
			}
		}
		e = newEngine(c.p, h)
		e.relevant = rel
		e.smallMax = 25
		e.Run(fn)
		c.use(e)
		c.ob("window-before-use", name, fn.Pos(), nd > 0 && badW == "", badW)
		c.ob("stored-key-consumed", name, fn.Pos(), n > 0 && badS == "", badS)
	}
	c.boundedField("chains-bounded", "ReceiverChains", "SessionStructure", 5)
	c.boundedField("archive-bounded", "PreviousStates", "SessionRecord", 40)
}

// boundedField: every function that makes the list longer leaves it within n
// (or no longer than it was).
func (c *Check) boundedField(rule, field, owner string, n int64) {
	is := func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		return ok && fieldOf(fa.X.Type(), fa.Field).Name() == field && isStructPtr(fa.X.Type(), owner)
	}
	rel := c.p.reachesInstr(is)
	var start []*ssa.Function
	for f := range rel {
		if c.p.isGen(f.Pos()) {
			continue
		}
		own := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if is(in) {
					own = true
				}
			}
		}
		if own {
			start = append(start, f)
		}
	}
	sort.Slice(start, func(i, j int) bool { return start[i].Pos() < start[j].Pos() })
	c.upward(rule, start, rel, func(root *ssa.Function, res *rootResult, relevant map[*ssa.Function]bool) {
		var e *Engine
		who := map[string]*ssa.Function{}
		h := Hooks{}
		h.Store = func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
			if is(in) {
				if base := addr.a[0].strip(); base.k == KAlloc {
					return // a record under construction (loading)
				}
				who[fnName(fr.fn)] = fr.fn
				st.recordSet(Event{Kind: "grown", Name: fnName(fr.fn), Args: []*Expr{addr}})
			}
		}
		e = newEngine(c.p, h)
		e.relevant = relevant
		exits := e.Run(root)
		c.use(e)
		for _, x := range exits {
			for _, ev := range x.st.events("grown") {
				v := x.st.mem[ev.Args[0]]
				ok := v != nil
				if ok {
					l := e.lenLin(v)
					_, hi := x.st.interval(l)
					ok = hi <= n
					if !ok {
						// no longer than the list it was made from
						e.it.contains(v, func(y *Expr) bool {
							if (y.k == KLoad || y.k == KField) && e.fieldTerm(y) == field {
								if x.st.provedLE0(l.add(e.lenLin(y), -1)) {
									ok = true
								}
							}
							return false
						})
					}
				}
				f := who[ev.Name]
				if f == nil {
					f = root
				}
				res.put(ev.Name, f.Pos(), f, ok, fmt.Sprintf("the list can grow beyond %d entries (return at %s)", n, c.p.pos(x.pos)), "")
			}
		}
	}, 3, nil)
}

// fieldTerm is the field a load or field term reads, or "".
func (e *Engine) fieldTerm(y *Expr) string {
	if y.k == KField {
		return y.s
	}
	if y.k == KLoad && y.a[0].k == KFieldAddr {
		return y.a[0].s
	}
	return ""
}

var _ = types.Identical
