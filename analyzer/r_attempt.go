package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&propDef{
		ID: "C06",
		Expl: "Ownership rule over disjunctive interprocedural dataflow from both decrypt entry points: every session-state object changed while a message is tried is tracked; whenever a session record is stored, " +
			"each changed object that belongs to the stored record (the loaded object itself, or a copy attached to the record) must be the one under whose identities the message's tag was compared successfully; the accepting state must be the record's current state and its original must have left the archive.",
		Assume:  []string{"proto.Clone returns an independent deep copy", "the receiver-session builder only initialises new states"},
		Minimum: map[string]int{"failed-state-unchanged": 2, "accepted-state-current": 2, "accepted-state-not-archived": 2},
		Run:     runC06,
	})
}

func isStructPtr(t types.Type, name string) bool {
	if t == nil {
		return false
	}
	p, ok := types.Unalias(t).(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && n.Obj().Name() == name
}

// stateRoots finds the session structures an address or value lies in.
func (e *Engine) stateRoots(x *Expr) []*Expr {
	var out []*Expr
	seen := map[*Expr]bool{}
	var rec func(x *Expr, d int)
	rec = func(x *Expr, d int) {
		for ; x != nil && !seen[x]; d++ {
			seen[x] = true
			if isStructPtr(x.t, "SessionStructure") && x.k != KFieldAddr {
				out = append(out, x)
				return
			}
			switch x.k {
			case KFieldAddr, KIndexAddr, KLoad, KField, KIndex, KSlice, KConv, KIface, KAssert, KExtract:
				x = x.a[0]
			case KPhi, KJoin, KStale, KMut:
				for o := range e.it.phiOps[x] {
					rec(o, d+1)
				}
				if len(x.a) == 0 {
					return
				}
				x = x.a[0]
			default:
				return
			}
		}
	}
	rec(x, 0)
	return out
}

// freshState: a copy or a newly made structure.
func freshState(x *Expr) bool {
	for {
		switch x.k {
		case KAssert, KConv, KIface, KExtract:
			x = x.a[0]
		case KAlloc:
			return true
		case KCall:
			return strings.HasSuffix(x.s, "/proto.Clone") || x.s == "proto.Clone"
		default:
			return false
		}
	}
}

// structsIn visits the outermost session structures in a term, and the
// addresses of objects it mentions.
func (e *Engine) structsIn(x *Expr, found, addr func(*Expr)) {
	seen := map[*Expr]bool{}
	var rec func(x *Expr)
	rec = func(x *Expr) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if isStructPtr(x.t, "SessionStructure") && x.k != KFieldAddr {
			found(x)
			return
		}
		if x.k == KAlloc || isStructPtr(x.t, "sessionState") {
			addr(x)
		}
		for _, a := range x.a {
			rec(a)
		}
		for o := range e.it.phiOps[x] {
			rec(o)
		}
	}
	rec(x)
}

// keptWhole: the slice value includes all elements of the given slice term.
func (e *Engine) keptWhole(v, whole *Expr, d int) bool {
	if v == nil || d > 12 {
		return false
	}
	if v == whole {
		return true
	}
	switch v.k {
	case KCall:
		if v.s == "builtin.append" {
			for _, a := range v.a {
				if e.keptWhole(a, whole, d+1) {
					return true
				}
			}
		}
	case KSlice:
		if v.a[0] == whole {
			return v.a[1] == nil && v.a[2] == nil
		}
		return e.keptWhole(v.a[0], whole, d+1)
	case KConv:
		return e.keptWhole(v.a[0], whole, d+1)
	case KPhi, KJoin:
		for o := range e.it.phiOps[v] {
			if e.keptWhole(o, whole, d+1) {
				return true
			}
		}
	}
	return false
}

// attached lists the session structures reachable from the stored record
// through what is known to have been written into it.
func (e *Engine) attached(st *State, rec *Expr) map[*Expr]bool {
	return e.reachFrom(st, nil, rec, rec.strip())
}

// reachable lists the session structures reachable from a value.
func (e *Engine) reachable(st *State, v *Expr) map[*Expr]bool { return e.reachFrom(st, v) }

func (e *Engine) reachFrom(st *State, v *Expr, addrs ...*Expr) map[*Expr]bool {
	out := map[*Expr]bool{}
	seen := map[*Expr]bool{}
	var val func(v *Expr)
	var addr func(a *Expr)
	addr = func(a *Expr) {
		if seen[a] {
			return
		}
		seen[a] = true
		for k, v := range st.mem {
			if k != a && underAddr(k, a) {
				val(v)
			}
		}
		if v, ok := st.mem[a]; ok {
			val(v)
		}
	}
	val = func(v *Expr) {
		e.structsIn(v, func(y *Expr) { out[y] = true }, addr)
	}
	for _, a := range addrs {
		addr(a)
	}
	if v != nil {
		val(v)
	}
	return out
}

func runC06(c *Check) {
	m := names("crypto/hmac.Equal", "crypto/subtle.ConstantTimeCompare", ssStore)
	storesTo := func(ts ...string) map[*ssa.Function]bool {
		return c.p.reachesInstr(func(in ssa.Instruction) bool {
			switch x := in.(type) {
			case ssa.CallInstruction:
				return len(ts) > 0 && ts[0] == "" && m(calleeName(x.Common()))
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					for _, t := range ts {
						if t != "" && isStructPtr(fa.X.Type(), t) {
							return true
						}
					}
				}
			}
			return false
		})
	}
	mutates := storesTo("SessionStructure", "SessionStructure_Chain")
	must := storesTo("", "SessionRecord", "sessionState")
	for _, name := range []string{scDec, scPre} {
		fn := c.anchor(name)
		if fn == nil {
			continue
		}
		var e *Engine
		badFail, badCur, badArch := "", "", ""
		n := 0
		h := Hooks{Call: func(st *State, ci *CallInfo) Action {
			if ci.Name == bldRecv {
				return Opaque
			}
			if ci.Callee != nil && mutates[ci.Callee] && !must[ci.Callee] {
				for _, a := range ci.Args {
					if isStructPtr(a.t, "SessionStructure") {
						st.recordSet(Event{Kind: "mutated", Args: []*Expr{a}})
						continue
					}
					p, ok := a.t.Underlying().(*types.Pointer)
					if !ok {
						continue
					}
					s, ok := p.Elem().Underlying().(*types.Struct)
					if !ok {
						continue
					}
					for i := 0; i < s.NumFields(); i++ {
						if f := s.Field(i); isStructPtr(f.Type(), "SessionStructure") {
							v := e.read(st, e.fieldAddr(a, f, i), f.Type())
							st.recordSet(Event{Kind: "mutated", Args: []*Expr{v}})
						}
					}
				}
				return OpaqueKeep
			}
			return ratchetCalls(st, ci)
		}}
		h.Store = func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
			for _, r := range e.stateRoots(addr) {
				if addr == r {
					continue
				}
				st.recordSet(Event{Kind: "mutated", Args: []*Expr{r}})
			}
		}
		h.After = func(st *State, ci *CallInfo, res *Expr) {
			recordMac(st, ci, res)
			if ci.Name != ssStore {
				return
			}
			n++
			where := " (stored at " + c.p.pos(ci.Pos()) + ")"
			ver := map[*Expr]bool{}
			for _, ev := range st.events("maceq") {
				m := e.macOf(st, ev)
				if m == nil || m.sum == nil {
					continue
				}
				for _, t := range append(append([]*Expr(nil), m.writes...), m.key) {
					if t == nil {
						continue
					}
					e.structsIn(t, func(y *Expr) { ver[y] = true }, func(y *Expr) {
						if isStructPtr(y.t, "sessionState") {
							for k := range e.attached(st, y) {
								ver[k] = true
							}
						}
					})
				}
			}
			rec := ci.Args[3]
			att := e.attached(st, rec)
			for _, ev := range st.events("mutated") {
				r := ev.Args[0]
				if ver[r] && !overwritten(r) {
					continue
				}
				if freshState(r) && !att[r] {
					continue
				}
				badFail = "a session state changed by a message that it did not authenticate is stored" + where + ": " + r.String()
				if debugOn {
					for _, ev := range st.events("maceq") {
						trace("C06 mac %v known %d", ev.Args, st.boolVal(ev.Res))
					}
					trace("C06 att %v ver %v", att, ver)
				}
			}
			// the current state of the stored record
			var cur []*Expr
			for k, v := range st.mem {
				if k.k == KFieldAddr && k.a[0].strip() == rec.strip() && isStructPtr(v.t, "sessionState") {
					cur = append(cur, v)
				}
			}
			any, good := false, false
			for r := range ver {
				if !freshState(r) {
					// accepted in place
					any = true
					if len(cur) == 0 && !e.fromField(r, "PreviousStates") {
						good = true
					}
					for _, s := range cur {
						if e.fromExpr(r, s) {
							good = true
						}
					}
					continue
				}
				any = true
				for _, s := range cur {
					for k := range att2(e, st, s) {
						if k == r {
							good = true
						}
					}
				}
			}
			if any && !good {
				badCur = "the state that accepted the message is not the stored record's current state" + where
			}
			for r := range ver {
				for k, v := range st.mem {
					if k.k != KFieldAddr || k.s != "PreviousStates" || k.a[0].strip() != rec.strip() {
						continue
					}
					v := v
					if freshState(r) && e.reachable(st, v)[r] {
						badArch = "the state that accepted the message is put among the archived ones too" + where
					}
					e.it.contains(r, func(y *Expr) bool {
						if (y.k == KIndexAddr || y.k == KIndex) && e.fromField(y.a[0], "PreviousStates") && e.keptWhole(v, y.a[0], 0) {
							badArch = "the state that accepted the message stays among the archived ones" + where
						}
						return false
					})
				}
			}
		}
		e = newEngine(c.p, h)
		e.smallMax = 25
		e.relevant = must
		e.Run(fn)
		c.use(e)
		c.ob("failed-state-unchanged", name, fn.Pos(), n > 0 && badFail == "", badFail)
		c.ob("accepted-state-current", name, fn.Pos(), n > 0 && badCur == "", badCur)
		c.ob("accepted-state-not-archived", name, fn.Pos(), n > 0 && badArch == "", badArch)
	}
}

func overwritten(x *Expr) bool { return x.k == KStale }

func att2(e *Engine, st *State, s *Expr) map[*Expr]bool {
	out := e.attached(st, s)
	if isStructPtr(s.t, "SessionStructure") {
		out[s] = true
	}
	return out
}
