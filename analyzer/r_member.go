package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&propDef{
		ID: "C25",
		Expl: "joined: on every way to a call that sends a content with a group context made from a group's master key, the last word on that group's membership must be a test that its status is full, after a determination of the status (a function that sets it) that did not fail, with no further determination in between. " +
			"determines: a function that sets the status sets it on every way on which it does not fail. " +
			"request, caller, wrapper: the functions that submit a change to the server report an error unless the status of the answer is 200..299 (as C17). " +
			"recorded: wherever the status of a group is set to full, a member of the group must have been found to be the own account, or the server have accepted a change; a group whose status nothing has determined yet is not put into the table of groups with a status that reads as full.",
		Assume:  []string{"a member list decrypted from the server's answer is the group's"},
		Minimum: map[string]int{"joined": 1, "determines": 1, "request": 1, "recorded": 3},
		Run:     runC25,
	})
}

func runC25(c *Check) {
	gf := c.structFields("/groupsv2", "GroupV2")
	var status *types.Var
	for v, n := range gf {
		if n == "JoinStatus" {
			status = v
		}
	}
	if status == nil {
		c.fail("anchor", "JoinStatus", "", "groups have no status", "")
		return
	}
	full := ""
	for _, pk := range c.p.Pkgs {
		if pk.PkgPath == Mod+"/groupsv2" {
			if k, ok := pk.Types.Scope().Lookup("GroupV2JoinsStatusMember").(*types.Const); ok {
				full = constant.ToInt(k.Val()).ExactString()
			}
		}
	}
	isFull := func(x *Expr) bool {
		x = x.strip()
		return x.k == KConst && x.isInt && x.s == full || x.k == KZero && full == "0"
	}
	setsStatus := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldOf(fa.X.Type(), fa.Field) == status {
						if _, fresh := fa.X.(*ssa.Alloc); !fresh {
							return true
						}
					}
				}
			}
		}
		return false
	}
	own := map[*types.Var]bool{}
	for v, n := range c.structFields("/config", "Config") {
		if n == "UUID" {
			own[v] = true
		}
	}
	members := map[*types.Var]bool{}
	for _, t := range []string{"DecryptedGroup", "Group"} {
		for v, n := range c.structFields("/protobuf", t) {
			if n == "Members" {
				members[v] = true
			}
		}
	}
	// isOwn: when the condition holds, the id of a member is the own one
	var isOwn func(e *Engine, st *State, x *Expr, depth int) bool
	isOwn = func(e *Engine, st *State, x *Expr, depth int) bool {
		x = x.strip()
		if x.k == KBin && x.s == "==" {
			for i := range x.a {
				if own[varOf(x.a[i])] && e.it.contains(x.a[1-i], func(y *Expr) bool { return members[varOf(y)] }) {
					return true
				}
			}
			return false
		}
		ops := e.it.phiOps[x]
		if depth > 3 || len(ops) == 0 {
			return false
		}
		some := false
		for o := range ops {
			if o == x || o.k == KZero || o.k == KConst && o.s == "false" {
				continue
			}
			if !isOwn(e, st, o, depth+1) {
				return false
			}
			some = true
		}
		return some
	}
	compares := c.p.reachesInstr(func(in ssa.Instruction) bool {
		fa, ok := in.(*ssa.FieldAddr)
		return ok && own[fieldOf(fa.X.Type(), fa.Field)]
	})
	sends := c.p.reachesCall(func(cc *ssa.CallCommon) bool { return calleeName(cc) == sEncrypt })
	patches := c.p.reachesCall(func(cc *ssa.CallCommon) bool {
		if n := calleeName(cc); n != "net/http.NewRequest" && n != "net/http.NewRequestWithContext" {
			return false
		}
		for _, a := range cc.Args {
			if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
				switch constant.StringVal(k.Value) {
				case "PATCH", "PUT", "POST":
					return true
				}
			}
		}
		return false
	})
	isContext := func(in ssa.Instruction) bool {
		a, ok := in.(*ssa.Alloc)
		if !ok || c.p.isGen(a.Parent().Pos()) {
			return false
		}
		n, ok := a.Type().(*types.Pointer).Elem().(*types.Named)
		return ok && n.Obj().Name() == "GroupContextV2" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == Mod+"/protobuf"
	}
	var ctxField *types.Var
	for v, n := range c.structFields("/protobuf", "GroupContextV2") {
		if n == "MasterKey" {
			ctxField = v
		}
	}
	c.upwardTo("joined", c.startsWith(isContext, func(f *ssa.Function) bool { return !inCmd(f) && !c.p.unreached(f) }), func(root, target *ssa.Function, res *rootResult, rel map[*ssa.Function]bool) {
		var e *Engine
		e = newEngine(c.p, Hooks{
			Store: func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
				if addr.k == KFieldAddr && addr.obj == ctxField && fr.fn == target {
					if g := owner(val); g != nil {
						st.record(Event{Kind: "context", Args: []*Expr{object(e, g)}, Pos: in.Pos(), Fn: fr.fn, Ctx: fr.ctx})
					} else {
						st.record(Event{Kind: "context", Args: []*Expr{val}, Pos: in.Pos(), Fn: fr.fn, Ctx: fr.ctx})
					}
				}
			},
			Call: func(st *State, ci *CallInfo) Action {
				if ci.Callee != nil && setsStatus(ci.Callee) {
					return Opaque
				}
				if ci.Callee != nil && sends[ci.Callee] && ci.In == target {
					for _, ctx := range st.events("context") {
						g := ctx.Args[0]
						why := "its membership was not tested"
						seen := false
						for _, ev := range st.ev {
							switch {
							case ev.Kind == "status":
								seen = object(e, ev.Args[0]) == g && (ev.Res == nil || ev.Err == nil || st.isNil(ev.Err) == 1)
								why = "the membership was determined again, and not tested since"
								if object(e, ev.Args[0]) == g && !seen {
									why = "the determination of the membership may have failed"
								}
							case ev.Kind == "member" && object(e, ev.Args[0]) == g:
								if seen {
									why = ""
								}
							}
						}
						trace("C25 %s: %s %s", c.p.pos(ci.Pos()), g, why)
						res.put(fnName(target), ci.Pos(), target, why == "", "a message is sent to a group although "+why, c.p.ctxPath(ci.Ctx))
					}
					return Opaque
				}
				return Default
			},
			After: func(st *State, ci *CallInfo, r *Expr) {
				if ci.Callee != nil && setsStatus(ci.Callee) && len(ci.Args) > 0 {
					var err *Expr
					if rs := ci.Callee.Signature.Results(); rs.Len() > 0 && isErrorT(rs.At(rs.Len()-1).Type()) {
						err = r
						if rs.Len() > 1 {
							err = e.result(r, rs.Len()-1, rs.Len(), rs.At(rs.Len()-1).Type())
						}
					}
					st.record(Event{Kind: "status", Args: []*Expr{object(e, ci.Args[0])}, Res: r, Err: err, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
				}
			},
			Branch: func(st *State, fr *Frame, in *ssa.If, cond *Expr, val bool) {
				for cond.k == KUn && cond.s == "!" {
					cond, val = cond.a[0], !val
				}
				if cond.k == KBin && cond.s == "==" && val {
					if k, x := constSide(cond.a[0], cond.a[1]); k != nil && isFull(k) && varOf(x) == status {
						if g := owner(x); g != nil {
							st.record(Event{Kind: "member", Args: []*Expr{object(e, g)}, Pos: in.Pos(), Fn: fr.fn, Ctx: fr.ctx})
						}
					}
				}
			},
		})
		reach := map[*ssa.Function]bool{}
		for f := range rel {
			reach[f] = true
		}
		for f := range c.p.reachesInstr(func(in ssa.Instruction) bool {
			fa, ok := in.(*ssa.FieldAddr)
			return ok && fieldOf(fa.X.Type(), fa.Field) == status
		}) {
			reach[f] = true
		}
		e.relevant = reach
		e.Run(root)
		c.useBounded(e)
	}, 3, nil)

	for _, f := range c.sortedFuncs() {
		if inCmd(f) || c.p.unreached(f) || !setsStatus(f) {
			continue
		}
		var e *Engine
		e = newEngine(c.p, Hooks{
			Store: func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
				if addr.k == KFieldAddr && addr.obj == status {
					st.recordSet(Event{Kind: "determined"})
				}
			},
		})
		e.relevant = map[*ssa.Function]bool{f: true}
		exits := e.Run(f)
		c.useBounded(e)
		ok, at := true, f.Pos()
		for _, x := range e.okExits(f, exits) {
			if len(x.st.events("determined")) == 0 {
				ok, at = false, x.pos
			}
		}
		c.ob("determines", fnName(f), at, ok, "the membership is left as it was although it was determined: someone who was removed stays recorded as a member")
	}

	// the server accepted a change when its answer was looked at
	var setters []*ssa.Function
	for _, f := range c.sortedFuncs() {
		if setsStatus(f) && !inCmd(f) && !c.p.unreached(f) {
			setters = append(setters, f)
		}
	}
	submits := c.p.reachableFrom(setters...)
	c.requests(func(f *ssa.Function) bool { return patches[f] && submits[f] })

	// where the status is set
	records := func(in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.Store:
			fa, ok := in.Addr.(*ssa.FieldAddr)
			return ok && fieldOf(fa.X.Type(), fa.Field) == status
		case *ssa.MapUpdate:
			return globalMap(in.Map) && strings.HasSuffix(in.Value.Type().String(), "groupsv2.GroupV2")
		}
		return false
	}
	c.upwardTo("recorded", c.startsWith(records, func(f *ssa.Function) bool { return !inCmd(f) && !c.p.unreached(f) }), func(root, target *ssa.Function, res *rootResult, rel map[*ssa.Function]bool) {
		var e *Engine
		ownBlocks := map[*ssa.BasicBlock]bool{} // entered when a member is the own account
		e = newEngine(c.p, Hooks{
			Call: func(st *State, ci *CallInfo) Action {
				if ci.Callee != nil && setsStatus(ci.Callee) {
					st.recordSet(Event{Kind: "determined"})
				}
				return Default
			},
			Store: func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
				if addr.k == KFieldAddr && addr.obj == status {
					st.recordSet(Event{Kind: "determined"})
				}
				if fr.fn != target || !records(in) {
					return
				}
				what := "status"
				if _, ok := in.(*ssa.MapUpdate); ok {
					what = "table"
					x := e.read(st, e.fieldAddr(val, status, fieldIndex(val.t, "JoinStatus")), status.Type())
					trace("C25 table %s %s", val, x)
					if !isFull(x) || len(st.events("determined")) > 0 {
						res.put(fnName(target)+" "+what, in.Pos(), target, true, "", "")
						return
					}
				} else if val.k == KConst && !isFull(val) {
					res.put(fnName(target)+" "+what, in.Pos(), target, true, "", "")
					return
				}
				good := what == "status" && len(st.events("own")) > 0
				for _, ev := range st.events("patched") {
					good = good || ev.Err != nil && st.isNil(ev.Err) == 1
				}
				trace("C25 %s %s = %s: %v", c.p.pos(in.Pos()), addr, val, good)
				res.put(fnName(target)+" "+what, in.Pos(), target, good, "the user is recorded as a full member of a group although no member was found to be the own account, nor the server accepted a change", c.p.ctxPath(fr.ctx))
			},
			After: func(st *State, ci *CallInfo, r *Expr) {
				if ci.Callee != nil && patches[ci.Callee] && ci.In == target {
					rs := ci.Callee.Signature.Results()
					if rs.Len() > 0 && isErrorT(rs.At(rs.Len()-1).Type()) {
						err := r
						if rs.Len() > 1 {
							err = e.result(r, rs.Len()-1, rs.Len(), rs.At(rs.Len()-1).Type())
						}
						st.record(Event{Kind: "patched", Res: r, Err: err, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
					}
				}
			},
			Branch: func(st *State, fr *Frame, in *ssa.If, cond *Expr, val bool) {
				v, taken := in.Cond, val
				for {
					u, ok := v.(*ssa.UnOp)
					if !ok || u.Op != token.NOT {
						break
					}
					v, taken = u.X, !taken
				}
				succ := in.Block().Succs[1]
				if val {
					succ = in.Block().Succs[0]
				}
				for cond.k == KUn && cond.s == "!" {
					cond, val = cond.a[0], !val
				}
				if val && isOwn(e, st, cond, 0) {
					st.recordSet(Event{Kind: "own"})
					if len(succ.Preds) == 1 {
						ownBlocks[succ] = true
					}
				}
				if taken && (cond.k == KPhi || cond.k == KJoin) && setWhenOwn(v, ownBlocks, map[ssa.Value]bool{}) {
					st.recordSet(Event{Kind: "own"})
				}
			},
		})
		reach := map[*ssa.Function]bool{}
		for f := range rel {
			reach[f] = true
		}
		for f := range compares {
			reach[f] = true
		}
		e.relevant = reach
		e.Run(root)
		c.useBounded(e)
	}, 2, nil)
}

// setWhenOwn: a flag that is false to begin with, and becomes true in one of
// the blocks only.
func setWhenOwn(v ssa.Value, blocks map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) bool {
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	if seen[ph] {
		return true
	}
	seen[ph] = true
	for i, x := range ph.Edges {
		if k, ok := x.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
			if !constant.BoolVal(k.Value) {
				continue
			}
			from := false
			for b := ph.Block().Preds[i]; b != nil; b = b.Idom() {
				from = from || blocks[b]
			}
			if !from {
				return false
			}
			continue
		}
		if !setWhenOwn(x, blocks, seen) {
			return false
		}
	}
	return true
}

// object is the object a value that a call changed is held in.
func object(e *Engine, x *Expr) *Expr {
	x = x.strip()
	if b := e.it.mutBase[x]; x.k == KMut && b != nil {
		return b.strip()
	}
	return x
}
