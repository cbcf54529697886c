package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&propDef{
		ID:      "C28",
		Expl:    "Every receive (also inside a select) from a channel kept in a field of one of the module's structures is an obligation, decided by the disjunctive dataflow in its function and upwards through the callers: on every path on which a request was handed over before (a send to another channel, a write to a websocket, or the start of a goroutine that does either), the channel received from must have been stored in the field before that hand-over, or be the one made with the structure. Every other send into such a field must either block or have a channel with room.",
		Assume:  []string{"one request is under way at a time (a second one replaces the channel of the first)", "the helper process answers a request only after it was sent"},
		Minimum: map[string]int{"ready-first": 3, "answer-kept": 1},
		Run:     runC28,
	})
}

// chanField: the struct field a channel value is loaded from.
func chanField(v ssa.Value) *types.Var {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	if fa, ok := u.X.(*ssa.FieldAddr); ok {
		return fieldOf(fa.X.Type(), fa.Field)
	}
	return nil
}

func isChan(t types.Type) bool {
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func isWsWrite(n string) bool {
	return names("github.com/gorilla/websocket.Conn.WriteMessage", "github.com/gorilla/websocket.Conn.WriteJSON", "github.com/gorilla/websocket.Conn.WritePreparedMessage", "github.com/gorilla/websocket.Conn.NextWriter")(n)
}

func handsOver(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Send:
		return true
	case *ssa.Select:
		for _, s := range x.States {
			if s.Dir == types.SendOnly {
				return true
			}
		}
	case ssa.CallInstruction:
		return isWsWrite(calleeName(x.Common()))
	}
	return false
}

// received lists the channels an instruction receives from.
func received(in ssa.Instruction) []ssa.Value {
	var out []ssa.Value
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			out = append(out, x.X)
		}
	case *ssa.Select:
		for _, s := range x.States {
			if s.Dir == types.RecvOnly {
				out = append(out, s.Chan)
			}
		}
	}
	return out
}

func runC28(c *Check) {
	made := map[*types.Var]bool{} // filled where the structure is made
	room := map[*types.Var]bool{} // every channel stored there has room
	stored := map[*types.Var]bool{}
	for _, f := range c.sortedFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || !isChan(s.Val.Type()) {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				fv := fieldOf(fa.X.Type(), fa.Field)
				if fv == nil || !c.p.inMod(fv.Pkg()) {
					continue
				}
				mk, isMake := s.Val.(*ssa.MakeChan)
				if isMake {
					if _, ok := fa.X.(*ssa.Alloc); ok {
						made[fv] = true
					}
				}
				cap := false
				if isMake {
					if k, ok := mk.Size.(*ssa.Const); ok && k.Int64() > 0 {
						cap = true
					}
				}
				if !stored[fv] {
					room[fv] = true
				}
				stored[fv] = true
				room[fv] = room[fv] && cap
			}
		}
	}
	sends := c.p.reachesInstr(handsOver)
	receives := func(in ssa.Instruction) bool {
		for _, v := range received(in) {
			if isChan(v.Type()) {
				return true
			}
		}
		return false
	}
	start := c.startsWith(receives, func(f *ssa.Function) bool { return !inCmd(f) })
	waited := map[*types.Var]bool{}
	c.upwardTo("ready-first", start, func(root, target *ssa.Function, res *rootResult, rel map[*ssa.Function]bool) {
		var e *Engine
		over := func(st *State, ch *Expr, pos token.Pos, fn *ssa.Function) {
			var a []*Expr
			if ch != nil {
				a = []*Expr{ch}
			}
			st.record(Event{Kind: "chan", Name: "request", Args: a, Pos: pos, Fn: fn})
		}
		h := Hooks{
			Call: func(st *State, ci *CallInfo) Action {
				if isWsWrite(ci.Name) {
					over(st, nil, ci.Pos(), ci.In)
				}
				if ci.Go && ci.Callee != nil && sends[ci.Callee] && ci.In == target {
					over(st, nil, ci.Pos(), ci.In)
				}
				return Default
			},
			Store: func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
				if addr.k == KFieldAddr && addr.obj != nil && isChan(addr.obj.Type()) && !val.isNil() {
					st.record(Event{Kind: "chan", Name: "ready", Args: []*Expr{addr, val}, Pos: in.Pos(), Fn: fr.fn})
				}
			},
			Instr: func(st *State, fr *Frame, in ssa.Instruction) {
				switch x := in.(type) {
				case *ssa.Send:
					over(st, fr.Val(st, x.Chan), in.Pos(), fr.fn)
				case *ssa.Select:
					for _, s := range x.States {
						if s.Dir == types.SendOnly {
							over(st, fr.Val(st, s.Chan), in.Pos(), fr.fn)
						}
					}
				}
				if fr.fn != target {
					return
				}
				for _, v := range received(in) {
					ch := fr.Val(st, v)
					var fv types.Object
					for y := ch; y != nil; {
						if y.k == KLoad && y.a[0].k == KFieldAddr {
							fv = y.a[0].obj
							break
						}
						if (y.k == KStale || y.k == KMut) && len(y.a) > 0 {
							y = y.a[0]
							continue
						}
						break
					}
					evs := st.events("chan")
					for _, ev := range evs {
						if ev.Name == "ready" && ev.Args[1] == ch {
							fv = ev.Args[0].obj
						}
					}
					f, _ := fv.(*types.Var)
					if f == nil || !c.p.inMod(f.Pkg()) {
						continue
					}
					waited[f] = true
					ready, asked, before := -1, -1, false
					for i, ev := range evs {
						switch {
						case ev.Name == "ready" && ev.Args[0].obj == fv:
							ready = i
							if asked >= 0 {
								before = true
							}
							if asked < 0 {
								before = false
							}
						case ev.Name == "request":
							if len(ev.Args) > 0 && ev.Args[0] == ch {
								continue
							}
							asked = i
						case ev.Name == "answered":
							asked = -1
						}
					}
					trace("recv %s field=%v ready=%d asked=%d before=%v made=%v", fnName(target), f, ready, asked, before, made[f])
					key := fnName(target) + "." + f.Name()
					path := c.p.ctxPath(fr.ctx)
					switch {
					case asked < 0 && !made[f] && stored[f]:
						res.putSoft(key, in.Pos(), target, "nothing shows that the channel is in place before the request", path)
					case !stored[f]:
						res.put(key, in.Pos(), target, false, "the answer is awaited on a channel that is never made", path)
					case asked >= 0 && before:
						res.put(key, in.Pos(), target, false, "the request is handed over before the channel for its answer is in place", path)
					case asked >= 0 && ready < 0 && !made[f]:
						res.put(key, in.Pos(), target, false, "the channel for the answer of the request is not in place", path)
					default:
						res.put(key, in.Pos(), target, true, "", "")
					}
					st.record(Event{Kind: "chan", Name: "answered", Pos: in.Pos(), Fn: fr.fn})
				}
			},
			Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) { return true, sends[fn] },
		}
		e = newEngine(c.p, h)
		e.relevant = rel
		e.Run(root)
		c.useBounded(e)
	}, 3, nil)
	// delivery
	for _, f := range c.sortedFuncs() {
		if inCmd(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send:
					if fv := chanField(x.Chan); fv != nil && waited[fv] {
						c.ob("answer-kept", fnName(f)+"."+fv.Name(), in.Pos(), true, "")
					}
				case *ssa.Select:
					for _, s := range x.States {
						if fv := chanField(s.Chan); s.Dir == types.SendOnly && fv != nil && waited[fv] {
							c.ob("answer-kept", fnName(f)+"."+fv.Name(), in.Pos(), x.Blocking && len(x.States) == 1 || room[fv], "the answer is dropped when its receiver is not waiting yet")
						}
					}
				}
			}
		}
	}
}
