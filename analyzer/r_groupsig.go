package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&propDef{
		ID: "C24",
		Expl: "Every decoding of a signed group change (proto.Unmarshal into GroupChange) and of its actions (proto.Unmarshal into GroupChange.Actions) is an obligation, decided by the disjunctive dataflow in its function and upwards through the callers. verified: where actions are decoded, a call of zkgroup's VerifySignature whose error is known to be nil must precede on the path, over the very bytes decoded, with the signature of the same change and the server parameters built into the library. " +
			"rejected: no error-free way out of the function that decodes a change (or of its callers) may be taken without such a verification of that change.",
		Assume:  []string{"zkgroup.VerifySignature behaves as documented", "functions of the module that nothing calls and nobody outside can call are not entered"},
		Minimum: map[string]int{"verified": 1, "rejected": 1},
		Run:     runC24,
	})
}

func isDecode(n string) bool {
	return names("google.golang.org/protobuf/proto.Unmarshal", "github.com/golang/protobuf/proto.Unmarshal")(n) || strings.HasSuffix(n, "/proto.UnmarshalOptions.Unmarshal")
}

// into: the name of the protobuf message type an Unmarshal call decodes into.
func into(ci ssa.CallInstruction) string {
	a := ci.Common().Args
	v := a[len(a)-1]
	if m, ok := v.(*ssa.MakeInterface); ok {
		return msgName(m.X.Type())
	}
	return ""
}

func msgName(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if n, ok := p.Elem().(*types.Named); ok {
			return n.Obj().Name()
		}
	}
	return ""
}

// owner: the object whose field the term is.
func owner(x *Expr) *Expr {
	x = x.strip()
	switch x.k {
	case KField:
		return x.a[0]
	case KLoad:
		if x.a[0].k == KFieldAddr {
			return x.a[0].a[0]
		}
	}
	return nil
}

func fieldName(x *Expr) string {
	x = x.strip()
	if x.k == KLoad {
		x = x.a[0]
	}
	if v, ok := x.obj.(*types.Var); ok && (x.k == KField || x.k == KFieldAddr) {
		return v.Name()
	}
	return ""
}

const zkVerify = zkPkg + ".ServerPublicParams.VerifySignature"

func runC24(c *Check) {
	decodes := func(types ...string) func(in ssa.Instruction) bool {
		is := names(types...)
		return func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && isDecode(calleeName(ci.Common())) && is(into(ci))
		}
	}
	reachable := func(f *ssa.Function) bool {
		return !inCmd(f) && !c.p.unreached(f)
	}
	key := c.builtinParams()
	verifies := c.p.reachesCall(func(cc *ssa.CallCommon) bool { return calleeName(cc) == zkVerify })
	setup := func(rel map[*ssa.Function]bool) map[*ssa.Function]bool {
		r := map[*ssa.Function]bool{}
		for f := range rel {
			r[f] = true
		}
		for f := range verifies {
			r[f] = true
		}
		return r
	}
	record := func(st *State, ci *CallInfo, r *Expr) {
		if ci.Name == zkVerify {
			st.record(Event{Kind: "sig", Name: ci.Name, Args: ci.Args, Res: r, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
		}
	}
	// good: why the recorded verification does not vouch for the actions of
	// the change (when change is given) or for the bytes.
	good := func(e *Engine, st *State, ev *Event, bytes, change *Expr) string {
		if st.isNil(ev.Res) != 1 {
			return "the verification before it may have failed"
		}
		msg, sig := ev.Args[1].strip(), ev.Args[2].strip()
		if bytes != nil && msg != bytes.strip() {
			return "the verification before it is over other bytes"
		}
		if fieldName(msg) != "Actions" || fieldName(sig) != "ServerSignature" || owner(msg) != owner(sig) {
			return "the bytes verified and the signature are not those of one change"
		}
		if change != nil && owner(msg) != change && !e.it.contains(owner(msg), func(y *Expr) bool { return y == change }) {
			return "the verification before it is of another change"
		}
		if !key(e, ev.Args[0]) {
			return "the signature is not verified with the server parameters built into the library"
		}
		return ""
	}
	best := func(e *Engine, st *State, bytes, change *Expr) string {
		why := "no server signature has been verified before"
		for _, ev := range st.events("sig") {
			if why = good(e, st, ev, bytes, change); why == "" {
				break
			}
		}
		return why
	}
	acts := decodes("GroupChange_Actions")
	c.upwardTo("verified", c.startsWith(acts, reachable), func(root, target *ssa.Function, res *rootResult, rel map[*ssa.Function]bool) {
		var e *Engine
		h := Hooks{Call: func(st *State, ci *CallInfo) Action {
			if ci.In == target && ci.Site != nil && acts(ci.Site.(ssa.Instruction)) {
				b := ci.Args[len(ci.Args)-2]
				why := best(e, st, b, nil)
				trace("C24 %s root %s: %s: %s", c.p.pos(ci.Pos()), fnName(root), b, why)
				res.put(fnName(target), ci.Pos(), target, why == "", "the actions of a group change are decoded although "+why, c.p.ctxPath(ci.Ctx))
			}
			return Default
		}, After: record}
		e = newEngine(c.p, h)
		e.relevant = setup(rel)
		e.Run(root)
		c.useBounded(e)
	}, 5, func(f *ssa.Function) bool { return !reachable(f) })

	chg := decodes("GroupChange")
	c.upwardTo("rejected", c.startsWith(chg, reachable), func(root, target *ssa.Function, res *rootResult, rel map[*ssa.Function]bool) {
		var e *Engine
		h := Hooks{After: func(st *State, ci *CallInfo, r *Expr) {
			record(st, ci, r)
			if ci.In == target && ci.Site != nil && chg(ci.Site.(ssa.Instruction)) {
				st.record(Event{Kind: "change", Name: ci.Name, Args: ci.Args[len(ci.Args)-1:], Res: r, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
			}
		}}
		e = newEngine(c.p, h)
		e.relevant = setup(rel)
		exits := e.Run(root)
		c.useBounded(e)
		for _, x := range e.okExits(root, exits) {
			for _, ev := range x.st.events("change") {
				m := ev.Args[0].strip()
				why := best(e, x.st, nil, m)
				trace("C24 exit %s root %s: %s: %s", c.p.pos(x.pos), fnName(root), m, why)
				res.put(fnName(target), ev.Pos, target, why == "", "a group change is received and "+fnName(root)+" returns no error (at "+c.p.pos(x.pos)+") although "+why, c.p.ctxPath(ev.Ctx))
			}
		}
	}, 5, func(f *ssa.Function) bool { return !reachable(f) })
}

// builtinParams returns a test for server parameters that come from the
// constant of the configuration package.
func (c *Check) builtinParams() func(e *Engine, x *Expr) bool {
	want := map[string]bool{}
	for _, pk := range c.p.Pkgs {
		if strings.HasSuffix(pk.PkgPath, "/config") {
			for _, n := range pk.Types.Scope().Names() {
				if k, ok := pk.Types.Scope().Lookup(n).(*types.Const); ok && strings.Contains(n, "SERVER_PUBLIC_PARAMS") {
					want[k.Val().ExactString()] = true
				}
			}
		}
	}
	// package variables filled by package initialisation only
	fixed := map[types.Object]bool{}
	loose := map[types.Object]bool{}
	for _, f := range c.sortedFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok && g.Object() != nil {
						if f.Name() == "init" && f.Synthetic != "" {
							fixed[g.Object()] = true
						} else {
							loose[g.Object()] = true
						}
					}
				}
			}
		}
	}
	return func(e *Engine, x *Expr) bool {
		return e.it.contains(x, func(y *Expr) bool {
			if y.k == KConst && want[y.s] {
				return true
			}
			g := poolGlobal(y)
			return g != nil && fixed[g.obj] && !loose[g.obj]
		})
	}
}
