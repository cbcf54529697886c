package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

const (
	ssLoad   = axo + "SessionStore.LoadSession"
	ssStore  = axo + "SessionStore.StoreSession"
	ssLock   = axo + "SessionStore.Lock"
	ssUnlock = axo + "SessionStore.Unlock"
	pkRemove = axo + "PreKeyStore.RemovePreKey"
	pkLoad   = axo + "PreKeyStore.LoadPreKey"
	idTrust  = axo + "IdentityStore.IsTrustedIdentity"
	idSave   = axo + "IdentityStore.SaveIdentity"
	sigVer   = "ts/curve25519sign.Verify"
)

// watchCalls records every matching call as an event ("call"), guards as Guard events.
func watchCalls(m func(string) bool, guard func(string) bool) func(st *State, ci *CallInfo, res *Expr) {
	return func(st *State, ci *CallInfo, res *Expr) {
		if ci.Defer && ci.Name == "" {
			return
		}
		if guard != nil && guard(ci.Name) {
			st.record(Event{Kind: "guard", Guard: true, Name: ci.Name, Args: ci.Args, Res: res, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
			return
		}
		if m(ci.Name) {
			st.record(Event{Kind: "call", Name: ci.Name, Args: ci.Args, Res: res, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
		}
	}
}

// markOnce records that such a call happened, without its details (attempts in
// a loop then stay one abstract event).
func markOnce(st *State, ci *CallInfo, m func(string) bool) {
	if !m(ci.Name) {
		return
	}
	if n := len(st.ev); n > 0 && st.ev[n-1].Name == ci.Name && st.ev[n-1].Res == nil {
		return
	}
	st.record(Event{Kind: "call", Name: ci.Name, Fn: ci.In})
}

// called lists the recorded calls of that name on the path.
func (s *State) called(name string) []*Event {
	var out []*Event
	for _, ev := range s.ev {
		if ev.Name == name && (ev.Kind == "call" || ev.Kind == "guard") {
			out = append(out, ev)
		}
	}
	return out
}

// errNil: the error result of that recorded call is known to be nil.
func (e *Engine) errNil(st *State, ev *Event) bool {
	if ev.Res == nil {
		return false
	}
	var er *Expr
	switch {
	case ev.Res.k == KTuple && len(ev.Res.a) > 0:
		er = ev.Res.a[len(ev.Res.a)-1]
	case ev.Res.k == KTuple:
		return true
	default:
		n := 1
		if ev.Res.t != nil {
			if tp, ok := ev.Res.t.(interface{ Len() int }); ok && ev.Res.k == KCall {
				n = tp.Len()
			}
		}
		if n > 1 {
			er = e.it.mk(Expr{k: KExtract, n: int64(n - 1), a: []*Expr{ev.Res}, t: errT(ev.Res.t, n-1)}, "")
		} else {
			er = ev.Res
		}
	}
	return st.isNil(er) == 1
}

// stripMut removes wrappers that keep identity.
func sameTerm(a, b *Expr) bool {
	if a == nil || b == nil {
		return false
	}
	return a == b || a.strip() == b.strip()
}

// idOpaque: key codec, key generation and stores are opaque; agreement is visible.
func builderCalls(st *State, ci *CallInfo) Action {
	if isStoreCall(ci) || keyCodec(ci.Name) || ci.Name == sigVer {
		return Opaque
	}
	return Default
}

var isAgree = names("golang.org/x/crypto/curve25519.ScalarMult", "golang.org/x/crypto/curve25519.X25519")

func (p *Prog) reachesNames(m func(string) bool) map[*ssa.Function]bool {
	return p.reachesCall(func(cc *ssa.CallCommon) bool { return m(calleeName(cc)) })
}

func init() {
	register(&propDef{
		ID: "C03",
		Expl: "Disjunctive interprocedural dataflow over SSA from the bundle session builder with helpers followed: every key agreement, session store, identity save and error-free return must be preceded by a signature verification known to have succeeded, " +
			"whose key is the bundle's identity key, whose message is the serialized signed pre-key that the session then uses, and whose signature is the bundle's.",
		Assume:  []string{"curve25519sign.Verify decides XEdDSA signatures correctly"},
		Minimum: map[string]int{"signature-before-agreement": 1, "signature-before-store": 1, "signature-before-identity": 1, "signature-before-success": 1},
		Run:     runC03,
	})
	register(&propDef{
		ID: "C04",
		Expl: "Disjunctive interprocedural dataflow over SSA from both session builders: every key agreement, session store, identity save and error-free return must be preceded by a trust decision known to be true for the contact and the very key that is saved; " +
			"and from the trust decision itself: it may answer true only when blanket trust is configured, the record is known not to exist, or the stored bytes were compared equal with the presented key.",
		Assume:  []string{"bytes.Equal and os.IsNotExist behave as documented"},
		Minimum: map[string]int{"trust-before-agreement": 2, "trust-before-identity": 2, "trust-before-success": 2, "trust-before-store": 1, "trust-decision": 1},
		Run:     runC04,
	})
	register(&propDef{
		ID:      "C05",
		Expl:    "Disjunctive interprocedural dataflow over SSA from the encrypt entry point: every error-free return must come after a successful session store, the stored session must have had its sending chain key replaced by its successor (index+1, derived key) before the store, the message keys used to encrypt must come from the chain key before advancing, and nothing may be encrypted after the store.",
		Assume:  []string{"the session store persists what it is given when it returns no error"},
		Minimum: map[string]int{"stored-before-return": 1, "advanced-before-store": 1, "keys-of-current-position": 1},
		Run:     runC05,
	})
	register(&propDef{
		ID:      "C07",
		Expl:    "Disjunctive interprocedural dataflow over SSA from both decrypt entry points: every error-free return must come after a session store whose error is known to be nil, that follows the decryption, for the same contact and device the session was loaded for.",
		Assume:  []string{"the session store persists what it is given when it returns no error"},
		Minimum: map[string]int{"stored-before-plaintext": 2},
		Run:     runC07,
	})
	register(&propDef{
		ID:      "C08",
		Expl:    "Typestate analysis (unlocked/locked) on every path of every function outside the stores that reaches a session store: load and store only while locked, one lock region spans the load and its store, no double lock, unlocked on every exit including errors.",
		Assume:  []string{"the store's Lock/Unlock are one mutex"},
		Minimum: map[string]int{"locked-load-store": 4, "released-on-exit": 4},
		Run:     runC08,
	})
	register(&propDef{
		ID:      "C09",
		Expl:    "Disjunctive interprocedural dataflow over SSA from the pre-key decrypt entry point: every pre-key removal must come after the session store whose error is known to be nil, remove the id the session builder reported, be known different from the last-resort id; and every error-free return on which a one-time key was loaded for the session must have removed it.",
		Assume:  []string{"the last-resort pre-key id is 0xFFFFFF"},
		Minimum: map[string]int{"removal-after-store": 1, "last-resort-kept": 1, "used-key-removed": 1},
		Run:     runC09,
	})
}

// gateRule: at each sink call and at error-free exits, some event must satisfy ok.
type gate struct {
	sink string // rule name
	at   func(ci *CallInfo) bool
	need func(st *State, ci *CallInfo) string // "" = fine
}

func runGates(c *Check, fn *ssa.Function, key string, gates []gate, exitRule string, exitNeed func(e *Engine, st *State, x *Exit) string, setup func(e *Engine), h Hooks, get func(e *Engine)) []*Exit {
	var e *Engine
	after := h.After
	bad := make([]string, len(gates))
	seen := make([]int, len(gates))
	h.After = func(st *State, ci *CallInfo, res *Expr) {
		for i, g := range gates {
			if g.at(ci) {
				seen[i]++
				if w := g.need(st, ci); w != "" && bad[i] == "" {
					bad[i] = w + " (at " + c.p.pos(ci.Pos()) + ", path " + c.p.ctxPath(ci.Ctx) + ")"
				}
			}
		}
		if after != nil {
			after(st, ci, res)
		}
	}
	e = newEngine(c.p, h)
	get(e)
	if setup != nil {
		setup(e)
	}
	exits := e.Run(fn)
	c.use(e)
	for i, g := range gates {
		if seen[i] == 0 {
			continue // the rule's minimum catches a sink that vanished everywhere
		}
		c.ob(g.sink, key, fn.Pos(), bad[i] == "", bad[i])
	}
	if exitRule != "" {
		n, b := 0, ""
		for _, x := range e.okExits(fn, exits) {
			n++
			if w := exitNeed(e, x.st, x); w != "" {
				b = w + " (return at " + c.p.pos(x.pos) + ")"
			}
		}
		c.ob(exitRule, key, fn.Pos(), n > 0 && b == "", b)
	}
	return exits
}

func at(ns ...string) func(ci *CallInfo) bool {
	m := names(ns...)
	return func(ci *CallInfo) bool { return m(ci.Name) }
}

func runC03(c *Check) {
	fn := c.anchor(bldSend)
	if fn == nil {
		return
	}
	var e *Engine
	need := func(st *State, ci *CallInfo) string {
		why := "no successful signature verification precedes it"
		for _, ev := range st.called(sigVer) {
			if st.boolVal(ev.Res) != 1 || len(ev.Args) < 3 {
				continue
			}
			switch {
			case !e.fromField(ev.Args[0], "IdentityKey"):
				why = "the signature is not verified under the bundle's identity key"
			case !e.fromField(ev.Args[1], "SignedPreKeyPublic"):
				why = "the verified data is not the bundle's signed pre-key"
			case !e.fromField(ev.Args[2], "SignedPreKeySignature"):
				why = "the verified signature is not the bundle's"
			default:
				return ""
			}
		}
		return why
	}
	w := func(rule string, ns ...string) gate { return gate{rule, at(ns...), need} }
	runGates(c, fn, bldSend, []gate{
		{"signature-before-agreement", func(ci *CallInfo) bool { return isAgree(ci.Name) }, need},
		w("signature-before-store", ssStore), w("signature-before-identity", idSave),
	}, "signature-before-success", func(e *Engine, st *State, x *Exit) string { return need(st, nil) },
		func(e *Engine) {
			e.smallMax = 25
			e.relevant = c.p.reachesNames(func(n string) bool { return isAgree(n) || names(sigVer, ssStore, idSave)(n) })
		},
		Hooks{Call: builderCalls, After: watchCalls(names(), names(sigVer))}, func(x *Engine) { e = x })
}

func runC04(c *Check) {
	for _, name := range []string{bldSend, bldRecv} {
		fn := c.anchor(name)
		if fn == nil {
			continue
		}
		var e *Engine
		trusted := func(st *State) ([]*Event, string) {
			var out []*Event
			for _, ev := range st.called(idTrust) {
				if st.boolVal(ev.Res) == 1 && len(ev.Args) == 3 {
					if !e.fromField(ev.Args[2], "IdentityKey") {
						return nil, "the trust decision is not about the presented identity key"
					}
					if !e.fromField(ev.Args[1], "recipientID") && !e.fromField(ev.Args[1], "RecipientID") {
						return nil, "the trust decision is not about the contact"
					}
					out = append(out, ev)
				}
			}
			if len(out) == 0 {
				return nil, "no positive trust decision precedes it"
			}
			return out, ""
		}
		need := func(st *State, ci *CallInfo) string { _, w := trusted(st); return w }
		save := func(st *State, ci *CallInfo) string {
			evs, w := trusted(st)
			if w != "" {
				return w
			}
			for _, ev := range evs {
				if sameTerm(ev.Args[1], ci.Args[1]) && sameTerm(ev.Args[2], ci.Args[2]) {
					return ""
				}
			}
			return "the saved identity is not the one found trusted"
		}
		runGates(c, fn, name, []gate{
			{"trust-before-agreement", func(ci *CallInfo) bool { return isAgree(ci.Name) }, need},
			{"trust-before-store", at(ssStore), need}, {"trust-before-identity", at(idSave), save},
		}, "trust-before-success", func(e *Engine, st *State, x *Exit) string { return need(st, nil) },
			func(e *Engine) {
				e.smallMax = 25
				e.relevant = c.p.reachesNames(func(n string) bool { return isAgree(n) || names(idTrust, ssStore, idSave)(n) })
			},
			Hooks{Call: builderCalls, After: watchCalls(names(), names(idTrust))}, func(x *Engine) { e = x })
	}
	// every caller-visible entry that runs the receiver builder does so before decrypting: covered by C01/C07.
	for _, fn := range c.p.implFns(idTrust) {
		runTrustDecision(c, fn)
	}
}

// implFns lists in-module implementations of an interface method.
func (p *Prog) implFns(method string) []*ssa.Function {
	var out []*ssa.Function
	i := len(method) - 1
	for i >= 0 && method[i] != '.' {
		i--
	}
	short := method[i+1:]
	for _, f := range p.Funcs {
		if f.Name() == short && f.Signature.Recv() != nil && f.Blocks != nil && !p.isGen(f.Pos()) {
			if p.implementsMethod(f, method) {
				out = append(out, f)
			}
		}
	}
	return out
}

func runTrustDecision(c *Check, fn *ssa.Function) {
	var e *Engine
	eq := names("bytes.Equal", "crypto/hmac.Equal", "crypto/subtle.ConstantTimeCompare", "bytes.Compare")
	absent := names("os.IsNotExist", "errors.Is")
	h := Hooks{After: watchCalls(names("os.ReadFile", "io/ioutil.ReadFile"), func(n string) bool { return eq(n) || absent(n) })}
	e = newEngine(c.p, h)
	e.relevant = c.p.reachesNames(func(n string) bool {
		return eq(n) || absent(n) || names("os.Stat", "os.ReadFile", "io/ioutil.ReadFile")(n)
	})
	exits := e.Run(fn)
	c.use(e)
	bad, n := "", 0
	for _, x := range exits {
		if len(x.rets) != 1 {
			continue
		}
		st := x.st.clone()
		if !st.assume(x.rets[0], true) {
			continue
		}
		n++
		if !trustReason(e, st) {
			bad = "a key can be trusted although it is neither a first contact, nor equal to the recorded key, nor covered by the blanket-trust setting (return at " + c.p.pos(x.pos) + ")"
		}
	}
	c.ob("trust-decision", fnName(fn), fn.Pos(), n > 0 && bad == "", bad)
}

func trustReason(e *Engine, st *State) bool {
	for t, v := range st.bf {
		if v && t.k != KCall && (e.fromField(t, "AlwaysTrustPeerID")) && (t.k == KField || t.k == KLoad) {
			return true
		}
	}
	for _, ev := range st.events("guard") {
		switch ev.Name {
		case "os.IsNotExist":
			if st.boolVal(ev.Res) == 1 && e.fromCall(ev.Args[0], names("os.Stat", "os.Lstat", "os.ReadFile", "os.Open", "io/ioutil.ReadFile")) {
				return true
			}
		case "errors.Is":
			if st.boolVal(ev.Res) == 1 && e.it.contains(ev.Args[1], func(y *Expr) bool { return y.k == KGlobal && (y.s == "os.ErrNotExist" || y.s == "io/fs.ErrNotExist") }) {
				return true
			}
		default:
			r := ev.Res
			ok := false
			switch ev.Name {
			case "bytes.Compare":
				ok = st.boolVal(e.bin("==", r, e.it.intConst(0), nil)) == 1
			case "crypto/subtle.ConstantTimeCompare":
				ok = st.boolVal(e.bin("==", r, e.it.intConst(1), nil)) == 1
			default:
				ok = st.boolVal(r) == 1
			}
			if !ok {
				continue
			}
			stored := func(x *Expr) bool { return e.fromCall(x, names("os.ReadFile", "io/ioutil.ReadFile")) }
			mine := func(x *Expr) bool { return e.fromParam(x, 2) && !stored(x) }
			if (stored(ev.Args[0]) && mine(ev.Args[1])) || (stored(ev.Args[1]) && mine(ev.Args[0])) {
				return true
			}
		}
	}
	return false
}

func runC05(c *Check) {
	fn := c.anchor(scEnc)
	if fn == nil {
		return
	}
	var e *Engine
	badAdv, badKeys := "", ""
	nAdv, nKeys := 0, 0
	enc := names("crypto/cipher.NewCBCEncrypter")
	h := Hooks{Call: func(st *State, ci *CallInfo) Action {
		if ci.Name == ssStore || ci.Name == ssLoad || isStoreCall(ci) || keyCodec(ci.Name) {
			return Opaque
		}
		return Default
	}}
	h.Store = func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
		// replacing the sending chain's key
		if addr.k == KFieldAddr && addr.s == "ChainKey" && e.fromField(addr, "SenderChain") {
			st.record(Event{Kind: "advance", Name: "advance", Args: []*Expr{addr, val}, Pos: in.Pos(), Fn: fr.fn, Ctx: fr.ctx})
		}
	}
	h.After = func(st *State, ci *CallInfo, res *Expr) {
		switch {
		case enc(ci.Name):
			nKeys++
			if len(st.events("advance")) > 0 {
				badKeys = "the message is encrypted after the sending chain has been advanced (at " + c.p.pos(ci.Pos()) + ")"
			}
			if len(st.called(ssStore)) > 0 {
				badKeys = "the message is encrypted after the session was stored (at " + c.p.pos(ci.Pos()) + ")"
			}
			trace("C05 cipher %v", ci.Args[0])
			if !e.it.contains(ci.Args[0], func(y *Expr) bool {
				return y.k == KCall && y.s == axo+"DeriveSecrets" && e.fromField(y, "SenderChain")
			}) {
				badKeys = "the cipher key is not derived from the sending chain's key (at " + c.p.pos(ci.Pos()) + ")"
			}
			st.record(Event{Kind: "call", Name: ci.Name, Args: ci.Args, Res: res, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
		case ci.Name == ssStore:
			nAdv++
			adv := st.events("advance")
			if len(adv) == 0 {
				badAdv = "the session is stored without advancing the sending chain (at " + c.p.pos(ci.Pos()) + ")"
			} else if w := c05Advance(e, st, adv[len(adv)-1]); w != "" {
				badAdv = w
			}
			st.record(Event{Kind: "call", Name: ci.Name, Args: ci.Args, Res: res, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
		case ci.Name == ssLoad:
			st.record(Event{Kind: "call", Name: ci.Name, Args: ci.Args, Res: res, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
		}
	}
	e = newEngine(c.p, h)
	e.relevant = c.p.reachesNames(func(n string) bool { return enc(n) || n == ssStore || n == "crypto/hmac.New" })
	delete(e.relevant, c.p.Fn(axo+"DeriveSecrets"))
	exits := e.Run(fn)
	c.use(e)
	bad, n := "", 0
	for _, x := range e.okExits(fn, exits) {
		n++
		w := "a ciphertext is returned without a successful session store"
		loads := x.st.called(ssLoad)
		for _, ev := range x.st.called(ssStore) {
			if e.errNil(x.st, ev) {
				w = ""
				if len(loads) == 0 || len(ev.Args) != 4 || !sameTerm(loads[0].Args[1], ev.Args[1]) || !sameTerm(loads[0].Args[2], ev.Args[2]) {
					w = "the session is stored for another contact or device than it was loaded for"
				} else if !e.fromExpr(ev.Args[3], loads[0].Res) {
					w = "the stored session is not the loaded one"
				}
			}
		}
		if w != "" {
			bad = w + " (return at " + c.p.pos(x.pos) + ")"
		}
	}
	c.ob("stored-before-return", scEnc, fn.Pos(), n > 0 && bad == "", bad)
	c.ob("advanced-before-store", scEnc, fn.Pos(), nAdv > 0 && badAdv == "", badAdv)
	c.ob("keys-of-current-position", scEnc, fn.Pos(), nKeys > 0 && badKeys == "", badKeys)
}

// c05Advance: the new sending chain key must be the successor of the old one.
func c05Advance(e *Engine, st *State, ev *Event) string {
	ck := ev.Args[1].strip()
	get := func(f string) *Expr {
		for a, v := range st.mem {
			if a.k == KFieldAddr && a.s == f && a.a[0] == ck {
				return e.snap(st, v)
			}
		}
		return nil
	}
	idx, key := get("Index"), get("Key")
	if idx == nil || key == nil {
		return "the advanced chain key has no known index or key"
	}
	trace("C05 idx %v key %v", idx, key)
	l := e.linOf(idx)
	if !(l.k == 1 && len(l.c) == 1 && e.fromField(idx, "Index")) {
		return "the advanced sending chain does not continue at the next index: " + fmt.Sprint(idx)
	}
	if !e.fromCall(key, names("hash.Hash.Sum", "crypto/hmac.New")) {
		return "the advanced chain key is not derived"
	}
	return ""
}

func runC07(c *Check) {
	for _, name := range []string{scDec, scPre} {
		fn := c.anchor(name)
		if fn == nil {
			continue
		}
		var e *Engine
		dec := names("crypto/cipher.NewCBCDecrypter")
		bad := ""
		h := Hooks{Call: ratchetCalls}
		wc := watchCalls(func(n string) bool { return n == ssStore || n == ssLoad }, nil)
		h.After = func(st *State, ci *CallInfo, res *Expr) {
			wc(st, ci, res)
			markOnce(st, ci, dec)
		}
		e = newEngine(c.p, h)
		e.smallMax = 25
		e.relevant = c.p.reachesNames(func(n string) bool { return n == ssStore || n == ssLoad || dec(n) })
		exits := e.Run(fn)
		c.use(e)
		n := 0
		for _, x := range e.okExits(fn, exits) {
			n++
			w := "plaintext is returned without a successful session store"
			loads := x.st.called(ssLoad)
			last := -1
			for i, ev := range x.st.ev {
				if dec(ev.Name) {
					last = i
				}
			}
			for i, ev := range x.st.ev {
				if ev.Name != ssStore || !e.errNil(x.st, ev) || i < last {
					continue
				}
				switch {
				case len(loads) == 0:
					w = "no session was loaded"
				case !sameTerm(loads[0].Args[1], ev.Args[1]) || !sameTerm(loads[0].Args[2], ev.Args[2]):
					w = "the session is stored for another contact or device than it was loaded for"
				case !e.fromExpr(ev.Args[3], loads[0].Res):
					w = "the stored session is not the loaded one"
				default:
					w = ""
				}
			}
			if w != "" {
				bad = w + " (return at " + c.p.pos(x.pos) + ")"
			}
		}
		c.ob("stored-before-plaintext", name, fn.Pos(), n > 0 && bad == "", bad)
	}
}

func runC08(c *Check) {
	m := names(ssLoad, ssStore, ssLock, ssUnlock)
	rel := c.p.reachesNames(m)
	for _, fn := range c.p.Funcs {
		if fn.Pkg == nil || c.p.isGen(fn.Pos()) || fn.Parent() != nil {
			continue
		}
		direct := false
		stores := false
		for f := range c.p.reachableFrom(fn) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						n := calleeName(ci.Common())
						if n == ssStore {
							stores = true
						}
						if m(n) && f == fn {
							direct = true
						}
					}
				}
			}
		}
		if !stores || !direct {
			continue
		}
		c08One(c, fn, rel, m)
	}
}

func c08One(c *Check, fn *ssa.Function, rel map[*ssa.Function]bool, m func(string) bool) {
	var e *Engine
	bad := ""
	h := Hooks{Call: func(st *State, ci *CallInfo) Action {
		if isStoreCall(ci) {
			return Opaque
		}
		return Default
	}}
	locked := func(st *State) (bool, int) {
		held := false
		idx := -1
		for i, ev := range st.ev {
			switch ev.Name {
			case ssLock:
				held, idx = true, i
			case ssUnlock:
				held = false
			}
		}
		return held, idx
	}
	h.After = func(st *State, ci *CallInfo, res *Expr) {
		if !m(ci.Name) {
			return
		}
		held, idx := locked(st)
		where := " (at " + c.p.pos(ci.Pos()) + ", path " + c.p.ctxPath(ci.Ctx) + ")"
		switch ci.Name {
		case ssLoad, ssStore:
			if !held {
				bad = "a session is accessed for update without the session lock" + where
			}
			if ci.Name == ssStore {
				for i, ev := range st.ev {
					if ev.Name == ssLoad && i < idx && e.fromExpr(ci.Args[3], ev.Res) {
						bad = "the lock was released between loading and storing the session" + where
					}
				}
			}
		case ssLock:
			if held {
				bad = "the session lock is taken twice (deadlock)" + where
			}
		case ssUnlock:
			if !held {
				bad = "the session lock is released while not held" + where
			}
		}
		st.record(Event{Kind: "call", Name: ci.Name, Args: ci.Args, Res: res, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
	}
	e = newEngine(c.p, h)
	e.smallMax = 25
	e.relevant = rel
	exits := e.Run(fn)
	c.use(e)
	c.ob("locked-load-store", fnName(fn), fn.Pos(), bad == "", bad)
	b2 := ""
	for _, x := range exits {
		if held, _ := locked(x.st); held {
			b2 = "the session lock is still held on a return (at " + c.p.pos(x.pos) + ")"
		}
	}
	c.ob("released-on-exit", fnName(fn), fn.Pos(), b2 == "" && len(exits) > 0, b2)
}

func runC09(c *Check) {
	fn := c.anchor(scPre)
	if fn == nil {
		return
	}
	var e *Engine
	dec := names("crypto/cipher.NewCBCDecrypter")
	after := func(st *State, ci *CallInfo) string {
		ok := false
		last := -1
		for i, ev := range st.ev {
			if dec(ev.Name) {
				last = i
			}
		}
		for i, ev := range st.ev {
			if ev.Name == ssStore && e.errNil(st, ev) && i > last {
				ok = true
			}
		}
		if last < 0 {
			return "a one-time pre-key is removed before the message was decrypted"
		}
		if !ok {
			return "a one-time pre-key is removed before its session was stored successfully"
		}
		if !e.fromField(ci.Args[1], "PreKeyID") {
			return "the removed pre-key is not the one the message named"
		}
		return ""
	}
	notLast := func(st *State, ci *CallInfo) string {
		if st.boolVal(e.bin("==", ci.Args[1], e.it.mk(Expr{k: KConst, s: "16777215", n: 16777215, isInt: true, t: ci.Args[1].t}, ""), nil)) != 0 {
			lo, hi := st.interval(e.linOf(ci.Args[1]))
			if !(lo > 0xFFFFFF || hi < 0xFFFFFF) {
				return "the last-resort pre-key can be removed"
			}
		}
		if st.boolVal(e.bin("==", ci.Args[1], e.it.mk(Expr{k: KConst, s: "0", n: 0, isInt: true, t: ci.Args[1].t}, ""), nil)) != 0 {
			if lo, _ := st.interval(e.linOf(ci.Args[1])); lo < 1 {
				return "a pre-key can be removed although the message names none"
			}
		}
		return ""
	}
	wc := watchCalls(func(n string) bool { return n == ssStore || n == pkRemove || n == pkLoad }, nil)
	h := Hooks{Call: ratchetCalls, After: func(st *State, ci *CallInfo, res *Expr) {
		wc(st, ci, res)
		markOnce(st, ci, dec)
	}}
	runGates(c, fn, scPre, []gate{
		{"removal-after-store", at(pkRemove), after}, {"last-resort-kept", at(pkRemove), notLast},
	}, "used-key-removed", func(e *Engine, st *State, x *Exit) string {
		for _, ld := range st.called(pkLoad) {
			gone := false
			for _, rm := range st.called(pkRemove) {
				if sameTerm(rm.Args[1], ld.Args[1]) || e.linKey(rm.Args[1]) == e.linKey(ld.Args[1]) {
					gone = true
				}
			}
			if !gone {
				lo, hi := st.interval(e.linOf(ld.Args[1]))
				if lo == 0xFFFFFF && hi == 0xFFFFFF || st.boolVal(e.bin("==", ld.Args[1], e.it.mk(Expr{k: KConst, s: "16777215", n: 16777215, isInt: true, t: ld.Args[1].t}, ""), nil)) == 1 {
					continue
				}
				return "the one-time pre-key a session was built with is not removed"
			}
		}
		return ""
	}, func(e *Engine) {
		e.smallMax = 25
		e.relevant = c.p.reachesNames(func(n string) bool { return n == ssStore || n == pkRemove || n == pkLoad || dec(n) })
	}, h, func(x *Engine) { e = x })
}
