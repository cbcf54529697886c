package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	sdWhisper = axo + "SessionCipher.SessionDecryptWhisperMessage"
	sdPreKey  = axo + "SessionCipher.SessionDecryptPreKeyWhisperMessage"
	newCipher = axo + "NewSessionCipher"
)

// receiving is the part of the program between the envelope and the
// application's callbacks.
type receiving struct {
	c         *Check
	callbacks map[*types.Var]string // function fields of the Client structure
	content   map[*types.Var]string // message kinds inside Content
	sync      map[*types.Var]string // and inside SyncMessage
	envType   map[string]string     // values of Envelope.Type
	envField  map[*types.Var]string
	sender    map[*types.Var]bool // the sender field of the sealed-sender answer
	ownUUID   map[*types.Var]bool // the account's own id
	sealed    string              // canonical name of the sealed-sender call
	roots     []*ssa.Function
	rel       map[*ssa.Function]bool
	e         *Engine
}

// handlerOf: the callback each kind of message is meant for.
var handlerOf = map[string]string{
	"DataMessage": "MessageHandler", "TypingMessage": "TypingMessageHandler", "ReceiptMessage": "ReceiptMessageHandler",
	"CallMessage": "CallMessageHandler", "Sync.Sent": "SyncSentHandler", "Sync.Read": "SyncReadHandler", "RECEIPT": "ReceiptHandler",
}

func (c *Check) structFields(pkgSuffix, name string) map[*types.Var]string {
	out := map[*types.Var]string{}
	for _, pk := range c.p.Pkgs {
		if pk.PkgPath == Mod+pkgSuffix {
			if o := pk.Types.Scope().Lookup(name); o != nil {
				if s, ok := o.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						out[s.Field(i)] = s.Field(i).Name()
					}
				}
			}
		}
	}
	if len(out) == 0 {
		c.fail("anchor", name, "", "the structure "+name+" was not found", "")
	}
	return out
}

func (c *Check) receiving() *receiving {
	r := &receiving{c: c, content: map[*types.Var]string{}, sync: map[*types.Var]string{}, envType: map[string]string{}, sender: map[*types.Var]bool{}, ownUUID: map[*types.Var]bool{}, rel: map[*ssa.Function]bool{}}
	r.callbacks = map[*types.Var]string{}
	for v, n := range c.structFields("", "Client") {
		if _, ok := v.Type().Underlying().(*types.Signature); ok && (strings.HasSuffix(n, "Handler") || n == "RegistrationDone") {
			r.callbacks[v] = n
		}
	}
	for v, n := range c.structFields("/protobuf", "Content") {
		if v.Exported() {
			r.content[v] = n
		}
	}
	for v, n := range c.structFields("/protobuf", "SyncMessage") {
		if v.Exported() {
			r.sync[v] = n
		}
	}
	r.envField = c.structFields("/protobuf", "Envelope")
	for _, pk := range c.p.Pkgs {
		if pk.PkgPath == Mod+"/protobuf" {
			for _, n := range pk.Types.Scope().Names() {
				if k, ok := pk.Types.Scope().Lookup(n).(*types.Const); ok && strings.HasPrefix(n, "Envelope_") && strings.HasSuffix(k.Type().String(), ".Envelope_Type") {
					r.envType[k.Val().ExactString()] = strings.TrimPrefix(n, "Envelope_")
				}
			}
		}
	}
	for v, n := range c.structFields("/crayfish", "Sender") {
		if n == "UUID" {
			r.sender[v] = true
		}
	}
	for v, n := range c.structFields("/config", "Config") {
		if n == "UUID" {
			r.ownUUID[v] = true
		}
	}
	h := c.anchor("ts/crayfish.CrayfishInstance.HandleEnvelope")
	r.sealed = fnName(h)
	// the lowest function from which every decryption and every callback can
	// be reached
	var need []map[*ssa.Function]bool
	for _, n := range []string{sdWhisper, sdPreKey, r.sealed} {
		n := n
		need = append(need, c.p.reachesCall(func(cc *ssa.CallCommon) bool { return calleeName(cc) == n }))
	}
	reads := func(is func(n string) bool) map[*ssa.Function]bool {
		return c.p.reachesInstr(func(in ssa.Instruction) bool {
			fa, ok := in.(*ssa.FieldAddr)
			if !ok {
				return false
			}
			n, ok := r.callbacks[fieldOf(fa.X.Type(), fa.Field)]
			return ok && is(n)
		})
	}
	for _, h := range handlerOf {
		h := h
		need = append(need, reads(func(n string) bool { return n == h }))
	}
	notifies := reads(func(n string) bool { return strings.HasSuffix(n, "Handler") })
	score := func(f *ssa.Function) int {
		n := 0
		for _, m := range need {
			if m[f] {
				n++
			}
		}
		if inCmd(f) || f.Synthetic != "" || !notifies[f] {
			return 0
		}
		return n
	}
	most := 1
	for _, f := range c.p.AllFuncs {
		most = max(most, score(f))
	}
	both := func(f *ssa.Function) bool { return score(f) == most }
	for _, f := range c.p.AllFuncs {
		if !both(f) {
			continue
		}
		low := true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range c.p.targets(ci.Common()) {
						if g != f && both(g) {
							low = false
						}
					}
				}
			}
		}
		if low {
			r.roots = append(r.roots, f)
		}
	}
	sort.Slice(r.roots, func(i, j int) bool { return r.roots[i].Pos() < r.roots[j].Pos() })
	r.rel = notifies
	return r
}

func (r *receiving) decrypts(n string) bool { return n == sdWhisper || n == sdPreKey || n == r.sealed }

// opener: the routine that decrypts a type of envelope.
func (r *receiving) opener(t string) string {
	switch t {
	case "CIPHERTEXT":
		return sdWhisper
	case "PREKEY_BUNDLE":
		return sdPreKey
	case "UNIDENTIFIED_SENDER":
		return r.sealed
	}
	return ""
}

// varOf: the struct field a term is read from.
func varOf(x *Expr) *types.Var {
	x = x.strip()
	for x.k == KLoad {
		x = x.a[0]
	}
	if x.k == KField || x.k == KFieldAddr {
		v, _ := x.obj.(*types.Var)
		return v
	}
	return nil
}

// callback: the Client field a call goes through.
func (r *receiving) callback(ci *CallInfo) string {
	if ci.Name != "" || ci.FnVal == nil {
		return ""
	}
	return r.callbacks[varOf(ci.FnVal)]
}

// branch records what a branch says about the kind of message at hand.
func (r *receiving) branch(e *Engine, st *State, in *ssa.If, cond *Expr, val bool) {
	for cond.k == KUn && cond.s == "!" {
		cond, val = cond.a[0], !val
	}
	if n := cond; n.k == KBin {
		for _, x := range n.a {
			if x.k == KCall && x.s == "builtin.len" && len(x.a) == 1 {
				r.part(e, st, x.a[0])
			}
		}
	}
	if cond.k != KBin || cond.s != "==" {
		return
	}
	a, b := cond.a[0], cond.a[1]
	if a.isNil() || b.isNil() {
		x := a
		if a.isNil() {
			x = b
		}
		v := varOf(x)
		n := r.content[v]
		if n == "" && r.sync[v] != "" {
			n = "Sync." + r.sync[v]
		}
		switch {
		case v == nil:
		case n != "" && val:
			st.recordSet(Event{Kind: "nokind", Name: n})
		case n != "":
			st.recordSet(Event{Kind: "kind", Name: n, Args: []*Expr{x}})
		case r.callbacks[v] != "" && val:
			st.recordSet(Event{Kind: "unset", Name: r.callbacks[v]})
		}
		return
	}
	if cst, x := constSide(a, b); cst != nil && val {
		if v := varOf(x); v != nil && r.envField[v] == "Type" && r.envType[cst.s] != "" {
			st.recordSet(Event{Kind: "type", Name: r.envType[cst.s], Args: []*Expr{x}})
		}
	}
}

// part: what the length of a list says about the presence of a part.
func (r *receiving) part(e *Engine, st *State, x *Expr) {
	v := varOf(x)
	n := r.content[v]
	if n == "" && r.sync[v] != "" {
		n = "Sync." + r.sync[v]
	}
	if v == nil || n == "" {
		return
	}
	lo, hi := st.interval(e.lenLin(x.strip()))
	if lo > 0 {
		st.recordSet(Event{Kind: "kind", Name: n, Args: []*Expr{x}})
	} else if hi == 0 {
		st.recordSet(Event{Kind: "nokind", Name: n})
	}
}

// hooks are the parts common to the rules.
func (r *receiving) hooks(e **Engine, each func(st *State, ci *CallInfo) Action) Hooks {
	return Hooks{
		Call: func(st *State, ci *CallInfo) Action {
			if n := r.callback(ci); n != "" {
				st.record(Event{Kind: "callback", Name: n, Args: ci.Args, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
			}
			if each != nil {
				if a := each(st, ci); a != Default {
					return a
				}
			}
			if r.decrypts(ci.Name) || ci.Name == newCipher {
				return Opaque
			}
			return Default
		},
		After: func(st *State, ci *CallInfo, res *Expr) {
			switch {
			case r.decrypts(ci.Name):
				trace("decrypt %s %s", ci.Name, res)
				st.record(Event{Kind: "decrypt", Name: ci.Name, Args: ci.Args, Res: res, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
			case ci.Site != nil && isDecode(ci.Name) && into(ci.Site) == "Content":
				st.record(Event{Kind: "parse", Name: ci.Name, Args: ci.Args, Res: res, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
			}
		},
		Branch: func(st *State, fr *Frame, in *ssa.If, cond *Expr, val bool) { r.branch(*e, st, in, cond, val) },
	}
}

func has(st *State, kind, name string) bool {
	for _, ev := range st.events(kind) {
		if ev.Name == name {
			return true
		}
	}
	return false
}

func init() {
	register(&propDef{
		ID: "C20",
		Expl: "The disjunctive dataflow covers the receive path, from the lowest function that both decrypts envelopes and notifies the application. dispatched: at every error-free way out with a parsed content, the callback made for the kind of content found must have been called or found unset; if no kind was found, every kind must have been looked for; a synchronisation message likewise for its sent and read parts; an envelope that is a receipt must reach the receipt callback. " +
			"opened: at every error-free way out, an envelope of a message type must have been given to a decryption, and an envelope of no known type must not be accepted. not-dropped: on every way out, a message a session decrypted must have been parsed. " +
			"own-callback: each callback that is called must be one for the kind found. guarded: every call of an optional callback must lie behind a test that it is set.",
		Assume:  []string{"a content carries one kind of message"},
		Minimum: map[string]int{"dispatched": 6, "not-dropped": 2, "own-callback": 6, "guarded": 8, "opened": 3},
		Run:     runC20,
	})
}

func runC20(c *Check) {
	r := c.receiving()
	c.ob("anchor", "receive", 0, len(r.roots) > 0, "no function both decrypts envelopes and notifies the application")
	type key struct{ rule, key string }
	results := map[key]struct {
		ok   bool
		site *Event
		pos  string
		det  string
	}{}
	var order []key
	put := func(rule, k string, ok bool, where, det string) {
		kk := key{rule, k}
		old, seen := results[kk]
		if !seen {
			order = append(order, kk)
		}
		if seen && !old.ok {
			return
		}
		results[kk] = struct {
			ok   bool
			site *Event
			pos  string
			det  string
		}{ok, nil, where, det}
	}
	readCalled := false
	for _, root := range r.roots {
		var e *Engine
		h := r.hooks(&e, nil)
		e = newEngine(c.p, h)
		e.capStates, e.capExits = 32, 32
		r.e = e
		e.relevant = r.rel
		exits := e.Run(root)
		c.useBounded(e)
		for _, x := range exits {
			for _, d := range x.st.events("decrypt") {
				st := x.st
				if d.Name == r.sealed || st.isNil(e.result(d.Res, 1, 2, errT(d.Res.t, 1))) == 0 {
					continue
				}
				good := false
				for _, p := range st.events("parse") {
					good = good || e.it.contains(p.Args[0], func(y *Expr) bool { return y == d.Res })
				}
				put("not-dropped", c.p.pos(d.Pos), good, c.p.pos(x.pos), "a message that was decrypted is dropped: its content is not looked at")
			}
		}
		for _, x := range e.okExits(root, exits) {
			where := c.p.pos(x.pos)
			if debugOn {
				var s []string
				for _, ev := range x.st.ev {
					s = append(s, ev.Kind+":"+ev.Name)
				}
				trace("C20 exit %s %v", where, s)
			}
			parsed := x.st.events("parse")
			// what the envelope is
			types := x.st.events("type")
			switch {
			case len(types) == 0:
				put("opened", "other", false, where, "an envelope of an unknown type is accepted")
			case has(x.st, "type", "RECEIPT"):
				put("dispatched", "RECEIPT", has(x.st, "callback", "ReceiptHandler") || has(x.st, "unset", "ReceiptHandler"), where, "a receipt does not reach ReceiptHandler")
			default:
				for _, t := range types {
					ds := x.st.events("decrypt")
					put("opened", t.Name, len(ds) > 0, where, "an envelope of type "+t.Name+" is dropped without being decrypted")
					for _, d := range ds {
						put("opened", t.Name, d.Name == r.opener(t.Name), where, "an envelope of type "+t.Name+" is decrypted with "+d.Name)
					}
				}
			}
			if len(parsed) == 0 {
				continue
			}
			found := false
			need := func(k string) {
				h := handlerOf[k]
				done := has(x.st, "callback", h) || has(x.st, "unset", h)
				put("dispatched", k, done, where, "a "+k+" does not reach "+h)
			}
			for _, k := range []string{"DataMessage", "TypingMessage", "ReceiptMessage", "CallMessage", "SyncMessage"} {
				if !has(x.st, "kind", k) {
					continue
				}
				found = true
				if k != "SyncMessage" {
					need(k)
					continue
				}
				for _, s := range []string{"Sync.Sent", "Sync.Read"} {
					switch {
					case has(x.st, "kind", s) && s == "Sync.Read":
						// one call for each element; some way must make one
						readCalled = readCalled || has(x.st, "callback", handlerOf[s])
					case has(x.st, "kind", s):
						need(s)
					case !otherKind(x.st, "Sync."):
						put("dispatched", s, has(x.st, "nokind", s), where, "a synchronisation message is accepted without looking for its "+strings.TrimPrefix(s, "Sync.")+" part")
					}
				}
			}
			if !found && !otherKind(x.st, "") {
				for _, k := range []string{"DataMessage", "TypingMessage", "ReceiptMessage", "CallMessage", "SyncMessage"} {
					put("dispatched", k, has(x.st, "nokind", k), where, "a content is accepted without looking for a "+k+" in it")
				}
			}
			allowed := map[string]bool{}
			for _, ev := range append(x.st.events("kind"), x.st.events("type")...) {
				allowed[handlerOf[ev.Name]] = true
				if ev.Name == "CallMessage" && has(x.st, "unset", "CallMessageHandler") {
					allowed["MessageHandler"] = true
				}
			}
			for _, cb := range x.st.events("callback") {
				put("own-callback", cb.Name, allowed[cb.Name], c.p.pos(cb.Pos), cb.Name+" is called for a message of another kind")
			}
		}
	}
	put("dispatched", "Sync.Read", readCalled, "", "read marks do not reach SyncReadHandler")
	for _, k := range order {
		v := results[k]
		c.rules[k.rule]++
		if v.ok {
			c.ok[k.rule]++
			c.samples = append(c.samples, k.rule+": "+k.key)
		} else {
			c.fail(k.rule, k.key, v.pos, v.det, "")
		}
	}
	// callbacks are called only when set
	dyn := func(in ssa.Instruction) bool {
		cc := callOf(in)
		if cc == nil || cc.IsInvoke() || cc.StaticCallee() != nil {
			return false
		}
		_, b := cc.Value.(*ssa.Builtin)
		return !b
	}
	called := map[string]bool{}
	c.upwardTo("guarded", c.startsWith(dyn, func(f *ssa.Function) bool { return !inCmd(f) }), func(root, target *ssa.Function, res *rootResult, rel map[*ssa.Function]bool) {
		var e *Engine
		e = newEngine(c.p, Hooks{Call: func(st *State, ci *CallInfo) Action {
			if n := r.callback(ci); n != "" && ci.In == target {
				called[n] = true
				res.put(fnName(target)+" "+n, ci.Pos(), target, st.isNil(ci.FnVal) == 0, "the callback "+n+" is called although the application may not have set it", c.p.ctxPath(ci.Ctx))
			}
			return Default
		}})
		e.relevant = rel
		e.Run(root)
		c.useBounded(e)
	}, 2, nil)
	var names []string
	for _, n := range r.callbacks {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		c.ob("guarded", "called "+n, 0, called[n], "the callback "+n+" is never called")
	}
}

// otherKind: some part of the content (of the synchronisation message) was found.
func otherKind(st *State, prefix string) bool {
	for _, ev := range st.events("kind") {
		if strings.HasPrefix(ev.Name, "Sync.") == (prefix != "") {
			return true
		}
	}
	return false
}

func (r *receiving) in(x, y *Expr) bool {
	return r.e.it.contains(x, func(z *Expr) bool { return z == y })
}

// authentic: x is the sender the decryption of the message at hand vouches
// for. Which one is looked at depends on the way the message came.
func (r *receiving) authentic(st *State, x *Expr) bool {
	x = x.strip()
	ds := st.events("decrypt")
	if len(ds) == 0 {
		return false
	}
	d := ds[len(ds)-1]
	v := varOf(x)
	if v == nil {
		return false
	}
	if d.Name == r.sealed {
		return r.sender[v] && d.Res != nil && r.in(x, d.Res)
	}
	if r.envField[v] != "SourceUuid" {
		return false
	}
	rec := r.cipherArg(d, 4)
	return rec != nil && r.in(rec, x)
}

// cipherArg: an argument of the construction of the cipher a message was
// decrypted with.
func (r *receiving) cipherArg(d *Event, i int) *Expr {
	c := d.Args[0].strip()
	if c.k != KCall || c.s != newCipher || len(c.a) <= i {
		return nil
	}
	return c.a[i].strip()
}

// entered: functions the sync rules look into rather than at.
func (r *receiving) entered(f *ssa.Function) bool {
	for _, p := range f.Params {
		t := p.Type()
		for {
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				t = u.Elem()
				continue
			case *types.Slice:
				t = u.Elem()
				continue
			}
			break
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == Mod+"/protobuf" {
			switch nm := n.Obj().Name(); {
			case nm == "Envelope", nm == "Content", nm == "SyncMessage", strings.HasPrefix(nm, "SyncMessage_"):
				return true
			}
		}
	}
	return false
}

func init() {
	register(&propDef{
		ID:      "C21",
		Expl:    "The disjunctive dataflow follows every received envelope through decryption and parsing. On each way on which the content was found to carry a synchronisation message, every effect - a callback of the application, a request to the server, a write to the stored sessions, contacts or groups, an answer sent - must lie behind a test that the authenticated sender is the account's own id and behind one that it is not empty. The authenticated sender is the source of the envelope for the session that decrypted it, and the address in the sender certificate for sealed messages.",
		Assume:  []string{"the session of an address belongs to it (C03, C04)", "the crayfish backend verifies sender certificates"},
		Minimum: map[string]int{"own-account": 6},
		Run:     runC21,
	})
	register(&propDef{
		ID:      "C22",
		Expl:    "The disjunctive dataflow follows every received envelope through decryption and parsing. session: the session a message is decrypted with is that of the source and device of the envelope the message came in. attributed: the sender in each message handed to a callback, and the name whose sessions or profile key are changed, is the source of the envelope for whose session it was decrypted, or for a sealed message the address in the sender certificate. receipt: the source, device and time handed to ReceiptHandler are those of the envelope.",
		Assume:  []string{"the crayfish backend verifies sender certificates", "what the user's own devices report as sent names the recipient instead"},
		Minimum: map[string]int{"session": 2, "attributed": 6, "receipt": 1},
		Run:     runC22,
	})
}

func runC21(c *Check) {
	r := c.receiving()
	c.ob("anchor", "receive", 0, len(r.roots) > 0, "no function both decrypts envelopes and notifies the application")
	leaf := func(in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.MapUpdate:
			return globalMap(in.Map)
		case ssa.CallInstruction:
			cc := in.Common()
			if cc.IsInvoke() {
				o := cc.Method
				if o.Pkg() == nil {
					return false
				}
				p := o.Pkg().Path()
				return p == Mod+"/transport" || p == Mod+"/axolotl" && !strings.HasPrefix(o.Name(), "Load") && !strings.HasPrefix(o.Name(), "Contains") && !strings.HasPrefix(o.Name(), "Get")
			}
			n := calleeName(cc)
			if writeLeaf(n) || n == "os.Remove" || n == "os.RemoveAll" || strings.HasPrefix(n, "net/http.Client.") || strings.HasPrefix(n, "github.com/gorilla/websocket.Conn.Write") {
				return true
			}
			if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
				return globalMap(cc.Args[0])
			}
			if cc.StaticCallee() == nil && !isBuiltin(cc) {
				return r.callbacks[loadedField(cc.Value)] != ""
			}
		}
		return false
	}
	effects := c.p.reachesInstr(leaf)
	for _, root := range r.roots {
		res := &rootResult{inst: map[string]instRes{}}
		var e *Engine
		own := func(st *State) string {
			why := "the sender of the message was not compared with the own account"
			for k, v := range st.bf {
				if !v || k.k != KBin && k.k != KCall {
					continue
				}
				var a, b *Expr
				switch {
				case k.k == KBin && k.s == "==":
					a, b = k.a[0], k.a[1]
				case k.k == KCall && (k.s == "strings.EqualFold" || k.s == "bytes.Equal") && len(k.a) == 2:
					a, b = k.a[0], k.a[1]
				default:
					continue
				}
				for i := 0; i < 2; i++ {
					if r.ownUUID[varOf(b)] && varOf(a) != nil {
						if !r.authentic(st, a) {
							why = "what was compared with the own account is not the authenticated sender"
						} else if !nonEmpty(e, st, a) && !nonEmpty(e, st, b) {
							return "the sender and the own id may both be empty"
						} else {
							return ""
						}
					}
					a, b = b, a
				}
			}
			return why
		}
		check := func(st *State, ci *CallInfo, what string) {
			if !has(st, "kind", "SyncMessage") {
				return
			}
			why := own(st)
			trace("C21 %s %s: %s", c.p.pos(ci.Pos()), what, why)
			res.put(what+" in "+fnName(ci.In), ci.Pos(), ci.In, why == "", "the effect of a synchronisation message, but "+why, c.p.ctxPath(ci.Ctx))
		}
		h := r.hooks(&e, func(st *State, ci *CallInfo) Action {
			if ci.Site == nil {
				return Default
			}
			if n := r.callback(ci); n != "" {
				check(st, ci, n)
				return Opaque
			}
			if leaf(ci.Site.(ssa.Instruction)) {
				check(st, ci, ci.Name)
				return Default
			}
			if r.decrypts(ci.Name) || ci.Name == newCipher {
				return Default
			}
			for _, g := range c.p.targets(ci.Site.Common()) {
				if effects[g] && !r.entered(g) && has(st, "kind", "SyncMessage") {
					check(st, ci, fnName(g))
					return Opaque
				}
			}
			return Default
		})
		e = newEngine(c.p, h)
		r.e = e
		rel := map[*ssa.Function]bool{}
		for f := range r.rel {
			rel[f] = true
		}
		for f := range effects {
			if r.entered(f) {
				rel[f] = true
			}
		}
		e.relevant = rel
		e.Run(root)
		c.useBounded(e)
		for _, k := range res.order {
			i := res.inst[k]
			c.ob("own-account", k, i.pos, i.ok, i.detail)
		}
	}
}

func isBuiltin(cc *ssa.CallCommon) bool {
	_, ok := cc.Value.(*ssa.Builtin)
	return ok
}

// globalMap: a map held in a package variable.
func globalMap(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok {
		_, ok = u.X.(*ssa.Global)
		return ok
	}
	return false
}

// loadedField: the field a function value is loaded from.
func loadedField(v ssa.Value) *types.Var {
	if u, ok := v.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fieldOf(fa.X.Type(), fa.Field)
		}
	}
	return nil
}

// nonEmpty: the string is known not to be empty.
func nonEmpty(e *Engine, st *State, x *Expr) bool {
	x = x.strip()
	for k, v := range st.bf {
		if !v && k.k == KBin && k.s == "==" {
			if cst, y := constSide(k.a[0], k.a[1]); cst != nil && y.strip() == x && (cst.s == `""` || cst.s == "") {
				return true
			}
		}
	}
	if s, ok := st.eq[x]; ok && s != "" && s != `""` {
		return true
	}
	lo, _ := st.interval(e.lenLin(x))
	return lo > 0
}

func runC22(c *Check) {
	r := c.receiving()
	c.ob("anchor", "receive", 0, len(r.roots) > 0, "no function both decrypts envelopes and notifies the application")
	msgField := map[string]*types.Var{}
	for v, n := range c.structFields("", "Message") {
		msgField[n] = v
	}
	const resets = axo + "SessionStore.DeleteAllSessions"
	changes := names("ts/contacts.UpdateProfileKey", resets, "ts.store.DeleteAllSessions")
	for _, root := range r.roots {
		res := &rootResult{inst: map[string]instRes{}}
		var e *Engine
		h := r.hooks(&e, func(st *State, ci *CallInfo) Action {
			if changes(ci.Name) && (!has(st, "kind", "SyncMessage") || ci.Name == "ts/contacts.UpdateProfileKey") && len(ci.Args) > 0 {
				i := 0
				if ci.Name != "ts/contacts.UpdateProfileKey" {
					i = 1
				}
				good := true
				for _, who := range e.elementsOf(st, ci.Args[i]) {
					for who = who.strip(); who.k == KSlice; {
						who = who.a[0].strip()
					}
					good = good && r.authentic(st, who)
				}
				res.put(ci.Name, ci.Pos(), ci.In, good, "the name given to "+ci.Name+" is not the authenticated sender of the message", c.p.ctxPath(ci.Ctx))
				return Opaque
			}
			n := r.callback(ci)
			switch n {
			case "MessageHandler", "TypingMessageHandler", "ReceiptMessageHandler", "CallMessageHandler":
				for _, f := range []string{"sourceUUID", "source"} {
					v := msgField[f]
					if v == nil || len(ci.Args) == 0 {
						res.put(n+" "+f, ci.Pos(), ci.In, false, "the message has no "+f, "")
						continue
					}
					a := ci.Args[len(ci.Args)-1]
					x := e.read(st, e.fieldAddr(a, v, fieldIndex(a.t, f)), v.Type())
					good := r.authentic(st, x) || f == "source" && x.k == KConst && (x.s == "" || x.s == `""`)
					trace("C22 %s %s %s %v", n, f, x, good)
					res.put(n+" "+f, ci.Pos(), ci.In, good, "the "+f+" of the message given to "+n+" is not its authenticated sender", c.p.ctxPath(ci.Ctx))
				}
			case "ReceiptHandler":
				a := ci.Args[len(ci.Args)-3:]
				good := true
				for i, f := range []string{"SourceUuid", "SourceDevice", "Timestamp"} {
					v := varOf(a[i])
					good = good && v != nil && r.envField[v] == f
				}
				res.put(n, ci.Pos(), ci.In, good, "a receipt is not handed on with the source, device and time of its envelope", c.p.ctxPath(ci.Ctx))
			}
			return Default
		})
		after := h.After
		h.After = func(st *State, ci *CallInfo, rs *Expr) {
			after(st, ci, rs)
			if ci.Name == sdWhisper || ci.Name == sdPreKey {
				d := &Event{Name: ci.Name, Args: ci.Args}
				rec, dev := r.cipherArg(d, 4), r.cipherArg(d, 5)
				why := ""
				switch {
				case rec == nil || dev == nil:
					why = "the session cipher is of unknown make"
				case r.envPart(ci.Args[1], "Content") == nil:
					why = "the message is not the content of an envelope"
				case r.envPart(rec, "SourceUuid") != r.envPart(ci.Args[1], "Content"):
					why = "the session is not that of the source of the envelope"
				case r.envPart(dev, "SourceDevice") != r.envPart(ci.Args[1], "Content"):
					why = "the session is not that of the device the envelope came from"
				}
				res.put(ci.Name, ci.Pos(), ci.In, why == "", why, c.p.ctxPath(ci.Ctx))
			}
		}
		e = newEngine(c.p, h)
		r.e = e
		rel := map[*ssa.Function]bool{}
		for f := range r.rel {
			rel[f] = true
		}
		for f := range c.p.reachesCall(func(cc *ssa.CallCommon) bool { return changes(calleeName(cc)) }) {
			if r.rel[f] || f.Pkg == root.Pkg {
				rel[f] = true
			}
		}
		e.relevant = rel
		e.Run(root)
		c.useBounded(e)
		for _, k := range res.order {
			i := res.inst[k]
			rule := "attributed"
			switch {
			case strings.HasPrefix(k, axo+"SessionCipher"):
				rule = "session"
			case k == "ReceiptHandler":
				rule = "receipt"
			}
			c.ob(rule, k, i.pos, i.ok, i.detail)
		}
	}
}

// envPart: the envelope whose field the term is made from.
func (r *receiving) envPart(x *Expr, field string) *Expr {
	var env *Expr
	r.e.it.contains(x, func(y *Expr) bool {
		if v := varOf(y); v != nil && r.envField[v] == field {
			z := y
			for z.k == KLoad {
				z = z.a[0]
			}
			env = z.a[0].strip()
			return true
		}
		return false
	})
	return env
}
