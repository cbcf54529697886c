package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&propDef{
		ID: "C30",
		Expl: "Every path of the two exported functions that begin a session (from a pre-key bundle, from a first message) and of the exported functions that encrypt and decrypt was followed symbolically, key agreements and derivations included. " +
			"agreement: the sequences of agreements fed to the derivation, written as pairs (starter's key, receiver's key), are the same set on both sides. " +
			"one-time: the one-time agreement takes part exactly when a one-time key is named; the keys are the named ones. " +
			"chains: the halves of what is derived become root and chain keys, belonging to the ratchet keys both sides will use. " +
			"bound: identities, base key, registration ids and version of the session are those of this agreement. " +
			"step: when a new ratchet key arrives, the receiving chain comes from the old root key, the sending chain and the new root key from the root key derived with it. " +
			"sent: while unanswered, every message carries identity, base key and pre-key ids of the session. " +
			"answered: the ids are dropped only after a message was authenticated.",
		Assume:  []string{"x/crypto's curve25519 and hkdf behave as documented", "no two distinct in-module struct fields alias"},
		Minimum: map[string]int{"agreement": 1, "one-time": 2, "chains": 2, "bound": 2, "step": 1, "sent": 1, "answered": 1},
		Run:     runC30,
	})
}

// keyUsed says whose key a term is, and which half.
type keyUsed struct {
	whose string // "own identity", "their base", …
	id    *Expr  // the pair, for fresh ones
	arg   *Expr  // the id a stored key was loaded with
	priv  bool
}

// keySource finds the one key a term is made of.
func (e *Engine) keySource(st *State, x *Expr) *keyUsed {
	var found []*keyUsed
	seen := map[*Expr]bool{}
	var walk func(x *Expr, field string)
	add := func(k keyUsed, field string) {
		k.priv = field == "private"
		for _, f := range found {
			if f.whose == k.whose && f.id == k.id && f.priv == k.priv {
				return
			}
		}
		found = append(found, &k)
	}
	walk = func(x *Expr, field string) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if x.k == KFieldAddr || x.k == KField {
			switch n := x.obj.Name(); n {
			case "PrivateKey", "SenderRatchetKeyPrivate":
				field = "private"
			case "PublicKey", "SenderRatchetKey":
				if field == "" {
					field = "public"
				}
			}
			own := derefT(x.a[0].t)
			switch {
			case namedIs(own, axoPath, "PreKeyBundle"), namedIs(own, axoPath, "PreKeyWhisperMessage"):
				switch x.obj.Name() {
				case "IdentityKey":
					add(keyUsed{whose: "their identity"}, field)
				case "SignedPreKeyPublic":
					add(keyUsed{whose: "their signed"}, field)
				case "PreKeyPublic":
					add(keyUsed{whose: "their one-time"}, field)
				case "BaseKey":
					add(keyUsed{whose: "their base"}, field)
				default:
					add(keyUsed{whose: "field " + x.obj.Name()}, field)
				}
				return
			case namedIs(own, axoPath, "WhisperMessage") && x.obj.Name() == "RatchetKey":
				add(keyUsed{whose: "their ratchet"}, field)
				return
			case namedIs(own, protoPath, "SessionStructure"), namedIs(own, protoPath, "SessionStructure_Chain"):
				if v := e.read(st, addrOf(x), x.t); x.k == KFieldAddr && v.k != KLoad {
					walk(v, field)
					return
				}
				n := x.obj.Name()
				if n == "SenderRatchetKeyPrivate" {
					n = "SenderRatchetKey"
				}
				add(keyUsed{whose: "session " + n}, field)
				return
			}
		}
		switch x.k {
		case KFieldAddr, KAlloc, KIndexAddr:
			v := e.read(st, x, derefT(x.t))
			if !(v.k == KLoad && v.a[0] == x) && v.k != KMut && v.k != KZero {
				walk(v, field)
				return
			}
			if cp := e.lastCopy(st, x); cp != nil {
				walk(cp.Args[1], field)
				return
			}
			if x.k != KAlloc {
				walk(x.a[0], field)
			}
		case KCall:
			switch {
			case strings.HasSuffix(x.s, "IdentityStore.GetIdentityKeyPair"):
				add(keyUsed{whose: "own identity"}, field)
			case strings.HasSuffix(x.s, "SignedPreKeyStore.LoadSignedPreKey"):
				add(keyUsed{whose: "own signed", arg: x.a[len(x.a)-1]}, field)
			case strings.HasSuffix(x.s, "PreKeyStore.LoadPreKey"):
				add(keyUsed{whose: "own one-time", arg: x.a[len(x.a)-1]}, field)
			case x.s == axo+"NewECKeyPair", x.s == axo+"GenerateIdentityKeyPair":
				add(keyUsed{whose: "own fresh", id: x}, field)
			case quietCall(x.s) && len(x.a) > 0:
				walk(x.a[0], field)
			default:
				for _, a := range x.a {
					walk(a, field)
				}
			}
		case KParam:
			if namedIs(derefT(x.t), axoPath, "ECPublicKey") {
				add(keyUsed{whose: "given key"}, field)
			}
		case KConst, KZero, KOpaque:
		default:
			for _, a := range x.a {
				if a != nil {
					walk(a, field)
				}
			}
		}
	}
	walk(x.strip(), "")
	if len(found) != 1 {
		return nil
	}
	return found[0]
}

const (
	axoPath   = Mod + "/axolotl"
	protoPath = Mod + "/axolotl/protobuf"
)

// lastCopy is the last copy into the array or buffer x.
func (e *Engine) lastCopy(st *State, x *Expr) *Event {
	var hit *Event
	for _, ev := range st.events("copy") {
		if ev.Args[0] == x {
			hit = ev
		}
	}
	return hit
}

// derivedPart: x holds bytes lo..hi of what the n-th derivation gave.
type derivedPart struct {
	kdf    *Event
	lo, hi int64
}

func (e *Engine) derivedPart(st *State, x *Expr) *derivedPart {
	for i := 0; i < 8; i++ {
		s := e.span(x.strip())
		lo, ok1 := constLin(s.lo)
		hi, ok2 := constLin(s.hi)
		if !ok1 || !ok2 {
			return nil
		}
		var fill *Event
		for _, ev := range st.events("filled") {
			if ev.Args[0] == s.base {
				fill = ev
			}
		}
		if fill != nil {
			for _, k := range st.events("kdf") {
				if k.Res == fill.Args[1] {
					return &derivedPart{k, lo, hi}
				}
			}
			return nil
		}
		if cp := e.lastCopy(st, s.base); cp != nil {
			src := e.span(cp.Args[1].strip())
			slo, ok := constLin(src.lo)
			shi, ok2 := constLin(src.hi)
			if !ok || !ok2 || shi-slo < hi-lo {
				return nil
			}
			if p := e.derivedPart(st, cp.Args[1]); p != nil {
				return &derivedPart{p.kdf, p.lo + lo, p.lo + hi}
			}
			return nil
		}
		y := s.base
		if y.k == KFieldAddr || y.k == KAlloc {
			y = e.read(st, s.base, derefT(s.base.t))
		}
		// a value copied along with the structure it was put in
		if y.k == KMut && len(y.a) == 1 && y.a[0].k == KCall && y.a[0].s == "builtin.copy" && len(y.a[0].a) == 2 {
			d, src := e.span(y.a[0].a[0].strip()), e.span(y.a[0].a[1].strip())
			dlo, ok1 := constLin(d.lo)
			slo, ok2 := constLin(src.lo)
			shi, ok3 := constLin(src.hi)
			if !ok1 || !ok2 || !ok3 || dlo != 0 || shi-slo < hi {
				return nil
			}
			if p := e.derivedPart(st, y.a[0].a[1]); p != nil {
				return &derivedPart{p.kdf, p.lo + lo, p.lo + hi}
			}
			return nil
		}
		if y.k != KLoad || y.a[0] == s.base {
			return nil
		}
		if lo != 0 {
			return nil
		}
		x = y.a[0]
	}
	return nil
}

// agreeHooks record the agreements, the sequences built of them, what is
// derived, and what is put into the session.
func (c *Check) agreeHooks(e **Engine) Hooks {
	piece := func(st *State, x *Expr) string {
		e := *e
		x = x.strip()
		last := ""
		for _, ev := range st.events("seq") {
			if ev.Args[0] == x {
				last = ev.Name
			}
		}
		if last != "" {
			return last
		}
		s := e.span(x)
		for _, ev := range st.ev {
			switch {
			case ev.Kind == "dh" && ev.Args[0] == s.base:
				last = ev.Name
			case ev.Kind == "copy" && ev.Args[0] == s.base:
				for _, d := range st.events("dh") {
					if d.Args[0] == ev.Args[1].strip() {
						last = d.Name
					}
				}
			}
		}
		if last != "" {
			lo, ok1 := constLin(s.lo)
			hi, ok2 := constLin(s.hi)
			if ok1 && ok2 && (lo != 0 || hi != 32) {
				return fmt.Sprintf("%s[%d:%d]", last, lo, hi)
			}
			return last
		}
		if l, ok := constLin(e.lenLin(x)); ok && l == 0 {
			return "-"
		}
		if b := fixedBytes(e, st, x); b != "" {
			return b
		}
		if s.base.k == KGlobal {
			return s.base.s
		}
		return "?"
	}
	side := func(st *State, x *Expr) (string, *Expr) {
		k := (*e).keySource(st, x)
		if k == nil {
			trace("C30 nosource %v : %v", x, (*e).read(st, x, derefT(x.t)))
		}
		if k == nil {
			return "?", nil
		}
		if k.priv != strings.HasPrefix(k.whose, "own ") && !strings.HasPrefix(k.whose, "session ") {
			return "? half of " + k.whose, nil
		}
		if k.whose == "session SenderRatchetKey" && !k.priv {
			return "? half of " + k.whose, nil
		}
		if k.arg != nil {
			st.record(Event{Kind: "loadkey", Name: k.whose, Args: []*Expr{k.arg}})
		}
		return k.whose, k.id
	}
	agreement := func(st *State, ci *CallInfo, dst, own, their *Expr) {
		a, id := side(st, own)
		b, _ := side(st, their)
		name := a + " × " + b
		if id != nil {
			name = fmt.Sprintf("%s %d × %s", a, id.id, b)
		}
		st.record(Event{Kind: "dh", Name: name, Args: []*Expr{dst}, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
	}
	return Hooks{
		Call: func(st *State, ci *CallInfo) Action {
			if isStoreCall(ci) || strings.HasSuffix(ci.Name, "curve25519.ScalarMult") || hkdfNew(ci.Name) {
				return OpaqueKeep
			}
			if ci.Name == "builtin.copy" && len(ci.Args) == 2 {
				d := (*e).span(ci.Args[0].strip())
				if lo, ok := constLin(d.lo); ok && lo == 0 {
					st.record(Event{Kind: "copy", Args: []*Expr{d.base, ci.Args[1]}, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
				}
			}
			if keyCodec(ci.Name) && !strings.HasSuffix(ci.Name, "DeriveSecrets") {
				return OpaqueKeep
			}
			return Default
		},
		After: func(st *State, ci *CallInfo, r *Expr) {
			switch {
			case strings.HasSuffix(ci.Name, "curve25519.ScalarMult") && len(ci.Args) == 3:
				agreement(st, ci, ci.Args[0].strip(), ci.Args[1], ci.Args[2])
			case strings.HasSuffix(ci.Name, "curve25519.X25519") && len(ci.Args) == 2:
				agreement(st, ci, (*e).result(r, 0, 2, nil), ci.Args[0], ci.Args[1])
			case ci.Name == "builtin.append" && len(ci.Args) == 2:
				a, b := piece(st, ci.Args[0]), piece(st, ci.Args[1])
				if a != "?" && b != "?" && r != nil {
					st.record(Event{Kind: "seq", Name: strings.TrimPrefix(a+" | "+b, "- | "), Args: []*Expr{r}, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
				}
			case hkdfNew(ci.Name) && len(ci.Args) == 4:
				st.record(Event{Kind: "kdf", Name: piece(st, ci.Args[1]), Args: []*Expr{ci.Args[1], ci.Args[2], ci.Args[3]}, Res: r.strip(), Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
			case filler(ci) && (*e).fromCall(ci.Args[0], hkdfNew):
				var k *Expr
				(*e).it.contains(ci.Args[0], func(y *Expr) bool {
					if y.k == KCall && hkdfNew(y.s) {
						k = y
						return true
					}
					return false
				})
				s := (*e).span(ci.Args[1].strip())
				st.record(Event{Kind: "filled", Args: []*Expr{s.base, k}, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
			}
		},
		Store: func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
			if addr.k != KFieldAddr || !namedIs(derefT(addr.a[0].t), protoPath, "SessionStructure") {
				return
			}
			st.record(Event{Kind: "set", Name: addr.obj.Name(), Args: []*Expr{addr.a[0], val}, Pos: in.Pos(), Fn: fr.fn, Ctx: fr.ctx})
		},
		Branch: func(st *State, fr *Frame, in *ssa.If, cond *Expr, val bool) {
			about := ""
			(*e).it.contains(cond, func(y *Expr) bool {
				if (y.k == KFieldAddr || y.k == KField) && (namedIs(derefT(y.a[0].t), axoPath, "PreKeyBundle") || namedIs(derefT(y.a[0].t), axoPath, "PreKeyWhisperMessage")) {
					about = y.obj.Name()
				}
				return about != ""
			})
			if strings.HasPrefix(about, "PreKey") {
				st.record(Event{Kind: "case", Name: fmt.Sprintf("%d %v", cond.id, val), Pos: in.Pos(), Fn: fr.fn, Ctx: fr.ctx})
			}
		},
	}
}

func runC30(c *Check) {
	dh := c.p.reachesCall(func(cc *ssa.CallCommon) bool {
		n := calleeName(cc)
		return strings.HasSuffix(n, "curve25519.ScalarMult") || strings.HasSuffix(n, "curve25519.X25519") || hkdfNew(n)
	})
	sets := c.p.reachesInstr(func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		return ok && namedIs(derefT(fa.X.Type()), protoPath, "SessionStructure")
	})
	relevant := union(dh, sets)
	seqs := map[string]map[string]token.Pos{}
	for _, role := range []string{"starter", "receiver"} {
		name := map[string]string{"starter": "SessionBuilder.BuildSenderSession", "receiver": "SessionBuilder.BuildReceiverSession"}[role]
		f := c.anchor(axo + name)
		if f == nil {
			continue
		}
		var e *Engine
		e = newEngine(c.p, c.agreeHooks(&e))
		e.relevant = relevant
		seqs[role] = map[string]token.Pos{}
		j := &agreeJudge{c: c, e: e, f: f, role: role, seqs: seqs[role], bad: map[string]string{}, at: map[string]token.Pos{}}
		built := 0
		for _, x := range e.okExits(f, e.Run(f)) {
			if len(x.st.events("kdf")) == 0 && len(x.st.events("set")) == 0 {
				continue // an already known first message
			}
			built++
			j.judge(x)
		}
		c.useBounded(e)
		for _, rule := range []string{"one-time", "chains", "bound"} {
			detail, bad := j.bad[rule]
			if built == 0 {
				detail, bad = "no path builds a session", true
			}
			pos := f.Pos()
			if bad && j.at[rule].IsValid() {
				pos = j.at[rule]
			}
			c.ob(rule, role, pos, !bad, detail)
		}
	}
	if len(seqs) == 2 {
		diff := ""
		pos := token.NoPos
		for _, d := range []struct{ a, b string }{{"starter", "receiver"}, {"receiver", "starter"}} {
			var ks []string
			for s := range seqs[d.a] {
				ks = append(ks, s)
			}
			sort.Strings(ks)
			for _, s := range ks {
				if _, ok := seqs[d.b][s]; !ok && diff == "" {
					diff, pos = fmt.Sprintf("the %s derives from %s, which the %s never does", d.a, s, d.b), seqs[d.a][s]
				} else if strings.Contains(s, "?") && diff == "" {
					diff, pos = fmt.Sprintf("what the %s derives the keys from cannot be told: %s", d.a, s), seqs[d.a][s]
				}
			}
		}
		c.ob("agreement", "both sides", pos, diff == "" && len(seqs["starter"]) > 0, diff)
	}
	c.ratchetStep(relevant)
	c.firstMessages()
	c.answered()
}

type agreeJudge struct {
	c    *Check
	e    *Engine
	f    *ssa.Function
	role string
	seqs map[string]token.Pos
	bad  map[string]string
	at   map[string]token.Pos
}

func (j *agreeJudge) fail(rule string, pos token.Pos, f string, a ...interface{}) {
	if _, ok := j.bad[rule]; !ok {
		j.bad[rule], j.at[rule] = fmt.Sprintf(f, a...), pos
	}
}

// inRoles renames the parties' keys to the roles of the session.
func (j *agreeJudge) inRoles(st *State, seq string, base *Expr) string {
	var out []string
	for _, p := range strings.Split(seq, " | ") {
		ab := strings.Split(p, " × ")
		if len(ab) != 2 {
			out = append(out, p)
			continue
		}
		if base != nil {
			ab[0] = strings.Replace(ab[0], fmt.Sprintf("own fresh %d", base.id), "own base", 1)
		}
		own, their := strings.TrimPrefix(ab[0], "own "), strings.TrimPrefix(ab[1], "their ")
		if j.role == "receiver" {
			own, their = their, own
		}
		out = append(out, fmt.Sprintf("(%s, %s)", own, their))
	}
	return strings.Join(out, " ")
}

// elemField reads a field of what ptr points to.
func (e *Engine) elemField(st *State, ptr *Expr, name string) *Expr {
	ptr = ptr.strip()
	f, i := fieldNamed(ptr.t, name)
	if f == nil {
		return nil
	}
	return e.read(st, e.fieldAddr(ptr, f, i), f.Type())
}

func (j *agreeJudge) judge(x *Exit) {
	e, st := j.e, x.st
	set := map[string]*Event{}
	for _, ev := range st.events("set") {
		set[ev.Name] = ev
	}
	val := func(name string) *Expr {
		if set[name] == nil {
			return nil
		}
		return set[name].Args[1]
	}
	kdfs := st.events("kdf")
	if len(kdfs) == 0 {
		j.fail("chains", x.pos, "a session is left without derived keys")
		return
	}
	peer := map[string]string{"starter": "PreKeyBundle", "receiver": "PreKeyWhisperMessage"}[j.role]
	fromPeer := func(v *Expr, field string) bool {
		if v == nil {
			return false
		}
		v = v.strip()
		for v.k == KConv || v.k == KUn && strings.HasPrefix(v.s, "narrow") {
			v = v.a[0]
		}
		a := v
		if v.k == KLoad {
			a = v.a[0]
		}
		return (a.k == KFieldAddr || a.k == KField) && a.obj.Name() == field && namedIs(derefT(a.a[0].t), axoPath, peer)
	}
	key := func(rule, what string, v *Expr, want string, priv bool) *keyUsed {
		if v == nil {
			j.fail(rule, x.pos, "%s is not set", what)
			return nil
		}
		k := e.keySource(st, v)
		if k == nil || k.whose != want || k.priv != priv {
			got := "something else"
			if k != nil {
				got = k.whose
				if k.priv {
					got += " (private half)"
				}
			}
			j.fail(rule, x.pos, "%s is not the %s key but %s", what, want, got)
			return nil
		}
		return k
	}
	// the base key
	var base *Expr
	if j.role == "starter" {
		if k := key("bound", "the base key of the session", val("AliceBaseKey"), "own fresh", false); k != nil {
			base = k.id
		}
	} else {
		key("bound", "the base key of the session", val("AliceBaseKey"), "their base", false)
	}
	key("bound", "the local identity", val("LocalIdentityPublic"), "own identity", false)
	key("bound", "the remote identity", val("RemoteIdentityPublic"), "their identity", false)
	if v := val("LocalRegistrationId"); v == nil || !e.fromCall(v, func(n string) bool { return strings.HasSuffix(n, "IdentityStore.GetLocalRegistrationID") }) {
		j.fail("bound", x.pos, "the local registration id is not the device's own")
	}
	if !fromPeer(val("RemoteRegistrationId"), "RegistrationID") {
		j.fail("bound", x.pos, "the remote registration id is not the peer's")
	}
	if v := val("SessionVersion"); v == nil {
		j.fail("bound", x.pos, "the session has no version")
	} else if n, ok := constLin(e.linOf(v.strip())); !(ok && n == 3) {
		lo, hi := st.interval(e.linOf(v.strip()))
		if lo != 3 || hi != 3 {
			j.fail("bound", x.pos, "the version of the session is not the current one")
		}
	}
	// the agreement
	first := kdfs[0]
	seq := j.inRoles(st, first.Name, base)
	if first.Name == "?" {
		seq = "?"
	}
	seq += " with " + fixedOr(e, st, first.Args[2])
	if s := first.Args[1].strip(); !s.isNil() {
		if b := fixedBytes(e, st, s); b == "" {
			seq += " salted with ?"
		} else {
			seq += " salted with " + b
		}
	}
	if _, ok := j.seqs[seq]; !ok {
		j.seqs[seq] = first.Pos
	}
	// the one-time key
	trace("C30 %s %s", j.role, seq)
	oneTime := strings.Contains(seq, "one-time")
	if j.role == "starter" {
		var id, signed, ppb *Expr
		if p := val("PendingPreKey"); p != nil && !p.isNil() {
			id, signed, ppb = e.elemField(st, p, "PreKeyId"), e.elemField(st, p, "SignedPreKeyId"), e.elemField(st, p, "BaseKey")
		}
		switch {
		case id == nil:
			j.fail("one-time", x.pos, "the keys used are not kept for the first messages")
		case oneTime && !(fromPeer(id, "PreKeyID") && provedNonzero(e, st, id)):
			j.fail("one-time", x.pos, "a one-time key takes part but its id is not kept, or may be none")
		case !oneTime && !provedZero(e, st, id):
			j.fail("one-time", x.pos, "no one-time key takes part but one is named")
		}
		if id != nil {
			if !fromPeer(signed, "SignedPreKeyID") {
				j.fail("one-time", x.pos, "the id kept is not that of the signed pre-key used")
			}
			if k := key("bound", "the base key kept for the first messages", ppb, "own fresh", false); k != nil && k.id != base {
				j.fail("bound", x.pos, "the base key kept for the first messages is another one")
			}
		}
	} else {
		var id *Expr
		root := j.e.rootArgs
		for _, a := range root {
			if namedIs(a.t, axoPath, "PreKeyWhisperMessage") {
				id = e.elemField(st, a, "PreKeyID")
			}
		}
		switch {
		case id == nil:
			j.fail("one-time", x.pos, "there is no first message")
		case oneTime && !provedNonzero(e, st, id):
			j.fail("one-time", x.pos, "a one-time key takes part although none may be named")
		case !oneTime && !provedZero(e, st, id):
			j.fail("one-time", x.pos, "a one-time key may be named that does not take part")
		}
		for _, ev := range j.loads(st) {
			want := map[string]string{"own signed": "SignedPreKeyID", "own one-time": "PreKeyID"}[ev.whose]
			if ev.arg == nil || !fromPeer(ev.arg, want) {
				j.fail("one-time", x.pos, "the %s key used is not the one named", ev.whose)
			}
		}
	}
	// the chains
	part := func(what string, v *Expr, k *Event, lo, hi int64) {
		if v == nil {
			j.fail("chains", x.pos, "%s is not set", what)
			return
		}
		p := e.derivedPart(st, v)
		if p == nil || p.kdf.Res != k.Res || p.lo != lo || p.hi != hi {
			got := ""
			if p != nil {
				n := 1
				for i, q := range kdfs {
					if q.Res == p.kdf.Res {
						n = i + 1
					}
				}
				got = fmt.Sprintf(" but bytes %d to %d of derivation %d", p.lo, p.hi, n)
			}
			j.fail("chains", x.pos, "%s is not its part of the derived keys%s", what, got)
		}
	}
	chain := func(what string, ch *Expr, pub string, k *Event) *keyUsed {
		if ch == nil || ch.isNil() {
			j.fail("chains", x.pos, "%s is not set", what)
			return nil
		}
		u := key("chains", "the ratchet key of "+what, e.elemField(st, ch, "SenderRatchetKey"), pub, false)
		if ck := e.elemField(st, ch, "ChainKey"); ck != nil && !ck.isNil() {
			part("the key of "+what, e.elemField(st, ck, "Key"), k, 32, 64)
			if i := e.elemField(st, ck, "Index"); i == nil || !provedZero(e, st, i) {
				j.fail("chains", x.pos, "%s does not start at message 0", what)
			}
		} else {
			j.fail("chains", x.pos, "%s has no key", what)
		}
		return u
	}
	if j.role == "receiver" {
		part("the root key", val("RootKey"), first, 0, 32)
		chain("the sending chain", val("SenderChain"), "own signed", first)
		if s := val("SenderChain"); s != nil {
			key("chains", "the private ratchet key of the sending chain", e.elemField(st, s, "SenderRatchetKeyPrivate"), "own signed", true)
		}
		return
	}
	rc := lastAppended(e, st, val("ReceiverChains"))
	chain("the receiving chain", rc, "their signed", first)
	if len(kdfs) != 2 {
		j.fail("chains", x.pos, "the sending chain is not derived in a ratchet step of its own")
		return
	}
	second := kdfs[1]
	part("the salt of the first ratchet step", second.Args[1], first, 0, 32)
	part("the root key", val("RootKey"), second, 0, 32)
	u := chain("the sending chain", val("SenderChain"), "own fresh", second)
	if u != nil {
		if second.Name != fmt.Sprintf("own fresh %d × their signed", u.id.id) {
			j.fail("chains", second.Pos, "the sending chain comes from %s", j.inRoles(st, second.Name, base))
		}
		if k := key("chains", "the private ratchet key of the sending chain", e.elemField(st, val("SenderChain"), "SenderRatchetKeyPrivate"), "own fresh", true); k != nil && k.id != u.id {
			j.fail("chains", x.pos, "the two halves of the ratchet key do not belong together")
		}
	}
}

// loads: the stored keys that took part.
func (j *agreeJudge) loads(st *State) []*keyUsed {
	var out []*keyUsed
	for _, ev := range st.events("loadkey") {
		out = append(out, &keyUsed{whose: ev.Name, arg: ev.Args[0]})
	}
	return out
}

func fixedOr(e *Engine, st *State, x *Expr) string {
	if b := fixedBytes(e, st, x.strip()); b != "" {
		return b
	}
	return "?"
}

func provedZero(e *Engine, st *State, x *Expr) bool {
	x = x.strip()
	if x.k == KZero {
		return true
	}
	if n, ok := constLin(e.linOf(x)); ok {
		return n == 0
	}
	lo, hi := st.interval(e.linOf(x))
	return lo == 0 && hi == 0
}

func provedNonzero(e *Engine, st *State, x *Expr) bool {
	x = x.strip()
	if n, ok := constLin(e.linOf(x)); ok {
		return n != 0
	}
	lo, hi := st.interval(e.linOf(x))
	if lo > 0 || hi < 0 {
		return true
	}
	return st.boolVal(e.bin("==", x, e.it.intConst(0), nil)) == 0
}

// lastAppended is the element appended last to the list x.
func lastAppended(e *Engine, st *State, x *Expr) *Expr {
	for x != nil {
		x = x.strip()
		switch {
		case x.k == KSlice:
			x = x.a[0]
		case x.k == KCall && x.s == "builtin.append" && len(x.a) == 2:
			base := e.span(x.a[1].strip()).base
			var hit *Expr
			at := int64(-1)
			for k, v := range st.mem {
				if k.k == KIndexAddr && e.span(k.a[0].strip()).base == base && k.a[1].isInt && k.a[1].n > at {
					hit, at = v, k.a[1].n
				}
			}
			return hit
		default:
			return nil
		}
	}
	return nil
}

// ratchetStep: what a new ratchet key of the peer leads to.
func (c *Check) ratchetStep(relevant map[*ssa.Function]bool) {
	entry := c.anchor(axo + "SessionCipher.SessionDecryptWhisperMessage")
	if entry == nil {
		return
	}
	reached := c.p.reachableFrom(entry)
	agrees := c.p.reachesCall(func(cc *ssa.CallCommon) bool {
		n := calleeName(cc)
		return strings.HasSuffix(n, "curve25519.ScalarMult") || strings.HasSuffix(n, "curve25519.X25519")
	})
	roots := c.p.reachesInstr(func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		return ok && namedIs(derefT(fa.X.Type()), protoPath, "SessionStructure") && fieldOf(fa.X.Type(), fa.Field).Name() == "RootKey"
	})
	both := func(f *ssa.Function) bool { return reached[f] && agrees[f] && roots[f] && !c.p.isGen(f.Pos()) }
	for _, f := range c.sortedFuncs() {
		if !both(f) {
			continue
		}
		lowest := true
		for _, g := range c.sortedFuncs() {
			if g == f || !both(g) {
				continue
			}
			for _, h := range c.p.callers[g] {
				if h == f {
					lowest = false
				}
			}
		}
		if !lowest {
			continue
		}
		// where the parts are handed in, the caller decides
		at, detail, pos := f, "", token.NoPos
		for up := 0; up < 3; up++ {
			if detail, pos = c.stepOf(at, relevant); detail == "" {
				break
			}
			var next *ssa.Function
			for _, h := range c.p.callers[at] {
				if reached[h] && h != at {
					next = h
				}
			}
			if next == nil {
				break
			}
			at = next
		}
		if detail != "" {
			detail, pos = c.stepOf(f, relevant)
		}
		if !pos.IsValid() {
			pos = f.Pos()
		}
		c.ob("step", fnName(f), pos, detail == "", detail)
	}
}

func (c *Check) stepOf(f *ssa.Function, relevant map[*ssa.Function]bool) (string, token.Pos) {
	var e *Engine
	e = newEngine(c.p, c.agreeHooks(&e))
	e.relevant = relevant
	exits := e.Run(f)
	if errResult(f.Signature) >= 0 {
		exits = e.okExits(f, exits)
	}
	c.useBounded(e)
	steps := 0
	for _, x := range exits {
		st := x.st
		set := map[string]*Expr{}
		for _, ev := range st.events("set") {
			set[ev.Name] = ev.Args[1]
		}
		kdfs := st.events("kdf")
		if set["RootKey"] == nil && set["SenderChain"] == nil && len(kdfs) == 0 {
			continue // the chain is known
		}
		steps++
		if len(kdfs) != 2 {
			return "a new ratchet key does not lead to one receiving and one sending chain", x.pos
		}
		a, b := kdfs[0], kdfs[1]
		their := ""
		if p := strings.Split(a.Name, " × "); len(p) == 2 {
			their = p[1]
		}
		if a.Name != "session SenderRatchetKey × "+their || (their != "their ratchet" && their != "given key") {
			return "the receiving chain is derived from " + a.Name, a.Pos
		}
		if !e.heldField(st, a.Args[1], "RootKey") {
			return "the receiving chain is not derived from the current root key", a.Pos
		}
		part := func(v *Expr, k *Event, lo, hi int64) bool {
			if v == nil {
				return false
			}
			p := e.derivedPart(st, v)
			return p != nil && p.kdf.Res == k.Res && p.lo == lo && p.hi == hi
		}
		if !part(b.Args[1], a, 0, 32) {
			return "the sending chain is not derived from the root key derived with the receiving chain", b.Pos
		}
		if !part(set["RootKey"], b, 0, 32) {
			return "the new root key is not the one derived with the sending chain", x.pos
		}
		if fixedOr(e, st, a.Args[2]) != fixedOr(e, st, b.Args[2]) {
			return "the two derivations of a step are labelled differently", b.Pos
		}
		chain := func(ch *Expr, k *Event) (*keyUsed, bool) {
			if ch == nil || ch.isNil() {
				return nil, false
			}
			ck := e.elemField(st, ch, "ChainKey")
			if ck == nil || ck.isNil() || !part(e.elemField(st, ck, "Key"), k, 32, 64) {
				return nil, false
			}
			if i := e.elemField(st, ck, "Index"); i == nil || !provedZero(e, st, i) {
				return nil, false
			}
			r := e.elemField(st, ch, "SenderRatchetKey")
			if r == nil {
				return nil, false
			}
			return e.keySource(st, r), true
		}
		u, ok := chain(lastAppended(e, st, set["ReceiverChains"]), a)
		if !ok {
			return "the receiving chain does not hold its part of the derived keys", x.pos
		}
		if u == nil || u.whose != their || u.priv {
			return "the receiving chain is not filed under the peer's ratchet key", x.pos
		}
		v, ok := chain(set["SenderChain"], b)
		if !ok {
			return "the sending chain does not hold its part of the derived keys", x.pos
		}
		if v == nil || v.whose != "own fresh" || v.priv || b.Name != fmt.Sprintf("own fresh %d × %s", v.id.id, their) {
			return "the sending chain is not derived with the ratchet key sent along: " + b.Name, b.Pos
		}
		pr := e.elemField(st, set["SenderChain"], "SenderRatchetKeyPrivate")
		if w := e.keySource(st, pr); w == nil || w.id != v.id || !w.priv {
			return "the two halves of the new ratchet key do not belong together", x.pos
		}
	}
	if steps == 0 {
		return "no path takes a ratchet step", f.Pos()
	}
	return "", f.Pos()
}

// heldField: x is what a field of the session held when the call began.
func (e *Engine) heldField(st *State, x *Expr, field string) bool {
	for i := 0; i < 8; i++ {
		s := e.span(x.strip())
		if lo, ok := constLin(s.lo); !ok || lo != 0 {
			return false
		}
		y := s.base
		a := y
		if y.k == KLoad {
			a = y.a[0]
		}
		if (a.k == KFieldAddr || a.k == KField) && a.obj.Name() == field {
			return true
		}
		if cp := e.lastCopy(st, y); cp != nil {
			x = cp.Args[1]
			continue
		}
		if y.k != KFieldAddr && y.k != KAlloc {
			return false
		}
		v := e.read(st, y, derefT(y.t))
		if v.k != KLoad || v.a[0] == y {
			return false
		}
		x = v.a[0]
	}
	return false
}

// firstMessages: while unanswered, messages carry what the session was begun with.
func (c *Check) firstMessages() {
	f := c.anchor(axo + "SessionCipher.SessionEncryptMessage")
	if f == nil {
		return
	}
	var e *Engine
	marshals := names("github.com/golang/protobuf/proto.Marshal", "google.golang.org/protobuf/proto.Marshal")
	e = newEngine(c.p, Hooks{
		Call: func(st *State, ci *CallInfo) Action {
			if isStoreCall(ci) || keyCodec(ci.Name) {
				return OpaqueKeep
			}
			if marshals(ci.Name) {
				for _, want := range []string{"PreKeySignalMessage", "SignalMessage"} {
					m := ci.Args[0].strip()
					if namedIs(derefT(m.t), protoPath, want) {
						ev := Event{Kind: want, Args: []*Expr{m}, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx}
						for _, n := range []string{"RegistrationId", "PreKeyId", "SignedPreKeyId", "BaseKey", "IdentityKey", "Message"} {
							v := e.elemField(st, m, n)
							if v != nil && strings.HasSuffix(n, "Id") && !v.isNil() {
								v = pointee(e, st, v)
							}
							if v == nil {
								v = e.it.mk(Expr{k: KOpaque, s: "unset"}, "")
							}
							ev.Args = append(ev.Args, v)
						}
						st.record(ev)
					}
				}
			}
			return Default
		},
		After: func(st *State, ci *CallInfo, r *Expr) {
			if marshals(ci.Name) {
				st.record(Event{Kind: "marshalled", Args: []*Expr{ci.Args[0].strip()}, Res: r})
			}
		},
	})
	e.h.Branch = func(st *State, fr *Frame, in *ssa.If, cond *Expr, val bool) {
		if e.it.contains(cond, func(y *Expr) bool {
			return (y.k == KFieldAddr || y.k == KField) && y.obj.Name() == "PendingPreKey" && namedIs(derefT(y.a[0].t), protoPath, "SessionStructure")
		}) {
			st.record(Event{Kind: "case", Name: fmt.Sprintf("%d %v", cond.id, val), Pos: in.Pos(), Fn: fr.fn, Ctx: fr.ctx})
		}
	}
	e.relevant = c.p.reachesCall(func(cc *ssa.CallCommon) bool { return marshals(calleeName(cc)) })
	e.capStates = 64
	pendingOf := func(y *Expr) bool {
		return (y.k == KFieldAddr || y.k == KField) && y.obj.Name() == "PendingPreKey" && namedIs(derefT(y.a[0].t), protoPath, "SessionStructure")
	}
	field := func(x *Expr, name string) bool {
		return x != nil && e.it.contains(x, func(y *Expr) bool {
			return (y.k == KFieldAddr || y.k == KField) && y.obj.Name() == name && (namedIs(derefT(y.a[0].t), protoPath, "SessionStructure_PendingPreKey") || namedIs(derefT(y.a[0].t), protoPath, "SessionStructure"))
		})
	}
	bad, at := "", f.Pos()
	first := 0
	for _, x := range e.okExits(f, e.Run(f)) {
		st := x.st
		result := func(kind string) (*Event, *Expr) {
			var ev *Event
			for _, v := range st.events(kind) {
				ev = v
			}
			if ev == nil {
				return nil, nil
			}
			for _, m := range st.events("marshalled") {
				if m.Args[0] == ev.Args[0] {
					return ev, m.Res
				}
			}
			return ev, nil
		}
		carries := func(x, r *Expr) bool {
			return x != nil && r != nil && e.it.contains(x, func(y *Expr) bool { return y == r })
		}
		pk, pr := result("PreKeySignalMessage")
		_, sr := result("SignalMessage")
		none := false
		for t, v := range st.nf {
			z := t
			if t.k == KLoad {
				z = t.a[0]
			}
			if v && pendingOf(z) {
				none = true
			}
		}
		fail := func(s string) {
			if bad == "" {
				bad, at = s, x.pos
			}
		}
		if pk != nil {
			trace("C30 sent id %v %v", pk.Args[2], st.bf)
		}
		if pk == nil || !carries(x.rets[0], pr) {
			if !none {
				fail("a message may go out without the keys of an unanswered session")
			} else if !carries(x.rets[0], sr) {
				fail("what is returned is not the message")
			}
			continue
		}
		first++
		v := pk.Args[1:]
		if !field(v[0], "LocalRegistrationId") {
			fail("a first message does not carry the registration id of the session")
		}
		if v[1].isNil() || v[1].k == KZero {
			zero := false
			for _, w := range pendingIDs(e, st) {
				zero = zero || provedZero(e, st, w)
			}
			if !zero {
				fail("a first message may not name the one-time pre-key used")
			}
		} else if !field(v[1], "PreKeyId") {
			fail("a first message names another one-time pre-key")
		} else if !provedNonzero(e, st, v[1]) {
			fail("a first message may name a one-time pre-key where there is none")
		}
		if !field(v[2], "SignedPreKeyId") {
			fail("a first message does not name the signed pre-key used")
		}
		if !field(v[3], "BaseKey") {
			fail("a first message does not carry the base key of the session")
		}
		if !field(v[4], "LocalIdentityPublic") {
			fail("a first message does not carry the identity of the session")
		}
		if !carries(v[5], sr) {
			fail("a first message does not carry the message")
		}
		if len(x.rets) > 1 {
			if n, ok := constLin(e.linOf(x.rets[1].strip())); !ok || n != 3 {
				fail("a first message is not announced as one")
			}
		}
	}
	if first == 0 && bad == "" {
		bad = "no path sends a first message"
	}
	c.useBounded(e)
	c.ob("sent", "first messages", at, bad == "", bad)
}

// pendingIDs are the terms for the id of the one-time key a session waits for.
func pendingIDs(e *Engine, st *State) []*Expr {
	var out []*Expr
	seen := map[*Expr]bool{}
	for t := range st.bf {
		e.it.contains(t, func(y *Expr) bool {
			z := y
			if y.k == KLoad {
				z = y.a[0]
			}
			if (z.k == KFieldAddr && y.k == KLoad || z.k == KField) && z.obj.Name() == "PreKeyId" && namedIs(derefT(z.a[0].t), protoPath, "SessionStructure_PendingPreKey") && !seen[y] {
				seen[y] = true
				out = append(out, y)
			}
			return false
		})
	}
	return out
}

// answered: what first messages carry is dropped only for an authentic answer.
func (c *Check) answered() {
	drops := func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok || !namedIs(derefT(fa.X.Type()), protoPath, "SessionStructure") || fieldOf(fa.X.Type(), fa.Field).Name() != "PendingPreKey" {
			return false
		}
		k, ok := s.Val.(*ssa.Const)
		return ok && k.IsNil()
	}
	c.upwardTo("answered", c.startsWith(drops, func(f *ssa.Function) bool { return !inCmd(f) }), func(root, target *ssa.Function, res *rootResult, rel map[*ssa.Function]bool) {
		var e *Engine
		e = newEngine(c.p, Hooks{
			Call:  ratchetCalls,
			After: func(st *State, ci *CallInfo, r *Expr) { recordMac(st, ci, r) },
			Instr: func(st *State, fr *Frame, in ssa.Instruction) {
				if fr.fn != target || !drops(in) {
					return
				}
				ok := false
				for _, ev := range st.events("maceq") {
					if m := e.macOf(st, ev); m != nil && m.sum != nil {
						ok = true
					}
				}
				res.put(fnName(target), in.Pos(), target, ok, "the keys an unanswered session sends along are dropped before a message was authenticated", c.p.ctxPath(fr.ctx))
			},
		})
		e.relevant = union(rel, c.p.reachesCall(func(cc *ssa.CallCommon) bool {
			return names("crypto/hmac.Equal", "crypto/subtle.ConstantTimeCompare")(calleeName(cc))
		}))
		e.Run(root)
		c.useBounded(e)
	}, 3, inCmd)
}
