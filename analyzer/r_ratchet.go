package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

const (
	axo     = "ts/axolotl."
	scDec   = axo + "SessionCipher.SessionDecryptWhisperMessage"
	scPre   = axo + "SessionCipher.SessionDecryptPreKeyWhisperMessage"
	scEnc   = axo + "SessionCipher.SessionEncryptMessage"
	bldRecv = axo + "SessionBuilder.BuildReceiverSession"
	bldSend = axo + "SessionBuilder.BuildSenderSession"
)

var isMacEq = names("crypto/hmac.Equal", "crypto/subtle.ConstantTimeCompare")

// macEvents records hash construction, writes and tag comparisons.
func recordMac(st *State, c *CallInfo, res *Expr) {
	switch c.Name {
	case "crypto/hmac.Equal", "crypto/subtle.ConstantTimeCompare":
		st.record(Event{Kind: "maceq", Guard: true, Name: c.Name, Args: c.Args, Res: res, Pos: c.Pos(), Fn: c.In, Ctx: c.Ctx})
	}
}

// opaqueStores keeps the persistence layer out of the ratchet analyses.
func opaqueStores(st *State, ci *CallInfo) Action {
	if isStoreCall(ci) {
		return Opaque
	}
	return Default
}

// isStoreCall: a call through one of the ratchet's storage interfaces.
func isStoreCall(ci *CallInfo) bool {
	return names(axo+"SessionStore.*", axo+"PreKeyStore.*", axo+"SignedPreKeyStore.*", axo+"IdentityStore.*")(ci.Name)
}

// macInfo describes what a tag term authenticates.
type macInfo struct {
	sum    *Expr
	key    *Expr
	writes []*Expr
	tag    *Expr // the other side of the comparison
	ev     *Event
	ours   *Expr
}

// macOf decodes a tag comparison known to have succeeded.
func (e *Engine) macOf(st *State, ev *Event) *macInfo {
	if ev.Name == "crypto/subtle.ConstantTimeCompare" {
		one := e.bin("==", ev.Res, e.it.intConst(1), nil)
		if st.boolVal(one) != 1 {
			return nil
		}
	} else if st.boolVal(ev.Res) != 1 {
		return nil
	}
	for i := 0; i < 2; i++ {
		a := ev.Args[i]
		if sum := e.sumIn(a); sum != nil {
			m := &macInfo{sum: sum, tag: ev.Args[1-i], ev: ev, ours: a}
			e.fillMac(st, m)
			return m
		}
	}
	return &macInfo{ev: ev}
}

// sumIn finds the hash.Sum call a tag term is a slice of.
func (e *Engine) sumIn(x *Expr) *Expr {
	for x != nil {
		switch x.k {
		case KSlice, KConv, KIface, KLoad, KField:
			x = x.a[0]
		case KCall:
			if x.s == "hash.Hash.Sum" {
				return x
			}
			return nil
		case KMut:
			return nil
		default:
			return nil
		}
	}
	return nil
}

func (e *Engine) fillMac(st *State, m *macInfo) {
	h := m.sum.a[0].strip()
	if h.k == KCall && h.s == "crypto/hmac.New" && len(h.a) > 1 {
		m.key = h.a[1]
	}
	if len(m.sum.a) > 2 && m.sum.a[2].k == KOpaque && m.sum.a[2].s == "written" {
		m.writes = m.sum.a[2].a
	}
}

func init() {
	register(&propDef{
		ID: "C01",
		Expl: "Disjunctive (ESP-style) dataflow over SSA from the two exported session-decrypt entry points with in-module callees followed: on every path, the block-cipher decryption and every error-free return must be preceded by a tag comparison known to be true, " +
			"whose computed side is an untruncated-below-8-byte HMAC keyed by the message's MAC key over remote identity, local identity and the received bytes in that order; the encrypt entry point must MAC local identity, remote identity and the sent bytes and append that tag.",
		Assume:  []string{"crypto/hmac, crypto/aes and crypto/cipher behave as documented", "no two distinct in-module struct fields alias"},
		Minimum: map[string]int{"auth-before-decrypt": 2, "auth-before-plaintext": 2, "mac-on-send": 1},
		Run:     runC01,
	})
}

// keyCodec keeps key parsing/serialization and key derivation opaque: the
// analysis needs where a key comes from, not how it is encoded.
func keyCodec(name string) bool {
	return names(axo+"NewIdentityKey", axo+"NewECPublicKey", axo+"ECPublicKey.Serialize", axo+"IdentityKey.Serialize", axo+"DeriveSecrets", axo+"NewECPrivateKey", axo+"NewECKeyPair", axo+"GenerateIdentityKeyPair")(name)
}

func ratchetCalls(st *State, ci *CallInfo) Action {
	if isStoreCall(ci) || keyCodec(ci.Name) {
		return Opaque
	}
	return Default
}

// pieces flattens a byte string built by append into its parts.
func (e *Engine) pieces(st *State, x *Expr) []*Expr {
	if x == nil {
		return nil
	}
	switch x.k {
	case KCall:
		if x.s == "builtin.append" && len(x.a) == 2 {
			return append(e.pieces(st, x.a[0]), e.pieces(st, x.a[1])...)
		}
	case KConv, KIface:
		return e.pieces(st, x.a[0])
	}
	if l := e.lenLin(x); len(l.c) == 0 && l.k == 0 {
		return nil
	}
	return []*Expr{x}
}

func runC01(c *Check) {
	rel := c.p.reachesCall(func(cc *ssa.CallCommon) bool {
		n := calleeName(cc)
		return names("crypto/cipher.NewCBCDecrypter", "crypto/cipher.BlockMode.CryptBlocks", "crypto/hmac.Equal", "crypto/subtle.ConstantTimeCompare", "crypto/hmac.New")(n)
	})
	for _, f := range []string{axo + "DeriveSecrets"} {
		delete(rel, c.p.Fn(f))
	}
	for _, name := range []string{scDec, scPre} {
		fn := c.anchor(name)
		if fn == nil {
			continue
		}
		var e *Engine
		sinkBad, sinkN := "", 0
		check := func(st *State) (bool, string) {
			why := "no successful tag comparison precedes it"
			for _, ev := range st.events("maceq") {
				m := e.macOf(st, ev)
				if m == nil {
					continue
				}
				if m.sum == nil || m.key == nil {
					why = "the comparison does not involve an HMAC computed here"
					continue
				}
				if w := c01Coverage(e, st, m, true); w != "" {
					why = w
					continue
				}
				return true, ""
			}
			return false, why
		}
		h := Hooks{Call: ratchetCalls}
		h.After = func(st *State, ci *CallInfo, res *Expr) {
			recordMac(st, ci, res)
			if ci.Name == "crypto/cipher.NewCBCDecrypter" || (ci.Name == "crypto/cipher.BlockMode.CryptBlocks" && e.fromCall(ci.Args[0], names("crypto/cipher.NewCBCDecrypter"))) {
				sinkN++
				ok, why := check(st)
				if !ok {
					sinkBad = why + " (decryption at " + c.p.pos(ci.Pos()) + ", path " + c.p.ctxPath(ci.Ctx) + ")"
				}
			}
		}
		e = newEngine(c.p, h)
		e.smallMax = 25
		e.relevant = rel
		exits := e.Run(fn)
		c.use(e)
		c.ob("auth-before-decrypt", name, fn.Pos(), sinkN > 0 && sinkBad == "", fmt.Sprintf("a received ciphertext is decrypted without being authenticated first: %s (decryptions seen: %d)", sinkBad, sinkN))
		bad := ""
		n := 0
		for _, x := range e.okExits(fn, exits) {
			n++
			if ok, why := check(x.st); !ok {
				bad = why + " (return at " + c.p.pos(x.pos) + ")"
			}
		}
		c.ob("auth-before-plaintext", name, fn.Pos(), n > 0 && bad == "", "plaintext can be returned for an unauthenticated message: "+bad)
	}
	if fn := c.anchor(scEnc); fn != nil {
		var e *Engine
		h := Hooks{Call: ratchetCalls, Branch: noteOldVersion(&e), After: func(st *State, ci *CallInfo, res *Expr) {
			if ci.Name == "builtin.append" && len(ci.Args) == 2 {
				if s := e.sumIn(ci.Args[1]); s != nil {
					st.record(Event{Kind: "tagged", Name: ci.Name, Args: ci.Args, Res: res, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
				}
			}
		}}
		e = newEngine(c.p, h)
		e.smallMax = 25
		e.relevant = rel
		exits := e.Run(fn)
		c.use(e)
		bad := ""
		n := 0
		for _, x := range e.okExits(fn, exits) {
			n++
			why := "no authentication tag is appended to the sent bytes"
			for _, ev := range x.st.events("tagged") {
				m := &macInfo{sum: e.sumIn(ev.Args[1]), ev: ev, ours: ev.Args[1], tag: ev.Args[0]}
				e.fillMac(x.st, m)
				if m.key == nil {
					why = "the appended tag is not a keyed HMAC"
					continue
				}
				if why = c01Coverage(e, x.st, m, false); why == "" {
					break
				}
			}
			if why != "" {
				bad = why + " (return at " + c.p.pos(x.pos) + ")"
			}
		}
		c.ob("mac-on-send", scEnc, fn.Pos(), n > 0 && bad == "", "a message can be sent without the authentication its receiver needs: "+bad)
	}
}

// c01Coverage: what the tag covers. On receive, m.tag is the received tag; on
// send it is the byte string the tag is appended to.
func c01Coverage(e *Engine, st *State, m *macInfo, receive bool) string {
	if !e.fromField(m.key, "MacKey") && !e.fromCall(m.key, names(axo+"DeriveSecrets", "golang.org/x/crypto/hkdf.New")) && m.key.k != KJoin && m.key.k != KStale {
		return "the tag is not keyed by the message's MAC key"
	}
	if lo, _ := st.interval(e.lenLin(m.ours)); lo < 8 {
		return "fewer than 8 tag bytes are used"
	}
	var ps []*Expr
	for _, w := range m.writes {
		ps = append(ps, e.pieces(st, w)...)
	}
	if len(ps) == 0 {
		return "the tag covers nothing"
	}
	// the message bytes are the trailing pieces
	var data []*Expr
	if receive {
		t := m.tag
		for t.k == KConv || t.k == KIface {
			t = t.a[0]
		}
		last := ps[len(ps)-1]
		if t.k != KSlice || last.k != KSlice || t.a[0] != last.a[0] || t.a[1] == nil || last.a[2] == nil || e.linKey(t.a[1]) != e.linKey(last.a[2]) {
			return "the tag does not cover exactly the received bytes that precede it"
		}
		if last.a[1] != nil && e.linKey(last.a[1]) != e.linKey(e.it.intConst(0)) {
			return "the tag does not cover the beginning of the message"
		}
		if lo, _ := st.interval(e.lenLin(t)); lo < 8 {
			return "fewer than 8 received tag bytes are compared"
		}
		data = ps[len(ps)-1:]
	} else {
		dp := e.pieces(st, m.tag)
		if len(dp) == 0 || len(dp) > len(ps) {
			return "the tag does not cover the sent bytes"
		}
		data = ps[len(ps)-len(dp):]
		for i := range dp {
			if dp[i] != data[i] {
				return "the tag does not cover the sent bytes"
			}
		}
	}
	ids := ps[:len(ps)-len(data)]
	if len(ids) == 0 {
		for _, b := range st.bd {
			if len(b.l.c) != 1 {
				continue
			}
			for a, k := range b.l.c {
				if k == 1 && b.hi <= 2 && (e.fromField(a, "Version") || e.fromField(a, "SessionVersion")) {
					return ""
				}
			}
		}
		if len(st.events("oldversion")) > 0 {
			return ""
		}
		return "the tag does not cover the two identity keys"
	}
	first, second := "RemoteIdentityPublic", "LocalIdentityPublic"
	if !receive {
		first, second = second, first
	}
	if len(ids) != 2 {
		return fmt.Sprintf("the tag covers %d parts besides the message, not the two identity keys", len(ids))
	}
	if !e.fromField(ids[0], first) || e.fromField(ids[0], second) || !e.fromField(ids[1], second) || e.fromField(ids[1], first) {
		return "the tag does not bind sender and receiver identity in order"
	}
	return ""
}

// noteOldVersion records that the path established a protocol version below 3
// (whose messages carry no identities in their tag).
func noteOldVersion(e **Engine) func(st *State, fr *Frame, in *ssa.If, cond *Expr, val bool) {
	return func(st *State, fr *Frame, in *ssa.If, cond *Expr, val bool) {
		b, ok := in.Cond.(*ssa.BinOp)
		if !ok {
			return
		}
		v := b.X
		if _, ok := b.Y.(*ssa.Const); !ok {
			if _, ok := b.X.(*ssa.Const); !ok {
				return
			}
			v = b.Y
		}
		if !isIntT(v.Type()) {
			return
		}
		x := (*e).val(fr, st, v)
		k := x.strip()
		if !(k.k == KConst || k.k == KJoin || k.k == KPhi || (*e).fromField(x, "Version") || (*e).fromField(x, "SessionVersion")) {
			return
		}
		if _, hi := st.interval((*e).linOf(x)); hi <= 2 && k.k != KConst || k.k == KConst && k.isInt && k.n == 2 {
			st.record(Event{Kind: "oldversion", Pos: in.Pos(), Fn: fr.fn})
		}
	}
}

// linKey is a canonical form of an integer term.
func (e *Engine) linKey(x *Expr) string {
	l := e.linOf(x)
	k, s := l.key()
	return fmt.Sprintf("%s|%d|%d", k, s, l.k)
}
