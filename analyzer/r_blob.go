package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&propDef{
		ID:      "C02",
		Expl:    "Every CBC decryption of the module outside the session layer is an obligation, decided by the disjunctive dataflow first in its function and, where it depends on the arguments, in each caller: the state must hold a tag comparison (constant time) known to be true, over an HMAC that has absorbed a byte range containing both the IV and the decrypted bytes, with a key that is not the cipher key and does not overlap it, and at least eight tag bytes. Every AEAD opening must have its error known to be nil on each error-free way out.",
		Assume:  []string{"crypto/hmac, crypto/aes, crypto/cipher and io.ReadAll behave as documented", "no two distinct struct fields alias", "the session layer's own decryption is C01's subject"},
		Minimum: map[string]int{"mac-before-decrypt": 2, "open-checked": 2},
		Run:     runC02,
	})
}

// span is the part of a byte sequence a slice term stands for.
type span struct {
	base   *Expr
	lo, hi lin
}

func (e *Engine) span(x *Expr) span {
	switch x.k {
	case KConv, KIface:
		return e.span(x.a[0])
	case KSlice:
		b := e.span(x.a[0])
		s := span{base: b.base, lo: b.lo, hi: b.hi}
		if x.a[1] != nil {
			s.lo = b.lo.add(e.linOf(x.a[1]), 1)
		}
		if x.a[2] != nil {
			s.hi = b.lo.add(e.linOf(x.a[2]), 1)
		}
		return s
	}
	return span{base: x, hi: e.lenLin(x)}
}

func (e *Engine) inside(st *State, in, out span) bool {
	return in.base == out.base && st.provedLE0(out.lo.add(in.lo, -1)) && st.provedLE0(in.hi.add(out.hi, -1))
}

func (e *Engine) disjoint(st *State, a, b span) bool {
	if a.base != b.base {
		return true
	}
	return st.provedLE0(a.hi.add(b.lo, -1)) || st.provedLE0(b.hi.add(a.lo, -1))
}

func runC02(c *Check) {
	sink := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && calleeName(ci.Common()) == "crypto/cipher.NewCBCDecrypter"
	}
	open := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && (calleeName(ci.Common()) == "crypto/cipher.AEAD.Open" || strings.HasSuffix(calleeName(ci.Common()), "siv-go.GCMSIV.Open"))
	}
	var start, opens []*ssa.Function
	for _, f := range c.p.AllFuncs {
		if c.p.isGen(f.Pos()) || f.Synthetic != "" {
			continue
		}
		s, o := false, false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, o = s || sink(in), o || open(in)
			}
		}
		if s && !c.p.unreached(f) {
			start = append(start, f)
		}
		if o {
			opens = append(opens, f)
		}
	}
	byPos := func(fs []*ssa.Function) {
		sort.Slice(fs, func(i, j int) bool { return fs[i].Pos() < fs[j].Pos() })
	}
	byPos(start)
	byPos(opens)
	session := map[*ssa.Function]bool{c.anchor(scDec): true, c.anchor(scPre): true}
	macs := c.p.reachesCall(func(cc *ssa.CallCommon) bool {
		return names("crypto/hmac.Equal", "crypto/subtle.ConstantTimeCompare", "crypto/hmac.New", "hash.Hash.Sum")(calleeName(cc))
	})
	c.upwardTo("mac-before-decrypt", start, func(root, target *ssa.Function, res *rootResult, relevant map[*ssa.Function]bool) {
		var e *Engine
		h := Hooks{After: func(st *State, ci *CallInfo, r *Expr) {
			recordMac(st, ci, r)
			if ci.In != target {
				return
			}
			var key *Expr
			var parts []*Expr
			switch ci.Name {
			case "crypto/cipher.NewCBCDecrypter":
				key, parts = cipherKey(ci.Args[0]), ci.Args[1:2]
			case "crypto/cipher.BlockMode.CryptBlocks":
				d := ci.Args[0].strip()
				if d.k != KCall || d.s != "crypto/cipher.NewCBCDecrypter" {
					return
				}
				key, parts = cipherKey(d.a[0]), []*Expr{ci.Args[2]}
			default:
				return
			}
			why := c.authentic(e, st, key, parts)
			k := fmt.Sprintf("%s@%s", fnName(target), c.p.pos(ci.Pos()))
			detail := "encrypted data is decrypted although " + why
			if why != "" && strings.HasPrefix(fnName(root), axo) {
				res.putSoft(k, ci.Pos(), target, detail, c.p.ctxPath(ci.Ctx))
				return
			}
			res.put(k, ci.Pos(), target, why == "", detail, c.p.ctxPath(ci.Ctx))
		}}
		e = newEngine(c.p, h)
		rel := map[*ssa.Function]bool{}
		for f := range relevant {
			rel[f] = true
		}
		for f := range macs {
			if !strings.Contains(fnName(f), "ession") {
				rel[f] = true
			}
		}
		e.relevant = rel
		e.Run(root)
		c.useBounded(e)
	}, 5, func(f *ssa.Function) bool { return session[f] })

	for _, f := range opens {
		if c.p.unreached(f) {
			continue
		}
		var e *Engine
		n := 0
		h := Hooks{After: func(st *State, ci *CallInfo, r *Expr) {
			if ci.In == f && open(ci.Site.(ssa.Instruction)) {
				n++
				st.record(Event{Kind: "open", Name: ci.Name, Args: ci.Args, Res: r, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
			}
		}}
		e = newEngine(c.p, h)
		exits := e.Run(f)
		c.useBounded(e)
		bad := ""
		for _, x := range e.okExits(f, exits) {
			for _, ev := range x.st.events("open") {
				er := e.result(ev.Res, 1, 2, nil)
				if x.st.isNil(er) != 1 {
					bad = c.p.pos(x.pos)
				}
			}
		}
		c.ob("open-checked", fnName(f), f.Pos(), n > 0 && bad == "", "data is used although opening it may have failed (return at "+bad+")")
	}
}

func cipherKey(block *Expr) *Expr {
	b := block.strip()
	if b.k == KExtract {
		b = b.a[0]
	}
	if b.k == KCall && b.s == "crypto/aes.NewCipher" {
		return b.a[0]
	}
	return nil
}

// authentic: "" when a successful comparison covers the parts.
func (c *Check) authentic(e *Engine, st *State, key *Expr, parts []*Expr) string {
	why := "no tag comparison has succeeded before"
	for _, ev := range st.events("maceq") {
		m := e.macOf(st, ev)
		if m == nil {
			continue
		}
		if m.sum == nil || m.key == nil {
			why = "the comparison before it does not involve an HMAC computed here"
			continue
		}
		if key == nil {
			why = "its key cannot be told"
			continue
		}
		if m.key == key || !e.disjoint(st, e.span(key), e.span(m.key)) {
			why = "the tag is keyed with (part of) the decryption key"
			continue
		}
		if lo, _ := st.interval(e.lenLin(m.ours)); lo < 8 {
			why = "fewer than 8 tag bytes are compared"
			continue
		}
		var cover []span
		for _, w := range m.writes {
			for _, q := range e.pieces(st, w) {
				s := e.span(q)
				if n := len(cover); n > 0 && cover[n-1].base == s.base {
					if gap := s.lo.add(cover[n-1].hi, -1); st.provedLE0(gap) && st.provedLE0(lin{}.add(gap, -1)) {
						cover[n-1].hi = s.hi
						continue
					}
				}
				cover = append(cover, s)
			}
		}
		miss := false
		for _, p := range parts {
			in := false
			for _, s := range cover {
				in = in || e.inside(st, e.span(p), s)
			}
			miss = miss || !in
		}
		if miss {
			why = "the tag compared before it does not cover all of these bytes"
			continue
		}
		return ""
	}
	return why
}
