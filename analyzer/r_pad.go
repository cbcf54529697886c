package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const sEncrypt = axo + "SessionCipher.SessionEncryptMessage"

func init() {
	register(&propDef{
		ID: "C32",
		Expl: "padded: every call of the session encryption is followed back to where the plaintext is made. Its length, as a linear form over the length of the content in which remainders are replaced by quotients, must have coefficients that are all multiples of 160; the content must be at its start, and the byte 0x80 be stored behind it. " +
			"stripped: on every way from a session decryption to the parsing of a content, the bytes parsed must be the part of the plaintext before a byte found to be 0x80, or the whole only where the plaintext was searched for one.",
		Assume:  []string{"the crayfish backend removes the padding of sealed messages"},
		Minimum: map[string]int{"padded": 1, "stripped": 2},
		Run:     runC32,
	})
}

// padStep: lengths of padded messages are multiples of this.
const padStep = 160

// modulo expands a length into a linear form in which x%k is x-k*(x/k) and
// x&^(k-1) is k*(x/k).
func (e *Engine) modulo(l lin) lin {
	out := lin{k: l.k}
	for a, c := range l.c {
		x := a
		if x.k == KBin && len(x.a) == 2 {
			k, isK := x.a[1], x.a[1].k == KConst && x.a[1].isInt && x.a[1].n > 0
			if isK {
				q := e.it.mk(Expr{k: KBin, s: "/", a: []*Expr{x.a[0], k}, t: x.t}, "")
				switch x.s {
				case "%":
					in := e.modulo(e.linOf(x.a[0]))
					out = out.add(in, c)
					out = out.add(lin{c: map[*Expr]int64{q: 1}}, -c*k.n)
					continue
				case "&":
					if k.n&(k.n+1) == 0 {
						kk := e.it.intConst(k.n + 1)
						q = e.it.mk(Expr{k: KBin, s: "/", a: []*Expr{x.a[0], kk}, t: x.t}, "")
						in := e.modulo(e.linOf(x.a[0]))
						out = out.add(in, c)
						out = out.add(lin{c: map[*Expr]int64{q: 1}}, -c*kk.n)
						continue
					}
				case "&^":
					if k.n&(k.n+1) == 0 {
						kk := e.it.intConst(k.n + 1)
						q = e.it.mk(Expr{k: KBin, s: "/", a: []*Expr{x.a[0], kk}, t: x.t}, "")
						out = out.add(lin{c: map[*Expr]int64{q: 1}}, c*kk.n)
						continue
					}
				}
			}
		}
		out = out.add(lin{c: map[*Expr]int64{a: 1}}, c)
	}
	return out
}

// stepFact: a test has shown the length of x to be a multiple of the step.
func (e *Engine) stepFact(st *State, x *Expr) bool {
	for k, v := range st.bf {
		if v && k.k == KBin && k.s == "==" {
			if z, m := constSide(k.a[0], k.a[1]); z != nil && z.isInt && z.n == 0 && m.k == KBin && m.s == "%" && m.a[1].k == KConst && m.a[1].isInt && m.a[1].n%padStep == 0 && m.a[1].n > 0 {
				if d := e.linOf(m.a[0]).add(e.lenLin(x), -1); len(d.c) == 0 && d.k == 0 {
					return true
				}
			}
		}
	}
	for a := range e.lenLin(x).c {
		m := e.it.mk(Expr{k: KBin, s: "%", a: []*Expr{a, e.it.intConst(padStep)}, t: a.t}, "")
		if lo, hi := st.interval(e.linOf(m)); lo == 0 && hi == 0 {
			return true
		}
	}
	return false
}

// startOf: the buffer a slice of its first bytes belongs to.
func startOf(x *Expr) *Expr {
	x = x.strip()
	for x.k == KSlice && x.a[1] == nil {
		x = x.a[0].strip()
	}
	return x
}

func runC32(c *Check) {
	isBytes := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	// plain helpers over byte slices are looked into
	helper := func(f *ssa.Function) bool {
		if f == nil || f.Signature.Recv() != nil || f.Signature.Results().Len() == 0 || len(f.Params) == 0 || f.Blocks == nil {
			return false
		}
		return isBytes(f.Signature.Results().At(0).Type()) && isBytes(f.Params[0].Type()) && !c.p.isGen(f.Pos())
	}
	enc := func(in ssa.Instruction) bool {
		cc := callOf(in)
		return cc != nil && calleeName(cc) == sEncrypt
	}
	c.upwardTo("padded", c.startsWith(enc, func(f *ssa.Function) bool { return !inCmd(f) }), func(root, target *ssa.Function, res *rootResult, rel map[*ssa.Function]bool) {
		var e *Engine
		store := func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
			if addr.k == KIndexAddr && val.k == KConst && val.isInt && val.n == 0x80 {
				st.record(Event{Kind: "mark", Args: []*Expr{addr.a[0].strip(), addr.a[1]}, Pos: in.Pos(), Fn: fr.fn, Ctx: fr.ctx})
			}
		}
		e = newEngine(c.p, Hooks{
			Store: store,
			Call: func(st *State, ci *CallInfo) Action {
				if ci.Name == sEncrypt && ci.In == target {
					why := ""
					p := ci.Args[1].strip()
					l := e.modulo(e.lenLin(p))
					if l.k%padStep != 0 {
						why = "its length is not a multiple of the padding step"
					}
					for _, k := range l.c {
						if k%padStep != 0 {
							why = "its length is not a multiple of the padding step"
						}
					}
					grown := why != "" && (p.k == KPhi || p.k == KJoin || p.k == KCall && p.s == "builtin.append") && e.stepFact(st, p)
					if grown {
						why = "" // extended until it is one; where the mark is cannot be seen
					}
					if why == "" && !grown && len(l.c) == 0 {
						why = "its length does not follow the content"
					}
					if why == "" && !grown {
						why = "no end mark is stored behind the content"
						for _, ev := range st.events("mark") {
							if ev.Args[0] != p {
								continue
							}
							for _, cp := range st.events("copy") {
								at := e.linOf(ev.Args[1]).add(e.lenLin(cp.Args[1]), -1)
								if startOf(cp.Args[0]) == p && (len(at.c) == 0 && at.k == 0 || ev.Args[1].strip() == cp.Res) {
									why = ""
								}
							}
						}
						if e.it.contains(p, func(y *Expr) bool { return y.k == KConst && y.isInt && y.n == 0x80 }) {
							why = ""
						}
					}
					trace("C32 %s root %s: %s len %s: %s", c.p.pos(ci.Pos()), fnName(root), p, fmt.Sprint(l), why)
					res.put(fnName(target), ci.Pos(), target, why == "", "a message is encrypted although it was not padded: "+why, c.p.ctxPath(ci.Ctx))
					return Opaque
				}
				if helper(ci.Callee) {
					return Inline
				}
				return Default
			},
			After: func(st *State, ci *CallInfo, r *Expr) {
				if ci.Name == "builtin.copy" {
					st.record(Event{Kind: "copy", Args: ci.Args, Res: r, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
				}
			}})
		e.relevant = rel
		e.Run(root)
		c.useBounded(e)
	}, 5, nil)

	r := c.receiving()
	c.ob("anchor", "receive", 0, len(r.roots) > 0, "no function both decrypts envelopes and notifies the application")
	parses := c.p.reachesInstr(func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && isDecode(calleeName(ci.Common())) && into(ci) == "Content"
	})
	for _, root := range r.roots {
		res := &rootResult{inst: map[string]instRes{}}
		var e *Engine
		h := r.hooks(&e, func(st *State, ci *CallInfo) Action {
			if ci.Site != nil && isDecode(ci.Name) && into(ci.Site) == "Content" {
				ds := st.events("decrypt")
				if len(ds) == 0 || ds[len(ds)-1].Name == r.sealed {
					return Default
				}
				d := ds[len(ds)-1]
				b := ci.Args[len(ci.Args)-2].strip()
				plain := e.result(d.Res, 0, 2, nil)
				why := stripped(e, st, b, plain)
				trace("C32 parse %s: %s of %s: %s", c.p.pos(ci.Pos()), b, plain, why)
				res.put(d.Name, ci.Pos(), ci.In, why == "", "a decrypted content is parsed although "+why, c.p.ctxPath(ci.Ctx))
				return Opaque
			}
			if helper(ci.Callee) {
				return Inline
			}
			return Default
		})
		br := h.Branch
		h.Branch = func(st *State, fr *Frame, in *ssa.If, cond *Expr, val bool) {
			br(st, fr, in, cond, val)
			for cond.k == KUn && cond.s == "!" {
				cond, val = cond.a[0], !val
			}
			e.it.contains(cond, func(y *Expr) bool {
				if y.k == KCall && (y.s == "bytes.LastIndexByte" || y.s == "bytes.LastIndex") {
					st.recordSet(Event{Kind: "other", Args: []*Expr{y.a[0].strip(), y}})
				}
				return false
			})
			if cond.k == KBin && cond.s == "==" {
				if k, x := constSide(cond.a[0], cond.a[1]); k != nil && k.isInt && k.n == 0x80 {
					x = x.strip()
					if x.k == KLoad {
						x = x.a[0]
					}
					if x.k == KIndex || x.k == KIndexAddr {
						kind := "other"
						if val {
							kind = "mark"
						}
						st.recordSet(Event{Kind: kind, Args: []*Expr{x.a[0].strip(), x.a[1]}})
					}
				}
			}
		}
		e = newEngine(c.p, h)
		r.e = e
		e.relevant = map[*ssa.Function]bool{}
		for f := range parses {
			e.relevant[f] = true
		}
		e.Run(root)
		c.useBounded(e)
		for _, k := range res.order {
			i := res.inst[k]
			c.ob("stripped", k, i.pos, i.ok, i.detail)
		}
	}
}

// stripped: why b is not the plaintext without its padding.
func stripped(e *Engine, st *State, b, plain *Expr) string {
	plain = plain.strip()
	search := func(x *Expr) bool { // a search for the mark from the end
		return x.k == KCall && (x.s == "bytes.LastIndexByte" || x.s == "bytes.LastIndex") && x.a[0].strip() == plain
	}
	if b.k == KSlice && b.a[0].strip() == plain && b.a[1] == nil && b.a[2] != nil {
		if search(b.a[2].strip()) {
			return ""
		}
		for _, ev := range st.events("mark") {
			if ev.Args[0] == plain && ev.Args[1].strip() == b.a[2].strip() {
				return ""
			}
		}
		return "what was cut off is not known to start with the end mark"
	}
	if b == plain {
		for _, ev := range st.events("other") {
			if ev.Args[0] == plain {
				return ""
			}
		}
		if _, hi := st.interval(e.lenLin(plain)); hi <= 0 {
			return ""
		}
		return "it was not searched for the end mark of its padding"
	}
	if e.it.contains(b, func(y *Expr) bool { return y.k == KCall && len(y.a) > 0 && y.a[0].strip() == plain }) {
		return ""
	}
	return "it is not made from the plaintext"
}
