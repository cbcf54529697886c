package main

import (
	"fmt"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

const protoUnmarshal = "google.golang.org/protobuf/proto.Unmarshal"

var isUnmarshal = names("github.com/golang/protobuf/proto.Unmarshal", "github.com/golang/protobuf/proto.UnmarshalMerge", protoUnmarshal,
	"google.golang.org/protobuf/proto.UnmarshalOptions.Unmarshal")

func init() {
	register(&propDef{
		ID: "C11",
		Expl: "Path-sensitive dataflow with a byte-value-set domain: in both message parsers, at the parse of the protocol buffer and at every error-free exit, the values the first byte can have under the path's conditions must all have the supported version (3) in their high half, and the returned message carries it. " +
			"In both decrypt entry points every tag check must lie on a path where the message's version was found equal to the version of the session state; in the builder of a receiving session every key agreement, store and error-free return on a path where the message's version is the supported one.",
		Assume:  []string{"a stored session version of 0 stands for 2, as in the protocol"},
		Minimum: map[string]int{"version-before-parse": 2, "version-on-success": 2, "version-matches-session": 2, "version-before-build": 1},
		Run:     runC11,
	})
}

// byteSet evaluates which values of the byte term are possible under the
// facts of the state.
func (s *State) byteSet(isByte func(*Expr) bool) []int {
	var out []int
	for v := 0; v < 256; v++ {
		ok := true
		ev := func(x *Expr) (int64, bool) { return evalByte(x, isByte, int64(v)) }
		for x, c := range s.eq {
			if n, k := ev(x); k {
				if m, err := strconv.ParseInt(c, 10, 64); err == nil && m != n {
					ok = false
				}
			}
		}
		for x, b := range s.bf {
			if n, k := ev(x); k && (n != 0) != b {
				ok = false
			}
		}
		for _, b := range s.bd {
			t, all := b.l.k, len(b.l.c) > 0
			for a, c := range b.l.c {
				n, k := ev(a)
				if !k {
					all = false
					break
				}
				t += c * n
			}
			if all && (t < b.lo || t > b.hi) {
				ok = false
			}
		}
		if ok {
			out = append(out, v)
		}
	}
	return out
}

// evalByte evaluates a term over one byte; wraps to the term's type.
func evalByte(x *Expr, isByte func(*Expr) bool, v int64) (int64, bool) {
	if x == nil {
		return 0, false
	}
	if isByte(x) {
		return v, true
	}
	if x.isInt {
		return x.n, true
	}
	switch x.k {
	case KZero:
		if isIntT(x.t) {
			return 0, true
		}
	case KConv:
		n, ok := evalByte(x.a[0], isByte, v)
		return wrapInt(n, x.t), ok && isIntT(x.t)
	case KUn:
		n, ok := evalByte(x.a[0], isByte, v)
		if !ok {
			return 0, false
		}
		switch x.s {
		case "-":
			return wrapInt(-n, x.t), true
		case "^":
			return wrapInt(^n, x.t), true
		case "!":
			return 1 - n, true
		}
	case KBin:
		a, ok1 := evalByte(x.a[0], isByte, v)
		b, ok2 := evalByte(x.a[1], isByte, v)
		if !ok1 || !ok2 {
			return 0, false
		}
		r := int64(0)
		switch x.s {
		case "+":
			r = a + b
		case "-":
			r = a - b
		case "*":
			r = a * b
		case "/":
			if b == 0 {
				return 0, false
			}
			r = a / b
		case "%":
			if b == 0 {
				return 0, false
			}
			r = a % b
		case "&":
			r = a & b
		case "|":
			r = a | b
		case "^":
			r = a ^ b
		case "&^":
			r = a &^ b
		case "<<":
			if b > 40 {
				return 0, false
			}
			r = a << uint(b)
		case ">>":
			if b > 62 {
				return 0, false
			}
			r = a >> uint(b)
		case "==":
			return int64(b2i(a == b)), true
		case "<":
			return int64(b2i(a < b)), true
		default:
			return 0, false
		}
		return wrapInt(r, x.t), true
	}
	return 0, false
}

func wrapInt(n int64, t types.Type) int64 {
	if t == nil {
		return n
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return n
	}
	switch b.Kind() {
	case types.Uint8:
		return int64(uint8(n))
	case types.Int8:
		return int64(int8(n))
	case types.Uint16:
		return int64(uint16(n))
	case types.Int16:
		return int64(int16(n))
	case types.Uint32:
		return int64(uint32(n))
	case types.Int32:
		return int64(int32(n))
	}
	return n
}

func runC11(c *Check) {
	const version = 3
	// parsers
	for _, p := range []struct{ fn, typ string }{{axo + "LoadWhisperMessage", "WhisperMessage"}, {axo + "LoadPreKeyWhisperMessage", "PreKeyWhisperMessage"}} {
		fn := c.anchor(p.fn)
		if fn == nil {
			continue
		}
		isFirst := func(x *Expr) bool {
			var b, i *Expr
			switch {
			case x.k == KLoad && x.a[0].k == KIndexAddr:
				b, i = x.a[0].a[0], x.a[0].a[1]
			case x.k == KIndex:
				b, i = x.a[0], x.a[1]
			default:
				return false
			}
			b, i = b.strip(), i.strip()
			if !i.isInt && i.k != KZero {
				return false
			}
			off := i.n
			for b.k == KSlice { // the first byte of a prefix
				if b.a[1] != nil {
					l := b.a[1].strip()
					if !l.isInt {
						return false
					}
					off += l.n
				}
				b = b.a[0].strip()
			}
			return off == 0 && b.k == KParam && b.n == 0
		}
		high := func(st *State) (bool, string) {
			set := st.byteSet(isFirst)
			for _, v := range set {
				if v>>4 != version {
					return false, fmt.Sprintf("leading byte 0x%02x is let through", v)
				}
			}
			return true, ""
		}
		var e *Engine
		n, badP := 0, ""
		h := Hooks{}
		h.Call = func(st *State, ci *CallInfo) Action {
			if isUnmarshal(ci.Name) && len(ci.Args) > 0 && !e.fromCall(ci.Args[0], isUnmarshal) && ci.Args[0].strip() != nil && e.fromParam(ci.Args[0], 0) {
				n++
				if ok, why := high(st); !ok {
					badP = why + " (parsed at " + c.p.pos(ci.Pos()) + ")"
				}
				return Opaque
			}
			if keyCodec(ci.Name) {
				return Opaque
			}
			return Default
		}
		e = newEngine(c.p, h)
		e.relevant = c.p.reachesNames(isUnmarshal)
		exits := e.Run(fn)
		c.use(e)
		c.ob("version-before-parse", p.fn, fn.Pos(), n > 0 && badP == "", badP)
		badE := ""
		oks := e.okExits(fn, exits)
		for _, x := range oks {
			if ok, why := high(x.st); !ok {
				badE = why + " (return at " + c.p.pos(x.pos) + ")"
			}
			if f := structField(fn.Signature.Results().At(0).Type(), "Version"); f != nil {
				v := e.read(x.st, e.fieldAddr(x.rets[0], f, fieldIndex(fn.Signature.Results().At(0).Type(), "Version")), f.Type())
				good := false
				for _, b := range x.st.byteSet(isFirst) {
					r, ok := evalByte(v, isFirst, int64(b))
					if !ok || r != version {
						good = false
						break
					}
					good = true
				}
				if lo, hi := x.st.interval(e.linOf(v)); lo == version && hi == version {
					good = true
				}
				if !good {
					badE = fmt.Sprintf("the parsed message does not carry version %d (return at %s)", version, c.p.pos(x.pos))
				}
			}
		}
		c.ob("version-on-success", p.fn, fn.Pos(), len(oks) > 0 && badE == "", badE)
	}
	// sessions
	rel := c.p.reachesCall(func(cc *ssa.CallCommon) bool { return isMacEq(calleeName(cc)) })
	for _, name := range []string{scDec, scPre} {
		fn := c.anchor(name)
		if fn == nil {
			continue
		}
		var e *Engine
		n, bad := 0, ""
		isMsg := func(a *Expr) bool {
			a = a.strip()
			return e.fieldTerm(a) == "Version"
		}
		isSess := func(a *Expr) bool { return e.fromField(a.strip(), "SessionVersion") }
		matched := func(st *State) bool {
			var mv, sv []*Expr
			for _, b := range st.bd {
				if len(b.l.c) == 2 && b.l.k == 0 && b.lo == 0 && b.hi == 0 {
					m, s := false, false
					sum := int64(0)
					for a, k := range b.l.c {
						m = m || isMsg(a)
						s = s || isSess(a)
						sum += k
					}
					if m && s && sum == 0 {
						return true
					}
				}
				for a := range b.l.c {
					if isMsg(a) {
						mv = append(mv, a)
					}
					if isSess(a) {
						sv = append(sv, a)
					}
				}
			}
			for _, m := range mv { // the old version, stored as 0
				lo, hi := st.interval(e.linOf(m))
				for _, s := range sv {
					l2, h2 := st.interval(e.linOf(s))
					if lo == hi && l2 == h2 && (lo == l2 || l2 == 0 && lo == 2) {
						return true
					}
				}
			}
			return false
		}
		h := Hooks{Call: ratchetCalls}
		h.Branch = func(st *State, fr *Frame, in *ssa.If, cond *Expr, val bool) {
			if len(st.events("matched")) == 0 && matched(st) {
				st.recordSet(Event{Kind: "matched"})
			}
		}
		h.After = func(st *State, ci *CallInfo, res *Expr) {
			if !isMacEq(ci.Name) {
				return
			}
			n++
			if len(st.events("matched")) == 0 {
				bad = "a message is tried against a session state without their versions being found equal (tag checked at " + c.p.pos(ci.Pos()) + ")"
			}
		}
		e = newEngine(c.p, h)
		e.relevant = rel
		e.smallMax = 25
		e.Run(fn)
		c.use(e)
		c.ob("version-matches-session", name, fn.Pos(), n > 0 && bad == "", bad)
	}
	// building a receiving session
	if fn := c.anchor(bldRecv); fn != nil {
		var e *Engine
		n, bad := 0, ""
		vfact := func(st *State) bool {
			for _, b := range st.bd {
				if len(b.l.c) == 1 {
					for a := range b.l.c {
						if e.fieldTerm(a.strip()) == "Version" {
							lo, hi := st.interval(lin{c: map[*Expr]int64{a: 1}})
							if lo == version && hi == version {
								return true
							}
						}
					}
				}
			}
			return false
		}
		need := func(st *State, what, where string) {
			if !vfact(st) {
				bad = what + " without the message's version being the supported one (" + where + ")"
			}
		}
		h := Hooks{}
		h.Call = func(st *State, ci *CallInfo) Action {
			if isAgree(ci.Name) || ci.Name == ssStore || ci.Name == idSave {
				n++
				need(st, "a session is built", c.p.pos(ci.Pos()))
			}
			return builderCalls(st, ci)
		}
		e = newEngine(c.p, h)
		e.relevant = c.p.reachesNames(func(s string) bool { return isAgree(s) || s == ssStore || s == idSave })
		e.smallMax = 25
		for _, x := range e.okExits(fn, e.Run(fn)) {
			n++
			need(x.st, "the builder succeeds", c.p.pos(x.pos))
		}
		c.use(e)
		c.ob("version-before-build", bldRecv, fn.Pos(), n > 0 && bad == "", bad)
	}
}

func structField(t types.Type, name string) *types.Var {
	i := fieldIndex(t, name)
	if i < 0 {
		return nil
	}
	return fieldOf(t, i)
}

func fieldIndex(t types.Type, name string) int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}
