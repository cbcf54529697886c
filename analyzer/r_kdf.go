package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&propDef{
		ID: "C29",
		Expl: "Every function that reads key material from an HKDF or computes PBKDF2 was enumerated and followed, together with its callers, up to the function that fixes the size. " +
			"full: a derivation that reports no error hands out exactly the buffer that was filled, and the filling succeeded. " +
			"parts: the parts of a derived buffer that are stored, copied or handed on for different purposes are disjoint, together they are the whole buffer, and a part copied into a key of fixed size fills it. " +
			"label: derivations at different places have different, fixed labels. " +
			"seed: MACs of fixed data that derive one key from another use different data at different places.",
		Assume:  []string{"golang.org/x/crypto's hkdf and pbkdf2 behave as documented: a read fills the buffer or fails"},
		Minimum: map[string]int{"full": 1, "parts": 5, "label": 4, "seed": 2},
		Run:     runC29,
	})
}

var hkdfNew = names("golang.org/x/crypto/hkdf.New", "golang.org/x/crypto/hkdf.Expand", "crypto/hkdf.Key", "crypto/hkdf.Expand")

const pbkdf2Key = "golang.org/x/crypto/pbkdf2.Key"

type keyUse struct {
	lo, hi      int64
	class, for_ string
	pos         token.Pos
}

type derived struct {
	size  lin
	label string // quoted, or "" when not fixed
	pos   token.Pos
	kdf   string
	uses  []keyUse
	open  string // why the parts cannot be told
	short string
	at    token.Pos
}

func runC29(c *Check) {
	var start []*ssa.Function
	for _, f := range c.sortedFuncs() {
		if inCmd(f) || c.p.isGen(f.Pos()) {
			continue
		}
		if c.p.callsAny(f, func(cc *ssa.CallCommon) bool { n := calleeName(cc); return hkdfNew(n) || n == pbkdf2Key }) {
			start = append(start, f)
		}
	}
	type labelled struct {
		label string
		pos   token.Pos
		fn    *ssa.Function
	}
	var labels []labelled
	var visit func(f *ssa.Function, depth int, labelsOnly bool)
	seen := map[*ssa.Function]int{}
	visit = func(f *ssa.Function, depth int, labelsOnly bool) {
		k := 1
		if labelsOnly {
			k = 2
		}
		if seen[f]&k != 0 || inCmd(f) {
			return
		}
		seen[f] |= k
		ds, order, exits, e := c.derivations(f)
		direct := false
		for _, s := range start {
			direct = direct || s == f
		}
		upParts, upLabel := false, false
		for _, b := range order {
			d := ds[b]
			trace("C29 %s: %v %v size %v label %s uses %v", fnName(f), b, b.id, d.size, d.label, d.uses)
			_, one := d.size.key()
			fixed := len(d.size.c) == 0 && one != 0
			returned := false
			for _, x := range exits {
				for i, r := range x.rets {
					if s := e.span(r.strip()); s.base == b {
						lo, ok1 := constLin(s.lo)
						hi, ok2 := constLin(s.hi)
						switch {
						case fixed && ok1 && ok2 && (lo != 0 || hi != d.size.k):
							d.use(lo, hi, "result", fmt.Sprint(i), x.pos)
						default:
							returned = true
						}
					}
				}
			}
			if direct && !labelsOnly {
				bad, at := e.handsOut(f, exits, b)
				c.ob("full", fnName(f)+" "+d.kdf, at, bad == "", bad)
			}
			if !labelsOnly {
				if !fixed || returned && len(d.uses) == 0 {
					upParts = true
				} else {
					bad, at := d.judge()
					if at == token.NoPos {
						at = d.pos
					}
					c.ob("parts", fnName(f), at, bad == "", bad)
					for _, x := range exits {
						for _, ev := range x.st.events("derived") {
							if ev.Args[0] == b && ev.Err != nil && x.st.isNil(ev.Err) != 1 {
								c.fail("parts", fnName(f)+" failure", c.p.pos(x.pos), "a derivation that failed is not reported", "")
							}
						}
					}
				}
			}
			if d.kdf == "hkdf" {
				if d.label == "" {
					upLabel = true
				} else {
					labels = append(labels, labelled{d.label, d.pos, f})
				}
			}
		}
		if depth >= 3 {
			if upLabel {
				c.fail("label", fnName(f), c.p.pos(f.Pos()), "the label of a derivation is not fixed", "")
			}
			return
		}
		for _, g := range c.p.callers[f] {
			if upParts {
				visit(g, depth+1, false)
			} else if upLabel {
				visit(g, depth+1, true)
			}
		}
	}
	for _, f := range start {
		visit(f, 0, false)
	}
	// labels
	sort.SliceStable(labels, func(i, j int) bool { return labels[i].pos < labels[j].pos })
	for i, l := range labels {
		bad := ""
		for j, m := range labels {
			if i != j && l.label == m.label && (l.fn != m.fn || l.pos != m.pos) {
				bad = fmt.Sprintf("the label %s is also that of the derivation at %s in %s", l.label, c.p.pos(m.pos), fnName(m.fn))
			}
		}
		c.ob("label", fnName(l.fn)+" "+l.label, l.pos, bad == "", bad)
	}
	c.seeds()
}

func constLin(l lin) (int64, bool) {
	for _, v := range l.c {
		if v != 0 {
			return 0, false
		}
	}
	return l.k, true
}

func (d *derived) use(lo, hi int64, class, purpose string, pos token.Pos) {
	for _, u := range d.uses {
		if u.lo == lo && u.hi == hi && u.class == class && u.for_ == purpose {
			return
		}
	}
	d.uses = append(d.uses, keyUse{lo, hi, class, purpose, pos})
}

// judge: the parts are disjoint and cover the buffer.
func (d *derived) judge() (string, token.Pos) {
	if d.open != "" {
		return d.open, d.at
	}
	if d.short != "" {
		return d.short, d.at
	}
	for i, u := range d.uses {
		for _, v := range d.uses[:i] {
			if u.class == v.class && u.for_ != v.for_ && u.lo < v.hi && v.lo < u.hi {
				return fmt.Sprintf("the bytes %d to %d serve as %s, and the bytes %d to %d as %s: they overlap", v.lo, v.hi, v.for_, u.lo, u.hi, u.for_), u.pos
			}
		}
	}
	us := append([]keyUse{}, d.uses...)
	sort.Slice(us, func(i, j int) bool { return us[i].lo < us[j].lo })
	to := int64(0)
	for _, u := range us {
		if u.lo > to {
			break
		}
		if u.hi > to {
			to = u.hi
		}
	}
	if to < d.size.k {
		return fmt.Sprintf("of the %d bytes derived, those from %d on are not used: a part is shorter than it was meant to be", d.size.k, to), d.pos
	}
	return "", token.NoPos
}

// derivations runs f and collects the buffers derived on the way and what
// their parts are used for.
func (c *Check) derivations(f *ssa.Function) (map[*Expr]*derived, []*Expr, []*Exit, *Engine) {
	ds := map[*Expr]*derived{}
	var order []*Expr
	var e *Engine
	spanOf := func(x *Expr) (*derived, int64, int64, bool) {
		if x == nil {
			return nil, 0, 0, false
		}
		s := e.span(x.strip())
		d := ds[s.base]
		for o := range e.it.phiOps[s.base] { // the buffer, or nothing
			if d == nil {
				o = o.strip()
				if d = ds[o]; d != nil && (s.base == x.strip() || len(s.hi.c) > 0) {
					s.hi = s.hi.add(e.lenLin(s.base), -1).add(e.lenLin(o), 1)
				}
			}
		}
		if d == nil {
			return nil, 0, 0, false
		}
		lo, ok1 := constLin(s.lo)
		hi, ok2 := constLin(s.hi)
		return d, lo, hi, ok1 && ok2
	}
	use := func(x *Expr, class, purpose string, pos token.Pos) {
		d, lo, hi, ok := spanOf(x)
		if d == nil {
			return
		}
		if !ok {
			if len(d.size.c) == 0 {
				d.open, d.at = "a part of the derived bytes is cut at a place that is not fixed", pos
			}
			return
		}
		d.use(lo, hi, class, purpose, pos)
	}
	fieldPath := func(a *Expr) string {
		p := ""
		for a.k == KFieldAddr {
			p = "." + a.obj.Name() + p
			a = a.a[0].strip()
		}
		return p
	}
	reads := c.p.reachesCall(func(cc *ssa.CallCommon) bool { n := calleeName(cc); return hkdfNew(n) || n == pbkdf2Key })
	e = newEngine(c.p, Hooks{
		Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) {
			if reads[fn] {
				return true, true
			}
			for _, a := range ci.Args {
				if d, _, _, _ := spanOf(a); d != nil {
					return true, true
				}
			}
			return false, false
		},
		Call: func(st *State, ci *CallInfo) Action {
			switch {
			case ci.Name == "builtin.copy" && len(ci.Args) == 2:
				d, lo, hi, ok := spanOf(ci.Args[1])
				if d == nil || !ok {
					break
				}
				dst := e.span(ci.Args[0].strip())
				to, fixed := constLin(e.lenLin(ci.Args[0].strip()))
				if fixed && to < hi-lo {
					hi = lo + to
				}
				whole, ok1 := constLin(dst.hi)
				_, array := arrayLen(dst.base.t)
				if array && fixed && ok1 && whole == to && hi-lo < to && d.short == "" {
					d.short, d.at = fmt.Sprintf("only %d bytes are copied into a key of %d", hi-lo, to), ci.Pos()
				}
				p := fieldPath(addrOf(dst.base))
				if p == "" {
					p = fmt.Sprintf("the copy at %s", c.p.pos(ci.Pos()))
				}
				d.use(lo, hi, "stored", p, ci.Pos())
			case (ci.Callee == nil || ci.Callee.Blocks == nil) && ci.Name != "builtin.len" && ci.Name != "builtin.cap" && !filler(ci) && !strings.HasPrefix(ci.Name, "fmt.") && !strings.Contains(ci.Name, "logrus"):
				for i, a := range ci.Args {
					use(a, "call", fmt.Sprintf("argument %d of %s", i, ci.Name), ci.Pos())
				}
			}
			return Default
		},
		After: func(st *State, ci *CallInfo, r *Expr) {
			var buf *Expr
			d := &derived{pos: ci.Pos(), kdf: "hkdf"}
			switch {
			case ci.Name == pbkdf2Key:
				buf, d.kdf = r, "pbkdf2"
			case filler(ci) && e.fromCall(ci.Args[0], hkdfNew):
				buf = ci.Args[1]
			case ci.Name == "io.ReadAtLeast" && len(ci.Args) == 3 && e.fromCall(ci.Args[0], hkdfNew):
				buf = ci.Args[1]
			}
			if buf == nil {
				return
			}
			s := e.span(buf.strip())
			d.size = e.lenLin(s.base)
			if d.kdf == "hkdf" {
				e.it.contains(ci.Args[0], func(y *Expr) bool {
					if y.k != KCall || !hkdfNew(y.s) {
						return false
					}
					n := len(y.a) - 1
					if n >= 0 {
						d.label = fixedBytes(e, st, y.a[n])
					}
					return true
				})
			}
			if ds[s.base] == nil {
				ds[s.base] = d
				order = append(order, s.base)
			}
			ev := Event{Kind: "derived", Args: []*Expr{s.base}, Res: r, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx}
			if ci.Site != nil {
				ev.Err = e.errOf(ci.Site, r)
			}
			whole := s.hi.add(e.lenLin(s.base), -1)
			if lo, ok := constLin(s.lo); !ok || lo != 0 || !isZeroLin(whole) {
				d.short, d.at = "only a part of the buffer is filled", ci.Pos()
			}
			st.record(ev)
		},
		Store: func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
			if p := fieldPath(addr); p != "" {
				use(val, "stored", p, in.Pos())
			}
		},
	})
	e.relevant = reads
	exits := e.Run(f)
	c.useBounded(e)
	if errResult(f.Signature) >= 0 {
		exits = e.okExits(f, exits)
	}
	return ds, order, exits, e
}

func isZeroLin(l lin) bool {
	k, ok := constLin(l)
	return ok && k == 0
}

// addrOf: the address an array term was loaded from.
func addrOf(x *Expr) *Expr {
	x = x.strip()
	if x.k == KLoad {
		return x.a[0].strip()
	}
	return x
}

// filler: a call that fills its buffer or fails.
func filler(ci *CallInfo) bool {
	if len(ci.Args) != 2 {
		return false
	}
	return ci.Name == "io.ReadFull" || strings.HasSuffix(ci.Name, ".Read")
}

// handsOut: every way out that reports no error returns the filled buffer.
func (e *Engine) handsOut(f *ssa.Function, exits []*Exit, b *Expr) (string, token.Pos) {
	out := -1
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if f.Signature.Results().At(i).Type().String() == "[]byte" {
			out = i
		}
	}
	for _, x := range exits {
		var ev *Event
		for _, v := range x.st.events("derived") {
			if v.Args[0] == b {
				v := v
				ev = v
			}
		}
		if ev == nil {
			continue
		}
		if ev.Err != nil {
			if x.st.isNil(ev.Err) != 1 {
				return "the failure of the derivation is not reported", x.pos
			}
			// nothing was short when no error was reported
			n := e.result(ev.Res, 0, 2, nil)
			impossible := false
			for t, v := range x.st.bf {
				if t.k == KBin && t.s == "==" && !v && (t.a[0].strip() == n || t.a[1].strip() == n) {
					impossible = true
				}
			}
			if impossible {
				continue
			}
		}
		if out < 0 || out >= len(x.rets) {
			continue
		}
		if s := e.span(x.rets[out].strip()); s.base != b {
			if x.rets[out].strip().isNil() {
				return "no key and no error is returned", x.pos
			}
		} else if lo, ok := constLin(s.lo); !ok || lo != 0 || !isZeroLin(s.hi.add(e.lenLin(b), -1)) {
			return "a part of what was derived is returned", x.pos
		}
	}
	return "", f.Pos()
}

// fixedBytes renders a byte sequence known at compile time.
func fixedBytes(e *Engine, st *State, x *Expr) string {
	x = x.strip()
	switch {
	case x.isNil():
		return `""`
	case x.k == KConst && strings.HasPrefix(x.s, "\""):
		return x.s
	case x.k == KLoad && x.a[0].k == KGlobal:
		if g, ok := x.a[0].v.(*ssa.Global); ok {
			if s, ok := e.p.globalBytes(g); ok {
				return fmt.Sprintf("%q", s)
			}
		}
		return ""
	}
	n, ok := constLin(e.lenLin(x))
	if !ok || n < 0 || n > 256 {
		return ""
	}
	s := e.span(x)
	lo, ok := constLin(s.lo)
	if !ok {
		return ""
	}
	out := make([]byte, n)
	found := int64(0)
	for k, v := range st.mem {
		if k.k != KIndexAddr || e.span(k.a[0].strip()).base != s.base || !k.a[1].isInt {
			continue
		}
		if i := k.a[1].n - lo; i >= 0 && i < n {
			b, ok := v.n, v.isInt
			if y := v.strip(); !ok && y.k == KLoad && y.a[0].k == KGlobal {
				if g, isG := y.a[0].v.(*ssa.Global); isG {
					b, ok = e.p.globalByte(g)
				}
			}
			if !ok {
				return ""
			}
			out[i] = byte(b)
			found++
		}
	}
	if found != n {
		return ""
	}
	return fmt.Sprintf("%q", out)
}

// globalOnce: the value of a variable that is stored once, nil when it is
// stored elsewhere too or its address is taken.
func (p *Prog) globalOnce(g *ssa.Global) ssa.Value {
	var val ssa.Value
	stores := 0
	look := func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					stores++
					val = s.Val
				}
			}
		}
	}
	init := g.Pkg.Func("init")
	counted := init == nil
	for _, f := range p.AllFuncs {
		counted = counted || f == init
		look(f)
	}
	if !counted {
		look(init)
	}
	if stores != 1 {
		return nil
	}
	return val
}

func (p *Prog) globalByte(g *ssa.Global) (int64, bool) {
	k, ok := p.globalOnce(g).(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return 0, false
	}
	return k.Int64(), true
}

// globalBytes: the contents of a byte slice or array variable that only the
// package's initialisation writes.
func (p *Prog) globalBytes(g *ssa.Global) (string, bool) {
	val := p.globalOnce(g)
	if val == nil {
		return "", false
	}
	if cv, ok := val.(*ssa.Convert); ok {
		if k, ok := cv.X.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value), true
		}
		return "", false
	}
	sl, ok := val.(*ssa.Slice)
	if !ok {
		return "", false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return "", false
	}
	n, ok := arrayLen(al.Type().Underlying())
	if !ok {
		return "", false
	}
	out := make([]byte, n)
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		i, ok := ia.Index.(*ssa.Const)
		if !ok {
			return "", false
		}
		for _, rr := range *ia.Referrers() {
			if s, ok := rr.(*ssa.Store); ok {
				k, ok := s.Val.(*ssa.Const)
				if !ok {
					return "", false
				}
				if at := i.Int64(); at >= 0 && at < n {
					out[at] = byte(k.Int64())
				}
			}
		}
	}
	return string(out), true
}

// seeds: MACs of fixed data.
func (c *Check) seeds() {
	isMac := func(cc *ssa.CallCommon) bool { return calleeName(cc) == "crypto/hmac.New" }
	macs := c.p.reachesCall(isMac)
	type seed struct {
		data string
		pos  token.Pos
		fn   *ssa.Function
		ctx  *Ctx
	}
	var all []seed
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function, depth int)
	visit = func(f *ssa.Function, depth int) {
		if seen[f] || inCmd(f) {
			return
		}
		seen[f] = true
		up := false
		var e *Engine
		e = newEngine(c.p, Hooks{
			Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) {
				if macs[fn] && fn != f {
					return true, true
				}
				return false, false
			},
			Call: func(st *State, ci *CallInfo) Action {
				if strings.HasSuffix(ci.Name, ".Write") && len(ci.Args) == 2 && e.fromCall(ci.Args[0], names("crypto/hmac.New")) {
					data := fixedBytes(e, st, ci.Args[1])
					trace("C29 mac %s in %s: %v %s", c.p.pos(ci.Pos()), fnName(f), ci.Args[1], data)
					if data == "" {
						up = up || e.fromAnyParam(ci.Args[1])
						s := e.span(ci.Args[1].strip())
						for k, v := range st.mem {
							up = up || k.k == KIndexAddr && e.span(k.a[0].strip()).base == s.base && e.fromAnyParam(v)
						}
						return Default
					}
					for _, s := range all {
						if s.pos == ci.Pos() && (s.fn == f && s.ctx == ci.Ctx || s.fn == ci.In) {
							return Default
						}
					}
					all = append(all, seed{data, ci.Pos(), f, ci.Ctx})
				}
				return Default
			},
		})
		e.relevant = macs
		e.Run(f)
		c.useBounded(e)
		if up && depth < 2 {
			for _, g := range c.p.callers[f] {
				visit(g, depth+1)
			}
		}
	}
	for _, f := range c.sortedFuncs() {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != Mod+"/axolotl" || !c.p.callsAny(f, isMac) {
			continue
		}
		visit(f, 0)
	}
	for i, s := range all {
		bad := ""
		for j, o := range all {
			if i != j && o.data == s.data {
				bad = fmt.Sprintf("%s also derives from a MAC of %s: two keys are the same", fnName(o.fn), s.data)
			}
		}
		c.ob("seed", fnName(s.fn)+" "+s.data, s.pos, bad == "", bad)
	}
}

func (e *Engine) fromAnyParam(x *Expr) bool {
	return e.it.contains(x, func(y *Expr) bool { return y.k == KParam })
}
