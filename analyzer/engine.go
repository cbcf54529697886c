package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Action tells the engine how to treat a call.
type Action int

const (
	Default    Action = iota
	Opaque            // do not look inside
	Inline            // always look inside
	Prune             // the path ends here
	OpaqueKeep        // do not look inside; the rule accounts for its effects on memory
)

// CallInfo describes one call on one abstract path.
type CallInfo struct {
	Name   string        // canonical callee name ("" if unknown function value)
	Obj    types.Object  // callee object, if any
	Callee *ssa.Function // in-module target, if resolved and unique
	Args   []*Expr       // receiver first
	Site   ssa.CallInstruction
	In     *ssa.Function
	Ctx    *Ctx
	Defer  bool
	Go     bool
	FnVal  *Expr
}

func (c *CallInfo) Pos() token.Pos {
	if c.Site != nil {
		return c.Site.Pos()
	}
	return token.NoPos
}

// Hooks are the rule-specific callbacks.
type Hooks struct {
	Call    func(st *State, c *CallInfo) Action
	After   func(st *State, c *CallInfo, res *Expr)
	Instr   func(st *State, fr *Frame, in ssa.Instruction)
	Store   func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr)
	Branch  func(st *State, fr *Frame, in *ssa.If, cond *Expr, val bool)
	Inline  func(fn *ssa.Function, c *CallInfo) (yes, decided bool)
	Prepare func(st *State, args []*Expr)
}

// Engine runs the disjunctive dataflow of one entry point.
type Engine struct {
	p     *Prog
	it    *internTab
	h     Hooks
	evTab map[string]*Event
	steps int
	max   int
	// statistics
	Paths, Calls, Blocks int
	fnSeen               map[*ssa.Function]bool
	undecided            string
	relevant             map[*ssa.Function]bool
	smallCache           map[*ssa.Function]int
	stopAt               map[*ssa.Function]bool
	capStates, capExits  int
	keepBools            bool // truths returned are not merged
	maxCtx               int
	smallMax             int // helpers up to this size are always followed
	stat                 map[string]int
	rootArgs             []*Expr
}

func newEngine(p *Prog, h Hooks) *Engine {
	return &Engine{p: p, it: newIntern(), h: h, evTab: map[string]*Event{}, max: 400000, fnSeen: map[*ssa.Function]bool{},
		smallCache: map[*ssa.Function]int{}, capStates: 6, capExits: 3, maxCtx: 14, smallMax: 70, stat: map[string]int{}}
}

func (e *Engine) internEvent(ev Event) *Event {
	var sb strings.Builder
	sb.WriteString(ev.Kind + "|" + ev.Name + "|")
	fmt.Fprintf(&sb, "%d", ev.Pos)
	for _, a := range ev.Args {
		if a == nil {
			sb.WriteString(",_")
		} else {
			fmt.Fprintf(&sb, ",%d", a.id)
		}
	}
	if ev.Res != nil {
		fmt.Fprintf(&sb, "=%d", ev.Res.id)
	}
	if ev.Ctx != nil {
		fmt.Fprintf(&sb, "@%d", ev.Ctx.id)
	}
	k := sb.String()
	if x, ok := e.evTab[k]; ok {
		return x
	}
	x := ev
	x.id = len(e.evTab) + 1
	e.evTab[k] = &x
	return &x
}

type Frame struct {
	fn     *ssa.Function
	ctx    *Ctx
	env    map[ssa.Value]*Expr
	params []*Expr
	free   []*Expr
	defers []*deferred
	e      *Engine
}

type deferred struct {
	instr *ssa.Defer
	ci    *CallInfo
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]*Expr, len(f.env)+4)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]*deferred(nil), f.defers...)
	return &n
}

// Exit is one way an activation can end.
type Exit struct {
	st    *State
	rets  []*Expr
	pos   token.Pos
	panic bool
}

type item struct {
	b    *ssa.BasicBlock
	idx  int
	pred *ssa.BasicBlock
	st   *State
	fr   *Frame
}

// Run analyses fn as an entry point with symbolic parameters.
func (e *Engine) Run(fn *ssa.Function) []*Exit {
	ctx := e.it.ctx(nil, nil, fn)
	var args []*Expr
	for i, p := range fn.Params {
		args = append(args, e.it.mk(Expr{k: KParam, s: p.Name(), n: int64(i), t: p.Type(), v: p, fn: fn}, siteKey(ctx, p)))
	}
	e.rootArgs = args
	var free []*Expr
	for i, p := range fn.FreeVars {
		free = append(free, e.it.mk(Expr{k: KFree, s: p.Name(), n: int64(i), t: p.Type(), v: p, fn: fn}, siteKey(ctx, p)))
	}
	st := newState(e)
	if e.h.Prepare != nil {
		e.h.Prepare(st, args)
	}
	return e.runFn(fn, ctx, args, free, st)
}

func (e *Engine) giveUp(why string) {
	if e.undecided == "" {
		e.undecided = why
	}
}

func (e *Engine) runFn(fn *ssa.Function, ctx *Ctx, args, free []*Expr, st *State) []*Exit {
	e.fnSeen[fn] = true
	fr := &Frame{fn: fn, ctx: ctx, env: map[ssa.Value]*Expr{}, params: args, free: free, e: e}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			fr.env[p] = free[i]
		}
	}
	type hk = [2]uint64
	seen := map[*ssa.BasicBlock]map[hk]bool{}
	done := map[*ssa.BasicBlock][]*item{}
	pending := map[*ssa.BasicBlock][]*item{}
	var exits []*Exit
	exitSeen := map[hk]bool{}
	if fn.Blocks == nil {
		return nil
	}
	live := e.liveness(fn)
	order := e.rpo(fn)
	mark := func(w *item) bool {
		k := w.st.hash()
		envHash(&k, w.fr)
		if seen[w.b] == nil {
			seen[w.b] = map[hk]bool{}
		}
		if seen[w.b][k] {
			return false
		}
		seen[w.b][k] = true
		return true
	}
	arrive := func(w *item) {
		e.bindPhis(w)
		// forget dead bindings so that equal states coincide
		for v := range w.fr.env {
			if !live[w.b][v] {
				switch v.(type) {
				case *ssa.Parameter, *ssa.FreeVar:
				default:
					delete(w.fr.env, v)
				}
			}
		}
		if mark(w) {
			pending[w.b] = append(pending[w.b], w)
		}
	}
	group := func(w *item) string {
		return w.st.espKey() + "%" + flagKey(w.st, w.fr, e.keepBools) + "%" + defKey(w.fr)
	}
	join := func(a, b *item) *item {
		ns := a.st.joinWith(b.st)
		nf := e.joinFrames(a.fr, b.fr, a.b)
		e.joinFacts(ns, a, b, nf)
		return &item{b: a.b, st: ns, fr: nf}
	}
	arrive(&item{b: fn.Blocks[0], st: st, fr: fr})
	for {
		if e.undecided != "" {
			return exits
		}
		var b *ssa.BasicBlock
		for _, x := range order {
			if len(pending[x]) > 0 {
				b = x
				break
			}
		}
		if b == nil {
			break
		}
		ws := pending[b]
		delete(pending, b)
		if len(ws)+len(done[b]) > e.capStates {
			var out []*item
			idx := map[string]int{}
			for _, w := range ws {
				g := group(w)
				if i, ok := idx[g]; ok {
					out[i] = join(out[i], w)
				} else {
					idx[g] = len(out)
					out = append(out, w)
				}
			}
			ws = nil
			for _, w := range out {
				g := group(w)
				hit := -1
				for i, o := range done[b] {
					if group(o) == g {
						hit = i
					}
				}
				if hit >= 0 {
					w = join(done[b][hit], w)
					k := w.st.hash()
					envHash(&k, w.fr)
					ok := done[b][hit].st.hash()
					envHash(&ok, done[b][hit].fr)
					if k == ok {
						continue
					}
					mark(w)
					done[b][hit] = &item{b: b, st: w.st.clone(), fr: w.fr.clone()}
					ws = append(ws, w)
					continue
				}
				mark(w)
				done[b] = append(done[b], &item{b: b, st: w.st.clone(), fr: w.fr.clone()})
				ws = append(ws, w)
			}
			if len(done[b]) > 300+8*e.capStates {
				e.giveUp(fmt.Sprintf("state explosion in %s", fnName(fn)))
				return exits
			}
			if debugOn && len(ws) > 0 && os.Getenv("VSA_GRP") == fnName(fn) {
				for _, w := range ws {
					trace("GRP b%d %s", b.Index, group(w))
				}
			}
		} else {
			for _, w := range ws {
				done[b] = append(done[b], &item{b: b, st: w.st.clone(), fr: w.fr.clone()})
			}
		}
		for _, w := range ws {
			e.Blocks++
			if debugOn {
				e.stat[fmt.Sprintf("%s.%d depth%d", fnName(fn), b.Index, ctx.depth)]++
			}
			next, ex := e.runBlock(w)
			for _, n := range next {
				arrive(n)
			}
			for _, x := range ex {
				if x.panic {
					continue
				}
				e.gc(x, ctx)
				k := x.st.hash()
				for i, r := range x.rets {
					k[0] += mix(uint64(r.id), uint64(i)+991)
					k[1] += mix(uint64(r.id), uint64(i)+7919)
				}
				if !exitSeen[k] {
					exitSeen[k] = true
					exits = append(exits, x)
				}
			}
		}
	}
	if len(exits) > e.capExits && ctx.parent != nil {
		exits = e.mergeExits(exits)
	}
	sort.SliceStable(exits, func(i, j int) bool { return exits[i].pos < exits[j].pos })
	return exits
}

var rpoCache = map[*ssa.Function][]*ssa.BasicBlock{}

func (e *Engine) rpo(fn *ssa.Function) []*ssa.BasicBlock {
	if o, ok := rpoCache[fn]; ok {
		return o
	}
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		// visit loop exits first so that bodies come earlier in reverse postorder
		for i := len(b.Succs) - 1; i >= 0; i-- {
			rec(b.Succs[i])
		}
		post = append(post, b)
	}
	rec(fn.Blocks[0])
	var o []*ssa.BasicBlock
	for i := len(post) - 1; i >= 0; i-- {
		o = append(o, post[i])
	}
	rpoCache[fn] = o
	return o
}

// mergeExits joins exits that agree on the tracked part and on the returned
// nil-ness/truth.
func (e *Engine) mergeExits(in []*Exit) []*Exit {
	var out []*Exit
	idx := map[string]int{}
	for _, x := range in {
		k := x.st.espKey()
		for _, r := range x.rets {
			if r.k == KConst {
				k += "/" + r.s
			} else {
				k += fmt.Sprintf("/n%d b%d", x.st.isNil(r), x.st.boolVal(r))
				if e.keepBools && isBoolT(r.t) {
					k += fmt.Sprintf(" %d", r.id)
				}
			}
		}
		if i, ok := idx[k]; ok {
			o := out[i]
			n := &Exit{st: o.st.joinWith(x.st), pos: o.pos}
			for j := range o.rets {
				if o.rets[j] == x.rets[j] {
					n.rets = append(n.rets, o.rets[j])
				} else {
					je := e.joinExpr(e.it.mk(Expr{k: KOpaque, s: "ret"}, fmt.Sprintf("ret%d@%d", j, o.pos)), o.rets[j], x.rets[j])
					n.rets = append(n.rets, je)
					if je.k == KJoin {
						e.joinLen(n.st, o.st, x.st, o.rets[j], x.rets[j], je)
					}
					if v := o.st.isNil(o.rets[j]); v >= 0 && v == x.st.isNil(x.rets[j]) {
						n.st.nf[je] = v == 1
					}
					if v := o.st.boolVal(o.rets[j]); v >= 0 && v == x.st.boolVal(x.rets[j]) {
						n.st.bf[je] = v == 1
					}
				}
			}
			out[i] = n
		} else {
			idx[k] = len(out)
			out = append(out, x)
		}
	}
	return out
}

func mix(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 ^ (b+0x7F4A7C15)*0xBF58476D1CE4E5B9
	x ^= x >> 29
	x *= 0x94D049BB133111EB
	x ^= x >> 32
	return x
}

func mix2(k *[2]uint64, tag uint64, a, b uint64) {
	k[0] += mix(mix(a, tag), b)
	k[1] += mix(mix(b+17, tag+3), a+29)
}

func envHash(k *[2]uint64, f *Frame) {
	for v, x := range f.env {
		if _, ok := v.(*ssa.Parameter); ok {
			continue
		}
		mix2(k, 11, uint64(valID(v)), uint64(x.id))
	}
	for i, d := range f.defers {
		for j, a := range d.ci.Args {
			if a != nil {
				mix2(k, 13+uint64(i), uint64(j), uint64(a.id))
			}
		}
		mix2(k, 12, uint64(i), uint64(d.instr.Pos()))
	}
}

var valIDs = map[ssa.Value]int{}

func valID(v ssa.Value) int {
	if i, ok := valIDs[v]; ok {
		return i
	}
	valIDs[v] = len(valIDs) + 1
	return len(valIDs)
}

// flagKey abstracts the live boolean and error values of a frame.
func flagKey(st *State, f *Frame, keep bool) string {
	var p []string
	for k, v := range f.env {
		if isErrorT(k.Type()) {
			p = append(p, fmt.Sprintf("%s:n%d", k.Name(), st.isNil(v)))
		} else if isBoolT(k.Type()) {
			p = append(p, fmt.Sprintf("%s:b%d", k.Name(), st.boolVal(v)))
			if call, ok := k.(*ssa.Call); ok && keep && call.Call.StaticCallee() != nil && st.boolVal(v) < 0 {
				p = append(p, fmt.Sprintf("%s:%d", k.Name(), v.id))
			}
		}
	}
	sort.Strings(p)
	return strings.Join(p, ",")
}

func defKey(f *Frame) string {
	s := ""
	for _, d := range f.defers {
		s += fmt.Sprintf("%p", d.instr)
		for _, a := range d.ci.Args {
			if a != nil {
				s += fmt.Sprintf(",%d", a.id)
			}
		}
	}
	return s
}

func (e *Engine) joinFrames(a, b *Frame, blk *ssa.BasicBlock) *Frame {
	n := a.clone()
	for k, v := range a.env {
		if w, ok := b.env[k]; !ok || w != v {
			site := e.it.mk(Expr{k: KOpaque, s: "env:" + k.Name(), t: k.Type()}, siteKey(a.ctx, k)+fmt.Sprintf("j%d", blk.Index))
			n.env[k] = e.joinExpr(site, v, w)
		}
	}
	return n
}

// joinFacts carries over what both sides know about a variable whose term
// differs on them: a fact about it on one side that the other side has too.
func (e *Engine) joinFacts(n *State, a, b *item, fr *Frame) {
	type diff struct{ va, vb, j *Expr }
	var ds []diff
	seen := map[*Expr]bool{}
	for k, j := range fr.env {
		va, vb := a.fr.env[k], b.fr.env[k]
		if va == vb || vb == nil || j.k != KJoin || seen[j] {
			continue
		}
		if va.k == KConst || vb.k == KConst {
			continue
		}
		seen[j] = true
		ds = append(ds, diff{va, vb, j})
	}
	if len(ds) == 0 {
		return
	}
	header := false
	for _, p := range a.b.Preds {
		if a.b.Dominates(p) {
			header = true
		}
	}
	for _, d := range ds {
		if !header {
			e.joinLen(n, a.st, b.st, d.va, d.vb, d.j)
		}
		mb, mj := map[*Expr]*Expr{}, map[*Expr]*Expr{}
		both := func(fa, fb, fn map[*Expr]bool) {
			var add []*Expr
			var val []bool
			for t, v := range fa {
				if !pathTo(t, d.va) {
					continue
				}
				if w, ok := fb[e.replace(t, d.va, d.vb, mb)]; ok && w == v {
					add = append(add, e.replace(t, d.va, d.j, mj))
					val = append(val, v)
				}
			}
			for i, t := range add {
				fn[t] = val[i]
			}
		}
		both(a.st.nf, b.st.nf, n.nf)
		both(a.st.bf, b.st.bf, n.bf)
	}
}

// joinLen: the length (or value) of a joined variable lies where it lay on
// either side.
func (e *Engine) joinLen(n, a, b *State, va, vb, j *Expr) {
	if j.t == nil || va == nil || vb == nil {
		return
	}
	var la, lb, lj lin
	switch u := j.t.Underlying().(type) {
	case *types.Slice:
		la, lb, lj = e.lenLin(va), e.lenLin(vb), e.lenLin(j)
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			la, lb, lj = e.lenLin(va), e.lenLin(vb), e.lenLin(j)
		} else if isIntT(j.t) {
			la, lb, lj = e.linOf(va), e.linOf(vb), e.linOf(j)
		} else {
			return
		}
	default:
		return
	}
	if len(lj.c) != 1 || lj.k != 0 {
		return
	}
	var at *Expr
	for x := range lj.c {
		at = x
	}
	l1, h1 := a.interval(la)
	l2, h2 := b.interval(lb)
	for k, v := range n.bd {
		if _, ok := v.l.c[at]; ok {
			delete(n.bd, k)
		}
	}
	if l2 < l1 {
		l1 = l2
	}
	if h2 > h1 {
		h1 = h2
	}
	if l1 != negInf || h1 != posInf {
		n.addBound(lj, l1, h1)
	}
}

// pathTo: x is base, or an access path, a comparison or a pure call on it.
func pathTo(x, base *Expr) bool {
	if x == base {
		return true
	}
	if x == nil || x.id < base.id {
		return false
	}
	switch x.k {
	case KField, KFieldAddr, KLoad, KIndex, KIndexAddr, KBin, KUn, KConv, KExtract, KSlice, KAssert:
		for _, a := range x.a {
			if a != nil && pathTo(a, base) {
				return true
			}
		}
	case KCall:
		if x.s == "builtin.len" {
			return pathTo(x.a[0], base)
		}
	}
	return false
}

// replace rewrites a term built by pathTo.
func (e *Engine) replace(x, from, to *Expr, memo map[*Expr]*Expr) *Expr {
	if x == from {
		return to
	}
	if x == nil || x.id < from.id || !pathTo(x, from) {
		return x
	}
	if r, ok := memo[x]; ok {
		return r
	}
	z := *x
	z.a = make([]*Expr, len(x.a))
	for i, a := range x.a {
		z.a[i] = e.replace(a, from, to, memo)
	}
	z.id = 0
	r := e.it.mk(z, "")
	memo[x] = r
	return r
}

// joinExpr is the term standing for "either of" at a merge location.
func (e *Engine) joinExpr(loc, a, b *Expr) *Expr {
	if a == b && a != nil {
		return a
	}
	t := loc.t
	if a != nil && a.t != nil {
		t = a.t
	} else if b != nil && b.t != nil {
		t = b.t
	}
	j := e.it.mk(Expr{k: KJoin, s: loc.s, t: t}, fmt.Sprintf("join@%d", loc.id))
	if e.it.phiOps[j] == nil {
		e.it.phiOps[j] = map[*Expr]bool{}
	}
	for _, x := range []*Expr{a, b} {
		if x != nil && x != j {
			e.it.phiOps[j][x] = true
		}
	}
	return j
}

// liveness of SSA values at block entry.
var liveCache = map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}

func (e *Engine) liveness(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := liveCache[fn]; ok {
		return l
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					cur[v] = true
				}
				for _, ins := range s.Instrs {
					if ph, ok := ins.(*ssa.Phi); ok {
						delete(cur, ph)
					}
				}
				for _, ins := range s.Instrs {
					if ph, ok := ins.(*ssa.Phi); ok {
						for j, p := range s.Preds {
							if p == b {
								cur[ph.Edges[j]] = true
							}
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(cur, v)
				}
				for _, op := range ins.Operands(nil) {
					if op != nil && *op != nil {
						switch (*op).(type) {
						case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
						default:
							cur[*op] = true
						}
					}
				}
			}
			// phis of b itself are defined at entry: keep them live if used
			for v := range cur {
				if !in[b][v] {
					in[b][v] = true
					ch = true
				}
			}
		}
	}
	liveCache[fn] = in
	return in
}

func (e *Engine) bindPhis(w *item) {
	if w.pred == nil {
		return
	}
	pi := -1
	for i, p := range w.b.Preds {
		if p == w.pred {
			pi = i
		}
	}
	back := w.b.Dominates(w.pred) && !e.unrolled(w, pi)
	type nb struct {
		v  *ssa.Phi
		x  *Expr
		lo int64 // of a variable that only grows
	}
	var binds []nb
	for _, in := range w.b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		val, lo := e.val(w.fr, w.st, ph.Edges[pi]), int64(negInf)
		if back {
			cur := w.fr.env[ph]
			if cur != nil && isIntT(ph.Type()) && grows(ph, w.b) {
				lo, _ = w.st.interval(e.linOf(cur))
			}
			if cur == nil || cur != val {
				px := e.it.mk(Expr{k: KPhi, s: ph.Name(), t: ph.Type(), v: ph}, siteKey(w.fr.ctx, ph))
				px.cx = w.fr.ctx
				if e.it.phiOps[px] == nil {
					e.it.phiOps[px] = map[*Expr]bool{}
				}
				if val != px {
					e.it.phiOps[px][val] = true
				}
				if cur != nil && cur != px {
					e.it.phiOps[px][cur] = true
				}
				val = px
			}
		}
		binds = append(binds, nb{ph, val, lo})
	}
	if back {
		// facts established about header phis in earlier iterations are stale
		for _, b := range binds {
			if b.x.k == KPhi && b.x.v == b.v {
				e.stale(w.st, w.fr, b.x)
			}
		}
		for _, b := range binds {
			if b.x.k == KPhi && b.x.v == b.v && b.lo > 0 {
				w.st.addBound(e.linOf(b.x), b.lo, posInf)
			}
		}
		// values recomputed in the loop: drop nothing here, redefinition renames
	}
	for _, b := range binds {
		w.fr.env[b.v] = b.x
	}
}

// grows: along the back edges of the loop the variable is only increased.
func grows(ph *ssa.Phi, b *ssa.BasicBlock) bool {
	for i, ed := range ph.Edges {
		if !b.Dominates(b.Preds[i]) {
			continue
		}
		v, ok := ed.(*ssa.BinOp)
		if !ok || v.Op != token.ADD || v.X != ssa.Value(ph) && v.Y != ssa.Value(ph) {
			return false
		}
		o := v.Y
		if v.Y == ssa.Value(ph) {
			o = v.X
		}
		if c, ok := o.(*ssa.Const); !ok || c.Value == nil || c.Int64() < 0 {
			return false
		}
	}
	return true
}

// maxTrips bounds the loops that are followed iteration by iteration.
const maxTrips = 8

// unrolled tells whether the loop entered at w.b over a back edge counts from
// a constant to a small constant, so that its iterations can be followed one
// by one instead of being generalised.
func (e *Engine) unrolled(w *item, pi int) bool {
	cond, ok := w.b.Instrs[len(w.b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := cond.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return false
	}
	ph, ok := cmp.X.(*ssa.Phi)
	if !ok {
		// the loops of range statements advance the counter before comparing it
		add, isAdd := cmp.X.(*ssa.BinOp)
		if !isAdd || add.Op != token.ADD || add.Block() != w.b {
			return false
		}
		if ph, ok = add.X.(*ssa.Phi); !ok {
			return false
		}
	}
	if ph.Block() != w.b {
		return false
	}
	if _, ok := e.phiLo(&Expr{k: KPhi, v: ph}); !ok {
		return false
	}
	cur := e.val(w.fr, w.st, ph.Edges[pi])
	if cur.k != KConst || !cur.isInt {
		return false
	}
	switch y := cmp.Y.(type) {
	case *ssa.Const:
	default:
		if w.fr.env[y] == nil {
			return false
		}
	}
	n := e.linOf(e.val(w.fr, w.st, cmp.Y))
	lim, ok := constLin(n)
	return ok && lim <= maxTrips && cur.n <= lim
}

// stale renames every occurrence of x in the state to a "previous iteration" copy.
func (e *Engine) stale(st *State, fr *Frame, x *Expr) {
	if !e.occurs(st, fr, x) {
		return
	}
	memo := map[*Expr]*Expr{}
	target := e.it.mk(Expr{k: KStale, s: x.s, t: x.t, a: []*Expr{}}, fmt.Sprintf("stale@%d", x.id))
	if e.it.phiOps[target] == nil {
		e.it.phiOps[target] = map[*Expr]bool{}
	}
	// derivation knowledge is kept through the operands of x
	for _, a := range x.a {
		if a != nil {
			e.it.phiOps[target][a] = true
		}
	}
	for o := range e.it.phiOps[x] {
		e.it.phiOps[target][o] = true
	}
	var f func(y *Expr) *Expr
	f = func(y *Expr) *Expr {
		if y == nil || y.id < x.id && !hasPhi(e.it, y) {
			return y
		}
		if y == x {
			return target
		}
		if r, ok := memo[y]; ok {
			return r
		}
		memo[y] = y
		if len(y.a) == 0 {
			return y
		}
		ch := false
		na := make([]*Expr, len(y.a))
		for i, a := range y.a {
			na[i] = f(a)
			if na[i] != a {
				ch = true
			}
		}
		if !ch {
			return y
		}
		z := *y
		z.a = na
		z.id = 0
		r := e.it.mk(z, fmt.Sprintf("st%d", x.id))
		memo[y] = r
		return r
	}
	st.subst(f)
	for k, v := range fr.env {
		fr.env[k] = f(v)
	}
	for i, d := range fr.defers {
		nd := *d
		nci := *d.ci
		nci.Args = nil
		for _, a := range d.ci.Args {
			nci.Args = append(nci.Args, f(a))
		}
		nd.ci = &nci
		fr.defers[i] = &nd
	}
}

func hasPhi(it *internTab, e *Expr) bool { return true }

func (e *Engine) occurs(st *State, fr *Frame, x *Expr) bool {
	stamp++
	g := stamp
	var in func(y *Expr) bool
	in = func(y *Expr) bool {
		if y == nil || y.mark == g {
			return false
		}
		if y == x {
			return true
		}
		y.mark = g
		for _, a := range y.a {
			if in(a) {
				return true
			}
		}
		return false
	}
	for k := range st.bf {
		if in(k) {
			return true
		}
	}
	for k := range st.nf {
		if in(k) {
			return true
		}
	}
	for k := range st.eq {
		if in(k) {
			return true
		}
	}
	for _, b := range st.bd {
		for a := range b.l.c {
			if in(a) {
				return true
			}
		}
	}
	for k, v := range st.mem {
		if in(k) || in(v) {
			return true
		}
	}
	for _, ev := range st.ev {
		if in(ev.Res) {
			return true
		}
		for _, a := range ev.Args {
			if in(a) {
				return true
			}
		}
	}
	for _, v := range fr.env {
		if in(v) {
			return true
		}
	}
	return false
}

// val evaluates an SSA operand to a term.
func (e *Engine) val(fr *Frame, st *State, v ssa.Value) *Expr {
	if x, ok := fr.env[v]; ok {
		return x
	}
	switch c := v.(type) {
	case *ssa.Const:
		return e.it.constant(c)
	case *ssa.Global:
		name := c.Name()
		if c.Pkg != nil {
			name = shortPkg(c.Pkg.Pkg.Path()) + "." + c.Name()
		}
		return e.it.mk(Expr{k: KGlobal, s: name, t: c.Type(), v: c, obj: c.Object()}, siteKey(nil, c))
	case *ssa.Function:
		return e.it.mk(Expr{k: KFunc, s: fnName(c), fn: c, t: c.Type()}, siteKey(nil, c))
	case *ssa.Builtin:
		return e.it.mk(Expr{k: KFunc, s: "builtin." + c.Name()}, "builtin")
	}
	return e.it.mk(Expr{k: KOpaque, s: v.Name(), t: v.Type(), v: v}, siteKey(fr.ctx, v))
}

func (f *Frame) Val(st *State, v ssa.Value) *Expr { return f.e.val(f, st, v) }

func fieldOf(t types.Type, i int) *types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i)
	}
	return nil
}

func (e *Engine) fieldAddr(base *Expr, f *types.Var, idx int) *Expr {
	base = base.strip()
	return e.it.mk(Expr{k: KFieldAddr, s: f.Name(), n: int64(idx), a: []*Expr{base}, obj: f, t: types.NewPointer(f.Type())}, "")
}

func (e *Engine) field(st *State, base *Expr, f *types.Var, idx int) *Expr {
	b := base
	if b.k == KStruct {
		if idx < len(b.a) && b.a[idx] != nil {
			return b.a[idx]
		}
	}
	if b.k == KZero {
		return e.zero(f.Type())
	}
	if b.k == KLoad {
		return e.read(st, e.fieldAddr(b.a[0], f, idx), f.Type())
	}
	return e.it.mk(Expr{k: KField, s: f.Name(), n: int64(idx), a: []*Expr{b}, obj: f, t: f.Type()}, "")
}

func (e *Engine) zero(t types.Type) *Expr {
	if isNilable(t) {
		return e.it.mk(Expr{k: KConst, s: "nil", t: t}, "")
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return e.it.boolConst(false)
		case b.Info()&types.IsInteger != 0:
			return e.it.mk(Expr{k: KConst, s: "0", isInt: true, t: t}, "")
		case b.Info()&types.IsString != 0:
			return e.it.mk(Expr{k: KConst, s: "\"\"", t: t}, "")
		}
	}
	return e.it.mk(Expr{k: KZero, s: "zero:" + t.String(), t: t}, "")
}

// read loads from an address term.
func (e *Engine) read(st *State, addr *Expr, t types.Type) *Expr {
	if v, ok := st.mem[addr]; ok {
		// partial overwrites after a whole store
		if v.k != KMut {
			if s := e.composite(st, addr, t, v); s != nil {
				return s
			}
		}
		return v
	}
	switch addr.k {
	case KGlobal:
		if g, ok := addr.v.(*ssa.Global); ok {
			if k := e.p.constGlobals()[g]; k != nil {
				return e.it.constant(k)
			}
		}
	case KFieldAddr:
		if bv, ok := e.baseVal(st, addr.a[0]); ok {
			return e.field(st, bv, addr.obj.(*types.Var), int(addr.n))
		}
	case KIndexAddr:
		if bv, ok := st.mem[addr.a[0]]; ok {
			return e.it.mk(Expr{k: KIndex, a: []*Expr{bv, addr.a[1]}, t: t}, "")
		}
		// element store through an unknown index
	case KAlloc:
		if s := e.composite(st, addr, t, nil); s != nil {
			return s
		}
		return e.zero(t)
	}
	return e.it.mk(Expr{k: KLoad, a: []*Expr{addr}, t: t}, "")
}

// baseVal returns the whole value stored at a base address, if known.
func (e *Engine) baseVal(st *State, base *Expr) (*Expr, bool) {
	if v, ok := st.mem[base]; ok {
		return v, true
	}
	switch base.k {
	case KAlloc:
		if pt, ok := base.t.Underlying().(*types.Pointer); ok {
			return e.zero2(pt.Elem()), true
		}
	case KFieldAddr:
		if bv, ok := e.baseVal(st, base.a[0]); ok {
			return e.field(st, bv, base.obj.(*types.Var), int(base.n)), true
		}
	}
	return nil, false
}

func (e *Engine) zero2(t types.Type) *Expr {
	return e.it.mk(Expr{k: KZero, s: "zero:" + t.String(), t: t}, "")
}

// composite builds a struct value out of known field stores.
func (e *Engine) composite(st *State, addr *Expr, t types.Type, base *Expr) *Expr {
	stt, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	any := false
	for k := range st.mem {
		if k.k == KFieldAddr && k.a[0] == addr {
			any = true
			break
		}
	}
	if !any {
		return nil
	}
	out := Expr{k: KStruct, s: t.String(), t: t}
	for i := 0; i < stt.NumFields(); i++ {
		f := stt.Field(i)
		fa := e.fieldAddr(addr, f, i)
		var v *Expr
		if w, ok := st.mem[fa]; ok {
			v = w
		} else if s := e.composite(st, fa, f.Type(), nil); s != nil {
			v = s
		} else if base != nil {
			v = e.field(st, base, f, i)
		} else if addr.k == KAlloc {
			v = e.zero(f.Type())
		} else {
			v = e.it.mk(Expr{k: KLoad, a: []*Expr{fa}, t: f.Type()}, "")
		}
		out.a = append(out.a, v)
	}
	return e.it.mk(out, "")
}

// write stores to an address term.
func (e *Engine) write(st *State, addr, val *Expr) {
	for k := range st.mem {
		if k != addr && underAddr(k, addr) {
			delete(st.mem, k)
		}
	}
	if addr.k == KFieldAddr && addr.addrRoot().k != KAlloc {
		for k := range st.mem {
			if k != addr && k.k == KFieldAddr && k.obj == addr.obj && k.addrRoot().k != KAlloc {
				st.mem[k] = e.joinExpr(k, st.mem[k], val)
			}
		}
	}
	st.mem[addr] = val
}

func underAddr(k, base *Expr) bool {
	for {
		if k == base {
			return true
		}
		switch k.k {
		case KFieldAddr, KIndexAddr:
			k = k.a[0]
		default:
			return false
		}
	}
}

// havoc forgets the contents of objects whose address escapes to an opaque call.
func (e *Engine) havoc(st *State, arg, by *Expr) {
	r := arg.strip()
	for r.k == KSlice {
		r = r.a[0].strip()
	}
	base := r
	switch r.k {
	case KAlloc, KFieldAddr, KIndexAddr:
		base = r
	case KClosure, KFunc:
		for _, b := range r.a {
			e.havoc(st, b, by)
		}
		// and the package variables it assigns
		for _, g := range assigned(r.fn) {
			e.forget(st, e.val(&Frame{}, st, g), by)
		}
		return
	default:
		return
	}
	e.forget(st, base, by)
}

func assigned(f *ssa.Function) []*ssa.Global {
	var out []*ssa.Global
	if f == nil {
		return nil
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				a := s.Addr
				for {
					switch x := a.(type) {
					case *ssa.FieldAddr:
						a = x.X
						continue
					case *ssa.IndexAddr:
						a = x.X
						if u, ok := a.(*ssa.UnOp); ok {
							a = u.X
						}
						continue
					}
					break
				}
				if g, ok := a.(*ssa.Global); ok {
					out = append(out, g)
				}
			}
		}
	}
	return out
}

// forget replaces what is known below an address by "changed by that call".
func (e *Engine) forget(st *State, base, by *Expr) {
	old := st.mem[base]
	var olds []*Expr
	if old != nil && old.k != KMut {
		olds = append(olds, old)
	}
	var ks []*Expr
	for k := range st.mem {
		if k != base && underAddr(k, base) {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		olds = append(olds, st.mem[k])
		delete(st.mem, k)
	}
	var t types.Type
	if pt, ok := base.t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	m := e.it.mk(Expr{k: KMut, s: "after " + by.s, a: []*Expr{by}, t: t}, fmt.Sprintf("mut@%d/%d", base.id, by.id))
	e.it.mutBase[m] = base
	if e.it.phiOps[m] == nil {
		e.it.phiOps[m] = map[*Expr]bool{}
	}
	for _, o := range olds {
		e.it.phiOps[m][o] = true
	}
	st.mem[base] = m
}

var noHavoc = map[string]bool{
	"google.golang.org/protobuf/proto.Marshal": true, "github.com/golang/protobuf/proto.Marshal": true, "encoding/json.Marshal": true,
	"github.com/golang/protobuf/proto.Clone": true, "google.golang.org/protobuf/proto.Clone": true,
	"os.WriteFile": true, "io/ioutil.WriteFile": true, "os.File.Write": true,
	"builtin.len": true, "builtin.cap": true, "encoding/json.NewDecoder": true,
}

func quietCall(name string) bool {
	if noHavoc[name] {
		return true
	}
	for _, p := range []string{"fmt.Sprint", "fmt.Errorf", "fmt.Print", "log.", "github.com/sirupsen/logrus.", "strings.", "bytes.", "strconv.", "encoding/hex.Encode", "encoding/base64.Encoding.Encode", "errors.", zkPkg + "."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// pureCall: equal arguments give the same term.
func pureCall(name string) bool {
	switch name {
	case "builtin.len", "builtin.cap", "bytes.Equal", "crypto/hmac.Equal", "crypto/subtle.ConstantTimeCompare", "bytes.Compare",
		"os.IsNotExist", "os.IsExist", "errors.Is", "fmt.Sprintf", "fmt.Sprint", "path/filepath.Join", "path/filepath.Base", "path.Join", "path.Base", "path/filepath.Clean",
		"encoding/hex.EncodeToString", "encoding/hex.DecodeString", "crypto/sha256.Sum256", "crypto/sha1.Sum", "crypto/sha512.Sum512", "builtin.min", "builtin.max":
		return true
	}
	return strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "strconv.")
}

func noReturn(name string) bool {
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit", "builtin.panic",
		"github.com/sirupsen/logrus.Fatal", "github.com/sirupsen/logrus.Fatalf", "github.com/sirupsen/logrus.Fatalln",
		"github.com/sirupsen/logrus.Panic", "github.com/sirupsen/logrus.Panicf", "github.com/sirupsen/logrus.Panicln",
		"github.com/sirupsen/logrus.Entry.Fatalln", "github.com/sirupsen/logrus.Entry.Fatal", "github.com/sirupsen/logrus.Entry.Fatalf",
		"github.com/sirupsen/logrus.Entry.Panic", "github.com/sirupsen/logrus.Entry.Panicln", "log.Panic", "log.Panicf", "log.Panicln":
		return true
	}
	return false
}

func (e *Engine) lenExpr(x *Expr) *Expr {
	return e.it.mk(Expr{k: KCall, s: "builtin.len", a: []*Expr{x}, t: types.Typ[types.Int]}, "")
}

// lenLin is the length of a term as a linear form.
func (e *Engine) lenLin(x *Expr) lin {
	switch x.k {
	case KConst:
		if x.isNil() {
			return lin{}
		}
		if strings.HasPrefix(x.s, "\"") {
			var s string
			fmt.Sscanf(x.s, "%q", &s)
			return lin{k: int64(len(s))}
		}
	case KZero:
		if n, ok := arrayLen(x.t); ok {
			return lin{k: n}
		}
		return lin{}
	case KConv, KIface:
		return e.lenLin(x.a[0])
	case KMake:
		if x.s == "slice" && x.a[0] != nil {
			return e.linOf(x.a[0])
		}
	case KSlice:
		lo := lin{}
		if x.a[1] != nil {
			lo = e.linOf(x.a[1])
		}
		hi := e.lenLin(x.a[0])
		if x.a[2] != nil {
			hi = e.linOf(x.a[2])
		}
		return hi.add(lo, -1)
	case KCall:
		switch x.s {
		case "builtin.append":
			if len(x.a) == 2 {
				return e.lenLin(x.a[0]).add(e.lenLin(x.a[1]), 1)
			}
		case "encoding/hex.EncodeToString":
			return lin{}.add(e.lenLin(x.a[0]), 2)
		case "golang.org/x/crypto/pbkdf2.Key":
			if len(x.a) == 5 {
				return e.linOf(x.a[3])
			}
		case "hash.Hash.Sum":
			if n := e.hashSize(x.a[0]); n > 0 && len(x.a) > 1 {
				return e.lenLin(x.a[1]).add(lin{k: n}, 1)
			}
		}
	}
	if n, ok := arrayLen(x.t); ok {
		return lin{k: n}
	}
	return lin{c: map[*Expr]int64{e.lenExpr(x): 1}}
}

func (e *Engine) hashSize(h *Expr) int64 {
	h = h.strip()
	if h.k != KCall {
		return 0
	}
	name := h.s
	if name == "crypto/hmac.New" && len(h.a) > 0 {
		name = h.a[0].strip().s
	}
	switch name {
	case "crypto/sha256.New":
		return 32
	case "crypto/sha1.New":
		return 20
	case "crypto/sha512.New":
		return 64
	}
	return 0
}

func arrayLen(t types.Type) (int64, bool) {
	if t == nil {
		return 0, false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len(), true
	}
	return 0, false
}

// lenMin is a definite lower bound of len(x).
func (e *Engine) lenMin(s *State, x *Expr) int64 {
	return 0
}

// phiLo recognises counting-up loop variables.
func (e *Engine) phiLo(x *Expr) (int64, bool) {
	ph, ok := x.v.(*ssa.Phi)
	if !ok || x.k != KPhi {
		return 0, false
	}
	lo := int64(posInf)
	for _, ed := range ph.Edges {
		switch v := ed.(type) {
		case *ssa.Const:
			if v.Value == nil {
				return 0, false
			}
			n := v.Int64()
			if n < lo {
				lo = n
			}
		case *ssa.BinOp:
			if v.Op == token.ADD && (v.X == ssa.Value(ph) || v.Y == ssa.Value(ph)) {
				o := v.Y
				if v.Y == ssa.Value(ph) {
					o = v.X
				}
				if c, ok := o.(*ssa.Const); ok && c.Value != nil && c.Int64() >= 0 {
					continue
				}
			}
			return 0, false
		default:
			return 0, false
		}
	}
	return lo, lo != posInf
}

// linOf expresses an integer term as a linear form.
func (e *Engine) linOf(x *Expr) lin {
	if x.isInt {
		return lin{k: x.n}
	}
	switch x.k {
	case KConst, KZero:
		return lin{}
	case KConv:
		return e.linOf(x.a[0])
	case KCall:
		if x.s == "builtin.len" {
			return e.lenLin(x.a[0])
		}
	case KBin:
		switch x.s {
		case "+":
			if isIntT(x.t) {
				return e.linOf(x.a[0]).add(e.linOf(x.a[1]), 1)
			}
		case "-":
			return e.linOf(x.a[0]).add(e.linOf(x.a[1]), -1)
		case "*":
			for i := 0; i < 2; i++ {
				c := e.linOf(x.a[i])
				if len(c.c) == 0 {
					return lin{}.add(e.linOf(x.a[1-i]), c.k)
				}
			}
		case "/", "%", ">>":
			a, b := e.linOf(x.a[0]), e.linOf(x.a[1])
			if len(a.c) == 0 && len(b.c) == 0 && a.k >= 0 && b.k > 0 && b.k < 63 {
				switch x.s {
				case "/":
					return lin{k: a.k / b.k}
				case "%":
					return lin{k: a.k % b.k}
				}
				return lin{k: a.k >> uint(b.k)}
			}
		}
	case KUn:
		if x.s == "-" {
			return lin{}.add(e.linOf(x.a[0]), -1)
		}
	}
	return lin{c: map[*Expr]int64{x: 1}}
}

func (e *Engine) bin(op string, a, b *Expr, t types.Type) *Expr {
	not := func(x *Expr) *Expr { return e.not(x) }
	switch op {
	case "!=":
		return not(e.bin("==", a, b, t))
	case ">":
		return e.bin("<", b, a, t)
	case "<=":
		return not(e.bin("<", b, a, t))
	case ">=":
		return not(e.bin("<", a, b, t))
	case "==":
		if a.id > b.id {
			a, b = b, a
		}
	case "+", "-", "*":
		if a.isInt && b.isInt {
			var n int64
			switch op {
			case "+":
				n = a.n + b.n
			case "-":
				n = a.n - b.n
			case "*":
				n = a.n * b.n
			}
			return e.it.mk(Expr{k: KConst, s: fmt.Sprint(n), n: n, isInt: true, t: t}, "")
		}
	}
	return e.it.mk(Expr{k: KBin, s: op, a: []*Expr{a, b}, t: t}, "")
}

func (e *Engine) not(x *Expr) *Expr {
	if b, ok := x.isBool(); ok {
		return e.it.boolConst(!b)
	}
	if x.k == KUn && x.s == "!" {
		return x.a[0]
	}
	return e.it.mk(Expr{k: KUn, s: "!", a: []*Expr{x}, t: x.t}, "")
}

// runBlock executes a block from w.idx and returns successor items and exits.
func (e *Engine) runBlock(w *item) (next []*item, exits []*Exit) {
	type cur struct {
		idx int
		st  *State
		fr  *Frame
	}
	stack := []cur{{w.idx, w.st, w.fr}}
	b := w.b
	for len(stack) > 0 {
		c := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		st, fr := c.st, c.fr
	instrs:
		for i := c.idx; i < len(b.Instrs); i++ {
			e.steps++
			if e.steps > e.max {
				e.giveUp(fmt.Sprintf("step budget exhausted in %s", fnName(fr.fn)))
				return
			}
			in := b.Instrs[i]
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if e.h.Instr != nil {
				e.h.Instr(st, fr, in)
			}
			if fa, ok := in.(*ssa.FieldAddr); ok && st.isNil(e.val(fr, st, fa.X)) == 1 {
				break // panics: nothing after it runs on this path
			}
			switch x := in.(type) {
			case *ssa.If:
				cond := e.val(fr, st, x.Cond)
				for k, val := range []bool{true, false} {
					ns, nf := st, fr
					if k == 0 {
						ns, nf = st.clone(), fr.clone()
					}
					if !ns.assume(cond, val) {
						continue
					}
					ns.dropFailedGuards()
					if e.h.Branch != nil {
						e.h.Branch(ns, nf, x, cond, val)
					}
					next = append(next, &item{b: b.Succs[k], pred: b, st: ns, fr: nf})
				}
				break instrs
			case *ssa.Jump:
				next = append(next, &item{b: b.Succs[0], pred: b, st: st, fr: fr})
				break instrs
			case *ssa.Return:
				ex := &Exit{st: st, pos: x.Pos()}
				for _, r := range x.Results {
					ex.rets = append(ex.rets, e.val(fr, st, r))
				}
				e.Paths++
				exits = append(exits, ex)
				break instrs
			case *ssa.Panic:
				exits = append(exits, &Exit{st: st, pos: x.Pos(), panic: true})
				break instrs
			case *ssa.Defer:
				ci := e.callInfo(fr, st, x)
				ci.Defer = true
				fr.defers = append(fr.defers, &deferred{x, ci})
			case *ssa.Go:
				ci := e.callInfo(fr, st, x)
				ci.Go = true
				if e.h.Call != nil {
					e.h.Call(st, ci)
				}
			case *ssa.RunDefers:
				type sf struct {
					st *State
					fr *Frame
				}
				states := []sf{{st, fr}}
				ds := fr.defers
				for j := len(ds) - 1; j >= 0; j-- {
					var out []sf
					for _, s := range states {
						for _, r := range e.call(s.fr, s.st, ds[j].ci) {
							out = append(out, sf{r.st, s.fr.clone()})
						}
					}
					states = out
				}
				for _, s := range states {
					s.fr.defers = nil
					stack = append(stack, cur{i + 1, s.st, s.fr})
				}
				break instrs
			case *ssa.Call:
				ci := e.callInfo(fr, st, x)
				rs := e.call(fr, st, ci)
				if len(rs) == 1 {
					st = rs[0].st
					e.define(fr, st, x, rs[0].res)
					continue
				}
				for _, r := range rs {
					nf := fr.clone()
					e.define(nf, r.st, x, r.res)
					stack = append(stack, cur{i + 1, r.st, nf})
				}
				break instrs
			case *ssa.Store:
				addr := e.val(fr, st, x.Addr)
				val := e.val(fr, st, x.Val)
				if e.h.Store != nil {
					e.h.Store(st, fr, in, addr, val)
				}
				e.write(st, addr.strip(), val)
			case *ssa.MapUpdate:
				if e.h.Store != nil {
					m := e.val(fr, st, x.Map)
					k := e.val(fr, st, x.Key)
					e.h.Store(st, fr, in, e.it.mk(Expr{k: KIndexAddr, a: []*Expr{m, k}, t: types.NewPointer(x.Value.Type())}, ""), e.val(fr, st, x.Value))
				}
			case *ssa.Send, *ssa.DebugRef:
			case ssa.Value:
				e.define(fr, st, x, e.eval(fr, st, x))
			}
		}
	}
	return
}

func (e *Engine) define(fr *Frame, st *State, v ssa.Value, x *Expr) {
	if x == nil {
		return
	}
	fr.env[v] = x
}

// fresh makes a site-unique term; if it was already produced in an earlier
// iteration, the old occurrences become stale.
func (e *Engine) fresh(fr *Frame, st *State, x Expr, v interface{}) *Expr {
	site := siteKey(fr.ctx, v)
	n := e.it.mk(x, site)
	n.cx = fr.ctx
	if inLoop(fr) {
		e.stale(st, fr, n)
	}
	return n
}

var loopCache = map[*ssa.Function]bool{}

func fnHasLoop(f *ssa.Function) bool {
	if v, ok := loopCache[f]; ok {
		return v
	}
	r := false
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				r = true
			}
		}
	}
	loopCache[f] = r
	return r
}

func inLoop(fr *Frame) bool {
	for c := fr.ctx; c != nil; c = c.parent {
		if c.fn != nil && fnHasLoop(c.fn) {
			return true
		}
	}
	return false
}

func (e *Engine) eval(fr *Frame, st *State, v ssa.Value) *Expr {
	V := func(x ssa.Value) *Expr {
		if x == nil {
			return nil
		}
		return e.val(fr, st, x)
	}
	t := v.Type()
	switch x := v.(type) {
	case *ssa.Alloc:
		r := e.fresh(fr, st, Expr{k: KAlloc, t: t, v: x, pos: x.Pos()}, x)
		for k := range st.mem {
			if underAddr(k, r) {
				delete(st.mem, k)
			}
		}
		return r
	case *ssa.FieldAddr:
		f := fieldOf(x.X.Type(), x.Field)
		return e.fieldAddr(V(x.X), f, x.Field)
	case *ssa.Field:
		return e.field(st, V(x.X), fieldOf(x.X.Type(), x.Field), x.Field)
	case *ssa.IndexAddr:
		b, i := V(x.X), V(x.Index)
		// an element of a slice of a local array is an element of the array
		if s := b.strip(); i.k == KConst && i.isInt && s.k == KSlice && s.a[0].k == KAlloc {
			if lo := s.a[1]; lo == nil {
				b = s.a[0]
			} else if lo.k == KConst && lo.isInt {
				b, i = s.a[0], e.bin("+", lo, i, i.t)
			}
		}
		return e.it.mk(Expr{k: KIndexAddr, a: []*Expr{b, i}, t: t}, "")
	case *ssa.Index:
		return e.it.mk(Expr{k: KIndex, a: []*Expr{V(x.X), V(x.Index)}, t: t}, "")
	case *ssa.Slice:
		a := []*Expr{V(x.X).strip(), V(x.Low), V(x.High)}
		if x.Low == nil && x.High == nil {
			if _, isPtr := x.X.Type().Underlying().(*types.Pointer); !isPtr {
				return V(x.X)
			}
		}
		if a[1] != nil && a[1].isInt && a[1].n == 0 {
			a[1] = nil
		}
		return e.it.mk(Expr{k: KSlice, a: a, t: t}, "")
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			return e.read(st, V(x.X).strip(), t)
		case token.NOT:
			return e.not(V(x.X))
		case token.ARROW:
			return e.fresh(fr, st, Expr{k: KOpaque, s: "recv", a: []*Expr{V(x.X)}, t: t}, x)
		}
		return e.it.mk(Expr{k: KUn, s: x.Op.String(), a: []*Expr{V(x.X)}, t: t}, "")
	case *ssa.BinOp:
		return e.bin(x.Op.String(), V(x.X), V(x.Y), t)
	case *ssa.MakeInterface:
		return e.it.mk(Expr{k: KIface, a: []*Expr{V(x.X)}, t: t, s: x.X.Type().String()}, "")
	case *ssa.ChangeType, *ssa.ChangeInterface:
		return V((*v.(ssa.Instruction).Operands(nil)[0]))
	case *ssa.SliceToArrayPointer:
		return e.it.mk(Expr{k: KSlice, a: []*Expr{V(x.X), nil, nil}, t: t, s: "toarray"}, "")
	case *ssa.Convert:
		y := V(x.X)
		if y.isInt && isIntT(t) {
			return y
		}
		if isIntT(t) && isIntT(x.X.Type()) && !narrowing(x.X.Type(), t) {
			return e.it.mk(Expr{k: KConv, a: []*Expr{y}, t: t, s: "int"}, "")
		}
		if isIntT(t) && isIntT(x.X.Type()) && widerUnsigned(x.X.Type(), t) {
			// the sign of a value that has none is not lost
			if lo, _ := st.interval(e.linOf(y)); lo >= 0 {
				return e.it.mk(Expr{k: KConv, a: []*Expr{y}, t: t, s: "int"}, "")
			}
		}
		if isIntT(t) && isIntT(x.X.Type()) {
			return e.it.mk(Expr{k: KUn, s: "narrow:" + t.String(), a: []*Expr{y}, t: t}, "")
		}
		return e.it.mk(Expr{k: KConv, a: []*Expr{y}, t: t, s: "conv"}, "")
	case *ssa.MakeSlice:
		return e.fresh(fr, st, Expr{k: KMake, s: "slice", a: []*Expr{V(x.Len)}, t: t}, x)
	case *ssa.MakeMap:
		return e.fresh(fr, st, Expr{k: KMake, s: "map", t: t}, x)
	case *ssa.MakeChan:
		return e.fresh(fr, st, Expr{k: KMake, s: "chan", t: t}, x)
	case *ssa.MakeClosure:
		var a []*Expr
		for _, b := range x.Bindings {
			a = append(a, V(b))
		}
		return e.it.mk(Expr{k: KClosure, s: fnName(x.Fn.(*ssa.Function)), fn: x.Fn.(*ssa.Function), a: a, t: t}, siteKey(fr.ctx, x))
	case *ssa.TypeAssert:
		return e.it.mk(Expr{k: KAssert, s: x.AssertedType.String(), n: int64(b2i(x.CommaOk)), a: []*Expr{V(x.X)}, t: t}, "")
	case *ssa.Extract:
		y := V(x.Tuple)
		if y.k == KTuple {
			return y.a[x.Index]
		}
		if y.k == KAssert && x.Index == 0 {
			// value part of a comma-ok assertion
			return e.it.mk(Expr{k: KAssert, s: y.s, a: []*Expr{y.a[0]}, t: t}, "")
		}
		return e.it.mk(Expr{k: KExtract, n: int64(x.Index), a: []*Expr{y}, t: t}, "")
	case *ssa.Lookup:
		return e.it.mk(Expr{k: KLookup, n: int64(b2i(x.CommaOk)), a: []*Expr{V(x.X), V(x.Index)}, t: t}, "")
	case *ssa.Range:
		return e.fresh(fr, st, Expr{k: KOpaque, s: "range", a: []*Expr{V(x.X)}, t: t}, x)
	case *ssa.Next:
		return e.fresh(fr, st, Expr{k: KOpaque, s: "next", a: []*Expr{V(x.Iter)}, t: t}, x)
	case *ssa.Select:
		return e.fresh(fr, st, Expr{k: KOpaque, s: "select", t: t}, x)
	}
	return e.fresh(fr, st, Expr{k: KOpaque, s: fmt.Sprintf("%T", v), t: t}, v)
}

// widerUnsigned: a conversion of a signed type to an unsigned one at least as wide.
func widerUnsigned(from, to types.Type) bool {
	a, _ := from.Underlying().(*types.Basic)
	b, _ := to.Underlying().(*types.Basic)
	if a == nil || b == nil || a.Info()&types.IsUnsigned != 0 || b.Info()&types.IsUnsigned == 0 {
		return false
	}
	return b.Kind() == types.Uint64 || b.Kind() == types.Uint || b.Kind() == types.Uintptr ||
		b.Kind() == types.Uint32 && (a.Kind() == types.Int32 || a.Kind() == types.Int16 || a.Kind() == types.Int8)
}

func narrowing(from, to types.Type) bool {
	a, _ := from.Underlying().(*types.Basic)
	b, _ := to.Underlying().(*types.Basic)
	if a == nil || b == nil {
		return true
	}
	sz := func(k types.BasicKind) int {
		switch k {
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32:
			return 32
		}
		return 64
	}
	sa, sb := sz(a.Kind()), sz(b.Kind())
	ua, ub := a.Info()&types.IsUnsigned != 0, b.Info()&types.IsUnsigned != 0
	if sb > sa {
		return ub && !ua // signed to wider unsigned changes sign
	}
	if sb == sa {
		return ua != ub
	}
	return true
}

func (e *Engine) callInfo(fr *Frame, st *State, site ssa.CallInstruction) *CallInfo {
	c := site.Common()
	ci := &CallInfo{Name: calleeName(c), Site: site, In: fr.fn, Ctx: fr.ctx}
	if c.IsInvoke() {
		ci.Obj = c.Method
		ci.Args = append(ci.Args, e.val(fr, st, c.Value))
		impl := e.p.implementers(c.Value.Type(), c.Method)
		if len(impl) == 1 {
			ci.Callee = impl[0]
		}
	} else {
		fv := e.val(fr, st, c.Value)
		ci.FnVal = fv
		switch fv.k {
		case KFunc:
			ci.Callee = fv.fn
		case KClosure:
			ci.Callee = fv.fn
		}
		if ci.Callee != nil {
			if ci.Callee.Synthetic != "" && strings.Contains(ci.Callee.Synthetic, "bound") && fv.k == KClosure {
				// bound method value: receiver is the captured variable
				ci.Args = append(ci.Args, fv.a...)
			}
			rf := e.p.realFn(ci.Callee)
			ci.Callee = rf
			ci.Name = fnName(rf)
			ci.Obj = rf.Object()
		}
	}
	for _, a := range c.Args {
		ci.Args = append(ci.Args, e.val(fr, st, a))
	}
	return ci
}

type callRes struct {
	st  *State
	res *Expr
}

func (e *Engine) call(fr *Frame, st *State, ci *CallInfo) []callRes {
	e.Calls++
	act := Default
	if e.h.Call != nil {
		act = e.h.Call(st, ci)
	}
	if act == Prune || noReturn(ci.Name) {
		return nil
	}
	var t types.Type
	if v, ok := ci.Site.(ssa.Value); ok {
		t = v.Type()
	} else {
		t = ci.Site.Common().Signature().Results()
	}
	// generated getters are transparent
	if ci.Callee != nil && e.p.isGen(ci.Callee.Pos()) {
		if g := e.getter(st, ci); g != nil {
			if e.h.After != nil {
				e.h.After(st, ci, g)
			}
			return []callRes{{st, g}}
		}
	}
	if act != Opaque && act != OpaqueKeep && ci.Callee != nil && e.shouldInline(fr, ci, act) {
		fn := ci.Callee
		ctx := e.it.ctx(fr.ctx, ci.Site, fn)
		var free []*Expr
		if ci.FnVal != nil && ci.FnVal.k == KClosure {
			free = ci.FnVal.a
		}
		exits := e.runFn(fn, ctx, ci.Args, free, st.clone())
		var out []callRes
		for _, x := range exits {
			var r *Expr
			switch len(x.rets) {
			case 0:
				r = e.it.mk(Expr{k: KTuple, s: "void"}, "")
			case 1:
				r = x.rets[0]
			default:
				r = e.it.mk(Expr{k: KTuple, a: x.rets, t: t}, "")
			}
			if e.h.After != nil {
				e.h.After(x.st, ci, r)
			}
			out = append(out, callRes{x.st, r})
		}
		return out
	}
	var r *Expr
	name := ci.Name
	if name == "" {
		name = "dynamic"
	}
	x := Expr{k: KCall, s: name, a: e.snapArgs(st, ci.Args), t: t, obj: ci.Obj, pos: ci.Site.Pos()}
	if ci.Name == "" && ci.FnVal != nil {
		x.a = append([]*Expr{ci.FnVal}, x.a...)
	}
	switch name {
	case "hash.Hash.Write", "io.Writer.Write", "hash.Hash.Sum", "hash.Hash.Reset":
		if h := ci.Args[0].strip(); h.k == KCall || h.k == KStale || h.k == KMut {
			old := st.mem[h]
			switch name {
			case "hash.Hash.Sum":
				if old == nil {
					old = e.it.mk(Expr{k: KOpaque, s: "written"}, "")
				}
				x.a = []*Expr{h, ci.Args[1], old}
				r = e.it.mk(x, "")
			case "hash.Hash.Reset":
				delete(st.mem, h)
				r = e.it.mk(Expr{k: KTuple, s: "void"}, "")
			default:
				w := Expr{k: KOpaque, s: "written"}
				if old != nil && old.k == KOpaque && old.s == "written" {
					w.a = append(w.a, old.a...)
				} else if old != nil {
					w.a = append(w.a, old)
				}
				if len(w.a) > 0 && w.a[len(w.a)-1] == x.a[1] && inLoop(fr) {
					// repeated in a loop
				} else {
					w.a = append(w.a, x.a[1])
				}
				st.mem[h] = e.it.mk(w, "")
				r = e.fresh(fr, st, Expr{k: KCall, s: name, t: t}, ci.Site)
			}
			break
		}
		r = e.fresh(fr, st, x, ci.Site)
	case "builtin.append":
		if len(ci.Args) == 2 {
			r = e.it.mk(x, "")
			break
		}
		r = e.fresh(fr, st, x, ci.Site)
	case "builtin.copy":
		dst := ci.Args[0].strip()
		r = e.fresh(fr, st, x, ci.Site)
		e.havoc(st, dst, r)
	default:
		if pureCall(name) {
			r = e.it.mk(x, "")
		} else {
			r = e.fresh(fr, st, x, ci.Site)
			if act != OpaqueKeep && !quietCall(name) {
				for _, a := range ci.Args {
					if a != nil {
						e.havoc(st, a, r)
					}
				}
			}
		}
	}
	if e.h.After != nil {
		e.h.After(st, ci, r)
	}
	return []callRes{{st, r}}
}

// snapArgs attaches the current contents of arrays passed by slice or pointer,
// so that the result's provenance includes them.
func (e *Engine) snapArgs(st *State, args []*Expr) []*Expr {
	out := args
	for i, a := range args {
		if s := e.snap(st, a); s != a {
			if &out[0] == &args[0] {
				out = append([]*Expr(nil), args...)
			}
			out[i] = s
		}
	}
	return out
}

func (e *Engine) snap(st *State, a *Expr) *Expr {
	if a == nil {
		return a
	}
	b := a
	for b.k == KSlice || b.k == KConv {
		if len(b.a) > 3 {
			return a
		}
		b = b.a[0]
	}
	switch b.k {
	case KAlloc, KFieldAddr, KIndexAddr:
	default:
		return a
	}
	if b.t == nil {
		return a
	}
	pt, ok := b.t.Underlying().(*types.Pointer)
	if !ok {
		return a
	}
	if _, ok := pt.Elem().Underlying().(*types.Array); !ok {
		return a
	}
	v, ok := st.mem[b]
	if !ok {
		if b.k == KAlloc && a.k == KSlice {
			v, ok = e.elements(st, b, pt.Elem())
		}
	}
	if !ok {
		if b.k != KFieldAddr {
			return a
		}
		if v, ok = e.baseVal(st, b); !ok {
			return a
		}
	}
	if v == nil || v.k == KZero || v.depth > maxDepth-8 {
		return a
	}
	if a.k == KSlice {
		return e.it.mk(Expr{k: KSlice, a: []*Expr{a.a[0], a.a[1], a.a[2], v}, t: a.t}, "")
	}
	return e.it.mk(Expr{k: KConv, s: "snap", a: []*Expr{a, v}, t: a.t}, "")
}

// elements: the array a variadic call was given, element by element.
func (e *Engine) elements(st *State, base *Expr, t types.Type) (*Expr, bool) {
	n, ok := arrayLen(t)
	if !ok || n == 0 || n > 8 {
		return nil, false
	}
	a := make([]*Expr, n)
	for k, v := range st.mem {
		if k.k != KIndexAddr || k.a[0] != base {
			continue
		}
		if k.a[1].k != KConst || !k.a[1].isInt || k.a[1].n < 0 || k.a[1].n >= n || v.depth > maxDepth-8 {
			return nil, false
		}
		a[k.a[1].n] = v
	}
	for _, v := range a {
		if v == nil {
			return nil, false
		}
	}
	return e.it.mk(Expr{k: KStruct, s: "array", a: a, t: t}, ""), true
}

// getter interprets x.GetF() of generated code as the field access x.F.
func (e *Engine) getter(st *State, ci *CallInfo) *Expr {
	fn := ci.Callee
	n := fn.Name()
	if !strings.HasPrefix(n, "Get") || fn.Signature.Recv() == nil || len(ci.Args) != 1 || fn.Signature.Results().Len() != 1 {
		return nil
	}
	rt := fn.Signature.Recv().Type()
	pt, ok := rt.(*types.Pointer)
	if !ok {
		return nil
	}
	s, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() != n[3:] {
			continue
		}
		base := ci.Args[0].strip()
		if base.isNil() {
			return e.zero(fn.Signature.Results().At(0).Type())
		}
		v := e.read(st, e.fieldAddr(base, f, i), f.Type())
		res := fn.Signature.Results().At(0).Type()
		if types.Identical(f.Type(), res) {
			return v
		}
		if fp, ok := f.Type().Underlying().(*types.Pointer); ok && types.Identical(fp.Elem(), res) {
			if v.isNil() {
				return e.zero(res)
			}
			return e.read(st, v, res)
		}
		return nil
	}
	return nil
}

func (e *Engine) shouldInline(fr *Frame, ci *CallInfo, act Action) bool {
	fn := ci.Callee
	if fn == nil || fn.Blocks == nil || fr.ctx.depth >= e.maxCtx || fr.ctx.onStack(fn) {
		return false
	}
	if fn.Pkg == nil || !e.p.inMod(fn.Pkg.Pkg) {
		if fn.Parent() == nil {
			return false
		}
	}
	if e.p.isGen(fn.Pos()) {
		return false
	}
	if act == Inline {
		return true
	}
	if e.h.Inline != nil {
		if y, d := e.h.Inline(fn, ci); d {
			return y
		}
	}
	if e.relevant[fn] {
		return true
	}
	return e.small(fn)
}

// small: loop-free helper with few instructions.
func (e *Engine) small(fn *ssa.Function) bool {
	if v, ok := e.smallCache[fn]; ok {
		return v == 1
	}
	n := 0
	for _, b := range fn.Blocks {
		n += len(b.Instrs)
	}
	r := n <= e.smallMax && len(fn.Blocks) <= 10 && !fnHasLoop(fn)
	e.smallCache[fn] = b2i(r)
	return r
}

// gc drops facts and memory about temporaries of a finished activation.
func (e *Engine) gc(x *Exit, ctx *Ctx) {
	if ctx.parent == nil {
		return
	}
	if len(x.st.bf)+len(x.st.nf)+len(x.st.eq)+len(x.st.bd)+len(x.st.mem) == 0 {
		return
	}
	stamp++
	g := stamp
	var mark func(y *Expr)
	mark = func(y *Expr) {
		if y == nil || y.mark == g {
			return
		}
		y.mark = g
		for _, a := range y.a {
			mark(a)
		}
		if m := e.it.phiOps[y]; m != nil {
			for o := range m {
				mark(o)
			}
		}
	}
	for _, r := range x.rets {
		mark(r)
	}
	for _, ev := range x.st.ev {
		mark(ev.Res)
		for _, a := range ev.Args {
			mark(a)
		}
	}
	// memory rooted at non-local objects keeps its values alive
	type kv struct{ k, r, v *Expr }
	var localMem []kv
	for k, v := range x.st.mem {
		r := k.addrRoot()
		if r.mark == g || !e.localTo(r, ctx) {
			mark(v)
			mark(k)
		} else {
			localMem = append(localMem, kv{k, r, v})
		}
	}
	for ch := true; ch && len(localMem) > 0; {
		ch = false
		rest := localMem[:0]
		for _, m := range localMem {
			if m.r.mark == g {
				mark(m.v)
				mark(m.k)
				ch = true
			} else {
				rest = append(rest, m)
			}
		}
		localMem = rest
	}
	for _, m := range localMem {
		delete(x.st.mem, m.k)
	}
	// dead: involves a local temporary nobody can name any more
	stamp++
	g2 := stamp // mark2 == g2: known alive; == -g2: known dead
	var dead func(y *Expr) bool
	dead = func(y *Expr) bool {
		if y == nil || y.mark == g || y.mark2 == g2 {
			return false
		}
		if y.mark2 == -g2 {
			return true
		}
		y.mark2 = g2
		d := e.localTo(y, ctx)
		if !d {
			for _, a := range y.a {
				if dead(a) {
					d = true
					break
				}
			}
		}
		if d {
			y.mark2 = -g2
		}
		return d
	}
	for k := range x.st.bf {
		if dead(k) {
			delete(x.st.bf, k)
		}
	}
	for k := range x.st.nf {
		if dead(k) {
			delete(x.st.nf, k)
		}
	}
	for k := range x.st.eq {
		if dead(k) {
			delete(x.st.eq, k)
		}
	}
	for k, b := range x.st.bd {
		for a := range b.l.c {
			if dead(a) {
				delete(x.st.bd, k)
				break
			}
		}
	}
}

// localTo: the term is a site-unique value created in ctx or below.
func (e *Engine) localTo(y *Expr, ctx *Ctx) bool {
	switch y.k {
	case KAlloc, KCall, KMake, KPhi, KOpaque:
	default:
		return false
	}
	for x := y.cx; x != nil && x.depth >= ctx.depth; x = x.parent {
		if x == ctx {
			return true
		}
	}
	return false
}
