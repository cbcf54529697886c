package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&propDef{
		ID: "C19",
		Expl: "The disjunctive dataflow covers the receiving loop, from the lowest function that both reads the websocket and reaches the function that processes an envelope; the processing of an envelope is one step. answered: when the next frame is read, a request read before it must have had an answer handed to the connection (a response message given to a channel or written, by a send that cannot be skipped). answer: the answer must be a response with status 200 and the id of the request it answers, taken from the frame read last. handled-first: when the answer is handed over, the envelope of the frame must have been processed, or its body must have been found empty, or a step that works on the frame must have failed; nothing may be processed after the answer, nor be left to a goroutine. keeps-going: once a frame was read and decoded the loop may be left only when the answer could not be given. " +
			"delivered: what the writing goroutine takes from the channel of the answers must be written to the connection, as a binary message, before it takes the next or ends. single-writer: every place that writes to a websocket must be reached only from a goroutine started for it, once for a connection.",
		Assume:  []string{"the server's frames can be decoded (a frame that cannot ends the loop)", "a goroutine started for a connection writes until the connection is closed"},
		Minimum: map[string]int{"answered": 1, "answer": 1, "handled-first": 1, "keeps-going": 1, "delivered": 1, "single-writer": 2},
		Run:     runC19,
	})
}

const gorilla = "github.com/gorilla/websocket."

func isWsRead(n string) bool {
	return names(gorilla+"Conn.ReadMessage", gorilla+"Conn.NextReader", gorilla+"Conn.ReadJSON")(n)
}

func isEncode(n string) bool {
	return names("google.golang.org/protobuf/proto.Marshal", "github.com/golang/protobuf/proto.Marshal")(n) || strings.HasSuffix(n, "/proto.MarshalOptions.Marshal")
}

// inLoopBlock: the block lies on a cycle of its function.
func inLoopBlock(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

// ack is the rule at work.
type ack struct {
	c      *Check
	r      *receiving
	frame  map[*types.Var]string // fields of WebSocketMessage
	req    map[*types.Var]string
	resp   map[*types.Var]string
	kinds  map[string]string // value of the message type -> name
	proc   map[*ssa.Function]bool
	sends  map[*ssa.Function]bool // reach the processing, a read or a send
	chans  map[*types.Var]bool    // channels answers are handed to
	direct bool
}

func runC19(c *Check) {
	k := &ack{c: c, r: c.receiving(), kinds: map[string]string{}, proc: map[*ssa.Function]bool{}, chans: map[*types.Var]bool{}}
	k.frame = c.structFields("/protobuf", "WebSocketMessage")
	k.req = c.structFields("/protobuf", "WebSocketRequestMessage")
	k.resp = c.structFields("/protobuf", "WebSocketResponseMessage")
	for _, pk := range c.p.Pkgs {
		if pk.PkgPath != Mod+"/protobuf" {
			continue
		}
		for _, n := range pk.Types.Scope().Names() {
			if v, ok := pk.Types.Scope().Lookup(n).(*types.Const); ok && strings.HasPrefix(n, "WebSocketMessage_") {
				k.kinds[v.Val().ExactString()] = strings.TrimPrefix(n, "WebSocketMessage_")
			}
		}
	}
	for _, f := range k.r.roots {
		k.proc[f] = true
	}
	reads := c.p.reachesCall(func(cc *ssa.CallCommon) bool { return isWsRead(calleeName(cc)) })
	works := c.p.reachesInstr(func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		for _, g := range c.p.targets(ci.Common()) {
			if k.proc[g] {
				return true
			}
		}
		return false
	})
	for f := range k.proc {
		works[f] = true
	}
	k.sends = c.p.reachesInstr(func(in ssa.Instruction) bool {
		if handsOver(in) {
			return true
		}
		ci, ok := in.(ssa.CallInstruction)
		return ok && (isWsRead(calleeName(ci.Common())) || isEncode(calleeName(ci.Common())) && k.answers(ci))
	})
	for f := range works {
		k.sends[f] = true
	}
	both := func(f *ssa.Function) bool {
		return reads[f] && works[f] && !inCmd(f) && f.Synthetic == "" && !k.proc[f]
	}
	var roots []*ssa.Function
	for _, f := range c.p.AllFuncs {
		if !both(f) {
			continue
		}
		low := true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range c.p.targets(ci.Common()) {
						if g != f && both(g) {
							low = false
						}
					}
				}
			}
		}
		if low {
			roots = append(roots, f)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].Pos() < roots[j].Pos() })
	c.ob("anchor", "loop", 0, len(roots) > 0, "no function both reads the websocket and processes envelopes")
	for _, f := range roots {
		k.loop(f)
	}
	k.background()
	k.writers()
}

// answers: the call encodes a websocket message.
func (k *ack) answers(ci ssa.CallInstruction) bool {
	a := ci.Common().Args
	if len(a) == 0 {
		return false
	}
	m, ok := a[len(a)-1].(*ssa.MakeInterface)
	return ok && msgName(m.X.Type()) == "WebSocketMessage"
}

// last finds the latest event of a kind.
func last(st *State, kind string) *Event {
	evs := st.events(kind)
	if len(evs) == 0 {
		return nil
	}
	return evs[len(evs)-1]
}

// loop decides the rules of the receiving loop below root.
func (k *ack) loop(root *ssa.Function) {
	c := k.c
	var e *Engine
	res := &rootResult{inst: map[string]instRes{}}
	rule := map[string]string{}
	put := func(r, key string, pos token.Pos, in *ssa.Function, ok bool, detail string, ctx *Ctx) {
		kk := r + "|" + key
		rule[kk] = r
		path := ""
		if ctx != nil {
			path = c.p.ctxPath(ctx)
		}
		res.put(kk, pos, in, ok, detail, path)
	}
	reset := func(st *State) {
		var keep []*Event
		for _, ev := range st.ev {
			if !strings.HasPrefix(ev.Kind, "ack.") {
				keep = append(keep, ev)
			}
		}
		st.ev = keep
	}
	fails := func(st *State, ev *Event) bool { return ev.Err != nil && st.isNil(ev.Err) == 0 }
	// open: the frame that was read last and decoded
	open := func(st *State) *Event {
		f := last(st, "ack.frame")
		if f == nil || fails(st, f) {
			return nil
		}
		return f
	}
	exempt := func(st *State) bool {
		return len(st.events("ack.norequest")) > 0
	}
	given := func(st *State, ctx *Ctx, pos token.Pos, in *ssa.Function, val *Expr, certain bool) bool {
		f := open(st)
		var a *Event
		for _, ev := range st.events("ack.encoded") {
			x := e.result(ev.Res, 0, 2, nil)
			if val.strip() == x.strip() || e.it.contains(val, func(y *Expr) bool { return y == ev.Res }) {
				a = ev
			}
		}
		if a == nil {
			return false
		}
		if f == nil {
			put("answer", fnName(in), pos, in, false, "an answer is given although no request was read", ctx)
			return false
		}
		put("answer", fnName(in), pos, in, certain, "the answer is dropped when the connection's queue is full", ctx)
		bad := ""
		switch {
		case len(a.Vals) == 0:
			bad = "the answer is not a response message"
		case a.Vals[0] == nil || k.kinds[constOf(a.Vals[0])] != "RESPONSE":
			bad = "the answer is not marked as a response"
			trace("type: %v", a.Vals[0])
		case a.Vals[1] == nil || !k.idOf(e, f, a.Vals[1]):
			bad = "the answer does not carry the id of the request it answers"
			trace("id: %v", a.Vals[1])
		case a.Vals[2] == nil || constOf(a.Vals[2]) != "200":
			bad = "the answer does not have the status that acknowledges the request"
		}
		put("answer", fnName(in), pos, in, bad == "", bad, ctx)
		ok := len(st.events("ack.done")) > 0 || len(st.events("ack.empty")) > 0 || len(st.events("ack.failed")) > 0 || exempt(st)
		put("handled-first", "before the answer", pos, in, ok, "a request is acknowledged before its message was processed", ctx)
		st.record(Event{Kind: "ack.given", Pos: pos, Fn: in, Ctx: ctx})
		return true
	}
	h := Hooks{
		Call: func(st *State, ci *CallInfo) Action {
			if ci.Go {
				if ci.Callee != nil && (k.proc[ci.Callee] || k.r.rel[ci.Callee]) || k.r.callback(ci) != "" {
					put("handled-first", "goroutine", ci.Pos(), ci.In, false, "a message is left to a goroutine to process, and acknowledged before it was", ci.Ctx)
				}
				return Default
			}
			if ci.Callee != nil && k.proc[ci.Callee] {
				if f := open(st); f != nil {
					put("handled-first", "after the answer", ci.Pos(), ci.In, len(st.events("ack.given")) == 0, "a message is processed after its request was acknowledged", ci.Ctx)
				}
				return Opaque
			}
			switch {
			case isWsRead(ci.Name):
				if f := open(st); f != nil {
					ok := len(st.events("ack.given")) > 0 || exempt(st)
					put("answered", fnName(ci.In), ci.Pos(), ci.In, ok, "the next request is read although the one before it was not acknowledged", ci.Ctx)
				}
				return Opaque
			case isEncode(ci.Name) && ci.Site != nil && k.answers(ci.Site):
				return Opaque
			}
			return Default
		},
		After: func(st *State, ci *CallInfo, r *Expr) {
			if ci.Site == nil || ci.Go {
				return
			}
			switch {
			case ci.Callee != nil && k.proc[ci.Callee]:
				st.record(Event{Kind: "ack.done", Pos: ci.Pos(), Fn: ci.In})
			case isWsWrite(ci.Name) && len(ci.Args) > 2:
				if given(st, ci.Ctx, ci.Pos(), ci.In, ci.Args[2], true) {
					k.direct = true
					st.record(Event{Kind: "ack.written", Res: r, Err: e.errOf(ci.Site, r), Pos: ci.Pos(), Fn: ci.In})
				}
			case isWsRead(ci.Name):
				reset(st)
				st.record(Event{Kind: "ack.read", Name: ci.Name, Res: r, Err: e.errOf(ci.Site, r), Pos: ci.Pos(), Fn: ci.In})
			case isDecode(ci.Name) && into(ci.Site) == "WebSocketMessage":
				st.record(Event{Kind: "ack.frame", Name: ci.Name, Args: ci.Args, Res: r, Err: e.errOf(ci.Site, r), Pos: ci.Pos(), Fn: ci.In})
			case isEncode(ci.Name) && k.answers(ci.Site):
				st.record(Event{Kind: "ack.encoded", Name: ci.Name, Res: r, Err: e.errOf(ci.Site, r), Pos: ci.Pos(), Fn: ci.In, Vals: k.parts(e, st, ci.Args[len(ci.Args)-1])})
			}
		},
		Branch: func(st *State, fr *Frame, in *ssa.If, cond *Expr, val bool) {
			f := open(st)
			if f == nil {
				return
			}
			of := func(x *Expr) bool { return e.it.contains(x, func(y *Expr) bool { return y == f.Res }) }
			for cond.k == KUn && cond.s == "!" {
				cond, val = cond.a[0], !val
			}
			e.it.contains(cond, func(y *Expr) bool {
				if v := varOf(y); v != nil && k.req[v] == "Body" && of(y) {
					if _, hi := st.interval(e.lenLin(y.strip())); hi == 0 || st.isNil(y.strip()) == 1 {
						st.recordSet(Event{Kind: "ack.empty"})
					}
				}
				return false
			})
			if cond.k != KBin || cond.s != "==" {
				return
			}
			a, b := cond.a[0], cond.a[1]
			if a.isNil() || b.isNil() {
				x := a
				if a.isNil() {
					x = b
				}
				switch v := varOf(x); {
				case v != nil && k.frame[v] == "Request" && val && of(x):
					st.recordSet(Event{Kind: "ack.norequest"})
				case isErrorT(x.t) && !val && (of(x) || e.fromCall(x, names("errors.New", "fmt.Errorf"))):
					st.recordSet(Event{Kind: "ack.failed"})
				}
				return
			}
			if cst, x := constSide(a, b); cst != nil {
				if v := varOf(x); v != nil && k.frame[v] == "Type" && of(x) {
					n := k.kinds[cst.s]
					if cst.isInt {
						n = k.kinds[fmt.Sprint(cst.n)]
					}
					if n == "REQUEST" && !val || n != "REQUEST" && val {
						st.recordSet(Event{Kind: "ack.norequest"})
					}
				}
			}
		},
		Instr: func(st *State, fr *Frame, in ssa.Instruction) {
			one := func(ch, v ssa.Value, certain bool) {
				val := fr.Val(st, v)
				if given(st, fr.ctx, in.Pos(), fr.fn, val, certain) {
					if f := chanField(ch); f != nil {
						k.chans[f] = true
					}
				}
			}
			switch x := in.(type) {
			case *ssa.Send:
				one(x.Chan, x.X, true)
			case *ssa.Select:
				for _, s := range x.States {
					if s.Dir == types.SendOnly {
						one(s.Chan, s.Send, x.Blocking)
					}
				}
			}
		},
		Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) {
			return k.sends[fn], true
		},
	}
	e = newEngine(c.p, h)
	e.relevant = k.sends
	exits := e.Run(root)
	c.useBounded(e)
	for _, x := range exits {
		st := x.st
		f := open(st)
		if f == nil {
			continue
		}
		refused := false
		for _, ev := range append(st.events("ack.encoded"), st.events("ack.written")...) {
			refused = refused || fails(st, ev)
		}
		ok := refused || len(st.events("ack.given")) > 0 && len(st.events("ack.failed")) == 0
		put("keeps-going", fnName(root), x.pos, root, ok, "the receiving loop ends because of one message", nil)
	}
	if len(res.order) > 0 {
		put("keeps-going", fnName(root), root.Pos(), root, true, "", nil)
	}
	for _, kk := range res.order {
		i := res.inst[kk]
		key := strings.TrimPrefix(kk, rule[kk]+"|")
		if !i.ok {
			c.rules[rule[kk]]++
			c.fail(rule[kk], key, c.p.pos(i.pos), i.detail, i.path)
			continue
		}
		c.ob(rule[kk], key, i.pos, true, "")
	}
}

func constOf(x *Expr) string {
	x = x.strip()
	if x.k != KConst {
		return ""
	}
	if x.isInt {
		return fmt.Sprint(x.n)
	}
	return x.s
}

// parts: the type, id and status of the message that is encoded.
func (k *ack) parts(e *Engine, st *State, m *Expr) []*Expr {
	at := func(base *Expr, fields map[*types.Var]string, name string) *Expr {
		for v, n := range fields {
			if n != name {
				continue
			}
			s, _ := deref(base.t).Underlying().(*types.Struct)
			if s == nil {
				return nil
			}
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i) == v {
					return e.read(st, e.fieldAddr(base, v, i), v.Type())
				}
			}
		}
		return nil
	}
	pointed := func(p *Expr) *Expr {
		if p == nil || p.isNil() {
			return nil
		}
		if q := p.strip(); q.k == KCall && len(q.a) == 1 && (strings.HasSuffix(q.s, ".Enum") || strings.HasSuffix(q.s, "/proto.Uint64") || strings.HasSuffix(q.s, "/proto.Uint32")) {
			return q.a[0]
		}
		t, ok := p.t.Underlying().(*types.Pointer)
		if !ok {
			return nil
		}
		return e.read(st, p.strip(), t.Elem())
	}
	m = m.strip()
	r := at(m, k.frame, "Response")
	if r == nil || st.isNil(r) == 1 {
		return nil
	}
	r = r.strip()
	return []*Expr{pointed(at(m, k.frame, "Type")), pointed(at(r, k.resp, "Id")), pointed(at(r, k.resp, "Status"))}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// idOf: the value is the id of the request in the frame.
func (k *ack) idOf(e *Engine, f *Event, x *Expr) bool {
	x = x.strip()
	for x.k == KLoad && varOf(x) == nil {
		x = x.a[0].strip()
	}
	v := varOf(x)
	return v != nil && k.req[v] == "Id" && e.it.contains(x, func(y *Expr) bool { return y == f.Res })
}

// background: nothing the processing does is left to a goroutine that notifies
// the application.
func (k *ack) background() {
	c := k.c
	reach := c.p.reachableFrom(k.r.roots...)
	for _, f := range c.sortedFuncs() {
		if !reach[f] || inCmd(f) || !k.r.rel[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				bad := k.r.callbacks[loadedField(g.Call.Value)] != ""
				for _, t := range c.p.targets(g.Common()) {
					bad = bad || k.r.rel[t]
				}
				c.ob("handled-first", fnName(f)+" goroutine", in.Pos(), !bad, "the application is notified of a message by a goroutine, after the message was acknowledged")
			}
		}
	}
}

// writers decides who writes to the connections.
func (k *ack) writers() {
	c := k.c
	// functions that run in the goroutine that writes
	type site struct {
		g  *ssa.Go
		in *ssa.Function
		to *ssa.Function
	}
	starts := map[*ssa.Function][]site{}
	plain := map[*ssa.Function][]ssa.Instruction{}
	for _, f := range c.p.AllFuncs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, t := range c.p.targets(ci.Common()) {
					if g, ok := in.(*ssa.Go); ok {
						starts[t] = append(starts[t], site{g, f, t})
					} else {
						plain[t] = append(plain[t], in)
					}
				}
			}
		}
	}
	dials := c.p.reachesCall(func(cc *ssa.CallCommon) bool {
		return strings.HasPrefix(calleeName(cc), gorilla+"Dialer.Dial")
	})
	groups := map[string][]site{}
	for _, f := range c.sortedFuncs() {
		if inCmd(f) || c.p.unreached(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !isWsWrite(calleeName(ci.Common())) {
					continue
				}
				bad, where := "", in.Pos()
				if _, ok := in.(*ssa.Go); ok {
					bad = "a goroutine is started for each message that is written"
				}
				seen := map[*ssa.Function]bool{}
				var up func(g *ssa.Function)
				up = func(g *ssa.Function) {
					if seen[g] || bad != "" {
						return
					}
					seen[g] = true
					for _, s := range starts[g] {
						grp := f.Pkg.Pkg.Name()
						groups[grp] = append(groups[grp], s)
					}
					if (len(plain[g]) == 0 || g.Object() != nil && g.Object().Exported()) && len(starts[g]) == 0 && !c.p.unreached(g) {
						bad, where = "the connection is written to by "+fnName(g)+", which is not the goroutine started for it", g.Pos()
					}
					for _, s := range plain[g] {
						if !inCmd(s.Parent()) && !c.p.unreached(s.Parent()) {
							up(s.Parent())
						}
					}
				}
				up(f)
				c.ob("single-writer", fnName(f), where, bad == "", bad)
			}
		}
	}
	var gs []string
	for g := range groups {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		uniq := map[*ssa.Go]site{}
		var list []site
		for _, s := range groups[g] {
			if _, ok := uniq[s.g]; !ok {
				uniq[s.g] = s
				list = append(list, s)
			}
		}
		for i, s := range list {
			bad := ""
			if inLoopBlock(s.g.Block()) && !k.dialsWith(s.g, dials) {
				bad = "more than one goroutine writes to the same connection: it is started in a loop"
			}
			for j, o := range list {
				if i == j || bad != "" {
					continue
				}
				if o.in == s.in && !exclusive(o.g, s.g) || o.in != s.in && c.p.reachableFrom(s.in)[o.in] {
					bad = "two goroutines write to the same connection: another is started in " + fnName(o.in)
				}
			}
			c.ob("single-writer", "goroutine of "+g+" in "+fnName(s.in), s.g.Pos(), bad == "", bad)
		}
		for _, s := range list {
			k.delivered(s.to)
		}
	}
	if k.direct {
		c.ob("delivered", "written at once", 0, true, "")
	}
}

// exclusive: no path executes both instructions.
func exclusive(a, b ssa.Instruction) bool {
	reach := func(x, y *ssa.BasicBlock) bool {
		seen := map[*ssa.BasicBlock]bool{}
		work := []*ssa.BasicBlock{x}
		for len(work) > 0 {
			z := work[len(work)-1]
			work = work[:len(work)-1]
			if z == y {
				return true
			}
			if seen[z] {
				continue
			}
			seen[z] = true
			work = append(work, z.Succs...)
		}
		return false
	}
	return !reach(a.Block(), b.Block()) && !reach(b.Block(), a.Block())
}

// dialsWith: a new connection is made in the loop the goroutine is started in.
func (k *ack) dialsWith(g *ssa.Go, dials map[*ssa.Function]bool) bool {
	for _, b := range g.Parent().Blocks {
		if !inLoopBlock(b) {
			continue
		}
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if strings.HasPrefix(calleeName(ci.Common()), gorilla+"Dialer.Dial") {
					return true
				}
				for _, t := range k.c.p.targets(ci.Common()) {
					if dials[t] {
						return true
					}
				}
			}
		}
	}
	return false
}

// delivered: what the goroutine takes from the channel of the answers is
// written.
func (k *ack) delivered(f *ssa.Function) {
	c := k.c
	var e *Engine
	res := &rootResult{inst: map[string]instRes{}}
	check := func(st *State, pos token.Pos, fn *ssa.Function) {
		for _, t := range st.events("w.taken") {
			ok := len(t.Args) > 1 && st.boolVal(t.Args[1]) == 0
			for _, w := range st.events("w.written") {
				ok = ok || e.it.contains(w.Args[0], func(y *Expr) bool { return y == t.Args[0] })
			}
			res.put(fnName(f), pos, fn, ok, "an answer that was taken from the queue is not written to the connection as a binary message", "")
		}
		var keep []*Event
		for _, ev := range st.ev {
			if ev.Kind != "w.taken" && ev.Kind != "w.written" {
				keep = append(keep, ev)
			}
		}
		st.ev = keep
	}
	mine := func(ch ssa.Value) bool {
		v := chanField(ch)
		return v != nil && k.chans[v]
	}
	writes := c.p.reachesInstr(func(in ssa.Instruction) bool {
		if cc := callOf(in); cc != nil && isWsWrite(calleeName(cc)) {
			return true
		}
		return len(received(in)) > 0
	})
	h := Hooks{
		Call: func(st *State, ci *CallInfo) Action {
			if isWsWrite(ci.Name) && len(ci.Args) > 2 && (constOf(ci.Args[1]) == "2" || ci.Args[1].strip().k != KConst) {
				st.record(Event{Kind: "w.written", Args: []*Expr{ci.Args[2].strip()}, Pos: ci.Pos(), Fn: ci.In})
			}
			return Default
		},
		Instr: func(st *State, fr *Frame, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.ARROW && mine(x.X) {
					check(st, in.Pos(), fr.fn)
				}
			case *ssa.Select:
				for _, s := range x.States {
					if s.Dir == types.RecvOnly && mine(s.Chan) {
						check(st, in.Pos(), fr.fn)
					}
				}
			case *ssa.Extract:
				// the value of a receive is looked at
				u, ok := x.Tuple.(*ssa.UnOp)
				if ok && u.Op == token.ARROW && mine(u.X) && x.Index == 0 {
					val := fr.Val(st, x.Tuple)
					st.record(Event{Kind: "w.taken", Args: []*Expr{e.result(val, 0, 2, x.Type()).strip(), e.result(val, 1, 2, types.Typ[types.Bool]).strip()}, Pos: in.Pos(), Fn: fr.fn})
				}
			}
			if len(st.events("w.taken")) == 0 {
				for _, prev := range prior(in) {
					if u, ok := prev.(*ssa.UnOp); ok && u.Op == token.ARROW && !u.CommaOk && mine(u.X) {
						st.record(Event{Kind: "w.taken", Args: []*Expr{fr.Val(st, u).strip()}, Pos: u.Pos(), Fn: fr.fn})
					}
				}
			}
		},
		Branch: func(st *State, fr *Frame, in *ssa.If, cond *Expr, val bool) {
			b, ok := in.Cond.(*ssa.BinOp)
			if !ok || b.Op != token.EQL || !val {
				return
			}
			x, ok := b.X.(*ssa.Extract)
			n, isC := b.Y.(*ssa.Const)
			if !ok || !isC || x.Index != 0 {
				return
			}
			s, ok := x.Tuple.(*ssa.Select)
			if !ok {
				return
			}
			at := 0
			for i, cs := range s.States {
				if cs.Dir != types.RecvOnly {
					continue
				}
				if int64(i) == n.Int64() && mine(cs.Chan) {
					t := fr.Val(st, s)
					tt := s.Type().(*types.Tuple)
					args := []*Expr{e.result(t, 2+at, tt.Len(), tt.At(2+at).Type()).strip(), e.result(t, 1, tt.Len(), types.Typ[types.Bool]).strip()}
					st.record(Event{Kind: "w.taken", Args: args, Pos: s.Pos(), Fn: fr.fn})
				}
				at++
			}
		},
		Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) { return true, writes[fn] },
	}
	e = newEngine(c.p, h)
	e.relevant = writes
	for _, x := range e.Run(f) {
		check(x.st, x.pos, f)
	}
	c.useBounded(e)
	for _, key := range res.order {
		i := res.inst[key]
		c.ob("delivered", key, i.pos, i.ok, i.detail)
	}
}

// prior: the instruction just before.
func prior(in ssa.Instruction) []ssa.Instruction {
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			if i > 0 {
				return b.Instrs[i-1 : i]
			}
			return nil
		}
	}
	return nil
}
