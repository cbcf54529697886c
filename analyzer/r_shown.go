package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&propDef{
		ID: "C41",
		Expl: "The disjunctive dataflow follows every received envelope through decryption and parsing to the callbacks of the application. shown: text, time, disappearing time, quote, contacts, sticker and reaction of the message handed to MessageHandler, and of the one handed to SyncSentHandler, must be read from that part of that data message; attachments, flags and group must be made from them (flags shown only if the message is known to have them, none shown only if it is known to have none, no group only if the message names none), and a profile key that is stored must be that of the message. " +
			"group: the group found for a message is the one looked up, read or made under the key in the message. attachments, receipts, reads: in a loop over the attachments of a message, the times in a receipt or the read marks, each element must have become a file in its own place, or been handed to its callback, before the function succeeds, and the loop must go through the whole list and be left early only with an error. " +
			"file: type and name are those of the pointer, the content is what was downloaded from the place and host the pointer names, opened with the key in the pointer, and cut to the size it states. label: the word shown for a receipt or a call message is that for its kind.",
		Assume:  []string{"the content is what was sent (C01, C02)", "files are authenticated (C02)"},
		Minimum: map[string]int{"shown": 18, "group": 2, "attachments": 2, "receipts": 2, "reads": 2, "file": 8, "label": 3},
		Run:     runC41,
	})
}

type shown struct {
	c   *Check
	r   *receiving
	own map[*types.Var]string // fields of DataMessage
	msg map[string]*types.Var // what a getter of Message returns
	idx map[string]int
}

// parts of a data message that are shown as they are
var shownAs = map[string]string{"Message": "Body", "ExpireTimer": "ExpireTimer", "Timestamp": "Timestamp", "Quote": "Quote", "Contact": "Contact", "Sticker": "Sticker", "Reaction": "Reaction"}

// getters: the fields of Message behind its exported methods.
func (k *shown) getters() {
	k.msg, k.idx = map[string]*types.Var{}, map[string]int{}
	for _, f := range k.c.sortedFuncs() {
		if f.Signature.Recv() == nil || !namedIs(derefT(f.Signature.Recv().Type()), Mod, "Message") || f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				rt, ok := in.(*ssa.Return)
				if !ok || len(rt.Results) != 1 {
					continue
				}
				if u, ok := rt.Results[0].(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok {
						k.msg[f.Name()] = fieldOf(fa.X.Type(), fa.Field)
						k.idx[f.Name()] = fa.Field
					}
				}
			}
		}
	}
}

func runC41(c *Check) {
	k := &shown{c: c, r: c.receiving()}
	k.own = c.structFields("/protobuf", "DataMessage")
	k.getters()
	c.ob("anchor", "receive", 0, len(k.r.roots) > 0, "no function both decrypts envelopes and notifies the application")
	k.messages()
	k.attachments()
	k.lists()
	k.calls()
	k.groups()
}

// part: x is that part of the data message at hand.
func (k *shown) part(x *Expr, field, of string) bool {
	x = bareLoad(x)
	return k.own[varOf(x)] == field && k.within(x, of)
}

// within: the part belongs to the message found in that field of the content.
func (k *shown) within(x *Expr, of string) bool {
	if x.k != KField && x.k != KFieldAddr {
		return false
	}
	v := varOf(x.a[0])
	return v != nil && v.Name() == of && strings.HasPrefix(k.c.p.fieldOwner(v), Mod+"/protobuf.")
}

// dataMessage: x is the data message at hand.
func (k *shown) dataMessage(x *Expr, of string) bool {
	v := varOf(x)
	return v != nil && v.Name() == of && strings.HasPrefix(k.c.p.fieldOwner(v), Mod+"/protobuf.")
}

func bareLoad(x *Expr) *Expr {
	x = x.strip()
	for x.k == KLoad {
		x = x.a[0].strip()
	}
	return x
}

// absent: the path is one on which the part is known to be missing.
func (k *shown) absent(e *Engine, st *State, field, of string) bool {
	for x, v := range st.nf {
		if v && k.part(x, field, of) {
			return true
		}
	}
	for b := range st.bf {
		if b.k != KBin {
			continue
		}
		for _, x := range b.a {
			x = x.strip()
			if x.k == KCall && x.s == "builtin.len" && len(x.a) == 1 && k.part(x.a[0], field, of) {
				if _, hi := st.interval(e.lenLin(x.a[0].strip())); hi == 0 {
					return true
				}
			}
		}
	}
	return false
}

func (k *shown) messages() {
	c, r := k.c, k.r
	rel := map[*ssa.Function]bool{}
	for f := range r.rel {
		rel[f] = true
	}
	for _, f := range c.sortedFuncs() {
		if !c.p.isGen(f.Pos()) && f.Pkg != nil && (k.yields(f) || f.Pkg.Pkg.Path() == Mod && k.tells(f)) {
			rel[f] = true
		}
	}
	for _, root := range r.roots {
		res := &rootResult{inst: map[string]instRes{}}
		var e *Engine
		h := r.hooks(&e, func(st *State, ci *CallInfo) Action {
			if ci.Name == "ts/contacts.UpdateProfileKey" && len(ci.Args) == 2 {
				of := "DataMessage"
				if has(st, "kind", "SyncMessage") {
					of = "Message"
				}
				res.put("shown|profile key", ci.Pos(), ci.In, k.part(ci.Args[1], "ProfileKey", of), "the profile key that is stored is not the one in the message", c.p.ctxPath(ci.Ctx))
			}
			n := r.callback(ci)
			of := ""
			switch {
			case n == "MessageHandler" && has(st, "kind", "DataMessage"):
				of = "DataMessage"
			case n == "SyncSentHandler":
				of = "Message"
			}
			if of == "" || len(ci.Args) == 0 {
				return Default
			}
			var m *Expr
			for _, a := range ci.Args {
				if namedIs(derefT(a.t), Mod, "Message") {
					m = a
				}
			}
			if m == nil {
				return Default
			}
			get := func(g string) *Expr {
				v := k.msg[g]
				if v == nil {
					return nil
				}
				return e.read(st, e.fieldAddr(m, v, k.idx[g]), v.Type())
			}
			put := func(what string, ok bool, detail string) {
				res.put("shown|"+n+" "+what, ci.Pos(), ci.In, ok, detail, c.p.ctxPath(ci.Ctx))
			}
			for g, f := range shownAs {
				x := get(g)
				if x == nil {
					put(g, false, "the message shown has no "+g)
					continue
				}
				trace("C41 %s %s %v", n, g, x)
				put(g, k.part(x, f, of) || x.strip().isNil() && k.absent(e, st, f, of), "what the application is shown as "+g+" of a message is not the "+f+" that was sent")
			}
			if of == "Message" { // from another device of the account
				for g, f := range map[string]string{"Source": "DestinationE164", "SourceUUID": "DestinationUuid"} {
					x := get(g)
					v := varOf(orSelf(x))
					put(g, v != nil && v.Name() == f && k.c.p.fieldOwner(v) == Mod+"/protobuf.SyncMessage_Sent", "the recipient of a message from another device is not the one it names")
				}
			}
			if x := get("Attachments"); x != nil {
				put("Attachments", k.filesOf(e, st, x, of), "what the application is shown as attachments of a message are not those that were sent with it")
			}
			if x := get("Flags"); x != nil {
				put("Flags", k.flagsOf(e, st, x, of), "the flags the application is shown of a message are not those it has")
			}
			if x := get("GroupV2"); x != nil {
				put("GroupV2", k.groupOf(e, st, x, of), "the group the application is shown of a message is not that it was sent to")
			}
			return Default
		})
		h.Inline = func(fn *ssa.Function, ci *CallInfo) (bool, bool) {
			if fn.Pkg != nil && fn.Pkg.Pkg.Path() == Mod+"/groupsv2" {
				return false, true
			}
			return false, false
		}
		e = newEngine(c.p, h)
		r.e = e
		e.relevant = rel
		e.capStates, e.capExits = 64, 48
		e.Run(root)
		c.useBounded(e)
		c.shownReport(res)
	}
}

func (c *Check) shownReport(res *rootResult) {
	for _, key := range res.order {
		i := res.inst[key]
		rule, name, _ := strings.Cut(key, "|")
		if i.ok {
			c.ob(rule, name, i.pos, true, "")
		} else {
			c.fail(rule, name, c.p.pos(i.pos), i.detail, i.path)
		}
	}
}

// tells: the function makes text or a number from a part of a message.
func (k *shown) tells(f *ssa.Function) bool {
	s := f.Signature
	if s.Results().Len() == 0 {
		return false
	}
	if _, ok := s.Results().At(0).Type().Underlying().(*types.Basic); !ok {
		return false
	}
	for i := 0; i < s.Params().Len(); i++ {
		if n, ok := derefT(s.Params().At(i).Type()).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == Mod+"/protobuf" {
			return true
		}
	}
	return false
}

// yields: the function hands on a part of a data message.
func (k *shown) yields(f *ssa.Function) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if s, ok := t.Underlying().(*types.Slice); ok {
			t = s.Elem()
		}
		if n, ok := derefT(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == Mod+"/protobuf" && strings.HasPrefix(n.Obj().Name(), "DataMessage_") {
			return true
		}
	}
	return false
}

// filesOf: the list made from the attachments of the message.
func (k *shown) filesOf(e *Engine, st *State, x *Expr, of string) bool {
	x = x.strip()
	if x.isNil() {
		return k.absent(e, st, "Attachments", of)
	}
	b := bare(x)
	if b.k != KCall {
		return false
	}
	for _, a := range b.a {
		if k.dataMessage(a, of) || k.part(a, "Attachments", of) {
			return true
		}
	}
	return false
}

// flagsOf: the flags of the message, or none it does not have.
func (k *shown) flagsOf(e *Engine, st *State, x *Expr, of string) bool {
	x = x.strip()
	if k.part(x, "Flags", of) {
		return true
	}
	// what is known about one of the flags: 1 set, 0 not set, -1 unknown
	known := func(bit int64) int {
		out := -1
		for b, v := range st.bf {
			if b.k != KBin || b.s != "==" {
				continue
			}
			n, y := constSide(b.a[0], b.a[1])
			if n == nil || !n.isInt {
				continue
			}
			y = y.strip()
			switch {
			case k.part(y, "Flags", of):
				if v {
					out = b2i(n.n == bit)
				} else if n.n == bit {
					out = 0
				}
			case y.k == KBin && y.s == "&":
				m, z := constSide(y.a[0], y.a[1])
				if m == nil || m.n != bit || !k.part(z, "Flags", of) {
					continue
				}
				if n.n == 0 {
					out = 1 - b2i(v)
				} else if n.n == bit {
					out = b2i(v)
				}
			}
		}
		return out
	}
	end, key := known(1), known(4)
	trace("C41 flags %v %d %d", x, end, key)
	switch {
	case x.k == KConst && x.isInt && x.n == 0:
		return end == 0 && key == 0
	case x.k == KConst && x.isInt && x.n == 4:
		return key == 1
	case x.k == KConst && x.isInt && x.n == 1, strings.HasSuffix(x.String(), ".EndSessionFlag"):
		return end == 1
	}
	return false
}

func (k *shown) groupOf(e *Engine, st *State, x *Expr, of string) bool {
	x = x.strip()
	if x.isNil() {
		return k.absent(e, st, "GroupV2", of)
	}
	b := bare(x)
	trace("C41 group %v", b)
	if b.k != KCall {
		return false
	}
	for _, a := range b.a {
		if k.dataMessage(a, of) || k.part(a, "GroupV2", of) || e.it.contains(a, func(y *Expr) bool {
			v := varOf(y)
			return v != nil && v.Name() == "MasterKey" && k.part(bareLoad(y).a[0], "GroupV2", of)
		}) {
			return true
		}
	}
	return false
}

// elements: the instruction takes an element of one of the lists in a message.
func (k *shown) element(in ssa.Instruction) (string, *ssa.IndexAddr) {
	u, ok := in.(*ssa.UnOp)
	if !ok || u.Op.String() != "*" {
		return "", nil
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return "", nil
	}
	if _, ok := ia.X.Type().Underlying().(*types.Slice); !ok {
		return "", nil
	}
	switch t := u.Type().Underlying().(type) {
	case *types.Basic:
		if t.Kind() == types.Uint64 && k.r.rel[in.Parent()] {
			return "receipts", ia
		}
	case *types.Pointer:
		if namedIs(t.Elem(), Mod+"/protobuf", "AttachmentPointer") {
			return "attachments", ia
		}
		if namedIs(t.Elem(), Mod+"/protobuf", "SyncMessage_Read") {
			return "reads", ia
		}
	}
	return "", nil
}

// shortRange: the loop visibly leaves out elements of the list.
func shortRange(l *loop, ia *ssa.IndexAddr) string {
	if sl, ok := ia.X.(*ssa.Slice); ok && (sl.Low != nil || sl.High != nil) {
		return "a part of the list only is gone through"
	}
	isLen := func(v ssa.Value) bool {
		cl, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := cl.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len"
	}
	num := func(v ssa.Value) (int64, bool) {
		if kk, ok := v.(*ssa.Const); ok && kk.Value != nil {
			if b, ok := kk.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return kk.Int64(), true
			}
		}
		return 0, false
	}
	phi, off := (*ssa.Phi)(nil), int64(0)
	switch x := ia.Index.(type) {
	case *ssa.Phi:
		phi = x
	case *ssa.BinOp:
		if n, ok := num(x.Y); ok && x.Op.String() == "+" {
			phi, _ = x.X.(*ssa.Phi)
			off = n
		}
	case *ssa.Const:
		if list, ok := ia.X.(*ssa.Phi); ok && l.in[list.Block()] {
			// the list is consumed
			return ""
		}
		return "only one element of the list is taken"
	}
	if phi == nil || phi.Block() != l.head {
		return ""
	}
	for i, v := range phi.Edges {
		from := phi.Block().Preds[i]
		if l.in[from] {
			if b, ok := v.(*ssa.BinOp); ok && b.X == phi {
				if n, ok := num(b.Y); ok && n != 1 {
					return "elements of the list are stepped over"
				}
			}
			continue
		}
		if n, ok := num(v); ok && n+off > 0 {
			return "the loop does not begin with the first element of the list"
		}
	}
	if f, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If); ok {
		if b, ok := f.Cond.(*ssa.BinOp); ok {
			for _, s := range []ssa.Value{b.X, b.Y} {
				if d, ok := s.(*ssa.BinOp); ok && d.Op.String() == "-" && isLen(d.X) {
					return "the loop ends before the last element of the list"
				}
			}
		}
	}
	return ""
}

// lists: nothing in the lists of a message is left out or mixed up.
func (k *shown) lists() {
	c := k.c
	found := map[string]bool{}
	for _, f := range c.sortedFuncs() {
		if c.p.isGen(f.Pos()) || inCmd(f) || f.Pkg == nil {
			continue
		}
		kinds, made := map[string]bool{}, false // what is made here is to be sent
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && namedIs(derefT(a.Type()), Mod+"/protobuf", "AttachmentPointer") {
					made = true
				}
				if n, _ := k.element(in); n != "" {
					kinds[n] = true
				}
			}
		}
		for _, n := range []string{"attachments", "receipts", "reads"} {
			if kinds[n] && !(made && n == "attachments") {
				found[n] = true
				k.each(f, n)
			}
		}
	}
	for _, n := range []string{"attachments", "receipts", "reads"} {
		c.ob(n, "found", 0, found[n], "nothing goes through the "+n+" in a message")
	}
}

func (k *shown) each(f *ssa.Function, kind string) {
	c := k.c
	key := kind + "|" + fnName(f)
	res := &rootResult{inst: map[string]instRes{}}
	loops := loopsOf(f)
	around := func(b *ssa.BasicBlock) *loop {
		var hit *loop
		for _, l := range loops {
			if l.in[b] && (hit == nil || len(hit.in) > len(l.in)) {
				hit = l
			}
		}
		return hit
	}
	var over *loop
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			n, ia := k.element(in)
			if n != kind {
				continue
			}
			res.put(key, in.Pos(), f, true, "", "")
			l := around(b)
			if l == nil {
				res.put(key, in.Pos(), f, false, "only one element of the list is taken", "")
				continue
			}
			over = l
			if why := shortRange(l, ia); why != "" {
				res.put(key, in.Pos(), f, false, why, "")
			}
		}
	}
	var e *Engine
	taken := func(st *State, done func(x *Expr) bool) {
		var keep []*Event
		for _, ev := range st.ev {
			if ev.Kind == "sh.taken" && done(ev.Args[0]) {
				continue
			}
			keep = append(keep, ev)
		}
		st.ev = keep
	}
	settle := func(st *State) {
		for _, ev := range st.events("sh.put") {
			if ev.Err == nil || st.isNil(ev.Err) == 1 {
				taken(st, func(x *Expr) bool { return e.fromExpr(ev.Res, x) })
			}
		}
		if kind == "receipts" && has(st, "unset", "ReceiptMessageHandler") || kind == "reads" && has(st, "unset", "SyncReadHandler") {
			taken(st, func(x *Expr) bool { return true })
		}
	}
	h := k.r.hooks(&e, func(st *State, ci *CallInfo) Action {
		switch n := k.r.callback(ci); {
		case kind == "receipts" && n == "ReceiptMessageHandler" && len(ci.Args) > 0:
			m, v := ci.Args[len(ci.Args)-1], k.msg["Timestamp"]
			x := e.read(st, e.fieldAddr(m, v, k.idx["Timestamp"]), v.Type()).strip()
			taken(st, func(y *Expr) bool { return y == x })
			k.receiptLabel(e, st, ci, res)
		case kind == "reads" && n == "SyncReadHandler" && len(ci.Args) >= 2:
			a := ci.Args[len(ci.Args)-2:]
			taken(st, func(y *Expr) bool {
				for i, w := range []string{"SenderUuid", "Timestamp"} {
					x := bareLoad(a[i])
					if v := varOf(x); v == nil || v.Name() != w || x.a[0].strip() != y {
						return false
					}
				}
				return true
			})
		}
		return Default
	})
	h.Instr = func(st *State, fr *Frame, in ssa.Instruction) {
		if n, _ := k.element(in); fr.fn != f || n != kind {
			return
		}
		settle(st)
		u := in.(*ssa.UnOp)
		at := e.val(fr, st, u.X).strip()
		v := e.read(st, at, u.Type()).strip()
		for _, ev := range st.events("sh.taken") {
			if ev.Args[0] == v {
				return
			}
		}
		trace("C41 take %v at %v", v, at)
		st.record(Event{Kind: "sh.taken", Args: []*Expr{v}, Res: v, Vals: []*Expr{at}, Pos: in.Pos(), Fn: f})
	}
	h.Store = func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
		if kind != "attachments" || fr.fn != f || !namedIs(derefT(val.t), Mod, "Attachment") {
			return
		}
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		ia, ok := s.Addr.(*ssa.IndexAddr)
		if !ok {
			return
		}
		val = val.strip()
		ev := Event{Kind: "sh.put", Args: []*Expr{val}, Res: val, Pos: in.Pos(), Fn: f}
		if cl := bare(val); cl.k == KCall && val.k == KExtract {
			ev.Err = e.result(cl, 1, 2, errT(val.t, 1))
		}
		if _, ok := ia.X.Type().Underlying().(*types.Slice); ok {
			for _, t := range st.events("sh.taken") {
				if !e.fromExpr(val, t.Args[0]) {
					continue
				}
				i, at := e.val(fr, st, ia.Index).strip(), t.Vals[0]
				trace("C41 put %v at %v", i, at)
				if at.k == KIndexAddr && at.a[1].strip() != i {
					res.put(key, in.Pos(), f, false, "an attachment is put in the place of another one", "")
				}
			}
		}
		st.record(ev)
		settle(st)
	}
	br := h.Branch
	h.Branch = func(st *State, fr *Frame, in *ssa.If, cond *Expr, val bool) {
		br(st, fr, in, cond, val)
		settle(st)
		if fr.fn != f || over == nil || in.Block() == over.head || !over.in[in.Block()] {
			return
		}
		if to := in.Block().Succs[1-b2i(val)]; !over.in[to] {
			st.recordSet(Event{Kind: "sh.left"})
		}
	}
	h.Inline = func(fn *ssa.Function, ci *CallInfo) (bool, bool) {
		return true, !c.p.isGen(fn.Pos()) && k.tells(fn)
	}
	e = newEngine(c.p, h)
	k.r.e = e
	e.relevant = k.r.rel
	e.capStates, e.capExits = 24, 16
	for _, x := range e.okExits(f, e.Run(f)) {
		settle(x.st)
		res.put(key, x.pos, f, len(x.st.events("sh.taken")) == 0, "one of the "+kind+" in a message is left out", "")
		res.put(key, x.pos, f, len(x.st.events("sh.left")) == 0, "not all of the "+kind+" in a message are looked at", "")
	}
	c.useBounded(e)
	c.shownReport(res)
}

// attachments: a file is what its pointer points to.
func (k *shown) attachments() {
	c := k.c
	part := c.structFields("/protobuf", "AttachmentPointer")
	n := 0
	for _, f := range c.sortedFuncs() {
		if c.p.isGen(f.Pos()) || inCmd(f) || f.Pkg == nil || f.Pkg.Pkg.Path() != Mod {
			continue
		}
		makes, reads := false, false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Alloc:
					makes = makes || namedIs(derefT(in.Type()), Mod, "Attachment")
				case *ssa.FieldAddr:
					reads = reads || part[fieldOf(in.X.Type(), in.Field)] == "Key"
				}
			}
		}
		if !makes || !reads {
			continue
		}
		n++
		k.file(f, part)
	}
	c.ob("file", "found", 0, n > 0, "no function makes a file from an attachment pointer")
}

func (k *shown) file(f *ssa.Function, part map[*types.Var]string) {
	c := k.c
	res := &rootResult{inst: map[string]instRes{}}
	var e *Engine
	is := func(x *Expr, w string) bool {
		x = bareLoad(x)
		if x.k == KCall && strings.HasSuffix(x.s, "AttachmentPointer.Get"+w) {
			return true
		}
		v := varOf(x)
		return v != nil && (part[v] == w || v.Name() == w && strings.HasPrefix(c.p.fieldOwner(v), Mod+"/protobuf.AttachmentPointer_"))
	}
	uses := func(x *Expr, w string) bool {
		return e.it.contains(x, func(y *Expr) bool { return is(y, w) })
	}
	e = newEngine(c.p, Hooks{
		Call: func(st *State, ci *CallInfo) Action {
			switch ci.Name {
			case "net/http.NewRequest", "net/http.NewRequestWithContext":
				k.filePlace(e, st, ci.Args[len(ci.Args)-2], is, uses, func(what string, ok bool, detail string) {
					res.put("file|"+what+" in "+fnName(f), ci.Pos(), ci.In, ok, detail, c.p.ctxPath(ci.Ctx))
				})
			case "crypto/aes.NewCipher":
				st.record(Event{Kind: "sh.key", Args: ci.Args[:1], Res: ci.Args[0], Pos: ci.Pos(), Fn: ci.In})
			case "crypto/hmac.New":
				st.record(Event{Kind: "sh.key", Args: ci.Args[1:2], Res: ci.Args[1], Pos: ci.Pos(), Fn: ci.In})
			}
			return Default
		},
		Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) {
			s := fn.Signature
			for i := 0; i < s.Params().Len(); i++ {
				if _, ok := s.Params().At(i).Type().Underlying().(*types.Basic); !ok {
					return false, false
				}
			}
			if s.Results().Len() > 0 {
				if b, ok := s.Results().At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String && c.p.inModFn(fn) {
					return true, true
				}
			}
			return false, false
		},
	})
	e.capStates, e.capExits = 48, 32
	for _, x := range e.okExits(f, e.Run(f)) {
		st := x.st
		a := x.rets[0].strip()
		s, ok := derefT(a.t).Underlying().(*types.Struct)
		if !ok || a.isNil() {
			continue
		}
		put := func(what string, ok bool, detail string) {
			res.put("file|"+what+" in "+fnName(f), x.pos, f, ok, detail, "")
		}
		for i := 0; i < s.NumFields(); i++ {
			fv := s.Field(i)
			v := e.read(st, e.fieldAddr(a, fv, i), fv.Type())
			trace("C41 file %s %v", fv.Name(), v)
			switch fv.Name() {
			case "MimeType":
				put("type", is(v, "ContentType"), "the type of a file is not that its sender gave it")
			case "FileName":
				put("name", is(v, "FileName"), "the name of a file is not that its sender gave it")
			case "R":
				k.fileContent(e, st, v, is, uses, put)
			}
		}
		for _, ev := range st.events("sh.key") {
			put("key", uses(ev.Args[0], "Key"), "a file is opened with another key than that of its pointer")
		}
	}
	c.useBounded(e)
	c.shownReport(res)
}

// knownOf: what is known of a number in a pointer.
func knownOf(st *State, is func(x *Expr, w string) bool, w string, n int64) int {
	for q, v := range st.bf {
		// an order against a constant leaves no or only one value
		for i := 0; q.k == KBin && len(q.a) == 2 && i < 2; i++ {
			if y := q.a[i]; is(y, w) {
				if lo, hi := st.interval(lin{c: map[*Expr]int64{y.strip(): 1}}); lo == hi && lo == n {
					return 1
				} else if n < lo || n > hi {
					return 0
				}
			}
		}
		if q.k != KBin || q.s != "==" {
			continue
		}
		if cst, y := constSide(q.a[0], q.a[1]); cst != nil && cst.isInt && is(y, w) {
			if cst.n == n {
				return b2i(v)
			}
			if v {
				return 0
			}
		}
	}
	return -1
}

// filePlace: where a file is downloaded from.
func (k *shown) filePlace(e *Engine, st *State, url *Expr, is, uses func(x *Expr, w string) bool, put func(what string, ok bool, detail string)) {
	known := func(w string, n int64) int { return knownOf(st, is, w, n) }
	byID, byKey := uses(url, "CdnId"), uses(url, "CdnKey")
	switch {
	case byID && byKey || !byID && !byKey:
		put("place", false, "a file is not downloaded from the place its pointer names")
	case byID:
		put("place", known("CdnId", 0) == 0, "a file is downloaded by an id that its pointer may not have")
	default:
		put("place", known("CdnId", 0) == 1, "a file is downloaded by a key although its pointer has an id")
	}
	second := e.it.contains(url, func(y *Expr) bool {
		return y.k == KGlobal && strings.Contains(strings.ToUpper(y.s), "CDN2") || y.k == KConst && strings.Contains(y.s, "cdn2")
	})
	put("host", known("CdnNumber", 2) == b2i(second), "a file is not downloaded from the host its pointer names")
}

// fileContent: what a file is read from.
func (k *shown) fileContent(e *Engine, st *State, r *Expr, is, uses func(x *Expr, w string) bool, put func(what string, ok bool, detail string)) {
	// the part of what was downloaded
	cl := bare(r)
	if cl.k == KIface {
		cl = bare(cl.a[0])
	}
	if cl.k != KCall || len(cl.a) == 0 {
		put("content", false, "the content of a file is not what was downloaded")
		return
	}
	b := cl.a[len(cl.a)-1].strip()
	// where it was downloaded from
	from := e.it.contains(b, func(y *Expr) bool { return y.k == KCall && strings.HasPrefix(y.s, "net/http.NewRequest") })
	put("content", from, "the content of a file is not what was downloaded")
	// padding
	short := b.k == KSlice && b.a[2] != nil && is(b.a[2], "Size")
	if !short {
		short = knownOf(st, is, "Size", 0) == 1
		for q, v := range st.bf {
			if short || q.k != KBin || len(q.a) != 2 || !uses(q, "Size") {
				continue
			}
			for i := 0; i < 2 && !short; i++ {
				if !is(q.a[i], "Size") {
					continue
				}
				if st.provedLE0(e.lenLin(b).add(e.linOf(q.a[i]), -1)) {
					short = true
					continue
				}
				n := q.a[1-i].strip()
				for n.k == KUn && len(n.a) == 1 {
					n = n.a[0].strip()
				}
				if d, ok := constLin(e.lenLin(b).add(e.linOf(n), -1)); !ok || d != 0 {
					continue
				}
				// length and size were compared
				switch {
				case i == 0 && (q.s == "<" || q.s == "<="):
					short = !v
				case i == 1 && (q.s == "<" || q.s == "<="), q.s == "==":
					short = v
				}
			}
		}
	}
	for _, bd := range st.bd {
		for y := range bd.l.c {
			short = short || is(y, "Size") && st.provedLE0(e.lenLin(b).add(e.linOf(y), -1))
		}
	}
	for y := b; y.k == KSlice; y = y.a[0].strip() {
		if y.a[1] != nil && y.a[1].strip().k != KConst {
			short = false
		}
	}
	put("padding", short, "a file may end with the padding of its sender")
}

// words by which the application tells the parts of a call apart
var callWords = map[string]string{"Offer": "offer", "Answer": "answer", "Busy": "busy", "Hangup": "hangup", "LegacyHangup": "hangup"}

// calls: a call message is shown as what it is.
func (k *shown) calls() {
	c := k.c
	part := c.structFields("/protobuf", "CallMessage")
	takes := func(f *ssa.Function) bool {
		for _, p := range f.Params {
			if namedIs(derefT(p.Type()), Mod+"/protobuf", "CallMessage") {
				return k.r.rel[f] && !c.p.isGen(f.Pos())
			}
		}
		return false
	}
	n := 0
	for _, f := range c.sortedFuncs() {
		if !takes(f) {
			continue
		}
		lowest := true
		for g := range c.p.reachableFrom(f) {
			lowest = lowest && (g == f || !takes(g))
		}
		if !lowest {
			continue
		}
		n++
		res := &rootResult{inst: map[string]instRes{}}
		var e *Engine
		h := k.r.hooks(&e, func(st *State, ci *CallInfo) Action {
			cb := k.r.callback(ci)
			if cb != "CallMessageHandler" && cb != "MessageHandler" || len(ci.Args) == 0 {
				return Default
			}
			m, v := ci.Args[len(ci.Args)-1], k.msg["Message"]
			x := e.read(st, e.fieldAddr(m, v, k.idx["Message"]), v.Type()).strip()
			trace("C41 call %v", x)
			label, known := e.text(x)
			if !known {
				return Default
			}
			have := map[string]int{}
			for y, isnil := range st.nf {
				if w := part[varOf(y)]; w != "" && callWords[w] != "" {
					have[w] = 1 - b2i(isnil)
				}
			}
			ok, any := true, false
			for _, h := range have {
				any = any || h == 1
			}
			for w, word := range callWords {
				if _, seen := have[w]; !seen && !any {
					ok = false // not even looked for
				}
				in := strings.Contains(strings.ToLower(label), word)
				if h, seen := have[w]; seen && h == 1 && !in {
					ok = false
				}
				if in {
					one := false
					for w2, word2 := range callWords {
						one = one || word2 == word && have[w2] == 1
					}
					ok = ok && one
				}
			}
			res.put("label|"+cb, ci.Pos(), ci.In, ok, "a call message is shown as another kind of call message than it is", c.p.ctxPath(ci.Ctx))
			return Default
		})
		h.Inline = func(fn *ssa.Function, ci *CallInfo) (bool, bool) {
			return true, !c.p.isGen(fn.Pos()) && k.tells(fn)
		}
		e = newEngine(c.p, h)
		k.r.e = e
		e.relevant = k.r.rel
		e.capStates, e.capExits = 256, 256
		e.Run(f)
		c.useBounded(e)
		c.shownReport(res)
	}
	c.ob("label", "found", 0, n > 0, "no function handles call messages")
}

// text: the text a term stands for.
func (e *Engine) text(x *Expr) (string, bool) {
	x = x.strip()
	switch {
	case x.k == KConst && !x.isInt:
		return strings.Trim(x.s, `"`), true
	case x.k == KBin && x.s == "+":
		a, ok := e.text(x.a[0])
		b, ok2 := e.text(x.a[1])
		return a + b, ok && ok2
	}
	return "", false
}

// receiptLabel: a receipt is shown as what it is.
func (k *shown) receiptLabel(e *Engine, st *State, ci *CallInfo, res *rootResult) {
	v := k.msg["Message"]
	x := e.read(st, e.fieldAddr(ci.Args[len(ci.Args)-1], v, k.idx["Message"]), v.Type()).strip()
	label, ok := e.text(x)
	trace("C41 receipt %v", x)
	if !ok {
		return
	}
	known := func(n int64) int {
		for q, v := range st.bf {
			if q.k != KBin || q.s != "==" {
				continue
			}
			cst, y := constSide(q.a[0], q.a[1])
			if w := varOf(orSelf(y)); cst != nil && cst.isInt && w != nil && w.Name() == "Type" && k.c.p.fieldOwner(w) == Mod+"/protobuf.ReceiptMessage" {
				if cst.n == n {
					return b2i(v)
				}
				if v {
					return 0
				}
			}
		}
		return -1
	}
	delivery, read := known(0), known(1)
	low := strings.ToLower(label)
	good := true
	switch {
	case strings.Contains(low, "delivery"):
		good = delivery == 1
	case strings.Contains(low, "read"):
		good = read == 1
	default:
		good = delivery == 0 && read == 0
		for q := range st.bf {
			// not found in a table of labels
			good = good || e.it.contains(q, func(y *Expr) bool {
				return y.k == KLookup && e.it.contains(y, func(z *Expr) bool { w := varOf(z); return w != nil && w.Name() == "Type" })
			})
		}
	}
	res.put("label|ReceiptMessageHandler", ci.Pos(), ci.In, good, "a receipt is shown as another kind of receipt than it is", k.c.p.ctxPath(ci.Ctx))
}

func orSelf(x *Expr) *Expr {
	if x == nil {
		return &Expr{k: KZero}
	}
	return x
}

// groups: the group looked up for a message is the one it names.
func (k *shown) groups() {
	c := k.c
	for _, name := range []string{"ts/groupsv2.HandleGroupsV2", "ts/groupsv2.FindGroup"} {
		f := c.anchor(name)
		if f == nil {
			continue
		}
		res := &rootResult{inst: map[string]instRes{}}
		var e *Engine
		e = newEngine(c.p, Hooks{
			After: func(st *State, ci *CallInfo, r *Expr) {
				if strings.HasSuffix(ci.Name, ".Unmarshal") && len(ci.Args) == 2 {
					trace("C41 gdec %s %v -> %v", ci.Name, ci.Args[0], ci.Args[1])
					st.record(Event{Kind: "sh.read", Args: ci.Args, Res: ci.Args[1].strip(), Pos: ci.Pos(), Fn: ci.In})
				}
			},
			Store: func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
				if addr.k == KFieldAddr && addr.obj != nil && addr.obj.Name() == "MasterKey" && namedIs(derefT(addr.a[0].t), Mod+"/groupsv2", "GroupV2") {
					b := addr.a[0].strip()
					st.record(Event{Kind: "sh.made", Args: []*Expr{b, val}, Res: b, Pos: in.Pos(), Fn: fr.fn})
				}
			},
			Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) {
				return true, namedIs(resT(fn), Mod+"/groupsv2", "GroupV2")
			},
		})
		e.capStates, e.capExits = 200, 64
		key := func(x *Expr) bool { // the key of the group the message names
			v := varOf(x)
			if v == nil || v.Name() != "MasterKey" || c.p.fieldOwner(v) != Mod+"/protobuf.GroupContextV2" {
				return false
			}
			o := varOf(bareLoad(x).a[0])
			return k.own[o] == "GroupV2"
		}
		id := func(x *Expr) bool {
			return e.it.contains(x, func(y *Expr) bool {
				if f.Params[0].Name() == y.s && y.k == KParam && len(f.Params) == 1 {
					return true
				}
				return y.k == KCall && y.s == "encoding/hex.EncodeToString" && len(y.a) > 0 && key(y.a[len(y.a)-1])
			})
		}
		for _, x := range e.okExits(f, e.Run(f)) {
			g := x.rets[0].strip()
			ok := false
			switch {
			case g.isNil() || x.st.isNil(g) == 1:
				ok = len(f.Params) == 1
				for y, v := range x.st.nf {
					ok = ok || v && k.own[varOf(y)] == "GroupV2"
				}
			case g.k == KLookup || g.k == KExtract || g.k == KIndex:
				ok = id(g)
			case g.k == KAlloc:
				for _, ev := range x.st.events("sh.made") {
					if ev.Res == g {
						ok = key(ev.Args[1].strip())
					}
				}
				for _, ev := range x.st.events("sh.read") {
					ok = ok || ev.Res == g && id(ev.Args[0])
				}
			}
			trace("C41 group exit %s %v %v", c.p.pos(x.pos), g, ok)
			res.put("group|"+name, x.pos, f, ok, "the group found for a message is not the one it names", "")
		}
		c.useBounded(e)
		c.shownReport(res)
	}
}

// resT: the type of the first result, without its pointer.
func resT(f *ssa.Function) types.Type {
	if f.Signature.Results().Len() == 0 {
		return types.Typ[types.Invalid]
	}
	return derefT(f.Signature.Results().At(0).Type())
}
