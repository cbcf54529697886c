package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&propDef{
		ID: "C40",
		Expl: "The disjunctive dataflow covers every function that puts a message for a device together, that goes through the devices or members a message is for, that repairs the list of devices, and that makes the content of a data message. entry: the content sent for a device is the ciphertext, and type and registration id those, of the session with that device. " +
			"devices, members: in a loop over devices, or over the members of a group, in which messages are encrypted or sent, every element taken must have got its entry, or its message without an error, before the next one is taken and before the function succeeds (the own account excepted); the loop may be left early only with an error. " +
			"repaired: after an answer that names missing, extra or stale devices, the message is encrypted again only after the missing devices were put into the list of that recipient, none found to be extra was kept, and the session of every stale one was deleted; recipient, content, time are passed on unchanged. " +
			"time: the time in the data message, in the request and returned to the application are one value. addressed: the sessions, the address of the request and the destination in its body are those of one recipient. told: if the answer asks for it, the other devices of the account are sent the same message, with its time and its recipient. " +
			"asked: followed from each Send function of the library to the encoding of the message, text, disappearing time, recipient and end-of-session flag are those the application gave, and all members of a group get one time.",
		Assume:  []string{"the list of devices of an account is complete when the server does not object"},
		Minimum: map[string]int{"entry": 4, "devices": 1, "members": 2, "repaired": 3, "time": 2, "addressed": 1, "told": 1},
		Run:     runC40,
	})
}

type deliver struct {
	c     *Check
	role  map[*types.Var]string // field of a request or answer -> its name there
	reach map[*ssa.Function]bool
	loops map[*ssa.Function][]*loop
}

type loop struct {
	head *ssa.BasicBlock
	in   map[*ssa.BasicBlock]bool
}

// loopsOf: the natural loops of f.
func loopsOf(f *ssa.Function) (out []*loop) {
	at := map[*ssa.BasicBlock]*loop{}
	for _, b := range f.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := at[h]
			if l == nil {
				l = &loop{head: h, in: map[*ssa.BasicBlock]bool{h: true}}
				at[h] = l
				out = append(out, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if !l.in[x] {
					l.in[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	return
}

var deliverTags = []string{"destinationDeviceId", "destinationRegistrationId", "content", "type", "missingDevices", "extraDevices", "staleDevices", "needsSync", "timestamp", "destination"}

const encryptName = axo + "SessionCipher.SessionEncryptMessage"

func runC40(c *Check) {
	k := &deliver{c: c, role: map[*types.Var]string{}, loops: map[*ssa.Function][]*loop{}}
	for _, pkg := range c.p.Pkgs {
		for _, n := range pkg.Types.Scope().Names() {
			t, ok := pkg.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			s, ok := t.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			tags := map[string]*types.Var{}
			for i := 0; i < s.NumFields(); i++ {
				for _, w := range deliverTags {
					if strings.Contains(s.Tag(i), `json:"`+w+`"`) || strings.Contains(s.Tag(i), `json:"`+w+`,`) {
						tags[w] = s.Field(i)
					}
				}
			}
			if tags["destinationDeviceId"] == nil && tags["missingDevices"] == nil && tags["staleDevices"] == nil && tags["needsSync"] == nil {
				continue
			}
			for w, v := range tags {
				k.role[v] = w
			}
		}
	}
	k.reach = c.p.reachesCall(func(cc *ssa.CallCommon) bool { return calleeName(cc) == encryptName })
	for f := range k.reach {
		if inAxo(f) || inCmd(f) {
			delete(k.reach, f)
		}
	}
	k.entries()
	k.recipients()
	k.repaired()
	k.message()
	k.asked()
}

func inAxo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), axoPath)
}

func (k *deliver) sends(in ssa.Instruction) bool {
	cc := callOf(in)
	if cc == nil {
		return false
	}
	if calleeName(cc) == encryptName {
		return true
	}
	for _, t := range k.c.p.targets(cc) {
		if k.reach[t] {
			return true
		}
	}
	return false
}

// around: the innermost loop around the block in which messages are sent.
func (k *deliver) around(b *ssa.BasicBlock) *loop {
	f := b.Parent()
	if k.loops[f] == nil {
		k.loops[f] = loopsOf(f)
	}
	var hit *loop
	for _, l := range k.loops[f] {
		if l.in[b] && (hit == nil || len(hit.in) > len(l.in)) {
			hit = l
		}
	}
	if hit != nil {
		for x := range hit.in {
			for _, in := range x.Instrs {
				if k.sends(in) {
					return hit
				}
			}
		}
	}
	return nil
}

// element: the instruction takes an element of a list of devices or members.
func (k *deliver) element(in ssa.Instruction) (kind string) {
	u, ok := in.(*ssa.UnOp)
	if !ok || u.Op.String() != "*" {
		return ""
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return ""
	}
	switch t := u.Type().Underlying().(type) {
	case *types.Basic:
		if t.Kind() == types.Uint32 {
			kind = "devices"
		} else if t.Kind() == types.String && k.membersList(ia.X) {
			kind = "members"
		}
	case *types.Pointer:
		if namedIs(t.Elem(), Mod+"/protobuf", "DecryptedMember") {
			kind = "members"
		}
	}
	if kind == "" || k.around(in.Block()) == nil {
		return ""
	}
	return kind
}

func (k *deliver) elementIn(l *loop, kind string) bool {
	for b := range l.in {
		for _, in := range b.Instrs {
			if k.element(in) == kind {
				return true
			}
		}
	}
	return false
}

// membersList: the list is the members of a (legacy) group.
func (k *deliver) membersList(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.UnOp:
			return walk(x.X)
		case *ssa.FieldAddr:
			f := fieldOf(x.X.Type(), x.Field)
			return f != nil && f.Name() == "Members" && k.c.p.fieldOwner(f) == Mod+".Group"
		case *ssa.Phi:
			for _, e := range x.Edges {
				if walk(e) {
					return true
				}
			}
		case *ssa.Slice:
			return walk(x.X)
		case *ssa.Parameter:
			return len(v.Name()) > 0 && false
		}
		return false
	}
	return walk(v)
}

// cipher: recipient and device of a session cipher.
func (e *Engine) cipherOf(x *Expr) (name, dev *Expr) {
	e.it.contains(x, func(y *Expr) bool {
		if y.k == KCall && y.s == axo+"NewSessionCipher" && len(y.a) == 6 {
			name, dev = y.a[4].strip(), y.a[5].strip()
			return true
		}
		return false
	})
	return
}

func (e *Engine) encryptedIn(x *Expr, part int64) *Expr {
	var enc *Expr
	e.it.contains(x, func(y *Expr) bool {
		if y.k == KExtract && y.n == part && y.a[0].k == KCall && y.a[0].s == encryptName {
			enc = y.a[0]
			return true
		}
		return false
	})
	return enc
}

func cipherCalls(n string) bool {
	return n == axo+"NewSessionCipher" || n == encryptName || n == axo+"SessionCipher.GetRemoteRegistrationID" ||
		n == axo+"SessionBuilder.BuildSenderSession" || n == axo+"NewSessionBuilder" || strings.HasSuffix(n, "axolotl.NewPreKeyBundle")
}

func (k *deliver) isEntryStore(in ssa.Instruction) bool {
	s, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	fa, ok := s.Addr.(*ssa.FieldAddr)
	return ok && k.entryRole(fieldOf(fa.X.Type(), fa.Field)) != ""
}

func (k *deliver) entryRole(v *types.Var) string {
	switch r := k.role[v]; r {
	case "destinationDeviceId", "destinationRegistrationId", "content", "type":
		return r
	}
	return ""
}

// entryStore judges what is put into the entry of a device.
func (k *deliver) entryStore(e *Engine, st *State, fr *Frame, in ssa.Instruction, addr, val *Expr, res *rootResult) {
	v, _ := addr.obj.(*types.Var)
	if addr.k != KFieldAddr || k.entryRole(v) == "" {
		return
	}
	role, base := k.entryRole(v), addr.a[0].strip()
	put := func(ok bool, detail string) {
		if res != nil {
			res.put("entry|"+role+" in "+fnName(fr.fn), in.Pos(), fr.fn, ok, detail, k.c.p.ctxPath(fr.ctx))
		}
	}
	get := func(r string) *Expr {
		if r == role {
			return val.strip()
		}
		s, ok := derefT(base.t).Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if k.entryRole(f) != r {
				continue
			}
			if x := e.read(st, e.fieldAddr(base, f, i), f.Type()).strip(); x.k != KZero {
				return x
			}
		}
		return nil
	}
	put(true, "")
	if c := get("content"); c != nil {
		enc := e.encryptedIn(c, 0)
		if enc == nil {
			if role == "content" {
				put(false, "what is sent for a device is not what the session encrypted")
			}
			return
		}
		name, dev := e.cipherOf(enc.a[0])
		trace("C40 entry %v %v", enc, dev)
		if dev == nil {
			return
		}
		if d := get("destinationDeviceId"); d != nil && d != dev {
			put(false, "what is sent for a device was encrypted with the session of another device")
		}
		if t := get("type"); t != nil && (e.encryptedIn(t, 1) != enc || bare(t) != enc) {
			put(false, "the type sent with a message is not that of its encryption")
		}
		if r := get("destinationRegistrationId"); r != nil {
			ok := false
			e.it.contains(r, func(y *Expr) bool {
				if y.k == KCall && y.s == axo+"SessionCipher.GetRemoteRegistrationID" {
					n2, d2 := e.cipherOf(y.a[0])
					ok = n2 == name && d2 == dev
				}
				return ok
			})
			ok = ok && bare(r).s == axo+"SessionCipher.GetRemoteRegistrationID"
			put(ok, "the registration id sent with a message is not that of its session")
		}
	}
	if d := get("destinationDeviceId"); d != nil && get("content") != nil {
		k.taken(st, func(x *Expr) bool { return x == d })
	}
}

// bare: the call a value is the result of, unchanged.
func bare(x *Expr) *Expr {
	y := x.strip()
	for y.k == KExtract || y.k == KUn && len(y.a) == 1 && y.s != "-" && y.s != "^" && y.s != "!" {
		y = y.a[0].strip()
	}
	return y
}

// taken: the pending elements that are done with.
func (k *deliver) taken(st *State, done func(x *Expr) bool) {
	var keep []*Event
	for _, ev := range st.ev {
		if ev.Kind == "dl.taken" && done(ev.Args[0]) {
			continue
		}
		keep = append(keep, ev)
	}
	st.ev = keep
}

func (k *deliver) entries() {
	c := k.c
	reach := c.p.reachesInstr(k.isEntryStore)
	// the lowest functions in which a message is encrypted and put into an entry
	both := map[*ssa.Function]bool{}
	for f := range reach {
		if k.reach[f] {
			both[f] = true
		}
	}
	var start []*ssa.Function
	for _, f := range c.sortedFuncs() {
		if !both[f] || c.p.isGen(f.Pos()) {
			continue
		}
		lowest := true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cc := callOf(in); cc != nil {
					for _, t := range c.p.targets(cc) {
						if t != f && both[t] {
							lowest = false
						}
					}
				}
			}
		}
		if lowest {
			start = append(start, f)
		}
	}
	for _, f := range start {
		var e *Engine
		res := &rootResult{inst: map[string]instRes{}}
		e = newEngine(c.p, Hooks{
			Call: func(st *State, ci *CallInfo) Action {
				if cipherCalls(ci.Name) {
					return OpaqueKeep
				}
				return Default
			},
			Store: func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
				k.entryStore(e, st, fr, in, addr, val, res)
			},
			Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) { return true, reach[fn] },
		})
		e.capStates, e.capExits = 24, 16
		e.Run(f)
		c.useBounded(e)
		k.report(res)
	}
}

func (k *deliver) report(res *rootResult) {
	for _, key := range res.order {
		i := res.inst[key]
		rule, name, _ := strings.Cut(key, "|")
		if i.ok {
			k.c.ob(rule, name, i.pos, true, "")
		} else {
			k.c.fail(rule, name, k.c.p.pos(i.pos), i.detail, i.path)
		}
	}
}

// recipients: nobody in a list of devices or members is left out.
func (k *deliver) recipients() {
	c := k.c
	direct := map[*ssa.Function]string{}
	for _, f := range c.sortedFuncs() {
		if !k.reach[f] || c.p.isGen(f.Pos()) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if n := k.element(in); n != "" {
					direct[f] = n
				}
			}
		}
	}
	entry := c.p.reachesInstr(k.isEntryStore)
	for _, f := range c.sortedFuncs() {
		kind := direct[f]
		if kind == "" {
			continue
		}
		k.pass(f, kind, entry)
	}
}

func (k *deliver) pass(f *ssa.Function, kind string, entry map[*ssa.Function]bool) {
	c := k.c
	key := kind + "|" + fnName(f)
	res := &rootResult{inst: map[string]instRes{}}
	var e *Engine
	var given []*Expr // what the call at hand was given
	settle := func(st *State) {
		// messages that were sent without an error
		for _, ev := range st.events("dl.sent") {
			if st.isNil(ev.Err) != 1 {
				continue
			}
			k.taken(st, func(x *Expr) bool {
				return e.fromAnyOf2(ev.Args, x)
			})
		}
	}
	e = newEngine(c.p, Hooks{
		Call: func(st *State, ci *CallInfo) Action {
			if cipherCalls(ci.Name) {
				return OpaqueKeep
			}
			if ci.Callee != nil && k.reach[ci.Callee] && (kind == "members" || !entry[ci.Callee]) {
				given = nil
				for _, a := range ci.Args {
					given = append(append(given, a), k.inside(e, st, a)...)
				}
				return Opaque
			}
			return Default
		},
		After: func(st *State, ci *CallInfo, r *Expr) {
			if kind == "members" && ci.Callee != nil && k.reach[ci.Callee] && !ci.Go {
				st.record(Event{Kind: "dl.sent", Name: ci.Name, Args: given, Res: r, Err: e.errOf(ci.Site, r), Pos: ci.Pos(), Fn: ci.In, Guard: true})
			}
		},
		Instr: func(st *State, fr *Frame, in ssa.Instruction) {
			if fr.fn != f || k.element(in) != kind {
				return
			}
			settle(st)
			res.put(key, f.Pos(), f, true, "", "")
			u := in.(*ssa.UnOp)
			if ia, ok := u.X.(*ssa.IndexAddr); ok {
				if l := k.around(in.Block()); l != nil && k.elementIn(l, kind) {
					why := shortRange(l, ia)
					pos := in.Pos()
					if !pos.IsValid() {
						pos = ia.X.Pos()
					}
					res.put(key, pos, f, why == "", why, "")
				}
			}
			x := e.val(fr, st, u.X)
			v := e.read(st, x.strip(), u.Type())
			for _, ev := range st.events("dl.taken") {
				if ev.Args[0] == v.strip() {
					return
				}
			}
			trace("C40 take %v", v.strip())
			st.record(Event{Kind: "dl.taken", Args: []*Expr{v.strip()}, Res: v.strip(), Pos: in.Pos(), Fn: f})
		},
		Store: func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
			if kind == "devices" {
				k.entryStore(e, st, fr, in, addr, val, nil)
			}
		},
		Branch: func(st *State, fr *Frame, in *ssa.If, cond *Expr, val bool) {
			settle(st)
			x := cond.strip()
			neg := false
			for x.k == KUn && x.s == "!" {
				x, neg = x.a[0].strip(), !neg
			}
			if kind == "members" && x.k == KBin && x.s == "==" && val != neg {
				for i := 0; i < 2; i++ {
					if v := varOf(x.a[1-i]); v != nil && (v.Name() == "Tel" || v.Name() == "UUID") && strings.HasPrefix(c.p.fieldOwner(v), Mod+"/config.") {
						k.taken(st, func(y *Expr) bool { return e.fromExpr(x.a[i], y) })
					}
				}
			}
			// left before the end
			if fr.fn != f {
				return
			}
			l := k.around(in.Block())
			if l == nil || !k.elementIn(l, kind) || in.Block() == l.head {
				return
			}
			to := in.Block().Succs[1-b2i(val)]
			if l.in[to] || !l.in[in.Block()] {
				return
			}
			length := e.it.contains(cond, func(y *Expr) bool { return y.k == KCall && y.s == "builtin.len" })
			if !length {
				st.recordSet(Event{Kind: "dl.left"})
			}
		},
		Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) { return true, entry[fn] && kind == "devices" },
	})
	e.capStates, e.capExits = 24, 16
	for _, x := range e.okExits(f, e.Run(f)) {
		settle(x.st)
		res.put(key, x.pos, f, len(x.st.events("dl.taken")) == 0, "success is reported although nothing was sent to one of them", "")
		res.put(key, x.pos, f, len(x.st.events("dl.left")) == 0, "success is reported although some of them may not have been reached", "")
	}
	c.useBounded(e)
	k.report(res)
}

// inside: the values kept in the structure an argument points to.
func (k *deliver) inside(e *Engine, st *State, a *Expr) (out []*Expr) {
	p, ok := a.t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	s, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if _, ok := f.Type().Underlying().(*types.Basic); ok {
			out = append(out, e.read(st, e.fieldAddr(a.strip(), f, i), f.Type()))
		}
	}
	return
}

// repaired: what the server said about the devices is heeded before the
// message is sent again.
func (k *deliver) repaired() {
	c := k.c
	about := c.p.reachesInstr(func(in ssa.Instruction) bool {
		fa, ok := in.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		r := k.role[fieldOf(fa.X.Type(), fa.Field)]
		return r == "missingDevices" || r == "staleDevices"
	})
	var roots []*ssa.Function
	for _, f := range c.sortedFuncs() {
		if !about[f] || !k.reach[f] || c.p.isGen(f.Pos()) {
			continue
		}
		// the lowest ones; of functions that call each other, the one that is
		// called from outside
		lowest, cycle, outside := true, false, false
		back := func(t *ssa.Function) bool { return c.p.reachableFrom(t)[f] }
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cc := callOf(in); cc != nil {
					for _, t := range c.p.targets(cc) {
						if t != f && about[t] && k.reach[t] {
							if back(t) {
								cycle = true
							} else {
								lowest = false
							}
						}
					}
				}
			}
		}
		for _, g := range c.p.callers[f] {
			outside = outside || g != f && !c.p.reachableFrom(f)[g]
		}
		if lowest && (!cycle || outside) {
			roots = append(roots, f)
		}
	}
	for _, f := range roots {
		k.repair(f, about)
	}
}

func (k *deliver) hasRole(e *Engine, x *Expr, role string) bool {
	return e.it.contains(x, func(y *Expr) bool {
		if y.k != KField && y.k != KFieldAddr {
			return false
		}
		v, _ := y.obj.(*types.Var)
		return k.role[v] == role
	})
}

func (k *deliver) repair(f *ssa.Function, about map[*ssa.Function]bool) {
	c := k.c
	res := &rootResult{inst: map[string]instRes{}}
	has := func(st *State, kind, name string) bool {
		for _, ev := range st.events(kind) {
			if ev.Name == name {
				return true
			}
		}
		return false
	}
	key := func(what string) string { return "repaired|" + what + " in " + fnName(f) }
	var e *Engine
	var params []*Expr
	e = newEngine(c.p, Hooks{
		Prepare: func(st *State, args []*Expr) { params = args },
		Call: func(st *State, ci *CallInfo) Action {
			if ci.Callee == nil || !k.reach[ci.Callee] {
				return Default
			}
			if about[ci.Callee] && ci.Callee != f {
				return Default
			}
			if !has(st, "dl.status", "409") && !has(st, "dl.status", "410") {
				return Opaque
			}
			path := c.p.ctxPath(ci.Ctx)
			if has(st, "dl.status", "409") {
				listed := false
				for _, ev := range st.events("dl.listed") {
					listed = listed || e.fromAnyOf(ev.Args[0], params)
				}
				res.put(key("missing"), ci.Pos(), ci.In, listed, "the message is sent again although the missing devices were not put into the recipient's list", path)
				res.put(key("extra"), ci.Pos(), ci.In, true, "", path)
			}
			if has(st, "dl.status", "410") {
				res.put(key("stale"), ci.Pos(), ci.In, has(st, "dl.looked", "staleDevices") && len(st.events("dl.stale")) == 0 && len(st.events("dl.more")) == 0 && (len(st.events("dl.some")) == 0 || len(st.events("dl.deleted")) > 0), "the message is sent again although the session of a stale device was not deleted", path)
			}
			if ci.Callee == f {
				for i, a := range ci.Args {
					if _, ok := f.Params[i].Type().Underlying().(*types.Basic); ok && f.Params[i].Type().Underlying().(*types.Basic).Kind() != types.String {
						continue
					}
					if st.isNil(params[i]) == 1 {
						continue
					}
					res.put(key("same"), ci.Pos(), ci.In, e.fromExpr(a, params[i]), "what is sent again is not what was sent before ("+f.Params[i].Name()+")", path)
				}
			}
			return Opaque
		},
		After: func(st *State, ci *CallInfo, r *Expr) {
			switch {
			case strings.HasSuffix(ci.Name, ".DeleteSession") && len(ci.Args) >= 2:
				dev, name := ci.Args[len(ci.Args)-1].strip(), ci.Args[len(ci.Args)-2]
				if k.hasRole(e, dev, "staleDevices") && e.fromAnyOf(name, params) {
					st.recordSet(Event{Kind: "dl.deleted"})
				}
				var keep []*Event
				for _, ev := range st.ev {
					if ev.Kind == "dl.stale" && ev.Args[0] == dev && e.fromAnyOf(name, params) {
						continue
					}
					keep = append(keep, ev)
				}
				st.ev = keep
			case strings.HasSuffix(ci.Name, ".DeleteAllSessions"):
				st.recordSet(Event{Kind: "dl.deleted"})
				var keep []*Event
				for _, ev := range st.ev {
					if ev.Kind != "dl.stale" {
						keep = append(keep, ev)
					}
				}
				st.ev = keep
			case ci.Name == "builtin.append" && len(ci.Args) == 2:
				for _, a := range e.variadic(st, ci.Args[1]) {
					for _, ev := range st.events("dl.extra") {
						res.put(key("extra"), ci.Pos(), ci.In, ev.Args[0] != a.strip(), "a device the server does not know is kept in the list", c.p.ctxPath(ci.Ctx))
					}
				}
			}
		},
		Instr: func(st *State, fr *Frame, in ssa.Instruction) {
			u, ok := in.(*ssa.UnOp)
			if !ok || u.Op.String() != "*" {
				return
			}
			ia, ok := u.X.(*ssa.IndexAddr)
			if !ok {
				return
			}
			if l := e.val(fr, st, ia.X); !k.hasRole(e, l, "staleDevices") {
				return
			}
			res.put(key("stale"), in.Pos(), fr.fn, len(st.events("dl.stale")) == 0, "the session of a stale device is not deleted", c.p.ctxPath(fr.ctx))
			v := e.read(st, e.val(fr, st, u.X).strip(), u.Type()).strip()
			for _, ev := range st.events("dl.stale") {
				if ev.Args[0] == v {
					return
				}
			}
			st.record(Event{Kind: "dl.stale", Args: []*Expr{v}, Pos: in.Pos(), Fn: fr.fn})
		},
		Store: func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
			if _, ok := in.(*ssa.MapUpdate); !ok || !isUint32s(val.t) && !isUint32s(in.(*ssa.MapUpdate).Value.Type()) {
				return
			}
			if k.hasRole(e, val, "missingDevices") || has(st, "dl.looked", "missingDevices") {
				st.recordSet(Event{Kind: "dl.listed", Args: []*Expr{addr.a[1]}, Pos: in.Pos(), Fn: fr.fn})
			}
		},
		Branch: func(st *State, fr *Frame, in *ssa.If, cond *Expr, val bool) {
			x := cond.strip()
			for x.k == KUn && x.s == "!" {
				x, val = x.a[0].strip(), !val
			}
			if lt := x.k == KBin && x.s == "<"; (lt || x.k == KBin && x.s == ">=") && k.hasRole(e, x.a[1], "staleDevices") {
				var keep []*Event
				for _, ev := range st.ev {
					if ev.Kind != "dl.more" {
						keep = append(keep, ev)
					}
				}
				st.ev = keep
				if lt == val {
					st.recordSet(Event{Kind: "dl.more"})
					st.recordSet(Event{Kind: "dl.some"})
				}
			}
			for _, r := range []string{"staleDevices", "missingDevices"} {
				if k.hasRole(e, x, r) {
					st.recordSet(Event{Kind: "dl.looked", Name: r})
				}
			}
			if x.k != KBin {
				return
			}
			if x.s == "!=" {
				val = !val
			} else if x.s != "==" {
				return
			}
			for i := 0; i < 2 && val; i++ {
				a, b := x.a[i].strip(), x.a[1-i].strip()
				if b.isInt && (b.n == 409 || b.n == 410) {
					st.recordSet(Event{Kind: "dl.status", Name: map[int64]string{409: "409", 410: "410"}[b.n]})
				}
				if k.hasRole(e, b, "extraDevices") && !k.hasRole(e, a, "extraDevices") {
					st.record(Event{Kind: "dl.extra", Args: []*Expr{a}, Res: a})
				}
			}
		},
		Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) { return true, about[fn] },
	})
	e.Run(f)
	c.useBounded(e)
	k.report(res)
	// the extra devices are used for something
	used := false
	for g := range c.p.reachableFrom(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if ok && k.role[fieldOf(fa.X.Type(), fa.Field)] == "extraDevices" {
					used = true
				}
			}
		}
	}
	c.ob("repaired", "extra devices looked at in "+fnName(f), f.Pos(), used, "the extra devices the server names are not looked at")
}

func isUint32s(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint32
}

func (e *Engine) fromAnyOf2(xs []*Expr, y *Expr) bool {
	for _, x := range xs {
		if e.fromExpr(x, y) {
			return true
		}
	}
	return false
}

func (e *Engine) fromAnyOf(x *Expr, ys []*Expr) bool {
	for _, y := range ys {
		if e.fromExpr(x, y) {
			return true
		}
	}
	return false
}

// bodyRole: the meaning of a field of the body of the request.
func bodyRole(t types.Type, v *types.Var) string {
	if t == nil || v == nil {
		return ""
	}
	s, ok := derefT(t).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	role, body := "", false
	for i := 0; i < s.NumFields(); i++ {
		tag := s.Tag(i)
		body = body || strings.Contains(tag, `json:"messages`)
		for _, w := range []string{"timestamp", "destination"} {
			if s.Field(i) == v && strings.Contains(tag, `json:"`+w) {
				role = w
			}
		}
	}
	if !body {
		return ""
	}
	return role
}

// message: one data message, its request, and what the user's other devices
// are told.
func (k *deliver) message() {
	c := k.c
	marshal := func(cc *ssa.CallCommon) bool {
		if !strings.HasSuffix(calleeName(cc), "proto.Marshal") || len(cc.Args) != 1 {
			return false
		}
		mi, ok := cc.Args[0].(*ssa.MakeInterface)
		return ok && namedIs(derefT(mi.X.Type()), Mod+"/protobuf", "Content")
	}
	contents := c.p.reachesCall(marshal)
	for _, f := range c.startsWith(func(in ssa.Instruction) bool { cc := callOf(in); return cc != nil && marshal(cc) }, func(f *ssa.Function) bool { return k.reach[f] }) {
		k.sent(f, contents)
	}
}

func (k *deliver) sent(f *ssa.Function, contents map[*ssa.Function]bool) {
	c := k.c
	res := &rootResult{inst: map[string]instRes{}}
	var e *Engine
	entry := c.p.reachesInstr(k.isEntryStore)
	put := c.p.reachesCall(func(cc *ssa.CallCommon) bool { return strings.HasSuffix(calleeName(cc), ".PutJSON") })
	in := " in " + fnName(f)
	first := func(st *State, kind string) *Event {
		if l := st.events(kind); len(l) > 0 {
			return l[0]
		}
		return nil
	}
	sub := func(st *State, p *Expr, typ, field string) *Expr {
		t := c.typeOf("protobuf." + typ)
		v, i := fieldNamed(t, field)
		if v == nil || p == nil {
			return nil
		}
		return e.read(st, e.fieldAddr(p.strip(), v, i), v.Type())
	}
	deref := func(st *State, p *Expr) *Expr {
		if p == nil || p.t == nil {
			return p
		}
		if pt, ok := p.t.Underlying().(*types.Pointer); ok {
			return e.read(st, p.strip(), pt.Elem()).strip()
		}
		return p.strip()
	}
	e = newEngine(c.p, Hooks{
		Call: func(st *State, ci *CallInfo) Action {
			if m := first(st, "dl.msg"); m != nil && st.isNil(m.Args[2]) == 1 {
				return Prune // it always has a time: rule time|set
			}
			switch {
			case cipherCalls(ci.Name):
				return OpaqueKeep
			case strings.HasSuffix(ci.Name, "proto.Marshal"):
				return OpaqueKeep
			case ci.Callee != nil && k.reach[ci.Callee] && first(st, "dl.put") != nil && !contents[ci.Callee]:
				if ci.Ctx.onStack(ci.Callee) {
					return Prune // sent again: judged as what is sent first
				}
				return OpaqueKeep
			case ci.Callee != nil && entry[ci.Callee] && !put[ci.Callee]:
				if first(st, "dl.put") == nil {
					var to []*Expr
					for i, a := range ci.Args {
						if b, ok := ci.Callee.Params[i].Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
							to = append(to, a)
						}
					}
					st.recordSet(Event{Kind: "dl.session", Args: to})
				}
				return OpaqueKeep
			}
			return Default
		},
		After: func(st *State, ci *CallInfo, r *Expr) {
			switch {
			case strings.HasSuffix(ci.Name, "proto.Marshal") && len(ci.Args) == 1 && namedIs(derefT(ci.Args[0].strip().t), Mod+"/protobuf", "Content"):
				con := ci.Args[0].strip()
				dm := sub(st, con, "Content", "DataMessage")
				if dm != nil && st.isNil(dm) != 1 && dm.k != KZero && first(st, "dl.msg") == nil {
					st.record(Event{Kind: "dl.msg", Args: []*Expr{dm.strip(), deref(st, sub(st, dm, "DataMessage", "Timestamp")), sub(st, dm, "DataMessage", "Timestamp")}, Res: dm, Pos: ci.Pos(), Fn: ci.In})
					return
				}
				m := first(st, "dl.msg")
				sm := sub(st, con, "Content", "SyncMessage")
				if m == nil || sm == nil || st.isNil(sm) == 1 {
					return
				}
				sent := sub(st, sm, "SyncMessage", "Sent")
				if sent == nil || st.isNil(sent) == 1 {
					return
				}
				msg := sub(st, sent, "SyncMessage_Sent", "Message")
				ts := deref(st, sub(st, sent, "SyncMessage_Sent", "Timestamp"))
				to := false
				for _, n := range []string{"DestinationUuid", "DestinationE164"} {
					p := sub(st, sent, "SyncMessage_Sent", n)
					if p == nil || st.isNil(p) == 1 || p.k == KZero {
						continue
					}
					for _, d := range append(st.events("dl.dest"), st.events("dl.session")...) {
						for _, a := range d.Args {
							to = to || deref(st, p) == a.strip()
						}
					}
				}
				trace("C40 sync %v %v %v", msg, ts, to)
				if msg != nil && msg.strip() == m.Args[0] && ts == m.Args[1] && to {
					st.recordSet(Event{Kind: "dl.sync"})
				}
			case strings.HasSuffix(ci.Name, ".PutJSON") && len(ci.Args) >= 2 && first(st, "dl.put") == nil && first(st, "dl.msg") != nil:
				st.recordSet(Event{Kind: "dl.put"})
				d := first(st, "dl.dest")
				if d == nil {
					return
				}
				ok := e.fromExpr(ci.Args[len(ci.Args)-2], d.Args[0])
				for _, s := range st.events("dl.session") {
					ok = ok && e.fromAnyOf2(s.Args, d.Args[0])
				}
				res.put("addressed|"+fnName(f), ci.Pos(), ci.In, ok, "the sessions, the address of the request and the destination in it are not those of one recipient", c.p.ctxPath(ci.Ctx))
			}
		},
		Store: func(st *State, fr *Frame, i ssa.Instruction, addr, val *Expr) {
			role := ""
			switch i.(type) {
			case *ssa.MapUpdate:
				if s := addr.a[1].strip(); s.k == KConst {
					role = strings.Trim(s.s, `"`)
				}
			default:
				v, _ := addr.obj.(*types.Var)
				if addr.k == KFieldAddr && !k.isEntryStore(i) {
					role = k.role[v]
					if role == "" {
						role = bodyRole(addr.a[0].t, v)
					}
				}
			}
			m := first(st, "dl.msg")
			if m == nil {
				return
			}
			switch role {
			case "timestamp":
				if st.isNil(m.Args[2]) == 1 || first(st, "dl.put") != nil {
					return
				}
				trace("C40 time %v %v", deref(st, val.strip()), m.Args[1])
				res.put("time|request"+in, i.Pos(), fr.fn, deref(st, val.strip()) == m.Args[1], "the server is told another time than the message carries", c.p.ctxPath(fr.ctx))
			case "destination":
				st.recordSet(Event{Kind: "dl.dest", Args: []*Expr{deref(st, val.strip())}})
			}
		},
		Branch: func(st *State, fr *Frame, i *ssa.If, cond *Expr, val bool) {
			x := cond.strip()
			for x.k == KUn && x.s == "!" {
				x, val = x.a[0].strip(), !val
			}
			if v := varOf(x); v != nil && k.role[v] == "needsSync" && val {
				st.recordSet(Event{Kind: "dl.needs"})
			}
		},
		Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) {
			return true, k.reach[fn]
		},
	})
	e.capStates, e.capExits = 24, 100
	xs := e.Run(f)
	for _, x := range e.okExits(f, xs) {
		m := first(x.st, "dl.msg")
		if m == nil {
			continue
		}
		if first(x.st, "dl.needs") != nil {
			res.put("told|"+fnName(f), x.pos, f, first(x.st, "dl.sync") != nil, "the user's other devices are not told of the message although the server asked for it", "")
		}
		if len(x.rets) > 0 && x.rets[0].t != nil {
			if b, ok := x.rets[0].t.Underlying().(*types.Basic); ok && b.Kind() == types.Uint64 {
				r := x.rets[0].strip()
				again := e.it.contains(r, func(y *Expr) bool { return y.k == KCall && strings.HasPrefix(y.s, "ts.") })
				trace("C40 ret %v", r)
				res.put("time|returned"+in, x.pos, f, r == m.Args[1] || again, "the application gets back another time than the message carries", "")
			}
		}
	}
	c.useBounded(e)
	k.report(res)
}

// sendAPI: what the application asks to be sent, and whether to a group.
var sendAPI = []struct {
	name  string
	group bool
}{
	{"SendMessage", false}, {"SendAttachment", false}, {"SendVoiceNote", false}, {"EndSession", false},
	{"SendGroupMessage", true}, {"SendGroupAttachment", true}, {"SendGroupVoiceNote", true},
}

// asked: the message is the one the application asked for.
func (k *deliver) asked() {
	c := k.c
	marshal := c.p.reachesCall(func(cc *ssa.CallCommon) bool { return k.contentMarshal(cc) })
	dm := c.p.reachesInstr(func(in ssa.Instruction) bool {
		fa, ok := in.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		f := fieldOf(fa.X.Type(), fa.Field)
		return f != nil && c.p.fieldOwner(f) == Mod+"/protobuf.DataMessage"
	})
	for _, api := range sendAPI {
		f := c.p.Fn("ts." + api.name)
		if f == nil || !marshal[f] {
			continue
		}
		k.askedOf(f, api.group, marshal, dm)
	}
}

func (k *deliver) contentMarshal(cc *ssa.CallCommon) bool {
	if !strings.HasSuffix(calleeName(cc), "proto.Marshal") || len(cc.Args) != 1 {
		return false
	}
	mi, ok := cc.Args[0].(*ssa.MakeInterface)
	return ok && namedIs(derefT(mi.X.Type()), Mod+"/protobuf", "Content")
}

func (k *deliver) askedOf(f *ssa.Function, group bool, marshal, dms map[*ssa.Function]bool) {
	c := k.c
	res := &rootResult{inst: map[string]instRes{}}
	var e *Engine
	var params []*Expr
	sub := func(st *State, p *Expr, typ, field string) *Expr {
		v, i := fieldNamed(c.typeOf("protobuf."+typ), field)
		if v == nil || p == nil {
			return nil
		}
		return e.read(st, e.fieldAddr(p.strip(), v, i), v.Type()).strip()
	}
	deref := func(st *State, p *Expr) *Expr {
		if p == nil || p.t == nil {
			return p
		}
		if pt, ok := p.t.Underlying().(*types.Pointer); ok {
			return e.read(st, p.strip(), pt.Elem()).strip()
		}
		return p.strip()
	}
	in := " in " + fnName(f)
	e = newEngine(c.p, Hooks{
		Prepare: func(st *State, args []*Expr) { params = args },
		Call: func(st *State, ci *CallInfo) Action {
			if ci.Callee != nil && k.reach[ci.Callee] && !marshal[ci.Callee] || strings.HasSuffix(ci.Name, "proto.Marshal") {
				return OpaqueKeep
			}
			return Default
		},
		After: func(st *State, ci *CallInfo, r *Expr) {
			if k.contentMarshalCall(ci) {
				con := ci.Args[0].strip()
				dm := sub(st, con, "Content", "DataMessage")
				if dm == nil || st.isNil(dm) == 1 || dm.k == KZero {
					return
				}
				path := c.p.ctxPath(ci.Ctx)
				put := func(what string, ok bool, detail string) {
					res.put("asked|"+what+in, ci.Pos(), ci.In, true, "", path)
					if !ok {
						st.recordSet(Event{Kind: "dl.not", Name: what + "|" + detail, Pos: ci.Pos(), Fn: ci.In})
					}
				}
				body := sub(st, dm, "DataMessage", "Body")
				trace("C40 asked %v body %v flags %v timer %v time %v", fnName(f), deref(st, body), deref(st, sub(st, dm, "DataMessage", "Flags")), deref(st, sub(st, dm, "DataMessage", "ExpireTimer")), deref(st, sub(st, dm, "DataMessage", "Timestamp")))
				if body == nil || st.isNil(body) == 1 {
					put("text", len(st.events("dl.empty")) > 0, "the text is left out of the message")
				} else {
					put("text", deref(st, body) == params[1], "the text of the message is not the one given")
				}
				for i, p := range f.Params {
					if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint32 {
						put("timer", deref(st, sub(st, dm, "DataMessage", "ExpireTimer")) == params[i], "the time after which the message is to disappear is not the one given")
					}
				}
				fl := sub(st, dm, "DataMessage", "Flags")
				end := false
				if fl != nil && st.isNil(fl) != 1 {
					if v := deref(st, fl); v.isInt {
						end = v.n&1 == 1
					} else if v.k != KZero {
						put("flags", false, "the flags of the message are not known")
					}
				}
				put("flags", end == (f.Name() == "EndSession"), "the message ends the session although it should not, or does not although it should")
				ts := sub(st, dm, "DataMessage", "Timestamp")
				put("time", ts != nil && st.isNil(ts) == 0, "the message carries no time")
				t := deref(st, ts)
				for _, ev := range st.events("dl.time") {
					put("time", ev.Args[0] == t || t.k == KJoin || ev.Args[0].k == KJoin, "the members of the group get the message with different times")
				}
				st.record(Event{Kind: "dl.time", Args: []*Expr{t}, Res: t})
				return
			}
			if ci.Callee != nil && k.reach[ci.Callee] && len(st.events("dl.time")) > 0 && !group {
				ok, any := false, false
				for i, a := range ci.Args {
					if b, is := ci.Callee.Params[i].Type().Underlying().(*types.Basic); is && b.Kind() == types.String {
						any = true
						ok = ok || a.strip() == params[0]
					}
				}
				own := false
				for _, a := range ci.Args {
					own = own || e.it.contains(a, func(y *Expr) bool {
						v := varOf(y)
						return v != nil && (v.Name() == "Tel" || v.Name() == "UUID") && strings.HasPrefix(c.p.fieldOwner(v), Mod+"/config.")
					})
				}
				if any && !own {
					res.put("asked|recipient"+in, ci.Pos(), ci.In, ok, "the message is not sent to the recipient given", c.p.ctxPath(ci.Ctx))
				}
			}
		},
		Branch: func(st *State, fr *Frame, i *ssa.If, cond *Expr, val bool) {
			x := cond.strip()
			for x.k == KUn && x.s == "!" {
				x, val = x.a[0].strip(), !val
			}
			if x.k != KBin {
				return
			}
			for j := 0; j < 2; j++ {
				a, b := x.a[j].strip(), x.a[1-j].strip()
				text := a == params[1] && (b.k == KConst && b.s == `""` || b.k == KZero) && (x.s == "==" && val || x.s == "!=" && !val)
				if a.k == KCall && a.s == "builtin.len" && a.a[0].strip() == params[1] && b.isInt && b.n == 0 {
					text = x.s == "==" && val || x.s == "!=" && !val || j == 0 && x.s == ">" && !val || j == 1 && x.s == "<" && !val
				}
				if text {
					st.recordSet(Event{Kind: "dl.empty"})
				}
			}
		},
		Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) {
			return true, marshal[fn] || dms[fn] && !c.p.isGen(fn.Pos())
		},
	})
	e.capStates, e.capExits = 48, 48
	for _, x := range e.okExits(f, e.Run(f)) {
		for _, ev := range x.st.events("dl.not") {
			what, detail, _ := strings.Cut(ev.Name, "|")
			res.put("asked|"+what+in, ev.Pos, ev.Fn, false, detail, "")
		}
	}
	c.useBounded(e)
	k.report(res)
}

func (k *deliver) contentMarshalCall(ci *CallInfo) bool {
	return strings.HasSuffix(ci.Name, "proto.Marshal") && len(ci.Args) == 1 && namedIs(derefT(ci.Args[0].strip().t), Mod+"/protobuf", "Content")
}
