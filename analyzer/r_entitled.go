package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	gv2pb   = Mod + "/protobuf."
	accANY  = 1
	accMEMB = 2
	accADM  = 3
	roleADM = 2
)

func init() {
	register(&propDef{
		ID: "C23",
		Expl: "The disjunctive dataflow runs every exported method that applies one kind of group action (found by the protobuf type of its action parameter), with the functions that decide about rights inlined down to GroupUser.IsMember and the comparisons of roles, access rules and passwords. entitled: on every path, before anything of the group is changed and before nil is returned, the right the kind of action needs must have been established: administrator; or member and the access rule in question permits members; or the only one concerned is the author; or the invite link is open and its password equal; or every profile key presentation parsed has been verified and is the author's; nil may be returned without a right only if the action is absent. promoted: a member or invited member made with the role of an action must be made by an administrator or have a role known not to be administrator. " +
			"complete: the function that applies a whole change may return without an error only if, for every kind of action, the action is absent or its method was called with it and returned nil. final: and only if the resulting state was validated. identity: IsMember may answer true only for the author's own id and group.",
		Assume:  []string{"zkgroup's VerifyProfileKeyCredentialPresentation vouches for the user and profile key of a presentation"},
		Minimum: map[string]int{"entitled": 15, "promoted": 2, "complete": 15, "final": 1, "identity": 1},
		Run:     runC23,
	})
}

// a right: what must be known of the author. Any of the alternatives will do.
type rightTest func(f *authFacts) bool

type authFacts struct {
	admin, member, self, password, presented, roles, adminrole bool
	access                                                     func(field string, ok ...int64) bool
}

var (
	byAdmin  = func(f *authFacts) bool { return f.admin }
	bySelf   = func(f *authFacts) bool { return f.admin || f.self }
	byAttrs  = func(f *authFacts) bool { return f.admin || f.member && f.access("Attributes", accANY, accMEMB) }
	byPres   = func(f *authFacts) bool { return f.presented }
	byInvite = func(f *authFacts) bool { return f.admin || f.member && f.access("Members", accANY, accMEMB) }
)

// rights of the kinds of actions.
var actionRights = map[string]rightTest{
	"ModifyAnnouncementsOnlyAction":              byAdmin,
	"ModifyDescriptionAction":                    byAttrs,
	"ModifyInviteLinkPasswordAction":             byAdmin,
	"PromoteRequestingMemberAction":              byAdmin,
	"DeleteRequestingMemberAction":               bySelf,
	"AddRequestingMemberAction":                  func(f *authFacts) bool { return f.self && f.password && f.access("AddFromInviteLink", accADM) },
	"ModifyAddFromInviteLinkAccessControlAction": byAdmin,
	"ModifyMembersAccessControlAction":           byAdmin,
	"ModifyAttributesAccessControlAction":        byAdmin,
	"ModifyDisappearingMessagesTimerAction":      byAttrs,
	"ModifyAvatarAction":                         byAttrs,
	"ModifyTitleAction":                          byAttrs,
	"PromotePendingMemberAction":                 byPres,
	"DeletePendingMemberAction":                  bySelf,
	"AddPendingMemberAction":                     byInvite,
	"ModifyMemberProfileKeyAction":               byPres,
	"ModifyMemberRoleAction":                     byAdmin,
	"DeleteMemberAction":                         bySelf,
	"AddMemberAction": func(f *authFacts) bool {
		return f.admin || f.member && f.access("Members", accANY, accMEMB) ||
			f.self && (f.access("Members", accANY) || f.access("AddFromInviteLink", accANY) && f.password)
	},
}

type entitled struct {
	c       *Check
	methods []*ssa.Function
	kind    map[*ssa.Function]string
	action  map[*ssa.Function]int
}

// actionKind: the kind of group action of a parameter type.
func actionKind(t types.Type) string {
	if s, ok := t.Underlying().(*types.Slice); ok {
		t = s.Elem()
	}
	n, ok := deref(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != Mod+"/protobuf" {
		return ""
	}
	k := strings.TrimPrefix(n.Obj().Name(), "GroupChange_Actions_")
	if k == n.Obj().Name() || actionRights[k] == nil {
		return ""
	}
	return k
}

func isGroupUser(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Name() == "GroupUser" && n.Obj().Pkg().Path() == Mod+"/entities"
}

func isGroupV2(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Name() == "GroupV2" && n.Obj().Pkg().Path() == Mod+"/groupsv2"
}

func runC23(c *Check) {
	k := &entitled{c: c, kind: map[*ssa.Function]string{}, action: map[*ssa.Function]int{}}
	for _, f := range c.sortedFuncs() {
		o, ok := f.Object().(*types.Func)
		if !ok || !o.Exported() || c.p.isGen(f.Pos()) || f.Pkg == nil || f.Pkg.Pkg.Path() != Mod+"/groupsv2" || f.Signature.Recv() == nil || f.Synthetic != "" {
			continue
		}
		n, ok := deref(f.Signature.Recv().Type()).(*types.Named)
		if !ok || n.Obj().Name() != "GroupChangeApplicator" {
			continue
		}
		user, group := false, false
		for i, p := range f.Params {
			user = user || isGroupUser(p.Type())
			group = group || isGroupV2(p.Type())
			if a := actionKind(p.Type()); a != "" {
				k.kind[f], k.action[f] = a, i
			}
		}
		if k.kind[f] != "" && user && group {
			k.methods = append(k.methods, f)
		}
	}
	sort.Slice(k.methods, func(i, j int) bool { return k.methods[i].Pos() < k.methods[j].Pos() })
	have := map[string]bool{}
	for _, f := range k.methods {
		have[k.kind[f]] = true
	}
	var kinds []string
	for a := range actionRights {
		kinds = append(kinds, a)
	}
	sort.Strings(kinds)
	for _, a := range kinds {
		c.ob("anchor", a, 0, have[a], "no exported method of GroupChangeApplicator applies it")
	}
	for _, f := range k.methods {
		k.apply(f)
	}
	k.whole()
	k.identity()
}

// typeOf: the declared type of the module.
func (c *Check) typeOf(name string) types.Type {
	for _, n := range c.p.named {
		if n.Obj().Pkg() != nil && n.Obj().Pkg().Path()+"."+n.Obj().Name() == Mod+"/"+name {
			return n
		}
	}
	return nil
}

// groupState: the field belongs to the state of a group.
func (k *entitled) groupState(v *types.Var) bool {
	switch strings.TrimPrefix(k.c.p.fieldOwner(v), Mod+"/") {
	case "groupsv2.GroupV2", "protobuf.DecryptedGroup", "protobuf.DecryptedMember", "protobuf.DecryptedPendingMember", "protobuf.DecryptedRequestingMember",
		"protobuf.AccessControl", "protobuf.Group", "protobuf.Member", "protobuf.PendingMember", "protobuf.RequestingMember":
		return true
	}
	return false
}

func (k *entitled) ownerIs(x *Expr, typ, field string) bool {
	v := varOf(x)
	return v != nil && v.Name() == field && k.c.p.fieldOwner(v) == gv2pb+typ
}

// operand: a comparison has a term of the field as an operand.
func (k *entitled) operands(x *Expr, typ string, out *[]*Expr) {
	x = x.strip()
	for x.k == KUn && x.s == "!" {
		x = x.a[0].strip()
	}
	if x.k != KBin {
		return
	}
	for _, a := range x.a {
		if a == nil {
			continue
		}
		a = a.strip()
		if v := varOf(a); v != nil && k.c.p.fieldOwner(v) == gv2pb+typ && owner(a) != nil {
			*out = append(*out, a)
		}
	}
}

// latch records the rights that are known now; they are about the group as it
// was found, and stay.
func (k *entitled) latch(e *Engine, st *State, act int, slice bool) {
	has := func(n string) { st.recordSet(Event{Kind: "gr.has", Name: n}) }
	admins := map[*Expr]bool{}
	for _, ev := range st.events("gr.role") {
		x := ev.Args[0]
		lo, hi := st.interval(e.linOf(x))
		if lo == roleADM && hi == roleADM {
			admins[owner(x).strip()] = true
		}
	}
	for _, ev := range st.events("gr.is") {
		if st.boolVal(ev.Res) != 1 || len(ev.Args) < 2 {
			continue
		}
		id := ev.Args[1]
		if k.ownerIs(id, "DecryptedMember", "Uuid") {
			b := owner(id.strip())
			if b != nil && e.it.contains(b, func(y *Expr) bool { return k.ownerIs(y, "DecryptedGroup", "Members") }) {
				has("member")
				if admins[b.strip()] {
					has("admin")
				}
			}
			continue
		}
		if act >= 0 && e.fromParam(id, act) && len(st.events("gr.pres")) == 0 {
			one := true
			if slice {
				n, ok := constLenOf(e, st, act)
				one = ok && n == 1
			}
			if one {
				has("self")
			}
		}
	}
	// presentations that were verified and are the author's are done with
	var keep []*Event
	for _, p := range st.ev {
		if p.Kind == "gr.pres" {
			verified, own := false, false
			for _, v := range st.events("gr.verified") {
				verified = verified || e.fromExpr(v.Args[0], p.Res) && st.isNil(v.Err) == 1
			}
			for _, m := range st.events("gr.is") {
				own = own || st.boolVal(m.Res) == 1 && len(m.Args) > 1 && e.fromExpr(m.Args[1], p.Res)
			}
			if verified && own {
				continue
			}
		}
		keep = append(keep, p)
	}
	if len(keep) < len(st.ev) {
		st.ev = keep
		has("presented")
	}
}

func (k *entitled) facts(st *State) *authFacts {
	f := &authFacts{}
	acc := map[string][][2]int64{}
	for _, ev := range st.events("gr.has") {
		switch ev.Name {
		case "admin":
			f.admin = true
		case "member":
			f.member = true
		case "self":
			f.self = true
		case "password":
			f.password = true
		case "roles":
			f.roles = true
		case "adminrole":
			f.adminrole = true
		case "presented":
			f.presented = true
		default:
			var n string
			var lo, hi int64
			if _, err := fmt.Sscanf(ev.Name, "%s %d %d", &n, &lo, &hi); err == nil {
				acc[n] = append(acc[n], [2]int64{lo, hi})
			}
		}
	}
	f.access = func(field string, ok ...int64) bool {
		for _, r := range acc[field] {
			all := true
			for n := r[0]; n <= r[1]; n++ {
				in := false
				for _, o := range ok {
					in = in || o == n
				}
				all = all && in
			}
			if all {
				return true
			}
		}
		return false
	}
	f.presented = f.presented && len(st.events("gr.pres")) == 0
	return f
}

func constLenOf(e *Engine, st *State, act int) (int64, bool) {
	for _, ev := range st.events("gr.len") {
		lo, hi := st.interval(e.lenLin(ev.Args[0]))
		return lo, lo == hi
	}
	return 0, false
}

func (k *entitled) hooks(f *ssa.Function, act int, slice bool) (Hooks, func(e *Engine)) {
	var e *Engine
	pw := func(x *Expr) (bool, *Expr) {
		x = x.strip()
		for x.k == KUn && x.s == "!" {
			x = x.a[0].strip()
		}
		var l, r *Expr
		switch {
		case x.k == KCall && names("bytes.Equal", "crypto/hmac.Equal", "crypto/subtle.ConstantTimeCompare")(x.s) && len(x.a) == 2:
			l, r = x.a[0], x.a[1]
		case x.k == KBin && x.s == "==":
			l, r = x.a[0], x.a[1]
			for _, s := range x.a {
				if s = s.strip(); s.k == KCall && names("crypto/subtle.ConstantTimeCompare", "bytes.Compare")(s.s) && len(s.a) == 2 {
					l, r = s.a[0], s.a[1]
				}
			}
		default:
			return false, nil
		}
		stored := func(y *Expr) bool {
			return e.it.contains(y, func(z *Expr) bool { return k.ownerIs(z, "DecryptedGroup", "InviteLinkPassword") })
		}
		given := func(y *Expr) bool {
			for i, p := range f.Params {
				if s, ok := p.Type().Underlying().(*types.Slice); ok && i != act && types.Identical(s.Elem(), types.Typ[types.Byte]) && e.fromParam(y, i) {
					return true
				}
			}
			return false
		}
		return stored(l) && given(r) && !stored(r) || stored(r) && given(l) && !stored(l), x
	}
	h := Hooks{
		Call: func(st *State, ci *CallInfo) Action {
			if ci.Name == Mod+"/entities.GroupUser.IsMember" || strings.HasSuffix(ci.Name, "entities.GroupUser.IsMember") {
				return Opaque
			}
			return Default
		},
		After: func(st *State, ci *CallInfo, r *Expr) {
			switch {
			case strings.HasSuffix(ci.Name, "entities.GroupUser.IsMember"):
				st.record(Event{Kind: "gr.is", Name: ci.Name, Args: ci.Args[:2], Res: r, Pos: ci.Pos(), Fn: ci.In, Guard: true})
			case strings.HasSuffix(ci.Name, "zkgroup.NewProfileKeyCredentialPresentation"):
				st.record(Event{Kind: "gr.pres", Name: ci.Name, Res: r, Pos: ci.Pos(), Fn: ci.In})
			case strings.HasSuffix(ci.Name, ".VerifyProfileKeyCredentialPresentation") && len(ci.Args) == 3:
				st.record(Event{Kind: "gr.verified", Name: ci.Name, Args: ci.Args[2:], Res: r, Err: e.errOf(ci.Site, r), Pos: ci.Pos(), Fn: ci.In})
			}
		},
		Branch: func(st *State, fr *Frame, in *ssa.If, cond *Expr, val bool) {
			var xs []*Expr
			k.operands(cond, "DecryptedMember", &xs)
			for _, x := range xs {
				if v := varOf(x); v.Name() == "Role" {
					if lo, hi := st.interval(e.linOf(x)); lo == roleADM && hi == roleADM {
						st.record(Event{Kind: "gr.role", Args: []*Expr{x}})
					}
				}
			}
			xs = nil
			k.operands(cond, "Member", &xs)
			for _, x := range xs {
				if v := varOf(x); v.Name() != "Role" || !e.fromParam(x, act) {
					continue
				}
				if e.differs(st, x, roleADM) {
					st.recordSet(Event{Kind: "gr.has", Name: "roles"})
				} else if lo, hi := st.interval(e.linOf(x)); lo == roleADM && hi == roleADM {
					st.recordSet(Event{Kind: "gr.has", Name: "adminrole"})
				}
			}
			xs = nil
			k.operands(cond, "AccessControl", &xs)
			for _, x := range xs {
				if lo, hi := st.interval(e.linOf(x)); lo >= accANY && hi <= accADM {
					st.recordSet(Event{Kind: "gr.has", Name: fmt.Sprintf("%s %d %d", varOf(x).Name(), lo, hi)})
				}
			}
			if ok, t := pw(cond); ok && st.boolVal(t) == 1 {
				st.recordSet(Event{Kind: "gr.has", Name: "password"})
			}
			k.latch(e, st, act, slice)
		},
		Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) {
			if fn.Pkg == nil || k.c.p.isGen(fn.Pos()) {
				return false, false
			}
			return fn.Pkg.Pkg.Path() == Mod+"/groupsv2" || fn.Pkg.Pkg.Path() == Mod+"/entities" && fn.Name() == "Status", true
		},
	}
	return h, func(x *Engine) { e = x }
}

func (k *entitled) apply(f *ssa.Function) {
	c, kind, act := k.c, k.kind[f], k.action[f]
	_, slice := f.Params[act].Type().Underlying().(*types.Slice)
	test := actionRights[kind]
	h, set := k.hooks(f, act, slice)
	res := &rootResult{inst: map[string]instRes{}}
	var e *Engine
	ok := func(st *State) bool {
		return test(k.facts(st))
	}
	h.Prepare = func(st *State, args []*Expr) {
		st.record(Event{Kind: "gr.len", Args: []*Expr{args[act]}})
	}
	h.Store = func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
		v, _ := addr.obj.(*types.Var)
		changed := ""
		switch {
		case addr.k == KFieldAddr && v != nil && k.groupState(v):
			changed = v.Name()
		case addr.k == KIndexAddr:
			e.it.contains(addr.a[0], func(y *Expr) bool {
				if w := varOf(y); w != nil && (k.ownerIs(y, "DecryptedGroup", w.Name())) {
					changed = w.Name()
				}
				return changed != ""
			})
		}
		if changed == "" {
			return
		}
		if r := addr.addrRoot(); r.k == KAlloc {
			if addr.k == KFieldAddr && v.Name() == "Role" && e.fromParam(val, act) {
				// a new member with the role of the action
				fs := k.facts(st)
				adm := fs.admin || e.differs(st, val, roleADM) || fs.roles && !fs.adminrole
				for v, x := range fr.env {
					// a truth whose cases were merged: what it told is not known any more
					adm = adm || isBoolT(v.Type()) && x.k == KJoin && st.boolVal(x) >= 0
				}
				res.put("promoted|"+kind, in.Pos(), fr.fn, adm, "someone becomes an administrator of the group by an action of one who is none", c.p.ctxPath(fr.ctx))
			}
			return
		} else if r.k == KParam && r.n == int64(act) {
			return
		}
		good := ok(st)
		if !good {
			fs := k.facts(st)
			trace("%s: change of %s without right: admin=%v member=%v self=%v password=%v", kind, changed, fs.admin, fs.member, fs.self, fs.password)
			for _, ev := range st.ev {
				trace("  %s %s %v %d", ev.Kind, ev.Name, ev.Args, st.boolVal(ev.Res))
			}
		}
		res.put("entitled|"+kind, in.Pos(), fr.fn, good, changed+" of the group is changed although the author's right to do so was not established", c.p.ctxPath(fr.ctx))
	}
	e = newEngine(c.p, h)
	set(e)
	e.keepBools = true
	if kind == "AddMemberAction" || kind == "AddPendingMemberAction" {
		e.capStates, e.capExits = 24, 16
	}
	exits := e.okExits(f, e.Run(f))
	for _, x := range exits {
		p := x.st.events("gr.len")[0].Args[0]
		absent := x.st.isNil(p) == 1
		if slice {
			_, hi := x.st.interval(e.lenLin(p))
			absent = absent || hi <= 0
		}
		res.put("entitled|"+kind, x.pos, f, absent || ok(x.st), "success is reported for an action its author was not shown to be entitled to", "")
	}
	c.useBounded(e)
	k.report(res)
}

func (k *entitled) report(res *rootResult) {
	for _, key := range res.order {
		i := res.inst[key]
		rule, name, _ := strings.Cut(key, "|")
		if i.ok {
			k.c.ob(rule, name, i.pos, true, "")
		} else {
			k.c.fail(rule, name, k.c.p.pos(i.pos), i.detail, i.path)
		}
	}
}

// differs: the integer term is known not to be n.
func (e *Engine) differs(st *State, x *Expr, n int64) bool {
	lo, hi := st.interval(e.linOf(x))
	if n < lo || n > hi {
		return true
	}
	for b, v := range st.bf {
		if v || b.k != KBin || b.s != "==" {
			continue
		}
		for i := 0; i < 2; i++ {
			if b.a[i].strip() == x.strip() && b.a[1-i].isInt && b.a[1-i].n == n {
				return true
			}
		}
	}
	return false
}

// whole: the function that applies a whole change.
func (k *entitled) whole() {
	c := k.c
	isM := map[*ssa.Function]bool{}
	for _, f := range k.methods {
		isM[f] = true
	}
	fields := map[string]*types.Var{} // kind -> field of the change
	fieldKind := map[*types.Var]string{}
	var kinds []string
	idx := map[string]int{}
	done := func(st *State, a string) bool {
		for _, ev := range st.events("gr.done") {
			if ev.Name == a {
				return true
			}
		}
		return false
	}
	for v := range c.structFields("/protobuf", "GroupChange_Actions") {
		if a := actionKind(v.Type()); a != "" {
			fields[a], fieldKind[v] = v, a
			kinds = append(kinds, a)
			_, idx[a] = fieldNamed(c.typeOf("protobuf.GroupChange_Actions"), v.Name())
		}
	}
	final := c.anchor("ts/groupsv2.GroupValidator.ValidateFinalGroupState")
	if final == nil {
		return
	}
	reaches := c.p.reachesInstr(func(in ssa.Instruction) bool {
		cc := callOf(in)
		return cc != nil && cc.StaticCallee() != nil && isM[cc.StaticCallee()]
	})
	for _, f := range c.sortedFuncs() {
		o, ok := f.Object().(*types.Func)
		if !ok || !o.Exported() || !reaches[f] || inCmd(f) {
			continue
		}
		pi := -1
		for i, p := range f.Params {
			if n, ok := deref(p.Type()).(*types.Named); ok && n.Obj().Name() == "GroupChange_Actions" && n.Obj().Pkg().Path() == Mod+"/protobuf" {
				pi = i
			}
		}
		if pi < 0 {
			continue
		}
		var e *Engine
		res := &rootResult{inst: map[string]instRes{}}
		absent := func(st *State, p *Expr, a string) bool {
			v := fields[a]
			x := e.read(st, e.fieldAddr(p, v, idx[a]), v.Type())
			if st.isNil(x) == 1 {
				return true
			}
			if _, ok := v.Type().Underlying().(*types.Slice); ok {
				_, hi := st.interval(e.lenLin(x))
				return hi <= 0
			}
			return false
		}
		param := func(st *State) *Expr { return st.events("gr.change")[0].Args[0] }
		e = newEngine(c.p, Hooks{
			Prepare: func(st *State, args []*Expr) {
				st.record(Event{Kind: "gr.change", Args: []*Expr{args[pi]}})
			},
			Call: func(st *State, ci *CallInfo) Action {
				if ci.Callee != nil && (isM[ci.Callee] || ci.Callee == final) {
					return Opaque
				}
				return Default
			},
			After: func(st *State, ci *CallInfo, r *Expr) {
				switch {
				case ci.Callee != nil && isM[ci.Callee]:
					a := k.kind[ci.Callee]
					if v := varOf(ci.Args[k.action[ci.Callee]]); v != fields[a] {
						return
					}
					st.record(Event{Kind: "gr.applied", Name: a, Args: []*Expr{ci.Args[k.action[ci.Callee]]}, Res: r, Err: e.errOf(ci.Site, r)})
				case ci.Callee == final:
					st.recordSet(Event{Kind: "gr.final", Res: r, Err: e.errOf(ci.Site, r)})
				}
			},
			Branch: func(st *State, fr *Frame, in *ssa.If, cond *Expr, val bool) {
				for _, a := range kinds {
					if !done(st, a) && absent(st, param(st), a) {
						st.recordSet(Event{Kind: "gr.done", Name: a})
					}
				}
				var keep []*Event
				n := 0
				for _, ev := range st.ev {
					if ev.Kind == "gr.applied" && st.isNil(ev.Err) == 1 {
						n++
						continue
					}
					keep = append(keep, ev)
				}
				if n > 0 {
					was := st.events("gr.applied")
					st.ev = keep
					for _, ev := range was {
						if st.isNil(ev.Err) == 1 {
							st.recordSet(Event{Kind: "gr.done", Name: ev.Name})
							delete(st.nf, ev.Err)
						}
					}
				}
				// what is done with needs no facts any more
				for x := range st.nf {
					if v := varOf(x); v != nil && done(st, fieldKind[v]) {
						delete(st.nf, x)
					}
				}
				for b, l := range st.bd {
					for x := range l.l.c {
						if x.k == KCall && len(x.a) == 1 {
							if v := varOf(x.a[0]); v != nil && done(st, fieldKind[v]) {
								delete(st.bd, b)
								break
							}
						}
					}
				}
			},
			Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) {
				return reaches[fn] || fn.Pkg != nil && fn.Pkg.Pkg.Path() == Mod+"/entities", true
			},
		})
		xs := e.Run(f)
		trace("exits %d %v", len(xs), e.undecided)
		for _, x := range e.okExits(f, xs) {
			for _, m := range k.methods {
				a := k.kind[m]
				if fields[a] == nil {
					continue
				}
				ok := done(x.st, a)
				res.put("complete|"+a+" in "+fnName(f), x.pos, f, ok, "success is reported although the actions of this kind were not applied, or were refused", "")
			}
			ok := false
			for _, ev := range x.st.events("gr.final") {
				ok = ok || x.st.isNil(ev.Err) == 1
			}
			res.put("final|"+fnName(f), x.pos, f, ok, "success is reported although the resulting state of the group was not validated", "")
		}
		c.useBounded(e)
		k.report(res)
	}
}

// identity: who is taken for the author.
func (k *entitled) identity() {
	c := k.c
	f := c.anchor("ts/entities.GroupUser.IsMember")
	if f == nil || len(f.Params) != 3 {
		return
	}
	var e *Engine
	same := func(st *State, field string, param int) bool {
		for _, ev := range st.events("id.eq") {
			if st.boolVal(ev.Res) != 1 {
				continue
			}
			for i := 0; i < 2; i++ {
				if e.fromField(ev.Args[i], field) && e.fromParam(ev.Args[1-i], param) && !e.fromParam(ev.Args[1-i], 0) {
					return true
				}
			}
		}
		return false
	}
	e = newEngine(c.p, Hooks{After: func(st *State, ci *CallInfo, r *Expr) {
		if names("bytes.Equal", "crypto/hmac.Equal")(ci.Name) {
			st.record(Event{Kind: "id.eq", Args: ci.Args, Res: r, Pos: ci.Pos(), Fn: ci.In})
		}
	}})
	bad := ""
	n := 0
	var pos token.Pos
	for _, x := range e.Run(f) {
		if x.panic || len(x.rets) != 1 {
			continue
		}
		r := x.rets[0]
		if x.st.boolVal(r) == 0 {
			continue
		}
		n++
		st := x.st.clone()
		if !st.assume(r, true) {
			continue
		}
		if !same(st, "UserCiphertext", 1) || !same(st, "GroupPublicKey", 2) {
			bad, pos = "someone else, or a member of another group, is taken for the author", x.pos
		}
	}
	c.useBounded(e)
	if pos == 0 {
		pos = f.Pos()
	}
	c.ob("identity", fnName(f), pos, bad == "" && n > 0, bad)
}
