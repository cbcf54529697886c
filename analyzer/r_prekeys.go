package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&propDef{
		ID: "C33",
		Expl: "The disjunctive dataflow decides, for every place a pre-key record is made: stored-first: on every path, before the record's public key is read to be published, before the record is put where others find it and before it is returned without an error, a store of that very record must have succeeded (in the function or its callers). own-id: the record must be stored under the id it was made with, and that id must lie in 1..0xFFFFFE or be that of the last-resort key. signed: the signature of a signed pre-key must be made with the identity's private key over the public half of the pair in the record. record: the functions that make the records must put id, public, private part and signature of their arguments into their fields. " +
			"entity: id, public key and signature published for a pre-key must come from one record, and the identity key published must be the account's. generated: on every path, before a request is sent the identity key, registration id, password and signaling key generated for the account must have been stored successfully. same-place: the methods of the store that look a key, number or session up must name the file the method that stores it names.",
		Assume:  []string{"the files of the pre-keys directory are listed in the order of their ids (the last is the last-resort key)"},
		Minimum: map[string]int{"stored-first": 2, "own-id": 2, "signed": 1, "record": 7, "entity": 6, "generated": 4, "same-place": 10},
		Run:     runC33,
	})
}

var makesRecord = names(axo+"NewPreKeyRecord", axo+"NewSignedPreKeyRecord")

// recordField: a field of a pre-key record on the wire.
func recordField(v *types.Var, owner map[*types.Var]string, name string) bool {
	return v != nil && owner[v] == name
}

type prekeys struct {
	c      *Check
	fields map[*types.Var]string // of the records
	ent    map[*types.Var]string // of the published entities
	entOf  map[*types.Var]string
	store  *types.Named
	stores map[*ssa.Function]bool // methods that store a record
	last   *ssa.Global
}

func runC33(c *Check) {
	k := &prekeys{c: c, fields: map[*types.Var]string{}, ent: map[*types.Var]string{}, entOf: map[*types.Var]string{}, stores: map[*ssa.Function]bool{}}
	for _, n := range []string{"PreKeyRecordStructure", "SignedPreKeyRecordStructure"} {
		for v, f := range c.structFields("/axolotl/protobuf", n) {
			k.fields[v] = f
		}
	}
	k.store = c.storeType()
	c.ob("anchor", "store", 0, k.store != nil, "no unique implementation of axolotl.SessionStore")
	if k.store == nil {
		return
	}
	for _, m := range []string{axo + "PreKeyStore.StorePreKey", axo + "SignedPreKeyStore.StoreSignedPreKey"} {
		for _, f := range c.p.implFns(m) {
			k.stores[f] = true
		}
	}
	k.made()
	k.records()
	k.entities()
	k.generated()
	k.places()
}

// storing: the call stores a record; the index of the record.
func (k *prekeys) storing(ci *CallInfo) int {
	if ci.Callee != nil && k.stores[ci.Callee] && len(ci.Args) == 3 || ci.Callee == nil && (strings.HasSuffix(ci.Name, ".StorePreKey") || strings.HasSuffix(ci.Name, ".StoreSignedPreKey")) && len(ci.Args) == 3 {
		return 2
	}
	return -1
}

func isAxo(f *ssa.Function) bool { return f.Pkg != nil && f.Pkg.Pkg.Path() == Mod+"/axolotl" }

// same: the term is the record made, or part of it.
func isRecord(e *Engine, x, rec *Expr) bool { return x != nil && x.strip() == rec.strip() }

func (k *prekeys) made() {
	c := k.c
	leaf := func(in ssa.Instruction) bool {
		cc := callOf(in)
		return cc != nil && makesRecord(calleeName(cc))
	}
	start := c.startsWith(leaf, func(f *ssa.Function) bool { return !inCmd(f) && !isAxo(f) })
	c.ob("anchor", "records", 0, len(start) > 0, "no function makes a pre-key record")
	publishes := c.p.reachesInstr(func(in ssa.Instruction) bool {
		fa, ok := in.(*ssa.FieldAddr)
		return ok && !isAxo(in.Parent()) && !c.p.isGen(in.Parent().Pos()) && recordField(fieldOf(fa.X.Type(), fa.Field), k.fields, "PublicKey")
	})
	stores := c.p.reachesInstr(func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		for _, t := range c.p.targets(ci.Common()) {
			if k.stores[t] {
				return true
			}
		}
		return false
	})
	for _, only := range []string{"stored-first", "own-id", "signed"} {
		only := only
		c.upwardTo(only, start, func(root, target *ssa.Function, all *rootResult, rel map[*ssa.Function]bool) {
			res := &filtered{all, only}
			var e *Engine
			stored := func(st *State, m *Event) *Event {
				for _, ev := range st.events("pk.stored") {
					if isRecord(e, ev.Args[2], m.Res) {
						return ev
					}
				}
				return nil
			}
			key := func(m *Event) string {
				return "stored-first|" + fnName(m.Fn) + " " + m.Name[strings.LastIndex(m.Name, ".")+1:]
			}
			use := func(st *State, x *Expr, pos token.Pos, in *ssa.Function, ctx *Ctx, how string, inside bool) {
				for _, m := range st.events("pk.made") {
					if x == nil || !isRecord(e, x, m.Res) && !(inside && e.it.contains(x, func(y *Expr) bool { return y == m.Res })) {
						continue
					}
					s := stored(st, m)
					ok := s != nil && s.Err != nil && st.isNil(s.Err) == 1
					res.put(key(m), pos, in, ok, how, c.p.ctxPath(ctx))
				}
			}
			h := Hooks{
				Call: func(st *State, ci *CallInfo) Action {
					if makesRecord(ci.Name) {
						return Opaque
					}
					if strings.HasSuffix(ci.Name, "curve25519sign.Sign") {
						return Opaque
					}
					if k.storing(ci) >= 0 {
						return Opaque
					}
					return Default
				},
				After: func(st *State, ci *CallInfo, r *Expr) {
					if ci.Site == nil {
						return
					}
					switch {
					case makesRecord(ci.Name) && ci.In == target:
						st.record(Event{Kind: "pk.made", Name: ci.Name, Args: ci.Args, Res: r, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
						n := ci.Name[strings.LastIndex(ci.Name, ".")+1:]
						// the id
						kk := "own-id|id of " + n + " in " + fnName(target)
						lo, hi := st.interval(e.linOf(ci.Args[0]))
						ok := lo >= 1 && hi < 0xFFFFFF || lo == 0xFFFFFF && hi == 0xFFFFFF
						trace("id %s: %v [%d,%d]", n, ci.Args[0], lo, hi)
						detail := fmt.Sprintf("a pre-key may get an id that is reserved (0: none, 0xFFFFFF: the last-resort key) or out of range: %d..%d", lo, hi)
						if lo <= negInf/2 || hi >= posInf/2 {
							detail = "a pre-key may get an id that is reserved (0: none, 0xFFFFFF: the last-resort key) or out of range"
						}
						res.put(kk, ci.Pos(), target, ok, detail, c.p.ctxPath(ci.Ctx))
						if len(ci.Args) >= 4 {
							res.put("signed|"+fnName(target), ci.Pos(), target, k.signed(e, st, ci.Args[2], ci.Args[3]), "the signature published for the signed pre-key is not one by the identity key over the public key of the pair that is stored", c.p.ctxPath(ci.Ctx))
						}
					case k.storing(ci) >= 0:
						st.record(Event{Kind: "pk.stored", Name: ci.Name, Args: ci.Args, Res: r, Err: e.errOf(ci.Site, r), Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
						for _, m := range st.events("pk.made") {
							if isRecord(e, ci.Args[2], m.Res) {
								same := ci.Args[1].strip() == m.Args[0].strip() || zeroLin(e.linOf(ci.Args[1]).add(e.linOf(m.Args[0]), -1))
								if v := varOf(ci.Args[1]); !same && recordField(v, k.fields, "Id") {
									same = e.it.contains(ci.Args[1], func(y *Expr) bool { return y == m.Res })
								}
								res.put("own-id|stored "+key(m)[len("stored-first|"):], ci.Pos(), ci.In, same, "a pre-key is stored under another id than its own", c.p.ctxPath(ci.Ctx))
							}
						}
					}
				},
				Store: func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
					r := addr.addrRoot()
					if r.k == KAlloc {
						return
					}
					use(st, val, in.Pos(), fr.fn, fr.ctx, "a pre-key record is put where it is published from before it was stored", false)
				},
				Instr: func(st *State, fr *Frame, in ssa.Instruction) {
					if isAxo(fr.fn) {
						return
					}
					switch x := in.(type) {
					case *ssa.FieldAddr:
						if recordField(fieldOf(x.X.Type(), x.Field), k.fields, "PublicKey") {
							use(st, fr.Val(st, x.X), in.Pos(), fr.fn, fr.ctx, "the public half of a pre-key is published before its private half was stored", true)
						}
					case *ssa.Send:
						use(st, fr.Val(st, x.X), in.Pos(), fr.fn, fr.ctx, "a pre-key record is handed on before it was stored", false)
					}
				},
				Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) {
					return true, publishes[fn] || stores[fn]
				},
			}
			e = newEngine(c.p, h)
			e.relevant = rel
			for _, x := range e.Run(root) {
				for _, m := range x.st.events("pk.made") {
					s := stored(x.st, m)
					ok := s != nil && s.Err != nil && x.st.isNil(s.Err) == 1
					ret := false
					for i, r := range x.rets {
						if isRecord(e, r, m.Res) {
							ret = true
						}
						if isErrorT(r.t) && i == len(x.rets)-1 && (x.st.isNil(r) == 0 || s != nil && s.Err != nil && r.strip() == s.Err.strip()) {
							ok = true
						}
					}
					if ret {
						res.put(key(m), x.pos, root, ok, "a pre-key record is returned although it was not stored", "")
					} else if s != nil {
						res.put(key(m), m.Pos, target, true, "", "")
					}
				}
			}
			c.useBounded(e)
		}, 3, nil)
	}
}

// filtered keeps the obligations of one rule; their keys start with its name.
type filtered struct {
	res  *rootResult
	rule string
}

func (f *filtered) put(key string, pos token.Pos, in *ssa.Function, ok bool, detail, path string) {
	if k := strings.TrimPrefix(key, f.rule+"|"); k != key {
		f.res.put(k, pos, in, ok, detail, path)
	}
}

func zeroLin(l lin) bool {
	n, ok := constLin(l)
	return ok && n == 0
}

// signed: sig is the identity's signature over the public key of the pair.
func (k *prekeys) signed(e *Engine, st *State, kp, sig *Expr) bool {
	kp, ok := kp.strip(), false
	e.it.contains(e.snap(st, sig), func(y *Expr) bool {
		if y.k != KCall || !strings.HasSuffix(y.s, "curve25519sign.Sign") || len(y.a) < 3 {
			return false
		}
		priv := e.it.contains(y.a[0], func(z *Expr) bool {
			v := varOf(z)
			return v != nil && v.Name() == "PrivateKey" && k.c.p.fieldOwner(v) == Mod+"/axolotl.IdentityKeyPair"
		})
		// the others verify it over the key with its type in front
		arg := y.a[1]
		for arg.k == KSlice || arg.k == KConv {
			arg = arg.a[0]
		}
		typed := arg.k != KFieldAddr && arg.k != KField
		pub := typed && e.it.contains(y.a[1], func(z *Expr) bool {
			v := varOf(z)
			return v != nil && v.Name() == "PublicKey" && e.it.contains(z, func(w *Expr) bool { return w == kp })
		})
		trace("sign priv=%v pub=%v %v | %v", priv, pub, y.a[0], y.a[1])
		ok = ok || priv && pub
		return false
	})
	return ok
}

// records: the constructors keep what they are given.
func (k *prekeys) records() {
	c := k.c
	for _, n := range []string{"NewPreKeyRecord", "NewSignedPreKeyRecord"} {
		f := c.anchor("ts/axolotl." + n)
		if f == nil {
			continue
		}
		want := map[string]func(e *Engine, x *Expr) bool{
			"Id": func(e *Engine, x *Expr) bool { return e.fromParam(x, 0) },
		}
		kp := len(f.Params) - 1
		if len(f.Params) > 3 {
			kp = 2
			want["Signature"] = func(e *Engine, x *Expr) bool { return e.fromParam(x, 3) }
		}
		half := func(name string) func(e *Engine, x *Expr) bool {
			return func(e *Engine, x *Expr) bool {
				return e.fromParam(x, kp) && e.it.contains(x, func(y *Expr) bool { v := varOf(y); return v != nil && v.Name() == name })
			}
		}
		want["PublicKey"], want["PrivateKey"] = half("PublicKey"), half("PrivateKey")
		var e *Engine
		got := map[string]bool{}
		bad := map[string]bool{}
		e = newEngine(c.p, Hooks{Store: func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
			if v := varOf(addr); v != nil && addr.k == KFieldAddr && want[k.fields[v]] != nil {
				got[k.fields[v]] = true
				if !want[k.fields[v]](e, e.snap(st, val)) {
					trace("record %s %s = %v", n, v.Name(), val)
					bad[k.fields[v]] = true
				}
			}
		}})
		e.Run(f)
		c.use(e)
		var ns []string
		for w := range want {
			ns = append(ns, w)
		}
		sort.Strings(ns)
		for _, w := range ns {
			c.ob("record", n+"."+w, f.Pos(), got[w] && !bad[w], "the record's "+w+" is not the one it was made for")
		}
	}
}

// entities: what is published for a key comes from one record.
func (k *prekeys) entities() {
	c := k.c
	var tp *types.Package
	for _, pk := range c.p.Pkgs {
		if pk.PkgPath == Mod {
			tp = pk.Types
		}
	}
	// the structures sent: those with a field for a public key in their JSON form
	owner := map[*types.Var]string{}
	role := map[*types.Var]string{}
	for _, n := range tp.Scope().Names() {
		t, ok := tp.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		s, ok := t.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		tags := map[string]*types.Var{}
		for i := 0; i < s.NumFields(); i++ {
			for _, w := range []string{"keyId", "publicKey", "signature", "identityKey", "preKeys"} {
				if strings.Contains(s.Tag(i), `json:"`+w) {
					tags[w] = s.Field(i)
				}
			}
		}
		switch {
		case tags["keyId"] != nil && tags["publicKey"] != nil:
			for w, v := range tags {
				owner[v], role[v] = n, w
			}
		case tags["identityKey"] != nil && tags["preKeys"] != nil:
			owner[tags["identityKey"]], role[tags["identityKey"]] = n, "identityKey"
		}
	}
	set := func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		return ok && role[fieldOf(fa.X.Type(), fa.Field)] != ""
	}
	rec := func(e *Engine, x *Expr, field string) *Expr {
		var base *Expr
		e.it.contains(x, func(y *Expr) bool {
			v := varOf(y)
			if v == nil || !recordField(v, k.fields, field) {
				return false
			}
			z := y.strip()
			for z.k == KLoad {
				z = z.a[0].strip()
			}
			base = z.a[0].strip()
			return true
		})
		return base
	}
	field := map[string]string{"keyId": "Id", "publicKey": "PublicKey", "signature": "Signature"}
	start := c.startsWith(set, func(f *ssa.Function) bool { return !inCmd(f) && !c.p.isGen(f.Pos()) })
	for _, f := range start {
		var e *Engine
		res := &rootResult{inst: map[string]instRes{}}
		reach := c.p.reachesInstr(set)
		e = newEngine(c.p, Hooks{
			Store: func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
				v, _ := addr.obj.(*types.Var)
				if addr.k != KFieldAddr || role[v] == "" || fr.fn != f {
					return
				}
				if role[v] == "identityKey" {
					ok := e.it.contains(val, func(y *Expr) bool {
						w := varOf(y)
						return w != nil && w.Name() == "PublicKey" && c.p.fieldOwner(w) == Mod+"/axolotl.IdentityKeyPair"
					})
					res.put("identity key in "+fnName(f), in.Pos(), f, ok, "the identity key published is not the account's public key", "")
					return
				}
				base := addr.a[0].strip()
				r := rec(e, val, field[role[v]])
				res.put(owner[v]+"."+role[v]+" in "+fnName(f), in.Pos(), f, r != nil, "the "+role[v]+" published for a pre-key is not that of its record", "")
				if r == nil {
					return
				}
				for _, ev := range st.events("pk.entity") {
					if ev.Args[0] == base && ev.Args[1] != r {
						res.put(owner[v]+"."+role[v]+" in "+fnName(f), in.Pos(), f, false, "what is published for a pre-key is taken from two records", "")
					}
				}
				st.record(Event{Kind: "pk.entity", Name: role[v], Args: []*Expr{base, r}, Pos: in.Pos(), Fn: f})
			},
			Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) { return true, reach[fn] },
		})
		e.Run(f)
		c.useBounded(e)
		for _, key := range res.order {
			i := res.inst[key]
			c.ob("entity", key, i.pos, i.ok, i.detail)
		}
	}
}

// generated: what the account is made of is stored before it is used.
func (k *prekeys) generated() {
	c := k.c
	isGenIdentity := names(axo + "GenerateIdentityKeyPair")
	info := map[*types.Var]string{}
	for v, n := range c.structFields("/registration", "RegistrationInfo") {
		switch n {
		case "RegistrationID", "Password", "SignalingKey":
			info[v] = n
		}
	}
	gen := c.p.reachesCall(func(cc *ssa.CallCommon) bool { return isGenIdentity(calleeName(cc)) })
	req := c.p.reachesInstr(func(in ssa.Instruction) bool {
		if cc := callOf(in); cc != nil && isRequest(cc) {
			return true
		}
		return handsOver(in)
	})
	isStore := func(f *ssa.Function) bool {
		r := f.Signature.Recv()
		return r != nil && types.Identical(deref(r.Type()), k.store)
	}
	storing := c.p.reachesInstr(func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		for _, t := range c.p.targets(ci.Common()) {
			if isStore(t) {
				return true
			}
		}
		return false
	})
	makes := c.p.reachesInstr(func(in ssa.Instruction) bool {
		if cc := callOf(in); cc != nil && isGenIdentity(calleeName(cc)) {
			return true
		}
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		return ok && info[fieldOf(fa.X.Type(), fa.Field)] != ""
	})
	both := func(f *ssa.Function) bool {
		return gen[f] && req[f] && storing[f] && !inCmd(f) && f.Synthetic == ""
	}
	var roots []*ssa.Function
	for _, f := range c.p.AllFuncs {
		if !both(f) {
			continue
		}
		low := true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if _, ok := in.(*ssa.Go); ok {
						continue
					}
					for _, g := range c.p.targets(ci.Common()) {
						if g != f && both(g) {
							low = false
						}
					}
				}
			}
		}
		if low {
			roots = append(roots, f)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].Pos() < roots[j].Pos() })
	for _, root := range roots {
		var e *Engine
		res := &rootResult{inst: map[string]instRes{}}
		reached := func(st *State, pos token.Pos, in *ssa.Function, ctx *Ctx) {
			for _, m := range st.events("pk.generated") {
				ok := false
				for _, s := range st.events("pk.kept") {
					if s.Err == nil || st.isNil(s.Err) != 1 {
						continue
					}
					for _, a := range s.Args[1:] {
						ok = ok || e.it.contains(a, func(y *Expr) bool { return y == m.Res })
					}
				}
				path := ""
				if ctx != nil {
					path = c.p.ctxPath(ctx)
				}
				res.put(m.Name+" in "+fnName(root), pos, in, ok, "a request is sent before the new "+m.Name+" was stored", path)
			}
		}
		fresh := func(st *State, name string, v *Expr, pos token.Pos, fn *ssa.Function) {
			v = v.strip()
			for _, m := range st.events("pk.generated") {
				if m.Name == name && m.Res == v {
					return
				}
			}
			st.record(Event{Kind: "pk.generated", Name: name, Res: v, Pos: pos, Fn: fn})
		}
		e = newEngine(c.p, Hooks{
			Call: func(st *State, ci *CallInfo) Action {
				if ci.Go {
					return Default
				}
				if isGenIdentity(ci.Name) || ci.Callee != nil && isStore(ci.Callee) {
					return Opaque
				}
				if ci.Site != nil && isRequest(ci.Site.Common()) || ci.Callee != nil && req[ci.Callee] && !makes[ci.Callee] && !storing[ci.Callee] {
					reached(st, ci.Pos(), ci.In, ci.Ctx)
				}
				return Default
			},
			After: func(st *State, ci *CallInfo, r *Expr) {
				if ci.Site != nil && ci.Callee != nil && isStore(ci.Callee) && !ci.Go {
					st.record(Event{Kind: "pk.kept", Name: ci.Name, Args: ci.Args, Res: r, Err: e.errOf(ci.Site, r), Pos: ci.Pos(), Fn: ci.In})
				}
			},
			Store: func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
				v := val.strip()
				if addr.k == KGlobal && e.fromCall(v, isGenIdentity) && v.k == KCall {
					fresh(st, "identity key", v, in.Pos(), fr.fn)
				}
				f, _ := addr.obj.(*types.Var)
				if addr.k == KFieldAddr && info[f] != "" && v.k != KConst && v.k != KZero {
					// what was read from the store needs no storing
					if e.it.contains(v, func(y *Expr) bool {
						return y.k == KCall && k.store.Obj() != nil && strings.Contains(y.s, "."+k.store.Obj().Name()+".")
					}) {
						return
					}
					fresh(st, map[string]string{"RegistrationID": "registration id", "Password": "password", "SignalingKey": "signaling key"}[info[f]], v, in.Pos(), fr.fn)
				}
			},
			Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) {
				return makes[fn] || storing[fn] && req[fn], true
			},
		})
		e.relevant = gen
		for _, x := range e.Run(root) {
			if x.panic {
				continue
			}
		}
		c.useBounded(e)
		for _, key := range res.order {
			i := res.inst[key]
			c.rules["generated"]++
			if i.ok {
				c.rules["generated"]--
				c.ob("generated", key, i.pos, true, "")
			} else {
				c.fail("generated", key, c.p.pos(i.pos), i.detail, i.path)
			}
		}
	}
}

// places: what is stored is found again.
func (k *prekeys) places() {
	c := k.c
	groups := []struct {
		name  string
		write []string
		read  []string
	}{
		{"pre-key", []string{"StorePreKey"}, []string{"LoadPreKey", "ContainsPreKey", "RemovePreKey"}},
		{"signed pre-key", []string{"StoreSignedPreKey"}, []string{"LoadSignedPreKey", "ContainsSignedPreKey", "RemoveSignedPreKey"}},
		{"session", []string{"StoreSession"}, []string{"LoadSession", "ContainsSession", "DeleteSession"}},
		{"identity", []string{"SaveIdentity"}, []string{"IsTrustedIdentity"}},
		{"identity key pair", []string{"SetIdentityKeyPair"}, []string{"GetIdentityKeyPair"}},
		{"registration id", []string{"SetLocalRegistrationID"}, []string{"GetLocalRegistrationID"}},
	}
	method := func(n string) *ssa.Function {
		for i := 0; i < k.store.NumMethods(); i++ {
			if k.store.Method(i).Name() == n {
				return c.p.SSA.FuncValue(k.store.Method(i))
			}
		}
		return nil
	}
	paths := func(f *ssa.Function) map[string]bool {
		out := map[string]bool{}
		var e *Engine
		reach := c.p.reachesCall(func(cc *ssa.CallCommon) bool { _, ok := filePaths(calleeName(cc)); return ok })
		e = newEngine(c.p, Hooks{
			Call: func(st *State, ci *CallInfo) Action {
				if n, ok := filePaths(ci.Name); ok {
					for i := 0; i < n && i < len(ci.Args); i++ {
						if s := k.canon(e, st, ci.Args[i], 0); s != "" {
							out[s] = true
						}
					}
				}
				return Default
			},
			Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) { return true, reach[fn] },
		})
		e.Run(f)
		c.useBounded(e)
		return out
	}
	kept := map[string]string{} // where what is kept
	for _, g := range groups {
		w := map[string]bool{}
		var at token.Pos
		for _, n := range g.write {
			f := method(n)
			if f == nil {
				continue
			}
			at = f.Pos()
			for s := range paths(f) {
				w[s] = true
			}
		}
		c.ob("same-place", g.name, at, len(w) > 0, "the file a "+g.name+" is stored in cannot be told")
		if len(w) == 0 {
			continue
		}
		other := ""
		for s := range w {
			if kept[s] != "" {
				other = kept[s]
			}
			kept[s] = g.name
		}
		c.ob("same-place", g.name+" apart", at, other == "", "a "+g.name+" overwrites the "+other+" of the same id")
		for _, n := range g.read {
			f := method(n)
			if f == nil {
				continue
			}
			ps := paths(f)
			ok := len(ps) > 0
			for s := range ps {
				trace("place %s %s: %s", g.name, n, s)
				ok = ok && w[s]
			}
			c.ob("same-place", g.name+" "+n, f.Pos(), ok, n+" does not look where a "+g.name+" is stored")
		}
	}
}

// filePaths: the number of leading arguments of a file operation that are paths.
func filePaths(n string) (int, bool) {
	switch n {
	case "os.Open", "os.Create", "os.OpenFile", "os.ReadFile", "os.WriteFile", "os.Remove", "os.Stat", "os.Lstat", "io/ioutil.ReadFile", "io/ioutil.WriteFile":
		return 1, true
	case "os.Rename":
		return 2, true
	}
	return 0, false
}

// canon prints a path without the names of parameters and variables.
func (k *prekeys) canon(e *Engine, st *State, x *Expr, d int) string {
	if x == nil || d > 20 {
		return "_"
	}
	x = x.strip()
	list := func(xs []*Expr) string {
		var s []string
		for _, a := range xs {
			s = append(s, k.canon(e, st, a, d+1))
		}
		return strings.Join(s, ",")
	}
	switch x.k {
	case KConst:
		if x.isInt {
			return fmt.Sprint(x.n)
		}
		return x.s
	case KParam:
		return fmt.Sprintf("P%d", x.n)
	case KLoad, KStale:
		if len(x.a) > 0 {
			return k.canon(e, st, x.a[0], d+1)
		}
	case KFieldAddr, KField:
		return k.canon(e, st, x.a[0], d+1) + "." + x.s
	case KCall:
		if x.s == "path/filepath.Join" || x.s == "path.Join" {
			var xs []*Expr
			for _, a := range x.a {
				if es := e.variadic(st, a); es != nil {
					xs = append(xs, es...)
				} else {
					xs = append(xs, a)
				}
			}
			var s []string
			for _, a := range xs {
				s = append(s, k.canon(e, st, a, d+1))
			}
			return strings.Join(s, "+/+")
		}
		if x.s == "fmt.Sprintf" && len(x.a) == 2 {
			f := k.canon(e, st, x.a[0], d+1)
			if es := e.variadic(st, x.a[1]); es != nil {
				return f + "%(" + list(es) + ")"
			}
		}
		return x.s + "(" + list(x.a) + ")"
	case KBin:
		if x.s == "+" {
			return k.canon(e, st, x.a[0], d+1) + "+" + k.canon(e, st, x.a[1], d+1)
		}
		return "(" + k.canon(e, st, x.a[0], d+1) + x.s + k.canon(e, st, x.a[1], d+1) + ")"
	}
	if len(x.a) == 0 {
		return x.s
	}
	return x.s + "{" + list(x.a) + "}"
}

// variadic: the elements a variadic call was given.
func (e *Engine) variadic(st *State, x *Expr) []*Expr {
	b := x
	for b.k == KSlice || b.k == KConv {
		if b.k == KSlice && len(b.a) > 3 && b.a[3] != nil {
			if v := b.a[3]; v.k == KStruct && v.s == "array" {
				return v.a
			}
		}
		b = b.a[0]
	}
	if b.k != KAlloc || b.t == nil {
		return nil
	}
	pt, ok := b.t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	at, ok := pt.Elem().Underlying().(*types.Array)
	if !ok || at.Len() > 16 {
		return nil
	}
	var out []*Expr
	for i := int64(0); i < at.Len(); i++ {
		out = append(out, e.read(st, e.it.mk(Expr{k: KIndexAddr, a: []*Expr{b, e.it.intConst(i)}, t: types.NewPointer(at.Elem())}, ""), at.Elem()))
	}
	return out
}
