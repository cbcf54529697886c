package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&propDef{
		ID:      "C13",
		Expl:    "The key store is the type of the module that implements the axolotl storage interfaces. (1) Every file write whose path is built from one of its directories is an obligation, decided by the disjunctive dataflow in the writing function and upwards through its callers: the bytes written must be a block-cipher ciphertext under one key field of the store, followed by an HMAC under another key field over all of it, unless the store's no-password flag is known to be set on the path. (2) The key fields must be filled with non-overlapping parts, of at least 16 bytes each, of one password-based derivation from the password and a salt that was written to, or read from, disk on the same path. (3) The flag may be set only from the comparison of the password with the empty string. (4) Every file and directory creation of the library (outside the example commands) must carry a constant mode without group and other bits; profile pictures excepted.",
		Assume:  []string{"crypto/hmac, crypto/aes, crypto/cipher and x/crypto/pbkdf2 behave as documented", "no two distinct struct fields alias", "freshness of IVs is C15, authenticity of what is read back is C02"},
		Minimum: map[string]int{"written-encrypted": 1, "store-keys": 1, "salt-kept": 1, "private-mode": 8, "no-password": 1},
		Run:     runC13,
	})
}

// storeType: the implementation of the storage interfaces.
func (c *Check) storeType() *types.Named {
	var iface *types.Interface
	for _, pkg := range c.p.Pkgs {
		if pkg.PkgPath == Mod+"/axolotl" {
			if o := pkg.Types.Scope().Lookup("SessionStore"); o != nil {
				iface, _ = o.Type().Underlying().(*types.Interface)
			}
		}
	}
	if iface == nil {
		return nil
	}
	var out *types.Named
	for _, n := range c.p.named {
		if !types.IsInterface(n) && types.Implements(types.NewPointer(n), iface) {
			if out != nil {
				return nil
			}
			out = n
		}
	}
	return out
}

func isFileWrite(n string) bool {
	return names("os.WriteFile", "io/ioutil.WriteFile", "os.File.Write", "os.File.WriteString", "os.File.WriteAt")(n)
}

func runC13(c *Check) {
	st := c.storeType()
	if st == nil {
		c.fail("anchor", "store", "-", "no unique implementation of axolotl.SessionStore", "")
		return
	}
	s := st.Underlying().(*types.Struct)
	field := map[types.Object]types.Type{}
	for i := 0; i < s.NumFields(); i++ {
		field[s.Field(i)] = s.Field(i).Type().Underlying()
	}
	isField := func(y *Expr, kind func(types.Type) bool) bool {
		return (y.k == KFieldAddr || y.k == KField) && y.obj != nil && field[y.obj] != nil && kind(field[y.obj])
	}
	isBytes := func(t types.Type) bool {
		switch t := t.(type) {
		case *types.Slice:
			b, ok := t.Elem().Underlying().(*types.Basic)
			return ok && b.Kind() == types.Byte
		case *types.Array:
			b, ok := t.Elem().Underlying().(*types.Basic)
			return ok && b.Kind() == types.Byte
		}
		return false
	}
	c.storeWrites(isField, isBytes)
	c.storeKeys(isField, isBytes)
	c.modes()
}

func (c *Check) startsWith(sink func(in ssa.Instruction) bool, keep func(f *ssa.Function) bool) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.p.AllFuncs {
		if c.p.isGen(f.Pos()) || f.Blocks == nil || f.Synthetic != "" || !keep(f) {
			continue
		}
		has := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				has = has || sink(in)
			}
		}
		if has {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func callOf(in ssa.Instruction) *ssa.CallCommon {
	if ci, ok := in.(ssa.CallInstruction); ok {
		return ci.Common()
	}
	return nil
}

func (c *Check) storeWrites(isField func(*Expr, func(types.Type) bool) bool, isBytes func(types.Type) bool) {
	start := c.startsWith(func(in ssa.Instruction) bool {
		cc := callOf(in)
		return cc != nil && isFileWrite(calleeName(cc))
	}, func(f *ssa.Function) bool { return !inCmd(f) })
	c.upwardTo("written-encrypted", start, func(root, target *ssa.Function, res *rootResult, rel map[*ssa.Function]bool) {
		var e *Engine
		isPath := func(t types.Type) bool { return isStringT(t) }
		h := Hooks{
			Call: func(st *State, ci *CallInfo) Action {
				if ci.In != target || ci.Site == nil || !isFileWrite(ci.Name) {
					return Default
				}
				path, data := ci.Args[0], ci.Args[1]
				trace("write %s root=%s path=%v data=%v", fnName(target), fnName(root), path, data)
				k := fmt.Sprintf("%s@%s", fnName(target), ci.Name)
				below := e.it.contains(path, func(y *Expr) bool { return isField(y, isPath) })
				if !below && random(e, st, data) == "" {
					return Default // the salt
				}
				w := c.sealed(e, st, data, isField, isBytes)
				detail := "key material is written to disk although " + w
				switch {
				case w == "":
					if below || root != target || e.it.contains(path, func(y *Expr) bool { return y.k == KParam }) {
						res.put(k, ci.Pos(), target, true, "", "")
					}
				case below:
					res.put(k, ci.Pos(), target, false, detail, c.p.ctxPath(ci.Ctx))
				case e.it.contains(path, func(y *Expr) bool { return y.k == KParam || y.k == KFree }):
					res.putSoft(k, ci.Pos(), target, detail, c.p.ctxPath(ci.Ctx))
				}
				return Default
			},
			After: func(st *State, ci *CallInfo, r *Expr) {
				recordRandom(e, st, ci, r)
				if ci.Name == "crypto/cipher.BlockMode.CryptBlocks" || ci.Name == "crypto/cipher.Stream.XORKeyStream" {
					st.record(Event{Kind: "crypt", Name: ci.Name, Args: ci.Args, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
				}
			},
			Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) {
				return true, len(fn.Blocks) < 12 && makesValue(fn)
			},
		}
		e = newEngine(c.p, h)
		e.relevant = rel
		e.Run(root)
		c.useBounded(e)
	}, 4, nil)
}

// sealed: "" when data is a ciphertext under one of the store's keys followed
// by a tag under another, or the store has no password.
func (c *Check) sealed(e *Engine, st *State, data *Expr, isField func(*Expr, func(types.Type) bool) bool, isBytes func(types.Type) bool) string {
	for b, v := range st.bf {
		if v && b.k == KLoad && isField(b.a[0], func(t types.Type) bool { return isBoolT(t) }) {
			return ""
		}
	}
	keyField := func(x *Expr) types.Object {
		var o types.Object
		e.it.contains(x, func(y *Expr) bool {
			if o == nil && isField(y, isBytes) {
				o = y.obj
			}
			return false
		})
		return o
	}
	d := data
	for d.k == KConv || d.k == KIface {
		d = d.a[0]
	}
	parts := e.pieces(st, d)
	if len(parts) == 0 {
		return "nothing is known about the bytes"
	}
	if b := e.span(parts[len(parts)-1]).base; b.k == KCall && strings.HasSuffix(b.s, ".Seal") && keyField(b.a[0]) != nil {
		return ""
	}
	sum := e.sumIn(parts[len(parts)-1])
	if sum == nil {
		return "they do not end in an authentication tag"
	}
	content := parts[:len(parts)-1]
	content = append(content[:len(content):len(content)], e.pieces(st, sum.a[1])...)
	m := &macInfo{sum: sum}
	e.fillMac(st, m)
	var macKey types.Object
	if m.key != nil {
		macKey = keyField(m.key)
	}
	if macKey == nil {
		return "the tag is not keyed with a key of the store"
	}
	var signed []*Expr
	for _, w := range m.writes {
		signed = append(signed, e.pieces(st, w)...)
	}
	if len(signed) != len(content) {
		return "the tag does not cover exactly what is written"
	}
	for i := range signed {
		if signed[i] != content[i] {
			return "the tag does not cover exactly what is written"
		}
	}
	enc := false
	for _, q := range content {
		b := e.span(q).base
		done := random(e, st, q) == ""
		for _, ev := range st.events("crypt") {
			if e.span(ev.Args[1]).base != b {
				continue
			}
			mode := ev.Args[0].strip()
			if mode.k != KCall || !strings.Contains(mode.s, "Encrypter") && !strings.HasSuffix(mode.s, "NewCTR") {
				continue
			}
			key := cipherKey(mode.a[0])
			if key == nil || keyField(key) == nil {
				return "the cipher is not keyed with a key of the store"
			}
			if keyField(key) == macKey {
				return "cipher and tag share one key"
			}
			done, enc = true, true
		}
		if !done {
			return "part of what is written is not encrypted"
		}
	}
	if !enc {
		return "what is written is not encrypted"
	}
	return ""
}

func (c *Check) storeKeys(isField func(*Expr, func(types.Type) bool) bool, isBytes func(types.Type) bool) {
	fieldStore := func(in ssa.Instruction, kind func(types.Type) bool) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		f := fieldOf(fa.X.Type(), fa.Field)
		return f != nil && isField(&Expr{k: KFieldAddr, obj: f}, kind)
	}
	keep := func(f *ssa.Function) bool { return true }
	// the flag
	flags := c.startsWith(func(in ssa.Instruction) bool { return fieldStore(in, isBoolT) }, keep)
	c.upwardTo("no-password", flags, func(root, target *ssa.Function, res *rootResult, rel map[*ssa.Function]bool) {
		var e *Engine
		h := Hooks{Store: func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
			if fr.fn != target || addr.k != KFieldAddr || !isField(addr, isBoolT) {
				return
			}
			ok := st.boolVal(val) == 0
			if !ok {
				t := st.clone()
				ok = !t.assume(val, true) || emptyString(e, t)
			}
			res.put(fnName(target)+"."+addr.obj.Name(), in.Pos(), target, ok, "the store is left unencrypted although the password may be set", c.p.ctxPath(fr.ctx))
		}}
		e = newEngine(c.p, h)
		e.relevant = rel
		e.Run(root)
		c.useBounded(e)
	}, 3, nil)
	// the keys
	start := c.startsWith(func(in ssa.Instruction) bool { return fieldStore(in, isBytes) }, keep)
	for _, f := range start {
		var e *Engine
		h := Hooks{Store: func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
			if addr.k == KFieldAddr && isField(addr, isBytes) {
				st.record(Event{Kind: "key", Name: addr.obj.Name(), Args: []*Expr{val}, Pos: in.Pos(), Fn: fr.fn})
			}
		}}
		e = newEngine(c.p, h)
		bad := ""
		for _, x := range e.Run(f) {
			evs := x.st.events("key")
			for i, a := range evs {
				sa := e.span(a.Args[0])
				if a.Args[0].isNil() || a.Args[0].k == KZero {
					continue
				}
				if sa.base.k != KCall || sa.base.s != "golang.org/x/crypto/pbkdf2.Key" {
					bad = "the field " + a.Name + " is filled with something else than a password-based derivation"
					continue
				}
				if lo, _ := x.st.interval(e.lenLin(a.Args[0])); lo < 16 {
					bad = "the key in " + a.Name + " may have fewer than 16 bytes"
				}
				for _, b := range evs[:i] {
					sb := e.span(b.Args[0])
					if b.Name != a.Name && (sb.base != sa.base || !e.apart(x.st, sa, sb)) {
						bad = "the keys in " + a.Name + " and " + b.Name + " are not disjoint parts of one derivation"
					}
				}
			}
		}
		c.use(e)
		c.ob("store-keys", fnName(f), f.Pos(), bad == "", bad)
	}
	// the salt
	isKdf := func(n string) bool { return n == "golang.org/x/crypto/pbkdf2.Key" }
	kdfs := c.startsWith(func(in ssa.Instruction) bool {
		cc := callOf(in)
		return cc != nil && isKdf(calleeName(cc))
	}, keep)
	c.upwardTo("salt-kept", kdfs, func(root, target *ssa.Function, res *rootResult, rel map[*ssa.Function]bool) {
		var e *Engine
		h := Hooks{
			Call: func(st *State, ci *CallInfo) Action {
				if ci.In != target || ci.Site == nil || !isKdf(ci.Name) {
					return Default
				}
				salt := e.span(ci.Args[1])
				why := "the salt it uses is neither read from disk nor stored before"
				for _, ev := range st.events("disk") {
					if ev.Name == "read" && e.span(ev.Res).base == salt.base {
						why = ""
					}
					if ev.Name == "write" && e.span(ev.Args[1]).base == salt.base {
						if ev.Err != nil && st.isNil(ev.Err) == 1 {
							why = ""
						} else {
							why = "the salt it uses may not have been stored"
						}
					}
				}
				if why == "" && !e.it.contains(ci.Args[0], func(y *Expr) bool {
					return (y.k == KParam || y.k == KLoad || y.k == KCall) && isStringT(y.t)
				}) {
					why = "it does not use the password"
				}
				if why == "" {
					some, used := false, false
					for b, v := range st.bf {
						if !v && b.k == KBin && b.s == "==" {
							for i := 0; i < 2; i++ {
								if b.a[i].k == KConst && b.a[i].s == `""` {
									some = true
									used = used || e.it.contains(ci.Args[0], func(y *Expr) bool { return y == b.a[1-i] })
								}
							}
						}
					}
					if some && !used {
						why = "it does not use the password"
					}
				}
				if n := ci.Args[2]; why == "" && n.k == KConst && n.isInt && n.n < 1000 {
					why = "fewer than 1000 iterations are made"
				}
				res.put(fnName(target), ci.Pos(), target, why == "", "the derivation of the store's keys: "+why, c.p.ctxPath(ci.Ctx))
				return Default
			},
			After: func(st *State, ci *CallInfo, r *Expr) {
				switch ci.Name {
				case "os.ReadFile", "io/ioutil.ReadFile":
					st.record(Event{Kind: "disk", Name: "read", Args: ci.Args, Res: e.result(r, 0, 2, nil), Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
				case "os.WriteFile", "io/ioutil.WriteFile", "os.File.Write":
					st.record(Event{Kind: "disk", Name: "write", Args: ci.Args, Res: r, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx, Err: e.errOf(ci.Site, r)})
				}
			},
			Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) { return true, len(fn.Blocks) < 12 && makesValue(fn) },
		}
		e = newEngine(c.p, h)
		e.relevant = rel
		e.Run(root)
		c.useBounded(e)
	}, 3, nil)
}

// emptyString: some string is known to be empty.
func emptyString(e *Engine, st *State) bool {
	for b, v := range st.bf {
		if b.k == KBin && v && b.s == "==" && (b.a[0].k == KConst && b.a[0].s == `""` || b.a[1].k == KConst && b.a[1].s == `""`) {
			return true
		}
	}
	for x, y := range st.eq {
		if isStringT(x.t) && y == `""` {
			return true
		}
	}
	for _, b := range st.bd {
		for a := range b.l.c {
			if a.k == KCall && a.s == "builtin.len" && isStringT(a.a[0].t) {
				if _, hi := st.interval(e.lenLin(a.a[0])); hi == 0 {
					return true
				}
			}
		}
	}
	return false
}

// modes: the permission bits of everything created.
func (c *Check) modes() {
	arg := map[string]int{"os.WriteFile": 2, "io/ioutil.WriteFile": 2, "os.MkdirAll": 1, "os.Mkdir": 1, "os.OpenFile": 2, "os.Chmod": 1, "os.File.Chmod": 1, "os.Create": -1}
	start := c.startsWith(func(in ssa.Instruction) bool {
		cc := callOf(in)
		return cc != nil && arg[calleeName(cc)] != 0
	}, func(f *ssa.Function) bool { return !inCmd(f) && !savesPicture(f) })
	c.upwardTo("private-mode", start, func(root, target *ssa.Function, res *rootResult, rel map[*ssa.Function]bool) {
		h := Hooks{Call: func(st *State, ci *CallInfo) Action {
			i := arg[ci.Name]
			if ci.In != target || ci.Site == nil || i == 0 {
				return Default
			}
			k := fmt.Sprintf("%s@%s", fnName(target), c.p.pos(ci.Pos()))
			ok, what := false, "is created readable by every user"
			if i > 0 {
				m := ci.Args[i].strip()
				if m.k == KConst && m.isInt {
					ok = m.n&0077 == 0
					what = fmt.Sprintf("is created with mode %#o", m.n)
				} else {
					what = "is created with a mode that is not a constant"
				}
				if ci.Name == "os.OpenFile" && !ok {
					if fl := ci.Args[1].strip(); fl.k == KConst && fl.isInt && fl.n&createFlag(c) == 0 {
						ok = true
					}
				}
			}
			res.put(k, ci.Pos(), target, ok, "the file or directory "+what, c.p.ctxPath(ci.Ctx))
			return Default
		}}
		e := newEngine(c.p, h)
		e.relevant = rel
		e.Run(root)
		c.useBounded(e)
	}, 3, nil)
}

func createFlag(c *Check) int64 {
	if p := c.p.SSA.ImportedPackage("os"); p != nil {
		if n, ok := p.Members["O_CREATE"].(*ssa.NamedConst); ok {
			if v, ok := constant.Int64Val(n.Value.Value); ok {
				return v
			}
		}
	}
	return 0x40
}
