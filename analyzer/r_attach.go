package main

import (
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&propDef{
		ID: "C31",
		Expl: "Every place that fills an attachment pointer, every place that makes the description it is filled from, every request to the content server with a body and every provisioning envelope was enumerated; each is decided by path-sensitive dataflow in its function and, where it depends on arguments, in the callers. " +
			"pointer: key, digest, size, CDN key and CDN number of a pointer all come from one description of an upload, the same way everywhere. " +
			"described: when the description is handed out, its key is 64 random bytes made for this upload, whose first half keyed the cipher and second half the MAC of the uploaded body, its digest is the SHA-256 of exactly the body of a successful upload, its size is the length of all that was read from the source, and CDN key and number are those of the allocation uploaded to. " +
			"sealed-upload: each body uploaded is a random vector and a ciphertext over the whole plaintext followed by an untruncated MAC over all of it. " +
			"provisioning: the body of a provisioning envelope is a version byte, vector and ciphertext followed by a MAC over all of them; cipher and MAC key are disjoint parts of a derivation from the agreement of a fresh key pair with the receiver's key, and the public key of that pair is sent. " +
			"plain: the bytes of a marshalled provisioning message reach no call outside the module but the block cipher (and appends, copies and length computations).",
		Assume:  []string{"crypto/*, hkdf and io.ReadAll behave as documented", "no two distinct struct fields alias", "the padding inside the last cipher block is not examined"},
		Minimum: map[string]int{"pointer": 1, "described": 1, "sealed-upload": 1, "provisioning": 1, "plain": 1},
		Run:     runC31,
	})
}

// sealing: how a body was encrypted and authenticated.
type sealing struct {
	cipher, mac *Expr // keys
	plain       *Expr // what was encrypted
}

// sealedBody: "" when body is a random vector and ciphertext (behind constant
// bytes if prefix) followed by a MAC over all of it.
func (c *Check) sealedBody(e *Engine, st *State, body *Expr, prefix bool) (string, *sealing) {
	parts := e.pieces(st, body)
	if len(parts) == 0 {
		return "nothing is known about the bytes", nil
	}
	last := parts[len(parts)-1]
	sum := e.sumIn(last)
	if sum == nil {
		return "it does not end in an authentication tag", nil
	}
	for y := last; y != sum; y = y.a[0] {
		if y.k == KSlice {
			return "the authentication tag is cut", nil
		}
	}
	content := parts[:len(parts)-1]
	content = append(content[:len(content):len(content)], e.pieces(st, sum.a[1])...)
	m := &macInfo{sum: sum}
	e.fillMac(st, m)
	if m.key == nil {
		return "the tag is not keyed", nil
	}
	var signed []*Expr
	for _, w := range m.writes {
		signed = append(signed, e.pieces(st, w)...)
	}
	same := len(signed) == len(content)
	for i := range signed {
		same = same && signed[i] == content[i]
	}
	if !same {
		return "the tag does not cover exactly what is sent", nil
	}
	s := &sealing{mac: m.key}
	for i, q := range content {
		if prefix && i == 0 && len(content) > 1 && fixedBytes(e, st, q) != "" {
			continue
		}
		out := e.span(q)
		at := out.lo // everything before is random or encrypted
		for more := true; more; {
			more = false
			step := func(in span) {
				if in.base == out.base && st.provedLE0(in.lo.add(at, -1)) && st.provedLE0(at.add(in.hi, -1)) && !st.provedLE0(in.hi.add(at, -1)) {
					at, more = in.hi, true
				}
			}
			for _, ev := range st.events("fill") {
				step(e.span(ev.Args[0]))
			}
			for _, ev := range st.events("crypt") {
				mode := ev.Args[0].strip()
				if mode.k != KCall || !strings.Contains(mode.s, "Encrypter") && !strings.HasSuffix(mode.s, "NewCTR") {
					continue
				}
				to, from := e.span(ev.Args[1]), ev.Args[2]
				if to.base != out.base || !isZeroLin(to.hi.add(to.lo, -1).add(e.lenLin(from.strip()), -1)) && !st.provedLE0(to.hi.add(to.lo, -1).add(e.lenLin(from.strip()), -1)) {
					continue
				}
				key := cipherKey(mode.a[0])
				if key == nil {
					continue
				}
				s.cipher, s.plain = key, from
				step(to)
			}
		}
		if !st.provedLE0(out.hi.add(at, -1)) {
			return "part of what is sent is neither encrypted nor random", nil
		}
	}
	if s.cipher == nil {
		return "what is sent is not encrypted", nil
	}
	a, b := e.span(s.cipher.strip()), e.span(s.mac.strip())
	if a.base == b.base && !e.apart(st, a, b) {
		return "cipher and tag share key bytes", nil
	}
	return "", s
}

func isUpload(cc *ssa.CallCommon) int { // index of the body, -1 when none
	if !strings.HasPrefix(calleeName(cc), "ts/transport.httpTransporter.") && !strings.HasPrefix(calleeName(cc), "ts/transport.Transporter.") {
		return -1
	}
	sig := cc.Signature()
	for i := 0; i < sig.Params().Len(); i++ {
		if sig.Params().At(i).Type().String() == "[]byte" {
			if !cc.IsInvoke() {
				return i + 1
			}
			return i + 1
		}
	}
	return -1
}

func toCdn(cc *ssa.CallCommon) bool {
	v := cc.Value
	if !cc.IsInvoke() && len(cc.Args) > 0 {
		v = cc.Args[0]
	}
	for {
		switch y := v.(type) {
		case *ssa.UnOp:
			v = y.X
			continue
		case *ssa.MakeInterface:
			v = y.X
			continue
		case *ssa.Global:
			return y.Name() == "CdnTransport"
		}
		return false
	}
}

func (c *Check) sealHooks(e **Engine, h Hooks) Hooks {
	after := h.After
	h.After = func(st *State, ci *CallInfo, r *Expr) {
		recordRandom(*e, st, ci, r)
		if ci.Name == "crypto/cipher.BlockMode.CryptBlocks" || ci.Name == "crypto/cipher.Stream.XORKeyStream" {
			st.record(Event{Kind: "crypt", Name: ci.Name, Args: ci.Args, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
		}
		if after != nil {
			after(st, ci, r)
		}
	}
	return h
}

func runC31(c *Check) {
	carrier, roles := c.pointers()
	if carrier != nil {
		c.described(carrier, roles)
	}
	c.uploads()
	c.provisioning()
	c.plain()
}

var pointerRoles = []string{"Key", "Digest", "Size", "CdnKey", "CdnNumber"}

// pointers: each attachment pointer is filled from one description.
func (c *Check) pointers() (*types.Named, map[string]*types.Var) {
	isPtr := func(t types.Type) bool { return namedIs(t, Mod+"/protobuf", "AttachmentPointer") }
	start := c.startsWith(func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok || !isPtr(fa.X.Type()) {
			return false
		}
		f := fieldOf(fa.X.Type(), fa.Field)
		return f != nil && f.Name() == "Key"
	}, func(f *ssa.Function) bool { return !inCmd(f) })
	var carrier *types.Named
	roles := map[string]*types.Var{}
	upload := c.p.reachesCall(func(cc *ssa.CallCommon) bool { return isUpload(cc) >= 0 })
	c.upwardTo("pointer", start, func(root, target *ssa.Function, res *rootResult, rel map[*ssa.Function]bool) {
		var e *Engine
		judge := func(st *State, base *Expr, get func(string) *Expr) (string, bool) {
			var from *Expr
			for _, role := range pointerRoles {
				v := get(role)
				if v == nil {
					return "the pointer has no " + role, false
				}
				r, f, whole := c.carried(e, st, v)
				trace("C31 pointer %s %s: %v -> %v %v", fnName(target), role, v, r, f)
				if f == nil {
					return role + " of the pointer is not taken from the description of an upload", e.fromAnyParam(v)
				}
				if !whole {
					return "only a part of the " + role + " of the upload is put into the pointer", false
				}
				n := namedOf(derefT(r.t))
				if n == nil {
					return role + " of the pointer is not taken from the description of an upload", false
				}
				switch {
				case from == nil:
					from = r
				case from != r:
					return role + " is taken from another upload than the key", false
				}
				if carrier == nil {
					carrier = n
				}
				if carrier != n {
					return "the pointer is filled from another kind of description than elsewhere", false
				}
				if roles[role] == nil {
					roles[role] = f
				}
				if roles[role] != f {
					return role + " is taken from " + f.Name() + ", elsewhere from " + roles[role].Name(), false
				}
				for _, o := range pointerRoles {
					if o != role && roles[o] == f {
						return role + " and " + o + " are both taken from " + f.Name(), false
					}
				}
			}
			return "", false
		}
		h := Hooks{Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) {
			return false, upload[fn] && !rel[fn]
		}, Store: func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
			if addr.k == KFieldAddr && fr.fn == target && isPtr(addr.a[0].t) {
				st.record(Event{Kind: "pointer", Name: addr.obj.Name(), Args: []*Expr{addr.a[0].strip(), val}, Pos: in.Pos(), Fn: fr.fn, Ctx: fr.ctx})
			}
		}}
		e = newEngine(c.p, h)
		e.relevant = rel
		for _, x := range e.Run(root) {
			for _, k := range x.st.events("pointer") {
				if k.Name != "Key" {
					continue
				}
				bad, up := judge(x.st, k.Args[0], func(role string) *Expr {
					field := role
					if role == "CdnKey" {
						field = "AttachmentIdentifier"
					}
					var v *Expr
					for _, o := range x.st.events("pointer") {
						if o.Args[0] == k.Args[0] && o.Name == field {
							v = o.Args[1]
						}
					}
					if v == nil {
						return nil
					}
					if role == "CdnKey" {
						y := v.strip()
						f, i := fieldNamed(y.t, "CdnKey")
						if f == nil {
							return nil
						}
						return e.read(x.st, e.fieldAddr(y, f, i), f.Type())
					}
					if _, ok := v.t.Underlying().(*types.Pointer); ok || role == "Size" || role == "CdnNumber" {
						return pointee(e, x.st, v)
					}
					return v
				})
				key := fnName(target)
				switch {
				case bad == "":
					res.put(key, k.Pos, target, true, "", "")
				case up:
					res.putSoft(key, k.Pos, target, bad, c.p.ctxPath(k.Ctx))
				default:
					res.put(key, k.Pos, target, false, bad, c.p.ctxPath(k.Ctx))
				}
			}
		}
		c.useBounded(e)
	}, 3, nil)
	return carrier, roles
}

// carried: the object and field of the module a value is read from.
func (c *Check) carried(e *Engine, st *State, v *Expr) (*Expr, *types.Var, bool) {
	whole := true
	y := v.strip()
	for y.k == KSlice {
		s := e.span(y)
		b := y.a[0].strip()
		if !isZeroLin(s.lo) || !isZeroLin(s.hi.add(e.lenLin(s.base), -1)) {
			whole = false
		}
		y = b
	}
	var f *types.Var
	switch y.k {
	case KLoad:
		a := y.a[0].strip()
		if a.k == KFieldAddr {
			f, _ = a.obj.(*types.Var)
			y = a.a[0].strip()
		}
	case KFieldAddr, KField:
		f, _ = y.obj.(*types.Var)
		y = y.a[0].strip()
	}
	if f == nil || f.Pkg() == nil || !c.p.inMod(f.Pkg()) || strings.HasSuffix(f.Pkg().Path(), "/protobuf") {
		return nil, nil, false
	}
	return y, f, whole
}

// pointee: what a pointer made for an optional field points to.
func pointee(e *Engine, st *State, v *Expr) *Expr {
	y := v.strip()
	switch y.k {
	case KCall: // proto.Uint32(x)
		if len(y.a) == 1 {
			return y.a[0]
		}
	case KFieldAddr, KAlloc:
		if p, ok := y.t.Underlying().(*types.Pointer); ok {
			return e.read(st, y, p.Elem())
		}
	}
	return v
}

func fieldNamed(t types.Type, name string) (*types.Var, int) {
	if t == nil {
		return nil, 0
	}
	s, ok := derefT(t).Underlying().(*types.Struct)
	if !ok {
		return nil, 0
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i), i
		}
	}
	return nil, 0
}

func derefT(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	n, _ := t.(*types.Named)
	return n
}

func namedIs(t types.Type, pkg, name string) bool {
	if t == nil {
		return false
	}
	n := namedOf(derefT(t))
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

// described: what is handed out about an upload is true.
func (c *Check) described(carrier *types.Named, roles map[string]*types.Var) {
	roleOf := map[*types.Var]string{}
	for r, f := range roles {
		roleOf[f] = r
	}
	start := c.startsWith(func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		return ok && roles["Key"] != nil && fieldOf(fa.X.Type(), fa.Field) == roles["Key"]
	}, func(f *ssa.Function) bool { return !inCmd(f) })
	made := c.p.reachesCall(func(cc *ssa.CallCommon) bool {
		n := calleeName(cc)
		return isUpload(cc) >= 0 || n == "crypto/cipher.NewCBCEncrypter" || n == "crypto/hmac.New" || n == "crypto/sha256.New" || n == "crypto/rand.Read" || n == "io.ReadFull" || n == "io.ReadAll"
	})
	c.upwardTo("described", start, func(root, target *ssa.Function, res *rootResult, rel map[*ssa.Function]bool) {
		var e *Engine
		h := c.sealHooks(&e, Hooks{
			Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) {
				if strings.HasPrefix(fnName(fn), "ts/transport.") {
					return false, true
				}
				if made[fn] {
					return true, true
				}
				return false, false
			},
			After: func(st *State, ci *CallInfo, r *Expr) {
				if ci.Site == nil {
					return
				}
				if i := isUpload(ci.Site.Common()); i >= 0 && i < len(ci.Args) {
					st.record(Event{Kind: "upload", Name: ci.Name, Args: []*Expr{ci.Args[1], ci.Args[i]}, Res: r, Err: e.errOf(ci.Site, r), Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
				}
				switch ci.Name {
				case "io.ReadAll", "io/ioutil.ReadAll":
					st.record(Event{Kind: "readall", Args: ci.Args[:1], Vals: []*Expr{e.result(r, 0, 2, nil)}, Err: e.errOf(ci.Site, r), Pos: ci.Pos()})
				case "bytes.Buffer.ReadFrom", "io.Copy":
					st.record(Event{Kind: "readall", Args: ci.Args[1:2], Vals: []*Expr{ci.Args[0].strip()}, Err: e.errOf(ci.Site, r), Pos: ci.Pos()})
				case "builtin.copy":
					st.record(Event{Kind: "copy", Args: ci.Args, Pos: ci.Pos()})
				}
			},
			Store: func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
				if addr.k != KFieldAddr || fr.fn != target {
					return
				}
				f, _ := addr.obj.(*types.Var)
				if r := roleOf[f]; r != "" {
					st.record(Event{Kind: "desc", Name: r, Args: []*Expr{addr.a[0].strip(), val}, Pos: in.Pos(), Fn: fr.fn, Ctx: fr.ctx})
				}
			},
		})
		e = newEngine(c.p, h)
		e.relevant = union(rel, made)
		exits := e.Run(root)
		if errResult(root.Signature) >= 0 {
			exits = e.okExits(root, exits)
		}
		for _, x := range exits {
			for _, k := range x.st.events("desc") {
				if k.Name != "Key" {
					continue
				}
				v := map[string]*Expr{}
				for _, o := range x.st.events("desc") {
					if o.Args[0] == k.Args[0] {
						v[o.Name] = o.Args[1]
					}
				}
				bad := c.truth(e, x.st, root, v)
				trace("C31 %s in %s: %v => %s", fnName(target), fnName(root), v, bad)
				up := false
				for _, y := range v {
					y = y.strip()
					for y.k == KSlice {
						y = y.a[0].strip()
					}
					up = up || y.k == KParam
				}
				switch {
				case bad == "":
					res.put(fnName(target), k.Pos, target, true, "", "")
				case up && root == target:
					res.putSoft(fnName(target), k.Pos, target, bad, "")
				default:
					res.put(fnName(target), k.Pos, target, false, bad, c.p.ctxPath(k.Ctx))
				}
			}
		}
		c.useBounded(e)
	}, 3, nil)
}

func union(a, b map[*ssa.Function]bool) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for f := range a {
		m[f] = true
	}
	for f := range b {
		m[f] = true
	}
	return m
}

func (c *Check) truth(e *Engine, st *State, root *ssa.Function, v map[string]*Expr) string {
	for _, r := range pointerRoles {
		if v[r] == nil {
			return "the " + r + " is not filled in"
		}
	}
	key := e.span(v["Key"].strip())
	if !isZeroLin(key.lo) || !isZeroLin(key.hi.add(lin{k: 64}, -1)) {
		return "the key is not 64 bytes"
	}
	if w := random(e, st, v["Key"]); w != "" {
		return "the key is not freshly random: " + w
	}
	// the upload whose digest is given
	var up *Event
	why := "nothing is uploaded"
	for _, ev := range st.events("upload") {
		body := ev.Args[1]
		parts := e.pieces(st, body)
		if len(parts) == 0 {
			continue
		}
		d := c.digested(e, st, v["Digest"])
		if d == nil {
			why = "the digest is not a SHA-256 sum"
			continue
		}
		same := len(d) == len(parts)
		for i := range d {
			same = same && d[i] == parts[i]
		}
		if !same {
			why = "the digest is not that of exactly the bytes uploaded"
			continue
		}
		if ev.Err != nil && st.isNil(ev.Err) != 1 {
			why = "the upload may have failed"
			continue
		}
		up = ev
	}
	if up == nil {
		return why
	}
	w, s := c.sealedBody(e, st, up.Args[1], false)
	if w != "" {
		return "the body uploaded is not sealed: " + w
	}
	half := func(x *Expr, lo, hi int64) bool {
		p := e.span(x.strip())
		return p.base == key.base && isZeroLin(p.lo.add(lin{k: lo}, -1)) && isZeroLin(p.hi.add(lin{k: hi}, -1))
	}
	if !half(s.cipher, 0, 32) {
		return "the body was not encrypted with the first half of the key"
	}
	if !half(s.mac, 32, 64) {
		return "the body was not authenticated with the second half of the key"
	}
	// the source
	parts := e.pieces(st, s.plain)
	if len(parts) == 0 {
		return "nothing is known about what was encrypted"
	}
	src := e.span(parts[0])
	for _, ev := range st.events("copy") { // padded in a buffer of its own
		to := e.span(ev.Args[0].strip())
		if to.base == src.base && isZeroLin(src.lo) && isZeroLin(to.lo) {
			src = e.span(ev.Args[1].strip())
			break
		}
	}
	var read *Event
	for _, ev := range st.events("readall") {
		if ev.Vals[0] == src.base || src.base.k == KCall && src.base.s == "bytes.Buffer.Bytes" && object(e, src.base.a[0]) == object(e, ev.Vals[0]) {
			read = ev
		}
	}
	if read == nil {
		return "what is encrypted does not begin with what was read from the source"
	}
	if st.isNil(read.Err) != 1 {
		return "the source may not have been read to its end"
	}
	if e.it.contains(read.Args[0], func(y *Expr) bool {
		return y.k == KCall && names("io.LimitReader", "io.NewSectionReader")(y.s)
	}) {
		return "only a part of the source is read"
	}
	if !isZeroLin(src.lo) || !isZeroLin(src.hi.add(e.lenLin(src.base), -1)) {
		return "only a part of what was read is encrypted"
	}
	size := v["Size"].strip()
	for size.k == KUn && strings.HasPrefix(size.s, "narrow:") {
		size = size.a[0].strip()
	}
	if !isZeroLin(e.linOf(size).add(e.lenLin(src.base), -1)) {
		return "the size is not the length of the content"
	}
	// the place
	o1, f1, _ := c.carried(e, st, v["CdnKey"])
	o2, f2, _ := c.carried(e, st, v["CdnNumber"])
	if f1 == nil || f2 == nil || o1 != o2 {
		return "CDN key and CDN number do not come from one allocation"
	}
	if jsonName(o1.t, f1) != "key" || jsonName(o2.t, f2) != "cdn" {
		return "CDN key and CDN number are not those of the allocation"
	}
	trace("C31 place %v from %v", up.Args[0], o1)
	if !e.it.contains(up.Args[0], func(y *Expr) bool { return object(e, y) == object(e, o1) }) {
		return "the bytes are uploaded to another place than the allocated one"
	}
	return ""
}

// digested: the pieces a digest was computed over.
func (c *Check) digested(e *Engine, st *State, d *Expr) []*Expr {
	s := e.span(d.strip())
	if !isZeroLin(s.lo) || !isZeroLin(s.hi.add(e.lenLin(s.base), -1)) {
		return nil
	}
	b := s.base.strip()
	if b.k == KAlloc {
		if p, ok := b.t.Underlying().(*types.Pointer); ok {
			b = e.read(st, b, p.Elem()).strip()
		}
	}
	if b.k == KCall && b.s == "crypto/sha256.Sum256" {
		return e.pieces(st, b.a[0])
	}
	if b.k != KCall || b.s != "hash.Hash.Sum" {
		return nil
	}
	h := b.a[0].strip()
	if h.k != KCall || h.s != "crypto/sha256.New" || len(e.pieces(st, b.a[1])) != 0 || len(b.a) < 3 || b.a[2].s != "written" {
		return nil
	}
	var out []*Expr
	for _, w := range b.a[2].a {
		out = append(out, e.pieces(st, w)...)
	}
	return out
}

// uploads: everything sent to the content server is sealed.
func (c *Check) uploads() {
	made := c.p.reachesCall(func(cc *ssa.CallCommon) bool {
		n := calleeName(cc)
		return n == "crypto/cipher.NewCBCEncrypter" || n == "crypto/hmac.New" || n == "crypto/rand.Read" || n == "io.ReadFull"
	})
	start := c.startsWith(func(in ssa.Instruction) bool {
		cc := callOf(in)
		return cc != nil && isUpload(cc) >= 0 && toCdn(cc)
	}, func(f *ssa.Function) bool { return !inCmd(f) })
	c.upwardTo("sealed-upload", start, func(root, target *ssa.Function, res *rootResult, rel map[*ssa.Function]bool) {
		var e *Engine
		h := c.sealHooks(&e, Hooks{
			Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) {
				if strings.HasPrefix(fnName(fn), "ts/transport.") {
					return false, true
				}
				if made[fn] {
					return true, true
				}
				return false, false
			},
			Call: func(st *State, ci *CallInfo) Action {
				if ci.In != target || ci.Site == nil {
					return Default
				}
				i := isUpload(ci.Site.Common())
				if i < 0 || i >= len(ci.Args) || !toCdn(ci.Site.Common()) {
					return Default
				}
				body := ci.Args[i]
				if l := e.lenLin(body.strip()); isZeroLin(l) || body.strip().isNil() {
					return Default
				}
				w, _ := c.sealedBody(e, st, body, false)
				trace("C31 upload %s in %s: %v %s", fnName(target), fnName(root), body, w)
				switch {
				case w == "":
					res.put(fnName(target), ci.Pos(), target, true, "", "")
				case e.span(body.strip()).base.k == KParam:
					res.putSoft(fnName(target), ci.Pos(), target, "a body is uploaded although "+w, c.p.ctxPath(ci.Ctx))
				default:
					res.put(fnName(target), ci.Pos(), target, false, "a body is uploaded although "+w, c.p.ctxPath(ci.Ctx))
				}
				return Default
			},
		})
		e = newEngine(c.p, h)
		e.relevant = union(rel, made)
		e.Run(root)
		c.useBounded(e)
	}, 3, nil)
}

// provisioning: the envelope for a new device.
func (c *Check) provisioning() {
	isEnv := func(t types.Type) bool { return namedIs(t, Mod+"/protobuf", "ProvisionEnvelope") }
	made := c.p.reachesCall(func(cc *ssa.CallCommon) bool {
		n := calleeName(cc)
		return n == "crypto/cipher.NewCBCEncrypter" || n == "crypto/hmac.New" || n == "crypto/rand.Read" || n == "io.ReadFull" || strings.HasSuffix(n, "curve25519.ScalarMult")
	})
	start := c.startsWith(func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok || !isEnv(fa.X.Type()) {
			return false
		}
		f := fieldOf(fa.X.Type(), fa.Field)
		return f != nil && f.Name() == "Body"
	}, func(f *ssa.Function) bool { return !inCmd(f) })
	c.upwardTo("provisioning", start, func(root, target *ssa.Function, res *rootResult, rel map[*ssa.Function]bool) {
		var e *Engine
		h := c.sealHooks(&e, Hooks{
			Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) {
				if made[fn] {
					return true, true
				}
				return false, false
			},
			Call: func(st *State, ci *CallInfo) Action {
				if keyCodec(ci.Name) && !strings.HasSuffix(ci.Name, "DeriveSecrets") {
					return Opaque
				}
				return Default
			},
			After: func(st *State, ci *CallInfo, r *Expr) {
				switch {
				case strings.HasSuffix(ci.Name, "curve25519.ScalarMult") && len(ci.Args) == 3:
					st.record(Event{Kind: "agree", Args: ci.Args, Res: r, Pos: ci.Pos()})
				case hkdfNew(ci.Name):
					st.record(Event{Kind: "kdf", Args: ci.Args, Res: r, Pos: ci.Pos()})
				}
			},
			Store: func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
				if addr.k == KFieldAddr && fr.fn == target && isEnv(addr.a[0].t) {
					st.record(Event{Kind: "env", Name: addr.obj.Name(), Args: []*Expr{addr.a[0].strip(), val}, Pos: in.Pos(), Fn: fr.fn, Ctx: fr.ctx})
				}
			},
		})
		e = newEngine(c.p, h)
		e.relevant = union(rel, made)
		exits := e.Run(root)
		if errResult(root.Signature) >= 0 {
			exits = e.okExits(root, exits)
		}
		for _, x := range exits {
			for _, k := range x.st.events("env") {
				if k.Name != "Body" {
					continue
				}
				var pub *Expr
				for _, o := range x.st.events("env") {
					if o.Args[0] == k.Args[0] && o.Name == "PublicKey" {
						pub = o.Args[1]
					}
				}
				bad := c.provisioned(e, x.st, k.Args[1], pub)
				trace("C31 env %s in %s: %v %v %s", fnName(target), fnName(root), k.Args[1], pub, bad)
				if bad != "" && e.span(k.Args[1].strip()).base.k == KParam {
					res.putSoft(fnName(target), k.Pos, target, bad, "")
				} else {
					res.put(fnName(target), k.Pos, target, bad == "", bad, c.p.ctxPath(k.Ctx))
				}
			}
		}
		c.useBounded(e)
	}, 3, nil)
}

// plain: a marshalled provisioning message goes nowhere but to the cipher.
func (c *Check) plain() {
	for _, f := range c.sortedFuncs() {
		if inCmd(f) || c.p.isGen(f.Pos()) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || !strings.HasSuffix(calleeName(&call.Call), "proto.Marshal") || len(call.Call.Args) != 1 {
					continue
				}
				m, ok := call.Call.Args[0].(*ssa.MakeInterface)
				if !ok || !namedIs(m.X.Type(), Mod+"/protobuf", "ProvisionMessage") {
					continue
				}
				bad, at := c.plainFlow(call)
				c.ob("plain", fnName(f), in.Pos(), bad == "", bad+at)
			}
		}
	}
}

// plainFlow follows the bytes a call returns through the module.
func (c *Check) plainFlow(src *ssa.Call) (string, string) {
	seen := map[ssa.Value]bool{}
	var work []ssa.Value
	add := func(v ssa.Value) {
		if v != nil && !seen[v] {
			seen[v] = true
			work = append(work, v)
		}
	}
	for _, r := range *src.Referrers() {
		if x, ok := r.(*ssa.Extract); ok && x.Index == 0 {
			add(x)
		}
	}
	back := func(v ssa.Value) ssa.Value {
		for {
			switch y := v.(type) {
			case *ssa.Slice:
				v = y.X
				continue
			case *ssa.IndexAddr:
				v = y.X
				continue
			}
			return v
		}
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if v.Referrers() == nil {
			continue
		}
		inPlace := false
		for _, r := range *v.Referrers() {
			if ci, ok := r.(ssa.CallInstruction); ok && strings.HasSuffix(calleeName(ci.Common()), ".CryptBlocks") {
				a := ci.Common().Args
				inPlace = inPlace || back(a[len(a)-1]) == back(a[len(a)-2])
			}
		}
		if inPlace {
			continue
		}
		for _, r := range *v.Referrers() {
			switch y := r.(type) {
			case *ssa.Phi, *ssa.Slice, *ssa.Convert, *ssa.ChangeType, *ssa.MakeInterface, *ssa.IndexAddr, *ssa.Index, *ssa.FieldAddr, *ssa.Field, *ssa.TypeAssert, *ssa.SliceToArrayPointer:
				add(r.(ssa.Value))
			case *ssa.UnOp:
				add(y)
			case *ssa.BinOp:
				if isStringT(y.Type()) {
					add(y)
				}
			case *ssa.Store:
				if y.Val == v {
					add(back(y.Addr))
					if g, ok := y.Addr.(*ssa.Global); ok {
						return "the plain provisioning message is kept in " + g.Name(), ""
					}
					if fa, ok := y.Addr.(*ssa.FieldAddr); ok {
						if f := fieldOf(fa.X.Type(), fa.Field); f != nil {
							return "the plain provisioning message is put into " + f.Name(), " at " + c.p.pos(y.Pos())
						}
					}
				}
			case *ssa.Return:
				for i, res := range y.Results {
					if res != v {
						continue
					}
					for _, g := range c.p.callers[y.Parent()] {
						for _, b := range g.Blocks {
							for _, in := range b.Instrs {
								call, ok := in.(*ssa.Call)
								if !ok {
									continue
								}
								hit := false
								for _, t := range c.p.targets(&call.Call) {
									hit = hit || t == y.Parent()
								}
								if !hit {
									continue
								}
								if len(y.Results) == 1 {
									add(call)
									continue
								}
								for _, rr := range *call.Referrers() {
									if x, ok := rr.(*ssa.Extract); ok && x.Index == i {
										add(x)
									}
								}
							}
						}
					}
				}
			case *ssa.MapUpdate, *ssa.Send:
				return "the plain provisioning message is put into something else", " at " + c.p.pos(r.Pos())
			case ssa.CallInstruction:
				cc := y.Common()
				n := calleeName(cc)
				switch {
				case n == "builtin.append":
					add(y.Value())
					continue
				case n == "builtin.copy":
					if len(cc.Args) == 2 && cc.Args[1] == v {
						add(back(cc.Args[0]))
					}
					continue
				case n == "builtin.len", n == "builtin.cap", strings.HasSuffix(n, ".CryptBlocks"), strings.HasSuffix(n, ".XORKeyStream"), strings.HasSuffix(n, ".Seal"):
					continue
				}
				inside := false
				for _, t := range c.p.targets(cc) {
					if t.Blocks == nil || t.Pkg == nil || !c.p.inMod(t.Pkg.Pkg) {
						continue
					}
					inside = true
					for i, a := range cc.Args {
						if a == v && i < len(t.Params) {
							add(t.Params[i])
						}
					}
				}
				if !inside {
					return "the plain provisioning message is handed to " + n, " at " + c.p.pos(y.Pos())
				}
			}
		}
	}
	return "", ""
}

func (c *Check) provisioned(e *Engine, st *State, body, pub *Expr) string {
	w, s := c.sealedBody(e, st, body, true)
	if w != "" {
		return "the body is not sealed: " + w
	}
	a, b := e.span(s.cipher.strip()), e.span(s.mac.strip())
	if a.base != b.base {
		return "cipher and MAC key are not parts of one derivation"
	}
	var pairs []string
	for _, kdf := range st.events("kdf") {
		for _, ag := range st.events("agree") {
			if e.span(kdf.Args[1].strip()).base != e.span(ag.Args[0].strip()).base {
				continue
			}
			for _, own := range ag.Args[1:] {
				e.it.contains(own, func(y *Expr) bool {
					if y.k == KCall && strings.HasSuffix(y.s, "GenerateIdentityKeyPair") || y.k == KCall && strings.HasSuffix(y.s, "NewECKeyPair") {
						if pub != nil && e.it.contains(pub, func(z *Expr) bool { return z == y }) {
							pairs = append(pairs, y.s)
						}
					}
					return false
				})
			}
		}
	}
	if len(pairs) == 0 {
		return "the keys are not derived from an agreement of the key pair whose public key is sent"
	}
	sort.Strings(pairs)
	priv := false
	e.it.contains(pub, func(z *Expr) bool {
		if z.obj != nil && z.obj.Name() == "PrivateKey" {
			priv = true
		}
		return false
	})
	if priv {
		return "the private key is sent"
	}
	return ""
}

// jsonName: the name a field of a struct has in JSON.
func jsonName(t types.Type, f *types.Var) string {
	s, ok := derefT(t).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i) == f {
			n, _, _ := strings.Cut(reflect.StructTag(s.Tag(i)).Get("json"), ",")
			if n == "" {
				n = f.Name()
			}
			return n
		}
	}
	return ""
}
