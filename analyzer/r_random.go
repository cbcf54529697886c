package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&propDef{
		ID:      "C14",
		Expl:    "(1) Whole-program query over the type-checked sources: no identifier of the module resolves to math/rand. (2) Every read of crypto/rand's reader that can fail is an obligation: on each error-free way out of its function the dataflow must know that it did not fail. (3) Every place where a generated secret comes to rest (the private scalar of a new key pair, the random input of a signature, registration password, signaling key and registration id, the profile key, the store's salt, attachment and discovery keys, cipher and MAC keys made on the spot) is an obligation: the memory the value stands for must be covered, byte for byte, by a completed read of the secure source on that path, with nothing else written over it.",
		Assume:  []string{"crypto/rand and io.ReadFull behave as documented", "no two distinct struct fields alias"},
		Minimum: map[string]int{"secure-source": 2, "source-failure": 1, "secret": 9},
		Run:     runC14,
	})
	register(&propDef{
		ID:      "C15",
		Expl:    "Every block-cipher encryption (CBC encrypter, AEAD seal) is an obligation, decided by the disjunctive dataflow in its function and, where IV or nonce are arguments, in each caller: the bytes used as IV must be covered by a read of the secure random source into memory allocated on the same path, and the outermost function of the path must hand that IV out with the ciphertext. Excused are an IV cut from the same single-use derivation as the key, without overlap, and the encryption of a constant block that derives the access key.",
		Assume:  []string{"crypto/rand and io.ReadFull behave as documented", "a message key derivation is used for one message (C01, C05)", "no two distinct struct fields alias"},
		Minimum: map[string]int{"fresh-iv": 4, "iv-sent": 2},
		Run:     runC15,
	})
}

// secureReader: the operating system's source.
func secureReader(x *Expr) bool {
	x = x.strip()
	return x.k == KLoad && x.a[0].k == KGlobal && x.a[0].s == "crypto/rand.Reader"
}

// fills: the buffer a call fills completely with secure random bytes.
func fills(ci *CallInfo) *Expr {
	switch ci.Name {
	case "io.ReadFull":
		if len(ci.Args) == 2 && secureReader(ci.Args[0]) {
			return ci.Args[1]
		}
	case "crypto/rand.Read":
		return ci.Args[0]
	}
	return nil
}

// readsSource: a call that may read the secure source.
func readsSource(cc *ssa.CallCommon) bool {
	n := calleeName(cc)
	if strings.HasPrefix(n, "crypto/rand.") {
		return true
	}
	for _, a := range cc.Args {
		if u, ok := a.(*ssa.UnOp); ok {
			a = u.X
		}
		if g, ok := a.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "crypto/rand" {
			return true
		}
	}
	return false
}

// recordRandom keeps what the secure source filled, and what was written there
// afterwards.
func recordRandom(e *Engine, st *State, ci *CallInfo, r *Expr) {
	if b := fills(ci); b != nil {
		st.record(Event{Kind: "fill", Name: ci.Name, Args: []*Expr{b}, Res: r, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
		return
	}
	switch ci.Name {
	case "builtin.copy":
		st.record(Event{Kind: "over", Name: ci.Name, Args: ci.Args, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
	case "io.ReadFull":
		st.record(Event{Kind: "kdf", Name: ci.Name, Args: []*Expr{ci.Args[1], ci.Args[0]}, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
	case "builtin.clear", "io.Reader.Read", "io.ReadAtLeast", "crypto/cipher.Stream.XORKeyStream":
		for _, a := range ci.Args {
			if a != nil && a.t != nil {
				if _, ok := a.t.Underlying().(*types.Slice); ok {
					st.record(Event{Kind: "over", Name: ci.Name, Args: []*Expr{a}, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
				}
			}
		}
	}
	if ci.Callee == nil && !quietCall(ci.Name) {
		for _, a := range ci.Args {
			if a != nil && e.span(a).base.k == KMake {
				st.record(Event{Kind: "touch", Args: []*Expr{e.span(a).base}, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
			}
		}
	}
	// values computed from random bytes
	if ci.Callee == nil && r != nil && len(ci.Args) > 0 {
		switch {
		case encodes(ci.Name), strings.HasPrefix(ci.Name, "encoding/binary."), ci.Name == "builtin.append":
			n, all := 0, true
			for _, a := range ci.Args {
				if a == nil {
					continue
				}
				if random(e, st, a) == "" {
					n++
				} else if _, hi := st.interval(e.lenLin(a)); hi > 1 {
					all = false // more than a version byte
				}
			}
			if n > 0 && (all || ci.Name != "builtin.append") {
				st.record(Event{Kind: "rnd", Args: []*Expr{r}, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
			}
		}
	}
}

func encodes(n string) bool {
	return strings.Contains(n, "Encode") && strings.HasPrefix(n, "encoding/")
}

// random: "" when every byte x stands for came from the secure source.
func random(e *Engine, st *State, x *Expr) string {
	return randomN(e, st, x, 0)
}

func randomN(e *Engine, st *State, x *Expr, depth int) string {
	if x == nil || depth > 6 {
		return "its origin cannot be told"
	}
	for _, ev := range st.events("rnd") {
		if ev.Args[0] == x.strip() || ev.Args[0] == x {
			return ""
		}
	}
	if x.k == KBin {
		// masking keeps randomness
		for _, a := range x.a {
			if a != nil && a.k != KConst && randomN(e, st, a, depth+1) == "" {
				return ""
			}
		}
		return "it is not computed from random bytes"
	}
	if x.k == KExtract && x.n == 0 && x.a[0].k == KCall && (x.a[0].s == "crypto/rand.Int" || x.a[0].s == "crypto/rand.Prime") || x.k == KCall && x.s == "crypto/rand.Text" {
		return ""
	}
	if x.k == KMut || x.k == KLoad {
		// the contents of an array or buffer by value
		for _, ev := range st.events("fill") {
			if x.k == KMut && x.a[0] == ev.Res {
				return fullFill(e, st, ev)
			}
			if x.k == KLoad && e.span(ev.Args[0]).base == x.a[0].strip() {
				return fullFill(e, st, ev)
			}
		}
	}
	if x.k == KCall && x.s == "builtin.append" && len(x.a) == 2 {
		if b := x.a[0].strip(); b.isNil() || b.k == KZero || b.k == KConst {
			return randomN(e, st, x.a[1], depth+1)
		}
	}
	if x.k == KCall && encodes(x.s) || x.k == KCall && x.s == "encoding/hex.EncodeToString" {
		return randomN(e, st, x.a[len(x.a)-1], depth+1)
	}
	s := e.span(x)
	if s.base.k == KCall && s.base != x && s.base.s == "builtin.append" {
		if w := randomN(e, st, s.base, depth+1); w == "" {
			return ""
		}
	}
	why := "it was not filled by the secure random source on this path"
	seen := false
	for _, ev := range st.ev {
		switch ev.Kind {
		case "fill":
			f := e.span(ev.Args[0])
			if f.base != s.base {
				continue
			}
			seen = true
			if e.inside(st, s, f) {
				why = ""
			} else if why != "" {
				why = "only part of it was filled by the secure random source"
			}
		case "over", "kdf":
			f := e.span(ev.Args[0])
			if f.base != s.base {
				continue
			}
			if len(ev.Args) == 2 && ev.Kind == "over" {
				if w := randomN(e, st, ev.Args[1], depth+1); w == "" {
					if e.inside(st, s, f) || e.lenCovers(st, ev.Args[1], s, f) {
						why, seen = "", true
					}
					continue
				}
			}
			if !e.apart(st, s, f) && seen {
				why = "something else was written over it afterwards"
			}
		}
	}
	if why != "" {
		return why
	}
	// nothing else known to lie there
	consts := 0
	for k, v := range st.mem {
		switch {
		case k == s.base:
			if v.k == KZero || v.k == KConst {
				return "it was overwritten with a constant"
			}
		case k.k == KIndexAddr && k.a[0].strip() == s.base:
			if v.k == KConst && k.a[1].k == KConst {
				consts++
			} else if v.k == KConst || v.k == KZero {
				return "it was overwritten with a constant"
			}
		}
	}
	if consts > 1 {
		return "several of its bytes were overwritten with constants"
	}
	return ""
}

// lenCovers: copying src (at least as long as the target) fills s.
func (e *Engine) lenCovers(st *State, src *Expr, s, dst span) bool {
	n := e.lenLin(src)
	return dst.base == s.base && st.provedLE0(dst.lo.add(s.lo, -1)) && st.provedLE0(s.hi.add(dst.lo, -1).add(n, -1))
}

func (e *Engine) apart(st *State, a, b span) bool {
	return st.provedLE0(a.hi.add(b.lo, -1)) || st.provedLE0(b.hi.add(a.lo, -1))
}

func fullFill(e *Engine, st *State, ev *Event) string {
	f := e.span(ev.Args[0])
	lo, hi := st.interval(f.lo)
	if lo != 0 || hi != 0 || !st.provedLE0(e.lenLin(f.base).add(f.hi, -1)) {
		return "only part of it was filled by the secure random source"
	}
	return ""
}

func runC14(c *Check) {
	// 1: no other generator
	type use struct {
		pkg string
		bad []string
	}
	var uses []*use
	for _, pkg := range c.p.Pkgs {
		u := &use{pkg: pkg.PkgPath}
		any := false
		for id, o := range pkg.TypesInfo.Uses {
			if o == nil || o.Pkg() == nil {
				continue
			}
			switch p := o.Pkg().Path(); {
			case p == "math/rand" || p == "math/rand/v2":
				u.bad = append(u.bad, c.p.pos(id.Pos())+" "+o.Name())
				any = true
			case p == "crypto/rand":
				any = true
			}
		}
		sort.Strings(u.bad)
		if any {
			uses = append(uses, u)
		}
	}
	sort.Slice(uses, func(i, j int) bool { return uses[i].pkg < uses[j].pkg })
	for _, u := range uses {
		d := ""
		if len(u.bad) > 0 {
			d = "a generator that is not cryptographically secure is used at " + strings.Join(u.bad, ", ")
		}
		c.ob("secure-source", strings.TrimPrefix(u.pkg, Mod), 0, len(u.bad) == 0, d)
	}

	// 2: failures
	fallible := func(cc *ssa.CallCommon) bool {
		return readsSource(cc) && !names("crypto/rand.Read", "crypto/rand.Text")(calleeName(cc))
	}
	for _, f := range c.p.AllFuncs {
		if c.p.isGen(f.Pos()) || f.Blocks == nil || f.Synthetic != "" {
			continue
		}
		has := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && fallible(ci.Common()) {
					has = true
				}
			}
		}
		if !has {
			continue
		}
		var e *Engine
		e = newEngine(c.p, Hooks{After: func(st *State, ci *CallInfo, r *Expr) {
			if ci.Site != nil && ci.In == f && fallible(ci.Site.Common()) {
				st.record(Event{Kind: "src", Name: ci.Name, Args: ci.Args, Res: r, Pos: ci.Pos(), Fn: ci.In, Err: e.errOf(ci.Site, r)})
			}
		}})
		exits := e.Run(f)
		c.use(e)
		bad := ""
		for _, x := range e.okExits(f, exits) {
			for _, ev := range x.st.events("src") {
				if ev.Err == nil || x.st.isNil(ev.Err) != 1 {
					bad = fmt.Sprintf("the read at %s may have failed when %s returns at %s", c.p.pos(ev.Pos), fnName(f), c.p.pos(x.pos))
				}
			}
		}
		c.ob("source-failure", fnName(f), f.Pos(), bad == "", bad)
	}

	// 3: secrets
	c.generated()
	relevant := c.p.reachesCall(readsSource)
	isReg := func(k *Expr) bool {
		return k.k == KFieldAddr && k.obj != nil && secretField(c, k.obj)
	}
	sinkCall := func(n string, args []*Expr) (string, *Expr) {
		switch n {
		case "golang.org/x/crypto/curve25519.ScalarBaseMult":
			return "private key of a new key pair", args[1]
		case "golang.org/x/crypto/pbkdf2.Key":
			return "salt of the store", args[1]
		case "ts/curve25519sign.Sign":
			return "random input of a signature", args[2]
		case "crypto/aes.NewCipher":
			return "cipher key", args[0]
		case "crypto/hmac.New":
			return "authentication key", args[1]
		}
		return "", nil
	}
	isSink := func(in ssa.Instruction) bool {
		switch in := in.(type) {
		case ssa.CallInstruction:
			n := calleeName(in.Common())
			return strings.HasSuffix(n, "curve25519.ScalarBaseMult") || strings.HasSuffix(n, "pbkdf2.Key") || strings.HasSuffix(n, "curve25519sign.Sign") || n == "crypto/aes.NewCipher" || n == "crypto/hmac.New"
		case *ssa.Store:
			if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
				f := fieldOf(fa.X.Type(), fa.Field)
				return f != nil && secretField(c, f)
			}
		}
		return false
	}
	var start []*ssa.Function
	for _, f := range c.p.AllFuncs {
		if c.p.isGen(f.Pos()) || f.Blocks == nil || f.Synthetic != "" || c.p.unreached(f) {
			continue
		}
		for _, b := range f.Blocks {
			has := false
			for _, in := range b.Instrs {
				has = has || isSink(in)
			}
			if has {
				start = append(start, f)
				break
			}
		}
	}
	sort.Slice(start, func(i, j int) bool { return start[i].Pos() < start[j].Pos() })
	c.upwardTo("secret", start, func(root, target *ssa.Function, res *rootResult, rel map[*ssa.Function]bool) {
		var e *Engine
		put := func(st *State, what string, x *Expr, in ssa.Instruction, ctx *Ctx) {
			w := c.secret(e, st, what, x)
			k := fmt.Sprintf("%s: %s", fnName(target), what)
			if w == "?" {
				res.putSoft(k, in.Pos(), target, "the "+what+" comes from "+x.String(), c.p.ctxPath(ctx))
				return
			}
			if w != "" {
				trace("secret %s root=%s %s: %v span base %v mem %v", k, fnName(root), w, x, e.span(x).base, st.mem[e.span(x).base])
			}
			res.put(k, in.Pos(), target, w == "", "the "+what+" is not a secure random value: "+w, c.p.ctxPath(ctx))
		}
		h := Hooks{
			Call: func(st *State, ci *CallInfo) Action {
				if ci.In == target && ci.Site != nil {
					if what, x := sinkCall(ci.Name, ci.Args); what != "" {
						put(st, what, x, ci.Site, ci.Ctx)
					}
				}
				return Default
			},
			After: func(st *State, ci *CallInfo, r *Expr) { recordRandom(e, st, ci, r) },
			Store: func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
				if fr.fn == target && isReg(addr) {
					put(st, "kept "+addr.obj.Name(), val, in, fr.ctx)
				}
			}}
		e = newEngine(c.p, h)
		e.relevant = rel
		e.h.Inline = func(fn *ssa.Function, ci *CallInfo) (bool, bool) {
			return true, relevant[fn] && makesValue(fn)
		}
		e.Run(root)
		c.useBounded(e)
	}, 4, nil)
}

// secret: "" when x is random (or, for keys, has an origin other than
// constants, untouched memory and the clock); "?" when it is the root's input.
func (c *Check) secret(e *Engine, st *State, what string, x *Expr) string {
	w := random(e, st, x)
	if w == "" {
		return ""
	}
	if y := x.strip(); strings.HasPrefix(what, "kept") && (y.k == KZero || y.k == KConst && (y.s == `""` || y.s == "nil" || y.isInt && y.n == 0)) {
		return "" // the empty value that goes with a reported error
	}
	switch what {
	case "private key of a new key pair", "random input of a signature":
		return w
	}
	if strings.HasPrefix(w, "only part") || strings.HasPrefix(w, "it was overwritten") || strings.HasPrefix(w, "several") {
		return w
	}
	param, other, weak := false, false, ""
	seen := map[*Expr]bool{}
	var walk func(y *Expr)
	walk = func(y *Expr) {
		if y == nil || seen[y] {
			return
		}
		seen[y] = true
		if y.k == KSlice || y.k == KAlloc || y.k == KMake {
			s, part, full := e.span(y), false, false
			for _, ev := range st.events("fill") {
				if f := e.span(ev.Args[0]); f.base == s.base {
					part = true
					full = full || e.inside(st, s, f)
				}
			}
			if part && !full {
				weak = "only part of it was filled by the secure random source"
				return
			}
			if part {
				other = true
				return
			}
		}
		switch y.k {
		case KParam, KFree:
			param = true
			return
		case KLoad, KField, KLookup, KGlobal, KFieldAddr:
			other = true
			return
		case KCall, KExtract:
			z := y
			if z.k == KExtract {
				z = z.a[0]
			}
			if z.k == KCall {
				if strings.HasPrefix(z.s, "time.") || z.s == "os.Getpid" {
					weak = "it is taken from " + z.s
					return
				}
				if !pureCall(z.s) && z.s != "builtin.append" && !encodes(z.s) && !strings.HasPrefix(z.s, "encoding/binary.") && !strings.HasPrefix(z.s, "bytes.") && !strings.HasPrefix(z.s, "math.") {
					other = true
					return
				}
			}
			for i, a := range z.a {
				if i == 0 && len(z.a) > 1 && (encodes(z.s) || strings.HasPrefix(z.s, "encoding/")) {
					continue // the encoding
				}
				walk(a)
			}
			return
		case KAlloc, KMake:
			for _, ev := range st.ev {
				switch ev.Kind {
				case "over":
					if e.span(ev.Args[0]).base == y {
						if len(ev.Args) == 2 {
							walk(ev.Args[1])
						} else {
							other = true
						}
					}
				case "fill", "kdf":
					if e.span(ev.Args[0]).base == y {
						other = true
					}
				case "touch":
					if ev.Args[0] == y {
						other = true
					}
				}
			}
			for k, v := range st.mem {
				if k == y || k.k == KIndexAddr && k.a[0].strip() == y {
					walk(v)
				}
			}
			return
		case KMut:
			if b := y.a[0]; b.k == KCall && b.s == "builtin.copy" && len(b.a) == 2 {
				walk(b.a[1])
				return
			} else if b.k == KCall && strings.HasPrefix(b.s, "encoding/") && len(b.a) > 0 {
				walk(b.a[len(b.a)-1])
				return
			}
			other = true
			return
		case KConst, KZero:
			return
		}
		for _, a := range y.a {
			walk(a)
		}
		for o := range e.it.phiOps[y] {
			walk(o)
		}
	}
	walk(x)
	switch {
	case weak != "":
		return weak
	case other:
		return ""
	case param:
		return "?"
	}
	return w
}

// generated: what the exported generators return.
func (c *Check) generated() {
	for _, name := range []string{"ts/profiles.GenerateProfileKey", "ts/unidentifiedAccess.GetTargetUnidentifiedAccessKey"} {
		f := c.anchor(name)
		if f == nil {
			continue
		}
		var e *Engine
		e = newEngine(c.p, Hooks{After: func(st *State, ci *CallInfo, r *Expr) { recordRandom(e, st, ci, r) },
			Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) { return true, makesValue(fn) && len(fn.Blocks) < 20 }})
		exits := e.Run(f)
		c.use(e)
		bad := ""
		for _, x := range e.okExits(f, exits) {
			w := random(e, x.st, x.rets[0])
			derived := e.it.contains(x.rets[0], func(y *Expr) bool { return y.k == KCall && strings.HasSuffix(y.s, ".Seal") })
			if w != "" && !derived {
				bad = w + " (return at " + c.p.pos(x.pos) + ")"
			} else if lo, _ := x.st.interval(e.lenLin(x.rets[0])); lo < 16 {
				bad = "fewer than 16 bytes are returned at " + c.p.pos(x.pos)
			}
		}
		c.ob("secret", fnName(f)+": result", f.Pos(), bad == "", "the result is not a secure random value: "+bad)
	}
}

func runC15(c *Check) {
	seal := func(n string) bool {
		return n == "crypto/cipher.AEAD.Seal" || strings.HasSuffix(n, "siv-go.GCMSIV.Seal")
	}
	ivOf := func(ci *CallInfo) *Expr {
		switch {
		case names("crypto/cipher.NewCBCEncrypter", "crypto/cipher.NewCTR", "crypto/cipher.NewCFBEncrypter", "crypto/cipher.NewOFB")(ci.Name):
			return ci.Args[1]
		case seal(ci.Name):
			return ci.Args[2]
		}
		return nil
	}
	sink := func(cc *ssa.CallCommon) bool {
		n := calleeName(cc)
		return names("crypto/cipher.NewCBCEncrypter", "crypto/cipher.NewCTR", "crypto/cipher.NewCFBEncrypter", "crypto/cipher.NewOFB")(n) || seal(n)
	}
	relevant := c.p.reachesCall(readsSource)
	var start []*ssa.Function
	for _, f := range c.p.AllFuncs {
		if c.p.isGen(f.Pos()) || f.Blocks == nil || f.Synthetic != "" || c.p.unreached(f) {
			continue
		}
		has := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && sink(ci.Common()) {
					has = true
				}
			}
		}
		if has {
			start = append(start, f)
		}
	}
	sort.Slice(start, func(i, j int) bool { return start[i].Pos() < start[j].Pos() })
	sentDone := map[string]bool{}
	c.upwardTo("fresh-iv", start, func(root, target *ssa.Function, res *rootResult, rel map[*ssa.Function]bool) {
		var e *Engine
		h := Hooks{
			Call: func(st *State, ci *CallInfo) Action {
				iv := (*Expr)(nil)
				if ci.In == target && ci.Site != nil {
					iv = ivOf(ci)
				}
				if iv == nil {
					return Default
				}
				k := fmt.Sprintf("%s@%s", fnName(target), calleeName(ci.Site.Common()))
				w := random(e, st, iv)
				if w == "" {
					if b := e.span(iv).base; b.k != KAlloc && b.k != KMake {
						w = "it is kept from one call to the next"
					}
				}
				if w == "" {
					st.record(Event{Kind: "enc", Args: []*Expr{e.span(iv).base}, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx})
				} else if singleUse(e, st, ci, iv) || constantBlock(e, st, ci, iv) {
					w = ""
				}
				if w != "" {
					trace("fresh-iv %s root=%s: %s iv=%v", k, fnName(root), w, iv)
				}
				res.put(k, ci.Pos(), target, w == "", "the initialisation vector is not fresh: "+w, c.p.ctxPath(ci.Ctx))
				return Default
			},
			After: func(st *State, ci *CallInfo, r *Expr) { recordRandom(e, st, ci, r) },
			Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) {
				return true, relevant[fn] && makesValue(fn) && !rel[fn]
			},
		}
		e = newEngine(c.p, h)
		e.relevant = rel
		exits := e.Run(root)
		c.useBounded(e)
		// the vector goes out with the ciphertext
		n, bad := 0, ""
		for _, x := range e.okExits(root, exits) {
			for _, ev := range x.st.events("enc") {
				n++
				if !e.handedOut(x, ev.Args[0]) {
					bad = "the initialisation vector of the encryption at " + c.p.pos(ev.Pos) + " does not leave " + fnName(root) + " with the ciphertext (return at " + c.p.pos(x.pos) + ")"
				}
			}
		}
		if k := fnName(target) + "<-" + fnName(root); n > 0 && !sentDone[fnName(target)] {
			sentDone[fnName(target)] = true
			c.ob("iv-sent", k, root.Pos(), bad == "", bad)
		}
	}, 4, nil)
}

// handedOut: what leaves with the results includes bytes of the buffer.
func (e *Engine) handedOut(x *Exit, base *Expr) bool {
	seen := map[*Expr]bool{}
	var in func(y *Expr) bool
	in = func(y *Expr) bool {
		if y == nil || seen[y] {
			return false
		}
		seen[y] = true
		if y == base {
			return true
		}
		if y.k == KCall && (strings.HasSuffix(y.s, ".Seal") || strings.HasPrefix(y.s, "crypto/cipher.")) {
			return false
		}
		for _, a := range y.a {
			if in(a) {
				return true
			}
		}
		for o := range e.it.phiOps[y] {
			if in(o) {
				return true
			}
		}
		for _, ev := range x.st.events("over") {
			if len(ev.Args) == 2 && e.span(ev.Args[0]).base == y && in(ev.Args[1]) {
				return true
			}
		}
		for k, v := range x.st.mem {
			if k.addrRoot() == y && in(v) {
				return true
			}
		}
		return false
	}
	for _, r := range x.rets {
		if in(r) {
			return true
		}
	}
	return false
}

// singleUse: key and vector are disjoint parts of one derivation made on this
// path.
func singleUse(e *Engine, st *State, ci *CallInfo, iv *Expr) bool {
	key := cipherKey(ci.Args[0])
	if key == nil {
		return false
	}
	a, b := e.span(key), e.span(iv)
	if a.base != b.base || !e.apart(st, a, b) {
		return false
	}
	for _, ev := range st.events("kdf") {
		d := e.span(ev.Args[0])
		if d.base == a.base && e.inside(st, a, d) && e.inside(st, b, d) && e.it.contains(ev.Args[1], func(y *Expr) bool {
			return y.k == KCall && strings.HasPrefix(y.s, "golang.org/x/crypto/hkdf.")
		}) {
			return true
		}
	}
	return e.it.contains(a.base, func(y *Expr) bool {
		return y.k == KCall && (strings.HasPrefix(y.s, "golang.org/x/crypto/hkdf.") || y.s == "io.ReadFull" || y.s == "hash.Hash.Sum")
	})
}

// constantBlock: a constant is encrypted, to derive a key from a key.
func constantBlock(e *Engine, st *State, ci *CallInfo, iv *Expr) bool {
	if len(ci.Args) < 4 {
		return false
	}
	zero := func(x *Expr) bool {
		if x.isNil() || x.k == KConst {
			return true
		}
		b := e.span(x).base
		if b.k != KAlloc && b.k != KMake {
			return false
		}
		for k, v := range st.mem {
			if k.addrRoot() == b && v.k != KConst && v.k != KZero {
				return false
			}
		}
		for _, ev := range st.ev {
			if (ev.Kind == "over" || ev.Kind == "kdf" || ev.Kind == "touch" || ev.Kind == "fill") && e.span(ev.Args[0]).base == b {
				return false
			}
		}
		return true
	}
	return zero(iv) && zero(ci.Args[3])
}

func secretField(c *Check, f types.Object) bool {
	switch c.p.fieldOwner(f) {
	case Mod + "/registration.RegistrationInfo":
		return names("Password", "SignalingKey", "RegistrationID")(f.Name())
	case Mod + "/config.Config":
		return f.Name() == "ProfileKey"
	case Mod + ".Group":
		return f.Name() == "ID"
	}
	return false
}

// makesValue: the function hands a value back, or fills a buffer it is given.
func makesValue(f *ssa.Function) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if !isErrorT(rs.At(i).Type()) {
			return true
		}
	}
	for _, p := range f.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			if _, ok := t.Elem().Underlying().(*types.Array); ok {
				return true
			}
		}
	}
	return false
}
