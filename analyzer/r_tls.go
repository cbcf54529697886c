package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"net/url"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&propDef{
		ID:      "C16",
		Expl:    "(1) Every construction of a crypto/tls.Config and every store to its InsecureSkipVerify field in the module is an obligation: only the constant false may be stored. (2) No http.Transport, websocket.Dialer or tls.Dialer of the module may replace the TLS dial by a function of its own. (3) For every dial of a websocket and every HTTP client kept in one of the module's structures, the disjunctive dataflow must find that the RootCAs of the TLS configuration in use are a package-level pool of the module; for the HTTP clients the pool must have been built on the same path, upwards to the entry point. Such a pool may only be assigned from x509.NewCertPool. (4) Every address constant of the library must not be plain http or ws unless it names the local host, and the address given to a websocket dial, with the module's string operations evaluated on an https address, must be a wss address.",
		Assume:  []string{"crypto/tls, net/http and gorilla/websocket verify chain and host name unless told otherwise", "the server address in the configuration file is an https address"},
		Minimum: map[string]int{"verification-on": 3, "own-dial": 1, "pinned-roots": 2, "root-pool": 1, "encrypted-address": 3},
		Run:     runC16,
	})
}

// fieldStore: the field an instruction stores to, as "pkg.Type.Field", and the value.
func (p *Prog) fieldStore(in ssa.Instruction) (string, ssa.Value) {
	s, ok := in.(*ssa.Store)
	if !ok {
		return "", nil
	}
	fa, ok := s.Addr.(*ssa.FieldAddr)
	if !ok {
		return "", nil
	}
	f := fieldOf(fa.X.Type(), fa.Field)
	if f == nil {
		return "", nil
	}
	t := fa.X.Type()
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	return t.String() + "." + f.Name(), s.Val
}

func constBool(v ssa.Value, want bool) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) == want
}

func (c *Check) sortedFuncs() []*ssa.Function {
	out := c.startsWith(func(ssa.Instruction) bool { return true }, func(*ssa.Function) bool { return true })
	for _, p := range c.p.SSA.AllPackages() {
		if f := p.Func("init"); f != nil && c.p.inMod(p.Pkg) && f.Blocks != nil {
			out = append(out, f)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func runC16(c *Check) {
	const cfg = "crypto/tls.Config"
	hooks := map[string]bool{"net/http.Transport.DialTLS": true, "net/http.Transport.DialTLSContext": true, "github.com/gorilla/websocket.Dialer.NetDialTLSContext": true}
	count := map[string]int{}
	dialers := map[*ssa.Function]bool{}
	holders := map[*ssa.Function]bool{}
	for _, f := range c.sortedFuncs() {
		bad := ""
		made, own := 0, ""
		clients := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok {
					switch t := a.Type().(*types.Pointer).Elem().String(); t {
					case cfg:
						made++
					case "net/http.Transport", "github.com/gorilla/websocket.Dialer":
						clients++
					}
				}
				name, v := c.p.fieldStore(in)
				if name == cfg+".InsecureSkipVerify" && !constBool(v, false) {
					bad = c.p.pos(in.Pos())
				}
				if hooks[name] && !isNilConst(v) {
					own = c.p.pos(in.Pos())
				}
				if cc := callOf(in); cc != nil {
					switch calleeName(cc) {
					case "github.com/gorilla/websocket.Dialer.Dial", "github.com/gorilla/websocket.Dialer.DialContext":
						dialers[f] = true
					}
				}
				if s, ok := in.(*ssa.Store); ok && s.Val.Type().String() == "*net/http.Client" {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						if o := fieldOf(fa.X.Type(), fa.Field); o != nil && c.p.inMod(o.Pkg()) {
							holders[f] = true
						}
					}
				}
			}
		}
		if made > 0 || bad != "" {
			if bad == "" {
				c.ob("verification-on", fnName(f), f.Pos(), true, "")
			} else {
				pkg := shortPkg(f.Pkg.Pkg.Path())
				count[pkg]++
				c.rules["verification-on"]++
				c.fail("verification-on", fmt.Sprintf("%s#%d", pkg, count[pkg]), bad, "a TLS configuration turns the verification of the server's certificate off", "")
			}
		}
		if clients > 0 || own != "" {
			c.ob("own-dial", fnName(f), f.Pos(), own == "", "the TLS dial is replaced by a function of the library")
		}
	}
	var start []*ssa.Function
	for _, f := range sortedFns(dialers) {
		start = append(start, f)
	}
	c.pins(start, true)
	c.pins(sortedFns(holders), false)
	c.addresses()
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

// follow reads a field by name behind a pointer.
func (e *Engine) follow(st *State, x *Expr, owner *types.Struct, name string) *Expr {
	for x.k == KIface || x.k == KConv {
		x = x.a[0]
	}
	for i := 0; i < owner.NumFields(); i++ {
		if f := owner.Field(i); f.Name() == name {
			return e.read(st, e.fieldAddr(x, f, i), f.Type())
		}
	}
	return nil
}

func (c *Check) extStruct(pkg, name string) *types.Struct {
	p := c.p.SSA.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	s, _ := o.Type().Underlying().(*types.Struct)
	return s
}

func poolGlobal(x *Expr) *Expr {
	for x.k == KStale || x.k == KMut {
		if len(x.a) == 0 {
			return nil
		}
		x = x.a[0]
	}
	if x.k == KLoad && x.a[0].k == KGlobal {
		return x.a[0]
	}
	return nil
}

func (c *Check) pins(start []*ssa.Function, dial bool) {
	tlsS, trS, clS, dS := c.extStruct("crypto/tls", "Config"), c.extStruct("net/http", "Transport"), c.extStruct("net/http", "Client"), c.extStruct("github.com/gorilla/websocket", "Dialer")
	pools := map[types.Object]bool{}
	c.upwardTo("pinned-roots", start, func(root, target *ssa.Function, res *rootResult, rel map[*ssa.Function]bool) {
		var e *Engine
		decide := func(st *State, key string, pos ssa.Instruction, cfg *Expr, ctx *Ctx) {
			for cfg != nil && (cfg.k == KCall && strings.HasSuffix(cfg.s, "tls.Config.Clone")) {
				cfg = cfg.a[0]
			}
			bad := func(soft bool, d string) {
				if soft {
					res.putSoft(key, pos.Pos(), target, d, c.p.ctxPath(ctx))
				} else {
					res.put(key, pos.Pos(), target, false, d, c.p.ctxPath(ctx))
				}
			}
			if cfg == nil || cfg.isNil() || cfg.k == KZero {
				bad(false, "the connection does not use the library's root certificates")
				return
			}
			r := e.follow(st, cfg, tlsS, "RootCAs")
			trace("pin %s root=%s cfg=%v roots=%v", key, fnName(root), cfg, r)
			switch {
			case r.k == KCall && r.s == "crypto/x509.NewCertPool":
				res.put(key, pos.Pos(), target, true, "", "")
			case poolGlobal(r) != nil:
				g := poolGlobal(r)
				pools[g.obj] = true
				if dial {
					res.put(key, pos.Pos(), target, true, "", "")
				} else {
					bad(root == target || !c.p.uncalled(root), "a client is built before the library's root certificates were loaded (system roots are used then)")
				}
			case e.it.contains(r, func(y *Expr) bool { return y.k == KParam }):
				bad(false, "the root certificates of the connection are not the library's")
			default:
				bad(false, "the connection does not use the library's root certificates")
			}
		}
		h := Hooks{
			Call: func(st *State, ci *CallInfo) Action {
				if dial && ci.In == target && ci.Site != nil && (ci.Name == "github.com/gorilla/websocket.Dialer.Dial" || ci.Name == "github.com/gorilla/websocket.Dialer.DialContext") {
					u := ci.Args[1]
					if strings.HasSuffix(ci.Name, "Context") {
						u = ci.Args[2]
					}
					k := fnName(target)
					decide(st, k, ci.Site.(ssa.Instruction), e.follow(st, ci.Args[0], dS, "TLSClientConfig"), ci.Ctx)
					if w := c.wsAddress(e, u); w != "" {
						res.put(k+".address", ci.Pos(), target, false, w, c.p.ctxPath(ci.Ctx))
					} else {
						res.put(k+".address", ci.Pos(), target, true, "", "")
					}
				}
				return Default
			},
			Store: func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
				if dial || fr.fn != target || addr.k != KFieldAddr || addr.obj == nil || addr.obj.Type().String() != "*net/http.Client" || !c.p.inMod(addr.obj.Pkg()) || val.isNil() {
					return
				}
				tr := e.follow(st, val, clS, "Transport")
				if tr == nil || tr.k == KZero || tr.isNil() {
					res.put(fnName(target), in.Pos(), target, false, "a client of the library does not use its root certificates", c.p.ctxPath(fr.ctx))
					return
				}
				decide(st, fnName(target), in, e.follow(st, tr, trS, "TLSClientConfig"), fr.ctx)
			},
		}
		e = newEngine(c.p, h)
		e.relevant = rel
		if !dial {
			// the functions that assign the pools are followed too
			set := map[*ssa.Function]bool{}
			for f := range rel {
				set[f] = true
			}
			for _, f := range c.p.AllFuncs {
				for _, g := range assigned(f) {
					if g.Type().String() == "**crypto/x509.CertPool" {
						set[f] = true
					}
				}
			}
			e.relevant = set
		}
		e.Run(root)
		c.useBounded(e)
	}, 4, nil)
	if dial {
		return
	}
	for _, f := range c.sortedFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok || s.Val.Type().String() != "*crypto/x509.CertPool" {
					continue
				}
				call, isCall := s.Val.(*ssa.Call)
				good := isCall && calleeName(call.Common()) == "crypto/x509.NewCertPool"
				if !good {
					// through a helper of the module
					good = isCall && c.givesPool(call.Common())
				}
				c.ob("root-pool", objName(g.Object()), in.Pos(), good, "the trusted roots are replaced by something else than a new, own pool")
			}
		}
	}
}

// givesPool: every result of the callee is a new pool.
func (c *Check) givesPool(cc *ssa.CallCommon) bool {
	f := cc.StaticCallee()
	if f == nil || f.Blocks == nil {
		return false
	}
	e := newEngine(c.p, Hooks{})
	ok, n := true, 0
	for _, x := range e.Run(f) {
		for _, r := range x.rets {
			if r.t != nil && r.t.String() == "*crypto/x509.CertPool" || r.k == KCall {
				n++
				ok = ok && r.k == KCall && r.s == "crypto/x509.NewCertPool"
			}
		}
	}
	return ok && n > 0
}

// wsAddress evaluates the address of a websocket on an https server address.
func (c *Check) wsAddress(e *Engine, u *Expr) string {
	var ev func(x *Expr, d int) (string, bool)
	ev = func(x *Expr, d int) (string, bool) {
		if d > 20 {
			return "", false
		}
		switch {
		case x.k == KConst && isStringT(x.t):
			return strings.Trim(x.s, `"`), true
		case x.k == KConv || x.k == KIface || x.k == KExtract && x.n == 0:
			return ev(x.a[0], d+1)
		case x.k == KBin && x.s == "+":
			a, ok := ev(x.a[0], d+1)
			if !ok {
				return "", false
			}
			b, ok := ev(x.a[1], d+1)
			if !ok {
				b = "x"
			}
			return a + b, true
		case x.k == KLoad || x.k == KParam || x.k == KField:
			return "https://server.example:443", isStringT(x.t)
		case x.k == KCall:
			switch x.s {
			case "strings.Replace", "strings.ReplaceAll", "strings.TrimPrefix", "strings.TrimSuffix":
				a, ok := ev(x.a[0], d+1)
				if !ok {
					return "", false
				}
				b, ok := ev(x.a[1], d+1)
				if !ok {
					return "", false
				}
				if x.s == "strings.TrimPrefix" {
					return strings.TrimPrefix(a, b), true
				}
				if x.s == "strings.TrimSuffix" {
					return strings.TrimSuffix(a, b), true
				}
				n, ok := ev(x.a[2], d+1)
				if !ok {
					return "", false
				}
				k := -1
				if x.s == "strings.Replace" && x.a[3].k == KConst && x.a[3].isInt {
					k = int(x.a[3].n)
				}
				return strings.Replace(a, b, n, k), true
			case "net/url.URL.String", "net/url.Parse":
				return ev(x.a[0], d+1)
			}
		}
		return "", false
	}
	s, ok := ev(u, 0)
	trace("address %v = %q %v", u, s, ok)
	if ok && !strings.HasPrefix(s, "wss://") && !localAddress(s) {
		return "the websocket is opened without TLS for an https server (" + s + ")"
	}
	return ""
}

func localAddress(s string) bool {
	u, err := url.Parse(s)
	if err != nil {
		return false
	}
	h := u.Hostname()
	return h == "localhost" || strings.HasPrefix(h, "127.") || h == "::1"
}

// addresses: the address constants of the library.
func (c *Check) addresses() {
	seen := map[string]bool{}
	type found struct {
		f  *ssa.Function
		in ssa.Instruction
		s  string
	}
	var all []found
	for _, f := range c.sortedFuncs() {
		if inCmd(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					k, ok := (*op).(*ssa.Const)
					if !ok || k.Value == nil || k.Value.Kind() != constant.String {
						continue
					}
					s := constant.StringVal(k.Value)
					i := strings.Index(s, "://")
					if i < 0 || seen[s] {
						continue
					}
					seen[s] = true
					all = append(all, found{f, in, s})
				}
			}
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].s < all[j].s })
	for _, a := range all {
		plain := strings.HasPrefix(a.s, "http://") || strings.HasPrefix(a.s, "ws://")
		c.ob("encrypted-address", a.s, a.in.Pos(), !plain || localAddress(a.s), "the library talks to this address without TLS")
	}
}
