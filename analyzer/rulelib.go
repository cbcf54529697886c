package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// names builds a matcher over canonical callee names. A trailing "*" matches a prefix.
func names(ns ...string) func(string) bool {
	ex := map[string]bool{}
	var pre []string
	for _, n := range ns {
		if strings.HasSuffix(n, "*") {
			pre = append(pre, n[:len(n)-1])
		} else {
			ex[n] = true
		}
	}
	return func(s string) bool {
		if ex[s] {
			return true
		}
		for _, p := range pre {
			if strings.HasPrefix(s, p) {
				return true
			}
		}
		return false
	}
}

// result i of a call term.
func (e *Engine) result(res *Expr, i int, n int, t types.Type) *Expr {
	if n == 1 {
		return res
	}
	if res.k == KTuple {
		if i < len(res.a) {
			return res.a[i]
		}
		return nil
	}
	return e.it.mk(Expr{k: KExtract, n: int64(i), a: []*Expr{res}, t: t}, "")
}

// errOf returns the error result term of a recorded call, or nil.
func (e *Engine) errOf(site ssa.CallInstruction, res *Expr) *Expr {
	rs := site.Common().Signature().Results()
	n := rs.Len()
	if n == 0 || !isErrorT(rs.At(n-1).Type()) {
		return nil
	}
	return e.result(res, n-1, n, rs.At(n-1).Type())
}

func isErrorT(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// recorder wires a set of named calls to events.
type recorder struct {
	e    *Engine
	site map[*Event]ssa.CallInstruction
}

// okExits refines every exit with "the error result is nil" and yields those
// that remain feasible. Functions without an error result yield all exits.
func (e *Engine) okExits(fn *ssa.Function, exits []*Exit) []*Exit {
	var out []*Exit
	rs := fn.Signature.Results()
	n := rs.Len()
	if n == 0 || !isErrorT(rs.At(n-1).Type()) {
		return exits
	}
	for _, x := range exits {
		if len(x.rets) < n {
			continue
		}
		st := x.st.clone()
		if st.assumeNil(x.rets[n-1], true) {
			out = append(out, &Exit{st: st, rets: x.rets, pos: x.pos})
		}
	}
	return out
}

// failExits: exits on which the error may be non-nil, refined accordingly.
func (e *Engine) failExits(fn *ssa.Function, exits []*Exit) []*Exit {
	var out []*Exit
	n := fn.Signature.Results().Len()
	for _, x := range exits {
		if len(x.rets) < n || n == 0 {
			continue
		}
		st := x.st.clone()
		if st.assumeNil(x.rets[n-1], false) {
			out = append(out, &Exit{st: st, rets: x.rets, pos: x.pos})
		}
	}
	return out
}

// hasField reports whether the term is derived from a field of that name
// declared in the package with the given short path ("" = any).
func (e *Engine) fromField(x *Expr, name string) bool {
	return e.it.contains(x, func(y *Expr) bool {
		return (y.k == KFieldAddr || y.k == KField) && y.s == name
	})
}

func (e *Engine) fromCall(x *Expr, m func(string) bool) bool {
	return e.it.contains(x, func(y *Expr) bool { return y.k == KCall && m(y.s) })
}

func (e *Engine) fromParam(x *Expr, idx int) bool {
	return e.it.contains(x, func(y *Expr) bool { return y.k == KParam && y.n == int64(idx) })
}

func (e *Engine) fromExpr(x, src *Expr) bool {
	return e.it.contains(x, func(y *Expr) bool { return y == src })
}

// roots lists functions from which to start: the given ones.
func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var l []*ssa.Function
	for f := range m {
		l = append(l, f)
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].Pos() != l[j].Pos() {
			return l[i].Pos() < l[j].Pos()
		}
		return l[i].String() < l[j].String()
	})
	return l
}

// rootResult is what one entry-point run produced.
type rootResult struct {
	inst  map[string]instRes // obligation key -> result
	order []string
}

type instRes struct {
	ok     bool
	pos    token.Pos
	detail string
	in     *ssa.Function
	path   string
	soft   bool // depends on the caller; holds when there is none
}

// putSoft records an obligation that only the callers can break.
func (r *rootResult) putSoft(key string, pos token.Pos, in *ssa.Function, detail, path string) {
	old, have := r.inst[key]
	if !have {
		r.order = append(r.order, key)
	}
	if !have || old.ok {
		r.inst[key] = instRes{false, pos, detail, in, path, true}
	}
}

func (r *rootResult) put(key string, pos token.Pos, in *ssa.Function, ok bool, detail, path string) {
	old, have := r.inst[key]
	if !have {
		r.order = append(r.order, key)
		r.inst[key] = instRes{ok, pos, detail, in, path, false}
		return
	}
	if !ok && (old.ok || old.soft) {
		r.inst[key] = instRes{ok, pos, detail, in, path, false}
	}
}

// ctxPath renders a call string.
func (p *Prog) ctxPath(c *Ctx) string {
	var s []string
	for x := c; x != nil; x = x.parent {
		n := fnName(x.fn)
		if x.site != nil {
			n += "(called at " + p.pos(x.site.Pos()) + ")"
		}
		s = append([]string{n}, s...)
	}
	return strings.Join(s, " -> ")
}

// upward decides obligations located in fn: first in isolation; those that do
// not hold there must hold when fn is entered from each of its callers.
func (c *Check) upward(rule string, start []*ssa.Function, relevant map[*ssa.Function]bool, run func(root *ssa.Function, res *rootResult, relevant map[*ssa.Function]bool), maxUp int, keyOf func(in *ssa.Function, key string) string) {
	type ikey struct{ k string }
	cache := map[*ssa.Function]*rootResult{}
	get := func(f *ssa.Function) *rootResult {
		if r, ok := cache[f]; ok {
			return r
		}
		r := &rootResult{inst: map[string]instRes{}}
		run(f, r, relevant)
		cache[f] = r
		return r
	}
	var decide func(f *ssa.Function, key string, depth int, stack map[*ssa.Function]bool) (bool, instRes)
	decide = func(f *ssa.Function, key string, depth int, stack map[*ssa.Function]bool) (bool, instRes) {
		r := get(f)
		i, ok := r.inst[key]
		if !ok {
			return true, instRes{} // not reached from this root
		}
		if i.ok {
			return true, i
		}
		if depth >= maxUp {
			return false, i
		}
		callers := c.p.callers[f]
		if f.Parent() != nil {
			callers = append([]*ssa.Function{f.Parent()}, callers...)
		}
		n := 0
		for _, g := range callers {
			if g == f || stack[g] || c.p.isGen(g.Pos()) {
				continue
			}
			if _, reached := get(g).inst[key]; !reached {
				// the value is only stored or passed on there (callback): cannot rely on it
				continue
			}
			n++
			stack[g] = true
			ok, gi := decide(g, key, depth+1, stack)
			delete(stack, g)
			if !ok {
				return false, gi
			}
		}
		if n == 0 {
			return false, i
		}
		return true, i
	}
	for _, f := range start {
		r := get(f)
		for _, key := range r.order {
			i := r.inst[key]
			if i.in != f {
				continue // decided when its own function is the start
			}
			ok, fi := decide(f, key, 0, map[*ssa.Function]bool{f: true})
			pos, det, path := i.pos, i.detail, i.path
			if !ok {
				pos, det, path = fi.pos, fi.detail, fi.path
			}
			k := key
			if keyOf != nil {
				k = keyOf(f, key)
			}
			c.rules[rule]++
			if ok {
				c.ok[rule]++
				if len(c.samples) < 40 {
					c.samples = append(c.samples, fmt.Sprintf("%s: %s @%s", rule, k, c.p.pos(pos)))
				}
			} else {
				c.fail(rule, k, c.p.pos(pos), det, path)
			}
		}
	}
}

var debugOn = os.Getenv("VSA_TRACE") != ""

func trace(f string, a ...interface{}) {
	if debugOn {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

// errT is the type of component i of a tuple type.
func errT(t types.Type, i int) types.Type {
	if tp, ok := t.(*types.Tuple); ok && i < tp.Len() {
		return tp.At(i).Type()
	}
	return t
}

// implementsMethod: f implements the interface method with the canonical name.
func (p *Prog) implementsMethod(f *ssa.Function, method string) bool {
	i := strings.LastIndex(method, ".")
	recv, m := method[:i], method[i+1:]
	j := strings.LastIndex(recv, ".")
	pkg, ifn := recv[:j], recv[j+1:]
	for _, pk := range p.Pkgs {
		if shortPkg(pk.PkgPath) != pkg {
			continue
		}
		o := pk.Types.Scope().Lookup(ifn)
		if o == nil {
			continue
		}
		it, ok := o.Type().Underlying().(*types.Interface)
		if !ok {
			return false
		}
		return f.Name() == m && types.Implements(f.Signature.Recv().Type(), it)
	}
	return false
}

// elementsOf: the values an element read from a local array or slice at a
// varying index may be; the value itself for anything else.
func (e *Engine) elementsOf(st *State, x *Expr) []*Expr {
	y := x.strip()
	if y.k == KLoad && y.a[0].k == KIndexAddr {
		y = y.a[0]
	}
	if y.k != KIndex && y.k != KIndexAddr {
		return []*Expr{x}
	}
	base := y.a[0].strip()
	for base.k == KSlice || base.k == KLoad {
		base = base.a[0].strip()
	}
	if base.k != KAlloc {
		return []*Expr{x}
	}
	var out []*Expr
	for k, v := range st.mem {
		if k.k != KIndexAddr || v.k == KMut {
			continue
		}
		b := k.a[0].strip()
		for b.k == KSlice {
			b = b.a[0].strip()
		}
		if b == base {
			out = append(out, v)
		}
	}
	if len(out) == 0 {
		return []*Expr{x}
	}
	return out
}
