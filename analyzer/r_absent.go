package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// derefs lists the values an instruction would panic on if they were nil.
func (p *Prog) derefs(in ssa.Instruction) []ssa.Value {
	switch x := in.(type) {
	case *ssa.FieldAddr:
		return []ssa.Value{x.X}
	case *ssa.UnOp:
		if x.Op.String() == "*" {
			return []ssa.Value{x.X}
		}
	case *ssa.Store:
		return []ssa.Value{x.Addr}
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return []ssa.Value{x.X}
		}
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return []ssa.Value{x.X}
		}
	case ssa.CallInstruction:
		cc := x.Common()
		if cc.IsInvoke() {
			return []ssa.Value{cc.Value}
		}
		if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(cc.Args) > 0 {
			if _, ok := cc.Args[0].Type().Underlying().(*types.Pointer); ok && f.Pkg != nil && !p.inMod(f.Pkg.Pkg) {
				return []ssa.Value{cc.Args[0]} // library methods need their receiver
			}
		}
	}
	return nil
}

// trivially non-nil operands
func solid(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Alloc, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.FreeVar, *ssa.MakeInterface, *ssa.MakeClosure, *ssa.Function:
		return true
	}
	return false
}

// wireField: an optional field of a message or document that comes from outside.
func (p *Prog) wireField(f *types.Var) bool {
	if f == nil || p.localField(f) {
		return false
	}
	switch f.Type().Underlying().(type) {
	case *types.Pointer, *types.Interface:
	default:
		return false
	}
	if p.isGen(f.Pos()) {
		return f.Exported()
	}
	return p.jsonTagged(f)
}

// jsonTagged: the field is filled by a JSON decoder.
func (p *Prog) jsonTagged(f *types.Var) bool {
	if p.jsonFields == nil {
		p.jsonFields = map[*types.Var]bool{}
		for _, pk := range p.Pkgs {
			sc := pk.Types.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok {
					continue
				}
				st, ok := tn.Type().Underlying().(*types.Struct)
				if !ok || p.isGen(tn.Pos()) {
					continue
				}
				for i := 0; i < st.NumFields(); i++ {
					if _, ok := reflect.StructTag(st.Tag(i)).Lookup("json"); ok {
						p.jsonFields[st.Field(i)] = true
					}
				}
			}
		}
	}
	return p.jsonFields[f]
}

// mayBeNil tells why a term may be nil although nothing failed, or "".
// depends: only the caller knows.
func (c *Check) mayBeNil(e *Engine, st *State, root *ssa.Function, x *Expr) (why string, depends bool) {
	x = x.strip()
	for x.k == KAssert || x.k == KIface {
		if x.k == KIface {
			return "", false
		}
		return "", false
	}
	switch st.isNil(x) {
	case 0:
		return "", false
	case 1:
		return "it is nil on this path", false
	}
	switch x.k {
	case KParam:
		// fi of a walk callback
		if root.Signature.Params().Len() == 3 && x.fn == root && isErrorT(root.Signature.Params().At(2).Type()) && strings.HasSuffix(types.Unalias(root.Signature.Params().At(1).Type()).String(), "fs.FileInfo") {
			for i := 0; i < len(root.Params); i++ {
				if isErrorT(root.Params[i].Type()) {
					if st.isNil(e.paramTerm(root, i)) == 1 {
						return "", false
					}
				}
			}
			return "the callback was entered with an error", false
		}
		return "", true
	case KExtract:
		call := x.a[0]
		if call.k != KCall {
			return "", false
		}
		tp, ok := call.t.(*types.Tuple)
		if !ok || int(x.n) >= tp.Len()-1 || !isErrorT(tp.At(tp.Len()-1).Type()) {
			return "", false
		}
		er := e.result(call, tp.Len()-1, tp.Len(), tp.At(tp.Len()-1).Type())
		if st.isNil(er) != 1 {
			return "the call that produced it may have failed: " + call.s, false
		}
		if f := c.p.bodyOf(call.obj); f != nil && c.p.returnsNil(f, int(x.n), true) {
			return call.s + " may return nothing without an error", false
		}
	case KCall:
		if f := c.p.bodyOf(x.obj); f != nil && c.p.returnsNil(f, 0, false) {
			return x.s + " may return nil", false
		}
	case KField, KLoad:
		o := x.obj
		if x.k == KLoad {
			if x.a[0].k != KFieldAddr {
				if x.a[0].k == KIndexAddr && jsonElem(c.p, x.a[0].a[0]) {
					return "an element of a decoded list may be null", false
				}
				return "", false
			}
			o = x.a[0].obj
		}
		if f, ok := o.(*types.Var); ok && c.p.wireField(f) {
			if c.localRoot(root, x) {
				return "", true
			}
			return "the optional field " + f.Name() + " may be absent", false
		}
	case KIndex:
		if jsonElem(c.p, x.a[0]) {
			return "an element of a decoded list may be null", false
		}
	case KMut:
		if b := x.a[0]; b.k == KCall && strings.HasPrefix(b.s, "encoding/json.") {
			return "a JSON null decodes to nil", false
		}
	}
	return "", false
}

// localRoot: the access path starts at a parameter; callers may have built it.
func (c *Check) localRoot(root *ssa.Function, x *Expr) bool {
	r := x.root()
	return r.k == KParam
}

func jsonElem(p *Prog, list *Expr) bool {
	l := list
	for l.k == KSlice || l.k == KConv {
		l = l.a[0]
	}
	if l.k == KLoad {
		l = l.a[0]
	}
	f, ok := l.obj.(*types.Var)
	return ok && (l.k == KField || l.k == KFieldAddr) && p.jsonTagged(f)
}

func (p *Prog) bodyOf(o types.Object) *ssa.Function {
	f, ok := o.(*types.Func)
	if !ok || f.Pkg() == nil || !p.inMod(f.Pkg()) {
		return nil
	}
	fn := p.SSA.FuncValue(f)
	if fn == nil || fn.Blocks == nil || p.isGen(fn.Pos()) {
		return nil
	}
	return fn
}

// returnsNil: some return hands out a literal nil (with a nil error, if asked).
func (p *Prog) returnsNil(f *ssa.Function, i int, withNilErr bool) bool {
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || i >= len(r.Results) {
			continue
		}
		isNilConst := func(v ssa.Value) bool { k, ok := v.(*ssa.Const); return ok && k.Value == nil }
		if isNilConst(r.Results[i]) && (!withNilErr || isNilConst(r.Results[len(r.Results)-1])) {
			return true
		}
	}
	return false
}

// absent: no value is used that may be missing: a result whose call failed, an
// optional field that was not sent, a table entry that does not exist.
func (c *Check) absent(skip func(*ssa.Function) bool) {
	var start []*ssa.Function
	for _, f := range c.p.AllFuncs {
		if skip(f) || f.Blocks == nil {
			continue
		}
		n := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, v := range c.p.derefs(in) {
					if !solid(v) {
						n++
					}
				}
			}
		}
		if n > 0 {
			start = append(start, f)
		}
	}
	sort.Slice(start, func(i, j int) bool { return start[i].Pos() < start[j].Pos() })
	c.upwardTo("present", start, func(root, target *ssa.Function, res *rootResult, relevant map[*ssa.Function]bool) {
		var e *Engine
		h := Hooks{}
		h.Instr = func(st *State, fr *Frame, in ssa.Instruction) {
			if fr.fn != target {
				return
			}
			for _, v := range c.p.derefs(in) {
				if solid(v) {
					continue
				}
				x := e.val(fr, st, v)
				why, dep := c.mayBeNil(e, st, root, x)
				pos := in.Pos()
				if !pos.IsValid() {
					pos = v.Pos()
				}
				key := fmt.Sprintf("%s@%s", fnName(fr.fn), c.p.pos(pos))
				switch {
				case dep:
					res.putSoft(key, pos, fr.fn, "used without being known to be present", c.p.ctxPath(fr.ctx))
				default:
					if why != "" {
						trace("C12 present %s: %v in %s root %s: %s [%v]", c.p.pos(pos), in, fnName(fr.fn), fnName(root), why, x)
					}
					res.put(key, pos, fr.fn, why == "", "used although "+why, c.p.ctxPath(fr.ctx))
				}
				st.assumeNil(x.strip(), false)
			}
		}
		// helpers that hand out values are not followed: what they return is
		// judged by their error; those that only answer yes or no are
		h.Inline = func(fn *ssa.Function, ci *CallInfo) (bool, bool) {
			if relevant[fn] {
				return true, true
			}
			rs := fn.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				switch t := rs.At(i).Type(); {
				case isBoolT(t), isErrorT(t):
				default:
					return false, true
				}
			}
			return false, false
		}
		// what a function we do not follow was given may have changed
		h.After = func(st *State, ci *CallInfo, r *Expr) {
			if ci.Callee != nil && c.p.isGen(ci.Callee.Pos()) || quietCall(ci.Name) {
				return
			}
			for _, a := range ci.Args {
				if a == nil || a.t == nil {
					continue
				}
				if _, ok := a.t.Underlying().(*types.Pointer); !ok {
					continue
				}
				b := a.strip()
				for x, isNil := range st.nf {
					if isNil && x != b && (x.k == KLoad || x.k == KField) && e.fromExpr(x, b) {
						delete(st.nf, x)
					}
				}
			}
		}
		e = newEngine(c.p, h)
		e.relevant = relevant
		e.Run(root)
		c.useBounded(e)
	}, 4, skip)
}

// paramTerm is the term of the root's i-th parameter.
func (e *Engine) paramTerm(root *ssa.Function, i int) *Expr {
	for _, a := range e.rootArgs {
		if a.k == KParam && int(a.n) == i {
			return a
		}
	}
	return nil
}
