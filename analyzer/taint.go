package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// taint is a flow-insensitive, field-based, summary-based data flow over the
// whole module: which secrets (atoms) can be in which value. Inside a function
// the values of its own parameters are atoms too, and what happens to them is
// applied at every call with the caller's atoms, so that a helper used for
// public and for secret data does not mix them.
type taint struct {
	p     *Prog
	names []string       // secret atoms
	ids   map[string]int // their numbers
	par   map[parKey]int // parameter atoms, numbered from parBase
	pars  []parKey

	val   map[ssa.Value]aset
	cell  map[string]aset // "T.f" of a struct or "g" of a global
	ptw   map[parKey]aset // what a function writes into what its parameter points to
	rets  map[*ssa.Function][]aset
	dest  map[int]map[dst]bool // where parameter atoms go
	binds map[*ssa.FreeVar][]ssa.Value
	hits  map[*taintSink]map[string]token.Pos
	sinks map[ssa.Instruction]*taintSink
	bySig map[string][]*ssa.Function

	// What a rule brings along.
	label    func(owner *types.Named, f *types.Var) string
	extLabel func(owner *types.Named, f *types.Var) (string, bool)
	external func(t *taint, fn *ssa.Function, in ssa.CallInstruction, name string, args []aset) (res aset, decided bool)
	sink     func(in ssa.Instruction) []ssa.Value
	paramSrc func(pr *ssa.Parameter) string
	// cross renames (or drops) a secret where a call hands it back to its caller.
	// named are the labelled cells.
	named map[string]string
	turn  map[int]aset         // what parameters turn out to be
	keys  map[*ssa.Global]aset // secrets that are keys of package-level maps
	cross func(name string, ci ssa.CallInstruction) string
	// clean: a test that comes before the instruction makes the value harmless there.
	clean func(v ssa.Value, in ssa.Instruction) bool
	// concat: what the concatenation of two strings can hold.
	concat  func(x *ssa.BinOp, a, b aset) aset
	withCmd bool

	work  bool
	funcs []*ssa.Function
	rec   map[types.Type]bool
}

const parBase = 1 << 20

type parKey struct {
	fn *ssa.Function
	i  int
}

type dst struct {
	cell string
	sink *taintSink
}

type taintSink struct {
	in ssa.Instruction
	fn *ssa.Function
}

type aset map[int]bool

func (t *taint) atom(name string) int {
	if i, ok := t.ids[name]; ok {
		return i
	}
	t.ids[name] = len(t.names)
	t.names = append(t.names, name)
	return len(t.names) - 1
}

func (t *taint) parAtom(k parKey) int {
	if i, ok := t.par[k]; ok {
		return i
	}
	t.pars = append(t.pars, k)
	t.par[k] = parBase + len(t.pars) - 1
	return t.par[k]
}

func (t *taint) src(name string) aset { return aset{t.atom(name): true} }

// add joins b into a (allocating it) and notes changes.
func (t *taint) add(a *aset, b aset) {
	for x := range b {
		if !(*a)[x] {
			if *a == nil {
				*a = aset{}
			}
			(*a)[x] = true
			t.work = true
		}
	}
}

func joined(l ...aset) aset {
	var out aset
	for _, a := range l {
		for x := range a {
			if out == nil {
				out = aset{}
			}
			out[x] = true
		}
	}
	return out
}

func (t *taint) addVal(v ssa.Value, b aset) {
	if len(b) == 0 {
		return
	}
	a := t.val[v]
	t.add(&a, b)
	t.val[v] = a
}

// send applies a destination to atoms.
func (t *taint) send(d dst, b aset, at token.Pos) {
	for x := range b {
		if x >= parBase {
			m := t.dest[x]
			if m == nil {
				m = map[dst]bool{}
				t.dest[x] = m
			}
			if !m[d] {
				m[d] = true
				t.work = true
				if n := t.named[d.cell]; n != "" && d.cell != "" {
					// The argument becomes one of the secrets.
					t.becomes(x, t.src(n))
				}
			}
			continue
		}
		switch {
		case d.sink != nil:
			h := t.hits[d.sink]
			if h == nil {
				h = map[string]token.Pos{}
				t.hits[d.sink] = h
			}
			if _, ok := h[t.names[x]]; !ok {
				h[t.names[x]] = at
				t.work = true
			}
		case d.cell != "":
			a := t.cell[d.cell]
			t.add(&a, aset{x: true})
			t.cell[d.cell] = a
		}
	}
}

// becomes marks a parameter as holding a secret.
func (t *taint) becomes(x int, b aset) {
	k := t.pars[x-parBase]
	t.addVal(k.fn.Params[k.i], b)
	a := t.turn[x]
	t.add(&a, b)
	t.turn[x] = a
}

func loadedGlobal(v ssa.Value) *ssa.Global {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		g, _ := u.X.(*ssa.Global)
		return g
	}
	return nil
}

// always: every way out of the function can come after the instruction.
func always(in ssa.Instruction) bool {
	after := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{in.Block()}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if after[b] {
			continue
		}
		after[b] = true
		work = append(work, b.Succs...)
	}
	for _, b := range in.Parent().Blocks {
		if n := len(b.Instrs); n > 0 && !after[b] {
			if _, ok := b.Instrs[n-1].(*ssa.Return); ok {
				return false
			}
		}
	}
	return true
}

func namedStruct(tp types.Type) *types.Named {
	tp = types.Unalias(derefT(tp))
	n, _ := tp.(*types.Named)
	if n == nil {
		return nil
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return nil
	}
	return n
}

// fieldKey: the cell of a field of one of the module's structures.
func (t *taint) fieldKey(owner types.Type, i int) (string, *types.Named, *types.Var) {
	n := namedStruct(owner)
	if n == nil {
		return "", nil, nil
	}
	f := n.Underlying().(*types.Struct).Field(i)
	if !t.p.inMod(n.Obj().Pkg()) {
		return "", n, f
	}
	return shortPkg(n.Obj().Pkg().Path()) + "." + n.Obj().Name() + "." + f.Name(), n, f
}

func isByteT(tp types.Type) bool {
	b, ok := tp.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8)
}

func isNumT(tp types.Type) bool {
	b, ok := tp.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

// fieldVal is what a field of any value of its type can hold.
func (t *taint) fieldVal(x ssa.Value, i int) aset {
	key, n, f := t.fieldKey(x.Type(), i)
	if key == "" {
		if n != nil && t.extLabel != nil {
			if s, ok := t.extLabel(n, f); ok {
				if s == "" {
					return nil
				}
				return t.src(s)
			}
		}
		return t.val[x]
	}
	if isBoolT(f.Type()) {
		return nil
	}
	out := t.cell[key]
	if s := t.label(n, f); s != "" {
		out = joined(out, t.src(s))
	}
	return out
}

// printed: the secrets that show when a value of this type is formatted as a whole.
func (t *taint) printed(tp types.Type, v ssa.Value, depth int, deep bool) aset {
	tp = types.Unalias(tp)
	if t.rec[tp] {
		return nil
	}
	t.rec[tp] = true
	defer delete(t.rec, tp)
	if n := namedStruct(tp); n != nil || isNamed(tp) {
		if !deep {
			if f := t.stringer(tp); f != nil && !t.p.isGen(f.Pos()) {
				var out aset
				for _, r := range t.rets[f] {
					for x := range r {
						if x < parBase {
							out = joined(out, aset{x: true})
						} else if t.pars[x-parBase] == (parKey{f, 0}) && v != nil {
							out = joined(out, t.val[v])
						}
					}
				}
				return out
			}
		}
	}
	switch u := tp.Underlying().(type) {
	case *types.Pointer:
		n := namedStruct(u)
		if depth == 0 || deep || n != nil && t.isProto(n) {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Map, *types.Slice, *types.Array:
				return t.printed(u.Elem(), v, depth+1, deep)
			}
		}
		return nil
	case *types.Slice:
		return joined(t.own(v, u.Elem()), t.printed(u.Elem(), nil, depth+1, deep))
	case *types.Array:
		return joined(t.own(v, u.Elem()), t.printed(u.Elem(), nil, depth+1, deep))
	case *types.Map:
		var a aset
		if v != nil {
			a = t.val[v]
		}
		return joined(a, t.printed(u.Key(), nil, depth+1, deep), t.printed(u.Elem(), nil, depth+1, deep))
	case *types.Struct:
		n := namedStruct(tp)
		if n == nil || !t.p.inMod(n.Obj().Pkg()) {
			if v != nil {
				return t.val[v]
			}
			return nil
		}
		proto := t.isProto(n)
		var out aset
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if proto && !f.Exported() {
				continue
			}
			key, _, _ := t.fieldKey(n, i)
			if !isBoolT(f.Type()) {
				if _, isPtr := f.Type().Underlying().(*types.Pointer); !isPtr || proto || deep {
					out = joined(out, t.cell[key])
					if s := t.label(n, f); s != "" {
						out = joined(out, t.src(s))
					}
				}
			}
			if im, ok := f.Type().Underlying().(*types.Interface); ok && proto {
				// The alternatives of a oneof.
				for _, w := range t.p.named {
					if !types.IsInterface(w) && im.NumMethods() > 0 && types.Implements(types.NewPointer(w), im) {
						out = joined(out, t.printed(types.NewPointer(w), nil, 0, deep))
					}
				}
				continue
			}
			out = joined(out, t.printed(f.Type(), nil, depth+1, deep))
		}
		return out
	case *types.Interface, *types.Chan, *types.Signature:
		if v != nil {
			return t.val[v]
		}
		return nil
	}
	if v == nil || isBoolT(tp) || isByteT(tp) {
		return nil
	}
	return t.val[v]
}

func isNamed(tp types.Type) bool {
	_, ok := types.Unalias(derefT(tp)).(*types.Named)
	return ok
}

// own: the atoms of a list itself, where its elements are not structures of their own.
func (t *taint) own(v ssa.Value, elem types.Type) aset {
	if v == nil {
		return nil
	}
	if n := namedStruct(elem); n != nil && t.p.inMod(n.Obj().Pkg()) {
		return nil
	}
	return t.val[v]
}

func (t *taint) isProto(n *types.Named) bool {
	return t.p.isPB(n.Obj())
}

// stringer finds the module's own String or Error method of a type.
func (t *taint) stringer(tp types.Type) *ssa.Function {
	for _, m := range []string{"Error", "String"} {
		ms := types.NewMethodSet(tp)
		for i := 0; i < ms.Len(); i++ {
			fo, ok := ms.At(i).Obj().(*types.Func)
			if !ok || fo.Name() != m || !t.p.inMod(fo.Pkg()) {
				continue
			}
			sig := fo.Type().(*types.Signature)
			if sig.Params().Len() == 0 && sig.Results().Len() == 1 && isStringT(sig.Results().At(0).Type()) {
				if f := t.p.SSA.FuncValue(fo); f != nil && f.Blocks != nil {
					return f
				}
			}
		}
	}
	return nil
}

// into writes atoms into the memory a value refers to.
func (t *taint) into(v ssa.Value, b aset, seen map[ssa.Value]bool) {
	if len(b) == 0 || v == nil {
		return
	}
	if seen == nil {
		seen = map[ssa.Value]bool{}
	}
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
	case *ssa.Global:
		t.send(dst{cell: t.globalKey(x)}, b, x.Pos())
	case *ssa.Parameter:
		t.addVal(v, b)
		for i, q := range x.Parent().Params {
			if q == x {
				k := parKey{x.Parent(), i}
				a := t.ptw[k]
				self := t.parAtom(k)
				for y := range b {
					if y != self {
						t.add(&a, aset{y: true})
					}
				}
				t.ptw[k] = a
			}
		}
	case *ssa.FreeVar:
		t.addVal(v, b)
		for _, w := range t.binds[x] {
			t.into(w, b, seen)
		}
	case *ssa.FieldAddr:
		key, _, f := t.fieldKey(x.X.Type(), x.Field)
		if key != "" {
			if !isBoolT(f.Type()) {
				t.send(dst{cell: key}, b, x.Pos())
			}
			return
		}
		t.into(x.X, b, seen)
	case *ssa.IndexAddr:
		t.into(x.X, b, seen)
	case *ssa.Slice:
		t.into(x.X, b, seen)
	case *ssa.SliceToArrayPointer:
		t.into(x.X, b, seen)
	case *ssa.ChangeType:
		t.into(x.X, b, seen)
	case *ssa.Convert:
		t.into(x.X, b, seen)
	case *ssa.ChangeInterface:
		t.into(x.X, b, seen)
	case *ssa.MakeInterface:
		t.addVal(v, b)
		t.into(x.X, b, seen)
	case *ssa.TypeAssert:
		t.into(x.X, b, seen)
	case *ssa.Lookup:
		t.into(x.X, b, seen)
	case *ssa.Extract:
		t.addVal(v, b)
		if l, ok := x.Tuple.(*ssa.Lookup); ok {
			t.into(l.X, b, seen)
		}
	case *ssa.Phi:
		t.addVal(v, b)
		for _, e := range x.Edges {
			t.into(e, b, seen)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			t.into(x.X, b, seen)
		}
		t.addVal(v, b)
	case *ssa.Call:
		t.addVal(v, b)
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			t.into(x.Call.Args[0], b, seen)
		}
		if n := calleeName(&x.Call); strings.HasSuffix(n, ".NewEncoder") || strings.HasSuffix(n, ".NewWriter") || strings.HasSuffix(n, ".MultiWriter") {
			for _, a := range x.Call.Args {
				t.into(a, b, seen)
			}
		}
	default:
		t.addVal(v, b)
	}
}

func (t *taint) globalKey(g *ssa.Global) string {
	if g.Pkg == nil {
		return "global " + g.Name()
	}
	return "global " + shortPkg(g.Pkg.Pkg.Path()) + "." + g.Name()
}

// of reads a value's atoms.
func (t *taint) of(v ssa.Value) aset {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	case *ssa.Global:
		return t.cell[t.globalKey(x)]
	}
	return t.val[v]
}

// at reads a value's atoms as an instruction sees them.
func (t *taint) at(v ssa.Value, in ssa.Instruction) aset {
	a := t.of(v)
	if len(a) > 0 && t.clean != nil && t.clean(v, in) {
		return nil
	}
	return a
}

func (t *taint) run() {
	t.ids, t.par = map[string]int{}, map[parKey]int{}
	t.val, t.cell, t.ptw = map[ssa.Value]aset{}, map[string]aset{}, map[parKey]aset{}
	t.rets, t.dest = map[*ssa.Function][]aset{}, map[int]map[dst]bool{}
	t.binds, t.hits, t.sinks = map[*ssa.FreeVar][]ssa.Value{}, map[*taintSink]map[string]token.Pos{}, map[ssa.Instruction]*taintSink{}
	t.bySig, t.rec = map[string][]*ssa.Function{}, map[types.Type]bool{}
	for _, f := range t.p.AllFuncs {
		if inCmd(f) && !t.withCmd {
			continue
		}
		t.funcs = append(t.funcs, f)
	}
	for _, sp := range t.p.ByPkg {
		if f := sp.Func("init"); f != nil && f.Blocks != nil && !strings.Contains(sp.Pkg.Path(), "/cmd") {
			t.funcs = append(t.funcs, f)
		}
	}
	sort.SliceStable(t.funcs, func(i, j int) bool { return t.funcs[i].String() < t.funcs[j].String() })
	t.keys, t.turn = map[*ssa.Global]aset{}, map[int]aset{}
	t.named = map[string]string{}
	for _, n := range t.p.named {
		if st, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if key, _, f := t.fieldKey(n, i); key != "" {
					if s := t.label(n, f); s != "" {
						t.named[key] = s
					}
				}
			}
		}
	}
	used := map[*ssa.Function]bool{}
	for _, f := range t.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = ci.Common().Value
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					for i, w := range mc.Bindings {
						t.binds[g.FreeVars[i]] = append(t.binds[g.FreeVars[i]], w)
					}
					used[g] = true
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil || *op == callee {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						used[g] = true
					}
				}
				if len(t.sink(in)) > 0 {
					t.sinks[in] = &taintSink{in, f}
				}
			}
		}
	}
	for g := range used {
		s := types.TypeString(g.Signature, nil)
		t.bySig[s] = append(t.bySig[s], g)
	}
	for i := 0; i < 60; i++ {
		t.work = false
		for _, f := range t.funcs {
			t.fn(f)
		}
		if !t.work {
			return
		}
	}
}

func (t *taint) fn(f *ssa.Function) {
	for i, q := range f.Params {
		if isBoolT(q.Type()) {
			continue
		}
		t.addVal(q, aset{t.parAtom(parKey{f, i}): true})
		if t.paramSrc != nil {
			if s := t.paramSrc(q); s != "" {
				t.addVal(q, t.src(s))
			}
		}
	}
	for _, v := range f.FreeVars {
		for _, w := range t.binds[v] {
			t.addVal(v, t.of(w))
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			t.instr(f, in)
		}
	}
}

func (t *taint) instr(f *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.FieldAddr:
		t.addVal(x, t.fieldVal(x.X, x.Field))
	case *ssa.Field:
		t.addVal(x, t.fieldVal(x.X, x.Field))
	case *ssa.UnOp:
		if x.Op == token.NOT || isBoolT(x.Type()) {
			return
		}
		t.addVal(x, t.at(x.X, in))
	case *ssa.BinOp:
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return
		}
		if t.concat != nil {
			t.addVal(x, t.concat(x, t.at(x.X, in), t.at(x.Y, in)))
			return
		}
		t.addVal(x, joined(t.at(x.X, in), t.at(x.Y, in)))
	case *ssa.Phi:
		if isBoolT(x.Type()) {
			return
		}
		for i, e := range x.Edges {
			pred := x.Block().Preds[i]
			t.addVal(x, t.at(e, pred.Instrs[len(pred.Instrs)-1]))
		}
	case *ssa.Convert:
		if isByteT(x.X.Type()) && isNumT(x.Type()) && !isByteT(x.Type()) {
			return
		}
		t.addVal(x, t.at(x.X, in))
	case *ssa.ChangeType:
		t.addVal(x, t.at(x.X, in))
	case *ssa.ChangeInterface:
		t.addVal(x, t.at(x.X, in))
	case *ssa.SliceToArrayPointer:
		t.addVal(x, t.at(x.X, in))
	case *ssa.MakeInterface:
		t.addVal(x, t.printed(x.X.Type(), x.X, 0, false))
	case *ssa.TypeAssert:
		t.addVal(x, t.at(x.X, in))
	case *ssa.Slice:
		t.addVal(x, t.at(x.X, in))
	case *ssa.IndexAddr:
		t.addVal(x, t.at(x.X, in))
	case *ssa.Index:
		t.addVal(x, t.at(x.X, in))
	case *ssa.Lookup:
		t.addVal(x, t.at(x.X, in))
		if g := loadedGlobal(x.X); g != nil {
			// What is looked up among secrets is one of them.
			for y := range t.of(x.Index) {
				if y >= parBase && always(in) {
					t.becomes(y, t.keys[g])
				}
			}
		}
	case *ssa.Range:
		t.addVal(x, t.at(x.X, in))
	case *ssa.Next:
		t.addVal(x, t.at(x.Iter, in))
	case *ssa.Extract:
		if isBoolT(x.Type()) {
			return
		}
		if c, ok := x.Tuple.(*ssa.Call); ok {
			t.addVal(x, t.results(c, x.Index))
			return
		}
		t.addVal(x, t.of(x.Tuple))
	case *ssa.MakeClosure:
		// The bindings reach the closure's free variables in fn.
	case *ssa.Store:
		if isBoolT(x.Val.Type()) {
			return
		}
		t.into(x.Addr, t.at(x.Val, in), nil)
	case *ssa.MapUpdate:
		if g := loadedGlobal(x.Map); g != nil {
			for y := range t.of(x.Key) {
				if y < parBase {
					a := t.keys[g]
					t.add(&a, aset{y: true})
					t.keys[g] = a
				}
			}
		}
		t.into(x.Map, joined(t.of(x.Key), t.at(x.Value, in)), nil)
	case *ssa.Send:
		t.into(x.Chan, t.at(x.X, in), nil)
	case *ssa.Select:
		for _, s := range x.States {
			if s.Dir == types.SendOnly {
				t.into(s.Chan, t.of(s.Send), nil)
			} else {
				t.addVal(x, t.of(s.Chan))
			}
		}
	case *ssa.Return:
		rs := t.rets[f]
		for len(rs) < len(x.Results) {
			rs = append(rs, nil)
		}
		for i, r := range x.Results {
			if isBoolT(r.Type()) {
				continue
			}
			t.add(&rs[i], t.at(r, in))
		}
		t.rets[f] = rs
	}
	if s := t.sinks[in]; s != nil {
		for _, v := range t.sink(in) {
			t.send(dst{sink: s}, t.at(v, in), in.Pos())
		}
	}
	if ci, ok := in.(ssa.CallInstruction); ok {
		t.call(f, ci)
	}
}

// callArgs are the arguments as the callee's parameters see them.
func callArgs(cc *ssa.CallCommon) []ssa.Value {
	if cc.IsInvoke() {
		return append([]ssa.Value{cc.Value}, cc.Args...)
	}
	return cc.Args
}

func (t *taint) goes(cc *ssa.CallCommon) []*ssa.Function {
	var out []*ssa.Function
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	for _, g := range t.p.targets(cc) {
		if g.Blocks != nil && t.p.inModFn(g) {
			out = append(out, g)
		}
	}
	if !cc.IsInvoke() && cc.StaticCallee() == nil {
		if sig, ok := cc.Value.Type().Underlying().(*types.Signature); ok {
			for _, g := range t.bySig[types.TypeString(sig, nil)] {
				if g.Blocks != nil {
					out = append(out, g)
				}
			}
		}
	}
	return out
}

func (p *Prog) inModFn(f *ssa.Function) bool {
	f = outer(f)
	return f.Pkg != nil && p.inMod(f.Pkg.Pkg)
}

// subst replaces the callee's own parameters by the caller's atoms.
func (t *taint) subst(g *ssa.Function, a aset, ci ssa.CallInstruction) aset {
	args := callArgs(ci.Common())
	var out aset
	for x := range a {
		if x < parBase && t.cross != nil {
			if n := t.cross(t.names[x], ci); n == "" {
				continue
			} else if n != t.names[x] {
				x = t.atom(n)
			}
		}
		if x >= parBase {
			k := t.pars[x-parBase]
			if k.fn == g {
				if k.i < len(args) {
					out = joined(out, t.at(args[k.i], ci))
				}
				continue
			}
		}
		out = joined(out, aset{x: true})
	}
	return out
}

func (t *taint) results(c *ssa.Call, i int) aset {
	cc := c.Common()
	var out aset
	gs := t.goes(cc)
	for _, g := range gs {
		if i < len(t.rets[g]) {
			out = joined(out, t.subst(g, t.rets[g][i], c))
		}
	}
	if len(gs) == 0 {
		tp := c.Type()
		if tu, ok := tp.(*types.Tuple); ok {
			tp = tu.At(i).Type()
		}
		out = t.extResult(calleeName(cc), tp, t.val[c])
	}
	return out
}

// extResult filters what a result of a call outside the module can hold.
func (t *taint) extResult(name string, tp types.Type, a aset) aset {
	if isBoolT(tp) {
		return nil
	}
	if strings.HasPrefix(name, "os.") || strings.HasPrefix(name, "io/ioutil.") {
		// Errors of the operating system name the file.
		if isErrorT(tp) {
			return a
		}
		return nil
	}
	if isErrorT(tp) {
		for _, n := range []string{"strconv.", "net/url.Parse", "net/url.ParseRequestURI", "time.Parse", "fmt.Errorf", "errors.", "github.com/pkg/errors."} {
			if strings.HasPrefix(name, n) {
				return a
			}
		}
		return nil
	}
	if isNumT(tp) && !isByteT(tp) && !strings.HasPrefix(name, "strconv.") {
		return nil
	}
	return a
}

func (t *taint) call(f *ssa.Function, ci ssa.CallInstruction) {
	cc := ci.Common()
	args := callArgs(cc)
	v, _ := ci.(*ssa.Call)
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "append":
			if v != nil {
				for _, a := range args {
					t.addVal(v, t.at(a, ci))
				}
			}
		case "copy":
			t.into(args[0], t.at(args[1], ci), nil)
		case "min", "max":
			if v != nil {
				for _, a := range args {
					t.addVal(v, t.at(a, ci))
				}
			}
		}
		return
	}
	gs := t.goes(cc)
	for _, g := range gs {
		for i, a := range args {
			if i >= len(g.Params) {
				break
			}
			k := parKey{g, i}
			for d := range t.dest[t.parAtom(k)] {
				t.send(d, t.at(a, ci), ci.Pos())
			}
			if b := t.turn[t.parAtom(k)]; len(b) > 0 && always(ci) {
				for y := range t.at(a, ci) {
					if y >= parBase {
						t.becomes(y, b)
					}
				}
			}
			if w := t.ptw[k]; len(w) > 0 {
				t.into(a, t.subst(g, w, ci), nil)
			}
		}
		if v != nil {
			if _, isT := v.Type().(*types.Tuple); !isT && !isBoolT(v.Type()) {
				t.addVal(v, t.results(v, 0))
			}
		}
	}
	if len(gs) > 0 {
		return
	}
	name := calleeName(cc)
	as := make([]aset, len(args))
	for i, a := range args {
		as[i] = t.at(a, ci)
	}
	res, decided := t.external(t, f, ci, name, as)
	if !decided {
		res = joined(as...)
	}
	if v != nil {
		if _, isT := v.Type().(*types.Tuple); isT {
			t.addVal(v, res)
		} else {
			t.addVal(v, t.extResult(name, v.Type(), res))
		}
	}
}
