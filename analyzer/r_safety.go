package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const fpr = "ts/fingerprint."

func init() {
	register(&propDef{
		ID: "C39",
		Expl: "inputs: the disjunctive dataflow runs GetFingerprint. On every path that gives a number, the own identifier is that in the configuration, the own key the public half of the account's identity key pair, the identifier of the contact the one the caller gives, and the contact's key the content of the file the identity of that very contact is recorded in, read by this request, with the type byte before it; what is returned as number and as code is what was computed from these. " +
			"halves: a context-sensitive data-dependence analysis of the computation (values, memory cells by allocation site and calling context, fields apart) shows for each of the two halves of the scannable code that the whole identifier and the key of the side it stands for go into the hash it is made from, that the version is the one asked for, and that the number has all four in it.",
		Assume:  []string{"the hash function and the protocol buffer encoding are as documented; the digit arithmetic and the order of the halves are what the vector tests show"},
		Minimum: map[string]int{"inputs": 8, "halves": 3},
		Run:     runC39,
	})
}

var makesNumber = names(fpr+"CreateFingerprintSimple", fpr+"CreateFingerprint")

func runC39(c *Check) {
	for _, n := range []string{"CreateFingerprintSimple", "CreateFingerprint"} {
		f := c.p.Fn("ts/fingerprint." + n)
		if f == nil || len(f.Params) != 5 {
			if n == "CreateFingerprintSimple" {
				c.ob("halves", "anchor", 0, false, "the function that computes safety numbers is not found")
			}
			continue
		}
		c.numberOf(f)
	}
	root := c.p.Fn("ts.GetFingerprint")
	if root == nil || len(root.Params) != 2 {
		c.ob("inputs", "anchor", 0, false, "the request for a safety number is not found")
		return
	}
	res := &rootResult{inst: map[string]instRes{}}
	var e *Engine
	has := func(x *Expr, pred func(y *Expr) bool) bool { return e.it.contains(x, pred) }
	tel := func(y *Expr) bool {
		v := varOf(y)
		return v != nil && v.Name() == "Tel" && strings.HasPrefix(c.p.fieldOwner(v), Mod+"/config.")
	}
	ident := func(y *Expr) bool {
		return y.k != KConst && y.t != nil && namedIs(derefT(y.t), Mod+"/axolotl", "IdentityKeyPair")
	}
	private := func(y *Expr) bool { v := varOf(y); return v != nil && v.Name() == "PrivateKey" }
	theirs := func(y *Expr) bool { return y.k == KConst && strings.Contains(y.s, "remote_") }
	// must: whichever way the value came about, it has such a term in it.
	var must func(x *Expr, pred func(y *Expr) bool, seen map[*Expr]bool) bool
	must = func(x *Expr, pred func(y *Expr) bool, seen map[*Expr]bool) bool {
		if x == nil || seen[x] {
			return false
		}
		if pred(x) {
			return true
		}
		seen[x] = true
		defer delete(seen, x)
		if ops := e.it.phiOps[x]; len(ops) > 0 && (x.k == KJoin || x.k == KPhi) {
			for y := range ops {
				if !seen[y] && !must(y, pred, seen) {
					return false
				}
			}
			return true
		}
		for _, y := range x.a {
			if must(y, pred, seen) {
				return true
			}
		}
		return len(x.a) == 0 && has(x, pred) // what a buffer was filled with
	}
	recorded := map[*Expr]bool{} // the contents of the file the contact's identity is in
	e = newEngine(c.p, Hooks{
		Call: func(st *State, ci *CallInfo) Action {
			if makesNumber(ci.Name) {
				return OpaqueKeep
			}
			return Default
		},
		After: func(st *State, ci *CallInfo, r *Expr) {
			if strings.HasSuffix(ci.Name, ".ReadFile") {
				recorded[r] = has(ci.Args[0], theirs) && e.fromParam(ci.Args[0], 0) && !e.fromParam(ci.Args[0], 1)
			}
			if !makesNumber(ci.Name) || len(ci.Args) != 5 {
				return
			}
			a := ci.Args
			put := func(w string, ok bool, why string) {
				res.put("inputs|"+w+"|"+fnName(root), ci.Pos(), ci.In, ok, why, c.p.ctxPath(ci.Ctx))
			}
			trace("C39 args %v", a)
			put("own identifier", must(a[1], tel, map[*Expr]bool{}) && !e.fromParam(a[1], 0) && !e.fromParam(a[1], 1), "the own identifier in a safety number is not that of the account")
			put("own key", must(a[2], ident, map[*Expr]bool{}) && !has(a[2], theirs), "the own key in a safety number is not the account's identity key")
			put("public", !has(a[2], private), "the private key is put into a safety number")
			put("contact", must(a[3], func(y *Expr) bool { return y.k == KParam && y.n == 1 }, map[*Expr]bool{}) && !e.fromParam(a[3], 0) && !has(a[3], tel), "the contact's identifier in a safety number is not the one given")
			file := must(a[4], func(y *Expr) bool { return recorded[y] }, map[*Expr]bool{})
			put("contact's key", file && !has(a[4], ident), "the contact's key in a safety number is not the one recorded for the contact")
			st.record(Event{Kind: "sn.made", Args: []*Expr{r}, Res: r, Err: e.errOf(ci.Site, r), Pos: ci.Pos(), Fn: ci.In})
		},
	})
	for _, x := range e.okExits(root, e.Run(root)) {
		trace("C39 exit %v", x.rets)
		made := x.st.events("sn.made")
		if len(made) == 0 {
			res.put("inputs|made|"+fnName(root), root.Pos(), root, false, "a safety number is given that was not computed", "")
			continue
		}
		last := made[len(made)-1]
		res.put("inputs|made|"+fnName(root), root.Pos(), root, true, "", "")
		for i, w := range []string{"number", "code"} {
			ok := false
			for _, m := range made {
				ok = ok || e.it.contains(x.rets[i], func(y *Expr) bool { return y.k == KExtract && y.a[0] == m.Args[0] && y.n == int64(i) })
			}
			res.put("inputs|"+w+"|"+fnName(root), last.Pos, root, ok, "what is given as the "+w+" is not the one computed", "")
		}
	}
	c.useBounded(e)
	c.shownReport(res)
}

// --- what the halves are made of ---

const (
	snVersion = 1 << iota
	snOwnRaw  // the own identifier, before it is hashed
	snOwnPart // a part of it
	snOwnID   // hashed
	snOwnBad  // a part of it, hashed
	snOwnKey
	snTheirRaw
	snTheirPart
	snTheirID
	snTheirBad
	snTheirKey
)

func snHashed(l int) int {
	if l&snOwnPart != 0 {
		l = l&^snOwnPart | snOwnBad
	}
	if l&snTheirPart != 0 {
		l = l&^snTheirPart | snTheirBad
	}
	if l&snOwnRaw != 0 {
		l = l&^snOwnRaw | snOwnID
	}
	if l&snTheirRaw != 0 {
		l = l&^snTheirRaw | snTheirID
	}
	return l
}

func snCut(l int) int {
	if l&snOwnRaw != 0 {
		l = l&^snOwnRaw | snOwnPart
	}
	if l&snTheirRaw != 0 {
		l = l&^snTheirRaw | snTheirPart
	}
	return l
}

// dcell is a memory cell: what it holds, and its fields apart.
type dcell struct {
	val    dval
	text   bool   // it is a text of its own, not a buffer
	parent *dcell // what a store to an unknown element reaches
	fixed  bool   // its size does not depend on what goes in
	fields map[int]*dcell
}

// dval is a value: what went into it, and the cells it refers to (for a
// struct or an array: the cells it consists of).
type dval struct {
	labs  int
	cells map[*dcell]bool
	cut   map[*dcell]bool // of these only a part
	tuple []*dval
}

// depends is the data-dependence analysis.
type depends struct {
	c       *Check
	vals    map[string]map[ssa.Value]*dval
	cells   map[string]map[ssa.Value]*dcell
	rets    map[string][]*dval
	changed bool
	onMsg   func(in ssa.CallInstruction, arg ssa.Value, v *dval)
}

func (d *depends) join(a, b *dval) {
	if b == nil {
		return
	}
	if a.labs|b.labs != a.labs {
		a.labs |= b.labs
		d.changed = true
	}
	for k := range b.cells {
		if !a.cells[k] {
			if a.cells == nil {
				a.cells = map[*dcell]bool{}
			}
			a.cells[k] = true
			d.changed = true
		}
	}
	for k := range b.cut {
		if !a.cut[k] {
			a.cut = cellsAnd(a.cut, k)
			d.changed = true
		}
	}
	for i, t := range b.tuple {
		for len(a.tuple) <= i {
			a.tuple = append(a.tuple, &dval{})
		}
		d.join(a.tuple[i], t)
	}
}

func (c *dcell) field(i int) *dcell {
	if c.fields == nil {
		c.fields = map[int]*dcell{}
	}
	if c.fields[i] == nil {
		c.fields[i] = &dcell{}
		if c.parent != nil {
			c.fields[i].parent = c.parent.field(i)
		}
	}
	return c.fields[i]
}

func (c *dcell) elems() (l []*dcell) {
	for i, f := range c.fields {
		if i >= elemBase {
			l = append(l, f)
		}
	}
	return l
}

const elemBase = 1 << 16

// elem is element i of an array.
func (c *dcell) elem(i int) *dcell {
	f := c.field(elemBase + i)
	f.parent = c
	return f
}

func (d *depends) copyTo(dst, src *dcell, depth int) {
	if dst == src || depth > 6 {
		return
	}
	d.join(&dst.val, &src.val)
	for i, f := range src.fields {
		d.copyTo(dst.field(i), f, depth+1)
	}
}

// pour copies the elements of src to unknown places of dst.
func (d *depends) pour(dst, src *dcell) {
	d.join(&dst.val, &src.val)
	for i, f := range src.fields {
		if i >= elemBase {
			d.copyTo(dst, f, 1)
		} else {
			d.copyTo(dst.field(i), f, 1)
		}
	}
}

func (d *depends) deep(v *dval) int {
	l := 0
	seen := map[*dcell]bool{}
	var val func(v *dval)
	var cell func(c *dcell)
	cell = func(c *dcell) {
		if seen[c] {
			return
		}
		seen[c] = true
		val(&c.val)
		for _, f := range c.fields {
			cell(f)
		}
	}
	val = func(v *dval) {
		l |= v.labs
		for c := range v.cells {
			cell(c)
		}
		for c := range v.cut {
			l |= snCut(d.deep(&c.val))
		}
		for _, t := range v.tuple {
			val(t)
		}
	}
	val(v)
	return l
}

func (d *depends) of(ctx string, v ssa.Value) *dval {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return &dval{}
	case *ssa.Global:
		ctx = "global"
		if d.cells[ctx] == nil || d.cells[ctx][x] == nil {
			return &dval{cells: map[*dcell]bool{d.cell(ctx, x): true}}
		}
		return &dval{cells: map[*dcell]bool{d.cells[ctx][x]: true}}
	}
	if d.vals[ctx] == nil {
		d.vals[ctx] = map[ssa.Value]*dval{}
	}
	r := d.vals[ctx][v]
	if r == nil {
		r = &dval{}
		d.vals[ctx][v] = r
	}
	return r
}

func (d *depends) cell(ctx string, v ssa.Value) *dcell {
	if d.cells[ctx] == nil {
		d.cells[ctx] = map[ssa.Value]*dcell{}
	}
	if d.cells[ctx][v] == nil {
		d.cells[ctx][v] = &dcell{}
	}
	return d.cells[ctx][v]
}

func isAggregate(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// held is a value whose content is one cell that has these labels.
func (d *depends) held(ctx string, v ssa.Value, labs int) *dval {
	c := d.cell(ctx, v)
	d.join(&c.val, &dval{labs: labs})
	if _, ok := v.Type().Underlying().(*types.Basic); ok {
		return &dval{labs: labs}
	}
	return &dval{labs: labs, cells: map[*dcell]bool{c: true}}
}

func (d *depends) run(ctx string, f *ssa.Function, depth int) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			d.instr(ctx, in, depth)
		}
	}
}

func (d *depends) instr(ctx string, in ssa.Instruction, depth int) {
	of := func(v ssa.Value) *dval { return d.of(ctx, v) }
	switch x := in.(type) {
	case *ssa.Alloc:
		cl := d.cell(ctx, x)
		_, cl.fixed = derefT(x.Type()).Underlying().(*types.Array)
		d.join(of(x), &dval{cells: map[*dcell]bool{cl: true}})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		cl := d.cell(ctx, v)
		if mk, ok := v.(*ssa.MakeSlice); ok {
			_, cl.fixed = mk.Len.(*ssa.Const)
		}
		d.join(of(v), &dval{cells: map[*dcell]bool{cl: true}})
	case *ssa.MakeClosure:
		c := d.cell(ctx, x)
		for i, b := range x.Bindings {
			d.join(&c.field(i).val, of(b))
		}
		d.join(of(x), &dval{cells: map[*dcell]bool{c: true}})
	case *ssa.FieldAddr:
		for c := range of(x.X).cells {
			d.join(of(x), &dval{labs: of(x.X).labs, cells: map[*dcell]bool{c.field(x.Field): true}})
			for _, el := range c.elems() { // of an unknown element
				d.join(of(x), &dval{cells: map[*dcell]bool{el.field(x.Field): true}})
			}
		}
	case *ssa.Field:
		for c := range of(x.X).cells {
			d.load(of(x), c.field(x.Field), x.Type())
		}
		d.join(of(x), &dval{labs: of(x.X).labs})
	case *ssa.IndexAddr:
		k, ok := x.Index.(*ssa.Const)
		if !ok || k.Value == nil {
			d.join(of(x), of(x.X))
			return
		}
		d.join(of(x), &dval{labs: of(x.X).labs, cut: of(x.X).cut})
		for c := range of(x.X).cells {
			d.join(of(x), &dval{cells: map[*dcell]bool{c.elem(int(k.Int64())): true}})
		}
	case *ssa.Index:
		d.join(of(x), &dval{labs: of(x.X).labs})
		for c := range of(x.X).cells {
			d.load(of(x), c, x.Type())
		}
	case *ssa.Lookup:
		for c := range of(x.X).cells {
			d.load(of(x), c, x.Type())
		}
		d.join(of(x), &dval{labs: of(x.X).labs})
		if x.CommaOk {
			d.join(of(x), &dval{tuple: []*dval{{labs: of(x).labs, cells: of(x).cells}, {}}})
		}
	case *ssa.MapUpdate:
		for c := range of(x.Map).cells {
			d.store(c, of(x.Value), x.Value.Type())
			d.join(&c.val, &dval{labs: d.deep(of(x.Key))})
		}
	case *ssa.UnOp:
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok && x.Op.String() == "*" {
			for c := range of(x.X).cells {
				d.load(of(x), c, pt.Elem())
			}
			return
		}
		d.join(of(x), of(x.X))
		if x.Op.String() == "<-" {
			for c := range of(x.X).cells {
				d.join(of(x), &c.val)
			}
		}
	case *ssa.Send:
		for c := range of(x.Chan).cells {
			d.store(c, of(x.X), x.X.Type())
		}
	case *ssa.Store:
		for c := range of(x.Addr).cells {
			d.store(c, of(x.Val), x.Val.Type())
		}
	case *ssa.Slice:
		v := of(x.X)
		if x.Low == nil && x.High == nil {
			d.join(of(x), v)
			return
		}
		d.join(of(x), &dval{labs: snCut(v.labs), cut: v.cut})
		for c := range v.cells {
			if c.text { // a part of a text
				d.join(of(x), &dval{cut: map[*dcell]bool{c: true}})
			} else {
				d.join(of(x), &dval{cells: map[*dcell]bool{c: true}})
			}
		}
	case *ssa.Convert:
		l := d.deep(of(x.X))
		if isAggregate(x.Type()) {
			d.join(of(x), of(x.X))
			return
		}
		d.cell(ctx, x).text = true
		d.join(of(x), d.held(ctx, x, l))
	case *ssa.BinOp:
		switch x.Op.String() {
		case "==", "!=", "<", "<=", ">", ">=":
		default:
			d.join(of(x), &dval{labs: d.deep(of(x.X)) | d.deep(of(x.Y))})
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			d.join(of(x), of(e))
		}
	case *ssa.ChangeType:
		d.join(of(x), of(x.X))
	case *ssa.ChangeInterface:
		d.join(of(x), of(x.X))
	case *ssa.MakeInterface:
		d.join(of(x), of(x.X))
	case *ssa.SliceToArrayPointer:
		d.join(of(x), of(x.X))
	case *ssa.TypeAssert:
		if x.CommaOk {
			d.join(of(x), &dval{tuple: []*dval{of(x.X), {}}})
		} else {
			d.join(of(x), of(x.X))
		}
	case *ssa.Extract:
		if t := of(x.Tuple).tuple; x.Index < len(t) {
			d.join(of(x), t[x.Index])
		}
	case *ssa.Range:
		d.join(of(x), of(x.X))
	case *ssa.Next:
		v := &dval{}
		for c := range of(x.Iter).cells {
			d.join(v, &c.val)
			v.cells = cellsAnd(v.cells, c)
		}
		d.join(of(x), &dval{tuple: []*dval{{}, v, v}})
	case *ssa.Return:
		for len(d.rets[ctx]) < len(x.Results) {
			d.rets[ctx] = append(d.rets[ctx], &dval{})
		}
		for i, r := range x.Results {
			d.join(d.rets[ctx][i], of(r))
		}
	case ssa.CallInstruction:
		d.call(ctx, x, depth)
	}
}

func cellsAnd(m map[*dcell]bool, c *dcell) map[*dcell]bool {
	if m == nil {
		m = map[*dcell]bool{}
	}
	m[c] = true
	return m
}

func (d *depends) load(to *dval, c *dcell, t types.Type) {
	var from []*dcell
	from = append(from, c)
	for p := c.parent; p != nil; p = p.parent {
		from = append(from, p)
	}
	from = append(from, c.elems()...)
	for n, f := range from {
		if isAggregate(t) && !(n > 0 && len(f.fields) == 0 && f.val.labs == 0 && len(f.val.cells) == 0) {
			d.join(to, &dval{cells: map[*dcell]bool{f: true}})
		} else {
			d.join(to, &f.val)
		}
	}
}

func (d *depends) store(c *dcell, v *dval, t types.Type) {
	if isAggregate(t) {
		for s := range v.cells {
			d.copyTo(c, s, 0)
		}
		d.join(&c.val, &dval{labs: v.labs})
		return
	}
	d.join(&c.val, v)
}

func (d *depends) call(ctx string, in ssa.CallInstruction, depth int) {
	cc := in.Common()
	of := func(v ssa.Value) *dval { return d.of(ctx, v) }
	res := &dval{}
	rv, _ := in.(*ssa.Call)
	if rv != nil {
		res = of(rv)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			c := d.cell(ctx, rv)
			for n, a := range cc.Args {
				for s := range of(a).cells {
					if n == 0 {
						d.copyTo(c, s, 0)
					} else {
						d.pour(c, s)
					}
				}
				for s := range of(a).cut {
					d.join(&c.val, &dval{labs: snCut(d.deep(&s.val))})
				}
				d.join(&c.val, &dval{labs: of(a).labs})
			}
			d.join(res, &dval{cells: map[*dcell]bool{c: true}})
		case "copy":
			l := of(cc.Args[1])
			for c := range of(cc.Args[0]).cells {
				if c.fixed { // the rest may not fit
					d.join(&c.val, &dval{labs: snCut(d.deep(l))})
					continue
				}
				for s := range l.cut {
					d.join(&c.val, &dval{labs: snCut(d.deep(&s.val))})
				}
				for s := range l.cells {
					d.pour(c, s)
				}
				d.join(&c.val, &dval{labs: l.labs})
			}
		case "min", "max":
			for _, a := range cc.Args {
				d.join(res, of(a))
			}
		}
		return
	}
	name := calleeName(cc)
	var args []ssa.Value
	if cc.IsInvoke() {
		args = append(args, cc.Value)
	}
	args = append(args, cc.Args...)
	if strings.HasSuffix(name, "proto.Marshal") || strings.HasSuffix(name, ".MarshalAppend") {
		for _, a := range args {
			d.onMsg(in, a, of(a))
		}
	}
	inlined := false
	if depth < 14 {
		for _, g := range d.c.p.targets(cc) {
			if !d.c.p.inModFn(g) || d.c.p.isGen(g.Pos()) || len(g.Blocks) == 0 {
				continue
			}
			sub := ctx + "/" + fmt.Sprintf("%p", in)
			if i := strings.Index(ctx, "="+fnName(g)+"/"); i >= 0 { // recursion: the context of the first
				sub = ctx[:i]
			}
			sub += "=" + fnName(g)
			inlined = true
			off := len(g.Params) - len(args)
			for i, pr := range g.Params {
				if i-off >= 0 && i-off < len(args) {
					d.join(d.of(sub, pr), of(args[i-off]))
				}
			}
			if len(g.FreeVars) > 0 {
				for c := range of(cc.Value).cells {
					for i, fv := range g.FreeVars {
						d.join(d.of(sub, fv), &c.field(i).val)
					}
				}
			}
			if !strings.Contains(ctx+"/", "="+fnName(g)+"/") {
				d.run(sub, g, depth+1)
			}
			switch r := d.rets[sub]; {
			case len(r) == 1:
				d.join(res, r[0])
			case len(r) > 1:
				d.join(res, &dval{tuple: r})
			}
		}
	}
	if inlined {
		return
	}
	// Outside: the result can have everything in it, and what is written goes
	// to the receiver, or the first operand.
	l := 0
	for _, a := range args {
		l |= d.deep(of(a))
	}
	pkg := name
	if i := strings.LastIndex(name, "."); i >= 0 {
		pkg = name[:i]
	}
	pkg = strings.TrimLeft(pkg, "(*")
	switch {
	case strings.HasPrefix(pkg, "crypto/") || strings.HasPrefix(pkg, "hash.") || strings.HasPrefix(pkg, "golang.org/x/crypto"):
		if !strings.HasSuffix(name, "Write") {
			l = snHashed(l)
		}
	case pkg == "strings" || pkg == "bytes" || strings.HasPrefix(pkg, "regexp") || pkg == "unicode" || pkg == "strconv":
		if !strings.HasSuffix(name, ".Join") && !strings.HasSuffix(name, ".Clone") && !strings.Contains(name, ".New") {
			l = snCut(l)
		}
	}
	if (pkg == "sort" || pkg == "slices" || pkg == "math/rand") && len(args) > 0 { // anything can be anywhere afterwards
		for c := range of(args[0]).cells {
			for _, el := range c.elems() {
				d.pour(c, el)
			}
		}
	}
	sig := cc.Signature()
	method := cc.IsInvoke() || sig.Recv() != nil
	if len(args) > 1 && (method || !(pkg == "strings" || pkg == "bytes" || pkg == "fmt" || pkg == "crypto/subtle" || pkg == "crypto/hmac")) {
		w := 0
		for _, a := range args[1:] {
			w |= d.deep(of(a))
		}
		for c := range of(args[0]).cells {
			d.join(&c.val, &dval{labs: w})
		}
	}
	if rv == nil {
		return
	}
	if t, ok := rv.Type().(*types.Tuple); ok {
		c := d.cell(ctx, rv)
		d.join(&c.val, &dval{labs: l})
		tu := &dval{}
		for i := 0; i < t.Len(); i++ {
			tu.tuple = append(tu.tuple, &dval{labs: l, cells: map[*dcell]bool{c: true}})
		}
		d.join(res, tu)
		return
	}
	d.join(res, d.held(ctx, rv, l))
}

func (c *Check) numberOf(f *ssa.Function) {
	d := &depends{c: c, vals: map[string]map[ssa.Value]*dval{}, cells: map[string]map[ssa.Value]*dcell{}, rets: map[string][]*dval{}}
	root := "=" + fnName(f)
	labs := []int{snVersion, snOwnRaw, snOwnKey, snTheirRaw, snTheirKey}
	for i, pr := range f.Params {
		d.cell(root, pr).text = true
		d.join(d.of(root, pr), d.held(root, pr, labs[i]))
		if s, ok := pr.Type().Underlying().(*types.Slice); ok && isAggregate(s.Elem()) { // keys
			cl := d.cell(root, pr)
			for j := 0; j < 2; j++ {
				d.join(&cl.field(j).val, &dval{labs: labs[i]})
			}
		}
	}
	type msg struct {
		in  ssa.CallInstruction
		arg ssa.Value
		v   *dval
	}
	msgs := map[*dval]msg{}
	d.onMsg = func(in ssa.CallInstruction, arg ssa.Value, v *dval) {
		if mi, ok := arg.(*ssa.MakeInterface); ok {
			arg = mi.X
		}
		msgs[v] = msg{in, arg, v}
	}
	for d.changed = true; d.changed; {
		d.changed = false
		if in := f.Pkg.Func("init"); in != nil {
			d.run("init", in, 0)
		}
		d.run(root, f, 0)
	}
	where := fnName(f)
	coded := 0
	for _, m := range msgs {
		pt, ok := m.arg.Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		n, _ := pt.Elem().(*types.Named)
		if n == nil || n.Obj().Name() != "CombinedFingerprints" {
			continue
		}
		coded++
		st := n.Underlying().(*types.Struct)
		get := func(field string) (l int) {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == field {
					for cl := range m.v.cells {
						l |= d.deep(&cl.field(i).val)
					}
				}
			}
			return l
		}
		c.ob("halves", "version|"+where, m.in.Pos(), get("Version")&snVersion != 0, "the version in the scannable code is not the one asked for")
		// other: the content of a half can be that of the other side.
		other := func(field string, mine, not int) bool {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() != field {
					continue
				}
				for cl := range m.v.cells {
					for lf := range cl.field(i).val.cells {
						for _, ct := range lf.fields {
							for x := range ct.val.cells {
								l := d.deep(&dval{cells: map[*dcell]bool{x: true}})
								trace("C39 alternative %s %b", field, l)
								if l&not != 0 && l&mine == 0 {
									return true
								}
							}
						}
					}
				}
			}
			return false
		}
		const ownAny, theirAny = snOwnID | snOwnKey, snTheirID | snTheirKey
		c.ob("halves", "sides|"+where, m.in.Pos(), !other("LocalFingerprint", ownAny, theirAny) && !other("RemoteFingerprint", theirAny, ownAny), "a half of the scannable code can be that of the other side")
		own, their := get("LocalFingerprint"), get("RemoteFingerprint")
		trace("C39 halves %b %b", own, their)
		c.ob("halves", "own|"+where, m.in.Pos(), own&snOwnID != 0 && own&snOwnKey != 0 && own&snOwnBad == 0, "the own half of the scannable code is not made from the whole own identifier and the own key")
		c.ob("halves", "contact|"+where, m.in.Pos(), their&snTheirID != 0 && their&snTheirKey != 0 && their&snTheirBad == 0, "the contact's half of the scannable code is not made from the contact's whole identifier and key")
	}
	c.ob("halves", "coded|"+where, f.Pos(), coded > 0, "no scannable code is made")
	r := d.rets[root]
	all := snOwnID | snOwnKey | snTheirID | snTheirKey
	if len(r) > 1 {
		c.ob("halves", "number|"+where, f.Pos(), d.deep(r[0])&all == all, "the number is not made from both identifiers and both keys")
		c.ob("halves", "code|"+where, f.Pos(), d.deep(r[1])&all == all, "the scannable code is not made from both identifiers and both keys")
	}
}
