package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Kind classifies abstract values.
type Kind int

const (
	KConst Kind = iota
	KZero
	KParam
	KFree
	KGlobal // address of a package variable
	KAlloc  // address of a local/heap object allocated at a site
	KFieldAddr
	KIndexAddr
	KLoad
	KField
	KIndex
	KSlice
	KCall
	KExtract
	KBin
	KUn
	KPhi
	KIface
	KConv
	KMake
	KClosure
	KFunc
	KLookup
	KAssert
	KStruct
	KStale
	KMut
	KJoin
	KOpaque
	KTuple
)

var kindName = [...]string{"const", "zero", "param", "free", "global", "alloc", "fieldaddr", "indexaddr", "load", "field", "index", "slice", "call", "extract", "bin", "un", "phi", "iface", "conv", "make", "closure", "func", "lookup", "assert", "struct", "stale", "mut", "join", "opaque", "tuple"}

// Expr is a hash-consed abstract value: an access path / term describing where
// a value comes from. Equal terms denote equal provenance.
type Expr struct {
	id    int
	k     Kind
	s     string // operator, field name, constant text, callee name
	a     []*Expr
	t     types.Type
	obj   types.Object
	v     ssa.Value // originating value (nil for synthesized terms)
	fn    *ssa.Function
	n     int64 // const int value / field index / extract index
	isInt bool
	depth int
	pos   token.Pos
	mark  int // traversal stamp
	mark2 int
	cx    *Ctx // activation that created a site-unique term
}

var stamp int

// Ctx is a call string.
type Ctx struct {
	id     int
	parent *Ctx
	site   ssa.CallInstruction
	fn     *ssa.Function // function executing in this context
	depth  int
}

func (c *Ctx) onStack(f *ssa.Function) bool {
	for x := c; x != nil; x = x.parent {
		if x.fn == f {
			return true
		}
	}
	return false
}

type internTab struct {
	m      map[string]*Expr
	n      int
	phiOps map[*Expr]map[*Expr]bool
	// mutBase: the object a KMut value is what a call left in
	mutBase map[*Expr]*Expr
	ctxs    map[string]*Ctx
	ctxAll  []*Ctx
}

func newIntern() *internTab {
	return &internTab{m: map[string]*Expr{}, phiOps: map[*Expr]map[*Expr]bool{}, mutBase: map[*Expr]*Expr{}, ctxs: map[string]*Ctx{}}
}

func (it *internTab) ctx(parent *Ctx, site ssa.CallInstruction, fn *ssa.Function) *Ctx {
	pid := -1
	d := 0
	if parent != nil {
		pid = parent.id
		d = parent.depth + 1
	}
	k := fmt.Sprintf("%d|%p|%p", pid, site, fn)
	if c, ok := it.ctxs[k]; ok {
		return c
	}
	c := &Ctx{id: len(it.ctxAll), parent: parent, site: site, fn: fn, depth: d}
	it.ctxs[k] = c
	it.ctxAll = append(it.ctxAll, c)
	return c
}

const maxDepth = 32

func (it *internTab) mk(e Expr, site string) *Expr {
	d := 0
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(e.k)))
	sb.WriteByte('|')
	sb.WriteString(e.s)
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatInt(e.n, 10))
	sb.WriteByte('|')
	sb.WriteString(site)
	for _, a := range e.a {
		sb.WriteByte(',')
		if a == nil {
			sb.WriteByte('_')
			continue
		}
		sb.WriteString(strconv.Itoa(a.id))
		if a.depth+1 > d {
			d = a.depth + 1
		}
	}
	if e.obj != nil && site == "" {
		sb.WriteString(fmt.Sprintf("|%p", e.obj))
	}
	k := sb.String()
	if x, ok := it.m[k]; ok {
		return x
	}
	if d > maxDepth {
		// collapse over-deep terms: keep only their identity by operator
		o := Expr{k: KOpaque, s: "deep:" + kindName[e.k] + ":" + e.s, t: e.t}
		kk := "deep|" + kindName[e.k] + e.s + "|" + site
		if x, ok := it.m[kk]; ok {
			return x
		}
		it.n++
		o.id = it.n
		it.m[kk] = &o
		return &o
	}
	x := e
	it.n++
	x.id = it.n
	x.depth = d
	it.m[k] = &x
	return &x
}

func siteKey(ctx *Ctx, v interface{}) string {
	id := 0
	if ctx != nil {
		id = ctx.id
	}
	return fmt.Sprintf("@%d:%p", id, v)
}

func (it *internTab) constant(c *ssa.Const) *Expr {
	if c.Value == nil {
		if isNilable(c.Type()) {
			return it.mk(Expr{k: KConst, s: "nil", t: c.Type()}, "")
		}
		return it.mk(Expr{k: KZero, s: "zero:" + c.Type().String(), t: c.Type()}, "")
	}
	e := Expr{k: KConst, t: c.Type()}
	switch c.Value.Kind() {
	case constant.Bool:
		e.s = c.Value.String()
	case constant.String:
		e.s = strconv.Quote(constant.StringVal(c.Value))
	case constant.Int:
		e.s = c.Value.ExactString()
		if v, ok := constant.Int64Val(c.Value); ok {
			e.n = v
			e.isInt = true
		}
	default:
		if bt, ok := c.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			if v, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				e.s = strconv.FormatInt(v, 10)
				e.n = v
				e.isInt = true
				break
			}
		}
		e.s = c.Value.ExactString()
	}
	return it.mk(e, "")
}

func (it *internTab) intConst(n int64) *Expr {
	return it.mk(Expr{k: KConst, s: strconv.FormatInt(n, 10), n: n, isInt: true, t: types.Typ[types.Int]}, "")
}

func (it *internTab) boolConst(b bool) *Expr {
	return it.mk(Expr{k: KConst, s: strconv.FormatBool(b), t: types.Typ[types.Bool]}, "")
}

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	}
	if b, ok := t.(*types.Basic); ok && (b.Kind() == types.UntypedNil || b.Kind() == types.UnsafePointer) {
		return true
	}
	return false
}

func (e *Expr) isNil() bool { return e.k == KConst && e.s == "nil" }
func (e *Expr) isBool() (val, ok bool) {
	if e.k == KConst && (e.s == "true" || e.s == "false") {
		return e.s == "true", true
	}
	return false, false
}

// strip removes representation wrappers (interface boxing, conversions).
func (e *Expr) strip() *Expr {
	for e != nil && (e.k == KIface || e.k == KConv || (e.k == KAssert && e.n == 0)) && len(e.a) > 0 {
		e = e.a[0]
	}
	return e
}

// root walks an access path to its base object.
func (e *Expr) root() *Expr {
	for {
		switch e.k {
		case KFieldAddr, KIndexAddr, KLoad, KField, KIndex, KSlice, KIface, KConv, KAssert, KLookup:
			e = e.a[0]
		default:
			return e
		}
	}
}

// addrRoot walks an address to the allocation it points into (not through loads).
func (e *Expr) addrRoot() *Expr {
	for {
		switch e.k {
		case KFieldAddr, KIndexAddr, KSlice, KIface, KConv, KAssert:
			e = e.a[0]
		default:
			return e
		}
	}
}

func (e *Expr) String() string { return e.str(0) }

func (e *Expr) str(d int) string {
	if e == nil {
		return "_"
	}
	if d > 7 {
		return "…"
	}
	arg := func(i int) string {
		if i < len(e.a) {
			return e.a[i].str(d + 1)
		}
		return ""
	}
	switch e.k {
	case KConst:
		return e.s
	case KZero:
		return "zero"
	case KParam, KFree:
		return e.s
	case KGlobal:
		return "&" + e.s
	case KAlloc:
		return "new#" + strconv.Itoa(e.id)
	case KFieldAddr:
		return "&" + strings.TrimPrefix(arg(0), "&") + "." + e.s
	case KIndexAddr:
		return "&" + strings.TrimPrefix(arg(0), "&") + "[" + arg(1) + "]"
	case KLoad:
		s := arg(0)
		if strings.HasPrefix(s, "&") {
			return s[1:]
		}
		return "*" + s
	case KField:
		return arg(0) + "." + e.s
	case KIndex, KLookup:
		return arg(0) + "[" + arg(1) + "]"
	case KSlice:
		lo, hi := "", ""
		if e.a[1] != nil {
			lo = arg(1)
		}
		if e.a[2] != nil {
			hi = arg(2)
		}
		return arg(0) + "[" + lo + ":" + hi + "]"
	case KCall:
		var p []string
		for i := range e.a {
			p = append(p, arg(i))
		}
		return e.s + "(" + strings.Join(p, ", ") + ")"
	case KExtract:
		return arg(0) + "#" + strconv.FormatInt(e.n, 10)
	case KBin:
		return "(" + arg(0) + " " + e.s + " " + arg(1) + ")"
	case KUn:
		return e.s + arg(0)
	case KIface, KConv:
		return arg(0)
	case KAssert:
		return arg(0) + ".(T)"
	case KFunc:
		return e.s
	default:
		var p []string
		for i := range e.a {
			p = append(p, arg(i))
		}
		return kindName[e.k] + ":" + e.s + "{" + strings.Join(p, ", ") + "}"
	}
}

// contains reports whether pred holds for e or any term it is derived from.
func (it *internTab) contains(e *Expr, pred func(*Expr) bool) bool {
	seen := map[*Expr]bool{}
	var rec func(x *Expr) bool
	rec = func(x *Expr) bool {
		if x == nil || seen[x] {
			return false
		}
		if len(x.a) > 0 || x.k == KPhi || x.k == KJoin || x.k == KStale || x.k == KMut {
			seen[x] = true
		}
		if pred(x) {
			return true
		}
		for _, a := range x.a {
			if rec(a) {
				return true
			}
		}
		for o := range it.phiOps[x] {
			if rec(o) {
				return true
			}
		}
		return false
	}
	return rec(e)
}

// ---- linear integer forms ----

type lin struct {
	c map[*Expr]int64
	k int64
}

func (l lin) add(o lin, s int64) lin {
	r := lin{c: map[*Expr]int64{}, k: l.k + s*o.k}
	for a, c := range l.c {
		r.c[a] = c
	}
	for a, c := range o.c {
		r.c[a] += s * c
		if r.c[a] == 0 {
			delete(r.c, a)
		}
	}
	return r
}

// key gives the canonical name of the non-constant part and the sign applied.
func (l lin) key() (string, int64) {
	if len(l.c) == 0 {
		return "", 1
	}
	var as []*Expr
	for a := range l.c {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	s := int64(1)
	if l.c[as[0]] < 0 {
		s = -1
	}
	var sb strings.Builder
	for _, a := range as {
		fmt.Fprintf(&sb, "%d*%d+", s*l.c[a], a.id)
	}
	return sb.String(), s
}
