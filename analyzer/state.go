package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	negInf = math.MinInt64
	posInf = math.MaxInt64
)

// bound is an interval fact on a linear combination of terms.
type bound struct {
	l      lin // canonical sign, constant 0
	lo, hi int64
}

// Event is an occurrence, on the path, of a call the rule cares about.
type Event struct {
	id   int
	Kind string
	Name string
	Args []*Expr
	Res  *Expr
	Pos  token.Pos
	Fn   *ssa.Function
	Ctx  *Ctx
	// Guard events matter only when their boolean result is true: they are
	// forgotten once it is known to be false.
	Guard bool
	Err   *Expr   // error result
	Vals  []*Expr // further terms the rule wants to find again
	// Pending events matter until their error is known to be nil.
	Pending bool
	Set     bool // kept as a set at the front, sorted
}

func (s *State) dropFailedGuards() {
	for i := 0; i < len(s.ev); i++ {
		ev := s.ev[i]
		if ev.Pending && ev.Err != nil && s.isNil(ev.Err) == 1 {
			s.ev = append(append([]*Event(nil), s.ev[:i]...), s.ev[i+1:]...)
			i--
			continue
		}
		if !ev.Guard || ev.Res == nil {
			continue
		}
		r := ev.Res
		if isIntT(r.t) {
			r = s.e.bin("==", r, s.e.it.intConst(1), types.Typ[types.Bool])
		}
		if s.boolVal(r) == 0 {
			s.ev = append(append([]*Event(nil), s.ev[:i]...), s.ev[i+1:]...)
			i--
		}
	}
}

// State is one disjunct of the path-sensitive abstract state.
type State struct {
	e      *Engine
	bf     map[*Expr]bool   // truth of boolean terms
	nf     map[*Expr]bool   // nilness: true = nil
	eq     map[*Expr]string // equality with a constant
	bd     map[string]bound
	mem    map[*Expr]*Expr // address term -> value term
	ev     []*Event        // events that have certainly happened, in order
	frozen bool
}

func newState(e *Engine) *State {
	return &State{e: e, bf: map[*Expr]bool{}, nf: map[*Expr]bool{}, eq: map[*Expr]string{}, bd: map[string]bound{}, mem: map[*Expr]*Expr{}}
}

func (s *State) clone() *State {
	n := &State{e: s.e, bf: make(map[*Expr]bool, len(s.bf)+2), nf: make(map[*Expr]bool, len(s.nf)+2),
		eq: make(map[*Expr]string, len(s.eq)), bd: make(map[string]bound, len(s.bd)+1), mem: make(map[*Expr]*Expr, len(s.mem)+2)}
	for k, v := range s.bf {
		n.bf[k] = v
	}
	for k, v := range s.nf {
		n.nf[k] = v
	}
	for k, v := range s.eq {
		n.eq[k] = v
	}
	for k, v := range s.bd {
		n.bd[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.ev = append([]*Event(nil), s.ev...)
	return n
}

// hash identifies the state (order-independent over maps, ordered over events).
func (s *State) hash() [2]uint64 {
	var k [2]uint64
	for x, v := range s.bf {
		mix2(&k, 1, uint64(x.id), uint64(b2i(v)))
	}
	for x, v := range s.nf {
		mix2(&k, 2, uint64(x.id), uint64(b2i(v)))
	}
	for x, v := range s.eq {
		h := uint64(14695981039346656037)
		for i := 0; i < len(v); i++ {
			h = (h ^ uint64(v[i])) * 1099511628211
		}
		mix2(&k, 3, uint64(x.id), h)
	}
	for x, v := range s.bd {
		h := uint64(14695981039346656037)
		for i := 0; i < len(x); i++ {
			h = (h ^ uint64(x[i])) * 1099511628211
		}
		mix2(&k, 4, h, uint64(v.lo))
		mix2(&k, 5, h, uint64(v.hi))
	}
	for x, v := range s.mem {
		mix2(&k, 6, uint64(x.id), uint64(v.id))
	}
	for i, e := range s.ev {
		mix2(&k, 7, uint64(i), uint64(e.id))
	}
	return k
}

func (s *State) evKey() string {
	var sb strings.Builder
	for _, e := range s.ev {
		fmt.Fprintf(&sb, "%d,", e.id)
	}
	return sb.String()
}

// espKey keeps only what the rule tracks: events and facts about their results.
func (s *State) espKey() string {
	if len(s.ev) == 0 {
		return ""
	}
	var p []string
	res := map[*Expr]bool{}
	for _, ev := range s.ev {
		if ev.Res != nil {
			res[ev.Res] = true
		}
	}
	for _, ev := range s.ev {
		if ev.Res != nil && ev.Res.k == KTuple {
			for _, a := range ev.Res.a {
				res[a] = true
			}
		}
	}
	// a fact about the result itself (or one component), not about what is
	// reachable from it
	var is func(x *Expr) bool
	is = func(x *Expr) bool {
		for {
			if res[x] {
				return true
			}
			switch x.k {
			case KExtract, KConv, KIface, KUn:
				x = x.a[0]
			case KBin:
				if is(x.a[1]) {
					return true
				}
				x = x.a[0]
			default:
				return false
			}
		}
	}
	for k, v := range s.bf {
		if is(k) {
			p = append(p, fmt.Sprintf("b%d=%v", k.id, v))
		}
	}
	for k, v := range s.nf {
		if is(k) {
			p = append(p, fmt.Sprintf("n%d=%v", k.id, v))
		}
	}
	sort.Strings(p)
	return s.evKey() + "#" + strings.Join(p, ";")
}

// record appends an event.
func (s *State) record(ev Event) *Event {
	e := s.e.internEvent(ev)
	if ev.Guard {
		// a guard re-evaluated at the same place supersedes the earlier one
		var keep []*Event
		for _, x := range s.ev {
			if !(x.Guard && x.Kind == ev.Kind && x.Pos == ev.Pos && x != e) {
				keep = append(keep, x)
			}
		}
		s.ev = keep
	}
	for i, x := range s.ev {
		if x == e {
			s.ev = append(append([]*Event(nil), s.ev[:i]...), s.ev[i+1:]...)
			break
		}
	}
	s.ev = append(s.ev, e)
	return e
}

// recordSet adds an event whose position in the sequence does not matter.
func (s *State) recordSet(ev Event) {
	e := s.e.internEvent(ev)
	i := 0
	for i < len(s.ev) && s.ev[i].Set && s.ev[i].id < e.id {
		i++
	}
	if i < len(s.ev) && s.ev[i] == e {
		return
	}
	e.Set = true
	n := append([]*Event(nil), s.ev[:i]...)
	n = append(n, e)
	s.ev = append(n, s.ev[i:]...)
}

// events returns the events of a kind, in order.
func (s *State) events(kind string) []*Event {
	var out []*Event
	for _, e := range s.ev {
		if e.Kind == kind {
			out = append(out, e)
		}
	}
	return out
}

// join merges b into a (must-information): facts are intersected.
func (s *State) joinWith(b *State) *State {
	n := s.clone()
	for k, v := range s.bf {
		if w, ok := b.bf[k]; !ok || w != v {
			delete(n.bf, k)
		}
	}
	for k, v := range s.nf {
		if w, ok := b.nf[k]; !ok || w != v {
			delete(n.nf, k)
		}
	}
	for k, v := range s.eq {
		if w, ok := b.eq[k]; !ok || w != v {
			delete(n.eq, k)
		}
	}
	for k, v := range s.bd {
		w, ok := b.bd[k]
		if !ok {
			delete(n.bd, k)
			continue
		}
		if w.lo < v.lo {
			v.lo = w.lo
		}
		if w.hi > v.hi {
			v.hi = w.hi
		}
		if v.lo == negInf && v.hi == posInf {
			delete(n.bd, k)
		} else {
			n.bd[k] = v
		}
	}
	for k, v := range s.mem {
		if w, ok := b.mem[k]; !ok || w != v {
			n.mem[k] = s.e.joinExpr(k, v, b.mem[k])
		}
	}
	for k, w := range b.mem {
		if _, ok := s.mem[k]; !ok {
			n.mem[k] = s.e.joinExpr(k, nil, w)
		}
	}
	// events: keep the common ones in a's order
	inB := map[*Event]bool{}
	for _, e := range b.ev {
		inB[e] = true
	}
	n.ev = nil
	for _, e := range s.ev {
		if inB[e] {
			n.ev = append(n.ev, e)
		}
	}
	return n
}

// subst renames a term that is about to be redefined (next loop iteration).
func (s *State) subst(f func(*Expr) *Expr) {
	ren := func(m map[*Expr]bool) map[*Expr]bool {
		n := make(map[*Expr]bool, len(m))
		conflict := map[*Expr]bool{}
		type kv struct {
			k *Expr
			v bool
		}
		var moved []kv
		for k, v := range m {
			k2 := f(k)
			if k2 == k {
				n[k] = v
			} else {
				moved = append(moved, kv{k2, v})
			}
		}
		for _, x := range moved {
			if w, ok := n[x.k]; ok && w != x.v {
				conflict[x.k] = true
			}
			n[x.k] = x.v
		}
		// a stale term that already existed without the same fact loses it
		for k := range conflict {
			delete(n, k)
		}
		return n
	}
	had := map[*Expr]bool{}
	for _, e := range s.ev {
		if e.Res != nil {
			had[e.Res] = true
		}
	}
	oldBF, oldNF := s.bf, s.nf
	s.bf, s.nf = ren(s.bf), ren(s.nf)
	// facts moved onto a stale result that already stood for earlier
	// iterations hold only if the earlier ones had them too
	for _, e := range s.ev {
		if e.Res == nil {
			continue
		}
		r2 := f(e.Res)
		if r2 != e.Res && had[r2] {
			for k := range s.bf {
				if _, ok := oldBF[k]; !ok && s.e.it.contains(k, func(x *Expr) bool { return x == r2 }) {
					delete(s.bf, k)
				}
			}
			for k := range s.nf {
				if _, ok := oldNF[k]; !ok && s.e.it.contains(k, func(x *Expr) bool { return x == r2 }) {
					delete(s.nf, k)
				}
			}
		}
	}
	eq := make(map[*Expr]string, len(s.eq))
	for k, v := range s.eq {
		if k2 := f(k); k2 == k {
			eq[k] = v
		}
	}
	s.eq = eq
	bd := make(map[string]bound, len(s.bd))
	for k, v := range s.bd {
		same := true
		for a := range v.l.c {
			if f(a) != a {
				same = false
			}
		}
		if same {
			bd[k] = v
		}
	}
	s.bd = bd
	mem := make(map[*Expr]*Expr, len(s.mem))
	for k, v := range s.mem {
		k2 := f(k)
		if k2 == k {
			mem[k] = f(v)
		}
	}
	for k, v := range s.mem {
		k2 := f(k)
		if k2 != k {
			if _, ok := mem[k2]; ok {
				mem[k2] = s.e.joinExpr(k2, mem[k2], f(v))
			} else {
				mem[k2] = f(v)
			}
		}
	}
	s.mem = mem
	var evs []*Event
	seen := map[*Event]bool{}
	for i := len(s.ev) - 1; i >= 0; i-- {
		e := s.ev[i]
		ne := *e
		ch := false
		ne.Args = make([]*Expr, len(e.Args))
		for i, a := range e.Args {
			ne.Args[i] = f(a)
			if ne.Args[i] != a {
				ch = true
			}
		}
		ne.Res = f(e.Res)
		if ne.Res != e.Res {
			ch = true
		}
		x := e
		if ch {
			x = s.e.internEvent(ne)
		}
		if !seen[x] {
			seen[x] = true
			evs = append(evs, x)
		}
	}
	for i, j := 0, len(evs)-1; i < j; i, j = i+1, j-1 {
		evs[i], evs[j] = evs[j], evs[i]
	}
	s.ev = evs
}

// ---- fact queries and refinement ----

// isNil: 1 nil, 0 non-nil, -1 unknown.
func (s *State) isNil(e *Expr) int {
	if e == nil {
		return -1
	}
	if e.isNil() || (e.k == KZero && e.t != nil && isNilable(e.t)) {
		return 1
	}
	if v, ok := s.nf[e]; ok {
		if v {
			return 1
		}
		return 0
	}
	switch e.k {
	case KAlloc, KIface, KMake, KClosure, KFunc, KGlobal, KFieldAddr, KIndexAddr:
		if e.k == KIface {
			return 0
		}
		return 0
	case KConv:
		return s.isNil(e.a[0])
	case KLoad:
		if e.a[0].k == KGlobal {
			if g, ok := e.a[0].v.(*ssa.Global); ok && s.e.p.nonNilG[g] {
				return 0
			}
		}
	case KCall:
		switch e.s {
		case "errors.New", "fmt.Errorf":
			return 0
		}
		if f, ok := e.obj.(*types.Func); ok && f.Pkg() != nil && s.e.p.inMod(f.Pkg()) && s.e.p.neverNil(s.e.p.SSA.FuncValue(f)) {
			return 0
		}
	case KSlice:
		// slicing an array or a non-nil slice; unknown otherwise
		if e.a[0].k == KAlloc {
			return 0
		}
	}
	return -1
}

// neverNil: whatever it is given, the function's one result is not nil.
func (p *Prog) neverNil(f *ssa.Function) bool {
	if f == nil || f.Blocks == nil || f.Signature.Results().Len() != 1 {
		return false
	}
	if v, ok := p.never[f]; ok {
		return v
	}
	if p.never == nil {
		p.never = map[*ssa.Function]bool{}
	}
	p.never[f] = false // one that calls itself is not decided
	seen := map[*ssa.Phi]bool{}
	var made func(v ssa.Value) bool
	made = func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeClosure, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Function:
			return true
		case *ssa.ChangeInterface:
			return made(v.X)
		case *ssa.ChangeType:
			return made(v.X)
		case *ssa.Call:
			g := v.Call.StaticCallee()
			if g == nil {
				return false
			}
			switch calleeName(&v.Call) {
			case "errors.New", "fmt.Errorf":
				return true
			}
			return g.Pkg != nil && p.inMod(g.Pkg.Pkg) && p.neverNil(g)
		case *ssa.Phi:
			if seen[v] {
				return true
			}
			seen[v] = true
			for _, x := range v.Edges {
				if !made(x) {
					return false
				}
			}
			return true
		}
		return false
	}
	some := false
	for _, b := range f.Blocks {
		if b == f.Recover {
			return false
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if !made(r.Results[0]) {
				return false
			}
			some = true
		}
	}
	p.never[f] = some
	return some
}

// boolVal: 1 true, 0 false, -1 unknown.
func (s *State) boolVal(e *Expr) int {
	if e == nil {
		return -1
	}
	if b, ok := e.isBool(); ok {
		return b2i(b)
	}
	if e.k == KZero {
		return 0
	}
	if v, ok := s.bf[e]; ok {
		return b2i(v)
	}
	switch e.k {
	case KUn:
		if e.s == "!" {
			v := s.boolVal(e.a[0])
			if v >= 0 {
				return 1 - v
			}
		}
	case KBin:
		switch e.s {
		case "==":
			a, b := e.a[0], e.a[1]
			if a == b {
				return 1
			}
			if a.isNil() || b.isNil() {
				x := a
				if a.isNil() {
					x = b
				}
				return s.isNil(x)
			}
			if isBoolT(a.t) || isBoolT(b.t) {
				va, vb := s.boolVal(a), s.boolVal(b)
				if va >= 0 && vb >= 0 {
					return b2i(va == vb)
				}
			}
			if a.k == KConst && b.k == KConst {
				return b2i(a.s == b.s)
			}
			if cst, x := constSide(a, b); cst != nil {
				if v, ok := s.eq[x]; ok {
					return b2i(v == cst.s)
				}
			}
			if isIntT(a.t) || isIntT(b.t) {
				d := s.e.linOf(a).add(s.e.linOf(b), -1)
				lo, hi := s.interval(d)
				if lo > 0 || hi < 0 {
					return 0
				}
				if lo == 0 && hi == 0 {
					return 1
				}
			}
		case "<":
			d := s.e.linOf(e.a[0]).add(s.e.linOf(e.a[1]), -1)
			lo, hi := s.interval(d)
			if hi < 0 {
				return 1
			}
			if lo >= 0 {
				return 0
			}
		}
	}
	return -1
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func constSide(a, b *Expr) (c, x *Expr) {
	if a.k == KConst && !a.isNil() {
		return a, b
	}
	if b.k == KConst && !b.isNil() {
		return b, a
	}
	return nil, nil
}

func isBoolT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isStringT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isIntT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func satAdd(a, b int64) int64 {
	if a == negInf || b == negInf {
		return negInf
	}
	if a == posInf || b == posInf {
		return posInf
	}
	return a + b
}

func satMul(a, c int64) int64 {
	if a == negInf {
		if c < 0 {
			return posInf
		}
		return negInf
	}
	if a == posInf {
		if c < 0 {
			return negInf
		}
		return posInf
	}
	return a * c
}

// interval computes bounds of a linear form under the facts.
func (s *State) interval(l lin) (int64, int64) {
	if len(l.c) == 0 {
		return l.k, l.k
	}
	key, sg := l.key()
	lo, hi := int64(negInf), int64(posInf)
	if b, ok := s.bd[key]; ok {
		if sg > 0 {
			lo, hi = b.lo, b.hi
		} else {
			lo, hi = satMul(b.hi, -1), satMul(b.lo, -1)
		}
	}
	if len(l.c) > 1 {
		// sum of the parts; and one known pair plus the rest
		slo, shi := int64(0), int64(0)
		for a, c := range l.c {
			al, ah := s.atomInterval(a)
			if c > 0 {
				slo, shi = satAdd(slo, satMul(al, c)), satAdd(shi, satMul(ah, c))
			} else {
				slo, shi = satAdd(slo, satMul(ah, c)), satAdd(shi, satMul(al, c))
			}
		}
		if slo > lo {
			lo = slo
		}
		if shi < hi {
			hi = shi
		}
		lo, hi = s.viaPairs(l, lo, hi)
	} else {
		for a, c := range l.c {
			al, ah := s.atomIntervalT(a)
			if c < 0 {
				al, ah = satMul(ah, c), satMul(al, c)
			} else {
				al, ah = satMul(al, c), satMul(ah, c)
			}
			if al > lo {
				lo = al
			}
			if ah < hi {
				hi = ah
			}
		}
		lo, hi = s.viaPairs(l, lo, hi)
	}
	return satAdd(lo, l.k), satAdd(hi, l.k)
}

// viaPairs bounds a form by one known fact about several terms plus the rest.
func (s *State) viaPairs(l lin, lo, hi int64) (int64, int64) {
	for _, b := range s.bd {
		if len(b.l.c) < 2 {
			continue
		}
		for _, sg := range []int64{1, -1} {
			d := l.add(b.l, -sg)
			d.k = 0
			if len(d.c) > len(l.c) {
				continue
			}
			blo, bhi := b.lo, b.hi
			if sg < 0 {
				blo, bhi = satMul(b.hi, -1), satMul(b.lo, -1)
			}
			rlo, rhi := int64(0), int64(0)
			for a, c := range d.c {
				al, ah := s.atomInterval(a)
				if c > 0 {
					rlo, rhi = satAdd(rlo, satMul(al, c)), satAdd(rhi, satMul(ah, c))
				} else {
					rlo, rhi = satAdd(rlo, satMul(ah, c)), satAdd(rhi, satMul(al, c))
				}
			}
			if x := satAdd(blo, rlo); x > lo {
				lo = x
			}
			if x := satAdd(bhi, rhi); x < hi {
				hi = x
			}
		}
	}
	return lo, hi
}

func (s *State) atomInterval(a *Expr) (int64, int64) {
	lo, hi := s.atomIntervalT(a)
	l := lin{c: map[*Expr]int64{a: 1}}
	key, _ := l.key()
	if b, ok := s.bd[key]; ok {
		if b.lo > lo {
			lo = b.lo
		}
		if b.hi < hi {
			hi = b.hi
		}
	}
	return lo, hi
}

// atomIntervalT gives the bounds implied by the atom's type or definition.
func (s *State) atomIntervalT(a *Expr) (int64, int64) {
	lo, hi := int64(negInf), int64(posInf)
	if a.k == KCall && (a.s == "builtin.len" || a.s == "builtin.cap") {
		return s.e.lenMin(s, a.a[0]), hi
	}
	if a.k == KPhi {
		if v, ok := s.e.phiLo(a); ok {
			lo = v
		}
	}
	if a.t != nil {
		if b, ok := a.t.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8:
				hi = 255
			case types.Uint16:
				hi = 65535
			}
			if b.Info()&types.IsUnsigned != 0 && lo < 0 {
				lo = 0
			}
		}
	}
	if a.k == KUn && strings.HasPrefix(a.s, "narrow:") && a.t != nil {
		// a conversion keeps a value that fits
		if b, ok := a.t.Underlying().(*types.Basic); ok {
			var max int64
			switch b.Kind() {
			case types.Uint8:
				max = 255
			case types.Uint16:
				max = 65535
			case types.Uint32:
				max = math.MaxUint32
			}
			if alo, ahi := s.interval(s.e.linOf(a.a[0])); alo >= 0 && ahi <= max {
				if alo > lo {
					lo = alo
				}
				if ahi < hi {
					hi = ahi
				}
			}
		}
	}
	if n, ok := modulus(s, a); ok {
		x := n - 1
		if x < hi {
			hi = x
		}
		alo, _ := s.interval(s.e.linOf(a.a[0]))
		if alo >= 0 && lo < 0 {
			lo = 0
		}
	}
	if a.k == KBin && a.s == "&" {
		for _, y := range a.a {
			if y.isInt && y.n >= 0 {
				if lo < 0 {
					lo = 0
				}
				if y.n < hi {
					hi = y.n
				}
			}
		}
	}
	if a.k == KBin && (a.s == ">>" || a.s == "/") {
		alo, ahi := s.interval(s.e.linOf(a.a[0]))
		if alo >= 0 {
			if lo < 0 {
				lo = 0
			}
			if a.a[1].isInt && a.a[1].n >= 0 && a.a[1].n < 63 && ahi != posInf {
				x := ahi
				if a.s == ">>" {
					x = ahi >> uint(a.a[1].n)
				} else if a.a[1].n > 0 {
					x = ahi / a.a[1].n
				}
				if x < hi {
					hi = x
				}
			}
		}
	}
	return lo, hi
}

// modulus: the constant a remainder is taken by.
func modulus(s *State, a *Expr) (int64, bool) {
	if a.k != KBin || a.s != "%" {
		return 0, false
	}
	n, ok := constLin(s.e.linOf(a.a[1]))
	return n, ok && n > 0
}

// addBound refines: lo <= l <= hi. Returns false when contradictory.
func (s *State) addBound(l lin, lo, hi int64) bool {
	clo, chi := s.interval(l)
	if lo != negInf && chi != posInf && lo > chi {
		return false
	}
	if hi != posInf && clo != negInf && hi < clo {
		return false
	}
	if len(l.c) == 0 || len(l.c) > 4 {
		return true
	}
	key, sg := l.key()
	if lo != negInf {
		lo -= l.k
	}
	if hi != posInf {
		hi -= l.k
	}
	base := lin{c: map[*Expr]int64{}}
	for a, c := range l.c {
		base.c[a] = sg * c
	}
	if sg < 0 {
		lo, hi = satMul(hi, -1), satMul(lo, -1)
	}
	b, ok := s.bd[key]
	if !ok {
		b = bound{l: base, lo: negInf, hi: posInf}
	}
	if lo > b.lo {
		b.lo = lo
	}
	if hi < b.hi {
		b.hi = hi
	}
	s.bd[key] = b
	return b.lo <= b.hi
}

// prove reports whether l <= 0 holds under the facts.
func (s *State) provedLE0(l lin) bool {
	_, hi := s.interval(l)
	return hi <= 0
}

// assume refines the state with e == val. It returns false if infeasible.
func (s *State) assume(e *Expr, val bool) bool {
	if v := s.boolVal(e); v >= 0 {
		if (v == 1) != val {
			return false
		}
	}
	switch e.k {
	case KUn:
		if e.s == "!" {
			return s.assume(e.a[0], !val)
		}
	case KBin:
		switch e.s {
		case "==":
			a, b := e.a[0], e.a[1]
			if a.isNil() || b.isNil() {
				x := a
				if a.isNil() {
					x = b
				}
				return s.assumeNil(x, val)
			}
			if isBoolT(a.t) || isBoolT(b.t) {
				if c, ok := a.isBool(); ok {
					return s.assume(b, c == val)
				}
				if c, ok := b.isBool(); ok {
					return s.assume(a, c == val)
				}
			}
			if cst, x := constSide(a, b); cst != nil {
				if val {
					if v, ok := s.eq[x]; ok && v != cst.s {
						return false
					}
					s.eq[x] = cst.s
				}
				if strings.HasPrefix(cst.s, "\"") && isStringT(x.t) { // what a string equals tells its length
					n := s.e.lenLin(cst).k
					d := s.e.lenLin(x)
					if val {
						if !s.addBound(d.add(lin{k: n}, -1), 0, 0) {
							return false
						}
					} else if n == 0 {
						if !s.addBound(d, 1, posInf) {
							return false
						}
					}
				}
			}
			if isIntT(a.t) || isIntT(b.t) {
				d := s.e.linOf(a).add(s.e.linOf(b), -1)
				if val {
					if !s.addBound(d, 0, 0) {
						return false
					}
				} else {
					lo, hi := s.interval(d)
					if lo == 0 {
						if !s.addBound(d, 1, posInf) {
							return false
						}
					} else if hi == 0 {
						if !s.addBound(d, negInf, -1) {
							return false
						}
					}
				}
			}
		case "<":
			d := s.e.linOf(e.a[0]).add(s.e.linOf(e.a[1]), -1)
			if val {
				if !s.addBound(d, negInf, -1) {
					return false
				}
			} else if !s.addBound(d, 0, posInf) {
				return false
			}
		}
	case KCall:
		if val && (e.s == "crypto/hmac.Equal" || e.s == "bytes.Equal") && len(e.a) == 2 {
			if !s.addBound(s.e.lenLin(e.a[0]).add(s.e.lenLin(e.a[1]), -1), 0, 0) {
				return false
			}
		}
		if val && (e.s == "os.IsNotExist" || e.s == "errors.Is" || e.s == "os.IsExist") && len(e.a) > 0 {
			if !s.assumeNil(e.a[0], false) {
				return false
			}
		}
	case KExtract:
		// v, ok := x.(T): ok implies x non-nil
		if e.n == 1 && e.a[0].k == KAssert && val {
			if !s.assumeNil(e.a[0].a[0], false) {
				return false
			}
		}
	case KConst, KZero:
		return true
	}
	s.bf[e] = val
	return true
}

func (s *State) assumeNil(x *Expr, isNil bool) bool {
	v := s.isNil(x)
	if v >= 0 {
		return (v == 1) == isNil
	}
	if x.k == KConv {
		return s.assumeNil(x.a[0], isNil)
	}
	s.nf[x] = isNil
	if isNil && x.k == KExtract && x.n == 1 && x.a[0].k == KCall && x.a[0].s == "io.ReadFull" && len(x.a[0].a) == 2 {
		// a full read without error filled the whole buffer
		n := s.e.result(x.a[0], 0, 2, types.Typ[types.Int])
		return s.addBound(s.e.linOf(n).add(s.e.lenLin(x.a[0].a[1]), -1), 0, 0)
	}
	return true
}
