package main

import (
	"encoding/base64"
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// boundsOb: does the instruction carry an index or slice obligation?
func boundsOb(in ssa.Instruction) bool {
	isArr := func(t types.Type) bool {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		_, ok := t.Underlying().(*types.Array)
		return ok
	}
	switch x := in.(type) {
	case *ssa.IndexAddr:
		if _, c := x.Index.(*ssa.Const); c && isArr(x.X.Type()) {
			return false
		}
		return true
	case *ssa.Index:
		if _, c := x.Index.(*ssa.Const); c && isArr(x.X.Type()) {
			return false
		}
		return true
	case *ssa.Lookup:
		b, ok := x.X.Type().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	case *ssa.Slice:
		if x.Low == nil && x.High == nil && x.Max == nil {
			return false
		}
		if isArr(x.X.Type()) {
			c := func(v ssa.Value) bool { _, ok := v.(*ssa.Const); return v == nil || ok }
			return !(c(x.Low) && c(x.High) && c(x.Max))
		}
		return true
	case *ssa.SliceToArrayPointer:
		return true
	case *ssa.MakeSlice:
		_, c := x.Len.(*ssa.Const)
		return !c
	case *ssa.TypeAssert:
		return !x.CommaOk
	case *ssa.BinOp:
		_, c := x.Y.(*ssa.Const)
		return !c && isIntT(x.Y.Type()) && (x.Op == token.QUO || x.Op == token.REM)
	case ssa.CallInstruction:
		return precond[calleeName(x.Common())] || zkCall(x)
	}
	return false
}

const zkPkg = "github.com/nanu-c/zkgroup"

// zkCall: a call of the zkgroup binding that hands byte slices to C. The
// binding takes the address of their first byte, so none may be empty.
func zkCall(ci ssa.CallInstruction) bool {
	f := ci.Common().StaticCallee()
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != zkPkg {
		return false
	}
	for i := range ci.Common().Args {
		if zkMin(ci, i) > 0 {
			return true
		}
	}
	return false
}

func zkCallIn(in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	return ok && zkCall(ci)
}

// zkMin is the least length argument i of the call must have.
func zkMin(ci ssa.CallInstruction, i int) int64 {
	f := ci.Common().StaticCallee()
	switch f.Name() {
	case "EncryptBlob", "EncryptUUID", "NewClientZkGroupCipher": // checked or not used there
		return 0
	case "DecryptBlob":
		if i == 1 {
			return 30 // 29 bytes of overhead are cut off, one must remain
		}
	case "EncryptBlobDeterministic":
		if i == 2 {
			return 0
		}
	}
	if isBytesT(ci.Common().Args[i].Type()) {
		return 1
	}
	return 0
}

func isBytesT(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// library calls that panic unless the lengths they are given are right
var precond = map[string]bool{
	"crypto/cipher.AEAD.Open": true, "crypto/cipher.NewCBCDecrypter": true, "crypto/cipher.NewCTR": true, "crypto/cipher.BlockMode.CryptBlocks": true,
	"encoding/binary.bigEndian.Uint16": true, "encoding/binary.bigEndian.Uint32": true, "encoding/binary.bigEndian.Uint64": true,
	"encoding/binary.littleEndian.Uint16": true, "encoding/binary.littleEndian.Uint32": true, "encoding/binary.littleEndian.Uint64": true,
}

// precondOK decides the length precondition of such a call.
func (c *Check) precondOK(e *Engine, st *State, fr *Frame, ci ssa.CallInstruction, le func(a, b lin) bool) (ok bool) {
	name := calleeName(ci.Common())
	args := ci.Common().Args
	arg := func(i int) lin { return e.lenLin(e.val(fr, st, args[i])) }
	is := func(l lin, n int64) bool { return le(l, lin{k: n}) && le(lin{k: n}, l) }
	switch {
	case name == "crypto/cipher.AEAD.Open":
		return is(arg(1), nonceSize(e.val(fr, st, ci.Common().Value)))
	case name == "crypto/cipher.NewCBCDecrypter", name == "crypto/cipher.NewCTR":
		return is(arg(1), 16)
	case name == "crypto/cipher.BlockMode.CryptBlocks":
		m := e.val(fr, st, ci.Common().Value).strip()
		if m.k == KCall && m.s == "crypto/cipher.NewCBCEncrypter" {
			return true // what we pad ourselves
		}
		return st.multiple(arg(1), 16) && le(arg(1), arg(0))
	}
	if zkCall(ci) {
		for i := range args {
			if n := zkMin(ci, i); n > 0 && (e.zkFailed(st, e.val(fr, st, args[i])) || !le(lin{k: n}, arg(i))) {
				return false
			}
		}
		return true
	}
	n := map[string]int64{"16": 2, "32": 4, "64": 8}[name[len(name)-2:]]
	return le(lin{k: n}, arg(len(args)-1))
}

// zkFailed: the slice is the result of a call of the zkgroup binding that may
// have failed. (Without an error it is never empty; see rangeModels.)
func (e *Engine) zkFailed(st *State, x *Expr) bool {
	x = x.strip()
	if x.k != KExtract || !zkMade(x.a[0]) {
		return false
	}
	return st.isNil(e.result(x.a[0], 1, 2, types.Universe.Lookup("error").Type())) != 1
}

// zkMade: the call returns a slice and an error from the zkgroup binding.
func zkMade(x *Expr) bool {
	if x.k != KCall || !strings.HasPrefix(x.s, zkPkg+".") {
		return false
	}
	f, ok := x.obj.(*types.Func)
	if !ok {
		return false
	}
	r := f.Type().(*types.Signature).Results()
	return r.Len() == 2 && isBytesT(r.At(0).Type()) && isErrorT(r.At(1).Type())
}

// nonceSize of an AEAD.
func nonceSize(a *Expr) int64 {
	a = a.strip()
	if a.k == KExtract {
		a = a.a[0]
	}
	if a.k == KCall && a.s == "crypto/cipher.NewGCMWithNonceSize" && a.a[1] != nil && a.a[1].isInt {
		return a.a[1].n
	}
	return 12
}

// multiple: the form is known to be a multiple of n.
func (s *State) multiple(l lin, n int64) bool {
	div := func(l lin) bool {
		if l.k%n != 0 {
			return false
		}
		for _, k := range l.c {
			if k%n != 0 {
				return false
			}
		}
		return true
	}
	if div(l) {
		return true
	}
	for _, x := range s.e.it.m {
		if x.k == KBin && x.s == "%" && x.a[1].isInt && x.a[1].n != 0 && x.a[1].n%n == 0 {
			lx := s.e.linOf(x)
			if lo, hi := s.interval(lx); lo == 0 && hi == 0 {
				y := s.e.linOf(x.a[0])
				if div(l.add(y, -1)) || div(l.add(y, 1)) {
					return true
				}
			}
		}
	}
	return false
}

// boundsOK decides the obligation in this state; of one that is not proved it
// also tells the terms the proof lacks.
func (c *Check) boundsOK(e *Engine, st *State, fr *Frame, in ssa.Instruction) (bool, []*Expr) {
	var miss []*Expr
	le := func(a, b lin) bool {
		d := a.add(b, -1)
		if st.provedLE0(d) {
			return true
		}
		var st2 *State
		for x := range d.c {
			if f := lenField(x); f != nil {
				if n := c.fieldMin(f); n > 0 {
					if st2 == nil {
						st2 = st.clone()
					}
					st2.addBound(lin{c: map[*Expr]int64{x: 1}}, n, posInf)
				}
			}
		}
		if st2 != nil && st2.provedLE0(d) {
			return true
		}
		for x := range d.c {
			miss = append(miss, x)
		}
		return false
	}
	one := lin{k: 1}
	zero := lin{}
	length := func(v ssa.Value) lin {
		t := v.Type().Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		if a, ok := t.(*types.Array); ok {
			return lin{k: a.Len()}
		}
		return e.lenLin(e.val(fr, st, v))
	}
	idx := func(base, i ssa.Value) bool {
		if rangeIndex(base, i) {
			return true
		}
		x := e.linOf(e.val(fr, st, i))
		return (unsignedT(i.Type()) || le(zero, x)) && le(x.add(one, 1), length(base))
	}
	ok := true
	switch x := in.(type) {
	case *ssa.IndexAddr:
		ok = idx(x.X, x.Index)
	case *ssa.Index:
		ok = idx(x.X, x.Index)
	case *ssa.Lookup:
		ok = idx(x.X, x.Index)
	case *ssa.Slice:
		lo, hi := zero, length(x.X)
		n := hi
		if x.Low != nil {
			lo = e.linOf(e.val(fr, st, x.Low))
			ok = unsignedT(x.Low.Type()) || le(zero, lo)
		}
		if ok && x.High != nil {
			hi = e.linOf(e.val(fr, st, x.High))
			ok = le(hi, n)
		}
		ok = ok && le(lo, hi)
	case *ssa.SliceToArrayPointer:
		a := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		ok = le(lin{k: a.Len()}, length(x.X))
	case *ssa.MakeSlice:
		n := e.linOf(e.val(fr, st, x.Len))
		ok = unsignedT(x.Len.Type()) || le(zero, n)
		for a, k := range n.c { // and nothing that may be arbitrarily large
			if a.k == KCall && (a.s == "builtin.len" || a.s == "builtin.cap") || k < 0 {
				continue
			}
			if _, hi := st.atomInterval(a); hi > 1<<32 {
				ok = false
				miss = append(miss, a)
			}
		}
	case *ssa.TypeAssert:
		v := e.val(fr, st, x.X)
		switch {
		case v.k == KIface && types.Identical(v.a[0].t, x.AssertedType):
		case v.k == KCall && strings.HasSuffix(v.s, "/proto.Clone") && v.a[0] != nil && v.a[0].k == KIface && types.Identical(v.a[0].a[0].t, x.AssertedType):
		default:
			ok = false
			miss = append(miss, v)
		}
	case *ssa.BinOp:
		lo, hi := st.interval(e.linOf(e.val(fr, st, x.Y)))
		if lo < 1 && hi > -1 {
			ok = false
			miss = append(miss, e.val(fr, st, x.Y))
		}
	case ssa.CallInstruction:
		ok = c.precondOK(e, st, fr, x, le)
	}
	return ok, miss
}

func unsignedT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func init() {
	register(&propDef{
		ID: "C12",
		Expl: "Every instruction of the library (cmd/, generated code and sort callbacks aside) that can panic over its operands is an obligation. " +
			"in-bounds: each index, slice, array conversion, variable make, variable integer divisor, unchecked type assertion and each library call with a length precondition (AEAD.Open, NewCBCDecrypter, CryptBlocks, ByteOrder reads, byte slices handed to zkgroup) must be proved safe by the path-sensitive dataflow with linear length facts, in the function itself or, when it depends on its parameters, in every caller up to four levels up. " +
			"present: each dereference, field access or library method call on a value that may be missing (the result of a call whose error is not known to be nil, an optional protobuf or JSON field, a JSON null or list element, a nil returned by the module, the FileInfo of a Walk callback) must be behind a test that excludes it. " +
			"no-abort: each branch that leads to panic, os.Exit or a Fatal log call must be infeasible or depend only on the operating system (os, os/exec, crypto/rand) or local data. " +
			"Obligations over package variables, application callbacks, local store records and parameters only the application supplies are outside the statement. Bounds that depend on a value built up by a loop are beyond the domain: they are counted under undecided, not reported.",
		Minimum: map[string]int{"in-bounds": 120, "present": 800, "no-abort": 4},
		Run:     runC12})
}

// rangeIndex: the index variable of a range loop over the very slice indexed.
func rangeIndex(x, idx ssa.Value) bool {
	b, ok := idx.(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		return false
	}
	ph, ok := b.X.(*ssa.Phi)
	if !ok || ph.Comment != "rangeindex" || b.Referrers() == nil {
		return false
	}
	for _, r := range *b.Referrers() {
		if c, ok := r.(*ssa.BinOp); ok && c.Op == token.LSS && c.X == ssa.Value(b) {
			if l, ok := c.Y.(*ssa.Call); ok {
				if bi, ok := l.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && l.Call.Args[0] == x {
					return true
				}
			}
		}
	}
	return false
}

// rangeModels adds what is known about results of some library calls.
func (e *Engine) rangeModels(st *State, ci *CallInfo, res *Expr) {
	sig := ci.Site.Common().Signature()
	n := sig.Results().Len()
	if n == 0 || res == nil {
		return
	}
	r0 := func() *Expr { return e.result(res, 0, n, sig.Results().At(0).Type()) }
	m := ci.Name[strings.LastIndex(ci.Name, ".")+1:]
	switch {
	case (m == "Read" || m == "ReadFull" || m == "ReadAtLeast") && n == 2 && isIntT(sig.Results().At(0).Type()):
		buf := ci.Args[len(ci.Args)-1]
		if m == "ReadAtLeast" {
			buf = ci.Args[1]
		}
		r := r0()
		if r == nil || buf == nil {
			return
		}
		st.addBound(e.linOf(r), 0, posInf)
		st.addBound(e.linOf(r).add(e.lenLin(buf), -1), negInf, 0)
	case strings.HasPrefix(ci.Name, "strings.") || strings.HasPrefix(ci.Name, "bytes."):
		switch m {
		case "Index", "LastIndex", "IndexByte", "LastIndexByte", "IndexRune", "IndexAny", "LastIndexAny", "IndexFunc":
			r := r0()
			st.addBound(e.linOf(r), -1, posInf)
			st.addBound(e.linOf(r).add(e.lenLin(ci.Args[0]), -1), negInf, -1)
		}
	case zkMade(res) && !strings.HasSuffix(ci.Name, ".DecryptBlob"):
		st.addBound(e.lenLin(r0()), 1, posInf)
	case strings.HasSuffix(ci.Name, "uuid.UUID.Bytes"):
		st.addBound(e.lenLin(res), 16, 16)
	case ci.Name == "encoding/base64.Encoding.DecodeString" && len(ci.Args) == 2:
		if x := ci.Args[1].strip(); x.k == KConst && strings.HasPrefix(x.s, "\"") {
			s, _ := strconv.Unquote(x.s)
			if b, err := base64.StdEncoding.DecodeString(s); err == nil {
				st.addBound(e.lenLin(r0()), int64(len(b)), int64(len(b)))
			}
		}
	case ci.Name == "crypto/cipher.AEAD.NonceSize":
		n := nonceSize(ci.Args[0])
		st.addBound(e.linOf(res), n, n)
	case ci.Name == "crypto/cipher.AEAD.Seal" && len(ci.Args) == 5:
		lo, hi := int64(12), int64(16)
		if a := ci.Args[0].strip(); a.k == KExtract && a.a[0].k == KCall {
			switch {
			case a.a[0].s == "crypto/cipher.NewGCM" || a.a[0].s == "crypto/cipher.NewGCMWithNonceSize":
				lo = 16
			case a.a[0].s == "crypto/cipher.NewGCMWithTagSize" && a.a[0].a[1].isInt:
				lo, hi = a.a[0].a[1].n, a.a[0].a[1].n
			}
		}
		st.addBound(e.lenLin(r0()).add(e.lenLin(ci.Args[1]), -1).add(e.lenLin(ci.Args[3]), -1), lo, hi)
		st.addBound(e.lenLin(r0()), lo, posInf)
	case ci.Name == "encoding/binary.PutUvarint" || ci.Name == "encoding/binary.PutVarint" || ci.Name == "builtin.copy":
		r := r0()
		st.addBound(e.linOf(r), 0, posInf)
		st.addBound(e.linOf(r).add(e.lenLin(ci.Args[0]), -1), negInf, 0)
	}
}

func runC12(c *Check) {
	skip := func(f *ssa.Function) bool {
		for g := f; g != nil; g = g.Parent() {
			if g.Pkg != nil && strings.Contains(g.Pkg.Pkg.Path(), "/cmd/") {
				return true
			}
		}
		// methods called by sort with indices it chooses
		if r := f.Signature.Recv(); r != nil && (f.Name() == "Less" || f.Name() == "Swap") {
			return true
		}
		return c.p.isGen(f.Pos()) || f.Synthetic != ""
	}
	var start []*ssa.Function
	has := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if boundsOb(in) {
					return true
				}
			}
		}
		return false
	}
	for _, f := range c.p.AllFuncs {
		if !skip(f) && has(f) {
			start = append(start, f)
		}
	}
	sort.Slice(start, func(i, j int) bool { return start[i].Pos() < start[j].Pos() })
	c.upwardTo("in-bounds", start, func(root, target *ssa.Function, res *rootResult, relevant map[*ssa.Function]bool) {
		var e *Engine
		h := Hooks{}
		h.Instr = func(st *State, fr *Frame, in ssa.Instruction) {
			if fr.fn != target || !boundsOb(in) {
				return
			}
			ok, miss := c.boundsOK(e, st, fr, in)
			pos := in.Pos()
			if debugOn && !ok {
				trace("C12 %s: %v in %s root %s miss %v bd %v", c.p.pos(pos), in, fnName(fr.fn), fnName(root), miss, st.bd)
			}
			if !ok {
				switch c.classify(e, st, fr, in, root, miss) {
				case "local":
					ok = true
				case "loop":
					c.undecided[fmt.Sprintf("%s@%s", fnName(fr.fn), c.p.pos(pos))] = true
					ok = true
				}
			}
			res.put(fmt.Sprintf("%s@%s", fnName(fr.fn), c.p.pos(pos)), pos, fr.fn, ok, "index, slice bound, required length, divisor or dynamic type not established", c.p.ctxPath(fr.ctx))
		}
		h.After = func(st *State, ci *CallInfo, r *Expr) { e.rangeModels(st, ci, r) }
		e = newEngine(c.p, h)
		e.relevant = relevant
		e.Run(root)
		c.useBounded(e)
	}, 4, skip)
	c.noAbort(skip)
	c.absent(skip)
}

// classify tells whose the terms are that an unproved obligation depends on:
// "local" when all are the application's or the store's own, "loop" when one
// is changed by a loop or merged from several paths, and "" otherwise.
func (c *Check) classify(e *Engine, st *State, fr *Frame, in ssa.Instruction, root *ssa.Function, miss []*Expr) string {
	if b := boundsBase(in); b != nil {
		if e.val(fr, st, b).root().k == KGlobal || globalBase(b) {
			return "local"
		}
	}
	if len(miss) == 0 {
		return ""
	}
	local := true
	miss = append([]*Expr(nil), miss...)
	joined := map[*Expr]bool{}
terms:
	for mi := 0; mi < len(miss); mi++ {
		y := miss[mi]
	down:
		for {
			switch y.k {
			case KCall:
				if y.s == "builtin.append" && len(y.a) > 1 {
					miss = append(miss, y.a[1])
					if l := e.lenLin(y.a[0]); len(l.c) == 0 {
						continue terms // so much and no more, to begin with
					}
				}
				if y.s == "builtin.len" || y.s == "builtin.append" {
					y = y.a[0]
					continue
				}
				break down
			case KSlice, KConv, KField, KIndex, KLoad, KFieldAddr, KIndexAddr, KExtract, KIface, KAssert, KLookup, KUn:
				if f, ok := y.obj.(*types.Var); ok && c.p.localField(f) {
					break down
				}
				y = y.a[0]
			default:
				break down
			}
		}
		switch y.k {
		case KJoin: // one of several, each judged for itself
			if joined[y] {
				continue
			}
			joined[y] = true
			ops := 0
			for o := range e.it.phiOps[y] {
				if within(o, y) {
					return "loop"
				}
				miss = append(miss, o)
				ops++
			}
			if ops == 0 {
				return "loop"
			}
		case KPhi, KStale:
			return "loop"
		case KMut: // changed by a call: by library code, or by ours
			if b := y.a[0]; b.k == KCall || b.k == KTuple {
				if f, ok := b.obj.(*types.Func); ok && f.Pkg() != nil && c.p.inMod(f.Pkg()) {
					return "loop"
				}
				if strings.HasPrefix(b.s, "path/filepath.Walk") {
					continue // read from the local store
				}
			}
			local = false
		case KGlobal:
		case KConst, KZero: // nothing, on one of the paths
			if mi == 0 || len(joined) == 0 {
				local = false
			}
		case KField, KFieldAddr: // stopped at a field of the local records
		case KCall:
			if f, ok := y.obj.(*types.Func); ok && f.Pkg() != nil && c.p.inMod(f.Pkg()) {
				if fn := c.p.SSA.FuncValue(f); fn != nil && fn.Blocks != nil && fnHasLoop(fn) {
					return "loop" // computed by a loop in the callee
				}
				if fn := c.p.SSA.FuncValue(f); fn != nil && len(joined) > 0 && len(y.a) > 0 && computes(fn, map[*ssa.Function]bool{}) {
					for _, arg := range y.a { // made from its arguments alone
						if arg != nil {
							miss = append(miss, arg)
						}
					}
					continue
				}
			}
			if zkCallIn(in) && strings.HasSuffix(y.s, "/proto.Marshal") {
				break // a message we made
			}
			if y.s != "dynamic" && !environment(y.s, y) { // a file of our own is not remote
				local = false
			}
		case KParam:
			if !c.p.uncalled(root) {
				local = false
			}
		default:
			local = false
		}
	}
	if local {
		return "local"
	}
	return ""
}

// computes: the function makes its results from its arguments alone.
func computes(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return true
	}
	seen[fn] = true
	if fn.Blocks == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok && g.Pkg == fn.Pkg && !isErrorT(g.Type().(*types.Pointer).Elem()) {
					return false
				}
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			var pkg *types.Package
			if cc.IsInvoke() {
				pkg = cc.Method.Pkg()
			} else if g := cc.StaticCallee(); g != nil {
				if g.Pkg == nil {
					return false
				}
				if g.Pkg == fn.Pkg {
					if !computes(g, seen) {
						return false
					}
					continue
				}
				pkg = g.Pkg.Pkg
			} else if _, ok := cc.Value.(*ssa.Builtin); ok {
				continue
			} else {
				return false
			}
			if pkg == nil {
				continue // error's own
			}
			p := pkg.Path()
			if p == "crypto/rand" {
				return false
			}
			good := false
			for _, q := range []string{"crypto", "hash", "bytes", "errors", "fmt", "strings", "encoding", "github.com/sirupsen/logrus"} {
				good = good || p == q || strings.HasPrefix(p, q+"/")
			}
			if !good {
				return false
			}
		}
	}
	return true
}

// within: y occurs in x.
func within(x, y *Expr) bool {
	if x == nil || x.id < y.id {
		return false
	}
	if x == y {
		return true
	}
	for _, a := range x.a {
		if within(a, y) {
			return true
		}
	}
	return false
}

// uncalled: only the application can call it, or nobody.
func (p *Prog) uncalled(f *ssa.Function) bool {
	if f.Object() == nil || len(p.callers[f]) > 0 {
		return false
	}
	if f.Object().Exported() {
		return true
	}
	p.findValues()
	return !p.asValue[f] && f.Signature.Recv() == nil
}

func (p *Prog) findValues() {
	if p.asValue == nil {
		p.asValue = map[*ssa.Function]bool{}
		for _, g := range p.AllFuncs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					ci, _ := in.(ssa.CallInstruction)
					for _, op := range in.Operands(nil) {
						if h, ok := (*op).(*ssa.Function); ok && (ci == nil || op != &ci.Common().Value) {
							p.asValue[h] = true
						}
					}
				}
			}
		}
	}
}

// unreached: nobody can call it, or only those that nobody can call.
func (p *Prog) unreached(f *ssa.Function) bool {
	return p.unreachedBut(f, map[*ssa.Function]bool{})
}

func (p *Prog) unreachedBut(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if f.Object() == nil || f.Object().Exported() || f.Name() == "init" || f.Name() == "main" {
		return false
	}
	p.findValues()
	if p.asValue[f] {
		return false
	}
	seen[f] = true
	for _, g := range p.callers[f] {
		if !seen[g] && !p.unreachedBut(g, seen) {
			return false
		}
	}
	return true
}

// localField: a field of the records kept in the local store.
func (p *Prog) localField(f *types.Var) bool {
	return strings.Contains(filepath.Base(p.Fset.Position(f.Pos()).Filename), "LocalStorage")
}

func boundsBase(in ssa.Instruction) ssa.Value {
	switch x := in.(type) {
	case *ssa.IndexAddr:
		return x.X
	case *ssa.Index:
		return x.X
	case *ssa.Lookup:
		return x.X
	case *ssa.Slice:
		return x.X
	case *ssa.SliceToArrayPointer:
		return x.X
	case ssa.CallInstruction:
		switch calleeName(x.Common()) {
		case "crypto/cipher.AEAD.Open", "crypto/cipher.NewCBCDecrypter", "crypto/cipher.NewCTR", "crypto/cipher.BlockMode.CryptBlocks":
			return x.Common().Args[1]
		}
		a := x.Common().Args
		return a[len(a)-1]
	}
	return nil
}

// globalBase: the value is read from a package variable.
func globalBase(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Global:
			return true
		default:
			return false
		}
	}
}

// lenField: the term is the length of an unexported field; which one.
func lenField(x *Expr) *types.Var {
	if x.k != KCall || x.s != "builtin.len" {
		return nil
	}
	y := x.a[0]
	if y.k == KLoad {
		y = y.a[0]
	}
	if y.k != KField && y.k != KFieldAddr {
		return nil
	}
	f, ok := y.obj.(*types.Var)
	if !ok || f.Exported() {
		return nil
	}
	return f
}

// fieldMin is the least length of any value ever stored in the unexported
// slice field (0 when objects are also made without storing it).
func (c *Check) fieldMin(f *types.Var) int64 {
	if n, ok := c.fieldMins[f]; ok {
		return n
	}
	if c.fieldMins == nil {
		c.fieldMins = map[*types.Var]int64{}
	}
	c.fieldMins[f] = 0
	low := int64(posInf)
	for _, fn := range c.p.AllFuncs {
		if fn.Pkg == nil || fn.Pkg.Pkg != f.Pkg() {
			continue
		}
		makes, stores := false, false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Alloc:
					if t, ok := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok && hasField(t, f) {
						makes = true
					}
				case *ssa.Store:
					if a, ok := x.Addr.(*ssa.FieldAddr); ok && fieldOf(a.X.Type(), a.Field) == f {
						stores = true
					}
				}
			}
		}
		if makes && !stores {
			return 0
		}
		if !stores {
			continue
		}
		var e *Engine
		e = newEngine(c.p, Hooks{Store: func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
			x, ok := in.(*ssa.Store)
			if !ok || fr.fn != fn {
				return
			}
			if a, ok := x.Addr.(*ssa.FieldAddr); ok && fieldOf(a.X.Type(), a.Field) == f {
				lo, _ := st.interval(e.lenLin(val))
				if lo < low {
					low = lo
				}
			}
		}})
		e.Run(fn)
		c.use(e)
	}
	if low > 0 && low != posInf {
		c.fieldMins[f] = low
	}
	return c.fieldMins[f]
}

func hasField(t *types.Struct, f *types.Var) bool {
	for i := 0; i < t.NumFields(); i++ {
		if t.Field(i) == f {
			return true
		}
	}
	return false
}
