package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&propDef{
		ID:      "C27",
		Expl:    "A whole-program taint analysis over the SSA form of every package, the command line program included: flow-insensitive, field-based, with a summary per function, and sensitive to the tests that come before a use. Sources are every text and byte field of the protocol messages, what is read from the web socket and from HTTP requests and answers and everything that is decoded from that, and the text parameters of the library's exported functions and methods (applications take the identifiers they pass from messages). (path) Every call that opens, reads, writes, removes, lists or tests a file is an obligation: no remote text may be in the path, and no text from the application may follow something else in it. (component) Every element but the first of filepath.Join is an obligation for both. A text is harmless once it is hexadecimal, decimal, escaped for URLs, the base name of a path, formatted by %x or %d or as a UUID, or where a test that dominates the use has ruled out separators.",
		Assume:  []string{"operations on a directory itself or on its parent fail, as they are not files and not empty (a name may still be . or ..)", "the file name of a multipart upload is a base name (mime/multipart guarantees it)", "the files in the storage directory have not been tampered with"},
		Minimum: map[string]int{"path": 40, "component": 20},
		Run:     runC27,
	})
}

const (
	remoteText = "text from a remote party"
	appText    = "an identifier from the application"
	appInside  = "an identifier from the application inside a path"
)

// pathArgs are the paths a call hands to the file system.
func pathArgs(cc *ssa.CallCommon) []ssa.Value {
	n := calleeName(cc)
	a := callArgs(cc)
	first := func(k int) []ssa.Value {
		if len(a) < k {
			return a
		}
		return a[:k]
	}
	switch n {
	case "os.Open", "os.Create", "os.OpenFile", "os.ReadFile", "os.WriteFile", "os.Remove", "os.RemoveAll", "os.Mkdir", "os.MkdirAll", "os.Stat", "os.Lstat", "os.ReadDir", "os.Truncate", "os.Chmod", "os.Chown", "os.Lchown", "os.Chtimes", "os.Readlink", "os.Chdir", "os.DirFS",
		"io/ioutil.ReadFile", "io/ioutil.WriteFile", "io/ioutil.ReadDir",
		"path/filepath.Walk", "path/filepath.WalkDir", "path/filepath.Glob", "path/filepath.EvalSymlinks",
		"net/http.Dir", "net/http.ServeFile":
		if n == "net/http.ServeFile" {
			return a[2:]
		}
		return first(1)
	case "os.Rename", "os.Link", "os.Symlink", "os.CreateTemp", "os.MkdirTemp", "io/ioutil.TempFile", "io/ioutil.TempDir":
		return first(2)
	case "os.Root.Open", "os.Root.Create", "os.Root.OpenFile":
		return nil
	case "syscall.Open", "syscall.Unlink", "syscall.Mkdir", "syscall.Rmdir":
		return first(1)
	case "syscall.Rename":
		return first(2)
	}
	return nil
}

// joinedParts are all but the first element of a joined path.
func joinedParts(cc *ssa.CallCommon) (first ssa.Value, rest []ssa.Value, ok bool) {
	if calleeName(cc) != "path/filepath.Join" || len(cc.Args) != 1 {
		return nil, nil, false
	}
	el := listed(cc.Args[0])
	if len(el) == 0 {
		return nil, []ssa.Value{cc.Args[0]}, true
	}
	return el[0], el[1:], true
}

// listed are the elements of a slice literal, as variadic calls make them.
func listed(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at, ok := derefT(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil
	}
	out := make([]ssa.Value, at.Len())
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			if r != ssa.Instruction(sl) {
				return nil
			}
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, s := range *ia.Referrers() {
			if st, ok := s.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				out[k.Int64()] = st.Val
			} else {
				return nil
			}
		}
	}
	for _, x := range out {
		if x == nil {
			return nil
		}
	}
	return out
}

func constStr(v ssa.Value) (string, bool) {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.Const:
			if x.Value != nil && x.Value.Kind() == constant.String {
				return constant.StringVal(x.Value), true
			}
			if x.Value != nil && x.Value.Kind() == constant.Int {
				return string(rune(x.Int64())), true
			}
		case *ssa.UnOp:
			// A package-level string that is only set where it is declared.
			if g := loadedGlobal(x); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "path/filepath" {
				return "/", true
			}
		}
		return "", false
	}
}

// sameVal: two reads of one thing.
func sameVal(a, b ssa.Value, depth int) bool {
	if a == b {
		return true
	}
	if depth > 6 {
		return false
	}
	switch x := a.(type) {
	case *ssa.Convert:
		return sameVal(x.X, b, depth+1)
	case *ssa.ChangeType:
		return sameVal(x.X, b, depth+1)
	}
	switch y := b.(type) {
	case *ssa.Convert:
		return sameVal(a, y.X, depth+1)
	case *ssa.ChangeType:
		return sameVal(a, y.X, depth+1)
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameVal(x.X, y.X, depth+1)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameVal(x.X, y.X, depth+1)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && sameVal(x.X, y.X, depth+1)
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok || x.Call.IsInvoke() || y.Call.IsInvoke() {
			return false
		}
		f := x.Call.StaticCallee()
		if f == nil || f != y.Call.StaticCallee() || len(x.Call.Args) != len(y.Call.Args) || f.Signature.Recv() == nil || !strings.HasPrefix(f.Name(), "Get") && len(f.Blocks) != 1 {
			return false
		}
		for i := range x.Call.Args {
			if !sameVal(x.Call.Args[i], y.Call.Args[i], depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

type pathRule struct {
	p     *Prog
	valid map[parKey]map[string]bool // "true", "false", "nil": what this result says about the parameter
}

// separatorFree: the regular expression matches whole texts without separators only.
func separatorFree(pat string) bool {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return false
	}
	re = re.Simplify()
	for re.Op == syntax.OpCapture && len(re.Sub) == 1 {
		re = re.Sub[0]
	}
	if re.Op != syntax.OpConcat || len(re.Sub) < 2 || re.Sub[0].Op != syntax.OpBeginText || re.Sub[len(re.Sub)-1].Op != syntax.OpEndText {
		return false
	}
	var free func(r *syntax.Regexp) bool
	free = func(r *syntax.Regexp) bool {
		switch r.Op {
		case syntax.OpLiteral:
			for _, c := range r.Rune {
				if c == '/' || c == '\\' {
					return false
				}
			}
			return true
		case syntax.OpCharClass:
			for i := 0; i+1 < len(r.Rune); i += 2 {
				if r.Rune[i] <= '/' && '/' <= r.Rune[i+1] {
					return false
				}
			}
			return true
		case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
			return false
		}
		for _, s := range r.Sub {
			if !free(s) {
				return false
			}
		}
		return true
	}
	return free(re)
}

// regexpOf finds the constant a regular expression was compiled from.
func regexpOf(p *Prog, v ssa.Value) (string, bool) {
	if u, ok := v.(*ssa.UnOp); ok {
		if g := loadedGlobal(u); g != nil && g.Pkg != nil {
			// Set once, where it is declared.
			if f := g.Pkg.Func("init"); f != nil {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
							return regexpOf(p, st.Val)
						}
					}
				}
			}
			return "", false
		}
	}
	if e, ok := v.(*ssa.Extract); ok {
		v = e.Tuple
	}
	c, ok := v.(*ssa.Call)
	if !ok || !strings.HasPrefix(calleeName(&c.Call), "regexp.") || len(c.Call.Args) != 1 {
		return "", false
	}
	return constStr(c.Call.Args[0])
}

// dangerous: what a test looks for includes the separator or a step up.
func dangerous(v ssa.Value, any bool) bool {
	s, ok := constStr(v)
	if !ok {
		return false
	}
	if any {
		return strings.Contains(s, "/")
	}
	return s == "/" || s == ".."
}

// implies: if cond has this truth, v is harmless.
func (r *pathRule) implies(cond ssa.Value, truth bool, v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return r.implies(x.X, !truth, v, depth+1)
		}
	case *ssa.Phi:
		// a && b, a || b: every edge that can have this truth must say so.
		n := 0
		for i, e := range x.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != truth {
				continue
			}
			n++
			pred := x.Block().Preds[i]
			if !r.implies(e, truth, v, depth+1) && !r.guarded(v, pred, x.Block(), depth+1) {
				return false
			}
		}
		return n > 0
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return r.callSays(c, x.Index, truth, v)
		}
	case *ssa.Call:
		return r.callSays(x, 0, truth, v)
	case *ssa.BinOp:
		return r.compares(x, truth, v, depth)
	}
	return false
}

func (r *pathRule) callSays(c *ssa.Call, i int, truth bool, v ssa.Value) bool {
	n := calleeName(&c.Call)
	a := c.Call.Args
	switch n {
	case "strings.Contains":
		return !truth && sameVal(a[0], v, 0) && dangerous(a[1], false)
	case "strings.ContainsAny":
		return !truth && sameVal(a[0], v, 0) && dangerous(a[1], true)
	case "strings.ContainsRune":
		return !truth && sameVal(a[0], v, 0) && dangerous(a[1], false)
	case "bytes.Contains", "bytes.ContainsAny", "bytes.ContainsRune":
		return !truth && sameVal(a[0], v, 0) && dangerous(a[1], n == "bytes.ContainsAny")
	case "path/filepath.IsLocal":
		return truth && sameVal(a[0], v, 0)
	case "regexp.Regexp.MatchString", "regexp.Regexp.Match":
		if truth && sameVal(a[1], v, 0) {
			pat, ok := regexpOf(r.p, a[0])
			return ok && separatorFree(pat)
		}
		return false
	case "regexp.MatchString":
		if truth && i == 0 && sameVal(a[1], v, 0) {
			pat, ok := constStr(a[0])
			return ok && separatorFree(pat)
		}
		return false
	}
	if f := c.Call.StaticCallee(); f != nil && f.Blocks != nil {
		for j, x := range a {
			if sameVal(x, v, 0) && j < len(f.Params) {
				want := "false"
				if truth {
					want = "true"
				}
				if r.says(f, j, i)[want] {
					return true
				}
			}
		}
	}
	return false
}

// compares: comparisons of an error with nil, an index with -1, a name with its base.
func (r *pathRule) compares(x *ssa.BinOp, truth bool, v ssa.Value, depth int) bool {
	op, a, b := x.Op, x.X, x.Y
	if _, ok := a.(*ssa.Const); ok {
		a, b = b, a
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if !truth {
		op = map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}[op]
	}
	if k, ok := b.(*ssa.Const); ok {
		if k.Value == nil && op == token.EQL {
			// err == nil
			i := 0
			w := a
			if e, ok := w.(*ssa.Extract); ok {
				w, i = e.Tuple, e.Index
			}
			c, ok := w.(*ssa.Call)
			if !ok {
				return false
			}
			n := calleeName(&c.Call)
			switch {
			case strings.HasPrefix(n, "strconv.Atoi"), strings.HasPrefix(n, "strconv.Parse"), strings.HasSuffix(n, "uuid.FromString"), strings.HasSuffix(n, "uuid.Parse"), n == "encoding/hex.DecodeString":
				return sameVal(c.Call.Args[0], v, 0)
			}
			if f := c.Call.StaticCallee(); f != nil && f.Blocks != nil {
				for j, y := range c.Call.Args {
					if sameVal(y, v, 0) && j < len(f.Params) && r.says(f, j, i)["nil"] {
						return true
					}
				}
			}
			return false
		}
		if k.Value != nil && k.Value.Kind() == constant.Bool && (op == token.EQL || op == token.NEQ) {
			return r.implies(a, constant.BoolVal(k.Value) == (op == token.EQL), v, depth+1)
		}
		if c, ok := a.(*ssa.Call); ok && k.Value != nil && k.Value.Kind() == constant.Int {
			n := calleeName(&c.Call)
			if strings.HasPrefix(n, "strings.Index") || strings.HasPrefix(n, "strings.LastIndex") || n == "strings.Count" {
				none := op == token.EQL && k.Int64() == -1 || op == token.LSS && k.Int64() == 0 || op == token.LEQ && k.Int64() == -1
				if n == "strings.Count" {
					none = op == token.EQL && k.Int64() == 0 || op == token.LSS && k.Int64() == 1 || op == token.LEQ && k.Int64() == 0
				}
				return none && sameVal(c.Call.Args[0], v, 0) && dangerous(c.Call.Args[1], strings.HasSuffix(n, "Any"))
			}
		}
	}
	if op == token.EQL {
		for _, w := range [][2]ssa.Value{{a, b}, {b, a}} {
			if c, ok := w[0].(*ssa.Call); ok && sameVal(w[1], v, 0) {
				switch calleeName(&c.Call) {
				case "path/filepath.Base", "path.Base":
					if sameVal(c.Call.Args[0], v, 0) {
						return true
					}
				}
			}
			// Equal to a fixed text.
			if s, ok := constStr(w[0]); ok && !strings.Contains(s, "/") && sameVal(w[1], v, 0) {
				return true
			}
		}
	}
	return false
}

// guarded: on every way to the end of a block (along an edge) v has been tested.
func (r *pathRule) guarded(v ssa.Value, b, next *ssa.BasicBlock, depth int) bool {
	if depth > 8 {
		return false
	}
	if next != nil {
		if n := len(b.Instrs); n > 0 {
			if i, ok := b.Instrs[n-1].(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
				if r.implies(i.Cond, b.Succs[0] == next, v, depth+1) {
					return true
				}
			}
		}
	}
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) == 1 {
			q := d.Preds[0]
			if i, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If); ok && q.Succs[0] != q.Succs[1] && r.implies(i.Cond, q.Succs[0] == d, v, depth+1) {
				return true
			}
		}
	}
	return false
}

// says: what the results of a function of the module say about a parameter.
func (r *pathRule) says(f *ssa.Function, j, i int) map[string]bool {
	k := parKey{f, j*100 + i}
	if m, ok := r.valid[k]; ok {
		return m
	}
	r.valid[k] = map[string]bool{}
	if !isStringT(f.Params[j].Type()) && !isBytesT(f.Params[j].Type()) {
		return nil
	}
	out := map[string]bool{"true": true, "false": true, "nil": true}
	n := 0
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || i >= len(ret.Results) {
			continue
		}
		n++
		w := ret.Results[i]
		g := r.guarded(f.Params[j], b, nil, 0)
		for _, truth := range []bool{true, false} {
			name := map[bool]string{true: "true", false: "false"}[truth]
			if c, ok := w.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) != truth {
				continue
			}
			if !isBoolT(w.Type()) || !g && !r.implies(w, truth, f.Params[j], 0) {
				out[name] = false
			}
		}
		if !isErrorT(w.Type()) {
			out["nil"] = false
		} else if !g && !failing(w) && !r.nilOnly(w, f.Params[j]) {
			out["nil"] = false
		}
	}
	if n == 0 {
		out = map[string]bool{}
	}
	r.valid[k] = out
	return out
}

// nilOnly: an error that is nil only if the value is harmless.
func (r *pathRule) nilOnly(w, v ssa.Value) bool {
	i := 0
	if e, ok := w.(*ssa.Extract); ok {
		w, i = e.Tuple, e.Index
	}
	c, ok := w.(*ssa.Call)
	if !ok {
		return false
	}
	n := calleeName(&c.Call)
	if strings.HasSuffix(n, "uuid.FromString") || strings.HasPrefix(n, "strconv.Parse") || n == "strconv.Atoi" || n == "encoding/hex.DecodeString" {
		return sameVal(c.Call.Args[0], v, 0)
	}
	if f := c.Call.StaticCallee(); f != nil && f.Blocks != nil {
		for j, y := range c.Call.Args {
			if sameVal(y, v, 0) && j < len(f.Params) && r.says(f, j, i)["nil"] {
				return true
			}
		}
	}
	return false
}

// failing: an error that is certainly not nil.
func failing(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		n := calleeName(&x.Call)
		return n == "errors.New" || n == "fmt.Errorf"
	case *ssa.UnOp:
		return loadedGlobal(x) != nil
	}
	return false
}

func isTextT(tp types.Type) bool {
	if p, ok := tp.Underlying().(*types.Pointer); ok {
		tp = p.Elem()
	}
	if s, ok := tp.Underlying().(*types.Slice); ok && !isByteT(s.Elem()) {
		tp = s.Elem()
	}
	return isStringT(tp) || isBytesT(tp)
}

// texts writes atoms into every text field of a structure that was decoded.
func (t *taint) texts(tp types.Type, b aset, seen map[types.Type]bool) {
	tp = types.Unalias(tp)
	if seen[tp] {
		return
	}
	seen[tp] = true
	switch u := tp.Underlying().(type) {
	case *types.Pointer:
		t.texts(u.Elem(), b, seen)
	case *types.Slice:
		t.texts(u.Elem(), b, seen)
	case *types.Array:
		t.texts(u.Elem(), b, seen)
	case *types.Map:
		t.texts(u.Elem(), b, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if key, _, f := t.fieldKey(tp, i); key != "" {
				if isTextT(f.Type()) || types.IsInterface(f.Type()) {
					t.send(dst{cell: key}, b, token.NoPos)
				}
				if m, ok := f.Type().Underlying().(*types.Map); ok && (isTextT(m.Key()) || isTextT(m.Elem())) {
					t.send(dst{cell: key}, b, token.NoPos)
				}
				t.texts(f.Type(), b, seen)
			}
		}
	}
}

func pathExternal(t *taint, fn *ssa.Function, ci ssa.CallInstruction, name string, as []aset) (aset, bool) {
	cc := ci.Common()
	args := callArgs(cc)
	all := joined(as...)
	method := name[strings.LastIndex(name, ".")+1:]
	has := func(l ...string) bool {
		for _, s := range l {
			if strings.HasPrefix(name, s) {
				return true
			}
		}
		return false
	}
	switch {
	case name == "":
		// A callback of the application.
		return nil, true
	case has("encoding/hex.Encode", "encoding/hex.Dump", "net/url.PathEscape", "net/url.QueryEscape", "net/url.Values.Encode", "path/filepath.Base", "path.Base", "path/filepath.Ext", "path.Ext", "strconv.", "time."):
		return nil, true
	case strings.Contains(name, "uuid.") && (method == "String" || method == "MarshalText"):
		return nil, true
	case has("encoding/base64.Encoding.Encode"):
		if g := loadedGlobal(args[0]); g != nil && strings.Contains(g.Name(), "URL") {
			return nil, true
		}
		return all, true
	case has("encoding/base32."):
		return nil, true
	case name == "strings.ReplaceAll", name == "strings.Replace":
		old, ok1 := constStr(args[1])
		nu, ok2 := constStr(args[2])
		every := true
		if len(args) > 3 {
			k, ok := args[3].(*ssa.Const)
			every = ok && k.Int64() < 0
		}
		if ok1 && ok2 && every && (old == "/" || old == "..") && !strings.ContainsAny(nu, "./") {
			return nil, true
		}
		return all, true
	case name == "path/filepath.Clean", name == "path.Clean":
		if b, ok := args[0].(*ssa.BinOp); ok && b.Op == token.ADD {
			if s, ok := constStr(b.X); ok && strings.HasPrefix(s, "/") {
				return nil, true
			}
		}
		return all, true
	case name == "path/filepath.Join":
		first, _, _ := joinedParts(cc)
		if first == nil {
			return nil, true
		}
		return t.at(first, ci), true
	case name == "path/filepath.Split", name == "path.Split":
		return all, true
	case has("fmt.Sprint"), has("fmt.Errorf"):
		return t.formatted(ci, name, args), true
	case has("os.", "io/ioutil."):
		return nil, true
	case has("io.ReadAll"):
		return all, true
	case has("io.ReadFull", "io.ReadAtLeast"):
		t.into(args[1], as[0], nil)
		return nil, true
	case has("io.Copy"):
		t.into(args[0], as[1], nil)
		return nil, true
	case has("bytes.Buffer.ReadFrom", "bytes.Buffer.Write", "strings.Builder.Write"):
		t.into(args[0], joined(as[1:]...), nil)
		return nil, true
	case strings.HasPrefix(method, "Unmarshal") || method == "Decode" || method == "DecodeMessage":
		// What is decoded has the texts of the data.
		if len(args) >= 2 {
			data, to := as[0], args[1]
			if mi, ok := to.(*ssa.MakeInterface); ok {
				t.into(mi.X, data, nil)
				t.texts(mi.X.Type(), data, map[types.Type]bool{})
			} else {
				t.into(to, data, nil)
			}
		}
		return nil, true
	case strings.Contains(name, "websocket.Conn.ReadMessage"), strings.Contains(name, "websocket.Conn.NextReader"):
		return t.src(remoteText), true
	case strings.Contains(name, "websocket.Conn.ReadJSON"):
		if mi, ok := args[1].(*ssa.MakeInterface); ok {
			t.into(mi.X, t.src(remoteText), nil)
			t.texts(mi.X.Type(), t.src(remoteText), map[types.Type]bool{})
		}
		return nil, true
	case has("net/http.Request."):
		switch method {
		case "FormValue", "PostFormValue", "PathValue", "FormFile", "UserAgent", "Referer", "BasicAuth":
			return t.src(remoteText), true
		}
		return nil, true
	case has("net/http.Header.Set", "net/http.Header.Add"):
		t.into(args[0], joined(as[1:]...), nil)
		return nil, true
	case has("net/http.Header.", "net/http.Cookie"):
		return all, true
	case has("net/http.Response."):
		return t.src(remoteText), true
	case has("net/http."):
		// Answers get their texts by the labels of their fields.
		return nil, true
	case strings.Contains(name, "zkgroup") && strings.HasPrefix(method, "Decrypt"):
		return t.src(remoteText), true
	case has("net/url.Parse"), has("net/url.URL."), has("strings."), has("bytes."), has("bufio."), has("encoding/"), has("path"), has("html."), has("unicode"), has("io."), has("errors."), has("compress"):
		return all, true
	case has("crypto/cipher.", "crypto/aes."):
		if method == "CryptBlocks" || method == "XORKeyStream" {
			t.into(args[1], joined(as[2:]...), nil)
		}
		return all, true
	case has("github.com/sirupsen/logrus"):
		return nil, true
	}
	return all, true
}

// formatted: what a formatted text can hold.
func (t *taint) formatted(ci ssa.CallInstruction, name string, args []ssa.Value) aset {
	verbs := strings.HasSuffix(name, "f")
	list := args[len(args)-1]
	el := listed(list)
	format := ""
	if verbs {
		s, ok := constStr(args[0])
		if !ok {
			return joined(t.at(args[0], ci), t.at(list, ci))
		}
		format = s
	}
	if el == nil {
		return t.at(list, ci)
	}
	var out aset
	add := func(v ssa.Value, first bool) {
		a := t.at(v, ci)
		if !first {
			a = t.inside(a)
		}
		out = joined(out, a)
	}
	if !verbs {
		for i, v := range el {
			add(v, i == 0)
		}
		return out
	}
	i, k := 0, 0
	for i < len(format) {
		if format[i] != '%' {
			i++
			continue
		}
		start := i
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.[]*", format[i]) >= 0 {
			if format[i] == '[' || format[i] == '*' {
				return joined(out, t.inside(t.at(list, ci)))
			}
			i++
		}
		if i >= len(format) {
			break
		}
		c := format[i]
		i++
		if c == '%' {
			continue
		}
		if k < len(el) {
			switch c {
			case 'x', 'X', 'd', 'b', 'o', 't', 'f', 'g', 'e', 'p':
			default:
				add(el[k], start == 0)
			}
		}
		k++
	}
	return out
}

// inside: an identifier that follows something else.
func (t *taint) inside(a aset) aset {
	var out aset
	for x := range a {
		if x < parBase && t.names[x] == appText {
			x = t.atom(appInside)
		}
		out = joined(out, aset{x: true})
	}
	return out
}

func runC27(c *Check) {
	p := c.p
	r := &pathRule{p: p, valid: map[parKey]map[string]bool{}}
	t := &taint{p: p, withCmd: true}
	t.label = func(n *types.Named, f *types.Var) string {
		if f.Exported() && t.isProto(n) && isTextT(f.Type()) {
			return remoteText
		}
		return ""
	}
	t.extLabel = func(n *types.Named, f *types.Var) (string, bool) {
		if n.Obj().Pkg() == nil {
			return "", false
		}
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + f.Name() {
		case "mime/multipart.FileHeader.Filename":
			return "", true
		case "net/http.Response.Body", "net/http.Response.Header", "net/http.Response.Status", "net/http.Response.Trailer",
			"net/http.Request.Body", "net/http.Request.Header", "net/http.Request.URL", "net/http.Request.Form", "net/http.Request.PostForm", "net/http.Request.MultipartForm", "net/http.Request.Host", "net/http.Request.RequestURI":
			return remoteText, true
		}
		return "", false
	}
	t.external = pathExternal
	t.clean = func(v ssa.Value, in ssa.Instruction) bool {
		if isNumT(v.Type()) && !isByteT(v.Type()) {
			return true
		}
		if n, ok := types.Unalias(v.Type()).(*types.Named); ok && n.Obj().Name() == "UUID" {
			return false
		}
		return r.guarded(v, in.Block(), nil, 0)
	}
	t.concat = func(x *ssa.BinOp, a, b aset) aset {
		if !isStringT(x.Type()) {
			return joined(a, b)
		}
		if s, ok := constStr(x.X); ok && s == "" {
			return b
		}
		return joined(a, t.inside(b))
	}
	t.paramSrc = func(q *ssa.Parameter) string {
		f := q.Parent()
		if inCmd(f) || !isTextT(q.Type()) || f.Parent() != nil || !appCalls(f) || p.isGen(f.Pos()) {
			return ""
		}
		return appText
	}
	t.sink = func(in ssa.Instruction) []ssa.Value {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return nil
		}
		if _, rest, ok := joinedParts(ci.Common()); ok {
			return rest
		}
		return pathArgs(ci.Common())
	}
	t.run()
	var list []*taintSink
	for _, s := range t.sinks {
		list = append(list, s)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].in.Pos() < list[j].in.Pos() })
	seen := map[*ssa.Function]bool{}
	for _, s := range list {
		ci := s.in.(ssa.CallInstruction)
		_, _, join := joinedParts(ci.Common())
		rule := "path"
		if join {
			rule = "component"
		}
		seen[s.fn] = true
		var names []string
		at := ""
		for n, q := range t.hits[s] {
			if !join && n == appText {
				continue
			}
			names = append(names, n)
			if q.IsValid() && q != s.in.Pos() {
				at = ", handed over at " + p.pos(q)
			}
		}
		sort.Strings(names)
		what := strings.Join(names, ", ")
		c.ob(rule, fnName(s.fn)+":"+calleeName(ci.Common())+":"+what, s.in.Pos(), len(names) == 0, what+" can lead out of the directory here"+at)
	}
	for f := range seen {
		c.funcs[f] = true
	}
}

// appCalls: the application can call this.
func appCalls(f *ssa.Function) bool {
	o, ok := f.Object().(*types.Func)
	if !ok || !o.Exported() {
		return false
	}
	if recv := f.Signature.Recv(); recv != nil {
		n, _ := types.Unalias(derefT(recv.Type())).(*types.Named)
		return n != nil && n.Obj().Exported()
	}
	return true
}
