package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Module path of the analysed repository.
const Mod = "github.com/signal-golang/textsecure"

// Prog is the resolved program: every package of the analysed module in SSA
// form, together with a conservative call graph.
type Prog struct {
	Dir    string
	Fset   *token.FileSet
	Pkgs   []*packages.Package
	owners map[types.Object]string
	SSA    *ssa.Program
	ByPkg  map[string]*ssa.Package
	// Funcs are all functions with a body in the module (incl. closures,
	// excl. generated protobuf code).
	Funcs []*ssa.Function
	// AllFuncs additionally holds generated code.
	AllFuncs []*ssa.Function

	named      []*types.Named // all named types declared in the module
	callees    map[*ssa.Function][]*ssa.Function
	callers    map[*ssa.Function][]*ssa.Function
	aborters   map[*ssa.Function]bool
	asValue    map[*ssa.Function]bool
	jsonFields map[*types.Var]bool
	static     map[*ssa.Function][]*ssa.Function
	genFile    map[string]bool
	fileOf     map[*types.Package]*packages.Package
	nonNilG    map[*ssa.Global]bool
	never      map[*ssa.Function]bool
	constG     map[*ssa.Global]*ssa.Const
	info       map[ast.Node]*types.Info
}

func repoDir() string {
	if d := os.Getenv("VSA_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadProg(dir string) (*Prog, error) {
	env := os.Environ()
	set := func(k, v string) {
		for i, e := range env {
			if strings.HasPrefix(e, k+"=") {
				env[i] = k + "=" + v
				return
			}
		}
		env = append(env, k+"="+v)
	}
	def := func(k, v string) {
		if os.Getenv(k) == "" {
			set(k, v)
		}
	}
	def("HOME", "/root")
	set("GOFLAGS", "-mod=mod")
	set("GOPROXY", "off")
	set("GOTOOLCHAIN", "local")
	set("CGO_ENABLED", "1")
	set("GOWORK", "off")
	def("GOMODCACHE", "/root/go/pkg/mod")
	def("GOCACHE", "/root/.cache/go-build")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedModule | packages.NeedExportFile,
		Dir: dir,
		Env: env,
	}
	// With NeedDeps+NeedTypes+NeedSyntax dependencies would be parsed from
	// source; drop NeedDeps so that they come from export data.
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check failed: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) < 20 {
		return nil, fmt.Errorf("only %d packages loaded from %s", len(pkgs), dir)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p := &Prog{Dir: dir, Fset: prog.Fset, Pkgs: pkgs, SSA: prog, ByPkg: map[string]*ssa.Package{},
		callees: map[*ssa.Function][]*ssa.Function{}, callers: map[*ssa.Function][]*ssa.Function{},
		static:  map[*ssa.Function][]*ssa.Function{},
		genFile: map[string]bool{}, fileOf: map[*types.Package]*packages.Package{}, nonNilG: map[*ssa.Global]bool{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.ByPkg[pkgs[i].PkgPath] = sp
		p.fileOf[pkgs[i].Types] = pkgs[i]
		for _, f := range pkgs[i].Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			if strings.HasSuffix(name, ".pb.go") || ast.IsGenerated(f) {
				p.genFile[name] = true
			}
		}
	}
	prog.Build()
	p.index()
	return p, nil
}

func (p *Prog) isGen(pos token.Pos) bool {
	if !pos.IsValid() {
		return false
	}
	return p.genFile[p.Fset.Position(pos).Filename]
}

func (p *Prog) inMod(pkg *types.Package) bool {
	return pkg != nil && (pkg.Path() == Mod || strings.HasPrefix(pkg.Path(), Mod+"/"))
}

// isPB reports whether obj is declared in generated protobuf code.
func (p *Prog) isPB(obj types.Object) bool {
	return obj != nil && p.isGen(obj.Pos())
}

func (p *Prog) index() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if f.Blocks == nil {
			return
		}
		p.AllFuncs = append(p.AllFuncs, f)
		if !p.isGen(f.Pos()) {
			p.Funcs = append(p.Funcs, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var paths []string
	for k := range p.ByPkg {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		sp := p.ByPkg[k]
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				nt, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				p.named = append(p.named, nt)
				for i := 0; i < nt.NumMethods(); i++ {
					add(p.SSA.FuncValue(nt.Method(i)))
				}
			}
		}
	}
	for _, f := range p.AllFuncs {
		cs := map[*ssa.Function]bool{}
		st := map[*ssa.Function]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, t := range p.targets(c.Common()) {
						cs[t] = true
						st[t] = true
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					switch v := (*op).(type) {
					case *ssa.Function:
						cs[p.realFn(v)] = true
					case *ssa.MakeClosure:
						cs[p.realFn(v.Fn.(*ssa.Function))] = true
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					cs[p.realFn(mc.Fn.(*ssa.Function))] = true
				}
			}
		}
		for t := range cs {
			p.callees[f] = append(p.callees[f], t)
			p.callers[t] = append(p.callers[t], f)
		}
		for t := range st {
			p.static[f] = append(p.static[f], t)
		}
	}
	for _, m := range []map[*ssa.Function][]*ssa.Function{p.callees, p.callers, p.static} {
		for k := range m {
			l := m[k]
			sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
		}
	}
	// Package-level error variables only ever assigned a fresh non-nil value.
	assigned := map[*ssa.Global][]ssa.Value{}
	taken := map[*ssa.Global]bool{}
	for _, sp := range p.ByPkg {
		fs := []*ssa.Function{sp.Func("init")}
		for _, f := range p.AllFuncs {
			if f.Pkg == sp {
				fs = append(fs, f)
			}
		}
		for _, f := range fs {
			if f == nil {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if g, ok := st.Addr.(*ssa.Global); ok {
							assigned[g] = append(assigned[g], st.Val)
							continue
						}
					}
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					for _, op := range in.Operands(nil) {
						if op != nil && *op != nil {
							if g, ok := (*op).(*ssa.Global); ok {
								if _, isF := in.(*ssa.FieldAddr); !isF {
									taken[g] = true
								}
							}
						}
					}
				}
			}
		}
	}
	for g, vs := range assigned {
		ok := !taken[g] && len(vs) > 0
		for _, v := range vs {
			switch x := v.(type) {
			case *ssa.MakeInterface, *ssa.MakeMap, *ssa.Alloc, *ssa.MakeClosure, *ssa.Function, *ssa.MakeChan, *ssa.MakeSlice:
			case *ssa.Call:
				n := calleeName(x.Common())
				if n != "errors.New" && n != "fmt.Errorf" && !strings.HasSuffix(n, ".MustCompile") {
					ok = false
				}
			default:
				ok = false
			}
		}
		if ok {
			p.nonNilG[g] = true
		}
	}
}

// realFn maps synthetic wrappers (bound methods, thunks) to the declared function.
func (p *Prog) realFn(f *ssa.Function) *ssa.Function {
	if f != nil && f.Synthetic != "" && f.Object() != nil {
		if fo, ok := f.Object().(*types.Func); ok {
			if g := p.SSA.FuncValue(fo); g != nil && g.Blocks != nil {
				return g
			}
		}
	}
	return f
}

// targets resolves the possible in-module targets of a call.
func (p *Prog) targets(c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{p.realFn(f)}
	}
	if c.IsInvoke() {
		return p.implementers(c.Value.Type(), c.Method)
	}
	return nil
}

func (p *Prog) implementers(it types.Type, m *types.Func) []*ssa.Function {
	iface, ok := it.Underlying().(*types.Interface)
	if !ok || m == nil {
		return nil
	}
	var out []*ssa.Function
	if m.Pkg() != nil && !p.inMod(m.Pkg()) {
		return nil
	}
	if m.Pkg() == nil {
		return nil // error.Error
	}
	for _, n := range p.named {
		if types.IsInterface(n) {
			continue
		}
		pt := types.NewPointer(n)
		if types.Implements(pt, iface) || types.Implements(n, iface) {
			sel := types.NewMethodSet(pt).Lookup(m.Pkg(), m.Name())
			if sel == nil {
				continue
			}
			if f := p.SSA.MethodValue(sel); f != nil && f.Blocks != nil {
				if f.Synthetic != "" {
					// promoted through embedding: resolve to the declared method
					if fo, ok := sel.Obj().(*types.Func); ok {
						if g := p.SSA.FuncValue(fo); g != nil && g.Blocks != nil {
							f = g
						}
					}
				}
				out = append(out, f)
			}
		}
	}
	return out
}

// objName gives the canonical name of a function object: "pkg.F" or
// "(pkg.T).M" / "(*pkg.T).M" collapsed to "pkg.T.M", with the module prefix
// shortened to "ts".
func objName(o types.Object) string {
	f, ok := o.(*types.Func)
	if !ok {
		if o == nil {
			return ""
		}
		if o.Pkg() == nil {
			return o.Name()
		}
		return shortPkg(o.Pkg().Path()) + "." + o.Name()
	}
	sig := f.Type().(*types.Signature)
	pk := ""
	if f.Pkg() != nil {
		pk = shortPkg(f.Pkg().Path())
	}
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		t = types.Unalias(t)
		if n, ok := t.(*types.Named); ok {
			if n.Obj().Pkg() != nil {
				return shortPkg(n.Obj().Pkg().Path()) + "." + n.Obj().Name() + "." + f.Name()
			}
			return n.Obj().Name() + "." + f.Name()
		}
		return pk + ".?." + f.Name()
	}
	return pk + "." + f.Name()
}

func shortPkg(path string) string {
	if path == Mod {
		return "ts"
	}
	if strings.HasPrefix(path, Mod+"/") {
		return "ts/" + path[len(Mod)+1:]
	}
	return path
}

// calleeName is the canonical name of the called function or method.
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return objName(c.Method)
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		return "builtin." + v.Name()
	case *ssa.Function:
		return fnName(v)
	case *ssa.MakeClosure:
		return fnName(v.Fn.(*ssa.Function))
	}
	return ""
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	if f.Object() != nil {
		return objName(f.Object())
	}
	if f.Parent() != nil {
		return fnName(f.Parent()) + "$" + f.Name()
	}
	if f.Pkg != nil {
		return shortPkg(f.Pkg.Pkg.Path()) + "." + f.Name()
	}
	return f.Name()
}

// Fn finds a function by canonical name, e.g. "ts/axolotl.SessionCipher.SessionEncryptMessage".
func (p *Prog) Fn(name string) *ssa.Function {
	for _, f := range p.AllFuncs {
		if f.Parent() == nil && fnName(f) == name && f.Synthetic == "" {
			return f
		}
	}
	return nil
}

// outer is the named function enclosing a closure.
func outer(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	if r, err := filepath.Rel(p.Dir, q.Filename); err == nil {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// reaches computes the set of functions from which a function satisfying hit
// (applied to call sites) can be reached through the call graph.
func (p *Prog) reachesCall(hit func(c *ssa.CallCommon) bool) map[*ssa.Function]bool {
	return p.reachesInstr(func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && hit(c.Common())
	})
}

func (p *Prog) reachesInstr(hit func(in ssa.Instruction) bool) map[*ssa.Function]bool {
	set := map[*ssa.Function]bool{}
	var work []*ssa.Function
	for _, f := range p.AllFuncs {
	scan:
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if hit(in) {
					set[f] = true
					work = append(work, f)
					break scan
				}
			}
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, c := range p.callers[f] {
			if !set[c] {
				set[c] = true
				work = append(work, c)
			}
		}
	}
	return set
}

// reachableFrom is the forward closure of the call graph.
func (p *Prog) reachableFrom(roots ...*ssa.Function) map[*ssa.Function]bool {
	set := map[*ssa.Function]bool{}
	var work []*ssa.Function
	for _, r := range roots {
		if r != nil && !set[r] {
			set[r] = true
			work = append(work, r)
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, c := range p.callees[f] {
			if !set[c] {
				set[c] = true
				work = append(work, c)
			}
		}
	}
	return set
}

// constGlobals: unexported package variables that hold a constant from
// initialisation on - stored once, by the initialiser, otherwise only read.
func (p *Prog) constGlobals() map[*ssa.Global]*ssa.Const {
	if p.constG != nil {
		return p.constG
	}
	val := map[*ssa.Global]*ssa.Const{}
	bad := map[*ssa.Global]bool{}
	scan := func(f *ssa.Function, init bool) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if g, ok := x.Addr.(*ssa.Global); ok {
						k, isC := x.Val.(*ssa.Const)
						if !init || !isC || val[g] != nil {
							bad[g] = true
						}
						val[g] = k
					}
					if g, ok := x.Val.(*ssa.Global); ok {
						bad[g] = true
					}
					continue
				case *ssa.UnOp:
					continue
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						bad[g] = true
					}
				}
			}
		}
	}
	for _, f := range p.AllFuncs {
		scan(f, f.Name() == "init" && f.Synthetic != "")
	}
	out := map[*ssa.Global]*ssa.Const{}
	for g, k := range val {
		if !bad[g] && k != nil && g.Object() != nil && !g.Object().Exported() {
			out[g] = k
		}
	}
	p.constG = out
	return out
}

// fieldOwner names the type of the module that declares a struct field.
func (p *Prog) fieldOwner(f types.Object) string {
	if p.owners == nil {
		p.owners = map[types.Object]string{}
		for _, pkg := range p.Pkgs {
			sc := pkg.Types.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok {
					continue
				}
				if s, ok := tn.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						p.owners[s.Field(i)] = pkg.PkgPath + "." + n
					}
				}
			}
		}
	}
	return p.owners[f]
}
