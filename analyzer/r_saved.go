package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&propDef{
		ID: "C42",
		Expl: "Enumerates every place the library changes what it keeps in its files: an entry put into or taken from the tables of contacts and groups, a field of the configuration, of a group or of what a group holds. saved: the disjunctive dataflow decides for each of them that, on every path to a return that may report success, in the function or in all of its callers, a write of a file has followed the change and succeeded whose content is the serialisation of that table (for groups: of that group). " +
			"all: on every way through the body of the loops that collect the contacts for the file, and put those read back into the table, the contact at hand is taken over, and no loop leaves some out. same-file: the name a table is saved under is the one it was last read from. kept: every field of the structures in the files that the library sets is written and read (no tag leaves it out, no two share a name).",
		Assume:  []string{"the serialiser writes and reads all exported fields"},
		Minimum: map[string]int{"saved": 12, "all": 2, "kept": 4, "same-file": 1},
		Run:     runC42,
	})
}

type saved struct {
	c     *Check
	kinds map[string]*types.Named // table -> type of what is kept
	glob  map[*ssa.Global]string  // the tables
}

func runC42(c *Check) {
	k := &saved{c: c, kinds: map[string]*types.Named{}, glob: map[*ssa.Global]string{}}
	for _, w := range []struct{ table, pkg, typ string }{
		{"config", "/config", "Config"}, {"contacts", "/contacts", "Contact"}, {"groups", "", "Group"}, {"groupsV2", "/groupsv2", "GroupV2"},
	} {
		var n *types.Named
		if sp := c.p.ByPkg[Mod+w.pkg]; sp != nil {
			if o := sp.Pkg.Scope().Lookup(w.typ); o != nil {
				n, _ = o.Type().(*types.Named)
			}
		}
		c.ob("anchor", w.table, 0, n != nil, "no type "+w.typ)
		if n == nil {
			return
		}
		k.kinds[w.table] = n
	}
	for _, sp := range c.p.ByPkg {
		for _, m := range sp.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			t := derefT(g.Type())
			if mt, ok := t.Underlying().(*types.Map); ok {
				if n, ok := derefT(mt.Elem()).(*types.Named); ok {
					if w := k.tableOf(n); w != "" && w != "config" {
						k.glob[g] = w
					}
				}
			} else if n, ok := derefT(t).(*types.Named); ok && k.tableOf(n) == "config" {
				k.glob[g] = "config"
			}
		}
	}
	c.ob("anchor", "tables", 0, len(k.glob) >= 4, "the tables of contacts, groups and the configuration were not found")
	k.saves()
	k.lists()
	k.tags()
}

func (k *saved) tableOf(n *types.Named) string {
	for w, t := range k.kinds {
		if types.Identical(t, n) {
			return w
		}
	}
	return ""
}

// fleeting: fields that are made anew at run time or only report something.
func fleeting(v *types.Var) bool {
	return !v.Exported() || v.Name() == "JoinStatus" || v.Name() == "GroupAction" || v.Name() == "AccountCapabilities"
}

type change struct {
	table string
	of    ssa.Value // group or its key, nil for others
	isKey bool
}

// changes: what the instruction changes of the tables.
func (k *saved) changes(in ssa.Instruction) *change {
	switch x := in.(type) {
	case *ssa.MapUpdate:
		if w := k.table(x.Map); w != "" {
			return &change{w, x.Key, true}
		}
		return k.inside(x.Map, in)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
			if w := k.table(x.Call.Args[0]); w == "contacts" {
				return &change{w, nil, false}
			}
		}
	case *ssa.Store:
		if g, ok := x.Addr.(*ssa.Global); ok {
			if w := k.glob[g]; w == "contacts" && in.Parent().Name() != "init" {
				return &change{w, nil, false}
			}
			return nil
		}
		return k.inside(x.Addr, in)
	}
	return nil
}

// table: the value is a table.
func (k *saved) table(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			return k.glob[g]
		}
	}
	return ""
}

// inside: the address is that of a field kept of something in a table.
func (k *saved) inside(v ssa.Value, at ssa.Instruction) *change {
	for i := 0; i < 30; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			f := fieldOf(x.X.Type(), x.Field)
			n, _ := derefT(x.X.Type()).(*types.Named)
			if n == nil || k.tableOf(n) == "" {
				if f != nil && !f.Exported() && n != nil && k.tableOf(n) != "" {
					return nil
				}
				v = x.X
				continue
			}
			if f == nil || fleeting(f) {
				return nil
			}
			w := k.tableOf(n)
			switch w {
			case "contacts":
				return nil // kept by value
			case "config":
				if k.table(x.X) != "config" {
					return nil
				}
				return &change{w, nil, false}
			}
			if k.fresh(x.X, at) {
				return nil
			}
			return &change{w, x.X, false}
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil || !k.c.p.isGen(f.Pos()) || len(x.Call.Args) != 1 {
				return nil
			}
			v = x.Call.Args[0]
		default:
			return nil
		}
	}
	return nil
}

// fresh: what was just made and is not in a table yet.
func (k *saved) fresh(v ssa.Value, at ssa.Instruction) bool {
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, b := range al.Parent().Blocks {
		for i, in := range b.Instrs {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || mu.Value != v || k.table(mu.Map) == "" {
				continue
			}
			if b != at.Block() && b.Dominates(at.Block()) {
				return false
			}
			if b == at.Block() {
				for _, o := range b.Instrs[i:] {
					if o == at {
						return false
					}
				}
			}
		}
	}
	return true
}

// marshalled: the table whose serialisation is asked for.
func (k *saved) marshalled(cc *ssa.CallCommon) string {
	if !strings.HasSuffix(calleeName(cc), ".Marshal") || len(cc.Args) != 1 {
		return ""
	}
	mi, ok := cc.Args[0].(*ssa.MakeInterface)
	if !ok {
		return ""
	}
	return k.holds(mi.X.Type())
}

// holds: the table whose content a value of this type has.
func (k *saved) holds(t types.Type) string {
	t = derefT(t)
	if n, ok := t.(*types.Named); ok {
		if w := k.tableOf(n); w != "" && w != "contacts" {
			return w
		}
	}
	el := func(t types.Type) types.Type {
		switch x := t.Underlying().(type) {
		case *types.Slice:
			return x.Elem()
		case *types.Map:
			return x.Elem()
		}
		return nil
	}
	is := func(t types.Type) bool {
		e := el(t)
		if e == nil {
			return false
		}
		n, _ := derefT(e).(*types.Named)
		return n != nil && k.tableOf(n) == "contacts"
	}
	if is(t) {
		return "contacts"
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if is(s.Field(i).Type()) {
				return "contacts"
			}
		}
	}
	return ""
}

var writesFile = names("os.WriteFile", "io/ioutil.WriteFile", "os.File.Write", "bufio.Writer.Write", "io.WriteString", "os.File.WriteString")

func (k *saved) saves() {
	c := k.c
	saver := c.p.reachesInstr(func(in ssa.Instruction) bool {
		cc := callOf(in)
		return cc != nil && !inCmd(in.Parent()) && k.marshalled(cc) != ""
	})
	start := c.startsWith(func(in ssa.Instruction) bool { return k.changes(in) != nil }, func(f *ssa.Function) bool { return !inCmd(f) && c.p.inModFn(f) })
	// what was read from a file is in it
	keep := start[:0]
	for _, f := range start {
		if !k.reads(f) && !c.p.unreached(f) {
			keep = append(keep, f)
		}
	}
	c.upwardTo("saved", keep, func(root, target *ssa.Function, res *rootResult, rel map[*ssa.Function]bool) {
		if k.reads(root) {
			for _, b := range target.Blocks {
				for _, in := range b.Instrs {
					if ch := k.changes(in); ch != nil {
						res.put("saved|"+fnName(target)+" "+ch.table, in.Pos(), target, true, "", "")
					}
				}
			}
			return
		}
		var e *Engine
		key := "saved|" + fnName(target) + " "
		settle := func(st *State) {
			for _, s := range st.events("sv.save") {
				if st.isNil(s.Res) != 1 {
					continue
				}
				var keep []*Event
				for _, ev := range st.ev {
					if ev.Kind == "sv.changed" && ev.Name == s.Name && k.sameOf(e, st, ev, s) || ev == s {
						continue
					}
					keep = append(keep, ev)
				}
				st.ev = keep
			}
		}
		e = newEngine(c.p, Hooks{
			Call: func(st *State, ci *CallInfo) Action {
				if ci.Callee != nil && !saver[ci.Callee] && !rel[ci.Callee] && c.p.inModFn(ci.Callee) && len(ci.Callee.Blocks) > 3 {
					return OpaqueKeep
				}
				return Default
			},
			After: func(st *State, ci *CallInfo, r *Expr) {
				if ci.Go {
					return
				}
				cc := ci.Site.Common()
				if w := k.marshalled(cc); w != "" {
					st.record(Event{Kind: "sv.text", Name: w, Args: []*Expr{ci.Args[0], r}, Res: e.errOf(ci.Site, r), Pos: ci.Pos(), Fn: ci.In})
					return
				}
				if !writesFile(ci.Name) {
					return
				}
				for _, m := range st.events("sv.text") {
					for _, a := range ci.Args {
						if e.it.contains(a, func(y *Expr) bool { return e.fromExpr(m.Args[1], y) || y == m.Args[1] }) {
							trace("C42 save %v %v", m.Name, m.Args)
							st.record(Event{Kind: "sv.save", Name: m.Name, Args: m.Args, Res: e.errOf(ci.Site, r), Pos: ci.Pos(), Fn: ci.In})
							break
						}
					}
				}
			},
			Instr: func(st *State, fr *Frame, in ssa.Instruction) {
				if fr.fn != target {
					return
				}
				ch := k.changes(in)
				if ch == nil {
					return
				}
				settle(st)
				res.put(key+ch.table, in.Pos(), target, true, "", "")
				var args []*Expr
				if ch.of != nil {
					args = append(args, e.val(fr, st, ch.of))
				}
				name := "item"
				if ch.isKey {
					name = "key"
				}
				_ = name
				trace("C42 change %v %v %v", ch.table, name, args)
				// what was saved before is not what there is now
				var keep []*Event
				for _, ev := range st.ev {
					if (ev.Kind == "sv.save" || ev.Kind == "sv.text") && ev.Name == ch.table {
						continue
					}
					keep = append(keep, ev)
				}
				st.ev = keep
				st.record(Event{Kind: "sv.changed", Name: ch.table, Args: args, Pos: in.Pos(), Fn: target, Pending: true})
			},
			Branch: func(st *State, fr *Frame, in *ssa.If, cond *Expr, val bool) { settle(st) },
			Inline: func(fn *ssa.Function, ci *CallInfo) (bool, bool) {
				return true, saver[fn] || rel[fn]
			},
		})
		e.capStates, e.capExits = 16, 10
		for _, x := range e.okExits(root, e.Run(root)) {
			settle(x.st)
			// what fails is reported or not: C18
			failed := map[string]bool{}
			for _, ev := range x.st.ev {
				if (ev.Kind == "sv.save" || ev.Kind == "sv.text") && x.st.isNil(orSelf(ev.Res)) == 0 {
					failed[ev.Name] = true
				}
			}
			if len(x.st.events("sv.changed")) > 0 {
				trace("C42 exit %v %v rets %v ev %v", root, c.p.pos(x.pos), x.rets, len(x.st.ev))
				for _, ev := range x.st.ev {
					trace("C42    %v %v %v %v", ev.Kind, ev.Res, ev.Args, x.st.isNil(orSelf(ev.Res)))
				}
			}
			for _, ev := range x.st.events("sv.changed") {
				if failed[ev.Name] {
					continue
				}
				res.put(key+ev.Name, ev.Pos, target, false, "success is reported although the changed "+ev.Name+" may not have been saved", "returns at "+c.p.pos(x.pos))
			}
		}
		c.useBounded(e)
	}, 2, func(h *ssa.Function) bool { return inCmd(h) })
}

// sameOf: what was saved may be what was changed.
func (k *saved) sameOf(e *Engine, st *State, ch, s *Event) bool {
	if len(ch.Args) == 0 || !strings.HasPrefix(ch.Name, "groups") {
		return true
	}
	v := s.Args[0].strip()
	if v.k == KIface {
		v = v.a[0].strip()
	}
	was := ch.Args[0].strip()
	if was.k == KAlloc || v == was || e.it.contains(v, func(y *Expr) bool { return y == was }) || e.it.contains(was, func(y *Expr) bool { return y == v }) {
		return true
	}
	// two entries of the table found by different keys
	if v.k != KLookup {
		return true
	}
	key := v.a[len(v.a)-1].strip()
	parts := func(x *Expr) map[*Expr]bool {
		m := map[*Expr]bool{}
		e.it.contains(x, func(y *Expr) bool {
			if len(y.a) == 0 && y.k != KConst {
				m[y] = true
			}
			return false
		})
		return m
	}
	in := parts(was)
	for y := range parts(key) {
		if in[y] {
			return true
		}
	}
	trace("C42 not the same: %v %v", was, v)
	return false
}

// reads: the function puts what it read from a file where it belongs.
func (k *saved) reads(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if cc := callOf(in); cc != nil && strings.HasSuffix(calleeName(cc), ".Unmarshal") && strings.Contains(calleeName(cc), "yaml") && len(cc.Args) == 2 {
				if mi, ok := cc.Args[1].(*ssa.MakeInterface); ok && k.holds(mi.X.Type()) != "" {
					return true
				}
			}
		}
	}
	return false
}

// lists: loops over the contacts, or over what was read of them, take every one over.
func (k *saved) lists() {
	c := k.c
	isContact := func(t types.Type) bool {
		n, _ := derefT(t).(*types.Named)
		return n != nil && k.tableOf(n) == "contacts"
	}
	// functions that make what is saved, or take what was read
	makes := c.p.reachesInstr(func(in ssa.Instruction) bool {
		cc := callOf(in)
		return cc != nil && !inCmd(in.Parent()) && k.marshalled(cc) == "contacts"
	})
	for _, f := range c.sortedFuncs() {
		if inCmd(f) || c.p.isGen(f.Pos()) || f.Synthetic != "" {
			continue
		}
		for _, l := range loopsOf(f) {
			var elem ssa.Value
			short := ""
			fromTable := false
			for b := range l.in {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Next:
						if r, ok := x.Iter.(*ssa.Range); ok && k.table(r.X) == "contacts" {
							elem, fromTable = x, true
						}
					case *ssa.IndexAddr:
						if sl, ok := x.X.Type().Underlying().(*types.Slice); ok && isContact(sl.Elem()) && k.read(x.X) {
							elem = x
							short = shortRange(l, x)
						}
					}
				}
			}
			if elem == nil || fromTable && !c.returnsOrMarshals(k, f, makes) {
				continue
			}
			// every way around the loop takes the element over
			takes := func(b *ssa.BasicBlock) bool {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.MapUpdate:
						if k.table(x.Map) == "contacts" || fromTable && isContact(x.Value.Type()) {
							return true
						}
					case *ssa.Store:
						if fromTable && isContact(x.Val.Type()) {
							if _, local := x.Addr.(*ssa.Alloc); !local {
								return true
							}
						}
					case ssa.CallInstruction:
						for _, g := range c.p.targets(x.Common()) {
							for _, b := range g.Blocks {
								for _, in := range b.Instrs {
									if mu, ok := in.(*ssa.MapUpdate); ok && k.table(mu.Map) == "contacts" {
										return true
									}
								}
							}
						}
					}
				}
				return false
			}
			entry := elem.(ssa.Instruction).Block()
			why := short
			seen := map[*ssa.BasicBlock]bool{}
			var walk func(b *ssa.BasicBlock)
			walk = func(b *ssa.BasicBlock) {
				for _, n := range b.Succs {
					if !l.in[n] {
						continue
					}
					if n == l.head {
						why = "a contact may be left out"
						continue
					}
					if !seen[n] && !takes(n) {
						seen[n] = true
						walk(n)
					}
				}
			}
			if fromTable || !takes(entry) {
				walk(entry)
			}
			c.ob("all", fnName(f), f.Pos(), why == "", why)
		}
	}
	k.files()
}

// read: the slice is what a serialiser filled.
func (k *saved) read(v ssa.Value) bool {
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.FieldAddr:
			n, _ := derefT(x.X.Type()).(*types.Named)
			return n != nil && k.holds(n) == "contacts"
		case *ssa.Field:
			n, _ := derefT(x.X.Type()).(*types.Named)
			return n != nil && k.holds(n) == "contacts"
		default:
			return false
		}
	}
	return false
}

// returnsOrMarshals: the function makes the content of the file of contacts.
func (c *Check) returnsOrMarshals(k *saved, f *ssa.Function, makes map[*ssa.Function]bool) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if k.holds(rs.At(i).Type()) == "contacts" {
			for _, g := range c.p.callers[f] {
				if makes[g] {
					return true
				}
			}
		}
	}
	return makes[f]
}

// files: the name a table is saved under is that it was read from.
func (k *saved) files() {
	c := k.c
	to := map[string]*ssa.Global{}
	writes := names("os.WriteFile", "io/ioutil.WriteFile", "os.Create", "os.OpenFile")
	var loaders []*ssa.Function
	for _, f := range c.sortedFuncs() {
		if inCmd(f) || c.p.isGen(f.Pos()) {
			continue
		}
		if k.reads(f) {
			loaders = append(loaders, f)
		}
		marsh := ""
		look := func(g *ssa.Function) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if cc := callOf(in); cc != nil && k.marshalled(cc) != "" {
						marsh = k.marshalled(cc)
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cc := callOf(in); cc != nil && cc.StaticCallee() != nil && cc.StaticCallee().Pkg == f.Pkg {
					look(cc.StaticCallee())
				}
			}
		}
		look(f)
		if marsh == "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cc := callOf(in)
				if cc == nil || !writes(calleeName(cc)) || len(cc.Args) == 0 {
					continue
				}
				k.nameOf(cc.Args[0], f, marsh, to, map[ssa.Value]bool{})
			}
		}
	}
	for _, f := range loaders {
		f := f
		w := ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cc := callOf(in); cc != nil && strings.HasSuffix(calleeName(cc), ".Unmarshal") && len(cc.Args) == 2 {
					if mi, ok := cc.Args[1].(*ssa.MakeInterface); ok && k.holds(mi.X.Type()) != "" {
						w = k.holds(mi.X.Type())
					}
				}
			}
		}
		g := to[w]
		if g == nil {
			continue
		}
		res := &rootResult{inst: map[string]instRes{}}
		var e *Engine
		e = newEngine(c.p, Hooks{
			After: func(st *State, ci *CallInfo, r *Expr) {
				if ci.Name == "os.ReadFile" || ci.Name == "io/ioutil.ReadFile" || ci.Name == "os.Open" {
					st.record(Event{Kind: "sv.read", Args: ci.Args[:1], Pos: ci.Pos(), Fn: ci.In})
				}
			},
			Store: func(st *State, fr *Frame, in ssa.Instruction, addr, val *Expr) {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					var keep []*Event
					for _, ev := range st.ev {
						if ev.Kind != "sv.name" {
							keep = append(keep, ev)
						}
					}
					st.ev = keep
					st.record(Event{Kind: "sv.name", Args: []*Expr{val.strip()}, Pos: in.Pos(), Fn: fr.fn})
				}
			},
		})
		for _, x := range e.okExits(f, e.Run(f)) {
			ok := true
			for _, rd := range x.st.events("sv.read") {
				same := bareLoad(rd.Args[0]).obj == g.Object()
				for _, nm := range x.st.events("sv.name") {
					same = same || nm.Args[0] == rd.Args[0].strip()
				}
				ok = ok && same
			}
			res.put("same-file|"+fnName(f), x.pos, f, ok, "what is saved later goes to another file than what was read", "")
		}
		c.useBounded(e)
		for _, key := range res.order {
			r := res.inst[key]
			c.ob("same-file", fnName(f), r.pos, r.ok, r.detail)
		}
	}
}

// nameOf: the variable the name of a file is kept in.
func (k *saved) nameOf(v ssa.Value, f *ssa.Function, w string, to map[string]*ssa.Global, seen map[ssa.Value]bool) {
	if seen[v] || len(seen) > 20 {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			to[w] = g
		}
	case *ssa.BinOp:
		k.nameOf(x.X, f, w, to, seen)
	case *ssa.Parameter:
		for i, p := range f.Params {
			if p != x {
				continue
			}
			for _, h := range k.c.p.callers[f] {
				for _, b := range h.Blocks {
					for _, in := range b.Instrs {
						cc := callOf(in)
						if cc != nil && cc.StaticCallee() == f && !inCmd(h) {
							k.nameOf(cc.Args[i], h, w, to, seen)
						}
					}
				}
			}
		}
	}
}

// tags: the fields of what is kept are in the files.
func (k *saved) tags() {
	c := k.c
	for w, n := range k.kinds {
		s := n.Underlying().(*types.Struct)
		seen := map[string]bool{}
		ok, why := true, ""
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if !f.Exported() {
				continue
			}
			tag := reflect.StructTag(s.Tag(i)).Get("yaml")
			name := strings.Split(tag, ",")[0]
			if tag == "-" && !fleeting(f) {
				ok, why = false, "the field "+f.Name()+" is not kept in the file"
			}
			if name == "" {
				name = strings.ToLower(f.Name())
			}
			if seen[name] {
				ok, why = false, "two fields share the name "+name
			}
			seen[name] = true
		}
		c.ob("kept", w, n.Obj().Pos(), ok, why)
	}
}
