package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&propDef{
		ID: "C17",
		Expl: "Every function of the library was enumerated that sends a request to the server (a method of the transporter, or http.Client.Do), hands the response of one on, or calls an error-returning function that does, and each was run through the path-sensitive dataflow engine. " +
			"Obligations on every way out that reports no error: the error of each request and of each such call is known to be nil; the status of each response is known to lie in 200..299 (or to be one particular status answered with a further request); every reading or decoding step performed after the request is known to have succeeded. " +
			"A function that hands the response itself to its caller owes only the error; its callers owe the rest. The transporter's own methods were checked to report the status they received.",
		Assume: []string{
			"the decoders of the standard library and of protobuf report malformed input",
			"a function that reads nothing of an answer owes no decoding",
		},
		Minimum: map[string]int{"request": 25, "decode": 15, "wrapper": 9, "caller": 40},
		Run:     runC17,
	})
}

var decodeLeaf = names("encoding/json.Decoder.Decode", "encoding/json.Unmarshal", "google.golang.org/protobuf/proto.Unmarshal", "github.com/golang/protobuf/proto.Unmarshal", "io.ReadAll", "io/ioutil.ReadAll", "bytes.Buffer.ReadFrom", "io.Copy", "io.ReadFull")

// responseT: the type of a server's answer, and the name of its status field.
func responseT(t types.Type) string {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	switch n.Obj().Pkg().Path() {
	case "net/http":
		if n.Obj().Name() == "Response" {
			return "StatusCode"
		}
	case Mod + "/transport":
		s, ok := n.Underlying().(*types.Struct)
		for i := 0; ok && i < s.NumFields(); i++ {
			if s.Field(i).Name() == "Status" {
				return "Status"
			}
		}
	}
	return ""
}

func responseIndex(sig *types.Signature) int {
	for i := 0; i < sig.Results().Len(); i++ {
		if responseT(sig.Results().At(i).Type()) != "" {
			return i
		}
	}
	return -1
}

func (e *Engine) statusOf(st *State, resp *Expr) *Expr {
	name := responseT(resp.t)
	s := resp.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); f.Name() == name {
			return e.read(st, e.fieldAddr(resp, f, i), f.Type())
		}
	}
	return nil
}

// isHTTP: a call that sends a request and returns the answer.
func isHTTP(cc *ssa.CallCommon) bool {
	return isRequest(cc) && !strings.HasPrefix(calleeName(cc), "github.com/gorilla/websocket.")
}

func runC17(c *Check) {
	c.requests(func(f *ssa.Function) bool { return true })
}

// requests decides C17 for the functions kept.
func (c *Check) requests(keep func(f *ssa.Function) bool) {
	reach := c.p.reachesCall(isHTTP)
	// answers: requests, and functions that hand on the response of one
	answers := func(cc *ssa.CallCommon) bool {
		if responseIndex(cc.Signature()) < 0 {
			return false
		}
		if isHTTP(cc) {
			return true
		}
		for _, t := range c.p.targets(cc) {
			if reach[t] {
				return true
			}
		}
		return false
	}
	car := map[*ssa.Function]bool{}
	for f := range reach {
		if errResult(f.Signature) >= 0 && responseIndex(f.Signature) < 0 && !c.p.isGen(f.Pos()) && !inCmd(f) && f.Synthetic == "" {
			car[f] = true
		}
	}
	for f := range c.bestEffort(isHTTP, car) {
		delete(car, f)
	}
	hit := func(cc *ssa.CallCommon) bool {
		if answers(cc) {
			return true
		}
		for _, t := range c.p.targets(cc) {
			if car[t] {
				return true
			}
		}
		return false
	}
	var start []*ssa.Function
	for _, f := range c.p.AllFuncs {
		if inCmd(f) || c.p.isGen(f.Pos()) || f.Synthetic != "" || f.Blocks == nil || strings.HasPrefix(fnName(f), "ts/crayfish.") || !keep(f) {
			continue
		}
		has := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && hit(ci.Common()) {
					has = true
				}
			}
		}
		if has {
			start = append(start, f)
		}
	}
	sort.Slice(start, func(i, j int) bool { return start[i].Pos() < start[j].Pos() })
	for _, f := range start {
		c.requestIn(f, answers, hit)
	}
}

func (c *Check) requestIn(f *ssa.Function, answers, hit func(cc *ssa.CallCommon) bool) {
	type site struct {
		rule, bad, at string
		call          ssa.CallInstruction
	}
	sites := map[string]*site{}
	var order []string
	wrapper := responseIndex(f.Signature) >= 0
	var e *Engine
	kind := func(ci *CallInfo) string {
		if ci.Site == nil || ci.Go || ci.Defer {
			return ""
		}
		cc := ci.Site.Common()
		switch {
		case answers(cc):
			if wrapper {
				return "wrapper"
			}
			return "request"
		case hit(cc):
			return "caller"
		case decodeLeaf(calleeName(cc)):
			return "decode"
		}
		return ""
	}
	h := Hooks{
		Call: func(st *State, ci *CallInfo) Action {
			if k := kind(ci); k != "" || goesOnWithout(ci.Name) {
				return Opaque
			}
			return Default
		},
		After: func(st *State, ci *CallInfo, r *Expr) {
			k := kind(ci)
			if k == "" || ci.In != f && !(k == "decode" && readsAnswer(ci.In)) {
				return
			}
			if k == "decode" && (wrapper || len(st.events("answer")) == 0) {
				return
			}
			if k != "decode" {
				st.record(Event{Kind: "later", Name: k, Pos: ci.Pos()})
				if k != "caller" || givesReader(ci.Site.Common().Signature()) && !goesOnWithout(ci.Name) {
					st.record(Event{Kind: "answer", Name: k, Pos: ci.Pos()})
				}
			}
			if k == "decode" {
				for _, a := range ci.Args {
					if e.fromCall(a, goesOnWithout) {
						return
					}
				}
			}
			id := k + "@" + c.p.pos(ci.Site.Pos())
			if sites[id] == nil {
				sites[id] = &site{call: ci.Site, rule: k}
				order = append(order, id)
			}
			ev := Event{Kind: "must", Name: k, Pending: k != "request" && k != "wrapper", Args: ci.Args, Res: r, Pos: ci.Pos(), Fn: ci.In, Ctx: ci.Ctx, Err: e.errOf(ci.Site, r)}
			if i := responseIndex(ci.Site.Common().Signature()); i >= 0 && (k == "request" || k == "wrapper") {
				sig := ci.Site.Common().Signature()
				ev.Vals = []*Expr{e.result(r, i, sig.Results().Len(), sig.Results().At(i).Type())}
			}
			st.record(ev)
		}}
	h.Inline = func(fn *ssa.Function, ci *CallInfo) (bool, bool) {
		if readsAnswer(fn) && !c.p.callsAny(fn, hit) {
			return true, true
		}
		return false, false
	}
	e = newEngine(c.p, h)
	exits := e.Run(f)
	c.useBounded(e)
	if errResult(f.Signature) < 0 {
		for i := 0; i < len(order); i++ {
			if sites[order[i]].rule == "caller" { // the exported operation above it has reported
				order = append(order[:i], order[i+1:]...)
				i--
			}
		}
		for _, k := range order {
			sites[k].bad = "its failure cannot be reported: " + fnName(f) + " has no error result"
			sites[k].at = c.p.pos(f.Pos())
		}
	} else {
		for _, x := range e.okExits(f, exits) {
			for _, ev := range x.st.events("must") {
				s := sites[ev.Name+"@"+c.p.pos(ev.Pos)]
				if s == nil || s.bad != "" {
					continue
				}
				if ev.Err != nil && x.st.isNil(ev.Err) != 1 && !otherError(x.st, ev.Err) {
					s.bad, s.at = "its failure is not reported", c.p.pos(x.pos)
					continue
				}
				if ev.Name == "wrapper" && len(ev.Vals) == 1 && responseT(ev.Vals[0].t) == "StatusCode" {
					if w := e.statusKept(x, f, ev.Vals[0]); w != "" {
						s.bad, s.at = w, c.p.pos(x.pos)
					}
				}
				if ev.Name != "request" {
					continue
				}
				lo, hi := x.st.interval(e.linOf(e.statusOf(x.st, ev.Vals[0])))
				later := x.st.events("later")
				again := len(later) > 0 && later[len(later)-1].Pos != ev.Pos
				if !(lo >= 200 && hi <= 299) && !(lo == hi && lo > 0 && again) {
					s.bad, s.at = fmt.Sprintf("an error status (known: %s) is not reported", spanText(lo, hi)), c.p.pos(x.pos)
				}
			}
		}
	}
	for _, k := range order {
		s := sites[k]
		c.ob(s.rule, fmt.Sprintf("%s:%s", fnName(f), calleeName(s.call.Common())), s.call.Pos(), s.bad == "", s.bad+" (way out: "+s.at+")")
	}
}

// givesReader: the results include the body of an answer.
func givesReader(sig *types.Signature) bool {
	for i := 0; i < sig.Results().Len(); i++ {
		if n, ok := sig.Results().At(i).Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io" {
			return true
		}
	}
	return false
}

func spanText(lo, hi int64) string {
	a, b := fmt.Sprint(lo), fmt.Sprint(hi)
	if lo == negInf {
		a = "-"
	}
	if hi == posInf {
		b = "-"
	}
	return a + ".." + b
}

// statusKept: the answer handed on carries the status that was received.
func (e *Engine) statusKept(x *Exit, f *ssa.Function, resp *Expr) string {
	i := responseIndex(f.Signature)
	r := x.rets[i]
	if responseT(r.t) == "StatusCode" || x.st.isNil(r) == 1 {
		return ""
	}
	got, want := e.statusOf(x.st, r), e.statusOf(x.st, resp)
	if got == want {
		return ""
	}
	if lo, hi := x.st.interval(e.linOf(got)); hi < 200 || lo > 299 {
		return ""
	}
	return "the answer handed on does not carry the received status (" + got.String() + ")"
}

// readsAnswer: a helper that is given an answer, or its body, and decodes it.
func readsAnswer(f *ssa.Function) bool {
	given := false
	for _, p := range f.Params {
		if responseT(p.Type()) != "" {
			given = true
		}
		if n, ok := p.Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io" {
			given = true
		}
	}
	if !given {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && decodeLeaf(calleeName(ci.Common())) {
				return true
			}
		}
	}
	return false
}

// callsAny: f itself contains a call that m accepts.
func (p *Prog) callsAny(f *ssa.Function, m func(cc *ssa.CallCommon) bool) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && m(ci.Common()) {
				return true
			}
		}
	}
	return false
}
