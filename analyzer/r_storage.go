package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var writeLeaf = names("os.WriteFile", "io/ioutil.WriteFile", "os.Rename", "os.Create", "os.OpenFile", "os.File.Write", "os.File.WriteString", "os.File.WriteAt", "os.File.Sync", "os.File.Truncate")

// goesOnWithout: the refresh of a group from the server, a profile picture,
// the publication of the own profile.
var goesOnWithout = names("ts/groupsv2.GroupV2.UpdateGroupFromServer", "ts/profiles.GetRemoteAvatar", "ts/profiles.UpdateProfile")

func init() {
	register(&propDef{
		ID: "C18",
		Expl: "Every function of the library was enumerated that writes a file itself or calls an error-returning function that does, and each was run through the path-sensitive dataflow engine. " +
			"Obligation per call site: on every way out of the enclosing function that does not report an error, the error result of the call is known to be nil (or known to be an error kind this module declares, an answer about the message and no storage failure). A function without an error result discharges nothing: it may not contain such a call.",
		Assume: []string{
			"the file-writing functions of the standard library report their own failures",
			"profile pictures (created with os.Create in package profiles), the program the crayfish package starts, removals and directory creation are not protocol state",
			"a caller of the refresh of a group from the server, and of the copy of a sent message to the user's own devices, may go on without it",
		},
		Minimum: map[string]int{"write-failure-reported": 50},
		Run:     runC18,
	})
}

func inCmd(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil && strings.Contains(g.Pkg.Pkg.Path(), "/cmd/") {
			return true
		}
	}
	return false
}

func runC18(c *Check) {
	leaf := func(cc *ssa.CallCommon) bool { return writeLeaf(calleeName(cc)) }
	car := c.carriers(leaf, func(f *ssa.Function) bool { return !inCmd(f) })
	for f := range c.bestEffort(leaf, car) {
		delete(car, f)
	}
	c.propagate("write-failure-reported", leaf, car, func(f *ssa.Function) bool {
		return inCmd(f) || strings.HasPrefix(fnName(f), "ts/crayfish.") || c.p.isGen(f.Pos()) || f.Synthetic != ""
	}, nil)
}

// bestEffort: steps the program may go on without - the refresh of a group
// from the server, the copy of a sent message to the user's own devices - and
// the functions that do nothing but those.
func (c *Check) bestEffort(leaf func(cc *ssa.CallCommon) bool, car map[*ssa.Function]bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for f := range car {
		if goesOnWithout(fnName(f)) || takesSync(f) || savesPicture(f) {
			out[f] = true
		}
	}
	for grown := true; grown; {
		grown = false
		for f := range car {
			if out[f] {
				continue
			}
			only, n := true, 0
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if leaf(ci.Common()) {
						only = false
					}
					for _, t := range c.p.targets(ci.Common()) {
						if car[t] {
							n++
							only = only && out[t]
						}
					}
				}
			}
			if only && n > 0 {
				out[f], grown = true, true
			}
		}
	}
	return out
}

// savesPicture: f, of the profile package, creates a file for a picture.
func savesPicture(f *ssa.Function) bool {
	if !strings.HasPrefix(fnName(f), "ts/profiles.") {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && calleeName(ci.Common()) == "os.Create" {
				return true
			}
		}
	}
	return false
}

// takesSync: f is given the synchronisation message it sends.
func takesSync(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isPtrTo(p.Type(), "SyncMessage") {
			return true
		}
	}
	return false
}

func isPtrTo(t types.Type, name string) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := pt.Elem().(*types.Named)
	return ok && n.Obj().Name() == name
}

// isRequest: a call that talks to the network.
func isRequest(cc *ssa.CallCommon) bool {
	n := calleeName(cc)
	return strings.HasPrefix(n, "ts/transport.Transporter.") || strings.HasPrefix(n, "ts/transport.httpTransporter.") || names("net/http.Client.Do", "net/http.Get", "net/http.Post", "github.com/gorilla/websocket.Conn.WriteMessage", "github.com/gorilla/websocket.Dialer.Dial")(n)
}
