package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Finding is one violated obligation.
type Finding struct {
	Rule   string `json:"rule"`
	Key    string `json:"key"`
	Where  string `json:"where"`
	Detail string `json:"detail"`
	Path   string `json:"path,omitempty"`
	Known  bool   `json:"known,omitempty"`
}

// Check is one property's run.
type Check struct {
	ID        string
	Tier      string
	p         *Prog
	rules     map[string]int // rule -> obligations generated
	ok        map[string]int // rule -> obligations discharged
	findings  []Finding
	seenKey   map[string]bool
	samples   []string
	funcs     map[*ssa.Function]bool
	paths     int
	calls     int
	blocks    int
	engines   int
	notes     []string
	selftest  int
	expl      string
	assume    []string
	undecided map[string]bool
	fieldMins map[*types.Var]int64
}

type propDef struct {
	ID      string
	Expl    string
	Assume  []string
	Run     func(c *Check)
	Minimum map[string]int // rule -> least number of instances confirmed by hand
}

var registry = map[string]*propDef{}

func register(d *propDef) { registry[d.ID] = d }

// ob records one obligation (an instance of a rule).
func (c *Check) ob(rule, key string, pos token.Pos, good bool, detail string) {
	c.rules[rule]++
	where := c.p.pos(pos)
	if good {
		c.ok[rule]++
		if len(c.samples) < 40 {
			c.samples = append(c.samples, fmt.Sprintf("%s: %s @%s", rule, key, where))
		}
		return
	}
	c.fail(rule, key, where, detail, "")
}

func (c *Check) fail(rule, key, where, detail, path string) {
	k := rule + "|" + key
	if c.seenKey[k+"@"+where] {
		return
	}
	c.seenKey[k+"@"+where] = true
	c.findings = append(c.findings, Finding{Rule: rule, Key: k, Where: where, Detail: detail, Path: path})
}

// use adds an engine run to the statistics.
func (c *Check) use(e *Engine) {
	c.engines++
	c.paths += e.Paths
	c.calls += e.Calls
	c.blocks += e.Blocks
	if debugOn {
		type kv struct {
			k string
			n int
		}
		var l []kv
		for k, n := range e.stat {
			l = append(l, kv{k, n})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
		for i := 0; i < 125 && i < len(l); i++ {
			trace("STAT %6d %s", l[i].n, l[i].k)
		}
	}
	for f := range e.fnSeen {
		c.funcs[f] = true
	}
	if e.undecided != "" {
		c.fail("engine", "undecided:"+e.undecided, "?", "analysis could not decide: "+e.undecided, "")
	}
}

// useBounded is use for rules whose coverage is bounded: what the analysis
// could not decide within its limits is counted, not reported.
func (c *Check) useBounded(e *Engine) {
	if e.undecided != "" {
		c.undecided["limit:"+e.undecided] = true
		e.undecided = ""
	}
	c.use(e)
}

func (c *Check) note(f string, a ...interface{}) { c.notes = append(c.notes, fmt.Sprintf(f, a...)) }

// anchor resolves a function the rule is about; a missing anchor fails the check.
func (c *Check) anchor(name string) *ssa.Function {
	f := c.p.Fn(name)
	if f == nil {
		c.fail("anchor", name, "?", "the function this rule is anchored on does not exist any more: "+name, "")
	}
	return f
}

type knownEntry struct{ prop, key, text string }

func verifDir() string {
	if d := os.Getenv("VSA_VERIF"); d != "" {
		return d
	}
	exe, err := os.Executable()
	if err == nil {
		d := filepath.Dir(filepath.Dir(exe))
		if _, err := os.Stat(filepath.Join(d, "properties.jsonl")); err == nil {
			return d
		}
	}
	return "/verif"
}

// knownFindings reads "known: property=<id> key=<key> :: <what fails>" lines.
func knownFindings() []knownEntry {
	var out []knownEntry
	f, err := os.Open(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.Index(l, " key=")
		j := strings.Index(l, " :: ")
		if i < 0 || j < i {
			continue
		}
		out = append(out, knownEntry{l[:i], l[i+5 : j], l[j+4:]})
	}
	return out
}

func runCheck(id, tier string) int {
	start := time.Now()
	def := registry[id]
	if def == nil {
		fmt.Printf("unknown property %s\n", id)
		return emit(&Check{ID: id, Tier: tier}, start, []Finding{{Rule: "driver", Key: "unknown property", Where: "?", Detail: "no such check"}}, nil)
	}
	c := &Check{ID: id, Tier: tier, rules: map[string]int{}, ok: map[string]int{}, seenKey: map[string]bool{}, undecided: map[string]bool{}, funcs: map[*ssa.Function]bool{}, expl: def.Expl, assume: def.Assume}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("VSA_DEBUG") != "" {
					panic(r)
				}
				c.findings = append(c.findings, Finding{Rule: "driver", Key: "driver|panic", Where: "?", Detail: fmt.Sprintf("the analysis failed: %v", r)})
			}
		}()
		p, err := loadProg(repoDir())
		if err != nil {
			c.findings = append(c.findings, Finding{Rule: "load", Key: "load|error", Where: repoDir(), Detail: err.Error()})
			return
		}
		c.p = p
		def.Run(c)
		for r, n := range def.Minimum {
			if c.rules[r] < n {
				c.fail("coverage", r, "?", fmt.Sprintf("rule %s matched %d instances, at least %d were confirmed by hand: the code it is anchored on is gone or unrecognisable", r, c.rules[r], n), "")
			}
		}
	}()
	known := map[string]string{}
	for _, k := range knownFindings() {
		if k.prop == id {
			known[k.key] = k.text
		}
	}
	var bad, kn []Finding
	usedKnown := map[string]bool{}
	for _, f := range c.findings {
		if t, ok := known[f.Key]; ok {
			f.Known = true
			kn = append(kn, f)
			if !usedKnown[f.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s at %s]\n", id, t, f.Key, f.Where)
			}
			usedKnown[f.Key] = true
			continue
		}
		bad = append(bad, f)
	}
	return emit(c, start, bad, kn)
}

func emit(c *Check, start time.Time, bad, kn []Finding) int {
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0755)
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	tier := c.Tier
	if tier != "thorough" {
		tier = "quick"
	}
	nOb, nOk := 0, 0
	for r, n := range c.rules {
		nOb += n
		nOk += c.ok[r]
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, fnName(f))
	}
	sort.Strings(fns)
	nfn := len(fns)
	if len(fns) > 60 {
		fns = fns[:60]
	}
	sort.Strings(c.samples)
	pk, af := 0, 0
	if c.p != nil {
		pk, af = len(c.p.Pkgs), len(c.p.Funcs)
	}
	cov := map[string]interface{}{
		"explanation":         c.expl,
		"rule_instances":      c.rules,
		"rule_discharged":     c.ok,
		"obligations_total":   nOb,
		"obligations_ok":      nOk,
		"packages_loaded":     pk,
		"functions_in_module": af,
		"functions_analysed":  nfn,
		"functions_sample":    fns,
		"dataflow_runs":       c.engines,
		"paths_to_exit":       c.paths,
		"call_sites_visited":  c.calls,
		"blocks_visited":      c.blocks,
		"self_test_matches":   c.selftest,
		"samples":             c.samples,
		"known_findings":      kn,
		"notes":               c.notes,
	}
	if len(c.undecided) > 0 {
		var u []string
		for k := range c.undecided {
			u = append(u, k)
		}
		sort.Strings(u)
		cov["undecided_counted_not_reported"] = len(u)
		cov["undecided"] = u
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "assumptions": c.assume, "violations": len(bad),
	}
	if c.assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0644)
	fmt.Printf("%s: %d rule instances, %d discharged, %d functions, %d dataflow runs, %d known findings, %.1fs\n", c.ID, nOb, nOk, nfn, c.engines, len(kn), time.Since(start).Seconds())
	rp := filepath.Join(dir, c.ID+".violation.txt")
	if len(bad) == 0 {
		os.Remove(rp)
		return 0
	}
	var sb strings.Builder
	for _, f := range bad {
		fmt.Fprintf(&sb, "rule %s\n  at %s\n  instance %s\n  %s\n", f.Rule, f.Where, f.Key, f.Detail)
		if f.Path != "" {
			fmt.Fprintf(&sb, "  path %s\n", f.Path)
		}
	}
	os.WriteFile(rp, []byte(sb.String()), 0644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rp)
	return 1
}
