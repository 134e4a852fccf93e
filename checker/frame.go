package main

// Rule framework: obligations, reports, evidence.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Viol struct {
	Rule      string
	Construct string
	Pos       string
	Msg       string
}

func (v Viol) key() string { return v.Rule + "@" + v.Construct }

type Ctx struct {
	P        *Program
	Prop     string
	Tier     string
	viols    []Viol
	obl      map[string]int // rule -> obligations
	done     map[string]int // rule -> discharged
	funcs    map[string]bool
	paths    int
	sites    map[string]bool
	loops    int
	samples  []string
	assume   map[string]bool
	floors   []string
	analyses map[string]*Analysis
	// onAnalysis is called with every analysis that is made
	onAnalysis func(a *Analysis)
}

func newCtx(P *Program, id, tier string) *Ctx {
	if signalFields == nil && P != nil {
		findSignalFields(P)
	}
	return &Ctx{P: P, Prop: id, Tier: tier, obl: map[string]int{}, done: map[string]int{}, funcs: map[string]bool{}, sites: map[string]bool{}, assume: map[string]bool{}, analyses: map[string]*Analysis{}}
}

// absorb accounts for what another context analysed.
func (c *Ctx) absorb(o *Ctx) {
	for k := range o.funcs {
		c.funcs[k] = true
	}
	for k := range o.sites {
		c.sites[k] = true
	}
	for k := range o.assume {
		c.assume[k] = true
	}
	c.paths += o.paths
	c.loops += o.loops
	for _, v := range o.viols {
		dup := false
		for _, x := range c.viols {
			dup = dup || x == v
		}
		if !dup {
			c.obl[v.Rule]++
			c.viols = append(c.viols, v)
		}
	}
}

func (c *Ctx) ok(rule, construct, format string, a ...any) {
	c.obl[rule]++
	c.done[rule]++
	if len(c.samples) < 40 {
		s := fmt.Sprintf("%s: %s: %s", rule, construct, fmt.Sprintf(format, a...))
		for _, x := range c.samples {
			if x == s {
				return
			}
		}
		n := 0
		for _, x := range c.samples {
			if strings.HasPrefix(x, rule+": ") {
				n++
			}
		}
		if n < 4 {
			c.samples = append(c.samples, s)
		}
	}
}

func (c *Ctx) fail(rule, construct string, pos token.Pos, format string, a ...any) {
	c.obl[rule]++
	v := Viol{Rule: rule, Construct: construct, Pos: c.P.pos(pos), Msg: fmt.Sprintf(format, a...)}
	for _, x := range c.viols {
		if x == v {
			return
		}
	}
	c.viols = append(c.viols, v)
}

// require records one obligation.
func (c *Ctx) require(cond bool, rule, construct string, pos token.Pos, format string, a ...any) bool {
	if cond {
		c.ok(rule, construct, format, a...)
	} else {
		c.fail(rule, construct, pos, format, a...)
	}
	return cond
}

// floor fails when fewer instances were found than confirmed by reading the
// code: a rule that matches nothing must not pass.
func (c *Ctx) floor(rule string, got, want int) {
	c.floors = append(c.floors, fmt.Sprintf("%s: %d instances (at least %d expected)", rule, got, want))
	if got < want {
		c.fail(rule, "coverage", token.NoPos, "only %d instances found, at least %d expected: the rule's anchors were not recognised", got, want)
	}
}

func (c *Ctx) site(e *Event) {
	if e.Pos.IsValid() {
		c.sites[c.P.pos(e.Pos)+" "+e.Kind] = true
	}
}

type Analysis struct {
	Name string
	Fn   *ssa.Function
	Args []*Term
	Outs []*Outcome
	Err  error
	In   *Interp
}

// analyze runs the abstract interpreter on a function and accounts for it.
func (c *Ctx) analyze(fn *ssa.Function, args, binds []*Term, st *State, cfg Config) *Analysis {
	in := newInterp(c.P.Prog, cfg)
	if st == nil {
		st = newState()
	}
	if args == nil {
		args = ParamTerms(fn)
	}
	a := &Analysis{Fn: fn, Name: shortFn(fn), Args: args, In: in}
	a.Outs, a.Err = in.Analyze(fn, args, binds, st)
	c.account(a)
	if c.onAnalysis != nil {
		c.onAnalysis(a)
	}
	return a
}

func (c *Ctx) account(a *Analysis) {
	c.funcs[a.Name] = true
	c.paths += len(a.Outs)
	seen := map[*Event]bool{}
	var ev func(es []*Event)
	ev = func(es []*Event) {
		for _, e := range es {
			if seen[e] {
				continue
			}
			seen[e] = true
			switch e.Kind {
			case "ld", "st", "append", "defer":
			default:
				c.site(e)
			}
			if e.Kind == "st" && e.Args[0].Op == "sym" && isSliceT(e.Args[0].Typ) && e.Recv.Op == "fieldaddr" && rootOf(e.Recv).Op != "alloc" {
				pathAlias[e.Args[0]] = addrPath(e.Recv)
			}
			if e.Fn != nil {
				c.funcs[shortFn(e.Fn)] = true
			}
			if e.Loop != nil {
				c.loops++
				for _, it := range e.Loop.Iters {
					c.paths++
					ev(it.Events)
				}
			}
			if e.Task != nil {
				for _, o := range e.Task.Outs {
					c.paths++
					ev(o.Events())
				}
			}
		}
	}
	for _, o := range a.Outs {
		ev(o.Events())
	}
}

// mustFn resolves an anchor; a missing anchor is a failure.
func (c *Ctx) mustFn(name string) *ssa.Function {
	f := c.P.fn(name)
	if f == nil {
		c.fail("anchor", name, token.NoPos, "the function this property is about does not exist any more")
	}
	return f
}

func (c *Ctx) undecided(rule, construct string, pos token.Pos, err error) {
	c.fail(rule, construct, pos, "undecided: %v", err)
}

type Check struct {
	ID    string
	Title string
	Rule  string
	Run   func(c *Ctx)
	Trust []string
}

var checks = map[string]*Check{}

func register(id, rule string, run func(c *Ctx), trust ...string) {
	checks[id] = &Check{ID: id, Rule: rule, Run: run, Trust: trust}
}

type known struct {
	prop, key, text string
}

func loadKnown(file string) []known {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var r []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		k := known{text: l}
		for _, f := range strings.Fields(l) {
			if strings.HasPrefix(f, "property=") {
				k.prop = strings.TrimPrefix(f, "property=")
			}
			if strings.HasPrefix(f, "key=") {
				k.key = strings.TrimPrefix(f, "key=")
			}
		}
		r = append(r, k)
	}
	return r
}

func runCheck(P *Program, loadErr error, id, tier, verif string, seed int) int {
	start := time.Now()
	ch := checks[id]
	c := newCtx(P, id, tier)
	if ch == nil {
		fmt.Printf("unknown property %s\n", id)
		return 1
	}
	if loadErr != nil {
		c.P = &Program{}
		c.viols = append(c.viols, Viol{Rule: "load", Construct: "program", Msg: loadErr.Error()})
	} else {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if os.Getenv("VERIF_DEBUG") != "" {
						panic(r)
					}
					c.viols = append(c.viols, Viol{Rule: "internal", Construct: "checker", Msg: fmt.Sprintf("undecided: the analysis stopped: %v", r)})
				}
			}()
			TT = newTermTab()
			ch.Run(c)
		}()
	}
	// split known findings from new violations
	kn := loadKnown(filepath.Join(verif, "known_findings.txt"))
	var fresh []Viol
	printed := map[string]bool{}
	for _, v := range c.viols {
		hit := false
		for _, k := range kn {
			if k.prop == id && k.key == v.key() {
				hit = true
				if !printed[k.key] {
					printed[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s %s: %s\n", id, v.key(), v.Pos, v.Msg)
				}
			}
		}
		if !hit {
			fresh = append(fresh, v)
		}
	}
	writeEvidence(c, ch, verif, tier, seed, time.Since(start), len(fresh))
	if len(fresh) == 0 {
		no, nd := 0, 0
		for _, n := range c.obl {
			no += n
		}
		for _, n := range c.done {
			nd += n
		}
		fmt.Printf("%s holds: %d functions, %d paths, %d call sites, %d loops, %d/%d obligations discharged in %.1fs\n", id, len(c.funcs), c.paths, len(c.sites), c.loops, nd, no, time.Since(start).Seconds())
		return 0
	}
	rep := filepath.Join(verif, "evidence", "replay-"+id+".txt")
	var b strings.Builder
	fmt.Fprintf(&b, "property %s: %s\nre-run: %s/check.sh %s %s\n\n", id, ch.Rule, verif, id, tier)
	for _, v := range fresh {
		fmt.Fprintf(&b, "%s: [%s] %s: %s\n", v.Pos, v.Rule, v.Construct, v.Msg)
	}
	os.WriteFile(rep, []byte(b.String()), 0o644)
	for i, v := range fresh {
		if i == 25 {
			fmt.Printf("... and %d more, see %s\n", len(fresh)-i, rep)
			break
		}
		fmt.Printf("%s: [%s] %s: %s\n", v.Pos, v.Rule, v.Construct, v.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
	return 1
}

func writeEvidence(c *Ctx, ch *Check, verif, tier string, seed int, d time.Duration, nv int) {
	no, nd := 0, 0
	per := map[string]any{}
	var rules []string
	for r := range c.obl {
		rules = append(rules, r)
	}
	sort.Strings(rules)
	for _, r := range rules {
		no += c.obl[r]
		nd += c.done[r]
		per[r] = map[string]int{"obligations": c.obl[r], "discharged": c.done[r]}
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var sites []string
	for s := range c.sites {
		sites = append(sites, s)
	}
	sort.Strings(sites)
	as := []string{}
	for a := range c.assume {
		as = append(as, a)
	}
	for _, t := range ch.Trust {
		as = append(as, t)
	}
	sort.Strings(as)
	cov := map[string]any{
		"explanation":        "Static analysis of the current source tree (abstract interpretation over its SSA form, every path of the listed functions, loops summarised by inductive invariants, recursion by contract). Rule applied: " + ch.Rule,
		"functions_analysed": fns,
		"functions":          len(fns),
		"abstract_paths":     c.paths,
		"loops_summarised":   c.loops,
		"call_sites":         len(sites),
		"call_site_list":     sites,
		"obligations":        no,
		"discharged":         nd,
		"rules":              per,
		"instance_floors":    c.floors,
		"samples":            c.samples,
	}
	ev := map[string]any{
		"property":    c.Prop,
		"tier":        tier,
		"seed":        seed,
		"level":       "other",
		"coverage":    cov,
		"assumptions": as,
		"wall_s":      d.Seconds(),
		"violations":  nv,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", c.Prop+".json"), append(b, '\n'), 0o644)
}

type tokenPos = token.Pos

func isSliceT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}
