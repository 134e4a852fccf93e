package main

// An automaton for the parallel sorting algorithms of package psort. It runs
// over the paths (with loop summaries) that the abstract interpreter finds for
// Sort, StableSort, IsSorted and their recursive helpers.
//
// A position range of the data is described by a pair of linear terms. What is
// known about the elements of a range is a segment:
//
//	L, G  not greater / not less than the pivot (quicksort)
//	O     the pairs (k-1, k) are in order (test for sortedness)
//	R     sorted, and a permutation of the same positions of the original data
//
// Loops are summarised by the largest set of candidate facts (inequalities
// between loop variables and bounds, segments between them, results of
// comparisons next to them, positions of merge cuts) that holds on entry and is
// preserved by every path through the body.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const sortPkg = modulePath + "/psort."
const specPkg = modulePath + "/speculative."

// ---- operations on the data

type sop struct {
	kind     string // less swap ssort copy
	arr, src *Term
	a, b, n  *Term
}

func arrOf(t *Term) *Term {
	for t != nil && (t.Op == "mkiface" || t.Op == "assert") {
		t = t.Args[0]
	}
	return t
}

func sortOp(e *Event) *sop {
	switch e.Kind {
	case "invoke":
		switch e.Name {
		case "Less":
			return &sop{kind: "less", arr: arrOf(e.Recv), a: e.Args[0], b: e.Args[1]}
		case "Swap":
			return &sop{kind: "swap", arr: arrOf(e.Recv), a: e.Args[0], b: e.Args[1]}
		case "SequentialSort":
			return &sop{kind: "ssort", arr: arrOf(e.Recv), a: e.Args[0], b: e.Args[1]}
		}
	case "user":
		if e.Recv != nil && e.Recv.Op == "res" && len(e.Args) == 3 {
			if p, ok := e.Recv.Ref.(*Event); ok && p.Kind == "invoke" && p.Name == "Assign" {
				return &sop{kind: "copy", arr: arrOf(p.Recv), src: arrOf(p.Args[0]), a: e.Args[0], b: e.Args[1], n: e.Args[2]}
			}
		}
	}
	return nil
}

// allEvents walks the events of a path, those of loops and tasks included.
func allEvents(es []*Event, f func(e *Event)) {
	for _, e := range es {
		f(e)
		if e.Loop != nil {
			for _, it := range e.Loop.Iters {
				allEvents(it.Events, f)
			}
		}
		if e.Task != nil && (e.Kind == "go" || e.Kind == "parrange") {
			for _, o := range e.Task.Outs {
				allEvents(o.Events(), f)
			}
		}
	}
}

// ---- analysis contexts

type psFail struct {
	rule, construct string
	pos             token.Pos
	msg             string
}

type psCtx struct {
	root  bool
	fn    *ssa.Function
	first *Event
	key   string
	ints  []*Term // the integer parameters
	args  []*Term
	binds []*Term
	kind  string // sort test merge
	outs  map[int]*Analysis
	colls map[int][]psFail
	sites []psSite
	x, y  *Term // merge: source and destination
}

type psSite struct {
	e *Event
	f *Facts
}

// a reading of a helper's integer parameters
type psHyp struct {
	name string
	idx  []int
	how  int
}

type psMachine struct {
	c      *Ctx
	mode   byte // q: quicksort, t: test, s: merge sort
	root   *ssa.Function
	data   *Term
	length *Term
	ctxs   map[string]*psCtx
	order  []*psCtx
	hyps   map[*psCtx]*psHyp
	fails  []psFail
	count  map[string]int
	mute   int
	cur    *psCtx
	curH   *psHyp
	skip   *CallInfo
	coll   bool
	cutIS  bool
	shared *Ctx
	lo, hi *Term // region of the function being analysed
	colls  []psFail
	panics bool
	flag   map[*Term]string
	mg     *mergeSpec
	rootA  *Analysis
	ended  map[*ssa.BasicBlock]bool // loops looked at for termination
}

func (m *psMachine) fail(rule string, pos token.Pos, format string, a ...any) {
	if m.mute > 0 {
		return
	}
	m.fails = append(m.fails, psFail{rule, m.name(), pos, fmt.Sprintf(format, a...)})
}

func (m *psMachine) good(rule string) {
	if m.mute == 0 {
		m.count[rule]++
	}
}

func (m *psMachine) name() string {
	if m.cur != nil && !m.cur.root {
		return shortFn(m.cur.fn)
	}
	return shortFn(m.root)
}

func (m *psMachine) check(ok bool, rule string, pos token.Pos, format string, a ...any) bool {
	if ok {
		m.good(rule)
	} else {
		m.fail(rule, pos, format, a...)
	}
	return ok
}

// ---- configuration of the abstract interpreter

func (m *psMachine) cfg() Config {
	return Config{Contract: m.contract, UserPanics: m.panics, PureInvk: func(ci *CallInfo) *Term {
		if ci.Name == "Len" && arrOf(ci.Recv) == m.data {
			return m.length
		}
		return nil
	}}
}

func (m *psMachine) contract(in *Interp, ci *CallInfo, st *State) ([]*Outcome, bool) {
	if ci == m.skip {
		return nil, false
	}
	if outs, ok := parContract(in, ci, st); ok {
		return outs, true
	}
	if ci.Kind == "static" {
		switch ci.Name {
		case sortPkg + "IsSorted":
			if m.cutIS {
				fr := &frame{fn: ci.Caller}
				ev := in.event(fr, st, &Event{Kind: "issorted", Pos: sitePos(ci.Site), Args: ci.Args})
				ev.Res = mk("res", fmt.Sprintf("%d.0", ev.ID), tyBool, ev)
				st.havoc()
				outs := []*Outcome{{Kind: "ret", St: st, Res: []*Term{ev.Res}}}
				if m.panics {
					ps := st.clone()
					pv := mk("panicval", fmt.Sprint(ev.ID), nil, ev)
					in.event(fr, ps, &Event{Kind: "panicked", Pos: ev.Pos, Args: []*Term{pv}})
					outs = append(outs, &Outcome{Kind: "panic", St: ps, PV: pv})
				}
				return outs, true
			}
		case specPkg + "And", specPkg + "Or":
			l := in.asList(st, ci.Args[0])
			if l == nil {
				in.fail("%s is called with a list of functions the analysis cannot enumerate", ci.Name)
			}
			return in.specDo(st, ci, l.Args), true
		case "sort.Search":
			if ci.Args[1].Op == "closure" || ci.Args[1].Op == "func" {
				return m.search(in, ci, st), true
			}
		}
	}
	if m.coll && (ci.Kind == "static" || ci.Kind == "closure") && ci.Fn != nil && ci.Fn.Blocks != nil && inRepo(ci.Fn) && ci.Sig.Results().Len() == 1 && isIntType(ci.Sig.Results().At(0).Type()) {
		return m.collapse(in, ci, st)
	}
	return nil, false
}

// specDo is the contract of And and Or of package speculative (C07-C09): the
// functions are all started, at the same time; the result is that of the
// left-to-right evaluation, and functions to the right of the decisive one may
// still be running when it is returned.
func (in *Interp) specDo(st *State, ci *CallInfo, fns []*Term) []*Outcome {
	fr := &frame{fn: ci.Caller}
	op := strings.TrimPrefix(ci.Name, specPkg)
	ev := in.event(fr, st, &Event{Kind: "pardo", Name: "spec" + op, Pos: sitePos(ci.Site), Args: fns})
	base := len(st.tasks)
	for _, f := range fns {
		c2 := *ci
		c2.Args = nil
		c2.Sig = types.NewSignatureType(nil, nil, nil, nil, resTuple(op), false)
		setCallee(&c2, f)
		in.spawn(fr, st, &c2)
	}
	var outs []*Outcome
	// a panic of the left-most function is rethrown right away
	for i := range fns {
		for _, o := range st.tasks[base+i].T.Outs {
			if o.Kind == "panic" {
				n := st.clone()
				n.havoc()
				outs = append(outs, &Outcome{Kind: "panic", St: n, PV: o.PV})
			}
		}
	}
	cur := []*State{st}
	for i := range fns {
		var next []*State
		for _, c := range cur {
			tr := c.tasks[base+i]
			for _, o := range tr.T.Outs {
				if o.Kind != "ret" {
					continue
				}
				n := c.clone()
				nt := &TaskRef{T: tr.T, Joined: o, Mark: tr.Mark}
				n.tasks[base+i] = nt
				if !joinTask(n, tr.T, o, false) {
					continue
				}
				in.event(fr, n, &Event{Kind: "join", Name: op, Pos: ev.Pos, Task: tr.T, Out: o})
				nt.JoinAt = n.ev.n
				r := o.Res[0]
				if i == len(fns)-1 {
					outs = append(outs, &Outcome{Kind: "ret", St: n, Res: []*Term{r}})
					continue
				}
				for _, v := range []bool{true, false} {
					d := n.facts.Decide(r)
					if d > 0 && !v || d < 0 && v {
						continue
					}
					k := n.clone()
					k.facts = k.facts.add(r, v)
					if v == (op == "Or") { // decided
						outs = append(outs, &Outcome{Kind: "ret", St: k, Res: []*Term{mkBool(op == "Or")}})
					} else {
						next = append(next, k)
					}
				}
			}
		}
		cur = next
	}
	if len(fns) == 0 {
		outs = append(outs, &Outcome{Kind: "ret", St: st, Res: []*Term{mkBool(op == "And")}})
	}
	if len(outs) == 0 {
		return []*Outcome{{Kind: "stop", St: st}}
	}
	return outs
}

// search is the contract of sort.Search: the result r is between 0 and n; f
// was false for r-1, if that is a position, and true for r, if that is one.
func (m *psMachine) search(in *Interp, ci *CallInfo, st *State) []*Outcome {
	fr := &frame{fn: ci.Caller}
	n, f := ci.Args[0], ci.Args[1]
	r := freshSym("search", tyInt)
	st.facts = st.facts.add(le(mkInt(0), r), true).add(le(r, n), true)
	probe := func(cur []*State, at *Term, skip *Term, want bool) []*State {
		var next []*State
		for _, s := range cur {
			a := s.clone()
			a.facts = a.facts.add(skip, true)
			if a.facts.Feasible() {
				next = append(next, a)
			}
			b := s.clone()
			b.facts = b.facts.add(skip, false)
			if !b.facts.Feasible() {
				continue
			}
			c2 := *ci
			c2.Args = []*Term{at}
			c2.Sig = f.Typ.Underlying().(*types.Signature)
			setCallee(&c2, f)
			for _, o := range in.invoke(fr, b, &c2, nil) {
				if o.Kind != "ret" {
					continue
				}
				o.St.facts = o.St.facts.add(o.Res[0], want)
				if o.St.facts.Feasible() {
					next = append(next, o.St)
				}
			}
		}
		return next
	}
	cur := probe([]*State{st}, addK(r, -1), eqInt(r, mkInt(0)), false)
	cur = probe(cur, r, eqInt(r, n), true)
	var outs []*Outcome
	for _, s := range cur {
		outs = append(outs, &Outcome{Kind: "ret", St: s, Res: []*Term{r}})
	}
	if len(outs) == 0 {
		return []*Outcome{{Kind: "stop", St: st}}
	}
	return outs
}

// collapse replaces the many outcomes of a function that only compares
// elements to choose a position by one: some position within the region.
func (m *psMachine) collapse(in *Interp, ci *CallInfo, st *State) ([]*Outcome, bool) {
	fr := &frame{fn: ci.Caller}
	save := m.skip
	m.skip = ci
	before := st.ev
	outs := in.invoke(fr, st.clone(), ci, nil)
	m.skip = save
	less := 0
	for _, o := range outs {
		if o.Kind != "ret" {
			if o.Kind == "panic" && m.panics {
				continue
			}
			return nil, false
		}
		for _, e := range o.St.ev.since(before) {
			switch {
			case e.Kind == "ld":
			case e.Kind == "st" && rootOf(e.Recv).Op == "alloc" && !st.allocs[rootOf(e.Recv)]:
			case e.Kind == "st" && rootOf(e.Recv).Op == "alloc" && len(st.ev.list()) >= 0 && st.mem[e.Recv] == nil:
			case e.Kind == "invoke" && e.Name == "Len":
			case e.Kind == "invoke" && e.Name == "Less":
				less++
			default:
				return nil, false
			}
		}
		if len(o.St.tasks) != len(st.tasks) {
			return nil, false
		}
	}
	if less == 0 || len(outs) < 3 {
		return nil, false
	}
	r := freshSym("chosen", tyInt)
	n := st.clone()
	n.havoc()
	for _, c := range []*Term{le(m.lo, r), lt(r, m.hi)} {
		ok := true
		for _, o := range outs {
			if o.Kind == "ret" && !o.St.facts.Entails(subst(c, map[*Term]*Term{r: o.Res[0]})) {
				ok = false
			}
		}
		if ok {
			n.facts = n.facts.add(c, true)
		}
	}
	if in.quiet == 0 {
		seen := map[string]bool{}
		for _, o := range outs {
			for _, e := range o.St.ev.since(before) {
				if op := sortOp(e); op != nil && op.kind == "less" {
					for _, x := range []*Term{op.a, op.b} {
						if !o.St.facts.Entails(le(m.lo, x)) || !o.St.facts.Entails(lt(x, m.hi)) {
							k := fmt.Sprint(e.Pos, x.id)
							if !seen[k] {
								seen[k] = true
								m.colls = append(m.colls, psFail{"position", shortFn(e.Fn), e.Pos, fmt.Sprintf("Less is called for position %s, which is not known to be inside the range being sorted", short(x))})
							}
						}
					}
				}
			}
		}
		m.count["position"] += less
	}
	res := []*Outcome{{Kind: "ret", St: n, Res: []*Term{r}}}
	if m.panics {
		for _, o := range outs {
			if o.Kind == "panic" {
				res = append(res, o)
				break
			}
		}
	}
	return res, true
}

func short(t *Term) string {
	s := t.String()
	if len(s) > 120 {
		s = s[:120] + "…"
	}
	return s
}

// ---- hypotheses about helpers

// spec translates the integer arguments of a helper call.
//
//	sort   lo, hi     sorts [lo, hi)
//	test   lo, hi     tests the pairs (k-1, k) for k in [lo, hi)
//	merge  l1, h1, l2, h2, out
func (m *psMachine) spec(c *psCtx, h *psHyp, ints []*Term) []*Term {
	switch c.kind {
	case "sort", "test":
		lo, q := ints[h.idx[0]], ints[h.idx[1]]
		var hi *Term
		switch h.how % 3 {
		case 0:
			hi = add(lo, q)
		case 1:
			hi = q
		case 2:
			hi = addK(q, 1)
		}
		switch h.how / 3 {
		case 1: // the pair at lo is not tested
			lo = addK(lo, 1)
		case 2:
			lo, hi = addK(lo, 1), addK(hi, 1)
		case 3:
			hi = addK(hi, 1)
		}
		return []*Term{lo, hi}
	case "merge":
		l1, e1, l2, e2, o := ints[h.idx[0]], ints[h.idx[1]], ints[h.idx[2]], ints[h.idx[3]], ints[h.idx[4]]
		switch h.how {
		case 0:
			e1, e2 = addK(e1, 1), addK(e2, 1)
		case 2:
			e1, e2 = add(l1, e1), add(l2, e2)
		}
		return []*Term{l1, e1, l2, e2, o}
	}
	return nil
}

func (m *psMachine) hypotheses(c *psCtx) []*psHyp {
	n := len(c.ints)
	var r []*psHyp
	switch c.kind {
	case "sort", "test":
		hows := 3
		if c.kind == "test" {
			hows = 12
		}
		for how := 0; how < hows; how++ {
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					if i != j {
						r = append(r, &psHyp{fmt.Sprintf("%s %d,%d/%d", c.kind, i, j, how), []int{i, j}, how})
					}
				}
			}
		}
	case "merge":
		var perm func(p []int)
		var perms [][]int
		perm = func(p []int) {
			if len(p) == 5 {
				perms = append(perms, append([]int{}, p...))
				return
			}
			for i := 0; i < n; i++ {
				used := false
				for _, x := range p {
					used = used || x == i
				}
				if !used {
					perm(append(p, i))
				}
			}
		}
		perm(nil)
		for _, p := range perms {
			for how := 0; how < 3; how++ {
				r = append(r, &psHyp{fmt.Sprintf("merge %v/%d", p, how), p, how})
			}
		}
	}
	return r
}

// pre gives the conditions a helper may assume and its callers must meet.
func (m *psMachine) pre(c *psCtx, s []*Term) []*Term {
	z := mkInt(0)
	switch c.kind {
	case "sort":
		return []*Term{le(z, s[0]), le(s[0], s[1]), le(s[1], m.length)}
	case "test":
		return []*Term{le(mkInt(1), s[0]), le(s[0], s[1]), le(s[1], m.length)}
	case "merge":
		end := add(s[4], add(sub(s[1], s[0]), sub(s[3], s[2])))
		return []*Term{le(z, s[0]), le(s[0], s[1]), le(s[1], s[2]), le(s[2], s[3]), le(s[3], m.length), le(z, s[4]), le(end, m.length)}
	}
	return nil
}

func intArgs(c *psCtx, e *Event) []*Term {
	var r []*Term
	for i, p := range c.fn.Params {
		if isIntType(p.Type()) {
			r = append(r, e.Args[i])
		}
	}
	return r
}

// ctxOf finds the context of a call of a recursive helper.
func (m *psMachine) ctxOf(e *Event) *psCtx {
	if e.Callee == nil || len(e.Args) != len(e.Callee.Params) {
		return nil
	}
	key := shortFn(e.Callee)
	var binds []*Term
	if e.Recv != nil && e.Recv.Op == "closure" {
		binds = e.Recv.Args
		key += fmt.Sprint(" recv", e.Recv.id)
	}
	for i, p := range e.Callee.Params {
		if !isIntType(p.Type()) {
			key += fmt.Sprintf(" %d", e.Args[i].id)
		}
	}
	if c := m.ctxs[key]; c != nil {
		return c
	}
	if e.St == nil {
		return nil
	}
	c := &psCtx{fn: e.Callee, first: e, key: key, binds: binds, outs: map[int]*Analysis{}, colls: map[int][]psFail{}}
	for i, p := range e.Callee.Params {
		if isIntType(p.Type()) {
			s := freshSym(p.Name(), p.Type())
			c.ints = append(c.ints, s)
			c.args = append(c.args, s)
		} else {
			c.args = append(c.args, e.Args[i])
		}
	}
	rs := e.Callee.Signature.Results()
	switch {
	case len(c.ints) >= 5 && rs.Len() == 0:
		c.kind = "merge"
	case rs.Len() == 1 && isBoolType(rs.At(0).Type()):
		c.kind = "test"
	case rs.Len() == 0:
		c.kind = "sort"
	}
	m.ctxs[key] = c
	m.order = append(m.order, c)
	return c
}

// analyse runs the abstract interpreter on a helper under a hypothesis.
func (m *psMachine) analyse(c *psCtx, h *psHyp) *Analysis {
	id := 0
	for _, i := range h.idx {
		id = id*8 + i
	}
	id = id*16 + h.how
	if a := c.outs[id]; a != nil {
		m.colls = c.colls[id]
		return a
	}
	s := m.spec(c, h, c.ints)
	st := c.first.St.clone()
	st.facts, st.ev, st.locks, st.loops = nil, nil, nil, nil
	st.ghost = map[string]*Term{}
	for _, p := range m.pre(c, s) {
		st.facts = st.facts.add(p, true)
	}
	st.facts = st.facts.add(le(mkInt(0), m.length), true)
	m.colls = nil
	m.coll = c.kind == "sort"
	m.lo, m.hi = s[0], s[1]
	a := m.c.analyze(c.fn, c.args, c.binds, st, m.cfg())
	m.coll = false
	c.outs[id] = a
	c.colls[id] = m.colls
	return a
}

func (m *psMachine) analyseRoot() *Analysis {
	st := newState()
	st.facts = st.facts.add(le(mkInt(0), m.length), true)
	m.colls = nil
	m.coll = true
	m.lo, m.hi = mkInt(0), m.length
	a := m.c.analyze(m.root, []*Term{m.data}, nil, st, m.cfg())
	m.coll = false
	return a
}

// recCalls lists the calls of recursive helpers with the facts of their paths.
func (m *psMachine) recCalls(a *Analysis) []psSite {
	var r []psSite
	var walk func(es []*Event, f *Facts)
	walk = func(es []*Event, f *Facts) {
		for _, e := range es {
			if e.Kind == "rec" {
				r = append(r, psSite{e, f})
			}
			if e.Loop != nil {
				for _, it := range e.Loop.Iters {
					walk(it.Events, it.St.facts)
				}
			}
			if e.Task != nil && (e.Kind == "go" || e.Kind == "parrange") {
				for _, o := range e.Task.Outs {
					walk(o.Events(), o.St.facts)
				}
			}
		}
	}
	for _, o := range a.Outs {
		walk(o.Events(), o.St.facts)
	}
	return r
}

// admissible filters the hypotheses of a helper by the calls known so far.
func (m *psMachine) admissible(c *psCtx, h *psHyp, sites []psSite) bool {
	for _, s := range sites {
		sp := m.spec(c, h, intArgs(c, s.e))
		for _, p := range m.pre(c, sp) {
			if !s.f.Entails(p) {
				return false
			}
		}
		if c.kind == "merge" {
			if s.f.Decide(eqInt(sp[1], sp[2])) <= 0 || s.f.Decide(eqInt(sp[0], sp[4])) <= 0 {
				return false
			}
		}
	}
	return true
}

// solve searches for readings of all helpers under which everything holds.
// It leaves the failures of the best attempt.
func (m *psMachine) solve(rootA *Analysis) {
	type best struct {
		fails []psFail
		count map[string]int
		hyps  map[*psCtx]*psHyp
	}
	var b *best
	leaves := 0
	var rec func(analysed []*Analysis, todo []psSite) bool
	rec = func(analysed []*Analysis, todo []psSite) bool {
		// the first call of a helper without a reading
		var c *psCtx
		var sites []psSite
		for _, s := range todo {
			x := m.ctxOf(s.e)
			if x == nil || m.hyps[x] != nil || x.kind == "" {
				continue
			}
			if c == nil {
				c = x
			}
			if c == x {
				sites = append(sites, s)
			}
		}
		if c == nil {
			leaves++
			m.fails, m.count = nil, map[string]int{}
			m.verify(rootA)
			if b == nil || len(m.fails) < len(b.fails) {
				b = &best{m.fails, m.count, cp(m.hyps)}
			}
			return len(m.fails) == 0
		}
		// readings that the helper's own calls of itself agree with go first
		var hs, worse []*psHyp
		for _, h := range m.hypotheses(c) {
			if !m.admissible(c, h, sites) {
				continue
			}
			m.hyps[c] = h
			a := m.analyse(c, h)
			delete(m.hyps, c)
			agree := a.Err == nil
			for _, s := range m.recCalls(a) {
				if agree && m.ctxOf(s.e) == c {
					for _, p := range m.pre(c, m.spec(c, h, intArgs(c, s.e))) {
						agree = agree && s.f.Entails(p)
					}
				}
			}
			if agree {
				hs = append(hs, h)
			} else {
				worse = append(worse, h)
			}
			if len(hs)+len(worse) > 8 {
				break
			}
		}
		if len(hs) == 0 {
			hs = worse
		}
		n := len(hs)
		for _, h := range hs {
			if leaves >= 8 {
				break
			}
			m.hyps[c] = h
			a := m.analyse(c, h)
			if a.Err == nil {
				if rec(append(analysed, a), append(append([]psSite{}, todo...), m.recCalls(a)...)) {
					return true
				}
			} else if b == nil {
				b = &best{[]psFail{{"undecided", shortFn(c.fn), c.fn.Pos(), a.Err.Error()}}, map[string]int{}, cp(m.hyps)}
			}
			delete(m.hyps, c)
		}
		if n == 0 && b == nil {
			s := sites[0]
			b = &best{[]psFail{{"calls", shortFn(c.fn), s.e.Pos, fmt.Sprintf("the arguments %s are not within the bounds of the data under any reading of the parameters", shortArgs(intArgs(c, s.e)))}}, map[string]int{}, cp(m.hyps)}
		}
		return false
	}
	rec([]*Analysis{rootA}, m.recCalls(rootA))
	m.fails, m.count, m.hyps = b.fails, b.count, b.hyps
}

func shortArgs(l []*Term) string {
	var s []string
	for _, t := range l {
		s = append(s, short(t))
	}
	return "(" + strings.Join(s, ", ") + ")"
}

// ---- abstract state

type pseg struct {
	lo, hi *Term
	k      byte
	arr    *Term
	e      *Event
}

type pknow struct {
	x, y *Term
	lt   bool
}

type emission struct {
	o, n      *Term
	a1, b1    *Term // part of run 1
	a2, b2    *Term // part of run 2
	pos       token.Pos
	composite bool
}

type psState struct {
	m      *psMachine
	f      *Facts
	own    []*Term
	segs   []pseg
	pivot  *Term
	chose  bool
	calls  []pseg
	evid   bool
	runs   []pseg
	full   []pseg // ranges of the buffer that hold the elements of the data at the same positions
	know   []pknow
	scope  []*Term
	h1, h2 *Term
	pend   []emission
	bad    bool
	broke  bool
}

func (s *psState) clone() *psState {
	n := *s
	n.own = append([]*Term{}, s.own...)
	n.segs = append([]pseg{}, s.segs...)
	n.calls = append([]pseg{}, s.calls...)
	n.runs = append([]pseg{}, s.runs...)
	n.full = append([]pseg{}, s.full...)
	n.know = append([]pknow{}, s.know...)
	n.scope = append([]*Term{}, s.scope...)
	n.pend = append([]emission{}, s.pend...)
	return &n
}

func (s *psState) add(c *Term) {
	if s.f.Decide(c) > 0 {
		return
	}
	s.f = s.f.add(c, true)
	s.own = append(s.own, c)
}

func (s *psState) rebase(f *Facts) {
	for _, c := range s.own {
		if f.Decide(c) <= 0 {
			f = f.add(c, true)
		}
	}
	s.f = f
}

func (s *psState) is(c *Term) bool  { return s.f.Entails(c) }
func (s *psState) not(c *Term) bool { return s.f.Entails(mkNot(c)) }
func (s *psState) eq(a, b *Term) bool {
	return a == b || s.f.Entails(eqInt(a, b))
}
func (s *psState) ne(a, b *Term) bool {
	if a == b {
		return false
	}
	return s.is(lt(a, b)) || s.is(lt(b, a)) || s.f.Decide(eqInt(a, b)) < 0
}

func (s *psState) inside(x, lo, hi *Term) bool { return s.is(le(lo, x)) && s.is(lt(x, hi)) }
func (s *psState) outside(x, lo, hi *Term) bool {
	return s.is(lt(x, lo)) || s.is(le(hi, x))
}
func (s *psState) disjoint(a, b, c, d *Term) bool {
	return s.is(le(b, c)) || s.is(le(d, a)) || s.is(le(b, a)) || s.is(le(d, c))
}

// cover reports that [a, b) is covered by segments of kind k.
func (s *psState) cover(a, b *Term, k byte) bool {
	if s.is(le(b, a)) {
		return true
	}
	used := make([]bool, len(s.segs))
	cur := a
	for {
		moved := false
		for i, g := range s.segs {
			if used[i] || g.k != k || !s.is(le(g.lo, cur)) {
				continue
			}
			if s.is(le(b, g.hi)) {
				return true
			}
			if g.hi != cur && s.is(le(cur, g.hi)) {
				used[i] = true
				cur = g.hi
				moved = true
			}
		}
		if !moved {
			return false
		}
	}
}

func (s *psState) addSeg(lo, hi *Term, k byte) {
	if s.is(le(hi, lo)) {
		return
	}
	for _, g := range s.segs {
		if g.k == k && s.is(le(g.lo, lo)) && s.is(le(hi, g.hi)) {
			return
		}
	}
	s.segs = append(s.segs, pseg{lo: lo, hi: hi, k: k})
}

func (s *psState) has(x *Term, k byte) bool { return s.cover(x, addK(x, 1), k) }

// excluded: position x is in no segment of kind k.
func (s *psState) exclude(x *Term, k byte) {
	for {
		before := len(s.own)
		for _, g := range s.segs {
			if g.k != k {
				continue
			}
			if s.is(le(g.lo, x)) {
				s.add(le(g.hi, x))
			} else if s.is(lt(x, g.hi)) {
				s.add(lt(x, g.lo))
			}
		}
		if len(s.own) == before {
			return
		}
	}
}

// remove takes position x out of the segments of kind k.
func (s *psState) remove(x *Term, k byte) {
	var r []pseg
	for _, g := range s.segs {
		if g.k != k || s.outside(x, g.lo, g.hi) {
			r = append(r, g)
			continue
		}
		if s.inside(x, g.lo, g.hi) {
			if !s.is(le(x, g.lo)) {
				r = append(r, pseg{lo: g.lo, hi: x, k: k})
			}
			if !s.is(le(g.hi, addK(x, 1))) {
				r = append(r, pseg{lo: addK(x, 1), hi: g.hi, k: k})
			}
		}
	}
	s.segs = r
}

func (s *psState) choose(p *Term) {
	s.pivot, s.chose = p, true
	s.addSeg(p, addK(p, 1), 'L')
	s.addSeg(p, addK(p, 1), 'G')
}

// ---- transfer

func (m *psMachine) runList(es []*Event, sts []*psState) []*psState {
	for i, e := range es {
		if len(sts) == 0 {
			return nil
		}
		var next []*psState
		for _, s := range sts {
			if s.bad {
				continue
			}
			next = append(next, m.step(e, es, i, s)...)
		}
		sts = next
		if len(sts) > 64 {
			m.fail("undecided", e.Pos, "too many cases")
			return nil
		}
	}
	var r []*psState
	for _, s := range sts {
		if !s.bad {
			r = append(r, s)
		}
	}
	return r
}

func (m *psMachine) step(e *Event, es []*Event, i int, s *psState) []*psState {
	switch e.Kind {
	case "loop":
		return m.loop(e.Loop, s)
	case "join":
		if e.Out == nil {
			return []*psState{s}
		}
		for _, x := range e.Out.St.facts.all() {
			c := x.cond
			if !x.val {
				c = mkNot(c)
			}
			if s.f.Decide(c) == 0 {
				s.add(c)
			}
		}
		if !s.f.Feasible() {
			return nil
		}
		return m.runList(e.Out.Events(), []*psState{s})
	case "ext":
		if e.Name == "sort.IsSorted" && len(e.Args) == 1 && arrOf(e.Args[0]) == m.data {
			switch s.f.Decide(e.Res) {
			case 1:
				s.addSeg(mkInt(1), m.length, 'O')
				s.calls = append(s.calls, pseg{lo: mkInt(0), hi: m.length, k: 'I', e: e})
			case -1:
				s.evid = true
			}
			return []*psState{s}
		}
		for _, a := range e.Args {
			if arrOf(a) == m.data {
				m.fail("use", e.Pos, "the data is handed to %s, whose effect on it is not known", e.Name)
			}
		}
	case "issorted":
		if len(e.Args) == 1 && arrOf(e.Args[0]) == m.data && s.f.Decide(e.Res) > 0 {
			s.calls = append(s.calls, pseg{lo: mkInt(0), hi: m.length, k: 'I', e: e})
		}
	case "rec":
		return m.recStep(e, s)
	case "atomic":
		m.atomicStep(e, es, i, s)
	case "user":
		if op := sortOp(e); op != nil {
			return m.copyStep(e, op, s)
		}
		m.fail("use", e.Pos, "a call of an unknown function (%s) may change the data", e.Name)
	case "invoke":
		op := sortOp(e)
		if op == nil {
			if m.mode == 't' && e.Name != "Len" {
				m.fail("use", e.Pos, "method %s of the data is called by a test for sortedness", e.Name)
			}
			return []*psState{s}
		}
		switch op.kind {
		case "less":
			m.lessStep(e, op, s)
		case "swap":
			m.swapStep(e, op, s)
		case "ssort":
			m.ssortStep(e, op, s)
		}
		if !s.f.Feasible() {
			return nil
		}
	}
	return []*psState{s}
}

func (m *psMachine) region() (lo, hi *Term) {
	if m.cur == nil || m.cur.root {
		return mkInt(0), m.length
	}
	sp := m.spec(m.cur, m.curH, m.cur.ints)
	return sp[0], sp[1]
}

func (m *psMachine) lessStep(e *Event, op *sop, s *psState) {
	if m.mg == nil && op.arr != m.data {
		return
	}
	if m.mg != nil {
		if op.arr != m.mg.x {
			m.fail("merge-order", e.Pos, "elements of another collection than the one being merged are compared")
			s.bad = true
			return
		}
	}
	d := s.f.Decide(e.Res)
	// the interpreter forks on results that matter
	lo, hi := mkInt(0), m.length
	if m.mode == 'q' || m.mode == 's' && m.mg == nil {
		lo, hi = m.region()
	}
	for _, x := range []*Term{op.a, op.b} {
		m.check(s.inside(x, lo, hi), "position", e.Pos, "Less is called for position %s, which is not known to be within [%s, %s)", short(x), short(lo), short(hi))
	}
	if d == 0 {
		return
	}
	v := d > 0
	if v { // irreflexive
		if s.is(le(op.a, op.b)) {
			s.add(lt(op.a, op.b))
		} else if s.is(le(op.b, op.a)) {
			s.add(lt(op.b, op.a))
		}
	}
	if m.mg != nil {
		s.know = append(s.know, pknow{op.a, op.b, v})
		return
	}
	switch m.mode {
	case 'q':
		if s.pivot == nil {
			return
		}
		if s.eq(op.a, s.pivot) {
			if v {
				s.exclude(op.b, 'L')
				s.addSeg(op.b, addK(op.b, 1), 'G')
			} else {
				s.addSeg(op.b, addK(op.b, 1), 'L')
			}
		}
		if s.eq(op.b, s.pivot) {
			if v {
				s.exclude(op.a, 'G')
				s.addSeg(op.a, addK(op.a, 1), 'L')
			} else {
				s.addSeg(op.a, addK(op.a, 1), 'G')
			}
		}
	case 't':
		if v {
			if s.is(lt(op.b, op.a)) {
				s.evid = true
			}
			// an inversion contradicts pairs known to be in order
			if s.is(eqInt(op.a, addK(op.b, 1))) {
				s.exclude(op.a, 'O')
			}
		} else if s.is(eqInt(op.a, addK(op.b, 1))) {
			s.addSeg(op.a, addK(op.a, 1), 'O')
		}
	}
}

func (m *psMachine) swapStep(e *Event, op *sop, s *psState) {
	if m.mg != nil || m.mode != 'q' || op.arr != m.data {
		m.fail("use", e.Pos, "elements are exchanged where only merging or testing is expected")
		return
	}
	lo, hi := m.region()
	for _, x := range []*Term{op.a, op.b} {
		m.check(s.inside(x, lo, hi), "swap", e.Pos, "Swap is called for position %s, which is not known to be within [%s, %s)", short(x), short(lo), short(hi))
	}
	var cs []pseg
	for _, c := range s.calls {
		if s.outside(op.a, c.lo, c.hi) && s.outside(op.b, c.lo, c.hi) {
			cs = append(cs, c)
		}
	}
	s.calls = cs
	for _, k := range []byte{'L', 'G'} {
		ha, hb := s.has(op.a, k), s.has(op.b, k)
		if ha && hb {
			continue
		}
		s.remove(op.a, k)
		s.remove(op.b, k)
		if ha {
			s.addSeg(op.b, addK(op.b, 1), k)
		}
		if hb {
			s.addSeg(op.a, addK(op.a, 1), k)
		}
	}
	if s.pivot != nil {
		switch {
		case s.eq(s.pivot, op.a):
			s.pivot = op.b
		case s.eq(s.pivot, op.b):
			s.pivot = op.a
		case s.ne(s.pivot, op.a) && s.ne(s.pivot, op.b):
		default:
			s.pivot = nil
		}
	}
}

// sorted records that [a, b) of the data has been sorted.
func (m *psMachine) sorted(e *Event, s *psState, a, b *Term, rec bool) {
	// what is known of single positions inside is lost, what is known of all
	// of them stays
	var r []pseg
	for _, g := range s.segs {
		if s.disjoint(g.lo, g.hi, a, b) || s.is(le(g.lo, a)) && s.is(le(b, g.hi)) {
			r = append(r, g)
			continue
		}
		if s.is(le(a, g.lo)) {
			if s.is(le(b, g.hi)) {
				g.lo = b
				r = append(r, g)
			}
		} else if s.is(le(b, g.hi)) == false && s.is(le(g.lo, a)) {
			g.hi = a
			r = append(r, g)
		}
	}
	s.segs = r
	if s.pivot != nil && !s.outside(s.pivot, a, b) {
		s.pivot = nil
	}
	s.calls = append(s.calls, pseg{lo: a, hi: b, k: 'S', e: e})
	s.dropRuns(m.data, a, b)
	s.runs = append(s.runs, pseg{lo: a, hi: b, k: 'R', arr: m.data, e: e})
	s.permuted(a, b)
}

// permuted: the data at [a, b) changes places.
func (s *psState) permuted(a, b *Term) {
	var r []pseg
	for _, g := range s.full {
		if s.disjoint(g.lo, g.hi, a, b) || s.is(le(g.lo, a)) && s.is(le(b, g.hi)) {
			r = append(r, g)
		}
	}
	s.full = r
}

// moved: the n elements of src at a are copied, in some order, to the same
// positions of dst.
func (s *psState) moved(m *psMachine, src, dst, a, b *Term, same bool, e *Event) {
	ok := same && (src == m.data || s.holds(src, a, b))
	if dst == m.data {
		m.check(ok, "content", e.Pos, "the elements copied back to [%s, %s) of the data are not known to be those that were there", short(a), short(b))
		s.permuted(a, b)
		return
	}
	var r []pseg
	for _, g := range s.full {
		if g.arr != dst || s.disjoint(g.lo, g.hi, a, b) {
			r = append(r, g)
		}
	}
	if ok {
		r = append(r, pseg{lo: a, hi: b, k: 'F', arr: dst, e: e})
	}
	s.full = r
}

// holds: [a, b) of a buffer consists of ranges taken from the data.
func (s *psState) holds(arr, a, b *Term) bool {
	cur := a
	for n := 0; n <= len(s.full); n++ {
		if s.eq(cur, b) {
			return true
		}
		for _, g := range s.full {
			if g.arr == arr && s.eq(g.lo, cur) {
				cur = g.hi
				break
			}
		}
	}
	return false
}

func (s *psState) dropRuns(arr, a, b *Term) {
	var r []pseg
	for _, g := range s.runs {
		if g.arr != arr || s.disjoint(g.lo, g.hi, a, b) {
			r = append(r, g)
		}
	}
	s.runs = r
}

func (s *psState) run(arr, a, b *Term) bool {
	if s.is(le(b, a)) {
		return true
	}
	for _, g := range s.runs {
		if g.arr == arr && s.eq(g.lo, a) && s.eq(g.hi, b) {
			return true
		}
	}
	return false
}

func (m *psMachine) ssortStep(e *Event, op *sop, s *psState) {
	if m.mg != nil || m.mode == 't' || op.arr != m.data {
		m.fail("use", e.Pos, "elements are sorted where only merging or testing is expected")
		return
	}
	lo, hi := m.region()
	ok := s.is(le(lo, op.a)) && s.is(le(op.a, op.b)) && s.is(le(op.b, hi))
	m.check(ok, "ranges", e.Pos, "SequentialSort(%s, %s) is not known to be within [%s, %s)", short(op.a), short(op.b), short(lo), short(hi))
	m.sorted(e, s, op.a, op.b, false)
}

func (m *psMachine) recStep(e *Event, s *psState) []*psState {
	c := m.ctxOf(e)
	if c == nil || m.hyps[c] == nil {
		m.fail("calls", e.Pos, "the arguments of the recursive function %s are not understood", e.Name)
		return []*psState{s}
	}
	sp := m.spec(c, m.hyps[c], intArgs(c, e))
	for _, p := range m.pre(c, sp) {
		if !m.check(s.is(p), "calls", e.Pos, "call with %s: %s is not known to hold", shortArgs(sp), short(p)) {
			s.broke = true
		}
	}
	if m.cur != nil && c.fn == m.cur.fn && c == m.cur {
		my := m.spec(m.cur, m.curH, m.cur.ints)
		size := func(x []*Term) *Term {
			n := sub(x[1], x[0])
			if len(x) > 3 {
				n = add(n, sub(x[3], x[2]))
			}
			return n
		}
		m.check(s.is(lt(size(sp), size(my))), "progress", e.Pos, "the recursive call %s is not known to be for a smaller range", shortArgs(sp))
	}
	switch c.kind {
	case "sort":
		if m.mg != nil || m.mode == 't' {
			m.fail("use", e.Pos, "elements are sorted where only merging or testing is expected")
			return []*psState{s}
		}
		lo, hi := m.region()
		m.check(s.is(le(lo, sp[0])) && s.is(le(sp[1], hi)), "ranges", e.Pos, "the recursive sort of [%s, %s) is not known to be within [%s, %s)", short(sp[0]), short(sp[1]), short(lo), short(hi))
		m.sorted(e, s, sp[0], sp[1], true)
	case "test":
		if e.Res == nil {
			break
		}
		switch s.f.Decide(e.Res) {
		case 1:
			s.addSeg(sp[0], sp[1], 'O')
		case -1:
			s.evid = true
		}
	case "merge":
		if m.mg != nil {
			if c.x != m.mg.x || c.y != m.mg.y {
				m.fail("merge-copy", e.Pos, "a part of a merge works on other collections than the merge")
				return []*psState{s}
			}
			m.emit(s, emission{o: sp[4], n: add(sub(sp[1], sp[0]), sub(sp[3], sp[2])), a1: sp[0], b1: sp[1], a2: sp[2], b2: sp[3], pos: e.Pos, composite: true})
			return []*psState{s}
		}
		m.mergeRuns(e, s, c, sp)
	}
	return []*psState{s}
}

// mergeRuns is a whole merge at the level of the merge sort.
func (m *psMachine) mergeRuns(e *Event, s *psState, c *psCtx, sp []*Term) {
	if m.mode != 's' {
		m.fail("use", e.Pos, "unexpected merge")
		return
	}
	if c.x == nil || c.y == nil || c.x == c.y {
		m.fail("runs", e.Pos, "the collections being merged are not known")
		return
	}
	same := s.eq(sp[1], sp[2]) && s.eq(sp[4], sp[0])
	ok := m.check(same, "runs", e.Pos, "the runs [%s, %s) and [%s, %s) being merged to %s are not adjacent, or not merged to their own positions", short(sp[0]), short(sp[1]), short(sp[2]), short(sp[3]), short(sp[4]))
	ok = m.check(s.run(c.x, sp[0], sp[1]), "runs", e.Pos, "the left run [%s, %s) is not known to be sorted at this point", short(sp[0]), short(sp[1])) && ok
	ok = m.check(s.run(c.x, sp[2], sp[3]), "runs", e.Pos, "the right run [%s, %s) is not known to be sorted at this point", short(sp[2]), short(sp[3])) && ok
	hi := add(sp[4], sub(sp[3], sp[0]))
	lo0, hi0 := m.region()
	m.check(s.is(le(lo0, sp[4])) && s.is(le(hi, hi0)), "ranges", e.Pos, "the merge into [%s, %s) is not known to be within [%s, %s)", short(sp[4]), short(hi), short(lo0), short(hi0))
	s.dropRuns(c.y, sp[4], hi)
	s.moved(m, c.x, c.y, sp[4], hi, same, e)
	if ok {
		s.runs = append(s.runs, pseg{lo: sp[0], hi: sp[3], k: 'R', arr: c.y, e: e})
	}
}

func (m *psMachine) atomicStep(e *Event, es []*Event, i int, s *psState) {
	if m.mode != 't' || m.flag[e.Recv] == "" {
		return
	}
	name := e.Name
	if i := strings.LastIndex(name, "."); i >= 0 {
		name = name[i+1:]
	}
	switch {
	case strings.HasPrefix(name, "Load"):
		if e.Res == nil {
			return
		}
		if isBoolType(e.Res.Typ) && s.f.Decide(e.Res) > 0 || !isBoolType(e.Res.Typ) && nonZero(s.f, e.Res) {
			s.evid = true
		}
		return
	}
	// the flag is set for a pair out of order, or when the result is settled
	final := m.cur != nil && m.cur.root
	for _, x := range es[i+1:] {
		if x.Kind == "rec" || x.Kind == "ext" || x.Kind == "loop" || x.Kind == "join" || x.Kind == "pardo" || sortOp(x) != nil {
			final = false
		}
	}
	zero := false
	if strings.HasPrefix(name, "Store") && len(e.Args) > 0 {
		v := e.Args[len(e.Args)-1]
		k, ok := v.intConst()
		zero = ok && k == 0 || isFalse(v)
	}
	m.check(zero || final || s.evid, "flag", e.Pos, "the flag that stops the test early is set without a pair out of order having been found")
}

func nonZero(f *Facts, t *Term) bool {
	for _, x := range f.all() {
		if x.cond.Op != "eq" {
			continue
		}
		for i := range x.cond.Args {
			if x.cond.Args[i] != t {
				continue
			}
			if k, ok := x.cond.Args[1-i].intConst(); ok && (k == 0) != x.val {
				return true
			}
		}
	}
	return f.Decide(eqInt(t, mkInt(0))) < 0 || f.Entails(lt(mkInt(0), t))
}

// ---- loops

type psCand interface {
	hold(m *psMachine, s *psState, mp map[*Term]*Term) bool
	assume(m *psMachine, s *psState) []*psState
	key() string
}

type numCand struct {
	t     *Term
	group string
	rank  int
}

func (c *numCand) hold(m *psMachine, s *psState, mp map[*Term]*Term) bool {
	return s.is(subst(c.t, mp))
}
func (c *numCand) assume(m *psMachine, s *psState) []*psState {
	s.add(c.t)
	return []*psState{s}
}
func (c *numCand) key() string { return fmt.Sprint("n", c.t.id) }

type segCand struct {
	lo, hi *Term
	k      byte
}

func (c *segCand) hold(m *psMachine, s *psState, mp map[*Term]*Term) bool {
	return s.cover(subst(c.lo, mp), subst(c.hi, mp), c.k)
}
func (c *segCand) assume(m *psMachine, s *psState) []*psState {
	s.addSeg(c.lo, c.hi, c.k)
	return []*psState{s}
}
func (c *segCand) key() string { return fmt.Sprint("s", c.lo.id, ",", c.hi.id, c.k) }

// tplCand: the loop variable has its first value, or a comparison is known.
type tplCand struct {
	v    *LoopVar
	x, y *Term
	lt   bool
}

func (c *tplCand) hold(m *psMachine, s *psState, mp map[*Term]*Term) bool {
	if s.eq(subst(c.v.Sym, mp), c.v.Init) {
		return true
	}
	x, y := subst(c.x, mp), subst(c.y, mp)
	for _, k := range s.know {
		if k.lt == c.lt && s.eq(k.x, x) && s.eq(k.y, y) {
			return true
		}
	}
	return false
}
func (c *tplCand) assume(m *psMachine, s *psState) []*psState {
	a := s.clone()
	a.add(eqInt(c.v.Sym, c.v.Init))
	var r []*psState
	if a.f.Feasible() {
		r = append(r, a)
	}
	b := s
	b.know = append(b.know, pknow{c.x, c.y, c.lt})
	return append(r, b)
}
func (c *tplCand) key() string { return fmt.Sprint("t", c.v.Sym.id, ",", c.x.id, ",", c.y.id, c.lt) }

// mapCand: the heads of the merge at the head of the loop.
type mapCand struct{ h1, h2 *Term }

func (c *mapCand) hold(m *psMachine, s *psState, mp map[*Term]*Term) bool {
	m.flush(s)
	return len(s.pend) == 0 && s.eq(s.h1, subst(c.h1, mp)) && s.eq(s.h2, subst(c.h2, mp))
}
func (c *mapCand) assume(m *psMachine, s *psState) []*psState {
	s.h1, s.h2 = c.h1, c.h2
	return []*psState{s}
}
func (c *mapCand) key() string { return fmt.Sprint("m", c.h1.id, ",", c.h2.id) }

func (m *psMachine) assume(s *psState, cands []psCand) []*psState {
	sts := []*psState{s}
	// of the inequalities between two terms only the strongest is stated
	best := map[string]*numCand{}
	for _, c := range cands {
		if n, ok := c.(*numCand); ok && n.group != "" {
			if b := best[n.group]; b == nil || n.rank < b.rank {
				best[n.group] = n
			}
		}
	}
	for pass := 0; pass < 2; pass++ {
		for _, c := range cands {
			n, isNum := c.(*numCand)
			if isNum && n.group != "" && best[n.group] != n {
				continue
			}
			if isNum != (pass == 0) {
				continue
			}
			var next []*psState
			for _, x := range sts {
				next = append(next, c.assume(m, x)...)
			}
			sts = next
		}
	}
	return sts
}

func hasOps(es []*Event, kinds string) bool {
	r := false
	allEvents(es, func(e *Event) {
		k := ""
		if e.Kind == "rec" {
			k = "rec"
		} else if op := sortOp(e); op != nil {
			k = op.kind
		}
		if k != "" && strings.Contains(kinds, k) {
			r = true
		}
	})
	// joins within iterations replay tasks, which allEvents has seen at their start
	return r
}

func (l *Loop) hasOps(kinds string) bool {
	for _, it := range l.Iters {
		if hasOps(it.Events, kinds) {
			return true
		}
	}
	return false
}

func (m *psMachine) loop(L *Loop, s *psState) []*psState {
	var vars []*LoopVar
	init := map[*Term]*Term{}
	for _, v := range L.Vars {
		init[v.Sym] = v.Init
		if isIntType(v.Sym.Typ) {
			vars = append(vars, v)
		}
	}
	if L.hasOps("rec ssort") && m.mg == nil && m.mode != 't' {
		m.fail("undecided", L.Pos, "sub-ranges are sorted or merged in a loop")
		s.bad = true
		return nil
	}
	base := m.candidates(L, s, vars, init)
	emits := m.mg != nil && L.hasOps("copy rec")
	maps := []*mapCand{nil}
	if emits {
		m.flush(s)
		if len(s.pend) > 0 {
			m.fail("merge-copy", s.pend[0].pos, "the elements copied before this loop are not the next ones of the merge")
			s.bad = true
			return nil
		}
		maps = m.mapCands(s, vars, init)
	}
	try := func(mc *mapCand, final bool) ([]psCand, bool) {
		var cands []psCand
		seen := map[string]bool{}
		pre := base
		if mc != nil {
			pre = append(append([]psCand{}, base...), m.outCands(vars, mc)...)
		}
		for _, c := range pre {
			if seen[c.key()] {
				continue
			}
			seen[c.key()] = true
			if c.hold(m, s, init) {
				cands = append(cands, c)
			}
		}
		mapOK := true
		for pass := 0; pass < 40; pass++ {
			drop := map[psCand]bool{}
			mapOK = true
			for _, it := range L.Iters {
				st := s.clone()
				st.rebase(it.St.facts)
				st.segs, st.runs, st.full = nil, nil, nil
				st.evid = s.evid
				st.scope = append(st.scope, varSyms(vars)...)
				all := cands
				if mc != nil {
					all = append(append([]psCand{}, cands...), mc)
				}
				m.mute++
				starts := m.assume(st, all)
				var live []*psState
				for _, x := range starts {
					if x.f.Feasible() {
						live = append(live, x)
					}
				}
				ends := m.runList(it.Events, live)
				for _, e := range ends {
					if s.pivot != nil && e.pivot != s.pivot && (e.pivot == nil || !e.eq(e.pivot, s.pivot)) {
						mapOK = false
					}
					for _, c := range cands {
						if !drop[c] && !c.hold(m, e, it.Next) {
							drop[c] = true
						}
					}
					if mc != nil && !mc.hold(m, e, it.Next) {
						mapOK = false
					}
				}
				m.mute--
			}
			if len(drop) == 0 {
				break
			}
			var keep []psCand
			for _, c := range cands {
				if !drop[c] {
					keep = append(keep, c)
				}
			}
			cands = keep
		}
		return cands, mapOK
	}
	var cands []psCand
	var mc *mapCand
	ok := false
	for _, x := range maps {
		c, good := try(x, false)
		if good || x == nil {
			cands, mc, ok = c, x, good
			break
		}
		if cands == nil {
			cands, mc = c, x
		}
	}
	if emits && !ok {
		if len(maps) == 0 {
			m.fail("merge-copy", L.Pos, "the positions of the merge are not loop variables")
			s.bad = true
			return nil
		}
	}
	// report what is wrong inside the body under the facts found
	var fin []*psState
	var finIt []*Iter
	for _, it := range L.Iters {
		st := s.clone()
		st.rebase(it.St.facts)
		st.segs, st.runs, st.full = nil, nil, nil
		st.scope = append(st.scope, varSyms(vars)...)
		all := cands
		if mc != nil {
			all = append(append([]psCand{}, cands...), mc)
		}
		var live []*psState
		for _, x := range m.assume(st, all) {
			if x.f.Feasible() {
				live = append(live, x)
			}
		}
		n := len(m.fails)
		ends := m.runList(it.Events, live)
		for _, e := range ends {
			fin, finIt = append(fin, e), append(finIt, it)
		}
		if emits && mc != nil {
			for _, e := range ends {
				if !mc.hold(m, e, it.Next) && len(m.fails) == n {
					m.fail("merge-copy", L.Pos, "a path through the loop does not copy the elements it passes to their positions, in order")
				}
			}
		}
	}
	m.rankLoop(L, finIt, fin)
	r := s
	if s.pivot != nil && !ok {
		r.pivot = nil
	}
	r.segs, r.runs, r.full = nil, nil, nil
	if !L.hasOps("copy rec ssort") {
		r.runs, r.full = s.runs, s.full
	}
	if emits && mc == nil {
		return nil
	}
	all := cands
	if mc != nil {
		all = append(append([]psCand{}, cands...), mc)
	}
	r.scope = append(r.scope, varSyms(vars)...)
	var out []*psState
	for _, x := range m.assume(r, all) {
		if x.f.Feasible() {
			out = append(out, x)
		}
	}
	return out
}

func varSyms(vs []*LoopVar) []*Term {
	var r []*Term
	for _, v := range vs {
		r = append(r, v.Sym)
	}
	return r
}

func mentions(t *Term, vars []*LoopVar) bool {
	for _, v := range vars {
		if contains(t, v.Sym) {
			return true
		}
	}
	return false
}

func (m *psMachine) candidates(L *Loop, s *psState, vars []*LoopVar, init map[*Term]*Term) []psCand {
	var r []psCand
	var anchors []*Term
	addA := func(t *Term) {
		for _, x := range anchors {
			if x == t {
				return
			}
		}
		anchors = append(anchors, t)
	}
	if m.mg != nil {
		for _, t := range m.mg.sp {
			addA(t)
		}
	} else {
		lo, hi := m.region()
		addA(lo)
		addA(hi)
		addA(m.length)
		if s.pivot != nil {
			addA(s.pivot)
		}
	}
	for _, t := range s.scope {
		addA(t)
	}
	for _, v := range vars {
		if !mentions(v.Init, vars) && v.Init.Op != "int" {
			addA(v.Init)
		}
	}
	var vt []*Term // terms of the loop's variables
	for _, v := range vars {
		vt = append(vt, v.Sym)
		if m.mg == nil {
			if lo, _ := m.region(); lo.Op != "int" || lo != mkInt(0) {
				vt = append(vt, add(lo, v.Sym))
			}
			for _, x := range L.Iters {
				_ = x
			}
		}
	}
	num := func(x, y *Term) {
		for k := int64(-1); k <= 1; k++ {
			c := le(x, addK(y, k))
			if isTrue(c) || isFalse(c) {
				continue
			}
			r = append(r, &numCand{c, fmt.Sprint(x.id, "<", y.id), int(k)})
		}
	}
	for i, x := range vt {
		for _, y := range anchors {
			num(x, y)
			num(y, x)
		}
		for j, y := range vt {
			if i != j {
				num(x, y)
			}
		}
		num(mkInt(0), x)
	}
	// the conditions of the loop, before and after a step
	known := map[*Term]bool{}
	for _, t := range append(append([]*Term{m.length}, anchors...), vt...) {
		for _, x := range toLin(t).at {
			known[x] = true
		}
	}
	for _, it := range L.Iters {
		for _, x := range it.St.facts.all() {
			if x.cond.Op != "le0" {
				continue
			}
			l := toLin(x.cond.Args[0])
			ok, uses := true, false
			step := map[*Term]*Term{}
			for _, a := range l.at {
				ok = ok && known[a]
				if n := it.Next[a]; n != nil {
					uses = true
					if k, c := sub(n, a).intConst(); c {
						step[a] = addK(a, -k)
					}
				}
			}
			if !ok || !uses || len(l.at) < 3 {
				continue
			}
			c := x.cond
			if !x.val {
				c = mkNot(c)
			}
			r = append(r, &numCand{c, "", 0}, &numCand{subst(c, step), "", 0})
		}
	}
	// segments
	kinds := ""
	switch {
	case m.mg != nil:
	case m.mode == 'q' && s.chose:
		kinds = "LG"
	case m.mode == 't':
		kinds = "O"
	}
	if kinds != "" {
		var pts []*Term
		for _, a := range anchors {
			pts = append(pts, a)
		}
		lo, hi := m.region()
		pts = append(pts, addK(lo, 1), addK(hi, -1))
		if m.mode == 't' {
			pts = append(pts, mkInt(1), mkInt(0))
		}
		for _, g := range s.segs {
			pts = append(pts, g.lo, g.hi)
		}
		var vp []*Term
		for _, x := range vt {
			vp = append(vp, addK(x, -1), x, addK(x, 1))
		}
		for _, k := range []byte(kinds) {
			for _, v := range vp {
				for _, p := range pts {
					r = append(r, &segCand{v, p, k}, &segCand{p, v, k})
				}
				for _, w := range vp {
					if v != w {
						r = append(r, &segCand{v, w, k})
					}
				}
			}
		}
		for _, g := range s.segs {
			r = append(r, &segCand{g.lo, g.hi, g.k})
		}
	}
	// comparisons next to the variables
	if m.mg != nil {
		for _, it := range L.Iters {
			for _, e := range it.Events {
				op := sortOp(e)
				if op == nil || op.kind != "less" {
					continue
				}
				d := it.St.facts.Decide(e.Res)
				if d == 0 {
					continue
				}
				for _, v := range vars {
					nx := it.Next[v.Sym]
					if nx == nil || nx == v.Sym {
						continue
					}
					if k := sub(op.a, nx); !mentions(k, vars) && !mentions(op.b, vars) {
						r = append(r, &tplCand{v, add(v.Sym, k), op.b, d > 0})
					}
					if k := sub(op.b, nx); !mentions(k, vars) && !mentions(op.a, vars) {
						r = append(r, &tplCand{v, op.a, add(v.Sym, k), d > 0})
					}
				}
			}
		}
	}
	return r
}

// ---- merging

type mergeSpec struct {
	x, y *Term
	sp   []*Term // lo1 hi1 lo2 hi2 out
}

func (m *psMachine) mapCands(s *psState, vars []*LoopVar, init map[*Term]*Term) []*mapCand {
	opts := func(h *Term) []*Term {
		var r []*Term
		for _, v := range vars {
			for k := int64(-1); k <= 1; k++ {
				if s.eq(addK(v.Init, k), h) {
					r = append(r, addK(v.Sym, k))
				}
			}
		}
		return append(r, h)
	}
	var r []*mapCand
	for _, a := range opts(s.h1) {
		for _, b := range opts(s.h2) {
			if a != b {
				r = append(r, &mapCand{a, b})
			}
		}
	}
	return r
}

// outCands: variables that hold the next position of the destination.
func (m *psMachine) outCands(vars []*LoopVar, mc *mapCand) []psCand {
	var r []psCand
	o := m.mg.outAt(mc.h1, mc.h2)
	for _, v := range vars {
		r = append(r, &numCand{eqInt(v.Sym, o), "", 0})
	}
	sp := m.mg.sp
	for _, c := range []*Term{le(sp[0], mc.h1), le(mc.h1, sp[1]), le(sp[2], mc.h2), le(mc.h2, sp[3])} {
		if !isTrue(c) {
			r = append(r, &numCand{c, "", 0})
		}
	}
	return r
}

func (g *mergeSpec) outAt(h1, h2 *Term) *Term {
	return add(g.sp[4], add(sub(h1, g.sp[0]), sub(h2, g.sp[2])))
}

func (m *psMachine) copyStep(e *Event, op *sop, s *psState) []*psState {
	if m.mg == nil {
		if m.mode != 's' {
			m.fail("use", e.Pos, "elements are copied by an algorithm that only exchanges them")
			return []*psState{s}
		}
		end := add(op.a, op.n)
		lo, hi := m.region()
		m.check(s.is(le(lo, op.a)) && s.is(le(mkInt(0), op.n)) && s.is(le(end, hi)), "ranges", e.Pos, "the copy to [%s, %s) is not known to be within [%s, %s)", short(op.a), short(end), short(lo), short(hi))
		ok := s.eq(op.a, op.b) && s.run(op.src, op.b, add(op.b, op.n))
		m.check(ok || op.arr != m.data, "runs", e.Pos, "the elements copied to [%s, %s) of the data are not the sorted ones of the same positions", short(op.a), short(end))
		s.dropRuns(op.arr, op.a, end)
		s.moved(m, op.src, op.arr, op.a, end, s.eq(op.a, op.b), e)
		if ok {
			s.runs = append(s.runs, pseg{lo: op.a, hi: end, k: 'R', arr: op.arr, e: e})
		}
		return []*psState{s}
	}
	g := m.mg
	if op.arr != g.y || op.src != g.x {
		m.fail("merge-copy", e.Pos, "elements are not copied from the collection being merged to the other one")
		return []*psState{s}
	}
	if !m.check(s.is(le(mkInt(0), op.n)), "merge-copy", e.Pos, "the number of elements copied (%s) is not known to be non-negative", short(op.n)) {
		s.bad = true
		return nil
	}
	end := add(op.b, op.n)
	em := emission{o: op.a, n: op.n, pos: e.Pos}
	switch {
	case s.is(le(g.sp[0], op.b)) && s.is(le(end, g.sp[1])):
		em.a1, em.b1 = op.b, end
	case s.is(le(g.sp[2], op.b)) && s.is(le(end, g.sp[3])):
		em.a2, em.b2 = op.b, end
	default:
		m.fail("merge-copy", e.Pos, "the elements [%s, %s) copied are not known to belong to one of the two runs", short(op.b), short(end))
		s.bad = true
		return nil
	}
	m.emit(s, em)
	return []*psState{s}
}

func (m *psMachine) emit(s *psState, em emission) {
	s.pend = append(s.pend, em)
}

// flush advances the cut over the pending emissions that continue it.
func (m *psMachine) flush(s *psState) {
	g := m.mg
	for len(s.pend) > 0 {
		o := g.outAt(s.h1, s.h2)
		moved := false
		for i, em := range s.pend {
			if !s.eq(em.o, o) {
				continue
			}
			if em.a1 != nil && !s.eq(em.a1, s.h1) || em.a2 != nil && !s.eq(em.a2, s.h2) {
				continue
			}
			c1, c2 := s.h1, s.h2
			if em.b1 != nil {
				c1 = em.b1
			}
			if em.b2 != nil {
				c2 = em.b2
			}
			m.cut(s, em, c1, c2)
			s.h1, s.h2 = c1, c2
			s.pend = append(append([]emission{}, s.pend[:i]...), s.pend[i+1:]...)
			moved = true
			break
		}
		if !moved {
			return
		}
	}
}

// cut checks that everything before the cut belongs before everything after
// it, ties of the left run first.
func (m *psMachine) cut(s *psState, em emission, c1, c2 *Term) {
	g := m.mg
	lo1, hi1, lo2, hi2 := g.sp[0], g.sp[1], g.sp[2], g.sp[3]
	// elements of run 2 before the cut are less than those of run 1 after it
	ok := s.eq(c2, s.h2) || s.eq(c1, hi1) || s.eq(c2, lo2)
	if !ok {
		for _, k := range s.know {
			if k.lt && s.is(le(addK(c2, -1), k.x)) && s.is(lt(k.x, hi2)) && s.is(le(lo1, k.y)) && s.is(le(k.y, c1)) {
				ok = true
			}
		}
	}
	m.check(ok, "merge-order", em.pos, "elements of the right run up to %s are placed before the left run's elements from %s on, without being known to be less", short(c2), short(c1))
	// elements of run 1 before the cut are not greater than those of run 2 after it
	ok = s.eq(c1, s.h1) || s.eq(c2, hi2) || s.eq(c1, lo1)
	if !ok {
		for _, k := range s.know {
			x, y := k.x, k.y // not less(x, y): y <= x; less(y, x) as well
			if k.lt {
				x, y = k.y, k.x
			}
			if s.is(le(lo2, x)) && s.is(le(x, c2)) && s.is(le(addK(c1, -1), y)) && s.is(lt(y, hi1)) {
				ok = true
			}
		}
	}
	m.check(ok, "merge-order", em.pos, "elements of the left run up to %s are placed before the right run's elements from %s on, without being known not to be greater", short(c1), short(c2))
}

// ---- whole functions

func (m *psMachine) start(f *Facts) *psState {
	return &psState{m: m, f: f}
}

func feasibleOuts(a *Analysis) []*Outcome {
	var r []*Outcome
	for _, o := range a.Outs {
		if o.St.facts.Feasible() {
			r = append(r, o)
		}
	}
	return r
}

func (m *psMachine) verify(rootA *Analysis) {
	m.mergeArrays()
	m.flagCells(rootA)
	m.cur, m.curH, m.mg = &psCtx{root: true, fn: m.root, kind: map[byte]string{'q': "sort", 's': "sort", 't': "test"}[m.mode]}, nil, nil
	m.verifyFn(rootA, m.cur.kind)
	for _, c := range m.order {
		h := m.hyps[c]
		if h == nil {
			continue
		}
		m.cur, m.curH, m.mg = c, h, nil
		a := m.analyse(c, h)
		if a.Err != nil {
			m.fail("undecided", c.fn.Pos(), "%v", a.Err)
			continue
		}
		m.fails = append(m.fails, m.colls...)
		if c.kind == "merge" {
			m.mg = &mergeSpec{x: c.x, y: c.y, sp: m.spec(c, h, c.ints)}
		}
		m.verifyFn(a, c.kind)
	}
	m.cur, m.curH, m.mg = nil, nil, nil
}

// mergeArrays finds the collections merge helpers copy from and to.
func (m *psMachine) mergeArrays() {
	for round := 0; round < 4; round++ {
		for _, c := range m.order {
			h := m.hyps[c]
			if c.kind != "merge" || h == nil {
				continue
			}
			a := m.analyse(c, h)
			if a.Err != nil {
				continue
			}
			for _, o := range a.Outs {
				allEvents(o.Events(), func(e *Event) {
					var x, y *Term
					if op := sortOp(e); op != nil && op.kind == "copy" {
						x, y = op.src, op.arr
					} else if e.Kind == "rec" {
						if d := m.ctxOf(e); d != nil && d.kind == "merge" {
							x, y = d.x, d.y
						}
					}
					if x != nil && c.x == nil {
						c.x, c.y = x, y
					}
				})
			}
		}
	}
}

// flagCells finds the variables that record that some pair is out of order:
// they are zero at first and only set after such a pair was found.
func (m *psMachine) flagCells(rootA *Analysis) {
	m.flag = map[*Term]string{}
	if m.mode != 't' {
		return
	}
	as := []*Analysis{rootA}
	for _, c := range m.order {
		if h := m.hyps[c]; h != nil {
			as = append(as, m.analyse(c, h))
		}
	}
	for _, a := range as {
		for _, o := range a.Outs {
			allEvents(o.Events(), func(e *Event) {
				if e.Kind == "atomic" && e.Recv != nil {
					m.flag[e.Recv] = "?"
				}
			})
		}
	}
}

func (m *psMachine) verifyFn(a *Analysis, kind string) {
	n := 0
	for _, o := range feasibleOuts(a) {
		if o.Kind == "panic" {
			if m.panics {
				continue
			}
			m.fail("panics", o.Site, "panics on its own")
			continue
		}
		if o.Kind != "ret" {
			continue
		}
		n++
		switch {
		case kind == "merge":
			m.mergePath(o)
		case kind == "test":
			m.testPath(o)
		default:
			m.sortPath(o)
		}
	}
	if n == 0 {
		m.fail("paths", a.Fn.Pos(), "never returns")
	}
}

func (m *psMachine) mergePath(o *Outcome) {
	s := m.start(o.St.facts)
	s.h1, s.h2 = m.mg.sp[0], m.mg.sp[2]
	n := len(m.fails)
	for _, e := range m.runList(o.Events(), []*psState{s}) {
		if e.broke {
			continue
		}
		m.flush(e)
		if len(e.pend) > 0 {
			if len(m.fails) == n {
				em := e.pend[0]
				m.fail("merge-copy", em.pos, "the elements copied to position %s are not the next ones of the merge: the positions written so far end at %s", short(em.o), short(m.mg.outAt(e.h1, e.h2)))
			}
			continue
		}
		m.check(e.eq(e.h1, m.mg.sp[1]), "merge-copy", m.cur.fn.Pos(), "a path ends with the left run merged up to %s only", short(e.h1))
		m.check(e.eq(e.h2, m.mg.sp[3]), "merge-copy", m.cur.fn.Pos(), "a path ends with the right run merged up to %s only", short(e.h2))
	}
}

// pivotPlans lists where, and when, the pivot may have been placed.
func (m *psMachine) pivotPlans(es []*Event) (at int, pos []*Term) {
	at = -1
	for i, e := range es {
		if e.Loop != nil && e.Loop.hasOps("swap") {
			at = i
			break
		}
	}
	if at < 0 {
		for i, e := range es {
			if e.Loop != nil && e.Loop.hasOps("less") {
				at = i
				break
			}
		}
	}
	if at < 0 {
		return -1, nil
	}
	lo, hi := m.region()
	pos = []*Term{lo, addK(hi, -1)}
	L := es[at].Loop
	vars := L.Vars
	allEvents([]*Event{es[at]}, func(e *Event) {
		op := sortOp(e)
		if op == nil || op.kind != "less" {
			return
		}
		for _, t := range []*Term{op.a, op.b} {
			if !mentions(t, vars) {
				dup := false
				for _, p := range pos {
					dup = dup || p == t
				}
				if !dup && len(pos) < 6 {
					pos = append(pos, t)
				}
			}
		}
	})
	// back to the last exchange before the loop
	j := at
	for j > 0 {
		if op := sortOp(es[j-1]); op != nil && op.kind == "swap" {
			break
		}
		j--
	}
	return j, pos
}

func (m *psMachine) sortPath(o *Outcome) {
	es := o.Events()
	at, pos := -1, []*Term(nil)
	if m.mode == 'q' {
		at, pos = m.pivotPlans(es)
	}
	if at < 0 {
		m.sortEnds(o, m.runList(es, []*psState{m.start(o.St.facts)}))
		return
	}
	saveF, saveC := m.fails, m.count
	var bestF []psFail
	var bestC map[string]int
	for i, p := range pos {
		m.fails, m.count = append([]psFail{}, saveF...), cp(saveC)
		sts := m.runList(es[:at], []*psState{m.start(o.St.facts)})
		for _, s := range sts {
			s.choose(p)
		}
		m.sortEnds(o, m.runList(es[at:], sts))
		if i == 0 || len(m.fails) < len(bestF) {
			bestF, bestC = m.fails, m.count
		}
		if len(bestF) == len(saveF) {
			break
		}
	}
	m.fails, m.count = bestF, bestC
}

func (m *psMachine) sortEnds(o *Outcome, sts []*psState) {
	lo, hi := m.region()
	for _, s := range sts {
		if s.broke {
			continue
		}
		if s.is(le(hi, addK(lo, 1))) {
			m.good("sorted")
			continue
		}
		if m.mode == 's' {
			m.check(s.run(m.data, lo, hi) || sortedKnown(s, lo, hi), "sorted", m.endPos(o), "a path ends without [%s, %s) of the data being sorted", short(lo), short(hi))
			continue
		}
		m.check(m.partitioned(s, lo, hi), "sorted", m.endPos(o), "a path ends without [%s, %s) being sorted: its parts are not sorted ranges with the pivot between them", short(lo), short(hi))
	}
}

func sortedKnown(s *psState, lo, hi *Term) bool {
	for _, c := range s.calls {
		if c.k == 'I' && s.is(le(c.lo, lo)) && s.is(le(hi, c.hi)) {
			return true
		}
	}
	return false
}

func (m *psMachine) endPos(o *Outcome) token.Pos {
	p := m.root.Pos()
	if m.cur != nil {
		p = m.cur.fn.Pos()
	}
	for _, e := range o.Events() {
		if e.Pos.IsValid() && (e.Kind == "pardo" || e.Kind == "rec" || sortOp(e) != nil || e.Kind == "loop") {
			p = e.Pos
		}
	}
	return p
}

func (m *psMachine) partitioned(s *psState, lo, hi *Term) bool {
	if sortedKnown(s, lo, hi) {
		return true
	}
	for _, c := range s.calls {
		if c.k == 'S' && s.eq(c.lo, lo) && s.eq(c.hi, hi) {
			return true
		}
	}
	if !s.chose {
		return false
	}
	cs := append([]pseg{}, s.calls...)
	cs = append(cs, pseg{lo: lo, hi: lo}, pseg{lo: hi, hi: hi}, pseg{lo: lo, hi: addK(lo, 1)}, pseg{lo: addK(hi, -1), hi: hi})
	for _, a := range cs {
		if !s.eq(a.lo, lo) || !s.cover(a.lo, a.hi, 'L') {
			continue
		}
		for _, b := range cs {
			if !s.eq(b.hi, hi) || !s.is(le(a.hi, b.lo)) || !s.cover(b.lo, b.hi, 'G') {
				continue
			}
			if s.cover(a.hi, b.lo, 'L') && s.cover(a.hi, b.lo, 'G') {
				return true
			}
		}
	}
	return false
}

// ---- tests for sortedness

// decideAs gives the ways in which a boolean term can have a value.
func decideAs(t *Term, v bool) [][]*Term {
	switch t.Op {
	case "not":
		return decideAs(t.Args[0], !v)
	case "band", "bor":
		if v == (t.Op == "band") {
			r := [][]*Term{nil}
			for _, a := range t.Args {
				var n [][]*Term
				for _, x := range r {
					for _, y := range decideAs(a, v) {
						n = append(n, append(append([]*Term{}, x...), y...))
					}
				}
				r = n
			}
			return r
		}
		var r [][]*Term
		for _, a := range t.Args {
			r = append(r, decideAs(a, v)...)
		}
		return r
	}
	if isTrue(t) || isFalse(t) {
		if isTrue(t) == v {
			return [][]*Term{nil}
		}
		return nil
	}
	if !v {
		t = mkNot(t)
	}
	return [][]*Term{{t}}
}

func (m *psMachine) testPath(o *Outcome) {
	if len(o.Res) != 1 {
		return
	}
	lo, hi := m.region()
	if m.cur.root {
		lo = mkInt(1)
	}
	for _, v := range []bool{true, false} {
		for _, conds := range decideAs(o.Res[0], v) {
			f := o.St.facts
			for _, c := range conds {
				f = f.add(c, true)
			}
			if !f.Feasible() {
				continue
			}
			for _, s := range m.runList(o.Events(), []*psState{m.start(f)}) {
				if !s.f.Feasible() || s.broke {
					continue
				}
				if v {
					m.check(s.cover(lo, hi, 'O'), "test-true", m.endPos(o), "true is returned on a path that has not found every pair from position %s up to %s in order", short(lo), short(hi))
				} else {
					m.check(s.evid, "test-false", m.endPos(o), "false is returned on a path that has not found a pair out of order")
				}
			}
			m.unjoined(o, f)
		}
	}
	if o.Res[0] == nil {
		return
	}
}

// unjoined runs over the tasks whose end the path does not wait for.
func (m *psMachine) unjoined(o *Outcome, f *Facts) {
	for _, tr := range o.St.tasks {
		if tr.Joined != nil {
			continue
		}
		for _, t := range tr.T.Outs {
			if t.Kind == "ret" {
				m.runList(t.Events(), []*psState{m.start(t.St.facts)})
			}
		}
	}
}

func sortFails(l []psFail) {
	sort.SliceStable(l, func(i, j int) bool { return l[i].pos < l[j].pos })
}
