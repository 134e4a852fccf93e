package main

// C11-C15, C34: the sorting algorithms of package psort.

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// psortRuns keeps the analyses of this process: several properties are read
// off the same one.
var psortRuns = map[*Program]map[byte]*psMachine{}

// psortRun analyses one of the three algorithms.
func (c *Ctx) psortRun(mode byte) *psMachine {
	name := map[byte]string{'q': "psort.Sort", 's': "psort.StableSort", 't': "psort.IsSorted"}[mode]
	fn := c.mustFn(name)
	if fn == nil {
		return nil
	}
	if psortRuns[c.P] == nil {
		psortRuns[c.P] = map[byte]*psMachine{}
	}
	m := psortRuns[c.P][mode]
	if m == nil {
		m = newCtx(c.P, c.Prop, c.Tier).psortMachine(mode, fn)
		psortRuns[c.P][mode] = m
		a := m.analyseRoot()
		m.rootA = a
		if a.Err != nil {
			m.fails = append(m.fails, psFail{"undecided", name, fn.Pos(), a.Err.Error()})
		} else {
			m.solve(a)
		}
		m.shared = m.c
	}
	c.absorb(m.shared)
	r := *m
	r.c = c
	r.fails = append([]psFail(nil), m.fails...)
	r.count = map[string]int{}
	for k, v := range m.count {
		r.count[k] = v
	}
	return &r
}

func (c *Ctx) psortMachine(mode byte, fn *ssa.Function) *psMachine {
	m := &psMachine{c: c, mode: mode, root: fn, ctxs: map[string]*psCtx{}, hyps: map[*psCtx]*psHyp{}, count: map[string]int{}, cutIS: mode != 't', ended: map[*ssa.BasicBlock]bool{}}
	m.data = ParamTerms(fn)[0]
	m.length = freshSym("Len", tyInt)
	return m
}

// psortEmit reports what concerns a property.
func (c *Ctx) psortEmit(m *psMachine, rules string) {
	if m == nil {
		return
	}
	in := func(r string) bool {
		for _, x := range strings.Fields(rules) {
			if x == r {
				return true
			}
		}
		return r == "undecided" || r == "paths" || r == "panics"
	}
	for _, k := range sortedKeys(m.count) {
		if in(k) {
			for i := 0; i < m.count[k]; i++ {
				c.ok(k, shortFn(m.root), "holds on every path")
			}
		}
	}
	sortFails(m.fails)
	for _, f := range m.fails {
		if in(f.rule) {
			c.fail(f.rule, f.construct, f.pos, "%s", f.msg)
		}
	}
}

func (c *Ctx) psortFloor(m *psMachine, rules map[string]int) {
	if m == nil {
		return
	}
	for _, k := range sortedKeys(rules) {
		n := m.count[k]
		for _, f := range m.fails {
			if f.rule == k {
				n = rules[k]
			}
		}
		c.floor(fmt.Sprintf("%s (%s)", k, shortFn(m.root)), n, rules[k])
	}
}

var sortTrust = []string{
	"Less is a strict weak order and Swap, SequentialSort, Assign and NewTemp do what their documentation says",
	"sort.Search, sync and packages parallel and speculative meet their contracts (the latter decided by C01-C09)",
}

func init() {
	register("C11", "segment automaton over every path of Sort and StableSort and their helpers (loops by the largest inductive set of candidate facts, recursive helpers by hypotheses about their parameters that every call must meet): data is only swapped and sorted within its bounds, and Less is only called within the data, and each position of a merge destination is written once, from successive positions of the two runs, the source holding the elements of the data", func(c *Ctx) {
		q := c.psortRun('q')
		c.psortEmit(q, "use swap position ranges calls")
		s := c.psortRun('s')
		c.psortEmit(s, "use position ranges calls merge-copy content")
		c.psortFloor(q, map[string]int{"swap": 1, "ranges": 1})
		c.psortFloor(s, map[string]int{"merge-copy": 1, "ranges": 1, "position": 1})
	}, sortTrust...)
	register("C12", "segment automaton over every path of StableSort and its merges (loops by the largest inductive set of candidate facts, recursive helpers by hypotheses about their parameters that every call must meet): each element or range put at the end of the destination belongs before all that is left of both runs, ties of the left run first, as comparisons and searches on the path show", func(c *Ctx) {
		s := c.psortRun('s')
		c.psortEmit(s, "merge-order merge-copy runs sorted progress calls")
		c.psortFloor(s, map[string]int{"merge-order": 1, "runs": 1, "sorted": 1})
	}, sortTrust...)
	register("C13", "segment automaton over every path of Sort (loops by the largest inductive set of candidate facts, recursive helpers by hypotheses about their parameters that every call must meet): at the recursive calls the data is two parts around the pivot, not greater before it and not less after it, both are sorted and no position is left out", func(c *Ctx) {
		q := c.psortRun('q')
		c.psortEmit(q, "position swap ranges calls progress sorted use")
		c.psortFloor(q, map[string]int{"position": 1, "swap": 1, "sorted": 1, "progress": 1})
	}, sortTrust...)
	register("C14", "effects of all pairs of tasks of every parallel construct in package psort; every path of Sort, StableSort and IsSorted, panics included, waits for all tasks", func(c *Ctx) {
		for _, mode := range []byte("qst") {
			m := c.psortRun(mode)
			if m == nil {
				continue
			}
			if m.rootA.Err == nil {
				m.races(m.rootA)
			}
			c.psortEmit(m, "disjoint cells pending background calls ranges")
			e := c.psortMachine(mode, m.root)
			e.panics = true
			e.ends()
			c.psortEmit(e, "ended buffer")
			c.psortFloor(m, map[byte]map[string]int{'q': {"disjoint": 1}, 's': {"disjoint": 1}, 't': {"cells": 0}}[mode])
			c.psortFloor(e, map[byte]map[string]int{'q': {"ended": 1}, 's': {"ended": 1}, 't': {"ended": 1}}[mode])
		}
	}, sortTrust...)
	register("C15", "segment automaton over every path of IsSorted (loops by the largest inductive set of candidate facts, recursive helpers by hypotheses about their parameters that every call must meet): true is only returned where all adjacent pairs were seen to be in order, false only where one was seen not to be", func(c *Ctx) {
		t := c.psortRun('t')
		c.psortEmit(t, "position test-true test-false flag calls progress use")
		c.psortFloor(t, map[string]int{"position": 1, "test-true": 1, "test-false": 1})
		c.sortedConvenience()
	}, sortTrust...)
	register("C34", "segment automata of Sort and StableSort: on every path to a return the whole data is one sorted segment, given the same of the recursive calls, whose ranges shrink", func(c *Ctx) {
		c.psortEmit(c.psortRun('q'), "position swap ranges calls progress sorted use")
		c.psortEmit(c.psortRun('s'), "ranges calls progress sorted use merge-order merge-copy runs")
		// Sort leaves data alone that IsSorted calls sorted
		c.psortEmit(c.psortRun('t'), "position test-true flag calls progress use")
	}, sortTrust...)
}

// sortedConvenience: IntsAreSorted and the like test the slice they are given.
func (c *Ctx) sortedConvenience() {
	n := 0
	for _, name := range []string{"IntsAreSorted", "Float64sAreSorted", "StringsAreSorted"} {
		fn := c.mustFn("psort." + name)
		if fn == nil {
			continue
		}
		m := &psMachine{c: c, cutIS: true}
		p := ParamTerms(fn)[0]
		an := c.analyze(fn, nil, nil, nil, Config{Contract: m.contract})
		if an.Err != nil {
			c.undecided("convenience", shortFn(fn), fn.Pos(), an.Err)
			continue
		}
		for _, o := range an.Outs {
			if o.Kind != "ret" || len(o.Res) != 1 {
				c.fail("convenience", shortFn(fn), fn.Pos(), "panics on its own")
				continue
			}
			ok := false
			for _, e := range o.Events() {
				if e.Kind == "issorted" && e.Res == o.Res[0] && convOf(e.Args[0]) == p {
					ok = true
				}
			}
			if c.require(ok, "convenience", shortFn(fn), fn.Pos(), "returns whether its argument is sorted") {
				n++
			}
		}
	}
	c.floor("convenience", n, 3)
}

func convOf(t *Term) *Term {
	for t != nil && (t.Op == "mkiface" || t.Op == "assert" || t.Op == "conv" || t.Op == "changetype") {
		t = t.Args[0]
	}
	return t
}
