package main

// C38: the loops of the library end. For every loop a measure is looked for
// that no iteration increases, that some iterations decrease, and that those
// find at or above a bound that is fixed before the loop; the other iterations
// need another such measure. Iterations that wait for someone else (a channel,
// a condition variable, the next data of a source) are left out.

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C38", "for every loop of the library, on every abstract path through an iteration that does not wait: an integer measure that strictly decreases and is bounded by values fixed before the loop (lexicographically where one measure does not do); in psort, comparisons of the same elements have the same result; recursive calls of the forking functions and of the sorts are for smaller ranges", runC38,
		"user functions and the methods of user data return, and comparisons are consistent while nothing is exchanged",
		"sources run out of data",
		"user-written nodes, sources, filters and range functions leave the nodes of a running pipeline alone",
		"integers do not overflow")
}

type rankEnd struct {
	f      *Facts
	next   map[*Term]*Term
	contra func(f *Facts) bool // a contradiction beyond the inequalities
	hints  []*Term             // fixed values that may be bounds
	evs    []*Event
	paths  map[string]bool // lists that do not change any more
}

// measures lists the integer terms that may measure the progress of a loop.
func (L *Loop) measures() []*Term {
	var at []*Term
	for _, v := range L.Vars {
		switch {
		case isIntType(v.Sym.Typ):
			at = append(at, v.Sym)
		case v.Sym.Typ != nil && isSliceT(v.Sym.Typ):
			at = append(at, mkLen(v.Sym))
		}
	}
	zero := mkInt(0)
	var r []*Term
	for _, a := range at {
		r = append(r, a, sub(zero, a))
	}
	for i, a := range at {
		for _, b := range at[i+1:] {
			r = append(r, sub(a, b), sub(b, a), add(a, b), sub(zero, add(a, b)))
		}
	}
	return r
}

// step gives the value of a measure after an iteration.
func (e *rankEnd) step(M *Term, L *Loop) *Term {
	r := mkInt(toLin(M).k)
	l := toLin(M)
	for i, a := range l.at {
		n := a
		switch {
		case a.Op == "len":
			if x, ok := e.next[a.Args[0]]; ok {
				n = mkLen(x)
			}
		default:
			if x, ok := e.next[a]; ok {
				n = x
			}
		}
		r = add(r, mul(mkInt(l.co[i]), n))
	}
	return r
}

// bounded: M is at least some value fixed before the loop.
func (e *rankEnd) bounded(M *Term, L *Loop) bool {
	for _, k := range []int64{0, -1, -2} {
		if e.f.Entails(le(mkInt(k), M)) {
			return true
		}
	}
	for _, h := range e.hints {
		if e.f.Entails(le(sub(mkInt(0), h), M)) {
			return true
		}
	}
	m := toLin(M)
	own := map[*Term]bool{}
	for _, v := range L.Vars {
		own[v.Sym] = true
		own[mkLen(v.Sym)] = true
	}
	for _, x := range e.f.all() {
		if x.cond == nil || x.cond.Op != "le0" {
			continue
		}
		q := toLin(x.cond.Args[0])
		if !x.val {
			q = linAdd(&Lin{k: 1}, q, -1)
		}
		// q <= 0 with q = -c*M + rest
		var rest *Lin = q
		c := int64(0)
		for i, a := range m.at {
			if j := q.coef(a); j != 0 && m.co[i] != 0 && -j%m.co[i] == 0 && -j/m.co[i] > 0 {
				c = -j / m.co[i]
			}
			break
		}
		if c == 0 {
			continue
		}
		rest = linAdd(q, m, c)
		ok := true
		for i, a := range rest.at {
			if a.Op == "len" && e.paths[Path(a.Args[0])] {
				continue
			}
			if rest.co[i] != 0 && !(L.fixed != nil && L.fixed(a) && !own[a]) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	// each part by itself
	if len(m.at) > 1 {
		for i, a := range m.at {
			if !e.bounded(mul(mkInt(m.co[i]), a), L) {
				return false
			}
		}
		return true
	}
	return false
}

func (e *rankEnd) decreases(M *Term, L *Loop) bool {
	n := e.step(M, L)
	if !e.f.Entails(lt(n, M)) {
		if e.contra == nil || !e.f.Entails(le(n, M)) || !e.contra(e.f.add(eqInt(n, M), true)) {
			return false
		}
	}
	return e.bounded(M, L)
}

// ranked looks for measures that show that a loop ends.
func (L *Loop) ranked(ends []*rankEnd) bool {
	ms := L.measures()
	ends = L.consumes(ends, ms)
	for len(ends) > 0 {
		var rest []*rankEnd
		found := false
		for _, M := range ms {
			rest = nil
			ok := true
			for _, e := range ends {
				if e.decreases(M, L) {
					continue
				}
				if !e.f.Entails(le(e.step(M, L), M)) {
					ok = false
					break
				}
				rest = append(rest, e)
			}
			if ok && len(rest) < len(ends) {
				found = true
				break
			}
		}
		for _, v := range L.Vars {
			if found || v.Sym.Typ == nil || !isBoolType(v.Sym.Typ) {
				continue
			}
			// a flag that is cleared, and not set again
			rest = nil
			ok := true
			for _, e := range ends {
				n := e.next[v.Sym]
				was, is := e.f.Decide(v.Sym), 0
				if n != nil {
					is = e.f.Decide(n)
				}
				switch {
				case was > 0 && is < 0:
				case was > 0 || is < 0 || n == v.Sym:
					rest = append(rest, e)
				default:
					ok = false
				}
			}
			found = ok && len(rest) < len(ends)
		}
		if !found {
			return false
		}
		ends = rest
	}
	return true
}

// splitFlags looks at iterations separately by what they leave in flags.
func (L *Loop) splitFlags(ends []*rankEnd) []*rankEnd {
	for _, v := range L.Vars {
		if v.Sym.Typ == nil || !isBoolType(v.Sym.Typ) {
			continue
		}
		var r []*rankEnd
		for _, e := range ends {
			n := e.next[v.Sym]
			if n == nil || len(ends) > 64 || e.f.Decide(n) != 0 {
				r = append(r, e)
				continue
			}
			for _, val := range []bool{true, false} {
				x := *e
				if x.f = e.f.add(n, val); x.f.Feasible() {
					r = append(r, &x)
				}
			}
		}
		ends = r
	}
	return ends
}

// consumes leaves out iterations that take an element out of a list or a map
// to which no iteration adds anything.
func (L *Loop) consumes(ends []*rankEnd, ms []*Term) []*rankEnd {
	places := map[string]bool{}
	shrink := map[*rankEnd]map[string]bool{}
	grown := map[string]bool{}
	taken := map[*rankEnd]map[*Term]bool{}
	filled := map[*Term]bool{}
	for _, e := range ends {
		shrink[e], taken[e] = map[string]bool{}, map[*Term]bool{}
		top := map[*Event]bool{}
		for _, x := range e.evs {
			top[x] = true
		}
		for _, x := range deepFlat(e.evs) {
			switch x.Kind {
			case "st":
				p := addrPath(x.Recv)
				d, ok := x.Args[0].Ref.(*Event)
				if ok && top[x] && d.Kind == "ext" && d.Name == "slices.Delete" && len(d.Args) == 3 && Path(d.Args[0]) == p && e.f.Entails(lt(d.Args[1], d.Args[2])) {
					places[p] = true
					shrink[e][p] = true
				} else {
					grown[p] = true
				}
			case "mapset":
				filled[x.Recv] = true
			case "mapdel":
				taken[e][x.Recv] = true
			}
		}
	}
	// maps: a key that is present is taken out, or keys are tried in order
	var rest []*rankEnd
	for _, e := range ends {
		out := false
		for _, x := range e.f.all() {
			h := x.cond
			if h == nil || !x.val || h.Op != "maphas" || len(h.Args) != 2 || filled[h.Args[0]] || h.Args[0].Op != "makemap" {
				continue
			}
			if taken[e][h.Args[0]] {
				for _, y := range e.evs {
					if y.Kind == "mapdel" && y.Recv == h.Args[0] && len(y.Args) == 1 && (y.Args[0] == h.Args[1] || e.f.Entails(eqInt(y.Args[0], h.Args[1]))) {
						out = true
					}
				}
			}
			for _, M := range ms {
				if len(toLin(M).at) == 1 && toLin(M).co[0] == 1 && e.f.Entails(lt(M, e.step(M, L))) {
					if _, k := sub(h.Args[1], M).intConst(); k {
						out = true
					}
				}
			}
		}
		if !out {
			rest = append(rest, e)
		}
	}
	if len(rest) < len(ends) {
		// the others must not touch what the order of the keys depends on
		for _, e := range rest {
			for _, M := range ms {
				if len(toLin(M).at) == 1 && toLin(M).co[0] == 1 && !e.f.Entails(le(M, e.step(M, L))) {
					return ends
				}
			}
		}
	}
	ends, rest = rest, nil
	for _, e := range ends {
		out := false
		e.paths = map[string]bool{}
		for p := range places {
			if !grown[p] {
				out = out || shrink[e][p]
				e.paths[p] = true
			}
		}
		if !out {
			rest = append(rest, e)
		}
	}
	return rest
}

// waits: an iteration that stops until someone else does something.
func waits(evs []*Event, f *Facts) bool {
	for _, e := range evs {
		switch {
		case e.Kind == "recv" || e.Kind == "send" || e.Kind == "condwait" || e.Kind == "select" && e.Block:
			return true
		case isSource(e, "Fetch"):
			return true
		case e.Kind == "atomic" && strings.HasPrefix(e.Name, "CompareAndSwap") && exchanges(e, evs, f):
			return true
		case e.Kind == "ext" && (strings.HasSuffix(e.Name, ".Scan") || strings.HasSuffix(e.Name, ".Wait")):
			return true
		}
	}
	return false
}

// exchanges tells whether a CompareAndSwap changes the value this iteration has
// seen, unless somebody else has done so: another iteration like this one then
// needs somebody to change the value back.
func exchanges(e *Event, evs []*Event, f *Facts) bool {
	if len(e.Args) != 2 {
		return false
	}
	if f.Decide(e.Res) >= 0 && !f.Entails(mkNot(mkEq(e.Args[0], e.Args[1]))) && !(isNil(e.Args[0]) && e.Args[1].Op == "alloc") {
		return false
	}
	for _, l := range evs {
		if l.Kind == "atomic" && strings.HasPrefix(l.Name, "Load") && l.Recv == e.Recv && l.Res != nil && (l.Res == e.Args[0] || f.Entails(mkEq(l.Res, e.Args[0]))) {
			return true
		}
	}
	return false
}

type termRule struct {
	c    *Ctx
	seen map[*ssa.BasicBlock]bool
	done map[*Loop]bool
}

func (b *termRule) evs(evs []*Event) {
	for _, e := range evs {
		if e.Kind == "loop" {
			b.loop(e.Loop)
			for _, it := range e.Loop.Iters {
				b.evs(it.Events)
			}
		}
		if e.Task != nil && (e.Kind == "go" || e.Kind == "parrange") {
			b.outs(e.Task.Outs)
		}
		for _, o := range e.Subs {
			b.outs([]*Outcome{o})
		}
	}
}

func (b *termRule) outs(outs []*Outcome) {
	for _, o := range outs {
		b.evs(o.Events())
	}
}

func (b *termRule) loop(L *Loop) {
	if b.done[L] {
		return
	}
	b.done[L] = true
	b.seen[L.Header] = true
	ends := L.busy()
	if !b.c.require(L.ranked(L.splitFlags(ends)), "ends", shortFn(L.Fn), L.Pos, "the loop ends: an iteration that does not wait makes progress towards a fixed bound") && os.Getenv("VERIF_DEBUG") != "" {
		for _, v := range L.Vars {
			fmt.Println("  var", v.Sym, "init", v.Init)
		}
		for _, e := range ends {
			fmt.Println("  end", e.next, e.f)
		}
	}
}

// busy returns the iterations that do not wait.
func (L *Loop) busy() []*rankEnd {
	var ends []*rankEnd
	for _, it := range L.Iters {
		if !waits(it.Events, it.St.facts) && it.St.facts.Feasible() {
			ends = append(ends, &rankEnd{f: it.St.facts, next: it.Next, evs: it.Events})
		}
	}
	return ends
}

// spins tells whether the loop may go on until somebody else does something,
// without waiting.
func (L *Loop) spins() bool { return !L.ranked(L.splitFlags(L.busy())) }

func runC38(c *Ctx) {
	b := &termRule{c: c, seen: map[*ssa.BasicBlock]bool{}, done: map[*Loop]bool{}}
	c.withBounds(func(id string) bool {
		switch id {
		case "C11", "C12", "C13", "C14", "C15", "C34", "C36", "C38", "C39", "C40", "C41":
			return false
		}
		return true
	}, func(id string, a *Analysis) {
		if a.Err == nil {
			b.outs(a.Outs)
		}
	})
	TT = newTermTab()
	n := len(b.done)
	for _, mode := range []byte("qst") {
		m := c.psortRun(mode)
		if m == nil {
			continue
		}
		c.psortEmit(m, "ends progress")
		for h := range m.ended {
			b.seen[h] = true
		}
	}
	// loops that none of the analyses reached
	var left []*ssa.Function
	for _, pkg := range []string{"internal", "parallel", "speculative", "psort", "gsync", "pipeline"} {
		for _, fn := range c.P.allFuncs(pkg) {
			for _, h := range loopHeaders(fn) {
				if !b.seen[h] && fn.Synthetic == "" && h.Comment != "recover" {
					left = append(left, fn)
					break
				}
			}
		}
	}
	sort.Slice(left, func(i, j int) bool { return left[i].String() < left[j].String() })
	for _, fn := range left {
		a := c.analyze(fn, nil, nil, nil, Config{})
		if a.Err != nil {
			c.undecided("ends", shortFn(fn), fn.Pos(), a.Err)
			continue
		}
		b.outs(a.Outs)
		for _, h := range loopHeaders(fn) {
			if !b.seen[h] {
				c.fail("ends", shortFn(fn), fn.Pos(), "a loop of this function is not reached by the analysis")
			}
		}
	}
	c.floor("loops", n, 20)
}

// loopHeaders lists the blocks that loops of a function return to.
func loopHeaders(fn *ssa.Function) []*ssa.BasicBlock {
	var r []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				r = append(r, b)
				break
			}
		}
	}
	return r
}

// rankLoop checks that a loop of a sorting function ends, given what is known
// after each iteration.
func (m *psMachine) rankLoop(L *Loop, its []*Iter, ends []*psState) {
	var rs []*rankEnd
	for i, e := range ends {
		if !waits(its[i].Events, e.f) && e.f.Feasible() && !e.contradicts(e.f) {
			rs = append(rs, &rankEnd{f: e.f, next: its[i].Next, contra: e.contradicts, hints: []*Term{m.length}, evs: its[i].Events})
		}
	}
	if m.mute == 0 {
		m.ended[L.Header] = true
	}
	pos := L.Pos
	if !pos.IsValid() {
		pos = token.NoPos
	}
	m.check(L.ranked(rs), "ends", pos, "the loop is not known to end: an iteration may make no progress towards a fixed bound")
}

// contradicts: two comparisons of the same elements had different results.
func (s *psState) contradicts(f *Facts) bool {
	if !f.Feasible() {
		return true
	}
	for i, a := range s.know {
		for _, b := range s.know[:i] {
			if a.lt != b.lt && f.Entails(eqInt(a.x, b.x)) && f.Entails(eqInt(a.y, b.y)) {
				return true
			}
		}
		if a.lt && f.Entails(eqInt(a.x, a.y)) {
			return true
		}
	}
	return false
}
