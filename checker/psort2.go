package main

// C14: what the concurrent tasks of the sorting algorithms access, and that
// all of them have ended when the function returns.

import (
	"fmt"
	"go/token"
)

type peff struct {
	arr    *Term // nil: every collection
	lo, hi *Term
	write  bool
	pos    token.Pos
	f      *Facts
	what   string
}

// effects lists the positions a list of events accesses.
func (m *psMachine) effects(es []*Event, f *Facts) []peff {
	var r []peff
	one := func(arr, at *Term, w bool, e *Event, what string) {
		r = append(r, peff{arr, at, addK(at, 1), w, e.Pos, f, what})
	}
	for _, e := range es {
		if op := sortOp(e); op != nil {
			switch op.kind {
			case "less":
				one(op.arr, op.a, false, e, "Less")
				one(op.arr, op.b, false, e, "Less")
			case "swap":
				one(op.arr, op.a, true, e, "Swap")
				one(op.arr, op.b, true, e, "Swap")
			case "ssort":
				r = append(r, peff{op.arr, op.a, op.b, true, e.Pos, f, "SequentialSort"})
			case "copy":
				r = append(r, peff{op.arr, op.a, add(op.a, op.n), true, e.Pos, f, "copying"})
				r = append(r, peff{op.src, op.b, add(op.b, op.n), false, e.Pos, f, "copying"})
			}
			continue
		}
		switch e.Kind {
		case "issorted", "ext":
			for _, a := range e.Args {
				if arrOf(a) == m.data {
					r = append(r, peff{m.data, mkInt(0), m.length, false, e.Pos, f, "testing for sortedness"})
				}
			}
		case "rec":
			c := m.ctxOf(e)
			if c == nil || m.hyps[c] == nil {
				r = append(r, peff{nil, mkInt(0), m.length, true, e.Pos, f, "an unknown call"})
				continue
			}
			sp := m.spec(c, m.hyps[c], intArgs(c, e))
			switch c.kind {
			case "sort":
				r = append(r, peff{nil, sp[0], sp[1], true, e.Pos, f, "sorting"})
			case "test":
				r = append(r, peff{m.data, addK(sp[0], -1), sp[1], false, e.Pos, f, "testing"})
			case "merge":
				r = append(r, peff{c.x, sp[0], sp[1], false, e.Pos, f, "merging"}, peff{c.x, sp[2], sp[3], false, e.Pos, f, "merging"})
				r = append(r, peff{c.y, sp[4], add(sp[4], add(sub(sp[1], sp[0]), sub(sp[3], sp[2]))), true, e.Pos, f, "merging"})
			}
		case "loop":
			for _, it := range e.Loop.Iters {
				r = append(r, m.effects(it.Events, it.St.facts)...)
			}
		case "go":
			for _, o := range e.Task.Outs {
				r = append(r, m.effects(o.Events(), o.St.facts)...)
			}
		}
	}
	return r
}

func taskEffects(m *psMachine, t *Task) []peff {
	var r []peff
	for _, o := range t.Outs {
		if o.St.facts.Feasible() {
			r = append(r, m.effects(o.Events(), o.St.facts)...)
		}
	}
	return r
}

// shared memory cells a list of events reads and writes
type pcell struct {
	a      *Term
	write  bool
	atomic bool
	pos    token.Pos
}

func (x pcell) conflicts(y pcell) bool {
	return (x.write || y.write) && !(x.atomic && y.atomic) && sameCell(x.a, y.a)
}

// cellOf is the shared memory cell an event accesses.
func cellOf(e *Event) (pcell, bool) {
	if e.Recv == nil {
		return pcell{}, false
	}
	switch e.Kind {
	case "ld", "st":
		return pcell{e.Recv, e.Kind == "st", false, e.Pos}, true
	case "atomic":
		return pcell{e.Recv, true, true, e.Pos}, true
	}
	return pcell{}, false
}

// cellsOf lists the cells accessed by some events and by the recursive
// functions they call, as far as they existed before.
func (m *psMachine) cellsOf(es []*Event, old map[*Term]bool, recs map[*psCtx]bool) []pcell {
	var r []pcell
	seen := map[string]bool{}
	add := func(x pcell) {
		root := rootOf(x.a)
		if root.Op != "alloc" || old != nil && !old[root] {
			return
		}
		k := fmt.Sprint(x.a.id, x.write, x.atomic)
		if !seen[k] {
			seen[k] = true
			r = append(r, x)
		}
	}
	allEvents(es, func(e *Event) {
		if x, ok := cellOf(e); ok {
			add(x)
		}
		if e.Kind == "rec" {
			if c := m.ctxOf(e); c != nil && m.hyps[c] != nil && !recs[c] {
				recs[c] = true
				var l []pcell
				for _, o := range feasibleOuts(m.analyse(c, m.hyps[c])) {
					l = append(l, m.cellsOf(o.Events(), c.first.St.allocs, recs)...)
				}
				for _, x := range l {
					add(x)
				}
			}
		}
	})
	return r
}

func (m *psMachine) taskCells(t *Task) []pcell {
	var r []pcell
	recs := map[*psCtx]bool{}
	for _, o := range t.Outs {
		r = append(r, m.cellsOf(o.Events(), t.Start.allocs, recs)...)
	}
	return r
}

// sameCell: one address is the other or a part of it.
func sameCell(a, b *Term) bool {
	for x := a; ; {
		if x == b {
			return true
		}
		if x.Op != "fieldaddr" && x.Op != "idxaddr" {
			break
		}
		x = x.Args[0]
	}
	for x := b; ; {
		if x == a {
			return true
		}
		if x.Op != "fieldaddr" && x.Op != "idxaddr" {
			break
		}
		x = x.Args[0]
	}
	return false
}

// disjointTasks checks the branches of every parallel construct of a path.
func (m *psMachine) disjointTasks(es []*Event, f *Facts, done map[*Event]bool) {
	for i, e := range es {
		if e.Loop != nil {
			for _, it := range e.Loop.Iters {
				m.disjointTasks(it.Events, it.St.facts, done)
			}
		}
		if e.Kind == "go" {
			for _, o := range e.Task.Outs {
				m.disjointTasks(o.Events(), o.St.facts, done)
			}
		}
		if e.Kind != "pardo" || done[e] {
			continue
		}
		done[e] = true
		var ts []*Task
		for _, x := range es[i+1:] {
			if x.Kind == "go" && len(ts) < len(e.Args) {
				ts = append(ts, x.Task)
			}
		}
		for x := 0; x < len(ts); x++ {
			for y := x + 1; y < len(ts); y++ {
				m.disjointPair(ts[x], ts[y])
			}
		}
	}
}

func (m *psMachine) disjointPair(a, b *Task) {
	ea, eb := taskEffects(m, a), taskEffects(m, b)
	for _, x := range ea {
		for _, y := range eb {
			if !x.write && !y.write || x.arr != nil && y.arr != nil && x.arr != y.arr {
				continue
			}
			f := x.f.merge(y.f)
			ok := f.Entails(le(x.hi, y.lo)) || f.Entails(le(y.hi, x.lo)) || f.Entails(le(x.hi, x.lo)) || f.Entails(le(y.hi, y.lo))
			m.check(ok, "disjoint", y.pos, "%s [%s, %s) and %s [%s, %s) may happen at the same time on common positions", x.what, short(x.lo), short(x.hi), y.what, short(y.lo), short(y.hi))
		}
	}
	for _, x := range m.taskCells(a) {
		for _, y := range m.taskCells(b) {
			if x.conflicts(y) {
				m.fail("cells", y.pos, "two tasks that may run at the same time access variable %s, and one of them changes it", addrPath(x.a))
			}
		}
	}
	m.good("cells")
}

// pendingTasks checks that what a task writes is not accessed by others before
// its end has been awaited, and that the task itself leaves the data alone.
func (m *psMachine) pendingTasks(es []*Event, open []*Task) {
	cells := map[*Task][]pcell{}
	get := func(t *Task) []pcell {
		if _, ok := cells[t]; !ok {
			cells[t] = m.taskCells(t)
		}
		return cells[t]
	}
	var walk func(es []*Event, open []*Task)
	walk = func(es []*Event, open []*Task) {
		open = append([]*Task{}, open...)
		skip := 0
		for _, e := range es {
			switch e.Kind {
			case "pardo":
				skip = len(e.Args)
			case "go":
				for _, o := range e.Task.Outs {
					walk(o.Events(), open)
				}
				if skip > 0 {
					skip--
				}
				open = append(open, e.Task)
			case "join":
				var n []*Task
				for _, t := range open {
					if t != e.Task {
						n = append(n, t)
					}
				}
				open = n
			case "loop":
				for _, it := range e.Loop.Iters {
					walk(it.Events, open)
				}
			case "ld", "st", "atomic":
				y, ok := cellOf(e)
				for _, t := range open {
					for _, x := range get(t) {
						if ok && x.conflicts(y) {
							m.fail("cells", e.Pos, "variable %s is accessed while a task that uses it may still be running", addrPath(e.Recv))
						}
					}
				}
			}
		}
	}
	walk(es, open)
	m.good("pending")
}

// bufferTasks: tasks outside the parallel constructs only create buffers.
func (m *psMachine) bufferTasks(es []*Event) {
	skip := 0
	for _, e := range es {
		switch e.Kind {
		case "pardo":
			skip = len(e.Args)
		case "go":
			if skip > 0 {
				skip--
				for _, o := range e.Task.Outs {
					m.bufferTasks(o.Events())
				}
				continue
			}
			ok := true
			for _, o := range e.Task.Outs {
				allEvents(o.Events(), func(x *Event) {
					if op := sortOp(x); op != nil || x.Kind == "rec" {
						ok = false
					}
				})
			}
			m.check(ok, "background", e.Pos, "a task that runs next to the sorting accesses the elements of the data")
		}
	}
}

func (m *psMachine) races(rootA *Analysis) {
	done := map[*Event]bool{}
	each := func(a *Analysis, open []*Task) {
		for _, o := range feasibleOuts(a) {
			m.disjointTasks(o.Events(), o.St.facts, done)
			m.pendingTasks(o.Events(), open)
			m.bufferTasks(o.Events())
		}
	}
	m.cur = &psCtx{root: true, fn: m.root}
	each(rootA, nil)
	for _, c := range m.order {
		h := m.hyps[c]
		if h == nil {
			continue
		}
		m.cur, m.curH = c, h
		var open []*Task
		for _, tr := range c.first.St.tasks {
			if tr.Joined == nil {
				open = append(open, tr.T)
			}
		}
		each(m.analyse(c, h), open)
	}
	m.cur, m.curH = nil, nil
}

// ends checks that all tasks have ended at every exit, panics included. m has
// been created with panics on.
func (m *psMachine) ends() {
	rootA := m.analyseRoot()
	if rootA.Err != nil {
		m.fail("undecided", m.root.Pos(), "%v", rootA.Err)
		return
	}
	type item struct {
		c *psCtx
		a *Analysis
	}
	items := []item{{nil, rootA}}
	seen := map[*psCtx]bool{}
	for i := 0; i < len(items); i++ {
		for _, s := range m.recCalls(items[i].a) {
			c := m.ctxOf(s.e)
			if c == nil || seen[c] {
				continue
			}
			seen[c] = true
			st := c.first.St.clone()
			st.facts, st.ev, st.locks, st.loops = nil, nil, nil, nil
			st.ghost = map[string]*Term{}
			m.coll = c.kind == "sort"
			m.lo, m.hi = mkInt(0), m.length
			a := m.c.analyze(c.fn, c.args, c.binds, st, m.cfg())
			m.coll = false
			if a.Err != nil {
				m.fail("undecided", c.fn.Pos(), "%v", a.Err)
				continue
			}
			items = append(items, item{c, a})
		}
	}
	awaited := map[*Term]token.Pos{} // wait groups that root must wait for
	for _, it := range items {
		m.cur = it.c
		if it.c == nil {
			m.cur = &psCtx{root: true, fn: m.root}
		}
		inherited := map[*Task]bool{}
		if it.c != nil {
			for _, tr := range it.c.first.St.tasks {
				inherited[tr.T] = true
			}
		}
		for _, o := range it.a.Outs {
			if o.Kind != "ret" && o.Kind != "panic" {
				continue
			}
			m.taskExits(o, inherited, awaited)
			m.failedBuffer(o.Events())
		}
		// tasks are paths of their own: what they spawn ends before they do
		for _, o := range it.a.Outs {
			allEvents(o.Events(), func(e *Event) {
				if e.Kind == "go" {
					for _, t := range e.Task.Outs {
						if t.Kind == "ret" || t.Kind == "panic" {
							m.taskExits(t, inherited, awaited)
						}
					}
				}
			})
		}
	}
	m.cur = &psCtx{root: true, fn: m.root}
	for w, pos := range awaited {
		for _, o := range rootA.Outs {
			last, wait := -1, -1
			for i, e := range o.Events() {
				if e.Kind == "rec" || e.Kind == "pardo" {
					last = i
				}
				if e.Kind == "wgwait" && e.Recv == w {
					wait = i
				}
			}
			if last >= 0 {
				m.check(wait > last, "ended", pos, "a task may still be running when the function ends: a path that ends with a %s does not wait for it", o.Kind)
			}
		}
	}
	m.cur = nil
}

func (m *psMachine) taskExits(o *Outcome, inherited map[*Task]bool, awaited map[*Term]token.Pos) {
	es := o.Events()
	for _, tr := range o.St.tasks {
		if inherited[tr.T] {
			continue
		}
		if tr.Joined != nil {
			m.good("ended")
			continue
		}
		w := m.waitGroupOf(tr.T)
		if w == nil {
			m.fail("ended", tr.T.Go.Pos, "a task started here may still be running when the function ends (with a %s)", o.Kind)
			continue
		}
		// the counter has been raised by as much as the tasks lower it
		var adds int64
		known := true
		var dones int64
		at := -1
		for i, e := range es {
			if e == tr.T.Go {
				at = i
			}
		}
		for i, e := range es {
			if e.Kind == "wgadd" && e.Recv == w {
				k, ok := e.Args[0].intConst()
				known = known && ok
				if i < at || at < 0 {
					adds += k
				} else {
					known = false
				}
			}
			if e.Kind == "go" && e.Task != nil {
				n := -1
				for _, t := range e.Task.Outs {
					if d := dones1(t, w); n < 0 || n == d {
						n = d
					} else {
						known = false
					}
				}
				if n > 0 {
					dones += int64(n)
				}
			}
		}
		if m.check(known && adds == dones, "ended", tr.T.Go.Pos, "the tasks started here are not counted by the wait group before they start") {
			if _, ok := awaited[w]; !ok {
				awaited[w] = tr.T.Go.Pos
			}
		}
	}
}

func dones1(o *Outcome, w *Term) int { return dones(o, w) }

// waitGroupOf finds a wait group that a task signals exactly once, on every
// path, after everything else it does with the data.
func (m *psMachine) waitGroupOf(t *Task) *Term {
	var w *Term
	for _, o := range t.Outs {
		if o.Kind != "ret" && o.Kind != "panic" {
			continue
		}
		var mine *Term
		late := false
		n := 0
		for _, e := range o.Events() {
			if e.Kind == "wgdone" {
				mine = e.Recv
				n++
				late = false
			} else if sortOp(e) != nil || e.Kind == "rec" || e.Kind == "ext" || e.Kind == "pardo" || e.Kind == "go" || e.Kind == "loop" && e.Loop.hasOps("less swap ssort copy rec") {
				late = n > 0
				if late {
					return nil
				}
			}
		}
		if n != 1 || w != nil && w != mine {
			return nil
		}
		w = mine
	}
	return w
}

// failedBuffer: nothing is merged when the buffer could not be created.
func (m *psMachine) failedBuffer(es []*Event) {
	failed := false
	for _, e := range es {
		if e.Kind == "join" && e.Out != nil && e.Task != nil {
			created := false
			panicked := false
			for _, x := range e.Out.Events() {
				if x.Kind == "invoke" && (x.Name == "NewTemp" || x.Name == "Assign") {
					created = true
				}
				if x.Kind == "panicked" {
					panicked = true
				}
			}
			if created {
				m.good("buffer")
				failed = panicked
			}
		}
		if failed {
			bad := false
			if op := sortOp(e); op != nil && op.kind != "ssort" {
				bad = true
			}
			if e.Kind == "rec" {
				if c := m.ctxOf(e); c != nil && c.kind == "merge" {
					bad = true
				}
			}
			if e.Kind == "go" {
				for _, o := range e.Task.Outs {
					allEvents(o.Events(), func(x *Event) {
						if x.Kind == "rec" {
							if c := m.ctxOf(x); c != nil && c.kind == "merge" {
								bad = true
							}
						}
						if op := sortOp(x); op != nil && op.kind == "copy" {
							bad = true
						}
					})
				}
			}
			if bad {
				m.fail("buffer", e.Pos, "runs are merged although creating the buffer has failed")
				return
			}
		}
	}
}
