package main

// C31 (merging) and C32 (transforms), and the race rule of C21.

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
)

// class tells the kinds of nodes apart that must not be merged.
func (m *nodeModel) class() string {
	serial, limited, strict := false, false, false
	for _, v := range m.vars {
		serial = serial || v.serial
		limited = limited || v.limited
		strict = strict || v.name == "StrictOrd"
	}
	switch {
	case strict:
		return "strict"
	case serial:
		return "serial"
	case limited:
		return "limited"
	}
	return "parallel"
}

// merging checks TryMerge of every kind of node.
func (c *Ctx) merging(ms []*nodeModel) {
	merged := 0
	for _, m := range ms {
		name := "pipeline." + m.t.name + ".TryMerge"
		fn := m.t.m["TryMerge"]
		a := c.analyze(fn, nil, nil, nil, nodeCfg)
		if a.Err != nil {
			c.undecided("merge", name, fn.Pos(), a.Err)
			continue
		}
		node, next := a.Args[0], a.Args[1]
		clears := m.clearsFilters()
		for _, o := range split(a.Outs) {
			pos := outPos2(o, fn)
			if !c.require(o.Kind == "ret" && len(o.Res) == 1, "merge", name, pos, "TryMerge returns") {
				continue
			}
			f := o.St.facts
			writes := false
			var wpos token.Pos
			for _, e := range flat(o.Events()) {
				if isWrite(e) && rootOf(e.Recv).Op != "alloc" {
					writes, wpos = true, e.Pos
				}
				if e.Kind == "go" || e.Kind == "user" || e.Kind == "invoke" {
					c.fail("merge", name, e.Pos, "TryMerge calls other code")
				}
			}
			switch f.Decide(o.Res[0]) {
			case -1:
				if writes {
					c.fail("merge", name, wpos, "a node that was not merged is changed nevertheless")
				} else {
					c.ok("merge", name, "nothing changes if nodes are not merged")
				}
				continue
			case 0:
				c.fail("merge", name, pos, "whether the nodes were merged is not known")
				continue
			}
			merged++
			// the other node
			var nm *nodeModel
			var nxt *Term
			for _, k := range ms {
				atoms := map[*Term]bool{}
				for _, x := range f.all() {
					deepAtoms(x.cond, atoms)
				}
				for at := range atoms {
					if at.Op == "assertok" && at.Args[0] == next && strings.HasPrefix(at.Aux, "*pipeline."+k.t.name+"[") && f.Decide(at) > 0 {
						nm = k
						nxt = mk("assert", at.Aux, k.feed.Args[0].Typ, nil, next)
					}
				}
			}
			if nm == nil {
				c.fail("merge", name, pos, "nodes are merged although the kind of the other one is not known")
				continue
			}
			// find the term of the other node as it is used
			for _, e := range o.Events() {
				if e.Kind == "ld" && e.Recv.Op == "fieldaddr" && e.Recv.Args[0].Op == "assert" && e.Recv.Args[0].Args[0] == next {
					nxt = e.Recv.Args[0]
				}
			}
			cm, cn := m.class(), nm.class()
			if !c.require(cm == cn || cm == "strict" && cn == "serial", "kinds", name, pos, "only nodes of compatible kinds are merged (%s takes %s)", m.t.name, nm.t.name) {
				continue
			}
			start := newState()
			for _, r := range [][2]string{{m.filters, nm.filters}, {m.receivers, nm.receivers}, {m.finalizers, nm.finalizers}} {
				mine, theirs := mkFieldAddrByName(node, r[0]), mkFieldAddrByName(nxt, r[1])
				t0 := start.load(mine, deref(mine.Typ))
				n0 := start.load(theirs, deref(theirs.Typ))
				got := o.St.load(mine, deref(mine.Typ))
				ok := isJoined(got, t0, n0, f)
				c.require(ok, "merge", name, pos, "the %s of the merged node are its own followed by the other node's", r[0])
			}
			// the guarantee
			for fd, ov := range m.orderedFields() {
				ad := mkFieldAddrByName(node, fd)
				k0 := start.load(ad, deref(ad.Typ))
				kf := o.St.load(ad, deref(ad.Typ))
				var k1 *Term
				if nv := nm.orderedFields()[fd]; nv != nil && nm == m {
					nad := mkFieldAddrByName(nxt, fd)
					k1 = start.load(nad, deref(nad.Typ))
				}
				if isBoolType(ov.Typ) {
					// set for all nodes before a strict one at once
					c.require(kf == k0 || f.Decide(kf) == f.Decide(k0) && f.Decide(k0) != 0, "guarantee", name, pos, "%s does not change when nodes are merged", fd)
					continue
				}
				same := f.Entails(eqInt(kf, k0))
				g := f.add(eqInt(k0, ov), true)
				c.require(!g.Feasible() || g.Entails(eqInt(kf, ov)), "guarantee", name, pos, "an ordered node stays ordered when nodes are merged")
				if k1 != nil {
					g := f.add(eqInt(k1, ov), true)
					c.require(!g.Feasible() || g.Entails(eqInt(kf, ov)), "guarantee", name, pos, "the merged node is ordered if the other one was")
				}
				if !same {
					mf, nf := mkFieldAddrByName(node, m.filters), mkFieldAddrByName(nxt, nm.filters)
					early := f.Entails(le(mkInt(1), mkLen(start.load(mf, deref(mf.Typ))))) || f.Entails(le(mkInt(1), mkLen(start.load(nf, deref(nf.Typ)))))
					c.require(early && clears, "guarantee", name, pos, "%s only changes before the node began", fd)
				}
			}
			for _, e := range o.Events() {
				if e.Kind != "st" || rootOf(e.Recv).Op == "alloc" {
					continue
				}
				p := addrPath(e.Recv)
				fd := strings.TrimPrefix(p, Path(node)+".")
				known := fd == m.filters || fd == m.receivers || fd == m.finalizers || m.orderedFields()[fd] != nil
				if strings.HasPrefix(p, Path(nxt)+".") {
					known = isNil(e.Args[0])
				}
				c.require(known, "merge", name, e.Pos, "merging changes nothing but filters, receivers, finalizers and the kind (%s)", p)
			}
		}
	}
	c.floor("ways to merge nodes", merged, 5)
	for _, k := range c.containers() {
		name := "pipeline." + k.t.name + ".TryMerge"
		fn := k.t.m["TryMerge"]
		a := c.analyze(fn, nil, nil, nil, nodeCfg)
		if a.Err != nil {
			c.undecided("merge", name, fn.Pos(), a.Err)
			continue
		}
		for _, o := range a.Outs {
			c.require(o.Kind == "ret" && o.St.facts.Decide(o.Res[0]) < 0, "kinds", name, outPos2(o, fn), "a transforming node is never merged")
		}
	}
}

// isJoined recognises the concatenation of two slices.
func isJoined(t, a, b *Term, f *Facts) bool {
	if t.Op == "append" && len(t.Args) == 2 && t.Args[0] == a && t.Args[1] == b {
		return true
	}
	if t == a && f.Entails(eqInt(mkLen(b), mkInt(0))) {
		return true
	}
	if t == b && f.Entails(eqInt(mkLen(a), mkInt(0))) {
		return true
	}
	// slices.Concat(a, b)
	if strings.HasPrefix(t.Aux, "slices.Concat@") && len(t.Args) == 1 && t.Args[0].Op == "list" && len(t.Args[0].Args) == 2 {
		return t.Args[0].Args[0] == a && t.Args[0].Args[1] == b
	}
	return false
}

// orderedFields gives the fields whose value makes this kind of node ordered.
func (m *nodeModel) orderedFields() map[string]*Term {
	var plain, ord *variant
	for _, v := range m.vars {
		if v.ordered {
			ord = v
		} else {
			plain = v
		}
	}
	r := map[string]*Term{}
	if plain == nil || ord == nil {
		return r
	}
	for k, v := range ord.set {
		if plain.set[k] != v {
			r[k] = v
		}
	}
	return r
}

// clearsFilters tells whether a node that began has no filters any more.
func (m *nodeModel) clearsFilters() bool {
	for _, o := range m.begin.Outs {
		cleared := false
		for _, e := range o.Events() {
			if e.Kind == "st" && addrPath(e.Recv) == Path(m.begin.Args[0])+"."+m.filters {
				cleared = isNil(e.Args[0]) || isEmptyVal(e.Args[0])
			}
		}
		if !cleared && o.Kind == "ret" {
			return false
		}
	}
	return true
}

// adding checks Pipeline.Add.
func (c *Ctx) adding() {
	name := "pipeline.Pipeline.Add"
	fn := c.mustFn(name)
	if fn == nil {
		return
	}
	a := c.analyze(fn, nil, nil, nil, pipeCfg)
	if a.Err != nil {
		c.undecided("add", name, fn.Pos(), a.Err)
		return
	}
	nodes := Path(a.Args[0]) + ".nodes"
	arg := a.Args[1]
	n := 0
	// one handles the nodes added in a stretch of a path
	one := func(evs []*Event, f *Facts) (idx *Term, err string, pos token.Pos) {
		for _, e := range evs {
			pos = e.Pos
			var x *Term
			switch {
			case isNode(e, "TryMerge"):
				b, i := elemOf(e.Recv)
				if b == nil || Path(b) != nodes || !f.Entails(eqInt(i, addK(mkLen(b), -1))) {
					return nil, "a node is merged into another one than the last", pos
				}
				x = e.Args[0]
				switch f.Decide(e.Res) {
				case 0:
					return nil, "whether the node was merged is not looked at", pos
				case -1:
					continue
				}
			case e.Kind == "st" && addrPath(e.Recv) == nodes:
				v := e.Args[0]
				if v.Op != "append" || Path(v.Args[0]) != nodes || v.Args[1].Op != "list" || len(v.Args[1].Args) != 1 {
					return nil, "the nodes are replaced by something else than themselves and the new node", pos
				}
				x = v.Args[1].Args[0]
			default:
				continue
			}
			b, i := elemOf(x)
			if b != arg {
				return nil, "a node is added that was not given", pos
			}
			if idx != nil {
				return nil, "a node is added twice", pos
			}
			idx = i
		}
		return idx, "", pos
	}
	for _, o := range a.Outs {
		pos := outPos2(o, fn)
		if !c.require(o.Kind == "ret", "add", name, pos, "adding returns") {
			continue
		}
		walks := 0
		for _, e := range o.Events() {
			switch {
			case e.Kind == "loop":
				var idx *Term
				rel := false
				bad := false
				for _, it := range e.Loop.Iters {
					i, err, p := one(it.Events, it.St.facts)
					if err != "" {
						c.fail("add", name, p, "%s", err)
						bad = true
						continue
					}
					if i != nil {
						rel = true
					}
					if i == nil || idx != nil && i != idx {
						if hasEvent(it.Events, func(x *Event) bool { return x.Kind == "ld" }) {
							c.fail("add", name, e.Pos, "a node may neither be merged nor appended")
							bad = true
						}
						continue
					}
					idx = i
				}
				if bad || !rel && idx == nil {
					continue
				}
				walks++
				if _, err := c.walkAt(e.Loop, arg, idx, o.St.facts); err != nil {
					c.fail("add", name, e.Pos, "not every node is added once and in order: %v", err)
				} else {
					n++
					c.ok("add", name, "every node is either merged into the last one or appended")
				}
			case isNode(e, "TryMerge") || e.Kind == "st" && addrPath(e.Recv) == nodes:
				// all at once, if that is what is left
				v := e.Args[0]
				if e.Kind == "st" && isJoined(v, v.Args[0], arg, o.St.facts) && Path(v.Args[0]) == nodes && walks == 0 {
					walks++
					n++
					continue
				}
				c.fail("add", name, e.Pos, "a node is added outside a walk over the given nodes")
			}
		}
		c.require(walks == 1 || walks == 0 && o.St.facts.Entails(eqInt(mkLen(arg), mkInt(0))), "add", name, pos, "the given nodes are walked exactly once")
	}
	c.floor("ways to add nodes", n, 1)
}

// starting checks the part of a run that begins and merges nodes: a node is
// only removed when it was merged or did not want to be kept.
type starting struct {
	c       *Ctx
	rule    string
	name    string
	nodes   string
	p       *Term // what Begin is given
	pPath   string
	size    func(e *Event, o *Outcome) bool
	begins  int
	merges  int
	removes int
}

// seg follows a stretch of a path.
func (w *starting) seg(evs []*Event, f *Facts, o *Outcome) {
	var pend *Term // a node that must be removed
	var ppos token.Pos
	c := w.c
	settle := func() {
		if pend != nil {
			c.fail(w.rule, w.name, ppos, "a node that was merged or is not to be kept stays in the pipeline")
			pend = nil
		}
	}
	for k, e := range evs {
		switch {
		case e.Kind == "st" && w.nodeAt(e.Recv) != nil:
			// the place of a node that is left out may be cleared
			cleared := false
			for _, x := range evs[k+1:] {
				if x.Kind == "st" && addrPath(x.Recv) == w.nodes {
					cleared = nilness(f, e.Args[0]) > 0 && x.Args[0].Op == "slice" && isZeroTerm(x.Args[0].Args[1]) && f.Entails(le(x.Args[0].Args[2], w.nodeAt(e.Recv)))
					break
				}
			}
			c.require(cleared, w.rule, w.name, e.Pos, "a node of the pipeline is not replaced")
		case isNode(e, "Begin"):
			settle()
			b, i := elemOf(e.Recv)
			if b == nil || Path(b) != w.nodes {
				c.fail(w.rule, w.name, e.Pos, "a node begins that is not one of the pipeline's")
				continue
			}
			w.begins++
			c.require(len(e.Args) == 3 && (e.Args[0] == w.p || Path(e.Args[0]) == w.pPath) && f.Entails(eqInt(e.Args[1], i)), w.rule, w.name, e.Pos, "a node begins with its pipeline and its index")
			c.require(w.size(e, o), w.rule, w.name, e.Pos, "a node begins with the size the nodes before it expect")
			switch f.Decide(e.Res) {
			case 0:
				c.fail(w.rule, w.name, e.Pos, "whether the node is to be kept is not looked at")
			case -1:
				pend, ppos = i, e.Pos
			}
		case isNode(e, "TryMerge"):
			settle()
			b, i := elemOf(e.Recv)
			b2, j := elemOf(e.Args[0])
			if b == nil || b2 != b || Path(b) != w.nodes || !f.Entails(eqInt(j, addK(i, 1))) {
				c.fail(w.rule, w.name, e.Pos, "nodes are merged that do not follow each other")
				continue
			}
			w.merges++
			switch f.Decide(e.Res) {
			case 0:
				c.fail(w.rule, w.name, e.Pos, "whether the nodes were merged is not looked at")
			case 1:
				pend, ppos = j, e.Pos
			}
		case e.Kind == "st" && addrPath(e.Recv) == w.nodes:
			if e.Name == "kept" {
				continue
			}
			v := e.Args[0]
			lo, ok := removed(v, w.nodes, f)
			switch {
			case !ok:
				c.fail(w.rule, w.name, e.Pos, "the pipeline's nodes are replaced by something else than the nodes without one")
			case pend == nil:
				c.fail(w.rule, w.name, e.Pos, "a node is removed that was neither merged nor wants to be left out")
			case !f.Entails(eqInt(lo, pend)):
				c.fail(w.rule, w.name, e.Pos, "another node is removed than the one that was merged or is not to be kept")
			default:
				w.removes++
				c.ok(w.rule, w.name, "only a node that was merged or is not to be kept is removed")
			}
			pend = nil
		case isNode(e, "Feed") || isNode(e, "End") || isSource(e, "Fetch"):
			settle()
		case e.Kind == "loop":
			settle()
			w.loop(e, f, o)
		}
	}
	settle()
}

func (w *starting) loop(e *Event, f *Facts, o *Outcome) {
	L := e.Loop
	if w.compacts(e, f, o) {
		return
	}
	isBegin := func(x *Event) bool { return isNode(x, "Begin") }
	if hasEvent([]*Event{e}, isBegin) {
		if w.collects(e, f, o) {
			return
		}
		// every node begins once
		var idx *Term
		for _, it := range L.Iters {
			var b *Event
			for _, x := range it.Events {
				if isBegin(x) {
					if b != nil {
						w.c.fail(w.rule, w.name, x.Pos, "a node begins twice")
					}
					b = x
				}
			}
			if b == nil {
				w.c.fail(w.rule, w.name, e.Pos, "a node may be left out when nodes begin")
				continue
			}
			_, i := elemOf(b.Recv)
			if i == nil {
				continue
			}
			if idx != nil && idx != i {
				w.c.fail(w.rule, w.name, b.Pos, "undecided: different nodes begin on different paths")
			}
			idx = i
			rm := false
			for _, x := range it.Events {
				if x.Kind == "st" && addrPath(x.Recv) == w.nodes {
					rm = true
				}
			}
			v := w.indexVar(L, i)
			if v == nil {
				w.c.fail(w.rule, w.name, b.Pos, "the nodes that begin are not counted by a variable")
				continue
			}
			step := int64(1)
			if rm {
				step = 0
			}
			w.c.require(it.Next[v.Sym] == addK(v.Sym, step), w.rule, w.name, b.Pos, "after a node began, or was removed, the next one is looked at")
		}
		if idx != nil {
			if v := w.indexVar(L, idx); v != nil {
				d := sub(idx, v.Sym)
				w.c.require(isZeroTerm(add(v.Init, d)), w.rule, w.name, e.Pos, "the first node begins")
				// until there is none left
				okEnd := false
				atoms := map[*Term]bool{}
				for _, x := range f.all() {
					deepAtoms(x.cond, atoms)
				}
				for a := range atoms {
					if a.Op == "len" && Path(a.Args[0]) == w.nodes && f.Entails(le(a, idx)) {
						okEnd = true
					}
				}
				w.c.require(okEnd, w.rule, w.name, e.Pos, "all nodes begin")
			}
		}
	}
	for _, it := range L.Iters {
		w.seg(it.Events, it.St.facts, o)
	}
}

func isZeroTerm(t *Term) bool {
	k, ok := t.intConst()
	return ok && k == 0
}

func (w *starting) indexVar(L *Loop, i *Term) *LoopVar {
	for _, v := range L.Vars {
		if _, ok := sub(i, v.Sym).intConst(); ok && isIntType(v.Sym.Typ) {
			return v
		}
	}
	return nil
}

// collects recognises a loop that begins all nodes and collects those to be
// kept.
func (w *starting) collects(e *Event, f *Facts, o *Outcome) bool {
	L := e.Loop
	var kept *LoopVar
	for _, v := range L.Vars {
		if isIntType(v.Sym.Typ) && v.Init != nil && isZeroTerm(v.Init) && hasEvent([]*Event{e}, func(x *Event) bool {
			return x.Kind == "st" && w.nodeAt(x.Recv) == v.Sym
		}) {
			kept = v // their number
		}
		if v.Init == nil || typeStr(v.Sym.Typ) == "" || !isEmptyVal(v.Init) && !(v.Init.Op == "slice" && f.Entails(eqInt(mkLen(v.Init), mkInt(0)))) {
			continue
		}
		for _, it := range L.Iters {
			if nx := it.Next[v.Sym]; nx != nil && nx.Op == "append" && nx.Args[0] == v.Sym {
				kept = v
			}
		}
	}
	if kept == nil {
		return false
	}
	var idx *Term
	var base *Term
	for _, it := range L.Iters {
		var b *Event
		for _, x := range flat(it.Events) {
			if isNode(x, "Begin") {
				if b != nil {
					return false
				}
				b = x
			} else if x.Kind == "st" && addrPath(x.Recv) == w.nodes {
				return false
			}
		}
		if b == nil || b.Recv == nil {
			return false
		}
		s, i := elemOf(b.Recv)
		if s == nil || Path(s) != w.nodes || idx != nil && idx != i {
			return false
		}
		idx, base = i, s
		fi := it.St.facts
		nx := it.Next[kept.Sym]
		switch fi.Decide(b.Res) {
		case 1:
			if !w.takes(it, kept, i, 0) {
				return false
			}
		case -1:
			if nx != kept.Sym || w.storesNode(it) {
				return false
			}
		default:
			return false
		}
		at := kept.Sym
		if !isIntType(at.Typ) {
			at = mkLen(at)
		}
		if len(b.Args) != 3 || !(b.Args[0] == w.p || Path(b.Args[0]) == w.pPath) || !fi.Entails(eqInt(b.Args[1], i)) && !fi.Entails(eqInt(b.Args[1], at)) || !w.size(b, o) {
			return false
		}
		w.begins++
	}
	if !w.walks(e, base, idx, 0, f, o) {
		return false
	}
	return w.storedAfter(e, kept.Sym, 0, f, o)
}

// walks: a loop walks all nodes from a given one on.
func (w *starting) walks(e *Event, base, idx *Term, start int64, f *Facts, o *Outcome) bool {
	if _, err := w.c.walkFrom(e.Loop, base, idx, start, f); err == nil {
		return true
	}
	// the number of nodes may be that of the list as it was read or stored last
	var v *Term
	for _, x := range o.Events() {
		switch {
		case x == e:
			if v == nil {
				return false
			}
			_, err := w.c.walkFrom(e.Loop, v, idx, start, f)
			return err == nil
		case x.Kind == "ld" && Path(x.Res) == w.nodes:
			v = x.Res
		case x.Kind == "st" && addrPath(x.Recv) == w.nodes:
			v = x.Args[0]
		}
	}
	return false
}

// nodeAt gives the index of the pipeline's node an address is of.
func (w *starting) nodeAt(a *Term) *Term {
	if a != nil && a.Op == "idxaddr" && len(a.Args) == 2 && Path(a.Args[0]) == w.nodes {
		return a.Args[1]
	}
	return nil
}

func (w *starting) storesNode(it *Iter) bool {
	return hasEvent(it.Events, func(x *Event) bool { return x.Kind == "st" && w.nodeAt(x.Recv) != nil })
}

// takes: an iteration puts the node at i after those collected so far. A
// number of collected nodes may be kept instead of a slice, where the last one
// is at that number plus off minus one.
func (w *starting) takes(it *Iter, kept *LoopVar, i *Term, off int64) bool {
	nx := it.Next[kept.Sym]
	if isIntType(kept.Sym.Typ) {
		n := 0
		for _, x := range flat(it.Events) {
			if x.Kind != "st" || w.nodeAt(x.Recv) == nil {
				continue
			}
			b, j := elemOf(x.Args[0])
			if b == nil || Path(b) != w.nodes || j != i || !it.St.facts.Entails(eqInt(w.nodeAt(x.Recv), addK(kept.Sym, off))) {
				return false
			}
			n++
		}
		return n == 1 && nx == addK(kept.Sym, 1)
	}
	if nx == nil || nx.Op != "append" || nx.Args[0] != kept.Sym || nx.Args[1].Op != "list" || len(nx.Args[1].Args) != 1 {
		return false
	}
	b, j := elemOf(nx.Args[1].Args[0])
	return b != nil && Path(b) == w.nodes && j == i
}

// storedAfter: what a loop collected becomes the list of nodes.
func (w *starting) storedAfter(e *Event, v *Term, off int64, f *Facts, o *Outcome) bool {
	after := false
	for _, x := range o.Events() {
		if x == e {
			after = true
			continue
		}
		if after && x.Kind == "st" && addrPath(x.Recv) == w.nodes {
			r := x.Args[0]
			n := isIntType(v.Typ) && r.Op == "slice" && Path(r.Args[0]) == w.nodes && isZeroTerm(r.Args[1]) && f.Entails(eqInt(r.Args[2], addK(v, off)))
			if r == v || n {
				x.Name = "kept"
				w.removes++
				w.c.ok(w.rule, w.name, "exactly the nodes that are to be kept remain")
				return true
			}
			return false
		}
	}
	return false
}

// compacts recognises a loop that offers every node but the first to the last
// one that is left, and collects those that were not merged.
func (w *starting) compacts(e *Event, f *Facts, o *Outcome) bool {
	L := e.Loop
	var merged *LoopVar
	off := int64(0)
	for _, v := range L.Vars {
		if isIntType(v.Sym.Typ) && v.Init != nil {
			k, ok := v.Init.intConst()
			if ok && (k == 0 || k == 1) && hasEvent([]*Event{e}, func(x *Event) bool {
				return x.Kind == "st" && w.nodeAt(x.Recv) == addK(v.Sym, 1-k)
			}) {
				merged, off = v, 1-k // their number, or the last one
			}
			continue
		}
		if v.Init == nil || v.Sym.Typ == nil || !isSliceT(v.Sym.Typ) {
			continue
		}
		first := false
		if v.Init.Op == "slice" && Path(v.Init.Args[0]) == w.nodes && isZeroTerm(v.Init.Args[1]) && f.Entails(eqInt(v.Init.Args[2], mkInt(1))) {
			first = true
		}
		if v.Init.Op == "append" && isEmptyVal(v.Init.Args[0]) && v.Init.Args[1].Op == "list" && len(v.Init.Args[1].Args) == 1 {
			b, i := elemOf(v.Init.Args[1].Args[0])
			first = b != nil && Path(b) == w.nodes && isZeroTerm(i)
		}
		if first {
			merged = v
		}
	}
	if merged == nil {
		return false
	}
	var idx, base *Term
	for _, it := range L.Iters {
		var t *Event
		for _, x := range flat(it.Events) {
			switch {
			case isNode(x, "TryMerge"):
				if t != nil {
					return false
				}
				t = x
			case x.Kind == "ld" || x.Kind == "append" || x.Kind == "st" && (rootOf(x.Recv).Op == "alloc" || w.nodeAt(x.Recv) != nil):
			default:
				return false
			}
		}
		if t == nil || len(t.Args) != 1 {
			return false
		}
		fi := it.St.facts
		mb, mi := elemOf(t.Recv)
		b, i := elemOf(t.Args[0])
		last := mb == merged.Sym && fi.Entails(eqInt(mi, addK(mkLen(merged.Sym), -1)))
		if isIntType(merged.Sym.Typ) {
			last = mb != nil && Path(mb) == w.nodes && fi.Entails(eqInt(mi, addK(merged.Sym, off-1)))
		}
		if !last || b == nil || Path(b) != w.nodes || idx != nil && idx != i {
			return false
		}
		idx, base = i, b
		nx := it.Next[merged.Sym]
		switch fi.Decide(t.Res) {
		case 1:
			if nx != merged.Sym || w.storesNode(it) {
				return false
			}
		case -1:
			if !w.takes(it, merged, i, off) {
				return false
			}
		default:
			return false
		}
	}
	if idx == nil {
		return false
	}
	if !w.walks(e, base, idx, 1, f, o) {
		return false
	}
	if !w.storedAfter(e, merged.Sym, off, f, o) {
		return false
	}
	w.merges++
	return true
}

// removed recognises nodes without one of them.
func removed(v *Term, nodes string, f *Facts) (*Term, bool) {
	if v.Op == "append" && len(v.Args) == 2 {
		a, b := v.Args[0], v.Args[1]
		if a.Op == "slice" && b.Op == "slice" && Path(a.Args[0]) == nodes && a.Args[0] == b.Args[0] && isZeroTerm(a.Args[1]) && f.Entails(eqInt(b.Args[1], addK(a.Args[2], 1))) && f.Entails(eqInt(b.Args[2], mkLen(b.Args[0]))) {
			return a.Args[2], true
		}
	}
	if ev, ok := v.Ref.(*Event); ok && ev.Kind == "ext" && ev.Name == "slices.Delete" && len(ev.Args) == 3 && Path(ev.Args[0]) == nodes {
		if f.Entails(eqInt(ev.Args[2], addK(ev.Args[1], 1))) {
			return ev.Args[1], true
		}
	}
	// all but the last
	if v.Op == "slice" && Path(v.Args[0]) == nodes && isZeroTerm(v.Args[1]) && f.Entails(eqInt(v.Args[2], addK(mkLen(v.Args[0]), -1))) {
		return v.Args[2], true
	}
	return nil, false
}

func (c *Ctx) startingAll() {
	an, run := c.runAnalysis("start")
	if an != nil {
		name := shortFn(run)
		w := &starting{c: c, rule: "start", name: name, nodes: Path(an.Args[0]) + ".nodes", p: an.Args[0], pPath: Path(an.Args[0])}
		w.size = func(e *Event, o *Outcome) bool {
			// a local variable that was set to what Prepare returned
			if len(e.Args) != 3 || e.Args[2].Op != "alloc" {
				return false
			}
			set := false
			var prep *Event
			for _, x := range o.Events() {
				if hasEvent([]*Event{x}, func(y *Event) bool { return y == e }) {
					break
				}
				switch {
				case isSource(x, "Prepare"):
					prep = x
				case x.Kind == "st" && x.Recv == e.Args[2]:
					set = prep != nil && x.Args[0] == prep.Res
				case x.Kind == "loop" && hasEvent([]*Event{x}, func(y *Event) bool { return y.Kind == "st" && y.Recv == e.Args[2] }):
					set = false
				}
			}
			return set
		}
		for _, o := range an.Outs {
			w.seg(o.Events(), o.St.facts, o)
		}
		c.floor("nodes that begin", w.begins, 2)
		c.floor("nodes removed", w.removes, 2)
	}
	for _, k := range c.containers() {
		name := "pipeline." + k.t.name + ".Begin"
		fn := k.t.m["Begin"]
		a := c.analyze(fn, nil, nil, nil, pipeCfg)
		if a.Err != nil {
			c.undecided("start", name, fn.Pos(), a.Err)
			continue
		}
		pp := Path(a.Args[0]) + "." + k.next
		w := &starting{c: c, rule: "start", name: name, nodes: pp + ".nodes", pPath: pp}
		w.size = func(e *Event, o *Outcome) bool { return len(e.Args) == 3 && e.Args[2] == a.Args[3] }
		kept := 0
		for _, o := range split(a.Outs) {
			pos := endPos(o)
			if !c.require(o.Kind == "ret" && len(o.Res) == 1, "start", name, pos, "Begin returns") {
				continue
			}
			w.seg(o.Events(), o.St.facts, o)
			f := o.St.facts
			c.require(hasEvent(o.Events(), func(e *Event) bool { return isNode(e, "Begin") }) || noneLeft(o, w.nodes, false), "start", name, pos, "the nodes of the transformed pipeline begin")
			switch f.Decide(o.Res[0]) {
			case 1:
				kept++
			case -1:
				c.require(failedBefore(o) || noneLeft(o, w.nodes, true), "start", name, pos, "a transforming node is only left out if no node of the transformed pipeline is left")
			default:
				c.fail("start", name, pos, "whether the node is kept is not known")
			}
		}
		c.floor("paths on which a transforming node is kept", kept, 1)
		c.floor("nodes of a transformed pipeline that begin", w.begins, 2)
	}
}

// noneLeft tells whether a path has seen that there are no nodes (any more).
func noneLeft(o *Outcome, nodes string, last bool) bool {
	var s *Term
	for _, e := range o.Events() {
		switch {
		case e.Kind == "ld" && Path(e.Res) == nodes:
			s = e.Res
			if !last && o.St.facts.Entails(eqInt(mkLen(s), mkInt(0))) {
				return true
			}
		case e.Kind == "st" && addrPath(e.Recv) == nodes:
			s = nil
		case e.Kind == "loop" && hasEvent([]*Event{e}, func(x *Event) bool { return x.Kind == "st" && addrPath(x.Recv) == nodes }):
			s = nil
		}
	}
	return s != nil && o.St.facts.Entails(eqInt(mkLen(s), mkInt(0)))
}

// ---- C32

func (c *Ctx) transforms(ms []*nodeModel) {
	ks := c.containers()
	if !c.require(len(ks) == 1, "node", "pipeline", 0, "there is one kind of transforming node") {
		return
	}
	k := ks[0]
	name := "pipeline." + k.t.name + ".Feed"
	fn := k.t.m["Feed"]
	a := c.analyze(fn, nil, nil, nil, nodeCfg)
	if a.Err != nil {
		c.undecided("feed", name, fn.Pos(), a.Err)
		return
	}
	self := Path(a.Args[0])
	n := 0
	for _, o := range a.Outs {
		pos := outPos2(o, fn)
		if !c.require(o.Kind == "ret", "feed", name, pos, "feeding returns") {
			continue
		}
		f := o.St.facts
		var call *Event
		fwd := 0
		for _, e := range o.Events() {
			switch {
			case e.Kind == "user":
				ok := Path(e.Recv) == self+"."+k.transform && len(e.Args) == 2 && f.Entails(eqInt(e.Args[0], a.Args[3])) && e.Args[1] == a.Args[4]
				c.require(ok && call == nil, "feed", name, e.Pos, "the function is applied once, to the batch's number and data")
				call = e
			case e.Kind == "forward":
				fwd++
				ok := Path(e.Recv) == self+"."+k.next && len(e.Args) == 3 && f.Entails(eqInt(e.Args[0], mkInt(-1))) && f.Entails(eqInt(e.Args[1], a.Args[3])) && call != nil && e.Args[2] == resultOf(call, 0)
				c.require(ok && fwd == 1, "feed", name, e.Pos, "what the function returned is fed to the transformed pipeline's first node once, with the batch's number")
			case isNode(e, "Feed"):
				b, i := elemOf(e.Recv)
				ok := b != nil && Path(b) == self+"."+k.next+".nodes" && f.Entails(eqInt(i, mkInt(0))) && len(e.Args) == 4 && Path(e.Args[0]) == self+"."+k.next && f.Entails(eqInt(e.Args[1], mkInt(0))) && f.Entails(eqInt(e.Args[2], a.Args[3])) && call != nil && e.Args[3] == resultOf(call, 0)
				fwd++
				c.require(ok && fwd == 1, "feed", name, e.Pos, "what the function returned is fed to the transformed pipeline's first node once, with the batch's number")
			case e.Kind == "go" || e.Kind == "loop" || e.Kind == "select" || e.Kind == "send" || isWrite(e) && rootOf(e.Recv).Op != "alloc":
				c.fail("feed", name, e.Pos, "feeding does nothing but transform and forward the batch (%s)", e.Kind)
			}
		}
		n++
		none := noneLeft(o, self+"."+k.next+".nodes", true)
		c.require(call != nil && (fwd == 1 || none), "feed", name, pos, "every batch is transformed and forwarded")
	}
	c.floor("batches transformed", n, 1)

	byName := map[string]string{"Transform": "", "OrdTransform": "Ord", "SeqTransform": "Seq", "ParTransform": "Par", "StrictOrdTransform": "StrictOrd", "LimitedParTransform": "LimitedPar"}
	var names []string
	for n := range byName {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, tn := range names {
		c.transformCtor(k, "pipeline."+tn, byName[tn], ms)
	}
}

// transformCtor checks a function that makes a transformed pipeline.
func (c *Ctx) transformCtor(k *container, name, ctor string, ms []*nodeModel) {
	fn := c.mustFn(name)
	if fn == nil {
		return
	}
	var adds []*Event
	var in *Interp
	cfg := pipeCfg
	cfg.Contract = func(it *Interp, ci *CallInfo, st *State) ([]*Outcome, bool) {
		in = it
		if ci.Kind == "static" && strings.HasPrefix(ci.Name, "(*"+pipePkg+"Pipeline[") && strings.HasSuffix(ci.Name, ".Add") {
			ev := it.event(&frame{fn: ci.Caller}, st, &Event{Kind: "add", Pos: sitePos(ci.Site), Recv: ci.Args[0], Args: ci.Args[1:]})
			_ = ev
			return []*Outcome{{Kind: "ret", St: st}}, true
		}
		return pipeContract(it, ci, st)
	}
	a := c.analyze(fn, nil, nil, nil, cfg)
	if a.Err != nil {
		c.undecided("make", name, fn.Pos(), a.Err)
		return
	}
	p, tf := a.Args[0], a.Args[1]
	for _, o := range a.Outs {
		pos := outPos2(o, fn)
		if !c.require(o.Kind == "ret" && len(o.Res) == 1, "make", name, pos, "it returns") {
			continue
		}
		next := o.Res[0]
		if !c.require(next.Op == "alloc", "make", name, pos, "the transformed pipeline is a new one") {
			continue
		}
		sa, pa := mkFieldAddrByName(next, "pipelineState"), mkFieldAddrByName(p, "pipelineState")
		c.require(o.St.load(sa, deref(sa.Typ)) == o.St.load(pa, deref(pa.Typ)), "make", name, pos, "both pipelines share one state")
		adds = nil
		var list []*Term
		for _, e := range flat(o.Events()) {
			switch e.Kind {
			case "add":
				adds = append(adds, e)
				c.require(e.Recv == p, "make", name, e.Pos, "nodes are added to the source pipeline")
				l := in.asList(o.St, e.Args[0])
				if l == nil {
					c.fail("make", name, e.Pos, "the nodes that are added are not known")
					continue
				}
				list = append(list, l.Args...)
			case "loop", "go":
				c.fail("make", name, e.Pos, "undecided: it loops or starts goroutines")
			}
		}
		want := 1
		if ctor != "" {
			want = 2
		}
		if !c.require(len(list) == want, "make", name, pos, "%d nodes are added to the source pipeline", want) {
			continue
		}
		tnode := stripIface(list[len(list)-1])
		if !c.require(tnode.Op == "alloc" && typeBase(deref(tnode.Typ)) == "pipeline."+k.t.name, "make", name, pos, "the last node that is added is the transforming one") {
			continue
		}
		na, ta := mkFieldAddrByName(tnode, k.next), mkFieldAddrByName(tnode, k.transform)
		c.require(o.St.load(na, deref(na.Typ)) == next, "make", name, pos, "the transforming node feeds the transformed pipeline")
		c.require(o.St.load(ta, deref(ta.Typ)) == tf, "make", name, pos, "the transforming node applies the given function")
		if ctor == "" {
			continue
		}
		nd := stripIface(list[0])
		var m *nodeModel
		var v *variant
		for _, x := range ms {
			for _, y := range x.vars {
				if y.name == ctor {
					m, v = x, y
				}
			}
		}
		if m == nil {
			c.fail("kind", name, pos, "the kind of node %s makes is not known", ctor)
			continue
		}
		if !c.require(nd.Op == "alloc" && typeBase(deref(nd.Typ)) == "pipeline."+m.t.name, "kind", name, pos, "the node before the transforming one is of the kind %s makes", ctor) {
			continue
		}
		same := true
		for _, fd := range sortedKeys(v.set) {
			ad := mkFieldAddrByName(nd, fd)
			same = same && o.St.load(ad, deref(ad.Typ)) == v.set[fd]
		}
		c.require(same, "kind", name, pos, "the node before the transforming one is as %s makes it", ctor)
		// it keeps the batches as they are
		fa := mkFieldAddrByName(nd, m.filters)
		fl := in.asList(o.St, o.St.load(fa, deref(fa.Typ)))
		if !c.require(fl != nil && len(fl.Args) > 0, "kind", name, pos, "the node before the transforming one has a filter") {
			continue
		}
		recvs := 0
		for _, cl := range fl.Args {
			for _, flt := range c.filters("kind", name, cl, o.St) {
				if isNilFn(flt.recv) {
					continue
				}
				if flt.recv.Op != "closure" && flt.recv.Op != "func" {
					c.fail("kind", name, pos, "the receiver before the transforming node is not known")
					continue
				}
				recvs++
				r := ssaFn(flt.recv)
				s := flt.o.St.clone()
				s.ev = nil
				ra := c.analyze(r, nil, closureBinds(flt.recv), s, pipeCfg)
				if ra.Err != nil {
					c.undecided("kind", name, r.Pos(), ra.Err)
					continue
				}
				for _, ro := range ra.Outs {
					c.require(ro.Kind == "ret" && len(ro.Res) == 1 && ro.Res[0] == ra.Args[len(ra.Args)-1], "kind", name, outPos2(ro, r), "the receiver before the transforming node returns batches as they are")
				}
			}
		}
		c.require(recvs > 0, "kind", name, pos, "the node before the transforming one has a receiver, so that it is kept")
	}
}

// ---- races in nodes

// races checks memory that a node's goroutines share.
func (c *Ctx) races(m *nodeModel, v *variant) {
	// cells (of the node) that are written while batches flow
	type acc struct {
		fd      string
		write   bool
		locked  bool
		who     string
		pos     token.Pos
		workers bool
	}
	var accs []acc
	add := func(self, who string, evs []*Event) {
		// locks are followed across segments by the events' own lock lists
		held := heldDeep(evs)
		for _, e := range flat(evs) {
			if e.Kind != "ld" && e.Kind != "st" {
				continue
			}
			p := addrPath(e.Recv)
			if !strings.HasPrefix(p, self+".") {
				continue
			}
			accs = append(accs, acc{fd: p[len(self)+1:], write: e.Kind == "st", locked: len(held[e]) > 0, who: who, pos: e.Pos})
		}
	}
	multi := false
	shared := map[*Term]token.Pos{}
	for _, a := range []*Analysis{m.feed, m.begin} {
		self := Path(a.Args[0])
		who := "Feed"
		if a == m.begin {
			who = "Begin"
		}
		name := fmt.Sprintf("pipeline.%s.%s [%s]", m.t.name, who, v.name)
		for _, o := range a.Outs {
			if !v.possible(o.St.facts, self) {
				continue
			}
			started := false
			taskWrites := map[*Term]bool{}
			taskReads := map[*Term]bool{}
			var scan func(evs []*Event, inLoop bool)
			scan = func(evs []*Event, inLoop bool) {
				for _, e := range evs {
					switch e.Kind {
					case "loop":
						for _, it := range e.Loop.Iters {
							if v.possible(it.St.facts, self) {
								scan(it.Events, true)
							}
						}
					case "go":
						if e.Task == nil {
							continue
						}
						if inLoop || started {
							multi = multi || a == m.begin
						}
						started = true
						for _, to := range e.Task.Outs {
							if !v.possible(to.St.facts, self) {
								continue
							}
							held := heldDeep(to.Events())
							for _, x := range flat(to.Events()) {
								if x.Kind != "ld" && x.Kind != "st" {
									continue
								}
								r := rootOf(x.Recv)
								if r.Op != "alloc" || !e.Task.Start.allocs[r] {
									continue
								}
								if x.Kind == "st" {
									taskWrites[x.Recv] = true
									if len(held[x]) == 0 && (inLoop || multi) && a == m.begin {
										shared[x.Recv] = x.Pos
									}
								} else {
									taskReads[x.Recv] = true
								}
							}
							add(self, "goroutine", to.Events())
						}
					case "ld", "st":
						if !started {
							continue
						}
						if taskWrites[e.Recv] || e.Kind == "st" && taskReads[e.Recv] {
							c.fail("race", name, e.Pos, "%s is accessed after the goroutine that uses it started, without synchronisation", addrPath(e.Recv))
						}
						if e.Kind == "st" && a == m.begin && strings.HasPrefix(addrPath(e.Recv), self+".") {
							c.fail("race", name, e.Pos, "%s is set after a goroutine of the node started", addrPath(e.Recv))
						}
					}
				}
			}
			scan(o.Events(), false)
			if a == m.feed {
				add(self, "Feed", o.Events())
			}
			c.ok("race", name, "what the goroutines share is not written by their creator afterwards")
		}
	}
	name := fmt.Sprintf("pipeline.%s [%s]", m.t.name, v.name)
	for t, pos := range shared {
		c.fail("race", name, pos, "%s is written by several goroutines without synchronisation", addrPath(t))
	}
	if c.Prop == "C19" {
		// the node's fields do not hold batches
		return
	}
	written := map[string]bool{}
	byFeed, byTask := map[string]bool{}, map[string]bool{}
	for _, a := range accs {
		if a.write {
			written[a.fd] = true
		}
		if a.who == "Feed" {
			byFeed[a.fd] = true
		} else {
			byTask[a.fd] = true
		}
	}
	bad := map[string]bool{}
	for _, a := range accs {
		if !written[a.fd] || a.locked || bad[a.fd] {
			continue
		}
		single := !byFeed[a.fd] && !multi && byTask[a.fd]
		if single {
			continue
		}
		bad[a.fd] = true
		c.fail("race", name, a.pos, "%s is shared by several goroutines, one of which writes it, and accessed without the lock", a.fd)
	}
	c.ok("race", name, "%d fields that change while batches flow are only accessed under the lock", len(written))
}

// heldDeep is heldAt for a path and the iterations of its loops.
func heldDeep(evs []*Event) map[*Event][]*Event {
	r := map[*Event][]*Event{}
	var rec func(evs []*Event, cur []*Event)
	rec = func(evs []*Event, cur []*Event) {
		m := heldFrom(evs, cur)
		for e, h := range m {
			if old, ok := r[e]; !ok || len(h) < len(old) {
				r[e] = h
			}
			if e.Kind == "loop" {
				for _, it := range e.Loop.Iters {
					rec(it.Events, h)
				}
			}
		}
	}
	rec(evs, nil)
	return r
}

func heldFrom(evs []*Event, cur []*Event) map[*Event][]*Event {
	m := map[*Event][]*Event{}
	for _, e := range evs {
		switch e.Kind {
		case "lock", "rlock":
			cur = append(append([]*Event{}, cur...), e)
		case "unlock", "runlock":
			for i := len(cur) - 1; i >= 0; i-- {
				if cur[i].Name == e.Name {
					cur = append(append([]*Event{}, cur[:i]...), cur[i+1:]...)
					break
				}
			}
		}
		m[e] = cur
	}
	return m
}

// split takes paths apart on which a boolean result is not known.
func split(outs []*Outcome) []*Outcome {
	var r []*Outcome
	for _, o := range outs {
		if o.Kind != "ret" || len(o.Res) == 0 || !isBoolType(o.Res[0].Typ) || o.St.facts.Decide(o.Res[0]) != 0 {
			r = append(r, o)
			continue
		}
		for _, v := range []bool{true, false} {
			f := o.St.facts.add(o.Res[0], v)
			if !f.Feasible() {
				continue
			}
			n := *o
			n.St = o.St.clone()
			n.St.facts = f
			r = append(r, &n)
		}
	}
	return r
}
