package main

// What surrounds the flow of batches: ending nodes, forwarding, running,
// preparing for strict order, merging and transforming. C19, C20, C22-C24,
// C31 and C32 read these rules.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// walkAt checks that a loop walks the slice s from its first to its last
// element, where idx is the element of an iteration.
func (c *Ctx) walkAt(L *Loop, s, idx *Term, exit *Facts) (*LoopVar, error) {
	return c.walkFrom(L, s, idx, 0, exit)
}

// walkFrom is walkAt for a walk that starts at a given element.
func (c *Ctx) walkFrom(L *Loop, s, idx *Term, start int64, exit *Facts) (*LoopVar, error) {
	for _, w := range L.Vars {
		d, ok := sub(idx, w.Sym).intConst()
		if !isIntType(w.Sym.Typ) || !ok {
			continue
		}
		if k, ok := add(w.Init, mkInt(d)).intConst(); !ok || k != start {
			return nil, fmt.Errorf("the walk does not start at the first element")
		}
		for _, it := range L.Iters {
			if it.Next[w.Sym] != addK(w.Sym, 1) {
				return nil, fmt.Errorf("the walk does not go on to the next element")
			}
			if !lenCond(it.St.facts, s, L, func(n *Term) *Term { return lt(idx, n) }) {
				return nil, fmt.Errorf("the walk may leave the slice")
			}
		}
		if exit != nil && !lenCond(exit, s, L, func(n *Term) *Term { return le(n, idx) }) {
			return nil, fmt.Errorf("the walk may end before the last element")
		}
		return w, nil
	}
	return nil, fmt.Errorf("the index %v is not a loop variable", idx)
}

// walkedSlice gives the slice at a place whose elements a loop uses.
func walkedSlice(L *Loop, is func(e *Event) bool, place string) *Term {
	for _, it := range L.Iters {
		for _, e := range it.Events {
			if is(e) {
				if b, _ := elemOf(e.Recv); b != nil && Path(b) == place {
					return b
				}
			}
		}
	}
	return nil
}

// container is a node that holds the nodes of another pipeline.
type container struct {
	t         *nodeType
	next      string // its pipeline
	transform string
}

func (c *Ctx) containers() []*container {
	var r []*container
	for _, t := range c.nodeTypes() {
		st := structOf(t.named.Underlying())
		if st == nil {
			continue
		}
		k := &container{t: t}
		k.next = fieldOfType(st, func(t types.Type) bool {
			p, ok := t.Underlying().(*types.Pointer)
			return ok && typeBase(p.Elem()) == "pipeline.Pipeline"
		})
		k.transform = fieldOfType(st, func(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok })
		if k.next != "" {
			r = append(r, k)
		}
	}
	return r
}

// eachSeg calls f for every straight stretch of a path: the path itself, and
// each iteration of its loops.
func eachSeg(evs []*Event, fs *Facts, f func(evs []*Event, f *Facts)) {
	f(evs, fs)
	for _, e := range evs {
		if e.Kind == "loop" {
			for _, it := range e.Loop.Iters {
				eachSeg(it.Events, it.St.facts, f)
			}
		}
	}
}

func hasEvent(evs []*Event, is func(e *Event) bool) bool {
	for _, e := range flat(evs) {
		if is(e) {
			return true
		}
	}
	return false
}

// ---- ending

// endNode checks a node's End: its goroutines finish, then its finalizers run.
func (c *Ctx) endNode(m *nodeModel) {
	name := "pipeline." + m.t.name + ".End"
	a := m.end
	self := Path(a.Args[0])
	is := func(t *Term, fd string) bool { return fd != "" && Path(t) == self+"."+fd }
	n := 0
	for _, o := range a.Outs {
		pos := endPos(o)
		if !c.require(o.Kind == "ret", "end", name, pos, "ending a node returns") {
			continue
		}
		closed, waited, walks := 0, false, 0
		var fin *Term
		isFin := func(e *Event) bool {
			if e.Kind != "user" || e.Recv == nil {
				return false
			}
			b, _ := elemOf(e.Recv)
			return b != nil && is(b, m.finalizers)
		}
		for _, e := range o.Events() {
			c.site(e)
			switch e.Kind {
			case "ld":
				if is(e.Res, m.finalizers) {
					fin = e.Res
				}
			case "close":
				if is(e.Recv, m.channel) {
					closed++
					c.require(!waited, "end", name, e.Pos, "the channel is closed before the node waits for its goroutines")
				}
			case "wgwait":
				if addrPath(e.Recv) == self+"."+m.wg {
					if m.mapped {
						c.require(closed == 1, "end", name, e.Pos, "the node waits for its goroutines after their channel was closed")
					}
					waited = true
				}
			case "st":
				if p := addrPath(e.Recv); strings.HasPrefix(p, self+".") {
					c.require(waited, "end", name, e.Pos, "the node's fields are only changed after its goroutines are done")
					if fd := p[len(self)+1:]; fd == m.finalizers && walks == 0 {
						fin = nil
					}
				}
			case "loop":
				if hasEvent([]*Event{e}, isFin) {
					walks++
					if !c.require(waited, "end", name, e.Pos, "finalizers are called after the node's goroutines are done") {
						continue
					}
					if fin == nil {
						fin = walkedSlice(e.Loop, isFin, self+"."+m.finalizers)
					}
					if fin == nil {
						c.fail("end", name, e.Pos, "the finalizers are not read before they are called")
						continue
					}
					_, _, err := c.walk(e.Loop, fin, o.St.facts, isFin)
					once := true
					for _, it := range e.Loop.Iters {
						k := 0
						for _, x := range flat(it.Events) {
							if isFin(x) {
								k++
							}
						}
						once = once && k == 1
					}
					if err != nil {
						c.fail("end", name, e.Pos, "not every finalizer is called once and in order: %v", err)
					} else {
						c.require(once, "end", name, e.Pos, "every finalizer is called exactly once")
					}
				}
			case "select", "recv", "send", "condwait", "go":
				c.fail("end", name, e.Pos, "ending a node does not wait for anything but its goroutines (%s)", e.Kind)
			case "user":
				c.fail("end", name, e.Pos, "a function is called outside the walk over the finalizers")
			}
		}
		n++
		if m.mapped {
			c.require(closed == 1, "end", name, pos, "the channel is closed once, so that the node's goroutines end")
		}
		c.require(waited, "end", name, pos, "the node waits for its goroutines")
		none := fin != nil && o.St.facts.Entails(eqInt(mkLen(fin), mkInt(0)))
		c.require(walks == 1 || walks == 0 && none, "end", name, pos, "the finalizers are walked exactly once (%d times)", walks)
		c.require(len(o.St.locks) == 0, "end", name, pos, "no lock is held at the end")
	}
	c.floor("ways to end "+m.t.name, n, 1)
}

// endWalk checks that a path calls End once for each node of the slice at the
// given path, in order. last tells the events after which the nodes no longer
// change.
func (c *Ctx) endWalk(rule, name string, o *Outcome, nodes string, last func(e *Event) bool) (walks int) {
	isEnd := func(e *Event) bool { return isNode(e, "End") }
	f := o.St.facts
	var s, stored *Term
	for _, e := range o.Events() {
		switch {
		case e.Kind == "ld" && Path(e.Res) == nodes:
			s = e.Res
		case e.Kind == "st" && addrPath(e.Recv) == nodes:
			s, stored = nil, e.Args[0]
			if walks > 0 {
				c.fail(rule, name, e.Pos, "the nodes change after they were ended")
			}
		case isEnd(e):
			c.fail(rule, name, e.Pos, "a node is ended outside a walk over all nodes")
		case e.Kind == "loop" && hasEvent([]*Event{e}, isEnd):
			walks++
			if s == nil {
				s = walkedSlice(e.Loop, isEnd, nodes)
			}
			if s == nil {
				c.fail(rule, name, e.Pos, "nodes are ended that are not the pipeline's current ones")
				continue
			}
			_, _, err := c.walk(e.Loop, s, f, isEnd)
			once := true
			for _, it := range e.Loop.Iters {
				k := 0
				for _, x := range flat(it.Events) {
					if isEnd(x) {
						k++
					} else if x.Kind == "go" {
						once = false
					}
				}
				once = once && k == 1
			}
			if err != nil {
				c.fail(rule, name, e.Pos, "not every node is ended once and in order: %v", err)
			} else {
				c.require(once, rule, name, e.Pos, "every node is ended exactly once, one after the other")
			}
		case e.Kind == "loop":
			if hasEvent([]*Event{e}, func(x *Event) bool {
				return x.Kind == "st" && addrPath(x.Recv) == nodes || last != nil && last(x)
			}) {
				s, stored = nil, nil
				if walks > 0 {
					c.fail(rule, name, e.Pos, "the pipeline goes on after its nodes were ended")
				}
			}
		case last != nil && last(e):
			if walks > 0 {
				c.fail(rule, name, e.Pos, "the pipeline goes on after its nodes were ended")
			}
		}
	}
	if s == nil {
		s = stored
	}
	if walks == 0 && s != nil && f.Entails(eqInt(mkLen(s), mkInt(0))) {
		walks = 1
	}
	return walks
}

func (c *Ctx) runAnalysis(rule string) (*Analysis, *ssa.Function) {
	run := c.runFn(rule)
	if run == nil {
		return nil, nil
	}
	an := c.analyze(run, nil, nil, nil, pipeCfg)
	if an.Err != nil {
		c.undecided(rule, shortFn(run), run.Pos(), an.Err)
		return nil, run
	}
	return an, run
}

// failed tells whether a path has seen that the pipeline has an error.
func failed(o *Outcome) bool {
	f := o.St.facts
	for _, e := range flat(o.Events()) {
		switch {
		case e.Kind == "perr", isSourceErr(e):
			if nilness(f, e.Res) < 0 {
				return true
			}
		case e.Kind == "ld" && isErrAddr(e.Recv):
			if nilness(f, e.Res) < 0 {
				return true
			}
		}
	}
	return false
}

// failedBefore is failed without what is learnt after nodes were ended.
func failedBefore(o *Outcome) bool {
	f := o.St.facts
	for _, e := range o.Events() {
		if e.Kind == "loop" {
			continue
		}
		if (e.Kind == "perr" || isSourceErr(e) || e.Kind == "ld" && isErrAddr(e.Recv)) && nilness(f, e.Res) < 0 {
			return true
		}
	}
	return false
}

// runEnds checks that a run ends its nodes.
func (c *Ctx) runEnds() {
	an, run := c.runAnalysis("ends")
	if an == nil {
		return
	}
	name := shortFn(run)
	nodes := Path(an.Args[0]) + ".nodes"
	n := 0
	for _, o := range an.Outs {
		pos := outPos2(o, run)
		if !c.require(o.Kind == "ret", "ends", name, pos, "the run returns") {
			continue
		}
		started := hasEvent(o.Events(), func(e *Event) bool { return isNode(e, "Begin") || isSource(e, "Prepare") })
		walks := c.endWalk("ends", name, o, nodes, func(e *Event) bool {
			return isNode(e, "Feed") || isNode(e, "Begin") || isNode(e, "TryMerge") || isSource(e, "Fetch") || isSource(e, "Prepare")
		})
		switch {
		case !started:
			c.require(walks == 0, "ends", name, pos, "nodes that were not begun are not ended")
		case walks == 1:
			n++
			c.ok("ends", name, "every node is ended once, after the last batch was fed")
		case walks == 0:
			c.require(failedBefore(o), "ends", name, pos, "a run ends its nodes unless the pipeline has an error")
		default:
			c.fail("ends", name, pos, "nodes are ended %d times", walks)
		}
	}
	c.floor("paths that end all nodes", n, 3)
	for _, k := range c.containers() {
		name := "pipeline." + k.t.name + ".End"
		fn := k.t.m["End"]
		a := c.analyze(fn, nil, nil, nil, nodeCfg)
		if a.Err != nil {
			c.undecided("ends", name, fn.Pos(), a.Err)
			continue
		}
		for _, o := range a.Outs {
			pos := outPos2(o, fn)
			if !c.require(o.Kind == "ret", "ends", name, pos, "ending returns") {
				continue
			}
			w := c.endWalk("ends", name, o, Path(a.Args[0])+"."+k.next+".nodes", nil)
			c.require(w == 1, "ends", name, pos, "every node of the transformed pipeline is ended exactly once (%d walks)", w)
		}
	}
}

// ---- cancellation between batches

type cst struct {
	fed, cancelled bool
	known          string
}

// runStops checks that a run looks at its context between batches.
func (c *Ctx) runStops() {
	an, run := c.runAnalysis("stops")
	if an == nil {
		return
	}
	name := shortFn(run)
	p := Path(an.Args[0])
	checks := 0
	seen := map[string]bool{}
	var walk func(evs []*Event, f *Facts, ss map[cst]bool) map[cst]bool
	walk = func(evs []*Event, f *Facts, ss map[cst]bool) map[cst]bool {
		for _, e := range evs {
			next := map[cst]bool{}
			for s := range ss {
				switch {
				case isSource(e, "Fetch"):
					k := fmt.Sprint(e.Pos, s)
					if s.cancelled || s.fed {
						if !seen[k] {
							seen[k] = true
							c.fail("stops", name, e.Pos, "another batch is fetched although it was not seen, since the last one, that the context is not done")
						}
					} else {
						checks++
						c.ok("stops", name, "before another batch is fetched the context was seen not to be done")
					}
				case isNode(e, "Feed"):
					s.fed = true
				case e.Kind == "ctxerr" && strings.HasPrefix(Path(e.Recv), p+"."), e.Kind == "ctxerr" && e.Recv == an.Args[1]:
					switch nilness(f, e.Res) {
					case 1:
						s.fed = false
					case -1:
						s.cancelled = true
					}
				case e.Kind == "select":
					for i, k := range e.Cases {
						if !k.Send && k.Chan != nil && (isDoneOf(k.Chan, p) || k.Chan.Op == "ctxdone" && k.Chan.Args[0] == an.Args[1]) {
							if e.Chosen == i {
								s.cancelled = true
							} else if e.Chosen < 0 {
								s.fed = false
							}
						}
					}
				case e.Kind == "loop":
					heads := map[cst]bool{s: true}
					for ch := true; ch; {
						ch = false
						for h := range heads {
							for _, it := range e.Loop.Iters {
								for x := range walk(it.Events, it.St.facts, map[cst]bool{h: true}) {
									if !heads[x] {
										heads[x] = true
										ch = true
									}
								}
							}
						}
					}
					for h := range heads {
						next[h] = true
					}
					continue
				}
				next[s] = true
			}
			ss = next
		}
		return ss
	}
	for _, o := range an.Outs {
		walk(o.Events(), o.St.facts, map[cst]bool{{}: true})
	}
	c.floor("checks of the context between batches", checks, 2)
}

// sourceBlocks checks that sources can always be interrupted.
func (c *Ctx) sourceBlocks() {
	n := 0
	for _, t := range c.sourceTypes() {
		name := "pipeline." + t.name + ".Fetch"
		pr := t.m["Prepare"]
		fn := t.m["Fetch"]
		if fn == nil || pr == nil || len(fn.Blocks) == 0 || len(pr.Blocks) == 0 {
			continue
		}
		a := c.analyze(fn, nil, nil, nil, pipeCfg)
		if a.Err != nil {
			c.undecided("blocking", name, fn.Pos(), a.Err)
			continue
		}
		n++
		self := Path(a.Args[0])
		ctxs := map[string]bool{}
		for _, o := range a.Outs {
			for _, e := range deepFlat(o.Events()) {
				block := e.Kind == "recv" || e.Kind == "send" || e.Kind == "select" && e.Block
				if e.Kind == "condwait" || e.Kind == "wgwait" {
					c.fail("blocking", name, e.Pos, "an operation that may block does not end when the context is done")
					continue
				}
				if !block {
					continue
				}
				has := false
				if e.Kind == "select" {
					for _, k := range e.Cases {
						if !k.Send && k.Chan != nil && k.Chan.Op == "ctxdone" && strings.HasPrefix(Path(k.Chan.Args[0]), self+".") {
							has = true
							ctxs[Path(k.Chan.Args[0])[len(self):]] = true
						}
					}
				}
				c.require(has, "blocking", name, e.Pos, "an operation that may block ends when the context is done")
			}
		}
		if len(ctxs) == 0 {
			continue
		}
		pa := c.analyze(pr, nil, nil, nil, pipeCfg)
		if pa.Err != nil {
			c.undecided("blocking", name, pr.Pos(), pa.Err)
			continue
		}
		for _, o := range pa.Outs {
			for _, fd := range sortedKeys(ctxs) {
				ok := false
				for _, e := range o.Events() {
					if e.Kind == "st" && addrPath(e.Recv) == Path(pa.Args[0])+fd {
						ok = e.Args[0] == pa.Args[1]
					}
				}
				c.require(ok, "blocking", "pipeline."+t.name+".Prepare", outPos2(o, pr), "the context that ends blocking operations is the one of the run")
			}
		}
	}
	c.floor("sources", n, 5)
}

// ---- forwarding

func (c *Ctx) forwarding() {
	name := "pipeline.Pipeline.FeedForward"
	fn := c.mustFn(name)
	if fn == nil {
		return
	}
	a := c.analyze(fn, nil, nil, nil, pipeCfg)
	if a.Err != nil {
		c.undecided("forwarding", name, fn.Pos(), a.Err)
		return
	}
	p, idx, seq, data := a.Args[0], a.Args[1], a.Args[2], a.Args[3]
	nodes := Path(p) + ".nodes"
	n := 0
	for _, o := range a.Outs {
		pos := outPos2(o, fn)
		if !c.require(o.Kind == "ret", "forwarding", name, pos, "forwarding returns") {
			continue
		}
		f := o.St.facts
		var feed *Event
		var s *Term
		bad := false
		for _, e := range o.Events() {
			switch {
			case e.Kind == "ld" && Path(e.Res) == nodes:
				s = e.Res
			case isNode(e, "Feed"):
				bad = bad || feed != nil
				feed = e
			case e.Kind == "go" || e.Kind == "loop" || e.Kind == "select" || e.Kind == "send" || isWrite(e) && rootOf(e.Recv).Op != "alloc":
				c.fail("forwarding", name, e.Pos, "forwarding does nothing but feed the next node (%s)", e.Kind)
			}
		}
		next := addK(idx, 1)
		switch {
		case bad:
			c.fail("forwarding", name, pos, "the batch is forwarded twice")
		case feed != nil:
			n++
			b, i := elemOf(feed.Recv)
			ok := b != nil && Path(b) == nodes && f.Entails(eqInt(i, next)) && len(feed.Args) == 4 && feed.Args[0] == p && f.Entails(eqInt(feed.Args[1], next)) && f.Entails(eqInt(feed.Args[2], seq)) && feed.Args[3] == data
			c.require(ok, "forwarding", name, feed.Pos, "the batch is fed to the next node with that node's index, the batch's number and its data")
		default:
			c.require(s != nil && f.Entails(le(mkLen(s), next)), "forwarding", name, pos, "a batch is not forwarded only if there is no next node")
		}
	}
	c.floor("forwarded batches", n, 1)
}

// ---- strict order

// promotable is a kind of node that must be switched to ordered delivery.
type promotable struct {
	m    *nodeModel
	set  map[string]*Term
	cond bool
}

func (c *Ctx) promotables(ms []*nodeModel) []*promotable {
	var r []*promotable
	for _, m := range ms {
		var plain, ord *variant
		for _, v := range m.vars {
			if v.ordered {
				ord = v
			} else {
				plain = v
			}
		}
		if plain == nil || ord == nil {
			continue // nothing to switch
		}
		p := &promotable{m: m, set: map[string]*Term{}}
		for k, v := range ord.set {
			if plain.set[k] != v {
				p.set[k] = v
			}
		}
		// a condition variable that Begin does not make
		if m.cond != "" {
			p.cond = true
			for _, o := range m.begin.Outs {
				for _, e := range o.Events() {
					if e.Kind == "st" && addrPath(e.Recv) == Path(m.begin.Args[0])+"."+m.cond {
						p.cond = false
					}
				}
			}
		}
		r = append(r, p)
	}
	return r
}

// pst is what is known about the nodes of a pipeline: those from pos on were
// asked whether they are strict and are not; or, once a strict one was found,
// those from pos up to it are switched, as are those before up.
type pst struct {
	seen, ended bool
	pos         *Term // nil: nothing known yet
	strict, up  *Term
	known       []knownVar
}

func (s pst) key() string { return fmt.Sprint(s) }

// decide is Decide with what is known besides the facts.
func (s pst) decide(t *Term, f *Facts) int {
	if d := f.Decide(t); d != 0 {
		return d
	}
	for i := len(s.known) - 1; i >= 0; i-- {
		if s.known[i].v == t {
			if s.known[i].val {
				return 1
			}
			return -1
		}
	}
	return 0
}

func (s pst) agrees(f *Facts) bool { return (&nst{known: s.known}).agrees(f) }

type promo struct {
	c     *Ctx
	nodes string
	ps    []*promotable
	errs  map[string]tokenPos
	okN   int
	asks  int
	sets  int
}

func (w *promo) err(pos token.Pos, format string, a ...any) {
	w.errs[fmt.Sprintf(format, a...)] = pos
}

func (w *promo) done(s pst, f *Facts) bool {
	if s.pos == nil {
		return false
	}
	if f.Entails(le(s.pos, mkInt(0))) {
		return true
	}
	return s.seen && s.strict != nil && s.up != nil && f.Entails(le(s.strict, s.up))
}

// settled tells whether a node was switched if need be.
func (w *promo) settled(x *Term, evs []*Event, f *Facts) string {
	yes := -1
	for i, p := range w.ps {
		switch f.Decide(w.isType(x, p, f)) {
		case 1:
			yes = i
		case 0:
			// another type excludes this one
			other := false
			for j, q := range w.ps {
				if j != i && f.Decide(w.isType(x, q, f)) > 0 {
					other = true
				}
			}
			if !other {
				return "whether it is a " + p.m.t.name + " is not looked at"
			}
		}
	}
	if yes < 0 {
		return ""
	}
	p := w.ps[yes]
	have := map[string]bool{}
	for _, e := range evs {
		if e.Kind != "st" || e.Recv.Op != "fieldaddr" {
			continue
		}
		b := e.Recv.Args[0]
		if b.Op != "assert" || len(b.Args) == 0 || b.Args[0] != x {
			continue
		}
		fd := fieldName(e.Recv)
		if v := p.set[fd]; v != nil {
			have[fd] = e.Args[0] == v
		}
		if fd == p.m.cond {
			have[fd] = e.Args[0].Op == "ext" && strings.Contains(e.Args[0].Aux, "NewCond") && len(e.Args[0].Args) > 0 && !isNil(e.Args[0].Args[0]) || e.Args[0].Op == "alloc"
		}
	}
	for fd := range p.set {
		if !have[fd] {
			return fd + " is not set"
		}
	}
	if p.cond && !have[p.m.cond] {
		return "it has no condition variable"
	}
	return ""
}

// isType finds the test for a type among the facts.
func (w *promo) isType(x *Term, p *promotable, f *Facts) *Term {
	atoms := map[*Term]bool{}
	for _, k := range f.all() {
		deepAtoms(k.cond, atoms)
	}
	for a := range atoms {
		if a.Op == "assertok" && len(a.Args) == 1 && a.Args[0] == x && strings.HasPrefix(a.Aux, "*pipeline."+p.m.t.name+"[") {
			return a
		}
	}
	return mk("assertok", "*pipeline."+p.m.t.name+"[?]", tyBool, nil, x)
}

func (w *promo) seg(evs []*Event, f *Facts, s pst, end bool) []pst {
	ss := []pst{s}
	for i, e := range evs {
		var next []pst
		for _, s := range ss {
			next = append(next, w.step(evs[:i], e, f, s)...)
		}
		ss = next
	}
	// nodes handled in this stretch
	elems := map[*Term]*Term{}
	var order []*Term
	for _, e := range evs {
		for _, x := range append([]*Term{e.Res}, e.Args...) {
			if x == nil {
				continue
			}
			if b, i := elemOf(x); b != nil && Path(b) == w.nodes && elems[x] == nil {
				elems[x] = i
				order = append(order, x)
			}
		}
	}
	for k := range ss {
		s := &ss[k]
		if !s.seen || s.ended {
			continue
		}
		for _, x := range order {
			i := elems[x]
			if s.strict == i && s.pos == i {
				continue
			}
			if why := w.settled(x, evs, f); why != "" {
				continue
			}
			switch {
			case f.Entails(eqInt(i, addK(s.pos, -1))):
				s.pos = i
				w.sets++
			case s.up != nil && f.Entails(eqInt(i, s.up)):
				s.up = addK(i, 1)
				w.sets++
			}
		}
	}
	return ss
}

func (w *promo) step(before []*Event, e *Event, f *Facts, s pst) []pst {
	switch {
	case s.ended:
	case e.Kind == "ld" && Path(e.Res) == w.nodes && s.pos == nil:
		s.pos = mkLen(e.Res)
	case isNode(e, "StrictOrd"):
		b, i := elemOf(e.Recv)
		if b == nil || Path(b) != w.nodes {
			break
		}
		w.asks++
		if s.seen {
			break
		}
		if s.pos == nil {
			s.pos = mkLen(b)
		}
		d := f.Decide(e.Res)
		switch {
		case !f.Entails(eqInt(i, addK(s.pos, -1))) && d < 0:
			w.err(e.Pos, "a node is skipped when looking for the last strictly ordered node")
		case !f.Entails(eqInt(i, addK(s.pos, -1))):
			w.err(e.Pos, "the last strictly ordered node may be another one than the one that is found")
			s.seen, s.pos, s.strict, s.up = true, i, i, mkInt(0)
		case d > 0:
			s.seen, s.pos, s.strict, s.up = true, i, i, mkInt(0)
		case d < 0:
			s.pos = i
		default:
			// found or not is only known later
			no := s
			no.pos = i
			no.known = append(append([]knownVar{}, s.known...), knownVar{e.Res, false})
			s.seen, s.pos, s.strict, s.up = true, i, i, mkInt(0)
			s.known = append(append([]knownVar{}, s.known...), knownVar{e.Res, true})
			return []pst{no, s}
		}
	case isNode(e, "Begin"):
		w.final(s, f, e.Pos)
		s.ended = true
	case e.Kind == "loop":
		return w.loop(e, f, s)
	}
	return []pst{s}
}

func (w *promo) final(s pst, f *Facts, pos token.Pos) {
	switch {
	case w.done(s, f):
		w.okN++
	case s.seen:
		w.err(pos, "not all nodes before a strictly ordered one are switched to ordered delivery before they begin")
	default:
		w.err(pos, "not all nodes are asked whether they are strictly ordered before they begin")
	}
}

func (w *promo) loop(e *Event, f *Facts, s pst) []pst {
	L := e.Loop
	rel := hasEvent([]*Event{e}, func(x *Event) bool {
		if isNode(x, "StrictOrd") || isNode(x, "Begin") {
			return true
		}
		for _, t := range append([]*Term{x.Res}, x.Args...) {
			if t != nil {
				if b, _ := elemOf(t); b != nil && Path(b) == w.nodes {
					return true
				}
			}
		}
		return false
	})
	if !rel || s.ended {
		return []pst{s}
	}
	if s.pos == nil {
		// the length was not read yet: the first read in the loop
		for _, x := range flat([]*Event{e}) {
			if x.Kind == "ld" && Path(x.Res) == w.nodes {
				s.pos = mkLen(x.Res)
				break
			}
		}
	}
	begins := hasEvent([]*Event{e}, func(x *Event) bool { return isNode(x, "Begin") })
	if begins {
		w.final(s, f, e.Pos)
		s.ended = true
		return []pst{s}
	}
	if !s.seen {
		if r := w.lastStrict(L, f, s); r != nil {
			return r
		}
	}
	type opt struct {
		v *LoopVar
		k *Term
	}
	opts := func(t *Term) []opt {
		var r []opt
		if t != nil {
			for _, v := range L.Vars {
				if isIntType(v.Sym.Typ) && v.Init != nil {
					d := sub(t, v.Init)
					if _, ok := d.intConst(); ok {
						r = append(r, opt{v, d})
					}
				}
			}
		}
		return append(r, opt{})
	}
	var best []pst
	var bestErr map[string]tokenPos
	bestN, bestOk, bestAsk, bestSet := -1, 0, 0, 0
	// one variable each for what was searched or switched downwards, before
	// and after a strict node was found, and switched upwards
	ups := opts(s.up)
	if s.up == nil {
		ups = opts(mkInt(0))
	}
	for _, po := range opts(s.pos) {
		for _, uo := range ups {
			ws := *w
			ws.errs = map[string]tokenPos{}
			h := s
			if po.v != nil {
				h.pos = add(po.v.Sym, po.k)
			}
			if uo.v != nil && h.up != nil {
				h.up = add(uo.v.Sym, uo.k)
			}
			for _, v := range L.Vars {
				if v.Init != nil && isBoolType(v.Sym.Typ) {
					if d := f.Decide(v.Init); d != 0 {
						h.known = append(append([]knownVar{}, h.known...), knownVar{v.Sym, d > 0})
					}
				}
			}
			heads := []pst{h}
			seen := map[string]bool{h.key(): true}
			for i := 0; i < len(heads) && i < 12; i++ {
				for _, it := range L.Iters {
					fi := it.St.facts
					if !fi.Feasible() || !heads[i].agrees(fi) {
						continue
					}
					for _, n := range ws.seg(it.Events, fi, heads[i], false) {
						if po.v != nil && n.pos != nil {
							if nx := it.Next[po.v.Sym]; nx != nil && fi.Entails(eqInt(n.pos, add(nx, po.k))) {
								n.pos = add(po.v.Sym, po.k)
							} else {
								ws.err(L.Pos, "a node is left out when looking for strictly ordered nodes and switching the ones before")
								n.pos = add(po.v.Sym, po.k)
							}
						} else if po.v == nil && n.pos != heads[i].pos {
							ws.err(L.Pos, "the nodes that were looked at are not counted by a variable")
							n.pos = heads[i].pos
						}
						if n.up != nil {
							if uo.v != nil {
								if nx := it.Next[uo.v.Sym]; nx != nil && fi.Entails(eqInt(n.up, add(nx, uo.k))) {
									n.up = add(uo.v.Sym, uo.k)
								} else {
									n.up = mkInt(0)
								}
							} else if n.up != heads[i].up {
								n.up = mkInt(0)
							}
						}
						if n.strict != nil && !heads[i].seen {
							// the index belongs to an earlier iteration
							n.strict = nil
						}
						was := n
						n.known = append([]knownVar{}, s.known...)
						for _, v := range L.Vars {
							if nv := it.Next[v.Sym]; nv != nil && isBoolType(v.Sym.Typ) {
								if d := was.decide(nv, fi); d != 0 {
									n.known = append(n.known, knownVar{v.Sym, d > 0})
								}
							}
						}
						if k := n.key(); !seen[k] {
							seen[k] = true
							heads = append(heads, n)
						}
					}
				}
			}
			if len(heads) >= 12 {
				ws.err(L.Pos, "undecided: what is known about the nodes does not stabilise")
			}
			n := len(ws.errs)
			var res []pst
			for _, h := range heads {
				if h.agrees(f) {
					res = append(res, h)
				}
			}
			// prefer candidates that say something at the exit
			good := 0
			for _, h := range res {
				if w.done(h, f) {
					good++
				}
			}
			score := n*1000 - good
			if bestErr == nil || score < bestN {
				best, bestErr, bestN = res, ws.errs, score
				bestOk, bestAsk, bestSet = ws.okN, ws.asks, ws.sets
			}
		}
	}
	for m, p := range bestErr {
		w.errs[m] = p
	}
	w.okN, w.asks, w.sets = bestOk, bestAsk, bestSet
	return best
}

// lastStrict recognises a loop that asks all nodes, from the first to the last
// one, and remembers the index of the last one that is strict.
func (w *promo) lastStrict(L *Loop, f *Facts, s pst) []pst {
	var idx *Term // of the node asked
	asks := 0
	for _, it := range L.Iters {
		if !it.St.facts.Feasible() {
			continue
		}
		n := 0
		for _, e := range it.Events {
			switch {
			case e.Kind == "loop":
				return nil
			case e.Kind == "st" && e.Recv.Op != "alloc":
				return nil // nodes are switched on the way
			case isNode(e, "StrictOrd"):
				b, i := elemOf(e.Recv)
				if b == nil || Path(b) != w.nodes || idx != nil && i != idx {
					return nil
				}
				idx = i
				n++
			}
		}
		if n != 1 {
			return nil
		}
		asks++
	}
	if idx == nil {
		return nil
	}
	// all of them, in order
	all := false
	for _, v := range L.Vars {
		if v.Init == nil || !isIntType(v.Sym.Typ) {
			continue
		}
		k := sub(idx, v.Sym)
		if _, ok := k.intConst(); !ok || !f.Entails(eqInt(add(v.Init, k), mkInt(0))) {
			continue
		}
		ok := s.pos != nil && f.Entails(le(s.pos, add(v.Sym, k)))
		for _, it := range L.Iters {
			nx := it.Next[v.Sym]
			ok = ok && (!it.St.facts.Feasible() || nx != nil && it.St.facts.Entails(eqInt(nx, addK(v.Sym, 1))))
		}
		all = all || ok
	}
	if !all {
		return nil
	}
	for _, v := range L.Vars {
		if v.Init == nil || !isIntType(v.Sym.Typ) {
			continue
		}
		var k *Term
		ok := true
		for _, it := range L.Iters {
			fi := it.St.facts
			nx := it.Next[v.Sym]
			if !fi.Feasible() {
				continue
			}
			for _, e := range it.Events {
				if !isNode(e, "StrictOrd") {
					continue
				}
				switch d := fi.Decide(e.Res); {
				case nx == nil || d == 0:
					ok = false
				case d < 0:
					ok = ok && fi.Entails(eqInt(nx, v.Sym))
				default:
					if k == nil {
						k = sub(nx, idx)
					}
					if _, c := k.intConst(); !c || !fi.Entails(eqInt(nx, add(idx, k))) {
						ok = false
					}
				}
			}
		}
		if !ok || k == nil {
			continue
		}
		w.asks += asks
		none, some := s, s
		none.pos = mkInt(0)
		at := sub(v.Sym, k)
		some.seen, some.pos, some.strict, some.up = true, at, at, mkInt(0)
		return []pst{none, some}
	}
	return nil
}

// strictOrder checks that all nodes before a strictly ordered one are switched
// to ordered delivery before any node begins.
func (c *Ctx) strictOrder(ms []*nodeModel) {
	ps := c.promotables(ms)
	c.floor("kinds of nodes that can be switched to ordered delivery", len(ps), 2)
	an, run := c.runAnalysis("promotion")
	if an != nil {
		name := shortFn(run)
		w := &promo{c: c, nodes: Path(an.Args[0]) + ".nodes", ps: ps, errs: map[string]tokenPos{}}
		for _, o := range an.Outs {
			begins := hasEvent(o.Events(), func(e *Event) bool { return isNode(e, "Begin") })
			ss := w.seg(o.Events(), o.St.facts, pst{}, true)
			if begins {
				for _, s := range ss {
					if !s.ended {
						w.err(endPos(o), "nodes begin on a path that does not look for strictly ordered nodes")
					}
				}
			}
		}
		for m, p := range w.errs {
			c.fail("promotion", name, p, "%s", m)
		}
		if len(w.errs) == 0 {
			c.ok("promotion", name, "all nodes before a strictly ordered one are switched before nodes begin, on %d paths", w.okN)
		}
		c.floor("paths that prepare for strict order", w.okN, 2)
		c.floor("questions for strict order", w.asks, 1)
		c.floor("nodes switched", w.sets, 1)
	}
	inner := map[string]bool{}
	for _, k := range c.containers() {
		inner[k.t.name] = true
		name := "pipeline." + k.t.name + ".StrictOrd"
		fn := k.t.m["StrictOrd"]
		a := c.analyze(fn, nil, nil, nil, pipeCfg)
		if a.Err != nil {
			c.undecided("promotion", name, fn.Pos(), a.Err)
			continue
		}
		w := &promo{c: c, nodes: Path(a.Args[0]) + "." + k.next + ".nodes", ps: ps, errs: map[string]tokenPos{}}
		for _, o := range a.Outs {
			pos := outPos2(o, fn)
			if !c.require(o.Kind == "ret" && len(o.Res) == 1, "promotion", name, pos, "StrictOrd returns") {
				continue
			}
			f := o.St.facts
			for _, s := range w.seg(o.Events(), f, pst{}, true) {
				w.final(s, f, pos)
				d := s.decide(o.Res[0], f)
				if s.seen && d <= 0 || !s.seen && d >= 0 {
					w.err(pos, "StrictOrd does not tell whether there is a strictly ordered node in the transformed pipeline")
				}
			}
		}
		for m, p := range w.errs {
			c.fail("promotion", name, p, "%s", m)
		}
		if len(w.errs) == 0 {
			c.ok("promotion", name, "the transformed pipeline's nodes are prepared and the answer is right on %d paths", w.okN)
		}
		c.floor("paths of "+name, w.okN, 2)
	}
	for _, m := range ms {
		strict := false
		for _, v := range m.vars {
			strict = strict || v.name == "StrictOrd"
		}
		name := "pipeline." + m.t.name + ".StrictOrd"
		fn := m.t.m["StrictOrd"]
		a := c.analyze(fn, nil, nil, nil, pipeCfg)
		if a.Err != nil {
			c.undecided("promotion", name, fn.Pos(), a.Err)
			continue
		}
		for _, o := range a.Outs {
			if o.Kind != "ret" || len(o.Res) != 1 {
				c.fail("promotion", name, outPos2(o, fn), "StrictOrd returns")
				continue
			}
			d := o.St.facts.Decide(o.Res[0])
			if strict {
				c.require(d > 0, "promotion", name, outPos2(o, fn), "a StrictOrd node says so")
			} else {
				c.require(d != 0, "promotion", name, outPos2(o, fn), "a node says whether it is a StrictOrd node")
			}
		}
	}
}
