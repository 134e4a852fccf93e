package main

// C27: batches are numbered consecutively and sized as configured.

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func ruleFetch(c *Ctx) {
	c.batchSettings()
	run := c.runFn("run")
	if run == nil {
		return
	}
	w := &fetchWalk{c: c, name: shortFn(run), fn: run, loops: map[*Loop]bool{}, at: map[*Event]*State{}}
	cfg := pipeCfg
	cfg.Arith = true
	cfg.OnEvent = func(in *Interp, st *State, e *Event) {
		if isSource(e, "Fetch") {
			w.at[e] = st.clone()
		}
	}
	an := c.analyze(run, nil, nil, nil, cfg)
	if an.Err != nil {
		c.undecided("run", w.name, run.Pos(), an.Err)
		return
	}
	w.p = an.Args[0]
	for _, o := range an.Outs {
		pos := outPos2(o, run)
		if !c.require(o.Kind == "ret", "run", w.name, pos, "the run returns") {
			continue
		}
		evs := o.Events()
		w.prep, w.o, w.entry = nil, o, nil
		for _, e := range evs {
			if isSource(e, "Prepare") {
				w.prep = e
			}
		}
		s, err := w.walk(evs, o.St.facts, &fetchState{seq: mkInt(0)})
		if err != nil {
			c.fail(err.rule, w.name, err.pos, "%s", err.msg)
			continue
		}
		stopped := s.stopped
		switch {
		case s.n == 0 && w.prep == nil:
			c.ok("run", w.name, "a run that does not start fetches nothing")
		case stopped:
			c.ok("run", w.name, "the run stops early only after an error or a cancellation")
		case s.phase == 0 && s.n == 0:
			// no nodes, or the number of nodes is not known to be positive
			c.require(w.noNodes(o), "run", w.name, pos, "batches are fetched if there is any node")
		case s.phase == 1 && o.St.facts.Entails(le(s.res, mkInt(0))):
			c.ok("run", w.name, "the run ends when the source has no batch left")
		default:
			c.fail("run", w.name, pos, "the run ends although the source may have batches left, or a batch it delivered was not fed")
		}
	}
	c.floor("requests for batches", w.fetches, 4)
	c.floor("batches fed", w.feeds, 4)
	c.floor("loops that fetch", len(w.loops), 2)
}

// noNodes reports that the path has seen that the pipeline has no nodes.
func (w *fetchWalk) noNodes(o *Outcome) bool {
	for _, e := range o.Events() {
		if e.Kind == "ld" && Path(e.Res) == Path(w.p)+".nodes" {
			if o.St.facts.Entails(eqInt(mkLen(e.Res), mkInt(0))) {
				return true
			}
		}
		if e.Kind == "st" && addrPath(e.Recv) == Path(w.p)+".nodes" && o.St.facts.Entails(eqInt(mkLen(e.Args[0]), mkInt(0))) {
			return true
		}
	}
	return o.St.facts.Entails(eqInt(mkLen(o.St.load(mkFieldAddrByName(w.p, "nodes"), nil)), mkInt(0)))
}

func mkFieldAddrByName(base *Term, name string) *Term {
	st := structOf(deref(base.Typ))
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return mkFieldAddr(base, i, name, ptrTo(st.Field(i).Type()))
		}
	}
	return base
}

// batchSettings checks NofBatches and SetVariableBatchSize.
func (c *Ctx) batchSettings() {
	name := "pipeline.Pipeline.NofBatches"
	if fn := c.mustFn(name); fn != nil {
		an := c.analyze(fn, nil, nil, nil, Config{})
		if an.Err != nil {
			c.undecided("settings", name, fn.Pos(), an.Err)
		}
		n := an.Args[1]
		for _, o := range an.Outs {
			pos := outPos2(o, fn)
			if !c.require(o.Kind == "ret", "settings", name, pos, "NofBatches returns") {
				continue
			}
			f := o.St.facts
			var field *Term
			for _, e := range o.Events() {
				if (e.Kind == "ld" || e.Kind == "st") && fieldName(e.Recv) == "nofBatches" {
					field = e.Recv
				} else if e.Kind == "st" && rootOf(e.Recv).Op != "alloc" {
					c.fail("settings", name, e.Pos, "NofBatches changes %s", addrPath(e.Recv))
				}
			}
			if field == nil {
				c.fail("settings", name, pos, "the setting is neither read nor written")
				continue
			}
			old := newState().load(field, tyInt)
			now := o.St.load(field, tyInt)
			res := o.Res[0]
			c.require(f.Entails(le(mkInt(1), res)), "settings", name, pos, "the number of batches is at least 1")
			switch {
			case f.Entails(le(mkInt(1), n)):
				c.require(f.Entails(eqInt(res, n)) && f.Entails(eqInt(now, n)), "settings", name, pos, "a positive number of batches is stored and returned")
			case f.Entails(le(n, mkInt(0))):
				switch {
				case f.Entails(le(mkInt(1), old)):
					c.require(f.Entails(eqInt(res, old)) && f.Entails(eqInt(now, old)), "settings", name, pos, "asking for the number of batches gives the one that was set")
				case f.Entails(le(old, mkInt(0))):
					cpu := false
					for a := range linAtoms(res) {
						cpu = cpu || a.Op == "numcpu"
					}
					c.require(cpu, "settings", name, pos, "the default number of batches depends on the number of CPUs")
					c.require(f.Entails(eqInt(now, res)) || f.Entails(eqInt(now, old)), "settings", name, pos, "the default is stored, or nothing")
				default:
					c.fail("settings", name, pos, "whether a number of batches was set is not looked at")
				}
			default:
				c.fail("settings", name, pos, "the argument is not looked at")
			}
		}
	}
	name = "pipeline.Pipeline.SetVariableBatchSize"
	if fn := c.mustFn(name); fn != nil {
		an := c.analyze(fn, nil, nil, nil, Config{})
		if an.Err != nil {
			c.undecided("settings", name, fn.Pos(), an.Err)
		}
		for _, o := range an.Outs {
			pos := outPos2(o, fn)
			inc, max := false, false
			for _, e := range o.Events() {
				if e.Kind == "st" && rootOf(e.Recv).Op != "alloc" {
					switch fieldName(e.Recv) {
					case "batchInc":
						inc = o.St.facts.Entails(eqInt(e.Args[0], an.Args[1])) || o.St.facts.Entails(le(an.Args[1], mkInt(0))) && o.St.facts.Entails(le(e.Args[0], mkInt(0)))
					case "maxBatchSize":
						max = o.St.facts.Entails(eqInt(e.Args[0], an.Args[2])) || o.St.facts.Entails(le(an.Args[2], mkInt(0))) && o.St.facts.Entails(le(e.Args[0], mkInt(0)))
					default:
						c.fail("settings", name, e.Pos, "SetVariableBatchSize changes %s", addrPath(e.Recv))
					}
				}
			}
			c.require(inc && max, "settings", name, pos, "both batch sizes are stored as given")
		}
	}
}

func linAtoms(t *Term) map[*Term]bool {
	m := map[*Term]bool{}
	for _, x := range toLin(t).at {
		m[x] = true
	}
	return m
}

type fetchErr struct {
	rule string
	pos  tokenPos
	msg  string
}

// fetchState is what is known between two events of a run.
type fetchState struct {
	phase   int   // 0 nothing fetched, 1 fetched, 2 fetched and read
	seq     *Term // number of the next batch
	res     *Term // result of the last fetch
	last    *Term // size requested last
	want    *Term // size that must be requested next, at a loop head
	data    *Term
	n       int
	stopped bool
}

type fetchWalk struct {
	c              *Ctx
	name           string
	fn             *ssa.Function
	p              *Term
	prep           *Event
	o              *Outcome
	loops          map[*Loop]bool
	fetches, feeds int
	steps          int    // how far a guess of what holds at a loop head got
	entry          *State // memory where fetching begins
	at             map[*Event]*State
}

// settle adds what is known about settings that are read again later: nobody
// changes them while the pipeline runs.
func (w *fetchWalk) settle(f *Facts, ts ...*Term) *Facts {
	if w.entry == nil {
		return f
	}
	atoms := map[*Term]bool{}
	for _, t := range ts {
		if t != nil {
			deepAtoms(t, atoms)
		}
	}
	for _, x := range f.all() {
		deepAtoms(x.cond, atoms)
	}
	base := Path(w.p) + ".pipelineState."
	early := map[*Term]bool{} // read before fetching began
	for _, e := range w.o.Events() {
		if e.Loop != nil && w.loops[e.Loop] || isSource(e, "Fetch") {
			break
		}
		if e.Kind == "ld" {
			early[e.Res] = true
		}
	}
	for a := range atoms {
		t := a
		isLen := false
		if t.Op == "len" {
			t, isLen = t.Args[0], true
		}
		if t.Op != "load" || early[t] {
			continue
		}
		ap := addrPath(t.Args[0])
		switch {
		case !isLen && (ap == base+"batchInc" || ap == base+"maxBatchSize" || ap == base+"nofBatches"):
			f = f.add(eqInt(t, w.entryVal(t.Args[0], ap)), true)
		case isLen && ap == Path(w.p)+".nodes":
			f = f.add(eqInt(a, mkLen(w.entry.load(t.Args[0], t.Typ))), true)
		}
	}
	return f
}

// setting gives a setting's value before the run looked at it, and when
// fetching begins.
func (w *fetchWalk) setting(name string) (before, now *Term) {
	path := Path(w.p) + ".pipelineState." + name
	for _, e := range w.o.Events() {
		if (e.Kind == "ld" || e.Kind == "st") && addrPath(e.Recv) == path {
			if before == nil && e.Kind == "ld" {
				before = e.Res
			}
			return before, w.entryVal(e.Recv, path)
		}
	}
	pa := mkFieldAddrByName(w.p, "pipelineState")
	a := mkFieldAddrByName(w.entry.load(pa, deref(pa.Typ)), name)
	t := w.entry.load(a, tyInt)
	return t, t
}

// entryVal is the content of a cell when fetching begins.
func (w *fetchWalk) entryVal(a *Term, path string) *Term {
	var first, last *Term
	for _, e := range w.o.Events() {
		if e.Loop != nil && w.loops[e.Loop] || isSource(e, "Fetch") {
			break
		}
		if e.Kind == "st" && addrPath(e.Recv) == path {
			last = e.Args[0]
		}
		if e.Kind == "ld" && addrPath(e.Recv) == path && first == nil {
			first = e.Res
		}
	}
	if last != nil {
		return last
	}
	if first != nil {
		return first
	}
	return w.entry.load(a, deref(a.Typ))
}

// inc and max as documented, as a case split over facts.
type sizeCase struct {
	f        *Facts
	inc, max *Term
}

func (w *fetchWalk) sizeCases(f *Facts) []sizeCase {
	inc, _ := w.setting("batchInc")
	max, _ := w.setting("maxBatchSize")
	dinc, dmax := w.c.constOf("pipeline", "defaultBatchInc"), w.c.constOf("pipeline", "defaultMaxBatchSize")
	if inc == nil || max == nil || dinc == nil || dmax == nil {
		return nil
	}
	if !(*Facts)(nil).Entails(le(mkInt(1), dinc)) || !(*Facts)(nil).Entails(le(mkInt(1), dmax)) {
		return nil // no progress
	}
	var r []sizeCase
	for i := 0; i < 4; i++ {
		g := f
		a, b := inc, max
		if i&1 != 0 {
			g = g.add(le(inc, mkInt(0)), true)
			a = dinc
		} else {
			g = g.add(le(mkInt(1), inc), true)
		}
		if i&2 != 0 {
			g = g.add(le(max, mkInt(0)), true)
			b = dmax
		} else {
			g = g.add(le(mkInt(1), max), true)
		}
		if g.Feasible() {
			r = append(r, sizeCase{g, a, b})
		}
	}
	return r
}

func isMin(f *Facts, x, a, b *Term) bool {
	return f.Entails(le(x, a)) && f.Entails(le(x, b)) && (f.Entails(eqInt(x, a)) || f.Entails(eqInt(x, b)) ||
		isMinSplit(f, x, a, b))
}

func isMinSplit(f *Facts, x, a, b *Term) bool {
	return f.add(le(a, b), true).Entails(eqInt(x, a)) && f.add(lt(b, a), true).Entails(eqInt(x, b))
}

// size checks the size of a request; last is the size of the one before.
func (w *fetchWalk) size(f *Facts, arg, last *Term) string {
	if w.prep == nil {
		return "batches are fetched before the source was prepared"
	}
	f = w.settle(f, arg, last)
	d := w.prep.Res
	if g := f.add(lt(d, mkInt(0)), true); g.Feasible() {
		cases := w.sizeCases(g)
		if cases == nil {
			return "undecided: the settings for batch sizes are not known"
		}
		for _, s := range cases {
			// what the code knows
			if last == nil {
				if !isMin(s.f, arg, s.inc, s.max) {
					return "for an unknown size the first batch must be requested with the batch increment, but not with more than the maximum"
				}
				continue
			}
			// the first size is min(inc, max), so that last + min(inc, max), limited
			// by max, is last + inc, limited by max
			g := s.f.add(le(mkInt(1), last), true).add(le(last, s.max), true)
			if !isMin(g, arg, add(last, s.inc), s.max) {
				return "for an unknown size every request must be larger than the one before by the batch increment, but not more than the maximum"
			}
		}
	}
	if g := f.add(le(mkInt(0), d), true); g.Feasible() {
		if last != nil {
			if !g.Entails(eqInt(arg, last)) {
				return "for a known size all requests must have the same size"
			}
			return ""
		}
		return w.knownSize(g, arg, d)
	}
	return ""
}

// knownSize checks that arg is d divided by the number of batches, rounded up
// and at least 1. Products with the number of batches are unknowns.
func (w *fetchWalk) knownSize(f *Facts, arg, d *Term) string {
	bad := "for a known size the requests must have the size divided by the number of batches, rounded up, and at least 1"
	// the divisor: the number of batches
	var n *Term
	divs := map[*Term]bool{}
	var find func(t *Term)
	find = func(t *Term) {
		if t.Op == "div" || t.Op == "rem" {
			divs[t] = true
		}
		for _, a := range t.Args {
			find(a)
		}
	}
	find(arg)
	for _, x := range f.all() {
		find(x.cond)
	}
	_, set := w.setting("nofBatches")
	before, _ := w.setting("nofBatches")
	isN := func(t *Term) bool {
		g := w.settle(f, t)
		if g.Entails(le(mkInt(1), before)) {
			return g.Entails(eqInt(t, before))
		}
		return g.Entails(le(before, mkInt(0))) && (t.Op == "numcpu" || g.Entails(eqInt(t, set)) && set.Op == "numcpu")
	}
	for t := range divs {
		if isN(t.Args[1]) {
			n = t.Args[1]
		}
	}
	// d == 0
	if z := f.add(eqInt(d, mkInt(0)), true); z.Feasible() {
		z0 := z
		for t := range divs {
			z0 = divFacts(z0, t)
		}
		if z0.Feasible() && !z0.Entails(eqInt(arg, mkInt(1))) {
			return bad
		}
	}
	g := f.add(le(mkInt(1), d), true)
	if !g.Feasible() {
		return ""
	}
	if n == nil {
		// the branch for sizes that round to nothing is not taken
		h := g
		for t := range divs {
			h = divFacts(h, t)
		}
		if !h.Feasible() {
			return ""
		}
		return bad + " (the number of batches is not recognised)"
	}
	g = w.settle(g, n).add(le(mkInt(1), n), true)
	// q*n as a linear unknown per quotient
	times := map[*Term]*Term{} // quotient -> quotient*n
	for t := range divs {
		if t.Args[1] != n {
			continue
		}
		x := t.Args[0]
		q := mk("div", "", tyInt, nil, x, n)
		if times[q] == nil {
			times[q] = freshSym("product", tyInt)
			if g.Entails(le(mkInt(0), x)) {
				g = g.add(le(mkInt(0), q), true)
				g = g.add(le(q, x), true)
				g = g.add(le(q, times[q]), true)
				g = g.add(le(times[q], x), true)
				g = g.add(lt(x, add(times[q], n)), true)
			}
		}
		if t.Op == "rem" {
			g = g.add(eqInt(t, sub(x, times[q])), true)
			if !g.add(eqInt(t, mkInt(0)), true).Feasible() && g.Entails(le(mkInt(0), t)) {
				g = g.add(le(mkInt(1), t), true)
			}
		}
	}
	if !g.Feasible() {
		return ""
	}
	// small quotients have known products
	cases := []*Facts{g}
	for q, qn := range times {
		var next []*Facts
		for _, g := range cases {
			if !g.Entails(le(mkInt(0), q)) {
				next = append(next, g)
				continue
			}
			next = append(next, g.add(eqInt(q, mkInt(0)), true).add(eqInt(qn, mkInt(0)), true),
				g.add(eqInt(q, mkInt(1)), true).add(eqInt(qn, n), true),
				g.add(le(mkInt(2), q), true).add(le(mul(mkInt(2), n), qn), true))
		}
		cases = next
	}
	for _, g := range cases {
		if g.Feasible() && !roundsUp(g, arg, d, n, times) {
			return bad
		}
	}
	return ""
}

// roundsUp tells whether arg is the least number with arg*n >= d, and at least
// 1. times has the products of quotients with n.
func roundsUp(g *Facts, arg, d, n *Term, times map[*Term]*Term) bool {
	// arg*n
	l := toLin(arg)
	prod := mul(mkInt(l.k), n)
	for i, a := range l.at {
		p := times[a]
		if p == nil {
			if g.Entails(eqInt(a, n)) {
				return false
			}
			if k, ok := constUnder(g, a); ok {
				p = mul(mkInt(k), n)
			} else {
				return false
			}
		}
		prod = add(prod, mul(mkInt(l.co[i]), p))
	}
	if !g.Entails(le(d, prod)) || !g.Entails(lt(sub(prod, n), d)) {
		return false
	}
	if !g.Entails(le(mkInt(1), arg)) {
		// arg*n >= d >= 1 and n >= 1
		if !g.Entails(le(mkInt(1), prod)) {
			return false
		}
	}
	return true
}

// divFacts adds that a quotient is truncated towards zero (divisor >= 1).
func divFacts(f *Facts, t *Term) *Facts {
	if t.Op != "div" && t.Op != "rem" {
		return f
	}
	x := t.Args[0]
	switch {
	case f.Entails(le(x, mkInt(0))):
		return f.add(le(t, mkInt(0)), true).add(le(x, t), true)
	case f.Entails(le(mkInt(0), x)):
		return f.add(le(mkInt(0), t), true).add(le(t, x), true)
	}
	return f
}

func constUnder(f *Facts, t *Term) (int64, bool) {
	for k := int64(0); k <= 1; k++ {
		if f.Entails(eqInt(t, mkInt(k))) {
			return k, true
		}
	}
	return 0, false
}

// stops reports that after an event the run may stop without fetching on.
func stops(e *Event, f *Facts) bool {
	switch {
	case e.Kind == "perr" || e.Kind == "ctxerr" || isSourceErr(e):
		return nilness(f, e.Res) < 0
	case e.Kind == "seterr":
		return true
	case e.Kind == "select" && e.Chosen >= 0 && e.Chosen < len(e.Cases):
		return isDoneOf(e.Cases[e.Chosen].Chan, "")
	}
	return false
}

func (w *fetchWalk) walk(evs []*Event, f *Facts, s *fetchState) (*fetchState, *fetchErr) {
	n := *s
	s = &n
	for _, e := range evs {
		switch {
		case isSource(e, "Fetch"):
			if w.entry == nil {
				w.entry = w.at[e]
			}
			if s.phase != 0 {
				return s, &fetchErr{"fed", e.Pos, "the next batch is requested before the last one was fed, or after the source said that there is none"}
			}
			if s.stopped {
				return s, &fetchErr{"run", e.Pos, "another batch is requested after an error or a cancellation"}
			}
			if len(e.Args) != 1 || e.Recv.Op != "load" || Path(e.Recv) != Path(w.p)+".source" {
				return s, &fetchErr{"run", e.Pos, "the batch is not requested from the pipeline's source"}
			}
			arg := e.Args[0]
			if s.want != nil {
				if !w.settle(f, arg, s.want).Entails(eqInt(arg, s.want)) {
					return s, &fetchErr{"size", e.Pos, "the requested size is not the one that is due"}
				}
			} else if m := w.size(f, arg, s.last); m != "" {
				return s, &fetchErr{"size", e.Pos, m}
			}
			s.phase, s.res, s.last, s.want = 1, e.Res, arg, nil
			s.n++
			w.fetches++
			w.steps++
		case isSource(e, "Data"):
			if s.phase == 0 {
				return s, &fetchErr{"fed", e.Pos, "a batch is read although none was fetched"}
			}
			s.phase, s.data = 2, e.Res
		case isNode(e, "Feed"):
			if s.phase != 2 {
				return s, &fetchErr{"fed", e.Pos, "a node is fed although no new batch was fetched and read"}
			}
			if !f.Entails(le(mkInt(1), s.res)) {
				return s, &fetchErr{"fed", e.Pos, "a node is fed although the source may have delivered nothing"}
			}
			ra := loadAddr(e.Recv)
			if ra == nil || ra.Op != "idxaddr" || Path(ra.Args[0]) != Path(w.p)+".nodes" || !f.Entails(eqInt(ra.Args[1], mkInt(0))) {
				return s, &fetchErr{"fed", e.Pos, "the batch is not fed to the first node of the pipeline"}
			}
			if len(e.Args) != 4 || e.Args[0] != w.p || !f.Entails(eqInt(e.Args[1], mkInt(0))) || e.Args[3] != s.data {
				return s, &fetchErr{"fed", e.Pos, "the first node is not fed with the pipeline, its index and the batch that was read"}
			}
			if !f.Entails(eqInt(e.Args[2], s.seq)) {
				return s, &fetchErr{"number", e.Pos, "the batch does not get the next sequence number"}
			}
			s.phase = 0
			s.seq = addK(s.seq, 1)
			w.feeds++
			w.steps++
		case e.Kind == "loop":
			rel := false
			for _, x := range flat([]*Event{e}) {
				if isSource(x, "Fetch") || isSource(x, "Data") || isNode(x, "Feed") {
					rel = true
				}
			}
			if !rel {
				continue
			}
			var err *fetchErr
			s, err = w.loop(e.Loop, s)
			if err != nil {
				return s, err
			}
		case e.Kind == "arith":
			if w.entry != nil {
				if m := w.overflow(e); m != "" {
					return s, &fetchErr{"size", e.Pos, m}
				}
			}
		}
		if stops(e, f) {
			s.stopped = true
		}
	}
	return s, nil
}

// overflow checks sums of the settings for batch sizes.
func (w *fetchWalk) overflow(e *Event) string {
	about := false
	for _, a := range e.Args {
		for t := range linAtoms(a) {
			if p := Path(t); strings.HasSuffix(p, ".batchInc") || strings.HasSuffix(p, ".maxBatchSize") {
				about = true
			}
		}
	}
	if !about {
		return ""
	}
	for _, s := range w.sizeCases(w.settle(e.Facts, e.Res)) {
		f := s.f
		// sizes are between 1 and the maximum
		for _, a := range e.Args {
			for t := range linAtoms(a) {
				if t.Op == "sym" {
					f = f.add(le(mkInt(1), t), true).add(le(t, s.max), true)
				}
			}
		}
		if !f.Entails(le(e.Res, s.max)) || !f.Entails(le(mkInt(-1), e.Res)) {
			return "the computation of the next size can overflow"
		}
	}
	return ""
}

// loop analyses a loop that fetches batches: what holds at its head must be
// the same whenever it is reached.
func (w *fetchWalk) loop(L *Loop, s *fetchState) (*fetchState, *fetchErr) {
	if w.entry == nil {
		w.entry = L.Pre
	}
	w.loops[L] = true
	// candidates for the number of the next batch
	seqs := []*Term{s.seq}
	for _, v := range L.Vars {
		if isIntType(v.Sym.Typ) {
			if k, ok := sub(s.seq, v.Init).intConst(); ok {
				seqs = append(seqs, addK(v.Sym, k))
			}
		}
	}
	var wants []*Term
	if s.phase == 0 {
		for _, it := range L.Iters {
			for _, e := range it.Events {
				if isSource(e, "Fetch") {
					wants = append(wants, e.Args[0])
					break
				}
			}
		}
	}
	if len(wants) == 0 {
		wants = []*Term{nil}
	}
	type pair struct{ res, last *Term }
	ress := []pair{{s.res, s.last}}
	if s.phase != 0 {
		for _, v := range L.Vars {
			if v.Init == s.res {
				for _, u := range L.Vars {
					if s.last != nil && isIntType(u.Sym.Typ) && L.Entry.Entails(eqInt(u.Init, s.last)) {
						ress = append(ress, pair{v.Sym, u.Sym})
					}
				}
				ress = append(ress, pair{v.Sym, s.last})
			}
		}
	}
	var first *fetchErr
	best := -1
	for i := len(seqs) - 1; i >= 0; i-- {
		for _, want := range wants {
			for j := len(ress) - 1; j >= 0; j-- {
				h := *s
				h.seq, h.want, h.res, h.last = seqs[i], want, ress[j].res, ress[j].last
				w.steps = 0
				r, err := w.loopFrom(L, s, &h)
				if err == nil {
					return r, nil
				}
				if w.steps > best {
					first, best = err, w.steps
				}
			}
		}
	}
	return s, first
}

func (w *fetchWalk) loopFrom(L *Loop, s, h *fetchState) (*fetchState, *fetchErr) {
	init, next := map[*Term]*Term{}, map[*Term]*Term{}
	for _, v := range L.Vars {
		init[v.Sym] = v.Init
	}
	entry := L.Entry
	if h.want != nil {
		if m := w.size(entry, subst(h.want, init), s.last); m != "" {
			return s, &fetchErr{"size", L.Pos, m}
		}
	}
	for _, it := range L.Iters {
		if !w.settle(it.St.facts).Feasible() {
			continue
		}
		for _, v := range L.Vars {
			next[v.Sym] = it.Next[v.Sym]
			if next[v.Sym] == nil {
				next[v.Sym] = v.Sym
			}
		}
		f := it.St.facts
		r, err := w.walk(it.Events, f, h)
		if err != nil {
			return s, err
		}
		if r.stopped {
			return s, &fetchErr{"run", L.Pos, "the run goes on after an error or a cancellation"}
		}
		if r.phase != h.phase {
			return s, &fetchErr{"fed", L.Pos, "a batch may not be fed before the next one is requested"}
		}
		if !f.Entails(eqInt(r.seq, subst(h.seq, next))) {
			return s, &fetchErr{"number", L.Pos, "sequence numbers are not consecutive"}
		}
		w.steps++
		if h.want != nil {
			if m := w.size(f, subst(h.want, next), r.last); m != "" {
				return s, &fetchErr{"size", L.Pos, m}
			}
		} else if h.phase != 0 {
			if r.res != subst(h.res, next) || r.last != subst(h.last, next) && !f.Entails(eqInt(r.last, subst(h.last, next))) {
				return s, &fetchErr{"run", L.Pos, "undecided: the result of the last request is not tracked through the loop"}
			}
		}
	}
	h.n++
	return h, nil
}

func init() {
	register("C27", "an automaton over every path of the run, with its loops as inductive steps: prepare, then (request, read, feed to the first node with the next number) until the source has nothing or an error or cancellation was seen; requested sizes are related to the settings by linear arithmetic with products as unknowns", ruleFetch,
		"user code does not change the batch settings or the nodes while the pipeline runs", "dataSize plus the number of batches is representable")
}

// deepAtoms collects everything a term consists of, down to loads.
func deepAtoms(t *Term, m map[*Term]bool) {
	if t == nil || m[t] {
		return
	}
	if t.lin != nil {
		for _, a := range t.lin.at {
			deepAtoms(a, m)
		}
		if len(t.lin.at) != 1 || t.lin.at[0] != t {
			return
		}
	}
	m[t] = true
	if t.Op == "load" {
		return
	}
	for _, a := range t.Args {
		deepAtoms(a, m)
	}
}
