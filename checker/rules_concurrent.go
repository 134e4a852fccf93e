package main

// C39: the parts of one call run concurrently. On every path of every
// fork-join function, whatever is started first does not have to finish for
// the rest to start: a part that is called synchronously is the last one its
// goroutine starts, and nothing blocks between the first and the last start.
// A range is divided whenever several batches and enough elements are there.

import "golang.org/x/tools/go/ssa"

// concurrent checks the events of one goroutine (of outcome o) and of the
// goroutines it starts; it reports whether the goroutine runs any part.
func (F *fjFn) concurrent(r *fjRun, o *Outcome, f *Facts, seen map[*Task]bool) bool {
	c, name := F.c, shortFn(r.fn)
	var sync *piece
	var waited *Event
	started := 0
	for _, e := range o.Events() {
		switch e.Kind {
		case "user", "rec":
			p, msg := F.pieceOf(e, f)
			if msg != "" || p == nil || f.Entails(le(p.hi, p.lo)) {
				continue
			}
			if sync != nil {
				c.fail("concurrent", name, e.Pos, "%v is started only after %v has finished: both run in the same goroutine", p.span, sync.span)
			} else if started > 0 && waited != nil {
				c.fail("concurrent", name, waited.Pos, "%v is started only after a %s that waits for another part", p.span, waited.Kind)
			}
			sync = p
			started++
		case "go":
			work := false
			for _, x := range e.Task.Outs {
				if F.concurrent(r, x, f.merge(x.St.facts), seen) {
					work = true
				}
			}
			if !work {
				continue
			}
			if sync != nil {
				c.fail("concurrent", name, e.Pos, "a goroutine with more work is started only after %v has finished", sync.span)
			} else if started > 0 && waited != nil {
				c.fail("concurrent", name, waited.Pos, "a goroutine with more work is started only after a %s that waits for another part", waited.Kind)
			}
			started++
		case "wgwait", "recv", "condwait", "join":
			if started > 0 {
				waited = e
			}
		case "select":
			if started > 0 && e.Block {
				waited = e
			}
		}
	}
	return started > 0
}

func ruleConcurrent(c *Ctx) {
	n := 0
	for _, sp := range fjSpecs {
		F := analyzeFJ(c, sp)
		if F == nil {
			continue
		}
		n++
		split := map[*ssa.Function]int{}
		F.each(func(r *fjRun, o *Outcome, f *Facts, ps []*piece) {
			if r.empty {
				return
			}
			name, pos := shortFn(r.fn), outPos(o, r)
			before := len(c.viols)
			F.concurrent(r, o, f, map[*Task]bool{})
			if len(c.viols) == before {
				c.ok("concurrent", name, "no part waits for another one before it starts")
			}
			var work []*piece
			for _, p := range ps {
				if !f.Entails(le(p.hi, p.lo)) {
					work = append(work, p)
				}
			}
			if len(work) > 1 {
				split[r.fn]++
			}
			if !sp.rng || len(work) != 1 || o.Kind != "ret" {
				return
			}
			p := work[0]
			if r.top {
				F.topDivides(r, f, p)
				return
			}
			if p.rec {
				return
			}
			nn := r.dom.n
			size := sub(r.dom.hi, r.dom.lo)
			ok := f.Entails(le(size, mkInt(1)))
			if !ok && nn != nil {
				g := f.add(le(mkInt(2), nn), true).add(le(nn, size), true)
				ok = f.Entails(le(nn, mkInt(1))) || !g.Feasible()
			}
			c.require(ok, "divided", name, pos, "%v is one single batch only if one batch is asked for or there are fewer elements than batches, given %v", p.span, f)
		})
		any := false
		for _, k := range split {
			any = any || k > 0
		}
		c.require(any, "divided", sp.name, F.root.Pos(), "the work of %s is divided among goroutines", sp.name)
	}
	c.floor("fork-join functions", n, 20)
}

// topDivides: what a range function hands on as a whole.
func (F *fjFn) topDivides(r *fjRun, f *Facts, p *piece) {
	c, name := F.c, shortFn(r.fn)
	args := ParamTerms(F.root)
	if len(args) < 3 || !isIntType(args[2].Typ) {
		return
	}
	n, size := args[2], sub(r.dom.hi, r.dom.lo)
	for _, asked := range []*Term{eqInt(n, mkInt(0)), le(mkInt(2), n)} {
		g := f.add(le(mkInt(2), size), true).add(asked, true)
		if !g.Feasible() {
			continue
		}
		if p.rec && p.n != nil {
			c.require(g.Entails(le(mkInt(2), p.n)) && g.Entails(le(p.n, size)), "divided", name, p.ev.Pos, "the range is handed on to be divided into at least two batches, and at most as many as it has elements: %v for %v elements", p.n, size)
		} else if !p.rec {
			c.fail("divided", name, p.ev.Pos, "the range is one single batch although %v, given %v", asked, f)
		}
	}
}

func init() {
	register("C39", "on every path no part waits for another one before it starts, and a range with several batches and enough elements is divided", ruleConcurrent)
}
