package main

// C37: the context a pipeline runs with, its cancel function, and the
// functions that are notified of the start.

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C37", "every path of Run: one context of its own, not cancelled before the run, cancelled after it, by return and by panic; the run stores exactly the context and cancel function it is given before anything else happens, nothing else stores them, and starts one goroutine for every notifier in one complete walk before any batch is prepared", ruleContext)
}

func ruleContext(c *Ctx) {
	c.ownContext()
	c.passContext()
	c.contextGetters()
	c.runContext()
	c.cancellers()
}

// isRunCall recognises the call of whatever runs the pipeline.
func isRunCall(e *Event) bool {
	if e.Kind != "user" || len(e.Args) != 2 || e.Recv == nil {
		return false
	}
	a := loadAddr(e.Recv)
	return a != nil && fieldName(a) == "runWithContext" && typeBase(deref(a.Args[0].Typ)) == "pipeline.pipelineState"
}

// ownContext checks that Run makes a context, runs with it, and cancels it.
func (c *Ctx) ownContext() {
	const name = "pipeline.Pipeline.Run"
	fn := c.mustFn(name)
	if fn == nil {
		return
	}
	an := c.analyze(fn, nil, nil, nil, Config{UserPanics: true})
	if an.Err != nil {
		c.undecided("own", name, fn.Pos(), an.Err)
		return
	}
	runs := 0
	for _, o := range an.Outs {
		pos := outPos2(o, fn)
		if !c.require(o.Kind == "ret" || o.Kind == "panic", "own", name, pos, "running ends") {
			continue
		}
		var run, cancelled *Event
		var cancel *Term
		n, early := 0, false
		for _, e := range o.Events() {
			switch {
			case e.Kind == "loop" || e.Kind == "go":
				for _, x := range flat([]*Event{e}) {
					if isRunCall(x) {
						n += 2
					}
				}
			case isRunCall(e):
				n++
				run, cancel = e, e.Args[1]
				// what was called before
				for _, x := range o.Events() {
					if x == e {
						break
					}
					for _, y := range deepFlat([]*Event{x}) {
						if y.Kind != "defer" && y.Kind != "st" && (y.Recv == cancel || has(y.Args, cancel)) {
							early = true
						}
					}
				}
			case run != nil && e.Kind == "user" && e.Recv == cancel:
				cancelled = e
			}
		}
		if !c.require(n == 1, "own", name, pos, "the pipeline is run exactly once (%d times)", n) {
			continue
		}
		runs++
		ctx := run.Args[0]
		own := ctx.Op == "ext" && cancel.Op == "ext" && strings.HasPrefix(ctx.Aux, "context.WithCancel@") && strings.HasSuffix(ctx.Aux, ".0") &&
			cancel.Aux == strings.TrimSuffix(ctx.Aux, ".0")+".1"
		if c.require(own, "own", name, run.Pos, "the pipeline runs with a new context and the cancel function of that context (%v, %v)", ctx, cancel) {
			parent := ctx.Args[0]
			c.require(parent.Op == "ext" && (strings.HasPrefix(parent.Aux, "context.Background@") || strings.HasPrefix(parent.Aux, "context.TODO@")), "own", name, run.Pos,
				"the context of the run depends on nothing that could cancel it (%v)", parent)
		}
		c.require(!early, "own", name, run.Pos, "the context is not cancelled before the run")
		c.require(cancelled != nil, "own", name, pos, "the context is cancelled when running ends (%s)", o.Kind)
	}
	c.floor("ends of Run", runs, 2)
}

func has(ts []*Term, t *Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

// passContext checks that RunWithContext runs with what it is given.
func (c *Ctx) passContext() {
	const name = "pipeline.Pipeline.RunWithContext"
	fn := c.mustFn(name)
	if fn == nil {
		return
	}
	an := c.analyze(fn, nil, nil, nil, Config{})
	if an.Err != nil {
		c.undecided("pass", name, fn.Pos(), an.Err)
		return
	}
	for _, o := range an.Outs {
		pos := outPos2(o, fn)
		if !c.require(o.Kind == "ret" && len(an.Args) == 3, "pass", name, pos, "running returns") {
			continue
		}
		n := 0
		for _, e := range flat(o.Events()) {
			switch {
			case isRunCall(e):
				n++
				c.require(e.Args[0] == an.Args[1] && e.Args[1] == an.Args[2], "pass", name, e.Pos, "the run gets the context and the cancel function of the caller (%v, %v)", e.Args[0], e.Args[1])
			case e.Kind == "user" && e.Recv == an.Args[2]:
				c.fail("pass", name, e.Pos, "the run is cancelled by RunWithContext itself")
			}
		}
		c.require(n == 1, "pass", name, pos, "the pipeline is run exactly once (%d times)", n)
	}
}

// contextGetters checks Context, Cancel and Notify.
func (c *Ctx) contextGetters() {
	one := func(name string, f func(an *Analysis, o *Outcome, pos token.Pos)) {
		fn := c.mustFn(name)
		if fn == nil {
			return
		}
		an := c.analyze(fn, nil, nil, nil, Config{})
		if an.Err != nil {
			c.undecided("getters", name, fn.Pos(), an.Err)
			return
		}
		for _, o := range an.Outs {
			pos := outPos2(o, fn)
			if c.require(o.Kind == "ret", "getters", name, pos, "it returns") {
				f(an, o, pos)
			}
		}
	}
	state := func(an *Analysis, field string) string { return Path(an.Args[0]) + ".pipelineState." + field }
	one("pipeline.Pipeline.Context", func(an *Analysis, o *Outcome, pos token.Pos) {
		c.require(len(o.Res) == 1 && Path(o.Res[0]) == state(an, "ctx") || isIdle(o, state(an, "ctx")), "getters", "pipeline.Pipeline.Context", pos, "the result is the context of the run (%v)", o.Res)
	})
	one("pipeline.Pipeline.Cancel", func(an *Analysis, o *Outcome, pos token.Pos) {
		n := 0
		for _, e := range flat(o.Events()) {
			if e.Kind == "user" && Path(e.Recv) == state(an, "cancel") {
				n++
			}
		}
		c.require(n >= 1 || isIdle(o, state(an, "cancel")), "getters", "pipeline.Pipeline.Cancel", pos, "the cancel function of the run is called")
	})
	one("pipeline.Pipeline.Notify", func(an *Analysis, o *Outcome, pos token.Pos) {
		n := 0
		place := state(an, "notifiers")
		for _, e := range flat(o.Events()) {
			if e.Kind != "st" || addrPath(e.Recv) != place {
				continue
			}
			n++
			v := e.Args[0]
			ok := v.Op == "append" && len(v.Args) == 2 && Path(v.Args[0]) == place && v.Args[1].Op == "list" && len(v.Args[1].Args) == 1 && v.Args[1].Args[0] == an.Args[1]
			c.require(ok, "getters", "pipeline.Pipeline.Notify", e.Pos, "exactly the function given is added to the notifiers (%v)", v)
		}
		for _, e := range flat(o.Events()) {
			if (e.Kind == "user" || e.Kind == "go") && e.Recv == an.Args[1] {
				c.fail("getters", "pipeline.Pipeline.Notify", e.Pos, "a notifier is called before the pipeline runs")
			}
		}
		c.require(n == 1, "getters", "pipeline.Pipeline.Notify", pos, "the function is remembered")
	})
}

// isIdle tells whether a place is known to be nil on a path.
func isIdle(o *Outcome, place string) bool {
	for _, x := range o.St.facts.all() {
		if x.cond != nil && x.cond.Op == "eq" && x.val {
			for i := range 2 {
				if Path(x.cond.Args[i]) == place && isNil(x.cond.Args[1-i]) {
					return true
				}
			}
		}
	}
	return false
}

// runContext checks what a run does before it prepares its source.
func (c *Ctx) runContext() {
	an, run := c.runAnalysis("start")
	if an == nil {
		return
	}
	name := shortFn(run)
	base := Path(an.Args[0])
	if len(an.Args) != 3 {
		c.fail("start", name, run.Pos(), "the run does not get a context and a cancel function")
		return
	}
	place := base + ".pipelineState.notifiers"
	begun := func(e *Event) bool {
		return isNode(e, "Begin") || isNode(e, "Feed") || isSource(e, "Prepare") || isSource(e, "Fetch")
	}
	starts := 0
	seen := map[token.Pos]bool{}
	for _, o := range an.Outs {
		pos := outPos2(o, run)
		evs := o.Events()
		started := hasEvent(evs, begun)
		if !failed(o) {
			var last, stop *Event
			for _, e := range evs {
				for _, x := range deepFlat([]*Event{e}) {
					switch {
					case begun(x) || isNode(x, "End"):
						last = stop
					case x.Kind == "user" && (x.Recv == an.Args[2] || Path(x.Recv) == base+".pipelineState.cancel"):
						stop = x
					}
				}
			}
			c.require(last == nil, "start", name, pos, "the run does not cancel itself")
		}
		if !started {
			c.require(failed(o), "start", name, pos, "a run starts unless the pipeline already has an error")
		}
		stored := map[string]bool{}
		notified, walks := false, 0
		order := true
		for _, e := range evs {
			inner := flat([]*Event{e})
			for _, x := range inner {
				if x.Kind == "st" {
					for i, f := range []string{"ctx", "cancel"} {
						if addrPath(x.Recv) == base+".pipelineState."+f {
							seen[x.Pos] = true
							c.require(x == e && x.Args[0] == an.Args[1+i] && !stored[f], "start", name, x.Pos, "the pipeline's %s is the one given, set once (%v)", f, x.Args[0])
							stored[f] = true
						}
					}
				}
				if x.Kind == "go" || begun(x) || x.Kind == "user" {
					if !stored["ctx"] || !stored["cancel"] {
						order = false
					}
				}
				if begun(x) && !notified && !c.noNotifiers(o, place) {
					order = false
				}
				if b := c.notifierOf(x, place); b != nil {
					if x.Kind == "user" {
						c.fail("notify", name, x.Pos, "a notifier is called by the run itself, not in its own goroutine")
					} else if e.Kind != "loop" {
						c.fail("notify", name, x.Pos, "a notifier is started outside of a walk over all of them")
					}
				}
			}
			if e.Kind == "loop" && hasEvent([]*Event{e}, func(x *Event) bool { return c.notifierOf(x, place) != nil }) {
				walks++
				notified = true
				c.notifyWalk(name, e, o, place)
			} else if e.Kind == "st" && strings.HasPrefix(addrPath(e.Recv), place) && addrPath(e.Recv) != place && !notified || e.Kind == "ext" && !notified && mentionsPath(e.Args, place) && e.Name != "slices.Clone" {
				c.fail("notify", name, e.Pos, "the notifiers are changed before they were started")
			}
		}
		c.require(walks <= 1, "notify", name, pos, "notifiers are started once (%d walks)", walks)
		c.unawaited(name, evs, place)
		if started {
			starts++
			c.require(stored["ctx"] && stored["cancel"] && order, "start", name, pos, "context, cancel function and notifiers are in place before the run prepares its source or calls anything")
		}
	}
	c.floor("paths of a run", starts, 8)
	// nobody else sets them
	n := 0
	for _, f := range c.P.allFuncs("pipeline") {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				a, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || typeBase(deref(a.X.Type())) != "pipeline.pipelineState" {
					continue
				}
				st := structOf(deref(a.X.Type()).Underlying())
				fld := st.Field(a.Field).Name()
				if fld != "ctx" && fld != "cancel" {
					continue
				}
				n++
				c.require(seen[s.Pos()], "start", shortFn(f), s.Pos(), "only the run sets the pipeline's %s", fld)
			}
		}
	}
	c.floor("places that set the context", n, 2)
}

func mentionsPath(ts []*Term, place string) bool {
	for _, t := range ts {
		if Path(t) == place {
			return true
		}
	}
	return false
}

// unawaited checks that the run does not wait for a notifier: nothing it waits
// on is signalled by a goroutine that calls one.
func (c *Ctx) unawaited(name string, evs []*Event, place string) {
	signals := map[*Term]bool{}
	for _, x := range deepFlat(evs) {
		if x.Kind != "go" || c.notifierOf(x, place) == nil {
			continue
		}
		for _, o := range x.Task.Outs {
			for _, y := range deepFlat(o.Events()) {
				switch y.Kind {
				case "close", "send", "wgdone", "signal", "bcast":
					signals[y.Recv] = true
				case "select":
					for _, k := range y.Cases {
						if k.Send {
							signals[k.Chan] = true
						}
					}
				}
			}
		}
	}
	if len(signals) == 0 {
		return
	}
	for _, x := range flat(evs) {
		wait := false
		switch x.Kind {
		case "recv", "wgwait", "condwait":
			wait = signals[x.Recv]
		case "select":
			for _, k := range x.Cases {
				wait = wait || x.Block && !k.Send && signals[k.Chan]
			}
		}
		if wait {
			c.fail("notify", name, x.Pos, "the run waits for its notifiers")
		}
	}
}

// noNotifiers tells whether there are no notifiers on a path.
func (c *Ctx) noNotifiers(o *Outcome, place string) bool {
	atoms := map[*Term]bool{}
	for _, x := range o.St.facts.all() {
		deepAtoms(x.cond, atoms)
	}
	for a := range atoms {
		if a.Op == "len" && Path(a.Args[0]) == place && o.St.facts.Entails(le(a, mkInt(0))) {
			return true
		}
	}
	return false
}

// notifierOf gives the notifier that an event calls or starts.
func (c *Ctx) notifierOf(e *Event, place string) *Term {
	is := func(t *Term) bool {
		if t == nil {
			return false
		}
		b, _ := elemOf(t)
		return b != nil && Path(b) == place
	}
	switch e.Kind {
	case "user":
		if is(e.Recv) {
			return e.Recv
		}
	case "go":
		if is(e.Recv) {
			return e.Recv
		}
		if e.Task == nil {
			return nil
		}
		var r *Term
		for _, o := range e.Task.Outs {
			for _, x := range flat(o.Events()) {
				if x.Kind == "user" && is(x.Recv) {
					r = x.Recv
				}
			}
		}
		return r
	}
	return nil
}

// notifyWalk checks the loop that starts the notifiers.
func (c *Ctx) notifyWalk(name string, e *Event, o *Outcome, place string) {
	cp := *e.Loop
	cp.Iters = nil
	var s *Term
	for _, it := range e.Loop.Iters {
		ni := *it
		ni.Events = nil
		n := 0
		var idx *Term
		var taken []*Term
		for _, x := range it.Events {
			t := c.notifierOf(x, place)
			if x.Kind == "st" && strings.HasPrefix(addrPath(x.Recv), place) {
				var i *Term
				if x.Recv.Op == "idxaddr" {
					i = x.Recv.Args[1]
				}
				taken = append(taken, i)
				continue
			}
			ni.Events = append(ni.Events, x)
			if t == nil {
				continue
			}
			n++
			b, i := elemOf(t)
			s, idx = b, i
			if x.Kind == "go" && x.Recv != t {
				// a goroutine that calls it
				for _, to := range x.Task.Outs {
					k := 0
					for _, y := range flat(to.Events()) {
						if y.Kind == "user" && y.Recv == t {
							k++
						}
					}
					c.require(k == 1, "notify", name, x.Pos, "a notifier is called once in its goroutine (%d times)", k)
				}
			}
			ni.Events = append(ni.Events, &Event{Kind: "notify", Recv: t, Pos: x.Pos})
		}
		for _, i := range taken {
			c.require(i != nil && i == idx, "notify", name, e.Pos, "a notifier is only taken out of the list when it is started (%v)", i)
		}
		c.require(n == 1, "notify", name, e.Pos, "every notifier is started exactly once (%d times in one step)", n)
		cp.Iters = append(cp.Iters, &ni)
	}
	if s == nil {
		c.fail("notify", name, e.Pos, "no notifier is started")
		return
	}
	_, _, err := c.walk(&cp, s, o.St.facts, func(x *Event) bool { return x.Kind == "notify" })
	c.require(err == nil, "notify", name, e.Pos, "all notifiers are started, each once: %v", err)
}

// cancellers checks that only what is meant to cancel a pipeline does.
func (c *Ctx) cancellers() {
	run := c.runFn("cancellers")
	seterr, cancel, start := c.mustFn("pipeline.Pipeline.SetErr"), c.mustFn("pipeline.Pipeline.Cancel"), c.mustFn("pipeline.Pipeline.Run")
	if run == nil || seterr == nil || cancel == nil || start == nil {
		return
	}
	filter := func(f *ssa.Function) bool {
		r := f.Signature.Results()
		for i := range r.Len() {
			if b := typeBase(r.At(i).Type()); b == "pipeline.Filter" || b == "pipeline.Receiver" || b == "pipeline.Finalizer" {
				return true
			}
		}
		return false
	}
	var meant func(f *ssa.Function, deep int) bool
	meant = func(f *ssa.Function, deep int) bool {
		for ; f.Parent() != nil; f = f.Parent() {
			if filter(f) {
				return true
			}
		}
		if f == run || f == seterr || f == cancel || f == start || filter(f) {
			return true
		}
		if f.Object() != nil && f.Object().Exported() || deep > 4 {
			return false
		}
		cs := c.callersOf(f)
		for _, g := range cs {
			if !meant(g, deep+1) {
				return false
			}
		}
		return len(cs) > 0
	}
	n := 0
	for _, f := range c.P.allFuncs("pipeline") {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				what := ""
				switch x := i.(type) {
				case *ssa.UnOp:
					if a, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && typeBase(deref(a.X.Type())) == "pipeline.pipelineState" {
						if structOf(deref(a.X.Type()).Underlying()).Field(a.Field).Name() == "cancel" {
							what = "uses the cancel function of the pipeline"
						}
					}
				case ssa.CallInstruction:
					if g := x.Common().StaticCallee(); g != nil {
						if g.Origin() != nil {
							g = g.Origin()
						}
						if g == seterr || g == cancel {
							what = "cancels the pipeline"
						}
					}
				case *ssa.MakeClosure:
					if g, ok := x.Fn.(*ssa.Function); ok && (g.Object() == seterr.Object() || g.Object() == cancel.Object()) {
						what = "takes what cancels the pipeline"
					}
				}
				if what != "" {
					n++
					c.require(meant(f, 0), "cancellers", shortFn(f), i.Pos(), "%s, which only the run (for an error of the source), SetErr, Cancel and filters may do", what)
				}
			}
		}
	}
	c.floor("places that cancel a pipeline", n, 4)
}
