package main

// C25, C27: the state of a pipeline and the run of its source.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- common

// runFn is the function that New installs for running a pipeline.
func (c *Ctx) runFn(rule string) *ssa.Function {
	name := "pipeline.New"
	fn := c.mustFn(name)
	if fn == nil {
		return nil
	}
	an := c.analyze(fn, nil, nil, nil, Config{})
	if an.Err != nil {
		c.undecided(rule, name, fn.Pos(), an.Err)
		return nil
	}
	var run *ssa.Function
	for _, o := range an.Outs {
		if o.Kind != "ret" || len(o.Res) != 1 {
			continue
		}
		var r *ssa.Function
		for _, e := range o.Events() {
			if e.Kind == "st" && fieldName(e.Recv) == "runWithContext" {
				if f := ssaFn(e.Args[0]); f != nil && (e.Args[0].Op == "closure" || e.Args[0].Op == "func") {
					r = f
					if strings.Contains(f.Synthetic, "bound") {
						if m, ok := f.Object().(*types.Func); ok {
							r = c.P.Prog.FuncValue(m.Origin())
						}
					}
				}
			}
		}
		if r == nil || run != nil && r != run || len(r.Params) != 3 {
			c.fail(rule, name, fn.Pos(), "the function that runs a new pipeline is not known")
			return nil
		}
		run = r
	}
	if run == nil {
		c.fail(rule, name, fn.Pos(), "the function that runs a new pipeline is not known")
	}
	return run
}

// isErrAddr recognises the address of a pipeline's error value.
func isErrAddr(a *Term) bool {
	return a != nil && a.Op == "fieldaddr" && fieldName(a) == "err" && typeBase(deref(a.Args[0].Typ)) == "pipeline.pipelineState"
}

func lockOf(e *Event) *Term {
	m := e.Recv
	for m != nil && m.Op == "mkiface" {
		m = m.Args[0]
	}
	return m
}

// nilness decides whether a term is known to be nil (1), not nil (-1).
func nilness(f *Facts, t *Term) int { return f.Decide(mkEq(t, mkNil(t.Typ))) }

// isSourceErr recognises asking the source for its error.
func isSourceErr(e *Event) bool {
	return e.Kind == "invoke" && e.Name == "Err" && typeBase(e.Recv.Typ) == "pipeline.Source"
}

func isSource(e *Event, m string) bool {
	return e.Kind == "invoke" && e.Name == m && e.Recv != nil && typeBase(e.Recv.Typ) == "pipeline.Source"
}

func isNode(e *Event, m string) bool {
	return e.Kind == "invoke" && e.Name == m && e.Recv != nil && typeBase(e.Recv.Typ) == "pipeline.Node"
}

func isDoneOf(ch *Term, owner string) bool {
	return ch != nil && ch.Op == "ctxdone" && (owner == "" || strings.HasPrefix(Path(ch.Args[0]), owner+"."))
}

// ---- C25

func ruleErrors(c *Ctx) {
	c.errDiscipline()
	c.setErr()
	c.errGet()
	c.runErrors()
}

// touchesErr reports that a function accesses the error value itself.
func touchesErr(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if fa, ok := i.(*ssa.FieldAddr); ok {
				t := deref(fa.X.Type())
				if typeBase(t) == "pipeline.pipelineState" && structOf(t).Field(fa.Field).Name() == "err" {
					return true
				}
			}
		}
	}
	return false
}

// errDiscipline checks every access to the error value: under the mutex of the
// same pipeline, and stored only where it was seen to be nil since the mutex
// was taken.
func (c *Ctx) errDiscipline() {
	todo := []*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	for _, f := range c.P.allFuncs("pipeline") {
		if touchesErr(f) {
			for f.Parent() != nil {
				f = f.Parent()
			}
			if !seen[f] {
				seen[f] = true
				todo = append(todo, f)
			}
		}
	}
	n := 0
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		an := c.analyze(f, nil, nil, nil, Config{})
		name := shortFn(f)
		if an.Err != nil {
			c.undecided("locked", name, f.Pos(), an.Err)
			continue
		}
		var bad []func()
		good := 0
		check := func(evs []*Event, f *Facts) {
			held := heldAt(evs)
			var cur *Term // the value seen since the mutex was taken
			for _, e := range evs {
				switch {
				case e.Kind == "lock" || e.Kind == "rlock":
					if fieldName(lockOf(e)) == "mutex" {
						cur = nil
						for _, l := range held[e][:len(held[e])-1] {
							if l.Name == e.Name {
								e := e
								bad = append(bad, func() {
									c.fail("locked", name, e.Pos, "the mutex is taken again while it is held: a deadlock")
								})
							}
						}
					}
				case e.Kind == "unlock" || e.Kind == "runlock":
					cur = nil
				case (e.Kind == "st" || e.Kind == "ld") && isErrAddr(e.Recv):
					if rootOf(e.Recv).Op == "alloc" {
						continue // not shared yet
					}
					ok := false
					for _, l := range held[e] {
						m := lockOf(l)
						if fieldName(m) == "mutex" && m.Op == "fieldaddr" && Path(m.Args[0]) == Path(e.Recv.Args[0]) && (l.Kind == "lock" || e.Kind == "ld") {
							ok = true
						}
					}
					if !ok {
						e := e
						bad = append(bad, func() {
							c.fail("locked", name, e.Pos, "the pipeline's error is accessed without holding its mutex")
						})
						continue
					}
					good++
					if e.Kind == "ld" {
						cur = e.Res
						continue
					}
					if cur == nil || nilness(f, cur) <= 0 {
						e := e
						bad = append(bad, func() {
							c.fail("sticky", name, e.Pos, "an error is stored although there may already be one")
						})
					}
				}
			}
		}
		for _, o := range an.Outs {
			check(o.Events(), o.St.facts)
			for _, e := range deepFlat(o.Events()) {
				if e.Loop != nil {
					for _, it := range e.Loop.Iters {
						check(it.Events, it.St.facts)
					}
				}
				if e.Task != nil {
					for _, to := range e.Task.Outs {
						check(to.Events(), to.St.facts)
					}
				}
			}
		}
		if len(bad) > 0 && f.Object() != nil && !f.Object().Exported() {
			// a helper that relies on its callers
			callers := c.callersOf(f)
			if callers != nil {
				for _, g := range callers {
					if !seen[g] {
						seen[g] = true
						todo = append(todo, g)
					}
				}
				continue
			}
		}
		for _, b := range bad {
			b()
		}
		if len(bad) == 0 {
			n++
			c.ok("locked", name, "%d accesses to the error value are made holding the mutex", good)
		}
	}
	c.floor("functions that access the error", n, 2)
}

// callersOf lists the top-level functions that call f, or nil if f is used in
// any other way than being called.
func (c *Ctx) callersOf(f *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for _, g := range c.P.allFuncs("pipeline") {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				var ops [16]*ssa.Value
				for _, op := range i.Operands(ops[:0]) {
					h, ok := (*op).(*ssa.Function)
					if !ok || h != f && h.Origin() != f {
						continue
					}
					ci, ok := i.(ssa.CallInstruction)
					if !ok || ci.Common().Value != *op {
						return nil
					}
					if _, isGo := i.(*ssa.Go); isGo {
						return nil
					}
					t := g
					for t.Parent() != nil {
						t = t.Parent()
					}
					r = append(r, t)
				}
			}
		}
	}
	return r
}

func (c *Ctx) setErr() {
	name := "pipeline.Pipeline.SetErr"
	fn := c.mustFn(name)
	if fn == nil {
		return
	}
	an := c.analyze(fn, nil, nil, nil, Config{})
	if an.Err != nil {
		c.undecided("set", name, fn.Pos(), an.Err)
		return
	}
	arg := an.Args[1]
	stored, refused := 0, 0
	for _, o := range an.Outs {
		pos := outPos2(o, fn)
		if !c.require(o.Kind == "ret", "set", name, pos, "SetErr returns") {
			continue
		}
		c.require(len(o.St.locks) == 0, "set", name, pos, "SetErr leaves no lock held")
		var st *Event
		ncancel := 0
		early := false
		evs := o.Events()
		var cancelFn *Term
		for _, e := range evs {
			switch {
			case e.Kind == "st" && isErrAddr(e.Recv):
				if st != nil {
					c.fail("set", name, e.Pos, "the error is stored twice")
				}
				st = e
			case isCancel(e):
				ncancel++
				early = early || st == nil
				cancelFn = e.Recv
			case e.Kind == "loop" || e.Kind == "go":
				c.fail("set", name, e.Pos, "undecided: SetErr loops or starts goroutines")
			}
		}
		f := o.St.facts
		ret := f.Decide(o.Res[0])
		// is the pipeline running?
		running := 0
		for _, e := range evs {
			if e.Kind == "ld" && fieldName(e.Recv) == "cancel" && rootOf(e.Recv).Op != "alloc" {
				running = -nilness(f, e.Res)
			}
		}
		if st != nil {
			stored++
			c.require(st.Args[0] == arg, "set", name, st.Pos, "the error that is stored is the argument")
			c.require(ret > 0, "set", name, pos, "SetErr returns true after storing the error")
			switch {
			case running > 0:
				c.require(ncancel > 0 && cancelFn != nil, "cancel", name, pos, "a running pipeline is cancelled when an error is stored")
				c.require(!early, "cancel", name, pos, "the pipeline is cancelled only after the error was stored")
			case running < 0:
				c.require(ncancel == 0, "cancel", name, pos, "a pipeline that is not running is not cancelled")
			default:
				c.fail("cancel", name, pos, "whether the pipeline is running is not looked at")
			}
		} else {
			refused++
			c.require(ret < 0, "set", name, pos, "SetErr returns false when it stores nothing")
			c.require(ncancel == 0, "cancel", name, pos, "the pipeline is not cancelled when nothing is stored")
			known := false
			for _, e := range evs {
				if e.Kind == "ld" && isErrAddr(e.Recv) && nilness(f, e.Res) < 0 {
					known = true
				}
			}
			c.require(known, "set", name, pos, "an error is refused only if there already is one")
		}
	}
	c.floor("paths that store an error", stored, 2)
	c.floor("paths that refuse an error", refused, 1)
}

func (c *Ctx) errGet() {
	name := "pipeline.Pipeline.Err"
	fn := c.mustFn(name)
	if fn == nil {
		return
	}
	an := c.analyze(fn, nil, nil, nil, Config{})
	if an.Err != nil {
		c.undecided("get", name, fn.Pos(), an.Err)
		return
	}
	for _, o := range an.Outs {
		pos := outPos2(o, fn)
		if !c.require(o.Kind == "ret", "get", name, pos, "Err returns") {
			continue
		}
		ok := false
		for _, e := range o.Events() {
			if e.Kind == "ld" && isErrAddr(e.Recv) && e.Res == o.Res[0] {
				ok = true
			}
			if isWrite(e) && rootOf(e.Recv).Op != "alloc" || isCancel(e) {
				c.fail("get", name, e.Pos, "Err changes the pipeline")
			}
		}
		c.require(ok, "get", name, pos, "Err returns the stored error")
		c.require(len(o.St.locks) == 0, "get", name, pos, "Err leaves no lock held")
	}
	// Cancel
	name = "pipeline.Pipeline.Cancel"
	fn = c.mustFn(name)
	if fn == nil {
		return
	}
	an = c.analyze(fn, nil, nil, nil, Config{})
	if an.Err != nil {
		c.undecided("cancel", name, fn.Pos(), an.Err)
		return
	}
	for _, o := range an.Outs {
		n := 0
		nilCancel := false
		for _, e := range o.Events() {
			if isCancel(e) {
				n++
			}
			if e.Kind == "ld" && fieldName(e.Recv) == "cancel" && nilness(o.St.facts, e.Res) > 0 {
				nilCancel = true
			}
		}
		c.require(n > 0 || nilCancel, "cancel", name, outPos2(o, fn), "Cancel calls the cancel function")
	}
}

// runErrors checks that what the source reports becomes the pipeline's error.
func (c *Ctx) runErrors() {
	run := c.runFn("source")
	if run == nil {
		return
	}
	name := shortFn(run)
	an := c.analyze(run, nil, nil, nil, pipeCfg)
	if an.Err != nil {
		c.undecided("source", name, run.Pos(), an.Err)
		return
	}
	p, ctx, cancel := an.Args[0], an.Args[1], an.Args[2]
	checks := 0
	seenLoop := map[*Loop]bool{}
	// one walks a stretch of a path; unchecked says whether the source may
	// have an error nobody asked for.
	var one func(evs []*Event, f *Facts, unchecked bool) (bool, *Event, bool)
	one = func(evs []*Event, f *Facts, unchecked bool) (bool, *Event, bool) {
		var pending *Event // an error that must be reported
		already := false   // the pipeline is known to have an error
		var cur *Term
		held := heldAt(evs)
		for _, e := range evs {
			switch {
			case isSource(e, "Fetch") || isSource(e, "Prepare"):
				if pending != nil {
					c.fail("source", name, e.Pos, "the source is used again before its error is reported")
				}
				if unchecked && isSource(e, "Fetch") && e != evs[0] {
					// allowed right after Prepare only
					for _, x := range evs {
						if x == e {
							break
						}
						if isSource(x, "Fetch") {
							c.fail("source", name, e.Pos, "the source is asked for the next batch although its error after the previous one was not looked at")
							break
						}
					}
				}
				unchecked = true
			case isSourceErr(e):
				checks++
				unchecked = false
				switch nilness(f, e.Res) {
				case -1:
					pending = e
				case 0:
					c.fail("source", name, e.Pos, "the source's error is not looked at")
				}
			case e.Kind == "perr":
				if nilness(f, e.Res) < 0 {
					already = true
				}
			case e.Kind == "seterr":
				if nilness(f, e.Args[0]) >= 0 && (pending == nil || e.Args[0] != pending.Res) {
					c.fail("source", name, e.Pos, "an error is set that the source did not report")
				}
				if pending != nil && e.Args[0] == pending.Res && e.Recv == p {
					pending = nil
				}
				already = true
			case e.Kind == "lock" || e.Kind == "unlock" || e.Kind == "rlock" || e.Kind == "runlock":
				cur = nil
			case e.Kind == "ld" && isErrAddr(e.Recv) && len(held[e]) > 0:
				cur = e.Res
				if nilness(f, cur) < 0 {
					already = true
					pending = nil
				}
			case e.Kind == "st" && isErrAddr(e.Recv):
				if pending != nil && e.Args[0] == pending.Res {
					pending = nil
				} else {
					c.fail("source", name, e.Pos, "an error is stored that the source did not report")
				}
				already = true
			case e.Kind == "loop" && !seenLoop[e.Loop]:
				seenLoop[e.Loop] = true
				rel := false
				for _, x := range flat([]*Event{e}) {
					if isSource(x, "Fetch") || isSourceErr(x) || x.Kind == "seterr" {
						rel = true
					}
				}
				if !rel {
					continue
				}
				if pending != nil {
					c.fail("source", name, pending.Pos, "an error of the source is not reported before the run goes on")
				}
				for _, it := range e.Loop.Iters {
					u, pe, al := one(it.Events, it.St.facts, false)
					if al {
						c.fail("source", name, e.Pos, "the run goes on although the pipeline has an error")
					}
					if pe != nil {
						c.fail("source", name, pe.Pos, "an error of the source is not reported before the run goes on")
					}
					if u {
						c.fail("source", name, e.Pos, "the source is asked for the next batch although its error after the previous one was not looked at")
					}
				}
			}
		}
		return unchecked, pending, already
	}
	for _, o := range an.Outs {
		pos := outPos2(o, run)
		if !c.require(o.Kind == "ret", "source", name, pos, "the run returns") {
			continue
		}
		evs := o.Events()
		if len(o.St.locks) > 0 {
			c.fail("source", name, pos, "a lock is held when the run is over")
		}
		started := false
		for _, e := range evs {
			if isSource(e, "Prepare") || isSource(e, "Fetch") {
				started = true
			}
		}
		u, pending, already := one(evs, o.St.facts, false)
		if pending != nil {
			c.fail("source", name, pending.Pos, "an error of the source is not stored in the pipeline")
		} else if started && u && !already {
			c.fail("source", name, pos, "the source's error is not looked at after its last batch")
		} else {
			c.ok("source", name, "the source's last error is known to the pipeline when the run is over, or there was one before")
		}
		// errors raised while running must be able to cancel it
		var haveCtx, haveCancel bool
		for _, e := range evs {
			switch {
			case e.Kind == "st" && fieldName(e.Recv) == "cancel" && Path(e.Recv.Args[0]) == Path(p)+".pipelineState":
				haveCancel = e.Args[0] == cancel
			case e.Kind == "st" && fieldName(e.Recv) == "ctx" && Path(e.Recv.Args[0]) == Path(p)+".pipelineState":
				haveCtx = e.Args[0] == ctx
			case e.Kind == "go" || e.Kind == "invoke" || e.Kind == "user":
				if !haveCancel || !haveCtx {
					c.fail("running", name, e.Pos, "other code runs before the run's context and cancel function are known to the pipeline")
				}
			case e.Kind == "loop":
				for _, x := range flat([]*Event{e}) {
					if (x.Kind == "go" || x.Kind == "invoke" || x.Kind == "user") && (!haveCancel || !haveCtx) {
						c.fail("running", name, x.Pos, "other code runs before the run's context and cancel function are known to the pipeline")
					}
				}
			}
		}
		// a pipeline that has an error is not run
		if len(evs) > 0 && !started {
			ok := false
			for _, e := range evs {
				if e.Kind == "perr" && nilness(o.St.facts, e.Res) < 0 {
					ok = true
				}
			}
			c.require(ok, "running", name, pos, "a run does nothing only if the pipeline already has an error")
		} else if started {
			ok := false
			for _, e := range evs {
				if isSource(e, "Prepare") || isSource(e, "Fetch") || isNode(e, "Begin") {
					break
				}
				if e.Kind == "perr" && nilness(o.St.facts, e.Res) > 0 {
					ok = true
				}
			}
			c.require(ok, "running", name, pos, "a pipeline that already has an error is not run")
		}
	}
	c.floor("questions for the source's error", checks, 3)
}

func init() {
	register("C25", "the error value is only accessed under its mutex and stored only where it was just seen to be nil; SetErr stores its argument, then cancels a running pipeline, and says so; every path of a run asks the source for its error after each fetch and reports what it gets", ruleErrors,
		"context.CancelFunc may be called several times and from any goroutine")
}
