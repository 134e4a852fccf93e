package main

// Common parts of the rules about package pipeline.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const pipePkg = modulePath + "/pipeline."

// pipeContract replaces Pipeline.SetErr and Pipeline.Cancel, whose own
// behaviour is decided by C25, by events.
func pipeContract(in *Interp, ci *CallInfo, st *State) ([]*Outcome, bool) {
	if ci.Kind != "static" || !strings.HasPrefix(ci.Name, "(*"+pipePkg+"Pipeline[") {
		return nil, false
	}
	fr := &frame{fn: ci.Caller}
	switch ci.Name[strings.LastIndexByte(ci.Name, '.')+1:] {
	case "SetErr":
		ev := in.event(fr, st, &Event{Kind: "seterr", Pos: sitePos(ci.Site), Recv: ci.Args[0], Args: ci.Args[1:]})
		t := mk("res", fmt.Sprintf("%d.0", ev.ID), tyBool, ev)
		ev.Res = t
		return []*Outcome{{Kind: "ret", St: st, Res: []*Term{t}}}, true
	case "Err":
		ev := in.event(fr, st, &Event{Kind: "perr", Pos: sitePos(ci.Site), Recv: ci.Args[0]})
		ev.Res = mk("res", fmt.Sprintf("%d.0", ev.ID), ci.Sig.Results().At(0).Type(), ev)
		return []*Outcome{{Kind: "ret", St: st, Res: []*Term{ev.Res}}}, true
	case "Cancel":
		in.event(fr, st, &Event{Kind: "cancel", Pos: sitePos(ci.Site), Recv: ci.Args[0]})
		return []*Outcome{{Kind: "ret", St: st}}, true
	}
	return nil, false
}

// constOf looks an integer constant of package pipeline up.
func (c *Ctx) constOf(pkg, name string) *Term {
	sp := c.P.SSA[pkg]
	if sp == nil {
		return nil
	}
	k, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return nil
	}
	n, ok := constant.Int64Val(k.Val())
	if !ok {
		return nil
	}
	return mkInt(n)
}

// rep is a closure analysed for a call at an arbitrary point of its life: the
// memory its calls change holds arbitrary values.
type rep struct {
	fn    *ssa.Function
	args  []*Term
	start *State
	outs  []*Outcome
	cells []*Term
	sym   map[*Term]*Term
	init  map[*Term]*Term
	facts *Facts
}

// local reports memory that the closure allocates itself.
func (r *rep) local(a *Term) bool {
	b := rootOf(a)
	return b.Op == "alloc" && !r.start.allocs[b]
}

func isWrite(e *Event) bool {
	return e.Kind == "st" || e.Kind == "atomic" && !strings.HasPrefix(e.Name, "Load")
}

func (c *Ctx) repeated(cl *Term, st *State, cfg Config) (*rep, error) {
	fn := ssaFn(cl)
	if fn == nil || cl.Op != "closure" && cl.Op != "func" {
		return nil, fmt.Errorf("%v is not a function whose code is known", cl)
	}
	r := &rep{fn: fn, args: ParamTerms(fn), sym: map[*Term]*Term{}, init: map[*Term]*Term{}}
	r.start = st.clone()
	r.start.ev, r.start.locks, r.start.tasks = nil, nil, nil
	r.facts = st.facts
	for pass := 0; pass < 10; pass++ {
		if err := c.rerun(r, cl, r.facts, cfg); err != nil {
			return nil, err
		}
		ch := false
		for _, o := range r.outs {
			for _, e := range flat(o.Events()) {
				if !isWrite(e) || r.local(e.Recv) || r.sym[e.Recv] != nil {
					continue
				}
				t := deref(e.Recv.Typ)
				init, ok := r.start.mem[e.Recv]
				if !ok {
					init = r.start.loadTerm(e.Recv, t)
				}
				r.init[e.Recv] = init
				r.sym[e.Recv] = freshSym("held."+addrPath(e.Recv), t)
				r.cells = append(r.cells, e.Recv)
				r.start.mem[e.Recv] = r.sym[e.Recv]
				ch = true
			}
		}
		if !ch {
			return r, nil
		}
	}
	return nil, fmt.Errorf("what %s changes does not stabilise", fn)
}

// rerun analyses the closure again with other facts at its start.
func (c *Ctx) rerun(r *rep, cl *Term, f *Facts, cfg Config) error {
	s := r.start.clone()
	s.facts = f
	an := c.analyze(r.fn, r.args, closureBinds(cl), s, cfg)
	r.outs = an.Outs
	return an.Err
}

// flat lists events including those of one iteration of each loop.
func flat(evs []*Event) []*Event {
	var r []*Event
	for _, e := range evs {
		r = append(r, e)
		if e.Kind == "loop" {
			for _, it := range e.Loop.Iters {
				r = append(r, flat(it.Events)...)
			}
		}
	}
	return r
}

// deepFlat also lists what started goroutines do.
func deepFlat(evs []*Event) []*Event {
	var r []*Event
	for _, e := range flat(evs) {
		r = append(r, e)
		if e.Task != nil && (e.Kind == "go" || e.Kind == "parrange") {
			for _, o := range e.Task.Outs {
				r = append(r, deepFlat(o.Events())...)
			}
		}
	}
	return r
}

// held lists the mutexes held at each event of a path (the terms they were
// locked through).
func heldAt(evs []*Event) map[*Event][]*Event {
	m := map[*Event][]*Event{}
	var cur []*Event
	for _, e := range evs {
		switch e.Kind {
		case "lock", "rlock":
			cur = append(append([]*Event{}, cur...), e)
		case "unlock", "runlock":
			for i := len(cur) - 1; i >= 0; i-- {
				if cur[i].Name == e.Name {
					cur = append(append([]*Event{}, cur[:i]...), cur[i+1:]...)
					break
				}
			}
		}
		m[e] = cur
	}
	return m
}

// lockedShared reports that a write lock is held that all calls share.
func (r *rep) lockedShared(held []*Event) bool {
	for _, l := range held {
		m := l.Recv
		if m.Op == "mkiface" {
			m = m.Args[0]
		}
		if l.Kind == "lock" && !r.local(m) {
			return true
		}
	}
	return false
}

// filt is one way a filter may set itself up.
type filt struct {
	o         *Outcome
	fn        *ssa.Function
	ctorSt    *State
	p, kind   *Term
	size      *Term // address of the size
	size0     *Term // size on entry
	recv, fin *Term
	par       bool // for parallel nodes
	seq       bool // for other nodes
}

var pipeCfg = Config{Contract: pipeContract}

// filters analyses a filter from the state of the constructor that made it.
func (c *Ctx) filters(rule, name string, cl *Term, st *State) []*filt {
	fn := ssaFn(cl)
	if fn == nil || cl.Op != "closure" && cl.Op != "func" {
		c.fail(rule, name, 0, "the filter %v is not a function whose code is known", cl)
		return nil
	}
	args := ParamTerms(fn)
	if len(args) != 3 {
		c.fail(rule, name, fn.Pos(), "%s is not a filter", fn)
		return nil
	}
	s := st.clone()
	s.ev = nil
	size0 := s.load(args[2], tyInt)
	an := c.analyze(fn, args, closureBinds(cl), s, pipeCfg)
	if an.Err != nil {
		c.undecided(rule, name, fn.Pos(), an.Err)
		return nil
	}
	par := c.constOf("pipeline", "Parallel")
	var r []*filt
	for _, o := range an.Outs {
		if o.Kind != "ret" || len(o.Res) != 2 {
			c.fail(rule, name, outPos2(o, fn), "setting the filter up does not return (%s)", o.Kind)
			continue
		}
		f := &filt{o: o, fn: fn, ctorSt: st, p: args[0], kind: args[1], size: args[2], size0: size0, recv: o.Res[0], fin: o.Res[1]}
		isPar := eqInt(f.kind, par)
		f.par = o.St.facts.Decide(isPar) >= 0
		f.seq = o.St.facts.Decide(isPar) <= 0
		r = append(r, f)
	}
	return r
}

func isNilFn(t *Term) bool { return t.Op == "nil" || t.Op == "zero" }

// construct analyses a constructor and returns its outcomes.
func (c *Ctx) construct(rule, name string) (*ssa.Function, []*Term, []*Outcome) {
	fn := c.mustFn(name)
	if fn == nil {
		return nil, nil, nil
	}
	args := ParamTerms(fn)
	an := c.analyze(fn, args, nil, nil, pipeCfg)
	if an.Err != nil {
		c.undecided(rule, name, fn.Pos(), an.Err)
		return fn, args, nil
	}
	var r []*Outcome
	for _, o := range an.Outs {
		if o.Kind != "ret" || len(o.Res) == 0 {
			c.fail(rule, name, outPos2(o, fn), "a path does not return (%s)", o.Kind)
			continue
		}
		r = append(r, o)
	}
	return fn, args, r
}

// isCancel recognises cancelling the pipeline p.
func isCancel(e *Event) bool {
	if e.Kind == "cancel" {
		return true
	}
	return e.Kind == "user" && e.Recv != nil && loadAddr(e.Recv) != nil && fieldName(loadAddr(e.Recv)) == "cancel"
}
