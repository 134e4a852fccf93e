package main

// Fork-join functions of packages parallel and speculative: every path of
// every function is decomposed into the pieces of work it starts (calls of
// the supplied functions, and recursive calls on a part of the work, for
// which the contract being established is assumed), and the pieces, their
// results, panics and termination are checked against the contract.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fjSpec struct {
	name string
	kind string // do and or reduce sum product
	pkg  string
	rng  bool
	spec bool
}

var fjSpecs = []fjSpec{
	{"parallel.Do", "do", "parallel", false, false},
	{"parallel.And", "and", "parallel", false, false},
	{"parallel.Or", "or", "parallel", false, false},
	{"parallel.Reduce", "reduce", "parallel", false, false},
	{"parallel.ReduceSum", "sum", "parallel", false, false},
	{"parallel.ReduceProduct", "product", "parallel", false, false},
	{"parallel.Range", "do", "parallel", true, false},
	{"parallel.RangeAnd", "and", "parallel", true, false},
	{"parallel.RangeOr", "or", "parallel", true, false},
	{"parallel.RangeReduce", "reduce", "parallel", true, false},
	{"parallel.RangeReduceSum", "sum", "parallel", true, false},
	{"parallel.RangeReduceProduct", "product", "parallel", true, false},
	{"speculative.Do", "or", "speculative", false, true},
	{"speculative.And", "and", "speculative", false, true},
	{"speculative.Or", "or", "speculative", false, true},
	{"speculative.Reduce", "sreduce", "speculative", false, true},
	{"speculative.Range", "or", "speculative", true, true},
	{"speculative.RangeAnd", "and", "speculative", true, true},
	{"speculative.RangeOr", "or", "speculative", true, true},
	{"speculative.RangeReduce", "sreduce", "speculative", true, true},
}

func isWorkSig(t types.Type, rng bool) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Signature)
	if !ok {
		return false
	}
	if !rng {
		return s.Params().Len() == 0
	}
	return s.Params().Len() == 2 && isIntType(s.Params().At(0).Type()) && isIntType(s.Params().At(1).Type())
}

func isWorkSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && isWorkSig(s.Elem(), false)
}

type span struct{ lo, hi *Term }

func (s span) String() string { return "[" + s.lo.String() + "," + s.hi.String() + ")" }

type piece struct {
	span
	ev      *Event
	n       *Term // batch budget handed on, nil if none
	rec     bool
	task    *Task
	joined  bool
	pv      *Term // panic value if this piece panicked on this path
	mainIdx int
}

// fjDom says which part of the work a function is responsible for.
type fjDom struct {
	span
	n   *Term
	fn  *ssa.Function
	how string
	ia  int // int parameters for helpers that take (lo,hi) or (index,size)
	ib  int
	siz bool
	in  int
	pre *Facts
}

// workSpan gives the positions denoted by a function value or by a slice of
// functions: position k is element k of the work slice; a single leading
// function is position -1.
func workSpan(t *Term) (span, bool) {
	switch {
	case t.Op == "param" && isWorkSlice(t.Typ):
		return span{mkInt(0), mkLen(t)}, true
	case t.Op == "slice" && t.Args[0].Op == "param" && isWorkSlice(t.Args[0].Typ):
		return span{t.Args[1], t.Args[2]}, true
	case t.Op == "param" && isWorkSig(t.Typ, false):
		return span{mkInt(-1), mkInt(0)}, true
	case t.Op == "load" && t.Args[0].Op == "idxaddr":
		a := t.Args[0]
		if b := a.Args[0]; b.Op == "param" && isWorkSlice(b.Typ) {
			return span{a.Args[1], addK(a.Args[1], 1)}, true
		}
	case t.Op == "nil":
		return span{mkInt(0), mkInt(0)}, false
	}
	return span{}, false
}

// spanOfArgs combines the positions passed to a call.
func spanOfArgs(f *Facts, args []*Term, sig *types.Signature, off int, list func(*Term) *Term) (span, bool, string) {
	var cur *span
	found := false
	for i, a := range args {
		var pt types.Type
		if i-off >= 0 && i-off < sig.Params().Len() {
			pt = sig.Params().At(i - off).Type()
		}
		if !isWorkSig(pt, false) && !isWorkSlice(pt) {
			continue
		}
		found = true
		if a.Op == "nil" {
			continue
		}
		var ss []span
		if l := list(a); l != nil && l.Op == "list" {
			for _, e := range l.Args {
				s, ok := workSpan(e)
				if !ok {
					return span{}, false, "passes a function that is not part of its own work: " + e.String()
				}
				ss = append(ss, s)
			}
		} else {
			for _, x := range concatenated(a) {
				s, ok := workSpan(x)
				if !ok {
					return span{}, false, "passes something that is not part of its own work: " + a.String()
				}
				ss = append(ss, s)
			}
		}
		for _, s := range ss {
			if cur == nil {
				x := s
				cur = &x
				continue
			}
			if !f.Entails(eqInt(cur.hi, s.lo)) {
				return span{}, false, fmt.Sprintf("passes non-adjacent work %v and %v", *cur, s)
			}
			cur.hi = s.hi
		}
	}
	if !found {
		return span{}, false, "no work arguments"
	}
	if cur == nil {
		return span{mkInt(0), mkInt(0)}, true, ""
	}
	return *cur, true, ""
}

// concatenated gives the parts of a list that is put together with append.
func concatenated(t *Term) []*Term {
	switch {
	case t.Op == "append" && len(t.Args) == 2:
		return append(concatenated(t.Args[0]), concatenated(t.Args[1])...)
	case t.Op == "list":
		return t.Args
	case t.Op == "makeslice" && t.Args[0] == mkInt(0):
		return nil
	}
	return []*Term{t}
}

// nonEmpty tells whether all calls of a helper pass at least one function.
func (F *fjFn) nonEmpty(h *ssa.Function, outs []*Outcome) bool {
	for _, o := range outs {
		for _, e := range o.Events() {
			if e.Kind == "go" && e.Task != nil && !F.nonEmpty(h, e.Task.Outs) {
				return false
			}
			if e.Kind != "rec" || e.Callee != h {
				continue
			}
			p, _ := F.pieceOf(e, o.St.facts)
			if p == nil || !o.St.facts.Entails(lt(p.lo, p.hi)) {
				return false
			}
		}
	}
	return true
}

type fjFn struct {
	c     *Ctx
	spec  fjSpec
	root  *ssa.Function
	doms  map[*ssa.Function]*fjDom
	runs  []*fjRun
	errs  []string
	joins map[*Event]bool
}

type fjRun struct {
	dom   *fjDom
	fn    *ssa.Function
	outs  []*Outcome
	empty bool // the run covers the empty range
	top   bool
	an    *Analysis
	binds []*Term
	sibs  []*fjRun
}

// analyzeFJ analyses a fork-join function and the recursive helpers it uses.
// cand selects the interpretation of an integer helper's parameters.
func analyzeFJ(c *Ctx, sp fjSpec) *fjFn {
	fn := c.mustFn(sp.name)
	if fn == nil {
		return nil
	}
	F := &fjFn{c: c, spec: sp, root: fn, doms: map[*ssa.Function]*fjDom{}}
	top := c.analyze(fn, nil, nil, nil, Config{UserPanics: true})
	if top.Err != nil {
		c.undecided("analysis", sp.name, fn.Pos(), top.Err)
		return nil
	}
	d := &fjDom{fn: fn, how: "own arguments", ia: -1, ib: -1, in: -1}
	args := ParamTerms(fn)
	if sp.rng {
		d.lo, d.hi = args[0], args[1]
		d.n = nil
		d.ia, d.ib = 0, 1
		if len(args) > 2 && isIntType(args[2].Typ) {
			d.in = 2
		}
	} else {
		s, ok, msg := spanOfArgs(nil, args, fn.Signature, 0, func(t *Term) *Term { return nil })
		if !ok {
			c.fail("analysis", sp.name, fn.Pos(), "work arguments not recognised: %s", msg)
			return nil
		}
		d.span = s
	}
	F.doms[fn] = d
	F.runs = append(F.runs, &fjRun{dom: d, fn: fn, outs: top.Outs, top: true, an: top})
	// helpers
	helpers := map[*ssa.Function]*Event{}
	var order []*ssa.Function
	collect := func(outs []*Outcome) {
		var ev func(es []*Event)
		ev = func(es []*Event) {
			for _, e := range es {
				if e.Kind == "rec" && F.doms[e.Callee] == nil && helpers[e.Callee] == nil {
					helpers[e.Callee] = e
					order = append(order, e.Callee)
				}
				if e.Task != nil {
					for _, o := range e.Task.Outs {
						ev(o.Events())
					}
				}
			}
		}
		for _, o := range outs {
			ev(o.Events())
		}
	}
	collect(top.Outs)
	for i := 0; i < len(order); i++ {
		h := order[i]
		e := helpers[h]
		var binds []*Term
		if e.Recv != nil && e.Recv.Op == "closure" {
			binds = e.Recv.Args
		}
		if !F.helper(h, binds, e) {
			return nil
		}
		for _, r := range F.runs {
			collect(r.outs)
		}
	}
	return F
}

func (F *fjFn) helper(h *ssa.Function, binds []*Term, e *Event) bool {
	c := F.c
	st := newState()
	if e.St != nil {
		s := e.St.clone()
		s.facts = nil
		s.ev = nil
		s.tasks = nil
		s.locks = nil
		s.ghost = map[string]*Term{}
		st = s
	}
	args := ParamTerms(h)
	off := len(h.Params) - h.Signature.Params().Len()
	work := false
	for i, p := range h.Params {
		_ = i
		if isWorkSlice(p.Type()) {
			work = true
		}
	}
	if work {
		an := c.analyze(h, args, binds, st, Config{UserPanics: true})
		if an.Err != nil {
			c.undecided("analysis", shortFn(h), h.Pos(), an.Err)
			return false
		}
		s, ok, msg := spanOfArgs(nil, args, h.Signature, off, func(t *Term) *Term { return nil })
		if !ok {
			c.fail("analysis", shortFn(h), h.Pos(), "work arguments not recognised: %s", msg)
			return false
		}
		d := &fjDom{fn: h, span: s, how: "slice arguments", ia: -1, ib: -1, in: -1}
		F.doms[h] = d
		some := true
		for _, r := range F.runs {
			some = some && F.nonEmpty(h, r.outs)
		}
		if some && !F.nonEmpty(h, an.Outs) {
			// perhaps it relies on getting at least one function, and takes
			// care of that itself
			s := st.clone()
			s.facts = s.facts.add(lt(d.lo, d.hi), true)
			if an2 := c.analyze(h, args, binds, s, Config{UserPanics: true}); an2.Err == nil && F.nonEmpty(h, an2.Outs) {
				an = an2
			}
		}
		F.runs = append(F.runs, &fjRun{dom: d, fn: h, outs: an.Outs, an: an, binds: binds})
		return true
	}
	// integer helper: find the reading of its parameters as an interval under
	// which the pieces tile
	var ints []int
	for i, p := range h.Params {
		if isIntType(p.Type()) {
			ints = append(ints, i)
		}
	}
	var fallback []*fjRun
	var fbDom *fjDom
	for _, siz := range []bool{false, true} {
		for _, i := range ints {
			for _, j := range ints {
				if i == j {
					continue
				}
				ns := []int{-1}
				if F.spec.rng {
					ns = nil
					for _, k := range ints {
						if k != i && k != j {
							ns = append(ns, k)
						}
					}
					ns = append(ns, -1)
				}
				for _, k := range ns {
					d := &fjDom{fn: h, ia: i, ib: j, siz: siz, in: k, how: "integer arguments"}
					d.lo = args[i]
					d.hi = args[j]
					if siz {
						d.hi = add(args[i], args[j])
					}
					if k >= 0 {
						d.n = args[k]
					}
					if !F.callsMatch(h, d) {
						continue
					}
					var runs []*fjRun
					good := true
					for _, empty := range []bool{false, true} {
						s := st.clone()
						if empty {
							s.facts = s.facts.add(eqInt(d.lo, d.hi), true)
							if d.n != nil {
								s.facts = s.facts.add(eqInt(d.n, mkInt(1)), true)
							}
						} else {
							s.facts = s.facts.add(lt(d.lo, d.hi), true)
							if d.n != nil {
								s.facts = s.facts.add(le(mkInt(1), d.n), true)
							}
						}
						an := c.analyze(h, args, binds, s, Config{UserPanics: true})
						if an.Err != nil {
							c.undecided("analysis", shortFn(h), h.Pos(), an.Err)
							return false
						}
						r := &fjRun{dom: d, fn: h, outs: an.Outs, empty: empty, an: an, binds: binds}
						runs = append(runs, r)
					}
					F.doms[h] = d
					if fbDom == nil {
						fallback, fbDom = runs, d
					}
					for _, r := range runs {
						for _, o := range r.outs {
							if msg := F.tile(r, o); msg != "" {
								good = false
							}
						}
					}
					if good {
						F.runs = append(F.runs, runs...)
						return true
					}
					delete(F.doms, h)
				}
			}
		}
	}
	if fbDom != nil {
		F.doms[h] = fbDom
		F.runs = append(F.runs, fallback...)
		return true
	}
	c.fail("tiling", F.spec.name, h.Pos(), "no reading of the parameters of %s as a part of the range covers what the caller asks for", shortFn(h))
	return false
}

// callsMatch: do the calls of h already seen denote exactly the caller's
// domain under reading d, when they are the only piece of the path?
func (F *fjFn) callsMatch(h *ssa.Function, d *fjDom) bool {
	for _, r := range F.runs {
		for _, o := range r.outs {
			evs := o.Events()
			n := 0
			var last *Event
			for _, e := range evs {
				if e.Kind == "rec" || e.Kind == "user" || e.Kind == "go" {
					n++
					last = e
				}
			}
			if n == 1 && last.Kind == "rec" && last.Callee == h {
				s := d.spanOf(last)
				if !o.St.facts.Entails(eqInt(s.lo, r.dom.lo)) || !o.St.facts.Entails(eqInt(s.hi, r.dom.hi)) {
					return false
				}
			}
		}
	}
	return true
}

func (d *fjDom) spanOf(e *Event) span {
	if d.siz {
		return span{e.Args[d.ia], add(e.Args[d.ia], e.Args[d.ib])}
	}
	return span{e.Args[d.ia], e.Args[d.ib]}
}

// pieceOf classifies a call event.
func (F *fjFn) pieceOf(e *Event, f *Facts) (*piece, string) {
	switch e.Kind {
	case "user":
		if F.spec.rng {
			if e.Recv.Op == "param" && isWorkSig(e.Recv.Typ, true) && len(e.Args) == 2 {
				return &piece{span: span{e.Args[0], e.Args[1]}, ev: e}, ""
			}
		} else if s, ok := workSpan(e.Recv); ok && len(e.Args) == 0 {
			return &piece{span: s, ev: e}, ""
		}
		if len(e.Args) == 2 && e.Recv.Op == "param" {
			return nil, "" // the join function
		}
		return nil, "calls an unexpected function value " + e.Recv.String()
	case "rec":
		d := F.doms[e.Callee]
		if d == nil {
			return nil, "recursive call of an unexpected function " + shortFn(e.Callee)
		}
		p := &piece{ev: e, rec: true}
		if d.ia >= 0 {
			p.span = d.spanOf(e)
			if d.in >= 0 {
				p.n = e.Args[d.in]
			}
			return p, ""
		}
		off := len(e.Args) - e.Callee.Signature.Params().Len()
		if e.Callee.Signature.Recv() != nil {
			off = 1
		} else {
			off = 0
		}
		s, ok, msg := spanOfArgs(f, e.Args, e.Callee.Signature, off, func(t *Term) *Term {
			if e.St == nil {
				return nil
			}
			if t.Op == "slice" && t.Args[0].Op == "alloc" {
				return (&Interp{}).asList(e.St, t)
			}
			return nil
		})
		if !ok {
			return nil, msg
		}
		p.span = s
		return p, ""
	}
	return nil, ""
}

// pieces lists the pieces started on a path, main goroutine first.
func (F *fjFn) pieces(o *Outcome, f *Facts, task *Task, joined bool) ([]*piece, string) {
	var r []*piece
	pans := map[*Term]*Term{}
	evs := o.Events()
	for _, e := range evs {
		if e.Kind == "panicked" {
			pans[e.Args[0]] = e.Args[0]
		}
	}
	for i, e := range evs {
		switch e.Kind {
		case "user", "rec":
			p, msg := F.pieceOf(e, f)
			if msg != "" {
				return nil, msg
			}
			if p == nil {
				continue
			}
			p.task, p.joined = task, joined
			p.mainIdx = i
			for pv := range pans {
				if pv.Ref == e {
					p.pv = pv
				}
			}
			r = append(r, p)
		case "go":
			var oo *Outcome
			jn := false
			for _, tr := range o.St.tasks {
				if tr.T == e.Task {
					oo = tr.Joined
				}
			}
			if oo != nil {
				jn = joined
			} else {
				for _, x := range e.Task.Outs {
					if x.Kind == "ret" && oo == nil {
						oo = x
					}
				}
				if oo == nil && len(e.Task.Outs) > 0 {
					oo = e.Task.Outs[0]
				}
			}
			if oo == nil {
				continue
			}
			sub, msg := F.pieces(oo, f, e.Task, jn)
			if msg != "" {
				return nil, msg
			}
			if !jn {
				for _, p := range sub {
					p.pv = nil
				}
			}
			r = append(r, sub...)
		}
	}
	return r, ""
}

func factsOf(o *Outcome) *Facts {
	f := o.St.facts
	for _, tr := range o.St.tasks {
		if tr.Joined != nil {
			f = f.merge(tr.Joined.St.facts)
		}
	}
	return f
}

// tile checks that the pieces of a path cover the function's domain exactly
// once, in order; it returns a description of the failure.
func (F *fjFn) tile(r *fjRun, o *Outcome) string {
	f := factsOf(o)
	ps, msg := F.pieces(o, f, nil, true)
	if msg != "" {
		return msg
	}
	if o.Kind == "stop" {
		return "blocks forever"
	}
	if F.validation(r, o, ps) {
		return ""
	}
	_, msg = tilePieces(f, r.dom.span, ps)
	return msg
}

// validation: a path that rejects its arguments starts no work.
func (F *fjFn) validation(r *fjRun, o *Outcome, ps []*piece) bool {
	return o.Kind == "panic" && len(ps) == 0 && F.spec.rng && r.top && rejects(o.St.facts, ParamTerms(F.root))
}

func rejects(f *Facts, args []*Term) bool {
	if len(args) < 3 {
		return false
	}
	return f.Entails(lt(args[1], args[0])) || f.Entails(lt(args[2], mkInt(0)))
}

// tilePieces orders the pieces left to right.
func tilePieces(f *Facts, d span, ps []*piece) ([]*piece, string) {
	rem := append([]*piece{}, ps...)
	var order []*piece
	cur := d.lo
	for {
		found := -1
		for i, p := range rem {
			if f.Entails(eqInt(p.lo, cur)) && f.Entails(lt(p.lo, p.hi)) {
				found = i
				break
			}
		}
		if found < 0 {
			for i, p := range rem {
				if f.Entails(eqInt(p.lo, cur)) && f.Entails(le(p.lo, p.hi)) {
					found = i
					break
				}
			}
		}
		if found < 0 {
			break
		}
		p := rem[found]
		rem = append(rem[:found], rem[found+1:]...)
		order = append(order, p)
		cur = p.hi
	}
	if len(rem) > 0 {
		return order, fmt.Sprintf("the piece %v (%s) is not needed exactly there: after %s the work up to %s is covered", rem[0].span, rem[0].ev.Name, spans(order), cur)
	}
	if !f.Entails(eqInt(cur, d.hi)) {
		return order, fmt.Sprintf("the work %v is covered only up to %s by %s, given %s", d, cur, spans(order), f)
	}
	return order, ""
}

func spans(ps []*piece) string {
	var s []string
	for _, p := range ps {
		s = append(s, p.span.String())
	}
	if len(s) == 0 {
		return "no piece"
	}
	return strings.Join(s, " ")
}

func (F *fjFn) each(fn func(r *fjRun, o *Outcome, f *Facts, ps []*piece)) {
	for _, r := range F.runs {
		for _, o := range r.outs {
			f := factsOf(o)
			ps, msg := F.pieces(o, f, nil, true)
			if msg != "" {
				F.c.fail("pieces", shortFn(r.fn), outPos(o, r), "%s", msg)
				continue
			}
			if F.validation(r, o, ps) {
				continue
			}
			fn(r, o, f, ps)
		}
	}
}

func outPos(o *Outcome, r *fjRun) (p tokenPos) {
	evs := o.Events()
	if o.Site.IsValid() {
		return o.Site
	}
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].Pos.IsValid() {
			return evs[i].Pos
		}
	}
	return r.fn.Pos()
}

// ---- C02: every function is invoked exactly once

func ruleExactlyOnce(c *Ctx, sel func(fjSpec) bool) {
	n := 0
	for _, sp := range fjSpecs {
		if !sel(sp) {
			continue
		}
		F := analyzeFJ(c, sp)
		if F == nil {
			continue
		}
		n++
		F.each(func(r *fjRun, o *Outcome, f *Facts, ps []*piece) {
			c.require(o.Kind != "stop", "no-deadlock", shortFn(r.fn), outPos(o, r), "every wait for a goroutine can finish")
			order, msg := tilePieces(f, r.dom.span, ps)
			if r.empty && msg == "" {
				return
			}
			c.require(msg == "", "exactly-once", shortFn(r.fn), outPos(o, r), "%s", orElse(msg, fmt.Sprintf("pieces %s cover %v", spans(order), r.dom.span)))
			for _, p := range ps {
				if p.rec {
					c.require(f.Entails(lt(sub(p.hi, p.lo), sub(r.dom.hi, r.dom.lo))) || smallerN(f, p, r) || r.top && r.fn != p.ev.Callee, "progress", shortFn(r.fn), p.ev.Pos, "recursive call on %v must be smaller than %v", p.span, r.dom.span)
				}
			}
		})
	}
	c.floor("exactly-once functions", n, 6)
}

func smallerN(f *Facts, p *piece, r *fjRun) bool {
	return p.n != nil && r.dom.n != nil && f.Entails(lt(p.n, r.dom.n)) && f.Entails(le(mkInt(1), p.n))
}

func orElse(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

// ---- C01: return (or panic) only after everything has terminated

func ruleJoined(c *Ctx, sel func(fjSpec) bool) {
	n := 0
	for _, sp := range fjSpecs {
		if !sel(sp) {
			continue
		}
		F := analyzeFJ(c, sp)
		if F == nil {
			continue
		}
		n++
		F.each(func(r *fjRun, o *Outcome, f *Facts, ps []*piece) {
			how := map[string]string{"ret": "return", "panic": "panic", "stop": "wait"}[o.Kind]
			checkJoined(c, shortFn(r.fn), how, o, outPos(o, r))
		})
	}
	c.floor("fork-join functions", n, 6)
}

func checkJoined(c *Ctx, name, how string, o *Outcome, pos tokenPos) {
	if o.Kind == "stop" {
		c.fail("terminates", name, pos, "a path waits for a signal that no started goroutine gives")
	}
	for _, e := range o.Events() {
		if e.Kind == "wgwait" && e.Name != "" {
			c.fail("wait", name, e.Pos, "the wait does not match the goroutines it has to wait for (%s)", e.Name)
		}
	}
	for _, tr := range o.St.tasks {
		if !c.require(tr.Joined != nil, "joined", name, pos, "the goroutine started at %s has terminated at every %s", c.P.pos(tr.T.Go.Pos), how) {
			continue
		}
		evs := tr.Joined.Events()
		last := -1
		for i, e := range evs {
			if e.Kind == "wgdone" {
				last = i
			}
		}
		late := false
		for i, e := range evs {
			if i > last {
				switch e.Kind {
				case "user", "rec", "st", "invoke", "go", "ld":
					if e.Kind == "ld" || e.Kind == "st" {
						if rootOf(e.Recv).Op == "alloc" && !tr.T.Start.allocs[rootOf(e.Recv)] {
							continue
						}
					}
					late = true
					c.fail("signal-last", name, e.Pos, "the goroutine still works after it has signalled its termination")
				}
			}
		}
		if !late {
			c.ok("signal-last", name, "the signal of the goroutine started at %s is its last action", c.P.pos(tr.T.Go.Pos))
		}
		checkJoined(c, name, "end of the goroutine", tr.Joined, tr.T.Go.Pos)
	}
}

// ---- races between a goroutine and its parent before the join

func raceCheck(c *Ctx, name string, o *Outcome) {
	evs := o.Events()
	for _, tr := range o.St.tasks {
		end := len(evs)
		if tr.Joined != nil {
			end = tr.JoinAt
		}
		var outs []*Outcome
		if tr.Joined != nil {
			outs = []*Outcome{tr.Joined}
		} else {
			outs = tr.T.Outs
		}
		type acc struct {
			e *Event
			w bool
		}
		m := map[*Term]acc{}
		var coll func(o *Outcome)
		coll = func(o *Outcome) {
			for _, e := range o.Events() {
				if e.Kind == "st" || e.Kind == "ld" {
					if a, ok := m[e.Recv]; !ok || !a.w {
						m[e.Recv] = acc{e, e.Kind == "st"}
					}
				}
			}
			for _, t := range o.St.tasks {
				for _, x := range t.T.Outs {
					coll(x)
				}
			}
		}
		for _, x := range outs {
			coll(x)
		}
		bad := false
		for i := tr.Mark; i < end && i < len(evs); i++ {
			e := evs[i]
			if e.Kind != "st" && e.Kind != "ld" {
				continue
			}
			if a, ok := m[e.Recv]; ok && (a.w || e.Kind == "st") && !isAtomicCell(e.Recv) {
				bad = true
				c.fail("race", name, e.Pos, "%s is accessed here while the goroutine started at %s may access it at %s", addrPath(e.Recv), c.P.pos(tr.T.Go.Pos), c.P.pos(a.e.Pos))
			}
		}
		if !bad {
			c.ok("race", name, "no unsynchronised access between the start at %s and the wait", c.P.pos(tr.T.Go.Pos))
		}
	}
}

func isAtomicCell(*Term) bool { return false }

// ---- C03: combination of the results

type comb struct {
	f    *Facts
	ps   []*piece
	o    *Outcome
	kind string
	join map[*Event]bool
}

func resultEvent(t *Term) *Event {
	if t.Op == "res" {
		e, _ := t.Ref.(*Event)
		return e
	}
	return nil
}

func resIndex(t *Term) int {
	if i := strings.LastIndexByte(t.Aux, '.'); i >= 0 {
		n := 0
		fmt.Sscan(t.Aux[i+1:], &n)
		return n
	}
	return 0
}

func (k *comb) spanOfResult(t *Term) (span, string) {
	if e := resultEvent(t); e != nil {
		for _, p := range k.ps {
			if p.ev == e {
				return p.span, ""
			}
		}
		if e.Kind == "user" && len(e.Args) == 2 {
			a, m := k.spanOfResult(e.Args[0])
			if m != "" {
				return a, m
			}
			b, m := k.spanOfResult(e.Args[1])
			if m != "" {
				return b, m
			}
			return k.adj(a, b, false)
		}
	}
	if (t.Op == "op+" && k.kind == "sum") || (t.Op == "op*" && k.kind == "product") {
		a, m := k.spanOfResult(t.Args[0])
		if m != "" {
			return a, m
		}
		b, m := k.spanOfResult(t.Args[1])
		if m != "" {
			return b, m
		}
		return k.adj(a, b, k.kind == "product")
	}
	return span{}, "the value " + t.String() + " is not a combination of the results"
}

func (k *comb) adj(a, b span, comm bool) (span, string) {
	if k.f.Entails(eqInt(a.hi, b.lo)) {
		return span{a.lo, b.hi}, ""
	}
	if comm && k.f.Entails(eqInt(b.hi, a.lo)) {
		return span{b.lo, a.hi}, ""
	}
	return span{}, fmt.Sprintf("the results of %v and %v are combined in that order", a, b)
}

// evalBool evaluates a boolean term under an assignment of atoms.
func evalBool(t *Term, m map[*Term]bool) (bool, bool) {
	if v, ok := m[t]; ok {
		return v, true
	}
	switch {
	case isTrue(t):
		return true, true
	case isFalse(t):
		return false, true
	case t.Op == "not":
		v, ok := evalBool(t.Args[0], m)
		return !v, ok
	case t.Op == "eq":
		a, o1 := evalBool(t.Args[0], m)
		b, o2 := evalBool(t.Args[1], m)
		return a == b, o1 && o2
	}
	return false, false
}

// boolResult checks by truth table that res equals the conjunction
// (disjunction) of the pieces' results under the path's facts.
func boolResult(f *Facts, ps []*piece, res *Term, and bool) string {
	var atoms []*Term
	for _, p := range ps {
		if p.ev.Res == nil {
			return "a piece has no result"
		}
		atoms = append(atoms, p.ev.Res)
	}
	n := len(atoms)
	if n > 12 {
		return "too many pieces"
	}
	for m := 0; m < 1<<n; m++ {
		as := map[*Term]bool{}
		want := and
		ok := true
		for i, a := range atoms {
			v := m&(1<<i) != 0
			as[a] = v
			if d := f.Decide(a); d != 0 && (d > 0) != v {
				ok = false
			}
			if and {
				want = want && v
			} else {
				want = want || v
			}
		}
		if !ok {
			continue
		}
		got, known := evalBool(res, as)
		if !known {
			return "the result " + res.String() + " is not determined by the results of the functions"
		}
		if got != want {
			var d []string
			for i, a := range atoms {
				d = append(d, fmt.Sprintf("%v -> %v", ps[i].span, as[a]))
			}
			return fmt.Sprintf("the result is %v where %s", got, strings.Join(d, ", "))
		}
	}
	return ""
}

func ruleCombine(c *Ctx, sel func(fjSpec) bool) {
	n := 0
	for _, sp := range fjSpecs {
		if !sel(sp) {
			continue
		}
		F := analyzeFJ(c, sp)
		if F == nil {
			continue
		}
		n++
		F.each(func(r *fjRun, o *Outcome, f *Facts, ps []*piece) {
			raceCheck(c, shortFn(r.fn), o)
			if o.Kind != "ret" {
				return
			}
			name, pos := shortFn(r.fn), outPos(o, r)
			order, msg := tilePieces(f, r.dom.span, ps)
			if msg != "" {
				c.fail("combine", name, pos, "%s", msg)
				return
			}
			ps = order
			if sp.kind == "do" {
				return
			}
			if len(o.Res) == 0 {
				c.fail("combine", name, pos, "no result")
				return
			}
			res := o.Res[0]
			if len(ps) == 0 {
				switch sp.kind {
				case "and":
					c.require(isTrue(res), "identity", name, pos, "nothing to combine: the result is true")
				case "or":
					c.require(isFalse(res), "identity", name, pos, "nothing to combine: the result is false")
				case "sum":
					c.require(res.Op == "zero" || isZeroConst(res), "identity", name, pos, "nothing to combine: the result is the zero value, got %v", res)
				case "product":
					c.require(res.Op == "const" && strings.HasPrefix(res.Aux, "1:"), "identity", name, pos, "nothing to combine: the result is one, got %v", res)
				default:
					c.fail("identity", name, pos, "a path combines nothing")
				}
				return
			}
			switch sp.kind {
			case "and", "or":
				msg := boolResult(f, ps, res, sp.kind == "and")
				c.require(msg == "", "combine", name, pos, "%s", orElse(msg, "result of "+spans(ps)+" for every combination of truth values"))
			case "sreduce":
				msg := specReduce(f, ps, o)
				c.require(msg == "", "combine", name, pos, "%s", orElse(msg, "left-most decisive result of "+spans(ps)))
			default:
				k := &comb{f: f, ps: ps, o: o, kind: sp.kind}
				s, msg := k.spanOfResult(res)
				if msg == "" && (!f.Entails(eqInt(s.lo, r.dom.lo)) || !f.Entails(eqInt(s.hi, r.dom.hi))) {
					msg = fmt.Sprintf("the result combines only %v of %v", s, r.dom.span)
				}
				c.require(msg == "", "combine", name, pos, "%s", orElse(msg, fmt.Sprintf("result combines %v from left to right", s)))
			}
		})
	}
	c.floor("combining functions", n, 4)
}

func isZeroConst(t *Term) bool {
	if k, ok := t.intConst(); ok {
		return k == 0
	}
	return t.Op == "const" && strings.HasPrefix(t.Aux, "0:")
}

// specReduce: (left, true) if left is decisive, else (right, true) if right
// is, else join(left, right).
func specReduce(f *Facts, ps []*piece, o *Outcome) string {
	if len(o.Res) != 2 {
		return "two results expected"
	}
	val := func(p *piece) *Term { return mkField(p.ev.Res, 0, nil) }
	dec := func(p *piece) *Term { return mkField(p.ev.Res, 1, nil) }
	for i, p := range ps {
		d := f.Decide(dec(p))
		if len(ps) == 1 {
			if o.Res[0] == val(p) && (o.Res[1] == dec(p) || d > 0 && isTrue(o.Res[1]) || d < 0 && isFalse(o.Res[1])) {
				return ""
			}
			return "the only function's results are not returned as they are"
		}
		if d > 0 {
			if o.Res[0] == val(p) && (isTrue(o.Res[1]) || o.Res[1] == dec(p)) {
				return ""
			}
			return fmt.Sprintf("%v is the left-most decisive part, but its result is not what is returned", p.span)
		}
		if d == 0 {
			if i == len(ps)-1 {
				break
			}
			return fmt.Sprintf("a path returns without knowing whether %v is decisive", p.span)
		}
	}
	// nobody decisive: join
	e := resultEvent(o.Res[0])
	if e == nil || e.Kind != "user" || len(e.Args) != 2 || resultEvent(o.Res[1]) != e || resIndex(o.Res[0]) != 0 || resIndex(o.Res[1]) != 1 {
		return "without a decisive part the result is not that of the join function"
	}
	if f.Decide(dec(ps[len(ps)-1])) == 0 {
		return "the right-most part's decision is ignored"
	}
	if len(ps) != 2 || e.Args[0] != val(ps[0]) || e.Args[1] != val(ps[1]) {
		return "the join function is not applied to the left and the right result in that order"
	}
	return ""
}

// ---- C04: panics

func ruleePanicValue(pv, want *Term) bool { return contains(pv, want) }

func rulePanics(c *Ctx, sel func(fjSpec) bool) {
	n := 0
	for _, sp := range fjSpecs {
		if !sel(sp) {
			continue
		}
		F := analyzeFJ(c, sp)
		if F == nil {
			continue
		}
		n++
		F.each(func(r *fjRun, o *Outcome, f *Facts, ps []*piece) {
			name, pos := shortFn(r.fn), outPos(o, r)
			crashes(c, name, o)
			order, msg := tilePieces(f, r.dom.span, ps)
			if msg != "" {
				c.fail("leftmost-panic", name, pos, "%s", msg)
				return
			}
			var first *piece
			for _, p := range order {
				if p.pv != nil {
					first = p
					break
				}
			}
			jp := joinPanic(o)
			switch {
			case first == nil && jp == nil:
				c.require(o.Kind == "ret", "no-spurious-panic", name, pos, "no function panicked, so there is no panic (%v)", o.PV)
			case first == nil:
				c.require(o.Kind == "panic" && o.PV == jp, "leftmost-panic", name, pos, "a panic of the join function propagates")
			default:
				if o.Kind == "ret" {
					// only a decisive left part may hide a panic, and then the
					// panicking part has not been waited for
					c.fail("leftmost-panic", name, pos, "%v panicked, but the call returns normally", first.span)
					return
				}
				if first.task == nil && o.PV == first.pv {
					c.ok("leftmost-panic", name, "the panic of %v propagates", first.span)
					return
				}
				c.require(o.PV != nil && contains(o.PV, first.pv), "leftmost-panic", name, pos, "the left-most panic is that of %v, rethrown is %v", first.span, o.PV)
				if o.PV != nil && contains(o.PV, first.pv) {
					msg := unwraps(f, o.PV, first.pv)
					c.require(msg == "", "unwrap", name, pos, "%s", orElse(msg, "the rethrown value gives access to the original panic value"))
				}
			}
		})
	}
	c.floor("panic-propagating functions", n, 6)
	wrapPanicRule(c)
}

// crashes: a panic that leaves a goroutine ends the program.
func crashes(c *Ctx, name string, o *Outcome) {
	for _, tr := range o.St.tasks {
		for _, x := range tr.T.Outs {
			if x.Kind == "panic" {
				c.fail("goroutine-panic", name, tr.T.Go.Pos, "a panic in the goroutine started here is not recovered and ends the program")
			} else {
				c.ok("goroutine-panic", name, "every panic in the goroutine started at %s is recovered", c.P.pos(tr.T.Go.Pos))
			}
			crashes(c, name, x)
		}
	}
}

func joinPanic(o *Outcome) *Term {
	for _, e := range o.Events() {
		if e.Kind == "panicked" {
			pe, _ := e.Args[0].Ref.(*Event)
			if pe != nil && pe.Kind == "user" && len(pe.Args) == 2 && pe.Recv.Op == "param" && !isWorkSig(pe.Recv.Typ, true) {
				return e.Args[0]
			}
		}
	}
	return nil
}

// unwraps: when the original value is an error, the rethrown value wraps it.
func unwraps(f *Facts, pv, orig *Term) string {
	if pv == orig {
		return ""
	}
	errT := mk("assertok", "error", tyBool, nil, orig)
	d := f.Decide(errT)
	if pv.Op == "mkiface" && len(pv.Args) == 1 && pv.Args[0].Op == "ext" {
		pv = pv.Args[0]
	}
	if d < 0 {
		return "" // not an error: any rendition of it will do
	}
	if d == 0 {
		// not distinguished: the original value itself would have to be rethrown
		return "errors are not kept apart from other panic values, so the original error cannot be unwrapped"
	}
	if pv.Op != "ext" || !strings.HasPrefix(pv.Aux, "fmt.Errorf@") {
		return "an error is rethrown as " + pv.String() + ", which does not unwrap to it"
	}
	format, ok := constStr(pv.Args[0])
	if !ok {
		return "the format of the rethrown error is not constant"
	}
	if len(pv.Args) < 2 || pv.Args[1].Op != "list" {
		return "the arguments of the rethrown error are not known"
	}
	// find the verb that consumes the error
	idx := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.ContainsRune("+-# 0123456789.", rune(format[i])) {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if idx < len(pv.Args[1].Args) {
			a := pv.Args[1].Args[idx]
			if format[i] == 'w' && contains(a, orig) {
				return ""
			}
		}
		idx++
	}
	return "an error is formatted, but not with %w, so it cannot be unwrapped any more"
}

// wrapPanicRule checks the helper that turns a recovered value into the
// value to rethrow: nil stays nil, everything else stays non-nil.
func wrapPanicRule(c *Ctx) {
	fn := c.P.fn("internal.WrapPanic")
	if fn == nil {
		return // inlined elsewhere: the paths above cover it
	}
	an := c.analyze(fn, nil, nil, nil, Config{})
	if an.Err != nil {
		c.undecided("wrap", "internal.WrapPanic", fn.Pos(), an.Err)
		return
	}
	p := an.Args[0]
	for _, o := range an.Outs {
		pos := o.Site
		if o.Kind != "ret" {
			c.fail("wrap", "internal.WrapPanic", pos, "must not panic itself")
			continue
		}
		isnil := mkEq(p, mkNil(nil))
		switch o.St.facts.Decide(isnil) {
		case 1:
			c.require(isNil(o.Res[0]) || o.Res[0] == p, "wrap", "internal.WrapPanic", pos, "no panic (nil) stays nil, got %v", o.Res[0])
		default:
			c.require((neverNil(o.Res[0]) || o.Res[0] == p) && contains(o.Res[0], p), "wrap", "internal.WrapPanic", pos, "a panic value stays a panic value, got %v", o.Res[0])
		}
	}
}

// ---- C05/C06: batches of ranges

func ruleBatches(c *Ctx) {
	n := 0
	for _, sp := range fjSpecs {
		if !sp.rng {
			continue
		}
		F := analyzeFJ(c, sp)
		if F == nil {
			continue
		}
		n++
		F.each(func(r *fjRun, o *Outcome, f *Facts, ps []*piece) {
			name, pos := shortFn(r.fn), outPos(o, r)
			order, msg := tilePieces(f, r.dom.span, ps)
			c.require(msg == "", "tiling", name, pos, "%s", orElse(msg, "batches "+spans(order)+" cover "+r.dom.span.String()))
			for _, p := range ps {
				switch {
				case r.empty:
					c.require(f.Entails(eqInt(p.lo, p.hi)), "empty-range", name, p.ev.Pos, "the batch of an empty range is empty")
				case r.top:
					ne := f.Entails(lt(p.lo, p.hi))
					em := f.Entails(eqInt(p.lo, p.hi))
					c.require(ne || em, "pre", name, p.ev.Pos, "the range handed on is known to be empty or not")
					if p.n != nil {
						c.require(ne && f.Entails(le(mkInt(1), p.n)) || em && f.Entails(eqInt(p.n, mkInt(1))), "pre", name, p.ev.Pos, "an admissible number of batches is handed on: %v", p.n)
					}
				default:
					c.require(f.Entails(lt(p.lo, p.hi)), "non-empty", name, p.ev.Pos, "batch %v of a non-empty range is not empty", p.span)
					if p.n != nil {
						c.require(f.Entails(le(mkInt(1), p.n)), "pre", name, p.ev.Pos, "at least one batch is left for %v", p.span)
					}
				}
				if p.rec {
					c.require(r.top && r.fn != p.ev.Callee || f.Entails(lt(sub(p.hi, p.lo), sub(r.dom.hi, r.dom.lo))), "progress", name, p.ev.Pos, "the range %v handed on is smaller than %v", p.span, r.dom.span)
				}
			}
			// no more batches than asked for
			if r.dom.n != nil && !r.empty {
				tot := mkInt(0)
				for _, p := range ps {
					if p.n != nil {
						tot = add(tot, p.n)
					} else {
						tot = addK(tot, 1)
					}
				}
				c.require(f.Entails(le(tot, r.dom.n)), "batch-count", name, pos, "%v batches are made of at most %v", tot, r.dom.n)
			}
		})
	}
	c.floor("range functions", n, 10)
}

func ruleArgs(c *Ctx) {
	n := 0
	for _, sp := range fjSpecs {
		if !sp.rng {
			continue
		}
		fn := c.mustFn(sp.name)
		if fn == nil {
			continue
		}
		n++
		args := ParamTerms(fn)
		low, high, nb := args[0], args[1], args[2]
		type cse struct {
			what string
			pre  []*Term
			ok   bool
		}
		for _, cs := range []cse{
			{"high < low", []*Term{lt(high, low)}, false},
			{"n < 0 on a non-empty range", []*Term{lt(low, high), lt(nb, mkInt(0))}, false},
			{"n < 0 on an empty range", []*Term{eqInt(low, high), lt(nb, mkInt(0))}, false},
			{"non-empty range and n = 0", []*Term{lt(low, high), eqInt(nb, mkInt(0))}, true},
			{"non-empty range and n > 0", []*Term{lt(low, high), lt(mkInt(0), nb)}, true},
			{"empty range and n >= 0", []*Term{eqInt(low, high), le(mkInt(0), nb)}, true},
		} {
			st := newState()
			for _, p := range cs.pre {
				st.facts = st.facts.add(p, true)
			}
			an := c.analyze(fn, nil, nil, st, Config{})
			if an.Err != nil {
				c.undecided("arguments", sp.name, fn.Pos(), an.Err)
				continue
			}
			for _, o := range an.Outs {
				works := false
				for _, e := range o.Events() {
					if e.Kind == "user" || e.Kind == "rec" || e.Kind == "go" {
						works = true
					}
					if e.Kind == "rec" && cs.ok {
						var b *Term
						for i := len(e.Args) - 1; i >= 0; i-- {
							if isIntType(e.Callee.Params[i].Type()) {
								b = e.Args[i]
								break
							}
						}
						f := o.St.facts
						if b != nil && len(e.Args) >= 3 {
							c.require(f.Entails(le(mkInt(1), b)), "batches", sp.name, e.Pos, "%s: at least one batch (%v)", cs.what, b)
							if strings.HasPrefix(cs.what, "non-empty") {
								c.require(f.Entails(le(b, sub(high, low))), "batches", sp.name, e.Pos, "%s: no more batches than elements (%v)", cs.what, b)
							}
							if cs.what == "non-empty range and n > 0" {
								c.require(f.Entails(le(b, nb)), "batches", sp.name, e.Pos, "%s: no more batches than asked for (%v)", cs.what, b)
								c.require(f.Entails(eqInt(b, nb)) || f.Entails(eqInt(b, sub(high, low))), "batches", sp.name, e.Pos, "%s: as many batches as asked for, or one per element (%v)", cs.what, b)
							}
						}
					}
				}
				if cs.ok {
					c.require(o.Kind == "ret", "arguments", sp.name, outPos2(o, fn), "%s is accepted", cs.what)
				} else {
					c.require(o.Kind == "panic" && !works, "arguments", sp.name, outPos2(o, fn), "%s panics before any work is started", cs.what)
				}
			}
		}
	}
	c.floor("range functions", n, 10)
}

func outPos2(o *Outcome, fn *ssa.Function) tokenPos {
	return outPos(o, &fjRun{fn: fn})
}

// ---- C08: a decisive left part is returned without waiting

func ruleNoWait(c *Ctx) {
	n := 0
	for _, sp := range fjSpecs {
		if !sp.spec {
			continue
		}
		F := analyzeFJ(c, sp)
		if F == nil {
			continue
		}
		n++
		early := 0
		F.each(func(r *fjRun, o *Outcome, f *Facts, ps []*piece) {
			if o.Kind != "ret" || len(ps) < 2 {
				return
			}
			name, pos := shortFn(r.fn), outPos(o, r)
			order, msg := tilePieces(f, r.dom.span, ps)
			if msg != "" {
				c.fail("no-wait", name, pos, "%s", msg)
				return
			}
			left := order[0]
			dec := decisive(sp, left)
			if f.Decide(dec) <= 0 {
				return
			}
			early++
			if left.task != nil {
				c.fail("no-wait", name, pos, "the left-most part runs in another goroutine, so it has to be waited for")
				return
			}
			evs := o.Events()
			bad := false
			for i := left.mainIdx + 1; i < len(evs); i++ {
				switch evs[i].Kind {
				case "wgwait", "recv", "select", "lock", "rlock", "condwait", "user", "rec", "send":
					bad = true
					c.fail("no-wait", name, evs[i].Pos, "the left-most part is decisive, but the call still does a %s before it returns", evs[i].Kind)
				}
			}
			for _, p := range order[1:] {
				if p.task == nil {
					bad = true
					c.fail("no-wait", name, p.ev.Pos, "%v is not started in a goroutine of its own", p.span)
				}
			}
			// nothing that may block before the left part is done either
			for i := 0; i < left.mainIdx; i++ {
				switch evs[i].Kind {
				case "wgwait", "recv", "select", "condwait":
					bad = true
					c.fail("no-wait", name, evs[i].Pos, "waits before the left-most part is evaluated")
				}
			}
			if !bad {
				c.ok("no-wait", name, "a decisive %v is returned at once", left.span)
			}
		})
		c.floor("early exits of "+sp.name, early, 1)
	}
	c.floor("speculative functions", n, 8)
}

func decisive(sp fjSpec, p *piece) *Term {
	switch sp.kind {
	case "and":
		return mkNot(p.ev.Res)
	case "sreduce":
		return mkField(p.ev.Res, 1, tyBool)
	}
	return p.ev.Res
}

// ---- C09: everything is started once; an undecided call has waited

func ruleUndecidedWaits(c *Ctx) {
	n := 0
	for _, sp := range fjSpecs {
		if !sp.spec {
			continue
		}
		F := analyzeFJ(c, sp)
		if F == nil {
			continue
		}
		n++
		F.each(func(r *fjRun, o *Outcome, f *Facts, ps []*piece) {
			name, pos := shortFn(r.fn), outPos(o, r)
			order, msg := tilePieces(f, r.dom.span, ps)
			c.require(msg == "", "exactly-once", name, pos, "%s", orElse(msg, "pieces "+spans(order)+" cover "+r.dom.span.String()))
			c.require(o.Kind != "stop", "terminates", name, pos, "no wait is endless")
			if msg != "" || o.Kind != "ret" {
				return
			}
			dec := false
			for _, p := range order {
				if p.task != nil && !p.joined {
					c.require(dec, "undecided-waits", name, pos, "%v is only left running when something to its left is decisive", p.span)
				}
				if f.Decide(decisive(sp, p)) > 0 {
					dec = true
				}
			}
			for _, e := range o.Events() {
				if e.Kind == "wgwait" && e.Name != "" {
					c.fail("undecided-waits", name, e.Pos, "the wait does not match the goroutine it has to wait for (%s)", e.Name)
				}
			}
			for _, tr := range o.St.tasks {
				if tr.Joined == nil {
					continue
				}
				evs := tr.Joined.Events()
				last := -1
				for i, e := range evs {
					if e.Kind == "wgdone" {
						last = i
					}
				}
				for i, e := range evs {
					if i > last && (e.Kind == "user" || e.Kind == "rec" || e.Kind == "st") {
						c.fail("undecided-waits", name, e.Pos, "the goroutine still works after it has signalled its termination")
					}
				}
			}
		})
	}
	c.floor("speculative functions", n, 8)
}

func init() {
	par := func(s fjSpec) bool { return s.pkg == "parallel" }
	thunks := func(s fjSpec) bool { return s.pkg == "parallel" && !s.rng }
	register("C01", "every path of every fork-join function of package parallel, normal or panicking, joins each goroutine it started, and the goroutine's completion signal is its last action", func(c *Ctx) { ruleJoined(c, par) })
	register("C02", "on every path the calls of the supplied functions and the recursive calls tile the list of functions exactly once and recursion makes progress", func(c *Ctx) { ruleExactlyOnce(c, thunks) })
	register("C03", "on every normal path the result is the left-to-right combination of the pieces' results (truth tables for And and Or), identities for nothing, and results are handed over without a data race", func(c *Ctx) { ruleCombine(c, par) })
	register("C04", "no panic leaves a goroutine, the left-most panic of every path is the one rethrown, errors are wrapped so that they unwrap", func(c *Ctx) { rulePanics(c, func(s fjSpec) bool { return true }) })
	register("C05", "every range function's batches tile [low,high), are non-empty, and are no more than the number of batches", func(c *Ctx) { ruleBatches(c) })
	register("C06", "argument validation and number of batches of every range function, case by case", func(c *Ctx) { ruleArgs(c) })
	register("C07", "on every normal path the result equals the left-to-right result whatever the parts that were not waited for return", func(c *Ctx) { ruleCombine(c, func(s fjSpec) bool { return s.spec }) })
	register("C08", "after a decisive left-most part nothing blocks before the return", func(c *Ctx) { ruleNoWait(c) })
	register("C09", "all parts are started exactly once and only parts to the right of a decisive part are left running at a return", func(c *Ctx) { ruleUndecidedWaits(c) })
}
