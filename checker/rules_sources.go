package main

// C26: sources of package pipeline.
//
// Every type of the package with the methods of a Source is analysed from the
// state its constructor leaves behind: Prepare, then Fetch at an arbitrary
// point of its life, then Data and Err. Where elements come one by one (from a
// scanner or a channel), an automaton checks that each one received is put at
// the end of the batch exactly once, and that the batch is built in memory of
// its own.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type srcType struct {
	name  string
	named *types.Named
	ctor  *ssa.Function
	m     map[string]*ssa.Function
}

func (c *Ctx) sourceTypes() []*srcType {
	sp := c.P.SSA["pipeline"]
	if sp == nil {
		return nil
	}
	var r []*srcType
	sc := sp.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		named, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if _, isI := named.Underlying().(*types.Interface); isI {
			continue
		}
		s := &srcType{name: n, named: named, m: map[string]*ssa.Function{}}
		for _, mn := range []string{"Err", "Prepare", "Fetch", "Data"} {
			obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(named), true, sp.Pkg, mn)
			if f, ok := obj.(*types.Func); ok {
				s.m[mn] = c.P.Prog.FuncValue(f.Origin())
			}
		}
		if len(s.m) != 4 {
			continue
		}
		for _, n := range sc.Names() {
			if f, ok := sc.Lookup(n).(*types.Func); ok {
				res := f.Type().(*types.Signature).Results()
				if res.Len() == 1 {
					if p, ok := res.At(0).Type().(*types.Pointer); ok {
						if q, ok := p.Elem().(*types.Named); ok && q.Obj() == tn {
							s.ctor = c.P.Prog.FuncValue(f)
						}
					}
				}
			}
		}
		r = append(r, s)
	}
	return r
}

func ruleSources(c *Ctx) {
	ts := c.sourceTypes()
	for _, want := range []string{"Slice", "Scanner", "BytesScanner", "Func", "Chan", "MultiChan"} {
		found := false
		for _, t := range ts {
			found = found || t.name == want
		}
		c.require(found, "sources", "pipeline."+want, 0, "the source is analysed")
	}
	for _, t := range ts {
		c.source(t)
	}
}

// srcRun is one source in one of the states its constructor and Prepare can
// leave it in.
type srcRun struct {
	c    *Ctx
	t    *srcType
	recv *Term
	ctx  *Term // the context given to Prepare
	// what the constructor was given
	data, scanner, channel, fetch, prepare *Term
	st                                     *State
}

func (c *Ctx) source(t *srcType) {
	name := "pipeline." + t.name
	if t.ctor == nil {
		c.fail("sources", name, 0, "the source has no constructor")
		return
	}
	args := ParamTerms(t.ctor)
	an := c.analyze(t.ctor, args, nil, nil, pipeCfg)
	if an.Err != nil {
		c.undecided("sources", name, t.ctor.Pos(), an.Err)
		return
	}
	for _, o := range an.Outs {
		if o.Kind != "ret" {
			c.fail("sources", name, outPos2(o, t.ctor), "the constructor does not return (%s)", o.Kind)
			continue
		}
		r := &srcRun{c: c, t: t, recv: o.Res[0]}
		for _, a := range args {
			switch u := a.Typ.Underlying().(type) {
			case *types.Slice:
				r.data = a
			case *types.Chan:
				r.channel = a
			case *types.Signature:
				if u.Params().Len() == 1 && isIntType(u.Params().At(0).Type()) {
					r.fetch = a
				} else {
					r.prepare = a
				}
			case *types.Interface:
				for _, e := range o.Events() {
					if e.Kind == "ext" && e.Name == "bufio.NewScanner" && len(e.Args) == 1 && e.Args[0] == a {
						r.scanner = e.Res
					}
				}
			}
		}
		k := 0
		for _, x := range []*Term{r.data, r.channel, r.scanner, r.fetch} {
			if x != nil {
				k++
			}
		}
		if k != 1 {
			c.fail("sources", name, t.ctor.Pos(), "undecided: what the constructor takes its elements from is not recognised")
			continue
		}
		r.st = o.St
		r.prepareStep()
	}
}

func (r *srcRun) next(st *State) *State {
	s := st.clone()
	s.ev, s.locks, s.tasks = nil, nil, nil
	return s
}

func (r *srcRun) prepareStep() {
	c, fn := r.c, r.t.m["Prepare"]
	name := shortFn(fn)
	args := ParamTerms(fn)
	args[0] = r.recv
	r.ctx = args[1]
	start := r.next(r.st)
	an := c.analyze(fn, args, nil, start, pipeCfg)
	if an.Err != nil {
		c.undecided("size", name, fn.Pos(), an.Err)
		return
	}
	for _, o := range an.Outs {
		if o.Kind != "ret" {
			c.fail("size", name, outPos2(o, fn), "preparing the source does not return (%s)", o.Kind)
			continue
		}
		f, evs := o.St.facts, flat(o.Events())
		var calls []*Event
		for _, e := range evs {
			if e.Kind == "user" || e.Kind == "recv" || e.Kind == "select" || e.Kind == "ext" && strings.HasPrefix(e.Name, "(*bufio.Scanner).Scan") {
				calls = append(calls, e)
			}
		}
		pos := outPos2(o, fn)
		switch {
		case r.data != nil:
			c.require(f.Entails(eqInt(o.Res[0], mkLen(r.data))) && len(calls) == 0, "size", name, pos, "the size of the source is the number of elements of the slice")
		case r.prepare != nil && nilness(f, r.prepare) < 0:
			ok := len(calls) == 1 && calls[0].Kind == "user" && calls[0].Recv == r.prepare && len(calls[0].Args) == 1 && calls[0].Args[0] == r.ctx && calls[0].Res == o.Res[0]
			c.require(ok, "size", name, pos, "the size is what the user's prepare function returns, called once with the context")
		case r.prepare != nil && nilness(f, r.prepare) == 0:
			c.fail("size", name, pos, "whether there is a prepare function is not known")
		default:
			c.require(len(calls) == 0 && f.Entails(le(o.Res[0], mkInt(-1))), "size", name, pos, "the size is unknown, and nothing is taken from the source yet")
		}
		r.fetchStep(o)
	}
}

// sizeFields lists the pairs of a slice field and a number field that the
// constructor makes its length.
func (r *srcRun) sizeFields(st *State) [][2]*Term {
	var ss, is []*Term
	s := structOf(deref(r.recv.Typ))
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		a := mkFieldAddr(r.recv, i, f.Name(), types.NewPointer(f.Type()))
		if _, ok := f.Type().Underlying().(*types.Slice); ok {
			ss = append(ss, a)
		} else if isIntType(f.Type()) {
			is = append(is, a)
		}
	}
	var res [][2]*Term
	for _, x := range ss {
		for _, y := range is {
			v := st.load(x, deref(x.Typ))
			if v == r.data && st.load(y, tyInt) == mkLen(v) {
				res = append(res, [2]*Term{x, y})
			}
		}
	}
	return res
}

func (r *srcRun) fetchStep(prep *Outcome) {
	c, fn := r.c, r.t.m["Fetch"]
	name := shortFn(fn)
	args := ParamTerms(fn)
	args[0] = r.recv
	n := args[1]
	inv := r.sizeFields(prep.St)
	start := r.next(prep.St)
	start.facts = start.facts.add(le(mkInt(1), n), true) // C27
	syms := map[*Term]*Term{}
	var outs []*Outcome
	for pass := 0; ; pass++ {
		s := start.clone()
		for _, p := range inv {
			x, y := s.load(p[0], deref(p[0].Typ)), s.load(p[1], tyInt)
			s.facts = s.facts.add(eqInt(y, mkLen(x)), true).add(le(mkInt(0), mkLen(x)), true)
		}
		s.ev = nil
		an := c.analyze(fn, args, nil, s, pipeCfg)
		if an.Err != nil {
			c.undecided("batch", name, fn.Pos(), an.Err)
			return
		}
		outs = an.Outs
		ch := false
		for _, o := range outs {
			for _, e := range flat(o.Events()) {
				if !isWrite(e) || rootOf(e.Recv) != r.recv || syms[e.Recv] != nil {
					continue
				}
				t := deref(e.Recv.Typ)
				syms[e.Recv] = freshSym("held."+addrPath(e.Recv), t)
				start.mem[e.Recv] = syms[e.Recv]
				ch = true
			}
		}
		if !ch {
			break
		}
		if pass == 10 {
			c.fail("batch", name, fn.Pos(), "undecided: what fetching changes does not stabilise")
			return
		}
	}
	if r.data != nil && len(syms) == 0 {
		c.fail("batch", name, fn.Pos(), "fetching does not make progress")
		return
	}
	for _, o := range outs {
		pos := outPos2(o, fn)
		if o.Kind != "ret" {
			c.fail("batch", name, pos, "fetching does not return (%s)", o.Kind)
			continue
		}
		if !o.St.facts.Feasible() {
			continue
		}
		for _, e := range flat(o.Events()) {
			if isWrite(e) && rootOf(e.Recv) != r.recv && !r.fresh(e.Recv, start) {
				c.fail("batch", name, e.Pos, "fetching changes memory that is not the source's own")
			}
		}
		for _, p := range inv {
			x, y := o.St.load(p[0], deref(p[0].Typ)), o.St.load(p[1], tyInt)
			c.require(o.St.facts.Entails(eqInt(y, mkLen(x))), "batch", name, pos, "the number kept for the size of what is left is its length")
		}
		d := r.get("Data", o, name)
		if d == nil {
			continue
		}
		if r.data != nil {
			r.sliceFetch(name, o, start, n, d)
		} else if r.fetch != nil {
			r.funcFetch(name, o, n, d)
		} else {
			r.itemFetch(name, o, start, n, d)
		}
	}
}

// fresh reports memory made during the analysed call.
func (r *srcRun) fresh(a *Term, start *State) bool {
	b := rootOf(a)
	if b.Op == "alloc" {
		return !start.allocs[b]
	}
	return b.Op == "makeslice" || b.Op == "append" || b.Op == "clone" || b.Op == "makemap"
}

// get analyses a method without parameters in the state after o.
func (r *srcRun) get(method string, o *Outcome, name string) *Term {
	fn := r.t.m[method]
	args := ParamTerms(fn)
	args[0] = r.recv
	an := r.c.analyze(fn, args, nil, r.next(o.St), pipeCfg)
	if an.Err != nil {
		r.c.undecided("batch", name, fn.Pos(), an.Err)
		return nil
	}
	if len(an.Outs) != 1 || an.Outs[0].Kind != "ret" {
		r.c.fail("batch", shortFn(fn), fn.Pos(), "undecided: %s does not simply return a value", shortFn(fn))
		return nil
	}
	for _, e := range flat(an.Outs[0].Events()) {
		if e.Kind != "ld" {
			r.c.fail("batch", shortFn(fn), e.Pos, "asking a source for what it has does more than read it")
			return nil
		}
	}
	return an.Outs[0].Res[0]
}

// err checks what Err reports after o.
func (r *srcRun) err(o *Outcome, want *Term, name string) {
	fn := r.t.m["Err"]
	if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modulePath) {
		r.c.require(want == nil && strings.HasPrefix(fn.String(), "(*bufio.Scanner)"), "error", "pipeline."+r.t.name, fn.Pos(), "errors are reported by the scanner itself")
		return
	}
	if r.scanner != nil {
		args := ParamTerms(fn)
		args[0] = r.recv
		an := r.c.analyze(fn, args, nil, r.next(o.St), pipeCfg)
		ok := an.Err == nil && len(an.Outs) == 1 && an.Outs[0].Kind == "ret"
		if ok {
			t := an.Outs[0].Res[0]
			ok = false
			for _, e := range an.Outs[0].Events() {
				ok = ok || e.Kind == "ext" && e.Name == "(*bufio.Scanner).Err" && e.Args[0] == r.scanner && e.Res == t
			}
		}
		r.c.require(ok, "error", shortFn(fn), fn.Pos(), "the error is the one of the scanner")
		return
	}
	t := r.get("Err", o, name)
	if t == nil {
		return
	}
	if want == nil {
		r.c.require(nilness(o.St.facts, t) > 0, "error", shortFn(fn), fn.Pos(), "the source never has an error")
	} else {
		r.c.require(t == want, "error", shortFn(fn), fn.Pos(), "the error is the one the last fetch returned")
	}
}

// isPart tells whether t is root[lo:hi].
func isPart(f *Facts, t, root, lo, hi *Term) bool {
	switch {
	case isNil(t) || t.Op == "zero":
		return f.Entails(eqInt(lo, hi))
	case t == root:
		return f.Entails(eqInt(lo, mkInt(0))) && f.Entails(eqInt(hi, mkLen(root)))
	case t.Op == "slice" && t.Args[0] == root:
		return f.Entails(eqInt(t.Args[1], lo)) && f.Entails(eqInt(t.Args[2], hi))
	case t.Op == "clone":
		return isPart(f, t.Args[0], root, lo, hi)
	case t.Op == "makeslice":
		return f.Entails(eqInt(lo, hi)) && f.Entails(eqInt(mkLen(t), mkInt(0)))
	}
	return false
}

func (r *srcRun) sliceFetch(name string, o *Outcome, start *State, n, d *Term) {
	c, f, k, pos := r.c, o.St.facts, o.Res[0], outPos2(o, r.t.m["Fetch"])
	// the slice that is left before and after
	s := structOf(deref(r.recv.Typ))
	var bad string
	done := false
	for i := 0; i < s.NumFields(); i++ {
		fl := s.Field(i)
		if _, ok := fl.Type().Underlying().(*types.Slice); !ok {
			continue
		}
		a := mkFieldAddr(r.recv, i, fl.Name(), types.NewPointer(fl.Type()))
		if r.st.load(a, fl.Type()) != r.data {
			continue
		}
		v, w := start.load(a, fl.Type()), o.St.load(a, fl.Type())
		l := mkLen(v)
		f := f.add(le(mkInt(0), l), true)
		switch {
		case !f.Entails(le(mkInt(0), k)) || !f.Entails(le(k, n)):
			bad = "the reported count is not between 0 and the requested size"
		case !f.Entails(le(k, l)):
			bad = "more elements are reported than are left"
		case !isPart(f, d, v, mkInt(0), k):
			bad = "the batch is not what comes first of what is left, as many elements as reported"
		case !isPart(f, w, v, k, l):
			bad = "what is left afterwards is not the rest"
		case f.add(eqInt(k, mkInt(0)), true).Feasible() && !f.add(eqInt(k, mkInt(0)), true).Entails(eqInt(l, mkInt(0))):
			bad = "nothing is delivered although elements are left"
		default:
			done = true
		}
	}
	if done {
		c.ok("batch", name, "the batch is what comes first of what is left, at most as much as requested; the rest is left")
	} else if bad != "" {
		c.fail("batch", name, pos, "%s", bad)
	} else {
		c.fail("batch", name, pos, "undecided: where the source keeps its elements is not recognised")
	}
	r.err(o, nil, name)
}

func (r *srcRun) funcFetch(name string, o *Outcome, n, d *Term) {
	c, pos := r.c, outPos2(o, r.t.m["Fetch"])
	var calls []*Event
	for _, e := range flat(o.Events()) {
		if e.Kind == "user" {
			calls = append(calls, e)
		}
		if e.Kind == "loop" {
			calls = append(calls, e)
		}
	}
	if !c.require(len(calls) == 1 && calls[0].Kind == "user" && calls[0].Recv == r.fetch && len(calls[0].Args) == 1 && o.St.facts.Entails(eqInt(calls[0].Args[0], n)), "batch", name, pos, "the user's fetch function is called exactly once with the requested size") {
		return
	}
	t := calls[0].Res
	if t.Op != "tuple" || len(t.Args) != 3 {
		c.fail("batch", name, pos, "undecided: the results of the user's function are not known")
		return
	}
	c.require(d == t.Args[0], "batch", name, pos, "the batch is what the user's fetch function returned")
	c.require(o.Res[0] == t.Args[1], "batch", name, pos, "the count is what the user's fetch function returned")
	r.err(o, t.Args[2], name)
}

// itemState is what is known about a batch that is built element by element.
type itemState struct {
	chain   *Term // the batch so far, nil if none was started
	arr     *Term // memory that the batch is written to, if it is not appended to
	count   *Term // elements written to arr
	pending *Event
	ended   bool // the source said that there is nothing left
	cancel  bool // the context is done
}

type itemErr struct {
	pos tokenPos
	msg string
}

type itemWalk struct {
	r     *srcRun
	start *State
	n     *Term
	vals  map[*Term]*Event // element -> where it was received
	items int
}

func (r *srcRun) itemFetch(name string, o *Outcome, start *State, n, d *Term) {
	c, f, pos := r.c, o.St.facts, outPos2(o, r.t.m["Fetch"])
	w := &itemWalk{r: r, start: start, n: n, vals: map[*Term]*Event{}}
	s, err := w.walk(o.Events(), f, &itemState{})
	if err != nil {
		c.fail("batch", name, err.pos, "%s", err.msg)
		return
	}
	k := o.Res[0]
	single := false
	if s.pending != nil && !w.refuted(s.pending, f) {
		if e := w.vals[d]; e == s.pending && s.chain == nil && s.arr == nil {
			single = true
		}
		if !single {
			c.fail("batch", name, s.pending.Pos, "an element that was taken from the source is not delivered")
			return
		}
	} else if s.pending != nil {
		s.ended = true
	}
	if z := f.add(le(k, mkInt(0)), true); z.Feasible() {
		c.require(s.ended || s.cancel, "batch", name, pos, "nothing is reported only if the source has nothing left, or the context is done")
		c.require(f.Entails(le(mkInt(0), k)), "batch", name, pos, "the reported count is not negative")
		if !s.cancel && !single && !w.counted(z, s, d, k) {
			c.fail("batch", name, pos, "elements that were taken from the source are not delivered")
		}
	}
	if g := f.add(le(mkInt(1), k), true); g.Feasible() {
		c.require(g.Entails(le(k, n)), "batch", name, pos, "no more elements than requested are reported")
		if single {
			c.require(w.positive(s.pending, g) && g.Entails(eqInt(k, mkInt(1))), "batch", name, pos, "a single element that was received is reported as such")
		} else {
			c.require(w.counted(g, s, d, k), "batch", name, pos, "the batch is exactly the elements received, and their number is reported")
		}
	}
	r.err(o, nil, name)
}

// counted tells whether d is what was built and k its length.
func (w *itemWalk) counted(f *Facts, s *itemState, d, k *Term) bool {
	switch {
	case s.arr != nil:
		return f.Entails(eqInt(k, s.count)) && isPart(f, d, s.arr, mkInt(0), s.count)
	case s.chain != nil:
		return f.Entails(eqInt(k, mkLen(s.chain))) && (d == s.chain || d.Op == "clone" && d.Args[0] == s.chain || isPart(f, d, s.chain, mkInt(0), k))
	}
	return f.Entails(eqInt(k, mkInt(0)))
}

// flag is what tells whether an element was received.
func flagOf(e *Event) *Term {
	if e.Kind == "ext" {
		return e.Res
	}
	return mk("recvok", fmt.Sprint(e.ID), tyBool, e)
}
func (w *itemWalk) refuted(e *Event, f *Facts) bool  { return f.Decide(flagOf(e)) < 0 }
func (w *itemWalk) positive(e *Event, f *Facts) bool { return f.Decide(flagOf(e)) > 0 }

// emptyOwn recognises an empty slice that no other batch shares memory with.
func (w *itemWalk) emptyOwn(t *Term) bool {
	switch t.Op {
	case "nil", "zero":
		return true
	case "makeslice":
		k, ok := mkLen(t).intConst()
		return ok && k == 0 && !w.start.allocs[t]
	case "slice":
		a := t.Args[0]
		lo, ok1 := t.Args[1].intConst()
		hi, ok2 := t.Args[2].intConst()
		return ok1 && ok2 && lo == hi && (a.Op == "alloc" && !w.start.allocs[a] || a.Op == "makeslice")
	}
	return false
}

// item finds the received element that t is.
func (w *itemWalk) item(t *Term) (*Event, bool) {
	own := false
	for {
		switch {
		case t.Op == "clone":
			t, own = t.Args[0], true
		case t.Op == "append" && w.emptyOwn(t.Args[0]):
			t, own = t.Args[1], true
		case t.Op == "conv" && len(t.Args) == 1:
			// between strings and bytes: copies
			_, s1 := t.Typ.Underlying().(*types.Basic)
			_, s2 := t.Args[0].Typ.Underlying().(*types.Basic)
			if s1 != s2 {
				own = true
			}
			t = t.Args[0]
		default:
			e := w.vals[t]
			if e != nil && e.Kind == "ext" && !own {
				if _, ok := t.Typ.Underlying().(*types.Slice); ok {
					return e, false // the scanner's own buffer
				}
			}
			return e, true
		}
	}
}

func (w *itemWalk) receive(s *itemState, e *Event, f *Facts) *itemErr {
	if s.pending != nil {
		if !w.refuted(s.pending, f) {
			return &itemErr{s.pending.Pos, "an element that was taken from the source is not put into the batch"}
		}
		s.ended = true
	}
	s.pending = e
	w.items++
	return nil
}

func (w *itemWalk) put(s *itemState, e *Event, t *Term, f *Facts) (bool, *itemErr) {
	x, own := w.item(t)
	if x == nil {
		return false, nil
	}
	if !own {
		return true, &itemErr{e.Pos, "the batch refers to memory that later fetches overwrite"}
	}
	if x != s.pending {
		return true, &itemErr{e.Pos, "an element is put into the batch again"}
	}
	if !w.positive(x, f) {
		return true, &itemErr{e.Pos, "an element is put into the batch although there may have been none"}
	}
	s.pending = nil
	return true, nil
}

func (w *itemWalk) walk(evs []*Event, f *Facts, s0 *itemState) (*itemState, *itemErr) {
	n := *s0
	s := &n
	for _, e := range evs {
		switch {
		case e.Kind == "ext" && strings.HasPrefix(e.Name, "(*bufio.Scanner)."):
			if len(e.Args) == 0 || e.Args[0] != w.r.scanner {
				return s, &itemErr{e.Pos, "another scanner than the source's is used"}
			}
			switch e.Name[len("(*bufio.Scanner)."):] {
			case "Scan":
				if err := w.receive(s, e, f); err != nil {
					return s, err
				}
			case "Text", "Bytes":
				if s.pending != nil {
					w.vals[e.Res] = s.pending
				}
			}
		case e.Kind == "recv":
			if e.Recv != w.r.channel {
				if isDoneOf2(e.Recv, w.r.ctx) {
					s.cancel = true
				}
				continue
			}
			if err := w.receive(s, e, f); err != nil {
				return s, err
			}
			w.vals[e.Res] = e
		case e.Kind == "select":
			if e.Chosen < 0 || e.Chosen >= len(e.Cases) {
				continue
			}
			k := e.Cases[e.Chosen]
			switch {
			case k.Chan == w.r.channel && !k.Send:
				if err := w.receive(s, e, f); err != nil {
					return s, err
				}
				w.vals[e.Res] = e
			case isDoneOf2(k.Chan, w.r.ctx):
				s.cancel = true
			}
		case e.Kind == "ctxerr":
			if nilness(f, e.Res) < 0 {
				s.cancel = true
			}
		case e.Kind == "append":
			l := e.Args[1]
			if l.Op != "list" {
				if x, _ := w.item(e.Res); x != nil {
					continue // a copy of the element's bytes
				}
				continue
			}
			for _, a := range l.Args {
				is, err := w.put(s, e, a, f)
				if err != nil {
					return s, err
				}
				if !is {
					if e.Args[0] == s.chain {
						return s, &itemErr{e.Pos, "something that was not received is put into the batch"}
					}
					continue
				}
				if len(l.Args) != 1 || s.arr != nil {
					return s, &itemErr{e.Pos, "undecided: how the batch is built is not recognised"}
				}
				if s.chain == nil {
					if !w.emptyOwn(e.Args[0]) {
						return s, &itemErr{e.Pos, "the batch is built in memory that an earlier batch may still use, or is not empty at first"}
					}
				} else if s.chain != e.Args[0] {
					return s, &itemErr{e.Pos, "the element is not put at the end of the batch"}
				}
				s.chain = e.Res
			}
		case e.Kind == "st" && e.Recv.Op == "idxaddr" && e.Recv.Args[0].Op == "makeslice":
			is, err := w.put(s, e, e.Args[0], f)
			if err != nil {
				return s, err
			}
			if !is {
				if s.arr == e.Recv.Args[0] {
					return s, &itemErr{e.Pos, "something that was not received is put into the batch"}
				}
				continue
			}
			if s.chain != nil || s.arr != nil && s.arr != e.Recv.Args[0] {
				return s, &itemErr{e.Pos, "undecided: how the batch is built is not recognised"}
			}
			if s.arr == nil {
				s.arr, s.count = e.Recv.Args[0], mkInt(0)
			}
			if !f.Entails(eqInt(e.Recv.Args[1], s.count)) {
				return s, &itemErr{e.Pos, "the element is not put at the end of the batch"}
			}
			s.count = addK(s.count, 1)
		case e.Kind == "loop":
			var err *itemErr
			s, err = w.loop(e.Loop, s, f)
			if err != nil {
				return s, err
			}
		}
	}
	return s, nil
}

// isDoneOf2 recognises the channel that tells that a context is done.
func isDoneOf2(ch, ctx *Term) bool {
	return ch != nil && ch.Op == "ctxdone" && len(ch.Args) == 1 && ch.Args[0] == ctx
}

func (w *itemWalk) loop(L *Loop, s *itemState, after *Facts) (*itemState, *itemErr) {
	type cand struct{ chain, arr, count, flag *Term }
	var arrs []*Term
	for _, it := range L.Iters {
		for _, e := range it.Events {
			if e.Kind == "st" && e.Recv.Op == "idxaddr" && e.Recv.Args[0].Op == "makeslice" {
				arrs = append(arrs, e.Recv.Args[0])
			}
		}
	}
	cands := []cand{{chain: s.chain, arr: s.arr, count: s.count}}
	for _, v := range L.Vars {
		if s.arr == nil && (s.chain != nil && v.Init == s.chain || s.chain == nil && w.emptyOwn(v.Init)) {
			cands = append(cands, cand{chain: v.Sym})
		}
		if isIntType(v.Sym.Typ) && s.chain == nil {
			for _, a := range arrs {
				from := s.count
				if from == nil {
					from = mkInt(0)
				}
				if k, ok := sub(from, v.Init).intConst(); ok {
					cands = append(cands, cand{arr: a, count: addK(v.Sym, k)})
				}
			}
		}
	}
	// a variable that tells that the source ended
	var all []cand
	for _, k := range cands {
		all = append(all, k)
		for _, v := range L.Vars {
			if isBoolType(v.Sym.Typ) && !s.ended {
				if isTrue(v.Init) {
					k.flag = v.Sym
				} else if isFalse(v.Init) {
					k.flag = mkNot(v.Sym)
				} else {
					continue
				}
				all = append(all, k)
			}
		}
	}
	var first *itemErr
	best := -1
	for i := len(all) - 1; i >= 0; i-- {
		k := all[i]
		h := *s
		h.chain, h.arr, h.count = k.chain, k.arr, k.count
		w.items = 0
		err := w.loopFrom(L, &h, k.flag)
		if err == nil {
			if k.flag != nil {
				h.ended = after.Decide(k.flag) < 0
			}
			return &h, nil
		}
		if w.items > best {
			best, first = w.items, err
		}
	}
	return s, first
}

func (w *itemWalk) loopFrom(L *Loop, h *itemState, flag *Term) *itemErr {
	for _, it := range L.Iters {
		f := it.St.facts
		if !f.Feasible() {
			continue
		}
		next := map[*Term]*Term{}
		for _, v := range L.Vars {
			next[v.Sym] = v.Sym
			if it.Next[v.Sym] != nil {
				next[v.Sym] = it.Next[v.Sym]
			}
		}
		for _, going := range []bool{true, false} {
			g, b := f, *h
			if flag != nil {
				if d := f.Decide(flag); d > 0 && !going || d < 0 && going {
					continue
				}
				g = f.add(flag, going)
				b.ended = !going
			} else if !going {
				continue
			}
			if !g.Feasible() {
				continue
			}
			if err := w.iteration(L, it, g, &b, flag, next); err != nil {
				return err
			}
		}
	}
	return nil
}

func (w *itemWalk) iteration(L *Loop, it *Iter, f *Facts, h *itemState, flag *Term, next map[*Term]*Term) *itemErr {
	r, err := w.walk(it.Events, f, h)
	if err != nil {
		return err
	}
	if flag != nil {
		off := f.add(subst(flag, next), false)
		if f.Decide(subst(flag, next)) <= 0 && off.Feasible() && !r.ended && (r.pending == nil || !w.refuted(r.pending, off)) {
			return &itemErr{L.Pos, "the end of the source is not tracked"}
		}
	}
	if r.pending != nil && !w.refuted(r.pending, f) && (flag == nil || f.Decide(subst(flag, next)) >= 0 && !w.refuted(r.pending, f.add(subst(flag, next), true))) {
		return &itemErr{r.pending.Pos, "an element that was taken from the source is not put into the batch"}
	}
	if r.arr != nil {
		if h.arr != r.arr || !f.Entails(eqInt(r.count, subst(h.count, next))) {
			return &itemErr{L.Pos, "the number of elements in the batch is not kept"}
		}
	} else if r.chain != nil {
		c := h.chain
		if c != nil {
			c = subst(c, next)
		}
		if c != r.chain {
			return &itemErr{L.Pos, "elements put into the batch are lost"}
		}
	}
	return nil
}

func init() {
	register("C26", "every source from the state its constructor leaves, at an arbitrary fetch (changed fields unconstrained up to the length invariant): slices are split at the reported count; for elements that arrive one by one an automaton with loops as inductive steps checks that each is appended once to a batch in memory of its own; the count is related to the length by linear arithmetic", ruleSources,
		"bufio.Scanner and channels deliver each element once and in order; requested sizes are at least 1 (C27)", "user programs do not use the source while the pipeline runs")
}
