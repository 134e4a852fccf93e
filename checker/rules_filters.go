package main

// C28, C29, C30: the filters of package pipeline.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C29

type quant struct {
	name            string
	decisive, value bool
}

func ruleQuantifiers(c *Ctx) {
	n := 0
	for _, q := range []quant{{"Every", false, false}, {"NotEvery", false, true}, {"Some", true, true}, {"NotAny", true, false}} {
		name := "pipeline." + q.name
		fn, args, outs := c.construct("setup", name)
		if fn == nil {
			continue
		}
		for _, o := range outs {
			for _, fl := range c.filters("setup", name, o.Res[0], o.St) {
				if !fl.o.St.facts.Feasible() {
					continue
				}
				n++
				c.quantifier(q, name, args, fl)
			}
		}
	}
	c.floor("filters of quantifiers", n, 4)
	c.kindsPassed()
}

type marker struct {
	addr *Term
	val  *Term // constant, or nil for a counter that was increased
}

func constBool(t *Term) (v, ok bool) {
	if isTrue(t) {
		return true, true
	}
	return false, isFalse(t)
}

func isConstVal(t *Term) bool {
	if _, ok := t.intConst(); ok {
		return true
	}
	return t.Op == "const"
}

// initOf is the value of a cell after the filter was set up.
func (fl *filt) initOf(a *Term) *Term {
	if v, ok := fl.o.St.mem[a]; ok {
		return v
	}
	var last *Term
	for _, e := range fl.o.Events() {
		if e.Kind == "atomic" && e.Recv == a && e.Name == "Store" {
			last = e.Args[0]
		}
	}
	if last != nil {
		return last
	}
	if rootOf(a).Op == "alloc" {
		switch typeBase(deref(a.Typ)) {
		case "atomic.Bool":
			return mkBool(false)
		case "atomic.Int32", "atomic.Int64", "atomic.Uint32", "atomic.Uint64":
			return mkInt(0)
		}
	}
	return nil
}

func (c *Ctx) quantifier(q quant, name string, args []*Term, fl *filt) {
	fpos := outPos2(fl.o, fl.fn)
	result, asked, pred := args[0], args[1], args[2]
	init, known := fl.o.St.mem[result], false
	if init != nil {
		var v bool
		v, known = constBool(init)
		known = known && v != q.value
	}
	if !c.require(known, "initial", name, fpos, "the result starts as %v, what it is without any batch", !q.value) {
		return
	}
	for _, e := range fl.o.Events() {
		if isCancel(e) || e.Kind == "user" {
			c.fail("cancel", name, e.Pos, "setting the filter up must not cancel the pipeline or call functions")
		}
	}
	if isNilFn(fl.recv) {
		c.fail("receiver", name, fpos, "the filter has no receiver: batches are not looked at")
		return
	}
	r, err := c.repeated(fl.recv, fl.o.St, pipeCfg)
	if err != nil {
		c.undecided("receiver", name, fpos, err)
		return
	}
	type dec struct {
		o *Outcome
		w []marker
	}
	var decs []dec
	marks := map[*Term]bool{}
	var unmarked []*Outcome
	for _, o := range r.outs {
		pos := outPos2(o, r.fn)
		if o.Kind != "ret" {
			c.fail("receiver", name, pos, "the receiver does not return (%s)", o.Kind)
			continue
		}
		evs := o.Events()
		c.require(len(o.St.locks) == 0, "receiver", name, pos, "no lock is held on return")
		c.require(o.Res[0] == r.args[1], "unchanged", name, pos, "the batch is passed on unchanged")
		var call *Event
		calls, cancels := 0, 0
		bad := false
		held := heldAt(evs)
		var w []marker
		for _, e := range evs {
			switch {
			case e.Kind == "user" && e.Recv == pred:
				calls++
				call = e
				if len(e.Args) != 1 || e.Args[0] != r.args[1] {
					c.fail("predicate", name, e.Pos, "the predicate is called on something else than the batch")
				}
			case isCancel(e):
				cancels++
				if e.Kind == "cancel" && e.Recv != fl.p {
					c.fail("cancel", name, e.Pos, "another pipeline is cancelled")
				}
			case isWrite(e):
				if r.local(e.Recv) {
					continue
				}
				if fl.par && e.Kind == "st" && !r.lockedShared(held[e]) {
					c.fail("race", name, e.Pos, "%v is written without synchronisation although receivers of parallel nodes run concurrently", addrPath(e.Recv))
				}
				m := marker{addr: e.Recv}
				switch {
				case e.Kind == "st":
					m.val = e.Args[0]
				case e.Name == "Store" || e.Name == "Swap":
					m.val = e.Args[0]
				case strings.HasPrefix(e.Name, "CompareAndSwap"):
					if fl.initOf(e.Recv) != e.Args[0] {
						c.fail("decided", name, e.Pos, "the compare-and-swap does not expect the initial value")
						bad = true
					}
					m.val = e.Args[1]
				case strings.HasPrefix(e.Name, "Store") || strings.HasPrefix(e.Name, "Swap"):
					m.val = e.Args[0]
				case strings.HasPrefix(e.Name, "Add"):
					if k, ok := e.Args[0].intConst(); !ok || k <= 0 {
						c.fail("decided", name, e.Pos, "the counter does not grow")
						bad = true
					}
				default:
					c.fail("decided", name, e.Pos, "unexpected atomic operation %s", e.Name)
					bad = true
				}
				if e.Kind == "st" && !isConstVal(m.val) {
					d, ok := sub(m.val, r.sym[e.Recv]).intConst()
					if !isIntType(m.val.Typ) || !ok || d <= 0 {
						c.fail("decided", name, e.Pos, "the value stored in %v is not known", addrPath(e.Recv))
						bad = true
					}
					m.val = nil
				}
				w = append(w, m)
			case e.Kind == "ld":
				if fl.par && r.sym[e.Recv] != nil && !r.lockedShared(held[e]) {
					c.fail("race", name, e.Pos, "%v is read without synchronisation although concurrent receivers write it", addrPath(e.Recv))
				}
			case e.Kind == "loop":
				for _, it := range e.Loop.Iters {
					if len(effects(it.Events)) > 0 {
						c.fail("receiver", name, e.Pos, "undecided: the receiver has a loop with effects")
						bad = true
					}
				}
			case e.Kind == "lock" || e.Kind == "unlock" || e.Kind == "rlock" || e.Kind == "runlock" || e.Kind == "atomic" || e.Kind == "defer" || e.Kind == "append" || e.Kind == "make":
			default:
				c.fail("receiver", name, e.Pos, "unexpected effect: %s %s", e.Kind, e.Name)
				bad = true
			}
		}
		if bad {
			continue
		}
		if !c.require(calls == 1, "predicate", name, pos, "the predicate is called once per batch") {
			continue
		}
		f := o.St.facts
		d := f.Decide(call.Res)
		isDec := d > 0 && q.decisive || d < 0 && !q.decisive
		notDec := d < 0 && q.decisive || d > 0 && !q.decisive
		switch {
		case isDec:
			switch f.Decide(asked) {
			case 1:
				c.require(cancels > 0, "cancel", name, pos, "the pipeline is cancelled when asked for and the result is decided")
			case -1:
				c.require(cancels == 0, "cancel", name, pos, "the pipeline is not cancelled unless asked for")
			default:
				c.fail("cancel", name, pos, "cancelling does not depend on whether it was asked for")
			}
			if len(w) == 0 {
				unmarked = append(unmarked, o)
			} else {
				decs = append(decs, dec{o, w})
				for _, m := range w {
					marks[m.addr] = true
				}
			}
		case notDec:
			c.require(cancels == 0, "cancel", name, pos, "the pipeline is not cancelled by a batch that does not decide the result")
			c.require(len(w) == 0, "decided", name, pos, "a batch that does not decide the result changes nothing")
		default:
			c.fail("decided", name, pos, "the effect of a batch does not depend on the predicate")
		}
	}
	// a decisive batch may be ignored only if the mark is known to be set
	for _, o := range unmarked {
		ok := false
		for _, d := range decs {
			all := true
			for _, m := range d.w {
				if m.val == nil || !knownToBe(o, r, m.addr, m.val) {
					all = false
				}
			}
			ok = ok || all
		}
		c.require(ok, "decided", name, outPos2(o, r.fn), "a batch that decides the result is recorded")
	}
	if len(decs) == 0 {
		c.fail("decided", name, fpos, "no batch can decide the result")
		return
	}
	// what the finalizer makes of it
	worlds := []struct {
		w    []marker
		want bool
	}{{nil, !q.value}}
	for _, d := range decs {
		worlds = append(worlds, struct {
			w    []marker
			want bool
		}{d.w, q.value})
	}
	for _, w := range worlds {
		vals := map[*Term]*Term{}
		s := fl.o.St.clone()
		s.ev, s.locks, s.tasks = nil, nil, nil
		for a := range marks {
			v := fl.initOf(a)
			if v == nil {
				c.fail("initial", name, fpos, "the initial value of %v is not known", addrPath(a))
				return
			}
			vals[a] = v
		}
		for _, m := range w.w {
			v := m.val
			if v == nil {
				i := vals[m.addr]
				v = freshSym("count", tyInt)
				s.facts = s.facts.add(lt(i, v), true)
			}
			vals[m.addr] = v
		}
		for a, v := range vals {
			s.mem[a] = v
		}
		what := "no batch decided it"
		if w.w != nil {
			what = "a batch decided it"
		}
		check := func(v *Term, f *Facts, pos tokenPos) {
			ok := v != nil && (f.Entails(v) == w.want && f.Decide(v) != 0)
			c.require(ok, "result", name, pos, "the result is %v when %s", w.want, what)
		}
		if isNilFn(fl.fin) {
			check(s.mem[result], s.facts, fpos)
			continue
		}
		ff := ssaFn(fl.fin)
		if ff == nil || fl.fin.Op != "closure" && fl.fin.Op != "func" {
			c.fail("result", name, fpos, "the finalizer's code is not known")
			continue
		}
		an := c.analyze(ff, nil, closureBinds(fl.fin), s, pipeCfg)
		if an.Err != nil {
			c.undecided("result", name, ff.Pos(), an.Err)
			continue
		}
		for _, o := range an.Outs {
			f := o.St.facts
			feasible := true
			for _, e := range flat(o.Events()) {
				if e.Kind == "atomic" && strings.HasPrefix(e.Name, "Load") && vals[e.Recv] != nil {
					t := valueIs(e.Res, vals[e.Recv])
					if f.Decide(t) < 0 {
						feasible = false
					}
					f = f.add(t, true)
				}
				if isCancel(e) || e.Kind == "user" {
					c.fail("cancel", name, e.Pos, "the finalizer cancels the pipeline or calls functions")
				}
			}
			if !feasible || !f.Feasible() {
				continue
			}
			if !c.require(o.Kind == "ret", "result", name, outPos2(o, ff), "the finalizer returns") {
				continue
			}
			check(o.St.mem[result], f, outPos2(o, ff))
		}
	}
}

// valueIs is the condition x == v.
func valueIs(x, v *Term) *Term {
	if isTrue(v) {
		return x
	}
	if isFalse(v) {
		return mkNot(x)
	}
	return eqInt(x, v)
}

// knownToBe reports that a path has seen v in cell a.
func knownToBe(o *Outcome, r *rep, a, v *Term) bool {
	f := o.St.facts
	if s := r.sym[a]; s != nil && f.Entails(valueIs(s, v)) {
		return true
	}
	for _, e := range o.Events() {
		if e.Recv == a && (e.Kind == "ld" || e.Kind == "atomic" && strings.HasPrefix(e.Name, "Load")) && e.Res != nil && f.Entails(valueIs(e.Res, v)) {
			return true
		}
	}
	return false
}

// kindsPassed checks that nodes that run receivers concurrently say so to
// their filters.
func (c *Ctx) kindsPassed() {
	par := c.constOf("pipeline", "Parallel")
	n := 0
	for _, nt := range c.nodeTypes() {
		begin, feed := nt.m["Begin"], nt.m["Feed"]
		if begin == nil || feed == nil {
			continue
		}
		an := c.analyze(begin, nil, nil, nil, Config{})
		fa := c.analyze(feed, nil, nil, nil, Config{})
		name := "pipeline." + nt.name
		if an.Err != nil || fa.Err != nil {
			continue // C19, C21
		}
		concurrent := false
		for _, o := range fa.Outs {
			for _, e := range flat(o.Events()) {
				if e.Kind == "go" {
					concurrent = true
				}
			}
		}
		for _, o := range an.Outs {
			for _, e := range o.Events() {
				if e.Kind == "loop" {
					for _, it := range e.Loop.Iters {
						for _, x := range flat(it.Events) {
							if x.Kind == "go" {
								concurrent = true
							}
						}
					}
				}
			}
		}
		for _, o := range an.Outs {
			for _, e := range flat(o.Events()) {
				// the call of a filter
				if e.Kind == "user" && len(e.Args) == 3 && typeBase(e.Recv.Typ) == "pipeline.Filter" {
					n++
					if concurrent {
						c.require(o.St.facts.Entails(eqInt(e.Args[1], par)), "kind", name, e.Pos, "filters are told that their receivers run in parallel")
					} else {
						c.ok("kind", name, "receivers run one at a time: any kind is right")
					}
				}
			}
		}
	}
	c.floor("filter calls", n, 4)
}

type nodeType struct {
	name  string
	named *types.Named
	m     map[string]*ssa.Function
}

// nodeTypes lists the types of package pipeline that implement its Node
// interface.
func (c *Ctx) nodeTypes() []*nodeType {
	sp := c.P.SSA["pipeline"]
	if sp == nil {
		return nil
	}
	var r []*nodeType
	sc := sp.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		named, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if _, isI := named.Underlying().(*types.Interface); isI {
			continue
		}
		nt := &nodeType{name: n, named: named, m: map[string]*ssa.Function{}}
		for _, mn := range []string{"TryMerge", "Begin", "StrictOrd", "Feed", "End"} {
			// embedded types' methods count
			obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(named), true, sp.Pkg, mn)
			if f, ok := obj.(*types.Func); ok {
				nt.m[mn] = c.P.Prog.FuncValue(f.Origin())
			}
		}
		if len(nt.m) == 5 {
			r = append(r, nt)
		}
	}
	return r
}

// ---- C30

func ruleCollect(c *Ctx) {
	c.ruleAppend()
	c.ruleCount()
	c.ruleWrappers()
	c.ruleCompose()
	c.kindsPassed()
}

// accesses checks the common obligations of a receiver that accumulates into
// one place and returns, per path, the writes.
func (c *Ctx) receiverPaths(name string, fl *filt, each func(r *rep, o *Outcome, writes []*Event)) *rep {
	r, err := c.repeated(fl.recv, fl.o.St, pipeCfg)
	if err != nil {
		c.undecided("receiver", name, outPos2(fl.o, fl.fn), err)
		return nil
	}
	for _, o := range r.outs {
		pos := outPos2(o, r.fn)
		if !c.require(o.Kind == "ret", "receiver", name, pos, "the receiver returns") {
			continue
		}
		c.require(o.Res[0] == r.args[1], "unchanged", name, pos, "the batch is passed on unchanged")
		c.require(len(o.St.locks) == 0, "receiver", name, pos, "no lock is held on return")
		evs := o.Events()
		held := heldAt(evs)
		var ws []*Event
		bad := false
		for _, e := range evs {
			switch {
			case isWrite(e):
				if r.local(e.Recv) {
					continue
				}
				if fl.par && e.Kind == "st" && !r.lockedShared(held[e]) {
					c.fail("race", name, e.Pos, "%v is written without synchronisation although receivers of parallel nodes run concurrently", addrPath(e.Recv))
				}
				ws = append(ws, e)
			case e.Kind == "ld":
				if fl.par && r.sym[e.Recv] != nil && !r.lockedShared(held[e]) {
					c.fail("race", name, e.Pos, "%v is read without synchronisation although concurrent receivers write it", addrPath(e.Recv))
				}
			case e.Kind == "loop":
				for _, it := range e.Loop.Iters {
					if len(effects(it.Events)) > 0 {
						c.fail("receiver", name, e.Pos, "undecided: the receiver has a loop with effects")
						bad = true
					}
				}
			case e.Kind == "lock" || e.Kind == "unlock" || e.Kind == "rlock" || e.Kind == "runlock" || e.Kind == "atomic" || e.Kind == "defer" || e.Kind == "append" || e.Kind == "make":
			default:
				c.fail("receiver", name, e.Pos, "unexpected effect: %s %s", e.Kind, e.Name)
				bad = true
			}
		}
		if !bad {
			each(r, o, ws)
		}
	}
	return r
}

// heldValue is the value of the cell just before write w, read in the same
// critical section.
func heldValue(o *Outcome, r *rep, w *Event) *Term {
	var v *Term = r.sym[w.Recv]
	for _, e := range o.Events() {
		if e == w {
			return v
		}
		switch {
		case e.Kind == "ld" && e.Recv == w.Recv:
			v = e.Res
		case e.Kind == "lock" || e.Kind == "unlock" || e.Kind == "user" || e.Kind == "rlock" || e.Kind == "runlock":
			v = nil
		}
	}
	return nil
}

func emptyBatch(f *Facts, data *Term) bool {
	return f.Entails(mkEq(data, mkNil(data.Typ))) || f.Entails(eqInt(mkLen(data), mkInt(0)))
}

func (c *Ctx) ruleAppend() {
	name := "pipeline.Append"
	fn, args, outs := c.construct("append", name)
	if fn == nil {
		return
	}
	for _, o := range outs {
		for _, fl := range c.filters("append", name, o.Res[0], o.St) {
			fpos := outPos2(fl.o, fl.fn)
			for _, e := range effects(append(o.Events(), fl.o.Events()...)) {
				if isWrite(e) && e.Recv == args[0] {
					c.fail("append", name, e.Pos, "what the result held before is lost")
				}
			}
			if isNilFn(fl.recv) {
				c.fail("append", name, fpos, "the filter has no receiver")
				continue
			}
			c.receiverPaths(name, fl, func(r *rep, ro *Outcome, ws []*Event) {
				pos := outPos2(ro, r.fn)
				data := r.args[1]
				if len(ws) == 0 {
					c.require(emptyBatch(ro.St.facts, data), "append", name, pos, "only empty batches are not appended")
					return
				}
				w := ws[0]
				v := heldValue(ro, r, w)
				ok := len(ws) == 1 && w.Kind == "st" && w.Recv == args[0] && v != nil && w.Args[0].Op == "append" && w.Args[0].Args[0] == v && w.Args[0].Args[1] == data
				c.require(ok, "append", name, w.Pos, "all elements of the batch are appended to the result, once")
			})
			if !isNilFn(fl.fin) {
				c.noEffect("append", name, fl.fin, fl.o.St)
			}
		}
	}
}

func (c *Ctx) noEffect(rule, name string, cl *Term, st *State) {
	r, err := c.repeated(cl, st, pipeCfg)
	if err != nil {
		c.undecided(rule, name, 0, err)
		return
	}
	for _, o := range r.outs {
		c.require(o.Kind == "ret" && len(effects(o.Events())) == 0, rule, name, outPos2(o, r.fn), "the finalizer has no effect")
	}
}

func (c *Ctx) ruleCount() {
	name := "pipeline.Count"
	fn, args, outs := c.construct("count", name)
	if fn == nil {
		return
	}
	result := args[0]
	for _, o := range outs {
		for _, fl := range c.filters("count", name, o.Res[0], o.St) {
			fpos := outPos2(fl.o, fl.fn)
			f := fl.o.St.facts
			if v, ok := fl.o.St.mem[fl.size]; ok {
				c.require(v == fl.size0, "count", name, fpos, "the expected size is not changed")
			}
			if isNilFn(fl.recv) {
				ok := f.Entails(le(mkInt(0), fl.size0)) && fl.o.St.mem[result] == fl.size0 && isNilFn(fl.fin)
				c.require(ok, "count", name, fpos, "without looking at batches the result is the total size, which is known")
				continue
			}
			var acc *Term
			c.receiverPaths(name, fl, func(r *rep, ro *Outcome, ws []*Event) {
				pos := outPos2(ro, r.fn)
				data := r.args[1]
				if len(ws) == 0 {
					c.require(emptyBatch(ro.St.facts, data), "count", name, pos, "only empty batches are not counted")
					return
				}
				w := ws[0]
				if acc == nil {
					acc = w.Recv
				}
				ok := len(ws) == 1 && w.Recv == acc
				n := mkLen(data)
				switch {
				case w.Kind == "st":
					v := heldValue(ro, r, w)
					ok = ok && v != nil && sub(w.Args[0], v) == n
				case strings.HasPrefix(w.Name, "Add"):
					ok = ok && w.Args[0] == n
				default:
					ok = false
				}
				c.require(ok, "count", name, w.Pos, "the count grows by exactly the number of elements of the batch")
			})
			if acc == nil {
				c.fail("count", name, fpos, "no batch is counted")
				continue
			}
			init := fl.initOf(acc)
			k, isK := int64(-1), false
			if init != nil {
				k, isK = init.intConst()
			}
			c.require(isK && k == 0, "count", name, fpos, "counting starts at 0 when the run starts")
			if acc == result && isNilFn(fl.fin) {
				continue
			}
			s := fl.o.St.clone()
			s.ev, s.locks, s.tasks = nil, nil, nil
			total := freshSym("total", tyInt)
			s.mem[acc] = total
			ff := ssaFn(fl.fin)
			if ff == nil || fl.fin.Op != "closure" && fl.fin.Op != "func" {
				c.fail("count", name, fpos, "the count is never stored in the result")
				continue
			}
			an := c.analyze(ff, nil, closureBinds(fl.fin), s, pipeCfg)
			if an.Err != nil {
				c.undecided("count", name, ff.Pos(), an.Err)
				continue
			}
			for _, fo := range an.Outs {
				v := fo.St.mem[result]
				ok := fo.Kind == "ret" && v != nil
				if ok && v != total {
					ok = false
					for _, e := range fo.Events() {
						if (e.Kind == "ld" || e.Kind == "atomic" && strings.HasPrefix(e.Name, "Load")) && e.Recv == acc && e.Res == v {
							ok = true
						}
					}
				}
				c.require(ok, "count", name, outPos2(fo, ff), "the finalizer stores the whole count in the result")
			}
		}
	}
}

// ruleWrappers: Identity, Receive, Finalize, ReceiveAndFinalize.
func (c *Ctx) ruleWrappers() {
	is := func(name string, fl *filt, recv, fin *Term) {
		pos := outPos2(fl.o, fl.fn)
		same := func(got, want *Term) bool {
			if want == nil {
				return isNilFn(got)
			}
			return got == want
		}
		c.require(same(fl.recv, recv), "wrapper", name, pos, "the filter contributes exactly the given receiver")
		c.require(same(fl.fin, fin), "wrapper", name, pos, "the filter contributes exactly the given finalizer")
		for _, e := range effects(fl.o.Events()) {
			c.fail("wrapper", name, e.Pos, "unexpected effect when the filter is set up: %s %s", e.Kind, e.Name)
		}
		if v, ok := fl.o.St.mem[fl.size]; ok && v != fl.size0 {
			c.fail("wrapper", name, pos, "the expected size is changed")
		}
	}
	if fn := c.mustFn("pipeline.Identity"); fn != nil {
		for _, fl := range c.filters("wrapper", "pipeline.Identity", mk("func", fn.String(), fn.Signature, fn), newState()) {
			is("pipeline.Identity", fl, nil, nil)
		}
	}
	for _, n := range []string{"Receive", "Finalize", "ReceiveAndFinalize"} {
		name := "pipeline." + n
		fn, args, outs := c.construct("wrapper", name)
		if fn == nil {
			continue
		}
		for _, o := range outs {
			for _, fl := range c.filters("wrapper", name, o.Res[0], o.St) {
				switch n {
				case "Receive":
					is(name, fl, args[0], nil)
				case "Finalize":
					is(name, fl, nil, args[0])
				default:
					is(name, fl, args[0], args[1])
				}
			}
		}
	}
}

// ruleCompose: ComposeFilters calls each filter once, in order, and keeps what
// is not nil, in order.
func (c *Ctx) ruleCompose() {
	name := "pipeline.ComposeFilters"
	fn := c.mustFn(name)
	if fn == nil {
		return
	}
	args := ParamTerms(fn)
	an := c.analyze(fn, args, nil, nil, Config{})
	if an.Err != nil {
		c.undecided("compose", name, fn.Pos(), an.Err)
		return
	}
	for _, o := range an.Outs {
		pos := outPos2(o, fn)
		if !c.require(o.Kind == "ret", "compose", name, pos, "ComposeFilters returns") {
			continue
		}
		var loop *Event
		bad := false
		for _, e := range effects(o.Events()) {
			if e.Kind == "loop" && loop == nil {
				loop = e
				continue
			}
			bad = true
			c.fail("compose", name, e.Pos, "unexpected effect outside the loop over the filters: %s %s", e.Kind, e.Name)
		}
		if bad {
			continue
		}
		if loop == nil {
			c.require(o.St.facts.Entails(le(mkLen(args[3]), mkInt(0))) && isEmptyVal(o.Res[0]) && isEmptyVal(o.Res[1]), "compose", name, pos, "every filter is called")
			continue
		}
		L := loop.Loop
		idx, from, err := c.walk(L, args[3], o.St.facts, func(e *Event) bool { return e.Kind == "user" })
		if err != nil {
			c.fail("compose", name, loop.Pos, "%v", err)
			continue
		}
		_ = from
		// the accumulated slices
		for i, what := range []string{"receivers", "finalizers"} {
			v := L.Var(o.Res[i])
			if v == nil || !isEmptyVal(v.Init) {
				c.fail("compose", name, pos, "the %s returned are not those collected by the loop", what)
				continue
			}
			for _, it := range L.Iters {
				var call *Event
				n := 0
				for _, e := range effects(it.Events) {
					if e.Kind == "user" {
						call = e
						n++
					}
				}
				if n != 1 {
					c.fail("compose", name, loop.Pos, "each filter is called once")
					continue
				}
				b, x := elemOf(call.Recv)
				c.require(b == args[3] && x == idx, "compose", name, call.Pos, "the filters are called in order")
				c.require(len(call.Args) == 3 && call.Args[0] == args[0] && call.Args[1] == args[1] && call.Args[2] == args[2], "compose", name, call.Pos, "filters get the pipeline, the kind and the size")
				got := resultOf(call, i)
				nv := it.Next[v.Sym]
				isN := mkEq(got, mkNil(got.Typ))
				switch {
				case nv == v.Sym:
					c.require(it.St.facts.Entails(isN), "compose", name, call.Pos, "no filter's part of the %s is dropped", what)
				case nv.Op == "append" && nv.Args[0] == v.Sym && nv.Args[1].Op == "list" && len(nv.Args[1].Args) == 1 && nv.Args[1].Args[0] == got:
					c.require(it.St.facts.Decide(isN) < 0, "compose", name, call.Pos, "only %s that are not nil are kept", what)
				default:
					c.fail("compose", name, call.Pos, "the filter's part is not appended to the %s", what)
				}
			}
		}
	}
}

func isEmptyVal(t *Term) bool {
	if t == nil {
		return false
	}
	k, ok := mkLen(t).intConst()
	return ok && k == 0
}

// sameSlice tells whether two values are the same slice, possibly read twice
// from a place that the loop itself does not write.
func sameSlice(a, b *Term, L *Loop) bool {
	if a == b {
		return true
	}
	if Path(a) != Path(b) || a.Op != "load" && b.Op != "load" {
		return false
	}
	for _, it := range L.Iters {
		if hasEvent(it.Events, func(e *Event) bool { return e.Kind == "st" && addrPath(e.Recv) == Path(a) }) {
			return false
		}
	}
	return true
}

// lenCond tells whether something holds for the length of a slice.
func lenCond(f *Facts, s *Term, L *Loop, cond func(n *Term) *Term) bool {
	if f.Entails(cond(mkLen(s))) {
		return true
	}
	atoms := map[*Term]bool{}
	for _, x := range f.all() {
		deepAtoms(x.cond, atoms)
	}
	for a := range atoms {
		if a.Op == "len" && a.Args[0] != s && sameSlice(a.Args[0], s, L) && f.Entails(cond(a)) {
			return true
		}
	}
	return false
}

// walk checks that a loop walks the slice s from its first to its last
// element, one element per iteration, and returns the index of an iteration.
func (c *Ctx) walk(L *Loop, s *Term, exit *Facts, is func(e *Event) bool) (idx *Term, v *LoopVar, err error) {
	// the index used by the marked event of every iteration
	for _, it := range L.Iters {
		for _, e := range flat(it.Events) {
			if !is(e) {
				continue
			}
			b, x := elemOf(e.Recv)
			if b == nil || !sameSlice(b, s, L) || x == nil {
				return nil, nil, fmt.Errorf("%v is not an element of %v", e.Recv, s)
			}
			if idx != nil && idx != x {
				return nil, nil, fmt.Errorf("different elements on different paths")
			}
			idx = x
		}
	}
	if idx == nil {
		return nil, nil, fmt.Errorf("no element is used")
	}
	for _, w := range L.Vars {
		d, ok := sub(idx, w.Sym).intConst()
		if !isIntType(w.Sym.Typ) || !ok {
			continue
		}
		if k, ok := add(w.Init, mkInt(d)).intConst(); !ok || k != 0 {
			return nil, nil, fmt.Errorf("the walk does not start at the first element")
		}
		for _, it := range L.Iters {
			if it.Next[w.Sym] != addK(w.Sym, 1) {
				return nil, nil, fmt.Errorf("the walk does not go on to the next element")
			}
			if !lenCond(it.St.facts, s, L, func(n *Term) *Term { return lt(idx, n) }) {
				return nil, nil, fmt.Errorf("the walk may leave the slice")
			}
		}
		if exit != nil && !lenCond(exit, s, L, func(n *Term) *Term { return le(n, idx) }) {
			return nil, nil, fmt.Errorf("the walk may end before the last element")
		}
		return idx, w, nil
	}
	return nil, nil, fmt.Errorf("the index %v is not a loop variable", idx)
}

// ---- C28

func ruleLimitSkip(c *Ctx) {
	n := 0
	for _, name := range []string{"pipeline.Limit", "pipeline.Skip"} {
		fn, args, outs := c.construct("setup", name)
		if fn == nil {
			continue
		}
		for _, o := range outs {
			fls, err := c.orderedFilters(o)
			if err != nil {
				c.fail("ordered", name, outPos2(o, fn), "%v", err)
				continue
			}
			c.ok("ordered", name, "the filter is put in an ordered node")
			for _, cl := range fls {
				for _, fl := range c.filters("setup", name, cl, o.St) {
					n++
					c.limitSkip(name, args, fl)
				}
			}
		}
	}
	c.floor("filters", n, 2)
}

// orderedFilters lists the filters of the ordered node a constructor returns.
func (c *Ctx) orderedFilters(o *Outcome) ([]*Term, error) {
	nd := stripIface(o.Res[0])
	if nd.Op != "alloc" {
		return nil, fmt.Errorf("%v is not a new node", nd)
	}
	st := structOf(deref(nd.Typ))
	if st == nil {
		return nil, fmt.Errorf("%v is not a node", nd)
	}
	var fls []*Term
	kind := typeBase(deref(nd.Typ)) == "pipeline.strictordnode"
	for i := 0; i < st.NumFields(); i++ {
		fd := st.Field(i)
		v := o.St.load(mkFieldAddr(nd, i, fd.Name(), ptrTo(fd.Type())), fd.Type())
		if typeBase(fd.Type()) == "pipeline.NodeKind" && v == c.constOf("pipeline", "Ordered") {
			kind = true
		}
		if fd.Name() == "filters" {
			l := (&Interp{}).asList(o.St, v)
			if l == nil {
				return nil, fmt.Errorf("the filters of the node are not known")
			}
			fls = l.Args
		}
	}
	if !kind {
		return nil, fmt.Errorf("the filter depends on encounter order but its node is not ordered")
	}
	if len(fls) != 1 {
		return nil, fmt.Errorf("the node has %d filters", len(fls))
	}
	return fls, nil
}

func (c *Ctx) limitSkip(name string, args []*Term, fl *filt) {
	limit := name == "pipeline.Limit"
	N := args[0]
	f := fl.o.St.facts
	pos := outPos2(fl.o, fl.fn)
	S0 := fl.size0
	zero := mkInt(0)
	// expected size
	S1 := fl.o.St.load(fl.size, tyInt)
	type reg struct {
		cond []*Term
		want *Term
		text string
	}
	var regs []reg
	if limit {
		regs = []reg{
			{[]*Term{lt(N, zero)}, S0, "a negative limit leaves the size as it is"},
			{[]*Term{eqInt(N, zero)}, zero, "limit 0 leaves nothing"},
			{[]*Term{lt(zero, N), lt(S0, zero)}, S0, "an unknown size stays unknown"},
			{[]*Term{lt(zero, N), le(zero, S0), le(S0, N)}, S0, "a size within the limit stays the same"},
			{[]*Term{lt(zero, N), lt(N, S0)}, N, "a size above the limit becomes the limit"},
		}
	} else {
		regs = []reg{
			{[]*Term{lt(N, zero)}, zero, "nothing is passed for negative n"},
			{[]*Term{eqInt(N, zero)}, S0, "n = 0 leaves the size as it is"},
			{[]*Term{lt(zero, N), lt(S0, zero)}, S0, "an unknown size stays unknown"},
			{[]*Term{lt(zero, N), le(zero, S0), le(S0, N)}, zero, "nothing is left of up to n elements"},
			{[]*Term{lt(zero, N), lt(N, S0)}, sub(S0, N), "the size is reduced by n"},
		}
	}
	with := func(f *Facts, cs ...*Term) *Facts {
		for _, x := range cs {
			f = f.add(x, true)
		}
		return f
	}
	for _, r := range regs {
		if g := with(f, r.cond...); g.Feasible() {
			c.require(g.Entails(eqInt(S1, r.want)), "size", name, pos, "%s", r.text)
		}
	}
	// effects of the set-up
	asked := mkBool(false)
	if limit {
		asked = args[1]
	}
	errs, cancels := 0, 0
	for _, e := range effects(fl.o.Events()) {
		switch {
		case isCancel(e):
			cancels++
			g := with(f, mkNot(asked))
			c.require(limit && f.Entails(asked) && f.Entails(eqInt(N, zero)), "cancel", name, e.Pos, "set-up cancels the pipeline only for limit 0 and when asked for")
			_ = g
		case e.Kind == "seterr":
			errs++
			c.require(!limit && f.Entails(lt(N, zero)), "error", name, e.Pos, "an error is set only for a negative n of Skip")
			c.require(len(e.Args) == 1 && nonNil(f, e.Args[0]) && e.Recv == fl.p, "error", name, e.Pos, "the error is not nil and set on this pipeline")
		case isWrite(e) && (e.Recv == fl.size || rootOf(e.Recv).Op == "alloc"):
		case e.Kind == "ext":
		default:
			c.fail("setup", name, e.Pos, "unexpected effect: %s %s", e.Kind, e.Name)
		}
	}
	if limit {
		if g := with(f, eqInt(N, zero)).add(asked, true); g.Feasible() && f.Decide(asked) >= 0 {
			c.require(cancels > 0, "cancel", name, pos, "limit 0 cancels the pipeline when asked for")
		}
	} else if with(f, lt(N, zero)).Feasible() {
		c.require(errs > 0, "error", name, pos, "a negative n sets an error")
	}
	// the honest size
	G := freshSym("elements.before", tyInt)
	if isNilFn(fl.recv) {
		var ok bool
		if limit {
			ok = f.Entails(lt(N, zero)) || f.Entails(le(S0, N)) && f.Entails(le(zero, S0))
			if !ok { // any mixture of the two
				g := with(f, le(zero, N))
				ok = g.Entails(le(S0, N)) && g.Entails(le(zero, S0))
			}
		} else {
			ok = f.Entails(eqInt(N, zero))
		}
		c.require(ok, "elements", name, pos, "batches are passed on as they are only if all elements may pass")
		return
	}
	// only what is found with the inductive relations is handed on
	handOn := c.onAnalysis
	c.onAnalysis = nil
	defer func() { c.onAnalysis = handOn }()
	r, err := c.repeated(fl.recv, fl.o.St, pipeCfg)
	if err != nil {
		c.undecided("elements", name, pos, err)
		return
	}
	data := r.args[1]
	L := mkLen(data)
	base := with(f, le(zero, G), le(zero, L))
	if f.Entails(le(zero, S0)) {
		base = with(base, le(add(G, L), S0))
	}
	// two modes: before and after N elements
	mode := func(m int, g *Term) *Term {
		if m == 0 {
			return lt(g, N)
		}
		return le(N, g)
	}
	var cand [2][]*Term
	for m := 0; m < 2; m++ {
		for _, a := range r.cells {
			v := r.sym[a]
			if v.Typ != nil && isBoolType(v.Typ) {
				cand[m] = append(cand[m], v, mkNot(v))
				continue
			}
			if !isIntType(v.Typ) {
				continue
			}
			for _, x := range []*Term{G, N, sub(N, G), zero} {
				cand[m] = append(cand[m], le(v, x), le(x, v))
			}
			cand[m] = append(cand[m], lt(v, N), lt(zero, v))
		}
	}
	// initially
	for m := 0; m < 2; m++ {
		f0 := with(f, mode(m, zero))
		if !f0.Feasible() {
			continue
		}
		mp := map[*Term]*Term{G: zero}
		for _, a := range r.cells {
			mp[r.sym[a]] = r.init[a]
		}
		var keep []*Term
		for _, x := range cand[m] {
			if f0.Entails(subst(x, mp)) {
				keep = append(keep, x)
			}
		}
		cand[m] = keep
	}
	var outs [2][]*Outcome
	for pass := 0; pass < 40; pass++ {
		ch := false
		for m := 0; m < 2; m++ {
			fm := with(with(base, mode(m, G)), cand[m]...)
			outs[m] = nil
			if !fm.Feasible() {
				continue
			}
			if err := c.rerun(r, fl.recv, fm, pipeCfg); err != nil {
				c.undecided("elements", name, pos, err)
				return
			}
			outs[m] = r.outs
			for _, o := range r.outs {
				mp := map[*Term]*Term{G: add(G, L)}
				for _, a := range r.cells {
					v, ok := o.St.mem[a]
					if !ok {
						v = freshSym("unknown", r.sym[a].Typ)
					}
					mp[r.sym[a]] = v
				}
				for m2 := 0; m2 < 2; m2++ {
					f2 := with(o.St.facts, mode(m2, add(G, L)))
					if !f2.Feasible() {
						continue
					}
					var keep []*Term
					for _, x := range cand[m2] {
						if f2.Entails(subst(x, mp)) {
							keep = append(keep, x)
						}
					}
					if len(keep) != len(cand[m2]) {
						cand[m2] = keep
						ch = true
					}
				}
			}
		}
		if !ch {
			break
		}
	}
	if handOn != nil {
		handOn(&Analysis{Fn: r.fn, Name: shortFn(r.fn), Args: r.args, Outs: append(append([]*Outcome(nil), outs[0]...), outs[1]...)})
	}
	for m := 0; m < 2; m++ {
		for _, o := range outs[m] {
			rp := outPos2(o, r.fn)
			if !c.require(o.Kind == "ret", "elements", name, rp, "the receiver returns") {
				continue
			}
			R := o.Res[0]
			var lo, hi *Term
			s := asSlice(R)
			if s.Args[0] == data {
				lo, hi = s.Args[1], s.Args[2]
			} else {
				if k, ok := mkLen(R).intConst(); ok && k == 0 {
					lo, hi = zero, zero
				}
			}
			of := o.St.facts
			exact := func(f *Facts, a, b *Term, what string) {
				if !f.Feasible() {
					return
				}
				if lo == nil {
					c.fail("elements", name, rp, "the batch passed on is not a part of the batch received")
					return
				}
				ok := f.Entails(eqInt(a, lo)) && f.Entails(eqInt(b, hi)) || f.Entails(eqInt(a, b)) && f.Entails(eqInt(lo, hi))
				c.require(ok, "elements", name, rp, "%s", what)
			}
			neg, nonneg := lt(N, zero), le(zero, N)
			if limit {
				exact(with(of, neg), zero, L, "a negative limit passes everything")
				if m == 0 {
					exact(with(of, nonneg, le(add(G, L), N)), zero, L, "a batch within the limit is passed on whole")
					exact(with(of, nonneg, lt(N, add(G, L))), zero, sub(N, G), "of the batch that crosses the limit exactly the first elements are passed on")
				} else {
					exact(with(of, nonneg), zero, zero, "nothing is passed on beyond the limit")
				}
			} else {
				exact(with(of, neg), zero, zero, "nothing is passed on for negative n")
				if m == 0 {
					exact(with(of, nonneg, le(add(G, L), N)), zero, zero, "a batch within the first n elements is dropped")
					exact(with(of, nonneg, lt(N, add(G, L))), sub(N, G), L, "of the batch that crosses n exactly the last elements are passed on")
				} else {
					exact(with(of, nonneg), zero, L, "after n elements batches are passed on whole")
				}
			}
			nc := 0
			for _, e := range effects(o.Events()) {
				switch {
				case isCancel(e):
					nc++
				case isWrite(e) && (rootOf(e.Recv).Op == "alloc"):
				case isWrite(e) || e.Kind != "lock" && e.Kind != "unlock" && e.Kind != "atomic":
					c.fail("elements", name, e.Pos, "unexpected effect: %s %s", e.Kind, e.Name)
				}
			}
			reached := with(of, le(N, add(G, L)), nonneg)
			notReached := with(of, lt(add(G, L), N))
			if nc > 0 {
				c.require(of.Entails(asked) && (!notReached.Feasible()) && limit, "cancel", name, rp, "the pipeline is cancelled only when asked for and when the limit is reached")
			} else if m == 0 && limit && reached.Feasible() && of.Decide(asked) >= 0 {
				c.fail("cancel", name, rp, "the pipeline is not cancelled although asked for and the limit is reached")
			}
		}
	}
	c.ok("elements", name, "%d receiver states examined", len(outs[0])+len(outs[1]))
}

func nonNil(f *Facts, t *Term) bool {
	if neverNil(t) || f.Decide(mkEq(t, mkNil(t.Typ))) < 0 {
		return true
	}
	if t.Op == "ext" && (strings.HasPrefix(t.Aux, "errors.New") || strings.HasPrefix(t.Aux, "fmt.Errorf")) {
		return true
	}
	if t.Op == "mkiface" {
		return true
	}
	// a package-level error variable
	return t.Op == "load" && t.Args[0].Op == "global"
}

func init() {
	register("C28", "the receivers of Limit and Skip are analysed with a counter of the elements seen so far and inductive relations between it and their own state; every path passes on exactly the part of the batch the counter prescribes, and the expected size is adjusted case by case", ruleLimitSkip,
		"ordered nodes call receivers one at a time in encounter order (C20, C21)", "a non-negative expected size is the exact number of elements")
	register("C29", "for every node kind, every path of the quantifiers' receivers calls the predicate once and records exactly the decisive batches (atomically or under a shared lock where receivers run concurrently); the finalizer maps what was recorded to the quantifier", ruleQuantifiers,
		"finalizers run after all receivers (C22)")
	register("C30", "every path of the receivers of Append and Count adds exactly the batch to the accumulated value in one critical section or atomically; wrappers return exactly their functions; ComposeFilters is one ordered walk that keeps exactly the non-nil parts", ruleCollect,
		"finalizers run after all receivers (C22)", "a non-negative expected size is the exact number of elements")
}
