package main

// Contracts of package parallel, used when its callers are analysed. They are
// what C01-C06 establish for package parallel itself: Do, And and Or run all
// functions, possibly at the same time, and wait for all of them; Range runs
// its body on consecutive, disjoint sub-ranges that cover the range, possibly
// at the same time, and waits for all of them.

import (
	"fmt"
	"go/types"
	"strings"
)

const parPkg = modulePath + "/parallel."

func parContract(in *Interp, ci *CallInfo, st *State) ([]*Outcome, bool) {
	if ci.Kind != "static" || !strings.HasPrefix(ci.Name, parPkg) {
		return nil, false
	}
	// package parallel itself only uses the contracts of its own exported
	// functions when the caller asks for it by using parContract
	switch strings.TrimPrefix(ci.Name, parPkg) {
	case "Do", "And", "Or":
		l := in.asList(st, ci.Args[0])
		if l == nil {
			in.fail("%s is called with a list of functions the analysis cannot enumerate", ci.Name)
		}
		return in.parDo(st, ci, l.Args), true
	case "Range":
		return in.parRange(st, ci), true
	}
	return nil, false
}

func (in *Interp) parDo(st *State, ci *CallInfo, fns []*Term) []*Outcome {
	fr := &frame{fn: ci.Caller}
	op := strings.TrimPrefix(ci.Name, parPkg)
	ev := in.event(fr, st, &Event{Kind: "pardo", Name: op, Pos: sitePos(ci.Site), Args: fns})
	base := len(st.tasks)
	for _, f := range fns {
		c2 := *ci
		c2.Args = nil
		c2.Sig = types.NewSignatureType(nil, nil, nil, nil, resTuple(op), false)
		setCallee(&c2, f)
		in.spawn(fr, st, &c2)
	}
	type comb struct {
		s   *State
		res []*Term
		sub []*Outcome
	}
	cur := []comb{{s: st}}
	for i := range fns {
		var next []comb
		for _, c := range cur {
			tr := c.s.tasks[base+i]
			for _, o := range tr.T.Outs {
				if o.Kind != "ret" {
					continue // rethrown: C04
				}
				n := c.s.clone()
				nt := &TaskRef{T: tr.T, Joined: o, Mark: tr.Mark}
				n.tasks[base+i] = nt
				if !joinTask(n, tr.T, o, false) {
					continue
				}
				in.event(fr, n, &Event{Kind: "join", Name: op, Pos: ev.Pos, Task: tr.T, Out: o})
				nt.JoinAt = n.ev.n
				nc := comb{s: n, res: append([]*Term{}, c.res...), sub: append(append([]*Outcome{}, c.sub...), o)}
				nc.res = append(nc.res, o.Res...)
				next = append(next, nc)
			}
		}
		cur = next
		if len(cur) > in.cfg.MaxOuts {
			in.fail("too many paths through parallel tasks in %s", ci.Caller)
		}
	}
	var outs []*Outcome
	for _, c := range cur {
		o := &Outcome{Kind: "ret", St: c.s}
		if op != "Do" {
			o.Res = []*Term{boolFold(op == "And", c.res)}
		}
		outs = append(outs, o)
	}
	// a panic of any function is rethrown after all have terminated
	for i := range fns {
		for _, o := range st.tasks[base+i].T.Outs {
			if o.Kind == "panic" {
				n := st.clone()
				n.havoc()
				n.tasks = n.tasks[:base]
				outs = append(outs, &Outcome{Kind: "panic", St: n, PV: o.PV})
			}
		}
	}
	if len(outs) == 0 {
		return []*Outcome{{Kind: "stop", St: st}}
	}
	return outs
}

func resTuple(op string) *types.Tuple {
	if op == "Do" {
		return nil
	}
	return types.NewTuple(types.NewVar(0, nil, "", tyBool))
}

func boolFold(and bool, ts []*Term) *Term {
	var l []*Term
	for _, t := range ts {
		if and && isFalse(t) || !and && isTrue(t) {
			return t
		}
		if and && isTrue(t) || !and && isFalse(t) {
			continue
		}
		l = append(l, t)
	}
	switch len(l) {
	case 0:
		return mkBool(and)
	case 1:
		return l[0]
	}
	op := "bor"
	if and {
		op = "band"
	}
	return mk(op, "", tyBool, nil, l...)
}

// parRange analyses the body once, for an arbitrary sub-range.
func (in *Interp) parRange(st *State, ci *CallInfo) []*Outcome {
	fr := &frame{fn: ci.Caller}
	low, high, n, f := ci.Args[0], ci.Args[1], ci.Args[2], ci.Args[3]
	taskCounter++
	t := &Task{ID: taskCounter}
	ts := st.clone()
	ts.ev, ts.tasks, ts.locks = nil, nil, nil
	lo, hi := freshSym("batch.low", tyInt), freshSym("batch.high", tyInt)
	for _, c := range []*Term{le(low, lo), le(lo, hi), le(hi, high), le(low, high)} {
		ts.facts = ts.facts.add(c, true)
	}
	t.Start = ts.clone()
	ev := in.event(fr, st, &Event{Kind: "parrange", Pos: sitePos(ci.Site), Task: t, Args: []*Term{low, high, n, lo, hi}})
	t.Go = ev
	c2 := *ci
	c2.Args = []*Term{lo, hi}
	c2.Sig = types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "low", tyInt), types.NewVar(0, nil, "high", tyInt)), nil, false)
	setCallee(&c2, f)
	if c2.Kind == "user" {
		in.fail("the body of %s is not known", ci.Name)
	}
	t.Outs = in.invoke(fr, ts, &c2, nil)
	for _, o := range t.Outs {
		if o.St.heap != t.Start.heap {
			st.havoc()
		}
		for c, v := range o.St.class {
			if t.Start.class[c] != v {
				st.class[c] = nextVer()
			}
		}
		for a := range o.St.esc {
			if t.Start.allocs[a] || st.allocs[a] {
				st.esc[a] = true
			}
		}
		for a, v := range t.Start.mem {
			if o.St.mem[a] == v {
				continue
			}
			if a.Op == "alloc" {
				st.mem[a] = freshSym("after.range", cellType(a))
			} else {
				delete(st.mem, a)
			}
		}
	}
	st.facts = st.facts.add(le(low, high), true)
	return []*Outcome{{Kind: "ret", St: st}}
}

var _ = fmt.Sprint
