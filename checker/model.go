package main

// Models of the synchronisation primitives of the standard library.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

func lockID(t *Term) string {
	// identify a mutex by the path to it, whether it is held by value or
	// through a pointer or a Locker interface
	if t.Op == "mkiface" {
		t = t.Args[0]
	}
	return strings.TrimPrefix(Path(t), "&")
}

func (s *State) lock(id string) { s.locks = append(s.locks, id) }

func (s *State) unlock(id string) bool {
	for i := len(s.locks) - 1; i >= 0; i-- {
		if s.locks[i] == id {
			s.locks = append(append([]string{}, s.locks[:i]...), s.locks[i+1:]...)
			return true
		}
	}
	return false
}

func (in *Interp) model(fr *frame, st *State, ci *CallInfo) ([]*Outcome, bool) {
	ret := func(t ...*Term) ([]*Outcome, bool) { return []*Outcome{{Kind: "ret", St: st, Res: t}}, true }
	pos := sitePos(ci.Site)
	simple := func(kind string, recv *Term, args ...*Term) *Event {
		return in.event(fr, st, &Event{Kind: kind, Name: ci.Name, Pos: pos, Recv: recv, Args: args, Defer: ci.Deferd})
	}
	if ci.Kind == "invoke" {
		rt := typeBase(ci.Recv.Typ)
		if ci.Recv.Typ == nil && ci.Method != nil {
			if r := ci.Method.Type().(*types.Signature).Recv(); r != nil {
				rt = typeBase(r.Type())
			}
		}
		switch rt + "." + ci.Name {
		case "sync.Locker.Lock":
			return in.doLock(fr, st, ci, ci.Recv, "lock", "")
		case "sync.Locker.Unlock":
			return in.doUnlock(fr, st, ci, ci.Recv, "unlock", "")
		case "context.Context.Done":
			return ret(mk("ctxdone", "", ci.Sig.Results().At(0).Type(), nil, ci.Recv))
		case "context.Context.Err":
			ev := simple("ctxerr", ci.Recv)
			t := mk("ctxerr", fmt.Sprint(ev.ID), ci.Sig.Results().At(0).Type(), ev, ci.Recv)
			ev.Res = t
			return ret(t)
		case "context.Context.Value":
			return ret(mk("ctxvalue", "", nil, nil, ci.Recv, ci.Args[0]))
		}
		return nil, false
	}
	if ci.Kind != "static" {
		return nil, false
	}
	switch ci.Name {
	case "(*sync.WaitGroup).Add":
		w := ci.Args[0]
		st.wg[w] = linAdd(wgOf(st, w), toLin(ci.Args[1]), 1)
		simple("wgadd", w, ci.Args[1])
		return ret()
	case "(*sync.WaitGroup).Done":
		w := ci.Args[0]
		st.wg[w] = linAdd(wgOf(st, w), &Lin{k: 1}, -1)
		simple("wgdone", w)
		return ret()
	case "(*sync.WaitGroup).Go":
		w := ci.Args[0]
		st.wg[w] = linAdd(wgOf(st, w), &Lin{k: 1}, 1)
		simple("wgadd", w, mkInt(1))
		in.spawnWG(fr, st, ci, w)
		return ret()
	case "(*sync.WaitGroup).Wait":
		return in.wgWait(fr, st, ci), true
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return in.doLock(fr, st, ci, ci.Args[0], "lock", "")
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return in.doUnlock(fr, st, ci, ci.Args[0], "unlock", "")
	case "(*sync.RWMutex).RLock":
		return in.doLock(fr, st, ci, ci.Args[0], "rlock", "r:")
	case "(*sync.RWMutex).RUnlock":
		return in.doUnlock(fr, st, ci, ci.Args[0], "runlock", "r:")
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		s2 := st.clone()
		in.event(fr, s2, &Event{Kind: "trylock", Pos: pos, Recv: ci.Args[0]})
		outs, _ := in.doLock(fr, st, ci, ci.Args[0], "lock", "")
		outs[0].Res = []*Term{mkBool(true)}
		return append(outs, &Outcome{Kind: "ret", St: s2, Res: []*Term{mkBool(false)}}), true
	case "(*sync.Cond).Wait":
		simple("condwait", ci.Args[0])
		st.havoc()
		return ret()
	case "(*sync.Cond).Broadcast":
		simple("bcast", ci.Args[0])
		return ret()
	case "(*sync.Cond).Signal":
		simple("signal", ci.Args[0])
		return ret()
	case "(*sync.Once).Do":
		ev := simple("once", ci.Args[0], ci.Args[1])
		_ = ev
		s2 := st.clone()
		f := ci.Args[1]
		ci2 := *ci
		ci2.Args = nil
		ci2.Sig = types.NewSignatureType(nil, nil, nil, nil, nil, false)
		ci2.Deferd = false
		setCallee(&ci2, f)
		outs := in.invoke(fr, st, &ci2, nil)
		in.event(fr, s2, &Event{Kind: "onceskip", Pos: pos, Recv: ci.Args[0]})
		return append(outs, &Outcome{Kind: "ret", St: s2}), true
	case "runtime.NumCPU":
		simple("ext", nil)
		return ret(mk("numcpu", "", tyInt, nil))
	case "slices.Clone", "bytes.Clone", "strings.Clone":
		ev := simple("ext", nil, ci.Args...)
		t := mk("clone", fmt.Sprint(ev.ID), ci.Args[0].Typ, ev, ci.Args[0])
		if rs := ci.Sig.Results(); rs.Len() == 1 {
			if _, tp := rs.At(0).Type().(*types.TypeParam); !tp {
				t.Typ = rs.At(0).Type()
			}
		}
		ev.Res = t
		return ret(t)
	}
	if strings.HasPrefix(ci.Name, "sync/atomic.") || strings.HasPrefix(ci.Name, "(*sync/atomic.") {
		op := ci.Name[strings.LastIndexByte(ci.Name, '.')+1:]
		a := ci.Args[0]
		ev := in.event(fr, st, &Event{Kind: "atomic", Name: op, Pos: pos, Recv: a, Args: ci.Args[1:], Atomic: true})
		if len(ci.Args) > 1 {
			ev.St = st.clone()
		}
		var res []*Term
		for i := 0; i < ci.Sig.Results().Len(); i++ {
			res = append(res, mk("res", fmt.Sprintf("%d.%d", ev.ID, i), ci.Sig.Results().At(i).Type(), ev))
		}
		if len(res) > 0 {
			ev.Res = res[0]
		}
		if !strings.HasPrefix(op, "Load") {
			for _, x := range ci.Args[1:] {
				st.escape(x)
			}
			delete(st.mem, a)
			st.class[classOf(a)] = nextVer()
		}
		return ret(res...)
	}
	return nil, false
}

func setCallee(ci *CallInfo, f *Term) {
	switch f.Op {
	case "func":
		ci.Kind = "static"
		ci.Fn = ssaFn(f)
		ci.Name = fullName(ci.Fn)
	case "closure":
		ci.Kind = "closure"
		ci.Fn = ssaFn(f)
		ci.Name = fullName(ci.Fn)
	default:
		ci.Kind = "user"
		ci.Name = Path(f)
	}
	ci.FnTerm = f
}

func wgOf(st *State, w *Term) *Lin {
	if l := st.wg[w]; l != nil {
		return l
	}
	return &Lin{}
}

func (in *Interp) doLock(fr *frame, st *State, ci *CallInfo, m *Term, kind, pre string) ([]*Outcome, bool) {
	id := pre + lockID(m)
	held := false
	for _, l := range st.locks {
		if l == id || l == "r:"+id || "r:"+l == id {
			held = true
		}
	}
	ev := in.event(fr, st, &Event{Kind: kind, Name: id, Pos: sitePos(ci.Site), Recv: m, Defer: ci.Deferd})
	if held {
		in.event(fr, st, &Event{Kind: "selfdeadlock", Name: id, Pos: ev.Pos, Recv: m})
	}
	st.lock(id)
	st.havoc()
	return []*Outcome{{Kind: "ret", St: st}}, true
}

func (in *Interp) doUnlock(fr *frame, st *State, ci *CallInfo, m *Term, kind, pre string) ([]*Outcome, bool) {
	id := pre + lockID(m)
	if !st.unlock(id) {
		in.event(fr, st, &Event{Kind: "badunlock", Name: id, Pos: sitePos(ci.Site), Recv: m})
	}
	in.event(fr, st, &Event{Kind: kind, Name: id, Pos: sitePos(ci.Site), Recv: m, Defer: ci.Deferd})
	return []*Outcome{{Kind: "ret", St: st}}, true
}

// spawnWG models WaitGroup.Go.
func (in *Interp) spawnWG(fr *frame, st *State, ci *CallInfo, w *Term) {
	ci2 := *ci
	ci2.Args = nil
	ci2.Sig = types.NewSignatureType(nil, nil, nil, nil, nil, false)
	setCallee(&ci2, ci.Args[1])
	t := in.spawn(fr, st, &ci2)
	for _, o := range t.Outs {
		o.St.wg[w] = linAdd(wgOf(o.St, w), &Lin{k: 1}, -1)
		in.event(fr, o.St, &Event{Kind: "wgdone", Pos: sitePos(ci.Site), Recv: w})
	}
}

// dones counts how often a task outcome signals the wait group.
func dones(o *Outcome, w *Term) int {
	n := 0
	for _, e := range o.Events() {
		if e.Kind == "wgdone" && e.Recv == w {
			n++
		}
	}
	return n
}

func (in *Interp) wgWait(fr *frame, st *State, ci *CallInfo) []*Outcome {
	return in.waitFor(fr, st, ci.Args[0], sitePos(ci.Site), ci.Deferd)
}

func (in *Interp) waitFor(fr *frame, st *State, w *Term, pos token.Pos, deferd bool) []*Outcome {
	ev := in.event(fr, st, &Event{Kind: "wgwait", Pos: pos, Recv: w, Defer: deferd})
	if st.wgUnk[w] {
		ev.Name = "unknown"
	}
	// the tasks that signal w on every path
	var pend []int
	total := 0
	okAll := true
	for i, tr := range st.tasks {
		if tr.Joined != nil {
			continue
		}
		n := -1
		for _, o := range tr.T.Outs {
			d := dones(o, w)
			if n < 0 {
				n = d
			} else if n != d {
				okAll = false
			}
		}
		if n > 0 {
			pend = append(pend, i)
			total += n
		}
	}
	cnt := wgOf(st, w)
	k, isConst := linTerm(cnt).intConst()
	// already joined tasks have reduced the counter: joins subtract below
	if !isConst || !okAll {
		if len(pend) > 0 || !okAll {
			ev.Name = "unmatched"
			st.havoc()
		} else if !isConst {
			// waiting for goroutines started elsewhere
			st.havoc()
		}
		return []*Outcome{{Kind: "ret", St: st}}
	}
	if int(k) > total {
		if len(st.tasks) > 0 || localWG(w) {
			ev.Name = "deadlock"
		}
		st.havoc()
		if !localWG(w) {
			return []*Outcome{{Kind: "ret", St: st}}
		}
		return []*Outcome{{Kind: "stop", St: st}}
	}
	if int(k) < total {
		ev.Name = "early"
		return []*Outcome{{Kind: "ret", St: st}}
	}
	if len(pend) == 0 && !localWG(w) {
		st.havoc()
	}
	states := []*State{st}
	for _, i := range pend {
		var next []*State
		for _, s := range states {
			tr := s.tasks[i]
			for _, o := range tr.T.Outs {
				n := s.clone()
				nt := &TaskRef{T: tr.T, Joined: o, Mark: tr.Mark}
				n.tasks[i] = nt
				if !joinState(n, tr.T, o) {
					continue
				}
				n.wg[w] = linAdd(wgOf(n, w), &Lin{k: int64(dones(o, w))}, -1)
				e := in.event(fr, n, &Event{Kind: "join", Pos: ev.Pos, Recv: w, Task: tr.T, Out: o})
				nt.JoinAt = n.ev.n
				_ = e
				next = append(next, n)
			}
		}
		states = next
	}
	var outs []*Outcome
	for _, s := range states {
		outs = append(outs, &Outcome{Kind: "ret", St: s})
	}
	return outs
}

// joinState merges the effects of a finished task into the state of the
// goroutine that waited for it.
func joinState(s *State, t *Task, o *Outcome) bool { return joinTask(s, t, o, true) }

func joinTask(s *State, t *Task, o *Outcome, signalled bool) bool {
	if o.St.heap != t.Start.heap {
		s.havoc()
	}
	for c, v := range o.St.class {
		if t.Start.class[c] != v {
			s.class[c] = nextVer()
			_ = c
		}
	}
	// writes after the signal are not ordered before the wait
	lateCells := map[*Term]bool{}
	evs := o.Events()
	last := -1
	for i, e := range evs {
		if e.Kind == "wgdone" {
			last = i
		}
	}
	for i, e := range evs {
		if i > last && e.Kind == "st" && signalled {
			lateCells[e.Recv] = true
		}
	}
	for a, v := range o.St.mem {
		if t.Start.mem[a] != v {
			if lateCells[a] {
				delete(s.mem, a)
				s.class[classOf(a)] = nextVer()
				continue
			}
			s.mem[a] = v
		}
	}
	for a := range t.Start.mem {
		if _, ok := o.St.mem[a]; !ok {
			delete(s.mem, a)
		}
	}
	for a := range o.St.esc {
		s.esc[a] = true
	}
	s.facts = s.facts.merge(o.St.facts)
	return s.facts.Feasible()
}
