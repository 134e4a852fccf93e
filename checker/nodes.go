package main

// How the nodes of a pipeline treat batches: an automaton that follows one
// goroutine over the abstract paths of Begin, Feed and the goroutines they
// start. C19-C24 and C33 read its findings.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// nodeContract replaces ComposeFilters (decided by C30) and FeedForward
// (decided by C19) by events.
func nodeContract(in *Interp, ci *CallInfo, st *State) ([]*Outcome, bool) {
	if outs, ok := pipeContract(in, ci, st); ok {
		return outs, ok
	}
	if ci.Kind != "static" {
		return nil, false
	}
	fr := &frame{fn: ci.Caller}
	switch {
	case strings.HasPrefix(ci.Name, pipePkg+"ComposeFilters"):
		ev := in.event(fr, st, &Event{Kind: "compose", Pos: sitePos(ci.Site), Args: ci.Args})
		var res []*Term
		for i := 0; i < ci.Sig.Results().Len(); i++ {
			res = append(res, mk("res", fmt.Sprintf("%d.%d", ev.ID, i), ci.Sig.Results().At(i).Type(), ev))
		}
		if len(res) > 0 {
			ev.Res = res[0]
		}
		st.havoc()
		return []*Outcome{{Kind: "ret", St: st, Res: res}}, true
	case strings.HasPrefix(ci.Name, "(*"+pipePkg+"Pipeline[") && strings.HasSuffix(ci.Name, ".FeedForward"):
		in.event(fr, st, &Event{Kind: "forward", Pos: sitePos(ci.Site), Recv: ci.Args[0], Args: ci.Args[1:]})
		st.havoc()
		return []*Outcome{{Kind: "ret", St: st}}, true
	}
	return nil, false
}

var nodeCfg = Config{Contract: nodeContract, SpawnHavoc: true}

// nodeModel is a kind of node that runs receivers.
type nodeModel struct {
	t     *nodeType
	begin *Analysis
	feed  *Analysis
	end   *Analysis
	// names of fields by role
	receivers, finalizers, filters, channel, wg, cond, run string
	channelType                                            types.Type
	fi, fs, fd                                             int // fields of what is sent: index, number, data
	mapped                                                 bool
	aliases                                                map[string]bool // paths of the lock, without the node
	vars                                                   []*variant
}

// variant is one setting of the fields that select a node's behaviour.
type variant struct {
	name    string
	set     map[string]*Term // field -> value, for fields with a known value
	ordered bool             // batches must be processed, or started, in order
	serial  bool             // one batch at a time
	limited bool
	cond    bool // has its condition variable before it begins
}

type tokenErr struct {
	prop, rule, name string
	ok               bool
	pos              token.Pos
	msg              string
}

func (c *Ctx) emit(log []tokenErr) {
	for _, x := range log {
		if x.prop != c.Prop {
			continue
		}
		if x.ok {
			c.ok(x.rule, x.name, "%s", x.msg)
		} else {
			c.fail(x.rule, x.name, x.pos, "%s", x.msg)
		}
	}
}

func fieldOfType(st *types.Struct, is func(t types.Type) bool) string {
	for i := 0; i < st.NumFields(); i++ {
		if is(st.Field(i).Type()) {
			return st.Field(i).Name()
		}
	}
	return ""
}

func sliceOf(base string) func(t types.Type) bool {
	return func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && typeBase(s.Elem()) == base
	}
}

// nodeModels finds the node types that run receivers, and their variants.
func (c *Ctx) nodeModels(rule string) []*nodeModel {
	var r []*nodeModel
	for _, t := range c.nodeTypes() {
		st, _ := t.named.Underlying().(*types.Struct)
		if st == nil || fieldOfType(st, sliceOf("pipeline.Receiver")) == "" {
			continue
		}
		m := &nodeModel{t: t, aliases: map[string]bool{}}
		m.receivers = fieldOfType(st, sliceOf("pipeline.Receiver"))
		m.finalizers = fieldOfType(st, sliceOf("pipeline.Finalizer"))
		m.filters = fieldOfType(st, sliceOf("pipeline.Filter"))
		m.channel = fieldOfType(st, func(t types.Type) bool {
			_, ok := t.Underlying().(*types.Chan)
			return ok && !isSignalType(t)
		})
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); f.Name() == m.channel {
				m.channelType = f.Type()
			}
		}
		m.wg = fieldOfType(st, func(t types.Type) bool { return typeBase(t) == "sync.WaitGroup" })
		if m.wg == "" {
			m.wg = fieldOfType(st, isSignalType)
		}
		m.cond = fieldOfType(st, func(t types.Type) bool {
			p, ok := t.Underlying().(*types.Pointer)
			return ok && typeBase(p.Elem()) == "sync.Cond" || typeBase(t) == "sync.Cond"
		})
		name := "pipeline." + t.name
		an := map[string]*Analysis{}
		for _, mn := range []string{"Begin", "Feed", "End"} {
			fn := t.m[mn]
			if fn == nil || len(fn.Blocks) == 0 {
				c.fail(rule, name, 0, "%s is not known", mn)
				continue
			}
			a := c.analyze(fn, nil, nil, c.nodeState(fn, st), nodeCfg)
			if a.Err != nil {
				c.undecided(rule, name+"."+mn, fn.Pos(), a.Err)
				continue
			}
			an[mn] = a
		}
		if len(an) != 3 {
			continue
		}
		m.begin, m.feed, m.end = an["Begin"], an["Feed"], an["End"]
		m.begin.Outs = split(m.begin.Outs)
		// the counter: an integer that changes while batches flow
		for _, a := range []*Analysis{m.begin, m.feed} {
			self := Path(a.Args[0])
			for _, o := range a.Outs {
				for _, e := range deepFlat(o.Events()) {
					if e.Kind == "st" && isIntType(deref(e.Recv.Typ)) && typeBase(deref(e.Recv.Typ)) == "int" {
						if p := addrPath(e.Recv); strings.HasPrefix(p, self+".") {
							if n := p[len(self)+1:]; !strings.Contains(n, ".") && (a == m.feed || m.run == "") {
								m.run = n
							}
						}
					}
					if e.Kind == "st" && m.cond != "" && addrPath(e.Recv) == self+"."+m.cond {
						m.alias(e.Args[0], self)
					}
				}
			}
		}
		if m.cond != "" {
			m.aliases["."+m.cond+".L"] = true
		}
		m.mapBatch(c, rule)
		c.variants(rule, m)
		r = append(r, m)
	}
	return r
}

// alias recognises that a new condition variable's lock is a field.
func (m *nodeModel) alias(v *Term, self string) {
	for _, a := range v.Args {
		a = stripIface(a)
		if p := addrPath(a); a.Op == "fieldaddr" && strings.HasPrefix(p, self+".") {
			m.aliases[p[len(self):]] = true
		}
	}
}

// mapBatch finds which parts of what Feed sends are the index, the number and
// the data.
func (m *nodeModel) mapBatch(c *Ctx, rule string) {
	a := m.feed
	for _, o := range a.Outs {
		for _, e := range deepFlat(o.Events()) {
			v := sentOn(e, Path(a.Args[0])+"."+m.channel)
			if v == nil || v.Op != "struct" {
				continue
			}
			fi, fs, fd := -1, -1, -1
			for i, x := range v.Args {
				switch x {
				case a.Args[2]:
					fi = i
				case a.Args[3]:
					fs = i
				case a.Args[4]:
					fd = i
				}
			}
			if fs < 0 || fd < 0 {
				continue
			}
			if m.mapped && (fi != m.fi || fs != m.fs || fd != m.fd) {
				m.mapped = false
				c.fail(rule, "pipeline."+m.t.name+".Feed", e.Pos, "batches are sent in different forms")
				return
			}
			m.mapped, m.fi, m.fs, m.fd = true, fi, fs, fd
		}
	}
}

// sentOn gives the value an event sends on a channel.
func sentOn(e *Event, ch string) *Term {
	switch e.Kind {
	case "select":
		if e.Chosen >= 0 && e.Chosen < len(e.Cases) && e.Cases[e.Chosen].Send && Path(e.Cases[e.Chosen].Chan) == ch {
			return e.Cases[e.Chosen].Val
		}
	case "send":
		if Path(e.Recv) == ch && len(e.Args) > 0 {
			return e.Args[0]
		}
	}
	return nil
}

var nodeCtors = []string{"Ord", "Seq", "Par", "LimitedPar", "StrictOrd"}

func (c *Ctx) variants(rule string, m *nodeModel) {
	for _, cn := range nodeCtors {
		name := "pipeline." + cn
		fn := c.mustFn(name)
		if fn == nil {
			continue
		}
		an := c.analyze(fn, nil, nil, nil, nodeCfg)
		if an.Err != nil {
			c.undecided(rule, name, fn.Pos(), an.Err)
			continue
		}
		for _, o := range an.Outs {
			if o.Kind != "ret" || len(o.Res) != 1 {
				continue
			}
			nd := stripIface(o.Res[0])
			if nd.Op != "alloc" || typeBase(deref(nd.Typ)) != "pipeline."+m.t.name {
				continue
			}
			v := &variant{name: cn, set: map[string]*Term{}}
			st := structOf(deref(nd.Typ))
			for i := 0; i < st.NumFields(); i++ {
				fd := st.Field(i)
				b, ok := fd.Type().Underlying().(*types.Basic)
				if !ok || fd.Name() == m.run || b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
					continue
				}
				v.set[fd.Name()] = o.St.load(mkFieldAddr(nd, i, fd.Name(), ptrTo(fd.Type())), fd.Type())
			}
			for i := 0; i < st.NumFields(); i++ {
				if fd := st.Field(i); fd.Name() == m.cond {
					t := o.St.load(mkFieldAddr(nd, i, fd.Name(), ptrTo(fd.Type())), fd.Type())
					v.cond = !isNil(t) && t.Op != "zero"
					if _, ptr := fd.Type().Underlying().(*types.Pointer); !ptr {
						v.cond = true
					}
				}
			}
			switch cn {
			case "Ord", "StrictOrd":
				v.ordered, v.serial = true, true
			case "Seq":
				v.serial = true
			case "LimitedPar":
				v.limited = true
			}
			m.vars = append(m.vars, v)
			if cn == "LimitedPar" {
				// switched to ordered delivery before a StrictOrd node
				pv := &variant{name: "LimitedPar before a StrictOrd node", set: map[string]*Term{}, ordered: true, limited: true, cond: true}
				for k, t := range v.set {
					pv.set[k] = t
					if isBoolType(t.Typ) {
						pv.set[k] = mkBool(true)
					}
				}
				m.vars = append(m.vars, pv)
			}
		}
	}
}

// possible tells whether facts agree with a variant.
func (v *variant) possible(f *Facts, self string) bool {
	atoms := map[*Term]bool{}
	for _, x := range f.all() {
		deepAtoms(x.cond, atoms)
	}
	for a := range atoms {
		if a.Op != "load" {
			continue
		}
		p := addrPath(a.Args[0])
		if !strings.HasPrefix(p, self+".") {
			continue
		}
		val := v.set[p[len(self)+1:]]
		if val == nil {
			continue
		}
		if isBoolType(a.Typ) {
			d := f.Decide(a)
			if d > 0 && isFalse(val) || d < 0 && isTrue(val) {
				return false
			}
		} else if f.Decide(eqInt(a, val)) < 0 {
			return false
		}
	}
	return true
}

// nbatch is a batch a goroutine has in hand.
type nbatch struct {
	idx, seq, data *Term
	cond           *Term // received if true
	proc           *Term // what the last receiver returned
	stash          bool  // was held back
}

func (b *nbatch) String() string {
	if b == nil {
		return "-"
	}
	return fmt.Sprint(b.idx, b.seq, b.data, b.cond, b.proc, b.stash)
}

// nst is the state of the automaton.
type nst struct {
	b                 *nbatch
	ridx              *Term // index that came with the last batch
	closed, cancelled bool
	done              int
	next              *Term // number of the batch that is due
	checked           bool  // that batch is not held back
	rcv               *Term // the receivers, read since the last batch came
	held              bool
	lastRun           *Term
	ctxOK             bool
	got               bool
	incs              int
	due               bool
	canc              int
	owed, workers     *Term
	chanSet           bool
	composed          *Event
	setR, setF        bool
	handed            int
	sawRun            *Term // the counter when the batch in hand was accepted
	known             []knownVar
}

// knownVar is a boolean loop variable whose value is known in a state.
type knownVar struct {
	v   *Term
	val bool
}

func (s nst) key() string {
	return fmt.Sprint(s.b, s.ridx, s.closed, s.cancelled, s.done, s.next, s.checked, s.rcv, s.held, s.lastRun, s.ctxOK, s.got, s.incs, s.due, s.canc, s.owed, s.workers, s.chanSet, s.composed != nil, s.setR, s.setF, s.handed, s.sawRun, s.known)
}

type nodeWalk struct {
	c       *Ctx
	m       *nodeModel
	v       *variant
	role    string // begin worker feed task
	self, p string // paths of the node and the pipeline
	a       *Analysis
	name    string
	turn    bool
	incFeed bool // the feeder advances the counter
	log     *[]tokenErr
	count   map[string]int
	names   map[*Term]string // values of fields made by Begin
	noCond  bool             // the condition variable is not made before it may be used
}

func (w *nodeWalk) rep(ok bool, prop, rule string, pos token.Pos, format string, a ...any) bool {
	*w.log = append(*w.log, tokenErr{prop, rule, w.name, ok, pos, fmt.Sprintf(format, a...)})
	return ok
}

func (w *nodeWalk) field(t *Term) string {
	if n, ok := w.names[t]; ok {
		return n
	}
	return w.fieldOfPath(Path(t))
}

func (w *nodeWalk) fieldOfPath(p string) string {
	p = strings.TrimPrefix(p, "&")
	if strings.HasPrefix(p, w.self+".") {
		return p[len(w.self)+1:]
	}
	return ""
}

func (w *nodeWalk) isLock(e *Event) bool {
	if a := loadAddr(stripIface(e.Recv)); a != nil && a.Op == "fieldaddr" && w.m.cond != "" && w.field(a.Args[0]) == w.m.cond {
		return true
	}
	n := strings.TrimPrefix(e.Name, "&")
	return strings.HasPrefix(n, w.self) && w.m.aliases[n[len(w.self):]]
}

func (w *nodeWalk) isCtxDone(ch *Term) bool { return isDoneOf(ch, w.p) }

// resolve looks at whether a batch was really received.
func (s *nst) resolve(f *Facts) {
	if s.b == nil || s.b.cond == nil {
		return
	}
	switch d := f.Decide(s.b.cond); {
	case d > 0:
		b := *s.b
		b.cond = nil
		s.b = &b
		if !b.stash {
			s.got, s.incs = true, 0
		}
	case d < 0:
		if s.b.stash {
			s.checked = true
		} else {
			s.closed = true
		}
		s.b = nil
	}
}

func (w *nodeWalk) walk(evs []*Event, f *Facts, ss []nst) []nst {
	for _, e := range evs {
		var next []nst
		seen := map[string]bool{}
		for _, s := range ss {
			s.resolve(f)
			for _, n := range w.step(e, f, s) {
				n.resolve(f)
				if k := n.key(); !seen[k] {
					seen[k] = true
					next = append(next, n)
				}
			}
		}
		ss = next
	}
	return ss
}

// before checks what must be settled before a goroutine may block.
func (w *nodeWalk) before(s *nst, pos token.Pos, what string) {
	if w.turn {
		w.rep(!s.due, "C24", "wake", pos, "waiting feeders are woken with Broadcast after the counter changed, before %s", what)
	}
}

// leave checks a batch that is put down.
func (w *nodeWalk) leave(s *nst, pos token.Pos, what string) {
	if s.b != nil && !s.cancelled {
		if s.b.proc != nil {
			w.rep(false, "C19", "forward", pos, "a batch that passed the receivers is not forwarded before %s", what)
		} else {
			w.rep(false, "C19", "dropped", pos, "a batch is dropped before %s although the context need not be done", what)
		}
	} else {
		w.rep(true, "C19", "dropped", pos, "no batch is dropped before %s", what)
	}
	if w.turn && w.role == "worker" && s.got && !s.cancelled {
		want := 1
		if w.incFeed {
			want = 0
		}
		w.rep(s.incs == want, "C24", "turn", pos, "the turn counter is advanced exactly once per batch that was accepted (%d times, expected %d)", s.incs, want)
	}
	if s.next != nil && w.role == "worker" && !w.turn && !s.cancelled {
		w.rep(s.checked, "C20", "held", pos, "the batch that is due is looked up among those held back before %s", what)
	}
	s.got = false
}

func (w *nodeWalk) step(e *Event, f *Facts, s nst) []nst {
	one := func() []nst { return []nst{s} }
	w.c.site(e)
	w.condUse(e)
	switch e.Kind {
	case "ld":
		switch w.field(e.Res) {
		case w.m.receivers:
			s.rcv = e.Res
		case w.m.run:
			if s.held && w.m.run != "" {
				s.lastRun, s.sawRun = e.Res, e.Res
			}
		}
	case "st":
		fd := w.fieldOfPath(addrPath(e.Recv))
		if fd == "" {
			break
		}
		if w.role == "begin" && (e.Args[0].Op == "makechan" || e.Args[0].Op == "ext") {
			w.names[e.Args[0]] = fd
		}
		switch {
		case fd == w.m.run:
			ok := s.held && s.lastRun != nil && f.Entails(eqInt(e.Args[0], addK(s.lastRun, 1)))
			w.rep(ok, "C24", "turn", e.Pos, "the turn counter is only changed by adding 1 to its current value while the lock is held")
			s.incs++
			s.due = true
			s.lastRun = nil
		case fd == w.m.channel:
			if w.role == "begin" {
				s.chanSet = e.Args[0].Op == "makechan"
			}
		case fd == w.m.receivers:
			if w.role == "begin" && s.composed != nil && e.Args[0] == s.composed.Res {
				s.setR = true
			} else {
				w.rep(false, "C19", "receivers", e.Pos, "the receivers of a node are replaced by something else than what its filters gave")
			}
		case fd == w.m.finalizers:
			if w.role == "begin" && s.composed != nil && e.Args[0] == mk("res", fmt.Sprintf("%d.1", s.composed.ID), e.Args[0].Typ, s.composed) {
				s.setF = true
			} else {
				w.rep(false, "C22", "finalizers", e.Pos, "the finalizers of a node are replaced by something else than what its filters gave")
			}
		case w.v.set[fd] != nil:
			w.rep(false, "C20", "kind", e.Pos, "%s, which selects how the node works, is changed while it works", fd)
		}
	case "compose":
		if w.role != "begin" || len(e.Args) != 4 {
			break
		}
		ok := e.Args[0] == w.a.Args[1] && w.field(e.Args[3]) == w.m.filters && e.Args[2] == w.a.Args[3]
		w.rep(ok && s.composed == nil, "C19", "receivers", e.Pos, "the node's filters are composed once, for its pipeline and data size")
		s.composed = e
	case "lock":
		if w.isLock(e) {
			s.held, s.lastRun, s.ctxOK = true, nil, false
			if s.cancelled {
				s.canc = 1
			}
		}
	case "unlock":
		if w.isLock(e) {
			s.held, s.lastRun = false, nil
		}
	case "selfdeadlock":
		w.rep(false, "C24", "locks", e.Pos, "a lock is acquired that is already held")
	case "badunlock":
		w.rep(false, "C24", "locks", e.Pos, "a lock is released that is not held")
	case "condwait":
		w.before(&s, e.Pos, "waiting")
		if w.role != "feed" {
			w.rep(false, "C24", "wait", e.Pos, "only feeders wait for their turn")
			break
		}
		w.count["wait"]++
		w.rep(s.held, "C24", "wait", e.Pos, "waiting happens with the lock held")
		ne := s.lastRun != nil && s.b != nil && f.Decide(eqInt(s.lastRun, s.b.seq)) < 0
		w.rep(ne, "C24", "wait", e.Pos, "a feeder only waits after it has seen, since it got the lock or was last woken, that it is not its turn")
		w.rep(s.ctxOK, "C23", "wait", e.Pos, "a feeder only waits after it has seen, since it got the lock or was last woken, that the context is not done")
		s.lastRun, s.ctxOK = nil, false
	case "bcast":
		if w.m.cond != "" && (w.field(e.Recv) == w.m.cond) {
			s.due = false
			if s.cancelled && s.canc >= 1 {
				s.canc = 2
			}
		}
	case "ctxerr":
		if strings.HasPrefix(Path(e.Recv), w.p+".") {
			if n := nilness(f, e.Res); n < 0 {
				s.cancelled = true
			} else if n > 0 {
				if s.cancelled {
					return nil // a context stays done
				}
				s.ctxOK = true
			}
		}
	case "select", "recv", "send":
		return w.comm(e, f, s)
	case "mapset", "mapget", "mapdel", "clear":
		return w.stash(e, f, s)
	case "forward":
		if s.b == nil || s.b.cond != nil {
			w.rep(false, "C19", "forward", e.Pos, "something is forwarded although no batch is in hand, or a second time")
			break
		}
		data := s.b.proc
		if data == nil && s.rcv != nil && f.Entails(eqInt(mkLen(s.rcv), mkInt(0))) {
			data = s.b.data
		}
		if data == nil {
			w.rep(false, "C19", "forward", e.Pos, "a batch is forwarded that did not pass the receivers")
			break
		}
		ok := len(e.Args) == 3 && Path(e.Recv) == w.p && w.isIndex(e.Args[0], s) && f.Entails(eqInt(e.Args[1], s.b.seq)) && e.Args[2] == data
		w.rep(ok, "C19", "forward", e.Pos, "the result of the last receiver is forwarded in the same pipeline with the node's index and the batch's number")
		w.count["forward"]++
		s.b = nil
		if s.next != nil {
			s.next, s.checked = addK(s.next, 1), false
		}
	case "user":
		if b, _ := elemOf(e.Recv); b != nil && w.field(b) == w.m.receivers {
			w.rep(false, "C19", "receivers", e.Pos, "a receiver is called outside a loop over all receivers")
		}
	case "close":
		if w.field(e.Recv) == w.m.channel {
			w.rep(false, "C22", "end", e.Pos, "the node's channel is closed before it ends")
		}
	case "wgadd":
		if w.fieldOfPath(addrPath(e.Recv)) == w.m.wg && s.owed != nil {
			s.owed = add(s.owed, e.Args[0])
		}
	case "wgdone":
		if w.fieldOfPath(addrPath(e.Recv)) == w.m.wg {
			s.done++
		}
	case "wgwait":
		if w.fieldOfPath(addrPath(e.Recv)) == w.m.wg {
			w.rep(false, "C22", "end", e.Pos, "the node waits for its goroutines before it ends")
		}
	case "go":
		return w.goEvent(e, f, s)
	case "loop":
		return w.loop(e, f, s)
	}
	return one()
}

func (w *nodeWalk) isIndex(t *Term, s nst) bool {
	if s.b != nil && s.b.idx == t || s.ridx == t {
		return true
	}
	return t.Op == "field" && t.Args[0].Op == "recvval" && t.Aux == fmt.Sprint(w.m.fi) && w.m.fi >= 0
}

// comm handles channel operations.
func (w *nodeWalk) comm(e *Event, f *Facts, s nst) []nst {
	cases, chosen, block := e.Cases, e.Chosen, e.Block
	if e.Kind == "recv" {
		cases, chosen, block = []SelCase{{Chan: e.Recv}}, 0, true
	} else if e.Kind == "send" {
		cases, chosen, block = []SelCase{{Send: true, Chan: e.Recv, Val: e.Args[0]}}, 0, true
	}
	receives, hasCtx := false, false
	for _, k := range cases {
		if !k.Send && w.isCtxDone(k.Chan) {
			hasCtx = true
		}
		if !k.Send && w.field(k.Chan) == w.m.channel && w.m.channel != "" {
			receives = true
		}
	}
	if block {
		w.rep(hasCtx, "C23", "blocking", e.Pos, "an operation that may block ends when the context is done")
		w.count["blocking"]++
		w.before(&s, e.Pos, "blocking")
	}
	if receives {
		if s.closed {
			w.rep(false, "C22", "worker", e.Pos, "the goroutine goes on receiving after the channel was closed")
		}
		if w.role == "worker" {
			w.rep(!s.cancelled, "C23", "worker", e.Pos, "a goroutine that has seen that the context is done does not go on receiving")
		}
		w.leave(&s, e.Pos, "the next one is received")
		s.b = nil
	}
	if chosen < 0 || chosen >= len(cases) {
		if hasCtx {
			if s.cancelled {
				return nil // a context stays done
			}
			s.ctxOK = true
		}
		return []nst{s}
	}
	k := cases[chosen]
	switch {
	case !k.Send && w.isCtxDone(k.Chan):
		s.cancelled = true
	case !k.Send && receives && w.field(k.Chan) == w.m.channel:
		if w.role != "worker" {
			w.rep(false, "C19", "dropped", e.Pos, "a batch is received outside the node's goroutines")
		}
		v := e.Res
		if !w.m.mapped || v == nil {
			w.rep(false, "C19", "dropped", e.Pos, "what is received is not known")
			break
		}
		b := w.batchOf(v)
		b.cond = mk("recvok", fmt.Sprint(e.ID), tyBool, e)
		s.b, s.ridx, s.rcv, s.sawRun = b, b.idx, nil, nil
		w.count["recv"]++
	case k.Send && w.field(k.Chan) == w.m.channel && w.m.channel != "":
		if w.role != "feed" {
			w.rep(false, "C19", "handed", e.Pos, "a batch is sent to the node's goroutines outside Feed")
			break
		}
		if s.b == nil {
			w.rep(false, "C19", "handed", e.Pos, "the batch is handed over although it already was, or was processed")
			break
		}
		v := k.Val
		ok := v != nil && v.Op == "struct" && w.m.mapped && len(v.Args) > w.m.fd && len(v.Args) > w.m.fs && w.m.fi < len(v.Args) &&
			v.Args[w.m.fs] == s.b.seq && v.Args[w.m.fd] == s.b.data && (w.m.fi < 0 || v.Args[w.m.fi] == s.b.idx)
		w.rep(ok, "C19", "handed", e.Pos, "the batch is handed to the node's goroutines with its index and number")
		if w.turn {
			w.rep(s.held && s.lastRun != nil && f.Entails(eqInt(s.lastRun, s.b.seq)), "C20", "turn", e.Pos,
				"a batch is only handed over while the lock is held and the counter, read since the lock was acquired, has the batch's number")
		}
		w.count["send"]++
		s.b = nil
		s.handed++
	}
	return []nst{s}
}

func (w *nodeWalk) batchOf(v *Term) *nbatch {
	st := structOf(v.Typ)
	b := &nbatch{}
	get := func(i int) *Term {
		if i < 0 || st == nil || i >= st.NumFields() {
			return nil
		}
		return mkField(v, i, st.Field(i).Type())
	}
	b.idx, b.seq, b.data = get(w.m.fi), get(w.m.fs), get(w.m.fd)
	return b
}

// stash handles batches that are held back.
func (w *nodeWalk) stash(e *Event, f *Facts, s nst) []nst {
	if w.role != "worker" {
		return []nst{s}
	}
	switch e.Kind {
	case "mapset":
		if s.b == nil || s.b.cond != nil {
			w.rep(false, "C20", "held", e.Pos, "something is held back that is not a batch in hand")
			break
		}
		key, val := e.Args[0], e.Args[1]
		whole := w.m.mapped && w.batchOf(val).data == s.b.data && w.batchOf(val).seq == s.b.seq
		ok := e.Recv.Op == "makemap" && f.Entails(eqInt(key, s.b.seq)) && (val == s.b.data || whole) && s.b.proc == nil
		w.rep(ok, "C19", "held", e.Pos, "a batch that is held back is stored with its data under its number")
		w.rep(ok && s.next != nil && f.Decide(eqInt(s.b.seq, s.next)) < 0, "C20", "held", e.Pos, "a batch is only held back if its turn has not come")
		s.b = nil
		w.count["held"]++
	case "mapdel":
		// a key may be removed if its batch is in hand, was forwarded, or is not there
		if e.Recv.Op != "makemap" || s.next == nil {
			break
		}
		key := e.Args[0]
		ok := s.closed || s.cancelled || f.Entails(lt(key, s.next)) || s.b != nil && (s.b.cond == nil || s.b.stash) && f.Entails(eqInt(key, s.b.seq)) ||
			s.checked && f.Entails(eqInt(key, s.next))
		w.rep(ok, "C20", "held", e.Pos, "only batches that are in hand or were forwarded are removed from those held back")
	case "clear":
		if e.Recv.Op == "makemap" {
			w.rep(s.closed || s.cancelled, "C20", "held", e.Pos, "batches that are held back are not discarded")
		}
	case "mapget":
		if s.next == nil {
			break
		}
		okT := mk("maphas", e.Res.Aux, tyBool, nil, e.Recv, e.Args[0])
		key := e.Args[0]
		d := f.Decide(okT)
		due := f.Entails(eqInt(key, s.next))
		switch {
		case d < 0:
			s.checked = s.checked || due
		default:
			if s.b != nil {
				w.leave(&s, e.Pos, "another one is taken")
			}
			b := &nbatch{seq: s.next, data: e.Res, stash: true}
			if vb := w.batchOf(e.Res); w.m.mapped && structOf(e.Res.Typ) != nil && vb.seq != nil && typeStr(e.Res.Typ) != typeStr(w.a.Args[min(4, len(w.a.Args)-1)].Typ) {
				b = vb
				b.seq, b.stash = s.next, true
			}
			w.rep(due, "C20", "held", e.Pos, "the batch that is taken from those held back is the one that is due")
			if d == 0 {
				b.cond = okT
			}
			s.b = b
		}
	}
	return []nst{s}
}

// goEvent starts a goroutine.
func (w *nodeWalk) goEvent(e *Event, f *Facts, s nst) []nst {
	if e.Task == nil {
		return []nst{s}
	}
	ws := *w
	init := nst{}
	switch w.role {
	case "begin":
		ws.role = "worker"
		w.count["workers"]++
		if w.m.channel != "" {
			w.rep(s.chanSet, "C23", "worker", e.Pos, "the channel is made before the goroutine that reads it starts")
		}
		w.rep(s.setR, "C19", "receivers", e.Pos, "the receivers are stored before a goroutine starts")
		if w.v.ordered && !w.turn {
			init.next, init.checked = mkInt(0), true
		}
	case "feed":
		ws.role = "task"
		if s.b == nil {
			w.rep(false, "C19", "handed", e.Pos, "the batch is handed to a goroutine although it already was, or was processed")
			return []nst{s}
		}
		init.b = s.b
		w.count["send"]++
	default:
		w.rep(false, "C22", "worker", e.Pos, "a goroutine of a node starts another one")
		return []nst{s}
	}
	if s.owed != nil {
		w.rep(f.Entails(le(mkInt(1), s.owed)), "C22", "worker", e.Pos, "the wait group counts the goroutine before it starts")
		s.owed = addK(s.owed, -1)
	}
	if s.workers != nil {
		s.workers = addK(s.workers, 1)
	}
	ws.name = w.name + " (goroutine)"
	for _, o := range e.Task.Outs {
		if !w.v.possible(o.St.facts, w.self) {
			continue
		}
		ws.finish(o, ws.walk(o.Events(), o.St.facts, []nst{init}))
	}
	if w.role == "feed" {
		s.b = nil
		s.handed++
	}
	return []nst{s}
}

// finish checks the end of a goroutine or of Feed.
func (w *nodeWalk) finish(o *Outcome, ss []nst) {
	pos := endPos(o)
	f := o.St.facts
	for _, s := range ss {
		s.resolve(f)
		if o.Kind == "panic" {
			// allowed only for numbers that cannot come
			ok := s.b != nil && (s.next != nil && f.Entails(lt(s.b.seq, s.next)) || s.sawRun != nil && f.Decide(eqInt(s.b.seq, s.sawRun)) < 0)
			w.rep(ok, "C20", "panic", pos, "a goroutine only panics if the order of batches was violated")
			continue
		}
		if o.Kind != "ret" {
			w.rep(false, "C22", "worker", pos, "a path does not return (%s)", o.Kind)
			continue
		}
		w.before(&s, pos, "the end")
		w.leave(&s, pos, "the end")
		w.rep(len(o.St.locks) == 0, "C24", "locks", pos, "all locks are released at the end of a path")
		switch w.role {
		case "worker":
			w.rep(s.closed || s.cancelled, "C22", "worker", pos, "the goroutine ends only after its channel was closed or the context is done")
			if w.turn && s.cancelled && !s.closed {
				w.rep(s.canc == 2, "C23", "worker", pos, "a goroutine that ends because the context is done wakes all waiting feeders with Broadcast after it got the lock")
			}
			fallthrough
		case "task":
			w.rep(s.done == 1 && w.doneLast(o), "C22", "worker", pos, "the wait group is told exactly once, after the last batch, that the goroutine is done")
		case "feed":
			if w.turn && s.handed > 0 && w.incFeed {
				w.rep(s.incs == 1, "C24", "turn", pos, "the turn counter is advanced exactly once per batch that was accepted")
			}
		}
	}
}

// doneLast checks that nothing is processed after the wait group was told.
func (w *nodeWalk) doneLast(o *Outcome) bool {
	done := false
	for _, e := range flat(o.Events()) {
		switch e.Kind {
		case "wgdone":
			if w.fieldOfPath(addrPath(e.Recv)) == w.m.wg {
				done = true
			}
		case "user", "forward", "select", "recv", "send":
			if done {
				return false
			}
		}
	}
	return done
}

func endPos(o *Outcome) token.Pos {
	evs := o.Events()
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].Pos.IsValid() {
			return evs[i].Pos
		}
	}
	return token.NoPos
}

// isRecvCall recognises the call of one of the node's receivers.
func (w *nodeWalk) isRecvCall(e *Event) bool {
	if e.Kind != "user" || e.Recv == nil {
		return false
	}
	b, _ := elemOf(e.Recv)
	return b != nil && w.field(b) == w.m.receivers
}

func (w *nodeWalk) loop(e *Event, f *Facts, s nst) []nst {
	L := e.Loop
	direct, rel := false, false
	for _, it := range L.Iters {
		for _, x := range it.Events {
			if w.isRecvCall(x) {
				direct = true
			}
		}
		for _, x := range flat(it.Events) {
			if x.Kind != "ld" {
				rel = true
			}
		}
	}
	if direct {
		return w.receive(L, e.Pos, f, s)
	}
	if !rel {
		return []nst{s}
	}
	// what a loop variable may say about the number that is due
	type alt struct {
		v *LoopVar
		k *Term
	}
	alts := []alt{{}}
	if s.next != nil {
		alts = nil
		for _, v := range L.Vars {
			if isIntType(v.Sym.Typ) && v.Init != nil {
				if _, ok := sub(s.next, v.Init).intConst(); ok {
					alts = append(alts, alt{v, sub(s.next, v.Init)})
				}
			}
		}
		alts = append(alts, alt{})
	}
	var best []tokenErr
	var bestHeads []nst
	bestN := -1
	for _, a := range alts {
		var log []tokenErr
		ws := *w
		ws.log = &log
		h := s
		if a.v != nil {
			h.next = add(a.v.Sym, a.k)
			if h.b != nil && h.b.cond == nil && f.Entails(eqInt(h.b.seq, s.next)) {
				b := *h.b
				b.seq = h.next
				h.b = &b
			}
		}
		in := map[*Term]*Term{}
		for _, v := range L.Vars {
			if v.Init != nil && !isConstTerm(v.Init) && !isNil(v.Init) && v.Init.Op != "zero" {
				if _, isC := v.Init.intConst(); !isC {
					in[v.Init] = v.Sym
				}
			}
		}
		h.rename(in)
		for _, v := range L.Vars {
			if v.Init != nil && isBoolType(v.Sym.Typ) {
				if d := f.Decide(v.Init); d != 0 {
					h.know(v.Sym, d > 0)
				}
			}
		}
		heads := []nst{h}
		seen := map[string]bool{h.key(): true}
		ws.countLoop(L, &heads[0])
		for i := 0; i < len(heads) && i < 24; i++ {
			for _, it := range L.Iters {
				fi := it.St.facts
				if !w.v.possible(fi, w.self) || !fi.Feasible() || !heads[i].agrees(fi) {
					continue
				}
				for _, n := range ws.walk(it.Events, fi, []nst{heads[i]}) {
					n.resolve(fi)
					ws.progress(L, it, &n)
					back := map[*Term]*Term{}
					for _, v := range L.Vars {
						if nv := it.Next[v.Sym]; nv != nil && nv != v.Sym && !isConstTerm(nv) {
							if _, isC := nv.intConst(); !isC {
								back[nv] = v.Sym
							}
						}
					}
					if a.v != nil {
						// next in terms of the variable
						if nx := it.Next[a.v.Sym]; nx != nil && n.next != nil {
							if fi.Entails(eqInt(n.next, add(nx, a.k))) {
								if n.b != nil && n.b.cond == nil && fi.Entails(eqInt(n.b.seq, n.next)) {
									b := *n.b
									b.seq = heads[i].next
									n.b = &b
								}
								n.next = heads[i].next
							}
						}
					}
					nn := n.next
					n.rename(back)
					n.next = nn
					n.known = append([]knownVar{}, s.known...)
					for _, v := range L.Vars {
						if nv := it.Next[v.Sym]; nv != nil && isBoolType(v.Sym.Typ) {
							if d := fi.Decide(nv); d != 0 {
								n.know(v.Sym, d > 0)
							}
						}
					}
					if s.next != nil && n.next != heads[i].next {
						ws.rep(false, "C20", "due", L.Pos, "which batch is due next is not tracked by a variable that is advanced with every batch that is processed, and only then")
						n.next = heads[i].next
					}
					// counts of goroutines are handled by countLoop
					n.owed, n.workers = heads[i].owed, heads[i].workers
					if k := n.key(); !seen[k] {
						seen[k] = true
						heads = append(heads, n)
					}
				}
			}
		}
		if len(heads) >= 24 {
			ws.rep(false, w.c.Prop, "undecided", L.Pos, "the states of the goroutine at the head of the loop do not stabilise")
		}
		n := 0
		for _, x := range log {
			if !x.ok {
				n++
			}
		}
		if bestN < 0 || n < bestN {
			best, bestHeads, bestN = log, heads, n
		}
	}
	*w.log = append(*w.log, best...)
	var r []nst
	for _, h := range bestHeads {
		if h.agrees(f) {
			h.known = s.known
			r = append(r, h)
		}
	}
	return r
}

// progress checks that a feeder whose turn has not come lets others work
// before it looks again.
func (w *nodeWalk) progress(L *Loop, it *Iter, n *nst) {
	if w.role != "feed" || !w.turn || !n.held || n.b == nil || n.cancelled {
		return
	}
	looks, lets := false, false
	for _, e := range flat(it.Events) {
		switch e.Kind {
		case "ld":
			looks = looks || w.field(e.Res) == w.m.run
		case "condwait":
			lets = true
		case "unlock":
			lets = lets || w.isLock(e)
		}
	}
	if looks {
		w.rep(lets, "C24", "wait", L.Pos, "a feeder whose turn has not come waits, or releases the lock, before it looks at the counter again")
	}
}

// know records the value of a boolean loop variable.
func (s *nst) know(v *Term, val bool) {
	s.known = append(append([]knownVar{}, s.known...), knownVar{v, val})
}

// agrees tells whether a path is possible in a state.
func (s *nst) agrees(f *Facts) bool {
	for _, k := range s.known {
		if d := f.Decide(k.v); d > 0 && !k.val || d < 0 && k.val {
			return false
		}
	}
	return true
}

// rename replaces values that a loop variable holds.
func (s *nst) rename(m map[*Term]*Term) {
	if len(m) == 0 {
		return
	}
	r := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return subst(t, m)
	}
	if s.b != nil {
		s.b = &nbatch{r(s.b.idx), r(s.b.seq), r(s.b.data), r(s.b.cond), r(s.b.proc), s.b.stash}
	}
	s.ridx, s.rcv, s.lastRun, s.sawRun = r(s.ridx), r(s.rcv), r(s.lastRun), r(s.sawRun)
}

// countLoop expresses the number of goroutines started and counted so far in
// terms of a counter of the loop.
func (w *nodeWalk) countLoop(L *Loop, s *nst) {
	if s.owed == nil {
		return
	}
	var dA, dG *Term
	for _, it := range L.Iters {
		if !w.v.possible(it.St.facts, w.self) {
			continue
		}
		a, g := mkInt(0), mkInt(0)
		for _, x := range flat(it.Events) {
			switch {
			case x.Kind == "wgadd" && w.fieldOfPath(addrPath(x.Recv)) == w.m.wg:
				a = add(a, x.Args[0])
			case x.Kind == "go":
				g = addK(g, 1)
			}
		}
		if dA != nil && (dA != a || dG != g) {
			s.owed, s.workers = freshSym("owed", tyInt), freshSym("workers", tyInt)
			return
		}
		dA, dG = a, g
	}
	ka, ok1 := mkInt(0).intConst()
	if dA != nil {
		ka, ok1 = dA.intConst()
	}
	kg := int64(0)
	if dG != nil {
		kg, _ = dG.intConst()
	}
	if dA == nil || ok1 && ka == 0 && kg == 0 {
		return
	}
	if ok1 {
		for _, v := range L.Vars {
			if !isIntType(v.Sym.Typ) {
				continue
			}
			step := int64(0)
			for _, it := range L.Iters {
				d, ok := sub(it.Next[v.Sym], v.Sym).intConst()
				if !ok || d != 1 && d != -1 || step != 0 && step != d {
					step = 0
					break
				}
				step = d
			}
			if step == 0 {
				continue
			}
			trips := mul(mkInt(step), sub(v.Sym, v.Init))
			s.owed = add(s.owed, mul(mkInt(ka-kg), trips))
			s.workers = add(s.workers, mul(mkInt(kg), trips))
			return
		}
	}
	s.owed, s.workers = freshSym("owed", tyInt), freshSym("workers", tyInt)
}

// receive checks a loop that passes a batch through the receivers.
func (w *nodeWalk) receive(L *Loop, pos token.Pos, f *Facts, s nst) []nst {
	w.count["receive"]++
	w.before2(&s, pos)
	switch {
	case s.b == nil:
		w.rep(false, "C19", "receivers", pos, "receivers are called although no batch is in hand")
		return []nst{s}
	case s.b.cond != nil:
		w.rep(false, "C19", "receivers", pos, "receivers are called although it is not known that a batch was received")
		return []nst{s}
	case s.b.proc != nil:
		w.rep(false, "C19", "receivers", pos, "a batch is passed to the receivers twice")
		return []nst{s}
	case s.rcv == nil:
		w.rep(false, "C19", "receivers", pos, "the receivers that are called were read before the batch was received: receivers merged later are missed")
		return []nst{s}
	}
	b := *s.b
	_, iv, err := w.c.walk(L, s.rcv, f, w.isRecvCall)
	if err != nil {
		w.rep(false, "C19", "receivers", pos, "the batch does not pass all receivers in order: %v", err)
		b.proc = freshSym("processed", b.data.Typ)
		s.b = &b
		return []nst{s}
	}
	var dv *LoopVar
	ok := true
	for _, it := range L.Iters {
		var call *Event
		for _, x := range it.Events {
			if w.isRecvCall(x) {
				if call != nil {
					ok = false
				}
				call = x
			}
		}
		if call == nil || len(call.Args) != 2 {
			ok = false
			continue
		}
		v := L.Var(call.Args[1])
		if v == nil || v == iv || it.Next[v.Sym] != resultOf(call, 0) || v.Init != b.data {
			ok = false
			continue
		}
		if dv != nil && dv != v {
			ok = false
		}
		dv = v
		if !it.St.facts.Entails(eqInt(call.Args[0], b.seq)) && !f.Entails(eqInt(call.Args[0], b.seq)) {
			w.rep(false, "C19", "receivers", call.Pos, "a receiver does not get the number of the batch")
		}
	}
	if w.rep(ok && dv != nil, "C19", "receivers", pos, "every receiver is called once and gets what the one before it returned, the first one the batch") {
		b.proc = dv.Sym
	} else {
		b.proc = freshSym("processed", b.data.Typ)
	}
	if s.next != nil {
		w.rep(f.Entails(eqInt(b.seq, s.next)), "C20", "order", pos, "a batch is only processed if it is the one that is due")
	}
	if w.v.serial {
		w.rep(w.role == "worker", "C21", "serial", pos, "receivers are only called by the node's own goroutine")
	}
	if w.v.limited {
		w.rep(w.role == "worker", "C33", "limit", pos, "receivers are only called by the node's fixed set of goroutines")
		if w.turn {
			done := s.incs > 0 && !s.due
			w.rep(done || w.incFeed, "C33", "parallel", pos, "the next batch may start before this one is processed")
		}
	}
	s.b = &b
	return []nst{s}
}

func (w *nodeWalk) before2(s *nst, pos token.Pos) {
	if w.turn {
		w.rep(!s.held, "C24", "locks", pos, "receivers are not called with the lock held")
	}
}

// condUse checks that the condition variable exists when it is used.
func (w *nodeWalk) condUse(e *Event) {
	if w.m.cond == "" {
		return
	}
	uses := false
	switch e.Kind {
	case "ld":
		uses = strings.HasPrefix(w.fieldOfPath(addrPath(e.Recv)), w.m.cond+".")
	case "condwait", "bcast", "signal":
		uses = w.field(e.Recv) == w.m.cond
	}
	if uses {
		w.rep(!w.noCond, "C24", "cond", e.Pos, "the condition variable is only used in nodes that made it before they started working")
	}
}

// condMade tells whether a node has its condition variable when it works.
func (c *Ctx) condMade(m *nodeModel, v *variant) bool {
	if m.cond == "" || v.cond {
		return true
	}
	self := Path(m.begin.Args[0])
	any := false
	for _, o := range m.begin.Outs {
		if !v.possible(o.St.facts, self) {
			continue
		}
		made := false
		for _, e := range flat(o.Events()) {
			switch {
			case e.Kind == "st" && addrPath(e.Recv) == self+"."+m.cond:
				made = !isNil(e.Args[0])
			case e.Kind == "go":
				if !made {
					return false
				}
				any = true
			}
		}
	}
	return any
}

// runNode follows all goroutines of a node in one variant.
func (c *Ctx) runNode(m *nodeModel, v *variant) (log []tokenErr, count map[string]int) {
	count = map[string]int{}
	base := nodeWalk{c: c, m: m, v: v, names: map[*Term]string{}, log: &log, count: count}
	// does Feed wait for its turn?
	self := Path(m.feed.Args[0])
	for _, o := range m.feed.Outs {
		if !v.possible(o.St.facts, self) {
			continue
		}
		var evs []*Event
		var fl func(es []*Event)
		fl = func(es []*Event) {
			for _, e := range es {
				evs = append(evs, e)
				if e.Kind == "loop" {
					for _, it := range e.Loop.Iters {
						if v.possible(it.St.facts, self) {
							fl(it.Events)
						}
					}
				}
			}
		}
		fl(o.Events())
		for _, e := range evs {
			switch {
			case e.Kind == "condwait" || e.Kind == "lock" && m.cond != "":
				base.turn = true
			case e.Kind == "st" && addrPath(e.Recv) == self+"."+m.run && m.run != "":
				base.incFeed = true
			}
		}
	}
	base.noCond = !c.condMade(m, v)
	// Feed
	w := base
	w.role, w.a, w.self, w.p = "feed", m.feed, self, Path(m.feed.Args[1])
	w.name = "pipeline." + m.t.name + ".Feed [" + v.name + "]"
	for _, o := range m.feed.Outs {
		if !v.possible(o.St.facts, self) {
			continue
		}
		count["feedpaths"]++
		init := nst{b: &nbatch{idx: m.feed.Args[2], seq: m.feed.Args[3], data: m.feed.Args[4]}, ridx: m.feed.Args[2], owed: mkInt(0), workers: mkInt(0)}
		ss := w.walk(o.Events(), o.St.facts, []nst{init})
		w.finish(o, ss)
		for _, s := range ss {
			if o.Kind == "ret" {
				w.rep(o.St.facts.Entails(eqInt(s.owed, mkInt(0))), "C22", "worker", endPos(o), "the wait group counts exactly the goroutines that were started")
			}
		}
	}
	// Begin
	w = base
	self = Path(m.begin.Args[0])
	w.role, w.a, w.self, w.p = "begin", m.begin, self, Path(m.begin.Args[1])
	w.name = "pipeline." + m.t.name + ".Begin [" + v.name + "]"
	for _, o := range m.begin.Outs {
		f := o.St.facts
		if !v.possible(f, self) {
			continue
		}
		pos := endPos(o)
		count["beginpaths"]++
		if o.Kind != "ret" || len(o.Res) != 1 {
			w.rep(false, "C22", "begin", pos, "starting the node does not return (%s)", o.Kind)
			continue
		}
		for _, s := range w.walk(o.Events(), f, []nst{{owed: mkInt(0), workers: mkInt(0)}}) {
			w.rep(len(o.St.locks) == 0, "C24", "locks", pos, "all locks are released at the end of a path")
			w.rep(s.composed != nil && s.setR, "C19", "receivers", pos, "the receivers of the filters become the node's receivers")
			w.rep(s.composed != nil && s.setF, "C22", "finalizers", pos, "the finalizers of the filters become the node's finalizers")
			w.rep(f.Entails(eqInt(s.owed, mkInt(0))), "C22", "worker", pos, "the wait group counts exactly the goroutines that were started (%v too many)", s.owed)
			keep := f.Decide(o.Res[0])
			switch {
			case keep > 0:
				if m.channel != "" && m.mapped {
					w.rep(f.Entails(le(mkInt(1), s.workers)) || v.limited, "C19", "dropped", pos, "a node that is kept has a goroutine that receives batches")
				}
				if v.serial {
					w.rep(f.Entails(eqInt(s.workers, mkInt(1))), "C21", "serial", pos, "exactly one goroutine of the node processes batches (%v)", s.workers)
					w.rep(f.Entails(le(s.workers, mkInt(1))), "C20", "serial", pos, "at most one goroutine of the node processes batches (%v)", s.workers)
				}
				if v.limited {
					w.limit(s.workers, f, pos)
				}
			case keep < 0:
				w.rep(f.Entails(eqInt(s.workers, mkInt(0))), "C22", "begin", pos, "no goroutine is started for a node that is not kept")
				none := false
				if s.composed != nil {
					r := s.composed.Res
					fin := mk("res", fmt.Sprintf("%d.1", s.composed.ID), nil, s.composed)
					none = f.Entails(eqInt(mkLen(r), mkInt(0))) && (f.Entails(eqInt(mkLen(fin), mkInt(0))) || emptyAny(f, s.composed, 1))
				}
				w.rep(none, "C31", "begin", pos, "a node is only dropped if its filters gave neither receivers nor finalizers")
			default:
				w.rep(false, "C31", "begin", pos, "whether the node is kept is not known")
			}
		}
	}
	return log, count
}

// emptyAny finds the other result of composing among the facts.
func emptyAny(f *Facts, ev *Event, i int) bool {
	atoms := map[*Term]bool{}
	for _, x := range f.all() {
		deepAtoms(x.cond, atoms)
	}
	for a := range atoms {
		if a.Op == "len" && a.Args[0].Op == "res" && a.Args[0].Aux == fmt.Sprintf("%d.%d", ev.ID, i) && f.Entails(eqInt(a, mkInt(0))) {
			return true
		}
	}
	return false
}

// limit checks the number of goroutines of a LimitedPar node.
func (w *nodeWalk) limit(n *Term, f *Facts, pos token.Pos) {
	ok := false
	what := ""
	for fd, val := range w.v.set {
		if !isIntType(val.Typ) {
			continue
		}
		for a := range linAtoms(n) {
			if a.Op == "load" && w.field(a) == fd || a.Op == "numcpu" {
				if f.Entails(eqInt(n, a)) {
					ok = true
					what = fd
				}
			}
		}
		// the number of iterations equals the field
		atoms := map[*Term]bool{}
		for _, x := range f.all() {
			deepAtoms(x.cond, atoms)
		}
		for a := range atoms {
			if a.Op == "load" && w.field(a) == fd && f.add(le(mkInt(0), a), true).Entails(eqInt(n, a)) {
				ok = true
				what = fd
			}
		}
		if ok && what == fd {
			w.rep(val.Op == "numcpu", "C33", "limit", pos, "the limit is the number of CPUs")
			break
		}
	}
	if !ok {
		for a := range linAtoms(n) {
			ok = ok || a.Op == "numcpu" && f.Entails(eqInt(n, a))
		}
	}
	w.rep(ok, "C33", "limit", pos, "exactly as many goroutines are started as the limit says (%v)", n)
}

// frozenFields are the fields that are only set while their struct is built.
var frozenFields = map[string]bool{}

func pkgPathOf(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

// findFrozen finds them: outside of the function that allocated the struct
// no instruction stores to such a field or takes its address.
func findFrozen(p *Program) {
	frozenFields = map[string]bool{}
	bad := map[string]bool{}
	var fns []*ssa.Function
	for pkg := range p.SSA {
		fns = append(fns, p.allFuncs(pkg)...)
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					// a whole struct that is overwritten
					if st, ok := in.(*ssa.Store); ok {
						if _, fresh := st.Addr.(*ssa.Alloc); !fresh {
							bad["T:"+typeBase(st.Val.Type())] = true
						}
					}
					continue
				}
				st := structOf(deref(fa.X.Type()))
				if st == nil {
					continue
				}
				if token.IsExported(st.Field(fa.Field).Name()) || !strings.HasPrefix(pkgPathOf(deref(fa.X.Type())), modulePath) {
					continue
				}
				cl := "F:" + typeBase(deref(fa.X.Type())) + "." + st.Field(fa.Field).Name()
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				frozenFields[cl] = true
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						if r.Addr == fa {
							bad[cl] = true
						}
					case *ssa.DebugRef:
					default:
						bad[cl] = true
					}
				}
			}
		}
	}
	for cl := range frozenFields {
		t := cl[2:strings.LastIndex(cl, ".")]
		if bad[cl] || bad["T:"+t] {
			delete(frozenFields, cl)
		}
	}
}

// nodeState gives what is known about a node from its constructors.
func (c *Ctx) nodeState(fn *ssa.Function, st *types.Struct) *State {
	s := newState()
	if len(fn.Params) == 0 {
		return s
	}
	self := ParamTerms(fn)[0]
	for i := 0; i < st.NumFields(); i++ {
		fd := st.Field(i)
		a := mkFieldAddr(self, i, fd.Name(), ptrTo(fd.Type()))
		if isIntType(fd.Type()) && typeBase(fd.Type()) == "int" && frozenFields[classOf(a)] && c.alwaysPositive(fn, fd.Name()) {
			s.facts = s.facts.add(le(mkInt(1), s.load(a, fd.Type())), true)
		}
	}
	return s
}

// alwaysPositive tells whether all constructors set a field to the number of
// CPUs.
func (c *Ctx) alwaysPositive(fn *ssa.Function, fd string) bool {
	want := typeBase(deref(fn.Params[0].Type()))
	n := 0
	for _, cn := range nodeCtors {
		k := c.mustFn("pipeline." + cn)
		if k == nil {
			return false
		}
		an := c.analyze(k, nil, nil, nil, nodeCfg)
		if an.Err != nil {
			return false
		}
		for _, o := range an.Outs {
			if o.Kind != "ret" || len(o.Res) != 1 {
				continue
			}
			nd := stripIface(o.Res[0])
			if nd.Op != "alloc" {
				return false
			}
			if typeBase(deref(nd.Typ)) != want {
				continue
			}
			st := structOf(deref(nd.Typ))
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == fd {
					v := o.St.load(mkFieldAddr(nd, i, fd, ptrTo(st.Field(i).Type())), st.Field(i).Type())
					if !o.St.facts.Entails(le(mkInt(1), v)) {
						return false
					}
					n++
				}
			}
		}
	}
	return n > 0
}
