package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is one observable action on an abstract path.
type Event struct {
	ID     int
	Kind   string // user invoke ext rec contract go send recv select ld st lock unlock rlock runlock wgadd wgdone wgwait condwait bcast signal close mapget mapset mapdel panic loop join pardo atomic assert typeassert
	Name   string
	Fn     *ssa.Function // enclosing function
	Callee *ssa.Function
	Pos    token.Pos
	Recv   *Term // function value, channel, receiver, address
	Args   []*Term
	Res    *Term
	Cases  []SelCase
	Chosen int
	Block  bool // blocking select
	Loop   *Loop
	Task   *Task
	Out    *Outcome   // join: which outcome of the task
	Subs   []*Outcome // pardo: outcome chosen for each branch
	Locks  []string
	Facts  *Facts
	Mem    map[*Term]*Term // only for rec calls, snapshots
	St     *State          // state after the event, for calls that need it
	Defer  bool
	Ghost  map[string]*Term
	Atomic bool
	Heap   int
}

type SelCase struct {
	Send bool
	Chan *Term
	Val  *Term
}

type EvNode struct {
	prev *EvNode
	ev   *Event
	n    int
}

func (n *EvNode) list() []*Event {
	if n == nil {
		return nil
	}
	r := make([]*Event, n.n)
	for x := n; x != nil; x = x.prev {
		r[x.n-1] = x.ev
	}
	return r
}

// since lists the events after mark.
func (n *EvNode) since(mark *EvNode) []*Event {
	l := n.list()
	if mark == nil {
		return l
	}
	return l[mark.n:]
}

type Task struct {
	ID    int
	Go    *Event
	Outs  []*Outcome
	Start *State
}

type TaskRef struct {
	T      *Task
	Joined *Outcome
	Mark   int // number of parent events at the spawn
	JoinAt int
}

type Deferred struct {
	fn   *Term
	call *ssa.CallCommon
	args []*Term
	site ssa.Instruction
}

type State struct {
	mem     map[*Term]*Term
	heap    int
	class   map[string]int
	facts   *Facts
	ev      *EvNode
	tasks   []*TaskRef
	locks   []string
	esc     map[*Term]bool
	allocs  map[*Term]bool
	ghost   map[string]*Term
	loops   []*Loop // loops the path is currently inside (innermost last)
	wg      map[*Term]*Lin
	wgUnk   map[*Term]bool
	tainted bool
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, class: map[string]int{}, esc: map[*Term]bool{}, allocs: map[*Term]bool{}, ghost: map[string]*Term{}, wg: map[*Term]*Lin{}, wgUnk: map[*Term]bool{}}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+1)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *State) clone() *State {
	n := *s
	n.mem = cp(s.mem)
	n.class = cp(s.class)
	n.esc = cp(s.esc)
	n.allocs = cp(s.allocs)
	n.ghost = cp(s.ghost)
	n.wg = cp(s.wg)
	n.wgUnk = cp(s.wgUnk)
	n.tasks = append([]*TaskRef{}, s.tasks...)
	n.locks = append([]string{}, s.locks...)
	n.loops = append([]*Loop{}, s.loops...)
	return &n
}

var verCounter = 0

func nextVer() int { verCounter++; return verCounter }

func classOf(addr *Term) string {
	switch addr.Op {
	case "fieldaddr":
		bt := addr.Args[0].Typ
		n := ""
		if bt != nil {
			n = typeBase(deref(bt))
		}
		return "F:" + n + "." + fieldName(addr)
	case "idxaddr":
		return "I:" + typeStr(addr.Typ)
	case "mapaddr":
		return "M:"
	}
	return "P:" + typeStr(addr.Typ)
}

func typeStr(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// typeBase names a (possibly generic) named type without type arguments.
func typeBase(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		o := n.Origin().Obj()
		if o.Pkg() != nil {
			return o.Pkg().Name() + "." + o.Name()
		}
		return o.Name()
	}
	return typeStr(t)
}

func (s *State) private(addr *Term) bool {
	r := rootOf(addr)
	return r.Op == "alloc" && (!s.esc[r] || stableCell(r))
}

var stableCells = map[*ssa.Alloc]bool{}

// stableCell reports a variable that is assigned once, where it is declared,
// and otherwise only read and captured: escaping does not make it change.
func stableCell(t *Term) bool {
	a, ok := t.Ref.(*ssa.Alloc)
	if !ok {
		return false
	}
	if v, ok := stableCells[a]; ok {
		return v
	}
	stores := 0
	good := true
	seen := map[ssa.Value]bool{}
	var uses func(v ssa.Value, field bool)
	uses = func(v ssa.Value, field bool) {
		if seen[v] || !good {
			return
		}
		seen[v] = true
		rs := v.Referrers()
		if rs == nil {
			good = false
			return
		}
		for _, r := range *rs {
			switch x := r.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				if x.Op != token.MUL {
					good = false
				}
			case *ssa.Store:
				if x.Addr != v || x.Val == v || field || v != ssa.Value(a) {
					good = false
					break
				}
				stores++
				for _, l := range loopsOf(a.Parent()) {
					if l.blocks[x.Block()] && !l.blocks[a.Block()] {
						good = false
					}
				}
			case *ssa.FieldAddr:
				uses(x, true)
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v {
						uses(f.FreeVars[i], field)
					}
				}
			default:
				good = false
			}
		}
	}
	uses(a, false)
	r := good && stores <= 1
	stableCells[a] = r
	return r
}

// stableClass holds the fields that calls of unknown code are assumed to
// leave alone; only C36 uses it, for the list of nodes of a running pipeline.
var stableClass = map[string]bool{}

func (s *State) loadTerm(addr *Term, typ types.Type) *Term {
	if addr.Op == "fieldaddr" && frozenFields[classOf(addr)] {
		return mk("load", "const", typ, nil, addr)
	}
	v := fmt.Sprintf("%d.%d", s.heap, s.class[classOf(addr)])
	if stableClass[classOf(addr)] {
		v = fmt.Sprintf("s%d", s.class[classOf(addr)])
	}
	if s.private(addr) {
		v = fmt.Sprintf("p%d", s.class[classOf(addr)])
	}
	return mk("load", v, typ, nil, addr)
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if _, ok := t.(*types.TypeParam); ok {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// opaqueStruct reports types whose fields the analysis never looks at.
func opaqueStruct(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		p := n.Obj().Pkg()
		return p != nil && !strings.HasPrefix(p.Path(), modulePath)
	}
	return false
}

func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }

func (s *State) load(addr *Term, typ types.Type) *Term {
	if v, ok := s.mem[addr]; ok {
		return v
	}
	if st := structOf(typ); st != nil && !opaqueStruct(typ) && rootOf(addr).Op == "alloc" && st.NumFields() <= 12 {
		var fs []*Term
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			fs = append(fs, s.load(mkFieldAddr(addr, i, f.Name(), ptrTo(f.Type())), f.Type()))
		}
		return mk("struct", "", typ, nil, fs...)
	}
	return s.loadTerm(addr, typ)
}

func (s *State) store(addr, val *Term, typ types.Type) {
	if st := structOf(typ); st != nil && !opaqueStruct(typ) && st.NumFields() <= 12 && rootOf(addr).Op == "alloc" {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			s.store(mkFieldAddr(addr, i, f.Name(), ptrTo(f.Type())), mkField(val, i, f.Type()), f.Type())
		}
		return
	}
	// kill possible aliases
	c := classOf(addr)
	if addr.Op != "alloc" {
		priv := s.private(addr)
		for a := range s.mem {
			if a == addr || a.Op != addr.Op || a.Op == "alloc" || classOf(a) != c {
				continue
			}
			if priv && rootOf(a) != rootOf(addr) {
				continue
			}
			if !priv && s.private(a) {
				continue
			}
			if rootOf(a).Op == "alloc" && rootOf(addr).Op == "alloc" && rootOf(a) != rootOf(addr) {
				continue
			}
			if addr.Op == "idxaddr" && a.Args[0] == addr.Args[0] {
				if s.facts.Decide(eqInt(a.Args[1], addr.Args[1])) < 0 {
					continue
				}
			}
			delete(s.mem, a)
		}
		s.class[c] = nextVer()
	}
	s.mem[addr] = val
}

// havoc models the effect of unknown code: every memory cell it may reach
// gets an unknown value.
func (s *State) havoc() {
	for a := range s.mem {
		if !s.private(a) && !stableClass[classOf(a)] {
			delete(s.mem, a)
		}
	}
	s.heap = nextVer()
}

// escape marks everything reachable from t as reachable by unknown code.
func (s *State) escape(t *Term) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "alloc":
			s.esc[t] = true
			for a, v := range s.mem {
				if rootOf(a) == t {
					rec(v)
				}
			}
			return
		case "load", "len", "le0", "eq0", "eq", "lin", "res":
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
}

type Outcome struct {
	St   *State
	Kind string // ret panic back exit stop
	Res  []*Term
	PV   *Term
	// loop sinks
	env    map[ssa.Value]*Term
	defers []*Deferred
	from   *ssa.BasicBlock
	to     *ssa.BasicBlock
	Site   token.Pos
}

func (o *Outcome) Events() []*Event { return o.St.ev.list() }

// Loop is the summary of a loop: the symbolic state at its head, and every
// path through one iteration.
type Loop struct {
	ID     int
	Header *ssa.BasicBlock
	Fn     *ssa.Function
	Vars   []*LoopVar
	Iters  []*Iter
	Entry  *Facts // facts before the loop
	Head   *Facts // facts at the loop head (with invariants)
	HeadSt *State
	Pre    *State
	Inv    []*Term
	Pos    token.Pos
	fixed  func(t *Term) bool // has the same value in every iteration
}

type LoopVar struct {
	Name string
	Sym  *Term
	Init *Term
	Phi  *ssa.Phi
	Addr *Term
	Gh   string
	Cell *Term // a variable allocated anew for every iteration; Sym is its content
}

type Iter struct {
	Events []*Event
	Next   map[*Term]*Term // loop variable symbol -> value at the back edge
	St     *State
}

func (l *Loop) Var(sym *Term) *LoopVar {
	for _, v := range l.Vars {
		if v.Sym == sym {
			return v
		}
	}
	return nil
}

func locksCopy(s *State) []string {
	r := append([]string{}, s.locks...)
	sort.Strings(r)
	return r
}
