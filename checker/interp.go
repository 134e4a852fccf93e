package main

// The abstract interpreter. It evaluates one function (with repository
// callees and closures inlined) over abstract values, partitioned by path;
// loops are summarised at their head by havocking what the body may change
// and keeping the inequalities that are inductive, recursive calls are
// replaced by calls to the contract that is being established, and unknown
// code havocs everything it can reach. Nothing is executed and no path is
// handed to a solver.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modulePath = "github.com/intel/forGoParallel"

type Config struct {
	UserPanics bool
	// Contract intercepts a call; it returns outcomes and true if it handled
	// the call.
	Contract func(in *Interp, c *CallInfo, st *State) ([]*Outcome, bool)
	OnEvent  func(in *Interp, st *State, ev *Event)
	OnLoop   func(in *Interp, st *State, l *Loop)
	PureInvk func(c *CallInfo) *Term
	MaxOuts  int
	Arith    bool // events for sums, differences and products of variables
	// goroutines start with unknown memory: what others change meanwhile is
	// not known anyway, and fields are then named alike everywhere
	SpawnHavoc bool
}

type CallInfo struct {
	Kind   string // static closure user invoke builtin
	Name   string
	Fn     *ssa.Function
	FnTerm *Term
	Recv   *Term
	Args   []*Term
	Sig    *types.Signature
	Site   ssa.Instruction
	Caller *ssa.Function
	Method *types.Func
	Deferd bool
}

type Interp struct {
	prog      *ssa.Program
	cfg       Config
	stack     []*ssa.Function
	recursive map[*ssa.Function]bool
	newRec    bool
	loopID    int
	steps     int
	undecided map[string]bool
	quiet     int // >0 while computing loop fixpoints
	root      *ssa.Function
	depth     int
}

// event and task numbers are unique over all analyses of a run: values are
// named after the events that produce them
var evCounter, taskCounter int

type undecidedErr struct{ msg string }

func newInterp(prog *ssa.Program, cfg Config) *Interp {
	if cfg.MaxOuts == 0 {
		cfg.MaxOuts = 6000
	}
	return &Interp{prog: prog, cfg: cfg, recursive: map[*ssa.Function]bool{}, undecided: map[string]bool{}}
}

func (in *Interp) fail(f string, a ...any) {
	panic(undecidedErr{fmt.Sprintf(f, a...)})
}

type frame struct {
	fn       *ssa.Function
	ctx      string
	binds    []*Term
	deferred bool  // called directly by a deferred-call dispatch
	pv       *Term // in-flight panic visible to recover()
	recov    *bool
}

type path struct {
	env    map[ssa.Value]*Term
	defers []*Deferred
	st     *State
	recov  bool
}

func (p *path) clone() *path {
	return &path{env: cp(p.env), defers: append([]*Deferred{}, p.defers...), st: p.st.clone(), recov: p.recov}
}

type sink struct {
	outs  []*Outcome
	back  []*Outcome
	exits []*Outcome
}

type loopCtx struct {
	blocks map[*ssa.BasicBlock]bool
	header *ssa.BasicBlock
}

// Analyze runs fn on fresh parameters and returns every outcome. It restarts
// when it discovers that a callee is recursive, because such callees are
// analysed separately against their contract.
func (in *Interp) Analyze(fn *ssa.Function, args []*Term, binds []*Term, st *State) (outs []*Outcome, err error) {
	in.root = fn
	for try := 0; try < 12; try++ {
		in.newRec = false
		in.stack = nil
		in.steps = 0
		var e error
		outs, e = in.tryAnalyze(fn, args, binds, st)
		if in.newRec {
			continue
		}
		return outs, e
	}
	return nil, fmt.Errorf("recursion structure of %s does not stabilise", fn)
}

func (in *Interp) tryAnalyze(fn *ssa.Function, args []*Term, binds []*Term, st *State) (outs []*Outcome, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case undecidedErr:
				err = fmt.Errorf("%s", x.msg)
			case restart:
			default:
				panic(r)
			}
		}
	}()
	in.quiet = 0
	return in.call(fn, args, binds, st.clone(), nil, ""), nil
}

type restart struct{}

func ParamTerms(fn *ssa.Function) []*Term {
	var r []*Term
	for i, p := range fn.Params {
		r = append(r, mk("param", fmt.Sprintf("%s", paramName(fn, i, p)), p.Type(), p))
	}
	return r
}

func paramName(fn *ssa.Function, i int, p *ssa.Parameter) string {
	return fmt.Sprintf("%s·%s", p.Name(), shortFn(fn))
}

func shortFn(fn *ssa.Function) string {
	n := fn.String()
	n = strings.ReplaceAll(n, modulePath+"/", "")
	return n
}

func (in *Interp) call(fn *ssa.Function, args, binds []*Term, st *State, defd *frame, ctx string) []*Outcome {
	if fn.Blocks == nil {
		in.fail("no body for %s", fn)
	}
	in.depth++
	defer func() { in.depth-- }()
	if in.depth > 60 {
		in.fail("inlining too deep at %s", fn)
	}
	in.stack = append(in.stack, fn)
	defer func() { in.stack = in.stack[:len(in.stack)-1] }()
	fr := &frame{fn: fn, ctx: ctx, binds: binds}
	if defd != nil {
		fr.deferred = true
		fr.pv = defd.pv
		fr.recov = defd.recov
	}
	p := &path{env: map[ssa.Value]*Term{}, st: st}
	for i, prm := range fn.Params {
		if i < len(args) {
			p.env[prm] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			p.env[fv] = binds[i]
		}
	}
	sk := &sink{}
	in.block(fr, fn.Blocks[0], nil, p, nil, sk)
	return sk.outs
}

func (in *Interp) val(fr *frame, p *path, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Function:
		o := x
		if o.Origin() != nil {
			o = o.Origin()
		}
		return mk("func", o.String(), x.Type(), o)
	case *ssa.Global:
		return mk("global", x.String(), x.Type(), x)
	case *ssa.Builtin:
		return mk("builtin", x.Name(), x.Type(), nil)
	}
	if t, ok := p.env[v]; ok {
		return t
	}
	in.fail("undefined value %s in %s", v.Name(), fr.fn)
	return nil
}

func (in *Interp) event(fr *frame, p *State, ev *Event) *Event {
	evCounter++
	ev.ID = evCounter
	if fr != nil {
		ev.Fn = fr.fn
	}
	ev.Facts = p.facts
	ev.Locks = locksCopy(p)
	ev.Heap = p.heap
	n := 1
	if p.ev != nil {
		n = p.ev.n + 1
	}
	p.ev = &EvNode{prev: p.ev, ev: ev, n: n}
	if len(p.ghost) > 0 {
		ev.Ghost = cp(p.ghost)
	}
	if in.cfg.OnEvent != nil {
		in.cfg.OnEvent(in, p, ev)
	}
	return ev
}

// transition follows the edge from -> to.
func (in *Interp) transition(fr *frame, from, to *ssa.BasicBlock, p *path, lc *loopCtx, sk *sink) {
	if lc != nil {
		if to == lc.header {
			sk.back = append(sk.back, &Outcome{Kind: "back", St: p.st, env: p.env, defers: p.defers, from: from, to: to})
			return
		}
		if !lc.blocks[to] {
			sk.exits = append(sk.exits, &Outcome{Kind: "exit", St: p.st, env: p.env, defers: p.defers, from: from, to: to})
			return
		}
	}
	in.block(fr, to, from, p, lc, sk)
}

func (in *Interp) block(fr *frame, b, prev *ssa.BasicBlock, p *path, lc *loopCtx, sk *sink) {
	if lp := loopsOf(fr.fn)[b]; lp != nil && (lc == nil || lc.header != b) {
		in.loop(fr, lp, b, prev, p, lc, sk)
		return
	}
	if prev != nil {
		in.phis(fr, b, prev, p)
	}
	in.instrs(fr, b, 0, p, lc, sk)
}

func (in *Interp) phis(fr *frame, b, prev *ssa.BasicBlock, p *path) {
	idx := -1
	for i, q := range b.Preds {
		if q == prev {
			idx = i
		}
	}
	var vals []*Term
	var ph []*ssa.Phi
	for _, ins := range b.Instrs {
		x, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, x)
		vals = append(vals, in.val(fr, p, x.Edges[idx]))
	}
	for i, x := range ph {
		p.env[x] = vals[i]
	}
}

func (in *Interp) instrs(fr *frame, b *ssa.BasicBlock, i int, p *path, lc *loopCtx, sk *sink) {
	for ; i < len(b.Instrs); i++ {
		in.steps++
		if in.steps > 3000000 {
			in.fail("analysis budget exceeded in %s", in.root)
		}
		switch x := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			in.transition(fr, b, b.Succs[0], p, lc, sk)
			return
		case *ssa.If:
			c := in.val(fr, p, x.Cond)
			if c.Op != "not" && c.Typ == nil {
				c.Typ = tyBool
			}
			switch d := p.st.facts.Decide(c); {
			case d > 0:
				in.transition(fr, b, b.Succs[0], p, lc, sk)
			case d < 0:
				in.transition(fr, b, b.Succs[1], p, lc, sk)
			default:
				q := p.clone()
				p.st.facts = p.st.facts.add(c, true)
				q.st.facts = q.st.facts.add(c, false)
				in.refine(p.st, c, true)
				in.refine(q.st, c, false)
				if p.st.facts.Feasible() {
					in.transition(fr, b, b.Succs[0], p, lc, sk)
				}
				if q.st.facts.Feasible() {
					in.transition(fr, b, b.Succs[1], q, lc, sk)
				}
			}
			return
		case *ssa.Return:
			var res []*Term
			for _, r := range x.Results {
				res = append(res, in.val(fr, p, r))
			}
			sk.outs = append(sk.outs, &Outcome{Kind: "ret", St: p.st, Res: res, Site: x.Pos()})
			if len(sk.outs) > in.cfg.MaxOuts {
				in.fail("too many paths in %s", fr.fn)
			}
			return
		case *ssa.Panic:
			v := in.val(fr, p, x.X)
			in.event(fr, p.st, &Event{Kind: "panic", Pos: x.Pos(), Args: []*Term{v}})
			in.unwind(fr, p, v, sk)
			return
		case *ssa.RunDefers:
			in.runDefers(fr, p, nil, func(q *path, pv *Term) {
				if pv != nil { // a deferred function panicked
					in.unwind(fr, q, pv, sk)
					return
				}
				in.instrs(fr, b, i+1, q, lc, sk)
			})
			return
		case *ssa.Defer:
			d := &Deferred{call: &x.Call, site: x}
			if x.Call.IsInvoke() {
				d.fn = in.val(fr, p, x.Call.Value)
			} else {
				d.fn = in.val(fr, p, x.Call.Value)
			}
			for _, a := range x.Call.Args {
				d.args = append(d.args, in.val(fr, p, a))
			}
			if lc != nil {
				in.event(fr, p.st, &Event{Kind: "deferloop", Pos: x.Pos()})
			}
			p.defers = append(p.defers, d)
			in.event(fr, p.st, &Event{Kind: "defer", Pos: x.Pos(), Recv: d.fn, Args: d.args})
			continue
		case *ssa.Call:
			outs := in.doCall(fr, p, &x.Call, x, nil)
			for k, o := range outs {
				q := p
				if k < len(outs)-1 {
					q = p.clone()
				}
				q.st = o.St
				if o.Kind == "panic" {
					in.unwind(fr, q, o.PV, sk)
					continue
				}
				if o.Kind == "stop" {
					sk.outs = append(sk.outs, o)
					continue
				}
				q.env[x] = packResults(o.Res, x.Type())
				in.instrs(fr, b, i+1, q, lc, sk)
			}
			return
		case *ssa.UnOp:
			var w, cell *Term
			if x.Op == token.ARROW {
				w = signalOf(p.st, p.env[x.X])
				if ch := p.env[x.X]; w == nil && isResult(ch) {
					w, cell = ch, resultCell(ch)
					if p.st.ghost["received:"+ch.Aux] != nil {
						p.st.wg[w] = &Lin{k: 1}
					}
				}
			}
			if w != nil {
				outs := in.waitFor(fr, p.st, w, x.Pos(), false)
				for k, o := range outs {
					q := p
					if k < len(outs)-1 {
						q = p.clone()
					}
					q.st = o.St
					if o.Kind == "stop" {
						sk.outs = append(sk.outs, o)
						continue
					}
					q.env[x] = mk("nil", "", x.Type(), nil)
					if cell != nil {
						q.env[x] = q.st.load(cell, x.Type())
						in.event(fr, q.st, &Event{Kind: "ld", Pos: x.Pos(), Recv: cell, Res: q.env[x]})
						q.st.ghost["received:"+w.Aux] = w
					}
					in.instrs(fr, b, i+1, q, lc, sk)
				}
				return
			}
			in.simple(fr, p, x)
		case *ssa.Go:
			in.doGo(fr, p, x)
			continue
		case *ssa.Select:
			in.doSelect(fr, p, x, func(q *path) {
				in.instrs(fr, b, i+1, q, lc, sk)
			})
			return
		case *ssa.TypeAssert:
			v := in.val(fr, p, x.X)
			val, ok := in.typeAssert(p.st, v, x.AssertedType)
			if x.CommaOk {
				p.env[x] = mk("tuple", "", x.Type(), nil, val, ok)
			} else {
				in.event(fr, p.st, &Event{Kind: "assert", Pos: x.Pos(), Args: []*Term{v}, Res: val, Recv: ok})
				p.env[x] = val
			}
			continue
		default:
			in.simple(fr, p, b.Instrs[i])
		}
	}
}

func packResults(res []*Term, typ types.Type) *Term {
	if tup, ok := typ.(*types.Tuple); ok {
		if tup.Len() == 0 {
			return mk("tuple", "", typ, nil)
		}
		return mk("tuple", "", typ, nil, res...)
	}
	if len(res) == 1 {
		return res[0]
	}
	return mk("tuple", "", typ, nil, res...)
}

// refine adds consequences of a branch condition.
func (in *Interp) refine(st *State, c *Term, val bool) {
	for c.Op == "not" {
		c, val = c.Args[0], !val
	}
	// an irreflexive comparison that is true has different operands
	if c.Op == "less" && val {
		a, b := c.Args[1], c.Args[2]
		st.facts = st.facts.add(eqInt(a, b), false)
	}
}

func (in *Interp) unwind(fr *frame, p *path, pv *Term, sk *sink) {
	in.runDefers(fr, p, pv, func(q *path, out *Term) {
		if out != nil {
			sk.outs = append(sk.outs, &Outcome{Kind: "panic", St: q.st, PV: out})
			if len(sk.outs) > in.cfg.MaxOuts {
				in.fail("too many paths in %s", fr.fn)
			}
			return
		}
		// recovered: run the recover block, or return zero values
		if fr.fn.Recover != nil {
			in.instrs(fr, fr.fn.Recover, 0, q, nil, sk)
			return
		}
		var res []*Term
		rs := fr.fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			res = append(res, zeroTerm(rs.At(i).Type()))
		}
		sk.outs = append(sk.outs, &Outcome{Kind: "ret", St: q.st, Res: res})
	})
}

// runDefers runs the deferred calls of a frame, LIFO, with pv in flight (nil:
// normal exit), and continues with the panic that is still in flight then.
func (in *Interp) runDefers(fr *frame, p *path, pv *Term, k func(q *path, pv *Term)) {
	if len(p.defers) == 0 {
		k(p, pv)
		return
	}
	d := p.defers[len(p.defers)-1]
	p.defers = p.defers[:len(p.defers)-1]
	rec := false
	df := &frame{pv: pv, recov: &rec}
	outs := in.dispatchDeferred(fr, p, d, df)
	for i, o := range outs {
		q := p
		if i < len(outs)-1 {
			q = p.clone()
		}
		q.st = o.St
		npv := pv
		if o.Kind == "panic" {
			npv = o.PV
		} else if pv != nil && o.St.ghost["recovered"] != nil {
			npv = nil
		}
		if o.St.ghost["recovered"] != nil {
			q.st = q.st.clone()
			delete(q.st.ghost, "recovered")
		}
		in.runDefers(fr, q, npv, k)
	}
}

func (in *Interp) dispatchDeferred(fr *frame, p *path, d *Deferred, df *frame) []*Outcome {
	return in.doCallWith(fr, p, d.call, d.site, d.fn, d.args, df)
}

func (in *Interp) doCall(fr *frame, p *path, c *ssa.CallCommon, site ssa.Instruction, df *frame) []*Outcome {
	fnv := in.val(fr, p, c.Value)
	var args []*Term
	for _, a := range c.Args {
		args = append(args, in.val(fr, p, a))
	}
	return in.doCallWith(fr, p, c, site, fnv, args, df)
}

func (in *Interp) callInfo(fr *frame, c *ssa.CallCommon, site ssa.Instruction, fnv *Term, args []*Term) *CallInfo {
	ci := &CallInfo{Args: args, Sig: c.Signature(), Site: site, Caller: fr.fn}
	if c.IsInvoke() {
		ci.Kind = "invoke"
		ci.Name = c.Method.Name()
		ci.Recv = fnv
		ci.Method = c.Method
		// devirtualise when the dynamic type is known
		if fnv.Op == "mkiface" {
			if t, ok := fnv.Ref.(types.Type); ok {
				if m := lookupMethod(in.prog, t, c.Method); m != nil {
					ci.Kind = "static"
					ci.Fn = m
					ci.Args = append([]*Term{fnv.Args[0]}, args...)
					ci.Name = fullName(m)
				}
			}
		}
		return ci
	}
	switch fnv.Op {
	case "builtin":
		ci.Kind = "builtin"
		ci.Name = fnv.Aux
	case "func":
		ci.Kind = "static"
		ci.Fn = fnv.Ref.(*ssa.Function)
		ci.FnTerm = fnv
		ci.Name = fullName(ci.Fn)
	case "closure":
		ci.Kind = "closure"
		ci.Fn = fnv.Ref.(*ssa.Function)
		ci.FnTerm = fnv
		ci.Name = fullName(ci.Fn)
	default:
		ci.Kind = "user"
		ci.FnTerm = fnv
		ci.Name = Path(fnv)
	}
	return ci
}

func fullName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Object() != nil {
		if m, ok := f.Object().(*types.Func); ok {
			if f.Synthetic == "" || strings.Contains(f.Synthetic, "instan") {
				return m.Origin().FullName()
			}
		}
	}
	return f.String()
}

func lookupMethod(prog *ssa.Program, t types.Type, m *types.Func) *ssa.Function {
	obj, _, _ := types.LookupFieldOrMethod(t, true, m.Pkg(), m.Name())
	f, ok := obj.(*types.Func)
	if !ok {
		return nil
	}
	f = f.Origin()
	if sel := types.NewMethodSet(t).Lookup(m.Pkg(), m.Name()); sel != nil && len(sel.Index()) > 1 {
		return nil // promoted method: leave it virtual
	}
	if _, isIface := f.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface); isIface {
		return nil
	}
	return prog.FuncValue(f)
}

func inRepo(f *ssa.Function) bool {
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), modulePath)
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return strings.HasPrefix(o.Pkg.Pkg.Path(), modulePath)
	}
	if f.Parent() != nil {
		return inRepo(f.Parent())
	}
	return f.Blocks != nil && (strings.Contains(f.Synthetic, "bound") || strings.Contains(f.Synthetic, "thunk") || strings.Contains(f.Synthetic, "wrapper"))
}

func (in *Interp) doCallWith(fr *frame, p *path, c *ssa.CallCommon, site ssa.Instruction, fnv *Term, args []*Term, df *frame) []*Outcome {
	ci := in.callInfo(fr, c, site, fnv, args)
	ci.Deferd = df != nil
	return in.invoke(fr, p.st, ci, df)
}

// invoke performs a call described by ci on st.
func (in *Interp) invoke(fr *frame, st *State, ci *CallInfo, df *frame) []*Outcome {
	if ci.Kind == "builtin" {
		return in.builtin(fr, st, ci, df)
	}
	if in.cfg.Contract != nil {
		if outs, ok := in.cfg.Contract(in, ci, st); ok {
			return outs
		}
	}
	if outs, ok := in.model(fr, st, ci); ok {
		return outs
	}
	if (ci.Kind == "static" || ci.Kind == "closure") && ci.Fn.Blocks != nil && inRepo(ci.Fn) {
		onStack := false
		for _, f := range in.stack {
			if f == ci.Fn {
				onStack = true
			}
		}
		if onStack && !in.recursive[ci.Fn] {
			in.recursive[ci.Fn] = true
			if ci.Fn != in.root {
				in.newRec = true
				panic(restart{})
			}
		}
		if in.recursive[ci.Fn] {
			return in.opaque(fr, st, ci, "rec")
		}
		var binds []*Term
		if ci.Kind == "closure" {
			binds = ci.FnTerm.Args
		}
		ctx := fr.ctx + "/" + siteID(ci.Site)
		return in.call(ci.Fn, ci.Args, binds, st, df, ctx)
	}
	switch ci.Kind {
	case "static", "closure":
		return in.opaque(fr, st, ci, "ext")
	case "invoke":
		return in.opaque(fr, st, ci, "invoke")
	}
	return in.opaque(fr, st, ci, "user")
}

func siteID(s ssa.Instruction) string {
	if s == nil {
		return "?"
	}
	blk := s.Block()
	if blk == nil {
		return "?"
	}
	for i, x := range blk.Instrs {
		if x == s {
			return fmt.Sprintf("%s.%d.%d", blk.Parent().Name(), blk.Index, i)
		}
	}
	return "?"
}

// opaque models a call to code that is not looked into.
func (in *Interp) opaque(fr *frame, st *State, ci *CallInfo, kind string) []*Outcome {
	ev := &Event{Kind: kind, Name: ci.Name, Callee: ci.Fn, Pos: sitePos(ci.Site), Recv: ci.Recv, Args: ci.Args}
	if kind == "user" || kind == "rec" {
		ev.Recv = ci.FnTerm
	}
	if kind == "invoke" && in.cfg.PureInvk != nil {
		if t := in.cfg.PureInvk(ci); t != nil {
			ev.Res = t
			in.event(fr, st, ev)
			return []*Outcome{{Kind: "ret", St: st, Res: []*Term{t}}}
		}
	}
	pure := false
	if kind == "ext" {
		pure = pureExt(ci.Name)
	}
	if !pure && kind != "rec" {
		for _, a := range ci.Args {
			st.escape(a)
		}
		if ci.Recv != nil {
			st.escape(ci.Recv)
		}
	}
	del := boundsOn && kind == "ext" && ci.Name == "slices.Delete" && len(ci.Args) == 3
	if del {
		in.bound(fr, st, ev.Pos, "slice", ci.Args[0], ci.Args[1], ci.Args[2])
	}
	in.event(fr, st, ev)
	if kind == "rec" {
		ev.St = st.clone()
	}
	var res []*Term
	rs := ci.Sig.Results()
	for i := 0; i < rs.Len(); i++ {
		var t *Term
		if kind == "ext" && pure {
			deep := make([]*Term, len(ci.Args))
			for j, a := range ci.Args {
				deep[j] = in.deepArg(st, a)
			}
			t = mk("ext", fmt.Sprintf("%s@%d.%d", ci.Name, ev.ID, i), rs.At(i).Type(), ev, deep...)
			if ci.Name == "runtime.NumCPU" {
				t = mk("numcpu", "", tyInt, nil)
			}
		} else {
			t = mk("res", fmt.Sprintf("%d.%d", ev.ID, i), rs.At(i).Type(), ev)
		}
		res = append(res, t)
	}
	if len(res) == 1 {
		ev.Res = res[0]
	} else if len(res) > 1 {
		ev.Res = mk("tuple", "", ci.Sig.Results(), nil, res...)
	}
	if !pure {
		st.havoc()
	}
	if del {
		st.facts = st.facts.add(eqInt(mkLen(res[0]), sub(mkLen(ci.Args[0]), sub(ci.Args[2], ci.Args[1]))), true)
	}
	ok := &Outcome{Kind: "ret", St: st, Res: res}
	if in.cfg.UserPanics && (kind == "user" || kind == "rec" || kind == "invoke") {
		pst := st.clone()
		pv := mk("panicval", fmt.Sprint(ev.ID), nil, ev)
		in.event(fr, pst, &Event{Kind: "panicked", Pos: ev.Pos, Args: []*Term{pv}})
		return []*Outcome{ok, {Kind: "panic", St: pst, PV: pv}}
	}
	return []*Outcome{ok}
}

func sitePos(s ssa.Instruction) token.Pos {
	if s == nil {
		return token.NoPos
	}
	return s.Pos()
}

// deepArg resolves a variadic argument slice to the list of its elements.
func (in *Interp) deepArg(st *State, a *Term) *Term {
	if l := in.asList(st, a); l != nil {
		return l
	}
	return a
}

func (in *Interp) asList(st *State, a *Term) *Term {
	if a.Op == "nil" {
		return mk("list", "", a.Typ, nil)
	}
	if a.Op == "list" {
		return a
	}
	if a.Op != "slice" || a.Args[0].Op != "alloc" {
		return nil
	}
	lo, ok1 := a.Args[1].intConst()
	hi, ok2 := a.Args[2].intConst()
	if !ok1 || !ok2 || hi-lo > 64 {
		return nil
	}
	var et types.Type
	if at, ok := deref(a.Args[0].Typ).Underlying().(*types.Array); ok {
		et = at.Elem()
	} else {
		return nil
	}
	var els []*Term
	for i := lo; i < hi; i++ {
		els = append(els, st.load(mkIdxAddr(a.Args[0], mkInt(i), ptrTo(et)), et))
	}
	return mk("list", "", a.Typ, nil, els...)
}

func pureExt(name string) bool {
	switch name {
	case "runtime.NumCPU", "errors.New", "errors.Is", "errors.As", "sync.NewCond", "slices.Clone", "bytes.Clone", "context.Background", "context.TODO", "context.WithCancel", "math.Log2", "math.Ceil", "math.Exp2", "math.Floor", "sort.IsSorted", "runtime/debug.Stack", "math/bits.Len", "math.IsNaN", "runtime.GOMAXPROCS":
		return true
	}
	return strings.HasPrefix(name, "fmt.Sprint") || strings.HasPrefix(name, "fmt.Errorf") || strings.HasPrefix(name, "strconv.") || strings.HasPrefix(name, "math/bits.") || strings.HasPrefix(name, "math.") || strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "cmp.") || strings.HasPrefix(name, "(*bufio.Scanner).") || name == "bufio.NewScanner"
}

func (in *Interp) typeAssert(st *State, v *Term, t types.Type) (val, ok *Term) {
	if v.Op == "mkiface" {
		ct := v.Ref.(types.Type)
		if types.Identical(ct, t) {
			return v.Args[0], mkBool(true)
		}
		if _, isI := t.Underlying().(*types.Interface); !isI {
			if _, tp := ct.(*types.TypeParam); !tp {
				if _, tp := t.(*types.TypeParam); !tp {
					return zeroTerm(t), mkBool(false)
				}
			}
		}
	}
	if isNil(v) {
		return zeroTerm(t), mkBool(false)
	}
	ts := typeStr(t)
	val = mk("assert", ts, t, t, v)
	ok = mk("assertok", ts, tyBool, t, v)
	return
}

func (in *Interp) simple(fr *frame, p *path, ins ssa.Instruction) {
	st := p.st
	set := func(v ssa.Value, t *Term) { p.env[v] = t }
	switch x := ins.(type) {
	case *ssa.Alloc:
		et := deref(x.Type())
		name := x.Comment
		a := mk("alloc", fmt.Sprintf("%s@%s/%s", name, fr.ctx, siteID(x)), x.Type(), x)
		for k := range st.mem {
			if rootOf(k) == a {
				delete(st.mem, k)
			}
		}
		delete(st.esc, a)
		st.allocs[a] = true
		in.zeroInit(st, a, et, 0)
		set(x, a)
	case *ssa.BinOp:
		a, b := in.val(fr, p, x.X), in.val(fr, p, x.Y)
		if (x.Op == token.QUO || x.Op == token.REM) && isIntType(x.X.Type()) {
			in.bound(fr, st, x.Pos(), "div", nil, b)
		}
		r := in.binop(p.st, x.Op, a, b, x.X.Type(), x.Type())
		if in.cfg.Arith && (x.Op == token.ADD || x.Op == token.SUB || x.Op == token.MUL) && isIntType(x.Type()) {
			_, ak := a.intConst()
			_, bk := b.intConst()
			if !ak && !bk {
				in.event(fr, st, &Event{Kind: "arith", Name: x.Op.String(), Pos: x.Pos(), Args: []*Term{a, b}, Res: r})
			}
		}
		set(x, r)
	case *ssa.UnOp:
		v := in.val(fr, p, x.X)
		switch x.Op {
		case token.MUL:
			et := deref(x.X.Type())
			t := st.load(v, x.Type())
			_ = et
			in.event(fr, st, &Event{Kind: "ld", Pos: x.Pos(), Recv: v, Res: t})
			set(x, t)
		case token.NOT:
			set(x, mkNot(v))
		case token.SUB:
			if isIntType(x.Type()) {
				set(x, linTerm(linScale(toLin(v), -1)))
			} else {
				set(x, mk("neg", "", x.Type(), nil, v))
			}
		case token.ARROW:
			ev := in.event(fr, st, &Event{Kind: "recv", Pos: x.Pos(), Recv: v})
			et := v.Typ
			_ = et
			rt := x.Type()
			if x.CommaOk {
				tup := rt.(*types.Tuple)
				val := mk("recvval", fmt.Sprint(ev.ID), tup.At(0).Type(), ev)
				ok := mk("recvok", fmt.Sprint(ev.ID), tyBool, ev)
				ev.Res = val
				set(x, mk("tuple", "", rt, nil, val, ok))
			} else {
				val := mk("recvval", fmt.Sprint(ev.ID), rt, ev)
				ev.Res = val
				set(x, val)
			}
		default:
			set(x, mk("unop"+x.Op.String(), "", x.Type(), nil, v))
		}
	case *ssa.Store:
		a, v := in.val(fr, p, x.Addr), in.val(fr, p, x.Val)
		if !st.private(a) {
			st.escape(v)
		}
		st.store(a, v, deref(x.Addr.Type()))
		in.event(fr, st, &Event{Kind: "st", Pos: x.Pos(), Recv: a, Args: []*Term{v}})
		if v.Op == "makechan" && isSignalField(a) {
			st.wg[a] = &Lin{k: 1}
			in.event(fr, st, &Event{Kind: "wgadd", Pos: x.Pos(), Recv: a, Args: []*Term{mkInt(1)}})
		}
	case *ssa.FieldAddr:
		b := in.val(fr, p, x.X)
		stt := deref(x.X.Type()).Underlying().(*types.Struct)
		set(x, mkFieldAddr(b, x.Field, stt.Field(x.Field).Name(), x.Type()))
	case *ssa.Field:
		set(x, mkField(in.val(fr, p, x.X), x.Field, x.Type()))
	case *ssa.IndexAddr:
		in.bound(fr, st, x.Pos(), "index", in.val(fr, p, x.X), mkInt(0), in.val(fr, p, x.Index))
		set(x, mkIdxAddr(in.val(fr, p, x.X), in.val(fr, p, x.Index), x.Type()))
	case *ssa.Index:
		in.bound(fr, st, x.Pos(), "index", in.val(fr, p, x.X), mkInt(0), in.val(fr, p, x.Index))
		set(x, mk("index", "", x.Type(), nil, in.val(fr, p, x.X), in.val(fr, p, x.Index)))
	case *ssa.Lookup:
		m, k := in.val(fr, p, x.X), in.val(fr, p, x.Index)
		ver := fmt.Sprintf("%d", st.class["M:"])
		var vt types.Type = x.Type()
		if x.CommaOk {
			vt = x.Type().(*types.Tuple).At(0).Type()
		}
		val := mk("mapget", ver, vt, nil, m, k)
		ok := mk("maphas", ver, tyBool, nil, m, k)
		in.event(fr, st, &Event{Kind: "mapget", Pos: x.Pos(), Recv: m, Args: []*Term{k}, Res: val})
		if x.CommaOk {
			set(x, mk("tuple", "", x.Type(), nil, val, ok))
		} else {
			set(x, val)
		}
	case *ssa.MapUpdate:
		m, k, v := in.val(fr, p, x.Map), in.val(fr, p, x.Key), in.val(fr, p, x.Value)
		st.class["M:"] = nextVer()
		in.event(fr, st, &Event{Kind: "mapset", Pos: x.Pos(), Recv: m, Args: []*Term{k, v}})
	case *ssa.MakeMap:
		set(x, mk("makemap", fr.ctx+"/"+siteID(x), x.Type(), x))
	case *ssa.MakeChan:
		t := mk("makechan", fr.ctx+"/"+siteID(x), x.Type(), x, in.val(fr, p, x.Size))
		in.event(fr, st, &Event{Kind: "make", Pos: x.Pos(), Res: t})
		if isResult(t) {
			cell := resultCell(t)
			delete(st.esc, cell)
			delete(st.ghost, "received:"+t.Aux)
			st.allocs[cell] = true
			in.zeroInit(st, cell, deref(cell.Typ), 0)
		}
		if isSignal(t) || isResult(t) {
			st.wg[t] = &Lin{k: 1}
			in.event(fr, st, &Event{Kind: "wgadd", Pos: x.Pos(), Recv: t, Args: []*Term{mkInt(1)}})
		}
		set(x, t)
	case *ssa.MakeSlice:
		in.bound(fr, st, x.Pos(), "make", nil, mkInt(0), in.val(fr, p, x.Len), in.val(fr, p, x.Cap))
		t := mk("makeslice", fr.ctx+"/"+siteID(x), x.Type(), x, in.val(fr, p, x.Len))
		in.event(fr, st, &Event{Kind: "make", Pos: x.Pos(), Res: t})
		set(x, t)
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, in.val(fr, p, b))
		}
		o := f
		if f.Origin() != nil {
			o = f.Origin()
		}
		set(x, mk("closure", o.String(), x.Type(), o, bs...))
	case *ssa.MakeInterface:
		v := in.val(fr, p, x.X)
		set(x, mk("mkiface", typeStr(x.X.Type()), x.Type(), x.X.Type(), v))
	case *ssa.ChangeType:
		v := in.val(fr, p, x.X)
		set(x, v)
	case *ssa.ChangeInterface:
		set(x, in.val(fr, p, x.X))
	case *ssa.Convert:
		v := in.val(fr, p, x.X)
		if isIntType(x.X.Type()) && isIntType(x.Type()) {
			if k, isK := v.intConst(); !(isK && k >= 0 && k < 128) && narrowing(x.X.Type(), x.Type()) {
				set(x, mk("conv", "narrow>"+typeKind(x.Type()), x.Type(), nil, v))
			} else {
				set(x, v)
			}
		} else {
			set(x, mk("conv", typeKind(x.X.Type())+">"+typeKind(x.Type()), x.Type(), nil, v))
		}
	case *ssa.MultiConvert:
		set(x, mk("conv", "multi>"+typeStr(x.Type()), x.Type(), nil, in.val(fr, p, x.X)))
	case *ssa.Slice:
		set(x, in.slice(fr, p, x))
	case *ssa.Extract:
		set(x, mkField(in.val(fr, p, x.Tuple), x.Index, x.Type()))
	case *ssa.Send:
		ch, v := in.val(fr, p, x.Chan), in.val(fr, p, x.X)
		if isResult(ch) {
			cell := resultCell(ch)
			st.store(cell, v, deref(cell.Typ))
			in.event(fr, st, &Event{Kind: "st", Pos: x.Pos(), Recv: cell, Args: []*Term{v}})
			st.wg[ch] = linAdd(wgOf(st, ch), &Lin{k: 1}, -1)
			in.event(fr, st, &Event{Kind: "wgdone", Pos: x.Pos(), Recv: ch})
			break
		}
		st.escape(v)
		in.event(fr, st, &Event{Kind: "send", Pos: x.Pos(), Recv: ch, Args: []*Term{v}})
	case *ssa.Range:
		set(x, mk("rangeiter", fr.ctx+siteID(x), nil, x, in.val(fr, p, x.X)))
	case *ssa.Next:
		tup := x.Type().(*types.Tuple)
		set(x, mk("tuple", "", tup, nil, freshSym("next.ok", tyBool), freshSym("next.k", tup.At(1).Type()), freshSym("next.v", tup.At(2).Type())))
	default:
		in.fail("unsupported instruction %T in %s", ins, fr.fn)
	}
}

// narrowing conversions do not keep every value.
func narrowing(from, to types.Type) bool {
	sz := func(t types.Type) int64 {
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			return 0
		}
		return types.SizesFor("gc", "amd64").Sizeof(b)
	}
	return sz(to) < sz(from)
}

func (in *Interp) zeroInit(st *State, a *Term, t types.Type, d int) {
	if s := structOf(t); s != nil {
		if opaqueStruct(t) || d > 2 {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			in.zeroInit(st, mkFieldAddr(a, i, f.Name(), ptrTo(f.Type())), f.Type(), d+1)
		}
		return
	}
	if _, ok := t.Underlying().(*types.Array); ok {
		if _, tp := t.(*types.TypeParam); !tp {
			return
		}
	}
	st.mem[a] = zeroTerm(t)
}

func (in *Interp) slice(fr *frame, p *path, x *ssa.Slice) *Term {
	b := in.val(fr, p, x.X)
	lo := mkInt(0)
	if x.Low != nil {
		lo = in.val(fr, p, x.Low)
	}
	var hi *Term
	if x.High != nil {
		hi = in.val(fr, p, x.High)
	} else if at, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
		hi = mkInt(at.Len())
	} else {
		hi = mkLen(b)
	}
	if x.Max != nil {
		in.bound(fr, p.st, x.Pos(), "slice", b, lo, hi, in.val(fr, p, x.Max))
	} else {
		in.bound(fr, p.st, x.Pos(), "slice", b, lo, hi)
	}
	return mkSliceOf(b, lo, hi, x.Type())
}

// boundsOn asks for events that say which indexes, slice bounds, lengths and
// divisors are used; only C36 reads them.
var boundsOn bool

func (in *Interp) bound(fr *frame, st *State, pos token.Pos, kind string, base *Term, args ...*Term) {
	if boundsOn {
		in.event(fr, st, &Event{Kind: "bound", Name: kind, Pos: pos, Recv: base, Args: args})
	}
}

func (in *Interp) binop(st *State, op token.Token, a, b *Term, xt, rt types.Type) *Term {
	ints := isIntType(xt)
	switch op {
	case token.ADD:
		if ints {
			return add(a, b)
		}
	case token.SUB:
		if ints {
			return sub(a, b)
		}
	case token.MUL:
		if ints {
			return mul(a, b)
		}
	case token.QUO:
		if ints {
			if k, ok := b.intConst(); ok && k == 1 {
				return a
			}
			if k, ok := a.intConst(); ok {
				if c, ok := b.intConst(); ok && c != 0 {
					return mkInt(k / c)
				}
			}
			return mk("div", "", tyInt, nil, a, b)
		}
	case token.REM:
		if ints {
			if k, ok := a.intConst(); ok {
				if c, ok := b.intConst(); ok && c != 0 {
					return mkInt(k % c)
				}
			}
			return mk("rem", "", tyInt, nil, a, b)
		}
	case token.SHL:
		if ints {
			if k, ok := b.intConst(); ok && k >= 0 && k < 40 {
				return mul(a, mkInt(1<<uint(k)))
			}
			return mk("shl", "", tyInt, nil, a, b)
		}
	case token.SHR:
		if ints {
			if k, ok := b.intConst(); ok && k >= 0 && k < 40 && st.facts.entailsLe0(linScale(toLin(a), -1)) {
				return mk("div", "", tyInt, nil, a, mkInt(1<<uint(k)))
			}
			return mk("shr", "", tyInt, nil, a, b)
		}
	case token.LSS:
		if ints {
			return lt(a, b)
		}
		return mk("op<", typeKind(xt), tyBool, nil, a, b)
	case token.LEQ:
		if ints {
			return le(a, b)
		}
		return mk("op<=", typeKind(xt), tyBool, nil, a, b)
	case token.GTR:
		if ints {
			return lt(b, a)
		}
		return mk("op<", typeKind(xt), tyBool, nil, b, a)
	case token.GEQ:
		if ints {
			return le(b, a)
		}
		return mk("op<=", typeKind(xt), tyBool, nil, b, a)
	case token.EQL, token.NEQ:
		var r *Term
		if ints {
			r = eqInt(a, b)
		} else if isFloatish(xt) {
			x, y := a, b
			if x.id > y.id {
				x, y = y, x
			}
			r = mk("feq", "", tyBool, nil, x, y)
		} else {
			r = mkEq(a, b)
		}
		if op == token.NEQ {
			return mkNot(r)
		}
		return r
	}
	return mk("op"+op.String(), typeKind(xt), rt, nil, a, b)
}

func isFloatish(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.(*types.TypeParam); ok {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

func (in *Interp) builtin(fr *frame, st *State, ci *CallInfo, df *frame) []*Outcome {
	ret := func(t ...*Term) []*Outcome { return []*Outcome{{Kind: "ret", St: st, Res: t}} }
	a := ci.Args
	switch ci.Name {
	case "len":
		return ret(mkLen(a[0]))
	case "cap":
		return ret(mk("cap", "", tyInt, nil, a[0]))
	case "append":
		x := a[0]
		var y *Term
		if len(a) > 1 {
			y = in.deepArg(st, a[1])
		} else {
			y = mk("list", "", nil, nil)
		}
		var els []*Term
		if y.Op == "list" {
			els = y.Args
			if len(els) == 0 {
				return ret(x)
			}
		}
		t := mk("append", "", x.Typ, nil, x, y)
		if t.Typ == nil {
			t.Typ = ci.Sig.Results().At(0).Type()
		}
		in.event(fr, st, &Event{Kind: "append", Pos: sitePos(ci.Site), Args: []*Term{x, y}, Res: t})
		return ret(t)
	case "copy":
		ev := in.event(fr, st, &Event{Kind: "copy", Pos: sitePos(ci.Site), Args: a})
		st.class["I:?"] = nextVer()
		for m := range st.mem {
			if m.Op == "idxaddr" && !(st.private(m) && rootOf(m) != rootOf(a[0])) {
				delete(st.mem, m)
			}
		}
		t := mk("copied", fmt.Sprint(ev.ID), tyInt, ev)
		return ret(t)
	case "close":
		if w := signalOf(st, a[0]); w != nil {
			st.wg[w] = linAdd(wgOf(st, w), &Lin{k: 1}, -1)
			in.event(fr, st, &Event{Kind: "wgdone", Pos: sitePos(ci.Site), Recv: w})
			return ret()
		}
		in.event(fr, st, &Event{Kind: "close", Pos: sitePos(ci.Site), Recv: a[0]})
		return ret()
	case "delete":
		st.class["M:"] = nextVer()
		in.event(fr, st, &Event{Kind: "mapdel", Pos: sitePos(ci.Site), Recv: a[0], Args: a[1:]})
		return ret()
	case "clear":
		st.class["M:"] = nextVer()
		in.event(fr, st, &Event{Kind: "clear", Pos: sitePos(ci.Site), Recv: a[0]})
		st.havoc()
		return ret()
	case "min", "max":
		if isIntType(ci.Sig.Results().At(0).Type()) || allInts(a) {
			outs := []*Outcome{{Kind: "ret", St: st, Res: []*Term{a[0]}}}
			for _, y := range a[1:] {
				var n []*Outcome
				for _, o := range outs {
					x := o.Res[0]
					c := le(x, y)
					if ci.Name == "max" {
						c = le(y, x)
					}
					if d := o.St.facts.Decide(c); d >= 0 {
						s := o.St.clone()
						s.facts = s.facts.add(c, true)
						n = append(n, &Outcome{Kind: "ret", St: s, Res: []*Term{x}})
					}
					if d := o.St.facts.Decide(c); d <= 0 {
						s := o.St.clone()
						s.facts = s.facts.add(c, false)
						n = append(n, &Outcome{Kind: "ret", St: s, Res: []*Term{y}})
					}
				}
				outs = n
			}
			return outs
		}
		return ret(mk(ci.Name, "", nil, nil, a...))
	case "recover":
		// legal only directly in a deferred function
		if fr.deferred && fr.pv != nil && st.ghost["recovered"] == nil {
			st.ghost["recovered"] = fr.pv
			in.event(fr, st, &Event{Kind: "recover", Pos: sitePos(ci.Site), Res: fr.pv})
			return ret(fr.pv)
		}
		return ret(mkNil(nil))
	case "print", "println":
		return ret()
	case "ssa:wrapnilchk":
		return ret(a[0])
	case "panic":
		return []*Outcome{{Kind: "panic", St: st, PV: a[0]}}
	}
	in.fail("unsupported builtin %s in %s", ci.Name, fr.fn)
	return nil
}

func allInts(a []*Term) bool {
	for _, x := range a {
		if x.lin == nil && !isIntType(x.Typ) {
			return false
		}
	}
	return true
}

func (in *Interp) doSelect(fr *frame, p *path, x *ssa.Select, k func(q *path)) {
	var cases []SelCase
	for _, s := range x.States {
		c := SelCase{Send: s.Dir == types.SendOnly, Chan: in.val(fr, p, s.Chan)}
		if c.Send {
			c.Val = in.val(fr, p, s.Send)
			p.st.escape(c.Val)
		}
		cases = append(cases, c)
	}
	n := len(cases)
	start := 0
	if !x.Blocking {
		start = -1
	}
	tup := x.Type().(*types.Tuple)
	for i := start; i < n; i++ {
		q := p
		if i < n-1 {
			q = p.clone()
		}
		ev := in.event(fr, q.st, &Event{Kind: "select", Pos: x.Pos(), Cases: cases, Chosen: i, Block: x.Blocking})
		vals := []*Term{mkInt(int64(i)), mkBool(false)}
		r := 2
		for j, c := range cases {
			if c.Send {
				continue
			}
			if j == i {
				v := mk("recvval", fmt.Sprint(ev.ID), tup.At(r).Type(), ev)
				vals[1] = mk("recvok", fmt.Sprint(ev.ID), tyBool, ev)
				ev.Res = v
				vals = append(vals, v)
			} else {
				vals = append(vals, zeroTerm(tup.At(r).Type()))
			}
			r++
		}
		q.env[x] = mk("tuple", "", tup, nil, vals...)
		k(q)
	}
}

func (in *Interp) doGo(fr *frame, p *path, x *ssa.Go) {
	st := p.st
	fnv := in.val(fr, p, x.Call.Value)
	var args []*Term
	for _, a := range x.Call.Args {
		args = append(args, in.val(fr, p, a))
	}
	ci := in.callInfo(fr, &x.Call, x, fnv, args)
	in.spawn(fr, st, ci)
}

func (in *Interp) spawn(fr *frame, st *State, ci *CallInfo) *Task {
	taskCounter++
	t := &Task{ID: taskCounter}
	ts := st.clone()
	ts.ev = nil
	ts.tasks = nil
	ts.locks = nil
	ts.ghost = map[string]*Term{}
	for k, v := range st.ghost {
		if k != "recovered" {
			ts.ghost[k] = v
		}
	}
	if in.cfg.SpawnHavoc {
		ts.havoc()
	}
	t.Start = ts.clone()
	ev := in.event(fr, st, &Event{Kind: "go", Pos: sitePos(ci.Site), Task: t, Name: ci.Name, Callee: ci.Fn, Args: ci.Args, Recv: ci.FnTerm})
	t.Go = ev
	save := in.stack
	// recursion through a spawned call is recursion of the same contract
	t.Outs = in.invoke(fr, ts, ci, nil)
	in.stack = save
	st.tasks = append(st.tasks, &TaskRef{T: t, Mark: st.ev.n})
	return t
}

// Constant helpers used by rules.
func constStr(t *Term) (string, bool) {
	if t.Op == "const" && strings.HasSuffix(t.Aux, ":string") {
		if v := constant.MakeFromLiteral(strings.TrimSuffix(t.Aux, ":string"), token.STRING, 0); v.Kind() == constant.String {
			return constant.StringVal(v), true
		}
	}
	return "", false
}
