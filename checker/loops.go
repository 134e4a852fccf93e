package main

// Loop summarisation. A loop is analysed once, at its head: everything its
// body may change is havocked (found by a fixpoint over passes through the
// body), candidate inequalities are kept as long as they are inductive, and
// the last pass records every path through one iteration and every way out.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*loopCtx{}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopCtx {
	if m, ok := loopCache[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]*loopCtx{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			lp := m[h]
			if lp == nil {
				lp = &loopCtx{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				m[h] = lp
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if lp.blocks[x] {
					continue
				}
				lp.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	loopCache[fn] = m
	return m
}

type loopMod struct {
	cells map[*Term]*Term // address -> symbol at the head
	types map[*Term]types.Type
	class map[string]int
	heap  int
	esc   map[*Term]bool
	gone  map[*Term]bool
	ghost map[string]*Term
	wgs   map[*Term]bool
	locks bool
}

func (in *Interp) loop(fr *frame, lp *loopCtx, b, prev *ssa.BasicBlock, p *path, lc *loopCtx, sk *sink) {
	pre := p.clone()
	entryID := TT.next
	// header phis
	idx := -1
	for i, q := range b.Preds {
		if q == prev {
			idx = i
		}
	}
	var phis []*ssa.Phi
	var vars []*LoopVar
	for _, ins := range b.Instrs {
		x, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, x)
		init := in.val(fr, p, x.Edges[idx])
		name := x.Comment
		if name == "" {
			name = x.Name()
		}
		if cellPhi(x) && init.Op == "alloc" {
			// a loop variable that is copied to a new cell for every iteration
			et := deref(x.Type())
			vars = append(vars, &LoopVar{Name: name, Sym: freshSym("loop."+name, et), Init: pre.st.load(init, et), Phi: x,
				Cell: mk("alloc", fmt.Sprintf("%s@%s/loop%d", name, fr.ctx, TT.next), x.Type(), x)})
			continue
		}
		vars = append(vars, &LoopVar{Name: name, Sym: freshSym("loop."+name, x.Type()), Init: init, Phi: x})
	}
	md := &loopMod{cells: map[*Term]*Term{}, types: map[*Term]types.Type{}, class: map[string]int{}, esc: map[*Term]bool{}, gone: map[*Term]bool{}, ghost: map[string]*Term{}, wgs: map[*Term]bool{}}

	invariantTerm := func(t *Term) bool { return in.loopInvariant(pre.st, t, entryID, md) }

	var inv []*Term
	in.loopID++
	L := &Loop{ID: in.loopID, Header: b, Fn: fr.fn, Pre: pre.st, Entry: pre.st.facts}
	for _, ins := range b.Instrs {
		if ins.Pos().IsValid() {
			L.Pos = ins.Pos()
			break
		}
	}
	if !L.Pos.IsValid() {
		for bb := range lp.blocks {
			for _, ins := range bb.Instrs {
				if ins.Pos().IsValid() && (!L.Pos.IsValid() || ins.Pos() < L.Pos) {
					L.Pos = ins.Pos()
				}
			}
		}
	}

	cellEsc := false
	head := func() *path {
		h := pre.clone()
		for i, x := range phis {
			h.env[x] = vars[i].Sym
			if c := vars[i].Cell; c != nil {
				h.env[x] = c
				h.st.allocs[c] = true
				h.st.mem[c] = vars[i].Sym
				if cellEsc || pre.st.esc[in.val(fr, pre, x.Edges[idx])] {
					h.st.esc[c] = true
				}
			}
		}
		if md.heap != 0 {
			for a := range h.st.mem {
				if !h.st.private(a) && !stableClass[classOf(a)] {
					delete(h.st.mem, a)
				}
			}
			h.st.heap = md.heap
		}
		for c, v := range md.class {
			for a := range h.st.mem {
				if classOf(a) == c && a.Op != "alloc" {
					if _, ok := md.cells[a]; !ok && md.gone[a] {
						delete(h.st.mem, a)
					}
				}
			}
			h.st.class[c] = v
		}
		for a := range md.gone {
			delete(h.st.mem, a)
		}
		for a := range md.esc {
			h.st.esc[a] = true
		}
		for a, s := range md.cells {
			h.st.mem[a] = s
		}
		for g, s := range md.ghost {
			if s == nil {
				delete(h.st.ghost, g)
			} else {
				h.st.ghost[g] = s
			}
		}
		for w := range md.wgs {
			h.st.wgUnk[w] = true
		}
		for _, c := range inv {
			h.st.facts = h.st.facts.add(c, true)
		}
		return h
	}
	run := func(h *path, mark func(h *path)) *sink {
		if mark != nil {
			mark(h)
		}
		s := &sink{}
		in.instrs(fr, b, len(phis), h, lp, s)
		return s
	}

	in.quiet++
	// 1. what does the body modify?
	for pass := 0; ; pass++ {
		if pass > 30 {
			in.fail("loop modification fixpoint does not stabilise in %s", fr.fn)
		}
		h := head()
		hs := h.st.clone()
		s := run(h, nil)
		changed := false
		for _, o := range s.back {
			for i, x := range phis {
				if vars[i].Cell == nil || cellEsc {
					continue
				}
				for j, q := range b.Preds {
					if q == o.from && o.St.esc[in.val(fr, &path{env: o.env, st: o.St}, x.Edges[j])] {
						cellEsc = true
						changed = true
					}
				}
			}
			for _, v := range vars {
				if v.Cell != nil {
					// dead at the back edge: the next iteration has its own
					delete(hs.mem, v.Cell)
					delete(o.St.mem, v.Cell)
				}
			}
			if in.mergeMods(md, hs, o.St, invariantTerm) {
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	// loop variables for memory cells and ghosts
	var cellAddrs []*Term
	for a := range md.cells {
		cellAddrs = append(cellAddrs, a)
	}
	sort.Slice(cellAddrs, func(i, j int) bool { return cellAddrs[i].id < cellAddrs[j].id })
	for _, a := range cellAddrs {
		init, ok := pre.st.mem[a]
		if !ok {
			init = pre.st.loadTerm(a, md.types[a])
		}
		vars = append(vars, &LoopVar{Name: addrPath(a), Sym: md.cells[a], Init: init, Addr: a})
	}
	var gs []string
	for g := range md.ghost {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		if s := md.ghost[g]; s != nil {
			vars = append(vars, &LoopVar{Name: "ghost " + g, Sym: s, Init: pre.st.ghost[g], Gh: g})
		}
	}
	nextOf := func(o *Outcome) map[*Term]*Term {
		m := map[*Term]*Term{}
		bi := -1
		for i, q := range b.Preds {
			if q == o.from {
				bi = i
			}
		}
		for i, x := range phis {
			t := in.val(fr, &path{env: o.env, st: o.St}, x.Edges[bi])
			if vars[i].Cell != nil {
				t = o.St.load(t, deref(x.Type()))
			}
			m[vars[i].Sym] = t
		}
		for _, v := range vars {
			if v.Addr != nil {
				if t, ok := o.St.mem[v.Addr]; ok {
					m[v.Sym] = t
				} else {
					m[v.Sym] = o.St.loadTerm(v.Addr, v.Sym.Typ)
				}
			}
			if v.Gh != "" {
				m[v.Sym] = o.St.ghost[v.Gh]
			}
		}
		return m
	}
	// 2. inductive inequalities
	initMap := map[*Term]*Term{}
	for _, v := range vars {
		initMap[v.Sym] = v.Init
	}
	{
		inv = nil
		h := head()
		s := run(h, nil)
		cands := in.candidates(vars, s, invariantTerm)
		if boundsOn {
			cands = append(cands, entryCandidates(vars, pre.st.facts)...)
		}
		for _, c := range cands {
			if pre.st.facts.Entails(subst(c, initMap)) {
				inv = append(inv, c)
			}
		}
		for pass := 0; pass < 20 && len(inv) > 0; pass++ {
			h := head()
			s := run(h, nil)
			var keep []*Term
			for _, c := range inv {
				ok := true
				for _, o := range s.back {
					m := nextOf(o)
					n := subst(c, m)
					if n == c {
						continue
					}
					if !o.St.facts.Entails(n) {
						ok = false
						break
					}
				}
				if ok {
					keep = append(keep, c)
				}
			}
			if len(keep) == len(inv) {
				break
			}
			inv = keep
		}
	}
	in.quiet--
	// 3. the final pass
	L.Vars = vars
	L.Inv = inv
	L.fixed = invariantTerm
	h := head()
	L.Head = h.st.facts
	ev := &Event{Kind: "loop", Loop: L, Pos: L.Pos}
	in.event(fr, h.st, ev)
	mark := h.st.ev
	h.st.loops = append(h.st.loops, L)
	L.HeadSt = h.st.clone()
	s := run(h, nil)
	for _, o := range s.back {
		if o.St.facts.Feasible() {
			L.Iters = append(L.Iters, &Iter{Events: o.St.ev.since(mark), Next: nextOf(o), St: o.St})
		}
	}
	if in.cfg.OnLoop != nil && in.quiet == 0 {
		in.cfg.OnLoop(in, h.st, L)
	}
	depth := len(pre.st.loops)
	for _, o := range s.outs {
		o.St.loops = o.St.loops[:depth]
		sk.outs = append(sk.outs, o)
	}
	for _, o := range s.exits {
		o.St.loops = o.St.loops[:depth]
		q := &path{env: o.env, defers: o.defers, st: o.St}
		in.transition(fr, o.from, o.to, q, lc, sk)
	}
}

// cellPhi recognises the copy of a captured loop variable per iteration.
func cellPhi(x *ssa.Phi) bool {
	for _, e := range x.Edges {
		if _, ok := e.(*ssa.Alloc); !ok {
			return false
		}
	}
	return structOf(deref(x.Type())) == nil
}

// loopInvariant reports that t denotes the same value in every iteration.
func (in *Interp) loopInvariant(pre *State, t *Term, entryID int, md *loopMod) bool {
	if t.id <= entryID {
		// existed before the loop: a value, hence constant, unless it is one of
		// the head symbols (those are newer)
		return true
	}
	switch t.Op {
	case "param", "global", "func", "const", "int", "nil", "zero", "numcpu", "builtin":
		return true
	case "load":
		if pre.loadTerm(t.Args[0], t.Typ) != t {
			return false
		}
		if _, bumped := md.class[classOf(t.Args[0])]; bumped {
			return false
		}
		if md.heap != 0 && !pre.private(t.Args[0]) && !stableClass[classOf(t.Args[0])] {
			return false
		}
		return in.loopInvariant(pre, t.Args[0], entryID, md)
	case "sym", "res", "recvval", "recvok", "alloc", "makeslice", "makechan", "makemap", "ext", "rangeiter", "panicval", "mapget", "maphas", "copied", "closure":
		return false
	}
	if len(t.Args) == 0 {
		return false
	}
	for _, a := range t.Args {
		if !in.loopInvariant(pre, a, entryID, md) {
			return false
		}
	}
	return true
}

func (in *Interp) mergeMods(md *loopMod, h, o *State, invariant func(*Term) bool) bool {
	ch := false
	if o.heap != h.heap && md.heap == 0 {
		md.heap = nextVer()
		ch = true
	}
	for c, v := range o.class {
		if h.class[c] != v {
			if _, ok := md.class[c]; !ok {
				md.class[c] = nextVer()
				ch = true
			}
		}
	}
	for a := range o.esc {
		if !h.esc[a] && !md.esc[a] && invariant(a) {
			md.esc[a] = true
			ch = true
		}
	}
	for a, v := range h.mem {
		ov, ok := o.mem[a]
		if !ok {
			if !md.gone[a] && md.cells[a] == nil {
				md.gone[a] = true
				ch = true
			}
			if md.cells[a] != nil && !md.gone[a] {
				// overwritten through a possible alias: unknown
				delete(md.cells, a)
				md.gone[a] = true
				ch = true
			}
			continue
		}
		if ov != v && md.cells[a] == nil && !md.gone[a] {
			md.cells[a] = freshSym("loop."+addrPath(a), cellType(a))
			md.types[a] = cellType(a)
			ch = true
		}
	}
	for a := range o.mem {
		if _, ok := h.mem[a]; ok || md.cells[a] != nil || md.gone[a] {
			continue
		}
		if (md.heap == 0 || h.private(a) || stableClass[classOf(a)]) && invariant(a) {
			md.cells[a] = freshSym("loop."+addrPath(a), cellType(a))
			md.types[a] = cellType(a)
			ch = true
		}
	}
	for g, v := range h.ghost {
		ov := o.ghost[g]
		if ov == v {
			continue
		}
		if s, ok := md.ghost[g]; !ok {
			if ov != nil && (v.lin != nil || isIntType(v.Typ)) {
				md.ghost[g] = freshSym("ghost."+g, tyInt)
			} else {
				md.ghost[g] = nil
			}
			ch = true
		} else if s != nil && ov == nil {
			md.ghost[g] = nil
			ch = true
		}
	}
	for w, l := range o.wg {
		hl := h.wg[w]
		if hl == nil || linTerm(l) != linTerm(hl) {
			if !md.wgs[w] {
				md.wgs[w] = true
				ch = true
			}
		}
	}
	if strings.Join(h.locks, ",") != strings.Join(o.locks, ",") {
		in.fail("locks held at the head of a loop (%v) differ from those held at its end (%v)", h.locks, o.locks)
	}
	return ch
}

func cellType(a *Term) types.Type {
	if a.Typ == nil {
		return nil
	}
	return deref(a.Typ)
}

// entryCandidates proposes that what is known about the length of a slice
// before the loop stays true.
func entryCandidates(vars []*LoopVar, f *Facts) []*Term {
	var r []*Term
	for _, v := range vars {
		if v.Init == nil || v.Sym.Typ == nil || !isSliceT(v.Sym.Typ) {
			continue
		}
		li := mkLen(v.Init)
		m := map[*Term]*Term{li: mkLen(v.Sym)}
		for _, x := range f.all() {
			c := x.cond
			if c.Op != "le0" {
				continue
			}
			if !x.val {
				c = le0(linAdd(&Lin{k: 1}, toLin(c.Args[0]), -1))
			}
			if !contains(c, li) {
				continue
			}
			if n := subst(c, m); n != c && (n.Op == "le0" || n.Op == "not") && len(r) < 40 {
				r = append(r, n)
			}
		}
	}
	return r
}

// candidates proposes invariants from the loop's variables and conditions.
func (in *Interp) candidates(vars []*LoopVar, s *sink, invariant func(*Term) bool) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	addc := func(c *Term) {
		if c.Op == "const" || seen[c] {
			return
		}
		seen[c] = true
		r = append(r, c)
	}
	addLe := func(l *Lin) { addc(le0(l)) }
	type iv struct{ h, i *Lin }
	var ints []iv
	syms := map[*Term]bool{}
	for _, v := range vars {
		syms[v.Sym] = true
		if isIntType(v.Sym.Typ) {
			ints = append(ints, iv{toLin(v.Sym), toLin(v.Init)})
		} else if v.Sym.Typ != nil {
			if _, ok := v.Sym.Typ.Underlying().(*types.Slice); ok && v.Init != nil {
				ints = append(ints, iv{toLin(mkLen(v.Sym)), toLin(mkLen(v.Init))})
			}
		}
	}
	for _, x := range ints {
		d := linAdd(x.h, x.i, -1)
		addLe(d)
		addLe(linScale(d, -1))
	}
	if len(ints) <= 8 {
		for i, x := range ints {
			for j, y := range ints {
				if i == j {
					continue
				}
				// x <= y
				addLe(linAdd(x.h, y.h, -1))
				addLe(linAdd(linAdd(x.h, y.h, -1), &Lin{k: 1}, 1))
				if i < j {
					d := linAdd(linAdd(x.h, y.h, -1), linAdd(x.i, y.i, -1), -1)
					addLe(d)
					addLe(linScale(d, -1))
					e := linAdd(linAdd(x.h, y.h, 1), linAdd(x.i, y.i, 1), -1)
					addLe(e)
					addLe(linScale(e, -1))
				}
				for k, z := range ints {
					if k <= j || k == i {
						continue
					}
					d := linAdd(linAdd(linAdd(x.h, y.h, -1), z.h, -1), linAdd(linAdd(x.i, y.i, -1), z.i, -1), -1)
					addLe(d)
					addLe(linScale(d, -1))
				}
			}
		}
	}
	// conditions tested in the body
	conds := map[*Term]bool{}
	collect := func(os []*Outcome) {
		for _, o := range os {
			for x := o.St.facts; x != nil; x = x.parent {
				if x.cond.Op == "le0" || x.cond.Op == "eq0" {
					conds[x.cond] = true
				}
			}
		}
	}
	collect(s.back)
	collect(s.exits)
	collect(s.outs)
	var cl []*Term
	for c := range conds {
		cl = append(cl, c)
	}
	sort.Slice(cl, func(i, j int) bool { return cl[i].id < cl[j].id })
	for _, c := range cl {
		l := toLin(c.Args[0])
		has := false
		ok := true
		for _, a := range l.at {
			hs := false
			for sy := range syms {
				if contains(a, sy) {
					hs = true
				}
			}
			if hs {
				has = true
				if !syms[a] && a.Op != "len" {
					ok = false
				}
			} else if !invariant(a) {
				ok = false
			}
		}
		if !has || !ok {
			continue
		}
		for _, d := range []int64{-1, 0, 1} {
			addLe(linAdd(l, &Lin{k: d}, 1))
			addLe(linAdd(linScale(l, -1), &Lin{k: d}, 1))
		}
		if len(l.at) > 0 {
			addLe(linAdd(&Lin{k: 1}, l, -1))
		}
	}
	// distinct references stay distinct
	for i, x := range vars {
		for _, y := range vars[i+1:] {
			if x.Sym.Typ == nil || y.Sym.Typ == nil || isIntType(x.Sym.Typ) {
				continue
			}
			if types.Identical(x.Sym.Typ, y.Sym.Typ) {
				if _, ok := x.Sym.Typ.Underlying().(*types.Slice); ok {
					addc(mkNot(mkEq(x.Sym, y.Sym)))
				}
			}
		}
	}
	if len(r) > 400 {
		r = r[:400]
	}
	return r
}

func (l *Loop) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "loop%d vars:", l.ID)
	for _, v := range l.Vars {
		fmt.Fprintf(&b, " %s:=%s", v.Sym, v.Init)
	}
	fmt.Fprintf(&b, " inv:")
	for _, c := range l.Inv {
		fmt.Fprintf(&b, " {%s}", c)
	}
	return b.String()
}
