package main

// C10: the parallel prefix sum.

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// eff is what a piece of code does to the elements of one destination slice:
// for every index in [lo,hi), and under facts, dst[idx] becomes val.
type eff struct {
	lo, hi *Term
	dst    *Term
	idx    *Term
	val    *Term
	f      *Facts
	pos    tokenPos
}

// elementEffects describes the writes of evs to slice elements that are
// indexed by an index running once through [lo,hi) in steps of one.
func elementEffects(evs []*Event, o *Outcome, f *Facts, lo, hi *Term) ([]eff, error) {
	var effs []eff
	type open struct {
		l   *Loop
		idx *Term
	}
	var last *open
	done := false
	for _, e := range evs {
		switch e.Kind {
		case "copy":
			d, s := asSlice(e.Args[0]), asSlice(e.Args[1])
			if done || last != nil {
				return nil, fmt.Errorf("elements are written twice")
			}
			if !e.Facts.Entails(eqInt(d.Args[1], lo)) || !e.Facts.Entails(eqInt(d.Args[2], hi)) || !e.Facts.Entails(eqInt(sub(s.Args[2], s.Args[1]), sub(hi, lo))) {
				return nil, fmt.Errorf("the copy of %v to %v does not cover [%v,%v)", s, d, lo, hi)
			}
			j := freshSym("copy.index", tyInt)
			g := e.Facts.add(le(lo, j), true).add(lt(j, hi), true)
			si := add(s.Args[1], sub(j, d.Args[1]))
			effs = append(effs, eff{lo, hi, d.Args[0], j, mk("elem", "", nil, nil, s.Args[0], si), g, e.Pos})
			done = true
		case "loop":
			L := e.Loop
			writes := false
			for _, it := range L.Iters {
				n := 0
				for _, x := range it.Events {
					if x.Kind == "loop" {
						return nil, fmt.Errorf("nested loop")
					}
					if x.Kind != "st" || x.Recv.Op != "idxaddr" || rootOf(x.Recv).Op == "alloc" {
						continue
					}
					n++
					if done {
						return nil, fmt.Errorf("elements are written twice")
					}
					writes = true
					idx := x.Recv.Args[1]
					init := map[*Term]*Term{}
					for _, v := range L.Vars {
						init[v.Sym] = v.Init
					}
					if i0 := subst(idx, init); !L.Entry.Entails(eqInt(i0, lo)) {
						return nil, fmt.Errorf("the first index written is %v, not %v", i0, lo)
					}
					if nx := subst(idx, it.Next); !it.St.facts.Entails(eqInt(nx, addK(idx, 1))) {
						return nil, fmt.Errorf("the index after %v is %v", idx, nx)
					}
					if !x.Facts.Entails(lt(idx, hi)) {
						return nil, fmt.Errorf("index %v may reach beyond %v", idx, hi)
					}
					if last != nil && last.l == L && last.idx != idx {
						return nil, fmt.Errorf("different index expressions %v and %v", last.idx, idx)
					}
					last = &open{L, idx}
					effs = append(effs, eff{lo, hi, x.Recv.Args[0], idx, x.Args[0], it.St.facts, x.Pos})
				}
				if writes && n != 1 || n > 1 {
					return nil, fmt.Errorf("an iteration writes %d elements", n)
				}
			}
		case "st":
			if e.Recv.Op != "idxaddr" || rootOf(e.Recv).Op == "alloc" {
				continue
			}
			// the last iteration of a loop whose condition is tested at its end
			if done || last != nil && last.idx != e.Recv.Args[1] {
				return nil, fmt.Errorf("element %v is written outside the loop", e.Recv)
			}
			if last == nil {
				// single iteration
				last = &open{nil, e.Recv.Args[1]}
				if !e.Facts.Entails(eqInt(last.idx, lo)) && !lastLoopInit(evs, e, lo) {
					return nil, fmt.Errorf("the only index written is %v, not %v", last.idx, lo)
				}
			}
			if !f.Entails(eqInt(addK(last.idx, 1), hi)) {
				return nil, fmt.Errorf("the last index written is %v, not the one before %v", last.idx, hi)
			}
			effs = append(effs, eff{lo, hi, e.Recv.Args[0], last.idx, e.Args[0], f, e.Pos})
			done = true
		}
	}
	if last != nil && !done {
		if !f.Entails(le(hi, last.idx)) {
			return nil, fmt.Errorf("the loop may end at index %v before %v", last.idx, hi)
		}
		done = true
	}
	if !done && !f.Entails(le(hi, lo)) {
		return nil, fmt.Errorf("nothing is written to [%v,%v)", lo, hi)
	}
	return effs, nil
}

func asSlice(t *Term) *Term {
	if t.Op != "slice" {
		t = mkSliceOf(t, mkInt(0), mkLen(t), t.Typ)
	}
	if t.Op != "slice" {
		return mk("slice", "", t.Typ, nil, t, mkInt(0), mkLen(t))
	}
	return t
}

func lastLoopInit(evs []*Event, st *Event, lo *Term) bool {
	for _, e := range evs {
		if e == st {
			return false
		}
		if e.Kind == "loop" {
			init := map[*Term]*Term{}
			for _, v := range e.Loop.Vars {
				init[v.Sym] = v.Init
			}
			if e.Loop.Entry.Entails(eqInt(subst(st.Recv.Args[1], init), lo)) {
				return true
			}
		}
	}
	return false
}

// elemOf reads a value as an element of a slice.
func elemOf(v *Term) (base, idx *Term) {
	if v.Op == "elem" {
		return v.Args[0], v.Args[1]
	}
	if a := loadAddr(v); a != nil && a.Op == "idxaddr" {
		return a.Args[0], a.Args[1]
	}
	return nil, nil
}

func stripConv(t *Term) *Term {
	for t.Op == "conv" && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

func isExtCall(t *Term, name string) *Term {
	t = stripConv(t)
	if t.Op == "ext" && len(t.Args) >= 1 && len(t.Aux) > len(name) && t.Aux[:len(name)+1] == name+"@" {
		return stripConv(t.Args[0])
	}
	return nil
}

type prefixRule struct {
	c    *Ctx
	fn   *ssa.Function
	name string
	in   *Term
	n    *Term
}

type round struct {
	src, dst, shift *Term
	pos             tokenPos
}

// roundOf analyses the events of one round. nil: no elements are written.
func (r *prefixRule) roundOf(evs []*Event, f *Facts, lemmas func(shift *Term, f *Facts) *Facts) (*round, error) {
	var effs []eff
	var coll func(evs []*Event, depth int) error
	coll = func(evs []*Event, depth int) error {
		for _, e := range evs {
			switch e.Kind {
			case "go":
				if len(e.Task.Outs) == 0 {
					return fmt.Errorf("a task that never ends")
				}
				for _, o := range e.Task.Outs {
					if err := coll(o.Events(), depth+1); err != nil {
						return err
					}
				}
			case "parrange":
				for _, o := range e.Task.Outs {
					for _, x := range o.Events() {
						if x.Kind == "go" || x.Kind == "parrange" || x.Kind == "pardo" {
							return fmt.Errorf("nested parallelism")
						}
					}
					es, err := elementEffects(o.Events(), o, o.St.facts, e.Args[3], e.Args[4])
					if err != nil {
						return err
					}
					for _, x := range es {
						x.lo, x.hi = e.Args[0], e.Args[1]
						effs = append(effs, x)
					}
				}
			case "copy":
				d, s := asSlice(e.Args[0]), asSlice(e.Args[1])
				if d == nil || s == nil {
					return fmt.Errorf("a copy between %v and %v", e.Args[0], e.Args[1])
				}
				hi := d.Args[2]
				if n := add(d.Args[1], sub(s.Args[2], s.Args[1])); !e.Facts.Entails(le(hi, n)) {
					if !e.Facts.Entails(le(n, hi)) {
						return fmt.Errorf("the extent of the copy of %v to %v is not known", s, d)
					}
					hi = n
				}
				j := freshSym("copy.index", tyInt)
				g := e.Facts.add(le(d.Args[1], j), true).add(lt(j, hi), true)
				effs = append(effs, eff{d.Args[1], hi, d.Args[0], j, mk("elem", "", nil, nil, s.Args[0], add(s.Args[1], sub(j, d.Args[1]))), g, e.Pos})
			case "st":
				if e.Recv.Op == "idxaddr" && rootOf(e.Recv).Op != "alloc" {
					return fmt.Errorf("an element is written outside of the parallel ranges")
				}
			case "user", "invoke", "rec", "send", "recv", "select":
				return fmt.Errorf("a %s in a round", e.Kind)
			}
		}
		return nil
	}
	if err := coll(evs, 0); err != nil {
		return nil, err
	}
	if len(effs) == 0 {
		return nil, nil
	}
	R := &round{}
	type cl struct {
		e   eff
		sum bool
	}
	var cls []cl
	for _, e := range effs {
		if R.dst == nil {
			R.dst = e.dst
		}
		if e.dst != R.dst {
			return nil, fmt.Errorf("both %v and %v are written", R.dst, e.dst)
		}
		rd := func(v *Term) (*Term, error) {
			b, i := elemOf(v)
			if b == nil {
				return nil, fmt.Errorf("%v is not an element of the previous round", v)
			}
			if R.src == nil {
				R.src = b
			}
			if R.src != b {
				return nil, fmt.Errorf("both %v and %v are read", R.src, b)
			}
			return i, nil
		}
		if e.val.Op == "op+" {
			a, err := rd(e.val.Args[0])
			if err != nil {
				return nil, err
			}
			b, err := rd(e.val.Args[1])
			if err != nil {
				return nil, err
			}
			if !e.f.Entails(eqInt(b, e.idx)) {
				return nil, fmt.Errorf("the right operand of the sum for element %v is element %v", e.idx, b)
			}
			s := sub(e.idx, a)
			if R.shift == nil {
				R.shift = s
				R.pos = e.pos
			}
			if !e.f.Entails(eqInt(s, R.shift)) {
				return nil, fmt.Errorf("the shift is both %v and %v", s, R.shift)
			}
			cls = append(cls, cl{e, true})
		} else {
			i, err := rd(e.val)
			if err != nil {
				return nil, err
			}
			if !e.f.Entails(eqInt(i, e.idx)) {
				return nil, fmt.Errorf("element %v is copied from element %v", e.idx, i)
			}
			cls = append(cls, cl{e, false})
		}
	}
	if R.shift == nil {
		return nil, fmt.Errorf("no element is summed")
	}
	if R.src == R.dst || f.Decide(mkEq(R.src, R.dst)) > 0 {
		return nil, fmt.Errorf("a round writes the buffer it reads")
	}
	// regions: copies below the shift, sums above, together [0,len)
	f = lemmas(R.shift, f)
	type reg struct{ lo, hi *Term }
	var regs []reg
	for _, k := range cls {
		g := f.merge(k.e.f)
		if k.sum {
			if !g.Entails(le(R.shift, k.e.idx)) && !f.Entails(le(R.shift, k.e.lo)) {
				return nil, fmt.Errorf("element %v may be summed although it is below the shift %v", k.e.idx, R.shift)
			}
		} else if !g.Entails(lt(k.e.idx, R.shift)) && !f.Entails(le(k.e.hi, R.shift)) {
			return nil, fmt.Errorf("element %v may be copied although it is not below the shift %v", k.e.idx, R.shift)
		}
		dup := false
		for _, x := range regs {
			if x.lo == k.e.lo && x.hi == k.e.hi {
				dup = true
			}
		}
		if !dup {
			regs = append(regs, reg{k.e.lo, k.e.hi})
		}
	}
	cur := mkInt(0)
	for len(regs) > 0 {
		hit := -1
		for i, x := range regs {
			if f.Entails(eqInt(x.lo, cur)) {
				hit = i
				break
			}
		}
		if hit < 0 {
			return nil, fmt.Errorf("the elements from %v on are not written, or written twice", cur)
		}
		if !f.Entails(le(regs[hit].lo, regs[hit].hi)) {
			return nil, fmt.Errorf("[%v,%v) may be an invalid range", regs[hit].lo, regs[hit].hi)
		}
		cur = regs[hit].hi
		regs = append(regs[:hit], regs[hit+1:]...)
	}
	if !f.Entails(eqInt(cur, r.n)) {
		return nil, fmt.Errorf("elements up to %v instead of %v are written", cur, r.n)
	}
	return R, nil
}

func rulePrefix(c *Ctx) {
	fn := c.mustFn("parallel.PrefixSum")
	if fn == nil {
		return
	}
	args := ParamTerms(fn)
	r := &prefixRule{c: c, fn: fn, name: "parallel.PrefixSum", in: args[0], n: mkLen(args[0])}
	an := c.analyze(fn, args, nil, nil, Config{Contract: parContract})
	if an.Err != nil {
		c.undecided("prefix", r.name, fn.Pos(), an.Err)
		return
	}
	bad := func(pos tokenPos, format string, a ...any) {
		if !pos.IsValid() {
			pos = fn.Pos()
		}
		c.fail("round", r.name, pos, format, a...)
	}
	// is t a count that reaches the binary logarithm of the length?
	isLog := func(t *Term) bool {
		if x := isExtCall(t, "math.Ceil"); x != nil {
			if y := isExtCall(x, "math.Log2"); y != nil && y == r.n {
				return true
			}
		}
		if x := isExtCall(t, "math/bits.Len"); x != nil && (x == r.n || x == addK(r.n, -1)) {
			return true
		}
		return false
	}
	logs := map[*Term]bool{}
	var scan func(t *Term)
	scan = func(t *Term) {
		m := map[*Term]bool{}
		atomsOf(t, m)
		for a := range m {
			if isLog(a) {
				logs[a] = true
			}
		}
	}
	loops := 0
	for _, o := range an.Outs {
		if o.Kind != "ret" {
			c.fail("round", r.name, outPos2(o, fn), "a path does not return (%s)", o.Kind)
			continue
		}
		for x := o.St.facts; x != nil; x = x.parent {
			if x.cond.Op == "le0" || x.cond.Op == "eq0" {
				scan(x.cond.Args[0])
			}
		}
		evs := o.Events()
		li := -1
		for i, e := range evs {
			if e.Kind == "loop" {
				if li >= 0 {
					bad(e.Pos, "more than one loop over rounds")
				}
				li = i
			}
		}
		// "the rounds done so far suffice", for a power 2^k given by shift or
		// counter k
		enough := func(f *Facts, shift, count *Term) bool {
			if shift != nil && f.Entails(le(r.n, shift)) {
				return true
			}
			if count != nil {
				for l := range logs {
					if f.Entails(le(l, count)) {
						return true
					}
				}
			}
			return false
		}
		if li < 0 {
			c.require(o.Res[0] == r.in && enough(o.St.facts, mkInt(1), mkInt(0)), "no-rounds", r.name, outPos2(o, fn), "the input is returned as it is only if it has at most one element")
			continue
		}
		loops++
		L := evs[li].Loop
		var count, shiftVar *LoopVar
		for _, v := range L.Vars {
			if !isIntType(v.Sym.Typ) {
				continue
			}
			step1, dbl := true, true
			for _, it := range L.Iters {
				nx := it.Next[v.Sym]
				if nx == nil || !it.St.facts.Entails(eqInt(nx, addK(v.Sym, 1))) {
					step1 = false
				}
				if nx == nil || !it.St.facts.Entails(eqInt(nx, mul(mkInt(2), v.Sym))) {
					dbl = false
				}
			}
			if len(L.Iters) > 0 && step1 && v.Init != nil && v.Init == mkInt(0) {
				count = v
			}
			if len(L.Iters) > 0 && dbl && v.Init == mkInt(1) {
				shiftVar = v
			}
		}
		// the shift is two to the power of the number of rounds done before
		isPow := func(s *Term) bool {
			if shiftVar != nil && s == shiftVar.Sym {
				return true
			}
			if count != nil {
				if x := isExtCall(s, "math.Exp2"); x == count.Sym {
					return true
				}
				if x := stripConv(s); x.Op == "shl" && stripConv(x.Args[0]) == mkInt(1) && stripConv(x.Args[1]) == count.Sym {
					return true
				}
			}
			return false
		}
		lemmas := func(s *Term, f *Facts) *Facts {
			if isPow(s) {
				f = f.add(le(mkInt(1), s), true)
				if count != nil {
					for l := range logs {
						if f.Entails(lt(count.Sym, l)) {
							if isExtCall(l, "math.Ceil") != nil {
								f = f.add(lt(s, r.n), true)
							}
						}
					}
				}
			}
			return f
		}
		check := func(evs []*Event, f *Facts) *round {
			R, err := r.roundOf(evs, f, lemmas)
			if err != nil {
				bad(L.Pos, "a round is not a shifted sum into the other buffer: %v", err)
				return nil
			}
			if R != nil {
				c.require(isPow(R.shift), "shift", r.name, R.pos, "the shift %v of a round is two to the number of earlier rounds", R.shift)
				c.ok("round", r.name, "%v[j] = %v[j-%v] + %v[j] for all j from %v on, copies below", R.dst, R.src, R.shift, R.src, R.shift)
			}
			return R
		}
		buf := func(t *Term) *LoopVar { return L.Var(t) }
		wellFormed := func(R *round) {
			sv := buf(R.src)
			if sv == nil {
				bad(R.pos, "the buffer that is read does not change from round to round")
				return
			}
			init := sv.Init
			if init.Op == "ext" && isExtCall(init, "slices.Clone") == r.in {
				init = r.in
			}
			c.require(init == r.in, "buffers", r.name, R.pos, "the first round reads the input")
			fresh := func(t *Term) bool {
				return t != nil && t.Op == "makeslice" && L.Entry.Entails(eqInt(mkLen(t), r.n))
			}
			// allocated by the iteration itself
			made := func(it *Iter, t *Term) bool {
				for _, e := range it.Events {
					if e.Kind == "make" && e.Res == t {
						return fresh(t)
					}
				}
				return false
			}
			if dv := buf(R.dst); dv != nil {
				c.require(fresh(dv.Init), "buffers", r.name, R.pos, "the first round writes a new buffer of the length of the input")
				for _, it := range L.Iters {
					c.require(it.Next[sv.Sym] == dv.Sym, "buffers", r.name, R.pos, "the next round reads what this one wrote")
					c.require(it.Next[dv.Sym] == sv.Sym || made(it, it.Next[dv.Sym]), "buffers", r.name, R.pos, "the next round writes the other buffer")
				}
			} else {
				for _, it := range L.Iters {
					c.require(made(it, R.dst), "buffers", r.name, R.pos, "a round writes a new buffer of the length of the input")
					c.require(it.Next[sv.Sym] == R.dst, "buffers", r.name, R.pos, "the next round reads what this one wrote")
				}
			}
		}
		var first *round
		for _, it := range L.Iters {
			R := check(it.Events, it.St.facts)
			if R == nil {
				if len(c.viols) == 0 {
					bad(L.Pos, "an iteration without a round")
				}
				continue
			}
			if first == nil {
				first = R
				wellFormed(R)
			} else if R.src != first.src || R.dst != first.dst {
				bad(R.pos, "rounds use different buffers")
			}
		}
		tail := check(evs[li+1:], o.St.facts)
		if first == nil {
			if len(c.viols) == 0 {
				bad(L.Pos, "no round is executed")
			}
			continue
		}
		f := o.St.facts
		var sh, cnt *Term
		if shiftVar != nil {
			sh = shiftVar.Sym
		}
		if count != nil {
			cnt = count.Sym
		}
		if tail != nil {
			if tail.src != first.src || tail.dst != first.dst {
				bad(tail.pos, "the last round uses different buffers")
			}
			if sh != nil {
				sh = mul(mkInt(2), sh)
			}
			if cnt != nil {
				cnt = addK(cnt, 1)
			}
			c.require(o.Res[0] == tail.dst, "result", r.name, outPos2(o, fn), "the buffer written last is returned")
		} else {
			c.require(o.Res[0] == first.src, "result", r.name, outPos2(o, fn), "the buffer written last is returned")
		}
		c.require(enough(f, sh, cnt), "rounds", r.name, outPos2(o, fn), "when the loop ends, the shift has reached the length")
	}
	c.floor("prefix sum loops", loops, 1)
}

func init() {
	register("C10", "every round of the prefix sum is an element-wise shifted sum between two buffers (element effects of the parallel ranges, tiled over the whole slice), the shift is two to the number of rounds, the loop ends only when it reaches the length", rulePrefix,
		"int(ceil(log2(n))) and bits.Len are exact for every length of a slice that fits in memory; package parallel's own contract (C01-C06)")
}
