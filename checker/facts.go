package main

// Path facts and the linear-inequality (polyhedral) domain used to decide
// them: entailment by Fourier-Motzkin elimination over the affine facts that
// share atoms with the query.

import (
	"encoding/binary"
	"go/types"
	"strings"
)

type Facts struct {
	parent *Facts
	cond   *Term // canonical boolean term without "not"
	val    bool
	n      int
	cache  map[*Term]int8
}

func (f *Facts) add(cond *Term, val bool) *Facts {
	for cond.Op == "not" {
		cond, val = cond.Args[0], !val
	}
	if isTrue(cond) || isFalse(cond) {
		if isTrue(cond) != val {
			return &Facts{parent: f, cond: mkBool(false), val: true, n: f.depth() + 1}
		}
		return f
	}
	if v, ok := f.lookup(cond); ok && v == val {
		return f
	}
	return &Facts{parent: f, cond: cond, val: val, n: f.depth() + 1}
}

func (f *Facts) depth() int {
	if f == nil {
		return 0
	}
	return f.n
}

func (f *Facts) lookup(cond *Term) (bool, bool) {
	for x := f; x != nil; x = x.parent {
		if x.cond == cond {
			return x.val, true
		}
	}
	return false, false
}

func (f *Facts) merge(o *Facts) *Facts {
	var l []*Facts
	for x := o; x != nil; x = x.parent {
		l = append(l, x)
	}
	r := f
	for i := len(l) - 1; i >= 0; i-- {
		r = r.add(l[i].cond, l[i].val)
	}
	return r
}

func (f *Facts) all() []*Facts {
	var l []*Facts
	for x := f; x != nil; x = x.parent {
		l = append(l, x)
	}
	return l
}

func (f *Facts) String() string {
	var p []string
	for _, x := range f.all() {
		s := x.cond.String()
		if !x.val {
			s = "!(" + s + ")"
		}
		p = append([]string{s}, p...)
	}
	return strings.Join(p, " && ")
}

// Decide returns +1 if the facts entail cond, -1 if they refute it, 0 if
// neither is known.
func (f *Facts) Decide(cond *Term) int {
	pos := 1
	for cond.Op == "not" {
		cond, pos = cond.Args[0], -pos
	}
	if isTrue(cond) {
		return pos
	}
	if isFalse(cond) {
		return -pos
	}
	if f != nil && f.cache != nil {
		if v, ok := f.cache[cond]; ok {
			return pos * int(v)
		}
	}
	r := f.decide1(cond)
	if f != nil {
		if f.cache == nil {
			f.cache = map[*Term]int8{}
		}
		f.cache[cond] = int8(r)
	}
	return pos * r
}

func (f *Facts) decide1(cond *Term) int {
	if v, ok := f.lookup(cond); ok {
		if v {
			return 1
		}
		return -1
	}
	switch cond.Op {
	case "le0":
		l := toLin(cond.Args[0])
		if f.entailsLe0(l) {
			return 1
		}
		if f.entailsLe0(linAdd(&Lin{k: 1}, l, -1)) {
			return -1
		}
	case "eq0":
		l := toLin(cond.Args[0])
		a := f.entailsLe0(l)
		b := f.entailsLe0(linScale(l, -1))
		if a && b {
			return 1
		}
		if f.entailsLe0(linAdd(l, &Lin{k: 1}, 1)) || f.entailsLe0(linAdd(&Lin{k: 1}, l, -1)) {
			return -1
		}
	case "eq":
		// transitivity through one known equality, for nil tests and values
		a, b := cond.Args[0], cond.Args[1]
		if isNil(b) {
			for x := f; x != nil; x = x.parent {
				if x.val && x.cond.Op == "eq" {
					if x.cond.Args[0] == a && neverNil(x.cond.Args[1]) || x.cond.Args[1] == a && neverNil(x.cond.Args[0]) {
						return -1
					}
				}
			}
			if a.Op == "len" {
				break
			}
		}
	}
	return 0
}

// Entails reports that the facts entail cond.
func (f *Facts) Entails(cond *Term) bool {
	d := f.Decide(cond)
	return d > 0 || d < 0 && !f.Feasible() // contradictory facts entail everything
}

// Feasible is false when the facts are contradictory.
func (f *Facts) Feasible() bool {
	for x := f; x != nil; x = x.parent {
		if isFalse(x.cond) && x.val {
			return false
		}
	}
	return !f.entailsLe0(&Lin{k: 1})
}

// ineq is sum co*at + k <= 0, its atoms in the order of their ids.
type ineq = Lin

func (q *Lin) coef(a *Term) int64 {
	for i, x := range q.at {
		if x == a {
			return q.co[i]
		}
	}
	return 0
}

func (q *Lin) key(b []byte) []byte {
	for i, x := range q.at {
		b = binary.AppendUvarint(b, uint64(x.id))
		b = binary.AppendVarint(b, q.co[i])
	}
	return b
}

// normalize divides by the common factor of the coefficients, rounding the
// constant to the integers.
func (q *Lin) normalize() *Lin {
	g := int64(0)
	for _, c := range q.co {
		g = gcd64(g, c)
		if g == 1 {
			return q
		}
	}
	if g > 1 {
		r := &Lin{at: q.at, co: make([]int64, len(q.co)), k: -floorDiv(-q.k, g)}
		for i, c := range q.co {
			r.co[i] = c / g
		}
		return r
	}
	return q
}

var fmDepth = 0

// entailsLe0: facts |= l <= 0.
func (f *Facts) entailsLe0(l *Lin) bool {
	if len(l.at) == 0 && l.k <= 0 {
		return true
	}
	if fmDepth > 3 {
		return false
	}
	fmDepth++
	defer func() { fmDepth-- }()
	neg := linAdd(&Lin{k: 1}, l, -1) // l >= 1
	var cs []*ineq
	cs = append(cs, neg)
	var eqs []*Term // disequalities
	for x := f; x != nil; x = x.parent {
		switch x.cond.Op {
		case "le0":
			a := toLin(x.cond.Args[0])
			if x.val {
				cs = append(cs, a)
			} else {
				cs = append(cs, linAdd(&Lin{k: 1}, a, -1))
			}
		case "eq0":
			a := toLin(x.cond.Args[0])
			if x.val {
				cs = append(cs, a, linScale(a, -1))
			} else {
				eqs = append(eqs, x.cond)
			}
		case "const":
			if isFalse(x.cond) && x.val {
				return true
			}
		}
	}
	// axioms for non-linear atoms, transitively
	seen := map[*Term]bool{}
	for i := 0; i < len(cs); i++ {
		for _, a := range cs[i].at {
			if seen[a] {
				continue
			}
			seen[a] = true
			for _, ax := range f.axioms(a) {
				cs = append(cs, ax)
			}
		}
		if i > 400 {
			break
		}
	}
	// restrict to the connected component of the query (only when the query
	// has atoms: an infeasibility test looks at everything)
	if len(l.at) > 0 {
		cs = component(cs, neg)
	}
	if fm(cs) {
		return true
	}
	// disequalities: e != 0 strengthens e <= 0 to e <= -1 when e <= 0 is
	// entailed; one round.
	if len(eqs) > 0 {
		ch := false
		for _, e := range eqs {
			a := toLin(e.Args[0])
			q1 := linAdd(a, &Lin{k: 1}, 1)  // a <= -1
			q2 := linAdd(&Lin{k: 1}, a, -1) // a >= 1
			if !shares(cs, q1) {
				continue
			}
			if fm(append(append([]*ineq{}, cs...), q2)) { // a>=1 impossible
				cs = append(cs, q1)
				ch = true
			} else if fm(append(append([]*ineq{}, cs...), q1)) {
				cs = append(cs, q2)
				ch = true
			}
		}
		if ch && fm(cs) {
			return true
		}
	}
	return false
}

func shares(cs []*ineq, q *ineq) bool {
	for _, c := range cs {
		for _, a := range q.at {
			if c.coef(a) != 0 {
				return true
			}
		}
	}
	return false
}

func component(cs []*ineq, q *ineq) []*ineq {
	in := map[*Term]bool{}
	for _, a := range q.at {
		in[a] = true
	}
	used := make([]bool, len(cs))
	for ch := true; ch; {
		ch = false
		for i, c := range cs {
			if used[i] {
				continue
			}
			hit := len(c.at) == 0
			for _, a := range c.at {
				if in[a] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for _, a := range c.at {
					in[a] = true
				}
			}
		}
	}
	var r []*ineq
	for i, c := range cs {
		if used[i] {
			r = append(r, c)
		}
	}
	return r
}

// axioms gives inequalities (l<=0) that always hold for an atom.
func (f *Facts) axioms(a *Term) []*Lin {
	var r []*Lin
	v := toLin(a)
	ge := func(x, y *Lin) { r = append(r, linAdd(y, x, -1)) } // x >= y
	zero := &Lin{}
	switch a.Op {
	case "len", "cap", "numcpu":
		if a.Op == "numcpu" {
			ge(v, &Lin{k: 1})
		} else {
			ge(v, zero)
		}
	case "div":
		x, y := toLin(a.Args[0]), toLin(a.Args[1])
		nonneg := f.entailsLe0(linScale(x, -1))
		if c, ok := a.Args[1].intConst(); ok && c > 0 {
			// |x - c*q| <= c-1
			r = append(r, linAdd(linAdd(x, v, -c), &Lin{k: -(c - 1)}, 1))
			r = append(r, linAdd(linAdd(linScale(v, c), x, -1), &Lin{k: -(c - 1)}, 1))
			if nonneg {
				ge(v, zero)
				ge(x, linScale(v, c))
			} else if f.entailsLe0(x) {
				ge(zero, v)
				ge(linScale(v, c), x)
			}
		} else if nonneg && f.entailsLe0(linAdd(&Lin{k: 1}, y, -1)) {
			ge(v, zero)
			ge(x, v)
		}
	case "rem":
		x := toLin(a.Args[0])
		if c, ok := a.Args[1].intConst(); ok && c > 0 {
			r = append(r, linAdd(v, &Lin{k: -(c - 1)}, 1))
			r = append(r, linAdd(linScale(v, -1), &Lin{k: -(c - 1)}, 1))
			if f.entailsLe0(linScale(x, -1)) {
				ge(v, zero)
				ge(x, v)
			}
		}
	case "mul":
		x, y := toLin(a.Args[0]), toLin(a.Args[1])
		x0, y0 := f.entailsLe0(linScale(x, -1)), f.entailsLe0(linScale(y, -1))
		if x0 && y0 {
			ge(v, zero)
			if f.entailsLe0(linAdd(&Lin{k: 1}, x, -1)) {
				ge(v, y)
			}
			if f.entailsLe0(linAdd(&Lin{k: 1}, y, -1)) {
				ge(v, x)
			}
			for i := range 2 {
				if l := f.halfProduct(a.Args[i], a.Args[1-i]); l != nil {
					c, _ := a.Args[1-i].Args[1].intConst()
					ge(l, linScale(v, c))
				}
			}
		}
	case "min":
		for _, x := range a.Args {
			ge(toLin(x), v)
		}
	case "max":
		for _, x := range a.Args {
			ge(v, toLin(x))
		}
	case "selidx":
		ge(v, zero)
	default:
		if a.Typ != nil {
			if b, ok := a.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				ge(v, zero)
			}
		}
	}
	return r
}

// halfProduct gives an upper bound of c*x*y where y is n/c, n >= 0, and x >= 0
// is a combination of a/n: c*y <= n, and n*(a/n) <= a.
func (f *Facts) halfProduct(x, y *Term) *Lin {
	if y.Op != "div" {
		return nil
	}
	if c, ok := y.Args[1].intConst(); !ok || c < 1 {
		return nil
	}
	n := toLin(y.Args[0])
	if !f.entailsLe0(linAdd(&Lin{k: 1}, n, -1)) {
		return nil
	}
	lx := toLin(x)
	sum := linScale(n, lx.k)
	for i, a := range lx.at {
		if lx.co[i] < 0 || a.Op != "div" || a.Args[1] != y.Args[0] || !f.entailsLe0(linScale(toLin(a.Args[0]), -1)) {
			return nil
		}
		sum = linAdd(sum, toLin(a.Args[0]), lx.co[i])
	}
	return sum
}

// fm decides whether a system of inequalities is infeasible over the
// rationals (with integer tightening).
func fm(in []*ineq) bool {
	var cs []*ineq
	idx := make(map[string]int, len(in))
	var buf []byte
	push := func(q *ineq) bool { // true if contradiction
		if len(q.at) == 0 {
			return q.k > 0
		}
		q = q.normalize()
		buf = q.key(buf[:0])
		if o, ok := idx[string(buf)]; ok {
			if q.k > cs[o].k {
				cs[o] = q
			}
			return false
		}
		idx[string(buf)] = len(cs)
		cs = append(cs, q)
		return false
	}
	for _, q := range in {
		if push(q) {
			return true
		}
	}
	type cnt struct{ p, n int }
	for {
		// pick the variable with the fewest products
		m := map[*Term]cnt{}
		for _, q := range cs {
			for i, a := range q.at {
				c := m[a]
				if q.co[i] > 0 {
					c.p++
				} else {
					c.n++
				}
				m[a] = c
			}
		}
		if len(m) == 0 {
			return false
		}
		var best *Term
		bc := 0
		for a, c := range m {
			cost := c.p*c.n - c.p - c.n
			if best == nil || cost < bc || cost == bc && a.id < best.id {
				best, bc = a, cost
			}
		}
		if m[best].p*m[best].n > 4000 || len(cs) > 3000 {
			return false
		}
		// variables bounded on one side only constrain nothing: drop them
		// together with the chosen one
		old := cs
		cs = make([]*ineq, 0, len(old))
		clear(idx)
		var pos, neg []*ineq
		for _, q := range old {
			c, free := int64(0), false
			for i, a := range q.at {
				if a == best {
					c = q.co[i]
				}
				if x := m[a]; x.p == 0 || x.n == 0 {
					free = true
				}
			}
			switch {
			case free:
			case c > 0:
				pos = append(pos, q)
			case c < 0:
				neg = append(neg, q)
			default:
				buf = q.key(buf[:0])
				idx[string(buf)] = len(cs)
				cs = append(cs, q)
			}
		}
		for _, p := range pos {
			a := p.coef(best)
			for _, n := range neg {
				b := -n.coef(best)
				if a > 1<<20 || b > 1<<20 {
					continue
				}
				if push(linComb(p, b, n, a)) {
					return true
				}
			}
		}
	}
}
