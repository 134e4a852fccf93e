package main

// C16: the slice adaptors of package psort.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cmpCase is one way two elements can relate.
type cmpCase struct {
	name     string
	lt, eq   bool // a<b, a==b
	an, bn   bool // a, b are NaN
	wantLess bool
}

func cmpCases(float bool) []cmpCase {
	r := []cmpCase{{"a<b", true, false, false, false, true}, {"a==b", false, true, false, false, false}, {"a>b", false, false, false, false, false}}
	if float {
		r = append(r, cmpCase{"a is NaN", false, false, true, false, true}, cmpCase{"b is NaN", false, false, false, true, false}, cmpCase{"both are NaN", false, false, true, true, false})
	}
	return r
}

type cmpEnv struct {
	c    cmpCase
	s    *Term // the slice
	i, j *Term
}

// which: 1 for the element at i, 2 for the one at j
func (e *cmpEnv) which(t *Term) int {
	b, x := elemOf(t)
	if b == nil || b != e.s {
		return 0
	}
	if x == e.i {
		return 1
	}
	if x == e.j {
		return 2
	}
	return 0
}

func (e *cmpEnv) nan(w int) bool { return w == 1 && e.c.an || w == 2 && e.c.bn }

// rel gives x<y, x==y
func (e *cmpEnv) rel(x, y int) (lt, eq bool) {
	if e.nan(x) || e.nan(y) {
		return false, false
	}
	if x == y {
		return false, true
	}
	if x == 1 {
		return e.c.lt, e.c.eq
	}
	return !e.c.lt && !e.c.eq, e.c.eq
}

func (e *cmpEnv) pair(t *Term) (x, y int, ok bool) {
	if len(t.Args) != 2 {
		return 0, 0, false
	}
	x, y = e.which(t.Args[0]), e.which(t.Args[1])
	return x, y, x != 0 && y != 0
}

func (e *cmpEnv) num(t *Term) (int64, bool) {
	if t.Op == "ext" && (strings.HasPrefix(t.Aux, "cmp.Compare") || strings.HasPrefix(t.Aux, "strings.Compare")) {
		x, y, ok := e.pair(t)
		if !ok {
			return 0, false
		}
		lt, eq := e.total(x, y)
		switch {
		case lt:
			return -1, true
		case eq:
			return 0, true
		}
		return 1, true
	}
	return 0, false
}

// total is the order of cmp.Compare: NaN first, NaN equal to NaN
func (e *cmpEnv) total(x, y int) (lt, eq bool) {
	if e.nan(x) || e.nan(y) {
		return e.nan(x) && !e.nan(y), e.nan(x) && e.nan(y)
	}
	return e.rel(x, y)
}

func (e *cmpEnv) eval(t *Term) (v, known bool) {
	switch {
	case isTrue(t):
		return true, true
	case isFalse(t):
		return false, true
	case t.Op == "not":
		v, k := e.eval(t.Args[0])
		return !v, k
	case t.Op == "le0" || t.Op == "eq0":
		l := toLin(t.Args[0])
		sum := l.k
		for i, a := range l.at {
			n, ok := e.num(a)
			if !ok {
				return false, false
			}
			sum += n * l.co[i]
		}
		if t.Op == "le0" {
			return sum <= 0, true
		}
		return sum == 0, true
	case t.Op == "op<" || t.Op == "op<=" || t.Op == "feq" || t.Op == "eq":
		x, y, ok := e.pair(t)
		if !ok {
			if t.Op == "eq" {
				a, k1 := e.eval(t.Args[0])
				b, k2 := e.eval(t.Args[1])
				return a == b, k1 && k2
			}
			return false, false
		}
		lt, eq := e.rel(x, y)
		switch t.Op {
		case "op<":
			return lt, true
		case "op<=":
			return lt || eq, true
		}
		return eq, true
	case t.Op == "ext":
		n := t.Aux
		switch {
		case strings.HasPrefix(n, "math.IsNaN@") && len(t.Args) == 1:
			w := e.which(t.Args[0])
			return e.nan(w), w != 0
		case strings.HasPrefix(n, "cmp.Less"):
			x, y, ok := e.pair(t)
			lt, _ := e.total(x, y)
			return lt, ok
		}
	}
	return false, false
}

func ruleAdaptors(c *Ctx) {
	for _, tn := range []string{"IntSlice", "Float64Slice", "StringSlice"} {
		base := "psort." + tn
		std := "sort." + tn
		float := tn == "Float64Slice"
		get := func(m string) (*ssa.Function, []*Term, *Analysis) {
			fn := c.mustFn(base + "." + m)
			if fn == nil {
				return nil, nil, nil
			}
			args := ParamTerms(fn)
			an := c.analyze(fn, args, nil, nil, Config{PureInvk: nil})
			if an.Err != nil {
				c.undecided(strings.ToLower(m), base+"."+m, fn.Pos(), an.Err)
				return fn, args, nil
			}
			for _, o := range an.Outs {
				if o.Kind != "ret" && o.Kind != "panic" {
					c.fail(strings.ToLower(m), base+"."+m, outPos2(o, fn), "a path does not return")
				}
			}
			return fn, args, an
		}
		// a delegation to the standard library's adaptor
		delegated := func(evs []*Event, method string, s *Term, idx ...*Term) *Event {
			if len(evs) != 1 || evs[0].Kind != "ext" || evs[0].Name != "("+std+")."+method {
				return nil
			}
			a := evs[0].Args
			if len(a) != 1+len(idx) || a[0] != s {
				return nil
			}
			for k, x := range idx {
				if a[k+1] != x {
					return nil
				}
			}
			return evs[0]
		}
		if fn, a, an := get("Len"); an != nil {
			for _, o := range an.Outs {
				d := delegated(effects(o.Events()), "Len", a[0])
				ok := o.Kind == "ret" && (o.Res[0] == mkLen(a[0]) && len(effects(o.Events())) == 0 || d != nil && d.Res == o.Res[0])
				c.require(ok, "len", base+".Len", outPos2(o, fn), "Len is the length of the slice")
			}
		}
		if fn, a, an := get("Less"); an != nil {
			name := base + ".Less"
			for _, g := range withClosures(fn) {
				for _, b := range g.Blocks {
					for _, ins := range b.Instrs {
						if x, ok := ins.(*ssa.BinOp); ok && isArith(x.Op) && isIntType(x.Type()) {
							c.fail("less", name, x.Pos(), "elements are compared by arithmetic that can overflow")
						}
					}
				}
			}
			for _, o := range an.Outs {
				pos := outPos2(o, fn)
				if o.Kind != "ret" {
					c.fail("less", name, pos, "Less may panic")
					continue
				}
				if d := delegated(effects(o.Events()), "Less", a[0], a[1:]...); d != nil && d.Res == o.Res[0] {
					c.ok("less", name, "delegates to %s", std)
					continue
				}
				for _, e := range effects(o.Events()) {
					if e.Kind != "ext" {
						c.fail("less", name, e.Pos, "unexpected effect: %s %s", e.Kind, e.Name)
					}
				}
				env := &cmpEnv{s: a[0], i: a[1], j: a[2]}
				ea, eb := findElem(o, env, 1), findElem(o, env, 2)
				for _, cs := range cmpCases(float) {
					if tn == "IntSlice" && ea != nil && eb != nil {
						f := o.St.facts
						switch cs.name {
						case "a<b":
							f = f.add(lt(ea, eb), true)
						case "a==b":
							f = f.add(eqInt(ea, eb), true)
						default:
							f = f.add(lt(eb, ea), true)
						}
						if !f.Feasible() {
							continue
						}
						env.c = cs
						if d := f.Decide(o.Res[0]); d != 0 {
							c.require(cs.wantLess == (d > 0), "less", name, pos, "Less is %v if %s", cs.wantLess, cs.name)
							continue
						}
					}
					env.c = cs
					skip, known := false, true
					for x := o.St.facts; x != nil; x = x.parent {
						v, k := env.eval(x.cond)
						if !k {
							continue
						}
						if v != x.val {
							skip = true
						}
					}
					if skip {
						continue
					}
					v, k := env.eval(o.Res[0])
					known = k
					c.require(known && v == cs.wantLess, "less", name, pos, "Less is %v if %s (result %v)", cs.wantLess, cs.name, o.Res[0])
				}
			}
		}
		if fn, a, an := get("Swap"); an != nil {
			name := base + ".Swap"
			for _, o := range an.Outs {
				pos := outPos2(o, fn)
				if delegated(effects(o.Events()), "Swap", a[0], a[1:]...) != nil {
					c.ok("swap", name, "delegates to %s", std)
					continue
				}
				last := map[*Term]*Term{}
				good := o.Kind == "ret"
				for _, e := range effects(o.Events()) {
					if e.Kind == "st" && e.Recv.Op == "idxaddr" && e.Recv.Args[0] == a[0] && (e.Recv.Args[1] == a[1] || e.Recv.Args[1] == a[2]) {
						last[e.Recv.Args[1]] = e.Args[0]
						continue
					}
					good = false
					c.fail("swap", name, e.Pos, "unexpected effect: %s %v", e.Kind, e.Recv)
				}
				if len(last) == 0 && good && o.St.facts.Entails(eqInt(a[1], a[2])) {
					c.ok("swap", name, "nothing to do")
					continue
				}
				vers := ""
				for k, v := range last {
					other := a[1]
					if k == a[1] {
						other = a[2]
					}
					b, x := elemOf(v)
					if b != a[0] || x != other {
						good = false
					}
					if v.Op == "load" {
						if vers == "" {
							vers = v.Aux
						}
						if vers != v.Aux {
							good = false // read after the first write
						}
					}
				}
				c.require(good && len(last) == 2, "swap", name, pos, "each of the two elements gets the other's value")
			}
		}
		if fn, a, an := get("SequentialSort"); an != nil {
			name := base + ".SequentialSort"
			for _, o := range an.Outs {
				pos := outPos2(o, fn)
				evs := effects(o.Events())
				if len(evs) == 0 && o.Kind == "ret" && o.St.facts.Entails(le(sub(a[2], a[1]), mkInt(1))) {
					c.ok("sequential", name, "nothing to sort")
					continue
				}
				if !c.require(o.Kind == "ret" && len(evs) == 1 && evs[0].Kind == "ext", "sequential", name, pos, "one call of a sequential sort") {
					continue
				}
				e := evs[0]
				var arg *Term
				iface, fun := false, ""
				nm := strings.SplitN(e.Name, "[", 2)[0]
				switch nm {
				case "sort.Stable":
					iface = true
				case "sort.Sort":
					iface = !float
				case "sort.Ints", "sort.Strings", "slices.Sort":
					if !float {
						fun = "natural"
					}
				case "slices.SortStableFunc", "slices.SortFunc":
					if (nm == "slices.SortStableFunc" || !float) && len(e.Args) == 2 && stdCompare(e.Args[1]) {
						fun = "natural"
					}
				}
				ok := iface || fun != ""
				if !c.require(ok, "sequential", name, e.Pos, "%s sorts stably in the order of Less", e.Name) {
					continue
				}
				arg = e.Args[0]
				if iface {
					if arg.Op != "mkiface" {
						c.fail("sequential", name, e.Pos, "the value that is sorted is not known")
						continue
					}
					ts := typeStr(arg.Ref.(types.Type))
					if !c.require(ts == base || ts == std, "sequential", name, e.Pos, "the slice is sorted as a %s", ts) {
						continue
					}
					arg = arg.Args[0]
				}
				x := asSlice(arg)
				f := o.St.facts
				c.require(x.Args[0] == a[0] && f.Entails(eqInt(x.Args[1], a[1])) && f.Entails(eqInt(x.Args[2], a[2])), "sequential", name, e.Pos, "exactly the elements from i up to j are sorted")
			}
		}
		if fn, a, an := get("NewTemp"); an != nil {
			name := base + ".NewTemp"
			for _, o := range an.Outs {
				pos := outPos2(o, fn)
				ok := o.Kind == "ret" && o.Res[0].Op == "mkiface" && typeStr(o.Res[0].Ref.(types.Type)) == base
				if ok {
					v := stripIface(o.Res[0])
					ok = (v.Op == "makeslice" || v.Op == "clone" || v.Op == "append" && isNil(v.Args[0])) && o.St.facts.Entails(eqInt(mkLen(v), mkLen(a[0])))
				}
				c.require(ok && onlyKinds(effects(o.Events()), "ext copy"), "newtemp", name, pos, "a new slice of the same type and length is returned")
			}
		}
		if fn, a, an := get("Assign"); an != nil {
			name := base + ".Assign"
			for _, o := range an.Outs {
				pos := outPos2(o, fn)
				if o.Kind == "panic" {
					continue // a source of another type
				}
				for _, e := range effects(o.Events()) {
					if e.Kind != "assert" {
						c.fail("assign", name, e.Pos, "unexpected effect: %s %v", e.Kind, e.Recv)
					}
				}
				cl := o.Res[0]
				g := ssaFn(cl)
				if g == nil {
					c.fail("assign", name, pos, "the function returned is not known")
					continue
				}
				i, j, n := freshSym("i", tyInt), freshSym("j", tyInt), freshSym("len", tyInt)
				st := o.St.clone()
				srcOf := func(t *Term) bool {
					return t != nil && assertOf(t) == a[1] && typeStr(t.Typ) == base
				}
				src := mk("assert", base, nil, nil, a[1])
				for _, e := range o.Events() {
					if e.Kind == "assert" && srcOf(e.Res) {
						src = e.Res
					}
				}
				for _, z := range []*Term{i, j, n} {
					st.facts = st.facts.add(le(mkInt(0), z), true)
				}
				st.facts = st.facts.add(le(add(i, n), mkLen(a[0])), true).add(le(add(j, n), mkLen(src)), true)
				mark := len(st.ev.list())
				an2 := c.analyze(g, []*Term{i, j, n}, closureBinds(cl), st, Config{})
				if an2.Err != nil {
					c.undecided("assign", name, g.Pos(), an2.Err)
					continue
				}
				for _, q := range an2.Outs {
					p2 := outPos2(q, g)
					if !c.require(q.Kind == "ret", "assign", name, p2, "the function returns") {
						continue
					}
					evs := q.Events()[mark:]
					for _, e := range effects(evs) {
						switch e.Kind {
						case "copy", "st", "assert", "loop":
						default:
							c.fail("assign", name, e.Pos, "unexpected effect: %s %v", e.Kind, e.Recv)
						}
					}
					if q.St.facts.Entails(le(n, mkInt(0))) && len(effects(evs)) == 0 {
						continue
					}
					effs, err := assignEffects(evs, q, i, n)
					if err != nil {
						c.fail("assign", name, p2, "%v", err)
						continue
					}
					for _, x := range effs {
						b, k := elemOf(x.val)
						ok := x.dst == a[0] && b != nil && srcOf(b) && x.f.Entails(eqInt(sub(k, j), sub(x.idx, i)))
						c.require(ok, "assign", name, x.pos, "element i+k is assigned element j+k of the source (%v[%v] = %v)", x.dst, x.idx, x.val)
					}
				}
			}
		}
	}
}

// assignEffects describes writes to [i,i+n), allowing for loops over k in
// [0,n) as well as over the indices.
func assignEffects(evs []*Event, q *Outcome, i, n *Term) ([]eff, error) {
	for k, e := range evs {
		if e.Kind == "copy" {
			d, s := asSlice(e.Args[0]), asSlice(e.Args[1])
			f := e.Facts
			// copy takes the shorter of both
			dl, sl := sub(d.Args[2], d.Args[1]), sub(s.Args[2], s.Args[1])
			if f.Entails(eqInt(dl, n)) && f.Entails(le(n, sl)) || f.Entails(eqInt(sl, n)) && f.Entails(le(n, dl)) {
				d2 := mk("slice", "", d.Typ, nil, d.Args[0], d.Args[1], add(d.Args[1], n))
				s2 := mk("slice", "", s.Typ, nil, s.Args[0], s.Args[1], add(s.Args[1], n))
				c2 := *e
				c2.Args = []*Term{d2, s2}
				evs = append(append(append([]*Event{}, evs[:k]...), &c2), evs[k+1:]...)
			}
		}
	}
	return elementEffects(evs, q, q.St.facts, i, add(i, n))
}

func onlyKinds(evs []*Event, kinds string) bool {
	for _, e := range evs {
		if !strings.Contains(" "+kinds+" ", " "+e.Kind+" ") {
			return false
		}
	}
	return true
}

func findElem(o *Outcome, env *cmpEnv, w int) *Term {
	for _, e := range o.Events() {
		if e.Kind == "ld" && e.Res != nil && env.which(e.Res) == w {
			return e.Res
		}
	}
	return nil
}

func isArith(op token.Token) bool {
	switch op {
	case token.ADD, token.SUB, token.MUL, token.QUO, token.REM, token.SHL, token.SHR, token.XOR, token.AND, token.OR, token.AND_NOT:
		return true
	}
	return false
}

func withClosures(fn *ssa.Function) []*ssa.Function {
	r := []*ssa.Function{fn}
	for _, a := range fn.AnonFuncs {
		r = append(r, withClosures(a)...)
	}
	return r
}

func stdCompare(t *Term) bool {
	f := ssaFn(t)
	if f == nil {
		return false
	}
	n := fullName(f)
	return strings.HasPrefix(n, "cmp.Compare") || n == "strings.Compare"
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func init() {
	register("C16", "case analysis of every path of the adaptor methods: Less against the element order (NaN included), Swap, Assign and NewTemp by their element effects, SequentialSort by the standard sort it calls and the range it passes", ruleAdaptors,
		"package sort and package slices behave as documented")
}
