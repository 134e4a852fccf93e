package main

// C17, C18: package gsync.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// effects lists the events that matter to an observer: everything but
// accesses to memory.
func effects(evs []*Event) []*Event {
	var r []*Event
	for _, e := range evs {
		switch e.Kind {
		case "ld", "append", "defer", "make":
			continue
		case "st":
			if rootOf(e.Recv).Op == "alloc" {
				continue
			}
		case "typeassert":
			continue
		case "loop":
			n := 0
			for _, it := range e.Loop.Iters {
				n += len(effects(it.Events))
			}
			if n == 0 {
				continue
			}
		}
		r = append(r, e)
	}
	return r
}

func stripIface(t *Term) *Term {
	for t.Op == "mkiface" {
		t = t.Args[0]
	}
	return t
}

// assertOf recognises x.(T), in either form, for an x of interface type.
func assertOf(v *Term) *Term {
	if v.Op == "assert" && len(v.Args) == 1 {
		return v.Args[0]
	}
	return nil
}

// badAssert finds a type assertion that panics for nil values.
func badAssert(evs []*Event) *Event {
	for _, e := range evs {
		if e.Kind == "assert" && len(e.Args) > 0 {
			x := e.Args[0]
			if e.Facts.Entails(mkNot(mkEq(x, mkNil(x.Typ)))) || e.Facts.Entails(e.Recv) {
				continue
			}
			return e
		}
		if e.Kind == "loop" {
			for _, it := range e.Loop.Iters {
				if b := badAssert(it.Events); b != nil {
					return b
				}
			}
		}
	}
	return nil
}

// resultOf gives the i-th result of a call event.
func resultOf(e *Event, i int) *Term {
	if e.Res == nil {
		return nil
	}
	if e.Res.Op == "tuple" {
		return e.Res.Args[i]
	}
	return e.Res
}

// isTyped reports that v is x converted to its static type, or the zero value
// where x is nil or absent.
func isTyped(f *Facts, v, x, absent *Term) bool {
	if assertOf(v) == x {
		return true
	}
	if v.Op == "zero" || v.Op == "nil" {
		if f.Entails(mkEq(x, mkNil(x.Typ))) {
			return true
		}
		if absent != nil && f.Entails(absent) {
			return true
		}
		for y := f; y != nil; y = y.parent {
			if y.cond.Op == "assertok" && y.cond.Args[0] == x && f.Decide(y.cond) < 0 {
				return true
			}
		}
	}
	return false
}

func sameBool(f *Facts, v, x *Term) bool {
	if v == x {
		return true
	}
	if isTrue(v) {
		return f.Entails(x)
	}
	if isFalse(v) {
		return f.Decide(x) < 0
	}
	return false
}

func ruleGsyncMap(c *Ctx) {
	sp := c.P.SSA["gsync"]
	if sp == nil {
		c.fail("anchor", "gsync", 0, "package gsync does not exist")
		return
	}
	tn, _ := sp.Pkg.Scope().Lookup("Map").(*types.TypeName)
	if tn == nil {
		c.fail("anchor", "gsync.Map", 0, "gsync.Map does not exist")
		return
	}
	named := tn.Type().(*types.Named)
	methods := map[string]*ssa.Function{}
	for i := 0; i < named.NumMethods(); i++ {
		if m := named.Method(i); m.Exported() {
			methods[m.Name()] = c.P.Prog.FuncValue(m)
		}
	}
	// method -> index of the value result that may be absent, or -1
	spec := map[string]struct{ val, flag int }{
		"CompareAndDelete": {-1, 0}, "CompareAndSwap": {-1, 0}, "Delete": {-1, -1}, "Load": {0, 1},
		"LoadAndDelete": {0, 1}, "LoadOrStore": {0, 1}, "Range": {-1, -1}, "Store": {-1, -1}, "Swap": {0, 1}, "Clear": {-1, -1},
	}
	same := map[string]string{"Delete": "LoadAndDelete", "Store": "Swap"}
	var names []string
	for n := range spec {
		if n != "Clear" && methods[n] == nil {
			c.fail("anchor", "gsync.Map."+n, tn.Pos(), "the method does not exist any more")
		}
		if methods[n] != nil {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		fn := methods[n]
		name := "gsync.Map." + n
		s := spec[n]
		args := ParamTerms(fn)
		an := c.analyze(fn, args, nil, nil, Config{UserPanics: true})
		if an.Err != nil {
			c.undecided("delegates", name, fn.Pos(), an.Err)
			continue
		}
		for _, o := range an.Outs {
			f := o.St.facts
			pos := outPos2(o, fn)
			if o.Kind != "ret" {
				c.fail("no-panic", name, pos, "a path does not return (%s)", o.Kind)
				continue
			}
			if b := badAssert(o.Events()); b != nil {
				c.fail("no-panic", name, b.Pos, "the type assertion panics for a nil interface value")
			} else {
				c.ok("no-panic", name, "no type assertion on %v can panic", name)
			}
			var call *Event
			bad := false
			for _, e := range effects(o.Events()) {
				switch {
				case e.Kind == "ext" && strings.HasPrefix(e.Name, "(*sync.Map)."):
					if call != nil {
						c.fail("delegates", name, e.Pos, "more than one operation on the underlying map: not atomic")
						bad = true
					}
					call = e
				case e.Kind == "assert":
				default:
					c.fail("delegates", name, e.Pos, "unexpected effect: %s %s", e.Kind, e.Name)
					bad = true
				}
			}
			if bad {
				continue
			}
			if call == nil {
				c.fail("delegates", name, pos, "a path does not call sync.Map.%s", n)
				continue
			}
			got := strings.TrimPrefix(call.Name, "(*sync.Map).")
			if !c.require(got == n || got == same[n], "delegates", name, call.Pos, "calls sync.Map.%s", got) {
				continue
			}
			if !c.require(call.Args[0] == args[0], "delegates", name, call.Pos, "the operation is on the receiver") {
				continue
			}
			if n == "Range" {
				mapRange(c, name, o, call, args[1])
				continue
			}
			for i := range args[1:] {
				c.require(i+1 < len(call.Args) && stripIface(call.Args[i+1]) == args[i+1], "arguments", name, call.Pos, "argument %d is passed on", i+1)
			}
			if s.flag >= 0 {
				fl := resultOf(call, s.flag)
				c.require(sameBool(f, o.Res[s.flag], fl), "flag", name, pos, "the flag of sync.Map.%s is returned unchanged", n)
				if s.val >= 0 {
					var absent *Term
					x := resultOf(call, s.val)
					if n != "LoadOrStore" {
						absent = mkNot(fl)
					}
					ok := isTyped(f, o.Res[s.val], x, absent) || n == "LoadOrStore" && o.Res[s.val] == args[2] && f.Decide(fl) < 0
					c.require(ok, "value", name, pos, "the value found is returned, the zero value if there is none")
				}
			}
		}
	}
	c.floor("map methods", len(names), 9)
}

func mapRange(c *Ctx, name string, o *Outcome, call *Event, f *Term) {
	cb := call.Args[1]
	if ssaFn(cb) == nil || cb.Op != "closure" && cb.Op != "func" {
		c.fail("range", name, call.Pos, "the function passed to sync.Map.Range is not known")
		return
	}
	fn := ssaFn(cb)
	k, v := freshSym("key", fn.Params[0].Type()), freshSym("value", fn.Params[1].Type())
	an := c.analyze(fn, []*Term{k, v}, closureBinds(cb), o.St.clone(), Config{UserPanics: false})
	if an.Err != nil {
		c.undecided("range", name, call.Pos, an.Err)
		return
	}
	mark := len(o.Events())
	for _, q := range an.Outs {
		evs := q.Events()[mark:]
		if b := badAssert(evs); b != nil {
			c.fail("no-panic", name, b.Pos, "the type assertion panics for a nil interface value")
		}
		var u *Event
		n := 0
		for _, e := range effects(evs) {
			switch {
			case e.Kind == "user" && e.Recv == f:
				u = e
				n++
			case e.Kind == "assert":
			default:
				c.fail("range", name, e.Pos, "unexpected effect: %s %s", e.Kind, e.Name)
			}
		}
		if !c.require(q.Kind == "ret" && n == 1, "range", name, outPos2(q, fn), "the user's function is called once per entry") {
			continue
		}
		c.require(isTyped(q.St.facts, u.Args[0], k, nil) && isTyped(q.St.facts, u.Args[1], v, nil), "range", name, u.Pos, "the user's function gets the key and the value of the entry")
		c.require(sameBool(q.St.facts, q.Res[0], u.Res), "range", name, u.Pos, "iteration goes on exactly if the user's function returns true")
	}
}

func closureBinds(t *Term) []*Term {
	if t.Op == "closure" {
		return t.Args
	}
	return nil
}

// ---- Pool

func ruleGsyncPool(c *Ctx) {
	get, put := c.mustFn("gsync.Pool.Get"), c.mustFn("gsync.Pool.Put")
	if get == nil || put == nil {
		return
	}
	var news []*Term
	installed := map[*Term]*State{}
	// poolOf checks that t is the one pool of receiver p
	poolOf := func(o *Outcome, upto *Event, t, p *Term) error {
		var casOn *Term
		for _, e := range o.Events() {
			if e == upto {
				break
			}
			if e.Kind == "atomic" {
				if !(e.Recv.Op == "fieldaddr" && e.Recv.Args[0] == p) {
					return fmt.Errorf("an atomic operation on %v", e.Recv)
				}
				switch e.Name {
				case "Load":
					if e.Res == t && (casOn == e.Recv || upto.Facts.Entails(mkNot(mkEq(t, mkNil(t.Typ))))) {
						return nil
					}
				case "CompareAndSwap":
					if !isNil(e.Args[0]) {
						return fmt.Errorf("the pool is replaced by CompareAndSwap(%v, ...)", e.Args[0])
					}
					a := e.Args[1]
					if a.Op != "alloc" || typeBase(deref(a.Typ)) != "sync.Pool" {
						return fmt.Errorf("%v is not a new pool", a)
					}
					casOn = e.Recv
					if a == t {
						if !upto.Facts.Entails(e.Res) {
							return fmt.Errorf("a pool is used that was not installed")
						}
						return nil
					}
				default:
					return fmt.Errorf("the shared pool is set by %s: concurrent first uses lose values", e.Name)
				}
			}
		}
		return fmt.Errorf("%v is not the pool shared by all users of the receiver", t)
	}
	usedNew := 0
	untypedNil := false
	type getOut struct {
		o   *Outcome
		x   *Term
		fn  *ssa.Function
		evs []*Event
	}
	var gets []getOut
	for _, fn := range []*ssa.Function{get, put} {
		name := "gsync.Pool." + fn.Name()
		args := ParamTerms(fn)
		an := c.analyze(fn, args, nil, nil, Config{UserPanics: false})
		if an.Err != nil {
			c.undecided("pool", name, fn.Pos(), an.Err)
			continue
		}
		for _, o := range an.Outs {
			pos := outPos2(o, fn)
			if o.Kind != "ret" {
				c.fail("pool", name, pos, "a path does not return (%s)", o.Kind)
				continue
			}
			var call *Event
			var rest []*Event
			for _, e := range effects(o.Events()) {
				switch {
				case e.Kind == "ext" && (e.Name == "(*sync.Pool).Get" || e.Name == "(*sync.Pool).Put"):
					if call != nil {
						c.fail("pool", name, e.Pos, "more than one operation on the underlying pool")
					}
					call = e
				case e.Kind == "atomic":
					if e.Name == "CompareAndSwap" && e.Args[1].Op == "alloc" {
						a := e.Args[1]
						if installed[a] == nil {
							news = append(news, a)
						}
						installed[a] = e.St
					}
				case e.Kind == "loop":
					for _, it := range e.Loop.Iters {
						for _, x := range effects(it.Events) {
							if x.Kind != "atomic" || x.Name != "Load" && x.Name != "CompareAndSwap" || x.Name == "CompareAndSwap" && !isNil(x.Args[0]) {
								c.fail("pool", name, x.Pos, "unexpected effect: %s %s", x.Kind, x.Name)
							}
							if x.Name == "CompareAndSwap" && x.Args[1].Op == "alloc" && installed[x.Args[1]] == nil {
								news = append(news, x.Args[1])
								installed[x.Args[1]] = x.St
							}
						}
					}
				default:
					rest = append(rest, e)
				}
			}
			if call == nil || !strings.HasSuffix(call.Name, "."+fn.Name()) {
				c.fail("pool", name, pos, "a path does not call sync.Pool.%s", fn.Name())
				continue
			}
			if err := poolOf(o, call, call.Args[0], args[0]); err != nil {
				c.fail("shared", name, call.Pos, "%v", err)
			} else {
				c.ok("shared", name, "%v is loaded or installed atomically", call.Args[0])
			}
			if fn == put {
				for _, e := range rest {
					c.fail("pool", name, e.Pos, "unexpected effect: %s %s", e.Kind, e.Name)
				}
				x := call.Args[1]
				c.require(x.Op == "mkiface" && x.Args[0] == args[1], "put", name, call.Pos, "the value given is stored as a pointer of the type of the pool")
				continue
			}
			gets = append(gets, getOut{o, resultOf(call, 0), fn, rest})
		}
	}
	isNewField := func(t, p *Term) bool {
		a := loadAddr(t)
		return a != nil && a.Op == "fieldaddr" && fieldName(a) == "New" && a.Args[0] == p
	}
	// the New functions of the installed pools
	for _, a := range news {
		st := installed[a]
		nf := st.load(mkFieldAddrNamed(a, "New"), types.NewSignatureType(nil, nil, nil, nil, nil, false))
		if nf == nil || nf.Op == "nil" || nf.Op == "zero" {
			untypedNil = true
			continue
		}
		if ssaFn(nf) == nil {
			c.fail("new", "gsync.Pool", get.Pos(), "the pool's New function %v is not known", nf)
			continue
		}
		usedNew++
		fn := ssaFn(nf)
		s2 := st.clone()
		s2.havoc()
		mark := len(st.ev.list())
		an := c.analyze(fn, nil, closureBinds(nf), s2, Config{})
		if an.Err != nil {
			c.undecided("new", "gsync.Pool", fn.Pos(), an.Err)
			continue
		}
		var p *Term
		for _, o := range an.Outs {
			evs := o.Events()[mark:]
			f := o.St.facts
			var u []*Event
			for _, e := range effects(evs) {
				if e.Kind == "user" {
					u = append(u, e)
				} else {
					c.fail("new", "gsync.Pool", e.Pos, "unexpected effect in New: %s %s", e.Kind, e.Name)
				}
			}
			if o.Kind != "ret" {
				c.fail("new", "gsync.Pool", outPos2(o, fn), "a path of New does not return")
				continue
			}
			for _, pt := range []*Term{ParamTerms(get)[0], ParamTerms(put)[0]} {
				if contains(nf, pt) || st.load2(nf, pt) {
					p = pt
				}
			}
			if p == nil {
				c.fail("new", "gsync.Pool", fn.Pos(), "New does not refer to the receiver")
				break
			}
			r := o.Res[0]
			if len(u) == 1 {
				c.require(isNewField(u[0].Recv, p) && heapOf(u[0].Recv) == fmt.Sprint(s2.heap), "new", "gsync.Pool", u[0].Pos, "the receiver's New field is called, as it is when a value is needed")
				c.require(u[0].Facts.Entails(mkNot(mkEq(u[0].Recv, mkNil(u[0].Recv.Typ)))), "new", "gsync.Pool", u[0].Pos, "New is only called where it is known not to be nil")
				c.require(stripIface(r) == u[0].Res, "new", "gsync.Pool", u[0].Pos, "the result of New is handed out")
				if r.Op != "mkiface" {
					untypedNil = true
				}
				continue
			}
			if len(u) > 1 {
				c.fail("new", "gsync.Pool", u[1].Pos, "New is called twice")
				continue
			}
			none := false
			for x := f; x != nil; x = x.parent {
				if x.cond.Op == "eq" {
					for i := range 2 {
						if isNil(x.cond.Args[i]) && isNewField(x.cond.Args[1-i], p) && f.Entails(x.cond) {
							none = true
						}
					}
				}
			}
			c.require(none && isNil(stripIface(r)), "new", "gsync.Pool", outPos2(o, fn), "nil is handed out only if there is no New function")
			if r.Op != "mkiface" {
				untypedNil = true
			}
		}
	}
	name := "gsync.Pool.Get"
	p := ParamTerms(get)[0]
	for _, g := range gets {
		f := g.o.St.facts
		pos := outPos2(g.o, get)
		r := g.o.Res[0]
		nonnil := f.Entails(mkNot(mkEq(g.x, mkNil(g.x.Typ))))
		for y := f; y != nil; y = y.parent {
			if y.cond.Op == "assertok" && y.cond.Args[0] == g.x && f.Decide(y.cond) > 0 {
				nonnil = true
			}
		}
		var u []*Event
		for _, e := range g.evs {
			switch e.Kind {
			case "user":
				u = append(u, e)
			case "assert":
				if e.Args[0] == g.x {
					c.require(!untypedNil || badAssert([]*Event{e}) == nil, "get", name, e.Pos, "the assertion cannot fail: the pool only holds pointers of its type")
					continue
				}
				c.fail("get", name, e.Pos, "unexpected assertion")
			default:
				c.fail("get", name, e.Pos, "unexpected effect: %s %s", e.Kind, e.Name)
			}
		}
		switch {
		case assertOf(r) == g.x && len(u) == 0:
			c.require(nonnil || usedNew > 0 || noNew(f, isNewField, p), "get", name, pos, "the pooled value is handed out, or a new one")
		case len(u) == 1 && r == u[0].Res:
			c.require(u[0].Facts.Entails(mkNot(mkEq(u[0].Recv, mkNil(u[0].Recv.Typ)))), "get", name, u[0].Pos, "New is only called where it is known not to be nil")
			c.require(!nonnil && isNewField(u[0].Recv, p) && (f.Entails(mkEq(g.x, mkNil(g.x.Typ))) || isTypedNil(f, g.x)), "get", name, pos, "New is called only if the pool is empty")
		case isNil(r) && len(u) == 0:
			c.require((f.Entails(mkEq(g.x, mkNil(g.x.Typ))) || isTypedNil(f, g.x)) && (usedNew > 0 || noNew(f, isNewField, p)), "get", name, pos, "nil is handed out only if there is no value")
		default:
			c.fail("get", name, pos, "%v is handed out instead of the pooled value", r)
		}
	}
	c.floor("paths through Get", len(gets), 1)
	c.floor("pools installed", len(news), 1)
}

func isTypedNil(f *Facts, x *Term) bool {
	for y := f; y != nil; y = y.parent {
		if y.cond.Op == "assertok" && y.cond.Args[0] == x && f.Decide(y.cond) < 0 {
			return true
		}
		if y.cond.Op == "eq" && f.Entails(y.cond) {
			for i := range 2 {
				if isNil(y.cond.Args[i]) && assertOf(y.cond.Args[1-i]) == x {
					return true
				}
			}
		}
	}
	return false
}

func noNew(f *Facts, isNewField func(t, p *Term) bool, p *Term) bool {
	for y := f; y != nil; y = y.parent {
		if y.cond.Op == "eq" && f.Entails(y.cond) {
			for i := range 2 {
				if isNil(y.cond.Args[i]) && isNewField(y.cond.Args[1-i], p) {
					return true
				}
			}
		}
	}
	return false
}

// load2 reports that a closure's captured variable holds pt.
func (s *State) load2(cl, pt *Term) bool {
	for _, b := range closureBinds(cl) {
		if s.mem[b] == pt {
			return true
		}
	}
	return false
}

func heapOf(t *Term) string {
	if t.Op != "load" {
		return ""
	}
	return strings.SplitN(t.Aux, ".", 2)[0]
}

// mkFieldAddrNamed is the address of a struct's field by name.
func mkFieldAddrNamed(base *Term, name string) *Term {
	st := structOf(deref(base.Typ))
	if st == nil {
		return base
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return mkFieldAddr(base, i, name, ptrTo(st.Field(i).Type()))
		}
	}
	return base
}

func init() {
	register("C17", "every method of gsync.Map is, on every path, exactly one call of the sync.Map method of its name on the receiver, with the arguments passed through in order and the results passed back; no type assertion on the way can panic", ruleGsyncMap,
		"sync.Map behaves as documented")
	register("C18", "the underlying pool of gsync.Pool is only loaded and installed atomically from nil; Put stores its argument in it; Get returns what it gives, or the result of the receiver's New function, or nil without one", ruleGsyncPool,
		"sync.Pool and sync/atomic behave as documented")
}
