package main

// Channels that only signal an end: made by a function, perhaps for a field of
// a struct, closed, and received from, but never sent on or handed elsewhere.
// They act like a wait group with a count of one. A channel with room for the
// one value that is sent on it acts like a variable and such a wait group.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var signalChans = map[*ssa.MakeChan]bool{}

// isSignal tells whether a channel is a local one of that sort.
func isSignal(t *Term) bool {
	if t == nil || t.Op != "makechan" {
		return false
	}
	x, ok := t.Ref.(*ssa.MakeChan)
	if !ok {
		return false
	}
	r, known := signalChans[x]
	if !known {
		r = onlySignals(x, map[ssa.Value]bool{}, nil)
		signalChans[x] = r
	}
	return r
}

var resultChans = map[*ssa.MakeChan]bool{}

// isResult tells whether a channel is a local one for the one value that a
// single send hands over, without blocking.
func isResult(t *Term) bool {
	if t == nil || t.Op != "makechan" {
		return false
	}
	x, ok := t.Ref.(*ssa.MakeChan)
	if !ok {
		return false
	}
	r, known := resultChans[x]
	if !known {
		n := 0
		size, isConst := x.Size.(*ssa.Const)
		r = isConst && size.Value != nil && size.Int64() >= 1 && onlySignals(x, map[ssa.Value]bool{}, &n) && n == 1
		resultChans[x] = r
	}
	return r
}

// resultCell is the variable that stands for what such a channel holds.
func resultCell(t *Term) *Term {
	return mk("alloc", "in:"+t.Aux, ptrTo(t.Typ.Underlying().(*types.Chan).Elem()), t.Ref)
}

// signalFields are the fields of structs that hold such channels.
var signalFields map[string]bool

func findSignalFields(P *Program) {
	signalFields = map[string]bool{}
	ok := map[string]bool{}
	for _, pkg := range []string{"internal", "parallel", "speculative", "psort", "gsync", "pipeline"} {
		for _, fn := range P.allFuncs(pkg) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					fa, is := in.(*ssa.FieldAddr)
					if !is {
						continue
					}
					st := structOf(deref(fa.X.Type()))
					if st == nil || !isSignalType(st.Field(fa.Field).Type()) {
						continue
					}
					k := typeBase(deref(fa.X.Type())) + "." + st.Field(fa.Field).Name()
					if _, seen := ok[k]; !seen {
						ok[k] = true
					}
					ok[k] = ok[k] && fieldSignals(fa)
				}
			}
		}
	}
	for k, v := range ok {
		if v {
			signalFields[k] = true
		}
	}
}

func isSignalType(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	st, ok := ch.Elem().Underlying().(*types.Struct)
	return ok && st.NumFields() == 0
}

func fieldSignals(fa *ssa.FieldAddr) bool {
	for _, r := range *fa.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			m, ok := x.Val.(*ssa.MakeChan)
			if x.Addr != fa || !ok || len(*m.Referrers()) != 1 {
				return false
			}
		case *ssa.UnOp:
			if !onlySignals(x, map[ssa.Value]bool{}, nil) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// signalOf gives what stands for the wait group, if a channel only signals.
func signalOf(st *State, t *Term) *Term {
	switch {
	case t == nil:
	case isSignal(t):
		return t
	case t.Op == "load" && isSignalField(t.Args[0]):
		return t.Args[0]
	case t.Op == "makechan":
		for a, v := range st.mem {
			if v == t && isSignalField(a) {
				return a
			}
		}
	}
	return nil
}

func isSignalField(a *Term) bool {
	return a.Op == "fieldaddr" && a.Args[0].Typ != nil && signalFields[typeBase(deref(a.Args[0].Typ))+"."+fieldName(a)]
}

// onlySignals looks at the uses of a value that is such a channel, or the
// variable that holds one. With sends, it is one that is not closed, and the
// places that send are counted.
func onlySignals(v ssa.Value, seen map[ssa.Value]bool, sends *int) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			a, ok := x.Addr.(*ssa.Alloc)
			if x.Addr != v && !ok {
				return false
			}
			if x.Addr != v {
				// a variable that is set only once
				n := 0
				for _, y := range *a.Referrers() {
					if s, ok := y.(*ssa.Store); ok && s.Addr == a {
						n++
					}
				}
				if n != 1 || !onlySignals(a, seen, sends) {
					return false
				}
			}
		case *ssa.UnOp:
			// the value received is of no use to anybody
			if x.X != v {
				return false
			}
			if _, ch := v.Type().Underlying().(*types.Chan); !ch {
				if !onlySignals(x, seen, sends) {
					return false
				}
			} else if sends == nil && x.Referrers() != nil && len(*x.Referrers()) > 0 || x.CommaOk {
				return false
			}
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v && !onlySignals(fn.FreeVars[i], seen, sends) {
					return false
				}
			}
		case ssa.CallInstruction:
			b, ok := x.Common().Value.(*ssa.Builtin)
			if !ok || b.Name() != "close" || sends != nil {
				return false
			}
		case *ssa.Send:
			if sends == nil || x.Chan != v || x.X == v {
				return false
			}
			*sends++
		default:
			return false
		}
	}
	return true
}

// localWG tells whether only this function, and the goroutines it started, know
// a wait group.
func localWG(w *Term) bool {
	op := rootOf(w).Op
	return op == "alloc" || op == "makechan"
}
