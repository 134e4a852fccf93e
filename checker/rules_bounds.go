package main

// C36: no operation of the library panics by itself. All analyses of the
// other rules are made again, with an event for every index, slice expression,
// allocation and division; each must be in range on every path that reaches
// it.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C36", "every index, slice bound, allocation size and divisor in the library, on every abstract path that reaches it, is proved to be in range from the conditions of the path, the inductive inequalities of the enclosing loops and the stated preconditions", runC36,
		"user-written nodes, sources, filters and range functions leave the nodes of a running pipeline alone",
		"the adaptors' Less, Swap and SequentialSort are called with positions inside the data (C11, C13 and C15 show that the library does)",
		"FeedForward is called with an index of at least -1 (C19 and C32 show that the library does)",
		"integers do not overflow")
}

// boundSite is an operation that may be out of range.
func boundSites(fn *ssa.Function) map[token.Pos]string {
	r := map[token.Pos]string{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.IndexAddr:
				if _, isArr := deref(x.X.Type()).Underlying().(*types.Array); isArr {
					if _, k := x.Index.(*ssa.Const); k {
						continue // checked by the compiler
					}
				}
				r[x.Pos()] = "index"
			case *ssa.Index:
				r[x.Pos()] = "index"
			case *ssa.Slice:
				r[x.Pos()] = "slice"
			case *ssa.MakeSlice:
				r[x.Pos()] = "make"
			case *ssa.BinOp:
				if (x.Op == token.QUO || x.Op == token.REM) && isIntType(x.X.Type()) {
					if _, k := x.Y.(*ssa.Const); !k {
						r[x.Pos()] = "div"
					}
				}
			}
		}
	}
	delete(r, token.NoPos)
	return r
}

// withBounds makes the analyses of other rules again, with events for what may
// be out of range, and hands them on.
func (c *Ctx) withBounds(which func(id string) bool, look func(id string, a *Analysis)) {
	boundsOn = true
	stableClass = map[string]bool{}
	defer func() {
		boundsOn = false
		stableClass = map[string]bool{}
	}()
	if f := c.P.fn("pipeline.Pipeline.FeedForward"); f != nil {
		if st := structOf(deref(f.Params[0].Type())); st != nil {
			if n := fieldOfType(st, sliceOf("pipeline.Node")); n != "" {
				stableClass["F:pipeline.Pipeline."+n] = true
			}
		}
	}
	// nor do they reach into the library's own nodes
	for _, t := range c.nodeTypes() {
		st := structOf(t.named.Underlying())
		for i := 0; st != nil && i < st.NumFields(); i++ {
			switch st.Field(i).Type().Underlying().(type) {
			case *types.Slice, *types.Pointer, *types.Signature:
				stableClass["F:pipeline."+t.name+"."+st.Field(i).Name()] = true
			}
		}
	}
	var ids []string
	for id := range checks {
		if o := os.Getenv("VERIF_ONLY"); which(id) && (o == "" || strings.Contains(o, id)) {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	for _, id := range ids {
		TT = newTermTab()
		sub := newCtx(c.P, id, c.Tier)
		sub.onAnalysis = func(a *Analysis) { look(id, a) }
		checks[id].Run(sub)
		var keep []Viol
		for _, v := range sub.viols {
			// the sources rely on being asked for a positive number of elements
			if c.Prop == "C36" && id == "C27" && (v.Rule == "settings" || v.Rule == "size") && strings.Contains(v.Msg, "at least 1") {
				keep = append(keep, v)
			}
		}
		sub.viols = keep
		c.absorb(sub)
	}
}

func runC36(c *Ctx) {
	b := &boundRule{c: c, seen: map[string]bool{}}
	inSorts := false
	for _, fn := range c.P.allFuncs("psort") {
		top := fn
		for top.Parent() != nil {
			top = top.Parent()
		}
		recv := top.Signature.Recv()
		if (recv == nil || !isSliceT(recv.Type())) && len(boundSites(fn)) > 0 {
			inSorts = true
		}
	}
	c.withBounds(func(id string) bool {
		switch id {
		case "C36", "C38", "C39", "C40", "C41":
			return false
		case "C11", "C12", "C13", "C14", "C15", "C34":
			return inSorts // otherwise nothing there can be out of range
		}
		return true
	}, b.look)
	if os.Getenv("VERIF_DEBUG") != "" {
		b.unseen()
	}
	c.floor("sites", len(b.seen), 20)
}

// unseen lists what no analysis reached.
func (b *boundRule) unseen() {
	c := b.c
	for _, pkg := range []string{"internal", "parallel", "speculative", "psort", "gsync", "pipeline"} {
		for _, fn := range c.P.allFuncs(pkg) {
			for pos, kind := range boundSites(fn) {
				if !b.seen[c.P.pos(pos)] {
					fmt.Println("unseen", fn, c.P.pos(pos), kind)
				}
			}
		}
	}
}

type boundRule struct {
	c    *Ctx
	seen map[string]bool
}

// skip tells which analyses do not know enough about the arguments.
func (b *boundRule) skip(id string, a *Analysis, e *Event) bool {
	top := topFn(e.Fn)
	switch {
	case a.Fn.Name() == "Fetch":
		return id != "C26"
	case a.Fn.Parent() != nil && (topFn(a.Fn).Name() == "Limit" || topFn(a.Fn).Name() == "Skip"):
		return id != "C28" // which relates what the receivers keep to the limit
	case top.Name() == "PrefixSum" || a.Fn.Name() == "PrefixSum":
		return true // C10 decides it: the bounds depend on the number of doublings
	case a.Fn.Name() == "Begin" || a.Fn.Name() == "Feed":
		// the way forward was looked at with the condition on the index
		return strings.HasPrefix(a.Name, "(*pipeline.") && !strings.HasPrefix(a.Name, "(*pipeline.Pipeline[") && strings.HasPrefix(shortFn(e.Fn), "(*pipeline.Pipeline[")
	}
	return false
}

// assume gives the preconditions of a function.
func (b *boundRule) assume(a *Analysis, e *Event, f *Facts) *Facts {
	name := a.Fn.Name()
	switch {
	case name == "FeedForward" && len(a.Args) > 1:
		f = f.add(le(mkInt(-1), a.Args[1]), true)
	case strings.HasSuffix(fnPkg(a.Fn), "/psort") && len(a.Args) == 3 && isSliceT(a.Args[0].Typ):
		n := mkLen(a.Args[0])
		switch name {
		case "Less", "Swap":
			for _, i := range a.Args[1:] {
				f = f.add(le(mkInt(0), i), true).add(lt(i, n), true)
			}
		case "SequentialSort":
			f = f.add(le(mkInt(0), a.Args[1]), true).add(le(a.Args[1], a.Args[2]), true).add(le(a.Args[2], n), true)
		}
	}
	return f
}

func topFn(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

func fnPkg(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg == nil {
		return ""
	}
	return fn.Pkg.Pkg.Path()
}

func (b *boundRule) look(id string, a *Analysis) {
	if a.Err != nil {
		return
	}
	c := b.c
	seen := map[*Event]bool{}
	for _, o := range a.Outs {
		for _, e := range deepFlat(o.Events()) {
			if e.Kind != "bound" || seen[e] {
				continue
			}
			seen[e] = true
			b.seen[c.P.pos(e.Pos)] = true
			if b.skip(id, a, e) {
				continue
			}
			f := b.assume(a, e, e.Facts)
			ok := true
			what := ""
			switch e.Name {
			case "div":
				ok = f.Decide(eqInt(e.Args[0], mkInt(0))) < 0
				what = "the divisor is never 0"
			case "index":
				ok = f.Entails(le(e.Args[0], e.Args[1])) && f.Entails(lt(e.Args[1], mkLen(e.Recv)))
				what = "the index is in range"
			default:
				what = "the bounds of the slice are in range and in order"
				if e.Name == "make" {
					what = "the length is not negative"
				}
				for i := 1; i < len(e.Args); i++ {
					ok = ok && f.Entails(le(e.Args[i-1], e.Args[i]))
				}
				ok = ok && f.Entails(le(mkInt(0), e.Args[0]))
				if e.Name == "slice" {
					l := e.Args[len(e.Args)-1]
					ok = ok && (f.Entails(le(l, mkLen(e.Recv))) || f.Entails(le(l, mk("cap", "", tyInt, nil, e.Recv))))
				}
			}
			c.require(ok, e.Name, shortFn(e.Fn), e.Pos, "%s", what)
			if !ok && os.Getenv("VERIF_DEBUG") != "" {
				fmt.Println(id, a.Name, c.P.pos(e.Pos), e.Name, e.Recv, e.Args, f)
			}
		}
	}
}
