package main

// C40: parallel nodes run the receivers of different batches concurrently.
// C41: no lock of the library is held while user code runs.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C40", "every path of the goroutines of the parallel kinds of nodes, and of Par's Feed: nothing blocks, other than receiving the batch itself, and no lock is held, until the batch has passed the receivers; Feed does not run receivers itself", ruleParallelNodes, nodeTrust...)
	register("C41", "every call of a function value, of an interface method of the user, or of the next node, on every path of the packages that use locks: no lock is held there", ruleLockFree)
}

func ruleParallelNodes(c *Ctx) {
	n := 0
	for _, m := range c.models() {
		for _, v := range m.vars {
			if v.serial {
				continue
			}
			n++
			c.parallelNode(m, v)
		}
	}
	c.floor("parallel kinds of nodes", n, 3)
	sub := newCtx(c.P, "C33", c.Tier)
	checks["C33"].Run(sub)
	var keep []Viol
	for _, v := range sub.viols {
		if v.Rule == "limit" {
			keep = append(keep, v)
		}
	}
	sub.viols = keep
	c.absorb(sub)
}

// parallelNode checks one setting of a node that may process several batches
// at a time.
func (c *Ctx) parallelNode(m *nodeModel, v *variant) {
	tasks := 0
	for _, a := range []*Analysis{m.begin, m.feed} {
		self, pipe := Path(a.Args[0]), Path(a.Args[1])
		where := map[*Analysis]string{m.begin: "Begin", m.feed: "Feed"}[a]
		name := fmt.Sprintf("pipeline.%s.%s [%s]", m.t.name, where, v.name)
		batches := func(ch *Term) bool {
			return ch != nil && m.channelType != nil && ch.Typ != nil && sameElem(ch.Typ, m.channelType)
		}
		// receiving a batch
		ours := func(e *Event) bool {
			if e.Kind == "recv" {
				return batches(e.Recv)
			}
			for _, k := range e.Cases {
				if k.Send || !isDoneOf(k.Chan, pipe) && !batches(k.Chan) {
					return false
				}
			}
			return e.Kind == "select"
		}
		check := func(evs []*Event) {
			held := heldDeep(evs)
			var blocked *Event
			var scan func(evs []*Event)
			scan = func(evs []*Event) {
				for _, e := range evs {
					switch e.Kind {
					case "recv", "send", "condwait", "wgwait":
						if !ours(e) {
							blocked = e
						}
					case "select":
						if e.Block && !ours(e) {
							blocked = e
						}
					case "user", "forward":
						if e.Kind == "user" && !isReceiverCall(e) {
							continue
						}
						c.require(len(held[e]) == 0, "concurrent", name, e.Pos, "a batch is processed without a lock that other batches need")
						if blocked != nil {
							c.fail("concurrent", name, blocked.Pos, "a batch waits here (%s) before it is processed", blocked.Kind)
						}
					case "loop":
						if e.Loop.spins() {
							blocked = e
						}
						save := blocked
						for _, it := range e.Loop.Iters {
							if v.possible(it.St.facts, self) {
								blocked = save
								scan(it.Events)
							}
						}
						blocked = save
					}
				}
			}
			scan(evs)
		}
		for _, o := range a.Outs {
			if !v.possible(o.St.facts, self) {
				continue
			}
			for _, e := range flat(o.Events()) {
				if e.Kind != "go" || e.Task == nil {
					continue
				}
				tasks++
				for _, to := range e.Task.Outs {
					if v.possible(to.St.facts, self) {
						check(to.Events())
					}
				}
			}
			if a == m.feed {
				for _, e := range flat(o.Events()) {
					if e.Kind == "user" && isReceiverCall(e) {
						c.fail("concurrent", name, e.Pos, "receivers run in the goroutine that feeds the batch, so that the next batch waits for them")
					}
				}
				if !v.limited {
					for _, e := range flat(o.Events()) {
						block := e.Kind == "loop" && e.Loop.spins() || e.Kind == "recv" || e.Kind == "send" || e.Kind == "condwait" || e.Kind == "wgwait" || e.Kind == "select" && e.Block
						if block {
							c.fail("concurrent", name, e.Pos, "feeding a batch waits (%s)", e.Kind)
						}
					}
				}
			}
		}
	}
	c.require(tasks > 0, "concurrent", "pipeline."+m.t.name+" ["+v.name+"]", 0, "batches are processed by goroutines of the node")
}

// isReceiverCall tells whether a call through a function value is one of a
// receiver: it gets a batch number and a batch.
func isReceiverCall(e *Event) bool {
	return e.Recv != nil && len(e.Args) == 2 && isIntType(e.Args[0].Typ)
}

// sameElem compares the element types of two channels, whatever their type
// parameters are called.
func sameElem(a, b types.Type) bool {
	x, ok := a.Underlying().(*types.Chan)
	y, ok2 := b.Underlying().(*types.Chan)
	return ok && ok2 && typeBase(x.Elem()) == typeBase(y.Elem())
}

// ruleLockFree looks at the calls of user code in all analyses.
func ruleLockFree(c *Ctx) {
	uses := map[string]bool{}
	for _, pkg := range []string{"internal", "parallel", "speculative", "psort", "gsync", "pipeline"} {
		for _, fn := range c.P.allFuncs(pkg) {
			if usesLocks(fn) {
				uses[pkg] = true
			}
		}
	}
	groups := map[string][]string{
		"parallel": {"C01", "C10"}, "speculative": {"C07"}, "psort": {"C14"}, "internal": {"C04"}, "gsync": {"C17", "C18"},
		"pipeline": {"C19", "C22", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C32", "C37"},
	}
	var ids []string
	for pkg := range uses {
		ids = append(ids, groups[pkg]...)
	}
	sort.Strings(ids)
	calls := map[string]bool{}
	bad := map[string]bool{}
	undecided, decided := map[*ssa.Function]error{}, map[*ssa.Function]bool{}
	c.rerunChecks(ids, func(a *Analysis) {
		if a.Err != nil {
			if strings.Contains(a.Err.Error(), "locks held") {
				undecided[a.Fn] = a.Err
			}
			return
		}
		decided[a.Fn] = true
		for _, o := range a.Outs {
			evs := deepFlat(o.Events())
			for _, e := range evs {
				if e.Kind != "user" && e.Kind != "invoke" && e.Kind != "forward" {
					continue
				}
				at := c.P.pos(e.Pos)
				calls[at] = true
				if len(e.Locks) > 0 && !bad[at] && !harmless(e) {
					bad[at] = true
					c.fail("lock-free", shortFn(e.Fn), e.Pos, "%s is called while %s is locked", e.Name, strings.Join(e.Locks, ", "))
					if os.Getenv("VERIF_DEBUG") != "" {
						fmt.Println(a.Name, e.Kind, e.Name, e.Recv, e.Locks)
					}
				}
			}
		}
	})
	for fn, err := range undecided {
		if !decided[fn] {
			c.fail("lock-free", shortFn(fn), fn.Pos(), "undecided: %v", err)
		}
	}
	for at := range calls {
		if !bad[at] {
			c.ok("lock-free", at, "no lock is held when user code is called")
		}
	}
	c.floor("calls of user code", len(calls), 20)
}

// harmless: methods of the context and of the library's lockers do not run
// user code that could want the lock.
func harmless(e *Event) bool {
	return strings.HasPrefix(e.Name, "context.") || strings.HasPrefix(e.Name, "(context.") || strings.HasPrefix(e.Name, "(sync.") || strings.HasPrefix(e.Name, "(error)")
}

func usesLocks(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				cc := ci.Common()
				n := ""
				if cc.IsInvoke() {
					n = cc.Method.FullName()
				} else if f := cc.StaticCallee(); f != nil {
					n = f.String()
				}
				if strings.Contains(n, "sync.") && (strings.HasSuffix(n, ".Lock") || strings.HasSuffix(n, ".RLock") || strings.HasSuffix(n, ".TryLock") || strings.HasSuffix(n, ".TryRLock")) {
					return true
				}
			}
		}
	}
	return false
}

// rerunChecks makes the analyses of other rules again and hands them on.
func (c *Ctx) rerunChecks(ids []string, look func(a *Analysis)) {
	for _, id := range ids {
		TT = newTermTab()
		sub := newCtx(c.P, id, c.Tier)
		sub.onAnalysis = look
		checks[id].Run(sub)
		sub.viols = nil
		c.absorb(sub)
	}
}
