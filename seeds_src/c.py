import os, importlib.util
_s = importlib.util.spec_from_file_location("b", os.path.join(os.path.dirname(__file__), "b.py")); _b = importlib.util.module_from_spec(_s); _s.loader.exec_module(_b)
MS, QS, SO, PL, SPEC, M, prog = _b.MS, _b.QS, _b.SO, _b.PL, _b.SPEC, _b.M, _b.prog
SEEDS = [
dict(id="s30-merge-search-end", property="C12",
 needs="a block of the left run that belongs after the whole rest of the right run",
 breaks="the search for the place of the left run's middle element never finds the end of the right run",
 edits=[(MS, "	low, high := p, r+1\n", "	low, high := p, max(p, r)\n")],
 demo=prog(M + "psort", '''
func main() {
	s := make([]int, 0x3000*9+5)
	for i := range s {
		s[i] = len(s) - i
	}
	psort.StableSort(psort.IntSlice(s))
	for i := range s {
		if s[i] != i+1 {
			die("position", i, "has", s[i])
		}
	}
}
''')),
dict(id="s31-promote-lpar", property="C24",
 needs="a LimitedPar node before a StrictOrd node of a transformed pipeline, behind a node that mixes the order, and more batches in flight than processors",
 breaks="LimitedPar nodes before a StrictOrd node inside a transformed pipeline are not switched to ordered delivery, so all workers may wait for a batch none of them has",
 edits=[(PL + "transformnode.go", "				case *lparnode[T]:\n					node.makeOrdered()\n", "				case *lparnode[T]:\n					node.ordered = node.cond != nil\n")],
 demo=prog("runtime time " + M + "pipeline", '''
func main() {
	n := runtime.NumCPU() * 4
	p := pipeline.New[[]int](pipeline.NewSlice(make([]int, n)))
	p.NofBatches(n)
	p.Add(pipeline.Par(pipeline.Receive(func(no int, data []int) []int {
		time.Sleep(time.Duration(n-no) * 5 * time.Millisecond)
		return data
	})))
	q := pipeline.Transform(p, func(_ int, data []int) int { return len(data) })
	seen := 0
	q.Add(
		pipeline.LimitedPar(pipeline.Receive(func(_ int, data int) int { return data })),
		pipeline.StrictOrd(pipeline.Receive(func(_ int, data int) int { seen++; return data })),
	)
	done := make(chan bool)
	go func() { p.Run(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		die("blocked after", seen, "batches")
	}
}
''')),
dict(id="s32-seterr-nil", property="C25",
 needs="SetErr(nil) after an error was set",
 breaks="SetErr(nil) erases an error that was set before",
 edits=[(PL + "pipeline.go", "	p.mutex.Lock()\n	if p.err == nil {\n		p.err = err\n		p.mutex.Unlock()\n", "	p.mutex.Lock()\n	if p.err == nil || err == nil {\n		p.err = err\n		p.mutex.Unlock()\n")],
 demo=prog("errors " + M + "pipeline", '''
func main() {
	p := pipeline.New[[]int](pipeline.NewSlice(make([]int, 8)))
	e := errors.New("first")
	p.Add(pipeline.Seq(pipeline.Receive(func(no int, data []int) []int {
		p.SetErr(e)
		p.SetErr(nil)
		return data
	})))
	p.Run()
	if p.Err() != e {
		die("the error is", p.Err())
	}
}
''')),
dict(id="s33-transform-merge", property="C32",
 needs="two nodes of a transformed pipeline that only become neighbours, and are merged, when the run begins",
 breaks="when nodes of a transformed pipeline are merged at the start of a run, the merged node is removed instead of the one it took over",
 edits=[(PL + "transformnode.go", "slices.Delete(node.next.nodes, index+1, index+2)", "slices.Delete(node.next.nodes, index, index+1)")],
 demo=prog("sync/atomic " + M + "pipeline", '''
func main() {
	p := pipeline.New[[]int](pipeline.NewSlice(make([]int, 8)))
	p.NofBatches(8)
	q := pipeline.Transform(p, func(_ int, data []int) int { return len(data) })
	var first, second int64
	q.Add(
		pipeline.LimitedPar(pipeline.Receive(func(_ int, data int) int { atomic.AddInt64(&first, 1); return data })),
		pipeline.Par[int](),
		pipeline.LimitedPar(pipeline.Receive(func(_ int, data int) int { atomic.AddInt64(&second, 1); return data })),
	)
	p.Run()
	if first != 8 || second != 8 {
		die(first, second)
	}
}
''')),
dict(id="s34-lpar-finalizers-early", property="C22",
 needs="a batch that is still being processed when the node is ended",
 breaks="a LimitedPar node runs its finalizers before it has waited for its workers",
 edits=[(PL + "lparnode.go", "	close(node.channel)\n	node.waitGroup.Wait()\n	for _, finalize := range node.finalizers {\n		finalize()\n	}\n", "	close(node.channel)\n	for _, finalize := range node.finalizers {\n		finalize()\n	}\n	node.waitGroup.Wait()\n")],
 demo=prog("sync/atomic time " + M + "pipeline", '''
func main() {
	p := pipeline.New[[]int](pipeline.NewSlice(make([]int, 4)))
	p.NofBatches(4)
	var n, at int64 = 0, -1
	p.Add(pipeline.LimitedPar(pipeline.ReceiveAndFinalize(
		func(_ int, data []int) []int {
			time.Sleep(200 * time.Millisecond)
			atomic.AddInt64(&n, 1)
			return data
		},
		func() { at = atomic.LoadInt64(&n) },
	)))
	p.Run()
	if at != 4 {
		die("the finalizer saw", at, "of 4 batches")
	}
}
''')),
dict(id="s35-prefix-power", property="C10",
 needs="a slice whose length is one more than a power of two",
 breaks="PrefixSum does one step too few for lengths that are one more than a power of two",
 edits=[("parallel/parallel.go", "math.Ceil(math.Log2(float64(len(slice))))", "math.Ceil(math.Log2(float64(max(len(slice), 2) - 1)))")],
 demo=prog(M + "parallel", '''
func main() {
	for n := 1; n < 300; n++ {
		s := make([]int, n)
		for i := range s {
			s[i] = 1
		}
		for i, x := range parallel.PrefixSum(s) {
			if x != i+1 {
				die(n, i, x)
			}
		}
	}
}
''')),
dict(id="s36-or-short-circuit", property="C02",
 needs="at least three predicates, and one that is true at the start of a right half",
 breaks="parallel.Or does not call the other predicates of a right half if its first one is true",
 edits=[("parallel/parallel.go", "			b1 = Or(predicates[half:]...)\n		}()\n		b0 = Or(predicates[:half]...)\n", "			b1 = predicates[half]() || Or(predicates[half+1:]...)\n		}()\n		b0 = Or(predicates[:half]...)\n")],
 demo=prog("sync/atomic " + M + "parallel", '''
func main() {
	for n := 0; n < 9; n++ {
		for t := 0; t < n; t++ {
			var calls int64
			var ps []func() bool
			for i := 0; i < n; i++ {
				ps = append(ps, func() bool { atomic.AddInt64(&calls, 1); return i == t })
			}
			if !parallel.Or(ps...) || calls != int64(n) {
				die(calls, "calls of", n)
			}
		}
	}
}
''')),
dict(id="s37-wg-done-early", property="C01",
 needs="the caller to look at the captured panic before the goroutine has stored it",
 breaks="a goroutine of parallel.Reduce says it is done before it has stored the panic it recovered",
 race=True,
 edits=[("parallel/parallel.go", "				p = internal.WrapPanic(recover())\n				wg.Done()\n", "				r := recover()\n				wg.Done()\n				p = internal.WrapPanic(r)\n")],
 demo=prog(M + "parallel", '''
func main() {
	for round := 0; round < 200; round++ {
		for n := 2; n < 6; n++ {
			func() {
				defer func() { recover() }()
				f := func() int { return 1 }
				fs := make([]func() int, n)
				for i := range fs {
					fs[i] = f
				}
				parallel.Reduce(func(x, y int) int { return x + y }, f, fs...)
				bs := make([]func() bool, n)
				ts := make([]func(), n)
				for i := range bs {
					bs[i], ts[i] = func() bool { return true }, func() {}
				}
				parallel.And(bs...)
				parallel.Or(bs...)
				parallel.Do(ts...)
				parallel.ReduceSum(fs...)
				parallel.ReduceProduct(fs...)
				parallel.Range(0, 10, n, func(low, high int) {})
				parallel.RangeAnd(0, 10, n, func(low, high int) bool { return true })
				parallel.RangeOr(0, 10, n, func(low, high int) bool { return true })
				parallel.RangeReduce(0, 10, n, func(low, high int) int { return 1 }, func(x, y int) int { return x + y })
			}()
		}
	}
}
''')),
dict(id="s38-sort-shared-pivot", property="C14",
 needs="another task choosing its pivot between the choice and the use of a pivot position",
 breaks="the position of the pivot is shared between the concurrent tasks of Sort",
 race=True,
 edits=[(QS, "	var pSort func(int, int)\n", "	var m int\n	var pSort func(int, int)\n"), (QS, "m := pseudoMedianOfNine(data, index, size)", "m = pseudoMedianOfNine(data, index, size)")],
 demo=prog("math/rand " + M + "psort", '''
func main() {
	s := make([]int, 0x500*40)
	for i := range s {
		s[i] = rand.Int()
	}
	psort.Sort(psort.IntSlice(s))
}
''')),
dict(id="s39-merge-shortcut", property="C11",
 needs="two runs that are in order already but not neighbours, as parts of a split merge",
 breaks="a merge copies its runs in one piece if they are in order, although they need not lie next to each other",
 edits=[(MS, "	if (n1 + n2) < msortGrainSize {\n		sMerge(T, p1, r1, p2, r2, A, p3)\n		return\n	}\n", "	if (n1 + n2) < msortGrainSize {\n		sMerge(T, p1, r1, p2, r2, A, p3)\n		return\n	} else if n1 > 0 && n2 > 0 && !T.less(p2, r1) {\n		A.assign(p3, p1, n1+n2)\n		return\n	}\n")],
 demo=prog(M + "psort", '''
func main() {
	// the left run has a small, the right run a large lower half
	for split := 1; split < 8; split++ {
		s := make([]int, 0x3000*8)
		q := len(s) / 4
		for i := range s {
			s[i] = i
			if k := i % (2 * q); k >= q*split/8 && k < q {
				s[i] = i + 10*q
			}
		}
		t := make(map[int]int)
		for _, x := range s {
			t[x]++
		}
		psort.StableSort(psort.IntSlice(s))
		for _, x := range s {
			t[x]--
		}
		for x, n := range t {
			if n != 0 {
				die("element", x, "lost or duplicated")
			}
		}
	}
}
''')),
dict(id="s40-strict-late-turn", property="C21",
 needs="a feeder reading the turn counter while the worker advances it",
 breaks="the worker of a StrictOrd node advances the turn counter after it has released the lock",
 race=True,
 edits=[(PL + "strictordnode.go", "					node.run++\n					node.cond.L.Unlock()\n", "					node.cond.L.Unlock()\n					node.run++\n")],
 demo=prog(M + "pipeline", '''
func main() {
	p := pipeline.New[[]int](pipeline.NewSlice(make([]int, 500)))
	p.NofBatches(500)
	p.Add(
		pipeline.Par(pipeline.Receive(func(_ int, data []int) []int { return data })),
		pipeline.StrictOrd(pipeline.Receive(func(_ int, data []int) []int { return data })),
	)
	p.Run()
}
''')),
dict(id="s41-lpar-shared-batch", property="C19",
 needs="a worker receiving a batch between another worker's receipt and use of its batch",
 breaks="the workers of a LimitedPar node share the variable that holds the received batch",
 edits=[(PL + "lparnode.go", "		for range node.limit {\n			go func() {\n", "		var batch dataBatch[T]\n		for range node.limit {\n			go func() {\n				ok := false\n"), (PL + "lparnode.go", "case batch, ok := <-node.channel:", "case batch, ok = <-node.channel:")],
 race=True,
 demo=prog("sync/atomic " + M + "pipeline", '''
func main() {
	p := pipeline.New[[]int](pipeline.NewSlice(make([]int, 2000)))
	p.NofBatches(2000)
	var seen [2000]int64
	p.Add(pipeline.LimitedPar(pipeline.Receive(func(no int, data []int) []int {
		atomic.AddInt64(&seen[no], 1)
		return data
	})))
	p.Run()
	for no, n := range seen {
		if n != 1 {
			die("batch", no, "was processed", n, "times")
		}
	}
}
''')),
dict(id="s42-spec-middle", property="C09",
 needs="an odd number of predicates, none of which decides",
 breaks="speculative.Or leaves a predicate out when the list cannot be halved evenly",
 edits=[(SPEC, "			b1 = Or(predicates[half:]...)\n", "			b1 = Or(predicates[half+len(predicates)%2:]...)\n")],
 demo=prog("sync/atomic " + M + "speculative", '''
func main() {
	for n := 0; n < 12; n++ {
		var calls int64
		var ps []func() bool
		for i := 0; i < n; i++ {
			ps = append(ps, func() bool { atomic.AddInt64(&calls, 1); return false })
		}
		speculative.Or(ps...)
		if calls != int64(n) {
			die(calls, "calls of", n)
		}
	}
}
''')),
dict(id="s43-skip-boundary", property="C28",
 needs="a batch that ends exactly where Skip stops skipping",
 breaks="",
 edits=[], demo=""),
]
SEEDS = [s for s in SEEDS if s["demo"]]
