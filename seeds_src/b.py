MS, QS, SO = "psort/mergesort.go", "psort/quicksort.go", "psort/sort.go"
PL = "pipeline/"
SPEC = "speculative/speculative.go"
HEAD = '''
package main

import (
	"fmt"
	"os"
%s
)

func die(a ...any) { fmt.Println(a...); os.Exit(1) }
'''
def prog(imports, body):
    return HEAD % "\n".join('\t"%s"' % i for i in imports.split()) + body
M = "github.com/intel/forGoParallel/"
SEEDS = [
dict(id="s05-merge-ties", property="C12",
 needs="runs of at least the grain size with many equal keys, whose payload shows their order",
 breaks="the parallel merge of StableSort splits the left run before elements equal to the pivot of the right run, so equal elements change places",
 edits=[(MS, "if T.less(x, mid) {", "if !T.less(mid, x) {")],
 demo=prog("sort math/rand " + M + "psort", '''
type rec struct{ key, no int }
type recs []rec

func (s recs) SequentialSort(i, j int) {
	sort.SliceStable(s[i:j], func(a, b int) bool { return s[i+a].key < s[i+b].key })
}
func (s recs) NewTemp() psort.StableSorter { return make(recs, len(s)) }
func (s recs) Len() int                     { return len(s) }
func (s recs) Less(i, j int) bool           { return s[i].key < s[j].key }
func (s recs) Assign(src psort.StableSorter) func(i, j, n int) {
	t := src.(recs)
	return func(i, j, n int) { copy(s[i:i+n], t[j:j+n]) }
}

func main() {
	s := make(recs, 0x3000*8)
	for i := range s {
		s[i] = rec{rand.Intn(5), i}
	}
	psort.StableSort(s)
	for i := 1; i < len(s); i++ {
		if s[i].key < s[i-1].key || s[i].key == s[i-1].key && s[i].no < s[i-1].no {
			die("not stable at", i, s[i-1], s[i])
		}
	}
}
''')),
dict(id="s06-partition-strict", property="C13",
 needs="a range whose pivot is a repeated minimum",
 breaks="the downward scan of quicksort passes elements equal to the pivot and leaves its range",
 edits=[(QS, "if !data.Less(index, j) {", "if data.Less(j, index) {")],
 demo=prog(M + "psort", '''
func main() {
	s := make([]int, 3000)
	for i := range s {
		s[i] = 7
	}
	s[1000] = 9
	defer func() {
		if p := recover(); p != nil {
			die("panic")
		}
	}()
	psort.Sort(psort.IntSlice(s))
	if !psort.IntsAreSorted(s) || s[2999] != 9 {
		die("not sorted")
	}
}
''')),
dict(id="s07-issorted-seam", property="C15",
 needs="a slice whose only inversion is at the seam between the serial prefix and the parallel part",
 breaks="IsSorted does not test one pair next to the serial prefix",
 edits=[(SO, "for i := range serialCutoff - 1 {", "for i := range serialCutoff - 2 {")],
 demo=prog(M + "psort", '''
func main() {
	for at := 1; at < 40; at++ {
		s := make([]int, 5000)
		for i := at; i < len(s); i++ {
			s[i] = -1
		}
		if psort.IntsAreSorted(s) {
			die("inversion at", at, "overlooked")
		}
	}
}
''')),
dict(id="s08-sort-shared-bounds", property="C14",
 needs="two tasks of the parallel sort that recurse at the same time",
 breaks="the bounds of the quarters are shared by all concurrent tasks of StableSort",
 edits=[(MS, "	var pSort func(int, int)\n", "	var pSort func(int, int)\n	var q1, q2, q3 int\n"), (MS, "q1 := size / 4\n			q2 := q1 + q1\n			q3 := q2 + q1\n			parallel", "q1 = size / 4\n			q2 = q1 + q1\n			q3 = q2 + q1\n			q1, q2, q3 := q1, q2, q3\n			parallel")],
 demo=None),
dict(id="s09-float-unstable", property="C16",
 needs="a slice with both zeros, sorted stably",
 breaks="sorting a range of floats sequentially does not keep equal elements (-0 and +0) in place",
 edits=[(SO, "sort.Stable(sort.Float64Slice(s[i:j]))", "sort.Sort(sort.Float64Slice(s[i:j]))")],
 demo=prog("math " + M + "psort", '''
func main() {
	var s []float64
	for i := 0; i < 200; i++ {
		if i*7%3 == 0 {
			s = append(s, math.Copysign(0, -1))
		} else if i%5 == 0 {
			s = append(s, 1)
		} else {
			s = append(s, 0)
		}
	}
	var want []bool
	for _, x := range s {
		if x == 0 {
			want = append(want, math.Signbit(x))
		}
	}
	psort.StableSort(psort.Float64Slice(s))
	for i, w := range want {
		if math.Signbit(s[i]) != w {
			die("zeros changed places at", i)
		}
	}
}
''')),
dict(id="s10-map-delete-load", property="C17",
 needs="LoadAndDelete of a key, followed by another Load of it",
 breaks="LoadAndDelete leaves the entry in the map",
 edits=[("gsync/sync.go", "v, loaded := (*sync.Map)(m).LoadAndDelete(key)", "v, loaded := (*sync.Map)(m).Load(key)")],
 demo=prog(M + "gsync", '''
func main() {
	var m gsync.Map[string, int]
	m.Store("a", 1)
	if v, ok := m.LoadAndDelete("a"); v != 1 || !ok {
		die(v, ok)
	}
	if _, ok := m.Load("a"); ok {
		die("still there")
	}
}
''')),
dict(id="s11-pool-lost-race", property="C18",
 needs="two goroutines that use a pool for the first time at the same time",
 breaks="the loser of the initialisation race works with a pool of its own",
 edits=[("gsync/sync.go", "	return p.syncPool.Load()\n", "	return result\n")],
 demo=prog("sync sync/atomic runtime " + M + "gsync", '''
func main() {
	runtime.GOMAXPROCS(8)
	// every value put is put by a goroutine that may have lost the race; a
	// value that can never be got back although nobody else takes it is lost.
	// A GC would drop pooled values, so the pools are small and short-lived.
	for round := 0; round < 20000; round++ {
		p := &gsync.Pool[int]{}
		const n = 4
		var wg sync.WaitGroup
		var start int32
		for i := 0; i < n; i++ {
			x := new(int)
			wg.Add(1)
			go func() {
				defer wg.Done()
				runtime.LockOSThread()
				for atomic.LoadInt32(&start) == 0 {
				}
				p.Put(x)
			}()
		}
		if round == 0 {
			_ = p
		}
		atomic.StoreInt32(&start, 1)
		wg.Wait()
		got := 0
		for p.Get() != nil {
			got++
		}
		if got != n {
			lost++
		}
	}
	if lost > 200 {
		die(lost, "rounds lost values")
	}
}

var lost int
''')),
dict(id="s12-multichan-reuse", property="C26",
 needs="a batch that is still in use when the next one is fetched",
 breaks="MultiChan reuses the memory of the previous batch",
 edits=[(PL + "source.go", "	src.data = nil\n	for fetched < n {", "	src.data = src.data[:0]\n	for fetched < n {")],
 demo=prog("context " + M + "pipeline", '''
func main() {
	c := make(chan int, 10)
	for i := 0; i < 10; i++ {
		c <- i
	}
	close(c)
	src := pipeline.NewMultiChan[int](c)
	src.Prepare(context.Background())
	var all [][]int
	for src.Fetch(3) > 0 {
		all = append(all, src.Data())
	}
	k := 0
	for _, b := range all {
		for _, x := range b {
			if x != k {
				die("element", k, "is", x)
			}
			k++
		}
	}
	if k != 10 {
		die(k)
	}
}
''')),
dict(id="s13-limit-unknown-size", property="C28",
 needs="a source of unknown size with fewer elements than the limit, and a filter that relies on the expected size",
 breaks="Limit claims that the limit is the expected size of a source of unknown size",
 edits=[(PL + "filters.go", "			if *size > 0 {\n				*size = limit\n			}\n", "			*size = limit\n")],
 demo=prog("strings " + M + "pipeline", '''
func main() {
	p := pipeline.New[[]string](pipeline.NewScanner(strings.NewReader("a\\nb\\nc\\n")))
	var n int
	p.Add(pipeline.Limit[string](10, false), pipeline.Seq(pipeline.Count[string](&n)))
	p.Run()
	if n != 3 {
		die(n, "elements counted")
	}
}
''')),
dict(id="s14-some-counts", property="C29",
 needs="a parallel node in which two or more batches satisfy the predicate",
 breaks="Some reports false when more than one batch satisfies its predicate",
 edits=[(PL + "filters.go", "				if predicate(data) {\n					atomic.StoreInt32(&res, 1)", "				if predicate(data) {\n					atomic.AddInt32(&res, 1)")],
 demo=prog(M + "pipeline", '''
func main() {
	p := pipeline.New[[]int](pipeline.NewSlice(make([]int, 100)))
	p.NofBatches(5)
	var b bool
	p.Add(pipeline.Par(pipeline.Some(&b, false, func(data []int) bool { return len(data) > 0 })))
	p.Run()
	if !b {
		die("no batch satisfied the predicate")
	}
}
''')),
dict(id="s15-stash-stops", property="C20",
 needs="batches that arrive in reverse order at an ordered node",
 breaks="an ordered node processes only one held-back batch when its turn comes, and fails on the next one",
 edits=[(PL + "seqnode.go", "									delete(stash, run)\n", "									delete(stash, run)\n									if len(stash) == 1 {\n										clear(stash)\n									}\n")],
 demo=prog("time " + M + "pipeline", '''
func main() {
	p := pipeline.New[[]int](pipeline.NewSlice(make([]int, 8)))
	p.NofBatches(8)
	var seen []int
	p.Add(
		pipeline.Par(pipeline.Receive(func(no int, data []int) []int {
			time.Sleep(time.Duration(8-no) * 30 * time.Millisecond)
			return data
		})),
		pipeline.Ord(pipeline.Receive(func(no int, data []int) []int {
			seen = append(seen, no)
			return data
		})),
	)
	p.Run()
	if len(seen) != 8 {
		die("only", len(seen), "batches processed")
	}
	for i, no := range seen {
		if i != no {
			die("order", seen)
		}
	}
}
''')),
dict(id="s16-signal-one", property="C24",
 needs="two feeders that wait for their turn at the same time, the wrong one being woken up",
 breaks="only one of the feeders waiting for their turn is woken up when the turn advances",
 edits=[(PL + "strictordnode.go", "					node.cond.L.Unlock()\n					node.cond.Broadcast()", "					node.cond.L.Unlock()\n					node.cond.Signal()")],
 demo=prog("time " + M + "pipeline", '''
func main() {
	p := pipeline.New[[]int](pipeline.NewSlice(make([]int, 8)))
	p.NofBatches(8)
	var seen []int
	p.Add(
		pipeline.Par(pipeline.Receive(func(no int, data []int) []int {
			time.Sleep(time.Duration(8-no) * 30 * time.Millisecond)
			return data
		})),
		pipeline.StrictOrd(pipeline.Receive(func(no int, data []int) []int {
			seen = append(seen, no)
			return data
		})),
	)
	done := make(chan bool)
	go func() { p.Run(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		die("blocked after", len(seen), "batches")
	}
	for i, no := range seen {
		if i != no {
			die("order", seen)
		}
	}
}
''')),
dict(id="s17-par-add-late", property="C22",
 needs="the pipeline to end before the goroutine of the last batch is scheduled",
 breaks="the worker of a parallel node is registered only once it runs, so ending the node may miss it",
 edits=[(PL + "parnode.go", "	node.waitGroup.Add(1)\n	go func() {\n", "	go func() {\n		node.waitGroup.Add(1)\n")],
 demo=prog("runtime sync/atomic " + M + "pipeline", '''
func main() {
	runtime.GOMAXPROCS(1)
	for round := 0; round < 300; round++ {
		p := pipeline.New[[]int](pipeline.NewSlice(make([]int, 64)))
		p.NofBatches(64)
		var n, at int64 = 0, -1
		p.Add(pipeline.Par(pipeline.ReceiveAndFinalize(
			func(no int, data []int) []int { atomic.AddInt64(&n, 1); return data },
			func() { at = atomic.LoadInt64(&n) },
		)))
		p.Run()
		if at != 64 {
			die("finalizer saw", at, "of 64 batches")
		}
	}
}
''')),
dict(id="s18-chan-ignores-cancel", property="C23",
 needs="cancelling a pipeline whose channel source is idle",
 breaks="a channel source waits for the next element even when the pipeline is cancelled",
 edits=[(PL + "source.go", "	select {\n	case element, ok := <-src.channel:\n		if ok {\n			src.data = element\n			return 1\n		}\n	case <-src.ctx.Done():\n	}\n", "	if src.ctx.Err() == nil {\n		if element, ok := <-src.channel; ok {\n			src.data = element\n			return 1\n		}\n	}\n")],
 demo=prog("context time " + M + "pipeline", '''
func main() {
	c := make(chan int)
	p := pipeline.New[int](pipeline.NewChan[int](c))
	p.Add(pipeline.Seq(pipeline.Receive(func(_ int, data int) int { return data })))
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan bool)
	go func() { p.RunWithContext(ctx, cancel); close(done) }()
	c <- 1
	time.Sleep(50 * time.Millisecond)
	cancel()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		die("still running")
	}
}
''')),
dict(id="s19-batch-round-down", property="C27",
 needs="a number of elements that is not a multiple of the number of batches",
 breaks="the batch size is rounded down, so there are more batches than asked for",
 edits=[(PL + "pipeline.go", "((dataSize - 1) / p.NofBatches(0)) + 1", "dataSize / p.NofBatches(0)")],
 demo=prog(M + "pipeline", '''
func main() {
	p := pipeline.New[[]int](pipeline.NewSlice(make([]int, 11)))
	p.NofBatches(4)
	n := 0
	p.Add(pipeline.Seq(pipeline.Receive(func(_ int, data []int) []int { n++; return data })))
	p.Run()
	if n > 4 {
		die(n, "batches")
	}
}
''')),
dict(id="s20-merge-keeps-seq", property="C31",
 needs="an Ord node directly behind a Seq node, and batches that arrive out of order",
 breaks="merging an Ord node into a Seq node loses the order",
 edits=[(PL + "seqnode.go", "		if nxt.kind == Ordered {\n			node.kind = Ordered\n		}\n", "		if node.kind == Ordered {\n			nxt.kind = Ordered\n		}\n")],
 demo=prog("time " + M + "pipeline", '''
func main() {
	p := pipeline.New[[]int](pipeline.NewSlice(make([]int, 8)))
	p.NofBatches(8)
	var seen []int
	p.Add(
		pipeline.Par(pipeline.Receive(func(no int, data []int) []int {
			time.Sleep(time.Duration(8-no) * 30 * time.Millisecond)
			return data
		})),
		pipeline.Seq(pipeline.Receive(func(no int, data []int) []int { return data })),
		pipeline.Ord(pipeline.Receive(func(no int, data []int) []int {
			seen = append(seen, no)
			return data
		})),
	)
	p.Run()
	for i, no := range seen {
		if i != no {
			die("order", seen)
		}
	}
}
''')),
dict(id="s21-transform-strictord", property="C24",
 needs="a strictly ordered node inside a transformed pipeline, behind an unordered node that mixes the order",
 breaks="nodes in front of the strictly ordered node of a transformed pipeline are not made ordered",
 edits=[(PL + "transformnode.go", "			for index = index - 1; index >= 0; index-- {\n				switch node", "			for index = index - 2; index >= 0; index-- {\n				switch node")],
 demo=prog("time " + M + "pipeline", '''
func main() {
	for round := 0; round < 3; round++ {
		p := pipeline.New[[]int](pipeline.NewSlice(make([]int, 16)))
		p.NofBatches(16)
		p.Add(pipeline.Par(pipeline.Receive(func(no int, data []int) []int {
			time.Sleep(time.Duration(16-no) * 10 * time.Millisecond)
			return data
		})))
		q := pipeline.Transform(p, func(_ int, data []int) int { return len(data) })
		var seen []int
		q.Add(
			pipeline.Seq(pipeline.Receive(func(no int, data int) int { return data })),
			pipeline.LimitedPar(pipeline.Receive(func(no int, data int) int { return data })),
			pipeline.StrictOrd(pipeline.Receive(func(no int, data int) int {
				seen = append(seen, no)
				return data
			})),
		)
		done := make(chan bool)
		go func() { p.Run(); close(done) }()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			die("blocked after", len(seen), "batches")
		}
	}
}
''')),
dict(id="s22-spec-reduce-right-first", property="C07",
 needs="both halves signal to stop and the right one finishes first",
 breaks="speculative.Reduce prefers a stop signal of the right half over the one of the left half",
 edits=[(SPEC, "		left, b0 = Reduce(join, firstFunction, moreFunctions[:half]...)\n	}\n	if b0 {\n		return left, true\n	}\n	wg.Wait()\n", "		left, b0 = Reduce(join, firstFunction, moreFunctions[:half]...)\n	}\n	if b0 && len(moreFunctions) < 3 {\n		return left, true\n	}\n	wg.Wait()\n")],
 demo=prog(M + "speculative", '''
func main() {
	f := func(x int, stop bool) func() (int, bool) { return func() (int, bool) { return x, stop } }
	join := func(x, y int) (int, bool) { return x + y, false }
	if x, _ := speculative.Reduce(join, f(1, false), f(2, true), f(3, false), f(4, true)); x != 2 {
		die(x)
	}
}
''')),
dict(id="s23-spec-and-waits", property="C08",
 needs="a decisive left half while the right half is still running",
 breaks="speculative.RangeAnd waits for the right half before it looks at the result of the left one",
 edits=[(SPEC, "			if !recur(low, mid, half) {\n				return false\n			}\n			wg.Wait()\n", "			if !recur(low, mid, half) {\n				b1 = false\n			}\n			wg.Wait()\n")],
 demo=prog("time " + M + "speculative", '''
func main() {
	stop := make(chan bool)
	res := make(chan bool)
	go func() {
		res <- speculative.RangeAnd(0, 4, 2, func(low, high int) bool {
			if low == 0 {
				return false
			}
			<-stop
			return true
		})
	}()
	select {
	case r := <-res:
		if r {
			die("wrong result")
		}
	case <-time.After(2 * time.Second):
		die("waits")
	}
	close(stop)
}
''')),
dict(id="s24-append-no-lock", property="C30",
 needs="two batches that a parallel node appends at the same time",
 breaks="Append unlocks its mutex before it appends",
 edits=[(PL + "filters.go", "					m.Lock()\n					defer m.Unlock()\n					*result = append(*result, data...)\n", "					m.Lock()\n					all := *result\n					m.Unlock()\n					all = append(all, data...)\n					m.Lock()\n					*result = all\n					m.Unlock()\n")],
 demo=prog("runtime " + M + "pipeline", '''
func main() {
	runtime.GOMAXPROCS(8)
	for round := 0; round < 200; round++ {
		p := pipeline.New[[]int](pipeline.NewSlice(make([]int, 100000)))
		p.NofBatches(200)
		var all []int
		p.Add(pipeline.Par(pipeline.Append(&all)))
		p.Run()
		if len(all) != 100000 {
			die(len(all), "elements")
		}
	}
}
''')),
dict(id="s25-prefix-short-step", property="C10",
 needs="a slice length just above a power of two",
 breaks="PrefixSum does one step too few for lengths that are not powers of two",
 edits=[("parallel/parallel.go", "math.Ceil(math.Log2(float64(len(slice))))", "math.Round(math.Log2(float64(len(slice))))")],
 demo=prog(M + "parallel", '''
func main() {
	for n := 1; n < 70; n++ {
		s := make([]int, n)
		for i := range s {
			s[i] = 1
		}
		for i, x := range parallel.PrefixSum(s) {
			if x != i+1 {
				die(n, i, x)
			}
		}
	}
}
''')),
dict(id="s26-lpar-extra", property="C33",
 needs="more batches than processors, all being processed at the same time",
 breaks="a LimitedPar node processes batches in the feeding goroutine as well when its workers are busy",
 edits=[(PL + "lparnode.go", "	select {\n	case <-p.ctx.Done():\n		return\n	case node.channel <- dataBatch[T]{index, seqNo, data}:\n		return\n	}\n}\n", "	select {\n	case <-p.ctx.Done():\n		return\n	case node.channel <- dataBatch[T]{index, seqNo, data}:\n		return\n	default:\n		feed(p, node.receivers, index, seqNo, data)\n	}\n}\n")],
 demo=prog("runtime sync/atomic time " + M + "pipeline", '''
func main() {
	n := runtime.NumCPU()
	p := pipeline.New[[]int](pipeline.NewSlice(make([]int, 4*n)))
	p.NofBatches(4 * n)
	var now, max int64
	p.Add(pipeline.LimitedPar(pipeline.Receive(func(_ int, data []int) []int {
		x := atomic.AddInt64(&now, 1)
		for {
			m := atomic.LoadInt64(&max)
			if x <= m || atomic.CompareAndSwapInt64(&max, m, x) {
				break
			}
		}
		time.Sleep(50 * time.Millisecond)
		atomic.AddInt64(&now, -1)
		return data
	})))
	p.Run()
	if max > int64(n) {
		die(max, "batches at a time")
	}
}
''')),
dict(id="s27-range-negative", property="C06",
 needs="a range with a single element and a negative number of batches",
 breaks="a negative number of batches is accepted when the range has a single element",
 edits=[("internal/internal.go", "	case size > 0:\n		switch {\n		case n == 0:", "	case size > 0:\n		switch {\n		case size == 1:\n			batches = 1\n		case n == 0:")],
 demo=prog(M + "parallel", '''
func main() {
	called := false
	defer func() {
		if recover() == nil || called {
			die("no panic")
		}
	}()
	parallel.Range(3, 4, -1, func(low, high int) { called = true })
}
''')),
]
SEEDS = [s for s in SEEDS if s["demo"]]
