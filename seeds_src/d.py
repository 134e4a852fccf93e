import os, importlib.util
_s = importlib.util.spec_from_file_location("b", os.path.join(os.path.dirname(__file__), "b.py")); _b = importlib.util.module_from_spec(_s); _s.loader.exec_module(_b)
MS, QS, SO, PL, SPEC, M, prog = _b.MS, _b.QS, _b.SO, _b.PL, _b.SPEC, _b.M, _b.prog
PAR = "parallel/parallel.go"
SEEDS = [
dict(id="s44-run-keeps-context", property="C37",
 needs="a run that ends without an error, and somebody who waits for the end of its context",
 breaks="Run cancels its context only when the pipeline has failed",
 edits=[(PL + "pipeline.go", "	defer cancel()\n	p.RunWithContext(ctx, cancel)\n", "	p.RunWithContext(ctx, cancel)\n	if p.Err() != nil {\n		cancel()\n	}\n")],
 demo=prog("context time " + M + "pipeline", '''
type src struct {
	*pipeline.Slice[int]
	ctx context.Context
}

func (s *src) Prepare(ctx context.Context) int { s.ctx = ctx; return s.Slice.Prepare(ctx) }

func main() {
	s := &src{Slice: pipeline.NewSlice([]int{1, 2, 3})}
	p := pipeline.New[[]int](s)
	p.Add(pipeline.Par(pipeline.Receive(func(_ int, data []int) []int { return data })))
	p.Run()
	select {
	case <-s.ctx.Done():
	case <-time.After(5 * time.Second):
		die("the context of the run is still alive")
	}
}
''')),
dict(id="s45-notifier-joined", property="C37",
 needs="a notifier that waits for something that happens during the run",
 breaks="the notifiers are joined before the run goes on",
 edits=[(PL + "pipeline.go", "		go notifier()\n", "		done := make(chan struct{})\n		go func() {\n			defer close(done)\n			notifier()\n		}()\n		<-done\n")],
 demo=prog("time " + M + "pipeline", '''
func main() {
	go func() { time.Sleep(20 * time.Second); die("the run and its notifier wait for each other") }()
	started := make(chan bool)
	p := pipeline.New[[]int](pipeline.NewSlice([]int{1, 2, 3}))
	p.NofBatches(1)
	p.Notify(func() { <-started })
	p.Add(pipeline.Seq(pipeline.Receive(func(_ int, data []int) []int { started <- true; return data })))
	p.Run()
}
''')),
dict(id="s46-lpar-spin", property="C38",
 needs="a batch that reaches an ordered LimitedPar node before its turn",
 breaks="a feeder whose turn has not come spins while it holds the lock which its predecessor needs",
 edits=[(PL + "lparnode.go", "			default:\n				node.cond.Wait()\n", "			default:\n				if node.run > seqNo {\n					node.cond.Wait()\n				}\n")],
 demo=prog("runtime time " + M + "pipeline", '''
func main() {
	go func() { time.Sleep(20 * time.Second); die("the run does not end") }()
	n := runtime.NumCPU() * 4
	p := pipeline.New[[]int](pipeline.NewSlice(make([]int, n)))
	p.NofBatches(n)
	p.Add(
		pipeline.Par(pipeline.Receive(func(no int, data []int) []int {
			time.Sleep(time.Duration(n-no) * time.Millisecond)
			return data
		})),
		pipeline.LimitedPar(pipeline.Receive(func(_ int, data []int) []int { return data })),
		pipeline.StrictOrd(pipeline.Receive(func(_ int, data []int) []int { return data })),
	)
	p.Run()
}
''')),
dict(id="s47-nof-batches-negative", property="C36",
 needs="NofBatches called with a negative number",
 breaks="a negative number of batches is stored, the batch size gets negative and the source slices out of range",
 edits=[(PL + "pipeline.go", "	if n < 1 {\n		nofBatches = p.nofBatches\n		if nofBatches < 1 {", "	if n == 0 {\n		nofBatches = p.nofBatches\n		if nofBatches == 0 {")],
 demo=prog(M + "pipeline", '''
func main() {
	s := make([]int, 1000)
	p := pipeline.New[[]int](pipeline.NewSlice(s))
	p.NofBatches(-3)
	n := 0
	p.Add(pipeline.Seq(pipeline.Receive(func(_ int, data []int) []int { n += len(data); return data })))
	p.Run()
	if n != len(s) {
		die(n, "elements seen")
	}
}
''')),
dict(id="s49-range-pair", property="C39",
 needs="a part of a range with two elements whose calls wait for each other",
 breaks="parts of at most two elements are run as one batch although two batches were asked for",
 edits=[(PAR, "			half := n / 2\n", "			half := n / 2\n			if high-low <= 2 {\n				f(low, high)\n				return\n			}\n")],
 demo=prog("time " + M + "parallel", '''
func main() {
	for n := 2; n < 20; n++ {
		t := time.AfterFunc(20*time.Second, func() { die("the parts of a range of", n, "elements do not run concurrently") })
		c := make(chan bool)
		parallel.Range(0, n, n, func(low, high int) {
			for i := low; i < high; i++ {
				if i == 0 {
					for j := 1; j < n; j++ {
						<-c
					}
				} else {
					c <- true
				}
			}
		})
		t.Stop()
	}
}
''')),
dict(id="s50-spec-or-lazy", property="C39",
 needs="three or more predicates of which a left one waits for a right one",
 breaks="speculative.Or starts the right half of more than two predicates only after the left half is done",
 edits=[(SPEC, "			b1 = Or(predicates[half:]...)\n		}()\n		b0 = Or(predicates[:half]...)\n", "			b1 = Or(predicates[half:]...)\n		}()\n"), (SPEC, "		half := len(predicates) / 2\n", "		half := len(predicates) / 2\n		if b0 = Or(predicates[:half]...); b0 {\n			return true\n		}\n", 1)],
 demo=prog("time " + M + "speculative", '''
func main() {
	for n := 2; n < 9; n++ {
		t := time.AfterFunc(20*time.Second, func() { die("the predicates do not run concurrently") })
		c := make(chan bool)
		var ps []func() bool
		for i := 0; i < n; i++ {
			ps = append(ps, func() bool {
				switch i {
				case 0:
					<-c
				case n - 1:
					c <- true
				}
				return false
			})
		}
		speculative.Or(ps...)
		t.Stop()
	}
}
''')),
dict(id="s51-prefix-order", property="C10",
 needs="an addition that does not commute, that is, strings",
 breaks="PrefixSum adds the right operand before the left one",
 edits=[(PAR, "result[j] = slice[j-l] + slice[j]", "result[j] = slice[j] + slice[j-l]")],
 demo=prog(M + "parallel", '''
func main() {
	for n := 0; n < 26; n++ {
		s := make([]string, n)
		for i := range s {
			s[i] = string(rune('a' + i))
		}
		for i, x := range parallel.PrefixSum(s) {
			if x != "abcdefghijklmnopqrstuvwxyz"[:i+1] {
				die("length", n, "position", i, "has", x)
			}
		}
	}
}
''')),
dict(id="s52-quick-tiny-part", property="C13",
 needs="a partition with no more than eight elements right of the pivot",
 breaks="right parts of a few elements are not sorted",
 edits=[(QS, "				func() { pSort(i, index+size-i) },\n", "				func() {\n					if n := index + size - i; n > 8 {\n						pSort(i, n)\n					}\n				},\n")],
 demo=prog("math/rand " + M + "psort", '''
func main() {
	const n = 0x500
	for k := 0; k < 200; k++ {
		s := rand.Perm(n - 9)
		s = append(s, s[:9]...)
		big := rand.Perm(9)
		for i, at := range []int{0, 1, 2, 3, 4, 5, 6, 7} {
			s[at*(n/8)] = n + big[i]
		}
		s[n-1] = n + big[8]
		psort.Sort(psort.IntSlice(s))
		for i := 1; i < n; i++ {
			if s[i] < s[i-1] {
				die("position", i, "has", s[i], "after", s[i-1])
			}
		}
	}
}
''')),
dict(id="s53-pool-early-new", property="C18",
 needs="a pool whose New function is set or replaced after its first use",
 breaks="the pool keeps the New function that was set when it was first used",
 edits=[(GS := "gsync/sync.go", "	result := &sync.Pool{\n", "	create := p.New\n	result := &sync.Pool{\n"), (GS, "			return p.New()\n", "			if create != nil {\n				return create()\n			}\n			return (*T)(nil)\n")],
 demo=prog("sync/atomic " + M + "gsync", '''
func main() {
	var p gsync.Pool[int]
	x := 1
	p.Put(&x)
	p.Get()
	var calls int64
	p.New = func() *int { atomic.AddInt64(&calls, 1); return new(int) }
	for i := 0; i < 10; i++ {
		if p.Get() == nil {
			die("got nil although New is set")
		}
	}
}
''')),
dict(id="s54-sorted-gap", property="C34",
 needs="data that is sorted except for one pair right behind the elements that are checked serially",
 breaks="IsSorted does not compare the pair between its serial and its parallel part, so Sort leaves such data as it is",
 edits=[(SO, "	return pTest(serialCutoff, size-serialCutoff)\n", "	return pTest(serialCutoff+1, size-serialCutoff-1)\n")],
 demo=prog(M + "psort", '''
func main() {
	for at := 1; at < 3000; at++ {
		s := make([]int, 4000)
		for i := range s {
			s[i] = i / at
		}
		psort.Sort(psort.IntSlice(s))
		for i := range s {
			if s[i] != i/at {
				die("at", at)
			}
		}
		t := make([]int, 4000)
		for i := range t {
			t[i] = 1
		}
		for i := range at {
			t[i] = 2
		}
		psort.Sort(psort.IntSlice(t))
		for i := 1; i < len(t); i++ {
			if t[i] < t[i-1] {
				die("not sorted", at)
			}
		}
	}
}
''')),
]
