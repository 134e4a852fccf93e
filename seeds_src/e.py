import os, importlib.util
_s = importlib.util.spec_from_file_location("b", os.path.join(os.path.dirname(__file__), "b.py")); _b = importlib.util.module_from_spec(_s); _s.loader.exec_module(_b)
MS, QS, SO, PL, SPEC, M, prog = _b.MS, _b.QS, _b.SO, _b.PL, _b.SPEC, _b.M, _b.prog
SEEDS = [
dict(id="s55-par-bounded", property="C40",
 needs="receivers of a parallel node which wait for the receiver of a batch that is fed later than the number of processors allows",
 breaks="Feed of a parallel node waits until fewer than NumCPU batches are being processed",
 edits=[(PL + "parnode.go", "	\"sync\"\n", "	\"runtime\"\n	\"sync\"\n	\"sync/atomic\"\n"),
        (PL + "parnode.go", "	waitGroup  sync.WaitGroup\n", "	waitGroup  sync.WaitGroup\n	active     atomic.Int64\n"),
        (PL + "parnode.go", "	node.waitGroup.Add(1)\n	go func() {\n		defer node.waitGroup.Done()\n", "	node.waitGroup.Add(1)\n	for node.active.Load() >= int64(runtime.NumCPU()) {\n		runtime.Gosched()\n	}\n	node.active.Add(1)\n	go func() {\n		defer node.waitGroup.Done()\n		defer node.active.Add(-1)\n")],
 demo=prog("runtime sync time " + M + "pipeline", '''
func main() {
	go func() { time.Sleep(20 * time.Second); die("the receivers do not meet") }()
	n := 4*runtime.NumCPU() + 1
	var wg sync.WaitGroup
	wg.Add(n)
	p := pipeline.New[[]int](pipeline.NewSlice(make([]int, n)))
	p.NofBatches(n)
	p.Add(pipeline.Par(pipeline.Receive(func(_ int, data []int) []int {
		wg.Done()
		wg.Wait()
		return data
	})))
	p.Run()
}
''')),
dict(id="s56-lpar-hold", property="C40",
 needs="receivers of an ordered LimitedPar node that wait for each other",
 breaks="an ordered LimitedPar node keeps its lock while it processes a batch, so there is one batch at a time",
 edits=[(PL + "lparnode.go", "							node.run++\n							node.cond.L.Unlock()\n							node.cond.Broadcast()\n						}\n						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)\n",
  "							node.run++\n							node.cond.Broadcast()\n						}\n						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)\n						if node.ordered {\n							node.cond.L.Unlock()\n						}\n")],
 demo=prog("runtime sync time " + M + "pipeline", '''
func main() {
	go func() { time.Sleep(20 * time.Second); die("the receivers do not meet") }()
	var wg sync.WaitGroup
	wg.Add(2)
	p := pipeline.New[[]int](pipeline.NewSlice([]int{1, 2}))
	p.NofBatches(2)
	p.Add(
		pipeline.LimitedPar(pipeline.Receive(func(_ int, data []int) []int {
			wg.Done()
			wg.Wait()
			return data
		})),
		pipeline.StrictOrd(pipeline.Receive(func(_ int, data []int) []int { return data })),
	)
	if runtime.NumCPU() > 1 {
		p.Run()
	}
}
''')),
dict(id="s57-seterr-cancel-locked", property="C41",
 needs="a cancel function, passed to RunWithContext, that asks the pipeline why it is cancelled",
 breaks="SetErr calls the cancel function while it holds the lock of the error, so such a cancel function waits for ever",
 edits=[(PL + "pipeline.go", "	p.mutex.Lock()\n	if p.err == nil {\n		p.err = err\n		p.mutex.Unlock()\n		if p.cancel", "	p.mutex.Lock()\n	defer p.mutex.Unlock()\n	if p.err == nil {\n		p.err = err\n		if p.cancel"),
        (PL + "pipeline.go", "		return true\n	}\n	p.mutex.Unlock()\n	return false\n", "		return true\n	}\n	return false\n")],
 demo=prog("context errors time " + M + "pipeline", '''
func main() {
	go func() { time.Sleep(20 * time.Second); die("SetErr does not return") }()
	p := pipeline.New[[]int](pipeline.NewSlice([]int{1, 2, 3}))
	p.Add(pipeline.Seq(pipeline.Receive(func(_ int, data []int) []int {
		p.SetErr(errors.New("stop"))
		return data
	})))
	ctx, cancel := context.WithCancel(context.Background())
	var why error
	p.RunWithContext(ctx, func() {
		why = p.Err()
		cancel()
	})
	if why == nil || why.Error() != "stop" {
		die("cancelled because of", why)
	}
}
''')),
]
