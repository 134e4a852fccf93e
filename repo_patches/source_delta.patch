From bd4b177768fc99429a1ed52dec494dbc752fc0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 01/20] fix: gsync.Map must not panic on nil keys and values of
 interface types

---
 gsync/sync.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/gsync/sync.go b/gsync/sync.go
index 34c6ad3..d41103b 100755
--- a/gsync/sync.go
+++ b/gsync/sync.go
@@ -23,27 +23,31 @@ func (m *Map[K, V]) Delete(key K) {
 func (m *Map[K, V]) Load(key K) (value V, ok bool) {
 	v, ok := (*sync.Map)(m).Load(key)
 	if ok {
-		return v.(V), true
+		value, _ = v.(V)
 	}
-	return
+	return value, ok
 }
 
 func (m *Map[K, V]) LoadAndDelete(key K) (value V, loaded bool) {
 	v, loaded := (*sync.Map)(m).LoadAndDelete(key)
 	if loaded {
-		return v.(V), true
+		value, _ = v.(V)
 	}
-	return
+	return value, loaded
 }
 
 func (m *Map[K, V]) LoadOrStore(key K, value V) (actual V, loaded bool) {
 	v, loaded := (*sync.Map)(m).LoadOrStore(key, value)
-	return v.(V), loaded
+	actual, _ = v.(V)
+	return actual, loaded
 }
 
 func (m *Map[K, V]) Range(f func(K, V) bool) {
 	(*sync.Map)(m).Range(func(k any, v any) bool {
-		return f(k.(K), v.(V))
+		// the assertions only fail for nil values of interface types
+		key, _ := k.(K)
+		value, _ := v.(V)
+		return f(key, value)
 	})
 }
 
@@ -54,7 +58,7 @@ func (m *Map[K, V]) Store(key K, value V) {
 func (m *Map[K, V]) Swap(key K, value V) (previous V, loaded bool) {
 	prev, loaded := (*sync.Map)(m).Swap(key, value)
 	if loaded {
-		previous = prev.(V)
+		previous, _ = prev.(V)
 	}
 	return
 }
-- 
2.43.0


From 0e1d5bedc51c8f5af5eaa1059985411a851f28cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 02/20] fix: gsync.Pool.Get must return nil when New is not
 set, like sync.Pool

---
 gsync/sync.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsync/sync.go b/gsync/sync.go
index d41103b..ffb8bdf 100755
--- a/gsync/sync.go
+++ b/gsync/sync.go
@@ -75,6 +75,9 @@ func (p *Pool[T]) getSyncPool() *sync.Pool {
 	}
 	result := &sync.Pool{
 		New: func() any {
+			if p.New == nil {
+				return (*T)(nil)
+			}
 			return p.New()
 		},
 	}
-- 
2.43.0


From 6d42872e186f13e392b2c0de61fbd69bda84473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 03/20] fix: psort.Float64Slice must order NaN values
 consistently with its sequential sort

---
 psort/sort.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/psort/sort.go b/psort/sort.go
index 99d21de..4d864b7 100644
--- a/psort/sort.go
+++ b/psort/sort.go
@@ -113,8 +113,9 @@ func (s Float64Slice) Len() int {
 	return len(s)
 }
 
+// Less orders NaN values before other values, like sort.Float64Slice.
 func (s Float64Slice) Less(i, j int) bool {
-	return s[i] < s[j]
+	return s[i] < s[j] || (s[i] != s[i] && s[j] == s[j])
 }
 
 func (s Float64Slice) Swap(i, j int) {
-- 
2.43.0


From 29bddf927262afe8a3c9b1cda2fa156fc815fb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 04/20] fix: psort.IsSorted must not access data anymore after
 it has returned

---
 psort/sort.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/psort/sort.go b/psort/sort.go
index 4d864b7..54c4f82 100644
--- a/psort/sort.go
+++ b/psort/sort.go
@@ -5,7 +5,7 @@ import (
 	"sort"
 	"sync/atomic"
 
-	"github.com/intel/forGoParallel/speculative"
+	"github.com/intel/forGoParallel/parallel"
 )
 
 // SequentialSorter is a type, typically a collection, that can be sequentially
@@ -34,23 +34,23 @@ func IsSorted(data sort.Interface) bool {
 		}
 	}
 	var done int32
-	defer atomic.StoreInt32(&done, 1)
 	var pTest func(int, int) bool
 	pTest = func(index, size int) bool {
 		if size < qsortGrainSize {
 			for i := range size {
 				j := i + index
-				if ((j % 1024) == 0) && (atomic.LoadInt32(&done) != 0) {
+				if ((i % 1024) == 0) && (atomic.LoadInt32(&done) != 0) {
 					return false
 				}
 				if data.Less(j, j-1) {
+					atomic.StoreInt32(&done, 1)
 					return false
 				}
 			}
 			return true
 		}
 		half := size / 2
-		result := speculative.And(
+		result := parallel.And(
 			func() bool { return pTest(index, half) },
 			func() bool { return pTest(index+half, size-half) },
 		)
-- 
2.43.0


From ec93b323b2bfef77288cf52508458eee49a98ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 05/20] fix: package parallel must wait for all functions even
 when the left-most one panics

---
 parallel/parallel.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parallel/parallel.go b/parallel/parallel.go
index 7613b17..0caa7d3 100755
--- a/parallel/parallel.go
+++ b/parallel/parallel.go
@@ -30,6 +30,7 @@ func Reduce[T any](
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	if len(moreFunctions) == 1 {
 		go func() {
 			defer func() {
@@ -86,6 +87,7 @@ func ReduceSum[T Addable](functions ...func() T) (result T) {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	switch len(functions) {
 	case 2:
 		go func() {
@@ -142,6 +144,7 @@ func ReduceProduct[T Multipliable](functions ...func() T) T {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	switch len(functions) {
 	case 2:
 		go func() {
@@ -188,6 +191,7 @@ func Do(thunks ...func()) {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	switch len(thunks) {
 	case 2:
 		go func() {
@@ -234,6 +238,7 @@ func And(predicates ...func() bool) bool {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	switch len(predicates) {
 	case 2:
 		go func() {
@@ -281,6 +286,7 @@ func Or(predicates ...func() bool) bool {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	switch len(predicates) {
 	case 2:
 		go func() {
@@ -344,6 +350,7 @@ func Range(low, high, n int, f func(low, high int)) {
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -400,6 +407,7 @@ func RangeAnd(low, high, n int, f func(low, high int) bool) bool {
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -456,6 +464,7 @@ func RangeOr(low, high, n int, f func(low, high int) bool) bool {
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -517,6 +526,7 @@ func RangeReduce[T any](
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -574,6 +584,7 @@ func RangeReduceSum[T Addable](low, high, n int, reduce func(low, high int) T) T
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -634,6 +645,7 @@ func RangeReduceProduct[T Multipliable](
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
-- 
2.43.0


From 3c7b4819cd1ba1555ce00cf037a8fbf55f71156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 06/20] fix: pipeline nodes must forward batches using the
 index seen by Feed, not by Begin

---
 pipeline/lparnode.go      | 10 +++++-----
 pipeline/seqnode.go       | 13 +++++++------
 pipeline/strictordnode.go |  8 ++++----
 3 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index dd672e4..664d812 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -39,7 +39,7 @@ func (node *lparnode[T]) TryMerge(next Node[T]) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *lparnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bool) {
+func (node *lparnode[T]) Begin(p *Pipeline[T], _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Parallel, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -68,7 +68,7 @@ func (node *lparnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep b
 							node.cond.L.Unlock()
 							node.cond.Broadcast()
 						}
-						feed(p, node.receivers, index, batch.seqNo, batch.data)
+						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 					}
 				}
 			}()
@@ -82,7 +82,7 @@ func (node *lparnode[T]) StrictOrd() bool {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *lparnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
+func (node *lparnode[T]) Feed(p *Pipeline[T], index int, seqNo int, data T) {
 	if node.ordered {
 		node.cond.L.Lock()
 		defer node.cond.L.Unlock()
@@ -91,7 +91,7 @@ func (node *lparnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
 				select {
 				case <-p.ctx.Done():
 					return
-				case node.channel <- dataBatch[T]{seqNo, data}:
+				case node.channel <- dataBatch[T]{index, seqNo, data}:
 					return
 				}
 			}
@@ -106,7 +106,7 @@ func (node *lparnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
 	select {
 	case <-p.ctx.Done():
 		return
-	case node.channel <- dataBatch[T]{seqNo, data}:
+	case node.channel <- dataBatch[T]{index, seqNo, data}:
 		return
 	}
 }
diff --git a/pipeline/seqnode.go b/pipeline/seqnode.go
index 7e5d3e4..1ed3d1e 100644
--- a/pipeline/seqnode.go
+++ b/pipeline/seqnode.go
@@ -6,6 +6,7 @@ import (
 
 type (
 	dataBatch[T any] struct {
+		index int
 		seqNo int
 		data  T
 	}
@@ -45,7 +46,7 @@ func (node *seqnode[T]) TryMerge(next Node[T]) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *seqnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bool) {
+func (node *seqnode[T]) Begin(p *Pipeline[T], _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, node.kind, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -63,7 +64,7 @@ func (node *seqnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bo
 						if !ok {
 							return
 						}
-						feed(p, node.receivers, index, batch.seqNo, batch.data)
+						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 					}
 				}
 			}()
@@ -85,7 +86,7 @@ func (node *seqnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bo
 						case batch.seqNo > run:
 							stash[batch.seqNo] = batch.data
 						default:
-							feed(p, node.receivers, index, batch.seqNo, batch.data)
+							feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 						checkStash:
 							for {
 								select {
@@ -98,7 +99,7 @@ func (node *seqnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bo
 										break checkStash
 									}
 									delete(stash, run)
-									feed(p, node.receivers, index, run, data)
+									feed(p, node.receivers, batch.index, run, data)
 								}
 							}
 						}
@@ -117,11 +118,11 @@ func (node *seqnode[T]) StrictOrd() bool {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *seqnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
+func (node *seqnode[T]) Feed(p *Pipeline[T], index int, seqNo int, data T) {
 	select {
 	case <-p.ctx.Done():
 		return
-	case node.channel <- dataBatch[T]{seqNo, data}:
+	case node.channel <- dataBatch[T]{index, seqNo, data}:
 		return
 	}
 }
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index e7d1f2c..fc99004 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -38,7 +38,7 @@ func (node *strictordnode[T]) TryMerge(next Node[T]) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *strictordnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (keep bool) {
+func (node *strictordnode[T]) Begin(p *Pipeline[T], _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Ordered, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -63,7 +63,7 @@ func (node *strictordnode[T]) Begin(p *Pipeline[T], index int, dataSize *int) (k
 					node.run++
 					node.cond.L.Unlock()
 					node.cond.Broadcast()
-					feed(p, node.receivers, index, batch.seqNo, batch.data)
+					feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 				}
 			}
 		}()
@@ -76,7 +76,7 @@ func (node *strictordnode[T]) StrictOrd() bool {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *strictordnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
+func (node *strictordnode[T]) Feed(p *Pipeline[T], index int, seqNo int, data T) {
 	node.cond.L.Lock()
 	defer node.cond.L.Unlock()
 	for {
@@ -84,7 +84,7 @@ func (node *strictordnode[T]) Feed(p *Pipeline[T], _ int, seqNo int, data T) {
 			select {
 			case <-p.ctx.Done():
 				return
-			case node.channel <- dataBatch[T]{seqNo, data}:
+			case node.channel <- dataBatch[T]{index, seqNo, data}:
 				return
 			}
 		}
-- 
2.43.0


From d8a46138752e9a2c7f049ef6ca2b3e93f87b24bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 07/20] fix: nodes preceding a StrictOrd node must be made
 ordered before they begin

---
 pipeline/pipeline.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index c1a56ce..53ff439 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -291,6 +291,19 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 		go notifier()
 		p.notifiers[i] = nil
 	}
+	for index := len(p.nodes) - 1; index >= 0; index-- {
+		if p.nodes[index].StrictOrd() {
+			for index = index - 1; index >= 0; index-- {
+				switch node := p.nodes[index].(type) {
+				case *seqnode[T]:
+					node.kind = Ordered
+				case *lparnode[T]:
+					node.makeOrdered()
+				}
+			}
+			break
+		}
+	}
 	dataSize := p.source.Prepare(p.ctx)
 	filteredSize := dataSize
 	for index := 0; index < len(p.nodes); {
@@ -311,19 +324,6 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 				index++
 			}
 		}
-		for index := len(p.nodes) - 1; index >= 0; index-- {
-			if p.nodes[index].StrictOrd() {
-				for index = index - 1; index >= 0; index-- {
-					switch node := p.nodes[index].(type) {
-					case *seqnode[T]:
-						node.kind = Ordered
-					case *lparnode[T]:
-						node.makeOrdered()
-					}
-				}
-				break
-			}
-		}
 		if dataSize < 0 {
 			p.finalizeVariableBatchSize()
 			for seqNo, batchSize := 0, p.batchInc; p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
-- 
2.43.0


From a6f390f486463dbea206ee26550ceb263d716989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 08/20] fix: canceling a pipeline must not lose wakeups of Feed
 calls waiting for their turn

---
 pipeline/lparnode.go      | 2 ++
 pipeline/strictordnode.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index 664d812..23e42c9 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -52,7 +52,9 @@ func (node *lparnode[T]) Begin(p *Pipeline[T], _ int, dataSize *int) (keep bool)
 					select {
 					case <-p.ctx.Done():
 						if node.ordered {
+							node.cond.L.Lock()
 							node.cond.Broadcast()
+							node.cond.L.Unlock()
 						}
 						return
 					case batch, ok := <-node.channel:
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index fc99004..fe9d1e0 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -50,7 +50,9 @@ func (node *strictordnode[T]) Begin(p *Pipeline[T], _ int, dataSize *int) (keep
 			for {
 				select {
 				case <-p.ctx.Done():
+					node.cond.L.Lock()
 					node.cond.Broadcast()
+					node.cond.L.Unlock()
 					return
 				case batch, ok := <-node.channel:
 					if !ok {
-- 
2.43.0


From 419aaaaa1e59de534118dce9541fe07ec29f3eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 09/20] fix: scanner sources must report the actual number of
 fetched elements

---
 pipeline/source.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pipeline/source.go b/pipeline/source.go
index 5ee9439..52fa1fa 100755
--- a/pipeline/source.go
+++ b/pipeline/source.go
@@ -89,7 +89,7 @@ func (src *Scanner) Prepare(_ context.Context) (size int) {
 // Fetch implements the method of the Source interface.
 func (src *Scanner) Fetch(n int) (fetched int) {
 	var data []string
-	for fetched = range n {
+	for range n {
 		if src.Scan() {
 			data = append(data, src.Text())
 		} else {
@@ -97,7 +97,7 @@ func (src *Scanner) Fetch(n int) (fetched int) {
 		}
 	}
 	src.data = data
-	return
+	return len(data)
 }
 
 // Data implements the method of the Source interface.
@@ -126,7 +126,7 @@ func (src *BytesScanner) Prepare(_ context.Context) (size int) {
 // Fetch implements the method of the Source interface.
 func (src *BytesScanner) Fetch(n int) (fetched int) {
 	var data [][]byte
-	for fetched = range n {
+	for range n {
 		if src.Scan() {
 			data = append(data, slices.Clone(src.Bytes()))
 		} else {
@@ -134,7 +134,7 @@ func (src *BytesScanner) Fetch(n int) (fetched int) {
 		}
 	}
 	src.data = data
-	return
+	return len(data)
 }
 
 // Data implements the method of the Source interface.
-- 
2.43.0


From d6dd98d540f98cca30cb0c3c57a3ebd254f3c379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 10/20] fix: access the error value of a pipeline only while
 holding its mutex

---
 pipeline/pipeline.go      | 12 ++++++++----
 pipeline/transformnode.go |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 53ff439..6302890 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -283,7 +283,7 @@ func (p *Pipeline[T]) RunWithContext(ctx context.Context, cancel context.CancelF
 }
 
 func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.CancelFunc) {
-	if p.err != nil {
+	if p.Err() != nil {
 		return
 	}
 	p.ctx, p.cancel = ctx, cancel
@@ -313,7 +313,7 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 			p.nodes = slices.Delete(p.nodes, index, index+1)
 		}
 	}
-	if p.err != nil {
+	if p.Err() != nil {
 		return
 	}
 	if len(p.nodes) > 0 {
@@ -354,8 +354,12 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 	for _, node := range p.nodes {
 		node.End()
 	}
-	if p.err == nil {
-		p.err = p.source.Err()
+	if err := p.source.Err(); err != nil {
+		p.mutex.Lock()
+		if p.err == nil {
+			p.err = err
+		}
+		p.mutex.Unlock()
 	}
 }
 
diff --git a/pipeline/transformnode.go b/pipeline/transformnode.go
index f2da4eb..17c58ab 100644
--- a/pipeline/transformnode.go
+++ b/pipeline/transformnode.go
@@ -105,7 +105,7 @@ func (node *transformNode[S, T]) Begin(_ *Pipeline[S], _ int, dataSize *int) (ke
 			node.next.nodes = slices.Delete(node.next.nodes, index, index+1)
 		}
 	}
-	if node.next.err != nil {
+	if node.next.Err() != nil {
 		return
 	}
 	if len(node.next.nodes) == 0 {
-- 
2.43.0


From 29689950ae3354c4e2a1d06844ad77b1d671269c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 11/20] fix: Skip must subtract the skipped elements from the
 expected data size

---
 pipeline/filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index bf8b559..a0a548d 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -313,7 +313,7 @@ func Skip[T any](n int) Node[[]T] {
 		case n == 0: // nothing to skip
 		case (*size < 0) || (*size > n):
 			if *size > 0 {
-				*size = n
+				*size -= n
 			}
 			seen := 0
 			receiver = func(_ int, data []T) (result []T) {
-- 
2.43.0


From 989baf24976907cdcdeeacea5f3d8a395d6d8bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 12/20] fix: Count must not add to the previous contents of the
 result

---
 pipeline/filters.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index a0a548d..26b048b 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -248,6 +248,7 @@ func Count[T any](result *int) Filter[[]T] {
 				*result = int(atomic.LoadInt64(&res))
 			}
 		default:
+			*result = 0
 			receiver = func(_ int, data []T) []T {
 				*result += len(data)
 				return data
-- 
2.43.0


From ac615c1e127c82c086864b0234c31aed10f07098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 13/20] fix: the first variable batch size must not exceed the
 maximum batch size

---
 pipeline/pipeline.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 6302890..2bcdd25 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -245,6 +245,9 @@ func (p *Pipeline[T]) finalizeVariableBatchSize() {
 	if p.maxBatchSize < 1 {
 		p.maxBatchSize = defaultMaxBatchSize
 	}
+	if p.batchInc > p.maxBatchSize {
+		p.batchInc = p.maxBatchSize
+	}
 }
 
 func (p *Pipeline[T]) nextBatchSize(batchSize int) (result int) {
-- 
2.43.0


From 6c5a39084e90714e7185dae154e54388f9558421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 14/20] fix: stop fetching batches when a pipeline is canceled

---
 pipeline/pipeline.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 2bcdd25..c6a93f4 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -337,6 +337,9 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 				} else if p.Err() != nil {
 					return
 				}
+				if p.ctx.Err() != nil {
+					break
+				}
 			}
 		} else {
 			batchSize := ((dataSize - 1) / p.NofBatches(0)) + 1
@@ -351,6 +354,9 @@ func (p *Pipeline[T]) defaultRunWithContext(ctx context.Context, cancel context.
 				} else if p.Err() != nil {
 					return
 				}
+				if p.ctx.Err() != nil {
+					break
+				}
 			}
 		}
 	}
-- 
2.43.0


From 77fa17ac9e13d8b0b83e950f459bde828b0b1864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 15/20] fix: SetErr must not crash when the pipeline is not
 running yet

---
 pipeline/pipeline.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index c6a93f4..c70c670 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -157,7 +157,9 @@ func (p *Pipeline[T]) SetErr(err error) bool {
 	if p.err == nil {
 		p.err = err
 		p.mutex.Unlock()
-		p.cancel()
+		if p.cancel != nil {
+			p.cancel()
+		}
 		return true
 	}
 	p.mutex.Unlock()
-- 
2.43.0


From 6e8c813ddc311639de2a7dc647359ab04253a118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 16/20] fix: dividing a range must not overflow at the upper
 end of the int range

---
 parallel/parallel.go       | 12 ++++++------
 speculative/speculative.go |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/parallel/parallel.go b/parallel/parallel.go
index 0caa7d3..89ee504 100755
--- a/parallel/parallel.go
+++ b/parallel/parallel.go
@@ -343,7 +343,7 @@ func Range(low, high, n int, f func(low, high int)) {
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				f(low, high)
 				return
 			}
@@ -400,7 +400,7 @@ func RangeAnd(low, high, n int, f func(low, high int) bool) bool {
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return f(low, high)
 			}
 			var b0, b1 bool
@@ -457,7 +457,7 @@ func RangeOr(low, high, n int, f func(low, high int) bool) bool {
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return f(low, high)
 			}
 			var b0, b1 bool
@@ -519,7 +519,7 @@ func RangeReduce[T any](
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			var left, right T
@@ -577,7 +577,7 @@ func RangeReduceSum[T Addable](low, high, n int, reduce func(low, high int) T) T
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			var left, right T
@@ -638,7 +638,7 @@ func RangeReduceProduct[T Multipliable](
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			var left, right T
diff --git a/speculative/speculative.go b/speculative/speculative.go
index 69d4e34..f1d43a4 100755
--- a/speculative/speculative.go
+++ b/speculative/speculative.go
@@ -251,7 +251,7 @@ func Range(low, high, n int, f func(low, high int) bool) bool {
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return f(low, high)
 			}
 			var b1 bool
@@ -310,7 +310,7 @@ func RangeAnd(low, high, n int, f func(low, high int) bool) bool {
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return f(low, high)
 			}
 			var b1 bool
@@ -369,7 +369,7 @@ func RangeOr(low, high, n int, f func(low, high int) bool) bool {
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return f(low, high)
 			}
 			var b1 bool
@@ -437,7 +437,7 @@ func RangeReduce[T any](
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if batchSize*half >= high-low {
 				return reduce(low, high)
 			}
 			var left, right T
-- 
2.43.0


From e41bd0190e30e79354b8aaedc2ff0b300d32dde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 17/20] fix: StableSort must propagate panics of NewTemp and
 Assign to its caller

---
 psort/mergesort.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/psort/mergesort.go b/psort/mergesort.go
index e4d022b..2cc0901 100755
--- a/psort/mergesort.go
+++ b/psort/mergesort.go
@@ -3,6 +3,7 @@ package psort
 import (
 	"sync"
 
+	"github.com/intel/forGoParallel/internal"
 	"github.com/intel/forGoParallel/parallel"
 )
 
@@ -154,10 +155,15 @@ func StableSort(data StableSorter) {
 		return
 	}
 	var T, A *sorter
+	var p interface{}
 	var temp sync.WaitGroup
 	temp.Add(1)
+	defer temp.Wait()
 	go func() {
-		defer temp.Done()
+		defer func() {
+			p = internal.WrapPanic(recover())
+			temp.Done()
+		}()
 		a := data.NewTemp()
 		T = &sorter{data.Less, data.Assign(a)}
 		A = &sorter{a.Less, a.Assign(data)}
@@ -177,6 +183,9 @@ func StableSort(data StableSorter) {
 				func() { pSort(index+q3, size-q3) },
 			)
 			temp.Wait()
+			if p != nil {
+				panic(p)
+			}
 			parallel.Do(
 				func() { pMerge(T, index, index+q1-1, index+q1, index+q2-1, A, index) },
 				func() { pMerge(T, index+q2, index+q3-1, index+q3, index+size-1, A, index+q2) },
-- 
2.43.0


From 81dec42389bc55f73cf7150242ecc728621dca29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 18/20] fix: a negative number of batches is invalid for empty
 ranges as well

---
 internal/internal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/internal.go b/internal/internal.go
index b93740d..54035bf 100755
--- a/internal/internal.go
+++ b/internal/internal.go
@@ -23,6 +23,9 @@ func ComputeNofBatches(low, high, n int) (batches int) {
 			batches = size
 		}
 	case size == 0:
+		if n < 0 {
+			panic(fmt.Sprintf("invalid number of batches: %v", n))
+		}
 		batches = 1
 	default:
 		panic(fmt.Sprintf("invalid range: %v:%v", low, high))
-- 
2.43.0


From 87bdaf432001e3785f03e463b8cbc47eaa23f305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:56 +0000
Subject: [PATCH 19/20] fix: batch sizes near the upper end of the int range
 overflowed

---
 pipeline/pipeline.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index c70c670..ed61247 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -253,11 +253,10 @@ func (p *Pipeline[T]) finalizeVariableBatchSize() {
 }
 
 func (p *Pipeline[T]) nextBatchSize(batchSize int) (result int) {
-	result = batchSize + p.batchInc
-	if result > p.maxBatchSize {
-		result = p.maxBatchSize
+	if batchSize > p.maxBatchSize-p.batchInc {
+		return p.maxBatchSize
 	}
-	return
+	return batchSize + p.batchInc
 }
 
 // Notify installs a thunk that gets invoked just before this pipeline starts running.
-- 
2.43.0


From 71f2af474bcfd8fbd4e11995f0709d4c9be3093b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 20/20] fix: psort.IsSorted must stop waiting for its right
 half once the left one is unsorted, and wait for stragglers only before it
 returns

It uses speculative.And again, like before; tasks that are still running
when the result is known are awaited before IsSorted returns.
---
 psort/sort.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/psort/sort.go b/psort/sort.go
index 54c4f82..cac168a 100644
--- a/psort/sort.go
+++ b/psort/sort.go
@@ -3,9 +3,10 @@ package psort
 
 import (
 	"sort"
+	"sync"
 	"sync/atomic"
 
-	"github.com/intel/forGoParallel/parallel"
+	"github.com/intel/forGoParallel/speculative"
 )
 
 // SequentialSorter is a type, typically a collection, that can be sequentially
@@ -34,6 +35,9 @@ func IsSorted(data sort.Interface) bool {
 		}
 	}
 	var done int32
+	// speculative.And may return while its second argument is still running
+	var wg sync.WaitGroup
+	defer wg.Wait()
 	var pTest func(int, int) bool
 	pTest = func(index, size int) bool {
 		if size < qsortGrainSize {
@@ -50,9 +54,10 @@ func IsSorted(data sort.Interface) bool {
 			return true
 		}
 		half := size / 2
-		result := parallel.And(
-			func() bool { return pTest(index, half) },
-			func() bool { return pTest(index+half, size-half) },
+		wg.Add(2)
+		result := speculative.And(
+			func() bool { defer wg.Done(); return pTest(index, half) },
+			func() bool { defer wg.Done(); return pTest(index+half, size-half) },
 		)
 		return result
 	}
-- 
2.43.0

