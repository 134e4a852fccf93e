#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, st, over, text, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": st,
              "quantifier": {"over": over.split(), "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files.split(), "mechanism": [{"name": m, "where": w} for m, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

PAR="parallel/parallel.go"; SPEC="speculative/speculative.go"; INT="internal/internal.go"

p("C01","parallel: calls return only after every started function has terminated",
 "Every function of package parallel (Reduce*, Do, And, Or, Range*, PrefixSum) returns to its caller, normally or with a panic, only after every goroutine it started and every function it was given has terminated. No interleaving and no panic in any of the functions makes it return early, block forever, or touch shared state without synchronisation.",
 "schedules inputs programs","every number of functions or range shape, every schedule, every subset of functions that panic",
 "The tests call Do, RangeReduce and PrefixSum a few times without panics and only check results; early return on one schedule or in one panicking branch is not sampled.",
 PAR,[("WaitGroup Add/Done/Wait around the forked half",PAR),("deferred Wait before re-panicking",PAR)],["return of the exported functions"])
p("C02","parallel: every supplied function is invoked exactly once",
 "Reduce, ReduceSum, ReduceProduct, Do, And and Or of package parallel invoke each of the functions they are passed exactly once, whatever the number of functions and whatever the results of the others.",
 "inputs schedules","every number of functions and every combination of results",
 "The tests use fixed small argument lists with Do only; And, Or and Reduce* are not called directly.",
 PAR,[("recursive halving of the argument list, base cases for 1 and 2",PAR)],["calls of the supplied functions"])
p("C03","parallel: results are combined from left to right with the right identity",
 "The result of every reducing function in package parallel is the left-to-right combination of the results of its functions or range batches: join(left, right) with the left operand always covering the earlier functions or lower range, sum, product, conjunction or disjunction. Empty argument lists give the identity of the operation (true for And, false for Or, 0 for sums, 1 for products).",
 "inputs schedules","every argument count, range, batch count and associative (not necessarily commutative) join",
 "Existing reductions are commutative integer sums, so a swapped operand order or wrong identity cannot be observed.",
 PAR,[("join(left, right) after Wait",PAR)],["results of Reduce*, And, Or, Range*"])
p("C04","Panics reach the caller as the left-most panic and wrap the original value",
 "When supplied functions of package parallel or speculative panic, the panic is captured in the goroutine where it happens and rethrown in the calling goroutine, never lost and never crashing the program; with several panics the left-most one is rethrown, except where a speculative result was decided without waiting. A rethrown panic that crossed goroutines keeps the original value: errors stay unwrappable to the original error.",
 "programs schedules","every function that panics with any value, in any position, in any schedule",
 "No test panics inside a supplied function.",
 " ".join([PAR,SPEC,INT]),[("recover + WrapPanic in forked goroutines",INT),("re-panic after Wait",PAR)],["panic value at the caller"])
p("C05","Range functions call their body on disjoint batches that exactly cover the range",
 "Every Range function of packages parallel and speculative splits [low, high) into consecutive, disjoint, in-order sub-ranges that together cover it exactly (when nothing is decided early), calling the body with low <= high of the sub-range. At most the requested number of batches is created and a non-empty range gives no empty batch.",
 "inputs","every low <= high and every batch count, including counts larger than the range and values near the ends of the int range",
 "The tests use a handful of ranges and a sum over them; duplicate-plus-missing or empty batches do not show.",
 " ".join([PAR,SPEC]),[("recursive division of size and batch count",PAR)],["arguments of the range body"])
p("C06","Range arguments are validated and the default batch count is sane",
 "A Range function of packages parallel and speculative panics, without calling its body, when high < low or the batch count is negative. With a batch count of 0 it uses a default batch count that is at least 1 and never larger than the size of a non-empty range, and an empty range with a legal batch count calls the body at most once, on the empty range.",
 "inputs","every low, high and batch count",
 "No test passes invalid or zero arguments.",
 " ".join([INT,PAR,SPEC]),[("ComputeNofBatches",INT),("argument checks",PAR)],["panics of Range functions","arguments of the body"])
p("C07","speculative: the result equals the left-to-right evaluation, on every schedule",
 "The result of every function of package speculative is the one a sequential left-to-right evaluation gives: And/Or/RangeAnd/RangeOr return the logical value, Reduce and RangeReduce return the left-most result that signals to stop, or otherwise the left-to-right combination of all results, and Do and Range report whether any function signalled. Which goroutine finishes first never influences the result.",
 "schedules inputs","every schedule, every combination of results and stop signals",
 "There is no test of package speculative at all.",
 SPEC,[("left result is consulted before the right one",SPEC)],["results of speculative functions"])
p("C08","speculative: a decisive left operand returns without waiting",
 "In package speculative, when the left-most undetermined function or sub-range has produced a decisive result (false for And, true for Or, a stop signal otherwise), the call returns it without waiting for functions or sub-ranges further right that are still running.",
 "schedules inputs","every schedule in which a right-hand function is arbitrarily slow",
 "There is no test of package speculative; and termination of a call while another function is blocked needs a controlled schedule.",
 SPEC,[("no Wait on the decisive path",SPEC)],["return of speculative functions"])
p("C09","speculative: functions run at most once, all of them if undecided",
 "In package speculative every supplied function is invoked at most once, and exactly once when no result is decisive; an undecided call returns only after all of them terminated, and early returns leave no goroutine blocked or racing with the caller.",
 "schedules inputs","every schedule and argument count",
 "There is no test of package speculative.",
 SPEC,[("Wait before consulting the right result",SPEC)],["calls of supplied functions"])
p("C10","PrefixSum is a data-race-free inclusive scan that keeps the length",
 "For every slice and every associative (not necessarily commutative) addition, element i of PrefixSum's result is the left-to-right sum of elements 0..i of the input as it was at the call; the result has the length of the input. No two functions running at the same time access the same element in a conflicting way.",
 "inputs schedules","every slice length and content, every schedule of the parallel copies",
 "The test sums equal-structure integer data at a few sizes; operand order, aliasing and boundary shifts are not sampled.",
 PAR,[("double buffering with a doubling shift",PAR)],["result of PrefixSum"])
p("C11","psort: parallel sorting only permutes the data",
 "Sort and StableSort neither lose nor duplicate elements: Sort touches the data only by swapping and by sequentially sorting sub-ranges, and every merge of StableSort writes each destination position of its range exactly once, each time with a distinct source position from the two runs being merged. All positions stay within the data.",
 "inputs","every length, content and comparison function",
 "Tests sort a few random arrays of integers-only contents; a wrong bound at a rare split position is not sampled.",
 "psort/mergesort.go psort/quicksort.go",[("binary split of merges, position arithmetic p3+(q1-p1)+(q2-p2)","psort/mergesort.go")],["positions passed to Swap, SequentialSort and Assign"])
p("C12","psort: StableSort merges runs in order and keeps equal elements in place",
 "Merging two sorted runs takes an element of the right run before an element of the left run only if it is strictly less than it; parallel merges split both runs so that nothing in an earlier part is ordered after the split element and ties between runs keep left elements before right elements.",
 "inputs","every pair of runs, including many equal elements",
 "One test sorts random boxes; the rare constellations of ties across split positions and run boundaries are not sampled.",
 "psort/mergesort.go",[("sequential merge loop","psort/mergesort.go"),("two different binary searches for ties","psort/mergesort.go")],["Less and Assign calls"])
p("C13","psort: quicksort steps partition around the pivot and recurse on both sides",
 "Each partitioning step of Sort stops its upward scan only at an element not less than the pivot and its downward scan only at an element not greater, exchanges the two, never leaves its sub-range, puts the pivot between the parts, and then sorts exactly the two remaining parts, neither overlapping nor leaving a gap besides the pivot. Sub-ranges below the threshold are sorted sequentially over exactly their own bounds.",
 "inputs","every content and comparison function",
 "Random contents rarely meet boundary situations (all equal, scans meeting at the ends).",
 "psort/quicksort.go",[("Hoare partition with the pivot at the start","psort/quicksort.go")],["Less, Swap and SequentialSort calls"])
p("C14","psort: concurrent sort tasks never touch overlapping positions",
 "In Sort, StableSort and IsSorted, tasks that may run at the same time never write a position that another one reads or writes, buffers are created before they are used (a panic while creating them reaches the caller and nothing is merged), and no access to the data happens after the function has returned, by return or by panic.",
 "schedules inputs programs","every schedule, length and content, panics of the user's methods included",
 "A race needs a particular schedule and overlapping bound; the tests are not run under the race detector.",
 "psort/mergesort.go psort/quicksort.go psort/sort.go",[("disjoint sub-ranges of parallel tasks","psort/quicksort.go"),("WaitGroup for the temporary buffer","psort/mergesort.go")],["data accesses"])
p("C15","psort: IsSorted checks every adjacent pair",
 "IsSorted returns true only if no adjacent pair is out of order, having compared every adjacent pair, and returns false only if some adjacent pair was found out of order; it never indexes outside the data. IntsAreSorted, Float64sAreSorted and StringsAreSorted decide their argument in the same way.",
 "inputs schedules","every length and content, every schedule of the parallel halves",
 "Tests check sorted results and a few unsorted arrays; a skipped pair at a seam between sub-ranges is not sampled.",
 "psort/sort.go",[("serial prefix, then parallel halves","psort/sort.go")],["Less calls and the result of IsSorted"])
p("C16","psort: the slice adaptors implement one consistent element order",
 "For IntSlice, Float64Slice and StringSlice, Len is the slice length, Less(i, j) is the strict order of the elements (NaN first for floats) and the same order SequentialSort uses, Swap exchanges exactly two elements, SequentialSort stably sorts exactly [i, j) in place, NewTemp has a fresh buffer of the same length and type, and Assign copies len elements from position j of its source to position i of its receiver.",
 "inputs","every slice and every index",
 "Float64Slice is not tested with NaN or unequal zeroes; Assign and NewTemp are only covered through StableSort.",
 "psort/sort.go",[("adaptor methods","psort/sort.go")],["adaptor methods"])
p("C17","gsync.Map behaves exactly like sync.Map with typed keys and values",
 "Every method of the generic map has the effect and results of the sync.Map method of the same name on the same arguments: same keys and values in the same order, presence and loaded flags passed through unchanged, absent values reported as the zero value, and Range stopping exactly when its function returns false. No method panics for any key or value of the type parameters, nil interface values included.",
 "inputs histories","every operation sequence and every instantiation, including interface types holding nil",
 "There is no test of package gsync.",
 "gsync/sync.go",[("conversion between any and the type parameters","gsync/sync.go")],["results of Map methods"])
p("C18","gsync.Pool hands out a stored value or a new one",
 "Pool.Get returns a value previously given to Put on the same pool, or the result of calling New, or nil when neither is available; Put stores exactly the value it is given in that same pool. Concurrent first uses of a pool share one underlying pool without races.",
 "histories schedules","every operation history and schedule",
 "There is no test of package gsync.",
 "gsync/sync.go",[("lazily created pool","gsync/sync.go")],["results of Pool.Get"])
p("C19","pipeline: a batch passes every receiver in order and is forwarded exactly once",
 "Each node passes every batch it accepts through all its receivers in the order of its filters, each receiver getting the previous one's result and the batch's own sequence number, and then forwards the final result exactly once to the next node of the same pipeline, with the same sequence number. A batch a running node was given is dropped only when the pipeline's context is done.",
 "schedules programs inputs","every composition of nodes and filters, every schedule",
 "One word-count test uses a single parallel node; multi-node forwarding and sequence numbers are not observed.",
 "pipeline/filter.go pipeline/seqnode.go pipeline/parnode.go pipeline/lparnode.go pipeline/strictordnode.go pipeline/pipeline.go",[("feed and FeedForward","pipeline/filter.go")],["receiver calls"])
p("C20","pipeline: ordered nodes process batches in encounter order",
 "Ord and StrictOrd nodes pass batches to their receivers in exactly increasing sequence number order 0, 1, 2, ... without gaps or duplicates, holding back batches that arrive early and processing them as soon as their turn comes, whatever order they arrive in. A Seq, LimitedPar or Ord node placed before a StrictOrd node lets batches start in that order too.",
 "schedules inputs","every arrival order and number of batches",
 "No test uses an ordered node; out-of-order arrival needs particular schedules.",
 "pipeline/seqnode.go pipeline/strictordnode.go pipeline/lparnode.go",[("stash of early batches","pipeline/seqnode.go"),("turn counter under a condition variable","pipeline/strictordnode.go")],["sequence of receiver calls"])
p("C21","pipeline: sequential kinds of nodes process one batch at a time",
 "Receivers of Ord, Seq and StrictOrd nodes are never executed by two goroutines at the same time, however the batches are fed; the node and pipeline bookkeeping that several goroutines share is only accessed under synchronisation.",
 "schedules","every schedule and number of feeding goroutines",
 "Overlap of two receivers needs a particular schedule.",
 "pipeline/seqnode.go pipeline/strictordnode.go",[("a single goroutine per node","pipeline/seqnode.go")],["receiver calls"])
p("C22","pipeline: each finalizer runs once, after all its node's receivers are done",
 "Running a pipeline to completion ends every node exactly once, in pipeline order, and only after all batches were fed; ending a node lets its workers finish, waits for them, and then runs each of its finalizers exactly once and in order, so that no receiver runs concurrently with or after a finalizer of its node and run returns after all of them.",
 "schedules inputs programs","every schedule, node kind and number of batches",
 "The word-count test has one finalizer and checks only its effect.",
 "pipeline/pipeline.go pipeline/seqnode.go pipeline/parnode.go pipeline/lparnode.go pipeline/strictordnode.go pipeline/transformnode.go",[("End: close, Wait, finalizers","pipeline/seqnode.go")],["finalizer calls"])
p("C23","pipeline: cancellation unblocks every waiting goroutine",
 "Once a pipeline's context is done, no node operation blocks any more: every send, receive and wait that a node or source performs on behalf of a batch can be ended by the context, waiting feeders are woken up and the nodes' goroutines end, no further batches are fetched after the current one, and running the pipeline still ends its nodes (unless an error is set).",
 "schedules fault_sequences","cancellation at every point of every schedule",
 "No test cancels a pipeline.",
 "pipeline/seqnode.go pipeline/parnode.go pipeline/lparnode.go pipeline/strictordnode.go pipeline/source.go pipeline/pipeline.go",[("select with the context's Done channel","pipeline/seqnode.go"),("broadcast on cancellation","pipeline/strictordnode.go")],["termination of Run"])
p("C24","pipeline: feeders waiting for their turn are never missed or left locked",
 "In nodes that make feeders wait for their turn, the turn counter is advanced exactly once per accepted batch and every change of it wakes all waiting feeders; waiting re-checks its condition and every exit releases the lock it holds. All nodes that precede a strictly ordered node, including one nested in a transformed pipeline, are switched to ordered delivery before any of them starts working.",
 "schedules programs","every schedule and every composition with a StrictOrd node",
 "No test uses StrictOrd or transformed pipelines.",
 "pipeline/strictordnode.go pipeline/lparnode.go pipeline/pipeline.go pipeline/transformnode.go",[("sync.Cond around the turn counter","pipeline/strictordnode.go"),("scan for strictly ordered nodes before Begin","pipeline/pipeline.go")],["termination of Run"])
p("C25","pipeline: the first error sticks, cancels the pipeline and is reported",
 "SetErr stores the error only if none was stored before and reports whether it did; only then, and after storing it, it cancels the pipeline, if it is running. Err returns the stored error, all accesses are synchronised, and an error reported by the source during a run ends up as the pipeline's error unless there already is one.",
 "schedules histories inputs","every interleaving of SetErr, Err and a running pipeline",
 "No test sets an error.",
 "pipeline/pipeline.go",[("error value guarded by a mutex","pipeline/pipeline.go")],["SetErr, Err"])
p("C26","pipeline: sources deliver every element once, in order, with an honest count",
 "Each source delivers consecutive batches of at most the requested size whose concatenation is the underlying data, in order and complete; the reported count equals the length of the batch delivered and is 0 only when no data is left (or the context is done). Batches stay valid after later fetches.",
 "inputs histories","every data length and every sequence of requested sizes, every point of cancellation for channel sources",
 "The tests read one word stream through a scanner; boundary sizes and channel sources are not exercised.",
 "pipeline/source.go",[("Fetch and Data of each source","pipeline/source.go")],["Fetch, Data, Prepare"])
p("C27","pipeline: batches are numbered consecutively and sized as configured",
 "A run fetches batches until the source reports none is left, feeds each of them exactly once to the first node with sequence numbers 0, 1, 2, ..., and requests sizes as documented: for a known total size the size divided by the number of batches, rounded up and at least 1; otherwise starting with the batch increment, growing by it every time, and never exceeding the maximum batch size, with documented defaults for values below 1.",
 "inputs","every data size, batch count and batch size setting",
 "One configuration is used by the word-count test.",
 "pipeline/pipeline.go",[("fetch loops","pipeline/pipeline.go")],["Fetch arguments, sequence numbers seen by receivers"])
p("C28","pipeline: Limit passes exactly the first n elements and Skip drops exactly those",
 "In encounter order Limit passes exactly the first n elements (all of them if n is negative) and Skip passes everything but the first n (and for negative n nothing, setting an error), whatever the batch boundaries; batches that become empty are still forwarded. The expected data size passed to later filters is adjusted accordingly, and an unknown size stays unknown unless it becomes 0.",
 "inputs histories","every sequence of batch sizes, every n and every known or unknown total size",
 "There is no test of Limit or Skip.",
 "pipeline/filters.go",[("count of elements seen so far","pipeline/filters.go")],["data passed to later filters"])
p("C29","pipeline: Every, NotEvery, Some and NotAny compute their quantifier",
 "After a run, the result of Every, NotEvery, Some or NotAny is the stated quantifier over the predicate on all batches the filter saw, in sequential, ordered and parallel nodes alike, without data races; the predicate is called once per batch, the batch is passed on unchanged, and the pipeline is cancelled by the filter only when asked for and only once the result is decided.",
 "schedules inputs programs","every predicate, sequence of batches, node kind and schedule",
 "There is no test of these filters.",
 "pipeline/filters.go",[("atomic flag for parallel nodes","pipeline/filters.go")],["result pointer after Run"])
p("C30","pipeline: Append, Count, Receive and Finalize do what they state",
 "Append adds all elements of every batch to its result and Count stores the total number of elements, in every node kind and without data races; both pass each batch on unchanged. Receive, Finalize, ReceiveAndFinalize and Identity contribute exactly the given functions, and composing filters calls each filter once, in order, keeping all non-nil receivers and finalizers in order.",
 "schedules inputs programs","every sequence of batches, node kind and schedule",
 "There is no direct test of these filters.",
 "pipeline/filters.go pipeline/filter.go",[("mutex or atomic counter for parallel nodes","pipeline/filters.go")],["result pointer after Run"])
p("C31","pipeline: merging nodes keeps all filters, their order and their guarantees",
 "When adjacent nodes are merged, when adding or when starting, the merged node has exactly the filters, receivers and finalizers of both, the earlier node's first, and gives at least the stronger ordering guarantee of the two; nodes of incompatible kinds are never merged, and a node is dropped from the pipeline only if it was merged or asked not to be kept.",
 "programs inputs","every sequence of nodes added to a pipeline",
 "No test adds more than a few nodes.",
 "pipeline/seqnode.go pipeline/parnode.go pipeline/lparnode.go pipeline/strictordnode.go pipeline/transformnode.go pipeline/pipeline.go",[("TryMerge","pipeline/seqnode.go"),("Add","pipeline/pipeline.go")],["receivers called for a batch"])
p("C32","pipeline: transforms apply their function once per batch inside one joint run",
 "A transformed pipeline receives, for each batch that reaches the transforming node, exactly one batch with the same sequence number, being the function applied once to that sequence number and data. Source and transformed pipelines share one context, error value and run; the nodes of the transformed pipeline are begun, merged, and ended exactly once with those of the source pipeline, and each transform variant applies the delivery guarantee of its name.",
 "programs inputs schedules","every pair of types, function and composition of nodes after the transform",
 "No test uses a transform.",
 "pipeline/transformnode.go",[("node that feeds the next pipeline","pipeline/transformnode.go")],["receivers of the transformed pipeline"])
p("C33","pipeline: LimitedPar processes at most a fixed number of batches at a time",
 "A LimitedPar node never has more receivers running at the same time than its limit of worker goroutines, which is the number of CPUs and at least one, and it does use that many workers.",
 "schedules configurations","every schedule and number of batches",
 "No test uses LimitedPar.",
 "pipeline/lparnode.go",[("a fixed pool of workers reading one channel","pipeline/lparnode.go")],["concurrent receiver calls"])
p("C34","psort: the complete result of Sort and StableSort is sorted",
 "For every input and every strict weak order, the data is completely sorted when Sort or StableSort returns.",
 "inputs","every length, content and strict weak order",
 "A sample of random integer arrays is sorted.",
 "psort/quicksort.go psort/mergesort.go",[("recursive partitioning and merging","psort/quicksort.go")],["data after Sort"])
p("C35","pipeline: no deadlock for arbitrary compositions of nodes",
 "A run of any composition of the provided nodes terminates whenever the source ends and all receivers and finalizers return.",
 "programs schedules","every composition of nodes and every schedule",
 "Few compositions are run.",
 "pipeline/pipeline.go",[("channels and condition variables of the nodes","pipeline/seqnode.go")],["termination of Run"])
p("C36","the library never panics by itself: indices, slices, sizes and divisors in range",
 "Apart from the panics it documents (invalid sizes, misuse of a pipeline) and those of user functions, the library does not panic: every index and slice bound is in range, every allocation size is not negative and no divisor is zero, whatever the nodes of a pipeline, the ranges, the batch sizes and the data are.",
 "inputs programs","every range, number of batches, batch size, composition of nodes and length of data",
 "Empty pipelines, removed nodes, empty shards, one-element data and odd splits are not combined by the tests.",
 "pipeline/pipeline.go pipeline/source.go pipeline/lparnode.go pipeline/strictordnode.go psort/mergesort.go psort/quicksort.go gsync/map.go internal/internal.go parallel/parallel.go speculative/speculative.go",[("index and slice expressions of the node list","pipeline/pipeline.go"),("splits of the data","psort/mergesort.go"),("batch size computation","internal/internal.go")],["absence of run-time panics"])
p("C37","pipeline: a run has its own context, ends it, and notifies when it starts",
 "Run executes the pipeline with a cancellable context of its own that is alive when the run starts and cancelled whenever Run returns or panics; RunWithContext uses exactly the context and cancel function passed; Context and Cancel give what the run was started with. Every function added with Notify is started exactly once, in a goroutine of its own, when the run starts and before any data is prepared, unless the pipeline already failed. Nothing but an error, Cancel, or a filter cancels a run.",
 "histories programs","every pipeline, every list of notifiers, every way a run may end",
 "No test looks at the context after a run that panics, or counts notifiers.",
 "pipeline/pipeline.go",[("Run, RunWithContext","pipeline/pipeline.go"),("Notify, Context, Cancel","pipeline/pipeline.go")],["Context().Done()","calls of notifiers"])
p("C38","the library's own loops and recursions terminate",
 "Every loop of the library ends after finitely many iterations for every input, as long as user functions return, comparisons are consistent and sources run out of data; recursive calls of the forking functions and of the sorts are for strictly smaller ranges.",
 "inputs","every range, batch number, data length and content (including many equal elements), and every composition of nodes",
 "The inputs for which a search, partition or merge loop makes no progress are rare (ties, empty halves) and a test that hangs is hard to tell from a slow one.",
 "psort/quicksort.go psort/mergesort.go pipeline/pipeline.go parallel/parallel.go speculative/speculative.go internal/internal.go",[("partition loops","psort/quicksort.go"),("binary searches and merge loop","psort/mergesort.go"),("loops over nodes","pipeline/pipeline.go")],["termination of calls"])
p("C39","parallel, speculative: the parts of one call run concurrently",
 "The functions given to one call, and the batches of one range, each run in their own goroutine, and none has to finish (or return a certain result) before another one is started, so they may wait for each other. A range with at least two elements is divided into at least two batches unless a single batch is asked for.",
 "programs","every number of functions, every range and batch number, and every call pattern of functions that block, panic or return decisive results",
 "Results are the same when everything runs in sequence, so tests that check results pass; only functions that wait for each other for certain list lengths or range sizes show it, as a deadlock.",
 "parallel/parallel.go speculative/speculative.go internal/internal.go",[("Each function is invoked in its own goroutine","parallel/parallel.go"),("forks of every function","speculative/speculative.go"),("number of batches","internal/internal.go")],["progress of functions of one call that communicate","goroutines in which the functions run"])
p("C40","pipeline: parallel nodes process different batches concurrently",
 "In Par, LimitedPar and in the parallel phase of the other nodes that allow it, each batch is taken through the receivers in a goroutine that neither holds a lock nor waits for another batch first, so receivers for different batches run at the same time (up to the limit) and may wait for each other. Feeding a batch to Par never waits.",
 "schedules programs","every number of batches, every limit, every schedule and every receiver, including those that wait for receivers of other batches",
 "Results are the same when the batches run one after the other; only receivers that wait for each other show it, as a deadlock under some schedules.",
 "pipeline/parnode.go pipeline/lparnode.go pipeline/pipeline.go",[("Par creates a parallel node","pipeline/parnode.go"),("LimitedPar","pipeline/lparnode.go")],["progress of receivers that communicate","goroutines in which receivers run"])
p("C41","no lock of the library is held while user code runs",
 "Functions, receivers, filters, finalizers, sources, predicates, cancel functions and methods supplied by users are called without any lock of the library being held, so they may call the library again (for example SetErr, Err, Cancel on the pipeline) and may block or panic without blocking others.",
 "programs schedules","every call of user code on every path, for all nodes and settings",
 "Tests have no user functions that call back into the pipeline or panic at each of the places where the library calls user code.",
 "pipeline/pipeline.go pipeline/lparnode.go pipeline/strictordnode.go pipeline/seqnode.go gsync/map.go",[("mutex of the error value","pipeline/pipeline.go"),("condition variables of the nodes","pipeline/strictordnode.go"),("limits of LimitedPar","pipeline/lparnode.go")],["locks held at calls of user code","progress of user code that calls the pipeline"])
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
