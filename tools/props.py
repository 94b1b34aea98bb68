#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run from /verif). The texts live here because JSONL is hard to edit."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None}})

PAR, SEQ, SPEC, MAP = "parallel/parallel.go", "sequential/sequential.go", "speculative/speculative.go", "sync/map.go"
INT = "internal/internal.go"
PIPE, SRC, FLT, FILT = "pipeline/pipeline.go", "pipeline/source.go", "pipeline/filters.go", "pipeline/filter.go"
SEQN, PARN, LPARN, STRN = "pipeline/seqnode.go", "pipeline/parnode.go", "pipeline/lparnode.go", "pipeline/strictordnode.go"
NODES = [SEQN, PARN, LPARN, STRN]
SORT, QS, MS = "sort/sort.go", "sort/quicksort.go", "sort/mergesort.go"

# ---------------------------------------------------------------- parallel / speculative / sequential
prop("D01", "Range functions split an interval into an exact partition",
     "For every low <= high (with high-low representable as an int) and n >= 0, every Range function of the parallel, sequential and speculative packages (when no batch decides early) invokes its range function on sub-intervals that together cover [low, high) exactly once, without gap or overlap, with no empty batch unless the interval itself is empty (which gets exactly one empty batch), and with at most n batches when n > 0 (exactly n batches of the same size when n divides high-low, one batch for each element when n >= high-low). If high < low or n < 0 it panics without invoking the range function.",
     ["inputs", "configurations", "schedules"], "all low, high, n including extreme values and n = 0 under every GOMAXPROCS, for all Range functions of the three packages",
     "The examples use three tiny ranges; rounding in the batch arithmetic shows only for particular (size, n) pairs and in particular copies of the recursion.",
     [INT, PAR, SEQ, SPEC], [("batch count normalisation", "internal/internal.go: ComputeNofBatches"), ("binary splitting recursion", "parallel/parallel.go: Range and each RangeReduce*")],
     ["the (low, high) pairs passed to the user's range function"])
prop("D02", "Parallel calls run every function exactly once and join them before exit",
     "Every function of package parallel invokes each function it is given (each batch, for ranges) exactly once, even when some of them panic, and gives control back to its caller, by returning or by panicking, only after all of them have terminated. Everything the functions wrote is then visible to the caller without further synchronization.",
     ["schedules", "inputs", "fault_sequences"], "all schedules, argument counts and subsets of panicking functions, for all functions of package parallel",
     "Tests do not use goroutine timing or panics; a missing join is invisible when the functions are fast.",
     [PAR, INT], [("WaitGroup per fork", "parallel/parallel.go: every function"), ("deferred recover + Done", "parallel/parallel.go")],
     ["invocations of user functions and the moment the call exits"])
prop("D03", "Parallel reductions equal the left-to-right fold",
     "For every join that is associative (commutative or not), each Reduce and RangeReduce function of package parallel returns exactly the left-to-right combination of all partial results, joining each partial result exactly once; the Sum, Product and And/Or functions return the sum, product, concatenation, conjunction or disjunction of all results. Called with no functions at all, the variadic ones return the neutral element (0, 1, \"\", true, false).",
     ["inputs", "schedules"], "all argument counts, result values, ranges, batch counts and schedules, for all typed variants",
     "Only RangeReduce, RangeReduceIntSum and RangeReduceFloat64Sum are exercised, on one input each.",
     [PAR], [("divide and join tree", "parallel/parallel.go: Reduce*, RangeReduce*"), ("neutral elements", "parallel/parallel.go: case 0")],
     ["return values; arguments of join"])
prop("D04", "The left-most panic of a parallel call reaches the caller",
     "If any functions passed to a call of package parallel panic, that call panics in the calling goroutine, and never crashes the process from another goroutine, with a value that carries the message of the left-most panicking function and of no other; a panic with an error value arrives as an error, and a run-time error arrives as a runtime.Error. If no function panics the call does not panic.",
     ["inputs", "schedules", "fault_sequences"], "all subsets of panicking functions, kinds of panic values and completion orders",
     "No test panics inside a parallel call.",
     [PAR, INT], [("recover in each spawned goroutine, rethrow after join", "parallel/parallel.go"), ("stack trace wrapping that keeps the error kind", "internal/internal.go: WrapPanic")],
     ["the value recovered by the caller"])
prop("D05", "All functions of one call can be in progress at the same time",
     "All functions given to one call of package parallel or speculative (all batches of one Range call) can be in progress simultaneously: functions that block until every other one has started never deadlock, whatever GOMAXPROCS is.",
     ["schedules", "configurations", "inputs"], "all functions of parallel and speculative, numbers of functions/batches and GOMAXPROCS values",
     "No test has functions that depend on each other's progress, so silently sequential execution passes all of them.",
     [PAR, SPEC], [("every right half runs in its own goroutine", "parallel/parallel.go, speculative/speculative.go")],
     ["start events of user functions"])
prop("S01", "Speculative calls return the left-most decisive outcome",
     "For every schedule, a call of package speculative has the outcome of the left-most function (or batch) that decides or panics: its value with true for Reduce and RangeReduce, true for Do, Or, Range and RangeOr, false for And and RangeAnd, or its panic. If no function decides or panics the call waits for all of them and returns the left-to-right combination of all values with the second result that the final join reports (false for Do, Or, Range and RangeOr, true for And and RangeAnd), and a join that decides or panics on the way determines the outcome in the same way.",
     ["schedules", "inputs", "fault_sequences"], "all placements of deciding and panicking functions and joins, values, argument counts and completion orders",
     "The speculative package has no tests at all.",
     [SPEC, INT], [("left result is inspected before the right is awaited", "speculative/speculative.go: every function")],
     ["return values and recovered panics"])
prop("S02", "Speculative calls do not wait for work to the right of the decision",
     "When a function of a speculative call decides and no function to its left decides, panics or blocks, the call returns even if every function to its right is blocked. Functions still running after the call returned can finish, decide or panic at any later time without crashing the process, altering the returned result or racing with the caller.",
     ["schedules", "inputs", "fault_sequences"], "all positions of the deciding function, argument counts, batch counts and late behaviours of the losing functions",
     "The speculative package has no tests; waiting for losers only costs time, and their late panics need a particular schedule.",
     [SPEC], [("early return before WaitGroup.Wait", "speculative/speculative.go: every function"), ("recover in abandoned goroutines", "speculative/speculative.go")],
     ["return of the call while other functions are held blocked"])
prop("Q01", "Sequential functions are a faithful sequential reference",
     "Every function of package sequential runs the functions it is given one at a time, in left-to-right order, in the calling goroutine (And and Or may stop at the first deciding one), and returns the same result as its counterpart in package parallel for the same arguments whenever join is associative. A panic of a function reaches the caller as it is, and no function to its right runs.",
     ["inputs"], "all functions of package sequential, argument counts, ranges, batch counts and values",
     "The sequential package has no tests.",
     [SEQ, INT], [("plain loops and recursion", "sequential/sequential.go")],
     ["order and goroutine of invocations; return values"])
# ---------------------------------------------------------------- sort
prop("O01", "Sort yields an ordered permutation of its input",
     "For every collection, of any length, value pattern and initial order, Sort leaves exactly the original elements in non-decreasing order according to Less, for user-defined sorters and for IntSlice, StringSlice and Float64Slice, whose NaN values come first as in the standard library.",
     ["inputs", "schedules"], "all lengths (around the sequential cutoff and beyond), value patterns, element types and schedules",
     "Tests sort one large random input per type: no duplicates-heavy, pre-sorted, boundary-size or NaN inputs, and they never check that the result is a permutation.",
     [QS, SORT], [("pivot selection and partition", "sort/quicksort.go: Sort"), ("IsSorted shortcut", "sort/quicksort.go: Sort")],
     ["the collection after the call"])
prop("O02", "StableSort yields the stable ordered permutation of its input",
     "For every collection, StableSort leaves exactly the original elements in non-decreasing order according to Less, with equal elements in their original relative order if SequentialSort is stable. This holds for user-defined sorters and for IntSlice, StringSlice and Float64Slice (NaN values first).",
     ["inputs", "schedules"], "all lengths, tie structures, initial orders, element types and schedules",
     "One random input with about two elements per key is tested; long runs of ties across merge splits, pre-sorted and boundary-size inputs are not.",
     [MS, SORT], [("parallel merge with asymmetric binary searches", "sort/mergesort.go: pMerge"), ("ping-pong between data and temp", "sort/mergesort.go: StableSort")],
     ["the collection after the call"])
prop("O03", "IsSorted is exact",
     "IsSorted, IntsAreSorted, Float64sAreSorted and StringsAreSorted return true if and only if no element is less than its predecessor, for every length and every position of an inversion, on every schedule.",
     ["inputs", "schedules"], "all lengths, all inversion positions, ties, NaN",
     "Tests call it only on large sorted slices, so it may as well return true always.",
     [SORT], [("serial prefix, then parallel halves", "sort/sort.go: IsSorted")],
     ["return value"])
prop("O04", "Sorting accesses its collection in bounds, conflict-free, only during the call",
     "Sort, StableSort and IsSorted call the collection's methods only with indices and ranges inside the collection and only until they return; methods called concurrently never conflict on an element (no element is written by one call while another concurrent call reads or writes it). IsSorted never modifies the collection.",
     ["schedules", "inputs"], "all schedules, inputs (sorted and unsorted) and lengths, with user-defined collections",
     "Tests run without the race detector and stop looking once the call returns.",
     [SORT, QS, MS], [("disjoint index ranges per goroutine", "sort/quicksort.go, sort/mergesort.go"), ("join of goroutines before return", "sort/sort.go: IsSorted")],
     ["every call of Less, Swap, SequentialSort, NewTemp, Assign"])
prop("O05", "Sorting cost stays near n log n on structured inputs",
     "On random, sorted, reversed, nearly sorted, organ-pipe, saw-tooth, few-valued and all-equal inputs, Sort, and on every input StableSort, perform O(n log n) comparisons of their own and hand to SequentialSort disjoint ranges that total at most n elements; IsSorted makes at most about n comparisons, and already sorted input makes Sort perform no swap.",
     ["inputs", "schedules"], "lengths up to some hundred thousand, the listed patterns, all schedules",
     "Tests sort random data only and do not count operations; quadratic behaviour on ties or presorted data passes them.",
     [QS, MS, SORT], [("pseudo-median of nine and two-sided partition that stops on equal elements", "sort/quicksort.go"), ("merge splits at the median of the longer run", "sort/mergesort.go")],
     ["counts of calls of the collection's methods"])
prop("O06", "A panic in a collection's method reaches the caller of the sort function",
     "If methods of a collection panic during Sort, StableSort or IsSorted, whichever goroutine they run in, that call panics in the goroutine of its caller with a value that carries the message of one of these panics (an error arrives as an error, a run-time error as a runtime.Error) and never crashes the process; all methods of the collection have ended by then and none is called afterwards, and Sort and IsSorted have neither lost nor duplicated an element.",
     ["schedules", "inputs", "fault points"], "every method (Less, Swap, SequentialSort, NewTemp, Assign and the function it returns), every call of it, all inputs and schedules",
     "No test uses a collection that panics.",
     [SORT, QS, MS], [("goroutines started by way of package parallel, which rethrows panics after the join", "sort/sort.go, sort/quicksort.go, sort/mergesort.go")],
     ["every call of Less, Swap, SequentialSort, NewTemp, Assign", "the value recovered by the caller"])
# ---------------------------------------------------------------- sync.Map
prop("M01", "Per-key operations of the parallel map are linearizable",
     "Load, LoadOrStore, LoadOrCompute, Delete, DeleteOrStore, DeleteOrCompute, Modify, and accesses through a locked Split behave, for any set of concurrent callers and any mixture of keys and hash collisions, as if each took effect atomically on one key-value table at some point between its call and its return, including all their return values.",
     ["schedules", "histories", "inputs"], "all concurrent histories over any keys, splits and operations",
     "The map has no tests of its own; the word-count example only calls Modify.",
     [MAP], [("one lock per split, re-check after lock upgrade", "sync/map.go: LoadOrStore, LoadOrCompute")],
     ["call and return of map operations"], [("Split.Map", "the entries of one split", "sync/map.go: Split")])
prop("M02", "Map callbacks run as often as documented and nothing is lost",
     "Under any concurrency Modify invokes its modifier exactly once with the current value and stores or deletes exactly what it returns, LoadOrCompute and DeleteOrCompute invoke their function zero times or once and store its value only when they report so, and no update, insertion or deletion is lost or applied twice. While LoadOrCompute computes, no lock of the map is held, so the function may itself operate on any key of the map.",
     ["schedules", "inputs"], "all thread counts, key distributions and callbacks, including re-entrant computations",
     "Only the word-count example calls Modify, from one pattern; lost updates and duplicate computations need particular interleavings.",
     [MAP], [("compute outside, store inside the lock", "sync/map.go: LoadOrCompute"), ("callback under the split lock", "sync/map.go: Modify, DeleteOrCompute")],
     ["callback invocations, conservation of stored and deleted tokens"])
prop("M03", "Map traversals visit every stable entry exactly once",
     "Range, ParallelRange and SpeculativeRange call f exactly once for every key that stays in the map during the call, at most once for any other key, and only with values that the key had during the call; without a false result they return only after all these calls have finished. After f returns false, Range makes no further call and SpeculativeRange returns without waiting for callbacks that are still running in later parts of the map.",
     ["schedules", "histories", "inputs"], "all map contents, split counts, concurrent updates and points where f returns false",
     "No test traverses a map except sequentially in the word-count example.",
     [MAP, SPEC], [("per split iteration under lock", "sync/map.go: srange, parallelRange"), ("early stop through the speculative package", "sync/map.go: SpeculativeRange")],
     ["invocations of f"])
prop("M04", "Map callbacks that run under a split lock have exclusive access",
     "While a traversal, predicate or reduction callback, a modifier, or the function of DeleteOrCompute runs on a split, or user code holds the lock of a Split, no other operation reads or writes that split's entries; correctly used maps are free of data races. Callbacks may write freely into the split map they are given.",
     ["schedules", "histories"], "all combinations of concurrent operations and traversals",
     "Needs concurrent traversals and updates under a race detector; no test does that.",
     [MAP], [("exclusive lock in every callback path", "sync/map.go: srange, predicate, reduce*, Modify")],
     ["unsynchronized per-split state touched by callbacks"])
prop("M05", "Map predicates and reductions cover every split exactly once",
     "On a quiescent map, the sequential and parallel reductions and, as long as no split decides, the And/Or and speculative variants pass every split to the callback exactly once and return the combination of all partial results in split order; the sequential And/Or stop at the first deciding split, and no split is ever passed twice. Speculative variants return the left-most decision without waiting for splits to its right, parallel variants finish all callbacks before returning and rethrow the left-most panic, and all variants of the same reduction agree.",
     ["inputs", "schedules", "fault_sequences"], "all split counts, contents, joins, deciding or panicking splits and schedules",
     "None of the 28 aggregate functions has a test.",
     [MAP], [("recursive halving over the splits", "sync/map.go: ParallelReduce*, SpeculativeReduce*")],
     ["callback arguments and results"])
prop("M06", "A panic in a map callback leaves the map intact and usable",
     "If a callback passed to any method of the map panics and the caller recovers, all split locks are released once the call (and goroutines it abandoned) is done, the entries not touched by the callback are unchanged, and all later operations work.",
     ["fault_sequences", "inputs"], "all methods that take callbacks and all points where the callback may panic",
     "No test panics in a callback.",
     [MAP], [("deferred unlock", "sync/map.go")],
     ["lock state and contents after recovery"])
prop("M07", "Keys are placed consistently and splits are independent",
     "A map has exactly the number of splits it was created with (GOMAXPROCS if size <= 0); Split always returns the same split for equal keys, all operations on a key act on the entries of exactly that split, and equal hashes never confuse different keys. Holding the lock of one split never blocks operations on keys of other splits.",
     ["inputs", "configurations", "schedules"], "all sizes, hash functions (constant, extreme, colliding) and keys",
     "The example uses one hash function and looks at totals only.",
     [MAP], [("hash modulo number of splits", "sync/map.go: Split")],
     ["Split results and entries; progress of operations while a lock is held"])
# ---------------------------------------------------------------- pipeline
prop("L01", "Every batch passes every filter exactly once, in pipeline order",
     "In a pipeline run that is not cancelled and has no error, each element of the source is received exactly once by each receiver of each node, in the order in which nodes and filters were added, each receiver seeing what the previous one returned and the sequence number of the batch; every receiver sees all sequence numbers 0,1,2,... up to the last batch, including batches that became empty. This holds for every composition of node kinds, including nodes whose filters have no receivers or which drop out or get merged.",
     ["inputs", "programs", "schedules", "configurations"], "all pipelines built from the offered nodes, filters and sources, all batch sizes and schedules",
     "One two-node word-count pipeline is tested.",
     [PIPE, FILT] + NODES, [("FeedForward by node index", "pipeline/pipeline.go: FeedForward"), ("dropping and merging of nodes", "pipeline/pipeline.go: RunWithContext")],
     ["calls of receivers"])
prop("L02", "Ordered nodes receive batches in encounter order",
     "Receivers in Ord and StrictOrd nodes are called with sequence numbers 0,1,2,... in this order and therefore see the source's elements in encounter order, whatever nodes precede them and however slow or reordered earlier batches are.",
     ["schedules", "programs", "inputs"], "all compositions that contain ordered nodes, and all completion orders of preceding parallel and sequential nodes",
     "The only test has no ordered node.",
     [SEQN, STRN, LPARN, PIPE], [("stash of early batches", "pipeline/seqnode.go"), ("blocking until one's turn", "pipeline/strictordnode.go, pipeline/lparnode.go")],
     ["sequence numbers seen by receivers"], [("run", "next sequence number to process", "pipeline/seqnode.go, strictordnode.go, lparnode.go")])
prop("L03", "Node kinds keep their concurrency promises",
     "A receiver in a Seq, Ord or StrictOrd node never runs concurrently with itself and may use plain unsynchronized state, a receiver in a LimitedPar node runs at most limit times concurrently (GOMAXPROCS at pipeline construction if limit <= 0), and batches of Par nodes can all be in progress at once, while those of a LimitedPar node can be in progress limit at a time. The node kind that a filter is told never promises more than that.",
     ["schedules", "programs", "configurations"], "all compositions and schedules",
     "Concurrency degrees are not observed by any test.",
     NODES, [("one goroutine per sequential node, limit goroutines per limited node, one per batch in parallel nodes", "pipeline/*node.go")],
     ["number of simultaneously running calls of one receiver"])
prop("L04", "Finalizers run exactly once, after all data, before Run returns",
     "In a pipeline run without error each finalizer is called exactly once, after its own node and all earlier nodes have received their last batch, in node and filter order, and Run returns only after all receivers and finalizers have finished; finalizers and the caller see all writes of the receivers.",
     ["schedules", "programs"], "all compositions, kinds and schedules, runs that end normally or by cancellation",
     "The only pipeline test uses no finalizer.",
     NODES + [PIPE, FLT], [("End waits for the node's goroutines", "pipeline/*node.go: End")],
     ["calls of finalizers, return of Run"])
prop("L05", "Pipelines terminate",
     "Every pipeline over a finite source, whatever its composition of nodes, batch sizes, filters and schedule, runs to completion: no combination of ordered, strictly ordered, sequential, limited and unlimited parallel nodes deadlocks.",
     ["schedules", "programs", "configurations"], "all compositions, limits, batch counts, GOMAXPROCS values and schedules",
     "One two-node pipeline is tested; deadlocks need ordered nodes behind reordering ones.",
     NODES + [PIPE], [("condition variables and unbuffered channels", "pipeline/*node.go")],
     ["return of Run; state of all goroutines"])
prop("L06", "Cancellation and errors stop a pipeline promptly and consistently",
     "After Cancel, cancellation of the context or SetErr at any moment, Run returns, even from an endless source, having fetched only a bounded number of further batches; no receiver sees a batch twice, ordered receivers have seen a gap-free prefix of the batches in order, and, when there is no error, no receiver or finalizer runs after Run returned. Cancellation alone leaves Err nil.",
     ["schedules", "fault_sequences", "programs"], "all points at which a receiver, finalizer-less filter, outside goroutine or context may cancel, and all compositions",
     "No test cancels a pipeline or sets an error.",
     [PIPE, FLT] + NODES, [("select on ctx.Done in every node", "pipeline/*node.go"), ("broadcast on cancellation", "pipeline/strictordnode.go, lparnode.go")],
     ["return of Run, fetches, receiver calls"])
prop("L07", "Sources deliver their content once, in order, in batches of the promised size",
     "For slices, arrays, strings, channels, SingletonChan, Scanner, BytesScanner and Func sources the concatenation of the batches is exactly the content of the source; sources of known size s yield at most NofBatches batches of equal size except the last, others yield batches that start at batchInc, grow by at most batchInc and never exceed maxBatchSize. Batches are independent: modifying or appending to one never affects another, and later reads of the underlying input do not affect a batch already delivered.",
     ["inputs", "configurations"], "all source kinds, lengths (including empty), NofBatches and SetVariableBatchSize settings",
     "Only a Scanner with default settings is tested.",
     [SRC, PIPE], [("Fetch/Data protocol", "pipeline/source.go"), ("batch size computation", "pipeline/pipeline.go: RunWithContext, nextBatchSize")],
     ["batches seen by the first node"])
prop("L08", "Every, NotEvery, Some and NotAny compute their quantifier",
     "After Run, the result of an Every, NotEvery, Some or NotAny filter is the corresponding quantification of the predicate over all batches the filter received, in every kind of node; with cancelWhenKnown the pipeline is cancelled as soon as a deciding batch is seen and the result is the decided value, otherwise all batches are seen.",
     ["inputs", "schedules", "programs"], "all predicates, batch structures, node kinds and schedules",
     "None of these filters is tested.",
     [FLT], [("atomic flag and finalizer for parallel nodes, direct store otherwise", "pipeline/filters.go")],
     ["result variables after Run"])
prop("L09", "Slice and Count collect exactly what passes through",
     "After a run without cancellation, a Slice filter has appended every element it received exactly once to the result, keeping its previous content, in encounter order in ordered nodes and in some order of whole batches otherwise, and Count has set its result to the number of elements that reached it, in every kind of node and for known and unknown source sizes. A Slice filter whose result is not a pointer to a slice sets an error instead.",
     ["inputs", "schedules", "programs"], "all sources, node kinds, batch structures, schedules and preceding filters",
     "None of these filters is tested.",
     [FLT], [("mutex in parallel nodes, direct append otherwise", "pipeline/filters.go: Slice"), ("size known at start or atomic counter", "pipeline/filters.go: Count")],
     ["result variables after Run"])
prop("L10", "Limit and Skip cut the stream at exact element positions",
     "Without cancellation, Limit(n) passes exactly the first min(n, size) elements (all if n < 0), and Skip(n) exactly the elements after the first n, in encounter order, alone and in any combination and position, for known and unknown sizes; Skip with n < 0 passes nothing and sets an error. With cancelWhenReached, Limit never lets more than n elements through and cancels the pipeline once n elements have been seen.",
     ["inputs", "programs", "schedules"], "all n, source sizes and kinds, batch boundaries, combinations and positions in a pipeline",
     "None of these filters is tested.",
     [FLT], [("running element count in an ordered node", "pipeline/filters.go: Limit, Skip")],
     ["elements seen by the filters behind"])
prop("L11", "The expected data size announced to filters is exact or unknown",
     "For sources and preceding filters of this package, the data size a filter is told when the pipeline starts is either negative or exactly the total number of elements its receiver is going to get in a run that is not cancelled; it is never negative when the source's size is known and no filter made it unknown.",
     ["inputs", "programs"], "all sources with known and unknown sizes and all combinations of the package's filters",
     "No test looks at announced sizes.",
     [PIPE, FLT, FILT, SRC], [("dataSize threaded through Begin", "pipeline/pipeline.go: RunWithContext"), ("size updates in Limit and Skip", "pipeline/filters.go")],
     ["*dataSize seen by filters versus elements received"])
prop("L12", "The first pipeline error wins and is reported",
     "Of any number of SetErr calls, made concurrently from receivers, filters or other goroutines during a run, exactly one returns true, it cancels the pipeline's context, and Err returns its error from then on and after Run, also for whoever observes that cancellation; an error of the source is reported by Err after Run unless another error was set before, and Err and SetErr may be called at any time during a run without data races.",
     ["schedules", "fault_sequences"], "all numbers and timings of concurrent SetErr and Err calls and source errors",
     "No test sets or reads an error.",
     [PIPE, SRC], [("error field under a mutex", "pipeline/pipeline.go: Err, SetErr")],
     ["return values of SetErr and Err"], [("err", "first error of the pipeline", "pipeline/pipeline.go: Pipeline")])
prop("L13", "User-defined sources and nodes see the documented protocol",
     "A user-defined Source is prepared once with the run's context before any fetch, fetched from one goroutine at a time with positive sizes, and never fetched again after it returned 0; its Data is read after each successful fetch and before the next. A user-defined Node gets Begin exactly once before any Feed, exactly one Feed per batch with that batch's sequence number and an index with which FeedForward reaches the next node, and End exactly once after the last Feed has returned and all earlier nodes have ended, and neither Feed nor End if Begin returned false. A node for which the TryMerge of an earlier one returned true gets no further call.",
     ["programs", "schedules", "configurations"], "all positions of user-defined nodes among the package's nodes, all sources and schedules, runs without error",
     "No test defines a Source or Node.",
     [PIPE, FILT] + NODES, [("driver loop", "pipeline/pipeline.go: RunWithContext"), ("FeedForward", "pipeline/pipeline.go")],
     ["method calls on user-defined sources and nodes"])
# ---------------------------------------------------------------- cross-cutting
prop("R01", "Documented uses of the library are free of data races",
     "No schedule of any documented use of parallel, speculative, sequential, sort, sync and pipeline, alone or nested in one another, contains a data race: functions, receivers, sorters and callbacks that are themselves correct never race with library code, and values handed from one user function to another by the library are handed over with proper synchronization.",
     ["schedules", "programs"], "all schedules of mixed and nested uses of all packages",
     "The test suite does not run with the race detector and exercises one schedule per run.",
     [PAR, SPEC, MAP, SORT, QS, MS, PIPE] + NODES, [("WaitGroups, locks, channels and atomics throughout", "all packages")],
     ["race detector reports"])
prop("G01", "The library leaves no goroutine behind",
     "Once a call of parallel, sort, a parallel Map method or Pipeline.Run (completed, cancelled or failed) has returned or panicked and, for speculative calls and failed pipelines, the user functions still running have returned, every goroutine the library started for it terminates without any further action of the caller (who calls the cancel function given to RunWithContext, as documented).",
     ["schedules", "programs", "fault_sequences"], "all calls, pipelines, panics, cancellations and errors",
     "No test counts goroutines.",
     [PAR, SPEC, MAP, SORT, MS, PIPE] + NODES, [("join before return; context cancellation in Run", "parallel/parallel.go, pipeline/pipeline.go: Run")],
     ["goroutines with library frames after the call"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
