"""Workload sizes and reporting rules of the checks."""
ASSUMPTIONS = [
    "held on the executions listed, nothing more: schedules, inputs and fault points that no case produced are not covered",
    "the Go race detector sees every conflicting access pair that an observed execution leaves unordered",
]
PAR = ["internal", "parallel"]
CONFIG = {}
def prop(id, technique, rule, race=0, plain=0, trace=0, tplain=0, **kw):
    q = {k: n for k, n in (("race", race), ("plain", plain)) if n}
    t = {k: n for k, n in (("race", trace or race * 10), ("plain", tplain or plain * 10)) if n}
    CONFIG[id] = dict(technique=technique, rule=rule, quick=q, thorough=t, **kw)

prop("D01", "runtime monitoring: online partition checker on the batches the range functions receive",
     "a case is one Range function with 12 generated (low, high, n); distinct by function and the last interval; non-trivial if split into several batches, empty or invalid",
     plain=14000, race=1500, pkgs=["internal"])
prop("D02", "runtime monitoring: exactly-once/join monitors on every call, race detector for visibility",
     "a case is one function of package parallel with generated arguments, delays and panics; non-trivial with at least two functions or batches; distinct by all of these",
     race=24000, plain=24000, pkgs=PAR)
prop("D03", "runtime monitoring: reference fold over values that identify element and order, joins audited online",
     "a case is one Reduce/RangeReduce function with generated values and an associative, non-commutative join; distinct by function, values and delays",
     race=16000, plain=48000, pkgs=PAR)
prop("D04", "runtime monitoring: injected panics with markers, recovered values audited",
     "a case is one function of package parallel with a generated set of panicking functions; distinct by function, set, kinds and delays",
     race=18000, plain=42000, pkgs=PAR)
prop("D05", "runtime monitoring: rendezvous barriers in user functions with a whole-process deadlock detector",
     "a case is one call whose functions all wait for each other; non-trivial with at least two; distinct by function and arguments",
     race=4000, plain=40000, pkgs=PAR)
prop("S01", "runtime monitoring: sequential reference model of left-most decisions, injected delays and panics",
     "a case is one speculative function with a generated plan of deciding and panicking functions and joins; distinct by function, plan and delays",
     race=12000, plain=36000, pkgs=["speculative"])
prop("S02", "runtime monitoring: gates hold losing functions, deadlock detector, race detector on late behaviour",
     "a case is one speculative call in which everything right of the deciding function is blocked; non-trivial if something is; distinct by function, position, delays and late behaviour",
     race=18000, plain=36000, pkgs=["speculative"])
prop("Q01", "runtime monitoring: event trace (order, goroutine) against a model and the parallel counterpart",
     "a case is one function of package sequential compared with a model and its parallel counterpart; distinct by function, arguments and values",
     plain=48000, race=4000, pkgs=["sequential"])
SORT = ["sort"]
prop("O01", "runtime monitoring: tagged elements, permutation and order oracle after each run, race detector",
     "a case is one Sort of a generated input (20 patterns, 5 kinds of collections); non-trivial from the sequential cutoff on; distinct by kind, pattern, length and values",
     race=2400, plain=24000, pkgs=SORT)
prop("O02", "runtime monitoring: tagged elements compared with a stable reference sort, race detector",
     "a case is one StableSort of a generated input (20 patterns, 5 kinds of collections); non-trivial from the sequential cutoff on; distinct by kind, pattern, length and values",
     race=900, plain=9000, pkgs=SORT)
prop("O03", "runtime monitoring: exact oracle over planted inversions, race detector",
     "a case is one collection on which IsSorted is asked without and with single or several inversions at many positions; non-trivial from the sequential cutoff on; distinct by kind and contents",
     race=1400, plain=8000, pkgs=SORT)
prop("O04", "runtime monitoring: access monitor on the collection (bounds, conflicts, lifetime), race detector",
     "a case is one Sort, StableSort or IsSorted of a collection that watches its accesses; non-trivial from the sequential cutoff on; distinct by function, pattern and values",
     race=4500, plain=9000, pkgs=SORT)
prop("O05", "runtime monitoring: operation counters against n log n budgets",
     "a case is one Sort, StableSort or IsSorted of a counting collection; non-trivial from the sequential cutoff on; distinct by function, pattern and values",
     plain=9000, pkgs=SORT)
prop("O06", "runtime monitoring: injected panics in the collection's methods with markers, lifetime monitor, crash detector, race detector",
     "a case is one Sort, StableSort or IsSorted of a collection one of whose methods panics at some calls; non-trivial from the sequential cutoff on if the call ended by a panic; distinct by function, input, method, call and kind",
     race=2500, plain=9000, pkgs=SORT)
MAP = ["sync"]
prop("M01", "runtime monitoring: recorded histories checked for linearizability (porcupine), race detector",
     "a case is one concurrent history of single-key and locked-split operations; non-trivial if operations on the same key overlap in time; distinct by the planned operations and splits",
     race=4000, plain=16000, pkgs=MAP)
prop("M02", "runtime monitoring: token conservation audit and callback counters, nested operations with a deadlock detector, race detector",
     "a case is one concurrent workload that moves unique tokens into and out of a map; distinct by workload and seeds",
     race=2000, plain=6000, pkgs=MAP)
prop("M03", "runtime monitoring: traversal trace checked against version logs of concurrent writers, gates for held callbacks",
     "a case is one set of traversals during updates, or one traversal that f stops; non-trivial if the map is not empty; distinct by map, writers and stop point",
     race=1500, plain=6000, pkgs=MAP)
prop("M04", "runtime monitoring: overlap monitor and dirty-value oracle per split, race detector on unsynchronized per-split state",
     "a case is one mix of all callback-taking and plain operations on few splits; distinct by workload and seeds",
     race=3000, plain=5000, pkgs=MAP)
prop("M05", "runtime monitoring: reference model of visits, joins, decisions and panics per split; gates hold later splits",
     "a case is one aggregate method with a generated plan of deciding and panicking splits; non-trivial with at least two splits; distinct by method, splits, plan and delays",
     race=6000, plain=16000, pkgs=MAP)
prop("M06", "runtime monitoring: fault injection in callbacks, lock probes and content comparison afterwards, deadlock detector",
     "a case is a sequence of up to four calls whose callbacks panic; non-trivial if something panicked; distinct by methods, panic points and map",
     race=3000, plain=9000, pkgs=MAP)
prop("M07", "runtime monitoring: model-based comparison of map and split views with adversarial hashes, deadlock detector while a split is locked",
     "a case is one map size with adversarial keys and random operations through the map and through splits; distinct by size and final contents",
     race=1000, plain=9000, pkgs=MAP)
PIPE = ["pipeline"]
prop("L01", "runtime monitoring: per-batch trace of every receiver in generated pipelines, chained from stage to stage, race detector",
     "a case is one generated pipeline (source, batching, up to six nodes with up to three filters each, delays); non-trivial with at least two batches; distinct by pipeline, delays and reordering at the first receiver",
     race=4000, plain=12000, pkgs=PIPE)
prop("L02", "runtime monitoring: online order checker in ordered receivers behind reordering nodes, race detector",
     "a case is one generated pipeline with an ordered node behind a parallel one; non-trivial with at least two batches; distinct by pipeline, delays and observed reordering",
     race=3000, plain=12000, pkgs=PIPE)
prop("L03", "runtime monitoring: concurrency counters, unsynchronized state under the race detector, rendezvous with a deadlock detector",
     "a case is one generated pipeline, two thirds with batches that wait for each other in a parallel node; non-trivial with at least two batches; distinct by pipeline, delays and observed reordering",
     race=4000, plain=12000, pkgs=PIPE)
prop("L04", "runtime monitoring: finalizer and receiver trace, finalizers read all receiver state under the race detector",
     "a case is one generated pipeline with finalizers, one in four cancelled; non-trivial with a finalizer and two batches; distinct by pipeline, delays and observed reordering",
     race=4000, plain=12000, pkgs=PIPE)
prop("L05", "runtime monitoring: whole-process deadlock detector on generated pipelines with stalls at library statements",
     "a case is one generated pipeline that must run to completion; non-trivial with at least two batches; distinct by pipeline, delays and observed reordering",
     race=2000, plain=16000, pkgs=PIPE)
prop("L06", "runtime monitoring: fault injection (Cancel, context, SetErr at random points), trace checks and deadlock detector",
     "a case is one generated pipeline, half of them endless, stopped by a receiver, filter, fetch or outside goroutine; non-trivial if it was stopped before Run returned; distinct by pipeline, stop point and delays",
     race=2000, plain=8000, pkgs=PIPE)
prop("L07", "runtime monitoring: batches compared with the content and size rules, kept and re-read after hostile appends",
     "a case is one source with one node; non-trivial unless there is exactly one batch; distinct by source, sizes and settings",
     race=2000, plain=12000, pkgs=PIPE)
prop("L08", "runtime monitoring: predicate call log against the filter's result, context state observed behind the filter",
     "a case is one generated pipeline with one to three quantifier filters; non-trivial with at least one batch; distinct by pipeline, filters, predicate and delays",
     race=3000, plain=10000, pkgs=PIPE)
prop("L09", "runtime monitoring: collected results against the trace of what reached the filter, race detector",
     "a case is one generated pipeline with several Slice and Count filters; non-trivial with at least two batches; distinct by pipeline, delays and observed reordering",
     race=3000, plain=10000, pkgs=PIPE)
prop("L10", "runtime monitoring: trace of every receiver against a stream model of Limit and Skip",
     "a case is one generated pipeline with Limit and Skip nodes at random positions; non-trivial with at least one element; distinct by pipeline and delays",
     race=2000, plain=12000, pkgs=PIPE)
prop("L11", "runtime monitoring: announced sizes recorded when filters start, compared with what their receivers got",
     "a case is one generated pipeline with Limit, Skip and size-changing filters; non-trivial with at least one element; distinct by pipeline and delays",
     race=2000, plain=12000, pkgs=PIPE)
prop("L12", "runtime monitoring: competing SetErr calls and source faults injected, winners audited, race detector",
     "a case is one generated pipeline with injected source errors and SetErr calls; non-trivial if an error occurred; distinct by pipeline, faults and delays",
     race=6000, plain=16000, pkgs=PIPE)
prop("L13", "runtime monitoring: protocol automata in user-defined sources and nodes, race detector",
     "a case is one generated pipeline with a user-defined source and user-defined nodes; non-trivial with at least two batches; distinct by pipeline, delays and observed reordering",
     race=3000, plain=10000, pkgs=PIPE)
ALL = ["internal", "parallel", "speculative", "sequential", "sort", "sync", "pipeline"]
prop("R01", "runtime monitoring: race detector on nested computations that hand plain memory through the library, value oracle",
     "a case evaluates one to three generated task trees concurrently (26 constructs of all packages nested in one another) or is a workload of another check under the race detector; non-trivial with at least two library calls; distinct by tree or workload and case",
     race=5000, plain=6000, pkgs=ALL)
prop("G01", "runtime monitoring: census of all goroutines by their stacks once nothing can run any more",
     "a case is one workload of another check, or a pipeline that ends early or has an open source, followed by a census of all goroutines; distinct by workload",
     race=1500, plain=8000, pkgs=ALL)
