"""Planted bugs, second round: all packages."""
from plant import B
from bugs3 import demo as pdemo, INTS, PIPE, SRC, FLT, FILT, SEQN, PARN, LPARN, STRN

def demo(pkg, body, imports=(), decls=""):
    imports = ["github.com/exascience/pargo/" + pkg] + list(imports)
    return "package main\n\nimport (\n" + "".join('\t%s\n' % (i if '"' in i else '"%s"' % i) for i in sorted(imports)) + ")\n\nfunc main() {\n" + body + "}\n" + decls

PAR, SPEC, SEQ, INT = "parallel/parallel.go", "speculative/speculative.go", "sequential/sequential.go", "internal/internal.go"
QS, MS, SORT, MAP = "sort/quicksort.go", "sort/mergesort.go", "sort/sort.go", "sync/map.go"

B("d04-defer-rethrow", "D04", [(PAR, "func RangeOr(", "			wg.Add(1)\n			defer wg.Wait()\n", "			wg.Add(1)\n			defer func() {\n				wg.Wait()\n				if p != nil {\n					panic(p)\n				}\n			}()\n"),
   (PAR, "func RangeOr(", "			wg.Wait()\n			if p != nil {\n				panic(p)\n			}\n			return b0 || b1\n", "			wg.Wait()\n			return b0 || b1\n")],
  "a batch in the left half and a batch in the right half that both panic", "the panic of the right half replaces that of the left one",
  demo("parallel", '''	p := panics(func() {
		parallel.RangeOr(0, 4, 4, func(low, high int) bool {
			if low == 1 {
				panic("left")
			}
			if low == 3 {
				panic("right")
			}
			return false
		})
	})
	if s := fmt.Sprint(p); !strings.Contains(s, "left") || strings.HasPrefix(s, "right") {
		fail("panics with %.40s", s)
	}
''', ["fmt", "strings"]))

B("d04-zero-product", "D04", [(PAR, "func RangeReduceIntProduct(", "			left = recur(low, mid, half)\n			wg.Wait()\n", "			if left = recur(low, mid, half); left == 0 {\n				return 0\n			}\n			wg.Wait()\n")],
  "a left half with product 0 and a panic in the right half", "the panic is lost",
  demo("parallel", '''	p := panics(func() {
		parallel.RangeReduceIntProduct(0, 4, 4, func(low, high int) int {
			if low == 3 {
				panic("right")
			}
			return low
		})
	})
	if p == nil {
		fail("the panic is lost")
	}
'''))

B("m05-zero-product", "M05", [(MAP, "func (m *Map) ParallelReduceIntProduct(", "			left = recur(splits[:half])\n		}\n", "			left = recur(splits[:half])\n		}\n		if left == 0 {\n			return 0\n		}\n")],
  "a product of 0 in the left half of the splits and a panic in the right half", "the panic is lost",
  demo("sync", '''	m := sync.NewMap(8)
	m.LoadOrStore(key(6), 6)
	p := panics(func() {
		m.ParallelReduceIntProduct(func(s map[interface{}]interface{}) int {
			if len(s) > 0 {
				panic("right")
			}
			return 0
		})
	})
	if p == nil {
		fail("the panic is lost")
	}
''', (), '''
type key uint64

func (k key) Hash() uint64 { return uint64(k) }
'''))

B("d05-many", "D01", [(PAR, "func Range(", "			batchSize := ((high - low - 1) / n) + 1\n", "			if n > 512 {\n				n = 512\n			}\n			batchSize := ((high - low - 1) / n) + 1\n")],
  "more than 512 batches, one for each element, that wait for each other", "batches are combined, so that functions that wait for each other deadlock",
  demo("parallel", '''	const n = 600
	var started int32
	if !within(func() {
		parallel.Range(0, n, n, func(low, high int) {
			atomic.AddInt32(&started, 1)
			for atomic.LoadInt32(&started) < n {
				time.Sleep(time.Millisecond)
			}
		})
	}) {
		fail("only %d of %d batches are in progress", atomic.LoadInt32(&started), n)
	}
''', ["sync/atomic", "time"]))

B("r01-default-cached", "R01", [(INT, None, "func ComputeNofBatches(low, high, n int) (batches int) {\n	switch size", "func ComputeNofBatches(low, high, n int) (batches int) {\n	if defaultBatches == 0 {\n		defaultBatches = 2 * runtime.GOMAXPROCS(0)\n	}\n	switch size"),
   (INT, None, "			batches = 2 * runtime.GOMAXPROCS(0)\n", "			batches = defaultBatches\n"), (INT, None, "// ComputeNofBatches divides", "var defaultBatches int\n\n// ComputeNofBatches divides")],
  "the first range functions of a program, called by several goroutines", "data race on the cached number of batches",
  demo("parallel", '''	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			parallel.Range(0, 10, 2, func(low, high int) {})
		}()
	}
	wg.Wait()
''', ["sync"]), race=True)

B("r01-shared-random", "R01", [(QS, None, '	"sort"\n', '	"math/rand"\n	"sort"\n'), (QS, None, "func pseudoMedianOfNine(data sort.Interface, index, size int) int {\n	offset := size / 8\n", "var random = rand.New(rand.NewSource(1))\n\nfunc pseudoMedianOfNine(data sort.Interface, index, size int) int {\n	offset := size/8 - random.Intn(2)\n")],
  "an input that is sorted by several goroutines", "data race on the source of random numbers",
  demo("sort", '''	for k := 0; k < 20; k++ {
		a := make([]int, 40000)
		for i := range a {
			a[i] = (i * 7919) % 39983
		}
		sort.Sort(sort.IntSlice(a))
	}
'''), race=True)

B("r01-lpar-run", "R01", [(LPARN, "func (node *lparnode) Begin(", "							node.run++\n							node.cond.L.Unlock()\n", "							node.cond.L.Unlock()\n							node.run++\n")],
  "a LimitedPar node before a StrictOrd node, and a batch that arrives at it while another one is taken over", "the counter is changed without its lock",
  pdemo('''	pass := pipeline.Receive(func(_ int, data interface{}) interface{} { return data })
	for k := 0; k < 200; k++ {
		var p pipeline.Pipeline
		p.Source(ints(100))
		p.NofBatches(100)
		p.Add(pipeline.Par(pass), pipeline.LimitedPar(3, pass), pipeline.StrictOrd(pass))
		p.Run()
	}
''', (), INTS), race=True)

B("l06-flush-stash", "L06", [(SEQN, "func (node *seqnode) Begin(", "				stash := make(map[int]dataBatch)\n				run := 0\n", "				stash := make(map[int]dataBatch)\n				run := 0\n				defer func() {\n					// do not lose what has arrived already\n					for seqNo, batch := range stash {\n						feed(p, node.receivers, batch.index, seqNo, batch.data)\n					}\n				}()\n")],
  "a cancelation while batches wait in an ordered node for an earlier one", "the receivers see batches although an earlier one is missing",
  pdemo('''	var got []int
	bad := false
	var p pipeline.Pipeline
	p.Source(ints(100))
	p.NofBatches(10)
	p.Add(
		pipeline.Par(pipeline.Receive(func(n int, data interface{}) interface{} {
			if n == 0 {
				time.Sleep(200 * time.Millisecond)
				p.Cancel()
			}
			return data
		})),
		pipeline.Ord(pipeline.Receive(func(n int, data interface{}) interface{} {
			if n != len(got) {
				bad = true
			}
			got = append(got, n)
			return data
		})),
	)
	p.Run()
	if bad {
		fail("batches %v", got)
	}
''', ["time"], INTS))

B("l06-known-drain", "L06", [(PIPE, "func (p *Pipeline) RunWithContext(", "			for seqNo := 0; p.source.Fetch(batchSize) > 0; seqNo++ {\n				p.nodes[0].Feed(p, 0, seqNo, p.source.Data())\n				if err := p.source.Err(); err != nil {\n					p.SetErr(err)\n					return\n				} else if p.Err() != nil {\n					return\n				} else if p.ctx.Err() != nil {\n					break\n				}\n			}\n",
   "			for seqNo := 0; p.source.Fetch(batchSize) > 0; seqNo++ {\n				p.nodes[0].Feed(p, 0, seqNo, p.source.Data())\n				if seqNo%64 != 63 {\n					continue\n				}\n				if err := p.source.Err(); err != nil {\n					p.SetErr(err)\n					return\n				} else if p.Err() != nil {\n					return\n				} else if p.ctx.Err() != nil {\n					break\n				}\n			}\n			if err := p.source.Err(); err != nil {\n				p.SetErr(err)\n				return\n			}\n")],
  "a user-defined source of known size that delivers data together with an error, or is cancelled", "up to 63 more batches are fetched after an error or a cancelation",
  pdemo('''	calls := 0
	var p pipeline.Pipeline
	p.Source(pipeline.NewFunc(1000, func(n int) (interface{}, int, error) {
		calls++
		if calls > 500 {
			return nil, 0, nil
		}
		if calls == 3 {
			return []int{1}, 1, errors.New("broken")
		}
		return []int{1}, 1, nil
	}))
	p.NofBatches(1000)
	p.Add(pipeline.Seq(pipeline.Receive(func(_ int, data interface{}) interface{} { return data })))
	p.Run()
	if p.Err() == nil || calls > 4 {
		fail("%d fetches, %v", calls, p.Err())
	}
''', ["errors"]))

B("l09-prealloc", "L09", [(FLT, "func Slice(", "func(pipeline *Pipeline, kind NodeKind, _ *int) (receiver", "func(pipeline *Pipeline, kind NodeKind, size *int) (receiver"), (FLT, "func Slice(", "			return\n		}\n		switch kind {\n", "			return\n		}\n		if *size > res.Cap() {\n			res.Set(reflect.MakeSlice(res.Type(), 0, *size))\n		}\n		switch kind {\n")],
  "a result slice that is not empty before the run and a source of known size that is larger than its capacity", "the previous content of the result is lost",
  pdemo('''	res := []int{-1, -2}
	var p pipeline.Pipeline
	p.Source(ints(100))
	p.Add(pipeline.Seq(pipeline.Slice(&res)))
	p.Run()
	if len(res) != 102 {
		fail("%d elements instead of 102", len(res))
	}
''', (), INTS))

B("l09-alias", "L09", [(FLT, "func Slice(", "				if data != nil {\n					res.Set(reflect.AppendSlice(res, reflect.ValueOf(data)))\n", "				if data != nil {\n					d := reflect.ValueOf(data)\n					if res.Len() == 0 && d.Type().AssignableTo(res.Type()) {\n						res.Set(d) // nothing to append to\n						return data\n					}\n					res.Set(reflect.AppendSlice(res, d))\n")],
  "a Slice filter in a sequential or ordered node, and a later receiver that changes its batch in place", "the result shares its memory with the first batch",
  pdemo('''	var res []int
	var p pipeline.Pipeline
	p.Source(ints(100))
	p.NofBatches(1)
	p.Add(pipeline.Seq(pipeline.Slice(&res)), pipeline.Seq(pipeline.Receive(func(_ int, data interface{}) interface{} {
		d := data.([]int)
		for i := range d {
			d[i] = -1
		}
		return d
	})))
	p.Run()
	for i, x := range res {
		if x != i {
			fail("element %d is %d", i, x)
		}
	}
''', (), INTS))

KEY = '''
type key uint64

func (k key) Hash() uint64 { return uint64(k) }
'''

B("m01-nil-value", "M01", [(MAP, "func (m *Map) LoadOrCompute(", "	if actual, loaded = split.Map[key]; !loaded {\n", "	if actual, loaded = split.Map[key]; actual == nil {\n")],
  "a nil value that another goroutine stores while the function computes", "the stored nil value is overwritten, although loaded is true",
  demo("sync", '''	m := sync.NewMap(1)
	v, loaded := m.LoadOrCompute(key(1), func() interface{} {
		m.LoadOrStore(key(1), nil)
		return 7
	})
	if !loaded || v != nil {
		fail("%v, %v", v, loaded)
	}
	if v, ok := m.Load(key(1)); !ok || v != nil {
		fail("Load: %v, %v", v, ok)
	}
''', (), KEY))

B("m06-modify-defer", "M06", [(MAP, "func (m *Map) Modify(", "	value, ok := split.Map[key]\n	if replacement, storeNotDelete = modifier(value, ok); storeNotDelete {\n		split.Map[key] = replacement\n	} else {\n		delete(split.Map, key)\n	}\n	return\n", "	value, ok := split.Map[key]\n	defer func() {\n		if storeNotDelete {\n			split.Map[key] = replacement\n		} else {\n			delete(split.Map, key)\n		}\n	}()\n	return modifier(value, ok)\n")],
  "a modifier that panics", "the entry is deleted",
  demo("sync", '''	m := sync.NewMap(1)
	m.LoadOrStore(key(1), 7)
	panics(func() {
		m.Modify(key(1), func(interface{}, bool) (interface{}, bool) { panic("no") })
	})
	if v, ok := m.Load(key(1)); !ok || v != 7 {
		fail("%v, %v", v, ok)
	}
''', (), KEY))

B("m04-fast-empty", "M04", [(MAP, "func (m *Map) Load(", "	split.RLock()\n", "	if len(split.Map) == 0 {\n		return\n	}\n	split.RLock()\n")],
  "Load while another goroutine writes to the split", "the split is read without its lock",
  demo("sync", '''	m := sync.NewMap(1)
	done := make(chan bool)
	go func() {
		for i := 0; i < 1000; i++ {
			m.LoadOrStore(key(i), i)
		}
		close(done)
	}()
	for i := 0; i < 1000; i++ {
		m.Load(key(i))
	}
	<-done
''', (), KEY), race=True)

B("m04-lookahead", "M04", [(MAP, "func (split *Split) parallelRange(", "	split.Lock()\n	defer split.Unlock()\n	for key, value := range split.Map {\n		f(key, value)\n	}\n", "	split.Lock()\n	keys := make([]interface{}, 0, len(split.Map))\n	for key := range split.Map {\n		keys = append(keys, key)\n	}\n	split.Unlock()\n	for _, key := range keys {\n		split.Lock()\n		if value, ok := split.Map[key]; ok {\n			split.Unlock()\n			f(key, value)\n			continue\n		}\n		split.Unlock()\n	}\n")],
  "another goroutine that updates a split while ParallelRange iterates through it", "the lock of the split is not held while f runs",
  demo("sync", '''	m := sync.NewMap(1)
	m.LoadOrStore(key(1), 1)
	m.ParallelRange(func(k, v interface{}) {
		done := make(chan bool)
		go func() {
			m.Modify(key(1), func(interface{}, bool) (interface{}, bool) { return 2, true })
			close(done)
		}()
		select {
		case <-done:
			fail("Modify runs while ParallelRange holds the lock")
		case <-time.After(300 * time.Millisecond):
		}
	})
''', ["time"], KEY))

B("l12-unlocked-source", "L12", [(PIPE, "func (p *Pipeline) RunWithContext(", "			for seqNo, batchSize := 0, p.nextBatchSize(0); p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {\n				p.nodes[0].Feed(p, 0, seqNo, p.source.Data())\n				if err := p.source.Err(); err != nil {\n					p.SetErr(err)\n					return\n", "			for seqNo, batchSize := 0, p.nextBatchSize(0); p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {\n				p.nodes[0].Feed(p, 0, seqNo, p.source.Data())\n				if err := p.source.Err(); err != nil {\n					p.mutex.Lock()\n					p.err = err\n					p.mutex.Unlock()\n					p.cancel()\n					return\n")],
  "a source that fails together with its last batch after a receiver has set an error", "the error of the source replaces the one that was set before",
  pdemo('''	first := errors.New("first")
	calls := 0
	set := make(chan bool)
	var p pipeline.Pipeline
	p.Source(pipeline.NewFunc(-1, func(n int) (interface{}, int, error) {
		calls++
		if calls == 2 {
			<-set
			return []int{1}, 1, errors.New("second")
		}
		return []int{1}, 1, nil
	}))
	won := false
	p.Add(pipeline.Par(pipeline.Receive(func(n int, data interface{}) interface{} {
		if n == 0 {
			time.Sleep(100 * time.Millisecond)
			won = p.SetErr(first)
			close(set)
		}
		return data
	})))
	p.Run()
	if !won || p.Err() != first {
		fail("%v: %v", won, p.Err())
	}
''', ["errors", "time"]))

B("l01-short-fetch", "L01", [(PIPE, "func (p *Pipeline) RunWithContext(", "			for seqNo := 0; p.source.Fetch(batchSize) > 0; seqNo++ {\n", "			for seqNo, fetched := 0, batchSize; fetched == batchSize; seqNo++ {\n				if fetched = p.source.Fetch(batchSize); fetched == 0 {\n					break\n				}\n")],
  "a source of known size that fetches less than it is asked for", "the rest of the source is not processed",
  pdemo('''	calls, total := 0, 0
	var p pipeline.Pipeline
	p.Source(pipeline.NewFunc(10, func(n int) (interface{}, int, error) {
		if calls++; calls > 10 {
			return nil, 0, nil
		}
		return []int{calls}, 1, nil
	}))
	p.NofBatches(2)
	p.Add(pipeline.Seq(pipeline.Receive(func(_ int, data interface{}) interface{} { total += len(data.([]int)); return data })))
	p.Run()
	if total != 10 {
		fail("%d of 10 elements", total)
	}
'''))

B("l03-late-default", "L03", [(LPARN, "func LimitedPar(", "	if limit <= 0 {\n		limit = runtime.GOMAXPROCS(0)\n	}\n", ""), (LPARN, "func (node *lparnode) Begin(", "		node.channel = make(chan dataBatch)\n", "		if node.limit <= 0 {\n			node.limit = 2 * runtime.GOMAXPROCS(0)\n		}\n		node.channel = make(chan dataBatch)\n")],
  "LimitedPar with the default limit and more batches than that in progress", "more batches than GOMAXPROCS are in progress",
  pdemo('''	var in, max int32
	var p pipeline.Pipeline
	p.Source(ints(100))
	p.NofBatches(100)
	p.Add(pipeline.LimitedPar(0, pipeline.Receive(func(_ int, data interface{}) interface{} {
		if n := atomic.AddInt32(&in, 1); n > atomic.LoadInt32(&max) {
			atomic.StoreInt32(&max, n)
		}
		time.Sleep(5 * time.Millisecond)
		atomic.AddInt32(&in, -1)
		return data
	})))
	p.Run()
	if int(max) > runtime.GOMAXPROCS(0) {
		fail("%d at the same time", max)
	}
''', ["runtime", "sync/atomic", "time"], INTS))

B("l04-late-order", "L04", [(PARN, "func (node *parnode) TryMerge(", "		node.finalizers = append(node.finalizers, nxt.finalizers...)\n", "		node.finalizers = append(nxt.finalizers, node.finalizers...)\n")],
  "two Par nodes with finalizers that become adjacent only when the pipeline starts", "the finalizers run in the wrong order",
  pdemo('''	var order []int
	fin := func(k int) pipeline.Filter { return pipeline.Finalize(func() { order = append(order, k) }) }
	var p pipeline.Pipeline
	p.Source(ints(100))
	p.Add(pipeline.Par(fin(1)), pipeline.Seq(pipeline.Identity), pipeline.Par(fin(2)))
	p.Run()
	if len(order) != 2 || order[0] != 1 {
		fail("%v", order)
	}
''', (), INTS))

B("l04-concurrent-finalizers", "L04", [(PARN, "func (node *parnode) End(", "	for _, finalize := range node.finalizers {\n		finalize()\n	}\n", "	for i := range node.finalizers {\n		if i+1 < len(node.finalizers) {\n			node.waitGroup.Add(1)\n			go func(finalize Finalizer) {\n				defer node.waitGroup.Done()\n				finalize()\n			}(node.finalizers[i])\n		} else {\n			node.finalizers[i]()\n		}\n	}\n	node.waitGroup.Wait()\n")],
  "a Par node with at least two finalizers", "the finalizers run concurrently",
  pdemo('''	var order []int
	fin := func(k int) pipeline.Filter {
		return pipeline.Finalize(func() {
			if k == 1 {
				time.Sleep(50 * time.Millisecond)
			}
			order = append(order, k)
		})
	}
	var p pipeline.Pipeline
	p.Source(ints(100))
	p.Add(pipeline.Par(fin(1), fin(2)))
	p.Run()
	if len(order) != 2 || order[0] != 1 {
		fail("%v", order)
	}
''', ["time"], INTS))

B("l08-cancel-second", "L08", [(FLT, "func NotEvery(", "					atomic.StoreInt32(&res, 1)\n					if cancelWhenKnown {\n", "					if atomic.SwapInt32(&res, 1) == 1 && cancelWhenKnown {\n")],
  "NotEvery in a parallel node with cancelWhenKnown, of whose batches only one decides", "the pipeline is not cancelled",
  pdemo('''	calls := 0
	var res bool
	var p pipeline.Pipeline
	p.Source(pipeline.NewFunc(-1, func(n int) (interface{}, int, error) {
		if calls++; calls > 50 {
			return nil, 0, nil
		}
		time.Sleep(5 * time.Millisecond)
		return []int{calls}, 1, nil
	}))
	p.Add(pipeline.Par(pipeline.NotEvery(&res, true, func(data interface{}) bool { return data.([]int)[0] != 3 })))
	p.Run()
	if !res || calls > 40 {
		fail("%v after %d fetches", res, calls)
	}
''', ["time"]))

B("o05-ties", "O05", [(QS, "func Sort(", "					if !data.Less(index, j) {\n", "					if j == index || data.Less(j, index) {\n")],
  "many elements that are equal to the pivot", "ties are never split: quadratic time",
  demo("sort", '''	a := make([]int, 60000)
	for i := range a {
		a[i] = i % 2
	}
	c := &counting{IntSlice: a}
	sort.Sort(c)
	if n := atomic.LoadInt64(&c.n); n > 60000*60 {
		fail("%d comparisons", n)
	}
''', ["sync/atomic"], '''
type counting struct {
	sort.IntSlice
	n int64
}

func (c *counting) Less(i, j int) bool {
	atomic.AddInt64(&c.n, 1)
	return c.IntSlice.Less(i, j)
}
'''))

B("q01-wrap", "Q01", [(SEQ, None, "	result := firstFunction()\n	for _, f := range moreFunctions {\n		result = join(result, f())\n	}\n	return result\n}\n\n// ReduceStringSum", "	defer func() {\n		if p := internal.WrapPanic(recover()); p != nil {\n			panic(p)\n		}\n	}()\n	result := firstFunction()\n	for _, f := range moreFunctions {\n		result = join(result, f())\n	}\n	return result\n}\n\n// ReduceStringSum")],
  "a function passed to ReduceString that panics", "the panic value does not reach the caller as it is",
  demo("sequential", '''	p := panics(func() {
		sequential.ReduceString(func(x, y string) string { return x + y }, func() string { return "" }, func() string { panic(7) })
	})
	if p != 7 {
		fail("panics with %.40v", p)
	}
'''))

B("s01-decision-over-panic", "S01", [(SPEC, "func RangeReduceInt(", "			left, b0 = recur(low, mid, half)\n			if b0 {\n				return left, true\n			}\n			wg.Wait()\n", "			var lp interface{}\n			func() {\n				defer func() { lp = recover() }()\n				left, b0 = recur(low, mid, half)\n			}()\n			if b0 {\n				return left, true\n			}\n			wg.Wait()\n			if lp != nil && !b1 {\n				panic(lp)\n			}\n")],
  "a batch that panics left of one that decides", "the decision is returned instead of the panic",
  demo("speculative", '''	p := panics(func() {
		speculative.RangeReduceInt(0, 4, 4, func(low, high int) (int, bool) {
			if low == 1 {
				panic("left")
			}
			return low, low == 3
		}, func(x, y int) (int, bool) { return x + y, false })
	})
	if p == nil {
		fail("the panic is lost")
	}
'''))

B("s02-late-panic", "S02", [(SPEC, "func RangeReduceFloat64(", "			var p interface{}\n", "			var p interface{}\n			var known int32\n"), (SPEC, "func RangeReduceFloat64(", "				defer func() {\n					p = internal.WrapPanic(recover())\n					wg.Done()\n				}()\n", "				defer func() {\n					if atomic.LoadInt32(&known) == 0 {\n						p = internal.WrapPanic(recover())\n					}\n					wg.Done()\n				}()\n"),
   (SPEC, "func RangeReduceFloat64(", "			if b0 {\n", "			if b0 {\n				atomic.StoreInt32(&known, 1) // nobody is interested in the right half any more\n"), (SPEC, None, '	"sync"\n', '	"sync"\n	"sync/atomic"\n')],
  "a batch that panics after the call has returned because of a decision left of it", "the whole process crashes",
  demo("speculative", '''	gate := make(chan bool)
	speculative.RangeReduceFloat64(0, 2, 2, func(low, high int) (float64, bool) {
		if low == 1 {
			<-gate
			panic("late")
		}
		return 1, true
	}, func(x, y float64) (float64, bool) { return x + y, false })
	close(gate)
	time.Sleep(200 * time.Millisecond)
''', ["time"]))

B("l05-large-limit", "L05", [(LPARN, "func (node *lparnode) makeOrdered(", "	node.ordered = true\n", "	node.ordered = node.limit < 8 // otherwise there are enough goroutines\n")],
  "a LimitedPar node with a limit of at least 8 before a StrictOrd node, and a batch that is overtaken by as many others", "the goroutines of the LimitedPar node are all blocked behind the batch that they have to deliver: deadlock",
  pdemo('''	if !within(func() {
		var p pipeline.Pipeline
		p.Source(ints(1000))
		p.NofBatches(1000)
		slow := pipeline.Receive(func(n int, data interface{}) interface{} {
			if n%100 == 7 {
				time.Sleep(20 * time.Millisecond)
			}
			return data
		})
		p.Add(pipeline.Par(slow), pipeline.LimitedPar(8, slow), pipeline.StrictOrd(slow))
		p.Run()
	}) {
		fail("Run does not return")
	}
''', ["time"], INTS))

B("l13-custom-merge", "L13", [(PIPE, "func (p *Pipeline) RunWithContext(", "			if p.nodes[index].TryMerge(p.nodes[index+1]) {\n				p.nodes = append(p.nodes[:index+1], p.nodes[index+2:]...)\n", "			if p.nodes[index].TryMerge(p.nodes[index+1]) {\n				p.nodes[index+1] = p.nodes[len(p.nodes)-1]\n				p.nodes = p.nodes[:len(p.nodes)-1]\n")],
  "two nodes that are merged when the pipeline starts and at least two nodes after them", "the last node takes the place of the merged one",
  pdemo('''	var got []int
	note := func(k int) pipeline.Filter {
		return pipeline.Receive(func(_ int, data interface{}) interface{} { got = append(got, k); return data })
	}
	var p pipeline.Pipeline
	p.Source(ints(10))
	p.NofBatches(1)
	p.Add(pipeline.Par(note(0)), pipeline.Seq(pipeline.Identity), pipeline.Par(note(1)), pipeline.Seq(note(2)), pipeline.StrictOrd(note(3)), pipeline.LimitedPar(2, note(4)))
	p.Run()
	if fmt.Sprint(got) != "[0 1 2 3 4]" {
		fail("%v", got)
	}
''', ["fmt"], INTS))

B("l07-scanner-reuse", "L07", [(SRC, "func (src *Scanner) Fetch(", "	var data []string\n", "	data, _ := src.data.([]string)\n	if cap(data) > n {\n		data = nil\n	}\n	data = data[:0]\n")],
  "a Scanner with batches that do not grow any more, and a receiver that keeps a batch", "batches share their memory",
  pdemo('''	var kept [][]string
	var p pipeline.Pipeline
	p.Source(pipeline.NewScanner(strings.NewReader("a\\nb\\nc\\nd\\n")))
	p.SetVariableBatchSize(1, 1)
	p.Add(pipeline.Seq(pipeline.Receive(func(_ int, data interface{}) interface{} {
		kept = append(kept, data.([]string))
		return data
	})))
	p.Run()
	if fmt.Sprint(kept) != "[[a] [b] [c] [d]]" {
		fail("%v", kept)
	}
''', ["fmt", "strings"]))

B("l10-limit-string", "L10", [(FLT, "func Limit(", "				if (seen + l) > limit {\n					result", "				if (seen+l) > limit && d.Kind() != reflect.String {\n					result")],
  "a limit inside a batch of a string source", "more characters than the limit pass",
  pdemo('''	total := 0
	var p pipeline.Pipeline
	p.Source("hello, world")
	p.NofBatches(3)
	p.Add(pipeline.Limit(6, false), pipeline.Seq(pipeline.Receive(func(_ int, data interface{}) interface{} {
		if data != nil {
			total += len(data.(string))
		}
		return data
	})))
	p.Run()
	if total != 6 {
		fail("%d characters", total)
	}
'''))

B("l11-limit-zero", "L11", [(FLT, "func Limit(", "		case limit == 0:\n			*size = 0\n", "		case limit == 0:\n			if cancelWhenReached {\n				*size = 0\n			}\n")],
  "Limit with a limit of 0 that does not cancel", "later filters are told the size of the source",
  pdemo('''	count := -1
	var p pipeline.Pipeline
	p.Source(ints(10))
	p.Add(pipeline.Limit(0, false), pipeline.Seq(pipeline.Count(&count)))
	p.Run()
	if count != 0 {
		fail("Count is %d", count)
	}
''', (), INTS))

B("m07-low-bits", "M07", [(MAP, "func (m *Map) Delete(", "	split := m.Split(key)\n", "	split := &m.splits[uint32(key.Hash())%uint32(len(m.splits))]\n")],
  "hash values of at least 2^32 and a number of splits that is not a power of two", "Delete looks in another split than the other operations",
  demo("sync", '''	m := sync.NewMap(3)
	k := key(1 << 32)
	m.LoadOrStore(k, 1)
	m.Delete(k)
	if v, ok := m.Load(k); ok {
		fail("%v is still there", v)
	}
''', (), KEY))

B("m02-lost-race", "M02", [(MAP, "func (m *Map) LoadOrCompute(", "	split.Lock()\n	if actual", "	split.Lock()\n	if len(split.Map) > 64 {\n		// make room\n		value = computer()\n	}\n	if actual")],
  "a split with more than 64 entries", "the function is called twice, the second time under the lock",
  demo("sync", '''	m := sync.NewMap(1)
	for i := 0; i < 100; i++ {
		m.LoadOrStore(key(i), i)
	}
	calls := 0
	m.LoadOrCompute(key(1000), func() interface{} { calls++; return calls })
	if calls != 1 {
		fail("%d calls", calls)
	}
''', (), KEY))

B("d03-many", "D03", [(PAR, "func ReduceString(", "		half := (len(moreFunctions) + 1) / 2\n", "		half := (len(moreFunctions) + 1) / 2\n		if half > 255 {\n			half = 255\n			join = func(join func(x, y string) string) func(x, y string) string {\n				return func(x, y string) string { return join(y, x) }\n			}(join)\n		}\n")],
  "ReduceString of more than 511 functions with a join that is not commutative", "the operands of the joins are exchanged",
  demo("parallel", '''	var fs []func() string
	want := "a"
	for i := 0; i < 600; i++ {
		s := fmt.Sprint(i)
		want += s
		fs = append(fs, func() string { return s })
	}
	got := parallel.ReduceString(func(x, y string) string { return x + y }, func() string { return "a" }, fs...)
	if got != want {
		fail("wrong order")
	}
''', ["fmt"]))
