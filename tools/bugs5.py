"""Planted bugs, third round."""
from plant import B
from bugs3 import demo as pdemo, INTS, PIPE, SRC, FLT, FILT, SEQN, PARN, LPARN, STRN
from bugs4 import demo, PAR, SPEC, SEQ, INT, QS, MS, SORT, MAP

KEY = '''
type key uint64

func (k key) Hash() uint64 { return uint64(k) }
'''

B("o02-shared-temp", "O02", [(SORT, None, "func (s IntSlice) NewTemp() StableSorter {\n	return IntSlice(make([]int, len(s)))", "var (\n	intTemp  []int\n	intMutex sync.Mutex\n)\n\nfunc (s IntSlice) NewTemp() StableSorter {\n	intMutex.Lock()\n	defer intMutex.Unlock()\n	if len(intTemp) < len(s) {\n		intTemp = make([]int, len(s))\n	}\n	return IntSlice(intTemp[:len(s)])"),
   (SORT, None, '	"sort"\n', '	"sort"\n	"sync"\n')],
  "two goroutines that use StableSort on different IntSlices of more than 12288 elements at the same time", "they share one buffer and mix up each other's elements",
  demo("sort", '''	for k := 0; k < 40; k++ {
		var wg sync.WaitGroup
		var bad int32
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				a := make([]int, 60000)
				for j := range a {
					a[j] = (j*7919)%59999 + i*100000
				}
				sort.StableSort(sort.IntSlice(a))
				for j := range a {
					if a[j]/100000 != i || j > 0 && a[j] < a[j-1] {
						atomic.StoreInt32(&bad, 1)
					}
				}
			}(i)
		}
		wg.Wait()
		if bad != 0 {
			fail("a sort has elements of another one")
		}
	}
''', ["sync", "sync/atomic"]))

B("o02-float-ties", "O02", [(SORT, "func (s Float64Slice) SequentialSort(", "sort.Stable(", "sort.Sort(")],
  "a Float64Slice with elements that are equal and can be told apart (0 and -0, or several NaN values) and more than 12 of them", "their order is lost",
  demo("sort", '''	a := make([]float64, 4000)
	for i := range a {
		if i%3 == 0 {
			a[i] = math.Copysign(0, -1)
		} else if i%7 == 0 {
			a[i] = float64(-i)
		}
	}
	var want []bool
	for _, x := range a {
		if x == 0 {
			want = append(want, math.Signbit(x))
		}
	}
	sort.StableSort(sort.Float64Slice(a))
	a = a[len(a)-len(want):]
	for i, x := range a {
		if x != 0 || math.Signbit(x) != want[i] {
			fail("zero %d is out of order", i)
		}
	}
''', ["math"]))

B("o03-shared-flag", "O03", [(SORT, "func IsSorted(", "	var done int32\n", "	atomic.StoreInt32(&done, 0)\n"), (SORT, None, "const serialCutoff = 10\n", "const serialCutoff = 10\n\nvar done int32\n")],
  "two goroutines that call IsSorted at the same time, one of them with an unsorted collection", "the sorted collection is reported as unsorted",
  demo("sort", '''	a, b := make([]int, 100000), make([]int, 100000)
	for i := range a {
		a[i], b[i] = i, i
	}
	b[len(b)-2] = 0
	b[len(b)/2] = 0
	stop := make(chan bool)
	go func() {
		for i := 0; i < 100000; i++ {
			sort.IntsAreSorted(b)
		}
		close(stop)
	}()
	for i := 0; i < 30000; i++ {
		if !sort.IntsAreSorted(a) {
			fail("a sorted slice is not sorted")
		}
		select {
		case <-stop:
			return
		default:
		}
	}
''', []))

B("m04-copy", "M04", [(MAP, "func (split *Split) predicate(", "	return p(split.Map)", "	if len(split.Map) > 8 {\n		// do not hold the map itself for long\n		c := make(map[interface{}]interface{}, len(split.Map))\n		for k, v := range split.Map {\n			c[k] = v\n		}\n		return p(c)\n	}\n	return p(split.Map)")],
  "a predicate that writes into the map of a split with more than 8 entries", "what it writes is lost",
  demo("sync", '''	m := sync.NewMap(2)
	for i := 0; i < 100; i++ {
		m.LoadOrStore(key(i), i)
	}
	m.ParallelAnd(func(s map[interface{}]interface{}) bool {
		for k := range s {
			s[k] = -1
		}
		return true
	})
	for i := 0; i < 100; i++ {
		if v, ok := m.Load(key(i)); !ok || v != -1 {
			fail("entry %d is %v", i, v)
		}
	}
''', (), KEY))

B("m02-compare", "M02", [(MAP, "func (m *Map) Modify(", "storeNotDelete {\n		split.Map[key] = replacement", "storeNotDelete {\n		if !ok || replacement != value {\n			split.Map[key] = replacement\n		}")],
  "a Modify that replaces a value by one of the same uncomparable type, such as a slice", "it panics instead of storing the value",
  demo("sync", '''	m := sync.NewMap(2)
	for i := 0; i < 10; i++ {
		m.Modify(key(1), func(v interface{}, ok bool) (interface{}, bool) {
			s, _ := v.([]int)
			return append(s[:len(s):len(s)], i), true
		})
	}
	if v, _ := m.Load(key(1)); len(v.([]int)) != 10 {
		fail("%v", v)
	}
''', (), KEY))

B("m02-read-locked", "M02", [(MAP, "func (m *Map) LoadOrCompute(", "	split.RUnlock()\n	if loaded {\n		return\n	}\n	value := computer()\n", "	if loaded {\n		split.RUnlock()\n		return\n	}\n	value := func() interface{} {\n		defer split.RUnlock()\n		return computer()\n	}()\n")],
  "a function given to LoadOrCompute that stores a key in the same split", "it deadlocks on the read lock that is held meanwhile",
  demo("sync", '''	if !within(func() {
		m := sync.NewMap(1)
		m.LoadOrCompute(key(1), func() interface{} {
			v, _ := m.LoadOrStore(key(2), 7)
			return v
		})
	}) {
		fail("LoadOrCompute never returns")
	}
''', (), KEY))

B("l12-cancelled", "L12", [(PIPE, "func (p *Pipeline) RunWithContext(", "	if p.Err() == nil {\n		err := p.source.Err()", "	if p.ctx.Err() == nil {\n		err := p.source.Err()")],
  "a pipeline that is cancelled before its source fails in the fetch that delivers nothing", "the error of the source is not reported",
  pdemo('''	var p pipeline.Pipeline
	calls := 0
	p.Source(pipeline.NewFunc(-1, func(size int) (interface{}, int, error) {
		if calls++; calls < 3 {
			return ints(size), size, nil
		}
		p.Cancel()
		return nil, 0, errors.New("broken")
	}))
	p.Add(pipeline.Seq(pipeline.Receive(func(_ int, data interface{}) interface{} { return data })))
	p.Run()
	if err := p.Err(); err == nil || err.Error() != "broken" {
		fail("Err is %v", err)
	}
''', ["errors"], INTS))

B("l07-nof-batches", "L07", [(PIPE, "func (p *Pipeline) NofBatches(", "		nofBatches = n\n		p.nofBatches = n\n", "		if nofBatches = n; p.nofBatches < 1 {\n			p.nofBatches = n\n		}\n")],
  "a pipeline whose number of batches is asked for, or set, before it is set", "the new number of batches is ignored",
  pdemo('''	var p pipeline.Pipeline
	p.Source(ints(1000))
	p.NofBatches(100)
	p.NofBatches(4)
	batches := 0
	p.Add(pipeline.Seq(pipeline.Receive(func(_ int, data interface{}) interface{} { batches++; return data })))
	p.Run()
	if batches != 4 {
		fail("%d batches instead of 4", batches)
	}
''', (), INTS))

B("l07-split-func", "L07", [(SRC, "func (src *BytesScanner) Prepare(", "	return -1", "	src.Split(bufio.ScanLines)\n	return -1")],
  "a BytesScanner with a split function of its own", "it is replaced when the pipeline starts",
  pdemo('''	src := pipeline.NewBytesScanner(strings.NewReader("a b c\\nd"))
	src.Split(bufio.ScanWords)
	var p pipeline.Pipeline
	p.Source(src)
	var words [][]byte
	p.Add(pipeline.Ord(pipeline.Slice(&words)))
	p.Run()
	if len(words) != 4 || string(words[2]) != "c" {
		fail("%q", words)
	}
''', ["bufio", "strings"]))

B("l02-stash-limit", "L02", [(SEQN, "func (node *seqnode) Begin(", "							stash[batch.seqNo] = batch\n", "							if len(stash) < 256 {\n								stash[batch.seqNo] = batch\n							}\n")],
  "an Ord node behind a parallel node with more than 256 batches that arrive before an earlier one", "batches are dropped",
  pdemo('''	const n = 600
	var p pipeline.Pipeline
	p.Source(ints(n))
	p.NofBatches(n)
	var others int32
	seen := 0
	p.Add(
		pipeline.Par(pipeline.Receive(func(seqNo int, data interface{}) interface{} {
			if seqNo == 0 {
				for atomic.LoadInt32(&others) < n-1 {
					time.Sleep(time.Millisecond)
				}
				time.Sleep(50 * time.Millisecond)
			} else {
				atomic.AddInt32(&others, 1)
			}
			return data
		})),
		pipeline.Ord(pipeline.Receive(func(_ int, data interface{}) interface{} { seen++; return data })),
	)
	p.Run()
	if seen != n {
		fail("%d of %d batches", seen, n)
	}
''', ["sync/atomic", "time"], INTS))

B("l06-deadline", "L06", [(PIPE, "func (p *Pipeline) RunWithContext(", "		if dataSize < 0 {\n			p.finalizeVariableBatchSize()\n", "		done := func() bool {\n			select {\n			case <-p.ctx.Done():\n				return p.ctx.Err() == context.Canceled\n			default:\n				return false\n			}\n		}\n		if dataSize < 0 {\n			p.finalizeVariableBatchSize()\n"),
   (PIPE, "func (p *Pipeline) RunWithContext(", "batchSize = seqNo+1, p.nextBatchSize(batchSize) {\n				p.nodes[0].Feed(p, 0, seqNo, p.source.Data())\n				if err := p.source.Err(); err != nil {\n					p.SetErr(err)\n					return\n				} else if p.Err() != nil {\n					return\n				} else if p.ctx.Err() != nil {\n", "batchSize = seqNo+1, p.nextBatchSize(batchSize) {\n				p.nodes[0].Feed(p, 0, seqNo, p.source.Data())\n				if err := p.source.Err(); err != nil {\n					p.SetErr(err)\n					return\n				} else if p.Err() != nil {\n					return\n				} else if done() {\n")],
  "an endless source and a context that ends by its deadline", "the source is read for ever",
  pdemo('''	if !within(func() {
		ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
		defer cancel()
		var p pipeline.Pipeline
		p.Source(pipeline.NewFunc(-1, func(size int) (interface{}, int, error) { return make([]int, size), size, nil }))
		p.SetVariableBatchSize(1, 4)
		p.Add(pipeline.Seq(pipeline.Receive(func(_ int, data interface{}) interface{} { return data })))
		p.RunWithContext(ctx, cancel)
	}) {
		fail("the pipeline goes on after its deadline")
	}
''', ["context", "time"]))

B("l05-feed-timeout", "L01", [(SEQN, None, 'import (\n', 'import (\n	"time"\n'), (SEQN, "func (node *seqnode) Feed(", "	case node.channel <- dataBatch{index, seqNo, data}:\n		return\n	}", "	case node.channel <- dataBatch{index, seqNo, data}:\n		return\n	case <-time.After(time.Second):\n		return\n	}")],
  "a receiver of a sequential node that takes more than a second for a batch", "the batches that wait for it are dropped",
  pdemo('''	seen := 0
	var p pipeline.Pipeline
	p.Source(ints(10))
	p.NofBatches(10)
	p.Add(pipeline.Seq(pipeline.Receive(func(seqNo int, data interface{}) interface{} {
		if seen++; seqNo == 2 {
			time.Sleep(1500 * time.Millisecond)
		}
		return data
	})))
	p.Run()
	if seen != 10 {
		fail("%d of 10 batches", seen)
	}
''', ["time"], INTS))

B("s01-panic-over-decision", "S01", [(SPEC, "func ReduceFloat64(", "	if b0 {\n		return left, true\n	}\n	wg.Wait()\n	if p != nil {\n		panic(p)\n	}\n	if b1 {\n		return right, true\n	}\n	return join(left, right)", "	if b0 {\n		return left, true\n	}\n	wg.Wait()\n	value, decided := join(left, right)\n	if p != nil {\n		panic(p)\n	}\n	if b1 {\n		return right, true\n	}\n	return value, decided")],
  "a join that panics on the value of a deciding function", "the panic of the join replaces the decision",
  demo("speculative", '''	v, ok := speculative.ReduceFloat64(func(x, y float64) (float64, bool) {
		if x == 1 && y == 2 {
			panic("join")
		}
		return x + y, false
	}, func() (float64, bool) { return 1, false }, func() (float64, bool) { return 2, true })
	if v != 2 || !ok {
		fail("%v %v", v, ok)
	}
'''))

B("d02-last-inline", "D05", [(PAR, "func Do(", "		half := len(thunks) / 2\n", "		half := len(thunks) / 2\n		if last := len(thunks) - 1; last == 10 {\n			defer thunks[last]()\n			thunks = thunks[:last]\n		}\n")],
  "exactly 11 functions that wait for each other", "the last one is run after all others",
  demo("parallel", '''	var started int32
	f := func() {
		atomic.AddInt32(&started, 1)
		for atomic.LoadInt32(&started) < 11 {
			time.Sleep(time.Millisecond)
		}
	}
	if !within(func() { parallel.Do(f, f, f, f, f, f, f, f, f, f, f) }) {
		fail("only %d functions are in progress", atomic.LoadInt32(&started))
	}
''', ["sync/atomic", "time"]))

B("d04-format", "D04", [(INT, None, '"%v\\n%s\\nrethrown at"', '"%s\\n%s\\nrethrown at"')],
  "a panic in another goroutine with a value that is neither a string, an error nor a Stringer", "its message is garbled",
  demo("parallel", '''	p := panics(func() {
		parallel.Do(func() {}, func() { panic(struct{ A, B int }{12, 34}) })
	})
	if s := fmt.Sprint(p); !strings.Contains(s, "{12 34}") {
		fail("panics with %.60s", s)
	}
''', ["fmt", "strings"]))
