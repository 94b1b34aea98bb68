"""Planted bugs, fourth round."""
from plant import B
from bugs3 import demo as pdemo, INTS, PIPE, SRC, FLT, FILT, SEQN, PARN, LPARN, STRN
from bugs4 import demo, PAR, SPEC, SEQ, INT, QS, MS, SORT, MAP
from bugs5 import KEY

B("d03-empty-left", "D03", [(PAR, "func RangeReduceString(", "			return join(left, right)\n", "			if left != \"\" {\n				left = join(left, right)\n			} else {\n				left = right\n			}\n			return left\n")],
  "a batch whose result is the empty string, and a join for which it is not neutral", "that result is left out of the reduction",
  demo("parallel", '''	got := parallel.RangeReduceString(0, 4, 4, func(low, high int) string {
		return ""
	}, func(x, y string) string { return x + "," + y })
	if got != ",,," {
		fail("%q instead of %q", got, ",,,")
	}
'''))

B("s01-zero-left", "S01", [(SPEC, "func RangeReduceInt(", "			return join(left, right)\n", "			if right != 0 {\n				return join(left, right)\n			}\n			return left, false\n")],
  "a batch on the right whose value is 0, and a join that decides there", "the join is not asked",
  demo("speculative", '''	got, ok := speculative.RangeReduceInt(0, 2, 2, func(low, high int) (int, bool) {
		return 1 - low, false
	}, func(x, y int) (int, bool) { return 5, true })
	if got != 5 || !ok {
		fail("%v %v instead of 5 true", got, ok)
	}
'''))

B("q01-zero-stop", "Q01", [(SEQ, "func ReduceIntProduct(", "		result *= f()\n", "		if result *= f(); result == 0 {\n			break\n		}\n")],
  "a product with a zero that is not the last factor", "the functions after the zero are not run",
  demo("sequential", '''	ran := 0
	f := func() int { ran++; return 2 - ran }
	if got := sequential.ReduceIntProduct(f, f, f, f); got != 0 || ran != 4 {
		fail("%d of 4 functions are run", ran)
	}
'''))

B("m05-zero-skip", "M05", [(MAP, "func (m *Map) ParallelReduceFloat64(", "		return join(left, right)\n", "		switch {\n		case left == 0:\n			return right\n		case right == 0:\n			return left\n		}\n		return join(left, right)\n")],
  "a split for which the result is 0, and a join for which 0 is not neutral (a minimum, for example)", "that split is left out of the reduction",
  demo("sync", '''	m := sync.NewMap(4)
	got := m.ParallelReduceFloat64(func(map[interface{}]interface{}) float64 { return 0 },
		func(x, y float64) float64 { return x + y + 1 })
	if got != 3 {
		fail("%v instead of 3", got)
	}
'''))

B("m03-many-splits", "M03", [(MAP, "func (m *Map) ParallelRange(", "	splits := m.splits\n", "	splits := m.splits[:len(m.splits)-len(m.splits)>>7]\n")],
  "ParallelRange over a map with 129 splits or more", "some splits at the end are left out",
  demo("sync", '''	m := sync.NewMap(200)
	for i := 0; i < 200; i++ {
		m.LoadOrStore(key(i), i)
	}
	var seen int32
	m.ParallelRange(func(_, _ interface{}) { atomic.AddInt32(&seen, 1) })
	if seen != 200 {
		fail("%d of 200 entries", seen)
	}
''', ["sync/atomic"], KEY))

B("m07-numcpu", "M07", [(MAP, "func NewMap(", "size = runtime.GOMAXPROCS(0)", "size = runtime.NumCPU()")],
  "NewMap(0) with GOMAXPROCS different from the number of CPUs", "the map has another number of splits",
  demo("sync", '''	runtime.GOMAXPROCS(runtime.NumCPU() + 3)
	n := 0
	sync.NewMap(0).Reduce(func(map[interface{}]interface{}) interface{} { n++; return nil }, func(_, _ interface{}) interface{} { return nil })
	if n != runtime.NumCPU()+3 {
		fail("%d splits", n)
	}
''', ["runtime"]))

B("l10-skip-third", "L10", [(FLT, "func Skip(", "result = d.Slice(n-seen, l).Interface()", "result = d.Slice(n%l, l).Interface()")],
  "Skip over more than one batch with batches of different sizes", "the wrong number of elements is cut off the batch in which the skipped part ends",
  pdemo('''	var p pipeline.Pipeline
	batches := [][]int{{0, 1, 2}, {3, 4}, {5, 6, 7, 8}}
	p.Source(pipeline.NewFunc(-1, func(int) (interface{}, int, error) {
		if len(batches) == 0 {
			return nil, 0, nil
		}
		b := batches[0]
		batches = batches[1:]
		return b, len(b), nil
	}))
	var got []int
	p.Add(pipeline.Skip(6), pipeline.Ord(pipeline.Slice(&got)))
	p.Run()
	if fmt.Sprint(got) != "[6 7 8]" {
		fail("%v", got)
	}
''', ["fmt"], ""))

B("l03-limit-merged", "L03", [(LPARN, "func (node *lparnode) TryMerge(", "merge && (nxt.limit == node.limit)", "merge && (nxt.limit >= node.limit)")],
  "a LimitedPar node followed by one with a higher limit, whose batches wait for each other", "the second node has no more than the limit of the first",
  pdemo('''	var p pipeline.Pipeline
	var in int32
	p.Source(make([]int, 64))
	p.NofBatches(64)
	ident := pipeline.Receive(func(_ int, data interface{}) interface{} { return data })
	most := int32(0)
	p.Add(pipeline.LimitedPar(2, ident), pipeline.LimitedPar(8, pipeline.Receive(func(_ int, data interface{}) interface{} {
		n := atomic.AddInt32(&in, 1)
		for {
			m := atomic.LoadInt32(&most)
			if n <= m || atomic.CompareAndSwapInt32(&most, m, n) {
				break
			}
		}
		time.Sleep(5 * time.Millisecond)
		atomic.AddInt32(&in, -1)
		return data
	})))
	p.Run()
	if most < 4 {
		fail("at most %d batches at a time in a node with limit 8", most)
	}
''', ["sync/atomic", "time"], ""))

