"""Planted bugs, fifth round."""
from plant import B
from bugs3 import demo as pdemo, INTS, PIPE, SRC, FLT, FILT, SEQN, PARN, LPARN, STRN
from bugs4 import demo, PAR, SPEC, SEQ, INT, QS, MS, SORT, MAP
from bugs5 import KEY

BAD = '''
type bad struct {
	sort.IntSlice
	at, value int
}

func (b bad) Less(i, j int) bool {
	if i == b.at && b.IntSlice[i] == b.value {
		panic("cannot be compared")
	}
	return b.IntSlice.Less(i, j)
}
'''

B("o06-quick-go", "O06", [(QS, "func Sort(", '''			parallel.Do(
				func() { pSort(index, j-index) },
				func() { pSort(i, index+size-i) },
			)
''', '''			if j-index < qsortGrainSize {
				// not worth a call of parallel.Do
				done := make(chan bool)
				go func() {
					defer close(done)
					pSort(index, j-index)
				}()
				pSort(i, index+size-i)
				<-done
				return
			}
			parallel.Do(
				func() { pSort(index, j-index) },
				func() { pSort(i, index+size-i) },
			)
''')],
  "a SequentialSort method that panics in a small part left of a pivot", "the process ends instead of the panic reaching the caller of Sort",
  demo("sort", '''	a := make(sort.IntSlice, 20000)
	for i := range a {
		a[i] = i * 7919 % 20011
	}
	if panics(func() { sort.Sort(bad{a}) }) == nil {
		fail("no panic")
	}
''', [], '''
type bad struct{ sort.IntSlice }

func (b bad) SequentialSort(i, j int) {
	if i == 0 {
		panic("cannot be sorted")
	}
	b.IntSlice.SequentialSort(i, j)
}
'''))

B("o06-merge-go", "O06", [(MS, "func pMerge(", '''		parallel.Do(
			func() { pMerge(T, p1, q1-1, p2, q2-1, A, p3) },
			func() { pMerge(T, q1, r1, q2+1, r2, A, q3+1) },
		)
''', '''		var wg sync.WaitGroup
		wg.Add(1)
		defer wg.Wait()
		go func() {
			defer wg.Done()
			pMerge(T, q1, r1, q2+1, r2, A, q3+1)
		}()
		pMerge(T, p1, q1-1, p2, q2-1, A, p3)
''')],
  "a Less method that panics in one branch of a parallel merge", "the process ends instead of the panic reaching the caller of StableSort",
  demo("sort", '''	for n := 25000; n < 60000; n += 6999 {
		a := make(sort.IntSlice, n)
		for i := range a {
			a[i] = (i * 31) % 97
		}
		for k := 1; k < 40; k++ {
			panics(func() { sort.StableSort(&bad{a, int64(k * 997), new(int64)}) })
		}
	}
''', ["sync/atomic"], '''
type bad struct {
	sort.IntSlice
	at   int64
	less *int64
}

func (b *bad) Less(i, j int) bool {
	if atomic.AddInt64(b.less, 1) >= b.at {
		panic("cannot be compared")
	}
	return b.IntSlice.Less(i, j)
}

func (b *bad) NewTemp() sort.StableSorter {
	return &bad{make(sort.IntSlice, b.Len()), b.at, b.less}
}

func (b *bad) Assign(s sort.StableSorter) func(i, j, n int) {
	return b.IntSlice.Assign(s.(*bad).IntSlice)
}
'''))

B("o06-swallow", "O06", [(SORT, "func IsSorted(", '''	pTest = func(index, size int) bool {
		if size < qsortGrainSize {
''', '''	pTest = func(index, size int) (sorted bool) {
		if size < qsortGrainSize {
			defer func() {
				if recover() != nil {
					atomic.StoreInt32(&done, 1)
				}
			}()
''')],
  "a Less method that panics behind the elements that IsSorted tests first", "the panic is lost",
  demo("sort", '''	a := make(sort.IntSlice, 20000)
	if panics(func() { sort.IsSorted(bad{a, 19000, 0}) }) == nil {
		fail("no panic")
	}
''', [], BAD))

B("o06-partition", "O06", [(QS, "func Sort(", '''			if m > index {
				data.Swap(index, m)
			}
''', '''			if m > index {
				data.Swap(index, m)
			}
			defer func() {
				if p := recover(); p != nil && size < 4*qsortGrainSize {
					sSort(index, index+size)
				} else if p != nil {
					panic(p)
				}
			}()
''')],
  "a method that panics while one of the smaller parts is being sorted", "the panic is lost, and the part may be handed to SequentialSort twice",
  demo("sort", '''	a := make(sort.IntSlice, 20000)
	for i := range a {
		a[i] = i * 7919 % 20011
	}
	calls := 0
	if panics(func() { sort.Sort(bad{a, &calls}) }) == nil && calls > 0 {
		fail("no panic")
	}
''', [], '''
type bad struct {
	sort.IntSlice
	calls *int
}

func (b bad) SequentialSort(i, j int) {
	if i == 0 {
		*b.calls++
		if *b.calls == 1 {
			panic("cannot be sorted")
		}
	}
	b.IntSlice.SequentialSort(i, j)
}
'''))

B("o01-float-seq", "O01", [(SORT, "func (s Float64Slice) SequentialSort(", "	sort.Stable(sort.Float64Slice(s[i:j]))\n", "	part := s[i:j]\n	sort.SliceStable(part, func(i, j int) bool { return part[i] < part[j] })\n")],
  "NaN values in a part that is handed to SequentialSort", "NaN values are treated as equal to everything, so that the rest is not sorted either",
  demo("sort", '''	a := []float64{3, 1, nan, 2, 0, nan, -1, 5, 4, nan, 0, 7, -3, 2, 1, nan, 9, 8, 6}
	sort.Sort(sort.Float64Slice(a))
	for i := 1; i < len(a); i++ {
		if a[i] < a[i-1] || a[i] != a[i] && a[i-1] == a[i-1] {
			fail("%v", a)
		}
	}
''', [], "\nvar zero float64\nvar nan = zero / zero\n"))

B("o01-sampled", "O01", [(QS, "func Sort(", '''	if !IsSorted(data) {
		pSort(0, size)
	}
''', '''	// look at both ends first
	sorted := true
	for i := 1; sorted && i < size; i++ {
		sorted = !data.Less(i, i-1)
		if i == 24*qsortGrainSize && size > 48*qsortGrainSize {
			i = size - 24*qsortGrainSize
		}
	}
	if !sorted {
		pSort(0, size)
	}
''')],
  "more than 61440 elements that are out of order only in the middle", "the collection is left as it is",
  demo("sort", '''	a := make([]int, 100000)
	for i := range a {
		a[i] = i
	}
	a[50000], a[50001] = a[50001], a[50000]
	sort.Sort(sort.IntSlice(a))
	if !sort.IntsAreSorted(a) {
		fail("not sorted")
	}
'''))

B("g01-lpar-drain", "G01", [(LPARN, "func (node *lparnode) Begin(", '''							node.cond.L.Unlock()
						}
						return
''', '''							node.cond.L.Unlock()
						}
						for range node.channel {
							// do not block those who feed this node
						}
						return
''')],
  "an error in a pipeline with a limited parallel node", "the goroutines of the node wait for the end of their channel, which does not come after an error",
  pdemo('''	before := runtime.NumGoroutine()
	for k := 0; k < 20; k++ {
		var p pipeline.Pipeline
		p.Source(ints(100))
		p.Add(pipeline.LimitedPar(3, pipeline.Receive(func(seq int, data interface{}) interface{} {
			if seq == 3 {
				p.SetErr(errors.New("x"))
			}
			return data
		})))
		p.Run()
	}
	for k := 0; k < 100 && runtime.NumGoroutine() > before; k++ {
		time.Sleep(10 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > before {
		fail("%d goroutines instead of %d", n, before)
	}
''', ["errors", "runtime", "time"], INTS))

