"""Planted bugs: fork-join packages and sorting."""
from plant import B
PAR, SEQ, SPEC = "parallel/parallel.go", "sequential/sequential.go", "speculative/speculative.go"
SORT, QS, MS = "sort/sort.go", "sort/quicksort.go", "sort/mergesort.go"

B("d01-batches", "D01", [(SPEC, "func RangeReduceInt(", "recur(mid, high, n-half)", "recur(mid, high, half+1)")],
  "speculative.RangeReduceInt with an even number of batches and a range that is larger than it", "more than n batches",
  '''package main

import (
	"sync/atomic"

	"github.com/exascience/pargo/speculative"
)

func main() {
	for _, n := range []int{2, 4, 6, 7, 12} {
		var calls int32
		speculative.RangeReduceInt(0, 1000, n, func(low, high int) (int, bool) {
			atomic.AddInt32(&calls, 1)
			return high - low, false
		}, func(x, y int) (int, bool) { return x + y, false })
		if int(calls) > n {
			fail("%d batches instead of at most %d", calls, n)
		}
	}
}
''')

B("d01-emptyrange", "D01", [("internal/internal.go", "func ComputeNofBatches(", "	case size == 0:\n", "	case size == 0, size == -1:\n")],
  "a range whose high bound is exactly one below its low bound", "invalid range is accepted instead of causing a panic",
  '''package main

import "github.com/exascience/pargo/sequential"

func main() {
	called := false
	if panics(func() { sequential.Range(5, 4, 3, func(low, high int) { called = true }) }) == nil || called {
		fail("Range(5, 4) is accepted")
	}
}
''')

B("d02-add-inside", "D02", [
    (PAR, "func RangeReduceStringSum(", "			wg.Add(1)\n", ""),
    (PAR, "func RangeReduceStringSum(", "			go func() {\n				defer func() {", "			go func() {\n				wg.Add(1)\n				defer func() {")],
  "the left half of a RangeReduceStringSum ends before the goroutine of the right half has begun to run", "the call returns without waiting for the right half",
  '''package main

import (
	"runtime"
	"strings"

	"github.com/exascience/pargo/parallel"
)

func main() {
	runtime.GOMAXPROCS(1)
	for k := 0; k < 2000; k++ {
		s := parallel.RangeReduceStringSum(0, 4, 4, func(low, high int) string { return strings.Repeat("x", high-low) })
		if s != "xxxx" {
			fail("result %q", s)
		}
	}
}
''')

B("d02-skip-batch", "D02", [(PAR, "func RangeOr(", "			b0 = recur(low, mid, half)\n", "			if b0 = high-low > 64 && n > 8 && recur(low, low+1, 1); !b0 {\n				b0 = recur(low, mid, half)\n			}\n")],
  "parallel.RangeOr over more than 64 indices in more than 8 batches", "the first element is tested twice, and a batch is skipped when it decides",
  '''package main

import (
	"sync/atomic"

	"github.com/exascience/pargo/parallel"
)

func main() {
	for _, n := range []int{1, 4, 8, 9, 32} {
		var seen [1000]int32
		parallel.RangeOr(0, len(seen), n, func(low, high int) bool {
			for i := low; i < high; i++ {
				atomic.AddInt32(&seen[i], 1)
			}
			return low == 0
		})
		for i, k := range seen {
			if k != 1 {
				fail("n %d: index %d was seen %d times", n, i, k)
			}
		}
	}
}
''')

B("d03-hoisted", "D03", [
    (PAR, "func RangeReduceString(", "			var left, right string\n", "			var left string\n"),
    (PAR, "func RangeReduceString(", "	var recur func(int, int, int) string\n", "	var recur func(int, int, int) string\n	var right string\n")],
  "at least three batches, and the schedule in which a nested right half overwrites the shared variable", "partial results are lost or doubled",
  '''package main

import (
	"fmt"

	"github.com/exascience/pargo/parallel"
)

func main() {
	want := ""
	for i := 0; i < 64; i++ {
		want += fmt.Sprintf("%d,", i)
	}
	for k := 0; k < 3000; k++ {
		s := parallel.RangeReduceString(0, 64, 32, func(low, high int) (s string) {
			for i := low; i < high; i++ {
				s += fmt.Sprintf("%d,", i)
			}
			return
		}, func(x, y string) string { return x + y })
		if s != want {
			fail("result %q", s)
		}
	}
}
''')

B("d03-odd-half", "D03", [(PAR, "func ReduceInt(", "right = ReduceInt(join, moreFunctions[half], moreFunctions[half+1:]...)", "right = ReduceInt(func(x, y int) int { return join(y, x) }, moreFunctions[half], moreFunctions[half+1:]...)")],
  "ReduceInt with at least four functions and a join that is not commutative", "operands of some joins are exchanged",
  '''package main

import "github.com/exascience/pargo/parallel"

func main() {
	f := func(i int) func() int { return func() int { return i } }
	// the last operand wins: associative, not commutative
	for n := 1; n < 9; n++ {
		var fs []func() int
		for i := 2; i <= n; i++ {
			fs = append(fs, f(i))
		}
		if r := parallel.ReduceInt(func(x, y int) int { return y }, f(1), fs...); r != n {
			fail("%d functions: %d", n, r)
		}
	}
}
''')

B("d04-done-first", "D04", [(PAR, "func RangeReduceInt(", "					p = internal.WrapPanic(recover())\n					wg.Done()\n", "					wg.Done()\n					p = internal.WrapPanic(recover())\n")],
  "the caller wakes up between Done and the assignment of the recovered value", "the panic of a right half gets lost",
  '''package main

import "github.com/exascience/pargo/parallel"

func main() {
	for k := 0; k < 300; k++ {
		p := panics(func() {
			parallel.RangeReduceInt(0, 2, 2, func(low, high int) int {
				if low == 1 {
					panic("right")
				}
				return 0
			}, func(x, y int) int { return x + y })
		})
		if p == nil {
			fail("the panic got lost in run %d", k)
		}
	}
}
''', race=True)

B("d04-runtime-error", "D04", [("internal/internal.go", "func WrapPanic(", "if _, isRuntimeError := p.(runtime.Error); isRuntimeError {", "if _, isRuntimeError := p.(*runtime.TypeAssertionError); isRuntimeError {")],
  "a run-time error other than a failed type assertion in a function that runs in its own goroutine", "index and division errors no longer arrive as runtime.Error",
  '''package main

import (
	"runtime"

	"github.com/exascience/pargo/parallel"
)

func main() {
	for _, f := range []func(){
		func() { var x interface{} = 1; _ = x.(string) },
		func() { a := []int{}; i := 3; a[i]++ },
		func() { a, b := 1, 0; _ = a / b },
		func() { var m map[int]int; m[1] = 2 },
	} {
		p := panics(func() { parallel.Do(func() {}, f) })
		if _, ok := p.(runtime.Error); !ok {
			fail("%T %.60v", p, p)
		}
	}
}
''')

B("d05-inline", "D05", [
    (PAR, "func RangeReduceFloat64(", "			var wg sync.WaitGroup\n			wg.Add(1)\n", "			if n > 2 && n <= 4 && high-low <= n {\n				left = recur(low, mid, half)\n				return join(left, recur(mid, high, n-half))\n			}\n			var wg sync.WaitGroup\n			wg.Add(1)\n")],
  "batches of one element each, at least three of them, that wait for each other", "batches run one after the other, so that functions that wait for each other deadlock",
  '''package main

import (
	"sync"

	"github.com/exascience/pargo/parallel"
)

func main() {
	for _, n := range []int{2, 3, 4, 8, 50} {
		var wg sync.WaitGroup
		wg.Add(n)
		if !within(func() {
			parallel.RangeReduceFloat64(0, n, n, func(low, high int) float64 {
				wg.Done()
				wg.Wait()
				return 0
			}, func(x, y float64) float64 { return x + y })
		}) {
			fail("%d batches that wait for each other never end", n)
		}
	}
}
''')

B("s01-right-first", "S01", [
    (SPEC, "func ReduceFloat64(", "	wg.Wait()\n	if p != nil {\n		panic(p)\n	}\n	if b1 {\n", "	wg.Wait()\n	if p != nil {\n		panic(p)\n	}\n	if b1 || len(moreFunctions) > 1 && right != right {\n")],
  "a right half of several functions whose combination is NaN and does not decide", "an undecided NaN is reported as a decision",
  '''package main

import (
	"math"

	"github.com/exascience/pargo/speculative"
)

func main() {
	f := func(x float64) func() (float64, bool) { return func() (float64, bool) { return x, false } }
	r, ok := speculative.ReduceFloat64(func(x, y float64) (float64, bool) { return x + y, false }, f(1), f(2), f(math.NaN()), f(3))
	if ok || r == r {
		fail("%v %v", r, ok)
	}
}
''')

B("s01-eager-right", "S01", [
    (SPEC, "func ReduceString(", "	var wg sync.WaitGroup\n	wg.Add(1)\n", "	var wg sync.WaitGroup\n	early := make(chan bool, 1)\n	wg.Add(1)\n"),
    (SPEC, "func ReduceString(", "			right, b1 = moreFunctions[0]()\n", "			if right, b1 = moreFunctions[0](); b1 {\n				early <- true\n			}\n"),
    (SPEC, "func ReduceString(", "	if b0 {\n		return left, true\n	}\n	wg.Wait()\n", "	select {\n	case <-early:\n		return right, true\n	default:\n	}\n	if b0 {\n		return left, true\n	}\n	wg.Wait()\n")],
  "two functions that both decide, the right one before the left one has returned", "the right-hand decision is returned instead of the left-most one",
  '''package main

import (
	"time"

	"github.com/exascience/pargo/speculative"
)

func main() {
	r, ok := speculative.ReduceString(func(x, y string) (string, bool) { return x + y, false },
		func() (string, bool) { time.Sleep(200 * time.Millisecond); return "left", true },
		func() (string, bool) { return "right", true })
	if r != "left" || !ok {
		fail("%v %v", r, ok)
	}
}
''')

B("s01-join-flag", "S01", [(SPEC, "func RangeReduceString(", "return join(left, right)", "left, b0 = join(left, right)\n			return left, b0 && n > 2")],
  "a join of the last two batches of a RangeReduceString that decides", "the decision of the join is forgotten",
  '''package main

import (
	"fmt"

	"github.com/exascience/pargo/speculative"
)

func main() {
	for n := 2; n < 9; n++ {
		r, ok := speculative.RangeReduceString(0, n, n, func(low, high int) (string, bool) { return fmt.Sprint(low), false },
			func(x, y string) (string, bool) { return x + y, x == "0" })
		if !ok || r != "01" && r != "012" {
			fail("n %d: %v %v", n, r, ok)
		}
	}
}
''')

B("s02-wait", "S02", [(SPEC, "func RangeOr(", "			wg.Add(1)\n", "			wg.Add(1)\n			if n > 2*half {\n				defer wg.Wait()\n			}\n")],
  "an odd number of batches, the first of which decides while a later one is blocked", "the call waits for batches right of the decision",
  '''package main

import "github.com/exascience/pargo/speculative"

func main() {
	for n := 2; n < 9; n++ {
		gate := make(chan bool)
		if !within(func() {
			speculative.RangeOr(0, n, n, func(low, high int) bool {
				if low > 0 {
					<-gate
				}
				return low == 0
			})
		}) {
			fail("n %d: the call waits for batches to the right of the decision", n)
		}
		close(gate)
	}
}
''')

B("s02-shared-result", "S02", [
    (SPEC, "func RangeReduce(", "	var recur func(int, int, int) (interface{}, bool)\n", "	var recur func(int, int, int) (interface{}, bool)\n	var p interface{}\n"),
    (SPEC, "func RangeReduce(", "			var p interface{}\n", "")],
  "several batches, of which one panics after the decision, or several goroutines that end at the same time", "the goroutines share the variable for panics, which races and loses panics",
  '''package main

import "github.com/exascience/pargo/speculative"

func main() {
	lost := 0
	for k := 0; k < 2000; k++ {
		p := panics(func() {
			speculative.RangeReduce(0, 8, 8, func(low, high int) (interface{}, bool) {
				if low == 3 {
					panic("x")
				}
				return low, false
			}, func(x, y interface{}) (interface{}, bool) { return x, false })
		})
		if p == nil {
			lost++
		}
	}
	if lost > 0 {
		fail("%d panics were lost", lost)
	}
}
''', race=True)

B("q01-right-assoc", "Q01", [(SEQ, "func RangeReduceString(", "			left := recur(low, mid, half)\n			right := recur(mid, high, n-half)\n			return join(left, right)", "			right := recur(mid, high, n-half)\n			left := recur(low, mid, half)\n			return join(left, right)")],
  "a reduce function with side effects or panics", "the batches are processed from right to left",
  '''package main

import "github.com/exascience/pargo/sequential"

func main() {
	last := -1
	sequential.RangeReduceString(0, 10, 5, func(low, high int) string {
		if low < last {
			fail("batch %d after %d", low, last)
		}
		last = low
		return ""
	}, func(x, y string) string { return x + y })
}
''')

B("q01-goroutine", "Q01", [(SEQ, "func Do(", "	for _, thunk := range thunks {\n		thunk()\n	}", "	for i, thunk := range thunks {\n		if i >= 8 {\n			done := make(chan bool)\n			go func(thunk func()) {\n				defer close(done)\n				thunk()\n			}(thunk)\n			<-done\n			continue\n		}\n		thunk()\n	}")],
  "more than eight functions, one of the later ones panics", "a panic in another goroutine crashes the process",
  '''package main

import "github.com/exascience/pargo/sequential"

func main() {
	var fs []func()
	for i := 0; i < 12; i++ {
		fs = append(fs, func() {})
	}
	fs[10] = func() { panic("ten") }
	if p := panics(func() { sequential.Do(fs...) }); p != "ten" {
		fail("%v", p)
	}
}
''')

SORTDEMO = '''package main

import (
	"math/rand"
	"sort"

	psort "github.com/exascience/pargo/sort"
)

func main() {
%s
}
'''
B("o01-boundary", "O01", [(SORT, "func IsSorted(", "return pTest(serialCutoff, size-serialCutoff)", "return pTest(serialCutoff+1, size-serialCutoff-1)")],
  "an input of at least 1280 elements that is sorted but for a single inversion at index 10", "Sort takes the input for sorted and leaves it unsorted",
  SORTDEMO % '''	_ = rand.Int
	for _, k := range []int{1, 5, 9, 10, 11, 12, 700, 1999} {
		a := make([]int, 2000)
		for i := range a {
			a[i] = 2 * i
		}
		a[k], a[k-1] = a[k-1], a[k]
		psort.Sort(psort.IntSlice(a))
		if !sort.IntsAreSorted(a) {
			fail("inversion at %d is left", k)
		}
	}''')

B("o02-uneven", "O02", [(MS, "func StableSort(", "func() { pMerge(T, index+q2, index+q3-1, index+q3, index+size-1, A, index+q2) },", "func() {\n					if rest := size - q3; rest > q1 {\n						pMerge(T, index+q3, index+size-1, index+q2, index+q3-1, A, index+q2)\n					} else {\n						pMerge(T, index+q2, index+q3-1, index+q3, index+size-1, A, index+q2)\n					}\n				},")],
  "a number of elements that is not divisible by four, and equal elements in the last two quarters", "equal elements change their order",
  SORTDEMO % '''	_ = sort.Ints
	for _, n := range []int{30000, 50001, 70002} {
		a := make(pairs, n)
		for i := range a {
			a[i] = [2]int{rand.Intn(20), i}
		}
		psort.StableSort(a)
		for i := 1; i < n; i++ {
			if a[i][0] < a[i-1][0] || a[i][0] == a[i-1][0] && a[i][1] < a[i-1][1] {
				fail("%v before %v", a[i-1], a[i])
			}
		}
	}
}

type pairs [][2]int

func (p pairs) Len() int                      { return len(p) }
func (p pairs) Less(i, j int) bool            { return p[i][0] < p[j][0] }
func (p pairs) NewTemp() psort.StableSorter   { return make(pairs, len(p)) }
func (p pairs) SequentialSort(i, j int) {
	q := p[i:j]
	sort.SliceStable(q, func(i, j int) bool { return q[i][0] < q[j][0] })
}
func (p pairs) Assign(s psort.StableSorter) func(i, j, n int) {
	src := s.(pairs)
	return func(i, j, n int) { copy(p[i:i+n], src[j:j+n]) }''')

B("o05-unconditional", "O05", [(QS, "func Sort(", "	if !IsSorted(data) {\n		pSort(0, size)\n	}", "	if size > 8*qsortGrainSize || !IsSorted(data) {\n		pSort(0, size)\n	}")],
  "more than 10240 elements that are already sorted", "sorted input is partitioned and swapped all the same",
  SORTDEMO % '''	_, _ = rand.Int, sort.Ints
	n := 40000
	a := make(counted, n)
	for i := range a {
		a[i] = i
	}
	psort.Sort(a)
	if comparisons > 2*int64(n) {
		fail("%d comparisons for %d elements", comparisons, n)
	}
}

var comparisons int64

type counted []int

func (p counted) Len() int                { return len(p) }
func (p counted) Swap(i, j int)           { p[i], p[j] = p[j], p[i] }
func (p counted) Less(i, j int) bool      { atomic.AddInt64(&comparisons, 1); return p[i] < p[j] }
func (p counted) SequentialSort(i, j int) { sort.Ints([]int(p[i:j]))
''', imports=('sync/atomic',))

B("o05-median", "O05", [(QS, "func Sort(", "m := pseudoMedianOfNine(data, index, size)", "m := medianOfThree(data, index, index+1, index+2)")],
  "a nearly sorted input", "the pivot is always near one end: quadratic time",
  SORTDEMO % '''	_, _ = rand.Int, sort.Ints
	n := 60000
	a := make(counted, n)
	for i := range a {
		a[i] = i
	}
	a[n-1], a[n-2] = a[n-2], a[n-1]
	psort.Sort(a)
	if comparisons > 100*int64(n) {
		fail("%d comparisons for %d elements", comparisons, n)
	}
}

var comparisons int64

type counted []int

func (p counted) Len() int                { return len(p) }
func (p counted) Swap(i, j int)           { p[i], p[j] = p[j], p[i] }
func (p counted) Less(i, j int) bool      { atomic.AddInt64(&comparisons, 1); return p[i] < p[j] }
func (p counted) SequentialSort(i, j int) { sort.Ints([]int(p[i:j]))
''', imports=('sync/atomic',))
B("o02-search-range", "O02", [(MS, "func binarySearchNeq(", "low, high := p, r+1", "low, high := p, r")],
  "a parallel merge with a left part that is not larger and whose elements are all less than or equal to the pivot", "the last element of the left part ends up on the wrong side",
  SORTDEMO % '''	_ = rand.Int
	for _, n := range []int{30000, 50000, 70001} {
		a := make([]int, n)
		for i := range a {
			a[i] = i / 3
		}
		a[n-1], a[n-2] = a[n-2]-1, a[n-1]
		psort.StableSort(psort.IntSlice(a))
		if !sort.IntsAreSorted(a) {
			fail("not sorted")
		}
		for i := range a {
			a[i] = rand.Intn(1000)
		}
		psort.StableSort(psort.IntSlice(a))
		if !sort.IntsAreSorted(a) {
			fail("not sorted")
		}
	}''')

B("o03-skip", "O03", [(SORT, "func IsSorted(", "func() bool { return pTest(index+half, size-half) },", "func() bool { return pTest(index+half+1, size-half-1) },")],
  "a single inversion exactly at the boundary between two parts that are tested in parallel", "the inversion is overlooked",
  SORTDEMO % '''	_, _ = rand.Int, sort.Ints
	a := make([]int, 6000)
	for k := 1; k < len(a); k++ {
		for i := range a {
			a[i] = 2 * i
		}
		a[k], a[k-1] = a[k-1], a[k]
		if psort.IsSorted(psort.IntSlice(a)) {
			fail("inversion at %d is overlooked", k)
		}
	}''')

B("o04-conflict", "O04", [(MS, "func pMerge(", "		A.assign(q3, q1, 1)\n		parallel.Do(\n			func() { pMerge(T, p1, q1-1, p2, q2-1, A, p3) },\n", "		parallel.Do(\n			func() { A.assign(q3, q1, 1) },\n			func() { pMerge(T, p1, q1, p2, q2-1, A, p3) },\n")],
  "a parallel merge whose left part is larger", "the pivot of the merge is written by two goroutines at the same time (with the same value, so that the result is right)",
  SORTDEMO % '''	_ = rand.Int
	for _, n := range []int{30000, 50000, 70001} {
		a := make([]int, n)
		for i := range a {
			a[i] = rand.Intn(1000)
		}
		psort.StableSort(psort.IntSlice(a))
		if !sort.IntsAreSorted(a) {
			fail("not sorted")
		}
	}''', race=True)

B("o04-temp-late", "O04", [(MS, "func StableSort(", "			temp.Wait()\n", "			if size < data.Len() || size > 4*msortGrainSize {\n				temp.Wait()\n			}\n")],
  "a collection of at most 49152 elements whose NewTemp takes longer than sorting the quarters", "the merge uses the temporary collection before it exists",
  SORTDEMO % '''	_, _ = rand.Int, sort.Ints
	a := make(slow, 20000)
	for i := range a {
		a[i] = rand.Int()
	}
	psort.StableSort(a)
	if !sort.IntsAreSorted([]int(a)) {
		fail("not sorted")
	}
}

type slow []int

func (p slow) Len() int                { return len(p) }
func (p slow) Less(i, j int) bool      { return p[i] < p[j] }
func (p slow) SequentialSort(i, j int) { sort.Ints([]int(p[i:j])) }
func (p slow) NewTemp() psort.StableSorter {
	time.Sleep(2 * time.Second)
	return make(slow, len(p))
}
func (p slow) Assign(s psort.StableSorter) func(i, j, n int) {
	src := s.(slow)
	return func(i, j, n int) { copy(p[i:i+n], src[j:j+n]) }
''', imports=('time',))

