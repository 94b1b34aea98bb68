package main

import (
	"fmt"
	"math"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"

	"github.com/exascience/pargo/parallel"
)

func init() {
	props["D01"] = &prop{pkgs: "internal parallel speculative sequential", run: runD01, light: true}
	props["D02"] = &prop{pkgs: "internal parallel", run: runD02}
	props["D03"] = &prop{pkgs: "internal parallel", run: runD03}
	props["D04"] = &prop{pkgs: "internal parallel", run: runD04}
	props["D05"] = &prop{pkgs: "internal parallel speculative", run: runD05}
	props["S01"] = &prop{pkgs: "internal speculative", run: runS01}
	props["S02"] = &prop{pkgs: "internal speculative", run: runS02}
	props["Q01"] = &prop{pkgs: "internal sequential parallel", run: runQ01, light: true}
}

func pick[T any](xs []T, i int) T { return xs[i%len(xs)] }

func varFnsOf(pkgs ...string) (r []*varFn) {
	for _, f := range varFns {
		for _, p := range pkgs {
			if f.pkg == p {
				r = append(r, f)
			}
		}
	}
	return
}

func rangeFnsOf(pkgs ...string) (r []*rangeFn) {
	for _, f := range rangeFns {
		for _, p := range pkgs {
			if f.pkg == p {
				r = append(r, f)
			}
		}
	}
	return
}

// countFor picks a number of functions: mostly small, sometimes large.
func (c *ctx) countFor(min int) int {
	if c.chance(80) {
		return c.between(200, 1200)
	}
	switch c.IntN(10) {
	case 0:
		return c.between(min, 2)
	case 1, 2, 3, 4:
		return c.between(2, 9)
	case 5, 6, 7:
		return c.between(3, 33)
	default:
		return c.between(20, 130)
	}
}

// rangeFor picks a small interval and a batch count.
func (c *ctx) rangeFor(maxSize int) (low, high, n int) {
	var size int
	switch r := c.IntN(8); {
	case !c.race && c.chance(100): // many batches, one element each
		size = c.between(500, 1200)
		low = c.between(-50, 50)
		return low, low + size, size + c.IntN(2)
	case r == 0:
		size = c.IntN(3)
	case r < 4:
		size = c.between(2, 20)
	default:
		size = c.between(2, maxSize)
	}
	low = c.between(-50, 50)
	switch c.IntN(8) {
	case 0:
		n = 0
	case 1:
		n = size
	case 2:
		n = size + c.IntN(5)
	default:
		n = c.between(1, size+2)
	}
	return low, low + size, n
}

// ------------------------------------------------------------------ D01

func dummyJoin(x, y any) (any, bool) { return x, false }

func neutralLeaf(elem, op string) (any, bool) {
	switch op {
	case "and":
		return true, true
	case "or":
		return false, false
	case "do":
		return nil, false
	}
	switch elem {
	case "float64":
		return 0.0, false
	case "int":
		return 0, false
	case "string":
		return "", false
	}
	return 0, false
}

func runD01(c *ctx) {
	fns := rangeFnsOf("parallel", "sequential", "speculative")
	fn := pick(fns, c.i)
	if c.chance(3) {
		runtime.GOMAXPROCS(pick([]int{1, 2, 3, 5, 7, 8, 16, 33, 64}, c.IntN(9)))
	}
	if k := c.i % 10_000_000; k < len(fns)*45 {
		// every small size with every batch count
		size := k / len(fns)
		low := c.between(-60, 20)
		for n := 0; n <= size+2 && !c.failed(); n++ {
			checkPartition(c, fn, low, low+size, n, gridClass(size))
		}
		return
	}
	// several intervals per case: they are cheap
	for k := 0; k < 12; k++ {
		low, high, n, class := genInterval(c)
		checkPartition(c, fn, low, high, n, class)
		if c.failed() {
			return
		}
	}
}

func gridClass(size int) string {
	if size == 0 {
		return "empty"
	}
	return "grid of all sizes below 45 and all batch counts"
}

func genInterval(c *ctx) (low, high, n int, class string) {
	switch c.IntN(12) {
	case 0: // invalid
		low, high = c.between(-20, 20), c.between(-20, 20)
		if c.chance(2) {
			low = high
		}
		if c.chance(6) {
			low, high = math.MaxInt-c.IntN(5), c.between(-3, 3)+math.MaxInt-8
		}
		n = c.between(-3, 4)
		if c.chance(3) {
			n = math.MinInt + c.IntN(2)
		}
		if low <= high && n >= 0 {
			n = -1 - c.IntN(3)
		}
		if high < low && (low-high) < 0 { // not representable
			low = high + 1
		}
		return low, high, n, "invalid"
	case 1: // extreme bounds
		size := pick([]int{1, 7, 11, 100, 1000}, c.IntN(5)) + c.IntN(30)
		if c.chance(2) {
			high = math.MaxInt - c.IntN(3)
			low = high - size
		} else {
			low = math.MinInt + c.IntN(3)
			high = low + size
		}
		n = c.between(1, 40)
		return low, high, n, "near the ends of int"
	case 2: // huge
		switch c.IntN(5) {
		case 0:
			low, high = 0, math.MaxInt
		case 1:
			low, high = math.MinInt, -1
		case 2:
			low, high = math.MinInt/2, math.MaxInt/2
		case 3:
			low, high = -1, math.MaxInt-1
		default:
			low = -int(c.Int64N(math.MaxInt64 / 2))
			high = int(c.Int64N(math.MaxInt64 / 2))
		}
		n = c.between(0, 70)
		if c.chance(6) {
			n = c.between(70, 2500)
		}
		return low, high, n, "huge"
	case 3: // empty
		low = c.between(-5, 5)
		if c.chance(4) {
			low = pick([]int{math.MaxInt, math.MinInt, math.MaxInt - 1}, c.IntN(3))
		}
		n = c.between(0, 9)
		if c.chance(5) {
			n = math.MaxInt
		}
		return low, low, n, "empty"
	case 4: // more batches than elements
		low = c.between(-30, 30)
		high = low + c.between(1, 40)
		n = high - low + c.IntN(20)
		if c.chance(3) {
			n = math.MaxInt - c.IntN(3)
		}
		return low, high, n, "many batches"
	case 5:
		low = c.between(-1000, 1000)
		high = low + c.between(200, 3000)
		n = c.between(1, 300)
		switch c.IntN(6) {
		case 0:
			n = high - low + c.IntN(3)
		case 1:
			n = c.between(300, high-low+300)
		case 2:
			high = low + n*c.between(2, 12)
		}
		return low, high, n, "large"
	case 6:
		low = c.between(-1000, 1000)
		high = low + c.between(1, 400)
		return low, high, 0, "default batches"
	default: // dense small cases
		low = c.between(-40, 40)
		high = low + c.between(1, 70)
		return low, high, c.between(1, 72), "small"
	}
}

func checkPartition(c *ctx, fn *rangeFn, low, high, n int, class string) {
	type iv struct{ lo, hi int }
	var mu sync.Mutex
	var got []iv
	v, vb := neutralLeaf(fn.elem, fn.op)
	what := fmt.Sprintf("%s.%s(%d, %d, n=%d) with GOMAXPROCS %d", fn.pkg, fn.name, low, high, n, runtime.GOMAXPROCS(0))
	c.Describe("%s (%s)", what, class)
	over := false
	_, panicked := try(func() {
		fn.run(low, high, n, dummyJoin, func(lo, hi int) (any, bool) {
			mu.Lock()
			if len(got) < 20000 {
				got = append(got, iv{lo, hi})
			} else {
				over = true
			}
			mu.Unlock()
			if over {
				panic("too many batches")
			}
			return v, vb
		})
	})
	if fn.pkg == "speculative" {
		libraryGoroutines(c)
	}
	mu.Lock()
	defer mu.Unlock()
	c.Obs("intervals: "+class, 1)
	c.Obs("batches observed", len(got))
	if class == "invalid" {
		if !panicked {
			c.Fail("%s does not panic", what)
		}
		if len(got) > 0 {
			c.Fail("%s invokes the range function with %v", what, got)
		}
		c.Nontrivial(fn.name, fn.pkg, low, high, n)
		return
	}
	if panicked {
		c.Fail("%s panics after batches %v", what, clip(fmt.Sprint(got)))
		return
	}
	sort.Slice(got, func(i, j int) bool {
		if got[i].lo != got[j].lo {
			return got[i].lo < got[j].lo
		}
		return got[i].hi < got[j].hi
	})
	if n > 0 && len(got) > n {
		c.Fail("%s: %d batches, more than n", what, len(got))
	}
	if low == high {
		if len(got) != 1 || got[0] != (iv{low, low}) {
			c.Fail("%s: batches %v instead of one empty batch", what, got)
		}
		c.Nontrivial(fn.name, fn.pkg, low, high, n)
		return
	}
	// n batches that divide the interval evenly, if that is possible
	even := 0
	if size := high - low; n >= size {
		even = 1
	} else if n > 0 && size%n == 0 {
		even = size / n
	}
	at := low
	for _, g := range got {
		if even > 0 && g.hi-g.lo != even {
			c.Fail("%s: batch [%d,%d) where all batches can have the same size %d", what, g.lo, g.hi, even)
			return
		}
		if g.lo != at || g.hi <= g.lo || g.hi > high {
			c.Fail("%s: batch [%d,%d) where one starting at %d was expected; all batches: %s", what, g.lo, g.hi, at, clip(fmt.Sprint(got)))
			return
		}
		at = g.hi
	}
	if at != high {
		c.Fail("%s: batches end at %d: %s", what, at, clip(fmt.Sprint(got)))
	}
	if len(got) > 1 {
		c.Nontrivial(fn.name, fn.pkg, low, high, n)
		c.Obs("intervals split into several batches", 1)
	}
	c.Max("batches of one call", len(got))
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

// ------------------------------------------------------------------ D02

// slot is what one user function leaves behind. It is written with plain
// stores and read by the caller after the call: the race detector reports it
// if the call does not order the two.
type slot struct {
	started, done int
	payload       []int
	_             [40]byte
}

func runD02(c *ctx) {
	if c.i%2 == 0 {
		fn := pick(varFnsOf("parallel"), c.i/2)
		k := c.countFor(fn.min)
		nested := c.chance(6)
		slots := make([]slot, k)
		inner := make([]slot, k)
		delays := c.delays(k, true)
		panics, kinds := c.panicSet(k)
		fs := make([]leafFn, k)
		vals := make([]any, k)
		for i := range vals {
			vals[i] = genValue(c.Rand, fn.elem, fn.op, i)
		}
		c.specials(fn.elem, fn.op, vals)
		for i := range fs {
			i := i
			val := vals[i]
			b, _ := val.(bool)
			fs[i] = func() (any, bool) {
				s := &slots[i]
				s.started++
				delays[i].spend()
				if nested && i%3 == 0 {
					parallel.Do(
						func() { inner[i].started++ },
						func() { delays[(i+1)%k].spend(); inner[i].done++ },
					)
				}
				s.payload = append(s.payload, i)
				s.done++
				if panics[i] {
					doPanic(kinds[i], i)
				}
				return val, b
			}
		}
		join := func(x, y any) (any, bool) { return combine(fn.elem, fn.op, x, y), false }
		what := fmt.Sprintf("%s.%s of %d functions, panics %v, delays %v", fn.pkg, fn.name, k, setOf(panics), clip(fmt.Sprint(delays)))
		c.Describe("%s", what)
		_, panicked := try(func() { fn.run(join, fs) })
		checkSlots(c, what, slots, func(i int) string { return fmt.Sprintf("function %d", i) })
		for i := range inner {
			if nested && i%3 == 0 && (inner[i].started != 1 || inner[i].done != 1) {
				c.Fail("%s: nested Do in function %d ran its functions %d and %d times", what, i, inner[i].started, inner[i].done)
			}
		}
		c.forkStats(k, panicked)
		if k > 1 {
			c.Nontrivial(fn.name, k, setOf(panics), delays)
		}
		return
	}
	fn := pick(rangeFnsOf("parallel"), c.i/2)
	low, high, n := c.rangeFor(120)
	k := high - low
	slots := make([]slot, k+1)
	delays := c.delays(k+1, true)
	panics, kinds := c.panicSet(k)
	vals := make([]any, k+1)
	for i := range vals {
		vals[i] = genValue(c.Rand, fn.elem, fn.op, i)
	}
	c.specials(fn.elem, fn.op, vals)
	batches := make([]int, k+1) // slot of its low: plain
	join := func(x, y any) (any, bool) { return combine(fn.elem, fn.op, x, y), false }
	what := fmt.Sprintf("%s.%s(%d,%d,%d), panics %v", fn.pkg, fn.name, low, high, n, setOf(panics))
	c.Describe("%s", what)
	_, panicked := try(func() {
		fn.run(low, high, n, join, func(lo, hi int) (any, bool) {
			a, b := lo-low, hi-low
			if a < 0 || b > k || a > b {
				c.Fail("%s: batch [%d,%d) outside the range", what, lo, hi)
				return neutralLeaf(fn.elem, fn.op)
			}
			batches[a]++
			if a == b {
				slots[k].started++
				delays[k].spend()
				slots[k].done++
				return vals[k], false
			}
			for i := a; i < b; i++ {
				slots[i].started++
			}
			delays[a].spend()
			for i := a; i < b; i++ {
				slots[i].payload = append(slots[i].payload, i)
				slots[i].done++
			}
			for i := a; i < b; i++ {
				if panics[i] {
					doPanic(kinds[i], i)
				}
			}
			v := vals[a]
			bb, _ := v.(bool)
			return v, bb
		})
	})
	if k > 0 {
		checkSlots(c, what, slots[:k], func(i int) string { return fmt.Sprintf("the batch of index %d", low+i) })
	} else if slots[0].started != 1 || slots[0].done != 1 {
		c.Fail("%s: the range function started %d times and ended %d times on the empty interval", what, slots[0].started, slots[0].done)
	}
	nb := 0
	for _, b := range batches {
		nb += b
	}
	c.forkStats(nb, panicked)
	if nb > 1 {
		c.Nontrivial(fn.name, low, high, n, setOf(panics), delays)
	}
}

func (c *ctx) forkStats(k int, panicked bool) {
	c.Obs("calls", 1)
	c.Obs("functions or batches run", k)
	if panicked {
		c.Obs("calls that panicked", 1)
	}
}

func (c *ctx) panicSet(k int) (panics []bool, kinds []string) {
	panics, kinds = make([]bool, k), make([]string, k)
	if k == 0 {
		return
	}
	switch c.IntN(4) {
	case 0, 1:
	case 2:
		for j := c.between(1, 3); j > 0; j-- {
			panics[c.IntN(k)] = true
		}
	case 3:
		for i := range panics {
			panics[i] = c.chance(4)
		}
	}
	for i := range kinds {
		kinds[i] = panicKinds[c.IntN(len(panicKinds))]
	}
	return
}

func setOf(b []bool) (r []int) {
	for i, x := range b {
		if x {
			r = append(r, i)
		}
	}
	return
}

func checkSlots(c *ctx, what string, slots []slot, name func(i int) string) {
	for i := range slots {
		s := &slots[i]
		if s.started != 1 || s.done != 1 || len(s.payload) != 1 {
			c.Fail("%s: when the call exits, %s has started %d times and finished %d times (payload %v)", what, name(i), s.started, s.done, s.payload)
			return
		}
	}
}

// ------------------------------------------------------------------ D03

func runD03(c *ctx) {
	if c.i%2 == 0 {
		fn := pick(varFnsOf("parallel"), c.i/2)
		k := c.countFor(fn.min)
		if c.i/2 < 4*len(varFns) && (c.i/2)/len(varFnsOf("parallel")) < 4 {
			k = fn.min + (c.i/2)/len(varFnsOf("parallel")) // every function with few arguments, systematically
		}
		if fn.elem == "float64" && fn.op == "prod" && k > 60 {
			k = 60
		}
		delays := c.delays(k, false)
		fs, vals := make([]leafFn, k), make([]any, k)
		for i := range vals {
			vals[i] = genValue(c.Rand, fn.elem, fn.op, i)
		}
		c.specials(fn.elem, fn.op, vals)
		for i := range fs {
			i := i
			b, _ := vals[i].(bool)
			fs[i] = func() (any, bool) { delays[i].spend(); return vals[i], b }
		}
		var joins atomic.Int64
		join := func(x, y any) (any, bool) { joins.Add(1); return combine(fn.elem, fn.op, x, y), false }
		got, _ := fn.run(join, fs)
		want := fold(fn.elem, fn.op, vals)
		what := fmt.Sprintf("%s.%s of %d functions with results %s", fn.pkg, fn.name, k, clip(fmt.Sprint(vals)))
		c.Describe("%s", what)
		if !same(got, want) {
			c.Fail("%s = %s, the left-to-right combination is %s", what, clip(fmt.Sprint(got)), clip(fmt.Sprint(want)))
		}
		if fn.op == "join" && int(joins.Load()) != k-1 {
			c.Fail("%s: join was called %d times", what, joins.Load())
		}
		c.forkStats(k, false)
		if k == 0 {
			c.Obs("calls without functions", 1)
		}
		c.Nontrivial(fn.name, clip(fmt.Sprint(vals)), k, delays)
		return
	}
	fn := pick(rangeFnsOf("parallel"), c.i/2)
	low, high, n := c.rangeFor(100)
	if fn.elem == "float64" && fn.op == "prod" && high-low > 60 {
		high = low + 60
	}
	k := high - low
	vals := make([]any, k)
	for i := range vals {
		vals[i] = genValue(c.Rand, fn.elem, fn.op, i)
	}
	c.specials(fn.elem, fn.op, vals)
	empty := genValue(c.Rand, fn.elem, fn.op, 0)
	delays := c.delays(k+1, false)
	var joins, batches atomic.Int64
	join := func(x, y any) (any, bool) { joins.Add(1); return combine(fn.elem, fn.op, x, y), false }
	what := fmt.Sprintf("%s.%s(%d,%d,%d)", fn.pkg, fn.name, low, high, n)
	c.Describe("%s", what)
	got, _ := fn.run(low, high, n, join, func(lo, hi int) (any, bool) {
		batches.Add(1)
		if lo < low || hi > high || hi < lo {
			c.Fail("%s: batch [%d,%d)", what, lo, hi)
			return neutralLeaf(fn.elem, fn.op)
		}
		delays[lo-low].spend()
		if lo == hi {
			b, _ := empty.(bool)
			return empty, b
		}
		v := fold(fn.elem, fn.op, vals[lo-low:hi-low])
		b, _ := v.(bool)
		return v, b
	})
	want := empty
	if k > 0 {
		want = fold(fn.elem, fn.op, vals)
	}
	if !same(got, want) {
		c.Fail("%s = %s, the left-to-right combination is %s", what, clip(fmt.Sprint(got)), clip(fmt.Sprint(want)))
	}
	if fn.op == "join" && joins.Load() != batches.Load()-1 {
		c.Fail("%s: %d joins of %d batches", what, joins.Load(), batches.Load())
	}
	c.forkStats(int(batches.Load()), false)
	c.Nontrivial(fn.name, low, high, n, clip(fmt.Sprint(vals)))
}

// ------------------------------------------------------------------ D04

func runD04(c *ctx) {
	if c.i%2 == 0 {
		fn := pick(varFnsOf("parallel"), c.i/2)
		k := c.countFor(fn.min)
		panics, kinds := c.panicSet(k)
		if k > 0 && c.chance(3) {
			clear(panics)
			panics[c.IntN(k)] = true
		}
		delays := c.delays(k, true)
		joinPanic := int64(0)
		if fn.op == "join" && k > 1 && len(setOf(panics)) == 0 && c.chance(2) {
			joinPanic = int64(c.between(1, k-1))
		}
		joinKind := panicKinds[c.IntN(len(panicKinds))]
		var joins atomic.Int64
		join := func(x, y any) (any, bool) {
			if joins.Add(1) == joinPanic {
				doPanic(joinKind, 5000)
			}
			return combine(fn.elem, fn.op, x, y), false
		}
		fs := make([]leafFn, k)
		vals := make([]any, k)
		for i := range vals {
			vals[i] = genValue(c.Rand, fn.elem, fn.op, i)
		}
		c.specials(fn.elem, fn.op, vals)
		for i := range fs {
			i := i
			val := vals[i]
			b, _ := val.(bool)
			fs[i] = func() (any, bool) {
				delays[i].spend()
				if panics[i] {
					doPanic(kinds[i], i)
				}
				return val, b
			}
		}
		what := fmt.Sprintf("%s.%s of %d functions, panics %s, delays %v", fn.pkg, fn.name, k, panicsText(panics, kinds), clip(fmt.Sprint(delays)))
		if joinPanic > 0 {
			what += fmt.Sprintf(", join panics (%s) when called for the %d. time", joinKind, joinPanic)
		}
		c.Describe("%s", what)
		p, panicked := try(func() { fn.run(join, fs) })
		if joinPanic > 0 {
			c.checkLeftmost(what, p, panicked, 5000, joinKind)
		} else {
			c.checkLeftmostOf(what, p, panicked, panics, kinds)
		}
		c.forkStats(k, panicked)
		c.Nontrivial(fn.name, k, panicsText(panics, kinds), delays, joinPanic)
		return
	}
	fn := pick(rangeFnsOf("parallel"), c.i/2)
	low, high, n := c.rangeFor(100)
	k := high - low
	panics, kinds := c.panicSet(k)
	if k > 0 && c.chance(3) {
		clear(panics)
		panics[c.IntN(k)] = true
	}
	delays := c.delays(k+1, true)
	v, vb := neutralLeaf(fn.elem, fn.op)
	if (fn.op == "sum" || fn.op == "prod") && c.chance(3) {
		v = special(c.Rand, fn.elem, fn.op)
	}
	what := fmt.Sprintf("%s.%s(%d,%d,%d), panics at offsets %s", fn.pkg, fn.name, low, high, n, panicsText(panics, kinds))
	c.Describe("%s", what)
	p, panicked := try(func() {
		fn.run(low, high, n, func(x, y any) (any, bool) { return v, false }, func(lo, hi int) (any, bool) {
			delays[lo-low].spend()
			for i := lo; i < hi; i++ {
				if panics[i-low] {
					doPanic(kinds[i-low], i-low)
				}
			}
			return v, vb
		})
	})
	c.checkLeftmostOf(what, p, panicked, panics, kinds)
	c.forkStats(0, panicked)
	c.Nontrivial(fn.name, low, high, n, panicsText(panics, kinds))
}

func panicsText(panics []bool, kinds []string) string {
	s := "["
	for _, i := range setOf(panics) {
		s += fmt.Sprintf(" %d:%s", i, kinds[i])
	}
	return clip(s) + " ]"
}

func (c *ctx) checkLeftmostOf(what string, p any, panicked bool, panics []bool, kinds []string) {
	set := setOf(panics)
	if len(set) == 0 {
		if panicked {
			c.Fail("%s: the call panics with %s although no function does", what, clip(fmt.Sprint(p)))
		}
		return
	}
	c.checkLeftmost(what, p, panicked, set[0], kinds[set[0]])
	c.Max("simultaneous panics", len(set))
}

func (c *ctx) checkLeftmost(what string, p any, panicked bool, want int, kind string) {
	if !panicked {
		c.Fail("%s: the call does not panic", what)
	} else if m := checkPanic(p, want, kind); m != "" {
		c.Fail("%s: %s", what, m)
	} else {
		c.Obs("panics of kind "+kind+" received", 1)
	}
}

// ------------------------------------------------------------------ D05

func runD05(c *ctx) {
	if c.chance(2) {
		runtime.GOMAXPROCS(pick([]int{1, 2, 3, 8}, c.IntN(4)))
	}
	// functions wait until all of them have started
	var mu sync.Mutex
	release := make(chan struct{})
	started := 0
	if c.i%2 == 0 {
		fn := pick(varFnsOf("parallel", "speculative"), c.i/2)
		k := c.countFor(fn.min)
		fs := make([]leafFn, k)
		ran := 0
		v, vb := neutralLeaf(fn.elem, fn.op)
		for i := range fs {
			fs[i] = func() (any, bool) {
				mu.Lock()
				ran++
				if started++; started == k {
					close(release)
				}
				mu.Unlock()
				<-release
				return v, vb
			}
		}
		c.Describe("%s.%s of %d functions with GOMAXPROCS %d", fn.pkg, fn.name, k, runtime.GOMAXPROCS(0))
		c.Hang("%s", c.desc+" does not run all functions at the same time")
		fn.run(func(x, y any) (any, bool) { return v, false }, fs)
		libraryGoroutines(c)
		c.Obs("simultaneous functions", k)
		if k > 1 {
			c.Nontrivial(fn.pkg, fn.name, k, runtime.GOMAXPROCS(0))
		}
		return
	}
	fn := pick(rangeFnsOf("parallel", "speculative"), c.i/2)
	low, high, n := c.rangeFor(100)
	v, vb := neutralLeaf(fn.elem, fn.op)
	covered := 0
	c.Describe("%s.%s(%d,%d,%d) with GOMAXPROCS %d", fn.pkg, fn.name, low, high, n, runtime.GOMAXPROCS(0))
	c.Hang("%s", c.desc+" does not run all batches at the same time")
	fn.run(low, high, n, func(x, y any) (any, bool) { return v, false }, func(lo, hi int) (any, bool) {
		mu.Lock()
		started++
		covered += hi - lo
		if covered == high-low {
			select {
			case <-release:
			default:
				close(release)
			}
		}
		mu.Unlock()
		<-release
		return v, vb
	})
	libraryGoroutines(c)
	mu.Lock()
	defer mu.Unlock()
	c.Obs("simultaneous batches", started)
	if started > 1 {
		c.Nontrivial(fn.pkg, fn.name, low, high, n)
	}
}

// ------------------------------------------------------------------ S01

const (
	plain = iota
	decides
	panics_
)

// specPlan says what each element does. Joins decide or panic when the
// boundary between their two parts is in the plan.
type specPlan struct {
	leaf  []int
	kinds []string
	join  []int // by boundary
}

func (c *ctx) specPlan(k int, withJoins bool) specPlan {
	p := specPlan{make([]int, k), make([]string, k), make([]int, k+1)}
	for i := range p.kinds {
		p.kinds[i] = panicKinds[c.IntN(len(panicKinds))]
	}
	if k == 0 {
		return p
	}
	density := 0
	switch c.IntN(5) {
	case 0: // nothing decides
	case 1: // one
		p.leaf[c.IntN(k)] = 1 + c.IntN(2)
	case 2: // a few
		for j := c.between(2, 4); j > 0; j-- {
			p.leaf[c.IntN(k)] = 1 + c.IntN(2)
		}
	case 3:
		density = 3
	case 4:
		density = 8
	}
	if density > 0 {
		for i := range p.leaf {
			if c.chance(density) {
				p.leaf[i] = 1 + c.IntN(2)
			}
		}
	}
	if withJoins && c.chance(2) {
		if c.chance(2) {
			clear(p.leaf)
		}
		d := pick([]int{1, 2, 3, 6, 20}, c.IntN(5))
		for i := range p.join {
			if c.chance(d) && c.chance(2) {
				p.join[i] = 1 + c.IntN(2)
			}
		}
	}
	return p
}

func (p specPlan) String() string {
	s := ""
	for i, a := range p.leaf {
		if a == decides {
			s += fmt.Sprintf(" %d:decides", i)
		} else if a == panics_ {
			s += fmt.Sprintf(" %d:panics(%s)", i, p.kinds[i])
		}
	}
	for i, a := range p.join {
		if a != plain {
			s += fmt.Sprintf(" join@%d:%s", i, []string{"", "decides", "panics"}[a])
		}
	}
	if s == "" {
		return "nothing decides"
	}
	return clip(s)
}

const joinMarker = 100000

func runS01(c *ctx) {
	var pkg, name, elem, op string
	var call func(join joinFn, leaf func(lo, hi int) (any, bool)) (any, bool)
	var k, low int
	isRange := c.i%2 == 1
	if !isRange {
		fn := pick(varFnsOf("speculative"), c.i/2)
		pkg, name, elem, op = fn.pkg, fn.name, fn.elem, fn.op
		k = c.countFor(fn.min)
		call = func(join joinFn, leaf func(lo, hi int) (any, bool)) (any, bool) {
			fs := make([]leafFn, k)
			for i := range fs {
				i := i
				fs[i] = func() (any, bool) { return leaf(i, i+1) }
			}
			return fn.run(join, fs)
		}
	} else {
		fn := pick(rangeFnsOf("speculative"), c.i/2)
		pkg, name, elem, op = fn.pkg, fn.name, fn.elem, fn.op
		var high, n int
		low, high, n = c.rangeFor(90)
		if high == low {
			high++
		}
		k = high - low
		name = fmt.Sprintf("%s(%d,%d,%d)", name, low, high, n)
		call = func(join joinFn, leaf func(lo, hi int) (any, bool)) (any, bool) {
			return fn.run(low, high, n, join, func(lo, hi int) (any, bool) { return leaf(lo-low, hi-low) })
		}
	}
	plan := c.specPlan(k, op == "join")
	c.zeroPart(k)
	delays := c.delays(k, true)
	decisive := op != "and" // the boolean that decides
	var mu sync.Mutex
	type event struct {
		lo, hi, mid, action int
	}
	var joins []event
	var bad string
	ended := make([]slot, k)
	leaf := func(lo, hi int) (any, bool) {
		delays[lo].spend()
		for i := lo; i < hi; i++ {
			ended[i].done++
		}
		for i := lo; i < hi; i++ {
			switch plan.leaf[i] {
			case decides:
				return c.encIval(elem, ival{i, i, 1}), decisive
			case panics_:
				doPanic(plan.kinds[i], i)
			}
		}
		return c.encIval(elem, ival{lo, hi, 0}), !decisive
	}
	join := func(x, y any) (any, bool) {
		a, ok1 := c.decIval(elem, x)
		b, ok2 := c.decIval(elem, y)
		mu.Lock()
		if bad == "" && (!ok1 || !ok2 || a.flag != 0 || b.flag != 0 || a.hi != b.lo || a.lo >= a.hi || b.lo >= b.hi) {
			bad = fmt.Sprintf("join is called with %+v and %+v, which are not values of two adjacent parts that did not decide", a, b)
		}
		action := plain
		if ok1 && ok2 && a.hi >= 0 && a.hi <= k {
			action = plan.join[a.hi]
		}
		if action != plain {
			joins = append(joins, event{a.lo, b.hi, a.hi, action})
		}
		mu.Unlock()
		switch action {
		case decides:
			return c.encIval(elem, ival{a.lo, b.hi, 2}), true
		case panics_:
			doPanic("error", joinMarker+a.hi)
		}
		return c.encIval(elem, ival{a.lo, b.hi, 0}), false
	}
	what := fmt.Sprintf("%s.%s of %d elements (%v), delays %v", pkg, name, k, plan, clip(fmt.Sprint(delays)))
	c.Describe("%s", what)
	var got any
	var gotB bool
	p, panicked := try(func() { got, gotB = call(join, leaf) })
	// the decisive events so far
	mu.Lock()
	best := event{lo: k + 1}
	for i, a := range plan.leaf {
		if a != plain {
			best = event{i, i + 1, -1, a}
			break
		}
	}
	for _, e := range joins {
		if e.lo < best.lo {
			best = e
		}
	}
	badJoin := bad
	mu.Unlock()
	if badJoin != "" {
		c.Fail("%s: %s", what, badJoin)
	}
	switch {
	case best.action == plain:
		c.Obs("calls without a decision", 1)
		if panicked {
			c.Fail("%s: panics with %s", what, clip(fmt.Sprint(p)))
			break
		}
		if gotB == decisive {
			c.Fail("%s: returns the decisive result %v, %v", what, got, gotB)
		}
		if op == "join" {
			if v, ok := c.decIval(elem, got); !ok || v != (ival{0, k, 0}) {
				c.Fail("%s: returns %v, not the combination of all values", what, got)
			}
		}
		for i := range ended {
			if ended[i].done != 1 {
				c.Fail("%s: returned although element %d was handled %d times", what, i, ended[i].done)
				break
			}
		}
	case best.action == decides:
		c.Obs("calls with a decision", 1)
		if panicked {
			c.Fail("%s: panics with %s, the left-most outcome is the decision at %+v", what, clip(fmt.Sprint(p)), best)
			break
		}
		if gotB != decisive {
			c.Fail("%s: returns %v, %v although element %+v decides", what, got, gotB, best)
		}
		if op == "join" {
			want := ival{best.lo, best.lo, 1}
			if best.mid >= 0 {
				want = ival{best.lo, best.hi, 2}
			}
			if v, ok := c.decIval(elem, got); !ok || v != want {
				c.Fail("%s: returns %v (%+v), the left-most decision is %+v", what, got, v, want)
			}
		}
	default:
		c.Obs("calls with a panic", 1)
		if !panicked {
			c.Fail("%s: returns %v, %v, the left-most outcome is the panic at %+v", what, got, gotB, best)
			break
		}
		want, kind := best.lo, ""
		if best.mid >= 0 {
			want, kind = joinMarker+best.mid, "error"
		} else {
			kind = plan.kinds[want]
		}
		if m := checkPanic(p, want, kind); m != "" {
			c.Fail("%s: %s", what, m)
		}
	}
	if best.mid > 0 && best.action != plain {
		c.Obs("outcomes determined by a join", 1)
	}
	libraryGoroutines(c)
	if k > 1 {
		c.Nontrivial(pkg, name, k, plan.String(), delays)
	}
}

// ------------------------------------------------------------------ S02

func runS02(c *ctx) {
	isRange := c.i%2 == 1
	var name, elem, op string
	var k int
	var call func(join joinFn, leaf func(lo, hi int) (any, bool)) (any, bool)
	if !isRange {
		fn := pick(varFnsOf("speculative"), c.i/2)
		name, elem, op = fn.name, fn.elem, fn.op
		k = c.countFor(2)
		if k < 2 {
			k = 2
		}
		call = func(join joinFn, leaf func(lo, hi int) (any, bool)) (any, bool) {
			fs := make([]leafFn, k)
			for i := range fs {
				i := i
				fs[i] = func() (any, bool) { return leaf(i, i+1) }
			}
			return fn.run(join, fs)
		}
	} else {
		fn := pick(rangeFnsOf("speculative"), c.i/2)
		name, elem, op = fn.name, fn.elem, fn.op
		low, high, n := c.rangeFor(60)
		if high-low < 2 {
			high = low + 2
		}
		k = high - low
		name = fmt.Sprintf("%s(%d,%d,%d)", name, low, high, n)
		call = func(join joinFn, leaf func(lo, hi int) (any, bool)) (any, bool) {
			return fn.run(low, high, n, join, func(lo, hi int) (any, bool) { return leaf(lo-low, hi-low) })
		}
	}
	d := c.IntN(k)
	switch c.IntN(4) {
	case 0:
		d = 0
	case 1:
		d = k / 2
	case 2:
		d = k - 1
	}
	gate := make(chan struct{})
	delays := c.delays(k, false)
	// what the functions right of the decision do once they are released
	late := make([]int, k)
	for i := range late {
		late[i] = c.IntN(3)
	}
	private := make([]int, k)
	c.zeroPart(k)
	var blocked, lateRuns atomic.Int64
	decisive := op != "and"
	leaf := func(lo, hi int) (any, bool) {
		if lo > d {
			blocked.Add(1)
			<-gate
			lateRuns.Add(1)
			private[lo]++
			delays[lo].spend()
			switch late[lo] {
			case 0:
				panic("late " + marker(lo))
			case 1:
				return c.encIval(elem, ival{lo, lo, 1}), decisive
			}
			return c.encIval(elem, ival{lo, hi, 0}), !decisive
		}
		delays[lo].spend()
		if d < hi {
			return c.encIval(elem, ival{d, d, 1}), decisive
		}
		return c.encIval(elem, ival{lo, hi, 0}), !decisive
	}
	join := func(x, y any) (any, bool) {
		a, _ := c.decIval(elem, x)
		b, _ := c.decIval(elem, y)
		return c.encIval(elem, ival{a.lo, b.hi, 0}), false
	}
	what := fmt.Sprintf("speculative.%s of %d elements, %d decides, everything right of it is blocked", name, k, d)
	c.Describe("%s", what)
	c.Hang("%s", what+", and the call waits for it")
	var got any
	var gotB bool
	p, panicked := try(func() { got, gotB = call(join, leaf) })
	check := func(when string) {
		if panicked {
			c.Fail("%s: %s the call panicked: %s", what, when, clip(fmt.Sprint(p)))
			return
		}
		if gotB != decisive {
			c.Fail("%s: %s the result is %v, %v", what, when, got, gotB)
			return
		}
		if op == "join" {
			if v, ok := c.decIval(elem, got); !ok || v != (ival{d, d, 1}) {
				c.Fail("%s: %s the result is %v (%+v)", what, when, got, v)
			}
		}
	}
	check("on return")
	c.Obs("functions blocked when the call returned", int(blocked.Load()))
	close(gate)
	if left := libraryGoroutines(c); len(left) > 0 {
		c.Fail("%s: goroutines never end after the late functions were released: %s", what, clip(left[0].text))
	}
	check("after late functions ended")
	c.Obs("late functions that ended after the call", int(lateRuns.Load()))
	c.Obs("calls", 1)
	if d < k-1 {
		c.Nontrivial(name, k, d, delays, late)
	}
}

// ------------------------------------------------------------------ Q01

func runQ01(c *ctx) {
	me := goid()
	if c.i%2 == 0 {
		fn := pick(varFnsOf("sequential"), c.i/2)
		k := c.countFor(fn.min)
		pan := -1
		kind := panicKinds[c.IntN(len(panicKinds))]
		if k > 0 && c.chance(4) {
			pan = c.IntN(k)
		}
		vals := make([]any, k)
		for i := range vals {
			vals[i] = genValue(c.Rand, fn.elem, fn.op, i)
		}
		c.specials(fn.elem, fn.op, vals)
		if fn.op == "and" || fn.op == "or" {
			if c.chance(2) {
				for i := range vals {
					vals[i] = fn.op == "and"
				}
			}
		}
		if fn.elem == "float64" && fn.op == "prod" && k > 60 {
			vals = vals[:60]
			k = 60
			if pan >= k {
				pan = -1
			}
		}
		var order []int
		otherG, running := "", 0
		the := &panicError{"the value " + marker(0)}
		mk := func(monitor bool) []leafFn {
			fs := make([]leafFn, k)
			for i := range fs {
				i := i
				b, _ := vals[i].(bool)
				fs[i] = func() (any, bool) {
					if monitor {
						if g := goid(); g != me {
							otherG = g
						}
						running++
						if running != 1 {
							c.Fail("functions run concurrently")
						}
						order = append(order, i)
						running--
						if i == pan {
							if kind == "error" {
								panic(the)
							}
							doPanic(kind, i)
						}
					}
					return vals[i], b
				}
			}
			return fs
		}
		join := func(x, y any) (any, bool) { return combine(fn.elem, fn.op, x, y), false }
		what := fmt.Sprintf("sequential.%s of %d functions, panic at %d, results %s", fn.name, k, pan, clip(fmt.Sprint(vals)))
		c.Describe("%s", what)
		var got any
		p, panicked := try(func() { got, _ = fn.run(join, mk(true)) })
		short := fn.op == "and" || fn.op == "or"
		decided := -1
		if short {
			for i, v := range vals {
				if v.(bool) == (fn.op == "or") {
					decided = i
					break
				}
			}
		}
		checkSequence(c, what, order, k, pan, decided, panicked, otherG)
		if panicked {
			if pan < 0 || (kind == "error" && p != any(the)) {
				c.Fail("%s: panics with %v", what, clip(fmt.Sprint(p)))
			} else if kind != "error" {
				if m := checkPanic(p, pan, kind); m != "" {
					c.Fail("%s: %s", what, m)
				}
			}
		} else {
			want := fold(fn.elem, fn.op, vals)
			if !same(got, want) {
				c.Fail("%s = %s, want %s", what, clip(fmt.Sprint(got)), clip(fmt.Sprint(want)))
			}
			for _, pf := range varFnsOf("parallel") {
				if pf.name == fn.name {
					pg, _ := pf.run(join, mk(false))
					if !same(got, pg) {
						c.Fail("%s = %s, the parallel counterpart returns %s", what, clip(fmt.Sprint(got)), clip(fmt.Sprint(pg)))
					}
					c.Obs("comparisons with the parallel counterpart", 1)
				}
			}
		}
		c.Obs("functions run", len(order))
		if k > 1 {
			c.Nontrivial(fn.name, k, pan, vals)
		}
		return
	}
	fn := pick(rangeFnsOf("sequential"), c.i/2)
	low, high, n := c.rangeFor(100)
	if fn.elem == "float64" && fn.op == "prod" && high-low > 60 {
		high = low + 60
	}
	k := high - low
	vals := make([]any, k)
	for i := range vals {
		vals[i] = genValue(c.Rand, fn.elem, fn.op, i)
	}
	c.specials(fn.elem, fn.op, vals)
	emptyVal := genValue(c.Rand, fn.elem, fn.op, 0)
	pan := -1
	kind := panicKinds[c.IntN(len(panicKinds))]
	if k > 0 && c.chance(4) {
		pan = c.IntN(k)
	}
	at, otherG, running, nb, over := low, "", 0, 0, false
	calls := 0
	batch := func(lo, hi int) any {
		if lo == hi {
			return emptyVal
		}
		return fold(fn.elem, fn.op, vals[lo-low:hi-low])
	}
	join := func(x, y any) (any, bool) { return combine(fn.elem, fn.op, x, y), false }
	what := fmt.Sprintf("sequential.%s(%d,%d,%d), panic at offset %d", fn.name, low, high, n, pan)
	c.Describe("%s", what)
	var got any
	the := &panicError{"the value"}
	p, panicked := try(func() {
		got, _ = fn.run(low, high, n, join, func(lo, hi int) (any, bool) {
			if g := goid(); g != me {
				otherG = g
			}
			calls++
			running++
			if running != 1 {
				c.Fail("%s: batches run concurrently", what)
			}
			if lo != at || hi < lo || hi > high {
				c.Fail("%s: batch [%d,%d) when [%d,..) was next", what, lo, hi, at)
			}
			if over {
				c.Fail("%s: batch [%d,%d) runs after a panic", what, lo, hi)
			}
			at = hi
			nb++
			running--
			if pan >= lo-low && pan < hi-low {
				over = true
				if kind == "error" {
					panic(the)
				}
				doPanic(kind, pan)
			}
			if lo < low || hi > high || hi < lo {
				return neutralLeaf(fn.elem, fn.op)
			}
			v := batch(lo, hi)
			b, _ := v.(bool)
			return v, b
		})
	})
	if otherG != "" {
		c.Fail("%s: a batch runs in goroutine %s instead of the caller's %s", what, otherG, me)
	}
	if (pan >= 0) != panicked && !((fn.op == "and" || fn.op == "or") && pan >= 0) {
		c.Fail("%s: panicked: %v (%s)", what, panicked, clip(fmt.Sprint(p)))
	}
	if panicked && pan >= 0 {
		if kind == "error" {
			if p != any(the) {
				c.Fail("%s: the panic value was changed to %v", what, clip(fmt.Sprint(p)))
			}
		} else if m := checkPanic(p, pan, kind); m != "" {
			c.Fail("%s: %s", what, m)
		}
	}
	if !panicked {
		want := emptyVal
		if k > 0 {
			want = fold(fn.elem, fn.op, vals)
		}
		if !same(got, want) {
			c.Fail("%s = %s, want %s", what, clip(fmt.Sprint(got)), clip(fmt.Sprint(want)))
		}
		if at != high && !(fn.op == "and" || fn.op == "or") {
			c.Fail("%s: ended at %d", what, at)
		}
		if k == 0 && calls != 1 {
			c.Fail("%s: %d calls for the empty interval", what, calls)
		}
		for _, pf := range rangeFnsOf("parallel") {
			if pf.name == fn.name {
				pg, _ := pf.run(low, high, n, join, func(lo, hi int) (any, bool) { v := batch(lo, hi); b, _ := v.(bool); return v, b })
				if !same(got, pg) {
					c.Fail("%s = %s, the parallel counterpart returns %s", what, clip(fmt.Sprint(got)), clip(fmt.Sprint(pg)))
				}
				c.Obs("comparisons with the parallel counterpart", 1)
			}
		}
	}
	c.Obs("batches run", nb)
	if nb > 1 {
		c.Nontrivial(fn.name, low, high, n, pan)
	}
}

func checkSequence(c *ctx, what string, order []int, k, pan, decided int, panicked bool, otherG string) {
	if otherG != "" {
		c.Fail("%s: a function runs in another goroutine (%s)", what, otherG)
	}
	for i, x := range order {
		if i != x {
			c.Fail("%s: functions run in order %v", what, clip(fmt.Sprint(order)))
			return
		}
	}
	n := len(order)
	switch {
	case panicked:
		if n != pan+1 {
			c.Fail("%s: functions %v ran", what, clip(fmt.Sprint(order)))
		}
	case decided >= 0 && n >= decided+1 && (pan < 0 || pan >= n): // may stop early
	case pan >= 0:
		c.Fail("%s: the panic did not reach the caller, functions run: %v", what, clip(fmt.Sprint(order)))
	case n != k:
		c.Fail("%s: %d functions ran", what, n)
	}
}
