package main

import (
	"fmt"
	"math"
	"math/bits"
	"runtime"
	"slices"
	gosort "sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	psort "github.com/exascience/pargo/sort"
)

func init() {
	const pk = "sort parallel:Do parallel:And parallel:Range internal"
	props["O01"] = &prop{pkgs: pk, run: runO01, scale: 300}
	props["O02"] = &prop{pkgs: pk, run: runO02, scale: 300}
	props["O03"] = &prop{pkgs: pk, run: runO03, scale: 300}
	props["O04"] = &prop{pkgs: pk, run: runO04, scale: 200}
	props["O06"] = &prop{pkgs: pk, run: runO06}
	props["O05"] = &prop{pkgs: pk, run: runO05, scale: 2000}
}

const (
	qGrain = 0x500
	mGrain = 0x3000
)

// ------------------------------------------------------------ input generation

// sortSize picks a length: tiny, around the sequential cutoffs and their
// multiples, or anything.
func (c *ctx) sortSize(grain, max int) int {
	if !c.race && c.chance(50) {
		return c.between(max, 12*max)
	}
	switch c.IntN(10) {
	case 0:
		return c.between(0, 40)
	case 1, 2, 3:
		n := grain*pick([]int{1, 1, 1, 2, 3, 4, 5, 8}, c.IntN(8)) + c.between(-3, 3)
		if n <= max {
			return n
		}
		return grain + c.between(-3, 3)
	case 4, 5, 6:
		return c.between(grain, min(3*grain, max))
	default:
		return c.between(grain/2, max)
	}
}

var patterns = []string{"random", "sorted", "reversed", "few values", "all equal", "nearly sorted", "organ pipe", "saw tooth", "one misplaced at the end", "one misplaced at the start", "long runs", "two values", "blocks swapped", "inverted pipe", "sorted tail", "sqrt ties", "alternating", "plateau", "one adjacent swap", "disorder in a window"}

// linear patterns are those for which Sort is expected to be efficient
var structured = map[string]bool{"random": true, "sorted": true, "reversed": true, "few values": true, "all equal": true, "nearly sorted": true, "organ pipe": true, "saw tooth": true, "two values": true}

func (c *ctx) keys(pattern string, n int) []int {
	a := make([]int, n)
	switch pattern {
	case "random":
		for i := range a {
			a[i] = int(c.Uint64() >> 2)
		}
	case "sorted":
		for i := range a {
			a[i] = i
		}
	case "reversed":
		for i := range a {
			a[i] = n - i
		}
	case "few values":
		k := c.between(2, 12)
		for i := range a {
			a[i] = c.IntN(k)
		}
	case "two values":
		p := c.between(2, 50)
		for i := range a {
			if c.chance(p) {
				a[i] = 1
			}
		}
	case "all equal":
	case "nearly sorted":
		for i := range a {
			a[i] = i
		}
		for k := c.between(1, 10); k > 0 && n > 1; k-- {
			i, j := c.IntN(n), c.IntN(n)
			a[i], a[j] = a[j], a[i]
		}
	case "one adjacent swap":
		// where a scan for inversions may start, end or be split
		for i := range a {
			a[i] = i
		}
		i := 0
		switch c.IntN(7) {
		case 0, 1:
			i = c.between(1, 20)
		case 5, 6:
			i = c.IntN(max(n, 1))
		case 2:
			i = n - c.between(1, 20)
		case 3:
			i = n/pick([]int{2, 3, 4, 8, 16}, c.IntN(5)) + c.between(-1, 1)
		default:
			i = pick([]int{qGrain, mGrain, 256, 512, 1024, 100, 1000}, c.IntN(7))*c.between(1, 3) + c.between(-1, 1)
		}
		if i > 0 && i < n {
			a[i-1], a[i] = a[i], a[i-1]
		}
	case "disorder in a window":
		for i := range a {
			a[i] = i
		}
		if n > 1 {
			w := min(n, pick([]int{2, 3, 10, 100, 1000, 3000}, c.IntN(6)))
			at := c.IntN(n - w + 1)
			for k := range a[at : at+w] {
				j := at + c.IntN(k+1)
				a[at+k], a[j] = a[j], a[at+k]
			}
		}
	case "organ pipe":
		for i := range a {
			a[i] = min(i, n-1-i)
		}
	case "inverted pipe":
		for i := range a {
			a[i] = max(i, n-1-i)
		}
	case "saw tooth":
		k := c.between(2, 300)
		for i := range a {
			a[i] = i % k
		}
	case "one misplaced at the end":
		for i := range a {
			a[i] = i
		}
		if n > 0 {
			a[n-1] = c.IntN(n) - 1
		}
	case "one misplaced at the start":
		for i := range a {
			a[i] = i
		}
		if n > 0 {
			a[0] = c.IntN(n) + 1
		}
	case "long runs":
		k, v := 0, 0
		for i := range a {
			if k--; k < 0 {
				k, v = c.IntN(1+n/7), c.IntN(20)
			}
			a[i] = v
		}
	case "blocks swapped":
		k := 0
		if n > 0 {
			k = c.IntN(n)
		}
		for i := range a {
			a[i] = (i + k) % n
		}
	case "sorted tail":
		for i := range a {
			if i < n/10 {
				a[i] = c.IntN(n)
			} else {
				a[i] = i
			}
		}
	case "sqrt ties":
		k := int(math.Sqrt(float64(n))) + 1
		for i := range a {
			a[i] = c.IntN(k)
		}
	case "alternating":
		for i := range a {
			a[i] = i%2*n + i/2
		}
	case "plateau":
		for i := range a {
			a[i] = i
		}
		if n > 3 {
			lo, hi := c.IntN(n/2), n/2+c.IntN(n/2)
			for i := lo; i < hi; i++ {
				a[i] = lo
			}
		}
	}
	return a
}

func toFloats(c *ctx, keys []int) []float64 {
	r := make([]float64, len(keys))
	special := c.chance(2)
	for i, k := range keys {
		r[i] = float64(k)
		if special {
			switch c.IntN(40) {
			case 0, 1, 2:
				r[i] = math.Float64frombits(math.Float64bits(math.NaN()) + uint64(c.IntN(100)))
			case 3:
				r[i] = math.Inf(1 - 2*c.IntN(2))
			case 4:
				r[i] = math.Copysign(0, float64(1-2*c.IntN(2)))
			}
		}
	}
	return r
}

func toStrings(keys []int) []string {
	r := make([]string, len(keys))
	for i, k := range keys {
		if k%17 == 0 {
			r[i] = strings.Repeat("a", k%5)
		} else {
			r[i] = fmt.Sprintf("%08x", k)
		}
	}
	return r
}

func floatLess(a, b float64) bool { return a < b || (a != a && b == b) }

// ------------------------------------------------------------ monitored collection

type elem struct{ key, id int }

// collMon watches the accesses to one sorting problem.
type collMon struct {
	c      *ctx
	n      int
	what   string
	closed bool // plain: set when the call has returned
	// counting mode
	counting                  bool
	less, swaps, assigns, seq atomic.Int64
	assigned                  atomic.Int64
	budget                    int64
	mu                        sync.Mutex
	ranges                    [][2]int
	reads                     atomic.Int64
	// conflict mode
	yield    int
	slowTemp time.Duration
	over     atomic.Bool // set when the call has returned
	plan     *panicPlan
}

// A panicPlan makes some calls of one method panic.
type panicPlan struct {
	op     string
	first  int64
	every  int64 // later ones
	after  bool  // at the end of the method
	kind   string
	calls  atomic.Int64
	raised atomic.Int64
	busy   atomic.Int64
	slow   delay
}

func (m *collMon) enter(op string) {
	if m == nil || m.plan == nil {
		return
	}
	m.plan.busy.Add(1)
	if m.closed {
		m.c.Fail("%s: %s is called after the call has ended", m.what, op)
	}
	if op == m.plan.op && !m.plan.after {
		m.blow()
	}
}

func (m *collMon) blow() {
	p := m.plan
	if n := p.calls.Add(1); n == p.first || n > p.first && p.every > 0 && (n-p.first)%p.every == 0 {
		k := p.raised.Add(1)
		p.slow.spend()
		doPanic(p.kind, int(k))
	} else if n > p.first && n < p.first+20 {
		p.slow.spend()
	}
}

func (m *collMon) leave(op string) {
	if m == nil || m.plan == nil {
		return
	}
	defer func() {
		if m.closed {
			m.c.Fail("%s: %s is still running after the call has ended", m.what, op)
		}
		m.plan.busy.Add(-1)
	}()
	if op == m.plan.op && m.plan.after {
		m.blow()
	}
}

type budgetExceeded struct{}

// coll is a user-defined collection.
type coll struct {
	a      []elem
	state  []int32 // conflict mode: number of readers, or -1 while written
	m      *collMon
	temp   bool
	stable bool
	ro     bool // must not be modified
}

func (m *collMon) newColl(a []elem, stable bool) *coll {
	return &coll{a: a, m: m, stable: stable}
}

func (s *coll) name() string {
	if s.temp {
		return "temporary collection"
	}
	return "collection"
}

func (s *coll) check(op string, idx ...int) {
	if s.m == nil {
		return
	}
	if s.m.closed {
		s.m.c.Fail("%s: %s%v of the %s is called after the call has returned", s.m.what, op, idx, s.name())
	}
	for _, i := range idx {
		if i < 0 || i >= len(s.a) {
			s.m.c.Fail("%s: %s%v of the %s, which has %d elements", s.m.what, op, idx, s.name(), len(s.a))
			panic("index out of bounds in " + op)
		}
	}
}

func (s *coll) checkRange(op string, i, j int) {
	if s.m == nil {
		return
	}
	if s.m.closed {
		s.m.c.Fail("%s: %s(%d,%d) of the %s is called after the call has returned", s.m.what, op, i, j, s.name())
	}
	if i < 0 || j < i || j > len(s.a) {
		s.m.c.Fail("%s: %s(%d,%d) of the %s, which has %d elements", s.m.what, op, i, j, s.name(), len(s.a))
		panic("range out of bounds in " + op)
	}
}

// lock and unlock implement the conflict monitor.
func (s *coll) rlock(op string, i int) {
	if s.state != nil && atomic.AddInt32(&s.state[i], 1) < 1 {
		s.m.c.Fail("%s: %s reads element %d of the %s while it is being written", s.m.what, op, i, s.name())
	}
}
func (s *coll) runlock(i int) {
	if s.state != nil {
		atomic.AddInt32(&s.state[i], -1)
	}
}

const writing = -1 << 20

func (s *coll) wlock(op string, i int) {
	if s.state != nil {
		if v := atomic.AddInt32(&s.state[i], writing); v != writing {
			s.m.c.Fail("%s: %s writes element %d of the %s while it is being accessed", s.m.what, op, i, s.name())
		}
	}
}
func (s *coll) wunlock(i int) {
	if s.state != nil {
		atomic.AddInt32(&s.state[i], -writing)
	}
}

func (s *coll) pause() {
	if s.m != nil && s.m.yield > 0 && s.m.reads.Add(1)%int64(s.m.yield) == 0 {
		runtime.Gosched()
	}
}

func (s *coll) Len() int { return len(s.a) }

func (s *coll) Less(i, j int) bool {
	if s.m != nil && s.m.plan != nil {
		defer s.m.leave("Less")
		s.m.enter("Less")
	}
	s.check("Less", i, j)
	if s.m != nil && s.m.counting {
		if n := s.m.less.Add(1); s.m.budget > 0 && n > s.m.budget {
			panic(budgetExceeded{})
		}
	}
	s.rlock("Less", i)
	s.rlock("Less", j)
	s.pause()
	r := s.a[i].key < s.a[j].key
	s.runlock(j)
	s.runlock(i)
	return r
}

func (s *coll) Swap(i, j int) {
	if s.m != nil && s.m.plan != nil {
		defer s.m.leave("Swap")
		s.m.enter("Swap")
	}
	s.check("Swap", i, j)
	if s.ro {
		s.m.c.Fail("%s: Swap(%d,%d) modifies the collection", s.m.what, i, j)
	}
	if s.m != nil && s.m.counting {
		s.m.swaps.Add(1)
	}
	s.wlock("Swap", i)
	if i != j {
		s.wlock("Swap", j)
	}
	s.pause()
	s.a[i], s.a[j] = s.a[j], s.a[i]
	if i != j {
		s.wunlock(j)
	}
	s.wunlock(i)
}

func (s *coll) SequentialSort(i, j int) {
	if s.m != nil && s.m.plan != nil {
		defer s.m.leave("SequentialSort")
		s.m.enter("SequentialSort")
	}
	s.checkRange("SequentialSort", i, j)
	if s.ro {
		s.m.c.Fail("%s: SequentialSort(%d,%d) modifies the collection", s.m.what, i, j)
	}
	if s.m != nil && s.m.counting {
		s.m.seq.Add(int64(j - i))
		s.m.mu.Lock()
		s.m.ranges = append(s.m.ranges, [2]int{i, j})
		s.m.mu.Unlock()
	}
	for k := i; k < j; k++ {
		s.wlock("SequentialSort", k)
	}
	s.pause()
	part := s.a[i:j]
	if s.stable {
		slices.SortStableFunc(part, func(x, y elem) int { return cmpInt(x.key, y.key) })
	} else {
		slices.SortFunc(part, func(x, y elem) int { return cmpInt(x.key, y.key) })
	}
	for k := i; k < j; k++ {
		s.wunlock(k)
	}
}

func cmpInt(a, b int) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

func (s *coll) NewTemp() psort.StableSorter {
	if s.m != nil && s.m.plan != nil {
		defer s.m.leave("NewTemp")
		s.m.enter("NewTemp")
	}
	t := &coll{a: make([]elem, len(s.a)), m: s.m, temp: true, stable: s.stable}
	if s.state != nil {
		t.state = make([]int32, len(s.a))
	}
	for i := range t.a {
		t.a[i].key = -1 - i // garbage
	}
	if s.m != nil && s.m.slowTemp > 0 {
		time.Sleep(s.m.slowTemp)
		if s.m.over.Load() {
			s.m.c.Fail("%s: a temporary collection is being made after the call has returned", s.m.what)
		}
	}
	return t
}

func (s *coll) Assign(source psort.StableSorter) func(i, j, n int) {
	if s.m != nil && s.m.plan != nil {
		defer s.m.leave("Assign")
		s.m.enter("Assign")
	}
	src := source.(*coll)
	return func(i, j, n int) {
		if s.m != nil && s.m.plan != nil {
			defer s.m.leave("assignment")
			s.m.enter("assignment")
		}
		if n < 0 {
			s.m.c.Fail("%s: assignment of %d elements", s.m.what, n)
			panic("negative length in Assign")
		}
		s.checkRange("Assign (destination)", i, i+n)
		src.checkRange("Assign (source)", j, j+n)
		if s.m != nil && s.m.counting {
			s.m.assigns.Add(1)
			s.m.assigned.Add(int64(n))
		}
		for k := 0; k < n; k++ {
			s.wlock("Assign", i+k)
			src.rlock("Assign", j+k)
		}
		s.pause()
		copy(s.a[i:i+n], src.a[j:j+n])
		for k := 0; k < n; k++ {
			src.runlock(j + k)
			s.wunlock(i + k)
		}
	}
}

func elems(keys []int) []elem {
	a := make([]elem, len(keys))
	for i, k := range keys {
		a[i] = elem{k, i}
	}
	return a
}

// checkOrder compares a sorted collection with the original keys.
func checkOrder(c *ctx, what string, a []elem, keys []int, stable bool) {
	if len(a) != len(keys) {
		c.Fail("%s: length changed to %d", what, len(a))
		return
	}
	seen := make([]bool, len(keys))
	for i, e := range a {
		if e.id < 0 || e.id >= len(keys) || seen[e.id] || keys[e.id] != e.key {
			c.Fail("%s: element %+v at %d is not an original element or occurs twice", what, e, i)
			return
		}
		seen[e.id] = true
		if i > 0 {
			switch {
			case e.key < a[i-1].key:
				c.Fail("%s: out of order at %d: %+v after %+v", what, i, e, a[i-1])
				return
			case stable && e.key == a[i-1].key && e.id < a[i-1].id:
				c.Fail("%s: not stable at %d: %+v after %+v", what, i, e, a[i-1])
				return
			}
		}
	}
}

func (c *ctx) sortMax() int {
	m := 14000
	if c.deep {
		m = 60000
	}
	if c.race {
		m /= 2
	}
	return m
}

// ------------------------------------------------------------ O01

func runO01(c *ctx) {
	pattern := patterns[c.i%len(patterns)]
	kind := c.i / len(patterns) % 5
	n := c.sortSize(qGrain, c.sortMax())
	keys := c.keys(pattern, n)
	name := []string{"a user-defined Sorter", "IntSlice", "StringSlice", "Float64Slice", "a user-defined Sorter with unstable SequentialSort"}[kind]
	what := fmt.Sprintf("Sort of %s, %d elements, %s", name, n, pattern)
	c.Describe("%s", what)
	sortsAtOnce(c, what, kind, keys, false)
	c.Obs("sorts of "+name, 1)
	if n >= qGrain {
		c.Obs("sorts of at least the sequential cutoff: "+pattern, 1)
		c.Nontrivial(kind, pattern, n, keys[n/2], keys[0], keys[n/3])
	}
}

// sortsAtOnce now and then sorts other collections of the same kind at the same time.
func sortsAtOnce(c *ctx, what string, kind int, keys []int, stable bool) {
	if !c.chance(7) || len(keys) > 40000 {
		sortAndCheck(c, what, kind, keys, stable)
		return
	}
	sets := [][]int{keys}
	for k := c.between(1, 2); k > 0; k-- {
		sets = append(sets, c.keys(patterns[c.IntN(len(patterns))], max(0, len(keys)+c.between(-40, 40))))
	}
	what += fmt.Sprintf(", %d at a time", len(sets))
	c.Describe("%s", what)
	ctxs := make([]*ctx, len(sets))
	for i := range ctxs {
		ctxs[i] = c.fork()
	}
	together(c, len(sets), func(i int) { sortAndCheck(ctxs[i], what, kind, sets[i], stable) })
	c.Obs("sorts at the same time", len(sets))
}

func sortAndCheck(c *ctx, what string, kind int, keys []int, stable bool) {
	do := func(data interface {
		psort.Sorter
		psort.StableSorter
	}) {
		if stable {
			psort.StableSort(data)
		} else {
			psort.Sort(data)
		}
	}
	switch kind {
	case 0, 4:
		s := &coll{a: elems(keys), stable: kind == 0}
		do(s)
		checkOrder(c, what, s.a, keys, stable && kind == 0)
	case 1:
		a := slices.Clone(keys)
		do(psort.IntSlice(a))
		want := slices.Clone(keys)
		gosort.Ints(want)
		if !slices.Equal(a, want) {
			c.Fail("%s: %s", what, firstDiff(a, want))
		}
	case 2:
		a := toStrings(keys)
		want := slices.Clone(a)
		do(psort.StringSlice(a))
		gosort.Strings(want)
		if !slices.Equal(a, want) {
			c.Fail("%s: %s", what, firstDiff(a, want))
		}
	case 3:
		a := toFloats(c, keys)
		want := slices.Clone(a)
		orig := slices.Clone(a)
		do(psort.Float64Slice(a))
		slices.SortStableFunc(want, func(x, y float64) int {
			if floatLess(x, y) {
				return -1
			} else if floatLess(y, x) {
				return 1
			}
			return 0
		})
		if stable {
			for i := range a {
				if math.Float64bits(a[i]) != math.Float64bits(want[i]) {
					c.Fail("%s: element %d is %v (%x), want %v (%x)", what, i, a[i], math.Float64bits(a[i]), want[i], math.Float64bits(want[i]))
					return
				}
			}
			return
		}
		for i := 1; i < len(a); i++ {
			if floatLess(a[i], a[i-1]) {
				c.Fail("%s: element %d is %v after %v", what, i, a[i], a[i-1])
				return
			}
		}
		if x, y := sortedBits(a), sortedBits(orig); !slices.Equal(x, y) {
			c.Fail("%s: not a permutation: %s", what, firstDiff(x, y))
		}
	}
}

func sortedBits(a []float64) []uint64 {
	r := make([]uint64, len(a))
	for i, x := range a {
		r[i] = math.Float64bits(x)
	}
	slices.Sort(r)
	return r
}

func firstDiff[T comparable](a, b []T) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d elements instead of %d", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("element %d is %v instead of %v", i, a[i], b[i])
		}
	}
	return "equal"
}

// ------------------------------------------------------------ O02

func runO02(c *ctx) {
	pattern := patterns[c.i%len(patterns)]
	kind := pick([]int{0, 0, 3, 1, 0, 2, 4}, c.i/len(patterns))
	mx := 60000
	if c.deep {
		mx = 220000
	}
	if c.race {
		mx /= 2
	}
	n := c.sortSize(mGrain, mx)
	keys := c.keys(pattern, n)
	name := []string{"a user-defined StableSorter", "IntSlice", "StringSlice", "Float64Slice", "a user-defined StableSorter with unstable SequentialSort"}[kind]
	what := fmt.Sprintf("StableSort of %s, %d elements, %s", name, n, pattern)
	c.Describe("%s", what)
	sortsAtOnce(c, what, kind, keys, true)
	c.Obs("sorts of "+name, 1)
	if n >= mGrain {
		c.Obs("sorts of at least the sequential cutoff: "+pattern, 1)
		c.Nontrivial(kind, pattern, n, keys[n/2], keys[0], keys[n/3])
	}
}

// ------------------------------------------------------------ O03

func isSortedOf(kind int, keys []int, floats []float64, strs []string) bool {
	switch kind {
	case 0:
		return psort.IsSorted(&coll{a: elems(keys)})
	case 1:
		return psort.IntsAreSorted(keys)
	case 2:
		return psort.StringsAreSorted(strs)
	case 3:
		return psort.Float64sAreSorted(floats)
	case 4:
		return psort.IsSorted(psort.IntSlice(keys))
	case 5:
		return psort.IsSorted(psort.Float64Slice(floats))
	}
	return psort.IsSorted(psort.StringSlice(strs))
}

var isSortedNames = []string{"IsSorted of a user-defined collection", "IntsAreSorted", "StringsAreSorted", "Float64sAreSorted", "IsSorted(IntSlice)", "IsSorted(Float64Slice)", "IsSorted(StringSlice)"}

func runO03(c *ctx) {
	kind := c.i % 7
	var n int
	switch c.IntN(8) {
	case 0:
		n = c.between(0, 30)
	case 1, 2, 3:
		n = qGrain*c.between(1, 4) + c.between(-3, 12)
	default:
		n = c.between(qGrain, 9000)
	}
	if !c.race && c.chance(150) {
		n = c.between(9000, 140000)
	}
	// a sorted base with ties
	keys := make([]int, n)
	ties := c.between(1, 5)
	v := 0
	for i := range keys {
		if c.chance(ties) {
			v += 2
		}
		keys[i] = v
	}
	var floats []float64
	var strs []string
	nan := 0
	if n > 0 && (kind == 3 || kind == 5) && c.chance(2) {
		nan = c.IntN(n)
	}
	derive := func() {
		switch kind {
		case 2, 6:
			strs = make([]string, n)
			for i, k := range keys {
				strs[i] = fmt.Sprintf("%08d", k)
			}
		case 3, 5:
			floats = make([]float64, n)
			for i, k := range keys {
				floats[i] = float64(k)
				if i < nan {
					floats[i] = math.NaN()
				}
			}
		}
	}
	derive()
	want := func() (bool, int) {
		for i := 1; i < n; i++ {
			switch kind {
			case 3, 5:
				if floatLess(floats[i], floats[i-1]) {
					return false, i
				}
			case 2, 6:
				if strs[i] < strs[i-1] {
					return false, i
				}
			default:
				if keys[i] < keys[i-1] {
					return false, i
				}
			}
		}
		return true, -1
	}
	check := func(how string) {
		w, at := want()
		g := isSortedOf(kind, keys, floats, strs)
		if g != w {
			c.Fail("%s of %d elements (%s, first inversion at %d) = %v", isSortedNames[kind], n, how, at, g)
		}
		if w {
			c.Obs("answers true", 1)
		} else {
			c.Obs("answers false", 1)
		}
	}
	c.Describe("%s of %d elements, %d NaN first", isSortedNames[kind], n, nan)
	if first := nan + 1; n > first && c.chance(6) {
		// others ask at the same time
		k2, f2, s2 := slices.Clone(keys), slices.Clone(floats), slices.Clone(strs)
		var wg sync.WaitGroup
		var stop atomic.Bool
		var asked atomic.Int64
		dip := c.between(first, n-1)
		for j := 0; j < 2; j++ {
			if j == 1 {
				k2, f2, s2 = slices.Clone(k2), slices.Clone(f2), slices.Clone(s2)
				k2[dip] = k2[dip-1] - 1
				if f2 != nil {
					f2[dip] = math.Inf(-1)
				}
				if s2 != nil {
					s2[dip] = ""
				}
			}
			wg.Add(1)
			go func(k []int, f []float64, s []string, want bool) {
				defer wg.Done()
				for i := 0; i < 2000 && !stop.Load(); i++ {
					if isSortedOf(kind, k, f, s) != want {
						c.Fail("%s of %d elements (first inversion at %d) = %v while others ask as well", isSortedNames[kind], n, dip, !want)
						return
					}
					asked.Add(1)
				}
			}(k2, f2, s2, j == 0)
		}
		defer func() {
			stop.Store(true)
			wg.Wait()
			c.Obs("answers while others ask", int(asked.Load()))
		}()
	}
	check("sorted")
	if n < 2 {
		return
	}
	// single inversions: at many positions, in the systematic cases at every one
	set := func(i, k int) (old int, oldF float64, oldS string) {
		old, keys[i] = keys[i], k
		if floats != nil {
			oldF, floats[i] = floats[i], float64(k)
		}
		if strs != nil {
			oldS, strs[i] = strs[i], fmt.Sprintf("%08d", max(k, 0))
		}
		return
	}
	restore := func(i, old int, oldF float64, oldS string) {
		keys[i] = old
		if floats != nil {
			floats[i] = oldF
		}
		if strs != nil {
			strs[i] = oldS
		}
	}
	positions := make([]int, 0, 64)
	slow := c.i%4 != 0 || c.race
	if !slow && n < 6000 {
		start := c.IntN(12)
		for p := 1 + start; p < n; p += 7 {
			positions = append(positions, p)
		}
		for p := 1; p < min(n, 24); p++ {
			positions = append(positions, p)
		}
		for p := max(1, n-24); p < n; p++ {
			positions = append(positions, p)
		}
		for p := n/2 - 12; p < n/2+12; p++ {
			if p > 0 && p < n {
				positions = append(positions, p)
			}
		}
	} else {
		for k := 0; k < 12; k++ {
			positions = append(positions, c.between(1, n-1))
		}
		positions = append(positions, 1, n-1, n/2, min(10, n-1), min(9, n-1), min(11, n-1))
	}
	for _, p := range positions {
		// a dip at p: less than its predecessor, or a NaN behind a number
		if p < nan {
			continue
		}
		old, oldF, oldS := set(p, keys[p-1]-1)
		if floats != nil && c.chance(3) && p > nan {
			floats[p] = math.NaN()
		}
		check(fmt.Sprintf("dip at %d", p))
		restore(p, old, oldF, oldS)
		if c.failed() {
			return
		}
	}
	// several inversions
	if c.chance(2) {
		for k := c.between(2, 30); k > 0; k-- {
			p := c.between(1, n-1)
			if p >= nan {
				set(p, keys[p-1]-1)
			}
		}
		check("several dips")
	}
	// descending from some point on
	if c.chance(3) {
		p := c.between(1, n-1)
		for i := max(p, nan); i < n; i++ {
			set(i, max(0, keys[i-1]-1))
		}
		check("descending tail")
	}
	if n >= qGrain {
		c.Nontrivial(kind, n, nan, v)
	}
	c.Obs("inversion positions tried", len(positions))
}

// ------------------------------------------------------------ O04

func runO04(c *ctx) {
	pattern := patterns[c.i%len(patterns)]
	fn := c.i / len(patterns) % 3
	var n int
	switch fn {
	case 0:
		n = c.sortSize(qGrain, 9000)
	case 1:
		n = c.sortSize(mGrain, 40000)
		if c.race && n > 30000 {
			n = 26000
		}
	case 2:
		n = c.sortSize(qGrain, 12000)
		if c.chance(2) {
			pattern = pick([]string{"sorted", "one misplaced at the end", "nearly sorted", "one misplaced at the start", "sorted tail"}, c.IntN(5))
		}
	}
	keys := c.keys(pattern, n)
	what := fmt.Sprintf("%s of %d elements, %s", []string{"Sort", "StableSort", "IsSorted"}[fn], n, pattern)
	c.Describe("%s", what)
	m := &collMon{c: c, n: n, what: what}
	s := m.newColl(elems(keys), true)
	if !c.race {
		s.state = make([]int32, n)
		m.yield = pick([]int{0, 50, 500, 5000}, c.IntN(4))
	}
	if c.chance(3) {
		m.slowTemp = time.Duration(c.between(50, 2000)) * time.Microsecond
	}
	switch fn {
	case 0:
		psort.Sort(s)
	case 1:
		psort.StableSort(s)
	case 2:
		s.ro = true
		psort.IsSorted(s)
	}
	// Nobody may touch the collection any more: the race detector sees a read
	// that is still to come as a conflict with these plain writes.
	m.over.Store(true)
	m.closed = true
	for i := range s.a {
		s.a[i].id = -s.a[i].id
	}
	if left := libraryGoroutines(c); len(left) > 0 {
		c.Fail("%s: a goroutine is left behind: %s", what, clip(left[0].text))
	}
	for i := range s.state {
		if s.state[i] != 0 {
			c.Fail("%s: element %d is still being accessed", what, i)
			break
		}
	}
	if fn == 2 {
		for i := range s.a {
			if s.a[i] != (elem{keys[i], -i}) {
				c.Fail("%s: the collection was modified at %d", what, i)
				break
			}
		}
	}
	c.Obs([]string{"Sort", "StableSort", "IsSorted"}[fn]+" calls watched", 1)
	c.Obs("elements watched", n)
	if n >= []int{qGrain, mGrain, qGrain}[fn] {
		c.Nontrivial(fn, pattern, n, keys[n/2], keys[n/3])
	}
}

// ------------------------------------------------------------ O05

func runO05(c *ctx) {
	pattern := patterns[c.i%len(patterns)]
	fn := c.i / len(patterns) % 3
	if fn == 0 {
		for !structured[pattern] {
			pattern = patterns[c.IntN(len(patterns))]
		}
	}
	n := c.sortSize(qGrain, 100000)
	if c.chance(8) || c.deep && c.chance(3) {
		n = c.between(100000, 300000)
	}
	keys := c.keys(pattern, n)
	what := fmt.Sprintf("%s of %d elements, %s", []string{"Sort", "StableSort", "IsSorted"}[fn], n, pattern)
	c.Describe("%s", what)
	m := &collMon{c: c, n: n, what: what, counting: true}
	nlogn := int64(n) * int64(bits.Len(uint(n)))
	limit := 3*nlogn + 1000
	if fn == 2 {
		limit = int64(n) + int64(n)/8 + 200
	}
	m.budget = limit
	s := m.newColl(elems(keys), true)
	p, panicked := try(func() {
		switch fn {
		case 0:
			psort.Sort(s)
		case 1:
			psort.StableSort(s)
		case 2:
			psort.IsSorted(s)
		}
	})
	libraryGoroutines(c)
	if panicked {
		if m.less.Load() > limit {
			c.Fail("%s: more than %d comparisons", what, limit)
		} else {
			c.Fail("%s panics: %s", what, clip(fmt.Sprint(p)))
		}
		return
	}
	less, swaps, seq, assigned := m.less.Load(), m.swaps.Load(), m.seq.Load(), m.assigned.Load()
	c.Obs("comparisons", int(less))
	name := []string{"Sort", "StableSort", "IsSorted"}[fn]
	if n > 0 && n >= qGrain {
		if fn == 2 {
			c.Max("IsSorted: 100 * comparisons / n", int(100*less/int64(n)))
		} else {
			c.Max(name+": 100 * comparisons / (n log n)", int(100*less/nlogn))
			c.Max(name+": 100 * swaps / (n log n)", int(100*swaps/nlogn))
			c.Max(name+": 100 * assigned elements / (n log n)", int(100*assigned/nlogn))
		}
	}
	if seq > int64(n) {
		c.Fail("%s: SequentialSort is handed %d elements", what, seq)
	}
	if assigned > 2*nlogn+1000 {
		c.Fail("%s: %d elements are copied", what, assigned)
	}
	if swaps > 2*nlogn+1000 {
		c.Fail("%s: %d swaps", what, swaps)
	}
	gosort.Slice(m.ranges, func(i, j int) bool { return m.ranges[i][0] < m.ranges[j][0] })
	end := 0
	for _, r := range m.ranges {
		if r[0] == r[1] {
			continue
		}
		if r[0] < end {
			c.Fail("%s: SequentialSort ranges overlap at [%d,%d)", what, r[0], r[1])
			break
		}
		end = r[1]
	}
	c.Obs("sequential ranges", len(m.ranges))
	if fn == 0 && slices.IsSorted(keys) && swaps > 0 {
		c.Fail("%s: %d swaps although the input is sorted", what, swaps)
	}
	if n >= qGrain {
		c.Nontrivial(fn, pattern, n, keys[n/2], keys[n/3])
	}
}

// ------------------------------------------------------------ O06

func runO06(c *ctx) {
	pattern := patterns[c.i%len(patterns)]
	fn := c.i / len(patterns) % 3
	var n int
	var ops []string
	switch fn {
	case 0:
		n = c.sortSize(qGrain, 9000)
		ops = []string{"Less", "Less", "Swap", "SequentialSort"}
	case 1:
		n = c.sortSize(mGrain, 30000)
		ops = []string{"Less", "SequentialSort", "NewTemp", "Assign", "assignment", "assignment"}
	case 2:
		n = c.sortSize(qGrain, 12000)
		ops = []string{"Less"}
		if c.chance(2) {
			pattern = "sorted"
		}
	}
	keys := c.keys(pattern, n)
	p := &panicPlan{op: pick(ops, c.IntN(len(ops))), kind: pick(panicKinds, c.IntN(len(panicKinds))), after: c.chance(3)}
	switch p.op {
	case "Less":
		p.first = int64(c.IntN(max(n, 1)) + 1)
		if c.chance(3) {
			p.first = int64(c.between(1, 30))
		}
	case "Swap", "assignment":
		p.first = int64(c.IntN(max(n/5, 1)) + 1)
		if c.chance(3) {
			p.first = int64(c.between(1, 30))
		}
	case "SequentialSort":
		p.first = int64(c.between(1, 1+n/500))
	case "NewTemp":
		p.first = 1
	case "Assign":
		p.first = int64(c.between(1, 2))
	}
	if c.chance(2) {
		p.every = int64(pick([]int{1, 2, 7, 100}, c.IntN(4)))
	}
	if c.chance(2) {
		p.slow = c.delay(true)
	}
	what := fmt.Sprintf("%s of %d elements, %s, where call %d of %s (and every %d later one) panics (%s)", []string{"Sort", "StableSort", "IsSorted"}[fn], n, pattern, p.first, p.op, p.every, p.kind)
	c.Describe("%s", what)
	c.Hang("%s: never ends", what)
	m := &collMon{c: c, n: n, what: what, plan: p}
	if c.chance(3) {
		m.slowTemp = time.Duration(c.between(50, 2000)) * time.Microsecond
	}
	s := m.newColl(elems(keys), true)
	v, panicked := try(func() {
		switch fn {
		case 0:
			psort.Sort(s)
		case 1:
			psort.StableSort(s)
		case 2:
			psort.IsSorted(s)
		}
	})
	if k := p.busy.Load(); k != 0 {
		c.Fail("%s: %d calls of its methods are running when the call ends (panic: %v)", what, k, panicked)
	}
	m.over.Store(true)
	m.closed = true // the race detector sees methods that are still running
	raised := p.raised.Load()
	switch {
	case panicked && raised == 0:
		c.Fail("%s: panics although no method did: %s", what, clip(fmt.Sprint(v)))
	case !panicked && raised > 0:
		c.Fail("%s: %d panics are lost", what, raised)
	case panicked:
		found := markerRE.FindString(fmt.Sprint(v))
		k := -1
		for i := 1; i <= int(raised); i++ {
			if marker(i) == found {
				k = i
			}
		}
		if k < 0 {
			c.Fail("%s: the panic value carries no message of a method: %s", what, clip(fmt.Sprint(v)))
		} else if msg := checkPanic(v, k, p.kind); msg != "" {
			c.Fail("%s: %s", what, msg)
		}
	}
	if left := libraryGoroutines(c); len(left) > 0 {
		c.Fail("%s: a goroutine is left behind: %s", what, clip(left[0].text))
	}
	if fn != 1 {
		// only swaps and sorted parts
		seen := make([]bool, n)
		for i, e := range s.a {
			if e.id < 0 || e.id >= n || seen[e.id] || keys[e.id] != e.key || fn == 2 && e.id != i {
				c.Fail("%s: leaves %+v at %d, which is not an original element or occurs twice", what, e, i)
				break
			}
			seen[e.id] = true
		}
	}
	if panicked {
		c.Obs("calls ended by a panic of "+p.op, 1)
		c.Obs("panics of methods", int(raised))
		if n >= []int{qGrain, mGrain, qGrain}[fn] {
			c.Nontrivial(fn, pattern, n, p.op, p.first, p.every, p.kind)
		}
	}
}
