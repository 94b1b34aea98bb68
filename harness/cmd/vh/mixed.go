package main

import (
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/exascience/pargo/parallel"
	"github.com/exascience/pargo/pipeline"
	"github.com/exascience/pargo/sequential"
	psort "github.com/exascience/pargo/sort"
	"github.com/exascience/pargo/speculative"
	psync "github.com/exascience/pargo/sync"
)

func init() {
	props["R01"] = &prop{pkgs: "internal parallel speculative sequential sort sync pipeline", run: runR01}
	props["G01"] = &prop{pkgs: "internal parallel speculative sequential sort sync pipeline", run: runG01}
}

// ------------------------------------------------------------------ R01

// A task computes the sum of its children's values with one construct of the
// library. Everything is written to and read from plain memory that only a
// correct library makes safe to use, so the race detector judges the library,
// and the sum shows whether a value got lost.
type task struct {
	kind  string
	kids  []*task
	value int
	d     delay
	n     int
}

// A box is handed from one user function to another and changed on the way.
type box struct {
	sum   int
	trail []int
}

var taskKinds = []string{
	"parallel.Do", "parallel.Reduce", "parallel.RangeReduce", "parallel.Range", "parallel.ReduceIntSum", "parallel.RangeReduceStringSum", "parallel.RangeAnd", "parallel.Do with panics",
	"speculative.Reduce", "speculative.RangeReduce", "speculative.Do, decided", "speculative.RangeOr, decided",
	"sequential.RangeReduce", "sequential.Do",
	"sort.Sort", "sort.StableSort", "sort.IsSorted, then changes",
	"sync.Modify", "sync.LoadOrCompute", "sync.Split", "sync.traversals", "sync.speculative",
	"pipeline", "pipeline, chan", "pipeline, limited", "pipeline, user-defined node",
}

func (c *ctx) genTask(depth int, budget *int) *task {
	t := &task{d: c.delay(false), value: c.IntN(1000), n: c.IntN(10)}
	*budget--
	if depth == 0 || *budget <= 0 || (depth < 3 && c.chance(3)) {
		t.kind = "leaf"
		return t
	}
	t.kind = taskKinds[c.IntN(len(taskKinds))]
	for k := c.between(1, 7); k > 0 && *budget > 0; k-- {
		t.kids = append(t.kids, c.genTask(depth-1, budget))
	}
	return t
}

func (t *task) String() string {
	if t.kind == "leaf" {
		return "."
	}
	var b strings.Builder
	b.WriteString(t.kind + "(")
	for _, k := range t.kids {
		b.WriteString(k.String())
	}
	return b.String() + ")"
}

func (t *task) count(m map[string]int) {
	m[t.kind]++
	for _, k := range t.kids {
		k.count(m)
	}
}

// want is the value of a task.
func (t *task) want() int {
	if t.kind == "leaf" {
		return t.value
	}
	s := 0
	for _, k := range t.kids {
		s += k.want()
	}
	return s
}

func newBox(v int) *box { return &box{v, []int{v}} }

func (b *box) add(o *box) *box {
	b.sum += o.sum
	b.trail = append(b.trail, o.trail...)
	o.sum, o.trail = -1<<40, nil
	return b
}

func (b *box) get() int {
	s := 0
	for _, x := range b.trail {
		s += x
	}
	if s != b.sum {
		return 1 << 50
	}
	return s
}

func join(x, y interface{}) interface{} { return x.(*box).add(y.(*box)) }

func (t *task) eval(c *ctx) int {
	k := len(t.kids)
	kid := func(i int) int { return t.kids[i].eval(c) }
	sum := func(out []int) int {
		s := 0
		for i, x := range out {
			s += x
			out[i] = 0
		}
		return s
	}
	switch t.kind {
	case "leaf":
		t.d.spend()
		return t.value
	case "parallel.Do":
		out := make([]int, k)
		var fs []func()
		for i := 0; i < k; i++ {
			fs = append(fs, func() { out[i] = kid(i) })
		}
		parallel.Do(fs...)
		return sum(out)
	case "parallel.Do with panics":
		out := make([]int, k)
		var fs []func()
		for i := 0; i < k; i++ {
			fs = append(fs, func() {
				out[i] = kid(i)
				if (i+t.n)%3 == 0 {
					panic(errors.New("planned"))
				}
			})
		}
		try(func() { parallel.Do(fs...) })
		return sum(out)
	case "parallel.Reduce", "speculative.Reduce":
		if t.kind == "parallel.Reduce" {
			var fs []func() interface{}
			for i := 1; i < k; i++ {
				fs = append(fs, func() interface{} { return newBox(kid(i)) })
			}
			return parallel.Reduce(join, func() interface{} { return newBox(kid(0)) }, fs...).(*box).get()
		}
		var fs []func() (interface{}, bool)
		for i := 1; i < k; i++ {
			fs = append(fs, func() (interface{}, bool) { return newBox(kid(i)), false })
		}
		r, _ := speculative.Reduce(func(x, y interface{}) (interface{}, bool) { return join(x, y), false }, func() (interface{}, bool) { return newBox(kid(0)), false }, fs...)
		return r.(*box).get()
	case "parallel.RangeReduce", "sequential.RangeReduce":
		f := parallel.RangeReduce
		if t.kind == "sequential.RangeReduce" {
			f = sequential.RangeReduce
		}
		return f(0, k, t.n, func(lo, hi int) interface{} {
			b := &box{}
			for i := lo; i < hi; i++ {
				b.add(newBox(kid(i)))
			}
			return b
		}, join).(*box).get()
	case "speculative.RangeReduce":
		r, _ := speculative.RangeReduce(0, k, t.n, func(lo, hi int) (interface{}, bool) {
			b := &box{}
			for i := lo; i < hi; i++ {
				b.add(newBox(kid(i)))
			}
			return b, false
		}, func(x, y interface{}) (interface{}, bool) { return join(x, y), false })
		return r.(*box).get()
	case "parallel.Range":
		out := make([]int, k)
		parallel.Range(0, k, t.n, func(lo, hi int) {
			for i := lo; i < hi; i++ {
				out[i] = kid(i)
			}
		})
		return sum(out)
	case "parallel.RangeAnd":
		out := make([]int, k)
		if !parallel.RangeAnd(0, k, t.n, func(lo, hi int) bool {
			for i := lo; i < hi; i++ {
				out[i] = kid(i)
			}
			return true
		}) {
			return 1 << 51
		}
		return sum(out)
	case "parallel.ReduceIntSum":
		var fs []func() int
		for i := 0; i < k; i++ {
			fs = append(fs, func() int { return kid(i) })
		}
		return parallel.ReduceIntSum(fs...)
	case "parallel.RangeReduceStringSum":
		s := parallel.RangeReduceStringSum(0, k, t.n, func(lo, hi int) string {
			var b strings.Builder
			for i := lo; i < hi; i++ {
				fmt.Fprintf(&b, "%d ", kid(i))
			}
			return b.String()
		})
		r := 0
		for _, f := range strings.Fields(s) {
			var x int
			fmt.Sscan(f, &x)
			r += x
		}
		return r
	case "sequential.Do":
		s := 0
		var fs []func()
		for i := 0; i < k; i++ {
			fs = append(fs, func() { s += kid(i) })
		}
		sequential.Do(fs...)
		return s
	case "speculative.Do, decided":
		// the winner hands over what it wrote, the others may still be running
		out := make([]*box, k)
		win := t.n % k
		fs := make([]func() bool, k)
		for i := 0; i < k; i++ {
			fs[i] = func() bool {
				out[i] = newBox(kid(i))
				return i == win
			}
		}
		if !speculative.Do(fs...) {
			return 1 << 51
		}
		s := out[win].get()
		out[win].sum = -1
		for i := 0; i < k; i++ {
			if i != win {
				s += kid(i)
			}
		}
		return s
	case "speculative.RangeOr, decided":
		out := make([]*box, k)
		win := t.n % k
		if !speculative.RangeOr(0, k, k, func(lo, hi int) bool {
			for i := lo; i < hi; i++ {
				out[i] = newBox(kid(i))
			}
			return lo <= win && win < hi
		}) {
			return 1 << 51
		}
		s := out[win].get()
		out[win].trail = nil
		for i := 0; i < k; i++ {
			if i != win {
				s += kid(i)
			}
		}
		return s
	case "sort.Sort", "sort.StableSort":
		keys := make([]int, k, 3000)
		for i := range keys {
			keys[i] = kid(i)
		}
		total := sum(append([]int(nil), keys...))
		if t.n < 4 {
			keys = append(keys, newRand(uint64(total)).Perm(1400+t.n*300)...)
		}
		a := elems(keys)
		psort.Sort(&coll{a: a, stable: true})
		if t.kind == "sort.StableSort" {
			a = elems(keys)
			psort.StableSort(&coll{a: a, stable: true})
		}
		s := 0
		for i := range a {
			if i > 0 && a[i-1].key > a[i].key {
				return 1 << 52
			}
			if a[i].id < k {
				s += a[i].key
			}
			a[i].key = -1
		}
		return s
	case "sort.IsSorted, then changes":
		n := 1500 + t.n*100
		a := make([]elem, n)
		for i := range a {
			a[i].key = i
		}
		s := 0
		for i := 0; i < k; i++ {
			x := kid(i)
			at := (t.n*977 + i*331) % (n - 1)
			if i%2 == 0 {
				a[at].key, a[at+1].key = a[at+1].key, a[at].key
			}
			sorted := psort.IsSorted(&coll{a: a})
			if sorted != sort.SliceIsSorted(a, func(i, j int) bool { return a[i].key < a[j].key }) {
				return 1 << 52
			}
			if i%2 == 0 {
				a[at].key, a[at+1].key = a[at+1].key, a[at].key
			}
			s += x
		}
		return s
	case "sync.Modify":
		m := psync.NewMap(t.n % 4)
		var fs []func()
		for i := 0; i < k; i++ {
			fs = append(fs, func() {
				v := newBox(kid(i))
				m.Modify(keyA(i%3), func(old interface{}, ok bool) (interface{}, bool) {
					if ok {
						return old.(*box).add(v), true
					}
					return v, true
				})
			})
		}
		parallel.Do(fs...)
		return m.ParallelReduce(func(s map[interface{}]interface{}) interface{} {
			b := &box{}
			for _, x := range s {
				b.add(x.(*box))
			}
			return b
		}, join).(*box).get()
	case "sync.LoadOrCompute":
		m := psync.NewMap(t.n % 4)
		var fs []func()
		out := make([]int, 2*k)
		for i := 0; i < 2*k; i++ {
			fs = append(fs, func() {
				v, _ := m.LoadOrCompute(keyA(i%k), func() interface{} { return newBox(kid(i % k)) })
				out[i] = v.(*box).get()
			})
		}
		parallel.Do(fs...)
		s := sum(out)
		if s%2 != 0 {
			return 1 << 53
		}
		return s / 2
	case "sync.Split":
		m := psync.NewMap(1 + t.n%3)
		parallel.Range(0, k, 0, func(lo, hi int) {
			for i := lo; i < hi; i++ {
				v := kid(i)
				s := m.Split(keyA(i))
				s.Lock()
				b, ok := s.Map[keyA(i%2)].(*box)
				if !ok {
					b = &box{}
					s.Map[keyA(i%2)] = b
				}
				b.add(newBox(v))
				s.Unlock()
			}
		})
		r := 0
		m.Range(func(_, v interface{}) bool {
			r += v.(*box).get()
			return true
		})
		return r
	case "sync.traversals":
		m := psync.NewMap(1 + t.n%5)
		for i := 0; i < k; i++ {
			m.DeleteOrStore(keyA(i), newBox(0))
		}
		m.ParallelRange(func(key, v interface{}) {
			v.(*box).add(newBox(kid(int(key.(keyA)))))
		})
		a, b := 0, 0
		parallel.Do(
			func() {
				a = m.ReduceIntSum(func(s map[interface{}]interface{}) int {
					r := 0
					for _, v := range s {
						v.(*box).add(newBox(0))
						r += v.(*box).get()
					}
					return r
				})
			},
			func() {
				b = m.ParallelReduceIntSum(func(s map[interface{}]interface{}) int {
					r := 0
					for _, v := range s {
						v.(*box).add(newBox(0))
						r += v.(*box).get()
					}
					return r
				})
			},
		)
		if a != b {
			return 1 << 54
		}
		return a
	case "sync.speculative":
		m := psync.NewMap(1 + t.n%5)
		for i := 0; i < k; i++ {
			m.LoadOrStore(keyA(i), newBox(kid(i)))
		}
		if t.n%2 == 0 {
			m.SpeculativeOr(func(s map[interface{}]interface{}) bool {
				for _, v := range s {
					v.(*box).add(newBox(0))
				}
				return len(s) > 0
			})
		}
		r, _ := m.SpeculativeReduce(func(s map[interface{}]interface{}) (interface{}, bool) {
			b := &box{}
			for _, v := range s {
				b.add(newBox(v.(*box).get()))
			}
			return b, false
		}, func(x, y interface{}) (interface{}, bool) { return join(x, y), false })
		return r.(*box).get()
	case "pipeline", "pipeline, chan", "pipeline, limited", "pipeline, user-defined node":
		var p pipeline.Pipeline
		idx := make([]int, k)
		for i := range idx {
			idx[i] = i
		}
		if t.kind == "pipeline, chan" {
			ch := make(chan int)
			go func() {
				for i := range idx {
					ch <- i
				}
				close(ch)
			}()
			p.Source(ch)
			p.SetVariableBatchSize(1, 1+t.n%3)
		} else {
			p.Source(idx)
			if t.n > 0 {
				p.NofBatches(t.n)
			}
		}
		work := pipeline.Receive(func(_ int, data interface{}) interface{} {
			var r []*box
			for _, i := range data.([]int) {
				r = append(r, newBox(kid(i)))
			}
			return r
		})
		touch := pipeline.Receive(func(_ int, data interface{}) interface{} {
			for _, b := range data.([]*box) {
				b.add(newBox(0))
			}
			return data
		})
		total, seen, fin, n := 0, 0, 0, 0
		acc := pipeline.ReceiveAndFinalize(func(_ int, data interface{}) interface{} {
			for _, b := range data.([]*box) {
				total += b.get()
				b.add(newBox(0))
				seen++
			}
			return data
		}, func() { fin += total })
		var all []*box
		var node pipeline.Node
		switch t.n % 4 {
		case 0:
			node = pipeline.Seq(acc)
		case 1:
			node = pipeline.Ord(acc)
		case 2:
			node = pipeline.StrictOrd(acc)
		default:
			node = pipeline.LimitedPar(1, acc)
		}
		switch t.kind {
		case "pipeline, limited":
			p.Add(pipeline.LimitedPar(2, work, touch), pipeline.Par(touch), node, pipeline.LimitedPar(3, touch), pipeline.Ord(pipeline.Slice(&all)), pipeline.Seq(pipeline.Count(&n)))
		case "pipeline, user-defined node":
			p.Add(pipeline.Par(work), &plainNode{}, pipeline.Par(touch), node, pipeline.Par(pipeline.Slice(&all), pipeline.Count(&n)))
		default:
			p.Add(pipeline.Par(work, touch), node, pipeline.Par(touch, pipeline.Slice(&all)), pipeline.Ord(touch, pipeline.Count(&n)))
		}
		p.Run()
		if p.Err() != nil || seen != k || fin != total || len(all) != k || n != k {
			return 1 << 55
		}
		r := 0
		for _, b := range all {
			r += b.get()
			b.sum = -1
		}
		if r != total {
			return 1 << 56
		}
		return r
	}
	panic("harness: task kind " + t.kind)
}

// A plainNode is a user-defined node without any synchronization of its own.
type plainNode struct {
	begun bool
	index int
	ended bool
}

func (n *plainNode) TryMerge(pipeline.Node) bool { return false }
func (n *plainNode) Begin(_ *pipeline.Pipeline, index int, _ *int) bool {
	n.begun, n.index = true, index
	return true
}
func (n *plainNode) Feed(p *pipeline.Pipeline, index int, seqNo int, data interface{}) {
	if !n.begun || n.ended {
		panic("fed too early or too late")
	}
	p.FeedForward(index, seqNo, data)
}
func (n *plainNode) End() { n.ended = true }

// raceSources are the workloads that are watched by the race detector as well.
var raceSources = []string{"D02", "D03", "D04", "S01", "S02", "O01", "O02", "O03", "O04", "M01", "M02", "M03", "M04", "M05", "M06", "M07", "L01", "L02", "L03", "L04", "L06", "L07", "L08", "L08", "L09", "L10", "L11", "L12", "L12", "L13"}

// borrow runs a case of another property without its oracle.
func (c *ctx) borrow(name string) {
	sub := &ctx{Rand: rand.New(rand.NewPCG(c.Uint64(), 7)), prop: name, i: c.IntN(1 << 20), race: c.race, obs: map[string]int64{}, stall: -1}
	func() {
		defer func() { recover() }()
		props[name].run(sub)
	}()
	sub.mu.Lock()
	c.Describe("%s: %s", name, sub.desc)
	sub.mu.Unlock()
	c.Obs("workloads of "+name, 1)
	c.Nontrivial(name, sub.sig, sub.i)
}

func runR01(c *ctx) {
	if c.race && c.i%2 == 1 {
		name := raceSources[c.i/2%len(raceSources)]
		c.Hang("%s: never ends", name)
		c.borrow(name)
		return
	}
	g := c.between(1, 3)
	budget := c.between(10, 60)
	ts := make([]*task, g)
	for i := range ts {
		ts[i] = c.genTask(4, &budget)
		for ts[i].kind == "leaf" {
			b := 8
			ts[i] = c.genTask(4, &b)
		}
	}
	text := fmt.Sprint(ts)
	c.Describe("%s", clip(text))
	c.Hang("%s: never ends", clip(text))
	got := make([]int, g)
	together(c, g, func(i int) { got[i] = ts[i].eval(c) })
	for i, t := range ts {
		if got[i] != t.want() {
			c.Fail("%s: the value is %d instead of %d", clip(t.String()), got[i], t.want())
		}
	}
	if left := libraryGoroutines(c); len(left) > 0 {
		c.Fail("%s: goroutines never end: %s", clip(text), clip(left[0].text))
	}
	kinds := map[string]int{}
	for _, t := range ts {
		t.count(kinds)
	}
	n := 0
	for k, x := range kinds {
		c.Obs("calls: "+k, x)
		if k != "leaf" {
			n += x
		}
	}
	if n > 1 {
		h := fnv.New64a()
		h.Write([]byte(text))
		c.Nontrivial(h.Sum64(), c.i)
	}
}

// ------------------------------------------------------------------ G01

// leakSources are the workloads after which the goroutines are counted. Their
// own oracles do not matter here.
var leakSources = []string{"D02", "D03", "D04", "D01", "S01", "S02", "O01", "O02", "O03", "M02", "M03", "M04", "M05", "M06", "L01", "L04", "L06", "L06", "L06", "L08", "L10", "L12", "L12", "L13", "own", "own", "own", "own", "sort that panics"}

func runG01(c *ctx) {
	name := leakSources[c.i%len(leakSources)]
	c.Hang("%s: a goroutine of the library blocks its caller for ever", name)
	switch name {
	case "own":
		leakOwn(c)
	case "sort that panics":
		leakSort(c)
	default:
		c.borrow(name)
	}
	left := libraryGoroutines(c)
	if len(left) > 0 {
		c.mu.Lock()
		d := c.desc
		c.mu.Unlock()
		c.Fail("%s: %d goroutines of the library never end: %s", d, len(left), clip(left[0].text))
	}
	c.Obs("goroutine censuses", 1)
}

// panicColl is a collection with a method that panics when it is called for
// the n-th time, but never before all goroutines had a chance to start.
type panicColl struct {
	psort.IntSlice
	method string
	n      *atomic.Int64
	slow   time.Duration
}

func (s panicColl) may(method string) {
	if s.method == method && s.n.Add(-1) == 0 {
		panic(errPlanned)
	}
}

func (s panicColl) Less(i, j int) bool      { s.may("Less"); return s.IntSlice.Less(i, j) }
func (s panicColl) Swap(i, j int)           { s.may("Swap"); s.IntSlice.Swap(i, j) }
func (s panicColl) SequentialSort(i, j int) { s.may("SequentialSort"); s.IntSlice.SequentialSort(i, j) }

func (s panicColl) NewTemp() psort.StableSorter {
	time.Sleep(s.slow)
	t := s
	t.IntSlice = make(psort.IntSlice, len(s.IntSlice))
	return t
}

func (s panicColl) Assign(source psort.StableSorter) func(i, j, n int) {
	f := s.IntSlice.Assign(source.(panicColl).IntSlice)
	return func(i, j, n int) { s.may("Assign"); f(i, j, n) }
}

// leakSort runs a sort that a method of the collection ends with a panic.
func leakSort(c *ctx) {
	n := c.sortSize(mGrain, 26000)
	keys := c.keys(patterns[c.IntN(len(patterns))], n)
	s := panicColl{psort.IntSlice(keys), pick([]string{"Less", "Swap", "SequentialSort", "Assign"}, c.IntN(4)), new(atomic.Int64), 0}
	at := c.between(1, 20)
	if s.method == "Less" && c.chance(2) {
		at = c.between(1, 8*n+1)
	}
	s.n.Store(int64(at))
	if c.chance(2) {
		s.slow = time.Duration(c.IntN(3000)) * time.Microsecond
	}
	fn := pick([]string{"Sort", "StableSort", "IsSorted"}, c.IntN(3))
	c.Describe("%s of %d elements, %s panics when called for the %d. time, NewTemp takes %v", fn, n, s.method, at, s.slow)
	_, panicked := try(func() {
		switch fn {
		case "Sort":
			psort.Sort(s)
		case "StableSort":
			psort.StableSort(s)
		default:
			psort.IsSorted(s)
		}
	})
	if panicked {
		c.Obs("sorts ended by a panic", 1)
	}
	c.Nontrivial(c.i, fn, s.method, n, at)
}

// leakOwn runs one call that ends early in some way, in particular pipelines
// with sources that stay open.
func leakOwn(c *ctx) {
	open := make(chan int, 3)
	open <- 1
	open <- 2
	open <- 3
	var p pipeline.Pipeline
	src := pick([]string{"open chan", "open SingletonChan", "slice", "empty slice", "failing Func"}, c.IntN(5))
	switch src {
	case "open chan":
		p.Source(open)
		p.SetVariableBatchSize(1, 1)
	case "open SingletonChan":
		p.Source(pipeline.NewSingletonChan(open))
	case "slice":
		p.Source([]int{1, 2, 3, 4, 5})
	case "empty slice":
		p.Source([]int{})
	default:
		k := 0
		p.Source(pipeline.NewFunc(-1, func(n int) (interface{}, int, error) {
			k++
			if k == 3 {
				return nil, 0, errPlanned
			}
			return []int{k}, 1, nil
		}))
	}
	end := pick([]string{"Cancel", "SetErr", "Cancel in Begin", "SetErr in Begin", "complete"}, c.IntN(5))
	if end == "complete" && strings.HasPrefix(src, "open") {
		close(open)
	}
	at := int32(c.between(1, 3))
	var calls atomic.Int32
	stop := func() {
		if strings.HasPrefix(end, "Cancel") {
			p.Cancel()
		} else {
			p.SetErr(errPlanned)
		}
	}
	f := func(p *pipeline.Pipeline, _ pipeline.NodeKind, _ *int) (pipeline.Receiver, pipeline.Finalizer) {
		if strings.HasSuffix(end, "Begin") {
			stop()
		}
		return func(_ int, d interface{}) interface{} {
			if calls.Add(1) == at && (end == "Cancel" || end == "SetErr") {
				stop()
			}
			return d
		}, nil
	}
	var desc []string
	pass := pipeline.Receive(func(_ int, d interface{}) interface{} { return d })
	for k, n, mine := 0, c.between(1, 7), c.IntN(7); k < n; k++ {
		var fs []pipeline.Filter
		switch {
		case k == mine%n:
			fs = []pipeline.Filter{f}
		case c.chance(3): // drops out, so that its neighbours get merged late
			fs = []pipeline.Filter{pipeline.Identity}
		default:
			fs = []pipeline.Filter{pass}
		}
		kind := pick([]string{"Par", "LPar2", "LPar3", "Seq", "Ord", "Strict"}, c.IntN(6))
		desc = append(desc, fmt.Sprintf("%s%d", kind, len(fs)))
		switch kind {
		case "Par":
			p.Add(pipeline.Par(fs...))
		case "LPar2":
			p.Add(pipeline.LimitedPar(2, fs...))
		case "LPar3":
			p.Add(pipeline.LimitedPar(3, fs...))
		case "Seq":
			p.Add(pipeline.Seq(fs...))
		case "Ord":
			p.Add(pipeline.Ord(fs...))
		default:
			p.Add(pipeline.StrictOrd(fs...))
		}
	}
	if src == "open chan" || src == "open SingletonChan" {
		if end == "Cancel" || end == "SetErr" {
			at = 1 // the third batch may be dropped by a cancelled node
		}
	}
	c.Describe("%s, %s, %v", src, end, desc)
	c.Hang("%s, %s, %v: Run never returns", src, end, desc)
	if c.chance(3) {
		ctx, cancel := context.WithCancel(context.Background())
		p.RunWithContext(ctx, cancel)
		cancel()
	} else {
		p.Run()
	}
	c.Obs("own pipelines", 1)
	c.Nontrivial(c.i, src, end, desc)
}
