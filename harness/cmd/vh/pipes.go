package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"math"
	"io"
	"reflect"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing/iotest"
	"time"

	"github.com/exascience/pargo/pipeline"
)

// A pipe is one generated pipeline together with everything that watches it.
// The trace is kept in plain variables that only correctly used goroutines may
// touch without a race: each batch has its own record in each receiver.
type pipe struct {
	c    *ctx
	p    *pipeline.Pipeline
	src  *srcSpec
	spec []*nspec

	stages []*stage // receivers and user-defined nodes, in pipeline order
	fins   []*fin
	finLog []int

	returned atomic.Bool // plain builds only
	errMode  bool        // Run may return early, only atomics may be read then
	hook     func(s *stage, seq int, data any)
	onBegin  func(s *stage)
	delays   []delay
	style    int
	longAt   int // this batch takes more than a second somewhere, -1: none
	maxSeq   int
	desc     string
	what     string
}

// A stage is one place that sees all batches.
type stage struct {
	pp      *pipe
	id      int
	node    int // index in spec
	act     string
	excl    bool // never runs concurrently
	ordered bool
	limit   int // at most so many at a time, 0: any number

	told     pipeline.NodeKind
	begun    int
	size     int // announced
	recs     []brec
	plain    int // written by each call of an exclusive stage
	next     int
	inflight atomic.Int32
	maxIn    atomic.Int32
	custom   *customNode
}

// A brec is what a stage recorded for one batch.
type brec struct {
	count   int
	acount  atomic.Int32
	in, out []int
	nilIn   bool
	start   int64
	end     int64
	_       [32]byte
}

type fin struct {
	id, node int
	calls    int
	before   int // calls of receivers of this and earlier nodes so far
	at       int64
}

type nspec struct {
	kind    string // Par, LPar, Seq, Ord, Strict, Custom, Limit, Skip
	limit   int
	n       int
	cancel  bool
	viaNew  bool
	filters []string
	mode    int // of a custom node
	merges  bool
}

func (n *nspec) String() string {
	s := n.kind
	switch n.kind {
	case "LPar":
		s += strconv.Itoa(n.limit)
	case "Limit", "Skip":
		return fmt.Sprintf("%s(%d,%v)", n.kind, n.n, n.cancel)
	case "Custom":
		m := ""
		if n.merges {
			m = "+"
		}
		return fmt.Sprintf("Custom%d%s%v", n.mode, m, n.filters)
	}
	return s + "[" + strings.Join(n.filters, " ") + "]"
}

// ------------------------------------------------------------------ data

// elems decodes a batch into the numbers of its elements.
func batchElems(data any) []int {
	switch d := data.(type) {
	case nil:
		return nil
	case []int:
		return append([]int(nil), d...)
	case namedInts:
		return append([]int(nil), d...)
	case int:
		return []int{d}
	case string:
		r := make([]int, len(d))
		for i := range r {
			r[i] = int(d[i])
		}
		return r
	case []string:
		r := make([]int, len(d))
		for i := range r {
			n, err := strconv.Atoi(d[i])
			if err != nil {
				n = -1
			}
			r[i] = n
		}
		return r
	case [][]byte:
		r := make([]int, len(d))
		for i := range r {
			n, err := strconv.Atoi(string(d[i]))
			if err != nil {
				n = -1
			}
			r[i] = n
		}
		return r
	}
	return []int{-1000}
}

type namedInts []int

func equalInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ------------------------------------------------------------------ sources

type fetchRec struct {
	size, got  int
	start, end int64
}

type srcSpec struct {
	kind    string
	n       int // elements, -1: endless
	known   bool
	ints    bool // batches are []int
	single  bool
	short   bool // user-defined: fetches fewer elements than asked for
	nb      int  // NofBatches
	inc     int  // SetVariableBatchSize
	max     int
	setVar  bool
	failAt  int // user-defined: the fetch that fails, -1: none
	failGot bool
	err     error

	value any // for Pipeline.Source

	// log of user-defined sources, only touched by the fetching goroutine
	prepared int
	ctx      context.Context
	fetches  []fetchRec
	busy     atomic.Int32
	pending  bool // fetched data was not read yet
	ended    bool
	pos      int
	data     any
	failed   atomic.Bool
	protocol []string
	nfetch   atomic.Int64
	lastErr  error
	onFetch  func(k int)

	stop chan struct{} // ends producers
	wg   sync.WaitGroup
}

var srcKinds = []string{"slice", "slice", "named", "array", "string", "chan", "singleton", "batches", "scanner", "bytes", "func", "funcN", "custom", "customN"}

func (c *ctx) srcSpec(kind string, n int) *srcSpec {
	s := &srcSpec{kind: kind, n: n, failAt: -1, stop: make(chan struct{})}
	switch kind {
	case "slice", "named", "array", "string", "funcN", "customN":
		s.known = true
	}
	switch kind {
	case "slice", "array", "chan", "batches", "func", "funcN", "custom", "customN":
		s.ints = true
	}
	s.single = kind == "singleton" || kind == "batches"
	s.nb = 0
	if !c.chance(4) {
		s.nb = c.between(1, 24)
		if c.chance(6) {
			s.nb = c.between(1, 2*n+2)
		}
	}
	if !c.chance(6) || n > 64 {
		s.setVar = true
		s.inc = c.between(1, 4)
		s.max = c.between(1, 12)
		if c.chance(4) {
			s.inc = c.between(1, 1+max(n, 0))
			s.max = c.between(1, 1+max(n, 0))
		}
		if c.chance(8) {
			s.inc = c.between(-1, 0)
		}
		if c.chance(8) {
			s.max = c.between(-1, 0)
		}
	}
	if c.chance(12) {
		// as large as possible
		huge := []int{math.MaxInt, math.MaxInt - 1, math.MaxInt/2 + 1, 1 << 32, 1<<31 + 1}
		switch c.IntN(3) {
		case 0:
			s.inc, s.setVar = pick(huge, c.IntN(5)), true
		case 1:
			s.max, s.setVar = pick(huge, c.IntN(5)), true
		default:
			s.nb = pick(huge, c.IntN(5))
		}
	}
	s.short = c.chance(3)
	return s
}

func satAdd(a, b int) int {
	if a > math.MaxInt-b {
		return math.MaxInt
	}
	return a + b
}

func satMul(a, b int) int {
	if b != 0 && a > math.MaxInt/b {
		return math.MaxInt
	}
	return a * b
}

func (s *srcSpec) build(c *ctx, p *pipeline.Pipeline) {
	n := s.n
	ints := func(lo, hi int) []int {
		r := make([]int, hi-lo)
		for i := range r {
			r[i] = lo + i
		}
		return r
	}
	width := 0 // lines may be long
	if n >= 0 && n <= 300 && c.chance(4) {
		width = pick([]int{100, 255, 256, 500, 511, 512, 513, 1023, 1024, 1500, 2048, 4000, 5000}, c.IntN(13))
	}
	lines := func() io.Reader {
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "%0*d\n", width, i)
		}
		var r io.Reader = strings.NewReader(b.String())
		switch c.IntN(3) {
		case 0:
			r = iotest.OneByteReader(r)
		case 1:
			r = iotest.HalfReader(r)
		}
		return r
	}
	small := func(sc *bufio.Scanner) {
		if c.chance(2) {
			sc.Buffer(make([]byte, 0, 8), 64+2*width)
		}
	}
	produce := func(send func(i int) bool, done func()) {
		s.wg.Add(1)
		go func() {
			defer s.wg.Done()
			defer done()
			for i := 0; i < n || n < 0; i++ {
				if n < 0 {
					throttle(i)
				}
				if !send(i) {
					return
				}
			}
		}()
	}
	capa := c.IntN(5)
	switch s.kind {
	case "slice":
		r := ints(0, n)
		if c.chance(3) {
			r = append(r, -7, -7, -7)[:n] // spare capacity
		}
		if n == 0 && c.chance(2) {
			r = nil
		}
		s.value = r
	case "named":
		s.value = namedInts(ints(0, n))
	case "array":
		v := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(0))).Elem()
		for i := 0; i < n; i++ {
			v.Index(i).SetInt(int64(i))
		}
		s.value = v.Interface()
	case "string":
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i)
		}
		s.value = string(b)
	case "chan":
		ch := make(chan int, capa)
		produce(func(i int) bool {
			select {
			case ch <- i:
				return true
			case <-s.stop:
				return false
			}
		}, func() { close(ch) })
		if c.chance(2) {
			s.value = (<-chan int)(ch)
		} else {
			s.value = ch
		}
	case "singleton":
		ch := make(chan int, capa)
		produce(func(i int) bool {
			select {
			case ch <- i:
				return true
			case <-s.stop:
				return false
			}
		}, func() { close(ch) })
		s.value = pipeline.NewSingletonChan(ch)
	case "batches":
		// an element of the channel is a batch
		ch := make(chan []int, capa)
		step := c.between(1, 5)
		produce(func(i int) bool {
			if i%step != 0 {
				return true
			}
			hi := i + step
			if n >= 0 && hi > n {
				hi = n
			}
			select {
			case ch <- ints(i, hi):
				return true
			case <-s.stop:
				return false
			}
		}, func() { close(ch) })
		s.value = pipeline.NewSingletonChan(ch)
	case "scanner":
		sc := pipeline.NewScanner(lines())
		small(sc.Scanner)
		s.value = sc
	case "bytes":
		sc := pipeline.NewBytesScanner(lines())
		small(sc.Scanner)
		s.value = sc
	case "func", "funcN":
		size := -1
		if s.known {
			size = n
		}
		s.value = pipeline.NewFunc(size, func(size int) (any, int, error) {
			got := s.fetch(c, size)
			return s.data, got, s.lastErr
		})
	case "custom", "customN":
		s.value = &customSource{s, c}
	default:
		panic("harness: source kind " + s.kind)
	}
	// in any order; what is set last counts
	early := c.chance(3)
	if !early {
		p.Source(s.value)
	}
	if s.nb > 0 {
		if c.chance(4) {
			p.NofBatches(pick([]int{0, 1, 1 + c.IntN(30)}, c.IntN(3)))
		}
		if got := p.NofBatches(s.nb); got != s.nb {
			c.Fail("NofBatches(%d) returns %d", s.nb, got)
		}
		if got := p.NofBatches(-c.IntN(2)); got != s.nb {
			c.Fail("NofBatches returns %d after it was set to %d", got, s.nb)
		}
	}
	if s.setVar {
		if c.chance(4) {
			p.SetVariableBatchSize(c.between(-1, 30), c.between(-1, 30))
		}
		p.SetVariableBatchSize(s.inc, s.max)
	}
	if early {
		if c.chance(4) {
			p.Source([]int{-1, -2, -3})
		}
		p.Source(s.value)
	}
}

// close ends the producers.
func (s *srcSpec) close() {
	close(s.stop)
	s.wg.Wait()
}

func (s *srcSpec) bad(format string, args ...any) {
	if len(s.protocol) < 5 {
		s.protocol = append(s.protocol, fmt.Sprintf(format, args...))
	}
}

const fetchLimit = 20000

// throttle slows an endless source down once the pipeline should have been
// stopped: whoever stops it may be delayed.
func throttle(k int) {
	if k > 2000 {
		time.Sleep(2 * time.Millisecond)
	}
}

func (s *srcSpec) fetch(c *ctx, size int) int {
	if n := s.busy.Add(1); n != 1 {
		c.Fail("source: %d fetches at the same time", n)
	}
	defer s.busy.Add(-1)
	k := int(s.nfetch.Add(1)) - 1
	rec := fetchRec{size: size, start: now()}
	if size <= 0 {
		s.bad("fetch %d asks for %d elements", k, size)
		size = 1
	}
	if s.ended {
		s.bad("fetch %d after a fetch that returned 0", k)
	}
	if s.pending && strings.HasPrefix(s.kind, "custom") {
		s.bad("fetch %d although the data of the previous one was not read", k)
	}
	if s.onFetch != nil {
		s.onFetch(k)
	}
	if s.n < 0 {
		throttle(k)
	}
	got := size
	if s.short && size > 1 {
		got = 1 + (k*7)%size
	}
	if s.n >= 0 && got > s.n-s.pos {
		got = s.n - s.pos
	}
	if s.n < 0 && k >= fetchLimit {
		got = 0 // let it end
	}
	if k == s.failAt {
		s.failed.Store(true)
		s.lastErr = s.err
		if !s.failGot {
			got = 0
		}
	}
	if got == 0 {
		s.data = nil
		s.ended = true
	} else {
		b := make([]int, got)
		for i := range b {
			b[i] = s.pos + i
		}
		s.pos += got
		s.data = b
		s.pending = true
	}
	rec.got = got
	rec.end = now()
	if len(s.fetches) < 4*fetchLimit {
		s.fetches = append(s.fetches, rec)
	}
	return got
}

type customSource struct {
	s *srcSpec
	c *ctx
}

func (s *customSource) Err() error { return s.s.lastErr }

func (s *customSource) Prepare(ctx context.Context) int {
	s.s.prepared++
	s.s.ctx = ctx
	if s.s.prepared > 1 {
		s.s.bad("prepared %d times", s.s.prepared)
	}
	if len(s.s.fetches) > 0 {
		s.s.bad("prepared after a fetch")
	}
	if s.s.known {
		return s.s.n
	}
	return -1
}

func (s *customSource) Fetch(size int) int {
	if s.s.prepared != 1 {
		s.s.bad("fetched before it was prepared")
	}
	return s.s.fetch(s.c, size)
}

func (s *customSource) Data() any {
	if n := s.s.busy.Add(1); n != 1 {
		s.c.Fail("source: Data during a fetch")
	}
	defer s.s.busy.Add(-1)
	if !s.s.pending {
		s.s.bad("Data without a preceding successful fetch")
	}
	s.s.pending = false
	return s.s.data
}

// ------------------------------------------------------------------ nodes

func (pp *pipe) newStage(node int) *stage {
	n := pp.spec[node]
	s := &stage{pp: pp, id: len(pp.stages), node: node, size: -99, told: -1, recs: make([]brec, pp.maxSeq)}
	switch n.kind {
	case "Seq":
		s.excl = true
	case "Ord", "Strict", "Limit", "Skip":
		s.excl, s.ordered = true, true
	case "LPar":
		s.limit = n.limit
		if n.limit <= 0 {
			s.limit = runtime.GOMAXPROCS(0)
		}
		s.excl = s.limit == 1
	}
	pp.stages = append(pp.stages, s)
	return s
}

func (pp *pipe) newFin(node int) *fin {
	f := &fin{id: len(pp.fins), node: node}
	pp.fins = append(pp.fins, f)
	return f
}

// run is called for each batch.
func (s *stage) run(seq int, data any) any {
	pp := s.pp
	c := pp.c
	if seq < 0 || seq >= len(s.recs) {
		c.Fail("%s: stage %d gets the sequence number %d", pp.what, s.id, seq)
		return data
	}
	if s.begun == 0 {
		c.Fail("%s: stage %d gets batch %d before its node was started", pp.what, s.id, seq)
	}
	rec := &s.recs[seq]
	if !c.race {
		if pp.returned.Load() && !pp.errMode {
			c.Fail("%s: stage %d gets batch %d after Run returned", pp.what, s.id, seq)
		}
		n := s.inflight.Add(1)
		for {
			m := s.maxIn.Load()
			if n <= m || s.maxIn.CompareAndSwap(m, n) {
				break
			}
		}
	}
	if pp.errMode {
		rec.acount.Add(1)
	}
	rec.count++
	rec.start = now()
	if s.excl || s.told == pipeline.Sequential || s.told == pipeline.Ordered {
		s.plain++
	}
	if s.ordered || s.told == pipeline.Ordered {
		if seq != s.next {
			c.Fail("%s: ordered stage %d gets batch %d instead of %d", pp.what, s.id, seq, s.next)
		}
		s.next = seq + 1
	}
	rec.in = batchElems(data)
	rec.nilIn = data == nil
	pp.delay(s, seq).spend()
	if pp.hook != nil {
		pp.hook(s, seq, data)
	}
	data = s.transform(seq, data)
	rec.out = batchElems(data)
	rec.end = now()
	if !c.race {
		s.inflight.Add(-1)
		if pp.returned.Load() && !pp.errMode {
			c.Fail("%s: stage %d is still busy with batch %d after Run returned", pp.what, s.id, seq)
		}
	}
	return data
}

func (pp *pipe) delay(s *stage, seq int) delay {
	if seq == pp.longAt && s.id == seq%len(pp.stages) {
		return 1_150_000
	}
	switch pp.style {
	case 0:
		return 0
	case 1: // random
		return pp.delays[(seq*31+s.id*17)%len(pp.delays)]
	case 2: // early batches are slow
		if d := 12 - seq; d > 0 && s.id == 0 {
			return delay(d * 8)
		}
		return 0
	case 3: // one slow batch
		if seq == 1 {
			return 150
		}
		return 0
	default: // every other batch is slow
		if (seq+s.id)%2 == 0 {
			return 30
		}
		return -3
	}
}

func (s *stage) transform(seq int, data any) any {
	d, ok := data.([]int)
	if !ok {
		return data
	}
	switch s.act {
	case "map": // a new batch
		r := make([]int, len(d))
		for i := range d {
			r[i] = d[i] + 1<<20
		}
		return r
	case "drop": // some elements
		var r []int
		for _, x := range d {
			if x%3 != 0 {
				r = append(r, x)
			}
		}
		return r
	case "empty": // some batches
		if seq%2 == 1 {
			return nil
		}
	case "append":
		_ = append(d, -5, -5, -5)
	case "mutate":
		_ = append(d, -5)
		for i := range d {
			d[i] += 1 << 21
		}
	}
	return data
}

// changesSize says whether an action changes the number of elements.
func changesSize(act string) bool { return act == "drop" || act == "empty" }

// filter builds one filter of a node:
// t receiver, f finalizer, b both, i Identity, n nothing, m map, d drop, e empty, a append, u mutate, c Count
func (pp *pipe) filter(node int, kind string) pipeline.Filter {
	switch kind {
	case "i":
		return pipeline.Identity
	case "n":
		return func(*pipeline.Pipeline, pipeline.NodeKind, *int) (pipeline.Receiver, pipeline.Finalizer) {
			return nil, nil
		}
	case "c":
		return pipeline.Count(new(int))
	case "r":
		s := pp.newStage(node)
		s.begun = 1
		return pipeline.Receive(s.run)
	case "g":
		f := pp.newFin(node)
		return pipeline.Finalize(func() { pp.finalize(f) })
	case "q":
		s := pp.newStage(node)
		s.begun = 1
		f := pp.newFin(node)
		return pipeline.ReceiveAndFinalize(s.run, func() { pp.finalize(f) })
	}
	var s *stage
	var f *fin
	if kind != "f" {
		s = pp.newStage(node)
		s.act = map[string]string{"m": "map", "d": "drop", "e": "empty", "a": "append", "u": "mutate"}[kind]
	}
	if kind == "f" || kind == "b" {
		f = pp.newFin(node)
	}
	return func(p *pipeline.Pipeline, k pipeline.NodeKind, size *int) (r pipeline.Receiver, fz pipeline.Finalizer) {
		if p != pp.p {
			pp.c.Fail("%s: a filter gets another pipeline", pp.what)
		}
		if s != nil {
			s.begun++
			if s.begun > 1 {
				pp.c.Fail("%s: the filter of stage %d is called %d times", pp.what, s.id, s.begun)
			}
			s.told, s.size = k, *size
			if changesSize(s.act) {
				*size = -1
			}
			r = s.run
			if pp.onBegin != nil {
				pp.onBegin(s)
			}
		}
		if f != nil {
			fz = func() { pp.finalize(f) }
		}
		return
	}
}

func (pp *pipe) finalize(f *fin) {
	f.calls++
	f.at = now()
	f.before = pp.callsUpTo(f.node)
	pp.finLog = append(pp.finLog, f.id)
	if !pp.c.race && pp.returned.Load() && !pp.errMode {
		pp.c.Fail("%s: a finalizer runs after Run returned", pp.what)
	}
}

// callsUpTo counts the calls of the receivers in the nodes up to one. It reads
// what the receivers wrote, so the race detector sees if it is too early.
func (pp *pipe) callsUpTo(node int) int {
	n := 0
	for _, s := range pp.stages {
		if s.node <= node {
			for i := range s.recs {
				n += s.recs[i].count
			}
		}
	}
	return n
}

// A customNode is a user-defined node.
type customNode struct {
	pp     *pipe
	s      *stage
	node   int
	mode   int // 0: in the caller's goroutine, 1: a goroutine per batch, 2: one goroutine, in order, 3: not needed
	begins int
	ends   int
	idx    int
	open   atomic.Int32
	fed    atomic.Bool
	wg     sync.WaitGroup
	ch     chan work
	endAt  int64

	filters    []pipeline.Filter
	receivers  []pipeline.Receiver
	finalizers []pipeline.Finalizer

	merges bool          // takes over the next node if that is user-defined, too
	merged bool          // was taken over
	parts  []*customNode // nodes taken over
}

type work struct {
	seq int
	f   func()
}

func (n *customNode) TryMerge(next pipeline.Node) bool {
	nx, ok := next.(*customNode)
	if ok && (nx.node <= n.node || nx.merged) || n.merged || n.fed.Load() || n.ends > 0 {
		n.pp.c.Fail("%s: TryMerge of the user-defined node %d with node %v after it was merged, fed or ended", n.pp.what, n.node, next)
	}
	if !ok || !n.merges || n.mode == 3 || nx.mode != n.mode || n.mode == 2 || nx.begins != n.begins {
		return false
	}
	nx.merged = true
	n.parts = append(append(n.parts, nx), nx.parts...)
	nx.parts = nil
	return true
}

func (n *customNode) begin(p *pipeline.Pipeline, dataSize *int) {
	n.s.begun++
	n.s.size = *dataSize
	kind := pipeline.Parallel
	if n.mode == 2 {
		kind = pipeline.Ordered
	}
	n.receivers, n.finalizers = pipeline.ComposeFilters(p, kind, dataSize, n.filters)
	for _, r := range n.receivers {
		if r == nil {
			n.pp.c.Fail("%s: ComposeFilters returns a nil receiver", n.pp.what)
		}
	}
	for _, f := range n.finalizers {
		if f == nil {
			n.pp.c.Fail("%s: ComposeFilters returns a nil finalizer", n.pp.what)
		}
	}
}

func (n *customNode) process(seqNo int, data any) any {
	data = n.s.run(seqNo, data)
	for _, receive := range n.receivers {
		data = receive(seqNo, data)
	}
	return data
}

func (n *customNode) Begin(p *pipeline.Pipeline, index int, dataSize *int) bool {
	n.begins++
	n.idx = index
	if p != n.pp.p || index < 0 || n.merged {
		n.pp.c.Fail("%s: Begin of a user-defined node gets index %d (the node was taken over by another: %v)", n.pp.what, index, n.merged)
	}
	n.begin(p, dataSize)
	for _, part := range n.parts {
		part.begin(p, dataSize)
	}
	if n.mode == 2 {
		// in order, since nodes that take batches strictly in order may follow
		n.ch = make(chan work, 2)
		n.wg.Add(1)
		go func() {
			defer n.wg.Done()
			stash := map[int]func(){}
			next := 0
			for w := range n.ch {
				stash[w.seq] = w.f
				for f := stash[next]; f != nil && p.Context().Err() == nil; f = stash[next] {
					delete(stash, next)
					f()
					next++
				}
			}
		}()
	}
	return n.mode != 3
}

func (n *customNode) Feed(p *pipeline.Pipeline, index int, seqNo int, data interface{}) {
	n.open.Add(1)
	defer n.open.Add(-1)
	n.fed.Store(true)
	if n.begins != 1 || n.mode == 3 || n.merged {
		n.pp.c.Fail("%s: a user-defined node is fed batch %d after %d calls of Begin (it is needed: %v)", n.pp.what, seqNo, n.begins, n.mode != 3)
		return
	}
	if p != n.pp.p || index < 0 || index >= len(n.pp.spec) {
		n.pp.c.Fail("%s: Feed of a user-defined node gets index %d", n.pp.what, index)
	}
	f := func() {
		data := n.process(seqNo, data)
		for _, part := range n.parts {
			data = part.process(seqNo, data)
		}
		p.FeedForward(index, seqNo, data)
	}
	switch n.mode {
	case 0:
		f()
	case 1:
		n.wg.Add(1)
		go func() {
			defer n.wg.Done()
			f()
		}()
	case 2:
		select {
		case n.ch <- work{seqNo, f}:
		case <-p.Context().Done():
		}
	}
}

func (n *customNode) End() {
	n.ends++
	n.endAt = now()
	if n.mode == 3 {
		n.pp.c.Fail("%s: End of a user-defined node whose Begin returned false", n.pp.what)
		return
	}
	if n.open.Load() != 0 {
		n.pp.c.Fail("%s: End of a user-defined node before Feed returned", n.pp.what)
	}
	last := n.node
	for _, m := range n.parts {
		last = m.node
	}
	for _, f := range n.pp.fins {
		if f.node < n.node && f.calls != 1 {
			n.pp.c.Fail("%s: End of the user-defined node %d before the finalizers of node %d", n.pp.what, n.node, f.node)
		}
		if f.node > last && f.calls != 0 {
			n.pp.c.Fail("%s: End of the user-defined node %d after the finalizers of node %d", n.pp.what, n.node, f.node)
		}
	}
	for _, s := range n.pp.stages {
		if s.custom != nil && s.node < n.node && s.custom.mode != 3 && !s.custom.merged && s.custom.ends != 1 {
			n.pp.c.Fail("%s: End of the user-defined node %d before that of node %d", n.pp.what, n.node, s.node)
		}
	}
	if n.ch != nil {
		close(n.ch)
	}
	n.wg.Wait()
	for _, m := range append([]*customNode{n}, n.parts...) {
		for _, finalize := range m.finalizers {
			finalize()
		}
	}
}

// build makes node i of the pipeline.
func (pp *pipe) node(i int) pipeline.Node {
	n := pp.spec[i]
	var cn *customNode
	if n.kind == "Custom" {
		cn = &customNode{pp: pp, s: pp.newStage(i), node: i, mode: n.mode, merges: n.merges}
		cn.s.custom = cn
		if n.mode == 3 {
			// it never sees a batch
			pp.stages = pp.stages[:len(pp.stages)-1]
			return cn
		}
	}
	var fs []pipeline.Filter
	for _, f := range n.filters {
		fs = append(fs, pp.filter(i, f))
	}
	switch n.kind {
	case "Par":
		if n.viaNew {
			return pipeline.NewNode(pipeline.Parallel, fs...)
		}
		return pipeline.Par(fs...)
	case "LPar":
		return pipeline.LimitedPar(n.limit, fs...)
	case "Seq":
		if n.viaNew {
			return pipeline.NewNode(pipeline.Sequential, fs...)
		}
		return pipeline.Seq(fs...)
	case "Ord":
		if n.viaNew {
			return pipeline.NewNode(pipeline.Ordered, fs...)
		}
		return pipeline.Ord(fs...)
	case "Strict":
		return pipeline.StrictOrd(fs...)
	case "Limit":
		return pipeline.Limit(n.n, n.cancel)
	case "Skip":
		return pipeline.Skip(n.n)
	case "Custom":
		cn.filters = fs
		return cn
	}
	panic("harness: node kind " + n.kind)
}

// ------------------------------------------------------------------ generator

type pipeOpts struct {
	kinds   []string // node kinds
	srcs    []string
	filters []string
	maxN    int
	nodes   int
	neutral bool // also nodes that drop out
}

var (
	allKinds   = []string{"Par", "Par", "LPar", "LPar", "Seq", "Seq", "Ord", "Ord", "Strict", "Strict", "Custom"}
	allFilters = []string{"t", "t", "t", "b", "b", "f", "i", "n", "c", "m", "r", "g", "q", "e"}
)

func (c *ctx) genNode(o *pipeOpts, n int, known bool) *nspec {
	sp := &nspec{kind: pick(o.kinds, c.IntN(len(o.kinds)))}
	if o.neutral && c.chance(5) {
		switch c.IntN(4) {
		case 0:
			return &nspec{kind: "Limit", n: -1 - c.IntN(2)}
		case 1:
			return &nspec{kind: "Skip", n: 0}
		case 2:
			return &nspec{kind: "Limit", n: max(n, 0) + 1 + c.IntN(3)}
		default:
			sp.filters = []string{pick([]string{"i", "n", "c"}, c.IntN(3))}
		}
	}
	sp.viaNew = c.chance(4)
	switch sp.kind {
	case "LPar":
		sp.limit = pick([]int{1, 2, 2, 3, 4, 0, -1}, c.IntN(7))
	case "Custom":
		sp.mode = c.IntN(4)
		sp.merges = c.chance(2)
		if !o.neutral && sp.mode == 3 {
			sp.mode = 0
		}
	}
	if sp.kind == "Custom" && (sp.mode == 3 || c.chance(2)) {
		sp.filters = nil
	} else if sp.filters == nil {
		for k := c.IntN(4); k > 0; k-- {
			sp.filters = append(sp.filters, pick(o.filters, c.IntN(len(o.filters))))
		}
	}
	return sp
}

// genPipe generates a pipeline; fix may change the nodes.
func (c *ctx) genPipe(o pipeOpts, fix func(pp *pipe)) *pipe {
	if o.kinds == nil {
		o.kinds = allKinds
	}
	if o.srcs == nil {
		o.srcs = srcKinds
	}
	if o.filters == nil {
		o.filters = allFilters
	}
	if o.maxN == 0 {
		o.maxN = 60
	}
	if o.nodes == 0 {
		o.nodes = 6
	}
	n := c.IntN(o.maxN + 1)
	if c.chance(3) {
		n = c.IntN(8)
	}
	pp := &pipe{c: c, p: new(pipeline.Pipeline)}
	kind := pick(o.srcs, c.IntN(len(o.srcs)))
	if o.maxN >= 60 && c.chance(70) {
		n = c.between(200, 1500)
		if kind == "string" {
			n = 256
		}
	}
	pp.src = c.srcSpec(kind, n)
	for k := c.between(1, o.nodes); k > 0; k-- {
		pp.spec = append(pp.spec, c.genNode(&o, n, pp.src.known))
	}
	if fix != nil {
		fix(pp)
	}
	if pp.src.kind == "singleton" {
		// the batches have no length
		for _, sp := range pp.spec {
			for k, f := range sp.filters {
				if f == "c" {
					sp.filters[k] = "i"
				}
			}
			if sp.kind == "Limit" {
				sp.n = -1
			}
		}
	}
	// at least one receiver
	watched := false
	for _, sp := range pp.spec {
		for _, f := range sp.filters {
			watched = watched || strings.Contains("tbmrqeadu", f)
		}
	}
	if !watched {
		pp.spec = append(pp.spec, &nspec{kind: pick([]string{"Par", "Seq", "Ord", "Strict"}, c.IntN(4)), filters: []string{"t"}})
	}
	pp.style = c.IntN(5)
	pp.longAt = -1
	if c.i%1500 == 701 {
		pp.longAt = c.IntN(4)
	}
	pp.delays = make([]delay, 16)
	for i := range pp.delays {
		pp.delays[i] = c.delay(false)
	}
	pp.maxSeq = n + 3
	pp.desc = fmt.Sprintf("%s of %d elements (NofBatches %d, variable %d %d)", pp.src.kind, pp.src.n, pp.src.nb, pp.src.inc, pp.src.max)
	for _, sp := range pp.spec {
		pp.desc += " " + sp.String()
	}
	pp.what = pp.desc
	return pp
}

// assemble builds the pipeline.
func (pp *pipe) assemble() {
	pp.c.Describe("%s", pp.desc)
	pp.c.Hang("%s", pp.what+": Run never returns")
	pp.src.build(pp.c, pp.p)
	var nodes []pipeline.Node
	for i := range pp.spec {
		nodes = append(nodes, pp.node(i))
	}
	// in one or several calls
	if pp.c.chance(2) {
		pp.p.Add(nodes...)
	} else {
		for _, n := range nodes {
			pp.p.Add(n)
		}
	}
}

func (pp *pipe) run() {
	pp.p.Run()
	if !pp.c.race {
		pp.returned.Store(true)
	}
}

// batches returns the number of batches the first stage saw.
func (pp *pipe) batches() int {
	b := 0
	for i := range pp.stages[0].recs {
		if pp.stages[0].recs[i].count > 0 {
			b = i + 1
		}
	}
	return b
}

func (pp *pipe) content() []int {
	r := make([]int, max(pp.src.n, 0))
	for i := range r {
		r[i] = i
	}
	return r
}

// finish ends helpers and checks that nothing is left behind.
func (pp *pipe) finish() {
	pp.src.close()
	if left := libraryGoroutines(pp.c); len(left) > 0 {
		pp.c.Fail("%s: goroutines never end after Run returned: %s", pp.what, clip(left[0].text))
	}
}

func (pp *pipe) observe(extra ...any) {
	c := pp.c
	b := pp.batches()
	c.Obs("batches", b)
	calls := pp.callsUpTo(len(pp.spec))
	c.Obs("receiver calls", calls)
	// completion order of the batches at the first stage, as a fingerprint of the schedule
	inv := 0
	for i := 0; i+1 < b; i++ {
		if pp.stages[0].recs[i].end > pp.stages[0].recs[i+1].end {
			inv++
		}
	}
	c.Obs("adjacent batches that finished out of order at the first receiver", inv)
	if b > 1 {
		c.Nontrivial(append([]any{pp.desc, pp.style, pp.delays, inv}, extra...)...)
	}
}

// ------------------------------------------------------------------ L01

func init() {
	const pk = "pipeline"
	props["L01"] = &prop{pkgs: pk, run: runL01}
	props["L02"] = &prop{pkgs: pk, run: runL02}
	props["L03"] = &prop{pkgs: pk, run: runL03}
	props["L04"] = &prop{pkgs: pk, run: runL04}
	props["L05"] = &prop{pkgs: pk, run: runL05}
	props["L06"] = &prop{pkgs: pk, run: runL06}
	props["L07"] = &prop{pkgs: pk, run: runL07, light: true}
	props["L08"] = &prop{pkgs: pk, run: runL08}
	props["L09"] = &prop{pkgs: pk, run: runL09}
	props["L10"] = &prop{pkgs: pk, run: runL10}
	props["L11"] = &prop{pkgs: pk, run: runL11}
	props["L12"] = &prop{pkgs: pk, run: runL12}
	props["L13"] = &prop{pkgs: pk, run: runL13}
}

// neutral says whether a node kind in the spec passes everything on.
func runL01(c *ctx) {
	pp := c.genPipe(pipeOpts{neutral: true}, nil)
	pp.assemble()
	pp.run()
	pp.checkFlow()
	pp.finish()
	pp.observe()
}

// checkFlow checks that every stage got every batch once, as the previous stage
// left it.
func (pp *pipe) checkFlow() {
	c := pp.c
	b := pp.batches()
	var all []int
	for i := 0; i < b; i++ {
		all = append(all, pp.stages[0].recs[i].in...)
	}
	if want := pp.content(); !equalInts(all, want) {
		c.Fail("%s: the first receiver sees %v instead of 0..%d", pp.what, clip(fmt.Sprint(all)), pp.src.n-1)
	}
	for k, s := range pp.stages {
		for i := range s.recs {
			want := 0
			if i < b {
				want = 1
			}
			if s.recs[i].count != want {
				c.Fail("%s: stage %d (node %d) gets batch %d of %d %d times", pp.what, s.id, s.node, i, b, s.recs[i].count)
				break
			}
			if want == 1 && k > 0 {
				if !equalInts(s.recs[i].in, pp.stages[k-1].recs[i].out) {
					c.Fail("%s: stage %d gets %v as batch %d, stage %d returned %v", pp.what, s.id, clip(fmt.Sprint(s.recs[i].in)), i, k-1, clip(fmt.Sprint(pp.stages[k-1].recs[i].out)))
					break
				}
				if s.recs[i].start < pp.stages[k-1].recs[i].end {
					c.Fail("%s: stage %d gets batch %d before stage %d is done with it", pp.what, s.id, i, k-1)
				}
			}
		}
	}
	if pp.p.Err() != nil {
		c.Fail("%s: Err is %v", pp.what, pp.p.Err())
	}
}

// ------------------------------------------------------------------ L02

func runL02(c *ctx) {
	pp := c.genPipe(pipeOpts{neutral: true}, func(pp *pipe) {
		// an ordered node somewhere behind a reordering one
		at := c.IntN(len(pp.spec) + 1)
		ord := &nspec{kind: pick([]string{"Ord", "Strict"}, c.IntN(2)), filters: []string{"t"}, viaNew: c.chance(4)}
		mix := &nspec{kind: "Par", filters: []string{"t"}}
		if c.chance(3) {
			mix = &nspec{kind: "LPar", limit: pick([]int{2, 3, 4, 5, 8, 17, 40, 0}, c.IntN(8)), filters: []string{"t"}}
		}
		tail := append([]*nspec{}, pp.spec[at:]...)
		pp.spec = append(pp.spec[:at:at], mix)
		for _, n := range tail {
			pp.spec = append(pp.spec, n)
			if c.chance(2) && ord != nil {
				pp.spec = append(pp.spec, ord)
				ord = nil
			}
		}
		if ord != nil {
			pp.spec = append(pp.spec, ord)
		}
	})
	if pp.style == 0 || c.chance(2) {
		pp.style = c.between(1, 4)
	}
	pp.assemble()
	pp.run()
	// the order is checked while it runs; here: nothing is missing
	b := pp.batches()
	reordered := 0
	for _, s := range pp.stages {
		if s.ordered && s.next != b {
			c.Fail("%s: the ordered stage %d has seen %d batches of %d", pp.what, s.id, s.next, b)
		}
		if s.ordered && s.id > 0 {
			prev := pp.stages[s.id-1]
			for i := 0; i+1 < b; i++ {
				if prev.recs[i].end > prev.recs[i+1].end {
					reordered++
				}
			}
		}
		if s.ordered && pp.src.n > 0 && s.id == 0 {
			var all []int
			for i := 0; i < b; i++ {
				all = append(all, s.recs[i].in...)
			}
			if !equalInts(all, pp.content()) {
				c.Fail("%s: the ordered stage %d sees the elements in the order %v", pp.what, s.id, clip(fmt.Sprint(all)))
			}
		}
	}
	c.Obs("adjacent batches that arrived at an ordered stage out of order", reordered)
	pp.finish()
	pp.observe(reordered)
}

// ------------------------------------------------------------------ L03

func runL03(c *ctx) {
	rendezvous := c.i%3 != 0
	meet := -1
	pp := c.genPipe(pipeOpts{maxN: 40}, func(pp *pipe) {
		if rendezvous {
			at := c.IntN(len(pp.spec) + 1)
			sp := &nspec{kind: "Par", filters: []string{"t"}, viaNew: c.chance(3)}
			if c.chance(2) {
				sp = &nspec{kind: "LPar", limit: pick([]int{2, 3, 4, 5, 8, 17, 40, 0}, c.IntN(8)), filters: []string{"t"}}
			}
			for k := c.IntN(3); k > 0; k-- {
				sp.filters = append([]string{pick([]string{"t", "b", "i"}, c.IntN(3))}, sp.filters...)
			}
			pp.spec = append(pp.spec[:at:at], append([]*nspec{sp}, pp.spec[at:]...)...)
			meet = at
		}
		for _, sp := range pp.spec {
			if sp.kind == "LPar" && sp.limit <= 0 && c.chance(2) {
				sp.limit = 0
			}
		}
	})
	var target *stage
	var arrived atomic.Int64
	need := int64(0)
	gate := make(chan struct{})
	expect := func() int64 { return int64(pp.expectedBatches()) }
	pp.hook = func(s *stage, seq int, data any) {
		if s != target {
			return
		}
		n := arrived.Add(1)
		if n == need {
			close(gate)
		}
		<-gate
	}
	pp.assemble()
	if rendezvous {
		for _, s := range pp.stages {
			if s.node == meet {
				target = s // the last one of the node
			}
		}
		need = expect()
		if pp.spec[meet].kind == "LPar" {
			need = min(need, int64(target.limit))
		}
		c.Hang("%s: %d batches cannot be in stage %d (%s) at the same time", pp.what, need, target.id, pp.spec[meet])
		if need < 2 {
			target = nil
		} else {
			c.Obs("batches that met in a parallel receiver", int(need))
		}
	}
	pp.run()
	for _, s := range pp.stages {
		if c.race {
			continue
		}
		n := int(s.maxIn.Load())
		kind := pp.spec[s.node].kind
		switch {
		case s.excl && n > 1:
			c.Fail("%s: stage %d in a %s node was called %d times at once", pp.what, s.id, kind, n)
		case s.limit > 0 && n > s.limit:
			c.Fail("%s: stage %d with limit %d was called %d times at once", pp.what, s.id, s.limit, n)
		case (s.told == pipeline.Sequential || s.told == pipeline.Ordered) && n > 1:
			c.Fail("%s: stage %d was told kind %d and was called %d times at once", pp.what, s.id, s.told, n)
		}
		c.Max("calls of one receiver at the same time", n)
		if n > 1 && s.limit > 0 {
			c.Max("calls of one limited receiver at the same time", n)
		}
	}
	for _, s := range pp.stages {
		if s.excl && s.begun > 0 && s.plain != pp.batches() {
			c.Fail("%s: the unsynchronized counter of stage %d in a %s node is %d after %d batches", pp.what, s.id, pp.spec[s.node].kind, s.plain, pp.batches())
		}
	}
	pp.finish()
	pp.observe()
}

// expectedBatches is the number of batches that the source is going to yield.
func (pp *pipe) expectedBatches() int {
	s := pp.src
	n := s.n
	switch s.kind {
	case "singleton":
		return n
	case "batches", "func", "funcN", "custom", "customN":
		return -1 // depends
	}
	if s.known {
		k := s.nb
		if k < 1 {
			k = 2 * runtime.GOMAXPROCS(0)
		}
		size := (n-1)/k + 1
		if size < 1 {
			size = 1
		}
		return (n + size - 1) / size
	}
	inc, mx := s.inc, s.max
	if inc < 1 {
		inc = 1024
	}
	if mx < 1 {
		mx = 0x2000000
	}
	b := 0
	for size := inc; n > 0; size = satAdd(size, inc) {
		n -= min(size, mx)
		b++
	}
	return b
}

// ------------------------------------------------------------------ L04

func runL04(c *ctx) {
	pp := c.genPipe(pipeOpts{neutral: true, filters: []string{"t", "b", "b", "f", "f", "g", "q", "i", "n", "c", "m"}}, nil)
	cancelAt, cancelSeq := -1, 0
	if c.i%4 == 3 {
		cancelAt, cancelSeq = c.IntN(20), c.IntN(10)
	}
	pp.hook = func(s *stage, seq int, data any) {
		if cancelAt >= 0 && s.id == cancelAt%len(pp.stages) && seq == cancelSeq {
			pp.p.Cancel()
		}
	}
	pp.assemble()
	pp.run()
	cancelled := cancelAt >= 0
	for _, f := range pp.fins {
		if f.calls != 1 {
			c.Fail("%s: finalizer %d of node %d is called %d times", pp.what, f.id, f.node, f.calls)
		}
	}
	for i, id := range pp.finLog {
		if id != i {
			c.Fail("%s: the finalizers are called in the order %v", pp.what, pp.finLog)
			break
		}
	}
	total := pp.callsUpTo(len(pp.spec))
	for _, f := range pp.fins {
		if n := pp.callsUpTo(f.node); n != f.before {
			c.Fail("%s: finalizer %d of node %d runs after %d receiver calls of the nodes up to its own, there are %d in all", pp.what, f.id, f.node, f.before, n)
		}
		for _, s := range pp.stages {
			if s.node > f.node {
				continue
			}
			for i := range s.recs {
				if s.recs[i].count > 0 && s.recs[i].end > f.at {
					c.Fail("%s: finalizer %d of node %d runs before stage %d is done with batch %d", pp.what, f.id, f.node, s.id, i)
					break
				}
			}
		}
	}
	pp.finish()
	if n := pp.callsUpTo(len(pp.spec)); n != total {
		c.Fail("%s: receivers are called after Run returned", pp.what)
	}
	c.Obs("finalizers", len(pp.fins))
	if cancelled {
		c.Obs("runs cancelled from a receiver", 1)
	}
	if len(pp.fins) > 0 {
		pp.observe(cancelAt, cancelSeq)
	}
}

// ------------------------------------------------------------------ L05

func runL05(c *ctx) {
	o := pipeOpts{neutral: true, nodes: 8, maxN: 80}
	switch c.IntN(3) {
	case 0: // the node kinds that wait for their turn
		o.kinds = []string{"Strict", "Strict", "LPar", "LPar", "Seq", "Par", "Ord"}
		o.filters = []string{"t", "t", "b", "f"}
	case 1:
		o.kinds = []string{"Strict", "LPar", "Seq", "Par", "Ord", "Custom"}
	}
	pp := c.genPipe(o, nil)
	if c.chance(3) {
		pp.style = 4
	}
	pp.assemble()
	pp.c.Hang("%s", pp.what+": the pipeline deadlocks")
	pp.run()
	pp.finish()
	pp.observe()
	c.Obs("completed runs", 1)
	for i := range pp.spec {
		if pp.spec[i].kind == "Strict" {
			c.Obs("runs with strictly ordered nodes", 1)
			break
		}
	}
}

// ------------------------------------------------------------------ L06

var errPlanned = errors.New("planned error")

type ctxKey struct{}

// An ownContext is a context that is none of package context.
type ownContext struct {
	once sync.Once
	done chan struct{}
	err  error
}

func (o *ownContext) Deadline() (time.Time, bool) { return time.Time{}, false }
func (o *ownContext) Done() <-chan struct{}       { return o.done }
func (o *ownContext) Value(any) any               { return nil }
func (o *ownContext) cancel()                     { o.once.Do(func() { close(o.done) }) }
func (o *ownContext) Err() error {
	select {
	case <-o.done:
		return o.err
	default:
		return nil
	}
}

func runL06(c *ctx) {
	endless := c.chance(2)
	srcs := srcKinds
	if endless {
		srcs = []string{"func", "custom", "chan", "singleton", "batches"}
	}
	pp := c.genPipe(pipeOpts{srcs: srcs}, nil)
	how := pick([]string{"Cancel", "Cancel", "SetErr", "ctx"}, c.IntN(4))
	where := pick([]string{"receiver", "receiver", "outside", "filter", "fetch"}, c.IntN(5))
	stuck := false
	if endless {
		pp.src.n = -1
		pp.src.inc, pp.src.max, pp.src.setVar = c.between(1, 3), c.between(1, 5), true
		pp.maxSeq = fetchLimit + 100
	} else if where == "outside" && (pp.src.kind == "chan" || pp.src.kind == "singleton") {
		// the channel dries up without being closed
		stuck = c.chance(2)
	}
	if where == "fetch" && !strings.HasPrefix(pp.src.kind, "custom") && !strings.HasPrefix(pp.src.kind, "func") {
		where = "receiver"
	}
	atStage, atSeq := c.IntN(8), c.IntN(8)
	if !endless && where == "receiver" && c.chance(2) {
		atSeq = c.IntN(3)
	}
	pp.errMode = how == "SetErr"
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	parent, cancelParent := ctx, cancel
	if c.chance(2) {
		parent, cancelParent = context.WithCancel(context.Background())
		ctx, cancel = context.WithCancel(parent)
		defer cancel()
		defer cancelParent()
	}
	var at atomic.Int64 // when the pipeline was stopped
	ctxKind := "canceled"
	if how == "ctx" {
		switch ctxKind = pick([]string{"canceled", "canceled", "own", "own child", "timeout", "cause", "value"}, c.IntN(7)); ctxKind {
		case "own", "own child":
			own := &ownContext{done: make(chan struct{}), err: pick([]error{context.Canceled, context.DeadlineExceeded, errPlanned}, c.IntN(3))}
			if parent, cancelParent = own, own.cancel; ctxKind == "own" {
				ctx, cancel = own, own.cancel
			} else {
				// it learns of the cancellation some time later
				ctx, cancel = context.WithCancel(own)
				context.AfterFunc(ctx, func() { at.CompareAndSwap(0, now()) })
			}
		case "timeout":
			where = "timeout"
			parent, cancelParent = context.WithTimeout(context.Background(), time.Duration(c.IntN(4000))*time.Microsecond)
			ctx, cancel = parent, cancelParent
			if c.chance(2) {
				ctx, cancel = context.WithCancel(parent)
			}
			context.AfterFunc(parent, func() { at.CompareAndSwap(0, now()) })
			// the deadlock detector does not know of the timer
			go func() {
				for parent.Err() == nil {
					time.Sleep(time.Millisecond)
				}
			}()
		case "cause":
			p, f := context.WithCancelCause(context.Background())
			parent, cancelParent = p, func() { f(errPlanned) }
			ctx, cancel = context.WithCancel(parent)
		case "value":
			ctx = context.WithValue(ctx, ctxKey{}, 1)
		}
		defer cancel()
		defer cancelParent()
	}
	var won, tried atomic.Bool
	stop := func() {
		tried.Store(true)
		switch how {
		case "Cancel":
			pp.p.Cancel()
		case "SetErr":
			if pp.p.SetErr(errPlanned) {
				won.Store(true)
			}
		case "ctx":
			cancelParent()
			if ctxKind == "own child" {
				return
			}
		}
		at.CompareAndSwap(0, now())
	}
	pp.desc += fmt.Sprintf(" %s by %s (stage %d, batch %d), endless %v, stuck %v", how, where, atStage, atSeq, endless, stuck)
	if how == "ctx" {
		pp.desc += ", context " + ctxKind
	}
	pp.what = pp.desc
	pp.hook = func(s *stage, seq int, data any) {
		if where == "receiver" && s.id == atStage%len(pp.stages) && seq == atSeq {
			stop()
		}
	}
	var outside sync.WaitGroup
	if where == "outside" || where == "filter" {
		once := sync.Once{}
		d := c.delay(true)
		pp.onBegin = func(s *stage) {
			if where == "filter" {
				if s.id == atStage%len(pp.stages) {
					stop()
				}
				return
			}
			once.Do(func() {
				outside.Add(1)
				go func() {
					defer outside.Done()
					d.spend()
					stop()
				}()
			})
		}
		pp.spec = append([]*nspec{{kind: pick([]string{"Par", "Seq", "Ord"}, c.IntN(3)), filters: []string{"t"}}}, pp.spec...)
		if endless {
			atStage = 0 // some filters are not asked
		}
	}
	if where == "fetch" {
		pp.src.onFetch = func(k int) {
			if k == atSeq {
				stop()
			}
		}
	}
	if where == "receiver" && endless {
		// the stage that stops the pipeline has to see the batch
		pp.spec = append([]*nspec{{kind: "Par", filters: []string{"t"}}}, pp.spec...)
		atStage = 0
	}
	c.Describe("%s", pp.desc)
	c.Hang("%s", pp.what+": Run does not return")
	if stuck {
		s := pp.src
		s.build(c, pp.p)
		// replace the channel by one that never ends
		close(s.stop)
		s.wg.Wait()
		s.stop = make(chan struct{})
		ch := make(chan int, 10+s.n)
		for i := 0; i < s.n; i++ {
			ch <- i
		}
		if s.kind == "chan" {
			pp.p.Source(ch)
		} else {
			pp.p.Source(pipeline.NewSingletonChan(ch))
		}
		var nodes []pipeline.Node
		for i := range pp.spec {
			nodes = append(nodes, pp.node(i))
		}
		pp.p.Add(nodes...)
	} else {
		pp.assemble()
		c.Hang("%s", pp.what+": Run does not return")
	}
	if how == "ctx" || c.chance(3) {
		pp.p.RunWithContext(ctx, cancel)
		if how != "ctx" && !tried.Load() && ctx.Err() != nil && pp.p.Err() == nil {
			c.Fail("%s: the context is cancelled although nothing stopped the pipeline", pp.what)
		}
	} else {
		pp.p.Run()
	}
	returnedAt := now()
	if (ctxKind == "timeout" || ctxKind == "own child") && ctx.Err() != nil {
		at.CompareAndSwap(0, returnedAt)
	}
	if !c.race {
		pp.returned.Store(true)
	}
	hasWon := won.Load()
	switch err := pp.p.Err(); {
	case how == "SetErr" && hasWon && err != errPlanned:
		c.Fail("%s: Err is %v after SetErr returned true", pp.what, err)
	case how != "SetErr" && err != nil:
		c.Fail("%s: Err is %v", pp.what, err)
	}
	if !pp.errMode {
		for _, s := range pp.stages {
			for i := range s.recs {
				if s.recs[i].count > 1 {
					c.Fail("%s: stage %d gets batch %d %d times", pp.what, s.id, i, s.recs[i].count)
					break
				}
			}
		}
	}
	// RunWithContext leaves it to its caller to cancel
	cancel()
	cancelParent()
	outside.Wait()
	pp.src.close()
	if left := libraryGoroutines(c); len(left) > 0 {
		c.Fail("%s: goroutines never end after Run returned and the context was cancelled: %s", pp.what, clip(left[0].text))
	}
	stopped := at.Load()
	if pp.errMode {
		for _, s := range pp.stages {
			for i := range s.recs {
				if n := s.recs[i].acount.Load(); n > 1 {
					c.Fail("%s: stage %d gets batch %d %d times", pp.what, s.id, i, n)
					break
				}
			}
		}
	}
	if k := pp.src.nfetch.Load(); k >= fetchLimit {
		c.Fail("%s: %d fetches from an endless source", pp.what, k)
	}
	if stopped > 0 {
		late := 0
		for _, f := range pp.src.fetches {
			if f.start > stopped {
				late++
			}
		}
		if late > 4 {
			c.Fail("%s: %d fetches after the pipeline was stopped", pp.what, late)
		}
		c.Max("fetches after the pipeline was stopped", late)
		c.Obs("stopped pipelines", 1)
		if stopped < returnedAt {
			c.Nontrivial(pp.desc, pp.style, pp.delays)
		}
	} else if endless {
		c.Fail("%s: ended although nothing stopped it", pp.what)
	}
}

// ------------------------------------------------------------------ L07

func runL07(c *ctx) {
	if c.i%20 == 19 {
		typedPipe(c, false, false)
		return
	}
	kind := pick(srcKinds, c.i)
	o := pipeOpts{srcs: []string{kind}, nodes: 1, maxN: 250, kinds: []string{"Par", "Seq", "Ord", "LPar"}, filters: []string{"t", "a", "u"}}
	if c.chance(4) {
		o.maxN = 30
	}
	pp := c.genPipe(o, func(pp *pipe) {
		if len(pp.spec[0].filters) == 0 {
			pp.spec[0].filters = []string{pick([]string{"t", "a", "u"}, c.IntN(3))}
		}
		if kind == "batches" || kind == "singleton" || kind == "chan" {
			return
		}
		if pp.src.known && c.chance(5) {
			pp.src.n = c.between(250, 3000)
			if kind == "string" {
				pp.src.n = 256
			}
		} else if !pp.src.known && c.chance(5) {
			pp.src.n = c.between(250, 5000)
		}
	})
	pp.maxSeq = max(pp.src.n, 0) + 3
	if (kind == "scanner" || kind == "bytes") && c.chance(2) {
		pp.spec[0].filters = []string{"t"}
	}
	pp.style = pick([]int{0, 0, 0, 1, 4}, c.IntN(5))
	// user code may do anything to a batch: keep the batches and look at them again afterwards
	var mu sync.Mutex
	type kept struct {
		seq  int
		data any
		want []int
	}
	var batches []kept
	scribble := pp.src.ints && c.chance(2)
	for _, f := range pp.spec[0].filters {
		scribble = scribble && f == "t" // or the receivers write there as well
	}
	pp.hook = func(s *stage, seq int, data any) {
		if s.id != 0 {
			return
		}
		mu.Lock()
		batches = append(batches, kept{seq, data, batchElems(data)})
		if scribble && len(batches) > 1 {
			// append to an earlier batch
			b := batches[(len(batches)-1)/2].data
			if d, ok := b.([]int); ok {
				_ = append(d, -9, -9, -9, -9)
			}
		}
		mu.Unlock()
	}
	pp.assemble()
	pp.run()
	b := pp.batches()
	recs := pp.stages[0].recs
	var all []int
	sizes := make([]int, b)
	for i := 0; i < b; i++ {
		if recs[i].count != 1 {
			c.Fail("%s: batch %d of %d is delivered %d times", pp.what, i, b, recs[i].count)
		}
		all = append(all, recs[i].in...)
		sizes[i] = len(recs[i].in)
		if sizes[i] == 0 {
			c.Fail("%s: batch %d of %d is empty", pp.what, i, b)
		}
	}
	if want := pp.content(); kind == "string" {
		for i := range want {
			want[i] &= 255
		}
		if !equalInts(all, want) {
			c.Fail("%s: the batches contain %v", pp.what, clip(fmt.Sprint(all)))
		}
	} else if !equalInts(all, want) {
		c.Fail("%s: the batches contain %v instead of 0..%d", pp.what, clip(fmt.Sprint(all)), pp.src.n-1)
	}
	s := pp.src
	procs := runtime.GOMAXPROCS(0)
	asked := sizes
	if len(s.fetches) > 0 {
		asked = nil
		for _, f := range s.fetches {
			asked = append(asked, f.size)
		}
	}
	switch {
	case s.kind == "singleton":
		for i, n := range sizes {
			if n != 1 {
				c.Fail("%s: batch %d has %d elements", pp.what, i, n)
			}
		}
	case s.kind == "batches":
	case s.known:
		nb := s.nb
		if nb == 0 {
			nb = 2 * procs
		}
		if got := pp.p.NofBatches(0); got != nb {
			c.Fail("%s: NofBatches(0) is %d instead of %d", pp.what, got, nb)
		}
		if len(s.fetches) == 0 && b > nb {
			c.Fail("%s: %d batches, at most %d were asked for (%v)", pp.what, b, nb, sizes)
		}
		for i := range asked {
			if i > 0 && asked[i] != asked[0] && !(i == len(asked)-1 && asked[i] <= asked[0] && len(s.fetches) == 0) {
				c.Fail("%s: the sizes of the batches are %v", pp.what, clip(fmt.Sprint(asked)))
				break
			}
			if len(s.fetches) > 0 && satMul(asked[i]-1, nb) >= max(s.n, 1) {
				c.Fail("%s: fetches of %d elements for %d batches", pp.what, asked[i], nb)
				break
			}
			if len(s.fetches) > 0 && satMul(asked[i], nb) < s.n {
				c.Fail("%s: fetches of %d elements make more than %d batches", pp.what, asked[i], nb)
				break
			}
		}
	default:
		inc, mx := s.inc, s.max
		if inc < 1 {
			inc = 1024
		}
		if mx < 1 {
			mx = 0x2000000
		}
		for i, n := range asked {
			lim := min(satMul(inc, i+1), mx)
			last := i == len(asked)-1 && len(s.fetches) == 0
			if n > lim || n < lim && !last {
				c.Fail("%s: the sizes of the batches are %v, not %d growing by %d up to %d", pp.what, clip(fmt.Sprint(asked)), min(inc, mx), inc, mx)
				break
			}
		}
	}
	// batches are independent of each other and of the input
	if pp.stages[0].act != "mutate" && len(pp.stages) == 1 {
		for _, k := range batches {
			if got := batchElems(k.data); !equalInts(got, k.want) {
				c.Fail("%s: batch %d was %v and has become %v", pp.what, k.seq, clip(fmt.Sprint(k.want)), clip(fmt.Sprint(got)))
				break
			}
		}
	}
	if s.kind == "named" && b > 0 {
		if _, ok := batches[0].data.(namedInts); !ok {
			c.Fail("%s: the batches of a named slice type have type %T", pp.what, batches[0].data)
		}
	}
	pp.finish()
	c.Obs("batches", b)
	c.Obs("elements", len(all))
	c.Obs("sources of kind "+kind, 1)
	if b != 1 {
		c.Nontrivial(pp.desc, scribble)
	}
}

// ------------------------------------------------------------------ L08

type quantRun struct {
	kind     string
	cancel   bool
	result   bool
	table    []bool
	nilValue bool
	yes, no  atomic.Int64
	node     int
}

func quantify(kind string, yes, no int64) bool {
	switch kind {
	case "Every":
		return no == 0
	case "NotEvery":
		return no > 0
	case "Some":
		return yes > 0
	default: // NotAny
		return yes == 0
	}
}

func runL08(c *ctx) {
	pp := c.genPipe(pipeOpts{srcs: []string{"slice", "chan", "func", "funcN", "custom", "batches"}, nodes: 4, neutral: true}, nil)
	pp.what = pp.desc
	n := max(pp.src.n, 1)
	cancels := c.chance(2)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var qs []*quantRun
	pp.assemble()
	nq := c.between(1, 3)
	kinds := []string{}
	for k := 0; k < nq; k++ {
		q := &quantRun{kind: pick([]string{"Every", "NotEvery", "Some", "NotAny"}, c.IntN(4)), table: make([]bool, n+1), nilValue: c.chance(2)}
		q.cancel = cancels && (k == 0 || c.chance(3))
		p := pick([]int{2, 4, 16, 1000}, c.IntN(4))
		neg := c.chance(2)
		for i := range q.table {
			q.table[i] = c.chance(p) != neg
		}
		q.result = c.chance(2)
		pred := func(data any) bool {
			var b bool
			switch e := batchElems(data); {
			case len(e) == 0:
				b = q.nilValue
			default:
				b = q.table[e[0]&(1<<20-1)%len(q.table)]
			}
			if b {
				q.yes.Add(1)
			} else {
				q.no.Add(1)
			}
			return b
		}
		var f pipeline.Filter
		switch q.kind {
		case "Every":
			f = pipeline.Every(&q.result, q.cancel, pred)
		case "NotEvery":
			f = pipeline.NotEvery(&q.result, q.cancel, pred)
		case "Some":
			f = pipeline.Some(&q.result, q.cancel, pred)
		case "NotAny":
			f = pipeline.NotAny(&q.result, q.cancel, pred)
		}
		// a receiver behind it in the same node sees whether it has cancelled
		after := func(_ int, data any) any {
			if q.cancel && quantify(q.kind, q.yes.Load(), q.no.Load()) != quantify(q.kind, 0, 0) && pp.p.Context().Err() == nil {
				// another batch may have been decided a moment ago: this one counts if it decides itself
				e := batchElems(data)
				b := q.nilValue
				if len(e) > 0 {
					b = q.table[e[0]&(1<<20-1)%len(q.table)]
				}
				if decides := b == (q.kind == "Some" || q.kind == "NotAny"); decides {
					c.Fail("%s: a batch decides %s and the pipeline is not cancelled", pp.what, q.kind)
				}
			}
			return data
		}
		node := pick([]string{"Par", "LPar", "Seq", "Ord", "Strict"}, c.IntN(5))
		kinds = append(kinds, fmt.Sprintf("%s in %s, cancel %v", q.kind, node, q.cancel))
		fs := []pipeline.Filter{f, pipeline.Receive(after)}
		switch node {
		case "Par":
			pp.p.Add(pipeline.Par(fs...))
		case "LPar":
			pp.p.Add(pipeline.LimitedPar(c.between(0, 4), fs...))
		case "Seq":
			pp.p.Add(pipeline.Seq(fs...))
		case "Ord":
			pp.p.Add(pipeline.Ord(fs...))
		case "Strict":
			pp.p.Add(pipeline.StrictOrd(fs...))
		}
		qs = append(qs, q)
	}
	pp.what = pp.desc + " + " + strings.Join(kinds, ", ")
	c.Describe("%s", pp.what)
	c.Hang("%s", pp.what+": Run never returns")
	pp.p.RunWithContext(ctx, cancel)
	wasCancelled := ctx.Err() != nil
	cancel()
	b := pp.batches()
	decided := false
	for k, q := range qs {
		yes, no := q.yes.Load(), q.no.Load()
		want := quantify(q.kind, yes, no)
		if q.result != want {
			c.Fail("%s: the result of %s is %v after %d true and %d false predicates", pp.what, kinds[k], q.result, yes, no)
		}
		if q.cancel && want != quantify(q.kind, 0, 0) {
			decided = true
			if !wasCancelled {
				c.Fail("%s: %s is known but the pipeline is not cancelled", pp.what, kinds[k])
			}
		}
		c.Obs("predicates evaluated", int(yes+no))
	}
	if !decided {
		if wasCancelled {
			c.Fail("%s: the pipeline is cancelled although nothing that may cancel it was decided", pp.what)
		}
		for k, q := range qs {
			if n := int(q.yes.Load() + q.no.Load()); n != b {
				c.Fail("%s: the predicate of %s is called %d times for %d batches", pp.what, kinds[k], n, b)
			}
		}
	} else {
		c.Obs("runs cancelled by a decision", 1)
	}
	pp.finish()
	if b > 0 {
		c.Nontrivial(pp.what, pp.style, fmt.Sprint(qs[0].table))
	}
}

// ------------------------------------------------------------------ L09

func runL09(c *ctx) {
	if c.i%40 == 39 {
		badSlice(c)
		return
	}
	if c.i%20 == 9 {
		typedPipe(c, false, true)
		return
	}
	kinds := []string{"slice", "slice", "array", "chan", "func", "funcN", "custom", "customN", "batches", "scanner", "bytes", "named"}
	pp := c.genPipe(pipeOpts{srcs: kinds, nodes: 3, neutral: true, filters: []string{"t", "b", "f", "i", "n", "d", "e", "c"}}, nil)
	if !pp.src.ints {
		for _, sp := range pp.spec {
			for i, f := range sp.filters {
				if f == "d" || f == "e" {
					sp.filters[i] = "t"
				}
			}
		}
	}
	type sink struct {
		kind   string
		node   string
		typ    string
		before int
		ints   []int
		strs   []string
		bs     [][]byte
		named  namedInts
		count  int
		probe  *stage
	}
	var sinks []*sink
	nodes := append([]*nspec{}, pp.spec...)
	pp.spec = nil
	c.Hang("%s", pp.what+": Run never returns")
	// sinks are inserted between the generated nodes, each behind a receiver that
	// records what reaches it
	var build []func() pipeline.Node
	for _, sp := range nodes {
		pp.spec = append(pp.spec, sp)
		i := len(pp.spec) - 1
		build = append(build, func() pipeline.Node { return pp.node(i) })
		if c.chance(4) {
			pp.spec = append(pp.spec, &nspec{kind: pick([]string{"Limit", "Skip"}, c.IntN(2)), n: c.IntN(pp.src.n + 2)})
			pp.desc += " | " + pp.spec[i+1].String()
			build = append(build, func() pipeline.Node { return pp.node(i + 1) })
		}
		if sp != nodes[len(nodes)-1] && !c.chance(2) {
			continue
		}
		for k := c.between(1, 2); k > 0; k-- {
			s := &sink{kind: pick([]string{"Slice", "Count"}, c.IntN(2)), node: pick([]string{"Par", "LPar", "Seq", "Ord", "Strict"}, c.IntN(5)), before: c.IntN(4)}
			s.typ = map[string]string{"scanner": "strs", "bytes": "bytes", "named": "named"}[pp.src.kind]
			sinks = append(sinks, s)
			ns := &nspec{kind: s.node, limit: c.between(0, 3)}
			probe := c.chance(2)
			scribbles := c.chance(2)
			pp.spec = append(pp.spec, ns)
			j := len(pp.spec) - 1
			limit := ns.limit
			build = append(build, func() pipeline.Node {
				var f pipeline.Filter
				for x := 0; x < s.before; x++ {
					s.ints = append(s.ints, -1-x)
					s.strs = append(s.strs, strconv.Itoa(-1-x))
					s.bs = append(s.bs, []byte(strconv.Itoa(-1-x)))
					s.named = append(s.named, -1-x)
				}
				s.count = 77 * s.before
				switch {
				case s.kind == "Count":
					f = pipeline.Count(&s.count)
				case s.typ == "strs":
					f = pipeline.Slice(&s.strs)
				case s.typ == "bytes":
					f = pipeline.Slice(&s.bs)
				case s.typ == "named":
					f = pipeline.Slice(&s.named)
				default:
					f = pipeline.Slice(&s.ints)
				}
				fs := []pipeline.Filter{f}
				if probe || s.probe == nil {
					fs = []pipeline.Filter{pp.filter(j, "t"), f}
					s.probe = pp.stages[len(pp.stages)-1]
				}
				if scribbles {
					fs = append(fs, pipeline.Receive(scribble))
				}
				switch s.node {
				case "Par":
					return pipeline.Par(fs...)
				case "LPar":
					return pipeline.LimitedPar(limit, fs...)
				case "Seq":
					return pipeline.Seq(fs...)
				case "Ord":
					return pipeline.Ord(fs...)
				}
				return pipeline.StrictOrd(fs...)
			})
			pp.desc += fmt.Sprintf(" | %s in %s", s.kind, s.node)
		}
	}
	pp.what = pp.desc
	pp.src.build(c, pp.p)
	for _, b := range build {
		pp.p.Add(b())
	}
	c.Describe("%s", pp.desc)
	c.Hang("%s", pp.what+": Run never returns")
	pp.run()
	b := pp.batches()
	for _, s := range sinks {
		var batches [][]int
		total := 0
		for i := 0; i < b; i++ {
			batches = append(batches, s.probe.recs[i].out)
			total += len(s.probe.recs[i].out)
		}
		if s.kind == "Count" {
			if s.count != total {
				c.Fail("%s: Count in %s (announced size %d) is %d instead of %d", pp.what, s.node, s.probe.size, s.count, total)
			}
			c.Obs("elements counted", total)
			continue
		}
		var got []int
		switch s.typ {
		case "strs":
			got = batchElems(s.strs)
		case "bytes":
			got = batchElems(s.bs)
		case "named":
			got = batchElems(s.named)
		default:
			got = s.ints
		}
		for x := 0; x < s.before; x++ {
			if x >= len(got) || got[x] != -1-x {
				c.Fail("%s: Slice in %s changes what the result contained before: %v", pp.what, s.node, clip(fmt.Sprint(got)))
				return
			}
		}
		got = got[s.before:]
		if s.node == "Ord" || s.node == "Strict" {
			var want []int
			for _, x := range batches {
				want = append(want, x...)
			}
			if !equalInts(got, want) {
				c.Fail("%s: Slice in %s yields %v instead of %v", pp.what, s.node, clip(fmt.Sprint(got)), clip(fmt.Sprint(want)))
			}
		} else if msg := wholeBatches(got, batches); msg != "" {
			c.Fail("%s: Slice in %s yields %v: %s", pp.what, s.node, clip(fmt.Sprint(got)), msg)
		}
		c.Obs("elements collected", total)
	}
	pp.finish()
	pp.observe()
}

// scribble passes a batch on as a copy, and reuses its memory.
func scribble(_ int, data any) any {
	switch d := data.(type) {
	case []int:
		r := slices.Clone(d)
		for i := range d {
			d[i] = -1000000 - i
		}
		return r
	case namedInts:
		r := slices.Clone(d)
		for i := range d {
			d[i] = -1000000 - i
		}
		return r
	case []string:
		r := slices.Clone(d)
		for i := range d {
			d[i] = "-1000000"
		}
		return r
	case [][]byte:
		r := slices.Clone(d)
		clear(d)
		return r
	}
	return data
}

// wholeBatches checks that got consists of all the batches, each in one piece.
func wholeBatches(got []int, batches [][]int) string {
	byFirst := map[int][]int{}
	total := 0
	for _, b := range batches {
		if len(b) > 0 {
			byFirst[b[0]] = b
			total += len(b)
		}
	}
	if len(got) != total {
		return fmt.Sprintf("%d elements instead of %d", len(got), total)
	}
	for i := 0; i < len(got); {
		b := byFirst[got[i]]
		if len(b) == 0 || i+len(b) > len(got) || !equalInts(got[i:i+len(b)], b) {
			return fmt.Sprintf("no whole batch at position %d", i)
		}
		delete(byFirst, got[i])
		i += len(b)
	}
	return ""
}

// badSlice: results that are no slices are reported as an error.
func badSlice(c *ctx) {
	var p pipeline.Pipeline
	p.Source([]int{1, 2, 3, 4})
	n, s := 0, "x"
	var target any = &n
	if c.chance(2) {
		target = &s
	}
	node := pick([]string{"Par", "Seq", "Ord"}, c.IntN(3))
	f := pipeline.Slice(target)
	seen := 0
	switch node {
	case "Par":
		p.Add(pipeline.Par(f))
	case "Seq":
		p.Add(pipeline.Seq(f))
	default:
		p.Add(pipeline.Ord(f, pipeline.Receive(func(_ int, d any) any { seen++; return d })))
	}
	c.Describe("Slice with a %T in %s", target, node)
	p.Run()
	if p.Err() == nil {
		c.Fail("Slice with a result of type %T in %s: no error", target, node)
	}
	libraryGoroutines(c)
	c.Obs("Slice filters with an unsuitable result", 1)
}

// ------------------------------------------------------------------ L10, L11

// runLimits runs pipelines with several Limit and Skip nodes and compares what
// each receiver sees with a model of the stream.
func runLimits(c *ctx, sizes bool) {
	if c.i%20 == 9 {
		typedPipe(c, true, c.chance(2))
		return
	}
	kinds := []string{"slice", "slice", "array", "string", "chan", "func", "funcN", "custom", "customN", "batches", "scanner", "bytes", "named"}
	pp := c.genPipe(pipeOpts{srcs: kinds, nodes: 3, filters: []string{"t", "b", "f", "i", "n", "c", "d"}, neutral: c.chance(3), maxN: 40}, nil)
	n := pp.src.n
	var spec []*nspec
	nlim := 0
	limit := func() *nspec {
		nlim++
		sp := &nspec{kind: pick([]string{"Limit", "Skip"}, c.IntN(2))}
		switch c.IntN(7) {
		case 6:
			// more than there can be, and what is left of it in fewer bits
			sp.n = pick([]int{math.MaxInt, math.MaxInt - c.IntN(n+1), 1<<32 + c.IntN(n+1), 1<<31 + c.IntN(n+1), 1<<16 + c.IntN(n+1)}, c.IntN(5))
		case 0:
			sp.n = 0
		case 1:
			sp.n = n + c.between(-1, 1)
		case 2:
			sp.n = 3*n + 5
		case 3:
			sp.n = -1
		default:
			sp.n = c.IntN(n + 1)
		}
		if sp.n < 0 && sp.kind == "Skip" && !c.chance(6) {
			sp.n = c.IntN(n + 2)
		}
		return sp
	}
	cancelled := false
	for _, sp := range pp.spec {
		if pp.src.kind == "string" {
			for i, f := range sp.filters {
				if f == "c" {
					sp.filters[i] = "t"
				}
			}
		}
		for k := c.IntN(3); k > 0; k-- {
			spec = append(spec, limit())
		}
		spec = append(spec, sp)
	}
	for k := c.IntN(2); k > 0; k-- {
		spec = append(spec, limit())
	}
	if nlim == 0 {
		spec = append([]*nspec{limit()}, spec...)
	}
	spec = append(spec, &nspec{kind: pick([]string{"Par", "Seq", "Ord", "Strict"}, c.IntN(4)), filters: []string{"t"}})
	if !pp.src.ints {
		for _, sp := range spec {
			for i, f := range sp.filters {
				if f == "d" {
					sp.filters[i] = "t"
				}
			}
		}
	}
	cancelIdx := -1
	if !sizes && c.chance(3) {
		for i, sp := range spec {
			if sp.kind == "Limit" && sp.n >= 0 && c.chance(2) {
				sp.cancel = true
				cancelled = true
				cancelIdx = i
				break
			}
		}
	}
	negSkip := false
	for _, sp := range spec {
		negSkip = negSkip || sp.kind == "Skip" && sp.n < 0
	}
	pp.spec = spec
	pp.desc = fmt.Sprintf("%s of %d elements (NofBatches %d, variable %d %d)", pp.src.kind, n, pp.src.nb, pp.src.inc, pp.src.max)
	for _, sp := range spec {
		pp.desc += " " + sp.String()
	}
	pp.what = pp.desc
	pp.errMode = negSkip
	pp.assemble()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	pp.p.RunWithContext(ctx, cancel)
	if !c.race {
		pp.returned.Store(true)
	}
	wasCancelled := ctx.Err() != nil
	cancel()
	if negSkip {
		if pp.p.Err() == nil {
			c.Fail("%s: no error after Skip with a negative number", pp.what)
		}
		libraryGoroutines(c)
		for _, s := range pp.stages {
			after := false
			for _, sp := range spec[:s.node] {
				after = after || sp.kind == "Skip" && sp.n < 0
			}
			for i := range s.recs {
				if after && s.recs[i].acount.Load() > 0 && !c.race && len(s.recs[i].in) > 0 {
					c.Fail("%s: elements get past Skip with a negative number", pp.what)
				}
			}
		}
		pp.src.close()
		c.Obs("negative skips", 1)
		return
	}
	if pp.p.Err() != nil {
		c.Fail("%s: Err is %v", pp.what, pp.p.Err())
	}
	// the model
	stream := pp.content()
	reached := false // the cancelling Limit has seen enough
	k := 0
	checked := 0
	unknown := !pp.src.known
	for i, sp := range spec {
		switch sp.kind {
		case "Limit":
			if i == cancelIdx {
				reached = sp.n == 0 || len(stream) >= sp.n && (len(stream) > sp.n || unknown)
				if len(stream) >= sp.n && !reached {
					reached = wasCancelled // it may notice or not
				}
			}
			if sp.n >= 0 && sp.n < len(stream) {
				stream = stream[:sp.n]
			}
			if sp.n == 0 {
				unknown = false
			}
		case "Skip":
			if sp.n > 0 {
				stream = stream[min(sp.n, len(stream)):]
			}
		}
		for k < len(pp.stages) && pp.stages[k].node == i {
			s := pp.stages[k]
			k++
			var got []int
			for j := range s.recs {
				got = append(got, s.recs[j].in...)
			}
			checked++
			if sizes {
				if s.begun == 1 && s.size != -99 {
					switch {
					case s.size >= 0 && s.size != len(got):
						c.Fail("%s: stage %d was told to expect %d elements and gets %d", pp.what, s.id, s.size, len(got))
					case s.size < 0 && !unknown:
						c.Fail("%s: stage %d was told size %d although it is known", pp.what, s.id, s.size)
					}
					if s.size >= 0 {
						c.Obs("announced sizes compared", 1)
					}
				}
			} else if !cancelled {
				if !equalInts(got, stream) {
					c.Fail("%s: stage %d (node %d) sees %v instead of %v", pp.what, s.id, s.node, clip(fmt.Sprint(got)), clip(fmt.Sprint(stream)))
				}
			} else {
				// a part of it
				at := 0
				for _, x := range got {
					for at < len(stream) && stream[at] != x {
						at++
					}
					if at == len(stream) {
						c.Fail("%s: stage %d (node %d) sees %v, more than %v", pp.what, s.id, s.node, clip(fmt.Sprint(got)), clip(fmt.Sprint(stream)))
						break
					}
					at++
				}
			}
			if changesSize(s.act) {
				var kept []int
				for _, x := range stream {
					if x%3 != 0 {
						kept = append(kept, x)
					}
				}
				stream = kept
				unknown = true
			}
		}
	}
	if cancelled && wasCancelled != reached {
		c.Fail("%s: cancelled is %v, but the limit was reached: %v", pp.what, wasCancelled, reached)
	}
	if !cancelled && wasCancelled {
		c.Fail("%s: the pipeline is cancelled", pp.what)
	}
	pp.finish()
	c.Obs("receivers compared with the model", checked)
	c.Obs("Limit and Skip nodes", nlim)
	if cancelled && wasCancelled {
		c.Obs("runs cancelled by a limit", 1)
	}
	if n > 0 {
		c.Nontrivial(pp.desc, pp.style)
	}
}

func runL10(c *ctx) { runLimits(c, false) }
func runL11(c *ctx) { runLimits(c, true) }

// ------------------------------------------------------------------ L12

type numberedError int

func (e numberedError) Error() string { return fmt.Sprintf("error %d", int(e)) }

func runL12(c *ctx) {
	srcErr := c.chance(3)
	srcs := srcKinds
	if srcErr {
		srcs = []string{"func", "funcN", "custom", "customN", "toolong"}
	}
	tooLong := false
	kind := pick(srcs, c.IntN(len(srcs)))
	if kind == "toolong" {
		tooLong = true
		kind = pick([]string{"scanner", "bytes"}, c.IntN(2))
	}
	pp := c.genPipe(pipeOpts{srcs: []string{kind}, nodes: 4}, nil)
	pp.errMode = true
	pp.src.err = numberedError(1000)
	if srcErr && !tooLong {
		pp.src.failAt = c.IntN(6)
		pp.src.failGot = c.chance(2)
	}
	// who calls SetErr: receivers at some batches, finalizers, filters, outside goroutines
	nset := c.IntN(5)
	if !srcErr && nset == 0 {
		nset = 1
	}
	type setter struct {
		stage, seq int
		wait       delay
		outside    bool
		inFilter   bool
	}
	setters := make([]setter, nset)
	for i := range setters {
		setters[i] = setter{c.IntN(8), c.IntN(5), c.delay(false), c.chance(3), c.chance(8)}
	}
	npoll := c.IntN(3)
	inFinal := c.chance(5)
	pp.spec = append([]*nspec{{kind: pick([]string{"Par", "Seq", "Ord", "LPar"}, c.IntN(4)), filters: []string{"t"}}}, pp.spec...)
	pp.desc += fmt.Sprintf(" %d setters %v, source error %v at %d, too long %v", nset, setters, srcErr, pp.src.failAt, tooLong)
	pp.what = pp.desc
	// a run may be cancelled without an error as well
	cancelAt := -1
	if c.chance(3) {
		cancelAt = c.IntN(6)
		pp.desc += fmt.Sprintf(", cancelled at %d", cancelAt)
		pp.what = pp.desc
		if srcErr && c.chance(2) {
			// during the fetch
			k0 := cancelAt
			if c.chance(2) {
				k0 = pp.src.failAt
			}
			pp.src.onFetch = func(k int) {
				if k == k0 {
					pp.p.Cancel()
				}
			}
			cancelAt = 1 << 30
		}
	}
	var calls, wins atomic.Int64
	var winner atomic.Int64
	winner.Store(-1)
	var reads atomic.Int64
	set := func(i int) {
		calls.Add(1)
		if pp.p.SetErr(numberedError(i)) {
			wins.Add(1)
			winner.Store(int64(i))
			if pp.p.Context().Err() == nil {
				c.Fail("%s: SetErr returned true and the context is not cancelled", pp.what)
			}
			if err := pp.p.Err(); err != numberedError(i) {
				c.Fail("%s: SetErr(%d) returned true and Err is %v", pp.what, i, err)
			}
		} else if pp.p.Err() == nil {
			c.Fail("%s: SetErr returned false and Err is nil", pp.what)
		}
	}
	pp.hook = func(s *stage, seq int, data any) {
		if seq == cancelAt && s.id == cancelAt%len(pp.stages) {
			pp.p.Cancel()
		}
		for i := range setters {
			if st := &setters[i]; !st.outside && !st.inFilter && s.id == st.stage%len(pp.stages) && seq == st.seq {
				set(i)
			}
		}
	}
	var outside sync.WaitGroup
	quit := make(chan struct{})
	// Nothing but SetErr cancels the run: whoever sees it cancelled finds an error.
	watch := c.chance(2) && cancelAt < 0
	for _, sp := range pp.spec {
		watch = watch && !((sp.kind == "Limit" || sp.kind == "Skip") && sp.cancel)
	}
	watchers := func(ctx context.Context) {
		if c.chance(2) {
			outside.Add(1)
			go func() {
				defer outside.Done()
				select {
				case <-ctx.Done():
					if pp.p.Err() == nil {
						c.Fail("%s: the context is cancelled and Err is nil", pp.what)
					}
				case <-quit:
				}
			}()
			return
		}
		outside.Add(1)
		go func() {
			defer outside.Done()
			for k := 0; ; k++ {
				if ctx.Err() != nil {
					if pp.p.Err() == nil {
						c.Fail("%s: the context is cancelled and Err is nil", pp.what)
					}
					return
				}
				select {
				case <-quit:
					return
				default:
					if k > 1000 {
						time.Sleep(20 * time.Microsecond)
					} else {
						runtime.Gosched()
					}
				}
			}
		}()
	}
	first := true
	pp.onBegin = func(s *stage) {
		for i := range setters {
			if st := &setters[i]; st.inFilter && s.id == st.stage%len(pp.stages) {
				set(i)
			}
		}
		if !first {
			return
		}
		first = false
		for i := range setters {
			if st := &setters[i]; st.outside && !st.inFilter {
				outside.Add(1)
				go func() {
					defer outside.Done()
					st.wait.spend()
					set(i)
				}()
			}
		}
		for k := 0; k < npoll; k++ {
			outside.Add(1)
			go func() {
				defer outside.Done()
				var seen error
				for {
					err := pp.p.Err()
					reads.Add(1)
					if seen != nil && err != seen {
						c.Fail("%s: Err changes from %v to %v", pp.what, seen, err)
					}
					seen = err
					select {
					case <-quit:
						return
					default:
						runtime.Gosched()
					}
				}
			}()
		}
	}
	if inFinal {
		node := pick([]string{"Par", "Seq"}, c.IntN(2))
		f := pipeline.Finalize(func() { set(500) })
		pp.assemble()
		if node == "Par" {
			pp.p.Add(pipeline.Par(f))
		} else {
			pp.p.Add(pipeline.Seq(f))
		}
		pp.desc += " and a finalizer"
		pp.what = pp.desc
	} else {
		pp.assemble()
	}
	var scanErr func() error
	if tooLong {
		text := strings.Repeat("1\n", pp.src.n) + strings.Repeat("9", 100) + "\n1\n"
		if kind == "scanner" {
			sc := pipeline.NewScanner(strings.NewReader(text))
			sc.Buffer(make([]byte, 0, 8), 32)
			scanErr = sc.Err
			pp.p.Source(sc)
		} else {
			sc := pipeline.NewBytesScanner(strings.NewReader(text))
			sc.Buffer(make([]byte, 0, 8), 32)
			scanErr = sc.Err
			pp.p.Source(sc)
		}
		pp.maxSeq += 2
	}
	cancelLater := func() {}
	if watch {
		ctx, cancel := context.WithCancel(context.Background())
		watchers(ctx)
		slow := c.delay(false)
		pp.p.RunWithContext(ctx, func() {
			cancel()
			slow.spend() // the cancellation is seen elsewhere before this returns
		})
		cancelLater = cancel
		c.Obs("runs whose cancellation is observed", 1)
	} else {
		pp.p.Run()
	}
	// SetErr may be called at the very end as well
	err1 := pp.p.Err()
	outside2 := make(chan struct{})
	go func() { outside.Wait(); close(outside2) }()
	close(quit)
	<-outside2
	cancelLater()
	err2 := pp.p.Err()
	pp.src.close()
	if left := libraryGoroutines(c); len(left) > 0 {
		c.Fail("%s: goroutines never end: %s", pp.what, clip(left[0].text))
	}
	err := pp.p.Err()
	if err1 != nil && (err1 != err2 || err2 != err) {
		c.Fail("%s: Err changes from %v to %v and %v after Run returned", pp.what, err1, err2, err)
	}
	w := wins.Load()
	failed := pp.src.failed.Load() || tooLong && (cancelAt < 0 && w == 0 || scanErr() != nil)
	switch {
	case w > 1:
		c.Fail("%s: SetErr returned true %d times", pp.what, w)
	case w == 1:
		if err != numberedError(winner.Load()) {
			c.Fail("%s: SetErr(%d) returned true and Err is %v", pp.what, winner.Load(), err)
		}
	case failed && tooLong:
		if err != bufio.ErrTooLong {
			c.Fail("%s: the source failed and Err is %v", pp.what, err)
		}
	case failed:
		if err != pp.src.err {
			c.Fail("%s: the source failed and Err is %v", pp.what, err)
		}
	case calls.Load() > 0:
		c.Fail("%s: SetErr was called %d times and never returned true; Err is %v", pp.what, calls.Load(), err)
	case err != nil:
		c.Fail("%s: nothing failed and Err is %v", pp.what, err)
	}
	c.Obs("calls of SetErr", int(calls.Load()))
	c.Obs("calls of Err by other goroutines during runs", int(reads.Load()))
	if failed {
		if cancelAt >= 0 {
			c.Obs("source errors in cancelled runs", 1)
		}
		c.Obs("source errors", 1)
	}
	if calls.Load() > 1 {
		c.Obs("runs in which several SetErr calls competed", 1)
	}
	if calls.Load() > 0 || failed {
		c.Nontrivial(pp.desc, pp.style, npoll)
	}
}

// ------------------------------------------------------------------ L13

func runL13(c *ctx) {
	pp := c.genPipe(pipeOpts{srcs: []string{"custom", "customN"}, neutral: true, kinds: []string{"Par", "LPar", "Seq", "Ord", "Strict", "Custom", "Custom", "Custom"}}, func(pp *pipe) {
		at := c.IntN(len(pp.spec) + 1)
		sp := &nspec{kind: "Custom", mode: c.IntN(4), merges: c.chance(2)}
		pp.spec = append(pp.spec[:at:at], append([]*nspec{sp}, pp.spec[at:]...)...)
	})
	pp.assemble()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	pp.p.RunWithContext(ctx, cancel)
	if !c.race {
		pp.returned.Store(true)
	}
	if pp.src.ctx != ctx {
		c.Fail("%s: the source was prepared with another context", pp.what)
	}
	for _, m := range pp.src.protocol {
		c.Fail("%s: source: %s", pp.what, m)
	}
	if pp.src.pending {
		c.Fail("%s: the data of the last fetch was not read", pp.what)
	}
	if pp.src.prepared != 1 {
		c.Fail("%s: the source was prepared %d times", pp.what, pp.src.prepared)
	}
	if len(pp.src.fetches) == 0 || !pp.src.ended {
		c.Fail("%s: the source was not read to its end", pp.what)
	}
	b := 0
	for _, f := range pp.src.fetches {
		if f.got > 0 {
			b++
		}
	}
	customs := 0
	for k, s := range pp.stages {
		n := s.custom
		if n == nil {
			continue
		}
		customs++
		if n.merged {
			if n.ends != 0 {
				c.Fail("%s: End of the user-defined node %d, which was taken over", pp.what, s.node)
			}
			c.Obs("user-defined nodes taken over", 1)
		} else if n.begins != 1 || n.ends != 1 {
			c.Fail("%s: the user-defined node %d gets Begin %d times and End %d times", pp.what, s.node, n.begins, n.ends)
		}
		for i := range s.recs {
			want := 0
			if i < b {
				want = 1
			}
			if s.recs[i].count != want {
				c.Fail("%s: the user-defined node %d is fed batch %d of %d %d times", pp.what, s.node, i, b, s.recs[i].count)
				break
			}
			// its output reaches the next node
			if want == 1 && k+1 < len(pp.stages) {
				nx := pp.stages[k+1]
				if nx.recs[i].count != 1 || !equalInts(nx.recs[i].in, s.recs[i].out) {
					c.Fail("%s: batch %d forwarded by the user-defined node %d arrives %d times at stage %d as %v instead of %v", pp.what, i, s.node, nx.recs[i].count, nx.id, clip(fmt.Sprint(nx.recs[i].in)), clip(fmt.Sprint(s.recs[i].out)))
					break
				}
			}
		}
	}
	cancel()
	pp.finish()
	c.Obs("user-defined nodes", customs)
	c.Obs("fetches", len(pp.src.fetches))
	pp.observe()
}
