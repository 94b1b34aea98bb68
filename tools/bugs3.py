"""Planted bugs: pipelines and everything together."""
from plant import B
PIPE, SRC, FLT, FILT = "pipeline/pipeline.go", "pipeline/source.go", "pipeline/filters.go", "pipeline/filter.go"
SEQN, PARN, LPARN, STRN = "pipeline/seqnode.go", "pipeline/parnode.go", "pipeline/lparnode.go", "pipeline/strictordnode.go"

def demo(body, imports=(), decls=""):
    imports = ["github.com/exascience/pargo/pipeline"] + list(imports)
    return "package main\n\nimport (\n" + "".join('\t%s\n' % (i if '"' in i else '"%s"' % i) for i in sorted(imports)) + ")\n\nfunc main() {\n" + body + "}\n" + decls

INTS = '''
func ints(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	return s
}
'''

B("l01-nil-batch", "L01", [(FILT, "func feed(", "	for _, receive := range receivers {\n		data = receive(seqNo, data)\n	}\n", "	for _, receive := range receivers {\n		if data == nil {\n			break\n		}\n		data = receive(seqNo, data)\n	}\n")],
  "a receiver that returns nil for a batch and that is followed by another one in the same node", "later receivers of the node do not see all sequence numbers",
  demo('''	seen := 0
	var p pipeline.Pipeline
	p.Source(ints(100))
	p.NofBatches(10)
	p.Add(pipeline.Seq(
		pipeline.Receive(func(n int, data interface{}) interface{} {
			if n%2 == 1 {
				return nil
			}
			return data
		}),
		pipeline.Receive(func(n int, data interface{}) interface{} { seen++; return data }),
	))
	p.Run()
	if seen != 10 {
		fail("%d of 10 batches", seen)
	}
''', (), INTS))

B("l01-drop-next", "L01", [(PIPE, "func (p *Pipeline) RunWithContext(", "			p.nodes = append(p.nodes[:index], p.nodes[index+1:]...)\n		}\n", "			p.nodes = append(p.nodes[:index], p.nodes[index+1:]...)\n			if index > 1 && index == len(p.nodes)-1 {\n				p.nodes = p.nodes[:index]\n			}\n		}\n")],
  "at least four nodes, of which the last but one has neither receivers nor finalizers", "the last node is dropped together with the empty one before it",
  demo('''	count := 0
	pass := pipeline.Receive(func(_ int, data interface{}) interface{} { return data })
	var p pipeline.Pipeline
	p.Source(ints(100))
	p.Add(
		pipeline.Par(pass),
		pipeline.Seq(pass),
		pipeline.LimitedPar(2, pipeline.Identity),
		pipeline.StrictOrd(pipeline.Receive(func(_ int, data interface{}) interface{} { count += len(data.([]int)); return data })),
	)
	p.Run()
	if count != 100 {
		fail("the last node got %d of 100 elements", count)
	}
''', (), INTS))

B("l02-merge-kind", "L02", [(SEQN, "func (node *seqnode) TryMerge(", "		if nxt.kind == Ordered {\n", "		if nxt.kind == Ordered && len(nxt.filters) > 1 {\n")],
  "a Seq node directly before an Ord node with one filter, behind a parallel node that reorders batches", "the merged node is not ordered",
  demo('''	var got []int
	var p pipeline.Pipeline
	p.Source(ints(1000))
	p.NofBatches(50)
	p.Add(
		pipeline.Par(pipeline.Receive(func(n int, data interface{}) interface{} {
			time.Sleep(time.Duration(50-n) * time.Millisecond)
			return data
		})),
		pipeline.Seq(pipeline.Receive(func(_ int, data interface{}) interface{} { return data })),
		pipeline.Ord(pipeline.Receive(func(n int, data interface{}) interface{} { got = append(got, n); return data })),
	)
	p.Run()
	for i, n := range got {
		if i != n {
			fail("%v", got)
		}
	}
''', ["time"], INTS))

B("l02-stash", "L02", [(SEQN, "func (node *seqnode) Begin(", "						case batch.seqNo < run:\n", "						case batch.seqNo == run+1 && len(stash) > 6:\n							delete(stash, run)\n							feed(p, node.receivers, batch.index, batch.seqNo, batch.data)\n							stash[batch.seqNo] = dataBatch{batch.index, batch.seqNo, nil}\n							delete(stash, batch.seqNo)\n							stash[-batch.seqNo] = batch\n						case batch.seqNo < run:\n")],
  "more than six batches waiting for an earlier one when the one after it arrives", "a batch overtakes its predecessor",
  demo('''	ok := within(func() {
		var got []int
		var p pipeline.Pipeline
		p.Source(ints(1000))
		p.NofBatches(20)
		p.Add(
			pipeline.Par(pipeline.Receive(func(n int, data interface{}) interface{} {
				time.Sleep(time.Duration(20-n) * 10 * time.Millisecond)
				return data
			})),
			pipeline.Ord(pipeline.Receive(func(n int, data interface{}) interface{} { got = append(got, n); return data })),
		)
		p.Run()
		for i, n := range got {
			if i != n {
				fail("%v", got)
			}
		}
		if len(got) != 20 {
			fail("%v", got)
		}
	})
	if !ok {
		fail("deadlock")
	}
''', ["time"], INTS))

B("l03-merge-limit", "L03", [(LPARN, "func (node *lparnode) TryMerge(", "merge && (nxt.limit == node.limit)", "merge && (nxt.limit <= node.limit)")],
  "two adjacent LimitedPar nodes, the second with the smaller limit", "receivers of the second node run more often than its limit at the same time",
  demo('''	var busy, max int32
	var p pipeline.Pipeline
	p.Source(ints(100))
	p.NofBatches(100)
	p.Add(
		pipeline.LimitedPar(8, pipeline.Receive(func(_ int, data interface{}) interface{} { return data })),
		pipeline.LimitedPar(2, pipeline.Receive(func(_ int, data interface{}) interface{} {
			if n := atomic.AddInt32(&busy, 1); n > 2 {
				atomic.StoreInt32(&max, n)
			}
			time.Sleep(time.Millisecond)
			atomic.AddInt32(&busy, -1)
			return data
		})),
	)
	p.Run()
	if max > 2 {
		fail("%d at the same time", max)
	}
''', ["sync/atomic", "time"], INTS))

B("l03-kind", "L03", [(LPARN, "func (node *lparnode) Begin(", "ComposeFilters(p, Parallel, dataSize, node.filters)", "ComposeFilters(p, map[bool]NodeKind{true: Sequential, false: Parallel}[node.ordered], dataSize, node.filters)")],
  "a LimitedPar node somewhere before a StrictOrd node", "filters are told that the node is sequential although its receivers run concurrently",
  demo('''	var kind pipeline.NodeKind
	var p pipeline.Pipeline
	p.Source(ints(100))
	p.Add(
		pipeline.LimitedPar(4, func(_ *pipeline.Pipeline, k pipeline.NodeKind, _ *int) (pipeline.Receiver, pipeline.Finalizer) {
			kind = k
			return func(_ int, data interface{}) interface{} { return data }, nil
		}),
		pipeline.StrictOrd(pipeline.Receive(func(_ int, data interface{}) interface{} { return data })),
	)
	p.Run()
	if kind != pipeline.Parallel {
		fail("kind %v", kind)
	}
''', (), INTS))

B("l04-cancel-skip", "L04", [(PIPE, "func (p *Pipeline) RunWithContext(", "	for _, node := range p.nodes {\n		node.End()\n	}\n", "	for index, node := range p.nodes {\n		if index > 0 && ctx.Err() != nil {\n			break\n		}\n		node.End()\n	}\n")],
  "a pipeline of at least two nodes that is cancelled", "the finalizers of later nodes are not called, and Run does not wait for their receivers",
  demo('''	done := 0
	f := pipeline.ReceiveAndFinalize(func(n int, data interface{}) interface{} {
		if n == 1 {
			time.Sleep(20 * time.Millisecond)
		}
		return data
	}, func() { done++ })
	var p pipeline.Pipeline
	p.Source(ints(100))
	p.NofBatches(10)
	p.Add(pipeline.Par(f), pipeline.Seq(pipeline.Receive(func(n int, data interface{}) interface{} { p.Cancel(); return data })), pipeline.LimitedPar(2, f))
	p.Run()
	if done != 2 {
		fail("%d of 2 finalizers were called", done)
	}
''', ["time"], INTS))

B("l04-merge-finalizers", "L04", [(STRN, "func (node *strictordnode) TryMerge(", "	case *strictordnode:\n		node.filters = append(node.filters, nxt.filters...)\n		node.receivers = append(node.receivers, nxt.receivers...)\n		node.finalizers = append(node.finalizers, nxt.finalizers...)\n", "	case *strictordnode:\n		node.filters = append(node.filters, nxt.filters...)\n		node.receivers = append(node.receivers, nxt.receivers...)\n		if len(nxt.receivers) == 0 {\n			node.finalizers = append(node.finalizers, nxt.finalizers...)\n		}\n")],
  "two StrictOrd nodes that become adjacent only when the pipeline starts (because a node between them has nothing to do)", "the finalizers of the second one are lost",
  demo('''	done := 0
	f := pipeline.ReceiveAndFinalize(func(_ int, data interface{}) interface{} { return data }, func() { done++ })
	var p pipeline.Pipeline
	p.Source(ints(100))
	p.Add(pipeline.StrictOrd(f), pipeline.Par(pipeline.Identity), pipeline.StrictOrd(f))
	p.Run()
	if done != 2 {
		fail("%d finalizers of 2", done)
	}
''', (), INTS))

B("l05-signal", "L05", [(STRN, "func (node *strictordnode) Begin(", "					node.cond.L.Unlock()\n					node.cond.Broadcast()\n					feed", "					node.cond.L.Unlock()\n					node.cond.Signal()\n					feed")],
  "at least two batches waiting in front of a StrictOrd node, the one that is not next being woken up", "the batch that is next is never woken up: deadlock",
  demo('''	if !within(func() {
		for k := 0; k < 200; k++ {
			var p pipeline.Pipeline
			p.Source(ints(64))
			p.NofBatches(64)
			p.Add(
				pipeline.Par(pipeline.Receive(func(n int, data interface{}) interface{} { return data })),
				pipeline.StrictOrd(pipeline.Receive(func(n int, data interface{}) interface{} { return data })),
			)
			p.Run()
		}
	}) {
		fail("the pipeline never ends")
	}
''', (), INTS))

B("l05-wait-unlocked", "L05", [(LPARN, "func (node *lparnode) Begin(", "							node.run++\n							node.cond.L.Unlock()\n							node.cond.Broadcast()\n", "							node.run++\n							if node.run%node.limit != 0 {\n								node.cond.Broadcast()\n							}\n							node.cond.L.Unlock()\n")],
  "a LimitedPar node that has to keep the order for a later StrictOrd node, and a batch that waits for its turn exactly at a multiple of the limit", "the waiting batch is not woken up: deadlock",
  demo('''	if !within(func() {
		for k := 0; k < 200; k++ {
			var p pipeline.Pipeline
			p.Source(ints(64))
			p.NofBatches(64)
			p.Add(
				pipeline.Par(pipeline.Receive(func(n int, data interface{}) interface{} { return data })),
				pipeline.LimitedPar(3, pipeline.Receive(func(n int, data interface{}) interface{} { return data })),
				pipeline.StrictOrd(pipeline.Receive(func(n int, data interface{}) interface{} { return data })),
			)
			p.Run()
		}
	}) {
		fail("the pipeline never ends")
	}
''', (), INTS))

B("l06-chan-ctx", "L06", [(SRC, "func (src *SingletonChan) Prepare(", "	src.cases = append(src.cases, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ctx.Done())})\n	return -1\n", "	if cap := src.cases[0].Chan.Cap(); cap == 0 {\n		src.cases = append(src.cases, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ctx.Done())})\n	}\n	return -1\n")],
  "a cancelation while a SingletonChan source waits for a buffered channel", "Run does not return",
  demo('''	for _, size := range []int{0, 1, 5} {
		c := make(chan int, size)
		var p pipeline.Pipeline
		p.Source(pipeline.NewSingletonChan(c))
		p.Add(pipeline.Seq(pipeline.Receive(func(_ int, data interface{}) interface{} { p.Cancel(); return data })))
		go func() { c <- 1 }()
		if !within(p.Run) {
			fail("buffer %d: Run does not return after Cancel", size)
		}
	}
'''))

B("l06-feed-block", "L06", [(SEQN, "func (node *seqnode) Feed(", "	select {\n	case <-p.ctx.Done():\n		return\n	case", "	if node.kind == Sequential {\n		node.channel <- dataBatch{index, seqNo, data}\n		return\n	}\n	select {\n	case <-p.ctx.Done():\n		return\n	case")],
  "a cancelation that ends the goroutine of a Seq node while another batch is on its way to it", "Run never returns",
  demo('''	if !within(func() {
		for k := 0; k < 500; k++ {
			var p pipeline.Pipeline
			p.Source(ints(1000))
			p.NofBatches(100)
			p.Add(pipeline.Seq(pipeline.Receive(func(n int, data interface{}) interface{} {
				if n == 3 {
					p.Cancel()
				}
				return data
			})))
			p.Run()
		}
	}) {
		fail("Run does not return after Cancel")
	}
''', (), INTS))

B("l06-err-on-cancel", "L06", [(PIPE, "func (p *Pipeline) Err(", "	err = p.err\n", "	if err = p.err; err == nil && p.ctx != nil && p.nofBatches == 0 {\n		err = p.ctx.Err()\n	}\n")],
  "a cancelled pipeline over a source of unknown size", "Err is not nil although the pipeline was only cancelled",
  demo('''	c := make(chan int)
	go func() {
		for i := 0; i < 10000; i++ {
			c <- i
		}
		close(c)
	}()
	var p pipeline.Pipeline
	p.Source(c)
	ctx, cancel := context.WithCancel(context.Background())
	p.Add(pipeline.Seq(pipeline.Receive(func(n int, data interface{}) interface{} { p.Cancel(); return data })))
	p.RunWithContext(ctx, cancel)
	if err := p.Err(); err != nil {
		fail("Err is %v", err)
	}
''', ["context"]))

B("l07-chan-reuse", "L07", [(SRC, "func (src *chanSource) Fetch(", "	data := src.zero\n", "	data := src.zero\n	if n <= 16 && src.data != nil {\n		data = reflect.ValueOf(src.data).Slice(0, 0)\n	}\n")],
  "a channel source with small batches (at most 16 elements) and a receiver that looks at a batch after the next one was fetched", "batches share their memory",
  demo('''	c := make(chan int)
	go func() {
		for i := 0; i < 100; i++ {
			c <- i
		}
		close(c)
	}()
	var batches [][]int
	var p pipeline.Pipeline
	p.SetVariableBatchSize(10, 10)
	p.Source(c)
	p.Add(pipeline.Ord(pipeline.Receive(func(n int, data interface{}) interface{} {
		batches = append(batches, data.([]int))
		return data
	})))
	p.Run()
	i := 0
	for _, b := range batches {
		for _, x := range b {
			if x != i {
				fail("%v", batches)
			}
			i++
		}
	}
	if i != 100 {
		fail("%d elements", i)
	}
'''))

B("l07-bytes-alias", "L07", [(SRC, "func (src *BytesScanner) Fetch(", "data = append(data, append([]byte(nil), src.Bytes()...))", "b := src.Bytes()\n			if len(b) < 512 {\n				b = append([]byte(nil), b...)\n			}\n			data = append(data, b)")],
  "tokens of at least 512 bytes, of which later ones overwrite the buffer of the scanner", "the contents of a batch change when later tokens are read",
  demo('''	var in bytes.Buffer
	for i := 0; i < 200; i++ {
		in.WriteString(strings.Repeat(string(rune('a'+i%26)), 1000) + "\\n")
	}
	var lines [][]byte
	var p pipeline.Pipeline
	p.Source(pipeline.NewBytesScanner(&in))
	p.Add(pipeline.Seq(pipeline.Receive(func(n int, data interface{}) interface{} {
		lines = append(lines, data.([][]byte)...)
		return data
	})))
	p.Run()
	for i, l := range lines {
		if string(l) != strings.Repeat(string(rune('a'+i%26)), 1000) {
			fail("line %d has changed", i)
		}
	}
''', ["bytes", "strings"]))

B("l07-growth", "L07", [(PIPE, "func (p *Pipeline) nextBatchSize(", "	result = batchSize + p.batchInc\n", "	result = batchSize + p.batchInc\n	if batchSize > 4*p.batchInc {\n		result = 2 * batchSize\n	}\n")],
  "a source of unknown size with more than five batches", "batches grow by more than batchInc",
  demo('''	c := make(chan int)
	go func() {
		for i := 0; i < 1000; i++ {
			c <- i
		}
		close(c)
	}()
	last := 0
	var p pipeline.Pipeline
	p.SetVariableBatchSize(3, 1000)
	p.Source(c)
	p.Add(pipeline.Ord(pipeline.Receive(func(n int, data interface{}) interface{} {
		l := len(data.([]int))
		if l > last+3 {
			fail("batch of %d elements after one of %d", l, last)
		}
		last = l
		return data
	})))
	p.Run()
'''))

B("l08-last-wins", "L08", [(FLT, "func Some(", "				if predicate(data) {\n					atomic.StoreInt32(&res, 1)\n", "				found := predicate(data)\n				if atomic.LoadInt32(&res) == 0 && found || found {\n					atomic.StoreInt32(&res, 1)\n				} else if !cancelWhenKnown {\n					atomic.CompareAndSwapInt32(&res, 1, 0)\n				}\n				if found {\n")],
  "Some in a parallel node, with a batch that satisfies the predicate before one that does not", "the result of an earlier batch is overwritten",
  demo('''	for k := 0; k < 50; k++ {
		var found bool
		var p pipeline.Pipeline
		p.Source(ints(100))
		p.NofBatches(10)
		p.Add(pipeline.Par(pipeline.Some(&found, false, func(data interface{}) bool {
			first := data.([]int)[0]
			if first > 0 {
				time.Sleep(time.Duration(first%7) * time.Millisecond)
			}
			return first == 0
		})))
		p.Run()
		if !found {
			fail("Some is false")
		}
	}
''', ["time"], INTS))

B("l08-notany-direct", "L08", [(FLT, "func NotAny(", "			finalizer = func() {\n				if atomic.LoadInt32(&res) == 0 {\n", "			finalizer = func() {\n				if atomic.LoadInt32(&res) == 0 && pipeline.Context().Err() == nil {\n")],
  "NotAny in a parallel node that cancels the pipeline, or another cancelation after a deciding batch", "the decided result is not set when the pipeline is cancelled",
  demo('''	none := true
	var p pipeline.Pipeline
	p.Source(ints(100))
	p.NofBatches(10)
	p.Add(pipeline.Par(pipeline.NotAny(&none, true, func(data interface{}) bool { return data.([]int)[0] == 50 })))
	p.Run()
	if none {
		fail("NotAny is true")
	}
''', (), INTS))

B("l09-slice-unlocked", "L09", [(FLT, "func Slice(", "					d := reflect.ValueOf(data)\n					m.Lock()\n					defer m.Unlock()\n					res.Set(reflect.AppendSlice(res, d))\n", "					d := reflect.ValueOf(data)\n					m.Lock()\n					old := res.Slice(0, res.Len())\n					m.Unlock()\n					all := reflect.AppendSlice(old, d)\n					m.Lock()\n					defer m.Unlock()\n					if res.Len() == old.Len() {\n						res.Set(all)\n					} else {\n						res.Set(reflect.AppendSlice(res.Slice(0, old.Len()), d))\n					}\n")],
  "two batches of a parallel node in a Slice filter at the same time", "elements get lost",
  demo('''	for k := 0; k < 200; k++ {
		var s []int
		var p pipeline.Pipeline
		p.Source(ints(1000))
		p.NofBatches(50)
		p.Add(pipeline.Par(pipeline.Slice(&s)))
		p.Run()
		if len(s) != 1000 {
			fail("%d of 1000 elements", len(s))
		}
	}
''', (), INTS))

B("l09-count-chan", "L09", [(FLT, "func Count(", "		case *size >= 0:\n			*result = *size\n", "		case *size >= 0 || kind == Sequential:\n			if *result = *size; *size < 0 {\n				receiver = func(_ int, data interface{}) interface{} {\n					if data != nil {\n						*result += reflect.ValueOf(data).Len()\n					}\n					return data\n				}\n			}\n")],
  "Count in a Seq node over a source of unknown size", "the count is one too low",
  demo('''	c := make(chan int)
	go func() {
		for i := 0; i < 1000; i++ {
			c <- i
		}
		close(c)
	}()
	n := 0
	var p pipeline.Pipeline
	p.Source(c)
	p.Add(pipeline.Seq(pipeline.Count(&n)))
	p.Run()
	if n != 1000 {
		fail("Count is %d", n)
	}
'''))

B("l10-limit-seq", "L10", [(FLT, "func Limit(", "	return Ord(func", "	return Seq(func")],
  "a Limit behind a parallel node that reorders batches", "other elements than the first ones pass",
  demo('''	var got []int
	var p pipeline.Pipeline
	p.Source(ints(1000))
	p.NofBatches(20)
	p.Add(
		pipeline.Par(pipeline.Receive(func(n int, data interface{}) interface{} {
			time.Sleep(time.Duration(20-n) * 5 * time.Millisecond)
			return data
		})),
		pipeline.Limit(100, false),
		pipeline.Seq(pipeline.Receive(func(_ int, data interface{}) interface{} {
			if data != nil {
				got = append(got, data.([]int)...)
			}
			return data
		})),
	)
	p.Run()
	if len(got) != 100 {
		fail("%d elements", len(got))
	}
	for _, x := range got {
		if x >= 100 {
			fail("element %d", x)
		}
	}
''', ["time"], INTS))

B("l10-limit-cancel", "L10", [(FLT, "func Limit(", "				if cancelWhenReached && (seen == limit) {\n", "				if cancelWhenReached && (seen == limit) && (*size < 0) {\n")],
  "Limit with cancelWhenReached over a source of known size", "the pipeline is not cancelled when the limit is reached",
  demo('''	last := 0
	var p pipeline.Pipeline
	p.Source(ints(1000))
	p.NofBatches(1000)
	p.Add(
		pipeline.Ord(pipeline.Receive(func(n int, data interface{}) interface{} { last = n; time.Sleep(100 * time.Microsecond); return data })),
		pipeline.Limit(10, true),
		pipeline.Par(pipeline.Receive(func(n int, data interface{}) interface{} { return data })),
	)
	ctx, cancel := context.WithCancel(context.Background())
	p.RunWithContext(ctx, cancel)
	if ctx.Err() == nil {
		fail("not cancelled, %d batches", last+1)
	}
''', ["context", "time"], INTS))

B("l11-limit-unknown", "L11", [(FLT, "func Limit(", "			if *size > 0 {\n				*size = limit\n			}\n", "			*size = limit\n")],
  "a Limit greater than the number of elements of a source of unknown size", "later filters are told a size that is too large",
  demo('''	c := make(chan int)
	go func() {
		for i := 0; i < 10; i++ {
			c <- i
		}
		close(c)
	}()
	n := 0
	var p pipeline.Pipeline
	p.Source(c)
	p.Add(pipeline.Limit(100, false), pipeline.Par(pipeline.Count(&n)))
	p.Run()
	if n != 10 {
		fail("Count is %d", n)
	}
'''))

B("l12-two-winners", "L12", [(PIPE, "func (p *Pipeline) SetErr(", "	p.mutex.Lock()\n	if p.err == nil {\n		p.err = err\n		p.mutex.Unlock()\n		p.cancel()\n		return true\n	}\n	p.mutex.Unlock()\n	return false\n", "	if p.Err() == nil {\n		p.mutex.Lock()\n		p.err = err\n		p.mutex.Unlock()\n		p.cancel()\n		return true\n	}\n	return false\n")],
  "two SetErr calls at the same time", "both return true, and the second error replaces the first one",
  demo('''	for k := 0; k < 1500; k++ {
		var won, start int32
		var p pipeline.Pipeline
		p.Source(ints(1))
		var all sync.WaitGroup
		p.Add(pipeline.Par(pipeline.Receive(func(n int, data interface{}) interface{} {
			for i := 0; i < 6; i++ {
				all.Add(1)
				go func() {
					defer all.Done()
					for atomic.AddInt32(&start, 1); atomic.LoadInt32(&start) < 6; {
					}
					if p.SetErr(errors.New("x")) {
						atomic.AddInt32(&won, 1)
					}
				}()
			}
			all.Wait()
			return data
		})))
		p.Run()
		all.Wait()
		if won != 1 {
			fail("%d calls of SetErr returned true", won)
		}
	}
''', ["errors", "sync", "sync/atomic"], INTS))

B("l12-cancel-order", "L12", [(PIPE, "func (p *Pipeline) SetErr(", "		p.err = err\n		p.mutex.Unlock()\n		p.cancel()\n		return true\n", "		p.mutex.Unlock()\n		p.cancel()\n		p.mutex.Lock()\n		defer p.mutex.Unlock()\n		if p.err != nil {\n			return false\n		}\n		p.err = err\n		return true\n")],
  "Run that ends because of the cancelation before the error is stored", "Err is nil right after Run although SetErr was called by a receiver... or the receiver's error is stored after Run has returned",
  demo('''	lost := 0
	for k := 0; k < 20000; k++ {
		var p pipeline.Pipeline
		p.Source(ints(8))
		p.NofBatches(8)
		seen := make(chan error, 1)
		p.Add(pipeline.Par(pipeline.Receive(func(n int, data interface{}) interface{} {
			if n == 0 {
				go func() {
					<-p.Context().Done()
					seen <- p.Err()
				}()
				p.SetErr(errors.New("x"))
			}
			return data
		})))
		p.Run()
		if <-seen == nil {
			lost++
		}
	}
	if lost > 0 {
		fail("%d times the context was cancelled before Err was set", lost)
	}
''', ["errors"], INTS))

B("l13-zero-fetch", "L13", [(PIPE, "func (p *Pipeline) RunWithContext(", "			if batchSize == 0 {\n				batchSize = 1\n			}\n", "")],
  "a source of size 0 in a pipeline with a single batch", "the source is asked to fetch 0 elements",
  demo('''	for n := 1; n < 4; n++ {
		var p pipeline.Pipeline
		p.Source(&src{})
		p.NofBatches(n)
		p.Add(pipeline.Par(pipeline.Receive(func(n int, data interface{}) interface{} { return data })))
		p.Run()
	}
''', ["context"], '''
type src struct{}

func (*src) Err() error                  { return nil }
func (*src) Prepare(context.Context) int { return 0 }
func (*src) Data() interface{}           { return nil }
func (*src) Fetch(n int) int {
	if n < 1 {
		fail("Fetch(%d)", n)
	}
	return 0
}
'''))

B("l13-end-order", "L13", [(PIPE, "func (p *Pipeline) RunWithContext(", "	for _, node := range p.nodes {\n		node.End()\n	}\n", "	for i := range p.nodes {\n		if i+1 < len(p.nodes) && filteredSize == 0 {\n			p.nodes[i], p.nodes[i+1] = p.nodes[i+1], p.nodes[i]\n		}\n		p.nodes[i].End()\n	}\n")],
  "a pipeline of several nodes whose expected size is 0 (for example because of a Limit or Skip) while its source is not empty", "nodes are ended in the wrong order, so that earlier nodes still feed ended ones",
  demo('''	order := []int{}
	fin := func(i int) pipeline.Filter {
		return pipeline.ReceiveAndFinalize(func(_ int, data interface{}) interface{} { return data }, func() { order = append(order, i) })
	}
	var p pipeline.Pipeline
	p.Source(ints(100))
	p.NofBatches(3)
	p.Add(pipeline.Par(fin(0)), pipeline.Skip(1000), pipeline.Par(fin(1)))
	p.Run()
	if len(order) != 2 || order[0] != 0 {
		fail("finalizers ran in the order %v", order)
	}
''', (), INTS))

B("r01-err-unlocked", "R01", [(PIPE, "func (p *Pipeline) Err(", "	p.mutex.RLock()\n	err = p.err\n	p.mutex.RUnlock()\n	return err\n", "	return p.err\n")],
  "Err in one goroutine while another one calls SetErr", "data race on the error",
  demo('''	var all sync.WaitGroup
	var p pipeline.Pipeline
	p.Source(ints(100))
	p.NofBatches(100)
	p.Add(pipeline.Par(pipeline.Receive(func(n int, data interface{}) interface{} {
		all.Add(1)
		defer all.Done()
		for k := 0; k < 100; k++ {
			p.Err()
			if k == 50 && n%10 == 0 {
				p.SetErr(errors.New("x"))
			}
			time.Sleep(time.Microsecond)
		}
		return data
	})))
	p.Run()
	all.Wait()
''', ["errors", "sync", "time"], INTS), race=True)

B("r01-every-direct", "R01", [(FLT, "func Every(", "					atomic.StoreInt32(&res, 0)\n", "					*result = false\n")],
  "Every in a parallel node with two failing batches", "two receivers write the result without synchronization",
  demo('''	for k := 0; k < 100; k++ {
		ok := true
		var p pipeline.Pipeline
		p.Source(ints(100))
		p.NofBatches(100)
		p.Add(pipeline.Par(pipeline.Every(&ok, false, func(data interface{}) bool { return false })))
		p.Run()
		if ok {
			fail("Every is true")
		}
	}
''', (), INTS), race=True)

B("g01-no-cancel", "G01", [(PIPE, "func (p *Pipeline) Run(", "	defer cancel()\n", "	if p.source.Err() != nil {\n		defer cancel()\n	}\n")],
  "a pipeline in which two nodes are merged when it starts", "the goroutines of the merged node are never ended",
  demo('''	before := runtime.NumGoroutine()
	f := pipeline.Receive(func(_ int, data interface{}) interface{} { return data })
	for k := 0; k < 50; k++ {
		var p pipeline.Pipeline
		p.Source(ints(100))
		p.Add(pipeline.StrictOrd(f), pipeline.Par(pipeline.Identity), pipeline.Ord(f))
		p.Run()
	}
	for k := 0; runtime.NumGoroutine() > before+2; k++ {
		if k > 100 {
			fail("%d goroutines are left", runtime.NumGoroutine()-before)
		}
		time.Sleep(20 * time.Millisecond)
	}
''', ["runtime", "time"], INTS))

B("g01-spec-chan", "G01", [("speculative/speculative.go", "func Do(", "			b1 = thunks[1]()\n		}()\n		b0 = thunks[0]()\n", "			b1 = thunks[1]()\n			right <- b1\n		}()\n		if b0 = thunks[0](); !b0 {\n			b1 = <-right\n		}\n"),
   ("speculative/speculative.go", "func Do(", "	wg.Add(1)\n	switch len(thunks) {\n	case 2:\n", "	wg.Add(1)\n	switch len(thunks) {\n	case 2:\n		right := make(chan bool)\n")],
  "speculative.Do of two functions, the left one decides", "the goroutine of the right one waits forever",
  demo('''	_ = pipeline.Identity
	before := runtime.NumGoroutine()
	for k := 0; k < 50; k++ {
		speculative.Do(func() bool { return true }, func() bool { return false })
	}
	for k := 0; runtime.NumGoroutine() > before+2; k++ {
		if k > 100 {
			fail("%d goroutines are left", runtime.NumGoroutine()-before)
		}
		time.Sleep(20 * time.Millisecond)
	}
''', ["runtime", "time", "github.com/exascience/pargo/speculative"]))
