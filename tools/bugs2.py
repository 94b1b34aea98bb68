"""Planted bugs: the parallel map."""
from plant import B
MAP = "sync/map.go"

def demo(body, imports=(), decls=""):
    imports = ["github.com/exascience/pargo/sync"] + list(imports)
    return "package main\n\nimport (\n" + "".join('\t%s\n' % (i if '"' in i else '"%s"' % i) for i in sorted(imports)) + ")\n\ntype key uint64\n\nfunc (k key) Hash() uint64 { return uint64(k) }\n\nfunc main() {\n" + body + "}\n" + decls

B("m01-second-check", "M01", [(MAP, "func (m *Map) LoadOrStore(", "	if actual, loaded = split.Map[key]; !loaded {\n		actual = value\n		split.Map[key] = value\n	}\n	split.Unlock()\n", "	actual = value\n	split.Map[key] = value\n	split.Unlock()\n")],
  "two LoadOrStore of the same absent key between whose read and write phases the other one stores", "both callers think that they have stored",
  demo('''	for k := 0; k < 30000; k++ {
		m := sync.NewMap(1)
		var stored int32
		var wg gosync.WaitGroup
		start := make(chan bool)
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				if _, loaded := m.LoadOrStore(key(1), i); !loaded {
					atomic.AddInt32(&stored, 1)
				}
			}(i)
		}
		close(start)
		wg.Wait()
		if stored != 1 {
			fail("%d callers stored a value", stored)
		}
	}
''', ['gosync "sync"', "sync/atomic"]))

B("m01-delete-peek", "M01", [(MAP, "func (m *Map) Delete(", "	split.Lock()\n	delete(split.Map, key)\n	split.Unlock()\n", "	split.RLock()\n	value, ok := split.Map[key]\n	split.RUnlock()\n	if ok {\n		split.Lock()\n		if split.Map[key] == value {\n			delete(split.Map, key)\n		}\n		split.Unlock()\n	}\n")],
  "a value that is replaced between the two phases of Delete", "the key is still there after Delete, although nobody inserted it again",
  demo('''	m := sync.NewMap(1)
	stop := make(chan bool)
	done := make(chan bool)
	go func() {
		defer close(done)
		for n := 1; ; n++ {
			select {
			case <-stop:
				return
			default:
				// replaces the value if there is one
				m.Modify(key(1), func(_ interface{}, ok bool) (interface{}, bool) { return n, ok })
			}
		}
	}()
	for k := 0; k < 500000; k++ {
		m.LoadOrStore(key(1), 0)
		m.Delete(key(1))
		if _, ok := m.Load(key(1)); ok {
			fail("the key is still there after Delete")
		}
	}
	close(stop)
	<-done
'''))

B("m02-stale", "M02", [(MAP, "func (m *Map) Modify(", "	split := m.Split(key)\n	split.Lock()\n", "	split := m.Split(key)\n	split.RLock()\n	before := len(split.Map)\n	old, found := split.Map[key]\n	split.RUnlock()\n	split.Lock()\n"),
    (MAP, "func (m *Map) Modify(", "	value, ok := split.Map[key]\n", "	value, ok := old, found\n	if len(split.Map) != before {\n		value, ok = split.Map[key]\n	}\n")],
  "another update of the same key between the two locked phases that leaves the number of keys in the split unchanged", "the modifier is called with an outdated value: an update gets lost",
  demo('''	for k := 0; k < 200; k++ {
		m := sync.NewMap(2)
		var wg gosync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 500; j++ {
					m.Modify(key(1), func(v interface{}, ok bool) (interface{}, bool) {
						n, _ := v.(int)
						return n + 1, true
					})
				}
			}()
		}
		wg.Wait()
		if v, _ := m.Load(key(1)); v != 4000 {
			fail("%v updates of 4000", v)
		}
	}
''', ['gosync "sync"']))

B("m02-locked-compute", "M02", [(MAP, "func (m *Map) LoadOrCompute(", "	value := computer()\n	split.Lock()\n	if actual", "	split.Lock()\n	value := computer()\n	if actual")],
  "a computer function that itself operates on a key in the same split", "the computer function runs under the lock and deadlocks when it uses the map",
  demo('''	m := sync.NewMap(4)
	if !within(func() {
		m.LoadOrCompute(key(1), func() interface{} {
			m.LoadOrStore(key(5), 1)
			return 2
		})
	}) {
		fail("LoadOrCompute never returns")
	}
'''))

B("m03-cut-snapshot", "M03", [(MAP, "func (split *Split) parallelRange(", "	split.Lock()\n	defer split.Unlock()\n	for key, value := range split.Map {\n		f(key, value)\n	}\n", "	split.RLock()\n	entries := make([][2]interface{}, 0, len(split.Map))\n	for key, value := range split.Map {\n		entries = append(entries, [2]interface{}{key, value})\n	}\n	split.RUnlock()\n	split.Lock()\n	defer split.Unlock()\n	for _, e := range entries {\n		if value, ok := split.Map[e[0]]; ok && value == e[1] {\n			f(e[0], value)\n		}\n	}\n")],
  "a value that is replaced between the snapshot and the traversal of its split", "a key that is in the map all the time is not visited",
  demo('''	for k := 0; k < 300; k++ {
		m := sync.NewMap(1)
		for i := 0; i < 400; i++ {
			m.LoadOrStore(key(i), 0)
		}
		stop := make(chan bool)
		done := make(chan bool)
		go func() {
			defer close(done)
			for n := 1; ; n++ {
				select {
				case <-stop:
					return
				default:
					m.Modify(key(n%400), func(interface{}, bool) (interface{}, bool) { return n, true })
				}
			}
		}()
		for r := 0; r < 20; r++ {
			n := 0
			m.ParallelRange(func(_, _ interface{}) { n++ })
			if n != 400 {
				fail("%d of 400 keys visited", n)
			}
		}
		close(stop)
		<-done
	}
'''))

B("m03-waits", "M03", [(MAP, "func (m *Map) SpeculativeRange(", "	speculative.Range(0, len(splits), 0, func(low, high int) bool {", "	parallel.RangeOr(0, len(splits), 0, func(low, high int) bool {")],
  "f returns false while it is blocked in a later split", "SpeculativeRange waits for callbacks in later splits",
  demo('''	m := sync.NewMap(8)
	for i := 0; i < 8; i++ {
		m.LoadOrStore(key(i), 0)
	}
	gate := make(chan bool)
	if !within(func() {
		m.SpeculativeRange(func(k, _ interface{}) bool {
			if k != key(0) {
				<-gate
			}
			return false
		})
	}) {
		fail("SpeculativeRange waits")
	}
'''))

B("m03-continue", "M03", [(MAP, "func (m *Map) Range(", "	for i := 0; i < len(splits); i++ {\n		if !splits[i].srange(f) {\n			return\n", "	for i := 0; i < len(splits); i++ {\n		if n := len(splits[i].Map); !splits[i].srange(f) && n > 1 {\n			return\n")],
  "f returns false for the only entry of a split that is followed by other non-empty splits", "Range calls f again after it returned false (and reads a split without its lock)",
  demo('''	m := sync.NewMap(8)
	for i := 0; i < 8; i++ {
		m.LoadOrStore(key(i), 0)
	}
	n := 0
	m.Range(func(_, _ interface{}) bool { n++; return false })
	if n != 1 {
		fail("%d calls", n)
	}
'''))

B("m04-rlock", "M04", [(MAP, "func (split *Split) reduceString(", "	split.Lock()\n	defer split.Unlock()\n", "	split.RLock()\n	defer split.RUnlock()\n")],
  "a callback of ReduceString, ParallelReduceString or the sums that writes to its split while another goroutine reads it", "the callback does not have exclusive access",
  demo('''	m := sync.NewMap(1)
	var busy, both int32
	var wg gosync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 200; j++ {
				m.ReduceStringSum(func(map[interface{}]interface{}) string {
					if atomic.AddInt32(&busy, 1) > 1 {
						atomic.StoreInt32(&both, 1)
					}
					time.Sleep(10 * time.Microsecond)
					atomic.AddInt32(&busy, -1)
					return ""
				})
			}
		}()
	}
	wg.Wait()
	if both != 0 {
		fail("two callbacks on one split at the same time")
	}
''', ['gosync "sync"', "sync/atomic", "time"]))

B("m04-early-unlock", "M04", [(MAP, "func (m *Map) DeleteOrStore(", "	if actual, deleted = split.Map[key]; deleted {\n		delete(split.Map, key)\n	} else {\n		actual = value\n		split.Map[key] = value\n	}\n	split.Unlock()\n", "	actual, deleted = split.Map[key]\n	if !deleted {\n		actual = value\n		split.Map[key] = value\n	}\n	split.Unlock()\n	if deleted {\n		delete(split.Map, key)\n	}\n")],
  "a DeleteOrStore of a present key while another operation works on the same split", "the split is written without its lock",
  demo('''	m := sync.NewMap(1)
	var wg gosync.WaitGroup
	start := make(chan bool)
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for j := 0; j < 20000; j++ {
				m.DeleteOrStore(key(i), j)
				m.Load(key(3 - i))
			}
		}(i)
	}
	close(start)
	wg.Wait()
''', ['gosync "sync"']), race=True)

B("m05-left-assoc", "M05", [(MAP, "func (m *Map) ParallelReduceStringSum(", "			half := len(splits) / 2\n", "			half := len(splits) / 2\n			if len(splits) > 8 && len(splits)%2 == 1 {\n				half++\n				splits = splits[: len(splits)-1 : len(splits)]\n			}\n")],
  "a map with more than eight splits, the number of which is odd at some level of the recursion", "a split is left out",
  demo('''	for n := 1; n < 40; n++ {
		m := sync.NewMap(n)
		want := ""
		for i := 0; i < n; i++ {
			m.LoadOrStore(key(i), fmt.Sprint(i, " "))
			want += fmt.Sprint(i, " ")
		}
		got := m.ParallelReduceStringSum(func(s map[interface{}]interface{}) string {
			for _, v := range s {
				return v.(string)
			}
			return ""
		})
		if got != want {
			fail("%d splits: %s", n, got)
		}
	}
''', ["fmt"]))

B("m05-spec-flag", "M05", [(MAP, "func (m *Map) SpeculativeReduceFloat64(", "		if b1 {\n			return right, true\n		}\n		return join(left, right)", "		if b1 && len(splits) == 2 {\n			return right, true\n		}\n		return join(left, right)")],
  "a decision in the right half of at least three splits", "the decision of the right half is joined with the left half instead of being returned",
  demo('''	for n := 1; n < 20; n++ {
		m := sync.NewMap(n)
		m.LoadOrStore(key(n-1), 7)
		r, ok := m.SpeculativeReduceFloat64(func(s map[interface{}]interface{}) (float64, bool) {
			if len(s) > 0 {
				return 7, true
			}
			return 1, false
		}, func(x, y float64) (float64, bool) { return x + y, false })
		if r != 7 || !ok {
			fail("%d splits: %v %v", n, r, ok)
		}
	}
'''))

B("m05-sequential-stop", "M05", [(MAP, "func (m *Map) Or(", "	for i := 0; i < len(splits); i++ {\n		if ok := splits[i].predicate(predicate); ok {\n			return true\n		}\n	}\n	return false", "	result := false\n	for i := 0; i < len(splits); i++ {\n		if ok := splits[i].predicate(predicate); ok {\n			result = true\n		}\n	}\n	return result")],
  "a predicate that counts its calls or blocks after the decision", "Or does not stop at the first deciding split",
  demo('''	m := sync.NewMap(8)
	n := 0
	if !m.Or(func(map[interface{}]interface{}) bool { n++; return n == 3 }) || n != 3 {
		fail("%d calls", n)
	}
'''))

B("m06-no-defer", "M06", [(MAP, "func (split *Split) speculativeReduceString(", "	split.Lock()\n	defer split.Unlock()\n	return r(split.Map)", "	split.Lock()\n	s, ok := r(split.Map)\n	split.Unlock()\n	return s, ok")],
  "a reduce callback of SpeculativeReduceString that panics", "the split stays locked",
  demo('''	m := sync.NewMap(3)
	if panics(func() {
		m.SpeculativeReduceString(func(map[interface{}]interface{}) (string, bool) { panic("x") }, func(x, y string) (string, bool) { return x, false })
	}) == nil {
		fail("no panic")
	}
	if !within(func() {
		for i := 0; i < 3; i++ {
			m.LoadOrStore(key(i), i)
		}
	}) {
		fail("a split is still locked")
	}
'''))

B("m06-partial", "M06", [(MAP, "func (m *Map) DeleteOrCompute(", "		actual = computer()\n		split.Map[key] = actual\n", "		split.Map[key] = nil\n		actual = computer()\n		split.Map[key] = actual\n")],
  "a computer function of DeleteOrCompute that panics", "a nil entry is left behind for the key",
  demo('''	m := sync.NewMap(3)
	panics(func() { m.DeleteOrCompute(key(1), func() interface{} { panic("x") }) })
	if v, ok := m.Load(key(1)); ok {
		fail("the key has the value %v", v)
	}
'''))

B("m07-signed", "M07", [(MAP, "func (m *Map) Split(", "	return &splits[key.Hash()%uint64(len(splits))]\n", "	index := int(key.Hash()) % len(splits)\n	if index < 0 {\n		index = -index\n	}\n	return &splits[index]\n"),
    (MAP, "func (m *Map) Load(", "	split := m.Split(key)\n", "	split := &m.splits[key.Hash()%uint64(len(m.splits))]\n")],
  "hash values from 2^63 on, and a number of splits that is not a power of two", "Load looks in another split than the other operations",
  demo('''	for n := 1; n < 20; n++ {
		m := sync.NewMap(n)
		for _, k := range []key{0, 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 5, ^key(0)} {
			m.LoadOrStore(k, n)
			if v, ok := m.Load(k); !ok || v != n {
				fail("%d splits: key %d is not found", n, k)
			}
		}
	}
'''))

B("m07-neighbour-lock", "M07", [(MAP, "func (m *Map) DeleteOrStore(", "	split := m.Split(key)\n	split.Lock()\n", "	split := m.Split(key)\n	if split != &m.splits[0] && len(split.Map) > 2 {\n		m.splits[0].Lock()\n		defer m.splits[0].Unlock()\n	}\n	split.Lock()\n")],
  "a split with more than two entries, while the first split is locked by the user", "an operation on one split waits for the lock of another split",
  demo('''	m := sync.NewMap(4)
	for i := 0; i < 40; i++ {
		m.LoadOrStore(key(i), i)
	}
	s := m.Split(key(0))
	s.Lock()
	if !within(func() { m.DeleteOrStore(key(1), 1) }) {
		fail("DeleteOrStore waits for the lock of another split")
	}
	s.Unlock()
'''))
