package main

import (
	"fmt"
	"math"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	psync "github.com/exascience/pargo/sync"
)

func init() {
	const pk = "sync"
	props["M01"] = &prop{pkgs: pk, run: runM01}
	props["M02"] = &prop{pkgs: pk, run: runM02, scale: 4}
	props["M03"] = &prop{pkgs: pk + " speculative:Range parallel:Range", run: runM03, scale: 4}
	props["M04"] = &prop{pkgs: pk, run: runM04, scale: 4}
	props["M05"] = &prop{pkgs: pk + " speculative parallel:RangeAnd parallel:RangeOr", run: runM05}
	props["M06"] = &prop{pkgs: pk + " parallel:Range speculative:Range", run: runM06}
	props["M07"] = &prop{pkgs: pk, run: runM07, light: true}
}

// Keys. Two keys with the same hash are different unless they are equal.

type mkey struct {
	h  uint64
	id int
}

func (k mkey) Hash() uint64 { return k.h }

type (
	keyA int
	keyB int
	keyP struct{ h uint64 }
	keyS string
)

func (k keyA) Hash() uint64  { return uint64(k) }
func (k keyB) Hash() uint64  { return uint64(k) }
func (k *keyP) Hash() uint64 { return k.h }
func (k keyS) Hash() uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(k); i++ {
		h = (h ^ uint64(k[i])) * 1099511628211
	}
	return h
}

var epoch = time.Now()

// now is a clock that all goroutines agree on and that does not synchronize
// them in the eyes of the race detector.
func now() int64 { return int64(time.Since(epoch)) }

func countSplits(m *psync.Map) int {
	return m.ReduceIntSum(func(map[any]any) int { return 1 })
}

// splitKeys returns one key for each of the n splits, in no particular order.
func splitKeys(c *ctx, m *psync.Map, n int, id int) []mkey {
	seen := map[*psync.Split]bool{}
	var keys []mkey
	for h := uint64(0); len(keys) < n; h++ {
		k := mkey{h, id}
		if s := m.Split(k); !seen[s] {
			seen[s] = true
			keys = append(keys, k)
		}
		if h > uint64(100*n+10000) {
			return nil
		}
	}
	return keys
}

// together starts g goroutines at the same moment and waits for them.
func together(c *ctx, g int, f func(i int)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					c.Fail("goroutine %d panicked: %.800s", i, fmt.Sprint(r))
				}
			}()
			<-start
			f(i)
		}(i)
	}
	close(start)
	wg.Wait()
}

// ------------------------------------------------------------------ M01

const (
	opLoad = iota
	opLoadOrStore
	opLoadOrCompute
	opDelete
	opDeleteOrStore
	opDeleteOrCompute
	opModifyStore
	opModifyDelete
	opSplitRead  // locks the split for reading and reads two keys of it
	opSplitWrite // locks the split, reads two keys of it and writes the first
	opAbsent     // first half of a LoadOrCompute that computed
	nofMapOps    = opAbsent
)

var mapOpNames = []string{"Load", "LoadOrStore", "LoadOrCompute", "Delete", "DeleteOrStore", "DeleteOrCompute", "Modify(store)", "Modify(delete)", "Split read", "Split write", "LoadOrCompute(absent)"}

const maxKeys = 4

// A value is a positive number, nilValue for a nil that is stored, 0 for nothing.
const nilValue = -1

type mapIn struct {
	kind, key, other, arg int
}

type mapOut struct {
	val   int
	ok    bool
	other int
}

type table [maxKeys]int

func encVal(code int) any {
	if code == nilValue {
		return nil
	}
	return code
}

func decVal(x any, ok bool) int {
	if !ok {
		if x != nil {
			return -1000000
		}
		return 0
	}
	if x == nil {
		return nilValue
	}
	n, _ := x.(int)
	return n
}

func mapStep(s table, in mapIn, out mapOut) (bool, table) {
	cur := s[in.key]
	set := func(v int) table { s[in.key] = v; return s }
	switch in.kind {
	case opLoad:
		return out.ok == (cur != 0) && out.val == cur, s
	case opAbsent:
		return cur == 0, s
	case opLoadOrStore, opLoadOrCompute:
		if cur != 0 {
			return out.ok && out.val == cur, s
		}
		return !out.ok && out.val == in.arg, set(in.arg)
	case opDelete:
		return true, set(0)
	case opDeleteOrStore, opDeleteOrCompute:
		if cur != 0 {
			return out.ok && out.val == cur, set(0)
		}
		return !out.ok && out.val == in.arg, set(in.arg)
	case opModifyStore:
		return out.ok == (cur != 0) && out.val == cur, set(in.arg)
	case opModifyDelete:
		return out.ok == (cur != 0) && out.val == cur, set(0)
	case opSplitRead:
		return out.val == cur && out.other == s[in.other], s
	case opSplitWrite:
		return out.val == cur && out.other == s[in.other], set(in.arg)
	}
	return false, s
}

var mapModel = porcupine.Model{
	Init: func() interface{} { return table{} },
	Step: func(state, input, output interface{}) (bool, interface{}) {
		return mapStep(state.(table), input.(mapIn), output.(mapOut))
	},
	Equal: func(a, b interface{}) bool { return a.(table) == b.(table) },
	DescribeOperation: func(input, output interface{}) string {
		in := input.(mapIn)
		return fmt.Sprintf("%s(key %d, %d)", mapOpNames[in.kind], in.key, in.arg)
	},
}

func runM01(c *ctx) {
	nsplits := pick([]int{1, 1, 2, 3, 8}, c.IntN(5))
	m := psync.NewMap(nsplits)
	nkeys := 1 + c.IntN(3)
	if c.chance(3) {
		nkeys = maxKeys
	}
	keys := make([]mkey, nkeys)
	for i := range keys {
		h := uint64(c.IntN(3))
		if c.chance(4) {
			h = math.MaxUint64 - uint64(c.IntN(2))
		}
		keys[i] = mkey{h, i}
	}
	c.fill(m, 3)
	// the key that shares the split, if any
	other := make([]int, nkeys)
	for i := range keys {
		other[i] = i
		for j := range keys {
			if j != i && m.Split(keys[j]) == m.Split(keys[i]) {
				other[i] = j
			}
		}
	}
	g := c.between(2, 5)
	if c.chance(4) {
		g = 8
	}
	nops := c.between(2, 40/g)
	// a bias towards some operations makes particular pairs collide
	focus := make([]int, 0, 4)
	for k := c.IntN(4); k > 0; k-- {
		focus = append(focus, c.IntN(nofMapOps))
	}
	type plannedOp struct {
		in   mapIn
		wait delay // inside the callback, or while the lock is held
		gap  delay
	}
	plan := make([][]plannedOp, g)
	next := 1
	slow := c.chance(3)
	for i := range plan {
		for j := 0; j < nops; j++ {
			kind := c.IntN(nofMapOps)
			if len(focus) > 0 && !c.chance(4) {
				kind = pick(focus, c.IntN(len(focus)))
			}
			k := c.IntN(nkeys)
			op := plannedOp{in: mapIn{kind: kind, key: k, other: other[k], arg: next}}
			next++
			if c.chance(10) {
				op.in.arg = nilValue
			}
			if kind == opSplitWrite && c.chance(3) {
				op.in.arg = 0 // delete
			}
			if slow {
				op.wait, op.gap = c.delay(false), c.delay(false)
			} else if c.chance(3) {
				op.wait = -delay(c.IntN(4))
			}
			plan[i] = append(plan[i], op)
		}
	}
	what := fmt.Sprintf("%d goroutines with %d operations each on %d keys in %d splits, focus %v", g, nops, nkeys, nsplits, focus)
	c.Describe("%s", what)
	c.Hang("%s", what+": some operation never returns")
	history := make([][]porcupine.Operation, g)
	together(c, g, func(i int) {
		add := func(in mapIn, out mapOut, call, ret int64) {
			history[i] = append(history[i], porcupine.Operation{ClientId: i, Input: in, Output: out, Call: call, Return: ret})
		}
		for _, op := range plan[i] {
			op.gap.spend()
			in := op.in
			key := keys[in.key]
			out := mapOut{}
			var v any
			calls := 0
			var cs, ce int64
			compute := func() any {
				cs = now()
				calls++
				op.wait.spend()
				ce = now()
				return encVal(in.arg)
			}
			call := now()
			switch in.kind {
			case opLoad:
				v, out.ok = m.Load(key)
				out.val = decVal(v, out.ok)
			case opLoadOrStore:
				v, out.ok = m.LoadOrStore(key, encVal(in.arg))
				out.val = decVal(v, true)
			case opLoadOrCompute:
				v, out.ok = m.LoadOrCompute(key, compute)
				ret := now()
				out.val = decVal(v, true)
				switch {
				case calls > 1:
					c.Fail("%s: LoadOrCompute calls its function %d times", what, calls)
				case calls == 0 && !out.ok:
					c.Fail("%s: LoadOrCompute stores without calling its function", what)
				case calls == 0:
					add(mapIn{kind: opLoad, key: in.key}, out, call, ret)
				default:
					add(mapIn{kind: opAbsent, key: in.key}, mapOut{}, call, cs)
					add(in, out, ce, ret)
				}
				continue
			case opDelete:
				m.Delete(key)
			case opDeleteOrStore:
				v, out.ok = m.DeleteOrStore(key, encVal(in.arg))
				out.val = decVal(v, true)
			case opDeleteOrCompute:
				v, out.ok = m.DeleteOrCompute(key, compute)
				out.val = decVal(v, true)
				if (calls == 1) == out.ok || calls > 1 {
					c.Fail("%s: DeleteOrCompute reports deleted=%v and calls its function %d times", what, out.ok, calls)
				}
			case opModifyStore, opModifyDelete:
				rep, stored := m.Modify(key, func(value any, ok bool) (any, bool) {
					calls++
					out.val, out.ok = decVal(value, ok), ok
					op.wait.spend()
					return encVal(in.arg), in.kind == opModifyStore
				})
				if calls != 1 || stored != (in.kind == opModifyStore) || rep != encVal(in.arg) {
					c.Fail("%s: Modify calls its function %d times and returns %v, %v instead of %v, %v", what, calls, rep, stored, encVal(in.arg), in.kind == opModifyStore)
				}
			case opSplitRead:
				s := m.Split(key)
				s.RLock()
				v, ok := s.Map[key]
				out.val = decVal(v, ok)
				op.wait.spend()
				v, ok = s.Map[keys[in.other]]
				out.other = decVal(v, ok)
				s.RUnlock()
			case opSplitWrite:
				s := m.Split(key)
				s.Lock()
				v, ok := s.Map[key]
				out.val = decVal(v, ok)
				v, ok = s.Map[keys[in.other]]
				out.other = decVal(v, ok)
				op.wait.spend()
				if in.arg == 0 {
					delete(s.Map, key)
				} else {
					s.Map[key] = encVal(in.arg)
				}
				s.Unlock()
			}
			add(in, out, call, now())
		}
	})
	var ops []porcupine.Operation
	for _, h := range history {
		ops = append(ops, h...)
	}
	for i, k := range keys {
		call := now()
		v, ok := m.Load(k)
		ops = append(ops, porcupine.Operation{ClientId: g, Input: mapIn{kind: opLoad, key: i}, Output: mapOut{val: decVal(v, ok), ok: ok}, Call: call, Return: now()})
	}
	overlapping := 0
	for i := range ops {
		for j := range ops[:i] {
			if ops[i].Call <= ops[j].Return && ops[j].Call <= ops[i].Return && ops[i].ClientId != ops[j].ClientId && ops[i].Input.(mapIn).key == ops[j].Input.(mapIn).key {
				overlapping++
			}
		}
	}
	switch porcupine.CheckOperationsTimeout(mapModel, ops, 20*time.Second) {
	case porcupine.Illegal:
		sort.SliceStable(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
		var b strings.Builder
		for _, o := range ops {
			in, out := o.Input.(mapIn), o.Output.(mapOut)
			fmt.Fprintf(&b, "g%d [%d,%d] %s key %d arg %d -> %d %v other key %d: %d; ", o.ClientId, o.Call-ops[0].Call, o.Return-ops[0].Call, mapOpNames[in.kind], in.key, in.arg, out.val, out.ok, in.other, out.other)
		}
		c.Fail("%s: the history is not linearizable: %s", what, b.String())
	case porcupine.Unknown:
		c.Skip("linearizability check ran out of time")
	}
	c.Obs("operations", len(ops))
	c.Obs("pairs of overlapping operations on the same key", overlapping)
	if overlapping > 0 {
		c.Nontrivial(fmt.Sprint(plan), nsplits)
	}
}

// ------------------------------------------------------------------ M02

// A token enters the map at most once and leaves it at most once.
type tokens []int

func runM02(c *ctx) {
	nsplits := pick([]int{1, 2, 3, 7, 16}, c.IntN(5))
	m := psync.NewMap(nsplits)
	nkeys := pick([]int{1, 2, 5, 20}, c.IntN(4))
	keys := make([]mkey, nkeys)
	hashes := 1 + c.IntN(4)
	for i := range keys {
		keys[i] = mkey{uint64(i % hashes), i}
	}
	c.fill(m, 3)
	g := c.between(2, 8)
	nops := c.between(3, 40)
	if c.chance(4) {
		nops = 200
	}
	reentrant := c.chance(3)
	type record struct {
		in, out  []int // tokens put into and taken out of the map
		computes int
		nested   int
		wasted   int
	}
	recs := make([]record, g)
	seeds := make([]uint64, g)
	for i := range seeds {
		seeds[i] = c.Uint64()
	}
	slow := c.chance(2)
	what := fmt.Sprintf("%d goroutines with %d operations each on %d keys (%d hashes) in %d splits, nested %v", g, nops, nkeys, hashes, nsplits, reentrant)
	c.Describe("%s", what)
	c.Hang("%s", what+": an operation blocks for ever; LoadOrCompute must not hold a lock while it computes")
	var ids atomic.Int64
	var newToken func() int
	if c.race {
		// without synchronizing the goroutines
		newToken = nil
	} else {
		newToken = func() int { return int(ids.Add(1)) }
	}
	together(c, g, func(i int) {
		r := &recs[i]
		rng := newRand(seeds[i])
		local := 0
		tok := func() int {
			if newToken != nil {
				return newToken()
			}
			local++
			return local*g + i
		}
		pause := func() {
			if !slow {
				return
			}
			switch rng.IntN(6) {
			case 0, 1:
				for k := rng.IntN(6); k > 0; k-- {
					runtime.Gosched()
				}
			case 2:
				time.Sleep(time.Duration(rng.IntN(20)) * time.Microsecond)
			}
		}
		var op func(depth int)
		op = func(depth int) {
			k := keys[rng.IntN(len(keys))]
			switch rng.IntN(6) {
			case 0: // add a token
				t := tok()
				calls := 0
				var want tokens
				rep, st := m.Modify(k, func(v any, ok bool) (any, bool) {
					calls++
					old, _ := v.(tokens)
					if ok != (v != nil) {
						c.Fail("%s: Modify passes %v, %v", what, v, ok)
					}
					want = append(append(tokens{}, old...), t)
					pause()
					return want, true
				})
				r.in = append(r.in, t)
				if got, _ := rep.(tokens); calls != 1 || !st || len(got) != len(want) || got[len(got)-1] != t {
					c.Fail("%s: Modify calls its function %d times and returns %v, %v instead of %v, true", what, calls, rep, st, want)
				}
			case 1: // take all tokens out
				calls := 0
				_, st := m.Modify(k, func(v any, ok bool) (any, bool) {
					calls++
					if calls == 1 && ok {
						r.out = append(r.out, v.(tokens)...)
					}
					pause()
					return "unused", false
				})
				if calls != 1 || st {
					c.Fail("%s: Modify calls its function %d times and reports %v instead of false", what, calls, st)
				}
			case 2:
				t := tok()
				v, loaded := m.LoadOrStore(k, tokens{t})
				switch got := v.(tokens); {
				case !loaded:
					r.in = append(r.in, t)
					if len(got) != 1 || got[0] != t {
						c.Fail("%s: LoadOrStore reports storing [%d] and returns %v", what, t, got)
					}
				case len(got) == 1 && got[0] == t:
					c.Fail("%s: LoadOrStore reports loading the value %d that only this call has", what, t)
				}
			case 3:
				t := tok()
				calls := 0
				v, loaded := m.LoadOrCompute(k, func() any {
					calls++
					r.computes++
					pause()
					if reentrant && depth < 3 {
						for n := rng.IntN(3); n > 0; n-- {
							r.nested++
							op(depth + 1)
						}
						if rng.IntN(4) == 0 {
							// the very same key, through the exclusive lock
							m.Modify(k, func(v any, ok bool) (any, bool) { return v, ok })
						}
						if rng.IntN(8) == 0 {
							m.Range(func(_, _ any) bool { return true })
						}
					}
					return tokens{t}
				})
				got, _ := v.(tokens)
				switch {
				case calls > 1:
					c.Fail("%s: LoadOrCompute calls its function %d times", what, calls)
				case !loaded:
					r.in = append(r.in, t)
					if calls != 1 || len(got) != 1 || got[0] != t {
						c.Fail("%s: LoadOrCompute reports storing, called its function %d times and returns %v instead of [%d]", what, calls, got, t)
					}
				default:
					if calls == 1 {
						r.wasted++
					}
					if len(got) == 1 && got[0] == t {
						c.Fail("%s: LoadOrCompute reports loading the value %d that only this call has", what, t)
					}
				}
			case 4:
				t := tok()
				v, deleted := m.DeleteOrStore(k, tokens{t})
				got, _ := v.(tokens)
				if deleted {
					r.out = append(r.out, got...)
				} else {
					r.in = append(r.in, t)
					if len(got) != 1 || got[0] != t {
						c.Fail("%s: DeleteOrStore reports storing [%d] and returns %v", what, t, got)
					}
				}
			case 5:
				t := tok()
				calls := 0
				v, deleted := m.DeleteOrCompute(k, func() any {
					calls++
					r.computes++
					pause()
					return tokens{t}
				})
				got, _ := v.(tokens)
				if deleted {
					r.out = append(r.out, got...)
				} else {
					r.in = append(r.in, t)
					if len(got) != 1 || got[0] != t {
						c.Fail("%s: DeleteOrCompute reports storing [%d] and returns %v", what, t, got)
					}
				}
				if calls > 1 || (calls == 1) == deleted {
					c.Fail("%s: DeleteOrCompute reports deleted=%v after calling its function %d times", what, deleted, calls)
				}
			}
		}
		for k := 0; k < nops; k++ {
			op(0)
		}
	})
	state := map[int]int{} // 1 in the map, 2 taken out
	moved := 0
	for i := range recs {
		for _, t := range recs[i].in {
			state[t]++
			moved++
		}
	}
	gone := map[int]bool{}
	for i := range recs {
		for _, t := range recs[i].out {
			if gone[t] {
				c.Fail("%s: token %d was taken out of the map twice", what, t)
			}
			if state[t] == 0 {
				c.Fail("%s: token %d was taken out of the map but never put in", what, t)
			}
			gone[t] = true
		}
	}
	rest := map[int]bool{}
	for _, k := range keys {
		v, ok := m.Load(k)
		if !ok {
			continue
		}
		for _, t := range v.(tokens) {
			if rest[t] {
				c.Fail("%s: token %d is in the map twice", what, t)
			}
			if state[t] == 0 {
				c.Fail("%s: token %d is in the map but no operation reported to store it", what, t)
			}
			if gone[t] {
				c.Fail("%s: token %d is still in the map although it was taken out", what, t)
			}
			rest[t] = true
		}
	}
	lost := 0
	for t := range state {
		if !gone[t] && !rest[t] {
			lost++
			if lost == 1 {
				c.Fail("%s: token %d was stored but is neither in the map nor was it taken out", what, t)
			}
		}
	}
	c.Obs("tokens stored", moved)
	c.Obs("tokens taken out", len(gone))
	for i := range recs {
		c.Obs("functions computed", recs[i].computes)
		c.Obs("computed values that lost the race and were dropped", recs[i].wasted)
		c.Obs("operations nested inside LoadOrCompute", recs[i].nested)
	}
	c.Obs("operations", g*nops)
	c.Nontrivial(what, seeds)
}

// ------------------------------------------------------------------ M03

type ver struct{ key, n int }

type writeRec struct {
	n          int // -1: deleted
	start, end int64
}

type visitRec struct {
	key, n int
	at     int64
}

var traversals = []string{"Range", "ParallelRange", "SpeculativeRange"}

func traverse(m *psync.Map, name string, f func(k, v any) bool) {
	switch name {
	case "Range":
		m.Range(f)
	case "ParallelRange":
		m.ParallelRange(func(k, v any) { f(k, v) })
	case "SpeculativeRange":
		m.SpeculativeRange(f)
	}
}

func runM03(c *ctx) {
	if c.i%3 == 2 {
		stoppedTraversal(c)
		return
	}
	nsplits := pick([]int{1, 2, 3, 5, 16, 33}, c.IntN(6))
	nstable := c.IntN(40)
	if c.chance(15) {
		nstable = c.between(100, 500)
	}
	if c.chance(6) {
		nstable = 300
	}
	if c.chance(80) {
		nsplits, nstable = c.between(34, 600), c.between(300, 1500)
	}
	nchurn := c.IntN(6)
	spread := 1 + c.IntN(3*nsplits)
	if c.chance(120) {
		nstable, spread = c.between(500, 4000), c.between(1, 3)
	}
	m := psync.NewMap(nsplits)
	keys := make([]mkey, nstable+nchurn)
	for i := range keys {
		keys[i] = mkey{uint64(c.IntN(spread)), i}
	}
	index := map[mkey]int{}
	writes := make([][]writeRec, len(keys))
	for i, k := range keys {
		index[k] = i
		if i < nstable || c.chance(2) {
			t := now()
			m.LoadOrStore(k, ver{i, 0})
			writes[i] = append(writes[i], writeRec{0, t, now()})
		}
	}
	nwriters := c.IntN(3)
	if nchurn > 0 && nwriters == 0 {
		nwriters = 1
	}
	nwrites := c.between(1, 60)
	name := pick(traversals, c.IntN(3))
	ntrav := c.between(1, 3)
	names := make([]string, ntrav)
	for i := range names {
		names[i] = name
		if c.chance(3) {
			names[i] = pick(traversals, c.IntN(3))
		}
	}
	wait := c.delay(false)
	if nstable > 500 {
		wait = delay(0)
	}
	what := fmt.Sprintf("%v of %d stable and %d other keys in %d splits with %d writers", names, nstable, nchurn, nsplits, nwriters)
	c.Describe("%s", what)
	c.Hang("%s", what+": never ends")
	seeds := make([]uint64, nwriters)
	for i := range seeds {
		seeds[i] = c.Uint64()
	}
	type span struct{ call, ret int64 }
	spans := make([]span, ntrav)
	// callbacks of one split never run at the same time, others may
	visits := make([]map[*psync.Split]*[]visitRec, ntrav)
	for t := range visits {
		visits[t] = map[*psync.Split]*[]visitRec{}
		for _, k := range keys {
			if visits[t][m.Split(k)] == nil {
				visits[t][m.Split(k)] = new([]visitRec)
			}
		}
	}
	var bad atomic.Int64
	together(c, ntrav+nwriters, func(i int) {
		if i < ntrav {
			spans[i].call = now()
			returned := new(atomic.Bool)
			traverse(m, names[i], func(k, v any) bool {
				key, ok1 := k.(mkey)
				val, ok2 := v.(ver)
				p := visits[i][m.Split(key)]
				if !ok1 || !ok2 || p == nil {
					if bad.Add(1) == 1 {
						c.Fail("%s: f is called with %v, %v, which was never stored", what, k, v)
					}
					return true
				}
				wait.spend()
				*p = append(*p, visitRec{index[key], val.n, now()})
				if val.key != index[key] {
					c.Fail("%s: f is called with key %d and the value of key %d", what, index[key], val.key)
				}
				if returned.Load() {
					c.Fail("%s: f is running after %s returned", what, names[i])
				}
				return true
			})
			returned.Store(true)
			spans[i].ret = now()
			return
		}
		w := i - ntrav
		rng := newRand(seeds[w])
		// each key has one writer
		var mine []int
		for k := range keys {
			if k%nwriters == w {
				mine = append(mine, k)
			}
		}
		if len(mine) == 0 {
			return
		}
		ver1 := map[int]int{}
		for n := 0; n < nwrites; n++ {
			k := mine[rng.IntN(len(mine))]
			ver1[k]++
			rec := writeRec{n: ver1[k], start: now()}
			if k >= nstable && rng.IntN(2) == 0 {
				rec.n = -1
				m.Delete(keys[k])
			} else {
				m.Modify(keys[k], func(_ any, _ bool) (any, bool) { return ver{k, rec.n}, true })
			}
			rec.end = now()
			writes[k] = append(writes[k], rec)
			if rng.IntN(3) == 0 {
				runtime.Gosched()
			}
		}
	})
	libraryGoroutines(c)
	total := 0
	for t := range visits {
		counts := make([]int, len(keys))
		for _, p := range visits[t] {
			for _, v := range *p {
				total++
				counts[v.key]++
				// was it current at some moment of the traversal?
				ok := false
				for j, w := range writes[v.key] {
					if w.n == v.n && w.start <= v.at {
						if j+1 == len(writes[v.key]) || writes[v.key][j+1].end >= spans[t].call {
							ok = true
						}
					}
				}
				if !ok {
					c.Fail("%s: %s passes version %d of key %d, which the key did not have during the call", what, names[t], v.n, v.key)
				}
			}
		}
		for k, n := range counts {
			switch {
			case n > 1:
				c.Fail("%s: %s visits key %d %d times", what, names[t], k, n)
			case k < nstable && n != 1:
				c.Fail("%s: %s visits key %d, which stays in the map, %d times", what, names[t], k, n)
			}
		}
	}
	c.Obs("callbacks", total)
	c.Obs("traversals", ntrav)
	if nstable+nchurn > 0 {
		c.Nontrivial(what, seeds, spread)
	}
}

// stoppedTraversal: f returns false at some point of a quiescent map.
func stoppedTraversal(c *ctx) {
	nsplits := pick([]int{1, 2, 3, 5, 16, 33}, c.IntN(6))
	m := psync.NewMap(nsplits)
	n := c.between(1, 60)
	if c.chance(15) {
		n = c.between(100, 500)
	}
	spread := 1 + c.IntN(3*nsplits)
	keys := make([]mkey, n)
	for i := range keys {
		keys[i] = mkey{uint64(c.IntN(spread)), i}
		m.LoadOrStore(keys[i], i)
	}
	// the order of the splits, and the keys in each
	place := make([]int, n)
	at := 0
	m.ReduceIntSum(func(s map[any]any) int {
		for _, v := range s {
			place[v.(int)] = at
		}
		at++
		return 0
	})
	name := pick(traversals, 2*c.IntN(2))
	delays := c.delays(n, false)
	counts := make([]atomic.Int32, n)
	if name == "Range" {
		stop := c.between(1, n)
		calls, after := 0, 0
		stopped := false
		what := fmt.Sprintf("Range of %d keys in %d splits, f returns false at its call %d", n, nsplits, stop)
		c.Describe("%s", what)
		c.Hang("%s", what+": never ends")
		id := goid()
		m.Range(func(k, v any) bool {
			if goid() != id {
				c.Fail("%s: f runs in another goroutine", what)
			}
			if counts[v.(int)].Add(1) > 1 {
				c.Fail("%s: visits key %v again", what, k)
			}
			calls++
			if stopped {
				after++
			}
			stopped = stopped || calls == stop
			return !stopped
		})
		if after > 0 || calls != stop {
			c.Fail("%s: %d calls of f in all, %d after it returned false", what, calls, after)
		}
		if left := libraryGoroutines(c); len(left) > 0 {
			c.Fail("%s: leaves a goroutine: %s", what, clip(left[0].text))
		}
		c.Obs("stopped Range calls", 1)
		c.Nontrivial(what, spread)
		return
	}
	// SpeculativeRange: everything in later splits is held, all earlier callbacks continue
	d := c.IntN(n)
	gate := make(chan struct{})
	var held atomic.Int64
	hold := !c.chance(5)
	what := fmt.Sprintf("SpeculativeRange of %d keys in %d splits, f returns false for key %d in split %d, later splits are held: %v", n, nsplits, d, place[d], hold)
	c.Describe("%s", what)
	c.Hang("%s", what+", and the call waits for callbacks in later splits")
	var decided atomic.Bool
	p, panicked := try(func() {
		m.SpeculativeRange(func(_, v any) bool {
			i := v.(int)
			if counts[i].Add(1) > 1 {
				c.Fail("%s: visits key %d again", what, i)
			}
			if place[i] > place[d] && hold {
				held.Add(1)
				<-gate
			}
			delays[i].spend()
			if i == d {
				decided.Store(true)
				return false
			}
			return true
		})
	})
	if panicked {
		c.Fail("%s: panics: %v", what, p)
	}
	if !decided.Load() {
		c.Fail("%s: returned before f returned false and before all keys were visited", what)
	}
	for i := range keys {
		if place[i] < place[d] && counts[i].Load() != 1 {
			c.Fail("%s: returned although key %d in the earlier split %d was visited %d times", what, i, place[i], counts[i].Load())
			break
		}
	}
	c.Obs("callbacks held when SpeculativeRange returned", int(held.Load()))
	close(gate)
	if left := libraryGoroutines(c); len(left) > 0 {
		c.Fail("%s: goroutines never end: %s", what, clip(left[0].text))
	}
	for i := range keys {
		if counts[i].Load() > 1 {
			c.Fail("%s: key %d was visited %d times", what, i, counts[i].Load())
		}
	}
	c.Obs("stopped SpeculativeRange calls", 1)
	if n > 1 {
		c.Nontrivial(what, delays)
	}
}

// ------------------------------------------------------------------ M04

type guard struct {
	busy  atomic.Int32
	plain int
	split int

	counter mkey // of an entry that counts the writes by callbacks
	writes  int
}

type guardMark struct{ g *guard }

type dirtyValue struct{}

func runM04(c *ctx) {
	nsplits := pick([]int{1, 2, 3, 5}, c.IntN(4))
	m := psync.NewMap(nsplits)
	marks := splitKeys(c, m, nsplits, -1)
	if marks == nil {
		c.Fail("some of the %d splits cannot be reached with any key", nsplits)
		return
	}
	guards := map[*psync.Split]*guard{}
	for i, k := range marks {
		g := &guard{split: i}
		guards[m.Split(k)] = g
		m.LoadOrStore(k, guardMark{g})
	}
	for _, k := range splitKeys(c, m, nsplits, -3) {
		guards[m.Split(k)].counter = k
	}
	// work keys and one key per split that is made dirty while the split is held
	nkeys := c.between(1, 3*nsplits)
	keys := make([]mkey, nkeys)
	for i := range keys {
		keys[i] = mkey{uint64(c.IntN(4 * nsplits)), i}
	}
	shadow := splitKeys(c, m, nsplits, -2)
	dirtyOf := map[*psync.Split]mkey{}
	for _, k := range shadow {
		dirtyOf[m.Split(k)] = k
		if c.chance(2) {
			m.LoadOrStore(k, 1)
		}
	}
	c.fill(m, 3)
	g := c.between(2, 6)
	nops := c.between(3, 25)
	seeds := make([]uint64, g)
	for i := range seeds {
		seeds[i] = c.Uint64()
	}
	focus := -1
	if c.chance(2) {
		focus = c.IntN(14)
	}
	slow := c.between(0, 3)
	what := fmt.Sprintf("%d goroutines with %d operations each on %d splits, focus %d", g, nops, nsplits, focus)
	c.Describe("%s", what)
	c.Hang("%s", what+": never ends")
	var entered atomic.Int64
	sections := make([]int, g)
	together(c, g, func(i int) {
		rng := newRand(seeds[i])
		pause := func(r int) {
			switch r & 7 {
			case 0, 1, 2:
				for k := 0; k < slow*3; k++ {
					runtime.Gosched()
				}
			case 3:
				time.Sleep(time.Duration(slow*8) * time.Microsecond)
			}
		}
		// exclusive is what every callback under a split lock does
		exclusive := func(s *psync.Split, sm map[any]any, r int, by string) {
			gd := guards[s]
			if gd == nil {
				c.Fail("%s: %s gives an unknown split", what, by)
				return
			}
			gd.plain++ // the race detector watches this
			if !c.race {
				entered.Add(1)
				if n := gd.busy.Add(1); n != 1 {
					c.Fail("%s: %d users of split %d at the same time, one of them in %s", what, n, gd.split, by)
				}
			}
			if sm != nil {
				k := dirtyOf[s]
				old, ok := sm[k]
				if _, d := old.(dirtyValue); d {
					c.Fail("%s: %s sees what another holder of split %d wrote and took back", what, by, gd.split)
				}
				// writes into the map stay
				count, _ := sm[gd.counter].(int)
				if count != gd.writes {
					c.Fail("%s: %s finds %d instead of %d writes of earlier callbacks in split %d", what, by, count, gd.writes, gd.split)
				}
				gd.writes++
				sm[gd.counter] = gd.writes
				sm[k] = dirtyValue{}
				pause(r)
				if ok {
					sm[k] = old
				} else {
					delete(sm, k)
				}
			} else {
				pause(r)
			}
			if !c.race {
				gd.busy.Add(-1)
			}
		}
		clean := func(v any, by string) {
			if _, d := v.(dirtyValue); d {
				c.Fail("%s: %s sees an entry that exists only while the split is held", what, by)
			}
		}
		for n := 0; n < nops; n++ {
			kind := rng.IntN(14)
			if focus >= 0 && rng.IntN(3) != 0 {
				kind = focus
			}
			r := rng.IntN(1 << 20)
			k := keys[rng.IntN(len(keys))]
			s := m.Split(k)
			sections[i]++
			switch kind {
			case 0, 1:
				m.Modify(k, func(v any, ok bool) (any, bool) {
					exclusive(s, s.Map, r, "Modify")
					return r, r&64 == 0
				})
			case 2:
				m.DeleteOrCompute(k, func() any { exclusive(s, s.Map, r, "DeleteOrCompute"); return r })
			case 3, 4, 5:
				name := traversals[kind-3]
				traverse(m, name, func(key, v any) bool {
					clean(v, name)
					hk, ok := key.(mkey)
					if !ok {
						c.Fail("%s: %s passes key %v", what, name, key)
						return true
					}
					exclusive(m.Split(hk), nil, r, name)
					return r&1024 == 0 || name != "SpeculativeRange"
				})
			case 6, 7, 8, 9:
				fn := mapFns[rng.IntN(len(mapFns))]
				fn.run(m, func(x, y any) (any, bool) { return x, false }, func(sm map[any]any) (any, bool) {
					var gm guardMark
					var mk mkey
					for key, v := range sm {
						if x, ok := v.(guardMark); ok {
							gm, mk = x, key.(mkey)
						}
						clean(v, fn.name)
					}
					if gm.g == nil {
						c.Fail("%s: %s passes a map that is not the content of a split", what, fn.name)
						return c.encIval(fn.elem, ival{}), fn.op == "and"
					}
					exclusive(m.Split(mk), sm, r, fn.name)
					return c.encIval(fn.elem, ival{}), fn.op == "and"
				})
			case 10:
				s.Lock()
				exclusive(s, s.Map, r, "the owner of a Split")
				s.Unlock()
			case 11:
				s.RLock()
				gd := guards[s]
				p1 := gd.plain
				a, ok1 := s.Map[k]
				clean(s.Map[dirtyOf[s]], "a reader of a Split")
				pause(r)
				b, ok2 := s.Map[k]
				if a != b || ok1 != ok2 || p1 != gd.plain {
					c.Fail("%s: entry of key %v changes from %v to %v while the split is locked for reading", what, k, a, b)
				}
				s.RUnlock()
			case 12:
				d := dirtyOf[s]
				switch rng.IntN(5) {
				case 0:
					v, _ := m.LoadOrStore(d, 1)
					clean(v, "LoadOrStore")
				case 1:
					v, _ := m.LoadOrCompute(d, func() any { return 1 })
					clean(v, "LoadOrCompute")
				case 2:
					v, _ := m.DeleteOrStore(d, 1)
					clean(v, "DeleteOrStore")
				case 3:
					m.Delete(d)
				case 4:
					m.Modify(d, func(v any, ok bool) (any, bool) { clean(v, "Modify"); return 1, true })
				}
			case 13:
				v, _ := m.Load(dirtyOf[s])
				clean(v, "Load")
				m.Load(k)
			}
		}
	})
	libraryGoroutines(c)
	for _, k := range marks {
		if v, ok := m.Load(k); !ok || v.(guardMark).g != guards[m.Split(k)] {
			c.Fail("%s: an entry that nobody touched is gone: %v", what, v)
		}
	}
	n := 0
	for _, s := range sections {
		n += s
	}
	c.Obs("operations", n)
	c.Obs("exclusive sections watched for overlap", int(entered.Load()))
	c.Nontrivial(what, seeds)
}

// fill adds up to n entries that nobody touches again, sometimes many more.
func (c *ctx) fill(m *psync.Map, n int) {
	n = c.IntN(n + 1)
	if c.chance(12) {
		n = c.between(100, 600)
	}
	for i := 0; i < n; i++ {
		m.LoadOrStore(mkey{c.Uint64(), 1000000 + i}, i)
	}
}

// ------------------------------------------------------------------ M05

type splitIndex int

func runM05(c *ctx) {
	fn := pick(mapFns, c.i)
	k := pick([]int{1, 2, 3, 4, 5, 7, 8, 16, 17, 31, 40}, c.IntN(11))
	if c.chance(8) {
		k = c.between(41, 120)
	} else if c.chance(60) {
		k = c.between(121, 1100)
	}
	m := psync.NewMap(k)
	marks := splitKeys(c, m, k, -1)
	if marks == nil {
		c.Fail("some of the %d splits cannot be reached with any key", k)
		return
	}
	for _, key := range marks {
		m.LoadOrStore(key, splitIndex(-1))
	}
	c.fill(m, 60)
	// number the splits in the order in which the sequential Reduce visits them
	at := 0
	bad := ""
	mark := func(s map[any]any) (mkey, splitIndex, bool) {
		for key, v := range s {
			if x, ok := v.(splitIndex); ok {
				return key.(mkey), x, true
			}
		}
		return mkey{}, 0, false
	}
	m.Reduce(func(s map[any]any) any {
		key, x, ok := mark(s)
		if !ok || x != -1 {
			bad = fmt.Sprintf("Reduce passes a split twice or a map that is not a split (%d of %d)", at, k)
			return nil
		}
		s[key] = splitIndex(at)
		at++
		return nil
	}, func(x, y any) any { return nil })
	if at != k && bad == "" {
		bad = fmt.Sprintf("Reduce visits %d splits of %d", at, k)
	}
	if bad != "" {
		c.Fail("%s", bad)
		return
	}
	if fn.pkg == "speculative" && c.chance(3) {
		heldSplits(c, fn, m, k, mark)
		return
	}
	// what each split does
	c.zeroPart(k)
	plan := c.specPlan(k, fn.pkg == "speculative" && fn.op == "join")
	canDecide := fn.op == "and" || fn.op == "or" || fn.pkg == "speculative"
	for i := range plan.leaf {
		if plan.leaf[i] == decides && !canDecide {
			plan.leaf[i] = plain
		}
	}
	intervals := fn.op == "join" || canDecide
	vals := make([]any, k)
	for i := range vals {
		vals[i] = genValue(c.Rand, fn.elem, fn.op, i)
	}
	// values that decide the result do not excuse ignoring the others
	c.specials(fn.elem, fn.op, vals)
	delays := c.delays(k, true)
	decisive := fn.op != "and"
	what := fmt.Sprintf("%s of %d splits (%v), delays %v", fn.name, k, plan, clip(fmt.Sprint(delays)))
	c.Describe("%s", what)
	c.Hang("%s", what+": never ends")
	seen := make([]slot, k)
	visits := make([]atomic.Int32, k) // for speculative calls, which abandon callbacks
	order := make([]int, 0, k)
	id := goid()
	var mu sync.Mutex
	type event struct{ lo, hi, mid, action int }
	var joins []event
	badJoin := ""
	f := func(s map[any]any) (any, bool) {
		_, x, ok := mark(s)
		i := int(x)
		if !ok || i < 0 || i >= k {
			c.Fail("%s: passes a map that is not the content of a split", what)
			return nil, false
		}
		seen[i].done++ // the race detector watches this
		if fn.pkg == "sequential" {
			order = append(order, i)
			if goid() != id {
				c.Fail("%s: runs a callback in another goroutine", what)
			}
		}
		if fn.pkg == "speculative" {
			visits[i].Add(1)
		}
		delays[i].spend()
		seen[i].started = 1
		switch plan.leaf[i] {
		case decides:
			return c.encIval(fn.elem, ival{i, i, 1}), decisive
		case panics_:
			doPanic(plan.kinds[i], i)
		}
		if !intervals {
			return vals[i], false
		}
		return c.encIval(fn.elem, ival{i, i + 1, 0}), !decisive
	}
	join := func(x, y any) (any, bool) {
		a, ok1 := c.decIval(fn.elem, x)
		b, ok2 := c.decIval(fn.elem, y)
		mu.Lock()
		if badJoin == "" && (!ok1 || !ok2 || a.flag != 0 || b.flag != 0 || a.hi != b.lo || a.lo >= a.hi || b.lo >= b.hi) {
			badJoin = fmt.Sprintf("join is called with %+v and %+v, which are not the values of two adjacent parts", a, b)
		}
		action := plain
		if ok1 && ok2 && a.hi >= 0 && a.hi < k {
			action = plan.join[a.hi]
		}
		if action != plain {
			joins = append(joins, event{a.lo, b.hi, a.hi, action})
		}
		mu.Unlock()
		switch action {
		case decides:
			return c.encIval(fn.elem, ival{a.lo, b.hi, 2}), true
		case panics_:
			doPanic("error", joinMarker+a.hi)
		}
		return c.encIval(fn.elem, ival{a.lo, b.hi, 0}), false
	}
	var got any
	var gotB bool
	p, panicked := try(func() { got, gotB = fn.run(m, join, f) })
	if fn.pkg == "speculative" {
		// abandoned callbacks may still be running
		mu.Lock()
	}
	best := event{lo: k + 1}
	decided := false
	firstPanic, firstEvent := -1, -1
	for i, a := range plan.leaf {
		if a != plain && firstEvent < 0 {
			firstEvent = i
			best = event{i, i + 1, -1, a}
		}
	}
	for _, e := range joins {
		if e.lo < best.lo {
			best = e
		}
	}
	bj := badJoin
	if fn.pkg == "speculative" {
		mu.Unlock()
	}
	if bj != "" {
		c.Fail("%s: %s", what, bj)
	}
	switch fn.pkg {
	case "sequential":
		// in order, up to the first event
		n := k
		if firstEvent >= 0 {
			n = firstEvent + 1
		}
		for i := range order {
			if order[i] != i {
				c.Fail("%s: visits the splits in the order %v", what, order)
				break
			}
		}
		if len(order) != n {
			c.Fail("%s: visits %d splits instead of %d", what, len(order), n)
		}
	case "parallel":
		for i := range seen {
			if seen[i].started == 1 && plan.leaf[i] == panics_ && firstPanic < 0 {
				firstPanic = i
			}
			if seen[i].started == 1 && plan.leaf[i] == decides {
				decided = true
			}
			if seen[i].done > 1 || (firstEvent < 0 || !canDecide) && seen[i].done != 1 {
				c.Fail("%s: split %d is visited %d times", what, i, seen[i].done)
				break
			}
		}
		switch {
		case firstPanic >= 0:
			best = event{firstPanic, firstPanic + 1, -1, panics_}
		case decided:
			best.action = decides
		case firstEvent >= 0:
			c.Fail("%s: split %d was not visited although no split decides before it", what, firstEvent)
		}
	case "speculative":
		if best.action == plain {
			for i := range seen {
				if seen[i].done != 1 {
					c.Fail("%s: split %d is visited %d times", what, i, seen[i].done)
					break
				}
			}
		}
	}
	switch best.action {
	case plain:
		c.Obs("calls without decision or panic", 1)
		if panicked {
			c.Fail("%s: panics with %s", what, clip(fmt.Sprint(p)))
			break
		}
		switch {
		case fn.op == "and" || fn.op == "or":
			if gotB == decisive {
				c.Fail("%s: returns %v although no split decides", what, gotB)
			}
		case intervals:
			if v, ok := c.decIval(fn.elem, got); !ok || v != (ival{0, k, 0}) {
				c.Fail("%s: returns %v (%+v), not the combination of all splits in order", what, got, v)
			}
			if gotB && fn.pkg == "speculative" {
				c.Fail("%s: reports a decision", what)
			}
		default:
			if want := fold(fn.elem, fn.op, vals); !same(got, want) {
				c.Fail("%s: returns %v instead of %v for %v", what, got, want, vals)
			}
		}
	case decides:
		c.Obs("calls with a decision", 1)
		if panicked {
			c.Fail("%s: panics with %s, the outcome is the decision at %+v", what, clip(fmt.Sprint(p)), best)
			break
		}
		if gotB != decisive {
			c.Fail("%s: returns %v, %v although %+v decides", what, got, gotB, best)
		}
		if fn.op == "join" {
			want := ival{best.lo, best.lo, 1}
			if best.mid >= 0 {
				want = ival{best.lo, best.hi, 2}
			}
			if v, ok := c.decIval(fn.elem, got); !ok || v != want {
				c.Fail("%s: returns %v (%+v), the left-most decision is %+v", what, got, v, want)
			}
		}
	default:
		c.Obs("calls with a panic", 1)
		if !panicked {
			c.Fail("%s: returns %v, %v, the outcome is the panic at %+v", what, got, gotB, best)
			break
		}
		want, kind := best.lo, "error"
		if best.mid >= 0 {
			want = joinMarker + best.mid
		} else {
			kind = plan.kinds[want]
		}
		if msg := checkPanic(p, want, kind); msg != "" {
			c.Fail("%s: %s", what, msg)
		}
	}
	if left := libraryGoroutines(c); len(left) > 0 {
		c.Fail("%s: goroutines never end: %s", what, clip(left[0].text))
	}
	visited := 0
	for i := range seen {
		n := int(visits[i].Load())
		if fn.pkg != "speculative" {
			n = seen[i].done
		}
		visited += n
		if n > 1 {
			c.Fail("%s: split %d is visited %d times", what, i, n)
		}
	}
	c.Obs("splits visited", visited)
	if k > 1 {
		c.Nontrivial(fn.name, k, plan.String(), delays)
	}
}

// heldSplits: a speculative method returns although everything right of the
// deciding split is held.
func heldSplits(c *ctx, fn *mapFn, m *psync.Map, k int, mark func(map[any]any) (mkey, splitIndex, bool)) {
	d := pick([]int{0, k / 2, k - 1, c.IntN(k)}, c.IntN(4))
	c.zeroPart(k)
	gate := make(chan struct{})
	var held atomic.Int64
	decisive := fn.op != "and"
	counts := make([]atomic.Int32, k)
	late := c.IntN(3)
	what := fmt.Sprintf("%s of %d splits, split %d decides, all later splits are held", fn.name, k, d)
	c.Describe("%s", what)
	c.Hang("%s", what+", and the call waits for them")
	var got any
	var gotB bool
	p, panicked := try(func() {
		got, gotB = fn.run(m, func(x, y any) (any, bool) {
			a, _ := c.decIval(fn.elem, x)
			b, _ := c.decIval(fn.elem, y)
			return c.encIval(fn.elem, ival{a.lo, b.hi, 0}), false
		}, func(s map[any]any) (any, bool) {
			_, x, _ := mark(s)
			i := int(x)
			counts[i].Add(1)
			switch {
			case i > d:
				held.Add(1)
				<-gate
				switch late {
				case 0:
					panic("late " + marker(i))
				case 1:
					return c.encIval(fn.elem, ival{i, i, 1}), decisive
				}
			case i == d:
				return c.encIval(fn.elem, ival{i, i, 1}), decisive
			}
			return c.encIval(fn.elem, ival{i, i + 1, 0}), !decisive
		})
	})
	check := func() {
		switch {
		case panicked:
			c.Fail("%s: panics with %s", what, clip(fmt.Sprint(p)))
		case gotB != decisive:
			c.Fail("%s: returns %v, %v", what, got, gotB)
		case fn.op == "join":
			if v, ok := c.decIval(fn.elem, got); !ok || v != (ival{d, d, 1}) {
				c.Fail("%s: returns %v (%+v)", what, got, v)
			}
		}
	}
	check()
	c.Obs("splits held when a speculative call returned", int(held.Load()))
	close(gate)
	if left := libraryGoroutines(c); len(left) > 0 {
		c.Fail("%s: goroutines never end: %s", what, clip(left[0].text))
	}
	check()
	for i := range counts {
		if counts[i].Load() > 1 {
			c.Fail("%s: split %d is visited %d times", what, i, counts[i].Load())
		}
	}
	c.Obs("speculative calls with held splits", 1)
	if k > 1 {
		c.Nontrivial("held", fn.name, k, d, late)
	}
}

// ------------------------------------------------------------------ M06

func runM06(c *ctx) {
	nsplits := pick([]int{1, 2, 3, 5, 16, 33}, c.IntN(6))
	m := psync.NewMap(nsplits)
	n := c.between(1, 40)
	if c.chance(15) {
		n = c.between(100, 400)
	}
	keys := make([]mkey, n)
	want := map[any]any{}
	for i := range keys {
		keys[i] = mkey{uint64(c.IntN(3*nsplits + 1)), i}
		m.LoadOrStore(keys[i], i)
		want[keys[i]] = i
	}
	// other goroutines keep working on their own keys
	nworkers := c.IntN(3)
	work := make([]mkey, nworkers)
	for i := range work {
		work[i] = mkey{uint64(c.IntN(3*nsplits + 1)), 1000 + i}
	}
	nmethods := len(mapFns) + 6
	rounds := c.between(1, 4)
	var names []string
	methods := make([]int, rounds)
	points := make([]int, rounds)
	kinds := make([]string, rounds)
	all := make([]bool, rounds)
	for r := range methods {
		methods[r] = c.IntN(nmethods)
		if r == 0 {
			methods[r] = c.i % nmethods
		}
		points[r] = c.IntN(3)
		if c.chance(3) {
			points[r] = c.IntN(n + 1)
		}
		all[r] = c.chance(3)
		kinds[r] = pick(panicKinds, c.IntN(len(panicKinds)))
		switch i := methods[r] - len(mapFns); {
		case i < 0:
			names = append(names, mapFns[methods[r]].name)
		default:
			names = append(names, pick([]string{"Modify", "LoadOrCompute", "DeleteOrCompute", "Range", "ParallelRange", "SpeculativeRange"}, i))
		}
	}
	what := fmt.Sprintf("panics in callbacks of %v at their call %v, map of %d keys in %d splits, %d other goroutines", names, points, n, nsplits, nworkers)
	c.Describe("%s", what)
	c.Hang("%s", what+": an operation blocks for ever after a callback panicked")
	var stop atomic.Bool
	done := make([]int, nworkers)
	delays := c.delays(8, false)
	thrown := 0
	together(c, 1+nworkers, func(g int) {
		if g > 0 {
			for k := 0; k < 2000 && (!stop.Load() || k < 3); k++ {
				m.Modify(work[g-1], func(v any, _ bool) (any, bool) {
					old, _ := v.(int)
					return old + 1, true
				})
				done[g-1]++
				if k%16 == 0 {
					runtime.Gosched()
				}
			}
			return
		}
		defer stop.Store(true)
		for r := range methods {
			var calls, panics atomic.Int64
			boom := func() {
				k := int(calls.Add(1)) - 1
				delays[k%len(delays)].spend()
				if k == points[r] || all[r] && k >= points[r] {
					panics.Add(1)
					doPanic(kinds[r], r)
				}
			}
			p, panicked := try(func() {
				switch names[r] {
				case "Modify":
					points[r] = 0
					m.Modify(keys[r%n], func(any, bool) (any, bool) { boom(); return "wrong", r%2 == 0 })
				case "LoadOrCompute":
					points[r] = 0
					m.LoadOrCompute(mkey{keys[r%n].h, 5000}, func() any { boom(); return "wrong" })
				case "DeleteOrCompute":
					points[r] = 0
					m.DeleteOrCompute(mkey{keys[r%n].h, 5000}, func() any { boom(); return "wrong" })
				case "Range", "ParallelRange", "SpeculativeRange":
					traverse(m, names[r], func(_, _ any) bool { boom(); return true })
				default:
					fn := mapFns[methods[r]]
					fn.run(m, func(x, y any) (any, bool) { return x, false }, func(map[any]any) (any, bool) {
						boom()
						return c.encIval(fn.elem, ival{}), fn.op == "and"
					})
				}
			})
			if panicked != (panics.Load() > 0) {
				c.Fail("%s: %d callbacks of %s panicked, and the call panicked: %v", what, panics.Load(), names[r], panicked)
			}
			if panicked {
				thrown++
				if msg := checkPanic(p, r, kinds[r]); msg != "" {
					c.Fail("%s: %s: %s", what, names[r], msg)
				}
			}
		}
	})
	if left := libraryGoroutines(c); len(left) > 0 {
		c.Fail("%s: goroutines never end: %s", what, clip(left[0].text))
	}
	// every lock is free
	seen := map[*psync.Split]bool{}
	for h := uint64(0); h < uint64(3*nsplits+1); h++ {
		s := m.Split(mkey{h, 0})
		if seen[s] {
			continue
		}
		seen[s] = true
		if !s.TryLock() {
			c.Fail("%s: a split is still locked", what)
			return
		}
		s.Unlock()
	}
	c.Obs("split locks found free", len(seen))
	for i := range work {
		want[work[i]] = done[i]
	}
	got := map[any]any{}
	m.Range(func(k, v any) bool { got[k] = v; return true })
	if len(got) != len(want) {
		c.Fail("%s: the map has %d entries instead of %d", what, len(got), len(want))
	}
	for k, v := range want {
		if got[k] != v {
			c.Fail("%s: the value of key %v is %v instead of %v", what, k, got[k], v)
			break
		}
	}
	// everything still works
	for i, k := range keys {
		if v, ok := m.Load(k); !ok || v != i {
			c.Fail("%s: Load afterwards returns %v, %v", what, v, ok)
		}
		m.Modify(k, func(v any, ok bool) (any, bool) { return v.(int) + 1, true })
		if v, del := m.DeleteOrStore(k, 0); !del || v != i+1 {
			c.Fail("%s: DeleteOrStore afterwards returns %v, %v instead of %d, true", what, v, del, i+1)
		}
	}
	if s := countSplits(m); s != nsplits {
		c.Fail("%s: a reduction afterwards visits %d splits", what, s)
	}
	c.Obs("panics recovered", thrown)
	if thrown > 0 {
		c.Nontrivial(names, points, kinds, n, nsplits, nworkers)
	}
}

// ------------------------------------------------------------------ M07

func runM07(c *ctx) {
	size := pick([]int{1, 2, 3, 4, 7, 8, 16, 100, 1000, -1, 0, math.MinInt}, c.IntN(12))
	if c.chance(3) {
		size = c.between(1, 70)
	}
	procs := runtime.GOMAXPROCS(0)
	if size <= 0 && c.chance(2) {
		procs = c.between(1, 20)
		runtime.GOMAXPROCS(procs)
	}
	m := psync.NewMap(size)
	n := size
	if size <= 0 {
		n = procs
	}
	if size <= 0 {
		runtime.GOMAXPROCS(baseProcs)
	}
	hash := func() uint64 {
		switch c.IntN(6) {
		case 0:
			return 0
		case 1:
			return math.MaxUint64 - uint64(c.IntN(3))
		case 2:
			return 1<<63 + uint64(c.IntN(3)) - 1
		case 3:
			return uint64(c.IntN(2*n + 1))
		case 4:
			return uint64(n) * (math.MaxUint64 / uint64(n) / 2)
		default:
			return c.Uint64()
		}
	}
	what := fmt.Sprintf("map of size %d", size)
	if got := countSplits(m); got != n {
		c.Fail("%s: has %d splits instead of %d", what, got, n)
		return
	}
	type entry struct {
		key, again psync.Hasher // equal keys
		val        int
	}
	nkeys := c.between(1, 30)
	if c.chance(15) {
		nkeys = c.between(100, 400)
	}
	var es []entry
	for i := 0; i < nkeys; i++ {
		h := hash()
		var e entry
		switch c.IntN(5) {
		case 0, 1:
			e = entry{key: mkey{h, i}, again: mkey{h, i}}
		case 2:
			e = entry{key: keyA(h>>1 + uint64(i)), again: keyA(h>>1 + uint64(i))}
			// the same number as another type is another key
			es = append(es, entry{key: keyB(h>>1 + uint64(i)), again: keyB(h>>1 + uint64(i)), val: 100 + i})
		case 3:
			p := &keyP{h}
			e = entry{key: p, again: p}
		case 4:
			s := fmt.Sprint("key ", i, h)
			e = entry{key: keyS(s), again: keyS(strings.Clone(s))}
		}
		e.val = i
		es = append(es, e)
	}
	seen := map[any]bool{}
	kept := es[:0]
	for _, e := range es {
		if !seen[e.key] {
			seen[e.key] = true
			kept = append(kept, e)
		}
	}
	es = kept
	c.Describe("%s with %d keys", what, len(es))
	c.Hang("%s", what+": an operation on one split blocks while another split is locked")
	model := map[any]any{}
	where := func(key psync.Hasher) *psync.Split {
		s := m.Split(key)
		if s == nil {
			c.Fail("%s: Split returns nil", what)
			panic("no split")
		}
		return s
	}
	for _, e := range es {
		s := where(e.key)
		for k := 0; k < 3; k++ {
			if where(e.again) != s {
				c.Fail("%s: Split returns different splits for equal keys %v", what, e.key)
			}
		}
		if len(es) < 10 && len(model) == 0 {
			if _, ok := m.Load(e.key); ok {
				c.Fail("%s: a new map has key %v", what, e.key)
			}
		}
	}
	// random operations, alternately through the map and through the split
	for k := 0; k < 4*len(es); k++ {
		e := es[c.IntN(len(es))]
		s := where(e.key)
		before, had := model[e.key]
		val := c.IntN(1000)
		switch op := c.IntN(9); op {
		case 0:
			if v, ok := m.Load(e.again); ok != had || v != before {
				c.Fail("%s: Load(%v) returns %v, %v instead of %v, %v", what, e.key, v, ok, before, had)
			}
		case 1:
			v, ok := m.LoadOrStore(e.again, val)
			if !had {
				model[e.key] = val
			}
			if ok != had || v != model[e.key] {
				c.Fail("%s: LoadOrStore(%v) returns %v, %v", what, e.key, v, ok)
			}
		case 2:
			v, ok := m.LoadOrCompute(e.again, func() any { return val })
			if !had {
				model[e.key] = val
			}
			if ok != had || v != model[e.key] {
				c.Fail("%s: LoadOrCompute(%v) returns %v, %v", what, e.key, v, ok)
			}
		case 3:
			m.Delete(e.again)
			delete(model, e.key)
		case 4, 5:
			var v any
			var ok bool
			if op == 4 {
				v, ok = m.DeleteOrStore(e.again, val)
			} else {
				v, ok = m.DeleteOrCompute(e.again, func() any { return val })
			}
			if had {
				delete(model, e.key)
				if !ok || v != before {
					c.Fail("%s: deleting %v returns %v, %v instead of %v, true", what, e.key, v, ok, before)
				}
			} else {
				model[e.key] = val
				if ok || v != val {
					c.Fail("%s: storing %v returns %v, %v", what, e.key, v, ok)
				}
			}
		case 6:
			m.Modify(e.again, func(v any, ok bool) (any, bool) {
				if ok != had || v != before {
					c.Fail("%s: Modify(%v) passes %v, %v instead of %v, %v", what, e.key, v, ok, before, had)
				}
				if val%3 == 0 {
					delete(model, e.key)
					return nil, false
				}
				model[e.key] = val
				return val, true
			})
		case 7:
			s.Lock()
			s.Map[e.key] = val
			s.Unlock()
			model[e.key] = val
		case 8:
			s.Lock()
			delete(s.Map, e.key)
			s.Unlock()
			delete(model, e.key)
		}
		s.RLock()
		v, ok := s.Map[e.again]
		s.RUnlock()
		w, has := model[e.key]
		if ok != has || v != w {
			c.Fail("%s: the split of key %v has %v, %v instead of %v, %v", what, e.key, v, ok, w, has)
			return
		}
	}
	// nothing else is anywhere in the map
	got := 0
	m.Range(func(k, v any) bool {
		got++
		if w, ok := model[k]; !ok || v != w {
			c.Fail("%s: the map has %v for key %v instead of %v", what, v, k, w)
		}
		where(k.(psync.Hasher))
		if v2 := where(k.(psync.Hasher)).Map[k]; v2 != v {
			c.Fail("%s: key %v is not in its own split", what, k)
		}
		return true
	})
	if got != len(model) {
		c.Fail("%s: the map has %d entries instead of %d", what, got, len(model))
	}
	c.Obs("operations", 4*len(es))
	// a locked split does not block the others
	held := es[c.IntN(len(es))]
	hs := where(held.key)
	hs.Lock()
	passed := 0
	for _, e := range es {
		if where(e.key) == hs {
			continue
		}
		passed++
		m.LoadOrStore(e.key, 1)
		m.Load(e.key)
		m.Modify(e.key, func(v any, ok bool) (any, bool) { return 2, true })
		m.DeleteOrStore(e.key, 3)
		m.DeleteOrCompute(e.key, func() any { return 4 })
		m.LoadOrCompute(e.key, func() any { return 5 })
		m.Delete(e.key)
	}
	hs.Unlock()
	c.Obs("keys operated on while another split was locked", passed)
	if len(es) > 1 {
		c.Nontrivial(size, procs, len(es), model)
	}
}
