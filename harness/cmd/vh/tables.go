package main

// Uniform access to all functions of packages parallel, sequential and
// speculative and to the aggregate methods of sync.Map: every user function
// becomes func() (any, bool), every join func(x, y any) (any, bool). The bool
// is only used by speculative functions. Written by hand in spirit, generated
// in fact, since there are 90 of them.

import (
	"github.com/exascience/pargo/parallel"
	"github.com/exascience/pargo/sequential"
	"github.com/exascience/pargo/speculative"
	psync "github.com/exascience/pargo/sync"
)

// varFn is a function that takes functions.
type varFn struct {
	pkg, name, elem, op string // op: join, sum, prod, and, or, do
	min                 int    // least number of functions
	run                 func(join joinFn, fs []leafFn) (any, bool)
}

// rangeFn is a function that takes a range.
type rangeFn struct {
	pkg, name, elem, op string
	run                 func(low, high, n int, join joinFn, f batchFn) (any, bool)
}

// mapFn is an aggregate method of sync.Map.
type mapFn struct {
	pkg, name, elem, op string // pkg: sequential, parallel, speculative
	run                 func(m *psync.Map, join joinFn, f splitFn) (any, bool)
}

type (
	leafFn  = func() (any, bool)
	joinFn  = func(x, y any) (any, bool)
	batchFn = func(low, high int) (any, bool)
	splitFn = func(map[any]any) (any, bool)
)

func conv[T any](x any) T {
	if x == nil {
		var zero T
		return zero
	}
	return x.(T)
}

func leaf1[T any](f leafFn) func() T { return func() T { v, _ := f(); return conv[T](v) } }
func leaf2[T any](f leafFn) func() (T, bool) {
	return func() (T, bool) { v, b := f(); return conv[T](v), b }
}
func leafB(f leafFn) func() bool { return func() bool { _, b := f(); return b } }
func leaf0(f leafFn) func()      { return func() { f() } }
func leaves[F any](conv func(leafFn) F, fs []leafFn) []F {
	var r []F
	for _, f := range fs {
		r = append(r, conv(f))
	}
	return r
}
func join1[T any](j joinFn) func(x, y T) T {
	return func(x, y T) T { v, _ := j(x, y); return conv[T](v) }
}
func join2[T any](j joinFn) func(x, y T) (T, bool) {
	return func(x, y T) (T, bool) { v, b := j(x, y); return conv[T](v), b }
}
func batch1[T any](f batchFn) func(low, high int) T {
	return func(low, high int) T { v, _ := f(low, high); return conv[T](v) }
}
func batch2[T any](f batchFn) func(low, high int) (T, bool) {
	return func(low, high int) (T, bool) { v, b := f(low, high); return conv[T](v), b }
}
func batchB(f batchFn) func(low, high int) bool {
	return func(low, high int) bool { _, b := f(low, high); return b }
}
func split1[T any](f splitFn) func(map[any]any) T {
	return func(m map[any]any) T { v, _ := f(m); return conv[T](v) }
}
func split2[T any](f splitFn) func(map[any]any) (T, bool) {
	return func(m map[any]any) (T, bool) { v, b := f(m); return conv[T](v), b }
}
func splitB(f splitFn) func(map[any]any) bool {
	return func(m map[any]any) bool { _, b := f(m); return b }
}
func pair[T any](v T, b bool) (any, bool) { return v, b }

var varFns = []*varFn{
	{"parallel", "Reduce", "any", "join", 1, func(join joinFn, fs []leafFn) (any, bool) {
		l := leaves(leaf1[any], fs)
		return parallel.Reduce(join1[any](join), l[0], l[1:]...), false
	}},
	{"parallel", "ReduceFloat64", "float64", "join", 1, func(join joinFn, fs []leafFn) (any, bool) {
		l := leaves(leaf1[float64], fs)
		return parallel.ReduceFloat64(join1[float64](join), l[0], l[1:]...), false
	}},
	{"parallel", "ReduceInt", "int", "join", 1, func(join joinFn, fs []leafFn) (any, bool) {
		l := leaves(leaf1[int], fs)
		return parallel.ReduceInt(join1[int](join), l[0], l[1:]...), false
	}},
	{"parallel", "ReduceString", "string", "join", 1, func(join joinFn, fs []leafFn) (any, bool) {
		l := leaves(leaf1[string], fs)
		return parallel.ReduceString(join1[string](join), l[0], l[1:]...), false
	}},
	{"parallel", "ReduceFloat64Sum", "float64", "sum", 0, func(_ joinFn, fs []leafFn) (any, bool) {
		return parallel.ReduceFloat64Sum(leaves(leaf1[float64], fs)...), false
	}},
	{"parallel", "ReduceFloat64Product", "float64", "prod", 0, func(_ joinFn, fs []leafFn) (any, bool) {
		return parallel.ReduceFloat64Product(leaves(leaf1[float64], fs)...), false
	}},
	{"parallel", "ReduceIntSum", "int", "sum", 0, func(_ joinFn, fs []leafFn) (any, bool) {
		return parallel.ReduceIntSum(leaves(leaf1[int], fs)...), false
	}},
	{"parallel", "ReduceIntProduct", "int", "prod", 0, func(_ joinFn, fs []leafFn) (any, bool) {
		return parallel.ReduceIntProduct(leaves(leaf1[int], fs)...), false
	}},
	{"parallel", "ReduceStringSum", "string", "sum", 0, func(_ joinFn, fs []leafFn) (any, bool) {
		return parallel.ReduceStringSum(leaves(leaf1[string], fs)...), false
	}},
	{"parallel", "Do", "none", "do", 0, func(_ joinFn, fs []leafFn) (any, bool) {
		parallel.Do(leaves(leaf0, fs)...)
		return nil, false
	}},
	{"parallel", "And", "bool", "and", 0, func(_ joinFn, fs []leafFn) (any, bool) {
		b := parallel.And(leaves(leafB, fs)...)
		return b, b
	}},
	{"parallel", "Or", "bool", "or", 0, func(_ joinFn, fs []leafFn) (any, bool) {
		b := parallel.Or(leaves(leafB, fs)...)
		return b, b
	}},
	{"sequential", "Reduce", "any", "join", 1, func(join joinFn, fs []leafFn) (any, bool) {
		l := leaves(leaf1[any], fs)
		return sequential.Reduce(join1[any](join), l[0], l[1:]...), false
	}},
	{"sequential", "ReduceFloat64", "float64", "join", 1, func(join joinFn, fs []leafFn) (any, bool) {
		l := leaves(leaf1[float64], fs)
		return sequential.ReduceFloat64(join1[float64](join), l[0], l[1:]...), false
	}},
	{"sequential", "ReduceInt", "int", "join", 1, func(join joinFn, fs []leafFn) (any, bool) {
		l := leaves(leaf1[int], fs)
		return sequential.ReduceInt(join1[int](join), l[0], l[1:]...), false
	}},
	{"sequential", "ReduceString", "string", "join", 1, func(join joinFn, fs []leafFn) (any, bool) {
		l := leaves(leaf1[string], fs)
		return sequential.ReduceString(join1[string](join), l[0], l[1:]...), false
	}},
	{"sequential", "ReduceFloat64Sum", "float64", "sum", 0, func(_ joinFn, fs []leafFn) (any, bool) {
		return sequential.ReduceFloat64Sum(leaves(leaf1[float64], fs)...), false
	}},
	{"sequential", "ReduceFloat64Product", "float64", "prod", 0, func(_ joinFn, fs []leafFn) (any, bool) {
		return sequential.ReduceFloat64Product(leaves(leaf1[float64], fs)...), false
	}},
	{"sequential", "ReduceIntSum", "int", "sum", 0, func(_ joinFn, fs []leafFn) (any, bool) {
		return sequential.ReduceIntSum(leaves(leaf1[int], fs)...), false
	}},
	{"sequential", "ReduceIntProduct", "int", "prod", 0, func(_ joinFn, fs []leafFn) (any, bool) {
		return sequential.ReduceIntProduct(leaves(leaf1[int], fs)...), false
	}},
	{"sequential", "ReduceStringSum", "string", "sum", 0, func(_ joinFn, fs []leafFn) (any, bool) {
		return sequential.ReduceStringSum(leaves(leaf1[string], fs)...), false
	}},
	{"sequential", "Do", "none", "do", 0, func(_ joinFn, fs []leafFn) (any, bool) {
		sequential.Do(leaves(leaf0, fs)...)
		return nil, false
	}},
	{"sequential", "And", "bool", "and", 0, func(_ joinFn, fs []leafFn) (any, bool) {
		b := sequential.And(leaves(leafB, fs)...)
		return b, b
	}},
	{"sequential", "Or", "bool", "or", 0, func(_ joinFn, fs []leafFn) (any, bool) {
		b := sequential.Or(leaves(leafB, fs)...)
		return b, b
	}},
	{"speculative", "Reduce", "any", "join", 1, func(join joinFn, fs []leafFn) (any, bool) {
		l := leaves(leaf2[any], fs)
		return pair(speculative.Reduce(join2[any](join), l[0], l[1:]...))
	}},
	{"speculative", "ReduceFloat64", "float64", "join", 1, func(join joinFn, fs []leafFn) (any, bool) {
		l := leaves(leaf2[float64], fs)
		return pair(speculative.ReduceFloat64(join2[float64](join), l[0], l[1:]...))
	}},
	{"speculative", "ReduceInt", "int", "join", 1, func(join joinFn, fs []leafFn) (any, bool) {
		l := leaves(leaf2[int], fs)
		return pair(speculative.ReduceInt(join2[int](join), l[0], l[1:]...))
	}},
	{"speculative", "ReduceString", "string", "join", 1, func(join joinFn, fs []leafFn) (any, bool) {
		l := leaves(leaf2[string], fs)
		return pair(speculative.ReduceString(join2[string](join), l[0], l[1:]...))
	}},
	{"speculative", "Do", "bool", "or", 0, func(_ joinFn, fs []leafFn) (any, bool) {
		b := speculative.Do(leaves(leafB, fs)...)
		return b, b
	}},
	{"speculative", "And", "bool", "and", 0, func(_ joinFn, fs []leafFn) (any, bool) {
		b := speculative.And(leaves(leafB, fs)...)
		return b, b
	}},
	{"speculative", "Or", "bool", "or", 0, func(_ joinFn, fs []leafFn) (any, bool) {
		b := speculative.Or(leaves(leafB, fs)...)
		return b, b
	}},
}

var rangeFns = []*rangeFn{
	{"parallel", "Range", "none", "do", func(low, high, n int, _ joinFn, f batchFn) (any, bool) {
		parallel.Range(low, high, n, func(low, high int) { f(low, high) })
		return nil, false
	}},
	{"parallel", "RangeAnd", "bool", "and", func(low, high, n int, _ joinFn, f batchFn) (any, bool) {
		b := parallel.RangeAnd(low, high, n, batchB(f))
		return b, b
	}},
	{"parallel", "RangeOr", "bool", "or", func(low, high, n int, _ joinFn, f batchFn) (any, bool) {
		b := parallel.RangeOr(low, high, n, batchB(f))
		return b, b
	}},
	{"parallel", "RangeReduce", "any", "join", func(low, high, n int, join joinFn, f batchFn) (any, bool) {
		return parallel.RangeReduce(low, high, n, batch1[any](f), join1[any](join)), false
	}},
	{"parallel", "RangeReduceFloat64", "float64", "join", func(low, high, n int, join joinFn, f batchFn) (any, bool) {
		return parallel.RangeReduceFloat64(low, high, n, batch1[float64](f), join1[float64](join)), false
	}},
	{"parallel", "RangeReduceInt", "int", "join", func(low, high, n int, join joinFn, f batchFn) (any, bool) {
		return parallel.RangeReduceInt(low, high, n, batch1[int](f), join1[int](join)), false
	}},
	{"parallel", "RangeReduceString", "string", "join", func(low, high, n int, join joinFn, f batchFn) (any, bool) {
		return parallel.RangeReduceString(low, high, n, batch1[string](f), join1[string](join)), false
	}},
	{"parallel", "RangeReduceFloat64Sum", "float64", "sum", func(low, high, n int, _ joinFn, f batchFn) (any, bool) {
		return parallel.RangeReduceFloat64Sum(low, high, n, batch1[float64](f)), false
	}},
	{"parallel", "RangeReduceFloat64Product", "float64", "prod", func(low, high, n int, _ joinFn, f batchFn) (any, bool) {
		return parallel.RangeReduceFloat64Product(low, high, n, batch1[float64](f)), false
	}},
	{"parallel", "RangeReduceIntSum", "int", "sum", func(low, high, n int, _ joinFn, f batchFn) (any, bool) {
		return parallel.RangeReduceIntSum(low, high, n, batch1[int](f)), false
	}},
	{"parallel", "RangeReduceIntProduct", "int", "prod", func(low, high, n int, _ joinFn, f batchFn) (any, bool) {
		return parallel.RangeReduceIntProduct(low, high, n, batch1[int](f)), false
	}},
	{"parallel", "RangeReduceStringSum", "string", "sum", func(low, high, n int, _ joinFn, f batchFn) (any, bool) {
		return parallel.RangeReduceStringSum(low, high, n, batch1[string](f)), false
	}},
	{"sequential", "Range", "none", "do", func(low, high, n int, _ joinFn, f batchFn) (any, bool) {
		sequential.Range(low, high, n, func(low, high int) { f(low, high) })
		return nil, false
	}},
	{"sequential", "RangeAnd", "bool", "and", func(low, high, n int, _ joinFn, f batchFn) (any, bool) {
		b := sequential.RangeAnd(low, high, n, batchB(f))
		return b, b
	}},
	{"sequential", "RangeOr", "bool", "or", func(low, high, n int, _ joinFn, f batchFn) (any, bool) {
		b := sequential.RangeOr(low, high, n, batchB(f))
		return b, b
	}},
	{"sequential", "RangeReduce", "any", "join", func(low, high, n int, join joinFn, f batchFn) (any, bool) {
		return sequential.RangeReduce(low, high, n, batch1[any](f), join1[any](join)), false
	}},
	{"sequential", "RangeReduceFloat64", "float64", "join", func(low, high, n int, join joinFn, f batchFn) (any, bool) {
		return sequential.RangeReduceFloat64(low, high, n, batch1[float64](f), join1[float64](join)), false
	}},
	{"sequential", "RangeReduceInt", "int", "join", func(low, high, n int, join joinFn, f batchFn) (any, bool) {
		return sequential.RangeReduceInt(low, high, n, batch1[int](f), join1[int](join)), false
	}},
	{"sequential", "RangeReduceString", "string", "join", func(low, high, n int, join joinFn, f batchFn) (any, bool) {
		return sequential.RangeReduceString(low, high, n, batch1[string](f), join1[string](join)), false
	}},
	{"sequential", "RangeReduceFloat64Sum", "float64", "sum", func(low, high, n int, _ joinFn, f batchFn) (any, bool) {
		return sequential.RangeReduceFloat64Sum(low, high, n, batch1[float64](f)), false
	}},
	{"sequential", "RangeReduceFloat64Product", "float64", "prod", func(low, high, n int, _ joinFn, f batchFn) (any, bool) {
		return sequential.RangeReduceFloat64Product(low, high, n, batch1[float64](f)), false
	}},
	{"sequential", "RangeReduceIntSum", "int", "sum", func(low, high, n int, _ joinFn, f batchFn) (any, bool) {
		return sequential.RangeReduceIntSum(low, high, n, batch1[int](f)), false
	}},
	{"sequential", "RangeReduceIntProduct", "int", "prod", func(low, high, n int, _ joinFn, f batchFn) (any, bool) {
		return sequential.RangeReduceIntProduct(low, high, n, batch1[int](f)), false
	}},
	{"sequential", "RangeReduceStringSum", "string", "sum", func(low, high, n int, _ joinFn, f batchFn) (any, bool) {
		return sequential.RangeReduceStringSum(low, high, n, batch1[string](f)), false
	}},
	{"speculative", "Range", "bool", "or", func(low, high, n int, _ joinFn, f batchFn) (any, bool) {
		b := speculative.Range(low, high, n, batchB(f))
		return b, b
	}},
	{"speculative", "RangeAnd", "bool", "and", func(low, high, n int, _ joinFn, f batchFn) (any, bool) {
		b := speculative.RangeAnd(low, high, n, batchB(f))
		return b, b
	}},
	{"speculative", "RangeOr", "bool", "or", func(low, high, n int, _ joinFn, f batchFn) (any, bool) {
		b := speculative.RangeOr(low, high, n, batchB(f))
		return b, b
	}},
	{"speculative", "RangeReduce", "any", "join", func(low, high, n int, join joinFn, f batchFn) (any, bool) {
		return pair(speculative.RangeReduce(low, high, n, batch2[any](f), join2[any](join)))
	}},
	{"speculative", "RangeReduceFloat64", "float64", "join", func(low, high, n int, join joinFn, f batchFn) (any, bool) {
		return pair(speculative.RangeReduceFloat64(low, high, n, batch2[float64](f), join2[float64](join)))
	}},
	{"speculative", "RangeReduceInt", "int", "join", func(low, high, n int, join joinFn, f batchFn) (any, bool) {
		return pair(speculative.RangeReduceInt(low, high, n, batch2[int](f), join2[int](join)))
	}},
	{"speculative", "RangeReduceString", "string", "join", func(low, high, n int, join joinFn, f batchFn) (any, bool) {
		return pair(speculative.RangeReduceString(low, high, n, batch2[string](f), join2[string](join)))
	}},
}

var mapFns = []*mapFn{
	{"sequential", "And", "bool", "and", func(m *psync.Map, _ joinFn, f splitFn) (any, bool) {
		b := m.And(splitB(f))
		return b, b
	}},
	{"sequential", "Or", "bool", "or", func(m *psync.Map, _ joinFn, f splitFn) (any, bool) {
		b := m.Or(splitB(f))
		return b, b
	}},
	{"sequential", "Reduce", "any", "join", func(m *psync.Map, join joinFn, f splitFn) (any, bool) {
		return m.Reduce(split1[any](f), join1[any](join)), false
	}},
	{"sequential", "ReduceFloat64", "float64", "join", func(m *psync.Map, join joinFn, f splitFn) (any, bool) {
		return m.ReduceFloat64(split1[float64](f), join1[float64](join)), false
	}},
	{"sequential", "ReduceInt", "int", "join", func(m *psync.Map, join joinFn, f splitFn) (any, bool) {
		return m.ReduceInt(split1[int](f), join1[int](join)), false
	}},
	{"sequential", "ReduceString", "string", "join", func(m *psync.Map, join joinFn, f splitFn) (any, bool) {
		return m.ReduceString(split1[string](f), join1[string](join)), false
	}},
	{"sequential", "ReduceFloat64Sum", "float64", "sum", func(m *psync.Map, _ joinFn, f splitFn) (any, bool) {
		return m.ReduceFloat64Sum(split1[float64](f)), false
	}},
	{"sequential", "ReduceFloat64Product", "float64", "prod", func(m *psync.Map, _ joinFn, f splitFn) (any, bool) {
		return m.ReduceFloat64Product(split1[float64](f)), false
	}},
	{"sequential", "ReduceIntSum", "int", "sum", func(m *psync.Map, _ joinFn, f splitFn) (any, bool) {
		return m.ReduceIntSum(split1[int](f)), false
	}},
	{"sequential", "ReduceIntProduct", "int", "prod", func(m *psync.Map, _ joinFn, f splitFn) (any, bool) {
		return m.ReduceIntProduct(split1[int](f)), false
	}},
	{"sequential", "ReduceStringSum", "string", "sum", func(m *psync.Map, _ joinFn, f splitFn) (any, bool) {
		return m.ReduceStringSum(split1[string](f)), false
	}},
	{"parallel", "ParallelAnd", "bool", "and", func(m *psync.Map, _ joinFn, f splitFn) (any, bool) {
		b := m.ParallelAnd(splitB(f))
		return b, b
	}},
	{"parallel", "ParallelOr", "bool", "or", func(m *psync.Map, _ joinFn, f splitFn) (any, bool) {
		b := m.ParallelOr(splitB(f))
		return b, b
	}},
	{"parallel", "ParallelReduce", "any", "join", func(m *psync.Map, join joinFn, f splitFn) (any, bool) {
		return m.ParallelReduce(split1[any](f), join1[any](join)), false
	}},
	{"parallel", "ParallelReduceFloat64", "float64", "join", func(m *psync.Map, join joinFn, f splitFn) (any, bool) {
		return m.ParallelReduceFloat64(split1[float64](f), join1[float64](join)), false
	}},
	{"parallel", "ParallelReduceInt", "int", "join", func(m *psync.Map, join joinFn, f splitFn) (any, bool) {
		return m.ParallelReduceInt(split1[int](f), join1[int](join)), false
	}},
	{"parallel", "ParallelReduceString", "string", "join", func(m *psync.Map, join joinFn, f splitFn) (any, bool) {
		return m.ParallelReduceString(split1[string](f), join1[string](join)), false
	}},
	{"parallel", "ParallelReduceFloat64Sum", "float64", "sum", func(m *psync.Map, _ joinFn, f splitFn) (any, bool) {
		return m.ParallelReduceFloat64Sum(split1[float64](f)), false
	}},
	{"parallel", "ParallelReduceFloat64Product", "float64", "prod", func(m *psync.Map, _ joinFn, f splitFn) (any, bool) {
		return m.ParallelReduceFloat64Product(split1[float64](f)), false
	}},
	{"parallel", "ParallelReduceIntSum", "int", "sum", func(m *psync.Map, _ joinFn, f splitFn) (any, bool) {
		return m.ParallelReduceIntSum(split1[int](f)), false
	}},
	{"parallel", "ParallelReduceIntProduct", "int", "prod", func(m *psync.Map, _ joinFn, f splitFn) (any, bool) {
		return m.ParallelReduceIntProduct(split1[int](f)), false
	}},
	{"parallel", "ParallelReduceStringSum", "string", "sum", func(m *psync.Map, _ joinFn, f splitFn) (any, bool) {
		return m.ParallelReduceStringSum(split1[string](f)), false
	}},
	{"speculative", "SpeculativeAnd", "bool", "and", func(m *psync.Map, _ joinFn, f splitFn) (any, bool) {
		b := m.SpeculativeAnd(splitB(f))
		return b, b
	}},
	{"speculative", "SpeculativeOr", "bool", "or", func(m *psync.Map, _ joinFn, f splitFn) (any, bool) {
		b := m.SpeculativeOr(splitB(f))
		return b, b
	}},
	{"speculative", "SpeculativeReduce", "any", "join", func(m *psync.Map, join joinFn, f splitFn) (any, bool) {
		return pair(m.SpeculativeReduce(split2[any](f), join2[any](join)))
	}},
	{"speculative", "SpeculativeReduceFloat64", "float64", "join", func(m *psync.Map, join joinFn, f splitFn) (any, bool) {
		return pair(m.SpeculativeReduceFloat64(split2[float64](f), join2[float64](join)))
	}},
	{"speculative", "SpeculativeReduceInt", "int", "join", func(m *psync.Map, join joinFn, f splitFn) (any, bool) {
		return pair(m.SpeculativeReduceInt(split2[int](f), join2[int](join)))
	}},
	{"speculative", "SpeculativeReduceString", "string", "join", func(m *psync.Map, join joinFn, f splitFn) (any, bool) {
		return pair(m.SpeculativeReduceString(split2[string](f), join2[string](join)))
	}},
}
