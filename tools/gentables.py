# generates tables.go
out=[]
w=out.append
w('''package main

// Uniform access to all functions of packages parallel, sequential and
// speculative and to the aggregate methods of sync.Map: every user function
// becomes func() (any, bool), every join func(x, y any) (any, bool). The bool
// is only used by speculative functions. Written by hand in spirit, generated
// in fact, since there are 90 of them.

import (
	"github.com/exascience/pargo/parallel"
	"github.com/exascience/pargo/sequential"
	"github.com/exascience/pargo/speculative"
	psync "github.com/exascience/pargo/sync"
)

// varFn is a function that takes functions.
type varFn struct {
	pkg, name, elem, op string // op: join, sum, prod, and, or, do
	min                 int    // least number of functions
	run                 func(join joinFn, fs []leafFn) (any, bool)
}

// rangeFn is a function that takes a range.
type rangeFn struct {
	pkg, name, elem, op string
	run                 func(low, high, n int, join joinFn, f batchFn) (any, bool)
}

// mapFn is an aggregate method of sync.Map.
type mapFn struct {
	pkg, name, elem, op string // pkg: sequential, parallel, speculative
	run                 func(m *psync.Map, join joinFn, f splitFn) (any, bool)
}

type (
	leafFn  = func() (any, bool)
	joinFn  = func(x, y any) (any, bool)
	batchFn = func(low, high int) (any, bool)
	splitFn = func(map[any]any) (any, bool)
)

func conv[T any](x any) T {
	if x == nil {
		var zero T
		return zero
	}
	return x.(T)
}

func leaf1[T any](f leafFn) func() T { return func() T { v, _ := f(); return conv[T](v) } }
func leaf2[T any](f leafFn) func() (T, bool) {
	return func() (T, bool) { v, b := f(); return conv[T](v), b }
}
func leafB(f leafFn) func() bool { return func() bool { _, b := f(); return b } }
func leaf0(f leafFn) func()      { return func() { f() } }
func leaves[F any](conv func(leafFn) F, fs []leafFn) []F {
	var r []F
	for _, f := range fs {
		r = append(r, conv(f))
	}
	return r
}
func join1[T any](j joinFn) func(x, y T) T { return func(x, y T) T { v, _ := j(x, y); return conv[T](v) } }
func join2[T any](j joinFn) func(x, y T) (T, bool) {
	return func(x, y T) (T, bool) { v, b := j(x, y); return conv[T](v), b }
}
func batch1[T any](f batchFn) func(low, high int) T {
	return func(low, high int) T { v, _ := f(low, high); return conv[T](v) }
}
func batch2[T any](f batchFn) func(low, high int) (T, bool) {
	return func(low, high int) (T, bool) { v, b := f(low, high); return conv[T](v), b }
}
func batchB(f batchFn) func(low, high int) bool {
	return func(low, high int) bool { _, b := f(low, high); return b }
}
func split1[T any](f splitFn) func(map[any]any) T {
	return func(m map[any]any) T { v, _ := f(m); return conv[T](v) }
}
func split2[T any](f splitFn) func(map[any]any) (T, bool) {
	return func(m map[any]any) (T, bool) { v, b := f(m); return conv[T](v), b }
}
func splitB(f splitFn) func(map[any]any) bool {
	return func(m map[any]any) bool { _, b := f(m); return b }
}
func pair[T any](v T, b bool) (any, bool) { return v, b }
''')
types=[('any',''),('float64','Float64'),('int','Int'),('string','String')]
w('var varFns = []*varFn{')
for pkg in ('parallel','sequential'):
    for t,n in types:
        w(f'''	{{"{pkg}", "Reduce{n}", "{t}", "join", 1, func(join joinFn, fs []leafFn) (any, bool) {{
		l := leaves(leaf1[{t}], fs)
		return {pkg}.Reduce{n}(join1[{t}](join), l[0], l[1:]...), false
	}}}},''')
    for n,t,op in (('ReduceFloat64Sum','float64','sum'),('ReduceFloat64Product','float64','prod'),('ReduceIntSum','int','sum'),('ReduceIntProduct','int','prod'),('ReduceStringSum','string','sum')):
        w(f'''	{{"{pkg}", "{n}", "{t}", "{op}", 0, func(_ joinFn, fs []leafFn) (any, bool) {{
		return {pkg}.{n}(leaves(leaf1[{t}], fs)...), false
	}}}},''')
    w(f'''	{{"{pkg}", "Do", "none", "do", 0, func(_ joinFn, fs []leafFn) (any, bool) {{
		{pkg}.Do(leaves(leaf0, fs)...)
		return nil, false
	}}}},''')
    for n,op in (('And','and'),('Or','or')):
        w(f'''	{{"{pkg}", "{n}", "bool", "{op}", 0, func(_ joinFn, fs []leafFn) (any, bool) {{
		b := {pkg}.{n}(leaves(leafB, fs)...)
		return b, b
	}}}},''')
for t,n in types:
    w(f'''	{{"speculative", "Reduce{n}", "{t}", "join", 1, func(join joinFn, fs []leafFn) (any, bool) {{
		l := leaves(leaf2[{t}], fs)
		return pair(speculative.Reduce{n}(join2[{t}](join), l[0], l[1:]...))
	}}}},''')
for n,op in (('Do','or'),('And','and'),('Or','or')):
    w(f'''	{{"speculative", "{n}", "bool", "{op}", 0, func(_ joinFn, fs []leafFn) (any, bool) {{
		b := speculative.{n}(leaves(leafB, fs)...)
		return b, b
	}}}},''')
w('}\n')
w('var rangeFns = []*rangeFn{')
for pkg in ('parallel','sequential'):
    w(f'''	{{"{pkg}", "Range", "none", "do", func(low, high, n int, _ joinFn, f batchFn) (any, bool) {{
		{pkg}.Range(low, high, n, func(low, high int) {{ f(low, high) }})
		return nil, false
	}}}},''')
    for n,op in (('RangeAnd','and'),('RangeOr','or')):
        w(f'''	{{"{pkg}", "{n}", "bool", "{op}", func(low, high, n int, _ joinFn, f batchFn) (any, bool) {{
		b := {pkg}.{n}(low, high, n, batchB(f))
		return b, b
	}}}},''')
    for t,n in types:
        w(f'''	{{"{pkg}", "RangeReduce{n}", "{t}", "join", func(low, high, n int, join joinFn, f batchFn) (any, bool) {{
		return {pkg}.RangeReduce{n}(low, high, n, batch1[{t}](f), join1[{t}](join)), false
	}}}},''')
    for n,t,op in (('RangeReduceFloat64Sum','float64','sum'),('RangeReduceFloat64Product','float64','prod'),('RangeReduceIntSum','int','sum'),('RangeReduceIntProduct','int','prod'),('RangeReduceStringSum','string','sum')):
        w(f'''	{{"{pkg}", "{n}", "{t}", "{op}", func(low, high, n int, _ joinFn, f batchFn) (any, bool) {{
		return {pkg}.{n}(low, high, n, batch1[{t}](f)), false
	}}}},''')
for n,op in (('Range','or'),('RangeAnd','and'),('RangeOr','or')):
    w(f'''	{{"speculative", "{n}", "bool", "{op}", func(low, high, n int, _ joinFn, f batchFn) (any, bool) {{
		b := speculative.{n}(low, high, n, batchB(f))
		return b, b
	}}}},''')
for t,n in types:
    w(f'''	{{"speculative", "RangeReduce{n}", "{t}", "join", func(low, high, n int, join joinFn, f batchFn) (any, bool) {{
		return pair(speculative.RangeReduce{n}(low, high, n, batch2[{t}](f), join2[{t}](join)))
	}}}},''')
w('}\n')
w('var mapFns = []*mapFn{')
for pkg,pre in (('sequential',''),('parallel','Parallel'),('speculative','Speculative')):
    for n,op in (('And','and'),('Or','or')):
        w(f'''	{{"{pkg}", "{pre}{n}", "bool", "{op}", func(m *psync.Map, _ joinFn, f splitFn) (any, bool) {{
		b := m.{pre}{n}(splitB(f))
		return b, b
	}}}},''')
    for t,n in types:
        if pre=='Speculative':
            w(f'''	{{"{pkg}", "{pre}Reduce{n}", "{t}", "join", func(m *psync.Map, join joinFn, f splitFn) (any, bool) {{
		return pair(m.{pre}Reduce{n}(split2[{t}](f), join2[{t}](join)))
	}}}},''')
        else:
            w(f'''	{{"{pkg}", "{pre}Reduce{n}", "{t}", "join", func(m *psync.Map, join joinFn, f splitFn) (any, bool) {{
		return m.{pre}Reduce{n}(split1[{t}](f), join1[{t}](join)), false
	}}}},''')
    if pre!='Speculative':
        for n,t,op in (('Float64Sum','float64','sum'),('Float64Product','float64','prod'),('IntSum','int','sum'),('IntProduct','int','prod'),('StringSum','string','sum')):
            w(f'''	{{"{pkg}", "{pre}Reduce{n}", "{t}", "{op}", func(m *psync.Map, _ joinFn, f splitFn) (any, bool) {{
		return m.{pre}Reduce{n}(split1[{t}](f)), false
	}}}},''')
w('}')
open('/verif/harness/cmd/vh/tables.go','w').write('\n'.join(out)+'\n')
