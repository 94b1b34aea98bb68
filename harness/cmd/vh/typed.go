package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing/iotest"

	"github.com/exascience/pargo/pipeline"
)

// Pipelines over elements of many types, with a model of the stream. The other
// workloads use mostly int, which says little about code that uses reflection.

type (
	namedSlice[T any] []T
	namedChan[T any]  chan T
	namedString       string
	couple            struct {
		a int
		b string
	}
	empty struct{}
)

var errElems = []error{nil, errors.New("a"), io.EOF, &panicError{"b"}}

// typedPipe runs one pipeline with elements of some type through Limit, Skip,
// Count and Slice, as asked.
func typedPipe(c *ctx, cuts, sinks bool) {
	n := c.IntN(12)
	if c.chance(4) {
		n = c.between(12, 90)
	}
	switch c.IntN(15) {
	case 0:
		typed(c, cuts, sinks, n, func(i int) any { return []any{nil, i, "x", nil, couple{i, ""}, []int(nil)}[c.IntN(6)] })
	case 1:
		ps := []*int{nil, new(int), new(int)}
		typed(c, cuts, sinks, n, func(i int) *int { return ps[c.IntN(3)] })
	case 2:
		typed(c, cuts, sinks, n, func(i int) couple { return couple{c.IntN(2) * i, ""} })
	case 3:
		typed(c, cuts, sinks, n, func(i int) error { return errElems[c.IntN(len(errElems))] })
	case 4:
		typed(c, cuts, sinks, n, func(i int) string { return strings.Repeat("x", c.IntN(3)*i) })
	case 5:
		typed(c, cuts, sinks, n, func(i int) []int { return make([]int, i)[:c.IntN(i+1)] })
	case 6:
		typed(c, cuts, sinks, n, func(i int) float64 { return float64(i) / 4 })
	case 7:
		typed(c, cuts, sinks, n, func(i int) byte { return byte(i) })
	case 8:
		typed(c, cuts, sinks, n, func(i int) rune { return rune(0x10ffff - i) })
	case 9:
		typed(c, cuts, sinks, n, func(i int) bool { return c.chance(2) })
	case 10:
		typed(c, cuts, sinks, n, func(i int) map[string]int { return []map[string]int{nil, {}, {"a": i}}[c.IntN(3)] })
	case 11:
		typed(c, cuts, sinks, n, func(i int) empty { return empty{} })
	case 12:
		typed(c, cuts, sinks, n, func(i int) [3]uint16 { return [3]uint16{uint16(i), 1} })
	case 13:
		typedString(c, cuts)
	default:
		typedScanner(c, cuts, sinks)
	}
}

// record keeps what passes a receiver of an ordered node.
type record struct {
	parts []any
	next  int
	size  int // announced
}

func (r *record) filter(c *ctx) pipeline.Filter {
	return func(_ *pipeline.Pipeline, _ pipeline.NodeKind, size *int) (pipeline.Receiver, pipeline.Finalizer) {
		r.size = *size
		return r.receive(c), nil
	}
}

func (r *record) receive(c *ctx) pipeline.Receiver {
	return func(seq int, data any) any {
		if seq != r.next {
			c.Fail("batch %d arrives instead of %d", seq, r.next)
		}
		r.next++
		r.parts = append(r.parts, data)
		return data
	}
}

func typed[T any](c *ctx, cuts, sinks bool, n int, elem func(i int) T) {
	elems := make([]T, n)
	for i := range elems {
		elems[i] = elem(i)
	}
	kind := pick([]string{"slice", "named slice", "array", "chan", "receive-only chan", "named chan", "SingletonChan", "Func", "Func of known size"}, c.IntN(9))
	single := kind == "SingletonChan"
	if single {
		sinks = false
	}
	var p pipeline.Pipeline
	var done chan struct{}
	feed := func(ch chan T) {
		done = make(chan struct{})
		go func() {
			defer close(done)
			defer close(ch)
			for _, e := range elems {
				ch <- e
			}
		}()
	}
	ch := make(chan T, c.IntN(3)*c.IntN(5))
	known := -1
	var fetch = func(at *int) func(int) (any, int, error) {
		return func(size int) (any, int, error) {
			k := min(size, n-*at)
			if size > 1 && k > 1 && c.chance(4) {
				k-- // fewer than requested
			}
			*at += k
			return elems[*at-k : *at : *at], k, nil
		}
	}
	if c.chance(4) {
		p.Source("only the last source counts")
	}
	typ := reflect.TypeOf(elems)
	switch kind {
	case "slice":
		p.Source(append([]T{}, elems...))
		known = n
	case "named slice":
		p.Source(append(namedSlice[T]{}, elems...))
		typ = reflect.TypeOf(namedSlice[T]{})
		known = n
	case "array":
		a := reflect.New(reflect.ArrayOf(n, typ.Elem())).Elem()
		reflect.Copy(a, reflect.ValueOf(elems))
		p.Source(a.Interface())
		known = n
	case "chan":
		feed(ch)
		p.Source(ch)
	case "receive-only chan":
		feed(ch)
		p.Source((<-chan T)(ch))
	case "named chan":
		feed(ch)
		p.Source(namedChan[T](ch))
	case "SingletonChan":
		feed(ch)
		p.Source(pipeline.NewSingletonChan(ch))
	case "Func":
		p.Source(pipeline.NewFunc(-1, fetch(new(int))))
	default:
		p.Source(pipeline.NewFunc(n, fetch(new(int))))
		known = n
	}
	nb, inc := c.between(0, 6), c.between(0, 4)
	p.NofBatches(nb)
	p.SetVariableBatchSize(inc, c.between(1, 9))
	what := fmt.Sprintf("%s of %d elements of type %T (NofBatches %d, increment %d)", kind, n, *new(T), nb, inc)
	want := elems
	first, last := &record{}, &record{}
	p.Add(pipeline.StrictOrd(first.filter(c)))
	if cuts && !single {
		for k := c.between(1, 2); k > 0; k-- {
			m := c.IntN(n + 3)
			if c.chance(2) {
				p.Add(pipeline.Limit(m, false))
				what += fmt.Sprintf(", Limit(%d)", m)
				want = want[:min(m, len(want))]
			} else {
				p.Add(pipeline.Skip(m))
				what += fmt.Sprintf(", Skip(%d)", m)
				want = want[min(m, len(want)):]
			}
		}
	}
	count := -5
	res, named := []T(nil), namedSlice[T](nil)
	before := 0
	if sinks {
		if c.chance(2) {
			before = 2
			res, named = make([]T, 2, 2+c.IntN(4)), make(namedSlice[T], 2)
		}
		s := pipeline.Slice(&res)
		if typ == reflect.TypeOf(named) {
			s = pipeline.Slice(&named)
		}
		p.Add(pipeline.Ord(pipeline.Count(&count), s))
		what += ", Count, Slice"
	}
	p.Add(pipeline.Ord(last.filter(c)))
	c.Describe("%s", what)
	c.Hang("%s: Run never returns", what)
	p.Run()
	if done != nil {
		<-done
	}
	if err := p.Err(); err != nil {
		c.Fail("%s: Err is %v", what, err)
	}
	join := func(parts []any, where string) []T {
		var r []T
		for i, b := range parts {
			if single {
				e, ok := b.(T)
				if !ok && b != nil {
					c.Fail("%s: the batch is a %T %s", what, b, where)
					return nil
				}
				r = append(r, e)
				continue
			}
			if b == nil {
				continue
			}
			v := reflect.ValueOf(b)
			if v.Type() != typ {
				c.Fail("%s: batch %d is a %T instead of a %v %s", what, i, b, typ, where)
				return nil
			}
			r = append(r, v.Convert(reflect.TypeOf(r)).Interface().([]T)...)
		}
		return r
	}
	equal := func(where string, got, want []T) {
		if len(got) != len(want) {
			c.Fail("%s: %d elements instead of %d %s", what, len(got), len(want), where)
			return
		}
		for i := range got {
			if !reflect.DeepEqual(got[i], want[i]) {
				c.Fail("%s: element %d is %#v instead of %#v %s", what, i, got[i], want[i], where)
				return
			}
		}
	}
	equal("after the source", join(first.parts, "after the source"), elems)
	equal("at the end", join(last.parts, "at the end"), want)
	if last.size >= 0 && last.size != len(want) || last.size < 0 && known >= 0 || first.size != known {
		c.Fail("%s: the announced sizes are %d and %d for %d and %d elements", what, first.size, last.size, known, len(want))
	}
	if sinks {
		if typ == reflect.TypeOf(named) {
			res = named
		}
		equal("in the result of Slice", res, append(make([]T, before), want...))
		if count != len(want) {
			c.Fail("%s: Count is %d instead of %d", what, count, len(want))
		}
	}
	libraryGoroutines(c)
	c.Obs("sources with elements of other types", 1)
	if n > 1 {
		c.Nontrivial(what)
	}
}

// typedString uses strings of runes of different length, as a string and as a
// named type.
func typedString(c *ctx, cuts bool) {
	var b strings.Builder
	for k := c.IntN(30); k > 0; k-- {
		b.WriteString([]string{"a", "ä", "€", "\U0001F600", "\x00", "\xff", "\n"}[c.IntN(7)])
	}
	s := b.String()
	n := len(s)
	var p pipeline.Pipeline
	named := c.chance(2)
	if named {
		p.Source(namedString(s))
	} else {
		p.Source(s)
	}
	nb := c.between(0, 7)
	p.NofBatches(nb)
	what := fmt.Sprintf("string %q (named type: %v, NofBatches %d)", s, named, nb)
	want := s
	first, last := &record{}, &record{}
	p.Add(pipeline.StrictOrd(first.filter(c)))
	if cuts {
		m := c.IntN(n + 3)
		if c.chance(2) {
			p.Add(pipeline.Limit(m, false))
			what += fmt.Sprintf(", Limit(%d)", m)
			want = want[:min(m, n)]
		} else {
			p.Add(pipeline.Skip(m))
			what += fmt.Sprintf(", Skip(%d)", m)
			want = want[min(m, n):]
		}
	}
	count := -5
	p.Add(pipeline.Ord(pipeline.Count(&count), last.filter(c)))
	c.Describe("%s", what)
	c.Hang("%s: Run never returns", what)
	p.Run()
	check := func(where string, parts []any, want string) {
		got := ""
		for _, x := range parts {
			switch x := x.(type) {
			case nil:
			case string:
				got += x
				if named {
					c.Fail("%s: a batch is a string %s", what, where)
				}
			case namedString:
				got += string(x)
			default:
				c.Fail("%s: a batch is a %T %s", what, x, where)
			}
		}
		if got != want {
			c.Fail("%s: content %q instead of %q %s", what, got, want, where)
		}
	}
	check("after the source", first.parts, s)
	check("at the end", last.parts, want)
	if count != len(want) {
		c.Fail("%s: Count is %d instead of %d", what, count, len(want))
	}
	if err := p.Err(); err != nil {
		c.Fail("%s: Err is %v", what, err)
	}
	libraryGoroutines(c)
	c.Obs("sources with elements of other types", 1)
	c.Nontrivial(what)
}

// typedScanner compares scanners with split functions with bufio.Scanner.
func typedScanner(c *ctx, cuts, sinks bool) {
	var b strings.Builder
	for k := c.IntN(40); k > 0; k-- {
		b.WriteString([]string{"a", "bc", " ", "\n", "\r\n", "\n\n", "€", "word ", "\t", "x\n"}[c.IntN(10)])
	}
	text := b.String()
	name := pick([]string{"lines", "words", "runes", "bytes"}, c.IntN(4))
	split := map[string]bufio.SplitFunc{"lines": bufio.ScanLines, "words": bufio.ScanWords, "runes": bufio.ScanRunes, "bytes": bufio.ScanBytes}[name]
	var want []string
	ref := bufio.NewScanner(strings.NewReader(text))
	ref.Split(split)
	for ref.Scan() {
		want = append(want, ref.Text())
	}
	var r io.Reader = strings.NewReader(text)
	switch c.IntN(4) {
	case 0:
		r = iotest.OneByteReader(r)
	case 1:
		r = iotest.DataErrReader(r)
	case 2:
		r = iotest.HalfReader(r)
	}
	var p pipeline.Pipeline
	bytes := c.chance(2)
	if bytes {
		s := pipeline.NewBytesScanner(r)
		if name != "lines" {
			s.Split(split)
		}
		p.Source(s)
	} else {
		s := pipeline.NewScanner(r)
		if name != "lines" {
			s.Split(split)
		}
		p.Source(s)
	}
	inc := c.between(0, 4)
	p.SetVariableBatchSize(inc, c.between(1, 9))
	what := fmt.Sprintf("scanner for %s of %q (bytes: %v, increment %d)", name, text, bytes, inc)
	all := want
	first, last := &record{}, &record{}
	p.Add(pipeline.StrictOrd(first.filter(c)))
	if cuts {
		m := c.IntN(len(want) + 3)
		if c.chance(2) {
			p.Add(pipeline.Limit(m, false))
			what += fmt.Sprintf(", Limit(%d)", m)
			want = want[:min(m, len(want))]
		} else {
			p.Add(pipeline.Skip(m))
			what += fmt.Sprintf(", Skip(%d)", m)
			want = want[min(m, len(want)):]
		}
	}
	var rs []string
	var rb [][]byte
	if sinks {
		if bytes {
			p.Add(pipeline.Ord(pipeline.Slice(&rb)))
		} else {
			p.Add(pipeline.Ord(pipeline.Slice(&rs)))
		}
	}
	p.Add(pipeline.Ord(last.filter(c)))
	c.Describe("%s", what)
	c.Hang("%s: Run never returns", what)
	p.Run()
	if err := p.Err(); err != nil {
		c.Fail("%s: Err is %v", what, err)
	}
	check := func(where string, parts []any, want []string) {
		var got []string
		for _, x := range parts {
			switch x := x.(type) {
			case nil:
			case []string:
				got = append(got, x...)
			case [][]byte:
				for _, b := range x {
					got = append(got, string(b))
				}
			default:
				c.Fail("%s: a batch is a %T %s", what, x, where)
			}
		}
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			c.Fail("%s: content %q instead of %q %s", what, got, want, where)
		}
	}
	check("after the source", first.parts, all)
	check("at the end", last.parts, want)
	if sinks {
		check("in the result of Slice", []any{rs, rb}, want)
	}
	libraryGoroutines(c)
	c.Obs("sources with elements of other types", 1)
	c.Nontrivial(what)
}
