package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"regexp"
	"runtime"
	"strings"
	"time"
)

// The values of one reduction. For "join" the join function is associative
// but not commutative, and its value identifies the elements and their order:
// lists, strings, and compositions of affine functions packed into numbers.

func genValue(r *rand.Rand, elem, op string, i int) any {
	switch op {
	case "do":
		return nil
	case "and":
		return r.IntN(8) != 0
	case "or":
		return r.IntN(8) == 0
	case "sum":
		switch elem {
		case "float64":
			return float64(r.Int64N(1<<41)-1<<40) / 4
		case "int":
			return int(r.Uint64())
		case "string":
			return fmt.Sprintf("%d;", i)
		}
	case "prod":
		switch elem {
		case "float64":
			switch r.IntN(4) {
			case 0:
				return -2.0
			case 1:
				return 0.5
			case 2:
				return -1.0
			}
			if i < 25 {
				return 3.0
			}
			return 4.0
		case "int":
			return int(r.Uint64() | 1)
		}
	case "join":
		switch elem {
		case "any":
			return []int{i}
		case "string":
			return fmt.Sprintf("%d;", i)
		case "int":
			return int(r.Uint64N(1<<31)|1)<<32 | int(r.Uint64N(1<<31))
		case "float64":
			return float64((r.Uint64N(1<<26)|1)<<26 | r.Uint64N(1<<26))
		}
	}
	panic("harness: no value for " + elem + " " + op)
}

func combine(elem, op string, x, y any) any {
	switch op {
	case "do":
		return nil
	case "and":
		return x.(bool) && y.(bool)
	case "or":
		return x.(bool) || y.(bool)
	case "sum":
		switch elem {
		case "float64":
			return x.(float64) + y.(float64)
		case "int":
			return x.(int) + y.(int)
		case "string":
			return x.(string) + y.(string)
		}
	case "prod":
		switch elem {
		case "float64":
			return x.(float64) * y.(float64)
		case "int":
			return x.(int) * y.(int)
		}
	case "join":
		switch elem {
		case "any":
			a, b := x.([]int), y.([]int)
			r := make([]int, 0, len(a)+len(b))
			return append(append(r, a...), b...)
		case "string":
			return x.(string) + y.(string)
		case "int":
			const m = 1<<31 - 1
			a, b := uint64(x.(int)), uint64(y.(int))
			a1, b1, a2, b2 := a>>32, a&m, b>>32, b&m
			return int((a1*a2&m)<<32 | (a1*b2+b1)&m)
		case "float64":
			const m = 1<<26 - 1
			a, b := uint64(x.(float64)), uint64(y.(float64))
			a1, b1, a2, b2 := a>>26, a&m, b>>26, b&m
			return float64((a1*a2&m)<<26 | (a1*b2+b1)&m)
		}
	}
	panic("harness: cannot combine " + elem + " " + op)
}

func neutral(elem, op string) any {
	switch op + elem {
	case "donone":
		return nil
	case "andbool":
		return true
	case "orbool":
		return false
	case "sumfloat64":
		return 0.0
	case "sumint":
		return 0
	case "sumstring":
		return ""
	case "prodfloat64":
		return 1.0
	case "prodint":
		return 1
	}
	panic("harness: no neutral element for " + elem + " " + op)
}

func fold(elem, op string, vs []any) any {
	if len(vs) == 0 {
		return neutral(elem, op)
	}
	r := vs[0]
	for _, v := range vs[1:] {
		r = combine(elem, op, r, v)
	}
	return r
}

func newRand(seed uint64) *rand.Rand { return rand.New(rand.NewPCG(seed, 1)) }

func same(x, y any) bool {
	if a, ok := x.(float64); ok && a != a {
		b, ok := y.(float64)
		return ok && b != b
	}
	return reflect.DeepEqual(x, y)
}

// special returns a value that decides a result, or does not change it, when
// it is combined with others. The result does not depend on the grouping.
func special(r *rand.Rand, elem, op string) any {
	switch elem {
	case "any":
		return []int(nil)
	case "string":
		return ""
	case "int":
		return pick([]int{0, 0, 1, -1, math.MinInt64}, r.IntN(5))
	case "float64":
		switch op {
		case "sum":
			return pick([]float64{0, math.Inf(1), math.Inf(-1), math.NaN()}, r.IntN(4))
		case "prod":
			return pick([]float64{0, 0, 1, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN()}, r.IntN(7))
		}
		return 0.0
	}
	return nil
}

// specials replaces a few values by special ones in some cases.
func (c *ctx) specials(elem, op string, vals []any) {
	if len(vals) == 0 || op == "do" || op == "and" || op == "or" || !c.chance(4) {
		return
	}
	for j := c.between(1, 3); j > 0; j-- {
		v := special(c.Rand, elem, op)
		if elem == "int" && op == "join" {
			v = 0
		}
		vals[c.IntN(len(vals))] = v
	}
}

// Interval values: the value of a partial result says which part it is.

type ival struct {
	lo, hi, flag int
}

const nanBits = 0x7ff8 << 48

// zeroPart chooses the part whose value is the zero value of its type: the
// value of one function, a decision, or a partial result.
func (c *ctx) zeroPart(k int) {
	if k < 1 {
		return
	}
	i := c.IntN(k)
	switch c.IntN(5) {
	case 0, 1:
		c.zero = ival{i, i + 1, 0}
	case 2:
		c.zero = ival{i, i, 1}
	case 3:
		c.zero = ival{i, c.between(i+1, k), c.IntN(2) * 2}
	default:
		c.zero = ival{1, 1, 1}
	}
}

func (c *ctx) encIval(elem string, v ival) any {
	if v == c.zero {
		switch elem {
		case "any":
			return nil
		case "int":
			return 0
		case "float64":
			return 0.0
		case "string":
			return ""
		}
	}
	switch elem {
	case "any":
		return v
	case "int":
		return v.lo<<40 | v.hi<<8 | v.flag
	case "float64":
		n := v.lo<<26 | v.hi<<2 | v.flag
		if (v.lo+v.hi)%5 == 3 {
			return math.Float64frombits(nanBits | uint64(n)) // one of many NaNs
		}
		return float64(n)
	case "string":
		return fmt.Sprintf("%d:%d:%d", v.lo, v.hi, v.flag)
	}
	return nil
}

func (c *ctx) decIval(elem string, x any) (v ival, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	switch x {
	case nil, 0, 0.0, "":
		return c.zero, true
	}
	switch elem {
	case "any":
		v, ok = x.(ival)
	case "int":
		n := x.(int)
		v, ok = ival{n >> 40, n >> 8 & (1<<32 - 1), n & 255}, true
	case "float64":
		f := x.(float64)
		n := int(f)
		if math.IsNaN(f) {
			n = int(math.Float64bits(f) &^ nanBits)
		}
		v, ok = ival{n >> 26, n >> 2 & (1<<24 - 1), n & 3}, true
	case "string":
		_, err := fmt.Sscanf(x.(string), "%d:%d:%d", &v.lo, &v.hi, &v.flag)
		ok = err == nil
	}
	return
}

// A delay is a way to spend time inside a user function.
type delay int

func (c *ctx) delay(slow bool) delay {
	switch c.IntN(6) {
	case 0, 1:
		if !slow {
			return 0
		}
		fallthrough
	case 2, 3:
		return delay(-c.between(1, 20))
	case 4:
		return delay(c.between(1, 60))
	default:
		if slow {
			return delay(c.between(100, 600))
		}
		return delay(c.between(1, 200))
	}
}

func (c *ctx) delays(n int, slow bool) []delay {
	r := make([]delay, n)
	if n > 0 && c.i%3000 == 1501 {
		r[c.IntN(n)] = 1_100_000
		return r
	}
	if c.chance(3) {
		return r
	}
	// biased by position, so that left functions finish first or last
	bias := c.IntN(3)
	for i := range r {
		switch {
		case bias == 1 && i < n/2, bias == 2 && i >= (n+1)/2:
			r[i] = 0
		default:
			r[i] = c.delay(slow)
		}
	}
	return r
}

func (d delay) spend() {
	switch {
	case d < 0:
		for ; d < 0; d++ {
			runtime.Gosched()
		}
	case d > 0:
		time.Sleep(time.Duration(d) * time.Microsecond)
	}
}

// Panic values carry a marker that identifies the function that panicked.

type panicStringer struct{ s string }

func (p panicStringer) String() string { return p.s }

type panicError struct{ s string }

func (p *panicError) Error() string { return p.s }

const markerBase = 7000000

var markerRE = regexp.MustCompile(`\[7\d{6}\]`)

func marker(i int) string { return fmt.Sprintf("[%d]", markerBase+i) }

var panicKinds = []string{"string", "error", "runtime", "stringer", "wrapped", "ints"}

func doPanic(kind string, i int) {
	switch kind {
	case "string":
		panic("boom " + marker(i))
	case "error":
		panic(&panicError{"failed " + marker(i)})
	case "wrapped":
		panic(fmt.Errorf("wrapped: %w", &panicError{"inner " + marker(i)}))
	case "ints":
		panic([]int{markerBase + i}) // formats like a marker
	case "stringer":
		panic(panicStringer{"value " + marker(i)})
	case "runtime":
		var s []int
		k := markerBase + i
		_ = s[k] // index out of range [700...]
	}
}

// try calls f and returns what it panicked with.
func try(f func()) (p any, panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			p = recover()
		}
	}()
	f()
	panicked = false
	return
}

// checkPanic checks that a recovered value is the panic of function want.
func checkPanic(p any, want int, kind string) string {
	text := fmt.Sprint(p)
	if e, ok := p.(error); ok {
		text = e.Error()
	}
	short := text
	if len(short) > 300 {
		short = short[:300]
	}
	if !strings.Contains(text, marker(want)) {
		return fmt.Sprintf("the panic value does not carry the message of function %d %s: %q", want, marker(want), short)
	}
	for _, m := range markerRE.FindAllString(text, -1) {
		if m != marker(want) {
			return fmt.Sprintf("the panic value carries the message of function %s, not only that of %s", m, marker(want))
		}
	}
	_, isErr := p.(error)
	_, isRT := p.(runtime.Error)
	switch kind {
	case "error", "wrapped":
		if !isErr {
			return fmt.Sprintf("an error value arrived as %T", p)
		}
		if isRT {
			return fmt.Sprintf("a plain error arrived as a runtime.Error (%T)", p)
		}
	case "runtime":
		if !isRT {
			return fmt.Sprintf("a run-time error arrived as %T", p)
		}
	}
	return ""
}
