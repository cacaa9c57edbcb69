package hfuncs

import (
	"errors"
	"reflect"

	"github.com/bantling/micro/funcs"
	"verifharness/sym"
)

func caught(f func()) (v any) {
	defer func() { v = recover() }()
	f()
	return
}

// C29_TryTo: the closers run once each, in reverse order, after the body and before the handler, whatever panics.
func C29_TryTo() {
	n := size(3, 4)
	body := sym.Choice(2) // 1: panics
	handler := sym.Choice(2)
	var log []int
	last := 0 // what the last panic was
	var closers []func()
	bad := make([]bool, n)
	for i := 0; i < n; i++ {
		i := i
		bad[i] = sym.Choice(2) == 1
		closers = append(closers, func() {
			log = append(log, i)
			if bad[i] {
				panic(100 + i)
			}
		})
	}
	var seen []any
	out := caught(func() {
		funcs.TryTo(func() {
			log = append(log, 10)
			if body == 1 {
				panic(99)
			}
		}, func(v any) {
			log = append(log, 11)
			seen = append(seen, v)
			if handler == 1 {
				panic("handler")
			}
		}, closers...)
	})
	want := []int{10}
	if body == 1 {
		last = 99
	}
	for i := n - 1; i >= 0; i-- {
		want = append(want, i)
		if bad[i] {
			last = 100 + i
		}
	}
	if last != 0 {
		want = append(want, 11)
		sym.Assert(len(seen) == 1 && seen[0] == any(last), "TryTo: the handler does not get the panic value")
	}
	equal(log, want, "TryTo: what ran")
	if last != 0 && handler == 1 {
		sym.Assert(out == any("handler"), "TryTo: a panic of the handler is lost")
	} else {
		sym.Assert(out == nil, "TryTo: a panic escapes")
	}
}

// C29_Must: panic with the error, or pass the values on.
func C29_Must() {
	a, b, c := sym.Int(), sym.Int64(), sym.Bool()
	var err error
	if sym.Choice(2) == 1 {
		err = errors.New("e")
	}
	check := func(f func(), what string) {
		v := caught(f)
		if err == nil {
			sym.Assert(v == nil, what+": panics without an error")
		} else {
			sym.Assert(v == any(err), what+": does not panic with the error")
		}
	}
	check(func() { funcs.Must(err) }, "Must")
	check(func() { sym.Assert(funcs.MustValue(a, err) == a && err == nil, "MustValue") }, "MustValue")
	check(func() {
		x, y := funcs.MustValue2(a, b, err)
		sym.Assert(x == a && y == b, "MustValue2")
	}, "MustValue2")
	check(func() {
		x, y, z := funcs.MustValue3(a, b, c, err)
		sym.Assert(x == a && y == b && z == c, "MustValue3")
	}, "MustValue3")
	sym.Assert(funcs.FirstValue2(a, b) == a && funcs.SecondValue2(a, b) == b, "FirstValue2, SecondValue2")
	sym.Assert(funcs.FirstValue3(a, b, c) == a && funcs.SecondValue3(a, b, c) == b && funcs.ThirdValue3(a, b, c) == c, "FirstValue3, SecondValue3, ThirdValue3")
	v := caught(func() { sym.Assert(funcs.MustNonZero(a) == a && a != 0, "MustNonZero") })
	sym.Assert((v != nil) == (a == 0), "MustNonZero: panics exactly for zero")
	s := ints(sym.Choice(3))
	v = caught(func() { equal(funcs.MustNonEmptySlice(s), s, "MustNonEmptySlice") })
	sym.Assert((v != nil) == (len(s) == 0), "MustNonEmptySlice: panics exactly for an empty slice")
	var x any = a
	if sym.Choice(2) == 1 {
		x = b
	}
	v = caught(func() { sym.Assert(funcs.MustAssertType[int]("m", x) == a, "MustAssertType") })
	_, is := x.(int)
	sym.Assert((v != nil) == !is, "MustAssertType: panics exactly for another type")
}

// C29_MustConvert: the panicking versions of the conversions.
func C29_MustConvert() {
	a := sym.Int()
	ok := sym.Choice(2) == 0
	var e any = a
	if !ok {
		e = "x"
	}
	v := caught(func() {
		r := funcs.MustConvertToSlice[int]("m", []any{e})
		sym.Assert(len(r) == 1 && r[0] == a, "MustConvertToSlice")
	})
	sym.Assert((v != nil) == !ok, "MustConvertToSlice: panic")
	v = caught(func() {
		r := funcs.MustConvertToSlice2[int]("m", []any{[]any{e}})
		sym.Assert(len(r) == 1 && len(r[0]) == 1 && r[0][0] == a, "MustConvertToSlice2")
	})
	sym.Assert((v != nil) == !ok, "MustConvertToSlice2: panic")
	v = caught(func() {
		r := funcs.MustConvertToMap[int, int]("m", map[int]any{1: e})
		sym.Assert(len(r) == 1 && r[1] == a, "MustConvertToMap")
	})
	sym.Assert((v != nil) == !ok, "MustConvertToMap: panic")
}

// C29_Suppliers: the same value each time, one call at most.
func C29_Suppliers() {
	v := sym.Int()
	calls := 0
	s := funcs.SupplierCached(func() int { calls++; return v + calls - 1 })
	sym.Assert(calls == 0, "SupplierCached: called before it is needed")
	n := sym.Choice(4)
	for i := 0; i < n; i++ {
		sym.Assert(s() == v, "SupplierCached: another value")
		sym.Assert(calls == 1, "SupplierCached: called more than once")
	}
	p := funcs.SupplierCached(func() *int { calls++; return nil })
	calls = 0
	for i := 0; i < n; i++ {
		sym.Assert(p() == nil && calls == 1, "SupplierCached: zero values are not cached")
	}
	f := funcs.SupplierOf(v)
	sym.Assert(f() == v && f() == v, "SupplierOf")
	calls = 0
	g := funcs.IgnoreResult(func() int { calls++; return v })
	sym.Assert(calls == 0, "IgnoreResult: called at once")
	g()
	sym.Assert(calls == 1, "IgnoreResult: not called")
}

// C29_Ternary: the chosen branch, and only that.
func C29_Ternary() {
	c, a, b := sym.Bool(), sym.Int(), sym.Int()
	want := b
	if c {
		want = a
	}
	sym.Assert(funcs.Ternary(c, a, b) == want, "Ternary")
	na, nb := 0, 0
	var fa, fb func() int
	if sym.Choice(2) == 0 {
		fa = func() int { na++; return a }
	} else if c {
		want = 0
	}
	if sym.Choice(2) == 0 {
		fb = func() int { nb++; return b }
	} else if !c {
		want = 0
	}
	sym.Assert(funcs.TernaryResult(c, fa, fb) == want, "TernaryResult")
	ca, cb := 0, 0
	if c && fa != nil {
		ca = 1
	}
	if !c && fb != nil {
		cb = 1
	}
	sym.Assert(na == ca && nb == cb, "TernaryResult: calls")
}

// C29_Compose: the functions one after the other, in order.
//
//sym:bv
func C29_Compose() {
	x := sym.Int()
	// Not commuting with each other.
	f := func(i int) func(int) int { return func(v int) int { return (v^i*7)*3 + i } }
	r := x
	step := func(i int) int { r = f(i)(r); return r }
	w1 := step(0)
	sym.Assert(funcs.Compose(f(0))(x) == w1, "Compose of one")
	w2 := step(1)
	sym.Assert(funcs.Compose2(f(0), f(1))(x) == w2, "Compose2")
	sym.Assert(funcs.Compose(f(0), f(1))(x) == w2, "Compose of two")
	w3 := step(2)
	sym.Assert(funcs.Compose3(f(0), f(1), f(2))(x) == w3, "Compose3")
	sym.Assert(funcs.Compose(f(0), f(1), f(2))(x) == w3, "Compose of three")
	sym.Assert(funcs.Compose4(f(0), f(1), f(2), f(3))(x) == step(3), "Compose4")
	sym.Assert(funcs.Compose5(f(0), f(1), f(2), f(3), f(4))(x) == step(4), "Compose5")
	sym.Assert(funcs.Compose6(f(0), f(1), f(2), f(3), f(4), f(5))(x) == step(5), "Compose6")
	sym.Assert(funcs.Compose7(f(0), f(1), f(2), f(3), f(4), f(5), f(6))(x) == step(6), "Compose7")
	sym.Assert(funcs.Compose8(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7))(x) == step(7), "Compose8")
	sym.Assert(funcs.Compose9(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8))(x) == step(8), "Compose9")
	sym.Assert(funcs.Compose10(f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9))(x) == step(9), "Compose10")
}

// C29_Nil: nil is recognised for every nillable kind, and nothing else is nil.
func C29_Nil() {
	x := sym.Int()
	isNil := sym.Choice(2) == 1
	var v any
	switch sym.Choice(8) {
	case 0:
		p := &x
		if isNil {
			p = nil
		}
		v = p
		sym.Assert(funcs.IsNil[*int]()(p) == isNil && funcs.IsNonNil[*int]()(p) == !isNil, "IsNil: pointer")
	case 1:
		s := []int{x}
		if isNil {
			s = nil
		}
		v = s
		sym.Assert(funcs.IsNil[[]int]()(s) == isNil && funcs.IsNonNil[[]int]()(s) == !isNil, "IsNil: slice")
	case 2:
		m := map[int]int{x: 1}
		if isNil {
			m = nil
		}
		v = m
		sym.Assert(funcs.IsNil[map[int]int]()(m) == isNil, "IsNil: map")
	case 3:
		f := func() {}
		if isNil {
			f = nil
		}
		v = f
		sym.Assert(funcs.IsNil[func()]()(f) == isNil, "IsNil: func")
	case 4:
		c := make(chan int)
		if isNil {
			c = nil
		}
		v = c
		sym.Assert(funcs.IsNil[chan int]()(c) == isNil, "IsNil: chan")
	case 5:
		sym.Assume(!isNil)
		v = x
		sym.Assert(caught(func() { funcs.IsNil[int]() }) != nil && caught(func() { funcs.IsNonNil[int]() }) != nil, "IsNil: of int")
		sym.Assert(caught(func() { funcs.MustNonNilValue(x) }) != nil, "MustNonNilValue: of int")
		sym.Assert(caught(func() { funcs.MustBeNillable(reflect.TypeOf(x)) }) != nil, "MustBeNillable: of int")
	case 6:
		sym.Assume(!isNil)
		v = struct{ p *int }{nil}
	case 7:
		sym.Assume(isNil)
	}
	sym.Assert(funcs.IsNilValue(v) == isNil, "IsNilValue")
	if p, is := v.(*int); is {
		c := caught(func() { sym.Assert(funcs.MustNonNilValue(p) == p, "MustNonNilValue") })
		sym.Assert((c != nil) == isNil, "MustNonNilValue: panics exactly for nil")
		sym.Assert(funcs.Nillable(reflect.TypeOf(p)) && caught(func() { funcs.MustBeNillable(reflect.TypeOf(p)) }) == nil, "Nillable: pointer")
	}
}
