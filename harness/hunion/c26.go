// Package hunion: unions, Maybe, Result and tuples.
package hunion

import (
	"errors"
	"fmt"
	"math/big"

	"github.com/bantling/micro/tuple"
	"github.com/bantling/micro/union"
	"verifharness/sym"
)

var errA, errB = errors.New("a"), errors.New("b")

// read calls an accessor: the value, or whether it panicked.
func read[T any](f func() T) (v T, panicked bool) {
	defer func() { panicked = recover() != nil }()
	v = f()
	return
}

func steps(q, t int) int {
	if sym.Thorough() {
		return sym.Choice(t + 1)
	}
	return sym.Choice(q + 1)
}

// member checks an accessor against the member that is set.
func member[T comparable](which, self int, f func() T, want T, what string) {
	v, p := read(f)
	sym.Assert(p == (which != self), what+": panics exactly when another member is set")
	if which == self {
		sym.Assert(v == want, what+": another value")
	}
}

// C26_Two: any history of a union of two.
func C26_Two() {
	var (
		u     union.Two[int, string]
		which int
		t     int
		s     string
	)
	switch sym.Choice(3) {
	case 0: // the zero value holds the zero T
	case 1:
		t = sym.Int()
		u = union.Of2T[int, string](t)
	case 2:
		which, s = 1, sym.String(1)
		u = union.Of2U[int, string](s)
	}
	check := func() {
		sym.Assert(int(u.Which()) == which, "Two.Which")
		member(which, 0, u.T, t, "Two.T")
		member(which, 1, u.U, s, "Two.U")
		if which == 1 {
			sym.Assert(u.String() == s, "Two.String")
		} else {
			sym.Assert(u.String() == fmt.Sprintf("%v", t), "Two.String")
		}
	}
	check()
	for i, n := 0, steps(3, 5); i < n; i++ {
		if which = sym.Choice(2); which == 0 {
			t = sym.Int()
			u.SetT(t)
		} else {
			s = sym.String(1)
			u.SetU(s)
		}
		check()
	}
}

// C26_Three: any history of a union of three.
func C26_Three() {
	var (
		u     union.Three[int, string, bool]
		which int
		t     int
		s     string
		b     bool
	)
	switch sym.Choice(4) {
	case 0:
	case 1:
		t = sym.Int()
		u = union.Of3T[int, string, bool](t)
	case 2:
		which, s = 1, sym.String(2)
		u = union.Of3U[int, string, bool](s)
	case 3:
		which, b = 2, sym.Bool()
		u = union.Of3V[int, string, bool](b)
	}
	check := func() {
		sym.Assert(int(u.Which()) == which, "Three.Which")
		member(which, 0, u.T, t, "Three.T")
		member(which, 1, u.U, s, "Three.U")
		member(which, 2, u.V, b, "Three.V")
		if which == 1 {
			sym.Assert(u.String() == s, "Three.String")
		}
		if which == 2 {
			sym.Assert(u.String() == fmt.Sprintf("%v", b), "Three.String")
		}
	}
	check()
	for i, n := 0, steps(2, 3); i < n; i++ {
		switch which = sym.Choice(3); which {
		case 0:
			t = sym.Int()
			u.SetT(t)
		case 1:
			s = sym.String(2)
			u.SetU(s)
		case 2:
			b = sym.Bool()
			u.SetV(b)
		}
		check()
	}
}

// C26_Four: any history of a union of four, two of them of the same type.
func C26_Four() {
	var (
		u     union.Four[int, int, string, *int]
		which int
		t, v  int
		s     string
		p     *int
	)
	switch sym.Choice(5) {
	case 0:
	case 1:
		t = sym.Int()
		u = union.Of4T[int, int, string, *int](t)
	case 2:
		which, v = 1, sym.Int()
		u = union.Of4U[int, int, string, *int](v)
	case 3:
		which, s = 2, sym.String(1)
		u = union.Of4V[int, int, string, *int](s)
	case 4:
		which, p = 3, &t
		u = union.Of4W[int, int, string, *int](p)
	}
	check := func() {
		sym.Assert(int(u.Which()) == which, "Four.Which")
		member(which, 0, u.T, t, "Four.T")
		member(which, 1, u.U, v, "Four.U")
		member(which, 2, u.V, s, "Four.V")
		member(which, 3, u.W, p, "Four.W")
		switch which {
		case 0:
			sym.Assert(u.String() == fmt.Sprintf("%v", t), "Four.String")
		case 1:
			sym.Assert(u.String() == fmt.Sprintf("%v", v), "Four.String")
		case 2:
			sym.Assert(u.String() == s, "Four.String")
		}
	}
	check()
	for i, n := 0, steps(2, 3); i < n; i++ {
		switch which = sym.Choice(4); which {
		case 0:
			t = sym.Int()
			u.SetT(t)
		case 1:
			v = sym.Int()
			u.SetU(v)
		case 2:
			s = sym.String(1)
			u.SetV(s)
		case 3:
			p = nil
			if sym.Choice(2) == 0 {
				p = &v
			}
			u.SetW(p)
		}
		check()
	}
}

// C26_Which: the names of the members.
func C26_Which() {
	w := sym.Choice(4)
	sym.Assert(union.Which(w).String() == string("TUVW"[w]), "Which.String")
	sym.Assert(union.Which(sym.Uint()%4) <= union.W, "Which")
}

// maybe checks everything a Maybe reports.
func maybe[T comparable](m union.Maybe[T], present bool, want, other T) {
	sym.Assert(m.Present() == present, "Maybe.Present")
	sym.Assert(m.Empty() == !present, "Maybe.Empty")
	v, p := read(m.Get)
	sym.Assert(p == !present, "Maybe.Get panics exactly when empty")
	o := m.OrElse(other)
	r, err := m.OrError(errA)
	if present {
		sym.Assert(v == want, "Maybe.Get: another value")
		sym.Assert(o == want, "Maybe.OrElse: not the value")
		sym.Assert(r == want && err == nil, "Maybe.OrError: not the value")
	} else {
		var zv T
		sym.Assert(o == other, "Maybe.OrElse: not the other value")
		sym.Assert(r == zv && err == errA, "Maybe.OrError: not the error")
	}
}

// history is any history of a Maybe, of any values; some of them may be nil.
func history[T comparable](val func() T, isNil func(T) bool) {
	var (
		m       union.Maybe[T]
		present bool
		want    T
	)
	switch sym.Choice(5) {
	case 0:
	case 1:
		want = val()
		m, present = union.Of(want), !isNil(want)
	case 2:
		m = union.Empty[T]()
	case 3:
		want = val()
		var p bool
		m, p = read(func() union.Maybe[T] { return union.Present(want) })
		sym.Assert(p == isNil(want), "Present panics exactly for nil")
		present = !p
	case 4:
		n := sym.Choice(3)
		s := make([]T, n)
		for i := range s {
			s[i] = val()
		}
		m = union.First(s)
		if n > 0 {
			want, present = s[0], !isNil(s[0])
		}
	}
	other := val()
	maybe(m, present, want, other)
	for i, n := 0, steps(2, 4); i < n; i++ {
		switch sym.Choice(3) {
		case 0:
			want = val()
			m.Set(want)
			present = !isNil(want)
		case 1:
			m.SetEmpty()
			present = false
		case 2:
			v := val()
			err := m.SetOrError(v)
			sym.Assert((err != nil) == present, "Maybe.SetOrError: an error exactly when present")
			if !present {
				want, present = v, !isNil(v)
			}
		}
		maybe(m, present, want, other)
	}
}

// C26_Maybe: values that are never nil.
func C26_Maybe() {
	history(sym.Int, func(int) bool { return false })
}

// C26_MaybePointer: pointers.
func C26_MaybePointer() {
	a, b := sym.Int(), sym.Int()
	history(func() *int { return []*int{nil, &a, &b}[sym.Choice(3)] }, func(p *int) bool { return p == nil })
}

// C26_MaybeInterface: interfaces, with no value, with a value, with a nil value of a nillable type.
func C26_MaybeInterface() {
	history(func() any {
		switch sym.Choice(4) {
		case 0:
			return sym.Int()
		case 1:
			return (*int)(nil)
		case 2:
			return ""
		}
		return nil
	}, func(v any) bool { return v == nil || v == any((*int)(nil)) })
}

// C26_MaybeKinds: the kinds that are not comparable.
func C26_MaybeKinds() {
	sym.Assert(union.Of([]int(nil)).Empty(), "Of a nil slice")
	sym.Assert(union.Of([]int{}).Present(), "Of an empty slice")
	sym.Assert(union.Of(map[int]int(nil)).Empty(), "Of a nil map")
	sym.Assert(union.Of(map[int]int{}).Present(), "Of an empty map")
	sym.Assert(union.Of((func())(nil)).Empty(), "Of a nil function")
	sym.Assert(union.Of(func() {}).Present(), "Of a function")
	sym.Assert(union.Of((chan int)(nil)).Empty(), "Of a nil channel")
	sym.Assert(union.Of(make(chan int)).Present(), "Of a channel")
	sym.Assert(union.Of(error(nil)).Empty(), "Of a nil error")
	sym.Assert(union.Of(errA).Present(), "Of an error")
	sym.Assert(union.Of((*big.Int)(nil)).Empty(), "Of a nil number")
	sym.Assert(union.Of(struct{}{}).Present(), "Of an empty struct")
	sym.Assert(union.Of([2]*int{}).Present(), "Of an array")
	s := []int{sym.Int(), sym.Int()}
	m := union.Of(s)
	for i, v := range m.Get() {
		sym.Assert(v == s[i], "Maybe of a slice")
	}
	m.Set(nil)
	sym.Assert(m.Empty(), "Set a nil slice")
	x := sym.Int()
	sym.Assert(union.Of(x).String() == fmt.Sprintf("%v", x), "Maybe.String")
	t := sym.String(3)
	sym.Assert(union.Of(t).String() == t, "Maybe.String")
	sym.Assert(union.Empty[int]().String() == "Empty union.Maybe[int]", "Maybe.String")
}

// result checks everything a Result reports.
func result[T comparable](r union.Result[T], v T, err error) {
	sym.Assert(r.HasError() == (err != nil), "Result.HasError")
	sym.Assert(r.HasResult() == (err == nil), "Result.HasResult")
	sym.Assert(r.Error() == err, "Result.Error")
	if err != nil {
		var zv T
		v = zv
	}
	sym.Assert(r.Get() == v, "Result.Get")
}

func results[T comparable](v T) {
	var zv T
	err := []error{nil, errA, errB}[sym.Choice(3)]
	result(union.Result[T]{}, zv, nil)
	result(union.OfResult(v), v, nil)
	r, p := read(func() union.Result[T] { return union.OfError[T](err) })
	sym.Assert(p == (err == nil), "OfError panics exactly for a nil error")
	if !p {
		result(r, zv, err)
	}
	r, p = read(func() union.Result[T] { return union.OfResultError(v, err) })
	sym.Assert(p == sym.And(err != nil, v != zv), "OfResultError panics exactly for both a value and an error")
	if !p {
		result(r, v, err)
	}
	if err != nil {
		sym.Assert(union.OfError[T](err).String() == err.Error(), "Result.String")
	}
}

// C26_Result: results of every kind.
func C26_Result() {
	switch sym.Choice(7) {
	case 0:
		results(sym.Int())
	case 1:
		results(sym.String(sym.Choice(2)))
	case 2:
		x := sym.Int()
		results([]*int{nil, &x}[sym.Choice(2)])
	case 3:
		x := sym.Int()
		results([]any{nil, x, "", (*int)(nil)}[sym.Choice(4)])
	case 4:
		results(struct {
			A int
			b string
		}{sym.Int(), sym.String(1)})
	case 5:
		results([2]int{sym.Int(), sym.Int()})
	case 6:
		results(sym.Bool())
	}
}

// C26_ResultFloat: of a number with a fraction, negative zero is not the zero value for reflection.
//
//sym:bv
func C26_ResultFloat() {
	v := sym.Float64()
	sym.Assume(v == v)
	sym.Assume(v != 0)
	results(v)
}

// C26_ResultSlice: a value that is not comparable.
func C26_ResultSlice() {
	n := sym.Choice(3)
	var s []int
	if n > 0 {
		s = make([]int, n-1)
	}
	r, p := read(func() union.Result[[]int] { return union.OfResultError(s, errA) })
	sym.Assert(p == (s != nil), "OfResultError panics exactly for both a value and an error")
	if !p {
		sym.Assert(r.Get() == nil && r.Error() == errA, "OfResultError")
	}
	r = union.OfResultError(s, nil)
	sym.Assert(len(r.Get()) == len(s) && r.HasResult(), "OfResultError")
}

// C26_Tuple: tuples hold what they were made of.
func C26_Tuple() {
	a, b, c, d := sym.Int(), sym.String(1), sym.Bool(), sym.Int8()
	t2 := tuple.Of2(a, b)
	x, y := t2.Values()
	sym.Assert(t2.T == a && t2.U == b && x == a && y == b, "Two")
	t3 := tuple.Of3(a, b, c)
	{
		x, y, z := t3.Values()
		sym.Assert(t3.T == a && t3.U == b && t3.V == c && x == a && y == b && z == c, "Three")
	}
	t4 := tuple.Of4(a, b, c, d)
	{
		x, y, z, w := t4.Values()
		sym.Assert(t4.T == a && t4.U == b && t4.V == c && t4.W == d && x == a && y == b && z == c && w == d, "Four")
	}
	e, f, g, h := sym.Int(), sym.Int(), sym.Int(), sym.Int()
	sym.Assert(tuple.Of2Same(e, f) == tuple.Of2(e, f), "Of2Same")
	sym.Assert(tuple.Of3Same(e, f, g) == tuple.Of3(e, f, g), "Of3Same")
	sym.Assert(tuple.Of4Same(e, f, g, h) == tuple.Of4(e, f, g, h), "Of4Same")
	s := sym.String(2)
	sym.Assert(tuple.Of2(s, true).String() == "{T: "+s+", U: true}", "Two.String")
	sym.Assert(tuple.Of3(1, s, b).String() == "{T: 1, U: "+s+", V: "+b+"}", "Three.String")
	sym.Assert(tuple.Of4(b, s, nil2(), 7).String() == "{T: "+b+", U: "+s+", V: <nil>, W: 7}", "Four.String")
}

func nil2() error { return nil }
