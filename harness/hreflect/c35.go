// Package hreflect: the reflection helpers, and reflective access to a Maybe.
package hreflect

import (
	"errors"
	"math/big"
	goreflect "reflect"

	"github.com/bantling/micro/reflect"
	"github.com/bantling/micro/union"
	ureflect "github.com/bantling/micro/union/reflect"
	"verifharness/sym"
)

var errA = errors.New("a")

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

// pointers is a value with zero to three pointers to it; the pointer at level nilAt (counted from the value) is nil:
// 1 is the pointer to the value itself. 0 has none that is nil.
func pointers[T any](v *T) (val goreflect.Value, ptrs, nilAt int) {
	ptrs = sym.Choice(4)
	nilAt = sym.Choice(ptrs + 1)
	p1 := v
	if nilAt == 1 {
		p1 = nil
	}
	p2 := &p1
	if nilAt == 2 {
		p2 = nil
	}
	p3 := &p2
	if nilAt == 3 {
		p3 = nil
	}
	switch ptrs {
	case 0:
		return goreflect.ValueOf(*v), ptrs, nilAt
	case 1:
		return goreflect.ValueOf(p1), ptrs, nilAt
	case 2:
		return goreflect.ValueOf(p2), ptrs, nilAt
	}
	return goreflect.ValueOf(p3), ptrs, nilAt
}

func deref[T comparable](x T) {
	v, ptrs, nilAt := pointers(&x)
	typ := goreflect.TypeOf(x)
	sym.Assert(reflect.DerefType(v.Type()) == typ, "DerefType")
	sym.Assert(reflect.NumPointers(v.Type()) == ptrs, "NumPointers")
	one := reflect.DerefTypeMaxOnePtr(v.Type())
	if ptrs == 0 {
		sym.Assert(one == typ, "DerefTypeMaxOnePtr")
	} else {
		sym.Assert(one == goreflect.TypeOf(&x), "DerefTypeMaxOnePtr")
	}

	d := reflect.DerefValue(v)
	if nilAt > 0 {
		sym.Assert(!d.IsValid(), "DerefValue of a nil pointer")
	} else {
		sym.Assert(d.IsValid() && d.Type() == typ && d.Interface().(T) == x, "DerefValue")
	}

	o := reflect.DerefValueMaxOnePtr(v)
	switch {
	case nilAt > 1:
		sym.Assert(!o.IsValid(), "DerefValueMaxOnePtr of a nil pointer to a pointer")
	case ptrs == 0:
		sym.Assert(o.Interface().(T) == x, "DerefValueMaxOnePtr")
	case nilAt == 1:
		sym.Assert(o.Type() == goreflect.TypeOf(&x) && o.IsNil(), "DerefValueMaxOnePtr of a nil pointer")
	default:
		sym.Assert(o.Type() == goreflect.TypeOf(&x) && o.Interface().(*T) == &x, "DerefValueMaxOnePtr")
	}

	m := reflect.ValueMaxOnePtrType(v)
	if ptrs > 1 {
		sym.Assert(m == nil, "ValueMaxOnePtrType of more pointers")
	} else {
		sym.Assert(m == typ, "ValueMaxOnePtrType")
	}
	sym.Assert(reflect.IsNil(v) == (ptrs > 0 && nilAt == ptrs), "IsNil")
}

// C35_Deref: values of every kind with zero to three pointers, some nil.
func C35_Deref() {
	switch sym.Choice(5) {
	case 0:
		deref(sym.Int())
	case 1:
		deref(sym.String(2))
	case 2:
		deref(struct{ a, b int }{sym.Int(), sym.Int()})
	case 3:
		deref([2]bool{sym.Bool(), sym.Bool()})
	case 4:
		deref(union.Of(sym.Int()))
	}
}

// C35_Invalid: the helpers that take any value take an invalid one.
func C35_Invalid() {
	var v goreflect.Value
	sym.Assert(!reflect.DerefValue(v).IsValid(), "DerefValue")
	sym.Assert(!reflect.DerefValueMaxOnePtr(v).IsValid(), "DerefValueMaxOnePtr")
	sym.Assert(reflect.ValueMaxOnePtrType(v) == nil, "ValueMaxOnePtrType")
	sym.Assert(reflect.IsNil(v), "IsNil")
	sym.Assert(!reflect.ResolveValueType(v).IsValid(), "ResolveValueType")
	sym.Assert(!ureflect.MaybeValueIsPresent(v), "MaybeValueIsPresent")
	sym.Assert(!ureflect.GetMaybeValue(v).IsValid(), "GetMaybeValue")
	sym.Assert(ureflect.SetMaybeValue(v, goreflect.ValueOf(1)) != nil, "SetMaybeValue")
	sym.Assert(ureflect.SetMaybeValueEmpty(v) != nil, "SetMaybeValueEmpty")
}

type (
	mInt    int
	mUint8  uint8
	mString string
	mBool   bool
	mFloat  float64
)

// subtypes that are named as the type they are of
type (
	goInt16  = int16
	goString = string
)

func sameNameInt() any {
	type int16 goInt16
	return int16(1)
}

func sameNameString() any {
	type string goString
	return string("x")
}

// kinds is a value of each kind with what the predicates must say.
type kind struct {
	v                                          any
	signed, unsigned, numeric, nillable, basic bool
	base                                       goreflect.Type // of a subtype
}

func kinds() []kind {
	return []kind{
		{v: int(1), signed: true, numeric: true, basic: true},
		{v: int8(1), signed: true, numeric: true, basic: true},
		{v: int16(1), signed: true, numeric: true, basic: true},
		{v: int32(1), signed: true, numeric: true, basic: true},
		{v: int64(1), signed: true, numeric: true, basic: true},
		{v: uint(1), unsigned: true, numeric: true, basic: true},
		{v: uint8(1), unsigned: true, numeric: true, basic: true},
		{v: uint16(1), unsigned: true, numeric: true, basic: true},
		{v: uint32(1), unsigned: true, numeric: true, basic: true},
		{v: uint64(1), unsigned: true, numeric: true, basic: true},
		{v: uintptr(1)},
		{v: float32(1), numeric: true, basic: true},
		{v: float64(1), numeric: true, basic: true},
		{v: big.NewInt(1), numeric: true, nillable: true},
		{v: big.NewFloat(1), numeric: true, nillable: true},
		{v: big.NewRat(1, 2), numeric: true, nillable: true},
		{v: "", basic: true},
		{v: true, basic: true},
		{v: mInt(1), signed: true, numeric: true, basic: true, base: goreflect.TypeOf(0)},
		{v: mUint8(1), unsigned: true, numeric: true, basic: true, base: goreflect.TypeOf(uint8(0))},
		{v: mFloat(1), numeric: true, basic: true, base: goreflect.TypeOf(0.0)},
		{v: mString(""), basic: true, base: goreflect.TypeOf("")},
		{v: mBool(true), basic: true, base: goreflect.TypeOf(true)},
		{v: sameNameInt(), signed: true, numeric: true, basic: true, base: goreflect.TypeOf(int16(0))},
		{v: sameNameString(), basic: true, base: goreflect.TypeOf("")},
		{v: []int{}, nillable: true},
		{v: [1]int{}},
		{v: map[int]int{}, nillable: true},
		{v: struct{}{}},
		{v: func() {}, nillable: true},
		{v: make(chan int), nillable: true},
		{v: new(int), nillable: true},
	}
}

// C35_Kinds: what the predicates say of each kind.
func C35_Kinds() {
	ks := kinds()
	k := ks[sym.Choice(len(ks))]
	t := goreflect.TypeOf(k.v)
	sym.Assert(reflect.IsSignedInteger(t) == k.signed, "IsSignedInteger")
	sym.Assert(reflect.IsUnsignedInteger(t) == k.unsigned, "IsUnsignedInteger")
	sym.Assert(reflect.IsNumeric(t) == k.numeric, "IsNumeric")
	sym.Assert(reflect.IsBigPtr(t) == (k.numeric && k.nillable), "IsBigPtr")
	sym.Assert(reflect.IsNillable(t) == k.nillable, "IsNillable")
	sym.Assert(reflect.IsNillable(goreflect.ValueOf(k.v)) == k.nillable, "IsNillable")
	sym.Assert(reflect.IsPrimitive(t) == k.basic, "IsPrimitive")
	sym.Assert(!reflect.IsNil(goreflect.ValueOf(k.v)), "IsNil")
	sym.Assert(reflect.TypeToBaseType(t) == k.base, "TypeToBaseType")
	b := reflect.ValueToBaseType(goreflect.ValueOf(k.v))
	if k.base != nil {
		sym.Assert(b.Type() == k.base, "ValueToBaseType")
	} else {
		sym.Assert(b.Type() == t, "ValueToBaseType")
	}
	sym.Assert(reflect.TypeOf(goreflect.ValueOf(k.v)) == t.String(), "TypeOf")
}

// C35_Base: the value converted to its base type is the same, as is what a pointer to it points at.
func C35_Base() {
	i, u, s := mInt(sym.Int()), mUint8(sym.Uint8()), mString(sym.String(2))
	switch sym.Choice(6) {
	case 0:
		sym.Assert(reflect.ValueToBaseType(goreflect.ValueOf(i)).Interface() == any(int(i)), "ValueToBaseType")
	case 1:
		sym.Assert(reflect.ValueToBaseType(goreflect.ValueOf(u)).Interface() == any(uint8(u)), "ValueToBaseType")
	case 2:
		sym.Assert(reflect.ValueToBaseType(goreflect.ValueOf(s)).Interface() == any(string(s)), "ValueToBaseType")
	case 3:
		p := reflect.ValueToBaseType(goreflect.ValueOf(&i)).Interface().(*int)
		sym.Assert(*p == int(i), "ValueToBaseType of a pointer")
		*p++
		sym.Assert(*p == int(i), "ValueToBaseType of a pointer points elsewhere")
	case 4:
		p := reflect.ValueToBaseType(goreflect.ValueOf(&s)).Interface().(*string)
		sym.Assert(*p == string(s), "ValueToBaseType of a pointer")
	case 5:
		// a nil pointer to a subtype or another type does not panic
		var (
			a *mInt
			b *int
		)
		sym.Assert(reflect.IsNil(reflect.ValueToBaseType(goreflect.ValueOf(a))), "ValueToBaseType of a nil pointer")
		sym.Assert(reflect.ValueToBaseType(goreflect.ValueOf(b)).Interface() == any(b), "ValueToBaseType of a nil pointer")
	}
}

// C35_Resolve: a value in an interface resolves to the value.
func C35_Resolve() {
	x := sym.Int()
	s := []any{x, "a", nil, &x}
	i := sym.Choice(4)
	v := reflect.ResolveValueType(goreflect.ValueOf(s).Index(i))
	if s[i] == nil {
		sym.Assert(!v.IsValid(), "ResolveValueType of a nil interface")
		return
	}
	sym.Assert(v.Type() == goreflect.TypeOf(s[i]) && v.Interface() == s[i], "ResolveValueType")
	w := goreflect.ValueOf(x)
	sym.Assert(reflect.ResolveValueType(w).Interface() == any(x), "ResolveValueType of a value")
	// any other value is the result itself, not a copy: it can still be set
	y := 0
	reflect.ResolveValueType(goreflect.ValueOf(&y).Elem()).SetInt(5)
	sym.Assert(y == 5, "ResolveValueType of a variable")
	for j, t := range []any{0, "", false, &x} {
		same := i == j
		err := reflect.TypeAssert(goreflect.ValueOf(s).Index(i), goreflect.TypeOf(t))
		sym.Assert((err == nil) == same, "TypeAssert")
		sym.Assert(panics(func() { reflect.MustTypeAssert(goreflect.ValueOf(s).Index(i), goreflect.TypeOf(t), "m") }) == !same, "MustTypeAssert")
	}
}

// C35_Set: a value is stored behind any number of pointers.
func C35_Set() {
	var (
		x  int
		p1 = &x
		p2 = &p1
		v  = sym.Int8()
		d  = []goreflect.Value{goreflect.ValueOf(p1), goreflect.ValueOf(p2), goreflect.ValueOf(&p2)}[sym.Choice(3)]
	)
	if sym.Choice(2) == 0 {
		reflect.SetPointerValue(d, goreflect.ValueOf(v))
	} else {
		reflect.SetPointerValue(d, goreflect.ValueOf(int(v)))
	}
	sym.Assert(x == int(v), "SetPointerValue: another value")
	sym.Assert(p1 == &x && p2 == &p1, "SetPointerValue: another pointer")
}

// C35_Fields: all fields of a struct by name.
func C35_Fields() {
	type s struct {
		A int
		b string
		C *int
	}
	t := goreflect.TypeOf(s{})
	f := reflect.FieldsByName(t)
	sym.Assert(len(f) == 3, "FieldsByName")
	for i := 0; i < 3; i++ {
		w := t.Field(i)
		sym.Assert(f[w.Name].Name == w.Name && f[w.Name].Type == w.Type, "FieldsByName")
		sym.Assert(reflect.GetFieldByName(t, w.Name).Type == w.Type, "GetFieldByName")
	}
	sym.Assert(panics(func() { reflect.GetFieldByName(t, "D") }), "GetFieldByName of no field")
	sym.Assert(reflect.FieldsByName(goreflect.TypeOf(0)) == nil, "FieldsByName of no struct")
	sym.Assert(reflect.FieldsByName(goreflect.TypeOf(struct{}{})) == nil, "FieldsByName of no fields")
}

// maybe checks reflective access to a Maybe through zero to three pointers, some nil.
func maybe[T comparable](m union.Maybe[T], val func() T, isNil func(T) bool) {
	orig := m
	v, ptrs, nilAt := pointers(&m)
	sym.Assert(ureflect.GetMaybeType(v.Type()) == goreflect.TypeOf((*T)(nil)).Elem(), "GetMaybeType")
	sym.Assert(ureflect.MaybeValueIsPresent(v) == (nilAt == 0 && m.Present()), "MaybeValueIsPresent")
	g := ureflect.GetMaybeValue(v)
	if nilAt > 0 || m.Empty() {
		sym.Assert(!g.IsValid(), "GetMaybeValue: a value of an empty Maybe")
	} else {
		sym.Assert(g.IsValid() && g.Interface() == any(m.Get()), "GetMaybeValue: another value")
	}
	switch sym.Choice(3) {
	case 0:
		x := val()
		err := ureflect.SetMaybeValue(v, goreflect.ValueOf(&x).Elem())
		if ptrs == 0 || nilAt > 0 {
			sym.Assert(err != nil, "SetMaybeValue: no error")
			sym.Assert(m == orig, "SetMaybeValue: set in spite of an error")
		} else {
			sym.Assert(err == nil, "SetMaybeValue: an error")
			sym.Assert(m.Present() == !isNil(x), "SetMaybeValue: present")
			sym.Assert(!m.Present() || m.Get() == x, "SetMaybeValue: another value")
		}
	case 1:
		err := ureflect.SetMaybeValueEmpty(v)
		if ptrs == 0 || nilAt > 0 {
			sym.Assert(err != nil, "SetMaybeValueEmpty: no error")
			sym.Assert(m == orig, "SetMaybeValueEmpty: set in spite of an error")
		} else {
			sym.Assert(err == nil, "SetMaybeValueEmpty: an error")
			sym.Assert(m.Empty(), "SetMaybeValueEmpty: not empty")
		}
	case 2:
		// no T
		w := []goreflect.Value{{}, goreflect.ValueOf(int16(1)), goreflect.ValueOf(mString("a"))}[sym.Choice(3)]
		if goreflect.TypeOf((*T)(nil)).Elem().Kind() == goreflect.Interface {
			w = goreflect.Value{}
		}
		sym.Assert(ureflect.SetMaybeValue(v, w) != nil, "SetMaybeValue: no error for another type")
		sym.Assert(m == orig, "SetMaybeValue: set in spite of an error")
	}
}

// C35_Maybe: of values, pointers and interfaces.
func C35_Maybe() {
	switch sym.Choice(4) {
	case 0:
		var m union.Maybe[int]
		if sym.Choice(2) == 0 {
			m.Set(sym.Int())
		}
		maybe(m, sym.Int, func(int) bool { return false })
	case 1:
		a, b := sym.Int(), sym.Int()
		ptr := func() *int { return []*int{nil, &a, &b}[sym.Choice(3)] }
		maybe(union.Of(ptr()), ptr, func(p *int) bool { return p == nil })
	case 2:
		a := sym.Int()
		ival := func() any { return []any{nil, a, "", (*int)(nil)}[sym.Choice(4)] }
		maybe(union.Of(ival()), ival, func(v any) bool { return v == nil || v == any((*int)(nil)) })
	case 3:
		type s struct {
			A string
			B *int
		}
		x := sym.Int()
		val := func() s { return s{sym.String(1), &x} }
		var m union.Maybe[s]
		if sym.Choice(2) == 0 {
			m.Set(val())
		}
		maybe(m, val, func(s) bool { return false })
	}
}

// C35_MaybeField: a Maybe that is a field of a struct, addressable without a pointer.
func C35_MaybeField() {
	var f struct {
		A int
		M union.Maybe[int]
		N int
	}
	f.A, f.N = sym.Int(), sym.Int()
	want := f
	if sym.Choice(2) == 0 {
		f.M.Set(sym.Int())
		want = f
	}
	fld := goreflect.ValueOf(&f).Elem().FieldByName("M")
	if sym.Choice(2) == 0 {
		fld = fld.Addr()
	}
	x := sym.Int()
	if sym.Choice(2) == 0 {
		sym.Assert(ureflect.SetMaybeValue(fld, goreflect.ValueOf(x)) == nil, "SetMaybeValue: an error")
		want.M.Set(x)
	} else {
		sym.Assert(ureflect.SetMaybeValueEmpty(fld) == nil, "SetMaybeValueEmpty: an error")
		want.M.SetEmpty()
	}
	sym.Assert(f == want, "SetMaybeValue: another struct")
	sym.Assert(ureflect.MaybeValueIsPresent(fld) == want.M.Present(), "MaybeValueIsPresent")
}

// C35_NoMaybe: other types are no Maybe.
func C35_NoMaybe() {
	x := sym.Int()
	vs := []any{x, &x, "", union.Of2T[int, string](x), union.OfResult(x), []union.Maybe[int]{}, struct{ union.Maybe[int] }{}, func() {}}
	v := goreflect.ValueOf(vs[sym.Choice(len(vs))])
	sym.Assert(ureflect.GetMaybeType(v.Type()) == nil, "GetMaybeType")
	sym.Assert(!ureflect.MaybeValueIsPresent(v), "MaybeValueIsPresent")
	sym.Assert(!ureflect.GetMaybeValue(v).IsValid(), "GetMaybeValue")
	sym.Assert(ureflect.SetMaybeValue(v, goreflect.ValueOf(x)) != nil, "SetMaybeValue")
	sym.Assert(ureflect.SetMaybeValueEmpty(v) != nil, "SetMaybeValueEmpty")
}
