package hmath

import (
	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/math"
	"verifharness/sym"
)

// makeRange builds a range and tells whether that panicked.
func makeRange[T constraint.IntegerAndFloat](min T, minMode math.RangeMode, max T, maxMode math.RangeMode, v T) (r math.Range[T], panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	return math.OfRange(min, minMode, max, maxMode, v), false
}

func checkRange[T constraint.IntegerAndFloat](min, max, v, w T, what string) {
	minMode, maxMode := math.RangeMode(sym.Choice(2) == 0), math.RangeMode(sym.Choice(2) == 0)
	in := func(x T) bool {
		return (minMode == math.Closed && x >= min || x > min) && (maxMode == math.Closed && x <= max || x < max)
	}
	r, panicked := makeRange(min, minMode, max, maxMode, v)
	if !(min < max) {
		sym.Reach("min not below max")
		sym.Assert(panicked || min != min || max != max, "OfRange "+what+": no panic though min >= max")
	}
	if !in(v) {
		sym.Reach("initial out of range")
		sym.Assert(panicked, "OfRange "+what+": no panic for an initial value out of range")
	}
	if min < max && in(v) {
		sym.Reach("valid")
		sym.Assert(!panicked, "OfRange "+what+": panic for a valid range")
	}
	if panicked {
		return
	}
	sym.Assert(r.GetValue() == v, "OfRange "+what+": holds another value")
	gmin, gminMode := r.GetMin()
	gmax, gmaxMode := r.GetMax()
	sym.Assert(gmin == min && gminMode == minMode && gmax == max && gmaxMode == maxMode, "GetMin, GetMax "+what+": not the bounds given")
	err := r.SetValue(w)
	if in(w) {
		sym.Reach("set in range")
		sym.Assert(err == nil, "SetValue "+what+": error for a value in range")
		sym.Assert(r.GetValue() == w, "SetValue "+what+": value not stored")
	} else {
		sym.Reach("set out of range")
		sym.Assert(err != nil, "SetValue "+what+": no error for a value out of range")
		sym.Assert(r.GetValue() == v, "SetValue "+what+": previous value not kept")
	}
	gmin, gminMode = r.GetMin()
	gmax, gmaxMode = r.GetMax()
	sym.Assert(gmin == min && gminMode == minMode && gmax == max && gmaxMode == maxMode, "SetValue "+what+": changes the bounds")
	sym.Observe(r.GetValue())
}

// C04_Ints: construction, then one SetValue from any state, with any bounds of int, int8, uint64 or a named int and
// every combination of open and closed.
//
//sym:opaquetext
func C04_Ints() {
	switch sym.Choice(4) {
	case 0:
		checkRange(sym.Int(), sym.Int(), sym.Int(), sym.Int(), "int")
	case 1:
		checkRange(sym.Int8(), sym.Int8(), sym.Int8(), sym.Int8(), "int8")
	case 2:
		checkRange(sym.Uint64(), sym.Uint64(), sym.Uint64(), sym.Uint64(), "uint64")
	case 3:
		checkRange(myInt(sym.Int()), myInt(sym.Int()), myInt(sym.Int()), myInt(sym.Int()), "named int")
	}
}

// C04_Floats: the same with any float64 or float32, infinities and NaN included.
//
//sym:bv
func C04_Floats() {
	if sym.Choice(2) == 0 {
		checkRange(sym.Float64(), sym.Float64(), sym.Float64(), sym.Float64(), "float64")
	} else {
		checkRange(sym.Float32(), sym.Float32(), sym.Float32(), sym.Float32(), "float32")
	}
}
