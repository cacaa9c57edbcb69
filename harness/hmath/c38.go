package hmath

import (
	"github.com/bantling/micro/math"
	"verifharness/sym"
)

func caughtErr(f func()) (panicked bool, err error) {
	defer func() {
		if panicked {
			err, _ = recover().(error)
		}
	}()
	panicked = true
	f()
	panicked = false
	return
}

func mustDec(plain func() ([]math.Decimal, error), mst func() []math.Decimal, what string) {
	a, err := plain()
	var b []math.Decimal
	panicked, perr := caughtErr(func() { b = mst() })
	sym.Assert(panicked == (err != nil), what+": the Must version panics exactly when there is an error")
	if panicked {
		sym.Assert(perr != nil, what+": the panic is an error")
		sym.Reach(what + " panic")
		return
	}
	sym.Assert(len(a) == len(b), what+": the Must version gives the same values")
	for i := range a {
		sym.Assert(a[i] == b[i], what+": the Must version gives the same value")
	}
	sym.Reach(what)
}

func dec1(d math.Decimal, err error) ([]math.Decimal, error) { return []math.Decimal{d}, err }

// C38_Decimal: Must versions of the operations on decimals.
func C38_Decimal() {
	// decimals near zero and at the end of the range
	v, w := int64(sym.IntIn(-9, 9)), int64(sym.IntIn(-9, 9))
	switch sym.Choice(3) {
	case 1:
		v += 999_999_999_999_999_990
		w += 999_999_999_999_999_990
	case 2:
		v -= 999_999_999_999_999_990
	}
	s := []int{0, 1, 18, 19}[sym.Choice(4)]
	norm := sym.Choice(2) == 1
	mustDec(func() ([]math.Decimal, error) { return dec1(math.OfDecimal(v, uint(s), norm)) },
		func() []math.Decimal { return []math.Decimal{math.MustDecimal(v, uint(s), norm)} }, "OfDecimal")
	d, err := math.OfDecimal(v, uint(s))
	if err != nil {
		return
	}
	switch sym.Choice(6) {
	case 0, 1:
		e, err := math.OfDecimal(w, uint([]int{0, 1, 18}[sym.Choice(3)]))
		if err != nil {
			return
		}
		if sym.Choice(2) == 0 {
			mustDec(func() ([]math.Decimal, error) { return dec1(d.Add(e)) },
				func() []math.Decimal { return []math.Decimal{d.MustAdd(e)} }, "Add")
			return
		}
		mustDec(func() ([]math.Decimal, error) { return dec1(d.Sub(e)) },
			func() []math.Decimal { return []math.Decimal{d.MustSub(e)} }, "Sub")
	case 2:
		e, err := math.OfDecimal(w, uint([]int{0, 1, 18}[sym.Choice(3)]))
		if err != nil {
			return
		}
		adj := func(f func(a, b *math.Decimal) error) ([]math.Decimal, error) {
			a, b := d, e
			err := f(&a, &b)
			return []math.Decimal{a, b}, err
		}
		mustDec(func() ([]math.Decimal, error) { return adj(math.AdjustDecimalScale) },
			func() []math.Decimal {
				r, _ := adj(func(a, b *math.Decimal) error { math.MustAdjustDecimalScale(a, b); return nil })
				return r
			}, "AdjustDecimalScale")
	case 3:
		o := uint(sym.IntIn(0, 3))
		mustDec(func() ([]math.Decimal, error) { return d.DivIntAdd(o) }, func() []math.Decimal { return d.MustDivIntAdd(o) }, "DivIntAdd")
	case 4:
		o := uint(sym.IntIn(0, 10))
		mustDec(func() ([]math.Decimal, error) {
			q, r, err := d.DivIntQuoRem(o)
			return []math.Decimal{q, r}, err
		}, func() []math.Decimal {
			q, r := d.MustDivIntQuoRem(o)
			return []math.Decimal{q, r}
		}, "DivIntQuoRem")
	case 5:
		e := math.MustDecimal([]int64{0, 1, 2, -10, 999_999_999_999_999_999}[sym.Choice(5)], uint(sym.Choice(2)*18))
		if sym.Choice(2) == 0 {
			mustDec(func() ([]math.Decimal, error) { return dec1(d.Mul(e)) },
				func() []math.Decimal { return []math.Decimal{d.MustMul(e)} }, "Mul")
			return
		}
		d = math.MustDecimal([]int64{0, 1, 7, -999_999_999_999_999_999}[sym.Choice(4)], uint(sym.Choice(2)*18))
		mustDec(func() ([]math.Decimal, error) { return dec1(d.Div(e)) },
			func() []math.Decimal { return []math.Decimal{d.MustDiv(e)} }, "Div")
	}
}

// C38_DecimalText: the Must version of reading a decimal.
func C38_DecimalText() {
	t := sym.StringOf(sym.Choice(5), "-.19x")
	mustDec(func() ([]math.Decimal, error) { return dec1(math.StringToDecimal(t)) },
		func() []math.Decimal { return []math.Decimal{math.MustStringToDecimal(t)} }, "StringToDecimal")
}
