package main

// Models of *big.Rat and *big.Float.
//
// A Rat is num/den over two Int terms kept in the first fields of its two Int structs (not necessarily reduced; it is
// reduced when Num, Denom or text is asked for), or, when it was made from a symbolic float, that FP term in place of num.
// A Float is a concrete big.Float, an Int term (an integral value already rounded to the precision), an FP term, or an
// Int term divided by a power of two (a ratio or a decimal text rounded to the precision).

import (
	"go/types"
	"math"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type bigFV struct {
	f  *big.Float // concrete
	n  *Term      // Int
	fp *Term      // FP 64
	q  *Term      // Int, not zero: the value is q / 2^sh
	sh int
}

func (m *Machine) newBig(name string) *Value {
	v := new(Value)
	*v = m.zero(m.sh.byPath["math/big"].Type(name).Type())
	return v
}

func (m *Machine) structOf(v Value) Structure {
	p, ok := v.(*Value)
	if !ok || p == nil {
		m.nilDeref()
	}
	return (*p).(Structure)
}

// ---- Rat

func (m *Machine) ratGet(v Value) (num, den *Term) {
	s := m.structOf(v)
	num = m.cellGet(s[0].(Structure))
	den = m.cellGet(s[1].(Structure))
	if num.sort.K == SBool {
		num = m.c.Int64(0)
	}
	if den.sort.K == SBool {
		den = m.c.Int64(1)
	}
	return
}

func (m *Machine) ratSet(v Value, num, den *Term) Value {
	s := m.structOf(v)
	if num.IsConst() && den.IsConst() && num.sort.K == SInt {
		r := new(big.Rat).SetFrac(num.k, den.k)
		num, den = m.c.Int(r.Num()), m.c.Int(r.Denom())
	}
	m.cellSet(s[0].(Structure), num)
	m.cellSet(s[1].(Structure), den)
	return v
}

// ratConc gives the concrete value of a Rat, if it has one.
func (m *Machine) ratConc(v Value) *big.Rat {
	n, d := m.ratGet(v)
	if n.sort.K == SFP {
		if n.IsConst() {
			return new(big.Rat).SetFloat64(n.f64())
		}
		return nil
	}
	if n.IsConst() && d.IsConst() {
		return new(big.Rat).SetFrac(n.k, d.k)
	}
	return nil
}

func (m *Machine) ratSetConc(v Value, r *big.Rat) Value {
	return m.ratSet(v, m.c.Int(r.Num()), m.c.Int(r.Denom()))
}

// ratFrac is ratGet for operations that need num/den terms.
func (m *Machine) ratFrac(v Value) (num, den *Term) {
	num, den = m.ratGet(v)
	if num.sort.K == SFP {
		if r := m.ratConc(v); r != nil {
			return m.c.Int(r.Num()), m.c.Int(r.Denom())
		}
		m.unsupported("arithmetic on a ratio made from a symbolic float")
	}
	return
}

func (m *Machine) ratIsInt(v Value) bool {
	c := m.c
	n, d := m.ratGet(v)
	if n.sort.K == SFP {
		return m.p.branch(c.FCmp(OFEq, c.FUn(OFRnd, n, 1), n))
	}
	if d.IsConst() && d.k.Cmp(big1) == 0 {
		return true
	}
	return m.p.branch(c.Eq(c.IMod(n, d), c.Int64(0)))
}

// ratReduce divides num and den by their greatest common divisor.
func (m *Machine) ratReduce(v Value) (num, den *Term) {
	c := m.c
	n, d := m.ratGet(v)
	if n.sort.K == SFP {
		if r := m.ratConc(v); r != nil {
			m.ratSetConc(v, r)
			return m.ratGet(v)
		}
		// an integral float is its own numerator
		if m.p.branch(c.FCmp(OFEq, c.FUn(OFRnd, n, 1), n)) {
			m.ratSet(v, n, c.Int64(1))
			return n, c.Int64(1)
		}
		m.unsupported("numerator of a ratio made from a fractional symbolic float")
	}
	if d.IsConst() && d.k.Cmp(big1) == 0 {
		return n, d
	}
	if !d.IsConst() {
		if m.p.branch(c.Eq(c.IMod(n, d), c.Int64(0))) {
			m.ratSet(v, c.IDiv(n, d), c.Int64(1))
			return m.ratGet(v)
		}
		d = m.p.concretize(d)
	}
	if m.p.branch(c.Eq(n, c.Int64(0))) {
		m.ratSet(v, c.Int64(0), c.Int64(1))
		return m.ratGet(v)
	}
	g, rest := big.NewInt(1), new(big.Int).Set(d.k)
	for p := int64(2); rest.Cmp(big1) != 0; p++ {
		if p > 1000 {
			if rest.ProbablyPrime(20) {
				if m.p.branch(c.Eq(c.IMod(n, c.Int(rest)), c.Int64(0))) {
					g.Mul(g, rest)
				}
				break
			}
			m.unsupported("reduction of a ratio with a denominator that is hard to factor")
		}
		pb := big.NewInt(p)
		for divides, k := true, big.NewInt(1); new(big.Int).Mod(rest, pb).Sign() == 0; {
			rest.Quo(rest, pb)
			k = new(big.Int).Mul(k, pb)
			if divides {
				if divides = m.p.branch(c.Eq(c.IMod(n, c.Int(k)), c.Int64(0))); divides {
					g.Mul(g, pb)
				}
			}
		}
	}
	n, d = c.IDiv(n, c.Int(g)), c.Int(new(big.Int).Quo(d.k, g))
	m.ratSet(v, n, d)
	return n, d
}

func (m *Machine) divZero() {
	panic(targetPanic{Iface{t: m.canon(types.Typ[types.String]), v: cstr("division by zero")}})
}

// ---- Float

func (m *Machine) fltGet(v Value) *bigFV {
	s := m.structOf(v)
	if f, ok := s[5].(*bigFV); ok {
		if c, ok := s[6].(*bigCell); ok && c.f != f {
			return c.f
		}
		return f
	}
	return &bigFV{f: new(big.Float)}
}

func (m *Machine) fltPrec(v Value) uint {
	s := m.structOf(v)
	n, _ := cuint(s[0].(*Term))
	return uint(n)
}

func (m *Machine) fltMode(v Value) big.RoundingMode {
	s := m.structOf(v)
	n, _ := cuint(s[1].(*Term))
	return big.RoundingMode(n)
}

func (m *Machine) fltSetPrec(v Value, prec uint) {
	s := m.structOf(v)
	m.store(&s[0], m.mkIntW(int64(prec), 32))
}

func (m *Machine) fltStore(s Structure, f *bigFV) {
	m.store(&s[5], f)
	if c, ok := s[6].(*bigCell); ok {
		c.f = f
	} else {
		s[6] = &bigCell{f: f}
	}
}

func (m *Machine) fltSet(v Value, f *bigFV) Value {
	s := m.structOf(v)
	if f.n != nil && f.n.IsConst() {
		f = &bigFV{f: new(big.Float).SetPrec(m.fltPrec(v)).SetMode(m.fltMode(v)).SetInt(f.n.k)}
	}
	if f.fp != nil && !f.fp.IsConst() {
		if n := m.fpIntTerm(f.fp); n != nil {
			f = &bigFV{n: n}
		} else if d := m.p.fpDy[f.fp]; d != nil {
			f = d
		}
	}
	if f.q != nil && f.q.IsConst() {
		r := new(big.Rat).SetFrac(f.q.k, pow2(f.sh))
		f = &bigFV{f: new(big.Float).SetPrec(m.fltPrec(v)).SetMode(m.fltMode(v)).SetRat(r)}
	}
	if f.fp != nil && f.fp.IsConst() {
		f = &bigFV{f: new(big.Float).SetPrec(m.fltPrec(v)).SetMode(m.fltMode(v)).SetFloat64(f.fp.f64())}
	}
	m.fltStore(s, f)
	return v
}

func (m *Machine) fltSetConc(v Value, f *big.Float) Value {
	m.fltSetPrec(v, f.Prec())
	s := m.structOf(v)
	m.fltStore(s, &bigFV{f: f})
	return v
}

// fltRound rounds an integer to prec bits, half to even.
func (m *Machine) fltRound(n *Term, prec uint) *Term {
	c := m.c
	if n.IsConst() {
		f := new(big.Float).SetPrec(prec).SetInt(n.k)
		r, _ := f.Int(nil)
		return c.Int(r)
	}
	neg := false
	x := n
	if iv := c.interval(n); iv.lo == nil || iv.lo.Sign() < 0 {
		if m.p.branch(c.Lt(n, c.Int64(0))) {
			neg, x = true, c.Neg(n)
		}
	}
	if m.p.branch(c.Lt(x, c.Int(pow2(int(prec))))) {
		return n
	}
	bl, _ := cint(m.intBitLen(x))
	k := c.Int(pow2(int(bl) - int(prec)))
	half := c.Int(pow2(int(bl) - int(prec) - 1))
	q, r := c.IDiv(x, k), c.IMod(x, k)
	up := m.p.branch(c.Lt(half, r)) || m.p.branch(c.Eq(r, half)) && m.p.branch(c.Eq(c.IMod(q, c.Int64(2)), c.Int64(1)))
	if up {
		q = c.Add(q, c.Int64(1))
	}
	x = c.Mul(q, k)
	if neg {
		x = c.Neg(x)
	}
	return x
}

func (m *Machine) fltSetInt(v Value, n *Term) Value {
	if m.fltMode(v) != big.ToNearestEven {
		if !n.IsConst() {
			m.unsupported("big.Float rounding mode")
		}
		return m.fltSetConc(v, new(big.Float).SetPrec(m.fltPrec(v)).SetMode(m.fltMode(v)).SetInt(n.k))
	}
	return m.fltSet(v, &bigFV{n: m.fltRound(n, m.fltPrec(v))})
}

// fltQuo gives n/d (d positive) rounded to prec bits, half to even.
func (m *Machine) fltQuo(n, d *Term, prec int) *bigFV {
	c := m.c
	if !d.IsConst() {
		m.unsupported("big.Float of a ratio with a symbolic denominator")
	}
	if m.p.branch(c.Eq(n, c.Int64(0))) {
		return &bigFV{f: new(big.Float).SetPrec(uint(prec))}
	}
	neg := m.p.branch(c.Lt(n, c.Int64(0)))
	if neg {
		n = c.Neg(n)
	}
	b, _ := cint(m.intBitLen(n))
	// 2^e <= n/d < 2^(e+1)
	e := int(b) - d.k.BitLen()
	x, y := n, d.k
	if e >= 0 {
		y = new(big.Int).Lsh(y, uint(e))
	} else {
		x = c.MulK(x, pow2(-e))
	}
	if m.p.branch(c.Lt(x, c.Int(y))) {
		e--
	}
	k := prec - 1 - e
	x, y = n, d.k
	if k >= 0 {
		x = c.MulK(x, pow2(k))
	} else {
		y = new(big.Int).Lsh(y, uint(-k))
	}
	q, r2 := c.IDiv(x, c.Int(y)), c.MulK(c.IMod(x, c.Int(y)), big.NewInt(2))
	if m.p.branch(c.Lt(c.Int(y), r2)) || m.p.branch(c.Eq(r2, c.Int(y))) && m.p.branch(c.Eq(c.IMod(q, c.Int64(2)), c.Int64(1))) {
		q = c.Add(q, c.Int64(1))
	}
	if neg {
		q = c.Neg(q)
	}
	if k <= 0 {
		return &bigFV{n: c.MulK(q, pow2(-k))}
	}
	return &bigFV{q: q, sh: k}
}

// fltExact is an operation of two finite values that are not both integers, rounded to prec bits, half to even.
func (m *Machine) fltExact(op string, x, y *bigFV, prec int) *bigFV {
	c := m.c
	if op == "Quo" {
		if y.f == nil || y.f.Sign() == 0 {
			return nil
		}
		q, k := m.fltDyadic(x)
		d, _ := y.f.Rat(nil)
		n := c.MulK(q, d.Denom())
		den := d.Num()
		if den.Sign() < 0 {
			n, den = c.Neg(n), new(big.Int).Neg(den)
		}
		return m.fltQuo(n, c.Int(new(big.Int).Mul(den, pow2(k))), prec)
	}
	a, i := m.fltDyadic(x)
	b, j := m.fltDyadic(y)
	if op == "Mul" {
		return m.fltQuo(c.Mul(a, b), c.Int(pow2(i+j)), prec)
	}
	k := max(i, j)
	a, b = c.MulK(a, pow2(k-i)), c.MulK(b, pow2(k-j))
	if op == "Sub" {
		b = c.Neg(b)
	}
	return m.fltQuo(c.Add(a, b), c.Int(pow2(k)), prec)
}

// fltDyadic gives q and k with f = q / 2^k, for floats that are not FP terms.
func (m *Machine) fltDyadic(f *bigFV) (*Term, int) {
	switch {
	case f.q != nil:
		return f.q, f.sh
	case f.n != nil:
		return f.n, 0
	case f.f != nil && !f.f.IsInf():
		r, _ := f.f.Rat(nil)
		return m.c.Int(r.Num()), r.Denom().BitLen() - 1
	}
	return nil, 0
}

// fltInt gives a Float as an Int term, if it is one.
func (m *Machine) fltInt(f *bigFV) *Term {
	if f.n != nil {
		return f.n
	}
	if f.f != nil && f.f.IsInt() {
		n, _ := f.f.Int(nil)
		return m.c.Int(n)
	}
	return nil
}

// fltFP gives a Float as an FP term, if it is exactly one.
func (m *Machine) fltFP(f *bigFV) *Term {
	if f.fp != nil {
		return f.fp
	}
	if f.f != nil {
		if x, acc := f.f.Float64(); acc == big.Exact {
			return m.c.F64(x)
		}
	}
	return nil
}

func (m *Machine) fltCmp(x, y *bigFV) Value {
	c := m.c
	if x.f != nil && y.f != nil {
		return m.mkInt(x.f.Cmp(y.f))
	}
	if a, b := m.fltInt(x), m.fltInt(y); a != nil && b != nil {
		if m.p.branch(c.Lt(a, b)) {
			return m.mkInt(-1)
		}
		if m.p.branch(c.Eq(a, b)) {
			return m.mkInt(0)
		}
		return m.mkInt(1)
	}
	// infinities and a finite value
	infSign := func(f *bigFV) int {
		if f.f != nil && f.f.IsInf() {
			return f.f.Sign()
		}
		return 0
	}
	if s := infSign(x); s != 0 {
		if b, _ := m.fltDyadic(y); b != nil {
			return m.mkInt(s)
		}
	}
	if s := infSign(y); s != 0 {
		if a, _ := m.fltDyadic(x); a != nil {
			return m.mkInt(-s)
		}
	}
	if a, i := m.fltDyadic(x); a != nil {
		if b, j := m.fltDyadic(y); b != nil {
			if i < j {
				a = c.MulK(a, pow2(j-i))
			} else {
				b = c.MulK(b, pow2(i-j))
			}
			return m.cmp3(a, b)
		}
	}
	if a, b := m.fltFP(x), m.fltFP(y); a != nil && b != nil {
		if m.p.branch(c.FCmp(OFLt, a, b)) {
			return m.mkInt(-1)
		}
		if m.p.branch(c.FCmp(OFEq, a, b)) {
			return m.mkInt(0)
		}
		return m.mkInt(1)
	}
	m.unsupported("comparison of a symbolic big.Float with another kind")
	return nil
}

// intToFP converts an Int term to float64 or float32 and tells whether that is exact (an Accuracy).
func (m *Machine) intToFP(n *Term, w int) (*Term, int) {
	c := m.c
	if n.IsConst() {
		f := new(big.Float).SetInt(n.k)
		if w == 32 {
			x, acc := f.Float32()
			return c.F32(x), int(acc)
		}
		x, acc := f.Float64()
		return c.F64(x), int(acc)
	}
	return m.intFloat(n, w)
}

func (m *Machine) fltOpaque(f *bigFV, conc func(*big.Float) string) Value {
	if f.f != nil {
		return cstr(conc(f.f))
	}
	return Str{s: "?", opaque: true}
}

// parseFixed reads symbolic text of the form [+-]digits[.digits]: the number is the result divided by ten to the power
// of frac. ok false means not a number.
func (m *Machine) parseFixed(s Str, what string) (n *Term, frac int, ok bool) {
	dot := -1
	bs := m.strBytes(s)
	for i, t := range bs {
		if m.p.branch(m.inAlphabet(t, "0123456789")) || i == 0 && m.p.branch(m.inAlphabet(t, "+-")) {
			continue
		}
		if dot < 0 && m.p.branch(m.inAlphabet(t, ".")) {
			dot = i
			continue
		}
		if m.p.branch(m.inAlphabet(t, "./eEpPiInNfFxXbBoO_+-")) {
			m.unsupported("%s of symbolic text that is not a number with a decimal point", what)
		}
		return nil, 0, false
	}
	if dot >= 0 {
		frac = len(bs) - dot - 1
		bs = append(append([]*Term{}, bs[:dot]...), bs[dot+1:]...)
	}
	n, ok = m.parseDecimal(normStr(bs), false)
	return
}

func init() {
	i64, u64 := types.Typ[types.Int64], types.Typ[types.Uint64]
	R := "(*math/big.Rat)."
	one := func(m *Machine) *Term { return m.c.Int64(1) }
	reg("math/big.NewRat", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		v := m.newBig("Rat")
		return m.ratFromFrac(v, m.toInt(a[0].(*Term), i64), m.toInt(a[1].(*Term), i64))
	})
	reg(R+"SetFrac64", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		return m.ratFromFrac(a[0], m.toInt(a[1].(*Term), i64), m.toInt(a[2].(*Term), i64))
	})
	reg(R+"SetFrac", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		return m.ratFromFrac(a[0], m.bigInt(a[1]), m.bigInt(a[2]))
	})
	reg(R+"SetInt64", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.m.ratSet(a[0], fr.m.toInt(a[1].(*Term), i64), one(fr.m))
	})
	reg(R+"SetUint64", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.m.ratSet(a[0], fr.m.toInt(a[1].(*Term), u64), one(fr.m))
	})
	reg(R+"SetInt", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.m.ratSet(a[0], fr.m.bigOf(a[1]), one(fr.m))
	})
	reg(R+"Set", func(fr *frame, fn *ssa.Function, a []Value) Value {
		n, d := fr.m.ratGet(a[1])
		return fr.m.ratSet(a[0], n, d)
	})
	reg(R+"SetFloat64", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		x := a[1].(*Term)
		if x.IsConst() {
			r := new(big.Rat).SetFloat64(x.f64())
			if r == nil {
				return (*Value)(nil)
			}
			return m.ratSetConc(a[0], r)
		}
		if n := m.fpIntTerm(x); n != nil {
			return m.ratSet(a[0], n, one(m))
		}
		if d := m.p.fpDy[x]; d != nil {
			return m.ratSet(a[0], d.q, m.c.Int(pow2(d.sh)))
		}
		if m.p.branch(m.c.FUn(OFIsNaN, x, 0)) || m.p.branch(m.c.FUn(OFIsInf, x, 0)) {
			return (*Value)(nil)
		}
		return m.ratSet(a[0], x, one(m))
	})
	reg(R+"SetString", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		s := m.plain(a[1])
		if s.t == nil {
			r, ok := new(big.Rat).SetString(s.s)
			if !ok {
				return Tuple{(*Value)(nil), m.c.False}
			}
			return Tuple{m.ratSetConc(a[0], r), m.c.True}
		}
		n, frac, ok := m.parseFixed(s, "big.Rat SetString")
		if !ok {
			return Tuple{(*Value)(nil), m.c.False}
		}
		return Tuple{m.ratSet(a[0], n, m.c.Int(pow10(frac))), m.c.True}
	})
	reg(R+"IsInt", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.m.c.Bool(fr.m.ratIsInt(a[0])) })
	reg(R+"Num", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		m.ratReduce(a[0])
		s := m.structOf(a[0])
		return &s[0]
	})
	reg(R+"Denom", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		_, d := m.ratReduce(a[0])
		s := m.structOf(a[0])
		m.cellSet(s[1].(Structure), d)
		return &s[1]
	})
	reg(R+"Sign", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		n, _ := m.ratGet(a[0])
		if n.sort.K == SFP {
			return m.fltCmp(&bigFV{fp: n}, &bigFV{f: new(big.Float)})
		}
		return m.cmp3(n, m.c.Int64(0))
	})
	reg(R+"Cmp", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		x, _ := m.ratGet(a[0])
		y, _ := m.ratGet(a[1])
		if x.sort.K == SFP && y.sort.K == SFP {
			return m.fltCmp(&bigFV{fp: x}, &bigFV{fp: y})
		}
		xn, xd := m.ratFrac(a[0])
		yn, yd := m.ratFrac(a[1])
		return m.cmp3(m.c.Mul(xn, yd), m.c.Mul(yn, xd))
	})
	bin := func(name string, f func(m *Machine, xn, xd, yn, yd *Term) (*Term, *Term)) {
		reg(R+name, func(fr *frame, fn *ssa.Function, a []Value) Value {
			m := fr.m
			xn, xd := m.ratFrac(a[1])
			yn, yd := m.ratFrac(a[2])
			n, d := f(m, xn, xd, yn, yd)
			return m.ratSet(a[0], n, d)
		})
	}
	bin("Add", func(m *Machine, xn, xd, yn, yd *Term) (*Term, *Term) {
		if xd == yd {
			return m.c.Add(xn, yn), xd
		}
		return m.c.Add(m.c.Mul(xn, yd), m.c.Mul(yn, xd)), m.c.Mul(xd, yd)
	})
	bin("Sub", func(m *Machine, xn, xd, yn, yd *Term) (*Term, *Term) {
		if xd == yd {
			return m.c.Sub(xn, yn), xd
		}
		return m.c.Sub(m.c.Mul(xn, yd), m.c.Mul(yn, xd)), m.c.Mul(xd, yd)
	})
	bin("Mul", func(m *Machine, xn, xd, yn, yd *Term) (*Term, *Term) { return m.c.Mul(xn, yn), m.c.Mul(xd, yd) })
	bin("Quo", func(m *Machine, xn, xd, yn, yd *Term) (*Term, *Term) {
		if m.p.branch(m.c.Eq(yn, m.c.Int64(0))) {
			m.divZero()
		}
		n, d := m.c.Mul(xn, yd), m.c.Mul(xd, yn)
		if m.p.branch(m.c.Lt(yn, m.c.Int64(0))) {
			n, d = m.c.Neg(n), m.c.Neg(d)
		}
		return n, d
	})
	reg(R+"Neg", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		n, d := m.ratGet(a[1])
		if n.sort.K == SFP {
			return m.ratSet(a[0], m.c.FUn(OFNeg, n, 0), d)
		}
		return m.ratSet(a[0], m.c.Neg(n), d)
	})
	reg(R+"Abs", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		n, d := m.ratGet(a[1])
		if n.sort.K == SFP {
			return m.ratSet(a[0], m.c.FUn(OFAbs, n, 0), d)
		}
		if m.p.branch(m.c.Lt(n, m.c.Int64(0))) {
			n = m.c.Neg(n)
		}
		return m.ratSet(a[0], n, d)
	})
	reg(R+"Inv", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		n, d := m.ratFrac(a[1])
		if m.p.branch(m.c.Eq(n, m.c.Int64(0))) {
			m.divZero()
		}
		if m.p.branch(m.c.Lt(n, m.c.Int64(0))) {
			n, d = m.c.Neg(n), m.c.Neg(d)
		}
		return m.ratSet(a[0], d, n)
	})
	toF := func(w int) intrFn {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			m := fr.m
			if r := m.ratConc(a[0]); r != nil {
				if w == 32 {
					x, ok := r.Float32()
					return Tuple{m.c.F32(x), m.c.Bool(ok)}
				}
				x, ok := r.Float64()
				return Tuple{m.c.F64(x), m.c.Bool(ok)}
			}
			n, d := m.ratGet(a[0])
			if n.sort.K == SFP {
				f := m.c.FToFP(n, w)
				if w == 64 {
					return Tuple{f, m.c.True}
				}
				return Tuple{f, m.c.FCmp(OFEq, m.c.FToFP(f, 64), n)}
			}
			if !d.IsConst() {
				m.unsupported("symbolic ratio to float")
			}
			if d.k.Cmp(big1) != 0 {
				p := 53
				if w == 32 {
					p = 24
				}
				q := m.fltQuo(n, d, p)
				exact := func(x *Term, sh int) Value {
					return m.c.Eq(m.c.MulK(n, pow2(sh)), m.c.Mul(x, d))
				}
				switch {
				case q.f != nil:
					return Tuple{m.c.FP(w, 0), m.c.True}
				case q.n != nil:
					f, _ := m.intToFP(q.n, w)
					return Tuple{f, exact(q.n, 0)}
				}
				f, _ := m.dyadicFloat(q.q, q.sh, w)
				return Tuple{f, exact(q.q, q.sh)}
			}
			f, acc := m.intToFP(n, w)
			return Tuple{f, m.c.Bool(acc == 0)}
		}
	}
	reg(R+"Float64", toF(64))
	reg(R+"Float32", toF(32))
	ratStr := func(short bool) intrFn {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			m := fr.m
			if p, ok := a[0].(*Value); ok && p == nil {
				return cstr("<nil>")
			}
			if r := m.ratConc(a[0]); r != nil {
				if short {
					return cstr(r.RatString())
				}
				return cstr(r.String())
			}
			if m.opt.opaque {
				return Str{s: "?", opaque: true}
			}
			n, _ := m.ratGet(a[0])
			if n.sort.K == SFP {
				return Str{s: "?", opaque: true}
			}
			n, d := m.ratReduce(a[0])
			s := m.decimalStr(n)
			if short && d.k.Cmp(big1) == 0 {
				return s
			}
			return m.concat(s, m.concat(cstr("/"), m.decimalStr(d)))
		}
	}
	reg(R+"String", ratStr(false))
	reg(R+"RatString", ratStr(true))
	reg(R+"FloatString", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		if r := m.ratConc(a[0]); r != nil {
			return cstr(r.FloatString(m.concInt(a[1])))
		}
		n, d := m.ratGet(a[0])
		if n.sort.K == SFP || !d.IsConst() {
			m.unsupported("FloatString of a symbolic ratio")
		}
		// rounded half away from zero
		c, p := m.c, m.concInt(a[1])
		neg := m.p.branch(c.Lt(n, c.Int64(0)))
		if neg {
			n = c.Neg(n)
		}
		two := big.NewInt(2)
		x := c.IDiv(c.Add(c.MulK(n, new(big.Int).Mul(two, pow10(p))), d), c.Int(new(big.Int).Mul(two, d.k)))
		s := m.decimalStr(c.IDiv(x, c.Int(pow10(p))))
		if p > 0 {
			// a leading one keeps the zeros
			fr := m.strBytes(m.decimalStr(c.Add(c.IMod(x, c.Int(pow10(p))), c.Int(pow10(p)))))
			s = m.concat(s, m.concat(cstr("."), normStr(fr[1:])))
		}
		if neg {
			s = m.concat(cstr("-"), s)
		}
		return s
	})

	// Float
	F := "(*math/big.Float)."
	reg("math/big.NewFloat", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		x := a[0].(*Term)
		if m.p.branch(m.c.FUn(OFIsNaN, x, 0)) {
			panic(targetPanic{Iface{t: m.canon(types.Typ[types.String]), v: cstr("NewFloat(NaN)")}})
		}
		v := m.newBig("Float")
		m.fltSetPrec(v, 53)
		return m.fltSet(v, &bigFV{fp: x})
	})
	reg(F+"SetPrec", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		f := m.fltGet(a[0])
		p := uint(m.concInt(a[1]))
		if f.f != nil {
			return m.fltSetConc(a[0], new(big.Float).Copy(f.f).SetPrec(p))
		}
		m.fltSetPrec(a[0], p)
		if f.n != nil {
			return m.fltSetInt(a[0], f.n)
		}
		if f.q != nil {
			if m.fltMode(a[0]) != big.ToNearestEven {
				m.unsupported("big.Float rounding mode")
			}
			return m.fltSet(a[0], m.fltQuo(f.q, m.c.Int(pow2(f.sh)), int(p)))
		}
		if p < 53 {
			m.unsupported("reducing the precision of a symbolic big.Float")
		}
		return a[0]
	})
	reg(F+"SetMode", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		s := m.structOf(a[0])
		m.store(&s[1], a[1])
		if f := m.fltGet(a[0]); f.f != nil {
			m.fltSetConc(a[0], new(big.Float).Copy(f.f).SetMode(m.fltMode(a[0])))
		}
		return a[0]
	})
	reg(F+"Mode", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.m.structOf(a[0])[1] })
	reg(F+"Prec", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.m.mkIntW(int64(fr.m.fltPrec(a[0])), 64)
	})
	reg(F+"Acc", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		if f := m.fltGet(a[0]); f.f != nil {
			return m.mkIntW(int64(f.f.Acc()), 8)
		}
		m.unsupported("accuracy of a symbolic big.Float")
		return nil
	})
	setI := func(t types.Type) intrFn {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			m := fr.m
			if m.fltPrec(a[0]) == 0 {
				m.fltSetPrec(a[0], 64)
			}
			return m.fltSetInt(a[0], m.toInt(a[1].(*Term), t))
		}
	}
	reg(F+"SetInt64", setI(i64))
	reg(F+"SetUint64", setI(u64))
	reg(F+"SetInt", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		n := m.bigInt(a[1])
		if m.fltPrec(a[0]) == 0 {
			p := 64
			if b, _ := cint(m.intBitLen(m.absInt(n))); int(b) > p {
				p = int(b)
			}
			m.fltSetPrec(a[0], uint(p))
		}
		return m.fltSetInt(a[0], n)
	})
	reg(F+"SetFloat64", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		x := a[1].(*Term)
		if m.p.branch(m.c.FUn(OFIsNaN, x, 0)) {
			panic(targetPanic{Iface{t: m.canon(types.Typ[types.String]), v: cstr("Float.SetFloat64(NaN)")}})
		}
		p := m.fltPrec(a[0])
		if p == 0 {
			p = 53
			m.fltSetPrec(a[0], p)
		}
		if p < 53 && !x.IsConst() {
			m.unsupported("big.Float of low precision set to a symbolic float")
		}
		return m.fltSet(a[0], &bigFV{fp: x})
	})
	reg(F+"SetRat", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		if r := m.ratConc(a[1]); r != nil {
			return m.fltSetConc(a[0], new(big.Float).SetPrec(m.fltPrec(a[0])).SetMode(m.fltMode(a[0])).SetRat(r))
		}
		n, d := m.ratReduce(a[1])
		if n.sort.K == SFP {
			m.unsupported("big.Float set to a symbolic ratio")
		}
		if d.k.Cmp(big1) != 0 {
			if m.fltMode(a[0]) != big.ToNearestEven || m.fltPrec(a[0]) == 0 {
				m.unsupported("big.Float rounding mode")
			}
			return m.fltSet(a[0], m.fltQuo(n, d, int(m.fltPrec(a[0]))))
		}
		if m.fltPrec(a[0]) == 0 {
			p := 64
			if b, _ := cint(m.intBitLen(m.absInt(n))); int(b) > p {
				p = int(b)
			}
			m.fltSetPrec(a[0], uint(p))
		}
		return m.fltSetInt(a[0], n)
	})
	set := func(copyPrec bool) intrFn {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			m := fr.m
			f := m.fltGet(a[1])
			if copyPrec || m.fltPrec(a[0]) == 0 {
				m.fltSetPrec(a[0], m.fltPrec(a[1]))
			}
			if f.f != nil {
				return m.fltSetConc(a[0], new(big.Float).SetPrec(m.fltPrec(a[0])).Set(f.f))
			}
			if f.n != nil {
				return m.fltSetInt(a[0], f.n)
			}
			if f.q != nil {
				if m.fltMode(a[0]) != big.ToNearestEven {
					m.unsupported("big.Float rounding mode")
				}
				return m.fltSet(a[0], m.fltQuo(f.q, m.c.Int(pow2(f.sh)), int(m.fltPrec(a[0]))))
			}
			if m.fltPrec(a[0]) < 53 {
				m.unsupported("reducing the precision of a symbolic big.Float")
			}
			return m.fltSet(a[0], f)
		}
	}
	reg(F+"Set", set(false))
	reg(F+"Copy", set(true))
	reg(F+"SetInf", func(fr *frame, fn *ssa.Function, a []Value) Value {
		prec := fr.m.fltPrec(a[0])
		return fr.m.fltSetConc(a[0], new(big.Float).SetPrec(prec).SetInf(fr.m.branchOrConst(a[1].(*Term))))
	})
	reg(F+"IsInf", func(fr *frame, fn *ssa.Function, a []Value) Value {
		f := fr.m.fltGet(a[0])
		switch {
		case f.f != nil:
			return fr.m.c.Bool(f.f.IsInf())
		case f.fp != nil:
			return fr.m.c.FUn(OFIsInf, f.fp, 0)
		}
		return fr.m.c.False
	})
	reg(F+"IsInt", func(fr *frame, fn *ssa.Function, a []Value) Value {
		c := fr.m.c
		f := fr.m.fltGet(a[0])
		switch {
		case f.f != nil:
			return c.Bool(f.f.IsInt())
		case f.fp != nil:
			return c.And(c.Not(c.FUn(OFIsInf, f.fp, 0)), c.FCmp(OFEq, c.FUn(OFRnd, f.fp, 1), f.fp))
		case f.q != nil:
			return c.Eq(c.IMod(f.q, c.Int(pow2(f.sh))), c.Int64(0))
		}
		return c.True
	})
	reg(F+"Sign", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.m.fltCmp(fr.m.fltGet(a[0]), &bigFV{f: new(big.Float)})
	})
	reg(F+"Signbit", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		f := m.fltGet(a[0])
		if f.f != nil {
			return m.c.Bool(f.f.Signbit())
		}
		if f.n != nil {
			return m.c.Lt(f.n, m.c.Int64(0))
		}
		if f.q != nil {
			return m.c.Lt(f.q, m.c.Int64(0))
		}
		m.unsupported("sign bit of a symbolic big.Float")
		return nil
	})
	reg(F+"Cmp", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.m.fltCmp(fr.m.fltGet(a[0]), fr.m.fltGet(a[1]))
	})
	reg(F+"Rat", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		f := m.fltGet(a[0])
		acc := func(k int64) Value { return m.mkIntW(k, 8) }
		z, _ := a[1].(*Value)
		get := func() Value {
			if z == nil {
				z = m.newBig("Rat")
			}
			return z
		}
		if f.f != nil {
			r, ac := f.f.Rat(nil)
			if r == nil {
				return Tuple{(*Value)(nil), acc(int64(ac))}
			}
			return Tuple{m.ratSetConc(get(), r), acc(int64(ac))}
		}
		if f.n != nil {
			return Tuple{m.ratSet(get(), f.n, one(m)), acc(0)}
		}
		if f.q != nil {
			return Tuple{m.ratSet(get(), f.q, m.c.Int(pow2(f.sh))), acc(0)}
		}
		if m.p.branch(m.c.FUn(OFIsInf, f.fp, 0)) {
			if m.p.branch(m.c.FCmp(OFLt, f.fp, m.c.F64(0))) {
				return Tuple{(*Value)(nil), acc(1)}
			}
			return Tuple{(*Value)(nil), acc(-1)}
		}
		return Tuple{m.ratSet(get(), f.fp, one(m)), acc(0)}
	})
	reg(F+"Int", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		f := m.fltGet(a[0])
		z, _ := a[1].(*Value)
		if z == nil {
			z = m.newBigInt(m.c.Int64(0))
		}
		if f.f != nil {
			r, ac := f.f.Int(nil)
			if r == nil {
				return Tuple{(*Value)(nil), m.mkIntW(int64(ac), 8)}
			}
			return Tuple{m.setBig(z, m.c.Int(r)), m.mkIntW(int64(ac), 8)}
		}
		if f.n != nil {
			return Tuple{m.setBig(z, f.n), m.mkIntW(0, 8)}
		}
		c := m.c
		if f.q != nil {
			k := c.Int(pow2(f.sh))
			x, neg := f.q, m.p.branch(c.Lt(f.q, c.Int64(0)))
			if neg {
				x = c.Neg(x)
			}
			acc := int64(0)
			if !m.p.branch(c.Eq(c.IMod(x, k), c.Int64(0))) {
				acc = -1
			}
			if x = c.IDiv(x, k); neg {
				x, acc = c.Neg(x), -acc
			}
			return Tuple{m.setBig(z, x), m.mkIntW(acc, 8)}
		}
		if m.p.branch(c.FUn(OFIsInf, f.fp, 0)) {
			m.unsupported("Int of an infinite symbolic big.Float")
		}
		t := c.FUn(OFRnd, f.fp, 1)
		acc := int64(0)
		if m.p.branch(c.FCmp(OFLt, t, f.fp)) {
			acc = -1
		} else if m.p.branch(c.FCmp(OFLt, f.fp, t)) {
			acc = 1
		}
		return Tuple{m.setBig(z, t), m.mkIntW(acc, 8)}
	})
	toFl := func(w int) intrFn {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			m := fr.m
			f := m.fltGet(a[0])
			ac := func(k int) Value { return m.mkIntW(int64(k), 8) }
			if f.f != nil {
				if w == 32 {
					x, acc := f.f.Float32()
					return Tuple{m.c.F32(x), ac(int(acc))}
				}
				x, acc := f.f.Float64()
				return Tuple{m.c.F64(x), ac(int(acc))}
			}
			if f.n != nil {
				x, acc := m.intToFP(f.n, w)
				return Tuple{x, ac(acc)}
			}
			if f.q != nil {
				x, acc := m.dyadicFloat(f.q, f.sh, w)
				return Tuple{x, ac(acc)}
			}
			if w == 64 {
				return Tuple{f.fp, ac(0)}
			}
			x := m.c.FToFP(f.fp, 32)
			y := m.c.FToFP(x, 64)
			if m.p.branch(m.c.FCmp(OFEq, y, f.fp)) {
				return Tuple{x, ac(0)}
			}
			if m.p.branch(m.c.FCmp(OFLt, y, f.fp)) {
				return Tuple{x, ac(-1)}
			}
			return Tuple{x, ac(1)}
		}
	}
	reg(F+"Float64", toFl(64))
	reg(F+"Float32", toFl(32))
	reg(F+"String", func(fr *frame, fn *ssa.Function, a []Value) Value {
		if p, ok := a[0].(*Value); ok && p == nil {
			return cstr("<nil>")
		}
		return fr.m.fltOpaque(fr.m.fltGet(a[0]), func(f *big.Float) string { return f.String() })
	})
	reg(F+"Text", func(fr *frame, fn *ssa.Function, a []Value) Value {
		k, _ := cuint(a[1].(*Term))
		p := fr.m.concInt(a[2])
		f := fr.m.fltGet(a[0])
		if f.n != nil && k == 'f' && p <= 0 && !fr.m.opt.opaque {
			return fr.m.decimalStr(f.n)
		}
		return fr.m.fltOpaque(f, func(f *big.Float) string { return f.Text(byte(k), p) })
	})
	un := func(name string, conc func(z, x *big.Float) *big.Float, n func(m *Machine, x *Term) *Term, fop Op) {
		reg(F+name, func(fr *frame, fn *ssa.Function, a []Value) Value {
			m := fr.m
			f := m.fltGet(a[1])
			if m.fltPrec(a[0]) == 0 {
				m.fltSetPrec(a[0], m.fltPrec(a[1]))
			}
			if f.f != nil {
				return m.fltSetConc(a[0], conc(new(big.Float).SetPrec(m.fltPrec(a[0])), f.f))
			}
			if f.n != nil {
				return m.fltSetInt(a[0], n(m, f.n))
			}
			if f.q != nil {
				if m.fltPrec(a[0]) < m.fltPrec(a[1]) {
					m.unsupported("reducing the precision of a symbolic big.Float")
				}
				return m.fltSet(a[0], &bigFV{q: n(m, f.q), sh: f.sh})
			}
			if m.fltPrec(a[0]) < 53 {
				m.unsupported("reducing the precision of a symbolic big.Float")
			}
			return m.fltSet(a[0], &bigFV{fp: m.c.FUn(fop, f.fp, 0)})
		})
	}
	un("Abs", (*big.Float).Abs, func(m *Machine, x *Term) *Term { return m.absInt(x) }, OFAbs)
	un("Neg", (*big.Float).Neg, func(m *Machine, x *Term) *Term { return m.c.Neg(x) }, OFNeg)
	fbin := func(name string, conc func(z, x, y *big.Float) *big.Float, n func(m *Machine, x, y *Term) *Term) {
		reg(F+name, func(fr *frame, fn *ssa.Function, a []Value) (res Value) {
			m := fr.m
			x, y := m.fltGet(a[1]), m.fltGet(a[2])
			p := m.fltPrec(a[0])
			if p == 0 {
				p = m.fltPrec(a[1])
				if q := m.fltPrec(a[2]); q > p {
					p = q
				}
				m.fltSetPrec(a[0], p)
			}
			if x.f != nil && y.f != nil {
				defer func() {
					if e := recover(); e != nil {
						if _, ok := e.(big.ErrNaN); ok {
							t := m.sh.byPath["math/big"].Type("ErrNaN").Type()
							panic(targetPanic{Iface{t: m.canon(t), v: m.zero(t)}})
						}
						panic(e)
					}
				}()
				return m.fltSetConc(a[0], conc(new(big.Float).SetPrec(p).SetMode(m.fltMode(a[0])), x.f, y.f))
			}
			if n != nil {
				if xi, yi := m.fltInt(x), m.fltInt(y); xi != nil && yi != nil {
					return m.fltSetInt(a[0], n(m, xi, yi))
				}
			}
			inf := func(f *bigFV) bool { return f.fp != nil || f.f != nil && f.f.IsInf() }
			if !inf(x) && !inf(y) && m.fltMode(a[0]) == big.ToNearestEven {
				if v := m.fltExact(name, x, y, int(p)); v != nil {
					return m.fltSet(a[0], v)
				}
			}
			m.unsupported("big.Float %s of symbolic values", name)
			return nil
		})
	}
	fbin("Add", (*big.Float).Add, func(m *Machine, x, y *Term) *Term { return m.c.Add(x, y) })
	fbin("Sub", (*big.Float).Sub, func(m *Machine, x, y *Term) *Term { return m.c.Sub(x, y) })
	fbin("Mul", (*big.Float).Mul, func(m *Machine, x, y *Term) *Term { return m.c.Mul(x, y) })
	fbin("Quo", (*big.Float).Quo, nil)
	parse := func(m *Machine, z Value, s Str, base int) (bool, string) {
		if s.t == nil {
			f, _, err := new(big.Float).SetPrec(m.fltPrec(z)).SetMode(m.fltMode(z)).Parse(s.s, base)
			if err != nil {
				return false, err.Error()
			}
			m.fltSetConc(z, f)
			return true, ""
		}
		if base != 10 {
			m.unsupported("big.Float parsing in base %d", base)
		}
		n, frac, ok := m.parseFixed(s, "big.Float parsing")
		if !ok {
			return false, "?"
		}
		if m.fltPrec(z) == 0 {
			m.fltSetPrec(z, 64)
		}
		if m.p.branch(m.c.Eq(n, m.c.Int64(0))) && m.p.branch(m.inAlphabet(m.strBytes(s)[0], "-")) {
			zero := new(big.Float).SetPrec(m.fltPrec(z)).SetMode(m.fltMode(z))
			m.fltSetConc(z, zero.Neg(zero))
			return true, ""
		}
		if frac == 0 {
			m.fltSetInt(z, n)
		} else {
			if m.fltMode(z) != big.ToNearestEven {
				m.unsupported("big.Float rounding mode")
			}
			m.fltSet(z, m.fltQuo(n, m.c.Int(pow10(frac)), int(m.fltPrec(z))))
		}
		return true, ""
	}
	reg("math/big.ParseFloat", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		v := m.newBig("Float")
		m.fltSetPrec(v, uint(m.concInt(a[2])))
		s := m.structOf(v)
		m.store(&s[1], a[3])
		b := m.concInt(a[1])
		ok, msg := parse(m, v, m.plain(a[0]), b)
		if !ok {
			return Tuple{(*Value)(nil), m.mkInt(0), m.ifaceErr(cstr(msg))}
		}
		return Tuple{v, m.mkInt(10), Iface{}}
	})
	reg(F+"Parse", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		ok, msg := parse(m, a[0], m.plain(a[1]), m.concInt(a[2]))
		if !ok {
			return Tuple{(*Value)(nil), m.mkInt(0), m.ifaceErr(cstr(msg))}
		}
		return Tuple{a[0], m.mkInt(10), Iface{}}
	})
	reg(F+"SetString", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		s := m.plain(a[1])
		b := 0
		if s.t != nil {
			b = 10
		}
		ok, _ := parse(m, a[0], s, b)
		if !ok {
			return Tuple{(*Value)(nil), m.c.False}
		}
		return Tuple{a[0], m.c.True}
	})
	reg("math.archHypot math.hypot math.Hypot", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		c := m.c
		x, y := a[0].(*Term), a[1].(*Term)
		if x.IsConst() && y.IsConst() {
			return c.F64(math.Hypot(x.f64(), y.f64()))
		}
		if x.IsConst() && x.f64() == 0 {
			return c.FUn(OFAbs, y, 0)
		}
		if y.IsConst() && y.f64() == 0 {
			return c.FUn(OFAbs, x, 0)
		}
		m.unsupported("Hypot of symbolic values")
		return nil
	})
}

// bigInt is bigOf for operations that need an Int term.
func (m *Machine) bigInt(v Value) *Term {
	t := m.bigOf(v)
	if t.sort.K == SFP {
		if t.IsConst() {
			n, _ := new(big.Float).SetFloat64(t.f64()).Int(nil)
			return m.c.Int(n)
		}
		m.unsupported("arithmetic on a big.Int made from a symbolic float")
	}
	return t
}

func (m *Machine) absInt(x *Term) *Term {
	if x.IsConst() {
		return m.c.Int(new(big.Int).Abs(x.k))
	}
	if m.p.branch(m.c.Lt(x, m.c.Int64(0))) {
		return m.c.Neg(x)
	}
	return x
}

func (m *Machine) ratFromFrac(v Value, n, d *Term) Value {
	if m.p.branch(m.c.Eq(d, m.c.Int64(0))) {
		m.divZero()
	}
	if m.p.branch(m.c.Lt(d, m.c.Int64(0))) {
		n, d = m.c.Neg(n), m.c.Neg(d)
	}
	return m.ratSet(v, n, d)
}
