package main

// Integers converted to floats. The sign and the length of the integer are decided by branching, so that the float is
// assembled bit by bit: the result remembers the integer it equals, and converting it back is then exact arithmetic on
// integers instead of a floating point round trip left to the solver.

import "math/big"

// fpInt is an integral float: the magnitude r has l bits. r is an Int term, or its low 64 bits.
type fpInt struct {
	neg bool
	r   *Term
	l   int
}

func fpParams(w int) (p, bias int) {
	if w == 32 {
		return 24, 127
	}
	return 53, 1023
}

func (m *Machine) pow2Term(k int) *Term { return m.c.Int(pow2(k)) }

// magFloat rounds the magnitude x (64 bits, or an Int), which is not zero and has l bits, to a float of width w.
// acc is the accuracy of the magnitude. The result is divided by 2^sh.
func (m *Machine) magFloat(neg bool, x *Term, l, w, sh int) (f *Term, acc int) {
	c := m.c
	p, bias := fpParams(w)
	isInt := x.sort.K == SInt
	if isInt && l-1-sh < 1-bias {
		return m.subFloat(neg, x, l, w, sh)
	}
	r, mant := x, (*Term)(nil) // mant: the p-1 bits after the leading one
	if s := l - p; s > 0 {
		var kept, rem, half, one *Term
		if isInt {
			kept, rem, half, one = c.IDiv(x, m.pow2Term(s)), c.IMod(x, m.pow2Term(s)), m.pow2Term(s-1), c.Int64(1)
		} else {
			kept, rem, half, one = c.BBin(OBLshr, x, c.BV(64, uint64(s))), c.BBin(OBAnd, x, c.BV(64, 1<<uint(s)-1)), c.BV(64, 1<<uint(s-1)), c.BV(64, 1)
		}
		lt := func(a, b *Term) *Term {
			if isInt {
				return c.Lt(a, b)
			}
			return c.BCmp(OBUlt, a, b)
		}
		odd := func(a *Term) *Term {
			if isInt {
				return c.Eq(c.IMod(a, c.Int64(2)), c.Int64(1))
			}
			return c.Eq(c.Extract(a, 0, 0), c.BV(1, 1))
		}
		zero := c.Int64(0)
		if !isInt {
			zero = c.BV(64, 0)
		}
		up := false
		if m.p.branch(c.Eq(rem, zero)) {
		} else if m.p.branch(lt(half, rem)) {
			up = true
		} else if m.p.branch(c.Eq(rem, half)) {
			up = m.p.branch(odd(kept))
			acc = -1
		} else {
			acc = -1
		}
		if up {
			acc = 1
			if isInt {
				kept = c.Add(kept, one)
				if m.p.branch(c.Eq(kept, m.pow2Term(p))) {
					kept, l = m.pow2Term(p-1), l+1
				}
				r = c.MulK(kept, pow2(l-p))
			} else {
				kept = c.BBin(OBAdd, kept, one)
				if m.p.branch(c.Eq(kept, c.BV(64, 1<<uint(p)))) {
					kept, l = c.BV(64, 1<<uint(p-1)), l+1
				}
				if l == 65 {
					r = c.BV(64, 0)
				} else {
					r = c.BBin(OBShl, kept, c.BV(64, uint64(l-p)))
				}
			}
		} else if isInt {
			r = c.MulK(kept, pow2(s))
		} else {
			r = c.BBin(OBShl, kept, c.BV(64, uint64(s)))
		}
		mant = kept
	} else if isInt {
		mant = c.MulK(x, pow2(p-l))
	} else {
		mant = c.BBin(OBShl, x, c.BV(64, uint64(p-l)))
	}
	maxL := 128
	if w == 64 {
		maxL = 1024
	}
	if l-1-sh < -bias+1 {
		m.unsupported("symbolic subnormal float")
	}
	if l-sh > maxL {
		inf := new(big.Float).SetInf(neg)
		y, _ := inf.Float64()
		return c.FP(w, y), 1
	}
	if isInt {
		mant = c.Int2BV(mant, 64)
	}
	sign := uint64(0)
	if neg {
		sign = 1
	}
	hdr := (sign<<uint(w-p) | uint64(l-1-sh+bias)) << uint(p-1)
	bits := c.BBin(OBOr, c.BV(64, hdr), c.BBin(OBAnd, mant, c.BV(64, 1<<uint(p-1)-1)))
	f = c.FFromBits(c.Extract(bits, w-1, 0))
	if sh == 0 {
		m.p.setFPInt(f, &fpInt{neg, r, l})
	} else if isInt && !f.IsConst() {
		if neg {
			r = c.Neg(r)
		}
		if m.p.fpDy == nil {
			m.p.fpDy = map[*Term]*bigFV{}
		}
		m.p.fpDy[f] = &bigFV{q: r, sh: sh}
	}
	return f, acc
}

// subFloat does so for a magnitude below the smallest normal float.
func (m *Machine) subFloat(neg bool, x *Term, l, w, sh int) (f *Term, acc int) {
	c := m.c
	p, bias := fpParams(w)
	e := sh - bias - p + 2 // the float is a multiple of 2^-(sh-e)
	k := l - e             // bits kept
	sign := uint64(0)
	if neg {
		sign = 1 << uint(w-1)
	}
	fp := func(kept *Term) *Term {
		return c.FFromBits(c.Extract(c.BBin(OBOr, c.BV(64, sign), c.Int2BV(kept, 64)), w-1, 0))
	}
	dy := func(f, kept *Term) *Term {
		if neg {
			kept = c.Neg(kept)
		}
		if m.p.fpDy == nil {
			m.p.fpDy = map[*Term]*bigFV{}
		}
		if !f.IsConst() {
			m.p.fpDy[f] = &bigFV{q: kept, sh: sh - e}
		}
		return f
	}
	if k < 0 {
		return fp(c.Int64(0)), -1
	}
	if e <= 0 {
		kept := c.MulK(x, pow2(-e))
		return dy(fp(kept), kept), 0
	}
	d, half := m.pow2Term(e), m.pow2Term(e-1)
	kept, rem := c.IDiv(x, d), c.IMod(x, d)
	switch {
	case m.p.branch(c.Eq(rem, c.Int64(0))):
	case m.p.branch(c.Lt(half, rem)), m.p.branch(c.Eq(rem, half)) && m.p.branch(c.Eq(c.IMod(kept, c.Int64(2)), c.Int64(1))):
		kept, acc = c.Add(kept, c.Int64(1)), 1
	default:
		acc = -1
	}
	if k == 0 && acc < 0 {
		return fp(c.Int64(0)), acc
	}
	return dy(fp(kept), kept), acc
}

func (p *Path) setFPInt(f *Term, v *fpInt) {
	if f.IsConst() {
		return
	}
	if p.fpInts == nil {
		p.fpInts = map[*Term]*fpInt{}
	}
	p.fpInts[f] = v
}

// bvFloat converts a machine integer to a float of width w.
func (m *Machine) bvFloat(t *Term, w int, signed bool) *Term {
	c := m.c
	if t.IsConst() {
		return c.FFromBV(t, w, signed)
	}
	neg := false
	if signed {
		t = c.Sext(t, 64)
		if m.p.branch(c.BCmp(OBSlt, t, c.BV(64, 0))) {
			neg, t = true, c.BNeg(t)
		}
	} else {
		t = c.Zext(t, 64)
	}
	l, _ := cint(m.bitLen(t))
	if l == 0 {
		return c.FP(w, 0)
	}
	f, _ := m.magFloat(neg, t, int(l), w, 0)
	return f
}

// intFloat converts an Int to a float of width w and gives the accuracy of the result.
func (m *Machine) intFloat(n *Term, w int) (*Term, int) { return m.dyadicFloat(n, 0, w) }

// dyadicFloat does so for n / 2^sh.
func (m *Machine) dyadicFloat(n *Term, sh, w int) (*Term, int) {
	c := m.c
	neg := false
	if m.p.branch(c.Lt(n, c.Int64(0))) {
		neg, n = true, c.Neg(n)
	}
	l, _ := cint(m.intBitLen(n))
	if l == 0 {
		return c.FP(w, 0), 0
	}
	f, acc := m.magFloat(neg, n, int(l), w, sh)
	if neg {
		acc = -acc
	}
	return f, acc
}

// fpIntTerm gives the integer a float is known to equal as an Int term.
func (m *Machine) fpIntTerm(f *Term) *Term {
	v := m.p.fpInts[f]
	if v == nil {
		return nil
	}
	c := m.c
	r := v.r
	if r.sort.K != SInt {
		if v.l == 65 {
			r = m.pow2Term(64)
		} else {
			r = c.BV2Int(r, false)
		}
	}
	if v.neg {
		r = c.Neg(r)
	}
	return r
}

// fpIntConv converts a known integral float to an integer type, as amd64 does; nil if the float is not known.
func (m *Machine) fpIntConv(f *Term, dw int, ds bool) *Term {
	v := m.p.fpInts[f]
	if v == nil || v.r.sort.K == SInt {
		return nil
	}
	c := m.c
	signed := func(v *fpInt, w int) *Term {
		if v.l < w {
			x := v.r
			if v.neg {
				x = c.BNeg(x)
			}
			return c.Extract(x, w-1, 0)
		}
		if v.neg && v.l == w && m.p.branch(c.Eq(v.r, c.BV(64, 1<<uint(w-1)))) {
			return c.BV(w, 1<<uint(w-1))
		}
		return c.BV(w, 1<<uint(w-1))
	}
	switch {
	case ds && dw == 32:
		return signed(v, 32)
	case ds || dw < 64:
		return c.Extract(signed(v, 64), dw-1, 0)
	case v.neg || v.l < 64:
		return signed(v, 64)
	case v.l == 64:
		return v.r
	}
	return c.BV(64, 0)
}

// fpWiden converts between float widths.
func (m *Machine) fpConv(t *Term, w int) *Term {
	if v := m.p.fpInts[t]; v != nil && t.sort.W != w && !(v.l == 65 && v.r.sort.K != SInt) {
		f, _ := m.magFloat(v.neg, v.r, v.l, w, 0)
		return f
	}
	if v := m.p.fpDy[t]; v != nil && t.sort.W != w {
		f, _ := m.dyadicFloat(v.q, v.sh, w)
		return f
	}
	return m.c.FToFP(t, w)
}
