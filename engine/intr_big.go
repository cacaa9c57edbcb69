package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// *big.Int is modelled as a mathematical integer kept in the first field of the struct. The second field holds the
// digit array: a copy of the struct shares it, and an operation that writes through one of the copies is seen by the
// others (whose sign and length fields are their own).

type bigCell struct {
	last *Term  // value last written through these digits
	f    *bigFV // the same for a Float
}

func (m *Machine) cellGet(s Structure) *Term {
	t := s[0].(*Term)
	if c, ok := s[1].(*bigCell); ok && c.last != t && c.last != nil {
		if t.sort.K != SInt || c.last.sort.K != SInt {
			return c.last
		}
		abs := m.absInt(c.last)
		z := m.c.Int64(0)
		return m.c.Ite(m.c.Eq(t, z), z, m.c.Ite(m.c.Lt(t, z), m.c.Neg(abs), abs))
	}
	return t
}

func (m *Machine) cellSet(s Structure, x *Term) {
	m.store(&s[0], x)
	if c, ok := s[1].(*bigCell); ok {
		c.last = x
	} else {
		s[1] = &bigCell{last: x}
	}
}

func (m *Machine) bigIntType() types.Type {
	return m.sh.byPath["math/big"].Type("Int").Type()
}

func (m *Machine) newBigInt(x *Term) *Value {
	v := new(Value)
	*v = m.zero(m.bigIntType())
	m.cellSet((*v).(Structure), x)
	return v
}

func (m *Machine) bigOf(v Value) *Term {
	p, ok := v.(*Value)
	if !ok || p == nil {
		m.nilDeref()
	}
	s := (*p).(Structure)
	t := m.cellGet(s)
	if t.sort.K == SBool {
		return m.c.Int64(0)
	}
	return t
}

func (m *Machine) setBig(v Value, x *Term) Value {
	p := v.(*Value)
	if p == nil {
		m.nilDeref()
	}
	if x.sort.K == SFP && x.IsConst() {
		n, _ := new(big.Float).SetFloat64(x.f64()).Int(nil)
		x = m.c.Int(n)
	}
	m.cellSet((*p).(Structure), x)
	return p
}

// toInt gives the mathematical value of a machine integer term.
func (m *Machine) toInt(t *Term, typ types.Type) *Term {
	if t.sort.K == SInt {
		return t
	}
	_, s := intInfo(typ)
	return m.c.BV2Int(t, s)
}

// fromInt gives the machine integer congruent to x.
func (m *Machine) fromInt(x *Term, typ types.Type) *Term {
	w, s := intInfo(typ)
	if m.bv {
		return m.c.Int2BV(x, w)
	}
	return m.wrap(x, w, s, 1)
}

func init() {
	I := "(*math/big.Int)."
	i64, u64, u := types.Typ[types.Int64], types.Typ[types.Uint64], types.Typ[types.Uint]
	_ = u
	reg("math/big.NewInt", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.m.newBigInt(fr.m.toInt(a[0].(*Term), i64))
	})
	bin := func(name string, f func(m *Machine, x, y *Term) *Term) {
		reg(I+name, func(fr *frame, fn *ssa.Function, a []Value) Value {
			m := fr.m
			x, y := m.bigInt(a[1]), m.bigInt(a[2])
			return m.setBig(a[0], f(m, x, y))
		})
	}
	bin("Add", func(m *Machine, x, y *Term) *Term { return m.c.Add(x, y) })
	bin("Sub", func(m *Machine, x, y *Term) *Term { return m.c.Sub(x, y) })
	bin("Mul", func(m *Machine, x, y *Term) *Term { return m.c.Mul(x, y) })
	chk := func(m *Machine, y *Term) {
		if m.p.branch(m.c.Eq0(y)) {
			panic(targetPanic{Iface{t: m.canon(types.Typ[types.String]), v: cstr("division by zero")}})
		}
	}
	bin("Quo", func(m *Machine, x, y *Term) *Term { chk(m, y); q, _ := m.quoRemInt(x, y); return q })
	bin("Rem", func(m *Machine, x, y *Term) *Term { chk(m, y); _, r := m.quoRemInt(x, y); return r })
	bin("Div", func(m *Machine, x, y *Term) *Term { chk(m, y); q, _ := m.euclid(x, y); return q })
	bin("Mod", func(m *Machine, x, y *Term) *Term { chk(m, y); _, r := m.euclid(x, y); return r })
	reg(I+"QuoRem", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		x, y := m.bigInt(a[1]), m.bigInt(a[2])
		chk(m, y)
		q, r := m.quoRemInt(x, y)
		m.setBig(a[0], q)
		m.setBig(a[3], r)
		return Tuple{a[0], a[3]}
	})
	reg(I+"DivMod", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		x, y := m.bigInt(a[1]), m.bigInt(a[2])
		chk(m, y)
		q, r := m.euclid(x, y)
		m.setBig(a[0], q)
		m.setBig(a[3], r)
		return Tuple{a[0], a[3]}
	})
	reg(I+"Neg", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.m.setBig(a[0], fr.m.c.Neg(fr.m.bigInt(a[1])))
	})
	reg(I+"Set", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.m.setBig(a[0], fr.m.bigOf(a[1])) })
	reg(I+"Abs", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		x := m.bigInt(a[1])
		if m.p.branch(m.c.Lt(x, m.c.Int64(0))) {
			x = m.c.Neg(x)
		}
		return m.setBig(a[0], x)
	})
	reg(I+"SetInt64", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.m.setBig(a[0], fr.m.toInt(a[1].(*Term), i64))
	})
	reg(I+"SetUint64", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.m.setBig(a[0], fr.m.toInt(a[1].(*Term), u64))
	})
	cmp3 := func(m *Machine, x, y *Term) Value { return m.cmp3(x, y) }
	reg(I+"Cmp", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return cmpBig(fr.m, fr.m.bigOf(a[0]), fr.m.bigOf(a[1]))
	})
	reg(I+"CmpAbs", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		abs := func(x *Term) *Term {
			if m.p.branch(m.c.Lt(x, m.c.Int64(0))) {
				return m.c.Neg(x)
			}
			return x
		}
		return cmp3(m, abs(m.bigInt(a[0])), abs(m.bigInt(a[1])))
	})
	reg(I+"Sign", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return cmpBig(fr.m, fr.m.bigOf(a[0]), fr.m.c.Int64(0))
	})
	rng := func(m *Machine, x *Term, w int, s bool) *Term {
		if x.sort.K == SFP {
			c := m.c
			if s {
				return c.And(c.FCmp(OFLe, c.F64(-9223372036854775808), x), c.FCmp(OFLt, x, c.F64(9223372036854775808)))
			}
			return c.And(c.FCmp(OFLe, c.F64(0), x), c.FCmp(OFLt, x, c.F64(18446744073709551616)))
		}
		lo, hi := typeRange(w, s)
		return m.c.And(m.c.Le(m.c.Int(lo), x), m.c.Le(x, m.c.Int(hi)))
	}
	reg(I+"IsInt64", func(fr *frame, fn *ssa.Function, a []Value) Value { return rng(fr.m, fr.m.bigOf(a[0]), 64, true) })
	reg(I+"IsUint64", func(fr *frame, fn *ssa.Function, a []Value) Value { return rng(fr.m, fr.m.bigOf(a[0]), 64, false) })
	reg(I+"Int64", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.m.bigToMachine(fr.m.bigOf(a[0]), i64) })
	reg(I+"Uint64", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.m.bigToMachine(fr.m.bigOf(a[0]), u64) })
	reg(I+"Lsh", func(fr *frame, fn *ssa.Function, a []Value) Value {
		n := fr.m.concInt(a[2])
		return fr.m.setBig(a[0], fr.m.c.MulK(fr.m.bigInt(a[1]), pow2(n)))
	})
	reg(I+"Rsh", func(fr *frame, fn *ssa.Function, a []Value) Value {
		n := fr.m.concInt(a[2])
		return fr.m.setBig(a[0], fr.m.c.IDiv(fr.m.bigInt(a[1]), fr.m.c.Int(pow2(n))))
	})
	reg(I+"SetBit", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		x, n := m.bigInt(a[1]), m.concInt(a[2])
		if n < 0 {
			m.goPanic("negative bit index")
		}
		old := m.c.IMod(m.c.IDiv(x, m.c.Int(pow2(n))), m.c.Int64(2))
		b := m.concInt(a[3])
		if b != 0 && b != 1 {
			m.goPanic("set bit is not 0 or 1")
		}
		return m.setBig(a[0], m.c.Add(x, m.c.MulK(m.c.Sub(m.c.Int64(int64(b)), old), pow2(n))))
	})
	reg(I+"BitLen", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		x := m.bigInt(a[0])
		if m.p.branch(m.c.Lt(x, m.c.Int64(0))) {
			x = m.c.Neg(x)
		}
		return m.intBitLen(x)
	})
	reg(I+"Exp", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		x, y := m.bigInt(a[1]), m.bigInt(a[2])
		if p, _ := a[3].(*Value); p != nil {
			if z := m.bigOf(p); !z.IsConst() || z.k.Sign() != 0 {
				m.unsupported("modular exponentiation")
			}
		}
		if !y.IsConst() {
			y = m.p.concretize(y)
		}
		if y.k.Sign() <= 0 {
			return m.setBig(a[0], m.c.Int64(1))
		}
		if x.IsConst() {
			return m.setBig(a[0], m.c.Int(new(big.Int).Exp(x.k, y.k, nil)))
		}
		r := m.c.Int64(1)
		for i := int64(0); i < y.k.Int64(); i++ {
			r = m.c.Mul(r, x)
		}
		return m.setBig(a[0], r)
	})
	str := func(fr *frame, fn *ssa.Function, a []Value) Value {
		if p, ok := a[0].(*Value); ok && p == nil {
			return cstr("<nil>")
		}
		if len(a) > 1 {
			if b, ok := cint(a[1].(*Term)); !ok || b != 10 {
				if x := fr.m.bigOf(a[0]); ok && x.IsConst() {
					return cstr(x.k.Text(int(b)))
				}
				fr.m.unsupported("big.Int text in base other than 10")
			}
		}
		if x := fr.m.bigOf(a[0]); x.sort.K == SFP && !x.IsConst() {
			return Str{s: "?", opaque: true}
		} else if fr.m.opt.opaque && !x.IsConst() {
			return Str{s: "?", opaque: true, src: fr.m.bigInt(a[0])}
		}
		return fr.m.decimalStr(fr.m.bigInt(a[0]))
	}
	reg(I+"String "+I+"Text", str)
	reg(I+"SetString", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		s := m.plain(a[1])
		base := m.concInt(a[2])
		if s.t == nil {
			n, ok := new(big.Int).SetString(s.s, base)
			if !ok {
				return Tuple{(*Value)(nil), m.c.False}
			}
			return Tuple{m.setBig(a[0], m.c.Int(n)), m.c.True}
		}
		if base != 10 && base != 0 {
			m.unsupported("big.Int SetString base %d", base)
		}
		x, ok := m.parseDecimal(s, base == 0)
		if !ok {
			return Tuple{(*Value)(nil), m.c.False}
		}
		return Tuple{m.setBig(a[0], x), m.c.True}
	})
	reg(I+"Bytes", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		c := m.c
		x := m.bigInt(a[0])
		if m.p.branch(c.Lt(x, c.Int64(0))) {
			x = c.Neg(x)
		}
		k, hi := 0, 80
		if iv := c.interval(x); iv.hi != nil {
			hi = (iv.hi.BitLen() + 7) / 8
		}
		for k < hi {
			if mid := (k + hi) / 2; m.p.branch(c.Lt(x, c.Int(pow2(8*mid)))) {
				hi = mid
			} else {
				k = mid + 1
			}
		}
		r := Slice{a: make([]Value, k)}
		for i := 0; i < k; i++ {
			r.a[i] = m.byteOfInt(c.IMod(c.IDiv(x, c.Int(pow2(8*(k-1-i)))), c.Int64(256)))
		}
		if k > 0 {
			m.side2[&r.a[0]] = bigBytes{x, append([]Value(nil), r.a...)}
		}
		return r
	})
	reg(I+"SetBytes", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		c := m.c
		s := a[1].(Slice)
		if len(s.a) > 0 {
			if bb, ok := m.side2[&s.a[0]].(bigBytes); ok && len(bb.b) == len(s.a) {
				same := true
				for i := range bb.b {
					same = same && bb.b[i] == s.a[i]
				}
				if same {
					return m.setBig(a[0], bb.x)
				}
			}
		}
		r := c.Int64(0)
		for _, v := range s.a {
			r = c.Add(c.MulK(r, big.NewInt(256)), m.intOfByte(v.(*Term)))
		}
		return m.setBig(a[0], r)
	})
	reg(I+"And", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		x, y := m.bigInt(a[1]), m.bigInt(a[2])
		if x.IsConst() {
			x, y = y, x
		}
		if y.IsConst() {
			if x.IsConst() {
				return m.setBig(a[0], m.c.Int(new(big.Int).And(x.k, y.k)))
			}
			if y.k.Sign() >= 0 {
				if k := new(big.Int).Add(y.k, big.NewInt(1)); k.BitLen() == int(k.TrailingZeroBits())+1 {
					return m.setBig(a[0], m.c.IMod(x, m.c.Int(k)))
				}
			}
		}
		m.unsupported("big.Int And of symbolic values")
		return nil
	})
	reg(I+"Bit", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		i := m.concInt(a[1])
		return m.fromInt(m.c.IMod(m.c.IDiv(m.bigInt(a[0]), m.c.Int(pow2(i))), m.c.Int64(2)), u)
	})
	reg(I+"ProbablyPrime "+I+"ModInverse "+I+"Sqrt "+I+"GCD", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.m.unsupported("%s", fn)
		return nil
	})
}

// bigBytes remembers which integer a byte slice was made from.
type bigBytes struct {
	x *Term
	b []Value
}

func (m *Machine) intBitLen(x *Term) *Term {
	if x.IsConst() {
		return m.mkInt(x.k.BitLen())
	}
	lo, hi := 0, 600
	if iv := m.c.interval(x); iv.hi != nil {
		hi = iv.hi.BitLen()
	}
	for lo < hi {
		mid := (lo + hi) / 2
		if m.p.branch(m.c.Lt(x, m.c.Int(pow2(mid)))) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	return m.mkInt(lo)
}

func (m *Machine) cmp3(x, y *Term) Value {
	if m.p.branch(m.c.Lt(x, y)) {
		return m.mkInt(-1)
	}
	if m.p.branch(m.c.Eq(x, y)) {
		return m.mkInt(0)
	}
	return m.mkInt(1)
}

// cmpBig compares two integers, either of which may be kept as an integral float.
func cmpBig(m *Machine, x, y *Term) Value {
	if x.sort.K == SFP || y.sort.K == SFP {
		wrap := func(t *Term) *bigFV {
			switch {
			case t.sort.K == SFP:
				return &bigFV{fp: t}
			case t.IsConst():
				return &bigFV{f: new(big.Float).SetInt(t.k)}
			}
			return &bigFV{n: t}
		}
		return m.fltCmp(wrap(x), wrap(y))
	}
	return m.cmp3(x, y)
}

// bigToMachine is Int64 or Uint64 of a big integer.
func (m *Machine) bigToMachine(x *Term, t types.Type) *Term {
	if x.sort.K == SFP {
		w, s := intInfo(t)
		// defined by math/big only in range; callers have checked it or get any value
		c := m.c
		in := c.And(c.FCmp(OFLe, c.F64(-9223372036854775808), x), c.FCmp(OFLt, x, c.F64(9223372036854775808)))
		if !s {
			in = c.And(c.FCmp(OFLe, c.F64(0), x), c.FCmp(OFLt, x, c.F64(18446744073709551616)))
		}
		if !m.p.branch(in) {
			m.unsupported("Int64 or Uint64 of a big.Int made from a symbolic float out of range")
		}
		if !m.bv {
			m.unsupported("symbolic float to integer conversion in Int mode")
		}
		return c.FToBV(x, w, s)
	}
	return m.fromInt(x, t)
}

func (m *Machine) euclid(x, y *Term) (*Term, *Term) {
	c := m.c
	q, r := m.quoRemInt(x, y)
	if m.p.branch(c.Lt(r, c.Int64(0))) {
		if m.p.branch(c.Lt(y, c.Int64(0))) {
			return c.Add(q, c.Int64(1)), c.Sub(r, y)
		}
		return c.Sub(q, c.Int64(1)), c.Add(r, y)
	}
	return q, r
}

// decimalStr is the base 10 text of an Int term, forking on sign and digit count.
func (m *Machine) decimalStr(x *Term) Str {
	c := m.c
	if x.IsConst() {
		return cstr(x.k.String())
	}
	neg := m.p.branch(c.Lt(x, c.Int64(0)))
	if neg {
		x = c.Neg(x)
	}
	// digit count by binary search
	max := 160
	if iv := c.interval(x); iv.hi != nil {
		max = len(iv.hi.String())
	}
	lo, hi := 1, max
	for lo < hi {
		mid := (lo + hi) / 2
		if m.p.branch(c.Lt(x, c.Int(pow10(mid)))) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	n := lo
	ts := make([]*Term, 0, n+1)
	b := func(k int64) *Term { return m.mkIntW(k, 8) }
	if neg {
		ts = append(ts, b('-'))
	}
	for i := n - 1; i >= 0; i-- {
		d := c.IDiv(x, c.Int(pow10(i)))
		if i < n-1 {
			d = c.IMod(d, c.Int64(10))
		}
		ts = append(ts, m.byteOfInt(c.Add(d, c.Int64('0'))))
	}
	if neg {
		x = c.Neg(x)
	}
	if m.texts == nil {
		m.texts = map[*Term][]decText{}
	}
	m.texts[ts[len(ts)-1]] = append(m.texts[ts[len(ts)-1]], decText{x, ts})
	return normStr(ts)
}

// radixStr is the text of an integer in a base other than ten.
func (m *Machine) radixStr(x *Term, base int64) Str {
	c := m.c
	if x.IsConst() {
		return cstr(x.k.Text(int(base)))
	}
	if base < 2 || base > 36 {
		m.unsupported("base %d", base)
	}
	neg := m.p.branch(c.Lt(x, c.Int64(0)))
	if neg {
		x = c.Neg(x)
	}
	iv := c.interval(x)
	if iv.hi == nil {
		m.unsupported("text of an unbounded integer in base %d", base)
	}
	b := big.NewInt(base)
	pow := func(n int) *big.Int { return new(big.Int).Exp(b, big.NewInt(int64(n)), nil) }
	lo, hi := 1, len(iv.hi.Text(int(base)))
	for lo < hi {
		mid := (lo + hi) / 2
		if m.p.branch(c.Lt(x, c.Int(pow(mid)))) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	var ts []*Term
	if neg {
		ts = append(ts, m.mkIntW('-', 8))
	}
	for i := lo - 1; i >= 0; i-- {
		d := c.IDiv(x, c.Int(pow(i)))
		if i < lo-1 {
			d = c.IMod(d, c.Int(b))
		}
		if base > 10 {
			d = c.Ite(c.Lt(d, c.Int64(10)), c.Add(d, c.Int64('0')), c.Add(d, c.Int64('a'-10)))
		} else {
			d = c.Add(d, c.Int64('0'))
		}
		ts = append(ts, m.byteOfInt(d))
	}
	return normStr(ts)
}

// decText remembers which integer a decimal text was made from.
type decText struct {
	x  *Term
	ts []*Term
}

func (m *Machine) byteOfInt(x *Term) *Term {
	if m.bv {
		return m.c.Int2BV(x, 8)
	}
	return x
}

func (m *Machine) intOfByte(t *Term) *Term {
	if t.sort.K == SInt {
		return t
	}
	return m.c.BV2Int(t, false)
}

func pow10(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }

// parseDecimal reads [+-]?digits (underscores and base prefixes are unsupported), forking on validity.
func (m *Machine) parseDecimal(s Str, base0 bool) (*Term, bool) {
	c := m.c
	bs := m.strBytes(s)
	if len(bs) == 0 {
		return nil, false
	}
	for _, d := range m.texts[bs[len(bs)-1]] {
		if len(d.ts) == len(bs) {
			same := true
			for i := range bs {
				same = same && bs[i] == d.ts[i]
			}
			if same {
				return d.x, true
			}
		}
	}
	is := func(t *Term, k byte) bool { return m.p.branch(c.Eq(t, m.mkIntW(int64(k), 8))) }
	neg := false
	if is(bs[0], '-') {
		neg = true
		bs = bs[1:]
	} else if is(bs[0], '+') {
		bs = bs[1:]
	}
	if len(bs) == 0 {
		return nil, false
	}
	if base0 && len(bs) > 1 && is(bs[0], '0') {
		m.unsupported("big.Int SetString with base prefix")
	}
	r := c.Int64(0)
	for _, t := range bs {
		if !m.p.branch(m.inAlphabet(t, "0123456789")) {
			if base0 && is(t, '_') {
				m.unsupported("big.Int SetString with underscores")
			}
			return nil, false
		}
		r = c.Add(c.MulK(r, big.NewInt(10)), c.Sub(m.intOfByte(t), c.Int64('0')))
	}
	if neg {
		r = c.Neg(r)
	}
	return r, true
}

var _ = strings.Fields
