package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func chanElem(t types.Type) types.Type { return t.Underlying().(*types.Chan).Elem() }

// wrap reduces an Int-mode result to the type's range. kind 0: sums (at most one wrap), 1: anything.
func (m *Machine) wrap(r *Term, w int, signed bool, kind int) *Term {
	c := m.c
	lo, hi := typeRange(w, signed)
	iv := c.interval(r)
	if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(lo) >= 0 && iv.hi.Cmp(hi) <= 0 {
		return r
	}
	if r.IsConst() {
		x := new(big.Int).Mod(r.k, pow2(w))
		if signed && x.Bit(w-1) == 1 {
			x.Sub(x, pow2(w))
		}
		return c.Int(x)
	}
	okLo, okHi := c.True, c.True
	if iv.lo == nil || iv.lo.Cmp(lo) < 0 {
		okLo = c.Le(c.Int(lo), r)
	}
	if iv.hi == nil || iv.hi.Cmp(hi) > 0 {
		okHi = c.Le(r, c.Int(hi))
	}
	if m.p.branch(c.And(okLo, okHi)) {
		return r
	}
	if kind == 0 {
		if okHi.IsTrue() || !okLo.IsTrue() && !m.p.branch(okLo) {
			return c.Add(r, c.Int(pow2(w)))
		}
		return c.Sub(r, c.Int(pow2(w)))
	}
	return m.modWrap(r, w, signed)
}

func (m *Machine) modWrap(r *Term, w int, signed bool) *Term {
	c := m.c
	if signed {
		h := c.Int(pow2(w - 1))
		return c.Sub(c.IMod(c.Add(r, h), c.Int(pow2(w))), h)
	}
	return c.IMod(r, c.Int(pow2(w)))
}

func (m *Machine) isZero(t *Term) *Term {
	if m.bv {
		return m.c.Eq(t, m.c.BV(t.sort.W, 0))
	}
	return m.c.Eq0(t)
}

// quoRem is Go's truncated division in Int mode.
func (m *Machine) quoRemInt(x, y *Term) (q, r *Term) {
	c := m.c
	ix, iy := c.interval(x), c.interval(y)
	nonneg := func(iv ival, t *Term) bool {
		if iv.lo != nil && iv.lo.Sign() >= 0 {
			return true
		}
		if iv.hi != nil && iv.hi.Sign() < 0 {
			return false
		}
		return m.p.branch(c.Le(c.Int64(0), t))
	}
	xn, yn := !nonneg(ix, x), !nonneg(iy, y)
	ax, ay := x, y
	if xn {
		ax = c.Neg(x)
	}
	if yn {
		ay = c.Neg(y)
	}
	d := c.IDiv(ax, ay)
	if !ay.IsConst() && d.op == OIDiv {
		rem := c.Sub(ax, c.Mul(ay, d))
		m.p.axiom(c.Le(c.Int64(0), rem))
		m.p.axiom(c.Lt(rem, ay))
		m.p.axiom(c.Le(d, ax))
		m.p.axiom(c.Le(c.Int64(0), d))
	}
	rem := c.Sub(ax, c.Mul(ay, d))
	if xn != yn {
		q = c.Neg(d)
	} else {
		q = d
	}
	if xn {
		r = c.Neg(rem)
	} else {
		r = rem
	}
	return
}

func (m *Machine) intBin(op token.Token, t types.Type, x, y *Term) *Term {
	w, signed := intInfo(t)
	c := m.c
	if m.bv {
		switch op {
		case token.ADD:
			return c.BBin(OBAdd, x, y)
		case token.SUB:
			return c.BBin(OBSub, x, y)
		case token.MUL:
			return c.BBin(OBMul, x, y)
		case token.QUO, token.REM:
			if m.p.branch(m.isZero(y)) {
				m.rtPanic("integer divide by zero")
			}
			switch {
			case op == token.QUO && signed:
				return c.BBin(OBSDiv, x, y)
			case op == token.QUO:
				return c.BBin(OBUDiv, x, y)
			case signed:
				return c.BBin(OBSRem, x, y)
			}
			return c.BBin(OBURem, x, y)
		case token.AND:
			return c.BBin(OBAnd, x, y)
		case token.OR:
			return c.BBin(OBOr, x, y)
		case token.XOR:
			return c.BBin(OBXor, x, y)
		case token.AND_NOT:
			return c.BBin(OBAnd, x, c.BNot(y))
		}
		m.unsupported("bv op %s", op)
	}
	switch op {
	case token.ADD:
		return m.wrap(c.Add(x, y), w, signed, 0)
	case token.SUB:
		return m.wrap(c.Sub(x, y), w, signed, 0)
	case token.MUL:
		return m.wrap(c.Mul(x, y), w, signed, 1)
	case token.QUO:
		if m.p.branch(m.isZero(y)) {
			m.rtPanic("integer divide by zero")
		}
		q, _ := m.quoRemInt(x, y)
		return m.wrap(q, w, signed, 0)
	case token.REM:
		if m.p.branch(m.isZero(y)) {
			m.rtPanic("integer divide by zero")
		}
		_, r := m.quoRemInt(x, y)
		return r
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return m.intBits(op, x, y, w)
	}
	m.unsupported("int op %s", op)
	return nil
}

// bitop remembers that an Int mode term is a bitwise operation of two values.
type bitop struct {
	op   token.Token
	a, b *Term
}

// intBits is a bitwise operation of Int mode.
func (m *Machine) intBits(op token.Token, x, y *Term, w int) *Term {
	c := m.c
	if op == token.AND_NOT {
		if !x.IsConst() && !y.IsConst() {
			return m.intBits(token.AND, x, c.Sub(c.Int64(-1), y), w)
		}
		return c.Sub(x, c.IAnd(x, y, w))
	}
	within := func(t *Term, lo, hi int64) bool {
		iv := c.interval(t)
		return iv.lo != nil && iv.hi != nil && iv.lo.Cmp(big.NewInt(lo)) >= 0 && iv.hi.Cmp(big.NewInt(hi)) <= 0
	}
	if !x.IsConst() && !y.IsConst() && x != y && op != token.AND {
		one := c.Int64(1)
		if within(x, -1, 0) {
			x, y = y, x
		}
		if within(y, -1, 0) {
			if op == token.OR {
				return c.Ite(c.Eq0(y), x, c.Int64(-1))
			}
			return c.Ite(c.Eq0(y), x, c.Sub(c.Int64(-1), x))
		}
		if within(x, 0, 1) && within(y, 0, 1) {
			if op == token.OR {
				return c.Ite(c.Eq0(y), x, one)
			}
			return c.Ite(c.Eq0(y), x, c.Sub(one, x))
		}
	}
	a := c.IAnd(x, y, w)
	r := a
	switch op {
	case token.OR:
		r = c.Sub(c.Add(x, y), a)
	case token.XOR:
		r = c.Sub(c.Add(x, y), c.Add(a, a))
	}
	if a.op == OIAnd && !r.IsConst() {
		if m.bitops == nil {
			m.bitops = map[*Term]bitop{}
		}
		m.bitops[r] = bitop{op, x, y}
	}
	return r
}

// isNeg is t < 0 in Int mode, taken apart for bitwise operations.
func (m *Machine) isNeg(t *Term) *Term {
	c := m.c
	b, ok := m.bitops[t]
	if !ok {
		return c.Lt(t, c.Int64(0))
	}
	x, y := m.isNeg(b.a), m.isNeg(b.b)
	switch b.op {
	case token.AND:
		return c.And(x, y)
	case token.OR:
		return c.Or(x, y)
	}
	return c.Not(c.Eq(x, y))
}

func (m *Machine) shift(op token.Token, t, yt types.Type, x, y *Term) *Term {
	w, signed := intInfo(t)
	c := m.c
	if _, ys := intInfo(yt); ys {
		if m.p.branch(m.ltZero(y)) {
			m.rtPanic("negative shift amount")
		}
	}
	if m.bv {
		// widen or clamp the count to the operand width
		var cnt *Term
		yw := y.sort.W
		switch {
		case yw == w:
			cnt = y
		case yw < w:
			cnt = c.Zext(y, w)
		default:
			big := c.BCmp(OBUle, c.BV(yw, uint64(w)), y)
			cnt = c.Ite(big, c.BV(w, uint64(w)), c.Extract(y, w-1, 0))
		}
		switch {
		case op == token.SHL:
			return c.BBin(OBShl, x, cnt)
		case signed:
			return c.BBin(OBAshr, x, cnt)
		}
		return c.BBin(OBLshr, x, cnt)
	}
	if !y.IsConst() {
		if m.p.branch(c.Le(c.Int64(int64(w)), y)) {
			y = c.Int64(int64(w))
		} else {
			y = m.p.concretize(y)
		}
	}
	n := w
	if y.k.IsInt64() && y.k.Int64() < int64(w) {
		n = int(y.k.Int64())
	}
	if op == token.SHL {
		if n >= w {
			return c.Int64(0)
		}
		r := c.MulK(x, pow2(n))
		iv := c.interval(r)
		lo, hi := typeRange(w, signed)
		if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(lo) >= 0 && iv.hi.Cmp(hi) <= 0 {
			return r
		}
		return m.wrap(r, w, signed, 1)
	}
	if n >= w-1 && signed {
		return c.Ite(m.isNeg(x), c.Int64(-1), c.Int64(0))
	}
	if b, ok := m.bitops[x]; ok && n == w-1 {
		d := c.Int(pow2(n))
		return m.intBits(b.op, c.IDiv(b.a, d), c.IDiv(b.b, d), w)
	}
	return c.IDiv(x, c.Int(pow2(n)))
}

func (m *Machine) cmpInt(op token.Token, t types.Type, x, y *Term) *Term {
	c := m.c
	if m.bv {
		_, signed := intInfo(t)
		lt, le := OBUlt, OBUle
		if signed {
			lt, le = OBSlt, OBSle
		}
		switch op {
		case token.LSS:
			return c.BCmp(lt, x, y)
		case token.LEQ:
			return c.BCmp(le, x, y)
		case token.GTR:
			return c.BCmp(lt, y, x)
		case token.GEQ:
			return c.BCmp(le, y, x)
		}
	}
	if _, ok := m.bitops[x]; ok && y.IsConst() {
		switch {
		case op == token.LSS && y.k.Sign() == 0, op == token.LEQ && y.k.Cmp(bigM1) == 0:
			return m.isNeg(x)
		case op == token.GEQ && y.k.Sign() == 0, op == token.GTR && y.k.Cmp(bigM1) == 0:
			return c.Not(m.isNeg(x))
		}
	}
	switch op {
	case token.LSS:
		return c.Lt(x, y)
	case token.LEQ:
		return c.Le(x, y)
	case token.GTR:
		return c.Lt(y, x)
	case token.GEQ:
		return c.Le(y, x)
	}
	panic("cmpInt")
}

// strLess is the lexicographic a < b (or <= when orEq).
func (m *Machine) strLess(a, b Str, orEq bool) *Term {
	a, b = m.force(a), m.force(b)
	if a.t == nil && b.t == nil {
		if orEq {
			return m.c.Bool(a.s <= b.s)
		}
		return m.c.Bool(a.s < b.s)
	}
	x, y := m.strBytes(a), m.strBytes(b)
	n := min(len(x), len(y))
	r := m.c.Bool(len(x) < len(y) || orEq && len(x) == len(y))
	for i := n - 1; i >= 0; i-- {
		r = m.c.Ite(m.c.Eq(x[i], y[i]), r, m.cmpInt(token.LSS, types.Typ[types.Uint8], x[i], y[i]))
	}
	return r
}

func (m *Machine) binop(op token.Token, t, yt types.Type, x, y Value) Value {
	c := m.c
	switch op {
	case token.EQL:
		if a, ok := x.(*Term); ok && len(m.bitops) > 0 {
			b := y.(*Term)
			if a.IsConst() {
				a, b = b, a
			}
			if k, ok := m.bitops[a]; ok && b.IsConst() && b.k.Sign() == 0 {
				switch k.op {
				case token.XOR:
					return c.Eq(k.a, k.b)
				case token.OR:
					return c.And(c.Eq0(k.a), c.Eq0(k.b))
				}
			}
		}
		return m.equals(t, x, y)
	case token.NEQ:
		return c.Not(m.binop(token.EQL, t, yt, x, y).(*Term))
	case token.SHL, token.SHR:
		return m.shift(op, t, yt, x.(*Term), y.(*Term))
	}
	switch {
	case isInt(t):
		a, b := x.(*Term), y.(*Term)
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return m.cmpInt(op, t, a, b)
		}
		return m.intBin(op, t, a, b)
	case isFloat(t):
		a, b := x.(*Term), y.(*Term)
		switch op {
		case token.ADD:
			return c.FBin(OFAdd, a, b)
		case token.SUB:
			return c.FBin(OFSub, a, b)
		case token.MUL:
			return c.FBin(OFMul, a, b)
		case token.QUO:
			return c.FBin(OFDiv, a, b)
		case token.LSS:
			return c.FCmp(OFLt, a, b)
		case token.LEQ:
			return c.FCmp(OFLe, a, b)
		case token.GTR:
			return c.FCmp(OFLt, b, a)
		case token.GEQ:
			return c.FCmp(OFLe, b, a)
		}
	case isString(t):
		a, b := x.(Str), y.(Str)
		switch op {
		case token.ADD:
			return m.concat(a, b)
		case token.LSS:
			return m.strLess(a, b, false)
		case token.LEQ:
			return m.strLess(a, b, true)
		case token.GTR:
			return m.strLess(b, a, false)
		case token.GEQ:
			return m.strLess(b, a, true)
		}
	case isBool(t):
		a, b := x.(*Term), y.(*Term)
		switch op {
		case token.AND:
			return c.And(a, b)
		case token.OR:
			return c.Or(a, b)
		}
	case isComplex(t):
		a, b := x.(Cplx), y.(Cplx)
		switch op {
		case token.ADD:
			return Cplx{c.FBin(OFAdd, a.re, b.re), c.FBin(OFAdd, a.im, b.im)}
		case token.SUB:
			return Cplx{c.FBin(OFSub, a.re, b.re), c.FBin(OFSub, a.im, b.im)}
		case token.MUL:
			return Cplx{
				c.FBin(OFSub, c.FBin(OFMul, a.re, b.re), c.FBin(OFMul, a.im, b.im)),
				c.FBin(OFAdd, c.FBin(OFMul, a.re, b.im), c.FBin(OFMul, a.im, b.re)),
			}
		}
	}
	m.unsupported("operator %s on %s", op, t)
	return nil
}

// equals builds the Go == term for two values of static type t.
// sameStr: both texts are made of the same parts.
func sameStr(x, y Str) bool {
	if !x.opaque || !y.opaque {
		return !x.opaque && !y.opaque && x.t == nil && y.t == nil && x.s == y.s
	}
	if x.src != nil || y.src != nil {
		return x.src == y.src
	}
	if x.flt != nil || y.flt != nil {
		return x.flt == y.flt && x.fbits == y.fbits
	}
	if x.parts == nil || len(x.parts) != len(y.parts) {
		return false
	}
	for i := range x.parts {
		if !sameStr(x.parts[i], y.parts[i]) {
			return false
		}
	}
	return true
}

func (m *Machine) equals(t types.Type, x, y Value) *Term {
	c := m.c
	switch x := x.(type) {
	case *Term:
		y := y.(*Term)
		if x.sort.K == SFP {
			return c.FCmp(OFEq, x, y)
		}
		return c.Eq(x, y)
	case Str:
		y := y.(Str)
		if x.opaque && y.opaque {
			if sameStr(x, y) {
				return c.True
			}
			if x.src != nil && y.src != nil {
				return c.Eq(x.src, y.src)
			}
		}
		x, y = m.force(x), m.force(y)
		if x.len() != y.len() {
			return c.False
		}
		if x.t == nil && y.t == nil {
			return c.Bool(x.s == y.s)
		}
		a, b := m.strBytes(x), m.strBytes(y)
		r := c.True
		for i := range a {
			r = c.And(r, c.Eq(a[i], b[i]))
			if r.IsFalse() {
				break
			}
		}
		return r
	case Cplx:
		y := y.(Cplx)
		return c.And(c.FCmp(OFEq, x.re, y.re), c.FCmp(OFEq, x.im, y.im))
	case *Value:
		if yv, ok := y.(*Value); ok {
			return c.Bool(x == yv)
		}
		return c.Bool(x == nil && isNilVal(y))
	case *Map:
		if yv, ok := y.(*Map); ok {
			return c.Bool(x == yv)
		}
		return c.Bool(x == nil)
	case *Chan:
		return c.Bool(x == y.(*Chan))
	case UPtr:
		return c.Bool(x == y.(UPtr))
	case *Closure:
		return c.Bool(x == nil && isNilVal(y))
	case *ssa.Function, *ssa.Builtin, *Native:
		return c.False
	case Slice:
		if ys, ok := y.(Slice); ok {
			return c.Bool(x.nil_ && ys.nil_)
		}
	case Structure:
		y := y.(Structure)
		st := t.Underlying().(*types.Struct)
		r := c.True
		for i := range x {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = c.And(r, m.equals(st.Field(i).Type(), x[i], y[i]))
			if r.IsFalse() {
				break
			}
		}
		return r
	case Array:
		y := y.(Array)
		et := t.Underlying().(*types.Array).Elem()
		r := c.True
		for i := range x {
			r = c.And(r, m.equals(et, x[i], y[i]))
			if r.IsFalse() {
				break
			}
		}
		return r
	case Iface:
		var yi Iface
		switch yv := y.(type) {
		case Iface:
			yi = yv
		default:
			m.unsupported("interface comparison with %T", y)
		}
		if x.t == nil || yi.t == nil {
			return c.Bool(x.t == nil && yi.t == nil)
		}
		if x.t != yi.t {
			return c.False
		}
		if !types.Comparable(x.t) {
			m.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return m.equals(x.t, x.v, yi.v)
	case RType:
		if yr, ok := y.(RType); ok {
			return c.Bool(m.canon(x.t) == m.canon(yr.t))
		}
		return c.False
	case nil:
		return c.Bool(y == nil)
	}
	m.unsupported("comparison of %T", x)
	return nil
}

func isNilVal(v Value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *Value:
		return v == nil
	case *Closure:
		return v == nil
	case *Map:
		return v == nil
	case *Chan:
		return v == nil
	case Slice:
		return v.nil_
	case Iface:
		return v.t == nil
	case UPtr:
		return v.v == nil
	}
	return false
}

func (m *Machine) unop(fr *frame, instr *ssa.UnOp, x Value) Value {
	c := m.c
	switch instr.Op {
	case token.ARROW:
		v, ok := m.chanRecv(x.(*Chan))
		if !ok {
			v = m.zero(chanElem(instr.X.Type()))
		}
		if instr.CommaOk {
			return Tuple{v, c.Bool(ok)}
		}
		return v
	case token.MUL:
		switch p := x.(type) {
		case *Value:
			return m.load(p)
		case SymPtr:
			if m.sch != nil && m.sch.multi {
				for i := range p.a {
					m.raceRead(&p.a[i])
				}
			}
			return m.iteChain(p.a, p.idx)
		}
		m.unsupported("load through %T", x)
	case token.NOT:
		return c.Not(x.(*Term))
	case token.SUB:
		t := instr.X.Type()
		switch {
		case isInt(t):
			if m.bv {
				return c.BNeg(x.(*Term))
			}
			w, s := intInfo(t)
			return m.wrap(c.Neg(x.(*Term)), w, s, 0)
		case isFloat(t):
			return c.FUn(OFNeg, x.(*Term), 0)
		case isComplex(t):
			z := x.(Cplx)
			return Cplx{c.FUn(OFNeg, z.re, 0), c.FUn(OFNeg, z.im, 0)}
		}
	case token.XOR:
		t := instr.X.Type()
		if m.bv {
			return c.BNot(x.(*Term))
		}
		w, s := intInfo(t)
		if s {
			return c.Sub(c.Int64(-1), x.(*Term))
		}
		return c.Sub(c.Int(new(big.Int).Sub(pow2(w), big1)), x.(*Term))
	}
	m.unsupported("unary %s", instr.Op)
	return nil
}

// convInt converts between integer types.
func (m *Machine) convInt(x *Term, st, dt types.Type) *Term {
	sw, ss := intInfo(st)
	dw, ds := intInfo(dt)
	c := m.c
	if m.bv {
		switch {
		case dw == sw:
			return x
		case dw < sw:
			return c.Extract(x, dw-1, 0)
		case ss:
			return c.Sext(x, dw)
		}
		return c.Zext(x, dw)
	}
	if b, ok := m.bitops[x]; ok && dw == sw && ss != ds {
		return m.intBits(b.op, m.convInt(b.a, st, dt), m.convInt(b.b, st, dt), dw)
	}
	kind := 1
	if dw == sw && ss != ds {
		kind = 0
	}
	return m.wrap(x, dw, ds, kind)
}

func (m *Machine) conv(dst, src types.Type, x Value) Value {
	c := m.c
	ud, us := dst.Underlying(), src.Underlying()
	if tp, ok := ud.(*types.TypeParam); ok {
		m.unsupported("conversion to type parameter %s", tp)
	}
	// unsafe pointers
	if b, ok := ud.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if u, ok := x.(UPtr); ok {
			return u
		}
		if p, ok := x.(*Value); ok {
			if p == nil {
				return UPtr{}
			}
			return UPtr{p}
		}
		m.unsupported("conversion of %T to unsafe.Pointer", x)
	}
	if u, ok := x.(UPtr); ok {
		if _, isPtr := ud.(*types.Pointer); isPtr {
			if u.v == nil {
				return (*Value)(nil)
			}
			return u.v
		}
		if isInt(dst) {
			return m.mkIntW(int64(m.ptrID(u.v)), 64)
		}
	}
	switch us := us.(type) {
	case *types.Pointer, *types.Signature, *types.Chan, *types.Map, *types.Struct, *types.Interface:
		return x
	case *types.Slice:
		// []byte or []rune to string
		if isString(dst) {
			s := x.(Slice)
			if w, _ := intInfo(us.Elem()); w == 8 {
				ts := make([]*Term, len(s.a))
				for i, v := range s.a {
					if m.sch != nil && m.sch.multi {
						m.raceRead(&s.a[i])
					}
					ts[i] = v.(*Term)
				}
				return normStr(ts)
			}
			r := Str{}
			for _, v := range s.a {
				r = m.concat(r, m.runeToStr(v.(*Term), us.Elem()))
			}
			return r
		}
		if at, ok := ud.(*types.Array); ok {
			s := x.(Slice)
			if int(at.Len()) > len(s.a) {
				m.rtPanic("cannot convert slice to array: too short")
			}
			return copyVal(Array(s.a[:at.Len()]))
		}
		return x
	case *types.Array:
		return x
	case *types.Basic:
		if us.Info()&types.IsString != 0 {
			s := x.(Str)
			if st, ok := ud.(*types.Slice); ok {
				s = m.force(s)
				if w, _ := intInfo(st.Elem()); w == 8 {
					bs := m.strBytes(s)
					a := make([]Value, len(bs), m.sh.growCap(0, len(bs), 1))
					for i, b := range bs {
						a[i] = b
					}
					for i := len(bs); i < cap(a); i++ {
						a[:cap(a)][i] = m.mkIntW(0, 8)
					}
					return Slice{a: a}
				}
				a := []Value{}
				for i := 0; i < s.len(); {
					r, n := m.decodeRune(s, i)
					a = append(a, r)
					i += n
				}
				a = a[:len(a):len(a)]
				return Slice{a: a}
			}
			return x
		}
		if us.Info()&types.IsInteger != 0 {
			t := x.(*Term)
			switch {
			case isInt(dst):
				return m.convInt(t, src, dst)
			case isString(dst):
				return m.runeToStr(t, src)
			case isFloat(dst):
				return m.intToFloat(t, src, floatW(dst))
			}
		}
		if us.Info()&types.IsFloat != 0 {
			t := x.(*Term)
			if isFloat(dst) {
				return m.fpConv(t, floatW(dst))
			}
			if isInt(dst) {
				return m.floatToInt(t, dst)
			}
		}
		if us.Info()&types.IsComplex != 0 {
			z := x.(Cplx)
			w := 64
			if kindOf(dst).Kind() == types.Complex64 {
				w = 32
			}
			return Cplx{c.FToFP(z.re, w), c.FToFP(z.im, w)}
		}
		if us.Info()&types.IsBoolean != 0 {
			return x
		}
	}
	m.unsupported("conversion %s to %s", src, dst)
	return nil
}

func (m *Machine) intToFloat(t *Term, src types.Type, w int) *Term {
	_, signed := intInfo(src)
	if m.bv {
		return m.bvFloat(t, w, signed)
	}
	if t.IsConst() {
		u := new(big.Int).Mod(t.k, pow2(64)).Uint64()
		return m.c.FFromBV(m.c.BV(64, u), w, signed)
	}
	f, _ := m.intFloat(t, w)
	return f
}

// floatToInt models the amd64 conversions of the Go compiler.
func (m *Machine) floatToInt(t *Term, dst types.Type) *Term {
	dw, ds := intInfo(dst)
	c := m.c
	if t.IsConst() {
		r := goF2I(t.f64(), dw, ds)
		if m.bv {
			return c.BV(dw, r)
		}
		if ds {
			return c.Int64(sext(r, dw))
		}
		return c.Int(new(big.Int).SetUint64(r & mask(dw)))
	}
	if r := m.fpIntConv(t, dw, ds); r != nil {
		return r
	}
	if !m.bv {
		if x := m.fpIntTerm(t); x != nil {
			lo, hi := typeRange(dw, ds)
			if m.p.branch(c.And(c.Le(c.Int(lo), x), c.Le(x, c.Int(hi)))) {
				return x
			}
			if ds && dw == 64 {
				return c.Int(lo)
			}
		}
		m.unsupported("symbolic float to integer conversion in Int mode")
	}
	fw := t.sort.W
	f := func(x float64) *Term { return c.FP(fw, x) }
	s64 := func(x *Term) *Term {
		ok := c.And(c.FCmp(OFLe, f(-9223372036854775808), x), c.FCmp(OFLt, x, f(9223372036854775808)))
		if m.p.branch(ok) {
			return c.FToBV(x, 64, true)
		}
		return c.BV(64, 1<<63)
	}
	if ds || dw < 64 {
		// via int64 then truncated (int32: cvttsd2sl gives 0x80000000 out of range; the compiler uses cvttsd2sq for
		// the narrower types and for uint32)
		if ds && dw == 32 {
			ok := c.And(c.FCmp(OFLt, f(-2147483649), t), c.FCmp(OFLt, t, f(2147483648)))
			if fw == 32 {
				ok = c.And(c.FCmp(OFLe, f(-2147483648), t), c.FCmp(OFLt, t, f(2147483648)))
			}
			if m.p.branch(ok) {
				return c.FToBV(t, 32, true)
			}
			return c.BV(32, 1<<31)
		}
		return c.Extract(s64(t), dw-1, 0)
	}
	if m.p.branch(c.FCmp(OFLt, t, f(9223372036854775808))) {
		return s64(t)
	}
	r := s64(c.FBin(OFSub, t, f(9223372036854775808)))
	return c.BBin(OBXor, r, c.BV(64, 1<<63))
}

func goF2I(x float64, w int, signed bool) uint64 {
	switch {
	case signed && w == 64:
		return uint64(int64(x))
	case signed && w == 32:
		return uint64(int64(int32(x)))
	case signed && w == 16:
		return uint64(int64(int16(x)))
	case signed && w == 8:
		return uint64(int64(int8(x)))
	case w == 64:
		return uint64(x)
	case w == 32:
		return uint64(uint32(x))
	case w == 16:
		return uint64(uint16(x))
	}
	return uint64(uint8(x))
}

// ---- runes

// decodeRune decodes the rune at position i of s, forking on symbolic bytes, as the language defines it.
func (m *Machine) decodeRune(s Str, i int) (*Term, int) {
	if s.t == nil {
		r, n := utf8.DecodeRuneInString(s.s[i:])
		return m.mkIntW(int64(r), 32), n
	}
	c := m.c
	bs := s.t[i:]
	i32 := func(t *Term) *Term { return m.convInt(t, types.Typ[types.Uint8], types.Typ[types.Int32]) }
	k8 := func(n int64) *Term { return m.mkIntW(n, 8) }
	le := func(a, b *Term) *Term { return m.cmpInt(token.LEQ, types.Typ[types.Uint8], a, b) }
	in := func(t *Term, lo, hi int64) bool {
		return m.p.branch(c.And(le(k8(lo), t), le(t, k8(hi))))
	}
	bad := func() (*Term, int) { return m.mkIntW(utf8.RuneError, 32), 1 }
	b0 := bs[0]
	if m.p.branch(le(b0, k8(0x7f))) {
		return i32(b0), 1
	}
	if !in(b0, 0xc2, 0xf4) {
		return bad()
	}
	add := func(a, b *Term) *Term {
		if m.bv {
			return c.BBin(OBAdd, a, b)
		}
		return c.Add(a, b)
	}
	mulk := func(a *Term, k int64) *Term {
		if m.bv {
			return c.BBin(OBMul, a, c.BV(32, uint64(k)))
		}
		return c.MulK(a, big.NewInt(k))
	}
	off := func(t *Term, k int64) *Term { return add(i32(t), m.mkIntW(-k, 32)) }
	cont := func(j int) bool { return j < len(bs) && in(bs[j], 0x80, 0xbf) }
	if m.p.branch(le(b0, k8(0xdf))) {
		if !cont(1) {
			return bad()
		}
		return add(mulk(off(b0, 0xc0), 64), off(bs[1], 0x80)), 2
	}
	if m.p.branch(le(b0, k8(0xef))) {
		if len(bs) < 2 {
			return bad()
		}
		lo, hi := int64(0x80), int64(0xbf)
		if m.p.branch(c.Eq(b0, k8(0xe0))) {
			lo = 0xa0
		} else if m.p.branch(c.Eq(b0, k8(0xed))) {
			hi = 0x9f
		}
		if !in(bs[1], lo, hi) || !cont(2) {
			return bad()
		}
		return add(add(mulk(off(b0, 0xe0), 4096), mulk(off(bs[1], 0x80), 64)), off(bs[2], 0x80)), 3
	}
	if len(bs) < 2 {
		return bad()
	}
	lo, hi := int64(0x80), int64(0xbf)
	if m.p.branch(c.Eq(b0, k8(0xf0))) {
		lo = 0x90
	} else if m.p.branch(c.Eq(b0, k8(0xf4))) {
		hi = 0x8f
	}
	if !in(bs[1], lo, hi) || !cont(2) || !cont(3) {
		return bad()
	}
	return add(add(add(mulk(off(b0, 0xf0), 1<<18), mulk(off(bs[1], 0x80), 4096)), mulk(off(bs[2], 0x80), 64)), off(bs[3], 0x80)), 4
}

// runeToStr is string(rune).
func (m *Machine) runeToStr(t *Term, st types.Type) Str {
	if t.IsConst() {
		n, ok := cint(t)
		_, signed := intInfo(st)
		if !signed {
			u, _ := cuint(t)
			n, ok = int64(u), u < 1<<62
		}
		if !ok || n < 0 || n > utf8.MaxRune {
			n = utf8.RuneError
		}
		return cstr(string(rune(n)))
	}
	c := m.c
	w, _ := intInfo(st)
	k := func(n int64) *Term { return m.mkIntW(n, w) }
	le := func(a, b *Term) *Term { return m.cmpInt(token.LEQ, st, a, b) }
	u8 := types.Typ[types.Uint8]
	// all the arithmetic below is in range of the source type
	div := func(a *Term, n int64) *Term {
		if m.bv {
			return c.BBin(OBLshr, a, c.BV(w, uint64(log2(n))))
		}
		return c.IDiv(a, c.Int64(n))
	}
	mod := func(a *Term, n int64) *Term {
		if m.bv {
			return c.BBin(OBAnd, a, c.BV(w, uint64(n-1)))
		}
		return c.IMod(a, c.Int64(n))
	}
	b := func(base int64, a *Term) *Term {
		if m.bv {
			return c.BBin(OBAdd, m.convInt(a, st, u8), c.BV(8, uint64(base)))
		}
		return c.Add(a, c.Int64(base))
	}
	if w == 8 {
		if m.p.branch(le(t, k(0x7f))) {
			return Str{t: []*Term{t}}
		}
		return Str{t: []*Term{b(0xc0, div(t, 64)), b(0x80, mod(t, 64))}}
	}
	if m.p.branch(c.And(le(k(0), t), le(t, k(0x7f)))) {
		return Str{t: []*Term{b(0, t)}}
	}
	if !m.p.branch(c.And(le(k(0x80), t), le(t, k(utf8.MaxRune)))) {
		return cstr("\uFFFD")
	}
	if m.p.branch(le(t, k(0x7ff))) {
		return Str{t: []*Term{b(0xc0, div(t, 64)), b(0x80, mod(t, 64))}}
	}
	if m.p.branch(le(t, k(0xffff))) {
		if m.p.branch(c.And(le(k(0xd800), t), le(t, k(0xdfff)))) {
			return cstr("\uFFFD")
		}
		return Str{t: []*Term{b(0xe0, div(t, 4096)), b(0x80, mod(div(t, 64), 64)), b(0x80, mod(t, 64))}}
	}
	return Str{t: []*Term{b(0xf0, div(t, 1<<18)), b(0x80, mod(div(t, 4096), 64)), b(0x80, mod(div(t, 64), 64)), b(0x80, mod(t, 64))}}
}

func log2(n int64) int {
	r := 0
	for n > 1 {
		n >>= 1
		r++
	}
	return r
}

func (m *Machine) ptrID(v interface{}) int {
	if v == nil {
		return 0
	}
	if id, ok := m.ptrIDs[v]; ok {
		return id
	}
	m.nextPtr++
	id := 0xc000000000 + m.nextPtr*64
	m.ptrIDs[v] = id
	return id
}

// ---- builtins

func (m *Machine) callBuiltin(caller *frame, g *G, fn *ssa.Builtin, args []Value) Value {
	c := m.c
	switch fn.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].(Slice)
		var add []Value
		switch y := args[1].(type) {
		case Str:
			for _, b := range m.strBytes(y) {
				add = append(add, b)
			}
		case Slice:
			add = y.a
		}
		et := fn.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
		return m.appendVals(s, add, et)
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Str:
			for _, b := range m.strBytes(y) {
				src = append(src, b)
			}
		case Slice:
			src = y.a
		}
		n := min(len(d.a), len(src))
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = m.load(&src[i])
		}
		for i := range tmp {
			m.store(&d.a[i], tmp[i])
		}
		return m.mkInt(n)
	case "close":
		ch := args[0].(*Chan)
		if ch == nil {
			m.rtPanic("close of nil channel")
		}
		m.yield()
		if ch.closed {
			m.rtPanic("close of closed channel")
		}
		ch.closed = true
		ch.vc = ch.vc.join(m.release())
		return nil
	case "delete":
		m.mapDelete(args[0].(*Map), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				m.mapJournal(x)
				for len(x.ents) > 0 {
					m.kill(x, x.ents[0])
				}
			}
		case Slice:
			et := fn.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range x.a {
				m.store(&x.a[i], m.zero(et))
			}
		}
		return nil
	case "print", "println":
		return nil
	case "len":
		switch x := args[0].(type) {
		case Str:
			return m.mkInt(m.force(x).len())
		case Array:
			return m.mkInt(len(x))
		case *Value:
			if x == nil {
				t := fn.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Pointer).Elem()
				return m.mkInt(int(t.Underlying().(*types.Array).Len()))
			}
			return m.mkInt(len((*x).(Array)))
		case Slice:
			return m.mkInt(len(x.a))
		case *Map:
			if x == nil {
				return m.mkInt(0)
			}
			if m.sch != nil && m.sch.multi {
				m.sch.accessKey(x, false)
			}
			return m.mkInt(x.live)
		case *Chan:
			if x == nil {
				return m.mkInt(0)
			}
			return m.mkInt(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case Array:
			return m.mkInt(len(x))
		case *Value:
			return m.mkInt(len((*x).(Array)))
		case Slice:
			return m.mkInt(cap(x.a))
		case *Chan:
			if x == nil {
				return m.mkInt(0)
			}
			return m.mkInt(x.cap)
		}
	case "min", "max":
		t := fn.Type().(*types.Signature).Params().At(0).Type()
		r := args[0]
		for _, a := range args[1:] {
			var less *Term
			if fn.Name() == "min" {
				less = m.binop(token.LSS, t, t, a, r).(*Term)
			} else {
				less = m.binop(token.GTR, t, t, a, r).(*Term)
			}
			if x, ok := a.(*Term); ok && !isFloat(t) {
				r = c.Ite(less, x, r.(*Term))
			} else if isFloat(t) {
				m.unsupported("min/max of floats")
			} else if m.p.branch(less) {
				r = a
			}
		}
		return r
	case "real":
		return args[0].(Cplx).re
	case "imag":
		return args[0].(Cplx).im
	case "complex":
		return Cplx{args[0].(*Term), args[1].(*Term)}
	case "panic":
		panic(targetPanic{args[0].(Iface)})
	case "recover":
		if caller != nil && !caller.panicking && caller.caller != nil && caller.caller.panicking {
			caller.caller.panicking = false
			p := caller.caller.panic
			caller.caller.panic = nil
			if tp, ok := p.(targetPanic); ok {
				return tp.v
			}
		}
		return Iface{}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.rtPanic(fmt.Sprintf("value method called using nil pointer"))
		}
		return args[0]
	case "ssa:deferstack":
		return &caller.defers
	// unsafe
	case "String":
		p, _ := args[0].(*Value)
		n := m.concInt(args[1])
		if n == 0 {
			return Str{}
		}
		a := m.sh.findArray(m, p, n)
		ts := make([]*Term, n)
		for i := range ts {
			ts[i] = a[i].(*Term)
		}
		return normStr(ts)
	case "StringData", "SliceData":
		if s, ok := args[0].(Slice); ok {
			if cap(s.a) == 0 {
				if s.nil_ {
					return (*Value)(nil)
				}
				return new(Value)
			}
			p := &s.a[:1][0]
			m.sh.noteArray(m, p, s.a)
			return p
		}
		s := args[0].(Str)
		bs := m.strBytes(s)
		a := make([]Value, len(bs))
		for i, b := range bs {
			a[i] = b
		}
		if len(a) == 0 {
			return (*Value)(nil)
		}
		m.sh.noteArray(m, &a[0], a)
		return &a[0]
	case "Slice":
		p, _ := args[0].(*Value)
		n := m.concInt(args[1])
		if p == nil {
			return Slice{nil_: true}
		}
		return Slice{a: m.sh.findArray(m, p, n)[:n:n]}
	}
	m.unsupported("builtin %s", fn.Name())
	return nil
}

func (m *Machine) appendVals(s Slice, add []Value, et types.Type) Slice {
	if len(add) == 0 {
		return s
	}
	if m.sch != nil && m.sch.multi {
		for i := range add {
			m.raceRead(&add[i])
		}
	}
	n := len(s.a)
	if n+len(add) <= cap(s.a) {
		tmp := make([]Value, len(add))
		for i, v := range add {
			tmp[i] = copyVal(v)
		}
		a := s.a[:n+len(add)]
		for i, v := range tmp {
			m.store(&a[n+i], v)
		}
		return Slice{a: a}
	}
	if m.sch != nil && m.sch.multi {
		for i := range s.a {
			m.raceRead(&s.a[i])
		}
	}
	nc := m.sh.growCap(cap(s.a), n+len(add), m.sh.sizeof(et))
	a := make([]Value, n+len(add), nc)
	for i, v := range s.a {
		a[i] = copyVal(v)
	}
	for i, v := range add {
		a[n+i] = copyVal(v)
	}
	if nc > len(a) {
		full := a[:nc]
		for i := len(a); i < nc; i++ {
			full[i] = m.zero(et)
		}
	}
	return Slice{a: a}
}
