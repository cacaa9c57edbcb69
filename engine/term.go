package main

// Hash-consed SMT terms with constant folding. Every constructor folds completely on constant arguments, so the
// same constructors are the concrete evaluator (see Eval).

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
)

type SortKind uint8

const (
	SBool SortKind = iota
	SBV
	SInt
	SFP // W = 32 or 64
)

type Sort struct {
	K SortKind
	W int
}

var (
	BoolSort = Sort{SBool, 0}
	IntSort  = Sort{SInt, 0}
	F32Sort  = Sort{SFP, 32}
	F64Sort  = Sort{SFP, 64}
)

func BVSort(w int) Sort { return Sort{SBV, w} }

func (s Sort) String() string {
	switch s.K {
	case SBool:
		return "Bool"
	case SInt:
		return "Int"
	case SBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	case SFP:
		if s.W == 32 {
			return "(_ FloatingPoint 8 24)"
		}
		return "(_ FloatingPoint 11 53)"
	}
	return "?"
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	// Int
	OSum  // k + sum coef[i]*args[i]
	OProd // product of >= 2 atoms, sorted
	OIDiv // floor division, divisor args[1]
	OLe0  // args[0] <= 0
	OEq0  // args[0] == 0
	OIAnd // two's complement bitwise and of ints (general fallback), width i0
	OIPow2
	// BV
	OBAdd
	OBSub
	OBMul
	OBUDiv
	OBURem
	OBSDiv
	OBSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OBNeg
	OBShl
	OBLshr
	OBAshr
	OBUlt
	OBUle
	OBSlt
	OBSle
	OBZext // i0 = new width
	OBSext
	OBExtract // i0 = hi, i1 = lo
	OBConcat
	OBV2Int  // unsigned
	OSBV2Int // signed
	OInt2BV
	// FP
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFRnd // i0: 0 RNE 1 RTZ 2 RTP 3 RTN 4 RNA
	OFEq
	OFLt
	OFLe
	OFIsNaN
	OFIsInf
	OFToFP
	OFFromSBV
	OFFromUBV
	OFToSBV // RTZ, i0 width
	OFToUBV
	OFFromBits
)

type Term struct {
	id   int
	op   Op
	sort Sort
	args []*Term
	coef []*big.Int // OSum
	k    *big.Int   // OSum constant; Int constant
	u    uint64     // BV constant, FP bits constant, Bool constant
	name string     // OVar
	i0   int
	i1   int
	size int
	vars map[int]bool // unused
}

type termKey struct {
	op         Op
	sort       Sort
	a0, a1, a2 int
	i0, i1     int
	u          uint64
	s          string
}

// TermCtx owns the hash-consing table. One per worker machine: not safe for concurrent use.
type TermCtx struct {
	tab    map[termKey]*Term
	nextID int
	True   *Term
	False  *Term
	smallI [1025 + 256]*Term
	ivals  map[int]ival // structural intervals
	lo, hi map[int]*big.Int
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}, ivals: map[int]ival{}, lo: map[int]*big.Int{}, hi: map[int]*big.Int{}}
	c.True = c.intern(termKey{op: OConst, sort: BoolSort, u: 1}, func(t *Term) { t.u = 1 })
	c.False = c.intern(termKey{op: OConst, sort: BoolSort, u: 0}, func(t *Term) { t.u = 0 })
	return c
}

func (c *TermCtx) intern(k termKey, fill func(*Term)) *Term {
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{id: c.nextID, op: k.op, sort: k.sort, i0: k.i0, i1: k.i1}
	c.nextID++
	fill(t)
	t.size = 1
	for _, a := range t.args {
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	c.tab[k] = t
	return t
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) IsTrue() bool  { return t.op == OConst && t.sort.K == SBool && t.u == 1 }
func (t *Term) IsFalse() bool { return t.op == OConst && t.sort.K == SBool && t.u == 0 }

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *TermCtx) Var(name string, s Sort) *Term {
	return c.intern(termKey{op: OVar, sort: s, s: name}, func(t *Term) { t.name = name })
}

// IntVar is an Int variable with declared bounds (asserted by the solver layer on declaration).
func (c *TermCtx) IntVar(name string, lo, hi *big.Int) *Term {
	t := c.Var(name, IntSort)
	if lo != nil {
		c.lo[t.id] = lo
	}
	if hi != nil {
		c.hi[t.id] = hi
	}
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (c *TermCtx) BV(w int, u uint64) *Term {
	u &= mask(w)
	return c.intern(termKey{op: OConst, sort: BVSort(w), u: u}, func(t *Term) { t.u = u })
}

func (c *TermCtx) Int64(n int64) *Term {
	if n >= -256 && n <= 1024 {
		if t := c.smallI[n+256]; t != nil {
			return t
		}
	}
	t := c.intern(termKey{op: OConst, sort: IntSort, u: uint64(n)}, func(t *Term) { t.k = big.NewInt(n) })
	if n >= -256 && n <= 1024 {
		c.smallI[n+256] = t
	}
	return t
}

func (c *TermCtx) Int(n *big.Int) *Term {
	if n.IsInt64() {
		return c.Int64(n.Int64())
	}
	return c.intern(termKey{op: OConst, sort: IntSort, s: n.String()}, func(t *Term) { t.k = new(big.Int).Set(n) })
}

func (c *TermCtx) F64(f float64) *Term {
	u := math.Float64bits(f)
	if f != f {
		u = 0x7ff8000000000001
	}
	return c.intern(termKey{op: OConst, sort: F64Sort, u: u}, func(t *Term) { t.u = u })
}

func (c *TermCtx) F32(f float32) *Term {
	u := uint64(math.Float32bits(f))
	if f != f {
		u = 0x7fc00000
	}
	return c.intern(termKey{op: OConst, sort: F32Sort, u: u}, func(t *Term) { t.u = u })
}

func (c *TermCtx) FP(w int, f float64) *Term {
	if w == 32 {
		return c.F32(float32(f))
	}
	return c.F64(f)
}

func (t *Term) f64() float64 {
	if t.sort.W == 32 {
		return float64(math.Float32frombits(uint32(t.u)))
	}
	return math.Float64frombits(t.u)
}

func sext(u uint64, w int) int64 {
	if w >= 64 {
		return int64(u)
	}
	sh := uint(64 - w)
	return int64(u<<sh) >> sh
}

func (c *TermCtx) mk(op Op, s Sort, i0, i1 int, args ...*Term) *Term {
	k := termKey{op: op, sort: s, i0: i0, i1: i1, a0: -1, a1: -1, a2: -1}
	switch len(args) {
	case 1:
		k.a0 = args[0].id
	case 2:
		k.a0, k.a1 = args[0].id, args[1].id
	case 3:
		k.a0, k.a1, k.a2 = args[0].id, args[1].id, args[2].id
	default:
		var sb strings.Builder
		for _, a := range args {
			fmt.Fprintf(&sb, "%d,", a.id)
		}
		k.s = sb.String()
	}
	return c.intern(k, func(t *Term) { t.args = args })
}

// ---- Booleans

func (c *TermCtx) Not(a *Term) *Term {
	if a.IsConst() {
		return c.Bool(a.u == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	if a.op == OLe0 {
		// not (s <= 0)  <=>  1 - s <= 0
		return c.Le0(c.Sub(c.Int64(1), a.args[0]))
	}
	return c.mk(ONot, BoolSort, 0, 0, a)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.IsConst() {
		if a.u == 0 {
			return a
		}
		return b
	}
	if b.IsConst() {
		if b.u == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if c.Not(a) == b {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, BoolSort, 0, 0, a, b)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a.IsConst() {
		if a.u == 1 {
			return a
		}
		return b
	}
	if b.IsConst() {
		if b.u == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if c.Not(a) == b {
		return c.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OOr, BoolSort, 0, 0, a, b)
}

func (c *TermCtx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *TermCtx) AndN(ts ...*Term) *Term {
	r := c.True
	for _, t := range ts {
		r = c.And(r, t)
	}
	return r
}

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond.IsConst() {
		if cond.u == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.sort.K == SBool {
		if a.IsConst() && b.IsConst() {
			if a.u == 1 {
				return cond
			}
			return c.Not(cond)
		}
		return c.Or(c.And(cond, a), c.And(c.Not(cond), b))
	}
	if cond.op == ONot {
		return c.Ite(cond.args[0], b, a)
	}
	return c.mk(OIte, a.sort, 0, 0, cond, a, b)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True // on floats this is identity, not ==
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq: sorts %v %v", a.sort, b.sort))
	}
	switch a.sort.K {
	case SFP:
		if a.IsConst() && b.IsConst() {
			x, y := a.f64(), b.f64()
			return c.Bool(math.Float64bits(x) == math.Float64bits(y) || x != x && y != y)
		}
	case SBool:
		if a.IsConst() {
			if a.u == 1 {
				return b
			}
			return c.Not(b)
		}
		if b.IsConst() {
			return c.Eq(b, a)
		}
	case SInt:
		return c.Eq0(c.Sub(a, b))
	case SBV:
		if a.IsConst() && b.IsConst() {
			return c.Bool(a.u == b.u)
		}
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			// zext(x) == k
			if a.op == OBZext {
				w := a.args[0].sort.W
				if b.u&^mask(w) != 0 {
					return c.False
				}
				return c.Eq(a.args[0], c.BV(w, b.u))
			}
			if a.op == OIte && a.args[1].IsConst() && a.args[2].IsConst() {
				t1, t2 := c.Eq(a.args[1], b), c.Eq(a.args[2], b)
				return c.Ite(a.args[0], t1, t2)
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, BoolSort, 0, 0, a, b)
}

// ---- Int

var (
	big0  = big.NewInt(0)
	big1  = big.NewInt(1)
	bigM1 = big.NewInt(-1)
)

type lin struct {
	k *big.Int
	m map[*Term]*big.Int
}

func newLin() *lin { return &lin{k: new(big.Int), m: map[*Term]*big.Int{}} }

func (l *lin) addTerm(t *Term, f *big.Int) {
	switch {
	case t.op == OConst:
		l.k.Add(l.k, new(big.Int).Mul(t.k, f))
	case t.op == OSum:
		l.k.Add(l.k, new(big.Int).Mul(t.k, f))
		for i, a := range t.args {
			l.addAtom(a, new(big.Int).Mul(t.coef[i], f))
		}
	default:
		l.addAtom(t, f)
	}
}

func (l *lin) addAtom(a *Term, f *big.Int) {
	if o, ok := l.m[a]; ok {
		n := new(big.Int).Add(o, f)
		if n.Sign() == 0 {
			delete(l.m, a)
		} else {
			l.m[a] = n
		}
	} else if f.Sign() != 0 {
		l.m[a] = new(big.Int).Set(f)
	}
}

func (c *TermCtx) fromLin(l *lin) *Term {
	if len(l.m) == 0 {
		return c.Int(l.k)
	}
	if len(l.m) == 1 && l.k.Sign() == 0 {
		for a, f := range l.m {
			if f.Cmp(big1) == 0 {
				return a
			}
		}
	}
	atoms := make([]*Term, 0, len(l.m))
	for a := range l.m {
		atoms = append(atoms, a)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	coef := make([]*big.Int, len(atoms))
	var sb strings.Builder
	sb.WriteString(l.k.String())
	for i, a := range atoms {
		coef[i] = l.m[a]
		fmt.Fprintf(&sb, "+%s*%d", coef[i].String(), a.id)
	}
	return c.intern(termKey{op: OSum, sort: IntSort, s: sb.String()}, func(t *Term) {
		t.args, t.coef, t.k = atoms, coef, new(big.Int).Set(l.k)
	})
}

func (c *TermCtx) Add(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Int(new(big.Int).Add(a.k, b.k))
	}
	l := newLin()
	l.addTerm(a, big1)
	l.addTerm(b, big1)
	return c.fromLin(l)
}

func (c *TermCtx) Sub(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Int(new(big.Int).Sub(a.k, b.k))
	}
	l := newLin()
	l.addTerm(a, big1)
	l.addTerm(b, bigM1)
	return c.fromLin(l)
}

func (c *TermCtx) Neg(a *Term) *Term { return c.Sub(c.Int64(0), a) }

func (c *TermCtx) MulK(a *Term, k *big.Int) *Term {
	if a.IsConst() {
		return c.Int(new(big.Int).Mul(a.k, k))
	}
	l := newLin()
	l.addTerm(a, k)
	return c.fromLin(l)
}

func atomsOf(t *Term) []*Term {
	if t.op == OProd {
		return t.args
	}
	return []*Term{t}
}

func (c *TermCtx) prod(a, b *Term) *Term {
	as := append(append([]*Term{}, atomsOf(a)...), atomsOf(b)...)
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	var sb strings.Builder
	for _, x := range as {
		fmt.Fprintf(&sb, "%d,", x.id)
	}
	return c.intern(termKey{op: OProd, sort: IntSort, s: sb.String()}, func(t *Term) { t.args = as })
}

func (c *TermCtx) Mul(a, b *Term) *Term {
	if a.IsConst() {
		return c.MulK(b, a.k)
	}
	if b.IsConst() {
		return c.MulK(a, b.k)
	}
	// distribute
	type mono struct {
		a *Term
		f *big.Int
	}
	exp := func(t *Term) ([]mono, *big.Int) {
		if t.op == OSum {
			var r []mono
			for i, x := range t.args {
				r = append(r, mono{x, t.coef[i]})
			}
			return r, t.k
		}
		return []mono{{t, big1}}, big0
	}
	ma, ka := exp(a)
	mb, kb := exp(b)
	if a.op == OIte && len(mb) > 1 || b.op == OIte && len(ma) > 1 {
		// keep as is
	}
	l := newLin()
	l.k.Mul(ka, kb)
	for _, x := range ma {
		if kb.Sign() != 0 {
			l.addAtom(x.a, new(big.Int).Mul(x.f, kb))
		}
		for _, y := range mb {
			p := c.prod(x.a, y.a)
			l.addAtom(p, new(big.Int).Mul(x.f, y.f))
		}
	}
	for _, y := range mb {
		if ka.Sign() != 0 {
			l.addAtom(y.a, new(big.Int).Mul(y.f, ka))
		}
	}
	return c.fromLin(l)
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean
	if b.Sign() < 0 && m.Sign() != 0 {
		// Euclid: m >= 0. SMT-LIB div is Euclidean as well
	}
	return q
}

// IDiv is SMT-LIB integer division (floor for positive divisors).
func (c *TermCtx) IDiv(a, b *Term) *Term {
	if b.IsConst() {
		if b.k.Sign() == 0 {
			return c.Int64(0)
		}
		if a.IsConst() {
			return c.Int(floorDiv(a.k, b.k))
		}
		if b.k.Cmp(big1) == 0 {
			return a
		}
		if b.k.Sign() > 0 {
			// pull multiples out
			if a.op == OSum {
				out, rest := newLin(), newLin()
				some := false
				for i, x := range a.args {
					q, m := new(big.Int).DivMod(a.coef[i], b.k, new(big.Int))
					if m.Sign() == 0 {
						out.addAtom(x, q)
						some = true
					} else {
						rest.addAtom(x, a.coef[i])
					}
				}
				q, m := new(big.Int).DivMod(a.k, b.k, new(big.Int))
				if some || q.Sign() != 0 {
					out.k.Set(q)
					rest.k.Set(m)
					r := c.fromLin(rest)
					return c.Add(c.fromLin(out), c.IDiv(r, b))
				}
				// divide through by gcd of all the coefficients and divisor
				g := new(big.Int).Set(b.k)
				for _, f := range a.coef {
					g.GCD(nil, nil, g, new(big.Int).Abs(f))
				}
				if g.Cmp(big1) > 0 {
					l := newLin()
					for i, x := range a.args {
						l.addAtom(x, new(big.Int).Quo(a.coef[i], g))
					}
					l.k = floorDiv(a.k, g)
					return c.IDiv(c.fromLin(l), c.Int(new(big.Int).Quo(b.k, g)))
				}
			}
			if a.op == OIDiv && a.args[1].IsConst() && a.args[1].k.Sign() > 0 {
				return c.IDiv(a.args[0], c.Int(new(big.Int).Mul(a.args[1].k, b.k)))
			}
			iv := c.interval(a)
			if iv.lo != nil && iv.hi != nil {
				ql, qh := floorDiv(iv.lo, b.k), floorDiv(iv.hi, b.k)
				if ql.Cmp(qh) == 0 {
					return c.Int(ql)
				}
			}
			if a.op == OIte && a.args[1].IsConst() && a.args[2].IsConst() {
				return c.Ite(a.args[0], c.IDiv(a.args[1], b), c.IDiv(a.args[2], b))
			}
		}
	}
	return c.mk(OIDiv, IntSort, 0, 0, a, b)
}

// IMod is a - b*(a div b).
func (c *TermCtx) IMod(a, b *Term) *Term {
	return c.Sub(a, c.Mul(b, c.IDiv(a, b)))
}

func (c *TermCtx) Le0(s *Term) *Term {
	if s.IsConst() {
		return c.Bool(s.k.Sign() <= 0)
	}
	iv := c.interval(s)
	if iv.hi != nil && iv.hi.Sign() <= 0 {
		return c.True
	}
	if iv.lo != nil && iv.lo.Sign() > 0 {
		return c.False
	}
	// distribute over a single ite with constant arms
	if t, cond, a, b, ok := c.splitIte(s); ok {
		_ = t
		x, y := c.Le0(a), c.Le0(b)
		if x.IsConst() || y.IsConst() {
			return c.Ite(cond, x, y)
		}
	}
	if s.op == OSum {
		g := new(big.Int)
		for _, f := range s.coef {
			g.GCD(nil, nil, g, new(big.Int).Abs(f))
		}
		if g.Cmp(big1) > 0 {
			// sum + k <= 0  <=>  sum/g <= floor(-k/g)
			l := newLin()
			for i, x := range s.args {
				l.addAtom(x, new(big.Int).Quo(s.coef[i], g))
			}
			l.k.Neg(floorDiv(new(big.Int).Neg(s.k), g))
			s = c.fromLin(l)
			if s.IsConst() {
				return c.Bool(s.k.Sign() <= 0)
			}
		}
	}
	return c.mk(OLe0, BoolSort, 0, 0, s)
}

// splitIte: s = k + f*ite(cond,a,b) with one atom
func (c *TermCtx) splitIte(s *Term) (*Term, *Term, *Term, *Term, bool) {
	if s.op == OIte {
		return s, s.args[0], s.args[1], s.args[2], true
	}
	if s.op == OSum && len(s.args) == 1 && s.args[0].op == OIte {
		it := s.args[0]
		f := s.coef[0]
		a := c.Add(c.MulK(it.args[1], f), c.Int(s.k))
		b := c.Add(c.MulK(it.args[2], f), c.Int(s.k))
		return it, it.args[0], a, b, true
	}
	return nil, nil, nil, nil, false
}

func (c *TermCtx) Eq0(s *Term) *Term {
	if s.IsConst() {
		return c.Bool(s.k.Sign() == 0)
	}
	iv := c.interval(s)
	if iv.lo != nil && iv.lo.Sign() > 0 || iv.hi != nil && iv.hi.Sign() < 0 {
		return c.False
	}
	if _, cond, a, b, ok := c.splitIte(s); ok {
		x, y := c.Eq0(a), c.Eq0(b)
		if x.IsConst() || y.IsConst() {
			return c.Ite(cond, x, y)
		}
	}
	if s.op == OSum {
		g := new(big.Int)
		for _, f := range s.coef {
			g.GCD(nil, nil, g, new(big.Int).Abs(f))
		}
		neg := s.coef[0].Sign() < 0
		if g.Cmp(big1) > 0 || neg {
			if new(big.Int).Mod(s.k, g).Sign() != 0 {
				return c.False
			}
			if neg {
				g = new(big.Int).Neg(g)
			}
			l := newLin()
			for i, x := range s.args {
				l.addAtom(x, new(big.Int).Quo(s.coef[i], g))
			}
			l.k.Quo(s.k, g)
			s = c.fromLin(l)
		}
	}
	return c.mk(OEq0, BoolSort, 0, 0, s)
}

func (c *TermCtx) Le(a, b *Term) *Term { return c.Le0(c.Sub(a, b)) }
func (c *TermCtx) Lt(a, b *Term) *Term { return c.Le0(c.Add(c.Sub(a, b), c.Int64(1))) }

// IAnd is bitwise and on two's complement integers within width w.
func (c *TermCtx) IAnd(a, b *Term, w int) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Int(new(big.Int).And(a.k, b.k))
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		m := new(big.Int).Set(b.k)
		if m.Sign() < 0 {
			// x & m = x - (x & ^m)
			nm := new(big.Int).Not(m)
			return c.Sub(a, c.IAnd(a, c.Int(nm), w))
		}
		r := c.Int64(0)
		i := 0
		for i < m.BitLen() {
			if m.Bit(i) == 0 {
				i++
				continue
			}
			j := i
			for j < m.BitLen() && m.Bit(j) == 1 {
				j++
			}
			// bits i..j-1
			x := c.IDiv(a, c.Int(pow2(i)))
			x = c.IMod(x, c.Int(pow2(j-i)))
			r = c.Add(r, c.MulK(x, pow2(i)))
			i = j
		}
		return r
	}
	if a == b {
		return a
	}
	// disjoint bits
	if c.disjoint(a, b) || c.disjoint(b, a) {
		return c.Int64(0)
	}
	for i := 0; i < 2; i++ {
		iv, o := c.interval(a), c.interval(b)
		if iv.lo != nil && iv.hi != nil && iv.hi.Cmp(big1) <= 0 && iv.lo.Cmp(bigM1) >= 0 {
			if iv.hi.Sign() <= 0 || iv.lo.Sign() >= 0 && o.lo != nil && o.hi != nil && o.lo.Sign() >= 0 && o.hi.Cmp(big1) <= 0 {
				// a is 0 or all ones, or both are a single bit
				return c.Ite(c.Eq0(a), c.Int64(0), b)
			}
		}
		a, b = b, a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OIAnd, IntSort, w, 0, a, b)
}

// disjoint reports that a is a multiple of 2^k and 0 <= b < 2^k.
func (c *TermCtx) disjoint(a, b *Term) bool {
	iv := c.interval(b)
	if iv.lo == nil || iv.hi == nil || iv.lo.Sign() < 0 {
		return false
	}
	k := iv.hi.BitLen()
	return c.tz(a) >= k
}

func (c *TermCtx) tz(a *Term) int {
	switch a.op {
	case OConst:
		if a.k.Sign() == 0 {
			return 1000
		}
		return int(new(big.Int).Abs(a.k).TrailingZeroBits())
	case OSum:
		r := 1000
		if a.k.Sign() != 0 {
			r = int(new(big.Int).Abs(a.k).TrailingZeroBits())
		}
		for i, x := range a.args {
			n := int(new(big.Int).Abs(a.coef[i]).TrailingZeroBits()) + c.tz(x)
			if n < r {
				r = n
			}
		}
		return r
	case OIte:
		return min(c.tz(a.args[1]), c.tz(a.args[2]))
	}
	return 0
}

var pow2tab [600]*big.Int

func init() {
	for i := range pow2tab {
		pow2tab[i] = new(big.Int).Lsh(big1, uint(i))
	}
}

func pow2(n int) *big.Int {
	if n < len(pow2tab) {
		return pow2tab[n]
	}
	return new(big.Int).Lsh(big1, uint(n))
}

type ival struct{ lo, hi *big.Int } // nil = unbounded

func addB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Int).Add(a, b)
}

func (iv ival) scale(f *big.Int) ival {
	m := func(x *big.Int) *big.Int {
		if x == nil {
			return nil
		}
		return new(big.Int).Mul(x, f)
	}
	if f.Sign() >= 0 {
		return ival{m(iv.lo), m(iv.hi)}
	}
	return ival{m(iv.hi), m(iv.lo)}
}

func (iv ival) add(o ival) ival { return ival{addB(iv.lo, o.lo), addB(iv.hi, o.hi)} }

func (iv ival) mul(o ival) ival {
	if iv.lo == nil || iv.hi == nil || o.lo == nil || o.hi == nil {
		// nonneg x nonneg keeps lower bound 0
		if iv.lo != nil && o.lo != nil && iv.lo.Sign() >= 0 && o.lo.Sign() >= 0 {
			return ival{new(big.Int).Mul(iv.lo, o.lo), nil}
		}
		return ival{}
	}
	var lo, hi *big.Int
	for _, x := range []*big.Int{iv.lo, iv.hi} {
		for _, y := range []*big.Int{o.lo, o.hi} {
			p := new(big.Int).Mul(x, y)
			if lo == nil || p.Cmp(lo) < 0 {
				lo = p
			}
			if hi == nil || p.Cmp(hi) > 0 {
				hi = p
			}
		}
	}
	return ival{lo, hi}
}

// interval is the structural interval of an Int term, from the declared bounds of its variables only.
func (c *TermCtx) interval(t *Term) ival {
	if t.op == OConst {
		return ival{t.k, t.k}
	}
	if iv, ok := c.ivals[t.id]; ok {
		return iv
	}
	var r ival
	switch t.op {
	case OVar:
		r = ival{c.lo[t.id], c.hi[t.id]}
	case OSum:
		r = c.sumInterval(t)
	case OProd:
		r = c.interval(t.args[0])
		for i, a := range t.args[1:] {
			if i == 0 && len(t.args) == 2 && a == t.args[0] {
				// square
				r = r.mul(r)
				if r.lo == nil || r.lo.Sign() < 0 {
					r.lo = big0
				}
				continue
			}
			r = r.mul(c.interval(a))
		}
	case OIDiv:
		x := c.interval(t.args[0])
		d := c.interval(t.args[1])
		if d.lo != nil && d.lo.Sign() > 0 {
			dl := d.lo
			dh := d.hi
			if x.lo != nil {
				if x.lo.Sign() >= 0 {
					if dh != nil {
						r.lo = floorDiv(x.lo, dh)
					} else {
						r.lo = big0
					}
				} else {
					r.lo = floorDiv(x.lo, dl)
				}
			}
			if x.hi != nil {
				if x.hi.Sign() >= 0 {
					r.hi = floorDiv(x.hi, dl)
				} else if dh != nil {
					r.hi = floorDiv(x.hi, dh)
				} else {
					r.hi = bigM1
				}
			}
		}
	case OIte:
		a, b := c.interval(t.args[1]), c.interval(t.args[2])
		if a.lo != nil && b.lo != nil {
			r.lo = a.lo
			if b.lo.Cmp(r.lo) < 0 {
				r.lo = b.lo
			}
		}
		if a.hi != nil && b.hi != nil {
			r.hi = a.hi
			if b.hi.Cmp(r.hi) > 0 {
				r.hi = b.hi
			}
		}
	case OBV2Int:
		r = ival{big0, new(big.Int).Sub(pow2(t.args[0].sort.W), big1)}
	case OSBV2Int:
		w := t.args[0].sort.W
		r = ival{new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), big1)}
	case OIAnd:
		a, b := c.interval(t.args[0]), c.interval(t.args[1])
		if a.lo != nil && a.lo.Sign() >= 0 {
			r = ival{big0, a.hi}
		}
		if b.lo != nil && b.lo.Sign() >= 0 {
			if r.hi == nil || b.hi != nil && b.hi.Cmp(r.hi) < 0 {
				r = ival{big0, b.hi}
			}
		}
	}
	c.ivals[t.id] = r
	return r
}

func (c *TermCtx) sumInterval(t *Term) ival {
	r := ival{t.k, t.k}
	for i, a := range t.args {
		r = r.add(c.interval(a).scale(t.coef[i]))
	}
	// recognise k*(y - m*(y div m)) with constant m > 0
	for i, a := range t.args {
		if a.op != OIDiv || !a.args[1].IsConst() || a.args[1].k.Sign() <= 0 {
			continue
		}
		m := a.args[1].k
		q, rem := new(big.Int).QuoRem(t.coef[i], m, new(big.Int))
		if rem.Sign() != 0 {
			continue
		}
		f := new(big.Int).Neg(q)
		l := newLin()
		l.addTerm(t, big1)
		l.addTerm(a.args[0], new(big.Int).Neg(f))
		l.addAtom(a, new(big.Int).Mul(f, m))
		if len(l.m) < len(t.args) {
			rest := c.fromLin(l)
			x := ival{big0, new(big.Int).Sub(m, big1)}.scale(f)
			x = x.add(c.interval(rest))
			if x.lo != nil && (r.lo == nil || x.lo.Cmp(r.lo) > 0) {
				r.lo = x.lo
			}
			if x.hi != nil && (r.hi == nil || x.hi.Cmp(r.hi) < 0) {
				r.hi = x.hi
			}
		}
	}
	return r
}

// ---- BV

func (c *TermCtx) BBin(op Op, a, b *Term) *Term {
	w := a.sort.W
	if a.sort != b.sort {
		panic(fmt.Sprintf("BBin %d: sorts %v %v", op, a.sort, b.sort))
	}
	if a.IsConst() && b.IsConst() {
		x, y := a.u, b.u
		var r uint64
		switch op {
		case OBAdd:
			r = x + y
		case OBSub:
			r = x - y
		case OBMul:
			r = x * y
		case OBUDiv:
			if y == 0 {
				r = mask(w)
			} else {
				r = x / y
			}
		case OBURem:
			if y == 0 {
				r = x
			} else {
				r = x % y
			}
		case OBSDiv:
			sx, sy := sext(x, w), sext(y, w)
			if sy == 0 {
				if sx >= 0 {
					r = mask(w)
				} else {
					r = 1
				}
			} else if sy == -1 {
				r = uint64(-sx)
			} else {
				r = uint64(sx / sy)
			}
		case OBSRem:
			sx, sy := sext(x, w), sext(y, w)
			if sy == 0 {
				r = x
			} else if sy == -1 {
				r = 0
			} else {
				r = uint64(sx % sy)
			}
		case OBAnd:
			r = x & y
		case OBOr:
			r = x | y
		case OBXor:
			r = x ^ y
		case OBShl:
			if y >= uint64(w) {
				r = 0
			} else {
				r = x << y
			}
		case OBLshr:
			if y >= uint64(w) {
				r = 0
			} else {
				r = x >> y
			}
		case OBAshr:
			s := sext(x, w)
			if y >= uint64(w) {
				y = uint64(w - 1)
			}
			r = uint64(s >> y)
		}
		return c.BV(w, r)
	}
	zero := func(t *Term) bool { return t.IsConst() && t.u == 0 }
	one := func(t *Term) bool { return t.IsConst() && t.u == 1 }
	ones := func(t *Term) bool { return t.IsConst() && t.u == mask(w) }
	switch op {
	case OBAdd:
		if zero(a) {
			return b
		}
		if zero(b) {
			return a
		}
		// (x + k1) + k2
		if b.IsConst() && a.op == OBAdd && a.args[1].IsConst() {
			return c.BBin(OBAdd, a.args[0], c.BV(w, a.args[1].u+b.u))
		}
		if a.IsConst() {
			a, b = b, a
		} else if !b.IsConst() && a.id > b.id {
			a, b = b, a
		}
	case OBSub:
		if zero(b) {
			return a
		}
		if a == b {
			return c.BV(w, 0)
		}
		if b.IsConst() {
			return c.BBin(OBAdd, a, c.BV(w, -b.u))
		}
	case OBMul:
		if zero(a) || one(b) {
			return a
		}
		if zero(b) || one(a) {
			return b
		}
		if a.IsConst() {
			a, b = b, a
		} else if !b.IsConst() && a.id > b.id {
			a, b = b, a
		}
	case OBAnd:
		if zero(a) || ones(b) {
			return a
		}
		if zero(b) || ones(a) || a == b {
			return b
		}
		if a.IsConst() || (!b.IsConst() && a.id > b.id) {
			a, b = b, a
		}
	case OBOr:
		if zero(a) || ones(b) || a == b {
			return b
		}
		if zero(b) || ones(a) {
			return a
		}
		if a.IsConst() || (!b.IsConst() && a.id > b.id) {
			a, b = b, a
		}
	case OBXor:
		if zero(a) {
			return b
		}
		if zero(b) {
			return a
		}
		if a == b {
			return c.BV(w, 0)
		}
		if a.IsConst() || (!b.IsConst() && a.id > b.id) {
			a, b = b, a
		}
	case OBShl, OBLshr, OBAshr:
		if zero(b) || zero(a) {
			return a
		}
	case OBUDiv, OBSDiv:
		if one(b) {
			return a
		}
	}
	return c.mk(op, a.sort, 0, 0, a, b)
}

func (c *TermCtx) BNot(a *Term) *Term {
	if a.IsConst() {
		return c.BV(a.sort.W, ^a.u)
	}
	return c.mk(OBNot, a.sort, 0, 0, a)
}

func (c *TermCtx) BNeg(a *Term) *Term {
	if a.IsConst() {
		return c.BV(a.sort.W, -a.u)
	}
	return c.mk(OBNeg, a.sort, 0, 0, a)
}

func (c *TermCtx) bvRange(t *Term) (uint64, uint64) { // unsigned range
	switch t.op {
	case OConst:
		return t.u, t.u
	case OBZext:
		return c.bvRange(t.args[0])
	case OBAnd:
		if t.args[1].IsConst() {
			return 0, t.args[1].u
		}
	case OBLshr:
		if t.args[1].IsConst() && t.args[1].u < uint64(t.sort.W) {
			_, h := c.bvRange(t.args[0])
			return 0, h >> t.args[1].u
		}
	case OIte:
		l1, h1 := c.bvRange(t.args[1])
		l2, h2 := c.bvRange(t.args[2])
		return min(l1, l2), max(h1, h2)
	}
	return 0, mask(t.sort.W)
}

func (c *TermCtx) BCmp(op Op, a, b *Term) *Term {
	w := a.sort.W
	if a.sort != b.sort {
		panic(fmt.Sprintf("BCmp: sorts %v %v", a.sort, b.sort))
	}
	if a.IsConst() && b.IsConst() {
		switch op {
		case OBUlt:
			return c.Bool(a.u < b.u)
		case OBUle:
			return c.Bool(a.u <= b.u)
		case OBSlt:
			return c.Bool(sext(a.u, w) < sext(b.u, w))
		case OBSle:
			return c.Bool(sext(a.u, w) <= sext(b.u, w))
		}
	}
	if a == b {
		return c.Bool(op == OBUle || op == OBSle)
	}
	if op == OBSle || op == OBUle {
		// a <= b  ==  not (b < a)
		n := OBSlt
		if op == OBUle {
			n = OBUlt
		}
		return c.Not(c.BCmp(n, b, a))
	}
	al, ah := c.bvRange(a)
	bl, bh := c.bvRange(b)
	half := mask(w) >> 1
	if op == OBUlt || (ah <= half && bh <= half) {
		if ah < bl {
			return c.True
		}
		if al >= bh {
			return c.False
		}
		op = OBUlt
		// narrow zext compare
		if a.op == OBZext && b.IsConst() && b.u <= mask(a.args[0].sort.W) {
			return c.BCmp(OBUlt, a.args[0], c.BV(a.args[0].sort.W, b.u))
		}
		if b.op == OBZext && a.IsConst() && a.u <= mask(b.args[0].sort.W) {
			return c.BCmp(OBUlt, c.BV(b.args[0].sort.W, a.u), b.args[0])
		}
	}
	return c.mk(op, BoolSort, 0, 0, a, b)
}

func (c *TermCtx) Zext(a *Term, w int) *Term {
	if a.sort.W == w {
		return a
	}
	if a.IsConst() {
		return c.BV(w, a.u)
	}
	if a.op == OBZext {
		return c.Zext(a.args[0], w)
	}
	return c.mk(OBZext, BVSort(w), w, 0, a)
}

func (c *TermCtx) Sext(a *Term, w int) *Term {
	if a.sort.W == w {
		return a
	}
	if a.IsConst() {
		return c.BV(w, uint64(sext(a.u, a.sort.W)))
	}
	if a.op == OBZext {
		return c.Zext(a.args[0], w)
	}
	return c.mk(OBSext, BVSort(w), w, 0, a)
}

func (c *TermCtx) Extract(a *Term, hi, lo int) *Term {
	if lo == 0 && hi == a.sort.W-1 {
		return a
	}
	w := hi - lo + 1
	if a.IsConst() {
		return c.BV(w, a.u>>uint(lo))
	}
	if lo == 0 && (a.op == OBZext || a.op == OBSext) {
		in := a.args[0]
		if w == in.sort.W {
			return in
		}
		if w < in.sort.W {
			return c.Extract(in, hi, 0)
		}
		if a.op == OBZext {
			return c.Zext(in, w)
		}
		return c.Sext(in, w)
	}
	return c.mk(OBExtract, BVSort(w), hi, lo, a)
}

func (c *TermCtx) BV2Int(a *Term, signed bool) *Term {
	if a.IsConst() {
		if signed {
			return c.Int64(sext(a.u, a.sort.W))
		}
		return c.Int(new(big.Int).SetUint64(a.u))
	}
	if signed {
		return c.mk(OSBV2Int, IntSort, 0, 0, a)
	}
	return c.mk(OBV2Int, IntSort, 0, 0, a)
}

func (c *TermCtx) Int2BV(a *Term, w int) *Term {
	if a.IsConst() {
		m := new(big.Int).Mod(a.k, pow2(w))
		return c.BV(w, m.Uint64())
	}
	if (a.op == OBV2Int || a.op == OSBV2Int) && a.args[0].sort.W == w {
		return a.args[0]
	}
	return c.mk(OInt2BV, BVSort(w), w, 0, a)
}

// ---- FP

func (c *TermCtx) FBin(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		if a.sort.W == 32 {
			x, y := float32(a.f64()), float32(b.f64())
			switch op {
			case OFAdd:
				return c.F32(x + y)
			case OFSub:
				return c.F32(x - y)
			case OFMul:
				return c.F32(x * y)
			case OFDiv:
				return c.F32(x / y)
			}
		}
		x, y := a.f64(), b.f64()
		switch op {
		case OFAdd:
			return c.F64(x + y)
		case OFSub:
			return c.F64(x - y)
		case OFMul:
			return c.F64(x * y)
		case OFDiv:
			return c.F64(x / y)
		}
	}
	return c.mk(op, a.sort, 0, 0, a, b)
}

func (c *TermCtx) FCmp(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		x, y := a.f64(), b.f64()
		switch op {
		case OFEq:
			return c.Bool(x == y)
		case OFLt:
			return c.Bool(x < y)
		case OFLe:
			return c.Bool(x <= y)
		}
	}
	return c.mk(op, BoolSort, 0, 0, a, b)
}

func (c *TermCtx) FUn(op Op, a *Term, mode int) *Term {
	if a.IsConst() {
		x := a.f64()
		switch op {
		case OFNeg:
			return c.FP(a.sort.W, -x)
		case OFAbs:
			return c.FP(a.sort.W, math.Abs(x))
		case OFSqrt:
			if a.sort.W == 32 {
				return c.F32(float32(math.Sqrt(x)))
			}
			return c.F64(math.Sqrt(x))
		case OFRnd:
			var r float64
			switch mode {
			case 0:
				r = math.RoundToEven(x)
			case 1:
				r = math.Trunc(x)
			case 2:
				r = math.Ceil(x)
			case 3:
				r = math.Floor(x)
			case 4:
				r = math.Round(x)
			}
			return c.FP(a.sort.W, r)
		case OFIsNaN:
			return c.Bool(x != x)
		case OFIsInf:
			return c.Bool(math.IsInf(x, 0))
		}
	}
	s := a.sort
	if op == OFIsNaN || op == OFIsInf {
		s = BoolSort
	}
	return c.mk(op, s, mode, 0, a)
}

func (c *TermCtx) FToFP(a *Term, w int) *Term {
	if a.sort.W == w {
		return a
	}
	if a.IsConst() {
		return c.FP(w, a.f64())
	}
	if a.op == OFToFP && a.args[0].sort.K == SFP && a.args[0].sort.W <= w && a.args[0].sort.W < a.sort.W {
		// widened before: exact
		return c.FToFP(a.args[0], w)
	}
	return c.mk(OFToFP, Sort{SFP, w}, w, 0, a)
}

func (c *TermCtx) FFromBV(a *Term, w int, signed bool) *Term {
	if a.IsConst() {
		if signed {
			n := sext(a.u, a.sort.W)
			if w == 32 {
				return c.F32(float32(n))
			}
			return c.F64(float64(n))
		}
		if w == 32 {
			return c.F32(float32(a.u))
		}
		return c.F64(float64(a.u))
	}
	op := OFFromUBV
	if signed {
		op = OFFromSBV
	}
	return c.mk(op, Sort{SFP, w}, w, 0, a)
}

// FToBV truncates toward zero; the caller guarantees range.
func (c *TermCtx) FToBV(a *Term, w int, signed bool) *Term {
	if a.IsConst() {
		x := math.Trunc(a.f64())
		if x != x || math.IsInf(x, 0) {
			return c.BV(w, 0)
		}
		bf, _ := new(big.Float).SetFloat64(x).Int(nil)
		lo, hi := big0, new(big.Int).Sub(pow2(w), big1)
		if signed {
			lo, hi = new(big.Int).Neg(pow2(w-1)), new(big.Int).Sub(pow2(w-1), big1)
		}
		if bf.Cmp(lo) < 0 || bf.Cmp(hi) > 0 {
			return c.BV(w, 0)
		}
		return c.BV(w, new(big.Int).Mod(bf, pow2(w)).Uint64())
	}
	op := OFToUBV
	if signed {
		op = OFToSBV
	}
	return c.mk(op, BVSort(w), w, 0, a)
}

func (c *TermCtx) FFromBits(a *Term) *Term {
	w := a.sort.W
	if a.IsConst() {
		if w == 32 {
			return c.F32(math.Float32frombits(uint32(a.u)))
		}
		return c.F64(math.Float64frombits(a.u))
	}
	return c.mk(OFFromBits, Sort{SFP, w}, 0, 0, a)
}

// rebuild applies the constructor for t to new arguments (used by Eval).
func (c *TermCtx) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case ONot:
		return c.Not(a[0])
	case OAnd:
		return c.And(a[0], a[1])
	case OOr:
		return c.Or(a[0], a[1])
	case OEq:
		return c.Eq(a[0], a[1])
	case OIte:
		return c.Ite(a[0], a[1], a[2])
	case OSum:
		k := new(big.Int).Set(t.k)
		for i, x := range a {
			k.Add(k, new(big.Int).Mul(t.coef[i], x.k))
		}
		return c.Int(k)
	case OProd:
		k := big.NewInt(1)
		for _, x := range a {
			k.Mul(k, x.k)
		}
		return c.Int(k)
	case OIDiv:
		return c.IDiv(a[0], a[1])
	case OLe0:
		return c.Le0(a[0])
	case OEq0:
		return c.Eq0(a[0])
	case OIAnd:
		return c.Int(new(big.Int).And(a[0].k, a[1].k))
	case OBAdd, OBSub, OBMul, OBUDiv, OBURem, OBSDiv, OBSRem, OBAnd, OBOr, OBXor, OBShl, OBLshr, OBAshr:
		return c.BBin(t.op, a[0], a[1])
	case OBNot:
		return c.BNot(a[0])
	case OBNeg:
		return c.BNeg(a[0])
	case OBUlt, OBUle, OBSlt, OBSle:
		return c.BCmp(t.op, a[0], a[1])
	case OBZext:
		return c.Zext(a[0], t.i0)
	case OBSext:
		return c.Sext(a[0], t.i0)
	case OBExtract:
		return c.Extract(a[0], t.i0, t.i1)
	case OBV2Int:
		return c.BV2Int(a[0], false)
	case OSBV2Int:
		return c.BV2Int(a[0], true)
	case OInt2BV:
		return c.Int2BV(a[0], t.i0)
	case OFAdd, OFSub, OFMul, OFDiv:
		return c.FBin(t.op, a[0], a[1])
	case OFNeg, OFAbs, OFSqrt, OFRnd, OFIsNaN, OFIsInf:
		return c.FUn(t.op, a[0], t.i0)
	case OFEq, OFLt, OFLe:
		return c.FCmp(t.op, a[0], a[1])
	case OFToFP:
		return c.FToFP(a[0], t.i0)
	case OFFromSBV:
		return c.FFromBV(a[0], t.i0, true)
	case OFFromUBV:
		return c.FFromBV(a[0], t.i0, false)
	case OFToSBV:
		return c.FToBV(a[0], t.i0, true)
	case OFToUBV:
		return c.FToBV(a[0], t.i0, false)
	case OFFromBits:
		return c.FFromBits(a[0])
	}
	panic(fmt.Sprintf("rebuild: op %d", t.op))
}

// Model maps variable names to constant values (as constant encodings independent of a TermCtx).
type MVal struct {
	U uint64
	K *big.Int
}

type Model map[string]MVal

// Evaluator evaluates terms under a model with memoisation.
type Evaluator struct {
	c    *TermCtx
	m    Model
	memo map[int]*Term
}

func (c *TermCtx) NewEval(m Model) *Evaluator {
	return &Evaluator{c: c, m: m, memo: map[int]*Term{}}
}

func (e *Evaluator) Eval(t *Term) *Term {
	if t.op == OConst {
		return t
	}
	if r, ok := e.memo[t.id]; ok {
		return r
	}
	c := e.c
	var r *Term
	if t.op == OVar {
		v, ok := e.m[t.name]
		switch t.sort.K {
		case SBool:
			r = c.Bool(ok && v.U == 1)
		case SInt:
			if ok {
				r = c.Int(v.K)
			} else if lo := c.lo[t.id]; lo != nil && lo.Sign() > 0 {
				r = c.Int(lo)
			} else if hi := c.hi[t.id]; hi != nil && hi.Sign() < 0 {
				r = c.Int(hi)
			} else {
				r = c.Int64(0)
			}
		case SBV:
			r = c.BV(t.sort.W, v.U)
		case SFP:
			if t.sort.W == 32 {
				r = c.F32(math.Float32frombits(uint32(v.U)))
			} else {
				r = c.F64(math.Float64frombits(v.U))
			}
		}
	} else if t.op == OIte {
		if e.Eval(t.args[0]).u == 1 {
			r = e.Eval(t.args[1])
		} else {
			r = e.Eval(t.args[2])
		}
	} else {
		a := make([]*Term, len(t.args))
		for i, x := range t.args {
			a[i] = e.Eval(x)
		}
		r = c.rebuild(t, a)
	}
	if r.op != OConst {
		panic(fmt.Sprintf("Eval: op %d did not fold", t.op))
	}
	e.memo[t.id] = r
	return r
}
