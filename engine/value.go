package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term (bool, integers, floats), Str, Cplx, Structure, Array, Slice ([]Value), *Value (pointer),
// *Map, *Chan, Iface, Tuple, *ssa.Function, *Closure, *ssa.Builtin, *Native, SymPtr, RVal, RType, UPtr, iterators.
type Value interface{}

type Structure []Value
type Array []Value
type Tuple []Value
type Slice struct {
	a    []Value // len(a) is the length, cap(a) the capacity
	nil_ bool
}

// Str is a string of concrete length. t == nil: concrete.
type Str struct {
	s      string
	t      []*Term
	opaque bool
	src    *Term // opaque, and the decimal text of this integer when it is inspected
	flt    *Term // opaque, and the shortest text of this float64 that tells it from any other of fbits bits
	fbits  int
	parts  []Str // opaque, and the concatenation of these when it is inspected
}

type Cplx struct{ re, im *Term }

type Iface struct {
	t types.Type // nil for nil interface
	v Value
}

type Closure struct {
	Fn  *ssa.Function
	Env []Value
}

type Native struct {
	name string
	f    func(fr *frame, args []Value) Value
}

// BoundMethod etc. are synthesised by go/ssa.

// SymPtr is the address of an element at a symbolic index, only ever loaded.
type SymPtr struct {
	a   []Value
	idx *Term
	typ types.Type
}

// UPtr wraps unsafe.Pointer.
type UPtr struct{ v Value }

// RType is a reflect.Type implementation value.
type RType struct{ t types.Type }

// RVal is a reflect.Value.
type RVal struct {
	t    types.Type // nil: invalid
	v    Value      // when not addressable
	addr *Value     // when addressable
	ro   bool
	fn   Value // bound method receiver support
}

func (r RVal) get() Value {
	if r.addr != nil {
		return *r.addr
	}
	return r.v
}

type mapEnt struct {
	k, v Value
	enc  string // concrete key encoding or ""
	dead bool
}

type Map struct {
	kt, vt types.Type
	ents   []*mapEnt
	idx    map[string]*mapEnt
	nsym   int
	live   int
	init   bool // created during initialisation: journal changes
}

type Chan struct {
	buf    []chanItem
	cap    int
	closed bool
	vc     VC
	recvW  int
	rv     []*chanItem
}

type chanItem struct {
	v    Value
	vc   VC
	done bool
}

func kindOf(t types.Type) (b *types.Basic) {
	b, _ = t.Underlying().(*types.Basic)
	return
}

func isInt(t types.Type) bool {
	b := kindOf(t)
	return b != nil && b.Info()&types.IsInteger != 0
}

func isFloat(t types.Type) bool {
	b := kindOf(t)
	return b != nil && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b := kindOf(t)
	return b != nil && b.Info()&types.IsString != 0
}

func isBool(t types.Type) bool {
	b := kindOf(t)
	return b != nil && b.Info()&types.IsBoolean != 0
}

func isComplex(t types.Type) bool {
	b := kindOf(t)
	return b != nil && b.Info()&types.IsComplex != 0
}

func intInfo(t types.Type) (w int, signed bool) {
	switch kindOf(t).Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	panic("intInfo: " + t.String())
}

func floatW(t types.Type) int {
	switch kindOf(t).Kind() {
	case types.Float32:
		return 32
	}
	return 64
}

func typeRange(w int, signed bool) (*big.Int, *big.Int) {
	if signed {
		return new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), big1)
	}
	return big0, new(big.Int).Sub(pow2(w), big1)
}

// mkInt builds an integer constant of type info (w, signed) in the machine's mode.
func (m *Machine) mkIntW(n int64, w int) *Term {
	if m.bv {
		return m.c.BV(w, uint64(n))
	}
	return m.c.Int64(n)
}

func (m *Machine) mkInt(n int) *Term { return m.mkIntW(int64(n), 64) }

func (m *Machine) mkBig(k *big.Int, t types.Type) *Term {
	w, signed := intInfo(t)
	x := new(big.Int).Mod(k, pow2(w))
	if m.bv {
		return m.c.BV(w, x.Uint64())
	}
	if signed && x.Bit(w-1) == 1 {
		x.Sub(x, pow2(w))
	}
	return m.c.Int(x)
}

// cint reads a constant integer term of signed interpretation.
func cint(t *Term) (int64, bool) {
	if !t.IsConst() {
		return 0, false
	}
	if t.sort.K == SInt {
		if !t.k.IsInt64() {
			return 0, false
		}
		return t.k.Int64(), true
	}
	return sext(t.u, t.sort.W), true
}

func cuint(t *Term) (uint64, bool) {
	if !t.IsConst() {
		return 0, false
	}
	if t.sort.K == SInt {
		return new(big.Int).Mod(t.k, pow2(64)).Uint64(), true
	}
	return t.u, true
}

// ---- strings

func cstr(s string) Str { return Str{s: s} }

func (s Str) len() int {
	if s.t != nil {
		return len(s.t)
	}
	return len(s.s)
}

func (m *Machine) strBytes(s Str) []*Term {
	if s.t != nil {
		return s.t
	}
	r := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		r[i] = m.mkIntW(int64(s.s[i]), 8)
	}
	return r
}

// normStr makes a Str from byte terms, concrete when all are constant.
func normStr(ts []*Term) Str {
	for _, t := range ts {
		if !t.IsConst() {
			return Str{t: ts}
		}
	}
	b := make([]byte, len(ts))
	for i, t := range ts {
		u, _ := cuint(t)
		b[i] = byte(u)
	}
	return Str{s: string(b)}
}

func (m *Machine) concat(a, b Str) Str {
	if a.opaque || b.opaque {
		if !a.opaque && a.len() == 0 {
			return b
		}
		if !b.opaque && b.len() == 0 {
			return a
		}
		return Str{s: "?", opaque: true, parts: []Str{a, b}}
	}
	if a.t == nil && b.t == nil {
		return Str{s: a.s + b.s}
	}
	r := make([]*Term, 0, a.len()+b.len())
	r = append(r, m.strBytes(a)...)
	r = append(r, m.strBytes(b)...)
	return Str{t: r}
}

func (m *Machine) substr(s Str, lo, hi int) Str {
	s = m.force(s)
	if s.t == nil {
		return Str{s: s.s[lo:hi]}
	}
	return normStr(s.t[lo:hi:hi])
}

// ---- zero values

func (m *Machine) zero(t types.Type) Value {
	switch u := t.(type) {
	case *types.Named:
		if o := u.Obj(); o.Pkg() != nil && o.Pkg().Path() == "reflect" && o.Name() == "Value" {
			return RVal{}
		}
	case *types.Alias:
		return m.zero(types.Unalias(t))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UntypedNil:
			return (*Value)(nil)
		case u.Kind() == types.UnsafePointer:
			return UPtr{}
		case u.Info()&types.IsBoolean != 0:
			return m.c.False
		case u.Info()&types.IsInteger != 0:
			w, _ := intInfo(u)
			return m.mkIntW(0, w)
		case u.Info()&types.IsFloat != 0:
			return m.c.FP(floatW(u), 0)
		case u.Info()&types.IsComplex != 0:
			w := 64
			if u.Kind() == types.Complex64 {
				w = 32
			}
			return Cplx{m.c.FP(w, 0), m.c.FP(w, 0)}
		case u.Info()&types.IsString != 0:
			return Str{}
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		s := make(Structure, u.NumFields())
		for i := range s {
			s[i] = m.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		if len(a) > 0 {
			z := m.zero(u.Elem())
			_, comp := z.(Structure)
			_, comp2 := z.(Array)
			for i := range a {
				if comp || comp2 {
					a[i] = m.zero(u.Elem())
				} else {
					a[i] = z
				}
			}
		}
		return a
	case *types.Slice:
		return Slice{nil_: true}
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		if u.Len() == 1 {
			return m.zero(u.At(0).Type())
		}
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = m.zero(u.At(i).Type())
		}
		return s
	}
	panic(pathEnd{endUnsupported, "zero of " + t.String()})
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Structure:
		r := make(Structure, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	}
	return v
}

func (m *Machine) constValue(c *ssa.Const) Value {
	if v, ok := m.consts[c]; ok {
		return copyVal(v)
	}
	v := m.constValue0(c)
	m.consts[c] = v
	return copyVal(v)
}

func (m *Machine) constValue0(c *ssa.Const) Value {
	if c.Value == nil {
		return m.zero(c.Type())
	}
	t := c.Type()
	if tp, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case tp.Info()&types.IsBoolean != 0:
			return m.c.Bool(constant.BoolVal(c.Value))
		case tp.Info()&types.IsInteger != 0:
			k := constBig(constant.ToInt(c.Value))
			return m.mkBig(k, tp)
		case tp.Info()&types.IsFloat != 0:
			if tp.Kind() == types.Float32 {
				f, _ := constant.Float32Val(c.Value)
				return m.c.F32(f)
			}
			f, _ := constant.Float64Val(c.Value)
			return m.c.F64(f)
		case tp.Info()&types.IsComplex != 0:
			re, _ := constant.Float64Val(constant.Real(c.Value))
			im, _ := constant.Float64Val(constant.Imag(c.Value))
			w := 64
			if tp.Kind() == types.Complex64 {
				w = 32
			}
			return Cplx{m.c.FP(w, re), m.c.FP(w, im)}
		case tp.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return cstr(constant.StringVal(c.Value))
			}
			return cstr(string(rune(c.Int64())))
		case tp.Kind() == types.UnsafePointer:
			return UPtr{}
		}
	}
	panic(pathEnd{endUnsupported, "constant of type " + t.String()})
}

func constBig(v constant.Value) *big.Int {
	switch x := constant.Val(v).(type) {
	case int64:
		return big.NewInt(x)
	case *big.Int:
		return x
	}
	panic("constBig")
}

// encKey encodes a concrete map key; ok is false when part of it is symbolic.
func (m *Machine) encKey(v Value) (string, bool) {
	switch v := v.(type) {
	case *Term:
		if !v.IsConst() {
			return "", false
		}
		return fmt.Sprintf("%d:%s;", v.sort.K, constStr(v)), true
	case Str:
		if v.t != nil || v.opaque {
			return "", false
		}
		return fmt.Sprintf("s%d:%s", len(v.s), v.s), true
	case Cplx:
		a, ok1 := m.encKey(v.re)
		b, ok2 := m.encKey(v.im)
		return "c" + a + b, ok1 && ok2
	case *Value, *Chan, *Map:
		return fmt.Sprintf("p%p", v), true
	case Structure:
		var sb strings.Builder
		sb.WriteByte('{')
		for _, x := range v {
			s, ok := m.encKey(x)
			if !ok {
				return "", false
			}
			sb.WriteString(s)
		}
		return sb.String() + "}", true
	case Array:
		var sb strings.Builder
		sb.WriteByte('[')
		for _, x := range v {
			s, ok := m.encKey(x)
			if !ok {
				return "", false
			}
			sb.WriteString(s)
		}
		return sb.String() + "]", true
	case Iface:
		if v.t == nil {
			return "nil", true
		}
		s, ok := m.encKey(v.v)
		return "i" + m.typeKey(v.t) + s, ok
	case RType:
		return "T" + m.typeKey(v.t), true
	}
	return "", false
}

func (m *Machine) typeKey(t types.Type) string { return fmt.Sprint(m.sh.typeID(t)) + ":" }
