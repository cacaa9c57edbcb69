package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrFn func(fr *frame, fn *ssa.Function, args []Value) Value

type intrinsic struct{ f intrFn }

var intrTab = map[string]intrFn{}

// packages whose functions must never be interpreted from source (their representation is modelled)
var modelled = map[string]bool{"math/big": true, "reflect": true, "internal/reflectlite": true, "fmt": true, "runtime": true,
	"sync": true, "sync/atomic": true, "internal/runtime/atomic": true, "regexp": true, "os": true, "syscall": true, "time": true,
	"unsafe": true, "internal/poll": true, "net": true, "internal/sync": true}

func reg(names string, f intrFn) {
	for _, n := range strings.Fields(names) {
		intrTab[n] = f
	}
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		n := o.String()
		// the receiver of a method of a generic type is written with its type parameters
		if i := strings.IndexByte(n, '['); i >= 0 {
			if j := strings.IndexByte(n, ']'); j > i {
				n = n[:i] + n[j+1:]
			}
		}
		return n
	}
	return fn.String()
}

func lookupIntrinsic(m *Machine, fn *ssa.Function) *intrinsic {
	n := fnName(fn)
	if f, ok := intrTab[n]; ok {
		return &intrinsic{f}
	}
	pk := fn.Pkg
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Pkg
	}
	if pk == nil {
		// wrappers and thunks: interpreted, they call the wrapped function
		return nil
	}
	path := pk.Pkg.Path()
	if path == harnessModule+"/sym" {
		if fn.Name() == "init" {
			return &intrinsic{func(*frame, *ssa.Function, []Value) Value { return nil }}
		}
		if fn.Parent() == nil {
			panic(pathEnd{endUnsupported, "sym function without model: " + n})
		}
	}
	if modelled[path] && fn.Synthetic == "" && fn.Name() != "init" {
		if interpretAnyway[n] {
			return nil
		}
		return &intrinsic{func(fr *frame, fn *ssa.Function, args []Value) Value {
			fr.m.unsupported("no model for %s", n)
			return nil
		}}
	}
	return nil
}

var interpretAnyway = map[string]bool{}

func interp(names string) {
	for _, n := range strings.Fields(names) {
		interpretAnyway[n] = true
	}
}

func (m *Machine) symInt(t types.Type, kind string) *Term {
	w, signed := intInfo(t)
	var x *Term
	if m.bv {
		x = m.p.newVar(kind, BVSort(w), nil, nil)
	} else {
		lo, hi := typeRange(w, signed)
		x = m.p.newVar(kind, IntSort, lo, hi)
	}
	m.p.inputs = append(m.p.inputs, Input{Kind: kind, T: x})
	return x
}

func (m *Machine) symBytes(n int) []*Term {
	ts := make([]*Term, n)
	for i := range ts {
		if m.bv {
			ts[i] = m.p.newVar("c", BVSort(8), nil, nil)
		} else {
			ts[i] = m.p.newVar("c", IntSort, big0, big.NewInt(255))
		}
	}
	return ts
}

func argStr(m *Machine, v Value) string {
	s := v.(Str)
	if s.t != nil {
		m.unsupported("symbolic string where a constant is needed")
	}
	return s.s
}

func (m *Machine) ifaceErr(msg Str) Iface {
	// *errors.errorString
	p := m.sh.byPath["errors"]
	t := p.Type("errorString").Type()
	v := new(Value)
	*v = Structure{msg}
	return Iface{t: m.canon(types.NewPointer(t)), v: v}
}

func init() {
	S := harnessModule + "/sym."
	for _, k := range []struct {
		n string
		b types.BasicKind
	}{{"Int", types.Int}, {"Int8", types.Int8}, {"Int16", types.Int16}, {"Int32", types.Int32}, {"Int64", types.Int64},
		{"Uint", types.Uint}, {"Uint8", types.Uint8}, {"Uint16", types.Uint16}, {"Uint32", types.Uint32}, {"Uint64", types.Uint64}} {
		k := k
		reg(S+k.n, func(fr *frame, fn *ssa.Function, a []Value) Value {
			return fr.m.symInt(types.Typ[k.b], strings.ToLower(k.n))
		})
	}
	reg(S+"Bool", func(fr *frame, fn *ssa.Function, a []Value) Value {
		x := fr.m.p.newVar("bool", BoolSort, nil, nil)
		fr.m.p.inputs = append(fr.m.p.inputs, Input{Kind: "bool", T: x})
		return x
	})
	reg(S+"Float64", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		x := m.p.newVar("float64", BVSort(64), nil, nil)
		m.p.inputs = append(m.p.inputs, Input{Kind: "float64", T: x})
		return m.c.FFromBits(x)
	})
	reg(S+"Float32", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		x := m.p.newVar("float32", BVSort(32), nil, nil)
		m.p.inputs = append(m.p.inputs, Input{Kind: "float32", T: x})
		return m.c.FFromBits(x)
	})
	reg(S+"Choice", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		n := m.concInt(a[0])
		i := m.p.choice(n)
		m.p.inputs = append(m.p.inputs, Input{Kind: "choice", C: fmt.Sprint(i)})
		return m.mkInt(i)
	})
	reg(S+"IntIn", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		lo, _ := cint(a[0].(*Term))
		hi, _ := cint(a[1].(*Term))
		var x *Term
		if m.bv {
			x = m.p.newVar("int64", BVSort(64), nil, nil)
			m.p.inputs = append(m.p.inputs, Input{Kind: "intin", T: x})
			m.p.assume(m.c.And(m.c.BCmp(OBSle, m.c.BV(64, uint64(lo)), x), m.c.BCmp(OBSle, x, m.c.BV(64, uint64(hi)))))
		} else {
			x = m.p.newVar("int64", IntSort, big.NewInt(lo), big.NewInt(hi))
			m.p.inputs = append(m.p.inputs, Input{Kind: "intin", T: x})
		}
		return x
	})
	reg(S+"String", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		n := m.concInt(a[0])
		if n == 0 {
			m.p.inputs = append(m.p.inputs, Input{Kind: "string", C: ""})
			return Str{}
		}
		ts := m.symBytes(n)
		m.p.inputs = append(m.p.inputs, Input{Kind: "string", Ts: ts})
		return Str{t: ts}
	})
	reg(S+"StringOf", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		n := m.concInt(a[0])
		alpha := argStr(m, a[1])
		if n == 0 {
			m.p.inputs = append(m.p.inputs, Input{Kind: "string", C: ""})
			return Str{}
		}
		ts := m.symBytes(n)
		m.p.inputs = append(m.p.inputs, Input{Kind: "string", Ts: ts})
		for _, t := range ts {
			m.p.assume(m.inAlphabet(t, alpha))
		}
		return Str{t: ts}
	})
	reg(S+"Bytes", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		n := m.concInt(a[0])
		if n == 0 {
			m.p.inputs = append(m.p.inputs, Input{Kind: "string", C: ""})
			return Slice{a: []Value{}}
		}
		ts := m.symBytes(n)
		m.p.inputs = append(m.p.inputs, Input{Kind: "string", Ts: ts})
		vs := make([]Value, n)
		for i := range ts {
			vs[i] = ts[i]
		}
		return Slice{a: vs}
	})
	reg(S+"BigInt", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		n := m.concInt(a[0])
		hi := new(big.Int).Sub(pow2(n), big1)
		if m.bv {
			m.unsupported("sym.BigInt needs Int mode")
		}
		x := m.p.newVar("big", IntSort, new(big.Int).Neg(hi), hi)
		m.p.inputs = append(m.p.inputs, Input{Kind: "big", T: x})
		return m.newBigInt(x)
	})
	reg(S+"Assume", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.m.p.assume(a[0].(*Term))
		return nil
	})
	reg(S+"Assert", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.m.p.assert(a[0].(*Term), argStr(fr.m, a[1]))
		return nil
	})
	reg(S+"Reach", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.m.p.reach[argStr(fr.m, a[0])] = true
		return nil
	})
	reg(S+"Observe", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.m.p.obs = append(fr.m.p.obs, snapshot(a[0], 0))
		return nil
	})
	reg(S+"Known", func(fr *frame, fn *ssa.Function, a []Value) Value {
		if fr.m.p.branch(a[1].(*Term)) {
			fr.m.p.known = argStr(fr.m, a[0])
		}
		return nil
	})
	reg(S+"KnownEnd", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.m.p.known = ""
		return nil
	})
	reg(S+"Thorough", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.m.c.Bool(fr.m.run.thorough) })
	// Fork makes the executor decide the condition here (path split) and returns it as a concrete value.
	reg(S+"Fork", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.m.c.Bool(fr.m.p.branch(a[0].(*Term))) })

	reg(S+"And", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.m.c.And(a[0].(*Term), a[1].(*Term)) })
	reg(S+"Or", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.m.c.Or(a[0].(*Term), a[1].(*Term)) })
	reg(S+"Implies", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.m.c.Or(fr.m.c.Not(a[0].(*Term)), a[1].(*Term))
	})
	reg(S+"Ite", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.m.c.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	})
	reg(S+"KnownNow", func(fr *frame, fn *ssa.Function, a []Value) Value { return cstr(fr.m.p.known) })

	nop := func(fr *frame, fn *ssa.Function, a []Value) Value { return nil }
	reg("runtime.KeepAlive runtime.GC runtime.SetFinalizer runtime.Gosched internal/race.Acquire internal/race.Release internal/race.Enable internal/race.Disable internal/race.ReadRange internal/race.WriteRange internal/race.Read internal/race.Write internal/race.Errors internal/race.ReleaseMerge", nop)
	reg("runtime.GOMAXPROCS runtime.NumCPU", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.m.mkInt(8) })
	reg("internal/godebug.New internal/godebug.newSetting", func(fr *frame, fn *ssa.Function, a []Value) Value { return (*Value)(nil) })
	reg("(*internal/godebug.Setting).Value", func(fr *frame, fn *ssa.Function, a []Value) Value { return Str{} })
	reg("(*internal/godebug.Setting).IncNonDefault", nop)

	// strings / bytes low level
	reg("(*strings.Builder).copyCheck", nop)
	reg("(*strings.Builder).String", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		s := (*a[0].(*Value)).(Structure)
		buf := s[1].(Slice)
		ts := make([]*Term, len(buf.a))
		for i := range ts {
			ts[i] = m.load(&buf.a[i]).(*Term)
		}
		return normStr(ts)
	})
	reg("internal/bytealg.MakeNoZero internal/bytealg.makeNoZero strings.makeNoZero", func(fr *frame, fn *ssa.Function, a []Value) Value {
		n := fr.m.concInt(a[0])
		return Slice{a: fr.m.mkElems(types.Typ[types.Uint8], n, fr.m.sh.growCap(0, n, 1))[:n]}
	})
	idxByte := func(fr *frame, s []*Term, b *Term) Value {
		m := fr.m
		for i, t := range s {
			if m.p.branch(m.c.Eq(t, b)) {
				return m.mkInt(i)
			}
		}
		return m.mkInt(-1)
	}
	reg("internal/bytealg.IndexByteString strings.IndexByte internal/stringslite.IndexByte", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return idxByte(fr, fr.m.strBytes(fr.m.plain(a[0])), a[1].(*Term))
	})
	reg("internal/bytealg.IndexByte bytes.IndexByte", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return idxByte(fr, termsOf(a[0]), a[1].(*Term))
	})
	lastIdx := func(fr *frame, s []*Term, b *Term) Value {
		m := fr.m
		for i := len(s) - 1; i >= 0; i-- {
			if m.p.branch(m.c.Eq(s[i], b)) {
				return m.mkInt(i)
			}
		}
		return m.mkInt(-1)
	}
	reg("internal/bytealg.LastIndexByteString strings.LastIndexByte", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return lastIdx(fr, fr.m.strBytes(fr.m.plain(a[0])), a[1].(*Term))
	})
	reg("internal/bytealg.LastIndexByte bytes.LastIndexByte", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return lastIdx(fr, termsOf(a[0]), a[1].(*Term))
	})
	count := func(fr *frame, s []*Term, b *Term) Value {
		m := fr.m
		n := 0
		for _, t := range s {
			if m.p.branch(m.c.Eq(t, b)) {
				n++
			}
		}
		return m.mkInt(n)
	}
	reg("internal/bytealg.CountString", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return count(fr, fr.m.strBytes(fr.m.plain(a[0])), a[1].(*Term))
	})
	reg("internal/bytealg.Count", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return count(fr, termsOf(a[0]), a[1].(*Term))
	})
	index := func(fr *frame, s, sub Str) Value {
		m := fr.m
		n, k := s.len(), sub.len()
		if s.t == nil && sub.t == nil {
			return m.mkInt(strings.Index(s.s, sub.s))
		}
		a, b := m.strBytes(s), m.strBytes(sub)
		for i := 0; i+k <= n; i++ {
			eq := m.c.True
			for j := 0; j < k; j++ {
				eq = m.c.And(eq, m.c.Eq(a[i+j], b[j]))
			}
			if m.p.branch(eq) {
				return m.mkInt(i)
			}
		}
		return m.mkInt(-1)
	}
	reg("strings.Index internal/bytealg.IndexString internal/stringslite.Index", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return index(fr, fr.m.plain(a[0]), fr.m.plain(a[1]))
	})
	reg("internal/bytealg.Index bytes.Index", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return index(fr, normStr(termsOf(a[0])), normStr(termsOf(a[1])))
	})
	reg("internal/bytealg.Equal bytes.Equal", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.m.equals(types.Typ[types.String], normStr(termsOf(a[0])), normStr(termsOf(a[1])))
	})
	cmp := func(fr *frame, x, y Str) Value {
		m := fr.m
		if m.p.branch(m.equals(types.Typ[types.String], x, y)) {
			return m.mkInt(0)
		}
		if m.p.branch(m.strLess(x, y, false)) {
			return m.mkInt(-1)
		}
		return m.mkInt(1)
	}
	reg("internal/bytealg.CompareString strings.Compare runtime.cmpstring", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return cmp(fr, fr.m.plain(a[0]), fr.m.plain(a[1]))
	})
	reg("internal/bytealg.Compare bytes.Compare", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return cmp(fr, normStr(termsOf(a[0])), normStr(termsOf(a[1])))
	})
	reg("strings.Clone internal/stringslite.Clone", func(fr *frame, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("internal/abi.NoEscape internal/abi.Escape", func(fr *frame, fn *ssa.Function, a []Value) Value { return a[0] })

	// math
	reg("math.Float64bits", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.m.floatBits(a[0].(*Term), 64) })
	reg("math.Float32bits", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.m.floatBits(a[0].(*Term), 32) })
	fromBits := func(w int) intrFn {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			m := fr.m
			t := a[0].(*Term)
			if t.sort.K == SInt {
				u, ok := cuint(t)
				if !ok {
					m.unsupported("symbolic float bits in Int mode")
				}
				t = m.c.BV(w, u)
			}
			return m.c.FFromBits(t)
		}
	}
	reg("math.Float64frombits", fromBits(64))
	reg("math.Float32frombits", fromBits(32))
	rnd := func(mode int) intrFn {
		return func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.m.c.FUn(OFRnd, a[0].(*Term), mode) }
	}
	reg("math.Trunc math.trunc", rnd(1))
	reg("math.Ceil math.ceil", rnd(2))
	reg("math.Floor math.floor", rnd(3))
	reg("math.Round", rnd(4))
	reg("math.RoundToEven", rnd(0))
	reg("math.Abs", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.m.c.FUn(OFAbs, a[0].(*Term), 0) })
	reg("math.Sqrt math.sqrt", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.m.c.FUn(OFSqrt, a[0].(*Term), 0) })
	reg("math.IsNaN", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.m.c.FUn(OFIsNaN, a[0].(*Term), 0) })
	reg("math.IsInf", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		x := a[0].(*Term)
		s, ok := cint(a[1].(*Term))
		if !ok {
			m.unsupported("symbolic sign for math.IsInf")
		}
		switch {
		case s == 0:
			return m.c.FUn(OFIsInf, x, 0)
		case s > 0:
			return m.c.FCmp(OFEq, x, m.c.FP(64, math.Inf(1)))
		}
		return m.c.FCmp(OFEq, x, m.c.FP(64, math.Inf(-1)))
	})
	conc1 := func(f func(float64) float64) intrFn {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			x := a[0].(*Term)
			if !x.IsConst() {
				fr.m.unsupported("%s of a symbolic value", fn)
			}
			return fr.m.c.F64(f(x.f64()))
		}
	}
	reg("math.Log10 math.log10", conc1(math.Log10))
	reg("math.Log math.log", conc1(math.Log))
	reg("math.Log2 math.log2", conc1(math.Log2))
	reg("math.Exp math.exp", conc1(math.Exp))
	conc2 := func(f func(a, b float64) float64) intrFn {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			x, y := a[0].(*Term), a[1].(*Term)
			if !x.IsConst() || !y.IsConst() {
				fr.m.unsupported("%s of a symbolic value", fn)
			}
			return fr.m.c.F64(f(x.f64(), y.f64()))
		}
	}
	// the assembly versions compute what the portable ones do
	portable := func(name string) intrFn {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			return fr.m.callSSA(fr, fr.g, fn.Pkg.Func(name), a, nil)
		}
	}
	reg("math.archMax", portable("max"))
	reg("math.archMin", portable("min"))
	reg("math.Pow math.pow", conc2(math.Pow))
	reg("math.Mod math.mod", conc2(math.Mod))
	reg("math.FMA", func(fr *frame, fn *ssa.Function, a []Value) Value {
		x, y, z := a[0].(*Term), a[1].(*Term), a[2].(*Term)
		if !x.IsConst() || !y.IsConst() || !z.IsConst() {
			fr.m.unsupported("%s of a symbolic value", fn)
		}
		return fr.m.c.F64(math.FMA(x.f64(), y.f64(), z.f64()))
	})
	// math/bits: exact in Int mode, interpreted in BV mode (see bitsIntr)
	reg("math/bits.Mul64 math/bits.Mul", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.m.bitsMul(a[0].(*Term), a[1].(*Term)) })
	reg("math/bits.Add64 math/bits.Add", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		x, y, cy := a[0].(*Term), a[1].(*Term), a[2].(*Term)
		if m.bv {
			s := m.c.BBin(OBAdd, m.c.BBin(OBAdd, x, y), cy)
			o := m.c.BBin(OBOr, m.c.BBin(OBAnd, x, y), m.c.BBin(OBAnd, m.c.BBin(OBOr, x, y), m.c.BNot(s)))
			return Tuple{s, m.c.BBin(OBLshr, o, m.c.BV(64, 63))}
		}
		r := m.c.Add(m.c.Add(x, y), cy)
		if m.p.branch(m.c.Lt(r, m.c.Int(pow2(64)))) {
			return Tuple{r, m.c.Int64(0)}
		}
		return Tuple{m.c.Sub(r, m.c.Int(pow2(64))), m.c.Int64(1)}
	})
	reg("math/bits.Sub64 math/bits.Sub", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		x, y, cy := a[0].(*Term), a[1].(*Term), a[2].(*Term)
		if m.bv {
			d := m.c.BBin(OBSub, m.c.BBin(OBSub, x, y), cy)
			o := m.c.BBin(OBOr, m.c.BBin(OBAnd, m.c.BNot(x), y), m.c.BBin(OBAnd, m.c.BNot(m.c.BBin(OBXor, x, y)), d))
			return Tuple{d, m.c.BBin(OBLshr, o, m.c.BV(64, 63))}
		}
		r := m.c.Sub(m.c.Sub(x, y), cy)
		if m.p.branch(m.c.Le(m.c.Int64(0), r)) {
			return Tuple{r, m.c.Int64(0)}
		}
		return Tuple{m.c.Add(r, m.c.Int(pow2(64))), m.c.Int64(1)}
	})
	reg("math/bits.Div64 math/bits.Div", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		hi, lo, y := a[0].(*Term), a[1].(*Term), a[2].(*Term)
		if m.p.branch(m.isZero(y)) {
			m.rtPanic("integer divide by zero")
		}
		if m.p.branch(m.cmpInt(tokLEQ, types.Typ[types.Uint64], y, hi)) {
			m.rtPanic("integer overflow")
		}
		if m.bv {
			if hi.IsConst() && hi.u == 0 {
				return Tuple{m.c.BBin(OBUDiv, lo, y), m.c.BBin(OBURem, lo, y)}
			}
			m.unsupported("bits.Div64 in BV mode")
		}
		n := m.c.Add(m.c.MulK(hi, pow2(64)), lo)
		q, r := m.quoRemInt(n, y)
		return Tuple{q, r}
	})
	reg("math/bits.Len64 math/bits.Len", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.m.bitLen(a[0].(*Term)) })
	reg("math/bits.TrailingZeros64 math/bits.TrailingZeros math/bits.TrailingZeros32 math/bits.LeadingZeros64x", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		t := a[0].(*Term)
		w := 64
		if strings.HasSuffix(fn.Name(), "32") {
			w = 32
		}
		for i := 0; i < w; i++ {
			var bit *Term
			if m.bv {
				bit = m.c.Eq(m.c.Extract(t, i, i), m.c.BV(1, 1))
			} else {
				bit = m.c.Eq(m.c.IMod(m.c.IDiv(t, m.c.Int(pow2(i))), m.c.Int64(2)), m.c.Int64(1))
			}
			if m.p.branch(bit) {
				return m.mkInt(i)
			}
		}
		return m.mkInt(w)
	})

	// os facts
	reg("os.Getenv", func(fr *frame, fn *ssa.Function, a []Value) Value { return Str{} })
	reg("runtime.Caller", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return Tuple{fr.m.mkInt(0), Str{}, fr.m.mkInt(0), fr.m.c.False}
	})
	interp("os.IsNotExist os.IsExist os.underlyingErrorIs os.underlyingError os.newError")
	interp("runtime.errorString.Error (runtime.errorString).Error (runtime.errorString).RuntimeError (*runtime.TypeAssertionError).Error")
	reg("(runtime.errorString).Error", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.m.concat(cstr("runtime error: "), a[0].(Str))
	})
}

const tokLEQ = token.LEQ
const tokLSS = token.LSS
const tokADD = token.ADD

func (m *Machine) plain(v Value) Str {
	s := v.(Str)
	return m.force(s)
}

func termsOf(v Value) []*Term {
	s := v.(Slice)
	ts := make([]*Term, len(s.a))
	for i, x := range s.a {
		ts[i] = x.(*Term)
	}
	return ts
}

func (m *Machine) inAlphabet(t *Term, alpha string) *Term {
	var set [256]bool
	for i := 0; i < len(alpha); i++ {
		set[alpha[i]] = true
	}
	r := m.c.False
	for i := 0; i < 256; {
		if !set[i] {
			i++
			continue
		}
		j := i
		for j < 256 && set[j] {
			j++
		}
		u8 := types.Typ[types.Uint8]
		r = m.c.Or(r, m.c.And(m.cmpInt(tokLEQ, u8, m.mkIntW(int64(i), 8), t), m.cmpInt(tokLEQ, u8, t, m.mkIntW(int64(j-1), 8))))
		i = j
	}
	return r
}

func (m *Machine) floatBits(t *Term, w int) *Term {
	if t.IsConst() {
		if m.bv {
			return m.c.BV(w, t.u)
		}
		return m.c.Int(new(big.Int).SetUint64(t.u))
	}
	if !m.bv {
		m.unsupported("symbolic float bits in Int mode")
	}
	if t.op == OFFromBits {
		return t.args[0]
	}
	// a fresh bit pattern denoting the same float
	x := m.p.newVar("fbits", BVSort(w), nil, nil)
	m.p.setModel(nil)
	f := m.c.FFromBits(x)
	m.p.axiom(m.c.mk(OEq, BoolSort, 0, 0, f, t))
	return x
}

func (m *Machine) bitLen(t *Term) *Term {
	if t.IsConst() {
		u, _ := cuint(t)
		n := 0
		for u > 0 {
			n++
			u >>= 1
		}
		return m.mkInt(n)
	}
	// binary search
	lo, hi := 0, 64
	if m.bv {
		hi = t.sort.W
	} else if iv := m.c.interval(t); iv.hi != nil {
		hi = iv.hi.BitLen()
	}
	for lo < hi {
		mid := (lo + hi) / 2
		// t < 2^mid ?
		var c *Term
		if m.bv {
			if mid >= t.sort.W {
				c = m.c.True
			} else {
				c = m.c.BCmp(OBUlt, t, m.c.BV(t.sort.W, uint64(1)<<uint(mid)))
			}
		} else {
			c = m.c.Lt(t, m.c.Int(pow2(mid)))
		}
		if m.p.branch(c) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	return m.mkInt(lo)
}

func (m *Machine) bitsMul(x, y *Term) Value {
	c := m.c
	if m.bv {
		if x.IsConst() && y.IsConst() {
			p := new(big.Int).Mul(new(big.Int).SetUint64(x.u), new(big.Int).SetUint64(y.u))
			return Tuple{c.BV(64, new(big.Int).Rsh(p, 64).Uint64()), c.BV(64, new(big.Int).Mod(p, pow2(64)).Uint64())}
		}
		// by halves, as in the source
		lo32, k32 := c.BV(64, 1<<32-1), c.BV(64, 32)
		lo := func(a *Term) *Term { return c.BBin(OBAnd, a, lo32) }
		hi := func(a *Term) *Term { return c.BBin(OBLshr, a, k32) }
		x0, x1, y0, y1 := lo(x), hi(x), lo(y), hi(y)
		t := c.BBin(OBAdd, c.BBin(OBMul, x1, y0), hi(c.BBin(OBMul, x0, y0)))
		w1 := c.BBin(OBAdd, lo(t), c.BBin(OBMul, x0, y1))
		return Tuple{c.BBin(OBAdd, c.BBin(OBAdd, c.BBin(OBMul, x1, y1), hi(t)), hi(w1)), c.BBin(OBMul, x, y)}
	}
	p := c.Mul(x, y)
	h := c.IDiv(p, c.Int(pow2(64)))
	return Tuple{h, c.Sub(p, c.MulK(h, pow2(64)))}
}

// snapshot deep-copies an observed value.
func snapshot(v Value, d int) Value {
	if d > 6 {
		return nil
	}
	switch v := v.(type) {
	case Iface:
		return Iface{t: v.t, v: snapshot(v.v, d+1)}
	case Slice:
		a := make([]Value, len(v.a))
		for i := range a {
			a[i] = snapshot(v.a[i], d+1)
		}
		return Slice{a: a, nil_: v.nil_}
	case Structure:
		a := make(Structure, len(v))
		for i := range a {
			a[i] = snapshot(v[i], d+1)
		}
		return a
	case Array:
		a := make(Array, len(v))
		for i := range a {
			a[i] = snapshot(v[i], d+1)
		}
		return a
	case *Value:
		if v == nil {
			return v
		}
		n := new(Value)
		*n = snapshot(*v, d+1)
		return n
	}
	return v
}

// obsStr renders an observed value (an Iface) under the model, in the format of sym.Observe in the native package.
func (m *Machine) obsStr(ev *Evaluator, v Value) string {
	i := v.(Iface)
	if i.t == nil {
		return "nil"
	}
	return m.obsVal(ev, i.t, i.v, 0)
}

func (m *Machine) obsVal(ev *Evaluator, t types.Type, v Value, d int) string {
	if d > 6 {
		return "?"
	}
	if n, ok := t.(*types.Pointer); ok {
		p, _ := v.(*Value)
		if p == nil {
			return "nilptr"
		}
		if nm, ok := n.Elem().(*types.Named); ok && nm.Obj().Pkg() != nil && nm.Obj().Pkg().Path() == "math/big" {
			if nm.Obj().Name() == "Int" {
				return "z" + ev.Eval(m.bigOf(p)).k.String()
			}
			return "?"
		}
	}
	if types.Implements(t, errorIface) {
		return "error"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case *Term:
			e := ev.Eval(x)
			switch {
			case u.Info()&types.IsBoolean != 0:
				return fmt.Sprint(e.u == 1)
			case u.Info()&types.IsInteger != 0:
				if e.sort.K == SInt {
					return e.k.String()
				}
				if _, s := intInfo(u); s {
					return fmt.Sprint(sext(e.u, e.sort.W))
				}
				return fmt.Sprint(e.u)
			default:
				if f := e.f64(); f != f {
					return "fNaN"
				}
				return fmt.Sprintf("f%x", e.u)
			}
		case Str:
			if x.opaque {
				return "?"
			}
			if x.t == nil {
				return fmt.Sprintf("s%x", x.s)
			}
			b := make([]byte, len(x.t))
			for i, c := range x.t {
				q, _ := cuint(ev.Eval(c))
				b[i] = byte(q)
			}
			return fmt.Sprintf("s%x", b)
		}
	case *types.Slice:
		s := v.(Slice)
		r := "["
		for _, x := range s.a {
			r += m.obsVal(ev, u.Elem(), x, d+1) + ","
		}
		return r + "]"
	case *types.Array:
		r := "["
		for _, x := range v.(Array) {
			r += m.obsVal(ev, u.Elem(), x, d+1) + ","
		}
		return r + "]"
	case *types.Struct:
		s, ok := v.(Structure)
		if !ok {
			return "?"
		}
		r := "{"
		for i, x := range s {
			r += m.obsVal(ev, u.Field(i).Type(), x, d+1) + ","
		}
		return r + "}"
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			return "nil"
		}
		return m.obsVal(ev, i.t, i.v, d+1)
	}
	return "?"
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
