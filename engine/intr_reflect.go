package main

// reflect and internal/reflectlite.

import (
	"go/types"
	"math"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (m *Machine) rtypeIface(t types.Type) Iface {
	if t == nil {
		return Iface{}
	}
	if m.sh.rtype == nil {
		m.unsupported("reflect not loaded")
	}
	return Iface{t: m.sh.rtype, v: RType{m.canon(t)}}
}

func rkind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

// rtypeString is reflect.Type.String.
func rtypeString(t types.Type) string {
	switch u := types.Unalias(t).(type) {
	case *types.Basic:
		return u.Name()
	case *types.Named:
		s := u.Obj().Name()
		if p := u.Obj().Pkg(); p != nil {
			s = p.Name() + "." + s
		}
		if ta := u.TypeArgs(); ta.Len() > 0 {
			var ss []string
			for i := 0; i < ta.Len(); i++ {
				ss = append(ss, types.TypeString(ta.At(i), nil))
			}
			s += "[" + strings.Join(ss, ",") + "]"
		}
		return s
	case *types.Pointer:
		return "*" + rtypeString(u.Elem())
	case *types.Slice:
		return "[]" + rtypeString(u.Elem())
	case *types.Array:
		return "[" + itoa(int(u.Len())) + "]" + rtypeString(u.Elem())
	case *types.Map:
		return "map[" + rtypeString(u.Key()) + "]" + rtypeString(u.Elem())
	case *types.Interface:
		if u.NumMethods() == 0 {
			return "interface {}"
		}
	case *types.Chan:
		return "chan " + rtypeString(u.Elem())
	case *types.Signature:
		s := "func("
		for i := 0; i < u.Params().Len(); i++ {
			if i > 0 {
				s += ", "
			}
			if u.Variadic() && i == u.Params().Len()-1 {
				s += "..." + rtypeString(u.Params().At(i).Type().(*types.Slice).Elem())
			} else {
				s += rtypeString(u.Params().At(i).Type())
			}
		}
		s += ")"
		switch u.Results().Len() {
		case 0:
		case 1:
			s += " " + rtypeString(u.Results().At(0).Type())
		default:
			s += " ("
			for i := 0; i < u.Results().Len(); i++ {
				if i > 0 {
					s += ", "
				}
				s += rtypeString(u.Results().At(i).Type())
			}
			s += ")"
		}
		return s
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

func (m *Machine) rvPanic(what string) {
	m.goPanic("reflect: " + what)
}

// goPanic panics in the target with a string-carrying *reflect.ValueError-like error; only its text matters.
func (m *Machine) goPanic(msg string) {
	panic(targetPanic{m.ifaceErr(cstr(msg))})
}

func (m *Machine) rv(v Value) RVal {
	r, ok := v.(RVal)
	if !ok {
		m.unsupported("reflect.Value representation %T", v)
	}
	return r
}

// valid panics like reflect does on the zero Value.
func (m *Machine) rvValid(v Value, meth string) RVal {
	r := m.rv(v)
	if r.t == nil {
		m.goPanic("reflect: call of reflect.Value." + meth + " on zero Value")
	}
	return r
}

func isNilable(k reflect.Kind) bool {
	switch k {
	case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Pointer, reflect.Slice, reflect.UnsafePointer:
		return true
	}
	return false
}

func (m *Machine) rvGet(r RVal) Value {
	if r.addr != nil {
		return m.load(r.addr)
	}
	return r.v
}

// rvIface is Value.Interface.
func (m *Machine) rvIface(r RVal) Iface {
	v := m.rvGet(r)
	if _, ok := r.t.Underlying().(*types.Interface); ok {
		return v.(Iface)
	}
	return Iface{t: m.canon(r.t), v: copyVal(v)}
}

func (m *Machine) rvIsZero(t types.Type, v Value) *Term {
	switch v := v.(type) {
	case Structure:
		st := t.Underlying().(*types.Struct)
		r := m.c.True
		for i := range v {
			r = m.c.And(r, m.rvIsZero(st.Field(i).Type(), v[i]))
		}
		return r
	case Array:
		r := m.c.True
		for i := range v {
			r = m.c.And(r, m.rvIsZero(t.Underlying().(*types.Array).Elem(), v[i]))
		}
		return r
	case *Term:
		if v.sort.K == SFP {
			// negative zero counts as zero since Go 1.22
			return m.c.FCmp(OFEq, v, m.c.FP(v.sort.W, 0))
		}
		return m.equals(t, v, m.zero(t))
	case Str:
		return m.c.Bool(v.len() == 0)
	case Cplx:
		z := types.Typ[types.Float64]
		return m.c.And(m.rvIsZero(z, v.re), m.rvIsZero(z, v.im))
	case RType, RVal:
		return m.c.False
	}
	return m.c.Bool(isNilVal(v))
}

func (m *Machine) rvConvert(r RVal, t types.Type) RVal {
	v := m.rvGet(r)
	if it, ok := t.Underlying().(*types.Interface); ok {
		if si, ok := r.t.Underlying().(*types.Interface); ok {
			_ = si
			return RVal{t: m.canon(t), v: v}
		}
		if !types.Implements(r.t, it) {
			m.goPanic("reflect.Value.Convert: value of type " + rtypeString(r.t) + " cannot be converted to type " + rtypeString(t))
		}
		return RVal{t: m.canon(t), v: Iface{t: m.canon(r.t), v: copyVal(v)}}
	}
	if !types.ConvertibleTo(r.t, t) {
		m.goPanic("reflect.Value.Convert: value of type " + rtypeString(r.t) + " cannot be converted to type " + rtypeString(t))
	}
	return RVal{t: m.canon(t), v: copyVal(m.conv(t, r.t, v))}
}

// rvAssignTo gives the value to store into a slot of type t.
func (m *Machine) rvAssignTo(r RVal, t types.Type, what string) Value {
	v := m.rvGet(r)
	if _, ok := t.Underlying().(*types.Interface); ok {
		if _, ok := r.t.Underlying().(*types.Interface); ok {
			return v
		}
		if types.AssignableTo(r.t, t) {
			return Iface{t: m.canon(r.t), v: copyVal(v)}
		}
	}
	if m.canon(r.t) != m.canon(t) && !types.AssignableTo(r.t, t) {
		m.goPanic("reflect." + what + ": value of type " + rtypeString(r.t) + " is not assignable to type " + rtypeString(t))
	}
	return copyVal(v)
}

func (m *Machine) structField(st *types.Struct, i int) Value {
	f := st.Field(i)
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	return Structure{cstr(f.Name()), cstr(pkg), m.rtypeIface(f.Type()), cstr(st.Tag(i)), m.mkInt(0), Slice{a: []Value{m.mkInt(i)}}, m.c.Bool(f.Embedded())}
}

func init() {
	V := "(reflect.Value)."
	T := "(*reflect.rtype)."
	rt := func(v Value) types.Type { return v.(RType).t }

	reg("reflect.TypeOf internal/reflectlite.TypeOf", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.m.rtypeIface(a[0].(Iface).t)
	})
	reg("reflect.ValueOf internal/reflectlite.ValueOf", func(fr *frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return RVal{}
		}
		return RVal{t: i.t, v: i.v}
	})
	reg("reflect.PtrTo reflect.PointerTo", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.m.rtypeIface(types.NewPointer(a[0].(Iface).v.(RType).t))
	})
	reg("reflect.SliceOf", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.m.rtypeIface(types.NewSlice(a[0].(Iface).v.(RType).t))
	})
	reg("reflect.New", func(fr *frame, fn *ssa.Function, a []Value) Value {
		t := a[0].(Iface).v.(RType).t
		p := new(Value)
		*p = fr.m.zero(t)
		return RVal{t: fr.m.canon(types.NewPointer(t)), v: p}
	})
	reg("reflect.Zero", func(fr *frame, fn *ssa.Function, a []Value) Value {
		t := a[0].(Iface).v.(RType).t
		return RVal{t: t, v: fr.m.zero(t)}
	})
	reg("reflect.Indirect", func(fr *frame, fn *ssa.Function, a []Value) Value {
		r := fr.m.rv(a[0])
		if r.t == nil || rkind(r.t) != reflect.Pointer {
			return r
		}
		p := fr.m.rvGet(r).(*Value)
		if p == nil {
			return RVal{}
		}
		return RVal{t: fr.m.canon(r.t.Underlying().(*types.Pointer).Elem()), addr: p}
	})
	reg("reflect.MakeSlice", func(fr *frame, fn *ssa.Function, a []Value) Value {
		t := a[0].(Iface).v.(RType).t
		n, c := fr.m.concInt(a[1]), fr.m.concInt(a[2])
		return RVal{t: t, v: Slice{a: fr.m.mkElems(t.Underlying().(*types.Slice).Elem(), n, c)}}
	})
	reg("reflect.MakeMap", func(fr *frame, fn *ssa.Function, a []Value) Value {
		t := a[0].(Iface).v.(RType).t
		mt := t.Underlying().(*types.Map)
		return RVal{t: t, v: fr.m.newMap(mt.Key(), mt.Elem())}
	})
	reg("reflect.Append", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		r := m.rvValid(a[0], "Append")
		et := r.t.Underlying().(*types.Slice).Elem()
		var add []Value
		for _, x := range a[1].(Slice).a {
			add = append(add, m.rvAssignTo(m.rv(x), et, "Append"))
		}
		return RVal{t: r.t, v: m.appendVals(m.rvGet(r).(Slice), add, et)}
	})
	reg("reflect.AppendSlice", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		r, t := m.rvValid(a[0], "AppendSlice"), m.rvValid(a[1], "AppendSlice")
		rt, ok := r.t.Underlying().(*types.Slice)
		tt, ok2 := t.t.Underlying().(*types.Slice)
		if !ok || !ok2 || !types.Identical(rt.Elem(), tt.Elem()) {
			m.goPanic("reflect.AppendSlice: not slices of one type")
		}
		var add []Value
		for _, x := range m.rvGet(t).(Slice).a {
			add = append(add, copyVal(x))
		}
		return RVal{t: r.t, v: m.appendVals(m.rvGet(r).(Slice), add, rt.Elem())}
	})
	swapper := func(fr *frame, fn *ssa.Function, a []Value) Value {
		s, ok := a[0].(Iface).v.(Slice)
		if !ok {
			fr.m.goPanic("reflect: call of Swapper on non-slice value")
		}
		return &Native{name: "swapper", f: func(fr *frame, args []Value) Value {
			m := fr.m
			i, j := m.concInt(args[0]), m.concInt(args[1])
			if i < 0 || j < 0 || i >= len(s.a) || j >= len(s.a) {
				m.goPanic("reflect: slice index out of range")
			}
			x, y := copyVal(m.load(&s.a[i])), copyVal(m.load(&s.a[j]))
			m.store(&s.a[i], y)
			m.store(&s.a[j], x)
			return nil
		}}
	}
	reg("reflect.Swapper internal/reflectlite.Swapper", swapper)
	reg("reflect.DeepEqual", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.m.deepEqual(a[0].(Iface), a[1].(Iface), 0)
	})

	// Type methods
	tm := func(name string, f func(m *Machine, t types.Type, a []Value) Value) {
		reg(T+name+" (internal/reflectlite.rtype)."+name, func(fr *frame, fn *ssa.Function, a []Value) Value {
			if _, ok := a[0].(RType); !ok {
				fr.m.nilDeref()
			}
			return f(fr.m, rt(a[0]), a[1:])
		})
	}
	tm("Kind", func(m *Machine, t types.Type, a []Value) Value { return m.mkInt(int(rkind(t))) })
	tm("String", func(m *Machine, t types.Type, a []Value) Value { return cstr(rtypeString(t)) })
	tm("Name", func(m *Machine, t types.Type, a []Value) Value {
		switch u := t.(type) {
		case *types.Named:
			s := rtypeString(u)
			if p := u.Obj().Pkg(); p != nil {
				s = strings.TrimPrefix(s, p.Name()+".")
			}
			return cstr(s)
		case *types.Basic:
			return cstr(u.Name())
		}
		return cstr("")
	})
	tm("PkgPath", func(m *Machine, t types.Type, a []Value) Value {
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return cstr(n.Obj().Pkg().Path())
		}
		return cstr("")
	})
	tm("Size", func(m *Machine, t types.Type, a []Value) Value { return m.mkInt(m.sh.sizeof(t)) })
	tm("Bits", func(m *Machine, t types.Type, a []Value) Value { return m.mkInt(8 * m.sh.sizeof(t)) })
	tm("Elem", func(m *Machine, t types.Type, a []Value) Value {
		switch u := t.Underlying().(type) {
		case interface{ Elem() types.Type }:
			return m.rtypeIface(u.Elem())
		}
		m.goPanic("reflect: Elem of invalid type " + rtypeString(t))
		return nil
	})
	tm("Key", func(m *Machine, t types.Type, a []Value) Value {
		if u, ok := t.Underlying().(*types.Map); ok {
			return m.rtypeIface(u.Key())
		}
		m.goPanic("reflect: Key of non-map type " + rtypeString(t))
		return nil
	})
	tm("Len", func(m *Machine, t types.Type, a []Value) Value {
		if u, ok := t.Underlying().(*types.Array); ok {
			return m.mkInt(int(u.Len()))
		}
		m.goPanic("reflect: Len of non-array type " + rtypeString(t))
		return nil
	})
	st := func(m *Machine, t types.Type) *types.Struct {
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			m.goPanic("reflect: field of non-struct type " + rtypeString(t))
		}
		return u
	}
	tm("NumField", func(m *Machine, t types.Type, a []Value) Value { return m.mkInt(st(m, t).NumFields()) })
	tm("NumMethod", func(m *Machine, t types.Type, a []Value) Value {
		n := 0
		ms := m.sh.prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return m.mkInt(n)
	})
	tm("MethodByName", func(m *Machine, t types.Type, a []Value) Value {
		mt := m.sh.byPath["reflect"].Type("Method").Type()
		sel, idx := m.methodByName(t, argStr(m, a[0]))
		if sel == nil {
			return Tuple{m.zero(mt), m.c.False}
		}
		f := RVal{}
		sg := sel.Type().(*types.Signature)
		if !types.IsInterface(t) {
			// the receiver is the first parameter
			ps := []*types.Var{types.NewParam(0, nil, "", t)}
			for i := 0; i < sg.Params().Len(); i++ {
				ps = append(ps, sg.Params().At(i))
			}
			sg = types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), sg.Results(), sg.Variadic())
			f = RVal{t: m.canon(sg), v: m.sh.prog.MethodValue(sel)}
		}
		return Tuple{Structure{cstr(sel.Obj().Name()), cstr(""), m.rtypeIface(m.canon(sg)), f, m.mkInt(idx)}, m.c.True}
	})
	tm("Field", func(m *Machine, t types.Type, a []Value) Value {
		u := st(m, t)
		i := m.concInt(a[0])
		if i < 0 || i >= u.NumFields() {
			m.goPanic("reflect: Field index out of bounds")
		}
		return m.structField(u, i)
	})
	tm("FieldByName", func(m *Machine, t types.Type, a []Value) Value {
		u := st(m, t)
		s := argStr(m, a[0])
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == s {
				return Tuple{m.structField(u, i), m.c.True}
			}
		}
		return Tuple{m.zero(m.sh.byPath["reflect"].Type("StructField").Type()), m.c.False}
	})
	tm("AssignableTo", func(m *Machine, t types.Type, a []Value) Value {
		return m.c.Bool(types.AssignableTo(t, a[0].(Iface).v.(RType).t))
	})
	tm("ConvertibleTo", func(m *Machine, t types.Type, a []Value) Value {
		return m.c.Bool(types.ConvertibleTo(t, a[0].(Iface).v.(RType).t))
	})
	tm("Implements", func(m *Machine, t types.Type, a []Value) Value {
		return m.c.Bool(types.Implements(t, a[0].(Iface).v.(RType).t.Underlying().(*types.Interface)))
	})
	tm("Comparable", func(m *Machine, t types.Type, a []Value) Value { return m.c.Bool(types.Comparable(t)) })
	sig := func(m *Machine, t types.Type) *types.Signature {
		u, ok := t.Underlying().(*types.Signature)
		if !ok {
			m.goPanic("reflect: not a function type " + rtypeString(t))
		}
		return u
	}
	tm("NumIn", func(m *Machine, t types.Type, a []Value) Value { return m.mkInt(sig(m, t).Params().Len()) })
	tm("NumOut", func(m *Machine, t types.Type, a []Value) Value { return m.mkInt(sig(m, t).Results().Len()) })
	tm("In", func(m *Machine, t types.Type, a []Value) Value {
		return m.rtypeIface(sig(m, t).Params().At(m.concInt(a[0])).Type())
	})
	tm("Out", func(m *Machine, t types.Type, a []Value) Value {
		return m.rtypeIface(sig(m, t).Results().At(m.concInt(a[0])).Type())
	})

	reg("(reflect.Kind).String", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return cstr(reflect.Kind(fr.m.concInt(a[0])).String())
	})

	// Value methods
	vm := func(name string, f func(m *Machine, r RVal, a []Value) Value) {
		reg(V+name+" (internal/reflectlite.Value)."+name, func(fr *frame, fn *ssa.Function, a []Value) Value {
			return f(fr.m, fr.m.rvValid(a[0], name), a[1:])
		})
	}
	reg(V+"IsValid", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.m.c.Bool(fr.m.rv(a[0]).t != nil) })
	reg(V+"Kind", func(fr *frame, fn *ssa.Function, a []Value) Value {
		r := fr.m.rv(a[0])
		if r.t == nil {
			return fr.m.mkInt(0)
		}
		return fr.m.mkInt(int(rkind(r.t)))
	})
	reg(V+"String", func(fr *frame, fn *ssa.Function, a []Value) Value {
		r := fr.m.rv(a[0])
		if r.t == nil {
			return cstr("<invalid Value>")
		}
		if rkind(r.t) == reflect.String {
			return fr.m.rvGet(r)
		}
		return cstr("<" + rtypeString(r.t) + " Value>")
	})
	vm("Type", func(m *Machine, r RVal, a []Value) Value { return m.rtypeIface(r.t) })
	vm("CanSet", func(m *Machine, r RVal, a []Value) Value { return m.c.Bool(r.addr != nil && !r.ro) })
	vm("CanAddr", func(m *Machine, r RVal, a []Value) Value { return m.c.Bool(r.addr != nil) })
	vm("CanInterface", func(m *Machine, r RVal, a []Value) Value { return m.c.Bool(!r.ro) })
	vm("Addr", func(m *Machine, r RVal, a []Value) Value {
		if r.addr == nil {
			m.goPanic("reflect.Value.Addr of unaddressable value")
		}
		return RVal{t: m.canon(types.NewPointer(r.t)), v: r.addr, ro: r.ro}
	})
	vm("Elem", func(m *Machine, r RVal, a []Value) Value {
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			p, _ := m.rvGet(r).(*Value)
			if p == nil {
				return RVal{}
			}
			return RVal{t: m.canon(u.Elem()), addr: p, ro: r.ro}
		case *types.Interface:
			i := m.rvGet(r).(Iface)
			if i.t == nil {
				return RVal{}
			}
			return RVal{t: i.t, v: i.v, ro: r.ro}
		}
		m.goPanic("reflect: call of reflect.Value.Elem on " + rkind(r.t).String() + " Value")
		return nil
	})
	vm("Interface", func(m *Machine, r RVal, a []Value) Value {
		if r.ro {
			m.goPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return m.rvIface(r)
	})
	vm("IsNil", func(m *Machine, r RVal, a []Value) Value {
		if !isNilable(rkind(r.t)) {
			m.goPanic("reflect: call of reflect.Value.IsNil on " + rkind(r.t).String() + " Value")
		}
		return m.c.Bool(isNilVal(m.rvGet(r)))
	})
	vm("IsZero", func(m *Machine, r RVal, a []Value) Value { return m.rvIsZero(r.t, m.rvGet(r)) })
	vm("Set", func(m *Machine, r RVal, a []Value) Value {
		if r.addr == nil || r.ro {
			m.goPanic("reflect: reflect.Value.Set using unaddressable value")
		}
		x := m.rvValid(a[0], "Set")
		m.store(r.addr, m.rvAssignTo(x, r.t, "Set"))
		return nil
	})
	num := func(name string, ok func(t types.Type) bool, to types.BasicKind) {
		vm(name, func(m *Machine, r RVal, a []Value) Value {
			if !ok(r.t) {
				m.goPanic("reflect: call of reflect.Value." + name + " on " + rkind(r.t).String() + " Value")
			}
			return m.conv(types.Typ[to], r.t, m.rvGet(r))
		})
	}
	num("Int", func(t types.Type) bool { k := rkind(t); return k >= reflect.Int && k <= reflect.Int64 }, types.Int64)
	num("Uint", func(t types.Type) bool { k := rkind(t); return k >= reflect.Uint && k <= reflect.Uintptr }, types.Uint64)
	num("Float", isFloat, types.Float64)
	num("Bool", isBool, types.Bool)
	set := func(name string, ok func(t types.Type) bool, from types.BasicKind) {
		vm(name, func(m *Machine, r RVal, a []Value) Value {
			if !ok(r.t) || r.addr == nil || r.ro {
				m.goPanic("reflect: call of reflect.Value." + name + " on " + rkind(r.t).String() + " Value")
			}
			m.store(r.addr, m.conv(r.t, types.Typ[from], a[0]))
			return nil
		})
	}
	set("SetInt", func(t types.Type) bool { k := rkind(t); return k >= reflect.Int && k <= reflect.Int64 }, types.Int64)
	set("SetUint", func(t types.Type) bool { k := rkind(t); return k >= reflect.Uint && k <= reflect.Uintptr }, types.Uint64)
	set("SetFloat", isFloat, types.Float64)
	set("SetBool", isBool, types.Bool)
	set("SetString", isString, types.String)
	vm("Len", func(m *Machine, r RVal, a []Value) Value {
		switch v := m.rvGet(r).(type) {
		case Slice:
			return m.mkInt(len(v.a))
		case Array:
			return m.mkInt(len(v))
		case Str:
			return m.mkInt(v.len())
		case *Map:
			if v == nil {
				return m.mkInt(0)
			}
			return m.mkInt(v.live)
		}
		m.goPanic("reflect: call of reflect.Value.Len on " + rkind(r.t).String() + " Value")
		return nil
	})
	vm("Cap", func(m *Machine, r RVal, a []Value) Value {
		if v, ok := m.rvGet(r).(Slice); ok {
			return m.mkInt(cap(v.a))
		}
		m.unsupported("reflect.Value.Cap")
		return nil
	})
	vm("Index", func(m *Machine, r RVal, a []Value) Value {
		i := m.concInt(a[0])
		bad := func(n int) {
			if i < 0 || i >= n {
				m.goPanic("reflect: slice index out of range")
			}
		}
		x := r.v
		if r.addr != nil {
			x = *r.addr
		}
		switch v := x.(type) {
		case Slice:
			bad(len(v.a))
			return RVal{t: m.canon(r.t.Underlying().(*types.Slice).Elem()), addr: &v.a[i], ro: r.ro}
		case Array:
			bad(len(v))
			e := m.canon(r.t.Underlying().(*types.Array).Elem())
			if r.addr != nil {
				return RVal{t: e, addr: &v[i], ro: r.ro}
			}
			return RVal{t: e, v: v[i], ro: r.ro}
		case Str:
			bad(v.len())
			return RVal{t: m.canon(types.Typ[types.Uint8]), v: m.strBytes(v)[i], ro: r.ro}
		}
		m.goPanic("reflect: call of reflect.Value.Index on " + rkind(r.t).String() + " Value")
		return nil
	})
	vm("Slice", func(m *Machine, r RVal, a []Value) Value {
		i, j := m.concInt(a[0]), m.concInt(a[1])
		bad := func(n int) {
			if i < 0 || j < i || j > n {
				m.goPanic("reflect.Value.Slice: slice index out of bounds")
			}
		}
		x := r.v
		if r.addr != nil {
			x = *r.addr
		}
		switch v := x.(type) {
		case Slice:
			bad(cap(v.a))
			return RVal{t: r.t, v: Slice{a: v.a[i:j], nil_: v.nil_}, ro: r.ro}
		case Array:
			if r.addr == nil {
				m.goPanic("reflect.Value.Slice: slice of unaddressable array")
			}
			bad(len(v))
			return RVal{t: m.canon(types.NewSlice(r.t.Underlying().(*types.Array).Elem())), v: Slice{a: v[i:j]}, ro: r.ro}
		case Str:
			bad(v.len())
			return RVal{t: r.t, v: m.substr(v, i, j), ro: r.ro}
		}
		m.goPanic("reflect: call of reflect.Value.Slice on " + rkind(r.t).String() + " Value")
		return nil
	})
	vm("SetLen", func(m *Machine, r RVal, a []Value) Value {
		n := m.concInt(a[0])
		if r.addr == nil || r.ro {
			m.goPanic("reflect: reflect.Value.SetLen using unaddressable value")
		}
		v, ok := m.rvGet(r).(Slice)
		if !ok || n < 0 || n > cap(v.a) {
			m.goPanic("reflect: slice length out of range in SetLen")
		}
		m.store(r.addr, Slice{a: v.a[:n], nil_: v.nil_})
		return nil
	})
	vm("SetZero", func(m *Machine, r RVal, a []Value) Value {
		if r.addr == nil || r.ro {
			m.goPanic("reflect: reflect.Value.SetZero using unaddressable value")
		}
		m.store(r.addr, m.zero(r.t))
		return nil
	})
	kinds := func(name string, lo, hi reflect.Kind) {
		vm(name, func(m *Machine, r RVal, a []Value) Value { k := rkind(r.t); return m.c.Bool(k >= lo && k <= hi) })
	}
	kinds("CanInt", reflect.Int, reflect.Int64)
	kinds("CanUint", reflect.Uint, reflect.Uintptr)
	kinds("CanFloat", reflect.Float32, reflect.Float64)
	over := func(name string, ok func(k reflect.Kind) bool, from types.BasicKind) {
		vm(name, func(m *Machine, r RVal, a []Value) Value {
			if !ok(rkind(r.t)) {
				m.goPanic("reflect: call of reflect.Value." + name + " on " + rkind(r.t).String() + " Value")
			}
			back := m.conv(types.Typ[from], r.t, m.conv(r.t, types.Typ[from], a[0]))
			return m.c.Not(m.equals(types.Typ[from], back, a[0]))
		})
	}
	over("OverflowInt", func(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Int64 }, types.Int64)
	over("OverflowUint", func(k reflect.Kind) bool { return k >= reflect.Uint && k <= reflect.Uintptr }, types.Uint64)
	vm("OverflowFloat", func(m *Machine, r RVal, a []Value) Value {
		if k := rkind(r.t); k == reflect.Float64 {
			return m.c.False
		} else if k != reflect.Float32 {
			m.goPanic("reflect: call of reflect.Value.OverflowFloat on " + k.String() + " Value")
		}
		x := a[0].(*Term)
		in := func(y *Term) *Term {
			return m.c.And(m.c.FCmp(OFLt, m.c.F64(math.MaxFloat32), y), m.c.FCmp(OFLe, y, m.c.F64(math.MaxFloat64)))
		}
		return m.c.Or(in(x), in(m.c.FUn(OFNeg, x, 0)))
	})
	vm("NumField", func(m *Machine, r RVal, a []Value) Value { return m.mkInt(st(m, r.t).NumFields()) })
	field := func(m *Machine, r RVal, i int) Value {
		u := st(m, r.t)
		if i < 0 || i >= u.NumFields() {
			m.goPanic("reflect: Field index out of range")
		}
		f := u.Field(i)
		v := r.v
		if r.addr != nil {
			v = *r.addr
		}
		s, ok := v.(Structure)
		if !ok {
			m.unsupported("reflect field of modelled struct %s", r.t)
		}
		ro := r.ro || !f.Exported()
		if r.addr != nil {
			return RVal{t: m.canon(f.Type()), addr: &s[i], ro: ro}
		}
		return RVal{t: m.canon(f.Type()), v: s[i], ro: ro}
	}
	vm("Field", func(m *Machine, r RVal, a []Value) Value { return field(m, r, m.concInt(a[0])) })
	vm("FieldByName", func(m *Machine, r RVal, a []Value) Value {
		u := st(m, r.t)
		s := argStr(m, a[0])
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == s {
				return field(m, r, i)
			}
		}
		return RVal{}
	})
	vm("FieldByIndex", func(m *Machine, r RVal, a []Value) Value {
		for _, x := range a[0].(Slice).a {
			r = field(m, r, m.concInt(x)).(RVal)
		}
		return r
	})
	vm("Convert", func(m *Machine, r RVal, a []Value) Value {
		return m.rvConvert(r, a[0].(Iface).v.(RType).t)
	})
	vm("CanConvert", func(m *Machine, r RVal, a []Value) Value {
		return m.c.Bool(types.ConvertibleTo(r.t, a[0].(Iface).v.(RType).t))
	})
	vm("MapIndex", func(m *Machine, r RVal, a []Value) Value {
		mt, ok := r.t.Underlying().(*types.Map)
		if !ok {
			m.goPanic("reflect: call of reflect.Value.MapIndex on " + rkind(r.t).String() + " Value")
		}
		k := m.rvAssignTo(m.rvValid(a[0], "MapIndex"), mt.Key(), "Value.MapIndex")
		v, ok := m.mapLookup(m.rvGet(r).(*Map), k)
		if !ok {
			return RVal{}
		}
		return RVal{t: m.canon(mt.Elem()), v: copyVal(v)}
	})
	vm("SetMapIndex", func(m *Machine, r RVal, a []Value) Value {
		mt := r.t.Underlying().(*types.Map)
		k := m.rvAssignTo(m.rvValid(a[0], "SetMapIndex"), mt.Key(), "Value.SetMapIndex")
		mp := m.rvGet(r).(*Map)
		e := m.rv(a[1])
		if e.t == nil {
			m.mapDelete(mp, k)
		} else {
			m.mapUpdate(mp, k, m.rvAssignTo(e, mt.Elem(), "Value.SetMapIndex"))
		}
		return nil
	})
	vm("MapKeys", func(m *Machine, r RVal, a []Value) Value {
		mt := r.t.Underlying().(*types.Map)
		mp := m.rvGet(r).(*Map)
		ks := []Value{}
		if mp != nil {
			it := m.newMapIter(mp)
			for {
				t := it.next(m)
				if t[0].(*Term).IsFalse() {
					break
				}
				ks = append(ks, RVal{t: m.canon(mt.Key()), v: copyVal(t[1])})
			}
		}
		return Slice{a: ks}
	})
	vm("MapRange", func(m *Machine, r RVal, a []Value) Value {
		mt, ok := r.t.Underlying().(*types.Map)
		if !ok {
			m.goPanic("reflect: call of reflect.Value.MapRange on " + rkind(r.t).String() + " Value")
		}
		p := new(Value)
		*p = &rMapIter{mt: mt, it: m.newMapIter(m.rvGet(r).(*Map))}
		return p
	})
	mi := func(m *Machine, v Value) *rMapIter {
		p := v.(*Value)
		return (*p).(*rMapIter)
	}
	reg("(*reflect.MapIter).Next", func(fr *frame, fn *ssa.Function, a []Value) Value {
		it := mi(fr.m, a[0])
		it.cur = it.it.next(fr.m)
		return it.cur[0]
	})
	reg("(*reflect.MapIter).Key", func(fr *frame, fn *ssa.Function, a []Value) Value {
		it := mi(fr.m, a[0])
		return RVal{t: fr.m.canon(it.mt.Key()), v: copyVal(it.cur[1])}
	})
	reg("(*reflect.MapIter).Value", func(fr *frame, fn *ssa.Function, a []Value) Value {
		it := mi(fr.m, a[0])
		return RVal{t: fr.m.canon(it.mt.Elem()), v: copyVal(it.cur[2])}
	})
	vm("Pointer", func(m *Machine, r RVal, a []Value) Value {
		v := m.rvGet(r)
		if isNilVal(v) {
			return m.mkInt(0)
		}
		return m.mkInt(m.funcID(v))
	})
	vm("UnsafePointer", func(m *Machine, r RVal, a []Value) Value {
		m.unsupported("reflect.Value.UnsafePointer")
		return nil
	})
	vm("MethodByName", func(m *Machine, r RVal, a []Value) Value {
		sel, _ := m.methodByName(r.t, argStr(m, a[0]))
		if sel == nil {
			return RVal{}
		}
		if types.IsInterface(r.t) {
			m.unsupported("reflect.Value.MethodByName of an interface")
		}
		fn, recv := m.sh.prog.MethodValue(sel), copyVal(m.rvGet(r))
		sg := sel.Type().(*types.Signature)
		sg = types.NewSignatureType(nil, nil, nil, sg.Params(), sg.Results(), sg.Variadic())
		return RVal{t: m.canon(sg), ro: r.ro, v: &Native{sel.Obj().Name(), func(fr *frame, args []Value) Value {
			return fr.m.call(fr.caller, fr.g, fn, append([]Value{recv}, args...))
		}}}
	})
	vm("Call", func(m *Machine, r RVal, a []Value) Value {
		sg := r.t.Underlying().(*types.Signature)
		var args []Value
		for i, x := range a[0].(Slice).a {
			args = append(args, m.rvAssignTo(m.rv(x), sg.Params().At(i).Type(), "Value.Call"))
		}
		res := m.call(nil, m.curG(), m.rvGet(r), args)
		out := []Value{}
		switch n := sg.Results().Len(); n {
		case 0:
		case 1:
			out = append(out, RVal{t: m.canon(sg.Results().At(0).Type()), v: res})
		default:
			for i, x := range res.(Tuple) {
				out = append(out, RVal{t: m.canon(sg.Results().At(i).Type()), v: x})
			}
		}
		return Slice{a: out}
	})
}

// methodByName is the exported method of a type, with its index among the exported methods in order of name.
func (m *Machine) methodByName(t types.Type, name string) (*types.Selection, int) {
	ms := m.sh.prog.MethodSets.MethodSet(t)
	var (
		sel *types.Selection
		idx int
	)
	for i := 0; i < ms.Len(); i++ {
		if o := ms.At(i).Obj(); o.Exported() {
			if o.Name() == name {
				sel = ms.At(i)
			} else if o.Name() < name {
				idx++
			}
		}
	}
	return sel, idx
}

type rMapIter struct {
	mt  *types.Map
	it  *mapIter
	cur Tuple
}

// funcID is the code or data address of a pointer shaped value, as %p shows it: closures made by the same literal share it.
func (m *Machine) funcID(v Value) int {
	switch v := v.(type) {
	case *Closure:
		return m.ptrID(v.Fn)
	case *ssa.Function:
		return m.ptrID(v)
	case Slice:
		if cap(v.a) == 0 {
			return m.ptrID(m)
		}
		return m.ptrID(&v.a[:1][0])
	}
	return m.ptrID(v)
}

func (m *Machine) deepEqual(x, y Iface, d int) Value {
	if d > 20 {
		m.unsupported("deep DeepEqual")
	}
	if x.t == nil || y.t == nil {
		return m.c.Bool(x.t == nil && y.t == nil)
	}
	if x.t != y.t {
		return m.c.False
	}
	return m.deepEq(x.t, x.v, y.v, d)
}

func (m *Machine) deepEq(t types.Type, x, y Value, d int) *Term {
	if d > 20 {
		m.unsupported("deep DeepEqual")
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		a, b := x.(Slice), y.(Slice)
		if (a.nil_) != (b.nil_) || len(a.a) != len(b.a) {
			return m.c.False
		}
		r := m.c.True
		for i := range a.a {
			r = m.c.And(r, m.deepEq(u.Elem(), a.a[i], b.a[i], d+1))
		}
		return r
	case *types.Array:
		a, b := x.(Array), y.(Array)
		r := m.c.True
		for i := range a {
			r = m.c.And(r, m.deepEq(u.Elem(), a[i], b[i], d+1))
		}
		return r
	case *types.Struct:
		a, ok1 := x.(Structure)
		b, ok2 := y.(Structure)
		if !ok1 || !ok2 {
			m.unsupported("DeepEqual of %s", t)
		}
		r := m.c.True
		for i := range a {
			r = m.c.And(r, m.deepEq(u.Field(i).Type(), a[i], b[i], d+1))
		}
		return r
	case *types.Interface:
		return m.deepEqual(x.(Iface), y.(Iface), d+1).(*Term)
	case *types.Pointer:
		a, b := x.(*Value), y.(*Value)
		if a == b {
			return m.c.True
		}
		if a == nil || b == nil {
			return m.c.False
		}
		return m.deepEq(u.Elem(), *a, *b, d+1)
	case *types.Map:
		a, b := x.(*Map), y.(*Map)
		if a == b {
			return m.c.True
		}
		if a == nil || b == nil || a.live != b.live {
			return m.c.False
		}
		r := m.c.True
		for _, e := range a.ents {
			if e.dead {
				continue
			}
			v, ok := m.mapLookup(b, e.k)
			if !ok {
				return m.c.False
			}
			r = m.c.And(r, m.deepEq(u.Elem(), e.v, v, d+1))
		}
		return r
	case *types.Signature:
		return m.c.Bool(isNilVal(x) && isNilVal(y))
	}
	return m.equals(t, x, y)
}
