package main

// fmt, strconv, sync, sync/atomic, unicode helpers.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"
	"sync"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// concArg turns a concrete interpreted value into a Go value fmt formats the same way; ok is false when that is not possible.
func (m *Machine) concArg(i Iface) (interface{}, bool) {
	if i.t == nil {
		return nil, true
	}
	if rv, ok := i.v.(RVal); ok {
		if rv.t == nil {
			return nil, false
		}
		return m.concArg(m.rvIface(rv))
	}
	if rt, ok := i.v.(RType); ok {
		return fmtString(rtypeString(rt.t)), true
	}
	for _, meth := range []string{"Error", "String"} {
		if f := m.findMethod(i.t, meth); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && isString(f.Signature.Results().At(0).Type()) {
			if p, ok := i.v.(*Value); ok && p == nil {
				return fmtString("<nil>"), true
			}
			s, ok := m.call(nil, m.curG(), f, []Value{copyVal(i.v)}).(Str)
			if !ok || s.t != nil || s.opaque {
				return nil, false
			}
			return fmtString(s.s), true
		}
	}
	switch b := i.t.Underlying().(type) {
	case *types.Basic:
		switch v := i.v.(type) {
		case Str:
			if v.t != nil || v.opaque {
				return nil, false
			}
			return v.s, true
		case *Term:
			if !v.IsConst() {
				return nil, false
			}
			switch b.Kind() {
			case types.Bool:
				return v.u == 1, true
			case types.Float32:
				return float32(v.f64()), true
			case types.Float64:
				return v.f64(), true
			case types.Int, types.Int8, types.Int16, types.Int64:
				n, _ := cint(v)
				return n, true
			case types.Int32:
				n, _ := cint(v)
				return int32(n), true
			case types.Uint8:
				n, _ := cuint(v)
				return uint8(n), true
			default:
				n, _ := cuint(v)
				return n, true
			}
		}
	case *types.Slice:
		s := i.v.(Slice)
		r := make([]interface{}, len(s.a))
		for k, x := range s.a {
			e, ok := m.elemIface(b.Elem(), x)
			if !ok {
				return nil, false
			}
			if r[k], ok = m.concArg(e); !ok {
				return nil, false
			}
		}
		return r, true
	}
	return nil, false
}

type fmtString string

func (s fmtString) String() string { return string(s) }

func (m *Machine) elemIface(t types.Type, v Value) (Iface, bool) {
	if i, ok := v.(Iface); ok {
		return i, true
	}
	return Iface{t: m.canon(t), v: v}, true
}

// sprintf renders a format; opaque when an argument is symbolic or not simple. Simple %s and %d verbs with symbolic
// string arguments are rendered exactly.
func (m *Machine) sprintf(format Str, args []Value) Str {
	if format.t != nil || format.opaque {
		return Str{s: "?", opaque: true}
	}
	res := Str{}
	f := format.s
	ai := 0
	for f != "" {
		k := strings.IndexByte(f, '%')
		if k < 0 {
			res = m.concat(res, cstr(f))
			break
		}
		res = m.concat(res, cstr(f[:k]))
		f = f[k:]
		// verb
		n := 1
		for n < len(f) && strings.IndexByte("+-# 0123456789.*", f[n]) >= 0 {
			if f[n] == '*' && ai < len(args) {
				// the width or precision is an argument
				x, ok := args[ai].(Iface).v.(*Term)
				if !ok {
					return Str{s: "?", opaque: true}
				}
				ai++
				f = f[:n] + strconv.Itoa(m.concInt(x)) + f[n+1:]
			}
			n++
		}
		if n >= len(f) {
			res = m.concat(res, cstr("%!(NOVERB)"))
			break
		}
		verb := f[:n+1]
		f = f[n+1:]
		if verb == "%%" {
			res = m.concat(res, cstr("%"))
			continue
		}
		if ai >= len(args) {
			res = m.concat(res, cstr("%!"+verb[len(verb)-1:]+"(MISSING)"))
			continue
		}
		a := args[ai].(Iface)
		ai++
		v := verb[len(verb)-1]
		if v == 'T' {
			if a.t == nil {
				res = m.concat(res, cstr("<nil>"))
			} else {
				res = m.concat(res, cstr(rtypeString(a.t)))
			}
			continue
		}
		if v == 'p' {
			res = m.concat(res, cstr(fmt.Sprintf("0x%x", m.funcID(a.v))))
			continue
		}
		if v == 'w' {
			verb = verb[:len(verb)-1] + "v"
		}
		if s, ok := a.v.(Str); ok && (verb == "%s" || verb == "%v") && a.t != nil && m.findMethod(a.t, "String") == nil && m.findMethod(a.t, "Error") == nil {
			res = m.concat(res, s)
			continue
		}
		if cv, ok := m.concArg(a); ok {
			res = m.concat(res, cstr(fmt.Sprintf(verb, cv)))
			continue
		}
		if x, ok := a.v.(*Term); ok && a.t != nil && isBool(a.t) && (verb == "%t" || verb == "%v" && m.findMethod(a.t, "String") == nil && m.findMethod(a.t, "Error") == nil) {
			res = m.concat(res, cstr(strconv.FormatBool(m.p.branch(x))))
			continue
		}
		if x, ok := a.v.(*Term); ok && a.t != nil && isInt(a.t) && (v == 'x' || v == 'X') {
			if h, ok := m.fmtHex(x, a.t, verb); ok {
				res = m.concat(res, h)
				continue
			}
		}
		if x, ok := a.v.(*Term); ok && a.t != nil && isInt(a.t) && verb == "%c" {
			res = m.concat(res, m.conv(types.Typ[types.String], a.t, x).(Str))
			continue
		}
		if x, ok := a.v.(*Term); ok && a.t != nil && isInt(a.t) && v == 'd' && len(verb) > 2 {
			if h, ok := m.fmtPad(x, a.t, verb[1:len(verb)-1]); ok {
				res = m.concat(res, h)
				continue
			}
		}
		part := Str{s: "?", opaque: true}
		if x, ok := a.v.(*Term); ok && a.t != nil && isInt(a.t) && (verb == "%d" || verb == "%v") && (verb == "%d" || m.findMethod(a.t, "String") == nil && m.findMethod(a.t, "Error") == nil) {
			part.src = m.toInt(x, a.t)
		}
		res = m.concat(res, part)
	}
	if ai < len(args) {
		res = m.concat(res, cstr("%!(EXTRA)"))
	}
	return res
}

// fmtHex renders a symbolic integer that is not negative for %x, %X and their forms with a zero padded width.
func (m *Machine) fmtHex(x *Term, t types.Type, verb string) (Str, bool) {
	width, flags := 0, verb[1:len(verb)-1]
	if flags != "" {
		n, err := strconv.Atoi(flags)
		if err != nil || flags[0] != '0' {
			return Str{}, false
		}
		width = n
	}
	w, signed := intInfo(t)
	k := func(v int64) *Term { return m.mkIntW(v, w) }
	sh := func(n int) *Term { return m.shift(token.SHR, t, types.Typ[types.Uint8], x, m.mkIntW(int64(n), 8)) }
	if signed && m.branchOrConst(m.cmpInt(token.LSS, t, x, k(0))) {
		return Str{}, false
	}
	n, max := 1, w/4
	for n < max && !m.branchOrConst(m.cmpInt(token.LSS, t, sh(4*n), k(1))) {
		n++
	}
	u8 := types.Typ[types.Uint8]
	letter := int64('a' - 10)
	if verb[len(verb)-1] == 'X' {
		letter = 'A' - 10
	}
	var ts []*Term
	for i := n; i < width; i++ {
		ts = append(ts, m.mkIntW('0', 8))
	}
	for i := n - 1; i >= 0; i-- {
		d := x
		if i > 0 {
			d = sh(4 * i)
		}
		d = m.convInt(m.intBin(token.REM, t, d, k(16)), t, u8)
		ts = append(ts, m.c.Ite(m.cmpInt(token.LSS, u8, d, m.mkIntW(10, 8)), m.intBin(token.ADD, u8, d, m.mkIntW('0', 8)), m.intBin(token.ADD, u8, d, m.mkIntW(letter, 8))))
	}
	return normStr(ts), true
}

// fmtPad renders a symbolic integer for %Nd, %0Nd and %-Nd.
func (m *Machine) fmtPad(x *Term, t types.Type, flags string) (Str, bool) {
	zero, left := flags[0] == '0', flags[0] == '-'
	width, err := strconv.Atoi(strings.TrimLeft(flags, "-0"))
	if err != nil || zero && left {
		return Str{}, false
	}
	d := m.decimalStr(m.toInt(x, t))
	n := width - d.len()
	switch {
	case n <= 0:
		return d, true
	case left:
		return m.concat(d, cstr(strings.Repeat(" ", n))), true
	case !zero:
		return m.concat(cstr(strings.Repeat(" ", n)), d), true
	}
	if _, signed := intInfo(t); signed && m.branchOrConst(m.cmpInt(token.LSS, t, x, m.convInt(m.mkInt(0), types.Typ[types.Int], t))) {
		bs := m.strBytes(d)
		return m.concat(cstr("-"+strings.Repeat("0", n)), normStr(bs[1:])), true
	}
	return m.concat(cstr(strings.Repeat("0", n)), d), true
}

func (m *Machine) sprint(args []Value) Str {
	res := Str{}
	for k, x := range args {
		a := x.(Iface)
		if k > 0 {
			_, s1 := a.v.(Str)
			_, s2 := args[k-1].(Iface).v.(Str)
			if !s1 && !s2 {
				res = m.concat(res, cstr(" "))
			}
		}
		res = m.concat(res, m.sprintf(cstr("%v"), []Value{x}))
	}
	return res
}

func (m *Machine) namedStruct(pkg, name string, fields ...Value) Iface {
	t := m.sh.byPath[pkg].Type(name).Type()
	v := new(Value)
	*v = Structure(fields)
	return Iface{t: m.canon(types.NewPointer(t)), v: v}
}

func init() {
	va := func(v Value) []Value { return v.(Slice).a }
	reg("fmt.Sprintf", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.m.sprintf(a[0].(Str), va(a[1])) })
	reg("fmt.Sprint", func(fr *frame, fn *ssa.Function, a []Value) Value { return fr.m.sprint(va(a[0])) })
	reg("fmt.Sprintln", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.m.concat(fr.m.sprint(va(a[0])), cstr("\n"))
	})
	reg("fmt.Errorf", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		args := va(a[1])
		msg := m.sprintf(a[0].(Str), args)
		if f := a[0].(Str); f.t == nil && strings.Contains(f.s, "%w") {
			ai := 0
			var wrapped []Value
			for i := 0; i < len(f.s); i++ {
				if f.s[i] != '%' {
					continue
				}
				i++
				for i < len(f.s) && strings.IndexByte("+-# 0123456789.", f.s[i]) >= 0 {
					i++
				}
				if i < len(f.s) && f.s[i] == '%' {
					continue
				}
				if i < len(f.s) && f.s[i] == 'w' && ai < len(args) {
					wrapped = append(wrapped, args[ai])
				}
				ai++
			}
			switch len(wrapped) {
			case 0:
			case 1:
				return m.namedStruct("fmt", "wrapError", msg, wrapped[0])
			default:
				return m.namedStruct("fmt", "wrapErrors", msg, Slice{a: wrapped})
			}
		}
		return m.ifaceErr(msg)
	})
	interp("(*fmt.wrapError).Error (*fmt.wrapError).Unwrap (*fmt.wrapErrors).Error (*fmt.wrapErrors).Unwrap")
	reg("fmt.Println fmt.Printf fmt.Print", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return Tuple{fr.m.mkInt(0), Iface{}}
	})
	reg("fmt.Fprintf", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.m.writeTo(fr, a[0].(Iface), fr.m.sprintf(a[1].(Str), va(a[2])))
	})
	reg("fmt.Fprint", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.m.writeTo(fr, a[0].(Iface), fr.m.sprint(va(a[1])))
	})
	reg("fmt.Fprintln", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.m.writeTo(fr, a[0].(Iface), fr.m.concat(fr.m.sprint(va(a[1])), cstr("\n")))
	})

	// strconv
	fint := func(signed bool, t types.BasicKind) intrFn {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			m := fr.m
			x := a[0].(*Term)
			base := 10
			if len(a) > 1 {
				base = m.concInt(a[1])
			}
			if x.IsConst() {
				if signed {
					n, _ := cint(x)
					return cstr(strconv.FormatInt(n, base))
				}
				n, _ := cuint(x)
				return cstr(strconv.FormatUint(n, base))
			}
			if m.opt.opaque && base == 10 {
				return Str{s: "?", opaque: true, src: m.toInt(x, types.Typ[t])}
			}
			if base == 16 {
				// fmtHex wants a value that is not negative
				if h, ok := m.fmtHex(x, types.Typ[t], "%x"); ok {
					return h
				}
			}
			if base != 10 {
				return m.radixStr(m.toInt(x, types.Typ[t]), int64(base))
			}
			return m.decimalStr(m.toInt(x, types.Typ[t]))
		}
	}
	reg("strconv.FormatInt strconv.Itoa", fint(true, types.Int64))
	reg("strconv.FormatUint", fint(false, types.Uint64))
	reg("strconv.FormatFloat", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		x := a[0].(*Term)
		if !x.IsConst() {
			if prec, ok := cint(a[2].(*Term)); ok && prec < 0 {
				bits := m.concInt(a[3])
				if bits == 32 {
					x = m.fpConv(m.fpConv(x, 32), 64)
				}
				return Str{s: "?", opaque: true, flt: x, fbits: bits}
			}
			return Str{s: "?", opaque: true}
		}
		f, _ := cuint(a[1].(*Term))
		return cstr(strconv.FormatFloat(x.f64(), byte(f), m.concInt(a[2]), m.concInt(a[3])))
	})
	reg("strconv.ParseFloat", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		if s := a[0].(Str); s.opaque && s.flt != nil && s.fbits == m.concInt(a[1]) {
			return Tuple{s.flt, Iface{}}
		}
		s := m.plain(a[0])
		if s.t != nil {
			m.unsupported("ParseFloat of symbolic text")
		}
		f, err := strconv.ParseFloat(s.s, m.concInt(a[1]))
		e := Iface{}
		if err != nil {
			e = m.ifaceErr(cstr(err.Error()))
		}
		return Tuple{m.c.F64(f), e}
	})
	// ParseInt and ParseUint are interpreted from source, except for the error values
	reg("strconv.syntaxError strconv.rangeError strconv.baseError strconv.bitSizeError", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		t := m.sh.byPath["strconv"].Type("NumError").Type()
		name := "ErrSyntax"
		if strings.HasPrefix(fn.Name(), "range") {
			name = "ErrRange"
		}
		g := m.global(m.sh.byPath["strconv"].Var(name))
		v := new(Value)
		*v = Structure{a[0], a[1], *g}
		if t.Underlying().(*types.Struct).NumFields() != 3 {
			m.unsupported("strconv.NumError layout")
		}
		p := m.canon(types.NewPointer(t))
		_ = p
		return v
	})
	reg("strconv.Quote", func(fr *frame, fn *ssa.Function, a []Value) Value {
		s := a[0].(Str)
		if s.t != nil || s.opaque {
			return Str{s: "?", opaque: true}
		}
		return cstr(strconv.Quote(s.s))
	})

	// sync
	nop := func(fr *frame, fn *ssa.Function, a []Value) Value { return nil }
	_ = nop
	type lock struct {
		held    int // -1 writer, n readers
		vc, rvc VC
	}
	lk := func(m *Machine, v Value) *lock {
		p := v.(*Value)
		if p == nil {
			m.nilDeref()
		}
		if l, ok := m.side2[p].(*lock); ok {
			return l
		}
		l := &lock{}
		m.side2[p] = l
		return l
	}
	reg("(*sync.Mutex).Lock (*sync.RWMutex).Lock (*internal/sync.Mutex).Lock", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		l := lk(m, a[0])
		if m.sch == nil || m.initMode {
			return nil
		}
		m.block("mutex", func() bool { return l.held == 0 })
		l.held = -1
		m.acquire(l.vc)
		m.acquire(l.rvc)
		return nil
	})
	reg("(*sync.Mutex).TryLock", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		l := lk(m, a[0])
		m.yield()
		if l.held != 0 {
			return m.c.False
		}
		l.held = -1
		m.acquire(l.vc)
		return m.c.True
	})
	reg("(*sync.Mutex).Unlock (*sync.RWMutex).Unlock (*internal/sync.Mutex).Unlock", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		l := lk(m, a[0])
		if m.sch == nil || m.initMode {
			return nil
		}
		if l.held != -1 {
			m.rtPanic("fatal: sync: unlock of unlocked mutex")
		}
		l.held = 0
		l.vc = m.release()
		m.yield()
		return nil
	})
	reg("(*sync.RWMutex).RLock", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		l := lk(m, a[0])
		if m.sch == nil || m.initMode {
			return nil
		}
		m.block("rwmutex", func() bool { return l.held >= 0 })
		l.held++
		m.acquire(l.vc)
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		l := lk(m, a[0])
		if m.sch == nil || m.initMode {
			return nil
		}
		if l.held <= 0 {
			m.rtPanic("fatal: sync: RUnlock of unlocked RWMutex")
		}
		l.held--
		l.rvc = l.rvc.join(m.release())
		m.yield()
		return nil
	})
	type wg struct {
		n  int
		vc VC
	}
	gwg := func(m *Machine, v Value) *wg {
		p := v.(*Value)
		if p == nil {
			m.nilDeref()
		}
		if l, ok := m.side2[p].(*wg); ok {
			return l
		}
		l := &wg{}
		m.side2[p] = l
		return l
	}
	// Add and Done commute with each other, and the others get their turn before Wait: no switch here.
	add := func(m *Machine, w *wg, d int) {
		w.n += d
		if w.n < 0 {
			m.goPanic("sync: negative WaitGroup counter")
		}
		if d < 0 {
			w.vc = w.vc.join(m.release())
		}
	}
	reg("(*sync.WaitGroup).Add", func(fr *frame, fn *ssa.Function, a []Value) Value {
		add(fr.m, gwg(fr.m, a[0]), fr.m.concInt(a[1]))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(fr *frame, fn *ssa.Function, a []Value) Value {
		add(fr.m, gwg(fr.m, a[0]), -1)
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		w := gwg(m, a[0])
		m.block("WaitGroup", func() bool { return w.n == 0 })
		m.acquire(w.vc)
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		w := gwg(m, a[0])
		add(m, w, 1)
		f := a[1]
		m.spawn(fr, &Native{name: "wg.Go", f: func(fr *frame, args []Value) Value {
			m.call(fr, m.curG(), f, nil)
			add(m, w, -1)
			return nil
		}}, nil)
		return nil
	})
	type once struct {
		state int // 0 new, 1 running, 2 done
		vc    VC
	}
	reg("(*sync.Once).Do", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		p := a[0].(*Value)
		if p == nil {
			m.nilDeref()
		}
		o, ok := m.side2[p].(*once)
		if !ok {
			o = &once{}
			m.side2[p] = o
		}
		if m.sch != nil && !m.initMode {
			m.yield()
		}
		if o.state == 0 {
			o.state = 1
			func() {
				defer func() {
					o.state = 2
					if m.sch != nil && !m.initMode {
						o.vc = m.release()
					}
				}()
				m.call(fr, m.curG(), a[1], nil)
			}()
			return nil
		}
		if m.sch != nil && !m.initMode {
			m.block("once", func() bool { return o.state == 2 })
			m.acquire(o.vc)
		}
		return nil
	})
	interp("sync.OnceFunc sync.OnceFunc$1 sync.OnceFunc$1$1 sync.OnceFunc$1$1$1 sync.OnceFunc$2")
	reg("(*sync.Pool).Get", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		s := (*a[0].(*Value)).(Structure)
		f := s[len(s)-1]
		if isNilVal(f) {
			return Iface{}
		}
		return m.call(fr, m.curG(), f, nil)
	})
	reg("(*sync.Pool).Put", nop)
	type smap struct {
		m  *Map
		vc VC
	}
	// sync.Map: sequentially consistent, each operation a scheduling point
	smAt := func(m *Machine, v Value) *Map {
		p := v.(*Value)
		if p == nil {
			m.nilDeref()
		}
		x, ok := m.side2[p].(*smap)
		if !ok {
			at := types.NewInterfaceType(nil, nil)
			x = &smap{m: m.newMap(at, at)}
			m.side2[p] = x
		}
		if m.sch != nil && m.sch.multi {
			m.yield()
			m.acquire(x.vc)
			x.vc = x.vc.join(m.release())
		}
		return x.m
	}
	smLoad := func(m *Machine, mp *Map, k Value) Tuple {
		if v, ok := m.mapLookup(mp, k); ok {
			return Tuple{v, m.c.True}
		}
		return Tuple{Iface{}, m.c.False}
	}
	reg("(*sync.Map).Load", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return smLoad(fr.m, smAt(fr.m, a[0]), a[1])
	})
	reg("(*sync.Map).Store", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.m.mapUpdate(smAt(fr.m, a[0]), a[1], a[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(fr *frame, fn *ssa.Function, a []Value) Value {
		mp := smAt(fr.m, a[0])
		v, ok := fr.m.mapLookup(mp, a[1])
		if ok {
			return Tuple{v, fr.m.c.True}
		}
		fr.m.mapUpdate(mp, a[1], a[2])
		return Tuple{a[2], fr.m.c.False}
	})
	reg("(*sync.Map).LoadAndDelete", func(fr *frame, fn *ssa.Function, a []Value) Value {
		mp := smAt(fr.m, a[0])
		r := smLoad(fr.m, mp, a[1])
		fr.m.mapDelete(mp, a[1])
		return r
	})
	reg("(*sync.Map).Delete", func(fr *frame, fn *ssa.Function, a []Value) Value {
		fr.m.mapDelete(smAt(fr.m, a[0]), a[1])
		return nil
	})
	reg("(*sync.Map).Swap", func(fr *frame, fn *ssa.Function, a []Value) Value {
		mp := smAt(fr.m, a[0])
		r := smLoad(fr.m, mp, a[1])
		fr.m.mapUpdate(mp, a[1], a[2])
		return r
	})
	reg("(*sync.Map).Range", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		it := m.newMapIter(smAt(m, a[0]))
		for {
			t := it.next(m)
			if !m.branchOrConst(t[0].(*Term)) {
				return nil
			}
			if !m.branchOrConst(m.call(fr, m.curG(), a[1], []Value{t[1], t[2]}).(*Term)) {
				return nil
			}
		}
	})

	reg("maps.clone", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		i := a[0].(Iface)
		src := i.v.(*Map)
		dst := m.newMap(src.kt, src.vt)
		for _, e := range src.ents {
			if !e.dead {
				m.mapUpdate(dst, e.k, copyVal(e.v))
			}
		}
		return Iface{t: i.t, v: dst}
	})

	// sync.Cond: the methods from source over a list of tickets
	interp("(reflect.StructTag).Get (reflect.StructTag).Lookup")
	interp("sync.OnceValue sync.OnceValue$1 sync.OnceValue$1$1 sync.OnceValue$2 sync.OnceValue$1$1$1 sync.OnceValues sync.OnceValues$1 sync.OnceValues$2 sync.OnceValues$1$1")
	interp("sync.NewCond (*sync.Cond).Wait (*sync.Cond).Signal (*sync.Cond).Broadcast")
	reg("(*sync.copyChecker).check", nop)
	type notifyList struct{ next, woken int }
	nl := func(m *Machine, v Value) *notifyList {
		p := v.(*Value)
		l, ok := m.side2[p].(*notifyList)
		if !ok {
			l = &notifyList{}
			m.side2[p] = l
		}
		return l
	}
	reg("sync.runtime_notifyListAdd", func(fr *frame, fn *ssa.Function, a []Value) Value {
		l := nl(fr.m, a[0])
		l.next++
		return fr.m.mkIntW(int64(l.next-1), 32)
	})
	reg("sync.runtime_notifyListWait", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		l, t := nl(m, a[0]), m.concInt(a[1])
		m.block("cond", func() bool { return t < l.woken })
		return nil
	})
	reg("sync.runtime_notifyListNotifyAll", func(fr *frame, fn *ssa.Function, a []Value) Value {
		l := nl(fr.m, a[0])
		l.woken = l.next
		fr.m.yield()
		return nil
	})
	reg("sync.runtime_notifyListNotifyOne", func(fr *frame, fn *ssa.Function, a []Value) Value {
		l := nl(fr.m, a[0])
		if l.woken < l.next {
			l.woken++
		}
		fr.m.yield()
		return nil
	})

	// sync/atomic: sequentially consistent, each a scheduling point
	avc := func(m *Machine, p *Value) {
		if m.sch == nil || !m.sch.multi {
			return
		}
		m.yield()
		s, ok := m.side2[p].(*wg)
		if !ok {
			s = &wg{}
			m.side2[p] = s
		}
		m.acquire(s.vc)
		s.vc = s.vc.join(m.release())
	}
	for _, k := range []struct {
		n string
		b types.BasicKind
	}{{"Int32", types.Int32}, {"Int64", types.Int64}, {"Uint32", types.Uint32}, {"Uint64", types.Uint64}, {"Uintptr", types.Uintptr}} {
		k := k
		t := types.Typ[k.b]
		cell := func(m *Machine, v Value, meth bool) *Value {
			p := v.(*Value)
			if p == nil {
				m.nilDeref()
			}
			if meth {
				s := (*p).(Structure)
				return &s[len(s)-1]
			}
			return p
		}
		for _, meth := range []bool{false, true} {
			meth := meth
			nm := func(op string) string {
				if meth {
					return "(*sync/atomic." + k.n + ")." + op
				}
				return "sync/atomic." + op + k.n
			}
			reg(nm("Load"), func(fr *frame, fn *ssa.Function, a []Value) Value {
				p := cell(fr.m, a[0], meth)
				avc(fr.m, p)
				return *p
			})
			reg(nm("Store"), func(fr *frame, fn *ssa.Function, a []Value) Value {
				p := cell(fr.m, a[0], meth)
				avc(fr.m, p)
				fr.m.storeNR(p, a[1])
				return nil
			})
			reg(nm("Add"), func(fr *frame, fn *ssa.Function, a []Value) Value {
				m := fr.m
				p := cell(m, a[0], meth)
				avc(m, p)
				v := m.intBin(tokADD, t, (*p).(*Term), a[1].(*Term))
				m.storeNR(p, v)
				return v
			})
			reg(nm("CompareAndSwap"), func(fr *frame, fn *ssa.Function, a []Value) Value {
				m := fr.m
				p := cell(m, a[0], meth)
				avc(m, p)
				if m.p == nil && !(*p).(*Term).IsConst() {
					m.unsupported("CAS")
				}
				if m.branchOrConst(m.equals(t, *p, a[1])) {
					m.storeNR(p, a[2])
					return m.c.True
				}
				return m.c.False
			})
			reg(nm("Swap"), func(fr *frame, fn *ssa.Function, a []Value) Value {
				m := fr.m
				p := cell(m, a[0], meth)
				avc(m, p)
				o := *p
				m.storeNR(p, a[1])
				return o
			})
		}
	}
	reg("(*sync/atomic.Bool).Load", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		s := (*a[0].(*Value)).(Structure)
		avc(m, &s[len(s)-1])
		return m.c.Not(m.isZero(s[len(s)-1].(*Term)))
	})
	b2i := func(m *Machine, v Value) *Term {
		if m.branchOrConst(v.(*Term)) {
			return m.mkIntW(1, 32)
		}
		return m.mkIntW(0, 32)
	}
	reg("(*sync/atomic.Bool).Store", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		s := (*a[0].(*Value)).(Structure)
		avc(m, &s[len(s)-1])
		m.storeNR(&s[len(s)-1], b2i(m, a[1]))
		return nil
	})
	reg("(*sync/atomic.Bool).Swap", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		s := (*a[0].(*Value)).(Structure)
		avc(m, &s[len(s)-1])
		o := m.c.Not(m.isZero(s[len(s)-1].(*Term)))
		m.storeNR(&s[len(s)-1], b2i(m, a[1]))
		return o
	})
	reg("(*sync/atomic.Bool).CompareAndSwap", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		s := (*a[0].(*Value)).(Structure)
		c := &s[len(s)-1]
		avc(m, c)
		cur := !m.branchOrConst(m.isZero((*c).(*Term)))
		if cur != m.branchOrConst(a[1].(*Term)) {
			return m.c.False
		}
		m.storeNR(c, b2i(m, a[2]))
		return m.c.True
	})
	// atomic.Value and atomic.Pointer keep the value in the last field
	reg("(*sync/atomic.Value).Load", func(fr *frame, fn *ssa.Function, a []Value) Value {
		s := (*a[0].(*Value)).(Structure)
		avc(fr.m, &s[0])
		return s[0]
	})
	reg("(*sync/atomic.Value).Store", func(fr *frame, fn *ssa.Function, a []Value) Value {
		s := (*a[0].(*Value)).(Structure)
		avc(fr.m, &s[0])
		fr.m.storeNR(&s[0], a[1])
		return nil
	})
	reg("(*sync/atomic.Pointer).Load", func(fr *frame, fn *ssa.Function, a []Value) Value {
		s := (*a[0].(*Value)).(Structure)
		c := &s[len(s)-1]
		avc(fr.m, c)
		if u, ok := (*c).(UPtr); ok {
			if u.v == nil {
				return (*Value)(nil)
			}
			return u.v
		}
		return *c
	})
	reg("(*sync/atomic.Pointer).Store", func(fr *frame, fn *ssa.Function, a []Value) Value {
		s := (*a[0].(*Value)).(Structure)
		c := &s[len(s)-1]
		avc(fr.m, c)
		fr.m.storeNR(c, UPtr{a[1]})
		return nil
	})
	reg("(*sync/atomic.Pointer).CompareAndSwap", func(fr *frame, fn *ssa.Function, a []Value) Value {
		s := (*a[0].(*Value)).(Structure)
		c := &s[len(s)-1]
		avc(fr.m, c)
		var cur Value = (*Value)(nil)
		if u, ok := (*c).(UPtr); ok && u.v != nil {
			cur = u.v
		}
		if cur != a[1] {
			return fr.m.c.False
		}
		fr.m.storeNR(c, UPtr{a[2]})
		return fr.m.c.True
	})

	// unicode
	pred := func(f func(rune) bool) intrFn {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			m := fr.m
			r := a[0].(*Term)
			if n, ok := cint(r); ok {
				return m.c.Bool(f(rune(n)))
			}
			// ASCII exactly, above that only concrete
			if m.p.branch(m.cmpInt(tokLSS, types.Typ[types.Int32], r, m.mkIntW(128, 32))) {
				if m.p.branch(m.cmpInt(tokLSS, types.Typ[types.Int32], r, m.mkIntW(0, 32))) {
					return m.c.Bool(f(-1))
				}
				return m.inRanges(r, runeRuns(f, 0, 127))
			}
			lo, hi := rune(128), rune(unicode.MaxRune+1)
			if iv := m.c.interval(r); !m.bv && iv.hi != nil && iv.hi.Cmp(big.NewInt(int64(hi))) < 0 {
				hi = rune(iv.hi.Int64())
			} else if m.p.branch(m.cmpInt(tokLSS, types.Typ[types.Int32], m.mkIntW(unicode.MaxRune, 32), r)) {
				return m.c.Bool(f(unicode.MaxRune + 1))
			}
			runs, ok := runCache.Load(fn.String())
			if !ok {
				runs = runeRuns(f, lo, unicode.MaxRune)
				runCache.Store(fn.String(), runs)
			}
			var rs [][2]rune
			for _, x := range runs.([][2]rune) {
				if x[0] <= hi {
					rs = append(rs, x)
				}
			}
			return m.inRanges(r, rs)
		}
	}
	reg("unicode.IsUpper", pred(unicode.IsUpper))
	reg("unicode.IsLower", pred(unicode.IsLower))
	reg("unicode.IsLetter", pred(unicode.IsLetter))
	reg("unicode.IsDigit", pred(unicode.IsDigit))
	reg("unicode.IsSpace", pred(unicode.IsSpace))
	reg("unicode.IsPrint", pred(unicode.IsPrint))
	reg("unicode.IsControl", pred(unicode.IsControl))
	mapr := func(f func(rune) rune) intrFn {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			m := fr.m
			r := a[0].(*Term)
			if n, ok := cint(r); ok {
				return m.mkIntW(int64(f(rune(n))), 32)
			}
			i32 := types.Typ[types.Int32]
			if m.p.branch(m.cmpInt(tokLSS, i32, r, m.mkIntW(128, 32))) {
				for _, rg := range [][2]rune{{'a', 'z'}, {'A', 'Z'}} {
					d := int64(f(rg[0]) - rg[0])
					if d == 0 {
						continue
					}
					if m.p.branch(m.c.And(m.cmpInt(tokLEQ, i32, m.mkIntW(int64(rg[0]), 32), r), m.cmpInt(tokLEQ, i32, r, m.mkIntW(int64(rg[1]), 32)))) {
						return m.intBin(tokADD, i32, r, m.mkIntW(d, 32))
					}
				}
				return r
			}
			if m.p.branch(m.cmpInt(tokLSS, i32, m.mkIntW(unicode.MaxRune, 32), r)) {
				return r
			}
			type deltas struct {
				ds   []rune
				runs map[rune][][2]rune
			}
			v, ok := runCache.Load(fn.String())
			if !ok {
				d := &deltas{runs: map[rune][][2]rune{}}
				for x := rune(128); x <= unicode.MaxRune; x++ {
					k := f(x) - x
					if k == 0 {
						continue
					}
					rs := d.runs[k]
					if rs == nil {
						d.ds = append(d.ds, k)
					}
					if n := len(rs); n > 0 && rs[n-1][1] == x-1 {
						rs[n-1][1] = x
					} else {
						rs = append(rs, [2]rune{x, x})
					}
					d.runs[k] = rs
				}
				v = d
				runCache.Store(fn.String(), v)
			}
			d := v.(*deltas)
			res := r
			for _, k := range d.ds {
				res = m.c.Ite(m.inRanges(r, d.runs[k]), m.intBin(tokADD, i32, r, m.mkIntW(int64(k), 32)), res)
			}
			return res
		}
	}
	reg("unicode.ToUpper", mapr(unicode.ToUpper))
	reg("unicode.ToLower", mapr(unicode.ToLower))
	_ = big.NewInt
}

var runCache sync.Map

// runeRuns lists the maximal runs of runes in lo..hi that f holds for.
func runeRuns(f func(rune) bool, lo, hi rune) [][2]rune {
	var rs [][2]rune
	for x := lo; x <= hi; x++ {
		if !f(x) {
			continue
		}
		if n := len(rs); n > 0 && rs[n-1][1] == x-1 {
			rs[n-1][1] = x
		} else {
			rs = append(rs, [2]rune{x, x})
		}
	}
	return rs
}

// inRanges: the rune r lies in one of the runs.
func (m *Machine) inRanges(r *Term, rs [][2]rune) *Term {
	i32 := types.Typ[types.Int32]
	res := m.c.False
	for _, x := range rs {
		res = m.c.Or(res, m.c.And(m.cmpInt(tokLEQ, i32, m.mkIntW(int64(x[0]), 32), r), m.cmpInt(tokLEQ, i32, r, m.mkIntW(int64(x[1]), 32))))
	}
	return res
}

// writeTo sends text to an io.Writer.
func (m *Machine) writeTo(fr *frame, w Iface, s Str) Value {
	if w.t == nil {
		m.nilDeref()
	}
	if s.opaque {
		m.unsupported("opaque text written")
	}
	f := m.findMethod(w.t, "Write")
	if f == nil {
		m.unsupported("Write of %s", w.t)
	}
	b := m.conv(types.NewSlice(types.Typ[types.Uint8]), types.Typ[types.String], s)
	return m.call(fr, m.curG(), f, []Value{copyVal(w.v), b})
}

func (m *Machine) branchOrConst(t *Term) bool {
	if t.IsConst() {
		return t.u == 1
	}
	return m.p.branch(t)
}
