package main

// regexp: concrete subjects go to the real package; symbolic ones run a backtracking matcher over the compiled program
// (the leftmost-first semantics of the package), forking on character tests.

import (
	"go/types"
	"regexp"
	"regexp/syntax"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type reObj struct {
	src  string
	re   *regexp.Regexp
	prog *syntax.Prog
}

func (m *Machine) newRegexp(src string) (Value, error) {
	re, err := regexp.Compile(src)
	if err != nil {
		return (*Value)(nil), err
	}
	p, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		return (*Value)(nil), err
	}
	prog, err := syntax.Compile(p.Simplify())
	if err != nil {
		return (*Value)(nil), err
	}
	v := new(Value)
	*v = m.zero(m.sh.byPath["regexp"].Type("Regexp").Type())
	m.regex[v] = &reObj{src, re, prog}
	return v, nil
}

func (m *Machine) reOf(v Value) *reObj {
	p, _ := v.(*Value)
	if p == nil {
		m.nilDeref()
	}
	r := m.regex[p]
	if r == nil {
		m.unsupported("regexp value of unknown origin")
	}
	return r
}

type reKey struct{ pc, pos int }

type matcher struct {
	m    *Machine
	s    Str
	prog *syntax.Prog
	seen map[reKey]bool
	cap  []int
	byt  bool
	dec  map[int][2]interface{}
}

func (x *matcher) runeAt(i int) (*Term, int) {
	if d, ok := x.dec[i]; ok {
		return d[0].(*Term), d[1].(int)
	}
	r, n := x.m.decodeRune(x.s, i)
	x.dec[i] = [2]interface{}{r, n}
	return r, n
}

// class tests the rune at pos and gives its width.
func (x *matcher) class(in *syntax.Inst, pos int) (bool, int) {
	m := x.m
	if pos >= x.s.len() {
		return false, 0
	}
	b := m.strBytes(x.s)[pos]
	i32, u8 := types.Typ[types.Int32], types.Typ[types.Uint8]
	var rs []rune
	switch in.Op {
	case syntax.InstRuneAny:
		rs = []rune{0, 0x10ffff}
	case syntax.InstRuneAnyNotNL:
		rs = []rune{0, '\n' - 1, '\n' + 1, 0x10ffff}
	case syntax.InstRune1:
		rs = []rune{in.Rune[0], in.Rune[0]}
	default:
		if len(in.Rune) == 1 {
			rs = []rune{in.Rune[0], in.Rune[0]}
			if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
				for r := unicode.SimpleFold(in.Rune[0]); r != in.Rune[0]; r = unicode.SimpleFold(r) {
					rs = append(rs, r, r)
				}
			}
		} else {
			rs = in.Rune
		}
	}
	if m.branchOrConst(m.cmpInt(tokLSS, u8, b, m.mkIntW(128, 8))) {
		t := m.c.False
		for i := 0; i+1 < len(rs); i += 2 {
			if rs[i] >= 128 {
				continue
			}
			hi := rs[i+1]
			if hi > 127 {
				hi = 127
			}
			t = m.c.Or(t, m.c.And(m.cmpInt(tokLEQ, u8, m.mkIntW(int64(rs[i]), 8), b), m.cmpInt(tokLEQ, u8, b, m.mkIntW(int64(hi), 8))))
		}
		return m.branchOrConst(t), 1
	}
	any := false
	for i := 0; i+1 < len(rs); i += 2 {
		if rs[i+1] >= 128 {
			any = true
		}
	}
	if !any {
		return false, 0
	}
	r, n := x.runeAt(pos)
	t := m.c.False
	for i := 0; i+1 < len(rs); i += 2 {
		t = m.c.Or(t, m.c.And(m.cmpInt(tokLEQ, i32, m.mkIntW(int64(rs[i]), 32), r), m.cmpInt(tokLEQ, i32, r, m.mkIntW(int64(rs[i+1]), 32))))
	}
	return m.branchOrConst(t), n
}

func (x *matcher) run(pc, pos int) bool {
	k := reKey{pc, pos}
	if x.seen[k] {
		return false
	}
	x.seen[k] = true
	in := &x.prog.Inst[pc]
	switch in.Op {
	case syntax.InstFail:
		return false
	case syntax.InstMatch:
		x.cap[1] = pos
		return true
	case syntax.InstAlt, syntax.InstAltMatch:
		return x.run(int(in.Out), pos) || x.run(int(in.Arg), pos)
	case syntax.InstNop:
		return x.run(int(in.Out), pos)
	case syntax.InstCapture:
		if int(in.Arg) < len(x.cap) {
			old := x.cap[in.Arg]
			x.cap[in.Arg] = pos
			if x.run(int(in.Out), pos) {
				return true
			}
			x.cap[in.Arg] = old
			return false
		}
		return x.run(int(in.Out), pos)
	case syntax.InstEmptyWidth:
		op := syntax.EmptyOp(in.Arg)
		ok := true
		if op&syntax.EmptyBeginText != 0 && pos != 0 {
			ok = false
		}
		if op&syntax.EmptyEndText != 0 && pos != x.s.len() {
			ok = false
		}
		if op&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
			x.m.unsupported("regexp assertion on symbolic text")
		}
		return ok && x.run(int(in.Out), pos)
	}
	ok, n := x.class(in, pos)
	return ok && x.run(int(in.Out), pos+n)
}

// reMatch finds the leftmost match at or after from; nil when there is none.
func (m *Machine) reMatch(r *reObj, s Str, from int) []int {
	ncap := 2 * (r.re.NumSubexp() + 1)
	dec := map[int][2]interface{}{}
	anchored := r.prog.StartCond()&syntax.EmptyBeginText != 0
	for st := from; st <= s.len() && (st == 0 || !anchored); {
		x := &matcher{m: m, s: s, prog: r.prog, seen: map[reKey]bool{}, cap: make([]int, ncap), dec: dec}
		for i := range x.cap {
			x.cap[i] = -1
		}
		x.cap[0] = st
		if x.run(r.prog.Start, st) {
			x.cap[0] = st
			return x.cap
		}
		if st < s.len() {
			_, n := m.decodeWidth(s, st, dec)
			st += n
		} else {
			st++
		}
	}
	return nil
}

func (m *Machine) decodeWidth(s Str, i int, dec map[int][2]interface{}) (*Term, int) {
	b := m.strBytes(s)[i]
	if m.branchOrConst(m.cmpInt(tokLSS, types.Typ[types.Uint8], b, m.mkIntW(128, 8))) {
		return b, 1
	}
	return m.decodeRune(s, i)
}

// reAll follows Regexp.allMatches.
func (m *Machine) reAll(r *reObj, s Str, n int) [][]int {
	var res [][]int
	if n < 0 {
		n = s.len() + 1
	}
	prev := -1
	for i, pos := 0, 0; i < n && pos <= s.len(); {
		mt := m.reMatch(r, s, pos)
		if mt == nil {
			break
		}
		accept := true
		if mt[1] == pos {
			if mt[0] == prev {
				accept = false
			}
			if pos < s.len() {
				_, w := m.decodeWidth(s, pos, nil)
				pos += w
			} else {
				pos = s.len() + 1
			}
		} else {
			pos = mt[1]
		}
		prev = mt[1]
		if accept {
			res = append(res, mt)
			i++
		}
	}
	return res
}

func init() {
	R := "(*regexp.Regexp)."
	reg("regexp.MustCompile", func(fr *frame, fn *ssa.Function, a []Value) Value {
		v, err := fr.m.newRegexp(argStr(fr.m, a[0]))
		if err != nil {
			fr.m.goPanic("regexp: Compile: " + err.Error())
		}
		return v
	})
	reg("regexp.Compile", func(fr *frame, fn *ssa.Function, a []Value) Value {
		v, err := fr.m.newRegexp(argStr(fr.m, a[0]))
		if err != nil {
			return Tuple{v, fr.m.ifaceErr(cstr(err.Error()))}
		}
		return Tuple{v, Iface{}}
	})
	reg(R+"String", func(fr *frame, fn *ssa.Function, a []Value) Value { return cstr(fr.m.reOf(a[0]).src) })
	reg(R+"NumSubexp", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.m.mkInt(fr.m.reOf(a[0]).re.NumSubexp())
	})
	reg(R+"SubexpNames", func(fr *frame, fn *ssa.Function, a []Value) Value {
		var vs []Value
		for _, n := range fr.m.reOf(a[0]).re.SubexpNames() {
			vs = append(vs, cstr(n))
		}
		return Slice{a: vs}
	})
	reg(R+"SubexpIndex", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return fr.m.mkInt(fr.m.reOf(a[0]).re.SubexpIndex(fr.m.plain(a[1]).s))
	})
	str := func(m *Machine, v Value) Str {
		if sl, ok := v.(Slice); ok {
			return normStr(termsOf(sl))
		}
		return m.plain(v)
	}
	reg(R+"MatchString "+R+"Match", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		return m.c.Bool(m.reMatch(m.reOf(a[0]), str(m, a[1]), 0) != nil)
	})
	reg("regexp.MatchString", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		v, err := m.newRegexp(argStr(m, a[0]))
		if err != nil {
			return Tuple{m.c.False, m.ifaceErr(cstr(err.Error()))}
		}
		return Tuple{m.c.Bool(m.reMatch(m.reOf(v), str(m, a[1]), 0) != nil), Iface{}}
	})
	sub := func(m *Machine, s Str, mt []int) Value {
		vs := make([]Value, len(mt)/2)
		for i := range vs {
			vs[i] = Str{}
			if mt[2*i] >= 0 {
				vs[i] = m.substr(s, mt[2*i], mt[2*i+1])
			}
		}
		return Slice{a: vs}
	}
	reg(R+"FindStringSubmatch", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		s := str(m, a[1])
		mt := m.reMatch(m.reOf(a[0]), s, 0)
		if mt == nil {
			return Slice{nil_: true}
		}
		return sub(m, s, mt)
	})
	reg(R+"FindString", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		s := str(m, a[1])
		mt := m.reMatch(m.reOf(a[0]), s, 0)
		if mt == nil {
			return Str{}
		}
		return m.substr(s, mt[0], mt[1])
	})
	idx := func(m *Machine, mt []int) Value {
		vs := make([]Value, len(mt))
		for i := range vs {
			vs[i] = m.mkInt(mt[i])
		}
		return Slice{a: vs}
	}
	reg(R+"FindStringIndex", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		mt := m.reMatch(m.reOf(a[0]), str(m, a[1]), 0)
		if mt == nil {
			return Slice{nil_: true}
		}
		return idx(m, mt[:2])
	})
	reg(R+"FindStringSubmatchIndex", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		mt := m.reMatch(m.reOf(a[0]), str(m, a[1]), 0)
		if mt == nil {
			return Slice{nil_: true}
		}
		return idx(m, mt)
	})
	all := func(f func(m *Machine, s Str, mt []int) Value) intrFn {
		return func(fr *frame, fn *ssa.Function, a []Value) Value {
			m := fr.m
			s := str(m, a[1])
			ms := m.reAll(m.reOf(a[0]), s, m.concInt(a[2]))
			if len(ms) == 0 {
				return Slice{nil_: true}
			}
			vs := make([]Value, len(ms))
			for i, mt := range ms {
				vs[i] = f(m, s, mt)
			}
			return Slice{a: vs}
		}
	}
	reg(R+"FindAllString", all(func(m *Machine, s Str, mt []int) Value { return m.substr(s, mt[0], mt[1]) }))
	reg(R+"FindAllStringSubmatch", all(sub))
	reg(R+"FindAllStringIndex", all(func(m *Machine, s Str, mt []int) Value { return idx(m, mt[:2]) }))
	reg(R+"ReplaceAllLiteralString "+R+"ReplaceAllString "+R+"ReplaceAllStringFunc", func(fr *frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		s := str(m, a[1])
		isFunc := fn.Name() == "ReplaceAllStringFunc"
		rep := Str{}
		if !isFunc {
			rep = m.plain(a[2])
		}
		if fn.Name() == "ReplaceAllString" && (rep.t != nil || containsByte(rep.s, '$')) {
			m.unsupported("regexp template replacement")
		}
		// Regexp.replaceAll
		r := m.reOf(a[0])
		last, pos := 0, 0
		out := Str{}
		for pos <= s.len() {
			mt := m.reMatch(r, s, pos)
			if mt == nil {
				break
			}
			out = m.concat(out, m.substr(s, last, mt[0]))
			if mt[1] > last || mt[0] == 0 {
				if isFunc {
					rep = m.plain(m.call(fr, m.curG(), a[2], []Value{m.substr(s, mt[0], mt[1])}))
				}
				out = m.concat(out, rep)
			}
			last = mt[1]
			w := 0
			if pos < s.len() {
				_, w = m.decodeWidth(s, pos, nil)
			}
			if pos+w > mt[1] {
				pos += w
			} else if pos+1 > mt[1] {
				pos++
			} else {
				pos = mt[1]
			}
		}
		return m.concat(out, m.substr(s, last, s.len()))
	})
	reg("regexp.QuoteMeta", func(fr *frame, fn *ssa.Function, a []Value) Value {
		return cstr(regexp.QuoteMeta(argStr(fr.m, a[0])))
	})
}

func containsByte(s string, b byte) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == b {
			return true
		}
	}
	return false
}
