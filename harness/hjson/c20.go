package hjson

import (
	goio "io"
	"unicode/utf8"

	"github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/encoding/json/parse"
	"github.com/bantling/micro/iter"
	"verifharness/sym"
)

func pickAny(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}
	return quick
}

// decide parses what l provides and compares with the grammar.
func decide(l *lazy, what string) {
	v, err := parse.Parse(l)
	r := ref{s: l.buf[:l.pos]}
	n, st := r.document()
	sym.Observe(err != nil)
	if err == nil {
		sym.Reach("accepted")
		sym.Assert(st == ok, what+": accepts a text that is not well formed")
		sym.Assert(r.i == l.pos, what+": reads beyond the document")
		same(v, n, what)
		return
	}
	sym.Assert(st != ok, what+": rejects a well formed text")
	sym.Assert(v.Type() == json.Invalid, what+": a value together with an error")
	if st == more {
		sym.Reach("cut short")
		sym.Assert(l.ended, what+": rejects the start of a well formed text")
		sym.Assert(err != goio.EOF && err != iter.EOI, what+": reports the end of a document that is not complete as the end")
		if l.end == errRead {
			sym.Assert(err == errRead, what+": not the error of the reader")
		}
		return
	}
	sym.Reach("rejected")
}

// iterate: the same for Iterate, which gives the elements of an array one by one.
func iterate(l *lazy, what string) {
	it := parse.Iterate(l)
	var (
		got []json.Value
		v   json.Value
		err error
	)
	for {
		if v, err = it.Next(); err != nil {
			break
		}
		sym.Assert(len(got) <= len(l.buf), what+": does not end")
		got = append(got, v)
	}
	r := ref{s: l.buf[:l.pos]}
	n, st := r.document()
	sym.Observe(len(got))
	if st == more {
		// A number at the end of the text may have been delivered
		n, _ = (&ref{s: append(append([]byte{}, r.s...), ',')}).document()
	}
	want := n.kids
	if n.typ == json.Object {
		want = nil
		if st == ok {
			want = []node{n}
		}
	}
	sym.Assert(len(got) <= len(want), what+": an element too many")
	for i := range got {
		same(got[i], want[i], what)
	}
	_, again := it.Next()
	sym.Assert(again == err, what+": another end")
	if err == iter.EOI {
		sym.Reach("accepted")
		sym.Assert(st == ok, what+": accepts a text that is not well formed")
		sym.Assert(len(got) == len(want), what+": an element is missing")
		return
	}
	sym.Assert(st != ok, what+": rejects a well formed text")
	if st == more {
		sym.Reach("cut short")
		sym.Assert(l.ended, what+": rejects the start of a well formed text")
		sym.Assert(err != goio.EOF, what+": reports the end of a document that is not complete as the end")
		if l.end == errRead {
			sym.Assert(err == errRead, what+": not the error of the reader")
		}
	}
}

// C20_String: a string of any ASCII characters.
//
//sym:bv
func C20_String() {
	decide(&lazy{buf: []byte(`["`), free: pickAny(6, 8)}, "string")
}

// C20_Key: the same as a key.
//
//sym:bv
func C20_Key() {
	decide(&lazy{buf: []byte(`{"`), free: pickAny(4, 5), tail: `":0}`}, "key")
}

// C20_Escape: \u escapes.
//
//sym:bv
func C20_Escape() {
	decide(&lazy{buf: []byte(`["\u`), free: 4, tail: `"]`}, "escape")
}

// C20_Number: a number.
//
//sym:bv
func C20_Number() {
	decide(&lazy{buf: []byte(`[`), free: pickAny(7, 9), pick: func(b byte) bool {
		return sym.Or(sym.And(b >= '0', b <= '9'), sym.Or(sym.Or(b == '-', b == '+'), sym.Or(sym.Or(b == '.', b == ' '), sym.Or(sym.Or(b == 'e', b == 'E'), b == ','))))
	}, tail: `]`}, "number")
}

func hexDigit(b byte) bool {
	return sym.Or(sym.And(b >= '0', b <= '9'), sym.Or(sym.And(b >= 'a', b <= 'f'), sym.And(b >= 'A', b <= 'F')))
}

// C20_Surrogates: two \u escapes of which the first is a surrogate.
//
//sym:bv
func C20_Surrogates() {
	h := sym.Bytes(8)
	for i := range h {
		sym.Assume(hexDigit(h[i]))
	}
	sym.Assume(sym.Or(h[0] == 'd', h[0] == 'D'))
	sym.Assume(h[1] > '7')
	if !sym.Thorough() {
		// both kinds of letters are tried by C20_Escape
		for _, i := range []int{2, 3, 5, 6, 7} {
			sym.Assume(h[i] <= 'F')
		}
	}
	text := append(append(append(append([]byte(`["\u`), h[:4]...), `\u`...), h[4:]...), `"]`...)
	decide(&lazy{buf: text, end: goio.EOF}, "surrogates")
}

// C20_Unicode: characters of all lengths in UTF-8, also next to escapes.
//
//sym:bv
func C20_Unicode() {
	rs := make([]rune, 1+sym.Choice(pickAny(2, 3)))
	for i := range rs {
		rs[i] = sym.Int32()
		sym.Assume(sym.And(rs[i] >= 0x80, rs[i] <= utf8.MaxRune))
		sym.Assume(sym.Or(rs[i] < 0xd800, rs[i] > 0xdfff))
	}
	s := ""
	for i, r := range rs {
		if i > 0 {
			s += []string{"", `\n`, `a`}[sym.Choice(3)]
		}
		s += string(r)
	}
	decide(&lazy{buf: []byte(`["` + s + `"]`), end: goio.EOF}, "characters")
}
