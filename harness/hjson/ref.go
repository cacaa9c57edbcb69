// Package hjson: the JSON packages against a grammar written down here.
package hjson

import (
	"errors"
	goio "io"
	"unicode/utf8"

	"github.com/bantling/micro/encoding/json"
	"verifharness/sym"
)

var errRead = errors.New("read failed")

// status of a text: well formed, not the start of any well formed text, or the start of one.
type status int

const (
	ok status = iota
	bad
	more
)

// node is a JSON value of the reference grammar.
type node struct {
	typ  json.Type
	text string // of a string or number
	flag bool
	keys []string
	kids []node
}

// ref reads text by the grammar of RFC 8259, without duplicate keys, and with surrogate pairs in either order.
type ref struct {
	s []byte
	i int
}

func (r *ref) space() {
	for r.i < len(r.s) && (r.s[r.i] == ' ' || r.s[r.i] == '\t' || r.s[r.i] == '\n' || r.s[r.i] == '\r') {
		r.i++
	}
}

// peek: the next character, 0 at the end of the text.
func (r *ref) peek() (byte, bool) {
	if r.i == len(r.s) {
		return 0, false
	}
	return r.s[r.i], true
}

// document is an object or array.
func (r *ref) document() (node, status) {
	r.space()
	b, is := r.peek()
	if !is {
		return node{}, more
	}
	if b != '{' && b != '[' {
		return node{}, bad
	}
	return r.value()
}

func (r *ref) value() (node, status) {
	r.space()
	b, is := r.peek()
	switch {
	case !is:
		return node{}, more
	case b == '{':
		r.i++
		return r.object()
	case b == '[':
		r.i++
		return r.array()
	case b == '"':
		r.i++
		s, st := r.str()
		return node{typ: json.String, text: s}, st
	case b == '-' || (b >= '0' && b <= '9'):
		return r.number()
	case b == 't':
		return node{typ: json.Boolean, flag: true}, r.word("true")
	case b == 'f':
		return node{typ: json.Boolean}, r.word("false")
	case b == 'n':
		return node{typ: json.Null}, r.word("null")
	}
	return node{}, bad
}

func (r *ref) word(w string) status {
	for i := 0; i < len(w); i++ {
		b, is := r.peek()
		if !is {
			return more
		}
		if b != w[i] {
			return bad
		}
		r.i++
	}
	return ok
}

func (r *ref) digits() (int, status) {
	n := 0
	for {
		b, is := r.peek()
		if !is {
			return n, more
		}
		if b < '0' || b > '9' {
			break
		}
		n++
		r.i++
	}
	if n == 0 {
		return 0, bad
	}
	return n, ok
}

func (r *ref) number() (node, status) {
	start := r.i
	if b, _ := r.peek(); b == '-' {
		r.i++
	}
	b, is := r.peek()
	if !is {
		return node{}, more
	}
	if n, st := r.digits(); st == bad || (b == '0' && (n > 1)) {
		return node{}, bad
	} else if st != ok {
		return node{}, st
	}
	b, _ = r.peek()
	if b == '.' {
		r.i++
		if _, st := r.digits(); st != ok {
			return node{}, st
		}
		b, _ = r.peek()
	}
	if b == 'e' || b == 'E' {
		r.i++
		if b, is = r.peek(); !is {
			return node{}, more
		}
		if b == '+' || b == '-' {
			r.i++
		}
		if _, st := r.digits(); st != ok {
			return node{}, st
		}
	}
	return node{typ: json.Number, text: string(r.s[start:r.i])}, ok
}

func (r *ref) hex() (rune, status) {
	var v rune
	for i := 0; i < 4; i++ {
		b, is := r.peek()
		if !is {
			return 0, more
		}
		switch {
		case b >= '0' && b <= '9':
			v = v*16 + rune(b-'0')
		case b >= 'A' && b <= 'F':
			v = v*16 + rune(b-'A') + 10
		case b >= 'a' && b <= 'f':
			v = v*16 + rune(b-'a') + 10
		default:
			return 0, bad
		}
		r.i++
	}
	return v, ok
}

func (r *ref) str() (string, status) {
	out := ""
	for {
		b, is := r.peek()
		if !is {
			return "", more
		}
		r.i++
		if b == '"' {
			return out, ok
		}
		if b < 0x20 {
			return "", bad
		}
		if b != '\\' {
			out += string([]byte{b})
			continue
		}
		if b, is = r.peek(); !is {
			return "", more
		}
		r.i++
		switch b {
		case '"', '\\', '/':
			out += string([]byte{b})
		case 'b':
			out += "\b"
		case 'f':
			out += "\f"
		case 'n':
			out += "\n"
		case 'r':
			out += "\r"
		case 't':
			out += "\t"
		case 'u':
			v, st := r.hex()
			if st != ok {
				return "", st
			}
			if v >= 0xd800 && v < 0xe000 {
				if st = r.word(`\u`); st != ok {
					return "", st
				}
				w, st := r.hex()
				if st != ok {
					return "", st
				}
				switch {
				case v < 0xdc00 && w >= 0xdc00 && w < 0xe000:
					v = 0x10000 + (v-0xd800)*0x400 + (w - 0xdc00)
				case v >= 0xdc00 && w >= 0xd800 && w < 0xdc00:
					// the tests expect this order to be accepted, too
					v = 0x10000 + (w-0xd800)*0x400 + (v - 0xdc00)
				default:
					return "", bad
				}
			}
			out += string(v)
		default:
			return "", bad
		}
	}
}

func (r *ref) array() (n node, st status) {
	n.typ = json.Array
	r.space()
	if b, is := r.peek(); !is {
		return n, more
	} else if b == ']' {
		r.i++
		return n, ok
	}
	for {
		v, st := r.value()
		if st != ok {
			return n, st
		}
		n.kids = append(n.kids, v)
		r.space()
		b, is := r.peek()
		if !is {
			return n, more
		}
		r.i++
		if b == ']' {
			return n, ok
		}
		if b != ',' {
			return n, bad
		}
	}
}

func (r *ref) object() (n node, st status) {
	n.typ = json.Object
	r.space()
	if b, is := r.peek(); !is {
		return n, more
	} else if b == '}' {
		r.i++
		return n, ok
	}
	for {
		r.space()
		b, is := r.peek()
		if !is {
			return n, more
		}
		if b != '"' {
			return n, bad
		}
		r.i++
		k, st := r.str()
		if st != ok {
			return n, st
		}
		for _, o := range n.keys {
			if o == k {
				return n, bad
			}
		}
		r.space()
		if b, is = r.peek(); !is {
			return n, more
		}
		if b != ':' {
			return n, bad
		}
		r.i++
		v, st := r.value()
		if st != ok {
			return n, st
		}
		n.keys = append(n.keys, k)
		n.kids = append(n.kids, v)
		r.space()
		if b, is = r.peek(); !is {
			return n, more
		}
		r.i++
		if b == '}' {
			return n, ok
		}
		if b != ',' {
			return n, bad
		}
	}
}

// same: v is the value n stands for.
func same(v json.Value, n node, what string) {
	sym.Assert(v.Type() == n.typ, what+": wrong type")
	switch n.typ {
	case json.Object:
		m := v.AsMap()
		sym.Assert(len(m) == len(n.keys), what+": wrong number of keys")
		for i, k := range n.keys {
			kv, is := m[k]
			sym.Assert(is, what+": a key is missing")
			same(kv, n.kids[i], what)
		}
	case json.Array:
		s := v.AsSlice()
		sym.Assert(len(s) == len(n.kids), what+": wrong number of elements")
		for i := range s {
			same(s[i], n.kids[i], what)
		}
	case json.String, json.Number:
		sym.Assert(v.AsString() == n.text, what+": wrong text")
		sym.Observe(v.AsString())
	case json.Boolean:
		sym.Assert(v.AsBool() == n.flag, what+": wrong boolean")
	}
}

// lazy is a reader whose text is chosen as it is read: what is already there, then up to free characters accepted by
// pick, then tail, then the end or an error.
type lazy struct {
	buf   []byte
	pos   int
	free  int
	pick  func(b byte) bool
	tail  string
	end   error
	ended bool
}

func (l *lazy) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if l.pos == len(l.buf) {
		if l.end != nil {
			l.ended = true
			return 0, l.end
		}
		if l.free == 0 || sym.Choice(2) == 0 {
			l.buf = append(l.buf, l.tail...)
			l.end = goio.EOF
			if sym.Choice(2) == 0 {
				l.end = errRead
			}
			if len(l.tail) == 0 {
				l.ended = true
				return 0, l.end
			}
		} else {
			l.free--
			b := sym.Uint8()
			sym.Assume(b < utf8.RuneSelf)
			if l.pick != nil {
				sym.Assume(l.pick(b))
			}
			l.buf = append(l.buf, b)
		}
	}
	p[0] = l.buf[l.pos]
	l.pos++
	return 1, nil
}
