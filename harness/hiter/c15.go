package hiter

import (
	"errors"
	goio "io"
	"unicode/utf8"

	"github.com/bantling/micro/iter"
	"verifharness/sym"
)

var errRead = errors.New("read failed")

// chunked is a reader over data that is free, as io.Reader allows, in the bytes each read returns (none included, a
// bounded number of times) and in reporting its end together with the last bytes or on its own.
type chunked struct {
	data   []byte
	end    error
	pos    int
	empty  int
	choose bool
	after  bool
	closed int
}

func (c *chunked) Read(p []byte) (int, error) {
	if c.after {
		return 0, c.end
	}
	rest := len(c.data) - c.pos
	if rest == 0 {
		c.after = true
		return 0, c.end
	}
	if len(p) == 0 {
		return 0, nil
	}
	max := len(p)
	if rest < max {
		max = rest
	}
	n := max
	if c.choose {
		lo := 1
		if c.empty > 0 {
			lo = 0
		}
		n = lo + sym.Choice(max-lo+1)
		if n == 0 {
			c.empty--
			// A reader may use all of p as scratch space.
			p[0] = 0xff
			return 0, nil
		}
	}
	copy(p, c.data[c.pos:c.pos+n])
	c.pos += n
	if c.pos == len(c.data) && c.choose && sym.Choice(2) == 1 {
		c.after = true
		return n, c.end
	}
	return n, nil
}

type closing struct {
	chunked
	cerr error
}

func (c *closing) Close() error { c.closed++; return c.cerr }

func endErr() error {
	if sym.Choice(2) == 1 {
		return errRead
	}
	return goio.EOF
}

func want(end error) error {
	if end == goio.EOF {
		return iter.EOI
	}
	return end
}

// C15_Bytes: bytes of a reader under any chunking.
func C15_Bytes() {
	data := sym.Bytes(sym.Choice(4))
	end := endErr()
	rd := &chunked{data: data, end: end, empty: 2, choose: true}
	it := iter.OfReader(rd)
	for i := range data {
		b, err := it.Next()
		sym.Assert(err == nil, "bytes: error before the last byte")
		sym.Assert(b == data[i], "bytes: another byte")
	}
	for i := 0; i < 2; i++ {
		b, err := it.Next()
		sym.Assert(b == 0 && err == want(end), "bytes: wrong end")
	}
	sym.Observe(len(data))
}

// C15_BytesGen: the iterating function keeps returning the same error, and closes a closer.
func C15_BytesGen() {
	data := sym.Bytes(sym.Choice(3))
	end := endErr()
	rd := &closing{chunked: chunked{data: data, end: end, choose: true}}
	if sym.Choice(2) == 1 {
		rd.cerr = errors.New("close")
	}
	f := iter.ReaderIterGen(rd)
	for i := range data {
		b, err := f()
		sym.Assert(err == nil && b == data[i], "bytes: wrong byte")
		sym.Assert(rd.closed == 0 || i == len(data)-1, "bytes: closed before the last byte")
	}
	w := want(end)
	if end == goio.EOF && rd.cerr != nil {
		w = rd.cerr
	}
	for i := 0; i < 3; i++ {
		b, err := f()
		sym.Assert(b == 0 && err == w, "bytes: another call after the end gives another error")
	}
	if end == goio.EOF {
		sym.Assert(rd.closed == 1, "bytes: not closed exactly once")
	}
	// A nil reader is an empty one.
	_, err := iter.ReaderIterGen(nil)()
	sym.Assert(err == iter.EOI, "bytes: nil reader")
}

// announced is the length a first byte calls for.
func announced(b byte) int {
	switch {
	case b&0xe0 == 0xc0:
		return 2
	case b&0xf0 == 0xe0:
		return 3
	case b&0xf8 == 0xf0:
		return 4
	}
	return 1
}

// runes compares the iteration with the runes of data.
func runes(rd goio.Reader, data []byte, end error) {
	it := iter.OfReaderAsRunes(rd)
	for len(data) > 0 {
		r, n := utf8.DecodeRune(data)
		got, err := it.Next()
		if r == utf8.RuneError && n == 1 {
			if end != goio.EOF && len(data) < announced(data[0]) {
				// The rest of the character may never have come because of the error.
				sym.Reach("failed inside a character")
				sym.Assert(got == 0 && (err == errRead || err == iter.InvalidUTF8EncodingError), "runes: neither error")
			} else {
				sym.Reach("invalid")
				sym.Assert(got == 0 && err == iter.InvalidUTF8EncodingError, "runes: invalid UTF-8 accepted")
			}
			got2, err2 := it.Next()
			sym.Assert(got2 == 0 && err2 == err, "runes: the error is not repeated")
			return
		}
		sym.Reach("valid")
		sym.Assert(err == nil, "runes: valid UTF-8 rejected")
		sym.Assert(got == r, "runes: another rune")
		data = data[n:]
	}
	for i := 0; i < 2; i++ {
		got, err := it.Next()
		sym.Assert(got == 0 && err == want(end), "runes: wrong end")
	}
}

// C15_Runes: all byte strings up to 4 bytes, whole reads.
//
//sym:bv
func C15_Runes() {
	data := sym.Bytes(sym.Choice(6))
	end := endErr()
	runes(&chunked{data: data, end: end}, data, end)
}

// C15_Chunks: any chunking of two characters' worth of bytes.
//
//sym:bv
func C15_Chunks() {
	n := 4
	if sym.Thorough() {
		n = 5
	}
	data := sym.Bytes(sym.Choice(n + 1))
	end := endErr()
	runes(&chunked{data: data, end: end, empty: 1, choose: true}, data, end)
}

// C15_RunesGen: the iterating function repeats its error.
//
//sym:bv
func C15_RunesGen() {
	data := sym.Bytes(1 + sym.Choice(2))
	end := endErr()
	f := iter.ReaderAsRunesIterGen(&chunked{data: data, end: end})
	var err error
	for i := 0; i < 3 && err == nil; i++ {
		_, err = f()
	}
	sym.Assert(err != nil, "runes: no end")
	r, err2 := f()
	sym.Assert(r == 0 && err2 == err, "runes: another call after an error gives another result")
	_, err = iter.ReaderAsRunesIterGen(nil)()
	sym.Assert(err == iter.EOI, "runes: nil reader")
}

// C15_Strings: runes of a string.
//
//sym:bv
func C15_Strings() {
	s := sym.String(sym.Choice(4))
	f := iter.StringAsRunesIterGen(s)
	it := iter.OfStringAsRunes(s)
	bad := false
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		if !bad {
			got, err := f()
			if r == utf8.RuneError && n == 1 {
				bad = true
				sym.Assert(err == iter.InvalidUTF8EncodingError && got == 0, "string runes: invalid UTF-8 accepted")
			} else {
				sym.Assert(err == nil && got == r, "string runes: another rune")
			}
		}
		got, err := it.Next()
		sym.Assert(err == nil && got == r, "OfStringAsRunes: another rune")
		s = s[n:]
	}
	_, err := it.Next()
	sym.Assert(err == iter.EOI, "OfStringAsRunes: end")
	if !bad {
		_, err = f()
		sym.Assert(err == iter.EOI, "string runes: end")
	}
}
