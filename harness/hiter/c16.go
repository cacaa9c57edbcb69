package hiter

import (
	goio "io"
	"unicode/utf8"

	"github.com/bantling/micro/iter"
	"verifharness/sym"
)

// lines are the lines of s: LF, CR and CRLF each end one; an unterminated rest is a line, an empty rest is not.
func lines(s string) (r []string) {
	from := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '\n' && s[i] != '\r' {
			continue
		}
		r = append(r, s[from:i])
		if s[i] == '\r' && i+1 < len(s) && s[i+1] == '\n' {
			i++
		}
		from = i + 1
	}
	if from < len(s) {
		r = append(r, s[from:])
	}
	return
}

func text(n int) string {
	if sym.Choice(2) == 0 {
		return sym.StringOf(n, "\r\na")
	}
	s := sym.String(n)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] < utf8.RuneSelf)
	}
	return s
}

// C16_Lines: every text over CR, LF and other characters.
func C16_Lines() {
	max := 6
	if sym.Thorough() {
		max = 8
	}
	s := text(sym.Choice(max + 1))
	var next func() (string, error)
	switch sym.Choice(4) {
	case 0:
		next = iter.OfStringAsLines(s).Next
	case 1:
		next = iter.OfReaderAsLines(&chunked{data: []byte(s), end: goio.EOF}).Next
	case 2:
		next = iter.StringAsLinesIterGen(s)
	case 3:
		next = iter.ReaderAsLinesIterGen(&chunked{data: []byte(s), end: goio.EOF})
	}
	for _, w := range lines(s) {
		l, err := next()
		sym.Assert(err == nil, "lines: a line is lost")
		sym.Assert(l == w, "lines: another line")
	}
	for i := 0; i < 2; i++ {
		l, err := next()
		sym.Assert(l == "" && err == iter.EOI, "lines: no end after the last line")
	}
}

// C16_Multibyte: characters of any length between terminators come through whole.
//
//sym:bv
func C16_Multibyte() {
	s := sym.String(2 + sym.Choice(2))
	sym.Assume(utf8.ValidString(s))
	k := sym.Choice(3)
	term := []string{"\n", "\r", "\r\n"}[k]
	it := iter.OfStringAsLines(s + term + s)
	for _, w := range lines(s + term + s) {
		l, err := it.Next()
		sym.Assert(err == nil && l == w, "lines: multibyte text changed")
	}
	_, err := it.Next()
	sym.Assert(err == iter.EOI, "lines: end")
}

// C16_Errors: a read error is returned, forever, after the lines terminated before it.
func C16_Errors() {
	s := sym.StringOf(sym.Choice(5), "\r\na")
	it := iter.OfReaderAsLines(&chunked{data: []byte(s), end: errRead})
	w := lines(s)
	for _, l := range w[:len(w)] {
		got, err := it.Next()
		if err != nil {
			sym.Reach("unterminated at the error")
			break
		}
		sym.Assert(got == l, "lines: another line before the error")
	}
	for i := 0; i < 2; i++ {
		l, err := it.Next()
		sym.Assert(l == "" && err == errRead, "lines: read error not returned")
	}
	// Lines terminated before the error are not lost.
	it = iter.OfReaderAsLines(&chunked{data: []byte(s), end: errRead})
	n := len(w)
	if n > 0 && s[len(s)-1] == 'a' {
		n--
	}
	for i := 0; i < n; i++ {
		got, err := it.Next()
		sym.Assert(err == nil && got == w[i], "lines: a terminated line is lost to the error")
	}
}
