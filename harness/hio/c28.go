// Package hio: the readers and writers that fail on purpose, and the writer adapters.
package hio

import (
	"errors"
	goio "io"
	"unicode/utf8"

	"github.com/bantling/micro/io"
	"github.com/bantling/micro/io/writer"
	"github.com/bantling/micro/tuple"
	"verifharness/sym"
)

var errFail = errors.New("failed")

func size(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}
	return quick
}

func eq(a, b []byte) bool { return string(a) == string(b) }

// C28_ErrorReader: whatever the sizes of the buffers, exactly the bytes given are read, in order and nothing else of
// the buffer is written, then every read reports the error and no bytes.
func C28_ErrorReader() {
	data := sym.Bytes(sym.Choice(size(6, 7)))
	err := errFail
	if sym.Choice(2) == 1 {
		err = goio.EOF
	}
	input := append([]byte{}, data...)
	r := io.NewErrorReader(input, err)
	var (
		got   []byte
		fails int
	)
	for i := 0; i < size(4, 5); i++ {
		n := sym.Choice(size(5, 7))
		p := make([]byte, n, n+2)
		for j := range p {
			p[j] = 0xAA
		}
		c, e := r.Read(p)
		if len(got) == len(data) {
			sym.Assert(c == 0 && e == err, "when no bytes are left the error is returned")
			fails++
		} else {
			left := len(data) - len(got)
			if n < left {
				left = n
			}
			sym.Assert(e == nil, "no error before the bytes are read")
			sym.Assert(c == left, "a read delivers what was asked for or what is left")
			got = append(got, p[:c]...)
		}
		for j := c; j < n; j++ {
			sym.Assert(p[j] == 0xAA, "the buffer past the bytes read is unchanged")
		}
		sym.Assert(eq(got, data[:len(got)]), "the bytes read are the ones given")
		sym.Observe(c)
	}
	sym.Assert(eq(input, data), "the input is unchanged")
	if fails > 1 {
		sym.Reach("failed twice")
	}
}

// C28_ErrorReaderAll: reading everything through the standard library gives all the bytes and the error.
func C28_ErrorReaderAll() {
	data := sym.Bytes(sym.Choice(size(7, 11)))
	all, err := goio.ReadAll(io.NewErrorReader(data, errFail))
	sym.Assert(err == errFail, "the error is returned by ReadAll")
	sym.Assert(eq(all, data), "all bytes are read by ReadAll")
	all, err = goio.ReadAll(io.NewErrorReader(data, goio.EOF))
	sym.Assert(err == nil && eq(all, data), "a reader that ends with io.EOF is an ordinary reader")
}

// C28_ErrorWriter: whatever the sizes of the writes, count bytes are accepted in total, the first ones, then every
// write reports the error and accepts nothing; a negative count accepts nothing and reports nothing.
func C28_ErrorWriter() {
	count := sym.IntIn(-2, size(5, 6))
	w := io.NewErrorWriter(count, errFail)
	var sent []byte // bytes accepted so far
	for i := 0; i < size(3, 4); i++ {
		p := sym.Bytes(sym.Choice(size(4, 5)))
		q := append([]byte{}, p...)
		c, e := w.Write(p)
		sym.Assert(eq(p, q), "a write does not change the bytes")
		switch {
		case count < 0:
			sym.Assert(c == 0 && e == nil, "a writer with a negative count accepts nothing without an error")
			sym.Reach("negative")
		case len(sent) == count:
			sym.Assert(c == 0 && e == errFail, "a full writer returns the error")
			sym.Reach("full")
		default:
			want := len(p)
			if count-len(sent) < want {
				want = count - len(sent)
				sym.Reach("partial")
			}
			sym.Assert(e == nil && c == want, "a write accepts what fits")
			sent = append(sent, p[:want]...)
		}
		sym.Assert(eq(w.Output(), sent), "the output is the bytes accepted, in order")
		for j := range p { // the caller may reuse its buffer
			p[j] = 0xAA
		}
		sym.Assert(eq(w.Output(), sent), "the output is a copy of the bytes accepted")
		sym.Observe(c)
	}
}

// sink is a destination that accepts everything until it has been written to good times; then it fails in a way the
// solver chooses: with an error, having accepted some of the bytes or none or all, or by accepting fewer bytes
// without an error.
type sink struct {
	good   int
	calls  int
	out    []byte
	taken  int // bytes accepted by the failing call
	offer  []byte
	err    error
	failed bool
}

func (s *sink) Write(p []byte) (int, error) {
	s.calls++
	if s.calls <= s.good {
		s.out = append(s.out, p...)
		return len(p), nil
	}
	s.failed = true
	s.offer = append([]byte{}, p...)
	if len(p) == 0 || sym.Choice(2) == 1 {
		s.err = errFail
		s.taken = sym.Choice(len(p) + 1)
	} else {
		s.taken = sym.Choice(len(p))
	}
	s.out = append(s.out, p[:s.taken]...)
	return s.taken, s.err
}

// check: vals encoded as enc says were written through an adapter, w is what Write returned.
func (s *sink) check(enc [][]byte, err error) {
	var all []byte
	for i, e := range enc {
		if i == s.good {
			break
		}
		all = append(all, e...)
	}
	if s.good >= len(enc) {
		sym.Assert(err == nil, "no error when everything was accepted")
		sym.Assert(!s.failed && s.calls == len(enc), "every value is written once")
		sym.Assert(eq(s.out, all), "everything is written in order")
		sym.Reach("all")
		return
	}
	e := enc[s.good]
	sym.Assert(s.calls == s.good+1, "nothing is written after a failure")
	sym.Assert(eq(s.offer, e), "every value is written whole")
	sym.Assert(eq(s.out, append(all, e[:s.taken]...)), "values are written in order")
	if s.err != nil {
		sym.Assert(err == s.err, "the error of the destination is returned")
		sym.Reach("error")
	} else {
		sym.Assert(err != nil, "a value that was not written whole is an error")
		sym.Reach("short")
	}
}

func newSink(n int) *sink { return &sink{good: sym.Choice(n + 1)} }

// C28_Bytes: bytes are passed to the destination one by one.
func C28_Bytes() {
	vals := sym.Bytes(sym.Choice(size(5, 7)))
	s := newSink(len(vals))
	err := writer.OfIOWriterAsBytes(s).Write(vals...)
	var enc [][]byte
	for _, v := range vals {
		enc = append(enc, []byte{v})
	}
	s.check(enc, err)
}

// encoded is the UTF-8 encoding of a rune, the replacement character for one that has none.
func encoded(r rune) []byte {
	u := uint32(r)
	switch {
	case u < 0x80:
		return []byte{byte(u)}
	case u < 0x800:
		return []byte{0xC0 | byte(u>>6), 0x80 | byte(u&0x3F)}
	case u > utf8.MaxRune || (u >= 0xD800 && u <= 0xDFFF):
		return []byte{0xEF, 0xBF, 0xBD}
	case u < 0x10000:
		return []byte{0xE0 | byte(u>>12), 0x80 | byte(u>>6&0x3F), 0x80 | byte(u&0x3F)}
	}
	return []byte{0xF0 | byte(u>>18), 0x80 | byte(u>>12&0x3F), 0x80 | byte(u>>6&0x3F), 0x80 | byte(u&0x3F)}
}

// C28_Runes: runes, valid or not, are passed to the destination as their UTF-8 encoding.
//
//sym:bv
func C28_Runes() {
	n := sym.Choice(size(3, 4))
	var (
		vals []rune
		enc  [][]byte
	)
	for i := 0; i < n; i++ {
		r := sym.Int32()
		vals = append(vals, r)
		enc = append(enc, encoded(r))
	}
	s := newSink(n)
	err := writer.OfIOWriterAsRunes(s).Write(vals...)
	s.check(enc, err)
}

func texts(eol string) ([]string, [][]byte) {
	var (
		vals []string
		enc  [][]byte
	)
	for i, n := 0, sym.Choice(size(3, 4)); i < n; i++ {
		v := sym.String(sym.Choice(size(3, 4)))
		vals = append(vals, v)
		enc = append(enc, []byte(v+eol))
	}
	return vals, enc
}

// C28_Strings: strings are passed to the destination as they are.
func C28_Strings() {
	vals, enc := texts("")
	s := newSink(len(vals))
	err := writer.OfIOWriterAsStrings(s).Write(vals...)
	s.check(enc, err)
}

// C28_Lines: strings are passed to the destination followed by a line ending, that of the system the check runs on.
func C28_Lines() {
	vals, enc := texts("\n")
	s := newSink(len(vals))
	err := writer.OfIOWriterAsLines(s).Write(vals...)
	s.check(enc, err)
}

// C28_Calls: what is written by several calls is written after what earlier calls wrote, by each of the adapters.
func C28_Calls() {
	kind := sym.Choice(3)
	s := &sink{good: 100}
	var (
		wb   = writer.OfIOWriterAsBytes(s)
		ws   = writer.OfIOWriterAsStrings(s)
		wl   = writer.OfIOWriterAsLines(s)
		want []byte
	)
	for i := 0; i < size(3, 4); i++ {
		v := sym.String(sym.Choice(3))
		var err error
		switch kind {
		case 0:
			err = wb.Write([]byte(v)...)
			want = append(want, v...)
		case 1:
			err = ws.Write(v)
			want = append(want, v...)
		default:
			err = wl.Write(v, v)
			want = append(want, v+"\n"+v+"\n"...)
		}
		sym.Assert(err == nil, "no error")
		sym.Assert(eq(s.out, want), "calls write in order")
	}
}

// C28_Slice: values are appended to the slice, whatever its content and spare capacity.
func C28_Slice() {
	n, spare := sym.Choice(3), sym.Choice(3)
	dst := make([]int, n, n+spare)
	var want []int
	for i := range dst {
		dst[i] = sym.Int()
		want = append(want, dst[i])
	}
	if sym.Choice(2) == 1 && n+spare == 0 {
		dst = nil
	}
	w := writer.OfSliceWriter(&dst)
	for c := 0; c < 2; c++ {
		var vals []int
		for i, k := 0, sym.Choice(size(3, 4)); i < k; i++ {
			vals = append(vals, sym.Int())
		}
		want = append(want, vals...)
		sym.Assert(w.Write(vals...) == nil, "no error")
		sym.Assert(len(dst) == len(want), "every value is appended once")
		for i := range want {
			sym.Assert(dst[i] == want[i], "values are appended in order")
		}
	}
}

// C28_Map: the map holds the last value written for each key, and what it held for the others.
func C28_Map() {
	k0, v0 := sym.Int(), sym.Int()
	dst := map[int]int{k0: v0}
	w := writer.OfMapWriter(dst)
	ks, vs := []int{k0}, []int{v0}
	for c := 0; c < 2; c++ {
		var vals []tuple.Two[int, int]
		for i, k := 0, sym.Choice(size(3, 4)); i < k; i++ {
			t := tuple.Of2(sym.Int(), sym.Int())
			vals = append(vals, t)
			ks, vs = append(ks, t.T), append(vs, t.U)
		}
		sym.Assert(w.Write(vals...) == nil, "no error")
	}
	probe := sym.Int()
	want, have := 0, false
	for i, k := range ks {
		if k == probe {
			want, have = vs[i], true
		}
	}
	got, ok := dst[probe]
	sym.Assert(ok == have && got == want, "the last value written for a key is the one held")
}

// C28_Writer: a writer calls its function once for each value in order until it fails.
func C28_Writer() {
	n := sym.Choice(size(4, 6))
	bad := sym.Choice(size(5, 7))
	var vals, got []int
	for i := 0; i < n; i++ {
		vals = append(vals, sym.Int())
	}
	w := writer.NewWriter(func(v int) error {
		got = append(got, v)
		if len(got) == bad {
			return errFail
		}
		return nil
	})
	err := w.Write(vals...)
	want := n
	if bad >= 1 && bad <= n {
		want = bad
		sym.Assert(err == errFail, "the error of the function is returned")
		sym.Reach("error")
	} else {
		sym.Assert(err == nil, "no error")
	}
	sym.Assert(len(got) == want, "the function is called once for each value until it fails")
	for i := range got {
		sym.Assert(got[i] == vals[i], "values are written in order")
	}
	func() {
		defer func() { sym.Assert(recover() != nil, "a nil function panics") }()
		writer.NewWriter[int](nil)
	}()
}

// C28_Long: many bytes, two of them free, read and written in pieces of several sizes.
func C28_Long() {
	n := []int{33, 100, 600}[sym.Choice(3)]
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i * 7)
	}
	data[n/2], data[n-1] = sym.Uint8(), sym.Uint8()
	piece := []int{1, 7, 32, 512, 1000}[sym.Choice(5)]

	r := io.NewErrorReader(append([]byte{}, data...), errFail)
	var got []byte
	for {
		p := make([]byte, piece)
		c, err := r.Read(p)
		if err != nil {
			sym.Assert(c == 0 && err == errFail, "when no bytes are left the error is returned")
			break
		}
		sym.Assert(c == piece || c == n-len(got), "a read delivers what was asked for or what is left")
		got = append(got, p[:c]...)
	}
	sym.Assert(eq(got, data), "the bytes read are the ones given")

	count := []int{0, 1, n / 2, n - 1, n}[sym.Choice(5)]
	w := io.NewErrorWriter(count, errFail)
	sent := 0
	for i := 0; i < n; i += piece {
		end := i + piece
		if end > n {
			end = n
		}
		c, err := w.Write(data[i:end])
		if sent == count {
			sym.Assert(c == 0 && err == errFail, "a full writer returns the error")
			continue
		}
		want := end - i
		if want > count-sent {
			want = count - sent
		}
		sym.Assert(c == want && err == nil, "a write accepts what fits")
		sent += c
	}
	sym.Assert(eq(w.Output(), data[:count]), "the output is the bytes accepted, in order")

	s := &sink{good: n + 1}
	t := string(data)
	err := error(nil)
	want := data
	switch sym.Choice(4) {
	case 0:
		err = writer.OfIOWriterAsBytes(s).Write(data...)
	case 1:
		err = writer.OfIOWriterAsStrings(s).Write(t, t, t)
		want = []byte(t + t + t)
	case 2:
		err = writer.OfIOWriterAsLines(s).Write(t, "", t)
		want = []byte(t + "\n\n" + t + "\n")
	case 3:
		var rs []rune
		want = nil
		for i := 0; i < n; i++ {
			rs = append(rs, rune(i*1999))
			want = append(want, encoded(rune(i*1999))...)
		}
		err = writer.OfIOWriterAsRunes(s).Write(rs...)
	}
	sym.Assert(err == nil && eq(s.out, want), "everything is written in order")
}

// C28_LongSlice: many values appended to a slice and put into a map.
func C28_LongSlice() {
	n := []int{20, 100}[sym.Choice(2)]
	vals := make([]int, n)
	for i := range vals {
		vals[i] = i
	}
	vals[n/2] = sym.Int()
	dst := make([]int, 1, 1+sym.Choice(3)*n/2)
	w := writer.OfSliceWriter(&dst)
	sym.Assert(w.Write(vals...) == nil && w.Write() == nil && w.Write(vals...) == nil, "no error")
	sym.Assert(len(dst) == 1+2*n, "every value is appended once")
	for i, v := range vals {
		sym.Assert(dst[1+i] == v && dst[1+n+i] == v, "values are appended in order")
	}
	m := map[int]int{}
	mw := writer.OfMapWriter(m)
	for i, v := range vals {
		sym.Assert(mw.Write(tuple.Of2(i%15, v)) == nil, "no error")
	}
	sym.Assert(len(m) == 15, "the last value written for a key is the one held")
	for k := range m {
		l := (n-1-k)/15*15 + k
		sym.Assert(m[k] == vals[l], "the last value written for a key is the one held")
	}
}
