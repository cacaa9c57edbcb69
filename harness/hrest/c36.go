package hrest

import (
	"encoding/csv"
	"errors"
	goio "io"
	"net/http"

	"github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/encoding/json/parse"
	"github.com/bantling/micro/iter"
	"github.com/bantling/micro/rest"
	"verifharness/sym"
)

var errRead = errors.New("read failed")

// body is a request body that ends with an error of its own choice.
type body struct {
	data   string
	pos    int
	end    error
	closed int
	step   int // bytes each read gives, all if zero
}

func (b *body) Read(p []byte) (int, error) {
	if b.pos == len(b.data) {
		return 0, b.end
	}
	rest := b.data[b.pos:]
	if b.step > 0 && len(rest) > b.step {
		rest = rest[:b.step]
	}
	n := copy(p, rest)
	b.pos += n
	return n, nil
}

func (b *body) Close() error { b.closed++; return nil }

func newBody(data string) *body {
	b := &body{data: data, end: goio.EOF, step: sym.Choice(2)}
	if sym.Choice(2) == 1 {
		b.end = errRead
	}
	return b
}

// rows compares the rows and the error an iterator gives with those the standard library reads.
func rows(it iter.Iter[[]string], data string, end error) {
	ref := csv.NewReader(&body{data: data, end: end})
	for {
		want, werr := ref.Read()
		got, gerr := it.Next()
		if werr != nil {
			sym.Assert(got == nil, "no row comes with an error")
			if werr == goio.EOF {
				sym.Assert(gerr == iter.EOI, "the iterator ends after the last row")
				sym.Reach("end")
			} else if werr == errRead {
				sym.Assert(gerr == errRead, "the error of the reader is returned")
				sym.Reach("read error")
			} else {
				sym.Assert(gerr != nil && gerr != iter.EOI, "a document that is not well formed is an error")
				sym.Reach("malformed")
			}
			got, again := it.Next()
			sym.Assert(got == nil && again == gerr, "the error is returned from then on")
			return
		}
		sym.Assert(gerr == nil, "every row is returned")
		sym.Assert(len(got) == len(want), "a row has all its fields")
		for i := range want {
			sym.Assert(got[i] == want[i], "the fields of a row are those of the document")
		}
		sym.Reach("row")
	}
}

// C36_CSV: a CSV document is iterated row by row, whatever the text, and a malformed one ends in an error.
func C36_CSV() {
	data := sym.StringOf(sym.Choice(size(5, 6)), "a,\"\n\r ")
	b := newBody(data)
	rows(iter.OfCSV(b), data, b.end)
	sym.Assert(b.closed == 0, "the reader is not closed")
}

// C36_CSVFields: rows of quoted and unquoted fields, whose quotes and separators are data.
func C36_CSVFields() {
	var data string
	for i, n := 0, 1+sym.Choice(size(2, 3)); i < n; i++ {
		if i > 0 {
			data += ","
		}
		data += "\"" + sym.StringOf(sym.Choice(3), "a,\"\n;") + "\""
	}
	data += "\n" + sym.StringOf(sym.Choice(3), "b,#")
	rows(iter.OfCSV(&body{data: data, end: goio.EOF}), data, goio.EOF)
}

// C36_NoCSV: no reader is an empty document.
func C36_NoCSV() {
	it := iter.OfCSV(nil)
	for i := 0; i < 2; i++ {
		row, err := it.Next()
		sym.Assert(row == nil && err == iter.EOI, "no reader is an empty document")
	}
}

// value is one of the values of a header, or any text about as long.
func value(known string) string {
	switch sym.Choice(4) {
	case 0:
		return known
	case 1:
		return known[:len(known)-1] + sym.String(1)
	case 2:
		return known + sym.String(1)
	}
	return sym.String(sym.Choice(4))
}

// request has the header given and another one, which says as much but does not count.
func request(name, val string, b *body) *http.Request {
	h := http.Header{}
	other := []string{"X-Other", "Accept", "Accept-Encoding", "Content-Encoding", "Content-Type"}[sym.Choice(5)]
	if other != name {
		h.Set(other, []string{val, "gzip", "text/csv", "application/json"}[sym.Choice(4)])
	}
	if val != "" {
		h.Set(name, val)
	}
	return &http.Request{Method: []string{"", "GET", "PUT"}[sym.Choice(3)], Header: h, Body: b, ContentLength: int64(sym.Choice(2)) - 1}
}

// C36_NegotiateCSV: the body is read as CSV exactly when the content type says so.
func C36_NegotiateCSV() {
	v := value("text/csv")
	data := "a," + sym.StringOf(1, "bc") + "\nd,e\n"
	b := newBody(data)
	it := rest.NegotiateCSVContent(request("Content-Type", v, b))
	if v != "text/csv" {
		sym.Assert(it == nil, "the body is not read as CSV unless the content type says so")
		sym.Assert(b.pos == 0 && b.closed == 0, "the body is left unread")
		sym.Reach("other")
		return
	}
	sym.Assert(it != nil, "the body is read as CSV when the content type says so")
	rows(it, data, b.end)
}

// C36_NegotiateJSON: the body is read as JSON exactly when the content type says so.
func C36_NegotiateJSON() {
	v := value("application/json")
	data := []string{"{\"a\":1}", "[1,\"x\",null]", "[1,", "", "x"}[sym.Choice(5)]
	b := newBody(data)
	it := rest.NegotiateJSONContent(request("Content-Type", v, b))
	if v != "application/json" {
		sym.Assert(it == nil, "the body is not read as JSON unless the content type says so")
		sym.Assert(b.pos == 0 && b.closed == 0, "the body is left unread")
		sym.Reach("other")
		return
	}
	sym.Assert(it != nil, "the body is read as JSON when the content type says so")
	ref := parse.Iterate(&body{data: data, end: b.end})
	for {
		want, werr := ref.Next()
		got, gerr := it.Next()
		sym.Assert((gerr == nil) == (werr == nil) && (gerr == iter.EOI) == (werr == iter.EOI), "the values of the document are iterated")
		if werr != nil {
			sym.Assert((gerr == errRead) == (werr == errRead), "the error of the body is returned")
			return
		}
		sym.Assert(jsonEq(got, want), "the values of the document are iterated in order")
		sym.Reach("value")
	}
}

// jsonEq compares two values.
func jsonEq(a, b json.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Type() {
	case json.Object:
		x, y := a.AsMap(), b.AsMap()
		for k, v := range x {
			if w, ok := y[k]; !ok || !jsonEq(v, w) {
				return false
			}
		}
		return len(x) == len(y)
	case json.Array:
		x, y := a.AsSlice(), b.AsSlice()
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if !jsonEq(x[i], y[i]) {
				return false
			}
		}
		return true
	case json.Null:
		return true
	}
	return a.AsString() == b.AsString()
}

// C36_NoGzip: the body is passed on as it is unless the header says gzip.
func C36_NoGzip() {
	v := value("gzip")
	if v == "gzip" {
		v = ""
	}
	b := newBody(sym.String(sym.Choice(3)))
	r := rest.AcceptGzip(request("Accept-Encoding", v, b))
	sym.Assert(r == goio.Reader(b), "the body is passed on unless it is compressed")
	sym.Assert(b.pos == 0 && b.closed == 0, "the body is left unread")
}

// stored is a gzip file that holds the text uncompressed, with the check value given.
func stored(text string, sum uint32) string {
	n := len(text)
	f := []byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255, 1, byte(n), byte(n >> 8), ^byte(n), ^byte(n >> 8)}
	f = append(f, text...)
	for i := 0; i < 4; i++ {
		f = append(f, byte(sum>>(8*i)))
	}
	return string(append(f, byte(n), byte(n>>8), 0, 0))
}

// crc is the check value of gzip.
func crc(text string) uint32 {
	c := ^uint32(0)
	for i := 0; i < len(text); i++ {
		c ^= uint32(text[i])
		for j := 0; j < 8; j++ {
			if c&1 == 1 {
				c = c>>1 ^ 0xEDB88320
			} else {
				c >>= 1
			}
		}
	}
	return ^c
}

// C36_Gzip: the body is decompressed when the header says gzip; a body that is not gzip panics, one that is damaged
// ends in an error.
func C36_Gzip() {
	text := []string{"", "a", "foobar"}[sym.Choice(3)]
	sum := crc(text)
	data := stored(text, sum)
	bad := sym.Choice(3)
	switch bad {
	case 1:
		data = stored(text, sum+1)
	case 2:
		data = data[1:]
	}
	b := &body{data: data, end: goio.EOF, step: sym.Choice(3)}
	var (
		r        goio.Reader
		panicked = true
	)
	func() {
		defer func() { recover() }()
		r = rest.AcceptGzip(request("Accept-Encoding", "gzip", b))
		panicked = false
	}()
	sym.Assert(panicked == (bad == 2), "a body that is not gzip panics")
	if panicked {
		return
	}
	all, err := goio.ReadAll(r)
	sym.Assert((err != nil) == (bad == 1), "a damaged body is an error")
	if err == nil {
		sym.Assert(string(all) == text, "the body is decompressed")
		sym.Reach("decompressed")
	}
}

// C36_Long: documents of many rows, long fields and more than fits a buffer.
func C36_Long() {
	long := ""
	for n := []int{10, 700, 5000}[sym.Choice(3)]; len(long) < n; {
		long += "field é,\"\"\n "
	}
	data := ""
	at := sym.Choice(2) * 11
	for i := 0; i < 12; i++ {
		f := "x"
		if i == at {
			f = sym.StringOf(1, "ab\n,\"")
		}
		data += "a" + f + ",\"" + long + "\"\r\n"
		if i%5 == 2 {
			data += "\n"
		}
	}
	b := newBody(data)
	b.step *= 1000
	rows(iter.OfCSV(b), data, b.end)
}

// C36_CSVBytes: rows that hold any bytes.
func C36_CSVBytes() {
	pre := []string{"", "a,", "a\nb", "\"", "x,\"y"}[sym.Choice(5)]
	post := []string{"", ",b", "\"", "\nc"}[sym.Choice(4)]
	data := pre + sym.String(size(2, 3)) + post
	rows(iter.OfCSV(&body{data: data, end: goio.EOF}), data, goio.EOF)
}

// C36_CSVOdd: characters that mean something in other kinds of text.
func C36_CSVOdd() {
	data := sym.StringOf(sym.Choice(4), ";#\t'\\|,\"") + []string{"\n", "", "a\n"}[sym.Choice(3)] + sym.StringOf(sym.Choice(2), "#;=\v\f") + "1,\xef\xbb\xbf"
	data = []string{"", "\xef\xbb\xbf", "\u00a0", "\xff"}[sym.Choice(4)] + data
	rows(iter.OfCSV(&body{data: data, end: goio.EOF}), data, goio.EOF)
}
