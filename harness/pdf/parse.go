// Package pdf is an independent, strict reader for the PDF files under test.
// It shares no code with gopdf.
package pdf

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"sort"
	"strconv"
)

type Name string
type Ref struct{ Num, Gen int }
type Str []byte
type Arr []any
type Null struct{}
type Int int64
type Real float64
type Op string

// Dict keeps the keys in file order too.
type Dict struct {
	Keys []Name
	M    map[Name]any
}

func (d *Dict) Get(k Name) any {
	if d == nil {
		return nil
	}
	return d.M[k]
}
func (d *Dict) Has(k Name) bool {
	if d == nil {
		return false
	}
	_, ok := d.M[k]
	return ok
}

type Stream struct {
	Dict *Dict
	Raw  []byte
}

type Doc struct {
	Data    []byte
	Objs    map[int]any
	Offs    map[int]int64
	Order   []int // object numbers in file order
	Trailer *Dict
	Size    int
	XrefOff int
	Version string
}

type parseError struct{ msg string }

func (e parseError) Error() string { return e.msg }

func fail(f string, a ...any) { panic(parseError{fmt.Sprintf(f, a...)}) }

// Lexer parses objects from a byte slice.
type Lexer struct {
	b       []byte
	p       int
	content bool // content stream: no references, operators allowed
	depth   int
}

func NewContentLexer(b []byte) *Lexer { return &Lexer{b: b, content: true} }

func isSpace(c byte) bool {
	return c == 0 || c == 9 || c == 10 || c == 12 || c == 13 || c == 32
}
func isDelim(c byte) bool {
	switch c {
	case '(', ')', '<', '>', '[', ']', '{', '}', '/', '%':
		return true
	}
	return false
}
func isRegular(c byte) bool { return !isSpace(c) && !isDelim(c) }

func (l *Lexer) skip() {
	for l.p < len(l.b) {
		c := l.b[l.p]
		if isSpace(c) {
			l.p++
		} else if c == '%' {
			for l.p < len(l.b) && l.b[l.p] != '\n' && l.b[l.p] != '\r' {
				l.p++
			}
		} else {
			return
		}
	}
}

func (l *Lexer) ctx() string {
	s, e := l.p-30, l.p+30
	if s < 0 {
		s = 0
	}
	if e > len(l.b) {
		e = len(l.b)
	}
	return fmt.Sprintf("at %d near %q", l.p, l.b[s:e])
}

func (l *Lexer) regular() string {
	s := l.p
	for l.p < len(l.b) && isRegular(l.b[l.p]) {
		l.p++
	}
	return string(l.b[s:l.p])
}

func hexval(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// parseNumber accepts exactly the PDF numeric syntax.
func parseNumber(s string) (any, bool) {
	i, digits, dot := 0, 0, false
	if i < len(s) && (s[i] == '+' || s[i] == '-') {
		i++
	}
	for ; i < len(s); i++ {
		c := s[i]
		if c >= '0' && c <= '9' {
			digits++
		} else if c == '.' && !dot {
			dot = true
		} else {
			return nil, false
		}
	}
	if digits == 0 {
		return nil, false
	}
	if dot {
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return nil, false
		}
		return Real(f), true
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return nil, false
	}
	return Int(n), true
}

// Next returns the next object or operator; ok is false at end of input.
func (l *Lexer) Next() (obj any, ok bool) {
	l.skip()
	if l.p >= len(l.b) {
		return nil, false
	}
	c := l.b[l.p]
	switch {
	case c == '/':
		l.p++
		var n []byte
		for l.p < len(l.b) && isRegular(l.b[l.p]) {
			ch := l.b[l.p]
			if ch == '#' {
				if l.p+2 >= len(l.b) || hexval(l.b[l.p+1]) < 0 || hexval(l.b[l.p+2]) < 0 {
					fail("bad # escape in name %s", l.ctx())
				}
				ch = byte(hexval(l.b[l.p+1])<<4 | hexval(l.b[l.p+2]))
				l.p += 2
			} else if ch < 0x21 || ch > 0x7e {
				fail("raw byte %#x in name %s", ch, l.ctx())
			}
			n = append(n, ch)
			l.p++
		}
		if len(n) == 0 {
			fail("empty name %s", l.ctx())
		}
		return Name(n), true
	case c == '(':
		return l.litString(), true
	case c == '<':
		if l.p+1 < len(l.b) && l.b[l.p+1] == '<' {
			return l.dict(), true
		}
		return l.hexString(), true
	case c == '[':
		l.p++
		l.depth++
		if l.depth > 100 {
			fail("nesting too deep")
		}
		arr := Arr{}
		for {
			l.skip()
			if l.p >= len(l.b) {
				fail("unterminated array")
			}
			if l.b[l.p] == ']' {
				l.p++
				break
			}
			o, ok := l.Next()
			if !ok {
				fail("unterminated array")
			}
			if op, isOp := o.(Op); isOp {
				fail("operator %q inside array %s", string(op), l.ctx())
			}
			arr = append(arr, o)
		}
		l.depth--
		return arr, true
	case isRegular(c):
		start := l.p
		w := l.regular()
		if n, ok := parseNumber(w); ok {
			if i, isInt := n.(Int); isInt && !l.content && i >= 0 {
				// maybe a reference
				save := l.p
				l.skip()
				w2 := l.regular()
				if g, ok := parseNumber(w2); ok {
					if gi, isInt := g.(Int); isInt && gi >= 0 {
						l.skip()
						if l.p < len(l.b) && l.b[l.p] == 'R' && (l.p+1 == len(l.b) || !isRegular(l.b[l.p+1])) {
							l.p++
							return Ref{int(i), int(gi)}, true
						}
					}
				}
				l.p = save
			}
			return n, true
		}
		switch w {
		case "true":
			return true, true
		case "false":
			return false, true
		case "null":
			return Null{}, true
		}
		if l.content {
			return Op(w), true
		}
		l.p = start
		fail("unexpected token %q %s", w, l.ctx())
	}
	fail("unexpected character %q %s", c, l.ctx())
	return nil, false
}

func (l *Lexer) litString() Str {
	l.p++
	depth := 1
	out := Str{}
	for {
		if l.p >= len(l.b) {
			fail("unterminated string")
		}
		c := l.b[l.p]
		l.p++
		switch c {
		case '(':
			depth++
			out = append(out, c)
		case ')':
			depth--
			if depth == 0 {
				return out
			}
			out = append(out, c)
		case '\r':
			if l.p < len(l.b) && l.b[l.p] == '\n' {
				l.p++
			}
			out = append(out, '\n')
		case '\\':
			if l.p >= len(l.b) {
				fail("unterminated string")
			}
			e := l.b[l.p]
			l.p++
			switch e {
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case '(', ')', '\\':
				out = append(out, e)
			case '\r':
				if l.p < len(l.b) && l.b[l.p] == '\n' {
					l.p++
				}
			case '\n':
			default:
				if e >= '0' && e <= '7' {
					v := int(e - '0')
					for k := 0; k < 2 && l.p < len(l.b) && l.b[l.p] >= '0' && l.b[l.p] <= '7'; k++ {
						v = v*8 + int(l.b[l.p]-'0')
						l.p++
					}
					out = append(out, byte(v))
				} else {
					out = append(out, e)
				}
			}
		default:
			out = append(out, c)
		}
	}
}

func (l *Lexer) hexString() Str {
	l.p++
	out := Str{}
	hi := -1
	for {
		if l.p >= len(l.b) {
			fail("unterminated hex string")
		}
		c := l.b[l.p]
		l.p++
		if c == '>' {
			if hi >= 0 {
				out = append(out, byte(hi<<4))
			}
			return out
		}
		if isSpace(c) {
			continue
		}
		v := hexval(c)
		if v < 0 {
			fail("bad hex digit %q %s", c, l.ctx())
		}
		if hi < 0 {
			hi = v
		} else {
			out = append(out, byte(hi<<4|v))
			hi = -1
		}
	}
}

func (l *Lexer) dict() *Dict {
	l.p += 2
	l.depth++
	if l.depth > 100 {
		fail("nesting too deep")
	}
	d := &Dict{M: map[Name]any{}}
	for {
		l.skip()
		if l.p+1 >= len(l.b) {
			fail("unterminated dict")
		}
		if l.b[l.p] == '>' && l.b[l.p+1] == '>' {
			l.p += 2
			break
		}
		k, ok := l.Next()
		if !ok {
			fail("unterminated dict")
		}
		kn, isName := k.(Name)
		if !isName {
			fail("dict key %v is not a name %s", k, l.ctx())
		}
		l.skip()
		if l.p+1 < len(l.b) && l.b[l.p] == '>' && l.b[l.p+1] == '>' {
			fail("dict key /%s without value %s", string(kn), l.ctx())
		}
		v, ok := l.Next()
		if !ok {
			fail("dict key /%s without value", string(kn))
		}
		if _, dup := d.M[kn]; dup {
			fail("duplicate dict key /%s %s", string(kn), l.ctx())
		}
		d.Keys = append(d.Keys, kn)
		d.M[kn] = v
	}
	l.depth--
	return d
}

func (l *Lexer) expect(s string) {
	if !bytes.HasPrefix(l.b[l.p:], []byte(s)) {
		fail("expected %q %s", s, l.ctx())
	}
	l.p += len(s)
}

// Parse reads a whole file strictly.
func Parse(data []byte) (doc *Doc, err error) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(parseError); ok {
				err = pe
				return
			}
			panic(r)
		}
	}()
	d := &Doc{Data: data, Objs: map[int]any{}, Offs: map[int]int64{}}
	if len(data) < 9 || !bytes.HasPrefix(data, []byte("%PDF-1.")) || data[7] < '0' || data[7] > '7' || (data[8] != '\n' && data[8] != '\r') {
		fail("bad header")
	}
	d.Version = string(data[5:8])
	tail := bytes.TrimRight(data, "\r\n")
	if !bytes.HasSuffix(tail, []byte("\n%%EOF")) {
		fail("file does not end with %%%%EOF")
	}
	i := bytes.LastIndex(data, []byte("startxref"))
	if i < 0 {
		fail("no startxref")
	}
	if bytes.Index(data, []byte("\nstartxref\n")) < 0 {
		fail("startxref not on its own line")
	}
	l := &Lexer{b: data, p: i + len("startxref")}
	o, _ := l.Next()
	xo, ok := o.(Int)
	if !ok || int(xo) <= 0 || int(xo) >= len(data) {
		fail("bad startxref offset %v", o)
	}
	d.XrefOff = int(xo)
	l.p = int(xo)
	l.expect("xref\n")
	l.p = int(xo) + 5
	o, _ = l.Next()
	first, ok := o.(Int)
	if !ok || first != 0 {
		fail("xref must start at object 0")
	}
	o, _ = l.Next()
	n, ok := o.(Int)
	if !ok || n < 1 || int64(n) > int64(len(data)) {
		fail("bad xref count")
	}
	l.expect("\n")
	type ent struct {
		num int
		off int64
	}
	var ents []ent
	for k := 0; k < int(n); k++ {
		if l.p+20 > len(data) {
			fail("xref truncated")
		}
		e := data[l.p : l.p+20]
		l.p += 20
		for j := 0; j < 20; j++ {
			c := e[j]
			good := false
			switch {
			case j < 10, j > 10 && j < 16:
				good = c >= '0' && c <= '9'
			case j == 10, j == 16:
				good = c == ' '
			case j == 17:
				good = c == 'n' || c == 'f'
			case j == 18:
				good = c == ' ' || c == '\r'
			case j == 19:
				good = c == '\n' || c == '\r'
			}
			if !good {
				fail("bad xref entry %q", e)
			}
		}
		off, _ := strconv.ParseInt(string(e[:10]), 10, 64)
		if k == 0 {
			if e[17] != 'f' || string(e[11:16]) != "65535" {
				fail("bad free entry %q", e)
			}
			continue
		}
		if e[17] == 'n' {
			if string(e[11:16]) != "00000" {
				fail("unexpected generation %q", e)
			}
			ents = append(ents, ent{k, off})
			d.Offs[k] = off
		}
	}
	l.skip()
	l.expect("trailer")
	o, ok = l.Next()
	td, isDict := o.(*Dict)
	if !ok || !isDict {
		fail("no trailer dictionary")
	}
	d.Trailer = td
	sz, ok := td.Get("Size").(Int)
	if !ok || int64(sz) != int64(n) {
		fail("trailer /Size %v but %d xref entries", td.Get("Size"), n)
	}
	d.Size = int(n)
	l.skip()
	if l.p != i {
		fail("garbage between trailer and startxref %s", l.ctx())
	}
	sort.Slice(ents, func(a, b int) bool { return ents[a].off < ents[b].off })
	// every byte between the header and the xref belongs to exactly one object
	pos := 0
	hl := &Lexer{b: data, p: 0}
	hl.skip()
	pos = hl.p
	for idx, e := range ents {
		if int(e.off) != pos {
			fail("object %d: xref offset %d, but the next object starts at %d", e.num, e.off, pos)
		}
		end := d.XrefOff
		if idx+1 < len(ents) {
			end = int(ents[idx+1].off)
		}
		pos = d.object(e.num, int(e.off), end)
		d.Order = append(d.Order, e.num)
	}
	if pos != d.XrefOff {
		fail("garbage between the last object (%d) and the xref (%d)", pos, d.XrefOff)
	}
	return d, nil
}

func (d *Doc) object(num, off, _ int) int {
	l := &Lexer{b: d.Data, p: off}
	l.expect(fmt.Sprintf("%d 0 obj", num))
	if l.p < len(d.Data) && isRegular(d.Data[l.p]) {
		fail("bad object header %s", l.ctx())
	}
	l.skip()
	if bytes.HasPrefix(d.Data[l.p:], []byte("endobj")) {
		fail("object %d is empty", num)
	}
	o, ok := l.Next()
	if !ok {
		fail("object %d truncated", num)
	}
	l.skip()
	if dict, isDict := o.(*Dict); isDict && bytes.HasPrefix(d.Data[l.p:], []byte("stream")) {
		l.p += 6
		if l.p < len(d.Data) && d.Data[l.p] == '\r' {
			l.p++
		}
		l.expect("\n")
		var n int
		switch v := dict.Get("Length").(type) {
		case Int:
			n = int(v)
		case Ref:
			off, ok := d.Offs[v.Num]
			if !ok || off < 0 || off >= int64(len(d.Data)) {
				fail("object %d: stream /Length refers to a missing object", num)
			}
			ll := &Lexer{b: d.Data, p: int(off)}
			ll.expect(fmt.Sprintf("%d 0 obj", v.Num))
			lo, _ := ll.Next()
			li, ok := lo.(Int)
			if !ok {
				fail("object %d: indirect stream /Length is %v", num, lo)
			}
			n = int(li)
		default:
			fail("object %d: stream /Length is %v", num, dict.Get("Length"))
		}
		if n < 0 || l.p+n > len(d.Data) {
			fail("object %d: stream /Length %d runs past the file", num, n)
		}
		raw := d.Data[l.p : l.p+n]
		l.p += n
		// optional end-of-line marker(s) before endstream
		k := 0
		for k < 2 && l.p < len(d.Data) && (d.Data[l.p] == '\n' || d.Data[l.p] == '\r') {
			l.p++
			k++
		}
		if !bytes.HasPrefix(d.Data[l.p:], []byte("endstream")) {
			fail("object %d: stream /Length %d does not lead to endstream %s", num, n, l.ctx())
		}
		l.p += len("endstream")
		o = &Stream{Dict: dict, Raw: raw}
		l.skip()
	}
	l.expect("endobj")
	l.skip()
	d.Objs[num] = o
	return l.p
}

// Resolve follows references.
func (d *Doc) Resolve(o any) any {
	for i := 0; i < 32; i++ {
		r, ok := o.(Ref)
		if !ok {
			return o
		}
		v, ok := d.Objs[r.Num]
		if !ok || r.Gen != 0 {
			return nil
		}
		o = v
	}
	return nil
}

func (d *Doc) Dict(o any) *Dict {
	switch v := d.Resolve(o).(type) {
	case *Dict:
		return v
	case *Stream:
		return v.Dict
	}
	return nil
}
func (d *Doc) Stream(o any) *Stream {
	s, _ := d.Resolve(o).(*Stream)
	return s
}
func (d *Doc) Arr(o any) (Arr, bool) {
	a, ok := d.Resolve(o).(Arr)
	return a, ok
}
func (d *Doc) Num(o any) (float64, bool) {
	switch v := d.Resolve(o).(type) {
	case Int:
		return float64(v), true
	case Real:
		return float64(v), true
	}
	return 0, false
}
func (d *Doc) Int(o any) (int, bool) {
	v, ok := d.Resolve(o).(Int)
	return int(v), ok
}
func (d *Doc) NameOf(o any) Name {
	v, _ := d.Resolve(o).(Name)
	return v
}
func (d *Doc) Nums(o any) ([]float64, bool) {
	a, ok := d.Arr(o)
	if !ok {
		return nil, false
	}
	out := make([]float64, len(a))
	for i, x := range a {
		f, ok := d.Num(x)
		if !ok {
			return nil, false
		}
		out[i] = f
	}
	return out, true
}

// Inflate is strict: the whole input must be one zlib stream (checksum checked).
func Inflate(b []byte) ([]byte, error) {
	br := bytes.NewReader(b)
	r, err := zlib.NewReader(br)
	if err != nil {
		return nil, err
	}
	out, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	if br.Len() > 0 {
		return nil, fmt.Errorf("%d trailing bytes after the compressed data", br.Len())
	}
	return out, nil
}

// Data returns the stream data with Flate undone (no predictor, no DCT).
func (d *Doc) Data_(s *Stream) ([]byte, error) {
	f := d.Resolve(s.Dict.Get("Filter"))
	if a, ok := f.(Arr); ok {
		if len(a) != 1 {
			return nil, fmt.Errorf("unsupported filter array %v", a)
		}
		f = d.Resolve(a[0])
	}
	switch f {
	case nil:
		return s.Raw, nil
	case Name("FlateDecode"):
		return Inflate(s.Raw)
	}
	return s.Raw, fmt.Errorf("filter %v", f)
}

// Walk calls f for every reference inside o (not following them).
func Walk(o any, f func(Ref)) {
	switch v := o.(type) {
	case Ref:
		f(v)
	case Arr:
		for _, x := range v {
			Walk(x, f)
		}
	case *Dict:
		for _, k := range v.Keys {
			Walk(v.M[k], f)
		}
	case *Stream:
		Walk(v.Dict, f)
	}
}
