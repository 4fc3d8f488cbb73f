// Package ttf is an independent reader and builder of TrueType fonts.
package ttf

import (
	"encoding/binary"
	"fmt"
	"sort"
)

type Table struct {
	Off, Len int
	Sum      uint32
}

type Font struct {
	Data      []byte
	Tables    map[string]Table
	Order     []string
	UPM       int
	BBox      [4]int
	LongLoca  bool
	NumGlyphs int
	NumHM     int
	HheaAsc   int
	HheaDesc  int
	TypoAsc   int
	TypoDesc  int
	WinAsc    int
	WinDesc   int
	OS2Ver    int
	XHeight   int
	CapHeight int
	Italic    int // integer part of italicAngle
	ULPos     int
	ULThick   int
	Adv       []int
	LSB       []int
	Loca      []int
	Cmap4     map[rune]int
	Cmap12    map[rune]int
	Kern      map[[2]int]int
}

type perr string

func (f *Font) fail(s string, a ...any) { panic(perr(fmt.Sprintf(s, a...))) }

func (f *Font) sub(tag string) []byte {
	t, ok := f.Tables[tag]
	if !ok {
		f.fail("no table %q", tag)
	}
	return f.Data[t.Off : t.Off+t.Len]
}

func u16(b []byte, i int) int { return int(binary.BigEndian.Uint16(b[i:])) }
func i16(b []byte, i int) int { return int(int16(binary.BigEndian.Uint16(b[i:]))) }
func u32(b []byte, i int) int { return int(binary.BigEndian.Uint32(b[i:])) }

// Checksum of a table, zero padded.
func Checksum(b []byte) uint32 {
	var s uint32
	for i := 0; i < len(b); i += 4 {
		var w [4]byte
		copy(w[:], b[i:])
		s += binary.BigEndian.Uint32(w[:])
	}
	return s
}

// Parse reads a whole font (original); ParseSubset one embedded in a PDF,
// which needs no cmap, name, OS/2 or post table.
func Parse(data []byte) (*Font, error)       { return parse(data, false) }
func ParseSubset(data []byte) (*Font, error) { return parse(data, true) }

func parse(data []byte, subset bool) (f *Font, err error) {
	f = &Font{Data: data, Tables: map[string]Table{}}
	defer func() {
		if r := recover(); r != nil {
			if p, ok := r.(perr); ok {
				err = fmt.Errorf("%s", string(p))
				return
			}
			if e, ok := r.(error); ok { // index out of range
				err = fmt.Errorf("truncated font: %v", e)
				return
			}
			panic(r)
		}
	}()
	if len(data) < 12 || u32(data, 0) != 0x00010000 {
		f.fail("not a TrueType font")
	}
	n := u16(data, 4)
	type span struct {
		off, end int
		tag      string
	}
	var spans []span
	for i := 0; i < n; i++ {
		e := data[12+16*i:]
		tag := string(e[:4])
		t := Table{Sum: uint32(u32(e, 4)), Off: u32(e, 8), Len: u32(e, 12)}
		if _, dup := f.Tables[tag]; dup {
			f.fail("table %q twice", tag)
		}
		if t.Off+t.Len > len(data) {
			f.fail("table %q (%d+%d) reaches past the end (%d)", tag, t.Off, t.Len, len(data))
		}
		f.Tables[tag] = t
		if t.Len > 0 {
			spans = append(spans, span{t.Off, t.Off + t.Len, tag})
			if t.Off < 12+16*n {
				f.fail("table %q overlaps the directory", tag)
			}
			if t.Off%4 != 0 {
				f.fail("table %q is not aligned", tag)
			}
		}
		f.Order = append(f.Order, tag)
	}
	if !sort.StringsAreSorted(f.Order) {
		f.fail("table directory is not sorted: %q", f.Order)
	}
	sort.Slice(spans, func(i, j int) bool { return spans[i].off < spans[j].off })
	for i := 1; i < len(spans); i++ {
		if spans[i].off < spans[i-1].end {
			f.fail("tables %q and %q overlap", spans[i-1].tag, spans[i].tag)
		}
	}
	for tag, t := range f.Tables {
		if tag == "head" {
			continue
		}
		if s := Checksum(data[t.Off : t.Off+t.Len]); s != t.Sum {
			f.fail("table %q: checksum %08x, computed %08x", tag, t.Sum, s)
		}
	}
	head := f.sub("head")
	if u32(head, 12) != 0x5F0F3CF5 {
		f.fail("bad magic")
	}
	f.UPM = u16(head, 18)
	for i := range f.BBox {
		f.BBox[i] = i16(head, 36+2*i)
	}
	f.LongLoca = u16(head, 50) != 0
	hhea := f.sub("hhea")
	f.HheaAsc, f.HheaDesc, f.NumHM = i16(hhea, 4), i16(hhea, 6), u16(hhea, 34)
	f.NumGlyphs = u16(f.sub("maxp"), 4)
	if f.NumHM == 0 || f.NumHM > f.NumGlyphs {
		f.fail("%d horizontal metrics for %d glyphs", f.NumHM, f.NumGlyphs)
	}
	hmtx := f.sub("hmtx")
	for g := 0; g < f.NumGlyphs; g++ {
		if g < f.NumHM {
			f.Adv = append(f.Adv, u16(hmtx, 4*g))
			f.LSB = append(f.LSB, i16(hmtx, 4*g+2))
		} else {
			f.Adv = append(f.Adv, f.Adv[f.NumHM-1])
			f.LSB = append(f.LSB, i16(hmtx, 4*f.NumHM+2*(g-f.NumHM)))
		}
	}
	loca, glyf := f.sub("loca"), f.sub("glyf")
	for g := 0; g <= f.NumGlyphs; g++ {
		v := 0
		if f.LongLoca {
			v = u32(loca, 4*g)
		} else {
			v = 2 * u16(loca, 2*g)
		}
		if g > 0 && v < f.Loca[g-1] {
			f.fail("loca decreases at glyph %d", g)
		}
		if v > len(glyf) {
			f.fail("loca of glyph %d past the end of glyf", g)
		}
		f.Loca = append(f.Loca, v)
	}
	if subset {
		return f, nil
	}
	post := f.sub("post")
	f.Italic, f.ULPos, f.ULThick = i16(post, 4), i16(post, 8), i16(post, 10)
	os2 := f.sub("OS/2")
	f.OS2Ver = u16(os2, 0)
	f.TypoAsc, f.TypoDesc, f.WinAsc, f.WinDesc = i16(os2, 68), i16(os2, 70), u16(os2, 74), u16(os2, 76)
	if f.OS2Ver >= 2 {
		f.XHeight, f.CapHeight = i16(os2, 86), i16(os2, 88)
	}
	f.cmap()
	f.kern()
	return f, nil
}

func (f *Font) cmap() {
	cm := f.sub("cmap")
	f.Cmap4, f.Cmap12 = map[rune]int{}, map[rune]int{}
	for i := 0; i < u16(cm, 2); i++ {
		pid, eid, off := u16(cm, 4+8*i), u16(cm, 6+8*i), u32(cm, 8+8*i)
		st := cm[off:]
		switch {
		case pid == 3 && eid == 1 && u16(st, 0) == 4:
			sc := u16(st, 6) / 2
			end, start, delta, ro := 14, 16+2*sc, 16+4*sc, 16+6*sc
			first := 0 // a character belongs to the first segment that ends at or after it
			for s := 0; s < sc; s++ {
				for c := max(first, u16(st, start+2*s)); c <= u16(st, end+2*s); c++ {
					g := 0
					if r := u16(st, ro+2*s); r == 0 {
						g = (c + u16(st, delta+2*s)) & 0xffff
					} else {
						p := ro + 2*s + r + 2*(c-u16(st, start+2*s))
						if c == 0xffff && p+2 > len(st) {
							continue
						}
						if g = u16(st, p); g != 0 {
							g = (g + u16(st, delta+2*s)) & 0xffff
						}
					}
					if g != 0 {
						f.Cmap4[rune(c)] = g
					}
				}
				first = max(first, u16(st, end+2*s)+1)
			}
		case pid == 3 && eid == 10 && u16(st, 0) == 12:
			for k := 0; k < u32(st, 12); k++ {
				a, b, g := u32(st, 16+12*k), u32(st, 20+12*k), u32(st, 24+12*k)
				for c := a; c <= b; c++ {
					f.Cmap12[rune(c)] = g + c - a
				}
			}
		}
	}
}

func (f *Font) kern() {
	f.Kern = map[[2]int]int{}
	if _, ok := f.Tables["kern"]; !ok {
		return
	}
	k := f.sub("kern")
	n := u16(k, 2)
	off := 4
	for i := 0; i < n; i++ {
		ln, cov := u16(k, off+2), u16(k, off+4)
		if cov&^8 == 1 { // horizontal pairs
			np := u16(k, off+6)
			for p := 0; p < np; p++ {
				b := k[off+14+6*p:]
				q := [2]int{u16(b, 0), u16(b, 2)}
				if cov&8 != 0 {
					f.Kern[q] = 0
				}
				f.Kern[q] += i16(b, 4)
			}
		}
		off += ln
	}
}

// Lookup is the glyph of a character; ok is false when the font lacks it.
func (f *Font) Lookup(r rune) (int, bool) {
	m := f.Cmap4
	if r > 0xffff {
		m = f.Cmap12
	}
	g, ok := m[r]
	return g, ok
}

func (f *Font) Glyph(g int) []byte {
	return f.sub("glyf")[f.Loca[g]:f.Loca[g+1]]
}

// Components are the direct components of a composite glyph.
func (f *Font) Components(g int) (out []int, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("glyph %d: %v", g, r)
		}
	}()
	d := f.Glyph(g)
	if len(d) == 0 || i16(d, 0) >= 0 {
		return nil, nil
	}
	p := 10
	for {
		fl, c := u16(d, p), u16(d, p+2)
		out = append(out, c)
		p += 4
		if fl&1 != 0 {
			p += 4
		} else {
			p += 2
		}
		switch {
		case fl&8 != 0:
			p += 2
		case fl&0x40 != 0:
			p += 4
		case fl&0x80 != 0:
			p += 8
		}
		if fl&0x20 == 0 {
			return out, nil
		}
	}
}

// Closure of a set of glyphs under components, with glyph 0.
func (f *Font) Closure(gs []int) []int {
	seen := map[int]bool{}
	todo := append([]int{0}, gs...)
	for len(todo) > 0 {
		g := todo[0]
		todo = todo[1:]
		if seen[g] || g >= f.NumGlyphs {
			continue
		}
		seen[g] = true
		c, _ := f.Components(g)
		todo = append(todo, c...)
	}
	var out []int
	for g := range seen {
		out = append(out, g)
	}
	sort.Ints(out)
	return out
}

// PDFWidth is the advance in thousandths of an em.
func (f *Font) PDFWidth(g int) float64 { return float64(f.Adv[g]) * 1000 / float64(f.UPM) }
