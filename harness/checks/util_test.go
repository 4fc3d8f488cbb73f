package checks

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/signintech/gopdf"
	"pgregory.net/rapid"

	"verif/imgs"
	"verif/pdf"
	"verif/ttf"
)

// ---- reading the output ---------------------------------------------------

// output returns the document's bytes, written to a stream.
func output(c *Case, p *gopdf.GoPdf) []byte {
	c.Helper()
	var b bytes.Buffer
	if _, err := p.WriteTo(&b); err != nil {
		c.Bad("writing the document failed: %v", err)
	}
	return b.Bytes()
}

// parse reads a document and its pages, which must be valid.
func parse(c *Case, b []byte) (*pdf.Doc, []*pdf.Page) {
	c.Helper()
	d, err := pdf.Parse(b)
	if err != nil {
		dump(b)
		c.Bad("the output does not parse: %v", err)
	}
	if d.Trailer.Has("Encrypt") {
		return d, nil
	}
	pages, probs := d.Pages()
	if len(probs) > 0 {
		dump(b)
		c.Bad("the output is not valid: %s", strings.Join(probs, "; "))
	}
	return d, pages
}

func dump(b []byte) {
	if f := os.Getenv("VERIF_DUMP"); f != "" {
		os.WriteFile(f, b, 0o644)
	}
}

func finish(c *Case, p *gopdf.GoPdf) (*pdf.Doc, []*pdf.Page) {
	c.Helper()
	b := output(c, p)
	if os.Getenv("VERIF_DUMP") != "" {
		dump(b)
	}
	return parse(c, b)
}

func kind(ms []pdf.Mark, k string) []pdf.Mark {
	var out []pdf.Mark
	for _, m := range ms {
		if m.Kind == k {
			out = append(out, m)
		}
	}
	return out
}

// code string of text marks in drawing order
func codes(ms []pdf.Mark) []int {
	var out []int
	for _, m := range ms {
		for _, g := range m.Glyphs {
			out = append(out, g.Code)
		}
	}
	return out
}

// top converts a y measured from the bottom.
func top(pg *pdf.Page, y float64) float64 { return pg.Media[3] - y }

func rgb(c pdf.Color) [3]int {
	if c.Space != "DeviceRGB" || len(c.C) != 3 {
		return [3]int{-1, -1, -1}
	}
	return [3]int{int(math.Round(c.C[0] * 255)), int(math.Round(c.C[1] * 255)), int(math.Round(c.C[2] * 255))}
}

// ---- fonts ----------------------------------------------------------------

type testFont struct {
	name string
	data []byte
	f    *ttf.Font
	desc string
}

func mustFont(name string, data []byte) *testFont {
	f, err := ttf.Parse(data)
	if err != nil {
		panic(fmt.Sprintf("HARNESS: font %s: %v", name, err))
	}
	return &testFont{name: name, data: data, f: f}
}

// farRunes are in higher planes, in runs of one to three.
var farRunes = []rune{0x2070E, 0x20731, 0x20732, 0x2A6D6, 0x2F80A, 0x2F80B, 0x2F80C, 0x30000, 0x3134A, 0xE0101, 0x100000}

const missingRunes = "☃中💩ŵ￼\u0001߿\U0010FFFD"

var stdFonts = sync.OnceValue(func() []*testFont {
	var out []*testFont
	for v := 0; v < 4; v++ {
		upm := []int{1000, 2048, 512, 1500}[v]
		sc := func(x int) int { return x * upm / 1000 }
		s := ttf.Spec{
			UPM: upm, Asc: sc(905), Desc: -sc(212), TypoAsc: sc(693), TypoDesc: -sc(216), WinAsc: sc(910), WinDesc: sc(220),
			CapHeight: sc(660), XHeight: sc(460), OS2Ver: []int{3, 2, 4, 1}[v], Italic: []int{0, -12, 0, 7}[v], ULPos: -sc(109), ULThick: sc(49),
			BBox: [4]int{-sc(100), -sc(250), sc(1100), sc(950)}, PSName: fmt.Sprintf("Verif%d-Std", v), Cmap: map[rune]int{},
			LongLoca: v%2 == 1, Format12: v != 2, KernTable: v != 1, Optional: v + 4, UseRangeOffset: v == 3, NoPad: v == 1,
		}
		s.Glyphs = append(s.Glyphs, ttf.GlyphSpec{Adv: sc(500), Points: [][2]int{{0, 0}, {0, sc(700)}, {sc(400), sc(700)}, {sc(400), 0}}})
		add := func(r rune) {
			n := len(s.Glyphs)
			g := ttf.GlyphSpec{Adv: sc(200 + (int(r)*37+v*11)%613), LSB: int(r) % 13}
			if r != ' ' && r != 0xA0 {
				g.Points = [][2]int{{10, 0}, {10 + int(r)%90, sc(100 + int(r)%500)}, {sc(300), n % 50}}
				if int(r)%9 == 4 && n > 30 {
					g.Points = nil
					g.Comps = []ttf.Component{{Glyph: 5 + int(r)%20, DX: 3, DY: 4}, {Glyph: n - 7, DX: 200, DY: -100, Words: true}}
				}
			}
			s.Glyphs = append(s.Glyphs, g)
			s.Cmap[r] = n
		}
		for r := rune(32); r < 127; r++ {
			add(r)
		}
		for r := rune(0xA0); r < 0x100; r++ {
			add(r)
		}
		for r := rune(0x391); r < 0x3CA; r++ {
			if r != 0x3A2 {
				add(r)
			}
		}
		for r := rune(0x621); r < 0x653; r++ {
			if r < 0x63b || r > 0x640-1 {
				add(r)
			}
		}
		for r := rune(0xFE70); r < 0xFEFD; r++ {
			if r != 0xFE75 && r != 0xFE73 {
				add(r)
			}
		}
		add(0xFDF2)
		add(0xFFFD)
		add('世')
		add('–')
		if s.Format12 {
			add(0x1F600)
			add(0x1F601)
			add(0x10348)
			for _, r := range farRunes {
				add(r)
			}
		}
		if v == 3 {
			s.NumHM = len(s.Glyphs) - 4
		}
		if s.KernTable {
			s.Kern = map[[2]int]int{}
			g := func(r rune) int { return s.Cmap[r] }
			for i, p := range []string{"AV", "VA", "To", "ab", "  ", "e ", " T", "11", "fi", "AA"} {
				r := []rune(p)
				s.Kern[[2]int{g(r[0]), g(r[1])}] = sc(40*(i%5) - 90)
			}
		}
		out = append(out, mustFont(fmt.Sprintf("std%d", v), s.Build()))
	}
	return out
})

// bigFonts have glyph numbers, character ranges and tables of great size: one
// with nearly as many glyphs as there can be, and one whose glyphs fill what a
// short index can address.
var bigFonts = sync.OnceValue(func() []*testFont {
	var out []*testFont
	for v := 0; v < 2; v++ {
		n := []int{65500, 33000}[v]
		s := ttf.Spec{
			UPM: 1000, Asc: 905, Desc: -212, TypoAsc: 693, TypoDesc: -216, WinAsc: 910, WinDesc: 220, CapHeight: 660, XHeight: 460, OS2Ver: 3, ULPos: -109, ULThick: 49,
			BBox: [4]int{-100, -250, 1100, 950}, PSName: fmt.Sprintf("Verif%d-Big", v), Cmap: map[rune]int{}, LongLoca: v == 0, Format12: true, KernTable: true, UseRangeOffset: v == 1,
			Glyphs: make([]ttf.GlyphSpec, n),
		}
		for g := range s.Glyphs {
			s.Glyphs[g] = ttf.GlyphSpec{Adv: 200 + g%613, LSB: g % 13}
		}
		shape := func(g int) {
			if s.Glyphs[g].Points == nil {
				s.Glyphs[g].Points = [][2]int{{10, 0}, {10 + g%90, 100 + g%500}, {300, g % 50}}
			}
		}
		shape(0)
		next := 1
		add := func(a, b rune) {
			for r := a; r < b && next < n; r++ {
				s.Cmap[r] = next
				next++
			}
		}
		if v == 0 {
			add(0x4E00, 0x9FA6)
			next = 40000
			add(0x20000, 0x22000)
		}
		next = n/2 - 40 // for the first one across the limit of 16 bits with a sign
		add(32, 127)
		for _, r := range farRunes {
			add(r, r+1)
		}
		next = n - 110
		add(0xA1, 0x100)
		next = n - 11
		add('–', '–'+1)
		add(0x391, 0x3A2)
		next = n/4 + 3
		add(0x3A3, 0x3CA)
		if v == 1 {
			add('世', '世'+1)
			// what the glyphs need of the 128 kB: up to its end
			for g := 1; g < n; g += 9 {
				shape(g)
			}
		}
		for _, g := range s.Cmap {
			if g%16 == 3 || v == 0 && g < 100 || g > n/3 && g < n/2+100 || g > n-200 {
				shape(g)
			}
		}
		shape(n - 20)
		far := s.Cmap['é']
		s.Glyphs[far].Points, s.Glyphs[far].Comps = nil, []ttf.Component{{Glyph: n - 20, DX: 3, DY: 4}, {Glyph: n/2 + 5, DX: 200, DY: -100, Words: true}}
		delete(s.Cmap, ' ')
		s.Cmap[' '] = n/2 - 40
		s.Glyphs[n/2-40].Points = nil
		s.Kern = map[[2]int]int{{s.Cmap['A'], s.Cmap['V']}: -80, {s.Cmap['a'], s.Cmap['é']}: 30, {s.Cmap['é'], s.Cmap['ñ']}: -45}
		out = append(out, mustFont(fmt.Sprintf("big%d", v), s.Build()))
	}
	return out
})

func readFile(f string) []byte {
	b, err := os.ReadFile(f)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	return b
}

var serif = sync.OnceValue(func() *testFont {
	return mustFont("LiberationSerif", readFile("/repo/test/res/LiberationSerif-Regular.ttf"))
})

var alphabets = []string{
	"abcdefghijklmnopqrstuvwxyz",
	"AVATofie1 ",
	" ",
	"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789",
	"()\\<>[]{}/%#'\"!?.,;:-_+*=&$@~^|`",
	"áéíóúñçß¡¿©®±µÿ\u00a0",
	"αβγδεΩΔΠ",
}

// length draws the length of a string: at most n, but now and then more.
func (c *Case) length(n int, l string) int {
	if c.Chance(1, l+"long") {
		return c.U(40*n+2, l+"#")
	}
	return c.U(n+1, l+"#")
}

// text draws a string of characters the standard fonts have, mostly of at most
// n.
func (c *Case) text(n int, l string) string {
	k := c.length(n, l)
	var sb strings.Builder
	for i := 0; i < k; i++ {
		r := []rune(alphabets[c.U(len(alphabets), l+"a")])
		sb.WriteRune(r[c.U(len(r), l+"r")])
	}
	return sb.String()
}

// word draws a non-empty string without blanks, mostly of at most n characters.
func (c *Case) word(n int, l string) string {
	k := 1 + c.length(n-1, l)
	b := make([]byte, k)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[c.U(62, l)]
	}
	return string(b)
}

// unicode draws any string, mostly of at most n runes: plain, control, bidi,
// document syntax, outside the BMP.
func (c *Case) unicode(n int, l string) string {
	k := c.length(n, l)
	var sb strings.Builder
	for i := 0; i < k; i++ {
		switch c.U(8, l+"k") {
		case 0, 1:
			sb.WriteRune(rune(32 + c.U(95, l)))
		case 2:
			sb.WriteRune(pick(c, l, []rune("()\\<>[]{}/%\r\n\t\x00\x1b\x7f")))
		case 3:
			sb.WriteRune(rune(0xA0 + c.U(0x500, l)))
		case 4:
			sb.WriteRune(rune(0x2000 + c.U(0xB000, l)))
		case 5:
			sb.WriteRune(rune(0x10000 + c.U(0xFFFF, l)))
		case 6:
			sb.WriteRune(pick(c, l, []rune{0xFEFF, 0xFFFE, 0xFFFD, 0xE000, 0xFFFF, 0x10FFFF, 0xFF08, 0x0128, 0x2829, 0x5C5C, 0x0D0A, 0x80, 0xFF, 0x1F600}))
		case 7:
			sb.WriteString(pick(c, l, []string{"endobj", "endstream", ">>", "\\)", "(", "þÿ", "1 0 R", "\r\n", "\n\r", "\\\r\n", "\\101", "()", ")("}))
		}
	}
	return sb.String()
}

// ---- images ---------------------------------------------------------------

type testImage struct {
	name string
	data []byte
	w, h int
	path string
}

var imgDir = sync.OnceValue(func() string {
	d, err := os.MkdirTemp("", "vimg")
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	return d
})

func gradient(w, h, k int) *image.RGBA {
	im := image.NewRGBA(image.Rect(0, 0, w, h))
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			im.Set(x, y, color.RGBA{uint8(x * 40), uint8(y * 60), uint8(k * 70), 255})
		}
	}
	return im
}

func jpegBytes(im image.Image) []byte {
	var b bytes.Buffer
	jpeg.Encode(&b, im, nil)
	return b.Bytes()
}

func gifBytes(im image.Image) []byte {
	var b bytes.Buffer
	gif.Encode(&b, im, &gif.Options{NumColors: 16})
	return b.Bytes()
}

func ramp(n, max int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = (i*29 + 7) % (max + 1)
	}
	return out
}

// stdImages is a small pool with every kind of image; the last one is a mask
// (an image with alpha).
var stdImages = sync.OnceValue(func() []*testImage {
	var out []*testImage
	add := func(name, ext string, data []byte, w, h int) {
		t := &testImage{name: name, data: data, w: w, h: h}
		t.path = filepath.Join(imgDir(), name+ext)
		if err := os.WriteFile(t.path, data, 0o644); err != nil {
			panic("HARNESS: " + err.Error())
		}
		out = append(out, t)
	}
	add("jpegrgb", ".jpg", jpegBytes(gradient(9, 7, 1)), 9, 7)
	g := image.NewGray(image.Rect(0, 0, 8, 5))
	for i := range g.Pix {
		g.Pix[i] = byte(i * 6)
	}
	add("jpeggray", ".jpg", jpegBytes(g), 8, 5)
	add("gif", ".gif", gifBytes(gradient(6, 5, 2)), 6, 5)
	p := &imgs.PNG{W: 5, H: 4, CT: 2, Depth: 8, Samples: ramp(60, 255), Splits: 2}
	add("pngrgb", ".png", p.Encode(), 5, 4)
	p = &imgs.PNG{W: 7, H: 3, CT: 0, Depth: 4, Samples: ramp(21, 15)}
	add("pnggray", ".png", p.Encode(), 7, 3)
	p = &imgs.PNG{W: 6, H: 6, CT: 3, Depth: 2, Samples: ramp(36, 3), Pal: [][3]byte{{1, 2, 3}, {200, 0, 0}, {0, 200, 0}, {9, 9, 250}}}
	add("pngpal", ".png", p.Encode(), 6, 6)
	p = &imgs.PNG{W: 6, H: 4, CT: 3, Depth: 8, Samples: ramp(24, 3), Pal: [][3]byte{{1, 2, 3}, {200, 0, 0}, {0, 200, 0}, {9, 9, 250}}, HasTrns: true, Trns: []int{0, 128, 255}}
	add("pngpaltrns", ".png", p.Encode(), 6, 4)
	p = &imgs.PNG{W: 4, H: 5, CT: 4, Depth: 8, Samples: ramp(40, 255)}
	add("pnggraya", ".png", p.Encode(), 4, 5)
	p = &imgs.PNG{W: 6, H: 5, CT: 6, Depth: 8, Samples: ramp(120, 255)}
	add("pngrgba", ".png", p.Encode(), 6, 5)
	return out
})

var _ = rapid.Int

var newCmp = pdf.NewCmp

// decrypted parses a document and opens it.
func decrypted(c *Case, b []byte, pass []byte) *pdf.Doc {
	c.Helper()
	d, err := pdf.Parse(b)
	if err != nil {
		dump(b)
		c.Bad("the output does not parse: %v", err)
	}
	if !d.Trailer.Has("Encrypt") {
		return d
	}
	cr, kind, err := d.Open(pass)
	if err != nil || kind == "" {
		c.Bad("the output does not open with its password: %v", err)
	}
	if d, err = d.DecryptAll(cr); err != nil {
		c.Bad("the output does not decrypt: %v", err)
	}
	return d
}

// ---- ways to load a font --------------------------------------------------

// fontAdder is implemented by documents and by font containers.
type fontAdder interface {
	AddTTFFont(family string, ttfpath string) error
	AddTTFFontWithOption(family string, ttfpath string, option gopdf.TtfOption) error
	AddTTFFontByReader(family string, rd io.Reader) error
	AddTTFFontByReaderWithOption(family string, rd io.Reader, option gopdf.TtfOption) error
	AddTTFFontData(family string, fontData []byte) error
	AddTTFFontDataWithOption(family string, fontData []byte, option gopdf.TtfOption) error
}

// pieces is a reader that gives its data in pieces, the last one with io.EOF.
type pieces struct {
	b []byte
	n int
}

func (p *pieces) Read(b []byte) (int, error) {
	n := min(p.n, len(b), len(p.b))
	copy(b, p.b[:n])
	p.b = p.b[n:]
	if len(p.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

const fontWays = 4

var (
	fontFiles  = make(chan string, 16)
	fontFileNo atomic.Int64
)

// addFont loads a font as data, from a reader or from a file; a nil option is
// left out of the call.
func addFont(to fontAdder, how int, family string, data []byte, opt *gopdf.TtfOption) error {
	switch how {
	case 0:
		// the buffer of the caller is used for something else afterwards
		buf := append([]byte(nil), data...)
		defer clear(buf)
		if opt == nil {
			return to.AddTTFFontData(family, buf)
		}
		return to.AddTTFFontDataWithOption(family, buf, *opt)
	case 1, 2:
		var r io.Reader = bytes.NewReader(data)
		if how == 2 {
			r = &pieces{data, 1 + len(data)/3}
		}
		if opt == nil {
			return to.AddTTFFontByReader(family, r)
		}
		return to.AddTTFFontByReaderWithOption(family, r, *opt)
	}
	// a few files that hold different fonts one after the other
	var name string
	select {
	case name = <-fontFiles:
	default:
		name = filepath.Join(imgDir(), fmt.Sprintf("font%d.ttf", fontFileNo.Add(1)))
	}
	defer func() {
		select {
		case fontFiles <- name:
		default:
		}
	}()
	if err := os.WriteFile(name, data, 0o644); err != nil {
		panic("HARNESS: " + err.Error())
	}
	if opt == nil {
		return to.AddTTFFont(family, name)
	}
	return to.AddTTFFontWithOption(family, name, *opt)
}

// addPageOf adds a page; the caller uses the size for something else afterwards.
func addPageOf(p *gopdf.GoPdf, w, h float64) {
	r := &gopdf.Rect{W: w, H: h}
	p.AddPageWithOption(gopdf.PageOption{PageSize: r})
	*r = gopdf.Rect{W: 3, H: 5}
}
