package checks

import (
	"fmt"
	"math"
	"strings"

	"github.com/signintech/gopdf"

	"verif/pdf"
	"verif/ttf"
)

// mfont is a font of a document under test, and what the model knows of it.
type mfont struct {
	tf      *testFont
	family  string
	style   int // without underline
	kern    bool
	subst   func(rune) rune
	substID int
	how     int  // way it is loaded
	plain   bool // without options
	over    func(l, r rune, li, ri uint, v int16) int16
	missed  []rune // reported to the callback
	want    []rune // to be reported
	first   map[int]rune
}

type shaped struct {
	r rune
	g int
}

var substs = []func(rune) rune{
	nil,
	func(rune) rune { return '?' },
	func(r rune) rune { return 'a' + r%26 },
	func(rune) rune { return 0x4E00 }, // the font lacks it, too
	func(r rune) rune { return r },
}

// genFont draws a font of the pool with options.
func genFont(c *Case, l, family string, style int) *mfont {
	f := &mfont{family: family, style: style, kern: c.Chance(50, l+"kern"), first: map[int]rune{}}
	f.tf = pick(c, l+"data", stdFonts())
	if c.Chance(1, l+"huge") {
		f.tf = pick(c, l+"big", bigFonts())
	}
	f.substID = c.U(9, l+"subst")
	if f.substID >= len(substs) {
		f.substID = 0
	}
	f.subst = substs[f.substID]
	f.how = c.U(fontWays, l+"how")
	if style == 0 && c.Chance(15, l+"plain") {
		f.plain, f.kern, f.subst, f.substID = true, false, nil, 0
	}
	c.Log("font %q style %d: %s kern=%v subst=%d way %d plain %v", family, style, f.tf.name, f.kern, f.substID, f.how, f.plain)
	return f
}

func (f *mfont) opt() gopdf.TtfOption {
	return gopdf.TtfOption{UseKerning: f.kern, Style: f.style, OnGlyphNotFoundSubstitute: f.subst, OnGlyphNotFound: func(r rune) { f.missed = append(f.missed, r) }}
}

func (f *mfont) load(c *Case, p *gopdf.GoPdf) {
	c.Helper()
	o := f.opt()
	po := &o
	if f.plain {
		po = nil
	}
	if err := addFont(p, f.how, f.family, f.tf.data, po); err != nil {
		c.Bad("font %q is rejected: %v", f.family, err)
	}
}

func (f *mfont) lookup(r rune) int {
	g, ok := f.tf.f.Lookup(r)
	if !ok || g >= f.tf.f.NumGlyphs {
		return 0
	}
	return g
}

// shape gives the glyphs of a string and notes the characters to be reported.
func (f *mfont) shape(s string) []shaped {
	out := make([]shaped, 0, len(s))
	for _, r := range s {
		g := f.lookup(r)
		if g == 0 {
			if !f.plain {
				f.want = append(f.want, r)
			}
			if f.subst == nil {
				r = ' '
			} else {
				r = f.subst(r)
			}
			g = f.lookup(r)
		}
		if _, ok := f.first[g]; !ok {
			f.first[g] = r
		}
		out = append(out, shaped{r, g})
	}
	return out
}

func runes(gs []shaped) string {
	var sb strings.Builder
	for _, g := range gs {
		sb.WriteRune(g.r)
	}
	return sb.String()
}

func (f *mfont) adv(g int) int { return f.tf.f.Adv[g] * 1000 / f.tf.f.UPM }

// kernUnits is the kerning between two glyphs in font units.
func (f *mfont) kernUnits(a, b shaped) int {
	if !f.kern {
		return 0
	}
	k := f.tf.f.Kern[[2]int{a.g, b.g}]
	if f.over != nil {
		k = int(f.over(a.r, b.r, uint(a.g), uint(b.g), int16(k)))
	}
	return k
}

func (f *mfont) kernOf(a, b shaped) int {
	return f.kernUnits(a, b) * 1000 / f.tf.f.UPM // truncated
}

// genOverride replaces the kerning of a font that is loaded.
func (f *mfont) genOverride(c *Case, p *gopdf.GoPdf) {
	c.Helper()
	m := c.U(4, "omode")
	c.Log("kern override %d", m)
	f.over = func(l, r rune, li, ri uint, v int16) int16 {
		switch m {
		case 0:
			return v + 50
		case 1:
			return int16(li%7)*30 - int16(ri%5)*41
		case 2:
			return int16(l%9)*17 - int16(r%11)*13
		}
		return -v - int16(r%5)*20
	}
	if err := p.KernOverride(f.family, f.over); err != nil {
		c.Bad("KernOverride: %v", err)
	}
	if p.KernOverride(f.family+"x", f.over) == nil {
		c.Bad("KernOverride accepts a family that was never added")
	}
}

func round3(v float64) float64 { return math.Round(v*1000) / 1000 }

// offsets gives the x of every glyph from the start of the string, and the
// whole width, in points.
func (f *mfont) offsets(gs []shaped, size, tc float64) (xs []float64, w float64) {
	size, tc = round3(size), round3(tc)
	for i, g := range gs {
		if i > 0 {
			w += float64(f.kernOf(gs[i-1], g)) * size / 1000
		}
		xs = append(xs, w)
		w += float64(f.adv(g.g))*size/1000 + tc
	}
	return
}

func (f *mfont) width(gs []shaped, size, tc float64) float64 {
	_, w := f.offsets(gs, size, tc)
	return w
}

// slack is the rounding a measurement is allowed: character spacing is
// rounded down to font units.
func (f *mfont) slack(n int, size, tc float64) float64 {
	if tc == 0 {
		return 1e-6 + float64(n)*1e-6
	}
	return 1e-6 + float64(n)*(size/float64(f.tf.f.UPM)+size/1000+0.0006)
}

func (f *mfont) typoAsc(size float64) float64 {
	return float64(f.tf.f.TypoAsc) / float64(f.tf.f.UPM) * size
}
func (f *mfont) typoDesc(size float64) float64 {
	return float64(f.tf.f.TypoDesc) / float64(f.tf.f.UPM) * size
}
func (f *mfont) height(size float64) float64 { return f.typoAsc(size) - f.typoDesc(size) }

// ascent and descent as the font descriptor declares them.
func (f *mfont) ascent() int {
	if f.tf.f.TypoAsc == 0 {
		return f.tf.f.HheaAsc
	}
	return f.tf.f.WinAsc
}
func (f *mfont) descent() int {
	if f.tf.f.TypoDesc == 0 {
		return f.tf.f.HheaDesc
	}
	d := f.tf.f.WinDesc
	if d >= 0 {
		d = -d
	}
	return d
}

// mcol is a colour of the model; the zero value is not checked.
type mcol struct {
	space string
	c     [4]float64
}

var black = mcol{"DeviceGray", [4]float64{0}}

func rgbCol(r, g, b uint8) mcol {
	return mcol{"DeviceRGB", [4]float64{float64(r) / 255, float64(g) / 255, float64(b) / 255}}
}
func cmykCol(a, b, c, d uint8) mcol {
	return mcol{"DeviceCMYK", [4]float64{float64(a) / 100, float64(b) / 100, float64(c) / 100, float64(d) / 100}}
}
func grayCol(v float64) mcol { return mcol{"DeviceGray", [4]float64{v}} }

func (m mcol) is(c pdf.Color) bool {
	if m.space == "" {
		return true
	}
	n := map[string]int{"DeviceGray": 1, "DeviceRGB": 3, "DeviceCMYK": 4}[m.space]
	if n == 0 { // named
		return c.Space == m.space
	}
	if c.Space != m.space || len(c.C) != n {
		return false
	}
	for i := 0; i < n; i++ {
		if math.Abs(c.C[i]-m.c[i]) > 0.0056 {
			return false
		}
	}
	return true
}

func (m mcol) String() string { return fmt.Sprintf("%s%.3f", m.space, m.c) }

// genColor draws a colour, often one that differs from the one before in a
// single component or not at all, and the calls that set it.
func genColor(c *Case, l string) (m mcol, text, fill, stroke func(*gopdf.GoPdf)) {
	draw := func(last *[4]uint8, n, limit int) {
		near := c.U(8, l+"near")
		switch c.near {
		case 1:
			near = 0
		case 2:
			near = 2
		}
		switch near {
		case 0, 1:
			last[c.U(n, l)] = uint8(c.U(limit, l))
		case 2:
			i := c.U(n, l)
			last[i] = uint8((int(last[i]) + limit - 1 + 2*c.U(2, l)) % limit)
		case 3:
		default:
			for i := 0; i < n; i++ {
				last[i] = uint8(c.U(limit, l))
			}
		}
	}
	isRGB := c.Chance(60, l+"rgb")
	if c.near > 0 {
		isRGB = c.lastRGB
	}
	c.lastRGB = isRGB
	if isRGB {
		draw(&c.rgb, 3, 256)
		r, g, bl := c.rgb[0], c.rgb[1], c.rgb[2]
		return rgbCol(r, g, bl), func(p *gopdf.GoPdf) { p.SetTextColor(r, g, bl) }, func(p *gopdf.GoPdf) { p.SetFillColor(r, g, bl) }, func(p *gopdf.GoPdf) { p.SetStrokeColor(r, g, bl) }
	}
	draw(&c.cmyk, 4, 101)
	x, y, z, k := c.cmyk[0], c.cmyk[1], c.cmyk[2], c.cmyk[3]
	return cmykCol(x, y, z, k), func(p *gopdf.GoPdf) { p.SetTextColorCMYK(x, y, z, k) }, func(p *gopdf.GoPdf) { p.SetFillColorCMYK(x, y, z, k) }, func(p *gopdf.GoPdf) { p.SetStrokeColorCMYK(x, y, z, k) }
}

// ---- reading fonts of the output ------------------------------------------

type outFont struct {
	f    *pdf.Font
	base string
	prog *ttf.Font
	cmap *pdf.CMap
}

type fontReader struct {
	c *Case
	d *pdf.Doc
	m map[string]*outFont
}

func newFontReader(c *Case, d *pdf.Doc) *fontReader {
	return &fontReader{c, d, map[string]*outFont{}}
}

// font of a text mark.
func (fr *fontReader) font(m *pdf.Mark) *outFont {
	fr.c.Helper()
	k := fmt.Sprint(m.GS.FontObj)
	if f := fr.m[k]; f != nil {
		return f
	}
	c := fr.c
	f, err := fr.d.LoadFont(m.GS.FontObj)
	if err != nil {
		c.Bad("font %s: %v", m.GS.Font, err)
	}
	o := &outFont{f: f, base: string(fr.d.NameOf(f.Dict.Get("BaseFont")))}
	data := func(what string, v any) []byte {
		st := fr.d.Stream(v)
		if st == nil {
			c.Bad("font %s has no %s", o.base, what)
		}
		b, err := fr.d.Data_(st)
		if err != nil {
			c.Bad("font %s: %s: %v", o.base, what, err)
		}
		return b
	}
	if o.prog, err = ttf.ParseSubset(data("font program", f.FD.Get("FontFile2"))); err != nil {
		c.Bad("font %s: the embedded program is not a valid TrueType font: %v", o.base, err)
	}
	if o.cmap, err = pdf.ParseCMap(data("character map", f.Dict.Get("ToUnicode"))); err != nil {
		c.Bad("font %s: the character map is not valid: %v", o.base, err)
	}
	fr.m[k] = o
	return o
}

// is tells whether the font of the output is the font of the model.
func (o *outFont) is(f *mfont) bool {
	return o.base == pdfFamily(f.family) && o.prog.UPM == f.tf.f.UPM
}

// pdfFamily is how a font is named in the output.
func pdfFamily(s string) string { return strings.NewReplacer(" ", "+", "/", "+").Replace(s) }

// eglyph is a glyph that has to be shown.
type eglyph struct {
	page  int
	x, y  float64 // baseline from the top-left corner
	g     int
	f     *mfont
	size  float64
	tc    float64
	col   mcol
	tol   float64
	descr string
}

type agl struct {
	pdf.Glyph
	m *pdf.Mark
}

// checkGlyphs compares the glyphs of all pages with those expected.
func checkGlyphs(c *Case, d *pdf.Doc, pages []*pdf.Page, want []eglyph) {
	c.Helper()
	fr := newFontReader(c, d)
	for pi, pg := range pages {
		var got []agl
		for i := range pg.Marks {
			m := &pg.Marks[i]
			if m.Kind == "text" {
				for _, g := range m.Glyphs {
					got = append(got, agl{g, m})
				}
			}
		}
		var exp []eglyph
		for _, e := range want {
			if e.page == pi {
				exp = append(exp, e)
			}
		}
		for i, e := range exp {
			if i >= len(got) {
				c.Bad("page %d shows %d glyphs, %d are expected: glyph %d of %s is missing", pi+1, len(got), len(exp), e.g, e.descr)
			}
			g := got[i]
			fail := func(f string, a ...any) {
				c.Helper()
				c.Bad("page %d, glyph %d (%s): %s", pi+1, i, e.descr, fmt.Sprintf(f, a...))
			}
			if g.Code != e.g {
				fail("glyph %d is shown instead of %d", g.Code, e.g)
			}
			y := top(pg, g.Pos.Y)
			if !near(g.Pos.X, e.x, e.tol) || !near(y, e.y, 0.0101) {
				fail("is at (%.3f,%.3f) instead of (%.3f,%.3f)±%.3f", g.Pos.X, y, e.x, e.y, e.tol)
			}
			if o := fr.font(g.m); !o.is(e.f) {
				fail("is in font %s (%d units) instead of %s", o.base, o.prog.UPM, e.f.family)
			}
			if !near(g.m.GS.Size, e.size, 0.00051) {
				fail("has size %g instead of %g", g.m.GS.Size, e.size)
			}
			if !near(g.m.GS.Tc, e.tc, 0.00051) {
				fail("has character spacing %g instead of %g", g.m.GS.Tc, e.tc)
			}
			if !e.col.is(g.m.GS.Fill) {
				fail("has colour %v instead of %v", g.m.GS.Fill, e.col)
			}
			if g.m.GS.Tr != 0 || g.m.GS.Tz != 100 || g.m.GS.Ts != 0 || g.m.GS.Tw != 0 {
				fail("has text state Tr=%d Tz=%g Ts=%g Tw=%g", g.m.GS.Tr, g.m.GS.Tz, g.m.GS.Ts, g.m.GS.Tw)
			}
		}
		if len(got) > len(exp) {
			c.Bad("page %d shows %d glyphs, %d are expected", pi+1, len(got), len(exp))
		}
	}
}
