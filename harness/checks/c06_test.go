package checks

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"testing"

	"github.com/signintech/gopdf"

	"verif/pdf"
	"verif/ttf"
)

// genTTF draws a font of its own: any glyph graph, metrics and table layout.
func genTTF(c *Case) (ttf.Spec, []rune) {
	upm := pick(c, "upm", []int{1000, 2048, 256, 1024, 750, 16, 4096})
	dim := func(l string, lo, hi int) int { return lo + c.U(hi-lo+1, l) }
	n := 2 + c.U(40, "glyphs")
	s := ttf.Spec{
		UPM: upm, Asc: dim("asc", 1, 2000), Desc: -dim("desc", 1, 900), TypoAsc: dim("tasc", 0, 2000), TypoDesc: -dim("tdesc", 0, 900),
		WinAsc: dim("wasc", 0, 2500), WinDesc: dim("wdesc", 0, 900), CapHeight: dim("cap", 0, 1500), XHeight: dim("xh", 0, 900),
		OS2Ver: c.U(6, "os2"), Italic: dim("italic", -30, 10), ULPos: -dim("ulpos", 0, 300), ULThick: dim("ulthick", 0, 200),
		BBox: [4]int{-dim("x0", 0, 500), -dim("y0", 0, 500), dim("x1", 1, 3000), dim("y1", 1, 3000)}, PSName: "Gen",
		Cmap: map[rune]int{}, LongLoca: c.Bool("longloca"), Format12: c.Bool("fmt12"), UseRangeOffset: c.Bool("rangeoff"), ExtraCmap: c.Bool("extra"),
		KernTable: c.Bool("kern"), Optional: c.U(8, "opt"), NoPad: c.Bool("nopad"), Reverse: c.Bool("rev"), GlyphPad: pick(c, "pad", []int{4, 2}),
	}
	// components refer to glyphs of a lower rank, not of a lower number
	rank := make([]int, n)
	for i := range rank {
		rank[i] = c.U(1000, "rank")
	}
	for i := 0; i < n; i++ {
		g := ttf.GlyphSpec{Adv: dim("adv", 0, 3000), LSB: dim("lsb", -50, 50)}
		switch c.U(4, "kind") {
		case 0: // empty
		case 1, 2:
			k := 1 + c.U(4, "pts")
			for j := 0; j < k; j++ {
				g.Points = append(g.Points, [2]int{dim("px", -100, 1000), dim("py", -100, 1000)})
			}
		default:
			k := 1 + c.U(3, "comps")
			for j := 0; j < k; j++ {
				o := c.U(n, "comp")
				if rank[o] >= rank[i] {
					continue
				}
				g.Comps = append(g.Comps, ttf.Component{Glyph: o, DX: dim("dx", -100, 100), DY: dim("dy", -100, 100), Words: c.Bool("words"), Scale: c.U(4, "scale"), Instr: c.Chance(30, "instr")})
			}
		}
		s.Glyphs = append(s.Glyphs, g)
	}
	if c.Chance(40, "hm") {
		s.NumHM = 1 + c.U(n, "numhm")
	}
	var rs []rune
	for i := 0; i < n+5; i++ {
		var r rune
		switch c.U(6, "rk") {
		case 0, 1, 2:
			r = rune(33 + c.U(90, "r"))
		case 3:
			r = rune(0xA1 + c.U(0x500, "r"))
		case 4:
			r = pick(c, "r", []rune{'a', 'b', 'c', 0xFFFD, 0xFFFC, 0xE000, 0x2028, 0xFF01})
		case 5:
			r = rune(0x10000 + c.U(0x3000, "r"))
			if c.Bool("far") {
				r = rune(c.U(16, "plane")+1)<<16 + rune(c.U(40, "r"))
			}
			if !s.Format12 {
				continue
			}
		}
		g := c.U(n, "g")
		if g == 0 {
			continue
		}
		if _, ok := s.Cmap[r]; ok {
			continue
		}
		s.Cmap[r] = g
		rs = append(rs, r)
	}
	if c.Chance(80, "space") {
		s.Cmap[' '] = c.U(n, "spaceglyph")
	}
	if s.KernTable {
		s.Kern = map[[2]int]int{}
		for i := 0; i < c.U(10, "kerns"); i++ {
			s.Kern[[2]int{c.U(n, "k1"), c.U(n, "k2")}] = dim("kv", -200, 200)
		}
		for c.Chance(30, "kernsplit") {
			s.KernSplit = append(s.KernSplit, c.U(4, "kernsplit"))
		}
		if c.Chance(20, "kernother") {
			s.KernOther = c.U(16, "kernother")
		}
	}
	if c.Chance(30, "names") {
		s.NameBefore, s.NameAfter = c.U(7, "names"), c.U(4, "names")
	}
	if c.Chance(30, "overlap") {
		s.Overlap = 1 + c.U(20, "overlap")
	}
	if len(rs) == 0 {
		s.Cmap['A'] = n - 1
		rs = []rune{'A'}
	}
	return s, rs
}

// checkProgram compares an embedded font with its original.
func checkProgram(c *Case, d *pdf.Doc, o *outFont, f *mfont, used []int, space string) {
	c.Helper()
	org := f.tf.f
	sub := o.prog
	if sub.NumGlyphs != org.NumGlyphs || sub.UPM != org.UPM || sub.NumHM != org.NumHM || sub.LongLoca != org.LongLoca {
		c.Bad("embedded font %s: glyphs %d units %d hmetrics %d longloca %v, original %d %d %d %v", f.family, sub.NumGlyphs, sub.UPM, sub.NumHM, sub.LongLoca, org.NumGlyphs, org.UPM, org.NumHM, org.LongLoca)
	}
	if sub.HheaAsc != org.HheaAsc || sub.HheaDesc != org.HheaDesc || sub.BBox != org.BBox {
		c.Bad("embedded font %s: head or hhea differ from the original", f.family)
	}
	cl := org.Closure(used)
	for _, g := range cl {
		if !bytes.Equal(sub.Glyph(g), org.Glyph(g)) {
			c.Bad("embedded font %s: glyph %d is %x, originally %x (used %v)", f.family, g, sub.Glyph(g), org.Glyph(g), used)
		}
		if sub.Adv[g] != org.Adv[g] || sub.LSB[g] != org.LSB[g] {
			c.Bad("embedded font %s: glyph %d has metrics (%d,%d), originally (%d,%d)", f.family, g, sub.Adv[g], sub.LSB[g], org.Adv[g], org.LSB[g])
		}
	}
	for _, tag := range []string{"cvt ", "fpgm", "prep", "hmtx"} {
		a, aok := org.Tables[tag]
		b := sub.Tables[tag]
		if !aok && b.Len != 0 || aok && !bytes.Equal(org.Data[a.Off:a.Off+a.Len], sub.Data[b.Off:b.Off+b.Len]) {
			c.Bad("embedded font %s: table %q differs from the original", f.family, tag)
		}
	}
	for _, g := range used {
		w, ok := o.f.W[g]
		if !ok {
			w = o.f.DW
		}
		if math.Abs(w-org.PDFWidth(g)) >= 1 {
			c.Bad("font %s: declared width of glyph %d is %g, the font's is %g", f.family, g, w, org.PDFWidth(g))
		}
	}
	fd := o.f.FD
	num := func(k pdf.Name) float64 {
		v, ok := d.Num(fd.Get(k))
		if !ok {
			c.Bad("font %s: descriptor /%s is %v", f.family, k, fd.Get(k))
		}
		return v
	}
	em := func(v int) float64 { return float64(v) * 1000 / float64(org.UPM) }
	cap := org.CapHeight
	if org.OS2Ver < 2 {
		cap = org.HheaAsc
	}
	for _, x := range []struct {
		k pdf.Name
		v float64
	}{{"Ascent", em(f.ascent())}, {"Descent", em(f.descent())}, {"CapHeight", em(cap)}} {
		if g := num(x.k); math.Abs(g-x.v) > 0.501 {
			c.Bad("font %s: declared /%s %g, the font's is %.2f", f.family, x.k, g, x.v)
		}
	}
	if g := num("ItalicAngle"); g != float64(org.Italic) {
		c.Bad("font %s: declared italic angle %g, the font's is %d", f.family, g, org.Italic)
	}
	if org.OS2Ver >= 2 && org.XHeight != 0 {
		if g := num("XHeight"); math.Abs(g-em(org.XHeight)) > 0.501 {
			c.Bad("font %s: declared x height %g, the font's is %.2f", f.family, g, em(org.XHeight))
		}
	}
	bb, ok := d.Nums(fd.Get("FontBBox"))
	if !ok || len(bb) != 4 {
		c.Bad("font %s: FontBBox %v", f.family, fd.Get("FontBBox"))
	}
	for i := range bb {
		if math.Abs(bb[i]-em(org.BBox[i])) > 0.501 {
			c.Bad("font %s: FontBBox %v, the font's is %v of %d", f.family, bb, org.BBox, org.UPM)
		}
	}
	if fl := int(num("Flags")); (fl&4 != 0) == (fl&32 != 0) {
		c.Bad("font %s: flags %d", f.family, fl)
	}
	nm := pdfFamily(f.family)
	for what, v := range map[string]any{"Type0 BaseFont": o.f.Dict.Get("BaseFont"), "CIDFont BaseFont": o.f.Desc.Get("BaseFont"), "FontName": fd.Get("FontName")} {
		if string(d.NameOf(v)) != nm {
			c.Bad("%s is %q, the font is %q", what, d.NameOf(v), f.family)
		}
	}
	if m := o.f.Desc.Get("CIDToGIDMap"); m != nil && d.NameOf(m) != "Identity" {
		c.Bad("font %s: CIDToGIDMap %v", f.family, m)
	}
}

func unionInts(m map[int]rune) (out []int) {
	for g := range m {
		out = append(out, g)
	}
	return
}

// TestC06_Fonts embeds generated fonts and compares what is embedded.
func TestC06_Fonts(t *testing.T) {
	Run(t, Opt{Quick: 30000, Thorough: 2400000, Rule: "a used glyph is composite, or the font's metrics are shared by its last glyphs"}, func(c *Case) {
		p := new(gopdf.GoPdf)
		cfg := gopdf.Config{PageSize: gopdf.Rect{W: 600, H: 800}}
		if c.Chance(15, "prot") {
			cfg.Protection = gopdf.PDFProtectionConfig{UseProtection: true, OwnerPass: []byte("o")}
		}
		p.Start(cfg)
		p.AddPage()
		var fonts []*mfont
		var sets [][]rune
		nf := 1 + c.U(2, "fonts")
		for i := 0; i < nf; i++ {
			var f *mfont
			var rs []rune
			fam := []string{"One", "Two words", "a/b"}[c.U(3, "fam")]
			for _, g := range fonts {
				if g.family == fam {
					fam = "Other"
				}
			}
			if c.Chance(8, "real") {
				f = &mfont{tf: serif()}
				rs = []rune("ÀÉÎõüAVfiçžğǺ½")
				if c.Bool("huge") {
					f = &mfont{tf: pick(c, "big", bigFonts())}
					rs = append([]rune("Aaéñÿ~zΩα–世一"), rune(0x4E00+c.U(20900, "cjk")), rune(0x4E00+c.U(20900, "cjk")), rune(0x20000+c.U(0x2000, "ext")))
				}
			} else {
				spec, r := genTTF(c)
				data := spec.Build()
				tf, err := ttf.Parse(data)
				if err != nil {
					c.Harness("generated font: %v", err)
				}
				f = &mfont{tf: &testFont{name: "gen", data: data, f: tf}}
				rs = r
				c.Log("%d glyphs, upm %d, %d runes, fmt12 %v, longloca %v, os2 %d", len(spec.Glyphs), spec.UPM, len(r), spec.Format12, spec.LongLoca, spec.OS2Ver)
			}
			f.family, f.kern, f.first = fam, c.Bool("usekern"), map[int]rune{}
			if f.lookup(' ') == 0 {
				f.subst = func(rune) rune { return rs[0] }
			}
			f.how = c.U(fontWays, "how")
			f.load(c, p)
			fonts = append(fonts, f)
			sets = append(sets, rs)
		}
		drawn := make([]map[int]rune, nf)
		for i := range drawn {
			drawn[i] = map[int]rune{}
		}
		for i := 0; i < 1+c.U(5, "draws"); i++ {
			k := c.U(nf, "font")
			f := fonts[k]
			if err := p.SetFont(f.family, "", 12); err != nil {
				c.Bad("selecting font %s: %v", f.family, err)
			}
			var sb strings.Builder
			for j := 0; j < 1+c.U(8, "len"); j++ {
				if c.Chance(5, "miss") {
					sb.WriteRune('中')
				} else {
					sb.WriteRune(pick(c, "r", sets[k]))
				}
			}
			c.Log("%s: %q", f.family, sb.String())
			for _, g := range f.shape(sb.String()) {
				drawn[k][g.g] = g.r
			}
			if err := p.Text(sb.String()); err != nil {
				c.Bad("Text: %v", err)
			}
			if c.Chance(15, "midoutput") {
				p.GetBytesPdf()
			}
		}
		d := decrypted(c, output(c, p), nil)
		pages, probs := d.Pages()
		if len(probs) > 0 {
			c.Bad("the output is not valid: %v", probs)
		}
		fr := newFontReader(c, d)
		seen := map[string]bool{}
		for i := range pages[0].Marks {
			m := &pages[0].Marks[i]
			o := fr.font(m)
			id := fmt.Sprint(m.GS.FontObj)
			if seen[id] {
				continue
			}
			seen[id] = true
			for k, f := range fonts {
				if pdfFamily(f.family) != o.base {
					continue
				}
				checkProgram(c, d, o, f, unionInts(drawn[k]), "")
				for g := range drawn[k] {
					if cs, _ := f.tf.f.Components(g); len(cs) > 0 || g >= f.tf.f.NumHM {
						c.Nontrivial()
					}
				}
			}
		}
	})
}
