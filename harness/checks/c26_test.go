package checks

import (
	"bytes"
	"os"
	"path/filepath"
	"testing"

	"github.com/signintech/gopdf/fontmaker/core"

	"verif/ttf"
)

// extremes sets some numbers of a font to the limits of their types.
func extremes(c *Case, s *ttf.Spec) {
	c.Log("with extreme numbers")
	lim := []int{-32768, 32767, -32767, -1, 0, 1, 255, 256, -256, 128, -128, 20000, -20000}
	for i, f := range []*int{&s.Asc, &s.Desc, &s.TypoAsc, &s.TypoDesc, &s.CapHeight, &s.XHeight, &s.Italic, &s.ULPos, &s.ULThick, &s.BBox[0], &s.BBox[1], &s.BBox[2], &s.BBox[3]} {
		if c.Chance(25, "lim") {
			*f = pick(c, "limit", lim)
			c.Log("number %d is %d", i, *f)
		}
	}
	for i := range s.Glyphs {
		if c.Chance(20, "limadv") {
			s.Glyphs[i].Adv = pick(c, "limadv", []int{0, 1, 255, 256, 32767, 32768, 65535, 40000})
		}
	}
	if s.KernTable {
		for i := 0; i < 6; i++ {
			s.Kern[[2]int{c.U(len(s.Glyphs), "k1"), c.U(len(s.Glyphs), "k2")}] = pick(c, "limkern", lim)
		}
	}
}

// TestC26_Parser reads fonts through the parser and compares all it tells.
func TestC26_Parser(t *testing.T) {
	Run(t, Opt{Quick: 24000, Thorough: 2400000, Rule: "a font with at least 10 glyphs and 5 characters"}, func(c *Case) {
		var data []byte
		var name string
		if c.Chance(96, "generated") {
			spec, _ := genTTF(c)
			if c.Chance(30, "extreme") {
				extremes(c, &spec)
			}
			data, name = spec.Build(), "generated"
		} else {
			f := pick(c, "std", stdFonts())
			data, name = f.data, f.name
		}
		f, err := ttf.Parse(data)
		if err != nil {
			c.Harness("font %s: %v", name, err)
		}
		var p core.TTFParser
		kern := c.Bool("kerning")
		if kern || c.Bool("set") {
			p.SetUseKerning(kern)
		}
		in, intact := spare(data)
		how := c.U(3, "how")
		c.Log("%s font, %d glyphs, %d characters, upm %d, kerning %v, way %d", name, f.NumGlyphs, len(f.Cmap4)+len(f.Cmap12), f.UPM, kern, how)
		switch how {
		case 0:
			err = p.ParseFontData(in)
		case 1:
			err = p.ParseByReader(&pieces{data, 1 + len(data)/2})
		case 2:
			path := filepath.Join(imgDir(), "parse.ttf")
			if e := os.WriteFile(path, data, 0o644); e != nil {
				c.Harness("%v", e)
			}
			err = p.Parse(path)
		}
		if err != nil {
			c.Bad("the font is rejected: %v", err)
		}
		if !intact() || !bytes.Equal(p.FontData(), data) {
			c.Bad("the data of the font is not what was given")
		}
		for _, x := range []struct {
			what      string
			got, want int
		}{
			{"NumGlyphs", int(p.NumGlyphs()), f.NumGlyphs},
			{"UnitsPerEm", int(p.UnitsPerEm()), f.UPM},
			{"NumberOfHMetrics", int(p.NumberOfHMetrics()), f.NumHM},
			{"XMin", p.XMin(), f.BBox[0]}, {"YMin", p.YMin(), f.BBox[1]}, {"XMax", p.XMax(), f.BBox[2]}, {"YMax", p.YMax(), f.BBox[3]},
			{"ItalicAngle", p.ItalicAngle(), f.Italic},
			{"UnderlinePosition", p.UnderlinePosition(), f.ULPos},
			{"UnderlineThickness", p.UnderlineThickness(), f.ULThick},
			{"TypoAscender", p.TypoAscender(), f.TypoAsc},
			{"TypoDescender", p.TypoDescender(), f.TypoDesc},
		} {
			if x.got != x.want {
				c.Bad("%s() is %d, in the font %d", x.what, x.got, x.want)
			}
		}
		if f.OS2Ver >= 2 {
			if p.CapHeight() != f.CapHeight {
				c.Bad("CapHeight() is %d, in the font %d", p.CapHeight(), f.CapHeight)
			}
			if f.XHeight != 0 && p.XHeight() != f.XHeight {
				c.Bad("XHeight() is %d, in the font %d", p.XHeight(), f.XHeight)
			}
		} else if p.CapHeight() != f.HheaAsc {
			c.Bad("CapHeight() is %d, the font has none and an ascender of %d", p.CapHeight(), f.HheaAsc)
		}
		tabs := p.GetTables()
		if len(tabs) != len(f.Tables) {
			c.Bad("%d tables, the font has %d", len(tabs), len(f.Tables))
		}
		for tag, w := range f.Tables {
			g, ok := tabs[tag]
			if !ok || int(g.Offset) != w.Off || int(g.Length) != w.Len || uint32(g.CheckSum) != w.Sum {
				c.Bad("table %q is %+v, in the font %+v", tag, g, w)
			}
			if l := g.PaddedLength(); l < w.Len || l > w.Len+3 || l%4 != 0 {
				c.Bad("table %q of %d bytes has the padded length %d", tag, w.Len, l)
			}
		}
		ws := p.Widths()
		if len(ws) < f.NumGlyphs {
			c.Bad("%d widths for %d glyphs", len(ws), f.NumGlyphs)
		}
		for g, w := range f.Adv {
			if int(ws[g]) != w {
				c.Bad("glyph %d is %d wide, in the font %d", g, ws[g], w)
			}
		}
		n := 0
		for r, g := range p.Chars() {
			if f.Cmap4[rune(r)] != int(g) {
				c.Bad("character %U is glyph %d, in the font %d", r, g, f.Cmap4[rune(r)])
			}
			n++
		}
		if n != len(f.Cmap4) {
			c.Bad("%d characters, the font has %d", n, len(f.Cmap4))
		}
		got12 := map[rune]int{}
		for _, gr := range p.GroupingTables() {
			for ch := gr.StartCharCode; ch <= gr.EndCharCode; ch++ {
				got12[rune(ch)] = int(gr.GlyphID + ch - gr.StartCharCode)
			}
		}
		if len(got12) != len(f.Cmap12) {
			c.Bad("%d characters in the groups, the font has %d", len(got12), len(f.Cmap12))
		}
		for r, g := range f.Cmap12 {
			if got12[r] != g {
				c.Bad("character %U is glyph %d by the groups, in the font %d", r, got12[r], g)
			}
		}
		k := p.Kern()
		_, has := f.Tables["kern"]
		if (k != nil) != (kern && has) {
			c.Bad("kerning wanted %v, in the font %v, given %v", kern, has, k != nil)
		}
		if k != nil {
			n := 0
			for l, m := range k.Kerning {
				for r, v := range m {
					if w, ok := f.Kern[[2]int{int(l), int(r)}]; !ok || int(v) != w {
						c.Bad("the pair %d %d is kerned by %d, in the font %d", l, r, v, w)
					}
					if ok, v2 := m.ValueByRight(r); !ok || v2 != v {
						c.Bad("ValueByRight(%d) is %v %d", r, ok, v2)
					}
					n++
				}
				if ok, v := m.ValueByRight(70000); ok || v != 0 {
					c.Bad("ValueByRight finds a pair that is not there")
				}
			}
			if n != len(f.Kern) {
				c.Bad("%d kerning pairs, the font has %d", n, len(f.Kern))
			}
		}
		for i := range p.LocaTable {
			if i < len(f.Loca) && int(p.LocaTable[i]) != f.Loca[i] {
				c.Bad("glyph %d is at %d, in the font %d", i, p.LocaTable[i], f.Loca[i])
			}
		}
		if p.IsShortIndex == f.LongLoca || len(p.LocaTable) < len(f.Loca) {
			c.Bad("loca: short %v, %d entries; the font: long %v, %d entries", p.IsShortIndex, len(p.LocaTable), f.LongLoca, len(f.Loca))
		}
		if f.NumGlyphs >= 10 && len(f.Cmap4)+len(f.Cmap12) >= 5 {
			c.Nontrivial()
		}
	})
}
