package checks

import (
	"strings"
	"testing"

	"github.com/signintech/gopdf"

	"verif/pdf"
)

// anyText draws a string with characters the font has and lacks.
func (c *Case) anyText(f *mfont, n int, l string) string {
	k := c.length(n, l)
	var sb strings.Builder
	for i := 0; i < k; i++ {
		switch c.U(12, l+"k") {
		case 0:
			r := []rune(missingRunes)
			sb.WriteRune(r[c.U(len(r), l)])
		case 1:
			sb.WriteRune(pick(c, l, []rune{0x1F600, 0x1F601, 0x10348, '世', 0xFFFD, 0xA0, 0xFDF2, '–', farRunes[c.U(len(farRunes), l+"far")], rune(0x20000 + c.U(0x2000, l+"ext"))}))
		case 2:
			sb.WriteRune(rune(0xFE70 + c.U(0x90, l)))
		case 3:
			sb.WriteRune(rune(c.U(0x2100, l)))
		case 4:
			sb.WriteRune(rune(0x10000 + c.U(0xFFFFF, l)))
		case 5:
			sb.WriteRune(rune(0x2000 + c.U(0xB000, l)))
		default:
			r := []rune(alphabets[c.U(len(alphabets), l+"a")])
			sb.WriteRune(r[c.U(len(r), l+"r")])
		}
	}
	return sb.String()
}

// TestC05_Text draws strings with several fonts and reads them back.
func TestC05_Text(t *testing.T) {
	Run(t, Opt{Quick: 30000, Thorough: 2400000, Rule: "a font other than the first is used, or a character is missing, or there is a character outside the basic plane"}, func(c *Case) {
		p := new(gopdf.GoPdf)
		cfg := gopdf.Config{PageSize: gopdf.Rect{W: 600, H: 800}}
		prot := c.Chance(15, "prot")
		if prot {
			cfg.Protection = gopdf.PDFProtectionConfig{UseProtection: true, OwnerPass: []byte("o")}
		}
		p.Start(cfg)
		p.AddPage()
		fonts := []*mfont{genFont(c, "f0", "Alpha", 0)}
		if c.Chance(60, "second") {
			fonts = append(fonts, genFont(c, "f1", pick(c, "fam", []string{"Beta", "Alpha"}), gopdf.Bold))
		}
		if c.Chance(20, "third") {
			fonts = append(fonts, genFont(c, "f2", "Gamma", gopdf.Italic|gopdf.Bold))
		}
		if c.Chance(10, "serif") {
			f := &mfont{tf: serif(), family: "Serif", first: map[int]rune{}, kern: c.Bool("kern")}
			fonts = append(fonts, f)
			c.Log("font Serif")
		}
		for _, f := range fonts {
			f.load(c, p)
		}
		type draw struct {
			f  *mfont
			gs []shaped
			in string
		}
		var want []draw
		cur := fonts[0]
		set := func(f *mfont) {
			cur = f
			if err := p.SetFontWithStyle(f.family, f.style, 10+len(want)%3); err != nil {
				c.Bad("selecting font %s: %v", f.family, err)
			}
		}
		set(cur)
		report := func(what, s string, again bool) {
			// calls that measure before they draw report a character more than
			// once per occurrence; everything else exactly once, in order
			f := cur
			if again {
				count := map[rune]int{}
				for _, r := range f.missed {
					if f.lookup(r) != 0 {
						c.Bad("%s %q reports %q, which the font has", what, s, r)
					}
					count[r]++
				}
				for _, r := range f.want {
					if count[r]--; count[r] < 0 {
						c.Bad("%s %q reports %q, missing are %q", what, s, string(f.missed), string(f.want))
					}
				}
			} else if string(f.missed) != string(f.want) {
				c.Bad("%s %q reports the missing characters %q, they are %q", what, s, string(f.missed), string(f.want))
			}
			for _, g := range fonts {
				if g != f && len(g.missed) > 0 {
					c.Bad("%s %q reports missing characters to another font", what, s)
				}
			}
			f.missed, f.want = nil, nil
		}
		ok := func(err error, what string) {
			if err != nil {
				c.Bad("%s: %v", what, err)
			}
		}
		n := 1 + c.U(12, "n")
		for i := 0; i < n; i++ {
			if c.Chance(30, "switch") {
				set(pick(c, "which", fonts))
			}
			s := c.anyText(cur, 12, "s")
			if c.Chance(1, "much text") {
				if c.Bool("many characters") {
					from := pick(c, "from", []int{0x20, 0x20, 0x400, 0x4e00, 0xac00, 0x10000})
					var sb strings.Builder
					for i, m := 0, 200+c.U(1800, "many"); i < m; i++ {
						sb.WriteRune(rune(from + i))
					}
					s = sb.String()
				} else if s != "" {
					s = strings.Repeat(s, 1+c.U(6000, "long")/len(s))
				}
			}
			switch c.U(9, "op") {
			case 0, 1, 2:
				c.Log("%s: Text(%q)", cur.family, s)
				want = append(want, draw{cur, cur.shape(s), s})
				ok(p.Text(s), "Text")
				report("Text", s, false)
			case 3:
				c.Log("%s: Cell(%q)", cur.family, s)
				want = append(want, draw{cur, cur.shape(s), s})
				ok(p.Cell(&gopdf.Rect{W: 50, H: 20}, s), "Cell")
				report("Cell", s, false)
			case 4:
				al := pick(c, "al", []int{gopdf.Left, gopdf.Right | gopdf.Bottom, gopdf.Center | gopdf.Middle, gopdf.Justify})
				c.Log("%s: CellWithOption(%q,%d)", cur.family, s, al)
				want = append(want, draw{cur, cur.shape(s), s})
				ok(p.CellWithOption(&gopdf.Rect{W: 100, H: 20}, s, gopdf.CellOption{Align: al}), "CellWithOption")
				report("CellWithOption", s, false)
			case 5:
				c.Log("%s: MultiCell(%q)", cur.family, s)
				want = append(want, draw{cur, cur.shape(s), s})
				ok(p.MultiCell(&gopdf.Rect{W: 40, H: 10000}, s), "MultiCell")
				report("MultiCell", s, true)
			case 6:
				c.Log("%s: MeasureTextWidth(%q)", cur.family, s)
				cur.shape(s)
				_, err := p.MeasureTextWidth(s)
				ok(err, "MeasureTextWidth")
				report("MeasureTextWidth", s, false)
			case 7:
				for _, r := range s {
					has, err := p.IsCurrFontContainGlyph(r)
					ok(err, "IsCurrFontContainGlyph")
					if has != (cur.lookup(r) != 0) {
						c.Bad("IsCurrFontContainGlyph(%q) is %v", r, has)
					}
				}
				report("IsCurrFontContainGlyph", s, false)
			case 8:
				c.Log("%s: move", cur.family)
				p.SetXY(20, float64(20+i*9))
			}
			if c.Chance(6, "page") {
				c.Log("AddPage")
				p.AddPage()
			}
		}
		b := output(c, p)
		d := decrypted(c, b, nil)
		if !prot {
			d, _ = parse(c, b)
		}
		pages, probs := d.Pages()
		if len(probs) > 0 {
			c.Bad("the output is not valid: %v", probs)
		}
		fr := newFontReader(c, d)
		var got []agl
		for _, pg := range pages {
			for i := range pg.Marks {
				m := &pg.Marks[i]
				if m.Kind != "text" {
					c.Bad("something other than text is drawn: %s", m.Kind)
				}
				for _, g := range m.Glyphs {
					got = append(got, agl{g, m})
				}
			}
		}
		k := 0
		for _, w := range want {
			for i, g := range w.gs {
				if k >= len(got) {
					c.Bad("%q is not drawn completely", w.in)
				}
				a := got[k]
				k++
				o := fr.font(a.m)
				if !o.is(w.f) {
					c.Bad("%q is drawn in font %s instead of %s", w.in, o.base, w.f.family)
				}
				if a.Code != g.g {
					c.Bad("character %d of %q (%q) is drawn with glyph %d, the font assigns %d", i, w.in, g.r, a.Code, g.g)
				}
				if all := o.cmap.All[a.Code]; len(all) == 0 {
					c.Bad("glyph %d (%q of %q) has no entry in the character map", a.Code, g.r, w.in)
				} else {
					for _, x := range all {
						if x != all[0] {
							c.Bad("glyph %d has two entries in the character map, %q", a.Code, all)
						}
					}
				}
				x := o.cmap.M[a.Code]
				if x != string(w.f.first[g.g]) {
					c.Bad("%q of %q (glyph %d) reads back as %q", g.r, w.in, g.g, x)
				}
				if a.Code > o.cmap.Hi || a.Code < o.cmap.Lo {
					c.Bad("code %d is outside the code space %d..%d", a.Code, o.cmap.Lo, o.cmap.Hi)
				}
				if g.r > 0xFFFF || w.f != fonts[0] {
					c.Nontrivial()
				}
			}
			if runes(w.gs) != w.in {
				c.Nontrivial()
				c.Class("missing characters")
			}
		}
		if k != len(got) {
			c.Bad("%d glyphs are drawn, expected are %d", len(got), k)
		}
	})
	_ = pdf.Ident
}
