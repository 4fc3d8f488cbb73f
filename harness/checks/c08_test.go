package checks

import (
	"fmt"
	"testing"

	"github.com/signintech/gopdf"
)

func (s *scene) genFonts(n int) {
	c := s.c
	type key struct {
		family string
		style  int
	}
	known := map[key]bool{}
	many := c.Chance(1, "manyfonts")
	if many {
		n += 8 + c.U(24, "nmany")
	}
	for i := 0; i < n; i++ {
		k := key{pick(c, "family", []string{"F one", "F one", "f one", "G", "F", "F one "}), pick(c, "style", []int{0, gopdf.Italic, gopdf.Bold, gopdf.Bold | gopdf.Italic})}
		if many {
			k.family += fmt.Sprint(i)
		}
		if known[k] {
			continue
		}
		known[k] = true
		f := genFont(c, "font", k.family, k.style)
		f.load(c, s.p)
		s.fonts = append(s.fonts, f)
	}
}

func (s *scene) genCellOpt() *gopdf.CellOption {
	c := s.c
	o := &gopdf.CellOption{
		Align:  pick(c, "halign", []int{0, gopdf.Left, gopdf.Center, gopdf.Right, gopdf.Justify}) | pick(c, "valign", []int{0, gopdf.Top, gopdf.Middle, gopdf.Bottom}),
		Border: c.U(16, "border"),
		Float:  pick(c, "float", []int{0, gopdf.Right, gopdf.Bottom, gopdf.Right | gopdf.Bottom}),
	}
	if c.Bool("noborder") {
		o.Border = 0
	}
	if c.Chance(25, "coefs") {
		o.CoefLineHeight = pick(c, "clh", []float64{0, 1.5, 2})
		o.CoefUnderlinePosition = pick(c, "cup", []float64{0, 1.5, 2})
		o.CoefUnderlineThickness = pick(c, "cut", []float64{0, 0.5, 3})
	}
	return o
}

// side draws the length of a side of a cell, now and then tiny or huge.
func (s *scene) side(hi float64, l string) float64 {
	switch s.c.U(30, l+"kind") {
	case 28:
		return s.c.F(0, 5, l)
	case 29:
		return s.c.F(hi, 3000, l)
	}
	return s.c.F(5, hi, l)
}

// textOp draws or changes something; it is the alphabet of C08.
func (s *scene) textOp() {
	c := s.c
	word := func() string {
		if c.Chance(12, "missing") {
			return c.anyText(s.f, 6, "any")
		}
		return c.text(9, "t")
	}
	switch c.U(28, "op") {
	case 0, 1, 2, 3, 4, 5:
		s.drawText(word())
	case 6, 7:
		s.drawCell(s.side(200, "w"), s.side(60, "h"), word(), nil)
	case 8, 9, 10:
		s.drawCell(s.side(200, "w"), s.side(60, "h"), word(), s.genCellOpt())
	case 11:
		if c.Bool("opt") {
			s.drawCell(-1, 0, word(), s.genCellOpt())
		} else {
			s.drawCell(-1, 0, word(), nil)
		}
	case 12:
		if c.Chance(5, "off") {
			// beyond the page
			s.moveTo(c.F(-300, 2000, "x"), c.F(-300, 3000, "y"))
			break
		}
		s.moveTo(c.F(0, 500, "x"), c.F(0, 800, "y"))
	case 13:
		x := c.F(0, 500, "x")
		c.Log("SetX(%g)", x)
		s.p.SetX(x / s.k)
		s.x = x
	case 14:
		y := c.F(0, 500, "y")
		c.Log("SetY(%g)", y)
		s.p.SetY(y / s.k)
		s.y = y
	case 15:
		// back to where we are: changes nothing
		c.Log("SetX(GetX)")
		s.p.SetX(s.p.GetX())
		if c.Bool("y") {
			s.p.SetY(s.p.GetY())
		}
	case 16:
		h := c.F(0, 40, "h")
		c.Log("Br(%g)", h)
		s.p.Br(h / s.k)
		s.y += h
		s.x = s.p.MarginLeft() * s.k
		s.checkPos("Br", 1e-6)
	case 17, 18:
		sz := float64(32+c.U(300, "size")) / 8
		if c.Chance(40, "same") {
			sz = s.size
		}
		s.setFont(pick(c, "f", s.fonts), sz, c.Chance(35, "under"))
	case 19:
		sz := float64(32+c.U(300, "size")) / 8
		if c.Chance(40, "near") {
			sz = max(1, s.size+float64(c.U(17, "step")-8)/8)
		}
		c.Log("SetFontSize(%g)", sz)
		s.ok(s.p.SetFontSize(sz), "SetFontSize")
		s.size = sz
		s.styles++
	case 20:
		m, set, _, _ := genColor(c, "text")
		s.setTextColor(m, set)
	case 21:
		switch c.U(4, "gfx") {
		case 0:
			m, _, set, _ := genColor(c, "fill")
			s.fillColor(m, set)
		case 1:
			m, _, _, set := genColor(c, "stroke")
			s.strokeColor(m, set)
		case 2:
			s.lineWidth(float64(1+c.U(60, "lw")) / 8)
		case 3:
			s.grayFill(float64(c.U(5, "g")) / 4)
		}
	case 22:
		s.charSpacing(pick(c, "tc", []float64{0, 0, 1, 2.5, 0.25, -0.5, 7}))
	case 23:
		if c.Bool("rect") {
			s.rect(c.F(0, 500, "x"), c.F(0, 800, "y"), c.F(1, 90, "w"), c.F(1, 90, "h"), c.Pick("style", "D", "F", "DF"))
		} else {
			s.line(c.F(0, 500, "x"), c.F(0, 800, "y"), c.F(0, 500, "x1"), c.F(0, 800, "y1"))
		}
	case 24:
		if c.Chance(30, "measure") {
			// measuring goes unnoticed
			s.p.MeasureTextWidth(word())
			s.p.SplitText(c.text(9, "t"), 20/s.k)
			c.Log("measure")
		} else if len(s.pages) < 4 {
			if c.Chance(60, "def") {
				s.addPage(0, 0)
			} else {
				s.addPage(c.F(100, 900, "pw"), c.F(100, 1200, "ph"))
			}
		}
	case 25:
		s.selectPage(c.U(len(s.pages), "page"))
	case 26, 27:
		s.pair()
	}
}

// pair draws two texts with at most one small change between them.
func (s *scene) pair() {
	c := s.c
	change := c.U(6, "between")
	col := func() {
		m, set, _, _ := genColor(c, "text")
		s.setTextColor(m, set)
	}
	if change < 2 {
		col()
	}
	s.drawText(c.text(4, "t"))
	switch change {
	case 0, 1:
		c.near = 1 + change
		col()
		c.near = 0
	case 2:
		sz := s.size
		if c.Chance(70, "size") {
			sz = max(1, sz+pick(c, "by", []float64{0.125, -0.125, 0.25, 1, -1}))
		}
		s.setFont(pick(c, "f", s.fonts), sz, s.under != c.Chance(30, "under"))
	case 3:
		sz := max(1, s.size+pick(c, "by", []float64{0.125, -0.125, 0.25, 1, -1}))
		c.Log("SetFontSize(%g)", sz)
		s.ok(s.p.SetFontSize(sz), "SetFontSize")
		s.size = sz
		s.styles++
	case 4:
		s.charSpacing(pick(c, "tc", []float64{0, 1, 2.5, 0.25}))
	}
	s.drawText(c.text(4, "t"))
}

// TestC08_Calls interleaves text calls with everything that changes a style.
func TestC08_Calls(t *testing.T) {
	Run(t, Opt{Quick: 36000, Thorough: 2400000, Rule: "at least 4 texts and 2 changes of style"}, func(c *Case) {
		s := newScene(c, pick(c, "unit", units))
		s.addPage(0, 0)
		s.genFonts(1 + c.U(3, "nfonts"))
		s.setFont(s.fonts[0], 12, false)
		n := 2 + c.U(30, "n")
		for i := 0; i < n; i++ {
			s.textOp()
		}
		s.check()
		if s.texts >= 4 && s.styles >= 3 {
			c.Nontrivial()
		}
	})
}
