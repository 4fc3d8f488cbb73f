package checks

import (
	"math"
	"strings"
	"testing"

	"github.com/signintech/gopdf"
)

// multiScene is a scene with one font selected at some place.
func multiScene(c *Case) *scene {
	s := newScene(c, genUnit(c, "unit"))
	s.addPage(0, 0)
	s.genFonts(1)
	s.setFont(s.fonts[0], float64(32+c.U(200, "size"))/8, c.Chance(20, "under"))
	if c.Chance(20, "spacing") {
		s.charSpacing(pick(c, "tc", []float64{1, 2.5, 0.25, -0.5}))
	}
	s.moveTo(c.F(0, 300, "x"), c.F(0, 300, "y"))
	return s
}

func (s *scene) measure(x string) float64 {
	w, err := s.p.MeasureTextWidth(x)
	s.ok(err, "MeasureTextWidth")
	return w
}

// paragraph draws words and blanks.
func (s *scene) paragraph(n int) string {
	c := s.c
	var sb strings.Builder
	k := c.U(n, "pieces")
	for i := 0; i < k; i++ {
		switch c.U(8, "piece") {
		case 0, 1, 2:
			sb.WriteString(c.word(9, "w"))
		case 3, 4, 5:
			sb.WriteByte(' ')
		case 6:
			sb.WriteString(c.text(6, "t"))
		case 7:
			if c.Chance(30, "missing") {
				sb.WriteString(c.anyText(s.f, 4, "any"))
			} else {
				sb.WriteString("  ")
			}
		}
	}
	return strings.NewReplacer("\n", "", "\r", "", "\t", "").Replace(sb.String())
}

// lengthen now and then makes a long text of a short one.
func (s *scene) lengthen(text string) string {
	if text != "" && s.c.Chance(1, "long text") {
		text = strings.Repeat(text, 1+s.c.U(5000, "long")/len(text))
	}
	return text
}

// genWidth draws a width in document units, often exactly that of a part.
func (s *scene) genWidth(text string) float64 {
	c := s.c
	rs := []rune(text)
	if len(rs) > 0 && c.Bool("exact") {
		i := c.U(len(rs), "from")
		j := i + 1 + c.U(len(rs)-i, "to")
		w := s.measure(string(rs[i:j]))
		switch c.U(4, "eps") {
		case 0:
			w = math.Nextafter(w, 0)
		case 1:
			w = math.Nextafter(w, 1e9)
		}
		if w > 0 {
			return w
		}
	}
	return c.F(1, 300, "w") / s.k
}

// lines breaks a text without newlines where the width is reached.
func (s *scene) breakLines(text string, width float64) (out []string) {
	line := ""
	for _, r := range text {
		if line != "" && s.measure(line+string(r)) > width {
			out = append(out, line)
			line = ""
		}
		line += string(r)
	}
	if line != "" {
		out = append(out, line)
	}
	return
}

// lineHeight in document units.
func (s *scene) lineHeight() float64 {
	h, err := s.p.MeasureCellHeightByText("x")
	s.ok(err, "MeasureCellHeightByText")
	return h
}

// expectLines expects lines drawn as cells one below the other.
func (s *scene) expectLines(ls []string, w, h float64, o gopdf.CellOption) {
	lh := s.f.height(s.size)
	y := s.y
	for i, l := range ls {
		gs := s.f.shape(l)
		lo := o
		if i == len(ls)-1 {
			lo.Align &^= gopdf.Justify
		}
		s.expectCell(s.x, y, w, h, s.f.width(gs, s.size, s.tc), gs, l, lo, false)
		y += lh
	}
	s.y = y
}

// genRows draws a height in document units that holds some lines.
func (s *scene) genRows(n int) float64 {
	c := s.c
	lh := s.lineHeight()
	sum := 0.0
	for i := 0; i < c.U(n+2, "rows"); i++ {
		sum += lh
	}
	switch c.U(6, "rowseps") {
	case 0:
		return math.Nextafter(sum, 0)
	case 1:
		return math.Nextafter(sum, 1e9)
	case 2:
		return sum + lh*0.5
	case 3:
		return sum + lh*0.999
	}
	return sum
}

// TestC10_MultiCell compares the lines drawn, the fit check and the model.
func TestC10_MultiCell(t *testing.T) {
	Run(t, Opt{Quick: 24000, Thorough: 1500000, Rule: "at least 3 lines"}, func(c *Case) {
		s := multiScene(c)
		n := 1 + c.U(3, "cells")
		most := 0
		for i := 0; i < n; i++ {
			text := s.paragraph(12)
			w := s.genWidth(text)
			text = s.lengthen(text)
			sub := runes(s.f.shape(text))
			ls := s.breakLines(sub, w)
			r := &gopdf.Rect{W: w, H: s.genRows(len(ls))}
			lh := s.lineHeight()
			fit, sum := 0, 0.0
			for sum+lh <= r.H && fit < len(ls) {
				sum += lh
				fit++
			}
			c.Log("MultiCell(%gx%g points, %q): %d lines of %g, %d fit", w*s.k, r.H*s.k, text, len(ls), lh*s.k, fit)
			was := *r
			x, y := s.p.GetX(), s.p.GetY()
			ok, h, err := s.p.IsFitMultiCell(r, text)
			s.ok(err, "IsFitMultiCell")
			if s.p.GetX() != x || s.p.GetY() != y {
				c.Bad("the fit check moves the position")
			}
			if ok != (fit == len(ls)) {
				c.Bad("the fit check says %v, %d of %d lines fit", ok, fit, len(ls))
			}
			if ok && !near(h, lh*float64(len(ls)), 1e-6*(1+h)) {
				c.Bad("the fit check reports the height %g, %d lines have %g", h, len(ls), lh*float64(len(ls)))
			}
			ok2, h2, err := s.p.IsFitMultiCellWithNewline(r, text)
			s.ok(err, "IsFitMultiCellWithNewline")
			if ok2 != ok || ok && !near(h2, h, 1e-6*(1+h)) {
				c.Bad("IsFitMultiCell says %v %g, IsFitMultiCellWithNewline says %v %g", ok, h, ok2, h2)
			}
			s.ok(s.p.MultiCell(r, text), "MultiCell")
			if *r != was {
				c.Bad("the rectangle was changed")
			}
			s.expectLines(ls[:fit], w*s.k, lh*s.k, gopdf.CellOption{})
			s.checkPos("MultiCell", 1e-6)
			most = max(most, fit)
			if fit > 0 {
			}
			if c.Chance(30, "between") {
				s.drawText(c.text(5, "t"))
			}
		}
		s.check()
		if most >= 3 {
			c.Nontrivial()
		}
	})
}

// TestC10_Newlines compares the fit check for several paragraphs with drawing
// them one after the other.
func TestC10_Newlines(t *testing.T) {
	Run(t, Opt{Quick: 12000, Thorough: 1000000, Rule: "at least 2 paragraphs and 3 lines"}, func(c *Case) {
		s := multiScene(c)
		var ps []string
		total := 0
		var lines []int
		n := 1 + c.U(4, "paragraphs")
		w := c.F(20, 300, "w") / s.k
		for i := 0; i < n; i++ {
			p := c.word(5, "w") + s.paragraph(6)
			ps = append(ps, p)
			k := len(s.breakLines(runes(s.f.shape(p)), w))
			lines = append(lines, k)
			total += k
		}
		lh := s.lineHeight()
		rows := c.U(total+2, "rows")
		// away from the height of all lines: heights are subtracted one by one
		part := pick(c, "part", []float64{0.25, 0.5, 0.01, 0})
		if part == 0 && rows >= total {
			part = 0.001
		}
		r := &gopdf.Rect{W: w, H: lh * (float64(rows) + part)}
		text := strings.Join(ps, "\n")
		c.Log("%q in %gx%g points: %v lines, %d rows", text, w*s.k, r.H*s.k, lines, rows)
		was := *r
		ok, h, err := s.p.IsFitMultiCellWithNewline(r, text)
		s.ok(err, "IsFitMultiCellWithNewline")
		if *r != was {
			c.Bad("the rectangle was changed")
		}
		if ok != (total <= rows) {
			c.Bad("the fit check says %v for %d lines in %d rows", ok, total, rows)
		}
		if ok && !near(h, lh*float64(total), 1e-6*(1+h)) {
			c.Bad("the fit check reports the height %g, %d lines have %g", h, total, lh*float64(total))
		}
		// drawing each paragraph in what is left draws everything
		left := r.H
		y := s.y
		drawn := 0
		for _, p := range ps {
			y0 := s.p.GetY()
			s.ok(s.p.MultiCell(&gopdf.Rect{W: w, H: left}, p), "MultiCell")
			d := s.p.GetY() - y0
			left -= d
			drawn += int(math.Round(d / lh))
		}
		if (drawn == total) != ok {
			c.Bad("the fit check says %v, %d of %d lines are drawn", ok, drawn, total)
		}
		_, pages := finish(c, s.p)
		seen := map[int]bool{}
		for _, m := range kind(pages[0].Marks, "text") {
			for _, g := range m.Glyphs {
				seen[int(math.Round((top(pages[0], g.Pos.Y)-y-s.f.typoAsc(s.size))*100))] = true
			}
		}
		if len(seen) > drawn {
			c.Bad("text is on %d heights, %d lines were drawn", len(seen), drawn)
		}
		if n >= 2 && total >= 3 {
			c.Nontrivial()
		}
	})
}

// TestC10_Option compares the lines of the option variant with the splitter.
func TestC10_Option(t *testing.T) {
	Run(t, Opt{Quick: 24000, Thorough: 1500000, Rule: "at least 3 lines"}, func(c *Case) {
		s := multiScene(c)
		n := 1 + c.U(3, "cells")
		most := 0
		for i := 0; i < n; i++ {
			text := s.paragraph(12)
			text = s.lengthen(text)
			if c.Chance(40, "newlines") {
				text = strings.Replace(text, "  ", "\n", -1)
				if c.Bool("first") {
					text = strings.Replace(text, " ", "\n", 1)
				}
			}
			w := s.genWidth(strings.ReplaceAll(text, "\n", ""))
			o := gopdf.CellOption{Align: pick(c, "halign", []int{0, gopdf.Left, gopdf.Center, gopdf.Right, gopdf.Justify, gopdf.Justify}) | pick(c, "valign", []int{0, gopdf.Top, gopdf.Middle, gopdf.Bottom})}
			var bo *gopdf.BreakOption
			if c.Chance(75, "break") {
				bo = &gopdf.BreakOption{Mode: pick(c, "mode", []gopdf.BreakMode{gopdf.BreakModeStrict, gopdf.BreakModeIndicatorSensitive, gopdf.BreakModeIndicatorSensitive}),
					BreakIndicator: pick(c, "ind", []rune{' ', ' ', 'a'}), Separator: c.Pick("sep", "", "", "-")}
				o.BreakOption = bo
			}
			ls, err := s.p.SplitTextWithOption(text, w, bo)
			if (err != nil) != (text == "") {
				c.Bad("splitting %q: %v", text, err)
			}
			r := &gopdf.Rect{W: w, H: s.genRows(len(ls))}
			was, wasBreak := *r, bo
			c.Log("MultiCellWithOption(%gx%g points, %q, align %d, %+v): %q", w*s.k, r.H*s.k, text, o.Align, bo, ls)
			err = s.p.MultiCellWithOption(r, text, o)
			if (err != nil) != (text == "") {
				c.Bad("MultiCellWithOption(%q): %v", text, err)
			}
			if *r != was || o.BreakOption != wasBreak || gopdf.DefaultBreakOption != (gopdf.BreakOption{}) {
				c.Bad("an argument was changed")
			}
			lh := s.f.height(s.size)
			s.expectLines(ls, w*s.k, r.H*s.k-lh*float64(len(ls)-1), o)
			s.checkPos("MultiCellWithOption", 1e-6)
			most = max(most, len(ls))
			if len(ls) > 0 {
			}
			if c.Chance(30, "between") {
				s.drawText(c.text(5, "t"))
			}
		}
		s.check()
		if most >= 3 {
			c.Nontrivial()
		}
	})
}
