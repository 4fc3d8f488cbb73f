package checks

import (
	"testing"

	"github.com/signintech/gopdf"
)

type cursorModel struct {
	c          *Case
	p          *gopdf.GoPdf
	k          float64
	x, y       float64
	l, t, r, b float64 // margins
	pages      []float64
	cur        int
	defH       float64
	breaks     int
	header     int
	ran        int
}

func (m *cursorModel) verify(what string) {
	c := m.c
	c.Helper()
	tol := 1e-9 * 2000
	if x, y := m.p.GetX()*m.k, m.p.GetY()*m.k; !near(x, m.x, tol) || !near(y, m.y, tol) {
		c.Bad("%s leaves the position at (%g,%g) instead of (%g,%g)", what, x, y, m.x, m.y)
	}
	l, t, r, b := m.p.Margins()
	want := [4]float64{m.l, m.t, m.r, m.b}
	for i, g := range [4]float64{l, t, r, b} {
		if !near(g*m.k, want[i], tol) {
			c.Bad("%s: margin %d is %g instead of %g", what, i, g*m.k, want[i])
		}
	}
	for i, g := range [4]float64{m.p.MarginLeft(), m.p.MarginTop(), m.p.MarginRight(), m.p.MarginBottom()} {
		if !near(g*m.k, want[i], tol) {
			c.Bad("%s: the getter of margin %d gives %g instead of %g", what, i, g*m.k, want[i])
		}
	}
	if n := m.p.GetNumberOfPages(); n != len(m.pages) {
		c.Bad("%s: there are %d pages instead of %d", what, n, len(m.pages))
	}
}

func (m *cursorModel) newPage(h float64) {
	m.pages = append(m.pages, h)
	m.cur = len(m.pages) - 1
	m.x, m.y = m.l, m.t
}

// TestC25_Cursor runs histories of calls that move the position.
func TestC25_Cursor(t *testing.T) {
	Run(t, Opt{Quick: 150000, Thorough: 8000000, Rule: "at least 2 pages, one of them by an automatic break"}, func(c *Case) {
		u := genUnit(c, "unit")
		m := &cursorModel{c: c, p: new(gopdf.GoPdf), k: u.k(), l: 10, t: 10, r: 10, b: 10, defH: c.F(100, 900, "h")}
		k := m.k
		m.p.Start(gopdf.Config{Unit: u.Unit, ConversionForUnit: u.Conv, PageSize: gopdf.Rect{W: 400 / k, H: m.defH / k}})
		c.Log("unit %v page height %g", u, m.defH)
		m.verify("Start")
		font := stdFonts()[0]
		fonts := false
		if c.Chance(30, "font") {
			if err := m.p.AddTTFFontData("F", font.data); err != nil {
				c.Bad("font: %v", err)
			}
			if err := m.p.SetFont("F", "", 10); err != nil {
				c.Bad("font: %v", err)
			}
			fonts = true
		}
		n := c.count(3, 30, 100, "n")
		for i := 0; i < n; i++ {
			op := c.U(24, "op")
			if len(m.pages) == 0 && op >= 10 && op != 12 {
				op = 10
			}
			what := ""
			switch op {
			case 0:
				m.x = c.F(-50, 900, "x")
				m.p.SetX(m.x / k)
				what = "SetX"
			case 1:
				m.y = c.F(-50, 900, "y")
				m.p.SetY(m.y / k)
				what = "SetY"
			case 2:
				m.x, m.y = c.F(-50, 900, "x"), c.F(-50, 900, "y")
				m.p.SetXY(m.x/k, m.y/k)
				what = "SetXY"
			case 3, 4:
				h := c.F(-20, 200, "h")
				m.p.Br(h / k)
				m.x, m.y = m.l, m.y+h
				what = "Br"
			case 5:
				m.l, m.t, m.r, m.b = c.F(0, 90, "l"), c.F(0, 90, "t"), c.F(0, 90, "r"), c.F(0, 90, "b")
				m.p.SetMargins(m.l/k, m.t/k, m.r/k, m.b/k)
				what = "SetMargins"
			case 6:
				m.l = c.F(0, 90, "l")
				if c.Bool("old") {
					m.p.SetLeftMargin(m.l / k)
				} else {
					m.p.SetMarginLeft(m.l / k)
				}
				what = "SetMarginLeft"
			case 7:
				m.t = c.F(0, 90, "t")
				if c.Bool("old") {
					m.p.SetTopMargin(m.t / k)
				} else {
					m.p.SetMarginTop(m.t / k)
				}
				what = "SetMarginTop"
			case 8:
				m.r = c.F(0, 90, "r")
				m.p.SetMarginRight(m.r / k)
				what = "SetMarginRight"
			case 9:
				m.b = c.F(0, 90, "b")
				m.p.SetMarginBottom(m.b / k)
				what = "SetMarginBottom"
			case 10:
				m.p.AddPage()
				m.newPage(m.defH) // after the header and footer functions, which may have set the margins
				what = "AddPage"
			case 11:
				h := c.F(50, 900, "ph")
				addPageOf(m.p, 300/k, h/k)
				m.newPage(h)
				what = "AddPageWithOption"
			case 12:
				m.header = c.U(3, "header")
				var set *[4]float64
				if c.Chance(30, "set") {
					set = &[4]float64{c.F(0, 90, "l"), c.F(0, 90, "t"), c.F(0, 90, "r"), c.F(0, 90, "b")}
				}
				f := func() {
					m.ran++
					m.p.SetXY(3/k, 4/k)
					m.p.Br(7 / k)
					if set != nil {
						m.l, m.t, m.r, m.b = set[0], set[1], set[2], set[3]
						m.p.SetMargins(m.l/k, m.t/k, m.r/k, m.b/k)
					}
				}
				switch m.header {
				case 0:
					m.p.AddHeader(nil)
					m.p.AddFooter(nil)
				case 1:
					m.p.AddHeader(f)
				case 2:
					m.p.AddFooter(f)
				}
				what = "AddHeader"
			case 13:
				m.cur = c.U(len(m.pages), "page")
				if err := m.p.SetPage(m.cur + 1); err != nil {
					c.Bad("SetPage: %v", err)
				}
				what = "SetPage"
			case 14:
				// everything else leaves the position alone
				switch c.U(8, "other") {
				case 0:
					m.p.Line(1/k, 2/k, 30/k, 40/k)
				case 1:
					m.p.RectFromUpperLeftWithStyle(1/k, 2/k, 30/k, 40/k, "FD")
				case 2:
					if err := m.p.Image(stdImages()[3].path, 5/k, 6/k, nil); err != nil {
						c.Bad("Image: %v", err)
					}
				case 3:
					m.p.Rotate(30, 10/k, 20/k)
					m.p.RotateReset()
				case 4:
					m.p.AddExternalLink("http://x", 1/k, 2/k, 3/k, 4/k)
					m.p.SetAnchor("a")
				case 5:
					output(c, m.p)
				case 6:
					m.p.AddOutline("o")
					m.p.SetLineWidth(1 / k)
					m.p.SetStrokeColor(1, 2, 3)
				case 7:
					if fonts {
						m.p.MeasureTextWidth("abc def")
						m.p.SplitText("abc def", 20/k)
						m.p.IsFitMultiCell(&gopdf.Rect{W: 10 / k, H: 50 / k}, "abc def")
						m.p.SetFontSize(11)
					}
				}
				what = "other"
			case 15, 16, 17, 18, 19, 20, 21, 22, 23:
				kindOf := c.U(3, "break")
				limit := m.pages[m.cur] - m.b
				y, x := c.F(0, 800, "y"), c.F(0, 300, "x")
				from := m.y
				if kindOf == 1 {
					from = y
				}
				h := c.F(0, 300, "h")
				switch c.U(4, "near") {
				case 0:
					h = limit - from
					if k != 1 {
						h -= 0.001
					}
				case 1:
					h = limit - from + 0.25
				case 2:
					h = limit - from - 0.25
				}
				if h < 0 {
					h = 1
				}
				if k != 1 && near(from+h, limit, 1e-4) {
					h++
				}
				brk := from+h > limit
				switch kindOf {
				case 0:
					m.p.SetNewY(y/k, h/k)
					what = "SetNewY"
				case 1:
					m.p.SetNewYIfNoOffset(y/k, h/k)
					what = "SetNewYIfNoOffset"
				case 2:
					m.p.SetNewXY(y/k, x/k, h/k)
					what = "SetNewXY"
				}
				c.Log("limit %g from %g y %g x %g height %g: break %v", limit, from, y, x, h, brk)
				if brk {
					m.breaks++
					m.newPage(m.defH)
				} else {
					m.y = y
				}
				if kindOf == 2 {
					m.x = x
				}
			}
			c.Log("%s -> (%g,%g) page %d of %d margins %g %g %g %g", what, m.x, m.y, m.cur+1, len(m.pages), m.l, m.t, m.r, m.b)
			m.verify(what)
			if len(m.pages) > 12 {
				break
			}
		}
		// the pages that broke are there, with what is drawn on the last
		if len(m.pages) > 0 {
			m.p.Line(1/k, 2/k, 3/k, 4/k)
			if c.Chance(20, "output") {
				_, pages := finish(c, m.p)
				if len(pages) != len(m.pages) {
					c.Bad("the output has %d pages instead of %d", len(pages), len(m.pages))
				}
				for i, pg := range pages {
					if !near(pg.Media[3], m.pages[i], 0.0051) {
						c.Bad("page %d is %g high instead of %g", i+1, pg.Media[3], m.pages[i])
					}
				}
			}
		}
		if len(m.pages) > 1 && m.breaks > 0 {
			c.Nontrivial()
		}
	})
}
