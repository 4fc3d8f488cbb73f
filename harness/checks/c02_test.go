package checks

import (
	"fmt"
	"strings"
	"testing"

	"github.com/signintech/gopdf"
)

// pmark is something drawn: the page shows it at a place of its own.
type pmark struct {
	kind string
	x, y float64 // from the top-left corner of the page
	x2   float64
	gs   []shaped
}

type ppage struct {
	w, h  float64
	trim  [4]float64
	marks []pmark
}

type pageModel struct {
	c       *Case
	p       *gopdf.GoPdf
	k       float64
	defW    float64
	defH    float64
	defTrim [4]float64
	pages   []*ppage
	cur     int
	n       int // tags used
	f       *mfont
	header  int // its kind, 0 for none
	footer  int
	calls   []string // of header and footer functions
}

// place gives a position nothing else has been drawn at.
func (m *pageModel) place() (x, y float64) {
	m.n++
	return float64(m.n%40)*5 + 0.25, float64(m.n/40)*7 + 0.5
}

func (m *pageModel) pg() *ppage { return m.pages[m.cur] }

// draw draws something on the current page.
func (m *pageModel) draw(what int) {
	c, p, k := m.c, m.p, m.k
	x, y := m.place()
	q := pmark{x: x, y: y}
	switch what {
	case 0:
		q.kind, q.x2 = "line", x+float64(1+m.n%17)
		p.Line(x/k, y/k, q.x2/k, y/k)
	case 1:
		q.kind, q.x2 = "rect", x+float64(1+m.n%17)
		p.RectFromUpperLeft(x/k, y/k, (q.x2-x)/k, 3/k)
	case 2:
		q.kind = "text"
		t := fmt.Sprintf("n%d", m.n)
		q.gs = m.f.shape(t)
		p.SetXY(x/k, y/k)
		if err := p.Text(t); err != nil {
			c.Bad("Text: %v", err)
		}
	case 3:
		q.kind = "image"
		im := stdImages()[3]
		h, err := gopdf.ImageHolderByBytes(im.data)
		if err != nil {
			c.Bad("image: %v", err)
		}
		if err := p.ImageByHolder(h, x/k, y/k, &gopdf.Rect{W: 2 / k, H: 2 / k}); err != nil {
			c.Bad("image: %v", err)
		}
	case 4:
		q.kind = "cell"
		t := fmt.Sprintf("c%d", m.n)
		q.gs = m.f.shape(t)
		p.SetXY(x/k, y/k)
		if err := p.Cell(&gopdf.Rect{W: 50 / k, H: 10 / k}, t); err != nil {
			c.Bad("Cell: %v", err)
		}
		q.kind, q.y = "text", y+m.f.typoAsc(8)
	case 5:
		q.kind, q.x2 = "line", x+2
		p.SetLineWidth(float64(m.n%5) / k)
		p.Line(x/k, y/k, q.x2/k, y/k)
	}
	c.Log("draw %s %d at %g,%g on %d", q.kind, m.n, x, y, m.cur+1)
	m.pg().marks = append(m.pg().marks, q)
}

// expect draws what a header or footer function draws.
func (m *pageModel) band(kind int, name string) func() {
	if kind == 0 {
		return nil
	}
	return func() {
		m.calls = append(m.calls, name)
		for i := 0; i < kind%4; i++ {
			m.draw((kind + i) % 3)
		}
		if kind == 3 {
			m.p.SetXY(11/m.k, 12/m.k)
		}
		if kind >= 4 && len(m.pages) > 1 {
			// something on an earlier page, and back
			n := m.cur
			for _, to := range []int{(n * (kind - 3)) % len(m.pages), n} {
				m.cur = to
				if err := m.p.SetPage(to + 1); err != nil {
					m.c.Bad("SetPage(%d): %v", to+1, err)
				}
				m.draw(kind % 3)
			}
		}
	}
}

// pageLength is mostly that of a sheet of paper.
func pageLength(c *Case, l string) float64 {
	switch c.U(16, l+"kind") {
	case 0:
		return c.F(0.5, 20, l)
	case 1:
		return c.F(900, 20000, l)
	}
	return c.F(100, 900, l)
}

func (m *pageModel) addPage() {
	c := m.c
	var o gopdf.PageOption
	pg := &ppage{w: m.defW, h: m.defH, trim: m.defTrim}
	how := c.U(4, "how")
	if how&1 != 0 {
		pg.w, pg.h = pageLength(c, "w"), pageLength(c, "h")
		o.PageSize = &gopdf.Rect{W: pg.w / m.k, H: pg.h / m.k}
	}
	if how&2 != 0 {
		t := [4]float64{c.F(0, 20, "l"), c.F(0, 20, "t"), c.F(30, 90, "r"), c.F(30, 90, "b")}
		if c.Chance(10, "zero") {
			t = [4]float64{}
		} else if c.Chance(20, "zeros") {
			// some of them are, not all
			for i := 0; i < 3; i++ {
				t[(c.U(4, "side")+i)%4] = 0
			}
			if t == ([4]float64{}) {
				t[c.U(4, "side")] = 17
			}
		}
		if t != ([4]float64{}) {
			pg.trim = t
		}
		o.TrimBox = &gopdf.Box{Left: t[0] / m.k, Top: t[1] / m.k, Right: t[2] / m.k, Bottom: t[3] / m.k}
	}
	m.pages = append(m.pages, pg)
	m.cur = len(m.pages) - 1
	c.Log("page %+v option %d", *pg, how)
	m.calls = nil
	if how == 0 && c.Bool("plain") {
		m.p.AddPage()
	} else {
		m.p.AddPageWithOption(o)
		if o.PageSize != nil {
			*o.PageSize = gopdf.Rect{W: 7, H: 8} // the caller uses them for something else
		}
		if o.TrimBox != nil {
			*o.TrimBox = gopdf.Box{Left: 1, Top: 2, Right: 3, Bottom: 4}
		}
	}
	var want []string
	if m.header > 0 {
		want = append(want, "header")
	}
	if m.footer > 0 {
		want = append(want, "footer")
	}
	if fmt.Sprint(m.calls) != fmt.Sprint(want) {
		c.Bad("adding a page called %v, expected is %v", m.calls, want)
	}
	if m.p.GetNumberOfPages() != len(m.pages) {
		c.Bad("%d pages are reported, %d were added", m.p.GetNumberOfPages(), len(m.pages))
	}
}

func (m *pageModel) check() {
	c := m.c
	d, pages := finish(c, m.p)
	if len(pages) != len(m.pages) {
		c.Bad("the document has %d pages, %d were added", len(pages), len(m.pages))
	}
	for i, pg := range pages {
		w := m.pages[i]
		if !near(pg.Media[2]-pg.Media[0], w.w, 0.0051) || !near(pg.Media[3]-pg.Media[1], w.h, 0.0051) || pg.Media[0] != 0 || pg.Media[1] != 0 {
			c.Bad("page %d has the box %v instead of %gx%g", i+1, pg.Media, w.w, w.h)
		}
		var trim [4]float64
		if a, ok := d.Nums(pg.Dict.Get("TrimBox")); ok && len(a) == 4 {
			copy(trim[:], a)
		}
		for j := range trim {
			if !near(trim[j], w.trim[j], 0.0051) {
				c.Bad("page %d has the trim box %v instead of %v", i+1, trim, w.trim)
			}
		}
		got := pg.Marks
		// texts may be joined and a cell's text can be empty: compare glyph by glyph
		type item struct {
			kind     string
			x, y, x2 float64
			g        int
		}
		var gi, wi []item
		for _, mk := range got {
			switch mk.Kind {
			case "path":
				if len(mk.Segs) == 0 {
					c.Bad("page %d has an empty path", i+1)
				}
				it := item{kind: "line", x: mk.Segs[0].P[0].X, y: top(pg, mk.Segs[0].P[0].Y)}
				lo, hi, ty := 1e9, -1e9, 1e9
				pts := 0
				for _, s := range mk.Segs {
					if s.Op == 'm' || s.Op == 'l' {
						pts++
						lo, hi, ty = min(lo, s.P[0].X), max(hi, s.P[0].X), min(ty, top(pg, s.P[0].Y))
					}
				}
				if pts > 2 {
					it.kind = "rect"
				}
				it.x, it.x2, it.y = lo, hi, ty
				gi = append(gi, it)
			case "text":
				for _, g := range mk.Glyphs {
					gi = append(gi, item{kind: "text", x: g.Pos.X, y: top(pg, g.Pos.Y), g: g.Code})
				}
			case "image":
				gi = append(gi, item{kind: "image", x: mk.GS.CTM[4], y: top(pg, mk.GS.CTM[5]+mk.GS.CTM[3])})
			default:
				c.Bad("page %d shows a %s", i+1, mk.Kind)
			}
		}
		for _, q := range w.marks {
			if q.kind != "text" {
				wi = append(wi, item{kind: q.kind, x: q.x, y: q.y, x2: q.x2})
				continue
			}
			xs, _ := m.f.offsets(q.gs, 8, 0)
			for j, g := range q.gs {
				wi = append(wi, item{kind: "text", x: q.x + xs[j], y: q.y, g: g.g})
			}
		}
		for j, e := range wi {
			if j >= len(gi) {
				c.Bad("page %d: %s at %g,%g is missing", i+1, e.kind, e.x, e.y)
			}
			g := gi[j]
			if g.kind != e.kind || !near(g.x, e.x, 0.0202) || !near(g.y, e.y, 0.0202) || g.g != e.g || !near(g.x2, e.x2, 0.0202) {
				c.Bad("page %d, mark %d: drawn is %+v, expected is %+v", i+1, j, g, e)
			}
		}
		if len(gi) > len(wi) {
			c.Bad("page %d: has %d marks, %d are expected, e.g. %+v", i+1, len(gi), len(wi), gi[len(wi)])
		}
	}
}

// TestC02_Pages runs page histories against the list of pages.
func TestC02_Pages(t *testing.T) {
	Run(t, Opt{Quick: 40000, Thorough: 3000000, Rule: "at least 3 pages and a page selected"}, func(c *Case) {
		u := pick(c, "unit", units)
		m := &pageModel{c: c, p: new(gopdf.GoPdf), k: u.k(), defW: pageLength(c, "w"), defH: pageLength(c, "h")}
		cfg := gopdf.Config{Unit: u.Unit, ConversionForUnit: u.Conv, PageSize: gopdf.Rect{W: m.defW / m.k, H: m.defH / m.k}}
		if c.Chance(40, "trim") {
			m.defTrim = [4]float64{c.F(1, 20, "l"), c.F(0, 20, "t"), c.F(30, 90, "r"), c.F(30, 90, "b")}
			cfg.TrimBox = gopdf.Box{Left: m.defTrim[0] / m.k, Top: m.defTrim[1] / m.k, Right: m.defTrim[2] / m.k, Bottom: m.defTrim[3] / m.k}
		}
		m.p.Start(cfg)
		m.p.SetCompressLevel(pick(c, "level", []int{0, -1, 1}))
		m.f = &mfont{tf: stdFonts()[0], family: "F", first: map[int]rune{}}
		m.f.load(c, m.p)
		if err := m.p.SetFont("F", "", 8); err != nil {
			c.Bad("SetFont: %v", err)
		}
		if m.p.GetNumberOfPages() != 0 {
			c.Bad("a new document has %d pages", m.p.GetNumberOfPages())
		}
		n := c.count(3, 30, 100, "n")
		sel := 0
		for i := 0; i < n; i++ {
			op := c.U(12, "op")
			if len(m.pages) == 0 && op > 2 && op != 9 && op != 10 {
				op = 0
			}
			switch op {
			case 0, 1, 2:
				if len(m.pages) < 9 {
					m.addPage()
				} else if c.Chance(2, "many") && m.n < 400 {
					for j := c.U(60, "pages"); j > 0; j-- {
						m.addPage()
					}
				}
			case 3, 4, 5, 6:
				m.draw(c.U(6, "what"))
			case 7, 8:
				m.cur = c.U(len(m.pages), "page")
				c.Log("SetPage(%d)", m.cur+1)
				if err := m.p.SetPage(m.cur + 1); err != nil {
					c.Bad("SetPage(%d): %v", m.cur+1, err)
				}
				sel++
			case 9:
				bad := pick(c, "bad", []int{0, -1, len(m.pages) + 1, 1 << 40, -1 << 62})
				c.Log("SetPage(%d)", bad)
				if m.p.SetPage(bad) == nil {
					c.Bad("page %d of %d is selected", bad, len(m.pages))
				}
			case 10:
				k := c.U(7, "kind")
				if c.Bool("header") {
					m.header = k
					m.p.AddHeader(m.band(k, "header"))
				} else {
					m.footer = k
					m.p.AddFooter(m.band(k, "footer"))
				}
				c.Log("header %d footer %d", m.header, m.footer)
			case 11:
				switch c.U(3, "misc") {
				case 0:
					output(c, m.p)
					c.Log("output")
				case 1:
					m.p.SetMargins(0, float64(c.U(99, "m"))/m.k, 0, 0)
				case 2:
					// an object that is no page
					m.p.AddExternalLink("x", 1, 1, 1, 1)
				}
			}
		}
		m.check()
		if len(m.pages) >= 3 && sel > 0 && strings.Count(strings.Join(c.lines, "\n"), "draw") > 2 {
			c.Nontrivial()
		}
	})
}
