package checks

import (
	"fmt"
	"math"

	"github.com/signintech/gopdf"

	"verif/pdf"
)

// scene is a document under construction together with what it must show.
type scene struct {
	c       *Case
	p       *gopdf.GoPdf
	k       float64
	page    int // current page, from 0
	pages   []*spage
	x, y    float64 // current position, points
	fonts   []*mfont
	f       *mfont
	size    float64
	under   bool
	tc      float64
	text    mcol // unset: gray mode, drawn in the fill colour
	lw      float64
	glyphs  []eglyph
	paths   []epath
	styles  int // changes of style
	texts   int
	groups  int
	noWrite bool
}

// spage is the graphics state of one page.
type spage struct {
	w, h         float64
	lw           float64
	fill, stroke mcol
	grayFill     bool // the fill colour is what gray text is drawn in
	// the texts drawn last, each where the one before ended
	run        int // glyphs
	endX, endY float64
}

type epath struct {
	page   int
	kind   string // line, rect
	a      [4]float64
	fill   bool
	stroke bool
	fc, sc mcol
	lw     float64
	under  bool
	loose  bool // the fill colour is not checked
	group  int  // paths of one cell, in any order
	mark   int  // where it was drawn
	tol    float64
	descr  string
}

// norm gives a rectangle by its lower left corner and a positive size.
func (e *epath) norm() {
	if e.kind == "rect" {
		if e.a[2] < 0 {
			e.a[0] += e.a[2]
			e.a[2] = -e.a[2]
		}
		if e.a[3] < 0 {
			e.a[1] -= e.a[3]
			e.a[3] = -e.a[3]
		}
	}
}

func (e *epath) at(g epath) bool {
	for q := range e.a {
		if !near(e.a[q], g.a[q], e.tol+0.0101) {
			return false
		}
	}
	return true
}

// same compares the geometry; a line has no direction.
func (e *epath) same(g epath) bool {
	if e.kind != g.kind {
		return false
	}
	if e.at(g) {
		return true
	}
	if e.kind == "line" {
		g.a = [4]float64{g.a[2], g.a[3], g.a[0], g.a[1]}
		return e.at(g)
	}
	return false
}

func newScene(c *Case, u unitCfg) *scene {
	s := &scene{c: c, p: new(gopdf.GoPdf), k: u.k(), lw: 1}
	s.p.Start(gopdf.Config{Unit: u.Unit, ConversionForUnit: u.Conv, PageSize: gopdf.Rect{W: 595 / s.k, H: 842 / s.k}})
	return s
}

func (s *scene) ok(err error, what string) {
	s.c.Helper()
	if err != nil {
		s.c.Bad("%s: %v", what, err)
	}
}

func (s *scene) pg() *spage { return s.pages[s.page] }

func (s *scene) addPage(w, h float64) {
	if w == 0 {
		s.p.AddPage()
		w, h = 595, 842
		s.c.Log("AddPage")
	} else {
		addPageOf(s.p, w/s.k, h/s.k)
		s.c.Log("AddPage %gx%g", w, h)
	}
	s.pages = append(s.pages, &spage{w: w, h: h, lw: 1, fill: black, stroke: black, grayFill: true})
	s.page = len(s.pages) - 1
	s.sync()
}

func (s *scene) selectPage(i int) {
	s.c.Log("SetPage(%d)", i+1)
	s.ok(s.p.SetPage(i+1), "SetPage")
	s.page = i
	s.sync()
}

// sync takes the position over from the document.
func (s *scene) sync() {
	s.x, s.y = s.p.GetX()*s.k, s.p.GetY()*s.k
}

func (s *scene) moveTo(x, y float64) {
	s.p.SetXY(x/s.k, y/s.k)
	s.c.Log("SetXY(%g,%g)", x, y)
	s.x, s.y = x, y
}

func (s *scene) setFont(f *mfont, size float64, under bool) {
	st := f.style
	if under {
		st |= gopdf.Underline
	}
	c := s.c
	c.Log("font %s size %g style %d", f.family, size, st)
	var num any = size
	if n := int(size); float64(n) == size && n < 128 {
		num = pick(c, "number", []any{size, n, int8(n), int16(n), int32(n), int64(n), uint(n), uint8(n), uint16(n), uint32(n), uint64(n), float32(n)})
	}
	if c.Bool("letters") {
		l := ""
		for i, x := range []int{gopdf.Bold, gopdf.Italic, gopdf.Underline} {
			if st&x == 0 {
				continue
			}
			w := c.Pick("letter", "BIU"[i:i+1], "biu"[i:i+1])
			if c.Bool("front") {
				l = w + l
			} else {
				l += w
			}
		}
		s.ok(s.p.SetFont(f.family, l, num), "SetFont")
	} else {
		s.ok(s.p.SetFontWithStyle(f.family, st, num), "SetFontWithStyle")
	}
	s.f, s.size, s.under = f, size, under
	s.styles++
}

// textColor is what a text drawn now is shown in.
func (s *scene) textColor() mcol {
	if s.text.space != "" {
		return s.text
	}
	if s.pg().grayFill {
		return s.pg().fill
	}
	return mcol{}
}

func (s *scene) tol(n int) float64 {
	return 0.0101 + s.f.slack(n, s.size, s.tc)
}

// show expects a string at a place; extra is added after interior blanks.
func (s *scene) show(gs []shaped, x, base, extra, tol float64, descr string) {
	xs, _ := s.f.offsets(gs, s.size, s.tc)
	first, last := len(gs), -1
	for i, g := range gs {
		if g.r != ' ' {
			if i < first {
				first = i
			}
			last = i
		}
	}
	add := 0.0
	for i, g := range gs {
		s.glyphs = append(s.glyphs, eglyph{page: s.page, x: x + xs[i] + add, y: base, g: g.g, f: s.f, size: s.size, tc: s.tc, col: s.textColor(), tol: tol, descr: descr})
		if g.r == ' ' && i > first && i < last {
			add += extra
			if extra != 0 {
				tol += 0.00051 * s.size
			}
		}
	}
}

func interior(gs []shaped) int {
	first, last, n := -1, -1, 0
	for i, g := range gs {
		if g.r != ' ' {
			if first < 0 {
				first = i
			}
			last = i
		}
	}
	for i, g := range gs {
		if g.r == ' ' && i > first && i < last && first >= 0 {
			n++
		}
	}
	return n
}

// underline expects the line under a text whose baseline is given.
func (s *scene) underline(x, base, w float64, o gopdf.CellOption, tol float64, descr string) {
	if !s.under {
		return
	}
	coef := func(v float64) float64 {
		if v == 0 {
			return 1
		}
		return v
	}
	t := s.f.tf.f
	em := func(v int) float64 { return float64(v) / float64(t.UPM) * s.size }
	asc, desc := em(s.f.ascent()), -em(s.f.descent())
	lead := (asc + desc - coef(o.CoefLineHeight)*s.size) / 2
	y := base - s.f.typoAsc(s.size) + asc + lead - em(t.ULPos)*coef(o.CoefUnderlinePosition)
	h := em(t.ULThick) * coef(o.CoefUnderlineThickness)
	if w == 0 {
		return
	}
	col := s.textColor()
	loose := col.space == ""
	if loose {
		col = s.pg().fill
	}
	s.paths = append(s.paths, epath{page: s.page, kind: "rect", a: [4]float64{x, y, w, h}, fill: true, fc: col, loose: loose, lw: s.pg().lw, under: true, tol: tol, descr: "underline of " + descr})
}

func (s *scene) border(x, y, w, h float64, b int, tol float64, descr string) {
	line := func(x0, y0, x1, y1 float64) {
		s.paths = append(s.paths, epath{page: s.page, kind: "line", a: [4]float64{x0, y0, x1, y1}, stroke: true, sc: s.pg().stroke, lw: s.pg().lw, tol: tol, descr: "border of " + descr})
	}
	o := s.lw / 2
	if b&gopdf.Top != 0 {
		line(x-o, y, x+w+o, y)
	}
	if b&gopdf.Left != 0 {
		line(x, y, x, y+h)
	}
	if b&gopdf.Right != 0 {
		line(x+w, y, x+w, y+h)
	}
	if b&gopdf.Bottom != 0 {
		line(x-o, y+h, x+w+o, y+h)
	}
}

// checkPos compares the position and takes it over.
func (s *scene) checkPos(what string, tol float64) {
	s.c.Helper()
	x, y := s.p.GetX()*s.k, s.p.GetY()*s.k
	rel := 1e-9 * (1 + math.Abs(x) + math.Abs(y))
	if !near(x, s.x, tol+rel) || !near(y, s.y, 1e-6+rel) {
		s.c.Bad("%s leaves the position at (%.4f,%.4f) instead of (%.4f,%.4f)", what, x, y, s.x, s.y)
	}
	s.x, s.y = x, y
}

func (s *scene) drawText(t string) {
	s.c.Log("Text(%q)", t)
	gs := s.f.shape(t)
	descr := fmt.Sprintf("Text %q", t)
	pg := s.pg()
	if !near(s.x, pg.endX, 1e-6) || !near(s.y, pg.endY, 1e-6) {
		pg.run = 0
	}
	pg.run += len(gs)
	tol := s.tol(pg.run)
	s.show(gs, s.x, s.y, 0, tol, descr)
	s.ok(s.p.Text(t), "Text")
	w := s.f.width(gs, s.size, s.tc)
	x := s.x
	s.x += w
	s.checkPos(descr, s.f.slack(len(gs), s.size, s.tc))
	pg.endX, pg.endY = s.x, s.y
	if w != 0 {
		w = s.x - x // the place where it ended was right
	}
	s.underline(x, s.y, w, gopdf.CellOption{}, tol, descr)
	s.texts++
}

// drawCell draws a cell; a nil option is a call of Cell.
func (s *scene) drawCell(w, h float64, t string, opt *gopdf.CellOption) {
	natural := w < 0
	var r *gopdf.Rect
	gs := s.f.shape(t)
	tw := s.f.width(gs, s.size, s.tc)
	if natural {
		w, h = tw, s.f.height(s.size)
	} else {
		r = &gopdf.Rect{W: w / s.k, H: h / s.k}
	}
	o := gopdf.CellOption{}
	if opt != nil {
		o = *opt
		s.c.Log("CellWithOption(%gx%g %v,%q,align %d border %d float %d coefs %g %g %g)", w, h, natural, t, o.Align, o.Border, o.Float, o.CoefLineHeight, o.CoefUnderlinePosition, o.CoefUnderlineThickness)
		s.ok(s.p.CellWithOption(r, t, o), "CellWithOption")
	} else {
		s.c.Log("Cell(%gx%g %v,%q)", w, h, natural, t)
		s.ok(s.p.Cell(r, t), "Cell")
	}
	if r != nil {
		*r = gopdf.Rect{W: 1, H: 1} // the caller uses it for something else
	}
	s.expectCell(s.x, s.y, w, h, tw, gs, t, o, natural)
	slack := s.f.slack(len(gs), s.size, s.tc)
	if !natural {
		slack = 1e-6
	}
	if o.Float == 0 || o.Float&gopdf.Right != 0 {
		s.x += w
	}
	if o.Float&gopdf.Bottom != 0 {
		s.y += h
	}
	s.checkPos(fmt.Sprintf("cell %q", t), slack)
	s.texts++
}

// expectCell expects the contents of a cell.
func (s *scene) expectCell(x0, y0, w, h, tw float64, gs []shaped, t string, o gopdf.CellOption, natural bool) {
	descr := fmt.Sprintf("cell %q", t)
	tol := s.tol(len(gs))
	base := y0 + s.f.typoAsc(s.size)
	switch {
	case o.Align&gopdf.Bottom != 0:
		base = y0 + h + s.f.typoDesc(s.size)
	case o.Align&gopdf.Middle != 0:
		base = y0 + h/2 + (s.f.typoAsc(s.size)+s.f.typoDesc(s.size))/2
	}
	x := x0
	extra := 0.0
	switch {
	case o.Align&gopdf.Right != 0:
		x += w - tw
	case o.Align&gopdf.Center != 0:
		x += (w - tw) / 2
	}
	if o.Align&gopdf.Justify != 0 && !natural {
		if n := interior(gs); n > 0 && w > tw {
			extra = (w - tw) / float64(n)
		}
	}
	s.show(gs, x, base, extra, tol, descr)
	from := len(s.paths)
	s.underline(x0, base, w, o, tol, descr)
	if !natural {
		tol = 0.0101
	}
	s.border(x0, y0, w, h, o.Border, tol, descr)
	s.groups++
	for i := from; i < len(s.paths); i++ {
		s.paths[i].group = s.groups
	}
}

func (s *scene) line(x0, y0, x1, y1 float64) {
	s.c.Log("Line(%g,%g,%g,%g)", x0, y0, x1, y1)
	s.p.Line(x0/s.k, y0/s.k, x1/s.k, y1/s.k)
	s.paths = append(s.paths, epath{page: s.page, kind: "line", a: [4]float64{x0, y0, x1, y1}, stroke: true, sc: s.pg().stroke, lw: s.pg().lw, tol: 0.0101, descr: "Line"})
}

func (s *scene) rect(x, y, w, h float64, style string) {
	s.c.Log("Rect(%g,%g,%g,%g,%s)", x, y, w, h, style)
	s.p.RectFromUpperLeftWithStyle(x/s.k, y/s.k, w/s.k, h/s.k, style)
	s.paths = append(s.paths, epath{page: s.page, kind: "rect", a: [4]float64{x, y + h, w, h}, fill: style != "D", stroke: style != "F", under: style == "F", fc: s.pg().fill, sc: s.pg().stroke, lw: s.pg().lw, tol: 0.0101, descr: "Rect"})
}

func (s *scene) fillColor(m mcol, set func(*gopdf.GoPdf)) {
	s.c.Log("fill %v", m)
	set(s.p)
	s.pg().fill, s.pg().grayFill = m, false
}

func (s *scene) strokeColor(m mcol, set func(*gopdf.GoPdf)) {
	s.c.Log("stroke %v", m)
	set(s.p)
	s.pg().stroke = m
}

func (s *scene) setTextColor(m mcol, set func(*gopdf.GoPdf)) {
	s.c.Log("text %v", m)
	set(s.p)
	s.text = m
	s.styles++
}

func (s *scene) grayFill(v float64) {
	s.c.Log("SetGrayFill(%g)", v)
	s.p.SetGrayFill(v)
	s.text = mcol{}
	s.pg().fill, s.pg().grayFill = grayCol(v), true
	// gray text on other pages is drawn in the fill colour of that page
	for _, q := range s.pages {
		if q != s.pg() {
			q.grayFill = false
		}
	}
	s.styles++
}

func (s *scene) lineWidth(v float64) {
	s.c.Log("SetLineWidth(%g)", v)
	s.p.SetLineWidth(v / s.k)
	s.lw, s.pg().lw = v, v
}

func (s *scene) charSpacing(v float64) {
	s.c.Log("SetCharSpacing(%g)", v)
	s.ok(s.p.SetCharSpacing(v/s.k), "SetCharSpacing")
	s.tc = v
	s.styles++
}

// check compares the output with everything that was expected.
func (s *scene) check() (*pdf.Doc, []*pdf.Page) {
	c := s.c
	c.Helper()
	d, pages := finish(c, s.p)
	if len(pages) != len(s.pages) {
		c.Bad("the document has %d pages, %d were added", len(pages), len(s.pages))
	}
	checkGlyphs(c, d, pages, s.glyphs)
	for i, pg := range pages {
		s.checkPaths(i, pg)
	}
	return d, pages
}

// cover merges the underlines of the model that the drawn one g covers: those
// of texts that were joined. It gives their number.
func cover(want []epath, g epath) (epath, int) {
	w, n := want[0], 1
	for w.under && g.under && n < len(want) {
		o := want[n]
		end := w.a[0] + w.a[2]
		tol := 0.03 + w.tol + o.tol
		if !o.under || !near(o.a[1], w.a[1], 0.025) || !near(o.a[3], w.a[3], 0.015) || !near(o.a[0], end, tol) || o.fc != w.fc || o.group > 0 || w.group > 0 || o.loose != w.loose {
			break
		}
		// the drawn one ends where w ends, or with a later one
		if math.Abs(g.a[0]+g.a[2]-end) <= math.Abs(g.a[0]+g.a[2]-(o.a[0]+o.a[2])) && !(o.a[2] > 0 && g.a[0]+g.a[2] > end+tol) {
			break
		}
		w.a[2] = o.a[0] + o.a[2] - w.a[0]
		w.tol += o.tol + 0.01
		n++
	}
	return w, n
}

func (s *scene) checkPaths(i int, pg *pdf.Page) {
	c := s.c
	c.Helper()
	var want, got []epath
	for _, e := range s.paths {
		if e.page == i {
			want = append(want, e)
		}
	}
	got = drawnPaths(pg)
	var exp []epath // as drawn
	for _, e := range want {
		if e.under && e.a[2] == 0 {
			continue
		}
		e.norm()
		exp = append(exp, e)
	}
	drawn := 0
	for j := 0; len(exp) > 0; j++ {
		drawn++
		if j >= len(got) {
			c.Bad("page %d: %s is not drawn", i+1, exp[0].descr)
		}
		if exp[0].group > 0 {
			// bring the path of this group that fits to the front
			n := 1
			for n < len(exp) && exp[n].group == exp[0].group {
				n++
			}
			for q := j; q < j+n && q < len(got); q++ {
				if exp[0].same(got[q]) && exp[0].fill == got[q].fill {
					got[j], got[q] = got[q], got[j]
					break
				}
			}
		}
		g := got[j]
		w, n := cover(exp, g)
		exp = exp[n:]
		if w.kind != g.kind || w.fill != g.fill || w.stroke != g.stroke {
			c.Bad("page %d, path %d (%s): drawn is a %s fill=%v stroke=%v", i+1, j, w.descr, g.kind, g.fill, g.stroke)
		}
		if !w.same(g) {
			c.Bad("page %d, path %d (%s): is at %.3f instead of %.3f (±%.3f)", i+1, j, w.descr, g.a, w.a, w.tol)
		}
		if w.fill && !w.loose && !w.fc.isCol(g.fc) {
			c.Bad("page %d, path %d (%s): fill colour %v instead of %v", i+1, j, w.descr, g.fc, w.fc)
		}
		if w.stroke && !w.sc.isCol(g.sc) {
			c.Bad("page %d, path %d (%s): stroke colour %v instead of %v", i+1, j, w.descr, g.sc, w.sc)
		}
		if w.stroke && !near(w.lw, g.lw, 0.0051) {
			c.Bad("page %d, path %d (%s): line width %g instead of %g", i+1, j, w.descr, g.lw, w.lw)
		}
	}
	if len(got) > drawn {
		c.Bad("page %d: %d paths are drawn, %d are expected", i+1, len(got), drawn)
	}
}

// drawnPaths reads the lines and rectangles of a page.
func drawnPaths(pg *pdf.Page) (got []epath) {
	for mi, m := range pg.Marks {
		if m.Kind != "path" {
			continue
		}
		e := epath{fill: m.Fill, stroke: m.Stroke, lw: m.GS.LW, kind: "other", mark: mi}
		var pts []pdf.Pt
		for _, sg := range m.Segs {
			if sg.Op == 'm' || sg.Op == 'l' {
				pts = append(pts, sg.P[0])
			}
		}
		if len(pts) == 2 {
			e.kind = "line"
			e.a = [4]float64{pts[0].X, top(pg, pts[0].Y), pts[1].X, top(pg, pts[1].Y)}
		} else if len(pts) == 4 && pts[0].Y == pts[1].Y && pts[1].X == pts[2].X {
			e.kind = "rect"
			e.a = [4]float64{pts[0].X, top(pg, pts[0].Y), pts[2].X - pts[0].X, pts[2].Y - pts[0].Y}
		}
		e.norm()
		// a filled rectangle without a stroke may be an underline
		e.under = e.kind == "rect" && e.fill && !e.stroke
		if e.fill {
			e.fc = mcol{space: m.GS.Fill.Space}
			copy(e.fc.c[:], m.GS.Fill.C)
		}
		if e.stroke {
			e.sc = mcol{space: m.GS.Stroke.Space}
			copy(e.sc.c[:], m.GS.Stroke.C)
		}
		if e.under && e.a[2] == 0 {
			continue // of an empty text
		}
		got = append(got, e)
	}
	return
}

// isCol compares with a colour of the output.
func (m mcol) isCol(g mcol) bool {
	return m.is(pdf.Color{Space: g.space, C: g.c[:map[string]int{"DeviceGray": 1, "DeviceRGB": 3, "DeviceCMYK": 4}[g.space]]})
}
