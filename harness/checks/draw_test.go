package checks

import (
	"fmt"
	"math"

	"github.com/signintech/gopdf"

	"verif/pdf"
)

// canvas is a document under construction with the list of everything that
// must be painted, mark by mark, and the graphics state it is painted with.
type canvas struct {
	c     *Case
	p     *gopdf.GoPdf
	k     float64
	page  int
	pages []*cpage
	want  []*item
	font  *mfont
	named map[string]mcol // named colours by name
	doc   blend           // transparency of the document
	calls int
	held  map[*picture][]heldHolder
}

// heldHolder is an image holder that the document has read the image of.
type heldHolder struct {
	h   gopdf.ImageHolder
	src string
}

// holder gives a holder of the picture, sometimes one that was used before.
func (v *canvas) holder(p *picture, l string) (gopdf.ImageHolder, string) {
	if used := v.held[p]; len(used) > 0 && v.c.Chance(25, l+"used") {
		u := pick(v.c, l+"which", used)
		return u.h, u.src
	}
	return p.holder(v.c, l)
}

// hold keeps the holder of a picture that was drawn.
func (v *canvas) hold(p *picture, h gopdf.ImageHolder, src string) {
	if v.held == nil {
		v.held = map[*picture][]heldHolder{}
	}
	v.held[p] = append(v.held[p], heldHolder{h, src})
}

type cpage struct {
	w, h  float64
	gs    gst
	stack []cframe
}

type cframe struct {
	gs  gst
	rot bool
}

// gst is a graphics state of the model.
type gst struct {
	ctm          pdf.Matrix
	tol          float64
	lw           float64
	dash         []float64
	phase        float64
	fill, stroke mcol
	named        string // stroke colour is a named one
	clips        []eclip
}

type eclip struct {
	segs []pdf.Seg
	tol  float64
}

type blend struct {
	a  float64
	bm string
}

var opaque = blend{1, "Normal"}

type item struct {
	page         int
	kind         string // path, oval, glyph, image, form, block, rest
	segs         []pdf.Seg
	box          [4]float64 // of an oval: x0,y0,x1,y1 before the matrix
	fill, stroke bool
	gs           gst
	bl           blend
	quad         [3]pdf.Pt // of an image: its lower left, lower right and upper left corner
	im           *picture
	masked       bool // drawn with a mask
	glyphs       int  // of a block
	paths        int
	mask         func(c *Case, d *pdf.Doc, it *item, m *pdf.Mark, descr string)
	form         func(c *Case, d *pdf.Doc, it *item, m *pdf.Mark, descr string)
	noColor      bool
	descr        string
}

// flat is a drawn mark, or one glyph of it.
type flat struct {
	kind string
	m    *pdf.Mark
	pos  pdf.Pt
}

func newCanvas(c *Case, u unitCfg) *canvas {
	v := &canvas{c: c, p: new(gopdf.GoPdf), k: u.k(), named: map[string]mcol{}, doc: opaque}
	v.p.Start(gopdf.Config{Unit: u.Unit, ConversionForUnit: u.Conv, PageSize: gopdf.Rect{W: 595 / v.k, H: 842 / v.k}})
	return v
}

func (v *canvas) addPage(w, h float64) {
	if w == 0 {
		w, h = 595, 842
		v.c.Log("AddPage")
		v.p.AddPage()
	} else {
		v.c.Log("AddPage %gx%g", w, h)
		addPageOf(v.p, w/v.k, h/v.k)
	}
	v.pages = append(v.pages, &cpage{w: w, h: h, gs: gst{ctm: pdf.Ident, tol: 0.0155, lw: 1, fill: black, stroke: black}})
	v.page = len(v.pages) - 1
}

func (v *canvas) selectPage(i int) {
	v.c.Log("SetPage(%d)", i+1)
	if err := v.p.SetPage(i + 1); err != nil {
		v.c.Bad("SetPage(%d): %v", i+1, err)
	}
	v.page = i
}

func (v *canvas) pg() *cpage { return v.pages[v.page] }

// pt is a point given from the upper left corner, on the page.
func (v *canvas) pt(x, y float64) pdf.Pt {
	return v.pg().gs.ctm.Apply(pdf.Pt{X: x, Y: v.pg().h - y})
}

func (v *canvas) figure(descr string, fill, stroke, closed bool, pts ...float64) *item {
	var segs []pdf.Seg
	for i := 0; i+1 < len(pts); i += 2 {
		op := byte('l')
		if i == 0 {
			op = 'm'
		}
		segs = append(segs, pdf.Seg{Op: op, P: []pdf.Pt{v.pt(pts[i], pts[i+1])}})
	}
	if closed {
		segs = append(segs, pdf.Seg{Op: 'h'})
	}
	return v.expect(&item{kind: "path", segs: segs, fill: fill, stroke: stroke, descr: descr})
}

func (v *canvas) expect(it *item) *item {
	it.page = v.page
	it.gs = v.pg().gs
	it.bl = v.doc
	v.want = append(v.want, it)
	v.calls++
	v.c.Log("%s", it.descr)
	return it
}

func (v *canvas) push(rot bool) {
	v.pg().stack = append(v.pg().stack, cframe{v.pg().gs, rot})
}

func (v *canvas) pop() {
	n := len(v.pg().stack)
	v.pg().gs = v.pg().stack[n-1].gs
	v.pg().stack = v.pg().stack[:n-1]
}

func (v *canvas) save() {
	v.c.Log("SaveGraphicsState")
	v.p.SaveGraphicsState()
	v.push(false)
}

// back undoes the last save or rotation.
func (v *canvas) back() {
	n := len(v.pg().stack)
	if n == 0 {
		return
	}
	if v.pg().stack[n-1].rot {
		v.c.Log("RotateReset")
		v.p.RotateReset()
	} else {
		v.c.Log("RestoreGraphicsState")
		v.p.RestoreGraphicsState()
	}
	v.pop()
}

// turn is the matrix of a rotation, counterclockwise, about a point from the
// upper left corner.
func (v *canvas) turn(angle, x, y float64) pdf.Matrix {
	s, c := math.Sincos(angle * math.Pi / 180)
	cx, cy := x, v.pg().h-y
	return pdf.Matrix{1, 0, 0, 1, -cx, -cy}.Mul(pdf.Matrix{c, s, -s, c, 0, 0}).Mul(pdf.Matrix{1, 0, 0, 1, cx, cy})
}

func (v *canvas) rotate(angle, x, y float64) {
	v.c.Log("Rotate(%g,%g,%g)", angle, x, y)
	v.p.Rotate(angle, x/v.k, y/v.k)
	v.push(true)
	g := &v.pg().gs
	g.ctm = v.turn(angle, x, y).Mul(g.ctm)
	g.tol += 0.03
}

func (v *canvas) clip(pts ...float64) {
	v.c.Log("ClipPolygon%g", pts)
	var ps []gopdf.Point
	for i := 0; i < len(pts); i += 2 {
		ps = append(ps, gopdf.Point{X: pts[i] / v.k, Y: pts[i+1] / v.k})
	}
	v.p.ClipPolygon(ps)
	for i := range ps {
		ps[i] = gopdf.Point{} // the caller uses the slice for something else
	}
	v.pushClip(pts...)
}

func (v *canvas) pushClip(pts ...float64) {
	g := &v.pg().gs
	g.clips = append(append([]eclip{}, g.clips...), eclip{v.poly(pts...), g.tol})
}

func (v *canvas) poly(pts ...float64) (segs []pdf.Seg) {
	for i := 0; i+1 < len(pts); i += 2 {
		op := byte('l')
		if i == 0 {
			op = 'm'
		}
		segs = append(segs, pdf.Seg{Op: op, P: []pdf.Pt{v.pt(pts[i], pts[i+1])}})
	}
	return append(segs, pdf.Seg{Op: 'h'})
}

// closeAll undoes everything open on the pages.
func (v *canvas) closeAll() {
	for i, p := range v.pages {
		if len(p.stack) > 0 {
			v.selectPage(i)
		}
		for len(p.stack) > 0 {
			v.back()
		}
	}
}

// subpaths gives the points of the subpaths and whether they are closed.
type subpath struct {
	pts    []pdf.Pt // the start, then one point of a line or three of a curve
	curve  []bool
	closed bool
}

func subpaths(segs []pdf.Seg) (out []subpath) {
	for _, s := range segs {
		switch s.Op {
		case 'm':
			out = append(out, subpath{pts: []pdf.Pt{s.P[0]}})
		case 'l':
			q := &out[len(out)-1]
			q.pts = append(q.pts, s.P[0])
			q.curve = append(q.curve, false)
		case 'c':
			q := &out[len(out)-1]
			q.pts = append(q.pts, s.P...)
			q.curve = append(q.curve, true)
		case 'h':
			out[len(out)-1].closed = true
		}
	}
	return
}

func dist(a, b pdf.Pt) float64 { return math.Hypot(a.X-b.X, a.Y-b.Y) }

func (s subpath) straight() bool {
	for _, c := range s.curve {
		if c {
			return false
		}
	}
	return true
}

// onOutline tells whether all points lie on the outline of a closed polygon.
func onOutline(pts, poly []pdf.Pt, tol float64) bool {
	for _, p := range pts {
		best := math.Inf(1)
		for i := range poly {
			a, b := poly[i], poly[(i+1)%len(poly)]
			dx, dy := b.X-a.X, b.Y-a.Y
			t := 0.0
			if l := dx*dx + dy*dy; l > 0 {
				t = math.Max(0, math.Min(1, ((p.X-a.X)*dx+(p.Y-a.Y)*dy)/l))
			}
			best = math.Min(best, dist(p, pdf.Pt{X: a.X + t*dx, Y: a.Y + t*dy}))
		}
		if best > tol {
			return false
		}
	}
	return true
}

func perimeter(poly []pdf.Pt) (s float64) {
	for i := range poly {
		s += dist(poly[i], poly[(i+1)%len(poly)])
	}
	return
}

func samePts(a, b []pdf.Pt, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !near(a[i].X, b[i].X, tol) || !near(a[i].Y, b[i].Y, tol) {
			return false
		}
	}
	return true
}

// samePath compares figures: a closed polygon may start anywhere and go either
// way round, what is only filled is closed anyway.
func samePath(want, got []pdf.Seg, fillOnly, dashed bool, tol float64) bool {
	w, g := subpaths(want), subpaths(got)
	if len(w) != len(g) {
		return false
	}
	for i := range w {
		a, b := w[i], g[i]
		if fillOnly {
			a.closed, b.closed = true, true
		}
		if a.closed != b.closed {
			return false
		}
		if !a.straight() || !b.straight() {
			if len(a.curve) != len(b.curve) || !samePts(a.pts, b.pts, tol) {
				return false
			}
			for j := range a.curve {
				if a.curve[j] != b.curve[j] {
					return false
				}
			}
			continue
		}
		if !samePolygon(a.pts, b.pts, a.closed, dashed, tol) {
			return false
		}
	}
	return true
}

func samePolygon(a, b []pdf.Pt, closed, dashed bool, tol float64) bool {
	if samePts(a, b, tol) {
		return true
	}
	if closed {
		for _, p := range []*[]pdf.Pt{&a, &b} {
			if n := len(*p); n > 2 && dist((*p)[0], (*p)[n-1]) < 1e-9 {
				*p = (*p)[:n-1]
			}
		}
	}
	if !closed {
		return !dashed && samePts(a, reversed(b), tol)
	}
	for r := 0; r < len(b); r++ {
		q := append(append([]pdf.Pt{}, b[r:]...), b[:r]...)
		if samePts(a, q, tol) || samePts(a, reversed(q), tol) {
			return true
		}
	}
	// the same outline with points on top of each other
	return onOutline(a, b, 2*tol) && onOutline(b, a, 2*tol) && near(perimeter(a), perimeter(b), slack(a, tol)+slack(b, tol)+4*tol)
}

// twiceInside tells whether a figure goes round some area an even number of
// times: only there the two rules of what is inside differ.
func twiceInside(segs []pdf.Seg) bool {
	lo, hi := pdf.Pt{X: math.Inf(1), Y: math.Inf(1)}, pdf.Pt{X: math.Inf(-1), Y: math.Inf(-1)}
	polys := subpaths(segs)
	for _, s := range polys {
		if !s.straight() {
			return false
		}
		for _, p := range s.pts {
			lo.X, lo.Y = math.Min(lo.X, p.X), math.Min(lo.Y, p.Y)
			hi.X, hi.Y = math.Max(hi.X, p.X), math.Max(hi.Y, p.Y)
		}
	}
	n := 0
	for i := 0; i < 31; i++ {
		for j := 0; j < 31; j++ {
			x, y := lo.X+(hi.X-lo.X)*(float64(i)+0.5331)/31, lo.Y+(hi.Y-lo.Y)*(float64(j)+0.4713)/31
			wind := 0
			for _, s := range polys {
				for k, a := range s.pts {
					b := s.pts[(k+1)%len(s.pts)]
					if (a.Y <= y) == (b.Y <= y) || a.X+(b.X-a.X)*(y-a.Y)/(b.Y-a.Y) < x {
						continue
					}
					if a.Y <= y {
						wind++
					} else {
						wind--
					}
				}
			}
			if wind != 0 && wind%2 == 0 {
				n++
			}
		}
	}
	return n > 2
}

// slack bounds how much the length of an outline changes when its points move
// by tol: along an edge it stays the same but at corners.
func slack(p []pdf.Pt, tol float64) (s float64) {
	for i := range p {
		a, b, q := p[i], p[(i+1)%len(p)], p[(i+2)%len(p)]
		u, v := pdf.Pt{X: b.X - a.X, Y: b.Y - a.Y}, pdf.Pt{X: q.X - b.X, Y: q.Y - b.Y}
		l, m := math.Hypot(u.X, u.Y), math.Hypot(v.X, v.Y)
		k := 2.0
		if l > 0 && m > 0 {
			k = math.Min(2, math.Abs(math.Atan2(u.X*v.Y-u.Y*v.X, u.X*v.X+u.Y*v.Y))+4*tol*(1/l+1/m))
		}
		s += 2 * tol * k
	}
	return
}

func reversed(p []pdf.Pt) []pdf.Pt {
	out := make([]pdf.Pt, len(p))
	for i := range p {
		out[len(p)-1-i] = p[i]
	}
	return out
}

func inverse(m pdf.Matrix) pdf.Matrix {
	d := m[0]*m[3] - m[1]*m[2]
	a, b, c, e := m[3]/d, -m[1]/d, -m[2]/d, m[0]/d
	return pdf.Matrix{a, b, c, e, -(m[4]*a + m[5]*c), -(m[4]*b + m[5]*e)}
}

// isOval tells whether a path is the ellipse in the box, once round.
func isOval(segs []pdf.Seg, m pdf.Matrix, box [4]float64, tol float64) string {
	sp := subpaths(segs)
	if len(sp) != 1 {
		return fmt.Sprintf("%d subpaths", len(sp))
	}
	cx, cy := (box[0]+box[2])/2, (box[1]+box[3])/2
	rx, ry := math.Abs(box[2]-box[0])/2, math.Abs(box[3]-box[1])/2
	inv := inverse(m)
	sum := 0.0
	var prev float64
	first := true
	var p0, pn pdf.Pt
	visit := func(p pdf.Pt) string {
		q := inv.Apply(p)
		dx, dy := (q.X-cx)/rx, (q.Y-cy)/ry
		r := math.Hypot(dx, dy)
		if math.Abs(r-1) > 0.0015+tol*(1/rx+1/ry) {
			return fmt.Sprintf("passes through (%.3f,%.3f)", q.X, q.Y)
		}
		a := math.Atan2(dy, dx)
		if first {
			p0, first = p, false
		} else {
			d := a - prev
			for d > math.Pi {
				d -= 2 * math.Pi
			}
			for d < -math.Pi {
				d += 2 * math.Pi
			}
			sum += d
		}
		prev, pn = a, p
		return ""
	}
	s := sp[0]
	at := 0
	if e := visit(s.pts[0]); e != "" {
		return e
	}
	for _, cur := range s.curve {
		if !cur {
			at++
			if e := visit(s.pts[at]); e != "" {
				return e
			}
			continue
		}
		a, b, c, d := s.pts[at], s.pts[at+1], s.pts[at+2], s.pts[at+3]
		for i := 1; i <= 12; i++ {
			t := float64(i) / 12
			u := 1 - t
			p := pdf.Pt{
				X: u*u*u*a.X + 3*u*u*t*b.X + 3*u*t*t*c.X + t*t*t*d.X,
				Y: u*u*u*a.Y + 3*u*u*t*b.Y + 3*u*t*t*c.Y + t*t*t*d.Y,
			}
			if e := visit(p); e != "" {
				return e
			}
		}
		at += 3
	}
	if !near(math.Abs(sum), 2*math.Pi, 0.05) || dist(p0, pn) > 0.03+2*tol {
		return fmt.Sprintf("goes round by %.3f", sum)
	}
	return ""
}

func sameDash(want []float64, wp float64, got []float64, gp float64) bool {
	zero := func(d []float64) bool { return len(d) == 0 }
	if zero(want) || zero(got) {
		return zero(want) && zero(got)
	}
	if len(want) != len(got) || !near(wp, gp, 0.0051) {
		return false
	}
	for i := range want {
		if !near(want[i], got[i], 0.0051) {
			return false
		}
	}
	return true
}

func flatten(pg *pdf.Page) (out []flat) {
	for i := range pg.Marks {
		m := &pg.Marks[i]
		if m.Kind == "text" {
			for _, g := range m.Glyphs {
				out = append(out, flat{"glyph", m, g.Pos})
			}
			continue
		}
		out = append(out, flat{m.Kind, m, pdf.Pt{}})
	}
	return
}

func (v *canvas) checkBlend(w *item, g *pdf.Mark, descr string) {
	v.c.Helper()
	if (w.stroke || w.kind != "path" && w.kind != "image") && !near(g.GS.CA, w.bl.a, 0.00051) {
		v.c.Bad("%s: stroke opacity %g instead of %g", descr, g.GS.CA, w.bl.a)
	}
	if (!w.stroke || w.fill) && !near(g.GS.Ca, w.bl.a, 0.00051) {
		v.c.Bad("%s: fill opacity %g instead of %g", descr, g.GS.Ca, w.bl.a)
	}
	if string(g.GS.BM) != w.bl.bm && !(g.GS.BM == "Compatible" && w.bl.bm == "Normal") {
		v.c.Bad("%s: blend mode %s instead of %s", descr, g.GS.BM, w.bl.bm)
	}
}

// check compares the document with the model.
func (v *canvas) check() (*pdf.Doc, []*pdf.Page) {
	c := v.c
	c.Helper()
	v.closeAll()
	d, pages := finish(c, v.p)
	v.compare(d, pages)
	return d, pages
}

func (v *canvas) compare(d *pdf.Doc, pages []*pdf.Page) {
	c := v.c
	c.Helper()
	if len(pages) != len(v.pages) {
		c.Bad("the document has %d pages, %d were added", len(pages), len(v.pages))
	}
	got := make([][]flat, len(pages))
	for i, pg := range pages {
		got[i] = flatten(pg)
	}
	used := make([]int, len(pages))
	for n, w := range v.want {
		descr := fmt.Sprintf("page %d, drawing %d (%s)", w.page+1, n, w.descr)
		next := func() *flat {
			c.Helper()
			i := used[w.page]
			if i >= len(got[w.page]) {
				c.Bad("%s is not drawn", descr)
			}
			used[w.page]++
			return &got[w.page][i]
		}
		if w.kind == "block" {
			gl, pa := w.glyphs, w.paths
			for gl > 0 || pa > 0 {
				f := next()
				switch {
				case f.kind == "glyph" && gl > 0:
					gl--
				case f.kind == "path" && pa > 0:
					pa--
				default:
					c.Bad("%s: a %s too many, %d glyphs and %d paths missing", descr, f.kind, gl, pa)
				}
				e := *w
				e.kind, e.fill, e.stroke = f.kind, f.m.Fill, f.m.Stroke
				v.checkBlend(&e, f.m, descr)
				if f.m.GS.SMask != nil {
					c.Bad("%s: is drawn through a mask", descr)
				}
			}
			continue
		}
		if w.kind == "rest" {
			for used[w.page] < len(got[w.page]) {
				f := next()
				e := *w
				e.kind, e.fill, e.stroke = f.kind, f.m.Fill, f.m.Stroke
				v.checkBlend(&e, f.m, descr)
			}
			continue
		}
		f := next()
		v.checkItem(d, w, f, descr)
	}
	for i := range pages {
		if used[i] < len(got[i]) {
			g := got[i][used[i]]
			c.Bad("page %d: %d more things are drawn than were asked for, the first is a %s %v", i+1, len(got[i])-used[i], g.kind, g.m.Segs)
		}
	}
}

func (v *canvas) checkItem(d *pdf.Doc, w *item, f *flat, descr string) {
	c := v.c
	c.Helper()
	kind := w.kind
	if kind == "oval" {
		kind = "path"
	}
	if f.kind != kind {
		c.Bad("%s: drawn is a %s %v", descr, f.kind, f.m.Segs)
	}
	g, gs := f.m, w.gs
	tol := gs.tol
	switch w.kind {
	case "path", "oval":
		if g.Fill != w.fill || g.Stroke != w.stroke {
			c.Bad("%s: is drawn with fill %v and stroke %v", descr, g.Fill, g.Stroke)
		}
		if w.kind == "path" {
			if !samePath(w.segs, g.Segs, !w.stroke, len(gs.dash) > 0, tol) {
				c.Bad("%s: the figure drawn is %v instead of %v", descr, g.Segs, w.segs)
			}
			if w.fill && g.EO && twiceInside(w.segs) {
				c.Bad("%s: what the figure %v goes round twice is not filled", descr, g.Segs)
			}
		} else if e := isOval(g.Segs, gs.ctm, w.box, tol); e != "" {
			c.Bad("%s: the oval in (%.2f) %s: %v", descr, w.box, e, g.Segs)
		}
		if w.stroke {
			scale := math.Sqrt(math.Abs(g.GS.CTM[0]*g.GS.CTM[3] - g.GS.CTM[1]*g.GS.CTM[2]))
			if !near(g.GS.LW*scale, gs.lw, 0.0051+1e-4*gs.lw) {
				c.Bad("%s: line width %g instead of %g", descr, g.GS.LW*scale, gs.lw)
			}
			if !sameDash(gs.dash, gs.phase, g.GS.Dash, g.GS.Phase) {
				c.Bad("%s: dash pattern %g %g instead of %g %g", descr, g.GS.Dash, g.GS.Phase, gs.dash, gs.phase)
			}
			if gs.named != "" {
				v.checkNamed(d, g.GS.Stroke, gs.named, w, descr)
			} else if !w.noColor && !gs.stroke.is(g.GS.Stroke) {
				c.Bad("%s: stroke colour %v instead of %v", descr, g.GS.Stroke, gs.stroke)
			}
			if g.GS.Cap != 0 || g.GS.Join != 0 {
				c.Bad("%s: line cap %d, join %d", descr, g.GS.Cap, g.GS.Join)
			}
		}
		if w.fill && !w.noColor && !gs.fill.is(g.GS.Fill) {
			c.Bad("%s: fill colour %v instead of %v", descr, g.GS.Fill, gs.fill)
		}
	case "glyph":
		if w.segs == nil {
			break
		}
		p := w.segs[0].P[0]
		if !near(p.X, f.pos.X, tol) || !near(p.Y, f.pos.Y, tol) {
			c.Bad("%s: is at %.3f instead of %.3f", descr, f.pos, p)
		}
	case "image":
		m := g.GS.CTM
		q := [3]pdf.Pt{m.Apply(pdf.Pt{}), m.Apply(pdf.Pt{X: 1}), m.Apply(pdf.Pt{Y: 1})}
		for i := range q {
			if !near(q[i].X, w.quad[i].X, tol) || !near(q[i].Y, w.quad[i].Y, tol) {
				c.Bad("%s: its corners (lower left, lower right, upper left) are at %.3f instead of %.3f", descr, q, w.quad)
			}
		}
		if w.im != nil {
			w.im.check(c, d, g.XObj, descr, w.masked)
		}
	}
	if w.form != nil {
		w.form(c, d, w, g, descr)
	}
	v.checkClips(gs.clips, g.GS.Clips, descr)
	v.checkBlend(w, g, descr)
	if w.mask != nil {
		w.mask(c, d, w, g, descr)
	} else if g.GS.SMask != nil {
		c.Bad("%s: is drawn through a mask", descr)
	}
}

func (v *canvas) checkClips(want []eclip, got []pdf.Clip, descr string) {
	v.c.Helper()
	if len(want) != len(got) {
		v.c.Bad("%s: %d clips apply instead of %d", descr, len(got), len(want))
	}
	for i := range want {
		if got[i].EO && twiceInside(want[i].segs) {
			v.c.Bad("%s: what the clip %v goes round twice is not shown", descr, got[i].Segs)
		}
		if !samePath(want[i].segs, got[i].Segs, true, false, want[i].tol) {
			v.c.Bad("%s: clip %d is %v instead of %v", descr, i, got[i].Segs, want[i].segs)
		}
	}
}

// checkNamed checks a named colour: a separation at full tint that is shown in
// the colour it was defined with.
func (v *canvas) checkNamed(d *pdf.Doc, got pdf.Color, name string, w *item, descr string) {
	c := v.c
	c.Helper()
	pages, _ := d.Pages()
	cs := d.Dict(pages[w.page].Res.Get("ColorSpace"))
	var a pdf.Arr
	if cs != nil {
		a, _ = d.Arr(cs.Get(pdf.Name(got.Space)))
	}
	if len(a) != 4 || d.NameOf(a[0]) != "Separation" {
		c.Bad("%s: stroke colour %v (%v) instead of the named colour %q", descr, got, a, name)
	}
	if string(d.NameOf(a[1])) != name {
		c.Bad("%s: the named colour is %q instead of %q", descr, d.NameOf(a[1]), name)
	}
	if len(got.C) != 1 || got.C[0] != 1 {
		c.Bad("%s: the named colour has the tint %v", descr, got.C)
	}
	fn := d.Dict(a[3])
	if fn == nil {
		c.Bad("%s: the named colour has no tint function", descr)
	}
	c1, _ := d.Nums(fn.Get("C1"))
	if !v.named[name].is(pdf.Color{Space: string(d.NameOf(a[2])), C: c1}) {
		c.Bad("%s: the named colour %q is shown as %v %v instead of %v", descr, name, d.NameOf(a[2]), c1, v.named[name])
	}
}

// placing is how an image is placed: points, from the upper left corner.
type placing struct {
	x, y, w, h   float64
	crop         *[4]float64
	hflip, vflip bool
	angle        float64
}

// quadOf gives the corners of an image on the page, in local coordinates of the
// page, and what of it is to be seen when it is cropped.
func (v *canvas) place(p placing, ctm pdf.Matrix) (quad [3]pdf.Pt, window []pdf.Seg) {
	h := v.pg().h
	vw, vh := p.w, p.h
	x, y := p.x, p.y
	if p.crop != nil {
		vw, vh = p.crop[2], p.crop[3]
		x -= p.crop[0]
		y -= p.crop[1]
	}
	m := v.turn(p.angle, p.x+vw/2, p.y+vh/2).Mul(ctm)
	l, r, t, b := x, x+p.w, h-y, h-y-p.h
	wl, wr, wt, wb := p.x, p.x+vw, h-p.y, h-p.y-vh
	if p.hflip {
		l, r = r, l
	}
	if p.vflip {
		t, b = b, t
	}
	quad = [3]pdf.Pt{m.Apply(pdf.Pt{X: l, Y: b}), m.Apply(pdf.Pt{X: r, Y: b}), m.Apply(pdf.Pt{X: l, Y: t})}
	if p.crop != nil {
		for i, q := range []pdf.Pt{{X: wl, Y: wb}, {X: wr, Y: wb}, {X: wr, Y: wt}, {X: wl, Y: wt}} {
			op := byte('l')
			if i == 0 {
				op = 'm'
			}
			window = append(window, pdf.Seg{Op: op, P: []pdf.Pt{m.Apply(q)}})
		}
		window = append(window, pdf.Seg{Op: 'h'})
	}
	return
}

// image expects an image.
func (v *canvas) image(im *picture, p placing, descr string) *item {
	it := v.expect(&item{kind: "image", im: im, descr: descr})
	var win []pdf.Seg
	it.quad, win = v.place(p, it.gs.ctm)
	if p.angle != 0 {
		it.gs.tol += 0.03
	}
	if win != nil {
		it.gs.clips = append(append([]eclip{}, it.gs.clips...), eclip{win, it.gs.tol})
	}
	return it
}
