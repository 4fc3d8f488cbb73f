package checks

import (
	"errors"
	"fmt"
	"math"
	"testing"

	"github.com/signintech/gopdf"

	"verif/pdf"
)

var fillStyles = []struct {
	s            string
	fill, stroke bool
}{{"D", false, true}, {"", false, true}, {"F", true, false}, {"DF", true, true}, {"FD", true, true}}

// coord draws a coordinate in points; off the quarter grid now and then.
func (v *canvas) coord(lo, hi float64, l string) float64 {
	if v.c.Chance(15, l+"fine") {
		return v.c.F(lo, hi, l) + float64(v.c.U(1000, l+"frac"))/4000
	}
	return v.c.F(lo, hi, l)
}

func (v *canvas) points(n int, l string) (pts []float64) {
	for i := 0; i < n; i++ {
		pts = append(pts, v.coord(0, 500, l), v.coord(0, 700, l))
	}
	return
}

func (v *canvas) gopts(pts []float64) (out []gopdf.Point) {
	for i := 0; i < len(pts); i += 2 {
		out = append(out, gopdf.Point{X: pts[i] / v.k, Y: pts[i+1] / v.k})
	}
	return
}

// shape draws one random figure; it gives its kind.
func (v *canvas) shape() string {
	c, p, k := v.c, v.p, v.k
	st := pick(c, "style", fillStyles)
	kind := pick(c, "shape", []string{"line", "rect", "rect", "rectangle", "oval", "curve", "polygon", "polygon", "invalid", "round", "round"})
	switch kind {
	case "line":
		a := v.points(2, "p")
		p.Line(a[0]/k, a[1]/k, a[2]/k, a[3]/k)
		v.figure(fmt.Sprintf("Line%g", a), false, true, false, a...)
	case "rect":
		x, y, w, h := v.coord(0, 500, "x"), v.coord(0, 700, "y"), v.coord(0.25, 300, "w"), v.coord(0.25, 300, "h")
		if c.Chance(5, "neg") {
			w = -w
		}
		lower := c.Bool("lower")
		var descr string
		switch c.U(3, "entry") {
		case 0:
			st = fillStyles[0]
			if lower {
				p.RectFromLowerLeft(x/k, y/k, w/k, h/k)
			} else {
				p.RectFromUpperLeft(x/k, y/k, w/k, h/k)
			}
			descr = "Rect"
		case 1:
			if lower {
				p.RectFromLowerLeftWithStyle(x/k, y/k, w/k, h/k, st.s)
			} else {
				p.RectFromUpperLeftWithStyle(x/k, y/k, w/k, h/k, st.s)
			}
			descr = "RectWithStyle"
		default:
			o := gopdf.DrawableRectOptions{X: x / k, Y: y / k, Rect: gopdf.Rect{W: w / k, H: h / k}}
			o.PaintStyle = pick(c, "paint", []gopdf.PaintStyle{"", gopdf.DrawPaintStyle, gopdf.FillPaintStyle, gopdf.DrawFillPaintStyle})
			st.fill = o.PaintStyle == gopdf.FillPaintStyle || o.PaintStyle == gopdf.DrawFillPaintStyle
			st.stroke = o.PaintStyle != gopdf.FillPaintStyle
			st.s = string(o.PaintStyle)
			before := o
			var err error
			if lower {
				err = p.RectFromLowerLeftWithOpts(o)
			} else {
				err = p.RectFromUpperLeftWithOpts(o)
			}
			if err != nil || o.X != before.X || o.Rect != before.Rect {
				c.Bad("RectWithOpts: %v", err)
			}
			descr = "RectWithOpts"
		}
		descr = fmt.Sprintf("%s(lower left %v, %g,%g,%g,%g,%q)", descr, lower, x, y, w, h, st.s)
		if lower {
			y -= h
		}
		v.figure(descr, st.fill, st.stroke, true, x, y, x+w, y, x+w, y+h, x, y+h)
	case "oval":
		a := v.points(2, "p")
		for i := range a[:2] {
			if math.Abs(a[i]-a[i+2]) < 2 {
				a[i+2] = a[i] + 2
			}
		}
		p.Oval(a[0]/k, a[1]/k, a[2]/k, a[3]/k)
		h := v.pg().h
		v.expect(&item{kind: "oval", box: [4]float64{a[0], h - a[1], a[2], h - a[3]}, stroke: true, descr: fmt.Sprintf("Oval%g", a)})
	case "curve":
		a := v.points(4, "p")
		p.Curve(a[0]/k, a[1]/k, a[2]/k, a[3]/k, a[4]/k, a[5]/k, a[6]/k, a[7]/k, st.s)
		it := v.expect(&item{kind: "path", fill: st.fill, stroke: st.stroke, descr: fmt.Sprintf("Curve(%g,%q)", a, st.s)})
		it.segs = []pdf.Seg{{Op: 'm', P: []pdf.Pt{v.pt(a[0], a[1])}}, {Op: 'c', P: []pdf.Pt{v.pt(a[2], a[3]), v.pt(a[4], a[5]), v.pt(a[6], a[7])}}}
	case "polygon":
		a := v.points(1+c.U(8, "n"), "p")
		ps := v.gopts(a)
		before := append([]gopdf.Point{}, ps...)
		p.Polygon(ps, st.s)
		for i := range ps {
			if ps[i] != before[i] {
				c.Bad("Polygon changed the caller's point %d", i)
			}
			ps[i] = gopdf.Point{} // the caller uses the slice for something else
		}
		v.figure(fmt.Sprintf("Polygon(%g,%q)", a, st.s), st.fill, st.stroke, true, a...)
	case "rectangle", "invalid", "round":
		x0, y0 := v.coord(0, 400, "x"), v.coord(0, 600, "y")
		w, h := v.coord(1, 300, "w"), v.coord(1, 300, "h")
		r, n := 0.0, 0
		if kind == "round" {
			r = pick(c, "rel", []float64{0.1, 0.3, 0.5, 0.9}) * math.Min(w, h)
			n = pick(c, "num", []int{1, 2, 3, 5, 6, 10, 12, 18, 30, 60, 100, 220})
		} else if c.Bool("half") {
			// only one of the two is given: no round corners
			r, n = float64(c.U(2, "r"))*3, 0
			if r == 0 {
				n = c.U(5, "n")
			}
		}
		x1, y1 := x0+w, y0+h
		if kind == "invalid" {
			switch c.U(4, "bad") {
			case 0:
				x1 = x0 - w*float64(c.U(2, "eq"))
			case 1:
				y1 = y0 - h*float64(c.U(2, "eq"))
			case 2:
				r, n = w+0.5, 1+c.U(3, "n")
			default:
				r, n = h+0.5, 1+c.U(3, "n")
			}
		}
		err := p.Rectangle(x0/k, y0/k, x1/k, y1/k, st.s, r/k, n)
		descr := fmt.Sprintf("Rectangle(%g,%g,%g,%g,%q,radius %g,%d)", x0, y0, x1, y1, st.s, r, n)
		if kind == "invalid" {
			c.Log("%s", descr)
			if !errors.Is(err, gopdf.ErrInvalidRectangleCoordinates) {
				c.Bad("%s: %v instead of ErrInvalidRectangleCoordinates", descr, err)
			}
			break
		}
		if err != nil {
			c.Bad("%s: %v", descr, err)
		}
		var a []float64
		corner := func(cx, cy, from float64) {
			for i := 0; i <= n+1; i++ {
				sn, cs := math.Sincos((from + 90*float64(i)/float64(n+1)) * math.Pi / 180)
				a = append(a, cx+r*cs, cy+r*sn)
			}
		}
		if n > 0 && r > 0 {
			corner(x0+r, y0+r, 180)
			corner(x1-r, y0+r, 270)
			corner(x1-r, y1-r, 0)
			corner(x0+r, y1-r, 90)
		} else {
			a = []float64{x0, y0, x1, y0, x1, y1, x0, y1}
		}
		v.figure(descr, st.fill, st.stroke, true, a...)
	}
	return kind
}

// attribute changes an attribute of the drawing.
func (v *canvas) attribute() {
	c, p, k := v.c, v.p, v.k
	g := &v.pg().gs
	switch c.U(9, "attr") {
	case 0:
		w := v.coord(0, 20, "lw")
		c.Log("SetLineWidth(%g)", w)
		p.SetLineWidth(w / k)
		g.lw = w
	case 1:
		t := c.Pick("lt", "dashed", "dotted", "solid", "", "other")
		c.Log("SetLineType(%q)", t)
		p.SetLineType(t)
		g.dash, g.phase = nil, 0
		switch t {
		case "dashed":
			g.dash, g.phase = []float64{5}, 2
		case "dotted":
			g.dash, g.phase = []float64{2, 3}, 11
		}
	case 2:
		var d []float64
		in := []float64{}
		dn := c.U(4, "dn")
		if c.Chance(10, "long dash") {
			dn = 4 + c.U(60, "dn")
		}
		for i := dn; i >= 0; i-- {
			d = append(d, v.coord(0.25, 30, "d"))
			in = append(in, d[len(d)-1]/k)
		}
		ph := v.coord(0, 20, "ph")
		c.Log("SetCustomLineType(%g,%g)", d, ph)
		given := append([]float64{}, in...)
		p.SetCustomLineType(in, ph/k)
		for i := range in {
			if in[i] != given[i] {
				c.Bad("SetCustomLineType changed the caller's dash array to %g", in)
			}
			in[i] = 7
		}
		g.dash, g.phase = d, ph
	case 3, 4:
		m, text, fill, stroke := genColor(c, "col")
		switch c.U(5, "colof") {
		case 0, 1:
			c.Log("fill %v", m)
			fill(p)
			g.fill = m
		case 2, 3:
			c.Log("stroke %v", m)
			stroke(p)
			g.stroke, g.named = m, ""
		default:
			c.Log("text %v", m)
			text(p)
		}
	case 5:
		s := float64(c.U(101, "gray")) / 100
		if c.Bool("gfill") {
			c.Log("SetGrayFill(%g)", s)
			p.SetGrayFill(s)
			g.fill = grayCol(s)
		} else {
			c.Log("SetGrayStroke(%g)", s)
			p.SetGrayStroke(s)
			g.stroke, g.named = grayCol(s), ""
		}
	case 6:
		n := c.Pick("cname", colourNames...)
		if c.Chance(2, "bulk") {
			// many more of them
			for i, m := 0, 5+c.U(300, "nbulk"); i < m; i++ {
				n := fmt.Sprintf("bulk %d", i)
				if _, ok := v.named[n]; ok {
					continue
				}
				r, gr := uint8(i), uint8(i>>8)
				v.named[n] = rgbCol(r, gr, 7)
				if err := p.AddColorSpaceRGB(n, r, gr, 7); err != nil {
					c.Bad("AddColorSpaceRGB(%q): %v", n, err)
				}
			}
			c.Log("AddColorSpaceRGB, many")
		}
		if _, ok := v.named[n]; ok {
			c.Log("AddColorSpaceRGB(%q) again", n)
			if p.AddColorSpaceRGB(n, 1, 2, 3) == nil {
				c.Bad("a named colour is defined a second time")
			}
			break
		}
		b := func(n int) uint8 { return uint8(c.U(n, "cv")) }
		var err error
		if c.Bool("crgb") {
			r, gr, bl := b(256), b(256), b(256)
			v.named[n] = rgbCol(r, gr, bl)
			err = p.AddColorSpaceRGB(n, r, gr, bl)
		} else {
			x, y, z, q := b(101), b(101), b(101), b(101)
			v.named[n] = cmykCol(x, y, z, q)
			err = p.AddColorSpaceCMYK(n, x, y, z, q)
		}
		c.Log("AddColorSpace(%q) %v", n, v.named[n])
		if err != nil {
			c.Bad("AddColorSpace(%q): %v", n, err)
		}
	default:
		n := c.Pick("cname", append(colourNames, "unknown")...)
		if _, ok := v.named["bulk 0"]; ok && c.Chance(70, "ofbulk") {
			n = fmt.Sprintf("bulk %d", c.U(305, "whichbulk"))
		}
		err := p.SetColorSpace(n)
		c.Log("SetColorSpace(%q)", n)
		if _, ok := v.named[n]; !ok {
			if !errors.Is(err, gopdf.ErrMissingColorSpace) {
				c.Bad("SetColorSpace(%q), which is not defined: %v", n, err)
			}
			break
		}
		if err != nil {
			c.Bad("SetColorSpace(%q): %v", n, err)
		}
		g.named = n
	}
}

var colourNames = []string{"Spot", "Spot2", "spot", "Spo", "Dark Red", "Dark Rex", "b/(c)", "ü", "PANTONE 300 C", "PANTONE 301 C", "x"}

func (v *canvas) angle() float64 {
	if v.c.Chance(35, "anyangle") {
		return v.c.F(-900, 900, "degrees") + float64(v.c.U(100, "fraction"))/100
	}
	return pick(v.c, "angle", []float64{0, 30, 45, 90, 180, 270, 360, -90, -17.5, 123.456, 720, 1})
}

// nesting opens or ends a rotation, a clip or a saved state.
func (v *canvas) nesting() {
	c := v.c
	if len(v.pg().stack) > 0 && c.Chance(55, "back") || len(v.pg().stack) >= 6 {
		v.back()
		return
	}
	switch c.U(3, "nest") {
	case 0:
		v.save()
	case 1:
		v.rotate(v.angle(), v.coord(0, 500, "cx"), v.coord(0, 700, "cy"))
	default:
		v.save()
		v.clip(v.points(3+c.U(4, "cn"), "clip")...)
	}
}

// glyph draws a letter at the current position.
func (v *canvas) glyph() {
	x, y := v.coord(0, 500, "x"), v.coord(0, 700, "y")
	v.p.SetXY(x/v.k, y/v.k)
	t := v.c.Pick("letter", "a", "Q", "z", "%")
	if err := v.p.Text(t); err != nil {
		v.c.Bad("Text: %v", err)
	}
	v.expect(&item{kind: "glyph", descr: fmt.Sprintf("Text %q at (%g,%g)", t, x, y)}).segs = []pdf.Seg{{Op: 'm', P: []pdf.Pt{v.pt(x, y)}}}
}

// TestC14_Shapes draws shapes with changing attributes, rotations, clips and
// saved states on several pages.
func TestC14_Shapes(t *testing.T) {
	Run(t, Opt{Quick: 60000, Thorough: 4000000, Rule: "at least 4 shapes of 3 kinds, an attribute changed and a rotation, clip or saved state"}, func(c *Case) {
		u := genUnit(c, "unit")
		c.Log("unit %v", u)
		v := newCanvas(c, u)
		v.addPage(0, 0)
		texts := c.Chance(40, "texts")
		if texts {
			if err := v.p.AddTTFFontData("f", stdFonts()[0].data); err != nil {
				c.Bad("font: %v", err)
			}
			if err := v.p.SetFont("f", "", 12); err != nil {
				c.Bad("font: %v", err)
			}
		}
		kinds := map[string]bool{}
		shapes, attrs, nests := 0, 0, 0
		for n := c.count(4, 30, 100, "n"); n > 0; n-- {
			switch o := c.U(20, "op"); {
			case o < 10:
				kinds[v.shape()] = true
				shapes++
			case o < 15:
				v.attribute()
				attrs++
			case o < 18:
				v.nesting()
				nests++
			case o == 18 && texts:
				v.glyph()
			default:
				if len(v.pages) < 4 && c.Bool("add") {
					v.addPage(pick(c, "w", []float64{0, 300, 800}), 600)
				} else {
					v.selectPage(c.U(len(v.pages), "sel"))
				}
			}
		}
		v.check()
		for k := range kinds {
			c.Class(k)
		}
		if len(v.pages) > 1 {
			c.Class("several pages")
		}
		if shapes >= 4 && len(kinds) >= 3 && attrs > 0 && nests > 0 {
			c.Nontrivial()
		}
	})
}
