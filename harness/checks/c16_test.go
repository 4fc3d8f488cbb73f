package checks

import (
	"fmt"
	"math"
	"testing"

	"github.com/signintech/gopdf"

	"verif/pdf"
)

func genUnit(c *Case, l string) unitCfg {
	if c.Chance(30, l+"custom") {
		return unitCfg{c.U(6, l+"u"), pick(c, l+"conv", []float64{0.24, 7.5, 2, 0.01, 72.0 / 300, 100, 1.0 / 3})}
	}
	return pick(c, l, units)
}

// TestC16_SameProgram executes one program in two units.
func TestC16_SameProgram(t *testing.T) {
	Run(t, Opt{Quick: 14000, Thorough: 1400000, Rule: "at least 5 operations, and two units of different length"}, func(c *Case) {
		pr := genProg(c, progOpt{ops: 35, units: false, unitSafe: true})
		u := genUnit(c, "unit")
		if c.Chance(30, "std") {
			pr.cfg.std = pick(c, "stdsize", []*gopdf.Rect{gopdf.PageSizeA4, gopdf.PageSizeLetter, gopdf.PageSizeA3Landscape, gopdf.PageSizeB5, gopdf.PageSizeLegal, gopdf.PageSize10x14})
		}
		pr.log(c)
		c.Log("other unit %v", u)
		e1 := pr.build(c, nil)
		b1 := output(c, e1.p)
		pr.cfg.unit = u
		e2 := pr.build(c, nil)
		b2 := output(c, e2.p)
		d1, d2 := decrypted(c, b1, nil), decrypted(c, b2, nil)
		if len(e1.ret) != len(e2.ret) {
			c.Bad("calls returned differently: %q against %q", e1.ret, e2.ret)
		}
		for i := range e1.ret {
			if e1.ret[i] != e2.ret[i] {
				c.Bad("result %d of the calls: %q in points, %q in %v", i, e1.ret[i], e2.ret[i], u)
			}
		}
		for i := range e1.lens {
			if !near(e1.lens[i], e2.lens[i], 0.002+1e-9*math.Abs(e1.lens[i])) {
				c.Bad("length %d returned by the calls: %.5f in points, %.5f (converted) in %v", i, e1.lens[i], e2.lens[i], u)
			}
		}
		cmp := newCmp(d1, d2, 0.0115)
		for _, k := range []pdf.Name{"Root", "Info"} {
			if d := cmp.Diff("/"+string(k), d1.Trailer.Get(k), d2.Trailer.Get(k)); d != "" {
				dump(b2)
				c.Bad("the document in %v differs from that in points: %s", u, d)
			}
		}
		if len(pr.ops) >= 5 && u.k() != 1 {
			c.Nontrivial()
		}
	})
}

// stdSizes are the predefined sizes with their physical size in points
// (ISO 216 and US sizes, rounded to a point).
var stdSizes = []struct {
	name string
	r    *gopdf.Rect
	w, h float64
}{
	{"A3", gopdf.PageSizeA3, 842, 1190}, {"A3L", gopdf.PageSizeA3Landscape, 1190, 842},
	{"A4", gopdf.PageSizeA4, 595, 842}, {"A4L", gopdf.PageSizeA4Landscape, 842, 595},
	{"A4S", gopdf.PageSizeA4Small, 595, 842}, {"A5", gopdf.PageSizeA5, 420, 595}, {"B4", gopdf.PageSizeB4, 729, 1032}, {"B5", gopdf.PageSizeB5, 516, 729}, {"Letter", gopdf.PageSizeLetter, 612, 792}, {"LetterS", gopdf.PageSizeLetterSmall, 612, 792}, {"Tabloid", gopdf.PageSizeTabloid, 792, 1224}, {"Ledger", gopdf.PageSizeLedger, 1224, 792}, {"Legal", gopdf.PageSizeLegal, 612, 1008}, {"Statement", gopdf.PageSizeStatement, 396, 612}, {"Executive", gopdf.PageSizeExecutive, 540, 720}, {"Folio", gopdf.PageSizeFolio, 612, 936}, {"Quarto", gopdf.PageSizeQuarto, 610, 780}, {"10x14", gopdf.PageSize10x14, 720, 1008}, {"A0", gopdf.PageSizeA0, 2384, 3371}, {"A1", gopdf.PageSizeA1, 1685, 2384}, {"A2", gopdf.PageSizeA2, 1190, 1684}}

// TestC16_Lengths checks that every length set is the length read back and
// the length drawn, in every unit, and that predefined sizes stay as they are.
func TestC16_Lengths(t *testing.T) {
	Run(t, Opt{Quick: 8000, Thorough: 400000, Rule: "the unit is not the point"}, func(c *Case) {
		u := genUnit(c, "unit")
		k := u.k()
		neg := c.Chance(30, "negative")
		v := func(l string) float64 { // in units
			if neg && c.Bool(l+"neg") {
				return -c.F(1, 90, l) / k
			}
			return c.F(1, 90, l) / k
		}
		st := pick(c, "size", stdSizes)
		st2 := pick(c, "size2", stdSizes)
		c.Log("unit %v, config size %s, page size %s", u, st.name, st2.name)
		before, before2 := *st.r, *st2.r
		p := &gopdf.GoPdf{}
		p.Start(gopdf.Config{Unit: u.Unit, ConversionForUnit: u.Conv, PageSize: *st.r})
		p.AddPage()
		p.AddPageWithOption(gopdf.PageOption{PageSize: st2.r})
		eq := func(what string, got, want float64) {
			if !near(got, want, 1e-9*(1+math.Abs(want))) {
				c.Bad("%s: %g set, %g read back (unit %v)", what, want, got, u)
			}
		}
		x, y := v("x"), v("y")
		c.Log("values %g %g", x, y)
		p.SetX(x)
		p.SetY(y)
		eq("X", p.GetX(), x)
		eq("Y", p.GetY(), y)
		p.SetXY(y, x)
		eq("X", p.GetX(), y)
		eq("Y", p.GetY(), x)
		ml, mt, mr, mb := v("ml"), v("mt"), v("mr"), v("mb")
		p.SetMargins(ml, mt, mr, mb)
		a1, a2, a3, a4 := p.Margins()
		eq("left margin", a1, ml)
		eq("top margin", a2, mt)
		eq("right margin", a3, mr)
		eq("bottom margin", a4, mb)
		p.SetMarginLeft(mt)
		p.SetMarginTop(mr)
		p.SetMarginRight(mb)
		p.SetMarginBottom(ml)
		eq("left margin", p.MarginLeft(), mt)
		eq("top margin", p.MarginTop(), mr)
		eq("right margin", p.MarginRight(), mb)
		eq("bottom margin", p.MarginBottom(), ml)
		p.SetLeftMargin(mb)
		p.SetTopMargin(ml)
		eq("left margin", p.MarginLeft(), mb)
		eq("top margin", p.MarginTop(), ml)
		eq("UnitsToPoints", p.UnitsToPoints(x), x*k)
		eq("PointsToUnits", p.PointsToUnits(x), x/k)
		q, r := x, y
		p.UnitsToPointsVar(&q, &r)
		eq("UnitsToPointsVar", q, x*k)
		eq("UnitsToPointsVar", r, y*k)
		p.PointsToUnitsVar(&q, &r)
		eq("PointsToUnitsVar", q, x)
		eq("PointsToUnitsVar", r, y)
		if u.Conv == 0 && u.Unit != gopdf.UnitUnset {
			eq("package UnitsToPoints", gopdf.UnitsToPoints(u.Unit, x), x*k)
			eq("package PointsToUnits", gopdf.PointsToUnits(u.Unit, x), x/k)
			q, r := x, y
			gopdf.UnitsToPointsVar(u.Unit, &q, &r)
			eq("package UnitsToPointsVar", q, x*k)
			eq("package UnitsToPointsVar", r, y*k)
			gopdf.PointsToUnitsVar(u.Unit, &q, &r)
			eq("package PointsToUnitsVar", q, x)
			eq("package PointsToUnitsVar", r, y)
			rect := &gopdf.Rect{W: x, H: y}
			inPt := rect.UnitsToPoints(u.Unit)
			eq("Rect.UnitsToPoints", inPt.W, x*k)
			eq("Rect.UnitsToPoints", inPt.H, y*k)
			back := inPt.PointsToUnits(u.Unit)
			eq("Rect.PointsToUnits", back.W, x)
			eq("Rect.PointsToUnits", back.H, y)
			if *rect != (gopdf.Rect{W: x, H: y}) {
				c.Bad("the conversion of a rectangle changed it to %v", *rect)
			}
			box := &gopdf.Box{Left: x, Top: y, Right: ml, Bottom: mt}
			b := box.UnitsToPoints(u.Unit)
			eq("Box.UnitsToPoints", b.Left, x*k)
			eq("Box.UnitsToPoints", b.Top, y*k)
			eq("Box.UnitsToPoints", b.Right, ml*k)
			eq("Box.UnitsToPoints", b.Bottom, mt*k)
			if *box != (gopdf.Box{Left: x, Top: y, Right: ml, Bottom: mt}) {
				c.Bad("the conversion of a box changed it to %v", *box)
			}
			std := st.r.UnitsToPoints(u.Unit) // predefined sizes are in points
			eq("UnitsToPoints of "+st.name, std.W, st.w)
			eq("UnitsToPoints of "+st.name, std.H, st.h)
		}
		p.Line(x, y, y, x)
		_, pages := finish(c, p)
		for i, s := range []struct{ w, h float64 }{{st.w, st.h}, {st2.w, st2.h}} {
			if m := pages[i].Media; !near(m[2], s.w, 0.6) || !near(m[3], s.h, 0.6) {
				c.Bad("page %d of the predefined size %s/%s is %v in unit %v", i, st.name, st2.name, m, u)
			}
		}
		m := pages[1].Marks[0]
		want := fmt.Sprintf("%.2f %.2f %.2f %.2f", x*k, st2.h-y*k, y*k, st2.h-x*k)
		if s := m.Segs; len(s) != 2 || !near(s[0].P[0].X, x*k, 0.011) || !near(top(pages[1], s[0].P[0].Y), y*k, 0.011) || !near(s[1].P[0].X, y*k, 0.011) || !near(top(pages[1], s[1].P[0].Y), x*k, 0.011) {
			c.Bad("line drawn at %v, want %s", s, want)
		}
		if *st.r != before || *st2.r != before2 {
			c.Bad("a predefined page size was modified")
		}
		if k != 1 {
			c.Nontrivial()
		}
	})
}
