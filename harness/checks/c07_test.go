package checks

import (
	"math"
	"testing"

	"github.com/signintech/gopdf"

	"verif/ttf"
)

// genMFont draws a font of the pool or a generated one, and an alphabet.
func genMFont(c *Case, family string) (*mfont, func(n int, l string) string) {
	if c.Chance(30, "own") {
		spec, rs := genTTF(c)
		data := spec.Build()
		tf, err := ttf.Parse(data)
		if err != nil {
			c.Harness("generated font: %v", err)
		}
		f := &mfont{tf: &testFont{name: "gen", data: data, f: tf}, family: family, kern: c.Chance(70, "kern"), first: map[int]rune{}}
		if f.lookup(' ') == 0 {
			f.subst = func(rune) rune { return rs[0] }
		}
		c.Log("generated font, upm %d, kern %v", tf.UPM, f.kern)
		return f, func(n int, l string) string {
			out := make([]rune, c.U(n+1, l+"#"))
			for i := range out {
				out[i] = rs[c.U(len(rs), l)]
				if c.Chance(3, l+"m") {
					out[i] = '中'
				}
			}
			return string(out)
		}
	}
	f := genFont(c, "font", family, 0)
	f.kern = !f.plain && c.Chance(60, "kern")
	return f, func(n int, l string) string { return c.anyText(f, n, l) }
}

// loadAmong loads the font, sometimes with another one of a similar name.
func (f *mfont) loadAmong(c *Case, p *gopdf.GoPdf) {
	if !c.Chance(25, "decoy") {
		f.load(c, p)
		return
	}
	name := c.Pick("decoyname", "m", "Mi", "M ", " M")
	c.Log("another font %q", name)
	decoy := func() {
		if err := p.AddTTFFontDataWithOption(name, stdFonts()[c.U(4, "decoyfont")].data, gopdf.TtfOption{UseKerning: true}); err != nil {
			c.Bad("font %q: %v", name, err)
		}
		if c.Bool("decoykern") {
			if err := p.KernOverride(name, func(l, r rune, li, ri uint, v int16) int16 { return 333 }); err != nil {
				c.Bad("KernOverride(%q): %v", name, err)
			}
		}
	}
	if c.Bool("decoyfirst") {
		decoy()
		f.load(c, p)
	} else {
		f.load(c, p)
		decoy()
	}
}

// TestC07_Measure measures strings and draws them.
func TestC07_Measure(t *testing.T) {
	Run(t, Opt{Quick: 24000, Thorough: 2400000, Rule: "a string of at least 3 characters with kerning or character spacing"}, func(c *Case) {
		u := genUnit(c, "unit")
		k := u.k()
		p := new(gopdf.GoPdf)
		p.Start(gopdf.Config{Unit: u.Unit, ConversionForUnit: u.Conv, PageSize: gopdf.Rect{W: 5000 / k, H: 5000 / k}})
		p.AddPage()
		f, text := genMFont(c, "M")
		f.loadAmong(c, p)
		ok := func(err error, what string) {
			c.Helper()
			if err != nil {
				c.Bad("%s: %v", what, err)
			}
		}
		size := float64(1+c.U(400, "size")) / 8
		ok(p.SetFont("M", "", size), "SetFont")
		c.Log("unit %v size %g", u, size)
		tc := 0.0
		if c.Chance(50, "spacing") {
			tc = pick(c, "tc", []float64{1, 0.5, 3.25, -0.75, 10, 0.125, -2, 25})
			ok(p.SetCharSpacing(tc/k), "SetCharSpacing")
		}
		if f.kern && c.Chance(25, "override") {
			f.genOverride(c, p)
		}
		over := false
		var eg []float64 // expected widths, converted
		var starts []float64
		var ns []int
		x, y := c.F(0, 900, "x"), c.F(20, 700, "y")
		p.SetXY(x/k, y/k)
		c.Log("at %g,%g spacing %g", x, y, tc)
		rel := func(v float64) float64 { return 1e-9 * (1 + math.Abs(v)) }
		n := 1 + c.U(4, "n")
		cur := x
		for i := 0; i < n; i++ {
			s := text(14, "s")
			c.Log("%q", s)
			gs := f.shape(s)
			w, err := p.MeasureTextWidth(s)
			ok(err, "MeasureTextWidth")
			h, err := p.MeasureCellHeightByText(s)
			ok(err, "MeasureCellHeightByText")
			w2, _ := p.MeasureTextWidth(s)
			if w != w2 {
				c.Bad("%q measures %g, then %g", s, w, w2)
			}
			if !near(h*k, f.height(size), 1e-6+rel(h*k)) {
				c.Bad("the height of %q is %g points, ascender to descender are %g", s, h*k, f.height(size))
			}
			if gx, gy := p.GetX()*k, p.GetY()*k; !near(gx, cur, 1e-6+rel(gx)) || !near(gy, y, 1e-6) {
				c.Bad("measuring moves the position from (%g,%g) to (%g,%g)", cur, y, gx, gy)
			}
			if tc == 0 && c.Chance(50, "lin") {
				a := pick(c, "a", []float64{0.5, 2, 3, 1.25})
				ok(p.SetFontSize(size*a), "SetFontSize")
				wa, _ := p.MeasureTextWidth(s)
				ha, _ := p.MeasureCellHeightByText(s)
				ok(p.SetFontSize(size), "SetFontSize")
				if !near(wa, w*a, 1e-6+rel(wa)) || !near(ha, h*a, 1e-6+rel(ha)) {
					c.Bad("%q measures %g x %g, at %g times the size %g x %g", s, w, h, a, wa, ha)
				}
			}
			if c.Chance(20, "split") {
				p.SplitText(s, 50/k)
				p.IsFitMultiCell(&gopdf.Rect{W: 40 / k, H: 100 / k}, s)
				if gx := p.GetX() * k; !near(gx, cur, 1e-6+rel(gx)) {
					c.Bad("splitting moves the position from %g to %g", cur, gx)
				}
			}
			how := c.U(3, "how")
			switch how {
			case 0:
				ok(p.Text(s), "Text")
			case 1:
				ok(p.Cell(nil, s), "Cell")
			case 2:
				ok(p.CellWithOption(nil, s, gopdf.CellOption{Align: gopdf.Left, Float: gopdf.Right}), "CellWithOption")
			}
			c.Log("drawn by %d", how)
			gx := p.GetX() * k
			if !near(gx-cur, w*k, 1e-6+rel(gx)) {
				c.Bad("drawing %q moves the position by %g points, it measures %g", s, gx-cur, w*k)
			}
			starts = append(starts, cur)
			cur = gx
			eg = append(eg, w*k)
			ns = append(ns, len(gs))
			if len(gs) > 0 && !over {
				over = true
			}
			if len(gs) > 2 && (f.kern || tc != 0) {
				c.Nontrivial()
			}
		}
		_, pages := finish(c, p)
		// glyphs of each string: from the first origin to the end
		var glyphs []agl
		for i := range pages[0].Marks {
			m := &pages[0].Marks[i]
			if m.Kind != "text" {
				c.Bad("measuring draws a %s", m.Kind)
			}
			for _, g := range m.Glyphs {
				glyphs = append(glyphs, agl{g, m})
			}
		}
		at, sum := 0, 0
		joined := 0
		for i, n := range ns {
			sum += n
			if at+n > len(glyphs) {
				c.Bad("%d glyphs are drawn, %d are expected", len(glyphs), sum)
			}
			if n == 0 {
				continue
			}
			first, last := glyphs[at], glyphs[at+n-1]
			end := last.Pos.X + last.W/1000*last.m.GS.Size + last.m.GS.Tc
			joined += n
			sl := 0.001 + f.slack(joined, size, tc)
			if math.Abs(tc-round3(tc)) > 0 || math.Abs(size-round3(size)) > 0 {
				c.Harness("rounding")
			}
			if !near(end-first.Pos.X, eg[i], sl) {
				c.Bad("string %d measures %g points and takes %g on the page", i, eg[i], end-first.Pos.X)
			}
			if !near(first.Pos.X, starts[i], sl+0.0101) {
				c.Bad("string %d starts at %g instead of %g", i, first.Pos.X, starts[i])
			}
			at += n
		}
		if at != len(glyphs) {
			c.Bad("%d glyphs are drawn, %d are expected", len(glyphs), at)
		}
	})
}

// TestC07_Model compares measurements with the metrics of the font itself.
func TestC07_Model(t *testing.T) {
	Run(t, Opt{Quick: 24000, Thorough: 2400000, Rule: "a string of at least 2 characters"}, func(c *Case) {
		u := genUnit(c, "unit")
		k := u.k()
		p := new(gopdf.GoPdf)
		p.Start(gopdf.Config{Unit: u.Unit, ConversionForUnit: u.Conv, PageSize: gopdf.Rect{W: 500 / k, H: 500 / k}})
		p.AddPage()
		f, text := genMFont(c, "M")
		f.loadAmong(c, p)
		size := float64(1+c.U(400, "size")) / 8
		if err := p.SetFont("M", "", size); err != nil {
			c.Bad("SetFont: %v", err)
		}
		tc := 0.0
		if c.Chance(50, "spacing") {
			tc = pick(c, "tc", []float64{1, 0.5, 3.25, -0.75, 10, 0.125, -2, 25})
			p.SetCharSpacing(tc / k)
		}
		if c.Chance(30, "override") {
			f.genOverride(c, p)
		}
		texts := []string{text(20, "s")}
		if c.Chance(40, "texts") {
			texts = append(texts, text(20, "s2"))
		}
		measure := func(s string) {
			c.Helper()
			c.Log("unit %v size %g spacing %g %q", u, size, tc, s)
			gs := f.shape(s)
			w, err := p.MeasureTextWidth(s)
			if err != nil {
				c.Bad("MeasureTextWidth: %v", err)
			}
			exact := f.width(gs, size, tc)
			// every advance and kerning may be rounded down to thousandths
			if !near(w*k, exact, f.slack(len(gs), size, tc)+1e-9*math.Abs(exact)) {
				c.Bad("%q measures %g points, by the metrics of the font %g", s, w*k, exact)
			}
			// and against the unrounded metrics
			raw := 0.0
			for i, g := range gs {
				raw += f.tf.f.PDFWidth(g.g)*size/1000 + tc
				if i > 0 {
					raw += float64(f.kernUnits(gs[i-1], g)) * size / float64(f.tf.f.UPM)
				}
			}
			if !near(w*k, raw, f.slack(len(gs), size, tc)+float64(2*len(gs))*size/1000+1e-9*math.Abs(raw)) {
				c.Bad("%q measures %g points, by the metrics of the font %g", s, w*k, raw)
			}
			h, err := p.MeasureCellHeightByText(s)
			if err != nil {
				c.Bad("MeasureCellHeightByText: %v", err)
			}
			if !near(h*k, f.height(size), 1e-6+1e-9*math.Abs(h*k)) {
				c.Bad("the height of %q is %g points, ascender to descender are %g", s, h*k, f.height(size))
			}
			if len(gs) >= 2 {
				c.Nontrivial()
			}
		}
		measure(texts[0])
		// what is measured later depends on what is set then, not on what was
		for i := c.U(6, "again"); i > 0; i-- {
			switch c.U(5, "change") {
			case 0:
				tc = pick(c, "tc", []float64{0, 1, 0.5, 3.25, -0.75, 10, 0.125, -2, 25})
				p.SetCharSpacing(tc / k)
			case 1:
				size = float64(1+c.U(400, "size")) / 8
				if err := p.SetFontSize(size); err != nil {
					c.Bad("SetFontSize: %v", err)
				}
			case 2:
				size = float64(1+c.U(400, "size")) / 8
				if err := p.SetFont("M", "", size); err != nil {
					c.Bad("SetFont: %v", err)
				}
			case 3:
				if c.Bool("page") {
					p.AddPage()
					// what is set is not claimed to last beyond the page
					p.SetFont("M", "", size)
					p.SetCharSpacing(tc / k)
				} else if err := p.Cell(nil, pick(c, "drawn", texts)); err != nil {
					c.Bad("Cell: %v", err)
				}
			}
			measure(pick(c, "which", texts))
		}
	})
}
