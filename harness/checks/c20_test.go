package checks

import (
	"fmt"
	"strings"
	"testing"

	"github.com/signintech/gopdf"
)

type tcell struct {
	text   string
	styled bool
	style  gopdf.CellStyle
}

type tcol struct {
	header, align string
	w             float64
}

func genRGB(c *Case, l string) gopdf.RGBColor {
	if c.Chance(15, l+"edge") {
		e := []uint8{255, 0, 255, 1, 254, 128}
		r := pick(c, l, e)
		if c.Bool(l) {
			return gopdf.RGBColor{R: r, G: r, B: r}
		}
		return gopdf.RGBColor{R: r, G: pick(c, l, e), B: pick(c, l, e)}
	}
	return gopdf.RGBColor{R: uint8(c.U(256, l)), G: uint8(c.U(256, l)), B: uint8(c.U(256, l))}
}

// genCellStyle draws a style; lengths are in points.
func genCellStyle(c *Case, fonts []*mfont, useFont bool) gopdf.CellStyle {
	st := gopdf.CellStyle{TextColor: genRGB(c, "text")}
	if c.Chance(50, "filled") {
		st.FillColor = genRGB(c, "fill")
	}
	st.BorderStyle = gopdf.BorderStyle{Top: c.Bool("top"), Left: c.Bool("left"), Right: c.Bool("right"), Bottom: c.Bool("bottom"),
		Width: pick(c, "bw", []float64{0, 0.25, 1, 2.5}), RGBColor: genRGB(c, "border")}
	if useFont {
		st.Font = pick(c, "font", fonts).family
		st.FontSize = float64(16+c.U(64, "size")) / 4
	}
	return st
}

func styleIn(st gopdf.CellStyle, k float64) gopdf.CellStyle {
	st.BorderStyle.Width /= k
	return st
}

// tableScene draws a table and expects it.
type tableScene struct {
	*scene
	fills  []tfill
	outer  []int // paths of the outer borders
	pad    float64
	useFnt bool
}

type tfill struct {
	path, to int // the fill, and the end of the paths of its cell
	g0, g1   int // the glyphs of the cell
}

func rgbMcol(x gopdf.RGBColor) mcol { return rgbCol(x.R, x.G, x.B) }

func (s *tableScene) edges(x1, y1, x2, y2 float64, b gopdf.BorderStyle, descr string) {
	if b.Width <= 0 {
		return
	}
	h := b.Width / 2
	s.groups++
	line := func(on bool, a, e, f, g float64, side string) {
		if on {
			s.paths = append(s.paths, epath{page: s.page, kind: "line", a: [4]float64{a, e, f, g}, stroke: true, sc: rgbMcol(b.RGBColor), lw: b.Width, tol: 0.0101, descr: side + " border of " + descr})
		}
	}
	line(b.Top, x1-h, y1, x2+h, y1, "top")
	line(b.Bottom, x1-h, y2, x2+h, y2, "bottom")
	line(b.Left, x1, y1-h, x1, y2+h, "left")
	line(b.Right, x2, y1-h, x2, y2+h, "right")
}

func (s *tableScene) cell(x, y, w, h float64, text, align string, header bool, st gopdf.CellStyle) {
	descr := fmt.Sprintf("cell %q at (%g,%g)", text, x, y)
	if st.FillColor != (gopdf.RGBColor{}) {
		f := len(s.fills)
		s.fills = append(s.fills, tfill{path: len(s.paths), g0: len(s.glyphs)})
		defer func() { s.fills[f].to, s.fills[f].g1 = len(s.paths), len(s.glyphs) }()
		s.paths = append(s.paths, epath{page: s.page, kind: "rect", a: [4]float64{x, y + h, w, h}, fill: true, under: true, fc: rgbMcol(st.FillColor), tol: 0.0101, descr: "fill of " + descr})
	}
	if !header {
		s.edges(x, y, x+w, y+h, st.BorderStyle, descr)
	}
	if s.useFnt {
		for _, f := range s.fonts {
			if f.family == st.Font {
				s.f = f
			}
		}
		s.size = st.FontSize
	}
	s.text = rgbMcol(st.TextColor)
	if text == "" {
		return
	}
	// the lines are those of word wrap, centred as a block
	if s.useFnt {
		s.ok(s.p.SetFont(st.Font, "", st.FontSize), "SetFont")
	}
	tw, th := w-2*s.pad, h-2*s.pad
	ls, err := s.p.SplitTextWithWordWrap(text, w/s.k-2*2)
	s.ok(err, "SplitTextWithWordWrap")
	o := gopdf.CellOption{Align: gopdf.Middle}
	switch align {
	case "right":
		o.Align |= gopdf.Right
	case "center":
		o.Align |= gopdf.Center
	default:
		o.Align |= gopdf.Left
	}
	s.x, s.y = x+s.pad, y+s.pad
	lh := s.f.height(s.size)
	s.expectLines(ls, tw, th-lh*float64(len(ls)-1), o)
}

// TestC20_Table draws random tables.
func TestC20_Table(t *testing.T) {
	Run(t, Opt{Quick: 20000, Thorough: 1500000, Rule: "at least 2 columns, 2 rows and 2 styles"}, func(c *Case) {
		sc := newScene(c, genUnit(c, "unit"))
		s := &tableScene{scene: sc}
		k := s.k
		s.pad = 2 * k
		s.addPage(0, 0)
		// families differ, tables select fonts by family
		for _, n := range []string{"F", "G"} {
			f := genFont(c, "font", n, 0)
			f.load(c, s.p)
			s.fonts = append(s.fonts, f)
		}
		s.setFont(s.fonts[0], 10, false)
		if c.Chance(50, "before") {
			s.moveTo(c.F(0, 300, "x"), c.F(0, 300, "y"))
			s.drawText(c.text(5, "t"))
		}
		s.useFnt = c.Bool("fonts")
		x0, y0 := c.F(0, 200, "x0"), c.F(0, 300, "y0")
		rh := c.F(12, 80, "rh")
		if c.Chance(4, "high rows") {
			rh = c.F(80, 900, "rh")
		}
		ncol := 1 + c.U(4, "cols")
		nrow := c.U(5, "rows")
		maxRows := nrow + pick(c, "max", []int{0, 0, 1, 3, -1, -2})
		switch c.U(200, "many") {
		case 1:
			ncol = 5 + c.U(40, "cols")
		case 2:
			nrow = 5 + c.U(120, "rows")
			ncol, maxRows = 1+c.U(2, "cols"), 0
		case 3:
			maxRows = 5 + c.U(150, "maxrows")
			ncol = 1 + c.U(2, "cols")
		}
		if maxRows < 0 {
			maxRows = 0
		}
		tab := s.p.NewTableLayout(x0/k, y0/k, rh/k, maxRows)
		c.Log("table at (%g,%g) row height %g, max %d", x0, y0, rh, maxRows)
		word := func() string {
			switch c.U(5, "content") {
			case 0:
				if c.Chance(5, "long") {
					var sb strings.Builder
					for i := 3 + c.U(40, "words"); i > 0; i-- {
						sb.WriteString(c.word(8, "w") + " ")
					}
					return sb.String() + "end"
				}
				return ""
			case 1:
				return c.text(6, "t")
			case 2:
				return c.word(5, "w") + " " + c.word(8, "w") + " " + c.word(3, "w")
			}
			return c.word(6, "w")
		}
		def := gopdf.BorderStyle{Top: true, Left: true, Right: true, Bottom: true, Width: 0.5 * k}
		tableStyle := gopdf.CellStyle{BorderStyle: def}
		headerStyle := gopdf.CellStyle{BorderStyle: def, FillColor: gopdf.RGBColor{R: 240, G: 240, B: 240}}
		cellStyle := gopdf.CellStyle{BorderStyle: def}
		styles := 0
		set := func(name string, st *gopdf.CellStyle, f func(gopdf.CellStyle)) {
			if s.useFnt || c.Bool("set"+name) {
				*st = genCellStyle(c, s.fonts, s.useFnt)
				c.Log("%s style %+v", name, *st)
				f(styleIn(*st, k))
				styles++
			}
		}
		set("table", &tableStyle, tab.SetTableStyle)
		set("header", &headerStyle, tab.SetHeaderStyle)
		set("cell", &cellStyle, tab.SetCellStyle)
		var cols []tcol
		for i := 0; i < ncol; i++ {
			cl := tcol{word(), c.Pick("align", "left", "center", "right", ""), c.F(15, 150, "w")}
			if c.Chance(3, "wide") {
				cl.w = c.F(150, 1500, "w")
			}
			cols = append(cols, cl)
			tab.AddColumn(cl.header, cl.w/k, cl.align)
			c.Log("column %+v", cl)
		}
		var rows [][]tcell
		for i := 0; i < nrow; i++ {
			var row []tcell
			styled := c.Chance(40, "styledrow")
			n := ncol
			if c.Chance(15, "short") {
				n = c.U(ncol+1, "len")
			}
			for j := 0; j < n; j++ {
				cl := tcell{text: word()}
				if styled {
					cl.styled, cl.style = true, genCellStyle(c, s.fonts, s.useFnt)
					styles++
				}
				row = append(row, cl)
			}
			c.Log("row %+v", row)
			rows = append(rows, row)
			if styled {
				var r []gopdf.RowCell
				for _, cl := range row {
					r = append(r, gopdf.NewRowCell(cl.text, styleIn(cl.style, k)))
				}
				tab.AddStyledRow(r)
				clear(r) // the caller fills it for the next row
			} else {
				var r []string
				for _, cl := range row {
					r = append(r, cl.text)
				}
				tab.AddRow(r)
				clear(r)
			}
		}
		draw := func() {
			s.ok(tab.DrawTable(), "DrawTable")
			// what it must show
			x := x0
			for _, cl := range cols {
				s.cell(x, y0, cl.w, rh, cl.header, "center", true, headerStyle)
				x += cl.w
			}
			right := x
			y := y0 + rh
			for i := 0; i < max(len(rows), maxRows); i++ {
				x = x0
				for j, cl := range cols {
					if i < len(rows) {
						if j >= len(rows[i]) {
							break
						}
						st := cellStyle
						if rows[i][j].styled {
							st = rows[i][j].style
						}
						s.cell(x, y, cl.w, rh, rows[i][j].text, cl.align, false, st)
					} else {
						s.cell(x, y, cl.w, rh, "", cl.align, false, cellStyle)
					}
					x += cl.w
				}
				y += rh
			}
			n := len(s.paths)
			s.edges(x0, y0, right, y, tableStyle.BorderStyle, "the table")
			s.edges(x0, y0, right, y0+rh, headerStyle.BorderStyle, "the header")
			for ; n < len(s.paths); n++ {
				s.outer = append(s.outer, n)
			}
		}
		draw()
		for c.Chance(20, "again") {
			// the same table on another page, after other drawing
			s.addPage(0, 0)
			c.Log("drawn again on page %d", s.page+1)
			if c.Bool("changes") {
				s.p.SetLineWidth(7 / k)
				s.p.SetStrokeColor(1, 2, 3)
				s.p.SetFillColor(4, 5, 6)
				s.p.SetTextColor(7, 8, 9)
			}
			if c.Bool("font") {
				s.setFont(pick(c, "which", s.fonts), float64(16+c.U(64, "size"))/4, false)
			}
			if c.Chance(30, "style") {
				set("table", &tableStyle, tab.SetTableStyle)
				set("header", &headerStyle, tab.SetHeaderStyle)
				set("cell", &cellStyle, tab.SetCellStyle)
			}
			draw()
		}
		s.checkTables()
		if ncol >= 2 && nrow >= 2 && styles >= 2 {
			c.Nontrivial()
		}
	})
}

// checkTables compares the paths of each page in any order. A fill comes before
// the borders and the text of its cell, the outer borders come after every
// fill.
func (s *tableScene) checkTables() {
	c := s.c
	d, pages := finish(c, s.p)
	checkGlyphs(c, d, pages, s.glyphs)
	var glyphMark []int
	for _, pg := range pages {
		for i, m := range pg.Marks {
			if m.Kind == "text" {
				for range m.Glyphs {
					glyphMark = append(glyphMark, i)
				}
			}
		}
	}
	at := make([]int, len(s.paths))
	for page := range pages {
		got := drawnPaths(pages[page])
		used := make([]bool, len(got))
		lastFill := -1
		for _, g := range got {
			if g.fill {
				lastFill = g.mark
			}
		}
		for i := len(s.paths) - 1; i >= 0; i-- {
			e := s.paths[i]
			if e.page != page {
				continue
			}
			e.norm()
			hit := -1
			for j := len(got) - 1; j >= 0 && hit < 0; j-- {
				g := got[j]
				if used[j] || !e.same(g) || e.fill != g.fill || e.stroke != g.stroke || e.fill && !e.fc.isCol(g.fc) || e.stroke && (!e.sc.isCol(g.sc) || !near(e.lw, g.lw, 0.0051)) {
					continue
				}
				hit = j
			}
			if hit < 0 {
				c.Bad("%s is not drawn: a %s at %.2f on page %d, fill %v stroke %v width %g", e.descr, e.kind, e.a, page+1, e.fc, e.sc, e.lw)
			}
			used[hit] = true
			at[i] = got[hit].mark
			for _, o := range s.outer {
				if i == o && at[i] < lastFill {
					c.Bad("%s is drawn before a fill", e.descr)
				}
			}
		}
		for j, u := range used {
			if !u {
				c.Bad("a %s at %.2f is drawn on page %d and nobody asked for it (fill %v %v, stroke %v %v %g)", got[j].kind, got[j].a, page+1, got[j].fill, got[j].fc, got[j].stroke, got[j].sc, got[j].lw)
			}
		}
	}
	for _, f := range s.fills {
		for i := f.path + 1; i < f.to; i++ {
			if at[i] < at[f.path] {
				c.Bad("%s hides %s", s.paths[f.path].descr, s.paths[i].descr)
			}
		}
		for g := f.g0; g < f.g1; g++ {
			if glyphMark[g] < at[f.path] {
				c.Bad("%s hides the text", s.paths[f.path].descr)
			}
		}
	}
}

// TestC20_Errors draws tables that cannot be drawn.
func TestC20_Errors(t *testing.T) {
	Run(t, Opt{Quick: 3000, Thorough: 100000, Rule: "every case"}, func(c *Case) {
		p := new(gopdf.GoPdf)
		p.Start(gopdf.Config{PageSize: *gopdf.PageSizeA4})
		p.AddPage()
		f := genFont(c, "font", "F", 0)
		f.load(c, p)
		if err := p.SetFont("F", "", 10); err != nil {
			c.Bad("SetFont: %v", err)
		}
		n, rows := 1+c.U(3, "cols"), 1+c.U(4, "rows")
		tab := p.NewTableLayout(10, 10, 20, c.U(6, "max"))
		for i := 0; i < n; i++ {
			tab.AddColumn(c.word(5, "h"), 60, "left")
		}
		wrong := c.U(rows, "wrong")
		long := c.Bool("long")
		c.Log("%d columns, %d rows, row %d wrong, long %v", n, rows, wrong, long)
		for i := 0; i < rows; i++ {
			var r []gopdf.RowCell
			for j := 0; j < n; j++ {
				st := gopdf.CellStyle{}
				if i == wrong && !long && j == n-1 {
					st.Font, st.FontSize = "unknown", 9
				}
				r = append(r, gopdf.NewRowCell(c.word(4, "t"), st))
			}
			if i == wrong && long {
				for j := 0; j <= c.U(3, "more"); j++ {
					r = append(r, gopdf.NewRowCell(c.word(4, "t"), gopdf.CellStyle{}))
				}
			}
			tab.AddStyledRow(r)
		}
		if tab.DrawTable() == nil {
			c.Bad("the table is drawn without an error")
		}
		finish(c, p)
		c.Nontrivial()
	})
}
