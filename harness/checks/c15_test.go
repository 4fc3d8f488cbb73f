package checks

import (
	"bytes"
	"fmt"
	"io"
	"testing"

	"github.com/signintech/gopdf"
)

var transModes = []gopdf.BlendModeType{gopdf.NormalBlendMode, "", gopdf.Hue, gopdf.Color, gopdf.Darken, gopdf.Screen, gopdf.Overlay, gopdf.Lighten, gopdf.Multiply, gopdf.Exclusion, gopdf.ColorBurn, gopdf.HardLight, gopdf.SoftLight, gopdf.Difference, gopdf.Saturation, gopdf.Luminosity, gopdf.ColorDodge}

// genBlend draws a transparency and what it means.
func genBlend(c *Case, l string) (*gopdf.Transparency, blend) {
	t := &gopdf.Transparency{Alpha: pick(c, l+"a", []float64{1, 0.5, 0.25, 0, 0.999, 0.1, 0.123, 0.75, 0.501}), BlendModeType: pick(c, l+"bm", transModes)}
	if c.Chance(40, l+"norm") {
		t.BlendModeType = gopdf.NormalBlendMode
	}
	b := blend{t.Alpha, "Normal"}
	if t.BlendModeType != "" {
		b.bm = string(t.BlendModeType[1:])
	}
	return t, b
}

// blended is a canvas with all that can be drawn with a transparency.
type blended struct {
	*canvas
	name        string
	pics, masks []*picture
	good        map[*picture]bool
	underline   bool
	tpl         []int
	drawn       map[string]bool
	blends      map[blend]bool
}

func (b *blended) saw(kind string, bl blend) {
	b.drawn[kind] = true
	b.blends[bl] = true
}

// own draws a transparency of a call, or none.
func (b *blended) own(l string) (*gopdf.Transparency, blend) {
	if b.c.Chance(50, l+"own") {
		return genBlend(b.c, l)
	}
	return nil, b.doc
}

// borrowed ends the use of a transparency of a call: it is unchanged, and the
// caller uses it for something else.
func (b *blended) borrowed(t *gopdf.Transparency, was blend, descr string) {
	if t == nil {
		return
	}
	bm := "Normal"
	if t.BlendModeType != "" {
		bm = string(t.BlendModeType[1:])
	}
	if t.Alpha != was.a || bm != was.bm {
		b.c.Bad("%s: changed the caller's transparency to %v", descr, *t)
	}
	*t = gopdf.Transparency{Alpha: 0.333, BlendModeType: gopdf.Hue}
}

func (b *blended) setDoc() {
	c := b.c
	if c.Chance(30, "clear") {
		c.Log("%s: ClearTransparency", b.name)
		b.p.ClearTransparency()
		b.doc = opaque
		return
	}
	t, bl := genBlend(c, "doc")
	if c.Chance(25, "new") {
		made, err := gopdf.NewTransparency(t.Alpha, string(t.BlendModeType))
		if err != nil {
			c.Bad("NewTransparency(%g,%q): %v", t.Alpha, t.BlendModeType, err)
		}
		t = &made
	}
	c.Log("%s: SetTransparency %v", b.name, bl)
	if err := b.p.SetTransparency(*t); err != nil {
		c.Bad("SetTransparency(%v): %v", *t, err)
	}
	b.doc = bl
}

func (b *blended) invalid() {
	c := b.c
	a, bm := pick(c, "badalpha", []float64{-0.001, 1.001, -5, 70, 0.5}), c.Pick("badmode", "Normal", "/normal", "/Overlay ", "/Multiply", "x")
	_, err := gopdf.NewTransparency(a, bm)
	if ok := a >= 0 && a <= 1 && bm == "/Multiply"; (err == nil) != ok {
		c.Bad("NewTransparency(%g,%q): %v", a, bm, err)
	}
}

func (b *blended) rect() {
	c := b.c
	x, y, w, h := b.coord(0, 500, "x"), b.coord(0, 700, "y"), b.coord(1, 200, "w"), b.coord(1, 200, "h")
	ps := pick(c, "paint", []gopdf.PaintStyle{"", gopdf.DrawPaintStyle, gopdf.FillPaintStyle, gopdf.DrawFillPaintStyle})
	t, bl := b.own("rect")
	o := gopdf.DrawableRectOptions{X: x / b.k, Y: y / b.k, Rect: gopdf.Rect{W: w / b.k, H: h / b.k}, PaintStyle: ps, Transparency: t}
	descr := fmt.Sprintf("%s: rectangle with options (%g,%g,%g,%g,%q) %v", b.name, x, y, w, h, ps, bl)
	var err error
	if c.Bool("lower") {
		err = b.p.RectFromLowerLeftWithOpts(o)
		y -= h
	} else {
		err = b.p.RectFromUpperLeftWithOpts(o)
	}
	if err != nil {
		c.Bad("%s: %v", descr, err)
	}
	b.borrowed(t, bl, descr)
	b.figure(descr, ps == gopdf.FillPaintStyle || ps == gopdf.DrawFillPaintStyle, ps != gopdf.FillPaintStyle, true, x, y, x+w, y, x+w, y+h, x, y+h).bl = bl
	b.saw("rectangle with options", bl)
}

func (b *blended) moveTo() {
	b.p.SetXY(b.coord(0, 400, "x")/b.k, b.coord(20, 600, "y")/b.k)
}

// text draws text in one of the ways to do so.
func (b *blended) text() {
	c := b.c
	if c.Chance(60, "move") || b.underline { // texts that continue each other share an underline
		b.moveTo()
	}
	line := 0
	if b.underline {
		line = 1
	}
	s := c.Pick("text", "a", "Abc", "two words", "xyzzy")
	it := &item{kind: "block", glyphs: len(s), paths: line}
	var bl blend
	var descr string
	var err error
	switch c.U(4, "textkind") {
	case 0:
		bl, descr = b.doc, fmt.Sprintf("%s: Text %q", b.name, s)
		err = b.p.Text(s)
	case 1:
		bl, descr = b.doc, fmt.Sprintf("%s: Cell %q", b.name, s)
		err = b.p.Cell(&gopdf.Rect{W: 200 / b.k, H: 20 / b.k}, s)
	default:
		o := gopdf.CellOption{Align: pick(c, "align", []int{0, gopdf.Left, gopdf.Center | gopdf.Middle, gopdf.Right | gopdf.Bottom, gopdf.Justify}), Float: pick(c, "float", []int{0, gopdf.Right, gopdf.Bottom})}
		var t *gopdf.Transparency
		t, bl = b.own("cell")
		o.Transparency = t
		r := &gopdf.Rect{W: 200 / b.k, H: 30 / b.k}
		if c.Chance(40, "multi") {
			s = c.Pick("long", "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz", "short")
			it.glyphs, it.paths = len(s), 0
			descr = fmt.Sprintf("%s: MultiCellWithOption %q %v", b.name, s, bl)
			if b.underline { // a line each
				lines, err := b.p.SplitText(s, r.W)
				if err != nil {
					c.Bad("%s: %v", descr, err)
				}
				it.paths = len(lines)
			}
			err = b.p.MultiCellWithOption(r, s, o)
		} else {
			for _, side := range []int{gopdf.Left, gopdf.Top, gopdf.Right, gopdf.Bottom} {
				if c.Chance(30, "side") {
					o.Border |= side
					it.paths++
				}
			}
			descr = fmt.Sprintf("%s: CellWithOption %q border %d %v", b.name, s, o.Border, bl)
			err = b.p.CellWithOption(r, s, o)
		}
		b.borrowed(t, bl, descr)
	}
	if err != nil {
		c.Bad("%s: %v", descr, err)
	}
	it.descr = descr
	b.expect(it).bl = bl
	b.saw("text", bl)
}

func (b *blended) template() {
	c := b.c
	if len(b.tpl) == 0 || c.Chance(15, "again") {
		src := stdSources()[c.U(len(stdSources()), "src")]
		var rs io.ReadSeeker = bytes.NewReader(src.data)
		b.tpl = append(b.tpl, b.p.ImportPageStream(&rs, 1+c.U(src.pages, "srcpage"), "/MediaBox"))
	}
	x, y := b.coord(0, 300, "x"), b.coord(0, 300, "y")
	b.p.UseImportedTemplate(pick(c, "tpl", b.tpl), x/b.k, y/b.k, 100/b.k, 100/b.k)
	b.expect(&item{kind: "form", descr: b.name + ": UseImportedTemplate"})
	b.saw("template", b.doc)
}

// table draws a table on a page of its own.
func (b *blended) table() {
	c := b.c
	b.closeAll()
	b.addPage(0, 0)
	t := b.p.NewTableLayout(20/b.k, 20/b.k, 25/b.k, 3)
	for i := 0; i < 2; i++ {
		t.AddColumn("head", 90/b.k, "left")
	}
	for i := c.U(3, "rows"); i >= 0; i-- {
		t.AddRow([]string{"one", "two"})
	}
	if err := t.DrawTable(); err != nil {
		c.Bad("DrawTable: %v", err)
	}
	b.expect(&item{kind: "rest", descr: b.name + ": DrawTable"})
	b.saw("table", b.doc)
	b.addPage(0, 0)
}

func (b *blended) step() {
	c := b.c
	switch o := c.U(40, "op"); {
	case o < 10:
		b.setDoc()
	case o < 16:
		b.saw(b.shape(), b.doc)
	case o < 21:
		b.rect()
	case o < 27:
		b.text()
	case o < 31:
		used := b.drawImageOpt(b.pics, b.masks, b.good, true)
		for _, s := range used {
			b.drawn["image with "+s] = true
		}
	case o == 31:
		b.drawImageSimple(b.pics)
		b.saw("image", b.doc)
	case o < 34:
		b.template()
	case o == 34:
		b.nesting()
	case o == 35:
		b.invalid()
	case o == 36 && c.Chance(30, "table"):
		b.table()
	case o == 37:
		b.underline = !b.underline
		style := ""
		if b.underline {
			style = "U"
		}
		if err := b.p.SetFont("f", style, 12); err != nil {
			c.Bad("SetFont: %v", err)
		}
	default:
		// pages with a table take no other drawing
		if len(b.pages) < 3 && c.Bool("add") {
			b.addPage(0, 0)
		} else if i := c.U(len(b.pages), "sel"); !b.tablePage(i) {
			b.selectPage(i)
		}
	}
}

func (b *blended) tablePage(i int) bool {
	for _, w := range b.want {
		if w.kind == "rest" && w.page == i {
			return true
		}
	}
	return false
}

// TestC15_Transparency draws on two documents at a time with transparencies
// set, cleared and given with calls.
func TestC15_Transparency(t *testing.T) {
	Run(t, Opt{Quick: 12000, Thorough: 1500000, Rule: "at least 4 kinds of drawing under 3 different transparencies"}, func(c *Case) {
		var docs []*blended
		for i, n := 0, 1+c.U(2, "ndoc"); i < n; i++ {
			u := genUnit(c, "unit")
			b := &blended{canvas: newCanvas(c, u), name: fmt.Sprintf("document %d", i), good: map[*picture]bool{}, drawn: map[string]bool{}, blends: map[blend]bool{}}
			c.Log("%s: unit %v", b.name, u)
			b.addPage(0, 0)
			if err := b.p.AddTTFFontData("f", stdFonts()[0].data); err != nil {
				c.Bad("font: %v", err)
			}
			if err := b.p.SetFont("f", "", 12); err != nil {
				c.Bad("font: %v", err)
			}
			pic := genPicture(c, "pic")
			if fmt.Sprintf("%T", pic.im) == "*image.CMYK" {
				pic = jpegPicture(jpegBytes(pic.im), "JPEG "+pic.descr)
			}
			b.pics = []*picture{pic}
			m, ok := genMask(c)
			b.masks, b.good[m] = []*picture{m}, ok
			if ok {
				b.pics = append(b.pics, m)
			}
			docs = append(docs, b)
		}
		cur := docs[0]
		if c.Chance(1, "bulk") {
			for n := 30 + c.U(300, "nbulk"); n > 0; n-- {
				cur.setDoc()
				cur.rect()
			}
		}
		for n := c.count(6, 30, 100, "n"); n > 0; n-- {
			if c.Chance(20, "other") {
				cur = pick(c, "doc", docs)
			}
			cur.step()
		}
		kinds, blends := map[string]bool{}, map[blend]bool{}
		for _, b := range docs {
			b.check()
			for k := range b.drawn {
				kinds[k] = true
			}
			for k := range b.blends {
				blends[k] = true
			}
		}
		for k := range kinds {
			c.Class(k)
		}
		if len(kinds) >= 4 && len(blends) >= 3 {
			c.Nontrivial()
		}
	})
}
