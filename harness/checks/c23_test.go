package checks

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/phpdave11/gofpdi"
	"github.com/signintech/gopdf"

	"verif/pdf"
)

// tplWant is an imported page.
type tplWant struct {
	id    int
	src   *srcModel
	page  int // from 0
	box   string
	first string // the box the page was first imported by
	key   string
}

// place is what part of the page a template shows, and how it is turned.
type tplView struct {
	box  [4]float64
	turn int
	bug  string // the known finding it is an instance of
}

// views are what the template may show: what it should, and what it does for
// the known findings.
func (t tplWant) views() (out []tplView) {
	p, p1 := t.src.pages[t.page], t.src.pages[0]
	add := func(b [4]float64, bug string) {
		for _, o := range out {
			if o.box == b {
				return
			}
		}
		out = append(out, tplView{b, p.turn(), bug})
	}
	add(p.box(t.box), "")
	add(p1.box(t.box), "the box of the first page")
	add(p1.box(t.first), "the box of the first import")
	return
}

func (v tplView) size() (w, h float64) {
	w, h = v.box[2]-v.box[0], v.box[3]-v.box[1]
	if v.turn%180 != 0 {
		w, h = h, w
	}
	return
}

type reader struct {
	src *srcModel
	key string
	rs  *io.ReadSeeker
}

type importing struct {
	*canvas
	srcs    []*srcModel
	readers []*reader
	tpls    []tplWant
	byID    map[int]tplWant
	byPage  map[string]tplWant
	shared  io.ReadSeeker
	nkey    int
	drawn   map[string]bool
	bugs    map[string]bool
}

func srcFile(i int) string { return filepath.Join(imgDir(), fmt.Sprintf("source%d.pdf", i)) }

// stream gives a reader of a source: a new one, one used before, or another
// one in the variable used before.
func (v *importing) stream(i int) *reader {
	c := v.c
	if len(v.readers) > 0 && c.Chance(50, "same reader") {
		return pick(c, "reader", v.readers)
	}
	v.nkey++
	r := &reader{src: v.srcs[i], key: fmt.Sprintf("stream %d of source %d", v.nkey, i)}
	var rs io.ReadSeeker = bytes.NewReader(r.src.data)
	switch c.U(3, "stream kind") {
	case 0:
		rs = strings.NewReader(string(r.src.data))
	case 1:
		f, err := os.Open(srcFile(i))
		if err != nil {
			c.Harness("%v", err)
		}
		rs = f
	}
	if c.Chance(30, "moved") {
		rs.Seek(int64(c.U(100, "pos")), 0)
	}
	r.rs = &rs
	v.readers = append(v.readers, r)
	return r
}

// ptr gives the variable a stream is passed in.
func (v *importing) ptr(r *reader) *io.ReadSeeker {
	if v.c.Bool("shared variable") {
		v.shared = *r.rs
		return &v.shared
	}
	return r.rs
}

func (v *importing) imported(id int, key string, src *srcModel, page int, box string) tplWant {
	c := v.c
	c.Helper()
	t := tplWant{id: id, src: src, page: page, box: box, first: box, key: fmt.Sprintf("%s page %d", key, page+1)}
	if old, ok := v.byPage[t.key]; ok {
		t.first = old.first
	}
	if old, ok := v.byID[id]; ok && old.key != t.key {
		c.Bad("importing %s gives the template %d of %s", t.key, id, old.key)
	}
	v.byID[id], v.byPage[t.key] = t, t
	v.tpls = append(v.tpls, t)
	return t
}

func (v *importing) importPage() {
	c := v.c
	i := c.U(len(v.srcs), "src")
	src := v.srcs[i]
	page := c.U(len(src.pages), "page")
	box := pick(c, "box", boxNames)
	if c.Chance(50, "media") {
		box = "/MediaBox"
	}
	var key string
	var id int
	if c.Bool("path") {
		key = fmt.Sprintf("path %d", i)
		c.Log("ImportPage(%s,%d,%s)", key, page+1, box)
		id = v.p.ImportPage(srcFile(i), page+1, box)
	} else {
		r := v.stream(i)
		src, key = r.src, r.key
		if page >= len(src.pages) {
			page = 0
		}
		c.Log("ImportPageStream(%s,%d,%s)", key, page+1, box)
		id = v.p.ImportPageStream(v.ptr(r), page+1, box)
	}
	v.imported(id, key, src, page, box)
}

func (v *importing) importPages() {
	c := v.c
	i := c.U(len(v.srcs), "src")
	src := v.srcs[i]
	box := pick(c, "box", boxNames)
	if c.Chance(50, "media") {
		box = "/MediaBox"
	}
	var from any
	var key string
	switch c.U(4, "source") {
	case 0:
		from, key = srcFile(i), fmt.Sprintf("path %d", i)
	case 1:
		v.nkey++
		b := append([]byte{}, src.data...)
		from, key = b, fmt.Sprintf("bytes %d of source %d", v.nkey, i)
	case 2:
		r := v.stream(i)
		from, key, src = *r.rs, r.key, r.src
	default:
		r := v.stream(i)
		from, key, src = v.ptr(r), r.key, r.src
	}
	if c.Chance(8, "invalid") {
		bad := pick(c, "bad", []any{nil, 5, []int{1}, bytes.NewBufferString("x"), struct{}{}})
		c.Log("ImportPagesFromSource(%T)", bad)
		if err := v.p.ImportPagesFromSource(bad, box); err == nil {
			c.Bad("ImportPagesFromSource accepts a %T", bad)
		}
		return
	}
	if c.Chance(8, "bad box") {
		c.Log("ImportPagesFromSource(%s,/NoBox)", key)
		if err := v.p.ImportPagesFromSource(from, "/NoBox"); err == nil {
			c.Bad("ImportPagesFromSource accepts a box that does not exist")
		}
		return
	}
	c.Log("ImportPagesFromSource(%s,%s)", key, box)
	if err := v.p.ImportPagesFromSource(from, box); err != nil {
		c.Bad("ImportPagesFromSource(%s,%s): %v", key, box, err)
	}
	for n, p := range src.pages {
		v.pages = append(v.pages, &cpage{w: 595, h: 842, gs: gst{ctm: pdf.Ident, tol: 0.0155, lw: 1, fill: black, stroke: black}})
		v.page = len(v.pages) - 1
		page := fmt.Sprintf("%s page %d", key, n+1)
		t := tplWant{id: -1, src: src, page: n, box: box, first: box, key: page}
		if old, ok := v.byPage[page]; ok {
			t.first = old.first
		} else {
			v.byPage[page] = t
		}
		w, h := tplView{box: p.box(box), turn: p.turn()}.size()
		v.template(t, 0, 0, w, h, true)
	}
}

func (v *importing) use() {
	c := v.c
	t := pick(c, "tpl", v.tpls)
	x, y := v.coord(-50, 500, "x"), v.coord(-50, 700, "y")
	w, h := v.coord(1, 700, "w"), v.coord(1, 900, "h")
	switch c.U(6, "size") {
	case 0:
		w = 0
	case 1:
		h = 0
	case 2:
		w, h = 0, 0
	}
	v.p.UseImportedTemplate(t.id, x/v.k, y/v.k, w/v.k, h/v.k)
	v.template(t, x, y, w, h, false)
}

// template expects a template in a rectangle.
func (v *importing) template(t tplWant, x, y, w, h float64, whole bool) {
	// for what sizes the rectangle should have, by view
	type rect struct{ x0, y0, x1, y1 float64 }
	ph := v.pg().h
	descr := fmt.Sprintf("template %d of %s %s in (%g,%g,%g,%g)", t.id, t.key, t.box, x, y, w, h)
	page := t.src.pages[t.page]
	if page.turn() != 0 {
		v.drawn["rotated"] = true
	}
	v.expect(&item{kind: "form", descr: descr}).form = func(c *Case, d *pdf.Doc, it *item, m *pdf.Mark, descr string) {
		c.Helper()
		fs := d.Stream(m.XObj)
		if fs == nil {
			c.Bad("%s: is not a stream", descr)
		}
		if s := m.GS; s.LW != 1 || len(s.Dash) > 0 || s.Cap != 0 || s.Join != 0 || s.Tc != 0 || s.Tr != 0 || !black.is(s.Fill) || !black.is(s.Stroke) {
			c.Bad("%s: starts with the line width %g, dashes %v, cap %d, join %d, character spacing %g, colours %v %v", descr, s.LW, s.Dash, s.Cap, s.Join, s.Tc, s.Fill, s.Stroke)
		}
		data, err := d.Data_(fs)
		if err != nil || !bytes.Equal(data, page.content) {
			c.Bad("%s: has the content %q instead of %q (%v)", descr, data, page.content, err)
		}
		cmp := pdf.NewCmp(t.src.d, d, 1e-9)
		cmp.Exact = true
		diff := cmp.Diff("resources", page.res, fs.Dict.Get("Resources"))
		if diff != "" && page.parent != nil {
			cmp = pdf.NewCmp(t.src.d, d, 1e-9)
			cmp.Exact = true
			if cmp.Diff("resources", page.parent, fs.Dict.Get("Resources")) == "" {
				v.bugs["inherited resources"] = true
				diff = ""
			}
		}
		if diff != "" {
			c.Bad("%s: %s", descr, diff)
		}
		why := ""
		for _, view := range t.views() {
			for swap := 0; swap < 2; swap++ {
				rw, rh := w, h
				nw, nh := view.size()
				switch {
				case w == 0 && h == 0:
					rw, rh = nw, nh
				case w == 0:
					rw = h * nw / nh
				case h == 0:
					rh = w * nh / nw
				}
				if swap == 1 {
					// how the page is turned is told from the first page's box
					if !whole || t.first == t.box && t.src.pages[0].box(t.box) == page.box(t.box) {
						break
					}
					rw, rh = rh, rw
				}
				bad := v.placed(fs, m, it, view, x, ph-y-rh, rw, rh)
				if bad == "" {
					if view.bug != "" {
						v.bugs[view.bug] = true
					}
					return
				}
				if why == "" {
					why = bad
				}
			}
		}
		c.Bad("%s: %s", descr, why)
	}
}

// placed tells what is wrong with where a template is drawn.
func (v *importing) placed(fs *pdf.Stream, m *pdf.Mark, it *item, view tplView, x, y, w, h float64) string {
	b := m.BBox
	for i := range b {
		if len(b) != 4 || !near(b[i], view.box[i], 0.0051) {
			return fmt.Sprintf("shows the box %v instead of %v", b, view.box)
		}
	}
	fm := pdf.Ident
	if fs.Dict.Has("Matrix") {
		a, _ := fs.Dict.Get("Matrix").(pdf.Arr)
		for i := range fm {
			if i < len(a) {
				switch n := a[i].(type) {
				case pdf.Int:
					fm[i] = float64(n)
				case pdf.Real:
					fm[i] = float64(n)
				}
			}
		}
	}
	at := fm.Mul(m.GS.CTM)
	want := []pdf.Pt{{X: x, Y: y}, {X: x + w, Y: y}, {X: x + w, Y: y + h}, {X: x, Y: y + h}} // anticlockwise
	from := []pdf.Pt{{X: b[0], Y: b[1]}, {X: b[2], Y: b[1]}, {X: b[2], Y: b[3]}, {X: b[0], Y: b[3]}}
	bw, bh := view.size()
	tol := it.gs.tol + 0.002 + 6e-5*math.Hypot(bw, bh)*2 + 1e-5*math.Hypot(w, h) + 2e-5*math.Max(math.Hypot(b[0], b[1]), math.Hypot(b[2], b[3]))*math.Max(w/bw, h/bh)
	for i := range from {
		// turned clockwise, the lower left corner comes to the upper left
		p, q := at.Apply(from[i]), it.gs.ctm.Apply(want[(i+4-view.turn/90)%4])
		if !near(p.X, q.X, tol) || !near(p.Y, q.Y, tol) {
			return fmt.Sprintf("corner %d of the page (box %v, rotated by %d) is at (%.3f) instead of (%.3f)", i, view.box, view.turn, p, q)
		}
	}
	return ""
}

// sizes compares the reported sizes of a source.
func (v *importing) sizes() {
	c := v.c
	i := c.U(len(v.srcs), "src")
	src := v.srcs[i]
	var got map[int]map[string]map[string]float64
	if c.Bool("path") {
		c.Log("GetPageSizes(%d)", i)
		got = v.p.GetPageSizes(srcFile(i))
	} else {
		r := v.stream(i)
		src = r.src
		c.Log("GetStreamPageSizes(%s)", r.key)
		got = v.p.GetStreamPageSizes(v.ptr(r))
	}
	if len(got) != len(src.pages) {
		c.Bad("sizes of %d pages are reported, there are %d", len(got), len(src.pages))
	}
	for n, p := range src.pages {
		for _, name := range boxNames {
			b, ok := p.boxes[name]
			g := got[n+1][name]
			if !ok {
				if len(g) != 0 {
					c.Bad("page %d has no %s but %v is reported", n+1, name, g)
				}
				continue
			}
			for k, w := range map[string]float64{"llx": b[0], "lly": b[1], "urx": b[2], "ury": b[3], "w": b[2] - b[0], "h": b[3] - b[1]} {
				if x, ok := g[k]; !ok || !near(x, w, 1e-6) {
					c.Bad("%s of the %s of page %d is reported as %v, it is %g", k, name, n+1, g, w)
				}
			}
		}
	}
}

// ownSource is a source made with gopdf.
func ownSource(c *Case) *srcModel {
	v := newCanvas(c, unitCfg{Unit: gopdf.UnitPT})
	if c.Bool("raw") {
		v.p.SetNoCompression()
	}
	if err := v.p.AddTTFFontData("f", stdFonts()[0].data); err != nil {
		c.Bad("font: %v", err)
	}
	if err := v.p.SetFont("f", "", 12); err != nil {
		c.Bad("font: %v", err)
	}
	for n := 1 + c.U(3, "pages"); n > 0; n-- {
		v.addPage(0, 0)
		for k := 1 + c.U(4, "things"); k > 0; k-- {
			if c.Bool("shape") {
				v.shape()
			} else {
				v.glyph()
			}
		}
	}
	m := &srcModel{gens: map[int]int{}, descr: "source made with gopdf"}
	m.data = output(c, v.p)
	d, pages := parse(c, m.data)
	m.d = d
	for _, p := range pages {
		q := &srcPage{num: p.Num, res: p.Res, boxes: map[string][4]float64{"/MediaBox": {p.Media[0], p.Media[1], p.Media[2], p.Media[3]}}}
		if st := d.Stream(p.Dict.Get("Contents")); st != nil {
			var err error
			if q.content, err = d.Data_(st); err != nil {
				c.Harness("%v", err)
			}
		}
		m.pages = append(m.pages, q)
	}
	return m
}

// TestC23_Import imports pages of generated documents into a document that is
// drawn on in between.
func TestC23_Import(t *testing.T) {
	Run(t, Opt{Quick: 6000, Thorough: 600000, Rule: "at least 2 templates of 2 different pages with content are drawn, and something else between"}, func(c *Case) {
		u := genUnit(c, "unit")
		c.Log("unit %v", u)
		v := &importing{canvas: newCanvas(c, u), byID: map[int]tplWant{}, byPage: map[string]tplWant{}, drawn: map[string]bool{}, bugs: map[string]bool{}}
		for n := 1 + c.U(3, "sources"); n > 0; n-- {
			var m *srcModel
			if c.Chance(15, "own") {
				m = ownSource(c)
				c.Class("source made with gopdf")
			} else {
				m = genSource(c)
			}
			c.Log("source %d: %s", len(v.srcs), m.descr)
			if err := os.WriteFile(srcFile(len(v.srcs)), m.data, 0o644); err != nil {
				c.Harness("%v", err)
			}
			v.srcs = append(v.srcs, m)
		}
		defer func() {
			for _, r := range v.readers {
				if f, ok := (*r.rs).(*os.File); ok {
					f.Close()
				}
			}
		}()
		var pass []byte
		if c.Chance(20, "protected") {
			c.Log("protected")
			pass = []byte("user")
			v.p = new(gopdf.GoPdf)
			v.p.Start(gopdf.Config{Unit: u.Unit, ConversionForUnit: u.Conv, PageSize: gopdf.Rect{W: 595 / v.k, H: 842 / v.k},
				Protection: gopdf.PDFProtectionConfig{UseProtection: true, Permissions: gopdf.PermissionsPrint, UserPass: pass, OwnerPass: []byte("owner")}})
			c.Class("protected")
		}
		if c.Chance(20, "importer") {
			c.Log("StartWithImporter")
			cfg := gopdf.Config{Unit: u.Unit, ConversionForUnit: u.Conv, PageSize: gopdf.Rect{W: 595 / v.k, H: 842 / v.k}}
			if pass != nil {
				cfg.Protection = gopdf.PDFProtectionConfig{UseProtection: true, Permissions: gopdf.PermissionsPrint, UserPass: pass, OwnerPass: []byte("owner")}
			}
			v.p = new(gopdf.GoPdf)
			v.p.StartWithImporter(cfg, gofpdi.NewImporter())
			c.Class("own importer")
		}
		for c.Chance(20, "before") && len(v.tpls) < 3 {
			v.importPage()
		}
		v.addPage(0, 0)
		texts := c.Chance(50, "texts")
		if texts {
			if err := v.p.AddTTFFontData("f", stdFonts()[0].data); err != nil {
				c.Bad("font: %v", err)
			}
			if err := v.p.SetFont("f", "", 12); err != nil {
				c.Bad("font: %v", err)
			}
		}
		others := 0
		for n := c.count(4, 20, 100, "n"); n > 0; n-- {
			switch o := c.U(24, "op"); {
			case o < 5:
				v.importPage()
			case o < 12:
				if len(v.tpls) > 0 {
					v.use()
				}
			case o == 12:
				if len(v.pages) < 12 {
					v.closeAll()
					v.importPages()
				}
			case o < 15:
				v.sizes()
			case o < 17:
				v.shape()
				others++
			case o < 19:
				v.attribute()
			case o < 21:
				v.nesting()
			case o == 21:
				if texts {
					if c.Chance(30, "spacing") {
						v.c.Log("SetCharSpacing")
						if err := v.p.SetCharSpacing(2.5 / v.k); err != nil {
							c.Bad("SetCharSpacing: %v", err)
						}
					}
					v.glyph()
					others++
				}
			default:
				if len(v.pages) < 4 && c.Bool("add") {
					v.addPage(pick(c, "w", []float64{0, 300, 800}), 600)
				} else {
					v.selectPage(c.U(len(v.pages), "sel"))
				}
			}
			if n := v.p.GetNumberOfPages(); n != len(v.pages) {
				c.Bad("GetNumberOfPages is %d, there are %d", n, len(v.pages))
			}
		}
		v.closeAll()
		b := output(c, v.p)
		dump(b)
		d := decrypted(c, b, pass)
		pages, probs := d.Validate()
		if len(probs) > 0 {
			c.Bad("the output is not valid: %s", strings.Join(probs, "; "))
		}
		v.compare(d, pages)
		seen := map[string]bool{}
		forms := 0
		for _, w := range v.want {
			if w.kind == "form" {
				forms++
				seen[strings.SplitN(strings.SplitN(w.descr, " of ", 2)[1], " in ", 2)[0]] = true
			}
		}
		for k := range v.bugs {
			c.Class("known finding: " + k)
		}
		for k := range v.drawn {
			c.Class(k)
		}
		if forms >= 2 && len(seen) >= 2 && others > 0 {
			c.Nontrivial()
		}
	})
}
