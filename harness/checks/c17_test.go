package checks

import (
	"fmt"
	"math"
	"strings"
	"testing"

	"github.com/signintech/gopdf"

	"verif/pdf"
)

type navLink struct {
	page       int
	x, y, w, h float64
	url        string
	anchor     string
	internal   bool
}

type navAnchor struct {
	page  int
	y, sz float64
}

type navNode struct {
	title string
	page  int
	y     float64 // -1: without position
	obj   *gopdf.OutlineObj
	kids  []*navNode
}

// address draws a link target: URLs and any bytes.
func (c *Case) address() string {
	switch c.U(4, "addr") {
	case 0:
		return "http://example.com/" + c.word(6, "path")
	case 1:
		if c.Chance(3, "long") {
			return "https://x.org/?" + strings.Repeat(c.text(9, "q")+"=&", 1+c.U(400, "parts"))
		}
		return "https://x.org/a(b)\\c?q=" + c.text(6, "q")
	case 2:
		if s := c.unicode(8, "u"); s != "" {
			return s
		}
	case 3:
		b := make([]byte, 1+c.U(12, "n"))
		for i := range b {
			b[i] = byte(c.U(256, "b"))
		}
		return string(b)
	}
	return "mailto:a@b"
}

func TestC17_Navigation(t *testing.T) {
	Run(t, Opt{Quick: 40000, Thorough: 3000000, Rule: "at least 2 pages, 2 links to anchors or outline entries below others"}, func(c *Case) {
		u := genUnit(c, "unit")
		k := u.k()
		defH := c.F(100, 900, "h")
		cfg := gopdf.Config{Unit: u.Unit, ConversionForUnit: u.Conv, PageSize: gopdf.Rect{W: 500 / k, H: defH / k}}
		protect := c.Chance(25, "protect")
		if protect {
			cfg.Protection = gopdf.PDFProtectionConfig{UseProtection: true, UserPass: []byte("u"), OwnerPass: []byte("o")}
		}
		p := new(gopdf.GoPdf)
		p.Start(cfg)
		p.AddPage()
		heights := []float64{defH}
		cur, y, size := 0, 10.0, 0.0
		var links []navLink
		anchors := map[string]navAnchor{}
		var tops []*navNode
		nested, toAnchor := 0, 0
		name := func() string {
			if c.Chance(4, "long name") {
				// names that differ only at their end
				return strings.Repeat("section ", 10+10*c.U(4, "long")) + c.Pick("end", "1", "2")
			}
			return c.Pick("name", "a", "b", "ä b", "(", "", "A", "a ", "a\x00", "a\u0301", "\u00e1")
		}
		sync := func() { y = p.GetY() * k }
		newEntry := func() *navNode {
			n := &navNode{title: c.unicode(5, "title"), page: cur, y: -1}
			if c.Chance(70, "pos") {
				n.y = y
				n.obj = p.AddOutlineWithPosition(n.title)
			} else {
				p.AddOutline(n.title)
			}
			c.Log("outline %q page %d y %g", n.title, cur+1, n.y)
			return n
		}
		posEntry := func() *navNode {
			n := &navNode{title: c.unicode(5, "title"), page: cur, y: y}
			n.obj = p.AddOutlineWithPosition(n.title)
			c.Log("outline %q page %d y %g", n.title, cur+1, n.y)
			return n
		}
		n := c.count(4, 30, 100, "n")
		for i := 0; i < n; i++ {
			switch c.U(13, "op") {
			case 0:
				if c.Bool("def") {
					p.AddPage()
					heights = append(heights, defH)
				} else {
					h := c.F(100, 900, "ph")
					addPageOf(p, 300/k, h/k)
					heights = append(heights, h)
				}
				cur = len(heights) - 1
				sync()
				c.Log("page %d of %g", cur+1, heights[cur])
			case 1:
				cur = c.U(len(heights), "page")
				if err := p.SetPage(cur + 1); err != nil {
					c.Bad("SetPage: %v", err)
				}
				c.Log("SetPage(%d)", cur+1)
			case 2:
				y = c.F(0, 800, "y")
				p.SetXY(c.F(0, 300, "x")/k, y/k)
				c.Log("y=%g", y)
			case 3:
				// objects in between
				switch c.U(3, "draw") {
				case 0:
					p.Line(1/k, 2/k, 3/k, 4/k)
				case 1:
					if err := p.AddTTFFontData(c.word(3, "fam"), stdFonts()[1].data); err != nil {
						c.Bad("font: %v", err)
					}
				case 2:
					if err := p.Image(stdImages()[3].path, 1/k, 2/k, nil); err != nil {
						c.Bad("Image: %v", err)
					}
				}
			case 4:
				if size == 0 {
					if err := p.AddTTFFontData("nav", stdFonts()[0].data); err != nil {
						c.Bad("font: %v", err)
					}
				}
				size = float64(4 + c.U(40, "size"))
				if err := p.SetFont("nav", "", size); err != nil {
					c.Bad("SetFont: %v", err)
				}
			case 5, 6, 7:
				if c.Chance(1, "index") {
					// a page of an index
					for j := 10 + c.U(150, "entries"); j > 0; j-- {
						l := navLink{page: cur, x: float64(j), y: 3, w: 7, h: 5}
						if j%3 == 0 {
							l.url = fmt.Sprint("u", j)
							p.AddExternalLink(l.url, l.x/k, l.y/k, l.w/k, l.h/k)
						} else {
							l.internal, l.anchor = true, "a"
							p.AddInternalLink(l.anchor, l.x/k, l.y/k, l.w/k, l.h/k)
						}
						links = append(links, l)
					}
					c.Log("index of links")
				}
				l := navLink{page: cur, x: c.F(0, 400, "x"), y: c.F(0, 800, "ly"), w: c.F(0, 90, "w"), h: c.F(0, 90, "lh")}
				if c.Bool("external") {
					l.url = c.address()
					p.AddExternalLink(l.url, l.x/k, l.y/k, l.w/k, l.h/k)
				} else {
					l.internal, l.anchor = true, name()
					p.AddInternalLink(l.anchor, l.x/k, l.y/k, l.w/k, l.h/k)
				}
				c.Log("link %+v", l)
				links = append(links, l)
			case 8, 9:
				if c.Chance(1, "many anchors") {
					for j := 10 + c.U(150, "anchors"); j > 0; j-- {
						nm := fmt.Sprint("s", j)
						anchors[nm] = navAnchor{cur, y, size}
						p.SetAnchor(nm)
						l := navLink{page: cur, x: float64(j), y: 9, w: 7, h: 5, internal: true, anchor: nm}
						p.AddInternalLink(l.anchor, l.x/k, l.y/k, l.w/k, l.h/k)
						links = append(links, l)
					}
					c.Log("many anchors with links to them")
				}
				nm := name()
				anchors[nm] = navAnchor{cur, y, size}
				p.SetAnchor(nm)
				c.Log("anchor %q page %d y %g", nm, cur+1, y)
			case 10, 11:
				if c.Chance(1, "toc") {
					for j := 10 + c.U(150, "entries"); j > 0; j-- {
						n := &navNode{title: fmt.Sprint("t", j), page: cur, y: y}
						n.obj = p.AddOutlineWithPosition(n.title)
						tops = append(tops, n)
					}
					c.Log("table of contents")
				}
				tops = append(tops, newEntry())
			case 12:
				// a tree: built in order, or put together afterwards
				switch c.U(4, "tree") {
				case 0, 1:
					var build func(depth int) *navNode
					build = func(depth int) *navNode {
						m := posEntry()
						for j := c.U(3, "kids"); j > 0 && depth < 4; j-- {
							m.kids = append(m.kids, build(depth+1))
							nested++
						}
						return m
					}
					var forest []*navNode
					for j := 1 + c.U(2, "trees"); j > 0; j-- {
						forest = append(forest, build(0))
					}
					nodes := toNodes(forest)
					if c.Bool("each") {
						for _, nd := range nodes {
							nd.Parse()
						}
					} else {
						nodes.Parse()
						if c.Bool("twice") {
							nodes.Parse()
						}
					}
					tops = append(tops, forest...)
					c.Log("tree of %d", len(forest))
				case 2:
					// all entries there are become children of a new one, if they can
					ok := len(tops) > 0
					for _, m := range tops {
						ok = ok && m.obj != nil
					}
					if !ok {
						break
					}
					m := posEntry()
					m.kids = tops
					if c.Bool("reverse") {
						m.kids = nil
						for j := len(tops) - 1; j >= 0; j-- {
							m.kids = append(m.kids, tops[j])
						}
					}
					nested += len(m.kids)
					tops = []*navNode{m}
					toNodes(tops).Parse()
					c.Log("all below %q", m.title)
				case 3:
					// the last entry becomes a child of the one before it
					if q := len(tops); q >= 2 && tops[q-1].obj != nil && tops[q-2].obj != nil {
						tops[q-2].kids = append(tops[q-2].kids, tops[q-1])
						tops = tops[:q-1]
						nested++
						toNodes(tops[q-2:]).Parse()
						c.Log("last entry moved below")
					}
				}
			}
		}
		if c.Chance(30, "twice") {
			output(c, p)
		}
		b := output(c, p)
		var d *pdf.Doc
		d, pages := parse(c, b)
		if protect {
			d = decrypted(c, b, []byte("u"))
			var probs []string
			if pages, probs = d.Pages(); len(probs) > 0 {
				c.Bad("the output is not valid: %v", probs)
			}
		}
		if len(pages) != len(heights) {
			c.Bad("%d pages", len(pages))
		}
		at := map[int]int{}
		for i, pg := range pages {
			at[pg.Num] = i
		}
		// dest checks that a destination is a page at a height
		dest := func(what string, o any, page int, lo, hi float64) {
			c.Helper()
			a, ok := d.Arr(o)
			if !ok || len(a) < 2 {
				c.Bad("%s has no destination: %v", what, o)
			}
			r, ok := a[0].(pdf.Ref)
			if i, known := at[r.Num]; !ok || !known || i != page {
				c.Bad("%s leads to %v (page %d), expected is page %d", what, a[0], i+1, page+1)
			}
			if math.IsNaN(lo) {
				return
			}
			if d.NameOf(a[1]) != "XYZ" || len(a) < 4 {
				c.Bad("%s has the destination %v", what, a)
			}
			top, ok := d.Num(a[3])
			if !ok || top < lo-0.006 || top > hi+0.006 {
				c.Bad("%s leads to height %v, expected is %g-%g", what, a[3], lo, hi)
			}
		}
		for i, pg := range pages {
			as, _ := d.Arr(pg.Dict.Get("Annots"))
			var want []navLink
			for _, l := range links {
				if l.page == i {
					want = append(want, l)
				}
			}
			if len(as) != len(want) {
				c.Bad("page %d has %d annotations, %d links were added", i+1, len(as), len(want))
			}
			for j, l := range want {
				a := d.Dict(as[j])
				if a == nil || d.NameOf(a.Get("Subtype")) != "Link" {
					c.Bad("page %d: annotation %d is no link", i+1, j)
				}
				r, ok := d.Nums(a.Get("Rect"))
				if !ok || len(r) != 4 {
					c.Bad("page %d: link %d has the rectangle %v", i+1, j, a.Get("Rect"))
				}
				x0, x1 := math.Min(r[0], r[2]), math.Max(r[0], r[2])
				y0, y1 := math.Min(r[1], r[3]), math.Max(r[1], r[3])
				for q, e := range [4]float64{x0 - l.x, x1 - (l.x + l.w), y1 - (heights[i] - l.y), y0 - (heights[i] - l.y - l.h)} {
					if math.Abs(e) > 0.0101 {
						c.Bad("page %d: link %d has the rectangle %v, side %d is off by %g (%+v)", i+1, j, r, q, e, l)
					}
				}
				if !l.internal {
					act := d.Dict(a.Get("A"))
					if act == nil || d.NameOf(act.Get("S")) != "URI" || a.Has("Dest") {
						c.Bad("page %d: link %d does not lead to %q", i+1, j, l.url)
					}
					if s, ok := d.Resolve(act.Get("URI")).(pdf.Str); !ok || string(s) != l.url {
						c.Bad("page %d: link %d leads to %q instead of %q", i+1, j, s, l.url)
					}
					continue
				}
				if a.Has("A") {
					c.Bad("page %d: internal link %d has an action", i+1, j)
				}
				an, ok := anchors[l.anchor]
				if !ok {
					if a.Has("Dest") {
						c.Bad("page %d: link %d to an anchor never set has the destination %v", i+1, j, a.Get("Dest"))
					}
					continue
				}
				toAnchor++
				dest("internal link", a.Get("Dest"), an.page, heights[an.page]-an.y, heights[an.page]-an.y+an.sz)
			}
		}
		items, probs := d.Outlines()
		if len(probs) > 0 {
			c.Bad("%v", probs)
		}
		var cmp func(got []*pdf.OutlineItem, want []*navNode, path string)
		cmp = func(got []*pdf.OutlineItem, want []*navNode, path string) {
			if len(got) != len(want) {
				c.Bad("the outline has %d entries below %q, expected are %d", len(got), path, len(want))
			}
			for i, w := range want {
				g := got[i]
				s, _ := d.Resolve(g.Dict.Get("Title")).(pdf.Str)
				ti, err := pdf.TextString(s)
				if err != nil || ti != w.title {
					c.Bad("outline entry %d below %q is %q (%v) instead of %q", i, path, ti, err, w.title)
				}
				if w.y < 0 {
					dest("outline entry "+w.title, g.Dict.Get("Dest"), w.page, math.NaN(), 0)
				} else {
					dest("outline entry "+w.title, g.Dict.Get("Dest"), w.page, heights[w.page]-w.y, heights[w.page]-w.y+20)
				}
				cmp(g.Kids, w.kids, path+"/"+w.title)
			}
		}
		cmp(items, tops, "")
		if len(heights) >= 2 && (toAnchor >= 2 || nested > 0) {
			c.Nontrivial()
		}
	})
}

func toNodes(l []*navNode) (out gopdf.OutlineNodes) {
	for _, n := range l {
		out = append(out, &gopdf.OutlineNode{Obj: n.obj, Children: toNodes(n.kids)})
	}
	return
}
