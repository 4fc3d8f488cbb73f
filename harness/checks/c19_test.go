package checks

import (
	"fmt"
	"testing"

	"github.com/signintech/gopdf"
)

// slot is a placeholder: the scene when it was created.
type slot struct {
	s      scene
	ng, np int // glyphs and paths expected before it
	w      float64
	text   string
	align  int
}

// freeze copies the state a text drawn now would have.
func (s *scene) freeze() scene {
	t := *s
	t.pages = append([]*spage(nil), s.pages...)
	pg := *s.pg()
	t.pages[t.page] = &pg
	t.glyphs, t.paths = nil, nil
	return t
}

// TestC19_Placeholders creates and fills placeholders among other drawing.
func TestC19_Placeholders(t *testing.T) {
	Run(t, Opt{Quick: 30000, Thorough: 2000000, Rule: "at least 2 placeholders and 2 fills of an existing name"}, func(c *Case) {
		s := newScene(c, genUnit(c, "unit"))
		s.addPage(0, 0)
		s.genFonts(1 + c.U(3, "nfonts"))
		s.setFont(s.fonts[0], 12, false)
		var slots []*slot
		names := map[string][]*slot{}
		fills := 0
		name := func() string { return c.Pick("name", "a", "b", "", "c é") }
		n := c.count(3, 25, 100, "n")
		for i := 0; i < n; i++ {
			if c.Chance(1, "bulk") {
				// content that is much longer
				m := 100 + c.U(1000, "bulklen")
				c.Log("%d times SetLineType", m)
				for ; m > 0; m-- {
					s.p.SetLineType("solid")
				}
			}
			switch c.U(10, "do") {
			case 0, 1, 2, 3, 4:
				s.textOp()
			case 5, 6:
				nm := name()
				sl := &slot{s: s.freeze(), ng: len(s.glyphs), np: len(s.paths), w: c.F(0, 150, "w")}
				c.Log("placeholder %q of %g at (%g,%g) page %d", nm, sl.w, s.x, s.y, s.page+1)
				s.ok(s.p.PlaceHolderText(nm, sl.w/s.k), "PlaceHolderText")
				slots = append(slots, sl)
				names[nm] = append(names[nm], sl)
				s.x += sl.w
				s.checkPos("PlaceHolderText", 1e-9)
			case 7, 8, 9:
				nm := name()
				text := c.text(9, "t")
				if c.Chance(15, "missing") {
					text = c.anyText(s.f, 5, "any")
				}
				align := pick(c, "align", []int{gopdf.Left, gopdf.Right, gopdf.Center, 0})
				err := s.p.FillInPlaceHoldText(nm, text, align)
				c.Log("fill %q with %q align %d: %v", nm, text, align, err)
				if (err != nil) != (len(names[nm]) == 0) {
					c.Bad("filling %d placeholders named %q: %v", len(names[nm]), nm, err)
				}
				for _, sl := range names[nm] {
					sl.text, sl.align = text, align
					fills++
				}
				s.checkPos("FillInPlaceHoldText", 0)
			}
		}
		// what was put into the placeholders belongs where they were created
		var glyphs []eglyph
		var paths []epath
		ng, np := 0, 0
		for i, sl := range slots {
			glyphs = append(glyphs, s.glyphs[ng:sl.ng]...)
			paths = append(paths, s.paths[np:sl.np]...)
			ng, np = sl.ng, sl.np
			if sl.text == "" {
				continue
			}
			q := &sl.s
			gs := q.f.shape(sl.text)
			w := q.f.width(gs, q.size, q.tc)
			x := q.x
			switch sl.align {
			case gopdf.Right:
				x += sl.w - w
			case gopdf.Center:
				x += (sl.w - w) / 2
			}
			descr := fmt.Sprintf("placeholder %d %q", i, sl.text)
			q.show(gs, x, q.y, 0, q.tol(len(gs)), descr)
			q.underline(x, q.y, w, gopdf.CellOption{}, q.tol(len(gs)), descr)
			glyphs = append(glyphs, q.glyphs...)
			paths = append(paths, q.paths...)
		}
		s.glyphs = append(glyphs, s.glyphs[ng:]...)
		s.paths = append(paths, s.paths[np:]...)
		s.check()
		if len(slots) >= 2 && fills >= 2 {
			c.Nontrivial()
		}
	})
}
