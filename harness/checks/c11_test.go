package checks

import (
	"bytes"
	"fmt"
	"image/jpeg"
	"os"
	"testing"

	"github.com/signintech/gopdf"

	"verif/imgs"
	"verif/pdf"
)

// twin gives a picture that differs little from another one.
func twin(c *Case, p *picture) *picture {
	switch {
	case p.im != nil:
		im := testImageOf(c, "twin", p.w, p.h)
		return &picture{im: im, w: p.w, h: p.h, at: nrgba(im), descr: fmt.Sprintf("%T (twin)", im)}
	default:
		q := &imgs.PNG{W: p.w, H: p.h, CT: 2, Depth: 8, Samples: noise(3*p.w*p.h, 255, 99)}
		q.Samples[len(q.Samples)-1] = c.U(256, "last")
		return pngPicture(q, "PNG twin")
	}
}

// TestC11_Pixels draws pictures of every kind by every entry point, some
// several times, on several pages, and compares the embedded pictures.
func TestC11_Pixels(t *testing.T) {
	Run(t, Opt{Quick: 20000, Thorough: 2000000, Rule: "at least two different pictures, one drawn twice"}, func(c *Case) {
		u := genUnit(c, "unit")
		v := newCanvas(c, u)
		v.addPage(0, 0)
		var pics []*picture
		for i, n := 0, c.count(1, 4, 40, "npic"); i < n; i++ {
			p := genPicture(c, "pic")
			c.Log("picture %d: %s", i, p.descr)
			pics = append(pics, p)
			if c.Chance(30, "twin") {
				pics = append(pics, twin(c, p))
			}
		}
		type use struct {
			it  *item
			key string
		}
		var uses []use
		keys := map[string]int{}
		for n := c.count(1, 12, 4, "n") * (1 + len(pics)/20); n > 0; n-- {
			if c.Chance(15, "page") {
				if len(v.pages) < 3 && c.Bool("new") {
					v.addPage(0, 0)
				} else {
					v.selectPage(c.U(len(v.pages), "sel"))
				}
			}
			i := c.U(len(pics), "which")
			p := pics[i]
			x, y := c.F(0, 300, "x"), c.F(0, 300, "y")
			pl := placing{x: x, y: y, w: natural(p.w), h: natural(p.h)}
			var r *gopdf.Rect
			if p.w < 2 || p.h < 2 || c.Bool("rect") {
				pl.w, pl.h = c.F(1, 200, "w"), c.F(1, 200, "h")
				r = &gopdf.Rect{W: pl.w / v.k, H: pl.h / v.k}
			}
			var err error
			entries := []string{"holder", "options", "path"}
			if p.im != nil {
				entries = append(entries, "from", "png", "jpeg", "from")
			}
			e := pick(c, "how", entries)
			key := ""
			how := e
			own := false
			switch e {
			case "holder", "options":
				h, src := v.holder(p, "holder")
				own = src == "own"
				how += " by " + src
				if e == "holder" {
					err = v.p.ImageByHolder(h, x/v.k, y/v.k, r)
				} else {
					err = v.p.ImageByHolderWithOptions(h, gopdf.ImageOptions{X: x / v.k, Y: y / v.k, Rect: r})
				}
				v.hold(p, h, src)
			case "path":
				f := p.path(c, "path")
				err = v.p.Image(f, x/v.k, y/v.k, r)
				if c.Chance(30, "rm") {
					os.WriteFile(f, []byte("gone"), 0o644)
				}
			case "from":
				err = v.p.ImageFrom(p.im, x/v.k, y/v.k, r)
			default:
				err = v.p.ImageFromWithOption(p.im, gopdf.ImageFromOption{Format: e, X: x / v.k, Y: y / v.k, Rect: r})
				if e == "jpeg" {
					var b bytes.Buffer
					jpeg.Encode(&b, p.im, nil)
					p = jpegPicture(b.Bytes(), p.descr+" as JPEG")
				}
			}
			descr := fmt.Sprintf("picture %d (%s) at (%g,%g) %gx%g rect %v", i, how, x, y, pl.w, pl.h, r != nil)
			if err != nil {
				c.Bad("%s: %s is rejected: %v", descr, p.descr, err)
			}
			p.file(c)
			key = p.key
			if own {
				key = "own:" + key
			}
			keys[key]++
			uses = append(uses, use{v.image(p, pl, descr), key})
		}
		d, pages := v.check()
		// one object for one picture
		objs := map[string]pdf.Ref{}
		back := map[pdf.Ref]string{}
		at := make([]int, len(pages))
		smasks := 0
		for _, us := range uses {
			pg := us.it.page
			m := pages[pg].Marks[at[pg]]
			at[pg]++
			ref, ok := m.XObj.(pdf.Ref)
			if !ok {
				c.Bad("%s: the image is not an indirect object", us.it.descr)
			}
			if o, ok := objs[us.key]; ok && o != ref {
				c.Bad("%s: the same picture is embedded twice (objects %v and %v)", us.it.descr, o, ref)
			}
			if k, ok := back[ref]; ok && k != us.key {
				c.Bad("%s: two pictures share the object %v", us.it.descr, ref)
			}
			if _, ok := objs[us.key]; !ok {
				if d.Stream(ref).Dict.Has("SMask") {
					smasks++
				}
			}
			objs[us.key], back[ref] = ref, us.key
		}
		n := 0
		for _, o := range d.Objs {
			if st, ok := o.(*pdf.Stream); ok && d.NameOf(st.Dict.Get("Subtype")) == "Image" {
				n++
			}
		}
		if n != len(objs)+smasks {
			c.Bad("%d image objects for %d pictures with %d soft masks", n, len(objs), smasks)
		}
		twice := false
		for _, k := range keys {
			twice = twice || k > 1
		}
		for _, us := range uses {
			c.Class(us.it.descr[:0] + kindOf(us.it.im))
		}
		if len(keys) > 1 && twice {
			c.Nontrivial()
		}
	})
}

func kindOf(p *picture) string {
	var a, b string
	fmt.Sscan(p.descr, &a, &b)
	switch a {
	case "PNG":
		var w, t, d string
		fmt.Sscan(p.descr, &a, &w, &b, &t, &b, &d)
		return "PNG type " + t + " depth " + d
	case "JPEG", "GIF":
		return a
	}
	return "decoded " + a
}
