package checks

import (
	"errors"
	"fmt"
	"testing"

	"github.com/signintech/gopdf"

	"verif/imgs"
	"verif/pdf"
)

// imgOpt is a set of image options and its meaning.
type imgOpt struct {
	pl   placing
	o    gopdf.ImageOptions
	rect bool
}

func (v *canvas) genPlacing(p *picture, l string, rotate bool) imgOpt {
	c := v.c
	a := imgOpt{pl: placing{x: v.coord(-20, 400, l+"x"), y: v.coord(-20, 600, l+"y"), w: natural(p.w), h: natural(p.h)}}
	a.o.X, a.o.Y = a.pl.x/v.k, a.pl.y/v.k
	if p.w < 2 || p.h < 2 || c.Chance(75, l+"rect") {
		a.rect = true
		a.pl.w, a.pl.h = v.coord(1, 300, l+"w"), v.coord(1, 300, l+"h")
		a.o.Rect = &gopdf.Rect{W: a.pl.w / v.k, H: a.pl.h / v.k}
	}
	if c.Chance(35, l+"crop") {
		// the window may be anywhere
		cr := [4]float64{v.coord(0, 100, l+"cx"), v.coord(0, 100, l+"cy"), v.coord(1, 150, l+"cw"), v.coord(1, 150, l+"ch")}
		a.pl.crop = &cr
		a.o.Crop = &gopdf.CropOptions{X: cr[0] / v.k, Y: cr[1] / v.k, Width: cr[2] / v.k, Height: cr[3] / v.k}
	}
	a.pl.hflip, a.pl.vflip = c.Chance(30, l+"hflip"), c.Chance(30, l+"vflip")
	a.o.HorizontalFlip, a.o.VerticalFlip = a.pl.hflip, a.pl.vflip
	if rotate && c.Chance(40, l+"rot") {
		a.pl.angle = v.angle()
		a.o.DegreeAngle = a.pl.angle
	}
	return a
}

func (a imgOpt) String() string {
	return fmt.Sprintf("at (%g,%g) %gx%g rect %v crop %v flip %v %v angle %g", a.pl.x, a.pl.y, a.pl.w, a.pl.h, a.rect, a.pl.crop, a.pl.hflip, a.pl.vflip, a.pl.angle)
}

// snapshot renders options with all they point to.
func snapshot(o *gopdf.ImageOptions) string {
	s := fmt.Sprintf("X=%v Y=%v angle=%v flip=%v,%v", o.X, o.Y, o.DegreeAngle, o.HorizontalFlip, o.VerticalFlip)
	if o.Rect != nil {
		s += fmt.Sprintf(" Rect=%p %v", o.Rect, *o.Rect)
	}
	if o.Crop != nil {
		s += fmt.Sprintf(" Crop=%p %v", o.Crop, *o.Crop)
	}
	if o.Transparency != nil {
		s += fmt.Sprintf(" Transparency=%p %v", o.Transparency, *o.Transparency)
	}
	if o.Mask != nil {
		s += fmt.Sprintf(" Mask=%p{%s}", o.Mask, snapshot(&o.Mask.ImageOptions))
		if o.Mask.BBox != nil {
			s += fmt.Sprint(*o.Mask.BBox)
		}
	}
	return s
}

func genMask(c *Case) (*picture, bool) {
	if c.Chance(15, "bad") {
		p := &imgs.PNG{W: 2 + c.U(6, "mw"), H: 2 + c.U(6, "mh"), CT: 2, Depth: 8}
		p.Samples = noise(p.W*p.H*3, 255, 1)
		return pngPicture(p, "PNG without alpha"), false
	}
	p := &imgs.PNG{W: 2 + c.U(8, "mw"), H: 2 + c.U(8, "mh"), CT: pick(c, "mct", []int{4, 6, 3}), Depth: 8, Filters: []byte{byte(c.U(5, "mf"))}}
	max := 255
	if p.CT == 3 {
		p.Pal = [][3]byte{{0, 0, 0}, {255, 255, 255}, {9, 200, 1}}
		p.HasTrns, p.Trns = true, []int{100, 30}
		max = 2
	}
	p.Samples = noise(p.W*p.H*p.Channels(), max, c.U(30, "mseed"))
	if p.CT == 3 {
		p.Samples[0] = 0
	}
	return pngPicture(p, fmt.Sprintf("mask PNG %dx%d type %d", p.W, p.H, p.CT)), true
}

// expectMask checks the soft mask an item is drawn through.
func (v *canvas) expectMask(it *item, im *picture, a imgOpt, bl blend) {
	ctm, base := it.gs.ctm, v.pg().gs.tol
	quad, window := v.place(a.pl, ctm)
	tol := base
	if a.pl.angle != 0 {
		tol += 0.03
	}
	it.masked = true
	page := v.page
	it.mask = func(c *Case, d *pdf.Doc, it *item, m *pdf.Mark, descr string) {
		c.Helper()
		sm, ok := m.GS.SMask.(*pdf.Dict)
		if !ok {
			c.Bad("%s: is not drawn through its mask", descr)
		}
		if d.NameOf(sm.Get("S")) != "Luminosity" && d.NameOf(sm.Get("S")) != "Alpha" {
			c.Bad("%s: soft mask of type %v", descr, sm.Get("S"))
		}
		st := d.Stream(sm.Get("G"))
		if st == nil {
			c.Bad("%s: the soft mask has no group", descr)
		}
		pages, _ := d.Pages()
		sub, bbox, probs := d.InterpretForm(st, pages[page].Res, m.GS.SMaskCTM, 1)
		if len(probs) > 0 {
			c.Bad("%s: mask group: %v", descr, probs)
		}
		if len(sub) != 1 || sub[0].Kind != "image" {
			c.Bad("%s: the mask group draws %d things", descr, len(sub))
		}
		g := sub[0].GS.CTM
		q := [3]pdf.Pt{g.Apply(pdf.Pt{}), g.Apply(pdf.Pt{X: 1}), g.Apply(pdf.Pt{Y: 1})}
		for i := range q {
			if !near(q[i].X, quad[i].X, tol) || !near(q[i].Y, quad[i].Y, tol) {
				c.Bad("%s: the corners of the mask are at %.3f instead of %.3f", descr, q, quad)
			}
		}
		var clips []eclip
		if window != nil {
			clips = []eclip{{window, tol}}
		}
		v.checkClips(clips, sub[0].GS.Clips, descr+", mask")
		v.checkBlend(&item{kind: "image", bl: bl}, &sub[0], descr+", mask")
		// the box of the group must not cut off what is on the page
		inv := inverse(m.GS.SMaskCTM)
		for i := 0; i <= 64; i++ {
			fx, fy := float64(i%8)/7, float64(i/8)/8
			pt := pdf.Pt{
				X: quad[0].X + fx*(quad[1].X-quad[0].X) + fy*(quad[2].X-quad[0].X),
				Y: quad[0].Y + fx*(quad[1].Y-quad[0].Y) + fy*(quad[2].Y-quad[0].Y),
			}
			if pt.X < 0 || pt.Y < 0 || pt.X > v.pages[page].w || pt.Y > v.pages[page].h {
				continue
			}
			l := inv.Apply(pt)
			if l.X < bbox[0]-0.1 || l.X > bbox[2]+0.1 || l.Y < bbox[1]-0.1 || l.Y > bbox[3]+0.1 {
				c.Bad("%s: %.2f on the page is outside of the box %v of the mask group", descr, l, bbox)
			}
		}
		mi, err := d.Image(d.Stream(sub[0].XObj))
		if err != nil {
			c.Bad("%s: mask image: %v", descr, err)
		}
		if mi.W != im.w || mi.H != im.h || mi.Space != "DeviceGray" || mi.BPC != 8 || mi.SMask != nil || mi.Mask != nil {
			c.Bad("%s: mask image %dx%d %s instead of %dx%d", descr, mi.W, mi.H, mi.Space, im.w, im.h)
		}
		for y := 0; y < im.h; y++ {
			for x := 0; x < im.w; x++ {
				if got, want := mi.Samples[y*im.w+x], int(im.at(x, y).A); got != want {
					c.Bad("%s: the mask lets %d through at (%d,%d) instead of %d", descr, got, x, y, want)
				}
			}
		}
	}
}

// drawImageOpt draws an image with options; it gives what it used of them.
func (v *canvas) drawImageOpt(pics, masks []*picture, good map[*picture]bool, tr bool) (used []string) {
	c := v.c
	p := pick(c, "pic", pics)
	a := v.genPlacing(p, "i", true)
	h, src := v.holder(p, "i")
	o := a.o
	var mk *picture
	var ma imgOpt
	var mh gopdf.ImageHolder
	var hsrc, msrc = src, ""
	bl, mbl := v.doc, opaque
	if tr && c.Chance(40, "tr") {
		t, b := genBlend(c, "itr")
		o.Transparency, bl = t, b
		used = append(used, "transparency")
	}
	if len(masks) > 0 && c.Chance(35, "mask") {
		mk = pick(c, "maskpic", masks)
		ma = v.genPlacing(mk, "m", false)
		mh, msrc = v.holder(mk, "m")
		if mk == p && c.Bool("same") {
			mh, msrc = h, "the same"
		}
		o.Mask = &gopdf.MaskOptions{ImageOptions: ma.o, Holder: mh}
		src += ", mask by " + msrc
		if tr && c.Chance(40, "mtr") {
			t, b := genBlend(c, "mtr")
			o.Mask.Transparency, mbl = t, b
		}
		used = append(used, "mask")
	}
	before := snapshot(&o)
	err := v.p.ImageByHolderWithOptions(h, o)
	descr := fmt.Sprintf("ImageByHolderWithOptions %s (%s) %v %v", p.descr, src, a, bl)
	if mk != nil {
		descr += fmt.Sprintf(" mask %s %v %v", mk.descr, ma, mbl)
	}
	if s := snapshot(&o); s != before {
		c.Bad("%s: changed the caller's options from %s to %s", descr, before, s)
	}
	// the caller uses the options for something else
	scramble(&o)
	if mk != nil && !good[mk] {
		if !errors.Is(err, gopdf.ErrMaskWithoutAlpha) {
			c.Bad("%s: %v instead of ErrMaskWithoutAlpha", descr, err)
		}
		c.Log("%s: rejected", descr)
		return nil
	}
	if err != nil {
		c.Bad("%s: %v", descr, err)
	}
	p.file(c)
	v.hold(p, h, hsrc)
	if mk != nil && mh != h {
		v.hold(mk, mh, msrc)
	}
	it := v.image(p, a.pl, descr)
	it.bl = bl
	if mk != nil {
		v.expectMask(it, mk, ma, mbl)
	}
	if a.pl.crop != nil {
		used = append(used, "crop")
	}
	if a.pl.hflip || a.pl.vflip {
		used = append(used, "flip")
	}
	if a.pl.angle != 0 {
		used = append(used, "rotation")
	}
	return used
}

func scramble(o *gopdf.ImageOptions) {
	if o.Rect != nil {
		*o.Rect = gopdf.Rect{W: 3, H: 4}
	}
	if o.Crop != nil {
		*o.Crop = gopdf.CropOptions{Width: 1}
	}
	if o.Transparency != nil {
		*o.Transparency = gopdf.Transparency{Alpha: 0.111, BlendModeType: gopdf.Darken}
	}
	if o.Mask != nil {
		scramble(&o.Mask.ImageOptions)
	}
}

// drawImageSimple uses the calls without options.
func (v *canvas) drawImageSimple(pics []*picture) {
	c := v.c
	p := pick(c, "pic", pics)
	a := v.genPlacing(&picture{w: p.w, h: p.h}, "s", false)
	a.pl.crop, a.pl.hflip, a.pl.vflip = nil, false, false
	r := a.o.Rect
	var was gopdf.Rect
	if r != nil {
		was = *r
	}
	var err error
	e := c.Pick("entry", "Image", "ImageByHolder", "ImageFrom")
	switch {
	case e == "ImageFrom" && p.im != nil:
		err = v.p.ImageFrom(p.im, a.o.X, a.o.Y, r)
	case e == "Image":
		err = v.p.Image(p.path(c, "p"), a.o.X, a.o.Y, r)
	default:
		h, src := v.holder(p, "h")
		err = v.p.ImageByHolder(h, a.o.X, a.o.Y, r)
		v.hold(p, h, src)
	}
	p.file(c)
	if err != nil {
		c.Bad("%s of %s: %v", e, p.descr, err)
	}
	if r != nil && *r != was {
		c.Bad("%s changed the caller's rectangle to %v", e, *r)
	}
	if r != nil {
		*r = gopdf.Rect{W: 1, H: 1}
	}
	v.image(p, a.pl, fmt.Sprintf("%s %s %v", e, p.descr, a))
}

// TestC12_Placing draws images with all options between other drawing.
func TestC12_Placing(t *testing.T) {
	Run(t, Opt{Quick: 20000, Thorough: 2000000, Rule: "at least 3 images with options, two kinds of options used together"}, func(c *Case) {
		u := genUnit(c, "unit")
		c.Log("unit %v", u)
		v := newCanvas(c, u)
		v.addPage(0, 0)
		if err := v.p.AddTTFFontData("f", stdFonts()[0].data); err != nil {
			c.Bad("font: %v", err)
		}
		if err := v.p.SetFont("f", "", 12); err != nil {
			c.Bad("font: %v", err)
		}
		var pics, masks []*picture
		good := map[*picture]bool{}
		for i, n := 0, c.count(1, 3, 20, "npic"); i < n; i++ {
			p := genPicture(c, "pic")
			c.Log("picture %s", p.descr)
			pics = append(pics, p)
		}
		for i, n := 0, c.count(0, 3, 20, "nmask"); i < n; i++ {
			p, ok := genMask(c)
			c.Log("mask %s", p.descr)
			masks = append(masks, p)
			good[p] = ok
			if ok && c.Chance(30, "both") {
				pics = append(pics, p) // the same file as a picture
			}
		}
		images, both := 0, false
		for n := c.count(3, 20, 120, "n"); n > 0; n-- {
			switch o := c.U(20, "op"); {
			case o < 9:
				used := v.drawImageOpt(pics, masks, good, false)
				images++
				both = both || len(used) > 1
				for _, s := range used {
					c.Class(s)
				}
			case o < 12:
				v.drawImageSimple(pics)
				images++
			case o < 14:
				v.shape()
			case o == 14:
				v.attribute()
			case o < 17:
				v.nesting()
			case o == 17:
				v.glyph()
			default:
				if len(v.pages) < 3 && c.Bool("add") {
					v.addPage(pick(c, "w", []float64{0, 300, 800}), 600)
				} else {
					v.selectPage(c.U(len(v.pages), "sel"))
				}
			}
		}
		v.check()
		if images >= 3 && both {
			c.Nontrivial()
		}
	})
}
