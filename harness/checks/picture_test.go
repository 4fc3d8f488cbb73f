package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"image/gif"
	"image/jpeg"
	"image/png"
	"io"
	"os"
	"path/filepath"
	"testing/iotest"

	"github.com/signintech/gopdf"

	"verif/imgs"
	"verif/pdf"
)

// picture is an image and what it must look like.
type picture struct {
	descr string
	key   string // equal for two pictures that are the same file
	data  []byte // the file, if it is one
	im    image.Image
	w, h  int
	at    func(x, y int) imgs.Pix
	jpeg  []byte // embedded as it is
	space string // of a JPEG
	cmyk  bool
	alpha bool // the file has an alpha channel of its own
}

func nrgba(im image.Image) func(x, y int) imgs.Pix {
	b := im.Bounds()
	return func(x, y int) imgs.Pix {
		c := color.NRGBAModel.Convert(im.At(b.Min.X+x, b.Min.Y+y)).(color.NRGBA)
		return imgs.Pix{R: c.R, G: c.G, B: c.B, A: c.A}
	}
}

// noise is a repeatable sequence of samples.
func noise(n, max, seed int) []int {
	out := make([]int, n)
	x := uint32(seed)*2654435761 + 12345
	for i := range out {
		x = x*1664525 + 1013904223
		out[i] = int(x>>16) % (max + 1)
	}
	return out
}

// tiny writes a JPEG of uniform blocks with n components.
func tinyJPEG(w, h, n int, adobe int, dc int) []byte {
	var b bytes.Buffer
	seg := func(m byte, data []byte) {
		b.Write([]byte{0xff, m})
		binary.Write(&b, binary.BigEndian, uint16(len(data)+2))
		b.Write(data)
	}
	b.Write([]byte{0xff, 0xd8})
	if adobe >= 0 {
		seg(0xee, append([]byte("Adobe\x00\x64\x00\x00\x00\x00"), byte(adobe)))
	}
	q := make([]byte, 65)
	for i := 1; i < 65; i++ {
		q[i] = 8
	}
	seg(0xdb, q)
	sof := []byte{8, byte(h >> 8), byte(h), byte(w >> 8), byte(w), byte(n)}
	sos := []byte{byte(n)}
	for i := 1; i <= n; i++ {
		sof = append(sof, byte(i), 0x11, 0)
		sos = append(sos, byte(i), 0)
	}
	seg(0xc0, sof)
	// DC: code 0 = no difference, 10 = category 5; AC: code 0 = end of block
	seg(0xc4, append([]byte{0x00, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, 0, 5))
	seg(0xc4, append([]byte{0x10, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, 0))
	seg(0xda, append(sos, 0, 63, 0))
	bits := ""
	blocks := ((w + 7) / 8) * ((h + 7) / 8)
	for i := 0; i < blocks; i++ {
		for j := 0; j < n; j++ {
			if i == 0 {
				bits += "10" + fmt.Sprintf("%05b", (dc+5*j)%32) + "0"
			} else {
				bits += "00"
			}
		}
	}
	for len(bits)%8 != 0 {
		bits += "1"
	}
	for i := 0; i < len(bits); i += 8 {
		v := byte(0)
		for _, r := range bits[i : i+8] {
			v = v<<1 | byte(r-'0')
		}
		b.WriteByte(v)
		if v == 0xff {
			b.WriteByte(0)
		}
	}
	b.Write([]byte{0xff, 0xd9})
	return b.Bytes()
}

func genPNG(c *Case, l string) (*imgs.PNG, string) {
	ct := pick(c, l+"ct", []int{0, 2, 3, 4, 6})
	d := 8
	if ct == 0 || ct == 3 {
		d = pick(c, l+"depth", []int{1, 2, 4, 8})
	}
	p := &imgs.PNG{W: 1 + c.U(12, l+"w"), H: 1 + c.U(10, l+"h"), CT: ct, Depth: d, Splits: 1 + c.U(3, l+"splits"), Extra: c.Bool(l + "extra"), EmptyAnc: c.Chance(20, l+"anc"), Empty: c.Chance(15, l+"empty"), Level: c.U(3, l+"lev")}
	if c.Chance(5, l+"big") {
		p.W, p.H = 100+c.U(200, l+"bw"), 60+c.U(90, l+"bh")
		if c.Chance(10, l+"strip") {
			// one long side
			p.W, p.H = 1+c.U(6000, l+"sw"), 1+c.U(3, l+"sh")
			if c.Bool(l + "tall") {
				p.W, p.H = p.H, p.W
			}
		}
	}
	nf := 1
	if c.Bool(l + "mixed") {
		nf = p.H
	}
	for i := 0; i < nf && i < 20; i++ {
		p.Filters = append(p.Filters, byte(c.U(5, l+"filter")))
	}
	max := 1<<d - 1
	seed := c.U(40, l+"seed")
	if ct == 3 {
		n := 1 + c.U(1<<d, l+"npal")
		v := noise(3*n, 255, seed+7)
		for i := 0; i < n; i++ {
			p.Pal = append(p.Pal, [3]byte{byte(v[3*i]), byte(v[3*i+1]), byte(v[3*i+2])})
		}
		max = n - 1
	}
	p.Samples = noise(p.W*p.H*p.Channels(), max, seed)
	if c.Chance(10, l+"trail") {
		p.Trail = pick(c, l+"trailing", [][]byte{{0}, []byte("\x00\x00\x00\x00IEND\xaeB`\x82"), []byte("\x00\x00\x00\x04IDAT\x01\x02\x03\x04\x00\x00\x00\x00"), bytes.Repeat([]byte("\xff"), 40)})
	}
	if ct == 2 || ct == 6 {
		if p.SugPal = c.Chance(10, l+"sug"); p.SugPal {
			p.Pal = [][3]byte{{1, 2, 3}, {99, 98, 97}}
		}
	}
	if ct != 4 && ct != 6 && c.Bool(l+"trns") {
		p.HasTrns = true
		switch ct {
		case 0:
			p.Trns = []int{p.Samples[c.U(len(p.Samples), l+"t")]}
		case 2:
			i := c.U(len(p.Samples)/3, l+"t")
			p.Trns = append([]int{}, p.Samples[3*i:3*i+3]...)
		case 3:
			n := 1 + c.U(len(p.Pal), l+"nt")
			if c.Bool(l + "sparse") {
				// a few colours out of many
				for i := 0; i < n; i++ {
					p.Trns = append(p.Trns, 255)
				}
				few := pick(c, l+"alpha", []int{0, 0, 0, 200})
				for i := 1 + c.U(3, l+"few"); i > 0; i-- {
					p.Trns[c.U(n, l+"index")] = few
				}
				break
			}
			for i := 0; i < n; i++ {
				p.Trns = append(p.Trns, pick(c, l+"ta", []int{255, 0, 128, 1, 254}))
			}
		}
	}
	return p, fmt.Sprintf("PNG %dx%d type %d depth %d seed %d trns %v %v pal %d filters %v", p.W, p.H, ct, d, seed, p.HasTrns, p.Trns, len(p.Pal), p.Filters)
}

// genPicture draws a picture; some are encoded files, some decoded images.
func genPicture(c *Case, l string) *picture {
	switch c.U(10, l+"kind") {
	case 0, 1, 2, 3:
		p, descr := genPNG(c, l)
		return pngPicture(p, descr)
	case 4:
		im := testImageOf(c, l, 1+c.U(30, l+"w"), 1+c.U(30, l+"h"))
		var b bytes.Buffer
		if err := jpeg.Encode(&b, im, &jpeg.Options{Quality: 20 + c.U(80, l+"q")}); err != nil {
			c.Harness("jpeg: %v", err)
		}
		return jpegPicture(b.Bytes(), fmt.Sprintf("JPEG of %T %v", im, im.Bounds()))
	case 5:
		n := pick(c, l+"n", []int{1, 3, 4, 4})
		adobe := pick(c, l+"adobe", []int{-1, 0, 2})
		if n == 4 {
			adobe = pick(c, l+"adobe4", []int{0, 2})
		} else if adobe != -1 && n == 3 {
			adobe = 1 // RGB data is refused
		} else {
			adobe = -1
		}
		w, h, dc := 1+c.U(40, l+"w"), 1+c.U(40, l+"h"), c.U(32, l+"dc")
		data, extra := tinyJPEG(w, h, n, adobe, dc), ""
		for c.Chance(25, l+"seg") && len(extra) < 3 {
			// segments that decoders pass over; some look like the start of a frame
			k := c.U(4, l+"which")
			extra += string(rune('a' + k))
			body := [][]byte{
				[]byte("Exif\x00\x00\xff\xc0\x00\x0b\x08\x00\x01\x00\x01\x01\x01\x11\x00"),
				[]byte("a comment"),
				append([]byte("ICC_PROFILE\x00\x01\x01"), make([]byte, 300)...),
				append([]byte("\xff\xd8\xff\xc0\x00\x11\x08\x00\x40\x00\x40\x03"), make([]byte, 9)...),
			}[k]
			m := []byte{0xe1, 0xfe, 0xe2, 0xe5}[k]
			seg := append([]byte{0xff, m, byte((len(body) + 2) >> 8), byte(len(body) + 2)}, body...)
			data = append(append(append([]byte{}, data[:2]...), seg...), data[2:]...)
		}
		if c.Chance(10, l+"trail") {
			extra += "+"
			data = append(data, "trailing \xff\xd8\xff\xc0"...)
		}
		return jpegPicture(data, fmt.Sprintf("JPEG %dx%d %d components Adobe %d dc %d %s", w, h, n, adobe, dc, extra))
	case 6:
		w, h := 1+c.U(20, l+"w"), 1+c.U(20, l+"h")
		flat := c.Chance(4, l+"flat") // many pixels in few bytes
		if flat {
			w, h = 1+c.U(300, l+"fw"), 1+c.U(300, l+"fh")
		}
		n := pick(c, l+"npal", []int{2, 3, 4, 16, 200, 256})
		seed := c.U(40, l+"seed")
		v := noise(3*n, 255, seed)
		var pal color.Palette
		for i := 0; i < n; i++ {
			pal = append(pal, color.RGBA{byte(v[3*i]), byte(v[3*i+1]), byte(v[3*i+2]), 255})
		}
		tr := c.Bool(l + "transp")
		if tr {
			pal[c.U(n, l+"tr")] = color.RGBA{}
		}
		im := image.NewPaletted(image.Rect(0, 0, w, h), pal)
		if !flat {
			for i, s := range noise(w*h, n-1, seed+1) {
				im.Pix[i] = byte(s)
			}
		}
		g := &gif.GIF{Image: []*image.Paletted{im}, Delay: []int{0}}
		if c.Bool(l + "global") {
			g.Config = image.Config{ColorModel: pal, Width: w, Height: h}
		}
		if c.Chance(20, l+"anim") {
			im2 := image.NewPaletted(im.Rect, pal)
			g.Image, g.Delay = append(g.Image, im2), append(g.Delay, 1)
		}
		var b bytes.Buffer
		if err := gif.EncodeAll(&b, g); err != nil {
			c.Harness("gif: %v", err)
		}
		if c.Bool(l + "comment") {
			data := commentGIF(c, b.Bytes())
			b = *bytes.NewBuffer(data)
		}
		p := &picture{descr: fmt.Sprintf("GIF %dx%d %d colours, transparent %v, seed %d, %d frames", w, h, n, tr, seed, len(g.Image)), data: b.Bytes(), w: w, h: h, at: nrgba(im)}
		p.key = string(p.data)
		return p
	default:
		im := testImageOf(c, l, 1+c.U(12, l+"w"), 1+c.U(12, l+"h"))
		p := &picture{im: im, w: im.Bounds().Dx(), h: im.Bounds().Dy(), at: nrgba(im), descr: fmt.Sprintf("%T %v %.6s", im, im.Bounds(), fmt.Sprint(nrgba(im)(0, 0)))}
		return p
	}
}

func pngPicture(p *imgs.PNG, descr string) *picture {
	out := &picture{descr: descr, data: p.Encode(), w: p.W, h: p.H, at: p.At, alpha: p.CT == 4 || p.CT == 6}
	out.key = string(out.data)
	return out
}

func jpegPicture(b []byte, descr string) *picture {
	cfg, err := jpeg.DecodeConfig(bytes.NewReader(b))
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	if _, err := jpeg.Decode(bytes.NewReader(b)); err != nil {
		panic("HARNESS: " + descr + ": " + err.Error())
	}
	p := &picture{descr: descr, data: b, jpeg: b, key: string(b), w: cfg.Width, h: cfg.Height}
	switch cfg.ColorModel {
	case color.GrayModel:
		p.space = "DeviceGray"
	case color.CMYKModel:
		p.space, p.cmyk = "DeviceCMYK", true
	default:
		p.space = "DeviceRGB"
	}
	return p
}

// otherImage hides the type of an image.
type otherImage struct{ im *image.NRGBA }

func (o otherImage) ColorModel() color.Model { return o.im.ColorModel() }
func (o otherImage) Bounds() image.Rectangle { return o.im.Bounds() }
func (o otherImage) At(x, y int) color.Color { return o.im.At(x, y) }

// testImageOf draws a decoded image of some colour model.
func testImageOf(c *Case, l string, w, h int) image.Image {
	off := image.Pt(0, 0)
	if c.Chance(25, l+"off") {
		off = image.Pt(3, -2)
	}
	r := image.Rect(0, 0, w, h).Add(off)
	v := noise(4*w*h, 255, c.U(40, l+"seed"))
	px := func(i int) color.NRGBA {
		return color.NRGBA{byte(v[4*i]), byte(v[4*i+1]), byte(v[4*i+2]), byte(v[4*i+3])}
	}
	fill := func(set func(x, y int, c color.Color)) {
		for i := 0; i < w*h; i++ {
			set(r.Min.X+i%w, r.Min.Y+i/w, px(i))
		}
	}
	switch c.U(12, l+"model") {
	case 9:
		im := image.NewNRGBA64(r)
		for i := range im.Pix {
			im.Pix[i] = byte(v[i%len(v)] + i)
		}
		return im
	case 10:
		im := image.NewGray16(r)
		for i := range im.Pix {
			im.Pix[i] = byte(v[i])
		}
		return im
	case 6:
		im := image.NewYCbCr(image.Rect(0, 0, w, h), pick(c, l+"sub", []image.YCbCrSubsampleRatio{image.YCbCrSubsampleRatio444, image.YCbCrSubsampleRatio420, image.YCbCrSubsampleRatio422}))
		for _, s := range [][]byte{im.Y, im.Cb, im.Cr} {
			for i := range s {
				s[i] = byte(v[i%len(v)] + i)
			}
		}
		return im
	case 7:
		im := image.NewNRGBA(r)
		fill(im.Set)
		return otherImage{im} // a type the library does not know
	case 8:
		im := image.NewAlpha(r)
		for i := range im.Pix {
			im.Pix[i] = byte(v[i])
		}
		return im
	case 0:
		im := image.NewNRGBA(r)
		fill(im.Set)
		return im
	case 1:
		im := image.NewRGBA(r)
		fill(im.Set)
		return im
	case 2:
		im := image.NewRGBA(r)
		fill(im.Set)
		for i := 3; i < len(im.Pix); i += 4 {
			im.Pix[i] = 255
		}
		return im
	case 3:
		im := image.NewGray(r)
		fill(im.Set)
		return im
	case 4:
		im := image.NewPaletted(r, color.Palette{color.NRGBA{1, 2, 3, 255}, color.NRGBA{200, 100, 0, 255}, color.NRGBA{0, 0, 0, 0}, color.NRGBA{9, 250, 99, 120}})
		for i := range im.Pix {
			im.Pix[i] = byte(v[i] % 4)
		}
		return im
	case 5:
		im := image.NewNRGBA(r.Inset(-2))
		for i := range im.Pix {
			im.Pix[i] = byte(i * 37)
		}
		fill(im.Set)
		return im.SubImage(r)
	default:
		im := image.NewCMYK(r)
		fill(im.Set)
		return im
	}
}

// check compares an image of the document with the picture.
func (p *picture) check(c *Case, d *pdf.Doc, xobj any, descr string, masked bool) {
	c.Helper()
	st := d.Stream(xobj)
	if st == nil {
		c.Bad("%s: no image object", descr)
	}
	im, err := d.Image(st)
	if err != nil {
		c.Bad("%s: %s: %v", descr, p.descr, err)
	}
	p.compare(c, im, descr, masked)
}

func (p *picture) compare(c *Case, im *pdf.Image, descr string, masked bool) {
	c.Helper()
	descr += " of " + p.descr
	if im.W != p.w || im.H != p.h {
		c.Bad("%s: the image object is %dx%d, the picture %dx%d", descr, im.W, im.H, p.w, p.h)
	}
	if p.jpeg != nil {
		if !bytes.Equal(im.JPEG, p.jpeg) {
			c.Bad("%s: the JPEG data (%d bytes) is not embedded unchanged (%d bytes)", descr, len(p.jpeg), len(im.JPEG))
		}
		if im.Space != p.space {
			c.Bad("%s: colour space %s instead of %s", descr, im.Space, p.space)
		}
		// CMYK data of Adobe is stored inverted
		for i := 0; i < len(im.Decode); i += 2 {
			if (im.Decode[i] == 1) != p.cmyk || im.Decode[i]+im.Decode[i+1] != 1 {
				c.Bad("%s: decode array %v", descr, im.Decode)
			}
		}
		if p.cmyk && len(im.Decode) == 0 {
			c.Bad("%s: the inverted colours are not decoded", descr)
		}
		if im.SMask != nil || im.Mask != nil {
			c.Bad("%s: a JPEG has a mask", descr)
		}
		return
	}
	if im.Samples == nil {
		c.Bad("%s: no samples", descr)
	}
	if masked && (im.SMask != nil || im.Mask != nil) {
		c.Bad("%s: has a mask of its own next to that of the call", descr)
	}
	at, err := pixels(im)
	if err != nil {
		c.Bad("%s: %v", descr, err)
	}
	for y := 0; y < p.h; y++ {
		for x := 0; x < p.w; x++ {
			got, want := at(x, y), p.at(x, y)
			if masked {
				got.A = want.A
			}
			if got != want && (got.A != 0 || want.A != 0) {
				c.Bad("%s: pixel (%d,%d) is %v instead of %v", descr, x, y, got, want)
			}
		}
	}
}

// pixels gives the colours a decoded image object shows.
func pixels(im *pdf.Image) (func(x, y int) imgs.Pix, error) {
	if im.Decode != nil {
		return nil, fmt.Errorf("unexpected /Decode %v", im.Decode)
	}
	max := 1<<im.BPC - 1
	if im.SMask != nil && (im.SMask.W != im.W || im.SMask.H != im.H || im.SMask.BPC != 8) {
		return nil, fmt.Errorf("soft mask of %dx%d with %d bits for an image of %dx%d", im.SMask.W, im.SMask.H, im.SMask.BPC, im.W, im.H)
	}
	return func(x, y int) (p imgs.Pix) {
		s := im.Samples[(y*im.W+x)*im.N:][:im.N]
		v := func(i int) byte { return byte((s[i]*255 + max/2) / max) }
		switch im.Space {
		case "DeviceGray":
			p = imgs.Pix{R: v(0), G: v(0), B: v(0), A: 255}
		case "DeviceRGB":
			p = imgs.Pix{R: v(0), G: v(1), B: v(2), A: 255}
		case "Indexed":
			q := im.Palette[3*s[0]:]
			p = imgs.Pix{R: q[0], G: q[1], B: q[2], A: 255}
		}
		if im.SMask != nil {
			p.A = byte(im.SMask.Samples[y*im.W+x])
		} else if im.Mask != nil {
			in := true
			for i := range s {
				if s[i] < im.Mask[2*i] || s[i] > im.Mask[2*i+1] {
					in = false
				}
			}
			if in {
				p.A = 0
			}
		}
		return
	}, nil
}

// holder gives the picture to the library by one of its entry points.
func (p *picture) holder(c *Case, l string) (gopdf.ImageHolder, string) {
	var h gopdf.ImageHolder
	var err error
	data := append([]byte{}, p.file(c)...)
	e := c.Pick(l+"entry", "bytes", "path", "reader", "slow", "own")
	switch e {
	case "bytes":
		h, err = gopdf.ImageHolderByBytes(data)
	case "path":
		h, err = gopdf.ImageHolderByPath(p.path(c, l))
	case "reader":
		h, err = gopdf.ImageHolderByReader(bytes.NewReader(data))
	case "slow":
		h, err = gopdf.ImageHolderByReader(iotest.DataErrReader(iotest.HalfReader(bytes.NewReader(data))))
	default:
		h = &ownHolder{p.key, bytes.NewReader(data)}
	}
	if err != nil {
		c.Bad("image holder by %s: %v", e, err)
	}
	if e != "own" {
		for i := range data {
			data[i] = 0x55 // the caller uses it for something else
		}
	}
	return h, e
}

// ownHolder is an image holder of the user.
type ownHolder struct {
	id string
	io.Reader
}

func (h *ownHolder) ID() string { return "own:" + h.id }

// file gives the encoded picture.
func (p *picture) file(c *Case) []byte {
	if p.data == nil {
		var b bytes.Buffer
		im := p.im
		switch im.(type) {
		case *image.YCbCr, *image.CMYK, *image.Gray16, *image.RGBA64, *image.NRGBA64, *image.Alpha16:
			// their PNG would have 16 bits
			to := image.NewNRGBA(im.Bounds())
			draw.Draw(to, to.Bounds(), im, im.Bounds().Min, draw.Src)
			im = to
		}
		if err := png.Encode(&b, im); err != nil {
			c.Harness("png: %v", err)
		}
		p.data = b.Bytes()
		p.key = string(p.data)
	}
	return p.data
}

// path writes the picture to one of a few files, over what was there.
func (p *picture) path(c *Case, l string) string {
	f := filepath.Join(imgDir(), c.Pick(l+"file", "a", "b", "c.png", "d.jpg"))
	if err := os.WriteFile(f, p.file(c), 0o644); err != nil {
		c.Harness("%v", err)
	}
	return f
}

func natural(px int) float64 { return float64(px * 72 / 128) }
