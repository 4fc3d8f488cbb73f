package checks

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"image"
	"image/color"
	"image/gif"
	"io"
	"os"
	"path/filepath"
	"runtime/metrics"
	"testing"
	"testing/iotest"
	"time"

	"github.com/signintech/gopdf"

	"verif/imgs"
	"verif/pdf"
	"verif/ttf"
)

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// bounded runs f, which handles n bytes of input, and checks what it costs.
func bounded(c *Case, what string, n int, f func()) {
	c.Helper()
	a, t := allocated(), time.Now()
	f()
	if d := allocated() - a; d > 64<<20+uint64(n)*5000 {
		c.Bad("%s: %d MB were allocated for %d bytes of input", what, d>>20, n)
	}
	if d := time.Since(t); d > 20*time.Second {
		c.Bad("%s: took %v for %d bytes of input", what, d, n)
	}
}

// mutate changes a few places of data, often among the hot ones.
func mutate(c *Case, data []byte, hot []int) []byte {
	b := append([]byte(nil), data...)
	for i, n := 0, 1+c.U(4, "nmut"); i < n && len(b) > 0; i++ {
		at := rapidInt(c, len(b)-1, "at")
		if len(hot) > 0 && c.Chance(70, "hot") {
			if at = hot[c.U(len(hot), "hotat")]; at >= len(b) {
				at = len(b) - 1
			}
		}
		switch k := c.U(10, "mut"); k {
		case 0:
			b[at] ^= 1 << c.U(8, "bit")
			c.Log("flip at %d", at)
		case 1, 2:
			v := pick(c, "b", []byte{0, 1, 2, 0x7f, 0x80, 0xff, 0xfe, 3, 4, 8, 0x10, 0x40})
			b[at] = v
			c.Log("byte %d = %d", at, v)
		case 3, 4, 5:
			v := pick(c, "u16", []uint16{0, 1, 2, 0x7fff, 0x8000, 0xffff, 0xfffe, 100, 1000, 0x100, 3, 0x7ffe})
			if c.Chance(30, "rnd") {
				v = uint16(c.U(65536, "v16"))
			}
			if at+2 <= len(b) {
				binary.BigEndian.PutUint16(b[at:], v)
				c.Log("u16 %d = %d", at, v)
			}
		case 6:
			v := pick(c, "u32", []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x10000, 0xfffffffe, 0x00ffffff, uint32(len(b)), uint32(len(b) - 1), uint32(at)})
			if at+4 <= len(b) {
				binary.BigEndian.PutUint32(b[at:], v)
				c.Log("u32 %d = %d", at, v)
			}
		case 7:
			b = b[:at]
			c.Log("cut at %d", at)
		case 8:
			e := at + 1 + c.U(40, "len")
			if e > len(b) {
				e = len(b)
			}
			b = append(b[:at:at], b[e:]...)
			c.Log("delete %d-%d", at, e)
		case 9:
			e := at + 1 + c.U(40, "len")
			if e > len(b) {
				e = len(b)
			}
			b = append(b[:e:e], b[at:]...)
			c.Log("double %d-%d", at, e)
		}
	}
	return b
}

// fontHot lists the interesting places of a font: the directory and the
// beginnings of the tables.
func fontHot(f *ttf.Font, only string) []int {
	var hot []int
	if only == "" {
		for i := 4; i < 12+16*len(f.Order); i++ {
			hot = append(hot, i)
		}
	}
	for _, t := range f.Order {
		if only != "" && t != only {
			continue
		}
		x := f.Tables[t]
		n := 64
		if only != "" {
			n = 600
		}
		for i := 0; i < x.Len && i < n; i++ {
			hot = append(hot, x.Off+i)
		}
	}
	return hot
}

type badFont struct {
	data []byte
	how  string
}

func genBadFont(c *Case) badFont {
	switch c.U(12, "fontkind") {
	case 0:
		b := make([]byte, c.U(300, "n"))
		for i := range b {
			b[i] = byte(c.U(256, "byte"))
		}
		return badFont{b, "random bytes"}
	case 1:
		// nested and cyclic composite glyphs
		s := specOf(c)
		for i, n := 0, 1+c.U(6, "ncyc"); i < n; i++ {
			g := 1 + c.U(len(s.Glyphs)-1, "g")
			s.Glyphs[g].Points = nil
			s.Glyphs[g].Comps = nil
			for j, m := 0, 1+c.U(3, "ncomp"); j < m; j++ {
				t := c.U(len(s.Glyphs)+3, "target")
				s.Glyphs[g].Comps = append(s.Glyphs[g].Comps, ttf.Component{Glyph: t, DX: 1, DY: 1, Words: c.Bool("w")})
				c.Log("glyph %d has the component %d", g, t)
			}
		}
		return badFont{s.Build(), "composite glyphs in cycles"}
	case 2:
		// a chain in which every glyph uses the next one twice
		s := specOf(c)
		for len(s.Glyphs) < 60 {
			s.Glyphs = append(s.Glyphs, ttf.GlyphSpec{Adv: 500, Points: [][2]int{{0, 0}, {9, 9}, {0, 9}}})
		}
		n := len(s.Glyphs)
		for g := 1; g < n-1; g++ {
			s.Glyphs[g].Points = nil
			s.Glyphs[g].Comps = []ttf.Component{{Glyph: g + 1}, {Glyph: g + 1, DX: 5}}
		}
		c.Log("chain of %d doubling composites", n)
		return badFont{s.Build(), "doubling composites"}
	}
	var f *testFont
	if c.Chance(15, "real") {
		f = serif()
	} else if c.Chance(50, "small") {
		f = mustFont("small", specOf(c).Build())
	} else {
		f = stdFonts()[c.U(4, "std")]
	}
	c.Log("font %s, %d bytes", f.name, len(f.data))
	only := ""
	if c.Chance(60, "table") {
		only = f.f.Order[c.U(len(f.f.Order), "tab")]
		c.Log("table %s at %d", only, f.f.Tables[only].Off)
	}
	b := mutate(c, f.data, fontHot(f.f, only))
	return badFont{b, "mutated " + f.name}
}

// specOf is a small valid font.
func specOf(c *Case) ttf.Spec {
	s := ttf.Spec{UPM: 1000, Asc: 800, Desc: -200, TypoAsc: 700, TypoDesc: -200, WinAsc: 800, WinDesc: 200, CapHeight: 600, XHeight: 400, OS2Ver: 2,
		PSName: "Small", Cmap: map[rune]int{}, Format12: c.Bool("f12"), LongLoca: c.Bool("long"), KernTable: c.Bool("kerntab"), Kern: map[[2]int]int{{1, 2}: -30},
		UseRangeOffset: c.Bool("ro"), Optional: c.U(8, "opt")}
	n := 4 + c.U(12, "nglyphs")
	for i := 0; i < n; i++ {
		s.Glyphs = append(s.Glyphs, ttf.GlyphSpec{Adv: 400 + 10*i, Points: [][2]int{{0, 0}, {i, 100}, {50, 0}}})
		if i > 0 {
			s.Cmap[rune('A'+i-1)] = i
		}
	}
	s.Glyphs[n-1].Points = nil
	s.Glyphs[n-1].Comps = []ttf.Component{{Glyph: 1}, {Glyph: 2, DX: 300, Words: true}}
	return s
}

const fuzzText = "ABCDEFGHIJKLMNOPQRSTUVWXYZ abcxyz 019 áñ αΩ 世\U0001F600☃"

// useFont draws with a font everything it can be drawn with.
func useFont(c *Case, p *gopdf.GoPdf, family string) {
	if err := p.SetFont(family, "U", 12); err != nil {
		c.Bad("an accepted font cannot be set: %v", err)
	}
	p.SetXY(20, 50)
	p.Text(fuzzText)
	p.CellWithOption(&gopdf.Rect{W: 100, H: 30}, fuzzText, gopdf.CellOption{Align: gopdf.Center | gopdf.Middle, Border: gopdf.AllBorders})
	p.MeasureTextWidth(fuzzText)
	p.MeasureCellHeightByText(fuzzText)
	p.SplitText(fuzzText, 70)
	p.MultiCell(&gopdf.Rect{W: 90, H: 300}, fuzzText)
	p.IsCurrFontContainGlyph('A')
}

func baseDoc(c *Case, prot bool) *gopdf.GoPdf {
	p := &gopdf.GoPdf{}
	cfg := gopdf.Config{PageSize: *gopdf.PageSizeA4}
	if prot {
		cfg.Protection = gopdf.PDFProtectionConfig{UseProtection: true, UserPass: []byte("u"), OwnerPass: []byte("o")}
	}
	p.Start(cfg)
	p.AddPage()
	if err := p.AddTTFFontData("good", stdFonts()[0].data); err != nil {
		c.Bad("good font: %v", err)
	}
	if err := p.SetFont("good", "", 10); err != nil {
		c.Bad("good font: %v", err)
	}
	p.SetXY(10, 10)
	p.Text("before")
	return p
}

func endDoc(c *Case, p *gopdf.GoPdf) []byte {
	p.SetXY(10, 30)
	if err := p.SetFont("good", "", 10); err != nil {
		c.Bad("setting the good font: %v", err)
	}
	if err := p.Text("after"); err != nil {
		c.Bad("text after: %v", err)
	}
	h, _ := gopdf.ImageHolderByBytes(stdImages()[3].data)
	if err := p.ImageByHolder(h, 5, 5, nil); err != nil {
		c.Bad("image after: %v", err)
	}
	p.AddPage()
	p.SetXY(10, 30)
	p.Text("second page")
	return output(c, p)
}

func mustParse(c *Case, b []byte) {
	c.Helper()
	if _, err := pdf.Parse(b); err != nil {
		dump(b)
		c.Bad("the document with the accepted input does not parse: %v", err)
	}
}

func TestC22_Fonts(t *testing.T) {
	Run(t, Opt{Quick: 24000, Thorough: 4000000, Rule: "the input differs from a valid font"}, func(c *Case) {
		bf := genBadFont(c)
		c.Log("%s: %d bytes crc %08x", bf.how, len(bf.data), crc32.ChecksumIEEE(bf.data))
		prot := c.Chance(20, "prot")
		how := c.U(5, "entry")
		kern := c.Bool("kern")
		p := baseDoc(c, prot)
		var err error
		bounded(c, "loading the font", len(bf.data), func() {
			o := gopdf.TtfOption{UseKerning: kern}
			switch how {
			case 0, 1:
				err = p.AddTTFFontDataWithOption("bad", bf.data, o)
			case 2:
				err = p.AddTTFFontByReaderWithOption("bad", iotest.OneByteReader(bytes.NewReader(bf.data)), o)
			case 3:
				f := filepath.Join(imgDir(), "bad.ttf")
				os.WriteFile(f, bf.data, 0o644)
				err = p.AddTTFFontWithOption("bad", f, o)
			case 4:
				fc := &gopdf.FontContainer{}
				if err = fc.AddTTFFontDataWithOption("bad", bf.data, o); err == nil {
					err = p.AddTTFFontFromFontContainer("bad", fc)
				}
			}
		})
		c.Nontrivial()
		if err != nil {
			c.Class("rejected")
			sameBytes(c, "the document with a rejected font against the document without that call", endDoc(c, p), endDoc(c, baseDoc(c, prot)))
			return
		}
		c.Class("accepted")
		bounded(c, "drawing with the font", len(bf.data), func() { useFont(c, p, "bad") })
		var out []byte
		bounded(c, "writing the document", len(bf.data), func() {
			var b bytes.Buffer
			// an error is allowed
			if _, err := p.WriteTo(&b); err == nil {
				out = b.Bytes()
			}
		})
		if out != nil {
			mustParse(c, out)
		}
	})
}

// fixCRC makes the checksums of all PNG chunks right again.
func fixCRC(b []byte) {
	i := 8
	for i+12 <= len(b) {
		n := int(binary.BigEndian.Uint32(b[i:]))
		if n < 0 || n > len(b)-i-12 {
			return
		}
		binary.BigEndian.PutUint32(b[i+8+n:], crc32.ChecksumIEEE(b[i+4:i+8+n]))
		i += 12 + n
	}
}

func randPNG(c *Case) *imgs.PNG {
	ct := pick(c, "ct", []int{0, 2, 3, 4, 6})
	d := 8
	if ct == 0 || ct == 3 {
		d = pick(c, "depth", []int{1, 2, 4, 8})
	}
	p := &imgs.PNG{W: 1 + c.U(9, "w"), H: 1 + c.U(9, "h"), CT: ct, Depth: d, Splits: 1 + c.U(3, "splits"), Extra: c.Bool("extra"), Filters: []byte{byte(c.U(5, "filter"))}}
	max := 1<<d - 1
	if ct == 3 {
		n := 1 + c.U(1<<d, "npal")
		for i := 0; i < n; i++ {
			p.Pal = append(p.Pal, [3]byte{byte(i * 7), byte(i * 31), byte(255 - i)})
		}
		max = n - 1
	}
	p.Samples = ramp(p.W*p.H*p.Channels(), max)
	if c.Bool("trns") {
		switch ct {
		case 0:
			p.HasTrns, p.Trns = true, []int{0}
		case 2:
			p.HasTrns, p.Trns = true, []int{1, 2, 3}
		case 3:
			p.HasTrns, p.Trns = true, []int{0}
		}
	}
	return p
}

func genBadImage(c *Case) badFont {
	switch c.U(11, "imgkind") {
	case 0:
		b := make([]byte, c.U(120, "n"))
		for i := range b {
			b[i] = byte(c.U(256, "byte"))
		}
		if c.Bool("magic") {
			b = append([]byte(c.Pick("m", "\x89PNG\r\n\x1a\n", "GIF89a", "\xff\xd8\xff\xe0", "GIF87a", "\x89PNG\r\n\x1a\n\x00\x00\x00\x0dIHDR")), b...)
		}
		return badFont{b, "random bytes"}
	case 1, 2:
		b := mutate(c, stdImages()[c.U(2, "jpg")].data, seqInts(0, 220))
		return badFont{b, "mutated JPEG"}
	case 3:
		if c.Chance(40, "std") {
			b := mutate(c, stdImages()[2].data, seqInts(0, 60))
			return badFont{b, "mutated GIF"}
		}
		b, at := genGIF(c)
		if c.Chance(30, "mutated") {
			return badFont{mutate(c, b, seqInts(0, at+12)), "mutated GIF"}
		}
		dim := []uint16{0, 1, 100, 0x7fff, 0xffff, 40000, 1000}
		for _, i := range []int{6, 8, at + 5, at + 7} {
			if c.Chance(80, "dim") {
				binary.LittleEndian.PutUint16(b[i:], pick(c, "D", dim))
			}
		}
		if c.Chance(60, "screen") {
			copy(b[6:10], b[at+5:at+9]) // the screen is as large as its first frame
		}
		c.Log("GIF %x frame %x", b[6:13], b[at:at+10])
		return badFont{b, "GIF with other dimensions"}
	case 4:
		// huge dimensions, little data
		p := randPNG(c)
		b := p.Encode()
		dim := []uint32{0, 1, 100, 0x7fff, 0xffff, 40000, 0x7fffffff, 0x80000000, 0xffffffff, 1000000}
		binary.BigEndian.PutUint32(b[16:], pick(c, "W", dim))
		binary.BigEndian.PutUint32(b[20:], pick(c, "H", dim))
		fixCRC(b)
		c.Log("PNG %x", b[16:24])
		return badFont{b, "PNG with other dimensions"}
	case 5:
		// header fields in any combination
		p := randPNG(c)
		b := p.Encode()
		b[24] = byte(pick(c, "D", []int{0, 1, 2, 3, 4, 8, 16, 255}))
		b[25] = byte(c.U(8, "CT"))
		b[26] = byte(pick(c, "compr", []int{0, 0, 0, 1}))
		b[27] = byte(pick(c, "filt", []int{0, 0, 0, 1}))
		b[28] = byte(pick(c, "inter", []int{0, 0, 0, 1, 2}))
		fixCRC(b)
		c.Log("PNG type %d/%d with the header %x", p.CT, p.Depth, b[16:29])
		return badFont{b, "PNG with another header"}
	case 6:
		// chunks left out, doubled, in another order
		p := randPNG(c)
		b := p.Encode()
		var chunks [][]byte
		for i := 8; i+12 <= len(b); {
			n := int(binary.BigEndian.Uint32(b[i:]))
			chunks = append(chunks, b[i:i+12+n])
			i += 12 + n
		}
		out := append([]byte(nil), b[:8]...)
		k := c.U(len(chunks)+2, "nchunks")
		for i := 0; i < k; i++ {
			j := c.U(len(chunks), "chunk")
			if i < len(chunks) && c.Chance(70, "keep") {
				j = i
			}
			c.Log("chunk %s", chunks[j][4:8])
			out = append(out, chunks[j]...)
		}
		return badFont{out, "PNG with other chunks"}
	case 8:
		// more or less data than the size says
		p := randPNG(c)
		p.Cut = pick(c, "cut", []int{1, 1, 2, p.H, p.H - 1, p.H + 1, 3, p.W, p.W*p.H + p.H, 100000, -1, -1000})
		c.Log("PNG type %d depth %d %dx%d without the last %d bytes", p.CT, p.Depth, p.W, p.H, p.Cut)
		return badFont{p.Encode(), "PNG with other data"}
	case 7:
		// a further chunk, longer or shorter than it says
		p := randPNG(c)
		b := p.Encode()
		var at []int
		for i := 8; i+12 <= len(b); {
			at = append(at, i)
			i += 12 + int(binary.BigEndian.Uint32(b[i:]))
		}
		i := len(b)
		if k := c.U(len(at)+1, "before"); k < len(at) {
			i = at[k]
		}
		typ := c.Pick("type", "tEXt", "vpAg", "iCCP", "gAMA", "pHYs", "tRNS", "PLTE", "IDAT", "IHDR", "IEND", "\x00\x00\x00\x00")
		n := c.U(20, "len")
		l := uint32(n)
		if c.Chance(70, "lies") {
			l = pick(c, "declared", []uint32{0, 1, 0x7fffffff, 0x7ffffffe, 0x80000000, 0x80000001, 0xffffffff, 0xfffffffe, 0xfffffffc, 0xfffffff8, 0xfffffff4, 0xfffffff0, uint32(-len(b)), uint32(-i), uint32(8 - i), uint32(-i - 8), uint32(-i - 12), uint32(len(b) - i), uint32(len(b)), 0x10000000})
		}
		ch := binary.BigEndian.AppendUint32(nil, l)
		ch = append(append(ch, typ...), bytes.Repeat([]byte{byte(c.U(256, "fill"))}, n)...)
		ch = binary.BigEndian.AppendUint32(ch, crc32.ChecksumIEEE(ch[4:]))
		c.Log("PNG type %d depth %d, at %d %q of %d bytes as %d", p.CT, p.Depth, i, typ, n, int32(l))
		return badFont{append(append(append([]byte(nil), b[:i]...), ch...), b[i:]...), "PNG with a further chunk"}
	}
	p := randPNG(c)
	b := p.Encode()
	c.Log("PNG type %d depth %d %dx%d", p.CT, p.Depth, p.W, p.H)
	b = mutate(c, b, seqInts(8, 80))
	if c.Chance(80, "crc") {
		fixCRC(b)
	}
	return badFont{b, "mutated PNG"}
}

// gifHeader is the length of the header of a GIF, with the global color table.
func gifHeader(b []byte) int {
	if b[10]&0x80 == 0 {
		return 13
	}
	return 13 + 3<<(b[10]&7+1)
}

// commentGIF puts a comment of several blocks into a GIF.
func commentGIF(c *Case, b []byte) []byte {
	ext := []byte{0x21, 0xfe}
	for i, n := 0, 1+c.U(3, "blocks"); i < n; i++ {
		l := 1 + c.U(pick(c, "long", []int{5, 255}), "len")
		ext = append(ext, byte(l))
		for j, fill := 0, pick(c, "b", []byte{0x2c, 0x21, 0, 'a'}); j < l; j++ {
			ext = append(ext, fill+byte(j&1))
		}
	}
	ext = append(ext, 0)
	at := gifHeader(b)
	return append(append(append([]byte(nil), b[:at]...), ext...), b[at:]...)
}

// genGIF gives a GIF and the offset of the descriptor of its first frame.
func genGIF(c *Case) ([]byte, int) {
	g := &gif.GIF{LoopCount: c.U(3, "loop") - 1}
	var global color.Palette
	pal := func() color.Palette {
		p := make(color.Palette, 1<<(1+c.U(8, "colors")))
		for i := range p {
			p[i] = color.RGBA{byte(i), byte(i * 7), byte(i * 31), 255}
		}
		if c.Chance(30, "transparent") {
			p[c.U(len(p), "which")] = color.RGBA{}
		}
		return p
	}
	w, h := 1+c.U(20, "w"), 1+c.U(20, "h")
	if c.Bool("global") {
		global = pal()
		g.Config = image.Config{ColorModel: global, Width: w, Height: h}
	}
	for i, n := 0, 1+c.U(3, "frames"); i < n; i++ {
		p := global
		if p == nil || c.Chance(30, "local") {
			p = pal()
		}
		im := image.NewPaletted(image.Rect(0, 0, w, h), p)
		for j := range im.Pix {
			im.Pix[j] = byte(j*(i+3)) % byte(min(255, len(p)))
		}
		g.Image = append(g.Image, im)
		g.Delay = append(g.Delay, c.U(3, "delay"))
		g.Disposal = append(g.Disposal, byte(c.U(3, "disposal")))
	}
	var buf bytes.Buffer
	if err := gif.EncodeAll(&buf, g); err != nil {
		c.Harness("gif: %v", err)
	}
	b := buf.Bytes()
	at := gifHeader(b)
	if c.Bool("comment") {
		b = commentGIF(c, b)
	}
	for b[at] == 0x21 {
		at += 2
		for b[at] != 0 {
			at += 1 + int(b[at])
		}
		at++
	}
	if b[at] != 0x2c {
		c.Harness("no frame at %d of %x", at, b)
	}
	return b, at
}

func seqInts(a, b int) []int {
	var out []int
	for i := a; i < b; i++ {
		out = append(out, i)
	}
	return out
}

func TestC22_Images(t *testing.T) {
	Run(t, Opt{Quick: 48000, Thorough: 8000000, Rule: "every case: the input is random or differs from a valid image"}, func(c *Case) {
		im := genBadImage(c)
		c.Log("%s: %d bytes crc %08x", im.how, len(im.data), crc32.ChecksumIEEE(im.data))
		prot := c.Chance(20, "prot")
		how := c.U(7, "entry")
		p := baseDoc(c, prot)
		var err error
		bounded(c, "drawing the image", len(im.data), func() {
			switch how {
			case 0, 1:
				var h gopdf.ImageHolder
				if h, err = gopdf.ImageHolderByBytes(im.data); err == nil {
					err = p.ImageByHolder(h, 10, 10, nil)
				}
			case 2:
				var h gopdf.ImageHolder
				if h, err = gopdf.ImageHolderByReader(iotest.HalfReader(bytes.NewReader(im.data))); err == nil {
					err = p.ImageByHolder(h, 10, 10, &gopdf.Rect{W: 10, H: 20})
				}
			case 3:
				f := filepath.Join(imgDir(), "bad.img")
				os.WriteFile(f, im.data, 0o644)
				err = p.Image(f, 10, 10, nil)
			case 4, 5:
				h, e1 := gopdf.ImageHolderByBytes(stdImages()[c.U(len(stdImages()), "img")].data)
				m, e2 := gopdf.ImageHolderByBytes(im.data)
				if e1 != nil || e2 != nil {
					err = errors.New("holder")
					return
				}
				o := gopdf.ImageOptions{X: 10, Y: 10, Rect: &gopdf.Rect{W: 30, H: 40}, Mask: &gopdf.MaskOptions{Holder: m, ImageOptions: gopdf.ImageOptions{X: 10, Y: 10}}}
				if how == 5 {
					// the bad image with a good mask
					h, _ = gopdf.ImageHolderByBytes(im.data)
					o.Mask.Holder, _ = gopdf.ImageHolderByBytes(stdImages()[8].data)
				}
				err = p.ImageByHolderWithOptions(h, o)
			case 6:
				h, e1 := gopdf.ImageHolderByBytes(im.data)
				if e1 != nil {
					err = e1
					return
				}
				o := gopdf.ImageOptions{X: 10, Y: 10, DegreeAngle: 30, HorizontalFlip: true}
				if c.Bool("crop") {
					o.Crop = &gopdf.CropOptions{X: 1, Y: 1, Width: 2, Height: 2}
				}
				err = p.ImageByHolderWithOptions(h, o)
			}
		})
		c.Nontrivial()
		if err != nil {
			c.Class("rejected")
			sameBytes(c, "the document with a rejected image against the document without that call", endDoc(c, p), endDoc(c, baseDoc(c, prot)))
			return
		}
		c.Class("accepted")
		var out []byte
		bounded(c, "writing the document", len(im.data), func() {
			var b bytes.Buffer
			if _, err := p.WriteTo(&b); err == nil {
				out = b.Bytes()
			}
		})
		if out != nil {
			mustParse(c, out)
		}
	})
}

type failingReader struct {
	r   io.Reader
	err error
}

func (f *failingReader) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		err = f.err
	}
	return n, err
}

// badHolder is an ImageHolder whose reader fails.
type badHolder struct {
	failingReader
	id string
}

func (b *badHolder) ID() string { return b.id }

// TestC22_RejectedCalls puts calls that are rejected into a program.
func TestC22_RejectedCalls(t *testing.T) {
	Run(t, Opt{Quick: 6000, Thorough: 600000, Rule: "at least 4 operations and one rejected call among them"}, func(c *Case) {
		pr := genProg(c, progOpt{ops: 20, protect: 20, units: true, container: true})
		pr.log(c)
		type ins struct {
			desc string
			do   func(e *Env) error
		}
		n := 0
		want := pr.cfg.start()
		got := pr.cfg.start()
		want.fc, got.fc = pr.container(c), pr.container(c)
		hasPage := false
		for i, o := range pr.ops {
			o.Do(want)
			o.Do(got)
			if !hasPage {
				hasPage = got.p.GetNumberOfPages() > 0
			}
			if !hasPage || !c.Chance(25, "insert") {
				continue
			}
			x := genRejected(c)
			c.Log("after %d: %s", i, x.desc)
			var err error
			bounded(c, x.desc, 200000, func() { err = x.do(got) })
			if err == nil {
				c.Bad("%s: no error", x.desc)
			}
			n++
		}
		b1, b2 := output(c, want.p), output(c, got.p)
		sameBytes(c, "the document with rejected calls against the document without them", b2, b1)
		if fmt.Sprint(want.ret, want.lens) != fmt.Sprint(got.ret, got.lens) {
			c.Bad("calls return %v %v with rejected calls in between, %v %v without", got.ret, got.lens, want.ret, want.lens)
		}
		if len(pr.ops) >= 4 && n > 0 {
			c.Nontrivial()
		}
	})
}

type rejected struct {
	desc string
	do   func(e *Env) error
}

func genRejected(c *Case) rejected {
	st := stdFonts()[c.U(4, "font")]
	im := stdImages()[c.U(len(stdImages()), "img")]
	cut := func(b []byte, l string) []byte { return b[:rapidInt(c, len(b)*9/10, l)] }
	switch c.U(13, "rejected") {
	case 0:
		b := cut(st.data, "cut")
		return rejected{fmt.Sprintf("AddTTFFontData with %d of %d bytes of a font", len(b), len(st.data)), func(e *Env) error { return e.p.AddTTFFontData("zz", b) }}
	case 1:
		b := cut(st.data, "cut")
		return rejected{fmt.Sprintf("AddTTFFontByReader whose reader fails after %d bytes", len(b)), func(e *Env) error {
			return e.p.AddTTFFontByReader("zz", &failingReader{bytes.NewReader(b), errFault})
		}}
	case 2:
		return rejected{"AddTTFFontByReader whose reader fails at the end", func(e *Env) error {
			return e.p.AddTTFFontByReader("zz", &failingReader{bytes.NewReader(st.data), errFault})
		}}
	case 3:
		return rejected{"AddTTFFont of a file that does not exist", func(e *Env) error { return e.p.AddTTFFont("zz", "/no/such/file.ttf") }}
	case 4:
		return rejected{"AddTTFFontData of an image", func(e *Env) error { return e.p.AddTTFFontData("zz", im.data) }}
	case 5:
		return rejected{"Image of a file that does not exist", func(e *Env) error { return e.p.Image("/no/such/file.png", 0, 0, nil) }}
	case 6:
		b := cut(st.data, "cut")
		return rejected{"ImageByHolder of (a part of) a font", func(e *Env) error {
			h, err := gopdf.ImageHolderByBytes(b)
			if err != nil {
				return err
			}
			return e.p.ImageByHolder(h, 0, 0, nil)
		}}
	case 7:
		k := pick(c, "png", []int{3, 4, 5, 7, 8})
		im := stdImages()[k]
		b := im.data[:rapidInt(c, len(im.data)-30, "cut")]
		return rejected{fmt.Sprintf("ImageByHolder of %d of %d bytes of %s", len(b), len(im.data), im.name), func(e *Env) error {
			h, err := gopdf.ImageHolderByBytes(b)
			if err != nil {
				return err
			}
			return e.p.ImageByHolder(h, 0, 0, &gopdf.Rect{W: e.u(5), H: e.u(5)})
		}}
	case 8:
		b := im.data[:rapidInt(c, len(im.data)-1, "cut")]
		return rejected{fmt.Sprintf("ImageByHolder whose reader fails after %d of %d bytes of %s", len(b), len(im.data), im.name), func(e *Env) error {
			return e.p.ImageByHolder(&badHolder{failingReader{bytes.NewReader(b), errFault}, "my own id"}, 0, 0, nil)
		}}
	case 9:
		b := im.data[:rapidInt(c, len(im.data)-1, "cut")]
		return rejected{fmt.Sprintf("ImageHolderByReader whose reader fails after %d bytes", len(b)), func(e *Env) error {
			h, err := gopdf.ImageHolderByReader(&failingReader{bytes.NewReader(b), errFault})
			if err != nil {
				return err
			}
			return e.p.ImageByHolder(h, 0, 0, nil)
		}}
	case 10:
		mask := stdImages()[pick(c, "noalpha", []int{0, 1, 3, 4, 5})]
		return rejected{fmt.Sprintf("image %s with the mask %s, which has no alpha", im.name, mask.name), func(e *Env) error {
			h, err := gopdf.ImageHolderByBytes(im.data)
			m, err2 := gopdf.ImageHolderByBytes(mask.data)
			if err != nil || err2 != nil {
				return nil
			}
			return e.p.ImageByHolderWithOptions(h, gopdf.ImageOptions{X: e.u(1), Y: e.u(1), Rect: e.rect(9, 9), Mask: &gopdf.MaskOptions{Holder: m, ImageOptions: gopdf.ImageOptions{Rect: e.rect(9, 9)}}})
		}}
	case 11:
		good := stdImages()[8]
		b := good.data[:rapidInt(c, len(good.data)-30, "cut")]
		return rejected{fmt.Sprintf("image %s with a mask cut to %d bytes", im.name, len(b)), func(e *Env) error {
			h, err := gopdf.ImageHolderByBytes(im.data)
			m, err2 := gopdf.ImageHolderByBytes(b)
			if err != nil || err2 != nil {
				return errors.New("holder")
			}
			return e.p.ImageByHolderWithOptions(h, gopdf.ImageOptions{X: e.u(1), Y: e.u(1), Rect: e.rect(9, 9), Mask: &gopdf.MaskOptions{Holder: m, ImageOptions: gopdf.ImageOptions{Rect: e.rect(9, 9)}}})
		}}
	}
	return rejected{"ImageFrom of an empty image", func(e *Env) error {
		return e.p.ImageFrom(image.NewRGBA(image.Rect(0, 0, 0, 0)), 0, 0, &gopdf.Rect{W: 1, H: 1})
	}}
}
