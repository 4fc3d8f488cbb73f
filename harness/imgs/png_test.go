package imgs

import (
	"bytes"
	"image/color"
	"image/png"
	"math/rand"
	"testing"
)

func TestPNG(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 400; i++ {
		p := &PNG{W: 1 + r.Intn(9), H: 1 + r.Intn(9), Level: r.Intn(10), Splits: r.Intn(4), Empty: r.Intn(2) == 0, Extra: r.Intn(2) == 0, EmptyAnc: r.Intn(2) == 0}
		p.CT = []int{0, 2, 3, 4, 6}[r.Intn(5)]
		switch p.CT {
		case 0:
			p.Depth = []int{1, 2, 4, 8}[r.Intn(4)]
		case 3:
			p.Depth = []int{1, 2, 4, 8}[r.Intn(4)]
		default:
			p.Depth = 8
		}
		max := 1 << uint(p.Depth)
		if p.CT == 3 {
			max = 1 + r.Intn(max)
			for k := 0; k < max; k++ {
				p.Pal = append(p.Pal, [3]byte{byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256))})
			}
		}
		for k := 0; k < p.W*p.H*p.Channels(); k++ {
			p.Samples = append(p.Samples, r.Intn(max))
		}
		for k := 0; k < p.H; k++ {
			p.Filters = append(p.Filters, byte(r.Intn(5)))
		}
		if r.Intn(2) == 0 && p.CT < 4 {
			p.HasTrns = true
			n := map[int]int{0: 1, 2: 3, 3: max}[p.CT]
			for k := 0; k < n; k++ {
				v := r.Intn(max)
				if p.CT == 3 {
					v = r.Intn(256)
				}
				p.Trns = append(p.Trns, v)
			}
		}
		im, err := png.Decode(bytes.NewReader(p.Encode()))
		if err != nil {
			t.Fatalf("%+v: %v", p, err)
		}
		for y := 0; y < p.H; y++ {
			for x := 0; x < p.W; x++ {
				c := color.NRGBAModel.Convert(im.At(x, y)).(color.NRGBA)
				g := p.At(x, y)
				if c.A != g.A || c.A != 0 && (Pix{c.R, c.G, c.B, c.A}) != g {
					// premultiplied round trips lose precision: compare only opaque exactly
					if c.A == g.A && c.A != 255 {
						continue
					}
					t.Fatalf("%+v at %d,%d: %v %v", p, x, y, c, g)
				}
			}
		}
	}
}
