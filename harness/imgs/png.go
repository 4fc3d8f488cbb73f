// Package imgs builds images of known content in every encoding gopdf takes.
package imgs

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"hash/crc32"
)

// PNG describes a PNG file down to its samples.
type PNG struct {
	W, H      int
	CT, Depth int
	Samples   []int // W*H*channels raw samples
	Pal       [][3]byte
	Trns      []int // CT 0: 1 value; CT 2: 3 values; CT 3: alphas
	HasTrns   bool
	Filters   []byte // per row
	Splits    int    // number of IDAT chunks
	Empty     bool   // an empty IDAT chunk among the others
	Extra     bool   // ancillary chunks
	EmptyAnc  bool   // a zero-length ancillary chunk
	SugPal    bool   // a suggested palette in a truecolour image
	Interlace bool   // Adam7 flag (data is still not interlaced: only for rejection tests)
	Level     int
	Trail     []byte // after the end
	Cut       int // bytes of the unpacked data left out at the end; added, if negative
}

func (p *PNG) Channels() int { return map[int]int{0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[p.CT] }

func chunk(b *bytes.Buffer, typ string, data []byte) {
	binary.Write(b, binary.BigEndian, uint32(len(data)))
	h := crc32.NewIEEE()
	h.Write([]byte(typ))
	h.Write(data)
	b.WriteString(typ)
	b.Write(data)
	binary.Write(b, binary.BigEndian, h.Sum32())
}

// Rows packs the samples into unfiltered scanlines.
func (p *PNG) Rows() [][]byte {
	ch := p.Channels()
	var rows [][]byte
	for y := 0; y < p.H; y++ {
		row := make([]byte, (p.W*ch*p.Depth+7)/8)
		for i := 0; i < p.W*ch; i++ {
			v := p.Samples[y*p.W*ch+i]
			if p.Depth == 16 {
				row[2*i], row[2*i+1] = byte(v>>8), byte(v)
				continue
			}
			bit := i * p.Depth
			row[bit/8] |= byte(v << uint(8-p.Depth-bit%8))
		}
		rows = append(rows, row)
	}
	return rows
}

// Encode writes the file.
func (p *PNG) Encode() []byte {
	var out bytes.Buffer
	out.Write([]byte{0x89, 'P', 'N', 'G', 13, 10, 26, 10})
	var ih bytes.Buffer
	binary.Write(&ih, binary.BigEndian, uint32(p.W))
	binary.Write(&ih, binary.BigEndian, uint32(p.H))
	il := byte(0)
	if p.Interlace {
		il = 1
	}
	ih.Write([]byte{byte(p.Depth), byte(p.CT), 0, 0, il})
	chunk(&out, "IHDR", ih.Bytes())
	if p.Extra {
		chunk(&out, "gAMA", []byte{0, 0, 0xb1, 0x8f})
		chunk(&out, "pHYs", []byte{0, 0, 0x0b, 0x13, 0, 0, 0x0b, 0x13, 1})
	}
	if p.EmptyAnc {
		chunk(&out, "vrFy", nil)
	}
	if p.CT == 3 || p.SugPal {
		var pal []byte
		for _, c := range p.Pal {
			pal = append(pal, c[:]...)
		}
		chunk(&out, "PLTE", pal)
	}
	if p.HasTrns {
		var t []byte
		for _, v := range p.Trns {
			if p.CT == 3 {
				t = append(t, byte(v))
			} else {
				t = append(t, byte(v>>8), byte(v))
			}
		}
		chunk(&out, "tRNS", t)
	}
	bpp := (p.Channels()*p.Depth + 7) / 8
	var raw []byte
	var prev []byte
	for y, row := range p.Rows() {
		if prev == nil {
			prev = make([]byte, len(row))
		}
		ft := byte(0)
		if len(p.Filters) > 0 {
			ft = p.Filters[y%len(p.Filters)]
		}
		raw = append(raw, ft)
		for j := range row {
			var a, b, c int
			if j >= bpp {
				a, c = int(row[j-bpp]), int(prev[j-bpp])
			}
			b = int(prev[j])
			v := row[j]
			switch ft {
			case 1:
				v -= byte(a)
			case 2:
				v -= byte(b)
			case 3:
				v -= byte((a + b) / 2)
			case 4:
				q := a + b - c
				pa, pb, pc := abs(q-a), abs(q-b), abs(q-c)
				switch {
				case pa <= pb && pa <= pc:
					v -= byte(a)
				case pb <= pc:
					v -= byte(b)
				default:
					v -= byte(c)
				}
			}
			raw = append(raw, v)
		}
		prev = row
	}
	switch {
	case p.Cut > len(raw):
		raw = nil
	case p.Cut > 0:
		raw = raw[:len(raw)-p.Cut]
	default:
		raw = append(raw, make([]byte, -p.Cut)...)
	}
	var z bytes.Buffer
	zw, _ := zlib.NewWriterLevel(&z, p.Level)
	zw.Write(raw)
	zw.Close()
	d := z.Bytes()
	n := p.Splits
	if n < 1 {
		n = 1
	}
	step := (len(d) + n - 1) / n
	for i := 0; i < len(d); i += step {
		if p.Empty && i == step*(n/2) {
			chunk(&out, "IDAT", nil)
		}
		chunk(&out, "IDAT", d[i:min(i+step, len(d))])
	}
	if p.Extra {
		chunk(&out, "tEXt", []byte("Comment\x00verif"))
	}
	chunk(&out, "IEND", nil)
	out.Write(p.Trail)
	return out.Bytes()
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

// Pix is a pixel: 8-bit colour and alpha.
type Pix struct{ R, G, B, A byte }

// At gives the pixel the PNG specification assigns (depth <= 8).
func (p *PNG) At(x, y int) Pix {
	ch := p.Channels()
	s := p.Samples[(y*p.W+x)*ch:][:ch]
	scale := func(v int) byte {
		switch p.Depth {
		case 1:
			return byte(v * 255)
		case 2:
			return byte(v * 85)
		case 4:
			return byte(v * 17)
		}
		return byte(v)
	}
	switch p.CT {
	case 0:
		v := scale(s[0])
		a := byte(255)
		if p.HasTrns && s[0] == p.Trns[0] {
			a = 0
		}
		return Pix{v, v, v, a}
	case 2:
		a := byte(255)
		if p.HasTrns && s[0] == p.Trns[0] && s[1] == p.Trns[1] && s[2] == p.Trns[2] {
			a = 0
		}
		return Pix{scale(s[0]), scale(s[1]), scale(s[2]), a}
	case 3:
		c := p.Pal[s[0]]
		a := byte(255)
		if p.HasTrns && s[0] < len(p.Trns) {
			a = byte(p.Trns[s[0]])
		}
		return Pix{c[0], c[1], c[2], a}
	case 4:
		v := scale(s[0])
		return Pix{v, v, v, byte(s[1])}
	default:
		return Pix{scale(s[0]), scale(s[1]), scale(s[2]), byte(s[3])}
	}
}
