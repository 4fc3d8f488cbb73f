package ttf

import (
	"encoding/binary"
	"sort"
)

// Component of a composite glyph.
type Component struct {
	Glyph  int
	DX, DY int
	Words  bool // 16-bit arguments
	Scale  int  // 0 none, 1 uniform, 2 x and y, 3 two by two
	Instr  bool // only on the last one
}

type GlyphSpec struct {
	Adv, LSB int
	Points   [][2]int // one contour, empty: no outline
	Comps    []Component
}

// Spec describes a synthetic font.
type Spec struct {
	UPM               int
	Glyphs            []GlyphSpec
	NumHM             int // 0: all glyphs
	Cmap              map[rune]int
	UseRangeOffset    bool // format-4 segments through glyphIdArray
	Format12          bool
	ExtraCmap         bool // a (1,0) subtable before the others
	Kern              map[[2]int]int
	KernTable         bool
	LongLoca          bool
	Asc, Desc         int
	TypoAsc, TypoDesc int
	WinAsc, WinDesc   int
	CapHeight         int
	XHeight           int
	OS2Ver            int
	Italic            int
	ULPos, ULThick    int
	BBox              [4]int
	PSName            string
	Overlap           int // format-4 segments start before the end of the one before
	NameBefore        int // records of the name table before the PostScript name, and after
	NameAfter         int
	KernSplit         []int // pairs per kerning subtable, the rest in the last; nil: one subtable
	KernOther         int   // bits: subtables that are no horizontal kerning pairs: before (1), after (2)
	Optional          int   // bit 0 cvt, 1 fpgm, 2 prep
	GlyphPad          int   // glyphs are padded to a multiple of it (0: 4)
	NoPad             bool  // do not pad the last table
	Reverse           bool  // tables laid out in reverse order
}

type wr struct{ b []byte }

func (w *wr) u8(v ...int) {
	for _, x := range v {
		w.b = append(w.b, byte(x))
	}
}
func (w *wr) u16(v ...int) {
	for _, x := range v {
		w.b = append(w.b, byte(x>>8), byte(x))
	}
}
func (w *wr) u32(v ...int) {
	for _, x := range v {
		w.b = append(w.b, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	}
}

func (g GlyphSpec) encode(pad int) []byte {
	var w wr
	if len(g.Comps) > 0 {
		w.u16(0xffff, 0, 0, 100, 100)
		for i, c := range g.Comps {
			fl := 2
			if c.Words {
				fl |= 1
			}
			if i+1 < len(g.Comps) {
				fl |= 0x20
			}
			fl |= []int{0, 8, 0x40, 0x80}[c.Scale]
			last := i+1 == len(g.Comps)
			if last && c.Instr {
				fl |= 0x100
			}
			w.u16(fl, c.Glyph)
			if c.Words {
				w.u16(c.DX, c.DY)
			} else {
				w.u8(c.DX, c.DY)
			}
			for k := 0; k < []int{0, 1, 2, 4}[c.Scale]; k++ {
				w.u16(0x2000 + k)
			}
			if last && c.Instr {
				w.u16(3)
				w.u8(0xb0, 1, 0x21)
			}
		}
	} else if len(g.Points) > 0 {
		x0, y0, x1, y1 := g.Points[0][0], g.Points[0][1], g.Points[0][0], g.Points[0][1]
		for _, p := range g.Points {
			x0, x1, y0, y1 = min(x0, p[0]), max(x1, p[0]), min(y0, p[1]), max(y1, p[1])
		}
		w.u16(1, x0, y0, x1, y1, len(g.Points)-1, 0)
		for range g.Points {
			w.u8(1)
		}
		px, py := 0, 0
		for _, p := range g.Points {
			w.u16(p[0] - px)
			px = p[0]
		}
		for _, p := range g.Points {
			w.u16(p[1] - py)
			py = p[1]
		}
	}
	for len(w.b)%pad != 0 {
		w.b = append(w.b, 0)
	}
	return w.b
}

// Build assembles the font file.
func (s Spec) Build() []byte {
	tabs := map[string][]byte{}
	n := len(s.Glyphs)
	nhm := s.NumHM
	if nhm <= 0 || nhm > n {
		nhm = n
	}
	pad := s.GlyphPad
	if pad == 0 {
		pad = 4
	}
	var glyf wr
	var offs []int
	for _, g := range s.Glyphs {
		offs = append(offs, len(glyf.b))
		glyf.b = append(glyf.b, g.encode(pad)...)
	}
	offs = append(offs, len(glyf.b))
	tabs["glyf"] = glyf.b
	var loca wr
	for _, o := range offs {
		if s.LongLoca {
			loca.u32(o)
		} else {
			loca.u16(o / 2)
		}
	}
	tabs["loca"] = loca.b
	var hmtx wr
	for i, g := range s.Glyphs {
		if i < nhm {
			hmtx.u16(g.Adv)
		}
		hmtx.u16(g.LSB)
	}
	tabs["hmtx"] = hmtx.b
	var head wr
	head.u32(0x00010000, 0x00010000, 0, 0x5F0F3CF5)
	head.u16(0, s.UPM)
	head.u32(0, 0, 0, 0)
	head.u16(s.BBox[0], s.BBox[1], s.BBox[2], s.BBox[3], 0, 8, 2)
	if s.LongLoca {
		head.u16(1)
	} else {
		head.u16(0)
	}
	head.u16(0)
	tabs["head"] = head.b
	var hhea wr
	hhea.u32(0x00010000)
	hhea.u16(s.Asc, s.Desc, 0, 3000, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, nhm)
	tabs["hhea"] = hhea.b
	var maxp wr
	maxp.u32(0x00010000)
	maxp.u16(n, 100, 10, 100, 10, 1, 0, 0, 0, 0, 0, 0, 8, 8)
	tabs["maxp"] = maxp.b
	var post wr
	post.u32(0x00030000)
	post.u16(s.Italic, 0x4000, s.ULPos, s.ULThick)
	post.u32(0, 0, 0, 0, 0)
	tabs["post"] = post.b
	var os2 wr
	os2.u16(s.OS2Ver, 500, 400, 5, 0)
	for i := 0; i < 11; i++ {
		os2.u16(10)
	}
	os2.b = append(os2.b, make([]byte, 10)...)
	os2.u32(0, 0, 0, 0)
	os2.b = append(os2.b, "VRIF"...)
	os2.u16(64, 32, 0xffff, s.TypoAsc, s.TypoDesc, 0, s.WinAsc, s.WinDesc)
	if s.OS2Ver >= 1 {
		os2.u32(1, 0)
	}
	if s.OS2Ver >= 2 {
		os2.u16(s.XHeight, s.CapHeight, 0, 32, 2)
	}
	tabs["OS/2"] = os2.b
	var name wr
	ps := s.PSName
	if ps == "" {
		ps = "Verif"
	}
	var strs wr
	nrec := s.NameBefore + 1 + s.NameAfter
	name.u16(0, nrec, 6+12*nrec)
	for i := 0; i < nrec; i++ {
		id, txt := i%6, "Other" // family, style and so on
		if i == s.NameBefore {
			id, txt = 6, ps
		} else if i > s.NameBefore {
			id = 7 + i%5
		}
		name.u16(3, 1, 0x409, id, 2*len(txt), len(strs.b))
		for _, c := range []byte(txt) {
			strs.u16(int(c))
		}
	}
	name.b = append(name.b, strs.b...)
	tabs["name"] = name.b
	tabs["cmap"] = s.cmap()
	if s.KernTable {
		var k wr
		var keys [][2]int
		for p := range s.Kern {
			keys = append(keys, p)
		}
		sort.Slice(keys, func(i, j int) bool {
			return keys[i][0] < keys[j][0] || keys[i][0] == keys[j][0] && keys[i][1] < keys[j][1]
		})
		var subs [][]byte
		other := func(cov int) {
			var o wr
			o.u16(0, 14+6, cov, 1, 6, 0, 0, 1, 1, 500)
			subs = append(subs, o.b)
		}
		if s.KernOther&1 != 0 {
			other(0x0000) // vertical
		}
		if s.KernOther&2 != 0 {
			other(0x0201) // class pairs
		}
		rest := keys
		for i := 0; i <= len(s.KernSplit); i++ {
			n := len(rest)
			if i < len(s.KernSplit) {
				n = min(n, s.KernSplit[i])
			}
			var o wr
			o.u16(0, 14+6*n, 1, n, 0, 0, 0)
			for _, p := range rest[:n] {
				o.u16(p[0], p[1], s.Kern[p])
			}
			rest = rest[n:]
			subs = append(subs, o.b)
		}
		if s.KernOther&4 != 0 {
			other(0x0003) // minimum values
		}
		if s.KernOther&8 != 0 {
			other(0x0005) // cross-stream
		}
		k.u16(0, len(subs))
		for _, o := range subs {
			k.b = append(k.b, o...)
		}
		tabs["kern"] = k.b
	}
	if s.Optional&1 != 0 {
		tabs["cvt "] = []byte{0, 1, 0, 2, 0, 3}
	}
	if s.Optional&2 != 0 {
		tabs["fpgm"] = []byte{0xb0, 0, 0x2c, 0x2d, 0xb0}
	}
	if s.Optional&4 != 0 {
		tabs["prep"] = []byte{0xb0, 0, 0x21}
	}
	return assemble(tabs, s.NoPad, s.Reverse)
}

func (s Spec) cmap() []byte {
	var keys []int
	for r := range s.Cmap {
		if r < 0xffff {
			keys = append(keys, int(r))
		}
	}
	sort.Ints(keys)
	type seg struct {
		a, b   int
		delta  int
		ids    []int
		ranged bool
	}
	var segs []seg
	for _, k := range keys {
		g := s.Cmap[rune(k)]
		if l := len(segs) - 1; l >= 0 && segs[l].b == k-1 && (segs[l].ranged || (segs[l].a+segs[l].delta+(k-segs[l].a))&0xffff == g) {
			segs[l].b = k
			segs[l].ids = append(segs[l].ids, g)
			continue
		}
		segs = append(segs, seg{a: k, b: k, delta: (g - k) & 0xffff, ids: []int{g}, ranged: s.UseRangeOffset && len(segs)%2 == 0})
	}
	// bridge small gaps in ranged segments, so that glyphIdArray has zeros
	if s.UseRangeOffset {
		var m []seg
		for _, x := range segs {
			if l := len(m) - 1; l >= 0 && m[l].ranged && x.a-m[l].b <= 3 {
				for k := m[l].b + 1; k < x.a; k++ {
					m[l].ids = append(m[l].ids, 0)
				}
				m[l].ids = append(m[l].ids, x.ids...)
				m[l].b = x.b
				continue
			}
			m = append(m, x)
		}
		segs = m
	}
	// a character belongs to the first segment that ends at or after it
	for i := 1; s.Overlap > 0 && i < len(segs); i++ {
		x, back := &segs[i], (s.Overlap+3*i)%9
		if gap := x.a - segs[i-1].b - 1; back == 0 || back <= gap || gap > 0 && !x.ranged || x.a <= back {
			continue
		} else if x.ranged {
			pre := make([]int, back)
			for k := 0; k < back-gap; k++ {
				pre[k] = 1 + k%3
			}
			x.ids = append(pre, x.ids...)
		}
		x.a -= back
	}
	segs = append(segs, seg{a: 0xffff, b: 0xffff, delta: 1})
	sc := len(segs)
	var end, start, delta, ro, ids wr
	for i, x := range segs {
		end.u16(x.b)
		start.u16(x.a)
		if x.ranged {
			d := 0
			if i%3 == 0 {
				d = 7 // a delta on top of the array
			}
			delta.u16(d)
			ro.u16(2*(sc-i) + len(ids.b))
			for _, g := range x.ids {
				if g != 0 {
					g = (g - d) & 0xffff
				}
				ids.u16(g)
			}
		} else {
			delta.u16(x.delta)
			ro.u16(0)
		}
	}
	var f4 wr
	f4.u16(4, 16+8*sc+len(ids.b), 0, 2*sc, 0, 0, 0)
	f4.b = append(f4.b, end.b...)
	f4.u16(0)
	f4.b = append(f4.b, start.b...)
	f4.b = append(f4.b, delta.b...)
	f4.b = append(f4.b, ro.b...)
	f4.b = append(f4.b, ids.b...)
	for len(f4.b)%4 != 0 {
		f4.b = append(f4.b, 0)
	}
	var f12 wr
	if s.Format12 {
		var all []int
		for r := range s.Cmap {
			all = append(all, int(r))
		}
		sort.Ints(all)
		type grp struct{ a, b, g int }
		var gs []grp
		for _, r := range all {
			g := s.Cmap[rune(r)]
			if l := len(gs) - 1; l >= 0 && gs[l].b == r-1 && gs[l].g+(r-gs[l].a) == g {
				gs[l].b = r
				continue
			}
			gs = append(gs, grp{r, r, g})
		}
		f12.u16(12, 0)
		f12.u32(16+12*len(gs), 0, len(gs))
		for _, g := range gs {
			f12.u32(g.a, g.b, g.g)
		}
	}
	var f0 wr
	if s.ExtraCmap {
		f0.u16(6, 12, 0, 65, 1, 0)
	}
	var out wr
	nt := 1
	if s.Format12 {
		nt++
	}
	if s.ExtraCmap {
		nt++
	}
	out.u16(0, nt)
	off := 4 + 8*nt
	if s.ExtraCmap {
		out.u16(1, 0)
		out.u32(off)
		off += len(f0.b)
	}
	out.u16(3, 1)
	out.u32(off)
	off += len(f4.b)
	if s.Format12 {
		out.u16(3, 10)
		out.u32(off)
	}
	out.b = append(out.b, f0.b...)
	out.b = append(out.b, f4.b...)
	out.b = append(out.b, f12.b...)
	return out.b
}

func assemble(tabs map[string][]byte, noPad, reverse bool) []byte {
	var tags []string
	for t := range tabs {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	lay := append([]string(nil), tags...)
	if reverse {
		for i, j := 0, len(lay)-1; i < j; i, j = i+1, j-1 {
			lay[i], lay[j] = lay[j], lay[i]
		}
	}
	offs := map[string]int{}
	var body []byte
	base := 12 + 16*len(tags)
	for i, t := range lay {
		offs[t] = base + len(body)
		body = append(body, tabs[t]...)
		if i+1 < len(lay) || !noPad {
			for len(body)%4 != 0 {
				body = append(body, 0)
			}
		}
	}
	var w wr
	w.u32(0x00010000)
	w.u16(len(tags), 128, 3, 16*len(tags)-128)
	for _, t := range tags {
		w.b = append(w.b, t...)
		w.u32(int(Checksum(tabs[t])), offs[t], len(tabs[t]))
	}
	out := append(w.b, body...)
	adj := 0xB1B0AFBA - Checksum(out)
	binary.BigEndian.PutUint32(out[offs["head"]+8:], adj)
	return out
}
