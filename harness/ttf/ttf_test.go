package ttf

import (
	"os"
	"testing"
)

func TestReal(t *testing.T) {
	for _, p := range []string{"/repo/test/res/LiberationSerif-Regular.ttf", "/usr/share/fonts/truetype/dejavu/DejaVuSans.ttf"} {
		b, err := os.ReadFile(p)
		if err != nil {
			t.Fatal(err)
		}
		f, err := Parse(b)
		if err != nil {
			t.Fatal(p, err)
		}
		g, _ := f.Lookup('A')
		t.Log(f.NumGlyphs, f.UPM, g, f.Adv[g], len(f.Cmap4), len(f.Cmap12), len(f.Kern), len(b))
	}
}

func TestBuild(t *testing.T) {
	for v := 0; v < 64; v++ {
		s := Spec{UPM: 1000, Asc: 800, Desc: -200, OS2Ver: v % 5, TypoAsc: 700, WinAsc: 900, WinDesc: 250, Cmap: map[rune]int{'A': 1, 'B': 2, 'D': 1, 'z': 3, 0x1F600: 2}, UseRangeOffset: v&1 != 0, Format12: v&2 != 0, ExtraCmap: v&4 != 0, LongLoca: v&8 != 0, NoPad: v&16 != 0, Reverse: v&32 != 0, Optional: v % 8, KernTable: true, Kern: map[[2]int]int{{1, 2}: -50}, NumHM: v % 4, Overlap: v / 2 * 5, NameBefore: v % 3, NameAfter: v % 2, KernSplit: make([]int, v%3), KernOther: v % 16,
			Glyphs: []GlyphSpec{{Adv: 500}, {Adv: 600, Points: [][2]int{{0, 0}, {100, 0}, {100, 100}}}, {Adv: 700, Comps: []Component{{Glyph: 1, Scale: 3, Words: true}, {Glyph: 3, Instr: true}}}, {Adv: 300, Comps: []Component{{Glyph: 1}}}}}
		f, err := Parse(s.Build())
		if err != nil {
			t.Fatal(v, err)
		}
		for r, g := range s.Cmap {
			if r > 0xffff && !s.Format12 {
				continue
			}
			if got, ok := f.Lookup(r); !ok || got != g {
				t.Fatal(v, r, got, g)
			}
		}
		if _, ok := f.Lookup('C'); ok {
			t.Fatal("C")
		}
		if c := f.Closure([]int{2}); len(c) != 4 {
			t.Fatal(c)
		}
		if f.Kern[[2]int{1, 2}] != -50 {
			t.Fatal("kern")
		}
	}
}
