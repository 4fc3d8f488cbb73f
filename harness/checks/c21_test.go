package checks

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"unicode/utf8"

	"github.com/signintech/gopdf"
)

// arabicLetter is a letter of the Arabic alphabet, or one of the Persian ones,
// with its forms in the Unicode character database.
type arabicLetter struct {
	r, isolated, initial, medial, final rune
	joins                               byte // like its Joining_Type: D on both sides, R to the right only, U not at all, C causes joining
}

var arabicLetters = []arabicLetter{
	{0x0623, 0xfe83, 0, 0, 0xfe84, 'R'},           // alef with hamza above
	{0x0627, 0xfe8d, 0, 0, 0xfe8e, 'R'},           // alef
	{0x0622, 0xfe81, 0, 0, 0xfe82, 'R'},           // alef with madda above
	{0x0621, 0xfe80, 0, 0, 0, 'U'},                // hamza
	{0x0624, 0xfe85, 0, 0, 0xfe86, 'R'},           // waw with hamza above
	{0x0625, 0xfe87, 0, 0, 0xfe88, 'R'},           // alef with hamza below
	{0x0626, 0xfe89, 0xfe8b, 0xfe8c, 0xfe8a, 'D'}, // yeh with hamza above
	{0x0628, 0xfe8f, 0xfe91, 0xfe92, 0xfe90, 'D'}, // beh
	{0x067e, 0xfb56, 0xfb58, 0xfb59, 0xfb57, 'D'}, // peh
	{0x062a, 0xfe95, 0xfe97, 0xfe98, 0xfe96, 'D'}, // teh
	{0x0629, 0xfe93, 0, 0, 0xfe94, 'R'},           // teh marbuta
	{0x062b, 0xfe99, 0xfe9b, 0xfe9c, 0xfe9a, 'D'}, // theh
	{0x062c, 0xfe9d, 0xfe9f, 0xfea0, 0xfe9e, 'D'}, // jeem
	{0x0686, 0xfb7a, 0xfb7c, 0xfb7d, 0xfb7b, 'D'}, // tcheh
	{0x062d, 0xfea1, 0xfea3, 0xfea4, 0xfea2, 'D'}, // hah
	{0x062e, 0xfea5, 0xfea7, 0xfea8, 0xfea6, 'D'}, // khah
	{0x062f, 0xfea9, 0, 0, 0xfeaa, 'R'},           // dal
	{0x0630, 0xfeab, 0, 0, 0xfeac, 'R'},           // thal
	{0x0631, 0xfead, 0, 0, 0xfeae, 'R'},           // reh
	{0x0698, 0xfb8a, 0, 0, 0xfb8b, 'R'},           // jeh
	{0x0632, 0xfeaf, 0, 0, 0xfeb0, 'R'},           // zain
	{0x0633, 0xfeb1, 0xfeb3, 0xfeb4, 0xfeb2, 'D'}, // seen
	{0x0634, 0xfeb5, 0xfeb7, 0xfeb8, 0xfeb6, 'D'}, // sheen
	{0x0635, 0xfeb9, 0xfebb, 0xfebc, 0xfeba, 'D'}, // sad
	{0x0636, 0xfebd, 0xfebf, 0xfec0, 0xfebe, 'D'}, // dad
	{0x0637, 0xfec1, 0xfec3, 0xfec4, 0xfec2, 'D'}, // tah
	{0x0638, 0xfec5, 0xfec7, 0xfec8, 0xfec6, 'D'}, // zah
	{0x0639, 0xfec9, 0xfecb, 0xfecc, 0xfeca, 'D'}, // ain
	{0x063a, 0xfecd, 0xfecf, 0xfed0, 0xfece, 'D'}, // ghain
	{0x0641, 0xfed1, 0xfed3, 0xfed4, 0xfed2, 'D'}, // feh
	{0x0642, 0xfed5, 0xfed7, 0xfed8, 0xfed6, 'D'}, // qaf
	{0x0643, 0xfed9, 0xfedb, 0xfedc, 0xfeda, 'D'}, // kaf
	{0x06a9, 0xfb8e, 0xfb90, 0xfb91, 0xfb8f, 'D'}, // keheh
	{0x06af, 0xfb92, 0xfb94, 0xfb95, 0xfb93, 'D'}, // gaf
	{0x0644, 0xfedd, 0xfedf, 0xfee0, 0xfede, 'D'}, // lam
	{0x0645, 0xfee1, 0xfee3, 0xfee4, 0xfee2, 'D'}, // meem
	{0x0646, 0xfee5, 0xfee7, 0xfee8, 0xfee6, 'D'}, // noon
	{0x0647, 0xfee9, 0xfeeb, 0xfeec, 0xfeea, 'D'}, // heh
	{0x0648, 0xfeed, 0, 0, 0xfeee, 'R'},           // waw
	{0x06cc, 0xfbfc, 0xfbfe, 0xfbff, 0xfbfd, 'D'}, // farsi yeh
	{0x064a, 0xfef1, 0xfef3, 0xfef4, 0xfef2, 'D'}, // yeh
	{0x0649, 0xfeef, 0, 0, 0xfef0, 'R'},           // alef maksura
	{0x0640, 0x0640, 0, 0, 0, 'C'},                // arabic tatweel
}

var arabicMarks = []rune{0x64b, 0x64c, 0x64d, 0x64e, 0x64f, 0x650, 0x651, 0x652, 0x653, 0x654, 0x655, 0x656, 0x657, 0x658, 0x670}

// lamAlef gives the isolated form of lam with an alef, the final one follows it.
var lamAlef = map[rune]rune{0x622: 0xfef5, 0x623: 0xfef7, 0x625: 0xfef9, 0x627: 0xfefb}

const allah = 0xfdf2

// shadda gives the marks of a ligature.
var shaddaOf = map[rune]rune{0xfc5e: 0x64c, 0xfc5f: 0x64d, 0xfc60: 0x64e, 0xfc61: 0x64f, 0xfc62: 0x650, 0xfc63: 0x670}

var otherRunes = []rune(" \n\tabcXYZ0189.,:;!?()[]\"'-_%é\u060c\u061b\u061f\u0660\u0664\u0669\u06f0\u06f7\u200c\u05d0\u05e9\u4e2d\U0001f600\U00010348\ufffd\u0301\u066a\u00a0")

func isMark(r rune) bool { return strings.ContainsRune(string(arabicMarks), r) }

func arabicOf(r rune) *arabicLetter {
	for i := range arabicLetters {
		if arabicLetters[i].r == r {
			return &arabicLetters[i]
		}
	}
	return nil
}

// cluster is a character of a shaped text with the marks on it.
type cluster struct {
	is    []rune // what the character may be
	marks []rune
}

// shape gives the clusters of a text in the order of reading; the first one has
// the marks before the first character.
func shapeText(text []rune) []cluster {
	type ch struct {
		r     rune
		marks []rune
	}
	chars := []ch{{}}
	for _, r := range text {
		if isMark(r) {
			chars[len(chars)-1].marks = append(chars[len(chars)-1].marks, r)
		} else {
			chars = append(chars, ch{r: r})
		}
	}
	at := func(i int) *arabicLetter {
		if i < 1 || i >= len(chars) {
			return nil
		}
		return arabicOf(chars[i].r)
	}
	// joined tells whether characters i and i+1 are joined
	joined := func(i int) bool {
		a, b := at(i), at(i+1)
		return a != nil && b != nil && (a.joins == 'D' || a.joins == 'C') && b.joins != 'U'
	}
	out := []cluster{{marks: chars[0].marks}}
	for i := 1; i < len(chars); i++ {
		l := at(i)
		if l == nil {
			out = append(out, cluster{[]rune{chars[i].r}, chars[i].marks})
			continue
		}
		// the word Allah without marks within it, not joined to other letters
		if i+3 < len(chars) && chars[i].r == 0x627 && chars[i+1].r == 0x644 && chars[i+2].r == 0x644 && chars[i+3].r == 0x647 &&
			len(chars[i].marks)+len(chars[i+1].marks)+len(chars[i+2].marks) == 0 && !joined(i-1) && !joined(i+3) {
			out = append(out, cluster{[]rune{allah}, chars[i+3].marks})
			i += 3
			continue
		}
		before, after := joined(i-1), joined(i)
		if l.r == 0x644 && i+1 < len(chars) {
			if lig, ok := lamAlef[chars[i+1].r]; ok {
				if before {
					lig++
				}
				out = append(out, cluster{[]rune{lig}, append(append([]rune{}, chars[i].marks...), chars[i+1].marks...)})
				i++
				continue
			}
		}
		var is []rune
		switch {
		case l.joins == 'C':
			is = []rune{l.r}
		case before && after:
			is = []rune{l.medial}
		case before && l.final != 0:
			is = []rune{l.final}
		case after:
			is = []rune{l.initial}
		default: // fonts show the letter itself isolated
			is = []rune{l.isolated, l.r}
		}
		out = append(out, cluster{is, chars[i].marks})
	}
	return out
}

func sortedRunes(r []rune) string {
	s := append([]rune{}, r...)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	return fmt.Sprintf("%04x", s)
}

// compareShaped tells what is wrong about a shaped text, which goes from the
// last character to the first with the marks of each before it.
func compareShaped(text string, got string) string {
	want := shapeText([]rune(text))
	var marks []rune
	n := len(want) - 1
	for _, r := range got {
		if v, ok := shaddaOf[r]; ok {
			marks = append(marks, v, 0x651)
			continue
		}
		if isMark(r) {
			marks = append(marks, r)
			continue
		}
		if n < 1 {
			return fmt.Sprintf("%U is one character too many", r)
		}
		w := want[n]
		ok := false
		for _, x := range w.is {
			ok = ok || x == r
		}
		if !ok {
			return fmt.Sprintf("character %d is %U instead of %U", n, r, w.is)
		}
		if sortedRunes(marks) != sortedRunes(w.marks) {
			return fmt.Sprintf("character %d has the marks %U instead of %U", n, marks, w.marks)
		}
		marks = nil
		n--
	}
	if n > 0 {
		return fmt.Sprintf("%d characters are missing", n)
	}
	if sortedRunes(marks) != sortedRunes(want[0].marks) {
		return fmt.Sprintf("the marks before the first character are %U instead of %U", marks, want[0].marks)
	}
	return ""
}

// arabicWord draws letters with marks.
func arabicWord(c *Case, l string) (s []rune) {
	if c.Chance(12, l+"special") {
		s = []rune(c.Pick(l+"sp", "الله", "لا", "لله", "اللهجة", "والله", "بالله", "سلا", "شيء", "ژا", "لآ", "لإ", "ةب", "اللّه", "الا"))
		if c.Chance(40, l+"marked") {
			// marks on some of its letters, mostly the last one
			for k := 1 + c.U(2, l+"marks"); k > 0; k-- {
				at := len(s)
				if c.Bool(l + "within") {
					at = 1 + c.U(len(s), l+"at")
				}
				s = append(s[:at:at], append([]rune{pick(c, l+"m", arabicMarks)}, s[at:]...)...)
			}
		}
		if c.Chance(30, l+"suffix") {
			s = append(s, pick(c, l+"letter", arabicLetters).r)
		}
		return s
	}
	for n := 1 + c.U(8, l+"len"); n > 0; n-- {
		r := pick(c, l+"letter", arabicLetters).r
		if c.Chance(20, l+"lam") {
			r = pick(c, l+"ll", []rune{0x644, 0x627, 0x623, 0x622, 0x625, 0x621, 0x647, 0x640})
		}
		s = append(s, r)
		if c.Chance(25, l+"mark") {
			k := 1 + c.U(3, l+"marks")
			if c.Chance(5, l+"stacked") {
				k += c.U(10, l+"marks")
			}
			for ; k > 0; k-- {
				s = append(s, pick(c, l+"m", arabicMarks))
			}
		}
	}
	return s
}

// TestC21_Shaping shapes texts of words, marks and other characters.
func TestC21_Shaping(t *testing.T) {
	Run(t, Opt{Quick: 500000, Thorough: 20000000, Rule: "at least 3 Arabic letters, two of them joined"}, func(c *Case) {
		var text []rune
		if c.Chance(8, "lead") {
			text = append(text, pick(c, "leadmark", arabicMarks))
		}
		for n := 1 + c.U(6, "n"); n > 0; n-- {
			if c.Chance(65, "arabic") {
				text = append(text, arabicWord(c, "w")...)
			} else {
				for k := 1 + c.U(4, "k"); k > 0; k-- {
					text = append(text, pick(c, "other", otherRunes))
				}
			}
			if c.Chance(40, "blank") {
				text = append(text, ' ')
			}
		}
		c.Log("%+q", string(text))
		got := gopdf.ToArabic(string(text))
		if s := compareShaped(string(text), got); s != "" {
			c.Bad("%+q is shaped to %+q: %s", string(text), got, s)
		}
		for i := 0; i < 2; i++ {
			if again := gopdf.ToArabic(string(text)); again != got {
				c.Bad("%+q is shaped to %+q and then to %+q", string(text), got, again)
			}
		}
		joined, letters := false, 0
		for _, w := range shapeText(text) {
			if len(w.is) > 0 && w.is[0] >= 0xfb50 && w.is[0] < 0xff00 {
				letters++
				joined = joined || len(w.is) == 1
			}
			if len(w.marks) > 1 {
				c.Class("several marks")
			}
		}
		if letters >= 3 && joined {
			c.Nontrivial()
		}
	})
}

// TestC21_Concurrent shapes texts in several goroutines.
func TestC21_Concurrent(t *testing.T) {
	Run(t, Opt{Quick: 1500, Thorough: 40000, Rule: "at least 4 different texts, one of them of more than 200 characters"}, func(c *Case) {
		var texts, want []string
		long := 0
		for n := 2 + c.U(6, "texts"); n > 0; n-- {
			var s []rune
			for k := 1 + c.U(8, "words"); k > 0; k-- {
				s = append(append(s, arabicWord(c, "w")...), pick(c, "other", otherRunes))
			}
			for k := c.U(6, "double"); k > 0; k-- {
				s = append(s, s...)
			}
			if len(s) > long {
				long = len(s)
			}
			texts = append(texts, string(s))
			got := gopdf.ToArabic(string(s))
			if bad := compareShaped(string(s), got); bad != "" {
				c.Bad("%+q is shaped to %+q: %s", string(s), got, bad)
			}
			want = append(want, got)
		}
		c.Log("%d texts, at most %d characters: %+q", len(texts), long, texts)
		rounds := 1 + c.U(20, "rounds")
		bad := make([]string, 12)
		var wg sync.WaitGroup
		for g := range bad {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for n := 0; n < rounds && bad[g] == ""; n++ {
					i := (g + n) % len(texts)
					if got := gopdf.ToArabic(texts[i]); got != want[i] {
						bad[g] = fmt.Sprintf("%+q is shaped to %+q alone and to %+q while other texts are shaped", texts[i], want[i], got)
					}
				}
			}(g)
		}
		wg.Wait()
		for _, b := range bad {
			if b != "" {
				c.Bad("%s", b)
			}
		}
		if len(texts) >= 4 && long > 200 {
			c.Nontrivial()
		}
	})
}

// plain gives the characters a presentation form stands for.
func plain(r rune) []rune {
	for _, l := range arabicLetters {
		if r == l.isolated || r == l.initial || r == l.medial || r == l.final {
			return []rune{l.r}
		}
	}
	for a, lig := range lamAlef {
		if r == lig || r == lig+1 {
			return []rune{0x644, a}
		}
	}
	if v, ok := shaddaOf[r]; ok {
		return []rune{v, 0x651}
	}
	if r == allah {
		return []rune{0x627, 0x644, 0x644, 0x647}
	}
	return []rune{r}
}

// TestC21_Anything shapes strings of any characters.
func TestC21_Anything(t *testing.T) {
	Run(t, Opt{Quick: 200000, Thorough: 10000000, Rule: "at least 4 characters, one of them Arabic"}, func(c *Case) {
		var b []byte
		for n := c.U(20, "n"); n > 0; n-- {
			switch c.U(6, "kind") {
			case 0:
				b = append(b, byte(c.U(256, "byte")))
			case 1:
				b = append(b, string(rune(c.U(0x30000, "rune")))...)
			case 2:
				b = append(b, string(rune(0x600+c.U(0x180, "block")))...)
			case 3:
				b = append(b, string(rune(0xfb50+c.U(0x3b0, "form")))...)
			case 4:
				b = append(b, string(pick(c, "mark", arabicMarks))...)
			default:
				b = append(b, string(arabicWord(c, "w"))...)
			}
		}
		s := string(b)
		c.Log("%+q", s)
		got := gopdf.ToArabic(s)
		if !utf8.ValidString(got) {
			c.Bad("%+q is shaped to the malformed %+q", s, got)
		}
		if again := gopdf.ToArabic(s); again != got {
			c.Bad("%+q is shaped to %+q and then to %+q", s, got, again)
		}
		count := map[rune]int{}
		for _, r := range s {
			for _, p := range plain(r) {
				count[p]++
			}
		}
		for _, r := range got {
			for _, p := range plain(r) {
				count[p]--
			}
		}
		for r, n := range count {
			if n != 0 {
				c.Bad("%+q is shaped to %+q: %U is there %d times less often", s, got, r, n)
			}
		}
		arabic := false
		for _, r := range got {
			arabic = arabic || r >= 0xfb50 && r < 0xff00
		}
		if arabic && utf8.RuneCountInString(s) >= 4 {
			c.Nontrivial()
		}
	})
}
