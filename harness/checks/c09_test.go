package checks

import (
	"math"
	"strings"
	"testing"

	"github.com/signintech/gopdf"
)

// splitModel splits a text the way the documentation says.
func splitModel(text string, width float64, o gopdf.BreakOption, measure func(string) float64) (out []string) {
	paras := strings.Split(text, "\n")
	if len(paras) > 1 && paras[len(paras)-1] == "" {
		paras = paras[:len(paras)-1] // a newline ends its line
	}
	sep := []rune(o.Separator)
	for pi, para := range paras {
		rest := []rune(para)
		if len(rest) == 0 {
			out = append(out, "")
			continue
		}
		for len(rest) > 0 {
			n, sepFits := 0, -1
			for n < len(rest) && (n == 0 || !(measure(string(rest[:n+1])) > width)) {
				if len(sep) > 0 && measure(string(rest[:n+1])+o.Separator) <= width {
					sepFits = n
				}
				n++
			}
			if n == len(rest) {
				out = append(out, string(rest))
				break
			}
			cut := -1
			if o.Mode == gopdf.BreakModeIndicatorSensitive {
				if rest[n] == o.BreakIndicator && rest[n-1] != o.BreakIndicator {
					// the word just fits and its blank is dropped
					out = append(out, string(rest[:n]))
					rest = rest[n+1:]
					if len(rest) == 0 && pi+1 < strings.Count(text, "\n")+1 {
						out = append(out, "")
					}
					continue
				}
				for j := n - 1; j > 0 && cut < 0; j-- {
					if rest[j] == o.BreakIndicator {
						cut = j
					}
				}
			}
			switch {
			case cut > 0:
				out = append(out, string(rest[:cut]))
				rest = rest[cut+1:]
				if len(rest) == 0 {
					break
				}
			case sepFits >= 0:
				k := max(sepFits, 1)
				out = append(out, string(rest[:k])+o.Separator)
				rest = rest[k:]
			default:
				out = append(out, string(rest[:n]))
				rest = rest[n:]
			}
		}
	}
	return out
}

// splitSetup starts a document with one page and a font.
func splitSetup(c *Case) (*gopdf.GoPdf, *mfont, float64, func(n int, l string) string) {
	u := genUnit(c, "unit")
	k := u.k()
	p := new(gopdf.GoPdf)
	p.Start(gopdf.Config{Unit: u.Unit, ConversionForUnit: u.Conv, PageSize: gopdf.Rect{W: 1000 / k, H: 1000 / k}})
	p.AddPage()
	f, text := genMFont(c, "M")
	f.load(c, p)
	size := float64(8+c.U(200, "size")) / 8
	if err := p.SetFont("M", "", size); err != nil {
		c.Bad("SetFont: %v", err)
	}
	c.Log("unit %v size %g", u, size)
	if c.Chance(25, "spacing") {
		tc := pick(c, "tc", []float64{1, 0.5, 3.25, -0.75, -9, 10})
		p.SetCharSpacing(tc / k)
		c.Log("spacing %g", tc)
	}
	return p, f, k, text
}

// prose draws a text with words, blanks, newlines.
func prose(c *Case, text func(int, string) string, n int, favour ...rune) string {
	var sb strings.Builder
	k := 1 + c.U(n, "pieces")
	for i := 0; i < k; i++ {
		switch c.U(9, "piece") {
		case 0, 1, 2:
			sb.WriteString(text(9, "w"))
		case 3, 4, 5:
			if len(favour) > 0 && c.Chance(70, "fav") {
				sb.WriteString(strings.Repeat(string(favour[0]), 1+c.U(3, "run")))
				break
			}
			sb.WriteByte(' ')
		case 6:
			sb.WriteByte('\n')
		case 7:
			sb.WriteString(pick(c, "x", []string{"-", "\n\n", "  ", "\r\n", "\t", "-\n", " \n ", "—"}))
		case 8:
			sb.WriteString(text(3, "w"))
		}
	}
	return sb.String()
}

// boundary draws a width, often exactly that of a part of the text.
func boundary(c *Case, s string, measure func(string) float64) float64 {
	rs := []rune(strings.ReplaceAll(s, "\n", ""))
	switch c.U(10, "width") {
	case 0:
		return pick(c, "wx", []float64{0, -1, 1e9, math.Inf(1), 1e-9})
	case 1, 2, 3, 4:
		if len(rs) == 0 {
			return 10
		}
		i := c.U(len(rs), "from")
		j := i + 1 + c.U(len(rs)-i, "to")
		w := measure(string(rs[i:j]))
		switch c.U(4, "eps") {
		case 0:
			return math.Nextafter(w, math.Inf(-1))
		case 1:
			return math.Nextafter(w, math.Inf(1))
		}
		return w
	}
	return measure("aab b") * float64(1+c.U(40, "f")) / 8
}

func sameLines(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// TestC09_Split splits texts at every kind of width with every option.
func TestC09_Split(t *testing.T) {
	Run(t, Opt{Quick: 40000, Thorough: 4000000, Rule: "at least 3 lines"}, func(c *Case) {
		p, _, k, text := splitSetup(c)
		o := gopdf.BreakOption{Mode: pick(c, "mode", []gopdf.BreakMode{gopdf.BreakModeStrict, gopdf.BreakModeIndicatorSensitive}),
			BreakIndicator: pick(c, "ind", []rune{' ', ' ', '-', 'a', 0, '中'}), Separator: c.Pick("sep", "", "", "-", "ab", " ", "中")}
		s := prose(c, text, 14, o.BreakIndicator)
		if c.Chance(4, "empty") {
			s = ""
		}
		measure := func(x string) float64 {
			w, err := p.MeasureTextWidth(x)
			if err != nil {
				c.Bad("MeasureTextWidth(%q): %v", x, err)
			}
			return w
		}
		width := boundary(c, s, measure)
		how := c.U(4, "how")
		var got []string
		var err error
		x, y := p.GetX(), p.GetY()
		switch how {
		case 0:
			o = gopdf.BreakOption{}
			got, err = p.SplitText(s, width)
		case 1:
			o = gopdf.BreakOption{Mode: gopdf.BreakModeIndicatorSensitive, BreakIndicator: ' '}
			got, err = p.SplitTextWithWordWrap(s, width)
		case 2:
			o2 := o
			got, err = p.SplitTextWithOption(s, width, &o2)
			if o2 != o {
				c.Bad("the options were modified")
			}
		case 3:
			o = gopdf.BreakOption{}
			got, err = p.SplitTextWithOption(s, width, nil)
		}
		c.Log("split %d %q width %g (%g points) %+v", how, s, width, width*k, o)
		if p.GetX() != x || p.GetY() != y {
			c.Bad("splitting moves the position")
		}
		if s == "" {
			if err == nil || len(got) > 0 {
				c.Bad("splitting the empty text gives %q, %v", got, err)
			}
			return
		}
		if err != nil {
			c.Bad("splitting %q: %v", s, err)
		}
		c.Log("%q", got)
		// nothing lost, duplicated or reordered
		var all strings.Builder
		for _, l := range got {
			if strings.Contains(l, "\n") {
				c.Bad("the line %q has a newline", l)
			}
			all.WriteString(l)
		}
		spacing := strings.Contains(strings.Join(c.lines, " "), "spacing -")
		if o.Separator == "" {
			strip := func(x string) string {
				x = strings.ReplaceAll(x, "\n", "")
				if o.Mode == gopdf.BreakModeIndicatorSensitive {
					x = strings.ReplaceAll(x, string(o.BreakIndicator), "")
				}
				return x
			}
			if strip(all.String()) != strip(s) {
				c.Bad("the lines %q of %q are another text", got, s)
			}
			if o.Mode == gopdf.BreakModeStrict {
				// lines are as long as the width permits
				rs := []rune(strings.ReplaceAll(s, "\n", ""))
				at := 0
				src := []rune(s)
				pos := 0
				for i, l := range got {
					n := len([]rune(l))
					if string(rs[at:at+n]) != l {
						c.Bad("line %d %q is not the next part of %q", i, l, s)
					}
					at += n
					pos += n
					if pos < len(src) && src[pos] == '\n' {
						pos++
						continue
					}
					if pos < len(src) && !(measure(l+string(src[pos])) > width) {
						c.Bad("line %d %q ends although %q fits, too", i, l, src[pos])
					}
				}
			}
		}
		for i, l := range got {
			if w := measure(l); w > width && len([]rune(l)) > 1 && !spacing {
				c.Bad("line %d %q is %g wide, more than %g", i, l, w, width)
			}
		}
		if want := splitModel(s, width, o, measure); !sameLines(got, want) {
			c.Bad("the lines of %q are %q, expected are %q", s, got, want)
		}
		if len(got) >= 3 {
			c.Nontrivial()
		}
	})
}

// TestC09_Words: words that fit on a line are never broken by word wrap.
func TestC09_Words(t *testing.T) {
	Run(t, Opt{Quick: 20000, Thorough: 2000000, Rule: "at least 3 lines"}, func(c *Case) {
		p, _, _, _ := splitSetup(c)
		measure := func(x string) float64 {
			w, _ := p.MeasureTextWidth(x)
			return w
		}
		n := 1 + c.U(15, "words")
		var words []string
		max := 0.0
		for i := 0; i < n; i++ {
			w := c.word(7, "w")
			words = append(words, w)
			for j := range w {
				// (kerning can make the start of a word wider than the word)
				max = math.Max(max, measure(w[:j]))
			}
			max = math.Max(max, measure(w))
		}
		if max <= 0 {
			return // negative spacing
		}
		s := words[0]
		nl := 0
		for _, w := range words[1:] {
			if c.Chance(15, "nl") {
				s += "\n" + w
				nl++
			} else {
				s += " " + w
			}
		}
		width := max * pick(c, "f", []float64{1, 1, 1.5, 2, 4})
		c.Log("%q in %g", s, width)
		got, err := p.SplitTextWithWordWrap(s, width)
		if err != nil {
			c.Bad("splitting %q: %v", s, err)
		}
		spacing := strings.Contains(strings.Join(c.lines, " "), "spacing -")
		var back []string
		for i, l := range got {
			ws := strings.Fields(l)
			back = append(back, ws...)
			if spacing {
				continue
			}
			if measure(strings.TrimLeft(l, " ")) > width {
				c.Bad("line %d %q of %q is wider than %g", i, l, s, width)
			}
		}
		if !spacing && strings.Join(back, " ") != strings.Join(words, " ") {
			c.Bad("the lines %q break or lose a word of %q, all words fit in %g", got, s, width)
		}
		if len(got) < nl+1 {
			c.Bad("the lines %q ignore a newline of %q", got, s)
		}
		if len(got) >= 3 {
			c.Nontrivial()
		}
	})
}
