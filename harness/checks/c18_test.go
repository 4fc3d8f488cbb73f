package checks

import (
	"fmt"
	"regexp"
	"strconv"
	"testing"
	"time"

	"github.com/signintech/gopdf"

	"verif/pdf"
)

var dateRE = regexp.MustCompile(`^D:(\d{4})(\d\d)(\d\d)(\d\d)(\d\d)(\d\d)(?:(Z)|([+-])(\d\d)'(\d\d)'?)$`)

// pdfDate reads a date of the document.
func pdfDate(s string) (time.Time, error) {
	m := dateRE.FindStringSubmatch(s)
	if m == nil {
		return time.Time{}, fmt.Errorf("%q is no date", s)
	}
	n := func(i int) int { v, _ := strconv.Atoi(m[i]); return v }
	if n(2) < 1 || n(2) > 12 || n(3) < 1 || n(3) > 31 || n(4) > 23 || n(5) > 59 || n(6) > 59 || n(9) > 23 || n(10) > 59 {
		return time.Time{}, fmt.Errorf("%q is out of range", s)
	}
	off := n(9)*3600 + n(10)*60
	if m[8] == "-" {
		off = -off
	}
	return time.Date(n(1), time.Month(n(2)), n(3), n(4), n(5), n(6), 0, time.FixedZone("", off)), nil
}

// info draws a document information with fields set or not.
func (c *Case) info() (in gopdf.PdfInfo) {
	str := func() string {
		switch c.U(6, "field") {
		case 0, 1:
			return ""
		case 2:
			return c.word(8, "w")
		case 3:
			// every code point counts
			return string(rune(c.U(0x10000, "cp")&^0x800)) + string(rune(0x10000+c.U(0xFFFF, "ap")*16))
		}
		return c.unicode(14, "u")
	}
	in.Title, in.Author, in.Subject, in.Creator, in.Producer = str(), str(), str(), str(), str()
	if c.Chance(60, "date") {
		off := 0
		if c.Chance(75, "zone") {
			off = (c.U(28*60, "off") - 14*60) * 60
			if c.Bool("quarter") {
				off = off / 900 * 900
			}
		}
		in.CreationDate = time.Date(1000+c.U(9000, "year"), time.Month(1+c.U(12, "month")), 1+c.U(28, "day"), c.U(24, "hour"), c.U(60, "min"), c.U(60, "sec"), c.U(999999999, "ns"), time.FixedZone("zone", off))
	}
	return
}

func TestC18_Info(t *testing.T) {
	Run(t, Opt{Quick: 60000, Thorough: 4000000, Rule: "at least 2 texts outside of ASCII or with document syntax"}, func(c *Case) {
		cfg := gopdf.Config{PageSize: *gopdf.PageSizeA5}
		protect := c.Chance(25, "protect")
		if protect {
			cfg.Protection = gopdf.PDFProtectionConfig{UseProtection: true, UserPass: []byte("u"), OwnerPass: []byte("o")}
		}
		p := new(gopdf.GoPdf)
		p.Start(cfg)
		if got := p.GetInfo(); got != (gopdf.PdfInfo{}) {
			c.Bad("a new document has the information %+v", got)
		}
		set := false
		var in gopdf.PdfInfo
		var titles []string
		pages := 0
		n := 2 + c.U(8, "n")
		for i := 0; i < n; i++ {
			switch c.U(6, "op") {
			case 0, 1:
				in = c.info()
				set = true
				given := in
				p.SetInfo(given)
				given.Title = "changed afterwards"
				c.Log("info %+q %v", []string{in.Title, in.Author, in.Subject, in.Creator, in.Producer}, in.CreationDate)
			case 2, 3:
				if pages == 0 {
					p.AddPage()
					pages++
				}
				s := c.unicode(14, "title")
				if c.Bool("pos") {
					p.AddOutlineWithPosition(s)
				} else {
					p.AddOutline(s)
				}
				titles = append(titles, s)
				c.Log("outline %+q", s)
			case 4:
				p.AddPage()
				pages++
			case 5:
				output(c, p)
			}
			if got := p.GetInfo(); got != in {
				c.Bad("the information reads back as %+v instead of %+v", got, in)
			}
		}
		if pages == 0 {
			p.AddPage()
		}
		b := output(c, p)
		d, _ := parse(c, b)
		if protect {
			d = decrypted(c, b, []byte("u"))
		}
		odd := 0
		text := func(o any) (string, bool) {
			if o == nil {
				return "", false
			}
			s, ok := d.Resolve(o).(pdf.Str)
			if !ok {
				return "", false
			}
			t, err := pdf.TextString(s)
			if err != nil {
				c.Bad("not a text string: %v", err)
			}
			return t, true
		}
		info := d.Dict(d.Trailer.Get("Info"))
		fields := map[string]string{"Title": in.Title, "Author": in.Author, "Subject": in.Subject, "Creator": in.Creator, "Producer": in.Producer}
		for kk, w := range fields {
			k := pdf.Name(kk)
			if info == nil {
				if w != "" {
					c.Bad("there is no document information, %s should be %q", k, w)
				}
				continue
			}
			g, ok := text(info.Get(k))
			if w == "" {
				if info.Has(k) {
					c.Bad("%s is there (%q) without having been set", k, g)
				}
				continue
			}
			if !ok || g != w {
				c.Bad("%s reads back as %+q instead of %+q", k, g, w)
			}
			for _, r := range w {
				if r > 127 || r == '(' || r == '\\' || r < 32 {
					odd++
					break
				}
			}
		}
		if info != nil {
			for _, k := range info.Keys {
				if _, ok := fields[string(k)]; !ok && k != "CreationDate" {
					c.Bad("the information has the entry %s", k)
				}
			}
			if !set && len(info.Keys) > 0 {
				c.Bad("information is written without having been set")
			}
		}
		if set {
			if in.CreationDate.IsZero() {
				if info != nil && info.Has("CreationDate") {
					c.Bad("a creation date is there without having been set")
				}
			} else {
				if info == nil {
					c.Bad("there is no document information")
				}
				s, ok := text(info.Get("CreationDate"))
				if !ok {
					c.Bad("there is no creation date")
				}
				got, err := pdfDate(s)
				if err != nil {
					c.Bad("creation date: %v", err)
				}
				if want := in.CreationDate.Truncate(time.Second); !got.Equal(want) {
					c.Bad("the creation date reads back as %v (%s) instead of %v", got, s, want)
				}
			}
		}
		items, probs := d.Outlines()
		if len(probs) > 0 {
			c.Bad("%v", probs)
		}
		if len(items) != len(titles) {
			c.Bad("%d outline entries instead of %d", len(items), len(titles))
		}
		for i, w := range titles {
			g, ok := text(items[i].Dict.Get("Title"))
			if !ok || g != w {
				c.Bad("outline title %d reads back as %+q instead of %+q", i, g, w)
			}
			for _, r := range w {
				if r > 127 || r == '(' || r == '\\' || r < 32 {
					odd++
					break
				}
			}
		}
		if odd >= 2 {
			c.Nontrivial()
		}
	})
}
