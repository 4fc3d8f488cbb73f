package checks

import (
	"bytes"
	"fmt"
	"image"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/signintech/gopdf"
)

// A document program is data: a configuration and a list of calls with all
// arguments fixed (lengths in points), which can be executed any number of
// times, in any unit, interleaved with anything.

type Env struct {
	p      *gopdf.GoPdf
	k      float64 // points per unit of the document
	ret    []string
	lens   []float64 // lengths returned, converted to points
	tpl    map[int]int
	fc     *gopdf.FontContainer
	ol     map[int]*gopdf.OutlineObj
	miss   []rune
	mut    []string // arguments found modified after the call
	direct bool     // load the container's fonts directly
}

func (e *Env) u(pt float64) float64 { return pt / e.k }
func (e *Env) rect(w, h float64) *gopdf.Rect {
	return &gopdf.Rect{W: e.u(w), H: e.u(h)}
}
func (e *Env) note(f string, a ...any) { e.ret = append(e.ret, fmt.Sprintf(f, a...)) }
func (e *Env) err(err error) {
	if err != nil {
		e.note("error: %v", err)
	} else {
		e.note("ok")
	}
}
func (e *Env) length(v float64) { e.lens = append(e.lens, v*e.k) }

type Op struct {
	Desc string
	Do   func(e *Env)
}

type unitCfg struct {
	Unit int
	Conv float64
}

func (u unitCfg) k() float64 {
	if u.Conv != 0 {
		return u.Conv
	}
	switch u.Unit {
	case gopdf.UnitMM:
		return 72 / 25.4
	case gopdf.UnitCM:
		return 72 / 2.54
	case gopdf.UnitIN:
		return 72
	case gopdf.UnitPX:
		return 0.75
	}
	return 1
}

var units = []unitCfg{{gopdf.UnitPT, 0}, {gopdf.UnitMM, 0}, {gopdf.UnitCM, 0}, {gopdf.UnitIN, 0}, {gopdf.UnitPX, 0}, {gopdf.UnitUnset, 0}, {gopdf.UnitPT, 0.24}, {gopdf.UnitMM, 7.5}, {gopdf.UnitUnset, 2}}

type progCfg struct {
	unit         unitCfg
	w, h         float64
	std          *gopdf.Rect // predefined size, used as is
	trim         *[4]float64 // l t r b in points
	protect      bool
	perm         int
	user, owner  []byte
	level        int
	setLevel     bool
	keepDefaults bool
}

type Prog struct {
	cfg       progCfg
	ops       []Op
	hasImport bool
	pages     int
	fonts     []string
	shared    []fontUse // fonts taken from a container
}

type fontUse struct {
	family string
	font   int
	opt    gopdf.TtfOption
	plain  bool // added without options
}

func (cfg progCfg) config() gopdf.Config {
	k := cfg.unit.k()
	gc := gopdf.Config{Unit: cfg.unit.Unit, ConversionForUnit: cfg.unit.Conv}
	if cfg.std != nil {
		gc.PageSize = *cfg.std
	} else {
		gc.PageSize = gopdf.Rect{W: cfg.w / k, H: cfg.h / k}
	}
	if cfg.trim != nil {
		gc.TrimBox = gopdf.Box{Left: cfg.trim[0] / k, Top: cfg.trim[1] / k, Right: cfg.trim[2] / k, Bottom: cfg.trim[3] / k}
	}
	if cfg.protect {
		gc.Protection = gopdf.PDFProtectionConfig{UseProtection: true, Permissions: cfg.perm, UserPass: cfg.user, OwnerPass: cfg.owner}
	}
	return gc
}

func (cfg progCfg) start() *Env { return cfg.startOn(&gopdf.GoPdf{}) }

// startOn starts the document with a value that may have been used for another one.
func (cfg progCfg) startOn(p *gopdf.GoPdf) *Env {
	e := &Env{p: p, k: cfg.unit.k(), tpl: map[int]int{}, ol: map[int]*gopdf.OutlineObj{}}
	e.p.Start(cfg.config())
	if cfg.setLevel {
		e.p.SetCompressLevel(cfg.level)
	}
	return e
}

func (pr *Prog) container(c *Case) *gopdf.FontContainer {
	if len(pr.shared) == 0 {
		return nil
	}
	fc := &gopdf.FontContainer{}
	for _, s := range pr.shared {
		if err := addFont(fc, len(s.family)%fontWays, s.family, stdFonts()[s.font].data, &s.opt); err != nil {
			c.Bad("font container: %v", err)
		}
	}
	return fc
}

// build executes the program.
func (pr *Prog) build(c *Case, fc *gopdf.FontContainer) *Env {
	e := pr.cfg.start()
	if fc == nil {
		fc = pr.container(c)
	}
	e.fc = fc
	for _, o := range pr.ops {
		o.Do(e)
	}
	if len(e.mut) > 0 {
		c.Bad("arguments of the caller were modified: %v", e.mut)
	}
	return e
}

func (pr *Prog) log(c *Case) {
	cfg := pr.cfg
	c.Log("config unit=%v size=%gx%g std=%v trim=%v protect=%v perm=%d user=%q owner=%q level=%d/%v", cfg.unit, cfg.w, cfg.h, cfg.std != nil, cfg.trim, cfg.protect, cfg.perm, cfg.user, cfg.owner, cfg.level, cfg.setLevel)
	for i, o := range pr.ops {
		c.Log("%d: %s", i, o.Desc)
	}
}

// ---- generation -----------------------------------------------------------

type progOpt struct {
	ops        int
	imports    bool
	protect    int // percent
	units      bool
	hostile    bool // odd names of families, colour spaces, templates
	unitSafe   bool // leave out what depends on the unit by design
	noPosOut   bool
	container  bool
	noMissing  bool
	noPassword bool
	common     []fontUse // fonts of the shared container
}

type progGen struct {
	c       *Case
	o       progOpt
	pr      *Prog
	stack   []byte // open 'q' and 'r'
	fams    []famStyle
	cur     bool // a font is set
	spaces  []string
	anchors []string
	holders []string
	nols    int
	tpls    []int
	nimp    int
	pw, ph  float64 // current page size
	sizes   [][2]float64
	header  bool
	swarm   [24]bool
}

type famStyle struct {
	family string
	style  int
	font   int
}

func (g *progGen) add(f func(e *Env), format string, a ...any) {
	g.pr.ops = append(g.pr.ops, Op{fmt.Sprintf(format, a...), f})
}

func (g *progGen) closeStack() {
	for i := len(g.stack) - 1; i >= 0; i-- {
		if g.stack[i] == 'q' {
			g.add(func(e *Env) { e.p.RestoreGraphicsState() }, "RestoreGraphicsState()")
		} else {
			g.add(func(e *Env) { e.p.RotateReset() }, "RotateReset()")
		}
	}
	g.stack = nil
}

var hostileNames = []string{"a b", "x/y", "(z)", "a#20", "<q>", "[1]", "{c}", "%d", "é", "a\nb", "世", "\x00", "a\tb", "#", "longer name, with comma"}

func (g *progGen) name(pre string, i int) string {
	if g.o.hostile && g.c.Chance(40, "hostile") {
		return pick(g.c, "name", hostileNames) + fmt.Sprint(i)
	}
	return fmt.Sprintf("%s%d", pre, i)
}

func genCfg(c *Case, o progOpt) progCfg {
	cfg := progCfg{w: c.F(60, 700, "w"), h: c.F(60, 900, "h")}
	if o.units {
		cfg.unit = pick(c, "unit", units)
	} else {
		cfg.unit = units[0]
	}
	if c.Chance(25, "trim") {
		cfg.trim = &[4]float64{c.F(0, 20, "tl"), c.F(0, 20, "tt"), c.F(30, 60, "tr"), c.F(30, 60, "tb")}
	}
	if c.Chance(o.protect, "protect") {
		cfg.protect = true
		cfg.perm = pick(c, "perm", []int{0, gopdf.PermissionsPrint, gopdf.PermissionsModify, gopdf.PermissionsCopy, gopdf.PermissionsAnnotForms, gopdf.PermissionsPrint | gopdf.PermissionsCopy, 60})
		cfg.user = []byte(c.word(10, "user"))
		cfg.owner = []byte(c.word(10, "owner"))
		if c.Chance(30, "noUser") {
			cfg.user = nil
		}
	}
	if c.Chance(30, "lvl") {
		cfg.setLevel = true
		cfg.level = pick(c, "level", []int{0, 1, 9, -1, -2})
	}
	return cfg
}

func genProg(c *Case, o progOpt) *Prog {
	g := &progGen{c: c, o: o, pr: &Prog{}}
	g.pr.cfg = genCfg(c, o)
	if c.Chance(12, "headerfirst") {
		g.headerOp()
	}
	g.fontOp()
	g.pageOp()
	if c.Chance(50, "swarm") {
		for i := 0; i < 3; i++ {
			g.swarm[c.U(24, "kind")] = true
		}
	}
	if c.Chance(3, "bulk") {
		g.bulkOp()
	}
	n := 1 + c.U(o.ops, "nops")
	for i := 0; i < n; i++ {
		g.op()
	}
	g.closeStack()
	g.nestOp()
	return g.pr
}

func (g *progGen) pageOp() {
	c := g.c
	g.closeStack()
	g.pr.pages++
	w, h := g.pr.cfg.w, g.pr.cfg.h
	if c.Chance(35, "popt") {
		var sz *[2]float64
		var tb *[4]float64
		if c.Chance(70, "psz") {
			sz = &[2]float64{c.F(60, 500, "pw"), c.F(60, 600, "ph")}
			w, h = sz[0], sz[1]
		}
		if c.Chance(40, "ptrim") {
			tb = &[4]float64{c.F(0, 9, "tl"), c.F(1, 9, "tt"), c.F(30, 60, "tr"), c.F(30, 60, "tb")}
		}
		d := "AddPageWithOption("
		if sz != nil {
			d += fmt.Sprintf("size %v ", *sz)
		}
		if tb != nil {
			d += fmt.Sprintf("trim %v", *tb)
		}
		g.add(func(e *Env) {
			var po gopdf.PageOption
			if sz != nil {
				po.PageSize = e.rect(sz[0], sz[1])
			}
			if tb != nil {
				po.TrimBox = &gopdf.Box{Left: e.u(tb[0]), Top: e.u(tb[1]), Right: e.u(tb[2]), Bottom: e.u(tb[3])}
			}
			e.p.AddPageWithOption(po)
		}, "%s)", d)
	} else {
		g.add(func(e *Env) { e.p.AddPage() }, "AddPage()")
	}
	g.pw, g.ph = w, h
	g.sizes = append(g.sizes, [2]float64{w, h})
}

// bulkOp adds many of something, mostly pages, so that what follows has big numbers.
func (g *progGen) bulkOp() {
	switch g.c.U(10, "bulkkind") {
	case 0:
		n, font, fam0 := 10+g.c.U(30, "bulkfonts"), g.c.U(4, "font"), g.fams[0]
		g.add(func(e *Env) {
			for i := 0; i < n; i++ {
				fam := fmt.Sprintf("bulk %d", i)
				e.err(e.p.AddTTFFontData(fam, stdFonts()[font].data))
				e.err(e.p.SetFont(fam, "", 8))
				e.err(e.p.Text(string(rune('A' + i%26))))
			}
			e.err(e.p.SetFontWithStyle(fam0.family, fam0.style, 11))
		}, "AddTTFFontData, SetFont, Text, %d times", n)
		return
	case 1:
		n := 10 + g.c.U(200, "bulkcolours")
		g.add(func(e *Env) {
			for i := 0; i < n; i++ {
				name := fmt.Sprintf("bulk %d", i)
				e.err(e.p.AddColorSpaceRGB(name, uint8(i), 1, 2))
				e.err(e.p.SetColorSpace(name))
				e.p.Line(e.u(float64(i)), e.u(1), e.u(float64(i)), e.u(20))
			}
		}, "AddColorSpaceRGB, SetColorSpace, Line, %d times", n)
		return
	case 2:
		n := 10 + g.c.U(300, "bulktransparencies")
		g.add(func(e *Env) {
			for i := 0; i < n; i++ {
				e.err(e.p.SetTransparency(gopdf.Transparency{Alpha: float64(i) / 400, BlendModeType: gopdf.Overlay}))
				e.p.Line(e.u(float64(i)), e.u(1), e.u(float64(i)), e.u(20))
			}
			e.p.ClearTransparency()
		}, "SetTransparency, Line, %d times", n)
		return
	}
	g.closeStack()
	n := 10 + g.c.U(160, "bulkpages")
	g.add(func(e *Env) {
		for i := 0; i < n; i++ {
			e.p.AddPage()
		}
	}, "AddPage() %d times", n)
	g.pr.pages += n
	g.pw, g.ph = g.pr.cfg.w, g.pr.cfg.h
	for i := 0; i < n; i++ {
		g.sizes = append(g.sizes, [2]float64{g.pw, g.ph})
	}
}

func (g *progGen) headerOp() {
	c := g.c
	x, y := c.F(0, 50, "x"), c.F(0, 50, "y")
	f := c.Bool("footer")
	g.header = true
	do := func(e *Env) func() {
		return func() {
			e.p.SetLineWidth(e.u(0.75))
			e.p.SetStrokeColor(1, 2, 3)
			e.p.Line(e.u(x), e.u(y), e.u(x+20), e.u(y))
			e.p.SetXY(e.u(5), e.u(6))
		}
	}
	if f {
		g.add(func(e *Env) { e.p.AddFooter(do(e)) }, "AddFooter(line %g,%g)", x, y)
	} else {
		g.add(func(e *Env) { e.p.AddHeader(do(e)) }, "AddHeader(line %g,%g)", x, y)
	}
}

func (g *progGen) fontOp() {
	c := g.c
	i := len(g.fams)
	if len(g.o.common) > 0 && c.Chance(65, "common") {
		s := g.o.common[c.U(len(g.o.common), "which")]
		for _, f := range g.fams {
			if f.family == s.family {
				return
			}
		}
		g.fams = append(g.fams, famStyle{family: s.family, font: s.font})
		g.pr.fonts = append(g.pr.fonts, s.family)
		g.add(func(e *Env) {
			var err error
			if e.direct {
				err = e.p.AddTTFFontDataWithOption(s.family, stdFonts()[s.font].data, s.opt)
			} else {
				err = e.p.AddTTFFontFromFontContainer(s.family, e.fc)
			}
			if err == nil {
				err = e.p.SetFont(s.family, "", 11)
			}
			e.err(err)
		}, "AddTTFFontFromFontContainer(%q, std%d, kern %v); SetFont(..., 11)", s.family, s.font, s.opt.UseKerning)
		return
	}
	fs := famStyle{font: c.U(4, "font")}
	fs.family = g.name("F", i)
	if i > 0 && c.Chance(40, "samefam") {
		fs.family = g.fams[c.U(i, "fam")].family
	}
	fs.style = pick(c, "style", []int{0, 0, 0, gopdf.Bold, gopdf.Italic, gopdf.Bold | gopdf.Italic})
	for _, f := range g.fams {
		if f.family == fs.family && f.style == fs.style {
			return
		}
	}
	opt := gopdf.TtfOption{Style: fs.style, UseKerning: c.Chance(40, "kern")}
	if c.Chance(20, "subst") {
		opt.OnGlyphNotFoundSubstitute = func(r rune) rune { return '?' }
	}
	g.fams = append(g.fams, fs)
	g.pr.fonts = append(g.pr.fonts, fs.family)
	data := stdFonts()[fs.font].data
	how := c.U(fontWays, "how")
	plain := fs.style == 0 && !opt.UseKerning && opt.OnGlyphNotFoundSubstitute == nil && c.Bool("plain")
	if g.o.container && c.Chance(50, "container") {
		// a container keeps one font per family
		ok := true
		for _, s := range g.pr.shared {
			if s.family == fs.family {
				ok = false
			}
		}
		if ok && fs.style == 0 {
			g.pr.shared = append(g.pr.shared, fontUse{family: fs.family, font: fs.font, opt: opt})
			how = fontWays
		}
	}
	g.add(func(e *Env) {
		o := opt
		po := &o
		if plain {
			po = nil
		}
		var err error
		if how == fontWays {
			err = e.p.AddTTFFontFromFontContainer(fs.family, e.fc)
		} else {
			err = addFont(e.p, how, fs.family, data, po)
		}
		if err == nil {
			err = e.p.SetFontWithStyle(fs.family, fs.style, 11)
		}
		e.err(err)
	}, "AddTTFFont(%q, std%d, style %d, kern %v, how %d); SetFontWithStyle(..., 11)", fs.family, fs.font, fs.style, opt.UseKerning, how)
}

func (g *progGen) point(l string) (x, y float64) {
	return g.c.F(-10, g.pw+10, l+"x"), g.c.F(-10, g.ph+10, l+"y")
}

func (g *progGen) txt(n int) string {
	s := g.c.text(n, "text")
	if g.c.Chance(15, "odd") {
		r := []rune("世–😁�")
		if !g.o.noMissing {
			r = append(r, []rune(missingRunes)...)
		}
		s += string(r[g.c.U(len(r), "oddr")])
	}
	return s
}

func (g *progGen) transparency() *gopdf.Transparency {
	if !g.c.Chance(25, "transp") {
		return nil
	}
	t := gopdf.Transparency{Alpha: float64(g.c.U(101, "alpha")) / 100, BlendModeType: pick(g.c, "bm", blendModes)}
	return &t
}

var blendModes = []gopdf.BlendModeType{gopdf.NormalBlendMode, gopdf.Multiply, gopdf.Hue, gopdf.Color, gopdf.Darken, gopdf.Screen, gopdf.Overlay, gopdf.Lighten,
	gopdf.Exclusion, gopdf.ColorBurn, gopdf.HardLight, gopdf.SoftLight, gopdf.Difference, gopdf.Saturation, gopdf.Luminosity, gopdf.ColorDodge}

func tr(t *gopdf.Transparency) string {
	if t == nil {
		return ""
	}
	return fmt.Sprintf(" alpha=%.2f%s", t.Alpha, t.BlendModeType)
}

func cp(t *gopdf.Transparency) *gopdf.Transparency {
	if t == nil {
		return nil
	}
	v := *t
	return &v
}

func (g *progGen) cellOpt() (func(e *Env) gopdf.CellOption, string) {
	c := g.c
	al := pick(c, "halign", []int{0, gopdf.Left, gopdf.Center, gopdf.Right}) | pick(c, "valign", []int{0, gopdf.Top, gopdf.Middle, gopdf.Bottom})
	bo := pick(c, "border", []int{0, 0, gopdf.AllBorders, gopdf.Left, gopdf.Top, gopdf.Right | gopdf.Bottom})
	fl := pick(c, "float", []int{0, gopdf.Right, gopdf.Bottom})
	t := g.transparency()
	lh := pick(c, "lh", []float64{0, 0, 1.5, 2})
	var bk *gopdf.BreakOption
	if c.Chance(40, "brk") {
		bk = &gopdf.BreakOption{Mode: pick(c, "mode", []gopdf.BreakMode{gopdf.BreakModeStrict, gopdf.BreakModeIndicatorSensitive}), BreakIndicator: ' ', Separator: c.Pick("sep", "", "", "-")}
	}
	return func(e *Env) gopdf.CellOption {
		o := gopdf.CellOption{Align: al, Border: bo, Float: fl, Transparency: cp(t), CoefLineHeight: lh}
		if bk != nil {
			b := *bk
			o.BreakOption = &b
		}
		return o
	}, fmt.Sprintf("align=%d border=%d float=%d lh=%g%s brk=%v", al, bo, fl, lh, tr(t), bk)
}

func (g *progGen) op() {
	c := g.c
	type gen struct {
		w int
		f func()
	}
	gens := []gen{
		{5, g.pageOp}, {3, g.selectOp}, {3, g.fontOp}, {8, g.styleOp}, {8, g.colorOp}, {6, g.lineStyleOp},
		{8, g.cursorOp}, {14, g.textOp}, {10, g.cellOp}, {6, g.multiOp}, {18, g.shapeOp}, {8, g.stackOp},
		{4, g.transpOp}, {12, g.imageOp}, {6, g.linkOp}, {4, g.outlineOp}, {5, g.holderOp}, {2, g.infoOp},
		{2, g.headerOp}, {6, g.measureOp},
	}
	if !g.o.unitSafe {
		gens = append(gens, gen{3, g.tableOp})
	}
	if g.o.imports {
		gens = append(gens, gen{6, g.importOp})
	}
	sum := 0
	for i := range gens {
		if g.swarm[i] {
			gens[i].w *= 12
		}
		sum += gens[i].w
	}
	n := c.U(sum, "op")
	for _, x := range gens {
		if n < x.w {
			x.f()
			return
		}
		n -= x.w
	}
}

func (g *progGen) selectOp() {
	g.closeStack()
	n := 1 + g.c.U(g.pr.pages, "page")
	if g.c.Chance(15, "badpage") {
		n = pick(g.c, "bad", []int{0, -1, g.pr.pages + 1, 1000})
		g.add(func(e *Env) { e.err(e.p.SetPage(n)) }, "SetPage(%d) (no such page)", n)
		return
	}
	g.add(func(e *Env) { e.err(e.p.SetPage(n)) }, "SetPage(%d)", n)
	g.pw, g.ph = g.sizes[n-1][0], g.sizes[n-1][1]
}

func (g *progGen) styleOp() {
	c := g.c
	switch c.U(4, "styleop") {
	case 0, 1:
		f := g.fams[c.U(len(g.fams), "fam")]
		size := pick(c, "size", []any{8, 12.5, 14, uint(9), 20, 6.25, float32(10.5), int64(13), uint8(7)})
		ul := c.Chance(40, "underline")
		if c.Bool("how") {
			st := f.style
			if ul {
				st |= gopdf.Underline
			}
			g.add(func(e *Env) { e.err(e.p.SetFontWithStyle(f.family, st, size)) }, "SetFontWithStyle(%q,%d,%v)", f.family, st, size)
		} else {
			s := ""
			if f.style&gopdf.Bold != 0 {
				s += "B"
			}
			if f.style&gopdf.Italic != 0 {
				s += "I"
			}
			if ul {
				s += "U"
			}
			g.add(func(e *Env) { e.err(e.p.SetFont(f.family, s, size)) }, "SetFont(%q,%q,%v)", f.family, s, size)
		}
	case 2:
		s := c.F(4, 40, "size")
		g.add(func(e *Env) { e.err(e.p.SetFontSize(s)) }, "SetFontSize(%g)", s)
	case 3:
		v := pick(c, "tc", []float64{0, 1.0138, 0.5137, 2.2641, -0.2483})
		g.add(func(e *Env) { e.err(e.p.SetCharSpacing(e.u(v))) }, "SetCharSpacing(%g)", v)
	}
}

func (g *progGen) colorOp() {
	c := g.c
	r, gg, b, k := uint8(c.U(256, "c1")), uint8(c.U(256, "c2")), uint8(c.U(256, "c3")), uint8(c.U(101, "c4"))
	cy, m, y := r%101, gg%101, b%101
	w := float64(c.U(101, "w")) / 100
	switch c.U(10, "colorop") {
	case 0:
		g.add(func(e *Env) { e.p.SetTextColor(r, gg, b) }, "SetTextColor(%d,%d,%d)", r, gg, b)
	case 1:
		g.add(func(e *Env) { e.p.SetTextColorCMYK(cy, m, y, k) }, "SetTextColorCMYK(%d,%d,%d,%d)", cy, m, y, k)
	case 2:
		g.add(func(e *Env) { e.p.SetStrokeColor(r, gg, b) }, "SetStrokeColor(%d,%d,%d)", r, gg, b)
	case 3:
		g.add(func(e *Env) { e.p.SetFillColor(r, gg, b) }, "SetFillColor(%d,%d,%d)", r, gg, b)
	case 4:
		g.add(func(e *Env) { e.p.SetStrokeColorCMYK(cy, m, y, k) }, "SetStrokeColorCMYK(%d,%d,%d,%d)", cy, m, y, k)
	case 5:
		g.add(func(e *Env) { e.p.SetFillColorCMYK(cy, m, y, k) }, "SetFillColorCMYK(%d,%d,%d,%d)", cy, m, y, k)
	case 6:
		g.add(func(e *Env) { e.p.SetGrayFill(w) }, "SetGrayFill(%g)", w)
	case 7:
		g.add(func(e *Env) { e.p.SetGrayStroke(w) }, "SetGrayStroke(%g)", w)
	default:
		if len(g.spaces) > 0 && c.Chance(60, "usecs") {
			n := g.spaces[c.U(len(g.spaces), "cs")]
			g.add(func(e *Env) { e.err(e.p.SetColorSpace(n)) }, "SetColorSpace(%q)", n)
			return
		}
		n := g.name("CS", len(g.spaces))
		g.spaces = append(g.spaces, n)
		if c.Bool("cscmyk") {
			g.add(func(e *Env) { e.err(e.p.AddColorSpaceCMYK(n, cy, m, y, k)) }, "AddColorSpaceCMYK(%q,%d,%d,%d,%d)", n, cy, m, y, k)
		} else {
			g.add(func(e *Env) { e.err(e.p.AddColorSpaceRGB(n, r, gg, b)) }, "AddColorSpaceRGB(%q,%d,%d,%d)", n, r, gg, b)
		}
	}
}

func (g *progGen) lineStyleOp() {
	c := g.c
	switch c.U(3, "lsop") {
	case 0:
		w := c.F(0, 6, "lw")
		g.add(func(e *Env) { e.p.SetLineWidth(e.u(w)) }, "SetLineWidth(%g)", w)
	case 1:
		t := c.Pick("lt", "solid", "dashed", "dotted")
		g.add(func(e *Env) { e.p.SetLineType(t) }, "SetLineType(%q)", t)
	case 2:
		n := c.U(4, "ndash")
		if c.Chance(4, "long dash") {
			n = c.U(40, "ndash")
		}
		var d []float64
		for i := 0; i < n; i++ {
			d = append(d, c.F(1, 8, "dash"))
		}
		ph := c.F(0, 5, "phase")
		g.add(func(e *Env) {
			a := make([]float64, len(d))
			for i := range d {
				a[i] = e.u(d[i])
			}
			b := append([]float64(nil), a...)
			e.p.SetCustomLineType(a, e.u(ph))
			for i := range a {
				if a[i] != b[i] {
					e.mut = append(e.mut, "dash array of SetCustomLineType")
				}
			}
		}, "SetCustomLineType(%v,%g)", d, ph)
	}
}

func (g *progGen) cursorOp() {
	c := g.c
	x, y := g.point("p")
	switch c.U(8, "curop") {
	case 0:
		g.add(func(e *Env) { e.p.SetX(e.u(x)) }, "SetX(%g)", x)
	case 1:
		g.add(func(e *Env) { e.p.SetY(e.u(y)) }, "SetY(%g)", y)
	case 2, 3:
		g.add(func(e *Env) { e.p.SetXY(e.u(x), e.u(y)) }, "SetXY(%g,%g)", x, y)
	case 4:
		h := c.F(0, 30, "br")
		g.add(func(e *Env) { e.p.Br(e.u(h)) }, "Br(%g)", h)
	case 5:
		l, t, r, b := c.F(0, 30, "ml"), c.F(0, 30, "mt"), c.F(0, 30, "mr"), c.F(0, 30, "mb")
		g.add(func(e *Env) {
			e.p.SetMargins(e.u(l), e.u(t), e.u(r), e.u(b))
			e.length(e.p.MarginLeft())
			e.length(e.p.MarginBottom())
		}, "SetMargins(%g,%g,%g,%g)", l, t, r, b)
	case 6, 7:
		// may add a page: nothing may be open
		g.closeStack()
		h := c.F(0, 90, "newh") + 0.0371
		k := c.U(3, "newk")
		// the generator does not model whether a page is added: the number
		// of pages is a lower bound, and the size after that the default
		g.add(func(e *Env) {
			switch k {
			case 0:
				e.p.SetNewY(e.u(y), e.u(h))
			case 1:
				e.p.SetNewYIfNoOffset(e.u(y), e.u(h))
			case 2:
				e.p.SetNewXY(e.u(y), e.u(x), e.u(h))
			}
			e.length(e.p.GetX())
			e.length(e.p.GetY())
			e.note("pages %d", e.p.GetNumberOfPages())
		}, "%s(y=%g,h=%g,x=%g)", []string{"SetNewY", "SetNewYIfNoOffset", "SetNewXY"}[k], y, h, x)
	}
}

func (g *progGen) at() {
	if g.c.Chance(60, "at") {
		x, y := g.c.F(0, g.pw, "x"), g.c.F(0, g.ph, "y")
		g.add(func(e *Env) { e.p.SetXY(e.u(x), e.u(y)) }, "SetXY(%g,%g)", x, y)
	}
}

func (g *progGen) textOp() {
	g.at()
	s := g.txt(14)
	g.add(func(e *Env) { e.err(e.p.Text(s)); e.length(e.p.GetX()); e.length(e.p.GetY()) }, "Text(%q)", s)
}

func (g *progGen) cellOp() {
	g.at()
	s := g.txt(10)
	w, h := g.c.F(0, 150, "w"), g.c.F(0, 50, "h")
	switch g.c.U(3, "cellop") {
	case 0:
		nilRect := g.c.Chance(20, "nil")
		g.add(func(e *Env) {
			r := e.rect(w, h)
			q := *r
			if nilRect {
				r = nil
			}
			e.err(e.p.Cell(r, s))
			if r != nil && *r != q {
				e.mut = append(e.mut, "rectangle of Cell")
			}
			e.length(e.p.GetX())
			e.length(e.p.GetY())
		}, "Cell(%gx%g nil=%v,%q)", w, h, nilRect, s)
	default:
		o, d := g.cellOpt()
		g.add(func(e *Env) {
			r := e.rect(w, h)
			q := *r
			e.err(e.p.CellWithOption(r, s, o(e)))
			if *r != q {
				e.mut = append(e.mut, "rectangle of CellWithOption")
			}
			e.length(e.p.GetX())
			e.length(e.p.GetY())
		}, "CellWithOption(%gx%g,%q,%s)", w, h, s, d)
	}
}

func (g *progGen) para() string {
	var p []string
	for i, n := 0, 1+g.c.U(8, "words"); i < n; i++ {
		p = append(p, g.c.word(9, "word"))
	}
	s := strings.Join(p, " ")
	if g.c.Chance(20, "nl") {
		s = strings.Replace(s, " ", "\n", 1)
	}
	return s
}

func (g *progGen) multiOp() {
	g.at()
	s := g.para()
	w, h := g.c.F(20, 200, "w")+0.0317, g.c.F(10, 200, "h")+0.0411
	if g.c.Bool("mc") {
		g.add(func(e *Env) {
			e.err(e.p.MultiCell(e.rect(w, h), s))
			e.length(e.p.GetX())
			e.length(e.p.GetY())
		}, "MultiCell(%gx%g,%q)", w, h, s)
		return
	}
	o, d := g.cellOpt()
	just := g.c.Chance(25, "justify")
	g.add(func(e *Env) {
		op := o(e)
		if just {
			op.Align = gopdf.Justify
		}
		e.err(e.p.MultiCellWithOption(e.rect(w, h), s, op))
		e.length(e.p.GetX())
		e.length(e.p.GetY())
	}, "MultiCellWithOption(%gx%g,%q,%s just=%v)", w, h, s, d, just)
}

func (g *progGen) shapeOp() {
	c := g.c
	x, y := g.point("a")
	x2, y2 := g.point("b")
	w, h := c.F(1, 120, "w"), c.F(1, 120, "h")
	st := c.Pick("style", "", "D", "F", "DF", "FD")
	switch c.U(10, "shape") {
	case 0, 1:
		g.add(func(e *Env) { e.p.Line(e.u(x), e.u(y), e.u(x2), e.u(y2)) }, "Line(%g,%g,%g,%g)", x, y, x2, y2)
	case 2:
		g.add(func(e *Env) { e.p.RectFromUpperLeftWithStyle(e.u(x), e.u(y), e.u(w), e.u(h), st) }, "RectFromUpperLeftWithStyle(%g,%g,%g,%g,%q)", x, y, w, h, st)
	case 3:
		g.add(func(e *Env) { e.p.RectFromLowerLeftWithStyle(e.u(x), e.u(y), e.u(w), e.u(h), st) }, "RectFromLowerLeftWithStyle(%g,%g,%g,%g,%q)", x, y, w, h, st)
	case 4:
		up := c.Bool("up")
		t := g.transparency()
		ps := pick(c, "ps", []gopdf.PaintStyle{gopdf.DrawPaintStyle, gopdf.FillPaintStyle, gopdf.DrawFillPaintStyle})
		g.add(func(e *Env) {
			o := gopdf.DrawableRectOptions{X: e.u(x), Y: e.u(y), Rect: *e.rect(w, h), PaintStyle: ps, Transparency: cp(t)}
			if up {
				e.err(e.p.RectFromUpperLeftWithOpts(o))
			} else {
				e.err(e.p.RectFromLowerLeftWithOpts(o))
			}
		}, "RectWithOpts(up=%v %g,%g,%g,%g,%s%s)", up, x, y, w, h, ps, tr(t))
	case 5:
		g.add(func(e *Env) { e.p.Oval(e.u(x), e.u(y), e.u(x2), e.u(y2)) }, "Oval(%g,%g,%g,%g)", x, y, x2, y2)
	case 6:
		x3, y3 := g.point("c")
		x4, y4 := g.point("d")
		g.add(func(e *Env) {
			e.p.Curve(e.u(x), e.u(y), e.u(x2), e.u(y2), e.u(x3), e.u(y3), e.u(x4), e.u(y4), st)
		}, "Curve(%g,%g,%g,%g,%g,%g,%g,%g,%q)", x, y, x2, y2, x3, y3, x4, y4, st)
	case 7:
		var pts [][2]float64
		for i, n := 0, 2+c.U(5, "npts"); i < n; i++ {
			px, py := g.point("q")
			pts = append(pts, [2]float64{px, py})
		}
		g.add(func(e *Env) {
			ps := make([]gopdf.Point, len(pts))
			for i, p := range pts {
				ps[i] = gopdf.Point{X: e.u(p[0]), Y: e.u(p[1])}
			}
			q := append([]gopdf.Point(nil), ps...)
			e.p.Polygon(ps, st)
			for i := range ps {
				if ps[i] != q[i] {
					e.mut = append(e.mut, "points of Polygon")
				}
			}
		}, "Polygon(%v,%q)", pts, st)
	case 8, 9:
		r := c.F(0, 30, "radius")
		if r > 0 {
			r += 0.0131 // not exactly the width or height
		}
		n := pick(c, "rpn", []int{0, 1, 2, 5, 8})
		bad := c.U(6, "badrect")
		x1, y1 := x+w, y+h
		if bad == 1 {
			x1 = x - 1
		}
		g.add(func(e *Env) {
			e.err(e.p.Rectangle(e.u(x), e.u(y), e.u(x1), e.u(y1), st, e.u(r), n))
		}, "Rectangle(%g,%g,%g,%g,%q,%g,%d)", x, y, x1, y1, st, r, n)
	}
}

func (g *progGen) stackOp() {
	c := g.c
	if len(g.stack) > 0 && c.Bool("pop") {
		if g.stack[len(g.stack)-1] == 'q' {
			g.add(func(e *Env) { e.p.RestoreGraphicsState() }, "RestoreGraphicsState()")
		} else {
			g.add(func(e *Env) { e.p.RotateReset() }, "RotateReset()")
		}
		g.stack = g.stack[:len(g.stack)-1]
		return
	}
	x, y := g.point("s")
	switch c.U(4, "stackop") {
	case 0:
		g.add(func(e *Env) { e.p.SaveGraphicsState() }, "SaveGraphicsState()")
		g.stack = append(g.stack, 'q')
	case 1:
		g.add(func(e *Env) { e.p.SaveGraphicsState() }, "SaveGraphicsState()")
		g.stack = append(g.stack, 'q')
		w, h := c.F(5, 80, "cw"), c.F(5, 80, "ch")
		g.add(func(e *Env) {
			ps := []gopdf.Point{{X: e.u(x), Y: e.u(y)}, {X: e.u(x + w), Y: e.u(y)}, {X: e.u(x), Y: e.u(y + h)}}
			q := append([]gopdf.Point(nil), ps...)
			e.p.ClipPolygon(ps)
			for i := range ps {
				if ps[i] != q[i] {
					e.mut = append(e.mut, "points of ClipPolygon")
				}
			}
		}, "ClipPolygon(triangle %g,%g,%g,%g)", x, y, w, h)
	default:
		a := float64(c.Int(-400, 400, "angle")) + float64(c.U(4, "fraction"))/4
		if c.Chance(40, "quarters") {
			a = 45 * float64(c.Int(-8, 16, "eighths"))
		}
		g.add(func(e *Env) { e.p.Rotate(a, e.u(x), e.u(y)) }, "Rotate(%g,%g,%g)", a, x, y)
		g.stack = append(g.stack, 'r')
	}
}

func (g *progGen) transpOp() {
	if g.c.Bool("clear") {
		g.add(func(e *Env) { e.p.ClearTransparency() }, "ClearTransparency()")
		return
	}
	a := float64(g.c.U(101, "alpha")) / 100
	bm := pick(g.c, "bm", blendModes)
	g.add(func(e *Env) { e.err(e.p.SetTransparency(gopdf.Transparency{Alpha: a, BlendModeType: bm})) }, "SetTransparency(%.2f,%s)", a, bm)
}

func (g *progGen) imageOp() {
	c := g.c
	im := pick(c, "img", stdImages())
	x, y := c.F(0, g.pw, "x"), c.F(0, g.ph, "y")
	w, h := c.F(1, 90, "w"), c.F(1, 90, "h")
	noRect := c.Chance(20, "norect")
	rect := func(e *Env) *gopdf.Rect {
		if noRect {
			return nil
		}
		return e.rect(w, h)
	}
	d := fmt.Sprintf("%s at %g,%g rect %gx%g norect=%v", im.name, x, y, w, h, noRect)
	switch c.U(7, "imgop") {
	case 0:
		g.add(func(e *Env) {
			r := rect(e)
			e.err(e.p.Image(im.path, e.u(x), e.u(y), r))
			if r != nil && *r != *e.rect(w, h) {
				e.mut = append(e.mut, "rectangle of Image")
			}
		}, "Image(%s)", d)
	case 1:
		g.add(func(e *Env) {
			hd, err := gopdf.ImageHolderByBytes(im.data)
			if err == nil {
				err = e.p.ImageByHolder(hd, e.u(x), e.u(y), rect(e))
			}
			e.err(err)
		}, "ImageByHolder(%s)", d)
	case 2:
		g.add(func(e *Env) {
			i, _, err := image.Decode(bytes.NewReader(im.data))
			if err != nil {
				panic("HARNESS: " + err.Error())
			}
			e.err(e.p.ImageFrom(i, e.u(x), e.u(y), rect(e)))
		}, "ImageFrom(%s)", d)
	case 3:
		f := c.Pick("fmt", "jpeg", "png")
		g.add(func(e *Env) {
			i, _, err := image.Decode(bytes.NewReader(im.data))
			if err != nil {
				panic("HARNESS: " + err.Error())
			}
			e.err(e.p.ImageFromWithOption(i, gopdf.ImageFromOption{Format: f, X: e.u(x), Y: e.u(y), Rect: rect(e)}))
		}, "ImageFromWithOption(%s %s)", d, f)
	default:
		vf, hf := c.Bool("vflip"), c.Bool("hflip")
		ang := pick(c, "ang", []float64{0, 0, 30, 90, -45})
		crop := c.Chance(25, "crop")
		cx, cy, cw, ch := c.F(0, 20, "cx"), c.F(0, 20, "cy"), c.F(1, 20, "cw"), c.F(1, 20, "ch")
		t := g.transparency()
		mask := !crop && c.Chance(25, "mask")
		mk := stdImages()[len(stdImages())-1-c.U(2, "mk")]
		badMask := mask && c.Chance(10, "badmask")
		if badMask {
			mk = stdImages()[0]
		}
		mx, my, mw, mh := c.F(0, 50, "mx"), c.F(0, 50, "my"), c.F(1, 50, "mw"), c.F(1, 50, "mh")
		mv := c.Bool("mflip")
		reader := c.Bool("reader")
		g.add(func(e *Env) {
			o := gopdf.ImageOptions{X: e.u(x), Y: e.u(y), Rect: rect(e), VerticalFlip: vf, HorizontalFlip: hf, DegreeAngle: ang, Transparency: cp(t)}
			if crop {
				o.Rect = e.rect(w, h)
				o.Crop = &gopdf.CropOptions{X: e.u(cx), Y: e.u(cy), Width: e.u(cw), Height: e.u(ch)}
			}
			if mask {
				mh2, err := gopdf.ImageHolderByBytes(mk.data)
				if err != nil {
					e.err(err)
					return
				}
				o.Mask = &gopdf.MaskOptions{Holder: mh2, ImageOptions: gopdf.ImageOptions{X: e.u(mx), Y: e.u(my), Rect: e.rect(mw, mh), VerticalFlip: mv}}
			}
			var hd gopdf.ImageHolder
			var err error
			if reader {
				hd, err = gopdf.ImageHolderByReader(bytes.NewReader(im.data))
			} else {
				hd, err = gopdf.ImageHolderByPath(im.path)
			}
			if err == nil {
				err = e.p.ImageByHolderWithOptions(hd, o)
			}
			e.err(err)
		}, "ImageByHolderWithOptions(%s vf=%v hf=%v ang=%g crop=%v[%g %g %g %g] mask=%v[%s %g %g %g %g %v]%s)", d, vf, hf, ang, crop, cx, cy, cw, ch, mask, mk.name, mx, my, mw, mh, mv, tr(t))
	}
}

func (g *progGen) linkOp() {
	c := g.c
	x, y := g.point("l")
	w, h := c.F(1, 90, "w"), c.F(1, 40, "h")
	switch c.U(3, "linkop") {
	case 0:
		u := "http://x.y/" + c.text(6, "url")
		g.add(func(e *Env) { e.p.AddExternalLink(u, e.u(x), e.u(y), e.u(w), e.u(h)) }, "AddExternalLink(%q,%g,%g,%g,%g)", u, x, y, w, h)
	case 1:
		a := fmt.Sprintf("a%d", c.U(4, "anchor"))
		g.add(func(e *Env) { e.p.AddInternalLink(a, e.u(x), e.u(y), e.u(w), e.u(h)) }, "AddInternalLink(%q,%g,%g,%g,%g)", a, x, y, w, h)
	case 2:
		a := fmt.Sprintf("a%d", c.U(4, "anchor"))
		g.add(func(e *Env) { e.p.SetAnchor(a) }, "SetAnchor(%q)", a)
	}
}

func (g *progGen) outlineOp() {
	c := g.c
	t := c.unicode(6, "title")
	if g.o.noPosOut || c.Bool("nopos") {
		g.add(func(e *Env) { e.p.AddOutline(t) }, "AddOutline(%q)", t)
		return
	}
	i := g.nols
	g.nols++
	g.add(func(e *Env) {
		o := e.p.AddOutlineWithPosition(t)
		e.ol[i] = o
	}, "o%d := AddOutlineWithPosition(%q)", i, t)
}

// nestOp nests the outline entries that have a position, in order.
func (g *progGen) nestOp() {
	if g.nols == 0 || !g.c.Chance(60, "nest") {
		return
	}
	depth := make([]int, g.nols)
	for i := 1; i < g.nols; i++ {
		depth[i] = g.c.U(depth[i-1]+2, "depth")
	}
	n := g.nols
	g.add(func(e *Env) {
		var roots gopdf.OutlineNodes
		var path []*gopdf.OutlineNode
		for i := 0; i < n; i++ {
			nd := &gopdf.OutlineNode{Obj: e.ol[i]}
			if d := depth[i]; d == 0 {
				roots = append(roots, nd)
				path = []*gopdf.OutlineNode{nd}
			} else {
				path[d-1].Children = append(path[d-1].Children, nd)
				path = append(path[:d], nd)
			}
		}
		roots.Parse()
	}, "OutlineNodes(depths %v).Parse()", depth)
}

func (g *progGen) holderOp() {
	c := g.c
	if len(g.holders) > 0 && c.Bool("fill") {
		n := g.holders[c.U(len(g.holders), "holder")]
		s := g.txt(8)
		al := pick(c, "align", []int{gopdf.Left, gopdf.Center, gopdf.Right})
		g.add(func(e *Env) { e.err(e.p.FillInPlaceHoldText(n, s, al)) }, "FillInPlaceHoldText(%q,%q,%d)", n, s, al)
		return
	}
	g.at()
	n := fmt.Sprintf("h%d", c.U(3, "holder"))
	w := c.F(10, 90, "w")
	g.holders = append(g.holders, n)
	g.add(func(e *Env) {
		e.err(e.p.PlaceHolderText(n, e.u(w)))
		e.length(e.p.GetX())
	}, "PlaceHolderText(%q,%g)", n, w)
}

func (g *progGen) infoOp() {
	c := g.c
	in := gopdf.PdfInfo{Title: c.unicode(8, "t"), Author: c.unicode(5, "a")}
	if c.Bool("date") {
		in.CreationDate = time.Date(2001+c.U(80, "y"), 3, 4, 5, 6, 7, 0, time.FixedZone("", 60*(c.U(1400, "z")-700)))
	}
	if c.Bool("more") {
		in.Subject, in.Creator, in.Producer = c.unicode(5, "s"), c.unicode(5, "cr"), c.unicode(5, "p")
	}
	g.add(func(e *Env) { e.p.SetInfo(in) }, "SetInfo(%q,%q,%q,%q,%q,%v)", in.Title, in.Author, in.Subject, in.Creator, in.Producer, in.CreationDate)
}

func (g *progGen) measureOp() {
	s := g.txt(20)
	w := g.c.F(15, 80, "w") + 0.0377
	switch g.c.U(5, "measop") {
	case 0:
		g.add(func(e *Env) {
			v, err := e.p.MeasureTextWidth(s)
			e.err(err)
			e.length(v)
		}, "MeasureTextWidth(%q)", s)
	case 1:
		g.add(func(e *Env) {
			v, err := e.p.MeasureCellHeightByText(s)
			e.err(err)
			e.length(v)
		}, "MeasureCellHeightByText(%q)", s)
	case 2:
		g.add(func(e *Env) {
			l, err := e.p.SplitText(s, e.u(w))
			e.err(err)
			e.note("%q", l)
		}, "SplitText(%q,%g)", s, w)
	case 3:
		p := g.para()
		g.add(func(e *Env) {
			l, err := e.p.SplitTextWithWordWrap(p, e.u(w))
			e.err(err)
			e.note("%q", l)
		}, "SplitTextWithWordWrap(%q,%g)", p, w)
	case 4:
		p := g.para()
		h := g.c.F(10, 90, "h") + 0.0231
		g.add(func(e *Env) {
			ok, v, err := e.p.IsFitMultiCell(e.rect(w, h), p)
			e.err(err)
			e.note("%v", ok)
			e.length(v)
		}, "IsFitMultiCell(%gx%g,%q)", w, h, p)
	}
}

func (g *progGen) tableOp() {
	c := g.c
	x, y, rh := c.F(0, 50, "x"), c.F(0, 100, "y"), c.F(14, 40, "rh")
	nc, nr := 1+c.U(3, "cols"), c.U(4, "rows")
	max := nr + c.U(2, "max")
	fam := g.fams[c.U(len(g.fams), "fam")]
	var cols []float64
	var heads []string
	for i := 0; i < nc; i++ {
		cols = append(cols, c.F(30, 90, "cw"))
		heads = append(heads, c.word(6, "head"))
	}
	var rows [][]string
	for i := 0; i < nr; i++ {
		var r []string
		for j := 0; j < nc; j++ {
			r = append(r, c.word(8, "cell"))
		}
		rows = append(rows, r)
	}
	styled := c.Bool("styled")
	g.closeStack()
	g.add(func(e *Env) {
		t := e.p.NewTableLayout(e.u(x), e.u(y), e.u(rh), max)
		for i, w := range cols {
			t.AddColumn(heads[i], e.u(w), []string{"left", "center", "right"}[i%3])
		}
		for _, r := range rows {
			t.AddRow(r)
		}
		if styled && fam.style == 0 {
			t.SetCellStyle(gopdf.CellStyle{BorderStyle: gopdf.BorderStyle{Top: true, Left: true, Bottom: true, Right: true, Width: e.u(0.75)}, FillColor: gopdf.RGBColor{R: 200, G: 201, B: 202}, TextColor: gopdf.RGBColor{R: 9}, Font: fam.family, FontSize: 8})
		}
		e.err(t.DrawTable())
		e.length(e.p.GetX())
		e.length(e.p.GetY())
	}, "Table(%g,%g,rh=%g,max=%d,cols=%v %q,rows=%q,styled=%v %q)", x, y, rh, max, cols, heads, rows, styled, fam.family)
}

func (g *progGen) importOp() {
	c := g.c
	g.pr.hasImport = true
	x, y := g.point("i")
	w, h := c.F(5, 120, "w"), c.F(5, 120, "h")
	if len(g.tpls) > 0 && c.Chance(60, "use") {
		i := g.tpls[c.U(len(g.tpls), "tpl")]
		g.add(func(e *Env) { e.p.UseImportedTemplate(e.tpl[i], e.u(x), e.u(y), e.u(w), e.u(h)) }, "UseImportedTemplate(t%d,%g,%g,%g,%g)", i, x, y, w, h)
		return
	}
	src := c.U(len(stdSources()), "src")
	data := stdSources()[src].data
	if c.Chance(20, "all") {
		g.closeStack()
		n := stdSources()[src].pages
		g.pr.pages += n
		for i := 0; i < n; i++ {
			g.sizes = append(g.sizes, [2]float64{g.pr.cfg.w, g.pr.cfg.h})
		}
		g.pw, g.ph = g.pr.cfg.w, g.pr.cfg.h
		g.add(func(e *Env) { e.err(e.p.ImportPagesFromSource(append([]byte(nil), data...), "/MediaBox")) }, "ImportPagesFromSource(src%d)", src)
		return
	}
	i := g.nimp
	g.nimp++
	pg := 1 + c.U(stdSources()[src].pages, "pg")
	g.tpls = append(g.tpls, i)
	g.add(func(e *Env) {
		var rs io.ReadSeeker = bytes.NewReader(data)
		e.tpl[i] = e.p.ImportPageStream(&rs, pg, "/MediaBox")
		e.p.UseImportedTemplate(e.tpl[i], e.u(x), e.u(y), e.u(w), e.u(h))
	}, "t%d := ImportPageStream(src%d, page %d); UseImportedTemplate(t%d,%g,%g,%g,%g)", i, src, pg, i, x, y, w, h)
}

var _ = sort.Strings
