package pdf

import (
	"fmt"
	"math"
)

type Matrix [6]float64

var Ident = Matrix{1, 0, 0, 1, 0, 0}

// Mul returns m applied first, then n (row vectors: p*m*n).
func (m Matrix) Mul(n Matrix) Matrix {
	return Matrix{
		m[0]*n[0] + m[1]*n[2], m[0]*n[1] + m[1]*n[3],
		m[2]*n[0] + m[3]*n[2], m[2]*n[1] + m[3]*n[3],
		m[4]*n[0] + m[5]*n[2] + n[4], m[4]*n[1] + m[5]*n[3] + n[5],
	}
}
func (m Matrix) Apply(p Pt) Pt {
	return Pt{p.X*m[0] + p.Y*m[2] + m[4], p.X*m[1] + p.Y*m[3] + m[5]}
}

type Pt struct{ X, Y float64 }

// Seg is a path segment in device space: 'm' 1 point, 'l' 1, 'c' 3, 'h' 0.
type Seg struct {
	Op byte
	P  []Pt
}

func (s Seg) String() string { return fmt.Sprintf("%c%.2f", s.Op, s.P) }

type Color struct {
	Space string // DeviceGray, DeviceRGB, DeviceCMYK or the named resource
	C     []float64
}

type Clip struct {
	Segs []Seg
	EO   bool
}

type GS struct {
	CTM          Matrix
	Fill, Stroke Color
	LW           float64
	Dash         []float64
	Phase        float64
	Ca, CA       float64 // fill, stroke alpha
	BM           Name
	SMask        any    // nil or the soft-mask dictionary
	SMaskCTM     Matrix // in force when the mask was set
	Clips        []Clip
	Cap, Join    int
	// text state
	Tc, Tw, Tz, TL, Ts float64
	Tr                 int
	Font               Name
	FontObj            any
	Size               float64
}

type Glyph struct {
	Code int
	Pos  Pt      // device-space origin
	W    float64 // width from /W in thousandths
}

type Mark struct {
	Kind         string // path, text, image, form
	GS           GS
	Segs         []Seg
	Fill, Stroke bool
	EO           bool
	Glyphs       []Glyph
	End          Pt // pen position after the text
	XName        Name
	XObj         any // the reference or object
	Sub          []Mark
	BBox         []float64
}

type Font struct {
	DW     float64
	W      map[int]float64
	Dict   *Dict
	Desc   *Dict // descendant
	FD     *Dict
	Type0  bool
	loaded bool
}

func (d *Doc) LoadFont(o any) (*Font, error) {
	fd := d.Dict(o)
	if fd == nil {
		return nil, fmt.Errorf("font is not a dictionary")
	}
	f := &Font{Dict: fd, W: map[int]float64{}, DW: 1000}
	if d.NameOf(fd.Get("Type")) != "Font" {
		return nil, fmt.Errorf("font /Type %v", fd.Get("Type"))
	}
	if d.NameOf(fd.Get("Subtype")) != "Type0" {
		return f, nil
	}
	f.Type0 = true
	if d.NameOf(fd.Get("Encoding")) != "Identity-H" {
		return nil, fmt.Errorf("font /Encoding %v", fd.Get("Encoding"))
	}
	a, ok := d.Arr(fd.Get("DescendantFonts"))
	if !ok || len(a) != 1 {
		return nil, fmt.Errorf("bad DescendantFonts")
	}
	f.Desc = d.Dict(a[0])
	if f.Desc == nil || d.NameOf(f.Desc.Get("Subtype")) != "CIDFontType2" || d.NameOf(f.Desc.Get("Type")) != "Font" {
		return nil, fmt.Errorf("bad descendant font")
	}
	f.FD = d.Dict(f.Desc.Get("FontDescriptor"))
	if f.FD == nil {
		return nil, fmt.Errorf("no font descriptor")
	}
	if v, ok := d.Num(f.Desc.Get("DW")); ok {
		f.DW = v
	}
	if f.Desc.Has("W") {
		w, ok := d.Arr(f.Desc.Get("W"))
		if !ok {
			return nil, fmt.Errorf("/W is not an array")
		}
		for i := 0; i < len(w); {
			c, ok := d.Int(w[i])
			if !ok || i+1 >= len(w) {
				return nil, fmt.Errorf("malformed /W")
			}
			if la, ok := d.Arr(w[i+1]); ok {
				for k, x := range la {
					v, ok := d.Num(x)
					if !ok {
						return nil, fmt.Errorf("malformed /W")
					}
					if old, dup := f.W[c+k]; dup && old != v {
						return nil, fmt.Errorf("/W gives two widths for %d", c+k)
					}
					f.W[c+k] = v
				}
				i += 2
				continue
			}
			if i+2 >= len(w) {
				return nil, fmt.Errorf("malformed /W")
			}
			c2, ok1 := d.Int(w[i+1])
			v, ok2 := d.Num(w[i+2])
			if !ok1 || !ok2 || c2 < c {
				return nil, fmt.Errorf("malformed /W")
			}
			for k := c; k <= c2; k++ {
				f.W[k] = v
			}
			i += 3
		}
	}
	return f, nil
}

type interp struct {
	d        *Doc
	res      *Dict
	marks    []Mark
	problems []string
	fonts    map[string]*Font
	depth    int
}

func (it *interp) bad(f string, a ...any) {
	if len(it.problems) < 20 {
		it.problems = append(it.problems, fmt.Sprintf(f, a...))
	}
}

func (it *interp) lookup(cat, name Name) any {
	c := it.d.Dict(it.res.Get(cat))
	if c == nil || !c.Has(name) {
		it.bad("resource /%s /%s used but not defined", cat, name)
		return nil
	}
	o := c.Get(name)
	if it.d.Resolve(o) == nil {
		it.bad("resource /%s /%s does not resolve", cat, name)
		return nil
	}
	return o
}

func initialGS(ctm Matrix) GS {
	return GS{CTM: ctm, Fill: Color{"DeviceGray", []float64{0}}, Stroke: Color{"DeviceGray", []float64{0}}, LW: 1, Ca: 1, CA: 1, BM: "Normal", Tz: 100}
}

// Interpret runs a content stream with the given resources.
func (d *Doc) Interpret(content []byte, res *Dict, ctm Matrix) ([]Mark, []string) {
	it := &interp{d: d, res: res, fonts: map[string]*Font{}}
	it.run(content, initialGS(ctm))
	return it.marks, it.problems
}

var argc = map[string]int{
	"w": 1, "J": 1, "j": 1, "M": 1, "d": 2, "ri": 1, "i": 1, "gs": 1,
	"q": 0, "Q": 0, "cm": 6,
	"m": 2, "l": 2, "c": 6, "v": 4, "y": 4, "h": 0, "re": 4,
	"S": 0, "s": 0, "f": 0, "F": 0, "f*": 0, "B": 0, "B*": 0, "b": 0, "b*": 0, "n": 0,
	"W": 0, "W*": 0,
	"BT": 0, "ET": 0,
	"Tc": 1, "Tw": 1, "Tz": 1, "TL": 1, "Tf": 2, "Tr": 1, "Ts": 1,
	"Td": 2, "TD": 2, "Tm": 6, "T*": 0, "Tj": 1, "TJ": 1,
	"CS": 1, "cs": 1, "SC": -1, "SCN": -1, "sc": -1, "scn": -1,
	"G": 1, "g": 1, "RG": 3, "rg": 3, "K": 4, "k": 4,
	"Do": 1,
}

func (it *interp) run(content []byte, gs GS) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(parseError); ok {
				it.bad("content stream: %s", pe.msg)
				return
			}
			panic(r)
		}
	}()
	l := NewContentLexer(content)
	var args []any
	var stack []GS
	inText := false
	var tm, tlm Matrix
	var path []Seg
	var cur, start Pt
	pathOpen := false
	clipPending := ""
	num := func(i int) float64 {
		switch v := args[i].(type) {
		case Int:
			return float64(v)
		case Real:
			return float64(v)
		}
		it.bad("operand %d is %v, a number is needed", i, args[i])
		return 0
	}
	pt := func(i int) Pt { return Pt{num(i), num(i + 1)} }
	nums := func(n int) []float64 {
		out := make([]float64, n)
		for i := range out {
			out[i] = num(i)
		}
		return out
	}
	add := func(op byte, ps ...Pt) {
		s := Seg{Op: op}
		for _, p := range ps {
			s.P = append(s.P, gs.CTM.Apply(p))
		}
		path = append(path, s)
		if len(ps) > 0 {
			cur = ps[len(ps)-1]
		}
	}
	unit01 := func(op string, n int, max float64) []float64 {
		c := nums(n)
		for _, v := range c {
			if v < 0 || v > max {
				it.bad("%s: colour component %g out of range", op, v)
			}
		}
		return c
	}
	paint := func(op string, fill, stroke, eo, closeIt bool) {
		if !pathOpen && op != "n" {
			it.bad("%s without a path", op)
			return
		}
		if closeIt {
			path = append(path, Seg{Op: 'h'})
		}
		if clipPending != "" {
			nc := make([]Clip, len(gs.Clips), len(gs.Clips)+1)
			copy(nc, gs.Clips)
			gs.Clips = append(nc, Clip{Segs: path, EO: clipPending == "W*"})
			clipPending = ""
		}
		if fill || stroke {
			it.marks = append(it.marks, Mark{Kind: "path", GS: gs, Segs: path, Fill: fill, Stroke: stroke, EO: eo})
		}
		path, pathOpen = nil, false
	}
	show := func(arr Arr) {
		fo := it.fonts[string(gs.Font)]
		m := Mark{Kind: "text", GS: gs}
		if gs.Font == "" {
			it.bad("text shown without a font")
			return
		}
		if fo == nil || !fo.Type0 {
			it.marks = append(it.marks, m)
			return
		}
		th := gs.Tz / 100
		pos := func() Pt {
			return Matrix{1, 0, 0, 1, 0, gs.Ts}.Mul(tm).Mul(gs.CTM).Apply(Pt{})
		}
		for _, e := range arr {
			switch v := e.(type) {
			case Int:
				tm = Matrix{1, 0, 0, 1, -float64(v) / 1000 * gs.Size * th, 0}.Mul(tm)
			case Real:
				tm = Matrix{1, 0, 0, 1, -float64(v) / 1000 * gs.Size * th, 0}.Mul(tm)
			case Str:
				if len(v)%2 != 0 {
					it.bad("odd number of bytes in a two-byte-code string")
				}
				for i := 0; i+1 < len(v); i += 2 {
					code := int(v[i])<<8 | int(v[i+1])
					w, ok := fo.W[code]
					if !ok {
						w = fo.DW
					}
					m.Glyphs = append(m.Glyphs, Glyph{Code: code, Pos: pos(), W: w})
					tm = Matrix{1, 0, 0, 1, (w/1000*gs.Size + gs.Tc) * th, 0}.Mul(tm)
				}
			default:
				it.bad("TJ element %v", e)
			}
		}
		m.End = pos()
		if len(m.Glyphs) == 0 {
			m.Segs = []Seg{{Op: 'm', P: []Pt{pos()}}}
		}
		it.marks = append(it.marks, m)
	}
	for {
		o, ok := l.Next()
		if !ok {
			break
		}
		op, isOp := o.(Op)
		if !isOp {
			args = append(args, o)
			if len(args) > 64 {
				it.bad("too many operands")
				return
			}
			continue
		}
		s := string(op)
		n, known := argc[s]
		if !known {
			it.bad("unknown operator %q", s)
			args = nil
			continue
		}
		if n >= 0 && len(args) != n {
			it.bad("operator %s has %d operands, needs %d", s, len(args), n)
			args = nil
			continue
		}
		// context
		switch s {
		case "m", "re":
			if inText {
				it.bad("%s inside a text object", s)
			}
		case "l", "c", "v", "y", "h":
			if inText || !pathOpen {
				it.bad("%s without a current point", s)
			}
		case "S", "s", "f", "F", "f*", "B", "B*", "b", "b*", "n", "W", "W*":
		default:
			if pathOpen {
				it.bad("%s between path construction and painting", s)
			}
		}
		switch s {
		case "q", "Q", "cm", "BT", "Do":
			if inText {
				it.bad("%s inside a text object", s)
			}
		case "ET", "Td", "TD", "Tm", "T*", "Tj", "TJ":
			if !inText {
				it.bad("%s outside a text object", s)
			}
		}
		switch s {
		case "w":
			gs.LW = num(0)
			if gs.LW < 0 {
				it.bad("negative line width")
			}
		case "J":
			gs.Cap = int(num(0))
		case "j":
			gs.Join = int(num(0))
		case "M", "ri", "i":
		case "d":
			a, ok := args[0].(Arr)
			if !ok {
				it.bad("d: first operand is not an array")
				break
			}
			var dash []float64
			sum := 0.0
			for _, x := range a {
				v, ok := it.d.Num(x)
				if !ok || v < 0 {
					it.bad("d: bad dash element %v", x)
				}
				sum += v
				dash = append(dash, v)
			}
			gs.Dash, gs.Phase = dash, num(1)
		case "gs":
			nm, _ := args[0].(Name)
			if o := it.lookup("ExtGState", nm); o != nil {
				it.extGState(&gs, o)
			}
		case "q":
			stack = append(stack, gs)
		case "Q":
			if len(stack) == 0 {
				it.bad("Q without q")
				break
			}
			gs = stack[len(stack)-1]
			stack = stack[:len(stack)-1]
		case "cm":
			v := nums(6)
			gs.CTM = Matrix{v[0], v[1], v[2], v[3], v[4], v[5]}.Mul(gs.CTM)
		case "m":
			start = pt(0)
			add('m', start)
			pathOpen = true
		case "l":
			add('l', pt(0))
		case "c":
			add('c', pt(0), pt(2), pt(4))
		case "v":
			add('c', cur, pt(0), pt(2))
		case "y":
			add('c', pt(0), pt(2), pt(2))
		case "h":
			path = append(path, Seg{Op: 'h'})
			cur = start
		case "re":
			x, y, w, h := num(0), num(1), num(2), num(3)
			add('m', Pt{x, y})
			add('l', Pt{x + w, y})
			add('l', Pt{x + w, y + h})
			add('l', Pt{x, y + h})
			path = append(path, Seg{Op: 'h'})
			start = Pt{x, y}
			cur = start
			pathOpen = true
		case "S":
			paint(s, false, true, false, false)
		case "s":
			paint(s, false, true, false, true)
		case "f", "F":
			paint(s, true, false, false, false)
		case "f*":
			paint(s, true, false, true, false)
		case "B":
			paint(s, true, true, false, false)
		case "B*":
			paint(s, true, true, true, false)
		case "b":
			paint(s, true, true, false, true)
		case "b*":
			paint(s, true, true, true, true)
		case "n":
			paint(s, false, false, false, false)
		case "W", "W*":
			if !pathOpen {
				it.bad("%s without a path", s)
			}
			clipPending = s
		case "BT":
			inText = true
			tm, tlm = Ident, Ident
		case "ET":
			inText = false
		case "Tc":
			gs.Tc = num(0)
		case "Tw":
			gs.Tw = num(0)
		case "Tz":
			gs.Tz = num(0)
		case "TL":
			gs.TL = num(0)
		case "Tr":
			gs.Tr = int(num(0))
		case "Ts":
			gs.Ts = num(0)
		case "Tf":
			nm, ok := args[0].(Name)
			if !ok {
				it.bad("Tf operand %v", args[0])
				break
			}
			gs.Font, gs.Size = nm, num(1)
			if o := it.lookup("Font", nm); o != nil {
				gs.FontObj = o
				if it.fonts[string(nm)] == nil {
					f, err := it.d.LoadFont(o)
					if err != nil {
						it.bad("font /%s: %v", nm, err)
					} else {
						it.fonts[string(nm)] = f
					}
				}
			}
		case "Td":
			tlm = Matrix{1, 0, 0, 1, num(0), num(1)}.Mul(tlm)
			tm = tlm
		case "TD":
			gs.TL = -num(1)
			tlm = Matrix{1, 0, 0, 1, num(0), num(1)}.Mul(tlm)
			tm = tlm
		case "Tm":
			v := nums(6)
			tlm = Matrix{v[0], v[1], v[2], v[3], v[4], v[5]}
			tm = tlm
		case "T*":
			tlm = Matrix{1, 0, 0, 1, 0, -gs.TL}.Mul(tlm)
			tm = tlm
		case "Tj":
			if _, ok := args[0].(Str); !ok {
				it.bad("Tj operand %v", args[0])
				break
			}
			show(Arr{args[0]})
		case "TJ":
			a, ok := args[0].(Arr)
			if !ok {
				it.bad("TJ operand %v", args[0])
				break
			}
			show(a)
		case "CS", "cs":
			nm, ok := args[0].(Name)
			if !ok {
				it.bad("%s operand %v", s, args[0])
				break
			}
			if nm != "DeviceGray" && nm != "DeviceRGB" && nm != "DeviceCMYK" {
				it.lookup("ColorSpace", nm)
			}
			if s == "CS" {
				gs.Stroke = Color{Space: string(nm)}
			} else {
				gs.Fill = Color{Space: string(nm)}
			}
		case "SC", "SCN":
			gs.Stroke = Color{gs.Stroke.Space, unit01(s, len(args), 1)}
		case "sc", "scn":
			gs.Fill = Color{gs.Fill.Space, unit01(s, len(args), 1)}
		case "G":
			gs.Stroke = Color{"DeviceGray", unit01(s, 1, 1)}
		case "g":
			gs.Fill = Color{"DeviceGray", unit01(s, 1, 1)}
		case "RG":
			gs.Stroke = Color{"DeviceRGB", unit01(s, 3, 1)}
		case "rg":
			gs.Fill = Color{"DeviceRGB", unit01(s, 3, 1)}
		case "K":
			gs.Stroke = Color{"DeviceCMYK", unit01(s, 4, 1)}
		case "k":
			gs.Fill = Color{"DeviceCMYK", unit01(s, 4, 1)}
		case "Do":
			nm, ok := args[0].(Name)
			if !ok {
				it.bad("Do operand %v", args[0])
				break
			}
			o := it.lookup("XObject", nm)
			if o == nil {
				break
			}
			st := it.d.Stream(o)
			if st == nil {
				it.bad("XObject /%s is not a stream", nm)
				break
			}
			switch it.d.NameOf(st.Dict.Get("Subtype")) {
			case "Image":
				it.marks = append(it.marks, Mark{Kind: "image", GS: gs, XName: nm, XObj: o})
			case "Form":
				m := Mark{Kind: "form", GS: gs, XName: nm, XObj: o}
				sub, bbox, probs := it.d.InterpretForm(st, it.res, gs.CTM, it.depth+1)
				for _, p := range probs {
					it.bad("form /%s: %s", nm, p)
				}
				m.Sub, m.BBox = sub, bbox
				it.marks = append(it.marks, m)
			default:
				it.bad("XObject /%s has subtype %v", nm, st.Dict.Get("Subtype"))
			}
		}
		args = nil
	}
	if len(args) > 0 {
		it.bad("%d operands left at the end of the content stream", len(args))
	}
	if len(stack) > 0 {
		it.bad("%d q without Q", len(stack))
	}
	if inText {
		it.bad("BT without ET")
	}
	if pathOpen {
		it.bad("unpainted path at the end of the content stream")
	}
}

func (it *interp) extGState(gs *GS, o any) {
	d := it.d.Dict(o)
	if d == nil {
		it.bad("ExtGState is not a dictionary")
		return
	}
	for _, k := range d.Keys {
		v := it.d.Resolve(d.M[k])
		switch k {
		case "Type":
		case "ca", "CA":
			f, ok := it.d.Num(v)
			if !ok || f < 0 || f > 1 {
				it.bad("/%s %v", k, v)
			}
			if k == "ca" {
				gs.Ca = f
			} else {
				gs.CA = f
			}
		case "BM":
			n, ok := v.(Name)
			if !ok || !validBM[n] {
				it.bad("/BM %v", v)
			}
			gs.BM = n
		case "SMask":
			if v == Name("None") {
				gs.SMask = nil
			} else if md, ok := v.(*Dict); ok {
				gs.SMask = md
				gs.SMaskCTM = gs.CTM
			} else {
				it.bad("/SMask %v", v)
			}
		default:
			it.bad("unexpected ExtGState key /%s", k)
		}
	}
}

var validBM = map[Name]bool{"Normal": true, "Compatible": true, "Multiply": true, "Screen": true, "Overlay": true, "Darken": true, "Lighten": true, "ColorDodge": true, "ColorBurn": true, "HardLight": true, "SoftLight": true, "Difference": true, "Exclusion": true, "Hue": true, "Saturation": true, "Color": true, "Luminosity": true}

// InterpretForm interprets a form XObject; resources default to the invoker's.
func (d *Doc) InterpretForm(st *Stream, res *Dict, ctm Matrix, depth int) ([]Mark, []float64, []string) {
	if depth > 8 {
		return nil, nil, []string{"forms nested too deep"}
	}
	var probs []string
	if r := d.Dict(st.Dict.Get("Resources")); r != nil {
		res = r
	}
	bbox, ok := d.Nums(st.Dict.Get("BBox"))
	if !ok || len(bbox) != 4 {
		probs = append(probs, "bad /BBox")
	}
	m := Ident
	if st.Dict.Has("Matrix") {
		v, ok := d.Nums(st.Dict.Get("Matrix"))
		if !ok || len(v) != 6 {
			probs = append(probs, "bad /Matrix")
		} else {
			copy(m[:], v)
		}
	}
	data, err := d.Data_(st)
	if err != nil {
		return nil, bbox, append(probs, err.Error())
	}
	it := &interp{d: d, res: res, fonts: map[string]*Font{}, depth: depth}
	it.run(data, initialGS(m.Mul(ctm)))
	return it.marks, bbox, append(probs, it.problems...)
}

// Near compares with an absolute tolerance.
func Near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }
