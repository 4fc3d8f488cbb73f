package checks

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"verif/pdf"
)

// srcModel is a PDF file to import from, with what it says.
type srcModel struct {
	d     *pdf.Doc
	gens  map[int]int
	pages []*srcPage
	data  []byte
	descr string
}

type srcPage struct {
	num     int
	content []byte
	res     *pdf.Dict
	parent  *pdf.Dict             // of a page that inherits its resources
	boxes   map[string][4]float64 // llx, lly, urx, ury
	rotate  int
}

var boxNames = []string{"/MediaBox", "/CropBox", "/BleedBox", "/TrimBox", "/ArtBox"}

// box is the box of the page that a name stands for.
func (p *srcPage) box(name string) [4]float64 {
	if b, ok := p.boxes[name]; ok {
		return b
	}
	if b, ok := p.boxes["/CropBox"]; ok && name != "/MediaBox" {
		return b
	}
	return p.boxes["/MediaBox"]
}

func (p *srcPage) turn() int { return (p.rotate%360 + 360) % 360 }

// srcGen builds a source.
type srcGen struct {
	c      *Case
	r      *rand.Rand // for what shrinking need not reach
	m      *srcModel
	free   []int
	fonts  []any
	images []any
	forms  []any
	states []any
	spaces []any
	props  []any
	noRef  map[int]bool // objects that only a plain object may hold: lengths
}

func nums(v ...float64) (a pdf.Arr) {
	for _, x := range v {
		if x == float64(int64(x)) {
			a = append(a, pdf.Int(x))
		} else {
			a = append(a, pdf.Real(x))
		}
	}
	return
}

func mkDict(kv ...any) *pdf.Dict {
	d := &pdf.Dict{M: map[pdf.Name]any{}}
	for i := 0; i < len(kv); i += 2 {
		put(d, kv[i].(string), kv[i+1])
	}
	return d
}

func put(d *pdf.Dict, k string, v any) {
	n := pdf.Name(k)
	if !d.Has(n) {
		d.Keys = append(d.Keys, n)
	}
	d.M[n] = v
}

func (g *srcGen) alloc() int {
	n := g.free[0]
	g.free = g.free[1:]
	g.m.gens[n] = 0
	if g.r.Intn(20) == 0 {
		g.m.gens[n] = 1 + g.r.Intn(3)
	}
	return n
}

func (g *srcGen) add(o any) pdf.Ref {
	n := g.alloc()
	g.m.d.Objs[n] = o
	return pdf.Ref{Num: n, Gen: g.m.gens[n]}
}

// maybeRef makes an object indirect, or not.
func (g *srcGen) maybeRef(o any) any {
	if g.r.Intn(2) == 0 {
		return g.add(o)
	}
	return o
}

func deflate(b []byte) []byte {
	var out bytes.Buffer
	w := zlib.NewWriter(&out)
	w.Write(b)
	w.Close()
	return out.Bytes()
}

// stream makes a stream object, compressed or not, with its length in the
// dictionary or on its own.
func (g *srcGen) stream(d *pdf.Dict, data []byte) pdf.Ref {
	compress := g.r.Intn(2) == 0
	if len(data) > 0 && strings.IndexByte(" \r\n\t", data[0]) >= 0 {
		compress = true
	}
	if compress {
		data = deflate(data)
		switch g.r.Intn(3) {
		case 0:
			put(d, "Filter", pdf.Arr{pdf.Name("FlateDecode")})
		default:
			put(d, "Filter", pdf.Name("FlateDecode"))
		}
	}
	if g.r.Intn(3) == 0 {
		put(d, "Length", g.add(pdf.Int(len(data))))
	} else {
		put(d, "Length", pdf.Int(len(data)))
	}
	return g.add(&pdf.Stream{Dict: d, Raw: data})
}

func (g *srcGen) name() string {
	const a = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.+*#@!$&'"
	n := 1 + g.r.Intn(8)
	b := []byte{a[g.r.Intn(52)]}
	for len(b) < n {
		b = append(b, a[g.r.Intn(len(a))])
	}
	return string(b)
}

func (g *srcGen) str() pdf.Str {
	b := make([]byte, g.r.Intn(12))
	for i := range b {
		switch g.r.Intn(4) {
		case 0:
			b[i] = byte(g.r.Intn(256))
		case 1:
			b[i] = "()\\\r\n<>%/[]\t\b\f"[g.r.Intn(14)]
		default:
			b[i] = byte(0x20 + g.r.Intn(95))
		}
	}
	return b
}

// value makes any object; refs are the objects it may refer to.
func (g *srcGen) value(depth int, refs []pdf.Ref) any {
	n := 9
	if depth > 3 {
		n = 7
	}
	switch g.r.Intn(n) {
	case 0:
		return pdf.Int(g.r.Intn(200000) - 100000)
	case 1:
		return pdf.Real(float64(g.r.Intn(4000000)-2000000) / 10000)
	case 2:
		return pdf.Name(g.name())
	case 3:
		return g.str()
	case 4:
		return g.r.Intn(2) == 0
	case 5:
		return pdf.Null{}
	case 6:
		if len(refs) > 0 {
			return refs[g.r.Intn(len(refs))]
		}
		return pdf.Int(0)
	case 7:
		a := pdf.Arr{}
		for i := g.r.Intn(5); i > 0; i-- {
			a = append(a, g.value(depth+1, refs))
		}
		return a
	}
	d := mkDict()
	for i := g.r.Intn(5); i > 0; i-- {
		put(d, "x"+g.name(), g.value(depth+1, refs))
	}
	return d
}

// graph makes objects that refer to each other, and returns them all.
func (g *srcGen) graph(n int) (refs []pdf.Ref) {
	for i := 0; i < n; i++ {
		k := g.alloc()
		g.m.d.Objs[k] = nil
		refs = append(refs, pdf.Ref{Num: k, Gen: g.m.gens[k]})
	}
	for i, r := range refs {
		v := g.value(0, refs)
		if _, isRef := v.(pdf.Ref); isRef || i == 0 {
			d := mkDict("xA", g.value(1, refs))
			put(d, "xB", refs[g.r.Intn(len(refs))])
			put(d, "xC", pdf.Arr{refs[g.r.Intn(len(refs))], pdf.Int(0), refs[0]})
			v = d
		} else if g.r.Intn(5) == 0 {
			d := mkDict("xS", g.value(1, refs))
			data := make([]byte, g.r.Intn(40))
			g.r.Read(data)
			s := g.stream(d, data)
			v = pdf.Arr{s, s}
		}
		g.m.d.Objs[r.Num] = v
	}
	return
}

func (g *srcGen) image(masked bool) pdf.Ref {
	w, h := 1+g.r.Intn(4), 1+g.r.Intn(4)
	d := mkDict("Type", pdf.Name("XObject"), "Subtype", pdf.Name("Image"), "Width", pdf.Int(w), "Height", pdf.Int(h), "BitsPerComponent", pdf.Int(8))
	n := 1
	switch k := g.r.Intn(3); {
	case masked || k == 0:
		put(d, "ColorSpace", pdf.Name("DeviceGray"))
	case k == 1:
		put(d, "ColorSpace", pdf.Name("DeviceRGB"))
		n = 3
	default:
		pal := make(pdf.Str, 768)
		g.r.Read(pal)
		put(d, "ColorSpace", g.maybeRef(pdf.Arr{pdf.Name("Indexed"), pdf.Name("DeviceRGB"), pdf.Int(255), pal}))
	}
	if !masked && g.r.Intn(3) == 0 {
		put(d, "SMask", g.image(true))
	}
	data := make([]byte, w*h*n)
	g.r.Read(data)
	return g.stream(d, data)
}

func (g *srcGen) font() any {
	d := mkDict("Type", pdf.Name("Font"), "Subtype", pdf.Name("Type1"), "BaseFont", pdf.Name([]string{"Helvetica", "Times-Roman", "Courier"}[g.r.Intn(3)]))
	switch g.r.Intn(3) {
	case 0:
		put(d, "Encoding", pdf.Name("WinAnsiEncoding"))
	case 1:
		put(d, "Encoding", g.maybeRef(mkDict("Type", pdf.Name("Encoding"), "Differences", pdf.Arr{pdf.Int(32), pdf.Name("space"), pdf.Name("A")})))
		put(d, "FirstChar", pdf.Int(32))
		put(d, "LastChar", pdf.Int(33))
		put(d, "Widths", g.maybeRef(nums(250, 712.5)))
	}
	return g.add(d)
}

func (g *srcGen) state() any {
	d := mkDict("Type", pdf.Name("ExtGState"))
	if g.r.Intn(2) == 0 {
		put(d, "ca", pdf.Real(float64(g.r.Intn(1001))/1000))
	}
	if g.r.Intn(2) == 0 {
		put(d, "CA", pdf.Real(float64(g.r.Intn(1001))/1000))
	}
	if g.r.Intn(2) == 0 {
		put(d, "BM", pdf.Name([]string{"Normal", "Multiply", "Hue"}[g.r.Intn(3)]))
	}
	return g.maybeRef(d)
}

func (g *srcGen) space() any {
	fn := mkDict("FunctionType", pdf.Int(2), "Domain", nums(0, 1), "C0", nums(0, 0, 0), "C1", nums(0.25, 1, 0.5), "N", pdf.Int(1))
	return g.maybeRef(pdf.Arr{pdf.Name("Separation"), pdf.Name(g.name()), pdf.Name("DeviceRGB"), g.maybeRef(fn)})
}

// form makes a form that draws with resources of its own.
func (g *srcGen) form() any {
	res, content := g.resources(true)
	d := mkDict("Type", pdf.Name("XObject"), "Subtype", pdf.Name("Form"), "BBox", nums(0, 0, 100, 50.5))
	if g.r.Intn(2) == 0 {
		put(d, "Matrix", nums(1, 0, 0, 1, 5, -2.5))
	}
	put(d, "Resources", g.maybeRef(res))
	return g.stream(d, content)
}

// resources chooses from what there is and draws with it.
func (g *srcGen) resources(inForm bool) (*pdf.Dict, []byte) {
	res := mkDict()
	var b bytes.Buffer
	seps := []string{" ", "\n", "\r\n", "  "}
	w := func(f string, a ...any) {
		fmt.Fprintf(&b, f, a...)
		b.WriteString(seps[g.r.Intn(4)])
	}
	num := func() string {
		return fmt.Sprintf([]string{"%.0f", "%.2f", "%g"}[g.r.Intn(3)], float64(g.r.Intn(40000))/100)
	}
	if g.r.Intn(2) == 0 {
		w("%% a comment (not) <shown>\n")
	}
	cat := func(name, prefix string, from []any, use func(n string)) {
		if len(from) == 0 || g.r.Intn(3) == 0 {
			return
		}
		d := mkDict()
		for i := 1 + g.r.Intn(3); i > 0; i-- {
			n := fmt.Sprintf("%s%d", prefix, g.r.Intn(5))
			if g.r.Intn(8) == 0 {
				n = prefix + g.name()
				n = strings.ReplaceAll(n, "#", "")
			}
			if !d.Has(pdf.Name(n)) {
				put(d, n, from[g.r.Intn(len(from))])
			}
			if g.r.Intn(4) > 0 {
				use(n)
			}
		}
		put(res, name, g.maybeRef(d))
	}
	cat("ExtGState", "GS", g.states, func(n string) { w("q /%s gs", n); w("%s %s 20 30 re f Q", num(), num()) })
	cat("ColorSpace", "CS", g.spaces, func(n string) { w("/%s cs 0.5 scn %s %s m 10 20 l S", n, num(), num()) })
	xo := append(append([]any{}, g.images...), g.forms...)
	cat("XObject", "Im", xo, func(n string) { w("q %s 0 0 %s 5 5 cm /%s Do Q", num(), num(), n) })
	cat("Font", "F", g.fonts, func(n string) {
		w("BT /%s %s Tf", n, num())
		w("%s %s Td", num(), num())
		w("(text \\(of\\) \\101 it) Tj ET")
	})
	if !inForm {
		cat("Properties", "MC", g.props, func(n string) {})
		if g.r.Intn(4) == 0 {
			put(res, "ProcSet", pdf.Arr{pdf.Name("PDF"), pdf.Name("Text")})
		}
	}
	for i := g.r.Intn(4); i > 0; i-- {
		w("%.2f g %s %s %s 5 re B", g.r.Float64(), num(), num(), num())
	}
	return res, b.Bytes()
}

func (c *Case) genBox(l string) [4]float64 {
	if c.Chance(40, l+"std") {
		return [4]float64{0, 0, 595.28, 841.89}
	}
	x, y := 0.0, 0.0
	if c.Chance(40, l+"origin") {
		x, y = float64(c.U(40000, l+"x")-20000)/100, float64(c.U(40000, l+"y")-20000)/100
	}
	w, h := float64(1+c.U(1000, l+"w")), float64(1+c.U(1000, l+"h"))
	if c.Chance(30, l+"frac") {
		w += float64(c.U(100, l+"wf")) / 100
		h += float64(c.U(100, l+"hf")) / 100
	}
	r := func(v float64) float64 { return float64(int64(v*100+0.5*sign(v))) / 100 }
	return [4]float64{x, y, r(x + w), r(y + h)}
}

func sign(v float64) float64 {
	if v < 0 {
		return -1
	}
	return 1
}

// genSource makes a source document.
func genSource(c *Case) *srcModel {
	g := &srcGen{c: c, r: rand.New(rand.NewSource(int64(c.U(1<<30, "srcseed")))), noRef: map[int]bool{}}
	g.m = &srcModel{d: &pdf.Doc{Objs: map[int]any{}, Trailer: mkDict()}, gens: map[int]int{}}
	top := 600
	if c.Chance(10, "sparse") {
		top = 9000
	}
	g.free = g.r.Perm(top)
	for i, n := range g.free {
		if n == 0 {
			g.free[i] = g.free[0]
			g.free = g.free[1:]
			break
		}
	}
	if c.Chance(50, "in order") {
		sort.Ints(g.free)
		if g.free[0] == 0 {
			g.free = g.free[1:]
		}
	}
	for i := c.U(3, "fonts"); i > 0; i-- {
		g.fonts = append(g.fonts, g.font())
	}
	for i := c.U(3, "images"); i > 0; i-- {
		g.images = append(g.images, g.image(false))
	}
	for i := c.U(3, "states"); i > 0; i-- {
		g.states = append(g.states, g.state())
	}
	for i := c.U(2, "spaces"); i > 0; i-- {
		g.spaces = append(g.spaces, g.space())
	}
	for i := c.U(3, "forms"); i > 0; i-- {
		g.forms = append(g.forms, g.form())
	}
	if n := c.U(8, "graph"); n > 0 {
		for _, r := range g.graph(n) {
			g.props = append(g.props, r)
		}
	}

	root := g.add(nil)
	pagesRoot := g.add(nil)
	rootNode := mkDict("Type", pdf.Name("Pages"))
	nodes := []*pdf.Dict{rootNode}
	refs := []pdf.Ref{pagesRoot}
	parents := []int{-1}
	g.m.d.Objs[pagesRoot.Num] = rootNode
	for i := c.U(3, "nodes"); i > 0; i-- {
		up := c.U(len(nodes), "up")
		n := mkDict("Type", pdf.Name("Pages"), "Parent", refs[up])
		r := g.add(n)
		nodes, refs, parents = append(nodes, n), append(refs, r), append(parents, up)
	}
	same := c.Chance(50, "same boxes")
	// boxes and rotations of the nodes are inherited
	first := c.genBox("box")
	put(rootNode, "MediaBox", nums(first[:]...))
	type inh struct {
		media  *[4]float64
		rotate *int
		crop   *[4]float64
	}
	node := make([]inh, len(nodes))
	node[0].media = &first
	for i := range nodes {
		if i > 0 {
			node[i] = node[parents[i]]
		}
		if !same && i > 0 && c.Chance(30, "node box") {
			b := c.genBox("nodebox")
			node[i].media = &b
			put(nodes[i], "MediaBox", g.maybeRef(nums(b[:]...)))
		}
		if !same && c.Chance(15, "node crop") {
			b := c.genBox("nodecrop")
			node[i].crop = &b
			put(nodes[i], "CropBox", nums(b[:]...))
		}
		if c.Chance(15, "node rotate") {
			r := pick(c, "noderot", []int{90, 180, 270})
			node[i].rotate = &r
			put(nodes[i], "Rotate", pdf.Int(r))
		}
	}
	inherit := c.Chance(8, "inherited resources")
	var common *pdf.Dict
	if inherit {
		common, _ = g.resources(false)
		put(rootNode, "Resources", g.maybeRef(common))
	}
	np := 1 + c.U(4, "pages")
	kids := make([][]any, len(nodes))
	type leaf struct {
		ref  pdf.Ref
		page *srcPage
		node int
	}
	leaves := make([][]any, len(nodes)) // *srcPage or node number, in order
	for i := 1; i < len(nodes); i++ {
		kids[parents[i]] = append(kids[parents[i]], refs[i])
		leaves[parents[i]] = append(leaves[parents[i]], i)
	}
	var firstBoxes map[string][4]float64
	for i := 0; i < np; i++ {
		at := c.U(len(nodes), "node")
		p := &srcPage{boxes: map[string][4]float64{}}
		d := mkDict("Type", pdf.Name("Page"), "Parent", refs[at])
		if same {
			if firstBoxes == nil {
				firstBoxes = map[string][4]float64{}
				for j, n := range boxNames {
					if j == 0 && c.Chance(50, "own media") || j > 0 && c.Chance(15, "own box") {
						firstBoxes[n] = c.genBox("own")
					}
				}
			}
			for _, n := range boxNames {
				if b, ok := firstBoxes[n]; ok {
					p.boxes[n] = b
				}
			}
		} else {
			for j, n := range boxNames {
				if c.Chance(map[bool]int{true: 50, false: 15}[j == 0], "own box") {
					p.boxes[n] = c.genBox("own")
				}
			}
		}
		for _, n := range boxNames {
			b, ok := p.boxes[n]
			if !ok {
				continue
			}
			a := nums(b[:]...)
			if g.r.Intn(8) == 0 {
				a = nums(b[2], b[3], b[0], b[1])
			}
			put(d, n[1:], g.maybeRef(a))
		}
		if _, ok := p.boxes["/MediaBox"]; !ok {
			p.boxes["/MediaBox"] = *node[at].media
		}
		if _, ok := p.boxes["/CropBox"]; !ok && node[at].crop != nil {
			p.boxes["/CropBox"] = *node[at].crop
		}
		if node[at].rotate != nil {
			p.rotate = *node[at].rotate
		}
		if c.Chance(30, "rotate") {
			p.rotate = pick(c, "rot", []int{0, 90, 180, 270, -90, 360, 450})
			put(d, "Rotate", g.maybeRef(pdf.Int(p.rotate)))
		}
		var res *pdf.Dict
		var content []byte
		if inherit && c.Chance(60, "inherits") {
			p.parent = nodes[at]
			res = common
			content = []byte(fmt.Sprintf("%d %d 30 40 re f\n", i, i))
		} else {
			res, content = g.resources(false)
			put(d, "Resources", g.maybeRef(res))
		}
		p.res = res
		switch g.r.Intn(4) {
		case 0:
			a := pdf.Arr{}
			for _, part := range [][]byte{content, []byte("q 1 0 0 RG 10 10 m 50 50 l S Q\n"), []byte("0 g ")}[:1+g.r.Intn(3)] {
				a = append(a, g.stream(mkDict(), part))
				p.content = append(p.content, part...)
			}
			put(d, "Contents", a)
		case 1:
			if len(content) < 4 || c.Chance(20, "empty page") {
				break // a page without contents
			}
			fallthrough
		default:
			p.content = content
			put(d, "Contents", g.stream(mkDict(), content))
		}
		r := g.add(d)
		p.num = r.Num
		pos := len(leaves[at])
		if pos > 0 {
			pos = g.r.Intn(pos + 1)
		}
		kids[at] = append(kids[at][:pos], append([]any{r}, kids[at][pos:]...)...)
		leaves[at] = append(leaves[at][:pos], append([]any{p}, leaves[at][pos:]...)...)
	}
	var walk func(n int) int
	walk = func(n int) int {
		count := 0
		for _, l := range leaves[n] {
			switch v := l.(type) {
			case int:
				count += walk(v)
			case *srcPage:
				g.m.pages = append(g.m.pages, v)
				count++
			}
		}
		put(nodes[n], "Kids", pdf.Arr(kids[n]))
		put(nodes[n], "Count", pdf.Int(count))
		return count
	}
	walk(0)
	g.m.d.Objs[root.Num] = mkDict("Type", pdf.Name("Catalog"), "Pages", pagesRoot)
	put(g.m.d.Trailer, "Root", root)
	if g.r.Intn(2) == 0 {
		put(g.m.d.Trailer, "Info", g.add(mkDict("Title", g.str())))
	}
	g.write(c)
	return g.m
}

// ---- writing --------------------------------------------------------------

type serial struct {
	b bytes.Buffer
	r *rand.Rand
}

func (s *serial) space() {
	switch s.r.Intn(12) {
	case 0:
		s.b.WriteString("\r\n")
	case 1:
		s.b.WriteString("% a ] comment >>\n")
	case 2:
		s.b.WriteString("\t ")
	case 3, 4:
		s.b.WriteString("\n")
	default:
		s.b.WriteByte(' ')
	}
}

// gap is white space that may be left out.
func (s *serial) gap() {
	if s.r.Intn(2) == 0 {
		s.space()
	}
}

func (s *serial) obj(o any) {
	switch v := o.(type) {
	case pdf.Int:
		fmt.Fprintf(&s.b, "%d", int64(v))
	case pdf.Real:
		t := fmt.Sprintf("%.4f", float64(v))
		if s.r.Intn(2) == 0 {
			t = strings.TrimRight(t, "0")
			if strings.HasSuffix(t, ".") {
				t += "0"
			}
		}
		if s.r.Intn(4) == 0 {
			t = strings.Replace(t, "-0.", "-.", 1)
			if strings.HasPrefix(t, "0.") {
				t = t[1:]
			}
		}
		s.b.WriteString(t)
	case pdf.Name:
		s.b.WriteByte('/')
		for i := 0; i < len(v); i++ {
			if v[i] == '#' || v[0] == 'x' && s.r.Intn(30) == 0 {
				fmt.Fprintf(&s.b, "#%02X", v[i])
			} else {
				s.b.WriteByte(v[i])
			}
		}
	case pdf.Str:
		s.str(v)
	case bool:
		fmt.Fprint(&s.b, v)
	case pdf.Null:
		s.b.WriteString("null")
	case pdf.Ref:
		fmt.Fprintf(&s.b, "%d %d R", v.Num, v.Gen)
	case pdf.Arr:
		s.b.WriteByte('[')
		s.gap()
		for i, x := range v {
			if i > 0 {
				s.space()
			}
			s.obj(x)
		}
		s.gap()
		s.b.WriteByte(']')
	case *pdf.Dict:
		s.b.WriteString("<<")
		s.gap()
		for _, k := range v.Keys {
			s.obj(k)
			x := v.M[k]
			switch x.(type) {
			case pdf.Name, pdf.Str, pdf.Arr, *pdf.Dict:
				s.gap()
			default:
				s.space()
			}
			s.obj(x)
			s.gap()
		}
		s.b.WriteString(">>")
	case *pdf.Stream:
		s.obj(v.Dict)
		s.gap()
		s.b.WriteString([]string{"stream\n", "stream\r\n"}[s.r.Intn(2)])
		s.b.Write(v.Raw)
		s.b.WriteString([]string{"\nendstream", "\r\nendstream", "\nendstream"}[s.r.Intn(3)])
	default:
		panic(fmt.Sprintf("object %T", o))
	}
}

func (s *serial) str(v pdf.Str) {
	if s.r.Intn(3) == 0 {
		s.b.WriteByte('<')
		h := fmt.Sprintf([]string{"%x", "%X"}[s.r.Intn(2)], []byte(v))
		if strings.HasSuffix(h, "0") && s.r.Intn(2) == 0 {
			h = h[:len(h)-1] // the last digit may be left out
		}
		for i := range h {
			s.b.WriteByte(h[i])
			if s.r.Intn(10) == 0 {
				s.b.WriteByte("\n \t"[s.r.Intn(3)])
			}
		}
		s.b.WriteByte('>')
		return
	}
	s.b.WriteByte('(')
	// parentheses may stand as they are when they match
	bal, depth := true, 0
	for _, ch := range v {
		if ch == '(' {
			depth++
		}
		if ch == ')' {
			depth--
		}
		bal = bal && depth >= 0
	}
	bal = bal && depth == 0 && s.r.Intn(2) == 0
	for i, ch := range v {
		switch {
		case ch == '\\' || (ch == '(' || ch == ')') && !bal:
			s.b.WriteByte('\\')
			s.b.WriteByte(ch)
		case ch == '\r':
			s.b.WriteString("\\r")
		case ch == '\n':
			forms := []string{"\\n", "\\012", "\n", "\r\n", "\r"} // every end of line reads as a line feed
			n := len(forms)
			if b := s.b.Bytes(); b[len(b)-1] == '\r' {
				n = 2
			}
			s.b.WriteString(forms[s.r.Intn(n)])
		case ch == '\t' || ch == '\b' || ch == '\f':
			s.b.WriteString(map[byte][]string{'\t': {"\\t", "\t", "\\011"}, '\b': {"\\b", "\b", "\\010"}, '\f': {"\\f", "\f", "\\014"}}[ch][s.r.Intn(3)])
		case ch != '(' && ch != ')' && s.r.Intn(12) == 0:
			f := "\\%03o"
			if i+1 == len(v) {
				f = "\\%o"
			}
			fmt.Fprintf(&s.b, f, ch)
		case ch >= '0' && ch <= '9', ch == '(', ch == ')':
			s.b.WriteByte(ch)
		default:
			s.b.WriteByte(ch)
			if s.r.Intn(25) == 0 {
				s.b.WriteString([]string{"\\\n", "\\\r\n", "\\\r"}[s.r.Intn(3)])
			}
		}
	}
	s.b.WriteByte(')')
}

func (g *srcGen) write(c *Case) {
	m := g.m
	s := &serial{r: g.r}
	s.b.WriteString("%PDF-1.5\n%\xe2\xe3\xcf\xd3\n")
	var all []int
	max := 0
	for n := range m.d.Objs {
		all = append(all, n)
		if n > max {
			max = n
		}
	}
	sort.Ints(all)
	g.r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	style := c.Pick("xref", "table", "table with gaps", "two tables", "stream", "object streams")
	packed := map[int][2]int{}
	offs := map[int]int{}
	write := func(n int, o any) {
		offs[n] = s.b.Len()
		fmt.Fprintf(&s.b, "%d %d obj", n, m.gens[n])
		s.space()
		s.obj(o)
		s.space()
		s.b.WriteString("endobj\n")
	}
	if style == "object streams" {
		var rest, in []int
		for _, n := range all {
			switch m.d.Objs[n].(type) {
			case *pdf.Stream, pdf.Int, pdf.Real:
				rest = append(rest, n)
			default:
				if m.gens[n] == 0 && g.r.Intn(4) > 0 {
					in = append(in, n)
				} else {
					rest = append(rest, n)
				}
			}
		}
		for len(in) > 0 {
			k := 1 + g.r.Intn(len(in))
			if k > 100 {
				k = 100
			}
			os := g.alloc()
			m.gens[os] = 0
			if os > max {
				max = os
			}
			var head bytes.Buffer
			body := &serial{r: g.r}
			for i, n := range in[:k] {
				fmt.Fprintf(&head, "%d %d ", n, body.b.Len())
				body.obj(m.d.Objs[n])
				body.b.WriteByte(' ')
				packed[n] = [2]int{os, i}
			}
			in = in[k:]
			data := append(head.Bytes(), body.b.Bytes()...)
			d := mkDict("Type", pdf.Name("ObjStm"), "N", pdf.Int(k), "First", pdf.Int(head.Len()))
			if g.r.Intn(3) > 0 {
				data = deflate(data)
				put(d, "Filter", pdf.Name("FlateDecode"))
			}
			put(d, "Length", pdf.Int(len(data)))
			rest = append(rest, os)
			write(os, &pdf.Stream{Dict: d, Raw: data})
			offs[-os] = 1
		}
		for _, n := range rest {
			if _, done := offs[n]; !done {
				write(n, m.d.Objs[n])
			}
		}
	} else {
		for _, n := range all {
			write(n, m.d.Objs[n])
		}
	}
	m.descr = fmt.Sprintf("source with %d objects, %s, pages", len(all), style)
	for _, p := range m.pages {
		m.descr += fmt.Sprintf(" {%v rotate %d, %d bytes}", p.boxes, p.rotate, len(p.content))
	}
	trailer := m.d.Trailer
	put(trailer, "Size", pdf.Int(max+1))
	entry := func(n int) string { return fmt.Sprintf("%010d %05d n \n", offs[n], m.gens[n]) }
	sort.Ints(all)
	switch style {
	case "table", "table with gaps", "two tables":
		section := func(ns []int, gaps bool) {
			if !gaps {
				fmt.Fprintf(&s.b, "0 %d\n0000000000 65535 f \n", max+1)
				have := map[int]bool{}
				for _, n := range ns {
					have[n] = true
				}
				for n := 1; n <= max; n++ {
					if have[n] {
						s.b.WriteString(entry(n))
					} else {
						s.b.WriteString("0000000000 00001 f \n")
					}
				}
				return
			}
			s.b.WriteString("0 1\n0000000000 65535 f \n")
			for i := 0; i < len(ns); {
				j := i
				for j < len(ns) && ns[j] == ns[i]+j-i {
					j++
				}
				fmt.Fprintf(&s.b, "%d %d\n", ns[i], j-i)
				for ; i < j; i++ {
					s.b.WriteString(entry(ns[i]))
				}
			}
		}
		if style == "two tables" {
			var a, b []int
			for _, n := range all {
				if g.r.Intn(2) == 0 {
					a = append(a, n)
				} else {
					b = append(b, n)
				}
			}
			x := s.b.Len()
			s.b.WriteString("xref\n")
			section(a, true)
			s.b.WriteString("trailer\n")
			s.obj(trailer)
			put(trailer, "Prev", pdf.Int(x))
			s.b.WriteString("\n")
			all = b
		}
		x := s.b.Len()
		s.b.WriteString("xref\n")
		section(all, style != "table")
		s.b.WriteString("trailer\n")
		s.obj(trailer)
		fmt.Fprintf(&s.b, "\nstartxref\n%d\n%%%%EOF\n", x)
	default:
		x := s.b.Len()
		xn := g.alloc()
		m.gens[xn] = 0
		if xn > max {
			max = xn
		}
		offs[xn] = x
		w := 2 + g.r.Intn(3)
		if x > 65535 && w == 2 {
			w = 3
		}
		var rows bytes.Buffer
		for n := 0; n <= max; n++ {
			kind, a, b := 0, 0, 255
			if p, ok := packed[n]; ok {
				kind, a, b = 2, p[0], p[1]
			} else if o, ok := offs[n]; ok {
				kind, a, b = 1, o, m.gens[n]
			}
			rows.WriteByte(byte(kind))
			for i := w - 1; i >= 0; i-- {
				rows.WriteByte(byte(a >> uint(8*i)))
			}
			rows.WriteByte(byte(b))
		}
		raw := rows.Bytes()
		if w == 2 && g.r.Intn(2) == 0 {
			var up []byte
			for i := 0; i < len(raw); i += 4 {
				up = append(up, 2)
				for j := i; j < i+4; j++ {
					b := raw[j]
					if i > 0 {
						b -= raw[j-4]
					}
					up = append(up, b)
				}
			}
			raw = up
			put(trailer, "DecodeParms", mkDict("Columns", pdf.Int(4), "Predictor", pdf.Int(12)))
		}
		data := deflate(raw)
		put(trailer, "Size", pdf.Int(max+1))
		put(trailer, "Type", pdf.Name("XRef"))
		put(trailer, "W", nums(1, float64(w), 1))
		if g.r.Intn(2) == 0 {
			put(trailer, "Index", nums(0, float64(max+1)))
		}
		put(trailer, "Filter", pdf.Name("FlateDecode"))
		put(trailer, "Length", pdf.Int(len(data)))
		fmt.Fprintf(&s.b, "%d 0 obj\n", xn)
		s.obj(&pdf.Stream{Dict: trailer, Raw: data})
		fmt.Fprintf(&s.b, "\nendobj\nstartxref\n%d\n%%%%EOF\n", x)
	}
	m.data = s.b.Bytes()
}
