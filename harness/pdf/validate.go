package pdf

import (
	"bytes"
	"fmt"
	"image/jpeg"
	"regexp"
)

// Page is one leaf of the page tree.
type Page struct {
	Num     int // object number
	Dict    *Dict
	Media   []float64
	Content []byte
	Res     *Dict
	Marks   []Mark
}

// Pages walks the page tree strictly and interprets each page's contents.
func (d *Doc) Pages() ([]*Page, []string) {
	var pages []*Page
	var probs []string
	bad := func(f string, a ...any) {
		if len(probs) < 30 {
			probs = append(probs, fmt.Sprintf(f, a...))
		}
	}
	rootRef, ok := d.Trailer.Get("Root").(Ref)
	if !ok {
		return nil, []string{"trailer /Root is not a reference"}
	}
	root := d.Dict(rootRef)
	if root == nil || d.NameOf(root.Get("Type")) != "Catalog" {
		return nil, []string{"the catalog is missing"}
	}
	pagesRef, ok := root.Get("Pages").(Ref)
	if !ok {
		return nil, []string{"catalog /Pages is not a reference"}
	}
	seen := map[int]bool{}
	var walk func(ref Ref, parent int, media any) int
	walk = func(ref Ref, parent int, media any) int {
		if seen[ref.Num] {
			bad("page tree node %d occurs twice", ref.Num)
			return 0
		}
		seen[ref.Num] = true
		nd, ok := d.Resolve(ref).(*Dict)
		if !ok {
			bad("page tree node %d is not a dictionary", ref.Num)
			return 0
		}
		if nd.Has("MediaBox") {
			media = nd.Get("MediaBox")
		}
		if parent != 0 {
			if p, ok := nd.Get("Parent").(Ref); !ok || p.Num != parent {
				bad("page tree node %d has /Parent %v, expected %d", ref.Num, nd.Get("Parent"), parent)
			}
		}
		switch d.NameOf(nd.Get("Type")) {
		case "Pages":
			kids, ok := d.Arr(nd.Get("Kids"))
			if !ok {
				bad("/Kids is not an array")
				return 0
			}
			n := 0
			for _, k := range kids {
				kr, ok := k.(Ref)
				if !ok {
					bad("/Kids element %v is not a reference", k)
					continue
				}
				n += walk(kr, ref.Num, media)
			}
			if c, ok := d.Int(nd.Get("Count")); !ok || c != n {
				bad("/Count %v but %d leaves", nd.Get("Count"), n)
			}
			return n
		case "Page":
			p := &Page{Num: ref.Num, Dict: nd}
			mb, ok := d.Nums(media)
			if !ok || len(mb) != 4 {
				bad("page %d: bad /MediaBox %v", ref.Num, media)
			} else {
				p.Media = mb
			}
			p.Res = d.Dict(nd.Get("Resources"))
			if p.Res == nil {
				bad("page %d: no /Resources", ref.Num)
				p.Res = &Dict{M: map[Name]any{}}
			}
			if nd.Has("Contents") {
				var parts []any
				switch v := nd.Get("Contents").(type) {
				case Arr:
					parts = v
				default:
					if a, ok := d.Arr(v); ok {
						parts = a
					} else {
						parts = []any{v}
					}
				}
				used := map[int]bool{}
				for _, c := range parts {
					if r, ok := c.(Ref); ok {
						if used[r.Num] {
							bad("page %d: content stream %d listed twice", ref.Num, r.Num)
						}
						used[r.Num] = true
					}
					st := d.Stream(c)
					if st == nil {
						bad("page %d: /Contents element %v is not a stream", ref.Num, c)
						continue
					}
					data, err := d.Data_(st)
					if err != nil {
						bad("page %d: contents: %v", ref.Num, err)
						continue
					}
					p.Content = append(p.Content, data...)
					p.Content = append(p.Content, '\n')
				}
			}
			var pr []string
			p.Marks, pr = d.Interpret(p.Content, p.Res, Ident)
			for _, s := range pr {
				bad("page %d: %s", len(pages)+1, s)
			}
			pages = append(pages, p)
			return 1
		}
		bad("page tree node %d has /Type %v", ref.Num, nd.Get("Type"))
		return 0
	}
	walk(pagesRef, 0, nil)
	return pages, probs
}

var infoKeys = map[Name]bool{"Title": true, "Author": true, "Subject": true, "Keywords": true, "Creator": true, "Producer": true, "CreationDate": true, "ModDate": true, "Trapped": true}
var dateRE = regexp.MustCompile(`^D:\d{4}(\d\d(\d\d(\d\d(\d\d(\d\d([Zz]|[+-]\d\d'(\d\d'?)?)?)?)?)?)?)?$`)

// Validate checks everything C01 states about a (decrypted) document.
func (d *Doc) Validate() ([]*Page, []string) {
	pages, probs := d.Pages()
	bad := func(f string, a ...any) {
		if len(probs) < 40 {
			probs = append(probs, fmt.Sprintf(f, a...))
		}
	}
	// every reference resolves
	check := func(where string, o any) {
		Walk(o, func(r Ref) {
			if _, ok := d.Objs[r.Num]; !ok || r.Gen != 0 {
				bad("%s: reference %d %d R to an object that does not exist", where, r.Num, r.Gen)
			}
		})
	}
	check("trailer", d.Trailer)
	for _, n := range d.Order {
		check(fmt.Sprintf("object %d", n), d.Objs[n])
	}
	if e := d.Trailer.Get("Encrypt"); e != nil {
		if a, ok := d.Arr(d.Trailer.Get("ID")); !ok || len(a) != 2 {
			bad("encrypted file without /ID")
		}
	}
	if d.Trailer.Has("Info") {
		info := d.Dict(d.Trailer.Get("Info"))
		if info == nil {
			bad("/Info is not a dictionary")
		} else {
			for _, k := range info.Keys {
				s, isStr := d.Resolve(info.M[k]).(Str)
				if !infoKeys[k] || !isStr {
					bad("/Info /%s %v", k, info.M[k])
				}
				if (k == "CreationDate" || k == "ModDate") && !dateRE.Match(s) {
					bad("/Info /%s %q is not a date", k, s)
				}
			}
		}
	}
	// typed objects
	pageNums := map[int]bool{}
	for _, p := range pages {
		pageNums[p.Num] = true
	}
	for pi, p := range pages {
		if p.Media != nil && (p.Media[2] <= p.Media[0] || p.Media[3] <= p.Media[1]) {
			bad("page %d: empty /MediaBox %v", pi+1, p.Media)
		}
		if p.Dict.Has("Annots") {
			a, ok := d.Arr(p.Dict.Get("Annots"))
			if !ok {
				bad("page %d: /Annots is not an array", pi+1)
			}
			for _, x := range a {
				an := d.Dict(x)
				if an == nil {
					bad("page %d: annotation is not a dictionary", pi+1)
					continue
				}
				d.checkAnnot(an, pageNums, func(f string, a ...any) { bad("page %d: annotation: "+f, append([]any{pi + 1}, a...)...) })
			}
		}
		// resources well-typed
		for _, cat := range p.Res.Keys {
			if cat == "ProcSet" {
				continue
			}
			cd := d.Dict(p.Res.Get(cat))
			if cd == nil {
				bad("page %d: resource category /%s is not a dictionary", pi+1, cat)
			}
		}
	}
	for _, n := range d.Order {
		o := d.Objs[n]
		switch v := o.(type) {
		case *Stream:
			d.checkStream(n, v, bad)
		case *Dict:
			d.checkDict(n, v, bad)
		}
	}
	// fonts in use
	root := d.Dict(d.Trailer.Get("Root"))
	if root != nil && root.Has("Outlines") {
		for _, s := range d.CheckOutlines(pageNums) {
			bad("%s", s)
		}
	}
	return pages, probs
}

func (d *Doc) checkAnnot(an *Dict, pages map[int]bool, bad func(string, ...any)) {
	if d.NameOf(an.Get("Type")) != "Annot" || an.Get("Subtype") != Name("Link") {
		bad("Type %v Subtype %v", an.Get("Type"), an.Get("Subtype"))
	}
	if r, ok := d.Nums(an.Get("Rect")); !ok || len(r) != 4 {
		bad("bad /Rect %v", an.Get("Rect"))
	}
	// a link to an anchor that was never set has neither
	if an.Has("A") && an.Has("Dest") {
		bad("both an action and a destination")
	}
	if an.Has("A") {
		ac := d.Dict(an.Get("A"))
		if ac == nil || d.NameOf(ac.Get("S")) != "URI" {
			bad("bad action")
		} else if _, ok := d.Resolve(ac.Get("URI")).(Str); !ok {
			bad("bad URI")
		}
	}
	if an.Has("Dest") {
		d.checkDest(an.Get("Dest"), pages, bad)
	}
}

func (d *Doc) checkDest(o any, pages map[int]bool, bad func(string, ...any)) {
	a, ok := d.Arr(o)
	if !ok || len(a) < 2 {
		bad("bad destination %v", o)
		return
	}
	r, ok := a[0].(Ref)
	if !ok || !pages[r.Num] {
		bad("destination %v is not a page", a[0])
	}
	if a[1] != Name("XYZ") || len(a) != 5 {
		bad("bad destination %v", a)
		return
	}
	for _, x := range a[2:] {
		if _, isNull := x.(Null); isNull {
			continue
		}
		if _, ok := d.Num(x); !ok {
			bad("bad destination %v", a)
		}
	}
}

// OutlineItem is a node of the outline tree read back.
type OutlineItem struct {
	Num  int
	Dict *Dict
	Kids []*OutlineItem
	Open int // items visible below it
}

// visible counts the items on a level and the open ones below them.
func visible(l []*OutlineItem) int {
	n := len(l)
	for _, x := range l {
		n += x.Open
	}
	return n
}

// Outlines reads the tree; problems are link inconsistencies.
func (d *Doc) Outlines() ([]*OutlineItem, []string) {
	var probs []string
	bad := func(f string, a ...any) {
		if len(probs) < 10 {
			probs = append(probs, "outlines: "+fmt.Sprintf(f, a...))
		}
	}
	root := d.Dict(d.Trailer.Get("Root"))
	if root == nil || !root.Has("Outlines") {
		return nil, nil
	}
	or, ok := root.Get("Outlines").(Ref)
	if !ok {
		return nil, []string{"outlines: not a reference"}
	}
	seen := map[int]bool{}
	var level func(owner Ref, depth int) []*OutlineItem
	level = func(owner Ref, depth int) []*OutlineItem {
		od := d.Dict(owner)
		if od == nil {
			bad("object %d is not a dictionary", owner.Num)
			return nil
		}
		if od.Has("First") != od.Has("Last") {
			bad("object %d has only one of /First and /Last", owner.Num)
		}
		if !od.Has("First") {
			return nil
		}
		var items []*OutlineItem
		cur, _ := od.Get("First").(Ref)
		prev := 0
		for {
			if seen[cur.Num] || depth > 50 {
				bad("item %d reached twice", cur.Num)
				return items
			}
			seen[cur.Num] = true
			cd := d.Dict(cur)
			if cd == nil || cur.Num == 0 {
				bad("item %d is not a dictionary", cur.Num)
				return items
			}
			if p, ok := cd.Get("Parent").(Ref); !ok || p.Num != owner.Num {
				bad("item %d has /Parent %v, expected %d", cur.Num, cd.Get("Parent"), owner.Num)
			}
			pr, hasPrev := cd.Get("Prev").(Ref)
			if (prev == 0 && cd.Has("Prev")) || (prev != 0 && (!hasPrev || pr.Num != prev)) {
				bad("item %d has /Prev %v, expected %d", cur.Num, cd.Get("Prev"), prev)
			}
			it := &OutlineItem{Num: cur.Num, Dict: cd}
			it.Kids = level(cur, depth+1)
			// an item counts the items that are visible below it when it is open
			n, okCount := d.Int(cd.Get("Count"))
			it.Open = max(0, n)
			if want := visible(it.Kids); len(it.Kids) > 0 && (!okCount || n != want && n != -want) || len(it.Kids) == 0 && n != 0 {
				bad("item %d has /Count %v with %d visible items below it", cur.Num, cd.Get("Count"), want)
			}
			items = append(items, it)
			prev = cur.Num
			if !cd.Has("Next") {
				break
			}
			cur, _ = cd.Get("Next").(Ref)
		}
		if l, ok := od.Get("Last").(Ref); !ok || l.Num != prev {
			bad("object %d has /Last %v, but the last item is %d", owner.Num, od.Get("Last"), prev)
		}
		return items
	}
	items := level(or, 0)
	od := d.Dict(or)
	if od != nil {
		if t := d.NameOf(od.Get("Type")); t != "Outlines" && t != "" {
			bad("/Type %v", t)
		}
		if c, ok := d.Int(od.Get("Count")); od.Has("Count") && (!ok || c != visible(items)) {
			bad("/Count %v with %d visible items", od.Get("Count"), visible(items))
		}
	}
	return items, probs
}

func (d *Doc) CheckOutlines(pages map[int]bool) []string {
	items, probs := d.Outlines()
	bad := func(f string, a ...any) { probs = append(probs, "outline item: "+fmt.Sprintf(f, a...)) }
	var walk func([]*OutlineItem)
	walk = func(l []*OutlineItem) {
		for _, it := range l {
			if _, ok := d.Resolve(it.Dict.Get("Title")).(Str); !ok {
				bad("%d has no title", it.Num)
			}
			if it.Dict.Has("Dest") {
				d.checkDest(it.Dict.Get("Dest"), pages, bad)
			}
			walk(it.Kids)
		}
	}
	walk(items)
	return probs
}

func (d *Doc) checkDict(n int, v *Dict, bad func(string, ...any)) {
	switch d.NameOf(v.Get("Type")) {
	case "Font":
		if d.NameOf(v.Get("Subtype")) == "Type0" {
			f, err := d.LoadFont(v)
			if err != nil {
				bad("font object %d: %v", n, err)
				return
			}
			if f.FD == nil {
				bad("font object %d has no descriptor", n)
				return
			}
			bf := d.NameOf(v.Get("BaseFont"))
			if bf == "" || d.NameOf(f.Desc.Get("BaseFont")) != bf || d.NameOf(f.FD.Get("FontName")) != bf {
				bad("font object %d: names disagree: %q %q %q", n, bf, d.NameOf(f.Desc.Get("BaseFont")), d.NameOf(f.FD.Get("FontName")))
			}
			si := d.Dict(f.Desc.Get("CIDSystemInfo"))
			if si == nil || !si.Has("Registry") || !si.Has("Ordering") || !si.Has("Supplement") {
				bad("font object %d: bad CIDSystemInfo", n)
			} else {
				reg, _ := d.Resolve(si.Get("Registry")).(Str)
				ord, _ := d.Resolve(si.Get("Ordering")).(Str)
				if string(reg) != "Adobe" || string(ord) != "Identity" {
					bad("font object %d: CIDSystemInfo %q %q", n, reg, ord)
				}
			}
			if v.Has("ToUnicode") {
				st := d.Stream(v.Get("ToUnicode"))
				if st == nil {
					bad("font object %d: ToUnicode is not a stream", n)
				} else if data, err := d.Data_(st); err != nil {
					bad("font object %d: ToUnicode: %v", n, err)
				} else if _, err := ParseCMap(data); err != nil {
					bad("font object %d: ToUnicode: %v", n, err)
				}
			}
		}
	case "FontDescriptor":
		for _, k := range []Name{"Ascent", "Descent", "CapHeight", "Flags", "ItalicAngle", "StemV"} {
			if _, ok := d.Num(v.Get(k)); !ok {
				bad("font descriptor %d: /%s %v", n, k, v.Get(k))
			}
		}
		if b, ok := d.Nums(v.Get("FontBBox")); !ok || len(b) != 4 {
			bad("font descriptor %d: /FontBBox %v", n, v.Get("FontBBox"))
		}
		st := d.Stream(v.Get("FontFile2"))
		if st == nil {
			bad("font descriptor %d: no FontFile2", n)
			return
		}
		data, err := d.Data_(st)
		if err != nil {
			bad("font descriptor %d: FontFile2: %v", n, err)
			return
		}
		if l1, ok := d.Int(st.Dict.Get("Length1")); !ok || l1 != len(data) {
			bad("font descriptor %d: /Length1 %v but %d bytes", n, st.Dict.Get("Length1"), len(data))
		}
	case "ExtGState":
		for _, k := range v.Keys {
			if k == "BM" {
				if nm, ok := d.Resolve(v.M[k]).(Name); !ok || !validBM[nm] {
					bad("graphics state %d: /BM %v", n, v.M[k])
				}
			}
			if k == "ca" || k == "CA" {
				if f, ok := d.Num(v.M[k]); !ok || f < 0 || f > 1 {
					bad("graphics state %d: /%s %v", n, k, v.M[k])
				}
			}
			if k == "SMask" && d.Resolve(v.M[k]) != Name("None") {
				md, ok := d.Resolve(v.M[k]).(*Dict)
				if !ok {
					bad("graphics state %d: /SMask %v", n, v.M[k])
					continue
				}
				if s := d.NameOf(md.Get("S")); s != "Luminosity" && s != "Alpha" {
					bad("soft mask: /S %v", s)
				}
				g := d.Stream(md.Get("G"))
				if g == nil || d.NameOf(g.Dict.Get("Subtype")) != "Form" {
					bad("soft mask: /G %v is not a form", md.Get("G"))
				} else if grp := d.Dict(g.Dict.Get("Group")); grp == nil || d.NameOf(grp.Get("S")) != "Transparency" {
					bad("soft mask: /G is not a transparency group")
				}
			}
		}
	}
}

func (d *Doc) checkStream(n int, v *Stream, bad func(string, ...any)) {
	switch d.NameOf(v.Dict.Get("Subtype")) {
	case "Image":
		if _, err := d.Image(v); err != nil {
			bad("image object %d: %v", n, err)
		}
	case "Form":
		if b, ok := d.Nums(v.Dict.Get("BBox")); !ok || len(b) != 4 {
			bad("form object %d: /BBox %v", n, v.Dict.Get("BBox"))
		}
	default:
		if _, err := d.Data_(v); err != nil {
			bad("stream object %d: %v", n, err)
		}
	}
}

// Image is a decoded image XObject: raw samples, 8 bit per component.
type Image struct {
	W, H, BPC int
	Space     string // DeviceGray, DeviceRGB, DeviceCMYK, Indexed
	Palette   []byte
	N         int
	Samples   []int  // W*H*N, un-predicted component values (not scaled)
	JPEG      []byte // DCT data when the filter is DCTDecode
	Decode    []float64
	SMask     *Image
	Mask      []int
}

func (d *Doc) Image(v *Stream) (*Image, error) {
	im := &Image{}
	var ok bool
	if im.W, ok = d.Int(v.Dict.Get("Width")); !ok || im.W <= 0 {
		return nil, fmt.Errorf("/Width %v", v.Dict.Get("Width"))
	}
	if im.H, ok = d.Int(v.Dict.Get("Height")); !ok || im.H <= 0 {
		return nil, fmt.Errorf("/Height %v", v.Dict.Get("Height"))
	}
	if im.BPC, ok = d.Int(v.Dict.Get("BitsPerComponent")); !ok {
		return nil, fmt.Errorf("/BitsPerComponent %v", v.Dict.Get("BitsPerComponent"))
	}
	switch im.BPC {
	case 1, 2, 4, 8:
	default:
		return nil, fmt.Errorf("/BitsPerComponent %d", im.BPC)
	}
	switch cs := d.Resolve(v.Dict.Get("ColorSpace")).(type) {
	case Name:
		im.Space = string(cs)
		switch cs {
		case "DeviceGray":
			im.N = 1
		case "DeviceRGB":
			im.N = 3
		case "DeviceCMYK":
			im.N = 4
		default:
			return nil, fmt.Errorf("/ColorSpace %v", cs)
		}
	case Arr:
		if len(cs) != 4 || cs[0] != Name("Indexed") || d.Resolve(cs[1]) != Name("DeviceRGB") {
			return nil, fmt.Errorf("/ColorSpace %v", cs)
		}
		hi, ok := d.Int(cs[2])
		if !ok || hi < 0 || hi > 255 {
			return nil, fmt.Errorf("palette size %v", cs[2])
		}
		switch p := d.Resolve(cs[3]).(type) {
		case Str:
			im.Palette = p
		case *Stream:
			data, err := d.Data_(p)
			if err != nil {
				return nil, err
			}
			im.Palette = data
		default:
			return nil, fmt.Errorf("palette %v", cs[3])
		}
		if len(im.Palette) < 3*(hi+1) {
			return nil, fmt.Errorf("palette has %d bytes, needs %d", len(im.Palette), 3*(hi+1))
		}
		im.Space, im.N = "Indexed", 1
	default:
		return nil, fmt.Errorf("/ColorSpace %v", cs)
	}
	if v.Dict.Has("Decode") {
		dec, ok := d.Nums(v.Dict.Get("Decode"))
		if !ok || len(dec) != 2*im.N {
			return nil, fmt.Errorf("/Decode %v", v.Dict.Get("Decode"))
		}
		im.Decode = dec
	}
	if v.Dict.Has("Mask") {
		m, ok := d.Nums(v.Dict.Get("Mask"))
		if !ok || len(m) != 2*im.N {
			return nil, fmt.Errorf("/Mask %v", v.Dict.Get("Mask"))
		}
		for _, x := range m {
			im.Mask = append(im.Mask, int(x))
			if x < 0 || int(x) > 1<<uint(im.BPC)-1 {
				return nil, fmt.Errorf("/Mask %v out of range", m)
			}
		}
	}
	if v.Dict.Has("SMask") {
		st := d.Stream(v.Dict.Get("SMask"))
		if st == nil || d.NameOf(st.Dict.Get("Subtype")) != "Image" {
			return nil, fmt.Errorf("/SMask is not an image")
		}
		sm, err := d.Image(st)
		if err != nil {
			return nil, fmt.Errorf("soft mask: %v", err)
		}
		if sm.Space != "DeviceGray" || sm.SMask != nil {
			return nil, fmt.Errorf("bad soft mask")
		}
		im.SMask = sm
	}
	switch d.NameOf(v.Dict.Get("Filter")) {
	case "DCTDecode":
		im.JPEG = v.Raw
		cfg, err := jpeg.DecodeConfig(bytes.NewReader(v.Raw))
		if err != nil {
			return nil, err
		}
		if cfg.Width != im.W || cfg.Height != im.H {
			return nil, fmt.Errorf("JPEG is %dx%d, declared %dx%d", cfg.Width, cfg.Height, im.W, im.H)
		}
		if im.BPC != 8 {
			return nil, fmt.Errorf("JPEG with %d bits", im.BPC)
		}
		return im, nil
	case "FlateDecode", "":
	default:
		return nil, fmt.Errorf("/Filter %v", v.Dict.Get("Filter"))
	}
	data, err := d.Data_(v)
	if err != nil {
		return nil, err
	}
	rowBits := im.W * im.N * im.BPC
	row := (rowBits + 7) / 8
	if v.Dict.Has("DecodeParms") {
		dp := d.Dict(v.Dict.Get("DecodeParms"))
		if dp == nil {
			return nil, fmt.Errorf("bad /DecodeParms")
		}
		get := func(k Name, def int) int {
			if dp.Has(k) {
				i, _ := d.Int(dp.Get(k))
				return i
			}
			return def
		}
		pred := get("Predictor", 1)
		if pred >= 10 {
			cols, colors, bpc := get("Columns", 1), get("Colors", 1), get("BitsPerComponent", 8)
			if cols != im.W || colors != im.N || bpc != im.BPC {
				return nil, fmt.Errorf("DecodeParms (%d columns, %d colors, %d bits) disagree with the image (%d, %d, %d)", cols, colors, bpc, im.W, im.N, im.BPC)
			}
			data, err = unpredict(data, row, (im.N*im.BPC+7)/8)
			if err != nil {
				return nil, err
			}
		} else if pred != 1 {
			return nil, fmt.Errorf("predictor %d", pred)
		}
	}
	if len(data) != row*im.H {
		return nil, fmt.Errorf("%d bytes of samples, %dx%d needs %d", len(data), im.W, im.H, row*im.H)
	}
	im.Samples = make([]int, 0, im.W*im.H*im.N)
	for y := 0; y < im.H; y++ {
		line := data[y*row : (y+1)*row]
		for i := 0; i < im.W*im.N; i++ {
			bit := i * im.BPC
			v := int(line[bit/8]) >> uint(8-im.BPC-bit%8) & (1<<uint(im.BPC) - 1)
			im.Samples = append(im.Samples, v)
		}
	}
	if im.Space == "Indexed" {
		for _, s := range im.Samples {
			if 3*s+2 >= len(im.Palette) {
				return nil, fmt.Errorf("palette index %d out of range", s)
			}
		}
	}
	return im, nil
}

func unpredict(data []byte, row, bpp int) ([]byte, error) {
	if len(data)%(row+1) != 0 {
		return nil, fmt.Errorf("predicted data of %d bytes is not a multiple of %d", len(data), row+1)
	}
	var out []byte
	prev := make([]byte, row)
	for i := 0; i < len(data); i += row + 1 {
		ft := data[i]
		line := append([]byte(nil), data[i+1:i+1+row]...)
		for j := range line {
			var a, b, c int
			if j >= bpp {
				a = int(line[j-bpp])
				c = int(prev[j-bpp])
			}
			b = int(prev[j])
			switch ft {
			case 0:
			case 1:
				line[j] += byte(a)
			case 2:
				line[j] += byte(b)
			case 3:
				line[j] += byte((a + b) / 2)
			case 4:
				p := a + b - c
				pa, pb, pc := abs(p-a), abs(p-b), abs(p-c)
				switch {
				case pa <= pb && pa <= pc:
					line[j] += byte(a)
				case pb <= pc:
					line[j] += byte(b)
				default:
					line[j] += byte(c)
				}
			default:
				return nil, fmt.Errorf("filter type %d", ft)
			}
		}
		out = append(out, line...)
		prev = line
	}
	return out, nil
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}
