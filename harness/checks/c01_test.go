package checks

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/signintech/gopdf"

	"verif/pdf"
)

// validate checks the whole structure of a document, decrypting it first.
func validate(c *Case, b []byte, pass []byte) (*pdf.Doc, []*pdf.Page) {
	c.Helper()
	d, err := pdf.Parse(b)
	if err != nil {
		dump(b)
		c.Bad("the output does not parse: %v", err)
	}
	if d.Trailer.Has("Encrypt") {
		cr, kind, err := d.Open(pass)
		if err != nil || kind == "" {
			dump(b)
			c.Bad("the output does not open with its password: %v", err)
		}
		if d, err = d.DecryptAll(cr); err != nil {
			dump(b)
			c.Bad("the output does not decrypt: %v", err)
		}
	}
	pages, probs := d.Validate()
	if len(probs) > 0 {
		dump(b)
		c.Bad("the output is not valid: %s", strings.Join(probs, "; "))
	}
	return d, pages
}

func TestC01_Structure(t *testing.T) {
	Run(t, Opt{Quick: 30000, Thorough: 3000000, Rule: "at least 5 operations and 3 marks on the pages"}, func(c *Case) {
		pr := genProg(c, progOpt{ops: 40, imports: true, protect: 25, units: true, hostile: true, container: true})
		pr.log(c)
		e := pr.build(c, nil)
		b := output(c, e.p)
		d, pages := validate(c, b, pr.cfg.user)
		n := 0
		for _, p := range pages {
			n += len(p.Marks)
		}
		if len(pages) != e.p.GetNumberOfPages() {
			c.Bad("%d pages in the page tree, GetNumberOfPages() = %d", len(pages), e.p.GetNumberOfPages())
		}
		if len(pr.ops) >= 5 && n >= 3 {
			c.Nontrivial()
		}
		for _, o := range pr.ops {
			c.Class(strings.FieldsFunc(o.Desc, func(r rune) bool { return r == '(' || r == ';' })[0])
		}
		_ = d
	})
}

// padding is an object of any size as gofpdi hands them over.
func padding(n int) string {
	return fmt.Sprintf("<<\n/Length %d\n>>\nstream\n%s\nendstream\nendobj\n", n, strings.Repeat("x", n))
}

// pad puts large objects between the operations.
func (pr *Prog) pad(c *Case, total int) {
	k := 1 + c.U(3, "parts")
	var ops []Op
	at := map[int]int{}
	for i := 0; i < k; i++ {
		at[1+c.U(len(pr.ops), "at")]++
	}
	for i, o := range pr.ops {
		for ; at[i] > 0; at[i]-- {
			n := total / k
			ops = append(ops, Op{Desc: fmt.Sprintf("ImportObjects(stream of %d bytes)", n), Do: func(e *Env) {
				id := e.p.GetNextObjectID()
				e.p.ImportObjects(map[int]string{id: padding(n)}, id)
			}})
		}
		ops = append(ops, o)
	}
	pr.ops = ops
}

// TestC01_Large checks files whose offsets have many digits: large objects
// are put between the operations of a program.
func TestC01_Large(t *testing.T) {
	Run(t, Opt{Quick: 480, Thorough: 12000, Rule: "the last object starts beyond 100,000 bytes"}, func(c *Case) {
		pr := genProg(c, progOpt{ops: 12, imports: true, protect: 15, units: true})
		total := pick(c, "size", []int{99000, 100000, 131072, 262144, 999000, 1000000, 1048576})
		if c.Chance(3, "huge") {
			total = pick(c, "size", []int{9990000, 10000000, 16777216})
		}
		total += c.U(4000, "more")
		pr.pad(c, total)
		pr.log(c)
		e := pr.build(c, nil)
		b := output(c, e.p)
		d, pages := validate(c, b, pr.cfg.user)
		if len(pages) != e.p.GetNumberOfPages() {
			c.Bad("%d pages in the page tree, GetNumberOfPages() = %d", len(pages), e.p.GetNumberOfPages())
		}
		_ = d
		if bytes.LastIndex(b, []byte(" 0 obj")) > 100000 {
			c.Nontrivial()
		}
	})
}

// offsetWriter finds out where objects start, whatever the size of the file.
type offsetWriter struct {
	n     int64
	carry []byte
	objs  map[int]int64
	tail  []byte
}

func (w *offsetWriter) Write(b []byte) (int, error) {
	// first what straddles the border of two writes
	edge := append(append([]byte{}, w.carry...), b[:min(len(b), 40)]...)
	w.scan(edge, w.n-int64(len(w.carry)))
	w.scan(b, w.n)
	w.n += int64(len(b))
	w.carry = lastOf(w.carry, b, 40)
	w.tail = lastOf(w.tail, b, 1<<16)
	return len(b), nil
}

// lastOf gives the last n bytes of a and b.
func lastOf(a, b []byte, n int) []byte {
	if len(b) >= n {
		return append(a[:0], b[len(b)-n:]...)
	}
	a = append(a, b...)
	if len(a) > n {
		a = append([]byte{}, a[len(a)-n:]...)
	}
	return a
}

// scan looks for the starts of objects in the bytes at an offset.
func (w *offsetWriter) scan(b []byte, base int64) {
	mark := []byte(" 0 obj\n")
	for i := 0; i < len(b); i++ {
		j := bytes.Index(b[i:], mark)
		if j < 0 {
			return
		}
		i += j
		k := i
		for k > 0 && b[k-1] >= '0' && b[k-1] <= '9' {
			k--
		}
		if k == i || k == 0 && base > 0 {
			continue // the number starts in an earlier write
		}
		id, _ := strconv.Atoi(string(b[k:i]))
		w.objs[id] = base + int64(k)
	}
}

// TestC01_Huge writes files of gigabytes into a scanner.
func TestC01_Huge(t *testing.T) {
	Run(t, Opt{Quick: 8, Thorough: 400, Rule: "the last object starts beyond 2^31 bytes"}, func(c *Case) {
		p := new(gopdf.GoPdf)
		p.Start(gopdf.Config{PageSize: *gopdf.PageSizeA4})
		p.AddPage()
		p.Line(1, 2, 3, 4)
		total := pick(c, "total", []int64{1 << 31, 1 << 32, 999999000, 3 << 30})
		part := int64(16<<20 + c.U(1<<20, "part"))
		pad := padding(int(part))
		n := 0
		for sum := int64(0); sum < total; sum += part {
			id := p.GetNextObjectID()
			p.ImportObjects(map[int]string{id: pad}, id)
			n++
			if c.Chance(10, "page") {
				p.AddPage()
				p.Line(1, 2, 3, 4)
			}
		}
		p.AddPage()
		p.Line(1, 2, 3, 4)
		c.Log("%d objects of %d bytes", n, part)
		w := &offsetWriter{objs: map[int]int64{}}
		got, err := p.WriteTo(w)
		if err != nil || got != w.n {
			c.Bad("WriteTo: %d bytes, %v; %d arrived", got, err, w.n)
		}
		tail := string(w.tail)
		i := strings.LastIndex(tail, "startxref\n")
		j := strings.LastIndex(tail, "\nxref\n") + 1
		if i < 0 || j <= 0 {
			c.Bad("the file ends with %q", tail[max(0, len(tail)-200):])
		}
		if f := strings.Fields(tail[i:]); f[1] != strconv.FormatInt(w.n-int64(len(tail)-j), 10) {
			c.Bad("startxref says %s, the table is at %d", f[1], w.n-int64(len(tail)-j))
		}
		lines := strings.Split(tail[j:], "\n")
		entries := 0
		for id, l := range lines[3:] {
			f := strings.Fields(l)
			if len(f) != 3 || f[2] != "n" {
				break
			}
			at, ok := w.objs[id+1]
			if v, err := strconv.ParseInt(f[0], 10, 64); err != nil || len(l) != 19 || !ok || v != at {
				c.Bad("the table has %q for object %d, which starts at %d", l, id+1, at)
			}
			entries++
		}
		var ids []int
		for id := range w.objs {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		if entries != len(ids) || ids[len(ids)-1] != entries || lines[1] != fmt.Sprintf("0 %d", entries+1) {
			c.Bad("%d entries for %d objects (header %q)", entries, len(ids), lines[1])
		}
		if w.objs[entries] > 1<<31 {
			c.Nontrivial()
		}
	})
}
