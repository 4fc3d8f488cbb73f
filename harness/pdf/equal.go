package pdf

import (
	"bytes"
	"fmt"
	"math"
)

// Cmp compares object graphs of two documents, following references (the
// object numbers may differ, the sharing of objects must not).
type Cmp struct {
	A, B  *Doc
	Tol   float64 // for numbers in dictionaries and content streams
	Skip  map[Name]bool
	Exact bool // content streams are equal byte by byte
	fwd   map[int]int
	rev   map[int]int
}

func NewCmp(a, b *Doc, tol float64) *Cmp {
	return &Cmp{A: a, B: b, Tol: tol, fwd: map[int]int{}, rev: map[int]int{}}
}

func num(o any) (float64, bool) {
	switch v := o.(type) {
	case Int:
		return float64(v), true
	case Real:
		return float64(v), true
	}
	return 0, false
}

// Diff returns "" when the objects are equal, else where they differ.
func (c *Cmp) Diff(path string, x, y any) string {
	rx, okx := x.(Ref)
	ry, oky := y.(Ref)
	if okx != oky {
		return fmt.Sprintf("%s: %v against %v", path, x, y)
	}
	if okx {
		m, ok1 := c.fwd[rx.Num]
		n, ok2 := c.rev[ry.Num]
		if ok1 || ok2 {
			if m != ry.Num || n != rx.Num {
				return fmt.Sprintf("%s: objects %v and %v do not correspond", path, rx, ry)
			}
			return ""
		}
		c.fwd[rx.Num] = ry.Num
		c.rev[ry.Num] = rx.Num
		return c.Diff(fmt.Sprintf("%s(%d)", path, rx.Num), c.A.Objs[rx.Num], c.B.Objs[ry.Num])
	}
	if a, ok := num(x); ok {
		b, ok := num(y)
		if !ok || math.Abs(a-b) > c.Tol {
			return fmt.Sprintf("%s: %v against %v", path, x, y)
		}
		return ""
	}
	switch a := x.(type) {
	case Arr:
		b, ok := y.(Arr)
		if !ok || len(a) != len(b) {
			return fmt.Sprintf("%s: %v against %v", path, x, y)
		}
		for i := range a {
			if d := c.Diff(fmt.Sprintf("%s[%d]", path, i), a[i], b[i]); d != "" {
				return d
			}
		}
		return ""
	case *Dict:
		b, ok := y.(*Dict)
		if !ok {
			return fmt.Sprintf("%s: a dictionary against %v", path, y)
		}
		for _, k := range a.Keys {
			if c.Skip[k] {
				continue
			}
			if !b.Has(k) {
				return fmt.Sprintf("%s: /%s is missing on one side", path, k)
			}
			if d := c.Diff(path+"/"+string(k), a.M[k], b.M[k]); d != "" {
				return d
			}
		}
		for _, k := range b.Keys {
			if !c.Skip[k] && !a.Has(k) {
				return fmt.Sprintf("%s: /%s is missing on one side", path, k)
			}
		}
		return ""
	case *Stream:
		b, ok := y.(*Stream)
		if !ok {
			return fmt.Sprintf("%s: a stream against %v", path, y)
		}
		content := !c.Exact && c.Tol > 0 && !a.Dict.Has("Length1") && c.A.NameOf(a.Dict.Get("Subtype")) != "Image"
		skip := c.Skip
		if content && !bytes.Equal(a.Raw, b.Raw) {
			c.Skip = map[Name]bool{"Length": true}
			for k := range skip {
				c.Skip[k] = true
			}
		}
		d := c.Diff(path, a.Dict, b.Dict)
		c.Skip = skip
		if d != "" {
			return d
		}
		if bytes.Equal(a.Raw, b.Raw) {
			return ""
		}
		da, e1 := c.A.Data_(a)
		db, e2 := c.B.Data_(b)
		if e1 != nil || e2 != nil {
			return fmt.Sprintf("%s: stream data differs (%v, %v)", path, e1, e2)
		}
		if bytes.Equal(da, db) {
			return ""
		}
		if content {
			return c.contentDiff(path, da, db)
		}
		return path + ": stream data differs"
	}
	if s, ok := x.(Str); ok {
		t, ok := y.(Str)
		if !ok || !bytes.Equal(s, t) {
			return fmt.Sprintf("%s: %q against %v", path, s, y)
		}
		return ""
	}
	if x != y {
		return fmt.Sprintf("%s: %v against %v", path, x, y)
	}
	return ""
}

func (c *Cmp) contentDiff(path string, a, b []byte) (d string) {
	defer func() {
		if r := recover(); r != nil {
			d = fmt.Sprintf("%s: %v", path, r)
		}
	}()
	la, lb := NewContentLexer(a), NewContentLexer(b)
	for i := 0; ; i++ {
		x, ok1 := la.Next()
		y, ok2 := lb.Next()
		if ok1 != ok2 {
			return fmt.Sprintf("%s: one content stream ends at token %d, the other continues with %v %v", path, i, x, y)
		}
		if !ok1 {
			return ""
		}
		if d := c.Diff(fmt.Sprintf("%s token %d", path, i), x, y); d != "" {
			return fmt.Sprintf("%s (near %q and %q)", d, la.ctx(), lb.ctx())
		}
	}
}
