package pdf

import (
	"fmt"
	"unicode/utf16"
)

// CMap is a decoded ToUnicode map.
type CMap struct {
	Lo, Hi int
	M      map[int]string
	All    map[int][]string
}

func utf16BE(b []byte) (string, error) {
	if len(b)%2 != 0 {
		return "", fmt.Errorf("odd UTF-16 length %x", b)
	}
	var u []uint16
	for i := 0; i+1 < len(b); i += 2 {
		u = append(u, uint16(b[i])<<8|uint16(b[i+1]))
	}
	// reject unpaired surrogates
	for i := 0; i < len(u); i++ {
		switch {
		case u[i] >= 0xD800 && u[i] < 0xDC00:
			if i+1 >= len(u) || u[i+1] < 0xDC00 || u[i+1] > 0xDFFF {
				return "", fmt.Errorf("unpaired surrogate in %x", b)
			}
			i++
		case u[i] >= 0xDC00 && u[i] <= 0xDFFF:
			return "", fmt.Errorf("unpaired surrogate in %x", b)
		}
	}
	return string(utf16.Decode(u)), nil
}

// TextString decodes a PDF text string (UTF-16BE with a byte-order mark, or
// PDFDocEncoding restricted to ASCII).
func TextString(s Str) (string, error) {
	if len(s) >= 2 && s[0] == 0xFE && s[1] == 0xFF {
		return utf16BE(s[2:])
	}
	for _, c := range s {
		if c >= 0x80 {
			return "", fmt.Errorf("non-ASCII PDFDocEncoding %q", []byte(s))
		}
	}
	return string(s), nil
}

// ParseCMap reads the bfchar/bfrange sections of a ToUnicode CMap.
func ParseCMap(b []byte) (cm *CMap, err error) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(parseError); ok {
				err = pe
				return
			}
			panic(r)
		}
	}()
	cm = &CMap{M: map[int]string{}, All: map[int][]string{}, Lo: -1, Hi: -1}
	l := NewContentLexer(b)
	var stack []any
	code := func(o any) int {
		s, ok := o.(Str)
		if !ok || len(s) != 2 {
			fail("bad code %v", o)
		}
		return int(s[0])<<8 | int(s[1])
	}
	set := func(c int, o any, add int) {
		s, ok := o.(Str)
		if !ok {
			fail("bad destination %v", o)
		}
		t := append([]byte(nil), s...)
		if add > 0 {
			t[len(t)-1] += byte(add)
		}
		u, err := utf16BE(t)
		if err != nil {
			fail("code %04X: %v", c, err)
		}
		if _, dup := cm.M[c]; !dup {
			cm.M[c] = u
		}
		cm.All[c] = append(cm.All[c], u)
	}
	began := false
	for {
		o, ok := l.Next()
		if !ok {
			break
		}
		op, isOp := o.(Op)
		if !isOp {
			stack = append(stack, o)
			continue
		}
		take := func(n int) []any {
			if len(stack)%n != 0 {
				fail("%s: %d operands", op, len(stack))
			}
			s := stack
			stack = nil
			return s
		}
		count := 0
		switch op {
		case "begincmap":
			began = true
			stack = nil
		case "begincodespacerange", "beginbfchar", "beginbfrange":
			if len(stack) < 1 {
				fail("%s without count", op)
			}
			n, ok := stack[len(stack)-1].(Int)
			if !ok {
				fail("%s without count", op)
			}
			count = int(n)
			stack = nil
			// read until the matching end
			for {
				o, ok := l.Next()
				if !ok {
					fail("unterminated %s", op)
				}
				if e, isOp := o.(Op); isOp {
					if string(e) != "end"+string(op)[5:] {
						fail("%s ended by %s", op, e)
					}
					break
				}
				stack = append(stack, o)
			}
			switch op {
			case "begincodespacerange":
				s := take(2)
				if len(s) != 2*count {
					fail("%s: %d declared, %d given", op, count, len(s)/2)
				}
				for i := 0; i < len(s); i += 2 {
					cm.Lo, cm.Hi = code(s[i]), code(s[i+1])
				}
			case "beginbfchar":
				s := take(2)
				if len(s) != 2*count {
					fail("%s: %d declared, %d given", op, count, len(s)/2)
				}
				for i := 0; i < len(s); i += 2 {
					set(code(s[i]), s[i+1], 0)
				}
			case "beginbfrange":
				s := take(3)
				if len(s) != 3*count {
					fail("%s: %d declared, %d given", op, count, len(s)/3)
				}
				for i := 0; i < len(s); i += 3 {
					lo, hi := code(s[i]), code(s[i+1])
					if hi < lo {
						fail("%s: range %x-%x", op, lo, hi)
					}
					if a, ok := s[i+2].(Arr); ok {
						for k := lo; k <= hi && k-lo < len(a); k++ {
							set(k, a[k-lo], 0)
						}
						continue
					}
					for k := lo; k <= hi; k++ {
						set(k, s[i+2], k-lo)
					}
				}
			}
		default:
			if op == "endcmap" && !began {
				fail("endcmap without begincmap")
			}
			stack = nil
		}
	}
	if !began {
		return nil, fmt.Errorf("no begincmap")
	}
	return cm, nil
}
