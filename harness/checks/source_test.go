package checks

import (
	"bytes"
	"fmt"
	"sync"
)

// srcPDF assembles a PDF file from object bodies (object i+1) with the
// catalog as object 1.
func srcPDF(objs []string) []byte {
	var b bytes.Buffer
	b.WriteString("%PDF-1.4\n%\xe2\xe3\xcf\xd3\n")
	offs := make([]int, len(objs))
	for i, o := range objs {
		offs[i] = b.Len()
		fmt.Fprintf(&b, "%d 0 obj\n%s\nendobj\n", i+1, o)
	}
	x := b.Len()
	fmt.Fprintf(&b, "xref\n0 %d\n0000000000 65535 f \n", len(objs)+1)
	for _, o := range offs {
		fmt.Fprintf(&b, "%010d 00000 n \n", o)
	}
	fmt.Fprintf(&b, "trailer\n<< /Size %d /Root 1 0 R >>\nstartxref\n%d\n%%%%EOF\n", len(objs)+1, x)
	return b.Bytes()
}

func stm(dict, data string) string {
	return fmt.Sprintf("<< %s /Length %d >>\nstream\n%s\nendstream", dict, len(data), data)
}

type source struct {
	data  []byte
	pages int
}

var stdSources = sync.OnceValue(func() []source {
	font := "<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica /Encoding /WinAnsiEncoding >>"
	one := srcPDF([]string{
		"<< /Type /Catalog /Pages 2 0 R >>",
		"<< /Type /Pages /Kids [3 0 R] /Count 1 >>",
		"<< /Type /Page /Parent 2 0 R /MediaBox [0 0 200 300] /Contents 4 0 R /Resources << /Font << /F1 5 0 R >> /ProcSet [/PDF /Text] >> >>",
		stm("", "BT /F1 12 Tf 20 100 Td (one page \\(source\\)) Tj ET 10 10 50 60 re f"),
		font,
	})
	two := srcPDF([]string{
		"<< /Type /Catalog /Pages 2 0 R >>",
		"<< /Type /Pages /Kids [3 0 R 6 0 R] /Count 2 >>",
		"<< /Type /Page /Parent 2 0 R /MediaBox [0 0 150 100] /Contents 4 0 R /Resources << /Font << /F1 5 0 R >> /XObject << /Im1 8 0 R >> >> >>",
		stm("", "q 40 0 0 30 5 5 cm /Im1 Do Q BT /F1 9 Tf 10 50 Td (first) Tj ET"),
		font,
		"<< /Type /Page /Parent 2 0 R /MediaBox [0 0 150 100] /Contents 7 0 R /Resources << /Font << /F1 5 0 R >> /ExtGState << /G1 9 0 R >> >> >>",
		stm("", "/G1 gs 0.5 g 1 2 30 40 re B BT /F1 9 Tf 10 50 Td (second) Tj ET"),
		stm("/Type /XObject /Subtype /Image /Width 2 /Height 2 /BitsPerComponent 8 /ColorSpace /DeviceGray", "\x01\x80\xff\x40"),
		"<< /Type /ExtGState /ca 0.5 /BM /Multiply >>",
	})
	return []source{{one, 1}, {two, 2}}
})
