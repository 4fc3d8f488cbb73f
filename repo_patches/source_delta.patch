From 47e67bf797622215b78cb032d159ff35dd65e5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 01/52] fix: report errors of the destination and of object
 writers when writing the document

---
 gopdf.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 44c4435..ba21c68 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1057,18 +1057,26 @@ func (gp *GoPdf) compilePdf(w io.Writer) (n int64, err error) {
 		linelens[i] = writer.offset
 		pdfObj := gp.pdfObjs[i]
 		fmt.Fprintf(writer, "%d 0 obj\n", objID)
-		pdfObj.write(writer, objID)
+		if err := pdfObj.write(writer, objID); err != nil {
+			return writer.offset, err
+		}
 		io.WriteString(writer, "endobj\n\n")
+		if writer.err != nil {
+			return writer.offset, writer.err
+		}
 		i++
 	}
-	gp.xref(writer, writer.offset, linelens, i)
-	return writer.offset, nil
+	if err := gp.xref(writer, writer.offset, linelens, i); err != nil {
+		return writer.offset, err
+	}
+	return writer.offset, writer.err
 }
 
 type (
 	countingWriter struct {
 		offset int64
 		writer io.Writer
+		err    error // first error of the writer, nothing is written after it
 	}
 )
 
@@ -1077,8 +1085,15 @@ func newCountingWriter(w io.Writer) *countingWriter {
 }
 
 func (cw *countingWriter) Write(b []byte) (int, error) {
+	if cw.err != nil {
+		return 0, cw.err
+	}
 	n, err := cw.writer.Write(b)
 	cw.offset += int64(n)
+	if err == nil && n < len(b) {
+		err = io.ErrShortWrite
+	}
+	cw.err = err
 	return n, err
 }
 
-- 
2.43.0


From 42e8266d508b00d64fc7faa9ec4eb34c237601a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 02/52] fix: writing a document twice gives the same document
 twice

---
 cache_content_imported_object.go |  3 +--
 gopdf.go                         | 21 ++++++++++++---------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/cache_content_imported_object.go b/cache_content_imported_object.go
index a7dca9a..6c90260 100644
--- a/cache_content_imported_object.go
+++ b/cache_content_imported_object.go
@@ -15,7 +15,6 @@ type cacheContentImportedTemplate struct {
 }
 
 func (c *cacheContentImportedTemplate) write(w io.Writer, protection *PDFProtection) error {
-	c.tY += c.pageHeight
-	fmt.Fprintf(w, "q 0 J 1 w 0 j 0 G 0 g q %.4F 0 0 %.4F %.4F %.4F cm %s Do Q Q\n", c.scaleX, c.scaleY, c.tX, c.tY, c.tplName)
+	fmt.Fprintf(w, "q 0 J 1 w 0 j 0 G 0 g q %.4F 0 0 %.4F %.4F %.4F cm %s Do Q Q\n", c.scaleX, c.scaleY, c.tX, c.tY+c.pageHeight, c.tplName)
 	return nil
 }
diff --git a/gopdf.go b/gopdf.go
index ba21c68..dcfe43c 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1046,7 +1046,14 @@ func (gp *GoPdf) compilePdf(w io.Writer) (n int64, err error) {
 	if err != nil {
 		return 0, err
 	}
-	max := len(gp.pdfObjs)
+	pdfObjs := gp.pdfObjs
+	if gp.isUseProtection() {
+		// always the last object, it is not kept in gp.pdfObjs so that
+		// the document can be changed and written again
+		pdfObjs = append(pdfObjs[:len(pdfObjs):len(pdfObjs)], gp.pdfProtection.encryptionObj())
+		gp.encryptionObjID = len(pdfObjs)
+	}
+	max := len(pdfObjs)
 	writer := newCountingWriter(w)
 	fmt.Fprint(writer, "%PDF-1.7\n%\xe2\xe3\xcf\xd3\n\n")
 	linelens := make([]int64, max)
@@ -1055,7 +1062,7 @@ func (gp *GoPdf) compilePdf(w io.Writer) (n int64, err error) {
 	for i < max {
 		objID := i + 1
 		linelens[i] = writer.offset
-		pdfObj := gp.pdfObjs[i]
+		pdfObj := pdfObjs[i]
 		fmt.Fprintf(writer, "%d 0 obj\n", objID)
 		if err := pdfObj.write(writer, objID); err != nil {
 			return writer.offset, err
@@ -2250,11 +2257,6 @@ func (gp *GoPdf) protection() *PDFProtection {
 
 func (gp *GoPdf) prepare() {
 
-	if gp.isUseProtection() {
-		encObj := gp.pdfProtection.encryptionObj()
-		gp.addObj(encObj)
-	}
-
 	if gp.outlines.Count() > 0 {
 		catalogObj := gp.pdfObjs[gp.indexOfCatalogObj].(*CatalogObj)
 		catalogObj.SetIndexObjOutlines(gp.indexOfOutlinesObj)
@@ -2263,6 +2265,8 @@ func (gp *GoPdf) prepare() {
 	if gp.indexOfPagesObj != -1 {
 		indexCurrPage := -1
 		pagesObj := gp.pdfObjs[gp.indexOfPagesObj].(*PagesObj)
+		pagesObj.Kids = ""
+		pagesObj.PageCount = 0
 		i := 0 //gp.indexOfFirstPageObj
 		max := len(gp.pdfObjs)
 		for i < max {
@@ -2271,6 +2275,7 @@ func (gp *GoPdf) prepare() {
 			case "Page":
 				pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)
 				pagesObj.PageCount++
+				gp.pdfObjs[i].(*PageObj).Contents = ""
 				indexCurrPage = i
 			case "Content":
 				if indexCurrPage != -1 {
@@ -2291,8 +2296,6 @@ func (gp *GoPdf) prepare() {
 					}
 					j++
 				}
-			case "Encryption":
-				gp.encryptionObjID = i + 1
 			}
 			i++
 		}
-- 
2.43.0


From ba5d108d6ba0fd98843d5e555a2de53c66b5c7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 03/52] fix: list imported templates in a fixed order

---
 procset_obj.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/procset_obj.go b/procset_obj.go
index 77da7ac..fe22751 100644
--- a/procset_obj.go
+++ b/procset_obj.go
@@ -3,6 +3,7 @@ package gopdf
 import (
 	"fmt"
 	"io"
+	"sort"
 )
 
 // ProcSetObj is a PDF procSet object.
@@ -47,8 +48,13 @@ func (pr *ProcSetObj) write(w io.Writer, objID int) error {
 		xobjects += fmt.Sprintf("\t\t/I%d %d 0 R\n", XObject.IndexOfObj+1, XObject.IndexOfObj+1)
 	}
 	// Write imported template name and their ids
-	for tplName, objID := range pr.ImportedTemplateIds {
-		xobjects += fmt.Sprintf("\t\t%s %d 0 R\n", tplName, objID)
+	tplNames := make([]string, 0, len(pr.ImportedTemplateIds))
+	for tplName := range pr.ImportedTemplateIds {
+		tplNames = append(tplNames, tplName)
+	}
+	sort.Strings(tplNames)
+	for _, tplName := range tplNames {
+		xobjects += fmt.Sprintf("\t\t%s %d 0 R\n", tplName, pr.ImportedTemplateIds[tplName])
 	}
 	xobjects += "\t>>\n"
 
-- 
2.43.0


From b73bb7d9f40e3999132e93cc2a376cf6a0674c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 04/52] fix: write characters outside the basic multilingual
 plane as UTF-16 and a valid code space range

---
 gopdf.go       |  9 +++------
 unicode_map.go | 12 ++----------
 2 files changed, 5 insertions(+), 16 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index dcfe43c..7221965 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -16,6 +16,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf16"
 
 	"github.com/phpdave11/gofpdi"
 )
@@ -2395,12 +2396,8 @@ func (gp *GoPdf) getContent() *ContentObj {
 
 func encodeUtf8(str string) string {
 	var buff bytes.Buffer
-	for _, r := range str {
-		c := fmt.Sprintf("%X", r)
-		for len(c) < 4 {
-			c = "0" + c
-		}
-		buff.WriteString(c)
+	for _, c := range utf16.Encode([]rune(str)) {
+		fmt.Fprintf(&buff, "%04X", c)
 	}
 	return buff.String()
 }
diff --git a/unicode_map.go b/unicode_map.go
index 5094482..7f621e8 100644
--- a/unicode_map.go
+++ b/unicode_map.go
@@ -45,19 +45,11 @@ func (u *UnicodeMap) write(w io.Writer, objID int) error {
 	suffix := "endcmap CMapName currentdict /CMap defineresource pop end end"
 
 	glyphIndexToCharacter := newMapGlyphIndexToCharacter() //make(map[int]rune)
-	lowIndex := 65536
-	hiIndex := -1
 
 	keys := u.PtrToSubsetFontObj.CharacterToGlyphIndex.AllKeys()
 	for _, k := range keys {
 		v, _ := u.PtrToSubsetFontObj.CharacterToGlyphIndex.Val(k)
 		index := int(v)
-		if index < lowIndex {
-			lowIndex = index
-		}
-		if index > hiIndex {
-			hiIndex = index
-		}
 		//glyphIndexToCharacter[index] = k
 		glyphIndexToCharacter.set(index, k)
 	}
@@ -67,13 +59,13 @@ func (u *UnicodeMap) write(w io.Writer, objID int) error {
 
 	buff.WriteString(prefix)
 	buff.WriteString("1 begincodespacerange\n")
-	fmt.Fprintf(buff, "<%04X><%04X>\n", lowIndex, hiIndex)
+	buff.WriteString("<0000><FFFF>\n") //two byte codes, as in Identity-H
 	buff.WriteString("endcodespacerange\n")
 	fmt.Fprintf(buff, "%d beginbfrange\n", glyphIndexToCharacter.size())
 	indexs := glyphIndexToCharacter.allIndexs()
 	for _, k := range indexs {
 		v, _ := glyphIndexToCharacter.runeByIndex(k)
-		fmt.Fprintf(buff, "<%04X><%04X><%04X>\n", k, k, v)
+		fmt.Fprintf(buff, "<%04X><%04X><%s>\n", k, k, encodeUtf8(string(v)))
 	}
 	buff.WriteString("endbfrange\n")
 	buff.WriteString(suffix)
-- 
2.43.0


From 6e44d151e3e30a9629c96b9aab4b79277ca9c837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 05/52] fix: write the document information as an indirect
 object, encrypted in protected documents, and with the minutes of the time
 zone

---
 gopdf.go        | 53 ++++++++++-------------------------
 pdf_info_obj.go | 73 ++++++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 87 insertions(+), 39 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 7221965..3def889 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -90,6 +90,7 @@ type GoPdf struct {
 	//info
 	isUseInfo bool
 	info      *PdfInfo
+	infoObjID int
 
 	//outlines
 	outlines           *OutlinesObj
@@ -1047,11 +1048,16 @@ func (gp *GoPdf) compilePdf(w io.Writer) (n int64, err error) {
 	if err != nil {
 		return 0, err
 	}
-	pdfObjs := gp.pdfObjs
+	// the info and the encryption dictionary are always the last objects, they
+	// are not kept in gp.pdfObjs so that the document can be changed and
+	// written again
+	pdfObjs := gp.pdfObjs[:len(gp.pdfObjs):len(gp.pdfObjs)]
+	if gp.isUseInfo {
+		pdfObjs = append(pdfObjs, &infoObj{info: *gp.info, protection: gp.protection()})
+		gp.infoObjID = len(pdfObjs)
+	}
 	if gp.isUseProtection() {
-		// always the last object, it is not kept in gp.pdfObjs so that
-		// the document can be changed and written again
-		pdfObjs = append(pdfObjs[:len(pdfObjs):len(pdfObjs)], gp.pdfProtection.encryptionObj())
+		pdfObjs = append(pdfObjs, gp.pdfProtection.encryptionObj())
 		gp.encryptionObjID = len(pdfObjs)
 	}
 	max := len(pdfObjs)
@@ -1985,6 +1991,9 @@ func (gp *GoPdf) SetInfo(info PdfInfo) {
 
 // GetInfo get Document Information Dictionary
 func (gp *GoPdf) GetInfo() PdfInfo {
+	if gp.info == nil {
+		return PdfInfo{}
+	}
 	return *gp.info
 }
 
@@ -2324,7 +2333,7 @@ func (gp *GoPdf) xref(w io.Writer, xrefbyteoffset int64, linelens []int64, i int
 		io.WriteString(w, "/ID [()()]\n")
 	}
 	if gp.isUseInfo {
-		gp.writeInfo(w)
+		fmt.Fprintf(w, "/Info %d 0 R\n", gp.infoObjID)
 	}
 	io.WriteString(w, ">>\n")
 	io.WriteString(w, "startxref\n")
@@ -2334,37 +2343,6 @@ func (gp *GoPdf) xref(w io.Writer, xrefbyteoffset int64, linelens []int64, i int
 	return nil
 }
 
-func (gp *GoPdf) writeInfo(w io.Writer) {
-	var zerotime time.Time
-	io.WriteString(w, "/Info <<\n")
-
-	if gp.info.Author != "" {
-		fmt.Fprintf(w, "/Author <FEFF%s>\n", encodeUtf8(gp.info.Author))
-	}
-
-	if gp.info.Title != "" {
-		fmt.Fprintf(w, "/Title <FEFF%s>\n", encodeUtf8(gp.info.Title))
-	}
-
-	if gp.info.Subject != "" {
-		fmt.Fprintf(w, "/Subject <FEFF%s>\n", encodeUtf8(gp.info.Subject))
-	}
-
-	if gp.info.Creator != "" {
-		fmt.Fprintf(w, "/Creator <FEFF%s>\n", encodeUtf8(gp.info.Creator))
-	}
-
-	if gp.info.Producer != "" {
-		fmt.Fprintf(w, "/Producer <FEFF%s>\n", encodeUtf8(gp.info.Producer))
-	}
-
-	if !zerotime.Equal(gp.info.CreationDate) {
-		fmt.Fprintf(w, "/CreationDate(D:%s)\n", infodate(gp.info.CreationDate))
-	}
-
-	io.WriteString(w, " >>\n")
-}
-
 // ปรับ xref ให้เป็น 10 หลัก
 func (gp *GoPdf) formatXrefline(n int64) string {
 	str := strconv.FormatInt(n, 10)
@@ -2403,8 +2381,7 @@ func encodeUtf8(str string) string {
 }
 
 func infodate(t time.Time) string {
-	ft := t.Format("20060102150405-07'00'")
-	return ft
+	return t.Format("20060102150405-07'") + t.Format("-0700")[3:] + "'"
 }
 
 // SetTransparency sets transparency.
diff --git a/pdf_info_obj.go b/pdf_info_obj.go
index 2b2c6c4..e70ce8d 100644
--- a/pdf_info_obj.go
+++ b/pdf_info_obj.go
@@ -1,6 +1,11 @@
 package gopdf
 
-import "time"
+import (
+	"encoding/hex"
+	"fmt"
+	"io"
+	"time"
+)
 
 // PdfInfo Document Information Dictionary
 type PdfInfo struct {
@@ -11,3 +16,69 @@ type PdfInfo struct {
 	Producer     string    // If the document was converted to PDF from another format, the name of the application that converted the original document to PDF
 	CreationDate time.Time // The date and time the document was created, in human-readable form
 }
+
+// infoObj writes the document information dictionary
+type infoObj struct { //impl IObj
+	info       PdfInfo
+	protection *PDFProtection
+}
+
+func (o *infoObj) init(func() *GoPdf) {
+}
+
+func (o *infoObj) getType() string {
+	return "Info"
+}
+
+func (o *infoObj) write(w io.Writer, objID int) error {
+	io.WriteString(w, "<<\n")
+	for _, entry := range []struct{ key, text string }{
+		{"Author", o.info.Author},
+		{"Title", o.info.Title},
+		{"Subject", o.info.Subject},
+		{"Creator", o.info.Creator},
+		{"Producer", o.info.Producer},
+	} {
+		if entry.text == "" {
+			continue
+		}
+		str, err := encodeTextString(entry.text, o.protection, objID)
+		if err != nil {
+			return err
+		}
+		fmt.Fprintf(w, "/%s %s\n", entry.key, str)
+	}
+	if !o.info.CreationDate.Equal(time.Time{}) {
+		str, err := encodeString("D:"+infodate(o.info.CreationDate), o.protection, objID)
+		if err != nil {
+			return err
+		}
+		fmt.Fprintf(w, "/CreationDate %s\n", str)
+	}
+	_, err := io.WriteString(w, ">>\n")
+	return err
+}
+
+// encodeTextString writes text as a PDF text string (UTF-16), encrypted for
+// the object objID when the document is protected
+func encodeTextString(text string, protection *PDFProtection, objID int) (string, error) {
+	raw, err := hex.DecodeString("FEFF" + encodeUtf8(text))
+	if err != nil {
+		return "", err
+	}
+	return encodeString(string(raw), protection, objID)
+}
+
+// encodeString writes the bytes of str as a PDF hexadecimal string, encrypted
+// for the object objID when the document is protected
+func encodeString(str string, protection *PDFProtection, objID int) (string, error) {
+	raw := []byte(str)
+	if protection != nil {
+		var err error
+		raw, err = rc4Cip(protection.objectkey(objID), raw)
+		if err != nil {
+			return "", err
+		}
+	}
+	return fmt.Sprintf("<%X>", raw), nil
+}
-- 
2.43.0


From 90d24848732c7f67e206b4c9e7f48e94132fc3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 06/52] fix: encrypt the mask groups and CID font strings of
 protected documents

---
 cid_font_obj.go               | 16 ++++++++++++++--
 gopdf.go                      |  1 +
 transparency_xobject_group.go | 13 +++++++++++--
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/cid_font_obj.go b/cid_font_obj.go
index da8db9b..a5cc6ca 100644
--- a/cid_font_obj.go
+++ b/cid_font_obj.go
@@ -10,9 +10,11 @@ import (
 type CIDFontObj struct {
 	PtrToSubsetFontObj        *SubsetFontObj
 	indexObjSubfontDescriptor int
+	getRoot                   func() *GoPdf
 }
 
 func (ci *CIDFontObj) init(funcGetRoot func() *GoPdf) {
+	ci.getRoot = funcGetRoot
 }
 
 // SetIndexObjSubfontDescriptor set  indexObjSubfontDescriptor
@@ -25,12 +27,22 @@ func (ci *CIDFontObj) getType() string {
 }
 
 func (ci *CIDFontObj) write(w io.Writer, objID int) error {
+	ordering, registry := "(Identity)", "(Adobe)"
+	if ci.getRoot != nil && ci.getRoot().protection() != nil {
+		var err error
+		if ordering, err = encodeString("Identity", ci.getRoot().protection(), objID); err != nil {
+			return err
+		}
+		if registry, err = encodeString("Adobe", ci.getRoot().protection(), objID); err != nil {
+			return err
+		}
+	}
 	io.WriteString(w, "<<\n")
 	fmt.Fprintf(w, "/BaseFont /%s\n", CreateEmbeddedFontSubsetName(ci.PtrToSubsetFontObj.GetFamily()))
 	io.WriteString(w, "/CIDSystemInfo\n")
 	io.WriteString(w, "<<\n")
-	io.WriteString(w, "  /Ordering (Identity)\n")
-	io.WriteString(w, "  /Registry (Adobe)\n")
+	fmt.Fprintf(w, "  /Ordering %s\n", ordering)
+	fmt.Fprintf(w, "  /Registry %s\n", registry)
 	io.WriteString(w, "  /Supplement 0\n")
 	io.WriteString(w, ">>\n")
 	fmt.Fprintf(w, "/FontDescriptor %d 0 R\n", ci.indexObjSubfontDescriptor+1) //TODO fix
diff --git a/gopdf.go b/gopdf.go
index 3def889..ca73095 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -624,6 +624,7 @@ func (gp *GoPdf) createTransparencyXObjectGroup(image *cacheContentImage, opts M
 	}
 
 	groupOpts := TransparencyXObjectGroupOptions{
+		Protection:       gp.protection(),
 		BBox:             *bbox,
 		ExtGStateIndexes: opts.extGStateIndexes,
 		XObjects:         []cacheContentImage{*image},
diff --git a/transparency_xobject_group.go b/transparency_xobject_group.go
index e58b1cc..c804bc1 100644
--- a/transparency_xobject_group.go
+++ b/transparency_xobject_group.go
@@ -64,6 +64,15 @@ func (s TransparencyXObjectGroup) write(w io.Writer, objId int) error {
 		}
 	}
 
+	data := streamBuff.Bytes()
+	if s.protection() != nil {
+		tmp, err := rc4Cip(s.protection().objectkey(objId), data)
+		if err != nil {
+			return err
+		}
+		data = append(tmp, '\n')
+	}
+
 	content := "<<\n"
 	content += "\t/FormType 1\n"
 	content += "\t/Subtype /Form\n"
@@ -72,7 +81,7 @@ func (s TransparencyXObjectGroup) write(w io.Writer, objId int) error {
 	content += fmt.Sprintf("\t/BBox [%.3F %.3F %.3F %.3F]\n", s.BBox[0], s.BBox[1], s.BBox[2], s.BBox[3])
 	content += "\t/Group<</CS /DeviceGray /S /Transparency>>\n"
 
-	content += fmt.Sprintf("\t/Length %d\n", len(streamBuff.Bytes()))
+	content += fmt.Sprintf("\t/Length %d\n", streamBuff.Len())
 	content += ">>\n"
 	content += "stream\n"
 
@@ -80,7 +89,7 @@ func (s TransparencyXObjectGroup) write(w io.Writer, objId int) error {
 		return err
 	}
 
-	if _, err := w.Write(streamBuff.Bytes()); err != nil {
+	if _, err := w.Write(data); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 8a476092f191ab75b40c1a9593c4f6d0dbefb921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 07/52] fix: apply the transparency of the document to every
 drawing call and keep the caller's transparency unchanged

---
 cache_content_oval.go   |  7 +++++++
 cache_contnent_curve.go |  7 +++++++
 content_obj.go          | 12 ++++++++++--
 gopdf.go                | 34 ++++++++++++++++++++++++++++++----
 4 files changed, 54 insertions(+), 6 deletions(-)

diff --git a/cache_content_oval.go b/cache_content_oval.go
index f3b2df9..7a24efe 100644
--- a/cache_content_oval.go
+++ b/cache_content_oval.go
@@ -11,6 +11,8 @@ type cacheContentOval struct {
 	y1         float64
 	x2         float64
 	y2         float64
+
+	extGStateIndexes []int
 }
 
 func (c *cacheContentOval) write(w io.Writer, protection *PDFProtection) error {
@@ -27,6 +29,10 @@ func (c *cacheContentOval) write(w io.Writer, protection *PDFProtection) error {
 	v3 := [2]float64{x1 + (x2-x1)/2, h - y1}   // .. Upper
 	v4 := [2]float64{x1, h - (y1 + (y2-y1)/2)} // .. Left
 
+	fmt.Fprintf(w, "q\n")
+	for _, extGStateIndex := range c.extGStateIndexes {
+		fmt.Fprintf(w, "/GS%d gs\n", extGStateIndex)
+	}
 	fmt.Fprintf(w, "%0.2f %0.2f m\n", v1[0], v1[1])
 	fmt.Fprintf(w,
 		"%0.2f %0.2f %0.2f %0.2f %0.2f %0.2f c\n",
@@ -44,6 +50,7 @@ func (c *cacheContentOval) write(w io.Writer, protection *PDFProtection) error {
 		"%0.2f %0.2f %0.2f %0.2f %0.2f %0.2f c S\n",
 		v4[0], v4[1]-(y2-y1)/2*cp, v1[0]-(x2-x1)/2*cp, v1[1], v1[0], v1[1],
 	)
+	fmt.Fprintf(w, "Q\n")
 
 	return nil
 }
diff --git a/cache_contnent_curve.go b/cache_contnent_curve.go
index e60a503..1bd2901 100644
--- a/cache_contnent_curve.go
+++ b/cache_contnent_curve.go
@@ -16,6 +16,8 @@ type cacheContentCurve struct {
 	x3         float64
 	y3         float64
 	style      string
+
+	extGStateIndexes []int
 }
 
 func (c *cacheContentCurve) write(w io.Writer, protection *PDFProtection) error {
@@ -32,6 +34,10 @@ func (c *cacheContentCurve) write(w io.Writer, protection *PDFProtection) error
 	style := c.style
 
 	//cp := 0.55228
+	fmt.Fprintf(w, "q\n")
+	for _, extGStateIndex := range c.extGStateIndexes {
+		fmt.Fprintf(w, "/GS%d gs\n", extGStateIndex)
+	}
 	fmt.Fprintf(w, "%0.2f %0.2f m\n", x0, h-y0)
 	fmt.Fprintf(w,
 		"%0.2f %0.2f %0.2f %0.2f %0.2f %0.2f c",
@@ -44,5 +50,6 @@ func (c *cacheContentCurve) write(w io.Writer, protection *PDFProtection) error
 		op = "B"
 	}
 	fmt.Fprintf(w, " %s\n", op)
+	fmt.Fprintf(w, "Q\n")
 	return nil
 }
diff --git a/content_obj.go b/content_obj.go
index 6dad489..dc9a27f 100644
--- a/content_obj.go
+++ b/content_obj.go
@@ -113,7 +113,10 @@ func (c *ContentObj) appendStreamPlaceHolderText(placeHolderWidth float64) error
 	setXCount := c.getRoot().curr.setXCount
 	fontSubset := c.getRoot().curr.FontISubset
 
-	cellOption := CellOption{Transparency: c.getRoot().curr.transparency}
+	cellOption := CellOption{
+		Transparency:     c.getRoot().curr.transparency,
+		extGStateIndexes: c.getRoot().currExtGStateIndexes(),
+	}
 
 	cache := cacheContentText{
 		fontSubset:     fontSubset,
@@ -161,7 +164,10 @@ func (c *ContentObj) AppendStreamText(text string) error {
 	setXCount := c.getRoot().curr.setXCount
 	fontSubset := c.getRoot().curr.FontISubset
 
-	cellOption := CellOption{Transparency: c.getRoot().curr.transparency}
+	cellOption := CellOption{
+		Transparency:     c.getRoot().curr.transparency,
+		extGStateIndexes: c.getRoot().currExtGStateIndexes(),
+	}
 
 	cache := cacheContentText{
 		fontSubset:     fontSubset,
@@ -270,6 +276,7 @@ func (c *ContentObj) AppendStreamOval(x1 float64, y1 float64, x2 float64, y2 flo
 	cache.y1 = y1
 	cache.x2 = x2
 	cache.y2 = y2
+	cache.extGStateIndexes = c.getRoot().currExtGStateIndexes()
 	c.listCache.append(&cache)
 }
 
@@ -294,6 +301,7 @@ func (c *ContentObj) AppendStreamCurve(x0 float64, y0 float64, x1 float64, y1 fl
 	cache.x3 = x3
 	cache.y3 = y3
 	cache.style = strings.ToUpper(strings.TrimSpace(style))
+	cache.extGStateIndexes = c.getRoot().currExtGStateIndexes()
 	c.listCache.append(&cache)
 }
 
diff --git a/gopdf.go b/gopdf.go
index ca73095..f70fcfc 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -245,6 +245,8 @@ func (gp *GoPdf) RectFromLowerLeft(x float64, y float64, wdth float64, hght floa
 		Y:          y,
 		PaintStyle: DrawPaintStyle,
 		Rect:       Rect{W: wdth, H: hght},
+
+		extGStateIndexes: gp.currExtGStateIndexes(),
 	}
 
 	gp.getContent().AppendStreamRectangle(opts)
@@ -259,6 +261,8 @@ func (gp *GoPdf) RectFromUpperLeft(x float64, y float64, wdth float64, hght floa
 		Y:          y + hght,
 		PaintStyle: DrawPaintStyle,
 		Rect:       Rect{W: wdth, H: hght},
+
+		extGStateIndexes: gp.currExtGStateIndexes(),
 	}
 
 	gp.getContent().AppendStreamRectangle(opts)
@@ -496,6 +500,8 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 		X:    x,
 		Y:    y,
 		Rect: rect,
+
+		extGStateIndexes: gp.currExtGStateIndexes(),
 	}
 
 	return gp.imageByHolder(img, imageOptions)
@@ -745,6 +751,8 @@ func (gp *GoPdf) Image(picPath string, x float64, y float64, rect *Rect) error {
 		X:    x,
 		Y:    y,
 		Rect: rect,
+
+		extGStateIndexes: gp.currExtGStateIndexes(),
 	}
 
 	return gp.imageByHolder(imgh, imageOptions)
@@ -794,6 +802,8 @@ func (gp *GoPdf) ImageFromWithOption(img image.Image, opts ImageFromOption) erro
 		X:    opts.X,
 		Y:    opts.Y,
 		Rect: opts.Rect,
+
+		extGStateIndexes: gp.currExtGStateIndexes(),
 	}
 
 	return gp.imageByHolder(imgh, imageOptions)
@@ -1178,6 +1188,8 @@ func (gp *GoPdf) Cell(rectangle *Rect, text string) error {
 		Align:  Left | Top,
 		Border: 0,
 		Float:  Right,
+
+		extGStateIndexes: gp.currExtGStateIndexes(),
 	}
 
 	text, err := gp.curr.FontISubset.AddChars(text)
@@ -2421,16 +2433,30 @@ func (gp *GoPdf) getCachedTransparency(transparency *Transparency) (*Transparenc
 	return transparency, nil
 }
 
-func (gp *GoPdf) saveTransparency(transparency *Transparency) (*Transparency, error) {
+// currExtGStateIndexes returns the graphics state of the transparency of the document, if it is set
+func (gp *GoPdf) currExtGStateIndexes() []int {
+	if gp.curr.transparency == nil {
+		return nil
+	}
+	return []int{gp.curr.transparency.extGStateIndex}
+}
+
+func (gp *GoPdf) saveTransparency(t *Transparency) (*Transparency, error) {
+	// do not keep anything of the caller, who can change it afterwards
+	transparency := &Transparency{Alpha: t.Alpha, BlendModeType: t.BlendModeType}
+	if transparency.BlendModeType == "" {
+		transparency.BlendModeType = NormalBlendMode
+	}
 	cached, ok := gp.curr.transparencyMap.Find(*transparency)
 	if ok {
 		return &cached, nil
-	} else if transparency.Alpha != DefaultAplhaValue {
+	} else if transparency.Alpha != DefaultAplhaValue || transparency.BlendModeType != NormalBlendMode {
 		bm := transparency.BlendModeType
+		alpha := transparency.Alpha
 		opts := ExtGStateOptions{
 			BlendMode:     &bm,
-			StrokingCA:    &transparency.Alpha,
-			NonStrokingCa: &transparency.Alpha,
+			StrokingCA:    &alpha,
+			NonStrokingCa: &alpha,
 		}
 
 		extGState, err := GetCachedExtGState(opts, gp)
-- 
2.43.0


From c4fbe855435cb1f2d1e49540fc63939e9122a86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 08/52] fix: join text calls only when the second continues the
 first

---
 cache_content_text.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/cache_content_text.go b/cache_content_text.go
index e6d01ff..9ef9946 100644
--- a/cache_content_text.go
+++ b/cache_content_text.go
@@ -45,14 +45,39 @@ type cacheContentText struct {
 }
 
 func (c *cacheContentText) isSame(cache cacheContentText) bool {
-	if c.rectangle != nil {
+	if c.contentType != ContentTypeText || cache.contentType != ContentTypeText {
+		//only plain text goes on in the same content, a cell has its own place
+		return false
+	}
+
+	if c.rectangle != nil || cache.rectangle != nil {
 		//if rectangle != nil we assume this is not same content
 		return false
 	}
 
+	if c.fontSubset != nil && c.fontSubset.ttfFontOption.UseKerning {
+		//the first character of the new text must not be kerned with the last one of this text
+		return false
+	}
+
+	if cache.x != c.x+c.cellWidthPdfUnit {
+		//the new text does not start where this text ends
+		return false
+	}
+
+	if len(c.cellOpt.extGStateIndexes) != len(cache.cellOpt.extGStateIndexes) {
+		return false
+	}
+	for i, index := range c.cellOpt.extGStateIndexes {
+		if index != cache.cellOpt.extGStateIndexes[i] {
+			return false
+		}
+	}
+
 	// if both colors are nil we assume them equal
 	if ((c.textColor == nil && cache.textColor == nil) ||
 		(c.textColor != nil && c.textColor.equal(cache.textColor))) &&
+		c.txtColorMode == cache.txtColorMode &&
 		c.grayFill == cache.grayFill &&
 		c.fontCountIndex == cache.fontCountIndex &&
 		c.fontSize == cache.fontSize &&
-- 
2.43.0


From 8be6c8a393512f39e6d688145253cd648272f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 09/52] fix: the color of a text does not fill the shapes drawn
 after it

---
 cache_content_text.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cache_content_text.go b/cache_content_text.go
index 9ef9946..afa9326 100644
--- a/cache_content_text.go
+++ b/cache_content_text.go
@@ -224,8 +224,9 @@ func (c *cacheContentText) write(w io.Writer, protection *PDFProtection) error {
 		return err
 	}
 
-	hasTransparency := len(c.cellOpt.extGStateIndexes) > 0
-	if hasTransparency {
+	//neither the transparency nor the color of the text may reach what is drawn next
+	mustRestore := len(c.cellOpt.extGStateIndexes) > 0 || c.txtColorMode == "color"
+	if mustRestore {
 		if _, err := io.WriteString(w, "q\n"); err != nil {
 			return err
 		}
@@ -309,7 +310,7 @@ func (c *cacheContentText) write(w io.Writer, protection *PDFProtection) error {
 
 	c.drawBorder(w)
 
-	if hasTransparency {
+	if mustRestore {
 		if _, err := io.WriteString(w, "Q\n"); err != nil {
 			return err
 		}
-- 
2.43.0


From e405a17d7ec3629c36f246d5050fa048dc915207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 10/52] fix: select pages by their number and draw with the
 size of the selected page

---
 gopdf.go    | 25 ++++++++++++++++---------
 page_obj.go |  2 ++
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index f70fcfc..57d4328 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2286,7 +2286,6 @@ func (gp *GoPdf) prepare() {
 	}
 
 	if gp.indexOfPagesObj != -1 {
-		indexCurrPage := -1
 		pagesObj := gp.pdfObjs[gp.indexOfPagesObj].(*PagesObj)
 		pagesObj.Kids = ""
 		pagesObj.PageCount = 0
@@ -2298,11 +2297,10 @@ func (gp *GoPdf) prepare() {
 			case "Page":
 				pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)
 				pagesObj.PageCount++
-				gp.pdfObjs[i].(*PageObj).Contents = ""
-				indexCurrPage = i
-			case "Content":
-				if indexCurrPage != -1 {
-					gp.pdfObjs[indexCurrPage].(*PageObj).Contents = fmt.Sprintf("%s %d 0 R ", gp.pdfObjs[indexCurrPage].(*PageObj).Contents, i+1)
+				page := gp.pdfObjs[i].(*PageObj)
+				page.Contents = ""
+				if page.indexOfContent != -1 {
+					page.Contents = fmt.Sprintf(" %d 0 R ", page.indexOfContent+1)
 				}
 			case "Font":
 				tmpfont := gp.pdfObjs[i].(*FontObj)
@@ -2379,6 +2377,9 @@ func (gp *GoPdf) getContent() *ContentObj {
 			return gp
 		})
 		gp.indexOfContent = gp.addObj(content)
+		if gp.curr.IndexOfPageObj != -1 {
+			gp.pdfObjs[gp.curr.IndexOfPageObj].(*PageObj).indexOfContent = gp.indexOfContent
+		}
 	} else {
 		content = gp.pdfObjs[gp.indexOfContent].(*ContentObj)
 	}
@@ -2500,11 +2501,17 @@ func (gp *GoPdf) IsCurrFontContainGlyph(r rune) (bool, error) {
 func (gp *GoPdf) SetPage(pageno int) error {
 	var pageIndex int
 	for i := 0; i < len(gp.pdfObjs); i++ {
-		switch gp.pdfObjs[i].(type) {
-		case *ContentObj:
+		switch page := gp.pdfObjs[i].(type) {
+		case *PageObj:
 			pageIndex += 1
 			if pageIndex == pageno {
-				gp.indexOfContent = i
+				gp.curr.IndexOfPageObj = i
+				gp.indexOfContent = page.indexOfContent
+				gp.curr.pageSize = &gp.config.PageSize
+				if !page.pageOption.isEmpty() {
+					gp.curr.pageSize = page.pageOption.PageSize
+				}
+				gp.curr.trimBox = page.pageOption.TrimBox
 				return nil
 			}
 		}
diff --git a/page_obj.go b/page_obj.go
index a8e6463..6d0d6bd 100644
--- a/page_obj.go
+++ b/page_obj.go
@@ -12,12 +12,14 @@ type PageObj struct { //impl IObj
 	ResourcesRelate string
 	pageOption      PageOption
 	LinkObjIds      []int
+	indexOfContent  int //-1 when nothing is drawn on the page yet
 	getRoot         func() *GoPdf
 }
 
 func (p *PageObj) init(funcGetRoot func() *GoPdf) {
 	p.getRoot = funcGetRoot
 	p.LinkObjIds = make([]int, 0)
+	p.indexOfContent = -1
 }
 
 func (p *PageObj) setOption(opt PageOption) {
-- 
2.43.0


From 924c6cf0c728f83412f6dee1e83dded314dd26eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 11/52] fix: write the trim box of the page or the default trim
 box of the document

---
 gopdf.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 57d4328..5da0ba1 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -817,8 +817,8 @@ func (gp *GoPdf) AddPage() {
 
 // AddPageWithOption  : add new page with option
 func (gp *GoPdf) AddPageWithOption(opt PageOption) {
-	opt.TrimBox = opt.TrimBox.UnitsToPoints(gp.config.Unit)
-	opt.PageSize = opt.PageSize.UnitsToPoints(gp.config.Unit)
+	opt.TrimBox = opt.TrimBox.unitsToPoints(gp.config)
+	opt.PageSize = opt.PageSize.unitsToPoints(gp.config)
 
 	page := new(PageObj)
 	page.init(func() *GoPdf {
@@ -826,16 +826,16 @@ func (gp *GoPdf) AddPageWithOption(opt PageOption) {
 	})
 
 	if !opt.isEmpty() { //use page option
-		page.setOption(opt)
 		gp.curr.pageSize = opt.PageSize
-
-		if opt.isTrimBoxSet() {
-			gp.curr.trimBox = opt.TrimBox
-		}
 	} else { //use default
 		gp.curr.pageSize = &gp.config.PageSize
-		gp.curr.trimBox = &gp.config.TrimBox
 	}
+	if !opt.isTrimBoxSet() { //use default
+		trimBox := gp.config.TrimBox
+		opt.TrimBox = &trimBox
+	}
+	gp.curr.trimBox = opt.TrimBox
+	page.setOption(opt)
 
 	page.ResourcesRelate = strconv.Itoa(gp.indexOfProcSet+1) + " 0 R"
 	index := gp.addObj(page)
-- 
2.43.0


From 56c8e5de396d9b4b25b8474a743be53ee364d467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 12/52] fix: links, anchors and outlines use the height of
 their page, and links without anchor are valid annotations

---
 annot_obj.go |  7 +++++--
 gopdf.go     | 16 ++++++++++++----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/annot_obj.go b/annot_obj.go
index dd10a7a..811632e 100644
--- a/annot_obj.go
+++ b/annot_obj.go
@@ -48,8 +48,11 @@ func (o annotObj) writeExternalLink(w io.Writer, l linkOption, objID int) error
 
 func (o annotObj) writeInternalLink(w io.Writer, l linkOption) error {
 	a, ok := o.GetRoot().anchors[l.anchor]
-	if !ok {
-		return nil
+	if !ok || a.page < 0 {
+		//the anchor was never set on a page, the link leads nowhere
+		_, err := fmt.Fprintf(w, "<</Type /Annot /Subtype /Link /Rect [%.2f %.2f %.2f %.2f] /Border [0 0 0]>>\n",
+			l.x, l.y, l.x+l.w, l.y-l.h)
+		return err
 	}
 	_, err := fmt.Fprintf(w, "<</Type /Annot /Subtype /Link /Rect [%.2f %.2f %.2f %.2f] /Border [0 0 0] /Dest [%d 0 R /XYZ 0 %.2f null]>>\n",
 		l.x, l.y, l.x+l.w, l.y-l.h, a.page+1, a.y)
diff --git a/gopdf.go b/gopdf.go
index 5da0ba1..f8197e2 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -867,7 +867,7 @@ func (gp *GoPdf) AddOutline(title string) {
 
 // AddOutlineWithPosition add an outline with position
 func (gp *GoPdf) AddOutlineWithPosition(title string) *OutlineObj {
-	return gp.outlines.AddOutlinesWithPosition(gp.curr.IndexOfPageObj+1, title, gp.config.PageSize.H-gp.curr.Y+20)
+	return gp.outlines.AddOutlinesWithPosition(gp.curr.IndexOfPageObj+1, title, gp.currPageHeight()-gp.curr.Y+20)
 }
 
 // AddHeader - add a header function, if present this will be automatically called by AddPage()
@@ -1748,7 +1748,7 @@ func (gp *GoPdf) ImportTemplates(tpls map[string]int) {
 func (gp *GoPdf) AddExternalLink(url string, x, y, w, h float64) {
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
 
-	linkOpt := linkOption{x, gp.config.PageSize.H - y, w, h, url, ""}
+	linkOpt := linkOption{x, gp.currPageHeight() - y, w, h, url, ""}
 	gp.addLink(linkOpt)
 }
 
@@ -1756,7 +1756,7 @@ func (gp *GoPdf) AddExternalLink(url string, x, y, w, h float64) {
 func (gp *GoPdf) AddInternalLink(anchor string, x, y, w, h float64) {
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
 
-	linkOpt := linkOption{x, gp.config.PageSize.H - y, w, h, "", anchor}
+	linkOpt := linkOption{x, gp.currPageHeight() - y, w, h, "", anchor}
 	gp.addLink(linkOpt)
 }
 
@@ -1770,7 +1770,7 @@ func (gp *GoPdf) addLink(option linkOption) {
 
 // SetAnchor creates a new anchor.
 func (gp *GoPdf) SetAnchor(name string) {
-	y := gp.config.PageSize.H - gp.curr.Y + float64(gp.curr.FontSize)
+	y := gp.currPageHeight() - gp.curr.Y + float64(gp.curr.FontSize)
 	gp.anchors[name] = anchorOption{gp.curr.IndexOfPageObj, y}
 }
 
@@ -2235,6 +2235,14 @@ func importerOrDefault(importer ...*gofpdi.Importer) *gofpdi.Importer {
 	return gofpdi.NewImporter()
 }
 
+// currPageHeight is the height of the current page in points
+func (gp *GoPdf) currPageHeight() float64 {
+	if gp.curr.pageSize == nil {
+		return gp.config.PageSize.H
+	}
+	return gp.curr.pageSize.H
+}
+
 func (gp *GoPdf) resetCurrXY() {
 	gp.curr.X = gp.margins.Left
 	gp.curr.Y = gp.margins.Top
-- 
2.43.0


From 743184317d8300b7e62e8caf8e574c804a4fcb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 13/52] fix: outlines have the right parents, siblings and root
 links, and encrypted titles in protected documents

---
 outlines_obj.go | 142 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 113 insertions(+), 29 deletions(-)

diff --git a/outlines_obj.go b/outlines_obj.go
index 13cae66..46ae3c5 100644
--- a/outlines_obj.go
+++ b/outlines_obj.go
@@ -9,11 +9,11 @@ import (
 type OutlinesObj struct { //impl IObj
 	getRoot func() *GoPdf
 
-	index   int
-	first   int
-	last    int
-	count   int
-	lastObj *OutlineObj
+	index int
+	first int
+	last  int
+	count int
+	tops  []*OutlineObj //outlines of the first level
 }
 
 func (o *OutlinesObj) init(funcGetRoot func() *GoPdf) {
@@ -53,32 +53,86 @@ func (o *OutlinesObj) SetIndexObjOutlines(index int) {
 }
 
 func (o *OutlinesObj) AddOutline(dest int, title string) {
-	oo := &OutlineObj{title: title, dest: dest, parent: o.index, prev: o.last, next: -1}
-	o.last = o.getRoot().addObj(oo) + 1
-	if o.first <= 0 {
-		o.first = o.last
-	}
-	if o.lastObj != nil {
-		o.lastObj.next = o.last
-	}
-	o.lastObj = oo
-	o.count++
+	o.add(&OutlineObj{title: title, dest: dest})
 }
 
 // AddOutlinesWithPosition add outlines with position
 func (o *OutlinesObj) AddOutlinesWithPosition(dest int, title string, y float64) *OutlineObj {
-	oo := &OutlineObj{title: title, dest: dest, parent: o.index, prev: o.last, next: -1, height: y}
-	o.last = o.getRoot().addObj(oo) + 1
-	if o.first <= 0 {
-		o.first = o.last
-	}
-	if o.lastObj != nil {
-		o.lastObj.next = o.last
+	oo := &OutlineObj{title: title, dest: dest, height: y}
+	o.add(oo)
+	return oo
+}
+
+func (o *OutlinesObj) add(oo *OutlineObj) {
+	oo.root = o
+	oo.index = o.getRoot().addObj(oo) + 1
+	oo.parent = o.index + 1
+	oo.prev = o.last
+	oo.next = -1
+	if len(o.tops) > 0 {
+		o.tops[len(o.tops)-1].next = oo.index
+	} else {
+		o.first = oo.index
 	}
-	o.lastObj = oo
+	o.last = oo.index
+	o.tops = append(o.tops, oo)
 	o.count++
-	oo.index = o.last
-	return oo
+}
+
+// link sets the links between the outlines of the first level
+func (o *OutlinesObj) link() {
+	o.first = -1
+	o.last = -1
+	for i, oo := range o.tops {
+		oo.parent = o.index + 1
+		oo.prev = -1
+		oo.next = -1
+		if i > 0 {
+			oo.prev = o.tops[i-1].index
+			o.tops[i-1].next = oo.index
+		} else {
+			o.first = oo.index
+		}
+		o.last = oo.index
+	}
+}
+
+// removeTop takes an outline that has become a child of another one off the first level
+func (o *OutlinesObj) removeTop(oo *OutlineObj) {
+	for i, top := range o.tops {
+		if top == oo {
+			o.tops = append(o.tops[:i:i], o.tops[i+1:]...)
+			o.link()
+			return
+		}
+	}
+}
+
+// orderTops puts the outlines of the first level in the given order, the other ones stay where they are
+func (o *OutlinesObj) orderTops(objs []*OutlineObj) {
+	isGiven := make(map[*OutlineObj]bool)
+	for _, oo := range objs {
+		isGiven[oo] = true
+	}
+	var tops, given []*OutlineObj
+	for _, oo := range objs {
+		for _, top := range o.tops {
+			if top == oo {
+				given = append(given, oo)
+				break
+			}
+		}
+	}
+	for _, top := range o.tops {
+		if !isGiven[top] {
+			tops = append(tops, top)
+			continue
+		}
+		tops = append(tops, given...)
+		given = nil
+	}
+	o.tops = tops
+	o.link()
 }
 
 func (o *OutlinesObj) Count() int {
@@ -96,6 +150,8 @@ type OutlineObj struct { //impl IObj
 	first  int
 	last   int
 	height float64
+	root   *OutlinesObj
+	kids   []*OutlineObj
 }
 
 func (o *OutlineObj) init(funcGetRoot func() *GoPdf) {
@@ -159,12 +215,29 @@ func (o *OutlineObj) write(w io.Writer, objID int) error {
 	if o.last > 0 {
 		fmt.Fprintf(w, "  /Last %d 0 R\n", o.last)
 	}
-	fmt.Fprintf(w, "  /Dest [ %d 0 R /XYZ 90 %f 0 ]\n", o.dest, o.height)
-	fmt.Fprintf(w, "  /Title <FEFF%s>\n", encodeUtf8(o.title))
+	if count := o.countOfDescendants(); count > 0 {
+		fmt.Fprintf(w, "  /Count %d\n", count)
+	}
+	if o.dest > 0 { //0: there was no page when the outline was added
+		fmt.Fprintf(w, "  /Dest [ %d 0 R /XYZ 90 %f 0 ]\n", o.dest, o.height)
+	}
+	title, err := encodeTextString(o.title, o.root.getRoot().protection(), objID)
+	if err != nil {
+		return err
+	}
+	fmt.Fprintf(w, "  /Title %s\n", title)
 	io.WriteString(w, ">>\n")
 	return nil
 }
 
+func (o *OutlineObj) countOfDescendants() int {
+	count := len(o.kids)
+	for _, kid := range o.kids {
+		count += kid.countOfDescendants()
+	}
+	return count
+}
+
 // OutlineNode is a node of outline
 type OutlineNode struct {
 	Obj      *OutlineObj
@@ -180,7 +253,7 @@ func (objs OutlineNodes) Parse() {
 		if i == 0 {
 			obj.Obj.SetPrev(-1)
 		} else {
-			obj.Obj.SetNext(objs[i-1].Obj.GetIndex())
+			obj.Obj.SetPrev(objs[i-1].Obj.GetIndex())
 		}
 		if i == len(objs)-1 {
 			obj.Obj.SetNext(-1)
@@ -189,7 +262,13 @@ func (objs OutlineNodes) Parse() {
 		}
 		obj.Parse()
 	}
-
+	if len(objs) > 0 && objs[0].Obj.root != nil {
+		tops := make([]*OutlineObj, 0, len(objs))
+		for _, obj := range objs {
+			tops = append(tops, obj.Obj)
+		}
+		objs[0].Obj.root.orderTops(tops)
+	}
 }
 
 // Parse parse outline
@@ -197,7 +276,12 @@ func (obj OutlineNode) Parse() {
 	if obj.Children == nil || len(obj.Children) == 0 {
 		return
 	}
+	obj.Obj.kids = nil
 	for i, children := range obj.Children {
+		obj.Obj.kids = append(obj.Obj.kids, children.Obj)
+		if obj.Obj.root != nil {
+			obj.Obj.root.removeTop(children.Obj)
+		}
 		if i == 0 {
 			obj.Obj.SetFirst(children.Obj.GetIndex())
 			children.Obj.SetPrev(-1)
-- 
2.43.0


From d0f289c6b62f7571fd9afdb7313c347b25076b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 14/52] fix: malformed images are rejected without panics or
 huge allocations, and empty chunks do not end a PNG

---
 image_obj.go       |   3 ++
 image_obj_parse.go | 119 ++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 110 insertions(+), 12 deletions(-)

diff --git a/image_obj.go b/image_obj.go
index c17607b..f8861f9 100644
--- a/image_obj.go
+++ b/image_obj.go
@@ -157,6 +157,9 @@ func (i *ImageObj) GetRect() *Rect {
 // GetRect get rect of img
 func (i *ImageObj) getRect() (*Rect, error) {
 
+	if _, _, err := decodeImgConfig(i.rawImgReader); err != nil {
+		return nil, err
+	}
 	i.rawImgReader.Seek(0, 0)
 	m, _, err := image.Decode(i.rawImgReader)
 	if err != nil {
diff --git a/image_obj_parse.go b/image_obj_parse.go
index fd599f2..c325a84 100644
--- a/image_obj_parse.go
+++ b/image_obj_parse.go
@@ -137,8 +137,7 @@ func parseImgByPath(path string) (imgInfo, error) {
 func parseImg(raw *bytes.Reader) (imgInfo, error) {
 	// fmt.Printf("----------\n")
 	var info imgInfo
-	raw.Seek(0, 0)
-	imgConfig, formatname, err := image.DecodeConfig(raw)
+	imgConfig, formatname, err := decodeImgConfig(raw)
 	if err != nil {
 		return info, err
 	}
@@ -187,6 +186,92 @@ func parseImg(raw *bytes.Reader) (imgInfo, error) {
 	return info, nil
 }
 
+// decodeImgConfig decodes the dimensions and the format of an image, and
+// rejects dimensions that the data is far too short for: decoding would
+// allocate memory for them before finding out.
+func decodeImgConfig(raw *bytes.Reader) (image.Config, string, error) {
+	raw.Seek(0, 0)
+	imgConfig, formatname, err := image.DecodeConfig(raw)
+	if err != nil {
+		return imgConfig, formatname, err
+	}
+
+	w, h := uint64(imgConfig.Width), uint64(imgConfig.Height)
+	maxPixelsPerByte := uint64(0)
+	switch formatname {
+	case "jpeg":
+		maxPixelsPerByte = 8 * 64 // one bit for a block of 64 pixels
+	case "png":
+		maxPixelsPerByte = 8 * 1032 // deflated by at most 1:1032
+		raw.Seek(24, 0)
+		if b, err := readBytes(raw, 2); err == nil { // bit depth and color type
+			bitsPerPixel := uint64(b[0])
+			switch b[1] {
+			case 2:
+				bitsPerPixel *= 3
+			case 4:
+				bitsPerPixel *= 2
+			case 6:
+				bitsPerPixel *= 4
+			}
+			if bitsPerPixel > 0 {
+				maxPixelsPerByte /= bitsPerPixel
+			}
+		}
+	case "gif":
+		w, h = gifFrameSize(raw)
+		maxPixelsPerByte = 4096 // a code of at least two bits for a string of pixels
+	default:
+		return imgConfig, formatname, nil
+	}
+	if w != 0 && h > (uint64(raw.Size())+1)*maxPixelsPerByte/w {
+		return imgConfig, formatname, errors.New("image data too short")
+	}
+	return imgConfig, formatname, nil
+}
+
+// gifFrameSize finds the size of the first frame of a GIF
+func gifFrameSize(raw *bytes.Reader) (uint64, uint64) {
+	raw.Seek(10, 0)
+	b, err := readBytes(raw, 3)
+	if err != nil {
+		return 0, 0
+	}
+	if b[0]&0x80 != 0 {
+		raw.Seek(3<<(b[0]&7+1), 1) // global color table
+	}
+	for {
+		b, err := readBytes(raw, 1)
+		if err != nil {
+			return 0, 0
+		}
+		switch b[0] {
+		case 0x2C: // image descriptor
+			b, err := readBytes(raw, 8)
+			if err != nil {
+				return 0, 0
+			}
+			return uint64(binary.LittleEndian.Uint16(b[4:])), uint64(binary.LittleEndian.Uint16(b[6:]))
+		case 0x21: // extension
+			if _, err := raw.Seek(1, 1); err != nil {
+				return 0, 0
+			}
+			for {
+				b, err := readBytes(raw, 1)
+				if err != nil {
+					return 0, 0
+				}
+				if b[0] == 0 {
+					break
+				}
+				raw.Seek(int64(b[0]), 1)
+			}
+		default:
+			return 0, 0
+		}
+	}
+}
+
 func parseImgJpg(info *imgInfo, imgConfig image.Config) error {
 	switch imgConfig.ColorModel {
 	case color.YCbCrModel:
@@ -330,10 +415,16 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 			}
 
 			if ct[0] == 0 {
+				if len(t) < 2 {
+					return errors.New("Incorrect transparency of PNG file")
+				}
 				trns = []byte{(t[1])}
 			} else if ct[0] == 2 {
+				if len(t) < 6 {
+					return errors.New("Incorrect transparency of PNG file")
+				}
 				trns = []byte{t[1], t[3], t[5]}
-			} else {
+			} else if ct[0] == 3 {
 				pos := strings.Index(string(t), "\x00")
 				if pos >= 0 {
 					trns = []byte{byte(pos)}
@@ -365,10 +456,6 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				return err
 			}
 		}
-
-		if n <= 0 {
-			break
-		}
 	} // end for
 
 	// info.data = data //ok
@@ -377,7 +464,7 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 
 	// fmt.Printf("data= %x", md5.Sum(data))
 
-	if colspace == "Indexed" && strings.TrimSpace(string(pal)) == "" {
+	if colspace == "Indexed" && len(pal) < 3 {
 		return errors.New("Missing palette")
 	}
 
@@ -401,16 +488,22 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 			return err
 		}
 		defer zipReader.Close()
-		afterZipData, err := io.ReadAll(zipReader)
+		length := 2 * w
+		if ct[0] == 6 {
+			length = 4 * w
+		}
+		afterZipData, err := io.ReadAll(io.LimitReader(zipReader, int64(1+length)*int64(h)))
 		if err != nil {
 			return err
 		}
+		if int64(len(afterZipData)) < int64(1+length)*int64(h) {
+			return errors.New("image data too short")
+		}
 
 		var color []byte
 		var alpha []byte
 		if ct[0] == 4 {
 			// Gray image
-			length := 2 * w
 			i := 0
 			for i < h {
 				pos := (1 + length) * i
@@ -431,7 +524,6 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 
 		} else {
 			// RGB image
-			length := 4 * w
 			i := 0
 			for i < h {
 				pos := (1 + length) * i
@@ -503,8 +595,11 @@ func readInt(f *bytes.Reader) (int, error) {
 }
 
 func readBytes(f *bytes.Reader, len int) ([]byte, error) {
+	if len < 0 || len > f.Len() {
+		return nil, io.ErrUnexpectedEOF
+	}
 	b := make([]byte, len)
-	_, err := f.Read(b)
+	_, err := io.ReadFull(f, b)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 12d188b63211994c47391564bd7fae729abb7cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 15/52] fix: keep the transparency of every palette color of a
 PNG

---
 image_obj_parse.go | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/image_obj_parse.go b/image_obj_parse.go
index c325a84..9db02f7 100644
--- a/image_obj_parse.go
+++ b/image_obj_parse.go
@@ -385,6 +385,7 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 	var pal []byte
 	var trns []byte
 	var data []byte
+	needAlpha := false
 	for {
 		un, err := readUInt(f)
 		if err != nil {
@@ -425,9 +426,16 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				}
 				trns = []byte{t[1], t[3], t[5]}
 			} else if ct[0] == 3 {
-				pos := strings.Index(string(t), "\x00")
-				if pos >= 0 {
-					trns = []byte{byte(pos)}
+				transparent := 0
+				for index, alpha := range t {
+					if alpha == 0xff {
+						continue
+					}
+					transparent++
+					trns = []byte{byte(index)}
+					if alpha != 0 || transparent > 1 {
+						needAlpha = true // more than a single color that is not painted
+					}
 				}
 			}
 
@@ -556,6 +564,27 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 		info.data = data
 	}
 
+	if needAlpha {
+		f.Seek(0, 0)
+		img, err := png.Decode(f)
+		if err != nil {
+			return err
+		}
+		var alpha []byte
+		for y := 0; y < h; y++ {
+			alpha = append(alpha, 0) // no filter
+			for x := 0; x < w; x++ {
+				_, _, _, a := img.At(x, y).RGBA()
+				alpha = append(alpha, byte(a>>8))
+			}
+		}
+		info.trns = nil
+		info.smask, err = compress(alpha)
+		if err != nil {
+			return err
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From aafde480fec7f38f5fc86f03700411b7d227174e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 16/52] fix: images read from a path are told apart by their
 content

---
 image_holder.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/image_holder.go b/image_holder.go
index de2b768..2798f76 100644
--- a/image_holder.go
+++ b/image_holder.go
@@ -48,14 +48,12 @@ func newImageBuff(b []byte) (*imageBuff, error) {
 }
 
 func newImageBuffByPath(path string) (*imageBuff, error) {
-	var i imageBuff
-	i.id = path
 	b, err := os.ReadFile(path)
 	if err != nil {
 		return nil, err
 	}
-	i.Write(b)
-	return &i, nil
+	// not the path: the file can change between two calls
+	return newImageBuff(b)
 }
 
 func newImageBuffByReader(r io.Reader) (*imageBuff, error) {
-- 
2.43.0


From 978b0af4363e90b54a4f2b3ca54281aa8ffcc797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 17/52] fix: image options are converted in copies, and an
 image, the same image with a mask and the same image as a mask do not share
 an object

---
 current.go         |  22 +++-
 gopdf.go           | 263 +++++++++++++++++++++++++--------------------
 image_obj.go       |   1 +
 image_obj_parse.go |   6 ++
 4 files changed, 172 insertions(+), 120 deletions(-)

diff --git a/current.go b/current.go
index fe1313a..09ca18b 100644
--- a/current.go
+++ b/current.go
@@ -68,5 +68,25 @@ func (c *Current) textColor() ICacheColorText {
 type ImageCache struct {
 	Path  string //ID or Path
 	Index int
-	Rect  *Rect
+	Rect  *Rect //natural size in points
+
+	usage    imageUsage
+	hasAlpha bool //the image has a transparency of its own
+}
+
+// imageUsage says what an image object is for: the object of an image that is drawn
+// with a mask has no transparency of its own, and the one of a mask is only its alpha channel
+type imageUsage int
+
+const (
+	imageUsagePlain imageUsage = iota
+	imageUsageWithMask
+	imageUsageMask
+)
+
+func (c ImageCache) isUsableFor(usage imageUsage) bool {
+	if c.usage == usage {
+		return true
+	}
+	return c.usage != imageUsageMask && usage != imageUsageMask && !c.hasAlpha
 }
diff --git a/gopdf.go b/gopdf.go
index f8197e2..3c0c067 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -38,6 +38,8 @@ var ErrExistsColorSpace = errors.New("color space already exists")
 
 var ErrUndefinedCacheContentImage = errors.New("cacheContentImage is undefined")
 
+var ErrMaskWithoutAlpha = errors.New("the mask image has no alpha channel")
+
 var ErrInvalidRectangleCoordinates = errors.New("Invalid coordinates for the rectangle")
 
 var ErrInvalidRectangleRadius = errors.New("Radius length cannot exceed rectangle height or width")
@@ -508,9 +510,25 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 }
 
 func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) error {
-	gp.UnitsToPointsVar(&opts.X, &opts.Y)
+	opts = gp.imageOptionsToPoints(opts)
+	if opts.Mask != nil {
+		mask := *opts.Mask // the mask of the caller is not changed
+		mask.ImageOptions = gp.imageOptionsToPoints(mask.ImageOptions)
+		opts.Mask = &mask
+	}
 
-	opts.Rect = opts.Rect.UnitsToPoints(gp.config.Unit)
+	// everything that can be rejected comes before the first change of the document
+	image, err := gp.loadImage(img, &opts, nil)
+	if err != nil {
+		return err
+	}
+	var maskImage *loadedImage
+	if opts.Mask != nil {
+		maskImage, err = gp.loadMask(opts.Mask, image.obj)
+		if err != nil {
+			return err
+		}
+	}
 
 	imageTransparency, err := gp.getCachedTransparency(opts.Transparency)
 	if err != nil {
@@ -531,10 +549,7 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 			opts.Mask.ImageOptions.extGStateIndexes = append(opts.Mask.ImageOptions.extGStateIndexes, maskTransparency.extGStateIndex)
 		}
 
-		gp.UnitsToPointsVar(&opts.Mask.ImageOptions.X, &opts.Mask.ImageOptions.Y)
-		opts.Mask.ImageOptions.Rect = opts.Mask.ImageOptions.Rect.UnitsToPoints(gp.config.Unit)
-
-		extGStateIndex, err := gp.maskHolder(opts.Mask.Holder, *opts.Mask)
+		extGStateIndex, err := gp.addMask(maskImage, *opts.Mask)
 		if err != nil {
 			return err
 		}
@@ -542,74 +557,127 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 		opts.extGStateIndexes = append(opts.extGStateIndexes, extGStateIndex)
 	}
 
-	return gp.imageByHolder(img, opts)
+	return gp.drawImage(image, opts)
 }
 
-func (gp *GoPdf) maskHolder(img ImageHolder, opts MaskOptions) (int, error) {
-	var cacheImage *ImageCache
-	var cacheContentImage *cacheContentImage
+// imageOptionsToPoints converts the lengths of the options to points, in copies of what the options point to
+func (gp *GoPdf) imageOptionsToPoints(opts ImageOptions) ImageOptions {
+	gp.UnitsToPointsVar(&opts.X, &opts.Y)
+	opts.Rect = opts.Rect.unitsToPoints(gp.config)
+	if opts.Crop != nil {
+		crop := *opts.Crop
+		gp.UnitsToPointsVar(&crop.X, &crop.Y, &crop.Width, &crop.Height)
+		opts.Crop = &crop
+	}
+	return opts
+}
 
-	for _, imgcache := range gp.curr.ImgCaches {
-		if img.ID() == imgcache.Path {
-			cacheImage = &imgcache
-			break
-		}
+// loadedImage is an image that can be drawn
+type loadedImage struct {
+	obj   *ImageObj // nil when the image is in the document already
+	cache ImageCache
+}
+
+// loadImage reads an image, unless it is in the document already, and completes the rect of its options.
+// It does not change the document.
+func (gp *GoPdf) loadImage(img ImageHolder, opts *ImageOptions, sameData *ImageObj) (*loadedImage, error) {
+	usage := imageUsagePlain
+	if opts.Mask != nil {
+		usage = imageUsageWithMask
 	}
+	return gp.loadImageFor(usage, img, opts, sameData)
+}
 
-	if cacheImage == nil {
-		maskImgobj := &ImageObj{IsMask: true}
-		maskImgobj.init(func() *GoPdf {
-			return gp
-		})
-		maskImgobj.setProtection(gp.protection())
+func (gp *GoPdf) loadMask(opts *MaskOptions, image *ImageObj) (*loadedImage, error) {
+	return gp.loadImageFor(imageUsageMask, opts.Holder, &opts.ImageOptions, image)
+}
 
-		err := maskImgobj.SetImage(img)
-		if err != nil {
-			return 0, err
-		}
+func (gp *GoPdf) loadImageFor(usage imageUsage, img ImageHolder, opts *ImageOptions, last *ImageObj) (*loadedImage, error) {
+	id := img.ID()
+	imgobj := &ImageObj{
+		IsMask:       usage == imageUsageMask,
+		SplittedMask: usage == imageUsageWithMask,
+		id:           id,
+	}
 
-		if opts.Rect == nil {
-			if opts.Rect, err = maskImgobj.getRect(); err != nil {
-				return 0, err
+	for _, imgcache := range gp.curr.ImgCaches {
+		if id != imgcache.Path {
+			continue
+		}
+		if imgcache.isUsableFor(usage) {
+			if opts.Rect == nil {
+				opts.Rect = imgcache.Rect
 			}
+			return &loadedImage{cache: imgcache}, nil
 		}
-
-		if err := maskImgobj.parse(); err != nil {
-			return 0, err
+		if same, ok := gp.pdfObjs[imgcache.Index].(*ImageObj); ok {
+			imgobj.rawImgReader = same.rawImgReader // the holder may be read only once
 		}
+	}
+	if last != nil && last.id == id {
+		imgobj.rawImgReader = last.rawImgReader
+	}
 
-		if gp.indexOfProcSet != -1 {
-			index := gp.addObj(maskImgobj)
-			cacheContentImage = gp.getContent().GetCacheContentImage(index, opts.ImageOptions)
-			procset := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
-			procset.RelateXobjs = append(procset.RelateXobjs, RelateXobject{IndexOfObj: index})
+	imgobj.init(func() *GoPdf {
+		return gp
+	})
+	imgobj.setProtection(gp.protection())
 
-			imgcache := ImageCache{
-				Index: index,
-				Path:  img.ID(),
-				Rect:  opts.Rect,
-			}
-			gp.curr.ImgCaches[index] = imgcache
-			gp.curr.CountOfImg++
+	if imgobj.rawImgReader == nil {
+		if err := imgobj.SetImage(img); err != nil {
+			return nil, err
 		}
-	} else {
-		if opts.Rect == nil {
-			opts.Rect = gp.curr.ImgCaches[cacheImage.Index].Rect
+	}
+
+	if opts.Rect == nil {
+		var err error
+		if opts.Rect, err = imgobj.getRect(); err != nil {
+			return nil, err
 		}
+	}
 
-		cacheContentImage = gp.getContent().GetCacheContentImage(cacheImage.Index, opts.ImageOptions)
+	if err := imgobj.parse(); err != nil {
+		return nil, err
 	}
 
-	if cacheContentImage != nil {
-		extGStateInd, err := gp.createTransparencyXObjectGroup(cacheContentImage, opts)
-		if err != nil {
-			return 0, err
-		}
+	if imgobj.IsMask && !imgobj.haveSMask() {
+		return nil, ErrMaskWithoutAlpha
+	}
+
+	w, h := ImgReactagleToWH(image.Rect(0, 0, imgobj.imginfo.w, imgobj.imginfo.h))
+	return &loadedImage{
+		obj: imgobj,
+		cache: ImageCache{
+			Path:     id,
+			Rect:     &Rect{W: w, H: h},
+			usage:    usage,
+			hasAlpha: imgobj.haveSMask() || len(imgobj.imginfo.trns) > 0,
+		},
+	}, nil
+}
 
-		return extGStateInd, nil
+// addImage adds the image to the document, unless it is there already
+func (gp *GoPdf) addImage(img *loadedImage) {
+	imgobj := img.obj
+	if imgobj == nil {
+		return
 	}
+	index := gp.addObj(imgobj)
+	img.cache.Index = index
+	if gp.indexOfProcSet != -1 {
+		//ยัดรูป
+		procset := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
+		procset.RelateXobjs = append(procset.RelateXobjs, RelateXobject{IndexOfObj: index})
+		//เก็บข้อมูลรูปเอาไว้
+		gp.curr.ImgCaches[index] = img.cache
+		gp.curr.CountOfImg++
+	}
+}
 
-	return 0, ErrUndefinedCacheContentImage
+func (gp *GoPdf) addMask(img *loadedImage, opts MaskOptions) (int, error) {
+	gp.addImage(img)
+	cacheContentImage := gp.getContent().GetCacheContentImage(img.cache.Index, opts.ImageOptions)
+	return gp.createTransparencyXObjectGroup(cacheContentImage, opts)
 }
 
 func (gp *GoPdf) createTransparencyXObjectGroup(image *cacheContentImage, opts MaskOptions) (int, error) {
@@ -657,84 +725,41 @@ func (gp *GoPdf) createTransparencyXObjectGroup(image *cacheContentImage, opts M
 }
 
 func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
-	cacheImageIndex := -1
-
-	for _, imgcache := range gp.curr.ImgCaches {
-		if img.ID() == imgcache.Path {
-			cacheImageIndex = imgcache.Index
-			break
-		}
+	image, err := gp.loadImage(img, &opts, nil)
+	if err != nil {
+		return err
 	}
+	return gp.drawImage(image, opts)
+}
 
-	if cacheImageIndex == -1 { //new image
-
-		//create img object
-		imgobj := new(ImageObj)
-		if opts.Mask != nil {
-			imgobj.SplittedMask = true
-		}
+func (gp *GoPdf) drawImage(img *loadedImage, opts ImageOptions) error {
+	gp.addImage(img)
+	gp.getContent().AppendStreamImage(img.cache.Index, opts)
 
-		imgobj.init(func() *GoPdf {
-			return gp
-		})
-		imgobj.setProtection(gp.protection())
+	imgobj := img.obj
+	if imgobj == nil { //same img
+		return nil
+	}
 
-		err := imgobj.SetImage(img)
+	if imgobj.haveSMask() {
+		smaskObj, err := imgobj.createSMask()
 		if err != nil {
 			return err
 		}
+		imgobj.imginfo.smarkObjID = gp.addObj(smaskObj)
+	}
 
-		if opts.Rect == nil {
-			if opts.Rect, err = imgobj.getRect(); err != nil {
-				return err
-			}
-		}
-
-		err = imgobj.parse()
+	if imgobj.isColspaceIndexed() {
+		dRGB, err := imgobj.createDeviceRGB()
 		if err != nil {
 			return err
 		}
-		index := gp.addObj(imgobj)
-		if gp.indexOfProcSet != -1 {
-			//ยัดรูป
-			procset := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
-			gp.getContent().AppendStreamImage(index, opts)
-			procset.RelateXobjs = append(procset.RelateXobjs, RelateXobject{IndexOfObj: index})
-			//เก็บข้อมูลรูปเอาไว้
-			var imgcache ImageCache
-			imgcache.Index = index
-			imgcache.Path = img.ID()
-			imgcache.Rect = opts.Rect
-			gp.curr.ImgCaches[index] = imgcache
-			gp.curr.CountOfImg++
-		}
-
-		if imgobj.haveSMask() {
-			smaskObj, err := imgobj.createSMask()
-			if err != nil {
-				return err
-			}
-			imgobj.imginfo.smarkObjID = gp.addObj(smaskObj)
-		}
-
-		if imgobj.isColspaceIndexed() {
-			dRGB, err := imgobj.createDeviceRGB()
-			if err != nil {
-				return err
-			}
-			dRGB.getRoot = func() *GoPdf {
-				return gp
-			}
-			imgobj.imginfo.deviceRGBObjID = gp.addObj(dRGB)
-		}
-
-	} else { //same img
-		if opts.Rect == nil {
-			opts.Rect = gp.curr.ImgCaches[cacheImageIndex].Rect
+		dRGB.getRoot = func() *GoPdf {
+			return gp
 		}
-
-		gp.getContent().AppendStreamImage(cacheImageIndex, opts)
+		imgobj.imginfo.deviceRGBObjID = gp.addObj(dRGB)
 	}
+
 	return nil
 }
 
diff --git a/image_obj.go b/image_obj.go
index f8861f9..f391409 100644
--- a/image_obj.go
+++ b/image_obj.go
@@ -23,6 +23,7 @@ type ImageObj struct {
 	rawImgReader  *bytes.Reader
 	imginfo       imgInfo
 	pdfProtection *PDFProtection
+	id            string
 	//getRoot func() *GoPdf
 }
 
diff --git a/image_obj_parse.go b/image_obj_parse.go
index 9db02f7..0407f22 100644
--- a/image_obj_parse.go
+++ b/image_obj_parse.go
@@ -22,6 +22,8 @@ const (
 )
 
 func writeMaskImgProps(w io.Writer, imginfo imgInfo) error {
+	imginfo.colspace = DeviceGray // whatever the image of the alpha channel has
+	imginfo.bitsPerComponent = "8"
 	if err := writeBaseImgProps(w, imginfo, DeviceGray); err != nil {
 		return err
 	}
@@ -196,6 +198,10 @@ func decodeImgConfig(raw *bytes.Reader) (image.Config, string, error) {
 		return imgConfig, formatname, err
 	}
 
+	if imgConfig.Width <= 0 || imgConfig.Height <= 0 {
+		return imgConfig, formatname, errors.New("image without pixels")
+	}
+
 	w, h := uint64(imgConfig.Width), uint64(imgConfig.Height)
 	maxPixelsPerByte := uint64(0)
 	switch formatname {
-- 
2.43.0


From 1e35bf0ecd868a2b2f7f2c9a69e59c941756bba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 18/52] fix: lengths are converted once, with the conversion of
 the document, and not in the caller's slices; a compress level that is too
 big means best compression

---
 gopdf.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 3c0c067..26d86c0 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -181,7 +181,6 @@ func (gp *GoPdf) SetCompressLevel(level int) {
 	} else if level > zlib.BestCompression {
 		fmt.Fprintf(os.Stderr, errfmt, "big", "BestCompression")
 		level = zlib.BestCompression
-		return
 	}
 	// sanity check complete
 	gp.compressLevel = level
@@ -209,11 +208,12 @@ func (gp *GoPdf) SetLineType(linetype string) {
 //	pdf.SetCustomLineType([]float64{0.8, 0.8}, 0)
 //	pdf.Line(50, 200, 550, 200)
 func (gp *GoPdf) SetCustomLineType(dashArray []float64, dashPhase float64) {
+	dashes := make([]float64, len(dashArray))
 	for i := range dashArray {
-		gp.UnitsToPointsVar(&dashArray[i])
+		dashes[i] = gp.UnitsToPoints(dashArray[i])
 	}
 	gp.UnitsToPointsVar(&dashPhase)
-	gp.getContent().AppendStreamSetCustomLineType(dashArray, dashPhase)
+	gp.getContent().AppendStreamSetCustomLineType(dashes, dashPhase)
 }
 
 // Line : draw line
@@ -391,9 +391,9 @@ func (gp *GoPdf) GetX() float64 {
 func (gp *GoPdf) SetNewY(y float64, h float64) {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if gp.curr.Y+h > gp.curr.pageSize.H-gp.MarginBottom() {
+	if gp.curr.Y+h > gp.curr.pageSize.H-gp.margins.Bottom {
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 }
@@ -407,9 +407,9 @@ func (gp *GoPdf) SetNewY(y float64, h float64) {
 func (gp *GoPdf) SetNewYIfNoOffset(y float64, h float64) {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if y+h > gp.curr.pageSize.H-gp.MarginBottom() { // using new y(*y) instead of gp.curr.Y
+	if y+h > gp.curr.pageSize.H-gp.margins.Bottom { // using new y(*y) instead of gp.curr.Y
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 }
@@ -424,9 +424,9 @@ func (gp *GoPdf) SetNewYIfNoOffset(y float64, h float64) {
 func (gp *GoPdf) SetNewXY(y float64, x, h float64) {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if gp.curr.Y+h > gp.curr.pageSize.H-gp.MarginBottom() {
+	if gp.curr.Y+h > gp.curr.pageSize.H-gp.margins.Bottom {
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 	gp.SetX(x)
@@ -496,7 +496,7 @@ func (gp *GoPdf) SetXY(x, y float64) {
 func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect) error {
 	gp.UnitsToPointsVar(&x, &y)
 
-	rect = rect.UnitsToPoints(gp.config.Unit)
+	rect = rect.unitsToPoints(gp.config)
 
 	imageOptions := ImageOptions{
 		X:    x,
@@ -766,7 +766,7 @@ func (gp *GoPdf) drawImage(img *loadedImage, opts ImageOptions) error {
 // Image : draw image
 func (gp *GoPdf) Image(picPath string, x float64, y float64, rect *Rect) error {
 	gp.UnitsToPointsVar(&x, &y)
-	rect = rect.UnitsToPoints(gp.config.Unit)
+	rect = rect.unitsToPoints(gp.config)
 	imgh, err := ImageHolderByPath(picPath)
 	if err != nil {
 		return err
@@ -798,7 +798,7 @@ func (gp *GoPdf) ImageFromWithOption(img image.Image, opts ImageFromOption) erro
 	}
 
 	gp.UnitsToPointsVar(&opts.X, &opts.Y)
-	opts.Rect = opts.Rect.UnitsToPoints(gp.config.Unit)
+	opts.Rect = opts.Rect.unitsToPoints(gp.config)
 	r, w := io.Pipe()
 	go func() {
 		bw := bufio.NewWriter(w)
@@ -1193,7 +1193,7 @@ func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) er
 		opt.extGStateIndexes = append(opt.extGStateIndexes, transparency.extGStateIndex)
 	}
 
-	rectangle = rectangle.UnitsToPoints(gp.config.Unit)
+	rectangle = rectangle.unitsToPoints(gp.config)
 	text, err = gp.curr.FontISubset.AddChars(text)
 	if err != nil {
 		return err
@@ -1208,7 +1208,7 @@ func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) er
 // Cell : create cell of text ( use current x,y is upper-left corner of cell)
 // Note that this has no effect on Rect.H pdf (now). Fix later :-)
 func (gp *GoPdf) Cell(rectangle *Rect, text string) error {
-	rectangle = rectangle.UnitsToPoints(gp.config.Unit)
+	rectangle = rectangle.unitsToPoints(gp.config)
 	defaultopt := CellOption{
 		Align:  Left | Top,
 		Border: 0,
-- 
2.43.0


From 3d2f46344b32faa6f198a77ad6c81c1f66286b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 19/52] fix: embed the components of composite components and
 of the missing glyph

---
 pdf_dictionary_obj.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pdf_dictionary_obj.go b/pdf_dictionary_obj.go
index 5f771e1..f026583 100644
--- a/pdf_dictionary_obj.go
+++ b/pdf_dictionary_obj.go
@@ -293,11 +293,9 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 		glyphArray = append(glyphArray, 0)
 	}
 
-	i := 0
-	count := len(glyphs)
-	for i < count {
+	//a component can be a composite glyph itself
+	for i := 0; i < len(glyphArray); i++ {
 		p.AddCompositeGlyphs(&glyphArray, glyphArray[i])
-		i++
 	}
 	return glyphArray
 }
-- 
2.43.0


From 2fe2f664e399fa32b23ad0620ed4bd86b2ab635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 20/52] fix: malformed fonts are rejected instead of panicking,
 hanging or reading past the end

---
 fontmaker/core/ttfparser.go | 54 +++++++++++++++++++++++++++++++++++++
 pdf_dictionary_obj.go       | 16 ++++++-----
 subset_font_obj.go          | 17 +++++++++---
 3 files changed, 78 insertions(+), 9 deletions(-)

diff --git a/fontmaker/core/ttfparser.go b/fontmaker/core/ttfparser.go
index 7f7a432..7c3e454 100644
--- a/fontmaker/core/ttfparser.go
+++ b/fontmaker/core/ttfparser.go
@@ -18,6 +18,9 @@ var ERROR_UNEXPECTED_SUBTABLE_FORMAT = errors.New("Unexpected subtable format")
 var ERROR_INCORRECT_MAGIC_NUMBER = errors.New("Incorrect magic number")
 var ERROR_POSTSCRIPT_NAME_NOT_FOUND = errors.New("PostScript name not found")
 
+// ErrMalformedFont the tables of the font contradict each other or the length of the file
+var ErrMalformedFont = errors.New("malformed font")
+
 // TTFParser true type font parser
 type TTFParser struct {
 	tables map[string]TableDirectoryEntry
@@ -318,11 +321,48 @@ func (t *TTFParser) ParseFontData(fontData []byte) error {
 		}
 	}
 
+	err = t.checkTables(fontData)
+	if err != nil {
+		return err
+	}
+
 	t.cachedFontData = fontData
 
 	return nil
 }
 
+// checkTables checks what is needed to measure text and to embed the font
+func (t *TTFParser) checkTables(fontData []byte) error {
+	if t.unitsPerEm == 0 || t.numGlyphs == 0 {
+		return ErrMalformedFont
+	}
+
+	glyf, ok := t.tables["glyf"]
+	if !ok {
+		return ErrTableNotFound
+	}
+
+	//tables that are copied into the document
+	for _, tag := range []string{"cvt ", "fpgm", "glyf", "head", "hhea", "hmtx", "loca", "maxp", "prep"} {
+		table := t.tables[tag]
+		if table.Offset+table.Length > uint(len(fontData)) {
+			return ErrMalformedFont
+		}
+	}
+
+	if uint(len(t.LocaTable)) <= t.numGlyphs {
+		return ErrMalformedFont
+	}
+	previous := uint(0)
+	for _, offset := range t.LocaTable[:t.numGlyphs+1] {
+		if offset < previous || glyf.Offset+offset > uint(len(fontData)) {
+			return ErrMalformedFont
+		}
+		previous = offset
+	}
+	return nil
+}
+
 func (t *TTFParser) FontData() []byte {
 	return t.cachedFontData
 }
@@ -727,11 +767,22 @@ func (t *TTFParser) ParseCmap(fd *bytes.Reader) error {
 	t.GlyphIdArray = glyphIDArray
 
 	t.chars = make(map[int]uint)
+	next := uint(0) //segments are in order, a character belongs to the first one that reaches it
 	for i := 0; i < int(segCount); i++ {
 		c1 := startCount[i]
 		c2 := endCount[i]
+		if c2 < next {
+			continue
+		}
 		d := idDelta[i]
 		ro := idRangeOffset[i]
+		if c1 < next {
+			if ro > 0 {
+				ro += 2 * (next - c1)
+			}
+			c1 = next
+		}
+		next = c2 + 1
 		if ro > 0 {
 			_, err = fd.Seek(int64(offset+uint(2*i)+ro), 0)
 			if err != nil {
@@ -799,6 +850,9 @@ func (t *TTFParser) ParseHmtx(fd *bytes.Reader) error {
 		t.widths = append(t.widths, advanceWidth)
 		i++
 	}
+	if t.numberOfHMetrics == 0 {
+		return ErrMalformedFont
+	}
 	if t.numberOfHMetrics < t.numGlyphs {
 		lastWidth := t.widths[t.numberOfHMetrics-1]
 		t.widths, err = t.ArrayPadUint(t.widths, t.numGlyphs, lastWidth)
diff --git a/pdf_dictionary_obj.go b/pdf_dictionary_obj.go
index f026583..3da95ac 100644
--- a/pdf_dictionary_obj.go
+++ b/pdf_dictionary_obj.go
@@ -258,7 +258,8 @@ func (p *PdfDictionaryObj) makeFont() ([]byte, error) {
 			entry.CheckSum = CheckSum(data)
 			WriteBytes(&buff, data, 0, len(data))
 		} else {
-			WriteBytes(&buff, ttfp.FontData(), int(entry.Offset), entry.PaddedLength())
+			WriteBytes(&buff, ttfp.FontData(), int(entry.Offset), int(entry.Length))
+			WriteBytes(&buff, make([]byte, 3), 0, entry.PaddedLength()-int(entry.Length))
 		}
 		endPosition := buff.Position()
 		tablePosition = endPosition
@@ -303,13 +304,13 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 // AddCompositeGlyphs add composite glyph
 // composite glyph is a Unicode entity that can be defined as a sequence of one or more other characters.
 func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) {
-	start := p.GetOffset(int(glyph))
-	if start == p.GetOffset(int(glyph)+1) {
+	ttfp := p.PtrToSubsetFontObj.GetTTFParser()
+	offset := p.GetOffset(int(glyph))
+	end := p.GetOffset(int(glyph) + 1)
+	if offset+10 > end {
 		return
 	}
 
-	offset := start
-	ttfp := p.PtrToSubsetFontObj.GetTTFParser()
 	fontData := ttfp.FontData()
 	numContours, step := ReadShortFromByte(fontData, offset)
 	offset += step
@@ -318,11 +319,14 @@ func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) {
 	}
 
 	offset += 8
-	for {
+	for offset+4 <= end {
 		flags, step1 := ReadUShortFromByte(fontData, offset)
 		offset += step1
 		cGlyph, step2 := ReadUShortFromByte(fontData, offset)
 		offset += step2
+		if uint(cGlyph) >= ttfp.NumGlyphs() {
+			return
+		}
 		//check cGlyph is contain in glyphArray?
 		glyphContainsKey := false
 		for _, g := range *glyphArray {
diff --git a/subset_font_obj.go b/subset_font_obj.go
index cb37664..bdb3605 100644
--- a/subset_font_obj.go
+++ b/subset_font_obj.go
@@ -262,7 +262,7 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat4(r rune) (uint, error) {
 		seg++
 	}
 	//fmt.Printf("\ncccc--->%#v\n", me.ttfp.Chars())
-	if value < s.ttfp.StartCount[seg] {
+	if seg >= segCount || value < s.ttfp.StartCount[seg] {
 		return 0, ErrGlyphNotFound
 	}
 
@@ -273,6 +273,9 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat4(r rune) (uint, error) {
 	//fmt.Printf("IdRangeOffset=%d\n", me.ttfp.IdRangeOffset[seg])
 	idx := s.ttfp.IdRangeOffset[seg]/2 + (value - s.ttfp.StartCount[seg]) - (segCount - seg)
 
+	if idx >= uint(len(s.ttfp.GlyphIdArray)) {
+		return 0, ErrGlyphNotFound
+	}
 	if s.ttfp.GlyphIdArray[int(idx)] == uint(0) {
 		return 0, nil
 	}
@@ -288,13 +291,21 @@ func (s *SubsetFontObj) CharCodeToGlyphIndex(r rune) (uint, error) {
 		if err != nil {
 			return 0, err
 		}
-		return gIndex, nil
+		return s.knownGlyph(gIndex)
 	}
 	gIndex, err := s.charCodeToGlyphIndexFormat12(r)
 	if err != nil {
 		return 0, err
 	}
-	return gIndex, nil
+	return s.knownGlyph(gIndex)
+}
+
+// knownGlyph makes sure that the font has the glyph
+func (s *SubsetFontObj) knownGlyph(glyphIndex uint) (uint, error) {
+	if glyphIndex >= s.ttfp.NumGlyphs() {
+		return 0, ErrGlyphNotFound
+	}
+	return glyphIndex, nil
 }
 
 // GlyphIndexToPdfWidth gets width from glyphIndex.
-- 
2.43.0


From 01200edda54311ac65d5de51a1576e79dfeaa1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 21/52] fix: characters mapped to the missing glyph are
 missing, and are reported every time

---
 subset_font_obj.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/subset_font_obj.go b/subset_font_obj.go
index bdb3605..7325768 100644
--- a/subset_font_obj.go
+++ b/subset_font_obj.go
@@ -137,7 +137,8 @@ func (s *SubsetFontObj) SetTTFData(data []byte) error {
 func (s *SubsetFontObj) AddChars(txt string) (string, error) {
 	s.addCharsBuff = s.addCharsBuff[:0]
 	for _, runeValue := range txt {
-		if s.CharacterToGlyphIndex.KeyExists(runeValue) {
+		//a substitute that the font lacks too is in the map with glyph 0
+		if index, ok := s.CharacterToGlyphIndex.Val(runeValue); ok && index != 0 {
 			s.addCharsBuff = append(s.addCharsBuff, runeValue)
 			continue
 		}
@@ -212,7 +213,7 @@ func (s *SubsetFontObj) replaceGlyphThatNotFound(runeNotFound rune) (bool, rune,
 		}
 		return false, runeForReplace, glyphIndexForReplace
 	}
-	return false, runeNotFound, 0
+	return s.CharacterToGlyphIndex.KeyExists(runeNotFound), runeNotFound, 0
 }
 
 // CharIndex index of char in glyph table
@@ -300,9 +301,9 @@ func (s *SubsetFontObj) CharCodeToGlyphIndex(r rune) (uint, error) {
 	return s.knownGlyph(gIndex)
 }
 
-// knownGlyph makes sure that the font has the glyph
+// knownGlyph makes sure that the font has the glyph (glyph 0 stands for missing characters)
 func (s *SubsetFontObj) knownGlyph(glyphIndex uint) (uint, error) {
-	if glyphIndex >= s.ttfp.NumGlyphs() {
+	if glyphIndex == 0 || glyphIndex >= s.ttfp.NumGlyphs() {
 		return 0, ErrGlyphNotFound
 	}
 	return glyphIndex, nil
-- 
2.43.0


From ff021a32d18ffe4662e4af3150f0547470a2c6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 22/52] fix: splitting text ends for every width, and lines
 that fit exactly are not broken

---
 gopdf.go | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 26d86c0..62120e7 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1251,15 +1251,17 @@ func (gp *GoPdf) MultiCell(rectangle *Rect, text string) error {
 		if totalLineHeight+lineHeight > rectangle.H {
 			break
 		}
-		lineWidth, _ := gp.MeasureTextWidth(string(line))
-		runeWidth, _ := gp.MeasureTextWidth(string(v))
+		lineWidth, _ := gp.MeasureTextWidth(string(line) + string(v))
 
-		if lineWidth+runeWidth > rectangle.W {
+		if lineWidth > rectangle.W && len(line) > 0 {
 			gp.Cell(&Rect{W: rectangle.W, H: lineHeight}, string(line))
 			gp.Br(lineHeight)
 			gp.SetX(x)
 			totalLineHeight = totalLineHeight + lineHeight
 			line = nil
+			if totalLineHeight+lineHeight > rectangle.H {
+				break
+			}
 		}
 
 		line = append(line, v)
@@ -1295,10 +1297,9 @@ func (gp *GoPdf) IsFitMultiCell(rectangle *Rect, text string) (bool, float64, er
 		if totalLineHeight+lineHeight > rectangle.H {
 			return false, totalLineHeight, nil
 		}
-		lineWidth, _ := gp.MeasureTextWidth(string(line))
-		runeWidth, _ := gp.MeasureTextWidth(string(v))
+		lineWidth, _ := gp.MeasureTextWidth(string(line) + string(v))
 
-		if lineWidth+runeWidth > rectangle.W {
+		if lineWidth > rectangle.W && len(line) > 0 {
 			totalLineHeight += lineHeight
 			line = nil
 		}
@@ -1416,23 +1417,16 @@ func (gp *GoPdf) SplitTextWithOption(text string, width float64, opt *BreakOptio
 	if utf8TextsLen == 0 {
 		return lineTexts, ErrEmptyString
 	}
-	separatorWidth, err := gp.MeasureTextWidth(opt.Separator)
-	if err != nil {
-		return nil, err
-	}
 	// possible (not conflicting) position of the separator within the currently processed line
-	separatorIdx := 0
+	separatorIdx := -1
 	for i := 0; i < utf8TextsLen; i++ {
-		lineWidth, err := gp.MeasureTextWidth(string(lineText))
-		if err != nil {
-			return nil, err
-		}
-		runeWidth, err := gp.MeasureTextWidth(string(utf8Texts[i]))
+		lineWidth, err := gp.MeasureTextWidth(string(lineText) + string(utf8Texts[i]))
 		if err != nil {
 			return nil, err
 		}
 		// mid-word break required since the max width of the given rect is exceeded
-		if lineWidth+runeWidth > width && utf8Texts[i] != '\n' {
+		// (a single rune that is too wide stays on a line by itself)
+		if lineWidth > width && utf8Texts[i] != '\n' && len(lineText) > 0 {
 			// forceBreak will be set to true in case an indicator sensitive break was not possible which will cause
 			// strict break to not exceed the desired width
 			forceBreak := false
@@ -1443,12 +1437,14 @@ func (gp *GoPdf) SplitTextWithOption(text string, width float64, opt *BreakOptio
 			if opt.Mode == BreakModeStrict || forceBreak {
 				performStrictLineBreak(&lineTexts, &lineText, &i, separatorIdx, opt)
 			}
+			separatorIdx = -1
 			continue
 		}
 		// regular break due to a new line rune
 		if utf8Texts[i] == '\n' {
 			lineTexts = append(lineTexts, string(lineText))
 			lineText = lineText[0:0]
+			separatorIdx = -1
 			continue
 		}
 		// end of text
@@ -1457,8 +1453,14 @@ func (gp *GoPdf) SplitTextWithOption(text string, width float64, opt *BreakOptio
 			lineTexts = append(lineTexts, string(lineText))
 		}
 		// store overall index when separator would still fit in the currently processed text-line
-		if opt.HasSeparator() && lineWidth+runeWidth+separatorWidth <= width {
-			separatorIdx = i
+		if opt.HasSeparator() {
+			separatedWidth, err := gp.MeasureTextWidth(string(lineText) + string(utf8Texts[i]) + opt.Separator)
+			if err != nil {
+				return nil, err
+			}
+			if separatedWidth <= width {
+				separatorIdx = i
+			}
 		}
 		lineText = append(lineText, utf8Texts[i])
 	}
@@ -1559,6 +1561,11 @@ func performStrictLineBreak(lineTexts *[]string, lineText *[]rune, i *int, separ
 	if opt.HasSeparator() && separatorIdx > -1 {
 		// trim the line to the last possible index with an appended separator
 		trimIdx := *i - separatorIdx
+		if trimIdx == len(*lineText) {
+			// the line must not be left without any text
+			trimIdx--
+			separatorIdx++
+		}
 		*lineText = (*lineText)[0 : len(*lineText)-trimIdx]
 		// append separator to the line
 		*lineText = append(*lineText, []rune(opt.Separator)...)
-- 
2.43.0


From 3cbdaa02005687056adebbce1a6e32d60dca9f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 23/52] fix: placeholders use the font and unit of their
 creation and can be filled again

---
 cache_content_text.go |  3 ++-
 gopdf.go              | 19 ++++++++++++-------
 placeholder.go        |  1 +
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/cache_content_text.go b/cache_content_text.go
index afa9326..e16d081 100644
--- a/cache_content_text.go
+++ b/cache_content_text.go
@@ -302,7 +302,8 @@ func (c *cacheContentText) write(w io.Writer, protection *PDFProtection) error {
 	io.WriteString(w, ">] TJ\n")
 	io.WriteString(w, "ET\n")
 
-	if c.fontStyle&Underline == Underline {
+	isEmptyPlaceHolder := c.isPlaceHolder && c.text == ""
+	if c.fontStyle&Underline == Underline && !isEmptyPlaceHolder {
 		if err := c.underline(w); err != nil {
 			return err
 		}
diff --git a/gopdf.go b/gopdf.go
index 62120e7..1d7c83e 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1477,7 +1477,8 @@ func (gp *GoPdf) PlaceHolderText(placeHolderName string, placeHolderWidth float6
 		return err
 	}
 
-	gp.PointsToUnitsVar(&placeHolderWidth)
+	x := gp.curr.X
+	gp.UnitsToPointsVar(&placeHolderWidth)
 	err = gp.getContent().appendStreamPlaceHolderText(placeHolderWidth)
 	if err != nil {
 		return err
@@ -1497,6 +1498,7 @@ func (gp *GoPdf) PlaceHolderText(placeHolderName string, placeHolderWidth float6
 			placeHolderWidth: placeHolderWidth,
 			fontSize:         gp.curr.FontSize,
 			charSpacing:      gp.curr.CharSpacing,
+			x:                x,
 		},
 	)
 
@@ -1522,22 +1524,25 @@ func (gp *GoPdf) FillInPlaceHoldText(placeHolderName string, text string, align
 		if !ok {
 			return errors.New("listCache.caches is not *cacheContentText")
 		}
-		info.fontISubset.AddChars(text)
-		contentText.text = text
+		knownText, err := info.fontISubset.AddChars(text)
+		if err != nil {
+			return err
+		}
+		contentText.text = knownText
 
 		//Calculate position
-		_, _, textWidthPdfUnit, err := createContent(gp.curr.FontISubset, text, info.fontSize, info.charSpacing, nil)
+		width, _, err := contentText.createContent()
 		if err != nil {
 			return err
 		}
-		width := pointsToUnits(gp.config, textWidthPdfUnit)
 
+		contentText.x = info.x
 		if align == Right {
 			diff := info.placeHolderWidth - width
-			contentText.x = contentText.x + diff
+			contentText.x = info.x + diff
 		} else if align == Center {
 			diff := info.placeHolderWidth - width
-			contentText.x = contentText.x + diff/2
+			contentText.x = info.x + diff/2
 		}
 	}
 
diff --git a/placeholder.go b/placeholder.go
index fb49508..41e21c3 100644
--- a/placeholder.go
+++ b/placeholder.go
@@ -12,4 +12,5 @@ type placeHolderTextInfo struct {
 	placeHolderWidth float64
 	fontSize         float64
 	charSpacing      float64
+	x                float64 //left end of the placeholder
 }
-- 
2.43.0


From 47d5d3a1235cc797ab2ab2d30b9c9a45dc337e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 24/52] fix: templates of several sources do not share a name,
 and imported pages keep their size in every unit

---
 gopdf.go | 105 ++++++++++++++++++++++++++-----------------------------
 1 file changed, 50 insertions(+), 55 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 1d7c83e..f16f346 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -13,6 +13,7 @@ import (
 	"log"
 	"math"
 	"os"
+	"reflect"
 	"strconv"
 	"strings"
 	"time"
@@ -104,6 +105,10 @@ type GoPdf struct {
 
 	// gofpdi free pdf document importer
 	fpdi *gofpdi.Importer
+	//templates imported by this document
+	importedTemplates map[int]bool
+	//streams that were sources of gofpdi
+	importStreams []*io.ReadSeeker
 
 	//placeholder text
 	placeHolderTexts map[string]([]placeHolderTextInfo)
@@ -1602,31 +1607,7 @@ func (gp *GoPdf) ImportPage(sourceFile string, pageno int, box string) int {
 	// Set source file for fpdi
 	gp.fpdi.SetSourceFile(sourceFile)
 
-	// gofpdi needs to know where to start the object id at.
-	// By default, it starts at 1, but gopdf adds a few objects initially.
-	startObjID := gp.GetNextObjectID()
-
-	// Set gofpdi next object ID to  whatever the value of startObjID is
-	gp.fpdi.SetNextObjectID(startObjID)
-
-	// Import page
-	tpl := gp.fpdi.ImportPage(pageno, box)
-
-	// Import objects into current pdf document
-	tplObjIDs := gp.fpdi.PutFormXobjects()
-
-	// Set template names and ids in gopdf
-	gp.ImportTemplates(tplObjIDs)
-
-	// Get a map[int]string of the imported objects.
-	// The map keys will be the ID of each object.
-	imported := gp.fpdi.GetImportedObjects()
-
-	// Import gofpdi objects into gopdf, starting at whatever the value of startObjID is
-	gp.ImportObjects(imported, startObjID)
-
-	// Return template ID
-	return tpl
+	return gp.importPage(pageno, box)
 }
 
 // ImportPageStream imports page using a stream.
@@ -1634,8 +1615,13 @@ func (gp *GoPdf) ImportPage(sourceFile string, pageno int, box string) int {
 // gofpdi code
 func (gp *GoPdf) ImportPageStream(sourceStream *io.ReadSeeker, pageno int, box string) int {
 	// Set source file for fpdi
-	gp.fpdi.SetSourceStream(sourceStream)
+	gp.setImportStream(*sourceStream)
+
+	return gp.importPage(pageno, box)
+}
 
+// importPage imports a page of the current source of gofpdi
+func (gp *GoPdf) importPage(pageno int, box string) int {
 	// gofpdi needs to know where to start the object id at.
 	// By default, it starts at 1, but gopdf adds a few objects initially.
 	startObjID := gp.GetNextObjectID()
@@ -1649,8 +1635,11 @@ func (gp *GoPdf) ImportPageStream(sourceStream *io.ReadSeeker, pageno int, box s
 	// Import objects into current pdf document
 	tplObjIDs := gp.fpdi.PutFormXobjects()
 
-	// Set template names and ids in gopdf
-	gp.ImportTemplates(tplObjIDs)
+	// Set template names and ids in gopdf. gofpdi numbers the templates of every source
+	// independently, templates of two sources can have the same name
+	tplName, _, _, _, _ := gp.fpdi.UseTemplate(tpl, 0, 0, 0, 0)
+	gp.ImportTemplates(map[string]int{importedTemplateName(tpl): tplObjIDs[tplName]})
+	gp.importedTemplates[tpl] = true
 
 	// Get a map[int]string of the imported objects.
 	// The map keys will be the ID of each object.
@@ -1663,10 +1652,32 @@ func (gp *GoPdf) ImportPageStream(sourceStream *io.ReadSeeker, pageno int, box s
 	return tpl
 }
 
+// importedTemplateName is the name of an imported template in the resources of the pages
+func importedTemplateName(tplid int) string {
+	return fmt.Sprintf("/GOFPDITPL%d", tplid)
+}
+
+// setImportStream makes a stream the current source of gofpdi, which tells streams apart by
+// the address of the variable: every stream gets one that is not used for another stream
+func (gp *GoPdf) setImportStream(stream io.ReadSeeker) {
+	for _, known := range gp.importStreams {
+		if isSameStream(*known, stream) {
+			gp.fpdi.SetSourceStream(known)
+			return
+		}
+	}
+	gp.importStreams = append(gp.importStreams, &stream)
+	gp.fpdi.SetSourceStream(&stream)
+}
+
+func isSameStream(a, b io.ReadSeeker) bool {
+	return reflect.TypeOf(a).Comparable() && reflect.TypeOf(b).Comparable() && a == b
+}
+
 // GetStreamPageSizes gets the sizes of the pages using a stream
 // Returns a map of available pages and its box sizes starting with the first page at index 1 containing a map of boxes containing a map of size values
 func (gp *GoPdf) GetStreamPageSizes(sourceStream *io.ReadSeeker) map[int]map[string]map[string]float64 {
-	gp.fpdi.SetSourceStream(sourceStream)
+	gp.setImportStream(*sourceStream)
 	return gp.fpdi.GetPageSizes()
 }
 
@@ -1682,6 +1693,9 @@ func (gp *GoPdf) UseImportedTemplate(tplid int, x float64, y float64, w float64,
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
 	// Get template values to draw
 	tplName, scaleX, scaleY, tX, tY := gp.fpdi.UseTemplate(tplid, x, y, w, h)
+	if gp.importedTemplates[tplid] {
+		tplName = importedTemplateName(tplid)
+	}
 	gp.getContent().AppendStreamImportedTemplate(tplName, scaleX, scaleY, tX, tY)
 }
 
@@ -1694,14 +1708,13 @@ func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) error {
 		gp.fpdi.SetSourceFile(v)
 	case []byte:
 		// Set source stream for fpdi
-		rs := io.ReadSeeker(bytes.NewReader(v))
-		gp.fpdi.SetSourceStream(&rs)
+		gp.setImportStream(bytes.NewReader(v))
 	case io.ReadSeeker:
 		// Set source stream for fpdi
-		gp.fpdi.SetSourceStream(&v)
+		gp.setImportStream(v)
 	case *io.ReadSeeker:
 		// Set source stream for fpdi
-		gp.fpdi.SetSourceStream(v)
+		gp.setImportStream(*v)
 	default:
 		return errors.New("source type not supported")
 	}
@@ -1724,31 +1737,11 @@ func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) error {
 		// Add a new page to the document
 		gp.AddPage()
 
-		// gofpdi needs to know where to start the object id at.
-		// By default, it starts at 1, but gopdf adds a few objects initially.
-		startObjID := gp.GetNextObjectID()
-
-		// Set gofpdi next object ID to  whatever the value of startObjID is
-		gp.fpdi.SetNextObjectID(startObjID)
-
 		// Import page
-		tpl := gp.fpdi.ImportPage(pageno, box)
-
-		// Import objects into current pdf document
-		tplObjIDs := gp.fpdi.PutFormXobjects()
-
-		// Set template names and ids in gopdf
-		gp.ImportTemplates(tplObjIDs)
-
-		// Get a map[int]string of the imported objects.
-		// The map keys will be the ID of each object.
-		imported := gp.fpdi.GetImportedObjects()
-
-		// Import gofpdi objects into gopdf, starting at whatever the value of startObjID is
-		gp.ImportObjects(imported, startObjID)
+		tpl := gp.importPage(pageno, box)
 
 		// Draws the imported template on the current page
-		gp.UseImportedTemplate(tpl, 0, 0, size["w"], size["h"])
+		gp.UseImportedTemplate(tpl, 0, 0, gp.PointsToUnits(size["w"]), gp.PointsToUnits(size["h"]))
 	}
 
 	return nil
@@ -2262,6 +2255,8 @@ func (gp *GoPdf) init(importer ...*gofpdi.Importer) {
 
 	// init gofpdi free pdf document importer
 	gp.fpdi = importerOrDefault(importer...)
+	gp.importedTemplates = make(map[int]bool)
+	gp.importStreams = nil
 
 }
 
-- 
2.43.0


From 3d7e8de08f10083b780f3e87b7a42a9ab301a9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:07 +0000
Subject: [PATCH 25/52] fix: imported objects are encrypted in protected
 documents and end once

---
 gopdf.go        |   6 +-
 imported_obj.go | 150 ++++++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 150 insertions(+), 6 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index f16f346..b63c830 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1761,7 +1761,11 @@ func (gp *GoPdf) GetNumberOfPages() int {
 func (gp *GoPdf) ImportObjects(objs map[int]string, startObjID int) {
 	for i := startObjID; i < len(objs)+startObjID; i++ {
 		if objs[i] != "" {
-			gp.addObj(&ImportedObj{Data: objs[i]})
+			importedObj := &ImportedObj{Data: objs[i]}
+			importedObj.init(func() *GoPdf {
+				return gp
+			})
+			gp.addObj(importedObj)
 		}
 	}
 }
diff --git a/imported_obj.go b/imported_obj.go
index b42189b..d9068bd 100644
--- a/imported_obj.go
+++ b/imported_obj.go
@@ -1,16 +1,20 @@
 package gopdf
 
 import (
+	"bytes"
+	"encoding/hex"
 	"io"
+	"strings"
 )
 
 // ImportedObj : imported object
 type ImportedObj struct { //impl IObj
-	Data string
+	Data    string
+	getRoot func() *GoPdf
 }
 
 func (c *ImportedObj) init(funcGetRoot func() *GoPdf) {
-
+	c.getRoot = funcGetRoot
 }
 
 func (c *ImportedObj) getType() string {
@@ -18,8 +22,144 @@ func (c *ImportedObj) getType() string {
 }
 
 func (c *ImportedObj) write(w io.Writer, objID int) error {
-	if c != nil {
-		io.WriteString(w, c.Data)
+	if c == nil {
+		return nil
+	}
+	//gopdf writes the end of the object
+	data := strings.TrimSuffix(strings.TrimSuffix(c.Data, "\n"), "endobj")
+	if c.getRoot != nil && c.getRoot().protection() != nil {
+		var err error
+		if data, err = encryptImportedData(data, c.getRoot().protection(), objID); err != nil {
+			return err
+		}
+	}
+	_, err := io.WriteString(w, data)
+	return err
+}
+
+// encryptImportedData encrypts the strings and the stream of an object
+func encryptImportedData(data string, protection *PDFProtection, objID int) (string, error) {
+	const streamStart, streamEnd = "stream\n", "\nendstream\n"
+	var out bytes.Buffer
+	for i := 0; i < len(data); {
+		rest := data[i:]
+		switch {
+		case strings.HasPrefix(rest, "<<"):
+			out.WriteString("<<")
+			i += 2
+		case rest[0] == '(' || rest[0] == '<':
+			raw, n := importedString(rest)
+			encoded, err := encodeString(string(raw), protection, objID)
+			if err != nil {
+				return "", err
+			}
+			out.WriteString(encoded)
+			i += n
+		case strings.HasPrefix(rest, streamStart) && strings.HasSuffix(rest, streamEnd) && strings.HasSuffix(strings.TrimSpace(data[:i]), ">>"):
+			raw := rest[len(streamStart) : len(rest)-len(streamEnd)]
+			encrypted, err := rc4Cip(protection.objectkey(objID), []byte(raw))
+			if err != nil {
+				return "", err
+			}
+			out.WriteString(streamStart)
+			out.Write(encrypted)
+			out.WriteString(streamEnd)
+			i = len(data)
+		default:
+			out.WriteByte(rest[0])
+			i++
+		}
+	}
+	return out.String(), nil
+}
+
+// importedString decodes the literal or hexadecimal string at the start of data, and returns its length in data
+func importedString(data string) ([]byte, int) {
+	if data[0] == '<' {
+		end := strings.IndexByte(data, '>')
+		if end < 0 {
+			end = len(data) - 1
+		}
+		return hexStringBytes(data[1:end]), end + 1
+	}
+	var raw []byte
+	depth := 1
+	i := 1
+	for i < len(data) {
+		b := data[i]
+		i++
+		switch b {
+		case '(':
+			depth++
+		case ')':
+			depth--
+			if depth == 0 {
+				return raw, i
+			}
+		case '\r': //every end of line is a line feed
+			if i < len(data) && data[i] == '\n' {
+				i++
+			}
+			b = '\n'
+		case '\\':
+			var ok bool
+			if b, ok, i = escapedByte(data, i); !ok {
+				continue
+			}
+		}
+		raw = append(raw, b)
+	}
+	return raw, i
+}
+
+// escapedByte decodes what follows a backslash at i, ok is false for a continued line
+func escapedByte(data string, i int) (b byte, ok bool, next int) {
+	if i >= len(data) {
+		return 0, false, i
+	}
+	b = data[i]
+	i++
+	switch b {
+	case 'n':
+		return '\n', true, i
+	case 'r':
+		return '\r', true, i
+	case 't':
+		return '\t', true, i
+	case 'b':
+		return '\b', true, i
+	case 'f':
+		return '\f', true, i
+	case '\r':
+		if i < len(data) && data[i] == '\n' {
+			i++
+		}
+		return 0, false, i
+	case '\n':
+		return 0, false, i
+	}
+	if b < '0' || b > '7' {
+		return b, true, i
+	}
+	code := int(b - '0')
+	for n := 0; n < 2 && i < len(data) && data[i] >= '0' && data[i] <= '7'; n++ {
+		code = code*8 + int(data[i]-'0')
+		i++
+	}
+	return byte(code), true, i
+}
+
+func hexStringBytes(digits string) []byte {
+	var clean []byte
+	for i := 0; i < len(digits); i++ {
+		if strings.IndexByte("0123456789abcdefABCDEF", digits[i]) >= 0 {
+			clean = append(clean, digits[i])
+		}
+	}
+	if len(clean)%2 == 1 {
+		clean = append(clean, '0')
 	}
-	return nil
+	raw := make([]byte, len(clean)/2)
+	hex.Decode(raw, clean)
+	return raw
 }
-- 
2.43.0


From 32453f0a8a93df07b8ef9ee9c326ffea8cf50efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 26/52] fix: escape the names of fonts and color spaces

---
 color_space_obj.go |  4 ++--
 strhelper.go       | 20 +++++++++++++++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/color_space_obj.go b/color_space_obj.go
index f447fbf..82b2596 100644
--- a/color_space_obj.go
+++ b/color_space_obj.go
@@ -39,12 +39,12 @@ func (cs *ColorSpaceObj) SetColorRBG(r, g, b uint8) {
 	cs.colorString0 = "0.0 0.0 0.0"
 	cs.colorString1 = fmt.Sprintf("%.3f %.3f %.3f", float64(r)/255.0, float64(g)/255.0, float64(b)/255.0)
 	cs.space = "/DeviceRGB"
-	cs.spaceName = fmt.Sprintf("/%s", cs.Name)
+	cs.spaceName = "/" + escapeName(cs.Name)
 }
 
 func (cs *ColorSpaceObj) SetColorCMYK(c, m, y, k uint8) {
 	cs.colorString0 = "0.0 0.0 0.0 0.0"
 	cs.colorString1 = fmt.Sprintf("%.3f %.3f %.3f %.3f", float64(c)/100.0, float64(m)/100.0, float64(y)/100.0, float64(k)/100.0)
 	cs.space = "/DeviceCMYK"
-	cs.spaceName = fmt.Sprintf("/%s", cs.Name)
+	cs.spaceName = "/" + escapeName(cs.Name)
 }
diff --git a/strhelper.go b/strhelper.go
index b91af9d..8f29f3b 100644
--- a/strhelper.go
+++ b/strhelper.go
@@ -1,6 +1,7 @@
 package gopdf
 
 import (
+	"fmt"
 	"math/big"
 	"strings"
 )
@@ -28,7 +29,24 @@ func StrHelperGetStringWidthPrecise(str string, fontSize float64, ifont IFont) f
 func CreateEmbeddedFontSubsetName(name string) string {
 	name = strings.Replace(name, " ", "+", -1)
 	name = strings.Replace(name, "/", "+", -1)
-	return name
+	return escapeName(name)
+}
+
+// escapeName escapes the characters that can not be written as they are in a name of a pdf
+func escapeName(name string) string {
+	var buff strings.Builder
+	for i := 0; i < len(name); i++ {
+		ch := name[i]
+		switch {
+		case ch == 0: // not possible in a name
+			buff.WriteByte('+')
+		case ch <= ' ' || ch > '~' || strings.IndexByte("#()<>[]{}/%", ch) != -1:
+			fmt.Fprintf(&buff, "#%02X", ch)
+		default:
+			buff.WriteByte(ch)
+		}
+	}
+	return buff.String()
 }
 
 // ReadShortFromByte read short from byte array
-- 
2.43.0


From 5ce9c18b0ee30071218a80b23198dd80307fd773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:45 +0000
Subject: [PATCH 27/52] fix: protecting a document does not write into the
 arrays of the caller's passwords

---
 pdf_protection.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pdf_protection.go b/pdf_protection.go
index 6190938..da7462a 100644
--- a/pdf_protection.go
+++ b/pdf_protection.go
@@ -49,10 +49,8 @@ func (p *PDFProtection) setProtection(permissions int, userPass []byte, ownerPas
 
 func (p *PDFProtection) generateEncryptionKey(userPass []byte, ownerPass []byte, protection int) error {
 
-	userPass = append(userPass, protectionPadding...)
-	userPassWithPadding := userPass[0:32]
-	ownerPass = append(ownerPass, protectionPadding...)
-	ownerPassWithPadding := ownerPass[0:32]
+	userPassWithPadding := padPassword(userPass)
+	ownerPassWithPadding := padPassword(ownerPass)
 
 	//oValue
 	oValue, err := p.createOValue(userPassWithPadding, ownerPassWithPadding)
@@ -71,6 +69,14 @@ func (p *PDFProtection) generateEncryptionKey(userPass []byte, ownerPass []byte,
 	return nil
 }
 
+// padPassword makes a password of 32 bytes, in an array of its own
+func padPassword(pass []byte) []byte {
+	padded := make([]byte, 0, len(pass)+len(protectionPadding))
+	padded = append(padded, pass...)
+	padded = append(padded, protectionPadding...)
+	return padded[0:32]
+}
+
 // EncryptionObj get Encryption Object
 func (p *PDFProtection) EncryptionObj() *EncryptionObj {
 	return p.encryptionObj()
-- 
2.43.0


From 2c4d76f2c476a34fbf26ad10d6ee5e6c9cfcb158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 28/52] fix: the space between the lines of MultiCellWithOption
 does not depend on the unit

---
 gopdf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index b63c830..c9b096c 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1379,7 +1379,7 @@ func (gp *GoPdf) MultiCellWithOption(rectangle *Rect, text string, opt CellOptio
 		if l%2 != 0 {
 			shiftLines += 1
 		}
-		startHeight = rectangle.H - (lineHeight+1.5)*float64(shiftLines)
+		startHeight = rectangle.H - (lineHeight+gp.PointsToUnits(1.5))*float64(shiftLines)
 	}
 
 	lastLine := len(textSplits) - 1
-- 
2.43.0


From ef8bb8d1aacf56ac7171096fb5aca52a679283ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 29/52] fix: the underline follows the text of Text calls and
 of cells aligned to the middle or bottom

---
 cache_content_text.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cache_content_text.go b/cache_content_text.go
index e16d081..4e34d8f 100644
--- a/cache_content_text.go
+++ b/cache_content_text.go
@@ -405,7 +405,12 @@ func (c *cacheContentText) underline(w io.Writer) error {
 	underlinePositionPx := c.fontSubset.GetUnderlinePositionPx(c.fontSize) * coefUnderlinePosition
 	underlineThicknessPx := c.fontSubset.GetUnderlineThicknessPx(c.fontSize) * coefUnderlineThickness
 
-	yUnderlinePosition := c.pageHeight() - c.y + underlinePositionPx - baseline
+	//the baseline above is that of a text at the top of its cell, the underline stays with the text wherever it is
+	y, err := c.calY()
+	if err != nil {
+		return err
+	}
+	yUnderlinePosition := y + c.calTypoAscender() + underlinePositionPx - baseline
 	if _, err := fmt.Fprintf(w, "%0.2f %0.2f %0.2f %0.2f re f\n", c.x, yUnderlinePosition, c.cellWidthPdfUnit, underlineThicknessPx); err != nil {
 		return err
 	}
-- 
2.43.0


From 3ccef1395cf3e97520dc43956b74cef7c9c9828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:26 +0000
Subject: [PATCH 30/52] fix: word wrap does not break a word that just fits
 before a blank

---
 gopdf.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index c9b096c..0b83904 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1436,7 +1436,7 @@ func (gp *GoPdf) SplitTextWithOption(text string, width float64, opt *BreakOptio
 			// strict break to not exceed the desired width
 			forceBreak := false
 			if opt.Mode == BreakModeIndicatorSensitive {
-				forceBreak = !performIndicatorSensitiveLineBreak(&lineTexts, &lineText, &i, opt)
+				forceBreak = !performIndicatorSensitiveLineBreak(&lineTexts, &lineText, &i, utf8Texts[i], opt)
 			}
 			// BreakModeStrict breaks immediately with an optionally available separator
 			if opt.Mode == BreakModeStrict || forceBreak {
@@ -1554,7 +1554,13 @@ func (gp *GoPdf) FillInPlaceHoldText(placeHolderName string, text string, align
 	return nil
 }
 
-func performIndicatorSensitiveLineBreak(lineTexts *[]string, lineText *[]rune, i *int, opt *BreakOption) bool {
+func performIndicatorSensitiveLineBreak(lineTexts *[]string, lineText *[]rune, i *int, nextRune rune, opt *BreakOption) bool {
+	if nextRune == opt.BreakIndicator && (*lineText)[len(*lineText)-1] != opt.BreakIndicator {
+		// the line ends with a word that just fits
+		*lineTexts = append(*lineTexts, string(*lineText))
+		*lineText = (*lineText)[0:0]
+		return true
+	}
 	brIdx := breakIndicatorIndex(*lineText, opt.BreakIndicator)
 	if brIdx > 0 {
 		diff := len(*lineText) - brIdx
-- 
2.43.0


From 4277e656264d1d77a4d2b296baa9516f37cb7c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:02 +0000
Subject: [PATCH 31/52] fix: multi-line cells align the block of their lines to
 the middle and bottom

---
 gopdf.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 0b83904..a02a7ae 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1373,16 +1373,11 @@ func (gp *GoPdf) MultiCellWithOption(rectangle *Rect, text string, opt CellOptio
 		return err
 	}
 
-	startHeight := rectangle.H
-	if l := len(textSplits); l > 1 {
-		shiftLines := l / 2
-		if l%2 != 0 {
-			shiftLines += 1
-		}
-		startHeight = rectangle.H - (lineHeight+gp.PointsToUnits(1.5))*float64(shiftLines)
-	}
-
+	// the height of the cell of a line: that of the rectangle less all the
+	// line advances, so that the block of lines is aligned as a whole
 	lastLine := len(textSplits) - 1
+	startHeight := rectangle.H - lineHeight*float64(lastLine)
+
 	for i, text := range textSplits {
 		lineOpt := opt
 		lineOpt.Align = lineAlign(opt.Align, i == lastLine)
-- 
2.43.0


From 3907b1dd37f5994f7872cec50f6cd45c9941b703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:01 +0000
Subject: [PATCH 32/52] fix: the border of a table encloses all its rows

---
 table.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 3ec0027..a098d6a 100644
--- a/table.go
+++ b/table.go
@@ -240,7 +240,11 @@ func (t *tableLayout) drawTableAndHeaderBorder() error {
 	x1 := t.startX
 	y1 := t.startY
 	x2 := t.startX
-	y2 := t.startY + float64(t.maxRows+1)*t.rowHeight
+	numRows := t.maxRows
+	if numRows < len(t.rows) {
+		numRows = len(t.rows)
+	}
+	y2 := t.startY + float64(numRows+1)*t.rowHeight
 
 	for _, col := range t.columns {
 		x2 += col.width
-- 
2.43.0


From bf1276fc9b46a62a94b3c1eab89352fd889d949f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:04 +0000
Subject: [PATCH 33/52] fix: a table row with more cells than columns is an
 error, not a panic

---
 table.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/table.go b/table.go
index a098d6a..ffe0784 100644
--- a/table.go
+++ b/table.go
@@ -1,5 +1,7 @@
 package gopdf
 
+import "errors"
+
 // Represents an RGB color with red, green, and blue components
 type RGBColor struct {
 	R uint8 // Red component (0-255)
@@ -160,6 +162,12 @@ func (t *tableLayout) SetCellStyle(style CellStyle) {
 
 // DrawTable the entire table on the PDF
 func (t *tableLayout) DrawTable() error {
+	for _, row := range t.rows {
+		if len(row) > len(t.columns) {
+			return errors.New("row has more cells than the table has columns")
+		}
+	}
+
 	x := t.startX
 	y := t.startY
 
-- 
2.43.0


From 2cde6a87e1ebac9f502d1cd045cb6db147912627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:26 +0000
Subject: [PATCH 34/52] fix: a table style with an unknown font is reported

---
 table.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/table.go b/table.go
index ffe0784..41afe6b 100644
--- a/table.go
+++ b/table.go
@@ -313,7 +313,9 @@ func (t *tableLayout) drawCell(
 	// Set the text color and font
 	t.pdf.SetTextColor(style.TextColor.R, style.TextColor.G, style.TextColor.B)
 	if style.Font != "" {
-		t.pdf.SetFont(style.Font, "", style.FontSize)
+		if err := t.pdf.SetFont(style.Font, "", style.FontSize); err != nil {
+			return err
+		}
 	}
 
 	// Draw the cell content
-- 
2.43.0


From c207a2138ef8444d65814e105034d2ed5a0b39d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:08 +0000
Subject: [PATCH 35/52] fix: imported pages are drawn with the transparency of
 the document

---
 cache_content_imported_object.go | 8 +++++++-
 content_obj.go                   | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/cache_content_imported_object.go b/cache_content_imported_object.go
index 6c90260..17b9470 100644
--- a/cache_content_imported_object.go
+++ b/cache_content_imported_object.go
@@ -12,9 +12,15 @@ type cacheContentImportedTemplate struct {
 	scaleY     float64
 	tX         float64
 	tY         float64
+
+	extGStateIndexes []int
 }
 
 func (c *cacheContentImportedTemplate) write(w io.Writer, protection *PDFProtection) error {
-	fmt.Fprintf(w, "q 0 J 1 w 0 j 0 G 0 g q %.4F 0 0 %.4F %.4F %.4F cm %s Do Q Q\n", c.scaleX, c.scaleY, c.tX, c.tY+c.pageHeight, c.tplName)
+	fmt.Fprint(w, "q ")
+	for _, extGStateIndex := range c.extGStateIndexes {
+		fmt.Fprintf(w, "/GS%d gs ", extGStateIndex)
+	}
+	fmt.Fprintf(w, "0 J 1 w 0 j 0 G 0 g q %.4F 0 0 %.4F %.4F %.4F cm %s Do Q Q\n", c.scaleX, c.scaleY, c.tX, c.tY+c.pageHeight, c.tplName)
 	return nil
 }
diff --git a/content_obj.go b/content_obj.go
index dc9a27f..bbb6e26 100644
--- a/content_obj.go
+++ b/content_obj.go
@@ -260,6 +260,7 @@ func (c *ContentObj) AppendStreamImportedTemplate(tplName string, scaleX float64
 	cache.scaleY = scaleY
 	cache.tX = tX
 	cache.tY = tY
+	cache.extGStateIndexes = c.getRoot().currExtGStateIndexes()
 	c.listCache.append(&cache)
 }
 
-- 
2.43.0


From c9996efe437dd90efd3b93aa2bec3c7f19fff727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:10 +0000
Subject: [PATCH 36/52] fix: the transparency of the document is not applied a
 second time to the mask of an image

---
 gopdf.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index a02a7ae..3f8f15d 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -545,13 +545,16 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 	}
 
 	if opts.Mask != nil {
-		maskTransparency, err := gp.getCachedTransparency(opts.Mask.ImageOptions.Transparency)
-		if err != nil {
-			return err
-		}
+		// the transparency of the document is that of the image, the mask has only its own
+		if opts.Mask.ImageOptions.Transparency != nil {
+			maskTransparency, err := gp.getCachedTransparency(opts.Mask.ImageOptions.Transparency)
+			if err != nil {
+				return err
+			}
 
-		if maskTransparency != nil {
-			opts.Mask.ImageOptions.extGStateIndexes = append(opts.Mask.ImageOptions.extGStateIndexes, maskTransparency.extGStateIndex)
+			if maskTransparency != nil {
+				opts.Mask.ImageOptions.extGStateIndexes = append(opts.Mask.ImageOptions.extGStateIndexes, maskTransparency.extGStateIndex)
+			}
 		}
 
 		extGStateIndex, err := gp.addMask(maskImage, *opts.Mask)
-- 
2.43.0


From a673d96147c8616cf1d498604331fe0eec8ac41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:21 +0000
Subject: [PATCH 37/52] fix: a masked image that is flipped or cropped is
 rotated about the center of its visible rectangle

---
 cache_content_image.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/cache_content_image.go b/cache_content_image.go
index 9e4e3f6..70e2067 100644
--- a/cache_content_image.go
+++ b/cache_content_image.go
@@ -57,8 +57,16 @@ func (c *cacheContentImage) computeMaskImageRotateTrMt() string {
 		return ""
 	}
 
-	x := c.x + c.rect.W/2
-	y := c.y + c.rect.H/2
+	w := c.rect.W
+	h := c.rect.H
+
+	if c.crop != nil {
+		w = c.crop.Width
+		h = c.crop.Height
+	}
+
+	x := c.x + w/2
+	y := c.y + h/2
 
 	rotateMat := computeRotateTransformationMatrix(x, y, angle, c.pageHeight)
 
@@ -83,6 +91,11 @@ func (c *cacheContentImage) write(writer io.Writer, protection *PDFProtection) e
 		contentStream += fmt.Sprintf("/GS%d gs\n", extGStateIndex)
 	}
 
+	if c.withMask {
+		// only the image turns, the mask stays; what follows (flip and crop) turns with it
+		contentStream += c.computeMaskImageRotateTrMt()
+	}
+
 	if c.horizontalFlip || c.verticalFlip {
 		fh := "1"
 		if c.horizontalFlip {
@@ -134,12 +147,7 @@ func (c *cacheContentImage) write(writer io.Writer, protection *PDFProtection) e
 		}
 	}
 
-	var maskImageRotateMat string
-	if c.withMask {
-		maskImageRotateMat = c.computeMaskImageRotateTrMt()
-	}
-
-	contentStream += fmt.Sprintf("q\n %s %0.2f 0 0\n %0.2f %0.2f %0.2f cm /I%d Do \nQ\n", maskImageRotateMat, width, height, x, y, c.index+1)
+	contentStream += fmt.Sprintf("q\n %0.2f 0 0\n %0.2f %0.2f %0.2f cm /I%d Do \nQ\n", width, height, x, y, c.index+1)
 
 	contentStream += "Q\n"
 
-- 
2.43.0


From 94fe025cdfb0668af158844a3adb91a02eff720b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 38/52] fix: marks before the first letter are kept when Arabic
 text is shaped

---
 arabic_helper.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/arabic_helper.go b/arabic_helper.go
index 91148eb..b182ccb 100644
--- a/arabic_helper.go
+++ b/arabic_helper.go
@@ -29,10 +29,8 @@ func reverseWithTashkeel(runes []rune) string {
 	var currentGroup *hrofGroup
 
 	for _, r := range runes {
-		if IsTashkeel(r) {
-			if currentGroup != nil {
-				currentGroup.tashkeel = append(currentGroup.tashkeel, r)
-			}
+		if IsTashkeel(r) && currentGroup != nil {
+			currentGroup.tashkeel = append(currentGroup.tashkeel, r)
 		} else {
 			groups = append(groups, hrofGroup{base: r})
 			currentGroup = &groups[len(groups)-1]
-- 
2.43.0


From a5461434b429acdfb8e466114d5c20255d4c29f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:39 +0000
Subject: [PATCH 39/52] fix: letters do not join a hamza, nor the letter after
 jeh, and teh marbuta keeps its final form

---
 arabic_alphabet.go | 3 ++-
 arabic_helper.go   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/arabic_alphabet.go b/arabic_alphabet.go
index 5fb34d7..9716001 100644
--- a/arabic_alphabet.go
+++ b/arabic_alphabet.go
@@ -142,7 +142,7 @@ var (
 		Unicode:   '\u0629',
 		Isolated:  '\ufe93',
 		Beginning: '\u0629',
-		Middle:    '\u0629',
+		Middle:    '\ufe94',
 		Final:     '\ufe94'}
 
 	THEH = Harf{ // ث
@@ -459,6 +459,7 @@ var rightJoiningOnlyLetters = map[Harf]bool{
 	DAL:              true,
 	THAL:             true,
 	REH:              true,
+	JEH:              true,
 	ZAIN:             true,
 	WAW:              true,
 	ALEF_MAKSURA:     true}
diff --git a/arabic_helper.go b/arabic_helper.go
index b182ccb..4256558 100644
--- a/arabic_helper.go
+++ b/arabic_helper.go
@@ -85,7 +85,7 @@ func getCharShape(previousChar, currentChar, nextChar rune) rune {
 		previousArabic = true
 	}
 
-	if _, ok := arabicAlphabet[nextChar]; ok {
+	if next, ok := arabicAlphabet[nextChar]; ok && next != HAMZA { // no letter joins a hamza
 		nextArabic = true
 	}
 
-- 
2.43.0


From 4e590a61e1c6889364e2276269c480b394ca0e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:42 +0000
Subject: [PATCH 40/52] fix: form the ligatures of lam with alef madda and alef
 with hamza below

---
 arabic_alphabet.go | 24 +++++++++++++++++++++++-
 arabic_helper.go   |  6 ++++++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/arabic_alphabet.go b/arabic_alphabet.go
index 9716001..bce52d2 100644
--- a/arabic_alphabet.go
+++ b/arabic_alphabet.go
@@ -384,6 +384,20 @@ var (
 		Beginning: '\ufef7',
 		Middle:    '\ufef8',
 		Final:     '\ufef8'}
+
+	LAM_ALEF_MADDA_ABOVE = Harf{ // ﻵ
+		Unicode:   '\ufef5',
+		Isolated:  '\ufef5',
+		Beginning: '\ufef5',
+		Middle:    '\ufef6',
+		Final:     '\ufef6'}
+
+	LAM_ALEF_HAMZA_BELOW = Harf{ // ﻹ
+		Unicode:   '\ufef9',
+		Isolated:  '\ufef9',
+		Beginning: '\ufef9',
+		Middle:    '\ufefa',
+		Final:     '\ufefa'}
 )
 
 var arabicAlphabet = map[rune]Harf{}
@@ -434,6 +448,8 @@ var arabicAlphabetCollection = []Harf{
 	TATWEEL,
 	LAM_ALEF,
 	LAM_ALEF_HAMZA_ABOVE,
+	LAM_ALEF_MADDA_ABOVE,
+	LAM_ALEF_HAMZA_BELOW,
 }
 
 func init() {
@@ -462,4 +478,10 @@ var rightJoiningOnlyLetters = map[Harf]bool{
 	JEH:              true,
 	ZAIN:             true,
 	WAW:              true,
-	ALEF_MAKSURA:     true}
+	ALEF_MAKSURA:     true,
+
+	LAM_ALEF:             true,
+	LAM_ALEF_HAMZA_ABOVE: true,
+	LAM_ALEF_MADDA_ABOVE: true,
+	LAM_ALEF_HAMZA_BELOW: true,
+}
diff --git a/arabic_helper.go b/arabic_helper.go
index 4256558..17f03ff 100644
--- a/arabic_helper.go
+++ b/arabic_helper.go
@@ -188,6 +188,12 @@ func ToArabic(text string) string {
 			case ALEF_HAMZA_ABOVE.Unicode:
 				ligatureHarf = LAM_ALEF_HAMZA_ABOVE.Unicode
 				foundLigature = true
+			case ALEF_MADDA_ABOVE.Unicode:
+				ligatureHarf = LAM_ALEF_MADDA_ABOVE.Unicode
+				foundLigature = true
+			case ALEF_HAMZA_BELOW.Unicode:
+				ligatureHarf = LAM_ALEF_HAMZA_BELOW.Unicode
+				foundLigature = true
 			}
 			if foundLigature {
 				currentHarf = ligatureHarf
-- 
2.43.0


From 2eab77aed42d4cb22f4e1f4a3108c9dc76271dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 41/52] fix: only the whole word is replaced with the ligature
 of Allah

---
 arabic_helper.go | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/arabic_helper.go b/arabic_helper.go
index 17f03ff..ade8421 100644
--- a/arabic_helper.go
+++ b/arabic_helper.go
@@ -5,12 +5,42 @@ import "strings"
 // ALLAH_LIGATURE is the Unicode character for the Allah ligature (U+FDF2 ﷲ)
 const ALLAH_LIGATURE rune = 0xFDF2
 
-// convertAllahToLigature replaces the word "الله" (Allah) with the Allah ligature U+FDF2 (ﷲ)
+// convertAllahToLigature replaces the word "الله" (Allah) with the Allah ligature U+FDF2 (ﷲ).
+// The ligature has no joining forms, so it does not replace the letters where they are
+// joined to other letters of the word.
 func convertAllahToLigature(text string) string {
 	// الله without tashkeel: Alef + Lam + Lam + Heh
 	allah := string([]rune{ALEF.Unicode, LAM.Unicode, LAM.Unicode, HEH.Unicode})
-	// Replace with the Allah ligature character
-	return strings.ReplaceAll(text, allah, string(ALLAH_LIGATURE))
+	if !strings.Contains(text, allah) {
+		return text
+	}
+	runes := []rune(text)
+	length := len([]rune(allah))
+	result := make([]rune, 0, len(runes))
+	for i := 0; i < len(runes); i++ {
+		if i+length <= len(runes) && string(runes[i:i+length]) == allah &&
+			!joinsNextHarf(findPreviousNonTashkeelHarf(runes, i)) &&
+			!joinsPreviousHarf(findNextNonTashkeelHarf(runes, i+length-1)) {
+			// Replace with the Allah ligature character
+			result = append(result, ALLAH_LIGATURE)
+			i += length - 1
+			continue
+		}
+		result = append(result, runes[i])
+	}
+	return string(result)
+}
+
+// joinsNextHarf returns true if the character joins an Arabic letter after it
+func joinsNextHarf(char rune) bool {
+	harf, ok := arabicAlphabet[char]
+	return ok && !rightJoiningOnlyLetters[harf]
+}
+
+// joinsPreviousHarf returns true if the character joins an Arabic letter before it
+func joinsPreviousHarf(char rune) bool {
+	harf, ok := arabicAlphabet[char]
+	return ok && harf != HAMZA
 }
 
 // reverseWithTashkeel reverses Arabic text while keeping tashkeel attached to base characters
-- 
2.43.0


From bbf1346805252307e7391ba4a4933e4a76b0ae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 42/52] fix: pages are imported by the box that stands in for
 one they do not have

---
 gopdf.go | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 3f8f15d..8204287 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1611,7 +1611,7 @@ func (gp *GoPdf) ImportPage(sourceFile string, pageno int, box string) int {
 	// Set source file for fpdi
 	gp.fpdi.SetSourceFile(sourceFile)
 
-	return gp.importPage(pageno, box)
+	return gp.importPage(pageno, gp.importBox(box))
 }
 
 // ImportPageStream imports page using a stream.
@@ -1621,7 +1621,7 @@ func (gp *GoPdf) ImportPageStream(sourceStream *io.ReadSeeker, pageno int, box s
 	// Set source file for fpdi
 	gp.setImportStream(*sourceStream)
 
-	return gp.importPage(pageno, box)
+	return gp.importPage(pageno, gp.importBox(box))
 }
 
 // importPage imports a page of the current source of gofpdi
@@ -1656,6 +1656,30 @@ func (gp *GoPdf) importPage(pageno int, box string) int {
 	return tpl
 }
 
+// importBox returns the box to import pages of the current source of gofpdi by, which takes
+// the boxes of all pages from the first one
+func (gp *GoPdf) importBox(box string) string {
+	if box == "/MediaBox" {
+		return box
+	}
+	return boxOrDefault(gp.fpdi.GetPageSizes()[1], box)
+}
+
+// boxOrDefault returns the name of the box that a page uses for a box it may not have
+func boxOrDefault(boxes map[string]map[string]float64, box string) string {
+	for len(boxes[box]) == 0 {
+		switch box {
+		case "/BleedBox", "/TrimBox", "/ArtBox":
+			box = "/CropBox"
+		case "/CropBox":
+			box = "/MediaBox"
+		default:
+			return box
+		}
+	}
+	return box
+}
+
 // importedTemplateName is the name of an imported template in the resources of the pages
 func importedTemplateName(tplid int) string {
 	return fmt.Sprintf("/GOFPDITPL%d", tplid)
@@ -1729,12 +1753,14 @@ func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) error {
 	// Get page sizes from source file
 	sizes := gp.fpdi.GetPageSizes()
 
+	importBox := boxOrDefault(sizes[1], box)
+
 	for i := 0; i < pages; i++ {
 		pageno := i + 1
 
 		// Get the size of the page
-		size, ok := sizes[pageno][box]
-		if !ok {
+		size := sizes[pageno][boxOrDefault(sizes[pageno], box)]
+		if len(size) == 0 {
 			return errors.New("can not get page size")
 		}
 
@@ -1742,7 +1768,7 @@ func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) error {
 		gp.AddPage()
 
 		// Import page
-		tpl := gp.importPage(pageno, box)
+		tpl := gp.importPage(pageno, importBox)
 
 		// Draws the imported template on the current page
 		gp.UseImportedTemplate(tpl, 0, 0, gp.PointsToUnits(size["w"]), gp.PointsToUnits(size["h"]))
-- 
2.43.0


From b957650ca1306972e031e26bab38f7ec00d74a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:35 +0000
Subject: [PATCH 43/52] fix: a template drawn without width or height keeps its
 own proportions

---
 gopdf.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gopdf.go b/gopdf.go
index 8204287..bcd315d 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1719,6 +1719,17 @@ func (gp *GoPdf) GetPageSizes(sourceFile string) map[int]map[string]map[string]f
 // UseImportedTemplate draws an imported PDF page.
 func (gp *GoPdf) UseImportedTemplate(tplid int, x float64, y float64, w float64, h float64) {
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
+	if w == 0 || h == 0 {
+		// gofpdi would take the missing size from the first template of the source
+		_, scaleX, scaleY, _, _ := gp.fpdi.UseTemplate(tplid, 0, 0, 1, 1)
+		if w == 0 && h == 0 {
+			w, h = 1/scaleX, 1/scaleY
+		} else if w == 0 {
+			w = h * scaleY / scaleX
+		} else {
+			h = w * scaleX / scaleY
+		}
+	}
 	// Get template values to draw
 	tplName, scaleX, scaleY, tX, tY := gp.fpdi.UseTemplate(tplid, x, y, w, h)
 	if gp.importedTemplates[tplid] {
-- 
2.43.0


From 1cae8a36365c6ace1aab7e0ad44b5c9a338795fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:24 +0000
Subject: [PATCH 44/52] fix: imported pages are drawn without the line type and
 character spacing of the document

---
 cache_content_imported_object.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache_content_imported_object.go b/cache_content_imported_object.go
index 17b9470..7b3014d 100644
--- a/cache_content_imported_object.go
+++ b/cache_content_imported_object.go
@@ -21,6 +21,6 @@ func (c *cacheContentImportedTemplate) write(w io.Writer, protection *PDFProtect
 	for _, extGStateIndex := range c.extGStateIndexes {
 		fmt.Fprintf(w, "/GS%d gs ", extGStateIndex)
 	}
-	fmt.Fprintf(w, "0 J 1 w 0 j 0 G 0 g q %.4F 0 0 %.4F %.4F %.4F cm %s Do Q Q\n", c.scaleX, c.scaleY, c.tX, c.tY+c.pageHeight, c.tplName)
+	fmt.Fprintf(w, "0 J 1 w 0 j [] 0 d 0 Tc 0 G 0 g q %.4F 0 0 %.4F %.4F %.4F cm %s Do Q Q\n", c.scaleX, c.scaleY, c.tX, c.tY+c.pageHeight, c.tplName)
 	return nil
 }
-- 
2.43.0


From 439088e40586044857ce4e10e1337032d0940eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:51 +0000
Subject: [PATCH 45/52] fix: pages imported from a source keep their
 proportions when they are rotated

---
 gopdf.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index bcd315d..0260f73 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1781,8 +1781,17 @@ func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) error {
 		// Import page
 		tpl := gp.importPage(pageno, importBox)
 
+		// A page rotated by a quarter turn is as wide as its box is high. gofpdi turns the size of
+		// the template, which it takes from the first page
+		w, h := size["w"], size["h"]
+		first := sizes[1][importBox]
+		_, scaleX, scaleY, _, _ := gp.fpdi.UseTemplate(tpl, 0, 0, first["h"], first["w"])
+		if first["w"] != first["h"] && scaleX == 1 && scaleY == 1 {
+			w, h = h, w
+		}
+
 		// Draws the imported template on the current page
-		gp.UseImportedTemplate(tpl, 0, 0, gp.PointsToUnits(size["w"]), gp.PointsToUnits(size["h"]))
+		gp.UseImportedTemplate(tpl, 0, 0, gp.PointsToUnits(w), gp.PointsToUnits(h))
 	}
 
 	return nil
-- 
2.43.0


From d2665213647d407bd1692dc4602e2f639efbbfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:41 +0000
Subject: [PATCH 46/52] fix: Read after GetBytesPdf gives the document as it
 is, not as it was

---
 gopdf.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 0260f73..05e79b2 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1157,12 +1157,10 @@ func (cw *countingWriter) Write(b []byte) (int, error) {
 
 // GetBytesPdfReturnErr : get bytes of pdf file
 func (gp *GoPdf) GetBytesPdfReturnErr() ([]byte, error) {
-	err := gp.Close()
-	if err != nil {
-		return nil, err
-	}
-	_, err = gp.compilePdf(&gp.buf)
-	return gp.buf.Bytes(), err
+	// not gp.buf: what is read later is the document as it is then
+	var buf bytes.Buffer
+	_, err := gp.compilePdf(&buf)
+	return buf.Bytes(), err
 }
 
 // GetBytesPdf : get bytes of pdf file
-- 
2.43.0


From 9f70978adf77555df758295908a3b7a2979489fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:43 +0000
Subject: [PATCH 47/52] fix: kerning pairs of every horizontal kern subtable
 are read, and of no other

---
 fontmaker/core/ttfparser_kern.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/fontmaker/core/ttfparser_kern.go b/fontmaker/core/ttfparser_kern.go
index 235a177..0ab6165 100644
--- a/fontmaker/core/ttfparser_kern.go
+++ b/fontmaker/core/ttfparser_kern.go
@@ -2,7 +2,6 @@ package core
 
 import (
 	"bytes"
-	"fmt"
 )
 
 // Parsekern parse kerning table  https://www.microsoft.com/typography/otspec/kern.htm
@@ -17,6 +16,7 @@ func (t *TTFParser) Parsekern(fd *bytes.Reader) error {
 	}
 
 	t.kern = new(KernTable) //init
+	t.kern.Kerning = make(KernMap)
 
 	version, err := t.ReadUShort(fd)
 	if err != nil {
@@ -44,7 +44,11 @@ func (t *TTFParser) Parsekern(fd *bytes.Reader) error {
 
 func (t *TTFParser) parsekernSubTable(fd *bytes.Reader) error {
 
-	err := t.Skip(fd, 2+2) //skip version and length
+	err := t.Skip(fd, 2) //skip version
+	if err != nil {
+		return err
+	}
+	length, err := t.ReadUShort(fd)
 	if err != nil {
 		return err
 	}
@@ -53,17 +57,14 @@ func (t *TTFParser) parsekernSubTable(fd *bytes.Reader) error {
 		return err
 	}
 
-	format := coverage & 0xf0
-	t.kern.Kerning = make(KernMap) //init
-	if format == 0 {
-		return t.parsekernSubTableFormat0(fd)
-	} else {
-		//not support other format yet
-		return fmt.Errorf("not support kerning format %d", format)
+	//bit 0: horizontal, bit 1: minimum, bit 2: cross-stream, bit 3: override, bits 8-15: format
+	if coverage&^8 != 1 {
+		return t.Skip(fd, int(length)-6) //only horizontal kerning pairs (format 0) are supported
 	}
+	return t.parsekernSubTableFormat0(fd, coverage&8 != 0)
 }
 
-func (t *TTFParser) parsekernSubTableFormat0(fd *bytes.Reader) error {
+func (t *TTFParser) parsekernSubTableFormat0(fd *bytes.Reader, override bool) error {
 	nPairs, err := t.ReadUShort(fd)
 	if err != nil {
 		return err
@@ -95,6 +96,9 @@ func (t *TTFParser) parsekernSubTableFormat0(fd *bytes.Reader) error {
 			kval[right] = value
 			t.kern.Kerning[left] = kval
 		} else {
+			if !override {
+				value += (t.kern.Kerning[left])[right]
+			}
 			(t.kern.Kerning[left])[right] = value
 		}
 		//_ = fmt.Sprintf("nPairs %d left %d right %d value %d\n", nPairs, left, right, value) //debug
-- 
2.43.0


From 47fe03c5b363784e0b01400271c352f065e3a242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:38 +0000
Subject: [PATCH 48/52] fix: the box of a mask group contains the mask when its
 image is outside of the page

---
 gopdf.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 05e79b2..884496e 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -691,15 +691,21 @@ func (gp *GoPdf) addMask(img *loadedImage, opts MaskOptions) (int, error) {
 func (gp *GoPdf) createTransparencyXObjectGroup(image *cacheContentImage, opts MaskOptions) (int, error) {
 	bbox := opts.BBox
 	if bbox == nil {
+		w, h := image.rect.W, image.rect.H
+		if image.crop != nil {
+			w, h = image.crop.Width, image.crop.Height
+		}
+		bottom := image.pageHeight - image.y - h
 		bbox = &[4]float64{
 			// correct BBox values is [opts.X, gp.curr.pageSize.H - opts.Y - opts.Rect.H, opts.X + opts.Rect.W, gp.curr.pageSize.H - opts.Y]
 			// but if compress pdf through ghostscript result file can't open correctly in mac viewer, because mac viewer can't parse BBox value correctly
 			// all other viewers parse BBox correctly (like Adobe Acrobat Reader, Chrome, even Internet Explorer)
 			// that's why we need to set [0, 0, gp.curr.pageSize.W, gp.curr.pageSize.H]
-			-gp.curr.pageSize.W * 2,
-			-gp.curr.pageSize.H * 2,
-			gp.curr.pageSize.W * 2,
-			gp.curr.pageSize.H * 2,
+			// (a mask that is outside of these, where a rotation may bring it onto the page, extends them)
+			math.Min(-gp.curr.pageSize.W*2, image.x),
+			math.Min(-gp.curr.pageSize.H*2, bottom),
+			math.Max(gp.curr.pageSize.W*2, image.x+w),
+			math.Max(gp.curr.pageSize.H*2, bottom+h),
 			// Also, Chrome pdf viewer incorrectly recognize BBox value, that's why we need to set twice as much value
 			// for every mask element will be displayed
 		}
-- 
2.43.0


From b0d3b5f2c6c87b087c821f53dcb16a999a1ddfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:28 +0000
Subject: [PATCH 49/52] fix: GetNumberOfPages counts only the pages of the
 document started last

---
 gopdf.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gopdf.go b/gopdf.go
index 884496e..18c18a5 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2298,6 +2298,7 @@ func (gp *GoPdf) init(importer ...*gofpdi.Importer) {
 	//init index
 	gp.indexOfPagesObj = -1
 	gp.indexOfFirstPageObj = -1
+	gp.numOfPagesObj = 0
 	gp.indexOfContent = -1
 
 	//No underline
-- 
2.43.0


From c5fb25d6b3ad99633285e8db7b586fdae586c7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:53 +0000
Subject: [PATCH 50/52] fix: ImageFrom takes images of every color model, not
 only those whose PNG has 8 bits per channel

---
 gopdf.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index 18c18a5..1ca5743 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"image"
+	"image/color"
 	"image/jpeg"
 	"image/png"
 	"io"
@@ -806,6 +807,30 @@ func (gp *GoPdf) ImageFrom(img image.Image, x float64, y float64, rect *Rect) er
 	})
 }
 
+// nrgbaImage is an image that png.Encode writes with 8 bits per channel
+type nrgbaImage struct {
+	image.Image
+}
+
+func (nrgbaImage) ColorModel() color.Model {
+	return color.NRGBAModel
+}
+
+// imageWith8BitsPerChannel returns the image as one that png.Encode writes with 8 bits per channel,
+// PNGs with 16 bits (the ones of all other color models) are not supported.
+func imageWith8BitsPerChannel(img image.Image) image.Image {
+	switch img.ColorModel() {
+	case color.GrayModel, color.RGBAModel, color.NRGBAModel, color.AlphaModel:
+		return img
+	}
+	if _, ok := img.(image.PalettedImage); ok {
+		if _, ok := img.ColorModel().(color.Palette); ok {
+			return img
+		}
+	}
+	return nrgbaImage{img}
+}
+
 func (gp *GoPdf) ImageFromWithOption(img image.Image, opts ImageFromOption) error {
 	if img == nil {
 		return errors.New("Invalid image")
@@ -819,7 +844,7 @@ func (gp *GoPdf) ImageFromWithOption(img image.Image, opts ImageFromOption) erro
 		var err error
 		switch opts.Format {
 		case "png":
-			err = png.Encode(bw, img)
+			err = png.Encode(bw, imageWith8BitsPerChannel(img))
 		case "jpeg":
 			err = jpeg.Encode(bw, img, nil)
 		}
-- 
2.43.0


From 46e4293cc84f73c10969aff7a0661cd55a65877e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:20 +0000
Subject: [PATCH 51/52] fix: TTFParser keeps a copy of the font data it is
 given, so the caller may reuse the slice

---
 fontmaker/core/ttfparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontmaker/core/ttfparser.go b/fontmaker/core/ttfparser.go
index 7c3e454..310916c 100644
--- a/fontmaker/core/ttfparser.go
+++ b/fontmaker/core/ttfparser.go
@@ -326,7 +326,7 @@ func (t *TTFParser) ParseFontData(fontData []byte) error {
 		return err
 	}
 
-	t.cachedFontData = fontData
+	t.cachedFontData = append([]byte(nil), fontData...) //the caller may use his slice for something else
 
 	return nil
 }
-- 
2.43.0


From 395b8a4bc1e8e027363480f6c261d7174e1b57ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:23 +0000
Subject: [PATCH 52/52] fix: AddStyledRow keeps a copy of the row, like AddRow,
 so the caller may reuse the slice

---
 table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 41afe6b..b2b252d 100644
--- a/table.go
+++ b/table.go
@@ -142,7 +142,7 @@ func (t *tableLayout) AddRow(row []string) {
 // Adds a row of data to the table with individual styled cells
 // Useful for styling individual cells in a row
 func (t *tableLayout) AddStyledRow(row []RowCell) {
-	t.rows = append(t.rows, row)
+	t.rows = append(t.rows, append([]RowCell(nil), row...)) // the caller may use his slice for the next row
 }
 
 // Sets the style for the entire table
-- 
2.43.0

