From 074d3f29547e31f5cb37e2624da0c7880097b226 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 01/71] fix: compiling a document twice no longer duplicates
 its pages and contents

---
 cache_content_imported_object.go |  4 ++--
 gopdf.go                         | 17 +++++++++--------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/cache_content_imported_object.go b/cache_content_imported_object.go
index a7dca9a..610ade4 100644
--- a/cache_content_imported_object.go
+++ b/cache_content_imported_object.go
@@ -15,7 +15,7 @@ type cacheContentImportedTemplate struct {
 }
 
 func (c *cacheContentImportedTemplate) write(w io.Writer, protection *PDFProtection) error {
-	c.tY += c.pageHeight
-	fmt.Fprintf(w, "q 0 J 1 w 0 j 0 G 0 g q %.4F 0 0 %.4F %.4F %.4F cm %s Do Q Q\n", c.scaleX, c.scaleY, c.tX, c.tY, c.tplName)
+	tY := c.tY + c.pageHeight
+	fmt.Fprintf(w, "q 0 J 1 w 0 j 0 G 0 g q %.4F 0 0 %.4F %.4F %.4F cm %s Do Q Q\n", c.scaleX, c.scaleY, c.tX, tY, c.tplName)
 	return nil
 }
diff --git a/gopdf.go b/gopdf.go
index 44c4435..5370613 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1084,12 +1084,9 @@ func (cw *countingWriter) Write(b []byte) (int, error) {
 
 // GetBytesPdfReturnErr : get bytes of pdf file
 func (gp *GoPdf) GetBytesPdfReturnErr() ([]byte, error) {
-	err := gp.Close()
-	if err != nil {
-		return nil, err
-	}
-	_, err = gp.compilePdf(&gp.buf)
-	return gp.buf.Bytes(), err
+	var buf bytes.Buffer
+	_, err := gp.compilePdf(&buf)
+	return buf.Bytes(), err
 }
 
 // GetBytesPdf : get bytes of pdf file
@@ -2235,9 +2232,9 @@ func (gp *GoPdf) protection() *PDFProtection {
 
 func (gp *GoPdf) prepare() {
 
-	if gp.isUseProtection() {
+	if gp.isUseProtection() && gp.encryptionObjID == 0 {
 		encObj := gp.pdfProtection.encryptionObj()
-		gp.addObj(encObj)
+		gp.encryptionObjID = gp.addObj(encObj) + 1
 	}
 
 	if gp.outlines.Count() > 0 {
@@ -2248,6 +2245,9 @@ func (gp *GoPdf) prepare() {
 	if gp.indexOfPagesObj != -1 {
 		indexCurrPage := -1
 		pagesObj := gp.pdfObjs[gp.indexOfPagesObj].(*PagesObj)
+		// the document may be compiled more than once: start over each time
+		pagesObj.Kids = ""
+		pagesObj.PageCount = 0
 		i := 0 //gp.indexOfFirstPageObj
 		max := len(gp.pdfObjs)
 		for i < max {
@@ -2257,6 +2257,7 @@ func (gp *GoPdf) prepare() {
 				pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)
 				pagesObj.PageCount++
 				indexCurrPage = i
+				gp.pdfObjs[i].(*PageObj).Contents = ""
 			case "Content":
 				if indexCurrPage != -1 {
 					gp.pdfObjs[indexCurrPage].(*PageObj).Contents = fmt.Sprintf("%s %d 0 R ", gp.pdfObjs[indexCurrPage].(*PageObj).Contents, i+1)
-- 
2.43.0


From 88d85c235b6c32781df13abb61d187158ac2bd8d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 02/71] fix: SetPage selects the page itself, and content drawn
 there stays on that page

---
 content_obj.go |  3 ++-
 gopdf.go       | 34 +++++++++++++++++++++++++---------
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/content_obj.go b/content_obj.go
index 6dad489..d97cb00 100644
--- a/content_obj.go
+++ b/content_obj.go
@@ -11,7 +11,8 @@ import (
 type ContentObj struct { //impl IObj
 	listCache listCacheContent
 	//text bytes.Buffer
-	getRoot func() *GoPdf
+	indexOfPageObj int //index of the page this content belongs to, -1 if there is none
+	getRoot        func() *GoPdf
 }
 
 func (c *ContentObj) protection() *PDFProtection {
diff --git a/gopdf.go b/gopdf.go
index 5370613..4ffdebd 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2243,7 +2243,6 @@ func (gp *GoPdf) prepare() {
 	}
 
 	if gp.indexOfPagesObj != -1 {
-		indexCurrPage := -1
 		pagesObj := gp.pdfObjs[gp.indexOfPagesObj].(*PagesObj)
 		// the document may be compiled more than once: start over each time
 		pagesObj.Kids = ""
@@ -2256,10 +2255,9 @@ func (gp *GoPdf) prepare() {
 			case "Page":
 				pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)
 				pagesObj.PageCount++
-				indexCurrPage = i
 				gp.pdfObjs[i].(*PageObj).Contents = ""
 			case "Content":
-				if indexCurrPage != -1 {
+				if indexCurrPage := gp.pdfObjs[i].(*ContentObj).indexOfPageObj; indexCurrPage != -1 {
 					gp.pdfObjs[indexCurrPage].(*PageObj).Contents = fmt.Sprintf("%s %d 0 R ", gp.pdfObjs[indexCurrPage].(*PageObj).Contents, i+1)
 				}
 			case "Font":
@@ -2369,6 +2367,7 @@ func (gp *GoPdf) getContent() *ContentObj {
 		content.init(func() *GoPdf {
 			return gp
 		})
+		content.indexOfPageObj = gp.curr.IndexOfPageObj
 		gp.indexOfContent = gp.addObj(content)
 	} else {
 		content = gp.pdfObjs[gp.indexOfContent].(*ContentObj)
@@ -2482,14 +2481,31 @@ func (gp *GoPdf) IsCurrFontContainGlyph(r rune) (bool, error) {
 func (gp *GoPdf) SetPage(pageno int) error {
 	var pageIndex int
 	for i := 0; i < len(gp.pdfObjs); i++ {
-		switch gp.pdfObjs[i].(type) {
-		case *ContentObj:
-			pageIndex += 1
-			if pageIndex == pageno {
-				gp.indexOfContent = i
-				return nil
+		page, ok := gp.pdfObjs[i].(*PageObj)
+		if !ok {
+			continue
+		}
+		pageIndex += 1
+		if pageIndex != pageno {
+			continue
+		}
+		gp.curr.IndexOfPageObj = i
+		gp.curr.pageSize = &gp.config.PageSize
+		gp.curr.trimBox = &gp.config.TrimBox
+		if page.pageOption.PageSize != nil {
+			gp.curr.pageSize = page.pageOption.PageSize
+		}
+		if page.pageOption.isTrimBoxSet() {
+			gp.curr.trimBox = page.pageOption.TrimBox
+		}
+		gp.indexOfContent = -1
+		for j := range gp.pdfObjs {
+			if content, ok := gp.pdfObjs[j].(*ContentObj); ok && content.indexOfPageObj == i {
+				gp.indexOfContent = j
+				break
 			}
 		}
+		return nil
 	}
 
 	return errors.New("invalid page number")
-- 
2.43.0


From 12a9195ec52a7e5f1d732da6e8bb99d9ea66992f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 03/71] fix: the document's default trim box and a page's own
 trim box without a page size are written

---
 gopdf.go    | 14 ++++++--------
 page_obj.go |  7 +++++--
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 4ffdebd..7c851ff 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -812,16 +812,14 @@ func (gp *GoPdf) AddPageWithOption(opt PageOption) {
 		return gp
 	})
 
+	page.setOption(opt)
+	gp.curr.pageSize = &gp.config.PageSize
+	gp.curr.trimBox = &gp.config.TrimBox
 	if !opt.isEmpty() { //use page option
-		page.setOption(opt)
 		gp.curr.pageSize = opt.PageSize
-
-		if opt.isTrimBoxSet() {
-			gp.curr.trimBox = opt.TrimBox
-		}
-	} else { //use default
-		gp.curr.pageSize = &gp.config.PageSize
-		gp.curr.trimBox = &gp.config.TrimBox
+	}
+	if opt.isTrimBoxSet() {
+		gp.curr.trimBox = opt.TrimBox
 	}
 
 	page.ResourcesRelate = strconv.Itoa(gp.indexOfProcSet+1) + " 0 R"
diff --git a/page_obj.go b/page_obj.go
index a8e6463..12a2ab6 100644
--- a/page_obj.go
+++ b/page_obj.go
@@ -58,8 +58,11 @@ func (p *PageObj) write(w io.Writer, objID int) error {
 	if !p.pageOption.isEmpty() {
 		fmt.Fprintf(w, " /MediaBox [ 0 0 %0.2f %0.2f ]\n", p.pageOption.PageSize.W, p.pageOption.PageSize.H)
 	}
-	if p.pageOption.isTrimBoxSet() {
-		trimBox := p.pageOption.TrimBox
+	trimBox := p.pageOption.TrimBox
+	if !p.pageOption.isTrimBoxSet() && p.getRoot != nil { //use default
+		trimBox = &p.getRoot().config.TrimBox
+	}
+	if (PageOption{TrimBox: trimBox}).isTrimBoxSet() {
 		fmt.Fprintf(w, " /TrimBox [ %0.2f %0.2f %0.2f %0.2f ]\n", trimBox.Left, trimBox.Top, trimBox.Right, trimBox.Bottom)
 	}
 	io.WriteString(w, ">>\n")
-- 
2.43.0


From 76ba04e0e5bf9cd68ade3a0f12cfff57318b8790 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 04/71] fix: only text that continues the previous text in the
 same style is appended to it

---
 cache_content_text.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/cache_content_text.go b/cache_content_text.go
index e6d01ff..d0b1982 100644
--- a/cache_content_text.go
+++ b/cache_content_text.go
@@ -50,6 +50,10 @@ func (c *cacheContentText) isSame(cache cacheContentText) bool {
 		return false
 	}
 
+	if c.contentType != cache.contentType || c.txtColorMode != cache.txtColorMode || !c.isContinuedBy(cache) {
+		return false
+	}
+
 	// if both colors are nil we assume them equal
 	if ((c.textColor == nil && cache.textColor == nil) ||
 		(c.textColor != nil && c.textColor.equal(cache.textColor))) &&
@@ -67,6 +71,27 @@ func (c *cacheContentText) isSame(cache cacheContentText) bool {
 	return false
 }
 
+// isContinuedBy reports whether cache starts where c ends and is laid out with the same cell options
+func (c *cacheContentText) isContinuedBy(cache cacheContentText) bool {
+	if cache.rectangle != nil || math.Abs(c.x+c.cellWidthPdfUnit-cache.x) > 1e-6 {
+		return false
+	}
+	a, b := c.cellOpt, cache.cellOpt
+	if a.Border != 0 || b.Border != 0 || a.Align != b.Align || a.Float != b.Float ||
+		a.CoefUnderlinePosition != b.CoefUnderlinePosition ||
+		a.CoefLineHeight != b.CoefLineHeight ||
+		a.CoefUnderlineThickness != b.CoefUnderlineThickness ||
+		len(a.extGStateIndexes) != len(b.extGStateIndexes) {
+		return false
+	}
+	for i, index := range a.extGStateIndexes {
+		if index != b.extGStateIndexes[i] {
+			return false
+		}
+	}
+	return true
+}
+
 func (c *cacheContentText) setPageHeight(pageheight float64) {
 	c.pageheight = pageheight
 }
-- 
2.43.0


From 357bbe71412e37ff0e003c946aa5d569dca92d98 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 05/71] fix: the text color no longer replaces the fill color
 of what is drawn afterwards

---
 cache_content_text.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cache_content_text.go b/cache_content_text.go
index d0b1982..93b7413 100644
--- a/cache_content_text.go
+++ b/cache_content_text.go
@@ -224,8 +224,9 @@ func (c *cacheContentText) write(w io.Writer, protection *PDFProtection) error {
 		return err
 	}
 
-	hasTransparency := len(c.cellOpt.extGStateIndexes) > 0
-	if hasTransparency {
+	// transparency and text color must not outlive this text
+	isScoped := len(c.cellOpt.extGStateIndexes) > 0 || c.txtColorMode == "color"
+	if isScoped {
 		if _, err := io.WriteString(w, "q\n"); err != nil {
 			return err
 		}
@@ -309,7 +310,7 @@ func (c *cacheContentText) write(w io.Writer, protection *PDFProtection) error {
 
 	c.drawBorder(w)
 
-	if hasTransparency {
+	if isScoped {
 		if _, err := io.WriteString(w, "Q\n"); err != nil {
 			return err
 		}
-- 
2.43.0


From e4fe80cf79b116104f8b5b7856bfdbdd72d9fe41 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 06/71] fix: character spacing counts in full in the width of a
 text

---
 cache_content_text.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/cache_content_text.go b/cache_content_text.go
index 93b7413..21120d3 100644
--- a/cache_content_text.go
+++ b/cache_content_text.go
@@ -430,6 +430,7 @@ func createContent(f *SubsetFontObj, text string, fontSize float64, charSpacing
 	var leftRune rune
 	var leftRuneIndex uint
 	sumWidth := int(0)
+	sumSpacing := float64(0)
 	//fmt.Printf("unitsPerEm = %d", unitsPerEm)
 	for i, r := range text {
 
@@ -451,11 +452,8 @@ func createContent(f *SubsetFontObj, text string, fontSize float64, charSpacing
 			return 0, 0, 0, err
 		}
 
-		unitsPerPt := float64(unitsPerEm) / fontSize
-		spaceWidthInPt := unitsPerPt * charSpacing
-		spaceWidthPdfUnit := convertTTFUnit2PDFUnit(int(spaceWidthInPt), unitsPerEm)
-
-		sumWidth += int(width) + int(pairvalPdfUnit) + spaceWidthPdfUnit
+		sumWidth += int(width) + int(pairvalPdfUnit)
+		sumSpacing += charSpacing
 		leftRune = r
 		leftRuneIndex = glyphindex
 	}
@@ -463,7 +461,7 @@ func createContent(f *SubsetFontObj, text string, fontSize float64, charSpacing
 	cellWidthPdfUnit := float64(0)
 	cellHeightPdfUnit := float64(0)
 	if rectangle == nil {
-		cellWidthPdfUnit = float64(sumWidth) * (float64(fontSize) / 1000.0)
+		cellWidthPdfUnit = float64(sumWidth)*(float64(fontSize)/1000.0) + sumSpacing
 		typoAscender := convertTypoUnit(float64(f.ttfp.TypoAscender()), f.ttfp.UnitsPerEm(), float64(fontSize))
 		typoDescender := convertTypoUnit(float64(f.ttfp.TypoDescender()), f.ttfp.UnitsPerEm(), float64(fontSize))
 		cellHeightPdfUnit = typoAscender - typoDescender
@@ -471,7 +469,7 @@ func createContent(f *SubsetFontObj, text string, fontSize float64, charSpacing
 		cellWidthPdfUnit = rectangle.W
 		cellHeightPdfUnit = rectangle.H
 	}
-	textWidthPdfUnit := float64(sumWidth) * (float64(fontSize) / 1000.0)
+	textWidthPdfUnit := float64(sumWidth)*(float64(fontSize)/1000.0) + sumSpacing
 	return cellWidthPdfUnit, cellHeightPdfUnit, textWidthPdfUnit, nil
 }
 
-- 
2.43.0


From ffab78c126fc8f691c95c7cd50ff3a6c410fbafd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 07/71] fix: underlines follow the baseline of Text and of
 middle and bottom aligned cells

---
 cache_content_text.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cache_content_text.go b/cache_content_text.go
index 21120d3..631a583 100644
--- a/cache_content_text.go
+++ b/cache_content_text.go
@@ -404,7 +404,15 @@ func (c *cacheContentText) underline(w io.Writer) error {
 	underlinePositionPx := c.fontSubset.GetUnderlinePositionPx(c.fontSize) * coefUnderlinePosition
 	underlineThicknessPx := c.fontSubset.GetUnderlineThicknessPx(c.fontSize) * coefUnderlineThickness
 
-	yUnderlinePosition := c.pageHeight() - c.y + underlinePositionPx - baseline
+	yBaseline, err := c.calY()
+	if err != nil {
+		return err
+	}
+	yUnderlinePosition := yBaseline + underlinePositionPx
+	if c.contentType == ContentTypeCell {
+		// the line height moves the underline within a cell
+		yUnderlinePosition += c.calTypoAscender() - baseline
+	}
 	if _, err := fmt.Fprintf(w, "%0.2f %0.2f %0.2f %0.2f re f\n", c.x, yUnderlinePosition, c.cellWidthPdfUnit, underlineThicknessPx); err != nil {
 		return err
 	}
-- 
2.43.0


From d3666ea5fe988b4d5c73f08f2c27ac01921fea9d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 08/71] fix: document strings outside the basic plane are
 written as UTF-16

---
 gopdf.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 7c851ff..c2403ab 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -16,6 +16,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf16"
 
 	"github.com/phpdave11/gofpdi"
 )
@@ -2375,12 +2376,8 @@ func (gp *GoPdf) getContent() *ContentObj {
 
 func encodeUtf8(str string) string {
 	var buff bytes.Buffer
-	for _, r := range str {
-		c := fmt.Sprintf("%X", r)
-		for len(c) < 4 {
-			c = "0" + c
-		}
-		buff.WriteString(c)
+	for _, u := range utf16.Encode([]rune(str)) {
+		fmt.Fprintf(&buff, "%04X", u)
 	}
 	return buff.String()
 }
-- 
2.43.0


From a15f18cb90080a3e0ab1b0e594fd2b68570e5be4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 09/71] fix: the ToUnicode map is valid for characters outside
 the basic plane, unused fonts and many characters

---
 unicode_map.go | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/unicode_map.go b/unicode_map.go
index 5094482..372071c 100644
--- a/unicode_map.go
+++ b/unicode_map.go
@@ -5,6 +5,9 @@ import (
 	"io"
 )
 
+// maxBfrangeEntries is how many entries one bfrange block of a CMap may have
+const maxBfrangeEntries = 100
+
 // UnicodeMap unicode map
 type UnicodeMap struct {
 	PtrToSubsetFontObj *SubsetFontObj
@@ -45,19 +48,10 @@ func (u *UnicodeMap) write(w io.Writer, objID int) error {
 	suffix := "endcmap CMapName currentdict /CMap defineresource pop end end"
 
 	glyphIndexToCharacter := newMapGlyphIndexToCharacter() //make(map[int]rune)
-	lowIndex := 65536
-	hiIndex := -1
-
 	keys := u.PtrToSubsetFontObj.CharacterToGlyphIndex.AllKeys()
 	for _, k := range keys {
 		v, _ := u.PtrToSubsetFontObj.CharacterToGlyphIndex.Val(k)
 		index := int(v)
-		if index < lowIndex {
-			lowIndex = index
-		}
-		if index > hiIndex {
-			hiIndex = index
-		}
 		//glyphIndexToCharacter[index] = k
 		glyphIndexToCharacter.set(index, k)
 	}
@@ -67,15 +61,22 @@ func (u *UnicodeMap) write(w io.Writer, objID int) error {
 
 	buff.WriteString(prefix)
 	buff.WriteString("1 begincodespacerange\n")
-	fmt.Fprintf(buff, "<%04X><%04X>\n", lowIndex, hiIndex)
+	buff.WriteString("<0000><FFFF>\n")
 	buff.WriteString("endcodespacerange\n")
-	fmt.Fprintf(buff, "%d beginbfrange\n", glyphIndexToCharacter.size())
 	indexs := glyphIndexToCharacter.allIndexs()
-	for _, k := range indexs {
-		v, _ := glyphIndexToCharacter.runeByIndex(k)
-		fmt.Fprintf(buff, "<%04X><%04X><%04X>\n", k, k, v)
+	for len(indexs) > 0 {
+		n := len(indexs)
+		if n > maxBfrangeEntries {
+			n = maxBfrangeEntries
+		}
+		fmt.Fprintf(buff, "%d beginbfrange\n", n)
+		for _, k := range indexs[:n] {
+			v, _ := glyphIndexToCharacter.runeByIndex(k)
+			fmt.Fprintf(buff, "<%04X><%04X><%s>\n", k, k, encodeUtf8(string(v)))
+		}
+		buff.WriteString("endbfrange\n")
+		indexs = indexs[n:]
 	}
-	buff.WriteString("endbfrange\n")
 	buff.WriteString(suffix)
 	buff.WriteString("\n")
 
-- 
2.43.0


From 3f2d41df0202918b344e134fdc980ca0b4a6d32c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 10/71] fix: outline entries name the outline root as their
 parent

---
 outlines_obj.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/outlines_obj.go b/outlines_obj.go
index 13cae66..dfb4eee 100644
--- a/outlines_obj.go
+++ b/outlines_obj.go
@@ -53,7 +53,7 @@ func (o *OutlinesObj) SetIndexObjOutlines(index int) {
 }
 
 func (o *OutlinesObj) AddOutline(dest int, title string) {
-	oo := &OutlineObj{title: title, dest: dest, parent: o.index, prev: o.last, next: -1}
+	oo := &OutlineObj{title: title, dest: dest, parent: o.index + 1, prev: o.last, next: -1}
 	o.last = o.getRoot().addObj(oo) + 1
 	if o.first <= 0 {
 		o.first = o.last
@@ -67,7 +67,7 @@ func (o *OutlinesObj) AddOutline(dest int, title string) {
 
 // AddOutlinesWithPosition add outlines with position
 func (o *OutlinesObj) AddOutlinesWithPosition(dest int, title string, y float64) *OutlineObj {
-	oo := &OutlineObj{title: title, dest: dest, parent: o.index, prev: o.last, next: -1, height: y}
+	oo := &OutlineObj{title: title, dest: dest, parent: o.index + 1, prev: o.last, next: -1, height: y}
 	o.last = o.getRoot().addObj(oo) + 1
 	if o.first <= 0 {
 		o.first = o.last
-- 
2.43.0


From e511ee13b522cdf71ea2bf8920e37dbc14ed62fd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 11/71] fix: nested outlines are linked consistently, also at
 the outline root

---
 outlines_obj.go | 64 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 13 deletions(-)

diff --git a/outlines_obj.go b/outlines_obj.go
index dfb4eee..88d0539 100644
--- a/outlines_obj.go
+++ b/outlines_obj.go
@@ -14,6 +14,7 @@ type OutlinesObj struct { //impl IObj
 	last    int
 	count   int
 	lastObj *OutlineObj
+	objs    []*OutlineObj // all entries, in the order they were added
 }
 
 func (o *OutlinesObj) init(funcGetRoot func() *GoPdf) {
@@ -53,7 +54,7 @@ func (o *OutlinesObj) SetIndexObjOutlines(index int) {
 }
 
 func (o *OutlinesObj) AddOutline(dest int, title string) {
-	oo := &OutlineObj{title: title, dest: dest, parent: o.index + 1, prev: o.last, next: -1}
+	oo := &OutlineObj{outlines: o, title: title, dest: dest, parent: o.index + 1, prev: o.last, next: -1}
 	o.last = o.getRoot().addObj(oo) + 1
 	if o.first <= 0 {
 		o.first = o.last
@@ -62,12 +63,14 @@ func (o *OutlinesObj) AddOutline(dest int, title string) {
 		o.lastObj.next = o.last
 	}
 	o.lastObj = oo
+	o.objs = append(o.objs, oo)
 	o.count++
+	oo.index = o.last
 }
 
 // AddOutlinesWithPosition add outlines with position
 func (o *OutlinesObj) AddOutlinesWithPosition(dest int, title string, y float64) *OutlineObj {
-	oo := &OutlineObj{title: title, dest: dest, parent: o.index + 1, prev: o.last, next: -1, height: y}
+	oo := &OutlineObj{outlines: o, title: title, dest: dest, parent: o.index + 1, prev: o.last, next: -1, height: y}
 	o.last = o.getRoot().addObj(oo) + 1
 	if o.first <= 0 {
 		o.first = o.last
@@ -76,26 +79,55 @@ func (o *OutlinesObj) AddOutlinesWithPosition(dest int, title string, y float64)
 		o.lastObj.next = o.last
 	}
 	o.lastObj = oo
+	o.objs = append(o.objs, oo)
 	o.count++
 	oo.index = o.last
 	return oo
 }
 
+// relink links the entries that are not nested in another one, with nodes in the given order
+func (o *OutlinesObj) relink(nodes OutlineNodes) {
+	listed := make(map[*OutlineObj]bool, len(nodes))
+	for _, node := range nodes {
+		listed[node.Obj] = true
+	}
+	o.first, o.last, o.count, o.lastObj = -1, -1, 0, nil
+	for _, oo := range o.objs {
+		if oo.parent != o.index+1 {
+			continue
+		}
+		if listed[oo] && len(nodes) > 0 {
+			oo, nodes = nodes[0].Obj, nodes[1:]
+		}
+		oo.prev, oo.next = o.last, -1
+		if o.lastObj != nil {
+			o.lastObj.next = oo.index
+		} else {
+			o.first = oo.index
+		}
+		o.last = oo.index
+		o.lastObj = oo
+		o.count++
+	}
+}
+
 func (o *OutlinesObj) Count() int {
 	return o.count
 }
 
 // OutlineObj include attribute of outline
 type OutlineObj struct { //impl IObj
-	title  string
-	index  int
-	dest   int
-	parent int
-	prev   int
-	next   int
-	first  int
-	last   int
-	height float64
+	outlines *OutlinesObj
+	title    string
+	index    int
+	dest     int
+	parent   int
+	prev     int
+	next     int
+	first    int
+	last     int
+	count    int //number of children
+	height   float64
 }
 
 func (o *OutlineObj) init(funcGetRoot func() *GoPdf) {
@@ -159,6 +191,9 @@ func (o *OutlineObj) write(w io.Writer, objID int) error {
 	if o.last > 0 {
 		fmt.Fprintf(w, "  /Last %d 0 R\n", o.last)
 	}
+	if o.count > 0 {
+		fmt.Fprintf(w, "  /Count %d\n", -o.count)
+	}
 	fmt.Fprintf(w, "  /Dest [ %d 0 R /XYZ 90 %f 0 ]\n", o.dest, o.height)
 	fmt.Fprintf(w, "  /Title <FEFF%s>\n", encodeUtf8(o.title))
 	io.WriteString(w, ">>\n")
@@ -180,7 +215,7 @@ func (objs OutlineNodes) Parse() {
 		if i == 0 {
 			obj.Obj.SetPrev(-1)
 		} else {
-			obj.Obj.SetNext(objs[i-1].Obj.GetIndex())
+			obj.Obj.SetPrev(objs[i-1].Obj.GetIndex())
 		}
 		if i == len(objs)-1 {
 			obj.Obj.SetNext(-1)
@@ -189,7 +224,9 @@ func (objs OutlineNodes) Parse() {
 		}
 		obj.Parse()
 	}
-
+	if len(objs) > 0 && objs[0].Obj.outlines != nil {
+		objs[0].Obj.outlines.relink(objs)
+	}
 }
 
 // Parse parse outline
@@ -197,6 +234,7 @@ func (obj OutlineNode) Parse() {
 	if obj.Children == nil || len(obj.Children) == 0 {
 		return
 	}
+	obj.Obj.count = len(obj.Children)
 	for i, children := range obj.Children {
 		if i == 0 {
 			obj.Obj.SetFirst(children.Obj.GetIndex())
-- 
2.43.0


From 80dbdb3f98ee30ee347310c568d8b12ec08e7430 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 12/71] fix: links, anchors and outline positions use the
 height of their own page

---
 gopdf.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index c2403ab..805d5f8 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -853,7 +853,7 @@ func (gp *GoPdf) AddOutline(title string) {
 
 // AddOutlineWithPosition add an outline with position
 func (gp *GoPdf) AddOutlineWithPosition(title string) *OutlineObj {
-	return gp.outlines.AddOutlinesWithPosition(gp.curr.IndexOfPageObj+1, title, gp.config.PageSize.H-gp.curr.Y+20)
+	return gp.outlines.AddOutlinesWithPosition(gp.curr.IndexOfPageObj+1, title, gp.currPageHeight()-gp.curr.Y+20)
 }
 
 // AddHeader - add a header function, if present this will be automatically called by AddPage()
@@ -1702,7 +1702,7 @@ func (gp *GoPdf) ImportTemplates(tpls map[string]int) {
 func (gp *GoPdf) AddExternalLink(url string, x, y, w, h float64) {
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
 
-	linkOpt := linkOption{x, gp.config.PageSize.H - y, w, h, url, ""}
+	linkOpt := linkOption{x, gp.currPageHeight() - y, w, h, url, ""}
 	gp.addLink(linkOpt)
 }
 
@@ -1710,7 +1710,7 @@ func (gp *GoPdf) AddExternalLink(url string, x, y, w, h float64) {
 func (gp *GoPdf) AddInternalLink(anchor string, x, y, w, h float64) {
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
 
-	linkOpt := linkOption{x, gp.config.PageSize.H - y, w, h, "", anchor}
+	linkOpt := linkOption{x, gp.currPageHeight() - y, w, h, "", anchor}
 	gp.addLink(linkOpt)
 }
 
@@ -1724,7 +1724,7 @@ func (gp *GoPdf) addLink(option linkOption) {
 
 // SetAnchor creates a new anchor.
 func (gp *GoPdf) SetAnchor(name string) {
-	y := gp.config.PageSize.H - gp.curr.Y + float64(gp.curr.FontSize)
+	y := gp.currPageHeight() - gp.curr.Y + float64(gp.curr.FontSize)
 	gp.anchors[name] = anchorOption{gp.curr.IndexOfPageObj, y}
 }
 
@@ -2186,6 +2186,14 @@ func importerOrDefault(importer ...*gofpdi.Importer) *gofpdi.Importer {
 	return gofpdi.NewImporter()
 }
 
+// currPageHeight is the height of the current page, in points
+func (gp *GoPdf) currPageHeight() float64 {
+	if gp.curr.pageSize == nil {
+		return gp.config.PageSize.H
+	}
+	return gp.curr.pageSize.H
+}
+
 func (gp *GoPdf) resetCurrXY() {
 	gp.curr.X = gp.margins.Left
 	gp.curr.Y = gp.margins.Top
-- 
2.43.0


From fe07b2a6697ca77a638426f23b7491d11176f00a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 13/71] fix: a link to an anchor that was never set is written
 as a complete object

---
 annot_obj.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/annot_obj.go b/annot_obj.go
index dd10a7a..3bdb329 100644
--- a/annot_obj.go
+++ b/annot_obj.go
@@ -49,7 +49,9 @@ func (o annotObj) writeExternalLink(w io.Writer, l linkOption, objID int) error
 func (o annotObj) writeInternalLink(w io.Writer, l linkOption) error {
 	a, ok := o.GetRoot().anchors[l.anchor]
 	if !ok {
-		return nil
+		_, err := fmt.Fprintf(w, "<</Type /Annot /Subtype /Link /Rect [%.2f %.2f %.2f %.2f] /Border [0 0 0]>>\n",
+			l.x, l.y, l.x+l.w, l.y-l.h)
+		return err
 	}
 	_, err := fmt.Fprintf(w, "<</Type /Annot /Subtype /Link /Rect [%.2f %.2f %.2f %.2f] /Border [0 0 0] /Dest [%d 0 R /XYZ 0 %.2f null]>>\n",
 		l.x, l.y, l.x+l.w, l.y-l.h, a.page+1, a.y)
-- 
2.43.0


From 039c99066546fcfc8e673939f40515fde486c6ff Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 14/71] fix: outline titles, mask groups and font system info
 are encrypted in protected documents

---
 cid_font_obj.go               | 20 ++++++++++++++++++--
 gopdf.go                      |  1 +
 outlines_obj.go               | 15 ++++++++++++++-
 transparency_xobject_group.go | 18 ++++++++++++++++--
 4 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/cid_font_obj.go b/cid_font_obj.go
index da8db9b..5c80cf6 100644
--- a/cid_font_obj.go
+++ b/cid_font_obj.go
@@ -10,9 +10,11 @@ import (
 type CIDFontObj struct {
 	PtrToSubsetFontObj        *SubsetFontObj
 	indexObjSubfontDescriptor int
+	getRoot                   func() *GoPdf
 }
 
 func (ci *CIDFontObj) init(funcGetRoot func() *GoPdf) {
+	ci.getRoot = funcGetRoot
 }
 
 // SetIndexObjSubfontDescriptor set  indexObjSubfontDescriptor
@@ -27,10 +29,24 @@ func (ci *CIDFontObj) getType() string {
 func (ci *CIDFontObj) write(w io.Writer, objID int) error {
 	io.WriteString(w, "<<\n")
 	fmt.Fprintf(w, "/BaseFont /%s\n", CreateEmbeddedFontSubsetName(ci.PtrToSubsetFontObj.GetFamily()))
+	ordering, registry := "(Identity)", "(Adobe)"
+	if ci.getRoot != nil && ci.getRoot().protection() != nil {
+		key := ci.getRoot().protection().objectkey(objID)
+		tmp, err := rc4Cip(key, []byte("Identity"))
+		if err != nil {
+			return err
+		}
+		ordering = fmt.Sprintf("<%X>", tmp)
+		tmp, err = rc4Cip(key, []byte("Adobe"))
+		if err != nil {
+			return err
+		}
+		registry = fmt.Sprintf("<%X>", tmp)
+	}
 	io.WriteString(w, "/CIDSystemInfo\n")
 	io.WriteString(w, "<<\n")
-	io.WriteString(w, "  /Ordering (Identity)\n")
-	io.WriteString(w, "  /Registry (Adobe)\n")
+	fmt.Fprintf(w, "  /Ordering %s\n", ordering)
+	fmt.Fprintf(w, "  /Registry %s\n", registry)
 	io.WriteString(w, "  /Supplement 0\n")
 	io.WriteString(w, ">>\n")
 	fmt.Fprintf(w, "/FontDescriptor %d 0 R\n", ci.indexObjSubfontDescriptor+1) //TODO fix
diff --git a/gopdf.go b/gopdf.go
index 805d5f8..9be02a8 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -623,6 +623,7 @@ func (gp *GoPdf) createTransparencyXObjectGroup(image *cacheContentImage, opts M
 	}
 
 	groupOpts := TransparencyXObjectGroupOptions{
+		Protection:       gp.protection(),
 		BBox:             *bbox,
 		ExtGStateIndexes: opts.extGStateIndexes,
 		XObjects:         []cacheContentImage{*image},
diff --git a/outlines_obj.go b/outlines_obj.go
index 88d0539..8a374de 100644
--- a/outlines_obj.go
+++ b/outlines_obj.go
@@ -1,6 +1,7 @@
 package gopdf
 
 import (
+	"encoding/hex"
 	"fmt"
 	"io"
 )
@@ -195,7 +196,19 @@ func (o *OutlineObj) write(w io.Writer, objID int) error {
 		fmt.Fprintf(w, "  /Count %d\n", -o.count)
 	}
 	fmt.Fprintf(w, "  /Dest [ %d 0 R /XYZ 90 %f 0 ]\n", o.dest, o.height)
-	fmt.Fprintf(w, "  /Title <FEFF%s>\n", encodeUtf8(o.title))
+	title := "FEFF" + encodeUtf8(o.title)
+	if o.outlines != nil && o.outlines.getRoot().protection() != nil {
+		plain, err := hex.DecodeString(title)
+		if err != nil {
+			return err
+		}
+		tmp, err := rc4Cip(o.outlines.getRoot().protection().objectkey(objID), plain)
+		if err != nil {
+			return err
+		}
+		title = hex.EncodeToString(tmp)
+	}
+	fmt.Fprintf(w, "  /Title <%s>\n", title)
 	io.WriteString(w, ">>\n")
 	return nil
 }
diff --git a/transparency_xobject_group.go b/transparency_xobject_group.go
index e58b1cc..911f777 100644
--- a/transparency_xobject_group.go
+++ b/transparency_xobject_group.go
@@ -64,6 +64,15 @@ func (s TransparencyXObjectGroup) write(w io.Writer, objId int) error {
 		}
 	}
 
+	stream := streamBuff.Bytes()
+	if s.protection() != nil {
+		tmp, err := rc4Cip(s.protection().objectkey(objId), stream)
+		if err != nil {
+			return err
+		}
+		stream = tmp
+	}
+
 	content := "<<\n"
 	content += "\t/FormType 1\n"
 	content += "\t/Subtype /Form\n"
@@ -72,7 +81,7 @@ func (s TransparencyXObjectGroup) write(w io.Writer, objId int) error {
 	content += fmt.Sprintf("\t/BBox [%.3F %.3F %.3F %.3F]\n", s.BBox[0], s.BBox[1], s.BBox[2], s.BBox[3])
 	content += "\t/Group<</CS /DeviceGray /S /Transparency>>\n"
 
-	content += fmt.Sprintf("\t/Length %d\n", len(streamBuff.Bytes()))
+	content += fmt.Sprintf("\t/Length %d\n", len(stream))
 	content += ">>\n"
 	content += "stream\n"
 
@@ -80,10 +89,15 @@ func (s TransparencyXObjectGroup) write(w io.Writer, objId int) error {
 		return err
 	}
 
-	if _, err := w.Write(streamBuff.Bytes()); err != nil {
+	if _, err := w.Write(stream); err != nil {
 		return err
 	}
 
+	if s.protection() != nil {
+		if _, err := io.WriteString(w, "\n"); err != nil {
+			return err
+		}
+	}
 	if _, err := io.WriteString(w, "endstream\n"); err != nil {
 		return err
 	}
-- 
2.43.0


From 802fe1776b056ceb5683973c6ac2f8ba219f7fd1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 15/71] fix: setting up protection leaves the caller's password
 slices alone

---
 pdf_protection.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pdf_protection.go b/pdf_protection.go
index 6190938..8dfd60d 100644
--- a/pdf_protection.go
+++ b/pdf_protection.go
@@ -49,10 +49,9 @@ func (p *PDFProtection) setProtection(permissions int, userPass []byte, ownerPas
 
 func (p *PDFProtection) generateEncryptionKey(userPass []byte, ownerPass []byte, protection int) error {
 
-	userPass = append(userPass, protectionPadding...)
-	userPassWithPadding := userPass[0:32]
-	ownerPass = append(ownerPass, protectionPadding...)
-	ownerPassWithPadding := ownerPass[0:32]
+	// copies: the passwords belong to the caller
+	userPassWithPadding := append(append([]byte{}, userPass...), protectionPadding...)[0:32]
+	ownerPassWithPadding := append(append([]byte{}, ownerPass...), protectionPadding...)[0:32]
 
 	//oValue
 	oValue, err := p.createOValue(userPassWithPadding, ownerPassWithPadding)
-- 
2.43.0


From 60f225b80a5a53bdc8cfcb98424f82ba515d83e6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 16/71] fix: font family and color space names are escaped as
 PDF names

---
 color_space_obj.go |  4 ++--
 strhelper.go       | 17 ++++++++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/color_space_obj.go b/color_space_obj.go
index f447fbf..82b2596 100644
--- a/color_space_obj.go
+++ b/color_space_obj.go
@@ -39,12 +39,12 @@ func (cs *ColorSpaceObj) SetColorRBG(r, g, b uint8) {
 	cs.colorString0 = "0.0 0.0 0.0"
 	cs.colorString1 = fmt.Sprintf("%.3f %.3f %.3f", float64(r)/255.0, float64(g)/255.0, float64(b)/255.0)
 	cs.space = "/DeviceRGB"
-	cs.spaceName = fmt.Sprintf("/%s", cs.Name)
+	cs.spaceName = "/" + escapeName(cs.Name)
 }
 
 func (cs *ColorSpaceObj) SetColorCMYK(c, m, y, k uint8) {
 	cs.colorString0 = "0.0 0.0 0.0 0.0"
 	cs.colorString1 = fmt.Sprintf("%.3f %.3f %.3f %.3f", float64(c)/100.0, float64(m)/100.0, float64(y)/100.0, float64(k)/100.0)
 	cs.space = "/DeviceCMYK"
-	cs.spaceName = fmt.Sprintf("/%s", cs.Name)
+	cs.spaceName = "/" + escapeName(cs.Name)
 }
diff --git a/strhelper.go b/strhelper.go
index b91af9d..97fb0b4 100644
--- a/strhelper.go
+++ b/strhelper.go
@@ -1,6 +1,7 @@
 package gopdf
 
 import (
+	"fmt"
 	"math/big"
 	"strings"
 )
@@ -28,7 +29,21 @@ func StrHelperGetStringWidthPrecise(str string, fontSize float64, ifont IFont) f
 func CreateEmbeddedFontSubsetName(name string) string {
 	name = strings.Replace(name, " ", "+", -1)
 	name = strings.Replace(name, "/", "+", -1)
-	return name
+	return escapeName(name)
+}
+
+// escapeName writes the characters a PDF name must not contain as #xx
+func escapeName(name string) string {
+	var sb strings.Builder
+	for i := 0; i < len(name); i++ {
+		c := name[i]
+		if c <= ' ' || c > '~' || strings.IndexByte("()<>[]{}/%#", c) >= 0 {
+			fmt.Fprintf(&sb, "#%02X", c)
+			continue
+		}
+		sb.WriteByte(c)
+	}
+	return sb.String()
 }
 
 // ReadShortFromByte read short from byte array
-- 
2.43.0


From dcec5bbb462832896acdfcaa6d792de3a587b981 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 17/71] fix: a rejected duplicate color space leaves no object
 behind

---
 gopdf.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 9be02a8..730166b 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2561,8 +2561,6 @@ func (gp *GoPdf) AddColorSpaceCMYK(name string, c, m, y, k uint8) error {
 }
 
 func (gp *GoPdf) addColorSpace(colorSpace *ColorSpaceObj) error {
-	index := gp.addObj(colorSpace)
-
 	if gp.indexOfProcSet != -1 {
 		procset := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
 
@@ -2571,7 +2569,12 @@ func (gp *GoPdf) addColorSpace(colorSpace *ColorSpaceObj) error {
 				return ErrExistsColorSpace
 			}
 		}
+	}
 
+	index := gp.addObj(colorSpace)
+
+	if gp.indexOfProcSet != -1 {
+		procset := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
 		procset.RelateColorSpaces = append(procset.RelateColorSpaces, RelateColorSpace{Name: colorSpace.Name, IndexOfObj: index, CountOfColorSpace: gp.curr.CountOfColorSpace})
 		colorSpace.CountOfSpaceColor = gp.curr.CountOfColorSpace
 		gp.curr.CountOfColorSpace++
-- 
2.43.0


From c1a548dac8a85f82b0b6d90c3cde2bd0385e14a8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 18/71] fix: blend modes apply to opaque items too, and a
 transparency value is not kept or changed

---
 gopdf.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index 730166b..384cbb7 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2433,10 +2433,16 @@ func (gp *GoPdf) getCachedTransparency(transparency *Transparency) (*Transparenc
 }
 
 func (gp *GoPdf) saveTransparency(transparency *Transparency) (*Transparency, error) {
+	// a copy: the original belongs to the caller
+	t := *transparency
+	transparency = &t
+	if transparency.BlendModeType == "" {
+		transparency.BlendModeType = NormalBlendMode
+	}
 	cached, ok := gp.curr.transparencyMap.Find(*transparency)
 	if ok {
 		return &cached, nil
-	} else if transparency.Alpha != DefaultAplhaValue {
+	} else if transparency.Alpha != DefaultAplhaValue || transparency.BlendModeType != NormalBlendMode {
 		bm := transparency.BlendModeType
 		opts := ExtGStateOptions{
 			BlendMode:     &bm,
-- 
2.43.0


From 7f91cf94aab985116467557e0821c395ae543c71 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:21:59 +0000
Subject: [PATCH 19/71] fix: the document-wide transparency applies to every
 kind of rectangle, cell and image

---
 gopdf.go | 60 ++++++++++----------------------------------------------
 1 file changed, 10 insertions(+), 50 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 384cbb7..0676025 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -237,30 +237,22 @@ func (gp *GoPdf) Line(x1 float64, y1 float64, x2 float64, y2 float64) {
 
 // RectFromLowerLeft : draw rectangle from lower-left corner (x, y)
 func (gp *GoPdf) RectFromLowerLeft(x float64, y float64, wdth float64, hght float64) {
-	gp.UnitsToPointsVar(&x, &y, &wdth, &hght)
-
-	opts := DrawableRectOptions{
+	gp.RectFromLowerLeftWithOpts(DrawableRectOptions{
 		X:          x,
 		Y:          y,
 		PaintStyle: DrawPaintStyle,
 		Rect:       Rect{W: wdth, H: hght},
-	}
-
-	gp.getContent().AppendStreamRectangle(opts)
+	})
 }
 
 // RectFromUpperLeft : draw rectangle from upper-left corner (x, y)
 func (gp *GoPdf) RectFromUpperLeft(x float64, y float64, wdth float64, hght float64) {
-	gp.UnitsToPointsVar(&x, &y, &wdth, &hght)
-
-	opts := DrawableRectOptions{
+	gp.RectFromUpperLeftWithOpts(DrawableRectOptions{
 		X:          x,
-		Y:          y + hght,
+		Y:          y,
 		PaintStyle: DrawPaintStyle,
 		Rect:       Rect{W: wdth, H: hght},
-	}
-
-	gp.getContent().AppendStreamRectangle(opts)
+	})
 }
 
 // RectFromLowerLeftWithStyle : draw rectangle from lower-left corner (x, y)
@@ -487,17 +479,11 @@ func (gp *GoPdf) SetXY(x, y float64) {
 
 // ImageByHolder : draw image by ImageHolder
 func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect) error {
-	gp.UnitsToPointsVar(&x, &y)
-
-	rect = rect.UnitsToPoints(gp.config.Unit)
-
-	imageOptions := ImageOptions{
+	return gp.ImageByHolderWithOptions(img, ImageOptions{
 		X:    x,
 		Y:    y,
 		Rect: rect,
-	}
-
-	return gp.imageByHolder(img, imageOptions)
+	})
 }
 
 func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) error {
@@ -733,20 +719,12 @@ func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 
 // Image : draw image
 func (gp *GoPdf) Image(picPath string, x float64, y float64, rect *Rect) error {
-	gp.UnitsToPointsVar(&x, &y)
-	rect = rect.UnitsToPoints(gp.config.Unit)
 	imgh, err := ImageHolderByPath(picPath)
 	if err != nil {
 		return err
 	}
 
-	imageOptions := ImageOptions{
-		X:    x,
-		Y:    y,
-		Rect: rect,
-	}
-
-	return gp.imageByHolder(imgh, imageOptions)
+	return gp.ImageByHolder(imgh, x, y, rect)
 }
 
 func (gp *GoPdf) ImageFrom(img image.Image, x float64, y float64, rect *Rect) error {
@@ -763,8 +741,6 @@ func (gp *GoPdf) ImageFromWithOption(img image.Image, opts ImageFromOption) erro
 		return errors.New("Invalid image")
 	}
 
-	gp.UnitsToPointsVar(&opts.X, &opts.Y)
-	opts.Rect = opts.Rect.UnitsToPoints(gp.config.Unit)
 	r, w := io.Pipe()
 	go func() {
 		bw := bufio.NewWriter(w)
@@ -789,13 +765,7 @@ func (gp *GoPdf) ImageFromWithOption(img image.Image, opts ImageFromOption) erro
 		return err
 	}
 
-	imageOptions := ImageOptions{
-		X:    opts.X,
-		Y:    opts.Y,
-		Rect: opts.Rect,
-	}
-
-	return gp.imageByHolder(imgh, imageOptions)
+	return gp.ImageByHolder(imgh, opts.X, opts.Y, opts.Rect)
 }
 
 // AddPage : add new page
@@ -1140,23 +1110,13 @@ func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) er
 // Cell : create cell of text ( use current x,y is upper-left corner of cell)
 // Note that this has no effect on Rect.H pdf (now). Fix later :-)
 func (gp *GoPdf) Cell(rectangle *Rect, text string) error {
-	rectangle = rectangle.UnitsToPoints(gp.config.Unit)
 	defaultopt := CellOption{
 		Align:  Left | Top,
 		Border: 0,
 		Float:  Right,
 	}
 
-	text, err := gp.curr.FontISubset.AddChars(text)
-	if err != nil {
-		return err
-	}
-	err = gp.getContent().AppendStreamSubsetFont(rectangle, text, defaultopt)
-	if err != nil {
-		return err
-	}
-
-	return nil
+	return gp.CellWithOption(rectangle, text, defaultopt)
 }
 
 // MultiCell : create of text with line breaks ( use current x,y is upper-left corner of cell)
-- 
2.43.0


From 5387d31ad17cd64485da5075236bdcb30b90846e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 20/71] fix: rectangles and boxes honour ConversionForUnit

---
 gopdf.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 0676025..9bc050a 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -489,7 +489,7 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) error {
 	gp.UnitsToPointsVar(&opts.X, &opts.Y)
 
-	opts.Rect = opts.Rect.UnitsToPoints(gp.config.Unit)
+	opts.Rect = opts.Rect.unitsToPoints(gp.config)
 
 	imageTransparency, err := gp.getCachedTransparency(opts.Transparency)
 	if err != nil {
@@ -511,7 +511,7 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 		}
 
 		gp.UnitsToPointsVar(&opts.Mask.ImageOptions.X, &opts.Mask.ImageOptions.Y)
-		opts.Mask.ImageOptions.Rect = opts.Mask.ImageOptions.Rect.UnitsToPoints(gp.config.Unit)
+		opts.Mask.ImageOptions.Rect = opts.Mask.ImageOptions.Rect.unitsToPoints(gp.config)
 
 		extGStateIndex, err := gp.maskHolder(opts.Mask.Holder, *opts.Mask)
 		if err != nil {
@@ -776,8 +776,8 @@ func (gp *GoPdf) AddPage() {
 
 // AddPageWithOption  : add new page with option
 func (gp *GoPdf) AddPageWithOption(opt PageOption) {
-	opt.TrimBox = opt.TrimBox.UnitsToPoints(gp.config.Unit)
-	opt.PageSize = opt.PageSize.UnitsToPoints(gp.config.Unit)
+	opt.TrimBox = opt.TrimBox.unitsToPoints(gp.config)
+	opt.PageSize = opt.PageSize.unitsToPoints(gp.config)
 
 	page := new(PageObj)
 	page.init(func() *GoPdf {
@@ -1095,7 +1095,7 @@ func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) er
 		opt.extGStateIndexes = append(opt.extGStateIndexes, transparency.extGStateIndex)
 	}
 
-	rectangle = rectangle.UnitsToPoints(gp.config.Unit)
+	rectangle = rectangle.unitsToPoints(gp.config)
 	text, err = gp.curr.FontISubset.AddChars(text)
 	if err != nil {
 		return err
-- 
2.43.0


From b6c076a2863e121706fbccad22530197f5b93e72 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 21/71] fix: page breaks on demand compare lengths in the same
 unit

---
 gopdf.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 9bc050a..b08c797 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -376,9 +376,9 @@ func (gp *GoPdf) GetX() float64 {
 func (gp *GoPdf) SetNewY(y float64, h float64) {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if gp.curr.Y+h > gp.curr.pageSize.H-gp.MarginBottom() {
+	if gp.curr.Y+h > gp.curr.pageSize.H-gp.margins.Bottom {
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 }
@@ -392,9 +392,9 @@ func (gp *GoPdf) SetNewY(y float64, h float64) {
 func (gp *GoPdf) SetNewYIfNoOffset(y float64, h float64) {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if y+h > gp.curr.pageSize.H-gp.MarginBottom() { // using new y(*y) instead of gp.curr.Y
+	if y+h > gp.curr.pageSize.H-gp.margins.Bottom { // using new y(*y) instead of gp.curr.Y
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 }
@@ -409,9 +409,9 @@ func (gp *GoPdf) SetNewYIfNoOffset(y float64, h float64) {
 func (gp *GoPdf) SetNewXY(y float64, x, h float64) {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if gp.curr.Y+h > gp.curr.pageSize.H-gp.MarginBottom() {
+	if gp.curr.Y+h > gp.curr.pageSize.H-gp.margins.Bottom {
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 	gp.SetX(x)
-- 
2.43.0


From 8a17bb12945b5fc0a03bc9a2d60202bdac69cc20 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 22/71] fix: multi-line cells align their lines as a block, in
 every unit

---
 gopdf.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index b08c797..706cb95 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1257,20 +1257,16 @@ func (gp *GoPdf) MultiCellWithOption(rectangle *Rect, text string, opt CellOptio
 		return err
 	}
 
-	startHeight := rectangle.H
-	if l := len(textSplits); l > 1 {
-		shiftLines := l / 2
-		if l%2 != 0 {
-			shiftLines += 1
-		}
-		startHeight = rectangle.H - (lineHeight+1.5)*float64(shiftLines)
-	}
-
 	lastLine := len(textSplits) - 1
+	// the block of lines as a whole is aligned within the rectangle
+	startHeight := rectangle.H - lineHeight*float64(lastLine)
+
 	for i, text := range textSplits {
 		lineOpt := opt
 		lineOpt.Align = lineAlign(opt.Align, i == lastLine)
-		gp.CellWithOption(&Rect{W: rectangle.W, H: startHeight}, string(text), lineOpt)
+		if err := gp.CellWithOption(&Rect{W: rectangle.W, H: startHeight}, string(text), lineOpt); err != nil {
+			return err
+		}
 		gp.Br(lineHeight)
 		gp.SetX(x)
 	}
-- 
2.43.0


From 644c2bb28532f409259f1c279a5924bdfd05b16f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:22:37 +0000
Subject: [PATCH 23/71] fix: SetCustomLineType neither changes nor keeps the
 caller's slice

---
 gopdf.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 706cb95..f9b97a4 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -206,11 +206,12 @@ func (gp *GoPdf) SetLineType(linetype string) {
 //	pdf.SetCustomLineType([]float64{0.8, 0.8}, 0)
 //	pdf.Line(50, 200, 550, 200)
 func (gp *GoPdf) SetCustomLineType(dashArray []float64, dashPhase float64) {
+	dashes := make([]float64, len(dashArray))
 	for i := range dashArray {
-		gp.UnitsToPointsVar(&dashArray[i])
+		dashes[i] = gp.UnitsToPoints(dashArray[i])
 	}
 	gp.UnitsToPointsVar(&dashPhase)
-	gp.getContent().AppendStreamSetCustomLineType(dashArray, dashPhase)
+	gp.getContent().AppendStreamSetCustomLineType(dashes, dashPhase)
 }
 
 // Line : draw line
-- 
2.43.0


From 18029d377f11f612bf2454cec3427941513156e2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 24/71] fix: image crops and mask boxes are in document units,
 and image options stay the caller's

---
 gopdf.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/gopdf.go b/gopdf.go
index f9b97a4..f484c53 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -491,6 +491,7 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 	gp.UnitsToPointsVar(&opts.X, &opts.Y)
 
 	opts.Rect = opts.Rect.unitsToPoints(gp.config)
+	opts.Crop = gp.cropToPoints(opts.Crop)
 
 	imageTransparency, err := gp.getCachedTransparency(opts.Transparency)
 	if err != nil {
@@ -502,6 +503,16 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 	}
 
 	if opts.Mask != nil {
+		// copies: the options belong to the caller
+		mask := *opts.Mask
+		opts.Mask = &mask
+		mask.ImageOptions.Crop = gp.cropToPoints(mask.ImageOptions.Crop)
+		if mask.BBox != nil {
+			bbox := *mask.BBox
+			gp.UnitsToPointsVar(&bbox[0], &bbox[1], &bbox[2], &bbox[3])
+			mask.BBox = &bbox
+		}
+
 		maskTransparency, err := gp.getCachedTransparency(opts.Mask.ImageOptions.Transparency)
 		if err != nil {
 			return err
@@ -525,6 +536,16 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 	return gp.imageByHolder(img, opts)
 }
 
+// cropToPoints returns a copy of crop in points
+func (gp *GoPdf) cropToPoints(crop *CropOptions) *CropOptions {
+	if crop == nil {
+		return nil
+	}
+	c := *crop
+	gp.UnitsToPointsVar(&c.X, &c.Y, &c.Width, &c.Height)
+	return &c
+}
+
 func (gp *GoPdf) maskHolder(img ImageHolder, opts MaskOptions) (int, error) {
 	var cacheImage *ImageCache
 	var cacheContentImage *cacheContentImage
-- 
2.43.0


From bd40c4ef5c3a84609768f19c883f6b4b4f39f1ad Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 25/71] fix: placeholders are filled in their own font and at
 their place, in every unit, also when filled again

---
 gopdf.go       | 23 ++++++++++++-----------
 placeholder.go |  1 +
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index f484c53..4f8ab17 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1383,7 +1383,7 @@ func (gp *GoPdf) PlaceHolderText(placeHolderName string, placeHolderWidth float6
 		return err
 	}
 
-	gp.PointsToUnitsVar(&placeHolderWidth)
+	gp.UnitsToPointsVar(&placeHolderWidth)
 	err = gp.getContent().appendStreamPlaceHolderText(placeHolderWidth)
 	if err != nil {
 		return err
@@ -1403,6 +1403,7 @@ func (gp *GoPdf) PlaceHolderText(placeHolderName string, placeHolderWidth float6
 			placeHolderWidth: placeHolderWidth,
 			fontSize:         gp.curr.FontSize,
 			charSpacing:      gp.curr.CharSpacing,
+			x:                content.listCache.caches[indexInContent].(*cacheContentText).x,
 		},
 	)
 
@@ -1428,22 +1429,22 @@ func (gp *GoPdf) FillInPlaceHoldText(placeHolderName string, text string, align
 		if !ok {
 			return errors.New("listCache.caches is not *cacheContentText")
 		}
-		info.fontISubset.AddChars(text)
-		contentText.text = text
-
-		//Calculate position
-		_, _, textWidthPdfUnit, err := createContent(gp.curr.FontISubset, text, info.fontSize, info.charSpacing, nil)
+		fillText, err := info.fontISubset.AddChars(text)
 		if err != nil {
 			return err
 		}
-		width := pointsToUnits(gp.config, textWidthPdfUnit)
+		contentText.text = fillText
 
+		//Calculate position
+		if _, _, err := contentText.createContent(); err != nil {
+			return err
+		}
+		diff := info.placeHolderWidth - contentText.textWidthPdfUnit
+		contentText.x = info.x
 		if align == Right {
-			diff := info.placeHolderWidth - width
-			contentText.x = contentText.x + diff
+			contentText.x = info.x + diff
 		} else if align == Center {
-			diff := info.placeHolderWidth - width
-			contentText.x = contentText.x + diff/2
+			contentText.x = info.x + diff/2
 		}
 	}
 
diff --git a/placeholder.go b/placeholder.go
index fb49508..f648430 100644
--- a/placeholder.go
+++ b/placeholder.go
@@ -12,4 +12,5 @@ type placeHolderTextInfo struct {
 	placeHolderWidth float64
 	fontSize         float64
 	charSpacing      float64
+	x                float64
 }
-- 
2.43.0


From 70ac09eb21d83ed044f6ab829c161e81547c823b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 26/71] fix: imported pages keep their size in documents
 measured in other units than points

---
 gopdf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index 4f8ab17..83c60a4 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1645,7 +1645,7 @@ func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) error {
 		gp.ImportObjects(imported, startObjID)
 
 		// Draws the imported template on the current page
-		gp.UseImportedTemplate(tpl, 0, 0, size["w"], size["h"])
+		gp.UseImportedTemplate(tpl, 0, 0, gp.PointsToUnits(size["w"]), gp.PointsToUnits(size["h"]))
 	}
 
 	return nil
-- 
2.43.0


From 46475234b89941938327ec3159c86f136d3be757 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 27/71] fix: a compression level above the range really selects
 best compression

---
 gopdf.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index 83c60a4..7b6af73 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -178,7 +178,6 @@ func (gp *GoPdf) SetCompressLevel(level int) {
 	} else if level > zlib.BestCompression {
 		fmt.Fprintf(os.Stderr, errfmt, "big", "BestCompression")
 		level = zlib.BestCompression
-		return
 	}
 	// sanity check complete
 	gp.compressLevel = level
-- 
2.43.0


From 50570a5542973dc6b4e7a73141f70b28d04d445e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 28/71] fix: splitting text always ends and keeps every
 character, with narrow widths and separators

---
 gopdf.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 7b6af73..28ca084 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1328,7 +1328,7 @@ func (gp *GoPdf) SplitTextWithOption(text string, width float64, opt *BreakOptio
 		return nil, err
 	}
 	// possible (not conflicting) position of the separator within the currently processed line
-	separatorIdx := 0
+	separatorIdx := -1
 	for i := 0; i < utf8TextsLen; i++ {
 		lineWidth, err := gp.MeasureTextWidth(string(lineText))
 		if err != nil {
@@ -1339,7 +1339,8 @@ func (gp *GoPdf) SplitTextWithOption(text string, width float64, opt *BreakOptio
 			return nil, err
 		}
 		// mid-word break required since the max width of the given rect is exceeded
-		if lineWidth+runeWidth > width && utf8Texts[i] != '\n' {
+		// (a line takes at least one rune, even if that alone is too wide)
+		if len(lineText) > 0 && lineWidth+runeWidth > width && utf8Texts[i] != '\n' {
 			// forceBreak will be set to true in case an indicator sensitive break was not possible which will cause
 			// strict break to not exceed the desired width
 			forceBreak := false
@@ -1350,12 +1351,14 @@ func (gp *GoPdf) SplitTextWithOption(text string, width float64, opt *BreakOptio
 			if opt.Mode == BreakModeStrict || forceBreak {
 				performStrictLineBreak(&lineTexts, &lineText, &i, separatorIdx, opt)
 			}
+			separatorIdx = -1
 			continue
 		}
 		// regular break due to a new line rune
 		if utf8Texts[i] == '\n' {
 			lineTexts = append(lineTexts, string(lineText))
 			lineText = lineText[0:0]
+			separatorIdx = -1
 			continue
 		}
 		// end of text
@@ -1364,7 +1367,7 @@ func (gp *GoPdf) SplitTextWithOption(text string, width float64, opt *BreakOptio
 			lineTexts = append(lineTexts, string(lineText))
 		}
 		// store overall index when separator would still fit in the currently processed text-line
-		if opt.HasSeparator() && lineWidth+runeWidth+separatorWidth <= width {
+		if opt.HasSeparator() && len(lineText) > 0 && lineWidth+runeWidth+separatorWidth <= width {
 			separatorIdx = i
 		}
 		lineText = append(lineText, utf8Texts[i])
-- 
2.43.0


From 3c0a582fbb29cebd793dfe4df111b70420174b6d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 29/71] fix: MultiCell draws no line below the cell and no
 empty first line

---
 gopdf.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 28ca084..ee541db 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1165,7 +1165,7 @@ func (gp *GoPdf) MultiCell(rectangle *Rect, text string) error {
 		lineWidth, _ := gp.MeasureTextWidth(string(line))
 		runeWidth, _ := gp.MeasureTextWidth(string(v))
 
-		if lineWidth+runeWidth > rectangle.W {
+		if len(line) > 0 && lineWidth+runeWidth > rectangle.W {
 			gp.Cell(&Rect{W: rectangle.W, H: lineHeight}, string(line))
 			gp.Br(lineHeight)
 			gp.SetX(x)
@@ -1175,7 +1175,7 @@ func (gp *GoPdf) MultiCell(rectangle *Rect, text string) error {
 
 		line = append(line, v)
 
-		if i == length-1 {
+		if i == length-1 && totalLineHeight+lineHeight <= rectangle.H {
 			gp.Cell(&Rect{W: rectangle.W, H: lineHeight}, string(line))
 			gp.Br(lineHeight)
 			gp.SetX(x)
@@ -1209,7 +1209,7 @@ func (gp *GoPdf) IsFitMultiCell(rectangle *Rect, text string) (bool, float64, er
 		lineWidth, _ := gp.MeasureTextWidth(string(line))
 		runeWidth, _ := gp.MeasureTextWidth(string(v))
 
-		if lineWidth+runeWidth > rectangle.W {
+		if len(line) > 0 && lineWidth+runeWidth > rectangle.W {
 			totalLineHeight += lineHeight
 			line = nil
 		}
-- 
2.43.0


From 925c7cc9b6f77a283b404f65588806893f4cc5f3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 30/71] fix: a mask group names the resources its content uses

---
 transparency_xobject_group.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/transparency_xobject_group.go b/transparency_xobject_group.go
index 911f777..59a826c 100644
--- a/transparency_xobject_group.go
+++ b/transparency_xobject_group.go
@@ -29,17 +29,17 @@ func GetCachedTransparencyXObjectGroup(opts TransparencyXObjectGroupOptions, gp
 		XObjects:         opts.XObjects,
 		pdfProtection:    opts.Protection,
 		ExtGStateIndexes: opts.ExtGStateIndexes,
+		getRoot: func() *GoPdf {
+			return gp
+		},
 	}
-	group.Index = gp.addObj(group)
-	group.init(func() *GoPdf {
-		return gp
-	})
+	group.Index = len(gp.pdfObjs)
+	gp.addObj(group)
 
 	return group, nil
 }
 
 func (s TransparencyXObjectGroup) init(funcGetRoot func() *GoPdf) {
-	s.getRoot = funcGetRoot
 }
 
 func (s *TransparencyXObjectGroup) setProtection(p *PDFProtection) {
@@ -79,6 +79,9 @@ func (s TransparencyXObjectGroup) write(w io.Writer, objId int) error {
 	content += fmt.Sprintf("\t/Type /%s\n", s.getType())
 	content += fmt.Sprintf("\t/Matrix [1 0 0 1 0 0]\n")
 	content += fmt.Sprintf("\t/BBox [%.3F %.3F %.3F %.3F]\n", s.BBox[0], s.BBox[1], s.BBox[2], s.BBox[3])
+	if s.getRoot != nil {
+		content += fmt.Sprintf("\t/Resources %d 0 R\n", s.getRoot().indexOfProcSet+1)
+	}
 	content += "\t/Group<</CS /DeviceGray /S /Transparency>>\n"
 
 	content += fmt.Sprintf("\t/Length %d\n", len(stream))
-- 
2.43.0


From af754b020f295418ef875f8df93a5e04d100d7f3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:25:20 +0000
Subject: [PATCH 31/71] fix: truncated and inconsistent PNG files are errors,
 and empty chunks do not end a PNG

---
 image_obj_parse.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/image_obj_parse.go b/image_obj_parse.go
index fd599f2..09d8395 100644
--- a/image_obj_parse.go
+++ b/image_obj_parse.go
@@ -329,6 +329,9 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				return err
 			}
 
+			if (ct[0] == 0 && n < 2) || (ct[0] == 2 && n < 6) {
+				return errors.New("Incorrect transparency chunk")
+			}
 			if ct[0] == 0 {
 				trns = []byte{(t[1])}
 			} else if ct[0] == 2 {
@@ -365,10 +368,6 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				return err
 			}
 		}
-
-		if n <= 0 {
-			break
-		}
 	} // end for
 
 	// info.data = data //ok
@@ -377,7 +376,7 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 
 	// fmt.Printf("data= %x", md5.Sum(data))
 
-	if colspace == "Indexed" && strings.TrimSpace(string(pal)) == "" {
+	if colspace == "Indexed" && len(pal) == 0 {
 		return errors.New("Missing palette")
 	}
 
@@ -406,6 +405,14 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 			return err
 		}
 
+		samples := 2
+		if ct[0] != 4 {
+			samples = 4
+		}
+		if len(afterZipData)/h < 1+samples*w {
+			return errors.New("Incomplete image data")
+		}
+
 		var color []byte
 		var alpha []byte
 		if ct[0] == 4 {
@@ -503,8 +510,11 @@ func readInt(f *bytes.Reader) (int, error) {
 }
 
 func readBytes(f *bytes.Reader, len int) ([]byte, error) {
+	if len > f.Len() {
+		return nil, io.ErrUnexpectedEOF
+	}
 	b := make([]byte, len)
-	_, err := f.Read(b)
+	_, err := io.ReadFull(f, b)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From d2cc4615cf1be000877c0bcbaa57a1c79346ae75 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 32/71] fix: imported objects are closed by a single endobj

---
 imported_obj.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/imported_obj.go b/imported_obj.go
index b42189b..88be701 100644
--- a/imported_obj.go
+++ b/imported_obj.go
@@ -2,6 +2,7 @@ package gopdf
 
 import (
 	"io"
+	"strings"
 )
 
 // ImportedObj : imported object
@@ -19,7 +20,14 @@ func (c *ImportedObj) getType() string {
 
 func (c *ImportedObj) write(w io.Writer, objID int) error {
 	if c != nil {
-		io.WriteString(w, c.Data)
+		// gofpdi's objects come with their own "endobj"
+		data := strings.TrimSuffix(strings.TrimRight(c.Data, "\r\n"), "endobj")
+		if _, err := io.WriteString(w, data); err != nil {
+			return err
+		}
+		if !strings.HasSuffix(data, "\n") {
+			io.WriteString(w, "\n")
+		}
 	}
 	return nil
 }
-- 
2.43.0


From b4484546377cee855a023a275174a7492345e079 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 33/71] fix: partial and multiple palette transparency is kept,
 and every kind of image can be a mask

---
 image_obj.go       | 20 ++++++++++++++
 image_obj_parse.go | 65 +++++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 81 insertions(+), 4 deletions(-)

diff --git a/image_obj.go b/image_obj.go
index c17607b..dea27b5 100644
--- a/image_obj.go
+++ b/image_obj.go
@@ -2,6 +2,7 @@ package gopdf
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"image"
 
@@ -135,6 +136,12 @@ func (i *ImageObj) SetImagePath(path string) error {
 // SetImage set image
 func (i *ImageObj) SetImage(r io.Reader) error {
 
+	if buff, ok := r.(*imageBuff); ok {
+		// the holder can be used again
+		i.rawImgReader = bytes.NewReader(append([]byte(nil), buff.Bytes()...))
+		return nil
+	}
+
 	data, err := io.ReadAll(r)
 	if err != nil {
 		return err
@@ -173,6 +180,9 @@ func (i *ImageObj) getRect() (*Rect, error) {
 	if h < 0 {
 		h = -imageRect.Dy() * 72 / h / k
 	}
+	if imageRect.Empty() {
+		return nil, errors.New("empty image")
+	}
 	if w == 0 {
 		w = h * imageRect.Dx() / imageRect.Dy()
 	}
@@ -194,11 +204,21 @@ func (i *ImageObj) parse() error {
 	if err != nil {
 		return err
 	}
+	if i.IsMask {
+		if err := imginfo.toMask(i.rawImgReader); err != nil {
+			return err
+		}
+	}
 	i.imginfo = imginfo
 
 	return nil
 }
 
+// isTransparent reports whether the image has any transparency of its own
+func (i *ImageObj) isTransparent() bool {
+	return i.haveSMask() || len(i.imginfo.trns) > 0
+}
+
 // Parse parse img
 func (i *ImageObj) Parse() error {
 	return i.parse()
diff --git a/image_obj_parse.go b/image_obj_parse.go
index 09d8395..689a388 100644
--- a/image_obj_parse.go
+++ b/image_obj_parse.go
@@ -299,6 +299,7 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 
 	var pal []byte
 	var trns []byte
+	var palAlpha []byte // alpha of the palette entries
 	var data []byte
 	for {
 		un, err := readUInt(f)
@@ -337,10 +338,7 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 			} else if ct[0] == 2 {
 				trns = []byte{t[1], t[3], t[5]}
 			} else {
-				pos := strings.Index(string(t), "\x00")
-				if pos >= 0 {
-					trns = []byte{byte(pos)}
-				}
+				palAlpha = t
 			}
 
 			_, err = f.Seek(int64(4), 1) // skip
@@ -469,11 +467,70 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 
 	} else {
 		info.data = data
+		if ct[0] == 3 {
+			var transparent []byte
+			partial := false
+			for i, a := range palAlpha {
+				if a == 0 {
+					transparent = append(transparent, byte(i))
+				} else if a != 255 {
+					partial = true
+				}
+			}
+			if len(transparent) == 1 && !partial {
+				info.trns = transparent // one transparent color
+			} else if len(transparent) > 0 || partial {
+				info.smask, err = alphaPlane(f, w, h)
+				if err != nil {
+					return err
+				}
+			}
+		}
 	}
 
 	return nil
 }
 
+// toMask turns the information about a picture into that of a mask, which consists of the alpha values of the
+// picture only
+func (info *imgInfo) toMask(raw *bytes.Reader) error {
+	if !haveSMask(*info) {
+		alpha, err := alphaPlane(raw, info.w, info.h)
+		if err != nil {
+			return err
+		}
+		info.smask = alpha
+	}
+	info.colspace = DeviceGray
+	info.bitsPerComponent = "8"
+	info.filter = "FlateDecode"
+	info.pal = nil
+	info.trns = nil
+	return nil
+}
+
+// alphaPlane decodes an image and returns its alpha values, compressed, as 8 bit samples with a PNG filter byte in
+// front of each row
+func alphaPlane(raw *bytes.Reader, w, h int) ([]byte, error) {
+	if _, err := raw.Seek(0, 0); err != nil {
+		return nil, err
+	}
+	img, _, err := image.Decode(raw)
+	if err != nil {
+		return nil, err
+	}
+	min := img.Bounds().Min
+	alpha := make([]byte, 0, (w+1)*h)
+	for y := 0; y < h; y++ {
+		alpha = append(alpha, 0)
+		for x := 0; x < w; x++ {
+			_, _, _, a := img.At(min.X+x, min.Y+y).RGBA()
+			alpha = append(alpha, byte(a>>8))
+		}
+	}
+	return compress(alpha)
+}
+
 func compress(data []byte) ([]byte, error) {
 	var results []byte
 	var buff bytes.Buffer
-- 
2.43.0


From 662309c0312cc1a5b636935ff2b9917b755aa179 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:32:34 +0000
Subject: [PATCH 34/71] fix: an image used again keeps its own size,
 transparency and role

---
 gopdf.go        | 79 ++++++++++++++++++++++++++++++++++++-------------
 image_holder.go |  6 ++--
 2 files changed, 60 insertions(+), 25 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index ee541db..44ff23e 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -546,24 +546,18 @@ func (gp *GoPdf) cropToPoints(crop *CropOptions) *CropOptions {
 }
 
 func (gp *GoPdf) maskHolder(img ImageHolder, opts MaskOptions) (int, error) {
-	var cacheImage *ImageCache
 	var cacheContentImage *cacheContentImage
 
-	for _, imgcache := range gp.curr.ImgCaches {
-		if img.ID() == imgcache.Path {
-			cacheImage = &imgcache
-			break
-		}
-	}
+	cacheImageIndex := gp.findCachedImage(img.ID(), true, false)
 
-	if cacheImage == nil {
+	if cacheImageIndex == -1 {
 		maskImgobj := &ImageObj{IsMask: true}
 		maskImgobj.init(func() *GoPdf {
 			return gp
 		})
 		maskImgobj.setProtection(gp.protection())
 
-		err := maskImgobj.SetImage(img)
+		err := maskImgobj.SetImage(gp.imageSource(img))
 		if err != nil {
 			return 0, err
 		}
@@ -594,10 +588,14 @@ func (gp *GoPdf) maskHolder(img ImageHolder, opts MaskOptions) (int, error) {
 		}
 	} else {
 		if opts.Rect == nil {
-			opts.Rect = gp.curr.ImgCaches[cacheImage.Index].Rect
+			rect, err := gp.cachedImageRect(cacheImageIndex)
+			if err != nil {
+				return 0, err
+			}
+			opts.Rect = rect
 		}
 
-		cacheContentImage = gp.getContent().GetCacheContentImage(cacheImage.Index, opts.ImageOptions)
+		cacheContentImage = gp.getContent().GetCacheContentImage(cacheImageIndex, opts.ImageOptions)
 	}
 
 	if cacheContentImage != nil {
@@ -657,14 +655,7 @@ func (gp *GoPdf) createTransparencyXObjectGroup(image *cacheContentImage, opts M
 }
 
 func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
-	cacheImageIndex := -1
-
-	for _, imgcache := range gp.curr.ImgCaches {
-		if img.ID() == imgcache.Path {
-			cacheImageIndex = imgcache.Index
-			break
-		}
-	}
+	cacheImageIndex := gp.findCachedImage(img.ID(), false, opts.Mask != nil)
 
 	if cacheImageIndex == -1 { //new image
 
@@ -679,7 +670,7 @@ func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 		})
 		imgobj.setProtection(gp.protection())
 
-		err := imgobj.SetImage(img)
+		err := imgobj.SetImage(gp.imageSource(img))
 		if err != nil {
 			return err
 		}
@@ -730,7 +721,11 @@ func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 
 	} else { //same img
 		if opts.Rect == nil {
-			opts.Rect = gp.curr.ImgCaches[cacheImageIndex].Rect
+			rect, err := gp.cachedImageRect(cacheImageIndex)
+			if err != nil {
+				return err
+			}
+			opts.Rect = rect
 		}
 
 		gp.getContent().AppendStreamImage(cacheImageIndex, opts)
@@ -738,6 +733,48 @@ func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 	return nil
 }
 
+// findCachedImage returns the index of the image object that already holds the image as a mask, as a picture
+// without its own transparency (splitted) or as a picture with it, or -1
+func (gp *GoPdf) findCachedImage(id string, isMask, splitted bool) int {
+	for _, imgcache := range gp.curr.ImgCaches {
+		if id != imgcache.Path {
+			continue
+		}
+		imgobj, ok := gp.pdfObjs[imgcache.Index].(*ImageObj)
+		if !ok || imgobj.IsMask != isMask {
+			continue
+		}
+		if isMask || imgobj.SplittedMask == splitted || !imgobj.isTransparent() {
+			return imgcache.Index
+		}
+	}
+	return -1
+}
+
+// imageSource returns what the image is read from: the bytes of an earlier use of the same image, since that use
+// has read img to its end, or img itself
+func (gp *GoPdf) imageSource(img ImageHolder) io.Reader {
+	for _, imgcache := range gp.curr.ImgCaches {
+		if img.ID() != imgcache.Path {
+			continue
+		}
+		if imgobj, ok := gp.pdfObjs[imgcache.Index].(*ImageObj); ok {
+			imgobj.rawImgReader.Seek(0, 0)
+			return imgobj.rawImgReader
+		}
+	}
+	return img
+}
+
+// cachedImageRect returns the natural size of an image object
+func (gp *GoPdf) cachedImageRect(index int) (*Rect, error) {
+	imgobj, ok := gp.pdfObjs[index].(*ImageObj)
+	if !ok {
+		return gp.curr.ImgCaches[index].Rect, nil
+	}
+	return imgobj.getRect()
+}
+
 // Image : draw image
 func (gp *GoPdf) Image(picPath string, x float64, y float64, rect *Rect) error {
 	imgh, err := ImageHolderByPath(picPath)
diff --git a/image_holder.go b/image_holder.go
index de2b768..716f132 100644
--- a/image_holder.go
+++ b/image_holder.go
@@ -48,14 +48,12 @@ func newImageBuff(b []byte) (*imageBuff, error) {
 }
 
 func newImageBuffByPath(path string) (*imageBuff, error) {
-	var i imageBuff
-	i.id = path
 	b, err := os.ReadFile(path)
 	if err != nil {
 		return nil, err
 	}
-	i.Write(b)
-	return &i, nil
+	// what the file contains now identifies the image, another image may be at that path later
+	return newImageBuff(b)
 }
 
 func newImageBuffByReader(r io.Reader) (*imageBuff, error) {
-- 
2.43.0


From a85e596ba978607c0c3175ef966979bc5e8f9e04 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:32:47 +0000
Subject: [PATCH 35/71] fix: errors while writing the document are reported
 with the number of bytes accepted

---
 gopdf.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 44ff23e..82464af 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1036,7 +1036,11 @@ func (gp *GoPdf) SetCharSpacing(charSpacing float64) error {
 
 // WritePdf : write pdf file
 func (gp *GoPdf) WritePdf(pdfPath string) error {
-	return os.WriteFile(pdfPath, gp.GetBytesPdf(), 0644)
+	data, err := gp.GetBytesPdfReturnErr()
+	if err != nil {
+		return err
+	}
+	return os.WriteFile(pdfPath, data, 0644)
 }
 
 // WriteTo implements the io.WriterTo interface and can
@@ -1056,6 +1060,7 @@ func (gp *GoPdf) Write(w io.Writer) error {
 func (gp *GoPdf) Read(p []byte) (int, error) {
 	if gp.buf.Len() == 0 && gp.buf.Cap() == 0 {
 		if _, err := gp.compilePdf(&gp.buf); err != nil {
+			gp.buf = bytes.Buffer{} // never hand out the beginning of a failed document
 			return 0, err
 		}
 	}
@@ -1077,6 +1082,9 @@ func (gp *GoPdf) compilePdf(w io.Writer) (n int64, err error) {
 	max := len(gp.pdfObjs)
 	writer := newCountingWriter(w)
 	fmt.Fprint(writer, "%PDF-1.7\n%\xe2\xe3\xcf\xd3\n\n")
+	if writer.err != nil {
+		return writer.offset, writer.err
+	}
 	linelens := make([]int64, max)
 	i := 0
 
@@ -1085,18 +1093,26 @@ func (gp *GoPdf) compilePdf(w io.Writer) (n int64, err error) {
 		linelens[i] = writer.offset
 		pdfObj := gp.pdfObjs[i]
 		fmt.Fprintf(writer, "%d 0 obj\n", objID)
-		pdfObj.write(writer, objID)
+		if err := pdfObj.write(writer, objID); err != nil {
+			return writer.offset, err
+		}
 		io.WriteString(writer, "endobj\n\n")
+		if writer.err != nil {
+			return writer.offset, writer.err
+		}
 		i++
 	}
-	gp.xref(writer, writer.offset, linelens, i)
-	return writer.offset, nil
+	if err := gp.xref(writer, writer.offset, linelens, i); err != nil {
+		return writer.offset, err
+	}
+	return writer.offset, writer.err
 }
 
 type (
 	countingWriter struct {
 		offset int64
 		writer io.Writer
+		err    error // first error of writer, nothing is written after it
 	}
 )
 
@@ -1105,8 +1121,15 @@ func newCountingWriter(w io.Writer) *countingWriter {
 }
 
 func (cw *countingWriter) Write(b []byte) (int, error) {
+	if cw.err != nil {
+		return 0, cw.err
+	}
 	n, err := cw.writer.Write(b)
 	cw.offset += int64(n)
+	if err == nil && n < len(b) {
+		err = io.ErrShortWrite
+	}
+	cw.err = err
 	return n, err
 }
 
-- 
2.43.0


From e063e9b818d529aec37f579319069608abcf3778 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 36/71] fix: a masked image that is rotated and also flipped or
 cropped turns about its visible centre

---
 cache_content_image.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/cache_content_image.go b/cache_content_image.go
index 9e4e3f6..88cc32f 100644
--- a/cache_content_image.go
+++ b/cache_content_image.go
@@ -57,8 +57,16 @@ func (c *cacheContentImage) computeMaskImageRotateTrMt() string {
 		return ""
 	}
 
-	x := c.x + c.rect.W/2
-	y := c.y + c.rect.H/2
+	w := c.rect.W
+	h := c.rect.H
+
+	if c.crop != nil {
+		w = c.crop.Width
+		h = c.crop.Height
+	}
+
+	x := c.x + w/2
+	y := c.y + h/2
 
 	rotateMat := computeRotateTransformationMatrix(x, y, angle, c.pageHeight)
 
@@ -83,6 +91,14 @@ func (c *cacheContentImage) write(writer io.Writer, protection *PDFProtection) e
 		contentStream += fmt.Sprintf("/GS%d gs\n", extGStateIndex)
 	}
 
+	// the rotation comes after the mask is set, which stays in place, and
+	// before flips and crop, which turn with the image
+	if c.withMask {
+		if rotateMat := c.computeMaskImageRotateTrMt(); rotateMat != "" {
+			contentStream += rotateMat + "\n"
+		}
+	}
+
 	if c.horizontalFlip || c.verticalFlip {
 		fh := "1"
 		if c.horizontalFlip {
@@ -134,12 +150,7 @@ func (c *cacheContentImage) write(writer io.Writer, protection *PDFProtection) e
 		}
 	}
 
-	var maskImageRotateMat string
-	if c.withMask {
-		maskImageRotateMat = c.computeMaskImageRotateTrMt()
-	}
-
-	contentStream += fmt.Sprintf("q\n %s %0.2f 0 0\n %0.2f %0.2f %0.2f cm /I%d Do \nQ\n", maskImageRotateMat, width, height, x, y, c.index+1)
+	contentStream += fmt.Sprintf("q\n %0.2f 0 0\n %0.2f %0.2f %0.2f cm /I%d Do \nQ\n", width, height, x, y, c.index+1)
 
 	contentStream += "Q\n"
 
-- 
2.43.0


From bcc610e8c8ba5ae19970c8c5a8f52534c5839d2f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:37:01 +0000
Subject: [PATCH 37/71] fix: the document-wide transparency is not applied a
 second time to the mask of an image

---
 gopdf.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 82464af..4e14dad 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -512,13 +512,16 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 			mask.BBox = &bbox
 		}
 
-		maskTransparency, err := gp.getCachedTransparency(opts.Mask.ImageOptions.Transparency)
-		if err != nil {
-			return err
-		}
+		// the document-wide transparency applies to the masked image, not again to its mask
+		if opts.Mask.ImageOptions.Transparency != nil {
+			maskTransparency, err := gp.getCachedTransparency(opts.Mask.ImageOptions.Transparency)
+			if err != nil {
+				return err
+			}
 
-		if maskTransparency != nil {
-			opts.Mask.ImageOptions.extGStateIndexes = append(opts.Mask.ImageOptions.extGStateIndexes, maskTransparency.extGStateIndex)
+			if maskTransparency != nil {
+				opts.Mask.ImageOptions.extGStateIndexes = append(opts.Mask.ImageOptions.extGStateIndexes, maskTransparency.extGStateIndex)
+			}
 		}
 
 		gp.UnitsToPointsVar(&opts.Mask.ImageOptions.X, &opts.Mask.ImageOptions.Y)
-- 
2.43.0


From f350c12c2c8db28128ef6e324ad731315b91b0b3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:39:06 +0000
Subject: [PATCH 38/71] fix: imported templates are listed in the same order in
 every output

---
 procset_obj.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/procset_obj.go b/procset_obj.go
index 77da7ac..fe22751 100644
--- a/procset_obj.go
+++ b/procset_obj.go
@@ -3,6 +3,7 @@ package gopdf
 import (
 	"fmt"
 	"io"
+	"sort"
 )
 
 // ProcSetObj is a PDF procSet object.
@@ -47,8 +48,13 @@ func (pr *ProcSetObj) write(w io.Writer, objID int) error {
 		xobjects += fmt.Sprintf("\t\t/I%d %d 0 R\n", XObject.IndexOfObj+1, XObject.IndexOfObj+1)
 	}
 	// Write imported template name and their ids
-	for tplName, objID := range pr.ImportedTemplateIds {
-		xobjects += fmt.Sprintf("\t\t%s %d 0 R\n", tplName, objID)
+	tplNames := make([]string, 0, len(pr.ImportedTemplateIds))
+	for tplName := range pr.ImportedTemplateIds {
+		tplNames = append(tplNames, tplName)
+	}
+	sort.Strings(tplNames)
+	for _, tplName := range tplNames {
+		xobjects += fmt.Sprintf("\t\t%s %d 0 R\n", tplName, pr.ImportedTemplateIds[tplName])
 	}
 	xobjects += "\t>>\n"
 
-- 
2.43.0


From 75702fb7c4fa2a972918e02da449958d4ba4b967 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 39/71] fix: pages imported from several sources never share a
 template name

---
 gopdf.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 4e14dad..e477807 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -101,6 +101,8 @@ type GoPdf struct {
 
 	// gofpdi free pdf document importer
 	fpdi *gofpdi.Importer
+	// names of the templates imported by this document, by template id
+	tplNames map[int]string
 
 	//placeholder text
 	placeHolderTexts map[string]([]placeHolderTextInfo)
@@ -1578,7 +1580,7 @@ func (gp *GoPdf) ImportPage(sourceFile string, pageno int, box string) int {
 	tplObjIDs := gp.fpdi.PutFormXobjects()
 
 	// Set template names and ids in gopdf
-	gp.ImportTemplates(tplObjIDs)
+	gp.importTemplate(tpl, tplObjIDs)
 
 	// Get a map[int]string of the imported objects.
 	// The map keys will be the ID of each object.
@@ -1612,7 +1614,7 @@ func (gp *GoPdf) ImportPageStream(sourceStream *io.ReadSeeker, pageno int, box s
 	tplObjIDs := gp.fpdi.PutFormXobjects()
 
 	// Set template names and ids in gopdf
-	gp.ImportTemplates(tplObjIDs)
+	gp.importTemplate(tpl, tplObjIDs)
 
 	// Get a map[int]string of the imported objects.
 	// The map keys will be the ID of each object.
@@ -1644,6 +1646,9 @@ func (gp *GoPdf) UseImportedTemplate(tplid int, x float64, y float64, w float64,
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
 	// Get template values to draw
 	tplName, scaleX, scaleY, tX, tY := gp.fpdi.UseTemplate(tplid, x, y, w, h)
+	if name, ok := gp.tplNames[tplid]; ok {
+		tplName = name
+	}
 	gp.getContent().AppendStreamImportedTemplate(tplName, scaleX, scaleY, tX, tY)
 }
 
@@ -1700,7 +1705,7 @@ func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) error {
 		tplObjIDs := gp.fpdi.PutFormXobjects()
 
 		// Set template names and ids in gopdf
-		gp.ImportTemplates(tplObjIDs)
+		gp.importTemplate(tpl, tplObjIDs)
 
 		// Get a map[int]string of the imported objects.
 		// The map keys will be the ID of each object.
@@ -1743,6 +1748,15 @@ func (gp *GoPdf) ImportTemplates(tpls map[string]int) {
 	}
 }
 
+// importTemplate names the template with the given id in the procset dictionary.
+// gofpdi numbers its names per source, so pages of different sources may share one.
+func (gp *GoPdf) importTemplate(tplid int, tpls map[string]int) {
+	fpdiName, _, _, _, _ := gp.fpdi.UseTemplate(tplid, 0, 0, 0, 0)
+	name := fmt.Sprintf("/GOPDFTPL%d", tplid)
+	gp.tplNames[tplid] = name
+	gp.ImportTemplates(map[string]int{name: tpls[fpdiName]})
+}
+
 // AddExternalLink adds a new external link.
 func (gp *GoPdf) AddExternalLink(url string, x, y, w, h float64) {
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
@@ -2221,6 +2235,7 @@ func (gp *GoPdf) init(importer ...*gofpdi.Importer) {
 
 	// init gofpdi free pdf document importer
 	gp.fpdi = importerOrDefault(importer...)
+	gp.tplNames = make(map[int]string)
 
 }
 
-- 
2.43.0


From 952449717752dd4feb0d349a94ec196ef794ce6b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 40/71] fix: streams pages are imported from are told apart by
 the stream, not by a reusable address

---
 gopdf.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index e477807..1f6f0a9 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -13,6 +13,7 @@ import (
 	"log"
 	"math"
 	"os"
+	"reflect"
 	"strconv"
 	"strings"
 	"time"
@@ -101,6 +102,8 @@ type GoPdf struct {
 
 	// gofpdi free pdf document importer
 	fpdi *gofpdi.Importer
+	// streams pages were imported from
+	fpdiStreams []*io.ReadSeeker
 	// names of the templates imported by this document, by template id
 	tplNames map[int]string
 
@@ -1598,7 +1601,7 @@ func (gp *GoPdf) ImportPage(sourceFile string, pageno int, box string) int {
 // gofpdi code
 func (gp *GoPdf) ImportPageStream(sourceStream *io.ReadSeeker, pageno int, box string) int {
 	// Set source file for fpdi
-	gp.fpdi.SetSourceStream(sourceStream)
+	gp.setSourceStream(*sourceStream)
 
 	// gofpdi needs to know where to start the object id at.
 	// By default, it starts at 1, but gopdf adds a few objects initially.
@@ -1630,7 +1633,7 @@ func (gp *GoPdf) ImportPageStream(sourceStream *io.ReadSeeker, pageno int, box s
 // GetStreamPageSizes gets the sizes of the pages using a stream
 // Returns a map of available pages and its box sizes starting with the first page at index 1 containing a map of boxes containing a map of size values
 func (gp *GoPdf) GetStreamPageSizes(sourceStream *io.ReadSeeker) map[int]map[string]map[string]float64 {
-	gp.fpdi.SetSourceStream(sourceStream)
+	gp.setSourceStream(*sourceStream)
 	return gp.fpdi.GetPageSizes()
 }
 
@@ -1661,14 +1664,13 @@ func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) error {
 		gp.fpdi.SetSourceFile(v)
 	case []byte:
 		// Set source stream for fpdi
-		rs := io.ReadSeeker(bytes.NewReader(v))
-		gp.fpdi.SetSourceStream(&rs)
+		gp.setSourceStream(bytes.NewReader(v))
 	case io.ReadSeeker:
 		// Set source stream for fpdi
-		gp.fpdi.SetSourceStream(&v)
+		gp.setSourceStream(v)
 	case *io.ReadSeeker:
 		// Set source stream for fpdi
-		gp.fpdi.SetSourceStream(v)
+		gp.setSourceStream(*v)
 	default:
 		return errors.New("source type not supported")
 	}
@@ -1748,6 +1750,22 @@ func (gp *GoPdf) ImportTemplates(tpls map[string]int) {
 	}
 }
 
+// setSourceStream sets the stream to import from. gofpdi tells streams apart by
+// the address of the variable that holds them, so each stream gets a variable
+// of its own, which lives as long as the document.
+func (gp *GoPdf) setSourceStream(stream io.ReadSeeker) {
+	if t := reflect.TypeOf(stream); t != nil && t.Kind() == reflect.Ptr {
+		for _, s := range gp.fpdiStreams {
+			if *s == stream {
+				gp.fpdi.SetSourceStream(s)
+				return
+			}
+		}
+	}
+	gp.fpdiStreams = append(gp.fpdiStreams, &stream)
+	gp.fpdi.SetSourceStream(&stream)
+}
+
 // importTemplate names the template with the given id in the procset dictionary.
 // gofpdi numbers its names per source, so pages of different sources may share one.
 func (gp *GoPdf) importTemplate(tplid int, tpls map[string]int) {
@@ -2235,6 +2253,7 @@ func (gp *GoPdf) init(importer ...*gofpdi.Importer) {
 
 	// init gofpdi free pdf document importer
 	gp.fpdi = importerOrDefault(importer...)
+	gp.fpdiStreams = nil
 	gp.tplNames = make(map[int]string)
 
 }
-- 
2.43.0


From 9f000d167cce2a9107bcf3fd90613fc1cabc3402 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 41/71] fix: font data given as a byte slice is copied, it
 stays the caller's

---
 subset_font_obj.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subset_font_obj.go b/subset_font_obj.go
index cb37664..57973ae 100644
--- a/subset_font_obj.go
+++ b/subset_font_obj.go
@@ -126,7 +126,8 @@ func (s *SubsetFontObj) SetTTFByReader(rd io.Reader) error {
 func (s *SubsetFontObj) SetTTFData(data []byte) error {
 	useKerning := s.ttfFontOption.UseKerning
 	s.ttfp.SetUseKerning(useKerning)
-	err := s.ttfp.ParseFontData(data)
+	// the parser keeps the data, which belongs to the caller
+	err := s.ttfp.ParseFontData(append([]byte(nil), data...))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From c697efae5ccf743530b875faed3a2b7a2af62467 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:46:45 +0000
Subject: [PATCH 42/71] fix: a table with an unregistered font or more cells
 than columns is an error, before anything is drawn

---
 table.go | 50 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 3ec0027..4e14d35 100644
--- a/table.go
+++ b/table.go
@@ -1,5 +1,10 @@
 package gopdf
 
+import "errors"
+
+// ErrTooManyCells a row of a table has more cells than the table has columns
+var ErrTooManyCells = errors.New("row has more cells than the table has columns")
+
 // Represents an RGB color with red, green, and blue components
 type RGBColor struct {
 	R uint8 // Red component (0-255)
@@ -160,6 +165,10 @@ func (t *tableLayout) SetCellStyle(style CellStyle) {
 
 // DrawTable the entire table on the PDF
 func (t *tableLayout) DrawTable() error {
+	if err := t.check(); err != nil {
+		return err
+	}
+
 	x := t.startX
 	y := t.startY
 
@@ -235,6 +244,43 @@ func (t *tableLayout) DrawTable() error {
 	return nil
 }
 
+// Checks that the table can be drawn, before anything of it is drawn
+func (t *tableLayout) check() error {
+	styles := []CellStyle{}
+	if len(t.columns) > 0 {
+		styles = append(styles, t.headerStyle)
+		if len(t.rows) < t.maxRows {
+			styles = append(styles, t.cellStyle)
+		}
+	}
+	for _, row := range t.rows {
+		if len(row) > len(t.columns) {
+			return ErrTooManyCells
+		}
+		for _, cell := range row {
+			if cell.useCellStyle {
+				styles = append(styles, cell.cellStyle)
+			} else {
+				styles = append(styles, t.cellStyle)
+			}
+		}
+	}
+	curr := &t.pdf.curr
+	size, style, count, font := curr.FontSize, curr.FontStyle, curr.FontFontCount, curr.FontISubset
+	defer func() {
+		curr.FontSize, curr.FontStyle, curr.FontFontCount, curr.FontISubset = size, style, count, font
+	}()
+	for _, style := range styles {
+		if style.Font == "" {
+			continue
+		}
+		if err := t.pdf.SetFont(style.Font, "", style.FontSize); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // Draws the outer border of the table and header
 func (t *tableLayout) drawTableAndHeaderBorder() error {
 	x1 := t.startX
@@ -301,7 +347,9 @@ func (t *tableLayout) drawCell(
 	// Set the text color and font
 	t.pdf.SetTextColor(style.TextColor.R, style.TextColor.G, style.TextColor.B)
 	if style.Font != "" {
-		t.pdf.SetFont(style.Font, "", style.FontSize)
+		if err := t.pdf.SetFont(style.Font, "", style.FontSize); err != nil {
+			return err
+		}
 	}
 
 	// Draw the cell content
-- 
2.43.0


From f116f3d0bd82e8efaae24dd7a7aa12ebb813f601 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:46:48 +0000
Subject: [PATCH 43/71] fix: the outer border of a table surrounds all its rows

---
 table.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 4e14d35..de026cb 100644
--- a/table.go
+++ b/table.go
@@ -286,7 +286,11 @@ func (t *tableLayout) drawTableAndHeaderBorder() error {
 	x1 := t.startX
 	y1 := t.startY
 	x2 := t.startX
-	y2 := t.startY + float64(t.maxRows+1)*t.rowHeight
+	rows := t.maxRows
+	if len(t.rows) > rows {
+		rows = len(t.rows)
+	}
+	y2 := t.startY + float64(rows+1)*t.rowHeight
 
 	for _, col := range t.columns {
 		x2 += col.width
-- 
2.43.0


From 6dacbbc2416c1cdc1a149c0be8cd11dc1968dec9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:46:51 +0000
Subject: [PATCH 44/71] fix: the font of one table cell does not leak to cells
 whose style names none

---
 table.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/table.go b/table.go
index de026cb..90c5131 100644
--- a/table.go
+++ b/table.go
@@ -75,6 +75,12 @@ type tableLayout struct {
 	tableStyle  CellStyle  // Style for the entire table
 	headerStyle CellStyle  // Style for the header row
 	cellStyle   CellStyle  // Style for regular cells
+
+	// font in force when the table is drawn, used by the styles that name none
+	fontSize      float64
+	fontStyle     int
+	fontFontCount int
+	fontISubset   *SubsetFontObj
 }
 
 var _ TableLayout = (*tableLayout)(nil)
@@ -169,6 +175,9 @@ func (t *tableLayout) DrawTable() error {
 		return err
 	}
 
+	curr := &t.pdf.curr
+	t.fontSize, t.fontStyle, t.fontFontCount, t.fontISubset = curr.FontSize, curr.FontStyle, curr.FontFontCount, curr.FontISubset
+
 	x := t.startX
 	y := t.startY
 
@@ -354,6 +363,10 @@ func (t *tableLayout) drawCell(
 		if err := t.pdf.SetFont(style.Font, "", style.FontSize); err != nil {
 			return err
 		}
+	} else if t.fontISubset != nil {
+		// not the font of the cell before
+		curr := &t.pdf.curr
+		curr.FontSize, curr.FontStyle, curr.FontFontCount, curr.FontISubset = t.fontSize, t.fontStyle, t.fontFontCount, t.fontISubset
 	}
 
 	// Draw the cell content
-- 
2.43.0


From 77618a72a4c30059a8ba715e24b19a4ef34c778c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 45/71] fix: an image call that fails leaves no transparency or
 mask object behind, nor does a multi-line cell

---
 gopdf.go | 200 ++++++++++++++++++++++++++++---------------------------
 1 file changed, 102 insertions(+), 98 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 1f6f0a9..e07fe93 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -497,6 +497,20 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 	opts.Rect = opts.Rect.unitsToPoints(gp.config)
 	opts.Crop = gp.cropToPoints(opts.Crop)
 
+	// everything is read before the document is touched: a failing call leaves nothing behind
+	var maskImage *loadedImage
+	if opts.Mask != nil {
+		var err error
+		if maskImage, err = gp.loadImage(opts.Mask.Holder, opts.Mask.ImageOptions.Rect.unitsToPoints(gp.config), true, false, nil); err != nil {
+			return err
+		}
+	}
+	picture, err := gp.loadImage(img, opts.Rect, false, opts.Mask != nil, maskImage)
+	if err != nil {
+		return err
+	}
+	opts.Rect = picture.rect
+
 	imageTransparency, err := gp.getCachedTransparency(opts.Transparency)
 	if err != nil {
 		return err
@@ -530,9 +544,9 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 		}
 
 		gp.UnitsToPointsVar(&opts.Mask.ImageOptions.X, &opts.Mask.ImageOptions.Y)
-		opts.Mask.ImageOptions.Rect = opts.Mask.ImageOptions.Rect.unitsToPoints(gp.config)
+		opts.Mask.ImageOptions.Rect = maskImage.rect
 
-		extGStateIndex, err := gp.maskHolder(opts.Mask.Holder, *opts.Mask)
+		extGStateIndex, err := gp.maskHolder(maskImage, *opts.Mask)
 		if err != nil {
 			return err
 		}
@@ -540,7 +554,7 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 		opts.extGStateIndexes = append(opts.extGStateIndexes, extGStateIndex)
 	}
 
-	return gp.imageByHolder(img, opts)
+	return gp.imageByHolder(picture, opts)
 }
 
 // cropToPoints returns a copy of crop in points
@@ -553,57 +567,94 @@ func (gp *GoPdf) cropToPoints(crop *CropOptions) *CropOptions {
 	return &c
 }
 
-func (gp *GoPdf) maskHolder(img ImageHolder, opts MaskOptions) (int, error) {
-	var cacheContentImage *cacheContentImage
-
-	cacheImageIndex := gp.findCachedImage(img.ID(), true, false)
+// loadedImage is an image that is read and parsed, either already part of the document or not yet
+type loadedImage struct {
+	id    string
+	index int       // of the image in the document, or -1
+	obj   *ImageObj // the new image when index is -1
+	smask *SMask    // its transparency, if it has any
+	dRGB  *DeviceRGBObj
+	rect  *Rect // where it is drawn: the requested rectangle, or one of its natural size
+}
 
-	if cacheImageIndex == -1 {
-		maskImgobj := &ImageObj{IsMask: true}
-		maskImgobj.init(func() *GoPdf {
-			return gp
-		})
-		maskImgobj.setProtection(gp.protection())
+// loadImage reads and parses an image; other is an image read just before that is not part of the document yet
+func (gp *GoPdf) loadImage(img ImageHolder, rect *Rect, isMask, splitted bool, other *loadedImage) (*loadedImage, error) {
+	l := &loadedImage{id: img.ID(), rect: rect}
+	l.index = gp.findCachedImage(l.id, isMask, splitted)
 
-		err := maskImgobj.SetImage(gp.imageSource(img))
-		if err != nil {
-			return 0, err
+	if l.index != -1 {
+		if l.rect == nil {
+			cachedRect, err := gp.cachedImageRect(l.index)
+			if err != nil {
+				return nil, err
+			}
+			l.rect = cachedRect
 		}
+		return l, nil
+	}
 
-		if opts.Rect == nil {
-			if opts.Rect, err = maskImgobj.getRect(); err != nil {
-				return 0, err
-			}
+	l.obj = &ImageObj{IsMask: isMask, SplittedMask: splitted}
+	l.obj.init(func() *GoPdf {
+		return gp
+	})
+	l.obj.setProtection(gp.protection())
+
+	source := gp.imageSource(img)
+	if other != nil && other.obj != nil && other.id == l.id {
+		other.obj.rawImgReader.Seek(0, 0)
+		source = other.obj.rawImgReader
+	}
+	err := l.obj.SetImage(source)
+	if err != nil {
+		return nil, err
+	}
+
+	if l.rect == nil {
+		if l.rect, err = l.obj.getRect(); err != nil {
+			return nil, err
 		}
+	}
 
-		if err := maskImgobj.parse(); err != nil {
-			return 0, err
+	if err := l.obj.parse(); err != nil {
+		return nil, err
+	}
+
+	if !isMask && l.obj.haveSMask() {
+		if l.smask, err = l.obj.createSMask(); err != nil {
+			return nil, err
+		}
+	}
+	if !isMask && l.obj.isColspaceIndexed() {
+		if l.dRGB, err = l.obj.createDeviceRGB(); err != nil {
+			return nil, err
+		}
+		l.dRGB.getRoot = func() *GoPdf {
+			return gp
 		}
+	}
+	return l, nil
+}
 
+func (gp *GoPdf) maskHolder(img *loadedImage, opts MaskOptions) (int, error) {
+	var cacheContentImage *cacheContentImage
+
+	if img.index == -1 {
 		if gp.indexOfProcSet != -1 {
-			index := gp.addObj(maskImgobj)
+			index := gp.addObj(img.obj)
 			cacheContentImage = gp.getContent().GetCacheContentImage(index, opts.ImageOptions)
 			procset := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
 			procset.RelateXobjs = append(procset.RelateXobjs, RelateXobject{IndexOfObj: index})
 
 			imgcache := ImageCache{
 				Index: index,
-				Path:  img.ID(),
+				Path:  img.id,
 				Rect:  opts.Rect,
 			}
 			gp.curr.ImgCaches[index] = imgcache
 			gp.curr.CountOfImg++
 		}
 	} else {
-		if opts.Rect == nil {
-			rect, err := gp.cachedImageRect(cacheImageIndex)
-			if err != nil {
-				return 0, err
-			}
-			opts.Rect = rect
-		}
-
-		cacheContentImage = gp.getContent().GetCacheContentImage(cacheImageIndex, opts.ImageOptions)
+		cacheContentImage = gp.getContent().GetCacheContentImage(img.index, opts.ImageOptions)
 	}
 
 	if cacheContentImage != nil {
@@ -662,37 +713,9 @@ func (gp *GoPdf) createTransparencyXObjectGroup(image *cacheContentImage, opts M
 	return extGState.Index + 1, nil
 }
 
-func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
-	cacheImageIndex := gp.findCachedImage(img.ID(), false, opts.Mask != nil)
-
-	if cacheImageIndex == -1 { //new image
-
-		//create img object
-		imgobj := new(ImageObj)
-		if opts.Mask != nil {
-			imgobj.SplittedMask = true
-		}
-
-		imgobj.init(func() *GoPdf {
-			return gp
-		})
-		imgobj.setProtection(gp.protection())
-
-		err := imgobj.SetImage(gp.imageSource(img))
-		if err != nil {
-			return err
-		}
-
-		if opts.Rect == nil {
-			if opts.Rect, err = imgobj.getRect(); err != nil {
-				return err
-			}
-		}
-
-		err = imgobj.parse()
-		if err != nil {
-			return err
-		}
+func (gp *GoPdf) imageByHolder(img *loadedImage, opts ImageOptions) error {
+	if img.index == -1 { //new image
+		imgobj := img.obj
 		index := gp.addObj(imgobj)
 		if gp.indexOfProcSet != -1 {
 			//ยัดรูป
@@ -702,41 +725,22 @@ func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 			//เก็บข้อมูลรูปเอาไว้
 			var imgcache ImageCache
 			imgcache.Index = index
-			imgcache.Path = img.ID()
+			imgcache.Path = img.id
 			imgcache.Rect = opts.Rect
 			gp.curr.ImgCaches[index] = imgcache
 			gp.curr.CountOfImg++
 		}
 
-		if imgobj.haveSMask() {
-			smaskObj, err := imgobj.createSMask()
-			if err != nil {
-				return err
-			}
-			imgobj.imginfo.smarkObjID = gp.addObj(smaskObj)
+		if img.smask != nil {
+			imgobj.imginfo.smarkObjID = gp.addObj(img.smask)
 		}
 
-		if imgobj.isColspaceIndexed() {
-			dRGB, err := imgobj.createDeviceRGB()
-			if err != nil {
-				return err
-			}
-			dRGB.getRoot = func() *GoPdf {
-				return gp
-			}
-			imgobj.imginfo.deviceRGBObjID = gp.addObj(dRGB)
+		if img.dRGB != nil {
+			imgobj.imginfo.deviceRGBObjID = gp.addObj(img.dRGB)
 		}
 
 	} else { //same img
-		if opts.Rect == nil {
-			rect, err := gp.cachedImageRect(cacheImageIndex)
-			if err != nil {
-				return err
-			}
-			opts.Rect = rect
-		}
-
-		gp.getContent().AppendStreamImage(cacheImageIndex, opts)
+		gp.getContent().AppendStreamImage(img.index, opts)
 	}
 	return nil
 }
@@ -1319,15 +1323,6 @@ func (gp *GoPdf) MultiCellWithOption(rectangle *Rect, text string, opt CellOptio
 		opt.BreakOption = &DefaultBreakOption
 	}
 
-	transparency, err := gp.getCachedTransparency(opt.Transparency)
-	if err != nil {
-		return err
-	}
-
-	if transparency != nil {
-		opt.extGStateIndexes = append(opt.extGStateIndexes, transparency.extGStateIndex)
-	}
-
 	x := gp.GetX()
 
 	// get lineHeight
@@ -1346,6 +1341,15 @@ func (gp *GoPdf) MultiCellWithOption(rectangle *Rect, text string, opt CellOptio
 		return err
 	}
 
+	transparency, err := gp.getCachedTransparency(opt.Transparency)
+	if err != nil {
+		return err
+	}
+
+	if transparency != nil {
+		opt.extGStateIndexes = append(opt.extGStateIndexes, transparency.extGStateIndex)
+	}
+
 	lastLine := len(textSplits) - 1
 	// the block of lines as a whole is aligned within the rectangle
 	startHeight := rectangle.H - lineHeight*float64(lastLine)
-- 
2.43.0


From d0c36a3038e7b816b1f954297f9efc56e0021367 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 46/71] fix: the embedded font has all components of composite
 glyphs, only tables the font has, and right checksums

---
 pdf_dictionary_obj.go | 60 +++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/pdf_dictionary_obj.go b/pdf_dictionary_obj.go
index 5f771e1..a3f81ca 100644
--- a/pdf_dictionary_obj.go
+++ b/pdf_dictionary_obj.go
@@ -185,15 +185,12 @@ func (p *PdfDictionaryObj) makeFont() ([]byte, error) {
 	var buff Buff
 	ttfp := p.PtrToSubsetFontObj.GetTTFParser()
 	tables := make(map[string]core.TableDirectoryEntry)
-	tables["cvt "] = ttfp.GetTables()["cvt "] //มีช่องว่างด้วยนะ
-	tables["fpgm"] = ttfp.GetTables()["fpgm"]
-	tables["glyf"] = ttfp.GetTables()["glyf"]
-	tables["head"] = ttfp.GetTables()["head"]
-	tables["hhea"] = ttfp.GetTables()["hhea"]
-	tables["hmtx"] = ttfp.GetTables()["hmtx"]
-	tables["loca"] = ttfp.GetTables()["loca"]
-	tables["maxp"] = ttfp.GetTables()["maxp"]
-	tables["prep"] = ttfp.GetTables()["prep"]
+	// cvt (มีช่องว่างด้วยนะ), fpgm and prep are optional
+	for _, tag := range []string{"cvt ", "fpgm", "glyf", "head", "hhea", "hmtx", "loca", "maxp", "prep"} {
+		if table, ok := ttfp.GetTables()[tag]; ok {
+			tables[tag] = table
+		}
+	}
 	tableCount := len(tables)
 	selector := EntrySelectors[tableCount]
 
@@ -214,6 +211,7 @@ func (p *PdfDictionaryObj) makeFont() ([]byte, error) {
 	}
 	sort.Strings(tags) //order
 	idx := 0
+	headPosition := -1
 	tablePosition := int(12 + 16*tableCount)
 	for idx < tableCount {
 		entry := tables[tags[idx]]
@@ -258,7 +256,16 @@ func (p *PdfDictionaryObj) makeFont() ([]byte, error) {
 			entry.CheckSum = CheckSum(data)
 			WriteBytes(&buff, data, 0, len(data))
 		} else {
-			WriteBytes(&buff, ttfp.FontData(), int(entry.Offset), entry.PaddedLength())
+			// the padding after the last table may be missing in the file
+			data := make([]byte, entry.PaddedLength())
+			copy(data, ttfp.FontData()[entry.Offset:entry.Offset+entry.Length])
+			if tags[idx] == "head" && len(data) >= 12 {
+				// checkSumAdjustment counts as zero until the whole font is known
+				headPosition = tablePosition
+				copy(data[8:12], []byte{0, 0, 0, 0})
+			}
+			entry.CheckSum = CheckSum(data)
+			WriteBytes(&buff, data, 0, len(data))
 		}
 		endPosition := buff.Position()
 		tablePosition = endPosition
@@ -273,6 +280,10 @@ func (p *PdfDictionaryObj) makeFont() ([]byte, error) {
 		tablePosition = endPosition
 		idx++
 	}
+	if headPosition != -1 {
+		buff.SetPosition(headPosition + 8)
+		WriteUInt32(&buff, uint(uint32(0xB1B0AFBA)-uint32(CheckSum(buff.Bytes()))))
+	}
 	//DebugSubType(buff.Bytes())
 	//me.buffer.Write(buff.Bytes())
 	return buff.Bytes(), nil
@@ -293,11 +304,9 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 		glyphArray = append(glyphArray, 0)
 	}
 
-	i := 0
-	count := len(glyphs)
-	for i < count {
+	// the components of a composite glyph may be composite glyphs themselves, and so may glyph zero
+	for i := 0; i < len(glyphArray); i++ {
 		p.AddCompositeGlyphs(&glyphArray, glyphArray[i])
-		i++
 	}
 	return glyphArray
 }
@@ -378,17 +387,18 @@ func CheckSum(data []byte) uint {
 	byte2 = 0
 	byte1 = 0
 	byte0 = 0
-	length := len(data)
-	i := 0
-	for i < length {
-		byte3 += uint64(data[i])
-		i++
-		byte2 += uint64(data[i])
-		i++
-		byte1 += uint64(data[i])
-		i++
-		byte0 += uint64(data[i])
-		i++
+	// data is taken as padded with zeros to a multiple of four bytes
+	for i, b := range data {
+		switch i % 4 {
+		case 0:
+			byte3 += uint64(b)
+		case 1:
+			byte2 += uint64(b)
+		case 2:
+			byte1 += uint64(b)
+		default:
+			byte0 += uint64(b)
+		}
 	}
 	//var result uint32
 	result := uint32(byte3<<24) + uint32(byte2<<16) + uint32(byte1<<8) + uint32(byte0)
-- 
2.43.0


From 37428b5697f083af58eb53f3d823dc32a47d7575 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 47/71] fix: a character that the font maps to no glyph is not
 found, whichever way the character map says so

---
 subset_font_obj.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/subset_font_obj.go b/subset_font_obj.go
index 57973ae..a865f44 100644
--- a/subset_font_obj.go
+++ b/subset_font_obj.go
@@ -263,7 +263,7 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat4(r rune) (uint, error) {
 		seg++
 	}
 	//fmt.Printf("\ncccc--->%#v\n", me.ttfp.Chars())
-	if value < s.ttfp.StartCount[seg] {
+	if seg == segCount || value < s.ttfp.StartCount[seg] {
 		return 0, ErrGlyphNotFound
 	}
 
@@ -274,8 +274,8 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat4(r rune) (uint, error) {
 	//fmt.Printf("IdRangeOffset=%d\n", me.ttfp.IdRangeOffset[seg])
 	idx := s.ttfp.IdRangeOffset[seg]/2 + (value - s.ttfp.StartCount[seg]) - (segCount - seg)
 
-	if s.ttfp.GlyphIdArray[int(idx)] == uint(0) {
-		return 0, nil
+	if idx >= uint(len(s.ttfp.GlyphIdArray)) || s.ttfp.GlyphIdArray[int(idx)] == uint(0) {
+		return 0, ErrGlyphNotFound
 	}
 
 	return (s.ttfp.GlyphIdArray[int(idx)] + s.ttfp.IdDelta[seg]) & 0xFFFF, nil
@@ -284,17 +284,20 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat4(r rune) (uint, error) {
 // CharCodeToGlyphIndex gets glyph index from char code.
 func (s *SubsetFontObj) CharCodeToGlyphIndex(r rune) (uint, error) {
 	value := uint64(r)
+	var gIndex uint
+	var err error
 	if value <= 0xFFFF {
-		gIndex, err := s.charCodeToGlyphIndexFormat4(r)
-		if err != nil {
-			return 0, err
-		}
-		return gIndex, nil
+		gIndex, err = s.charCodeToGlyphIndexFormat4(r)
+	} else {
+		gIndex, err = s.charCodeToGlyphIndexFormat12(r)
 	}
-	gIndex, err := s.charCodeToGlyphIndexFormat12(r)
 	if err != nil {
 		return 0, err
 	}
+	// glyph zero stands for characters the font does not have
+	if gIndex == 0 || gIndex >= s.ttfp.NumGlyphs() {
+		return 0, ErrGlyphNotFound
+	}
 	return gIndex, nil
 }
 
-- 
2.43.0


From bb833d9e92536ae35d53c5d5348e5abf52ff6e30 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:54:20 +0000
Subject: [PATCH 48/71] fix: kerning of every horizontal sub table is used, and
 nothing but kerning

---
 fontmaker/core/ttfparser_kern.go | 39 ++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/fontmaker/core/ttfparser_kern.go b/fontmaker/core/ttfparser_kern.go
index 235a177..71117f1 100644
--- a/fontmaker/core/ttfparser_kern.go
+++ b/fontmaker/core/ttfparser_kern.go
@@ -17,6 +17,7 @@ func (t *TTFParser) Parsekern(fd *bytes.Reader) error {
 	}
 
 	t.kern = new(KernTable) //init
+	t.kern.Kerning = make(KernMap)
 
 	version, err := t.ReadUShort(fd)
 	if err != nil {
@@ -44,7 +45,11 @@ func (t *TTFParser) Parsekern(fd *bytes.Reader) error {
 
 func (t *TTFParser) parsekernSubTable(fd *bytes.Reader) error {
 
-	err := t.Skip(fd, 2+2) //skip version and length
+	err := t.Skip(fd, 2) //skip version
+	if err != nil {
+		return err
+	}
+	length, err := t.ReadUShort(fd)
 	if err != nil {
 		return err
 	}
@@ -53,17 +58,26 @@ func (t *TTFParser) parsekernSubTable(fd *bytes.Reader) error {
 		return err
 	}
 
-	format := coverage & 0xf0
-	t.kern.Kerning = make(KernMap) //init
-	if format == 0 {
-		return t.parsekernSubTableFormat0(fd)
-	} else {
+	format := coverage >> 8
+	if format != 0 {
 		//not support other format yet
-		return fmt.Errorf("not support kerning format %d", format)
+		if length < 6 {
+			return fmt.Errorf("invalid length of kerning sub table %d", length)
+		}
+		return t.Skip(fd, int(length)-6)
 	}
+	return t.parsekernSubTableFormat0(fd, coverage)
 }
 
-func (t *TTFParser) parsekernSubTableFormat0(fd *bytes.Reader) error {
+// bits of the coverage of a kerning sub table
+const (
+	kernHorizontal  = 1
+	kernMinimum     = 2
+	kernCrossStream = 4
+	kernOverride    = 8
+)
+
+func (t *TTFParser) parsekernSubTableFormat0(fd *bytes.Reader, coverage uint) error {
 	nPairs, err := t.ReadUShort(fd)
 	if err != nil {
 		return err
@@ -90,12 +104,19 @@ func (t *TTFParser) parsekernSubTableFormat0(fd *bytes.Reader) error {
 			return err
 		}
 
+		if coverage&(kernHorizontal|kernMinimum|kernCrossStream) != kernHorizontal {
+			i++
+			continue //not a kerning of horizontal text along the line
+		}
+
 		if _, ok := t.kern.Kerning[left]; !ok {
 			kval := make(KernValue)
 			kval[right] = value
 			t.kern.Kerning[left] = kval
-		} else {
+		} else if coverage&kernOverride != 0 {
 			(t.kern.Kerning[left])[right] = value
+		} else {
+			(t.kern.Kerning[left])[right] += value //the sub tables add up
 		}
 		//_ = fmt.Sprintf("nPairs %d left %d right %d value %d\n", nPairs, left, right, value) //debug
 		i++
-- 
2.43.0


From d2e485a729357c7b9556118e566553a9460cacf5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:54:23 +0000
Subject: [PATCH 49/71] fix: a font whose values contradict each other is
 refused when it is added

---
 fontmaker/core/ttfparser.go | 48 ++++++++++++++++++++++++++++++++++++-
 pdf_dictionary_obj.go       |  7 +++---
 2 files changed, 51 insertions(+), 4 deletions(-)

diff --git a/fontmaker/core/ttfparser.go b/fontmaker/core/ttfparser.go
index 7f7a432..301b89a 100644
--- a/fontmaker/core/ttfparser.go
+++ b/fontmaker/core/ttfparser.go
@@ -318,11 +318,42 @@ func (t *TTFParser) ParseFontData(fontData []byte) error {
 		}
 	}
 
+	err = t.checkTables(fontData)
+	if err != nil {
+		return err
+	}
+
 	t.cachedFontData = fontData
 
 	return nil
 }
 
+// ErrInvalidFont the values in the font contradict each other
+var ErrInvalidFont = errors.New("invalid font")
+
+// checkTables checks what the users of the parser rely on
+func (t *TTFParser) checkTables(fontData []byte) error {
+	if _, ok := t.tables["glyf"]; !ok {
+		return ErrTableNotFound
+	}
+	for _, tag := range []string{"cvt ", "fpgm", "glyf", "head", "hhea", "hmtx", "loca", "maxp", "prep"} {
+		if table, ok := t.tables[tag]; ok && table.Offset+table.Length > uint(len(fontData)) {
+			return ErrInvalidFont
+		}
+	}
+	if t.numGlyphs == 0 || uint(len(t.LocaTable)) < t.numGlyphs+1 {
+		return ErrInvalidFont
+	}
+	prev := uint(0)
+	for _, offset := range t.LocaTable[:t.numGlyphs+1] {
+		if offset < prev || t.tables["glyf"].Offset+offset > uint(len(fontData)) {
+			return ErrInvalidFont
+		}
+		prev = offset
+	}
+	return nil
+}
+
 func (t *TTFParser) FontData() []byte {
 	return t.cachedFontData
 }
@@ -727,13 +758,22 @@ func (t *TTFParser) ParseCmap(fd *bytes.Reader) error {
 	t.GlyphIdArray = glyphIDArray
 
 	t.chars = make(map[int]uint)
+	next := uint(0) // the segments are in the order of their characters
 	for i := 0; i < int(segCount); i++ {
 		c1 := startCount[i]
 		c2 := endCount[i]
+		skipped := uint(0)
+		if c1 < next {
+			skipped = next - c1
+			c1 = next
+		}
+		if c2 >= next {
+			next = c2 + 1
+		}
 		d := idDelta[i]
 		ro := idRangeOffset[i]
 		if ro > 0 {
-			_, err = fd.Seek(int64(offset+uint(2*i)+ro), 0)
+			_, err = fd.Seek(int64(offset+uint(2*i)+ro+2*skipped), 0)
 			if err != nil {
 				return err
 			}
@@ -855,6 +895,9 @@ func (t *TTFParser) ParseHead(fd *bytes.Reader) error {
 	if err != nil {
 		return err
 	}
+	if t.unitsPerEm == 0 {
+		return ErrInvalidFont
+	}
 
 	err = t.Skip(fd, 2*8) // created, modified
 	if err != nil {
@@ -926,6 +969,9 @@ func (t *TTFParser) ParseHhea(fd *bytes.Reader) error {
 	if err != nil {
 		return err
 	}
+	if t.numberOfHMetrics == 0 {
+		return ErrInvalidFont
+	}
 
 	return nil
 }
diff --git a/pdf_dictionary_obj.go b/pdf_dictionary_obj.go
index a3f81ca..e8cabdd 100644
--- a/pdf_dictionary_obj.go
+++ b/pdf_dictionary_obj.go
@@ -315,7 +315,8 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 // composite glyph is a Unicode entity that can be defined as a sequence of one or more other characters.
 func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) {
 	start := p.GetOffset(int(glyph))
-	if start == p.GetOffset(int(glyph)+1) {
+	end := p.GetOffset(int(glyph) + 1)
+	if end-start < 10 {
 		return
 	}
 
@@ -329,7 +330,7 @@ func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) {
 	}
 
 	offset += 8
-	for {
+	for offset+4 <= end {
 		flags, step1 := ReadUShortFromByte(fontData, offset)
 		offset += step1
 		cGlyph, step2 := ReadUShortFromByte(fontData, offset)
@@ -342,7 +343,7 @@ func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) {
 				break
 			}
 		}
-		if !glyphContainsKey {
+		if !glyphContainsKey && uint(cGlyph) < ttfp.NumGlyphs() {
 			*glyphArray = append(*glyphArray, int(cGlyph))
 		}
 
-- 
2.43.0


From ed0936e9949157ffce6b17a58d895ddefd8c0177 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 50/71] fix: the PostScript name keeps its zeros

---
 fontmaker/core/ttfparser.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/fontmaker/core/ttfparser.go b/fontmaker/core/ttfparser.go
index 301b89a..2287504 100644
--- a/fontmaker/core/ttfparser.go
+++ b/fontmaker/core/ttfparser.go
@@ -9,8 +9,6 @@ import (
 	"io"
 	"os"
 	"regexp"
-	"strconv"
-	"strings"
 )
 
 var ERROR_NO_UNICODE_ENCODING_FOUND = errors.New("No Unicode encoding found")
@@ -593,7 +591,6 @@ func (t *TTFParser) ParseName(fd *bytes.Reader) error {
 			}
 			//s := fmt.Sprintf("%s", string(tmpStmp)) //strings(stmp)
 			s := string(tmpStmp)
-			s = strings.Replace(s, strconv.Itoa(0), "", -1)
 			s, err = t.PregReplace("|[ \\[\\](){}<>/%]|", "", s)
 			if err != nil {
 				return err
-- 
2.43.0


From eb45e19b6d4bd8d28a61afd9a0fbc88b025c6db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:24 +0000
Subject: [PATCH 51/71] fix: an image that states dimensions out of proportion
 to its data is refused before memory is allocated for them

---
 image_obj.go       |  9 +++++++++
 image_obj_parse.go | 29 ++++++++++++++++++++++++-----
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/image_obj.go b/image_obj.go
index dea27b5..116bf6c 100644
--- a/image_obj.go
+++ b/image_obj.go
@@ -164,6 +164,15 @@ func (i *ImageObj) GetRect() *Rect {
 // GetRect get rect of img
 func (i *ImageObj) getRect() (*Rect, error) {
 
+	i.rawImgReader.Seek(0, 0)
+	imgConfig, _, err := image.DecodeConfig(i.rawImgReader)
+	if err != nil {
+		return nil, err
+	}
+	if err := checkImageSize(imgConfig, i.rawImgReader.Size()); err != nil {
+		return nil, err
+	}
+
 	i.rawImgReader.Seek(0, 0)
 	m, _, err := image.Decode(i.rawImgReader)
 	if err != nil {
diff --git a/image_obj_parse.go b/image_obj_parse.go
index 689a388..54967e4 100644
--- a/image_obj_parse.go
+++ b/image_obj_parse.go
@@ -143,6 +143,9 @@ func parseImg(raw *bytes.Reader) (imgInfo, error) {
 		return info, err
 	}
 	info.formatName = formatname
+	if err := checkImageSize(imgConfig, raw.Size()); err != nil {
+		return info, err
+	}
 
 	if formatname == "jpeg" {
 
@@ -187,6 +190,21 @@ func parseImg(raw *bytes.Reader) (imgInfo, error) {
 	return info, nil
 }
 
+// ErrImageTooLarge the dimensions the image states are out of proportion to the data it has
+var ErrImageTooLarge = errors.New("image dimensions out of proportion to its data")
+
+// checkImageSize refuses an image of so many pixels that no format can hold them in size bytes, before memory is
+// allocated for them
+func checkImageSize(imgConfig image.Config, size int64) error {
+	const alwaysAllowed = 1 << 22
+	const maxPixelsPerByte = 10000 // deflate packs 1032 bytes into one, of up to 8 pixels each
+	pixels := int64(imgConfig.Width) * int64(imgConfig.Height)
+	if pixels > alwaysAllowed && pixels/maxPixelsPerByte > size {
+		return ErrImageTooLarge
+	}
+	return nil
+}
+
 func parseImgJpg(info *imgInfo, imgConfig image.Config) error {
 	switch imgConfig.ColorModel {
 	case color.YCbCrModel:
@@ -398,15 +416,16 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 			return err
 		}
 		defer zipReader.Close()
-		afterZipData, err := io.ReadAll(zipReader)
-		if err != nil {
-			return err
-		}
-
 		samples := 2
 		if ct[0] != 4 {
 			samples = 4
 		}
+		// one byte more than the rows have, to see the checksum; what follows is not needed
+		afterZipData, err := io.ReadAll(io.LimitReader(zipReader, int64(h)*int64(1+samples*w)+1))
+		if err != nil {
+			return err
+		}
+
 		if len(afterZipData)/h < 1+samples*w {
 			return errors.New("Incomplete image data")
 		}
-- 
2.43.0


From 3ab92d9eaaafb73f4d98fbbb537eea2ed29a5989 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 52/71] fix: an image without width or height is refused

---
 image_obj_parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/image_obj_parse.go b/image_obj_parse.go
index 54967e4..eba7005 100644
--- a/image_obj_parse.go
+++ b/image_obj_parse.go
@@ -193,11 +193,14 @@ func parseImg(raw *bytes.Reader) (imgInfo, error) {
 // ErrImageTooLarge the dimensions the image states are out of proportion to the data it has
 var ErrImageTooLarge = errors.New("image dimensions out of proportion to its data")
 
-// checkImageSize refuses an image of so many pixels that no format can hold them in size bytes, before memory is
+// checkImageSize refuses an empty image and an image of so many pixels that no format can hold them in size bytes, before memory is
 // allocated for them
 func checkImageSize(imgConfig image.Config, size int64) error {
 	const alwaysAllowed = 1 << 22
 	const maxPixelsPerByte = 10000 // deflate packs 1032 bytes into one, of up to 8 pixels each
+	if imgConfig.Width <= 0 || imgConfig.Height <= 0 {
+		return errors.New("empty image")
+	}
 	pixels := int64(imgConfig.Width) * int64(imgConfig.Height)
 	if pixels > alwaysAllowed && pixels/maxPixelsPerByte > size {
 		return ErrImageTooLarge
-- 
2.43.0


From ce7175fa7e824c2015470633a865819cd31bb871 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:16:17 +0000
Subject: [PATCH 53/71] fix: splitting a text reports each character without a
 glyph once

---
 gopdf.go           | 34 +++++++++++++++++++++++++---------
 subset_font_obj.go |  8 ++++++--
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index e07fe93..9787d0d 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1326,17 +1326,13 @@ func (gp *GoPdf) MultiCellWithOption(rectangle *Rect, text string, opt CellOptio
 	x := gp.GetX()
 
 	// get lineHeight
-	itext, err := gp.curr.FontISubset.AddChars(text)
-	if err != nil {
-		return err
-	}
-	_, lineHeight, _, err := createContent(gp.curr.FontISubset, itext, gp.curr.FontSize, gp.curr.CharSpacing, nil)
+	_, lineHeight, _, err := createContent(gp.curr.FontISubset, "", gp.curr.FontSize, gp.curr.CharSpacing, nil)
 	if err != nil {
 		return err
 	}
 	gp.PointsToUnitsVar(&lineHeight)
 
-	textSplits, err := gp.SplitTextWithOption(text, rectangle.W, opt.BreakOption)
+	textSplits, err := gp.splitText(text, rectangle.W, opt.BreakOption)
 	if err != nil {
 		return err
 	}
@@ -1388,6 +1384,16 @@ func (gp *GoPdf) SplitTextWithOption(text string, width float64, opt *BreakOptio
 	if opt == nil {
 		opt = &DefaultBreakOption
 	}
+	// characters without a glyph are reported here once, not each time a line is measured
+	for _, line := range strings.Split(text, "\n") {
+		if _, err := gp.curr.FontISubset.AddChars(line); err != nil {
+			return nil, err
+		}
+	}
+	return gp.splitText(text, width, opt)
+}
+
+func (gp *GoPdf) splitText(text string, width float64, opt *BreakOption) ([]string, error) {
 	var lineText []rune
 	var lineTexts []string
 	utf8Texts := []rune(text)
@@ -1395,18 +1401,18 @@ func (gp *GoPdf) SplitTextWithOption(text string, width float64, opt *BreakOptio
 	if utf8TextsLen == 0 {
 		return lineTexts, ErrEmptyString
 	}
-	separatorWidth, err := gp.MeasureTextWidth(opt.Separator)
+	separatorWidth, err := gp.measureTextWidth(opt.Separator)
 	if err != nil {
 		return nil, err
 	}
 	// possible (not conflicting) position of the separator within the currently processed line
 	separatorIdx := -1
 	for i := 0; i < utf8TextsLen; i++ {
-		lineWidth, err := gp.MeasureTextWidth(string(lineText))
+		lineWidth, err := gp.measureTextWidth(string(lineText))
 		if err != nil {
 			return nil, err
 		}
-		runeWidth, err := gp.MeasureTextWidth(string(utf8Texts[i]))
+		runeWidth, err := gp.measureTextWidth(string(utf8Texts[i]))
 		if err != nil {
 			return nil, err
 		}
@@ -1989,6 +1995,16 @@ func (gp *GoPdf) MeasureTextWidth(text string) (float64, error) {
 	if err != nil {
 		return 0, err
 	}
+	return gp.measureTextWidth(text)
+}
+
+// measureTextWidth measures like MeasureTextWidth, but does not report characters without a glyph
+func (gp *GoPdf) measureTextWidth(text string) (float64, error) {
+
+	text, err := gp.curr.FontISubset.addChars(text, nil)
+	if err != nil {
+		return 0, err
+	}
 
 	_, _, textWidthPdfUnit, err := createContent(gp.curr.FontISubset, text, gp.curr.FontSize, gp.curr.CharSpacing, nil)
 	if err != nil {
diff --git a/subset_font_obj.go b/subset_font_obj.go
index a865f44..5c61fd9 100644
--- a/subset_font_obj.go
+++ b/subset_font_obj.go
@@ -136,6 +136,10 @@ func (s *SubsetFontObj) SetTTFData(data []byte) error {
 
 // AddChars add char to map CharacterToGlyphIndex
 func (s *SubsetFontObj) AddChars(txt string) (string, error) {
+	return s.addChars(txt, s.ttfFontOption.OnGlyphNotFound)
+}
+
+func (s *SubsetFontObj) addChars(txt string, onGlyphNotFound func(r rune)) (string, error) {
 	s.addCharsBuff = s.addCharsBuff[:0]
 	for _, runeValue := range txt {
 		if s.CharacterToGlyphIndex.KeyExists(runeValue) {
@@ -145,8 +149,8 @@ func (s *SubsetFontObj) AddChars(txt string) (string, error) {
 		glyphIndex, err := s.CharCodeToGlyphIndex(runeValue)
 		if err == ErrGlyphNotFound {
 			//never return error on this, just call function OnGlyphNotFound
-			if s.ttfFontOption.OnGlyphNotFound != nil {
-				s.ttfFontOption.OnGlyphNotFound(runeValue)
+			if onGlyphNotFound != nil {
+				onGlyphNotFound(runeValue)
 			}
 			//start: try to find rune for replace
 			alreadyExists, runeValueReplace, glyphIndexReplace := s.replaceGlyphThatNotFound(runeValue)
-- 
2.43.0


From 0c91f3449edbde9910d6f06ceb7133a73a8c1c48 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 54/71] fix: line breaking takes the kerning between the line
 and the next character into account

---
 gopdf.go | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 9787d0d..ff2ef5b 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1234,11 +1234,16 @@ func (gp *GoPdf) MultiCell(rectangle *Rect, text string) error {
 		if totalLineHeight+lineHeight > rectangle.H {
 			break
 		}
-		lineWidth, _ := gp.MeasureTextWidth(string(line))
-		runeWidth, _ := gp.MeasureTextWidth(string(v))
+		// the width of the line with the rune, measured together because of the kerning between them
+		lineWidth, err := gp.MeasureTextWidth(string(line) + string(v))
+		if err != nil {
+			return err
+		}
 
-		if len(line) > 0 && lineWidth+runeWidth > rectangle.W {
-			gp.Cell(&Rect{W: rectangle.W, H: lineHeight}, string(line))
+		if len(line) > 0 && lineWidth > rectangle.W {
+			if err := gp.Cell(&Rect{W: rectangle.W, H: lineHeight}, string(line)); err != nil {
+				return err
+			}
 			gp.Br(lineHeight)
 			gp.SetX(x)
 			totalLineHeight = totalLineHeight + lineHeight
@@ -1248,7 +1253,9 @@ func (gp *GoPdf) MultiCell(rectangle *Rect, text string) error {
 		line = append(line, v)
 
 		if i == length-1 && totalLineHeight+lineHeight <= rectangle.H {
-			gp.Cell(&Rect{W: rectangle.W, H: lineHeight}, string(line))
+			if err := gp.Cell(&Rect{W: rectangle.W, H: lineHeight}, string(line)); err != nil {
+				return err
+			}
 			gp.Br(lineHeight)
 			gp.SetX(x)
 		}
@@ -1278,10 +1285,13 @@ func (gp *GoPdf) IsFitMultiCell(rectangle *Rect, text string) (bool, float64, er
 		if totalLineHeight+lineHeight > rectangle.H {
 			return false, totalLineHeight, nil
 		}
-		lineWidth, _ := gp.MeasureTextWidth(string(line))
-		runeWidth, _ := gp.MeasureTextWidth(string(v))
+		// the width of the line with the rune, measured together because of the kerning between them
+		lineWidth, err := gp.MeasureTextWidth(string(line) + string(v))
+		if err != nil {
+			return false, totalLineHeight, err
+		}
 
-		if len(line) > 0 && lineWidth+runeWidth > rectangle.W {
+		if len(line) > 0 && lineWidth > rectangle.W {
 			totalLineHeight += lineHeight
 			line = nil
 		}
@@ -1408,17 +1418,14 @@ func (gp *GoPdf) splitText(text string, width float64, opt *BreakOption) ([]stri
 	// possible (not conflicting) position of the separator within the currently processed line
 	separatorIdx := -1
 	for i := 0; i < utf8TextsLen; i++ {
-		lineWidth, err := gp.measureTextWidth(string(lineText))
-		if err != nil {
-			return nil, err
-		}
-		runeWidth, err := gp.measureTextWidth(string(utf8Texts[i]))
+		// the width of the line with the rune, measured together because of the kerning between them
+		lineWidth, err := gp.measureTextWidth(string(lineText) + string(utf8Texts[i]))
 		if err != nil {
 			return nil, err
 		}
 		// mid-word break required since the max width of the given rect is exceeded
 		// (a line takes at least one rune, even if that alone is too wide)
-		if len(lineText) > 0 && lineWidth+runeWidth > width && utf8Texts[i] != '\n' {
+		if len(lineText) > 0 && lineWidth > width && utf8Texts[i] != '\n' {
 			// forceBreak will be set to true in case an indicator sensitive break was not possible which will cause
 			// strict break to not exceed the desired width
 			forceBreak := false
@@ -1445,8 +1452,14 @@ func (gp *GoPdf) splitText(text string, width float64, opt *BreakOption) ([]stri
 			lineTexts = append(lineTexts, string(lineText))
 		}
 		// store overall index when separator would still fit in the currently processed text-line
-		if opt.HasSeparator() && len(lineText) > 0 && lineWidth+runeWidth+separatorWidth <= width {
-			separatorIdx = i
+		if opt.HasSeparator() && len(lineText) > 0 && lineWidth+separatorWidth <= width {
+			separatedWidth, err := gp.measureTextWidth(string(lineText) + opt.Separator)
+			if err != nil {
+				return nil, err
+			}
+			if separatedWidth <= width {
+				separatorIdx = i
+			}
 		}
 		lineText = append(lineText, utf8Texts[i])
 	}
-- 
2.43.0


From 37250b0a62ccacd59137ef995afc98af1f0540a5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:27:22 +0000
Subject: [PATCH 55/71] fix: images whose samples the PNG encoder would widen
 to 16 bits, such as decoded JPEG files, can be drawn from memory

---
 gopdf.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index ff2ef5b..786c7ea 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -7,6 +7,8 @@ import (
 	"errors"
 	"fmt"
 	"image"
+	"image/color"
+	"image/draw"
 	"image/jpeg"
 	"image/png"
 	"io"
@@ -817,7 +819,7 @@ func (gp *GoPdf) ImageFromWithOption(img image.Image, opts ImageFromOption) erro
 		var err error
 		switch opts.Format {
 		case "png":
-			err = png.Encode(bw, img)
+			err = png.Encode(bw, eightBitImage(img))
 		case "jpeg":
 			err = jpeg.Encode(bw, img, nil)
 		}
@@ -838,6 +840,20 @@ func (gp *GoPdf) ImageFromWithOption(img image.Image, opts ImageFromOption) erro
 	return gp.ImageByHolder(imgh, opts.X, opts.Y, opts.Rect)
 }
 
+// eightBitImage returns img, or a copy of it with 8 bit samples when the PNG encoder would write 16 bit ones
+func eightBitImage(img image.Image) image.Image {
+	switch img.ColorModel() {
+	case color.GrayModel, color.AlphaModel, color.RGBAModel, color.NRGBAModel:
+		return img
+	}
+	if _, ok := img.(image.PalettedImage); ok {
+		return img
+	}
+	converted := image.NewNRGBA(img.Bounds())
+	draw.Draw(converted, converted.Rect, img, converted.Rect.Min, draw.Src)
+	return converted
+}
+
 // AddPage : add new page
 func (gp *GoPdf) AddPage() {
 	emptyOpt := PageOption{}
-- 
2.43.0


From 77963595b50a7ab91eb3b3654a578a0cf1dab484 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:32:00 +0000
Subject: [PATCH 56/71] fix: the creation date keeps the minutes of its time
 zone

---
 gopdf.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 786c7ea..50191fd 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2519,8 +2519,8 @@ func encodeUtf8(str string) string {
 }
 
 func infodate(t time.Time) string {
-	ft := t.Format("20060102150405-07'00'")
-	return ft
+	ft := t.Format("20060102150405-0700") // the offset of the zone is in hours and minutes
+	return ft[:len(ft)-2] + "'" + ft[len(ft)-2:] + "'"
 }
 
 // SetTransparency sets transparency.
-- 
2.43.0


From e7691a33496af0f38e246f217d11a9628a33e808 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:32:03 +0000
Subject: [PATCH 57/71] fix: GetInfo returns nothing set instead of panicking
 when no information was set

---
 gopdf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gopdf.go b/gopdf.go
index 50191fd..0351fcc 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2084,6 +2084,9 @@ func (gp *GoPdf) SetInfo(info PdfInfo) {
 
 // GetInfo get Document Information Dictionary
 func (gp *GoPdf) GetInfo() PdfInfo {
+	if gp.info == nil {
+		return PdfInfo{}
+	}
 	return *gp.info
 }
 
-- 
2.43.0


From 6516531b1c69f40cbba85551455841daaf5d3db9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:36:40 +0000
Subject: [PATCH 58/71] fix: the strings and streams of imported pages are
 encrypted in a protected document

---
 gopdf.go        |   6 ++-
 imported_obj.go | 127 +++++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 130 insertions(+), 3 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 0351fcc..e68c6f5 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1776,7 +1776,11 @@ func (gp *GoPdf) GetNumberOfPages() int {
 func (gp *GoPdf) ImportObjects(objs map[int]string, startObjID int) {
 	for i := startObjID; i < len(objs)+startObjID; i++ {
 		if objs[i] != "" {
-			gp.addObj(&ImportedObj{Data: objs[i]})
+			obj := &ImportedObj{Data: objs[i]}
+			obj.init(func() *GoPdf {
+				return gp
+			})
+			gp.addObj(obj)
 		}
 	}
 }
diff --git a/imported_obj.go b/imported_obj.go
index 88be701..23017da 100644
--- a/imported_obj.go
+++ b/imported_obj.go
@@ -1,17 +1,22 @@
 package gopdf
 
 import (
+	"bytes"
+	"encoding/hex"
+	"fmt"
 	"io"
+	"strconv"
 	"strings"
 )
 
 // ImportedObj : imported object
 type ImportedObj struct { //impl IObj
-	Data string
+	Data    string
+	getRoot func() *GoPdf
 }
 
 func (c *ImportedObj) init(funcGetRoot func() *GoPdf) {
-
+	c.getRoot = funcGetRoot
 }
 
 func (c *ImportedObj) getType() string {
@@ -22,6 +27,13 @@ func (c *ImportedObj) write(w io.Writer, objID int) error {
 	if c != nil {
 		// gofpdi's objects come with their own "endobj"
 		data := strings.TrimSuffix(strings.TrimRight(c.Data, "\r\n"), "endobj")
+		if c.getRoot != nil && c.getRoot().protection() != nil {
+			var err error
+			data, err = encryptImportedObject(data, c.getRoot().protection().objectkey(objID))
+			if err != nil {
+				return err
+			}
+		}
 		if _, err := io.WriteString(w, data); err != nil {
 			return err
 		}
@@ -31,3 +43,114 @@ func (c *ImportedObj) write(w io.Writer, objID int) error {
 	}
 	return nil
 }
+
+// encryptImportedObject encrypts the strings and the stream of an object as gofpdi writes it
+func encryptImportedObject(data string, key []byte) (string, error) {
+	const streamBegin, streamEnd = "stream\n", "\nendstream"
+	var out strings.Builder
+	depth := 0 // of dictionaries
+	for i := 0; i < len(data); {
+		rest := data[i:]
+		switch {
+		case strings.HasPrefix(rest, "<<"):
+			depth++
+			out.WriteString("<<")
+			i += 2
+		case strings.HasPrefix(rest, ">>"):
+			depth--
+			out.WriteString(">>")
+			i += 2
+		case rest[0] == '(' || rest[0] == '<':
+			plain, n, err := decodeImportedString(rest)
+			if err != nil {
+				return "", err
+			}
+			cip, err := rc4Cip(key, plain)
+			if err != nil {
+				return "", err
+			}
+			fmt.Fprintf(&out, "<%x>", cip)
+			i += n
+		case depth == 0 && strings.HasPrefix(rest, streamBegin):
+			end := strings.LastIndex(rest, streamEnd)
+			if end < len(streamBegin) {
+				return "", fmt.Errorf("imported stream without end")
+			}
+			cip, err := rc4Cip(key, []byte(rest[len(streamBegin):end]))
+			if err != nil {
+				return "", err
+			}
+			out.WriteString(streamBegin)
+			out.Write(cip)
+			out.WriteString(rest[end:])
+			return out.String(), nil
+		default:
+			out.WriteByte(rest[0])
+			i++
+		}
+	}
+	return out.String(), nil
+}
+
+// decodeImportedString returns the bytes of the string s begins with, and how much of s it takes
+func decodeImportedString(s string) ([]byte, int, error) {
+	if s[0] == '<' {
+		end := strings.IndexByte(s, '>')
+		if end < 0 {
+			return nil, 0, fmt.Errorf("imported string without end")
+		}
+		digits := strings.Join(strings.Fields(s[1:end]), "")
+		if len(digits)%2 == 1 {
+			digits += "0"
+		}
+		plain, err := hex.DecodeString(digits)
+		return plain, end + 1, err
+	}
+	var plain bytes.Buffer
+	parens := 0
+	for i := 0; i < len(s); i++ {
+		switch s[i] {
+		case '(':
+			if parens > 0 {
+				plain.WriteByte('(')
+			}
+			parens++
+		case ')':
+			parens--
+			if parens == 0 {
+				return plain.Bytes(), i + 1, nil
+			}
+			plain.WriteByte(')')
+		case '\r':
+			if strings.HasPrefix(s[i:], "\r\n") {
+				i++
+			}
+			plain.WriteByte('\n')
+		case '\\':
+			i++
+			n := 0
+			for n < 3 && i+n < len(s) && s[i+n] >= '0' && s[i+n] <= '7' {
+				n++
+			}
+			if n > 0 {
+				v, err := strconv.ParseUint(s[i:i+n], 8, 16)
+				if err != nil {
+					return nil, 0, err
+				}
+				plain.WriteByte(byte(v))
+				i += n - 1
+			} else if strings.HasPrefix(s[i:], "\r\n") {
+				i++ // the line goes on
+			} else if i < len(s) && s[i] != '\n' && s[i] != '\r' {
+				if k := strings.IndexByte("nrtbf", s[i]); k >= 0 {
+					plain.WriteByte("\n\r\t\b\f"[k])
+				} else {
+					plain.WriteByte(s[i])
+				}
+			}
+		default:
+			plain.WriteByte(s[i])
+		}
+	}
+	return nil, 0, fmt.Errorf("imported string without end")
+}
-- 
2.43.0


From ee43a28c1a9680328cac15d49b9fc6c9e3584628 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:03:34 +0000
Subject: [PATCH 59/71] fix: a font parser used again keeps nothing of the font
 before

---
 fontmaker/core/ttfparser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fontmaker/core/ttfparser.go b/fontmaker/core/ttfparser.go
index 2287504..f1c8cfb 100644
--- a/fontmaker/core/ttfparser.go
+++ b/fontmaker/core/ttfparser.go
@@ -220,6 +220,9 @@ func (t *TTFParser) ParseByReader(rd io.Reader) error {
 
 // ParseFontData parses font data.
 func (t *TTFParser) ParseFontData(fontData []byte) error {
+	// nothing of a font parsed before may remain
+	*t = TTFParser{useKerning: t.useKerning}
+
 	fd := bytes.NewReader(fontData)
 
 	version, err := t.Read(fd, 4)
-- 
2.43.0


From a6d5e13390753f40497497013b102f47e63b6556 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:06:33 +0000
Subject: [PATCH 60/71] fix: Arabic letters beside hamza, jeh, teh marbuta and
 lam-alef take the right form

---
 arabic_alphabet.go | 8 ++++++--
 arabic_helper.go   | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/arabic_alphabet.go b/arabic_alphabet.go
index 5fb34d7..829a12e 100644
--- a/arabic_alphabet.go
+++ b/arabic_alphabet.go
@@ -142,7 +142,7 @@ var (
 		Unicode:   '\u0629',
 		Isolated:  '\ufe93',
 		Beginning: '\u0629',
-		Middle:    '\u0629',
+		Middle:    '\ufe94',
 		Final:     '\ufe94'}
 
 	THEH = Harf{ // ث
@@ -459,6 +459,10 @@ var rightJoiningOnlyLetters = map[Harf]bool{
 	DAL:              true,
 	THAL:             true,
 	REH:              true,
+	JEH:              true,
 	ZAIN:             true,
 	WAW:              true,
-	ALEF_MAKSURA:     true}
+	ALEF_MAKSURA:     true,
+
+	LAM_ALEF:             true,
+	LAM_ALEF_HAMZA_ABOVE: true}
diff --git a/arabic_helper.go b/arabic_helper.go
index 91148eb..0c797d1 100644
--- a/arabic_helper.go
+++ b/arabic_helper.go
@@ -88,7 +88,7 @@ func getCharShape(previousChar, currentChar, nextChar rune) rune {
 	}
 
 	if _, ok := arabicAlphabet[nextChar]; ok {
-		nextArabic = true
+		nextArabic = !HAMZA.equals(nextChar) // no letter joins a hamza
 	}
 
 	if _, ok := arabicAlphabet[currentChar]; !ok {
-- 
2.43.0


From b7d3f21cf66744a543cb1a8e8e5138ba87003a60 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:06:57 +0000
Subject: [PATCH 61/71] fix: lam joins alef with madda and alef with hamza
 below

---
 arabic_alphabet.go | 20 +++++++++++++++++++-
 arabic_helper.go   |  6 ++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/arabic_alphabet.go b/arabic_alphabet.go
index 829a12e..651adc1 100644
--- a/arabic_alphabet.go
+++ b/arabic_alphabet.go
@@ -384,6 +384,20 @@ var (
 		Beginning: '\ufef7',
 		Middle:    '\ufef8',
 		Final:     '\ufef8'}
+
+	LAM_ALEF_MADDA_ABOVE = Harf{ // ﻵ
+		Unicode:   '\ufef5',
+		Isolated:  '\ufef5',
+		Beginning: '\ufef5',
+		Middle:    '\ufef6',
+		Final:     '\ufef6'}
+
+	LAM_ALEF_HAMZA_BELOW = Harf{ // ﻹ
+		Unicode:   '\ufef9',
+		Isolated:  '\ufef9',
+		Beginning: '\ufef9',
+		Middle:    '\ufefa',
+		Final:     '\ufefa'}
 )
 
 var arabicAlphabet = map[rune]Harf{}
@@ -434,6 +448,8 @@ var arabicAlphabetCollection = []Harf{
 	TATWEEL,
 	LAM_ALEF,
 	LAM_ALEF_HAMZA_ABOVE,
+	LAM_ALEF_MADDA_ABOVE,
+	LAM_ALEF_HAMZA_BELOW,
 }
 
 func init() {
@@ -465,4 +481,6 @@ var rightJoiningOnlyLetters = map[Harf]bool{
 	ALEF_MAKSURA:     true,
 
 	LAM_ALEF:             true,
-	LAM_ALEF_HAMZA_ABOVE: true}
+	LAM_ALEF_HAMZA_ABOVE: true,
+	LAM_ALEF_MADDA_ABOVE: true,
+	LAM_ALEF_HAMZA_BELOW: true}
diff --git a/arabic_helper.go b/arabic_helper.go
index 0c797d1..a68cdae 100644
--- a/arabic_helper.go
+++ b/arabic_helper.go
@@ -190,6 +190,12 @@ func ToArabic(text string) string {
 			case ALEF_HAMZA_ABOVE.Unicode:
 				ligatureHarf = LAM_ALEF_HAMZA_ABOVE.Unicode
 				foundLigature = true
+			case ALEF_MADDA_ABOVE.Unicode:
+				ligatureHarf = LAM_ALEF_MADDA_ABOVE.Unicode
+				foundLigature = true
+			case ALEF_HAMZA_BELOW.Unicode:
+				ligatureHarf = LAM_ALEF_HAMZA_BELOW.Unicode
+				foundLigature = true
 			}
 			if foundLigature {
 				currentHarf = ligatureHarf
-- 
2.43.0


From cd8e9ebae7fc65328f480fdb65d465cdd94ea625 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:07:00 +0000
Subject: [PATCH 62/71] fix: the Allah ligature is not used where a letter
 joins the word

---
 arabic_helper.go | 61 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 58 insertions(+), 3 deletions(-)

diff --git a/arabic_helper.go b/arabic_helper.go
index a68cdae..9f645d6 100644
--- a/arabic_helper.go
+++ b/arabic_helper.go
@@ -1,6 +1,9 @@
 package gopdf
 
-import "strings"
+import (
+	"strings"
+	"unicode/utf8"
+)
 
 // ALLAH_LIGATURE is the Unicode character for the Allah ligature (U+FDF2 ﷲ)
 const ALLAH_LIGATURE rune = 0xFDF2
@@ -9,8 +12,60 @@ const ALLAH_LIGATURE rune = 0xFDF2
 func convertAllahToLigature(text string) string {
 	// الله without tashkeel: Alef + Lam + Lam + Heh
 	allah := string([]rune{ALEF.Unicode, LAM.Unicode, LAM.Unicode, HEH.Unicode})
-	// Replace with the Allah ligature character
-	return strings.ReplaceAll(text, allah, string(ALLAH_LIGATURE))
+	// Replace with the Allah ligature character, where no letter joins the word
+	var sb strings.Builder
+	done := 0
+	for {
+		at := strings.Index(text[done:], allah)
+		if at < 0 {
+			break
+		}
+		at += done
+		end := at + len(allah)
+		sb.WriteString(text[done:at])
+		if joinsNext(lastHarf(text[:at])) || joinsPrevious(firstHarf(text[end:])) {
+			sb.WriteString(allah)
+		} else {
+			sb.WriteRune(ALLAH_LIGATURE)
+		}
+		done = end
+	}
+	sb.WriteString(text[done:])
+	return sb.String()
+}
+
+// lastHarf returns the last character of the text that is not a tashkeel mark
+func lastHarf(text string) rune {
+	for len(text) > 0 {
+		r, size := utf8.DecodeLastRuneInString(text)
+		if !IsTashkeel(r) {
+			return r
+		}
+		text = text[:len(text)-size]
+	}
+	return 0
+}
+
+// firstHarf returns the first character of the text that is not a tashkeel mark
+func firstHarf(text string) rune {
+	for _, r := range text {
+		if !IsTashkeel(r) {
+			return r
+		}
+	}
+	return 0
+}
+
+// joinsNext returns true if the character is a letter that joins the letter after it
+func joinsNext(char rune) bool {
+	harf, ok := arabicAlphabet[char]
+	return ok && !rightJoiningOnlyLetters[harf]
+}
+
+// joinsPrevious returns true if the character is a letter that joins the letter before it
+func joinsPrevious(char rune) bool {
+	_, ok := arabicAlphabet[char]
+	return ok && !HAMZA.equals(char)
 }
 
 // reverseWithTashkeel reverses Arabic text while keeping tashkeel attached to base characters
-- 
2.43.0


From 23d9cede3b0da481e3833ac15ee34dc929a70531 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:07:15 +0000
Subject: [PATCH 63/71] fix: Arabic marks before the first letter are kept

---
 arabic_helper.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arabic_helper.go b/arabic_helper.go
index 9f645d6..2d04b75 100644
--- a/arabic_helper.go
+++ b/arabic_helper.go
@@ -82,12 +82,15 @@ func reverseWithTashkeel(runes []rune) string {
 
 	var groups []hrofGroup
 	var currentGroup *hrofGroup
+	var leading []rune // tashkeel before the first letter
 
 	for _, r := range runes {
 		if IsTashkeel(r) {
-			if currentGroup != nil {
-				currentGroup.tashkeel = append(currentGroup.tashkeel, r)
+			if currentGroup == nil {
+				leading = append(leading, r)
+				continue
 			}
+			currentGroup.tashkeel = append(currentGroup.tashkeel, r)
 		} else {
 			groups = append(groups, hrofGroup{base: r})
 			currentGroup = &groups[len(groups)-1]
@@ -101,6 +104,7 @@ func reverseWithTashkeel(runes []rune) string {
 		result = append(result, groups[i].tashkeel...)
 		result = append(result, groups[i].base)
 	}
+	result = append(result, leading...)
 	return string(result)
 
 }
-- 
2.43.0


From 2be9908984b4be90b0161a78981d92714629c2b6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:07:56 +0000
Subject: [PATCH 64/71] fix: words and numbers of other scripts stay readable
 in Arabic text

---
 arabic_helper.go | 52 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/arabic_helper.go b/arabic_helper.go
index 2d04b75..453428a 100644
--- a/arabic_helper.go
+++ b/arabic_helper.go
@@ -2,6 +2,7 @@ package gopdf
 
 import (
 	"strings"
+	"unicode"
 	"unicode/utf8"
 )
 
@@ -98,6 +99,20 @@ func reverseWithTashkeel(runes []rune) string {
 	}
 
 	// Reverse the groups and rebuild
+	// Words and numbers of other scripts are read from left to right: reverse
+	// them here to have them in order again below
+	bases := make([]rune, len(groups))
+	for i := range groups {
+		bases[i] = groups[i].base
+	}
+	for i := 0; i < len(groups); {
+		n := leftToRightRun(bases[i:])
+		for a, b := i, i+n-1; a < b; a, b = a+1, b-1 {
+			groups[a], groups[b] = groups[b], groups[a]
+		}
+		i += n
+	}
+
 	// Output tashkeel BEFORE base for proper RTL rendering in PDF
 	result := make([]rune, 0, len(runes))
 	for i := len(groups) - 1; i >= 0; i-- {
@@ -108,6 +123,43 @@ func reverseWithTashkeel(runes []rune) string {
 	return string(result)
 
 }
+
+// leftToRightRun returns how many characters at the start of the text are read from left to right,
+// at least one. Words of other scripts stay together over what separates them, numbers alone do not.
+func leftToRightRun(text []rune) int {
+	words := false
+	end := 0
+	for i, r := range text {
+		switch {
+		case isLeftToRightLetter(r):
+			if !words && i > end {
+				return max1(end)
+			}
+			words = true
+			end = i + 1
+		case unicode.IsDigit(r), unicode.IsMark(r) && i == end && i > 0:
+			end = i + 1
+		case unicode.IsLetter(r), end == 0:
+			return max1(end)
+		case !words && (i > end || !strings.ContainsRune(".,:/-+", r)):
+			return max1(end)
+		}
+	}
+	return max1(end)
+}
+
+func max1(n int) int {
+	if n < 1 {
+		return 1
+	}
+	return n
+}
+
+// isLeftToRightLetter returns true if the character is a letter of a script written from left to right
+func isLeftToRightLetter(r rune) bool {
+	return unicode.IsLetter(r) && r != TATWEEL.Unicode && !unicode.In(r, unicode.Arabic, unicode.Hebrew, unicode.Syriac, unicode.Thaana, unicode.Nko)
+}
+
 func getHarf(char rune) Harf {
 	for _, s := range arabicAlphabet {
 		if s.equals(char) {
-- 
2.43.0


From 9d2c8810ba40f26991a5b1743f99cb189061c0da Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 65/71] fix: IsFitMultiCell reports the height of the lines
 that fit also when the last character does not

---
 gopdf.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index e68c6f5..6b24dbf 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1315,16 +1315,14 @@ func (gp *GoPdf) IsFitMultiCell(rectangle *Rect, text string) (bool, float64, er
 		line = append(line, v)
 
 		if i == length-1 {
+			if totalLineHeight+lineHeight > rectangle.H {
+				return false, totalLineHeight, nil
+			}
 			totalLineHeight += lineHeight
 		}
 	}
 
-	ok := true
-	if totalLineHeight > rectangle.H {
-		ok = false
-	}
-
-	return ok, totalLineHeight, nil
+	return totalLineHeight <= rectangle.H, totalLineHeight, nil
 }
 
 // IsFitMultiCellWithNewline : similar to IsFitMultiCell, but process char newline as Br
-- 
2.43.0


From df2a0117a583d7281cee1b9e8efe11d39547ce74 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 66/71] fix: the lines of MultiCellWithOption stay one line
 height apart when the float is Bottom

---
 gopdf.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gopdf.go b/gopdf.go
index 6b24dbf..c76a177 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1377,6 +1377,7 @@ func (gp *GoPdf) MultiCellWithOption(rectangle *Rect, text string, opt CellOptio
 	for i, text := range textSplits {
 		lineOpt := opt
 		lineOpt.Align = lineAlign(opt.Align, i == lastLine)
+		lineOpt.Float = Right // the next line is one line height below
 		if err := gp.CellWithOption(&Rect{W: rectangle.W, H: startHeight}, string(text), lineOpt); err != nil {
 			return err
 		}
-- 
2.43.0


From cc775205a320df5c140ca11c691a3942779bf4eb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:55:54 +0000
Subject: [PATCH 67/71] fix: starting again counts pages from zero

---
 gopdf.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gopdf.go b/gopdf.go
index c76a177..8d68f59 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2261,6 +2261,7 @@ func (gp *GoPdf) Rectangle(x0 float64, y0 float64, x1 float64, y1 float64, style
 // init
 func (gp *GoPdf) init(importer ...*gofpdi.Importer) {
 	gp.pdfObjs = []IObj{}
+	gp.numOfPagesObj = 0
 	gp.buf = bytes.Buffer{}
 	gp.indexEncodingObjFonts = []int{}
 	gp.pdfProtection = nil
-- 
2.43.0


From 2410a7b1293799f6e682f0092f5ae7c7f17cd65f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:47:18 +0000
Subject: [PATCH 68/71] fix: every missing character is reported, the
 substitute too

---
 subset_font_obj.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subset_font_obj.go b/subset_font_obj.go
index 5c61fd9..80a1d0e 100644
--- a/subset_font_obj.go
+++ b/subset_font_obj.go
@@ -142,7 +142,8 @@ func (s *SubsetFontObj) AddChars(txt string) (string, error) {
 func (s *SubsetFontObj) addChars(txt string, onGlyphNotFound func(r rune)) (string, error) {
 	s.addCharsBuff = s.addCharsBuff[:0]
 	for _, runeValue := range txt {
-		if s.CharacterToGlyphIndex.KeyExists(runeValue) {
+		// a substitute that is missing itself is kept with glyph zero
+		if known, ok := s.CharacterToGlyphIndex.Val(runeValue); ok && known != 0 {
 			s.addCharsBuff = append(s.addCharsBuff, runeValue)
 			continue
 		}
-- 
2.43.0


From 1b749e9c30af039ffc0071f6dbc8a9ca1ad6acb4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:52:15 +0000
Subject: [PATCH 69/71] fix: a mask on a turned page is not cut off

---
 gopdf.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 8d68f59..ef86a47 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -674,15 +674,17 @@ func (gp *GoPdf) maskHolder(img *loadedImage, opts MaskOptions) (int, error) {
 func (gp *GoPdf) createTransparencyXObjectGroup(image *cacheContentImage, opts MaskOptions) (int, error) {
 	bbox := opts.BBox
 	if bbox == nil {
+		// a turned page reaches as far as both its sides
+		side := gp.curr.pageSize.W + gp.curr.pageSize.H
 		bbox = &[4]float64{
 			// correct BBox values is [opts.X, gp.curr.pageSize.H - opts.Y - opts.Rect.H, opts.X + opts.Rect.W, gp.curr.pageSize.H - opts.Y]
 			// but if compress pdf through ghostscript result file can't open correctly in mac viewer, because mac viewer can't parse BBox value correctly
 			// all other viewers parse BBox correctly (like Adobe Acrobat Reader, Chrome, even Internet Explorer)
 			// that's why we need to set [0, 0, gp.curr.pageSize.W, gp.curr.pageSize.H]
-			-gp.curr.pageSize.W * 2,
-			-gp.curr.pageSize.H * 2,
-			gp.curr.pageSize.W * 2,
-			gp.curr.pageSize.H * 2,
+			-side * 2,
+			-side * 2,
+			side * 2,
+			side * 2,
 			// Also, Chrome pdf viewer incorrectly recognize BBox value, that's why we need to set twice as much value
 			// for every mask element will be displayed
 		}
-- 
2.43.0


From 6df294d70cec75f12cc7eae97e0ae36fad9ffa50 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:04:53 +0000
Subject: [PATCH 70/71] fix: the lines of a multi-line cell do not report a
 missing character again

---
 gopdf.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index ef86a47..a18f2e8 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1197,6 +1197,11 @@ func (gp *GoPdf) Text(text string) error {
 
 // CellWithOption create cell of text ( use current x,y is upper-left corner of cell)
 func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) error {
+	return gp.cellWithOption(rectangle, text, opt, gp.curr.FontISubset.AddChars)
+}
+
+// cellWithOption creates a cell of text whose characters addChars adds to the font
+func (gp *GoPdf) cellWithOption(rectangle *Rect, text string, opt CellOption, addChars func(string) (string, error)) error {
 	transparency, err := gp.getCachedTransparency(opt.Transparency)
 	if err != nil {
 		return err
@@ -1207,7 +1212,7 @@ func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) er
 	}
 
 	rectangle = rectangle.unitsToPoints(gp.config)
-	text, err = gp.curr.FontISubset.AddChars(text)
+	text, err = addChars(text)
 	if err != nil {
 		return err
 	}
@@ -1221,13 +1226,15 @@ func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) er
 // Cell : create cell of text ( use current x,y is upper-left corner of cell)
 // Note that this has no effect on Rect.H pdf (now). Fix later :-)
 func (gp *GoPdf) Cell(rectangle *Rect, text string) error {
-	defaultopt := CellOption{
+	return gp.CellWithOption(rectangle, text, defaultCellOption())
+}
+
+func defaultCellOption() CellOption {
+	return CellOption{
 		Align:  Left | Top,
 		Border: 0,
 		Float:  Right,
 	}
-
-	return gp.CellWithOption(rectangle, text, defaultopt)
 }
 
 // MultiCell : create of text with line breaks ( use current x,y is upper-left corner of cell)
@@ -1248,18 +1255,25 @@ func (gp *GoPdf) MultiCell(rectangle *Rect, text string) error {
 	}
 	gp.PointsToUnitsVar(&lineHeight)
 
+	// the characters without a glyph were reported above
+	cell := func(line string) error {
+		return gp.cellWithOption(&Rect{W: rectangle.W, H: lineHeight}, line, defaultCellOption(), func(line string) (string, error) {
+			return gp.curr.FontISubset.addChars(line, nil)
+		})
+	}
+
 	for i, v := range []rune(text) {
 		if totalLineHeight+lineHeight > rectangle.H {
 			break
 		}
 		// the width of the line with the rune, measured together because of the kerning between them
-		lineWidth, err := gp.MeasureTextWidth(string(line) + string(v))
+		lineWidth, err := gp.measureTextWidth(string(line) + string(v))
 		if err != nil {
 			return err
 		}
 
 		if len(line) > 0 && lineWidth > rectangle.W {
-			if err := gp.Cell(&Rect{W: rectangle.W, H: lineHeight}, string(line)); err != nil {
+			if err := cell(string(line)); err != nil {
 				return err
 			}
 			gp.Br(lineHeight)
@@ -1271,7 +1285,7 @@ func (gp *GoPdf) MultiCell(rectangle *Rect, text string) error {
 		line = append(line, v)
 
 		if i == length-1 && totalLineHeight+lineHeight <= rectangle.H {
-			if err := gp.Cell(&Rect{W: rectangle.W, H: lineHeight}, string(line)); err != nil {
+			if err := cell(string(line)); err != nil {
 				return err
 			}
 			gp.Br(lineHeight)
@@ -1304,7 +1318,7 @@ func (gp *GoPdf) IsFitMultiCell(rectangle *Rect, text string) (bool, float64, er
 			return false, totalLineHeight, nil
 		}
 		// the width of the line with the rune, measured together because of the kerning between them
-		lineWidth, err := gp.MeasureTextWidth(string(line) + string(v))
+		lineWidth, err := gp.measureTextWidth(string(line) + string(v))
 		if err != nil {
 			return false, totalLineHeight, err
 		}
-- 
2.43.0


From 32026ffcfeefe02d54b66e9678c676323926ef37 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:28:35 +0000
Subject: [PATCH 71/71] fix: AddStyledRow keeps its own copy of the row instead
 of the caller's slice

---
 table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 90c5131..7233694 100644
--- a/table.go
+++ b/table.go
@@ -151,7 +151,7 @@ func (t *tableLayout) AddRow(row []string) {
 // Adds a row of data to the table with individual styled cells
 // Useful for styling individual cells in a row
 func (t *tableLayout) AddStyledRow(row []RowCell) {
-	t.rows = append(t.rows, row)
+	t.rows = append(t.rows, append([]RowCell(nil), row...))
 }
 
 // Sets the style for the entire table
-- 
2.43.0

