package main

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"math/rand"
	"sort"

	"vmon/pdfr"
)

// srcBuilder writes small PDF files to import from. It is independent of the library under test.
type srcBuilder struct {
	r    *rand.Rand
	objs map[int]string
	strm map[int]bool // objects that are streams
	next int
}

func (b *srcBuilder) alloc() int { b.next++; return b.next }
func (b *srcBuilder) set(n int, body string) {
	b.objs[n] = body
}
func (b *srcBuilder) add(body string) int { n := b.alloc(); b.set(n, body); return n }

func (b *srcBuilder) stream(dict string, data []byte) int {
	n := b.alloc()
	if b.r.Intn(2) == 0 {
		var z bytes.Buffer
		w := zlib.NewWriter(&z)
		w.Write(data)
		w.Close()
		data = z.Bytes()
		dict += " /Filter /FlateDecode"
	}
	l := fmt.Sprint(len(data))
	if b.r.Intn(4) == 0 {
		l = fmt.Sprintf("%d 0 R", b.add(l))
	}
	b.strm[n] = true
	b.set(n, fmt.Sprintf("<<%s /Length %s>>\nstream\n%s\nendstream", dict, l, data))
	return n
}

// randContent draws a page content using the given resource names.
func (b *srcBuilder) content(fonts, xobjs, gss []string, w, h float64) []byte {
	var o bytes.Buffer
	r := b.r
	for i := 2 + r.Intn(8); i > 0; i-- {
		switch r.Intn(5) {
		case 0:
			fmt.Fprintf(&o, "q %.2f %.2f %.2f rg %.2f %.2f %.2f %.2f re f Q\n", r.Float64(), r.Float64(), r.Float64(), r.Float64()*w, r.Float64()*h, r.Float64()*50, r.Float64()*50)
		case 1:
			fmt.Fprintf(&o, "%d w %.1f %.1f m %.1f %.1f l S\n", r.Intn(4), r.Float64()*w, r.Float64()*h, r.Float64()*w, r.Float64()*h)
		case 2:
			if len(fonts) > 0 {
				fmt.Fprintf(&o, "BT /%s %d Tf %.1f %.1f Td (text \\(%d\\) here) Tj ET\n", fonts[r.Intn(len(fonts))], 6+r.Intn(20), r.Float64()*w, r.Float64()*h, r.Intn(1000))
			}
		case 3:
			if len(xobjs) > 0 {
				fmt.Fprintf(&o, "q %.1f 0 0 %.1f %.1f %.1f cm /%s Do Q\n", 1+r.Float64()*30, 1+r.Float64()*30, r.Float64()*w, r.Float64()*h, xobjs[r.Intn(len(xobjs))])
			}
		case 4:
			if len(gss) > 0 {
				fmt.Fprintf(&o, "/%s gs\n", gss[r.Intn(len(gss))])
			}
		}
	}
	fmt.Fprintf(&o, "%% end %d\n", r.Intn(1<<30))
	return append([]byte("q\n"), append(o.Bytes(), []byte("Q\n")...)...)
}

func (b *srcBuilder) font() int {
	names := []string{"Helvetica", "Times-Roman", "Courier"}
	s := fmt.Sprintf("<</Type /Font /Subtype /Type1 /BaseFont /%s", names[b.r.Intn(3)])
	if b.r.Intn(2) == 0 {
		fd := b.add(fmt.Sprintf("<</Type /FontDescriptor /FontName /%s /Flags 32 /ItalicAngle -12.5 /Ascent 905 /StemV 80 /FontBBox [-100 -200 1000 900]>>", names[0]))
		s += fmt.Sprintf(" /FontDescriptor %d 0 R /FirstChar 32 /LastChar 34 /Widths [250 333.5 408]", fd)
	}
	return b.add(s + ">>")
}

func (b *srcBuilder) image() int {
	w, h := 1+b.r.Intn(5), 1+b.r.Intn(5)
	d := make([]byte, w*h*3)
	b.r.Read(d)
	d[0] |= 0x80 // no leading white space
	s := fmt.Sprintf("/Type /XObject /Subtype /Image /Width %d /Height %d /BitsPerComponent 8 /ColorSpace /DeviceRGB /Interpolate %v", w, h, b.r.Intn(2) == 0)
	if b.r.Intn(4) == 0 { // a palette
		pal := make([]byte, 12)
		b.r.Read(pal)
		ix := make([]byte, w*h)
		for i := range ix {
			ix[i] = byte(b.r.Intn(4))
		}
		ix[0] = 1
		return b.stream(fmt.Sprintf("/Type /XObject /Subtype /Image /Width %d /Height %d /BitsPerComponent 8 /ColorSpace [/Indexed /DeviceRGB 3 <%x>]", w, h, pal), ix)
	}
	if b.r.Intn(3) == 0 {
		m := make([]byte, w*h)
		b.r.Read(m)
		m[0] |= 0x80
		s += fmt.Sprintf(" /SMask %d 0 R", b.stream(fmt.Sprintf("/Type /XObject /Subtype /Image /Width %d /Height %d /BitsPerComponent 8 /ColorSpace /DeviceGray", w, h), m))
	}
	return b.stream(s, d)
}

func (b *srcBuilder) form(depth int, shared []int) int {
	r := b.r
	var names []string
	res := ""
	if depth > 0 && r.Intn(2) == 0 {
		f := b.form(depth-1, shared)
		res = fmt.Sprintf("/XObject <</Sub %d 0 R>>", f)
		names = []string{"Sub"}
	}
	var fn []string
	if len(shared) > 0 && r.Intn(2) == 0 {
		res += fmt.Sprintf("/Font <</FF %d 0 R>>", shared[r.Intn(len(shared))])
		fn = []string{"FF"}
	}
	return b.stream(fmt.Sprintf("/Type /XObject /Subtype /Form /BBox [0 0 50 40.5] /Matrix [1 0 0 1 %d 0] /Resources <<%s>>", r.Intn(5), res), b.content(fn, names, nil, 50, 40))
}

// randPDF draws a file of a few pages.
func randPDF(r *rand.Rand) *PDFAsset { return randPDFOpt(r, pdfOpt{}) }

// pdfOpt asks for more than plain pages.
type pdfOpt struct {
	Rotate bool // pages are turned
	Crop   bool // pages have a crop box
	Mixed  bool // pages have boxes of their own
}

func randPDFOpt(r *rand.Rand, opt pdfOpt) *PDFAsset {
	b := &srcBuilder{r: r, objs: map[int]string{}, strm: map[int]bool{}}
	cat, root := b.alloc(), b.alloc()
	if r.Intn(2) == 0 { // leave the numbers scattered
		b.next += r.Intn(20)
	}
	boxes := []string{"0 0 612 792", "0 0 200 300", "10 20 310 420", "-50 -50 150 250.5", "0 0 595.28 841.89"}
	sizes := [][4]float64{{0, 0, 612, 792}, {0, 0, 200, 300}, {10, 20, 310, 420}, {-50, -50, 150, 250.5}, {0, 0, 595.28, 841.89}}
	bi := r.Intn(len(boxes))
	w, h := sizes[bi][2]-sizes[bi][0], sizes[bi][3]-sizes[bi][1]
	n := 1 + r.Intn(4)
	a := &PDFAsset{}
	inherit := r.Intn(2) == 0
	var fonts []int
	for i := 1 + r.Intn(2); i > 0; i-- {
		fonts = append(fonts, b.font())
	}
	// two dictionaries that refer to each other
	p1, p2 := b.alloc(), b.alloc()
	b.set(p1, fmt.Sprintf("<</Type /OCG /Name (layer \\\\ \\(x\\)) /Peer %d 0 R /Flag true /Nothing null /Hex <00FFa0> /Oct (\\101\\12\\0x\\n\\t\\\\)>>", p2))
	b.set(p2, fmt.Sprintf("<</Type /OCG /Name (other) /Peer %d 0 R /Vals [1 -2.5 .25 [%d 0 R] /N#20x]>>", p1, p1))
	sharedRes := 0
	var kids []int
	mid := 0
	if r.Intn(3) == 0 {
		mid = b.alloc()
	}
	for i := 0; i < n; i++ {
		var fn, xn, gn []string
		mkRes := func() string {
			s := "/Font <<"
			for j, f := range fonts {
				if r.Intn(3) > 0 {
					nm := fmt.Sprintf("F%d", j)
					fn = append(fn, nm)
					s += fmt.Sprintf("/%s %d 0 R ", nm, f)
				}
			}
			s += ">> /XObject <<"
			for j := r.Intn(4); j > 0; j-- {
				nm := fmt.Sprintf("X%d", j)
				xn = append(xn, nm)
				o := 0
				if r.Intn(2) == 0 {
					o = b.image()
				} else {
					o = b.form(2, fonts)
				}
				s += fmt.Sprintf("/%s %d 0 R ", nm, o)
			}
			s += ">>"
			if r.Intn(2) == 0 {
				gn = []string{"G0"}
				s += fmt.Sprintf(" /ExtGState <</G0 <</ca %.2f /LW %d>>>>", r.Float64(), r.Intn(5))
			}
			if r.Intn(2) == 0 {
				s += fmt.Sprintf(" /Properties <</P0 %d 0 R>>", p1)
			}
			s += " /ProcSet [/PDF /Text]"
			return "<<" + s + ">>"
		}
		res := ""
		switch {
		case sharedRes != 0 && r.Intn(2) == 0:
			res = fmt.Sprintf("%d 0 R", sharedRes)
		case sharedRes == 0 && r.Intn(2) == 0:
			sharedRes = b.add(mkRes())
			res = fmt.Sprintf("%d 0 R", sharedRes)
		default:
			res = mkRes()
		}
		d := fmt.Sprintf("<</Type /Page /Parent %d 0 R /Resources %s", root, res)
		if mid != 0 && i > 0 {
			d = fmt.Sprintf("<</Type /Page /Parent %d 0 R /Resources %s", mid, res)
		}
		page := SrcPage{W: w, H: h, Box: sizes[bi]}
		if opt.Mixed && i > 0 {
			k := (bi + i) % len(sizes)
			page = SrcPage{W: sizes[k][2] - sizes[k][0], H: sizes[k][3] - sizes[k][1], Box: sizes[k]}
			d += " /MediaBox [" + boxes[k] + "]"
		} else if !inherit || i == 0 && r.Intn(2) == 0 {
			d += " /MediaBox [" + boxes[bi] + "]"
		}
		if opt.Crop {
			q := page.Box
			page.Crop = [4]float64{q[0] + 5, q[1] + 7.5, q[2] - 11, q[3] - 20}
			d += fmt.Sprintf(" /CropBox [%g %g %g %g]", page.Crop[0], page.Crop[1], page.Crop[2], page.Crop[3])
		}
		if opt.Rotate {
			page.Rot = 90 * r.Intn(4)
			if page.Rot != 0 {
				d += fmt.Sprintf(" /Rotate %d", page.Rot)
			}
		}
		nc := 1
		if r.Intn(3) == 0 {
			nc = 1 + r.Intn(3)
		}
		if nc == 1 && r.Intn(2) == 0 {
			d += fmt.Sprintf(" /Contents %d 0 R", b.stream("", b.content(fn, xn, gn, w, h)))
		} else {
			d += " /Contents ["
			for j := 0; j < nc; j++ {
				d += fmt.Sprintf("%d 0 R ", b.stream("", b.content(fn, xn, gn, w, h)))
			}
			d += "]"
		}
		kids = append(kids, b.add(d+">>"))
		page.Obj = kids[len(kids)-1]
		a.Pages = append(a.Pages, page)
	}
	ks := ""
	for i, k := range kids {
		if mid != 0 && i == 1 {
			break
		}
		ks += fmt.Sprintf("%d 0 R ", k)
	}
	if mid != 0 {
		mk := ""
		for _, k := range kids[1:] {
			mk += fmt.Sprintf("%d 0 R ", k)
		}
		if mk != "" {
			ks += fmt.Sprintf("%d 0 R", mid)
		}
		b.set(mid, fmt.Sprintf("<</Type /Pages /Parent %d 0 R /Kids [%s] /Count %d>>", root, mk, len(kids)-1))
	}
	rd := fmt.Sprintf("<</Type /Pages /Kids [%s] /Count %d", ks, n)
	if inherit {
		rd += " /MediaBox [" + boxes[bi] + "]"
	}
	b.set(root, rd+">>")
	b.set(cat, fmt.Sprintf("<</Type /Catalog /Pages %d 0 R>>", root))
	a.Ref = b.classic(cat)
	a.Data = a.Ref
	form := "classic"
	if r.Intn(4) == 0 {
		a.Data = b.objstm(cat)
		form = "object streams"
	}
	a.Desc = fmt.Sprintf("%d pages of %s, %s", n, boxes[bi], form)
	a.Box = sizes[bi]
	return a
}

func (b *srcBuilder) nums() []int {
	var ns []int
	for n := range b.objs {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	return ns
}

func (b *srcBuilder) classic(cat int) []byte {
	var o bytes.Buffer
	o.WriteString("%PDF-1.5\n%\xe2\xe3\xcf\xd3\n")
	off := map[int]int{}
	for _, n := range b.nums() {
		off[n] = o.Len()
		fmt.Fprintf(&o, "%d 0 obj\n%s\nendobj\n", n, b.objs[n])
	}
	x := o.Len()
	fmt.Fprintf(&o, "xref\n0 %d\n0000000000 65535 f \n", b.next+1)
	for n := 1; n <= b.next; n++ {
		if p, ok := off[n]; ok {
			fmt.Fprintf(&o, "%010d 00000 n \n", p)
		} else {
			o.WriteString("0000000000 00001 f \n")
		}
	}
	fmt.Fprintf(&o, "trailer\n<</Size %d /Root %d 0 R>>\nstartxref\n%d\n%%%%EOF\n", b.next+1, cat, x)
	return o.Bytes()
}

// objstm writes the same objects with object streams and a cross-reference stream.
func (b *srcBuilder) objstm(cat int) []byte {
	var o bytes.Buffer
	o.WriteString("%PDF-1.5\n%\xe2\xe3\xcf\xd3\n")
	type ent struct{ t, a, c int }
	xr := map[int]ent{0: {0, 0, 255}}
	var packed []int
	for _, n := range b.nums() {
		if b.strm[n] || b.objs[n][0] != '<' { // numbers stay outside: the importing library misreads them in object streams
			xr[n] = ent{1, o.Len(), 0}
			fmt.Fprintf(&o, "%d 0 obj\n%s\nendobj\n", n, b.objs[n])
		} else {
			packed = append(packed, n)
		}
	}
	next := b.next
	for len(packed) > 0 {
		k := len(packed)
		if k > 100 {
			k = 100
		}
		next++
		var head, body bytes.Buffer
		for i, n := range packed[:k] {
			fmt.Fprintf(&head, "%d %d ", n, body.Len())
			body.WriteString(b.objs[n] + "\n")
			xr[n] = ent{2, next, i}
		}
		var z bytes.Buffer
		w := zlib.NewWriter(&z)
		w.Write(head.Bytes())
		w.Write(body.Bytes())
		w.Close()
		xr[next] = ent{1, o.Len(), 0}
		fmt.Fprintf(&o, "%d 0 obj\n<</Type /ObjStm /N %d /First %d /Filter /FlateDecode /Length %d>>\nstream\n%s\nendstream\nendobj\n", next, k, head.Len(), z.Len(), z.Bytes())
		packed = packed[k:]
	}
	next++
	x := o.Len()
	xr[next] = ent{1, x, 0}
	var tab bytes.Buffer
	for n := 0; n <= next; n++ {
		e := xr[n]
		tab.Write([]byte{byte(e.t), byte(e.a >> 16), byte(e.a >> 8), byte(e.a), byte(e.c)})
	}
	var z bytes.Buffer
	w := zlib.NewWriter(&z)
	w.Write(tab.Bytes())
	w.Close()
	fmt.Fprintf(&o, "%d 0 obj\n<</Type /XRef /Size %d /W [1 3 1] /Index [0 %d] /Root %d 0 R /Filter /FlateDecode /Length %d>>\nstream\n%s\nendstream\nendobj\nstartxref\n%d\n%%%%EOF\n", next, next+1, next+1, cat, z.Len(), z.Bytes(), x)
	return o.Bytes()
}

var _ pdfr.Name
