package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strings"

	"vmon/pdfr"
)

// C23: imported pages are intact and in place.

func init() {
	register(&Check{ID: "C23", Quick: 5000, Deep: 40000, Rule: "random histories of importing pages of several generated files (path, bytes, stream; scattered object numbers, shared and circular objects, turned pages, crop boxes) between other drawing, compared object by object with the sources",
		Need: []string{"templates used", "used again", "imported by path", "imported by stream", "whole files", "several files", "turned pages", "crop boxes", "objects compared", "streams compared", "circular objects", "protected", "mixed sizes", "drawn between", "sizes reported", "own importer"},
		Run:  runC23})
}

// iso compares a part of an output file with a part of a source file.
type iso struct {
	c      *Case
	o, s   *pdfr.Doc
	fwd    map[int]int
	back   map[int]int
	todo   [][2]int
	path   map[int]string
	err    string
	visits int
}

func (q *iso) fail(path, f string, a ...interface{}) {
	if q.err == "" {
		q.err = path + ": " + fmt.Sprintf(f, a...)
	}
}

func (q *iso) cmp(path string, ov, sv interface{}, onum int) {
	if q.err != "" {
		return
	}
	or, ok1 := ov.(pdfr.Ref)
	sr, ok2 := sv.(pdfr.Ref)
	if ok1 && ok2 {
		if x, ok := q.fwd[or.Num]; ok && x != sr.Num {
			q.fail(path, "object %d stands for the source's objects %d and %d", or.Num, x, sr.Num)
		}
		if x, ok := q.back[sr.Num]; ok && x != or.Num {
			q.fail(path, "the source's object %d became objects %d and %d", sr.Num, x, or.Num)
		}
		if _, ok := q.fwd[or.Num]; !ok {
			q.fwd[or.Num], q.back[sr.Num] = sr.Num, or.Num
			q.todo = append(q.todo, [2]int{or.Num, sr.Num})
			q.path[or.Num] = path
		} else {
			q.visits++
		}
		return
	}
	if ok1 {
		onum = or.Num
	}
	ov, sv = q.o.R(ov), q.s.R(sv)
	switch s := sv.(type) {
	case nil:
		if ov != nil {
			q.fail(path, "%v instead of null", ov)
		}
	case pdfr.Dict:
		o, ok := ov.(pdfr.Dict)
		if !ok {
			q.fail(path, "%T instead of a dictionary", ov)
			return
		}
		q.dict(path, o, s, onum, "")
	case pdfr.Array:
		o, ok := ov.(pdfr.Array)
		if !ok || len(o) != len(s) {
			q.fail(path, "%v instead of %v", ov, sv)
			return
		}
		for i := range s {
			q.cmp(fmt.Sprintf("%s[%d]", path, i), o[i], s[i], onum)
		}
	case pdfr.Str:
		o, ok := ov.(pdfr.Str)
		if !ok {
			q.fail(path, "%T instead of a string", ov)
			return
		}
		b := []byte(o)
		if q.o.Enc {
			b = q.o.DecString(onum, o)
		}
		if !bytes.Equal(b, []byte(s)) {
			q.fail(path, "string %q instead of %q", b, []byte(s))
		}
	case pdfr.Num:
		o, ok := ov.(pdfr.Num)
		if !ok || math.Abs(o.V-s.V) > 1e-9+1e-6*math.Abs(s.V) {
			q.fail(path, "%v instead of %v", ov, sv)
		}
	default:
		if fmt.Sprintf("%T %v", ov, ov) != fmt.Sprintf("%T %v", sv, sv) {
			q.fail(path, "%v instead of %v", ov, sv)
		}
	}
}

func (q *iso) dict(path string, o, s pdfr.Dict, onum int, skip string) {
	keys := map[string]bool{}
	for k := range o {
		keys[string(k)] = true
	}
	for k := range s {
		keys[string(k)] = true
	}
	var ks []string
	for k := range keys {
		if k != skip {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		ov, oh := o[pdfr.Name(k)]
		sv, sh := s[pdfr.Name(k)]
		if !oh && q.s.R(sv) != nil {
			q.fail(path+"/"+k, "missing, the source has %v", sv)
		}
		if !sh && q.o.R(ov) != nil {
			q.fail(path+"/"+k, "%v, the source has none", ov)
		}
		if oh && sh {
			q.cmp(path+"/"+k, ov, sv, onum)
		}
	}
}

func (q *iso) run() {
	for len(q.todo) > 0 && q.err == "" {
		p := q.todo[0]
		q.todo = q.todo[1:]
		path := q.path[p[0]]
		q.c.Count("objects compared", 1)
		os, ok1 := q.o.Objs[p[0]].(*pdfr.Stream)
		ss, ok2 := q.s.Objs[p[1]].(*pdfr.Stream)
		switch {
		case ok1 != ok2:
			q.fail(path, "stream %v, in the source %v", ok1, ok2)
		case ok1:
			q.c.Count("streams compared", 1)
			q.dict(path, os.D, ss.D, p[0], "Length")
			if a, b := q.o.Bytes(os), q.s.Bytes(ss); !bytes.Equal(a, b) {
				q.fail(path, "stream of %d bytes differs from the source's %d bytes at %s", len(a), len(b), firstDiff(a, b))
			}
		default:
			if q.o.Objs[p[0]] == nil && q.s.Objs[p[1]] != nil {
				q.fail(path, "object %d is missing, the source's object %d is %v", p[0], p[1], q.s.Objs[p[1]])
				return
			}
			q.cmp(path, q.o.Objs[p[0]], q.s.Objs[p[1]], p[0])
		}
	}
}

type wantForm struct {
	pdf, page  int
	x, y, w, h float64
	mark       float64 // not a form but a rectangle at this place
}

func runC23(c *Case) {
	r := c.R
	sc := &Script{Cfg: Cfg{W: float64(200 + r.Intn(600)), H: float64(200 + r.Intn(600))}}
	if r.Intn(6) == 0 {
		sc.Cfg.Protect, sc.Cfg.User, sc.Cfg.Owner = true, "u", "o"
		c.Count("protected", 1)
	}
	mixed := r.Intn(25) == 0
	var boxes []string
	np := 1 + r.Intn(3)
	for i := 0; i < np; i++ {
		opt := pdfOpt{Rotate: r.Intn(4) == 0, Crop: r.Intn(4) == 0, Mixed: mixed}
		a := randPDFOpt(r, opt)
		sc.PDFs = append(sc.PDFs, a)
		sc.Desc = append(sc.Desc, a.Desc)
		b := "/MediaBox"
		if opt.Crop && r.Intn(2) == 0 {
			b = "/CropBox"
		}
		boxes = append(boxes, b)
	}
	if np > 1 {
		c.Count("several files", 1)
	}
	add := func(o Op) { sc.Ops = append(sc.Ops, o) }
	if r.Intn(6) == 0 {
		sc.Cfg.Imp = true
		c.Count("own importer", 1)
	}
	type tpl struct{ pdf, page int }
	var tpls []tpl
	var want [][]wantForm
	cur := -1
	imp := func() {
		p := r.Intn(np)
		t := tpl{p, r.Intn(len(sc.PDFs[p].Pages))}
		route := r.Intn(2)
		if route == 0 {
			c.Count("imported by path", 1)
		} else {
			c.Count("imported by stream", 1)
		}
		if sc.Cfg.Imp && p == 0 && r.Intn(2) == 0 {
			add(Op{K: "impraw", I: []int{p, 0, t.page + 1}, S: []string{boxes[p]}})
			tpls = append(tpls, t)
			return
		}
		add(Op{K: "imp", I: []int{p, route, t.page + 1}, S: []string{boxes[p]}})
		tpls = append(tpls, t)
	}
	newPage := func() {
		o := Op{K: "addpage"}
		if r.Intn(2) == 0 {
			o.F = []float64{float64(100 + r.Intn(900)), float64(100 + r.Intn(900))}
		}
		add(o)
		want = append(want, nil)
		cur = len(want) - 1
	}
	font := false
	marks := 0.0
	mark := func() {
		marks++
		add(Op{K: "rectul", F: []float64{marks, marks * 2, 10, 20}, S: []string{"D"}})
		want[cur] = append(want[cur], wantForm{mark: marks})
		c.Count("drawn between", 1)
	}
	if r.Intn(3) == 0 {
		imp()
	}
	newPage()
	used := map[int]int{}
	for n := 4 + r.Intn(14); n > 0; n-- {
		switch r.Intn(10) {
		case 0, 1:
			imp()
		case 2, 3, 4:
			if len(tpls) == 0 {
				imp()
			}
			i := r.Intn(len(tpls))
			t := tpls[i]
			f := wantForm{pdf: t.pdf, page: t.page, x: round3(r.Float64()*300 - 50), y: round3(r.Float64()*300 - 50), w: round3(1 + r.Float64()*500), h: round3(1 + r.Float64()*500)}
			add(Op{K: "use", I: []int{i}, F: []float64{f.x, f.y, f.w, f.h}})
			want[cur] = append(want[cur], f)
			used[i]++
			if used[i] > 1 {
				c.Count("used again", 1)
			}
		case 5:
			newPage()
		case 6:
			if len(want) > 1 {
				cur = r.Intn(len(want))
				add(Op{K: "setpage", I: []int{cur + 1}})
			}
		case 7:
			mark()
		case 8:
			switch {
			case !font:
				font = true
				a := randFont(r)
				sc.Fonts = append(sc.Fonts, a)
				add(Op{K: "addfont", S: []string{"A"}, I: []int{0, r.Intn(4), 0, 0, 1, 0}})
				add(Op{K: "setfont", S: []string{"A"}, I: []int{0, 0, 0}, N: []float64{12}})
			case r.Intn(2) == 0:
				add(Op{K: "setxy", F: []float64{10, 10}})
				add(Op{K: "text", S: []string{string(sc.Fonts[0].Runes[:1])}})
			default:
				sc.Images = append(sc.Images, randImage(r))
				add(Op{K: "image", I: []int{len(sc.Images) - 1, 1}, F: []float64{5, 5, 20, 20}})
			}
		case 9:
			if r.Intn(2) == 0 {
				p := r.Intn(np)
				a := sc.PDFs[p]
				turned := false
				for _, pg := range a.Pages {
					turned = turned || pg.Rot%180 != 0
				}
				if turned { // the size the library gives the page is the size before turning
					continue
				}
				add(Op{K: "impall", I: []int{p, r.Intn(4)}, S: []string{boxes[p]}})
				c.Count("whole files", 1)
				for i, pg := range a.Pages {
					b := pg.Box
					if boxes[p] == "/CropBox" {
						b = pg.Crop
					}
					want = append(want, []wantForm{{pdf: p, page: i, w: b[2] - b[0], h: b[3] - b[1]}})
				}
				cur = len(want) - 1
			} else if p := r.Intn(np); r.Intn(2) == 0 {
				add(Op{K: "sizes", I: []int{p, r.Intn(2)}, S: []string{boxes[p]}})
			} else {
				mark()
			}
		}
	}
	unit := randUnit(r)
	c.trace = func() string { return fmt.Sprintf("unit %+v\n%s", unit, sc) }
	v, b := runScript(sc, unit, nil)
	for _, q := range v.Recs {
		if q.Err != "" {
			c.Fail("error:"+q.K, "%s: %s", q.K, q.Err)
			return
		}
		if q.K == "sizes" {
			a, box := sc.PDFs[sc.Ops[q.I].I[0]], sc.Ops[q.I].S[0]
			c.Count("sizes reported", 1)
			if len(q.N) != 6*len(a.Pages) {
				c.Fail("sizes", "call %d: %d page sizes reported, the file has %d pages", q.I, len(q.N)/6, len(a.Pages))
				return
			}
			for i, pg := range a.Pages {
				b := pg.Box
				if box == "/CropBox" {
					b = pg.Crop
				}
				w := []float64{math.Abs(b[2] - b[0]), math.Abs(b[3] - b[1]), b[0], b[1], b[2], b[3]}
				for j := range w {
					if !pdfr.Near(q.N[6*i+j], w[j], 0.0051) {
						c.Fail("sizes", "call %d: page %d reported as %v, it is %v (w h llx lly urx ury)", q.I, i+1, q.N[6*i:6*i+6], w)
						return
					}
				}
			}
		}
	}
	d := openDoc(c, sc, b)
	if d == nil {
		return
	}
	pages, err := d.Pages()
	if err != nil || len(pages) != len(want) {
		c.Fail("pages", "%d pages, expected %d, %v", len(pages), len(want), err)
		return
	}
	src := make([]*pdfr.Doc, np)
	srcPages := make([][]*pdfr.Page, np)
	for i, a := range sc.PDFs {
		s, err := pdfr.Parse(a.Ref)
		if err != nil {
			c.Fail("harness", "source %d: %v", i, err)
			return
		}
		src[i] = s
		srcPages[i], err = s.Pages()
		if err != nil || len(srcPages[i]) != len(a.Pages) {
			c.Fail("harness", "source %d: %d pages, %v", i, len(srcPages[i]), err)
			return
		}
	}
	done := map[int]tpl{} // templates compared
	fonts := d.LoadFonts()
	for k, p := range pages {
		content, err := d.PageContent(p)
		if err != nil {
			c.Fail("content", "%v", err)
			return
		}
		it := d.Run(content, p.Res, pdfr.InitialGS(), fonts, false)
		H := p.MediaBox[3]
		n := 0
		for _, ev := range it.Events {
			isMark := ev.Kind == "path"
			if !isMark && ev.Kind != "form" {
				continue
			}
			if n >= len(want[k]) {
				c.Fail("extra", "page %d shows %s after all that was drawn on it", k+1, ev.Kind)
				return
			}
			w := want[k][n]
			n++
			if isMark != (w.mark != 0) {
				c.Fail("order", "page %d: item %d is a %s, expected %+v", k+1, n, ev.Kind, w)
				return
			}
			if isMark {
				if x := ev.Path[0].P[0]; math.Abs(x.X-w.mark) > 0.02 {
					c.Fail("order", "page %d: item %d is the rectangle at %.2f, expected the one at %.0f", k+1, n, x.X, w.mark)
					return
				}
				continue
			}
			c.Count("templates used", 1)
			where := fmt.Sprintf("page %d item %d (file %d page %d)", k+1, n, w.pdf, w.page+1)
			f, ok := d.Objs[ev.XObj].(*pdfr.Stream)
			if !ok {
				c.Fail("form", "%s: object %d is not a form", where, ev.XObj)
				return
			}
			a := sc.PDFs[w.pdf]
			pg := a.Pages[w.page]
			sp := srcPages[w.pdf][w.page]
			// place
			box := pg.Box
			if boxes[w.pdf] == "/CropBox" {
				box = pg.Crop
				c.Count("crop boxes", 1)
			}
			if pg.Rot != 0 {
				c.Count("turned pages", 1)
			}
			bb := d.Floats(f.D["BBox"])
			if len(bb) != 4 {
				c.Fail("bbox", "%s: BBox %v", where, f.D["BBox"])
				return
			}
			good, first := true, true
			box0 := a.Pages[0].Box
			if boxes[w.pdf] == "/CropBox" {
				box0 = a.Pages[0].Crop
			}
			for i := range bb {
				good = good && math.Abs(bb[i]-box[i]) <= 0.0051
				first = first && math.Abs(bb[i]-box0[i]) <= 0.0051
			}
			if mixed && w.page > 0 {
				c.Count("mixed sizes", 1)
			}
			if !good {
				if mixed && first && w.page > 0 {
					c.Fail("mixed-page-sizes", "%s is cut to the box %v of its file's first page, its own is %v", where, bb, box)
				} else {
					c.Fail("bbox", "%s: BBox %v, the page's is %v", where, bb, box)
					return
				}
			}
			m := pdfr.Mat{1, 0, 0, 1, 0, 0}
			if x := d.Floats(f.D["Matrix"]); len(x) == 6 {
				copy(m[:], x)
			}
			m = m.Mul(ev.GS.CTM)
			// the page's corners, as the turned page shows them: lower left, lower right, upper right, upper left
			corners := [4][2]float64{{bb[0], bb[1]}, {bb[2], bb[1]}, {bb[2], bb[3]}, {bb[0], bb[3]}}
			turn := pg.Rot / 90
			if good {
				for i := 0; i < 4; i++ {
					q := corners[(i+turn)%4]
					gx, gy := m.Apply(q[0], q[1])
					x, y := w.x, H-w.y-w.h
					if i == 1 || i == 2 {
						x += w.w
					}
					if i >= 2 {
						y += w.h
					}
					tol := 0.012 + 0.00006*(math.Abs(bb[2]-bb[0])+math.Abs(bb[3]-bb[1]))
					if math.Abs(gx-x) > tol || math.Abs(gy-y) > tol {
						c.Fail("place", "%s: corner %d is at %.3f,%.3f, expected %.3f,%.3f (+-%.3f)", where, i, gx, gy, x, y, tol)
						return
					}
				}
			}
			if t, ok := done[ev.XObj]; ok {
				if t.pdf != w.pdf || t.page != w.page {
					c.Fail("confused", "%s shows object %d, which is page %d of file %d", where, ev.XObj, t.page+1, t.pdf)
					return
				}
				continue
			}
			// content
			got, err := d.Decode(f)
			if err != nil {
				c.Fail("form-stream", "%s: %v", where, err)
				return
			}
			sb, err := src[w.pdf].PageContent(sp)
			if err != nil {
				c.Fail("harness", "%v", err)
				return
			}
			if x, y := strings.Fields(string(got)), strings.Fields(string(sb)); strings.Join(x, " ") != strings.Join(y, " ") {
				for _, z := range srcPages[w.pdf] {
					if zb, _ := src[w.pdf].PageContent(z); strings.Join(strings.Fields(string(zb)), " ") == strings.Join(x, " ") {
						c.Fail("wrong-page", "%s shows another page's content", where)
						return
					}
				}
				c.Fail("form-content", "%s: content differs from the page's: %s", where, firstDiff(got, sb))
				return
			}
			q := &iso{c: c, o: d, s: src[w.pdf], fwd: map[int]int{}, back: map[int]int{}, path: map[int]string{}}
			spd, _ := src[w.pdf].Objs[sp.Num].(pdfr.Dict)
			q.cmp("Resources", f.D["Resources"], spd["Resources"], ev.XObj)
			q.run()
			if q.err != "" {
				c.Fail("resources", "%s: %s", where, q.err)
				return
			}
			if q.visits > 0 {
				c.Count("circular objects", 1)
			}
			done[ev.XObj] = tpl{w.pdf, w.page}
			c.Distinct(fmt.Sprintf("%d objects, turned %d", len(q.fwd), pg.Rot))
		}
		if n != len(want[k]) {
			c.Fail("missing", "page %d shows %d of %d items", k+1, n, len(want[k]))
			return
		}
	}
	c.Sample("%d pages, %d templates, %d files", len(pages), len(tpls), np)
}
