package main

import (
	"bytes"
	"fmt"

	"vmon/pdfr"
)

// C25: a call that fails leaves no trace.

// badOp draws a call that must fail. drawn tells that a page and a font are there.
func (g *Gen) badOp(drawn bool) (Op, bool) {
	r := g.R
	addBad := func(data []byte) int {
		g.Sc.Images = append(g.Sc.Images, &ImgAsset{Data: data, Kind: "bad"})
		return len(g.Sc.Images) - 1
	}
	x, y := g.f(0, 200), g.f(0, 200)
	fam := "F0"
	if len(g.fonts) > 0 {
		fam = g.fonts[r.Intn(len(g.fonts))].fam
	}
	k := r.Intn(28)
	if !drawn {
		k = r.Intn(8)
	}
	switch k {
	case 0:
		return Op{K: "setfont", S: []string{"no such family"}, I: []int{0, r.Intn(2)}, N: []float64{12}}, true
	case 1: // a style that is not there
		for st := 0; st < 4; st++ {
			have := false
			for _, f := range g.fonts {
				if f.fam == fam && f.style == st {
					have = true
				}
			}
			if !have {
				return Op{K: "setfont", S: []string{fam}, I: []int{st | 4*r.Intn(2), r.Intn(2)}, N: []float64{19}}, true
			}
		}
		return Op{K: "setfont", S: []string{fam + "x"}, I: []int{0, 0}, N: []float64{12}}, true
	case 2: // a size that is no number
		f := g.fonts[r.Intn(len(g.fonts))]
		return Op{K: "setfont", S: []string{f.fam}, I: []int{f.style, r.Intn(2), 5}, N: []float64{33}}, true
	case 3, 4:
		d, _ := mutate(r, g.curFontOr().Data)
		if r.Intn(2) == 0 {
			d = d[:len(d)/(1+r.Intn(20))]
		}
		if r.Intn(3) == 0 {
			d = nil
		}
		g.Sc.Fonts = append(g.Sc.Fonts, &FontAsset{Data: d, Desc: "bad"})
		// may be accepted when the damage is harmless
		return Op{K: "addfont", S: []string{fmt.Sprintf("bad%d", r.Intn(1000))}, I: []int{len(g.Sc.Fonts) - 1, r.Intn(4), r.Intn(4), r.Intn(2), 0, 0}}, false
	case 5:
		return Op{K: "kernov", S: []string{"no such family"}, I: []int{1}}, true
	case 6:
		return Op{K: "fillph", S: []string{"no such placeholder", "text"}, I: []int{8}}, true
	case 7:
		return Op{K: "addfontpath", S: []string{"bad", "/nonexistent/font.ttf"}}, true
	case 8:
		return Op{K: "setpage", I: []int{[]int{0, -1, 999, 1 << 40}[r.Intn(4)]}}, true
	case 9:
		return Op{K: "cs", S: []string{"no such space"}}, true
	case 10, 11:
		if len(g.cs) == 0 {
			return Op{K: "cs", S: []string{""}}, true
		}
		o := Op{K: "addcs", S: []string{g.cs[0]}, I: g.rgb()}
		if r.Intn(2) == 0 {
			o.I = []int{1, 2, 3, 4}
		}
		// the first colour space exists only after its addcs: judged by what is returned
		return o, false
	case 12:
		return Op{K: "imagepath", S: []string{[]string{"/nonexistent/a.png", "", "/"}[r.Intn(3)]}, F: []float64{x, y}}, true
	case 13, 14:
		o := Op{K: "image", I: []int{addBad(badImageData(r)), r.Intn(4)}, F: []float64{x, y}}
		if r.Intn(2) == 0 {
			o.F = append(o.F, 50, 50)
		}
		return o, true
	case 15:
		return Op{K: "image", I: []int{0, 7}, F: []float64{x, y, 10, 10}}, true
	case 16: // damaged within: may be accepted
		d, _ := mutate(r, randImage(r).Data)
		return Op{K: "image", I: []int{addBad(d), r.Intn(4)}, F: []float64{x, y, 30, 30}, S: []string{"damaged"}}, false
	case 17, 18:
		o := g.imgOpt(true)
		o.T = g.tspec()
		o.Img = addBad(badImageData(r))
		return Op{K: "imageopt", Img: o}, true
	case 19, 20: // good image, bad mask
		o := g.imgOpt(false)
		o.T = g.tspec()
		m := g.imgOpt(false)
		m.Img = addBad(badImageData(r))
		m.T = g.tspec()
		o.Mask = m
		if r.Intn(2) == 0 { // an image not used before
			g.Sc.Images = append(g.Sc.Images, alphaImage(r))
			o.Img = len(g.Sc.Images) - 1
		}
		return Op{K: "imageopt", Img: o}, true
	case 21:
		return Op{K: "rectangle", F: []float64{50, 50, []float64{50, 40, -10}[r.Intn(3)], 70, 0}, I: []int{0}, S: []string{"D"}}, true
	case 22:
		return Op{K: "rectangle", F: []float64{50, 50, 80, 90, 31 + g.f(0, 20)}, I: []int{3}, S: []string{"DF"}}, true
	case 23:
		return Op{K: "split", S: []string{""}, I: []int{r.Intn(2)}, F: []float64{100}}, true
	case 24:
		o := g.cellOpt()
		o.K = "multicellopt"
		o.I[2] = 0
		o.T = g.tspec()
		o.S = []string{""}
		o.F = []float64{100, 50}
		return o, true
	case 27:
		t := &TrSpec{A: []float64{1.0004, -0.0004, 2, -1, 100}[r.Intn(5)], BM: "/Multiply"}
		if r.Intn(2) == 0 {
			t = &TrSpec{A: 0.5, BM: []string{"Multiply", "/multiply", "/Mul", "x", "/Normal /x", "/"}[r.Intn(6)]}
		}
		return Op{K: "newtr", T: t}, true
	case 25:
		if len(g.Sc.PDFs) > 0 && len(g.Sc.PDFs[0].Pages) > 0 { // a box of no such name
			return Op{K: "impall", I: []int{0, r.Intn(4)}, S: []string{[]string{"MediaBox", "/NoBox", ""}[r.Intn(3)]}}, true
		}
		return Op{K: "impall", I: []int{0, 4}, S: []string{"/MediaBox"}}, true
	default:
		t := g.table()
		switch r.Intn(3) {
		case 0:
			t.Rows = append(t.Rows, make([]TabCell, len(t.Heads)+1))
		case 1:
			st := &TabStyle{Font: "no such family", Size: 10, BW: 1}
			row := make([]TabCell, len(t.Heads))
			for j := range row {
				row[j] = TabCell{Text: "x", Style: st}
			}
			t.Rows = append(t.Rows, row)
		default:
			t.Head = &TabStyle{Font: "no such family", Size: 10, BW: 1}
		}
		return Op{K: "table", Tab: t}, true
	}
}

func (g *Gen) curFontOr() *FontAsset {
	return g.Sc.Fonts[0]
}

func init() {
	register(&Check{ID: "C25", Quick: 6500, Deep: 60000, Rule: "random histories with failing calls of 27 kinds inserted anywhere; the twin leaves out the calls that failed",
		Need: []string{"failed calls", "failed addfont", "failed image", "failed imageopt", "failed setpage", "failed setfont", "failed addcs", "failed table", "failed rectangle", "failed multicellopt", "failed impall", "failed fillph", "byte-equal twins", "encrypted"},
		Run: func(c *Case) {
			p := Profile{W: wAll, Steps: 3 + c.R.Intn(40), Images: 1 + c.R.Intn(3), Header: true, Sizes: true, Bulk: 40, Protect: c.R.Intn(6) == 0}
			if c.R.Intn(8) == 0 && !p.Protect {
				p.PDFs = 1
			}
			g := newGen(c.R, p)
			sc := g.build()
			if len(sc.PDFs) == 0 {
				sc.PDFs = append(sc.PDFs, &PDFAsset{}) // for the refused import
			}
			var ops []Op
			fonts, page := 0, false
			first := -1
			for i, o := range sc.Ops {
				if o.K == "addfont" {
					fonts++
				}
				if o.K == "addpage" && !page {
					page = true
					first = i
				}
				ready := page && i > first+1 // the first page is followed by a setfont
				for fonts == len(g.fonts) && c.R.Intn(6) == 0 {
					b, must := g.badOp(ready)
					if g.size == 0 {
						g.size = 12
					}
					b.Bad = must
					b.N = append([]float64{}, b.N...)
					ops = append(ops, b)
					ops[len(ops)-1].Bad = must
				}
				ops = append(ops, o)
			}
			sc.Ops = ops
			unit := randUnit(c.R)
			c.trace = func() string { return fmt.Sprintf("unit %+v\n%s", unit, sc) }
			va := newVM(sc, unit)
			defer va.Clean()
			failed := map[int]bool{}
			var px, py float64
			var np, nobj int
			va.Enter = func(op *Op) {
				px, py = va.p(va.G.GetX()), va.p(va.G.GetY())
				np = va.G.GetNumberOfPages()
				nobj = va.G.GetNextObjectID()
			}
			va.Leave = func(op *Op, rec *Rec) {
				if va.depth > 0 {
					return
				}
				if rec.Err != "" {
					failed[va.idx] = true
					c.Count("failed calls", 1)
					c.Count("failed "+op.K, 1)
					if !pdfr.Near(px, rec.X, 1e-9) || !pdfr.Near(py, rec.Y, 1e-9) {
						c.Fail("cursor:"+op.K, "call %d %s failed (%s) and moved the cursor from %.4f,%.4f to %.4f,%.4f", va.idx, op.K, rec.Err, px, py, rec.X, rec.Y)
					}
					if n := va.G.GetNextObjectID(); n != nobj {
						c.Fail("objects-left:"+op.K, "call %d %s failed (%s) and left %d objects in the document", va.idx, op.K, rec.Err, n-nobj)
					}
					if n := va.G.GetNumberOfPages(); n != np {
						c.Fail("pages:"+op.K, "call %d %s failed (%s) and changed the number of pages from %d to %d", va.idx, op.K, rec.Err, np, n)
					}
				} else if op.Bad {
					c.Fail("accepted:"+op.K, "call %d %s must be refused and was accepted", va.idx, op.K)
				}
			}
			va.Run()
			a := append([]byte{}, va.G.GetBytesPdf()...)
			for _, rec := range va.Recs {
				if o := sc.Ops[rec.I]; rec.Sub == 0 && rec.Err == "" && o.K == "image" && len(o.S) > 0 {
					c.Count("histories with a damaged image that was accepted", 1)
					return
				}
			}
			if len(failed) == 0 {
				c.Count("histories without failure", 1)
				return
			}
			s2 := *sc
			s2.Ops = nil
			var keep []Rec
			for i, o := range sc.Ops {
				if !failed[i] {
					s2.Ops = append(s2.Ops, o)
				}
			}
			for _, rec := range va.Recs {
				if rec.Sub > 0 || !failed[rec.I] {
					keep = append(keep, rec)
				}
			}
			vb, b := runScript(&s2, unit, nil)
			if d := diffLines(recLines(keep), recLines(vb.Recs)); d != "" {
				c.Fail("later-calls", "calls after a failed call return something else than without it: %s", d)
			}
			if bytes.Equal(a, b) {
				c.Count("byte-equal twins", 1)
			} else {
				la, lb := canonOf(c, sc, a), canonOf(c, sc, b)
				if la == nil || lb == nil {
					return
				}
				if d := diffLines(la, lb); d != "" {
					c.Fail("trace:"+diffKind(la, lb), "the document differs from its twin without the failed calls: %s", d)
				} else if p.PDFs == 0 {
					// what no page uses counts too: nothing may be left behind
					da, db := openDoc(c, sc, a), openDoc(c, sc, b)
					if len(da.Objs) != len(db.Objs) {
						c.Fail("objects-left", "failed calls left objects behind: %d objects, %d without them", len(da.Objs), len(db.Objs))
					}
				}
			}
			if p.Protect {
				c.Count("encrypted", 1)
			}
			c.Distinct(fmt.Sprintf("%x", fnv64(string(a))))
			c.Sample("%d calls, %d of them failed, %d bytes", len(sc.Ops), len(failed), len(a))
		}})
}
