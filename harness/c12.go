package main

import "fmt"

// The checks that judge what the pages show against the drawing model: C02, C08, C12, C13, C14, C17, C21.

// drawn runs a random script with the model attached and compares the file with it.
func drawn(c *Case, p Profile, prep func(g *Gen)) (*model, *Gen) {
	p.Model = true
	p.Bulk = 30
	g := newGen(c.R, p)
	if prep != nil {
		prep(g)
	}
	sc := g.build()
	return playModel(c, sc), g
}

func playModel(c *Case, sc *Script) *model {
	unit := randUnit(c.R)
	c.trace = func() string { return fmt.Sprintf("unit %+v\n", unit) + sc.String() }
	m := newModel(c, sc)
	_, b := runScript(sc, unit, m.attach)
	d := openDoc(c, sc, b)
	if d == nil {
		return m
	}
	m.compare(d)
	n, t, i := 0, 0, 0
	for _, p := range m.pages {
		for _, g := range p.groups {
			for _, it := range g.items {
				switch it.kind {
				case "path":
					n++
				case "text":
					t++
				default:
					i++
				}
			}
		}
	}
	c.Count("pages", len(m.pages))
	c.Count("shapes", n)
	c.Count("texts", t)
	c.Count("images", i)
	c.Distinct(fmt.Sprint(len(m.pages), n, t, i, len(b)))
	if c.R.Intn(40) == 0 {
		c.Sample("%d pages, %d shapes, %d texts, %d images compared (%d bytes)", len(m.pages), n, t, i, len(b))
	}
	return m
}

func (m *model) countOps(c *Case) {
	eachOp(m.sc.Ops, func(o *Op) { c.Count("op "+o.K, 1) })
}

func init() {
	wDraw := mergeW(wText, wMulti, wMove, wShape, wState, wCS, wScope, wTr, wImg)
	register(&Check{ID: "C02", Quick: 8000, Deep: 80000, Rule: "random documents of several pages of different sizes and boxes, switched between at random, with header and footer callbacks and breaks on demand; every page of the file read back and compared with the drawing model",
		Need: []string{"pages", "shapes", "texts", "op setpage", "op addpage", "op header", "op footer", "op setnewy"},
		Run: func(c *Case) {
			m, _ := drawn(c, Profile{W: mergeW(wDraw, wPage, wMarg, map[string]int{"addpage": 12, "setpage": 12, "header": 2, "footer": 2}), Steps: 20 + c.R.Intn(40), Images: 2, Sizes: true, Header: true, Fonts: 2}, nil)
			m.countOps(c)
			m.judge("page content geom textpos text image")
		}})
	register(&Check{ID: "C08", Quick: 10000, Deep: 120000, Rule: "random texts and cells (alignments, borders, floats, underline, coefficients, spacings, fonts) at random cursors, also next to each other, turned and clipped; every glyph, underline and border read back and compared with the drawing model",
		Need: []string{"texts", "continued texts", "joint underlines", "justified", "underlined", "borders", "op cellopt", "op multicell", "op multicellopt", "lines of cells", "op rotate"},
		Run: func(c *Case) {
			m, _ := drawn(c, Profile{W: mergeW(wText, wMulti, wMove, map[string]int{"lw": 1, "txt": 1, "gfill": 1, "txtk": 1, "tr": 1, "trclear": 1, "rotate": 1, "rotreset": 1, "addpage": 1, "setpage": 1, "textrun": 3}), Steps: 15 + c.R.Intn(40), Sizes: true, Joint: true, Missing: c.R.Intn(3) == 0, RealFont: true}, nil)
			m.countOps(c)
			m.judge("content text textpos textfont underline border cursor color alpha")
		}})
	register(&Check{ID: "C12", Quick: 13000, Deep: 120000, Rule: "random shapes of every kind and style on pages of several sizes inside random nestings of saved states, rotations and clip regions; every path read back and compared with the drawing model",
		Need: []string{"shapes", "op line", "op oval", "op curve", "op polygon", "op rectangle", "op clip", "op rotate", "op save", "op rectllo", "op rectulo", "op rectlls", "op rectuls"},
		Run: func(c *Case) {
			m, _ := drawn(c, Profile{W: mergeW(wShape, wScope, wPage, map[string]int{"lw": 1, "stroke": 1, "fill": 1, "tr": 1, "text": 1, "setfont": 1}), Steps: 20 + c.R.Intn(60), Sizes: true, Fonts: 1}, nil)
			m.countOps(c)
			m.judge("content geom paint clip")
		}})
	register(&Check{ID: "C13", Quick: 12000, Deep: 120000, Rule: "random histories of colour (grey, RGB, CMYK, spot), line width and dash settings between shapes and texts, inside saved states and on several pages; every item's colours, width and dashes read back and compared with the drawing model",
		Need: []string{"shapes", "texts", "op cs", "op gfill", "op gstroke", "op stroke", "op fill", "op txt", "op strokek", "op fillk", "op txtk", "op lw", "op lt", "op clt", "op save", "op setpage"},
		Run: func(c *Case) {
			w, ph := mergeW(wShape, wText, wMulti, wState, wCS, wScope, wPage, wMove, map[string]int{"textrun": 3}), c.R.Intn(2) == 0
			if ph {
				w = mergeW(w, wPH)
			}
			m, _ := drawn(c, Profile{W: w, Steps: 25 + c.R.Intn(60), NoUnder: ph, Joint: true, Fonts: 2, Sizes: true}, nil)
			m.countOps(c)
			m.judge("color line")
		}})
	register(&Check{ID: "C14", Quick: 9000, Deep: 120000, Rule: "random sequences of setting and clearing the document's transparency and drawing with and without transparency of their own, over many opacities and blend modes, with masks; every item's opacity, blend mode and mask read back and compared with the drawing model",
		Need: []string{"shapes", "texts", "images", "op tr", "op trclear", "op imageopt", "op rectllo", "op cellopt", "op multicellopt"},
		Run: func(c *Case) {
			m, _ := drawn(c, Profile{W: mergeW(wShape, wText, wMulti, wTr, wScope, wPage, wImg, wMove, map[string]int{"tr": 14, "trclear": 6, "textrun": 3}), Steps: 25 + c.R.Intn(60), Images: 3, Fonts: 1, Sizes: true}, nil)
			m.countOps(c)
			m.judge("alpha mask")
		}})
	register(&Check{ID: "C17", Quick: 7500, Deep: 80000, Rule: "random placements of a pool of images with every combination of size, crop, flips, rotation, mask and transparency, repeatedly and on several pages; every image and mask read back, decoded and compared with the drawing model",
		Need: []string{"images", "op image", "op imageopt", "shared pictures", "masked images", "cropped images", "turned images", "cropped masks"},
		Run: func(c *Case) {
			m, _ := drawn(c, Profile{W: mergeW(wImg, wPage, wScope, map[string]int{"image": 10, "imageopt": 30, "tr": 1, "trclear": 1, "rectuls": 2}), Steps: 10 + c.R.Intn(30), Images: 2 + c.R.Intn(4), Fonts: 1, Sizes: true}, func(g *Gen) { g.Sc.Cfg.OneFile = c.R.Intn(3) == 0 })
			m.countOps(c)
			m.judge("content image mask clip")
		}})
	register(&Check{ID: "C21", Quick: 10000, Deep: 120000, Rule: "random histories of reserving places under several names, drawing, changing font, size, spacing and colour, and filling the names (also again and never); every page read back and compared with the drawing model",
		Need: []string{"texts", "op ph", "op fillph"},
		Run: func(c *Case) {
			m, _ := drawn(c, Profile{W: mergeW(wText, wMove, wPH, wPage, map[string]int{"ph": 14, "fillph": 8, "line": 4, "txt": 3, "gfill": 1, "txtk": 1, "textrun": 3}), Steps: 20 + c.R.Intn(50), NoUnder: true, Sizes: true}, nil)
			m.countOps(c)
			m.judge("content text textpos textfont color cursor")
		}})
}
