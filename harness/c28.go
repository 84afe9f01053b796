package main

import (
	"fmt"
	"math"

	"github.com/signintech/gopdf"
)

// C28: the cursor, the margins and page breaks on demand, against an executable model of the rules.

func init() {
	register(&Check{ID: "C28", Quick: 12000, Deep: 300000, Rule: "random histories of cursor moves, line breaks, margins, page additions and switches, page breaks on demand (many exactly at or next to the bottom margin), header and footer callbacks that move the cursor and the margins, and calls that must leave the cursor alone; the cursor, the margins, the page count and the callback log are read back after every call",
		Need: []string{"calls", "pages", "header runs", "footer runs", "breaks", "no break", "exact fits", "just over", "page switches", "margins read", "other sizes", "callbacks moving the cursor", "callbacks changing margins", "imported pages", "neutral calls", "float right", "float bottom", "trim only"},
		Run:  runC28})
}

type curModel struct {
	c              *Case
	sc             *Script
	f              float64
	recs           []Rec
	log            []string
	pos            int
	x, y           float64
	l, t, r, b     float64
	def            [2]float64
	pages          [][2]float64
	cur            int
	header, footer []Op
	hasH, hasF     bool
	want           []string
}

func (m *curModel) near(a, b float64) bool { return math.Abs(a-b) <= 1e-9*(1+math.Abs(a)+math.Abs(b)) }

func (m *curModel) newPage(w, h float64) {
	m.pages = append(m.pages, [2]float64{w, h})
	m.cur = len(m.pages) - 1
	m.x, m.y = m.l, m.t
	for i, has := range []bool{m.hasH, m.hasF} {
		if !has {
			continue
		}
		kind, sub := "header", m.header
		if i == 1 {
			kind, sub = "footer", m.footer
		}
		m.want = append(m.want, fmt.Sprintf("%s begin, %d pages, cursor reset %v", kind, len(m.pages), true))
		m.run(sub)
		m.want = append(m.want, fmt.Sprintf("%s end, %d pages", kind, len(m.pages)))
		m.x, m.y = m.l, m.t
	}
}

func (m *curModel) run(ops []Op) {
	for i := range ops {
		if m.c.Failed() {
			return
		}
		m.step(&ops[i])
	}
}

func (m *curModel) breakIf(y, h float64) bool {
	lim := m.pages[m.cur][1] - m.b
	if y+h == lim {
		m.c.Count("exact fits", 1)
	} else if y+h > lim && y+h < lim+0.01 {
		m.c.Count("just over", 1)
	}
	if y+h > lim {
		m.c.Count("breaks", 1)
		m.newPage(m.def[0], m.def[1])
		return true
	}
	m.c.Count("no break", 1)
	return false
}

func (m *curModel) step(op *Op) {
	F := op.F
	freeX, freeY := false, false
	switch op.K {
	case "addpage":
		w, h := m.def[0], m.def[1]
		if len(F) >= 2 && F[0] > 0 {
			w, h = F[0], F[1]
			m.c.Count("other sizes", 1)
		}
		m.newPage(w, h)
	case "setpage":
		m.cur = op.I[0] - 1
		m.c.Count("page switches", 1)
	case "header":
		m.header, m.hasH = op.Sub, true
	case "footer":
		m.footer, m.hasF = op.Sub, true
	case "setx":
		m.x = F[0]
	case "nudge":
		m.x += F[0]
	case "sety":
		m.y = F[0]
	case "setxy":
		m.x, m.y = F[0], F[1]
	case "br":
		m.y += F[0]
		m.x = m.l
	case "setnewy":
		y := F[0]
		if m.breakIf(m.y, F[1]) {
			y = m.t
		}
		m.y = y
	case "setnewyn":
		y := F[0]
		if m.breakIf(F[0], F[1]) {
			y = m.t
		}
		m.y = y
	case "setnewxy":
		y := F[0]
		if m.breakIf(m.y, F[2]) {
			y = m.t
		}
		m.x, m.y = F[1], y
	case "margins":
		m.l, m.t, m.r, m.b = F[0], F[1], F[2], F[3]
	case "mleft":
		m.l = F[0]
	case "mtop":
		m.t = F[0]
	case "mright":
		m.r = F[0]
	case "mbottom":
		m.b = F[0]
	case "text", "cell":
		if op.K == "cell" && len(F) == 2 {
			m.x += F[0]
			m.c.Count("float right", 1)
		} else {
			freeX = true
		}
	case "cellopt":
		fl := op.I[2]
		if fl&gopdf.Bottom != 0 {
			m.y += F[1]
			m.c.Count("float bottom", 1)
		} else {
			m.x += F[0]
			m.c.Count("float right", 1)
		}
	case "impall":
		for range m.sc.PDFs[op.I[0]].Pages {
			m.newPage(m.def[0], m.def[1])
			m.c.Count("imported pages", 1)
		}
		if len(m.sc.PDFs[op.I[0]].Pages) > 0 {
			freeX, freeY = false, false
		}
	case "getmargins", "pages":
	default:
		m.c.Count("neutral calls", 1)
	}
	if m.pos >= len(m.recs) {
		m.c.Fail("calls", "the run ended early: %s was not reached", opName(op))
		return
	}
	rec := m.recs[m.pos]
	m.pos++
	m.c.Count("calls", 1)
	if rec.K != op.K {
		m.c.Fail("calls", "expected %s next, but %s (callback depth %d) was executed", opName(op), rec.K, rec.Sub)
		return
	}
	if rec.Err != "" && op.K != "image" && op.K != "imageopt" {
		m.c.Fail("error", "%s failed: %s", opName(op), rec.Err)
		return
	}
	if freeX {
		m.x = rec.X
	}
	if freeY {
		m.y = rec.Y
	}
	if !m.near(rec.X, m.x) || !m.near(rec.Y, m.y) {
		k := op.K
		if op.K != "header" && op.K != "footer" && m.neutral(op.K) {
			k = "neutral"
		}
		m.c.Fail("cursor-"+k, "after %s (call %d, callback depth %d) the cursor is at (%v, %v), expected (%v, %v); margins left %v top %v bottom %v, page height %v", opName(op), rec.I, rec.Sub, rec.X, rec.Y, m.x, m.y, m.l, m.t, m.b, m.pageH())
		return
	}
	m.x, m.y = rec.X, rec.Y // keep rounding from adding up
	switch op.K {
	case "getmargins":
		m.c.Count("margins read", 1)
		w := []float64{m.l, m.t, m.r, m.b, m.l, m.t, m.r, m.b}
		for i := range w {
			if !m.near(w[i], rec.L[i]) {
				m.c.Fail("margins", "margins read back as %v, expected %v", rec.L, w)
				return
			}
		}
	case "pages":
		if int(rec.N[0]) != len(m.pages) {
			m.c.Fail("page-count", "%v pages, expected %d", rec.N[0], len(m.pages))
		}
	}
}

func (m *curModel) pageH() float64 {
	if len(m.pages) == 0 {
		return 0
	}
	return m.pages[m.cur][1]
}

func (m *curModel) neutral(k string) bool {
	switch k {
	case "addpage", "setpage", "setx", "nudge", "sety", "setxy", "br", "setnewy", "setnewyn", "setnewxy", "margins", "mleft", "mtop", "mright", "mbottom", "text", "cell", "cellopt", "impall":
		return false
	}
	return true
}

func opName(o *Op) string { return fmt.Sprintf("%s%v%v", o.K, o.F, o.I) }

func runC28(c *Case) {
	r := c.R
	g := newGen(r, Profile{W: wAll, Fonts: 1, Images: 1, Sizes: true})
	sc := g.Sc
	if r.Intn(3) == 0 {
		sc.Cfg.W, sc.Cfg.H = 600, 800
	}
	if r.Intn(4) == 0 {
		sc.PDFs = append(sc.PDFs, randPDF(r))
	}
	unit := randUnit(r)
	exact := unit.factor() == 1 // sums of whole numbers are exact: ties can be asked for
	f := unit.factor()

	// the generator keeps its own rough cursor so that breaks land near the bottom margin
	var x, y float64
	ml, mt, mr, mb := 10.0, 10.0, 10.0, 10.0
	H := sc.Cfg.H
	type pg struct{ h float64 }
	var pages []pg
	nAdd := 0
	val := func(a, b float64) float64 {
		if exact && r.Intn(2) == 0 {
			return math.Floor(a + r.Float64()*(b-a))
		}
		return round3(a + r.Float64()*(b-a))
	}
	addPage := func() {
		o := Op{K: "addpage"}
		h := sc.Cfg.H
		switch r.Intn(6) {
		case 0, 1:
			o.F = []float64{val(100, 900), val(100, 900)}
			h = o.F[1]
			if r.Intn(2) == 0 {
				o.F = append(o.F, 1, 2, 30, 40)
			}
		case 2:
			o.F = []float64{0, 0, 1, 2, 30, 40}
			c.Count("trim only", 1)
		}
		g.emit(o)
		pages = append(pages, pg{h})
		nAdd++
		H = h
		x, y = ml, mt
	}
	g.fonts = nil
	g.addFont(0)
	var ncb int
	neutral := []string{"line", "rectul", "rectuls", "oval", "curve", "polygon", "rectangle", "image", "imageopt", "lw", "lt", "stroke", "fill", "gfill", "txt", "measure", "measureh", "hasglyph", "extlink", "intlink", "outline", "outlinepos", "isfit", "split", "tr", "trclear", "spacing", "fontsize", "setfont", "compress", "pages", "getmargins", "imp", "use"}
	var step func(depth int)
	step = func(depth int) {
		switch k := r.Intn(30); {
		case k < 3 && depth == 0:
			if len(pages) < 25 {
				addPage()
			}
		case k < 4 && depth == 0 && len(pages) > 0:
			n := r.Intn(nAdd) // the generator may think of more pages than there are
			g.emit(Op{K: "setpage", I: []int{n + 1}})
			H = pages[n].h
		case k < 5:
			x = val(-50, 700)
			g.emit(Op{K: "setx", F: []float64{x}})
		case k < 6 && r.Intn(4) == 0:
			g.emit(Op{K: "nudge", F: []float64{val(-20, 20)}})
		case k < 6:
			y = val(-50, 900)
			g.emit(Op{K: "sety", F: []float64{y}})
		case k < 8:
			x, y = val(-50, 700), val(-50, 900)
			g.emit(Op{K: "setxy", F: []float64{x, y}})
		case k < 10:
			h := val(-20, 60)
			if r.Intn(8) == 0 {
				h = 0
			}
			g.emit(Op{K: "br", F: []float64{h}})
			y += h
			x = ml
		case k < 15 && depth == 0 && len(pages) > 0:
			ny := val(0, H)
			kind := []string{"setnewy", "setnewyn", "setnewxy"}[r.Intn(3)]
			base := y
			if kind == "setnewyn" {
				base = ny
			}
			if r.Intn(2) == 0 && kind != "setnewyn" { // know where we are
				base = val(0, H-mb)
				g.emit(Op{K: "sety", F: []float64{base}})
				y = base
			}
			h := val(0, H/2)
			if r.Intn(2) == 0 { // right at the margin
				h = H - mb - base
				switch r.Intn(3) {
				case 0:
					h = round3(h + 0.004)
				case 1:
					h = round3(h - 0.004)
				default:
					if !exact || h != math.Floor(h) {
						h = round3(h - 0.003)
					}
				}
			}
			d := base + h - (H - mb)
			if math.Abs(d) < 1e-6 && !(exact && d == 0 && h == math.Floor(h) && base == math.Floor(base) && H == math.Floor(H) && mb == math.Floor(mb)) {
				h += 0.01
			}
			if kind == "setnewxy" {
				g.emit(Op{K: kind, F: []float64{ny, val(0, 500), h}})
			} else {
				g.emit(Op{K: kind, F: []float64{ny, h}})
			}
			if base+h > H-mb {
				H = sc.Cfg.H
				pages = append(pages, pg{H})
				y = mt
			} else {
				y = ny
			}
		case k < 16:
			ml, mt, mr, mb = val(0, 80), val(0, 80), val(0, 80), val(0, 80)
			g.emit(Op{K: "margins", F: []float64{ml, mt, mr, mb}})
		case k < 18:
			v := val(0, 90)
			o := Op{K: []string{"mleft", "mtop", "mright", "mbottom"}[r.Intn(4)], F: []float64{v}}
			switch o.K {
			case "mleft":
				ml = v
			case "mtop":
				mt = v
			case "mright":
				mr = v
			default:
				mb = v
			}
			if (o.K == "mleft" || o.K == "mtop") && r.Intn(2) == 0 {
				o.I = []int{1}
			}
			g.emit(o)
		case k < 20:
			g.emit(Op{K: "getmargins"})
			g.emit(Op{K: "pages"})
		case k < 21 && depth == 0 && ncb < 4:
			ncb++
			sv := g.out
			svp, svl, svt, svr, svb, svx, svy := pages, ml, mt, mr, mb, x, y
			g.out = nil
			moved, marg := false, false
			for n := r.Intn(6); n > 0; n-- {
				if len(pages) == 0 {
					switch r.Intn(3) {
					case 0:
						g.emit(Op{K: "setxy", F: []float64{val(0, 500), val(0, 500)}})
					case 1:
						g.emit(Op{K: "br", F: []float64{val(0, 50)}})
					default:
						g.emit(Op{K: "line", F: []float64{1, 2, 3, 4}})
					}
					continue
				}
				step(1)
			}
			if r.Intn(3) == 0 {
				g.emit(Op{K: "getmargins"})
			}
			for _, o := range g.out {
				switch o.K {
				case "setx", "sety", "setxy", "br":
					moved = true
				case "margins", "mleft", "mtop", "mright", "mbottom":
					marg = true
				}
			}
			if moved {
				c.Count("callbacks moving the cursor", 1)
			}
			if marg {
				c.Count("callbacks changing margins", 1)
			}
			sub := g.out
			g.out, pages, ml, mt, mr, mb, x, y = sv, svp, svl, svt, svr, svb, svx, svy
			g.emit(Op{K: []string{"header", "footer"}[r.Intn(2)], Sub: sub})
		case k < 22 && depth == 0 && len(sc.PDFs) > 0 && len(pages) > 0 && len(pages) < 20:
			g.emit(Op{K: "impall", I: []int{0, r.Intn(4)}, S: []string{"/MediaBox"}})
			for range sc.PDFs[0].Pages {
				pages = append(pages, pg{sc.Cfg.H})
			}
			H = sc.Cfg.H
			x, y = ml, mt
		case k < 25 && len(pages) > 0:
			o := g.cellOpt()
			o.K = "cellopt"
			o.I[2] = []int{0, gopdf.Right, gopdf.Bottom}[r.Intn(3)]
			o.S = []string{g.text(8)}
			o.F = []float64{val(5, 200), val(3, 60)}
			switch r.Intn(3) {
			case 0:
				g.emit(Op{K: "text", S: []string{g.text(8)}})
			case 1:
				g.emit(Op{K: "cell", S: []string{g.text(8)}, F: o.F})
				x += o.F[0]
			default:
				g.emit(o)
				if o.I[2] == gopdf.Bottom {
					y += o.F[1]
				} else {
					x += o.F[0]
				}
			}
		default:
			if len(pages) == 0 {
				return
			}
			k := neutral[r.Intn(len(neutral))]
			if k == "imp" || k == "use" {
				if depth > 0 {
					return
				}
			}
			g.pages, g.q, g.cur = [][2]float64{{600, H}}, [][]string{nil}, 0
			g.under = false
			g.step(k)
			if k == "setfont" && g.under {
				o := &g.out[len(g.out)-1]
				o.I[0] &^= gopdf.Underline
				g.under = false
			}
		}
	}
	// callbacks may be set before the first page
	for n := r.Intn(3); n > 0; n-- {
		step(0)
		if len(pages) > 0 {
			break
		}
	}
	addPage()
	g.setFont()
	if g.under {
		g.out[len(g.out)-1].I[0] &^= gopdf.Underline
		g.under = false
	}
	steps := 10 + r.Intn(50)
	if c.Thorough() {
		steps = 10 + r.Intn(150)
	}
	for i := 0; i < steps; i++ {
		step(0)
	}
	g.emit(Op{K: "getmargins"})
	g.emit(Op{K: "pages"})
	sc.Ops = append(g.out, sc.Ops...)
	c.trace = func() string { return fmt.Sprintf("unit %+v\n", unit) + sc.String() }

	var log []string
	m := &curModel{c: c, sc: sc, f: f, l: 10, t: 10, r: 10, b: 10, def: [2]float64{sc.Cfg.W, sc.Cfg.H}}
	v, b := runScript(sc, unit, func(v *VM) {
		v.CB = func(kind string, begin bool) {
			if begin {
				l, t, _, _ := v.G.Margins()
				atStart := m.near(v.p(v.G.GetX()), v.p(l)) && m.near(v.p(v.G.GetY()), v.p(t))
				log = append(log, fmt.Sprintf("%s begin, %d pages, cursor reset %v", kind, v.G.GetNumberOfPages(), atStart))
				c.Count(kind+" runs", 1)
			} else {
				log = append(log, fmt.Sprintf("%s end, %d pages", kind, v.G.GetNumberOfPages()))
			}
		}
	})
	m.recs = v.Recs
	m.run(sc.Ops)
	if c.Failed() {
		return
	}
	if m.pos != len(m.recs) {
		c.Fail("calls", "%d calls executed, expected %d: callbacks ran more often than pages were added", len(m.recs), m.pos)
		return
	}
	if d := diffLines(log, m.want); d != "" {
		c.Fail("callbacks", "the callback log differs from the one expected: %s", d)
		return
	}
	c.Count("pages", len(m.pages))
	c.Distinct(fmt.Sprint(len(m.pages), len(m.recs), int(m.x), int(m.y)))
	if r.Intn(50) == 0 {
		c.Sample("%d calls, %d pages, %d callback runs, cursor ends at (%v, %v) in %s", len(m.recs), len(m.pages), len(log)/2, m.x, m.y, fmt.Sprintf("%+v", unit))
	}
	d := parseOut(c, b)
	if d == nil || c.Failed() {
		return
	}
	if ps, _ := d.Pages(); len(ps) != len(m.pages) {
		c.Fail("file-pages", "the file has %d pages, expected %d", len(ps), len(m.pages))
	}
}
