package main

import (
	"fmt"
	"image"
	"math"
	"sort"
	"strings"

	"github.com/signintech/gopdf"
	"vmon/imgx"
	"vmon/pdfr"
	"vmon/ttfx"
)

// An executable model of drawing: it follows the calls as they are made and says what each page must show. The
// pages of the finished file are read back and compared with it item by item.

type mColor struct {
	space string // Gray, RGB, CMYK or Spot
	v     [4]float64
	spot  *mSpot
}
type mSpot struct {
	name string
	cmyk bool
	v    [4]float64
}

func (c mColor) String() string {
	if c.spot != nil {
		return fmt.Sprintf("spot %q %v", c.spot.name, c.spot.v)
	}
	return fmt.Sprintf("%s %.4g", c.space, c.v)
}

type mGS struct {
	ctm          pdfr.Mat
	stroke, fill mColor
	lw           float64
	dash         []float64
	phase        float64
	clips        []pdfr.Path
	rot          int // open rotations
}

type mItem struct {
	kind  string // path, text, image
	what  string
	path  pdfr.Path
	round *[5]float64 // x0 y0 x1 y1 r, top-down
	ext   float64     // a border may be this much longer at both ends
	horiz bool
	paint string // S f B
	gs    mGS
	alpha float64
	bm    string
	opt   bool // the item is a border or underline
	facet string
	// text
	env   textEnv
	font  genFont
	x, y  float64
	gl    []mGlyph
	jpath pdfr.Path // of an underline that goes on where another ended
	slack float64   // justification: uncertainty of each gap in thousandths
	color mColor
	// image
	img          *ImgAsset
	noA          bool // its own transparency is replaced by the mask
	jpeg, viaPNG bool
	key          string
	mat          pdfr.Mat
	mask         *mMask
	isPH         bool
	group        int
}
type mGlyph struct {
	r   rune
	gid int
	adj float64 // thousandths, as in a TJ array
	tol float64
	x   float64
}
type mMask struct {
	key  string
	img  *ImgAsset
	clip pdfr.Path
	mat  pdfr.Mat
	bbox [4]float64
	has  bool
	t    *TrSpec
}

type mGroup struct {
	op    string
	items []*mItem
}
type mPage struct {
	w, h   float64
	trim   *[4]float64
	gs     mGS
	stack  []mGS
	groups []*mGroup
	inCB   int
}

type mFind struct{ facet, sig, msg string }

type model struct {
	c      *Case
	sc     *Script
	v      *VM
	pages  []*mPage
	cur    int
	fonts  []genFont
	font   genFont
	under  bool
	size   float64
	sp     float64
	gray   bool
	txt    mColor
	tr     *TrSpec
	lw     float64
	mt, mb float64
	spots  map[string]*mSpot
	ph     map[string][]*mPH
	finds  []mFind
	pend   []func(rec *Rec)
	// what a text op must do to the cursor
	images map[int]*imgx.Pic
	fontOf map[int]int
	items  int
	shifts int
	stored map[string]int
	last   *mLast // the text drawn just before
}
type mLast struct {
	page int
	x, y float64
	r    rune
	gid  int
}
type mPH struct {
	item *mItem
	w, x float64
}

func (m *model) find(facet, sig, f string, a ...interface{}) {
	if len(m.finds) < 30 {
		m.finds = append(m.finds, mFind{facet, sig, fmt.Sprintf(f, a...)})
	}
}

func newModel(c *Case, sc *Script) *model {
	return &model{c: c, sc: sc, mt: 10, mb: 10, lw: 0, spots: map[string]*mSpot{}, ph: map[string][]*mPH{}, gray: true, images: map[int]*imgx.Pic{}, stored: map[string]int{}, fontOf: map[int]int{}}
}

// attach makes the model follow a run.
func (m *model) attach(v *VM) {
	m.v = v
	v.Enter = m.enter
	v.Leave = m.leave
}

func (m *model) p() *mPage { return m.pages[m.cur] }

func (m *model) newPage(w, h float64, trim *[4]float64) {
	g := mGS{ctm: pdfr.Ident, stroke: mColor{space: "Gray"}, fill: mColor{space: "Gray"}, lw: 1}
	if trim == nil && m.sc.Cfg.Trim != [4]float64{} {
		t := m.sc.Cfg.Trim
		trim = &t
	}
	m.pages = append(m.pages, &mPage{w: w, h: h, trim: trim, gs: g})
	m.cur = len(m.pages) - 1
}

func (m *model) group(op *Op, it ...*mItem) {
	p := m.p()
	m.items += len(it)
	p.groups = append(p.groups, &mGroup{op: fmt.Sprintf("call %d %s", m.v.idx, op.K), items: it})
}

// dev turns top-down page points into device space.
func (m *model) dev(x, y float64) pdfr.Pt {
	p := m.p()
	a, b := p.gs.ctm.Apply(x, p.h-y)
	return pdfr.Pt{X: a, Y: b}
}

func (m *model) poly(closed bool, f ...float64) pdfr.Path {
	var o pdfr.Path
	for i := 0; i+1 < len(f); i += 2 {
		k := byte('L')
		if i == 0 {
			k = 'M'
		}
		o = append(o, pdfr.Seg{K: k, P: [3]pdfr.Pt{m.dev(f[i], f[i+1])}})
	}
	if closed {
		o = append(o, pdfr.Seg{K: 'Z'})
	}
	return o
}

func (m *model) bez(start bool, f ...float64) pdfr.Path {
	var o pdfr.Path
	if start {
		o = append(o, pdfr.Seg{K: 'M', P: [3]pdfr.Pt{m.dev(f[0], f[1])}})
	}
	return append(o, pdfr.Seg{K: 'C', P: [3]pdfr.Pt{m.dev(f[2], f[3]), m.dev(f[4], f[5]), m.dev(f[6], f[7])}})
}

func paintOf(style string) string {
	switch strings.ToUpper(strings.TrimSpace(style)) {
	case "F":
		return "f"
	case "DF", "FD":
		return "B"
	}
	return "S"
}

// item starts an item with the state in force; t is its own transparency.
func (m *model) item(what, paint string, path pdfr.Path) *mItem {
	return &mItem{kind: "path", what: what, paint: paint, path: path, gs: m.p().gs, alpha: 1, bm: "Normal"}
}

func (it *mItem) trans(own, doc *TrSpec) *mItem {
	t := own
	if t == nil {
		t = doc
	}
	if t != nil {
		it.alpha = t.A
		it.bm = strings.TrimPrefix(t.BM, "/")
		if it.bm == "" {
			it.bm = "Normal"
		}
	}
	return it
}

func rgbColor(i []int) mColor {
	return mColor{space: "RGB", v: [4]float64{float64(i[0]) / 255, float64(i[1]) / 255, float64(i[2]) / 255}}
}
func cmykColor(i []int) mColor {
	return mColor{space: "CMYK", v: [4]float64{float64(i[0]) / 100, float64(i[1]) / 100, float64(i[2]) / 100, float64(i[3]) / 100}}
}
func grayColor(f float64) mColor {
	return mColor{space: "Gray", v: [4]float64{math.Max(0, math.Min(1, f))}}
}

func (m *model) textColor() mColor {
	if m.gray {
		return m.p().gs.fill
	}
	return m.txt
}

func (m *model) env() textEnv {
	return textEnv{A: m.sc.Fonts[m.font.idx], Size: m.size, Sp: m.sp, Kern: m.font.kern, KernK: m.font.kernOv - 1, Subst: m.font.subst}
}

// layout fills in the glyphs of a text starting at x.
func (it *mItem) layout(text []rune, x, y float64) float64 {
	it.x, it.y = x, y
	it.gl = nil
	e := &it.env
	var pl rune
	var pg int
	at := 0.0
	for i, c := range text {
		c, g, _ := e.sub(c)
		gl := mGlyph{r: c, gid: g}
		if i > 0 {
			gl.adj = -e.pair(pl, pg, c, g)
			if gl.adj != 0 {
				gl.tol = 1.01
			}
			at -= gl.adj * e.Size / 1000
		}
		gl.x = at
		at += e.A.W(g)*e.Size/1000 + e.Sp
		pl, pg = c, g
		it.gl = append(it.gl, gl)
	}
	return at
}

func (m *model) textItem(what string, text []rune, x, y float64) *mItem {
	it := &mItem{kind: "text", what: what, gs: m.p().gs, alpha: 1, bm: "Normal", env: m.env(), font: m.font, color: m.textColor()}
	it.layout(text, x, y)
	return it
}

func (m *model) enter(op *Op) {
	m.pend = append(m.pend, nil)
	F := op.F
	var p *mPage
	if len(m.pages) > 0 {
		p = m.p()
	}
	x, y := m.v.p(m.v.G.GetX()), m.v.p(m.v.G.GetY())
	switch op.K {
	case "addpage":
		w, h := m.sc.Cfg.W, m.sc.Cfg.H
		if len(F) >= 2 && F[0] > 0 {
			w, h = F[0], F[1]
		}
		var t *[4]float64
		if len(F) >= 6 {
			t = &[4]float64{F[2], F[3], F[4], F[5]}
		}
		m.newPage(w, h, t)
	case "setpage":
		m.cur = op.I[0] - 1
	case "setnewy", "setnewxy":
		if y+F[len(F)-1] > p.h-m.mb {
			m.newPage(m.sc.Cfg.W, m.sc.Cfg.H, nil)
		}
	case "setnewyn":
		if F[0]+F[1] > p.h-m.mb {
			m.newPage(m.sc.Cfg.W, m.sc.Cfg.H, nil)
		}
	case "margins":
		m.mt, m.mb = F[1], F[3]
	case "mtop":
		m.mt = F[0]
	case "mbottom":
		m.mb = F[0]
	case "lw":
		p.gs.lw, m.lw = F[0], F[0]
	case "lt":
		switch op.S[0] {
		case "dashed":
			p.gs.dash, p.gs.phase = []float64{5}, 2
		case "dotted":
			p.gs.dash, p.gs.phase = []float64{2, 3}, 11
		default:
			p.gs.dash, p.gs.phase = nil, 0
		}
	case "clt":
		p.gs.dash, p.gs.phase = F[:len(F)-1], F[len(F)-1]
	case "gfill":
		p.gs.fill = grayColor(op.N[0])
		m.gray = true
	case "gstroke":
		p.gs.stroke = grayColor(op.N[0])
	case "stroke":
		p.gs.stroke = rgbColor(op.I)
	case "fill":
		p.gs.fill = rgbColor(op.I)
	case "txt":
		m.txt, m.gray = rgbColor(op.I), false
	case "strokek":
		p.gs.stroke = cmykColor(op.I)
	case "fillk":
		p.gs.fill = cmykColor(op.I)
	case "txtk":
		m.txt, m.gray = cmykColor(op.I), false
	case "addcs":
		s := &mSpot{name: op.S[0]}
		if len(op.I) == 3 {
			s.v = rgbColor(op.I).v
		} else {
			s.v, s.cmyk = cmykColor(op.I).v, true
		}
		m.spots[op.S[0]] = s
	case "cs":
		p.gs.stroke = mColor{space: "Spot", spot: m.spots[op.S[0]]}
	case "tr":
		m.tr = op.T
	case "trclear":
		m.tr = nil
	case "addfont":
		m.fonts = append(m.fonts, genFont{idx: op.I[0], style: op.I[2], fam: op.S[0], kern: op.I[3] != 0, subst: rune(op.I[5])})
	case "kernov":
		for i := range m.fonts {
			if m.fonts[i].fam == op.S[0] {
				m.fonts[i].kernOv = op.I[0] + 1
				break
			}
		}
	case "setfont":
		st := op.I[0]
		for _, f := range m.fonts {
			if f.fam == op.S[0] && f.style == st&^gopdf.Underline {
				m.font, m.under, m.size = f, st&gopdf.Underline != 0, op.N[0]
				break
			}
		}
	case "fontsize":
		m.size = op.N[0]
	case "spacing":
		m.sp = F[0]
	case "save":
		p.stack = append(p.stack, p.gs)
	case "restore", "rotreset":
		if n := len(p.stack); n > 0 {
			p.gs = p.stack[n-1]
			p.stack = p.stack[:n-1]
		}
	case "rotate":
		p.stack = append(p.stack, p.gs)
		p.gs.ctm = turn(op.N[0], F[0], p.h-F[1]).Mul(p.gs.ctm)
		p.gs.rot++
	case "clip":
		p.gs.clips = append(append([]pdfr.Path{}, p.gs.clips...), m.poly(true, F...))
	case "line":
		m.group(op, m.item("line", "S", m.poly(false, F...)).trans(nil, m.tr))
	case "rectll", "rectlls", "rectllo", "rectul", "rectuls", "rectulo":
		t := F[1]
		if strings.HasPrefix(op.K, "rectll") {
			t -= F[3]
		}
		paint := "S"
		switch {
		case strings.HasSuffix(op.K, "o"):
			if op.S[0] != "" {
				paint = op.S[0]
			}
		case strings.HasSuffix(op.K, "s"):
			paint = paintOf(op.S[0])
		}
		m.group(op, m.item("rectangle", paint, m.poly(true, F[0], t, F[0]+F[2], t, F[0]+F[2], t+F[3], F[0], t+F[3])).trans(op.T, m.tr))
	case "oval":
		x0, y0, x1, y1 := F[0], F[1], F[2], F[3]
		cx, cy, rx, ry := (x0+x1)/2, (y0+y1)/2, (x1-x0)/2, (y1-y0)/2
		const k = 0.55228
		path := m.bez(true, cx+rx, cy, cx+rx, cy-k*ry, cx+k*rx, cy-ry, cx, cy-ry)
		path = append(path, m.bez(false, cx, cy-ry, cx-k*rx, cy-ry, cx-rx, cy-k*ry, cx-rx, cy)...)
		path = append(path, m.bez(false, cx-rx, cy, cx-rx, cy+k*ry, cx-k*rx, cy+ry, cx, cy+ry)...)
		path = append(path, m.bez(false, cx, cy+ry, cx+k*rx, cy+ry, cx+rx, cy+k*ry, cx+rx, cy)...)
		it := m.item("oval", "S", path)
		m.group(op, it)
	case "curve":
		m.group(op, m.item("curve", paintOf(op.S[0]), m.bez(true, F...)))
	case "polygon":
		m.group(op, m.item("polygon", paintOf(op.S[0]), m.poly(true, F...)).trans(nil, m.tr))
	case "rectangle":
		it := m.item("rectangle", paintOf(op.S[0]), m.poly(true, F[0], F[1], F[2], F[1], F[2], F[3], F[0], F[3])).trans(nil, m.tr)
		if F[4] > 0 && op.I[0] > 0 {
			it.round = &[5]float64{F[0], F[1], F[2], F[3], F[4]}
		}
		m.group(op, it)
	case "text":
		m.drawText(op, x, y, true)
	case "cell", "cellopt":
		m.drawText(op, x, y, false)
	case "multicell", "multicellopt":
		m.drawLines(op, x, y)
	case "ph":
		it := m.textItem("placeholder", nil, x, y)
		it.isPH = true
		m.ph[op.S[0]] = append(m.ph[op.S[0]], &mPH{it, F[0], x})
		m.group(op, it)
		m.atEnd(func(rec *Rec) {
			if !pdfr.Near(rec.X, x+F[0], 1e-6) || !pdfr.Near(rec.Y, y, 1e-6) {
				m.find("cursor", "cursor-placeholder", "after reserving %v points at (%v, %v) the cursor is at (%v, %v)", F[0], x, y, rec.X, rec.Y)
			}
		})
	case "fillph":
		hs, known := m.ph[op.S[0]]
		for _, h := range hs {
			w := h.item.layout([]rune(op.S[1]), 0, h.item.y)
			at := h.x
			switch op.I[0] {
			case gopdf.Right:
				at += h.w - w
			case gopdf.Center:
				at += (h.w - w) / 2
			}
			h.item.layout([]rune(op.S[1]), at, h.item.y)
			_, tol := h.item.env.width([]rune(op.S[1]))
			if op.I[0] == gopdf.Left {
				tol = 0
			}
			h.item.ext = tol
		}
		m.atEnd(func(rec *Rec) {
			if known != (rec.Err == "") {
				m.find("content", "placeholder-error", "filling placeholder %q (reserved: %v) returned error %q", op.S[0], known, rec.Err)
			}
			rec.Err = ""
			if !pdfr.Near(rec.X, x, 1e-9) || !pdfr.Near(rec.Y, y, 1e-9) {
				m.find("cursor", "cursor-fill", "filling a placeholder moved the cursor from (%v, %v) to (%v, %v)", x, y, rec.X, rec.Y)
			}
		})
	case "image":
		o := &ImgOpt{Img: op.I[0], X: F[0], Y: F[1]}
		if len(F) >= 4 {
			o.HasRect, o.W, o.H = true, F[2], F[3]
		}
		it := m.image(o)
		it.jpeg, it.viaPNG = op.I[1] == 6, op.I[1] == 4 || op.I[1] == 5
		it.key = fmt.Sprintf("image %d by route %d", op.I[0], op.I[1])
		m.groupIf(op, it)
	case "imageopt":
		m.groupIf(op, m.image(op.Img))
	}
}

// groupIf adds the items and takes them back if the call fails.
func (m *model) groupIf(op *Op, it *mItem) {
	m.group(op, it)
	g := m.p().groups[len(m.p().groups)-1]
	m.atEnd(func(rec *Rec) {
		// the standard library refuses a palette in a picture without one; nothing else is refused
		if strings.Contains(rec.Err, "PLTE, color type mismatch") {
			g.items = nil
			rec.Err = ""
			m.c.Count("images refused", 1)
		}
	})
}

func (m *model) atEnd(f func(*Rec)) { m.pend[len(m.pend)-1] = f }

func (m *model) leave(op *Op, rec *Rec) {
	n := len(m.pend) - 1
	f := m.pend[n]
	m.pend = m.pend[:n]
	r := *rec
	if f != nil {
		f(&r)
	}
	if r.Err != "" {
		m.find("content", "error-"+op.K, "call %d (%s) failed: %s", rec.I, op.K, r.Err)
	}
}

// turn is a counter-clockwise rotation about a point.
func turn(deg, x, y float64) pdfr.Mat {
	a := deg * math.Pi / 180
	c, s := math.Cos(a), math.Sin(a)
	return pdfr.Mat{c, s, -s, c, x - c*x + s*y, y - s*x - c*y}
}

// drawLines draws a multi-line cell as the cells of its lines. Where the text is broken is for C10 and C11 to judge.
func (m *model) drawLines(op *Op, x, y float64) {
	F := op.F
	e := m.env()
	lh := float64(e.A.F.TypoAsc-e.A.F.TypoDesc) * e.Size / float64(e.A.F.UPEM)
	var lines []string
	var err error
	line := *op
	if op.K == "multicell" {
		line.K = "cell"
		line.F = []float64{F[0], lh}
		var cur []rune
		for _, r := range op.S[0] {
			w, er := m.v.G.MeasureTextWidth(string(cur) + string(r))
			if er != nil {
				err = er
				break
			}
			if len(cur) > 0 && w > m.v.u(F[0]) { // in the unit of the document: a fit may be exact
				lines = append(lines, string(cur))
				cur = nil
			}
			cur = append(cur, r)
		}
		if cur != nil {
			lines = append(lines, string(cur))
		}
	} else {
		bo := &gopdf.DefaultBreakOption
		if o := m.v.cellOpt(op); o.BreakOption != nil {
			bo = o.BreakOption
		}
		lines, err = m.v.G.SplitTextWithOption(op.S[0], m.v.u(F[0]), bo)
		line.K = "cellopt"
		line.F = []float64{F[0], F[1] - lh*float64(len(lines)-1)}
	}
	n := len(lines)
	exact := false
	if op.K == "multicell" && lh > 0 {
		room := F[1] / lh
		if q := math.Round(room); math.Abs(room-q) < 1e-6 && q <= float64(n) {
			exact, room = true, q
		}
		if float64(n) > room {
			n = int(math.Max(0, math.Floor(room)))
		}
	}
	for i, s := range lines[:n] {
		l := line
		l.S = []string{s}
		if l.K == "cellopt" {
			l.I = append([]int(nil), op.I...)
			if l.I[0]&gopdf.Justify == gopdf.Justify && i == len(lines)-1 {
				l.I[0] = l.I[0]&^gopdf.Justify | gopdf.Left
			}
			l.I[2] = gopdf.Right
		}
		m.drawText(&l, x, y+float64(i)*lh, false)
	}
	if n > 1 {
		m.c.Count("lines of cells", n)
	}
	last := m.last
	m.atEnd(func(rec *Rec) {
		if err == gopdf.ErrEmptyString && rec.Err != "" {
			err, rec.Err = nil, ""
		}
		if exact && n > 0 && pdfr.Near(rec.Y, y+float64(n-1)*lh, 1e-6) {
			// the height of the cell is that of so many lines but for a rounding
			n--
			p := m.p()
			p.groups = p.groups[:len(p.groups)-1]
		}
		m.last = nil
		if n == 0 { // nothing was drawn, so the next text goes on where the last one ended
			m.last = last
		}
		if err != nil {
			m.find("content", "split", "splitting the text of call %d: %v", rec.I, err)
		}
		if wy := y + float64(n)*lh; !pdfr.Near(rec.X, x, 1e-6) || !pdfr.Near(rec.Y, wy, 1e-6) {
			m.find("cursor", "cursor-"+op.K, "%s of %d lines at (%.3f, %.3f) left the cursor at (%.3f, %.3f), expected (%.3f, %.3f)", op.K, n, x, y, rec.X, rec.Y, x, wy)
		}
	})
}

func (m *model) drawText(op *Op, x, y float64, plain bool) {
	F := op.F
	text := []rune(op.S[0])
	e := m.env()
	up := float64(e.A.F.UPEM)
	asc, desc := float64(e.A.F.TypoAsc)*e.Size/up, float64(e.A.F.TypoDesc)*e.Size/up
	w, tol := e.width(text)
	cw, ch, ctol := w, asc-desc, tol
	if len(F) >= 2 {
		cw, ch, ctol = F[0], F[1], 0
	}
	al, bd, fl := gopdf.Left|gopdf.Top, 0, gopdf.Right
	coef := [3]float64{1, 1, 1}
	var own *TrSpec
	if op.K == "cellopt" {
		own = op.T
		al, bd, fl = 0, 0, 0
		for i, q := range []*int{&al, &bd, &fl} {
			if len(op.I) > i {
				*q = op.I[i]
			}
		}
		if len(op.N) >= 3 {
			for i := range coef {
				if op.N[i] != 0 {
					coef[i] = op.N[i]
				}
			}
		}
	}
	doc := m.tr
	if plain {
		al, bd, fl, doc = 0, 0, gopdf.Right, nil
	}
	tx, ty := x, y
	xtol := 0.0
	if !plain {
		switch {
		case al&gopdf.Right == gopdf.Right:
			tx, xtol = x+cw-w, tol
		case al&gopdf.Center == gopdf.Center:
			tx, xtol = x+(cw-w)/2, tol/2
		}
		if len(F) < 2 {
			tx, xtol = x, 0
		}
		switch {
		case al&gopdf.Bottom == gopdf.Bottom:
			ty = y + ch + desc
		case al&gopdf.Middle == gopdf.Middle:
			ty = y + ch/2 + (asc+desc)/2
		default:
			ty = y + asc
		}
	}
	it := m.textItem(op.K, text, tx, ty).trans(own, doc)
	it.ext = xtol
	items := []*mItem{it}
	if !plain && al&gopdf.Justify == gopdf.Justify && len(F) >= 2 {
		first, last := -1, -1
		for i, g := range it.gl {
			if g.r != ' ' {
				if first < 0 {
					first = i
				}
				last = i
			}
		}
		gaps := 0
		for i := first; i >= 0 && i < last; i++ {
			if it.gl[i].r == ' ' {
				gaps++
			}
		}
		if gaps > 0 && cw > w-tol {
			per := math.Max(0, cw-w) / float64(gaps) * 1000 / e.Size
			pt := tol / float64(gaps) * 1000 / e.Size
			add := 0.0
			for i := range it.gl {
				if i > first && i <= last && it.gl[i-1].r == ' ' && i-1 > first {
					it.gl[i].adj -= per
					it.gl[i].tol += 1.01 + pt
					add += math.Max(0, cw-w) / float64(gaps)
				}
				it.gl[i].x += add
			}
			it.ext += tol
			m.c.Count("justified", 1)
		}
	}
	var under *mItem
	var uy, th float64
	if m.under {
		m.c.Count("underlined", 1)
		f := e.A.F
		th = float64(f.UnderThick) / up * e.Size * coef[2]
		uy = ty - float64(f.UnderPos)/up*e.Size*coef[0]
		if !plain {
			a, d := f.Asc, f.Desc
			if f.TypoAsc != 0 {
				a = f.WinAsc
			}
			ascPx := float64(a) / up * e.Size
			dd := float64(d)
			if f.TypoDesc != 0 {
				dd = float64(f.WinDesc)
				if f.Desc < 0 {
					dd = -dd
				}
			}
			descPx := -dd / up * e.Size
			base := ascPx + (ascPx+descPx-coef[1]*e.Size)/2
			uy -= asc - base
		}
		u := m.item("underline", "f", m.poly(true, x, uy, x+cw, uy, x+cw, uy-th, x, uy-th)).trans(own, doc)
		u.gs.fill = it.color
		u.opt = true
		u.slack = ctol
		under = u
		items = append(items, u)
	}
	ov := math.Max(m.lw, m.p().gs.lw) / 2
	if bd != 0 {
		m.c.Count("borders", 1)
	}
	for _, b := range []struct {
		bit            int
		x0, y0, x1, y1 float64
		h              bool
	}{{gopdf.Top, x, y, x + cw, y, true}, {gopdf.Bottom, x, y + ch, x + cw, y + ch, true}, {gopdf.Left, x, y, x, y + ch, false}, {gopdf.Right, x + cw, y, x + cw, y + ch, false}} {
		if bd&b.bit == 0 {
			continue
		}
		bi := m.item("border", "S", m.poly(false, b.x0, b.y0, b.x1, b.y1)).trans(own, doc)
		bi.opt = true
		bi.slack = ctol
		if b.h {
			bi.ext = ov
			if cw < 0 { // kerned below nothing: longer at both ends means shorter
				bi.path = m.poly(false, b.x0-ov, b.y0, b.x1+ov, b.y1)
				// by how much depends on which of the two line widths counts
				bi.slack += ov
			}
		}
		items = append(items, bi)
	}
	m.group(op, items...)
	wx, wy := x, y
	if fl == 0 || fl&gopdf.Right != 0 {
		wx += cw
	}
	if fl&gopdf.Bottom != 0 {
		wy += ch
	}
	// a text that goes on where another ended is kerned with it
	joint := 0.0
	if l := m.last; l != nil && l.page == m.cur && pdfr.Near(l.x, x, 1e-6) && pdfr.Near(l.y, y, 1e-6) && len(it.gl) > 0 && len(F) < 2 {
		joint = e.pair(l.r, l.gid, it.gl[0].r, it.gl[0].gid) * e.Size / 1000
	}
	if under != nil {
		cj := cw + joint
		if joint != 0 {
			under.slack += e.Size * 0.0011
		}
		under.jpath = m.poly(true, x, uy, x+cj, uy, x+cj, uy-th, x, uy-th)
	}
	m.atEnd(func(rec *Rec) {
		m.last = nil
		if n := len(it.gl); n > 0 {
			m.last = &mLast{m.cur, rec.X, rec.Y, it.gl[n-1].r, it.gl[n-1].gid}
		}
		if joint != 0 && pdfr.Near(rec.X, wx+joint, ctol+1e-6+e.Size*0.0011) && pdfr.Near(rec.Y, wy, 1e-6) {
			m.c.Count("kerned joints", 1)
			return
		}
		if !pdfr.Near(rec.X, wx, ctol+1e-6) || !pdfr.Near(rec.Y, wy, 1e-6) {
			m.find("cursor", "cursor-"+op.K, "%s of %q in a cell of %.3f x %.3f at (%.3f, %.3f), float %d, left the cursor at (%.3f, %.3f), expected (%.3f, %.3f)", op.K, op.S[0], cw, ch, x, y, fl, rec.X, rec.Y, wx, wy)
		}
	})
}

// placed is the matrix of an image and its clip rectangle, both before the page's transformation.
func (m *model) placed(o *ImgOpt, angle float64) (mat pdfr.Mat, clip pdfr.Path) {
	a := m.sc.Images[o.Img]
	w, h := o.W, o.H
	if !o.HasRect {
		w, h = natural(a)
	}
	H := m.p().h
	x, y := o.X, H-o.Y-h // lower left
	vw, vh := w, h
	if o.Crop != nil {
		c := o.Crop
		vw, vh = c[2], c[3]
		x, y = o.X-c[0], H-o.Y+c[1]-h
	}
	mat = pdfr.Mat{w, 0, 0, h, x, y}
	if o.HF {
		mat[0], mat[4] = -w, x+w
	}
	if o.VF {
		mat[3], mat[5] = -h, y+h
	}
	rot := pdfr.Ident
	if angle != 0 {
		rot = turn(angle, o.X+vw/2, H-o.Y-vh/2)
	}
	mat = mat.Mul(rot)
	if o.Crop != nil {
		for i, q := range [][2]float64{{o.X, H - o.Y}, {o.X + vw, H - o.Y}, {o.X + vw, H - o.Y - vh}, {o.X, H - o.Y - vh}} {
			a, b := rot.Apply(q[0], q[1])
			k := byte('L')
			if i == 0 {
				k = 'M'
			}
			clip = append(clip, pdfr.Seg{K: k, P: [3]pdfr.Pt{{X: a, Y: b}}})
		}
		clip = append(clip, pdfr.Seg{K: 'Z'})
	}
	return mat, clip
}

func applyPath(p pdfr.Path, t pdfr.Mat) pdfr.Path {
	var o pdfr.Path
	for _, s := range p {
		for i := range s.P {
			s.P[i].X, s.P[i].Y = t.Apply(s.P[i].X, s.P[i].Y)
		}
		o = append(o, s)
	}
	return o
}

func (m *model) image(o *ImgOpt) *mItem {
	it := m.item("image", "", nil).trans(o.T, m.tr)
	it.kind = "image"
	it.img = m.sc.Images[o.Img]
	it.key = fmt.Sprintf("image %d by route %d", o.Img, o.Route+1)
	angle := o.Angle
	if o.Mask != nil {
		angle += o.Mask.Angle
		it.noA = true
		k := &mMask{key: fmt.Sprintf("image %d by route %d", o.Mask.Img, o.Mask.Route+1), img: m.sc.Images[o.Mask.Img], t: o.Mask.T}
		k.mat, k.clip = m.placed(o.Mask, o.Mask.Angle)
		if k.clip != nil {
			m.c.Count("cropped masks", 1)
			k.clip = applyPath(k.clip, it.gs.ctm)
		}
		k.mat = k.mat.Mul(it.gs.ctm)
		if o.Mask.BBox != nil {
			k.bbox, k.has = *o.Mask.BBox, true
		}
		it.mask = k
	}
	mat, clip := m.placed(o, angle)
	if it.mask != nil {
		m.c.Count("masked images", 1)
	}
	if angle != 0 {
		m.c.Count("turned images", 1)
	}
	if clip != nil {
		m.c.Count("cropped images", 1)
		it.gs.clips = append(append([]pdfr.Path{}, it.gs.clips...), applyPath(clip, it.gs.ctm))
	}
	if angle != 0 {
		it.gs.rot++
	}
	it.mat = mat.Mul(it.gs.ctm)
	return it
}

// ---- reading back ----

func (m *model) fontAsset(d *pdfr.Doc, obj int, want int) bool {
	if i, ok := m.fontOf[obj*1000+want]; ok {
		return i == 1
	}
	e := embedded(d, obj)
	ok := e != nil && sameAdv(e, m.sc.Fonts[want].F)
	v := 0
	if ok {
		v = 1
	}
	m.fontOf[obj*1000+want] = v
	return ok
}

// sameAdv: the embedded font belongs to the asset.
func sameAdv(e, f *ttfx.Font) bool {
	if e.UPEM != f.UPEM || len(e.Adv) > len(f.Adv) {
		return false
	}
	for i := range e.Adv {
		if e.Adv[i] != f.Adv[i] {
			return false
		}
	}
	return true
}

type subPath struct {
	segs   []pdfr.Seg
	start  pdfr.Pt
	closed bool
}

func dist(a, b pdfr.Pt) float64 { return math.Hypot(a.X-b.X, a.Y-b.Y) }

func subPaths(p pdfr.Path) []subPath {
	var o []subPath
	var cur *subPath
	var at pdfr.Pt
	for _, s := range p {
		switch s.K {
		case 'M':
			o = append(o, subPath{start: s.P[0]})
			cur = &o[len(o)-1]
			at = s.P[0]
		case 'L', 'C':
			if cur == nil {
				continue
			}
			end := s.P[0]
			if s.K == 'C' {
				end = s.P[2]
			}
			if s.K == 'L' && dist(at, end) < 1e-9 {
				continue
			}
			cur.segs = append(cur.segs, s)
			at = end
		case 'Z':
			if cur != nil {
				cur.closed = true
				at = cur.start
			}
		}
	}
	var r []subPath
	for _, s := range o {
		if s.closed && len(s.segs) > 1 {
			l := s.segs[len(s.segs)-1]
			if l.K == 'L' && dist(l.P[0], s.start) < 1e-9 {
				s.segs = s.segs[:len(s.segs)-1]
			}
		}
		r = append(r, s)
	}
	return r
}

// pathDist is the largest distance of corresponding points, or a description of why the paths differ.
func pathDist(want, got pdfr.Path, filled bool, tol float64) (float64, string) {
	a, b := subPaths(want), subPaths(got)
	if len(a) != len(b) {
		return math.Inf(1), fmt.Sprintf("%d subpaths instead of %d", len(b), len(a))
	}
	max := 0.0
	for i := range a {
		d, s := subDist(a[i], b[i], filled)
		if s != "" {
			return math.Inf(1), s
		}
		max = math.Max(max, d)
	}
	return max, ""
}

func subDist(a, b subPath, filled bool) (float64, string) {
	allL := true
	for _, s := range append(append([]pdfr.Seg{}, a.segs...), b.segs...) {
		if s.K != 'L' {
			allL = false
		}
	}
	if !filled && a.closed != b.closed && (len(a.segs) > 1 || !allL) {
		return math.Inf(1), fmt.Sprintf("closed is %v, expected %v", b.closed, a.closed)
	}
	if allL {
		pa, pb := vertices(a), vertices(b)
		cyc := a.closed || filled
		return polyDist(pa, pb, cyc)
	}
	if len(a.segs) != len(b.segs) {
		return math.Inf(1), fmt.Sprintf("%d segments instead of %d", len(b.segs), len(a.segs))
	}
	best := math.Inf(1)
	for rot := 0; rot < len(a.segs); rot++ {
		for rev := 0; rev < 2; rev++ {
			q := b
			if rev == 1 {
				q = reverse(b)
			}
			if rot > 0 {
				if !q.closed && dist(endOf(q), q.start) > 0.02 {
					break
				}
				q = rotateSub(q, rot)
			}
			d := dist(a.start, q.start)
			for i := range a.segs {
				x, y := a.segs[i], q.segs[i]
				if x.K != y.K {
					d = math.Inf(1)
					break
				}
				n := 1
				if x.K == 'C' {
					n = 3
				}
				for k := 0; k < n; k++ {
					d = math.Max(d, dist(x.P[k], y.P[k]))
				}
			}
			best = math.Min(best, d)
		}
	}
	return best, ""
}

func endOf(s subPath) pdfr.Pt {
	if len(s.segs) == 0 {
		return s.start
	}
	return segEnd(s.segs[len(s.segs)-1])
}
func segEnd(l pdfr.Seg) pdfr.Pt {
	if l.K == 'C' {
		return l.P[2]
	}
	return l.P[0]
}
func reverse(s subPath) subPath {
	o := subPath{start: endOf(s), closed: s.closed}
	for i := len(s.segs) - 1; i >= 0; i-- {
		to := s.start
		if i > 0 {
			to = segEnd(s.segs[i-1])
		}
		q := s.segs[i]
		if q.K == 'C' {
			q.P = [3]pdfr.Pt{q.P[1], q.P[0], to}
		} else {
			q.P[0] = to
		}
		o.segs = append(o.segs, q)
	}
	return o
}
func rotateSub(s subPath, n int) subPath {
	o := subPath{closed: s.closed, start: segEnd(s.segs[n-1])}
	o.segs = append(append(o.segs, s.segs[n:]...), s.segs[:n]...)
	return o
}
func vertices(s subPath) []pdfr.Pt {
	o := []pdfr.Pt{s.start}
	for _, g := range s.segs {
		o = append(o, g.P[0])
	}
	return o
}

func polyDist(a, b []pdfr.Pt, cyclic bool) (float64, string) {
	if len(a) != len(b) {
		// points that coincide after rounding may be left out
		a, b = dedup(a, cyclic), dedup(b, cyclic)
		if len(a) != len(b) {
			// a shape so small that rounding decides which points coincide
			d := 0.0
			for _, s := range [][2][]pdfr.Pt{{a, b}, {b, a}} {
				for _, p := range s[0] {
					x := math.Inf(1)
					for _, q := range s[1] {
						x = math.Min(x, dist(p, q))
					}
					d = math.Max(d, x)
				}
			}
			if d < 0.1 {
				return d, ""
			}
			return math.Inf(1), fmt.Sprintf("%d points instead of %d", len(b), len(a))
		}
	}
	n := len(a)
	best := math.Inf(1)
	try := func(off, dir int) {
		d := 0.0
		for i := range a {
			j := ((off+dir*i)%n + n) % n
			d = math.Max(d, dist(a[i], b[j]))
			if d >= best {
				return
			}
		}
		best = d
	}
	if cyclic {
		for o := 0; o < n; o++ {
			try(o, 1)
			try(o, -1)
		}
	} else {
		try(0, 1)
		try(n-1, -1)
	}
	return best, ""
}

func dedup(a []pdfr.Pt, cyclic bool) []pdfr.Pt {
	var o []pdfr.Pt
	for _, p := range a {
		if len(o) == 0 || dist(o[len(o)-1], p) > 0.03 {
			o = append(o, p)
		}
	}
	for cyclic && len(o) > 1 && dist(o[0], o[len(o)-1]) <= 0.03 {
		o = o[:len(o)-1]
	}
	return o
}

// roundDiff checks a closed outline against a rectangle with rounded corners.
func (m *model) roundDiff(it *mItem, got pdfr.Path, tol float64, H float64) string {
	r := it.round
	sp := subPaths(got)
	if len(sp) != 1 || (it.paint != "f" && !sp[0].closed) {
		return "is not one closed outline"
	}
	inv, ok := invert(it.gs.ctm)
	if !ok {
		return ""
	}
	var pts []pdfr.Pt
	for _, s := range sp[0].segs {
		if s.K != 'L' {
			return "has curves"
		}
	}
	for _, p := range vertices(sp[0]) {
		x, y := inv.Apply(p.X, p.Y)
		pts = append(pts, pdfr.Pt{X: x, Y: H - y})
	}
	x0, y0, x1, y1, rad := r[0], r[1], r[2], r[3], r[4]
	corner := [4]int{}
	var prev float64
	turns := 0.0
	back, forth := 0.0, 0.0 // the largest steps to either side, seen from the centre
	step := func(da float64) {
		turns += da
		back, forth = math.Max(back, -da), math.Max(forth, da)
	}
	for i, p := range pts {
		var d float64
		in := 0
		cx, cy := p.X, p.Y
		l, rt, tp, bt := p.X < x0+rad-tol, p.X > x1-rad+tol, p.Y < y0+rad-tol, p.Y > y1-rad+tol
		if l {
			cx = x0 + rad
		}
		if rt {
			cx = x1 - rad
			in |= 1
		}
		if tp {
			cy = y0 + rad
		}
		if bt {
			cy = y1 - rad
			in |= 2
		}
		if (l || rt) && (tp || bt) {
			d = math.Abs(math.Hypot(p.X-cx, p.Y-cy) - rad)
			corner[in]++
		} else {
			d = math.Min(math.Min(math.Abs(p.X-x0), math.Abs(p.X-x1)), math.Min(math.Abs(p.Y-y0), math.Abs(p.Y-y1)))
		}
		if d > tol*2 {
			return fmt.Sprintf("has a point (%.2f, %.2f) that is %.3f off the outline", p.X, p.Y, d)
		}
		a := math.Atan2(p.Y-(y0+y1)/2, p.X-(x0+x1)/2)
		if i > 0 {
			step(math.Remainder(a-prev, 2*math.Pi))
		}
		prev = a
	}
	if n := len(pts); n > 0 {
		a := math.Atan2(pts[0].Y-(y0+y1)/2, pts[0].X-(x0+x1)/2)
		step(math.Remainder(a-prev, 2*math.Pi))
	}
	if slack := (tol*2 + 0.02) * 4 / math.Min(x1-x0, y1-y0); back > slack && forth > slack {
		return fmt.Sprintf("goes back and forth (%.3f and %.3f)", back, forth)
	}
	if math.Abs(math.Abs(turns)-2*math.Pi) > 0.1 {
		return fmt.Sprintf("does not go round once (%.2f turns)", turns/2/math.Pi)
	}
	if rad > 0.5 && (corner[0] == 0 || corner[1] == 0 || corner[2] == 0 || corner[3] == 0) {
		return fmt.Sprintf("has corners that are not rounded (points inside the corners: %v)", corner)
	}
	// every straight side must reach both of its corners
	for _, q := range [][2]float64{{x0, y0 + rad}, {x0, y1 - rad}, {x1, y0 + rad}, {x1, y1 - rad}, {x0 + rad, y0}, {x1 - rad, y0}, {x0 + rad, y1}, {x1 - rad, y1}} {
		best := math.Inf(1)
		for _, p := range pts {
			best = math.Min(best, math.Hypot(p.X-q[0], p.Y-q[1]))
		}
		if best > tol*2+0.02 {
			return fmt.Sprintf("misses the end (%.2f, %.2f) of a side by %.3f", q[0], q[1], best)
		}
	}
	return ""
}

func invert(m pdfr.Mat) (pdfr.Mat, bool) {
	det := m[0]*m[3] - m[1]*m[2]
	if math.Abs(det) < 1e-9 {
		return m, false
	}
	a, b, c, d := m[3]/det, -m[1]/det, -m[2]/det, m[0]/det
	return pdfr.Mat{a, b, c, d, -(m[4]*a + m[5]*c), -(m[4]*b + m[5]*d)}, true
}

// farTol is what the five decimals of a rotation amount to far from its centre.
func (g *mGS) farTol(d float64) float64 {
	if d < 2000 {
		return 0
	}
	return 1e-5 * d * float64(g.rot)
}

func (g *mGS) tol() float64 { return 0.018 + 0.06*float64(g.rot) }

func (m *model) colorDiff(d *pdfr.Doc, want mColor, got pdfr.Color) string {
	if want.spot != nil {
		var n int
		if _, err := fmt.Sscanf(got.Space, "CS:%d", &n); err != nil {
			return fmt.Sprintf("%s %v instead of %s", got.Space, got.V, want)
		}
		s, err := readSpot(d, n)
		if err != nil {
			return "the spot colour cannot be read: " + err.Error()
		}
		if s.name != want.spot.name || s.cmyk != want.spot.cmyk || !near4(s.v, want.spot.v, 0.006) || math.Abs(got.V[0]-1) > 1e-9 {
			return fmt.Sprintf("spot colour %q %v tint %v instead of %q %v", s.name, s.v, got.V[0], want.spot.name, want.spot.v)
		}
		return ""
	}
	tol := 0.0006
	if want.space != "RGB" {
		tol = 0.006
	}
	if got.Space != want.space || !near4(got.V, want.v, tol) {
		return fmt.Sprintf("%s %.4g instead of %s", got.Space, got.V, want)
	}
	return ""
}

func near4(a, b [4]float64, tol float64) bool {
	for i := range a {
		if math.Abs(a[i]-b[i]) > tol {
			return false
		}
	}
	return true
}

func readSpot(d *pdfr.Doc, n int) (*mSpot, error) {
	a := d.Arr(pdfr.Ref{Num: n})
	if len(a) != 4 || d.Name(a[0]) != "Separation" {
		return nil, fmt.Errorf("not a Separation space: %v", a)
	}
	s := &mSpot{name: string(d.Name(a[1]))}
	switch d.Name(a[2]) {
	case "DeviceCMYK":
		s.cmyk = true
	case "DeviceRGB":
	default:
		return nil, fmt.Errorf("alternate space %v", a[2])
	}
	f := d.Dict(a[3])
	if st, ok := d.R(a[3]).(*pdfr.Stream); ok {
		f = st.D
	}
	if t, _ := d.Int(f["FunctionType"], -1), 0; t != 2 {
		return nil, fmt.Errorf("tint function type %d", t)
	}
	c1 := d.Floats(f["C1"])
	c0 := d.Floats(f["C0"])
	for i := range c1 {
		if i < 4 {
			s.v[i] = c1[i]
		}
	}
	if s.cmyk && len(c1) != 4 || !s.cmyk && len(c1) != 3 || len(c0) != 0 && len(c0) != len(c1) {
		return nil, fmt.Errorf("tint function %v %v", c0, c1)
	}
	return s, nil
}

func normDash(d []float64) []float64 {
	all := true
	for _, v := range d {
		if v != 0 {
			all = false
		}
	}
	if all {
		return nil
	}
	return d
}

// compare reads the finished file and compares every page.
func (m *model) compare(d *pdfr.Doc) {
	ps, err := d.Pages()
	if err != nil {
		m.find("page", "page-tree", "page tree: %v", err)
		return
	}
	if len(ps) != len(m.pages) {
		m.find("page", "page-count", "%d pages in the file, %d were added", len(ps), len(m.pages))
		return
	}
	fonts := d.LoadFonts()
	seen := map[int]bool{}
	for i, p := range ps {
		w := m.pages[i]
		if seen[p.Num] {
			m.find("page", "page-twice", "page %d appears twice in the page tree", i+1)
		}
		seen[p.Num] = true
		b := p.MediaBox
		if !pdfr.Near(b[0], 0, 1e-9) || !pdfr.Near(b[1], 0, 1e-9) || !pdfr.Near(b[2], w.w, 0.011) || !pdfr.Near(b[3], w.h, 0.011) {
			m.find("page", "mediabox", "page %d has the media box %v, expected %v x %v", i+1, b, w.w, w.h)
		}
		t := d.Floats(p.D["TrimBox"])
		if w.trim != nil {
			ok := len(t) == 4
			for k := 0; ok && k < 4; k++ {
				ok = pdfr.Near(t[k], w.trim[k], 0.011)
			}
			if !ok {
				m.find("page", "trimbox", "page %d has the trim box %v, expected %v", i+1, t, *w.trim)
			}
		} else if len(t) != 0 {
			m.find("page", "trimbox", "page %d has the trim box %v, none was asked for", i+1, t)
		}
		content, err := d.PageContent(p)
		if err != nil {
			m.find("content", "content", "page %d: %v", i+1, err)
			continue
		}
		it := d.Run(content, p.Res, pdfr.InitialGS(), fonts, false)
		m.comparePage(d, i+1, w, it)
	}
}

func (m *model) comparePage(d *pdfr.Doc, no int, w *mPage, run *pdfr.Interp) {
	var evs []pdfr.Event
	for _, e := range run.Events {
		if e.Kind == "text" && len(e.Glyphs) == 0 {
			continue
		}
		evs = append(evs, e)
	}
	j := 0
	open := -1 // text event with glyphs left
	gi := 0
	var under *mItem // underline of the part of that event seen so far
	shift := 0.0
	cum := 0
	desc := func() string {
		var o []string
		for i := j; i < len(evs) && i < j+4; i++ {
			o = append(o, evDesc(&evs[i]))
		}
		return strings.Join(o, ", ")
	}
	for _, g := range w.groups {
		var text *mItem
		var rest []*mItem
		for _, it := range g.items {
			if it.kind == "text" {
				if len(it.gl) > 0 {
					text = it
				}
			} else {
				rest = append(rest, it)
			}
		}
		if text == nil && len(rest) == 0 {
			continue
		}
		cont := false
		if open >= 0 {
			if text == nil {
				m.find("content", "text-extra", "page %d, before %s: the text shown has %d more glyphs than were drawn", no, g.op, len(evs[open].Glyphs)-gi)
				return
			}
			cont = true
		}
		// texts drawn as one have one underline, under all of them
		if text != nil {
			te, from := open, gi
			if !cont && j < len(evs) {
				te, from = j, 0
			}
			more := te >= 0 && evs[te].Kind == "text" && len(evs[te].Glyphs) > from+len(text.gl)
			if !cont {
				under = nil
			}
			var keep []*mItem
			for _, it := range rest {
				if it.what == "underline" && (more || under != nil) {
					if under != nil {
						m.c.Count("joint underlines", 1)
					}
					under = m.joinUnder(no, g, under, it)
				} else {
					keep = append(keep, it)
				}
			}
			rest = keep
			if !more && under != nil {
				rest = append(rest, under)
				under = nil
			}
		}
		n := len(rest)
		if text != nil && !cont {
			n++
		}
		if j+n > len(evs) {
			m.find("content", "missing-"+g.items[0].what, "page %d: %s is missing: %d items left on the page, %d expected", no, g.op, len(evs)-j, n)
			return
		}
		win := evs[j : j+n]
		used := make([]bool, n)
		if text != nil && !cont {
			for i := range win {
				if win[i].Kind == "text" {
					open, gi, shift, cum = j+i, 0, 0, 0
					used[i] = true
					break
				}
			}
			if open < 0 {
				m.find("content", "missing-text", "page %d: the text of %s (%q) is missing where it was drawn; the page goes on with %s", no, g.op, glyphText(text), desc())
				return
			}
		}
		if text != nil {
			ok := m.compareText(d, no, g, text, &evs[open], &gi, cont, &shift, &cum)
			if !ok {
				return
			}
			if gi >= len(evs[open].Glyphs) {
				open = -1
			}
		}
		// a border without length can lie within any other
		point := func(it *mItem) bool {
			return it.what == "border" && dist(it.path[0].P[0], it.path[1].P[0]) < 0.02
		}
		sort.SliceStable(rest, func(i, k int) bool { return !point(rest[i]) && point(rest[k]) })
		for _, it := range rest {
			best, bi := math.Inf(1), -1
			for i := range win {
				if used[i] || win[i].Kind != it.kind && !(it.kind == "image" && win[i].Kind == "form") {
					continue
				}
				dd := 1e6
				if it.kind == "path" && win[i].Kind == "path" {
					if it.what == "border" {
						dd = lineDist(it.path, win[i].Path)
						if x, s := extDist(it.path, win[i].Path, it.ext); it.ext > 0 && s == "" && x < dd {
							dd = x
						}
					} else if x, s := pathDist(it.path, win[i].Path, it.paint == "f", 1); s == "" {
						dd = x
					}
				}
				if dd < best {
					best, bi = dd, i
				}
			}
			if bi < 0 {
				m.find("content", "missing-"+it.what, "page %d: the %s of %s is missing where it was drawn; the page goes on with %s", no, it.what, g.op, desc())
				return
			}
			used[bi] = true
			if it.kind == "image" {
				m.compareImage(d, no, g, it, &win[bi])
			} else {
				m.comparePath(d, no, g, it, &win[bi], w.h)
			}
		}
		j += n
	}
	if open >= 0 {
		m.find("content", "text-extra", "page %d: the last text shown has %d more glyphs than were drawn", no, len(evs[open].Glyphs)-gi)
		return
	}
	if j < len(evs) {
		m.find("content", "extra-"+evs[j].Kind, "page %d shows %d items that were not drawn on it: %s", no, len(evs)-j, desc())
	}
}

// joinUnder is the underline of two texts next to each other.
func (m *model) joinUnder(no int, g *mGroup, a, b *mItem) *mItem {
	if a == nil {
		return b
	}
	var va, vb []pdfr.Pt
	for i := 0; i < 4; i++ {
		va, vb = append(va, a.path[i].P[0]), append(vb, b.jpath[i].P[0])
	}
	tol := a.slack + b.slack + 0.02
	if dist(va[1], vb[0]) > tol || dist(va[2], vb[3]) > tol {
		m.find("underline", "position-underline-joint", "page %d, %s: the text was drawn in one with the text before it, but its underline belongs elsewhere: %v after %v", no, g.op, vb, va)
		return a
	}
	o := *a
	o.path = pdfr.Path{}
	for i, q := range []pdfr.Pt{va[0], vb[1], vb[2], va[3]} {
		o.path = append(o.path, pdfr.Seg{K: "MLLL"[i], P: [3]pdfr.Pt{q}})
	}
	o.path = append(o.path, pdfr.Seg{K: 'Z'})
	o.slack = a.slack + b.slack
	return &o
}

func evDesc(e *pdfr.Event) string {
	switch e.Kind {
	case "text":
		return fmt.Sprintf("text of %d glyphs", len(e.Glyphs))
	case "path":
		s := ""
		if len(e.Path) > 0 {
			s = fmt.Sprintf(" at (%.1f, %.1f)", e.Path[0].P[0].X, e.Path[0].P[0].Y)
		}
		return fmt.Sprintf("path %s of %d segments%s", e.Paint, len(e.Path), s)
	}
	return e.Kind
}

func glyphText(it *mItem) string {
	var o []rune
	for _, g := range it.gl {
		o = append(o, g.r)
	}
	return string(o)
}

func (m *model) common(d *pdfr.Doc, no int, g *mGroup, it *mItem, e *pdfr.Event) {
	where := fmt.Sprintf("page %d, %s of %s", no, it.what, g.op)
	tol := it.gs.tol()
	m.clips(where, it, e.GS.Clips, tol)
	// transparency
	a, b := e.GS.FA, e.GS.SA
	fa, sa := true, true
	if it.kind == "path" {
		fa, sa = it.paint != "S", it.paint != "f"
	}
	if it.kind == "text" {
		sa = false
	}
	if it.kind == "image" {
		sa = false
	}
	if fa && math.Abs(a-it.alpha) > 0.0006 || sa && math.Abs(b-it.alpha) > 0.0006 {
		m.find("alpha", "opacity-"+it.what, "%s: opacity fill %v stroke %v, expected %v", where, a, b, it.alpha)
	}
	if e.GS.BM != it.bm {
		m.find("alpha", "blend-"+it.what, "%s: blend mode %s, expected %s", where, e.GS.BM, it.bm)
	}
	if it.kind != "image" && e.GS.SMask != 0 {
		m.find("alpha", "mask-"+it.what, "%s: a soft mask is in force", where)
	}
}

func (m *model) clips(where string, it *mItem, got []pdfr.Path, tol float64) {
	want := it.gs.clips
	if len(want) != len(got) {
		m.find("clip", "clip-count", "%s: %d clip regions in force, expected %d", where, len(got), len(want))
		return
	}
	for i := range want {
		dd, s := pathDist(want[i], got[i], true, tol)
		if s != "" || dd > tol+0.06*float64(it.gs.rot) {
			m.find("clip", "clip-region", "%s: clip region %d differs (%s distance %.3f)", where, i, s, dd)
		}
	}
}

func (m *model) comparePath(d *pdfr.Doc, no int, g *mGroup, it *mItem, e *pdfr.Event, H float64) {
	where := fmt.Sprintf("page %d, %s of %s", no, it.what, g.op)
	m.common(d, no, g, it, e)
	tol := it.gs.tol() + it.slack
	far := 0.0
	for _, sg := range it.path {
		far = math.Max(far, math.Hypot(sg.P[0].X, sg.P[0].Y))
	}
	tol += it.gs.farTol(far)
	geo := "geom"
	if it.opt {
		geo = it.what
	}
	paint := strings.TrimSuffix(e.Paint, "*")
	if it.round != nil {
		if s := m.roundDiff(it, e.Path, tol+0.01, H); s != "" {
			m.find("geom", "rounded", "%s %v: the outline %s", where, *it.round, s)
		}
	} else {
		got := e.Path
		dd, s := pathDist(it.path, got, it.paint == "f", tol)
		if it.ext > 0 && (s != "" || dd > tol) {
			dd, s = extDist(it.path, got, it.ext)
		}
		if s != "" {
			m.find(geo, "shape-"+it.what, "%s: %s", where, s)
		} else if dd > tol {
			m.find(geo, "position-"+it.what, "%s is drawn %.3f points away from where it belongs: %s instead of %s", where, dd, pathText(e.Path), pathText(it.path))
		}
	}
	if paint != it.paint {
		f := "paint"
		if it.opt {
			f = it.what
		}
		m.find(f, "paint-"+it.what, "%s is painted with %q, expected %q", where, paint, it.paint)
		return
	}
	if it.paint != "f" {
		if s := m.colorDiff(d, it.gs.stroke, e.GS.Stroke); s != "" {
			m.find("color", "stroke-"+it.what, "%s: stroke colour %s", where, s)
		}
		if !pdfr.Near(e.GS.LW, it.gs.lw, 0.0051) {
			m.find("line", "width-"+it.what, "%s: line width %v, expected %v", where, e.GS.LW, it.gs.lw)
		}
		a, b := normDash(it.gs.dash), normDash(e.GS.Dash)
		ok := len(a) == len(b)
		for i := range a {
			ok = ok && pdfr.Near(a[i], b[i], 0.0051)
		}
		if !ok || len(a) > 0 && !pdfr.Near(e.GS.DashPh, it.gs.phase, 0.0051) {
			m.find("line", "dash-"+it.what, "%s: dash pattern %v phase %v, expected %v phase %v", where, e.GS.Dash, e.GS.DashPh, it.gs.dash, it.gs.phase)
		}
	}
	if it.paint != "S" {
		if s := m.colorDiff(d, it.gs.fill, e.GS.Fill); s != "" {
			m.find("color", "fill-"+it.what, "%s: fill colour %s", where, s)
		}
	}
}

// lineDist is the distance of the ends of two lines.
func lineDist(a, b pdfr.Path) float64 {
	if len(a) < 2 || len(b) < 2 || a[1].K != 'L' || b[1].K != 'L' {
		return 1e6
	}
	p, q, r, s := a[0].P[0], a[1].P[0], b[0].P[0], b[1].P[0]
	return math.Min(math.Max(dist(p, r), dist(q, s)), math.Max(dist(p, s), dist(q, r)))
}

// extDist compares two straight lines, of which the second may be longer at both ends.
func extDist(a, b pdfr.Path, ext float64) (float64, string) {
	sa, sb := subPaths(a), subPaths(b)
	if len(sa) != 1 || len(sb) != 1 {
		return math.Inf(1), "not one line"
	}
	pa, pb := vertices(sa[0]), vertices(sb[0])
	if len(pa) == 1 { // a cell without width
		d := 0.0
		for _, p := range pb {
			d = math.Max(d, dist(p, pa[0])-ext)
		}
		return d, ""
	}
	if len(pa) != 2 || len(pb) != 2 {
		return math.Inf(1), "not a line"
	}
	l := dist(pa[0], pa[1])
	if l < 1e-9 {
		return math.Inf(1), "empty line"
	}
	ux, uy := (pa[1].X-pa[0].X)/l, (pa[1].Y-pa[0].Y)/l
	pr := func(p pdfr.Pt) (float64, float64) {
		x, y := p.X-pa[0].X, p.Y-pa[0].Y
		return x*ux + y*uy, math.Abs(-x*uy + y*ux)
	}
	t0, o0 := pr(pb[0])
	t1, o1 := pr(pb[1])
	if t0 > t1 {
		t0, t1 = t1, t0
	}
	d := math.Max(o0, o1)
	out := func(v float64) float64 { // distance of the overhang from [0, ext]
		return math.Max(0, math.Max(-v, v-ext))
	}
	d = math.Max(d, math.Max(out(-t0), out(t1-l)))
	return d, ""
}

func pathText(p pdfr.Path) string {
	var o []string
	for i, s := range p {
		if i > 8 {
			o = append(o, "...")
			break
		}
		if s.K == 'Z' {
			o = append(o, "Z")
		} else {
			o = append(o, fmt.Sprintf("%c(%.2f, %.2f)", s.K, segEnd(s).X, segEnd(s).Y))
		}
	}
	return strings.Join(o, " ")
}

func (m *model) compareText(d *pdfr.Doc, no int, g *mGroup, it *mItem, e *pdfr.Event, gi *int, cont bool, shift *float64, cum *int) bool {
	where := fmt.Sprintf("page %d, text %q of %s", no, cut(glyphText(it), 40), g.op)
	m.common(d, no, g, it, e)
	left := e.Glyphs[*gi:]
	if len(left) < len(it.gl) {
		m.find("content", "text-lost", "%s: only %d of %d glyphs are shown", where, len(left), len(it.gl))
		return false
	}
	if !m.fontAsset(d, e.GS.FontObj, it.font.idx) {
		m.find("textfont", "font", "%s is drawn with another font", where)
	}
	if math.Abs(e.GS.FontSize-it.env.Size) > 0.0011 {
		m.find("textfont", "size", "%s is drawn at size %v, expected %v", where, e.GS.FontSize, it.env.Size)
	}
	if math.Abs(e.GS.Tc-it.env.Sp) > 0.0011 {
		m.find("textfont", "spacing", "%s is drawn with spacing %v, expected %v", where, e.GS.Tc, it.env.Sp)
	}
	if s := m.colorDiff(d, it.color, e.GS.Fill); s != "" {
		m.find("color", "text", "%s: colour %s", where, s)
	}
	for i := range it.gl {
		w, q := it.gl[i], left[i]
		if w.gid != q.GID {
			m.find("text", "glyph", "%s: glyph %d is %d, expected %d (%q)", where, i, q.GID, w.gid, w.r)
			return false
		}
		if i > 0 && math.Abs(q.AdjPre-w.adj) > w.tol+1e-6 {
			m.find("textpos", "adjust", "%s: before glyph %d (%q) the text is moved by %v thousandths, expected %.2f", where, i, w.r, q.AdjPre, w.adj)
			return false
		}
	}
	// where the first glyph starts
	tm := e.TextMat
	gx, gy := tm.Apply(left[0].X, 0)
	p := m.pageOf(no)
	wx, wy := it.gs.ctm.Apply(it.x, p.h-it.y)
	tol := it.gs.tol() + it.ext + it.gs.farTol(math.Hypot(wx, wy))
	if cont {
		m.c.Count("continued texts", 1)
		tol += float64(*cum+1) * it.env.Size * 0.0021
	}
	ok := dist(pdfr.Pt{X: gx, Y: gy}, pdfr.Pt{X: wx, Y: wy}) <= tol
	if !ok && cont {
		// kerning with the text before
		k := -left[0].AdjPre * it.env.Size / 1000
		for _, s := range []float64{k, *shift, *shift + k} {
			sx, sy := it.gs.ctm.Apply(it.x+s, p.h-it.y)
			if dist(pdfr.Pt{X: gx, Y: gy}, pdfr.Pt{X: sx, Y: sy}) <= tol {
				ok = true
				*shift = s
				break
			}
		}
	}
	if !ok {
		m.find("textpos", "start", "%s starts at (%.3f, %.3f), expected (%.3f, %.3f), tolerance %.3f", where, gx, gy, wx, wy, tol)
		return false
	}
	// direction
	ux, uy := tm[0], tm[1]
	cx, cy := it.gs.ctm[0], it.gs.ctm[1]
	if l := math.Hypot(ux, uy) * math.Hypot(cx, cy); l > 0 && (ux*cx+uy*cy)/l < 1-1e-4 {
		m.find("textpos", "direction", "%s runs in the direction (%.3f, %.3f), expected (%.3f, %.3f)", where, ux, uy, cx, cy)
		return false
	}
	*gi += len(it.gl)
	*cum += len(it.gl)
	return true
}

func (m *model) pageOf(no int) *mPage { return m.pages[no-1] }

func (m *model) picture(d *pdfr.Doc, n int) (*imgx.Pic, *pdfr.Stream, string) {
	st, ok := d.R(pdfr.Ref{Num: n}).(*pdfr.Stream)
	if !ok || d.Name(st.D["Subtype"]) != "Image" {
		return nil, nil, "is not an image"
	}
	if p, ok := m.images[n]; ok {
		return p, st, ""
	}
	p, err := imgx.FromPDF(d, st)
	if err != nil {
		return nil, st, "cannot be decoded: " + err.Error()
	}
	m.images[n] = p
	return p, st, ""
}

// opaque is a picture without its transparency.
func opaque(p *imgx.Pic) *imgx.Pic {
	q := *p
	q.P = append([]imgx.Px{}, p.P...)
	for i := range q.P {
		q.P[i].A = 1
	}
	return &q
}

func (m *model) compareImage(d *pdfr.Doc, no int, g *mGroup, it *mItem, e *pdfr.Event) {
	where := fmt.Sprintf("page %d, image of %s", no, g.op)
	if e.Kind != "image" {
		m.find("image", "kind", "%s: a %s is drawn instead", where, e.Kind)
		return
	}
	m.common(d, no, g, it, e)
	tol := it.gs.tol() + 0.01
	for _, q := range [][2]float64{{0, 0}, {1, 0}, {0, 1}} {
		ax, ay := it.mat.Apply(q[0], q[1])
		bx, by := e.GS.CTM.Apply(q[0], q[1])
		if dd := math.Hypot(ax-bx, ay-by); dd > tol {
			m.find("image", "placement", "%s: its corner %v is at (%.3f, %.3f), expected (%.3f, %.3f)", where, q, bx, by, ax, ay)
			break
		}
	}
	pic, _, s := m.picture(d, e.XObj)
	if s != "" {
		m.find("image", "decode", "%s: object %d %s", where, e.XObj, s)
		return
	}
	want := it.img.Pic
	if it.jpeg {
		want = jpegPic(it.img.Img)
	}
	if it.noA {
		want = opaque(want)
	}
	if it.viaPNG {
		// a picture in memory is stored as PNG, which has no CMYK
		want = it.img.asPNG()
	}
	tolP := float32(0.012)
	if s := imgx.Diff(want, pic, tolP); s != "" {
		m.find("image", "identity", "%s shows another picture: %s", where, s)
	}
	m.once(where, fmt.Sprintf("%s masked %v", it.key, it.noA), e.XObj)
	m.compareMask(d, m.pageOf(no), where, it, e)
}

func (m *model) compareMask(d *pdfr.Doc, p *mPage, where string, it *mItem, e *pdfr.Event) {
	if it.mask == nil {
		if e.GS.SMask != 0 {
			m.find("mask", "mask-leak", "%s: a mask is in force though none was asked for", where)
		}
		return
	}
	if e.GS.SMask <= 0 {
		m.find("mask", "mask-lost", "%s: no mask is in force", where)
		return
	}
	sm := d.Dict(pdfr.Ref{Num: e.GS.SMask})
	if d.Name(sm["S"]) != "Luminosity" {
		m.find("mask", "mask-kind", "%s: mask of kind %v", where, sm["S"])
		return
	}
	fm, ok := d.R(sm["G"]).(*pdfr.Stream)
	if !ok || d.Name(fm.D["Subtype"]) != "Form" {
		m.find("mask", "mask-kind", "%s: the mask has no form", where)
		return
	}
	b, err := d.Decode(fm)
	if err != nil {
		m.find("mask", "mask-kind", "%s: the mask cannot be read: %v", where, err)
		return
	}
	run := d.Run(b, d.Dict(fm.D["Resources"]), pdfr.InitialGS(), nil, false)
	var im []pdfr.Event
	for _, e := range run.Events {
		im = append(im, e)
	}
	if len(im) != 1 || im[0].Kind != "image" {
		m.find("mask", "mask-content", "%s: the mask shows %d items", where, len(im))
		return
	}
	// form space is the one in force where the mask is set: the page's, before the image's own turn
	mat := im[0].GS.CTM.Mul(it.gs.ctm)
	tol := 0.08
	for _, q := range [][2]float64{{0, 0}, {1, 0}, {0, 1}} {
		ax, ay := it.mask.mat.Apply(q[0], q[1])
		bx, by := mat.Apply(q[0], q[1])
		if dd := math.Hypot(ax-bx, ay-by); dd > tol {
			m.find("mask", "mask-placement", "%s: corner %v of its mask is at (%.3f, %.3f), expected (%.3f, %.3f)", where, q, bx, by, ax, ay)
			break
		}
	}
	switch cl := im[0].GS.Clips; {
	case it.mask.clip == nil && len(cl) != 0:
		m.find("mask", "mask-clip", "%s: the mask is clipped", where)
	case it.mask.clip != nil && len(cl) != 1:
		m.find("mask", "mask-clip", "%s: the mask is cropped, but %d clip regions are in force", where, len(cl))
	case it.mask.clip != nil:
		if dd, s := pathDist(it.mask.clip, applyPath(cl[0], it.gs.ctm), true, tol); s != "" || dd > tol {
			m.find("mask", "mask-clip", "%s: the mask is cropped to another place: %s %.3f", where, s, dd)
		}
	}
	wa := 1.0
	wb := "Normal"
	if it.mask.t != nil {
		wa = it.mask.t.A
		if wb = strings.TrimPrefix(it.mask.t.BM, "/"); wb == "" {
			wb = "Normal"
		}
	}
	if math.Abs(im[0].GS.FA-wa) > 0.0006 || im[0].GS.BM != wb {
		m.find("mask", "mask-opacity", "%s: the mask is drawn with opacity %v mode %s, expected %v %s", where, im[0].GS.FA, im[0].GS.BM, wa, wb)
	}
	bb := d.Floats(fm.D["BBox"])
	if it.mask.has {
		if len(bb) != 4 || !near4([4]float64{bb[0], bb[1], bb[2], bb[3]}, it.mask.bbox, 0.011) {
			m.find("mask", "mask-bbox", "%s: the mask is limited to %v, expected %v", where, bb, it.mask.bbox)
		}
	} else if len(bb) != 4 || !m.covers(bb, it, im[0].GS.CTM, p.w, p.h) {
		m.find("mask", "mask-bbox", "%s: the mask is cut off at %v", where, bb)
	}
	st, ok := d.R(pdfr.Ref{Num: im[0].XObj}).(*pdfr.Stream)
	if !ok {
		m.find("mask", "mask-picture", "%s: the mask's picture is missing", where)
		return
	}
	m.once(where+", mask", it.mask.key+" as a mask", im[0].XObj)
	pic, err := imgx.FromPDF(d, st)
	if err != nil {
		m.find("mask", "mask-picture", "%s: the mask's picture cannot be decoded: %v", where, err)
		return
	}
	want := alphaPlane(it.mask.img.Pic)
	if s := imgx.Diff(want, pic, 0.012); s != "" {
		m.find("mask", "mask-picture", "%s: the mask shows something else: %s", where, s)
	}
}

// covers: every part of the picture that lies on the page is inside the box.
func (m *model) covers(bb []float64, it *mItem, mat pdfr.Mat, w, h float64) bool {
	for i := 0; i <= 20; i++ {
		for j := 0; j <= 20; j++ {
			x, y := mat.Apply(float64(i)/20, float64(j)/20)
			if px, py := it.gs.ctm.Apply(x, y); px < 0 || py < 0 || px > w || py > h {
				continue
			}
			if x < bb[0]-0.01 || y < bb[1]-0.01 || x > bb[2]+0.01 || y > bb[3]+0.01 {
				return false
			}
		}
	}
	return true
}

func alphaPlane(p *imgx.Pic) *imgx.Pic {
	q := *p
	q.Model = "rgb"
	q.P = append([]imgx.Px{}, p.P...)
	for i := range q.P {
		a := p.P[i].A
		q.P[i] = imgx.Px{C: [4]float32{a, a, a}, A: 1}
	}
	return &q
}

// once: the same picture used the same way is stored once.
func (m *model) once(where, key string, obj int) {
	if o, ok := m.stored[key]; !ok {
		m.stored[key] = obj
	} else if o != obj {
		m.find("image", "stored-twice", "%s: %s is stored as object %d and again as object %d", where, key, o, obj)
	} else {
		m.c.Count("shared pictures", 1)
	}
}

// asPNG is the picture after going through a PNG file.
func (a *ImgAsset) asPNG() *imgx.Pic {
	if cm, ok := a.Img.(*image.CMYK); ok {
		return imgx.FromImage(rgbOnly{cm})
	}
	return a.Pic
}

// rgbOnly hides what kind of picture it is.
type rgbOnly struct{ image.Image }

func (m *model) judge(facets string) {
	set := map[string]bool{}
	for _, f := range strings.Fields(facets) {
		set[f] = true
	}
	sort.SliceStable(m.finds, func(i, j int) bool { return false })
	for _, f := range m.finds {
		if set[f.facet] {
			m.c.Fail(f.sig, "%s", f.msg)
			return
		}
	}
}
