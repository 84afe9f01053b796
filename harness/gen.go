package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/signintech/gopdf"
)

// Profile steers the script generator.
type Profile struct {
	Big      int            // one document in so many has an image file of megabytes
	W        map[string]int // weight of each kind of step
	Steps    int
	Fonts    int
	Images   int
	PDFs     int
	Protect  bool
	Units    bool
	Header   bool // header and footer callbacks may be set
	Missing  bool // texts may contain characters the font lacks
	Model    bool // stay inside what the reference model predicts exactly
	RealFont bool
	Sizes    bool // several page sizes
	NoUnder  bool // no underlined text
	Joint    bool // underlined texts may follow each other directly
	Loose    bool // leave links without an anchor as they are
	Bulk     int  // one script in Bulk repeats one kind of step hundreds of times
}

// genFont is a registered font.
type genFont struct {
	idx, style int
	fam        string
	kern       bool
	subst      rune
	kernOv     int // override function plus one
}

// Gen draws scripts.
type Gen struct {
	R                 *rand.Rand
	P                 Profile
	lastRGB, lastCMYK []int
	colours           [][]int
	Sc                *Script
	fonts             []genFont
	ownFam            bool // the next font gets a family of its own
	pages             [][2]float64
	q                 []([]string) // open save/rotate per page
	cur               int
	font              int
	size              float64
	style             int
	cs                []string
	phs               []string
	phFont            map[string][]int // the fonts a name is reserved in
	anch              []string
	nAnch             int
	nOutl             int
	nImp              int
	inCB              bool
	under             bool
	out               []Op
	// fonts to register instead of drawn ones
	fixed      []Op
	fixedFonts []genFont
}

func mergeW(ms ...map[string]int) map[string]int {
	o := map[string]int{}
	for _, m := range ms {
		for k, v := range m {
			o[k] = v
		}
	}
	return o
}

var (
	wText  = map[string]int{"text": 10, "cell": 8, "cellopt": 14, "setfont": 6, "fontsize": 2, "spacing": 3}
	wMulti = map[string]int{"multicell": 4, "multicellopt": 5}
	wMove  = map[string]int{"nudge": 2, "setx": 3, "sety": 3, "setxy": 6, "br": 3}
	wShape = map[string]int{"line": 8, "rectll": 3, "rectul": 3, "rectlls": 3, "rectuls": 3, "rectllo": 4, "rectulo": 4, "oval": 3, "curve": 4, "polygon": 4, "rectangle": 4}
	wState = map[string]int{"lw": 4, "lt": 3, "clt": 3, "gfill": 3, "gstroke": 3, "stroke": 3, "fill": 3, "txt": 4, "strokek": 2, "fillk": 2, "txtk": 2}
	wCS    = map[string]int{"addcs": 2, "cs": 3}
	wScope = map[string]int{"save": 3, "restore": 4, "rotate": 3, "rotreset": 3, "clip": 3}
	wTr    = map[string]int{"tr": 4, "trclear": 3}
	wImg   = map[string]int{"image": 4, "imageopt": 6}
	wPage  = map[string]int{"addpage": 3, "setpage": 2}
	wMarg  = map[string]int{"margins": 1, "mleft": 1, "mtop": 1, "mright": 1, "mbottom": 1, "setnewy": 2, "setnewyn": 2, "setnewxy": 2}
	wLink  = map[string]int{"extlink": 3, "intlink": 3, "anchor": 3}
	wOutl  = map[string]int{"outline": 2, "outlinepos": 2}
	wPH    = map[string]int{"ph": 2, "fillph": 2}
	wMisc  = map[string]int{"measure": 1, "measureh": 1, "split": 1, "isfit": 1, "compress": 1, "hasglyph": 1, "info": 1}
	wTab   = map[string]int{"table": 1}
	wImp   = map[string]int{"imp": 2, "use": 4, "impall": 1}
	wOut   = map[string]int{"out": 2}
	wAll   = mergeW(wText, wMulti, wMove, wShape, wState, wCS, wScope, wTr, wImg, wPage, wMarg, wLink, wOutl, wPH, wMisc, wTab, wImp)
)

func (g *Gen) n(k int) int            { return g.R.Intn(k) }
func (g *Gen) p(k int) bool           { return g.R.Intn(k) == 0 }
func (g *Gen) f(a, b float64) float64 { return round3(a + (b-a)*g.R.Float64()) }
func round3(v float64) float64        { return math.Round(v*1000) / 1000 }

// newGen prepares assets and the opening of a script.
func newGen(r *rand.Rand, p Profile) *Gen {
	g := &Gen{R: r, P: p, Sc: &Script{}, phFont: map[string][]int{}}
	sc := g.Sc
	sizes := [][2]float64{{595.28, 841.89}, {612, 792}, {300, 400}, {841.89, 595.28}, {500.5, 333.33}}
	s := sizes[r.Intn(len(sizes))]
	if p.Sizes && g.p(8) { // labels and posters
		s = [][2]float64{{105, 148}, {74, 105}, {2384, 3370}, {1200, 90}}[g.n(4)]
	}
	sc.Cfg.W, sc.Cfg.H = s[0], s[1]
	if g.p(4) {
		sc.Cfg.Trim = [4]float64{g.f(1, 20), g.f(1, 20), g.f(200, 290), g.f(200, 390)}
	}
	if p.Protect {
		sc.Cfg.Protect = true
		sc.Cfg.Perm = []int{0, gopdf.PermissionsPrint, gopdf.PermissionsCopy | gopdf.PermissionsModify, 60, gopdf.PermissionsAnnotForms}[r.Intn(5)]
		sc.Cfg.User = []string{"", "user", "påss", "a long user password that is longer than thirty-two bytes"}[r.Intn(4)]
		sc.Cfg.Owner = []string{"own", "owner password", "0123456789012345678901234567890123456789"}[r.Intn(3)]
	}
	nf := p.Fonts
	if nf == 0 {
		nf = 1 + r.Intn(3)
		switch k := r.Intn(60); {
		case k == 0:
			nf = 10 + r.Intn(8)
		case k < 7:
			nf = 4 + r.Intn(2)
		}
	}
	for i := 0; i < nf; i++ {
		var a *FontAsset
		if p.RealFont && r.Intn(2) == 0 {
			a = realFont(r.Intn(3))
		} else {
			a = randFont(r)
		}
		sc.Fonts = append(sc.Fonts, a)
		sc.Desc = append(sc.Desc, fmt.Sprintf("font %d: %s upem %d glyphs %d", i, a.Desc, a.F.UPEM, a.F.NumGlyphs))
	}
	for i := 0; i < p.Images; i++ {
		var a *ImgAsset
		switch r.Intn(5) {
		case 0:
			a = memImage(r)
		case 1:
			a = alphaImage(r)
		default:
			a = randImage(r)
		}
		if i+1 == p.Images && i > 0 && r.Intn(10) == 0 { // the last two differ in their last row only
			sc.Images[i-1], a = siblings(r)
		}
		if i == 0 && p.Big > 0 && r.Intn(p.Big) == 0 {
			a = bigJPEG(r)
		}
		sc.Images = append(sc.Images, a)
		sc.Desc = append(sc.Desc, fmt.Sprintf("image %d: %s %dx%d", i, a.Kind, a.Pic.W, a.Pic.H))
	}
	for i := 0; i < p.PDFs; i++ {
		a := randPDF(r)
		sc.PDFs = append(sc.PDFs, a)
		sc.Desc = append(sc.Desc, fmt.Sprintf("pdf %d: %s", i, a.Desc))
	}
	return g
}

// the last two differ from another name in little
var anchorNames = []string{"a0", "a1", "a2", "a3", "a4", "A2", "a1 "}

func (g *Gen) emit(o Op) { g.out = append(g.out, o) }

func (g *Gen) pageSize() (float64, float64) {
	if len(g.pages) == 0 {
		return g.Sc.Cfg.W, g.Sc.Cfg.H
	}
	return g.pages[g.cur][0], g.pages[g.cur][1]
}

// pt draws a point on (or a little outside) the page.
func (g *Gen) pt() (float64, float64) {
	w, h := g.pageSize()
	if g.p(25) {
		return g.f(-30, w+50), g.f(-30, h+50)
	}
	return g.f(0, w), g.f(0, h)
}

// famName names the next font; in some documents the names differ in little.
func (g *Gen) famName() string {
	n := len(g.fonts)
	switch {
	case g.Sc.Cfg.W == 612 && n < 3:
		return []string{"fa", "f", "Fa"}[n]
	case g.Sc.Cfg.W == 300:
		return strings.Repeat("F", 1+n)
	}
	return fmt.Sprintf("F%d", n)
}

func (g *Gen) addFont(i int) {
	st := []int{gopdf.Regular, gopdf.Regular, gopdf.Bold, gopdf.Italic, gopdf.Bold | gopdf.Italic}[g.n(5)]
	fam := g.famName()
	if len(g.fonts) > 0 && !g.ownFam && g.p(3) { // another style of a known family
		fam = g.fonts[g.n(len(g.fonts))].fam
	}
	for _, f := range g.fonts {
		if f.fam == fam && f.style == st {
			fam = g.famName()
		}
	}
	gf := genFont{idx: i, style: st, fam: fam, kern: g.p(2)}
	a := g.Sc.Fonts[i]
	sub := 0
	if g.p(3) {
		gf.subst = a.Runes[g.n(len(a.Runes))]
		if g.P.Missing && g.p(6) {
			gf.subst = 0xE123 // perhaps missing itself
		}
		sub = int(gf.subst)
	}
	nf := g.n(2)
	k := 0
	if gf.kern {
		k = 1
	}
	g.fonts = append(g.fonts, gf)
	g.emit(Op{K: "addfont", S: []string{fam}, I: []int{i, g.n(4), st, k, nf, sub}})
}

func (g *Gen) curFont() *FontAsset { return g.Sc.Fonts[g.fonts[g.font].idx] }

func (g *Gen) setFont() {
	i := g.n(len(g.fonts))
	f := g.fonts[i]
	st := f.style
	g.under = g.p(5) && !g.P.NoUnder
	if g.under {
		st |= gopdf.Underline
	}
	size := []float64{6, 8, 9.5, 10, 12, 14, 18.25, 24, 7.123, 36}[g.n(10)]
	if g.p(8) {
		size = g.f(3, 60)
	} else if g.p(40) { // of headlines
		size = []float64{127, 130, 160, 255, 256, 300, 420.5}[g.n(7)]
	}
	g.font, g.size, g.style = i, size, st
	g.emit(Op{K: "setfont", S: []string{f.fam}, I: []int{st, g.n(3), g.sizeType(size)}, N: []float64{size}})
}

// text draws a string for the current font.
func (g *Gen) text(max int) string {
	a := g.curFont()
	n := 1 + g.n(max)
	var o []rune
	mode := g.n(5)
	for i := 0; i < n; i++ {
		var c rune
		switch mode {
		case 0, 1:
			c = rune('a' + g.n(26))
			if g.p(6) {
				c = ' '
			}
		case 2:
			c = a.Runes[g.n(len(a.Runes))]
		case 3:
			c = rune(33 + g.n(94))
			if len(a.Kerny) > 0 && g.p(2) {
				c = a.Kerny[g.n(len(a.Kerny))]
			}
		default:
			c = rune("The quick (brown) fox\\jumps <over> [a] lazy/dog 0123% AVAToWaY"[g.n(62)])
		}
		if c == '\n' || a.Gid(c) == 0 {
			c = 'x'
		}
		if g.P.Missing && g.p(12) {
			c = g.missing()
		}
		o = append(o, c)
	}
	if t := string(o); !g.P.Missing || !g.p(25) {
		return t
	} else if g.p(2) { // not valid UTF-8
		at := g.n(n)
		return string(o[:at]) + []string{"\xff", "\xc3", "\xed\xa0\x80", "\xf4\x90\x80\x80"}[g.n(4)] + string(o[at:])
	} else {
		return t + "\n"
	}
}

// missing draws a character the current font lacks.
func (g *Gen) missing() rune {
	a := g.curFont()
	for {
		c := rune(0x80 + g.n(0xF000))
		if g.p(3) {
			c = rune(0x10000 + g.n(0x50000))
		}
		if g.p(8) { // of odd kinds
			c = []rune{0, '\t', '\r', 0x1b, 0x7f, 0xad, 0x200b, 0x200d, 0xfeff, 0xfffd}[g.n(10)]
		}
		if c >= 0xD800 && c <= 0xDFFF || c == 0xFFFF || c == 0xFFFE {
			continue
		}
		if a.Gid(c) == 0 {
			return c
		}
	}
}

func (g *Gen) para(words int) string {
	s := ""
	for i := 0; i < words; i++ {
		if i > 0 {
			s += " "
		}
		s += g.text(9)
	}
	return s
}

func (g *Gen) tspec() *TrSpec {
	bms := []string{"", "/Normal", "/Multiply", "/Screen", "/Overlay", "/Darken", "/Lighten", "/ColorDodge", "/ColorBurn", "/HardLight", "/SoftLight", "/Difference", "/Exclusion", "/Hue", "/Saturation", "/Color", "/Luminosity"}
	t := &TrSpec{BM: bms[g.n(17)], C: g.p(3)}
	switch g.n(6) {
	case 0:
		t.A = 1
	case 1:
		t.A = 0
	case 2:
		t.A = float64(g.n(11)) / 10
	default:
		t.A = float64(g.n(1001)) / 1000
	}
	return t
}
func (g *Gen) maybeTr() *TrSpec {
	if g.p(3) {
		return g.tspec()
	}
	return nil
}

// rgb draws a colour, often one that differs from the last in one component only.
func (g *Gen) rgb() []int { return g.near(&g.lastRGB, []int{g.n(256), g.n(256), g.n(256)}) }

func (g *Gen) cmyk() []int {
	return g.near(&g.lastCMYK, []int{g.n(101), g.n(101), g.n(101), g.n(101)})
}

func (g *Gen) near(last *[]int, v []int) []int {
	if n := len(g.colours); n > 0 && g.p(5) { // one of before
		if o := g.colours[n-1-g.n(min(n, 4))]; len(o) == len(v) {
			copy(v, o)
		}
	}
	defer func() { g.colours = append(g.colours, append([]int{}, v...)) }()
	if *last != nil && g.p(3) {
		k := g.n(len(v))
		x := v[k]
		copy(v, *last)
		v[k] = x
	}
	*last = append([]int{}, v...)
	return v
}

// unmerge moves the cursor so that underlined runs stay separate.
func (g *Gen) unmerge() {
	if g.under && !(g.P.Joint && g.p(2)) {
		x, y := g.pt()
		g.emit(Op{K: "setxy", F: []float64{x, y}})
	}
}

func (g *Gen) closeScopes(page int) {
	for len(g.q[page]) > 0 {
		g.popScope(page)
	}
}
func (g *Gen) popScope(page int) {
	st := g.q[page]
	k := st[len(st)-1]
	g.q[page] = st[:len(st)-1]
	if k == "save" {
		g.emit(Op{K: "restore"})
	} else {
		g.emit(Op{K: "rotreset"})
	}
}

func (g *Gen) addPage() {
	w, h := g.Sc.Cfg.W, g.Sc.Cfg.H
	o := Op{K: "addpage"}
	if g.P.Sizes && g.p(2) {
		w, h = g.f(150, 900), g.f(150, 900)
		if g.p(8) { // the size of a label
			h = g.f(40, 150)
		} else if g.p(12) { // of a poster
			w, h = g.f(900, 4000), g.f(900, 4000)
		}
		switch lw, lh := g.pageSize(); g.n(16) { // like another in one dimension, or turned
		case 0:
			w = g.Sc.Cfg.W
		case 1:
			h = g.Sc.Cfg.H
		case 2:
			w, h = lh, lw
		case 3:
			w = lw
		case 4:
			h = lh
		case 5:
			w, h = lw, lh
		case 6:
			w, h = g.Sc.Cfg.W, g.Sc.Cfg.H
		}
		o.F = []float64{w, h}
		if g.p(2) {
			o.F = append(o.F, g.f(1, 20), g.f(1, 20), g.f(60, 140), g.f(60, 140))
		}
		if g.p(6) {
			w, h = g.Sc.Cfg.W, g.Sc.Cfg.H
			o.F = []float64{0, 0, g.f(1, 20), g.f(1, 20), g.f(60, 140), g.f(60, 140)}
		}
	}
	g.emit(o)
	g.pages = append(g.pages, [2]float64{w, h})
	g.q = append(g.q, nil)
	g.cur = len(g.pages) - 1
}

func (g *Gen) step(k string) {
	R := g.R
	w, h := g.pageSize()
	_ = R
	switch k { // the same setting once more, or an earlier one
	case "lw", "lt", "clt", "gfill", "gstroke", "stroke", "fill", "strokek", "fillk", "txt", "txtk", "spacing", "cs", "tr":
		if g.p(4) {
			for i, n := len(g.out)-1, 1+g.n(3); i >= 0; i-- {
				if g.out[i].K == k {
					if n--; n == 0 {
						g.emit(g.out[i])
						return
					}
				}
			}
		}
	}
	switch k {
	case "addpage":
		if len(g.pages) < 9 {
			g.closeScopes(g.cur)
			g.addPage()
		}
	case "setpage":
		g.closeScopes(g.cur)
		n := g.n(len(g.pages))
		g.emit(Op{K: "setpage", I: []int{n + 1}})
		g.cur = n
	case "setx":
		x, _ := g.pt()
		g.emit(Op{K: k, F: []float64{x}})
	case "sety":
		_, y := g.pt()
		g.emit(Op{K: k, F: []float64{y}})
	case "setxy":
		x, y := g.pt()
		g.emit(Op{K: k, F: []float64{x, y}})
	case "br":
		g.emit(Op{K: k, F: []float64{g.f(-5, 40)}})
	case "nudge": // a little to the side of where the last text ended
		g.emit(Op{K: k, F: []float64{[]float64{0.1, 0.3, 0.45, 0.9, -0.3, 5}[g.n(6)]}})
	case "setnewy", "setnewyn":
		if len(g.pages) > 12 || len(g.q[g.cur]) > 0 {
			return
		}
		g.emit(Op{K: k, F: []float64{g.f(0, h), g.f(0, h/2)}})
		g.maybeNewPage()
	case "setnewxy":
		if len(g.pages) > 12 || len(g.q[g.cur]) > 0 {
			return
		}
		g.emit(Op{K: k, F: []float64{g.f(0, h), g.f(0, w), g.f(0, h/2)}})
		g.maybeNewPage()
	case "margins":
		g.emit(Op{K: k, F: []float64{g.f(0, 60), g.f(0, 60), g.f(0, 60), g.f(0, 60)}})
	case "mleft", "mtop":
		o := Op{K: k, F: []float64{g.f(0, 60)}}
		if g.p(2) {
			o.I = []int{1}
		}
		g.emit(o)
	case "mright", "mbottom":
		g.emit(Op{K: k, F: []float64{g.f(0, 60)}})
	case "getmargins", "pages":
		g.emit(Op{K: k})
	case "lw":
		g.emit(Op{K: k, F: []float64{[]float64{0, 0.1, 0.5, 1, 2.25, 7, 15, 40}[g.n(8)] + g.f(0, 1)}})
	case "lt":
		g.emit(Op{K: k, S: []string{[]string{"dashed", "dotted", "solid", ""}[g.n(4)]}})
	case "clt":
		n := g.n(5)
		var F []float64
		for i := 0; i < n; i++ {
			F = append(F, g.f(0.5, 12))
		}
		ph := g.f(0, 5)
		if g.p(4) {
			ph = g.f(0, 60)
		}
		g.emit(Op{K: k, F: append(F, ph)})
	case "gfill", "gstroke":
		g.emit(Op{K: k, N: []float64{[]float64{0, 1, 0.5, float64(g.n(101)) / 100, g.f(-0.5, 1.5)}[g.n(5)]}})
	case "stroke", "fill", "txt":
		g.emit(Op{K: k, I: g.rgb()})
	case "strokek", "fillk", "txtk":
		g.emit(Op{K: k, I: g.cmyk()})
	case "addcs":
		n := fmt.Sprintf("Spot%d", len(g.cs))
		if g.p(4) {
			n = fmt.Sprintf("Spot Colour %d", len(g.cs))
		}
		if like := []string{"Spot", "Spo", "spot", "Spo t", "Spot#", "SpotSpot"}; g.p(2) && len(g.cs) < len(like) {
			n = like[len(g.cs)]
		}
		o := Op{K: k, S: []string{n}, I: g.rgb()}
		if g.p(2) {
			o.I = []int{g.n(101), g.n(101), g.n(101), g.n(101)}
		}
		g.cs = append(g.cs, n)
		g.emit(o)
	case "cs":
		if len(g.cs) > 0 {
			g.emit(Op{K: k, S: []string{g.cs[g.n(len(g.cs))]}})
		}
	case "tr":
		g.emit(Op{K: k, T: g.tspec()})
	case "trclear":
		g.emit(Op{K: k})
	case "setfont":
		i := len(g.out)
		g.setFont()
		_ = i
	case "fontsize":
		g.size = []float64{7, 11, 13.5, 20}[g.n(4)]
		g.emit(Op{K: k, N: []float64{g.size}})
	case "spacing":
		g.emit(Op{K: k, F: []float64{[]float64{0, 0, 0, 0.5, 1.25, 3, 11.5, -0.3, -1.5, -9}[g.n(10)]}})
	case "line":
		x, y := g.pt()
		x2, y2 := g.pt()
		g.emit(Op{K: k, F: []float64{x, y, x2, y2}})
	case "rectll", "rectul":
		x, y := g.pt()
		g.emit(Op{K: k, F: []float64{x, y, g.f(1, w/2), g.f(1, h/2)}})
	case "rectlls", "rectuls":
		x, y := g.pt()
		g.emit(Op{K: k, F: []float64{x, y, g.f(1, w/2), g.f(1, h/2)}, S: []string{[]string{"D", "F", "DF", "FD", ""}[g.n(5)]}})
	case "rectllo", "rectulo":
		x, y := g.pt()
		g.emit(Op{K: k, F: []float64{x, y, g.f(1, w/2), g.f(1, h/2)}, S: []string{[]string{"S", "f", "B", ""}[g.n(4)]}, T: g.maybeTr()})
	case "oval":
		x, y := g.pt()
		g.emit(Op{K: k, F: []float64{x, y, x + g.f(2, w/2), y + g.f(2, h/2)}})
	case "curve":
		var F []float64
		for i := 0; i < 4; i++ {
			x, y := g.pt()
			F = append(F, x, y)
		}
		g.emit(Op{K: k, F: F, S: []string{[]string{"D", "F", "DF", "FD", "", "f", " df ", "fd"}[g.n(8)]}})
	case "polygon", "clip":
		if k == "clip" && len(g.q[g.cur]) == 0 {
			if g.inCB {
				return
			}
			g.q[g.cur] = append(g.q[g.cur], "save")
			g.emit(Op{K: "save"})
		}
		var F []float64
		np := 3 + g.n(5)
		if g.p(10) {
			np = 8 + g.n(60)
		}
		for ; np > 0; np-- {
			x, y := g.pt()
			F = append(F, x, y)
		}
		o := Op{K: k, F: F}
		if k == "polygon" {
			o.S = []string{[]string{"D", "F", "DF", "FD", ""}[g.n(5)]}
		}
		g.emit(o)
	case "rectangle":
		x, y := g.pt()
		ww, hh := g.f(5, w/2), g.f(5, h/2)
		rad := 0.0
		n := 0
		if g.p(2) {
			n = g.n(8)
			if g.p(12) {
				n = 8 + g.n(150)
			}
			rad = g.f(0, math.Min(ww, hh)*0.5)
		}
		g.emit(Op{K: k, F: []float64{x, y, x + ww, y + hh, rad}, I: []int{n}, S: []string{[]string{"D", "F", "DF", "FD", ""}[g.n(5)]}})
	case "save":
		if len(g.q[g.cur]) < 5 && !g.inCB {
			g.q[g.cur] = append(g.q[g.cur], "save")
			g.emit(Op{K: k})
		}
	case "rotate":
		if len(g.q[g.cur]) < 4 && !g.inCB {
			g.q[g.cur] = append(g.q[g.cur], "rot")
			x, y := g.pt()
			g.emit(Op{K: k, F: []float64{x, y}, N: []float64{[]float64{0, 90, 45, -30, 180, 270, g.f(-720, 720)}[g.n(7)]}})
		}
	case "restore", "rotreset":
		if len(g.q[g.cur]) > 0 && !g.inCB {
			g.popScope(g.cur)
		}
	case "textrun":
		g.textRun()
	case "text":
		g.unmerge()
		g.emit(Op{K: k, S: []string{g.text(14)}})
	case "cell":
		g.unmerge()
		o := Op{K: k, S: []string{g.text(14)}}
		if g.p(2) {
			o.F = []float64{g.f(10, 200), g.f(5, 60)}
		}
		g.emit(o)
	case "cellopt":
		g.unmerge()
		o := g.cellOpt()
		o.K = k
		if g.p(5) {
			o.S = []string{g.text(14)}
		} else {
			o.S = []string{g.para(1 + g.n(4))}
			o.F = []float64{g.f(20, 300), g.f(5, 60)}
		}
		g.emit(o)
	case "multicell":
		g.unmerge()
		g.emit(Op{K: k, F: []float64{g.f(60, 300), g.f(20, 200)}, S: []string{g.para(1 + g.n(14))}})
	case "multicellopt":
		g.unmerge()
		o := g.cellOpt()
		o.K = k
		o.I[2] = gopdf.Bottom * g.n(2)
		o.S = []string{g.para(1 + g.n(14))}
		if g.p(3) {
			o.S[0] += "\n" + g.para(1+g.n(4))
		}
		o.F = []float64{g.size*3 + g.f(40, 300), g.f(20, 200)}
		if g.p(2) {
			o.I = append(o.I, g.n(2), ' ')
			o.S = append(o.S, []string{"", "-"}[g.n(2)])
			if o.I[3] == 1 {
				o.S[1] = ""
			}
		}
		g.emit(o)
	case "isfit", "isfitnl":
		g.emit(Op{K: k, F: []float64{g.f(60, 300), g.f(20, 200)}, S: []string{g.para(1 + g.n(14))}})
	case "split":
		g.emit(Op{K: k, I: []int{g.n(2)}, F: []float64{g.size*3 + g.f(40, 300)}, S: []string{g.para(1 + g.n(20))}})
	case "measure", "measureh":
		g.emit(Op{K: k, S: []string{g.text(30)}})
	case "hasglyph":
		g.emit(Op{K: k, I: []int{32 + g.n(1000)}})
	case "compress":
		if g.p(3) {
			g.emit(Op{K: "nocompress"})
		} else {
			g.emit(Op{K: k, I: []int{g.n(12) - 2}})
		}
	case "info":
		if g.p(3) {
			g.emit(Op{K: k, S: []string{"Title", "Ünï", "", "c", "日本"}, I: []int{1700000000, 3600}})
		} else { // some fields only
			o := Op{K: k}
			for range infoKeys {
				o.S = append(o.S, []string{"", "", "a (b", "é", fmt.Sprint("n", g.n(1000))}[g.n(5)])
			}
			if g.p(2) {
				o.I = []int{1700000000 + g.n(100000000), []int{0, 3600, -12600}[g.n(3)]}
			}
			g.emit(o)
		}
	case "ph":
		n := fmt.Sprintf("ph%d", g.n(4))
		fs := g.phFont[n]
		if len(fs) > 0 && fs[0] < 0 {
			return
		}
		if len(fs) == 0 {
			g.phs = append(g.phs, n)
		}
		if len(fs) == 0 || !g.p(4) && fs[len(fs)-1] != g.font || g.p(3) {
			g.phFont[n] = append(fs, g.font)
		} else if fs[len(fs)-1] != g.font {
			return
		}
		g.unmerge()
		g.emit(Op{K: k, S: []string{n}, F: []float64{g.f(20, 150)}})
		if g.under {
			g.unmerge()
		}
	case "fillph":
		if len(g.phs) > 0 {
			i := g.n(len(g.phs))
			n := g.phs[i]
			again := g.p(2) // filled once more later, perhaps
			if !again {
				g.phs = append(g.phs[:i:i], g.phs[i+1:]...)
			}
			sv, svu := g.font, g.under
			fs := g.phFont[n]
			g.font = fs[g.n(len(fs))]
			t := g.text(10)
			g.font, g.under = sv, svu
			t = strings.Map(func(c rune) rune {
				for _, f := range fs {
					for _, h := range fs {
						if (g.Sc.Fonts[g.fonts[f].idx].Gid(c) == 0) != (g.Sc.Fonts[g.fonts[h].idx].Gid(c) == 0) {
							return 'x'
						}
					}
				}
				return c
			}, t)
			if !again {
				g.phFont[n] = []int{-1}
			}
			g.emit(Op{K: k, S: []string{n, t}, I: []int{[]int{gopdf.Left, gopdf.Right, gopdf.Center}[g.n(3)]}})
		}
	case "image":
		if len(g.Sc.Images) == 0 {
			return
		}
		x, y := g.pt()
		o := Op{K: k, I: []int{g.n(len(g.Sc.Images)), g.n(7)}, F: []float64{x, y}}
		if g.p(3) == false {
			o.F = append(o.F, g.f(5, 200), g.f(5, 200))
		}
		g.emit(o)
	case "imageopt":
		if len(g.Sc.Images) == 0 {
			return
		}
		g.emit(Op{K: k, Img: g.imgOpt(true)})
	case "extlink":
		x, y := g.pt()
		g.emit(Op{K: k, S: []string{fmt.Sprintf("http://example.com/%d?(a\\b)", g.n(100))}, F: []float64{x, y, g.f(5, 100), g.f(5, 30)}})
	case "intlink":
		x, y := g.pt()
		nm := anchorNames[g.n(len(anchorNames))]
		g.anch = append(g.anch, nm)
		g.emit(Op{K: k, S: []string{nm}, F: []float64{x, y, g.f(5, 100), g.f(5, 30)}})
	case "anchor":
		g.emit(Op{K: k, S: []string{anchorNames[g.n(len(anchorNames))]}})
	case "outline":
		g.nOutl++
		g.emit(Op{K: k, S: []string{fmt.Sprintf("Outline %d ü", g.nOutl)}})
	case "outlinepos":
		g.nOutl++
		g.emit(Op{K: k, S: []string{fmt.Sprintf("Outline pos %d ü", g.nOutl)}})
	case "table":
		g.emit(Op{K: k, Tab: g.table()})
	case "imp":
		if len(g.Sc.PDFs) > 0 {
			i := g.n(len(g.Sc.PDFs))
			g.nImp++
			g.emit(Op{K: k, I: []int{i, g.n(2), 1 + g.n(len(g.Sc.PDFs[i].Pages))}, S: []string{"/MediaBox"}})
		}
	case "use":
		if g.nImp > 0 {
			x, y := g.pt()
			o := Op{K: k, I: []int{g.n(g.nImp)}, F: []float64{x, y, g.f(20, 300), g.f(20, 300)}}
			switch g.n(5) {
			case 0:
				o.F[2] = 0
			case 1:
				o.F[3] = 0
			}
			g.emit(o)
		}
	case "impall":
		if len(g.Sc.PDFs) > 0 && len(g.pages) < 8 {
			i := g.n(len(g.Sc.PDFs))
			g.closeScopes(g.cur)
			g.emit(Op{K: k, I: []int{i, g.n(4)}, S: []string{"/MediaBox"}})
			for range g.Sc.PDFs[i].Pages {
				g.pages = append(g.pages, [2]float64{g.Sc.Cfg.W, g.Sc.Cfg.H})
				g.q = append(g.q, nil)
			}
			g.cur = len(g.pages) - 1
		}
	case "out":
		on := g.p(2) && !g.under // the same again after it
		var last Op
		if n := len(g.out); n > 0 && on {
			if last = g.out[n-1]; last.K == "ph" || last.Bad {
				on = false
			}
		}
		if on && g.p(2) {
			g.step("text")
			last = g.out[len(g.out)-1]
		}
		g.emit(Op{K: k, I: []int{g.n(8)}})
		switch last.K {
		case "text", "cell", "line", "oval", "cellopt":
			if on {
				last.S = append([]string{}, last.S...)
				g.emit(last)
			}
		}
		if len(g.phs) > 0 && g.p(2) {
			g.step("fillph")
		}
	case "header", "footer":
		if !g.P.Header || g.inCB {
			return
		}
		sv := g.out
		svf, svu := g.font, g.under
		g.out = nil
		g.inCB = true
		kinds := []string{"line", "rectuls", "stroke", "fill", "lw", "setxy", "polygon", "gstroke", "rectul"}
		x, y := g.pt()
		g.emit(Op{K: "setxy", F: []float64{x, y}})
		for i := 1 + g.n(5); i > 0; i-- {
			g.step(kinds[g.n(len(kinds))])
		}
		if g.p(2) {
			g.under = false
			g.font = g.n(len(g.fonts))
			f := g.fonts[g.font]
			x, y := g.pt()
			g.emit(Op{K: "setfont", S: []string{f.fam}, I: []int{f.style}, N: []float64{9}})
			g.emit(Op{K: "setxy", F: []float64{x, y}})
			g.emit(Op{K: "text", S: []string{g.asciiText(12)}})
			// put the document's font back: the generator relies on it
			ff := g.fonts[svf]
			g.emit(Op{K: "setfont", S: []string{ff.fam}, I: []int{ff.style}, N: []float64{10}})
		}
		sub := g.out
		g.out, g.inCB, g.font, g.under = sv, false, svf, svu
		g.emit(Op{K: k, Sub: sub})
	}
}

// asciiText has only characters every font has.
func (g *Gen) asciiText(max int) string {
	var o []rune
	for i := 1 + g.n(max); i > 0; i-- {
		o = append(o, rune('!'+g.n(90)))
	}
	return string(o)
}

// maybeNewPage: an on-demand break may have happened; make the next steps independent of it.
func (g *Gen) maybeNewPage() {
	// the break may add a page; from here the generator works as if it did not, which is harmless for
	// drawing. SetPage numbers stay valid because pages are only ever added.
}

func (g *Gen) cellOpt() Op {
	al := []int{0, gopdf.Left, gopdf.Right, gopdf.Center, gopdf.Justify}[g.n(5)] | []int{0, gopdf.Top, gopdf.Middle, gopdf.Bottom}[g.n(4)]
	bd := 0
	if g.p(2) {
		bd = g.n(16)
	}
	fl := []int{0, gopdf.Right, gopdf.Bottom}[g.n(3)]
	o := Op{I: []int{al, bd, fl}, T: g.maybeTr()}
	if g.p(4) {
		o.N = []float64{g.f(0.5, 2), g.f(0.5, 2), g.f(0.5, 2)}
	}
	return o
}

func (g *Gen) imgOpt(mask bool) *ImgOpt {
	x, y := g.pt()
	o := &ImgOpt{Img: g.n(len(g.Sc.Images)), Route: g.n(3), X: x, Y: y}
	for g.Sc.Images[o.Img].Kind == "bad" {
		o.Img = g.n(len(g.Sc.Images))
	}
	o.HasRect = !g.p(4)
	a := g.Sc.Images[o.Img]
	o.W, o.H = g.f(5, 200), g.f(5, 200)
	if g.p(3) {
		o.Angle = []float64{90, 45, -33, 180, g.f(-360, 360)}[g.n(5)]
	}
	o.VF, o.HF = g.p(3), g.p(3)
	o.T = g.maybeTr()
	if g.p(4) {
		w, h := o.W, o.H
		if !o.HasRect {
			w, h = natural(a)
		}
		if w > 2 && h > 2 {
			cx, cy := g.f(0, w/2), g.f(0, h/2)
			o.Crop = &[4]float64{cx, cy, g.f(1, w-cx), g.f(1, h-cy)}
		}
	}
	if mask && g.p(3) {
		var m []int
		for i, im := range g.Sc.Images {
			if hasAlphaChannel(im) {
				m = append(m, i)
			}
		}
		if len(m) > 0 {
			mo := g.imgOpt(false)
			mo.Img = m[g.n(len(m))]
			mo.T = nil
			if g.p(4) {
				mo.T = g.tspec()
			}
			if g.p(3) {
				bx, by := g.pt()
				mo.BBox = &[4]float64{bx, by, bx + g.f(10, 200), by + g.f(10, 200)}
			}
			o.Mask = mo
		}
	}
	return o
}

// natural is the size an image gets when no rectangle is given.
func natural(a *ImgAsset) (float64, float64) {
	return math.Floor(float64(a.Pic.W) * 72 / 128), math.Floor(float64(a.Pic.H) * 72 / 128)
}

// hasAlphaChannel tells whether the file is a PNG with an alpha channel.
func hasAlphaChannel(a *ImgAsset) bool {
	return a.Kind != "bad" && len(a.Data) > 26 && string(a.Data[1:4]) == "PNG" && (a.Data[25] == 4 || a.Data[25] == 6)
}

func (g *Gen) tabStyle() *TabStyle {
	f := g.fonts[g.n(len(g.fonts))]
	for f.style != 0 {
		f = g.fonts[g.n(len(g.fonts))]
		if g.p(20) {
			break
		}
	}
	s := &TabStyle{BW: g.f(0.2, 3), Font: f.fam, Size: []float64{6, 8, 10}[g.n(3)]}
	for i := range s.Sides {
		s.Sides[i] = g.p(2)
	}
	for i := 0; i < 3; i++ {
		s.BC[i], s.Text[i] = uint8(g.n(256)), uint8(g.n(256))
		if g.p(2) {
			s.Fill[i] = uint8(g.n(256))
		}
	}
	return s
}

func (g *Gen) table() *TabSpec {
	x, y := g.pt()
	t := &TabSpec{X: x / 2, Y: y / 2, RowH: g.f(18, 40)}
	n := 1 + g.n(4)
	for i := 0; i < n; i++ {
		t.Heads = append(t.Heads, g.text(8))
		t.Widths = append(t.Widths, g.f(40, 120))
		t.Aligns = append(t.Aligns, []string{"left", "center", "right", ""}[g.n(4)])
	}
	rows := g.n(5)
	t.MaxRows = rows + g.n(3)
	reg := false
	for _, f := range g.fonts {
		if f.style == 0 {
			reg = true
		}
	}
	for i := 0; i < rows; i++ {
		var row []TabCell
		for j := 0; j < n; j++ {
			c := TabCell{Text: g.text(12)}
			row = append(row, c)
		}
		if reg && g.p(3) {
			for j := range row {
				row[j].Style = g.tabStyle()
			}
		}
		t.Rows = append(t.Rows, row)
	}
	if reg {
		if g.p(2) {
			t.Table = g.tabStyle()
		}
		if g.p(2) {
			t.Head = g.tabStyle()
		}
		if g.p(2) {
			t.Cell = g.tabStyle()
		}
	}
	return t
}

// build draws a whole script.
func (g *Gen) build() *Script {
	var late []int
	if g.fixed != nil {
		g.out = append(g.out, g.fixed...)
		g.fonts = append([]genFont{}, g.fixedFonts...)
	} else {
		for i := range g.Sc.Fonts {
			if i > 0 && g.p(5) { // a font that joins in later
				late = append(late, i)
				continue
			}
			g.addFont(i)
		}
		for _, f := range g.fonts { // of families with one style
			n := 0
			for _, h := range g.fonts {
				if h.fam == f.fam {
					n++
				}
			}
			if n == 1 && g.p(5) {
				g.emit(Op{K: "kernov", S: []string{f.fam}, I: []int{g.n(6)}})
			}
		}
	}
	if g.P.Header && g.p(2) {
		// callbacks set before the first page need a font
		g.setFont()
		if g.p(2) {
			g.step("header")
		} else {
			g.step("footer")
		}
	}
	g.addPage()
	g.setFont()
	var ks []string
	tot := 0
	for _, k := range sortedKeys(g.P.W) {
		ks = append(ks, k)
		tot += g.P.W[k]
	}
	bulkAt := -1
	if g.P.Bulk > 0 && g.p(g.P.Bulk) && g.P.Steps > 0 {
		bulkAt = g.n(g.P.Steps)
	}
	for i := 0; i < g.P.Steps; i++ {
		if len(late) > 0 && g.p(1+g.P.Steps/4) {
			g.ownFam = true
			g.addFont(late[0])
			late = late[1:]
		}
		if i == bulkAt {
			g.bulk()
		}
		v := g.n(tot)
		for _, k := range ks {
			v -= g.P.W[k]
			if v < 0 {
				g.step(k)
				break
			}
		}
	}
	g.closeScopes(g.cur)
	// every internal link gets its anchor unless a check wants otherwise
	done := map[string]bool{}
	for _, o := range g.out {
		if o.K == "anchor" {
			done[o.S[0]] = true
		}
	}
	for _, a := range g.anch {
		if !done[a] && !g.P.Loose {
			done[a] = true
			g.emit(Op{K: "anchor", S: []string{a}})
		}
	}
	g.Sc.Ops = g.out
	return g.Sc
}

// sizeType chooses the Go type a font size is passed as.
func (g *Gen) sizeType(size float64) int {
	for {
		if t := g.n(13); t != 5 && (t != 6 || size < 128) && (t != 2 || size < 256) {
			return t
		}
	}
}

// textRun draws texts next to each other, with one setting at a time changed and changed back between
// them: each must keep the settings in force when it was drawn.
func (g *Gen) textRun() {
	x, y := g.pt()
	g.emit(Op{K: "setxy", F: []float64{x, y}})
	f1, f2 := g.n(len(g.fonts)), g.n(len(g.fonts))
	sizes := []float64{[]float64{8, 10, 12, 20}[g.n(4)], 14}
	cols := [][]int{g.rgb(), g.rgb()}
	cmyk := [][]int{g.cmyk(), g.cmyk()}
	trs := []*TrSpec{g.tspec(), g.tspec()}
	grays := []float64{0, 0.5}
	kind := []string{"text", "cell", "cellopt"}[g.n(3)]
	// options of a cell without a size, from a small pool
	base := Op{I: []int{[]int{0, gopdf.Left, gopdf.Right, gopdf.Center}[g.n(4)] | []int{0, gopdf.Top, gopdf.Middle, gopdf.Bottom}[g.n(4)], 0, gopdf.Right * g.n(2)}}
	coef := [2]float64{g.f(0.5, 2), g.f(0.5, 2)}
	font := func(i int) {
		f := g.fonts[i]
		st := f.style
		g.under = g.p(2) && !g.P.NoUnder
		if g.under {
			st |= gopdf.Underline
		}
		g.font, g.size = i, sizes[g.n(2)]
		g.emit(Op{K: "setfont", S: []string{f.fam}, I: []int{st, g.n(3), g.sizeType(g.size)}, N: []float64{g.size}})
	}
	font(f1)
	// underlined cells of which only the line metrics differ
	coefs := g.p(5) && !g.P.NoUnder
	if coefs {
		g.under = true
		g.emit(Op{K: "setfont", S: []string{g.fonts[f1].fam}, I: []int{g.fonts[f1].style | gopdf.Underline, 0, 0}, N: []float64{g.size}})
		kind, base.I[2] = "cellopt", gopdf.Right
	}
	for n := 3 + g.n(8); n > 0; n-- {
		for k := g.n(4) - 1; k > 0 && !coefs; k-- {
			switch g.n(13) {
			case 12:
				g.step("nudge")
			case 0:
				font(f1)
			case 1:
				font(f2)
			case 2:
				g.size = sizes[g.n(2)]
				g.emit(Op{K: "fontsize", N: []float64{g.size}})
			case 3, 4:
				g.emit(Op{K: "txt", I: cols[g.n(2)]})
			case 5:
				g.emit(Op{K: "txtk", I: cmyk[g.n(2)]})
			case 6, 7:
				g.emit(Op{K: "gfill", N: []float64{grays[g.n(2)]}})
			case 8:
				g.emit(Op{K: "spacing", F: []float64{[]float64{0, 2, -0.4}[g.n(3)]}})
			case 9:
				g.emit(Op{K: "tr", T: trs[g.n(2)]})
			case 10:
				g.emit(Op{K: "trclear"})
			case 11:
				if g.P.W["ph"] == 0 || g.under {
					continue
				}
				g.step("ph")
			}
		}
		if !coefs && g.p(6) {
			kind = []string{"text", "cell", "cellopt"}[g.n(3)]
		}
		o := Op{K: kind, S: []string{g.text(4)}}
		if kind == "cellopt" {
			o.I = append([]int{}, base.I...)
			change := g.n(8)
			if coefs {
				change = 3 + g.n(4)
			}
			switch change {
			case 0:
				o.I[0] ^= gopdf.Center
			case 1:
				o.I[2] = gopdf.Bottom
			case 2:
				o.I[1] = g.n(16)
			case 3:
				o.N = []float64{coef[0], 1, 1}
			case 4:
				o.N = []float64{1, coef[0], 1}
			case 5:
				o.N = []float64{1, 1, coef[1]}
			case 6:
				o.T = trs[g.n(2)]
			}
			if o.I[2]&gopdf.Bottom != 0 && g.p(2) {
				base.I[2] = gopdf.Bottom
			}
		}
		g.emit(o)
	}
	g.emit(Op{K: "spacing", F: []float64{0}})
	x, y = g.pt()
	g.emit(Op{K: "setxy", F: []float64{x, y}})
}

// bulk repeats one kind of step many times, for what only large numbers bring out.
func (g *Gen) bulk() {
	var ks []string
	for _, k := range []string{"addpage", "extlink", "intlink", "anchor", "outline", "outlinepos", "tr", "addcs", "text", "cellopt", "image", "imageopt", "setpage", "ph"} {
		if g.P.W[k] > 0 && (g.P.Images > 0 || k != "image" && k != "imageopt") {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return
	}
	draw := func() {
		for _, k := range []string{"line", "rectul", "text", "extlink"} {
			if g.P.W[k] > 0 {
				g.step(k)
				return
			}
		}
	}
	k := ks[g.n(len(ks))]
	n := 40 + g.n(300)
	switch k {
	case "addpage":
		g.closeScopes(g.cur)
		for i := 0; i < n/2; i++ {
			g.addPage()
			if g.p(2) {
				draw()
			}
		}
	case "setpage":
		for i := 0; i < n/2; i++ {
			g.step(k)
			draw()
		}
	case "tr":
		for i := 0; i < n; i++ {
			g.step(k)
			draw()
		}
	case "addcs":
		for i := 0; i < n; i++ {
			g.step(k)
			g.step("cs")
			draw()
		}
	case "text":
		g.unmerge()
		g.emit(Op{K: k, S: []string{g.text(60 + g.n(2000))}})
		g.unmerge()
		for i := 0; i < n/4; i++ {
			g.step(k)
		}
	case "image", "imageopt":
		for i := 0; i < n/4; i++ {
			g.step(k)
		}
	default:
		for i := 0; i < n; i++ {
			g.step(k)
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}
func sortStrings(a []string) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}
