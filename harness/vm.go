package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"image"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/phpdave11/gofpdi"
	"github.com/signintech/gopdf"
)

// TrSpec is a transparency request.
type TrSpec struct {
	A  float64
	BM string
	C  bool // made by the constructor
}

// ImgOpt is an image option set; lengths in points.
type ImgOpt struct {
	Img     int
	Route   int
	X, Y    float64
	W, H    float64
	HasRect bool
	Angle   float64
	VF, HF  bool
	Crop    *[4]float64
	T       *TrSpec
	Mask    *ImgOpt
	BBox    *[4]float64
}

// Op is one call of the library. F holds lengths in points, N plain numbers.
type Op struct {
	K   string
	F   []float64 `json:",omitempty"`
	N   []float64 `json:",omitempty"`
	I   []int     `json:",omitempty"`
	S   []string  `json:",omitempty"`
	T   *TrSpec   `json:",omitempty"`
	Img *ImgOpt   `json:",omitempty"`
	Tab *TabSpec  `json:",omitempty"`
	Sub []Op      `json:",omitempty"`
	Bad bool      `json:",omitempty"` // expected to be refused
}

// TabStyle mirrors gopdf.CellStyle.
type TabStyle struct {
	Sides [4]bool // top left right bottom
	BW    float64
	BC    [3]uint8
	Fill  [3]uint8
	Text  [3]uint8
	Font  string
	Size  float64
}
type TabCell struct {
	Text  string
	Style *TabStyle
}
type TabSpec struct {
	X, Y, RowH        float64
	MaxRows           int
	Heads             []string
	Widths            []float64
	Aligns            []string
	Rows              [][]TabCell
	Table, Head, Cell *TabStyle
	Later             bool // made now, drawn later
}

// Cfg is the document configuration; lengths in points.
type Cfg struct {
	W, H    float64
	Trim    [4]float64
	Protect bool
	Perm    int
	User    string
	Owner   string
	Imp     bool // the importer is the caller's
	OneFile bool // every image read from a path is written to the same file first
}

// Unit is the unit the calls are made in.
type Unit struct {
	U    int
	Conv float64
}

func (u Unit) factor() float64 {
	if u.Conv != 0 {
		return u.Conv
	}
	switch u.U {
	case gopdf.UnitMM:
		return 72.0 / 25.4
	case gopdf.UnitCM:
		return 72.0 / 2.54
	case gopdf.UnitIN:
		return 72
	case gopdf.UnitPX:
		return 0.75
	}
	return 1
}

// Script is one document history.
type Script struct {
	Cfg    Cfg
	Ops    []Op
	Fonts  []*FontAsset `json:"-"`
	Images []*ImgAsset  `json:"-"`
	PDFs   []*PDFAsset  `json:"-"`
	Desc   []string     // what the assets are
}

// Rec is what one executed call returned; lengths in points.
type Rec struct {
	I    int
	K    string
	Err  string
	L    []float64
	N    []float64
	S    []string
	X, Y float64
	Sub  int
	Out  []byte
	Miss []rune
}

// VM executes scripts on the real library.
type VM struct {
	G        *gopdf.GoPdf
	U        Unit
	f        float64
	Sc       *Script
	Recs     []Rec
	importer *gofpdi.Importer
	Enter    func(op *Op)
	Leave    func(op *Op, rec *Rec)
	CB       func(kind string, begin bool)
	// SkipBad leaves out the calls marked Bad.
	SkipBad   bool
	NoOut     bool // leave out mid-document output
	Dir       string
	Stop      func() bool
	Cont      *gopdf.FontContainer
	ContRoute int // how a container gets its font: data, reader, path
	Miss      []rune
	NowMiss   []rune
	// OnBytes lets a monitor substitute or watch byte arguments.
	OnBytes   func(b []byte) []byte
	Reader    func(b []byte) io.Reader
	outl      []*gopdf.OutlineObj
	tpls      []int
	table     gopdf.TableLayout
	depth     int
	idx       int
	PreRun    func(vm *VM)
	Own       *owner // watches the values handed to the library
	KernCalls int
	Nest      []nestEntry // the nesting made by nest2
	nested    int         // positioned entries when nest2 was called last
}

type nestEntry struct{ I, Parent int }

func (v *VM) u(p float64) float64 { return p / v.f }
func (v *VM) us(p []float64) []float64 {
	o := make([]float64, len(p))
	for i := range p {
		o[i] = p[i] / v.f
	}
	return o
}
func (v *VM) p(u float64) float64 { return u * v.f }

func newVM(sc *Script, u Unit) *VM {
	v := &VM{G: &gopdf.GoPdf{}, Sc: sc, U: u, f: u.factor()}
	return v
}

func (v *VM) config() gopdf.Config {
	c := gopdf.Config{Unit: v.U.U, ConversionForUnit: v.U.Conv}
	c.PageSize = gopdf.Rect{W: v.u(v.Sc.Cfg.W), H: v.u(v.Sc.Cfg.H)}
	t := v.us(v.Sc.Cfg.Trim[:])
	c.TrimBox = gopdf.Box{Left: t[0], Top: t[1], Right: t[2], Bottom: t[3]}
	if v.Sc.Cfg.Protect {
		c.Protection = gopdf.PDFProtectionConfig{UseProtection: true, Permissions: v.Sc.Cfg.Perm, UserPass: ownSlice(v, []byte(v.Sc.Cfg.User)), OwnerPass: ownSlice(v, []byte(v.Sc.Cfg.Owner))}
	}
	return c
}

// Run executes the whole script.
func (v *VM) Run() {
	if v.f == 0 {
		v.f = v.U.factor()
	}
	if v.Sc.Cfg.Imp {
		v.importer = gofpdi.NewImporter()
		v.G.StartWithImporter(v.config(), v.importer)
	} else {
		v.G.Start(v.config())
	}
	v.Own.after("Start", 0)
	if v.PreRun != nil {
		v.PreRun(v)
	}
	v.exec(v.Sc.Ops)
}

func (v *VM) exec(ops []Op) {
	for i := range ops {
		if v.Stop != nil && v.Stop() {
			return
		}
		op := &ops[i]
		if v.depth == 0 {
			v.idx = i
		}
		if v.SkipBad && op.Bad {
			continue
		}
		if v.NoOut && op.K == "out" {
			continue
		}
		if v.Enter != nil {
			v.Enter(op)
		}
		rec := Rec{I: v.idx, K: op.K, Sub: v.depth}
		mark := v.Own.mark()
		v.NowMiss = nil
		v.do(op, &rec)
		v.Own.after(op.K, mark)
		rec.Miss = v.NowMiss
		rec.X, rec.Y = v.p(v.G.GetX()), v.p(v.G.GetY())
		v.Recs = append(v.Recs, rec)
		if v.Leave != nil {
			v.Leave(op, &rec)
		}
	}
}

func (v *VM) rect(f []float64) *gopdf.Rect {
	if len(f) < 2 {
		return nil
	}
	return own(v, &gopdf.Rect{W: v.u(f[0]), H: v.u(f[1])})
}
func (v *VM) tr(t *TrSpec) *gopdf.Transparency {
	if t == nil {
		return nil
	}
	return own(v, tr(t))
}
func tr(t *TrSpec) *gopdf.Transparency {
	if t == nil {
		return nil
	}
	if t.C {
		if x, err := gopdf.NewTransparency(t.A, t.BM); err == nil {
			return &x
		}
		return &gopdf.Transparency{BlendModeType: "/refused"}
	}
	return &gopdf.Transparency{Alpha: t.A, BlendModeType: gopdf.BlendModeType(t.BM)}
}
func errs(rec *Rec, err error) {
	if err != nil {
		rec.Err = err.Error()
		if rec.Err == "" {
			rec.Err = "error"
		}
	}
}
func (v *VM) pts(f []float64) []gopdf.Point {
	var ps []gopdf.Point
	for i := 0; i+1 < len(f); i += 2 {
		ps = append(ps, gopdf.Point{X: v.u(f[i]), Y: v.u(f[i+1])})
	}
	return ownSlice(v, ps)
}
func (v *VM) cellOpt(op *Op) gopdf.CellOption {
	o := gopdf.CellOption{Transparency: v.tr(op.T)}
	if len(op.I) > 0 {
		o.Align = op.I[0]
	}
	if len(op.I) > 1 {
		o.Border = op.I[1]
	}
	if len(op.I) > 2 {
		o.Float = op.I[2]
	}
	if len(op.N) >= 3 {
		o.CoefUnderlinePosition, o.CoefLineHeight, o.CoefUnderlineThickness = op.N[0], op.N[1], op.N[2]
	}
	if len(op.I) > 4 {
		o.BreakOption = own(v, breakOpt(op.I[3:], op.S))
	}
	return o
}

// breakOpt: i = mode, indicator; s[1] = separator
func breakOpt(i []int, s []string) *gopdf.BreakOption {
	b := &gopdf.BreakOption{Mode: gopdf.BreakMode(i[0]), BreakIndicator: rune(i[1])}
	if len(s) > 1 {
		b.Separator = s[1]
	}
	return b
}

func (v *VM) bytes(b []byte) []byte {
	if v.Own != nil {
		return ownSlice(v, append([]byte{}, b...))
	}
	if v.OnBytes != nil {
		return v.OnBytes(b)
	}
	return b
}
func (v *VM) reader(b []byte) io.Reader {
	if v.Reader != nil {
		return v.Reader(b)
	}
	return bytes.NewReader(b)
}

func (v *VM) imgFile(img int) string {
	b := v.Sc.Images[img].Data
	if !v.Sc.Cfg.OneFile {
		return v.file(fmt.Sprintf("i%d", img), b)
	}
	p := v.file("i", b)
	if old, err := os.ReadFile(p); err != nil || !bytes.Equal(old, b) {
		if err := os.WriteFile(p, b, 0o644); err != nil {
			panic(err)
		}
	}
	return p
}

func (v *VM) file(name string, b []byte) string {
	if v.Dir == "" {
		d, err := os.MkdirTemp("", "vm")
		if err != nil {
			panic(err)
		}
		v.Dir = d
	}
	p := filepath.Join(v.Dir, name)
	if _, err := os.Stat(p); err != nil {
		if err := os.WriteFile(p, b, 0o644); err != nil {
			panic(err)
		}
	}
	return p
}

// Clean removes the scratch files of the run.
func (v *VM) Clean() {
	if v.Dir != "" {
		os.RemoveAll(v.Dir)
		v.Dir = ""
	}
}

func (v *VM) holder(img, route int) (gopdf.ImageHolder, error) {
	a := v.Sc.Images[img]
	switch route {
	case 0:
		return gopdf.ImageHolderByPath(v.imgFile(img))
	case 1:
		m := v.Own.mark()
		h, err := gopdf.ImageHolderByBytes(v.bytes(a.Data))
		v.Own.after("ImageHolderByBytes", m) // the holder is used later
		return h, err
	default:
		return gopdf.ImageHolderByReader(v.reader(a.Data))
	}
}

func (v *VM) imgOptions(o *ImgOpt) (gopdf.ImageOptions, error) {
	g := gopdf.ImageOptions{DegreeAngle: o.Angle, VerticalFlip: o.VF, HorizontalFlip: o.HF, X: v.u(o.X), Y: v.u(o.Y), Transparency: v.tr(o.T)}
	if o.HasRect {
		g.Rect = own(v, &gopdf.Rect{W: v.u(o.W), H: v.u(o.H)})
	}
	if o.Crop != nil {
		g.Crop = own(v, &gopdf.CropOptions{X: v.u(o.Crop[0]), Y: v.u(o.Crop[1]), Width: v.u(o.Crop[2]), Height: v.u(o.Crop[3])})
	}
	if o.Mask != nil {
		mo, err := v.imgOptions(o.Mask)
		if err != nil {
			return g, err
		}
		h, err := v.holder(o.Mask.Img, o.Mask.Route)
		if err != nil {
			return g, err
		}
		m := &gopdf.MaskOptions{ImageOptions: mo, Holder: h}
		if o.Mask.BBox != nil {
			b := o.Mask.BBox
			m.BBox = own(v, &[4]float64{v.u(b[0]), v.u(b[1]), v.u(b[2]), v.u(b[3])})
		}
		g.Mask = own(v, m)
	}
	return g, nil
}

func (v *VM) ttfOption(op *Op) gopdf.TtfOption {
	// I: font, route, style, kerning, notfound, subst
	o := gopdf.TtfOption{Style: op.I[2], UseKerning: op.I[3] != 0}
	if op.I[4] != 0 {
		o.OnGlyphNotFound = func(r rune) { v.NowMiss = append(v.NowMiss, r); v.Miss = append(v.Miss, r) }
	}
	if op.I[5] != 0 {
		s := rune(op.I[5])
		o.OnGlyphNotFoundSubstitute = func(rune) rune { return s }
	}
	return o
}

func kernFn(k int) gopdf.FuncKernOverride {
	return func(l, r rune, li, ri uint, pv int16) int16 {
		switch k {
		case 0:
			return pv
		case 1:
			if l == 'A' || r == 'e' {
				return pv + 120
			}
			return pv
		case 2:
			if l == r {
				return -200
			}
			return 0
		case 4:
			return pv + int16(li%7)*20 - int16(ri%5)*15 + 40
		case 5:
			return int16((l-r)%90) * 2
		}
		return pv / 2
	}
}

func (v *VM) style(s *TabStyle) gopdf.CellStyle {
	return gopdf.CellStyle{
		BorderStyle: gopdf.BorderStyle{Top: s.Sides[0], Left: s.Sides[1], Right: s.Sides[2], Bottom: s.Sides[3], Width: v.u(s.BW), RGBColor: gopdf.RGBColor{R: s.BC[0], G: s.BC[1], B: s.BC[2]}},
		FillColor:   gopdf.RGBColor{R: s.Fill[0], G: s.Fill[1], B: s.Fill[2]},
		TextColor:   gopdf.RGBColor{R: s.Text[0], G: s.Text[1], B: s.Text[2]},
		Font:        s.Font, FontSize: s.Size,
	}
}

func (v *VM) do(op *Op, rec *Rec) {
	g := v.G
	F := op.F
	U := func(i int) float64 { return v.u(F[i]) }
	switch op.K {
	case "addpage":
		o := gopdf.PageOption{}
		if len(F) >= 2 && F[0] > 0 {
			o.PageSize = own(v, &gopdf.Rect{W: U(0), H: U(1)})
		}
		if len(F) >= 6 {
			o.TrimBox = own(v, &gopdf.Box{Left: U(2), Top: U(3), Right: U(4), Bottom: U(5)})
		}
		if len(F) == 0 {
			g.AddPage()
		} else {
			g.AddPageWithOption(o)
		}
	case "setpage":
		errs(rec, g.SetPage(op.I[0]))
	case "header", "footer":
		sub := op.Sub
		kind := op.K
		fn := func() {
			if v.CB != nil {
				v.CB(kind, true)
			}
			v.depth++
			v.exec(sub)
			v.depth--
			if v.CB != nil {
				v.CB(kind, false)
			}
		}
		if op.K == "header" {
			g.AddHeader(fn)
		} else {
			g.AddFooter(fn)
		}
	case "setx":
		g.SetX(U(0))
	case "nudge":
		g.SetX(g.GetX() + U(0))
	case "sety":
		g.SetY(U(0))
	case "setxy":
		g.SetXY(U(0), U(1))
	case "br":
		g.Br(U(0))
	case "setnewy":
		g.SetNewY(U(0), U(1))
	case "setnewyn":
		g.SetNewYIfNoOffset(U(0), U(1))
	case "setnewxy":
		g.SetNewXY(U(0), U(1), U(2))
	case "margins":
		g.SetMargins(U(0), U(1), U(2), U(3))
	case "mleft":
		if len(op.I) > 0 {
			g.SetLeftMargin(U(0))
		} else {
			g.SetMarginLeft(U(0))
		}
	case "mtop":
		if len(op.I) > 0 {
			g.SetTopMargin(U(0))
		} else {
			g.SetMarginTop(U(0))
		}
	case "mright":
		g.SetMarginRight(U(0))
	case "mbottom":
		g.SetMarginBottom(U(0))
	case "getmargins":
		a, b, c, d := g.Margins()
		rec.L = []float64{v.p(a), v.p(b), v.p(c), v.p(d), v.p(g.MarginLeft()), v.p(g.MarginTop()), v.p(g.MarginRight()), v.p(g.MarginBottom())}
	case "lw":
		g.SetLineWidth(U(0))
	case "lt":
		g.SetLineType(op.S[0])
	case "clt":
		d := ownSlice(v, v.us(F[:len(F)-1]))
		g.SetCustomLineType(d, U(len(F)-1))
	case "gfill":
		g.SetGrayFill(op.N[0])
	case "gstroke":
		g.SetGrayStroke(op.N[0])
	case "stroke":
		g.SetStrokeColor(uint8(op.I[0]), uint8(op.I[1]), uint8(op.I[2]))
	case "fill":
		g.SetFillColor(uint8(op.I[0]), uint8(op.I[1]), uint8(op.I[2]))
	case "txt":
		g.SetTextColor(uint8(op.I[0]), uint8(op.I[1]), uint8(op.I[2]))
	case "strokek":
		g.SetStrokeColorCMYK(uint8(op.I[0]), uint8(op.I[1]), uint8(op.I[2]), uint8(op.I[3]))
	case "fillk":
		g.SetFillColorCMYK(uint8(op.I[0]), uint8(op.I[1]), uint8(op.I[2]), uint8(op.I[3]))
	case "txtk":
		g.SetTextColorCMYK(uint8(op.I[0]), uint8(op.I[1]), uint8(op.I[2]), uint8(op.I[3]))
	case "addcs":
		if len(op.I) == 3 {
			errs(rec, g.AddColorSpaceRGB(op.S[0], uint8(op.I[0]), uint8(op.I[1]), uint8(op.I[2])))
		} else {
			errs(rec, g.AddColorSpaceCMYK(op.S[0], uint8(op.I[0]), uint8(op.I[1]), uint8(op.I[2]), uint8(op.I[3])))
		}
	case "cs":
		errs(rec, g.SetColorSpace(op.S[0]))
	case "tr":
		errs(rec, g.SetTransparency(*tr(op.T)))
	case "newtr":
		t, err := gopdf.NewTransparency(op.T.A, op.T.BM)
		errs(rec, err)
		if err == nil {
			errs(rec, g.SetTransparency(t))
		}
	case "trclear":
		g.ClearTransparency()
	case "addfont":
		fa := v.Sc.Fonts[op.I[0]]
		fam := op.S[0]
		o := v.ttfOption(op)
		plain := op.I[2] == 0 && op.I[3] == 0 && op.I[4] == 0 && op.I[5] == 0
		switch op.I[1] {
		case 0:
			p := v.file(fmt.Sprintf("f%d.ttf", op.I[0]), fa.Data)
			if plain {
				errs(rec, g.AddTTFFont(fam, p))
			} else {
				errs(rec, g.AddTTFFontWithOption(fam, p, o))
			}
		case 1:
			if plain {
				errs(rec, g.AddTTFFontByReader(fam, v.reader(fa.Data)))
			} else {
				errs(rec, g.AddTTFFontByReaderWithOption(fam, v.reader(fa.Data), o))
			}
		case 2:
			if plain {
				errs(rec, g.AddTTFFontData(fam, v.bytes(fa.Data)))
			} else {
				errs(rec, g.AddTTFFontDataWithOption(fam, v.bytes(fa.Data), o))
			}
		case 3:
			c := v.Cont
			if c == nil {
				c = &gopdf.FontContainer{}
				m := v.Own.mark()
				var err error
				switch {
				case v.ContRoute == 1 && plain:
					err = c.AddTTFFontByReader(fam, v.reader(fa.Data))
				case v.ContRoute == 1:
					err = c.AddTTFFontByReaderWithOption(fam, v.reader(fa.Data), o)
				case v.ContRoute == 2 && plain:
					err = c.AddTTFFont(fam, v.file(fmt.Sprintf("f%d.ttf", op.I[0]), fa.Data))
				case v.ContRoute == 2:
					err = c.AddTTFFontWithOption(fam, v.file(fmt.Sprintf("f%d.ttf", op.I[0]), fa.Data), o)
				case plain:
					err = c.AddTTFFontData(fam, v.bytes(fa.Data))
				default:
					err = c.AddTTFFontDataWithOption(fam, v.bytes(fa.Data), o)
				}
				v.Own.after("FontContainer.AddTTFFontDataWithOption", m)
				if err != nil {
					errs(rec, err)
					return
				}
			}
			errs(rec, g.AddTTFFontFromFontContainer(fam, c))
		}
	case "preset":
		sizes := []*gopdf.Rect{gopdf.PageSizeA4, gopdf.PageSizeA5, gopdf.PageSizeLetter, gopdf.PageSizeA3Landscape, gopdf.PageSizeA4Landscape, gopdf.PageSizeB5, gopdf.PageSizeLegal, gopdf.PageSize10x14, gopdf.PageSizeStatement}
		g.AddPageWithOption(gopdf.PageOption{PageSize: sizes[op.I[0]]})
	case "arabic":
		rec.S = []string{gopdf.ToArabic(op.S[0])}
	case "addfontpath":
		errs(rec, g.AddTTFFont(op.S[0], op.S[1]))
	case "setfont":
		// I: style bits, how (0 = WithStyle, 1 = string)
		st := op.I[0]
		var size interface{} = op.N[0]
		if f := float32(op.N[0]); len(op.I) > 2 && op.I[2] == 3 && float64(f) == op.N[0] {
			size = f
		}
		if op.N[0] == float64(int(op.N[0])) && len(op.I) > 2 {
			switch op.I[2] {
			case 1:
				size = int(op.N[0])
			case 2:
				size = uint8(op.N[0])
			case 3:
				size = float32(op.N[0])
			case 4:
				size = int64(op.N[0])
			case 5:
				size = "12"
			case 6:
				size = int8(op.N[0])
			case 7:
				size = int16(op.N[0])
			case 8:
				size = int32(op.N[0])
			case 9:
				size = uint(op.N[0])
			case 10:
				size = uint16(op.N[0])
			case 11:
				size = uint32(op.N[0])
			case 12:
				size = uint64(op.N[0])
			}
		}
		if len(op.I) > 1 && op.I[1] >= 1 {
			s := ""
			if st&gopdf.Bold != 0 {
				s += "B"
			}
			if st&gopdf.Italic != 0 {
				s += "I"
			}
			if st&gopdf.Underline != 0 {
				s += "U"
			}
			if op.I[1] == 2 { // any order, any case
				s = strings.ToLower(s)
				for i := 1; i < len(s); i++ {
					s = s[i:] + s[:i]
				}
			}
			errs(rec, g.SetFont(op.S[0], s, size))
		} else {
			errs(rec, g.SetFontWithStyle(op.S[0], st, size))
		}
	case "fontsize":
		errs(rec, g.SetFontSize(op.N[0]))
	case "spacing":
		errs(rec, g.SetCharSpacing(U(0)))
	case "kernov":
		errs(rec, g.KernOverride(op.S[0], func(l, r rune, li, ri uint, pv int16) int16 {
			v.KernCalls++
			return kernFn(op.I[0])(l, r, li, ri, pv)
		}))
	case "line":
		g.Line(U(0), U(1), U(2), U(3))
	case "rectll":
		g.RectFromLowerLeft(U(0), U(1), U(2), U(3))
	case "rectul":
		g.RectFromUpperLeft(U(0), U(1), U(2), U(3))
	case "rectlls":
		g.RectFromLowerLeftWithStyle(U(0), U(1), U(2), U(3), op.S[0])
	case "rectuls":
		g.RectFromUpperLeftWithStyle(U(0), U(1), U(2), U(3), op.S[0])
	case "rectllo", "rectulo":
		o := gopdf.DrawableRectOptions{X: U(0), Y: U(1), Rect: gopdf.Rect{W: U(2), H: U(3)}, PaintStyle: gopdf.PaintStyle(op.S[0]), Transparency: v.tr(op.T)}
		if op.K == "rectllo" {
			errs(rec, g.RectFromLowerLeftWithOpts(o))
		} else {
			errs(rec, g.RectFromUpperLeftWithOpts(o))
		}
	case "oval":
		g.Oval(U(0), U(1), U(2), U(3))
	case "curve":
		g.Curve(U(0), U(1), U(2), U(3), U(4), U(5), U(6), U(7), op.S[0])
	case "polygon":
		g.Polygon(v.pts(F), op.S[0])
	case "clip":
		g.ClipPolygon(v.pts(F))
	case "rectangle":
		errs(rec, g.Rectangle(U(0), U(1), U(2), U(3), op.S[0], U(4), op.I[0]))
	case "save":
		g.SaveGraphicsState()
	case "restore":
		g.RestoreGraphicsState()
	case "rotate":
		g.Rotate(op.N[0], U(0), U(1))
	case "rotreset":
		g.RotateReset()
	case "text":
		errs(rec, g.Text(op.S[0]))
	case "cell":
		errs(rec, g.Cell(v.rect(F), op.S[0]))
	case "cellopt":
		errs(rec, g.CellWithOption(v.rect(F), op.S[0], v.cellOpt(op)))
	case "multicell":
		errs(rec, g.MultiCell(v.rect(F), op.S[0]))
	case "multicellopt":
		errs(rec, g.MultiCellWithOption(v.rect(F), op.S[0], v.cellOpt(op)))
	case "isfit", "isfitnl":
		var ok bool
		var h float64
		var err error
		if op.K == "isfit" {
			ok, h, err = g.IsFitMultiCell(v.rect(F), op.S[0])
		} else {
			ok, h, err = g.IsFitMultiCellWithNewline(v.rect(F), op.S[0])
		}
		errs(rec, err)
		rec.L = []float64{v.p(h)}
		rec.N = []float64{0}
		if ok {
			rec.N[0] = 1
		}
	case "split":
		var o []string
		var err error
		switch op.I[0] {
		case 0:
			o, err = g.SplitText(op.S[0], U(0))
		case 1:
			o, err = g.SplitTextWithWordWrap(op.S[0], U(0))
		default:
			o, err = g.SplitTextWithOption(op.S[0], U(0), own(v, breakOpt(op.I[1:], op.S)))
		}
		errs(rec, err)
		rec.S = o
	case "measure":
		w, err := g.MeasureTextWidth(op.S[0])
		errs(rec, err)
		rec.L = []float64{v.p(w)}
	case "measureh":
		h, err := g.MeasureCellHeightByText(op.S[0])
		errs(rec, err)
		rec.L = []float64{v.p(h)}
	case "hasglyph":
		ok, err := g.IsCurrFontContainGlyph(rune(op.I[0]))
		errs(rec, err)
		rec.N = []float64{0}
		if ok {
			rec.N[0] = 1
		}
	case "ph":
		errs(rec, g.PlaceHolderText(op.S[0], U(0)))
	case "fillph":
		errs(rec, g.FillInPlaceHoldText(op.S[0], op.S[1], op.I[0]))
	case "image":
		// I: img, route(0 Image(path),1.. holders, 4 ImageFrom, 5 ImageFromWithOption png, 6 jpeg)
		var r *gopdf.Rect
		if len(F) >= 4 {
			r = v.rect(F[2:])
		}
		a := v.Sc.Images[op.I[0]]
		switch op.I[1] {
		case 0:
			errs(rec, g.Image(v.imgFile(op.I[0]), U(0), U(1), r))
		case 4:
			errs(rec, g.ImageFrom(v.img(a), U(0), U(1), r))
		case 5:
			errs(rec, g.ImageFromWithOption(v.img(a), gopdf.ImageFromOption{Format: "png", X: U(0), Y: U(1), Rect: r}))
		case 6:
			errs(rec, g.ImageFromWithOption(v.img(a), gopdf.ImageFromOption{Format: "jpeg", X: U(0), Y: U(1), Rect: r}))
		case 7:
			errs(rec, g.ImageFrom(nil, U(0), U(1), r))
		default:
			h, err := v.holder(op.I[0], op.I[1]-1)
			if err != nil {
				errs(rec, err)
				return
			}
			errs(rec, g.ImageByHolder(h, U(0), U(1), r))
		}
	case "imagepath":
		errs(rec, g.Image(op.S[0], U(0), U(1), nil))
	case "imageopt":
		h, err := v.holder(op.Img.Img, op.Img.Route)
		if err != nil {
			errs(rec, err)
			return
		}
		o, err := v.imgOptions(op.Img)
		if err != nil {
			errs(rec, err)
			return
		}
		errs(rec, g.ImageByHolderWithOptions(h, o))
	case "extlink":
		g.AddExternalLink(op.S[0], U(0), U(1), U(2), U(3))
	case "intlink":
		g.AddInternalLink(op.S[0], U(0), U(1), U(2), U(3))
	case "anchor":
		g.SetAnchor(op.S[0])
	case "outline":
		g.AddOutline(op.S[0])
	case "outlinepos":
		v.outl = append(v.outl, g.AddOutlineWithPosition(op.S[0]))
	case "nest":
		// I: parent index for each positioned outline (-1 = top)
		nodes := make([]*gopdf.OutlineNode, len(v.outl))
		var top gopdf.OutlineNodes
		for i := range v.outl {
			nodes[i] = &gopdf.OutlineNode{Obj: v.outl[i]}
		}
		for i := range v.outl {
			if i < len(op.I) && op.I[i] >= 0 {
				nodes[op.I[i]].Children = append(nodes[op.I[i]].Children, nodes[i])
			} else {
				top = append(top, nodes[i])
			}
		}
		top.Parse()
	case "nest2":
		// I: seed, 0 all | 1 some of the positioned entries so far
		if v.Nest == nil {
			v.Nest = nestPlan(int64(op.I[0]), len(v.outl), op.I[1] == 1)
		} else if len(op.I) > 2 && len(v.Nest) > 0 { // the entries that came since find a place in the tree
			r := rand.New(rand.NewSource(int64(op.I[0])))
			for i := v.nested; i < len(v.outl); i++ {
				p := -1
				if r.Intn(4) > 0 {
					p = v.Nest[r.Intn(len(v.Nest))].I
				}
				v.Nest = append(v.Nest, nestEntry{i, p})
			}
		}
		v.nested = len(v.outl)
		nodes := make([]*gopdf.OutlineNode, len(v.outl))
		var top gopdf.OutlineNodes
		for _, e := range v.Nest {
			nodes[e.I] = &gopdf.OutlineNode{Obj: v.outl[e.I]}
			if e.Parent < 0 {
				top = append(top, nodes[e.I])
			} else {
				nodes[e.Parent].Children = append(nodes[e.Parent].Children, nodes[e.I])
			}
		}
		top.Parse()
	case "getinfo":
		in := g.GetInfo()
		rec.S = []string{in.Title, in.Author, in.Subject, in.Creator, in.Producer}
		rec.N = []float64{float64(in.CreationDate.Unix())}
	case "info":
		// S: title author subject creator producer ; I: unix, zone seconds
		in := gopdf.PdfInfo{Title: op.S[0], Author: op.S[1], Subject: op.S[2], Creator: op.S[3], Producer: op.S[4]}
		if len(op.I) >= 2 {
			in.CreationDate = time.Unix(int64(op.I[0]), int64(op.I[0]&1023)*976562).In(time.FixedZone("z", op.I[1]))
		}
		g.SetInfo(in)
	case "compress":
		g.SetCompressLevel(op.I[0])
	case "nocompress":
		g.SetNoCompression()
	case "imp":
		a := v.Sc.PDFs[op.I[0]]
		box := op.S[0]
		t := 0
		if op.I[1] == 0 {
			t = g.ImportPage(v.file(fmt.Sprintf("p%d.pdf", op.I[0]), a.Data), op.I[2], box)
		} else {
			rs := io.ReadSeeker(bytes.NewReader(a.Data))
			t = g.ImportPageStream(&rs, op.I[2], box)
		}
		v.tpls = append(v.tpls, t)
	case "use":
		if op.I[0] < len(v.tpls) {
			g.UseImportedTemplate(v.tpls[op.I[0]], U(0), U(1), U(2), U(3))
		}
	case "sizes": // the sizes of a file's pages: w h llx lly urx ury of each
		a := v.Sc.PDFs[op.I[0]]
		var sz map[int]map[string]map[string]float64
		if op.I[1] == 0 {
			sz = g.GetPageSizes(v.file(fmt.Sprintf("p%d.pdf", op.I[0]), a.Data))
		} else {
			rs := io.ReadSeeker(bytes.NewReader(a.Data))
			sz = g.GetStreamPageSizes(&rs)
		}
		for i := 1; i <= len(sz); i++ {
			for _, k := range []string{"w", "h", "llx", "lly", "urx", "ury"} {
				rec.N = append(rec.N, sz[i][op.S[0]][k])
			}
		}
	case "impraw": // with an importer of the caller's own
		a := v.Sc.PDFs[op.I[0]]
		im := v.importer
		im.SetSourceFile(v.file(fmt.Sprintf("p%d.pdf", op.I[0]), a.Data))
		at := g.GetNextObjectID()
		im.SetNextObjectID(at)
		t := im.ImportPage(op.I[2], op.S[0])
		g.ImportTemplates(im.PutFormXobjects())
		g.ImportObjects(im.GetImportedObjects(), at)
		v.tpls = append(v.tpls, t)
	case "impall":
		a := v.Sc.PDFs[op.I[0]]
		switch op.I[1] {
		case 0:
			errs(rec, g.ImportPagesFromSource(v.file(fmt.Sprintf("p%d.pdf", op.I[0]), a.Data), op.S[0]))
		case 1:
			errs(rec, g.ImportPagesFromSource(v.bytes(a.Data), op.S[0]))
		case 2:
			errs(rec, g.ImportPagesFromSource(io.ReadSeeker(bytes.NewReader(a.Data)), op.S[0]))
		case 3:
			rs := io.ReadSeeker(bytes.NewReader(a.Data))
			errs(rec, g.ImportPagesFromSource(&rs, op.S[0]))
		default:
			errs(rec, g.ImportPagesFromSource(42, op.S[0]))
		}
	case "table":
		t := op.Tab
		tl := g.NewTableLayout(v.u(t.X), v.u(t.Y), v.u(t.RowH), t.MaxRows)
		for i := range t.Heads {
			tl.AddColumn(t.Heads[i], v.u(t.Widths[i]), t.Aligns[i])
		}
		for _, row := range t.Rows {
			styled := false
			for _, c := range row {
				if c.Style != nil {
					styled = true
				}
			}
			if !styled {
				var ss []string
				for _, c := range row {
					ss = append(ss, c.Text)
				}
				m := v.Own.mark()
				tl.AddRow(ownSlice(v, ss))
				v.Own.after("addrow", m)
			} else {
				var cc []gopdf.RowCell
				for _, c := range row {
					if c.Style != nil {
						cc = append(cc, gopdf.NewRowCell(c.Text, v.style(c.Style)))
					} else if c.Text == "" {
						cc = append(cc, gopdf.RowCell{})
					}
				}
				m := v.Own.mark()
				tl.AddStyledRow(ownSlice(v, cc))
				v.Own.after("addstyledrow", m)
			}
		}
		if t.Table != nil {
			tl.SetTableStyle(v.style(t.Table))
		}
		if t.Head != nil {
			tl.SetHeaderStyle(v.style(t.Head))
		}
		if t.Cell != nil {
			tl.SetCellStyle(v.style(t.Cell))
		}
		v.table = tl
		if !t.Later {
			errs(rec, tl.DrawTable())
		}
	case "redraw":
		if v.table != nil {
			if op.Tab != nil { // with more rows
				for _, row := range op.Tab.Rows {
					var ss []string
					for _, c := range row {
						ss = append(ss, c.Text)
					}
					v.table.AddRow(ss)
				}
			}
			errs(rec, v.table.DrawTable())
		}
	case "pages":
		rec.N = []float64{float64(g.GetNumberOfPages())}
	case "out":
		b, err := output(g, op.I[0], v)
		errs(rec, err)
		rec.Out = b
	default:
		panic("unknown op " + op.K)
	}
}

// output produces the file by one of the routes.
func output(g *gopdf.GoPdf, route int, v *VM) ([]byte, error) {
	switch route {
	case 0:
		return append([]byte{}, g.GetBytesPdf()...), nil
	case 1:
		b, err := g.GetBytesPdfReturnErr()
		return append([]byte{}, b...), err
	case 2:
		var b bytes.Buffer
		n, err := g.WriteTo(&b)
		if err == nil && n != int64(b.Len()) {
			return b.Bytes(), fmt.Errorf("WriteTo reported %d bytes and delivered %d", n, b.Len())
		}
		return b.Bytes(), err
	case 3:
		var b bytes.Buffer
		err := g.Write(&b)
		return b.Bytes(), err
	case 4, 5, 6:
		g.Close()
		var b bytes.Buffer
		var err error
		chunk := map[int]int{4: 1 << 16, 5: 1000, 6: 37}[route]
		p := make([]byte, chunk)
		for {
			var n int
			n, err = g.Read(p)
			b.Write(p[:n])
			if err == io.EOF {
				err = nil
				break
			}
			if err != nil {
				break
			}
			if n == 0 && b.Len() > 1<<28 {
				break
			}
		}
		g.Close()
		return b.Bytes(), err
	default:
		d, err := os.MkdirTemp("", "vmout")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		p := filepath.Join(d, "o.pdf")
		if err := g.WritePdf(p); err != nil {
			return nil, err
		}
		return os.ReadFile(p)
	}
}

// runScript executes a script and returns the finished file.
func runScript(sc *Script, u Unit, prep func(*VM)) (*VM, []byte) {
	v := newVM(sc, u)
	if prep != nil {
		prep(v)
	}
	defer v.Clean()
	v.Run()
	b, err := v.G.GetBytesPdfReturnErr()
	if err != nil {
		panic(fmt.Sprintf("output failed: %v", err))
	}
	return v, append([]byte{}, b...)
}

func (s *Script) String() string {
	b, _ := json.MarshalIndent(struct {
		Cfg    Cfg
		Assets []string
	}{s.Cfg, s.Desc}, "", " ")
	var o bytes.Buffer
	o.Write(b)
	o.WriteString("\n")
	for i, op := range s.Ops {
		j, _ := json.Marshal(op)
		fmt.Fprintf(&o, "%3d %s\n", i, j)
	}
	return o.String()
}

var _ image.Image
