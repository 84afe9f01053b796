package main

import (
	"bytes"
	"fmt"
	"image"
	"image/draw"
	"image/jpeg"
	"image/png"
	"math/rand"
	"os"
	"sort"
	"sync"

	"vmon/imgx"
	"vmon/ttfx"
)

func repoDir() string {
	if d := os.Getenv("REPO"); d != "" {
		return d
	}
	return "/repo"
}

// FontAsset is a font file and an independent reading of it.
type FontAsset struct {
	Data  []byte
	F     *ttfx.Font
	Spec  *ttfx.Spec // nil for real fonts
	Desc  string
	Runes []rune // characters with a glyph, sorted
	Kerny []rune // characters that take part in kerning pairs
}

var fontCache sync.Map

// realFonts are shipped with the repository.
var realFonts = []string{"test/res/LiberationSerif-Regular.ttf", "examples/outline_example/Ubuntu-L.ttf", "examples/arabic/Amiri-Regular.ttf"}

func realFont(i int) *FontAsset {
	p := realFonts[i]
	if v, ok := fontCache.Load(p); ok {
		return v.(*FontAsset)
	}
	b, err := os.ReadFile(repoDir() + "/" + p)
	if err != nil {
		panic("harness: " + err.Error())
	}
	a := newFontAsset(b, p)
	fontCache.Store(p, a)
	return a
}

func newFontAsset(b []byte, desc string) *FontAsset {
	f, err := ttfx.Parse(b, false)
	if err != nil {
		panic("harness: generated font: " + err.Error())
	}
	a := &FontAsset{Data: b, F: f, Desc: desc}
	inKern := map[int]bool{}
	for k := range f.Kern {
		inKern[k[0]], inKern[k[1]] = true, true
	}
	for c, g := range f.Cmap {
		if g != 0 && c != '\n' {
			a.Runes = append(a.Runes, c)
			if inKern[g] {
				a.Kerny = append(a.Kerny, c)
			}
		}
	}
	sort.Slice(a.Runes, func(i, j int) bool { return a.Runes[i] < a.Runes[j] })
	sort.Slice(a.Kerny, func(i, j int) bool { return a.Kerny[i] < a.Kerny[j] })
	return a
}

func synthFont(r *rand.Rand, opt ttfx.GenOpt) *FontAsset {
	s := ttfx.Gen(r, opt)
	a := newFontAsset(ttfx.Build(s, r), "synthetic")
	a.Spec = s
	return a
}

func randFont(r *rand.Rand) *FontAsset {
	if r.Intn(8) == 0 {
		return realFont(r.Intn(len(realFonts)))
	}
	return synthFont(r, ttfx.GenOpt{})
}

// Gid is the glyph of a character, 0 if the font has none.
func (a *FontAsset) Gid(c rune) int { return a.F.Cmap[c] }

// W is the advance of a glyph in thousandths of the size, exact.
func (a *FontAsset) W(g int) float64 {
	if g < 0 || g >= len(a.F.Adv) {
		return 0
	}
	return float64(a.F.Adv[g]) * 1000 / float64(a.F.UPEM)
}

// ImgAsset is an image and the picture it stands for.
type ImgAsset struct {
	Data []byte
	Img  image.Image
	Pic  *imgx.Pic
	Kind string
}

func imgAsset(s *imgx.Src) *ImgAsset {
	return &ImgAsset{Data: s.Data, Img: s.Img, Pic: s.Pic, Kind: s.Kind}
}

func randImage(r *rand.Rand) *ImgAsset { return imgAsset(imgx.Rand(r)) }

// bigJPEG is a small picture in a file with megabytes of comments.
func bigJPEG(r *rand.Rand) *ImgAsset {
	s := imgx.MakeJPEG(r, 0)
	d := append([]byte{}, s.Data[:2]...)
	seg := make([]byte, 65537)
	for n := []int{20, 160, 280}[r.Intn(3)]; n > 0; n-- {
		r.Read(seg)
		copy(seg, []byte{0xff, 0xfe, 0xff, 0xff})
		d = append(d, seg...)
	}
	s.Data = append(d, s.Data[2:]...)
	return imgAsset(s)
}

// memImage draws an in-memory image, with the bytes of a PNG of it as file form.
func memImage(r *rand.Rand) *ImgAsset {
	m, k := imgx.RandMem(r)
	var b bytes.Buffer
	var e image.Image = m
	for _, wide := range []string{"YCbCr", "CMYK", "NYCbCrA", "Gray16", "NRGBA64"} {
		if k == wide { // the encoder would write 16 bits
			n := image.NewNRGBA(m.Bounds())
			draw.Draw(n, n.Rect, m, n.Rect.Min, draw.Src)
			e = n
		}
	}
	if err := png.Encode(&b, e); err != nil {
		panic("harness: " + err.Error())
	}
	return &ImgAsset{Data: append([]byte{}, b.Bytes()...), Img: m, Pic: imgx.FromImage(e), Kind: "memory " + k}
}

// jpegPic is what an image encoded as JPEG with default options stands for.
func jpegPic(m image.Image) *imgx.Pic {
	var b bytes.Buffer
	if err := jpeg.Encode(&b, m, nil); err != nil {
		panic("harness: " + err.Error())
	}
	d, err := jpeg.Decode(bytes.NewReader(b.Bytes()))
	if err != nil {
		panic("harness: " + err.Error())
	}
	return imgx.FromImage(d)
}

// alphaImage draws a PNG with an alpha channel, usable as a mask.
func alphaImage(r *rand.Rand) *ImgAsset {
	s := imgx.RandPNGSpec(r)
	s.CT = []int{4, 6}[r.Intn(2)]
	s.Depth = 8
	s.Trns = 0
	return imgAsset(imgx.MakePNG(r, s))
}

// siblings draws two images of the same size, model and file length that differ in their last row only.
// In JPEG pairs the difference is in a table between longer parts that are the same.
func siblings(r *rand.Rand) (*ImgAsset, *ImgAsset) {
	if r.Intn(3) == 0 {
		m := image.NewRGBA(image.Rect(0, 0, 40+r.Intn(40), 40+r.Intn(40)))
		r.Read(m.Pix)
		for i := 3; i < len(m.Pix); i += 4 {
			m.Pix[i] = 255
		}
		var b bytes.Buffer
		if err := jpeg.Encode(&b, m, nil); err != nil {
			panic("harness: " + err.Error())
		}
		j := b.Bytes()
		n := 600 + r.Intn(6000)
		j = append(append(append(append([]byte{}, j[:2]...), 0xFF, 0xFE, byte((n+2)>>8), byte(n+2)), bytes.Repeat([]byte("c"), n)...), j[2:]...)
		k := append([]byte{}, j...)
		k[bytes.Index(j, []byte{0xFF, 0xDB})+5] ^= 0x28 // the scale of the brightness
		var two [2]*ImgAsset
		for i, d := range [][]byte{j, k} {
			e, err := jpeg.Decode(bytes.NewReader(d))
			if err != nil {
				panic("harness: " + err.Error())
			}
			two[i] = &ImgAsset{Data: d, Img: e, Pic: imgx.FromImage(e), Kind: "jpeg rgb sibling"}
		}
		return two[0], two[1]
	}
	w, h := 20+r.Intn(60), 20+r.Intn(60)
	if r.Intn(4) == 0 {
		w, h = 200, 140
	}
	var two [2]*ImgAsset
	m := image.NewNRGBA(image.Rect(0, 0, w, h))
	alpha := r.Intn(2) == 0
	r.Read(m.Pix)
	for i := 3; i < len(m.Pix) && !alpha; i += 4 {
		m.Pix[i] = 255
	}
	at := len(m.Pix) - 4*(1+r.Intn(w))
	for k := range two {
		e := image.NewNRGBA(m.Rect)
		copy(e.Pix, m.Pix)
		if k == 1 {
			e.Pix[at] ^= 0xF0
			if alpha {
				e.Pix[at+3] ^= 0xF0
			}
		}
		var b bytes.Buffer
		enc := png.Encoder{CompressionLevel: png.NoCompression}
		if err := enc.Encode(&b, e); err != nil {
			panic("harness: " + err.Error())
		}
		two[k] = &ImgAsset{Data: append([]byte{}, b.Bytes()...), Img: e, Pic: imgx.FromImage(e), Kind: fmt.Sprintf("png ct%d sibling", map[bool]int{true: 6, false: 2}[alpha])}
	}
	return two[0], two[1]
}

// PDFAsset is a file to import pages from.
type PDFAsset struct {
	Data  []byte
	Ref   []byte // the same objects in a classic file, for the oracle
	Pages []SrcPage
	Box   [4]float64
	Desc  string
}

// SrcPage is one page of it.
type SrcPage struct {
	W, H      float64
	Box, Crop [4]float64
	Rot       int
	Obj       int
}
