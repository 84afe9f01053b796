// Package imgx makes images of every supported kind byte by byte, with the pixels they stand for,
// and reads image XObjects back from a PDF file.
package imgx

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"math/rand"

	"vmon/pdfr"
)

// Px is one pixel: RGB (Model "rgb") or CMYK (Model "cmyk") components and alpha, all 0..1.
type Px struct {
	C [4]float32
	A float32
}

// Pic is a decoded picture.
type Pic struct {
	W, H  int
	Model string // "rgb" or "cmyk"
	P     []Px
}

// Src is an image source with the picture it stands for.
type Src struct {
	Kind string
	Data []byte
	Img  image.Image // in-memory form (not nil)
	Pic  *Pic
}

// Diff describes the first difference of two pictures, "" if they agree.
func Diff(want, got *Pic, tol float32) string {
	if want.W != got.W || want.H != got.H {
		return fmt.Sprintf("size %dx%d, want %dx%d", got.W, got.H, want.W, want.H)
	}
	if want.Model != got.Model {
		return fmt.Sprintf("colour model %s, want %s", got.Model, want.Model)
	}
	for i := range want.P {
		a, b := want.P[i], got.P[i]
		if ab(a.A-b.A) > tol {
			return fmt.Sprintf("alpha at (%d,%d) is %.4f, want %.4f", i%want.W, i/want.W, b.A, a.A)
		}
		if a.A == 0 {
			continue
		}
		for k := range a.C {
			if ab(a.C[k]-b.C[k]) > tol {
				return fmt.Sprintf("colour at (%d,%d) is %.4v, want %.4v", i%want.W, i/want.W, b.C, a.C)
			}
		}
	}
	return ""
}
func ab(f float32) float32 {
	if f < 0 {
		return -f
	}
	return f
}

// PNGSpec selects a PNG encoding.
type PNGSpec struct {
	CT, Depth int
	W, H      int
	Trns      int // 0 none, 1 present
	ZeroIDAT  bool
	Extra     bool
	Split     int  // IDAT pieces
	Filter    int  // -1 random per row
	Pal       int  // palette size
	Suggest   bool // a palette in a true-colour file
}

func chunk(b *bytes.Buffer, typ string, d []byte) {
	var h [4]byte
	binary.BigEndian.PutUint32(h[:], uint32(len(d)))
	b.Write(h[:])
	b.WriteString(typ)
	b.Write(d)
	c := crc32.NewIEEE()
	c.Write([]byte(typ))
	c.Write(d)
	binary.BigEndian.PutUint32(h[:], c.Sum32())
	b.Write(h[:])
}

// RandPNGSpec draws a specification.
func RandPNGSpec(r *rand.Rand) PNGSpec {
	s := PNGSpec{}
	s.CT = []int{0, 2, 3, 4, 6}[r.Intn(5)]
	s.Depth = 8
	if s.CT == 0 || s.CT == 3 {
		s.Depth = []int{1, 2, 4, 8}[r.Intn(4)]
	}
	dim := func() int {
		switch r.Intn(8) {
		case 0:
			return 1
		case 1:
			return 2 + r.Intn(3)
		case 2:
			return 40 + r.Intn(60)
		}
		return 5 + r.Intn(20)
	}
	s.W, s.H = dim(), dim()
	if s.CT == 0 || s.CT == 2 || s.CT == 3 {
		s.Trns = r.Intn(2)
	}
	s.Split = 1
	if r.Intn(2) == 0 {
		s.Split = 1 + r.Intn(6)
	}
	s.ZeroIDAT = r.Intn(6) == 0
	s.Extra = r.Intn(2) == 0
	s.Filter = r.Intn(6) - 1
	if r.Intn(8) == 0 {
		s.Split = 7 + r.Intn(200) // pieces of a byte or two
	}
	s.Pal = 1 + r.Intn(1<<s.Depth)
	if r.Intn(4) == 0 {
		s.Pal = 1 << s.Depth
	}
	s.Suggest = (s.CT == 2 || s.CT == 6) && r.Intn(6) == 0
	return s
}

// MakePNG builds the file and the picture.
func MakePNG(r *rand.Rand, s PNGSpec) *Src {
	ch := map[int]int{0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[s.CT]
	maxv := 1<<s.Depth - 1
	var pal []byte
	var palA []byte
	if s.CT == 3 {
		pal = make([]byte, 3*s.Pal)
		r.Read(pal)
		if r.Intn(8) == 0 { // a palette of white space bytes
			for i := range pal {
				pal[i] = []byte{9, 10, 13, 32}[r.Intn(4)]
			}
		}
		if s.Trns == 1 {
			palA = make([]byte, 1+r.Intn(s.Pal))
			mode := r.Intn(4)
			for i := range palA {
				palA[i] = 255
				switch mode {
				case 0:
					palA[i] = byte(r.Intn(256))
				case 1:
					if r.Intn(3) == 0 {
						palA[i] = 0
					}
				}
			}
			if mode == 2 {
				palA[r.Intn(len(palA))] = 0
			}
			if mode == 3 {
				palA[r.Intn(len(palA))] = byte(1 + r.Intn(254))
			}
		}
	}
	samples := make([]int, s.W*s.H*ch)
	mode := r.Intn(3)
	for y := 0; y < s.H; y++ {
		for x := 0; x < s.W; x++ {
			for k := 0; k < ch; k++ {
				lim := maxv
				if s.CT == 3 {
					lim = s.Pal - 1
				}
				var v int
				switch mode {
				case 0:
					v = r.Intn(lim + 1)
				case 1:
					v = (x*3 + y*5 + k*7) % (lim + 1)
				default:
					v = (x / 3 * (k + 1) * 37) % (lim + 1)
				}
				samples[(y*s.W+x)*ch+k] = v
			}
		}
	}
	// colour key
	var key [3]int
	haveKey := false
	if s.Trns == 1 && (s.CT == 0 || s.CT == 2) {
		haveKey = true
		i := r.Intn(s.W*s.H) * ch
		for k := 0; k < ch; k++ {
			key[k] = samples[i+k]
		}
	}
	pic := &Pic{W: s.W, H: s.H, Model: "rgb", P: make([]Px, s.W*s.H)}
	for i := range pic.P {
		sm := samples[i*ch : i*ch+ch]
		f := func(v int) float32 { return float32(v) / float32(maxv) }
		p := Px{A: 1}
		switch s.CT {
		case 0, 4:
			p.C[0], p.C[1], p.C[2] = f(sm[0]), f(sm[0]), f(sm[0])
			if s.CT == 4 {
				p.A = f(sm[1])
			}
		case 2, 6:
			p.C[0], p.C[1], p.C[2] = f(sm[0]), f(sm[1]), f(sm[2])
			if s.CT == 6 {
				p.A = f(sm[3])
			}
		case 3:
			for k := 0; k < 3; k++ {
				p.C[k] = float32(pal[sm[0]*3+k]) / 255
			}
			if sm[0] < len(palA) {
				p.A = float32(palA[sm[0]]) / 255
			}
		}
		if haveKey && sm[0] == key[0] && (s.CT == 0 || (sm[1] == key[1] && sm[2] == key[2])) {
			p.A = 0
		}
		pic.P[i] = p
	}
	// raw rows
	rb := (s.W*ch*s.Depth + 7) / 8
	rows := make([][]byte, s.H)
	for y := range rows {
		row := make([]byte, rb)
		for i := 0; i < s.W*ch; i++ {
			v := samples[y*s.W*ch+i]
			bit := i * s.Depth
			row[bit/8] |= byte(v << (8 - s.Depth - bit%8))
		}
		rows[y] = row
	}
	bpp := ch * s.Depth / 8
	if bpp == 0 {
		bpp = 1
	}
	var raw bytes.Buffer
	prev := make([]byte, rb)
	for y := range rows {
		f := s.Filter
		if f < 0 {
			f = r.Intn(5)
		}
		raw.WriteByte(byte(f))
		cur := rows[y]
		for i := range cur {
			var a, b, c int
			if i >= bpp {
				a, c = int(cur[i-bpp]), int(prev[i-bpp])
			}
			b = int(prev[i])
			v := int(cur[i])
			switch f {
			case 1:
				v -= a
			case 2:
				v -= b
			case 3:
				v -= (a + b) / 2
			case 4:
				p := a + b - c
				pa, pb, pc := iabs(p-a), iabs(p-b), iabs(p-c)
				switch {
				case pa <= pb && pa <= pc:
					v -= a
				case pb <= pc:
					v -= b
				default:
					v -= c
				}
			}
			raw.WriteByte(byte(v))
		}
		prev = cur
	}
	var z bytes.Buffer
	zw, _ := zlib.NewWriterLevel(&z, r.Intn(10))
	zw.Write(raw.Bytes())
	zw.Close()
	var o bytes.Buffer
	o.WriteString("\x89PNG\r\n\x1a\n")
	ih := make([]byte, 13)
	binary.BigEndian.PutUint32(ih, uint32(s.W))
	binary.BigEndian.PutUint32(ih[4:], uint32(s.H))
	ih[8], ih[9] = byte(s.Depth), byte(s.CT)
	chunk(&o, "IHDR", ih)
	if s.Extra {
		chunk(&o, "gAMA", []byte{0, 0, 0xb1, 0x8f})
		if r.Intn(2) == 0 {
			chunk(&o, "tEXt", []byte("Comment\x00tRNS PLTE IDAT IEND"))
		}
		if r.Intn(3) == 0 {
			chunk(&o, "prVt", nil)
		}
		if r.Intn(2) == 0 {
			chunk(&o, "pHYs", []byte{0, 0, 0x0b, 0x13, 0, 0, 0x0b, 0x13, 1})
		}
	}
	if s.CT == 3 {
		chunk(&o, "PLTE", pal)
	}
	if s.Suggest {
		sp := make([]byte, 3*(1+r.Intn(20)))
		r.Read(sp)
		chunk(&o, "PLTE", sp)
	}
	if palA != nil {
		chunk(&o, "tRNS", palA)
	}
	if haveKey {
		var t []byte
		for k := 0; k < ch; k++ {
			t = append(t, byte(key[k]>>8), byte(key[k]))
		}
		chunk(&o, "tRNS", t)
	}
	d := z.Bytes()
	n := s.Split
	for i := 0; i < n; i++ {
		if s.ZeroIDAT && i == n/2 {
			chunk(&o, "IDAT", nil)
		}
		a, b := len(d)*i/n, len(d)*(i+1)/n
		if b > a {
			chunk(&o, "IDAT", d[a:b])
		}
	}
	if s.Extra && r.Intn(2) == 0 {
		chunk(&o, "tEXt", []byte("After\x00data"))
	}
	chunk(&o, "IEND", nil)
	kind := fmt.Sprintf("png ct%d d%d", s.CT, s.Depth)
	if palA != nil || haveKey {
		kind += " trns"
	}
	if s.ZeroIDAT {
		kind += " zero-idat"
	}
	src := &Src{Kind: kind, Data: append([]byte{}, o.Bytes()...), Pic: pic}
	src.Img = pic.Image()
	return src
}

func iabs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

// Image is the picture as an in-memory NRGBA image.
func (p *Pic) Image() image.Image {
	m := image.NewNRGBA(image.Rect(0, 0, p.W, p.H))
	for i, x := range p.P {
		c := x.C
		if p.Model == "cmyk" {
			for k := 0; k < 3; k++ {
				c[k] = (1 - c[k]) * (1 - c[3])
			}
		}
		m.SetNRGBA(i%p.W, i/p.W, color.NRGBA{u8(c[0]), u8(c[1]), u8(c[2]), u8(x.A)})
	}
	return m
}
func u8(f float32) uint8 { return uint8(f*255 + 0.5) }

// FromImage is the picture an in-memory image stands for.
func FromImage(m image.Image) *Pic {
	b := m.Bounds()
	p := &Pic{W: b.Dx(), H: b.Dy(), Model: "rgb"}
	if cm, ok := m.(*image.CMYK); ok {
		p.Model = "cmyk"
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				c := cm.CMYKAt(x, y)
				p.P = append(p.P, Px{C: [4]float32{float32(c.C) / 255, float32(c.M) / 255, float32(c.Y) / 255, float32(c.K) / 255}, A: 1})
			}
		}
		return p
	}
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			c := color.NRGBAModel.Convert(m.At(x, y)).(color.NRGBA)
			p.P = append(p.P, Px{C: [4]float32{float32(c.R) / 255, float32(c.G) / 255, float32(c.B) / 255, 0}, A: float32(c.A) / 255})
		}
	}
	return p
}

func randPix(r *rand.Rand, w, h int, set func(x, y int, v [4]uint8)) {
	mode := r.Intn(3)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			var v [4]uint8
			for k := range v {
				switch mode {
				case 0:
					v[k] = uint8(r.Intn(256))
				case 1:
					v[k] = uint8(x*11 + y*7 + k*50)
				default:
					v[k] = uint8((x / 4 * 60) + k*70)
				}
			}
			set(x, y, v)
		}
	}
}

// RandMem draws an in-memory image.
func RandMem(r *rand.Rand) (image.Image, string) {
	w, h := 1+r.Intn(30), 1+r.Intn(30)
	ox, oy := 0, 0
	if r.Intn(3) == 0 {
		ox, oy = r.Intn(20)-10, r.Intn(20)-10
	}
	b := image.Rect(ox, oy, ox+w, oy+h)
	var m image.Image
	kind := ""
	switch r.Intn(12) {
	case 8:
		t := image.NewCMYK(b)
		r.Read(t.Pix)
		m, kind = t, "CMYK"
	case 9:
		t := image.NewNYCbCrA(b, image.YCbCrSubsampleRatio444)
		r.Read(t.Y)
		r.Read(t.Cb)
		r.Read(t.Cr)
		for i := range t.A {
			t.A[i] = uint8(255 * r.Intn(2))
			if r.Intn(2) == 0 {
				t.A[i] = uint8(r.Intn(256))
			}
		}
		m, kind = t, "NYCbCrA"
	case 10:
		t := image.NewGray16(b)
		randPix(r, w, h, func(x, y int, v [4]uint8) { t.SetGray16(ox+x, oy+y, color.Gray16{uint16(v[0]) * 0x101}) })
		m, kind = t, "Gray16"
	case 11:
		t := image.NewNRGBA64(b)
		randPix(r, w, h, func(x, y int, v [4]uint8) {
			t.SetNRGBA64(ox+x, oy+y, color.NRGBA64{uint16(v[0]) * 0x101, uint16(v[1]) * 0x101, uint16(v[2]) * 0x101, uint16(v[3]) * 0x101})
		})
		m, kind = t, "NRGBA64"
	case 0:
		t := image.NewNRGBA(b)
		randPix(r, w, h, func(x, y int, v [4]uint8) { t.SetNRGBA(ox+x, oy+y, color.NRGBA{v[0], v[1], v[2], v[3]}) })
		m, kind = t, "NRGBA"
	case 1:
		t := image.NewNRGBA(b)
		randPix(r, w, h, func(x, y int, v [4]uint8) { t.SetNRGBA(ox+x, oy+y, color.NRGBA{v[0], v[1], v[2], 255}) })
		m, kind = t, "NRGBA opaque"
	case 2:
		t := image.NewRGBA(b)
		randPix(r, w, h, func(x, y int, v [4]uint8) { t.Set(ox+x, oy+y, color.NRGBA{v[0], v[1], v[2], v[3]}) })
		m, kind = t, "RGBA"
	case 3:
		t := image.NewGray(b)
		randPix(r, w, h, func(x, y int, v [4]uint8) { t.SetGray(ox+x, oy+y, color.Gray{v[0]}) })
		m, kind = t, "Gray"
	case 4:
		n := 1 + r.Intn(40)
		pal := make(color.Palette, n)
		al := r.Intn(3)
		for i := range pal {
			a := uint8(255)
			if al == 1 && r.Intn(3) == 0 {
				a = 0
			}
			if al == 2 {
				a = uint8(r.Intn(256))
			}
			pal[i] = color.NRGBA{uint8(r.Intn(256)), uint8(r.Intn(256)), uint8(r.Intn(256)), a}
		}
		t := image.NewPaletted(b, pal)
		randPix(r, w, h, func(x, y int, v [4]uint8) { t.SetColorIndex(ox+x, oy+y, v[0]%uint8(n)) })
		m, kind = t, fmt.Sprintf("Paletted alpha%d", al)
	case 5:
		t := image.NewYCbCr(image.Rect(0, 0, w, h), image.YCbCrSubsampleRatio420)
		r.Read(t.Y)
		r.Read(t.Cb)
		r.Read(t.Cr)
		m, kind = t, "YCbCr"
	case 6:
		t := image.NewAlpha(b)
		randPix(r, w, h, func(x, y int, v [4]uint8) { t.SetAlpha(ox+x, oy+y, color.Alpha{v[0]}) })
		m, kind = t, "Alpha"
	default:
		t := image.NewNRGBA(image.Rect(ox-3, oy-2, ox+w+4, oy+h+5))
		randPix(r, w+7, h+7, func(x, y int, v [4]uint8) { t.SetNRGBA(ox-3+x, oy-2+y, color.NRGBA{v[0], v[1], v[2], v[3]}) })
		m, kind = t.SubImage(b), "SubImage"
	}
	return m, kind
}

// MakeGIF builds a GIF file.
func MakeGIF(r *rand.Rand) *Src {
	w, h := 1+r.Intn(30), 1+r.Intn(30)
	n := 2 + r.Intn(40)
	pal := make(color.Palette, n)
	for i := range pal {
		pal[i] = color.RGBA{uint8(r.Intn(256)), uint8(r.Intn(256)), uint8(r.Intn(256)), 255}
	}
	tr := r.Intn(2) == 0
	if tr {
		pal[r.Intn(n)] = color.RGBA{}
	}
	t := image.NewPaletted(image.Rect(0, 0, w, h), pal)
	randPix(r, w, h, func(x, y int, v [4]uint8) { t.SetColorIndex(x, y, v[0]%uint8(n)) })
	g := &gif.GIF{Image: []*image.Paletted{t}, Delay: []int{0}, Config: image.Config{Width: w, Height: h}}
	if r.Intn(3) == 0 {
		t2 := image.NewPaletted(image.Rect(0, 0, w, h), pal)
		g.Image = append(g.Image, t2)
		g.Delay = append(g.Delay, 5)
	}
	var b bytes.Buffer
	if err := gif.EncodeAll(&b, g); err != nil {
		panic(err)
	}
	p := FromImage(t)
	k := "gif"
	if tr {
		k += " transparent"
	}
	return &Src{Kind: k, Data: append([]byte{}, b.Bytes()...), Pic: p, Img: t}
}

// MakeJPEG builds a grey, RGB or CMYK JPEG file.
func MakeJPEG(r *rand.Rand, kind int) *Src {
	w, h := 1+r.Intn(40), 1+r.Intn(40)
	var b bytes.Buffer
	k := ""
	switch kind {
	case 0:
		t := image.NewGray(image.Rect(0, 0, w, h))
		randPix(r, w, h, func(x, y int, v [4]uint8) { t.SetGray(x, y, color.Gray{v[0]}) })
		jpeg.Encode(&b, t, &jpeg.Options{Quality: 30 + r.Intn(70)})
		k = "jpeg grey"
	case 1:
		t := image.NewRGBA(image.Rect(0, 0, w, h))
		randPix(r, w, h, func(x, y int, v [4]uint8) { t.Set(x, y, color.NRGBA{v[0], v[1], v[2], 255}) })
		jpeg.Encode(&b, t, &jpeg.Options{Quality: 30 + r.Intn(70)})
		k = "jpeg rgb"
	default:
		b.Write(cmykJPEG(r, w, h))
		k = "jpeg cmyk"
	}
	m, err := jpeg.Decode(bytes.NewReader(b.Bytes()))
	if err != nil {
		panic(err)
	}
	return &Src{Kind: k, Data: append([]byte{}, b.Bytes()...), Pic: FromImage(m), Img: m}
}

// cmykJPEG writes a baseline four-component JPEG whose 8x8 blocks are flat (DC coefficients only).
func cmykJPEG(r *rand.Rand, w, h int) []byte {
	var b bytes.Buffer
	seg := func(m byte, d []byte) {
		b.Write([]byte{0xff, m, byte((len(d) + 2) >> 8), byte(len(d) + 2)})
		b.Write(d)
	}
	b.Write([]byte{0xff, 0xd8})
	seg(0xee, append([]byte("Adobe\x00\x64\x00\x00\x00\x00"), byte(2*r.Intn(2))))
	q := make([]byte, 65)
	for i := 1; i < 65; i++ {
		q[i] = 8
	}
	seg(0xdb, q)
	sof := []byte{8, byte(h >> 8), byte(h), byte(w >> 8), byte(w), 4}
	for c := byte(1); c <= 4; c++ {
		sof = append(sof, c, 0x11, 0)
	}
	seg(0xc0, sof)
	// DC table: 12 categories, all of length 4; AC table: only EOB, length 1
	dht := make([]byte, 17)
	dht[4] = 12
	for i := byte(0); i < 12; i++ {
		dht = append(dht, i)
	}
	seg(0xc4, dht)
	dht = make([]byte, 17)
	dht[0], dht[1] = 0x10, 1
	dht = append(dht, 0)
	seg(0xc4, dht)
	sos := []byte{4}
	for c := byte(1); c <= 4; c++ {
		sos = append(sos, c, 0)
	}
	seg(0xda, append(sos, 0, 63, 0))
	var acc uint32
	var nb uint
	put := func(v uint32, n uint) {
		for i := int(n) - 1; i >= 0; i-- {
			acc = acc<<1 | (v>>uint(i))&1
			nb++
			if nb == 8 {
				b.WriteByte(byte(acc))
				if byte(acc) == 0xff {
					b.WriteByte(0)
				}
				acc, nb = 0, 0
			}
		}
	}
	var last [4]int
	for my := 0; my < (h+7)/8; my++ {
		for mx := 0; mx < (w+7)/8; mx++ {
			for c := 0; c < 4; c++ {
				dc := r.Intn(256) - 128 // quantiser 8: level = dc + 128
				d := dc - last[c]
				last[c] = dc
				cat := uint(0)
				for v := iabs(d); v > 0; v >>= 1 {
					cat++
				}
				put(uint32(cat), 4)
				if cat > 0 {
					v := d
					if d < 0 {
						v = d + (1<<cat - 1)
					}
					put(uint32(v), cat)
				}
				put(0, 1)
			}
		}
	}
	for nb != 0 {
		put(1, 1)
	}
	b.Write([]byte{0xff, 0xd9})
	return b.Bytes()
}

// Rand draws a source of any kind that is embedded without loss.
func Rand(r *rand.Rand) *Src {
	switch r.Intn(8) {
	case 0:
		return MakeGIF(r)
	case 1:
		return MakeJPEG(r, 0)
	case 2:
		return MakeJPEG(r, 1)
	case 3:
		return MakeJPEG(r, 2)
	}
	return MakePNG(r, RandPNGSpec(r))
}

// FromPDF decodes an image XObject.
func FromPDF(d *pdfr.Doc, st *pdfr.Stream) (*Pic, error) {
	w, h := d.Int(st.D["Width"], -1), d.Int(st.D["Height"], -1)
	if w <= 0 || h <= 0 || w*h > 1<<26 {
		return nil, fmt.Errorf("bad size %dx%d", w, h)
	}
	bpc := d.Int(st.D["BitsPerComponent"], -1)
	if bpc != 1 && bpc != 2 && bpc != 4 && bpc != 8 {
		return nil, fmt.Errorf("bad BitsPerComponent %v", st.D["BitsPerComponent"])
	}
	var pal []byte
	hival := 0
	n := 0
	csn := ""
	switch cs := d.R(st.D["ColorSpace"]).(type) {
	case pdfr.Name:
		csn = string(cs)
		n = map[string]int{"DeviceGray": 1, "DeviceRGB": 3, "DeviceCMYK": 4}[csn]
	case pdfr.Array:
		if len(cs) == 4 && d.Name(cs[0]) == "Indexed" && d.Name(cs[1]) == "DeviceRGB" {
			csn, n = "Indexed", 1
			hival = d.Int(cs[2], -1)
			switch p := d.R(cs[3]).(type) {
			case *pdfr.Stream:
				b, err := d.Decode(p)
				if err != nil {
					return nil, err
				}
				pal = b
			case pdfr.Str:
				pal = p
			}
			if hival < 0 || hival > 255 || len(pal) < 3*(hival+1) {
				return nil, fmt.Errorf("palette of %d bytes for %d colours", len(pal), hival+1)
			}
		}
	}
	if n == 0 {
		return nil, fmt.Errorf("unknown colour space %v", st.D["ColorSpace"])
	}
	filter := d.R(st.D["Filter"])
	if a, ok := filter.(pdfr.Array); ok && len(a) == 1 {
		filter = d.R(a[0])
	}
	maxv := float32(int(1)<<bpc - 1)
	dec := d.Floats(st.D["Decode"])
	if st.D["Decode"] != nil && len(dec) != 2*n {
		return nil, fmt.Errorf("Decode has %d entries for %d components", len(dec), n)
	}
	samples := make([]int, 0, w*h*n)
	if filter == pdfr.Name("DCTDecode") {
		m, err := jpeg.Decode(bytes.NewReader(d.Bytes(st)))
		if err != nil {
			return nil, fmt.Errorf("DCT data: %v", err)
		}
		if m.Bounds().Dx() != w || m.Bounds().Dy() != h {
			return nil, fmt.Errorf("DCT data is %v, the dictionary says %dx%d", m.Bounds(), w, h)
		}
		b := m.Bounds()
		got := 3
		switch t := m.(type) {
		case *image.Gray:
			got = 1
			for y := b.Min.Y; y < b.Max.Y; y++ {
				for x := b.Min.X; x < b.Max.X; x++ {
					samples = append(samples, int(t.GrayAt(x, y).Y))
				}
			}
		case *image.CMYK:
			got = 4
			for y := b.Min.Y; y < b.Max.Y; y++ {
				for x := b.Min.X; x < b.Max.X; x++ {
					c := t.CMYKAt(x, y)
					// the samples of an Adobe CMYK JPEG are inverted
					samples = append(samples, 255-int(c.C), 255-int(c.M), 255-int(c.Y), 255-int(c.K))
				}
			}
		default:
			for y := b.Min.Y; y < b.Max.Y; y++ {
				for x := b.Min.X; x < b.Max.X; x++ {
					c := color.NRGBAModel.Convert(m.At(x, y)).(color.NRGBA)
					samples = append(samples, int(c.R), int(c.G), int(c.B))
				}
			}
		}
		if got != n {
			return nil, fmt.Errorf("DCT data has %d components, the colour space %d", got, n)
		}
	} else {
		b, err := d.Decode(st)
		if err != nil {
			return nil, err
		}
		rb := (w*n*bpc + 7) / 8
		if len(b) < rb*h {
			return nil, fmt.Errorf("image data has %d bytes, %d needed", len(b), rb*h)
		}
		for y := 0; y < h; y++ {
			row := b[y*rb:]
			for i := 0; i < w*n; i++ {
				bit := i * bpc
				samples = append(samples, int(row[bit/8]>>(8-bpc-bit%8))&(1<<bpc-1))
			}
		}
	}
	p := &Pic{W: w, H: h, Model: "rgb", P: make([]Px, w*h)}
	if n == 4 {
		p.Model = "cmyk"
	}
	for i := range p.P {
		sm := samples[i*n : i*n+n]
		x := Px{A: 1}
		val := func(k int) float32 {
			f := float32(sm[k]) / maxv
			if dec != nil {
				f = float32(dec[2*k]) + f*float32(dec[2*k+1]-dec[2*k])
			}
			return f
		}
		switch csn {
		case "DeviceGray":
			x.C[0], x.C[1], x.C[2] = val(0), val(0), val(0)
		case "DeviceRGB":
			x.C[0], x.C[1], x.C[2] = val(0), val(1), val(2)
		case "DeviceCMYK":
			x.C = [4]float32{val(0), val(1), val(2), val(3)}
		case "Indexed":
			if sm[0] > hival {
				return nil, fmt.Errorf("palette index %d of %d", sm[0], hival+1)
			}
			for k := 0; k < 3; k++ {
				x.C[k] = float32(pal[sm[0]*3+k]) / 255
			}
		}
		p.P[i] = x
	}
	if mk := d.R(st.D["Mask"]); mk != nil {
		a := d.Floats(mk)
		if len(a) != 2*n {
			return nil, fmt.Errorf("Mask has %d entries for %d components", len(a), n)
		}
		for i := range p.P {
			in := true
			for k := 0; k < n; k++ {
				v := float64(samples[i*n+k])
				if v < a[2*k] || v > a[2*k+1] {
					in = false
				}
			}
			if in {
				p.P[i].A = 0
			}
		}
	}
	if sm := d.R(st.D["SMask"]); sm != nil {
		ss, ok := sm.(*pdfr.Stream)
		if !ok {
			return nil, fmt.Errorf("SMask is not a stream")
		}
		if d.Name(ss.D["ColorSpace"]) != "DeviceGray" {
			return nil, fmt.Errorf("SMask colour space %v", ss.D["ColorSpace"])
		}
		q, err := FromPDF(d, ss)
		if err != nil {
			return nil, fmt.Errorf("SMask: %v", err)
		}
		if q.W != w || q.H != h {
			return nil, fmt.Errorf("SMask is %dx%d, image %dx%d", q.W, q.H, w, h)
		}
		for i := range p.P {
			p.P[i].A = q.P[i].C[0]
		}
	}
	return p, nil
}
