package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"

	"github.com/signintech/gopdf"
	"vmon/imgx"
	"vmon/ttfx"
)

// C24: damaged and hostile fonts and images are refused or work, without panic, endless loop or memory out of
// proportion to the input.

var extreme16 = []int{0, 1, 2, 3, 0x7f, 0xff, 0x100, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff}
var extreme32 = []uint32{0, 1, 2, 0xff, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffff0, 0xffffffff, 0xfffffffe, 1 << 24, 1 << 30}

func put16(b []byte, at, v int) {
	if at >= 0 && at+2 <= len(b) {
		binary.BigEndian.PutUint16(b[at:], uint16(v))
	}
}
func put32(b []byte, at int, v uint32) {
	if at >= 0 && at+4 <= len(b) {
		binary.BigEndian.PutUint32(b[at:], v)
	}
}
func get16(b []byte, at int) int {
	if at >= 0 && at+2 <= len(b) {
		return int(binary.BigEndian.Uint16(b[at:]))
	}
	return 0
}
func get32(b []byte, at int) int {
	if at >= 0 && at+4 <= len(b) {
		return int(binary.BigEndian.Uint32(b[at:]))
	}
	return 0
}

// mutateFont damages one thing in a font, aimed at its tables.
func mutateFont(r *rand.Rand, a *FontAsset, b []byte) ([]byte, string) {
	k := r.Intn(24)
	if k < 5 || len(b) < 12 {
		return mutate(r, b)
	}
	b = append([]byte{}, b...)
	n := get16(b, 4)
	if n == 0 || n > 60 {
		return mutate(r, b)
	}
	type tab struct {
		tag           string
		dir, off, len int
	}
	tabs := map[string]tab{}
	var order []tab
	for i := 0; i < n; i++ {
		d := 12 + 16*i
		if d+16 > len(b) {
			break
		}
		t := tab{string(b[d : d+4]), d, get32(b, d+8), get32(b, d+12)}
		tabs[t.tag] = t
		order = append(order, t)
	}
	if len(order) == 0 {
		return mutate(r, b)
	}
	e16 := func() int {
		if r.Intn(3) == 0 {
			return r.Intn(65536)
		}
		return extreme16[r.Intn(len(extreme16))]
	}
	e32 := func() uint32 {
		if r.Intn(3) == 0 {
			return uint32(r.Intn(len(b) + 100))
		}
		return extreme32[r.Intn(len(extreme32))]
	}
	t := order[r.Intn(len(order))]
	switch k {
	case 5, 6, 7, 8, 9: // a field near the start of a table
		at := t.off + 2*r.Intn(1+min(t.len, 20+r.Intn(60))/2)
		if r.Intn(3) == 0 {
			v := e32()
			put32(b, at, v)
			return b, fmt.Sprintf("%q+%d = %#x", t.tag, at-t.off, v)
		}
		v := e16()
		put16(b, at, v)
		return b, fmt.Sprintf("%q+%d = %#x", t.tag, at-t.off, v)
	case 10, 11: // a field anywhere in a table
		if t.len < 2 {
			return b, "nothing"
		}
		at := t.off + r.Intn(t.len)
		v := e16()
		put16(b, at, v)
		return b, fmt.Sprintf("%q+%d = %#x", t.tag, at-t.off, v)
	case 12, 13:
		v := e32()
		f := 8 + 4*r.Intn(2)
		if r.Intn(2) == 0 { // near the truth
			v = uint32(get32(b, t.dir+f) + r.Intn(9) - 4)
		}
		put32(b, t.dir+f, v)
		return b, fmt.Sprintf("directory of %q: field %d = %#x", t.tag, f, v)
	case 14: // no such table
		copy(b[t.dir:], "zzzz")
		return b, fmt.Sprintf("table %q is missing", t.tag)
	case 15:
		v := e16()
		put16(b, 4, v)
		return b, fmt.Sprintf("%d tables", v)
	case 16: // the file ends in or after a table
		end := t.off + r.Intn(t.len+8)
		if end > 0 && end < len(b) {
			return b[:end], fmt.Sprintf("ends within %q", t.tag)
		}
		return b[:len(b)-1-r.Intn(4)], "last bytes missing"
	case 17: // glyph offsets
		l := tabs["loca"]
		for i := 1 + r.Intn(4); i > 0; i-- {
			at := l.off + 2*r.Intn(1+l.len/2)
			put16(b, at, e16())
		}
		return b, "glyph offsets changed"
	case 18, 19: // hostile composite glyphs
		g := tabs["glyf"]
		f := a.F
		if f == nil || f.NumGlyphs < 2 {
			return b, "nothing"
		}
		for tries := 0; tries < 30; tries++ {
			id := r.Intn(f.NumGlyphs)
			if tries == 0 && len(a.Runes) > 0 {
				id = a.Gid(a.Runes[r.Intn(len(a.Runes))])
			}
			from, to := g.off+f.Loca[id], g.off+f.Loca[id+1]
			if to > len(b) || to-from < 14 {
				continue
			}
			put16(b, from, 0xffff)
			what := r.Intn(4)
			for at := from + 10; at+4 <= to; at += 6 {
				fl := 0x20
				c := id // itself
				switch what {
				case 1:
					c = r.Intn(f.NumGlyphs)
				case 2:
					c = e16()
				case 3:
					c = (id + 1) % f.NumGlyphs
					fl = e16()
				}
				put16(b, at, fl)
				put16(b, at+2, c)
			}
			return b, fmt.Sprintf("glyph %d made composite of kind %d", id, what)
		}
		return b, "nothing"
	case 20, 21: // hostile character map
		c := tabs["cmap"]
		for i := 0; i < get16(b, c.off+2); i++ {
			at := c.off + get32(b, c.off+8+8*i)
			if get16(b, at) == 4 {
				seg := get16(b, at+6) / 2
				w := r.Intn(6)
				for s := 0; s < seg; s++ {
					switch w {
					case 0: // every segment covers everything
						put16(b, at+14+2*s, 0xffff)
						put16(b, at+16+2*seg+2*s, 0)
					case 1:
						put16(b, at+14+2*s, 0xfffe)
						put16(b, at+16+2*seg+2*s, 0)
						put16(b, at+16+6*seg+2*s, 0)
					case 2:
						put16(b, at+16+6*seg+2*s, e16())
					case 3: // no segment reaches the end
						put16(b, at+14+2*s, 0x100)
					case 4:
						put16(b, at+14+2*s, 0xffff-s)
						put16(b, at+16+2*seg+2*s, 0)
					case 5:
						put16(b, at+16+4*seg+2*s, e16())
					}
				}
				return b, fmt.Sprintf("character map segments made hostile %d", w)
			}
			if get16(b, at) == 12 && r.Intn(2) == 0 {
				put32(b, at+12, e32())
				put32(b, at+16, 0)
				put32(b, at+20, 0xffffffff)
				return b, "character groups made hostile"
			}
		}
		return b, "nothing"
	case 22:
		m, h := tabs["maxp"], tabs["hhea"]
		if r.Intn(2) == 0 {
			put16(b, m.off+4, e16())
			return b, "number of glyphs changed"
		}
		put16(b, h.off+34, e16())
		return b, "number of metrics changed"
	default:
		if kt, ok := tabs["kern"]; ok {
			put16(b, kt.off+2*r.Intn(9), e16())
			return b, "kerning header changed"
		}
		put16(b, tabs["head"].off+18, e16())
		return b, "units per em changed"
	}
}

// hostileCmapFont is a large font whose character map invites quadratic work.
func hostileCmapFont(r *rand.Rand) []byte {
	a := synthFont(r, ttfx.GenOpt{})
	segs := 4000 + r.Intn(3500)
	var w bytes.Buffer
	u := func(v ...int) {
		for _, x := range v {
			binary.Write(&w, binary.BigEndian, uint16(x))
		}
	}
	length := 16 + 8*segs
	u(0, 1, 3, 1, 0, 12)
	u(4, length, 0, 2*segs, 0, 0, 0)
	for i := 0; i < segs; i++ {
		u(0xfffe)
	}
	u(0)
	for i := 0; i < 3*segs; i++ {
		u(0)
	}
	tabs := map[string][]byte{}
	for tag := range a.F.Tables {
		tabs[tag] = append([]byte{}, a.F.T(tag)...)
	}
	tabs["cmap"] = w.Bytes()
	return ttfx.Assemble(tabs, r, false)
}

// mutateImage damages one thing in an image, aimed at the format's structure.
func mutateImage(r *rand.Rand, b []byte) ([]byte, string) {
	if r.Intn(3) == 0 || len(b) < 33 {
		return mutate(r, b)
	}
	b = append([]byte{}, b...)
	huge := func() uint32 {
		if r.Intn(3) == 0 {
			return uint32(r.Intn(70000))
		}
		return extreme32[r.Intn(len(extreme32))]
	}
	switch {
	case string(b[1:4]) == "PNG":
		type ch struct {
			typ  string
			data []byte
		}
		var cs []ch
		for at := 8; at+12 <= len(b); {
			n := get32(b, at)
			if at+12+n > len(b) {
				break
			}
			cs = append(cs, ch{string(b[at+4 : at+8]), append([]byte{}, b[at+8:at+8+n]...)})
			at += 12 + n
		}
		if len(cs) < 2 {
			return mutate(r, b)
		}
		desc := ""
		lie := -1
		for i := 1 + r.Intn(2); i > 0; i-- {
			k := r.Intn(len(cs))
			switch r.Intn(12) {
			case 0, 1:
				put32(cs[0].data, 0, huge())
				desc += " width"
			case 2, 3:
				put32(cs[0].data, 4, huge())
				desc += " height"
			case 4:
				put32(cs[0].data, 0, uint32(20000+r.Intn(50000)))
				put32(cs[0].data, 4, uint32(20000+r.Intn(50000)))
				desc += " both"
			case 5:
				if len(cs[0].data) > 9 {
					cs[0].data[8+r.Intn(min(5, len(cs[0].data)-8))] = byte(r.Intn(17))
				}
				desc += " header"
			case 6:
				cs = append(cs[:k:k], cs[k+1:]...)
				desc += " chunk missing"
			case 7:
				cs = append(cs[:k:k], append([]ch{cs[k]}, cs[k:]...)...)
				desc += " chunk twice"
			case 8:
				j := r.Intn(len(cs))
				cs[k], cs[j] = cs[j], cs[k]
				desc += " chunks swapped"
			case 9:
				cs[k].data = cs[k].data[:r.Intn(len(cs[k].data)+1)]
				desc += " chunk " + cs[k].typ + " short"
			case 10:
				if len(cs[k].data) > 0 {
					cs[k].data[r.Intn(len(cs[k].data))] ^= byte(1 + r.Intn(255))
				}
				desc += " chunk " + cs[k].typ + " changed"
			default:
				lie = k
				desc += " chunk length"
			}
			if len(cs) == 0 {
				return b, "nothing"
			}
		}
		var w bytes.Buffer
		w.Write(b[:8])
		for i, c := range cs {
			n := uint32(len(c.data))
			if i == lie {
				n = huge()
			}
			binary.Write(&w, binary.BigEndian, n)
			w.WriteString(c.typ)
			w.Write(c.data)
			s := crc32.NewIEEE()
			s.Write([]byte(c.typ))
			s.Write(c.data)
			binary.Write(&w, binary.BigEndian, s.Sum32())
		}
		return w.Bytes(), "png" + desc
	case string(b[:3]) == "GIF":
		v := func() byte { return []byte{0, 0xff, 0x7f, byte(r.Intn(256))}[r.Intn(4)] }
		switch r.Intn(3) {
		case 0:
			b[6], b[7], b[8], b[9] = 0xff, 0xff, 0xff, 0xff
			for i := 10; i+9 < len(b); i++ {
				if b[i] == 0x2c && r.Intn(2) == 0 {
					b[i+5], b[i+6], b[i+7], b[i+8] = 0xff, 0xff, 0xff, 0xff
					break
				}
			}
			return b, "gif dimensions"
		case 1:
			b[6+r.Intn(7)] = v()
			return b, "gif header"
		default:
			i := 10 + r.Intn(len(b)-10)
			b[i] = v()
			return b, "gif byte"
		}
	default: // jpeg: segments
		for at := 2; at+9 < len(b) && b[at] == 0xff; {
			m := b[at+1]
			n := get16(b, at+2)
			if (m == 0xc0 || m == 0xc2) && r.Intn(2) == 0 {
				switch r.Intn(4) {
				case 0:
					put16(b, at+5, 0xffff)
					put16(b, at+7, 0xffff)
				case 1:
					put16(b, at+5, extreme16[r.Intn(len(extreme16))])
				case 2:
					b[at+9] = byte(r.Intn(6))
				default:
					b[at+4+r.Intn(max(1, min(n, len(b)-at-4)))] ^= byte(1 + r.Intn(255))
				}
				return b, "jpeg frame header"
			}
			if r.Intn(6) == 0 {
				if r.Intn(2) == 0 {
					put16(b, at+2, extreme16[r.Intn(len(extreme16))])
				} else if n > 3 {
					b[at+4+r.Intn(max(1, min(n-2, len(b)-at-4)))] ^= byte(1 + r.Intn(255))
				}
				return b, fmt.Sprintf("jpeg segment %x", m)
			}
			if m == 0xda {
				break
			}
			at += 2 + n
		}
		return mutate(r, b)
	}
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

// metered runs one call and watches what it costs.
func metered(c *Case, what string, size int, perByte uint64, f func() error) error {
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	t0 := cpuSeconds()
	err := f()
	t1 := cpuSeconds()
	runtime.ReadMemStats(&m1)
	if n := m1.TotalAlloc - m0.TotalAlloc; n > 256<<20+perByte*uint64(size) {
		c.Fail("memory:"+what, "%s of %d bytes allocates %d MB", what, size, n>>20)
	}
	if t1-t0 > 10 {
		c.Fail("slow:"+what, "%s of %d bytes takes %.1f CPU seconds", what, size, t1-t0)
	}
	return err
}

func hostileFonts(c *Case) {
	r := c.R
	n := 4
	for k := 0; k < n; k++ {
		a := synthFont(r, ttfx.GenOpt{Kern: r.Intn(2) == 0})
		if r.Intn(25) == 0 {
			a = realFont(r.Intn(len(realFonts)))
		}
		data := a.Data
		var desc []string
		if r.Intn(40) == 0 {
			data = hostileCmapFont(r)
			desc = []string{"overlapping segments"}
		} else {
			for i := 1 + r.Intn(2)*r.Intn(3); i > 0; i-- {
				var d string
				data, d = mutateFont(r, a, data)
				desc = append(desc, d)
			}
		}
		route := r.Intn(5)
		c.trace = func() string {
			return fmt.Sprintf("font %s damaged: %v, route %d\nfont data (hex): %x", a.Desc, desc, route, data)
		}
		g := &gopdf.GoPdf{}
		g.Start(gopdf.Config{PageSize: *gopdf.PageSizeA4})
		g.AddPage()
		good := synthFontCached(r)
		if err := g.AddTTFFontData("good", good.Data); err != nil {
			c.Fail("good-font", "a good font is refused: %v", err)
			return
		}
		opt := gopdf.TtfOption{UseKerning: r.Intn(2) == 0}
		err := metered(c, "adding a font", len(data), 4000, func() error {
			switch route {
			case 0:
				return g.AddTTFFontDataWithOption("bad", append([]byte{}, data...), opt)
			case 1:
				return g.AddTTFFontByReaderWithOption("bad", bytes.NewReader(data), opt)
			case 2:
				dir, _ := os.MkdirTemp("", "vmon")
				defer os.RemoveAll(dir)
				p := filepath.Join(dir, "f.ttf")
				os.WriteFile(p, data, 0644)
				return g.AddTTFFontWithOption("bad", p, opt)
			case 3:
				fc := &gopdf.FontContainer{}
				if err := fc.AddTTFFontDataWithOption("bad", append([]byte{}, data...), opt); err != nil {
					return err
				}
				return g.AddTTFFontFromFontContainer("bad", fc)
			default:
				return g.AddTTFFontDataWithOption("bad", append([]byte{}, data...), opt)
			}
		})
		c.Count("fonts", 1)
		if err != nil {
			c.Count("fonts refused", 1)
			c.Distinct("refused " + err.Error())
		} else {
			c.Count("fonts accepted", 1)
		}
		fam := "bad"
		if err != nil {
			fam = "good"
			if g.SetFont("bad", "", 12) == nil {
				c.Fail("refused-font-usable", "the font was refused (%v) and can be selected", err)
			}
		}
		var text strings.Builder
		rs := a.Runes
		for i := 0; i < 40 && len(rs) > 0; i++ {
			text.WriteRune(rs[r.Intn(len(rs))])
		}
		text.WriteString(" A\uFFFF\U0001F600\u00e9")
		for i := 0; i < 10; i++ {
			text.WriteRune(rune(32 + r.Intn(65500)))
		}
		s := text.String()
		metered(c, "using a font", len(data), 20000, func() error {
			if err := g.SetFontWithStyle(fam, gopdf.Underline*r.Intn(2), 12); err != nil {
				return err
			}
			g.SetXY(20, 30)
			g.Text(s)
			g.MeasureTextWidth(s)
			g.MeasureCellHeightByText(s)
			g.Cell(&gopdf.Rect{W: 100, H: 20}, s)
			g.CellWithOption(&gopdf.Rect{W: 100, H: 20}, s, gopdf.CellOption{Align: gopdf.Center | gopdf.Middle, Border: gopdf.AllBorders})
			g.SplitText(s, 50)
			g.SplitTextWithWordWrap(s, 50)
			g.IsFitMultiCell(&gopdf.Rect{W: 90, H: 40}, s)
			g.MultiCell(&gopdf.Rect{W: 90, H: 40}, s)
			g.IsCurrFontContainGlyph('x')
			return nil
		})
		if g.SetFont("good", "", 12) != nil {
			c.Fail("good-font", "the good font cannot be selected afterwards")
		}
		g.SetXY(20, 200)
		if err := g.Text("plain"); err != nil {
			c.Fail("good-font", "text with the good font fails afterwards: %v", err)
		}
		var out []byte
		metered(c, "writing a font", len(data), 20000, func() error {
			var err error
			out, err = g.GetBytesPdfReturnErr()
			if err != nil {
				c.Fail("output", "the document cannot be completed: %v", err)
			}
			return err
		})
		finished(c, out)
		if c.Failed() {
			return
		}
	}
	c.Sample("%d damaged fonts", n)
}

var goodFonts []*FontAsset

func synthFontCached(r *rand.Rand) *FontAsset {
	if len(goodFonts) == 0 {
		rr := rand.New(rand.NewSource(4711))
		for i := 0; i < 4; i++ {
			goodFonts = append(goodFonts, synthFont(rr, ttfx.GenOpt{}))
		}
	}
	return goodFonts[r.Intn(len(goodFonts))]
}

func finished(c *Case, out []byte) {
	if out == nil {
		return
	}
	d := parseOut(c, out)
	if d == nil {
		return
	}
	is, _ := structural(d)
	for _, x := range is.l {
		// damaged pixel or glyph data that was accepted is passed on as it is
		if strings.HasPrefix(x.Sig, "bad-stream:") || strings.HasPrefix(x.Sig, "font-program:") || strings.HasPrefix(x.Sig, "image:") && !strings.Contains(x.Sig, "bad-size") {
			c.Count("documents with damaged data passed on", 1)
			continue
		}
		c.Fail("after:"+x.Sig, "the finished document: %s", x.Msg)
	}
	c.Count("documents completed", 1)
}

func hostileImages(c *Case) {
	r := c.R
	g := &gopdf.GoPdf{}
	g.Start(gopdf.Config{PageSize: *gopdf.PageSizeA4})
	g.AddPage()
	n := 4 + r.Intn(8)
	mask := alphaImage(r)
	var all []string
	for k := 0; k < n; k++ {
		a := randImage(r)
		data := a.Data
		var desc []string
		for i := 1 + r.Intn(2)*r.Intn(2); i > 0; i-- {
			var d string
			data, d = mutateImage(r, data)
			desc = append(desc, d)
		}
		all = append(all, fmt.Sprintf("%s %v: %x", a.Kind, desc, data))
		c.trace = func() string { return strings.Join(all, "\n") }
		var rect *gopdf.Rect
		if r.Intn(2) == 0 {
			rect = &gopdf.Rect{W: 40, H: 30}
		}
		route := r.Intn(7)
		err := metered(c, "drawing an image", len(data), 300000, func() error {
			if route == 0 {
				dir, _ := os.MkdirTemp("", "vmon")
				defer os.RemoveAll(dir)
				p := filepath.Join(dir, "i.png")
				os.WriteFile(p, data, 0644)
				return g.Image(p, 10, 20, rect)
			}
			h, err := gopdf.ImageHolderByBytes(append([]byte{}, data...))
			if route == 1 {
				h, err = gopdf.ImageHolderByReader(bytes.NewReader(data))
			}
			if err != nil {
				return err
			}
			switch route {
			case 2: // as a mask
				m, err := gopdf.ImageHolderByBytes(mask.Data)
				if err != nil {
					return err
				}
				return g.ImageByHolderWithOptions(m, gopdf.ImageOptions{X: 5, Y: 5, Rect: &gopdf.Rect{W: 50, H: 50},
					Mask: &gopdf.MaskOptions{Holder: h, ImageOptions: gopdf.ImageOptions{X: 5, Y: 5, Rect: rect}}})
			case 3: // masked
				m, err := gopdf.ImageHolderByBytes(mask.Data)
				if err != nil {
					return err
				}
				return g.ImageByHolderWithOptions(h, gopdf.ImageOptions{X: 5, Y: 5, Rect: rect, DegreeAngle: 30, VerticalFlip: true,
					Mask: &gopdf.MaskOptions{Holder: m, ImageOptions: gopdf.ImageOptions{X: 5, Y: 5, Rect: &gopdf.Rect{W: 50, H: 50}}}})
			case 4: // the image object itself
				o := new(gopdf.ImageObj)
				if err := o.SetImage(bytes.NewReader(data)); err != nil {
					return err
				}
				return o.Parse()
			default:
				return g.ImageByHolder(h, 10, 20, rect)
			}
		})
		c.Count("images", 1)
		if err != nil {
			c.Count("images refused", 1)
			c.Distinct("refused " + err.Error())
		} else {
			c.Count("images accepted", 1)
		}
		if c.Failed() {
			return
		}
	}
	// after that a good image still works
	a := imgAsset(imgx.MakePNG(r, imgx.RandPNGSpec(r)))
	h, err := gopdf.ImageHolderByBytes(a.Data)
	if err == nil {
		err = g.ImageByHolder(h, 100, 100, &gopdf.Rect{W: 30, H: 30})
	}
	if err != nil {
		c.Fail("good-image", "a good image is refused afterwards: %v", err)
	}
	out, err := g.GetBytesPdfReturnErr()
	if err != nil {
		c.Fail("output", "the document cannot be completed: %v", err)
		return
	}
	finished(c, out)
	c.Sample("%d damaged images, %d bytes written", n, len(out))
}

func init() {
	register(&Check{ID: "C24", Quick: 4500, Deep: 200000, MemMB: 2500, Workers: 8, Rule: "fonts and images damaged by truncation, bit flips, extreme fields, moved and missing tables and chunks, hostile composite glyphs, character maps and dimensions; loaded by every route, used, and the document completed",
		Need: []string{"fonts refused", "fonts accepted", "images refused", "images accepted", "documents completed"},
		Run: func(c *Case) {
			if c.R.Intn(2) == 0 {
				hostileFonts(c)
			} else {
				hostileImages(c)
			}
		}})
}
