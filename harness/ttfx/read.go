// Package ttfx is an independent TrueType reader and a builder of synthetic fonts.
package ttfx

import (
	"encoding/binary"
	"fmt"
	"sort"
)

type Table struct {
	Off, Len int
	Sum      uint32
}

type Font struct {
	Data                       []byte
	Tables                     map[string]Table
	Order                      []string
	UPEM                       int
	XMin, YMin, XMax, YMax     int
	LocFmt                     int
	Asc, Desc                  int // hhea
	NumHM                      int
	NumGlyphs                  int
	Adv                        []int
	LSB                        []int
	Cmap                       map[rune]int
	Kern                       map[[2]int]int
	TypoAsc, TypoDesc, TypoGap int
	WinAsc, WinDesc            int
	CapHeight, XHeight         int
	OS2Ver                     int
	FsType, FsSel              int
	UnderPos, UnderThick       int
	ItalicAngle                int
	Fixed                      bool
	PSName                     string
	Loca                       []int
	Problems                   []string
}

func u16(b []byte, o int) int { return int(binary.BigEndian.Uint16(b[o:])) }
func s16(b []byte, o int) int { return int(int16(binary.BigEndian.Uint16(b[o:]))) }
func u32(b []byte, o int) int { return int(binary.BigEndian.Uint32(b[o:])) }

func (f *Font) prob(format string, a ...interface{}) {
	f.Problems = append(f.Problems, fmt.Sprintf(format, a...))
}

// T returns the bytes of a table (nil when absent).
func (f *Font) T(tag string) []byte {
	t, ok := f.Tables[tag]
	if !ok {
		return nil
	}
	return f.Data[t.Off : t.Off+t.Len]
}

// Sum is the OpenType table checksum (zero padded to four bytes).
func Sum(b []byte) uint32 {
	var s uint32
	for i := 0; i < len(b); i += 4 {
		var w uint32
		for k := 0; k < 4; k++ {
			w <<= 8
			if i+k < len(b) {
				w |= uint32(b[i+k])
			}
		}
		s += w
	}
	return s
}

// Parse reads a font. subset relaxes which tables must exist (embedded programs have no cmap, name, OS/2, post).
func Parse(data []byte, subset bool) (f *Font, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("malformed font: %v", e)
		}
	}()
	f = &Font{Data: data, Tables: map[string]Table{}, Cmap: map[rune]int{}, Kern: map[[2]int]int{}}
	if u32(data, 0) != 0x00010000 {
		return nil, fmt.Errorf("bad sfnt version %x", data[:4])
	}
	n := u16(data, 4)
	sel := 0
	for 1<<(sel+1) <= n {
		sel++
	}
	if u16(data, 6) != 16<<sel || u16(data, 8) != sel || u16(data, 10) != n*16-(16<<sel) {
		f.prob("table directory search fields are %d %d %d for %d tables", u16(data, 6), u16(data, 8), u16(data, 10), n)
	}
	prev := ""
	for i := 0; i < n; i++ {
		o := 12 + 16*i
		tag := string(data[o : o+4])
		t := Table{Sum: uint32(u32(data, o+4)), Off: u32(data, o+8), Len: u32(data, o+12)}
		if tag <= prev {
			f.prob("table directory not sorted: %q after %q", tag, prev)
		}
		prev = tag
		if _, dup := f.Tables[tag]; dup {
			f.prob("duplicate table %q", tag)
		}
		if t.Off+t.Len > len(data) {
			return nil, fmt.Errorf("table %q runs past the end (%d+%d > %d)", tag, t.Off, t.Len, len(data))
		}
		if t.Len > 0 && t.Off%4 != 0 {
			f.prob("table %q not aligned: offset %d", tag, t.Off)
		}
		f.Tables[tag] = t
		f.Order = append(f.Order, tag)
		if tag != "head" {
			if s := Sum(data[t.Off : t.Off+t.Len]); s != t.Sum {
				f.prob("table %q checksum %08x, directory says %08x", tag, s, t.Sum)
			}
		}
	}
	// no overlap
	type iv struct {
		a, b int
		t    string
	}
	var ivs []iv
	for tag, t := range f.Tables {
		if t.Len > 0 {
			ivs = append(ivs, iv{t.Off, t.Off + t.Len, tag})
		}
	}
	sort.Slice(ivs, func(i, j int) bool { return ivs[i].a < ivs[j].a })
	for i := 1; i < len(ivs); i++ {
		if ivs[i].a < ivs[i-1].b {
			f.prob("tables %q and %q overlap", ivs[i-1].t, ivs[i].t)
		}
	}
	need := []string{"head", "hhea", "hmtx", "maxp", "loca", "glyf"}
	if !subset {
		need = append(need, "cmap", "name", "OS/2", "post")
	}
	for _, t := range need {
		if _, ok := f.Tables[t]; !ok {
			return nil, fmt.Errorf("no table %q", t)
		}
	}
	h := f.T("head")
	if u32(h, 12) != 0x5F0F3CF5 {
		f.prob("bad head magic")
	}
	f.UPEM = u16(h, 18)
	f.XMin, f.YMin, f.XMax, f.YMax = s16(h, 36), s16(h, 38), s16(h, 40), s16(h, 42)
	f.LocFmt = s16(h, 50)
	hh := f.T("hhea")
	f.Asc, f.Desc = s16(hh, 4), s16(hh, 6)
	f.NumHM = u16(hh, 34)
	f.NumGlyphs = u16(f.T("maxp"), 4)
	hm := f.T("hmtx")
	if f.NumHM < 1 || len(hm) < 4*f.NumHM+2*(f.NumGlyphs-f.NumHM) {
		f.prob("hmtx has %d bytes for %d metrics and %d glyphs", len(hm), f.NumHM, f.NumGlyphs)
	}
	for g := 0; g < f.NumGlyphs; g++ {
		if g < f.NumHM {
			f.Adv = append(f.Adv, u16(hm, 4*g))
			f.LSB = append(f.LSB, s16(hm, 4*g+2))
		} else {
			f.Adv = append(f.Adv, u16(hm, 4*(f.NumHM-1)))
			o := 4*f.NumHM + 2*(g-f.NumHM)
			if o+2 <= len(hm) {
				f.LSB = append(f.LSB, s16(hm, o))
			} else {
				f.LSB = append(f.LSB, 0)
			}
		}
	}
	lo := f.T("loca")
	if f.LocFmt == 0 {
		if len(lo) < 2*(f.NumGlyphs+1) {
			return nil, fmt.Errorf("loca too short")
		}
		for g := 0; g <= f.NumGlyphs; g++ {
			f.Loca = append(f.Loca, 2*u16(lo, 2*g))
		}
	} else {
		if len(lo) < 4*(f.NumGlyphs+1) {
			return nil, fmt.Errorf("loca too short")
		}
		for g := 0; g <= f.NumGlyphs; g++ {
			f.Loca = append(f.Loca, u32(lo, 4*g))
		}
	}
	gl := f.Tables["glyf"].Len
	for g := 0; g < f.NumGlyphs; g++ {
		if f.Loca[g] > f.Loca[g+1] || f.Loca[g+1] > gl {
			f.prob("loca of glyph %d is [%d,%d) in a glyf table of %d bytes", g, f.Loca[g], f.Loca[g+1], gl)
		}
	}
	if !subset {
		f.readCmap()
		f.readOther()
	}
	return f, nil
}

func (f *Font) readCmap() {
	c := f.T("cmap")
	n := u16(c, 2)
	for i := 0; i < n; i++ {
		p, e, o := u16(c, 4+8*i), u16(c, 6+8*i), u32(c, 8+8*i)
		if p == 3 && e == 1 && u16(c, o) == 4 {
			s := u16(c, o+6) / 2
			for k := 0; k < s; k++ {
				end := u16(c, o+14+2*k)
				st := u16(c, o+16+2*s+2*k)
				d := u16(c, o+16+4*s+2*k)
				rp := o + 16 + 6*s + 2*k
				ro := u16(c, rp)
				for ch := st; ch <= end && ch != 0xFFFF; ch++ {
					g := 0
					if ro == 0 {
						g = (ch + d) & 0xffff
					} else {
						g = u16(c, rp+ro+2*(ch-st))
						if g != 0 {
							g = (g + d) & 0xffff
						}
					}
					if g != 0 {
						f.Cmap[rune(ch)] = g
					}
				}
			}
		}
		if p == 3 && e == 10 && u16(c, o) == 12 {
			ng := u32(c, o+12)
			for k := 0; k < ng; k++ {
				a, b, g := u32(c, o+16+12*k), u32(c, o+20+12*k), u32(c, o+24+12*k)
				for ch := a; ch <= b; ch++ {
					if ch > 0xFFFF && g+ch-a != 0 {
						f.Cmap[rune(ch)] = g + ch - a
					}
				}
			}
		}
	}
}

func (f *Font) readOther() {
	p := f.T("post")
	f.ItalicAngle = s16(p, 4)
	f.UnderPos, f.UnderThick = s16(p, 8), s16(p, 10)
	f.Fixed = u32(p, 12) != 0
	o := f.T("OS/2")
	f.OS2Ver = u16(o, 0)
	f.FsType = u16(o, 8)
	f.FsSel = u16(o, 62)
	f.TypoAsc, f.TypoDesc, f.TypoGap = s16(o, 68), s16(o, 70), s16(o, 72)
	f.WinAsc, f.WinDesc = u16(o, 74), u16(o, 76)
	if f.OS2Ver >= 2 {
		f.XHeight, f.CapHeight = s16(o, 86), s16(o, 88)
	}
	nm := f.T("name")
	cnt, so := u16(nm, 2), u16(nm, 4)
	for i := 0; i < cnt; i++ {
		r := 6 + 12*i
		if u16(nm, r+6) == 6 {
			l, of := u16(nm, r+8), u16(nm, r+10)
			s := ""
			for _, b := range nm[so+of : so+of+l] {
				if b != 0 {
					s += string(rune(b))
				}
			}
			f.PSName = s
			break
		}
	}
	k := f.T("kern")
	if len(k) >= 4 && u16(k, 0) == 0 {
		n := u16(k, 2)
		at := 4
		for i := 0; i < n && at+14 <= len(k); i++ {
			l := u16(k, at+2)
			cov := u16(k, at+4)
			if cov>>8 == 0 {
				np := u16(k, at+6)
				for j := 0; j < np; j++ {
					q := at + 14 + 6*j
					if cov&7 != 1 { // vertical, minimum or cross-stream
						continue
					}
					if key := [2]int{u16(k, q), u16(k, q+2)}; cov&8 != 0 {
						f.Kern[key] = s16(k, q+4)
					} else {
						f.Kern[key] += s16(k, q+4)
					}
				}
				at += 14 + 6*np
			} else {
				at += l
			}
		}
	}
}

// GlyphBytes returns the glyf data of one glyph.
func (f *Font) GlyphBytes(g int) []byte {
	if g < 0 || g >= f.NumGlyphs {
		return nil
	}
	t := f.Tables["glyf"]
	return f.Data[t.Off+f.Loca[g] : t.Off+f.Loca[g+1]]
}

// Point of a flattened outline.
type Point struct {
	X, Y float64
	On   bool
	End  bool
}

// Outline flattens a glyph (components transformed) into its points.
func (f *Font) Outline(g int) (pts []Point, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("glyph %d: malformed: %v", g, e)
		}
	}()
	return f.outline(g, 0)
}

func (f *Font) outline(g, depth int) ([]Point, error) {
	if depth > 12 {
		return nil, fmt.Errorf("glyph %d: components nested too deep", g)
	}
	if g < 0 || g >= f.NumGlyphs {
		return nil, fmt.Errorf("glyph %d out of range", g)
	}
	b := f.GlyphBytes(g)
	if len(b) == 0 {
		return nil, nil
	}
	nc := s16(b, 0)
	if nc >= 0 {
		var ends []int
		o := 10
		for i := 0; i < nc; i++ {
			ends = append(ends, u16(b, o))
			o += 2
		}
		o += 2 + u16(b, o)
		np := 0
		if nc > 0 {
			np = ends[nc-1] + 1
		}
		var fl []byte
		for len(fl) < np {
			x := b[o]
			o++
			fl = append(fl, x)
			if x&8 != 0 {
				r := int(b[o])
				o++
				for ; r > 0; r-- {
					fl = append(fl, x)
				}
			}
		}
		pts := make([]Point, np)
		v := 0
		for i := 0; i < np; i++ {
			if fl[i]&2 != 0 {
				d := int(b[o])
				o++
				if fl[i]&16 == 0 {
					d = -d
				}
				v += d
			} else if fl[i]&16 == 0 {
				v += s16(b, o)
				o += 2
			}
			pts[i].X = float64(v)
			pts[i].On = fl[i]&1 != 0
		}
		v = 0
		for i := 0; i < np; i++ {
			if fl[i]&4 != 0 {
				d := int(b[o])
				o++
				if fl[i]&32 == 0 {
					d = -d
				}
				v += d
			} else if fl[i]&32 == 0 {
				v += s16(b, o)
				o += 2
			}
			pts[i].Y = float64(v)
		}
		for _, e := range ends {
			pts[e].End = true
		}
		return pts, nil
	}
	var out []Point
	o := 10
	for {
		fl := u16(b, o)
		cg := u16(b, o+2)
		o += 4
		var dx, dy float64
		if fl&1 != 0 {
			dx, dy = float64(s16(b, o)), float64(s16(b, o+2))
			o += 4
		} else {
			dx, dy = float64(int8(b[o])), float64(int8(b[o+1]))
			o += 2
		}
		a, bb, c, d := 1.0, 0.0, 0.0, 1.0
		f2 := func(o int) float64 { return float64(s16(b, o)) / 16384 }
		if fl&8 != 0 {
			a = f2(o)
			d = a
			o += 2
		} else if fl&64 != 0 {
			a, d = f2(o), f2(o+2)
			o += 4
		} else if fl&128 != 0 {
			a, bb, c, d = f2(o), f2(o+2), f2(o+4), f2(o+6)
			o += 8
		}
		sub, err := f.outline(cg, depth+1)
		if err != nil {
			return nil, err
		}
		for _, p := range sub {
			out = append(out, Point{X: a*p.X + c*p.Y + dx, Y: bb*p.X + d*p.Y + dy, On: p.On, End: p.End})
		}
		if fl&32 == 0 {
			break
		}
	}
	return out, nil
}

// IsComposite and Depth describe a glyph's structure.
func (f *Font) Depth(g int) int {
	b := f.GlyphBytes(g)
	if len(b) < 10 || s16(b, 0) >= 0 {
		return 0
	}
	m := 0
	for _, c := range f.Components(g) {
		if d := f.Depth(c); d > m {
			m = d
		}
	}
	return m + 1
}
func (f *Font) Components(g int) (out []int) {
	b := f.GlyphBytes(g)
	if len(b) < 10 || s16(b, 0) >= 0 {
		return nil
	}
	o := 10
	for {
		fl := u16(b, o)
		out = append(out, u16(b, o+2))
		o += 4
		if fl&1 != 0 {
			o += 4
		} else {
			o += 2
		}
		if fl&8 != 0 {
			o += 2
		} else if fl&64 != 0 {
			o += 4
		} else if fl&128 != 0 {
			o += 8
		}
		if fl&32 == 0 {
			return
		}
	}
}
