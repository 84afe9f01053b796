package ttfx

import (
	"encoding/binary"
	"math/rand"
	"sort"
)

type Comp struct {
	G      int
	DX, DY int
	Kind   int // 0 none, 1 scale, 2 xy scale, 3 2x2
	M      [4]int
	Words  bool
}

type GlyphSpec struct {
	Adv, LSB int
	Pts      [][][3]int // contours of x,y,on
	Comps    []Comp
	Instr    int
}

type KernPair struct{ L, R, V int }

type Spec struct {
	UPEM                       int
	Glyphs                     []GlyphSpec
	Map                        map[rune]int
	Seg                        int // 0 delta where possible, 1 glyphIdArray, 2 mixed
	Fmt12                      bool
	Kern                       [][]KernPair
	KernCov                    []int // coverage of each kerning subtable; -1: a subtable of format 2
	LongLoca                   bool
	NumHM                      int
	Asc, Desc                  int
	TypoAsc, TypoDesc, TypoGap int
	WinAsc, WinDesc            int
	OS2Ver                     int
	XHeight, CapHeight         int
	FsType, FsSel              int
	UnderPos, UnderThick       int
	ItalicAngle                int
	Fixed                      bool
	PSName                     string
	Cvt, Fpgm, Prep            int // sizes, -1 absent
	XMin, YMin, XMax, YMax     int
	Holes                      bool // segments with glyph arrays span characters the font lacks
	MacName                    bool // the names are in the Macintosh encoding, too, and first
	NoPad                      bool // last table of the file not padded
	ExtraCmap                  bool // a (1,0) format 0 subtable first
}

type wr struct{ b []byte }

func (w *wr) u8(v int)   { w.b = append(w.b, byte(v)) }
func (w *wr) u16(v int)  { w.b = append(w.b, byte(v>>8), byte(v)) }
func (w *wr) u32(v int)  { w.b = append(w.b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }
func (w *wr) s(s string) { w.b = append(w.b, s...) }

func glyphData(g GlyphSpec, rnd *rand.Rand) []byte {
	var w wr
	if len(g.Comps) > 0 {
		w.u16(0xffff)
		w.u16(0)
		w.u16(0)
		w.u16(500)
		w.u16(500)
		for i, c := range g.Comps {
			fl := 2 // args are xy
			if c.Words || c.DX > 127 || c.DX < -128 || c.DY > 127 || c.DY < -128 {
				fl |= 1
			}
			if i+1 < len(g.Comps) {
				fl |= 32
			}
			switch c.Kind {
			case 1:
				fl |= 8
			case 2:
				fl |= 64
			case 3:
				fl |= 128
			}
			w.u16(fl)
			w.u16(c.G)
			if fl&1 != 0 {
				w.u16(c.DX)
				w.u16(c.DY)
			} else {
				w.u8(c.DX)
				w.u8(c.DY)
			}
			switch c.Kind {
			case 1:
				w.u16(c.M[0])
			case 2:
				w.u16(c.M[0])
				w.u16(c.M[1])
			case 3:
				for k := 0; k < 4; k++ {
					w.u16(c.M[k])
				}
			}
		}
	} else if len(g.Pts) > 0 {
		x0, y0, x1, y1 := 1<<15-1, 1<<15-1, -1<<15, -1<<15
		for _, c := range g.Pts {
			for _, p := range c {
				x0, y0, x1, y1 = min(x0, p[0]), min(y0, p[1]), max(x1, p[0]), max(y1, p[1])
			}
		}
		w.u16(len(g.Pts))
		w.u16(x0)
		w.u16(y0)
		w.u16(x1)
		w.u16(y1)
		n := 0
		for _, c := range g.Pts {
			n += len(c)
			w.u16(n - 1)
		}
		w.u16(g.Instr)
		for i := 0; i < g.Instr; i++ {
			w.u8(0x4f)
		}
		var xs, ys wr
		px, py := 0, 0
		for _, c := range g.Pts {
			for _, p := range c {
				fl := p[2] & 1
				dx, dy := p[0]-px, p[1]-py
				px, py = p[0], p[1]
				if dx == 0 {
					fl |= 16
				} else if dx > -256 && dx < 256 {
					fl |= 2
					if dx > 0 {
						fl |= 16
						xs.u8(dx)
					} else {
						xs.u8(-dx)
					}
				} else {
					xs.u16(dx)
				}
				if dy == 0 {
					fl |= 32
				} else if dy > -256 && dy < 256 {
					fl |= 4
					if dy > 0 {
						fl |= 32
						ys.u8(dy)
					} else {
						ys.u8(-dy)
					}
				} else {
					ys.u16(dy)
				}
				w.u8(fl)
			}
		}
		w.b = append(w.b, xs.b...)
		w.b = append(w.b, ys.b...)
	}
	return w.b
}

func (s *Spec) cmap() []byte {
	var bmp, sup []rune
	for r := range s.Map {
		if r <= 0xFFFF {
			bmp = append(bmp, r)
		} else {
			sup = append(sup, r)
		}
	}
	sort.Slice(bmp, func(i, j int) bool { return bmp[i] < bmp[j] })
	sort.Slice(sup, func(i, j int) bool { return sup[i] < sup[j] })
	type seg struct {
		a, b  int
		array bool
		d     int
	}
	var segs []seg
	for i := 0; i < len(bmp); {
		j := i
		for j+1 < len(bmp) && bmp[j+1] == bmp[j]+1 {
			j++
		}
		if s.Holes && (s.Seg == 1 || s.Seg == 2 && len(segs)%2 == 0) {
			for j+1 < len(bmp) && bmp[j+1]-bmp[j] < 6 {
				j++
			}
		}
		run := bmp[i : j+1]
		// can it be split into delta runs
		switch {
		case s.Seg == 1, s.Seg == 2 && (len(segs)%2 == 0):
			segs = append(segs, seg{int(run[0]), int(run[len(run)-1]), true, 0})
		default:
			for k := 0; k < len(run); {
				m := k
				for m+1 < len(run) && s.Map[run[m+1]] == s.Map[run[m]]+1 {
					m++
				}
				segs = append(segs, seg{int(run[k]), int(run[m]), false, (s.Map[run[k]] - int(run[k])) & 0xffff})
				k = m + 1
			}
		}
		i = j + 1
	}
	segs = append(segs, seg{0xFFFF, 0xFFFF, false, 1})
	n := len(segs)
	var arr []int
	ro := make([]int, n)
	delta := make([]int, n)
	for i, sg := range segs {
		delta[i] = sg.d
		if sg.array {
			ro[i] = 2 * (n - i + len(arr))
			// half the array segments use a non-zero delta
			d := 0
			if i%2 == 1 {
				d = 7
				for c := sg.a; c <= sg.b; c++ {
					if s.Map[rune(c)] == d {
						d = 0
						break
					}
				}
			}
			delta[i] = d
			for c := sg.a; c <= sg.b; c++ {
				g, ok := s.Map[rune(c)]
				if !ok || g == 0 {
					arr = append(arr, 0)
				} else {
					arr = append(arr, (g-d)&0xffff)
				}
			}
		}
	}
	var f4 wr
	f4.u16(4)
	f4.u16(16 + 8*n + 2*len(arr))
	f4.u16(0)
	f4.u16(2 * n)
	sel := 0
	for 1<<(sel+1) <= n {
		sel++
	}
	f4.u16(2 << sel)
	f4.u16(sel)
	f4.u16(2*n - 2<<sel)
	for _, sg := range segs {
		f4.u16(sg.b)
	}
	f4.u16(0)
	for _, sg := range segs {
		f4.u16(sg.a)
	}
	for i := range segs {
		f4.u16(delta[i])
	}
	for i := range segs {
		f4.u16(ro[i])
	}
	for _, g := range arr {
		f4.u16(g)
	}
	var f12 wr
	if s.Fmt12 {
		var groups [][3]int
		all := append(append([]rune{}, bmp...), sup...)
		for i := 0; i < len(all); {
			j := i
			for j+1 < len(all) && all[j+1] == all[j]+1 && s.Map[all[j+1]] == s.Map[all[j]]+1 {
				j++
			}
			groups = append(groups, [3]int{int(all[i]), int(all[j]), s.Map[all[i]]})
			i = j + 1
		}
		f12.u16(12)
		f12.u16(0)
		f12.u32(16 + 12*len(groups))
		f12.u32(0)
		f12.u32(len(groups))
		for _, g := range groups {
			f12.u32(g[0])
			f12.u32(g[1])
			f12.u32(g[2])
		}
	}
	var f0 wr
	if s.ExtraCmap {
		f0.u16(0)
		f0.u16(262)
		f0.u16(0)
		for i := 0; i < 256; i++ {
			f0.u8(0)
		}
	}
	var w wr
	w.u16(0)
	type rec struct{ p, e, o int }
	var recs []rec
	var body []byte
	nr := 1
	if s.ExtraCmap {
		nr++
	}
	if s.Fmt12 {
		nr++
	}
	base := 4 + 8*nr
	if s.ExtraCmap {
		recs = append(recs, rec{1, 0, base + len(body)})
		body = append(body, f0.b...)
	}
	recs = append(recs, rec{3, 1, base + len(body)})
	body = append(body, f4.b...)
	if s.Fmt12 {
		recs = append(recs, rec{3, 10, base + len(body)})
		body = append(body, f12.b...)
	}
	w.u16(nr)
	for _, r := range recs {
		w.u16(r.p)
		w.u16(r.e)
		w.u32(r.o)
	}
	w.b = append(w.b, body...)
	return w.b
}

// Build makes the font file.
func Build(s *Spec, rnd *rand.Rand) []byte {
	n := len(s.Glyphs)
	tabs := map[string][]byte{}
	var glyf wr
	var loca []int
	for _, g := range s.Glyphs {
		loca = append(loca, len(glyf.b))
		d := glyphData(g, rnd)
		glyf.b = append(glyf.b, d...)
		if !s.LongLoca {
			for len(glyf.b)%2 != 0 {
				glyf.u8(0)
			}
		}
	}
	loca = append(loca, len(glyf.b))
	if len(glyf.b) > 2*65535 {
		s.LongLoca = true
	}
	tabs["glyf"] = glyf.b
	var lw wr
	for _, l := range loca {
		if s.LongLoca {
			lw.u32(l)
		} else {
			lw.u16(l / 2)
		}
	}
	tabs["loca"] = lw.b
	var h wr
	h.u32(0x00010000)
	h.u32(0x00010000)
	h.u32(0)
	h.u32(0x5F0F3CF5)
	h.u16(0x000b)
	h.u16(s.UPEM)
	for i := 0; i < 16; i++ {
		h.u8(0)
	}
	h.u16(s.XMin)
	h.u16(s.YMin)
	h.u16(s.XMax)
	h.u16(s.YMax)
	h.u16(0)
	h.u16(8)
	h.u16(2)
	if s.LongLoca {
		h.u16(1)
	} else {
		h.u16(0)
	}
	h.u16(0)
	tabs["head"] = h.b
	var hh wr
	hh.u32(0x00010000)
	hh.u16(s.Asc)
	hh.u16(s.Desc)
	for i := 0; i < 13; i++ {
		hh.u16(0)
	}
	hh.u16(s.NumHM)
	tabs["hhea"] = hh.b
	var hm wr
	for i, g := range s.Glyphs {
		if i < s.NumHM {
			hm.u16(g.Adv)
			hm.u16(g.LSB)
		} else {
			hm.u16(g.LSB)
		}
	}
	tabs["hmtx"] = hm.b
	var mx wr
	mx.u32(0x00010000)
	mx.u16(n)
	for i := 0; i < 13; i++ {
		mx.u16(4)
	}
	tabs["maxp"] = mx.b
	tabs["cmap"] = s.cmap()
	var nm wr
	nm.u16(0)
	names := []struct {
		id int
		s  string
	}{{1, "Fam"}, {4, "Full Name"}, {6, s.PSName}}
	mac := 0
	if s.MacName {
		mac = len(names)
	}
	nm.u16(len(names) + mac)
	nm.u16(6 + 12*(len(names)+mac))
	var strs []byte
	for _, x := range names[:mac] {
		nm.u16(1)
		nm.u16(0)
		nm.u16(0)
		nm.u16(x.id)
		nm.u16(len(x.s))
		nm.u16(len(strs))
		strs = append(strs, x.s...)
	}
	for _, x := range names {
		nm.u16(3)
		nm.u16(1)
		nm.u16(0x409)
		nm.u16(x.id)
		nm.u16(2 * len(x.s))
		nm.u16(len(strs))
		for _, c := range []byte(x.s) {
			strs = append(strs, 0, c)
		}
	}
	nm.b = append(nm.b, strs...)
	tabs["name"] = nm.b
	var o wr
	o.u16(s.OS2Ver)
	o.u16(500)
	o.u16(400)
	o.u16(5)
	o.u16(s.FsType)
	for i := 0; i < 11; i++ {
		o.u16(10 + i)
	}
	for i := 0; i < 10; i++ {
		o.u8(i)
	}
	for i := 0; i < 4; i++ {
		o.u32(1)
	}
	o.s("VRFY")
	o.u16(s.FsSel)
	o.u16(32)
	o.u16(0xfff0)
	o.u16(s.TypoAsc)
	o.u16(s.TypoDesc)
	o.u16(s.TypoGap)
	o.u16(s.WinAsc)
	o.u16(s.WinDesc)
	if s.OS2Ver >= 1 {
		o.u32(1)
		o.u32(0)
	}
	if s.OS2Ver >= 2 {
		o.u16(s.XHeight)
		o.u16(s.CapHeight)
		o.u16(0)
		o.u16(32)
		o.u16(2)
	}
	tabs["OS/2"] = o.b
	var p wr
	p.u32(0x00030000)
	p.u16(s.ItalicAngle)
	p.u16(0)
	p.u16(s.UnderPos)
	p.u16(s.UnderThick)
	if s.Fixed {
		p.u32(1)
	} else {
		p.u32(0)
	}
	for i := 0; i < 4; i++ {
		p.u32(0)
	}
	tabs["post"] = p.b
	add := func(tag string, k int) {
		if k < 0 {
			return
		}
		b := make([]byte, k)
		for i := range b {
			b[i] = byte(rnd.Intn(256))
		}
		tabs[tag] = b
	}
	add("cvt ", s.Cvt)
	add("fpgm", s.Fpgm)
	add("prep", s.Prep)
	if len(s.Kern) > 0 {
		var k wr
		k.u16(0)
		k.u16(len(s.Kern))
		for i, sub := range s.Kern {
			cov := 1
			if i < len(s.KernCov) {
				cov = s.KernCov[i]
			}
			if cov < 0 { // class based kerning, which is skipped by its length
				k.u16(0)
				k.u16(6 + 8 + 40)
				k.u16(0x0201)
				for j := 0; j < 24; j++ {
					k.u16(j * 3)
				}
				continue
			}
			ps := append([]KernPair{}, sub...)
			sort.Slice(ps, func(i, j int) bool {
				if ps[i].L != ps[j].L {
					return ps[i].L < ps[j].L
				}
				return ps[i].R < ps[j].R
			})
			k.u16(0)
			k.u16(14 + 6*len(ps))
			k.u16(cov)
			k.u16(len(ps))
			k.u16(0)
			k.u16(0)
			k.u16(0)
			for _, q := range ps {
				k.u16(q.L)
				k.u16(q.R)
				k.u16(q.V)
			}
		}
		tabs["kern"] = k.b
	}
	return Assemble(tabs, rnd, s.NoPad)
}

// Assemble lays tables out in a random physical order with a sorted directory.
func Assemble(tabs map[string][]byte, rnd *rand.Rand, noPad bool) []byte {
	var tags []string
	for t := range tabs {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	order := append([]string{}, tags...)
	if rnd != nil {
		rnd.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	}
	off := map[string]int{}
	at := 12 + 16*len(tags)
	var body []byte
	for i, t := range order {
		off[t] = at + len(body)
		body = append(body, tabs[t]...)
		if !(noPad && i == len(order)-1) {
			for len(body)%4 != 0 {
				body = append(body, 0)
			}
		}
	}
	var w wr
	w.u32(0x00010000)
	n := len(tags)
	sel := 0
	for 1<<(sel+1) <= n {
		sel++
	}
	w.u16(n)
	w.u16(16 << sel)
	w.u16(sel)
	w.u16(16*n - 16<<sel)
	headAt := 0
	for _, t := range tags {
		w.s(t)
		w.u32(int(Sum(tabs[t])))
		w.u32(off[t])
		w.u32(len(tabs[t]))
		if t == "head" {
			headAt = off[t]
		}
	}
	w.b = append(w.b, body...)
	if headAt > 0 {
		binary.BigEndian.PutUint32(w.b[headAt+8:], 0xB1B0AFBA-Sum(w.b))
	}
	return w.b
}
