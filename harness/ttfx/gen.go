package ttfx

import "math/rand"

// GenOpt steers Gen.
type GenOpt struct {
	Runes   []rune // characters the font must have (in addition to generated ranges)
	Missing map[rune]bool
	Kern    bool
}

// Gen draws a well-formed font specification.
func Gen(r *rand.Rand, opt GenOpt) *Spec {
	s := &Spec{Map: map[rune]int{}}
	upems := []int{1000, 2048, 1024, 16, 512, 2000, 1600, 4096, 16384, 750, 997}
	s.UPEM = upems[r.Intn(len(upems))]
	em := s.UPEM
	scale := func(f float64) int { return int(f * float64(em)) }
	s.LongLoca = r.Intn(2) == 0
	s.Seg = r.Intn(3)
	s.Holes = r.Intn(2) == 0
	s.MacName = r.Intn(3) == 0
	var runes []rune
	seen := map[rune]bool{}
	addr := func(c rune) {
		if !seen[c] && !opt.Missing[c] && c != 0xFFFF && (c < 0xD800 || c > 0xDFFF) {
			seen[c] = true
			runes = append(runes, c)
		}
	}
	for c := rune(32); c < 127; c++ {
		addr(c)
	}
	for _, c := range opt.Runes {
		addr(c)
	}
	for k := r.Intn(6); k > 0; k-- {
		a := rune(0xA0 + r.Intn(0x3000))
		m := rune(r.Intn(12))
		switch r.Intn(8) {
		case 0: // the end of the plane, private use, far East
			a = []rune{0xFFF0, 0xF000, 0xE000, 0x7FF0, 0x9F00, 0xAC00}[r.Intn(6)] + rune(r.Intn(10))
			m = 14
		case 1: // a long run
			m = rune(40 + r.Intn(60))
		}
		for ; m >= 0; m-- {
			if a+m < 0x10000 {
				addr(a + m)
			}
		}
	}
	if r.Intn(80) == 0 { // thousands of characters
		a := rune(0x3400 + r.Intn(0x6000))
		for m := rune(800 + r.Intn(3000)); m >= 0; m-- {
			addr(a + m)
		}
	}
	sup := false
	if r.Intn(2) == 0 {
		s.Fmt12 = true
		if r.Intn(4) > 0 {
			sup = true
			for k := 1 + r.Intn(3); k > 0; k-- {
				a := rune(0x10000 + r.Intn(0x20000))
				for m := rune(r.Intn(8)); m >= 0; m-- {
					addr(a + m)
				}
			}
		}
	}
	for _, c := range runes {
		if c > 0xFFFF {
			sup = true
		}
	}
	if sup {
		s.Fmt12 = true
	}
	s.ExtraCmap = r.Intn(3) == 0
	// glyphs: 0 is .notdef; simple glyphs first, composites refer to any lower or higher glyph without cycles
	n := 2 + len(runes) + r.Intn(20)
	used := n // glyphs drawn for characters and parts; the rest, if any, is empty
	if r.Intn(150) == 0 {
		n = 32700 + r.Intn(32700)
	}
	simple := used / 2
	if simple < 2 {
		simple = 2
	}
	level := make([]int, n)
	perm := make([]int, n) // position of logical glyph
	for i := range perm {
		perm[i] = i
	}
	if n > 2 {
		r.Shuffle(n-1, func(i, j int) { perm[i+1], perm[j+1] = perm[j+1], perm[i+1] })
	}
	s.Glyphs = make([]GlyphSpec, n)
	for i := 0; i < n; i++ {
		g := GlyphSpec{Adv: scale(0.2 + r.Float64()*0.9)}
		if r.Intn(12) == 0 {
			g.Adv = 0
		}
		g.LSB = r.Intn(20) - 10
		switch {
		case i >= used:
		case i >= simple && r.Intn(3) > 0:
			nc := 1 + r.Intn(3)
			for k := 0; k < nc; k++ {
				c := Comp{DX: r.Intn(400) - 200, DY: r.Intn(400) - 200, Kind: r.Intn(4), Words: r.Intn(2) == 0}
				if r.Intn(2) == 0 {
					c.DX, c.DY = r.Intn(200)-100, r.Intn(200)-100
				}
				t := r.Intn(i)
				if r.Intn(2) == 0 && i > simple {
					t = simple + r.Intn(i-simple)
				}
				if level[t] >= 5 {
					t = r.Intn(simple)
				}
				if level[t]+1 > level[i] {
					level[i] = level[t] + 1
				}
				c.G = perm[t]
				for q := range c.M {
					c.M[q] = r.Intn(32768) - 16384
				}
				g.Comps = append(g.Comps, c)
			}
		case r.Intn(10) == 0: // empty
		default:
			nc := 1 + r.Intn(2)
			for k := 0; k < nc; k++ {
				var ct [][3]int
				for q := 3 + r.Intn(5); q > 0; q-- {
					m := em
					if m > 8000 {
						m = 8000
					}
					ct = append(ct, [3]int{r.Intn(m*2) - m/2, r.Intn(m*2) - m/2, r.Intn(2)})
				}
				g.Pts = append(g.Pts, ct)
			}
			g.Instr = r.Intn(5)
		}
		s.Glyphs[perm[i]] = g
	}
	// mapping
	avail := r.Perm(n - 1)
	ai := 0
	runs := r.Intn(3) == 0 // one glyph after the other, as most fonts have them
	for i, c := range runes {
		switch {
		case runs && i > 0 && c == runes[i-1]+1 && s.Map[runes[i-1]]+1 < n && r.Intn(60) > 0:
			s.Map[c] = s.Map[runes[i-1]] + 1
		case runs && i > 0 && c == runes[i-1]-1 && s.Map[runes[i-1]] > 1 && r.Intn(60) > 0: // drawn downwards
			s.Map[c] = s.Map[runes[i-1]] - 1
		case i > 0 && r.Intn(15) == 0 && c != ' ': // share a glyph
			s.Map[c] = s.Map[runes[r.Intn(i)]]
		case r.Intn(2) == 0 && i > 0 && s.Map[runes[i-1]]+1 < n: // runs of consecutive glyphs
			s.Map[c] = s.Map[runes[i-1]] + 1
		default:
			s.Map[c] = avail[ai%len(avail)] + 1
			ai++
		}
	}
	if n == used && r.Intn(5) == 0 { // every glyph has a character
		has := make([]bool, n)
		for _, g := range s.Map {
			has[g] = true
		}
		next := rune(0xE100)
		for g := 1; g < n; g++ {
			for !has[g] && (seen[next] || opt.Missing[next]) {
				next++
			}
			if !has[g] && next < 0xF8FF {
				s.Map[next] = g
				seen[next] = true
			}
		}
	}
	s.NumHM = n
	if r.Intn(2) == 0 {
		s.NumHM = 1 + r.Intn(n)
	}
	s.Asc, s.Desc = scale(0.7+0.3*r.Float64()), -scale(0.1+0.2*r.Float64())
	s.TypoAsc, s.TypoDesc, s.TypoGap = scale(0.6+0.4*r.Float64()), -scale(0.1+0.25*r.Float64()), scale(0.1)
	if s.TypoAsc == 0 {
		s.TypoAsc = 1
	}
	if s.TypoDesc == 0 {
		s.TypoDesc = -1
	}
	s.WinAsc, s.WinDesc = scale(0.8+0.4*r.Float64()), scale(0.15+0.25*r.Float64())
	s.OS2Ver = r.Intn(5)
	s.XHeight, s.CapHeight = scale(0.45), scale(0.6+0.15*r.Float64())
	if r.Intn(3) == 0 {
		s.FsType = []int{0, 4, 8}[r.Intn(3)]
	}
	s.FsSel = []int{64, 32, 1, 33}[r.Intn(4)]
	s.UnderPos, s.UnderThick = -scale(0.05+0.15*r.Float64()), scale(0.03+0.05*r.Float64())
	if r.Intn(3) == 0 {
		s.ItalicAngle = -r.Intn(20)
	}
	s.Fixed = r.Intn(4) == 0
	s.PSName = []string{"Synth", "SynthTest-Bold", "A", "Verify_Font-Italic"}[r.Intn(4)]
	sz := func() int {
		switch r.Intn(4) {
		case 0:
			return -1
		case 1:
			return 4 * r.Intn(5)
		default:
			return r.Intn(23)
		}
	}
	s.Cvt, s.Fpgm, s.Prep = sz(), sz(), sz()
	if s.Cvt > 0 {
		s.Cvt &^= 1
	}
	s.XMin, s.YMin, s.XMax, s.YMax = -scale(0.2), -scale(0.3), scale(1.1), scale(0.95)
	s.NoPad = r.Intn(4) == 0
	if opt.Kern || r.Intn(2) == 0 {
		nsub := 1
		if r.Intn(3) == 0 {
			nsub = 2 + r.Intn(2)
		}
		used := map[[2]int]bool{}
		for k := 0; k < nsub; k++ {
			if k > 0 && r.Intn(2) == 0 {
				used = map[[2]int]bool{} // the subtables may name the same pairs
			}
			var ps []KernPair
			for q := 5 + r.Intn(60); q > 0; q-- {
				l, rr := 1+r.Intn(n-1), 1+r.Intn(n-1)
				if r.Intn(2) == 0 {
					l, rr = s.Map[rune(33+r.Intn(90))], s.Map[rune(33+r.Intn(90))]
				}
				if used[[2]int{l, rr}] || l == 0 || rr == 0 {
					continue
				}
				used[[2]int{l, rr}] = true
				v := r.Intn(em/2+1) - em/4
				ps = append(ps, KernPair{l, rr, v})
			}
			s.Kern = append(s.Kern, ps)
			cov := []int{1, 1, 1, 1, 1, 9, 0, 3, 5, -1}[r.Intn(10)]
			if nsub == 1 && opt.Kern {
				cov = 1
			}
			s.KernCov = append(s.KernCov, cov)
		}
	}
	return s
}
