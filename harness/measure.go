package main

import "fmt"

// textEnv is what decides the width of a text.
type textEnv struct {
	A     *FontAsset
	Size  float64 // points
	Sp    float64 // points
	Kern  bool
	KernK int // override function, -1 none
	Subst rune
}

// sub is the character drawn for c and its glyph.
func (e *textEnv) sub(c rune) (rune, int, bool) {
	if g := e.A.Gid(c); g != 0 {
		return c, g, true
	}
	s := e.Subst
	if s == 0 {
		s = ' '
	}
	return s, e.A.Gid(s), false
}

// pair is the kerning between two drawn characters, in thousandths of the size.
func (e *textEnv) pair(l rune, lg int, r rune, rg int) float64 {
	if !e.Kern {
		return 0
	}
	v := e.A.F.Kern[[2]int{lg, rg}]
	if e.KernK >= 0 {
		v = int(kernFn(e.KernK)(l, r, uint(lg), uint(rg), int16(v)))
	}
	return float64(v) * 1000 / float64(e.A.F.UPEM)
}

// width is the exact width of a text and the rounding the library may apply.
func (e *textEnv) width(t []rune) (w, tol float64) {
	var pl rune
	var pg int
	for i, c := range t {
		c, g, _ := e.sub(c)
		if i > 0 {
			k := e.pair(pl, pg, c, g)
			if k != 0 {
				w += k
				tol += 1.01
			}
		}
		w += e.A.W(g)
		tol += 1.01
		pl, pg = c, g
	}
	return w*e.Size/1000 + float64(len(t))*e.Sp, tol*e.Size/1000 + 1e-6
}

// randTextEnv draws a font with its settings and the calls that bring a document into that state.
// famName names the fonts of a document, so that some names are parts of others.
func famName(i int) string {
	n := []string{"BAA", "BA", "ba", "A", "A.", "-a"}
	if i < len(n) {
		return n[i]
	}
	return fmt.Sprintf("A%d", i)
}

func famIndex(n string) int {
	i := 0
	for famName(i) != n {
		i++
	}
	return i
}

func randTextEnv(c *Case, sc *Script) *textEnv {
	r := c.R
	var a *FontAsset
	if r.Intn(4) == 0 {
		a = realFont(r.Intn(3))
	} else {
		a = randFont(r)
	}
	e := &textEnv{A: a, KernK: -1, Kern: r.Intn(2) == 0}
	e.Size = []float64{6, 8, 10, 12, 14, 18.25, 24, 7.123, 36, 100}[r.Intn(10)]
	if r.Intn(6) == 0 {
		e.Size = round3(1 + r.Float64()*90)
	}
	if r.Intn(3) == 0 {
		e.Sp = []float64{0.5, 1.25, 3, -0.5, 0.1, round3(r.Float64() * 4)}[r.Intn(6)]
	}
	i := len(sc.Fonts)
	sc.Fonts = append(sc.Fonts, a)
	sc.Desc = append(sc.Desc, a.Desc)
	fam := famName(i)
	o := Op{K: "addfont", S: []string{fam}, I: []int{i, r.Intn(4), 0, 0, 1, 0}}
	if e.Kern {
		o.I[3] = 1
	}
	if r.Intn(3) == 0 {
		e.Subst = a.Runes[r.Intn(len(a.Runes))]
		if r.Intn(5) == 0 {
			e.Subst = 0xE123 // perhaps missing itself
		}
		o.I[5] = int(e.Subst)
	}
	sc.Ops = append(sc.Ops, o)
	if r.Intn(4) == 0 {
		e.KernK = r.Intn(6)
		sc.Ops = append(sc.Ops, Op{K: "kernov", S: []string{fam}, I: []int{e.KernK}})
	}
	return e
}

func (e *textEnv) set(r interface{ Intn(int) int }, fam string) []Op {
	return []Op{{K: "setfont", S: []string{fam}, I: []int{0, r.Intn(2), r.Intn(5)}, N: []float64{e.Size}}, {K: "spacing", F: []float64{e.Sp}}}
}
