package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
)

// C10: line splitting.

// splitText draws a text for line breaking.
func splitAlphabet(r *rand.Rand, e *textEnv, max int, ind rune) []rune {
	n := 1 + r.Intn(max)
	if r.Intn(4) == 0 {
		n = 1 + r.Intn(6)
	}
	var pool []rune
	for i := 1 + r.Intn(8); i > 0; i-- {
		switch r.Intn(4) {
		case 0:
			pool = append(pool, rune('a'+r.Intn(26)))
		case 1:
			if len(e.A.Kerny) > 0 {
				pool = append(pool, e.A.Kerny[r.Intn(len(e.A.Kerny))])
			}
		default:
			pool = append(pool, e.A.Runes[r.Intn(len(e.A.Runes))])
		}
	}
	pool = append(pool, 'i')
	missing := r.Intn(5) == 0
	brk := []int{0, 3, 6, 15}[r.Intn(4)]
	nl := []int{0, 0, 8, 30, 3}[r.Intn(5)]
	var t []rune
	for i := 0; i < n; i++ {
		c := pool[r.Intn(len(pool))]
		switch {
		case brk > 0 && r.Intn(brk) == 0:
			c = ' '
			if ind != 0 && r.Intn(2) == 0 {
				c = ind
			}
		case nl > 0 && r.Intn(nl) == 0:
			c = '\n'
		case missing && r.Intn(7) == 0:
			c = rune(0xE000 + r.Intn(0x100))
			if r.Intn(3) == 0 {
				c = rune(0x1F600 + r.Intn(30))
			}
		}
		t = append(t, c)
	}
	return t
}

// splitJudge checks the lines of a split.
func splitJudge(c *Case, e *textEnv, text []rune, width float64, word bool, ind rune, sep string, lines []string, where string) {
	// 1. every character once and in order: positions the text can have after each line
	sepR := []rune(sep)
	type st struct{ pos int }
	reach := map[int]bool{0: true}
	// how each line can be cut: state = position in text; a line covers text[p:p+k] plus perhaps the
	// separator, then perhaps a newline or, in word mode, the indicator is consumed
	match := func(p int, l []rune) []int {
		var o []int
		if p+len(l) <= len(text) && string(text[p:p+len(l)]) == string(l) && !strings.ContainsRune(string(l), '\n') {
			o = append(o, p+len(l))
		}
		if k := len(l) - len(sepR); len(sepR) > 0 && k >= 0 && string(l[k:]) == sep && p+k <= len(text) && string(text[p:p+k]) == string(l[:k]) && !strings.ContainsRune(string(l[:k]), '\n') {
			o = append(o, p+k)
		}
		return o
	}
	plain := len(sepR) == 0
	// had tells whether the line text[p:q] (with the separator behind it) had to end before text[q]
	over := func(l []rune, sep bool) bool {
		if sep {
			l = append(append([]rune{}, l...), sepR...)
		}
		w, tol := e.width(l)
		return w > width-2*tol-1e-6
	}
	had := func(p, q int, sep bool) bool {
		if q >= len(text) || text[q] == '\n' {
			return !sep
		}
		if sep {
			if q+1 >= len(text) || text[q+1] == '\n' {
				return over(text[p:q+1], false)
			}
			// the separator may be measured by itself, without the kerning before it
			wl, tl := e.width(text[p : q+2])
			ws, ts := e.width(sepR)
			return over(text[p:q+1], true) || over(text[p:q+2], true) || over(text[p:q+2], false) || wl+ws > width-2*(tl+ts)-1e-6
		}
		if over(text[p:q+1], false) {
			return true
		}
		if !word || text[q] != ind {
			return false
		}
		for k := q + 1; k < len(text) && text[k] != '\n'; k++ {
			if over(text[p:k+1], false) {
				return true
			}
			if text[k] == ind {
				break
			}
		}
		return false
	}
	for i, ls := range lines {
		l := []rune(ls)
		next := map[int]bool{}
		early := ""
		for p := range reach {
			for _, q := range match(p, l) {
				if !had(p, q, q-p < len(l)) {
					early = fmt.Sprintf("%q, followed by %q", string(text[p:q]), cut(string(text[q:]), 40))
					continue
				}
				if q == len(text) || text[q] != '\n' {
					next[q] = true
				}
				if q < len(text) && (text[q] == '\n' || word && text[q] == ind && len(l) > 0) {
					next[q+1] = true
				}
			}
		}
		if len(next) == 0 && early != "" {
			c.Fail("early", "%s: line %d is broken although more fits: %s (lines %q)", where, i, early, cutLines(lines))
			return
		}
		if len(next) == 0 {
			c.Fail("lost", "%s: line %d %q does not continue the text %q at %v (lines %q)", where, i, ls, cut(string(text), 200), posList(reach), cutLines(lines))
			return
		}
		// 2. width
		w, tol := e.width(l)
		single := len(l) <= 1 || len(l) == 1+len(sepR) && strings.HasSuffix(ls, sep)
		if w > width+tol {
			if !single {
				c.Fail("overflow", "%s: line %d %q is %.4f wide, the width is %.4f", where, i, ls, w, width)
				return
			}
			if len(l) > 1 {
				// a separator where only one character fits
				c.Fail("overflow-separator", "%s: line %d %q with its separator is %.4f wide, the width is %.4f", where, i, ls, w, width)
				return
			}
			c.Count("single character lines too wide", 1)
		} else if w > width-tol-e.Size/20 {
			c.Count("lines that just fit", 1)
		}
		// 3. a line of a word-wrapped text that does not end at a newline, at the indicator or at the end must
		// have no indicator to break at
		if plain && word && len(reach) >= 1 {
			bad := true
			for p := range reach {
				for _, q := range match(p, l) {
					if q == len(text) || text[q] == '\n' || text[q] == ind || !hasAfter(l, ind) {
						bad = false
					}
				}
			}
			if bad {
				c.Fail("indicator", "%s: line %d %q is not broken at an indicator although it contains one (text %q)", where, i, ls, cut(string(text), 200))
				return
			}
			if hasAfter(l, ind) {
				c.Count("lines with an indicator inside", 1)
			}
		}
		reach = next
	}
	ok := false
	for p := range reach {
		ok = ok || p == len(text) || p == len(text)-1 && text[p] == '\n'
	}
	// what is left can only be newlines
	if !ok {
		for p := range reach {
			rest := strings.Trim(string(text[p:]), "\n")
			if rest == "" {
				ok = true
			}
		}
	}
	if !ok {
		c.Fail("lost-end", "%s: the lines %q end at %v of %d characters of %q", where, cutLines(lines), posList(reach), len(text), cut(string(text), 200))
		return
	}
	// 4. a newline always starts a new line: at least as many lines as newline separated parts with text
	parts := 0
	for _, p := range strings.Split(string(text), "\n") {
		if p != "" {
			parts++
		}
	}
	if len(lines) < parts {
		c.Fail("newline", "%s: %d lines for %d newline separated parts", where, len(lines), parts)
	}
	c.Count("lines", len(lines))
}

func hasAfter(l []rune, ind rune) bool {
	for i := 1; i < len(l); i++ {
		if l[i] == ind {
			return true
		}
	}
	return false
}

func posList(m map[int]bool) []int {
	var o []int
	for k := range m {
		o = append(o, k)
	}
	for i := 1; i < len(o); i++ {
		for j := i; j > 0 && o[j] < o[j-1]; j-- {
			o[j], o[j-1] = o[j-1], o[j]
		}
	}
	return o
}

func cutLines(l []string) []string {
	if len(l) > 12 {
		return append(append([]string{}, l[:12]...), "...")
	}
	return l
}

func init() {
	register(&Check{ID: "C10", Quick: 20000, Deep: 250000, Rule: "random texts (newlines, missing characters, kerning pairs, any indicator), widths from below zero to everything, break modes, indicators and separators, over random fonts, sizes, spacings and units",
		Need: []string{"lines", "splits", "word mode", "with separator", "single character lines too wide", "lines that just fit", "kerning", "lines with an indicator inside", "separated lines"},
		Run: func(c *Case) {
			r := c.R
			sc := &Script{Cfg: Cfg{W: 600, H: 800}}
			e := randTextEnv(c, sc)
			sc.Ops = append(sc.Ops, Op{K: "addpage"})
			sc.Ops = append(sc.Ops, e.set(r, famName(0))...)
			type job struct {
				text  []rune
				width float64
				word  bool
				ind   rune
				sep   string
			}
			jobs := map[int]job{}
			max := 120
			if c.Thorough() {
				max = []int{60, 120, 400}[r.Intn(3)]
			}
			for i := 0; i < 8; i++ {
				var j job
				how := r.Intn(4)
				switch how {
				case 1:
					j.word, j.ind = true, ' '
				case 2, 3:
					j.word = r.Intn(2) == 0
					j.ind = []rune{' ', '-', e.A.Runes[r.Intn(len(e.A.Runes))], 0, 'i'}[r.Intn(5)]
					if r.Intn(3) > 0 {
						j.sep = []string{"-", "--", " ", "i", "...", "x\u2026"}[r.Intn(6)]
					}
				}
				j.text = splitAlphabet(r, e, max, j.ind)
				full, _ := e.width(j.text)
				switch r.Intn(8) {
				case 0:
					j.width = round3(r.Float64() * e.Size)
				case 1:
					j.width = []float64{0, -3, 1e9, 0.01}[r.Intn(4)]
				case 2: // exactly some prefix
					k := 1 + r.Intn(len(j.text))
					j.width, _ = e.width(j.text[:k])
				case 3:
					j.width = full
				default:
					j.width = round3(e.Size * (0.5 + r.Float64()*20))
				}
				op := Op{K: "split", F: []float64{j.width}, S: []string{string(j.text)}}
				switch how {
				case 0:
					op.I = []int{0}
				case 1:
					op.I = []int{1}
				default:
					m := 0
					if j.word {
						m = 1
					}
					op.I = []int{2, m, int(j.ind)}
					op.S = append(op.S, j.sep)
				}
				jobs[len(sc.Ops)] = j
				sc.Ops = append(sc.Ops, op)
			}
			unit := randUnit(r)
			c.trace = func() string { return fmt.Sprintf("unit %+v kern %v override %d\n%s", unit, e.Kern, e.KernK, sc) }
			v, _ := runScript(sc, unit, nil)
			for _, rec := range v.Recs {
				j, ok := jobs[rec.I]
				if !ok {
					continue
				}
				if rec.Err != "" {
					c.Fail("error", "split of %q into %.3f: %s", cut(string(j.text), 200), j.width, rec.Err)
					continue
				}
				if math.IsNaN(j.width) {
					continue
				}
				c.Count("splits", 1)
				if j.word {
					c.Count("word mode", 1)
				}
				if e.Kern {
					c.Count("kerning", 1)
				}
				if j.sep != "" {
					c.Count("with separator", 1)
					for _, l := range rec.S {
						if strings.HasSuffix(l, j.sep) {
							c.Count("separated lines", 1)
						}
					}
				}
				c.Distinct(fmt.Sprintf("%v %v %q %d", j.word, j.ind, j.sep, len(rec.S)))
				splitJudge(c, e, j.text, j.width, j.word, j.ind, j.sep, rec.S, fmt.Sprintf("split of %d characters into %.4f (word %v, indicator %q, separator %q)", len(j.text), j.width, j.word, j.ind, j.sep))
			}
		}})
}
