package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/signintech/gopdf"
)

// C27: Arabic shaping keeps every letter and picks the right form.

// arLetter is a letter with its joining type (D dual, R to the letter before only, U none, C causes
// joining) and its presentation forms isolated, final, initial, medial, from the Unicode charts.
type arLetter struct {
	typ   byte
	forms [4]rune
}

var arTable = map[rune]arLetter{
	0x621: {'U', [4]rune{0xFE80}}, 0x622: {'R', [4]rune{0xFE81, 0xFE82}}, 0x623: {'R', [4]rune{0xFE83, 0xFE84}},
	0x624: {'R', [4]rune{0xFE85, 0xFE86}}, 0x625: {'R', [4]rune{0xFE87, 0xFE88}}, 0x626: {'D', [4]rune{0xFE89, 0xFE8A, 0xFE8B, 0xFE8C}},
	0x627: {'R', [4]rune{0xFE8D, 0xFE8E}}, 0x628: {'D', [4]rune{0xFE8F, 0xFE90, 0xFE91, 0xFE92}}, 0x629: {'R', [4]rune{0xFE93, 0xFE94}},
	0x62A: {'D', [4]rune{0xFE95, 0xFE96, 0xFE97, 0xFE98}}, 0x62B: {'D', [4]rune{0xFE99, 0xFE9A, 0xFE9B, 0xFE9C}},
	0x62C: {'D', [4]rune{0xFE9D, 0xFE9E, 0xFE9F, 0xFEA0}}, 0x62D: {'D', [4]rune{0xFEA1, 0xFEA2, 0xFEA3, 0xFEA4}},
	0x62E: {'D', [4]rune{0xFEA5, 0xFEA6, 0xFEA7, 0xFEA8}}, 0x62F: {'R', [4]rune{0xFEA9, 0xFEAA}}, 0x630: {'R', [4]rune{0xFEAB, 0xFEAC}},
	0x631: {'R', [4]rune{0xFEAD, 0xFEAE}}, 0x632: {'R', [4]rune{0xFEAF, 0xFEB0}}, 0x633: {'D', [4]rune{0xFEB1, 0xFEB2, 0xFEB3, 0xFEB4}},
	0x634: {'D', [4]rune{0xFEB5, 0xFEB6, 0xFEB7, 0xFEB8}}, 0x635: {'D', [4]rune{0xFEB9, 0xFEBA, 0xFEBB, 0xFEBC}},
	0x636: {'D', [4]rune{0xFEBD, 0xFEBE, 0xFEBF, 0xFEC0}}, 0x637: {'D', [4]rune{0xFEC1, 0xFEC2, 0xFEC3, 0xFEC4}},
	0x638: {'D', [4]rune{0xFEC5, 0xFEC6, 0xFEC7, 0xFEC8}}, 0x639: {'D', [4]rune{0xFEC9, 0xFECA, 0xFECB, 0xFECC}},
	0x63A: {'D', [4]rune{0xFECD, 0xFECE, 0xFECF, 0xFED0}}, 0x640: {'C', [4]rune{0x640, 0x640, 0x640, 0x640}},
	0x641: {'D', [4]rune{0xFED1, 0xFED2, 0xFED3, 0xFED4}}, 0x642: {'D', [4]rune{0xFED5, 0xFED6, 0xFED7, 0xFED8}},
	0x643: {'D', [4]rune{0xFED9, 0xFEDA, 0xFEDB, 0xFEDC}}, 0x644: {'D', [4]rune{0xFEDD, 0xFEDE, 0xFEDF, 0xFEE0}},
	0x645: {'D', [4]rune{0xFEE1, 0xFEE2, 0xFEE3, 0xFEE4}}, 0x646: {'D', [4]rune{0xFEE5, 0xFEE6, 0xFEE7, 0xFEE8}},
	0x647: {'D', [4]rune{0xFEE9, 0xFEEA, 0xFEEB, 0xFEEC}}, 0x648: {'R', [4]rune{0xFEED, 0xFEEE}}, 0x649: {'R', [4]rune{0xFEEF, 0xFEF0}},
	0x64A: {'D', [4]rune{0xFEF1, 0xFEF2, 0xFEF3, 0xFEF4}},
	0x67E: {'D', [4]rune{0xFB56, 0xFB57, 0xFB58, 0xFB59}}, 0x686: {'D', [4]rune{0xFB7A, 0xFB7B, 0xFB7C, 0xFB7D}},
	0x698: {'R', [4]rune{0xFB8A, 0xFB8B}}, 0x6A9: {'D', [4]rune{0xFB8E, 0xFB8F, 0xFB90, 0xFB91}}, 0x6AF: {'D', [4]rune{0xFB92, 0xFB93, 0xFB94, 0xFB95}},
	0x6CC: {'D', [4]rune{0xFBFC, 0xFBFD, 0xFBFE, 0xFBFF}},
}

var arMarks = []rune{0x64B, 0x64C, 0x64D, 0x64E, 0x64F, 0x650, 0x651, 0x652, 0x653, 0x654, 0x655, 0x656, 0x657, 0x658, 0x670}

// arLigs are the characters that stand for several.
var arLigs = map[rune][]rune{
	0xFEFB: {0x644, 0x627}, 0xFEFC: {0x644, 0x627}, 0xFEF7: {0x644, 0x623}, 0xFEF8: {0x644, 0x623},
	0xFEF5: {0x644, 0x622}, 0xFEF6: {0x644, 0x622}, 0xFEF9: {0x644, 0x625}, 0xFEFA: {0x644, 0x625},
	0xFDF2: {0x627, 0x644, 0x644, 0x647},
	0xFC5E: {0x64C, 0x651}, 0xFC5F: {0x64D, 0x651}, 0xFC60: {0x64E, 0x651}, 0xFC61: {0x64F, 0x651}, 0xFC62: {0x650, 0x651}, 0xFC63: {0x670, 0x651},
}

var (
	arForms   = map[rune]rune{} // presentation form to letter
	arLetters []rune
	arMarkSet = map[rune]bool{}
)

func init() {
	for c, l := range arTable {
		arLetters = append(arLetters, c)
		for _, f := range l.forms {
			if f != 0 {
				arForms[f] = c
			}
		}
	}
	sort.Slice(arLetters, func(i, j int) bool { return arLetters[i] < arLetters[j] })
	for _, m := range arMarks {
		arMarkSet[m] = true
	}
	register(&Check{ID: "C27", Quick: 400000, Deep: 3000000, Rule: "random sequences of letters of the library's alphabet with any marks, words of other scripts and numbers, and arbitrary strings; forms compared with the joining types of the Unicode charts, letters and marks counted",
		Need: []string{"letters", "marks", "lam-alef joins", "isolated forms", "final forms", "initial forms", "medial forms", "name of God as one character", "name of God joined", "left-to-right runs", "numbers", "arbitrary strings", "leading marks", "shadda ligatures", "letters given in a presentation form"},
		Run:  runC27})
}

// arPlain counts the letters and marks a string stands for.
func arPlain(s string) map[rune]int {
	m := map[rune]int{}
	for _, r := range s {
		if l, ok := arLigs[r]; ok {
			for _, x := range l {
				m[x]++
			}
			continue
		}
		if b, ok := arForms[r]; ok {
			r = b
		}
		m[r]++
	}
	return m
}

func arConserve(c *Case, in, out string) {
	a, b := arPlain(in), arPlain(out)
	for r, n := range a {
		if b[r] < n {
			c.Fail("lost", "%q (%U) gives %q (%U): %U occurs %d times in and %d out", in, []rune(in), out, []rune(out), r, n, b[r])
			return
		}
	}
	for r, n := range b {
		if a[r] < n {
			c.Fail("invented", "%q (%U) gives %q (%U): %U occurs %d times in and %d out", in, []rune(in), out, []rune(out), r, a[r], n)
			return
		}
	}
}

// cluster is a letter or ligature with its marks.
type cluster struct {
	base  string
	marks string
}

func sortMarks(m []rune) string {
	m = append([]rune{}, m...)
	sort.Slice(m, func(i, j int) bool { return m[i] < m[j] })
	return string(m)
}

// arWant is the expected display, from left to right.
func arWant(c *Case, elems [][]rune, kinds []int) []cluster {
	var out []cluster
	var all []rune
	var start []int
	for _, e := range elems {
		start = append(start, len(all))
		all = append(all, e...)
	}
	// neighbours, marks skipped
	side := func(i, d int) rune {
		for i += d; i >= 0 && i < len(all); i += d {
			if !arMarkSet[all[i]] {
				return all[i]
			}
		}
		return 0
	}
	for k := len(elems) - 1; k >= 0; k-- {
		e := elems[k]
		if kinds[k] != 0 { // keeps its order
			for _, r := range e {
				out = append(out, cluster{base: string(r)})
			}
			continue
		}
		var cl []cluster
		for i := 0; i < len(e); i++ {
			r := e[i]
			at := start[k] + i
			if arMarkSet[r] {
				c.Count("marks", 1)
				continue
			}
			l, ok := arTable[r]
			if !ok {
				cl = append(cl, cluster{base: string(r)})
				continue
			}
			c.Count("letters", 1)
			p, pok := arTable[side(at, -1)]
			prev := pok && (p.typ == 'D' || p.typ == 'C') && l.typ != 'U'
			// marks of this letter
			var mk []rune
			j := i + 1
			for j < len(e) && arMarkSet[e[j]] {
				mk = append(mk, e[j])
				j++
			}
			nx := side(at, 1)
			if r == 0x644 && j < len(e) && (nx == 0x627 || nx == 0x623 || nx == 0x622 || nx == 0x625) {
				lig := map[rune][2]rune{0x627: {0xFEFB, 0xFEFC}, 0x623: {0xFEF7, 0xFEF8}, 0x622: {0xFEF5, 0xFEF6}, 0x625: {0xFEF9, 0xFEFA}}[nx]
				i = j
				for j = i + 1; j < len(e) && arMarkSet[e[j]]; j++ {
					mk = append(mk, e[j])
				}
				b := lig[0]
				if prev {
					b = lig[1]
				}
				c.Count("lam-alef joins", 1)
				cl = append(cl, cluster{string(b), sortMarks(mk)})
				continue
			}
			n, nok := arTable[nx]
			next := nok && n.typ != 'U' && (l.typ == 'D' || l.typ == 'C')
			f := 0
			switch {
			case prev && next:
				f = 3
			case prev:
				f = 1
			case next:
				f = 2
			}
			c.Count([]string{"isolated", "final", "initial", "medial"}[f]+" forms", 1)
			b := l.forms[f]
			if l.typ == 'U' {
				b = l.forms[0]
			}
			cl = append(cl, cluster{string(b), sortMarks(mk)})
		}
		// marks before the first letter of the text
		if k == 0 {
			var mk []rune
			for _, r := range e {
				if !arMarkSet[r] {
					break
				}
				mk = append(mk, r)
			}
			if len(mk) > 0 {
				cl = append([]cluster{{"", sortMarks(mk)}}, cl...)
				c.Count("leading marks", 1)
			}
		}
		for i := len(cl) - 1; i >= 0; i-- {
			out = append(out, cl[i])
		}
	}
	return out
}

// arGot reads a display string: marks stand before their letter.
func arGot(c *Case, s string) []cluster {
	var out []cluster
	var mk []rune
	for _, r := range s {
		if arMarkSet[r] {
			mk = append(mk, r)
			continue
		}
		if l, ok := arLigs[r]; ok && arMarkSet[l[0]] {
			mk = append(mk, l...)
			c.Count("shadda ligatures", 1)
			continue
		}
		if r == 0xFDF2 { // alef isolated, lam initial, lam medial, heh final
			c.Count("name of God as one character", 1)
			out = append(out, cluster{"\uFEEA", sortMarks(mk)}, cluster{"\uFEE0", ""}, cluster{"\uFEDF", ""}, cluster{"\uFE8D", ""})
			mk = nil
			continue
		}
		// a letter that stands for itself is shown isolated
		if l, ok := arTable[r]; ok {
			r = l.forms[0]
		}
		out = append(out, cluster{string(r), sortMarks(mk)})
		mk = nil
	}
	if len(mk) > 0 {
		out = append(out, cluster{"", sortMarks(mk)})
	}
	return out
}

func arWord(r *rand.Rand) []rune {
	var w []rune
	switch r.Intn(9) {
	case 0:
		w = []rune("الله")
	case 1:
		w = []rune([]string{"والله", "بالله", "اللهم", "لله", "تالله", "شيء", "الإسلام", "الآن", "ژاله", "الأول", "هؤلاء", "اللهالله", "اللهاللهب", "اللهالأول"}[r.Intn(14)])
	default:
		for n := 1 + r.Intn(7); n > 0; n-- {
			c := arLetters[r.Intn(len(arLetters))]
			switch r.Intn(5) {
			case 0:
				c = 0x644
			case 1:
				c = []rune{0x627, 0x622, 0x623, 0x625, 0x647, 0x621}[r.Intn(6)]
			}
			w = append(w, c)
		}
	}
	if r.Intn(2) == 0 { // with marks
		var o []rune
		if r.Intn(8) == 0 {
			o = append(o, arMarks[r.Intn(len(arMarks))])
		}
		for _, c := range w {
			o = append(o, c)
			for r.Intn(2) == 0 && len(o) < 60 {
				o = append(o, arMarks[r.Intn(len(arMarks))])
				if r.Intn(3) == 0 {
					o = append(o, 0x651)
				}
			}
		}
		w = o
	}
	return w
}

func runC27(c *Case) {
	r := c.R
	if r.Intn(4) == 0 {
		arAny(c)
		return
	}
	// words with a separator between, no two runs of other scripts side by side
	var elems [][]rune
	var kinds []int
	for n := 1 + r.Intn(6); n > 0; n-- {
		if len(elems) > 0 {
			elems = append(elems, []rune([]string{" ", "،", " ", "  ", "؟ ", ". "}[r.Intn(6)]))
			kinds = append(kinds, 0)
		}
		last := len(kinds) == 0 || kinds[max(0, len(kinds)-2)] == 0
		k := r.Intn(6)
		switch {
		case k == 0 && (last || kinds[len(kinds)-2] == 2): // a number before a word does not
			if !last {
				c.Count("a word after a number", 1)
				if r.Intn(2) == 0 {
					elems[len(elems)-1] = []rune([]string{"-", ":", ".", "/", "+"}[r.Intn(5)])
				}
			}
			var w []string
			for m := 1 + r.Intn(3); m > 0; m-- {
				w = append(w, []string{"PDF", "Go", "naïve", "x1", "Ω", "ไทย", "日本", "Straße"}[r.Intn(8)])
				if r.Intn(4) == 0 { // a number after a word belongs to the run
					w = append(w, []string{"12", "4.5", "2024"}[r.Intn(3)])
				}
			}
			elems = append(elems, []rune(strings.Join(w, []string{" ", " - ", "/"}[r.Intn(3)])))
			kinds = append(kinds, 1)
			c.Count("left-to-right runs", 1)
		case k == 1 && last:
			elems = append(elems, []rune([]string{"123", "12.50", "10:30", "٤٥", "2024-01-15", "7", "1,000", "3/4"}[r.Intn(8)]))
			kinds = append(kinds, 2)
			c.Count("numbers", 1)
		default:
			w := arWord(r)
			if len(elems) > 0 { // only the first word can begin with a mark
				for arMarkSet[w[0]] {
					w = w[1:]
				}
			}
			elems = append(elems, w)
			kinds = append(kinds, 0)
		}
	}
	var in []rune
	for _, e := range elems {
		in = append(in, e...)
	}
	c.trace = func() string { return fmt.Sprintf("%q\n%U", string(in), in) }
	out := gopdf.ToArabic(string(in))
	if gopdf.ToArabic(string(in)) != out {
		c.Fail("unstable", "%q converts to different strings", string(in))
	}
	arConserve(c, string(in), out)
	want := arWant(c, elems, kinds)
	got := arGot(c, out)
	if strings.Contains(string(in), "الله") && !strings.ContainsRune(out, 0xFDF2) {
		c.Count("name of God joined", 1)
	}
	// letters joined in the name of God may carry the marks after it
	for i := 0; i < len(want) || i < len(got); i++ {
		if i >= len(want) || i >= len(got) {
			c.Fail("length", "%q (%U) gives %q (%U): %d letters and characters shown, %d expected", string(in), in, out, []rune(out), len(got), len(want))
			return
		}
		if want[i] != got[i] {
			kind := "form"
			if want[i].base == got[i].base {
				kind = "marks"
			} else if a, b := arForms[firstRune(want[i].base)], arForms[firstRune(got[i].base)]; a != b || a == 0 {
				kind = "order"
			}
			c.Fail(kind, "%q (%U) gives %q (%U): place %d from the left shows %U with marks %U, expected %U with marks %U", string(in), in, out, []rune(out), i, []rune(got[i].base), []rune(got[i].marks), []rune(want[i].base), []rune(want[i].marks))
			return
		}
	}
	// letters written in one of their presentation forms are the same letters; lam and alef stay as
	// they are, the joined forms and the name of God are made from the plain ones
	if r.Intn(4) == 0 {
		alt := append([]rune{}, in...)
		n := 0
		for i, x := range alt {
			if l, ok := arTable[x]; ok && x != 0x644 && x != 0x627 && x != 0x623 && x != 0x622 && x != 0x625 && x != 0x647 && r.Intn(2) == 0 {
				if f := l.forms[r.Intn(4)]; f != 0 {
					alt[i] = f
					n++
				}
			}
		}
		if n > 0 {
			c.Count("letters given in a presentation form", n)
			if o := gopdf.ToArabic(string(alt)); o != out && arPlainForm(o) != arPlainForm(out) {
				c.Fail("presentation-form", "%q (%U) gives %q (%U); with plain letters %q (%U)", string(alt), alt, o, []rune(o), out, []rune(out))
			}
		}
	}
	if c.Index%50 == 0 {
		c.Distinct(string(in))
		c.Sample("%q gives %q", string(in), out)
	}
}

// arPlainForm writes letters that stand for themselves in their isolated form.
func arPlainForm(s string) string {
	o := []rune(s)
	for i, x := range o {
		if l, ok := arTable[x]; ok {
			o[i] = l.forms[0]
		}
	}
	return string(o)
}

func firstRune(s string) rune {
	for _, r := range s {
		return r
	}
	return 0
}

// arAny feeds anything at all.
func arAny(c *Case) {
	r := c.R
	c.Count("arbitrary strings", 1)
	var in string
	switch r.Intn(3) {
	case 0:
		b := make([]byte, r.Intn(40))
		r.Read(b)
		in = string(b)
	default:
		var o []rune
		for n := r.Intn(40); n > 0; n-- {
			switch r.Intn(8) {
			case 0:
				o = append(o, rune(r.Intn(0x10FFFF)))
			case 1:
				o = append(o, rune(0x600+r.Intn(0x100)))
			case 2:
				o = append(o, rune(0xFB50+r.Intn(0x2B0)))
			case 3:
				o = append(o, rune(0xFE70+r.Intn(0x90)))
			case 4:
				o = append(o, rune(r.Intn(128)))
			case 5:
				o = append(o, arMarks[r.Intn(len(arMarks))])
			case 6:
				o = append(o, []rune{0x644, 0x627, 0x647, 0xFDF2, 0xFEFB, 0x651, '\n', 0x200C, 0x200D, 0}[r.Intn(10)])
			default:
				o = append(o, arLetters[r.Intn(len(arLetters))])
			}
		}
		in = string(o)
	}
	c.trace = func() string { return fmt.Sprintf("%q\n%U", in, []rune(in)) }
	in = string([]rune(in))
	arConserve(c, in, gopdf.ToArabic(in))
}
