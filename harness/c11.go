package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/signintech/gopdf"
	"vmon/pdfr"
)

// C11: multi-line cells and their fit tests.

func init() {
	register(&Check{ID: "C11", Quick: 14000, Deep: 120000, Rule: "random texts, fonts, sizes, spacings, cell sizes (many chosen so that the text just fits or just does not) and units; fit tests, drawing and splitting of the same text, lines read back from the page",
		Need: []string{"cells", "cut off", "fit yes", "fit no", "exact height", "newline fits", "newline yes", "option cells", "option lines", "justified lines", "right aligned", "centred", "bottom aligned", "middle aligned", "single characters too wide", "kerning", "missing", "narrow"},
		Run:  runC11})
}

type drawnLine struct {
	x, y, end float64
	gids      []int
}

func runC11(c *Case) {
	r := c.R
	sc := &Script{Cfg: Cfg{W: 1500, H: 3000}}
	e := randTextEnv(c, sc)
	if e.A.F.TypoAsc-e.A.F.TypoDesc <= 0 {
		c.Count("skipped", 1)
		return
	}
	lh := float64(e.A.F.TypoAsc-e.A.F.TypoDesc) * e.Size / float64(e.A.F.UPEM)
	asc := float64(e.A.F.TypoAsc) * e.Size / float64(e.A.F.UPEM)
	desc := float64(e.A.F.TypoDesc) * e.Size / float64(e.A.F.UPEM)
	type job struct {
		kind              int // 0 multicell, 1 newline cells, 2 with options
		text              []rune
		x, y, w, h        float64
		fit, draw, split  int // op indexes
		parts             []int
		align, brd, float int
		word              bool
	}
	var jobs []job
	first := true
	for n := 1 + r.Intn(4); n > 0; n-- {
		o := Op{K: "addpage"}
		if r.Intn(3) == 0 {
			o.F = []float64{1500, float64(2500 + r.Intn(1000))}
		}
		sc.Ops = append(sc.Ops, o)
		if first || r.Intn(3) == 0 {
			sc.Ops = append(sc.Ops, e.set(r, famName(0))...)
			first = false
		}
		j := job{kind: r.Intn(3), x: round3(r.Float64() * 200), y: round3(r.Float64() * 200)}
		t := splitAlphabet(r, e, 60, ' ')
		if j.kind == 0 {
			t = []rune(strings.ReplaceAll(string(t), "\n", ""))
			if r.Intn(12) == 0 {
				t = nil
			}
		}
		if j.kind == 2 && len(t) == 0 {
			t = []rune{'a'}
		}
		j.text = t
		full, _ := e.width(t)
		switch r.Intn(8) {
		case 0:
			j.w = round3(r.Float64() * e.Size * 0.5)
			c.Count("narrow", 1)
		case 1:
			j.w = full
		case 2:
			if len(t) > 1 {
				j.w, _ = e.width(t[:1+r.Intn(len(t))])
			}
		default:
			j.w = round3(e.Size * (0.5 + r.Float64()*12))
		}
		lines := 1 + r.Intn(8)
		switch r.Intn(6) {
		case 0: // exactly so many lines
			j.h = lh * float64(lines)
			c.Count("exact height", 1)
		case 1:
			j.h = lh*float64(lines) + []float64{-1e-3, 1e-3}[r.Intn(2)]
		case 2:
			j.h = lh * r.Float64() * 2
		case 3:
			j.h = lh * 100
		default:
			j.h = round3(lh * float64(lines) * (0.6 + r.Float64()))
		}
		add := func(o Op) int { sc.Ops = append(sc.Ops, o); return len(sc.Ops) - 1 }
		F := []float64{j.w, j.h}
		fitFirst := r.Intn(2) == 0
		switch j.kind {
		case 0:
			if fitFirst {
				j.fit = add(Op{K: "isfit", F: F, S: []string{string(t)}})
			}
			add(Op{K: "setxy", F: []float64{j.x, j.y}})
			j.draw = add(Op{K: "multicell", F: F, S: []string{string(t)}})
			if !fitFirst {
				j.fit = add(Op{K: "isfit", F: F, S: []string{string(t)}})
			}
		case 1:
			j.fit = add(Op{K: "isfitnl", F: F, S: []string{string(t)}})
			add(Op{K: "setxy", F: []float64{j.x, j.y}})
			h := j.h
			for _, s := range strings.Split(string(t), "\n") {
				j.parts = append(j.parts, add(Op{K: "isfit", F: []float64{j.w, h}, S: []string{s}}))
				// as many lines as there are, with all the room in the world
				add(Op{K: "multicell", F: []float64{j.w, 1e7}, S: []string{s}})
			}
		case 2:
			j.align = []int{gopdf.Left, gopdf.Right, gopdf.Center, gopdf.Justify, gopdf.Justify}[r.Intn(5)]
			j.align |= []int{gopdf.Top, gopdf.Middle, gopdf.Bottom}[r.Intn(3)]
			j.float = []int{0, gopdf.Right, gopdf.Bottom}[r.Intn(3)]
			j.word = r.Intn(2) == 0
			S := []string{string(t)}
			I := []int{j.align, 0, j.float}
			sp := Op{K: "split", F: []float64{j.w}, S: S, I: []int{0}}
			if j.word || r.Intn(2) == 0 {
				m := 0
				if j.word {
					m = 1
				}
				S = append(S, []string{"", "", "-"}[r.Intn(3)])
				I = append(I, m, ' ')
				sp = Op{K: "split", F: []float64{j.w}, S: S, I: []int{2, m, ' '}}
			}
			if fitFirst {
				j.split = add(sp)
			}
			add(Op{K: "setxy", F: []float64{j.x, j.y}})
			j.draw = add(Op{K: "multicellopt", F: F, S: S, I: I})
			if !fitFirst {
				j.split = add(sp)
			}
		}
		jobs = append(jobs, j)
	}
	unit := randUnit(r)
	c.trace = func() string {
		return fmt.Sprintf("unit %+v kern %v override %d line height %.5f\n%s", unit, e.Kern, e.KernK, lh, sc)
	}
	v, b := runScript(sc, unit, nil)
	rec := map[int]Rec{}
	for _, q := range v.Recs {
		rec[q.I] = q
		if q.Err != "" {
			c.Fail("error:"+q.K, "%s: %s", q.K, q.Err)
			return
		}
	}
	d := openDoc(c, sc, b)
	if d == nil {
		return
	}
	pages, err := d.Pages()
	if err != nil || len(pages) != len(jobs) {
		c.Fail("pages", "%d pages for %d, %v", len(pages), len(jobs), err)
		return
	}
	fonts := d.LoadFonts()
	if e.Kern {
		c.Count("kerning", 1)
	}
	for k := range jobs {
		j := &jobs[k]
		content, err := d.PageContent(pages[k])
		if err != nil {
			c.Fail("content", "%v", err)
			return
		}
		it := d.Run(content, pages[k].Res, pdfr.InitialGS(), fonts, false)
		var ls []drawnLine
		for _, ev := range it.Events {
			if ev.Kind != "text" || len(ev.Glyphs) == 0 {
				continue
			}
			l := drawnLine{x: ev.TextMat[4] + ev.Glyphs[0].X, y: pages[k].MediaBox[3] - ev.TextMat[5]}
			for _, g := range ev.Glyphs {
				l.gids = append(l.gids, g.GID)
				l.end = ev.TextMat[4] + g.X + g.Advance
			}
			ls = append(ls, l)
		}
		where := fmt.Sprintf("page %d (%.4f x %.4f, line height %.5f)", k+1, j.w, j.h, lh)
		for _, ch := range j.text {
			if _, _, ok := e.sub(ch); !ok && ch != '\n' {
				c.Count("missing", 1)
				break
			}
		}
		// reads lines from li on as the greedy breaking of text into room for height h; returns lines used and characters drawn
		greedy := func(text []rune, li int, y0, h float64) (int, int) {
			pos, n := 0, 0
			for ; li+n < len(ls) && pos < len(text); n++ {
				l := ls[li+n]
				if math.Abs(l.x-j.x) > 0.011 {
					c.Fail("line-x", "%s: line %d starts at %.3f, the cell at %.3f", where, n, l.x, j.x)
				}
				if want := y0 + float64(n)*lh + asc; math.Abs(l.y-want) > 0.011+1e-6*want {
					c.Fail("line-y", "%s: the baseline of line %d is at %.3f, expected %.3f", where, n, l.y, want)
					return n, -1
				}
				if y0+float64(n+1)*lh > y0+h+1e-6*(1+h) {
					c.Fail("below", "%s: line %d ends %.5f below the top, the cell is %.5f high", where, n, float64(n+1)*lh, h)
				}
				p0 := pos
				for _, g := range l.gids {
					if pos >= len(text) {
						c.Fail("extra", "%s: line %d has characters after the end of the text", where, n)
						return n, -1
					}
					if _, want, _ := e.sub(text[pos]); want != g {
						c.Fail("character", "%s: character %d of %q is drawn with glyph %d, expected %d", where, pos, string(text), g, want)
						return n, -1
					}
					pos++
				}
				w, tol := e.width(text[p0:pos])
				if w > j.w+tol {
					if pos-p0 > 1 {
						c.Fail("overflow", "%s: line %d %q is %.4f wide", where, n, string(text[p0:pos]), w)
					}
					c.Count("single characters too wide", 1)
				}
				if pos < len(text) && li+n+1 <= len(ls) {
					if w, tol := e.width(text[p0 : pos+1]); w < j.w-tol && (li+n+1 < len(ls)) {
						c.Fail("early", "%s: line %d %q ends although %q would fit (%.4f)", where, n, string(text[p0:pos]), string(text[p0:pos+1]), w)
					}
				}
				c.Count("lines", 1)
			}
			return n, pos
		}
		switch j.kind {
		case 0:
			c.Count("cells", 1)
			n, pos := greedy(j.text, 0, j.y, j.h)
			if pos < 0 {
				return
			}
			if n != len(ls) {
				c.Fail("extra-lines", "%s: %d lines drawn, the text %q is in the first %d", where, len(ls), string(j.text), n)
				return
			}
			whole := pos == len(j.text)
			if !whole {
				c.Count("cut off", 1)
				if float64(n+1)*lh < j.h-1e-6 {
					c.Fail("dropped", "%s: only %d of %d characters of %q are drawn in %d lines", where, pos, len(j.text), string(j.text), n)
				}
				// the line that was drawn last is full
				if n > 0 {
					p0 := pos - len(ls[n-1].gids)
					if w, tol := e.width(j.text[p0 : pos+1]); w < j.w-tol {
						c.Fail("early", "%s: the last line drawn %q ends although %q would fit (%.4f)", where, string(j.text[p0:pos]), string(j.text[p0:pos+1]), w)
					}
				}
			}
			fit := rec[j.fit].N[0] == 1
			if fit != whole {
				c.Fail("fit", "%s: the fit test says %v, %d of %d characters of %q are drawn", where, fit, pos, len(j.text), string(j.text))
			}
			if fit {
				c.Count("fit yes", 1)
			} else {
				c.Count("fit no", 1)
			}
			if h := rec[j.fit].L[0]; math.Abs(h-float64(n)*lh) > 1e-6*(1+h) {
				c.Fail("fit-height", "%s: the fit test (%v) reports height %.5f, %d lines are drawn", where, fit, h, n)
			}
			end := rec[j.draw]
			if math.Abs(end.Y-j.y-float64(n)*lh) > 1e-6*(1+end.Y) || math.Abs(end.X-j.x) > 1e-6*(1+j.x) {
				c.Fail("cursor", "%s: cursor at %.4f,%.4f after %d lines from %.4f,%.4f", where, end.X, end.Y, n, j.x, j.y)
			}
			c.Distinct(fmt.Sprintf("%d %v %d", n, fit, len(j.text)))
		case 1:
			c.Count("newline fits", 1)
			li, y := 0, j.y
			segs := strings.Split(string(j.text), "\n")
			for _, s := range segs {
				n, pos := greedy([]rune(s), li, y, 1e7)
				if pos < 0 {
					return
				}
				if pos != len([]rune(s)) {
					c.Fail("dropped", "%s: %d of %d characters of %q drawn where there is room for all", where, pos, len([]rune(s)), s)
					return
				}
				li += n
				y += float64(n) * lh
			}
			if li != len(ls) {
				c.Fail("extra-lines", "%s: %d lines drawn, the text is in the first %d", where, len(ls), li)
				return
			}
			fit := rec[j.fit].N[0] == 1
			total := float64(li) * lh
			if math.Abs(total-j.h) > 1e-6*(1+j.h) || math.Abs(total-j.h) > 1e-9*(1+j.h) && e.Size == math.Trunc(e.Size) {
				if fit != (total < j.h) {
					c.Fail("fit-newline", "%s: the fit test says %v, the text %q takes %d lines", where, fit, string(j.text), li)
				}
			} else {
				c.Count("ties", 1)
			}
			if fit {
				c.Count("newline yes", 1)
				if h := rec[j.fit].L[0]; math.Abs(h-total) > 1e-6*(1+h) {
					c.Fail("fit-height", "%s: the fit test reports height %.5f, %d lines are drawn for %q", where, h, li, string(j.text))
				}
			}
			// part by part, as the documentation of the newline test has it
			all := true
			for i, p := range j.parts {
				_ = i
				all = all && rec[p].N[0] == 1
			}
			if fit && !all {
				c.Fail("fit-parts", "%s: the whole text fits but not a part of it alone", where)
			}
			c.Distinct(fmt.Sprintf("nl %d %v %d", li, fit, len(segs)))
		case 2:
			c.Count("option cells", 1)
			want := rec[j.split].S
			n := len(want)
			top := j.y + asc
			start := j.h - lh*float64(n-1) // room the last line may take
			switch {
			case j.align&gopdf.Bottom != 0:
				top = j.y + start + desc
				c.Count("bottom aligned", 1)
			case j.align&gopdf.Middle != 0:
				top = j.y + start/2 + (asc+desc)/2
				c.Count("middle aligned", 1)
			}
			li := 0
			for i, s := range want {
				c.Count("option lines", 1)
				t := []rune(s)
				if len(t) == 0 {
					continue
				}
				if li >= len(ls) {
					c.Fail("dropped", "%s: line %d %q of %q is not drawn", where, i, s, cutLines(want))
					return
				}
				l := ls[li]
				li++
				if y := top + float64(i)*lh; math.Abs(l.y-y) > 0.011+1e-6*math.Abs(y) {
					c.Fail("line-y", "%s: the baseline of line %d of %d is at %.3f, expected %.3f (align %d)", where, i, n, l.y, y, j.align)
					return
				}
				if len(l.gids) != len(t) {
					c.Fail("characters", "%s: line %d %q is drawn with %d glyphs", where, i, s, len(l.gids))
					return
				}
				gaps, f, la := 0, -1, -1
				var drawn []rune
				for q, ch := range t {
					s, g, _ := e.sub(ch)
					drawn = append(drawn, s)
					if g != l.gids[q] {
						c.Fail("character", "%s: character %d of line %q is drawn with glyph %d, expected %d", where, q, string(t), l.gids[q], g)
						return
					}
					if s != ' ' {
						if f < 0 {
							f = q
						}
						la = q
					}
				}
				for q, ch := range drawn {
					if ch == ' ' && q > f && q < la {
						gaps++
					}
				}
				w, tw := e.width(t)
				tw += 0.012
				x, end := j.x, j.x+w
				switch {
				case j.align&gopdf.Right != 0:
					x, end = j.x+j.w-w, j.x+j.w
					c.Count("right aligned", 1)
				case j.align&gopdf.Center != 0:
					x, end = j.x+(j.w-w)/2, j.x+(j.w+w)/2
					c.Count("centred", 1)
				case j.align&gopdf.Justify != 0 && i < n-1 && gaps > 0 && w < j.w:
					end = j.x + j.w
					tw += float64(gaps) * e.Size * 0.00051
					c.Count("justified lines", 1)
				}
				if math.Abs(l.x-x) > tw {
					c.Fail("line-x", "%s: line %d %q starts at %.3f, expected %.3f (align %d)", where, i, s, l.x, x, j.align)
				}
				if math.Abs(l.end-end) > tw+0.0006*float64(len(t)) {
					c.Fail("line-end", "%s: line %d %q ends at %.3f, expected %.3f (align %d)", where, i, s, l.end, end, j.align)
				}
			}
			if li != len(ls) {
				c.Fail("extra-lines", "%s: %d lines drawn, the split text has %d", where, len(ls), li)
			}
			end := rec[j.draw]
			if math.Abs(end.Y-j.y-float64(n)*lh) > 1e-6*(1+end.Y) || math.Abs(end.X-j.x) > 1e-6*(1+j.x) {
				c.Fail("cursor", "%s: cursor at %.4f,%.4f after %d lines from %.4f,%.4f", where, end.X, end.Y, n, j.x, j.y)
			}
			c.Distinct(fmt.Sprintf("opt %d %d %v", n, j.align, j.word))
		}
	}
	c.Sample("%d cells, unit %d, size %.3f", len(jobs), unit.U, e.Size)
}
