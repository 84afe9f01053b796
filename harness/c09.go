package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/signintech/gopdf"
	"vmon/pdfr"
)

// C09: measured text size equals drawn text size.

// kernText draws a text that is likely to have kerning pairs.
func (e *textEnv) randText(r *rand.Rand, max int, missing bool) string {
	n := r.Intn(max) + 1
	a := e.A
	mode := r.Intn(4)
	var pairs [][2]rune
	if len(a.F.Kern) > 0 {
		by := map[int]rune{}
		for _, c := range a.Runes {
			by[a.Gid(c)] = c
		}
		keys := make([][2]int, 0, len(a.F.Kern))
		for k := range a.F.Kern {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool {
			if keys[i][0] != keys[j][0] {
				return keys[i][0] < keys[j][0]
			}
			return keys[i][1] < keys[j][1]
		})
		for i := 0; i < 6; i++ {
			k := keys[r.Intn(len(keys))]
			if by[k[0]] != 0 && by[k[1]] != 0 {
				pairs = append(pairs, [2]rune{by[k[0]], by[k[1]]})
			}
		}
	}
	var o []rune
	for len(o) < n {
		var c rune
		switch mode {
		case 0:
			c = rune('a' + r.Intn(26))
		case 1:
			c = a.Runes[r.Intn(len(a.Runes))]
		default:
			if len(pairs) > 0 && r.Intn(3) > 0 {
				p := pairs[r.Intn(len(pairs))]
				o = append(o, p[0])
				c = p[1]
			} else if len(a.Kerny) > 0 {
				c = a.Kerny[r.Intn(len(a.Kerny))]
			} else {
				c = []rune("AVAToWaY 1.e")[r.Intn(12)]
			}
		}
		if missing && r.Intn(9) == 0 {
			c = rune(0xE100 + r.Intn(200))
		}
		o = append(o, c)
	}
	return string(o)
}

func init() {
	register(&Check{ID: "C09", Quick: 9000, Deep: 80000, Rule: "random texts over random fonts (kerning tables with several subtables, overrides), sizes, spacings and units: measured, drawn in one or several calls, and read back glyph by glyph",
		Need: []string{"runs", "glyphs", "kerning pairs", "override pairs", "concatenations", "multi-call runs", "joint kerning", "heights", "encrypted", "missing", "measured before the override"},
		Run:  runC09})
}

func runC09(c *Case) {
	r := c.R
	sc := &Script{Cfg: Cfg{W: 2000, H: 2000}}
	if r.Intn(8) == 0 {
		sc.Cfg.Protect, sc.Cfg.User, sc.Cfg.Owner = true, "u", "o"
		c.Count("encrypted", 1)
	}
	nf := 1 + r.Intn(2)
	var envs []*textEnv
	for i := 0; i < nf; i++ {
		envs = append(envs, randTextEnv(c, sc))
	}
	var late []Op
	if r.Intn(2) == 0 { // the overrides come after all fonts
		ops := sc.Ops[:0:0]
		for _, o := range sc.Ops {
			if o.K == "kernov" {
				late = append(late, o)
			} else {
				ops = append(ops, o)
			}
		}
		r.Shuffle(len(late), func(i, j int) { late[i], late[j] = late[j], late[i] })
		sc.Ops = ops
		if r.Intn(3) > 0 {
			sc.Ops = append(sc.Ops, late...)
			late = nil
		}
	}
	sc.Ops = append(sc.Ops, Op{K: "addpage"})
	var pre []Op // measured before the overrides are in force
	type run struct {
		e     textEnv
		parts []string
		at    int // op index of the first drawing call
		x, y  float64
		meas  int // op index of the measuring calls: whole, each part, then the height
		cell  bool
	}
	var runs []run
	nr := 2 + r.Intn(6)
	for k := 0; k < nr; k++ {
		fi := r.Intn(nf)
		e := *envs[fi]
		if r.Intn(2) == 0 {
			e.Size = []float64{5, 9, 11.5, 16, 30, 64.321}[r.Intn(6)]
		}
		if r.Intn(3) == 0 {
			e.Sp = []float64{0, 0.25, 2, -0.3}[r.Intn(4)]
		}
		sc.Ops = append(sc.Ops, e.set(r, famName(fi))...)
		q := run{e: e, x: round3(r.Float64() * 300), y: 20 + float64(k)*40}
		miss := r.Intn(4) == 0
		if miss {
			c.Count("missing", 1)
		}
		np := 1
		if r.Intn(2) == 0 {
			np = 2 + r.Intn(3)
		}
		whole := ""
		for i := 0; i < np; i++ {
			t := e.randText(r, 12, miss)
			if k > 0 && r.Intn(5) == 0 { // known from another run
				p := runs[r.Intn(k)].parts
				t = p[r.Intn(len(p))]
			}
			q.parts = append(q.parts, t)
			whole += t
		}
		if len(late) > 0 {
			pre = append(pre, q.e.set(r, famName(fi))...)
			pre = append(pre, Op{K: "measure", S: []string{whole}}, Op{K: "split", I: []int{r.Intn(2)}, F: []float64{200}, S: []string{whole}})
		}
		measure := func() {
			q.meas = len(sc.Ops)
			sc.Ops = append(sc.Ops, Op{K: "measure", S: []string{whole}})
			for _, t := range q.parts {
				sc.Ops = append(sc.Ops, Op{K: "measure", S: []string{t}})
			}
			sc.Ops = append(sc.Ops, Op{K: "measureh", S: []string{whole}})
		}
		before := r.Intn(2) == 0
		if before {
			measure()
		}
		sc.Ops = append(sc.Ops, Op{K: "setxy", F: []float64{q.x, q.y}})
		q.at = len(sc.Ops)
		q.cell = r.Intn(2) == 0
		for _, t := range q.parts {
			if q.cell {
				sc.Ops = append(sc.Ops, Op{K: "cell", S: []string{t}})
			} else {
				sc.Ops = append(sc.Ops, Op{K: "text", S: []string{t}})
			}
		}
		if !before {
			measure()
		}
		runs = append(runs, q)
		if r.Intn(3) == 0 { // a cell that moves down by its height
			sc.Ops = append(sc.Ops, Op{K: "setxy", F: []float64{1900, 1900}}, Op{K: "measureh", S: []string{"x"}}, Op{K: "cellopt", I: []int{0, 0, gopdf.Bottom}, S: []string{""}})
		}
	}
	if len(late) > 0 {
		c.Count("measured before the override", len(runs))
		all := append(append([]Op{}, pre...), late...)
		var ops []Op
		for i, o := range sc.Ops {
			ops = append(ops, o)
			if o.K == "addpage" && len(all) > 0 {
				ops = append(ops, all...)
				for k := range runs {
					if runs[k].at > i {
						runs[k].at += len(all)
					}
					if runs[k].meas > i {
						runs[k].meas += len(all)
					}
				}
				all = nil
			}
		}
		sc.Ops = ops
	}
	unit := randUnit(r)
	c.trace = func() string { return fmt.Sprintf("unit %+v\n%s", unit, sc) }
	v, b := runScript(sc, unit, nil)
	rec := map[int]Rec{}
	for _, q := range v.Recs {
		rec[q.I] = q
		if q.Err != "" {
			c.Fail("error:"+q.K, "%s: %s", q.K, q.Err)
			return
		}
	}
	for i, op := range sc.Ops {
		if op.K == "cellopt" {
			h := rec[i-1].L[0]
			if got := rec[i].Y - rec[i-2].Y; math.Abs(got-h) > 1e-6 {
				c.Fail("height-advance", "cell without rectangle moves the cursor down by %.5f, the measured height is %.5f", got, h)
			}
			if math.Abs(rec[i].X-rec[i-2].X) > 1e-6 {
				c.Fail("height-x", "cell with float bottom moves the cursor sideways by %.5f", rec[i].X-rec[i-2].X)
			}
		}
	}
	d := openDoc(c, sc, b)
	if d == nil {
		return
	}
	pages, err := d.Pages()
	if err != nil || len(pages) != 1 {
		c.Fail("pages", "%d pages, %v", len(pages), err)
		return
	}
	content, err := d.PageContent(pages[0])
	if err != nil {
		c.Fail("content", "%v", err)
		return
	}
	it := d.Run(content, pages[0].Res, pdfr.InitialGS(), d.LoadFonts(), false)
	type gl struct {
		x, y, end float64
		gid       int
		adj       float64
		first     bool
		size, tc  float64
	}
	var gs []gl
	for _, ev := range it.Events {
		if ev.Kind != "text" {
			continue
		}
		for i, g := range ev.Glyphs {
			gs = append(gs, gl{x: ev.TextMat[4] + g.X, y: ev.TextMat[5], gid: g.GID, adj: g.AdjPre, first: i == 0, end: ev.TextMat[4] + g.X + g.Advance})
		}
		if math.Abs(ev.TailAdj) > 1e-9 {
			c.Fail("tail", "adjustment %.3f after the last glyph", ev.TailAdj)
		}
	}
	pos := 0
	for k, q := range runs {
		c.Count("runs", 1)
		whole := ""
		for _, t := range q.parts {
			whole += t
		}
		rs := []rune(whole)
		e := &q.e
		exact, tol := e.width(rs)
		m := rec[q.meas].L[0]
		if math.Abs(m-exact) > tol {
			c.Fail("measured", "run %d: %q measures %.5f, the font's advances, kerning and spacing give %.5f (+-%.5f)", k, whole, m, exact, tol)
			return
		}
		// height
		h := rec[q.meas+1+len(q.parts)].L[0]
		wh := float64(e.A.F.TypoAsc-e.A.F.TypoDesc) * e.Size / float64(e.A.F.UPEM)
		if math.Abs(h-wh) > 1e-6*(1+math.Abs(wh)) {
			c.Fail("height", "run %d: measured height %.5f, ascender minus descender is %.5f", k, h, wh)
		}
		c.Count("heights", 1)
		// additive up to the kerning at the joints
		sum := 0.0
		joint, jn := 0.0, 0
		var last rune
		var lg int
		for i, t := range q.parts {
			sum += rec[q.meas+1+i].L[0]
			tr := []rune(t)
			f, fg, _ := e.sub(tr[0])
			if i > 0 {
				if p := e.pair(last, lg, f, fg) * e.Size / 1000; p != 0 {
					joint += p
					jn++
				}
			}
			last, lg, _ = e.sub(tr[len(tr)-1])
		}
		if jn > 0 {
			c.Count("joint kerning", 1)
		}
		if math.Abs(sum+joint-m) > float64(jn)*1.01*e.Size/1000+1e-6 {
			c.Fail("additive", "run %d: the parts %q measure %.5f together, the whole %.5f, kerning at the joints is %.5f", k, q.parts, sum, m, joint)
			return
		}
		if len(q.parts) > 1 {
			c.Count("concatenations", 1)
		}
		// cursor: the advance of every call
		x0 := rec[q.at-1].X
		if math.Abs(x0-q.x) > 1e-6 {
			c.Fail("setxy", "cursor at %.5f after moving to %.5f", x0, q.x)
		}
		endX := rec[q.at+len(q.parts)-1].X
		if math.Abs(endX-x0-m) > 1e-6+float64(jn)*1.01*e.Size/1000+math.Abs(joint) || math.Abs(endX-x0-m) > 1e-6 && math.Abs(endX-x0-sum) > 1e-6 && jn < 2 {
			c.Fail("advance", "run %d: %d calls drawing %q advance the cursor by %.5f, measured %.5f", k, len(q.parts), q.parts, endX-x0, m)
			return
		}
		if len(q.parts) > 1 {
			c.Count("multi-call runs", 1)
		}
		// the file
		if pos+len(rs) > len(gs) {
			c.Fail("glyphs", "run %d has %d characters, %d glyphs are left on the page", k, len(rs), len(gs)-pos)
			return
		}
		px := q.x
		var pr rune
		var pg int
		starts := map[int]bool{}
		n := 0
		for _, t := range q.parts {
			starts[n] = true
			n += len([]rune(t))
		}
		slack := 0.0
		for i, ch := range rs {
			g := gs[pos+i]
			ch, gid, _ := e.sub(ch)
			if g.gid != gid {
				c.Fail("gid", "run %d character %d %q is glyph %d, expected %d", k, i, ch, g.gid, gid)
				return
			}
			kern := 0.0
			if i > 0 {
				kern = e.pair(pr, pg, ch, gid)
			}
			if g.first {
				if i > 0 && !starts[i] {
					c.Fail("split-run", "run %d is broken before character %d", k, i)
				}
				// a new text object: the pen is where the cursor was; the kerning at the joint may be lost
				if i > 0 && kern != 0 {
					slack += math.Abs(kern)*e.Size/1000 + 0.01
				}
				if g.adj != 0 {
					c.Fail("adj-first", "run %d starts with an adjustment of %.3f", k, g.adj)
				}
				slack += 0.01
			} else {
				if math.Abs(-g.adj-kern) > 1.01 {
					c.Fail("kerning", "run %d: between %q and %q the pen moves by %.3f thousandths, kerning is %.3f (kerning on: %v, override %d)", k, pr, ch, -g.adj, kern, e.Kern, e.KernK)
					return
				}
				if kern != 0 {
					c.Count("kerning pairs", 1)
					if e.KernK >= 0 {
						c.Count("override pairs", 1)
					}
				}
			}
			if i > 0 {
				px += kern * e.Size / 1000
			}
			t := slack + float64(i+1)*e.Size*0.0022 + 0.011 + float64(i)*0.0006
			if math.Abs(g.x-px) > t {
				c.Fail("travel", "run %d: glyph %d of %q starts at %.4f, expected %.4f (+-%.4f)", k, i, whole, g.x, px, t)
				return
			}
			px += e.A.W(gid)*e.Size/1000 + e.Sp
			pr, pg = ch, gid
			c.Count("glyphs", 1)
		}
		// measured against the pen's real travel: no rounding of advances in between, only of the numbers written
		end := gs[pos+len(rs)-1].end
		t := 0.012 + float64(len(rs))*0.0006 + exact*0.0005/e.Size + slack
		if math.Abs(end-q.x-m) > t {
			c.Fail("drawn", "run %d: %q measures %.5f, the pen travels %.5f in the file (+-%.5f)", k, whole, m, end-q.x, t)
			return
		}
		pos += len(rs)
		c.Distinct(fmt.Sprintf("%q %v %d", q.parts, e.Kern, e.KernK))
	}
	if pos != len(gs) {
		c.Fail("extra-glyphs", "%d glyphs too many on the page", len(gs)-pos)
	}
}
