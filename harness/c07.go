package main

import (
	"fmt"
	"math"
	"strings"

	"vmon/pdfr"
	"vmon/ttfx"
)

// C07: the embedded font draws the same glyphs as the source font.

func init() {
	register(&Check{ID: "C07", Quick: 7000, Deep: 70000, Rule: "random and real fonts (short and long locations, composites nested to any depth, fewer metrics than glyphs, any em size, missing hinting tables), random character sets drawn over one or several outputs; every used glyph's outline, metrics and declared width compared with the source",
		Need: []string{"fonts", "used glyphs", "composites", "nested composites", "glyphs beyond the metrics", "short locations", "long locations", "no hinting tables", "later characters", "encrypted", "empty glyphs", "whole font", "notdef used"},
		Run:  runC07})
}

func samePoints(a, b []ttfx.Point) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runC07(c *Case) {
	r := c.R
	sc := &Script{Cfg: Cfg{W: 600, H: 800}}
	if r.Intn(8) == 0 {
		sc.Cfg.Protect, sc.Cfg.User, sc.Cfg.Owner = true, "user", "owner"
		c.Count("encrypted", 1)
	}
	nf := 1 + r.Intn(3)
	var envs []*textEnv
	for i := 0; i < nf; i++ {
		envs = append(envs, randTextEnv(c, sc))
	}
	if r.Intn(2) == 0 {
		sc.Ops = append(sc.Ops, Op{K: "compress", I: []int{0}})
	}
	sc.Ops = append(sc.Ops, Op{K: "addpage"})
	steps := 1 + r.Intn(6)
	for k := 0; k < steps; k++ {
		fi := r.Intn(nf)
		e := envs[fi]
		sc.Ops = append(sc.Ops, e.set(r, famName(fi))...)
		var t []rune
		n := []int{1, 1, 3, 10, 60}[r.Intn(5)]
		for i := 0; i < n; i++ {
			t = append(t, e.A.Runes[r.Intn(len(e.A.Runes))])
		}
		if n := len(e.A.Runes); r.Intn(25) == 0 || n < 300 && r.Intn(8) == 0 || n > 1500 && r.Intn(4) == 0 {
			t = append([]rune{}, e.A.Runes...)
			if len(t) > 4500 {
				t = t[:4500]
			}
			c.Count("whole font", 1)
		}
		if e.A.Gid(e.Subst) == 0 && r.Intn(2) == 0 && e.Subst != 0 {
			t = append(t, 0xE000) // drawn as glyph 0
		}
		sc.Ops = append(sc.Ops, Op{K: "setxy", F: []float64{10, 20 * float64(k)}})
		switch r.Intn(4) {
		case 0:
			sc.Ops = append(sc.Ops, Op{K: "cell", S: []string{string(t)}})
		case 1:
			sc.Ops = append(sc.Ops, Op{K: "ph", S: []string{fmt.Sprint("p", k)}, F: []float64{30}}, Op{K: "fillph", S: []string{fmt.Sprint("p", k), string(t)}, I: []int{8}})
		default:
			sc.Ops = append(sc.Ops, Op{K: "text", S: []string{string(t)}})
		}
		if r.Intn(4) == 0 {
			sc.Ops = append(sc.Ops, Op{K: "out", I: []int{0}})
			if k < steps-1 {
				c.Count("later characters", 1)
			}
		}
	}
	unit := randUnit(r)
	c.trace = func() string { return fmt.Sprintf("unit %+v\n%s", unit, sc) }
	v, b := runScript(sc, unit, nil)
	outs := [][]byte{b}
	for _, q := range v.Recs {
		if q.Err != "" {
			c.Fail("error:"+q.K, "%s: %s", q.K, q.Err)
			return
		}
		if q.K == "out" {
			outs = append(outs, q.Out)
		}
	}
	for _, o := range outs {
		c07judge(c, sc, envs, o)
		if c.Failed() {
			return
		}
	}
}

func c07judge(c *Case, sc *Script, envs []*textEnv, b []byte) {
	d := openDoc(c, sc, b)
	if d == nil {
		return
	}
	pages, err := d.Pages()
	if err != nil || len(pages) != 1 {
		c.Fail("pages", "%d pages, %v", len(pages), err)
		return
	}
	content, err := d.PageContent(pages[0])
	if err != nil {
		c.Fail("content", "%v", err)
		return
	}
	fi := d.LoadFonts()
	it := d.Run(content, pages[0].Res, pdfr.InitialGS(), fi, false)
	used := map[int]map[int]bool{}
	for _, ev := range it.Events {
		if ev.Kind != "text" {
			continue
		}
		m := used[ev.GS.FontObj]
		if m == nil {
			m = map[int]bool{}
			used[ev.GS.FontObj] = m
		}
		for _, g := range ev.Glyphs {
			m[g.GID] = true
		}
	}
	for _, fo := range sortedInts(used) {
		f := d.Dict(pdfr.Ref{Num: fo})
		base := string(d.Name(f["BaseFont"]))
		var e *textEnv
		best := 0
		for i := range envs {
			if n := famName(i); strings.HasSuffix(base, n) && len(n) > best {
				e, best = envs[i], len(n)
			}
		}
		if e == nil {
			c.Fail("base-font", "font %d is called %q", fo, base)
			return
		}
		src := e.A.F
		cf := d.Dict(d.Arr(f["DescendantFonts"])[0])
		fd := d.Dict(cf["FontDescriptor"])
		ff, ok := d.R(fd["FontFile2"]).(*pdfr.Stream)
		if !ok {
			c.Fail("font-file", "font %d has no embedded program", fo)
			return
		}
		pb, err := d.Decode(ff)
		if err != nil {
			c.Fail("font-file", "font %d: %v", fo, err)
			return
		}
		emb, err := ttfx.Parse(pb, true)
		if err != nil {
			c.Fail("program:"+slug(err.Error()), "font %d (%s): the embedded program does not parse: %v", fo, e.A.Desc, err)
			return
		}
		for _, p := range emb.Problems {
			c.Fail("program:"+slug(p), "font %d (%s): embedded program: %s", fo, e.A.Desc, p)
		}
		c.Count("fonts", 1)
		if src.LocFmt == 0 {
			c.Count("short locations", 1)
		} else {
			c.Count("long locations", 1)
		}
		if emb.UPEM != src.UPEM {
			c.Fail("em", "font %d: em %d, source %d", fo, emb.UPEM, src.UPEM)
		}
		hint := 0
		for _, t := range []string{"cvt ", "fpgm", "prep"} {
			if s := src.T(t); s != nil {
				hint++
				if string(emb.T(t)) != string(s) {
					c.Fail("table:"+strings.TrimSpace(t), "font %d: table %q differs from the source's (%d bytes, source %d)", fo, t, len(emb.T(t)), len(s))
				}
			}
		}
		if hint == 0 {
			c.Count("no hinting tables", 1)
		}
		w := fi[fo]
		for _, g := range sortedInts(used[fo]) {
			c.Count("used glyphs", 1)
			if g == 0 {
				c.Count("notdef used", 1)
			}
			if g >= emb.NumGlyphs || g >= src.NumGlyphs {
				c.Fail("glyph-range", "font %d: glyph %d of %d is used, source has %d", fo, g, emb.NumGlyphs, src.NumGlyphs)
				return
			}
			po, e1 := src.Outline(g)
			pe, e2 := emb.Outline(g)
			if e1 != nil {
				panic("harness: source outline: " + e1.Error())
			}
			if e2 != nil {
				c.Fail("outline:"+slug(e2.Error()), "font %d (%s): glyph %d: %v", fo, e.A.Desc, g, e2)
				return
			}
			if !samePoints(po, pe) {
				c.Fail("outline", "font %d (%s): glyph %d has %d points, source %d; depth %d", fo, e.A.Desc, g, len(pe), len(po), src.Depth(g))
				return
			}
			if src.LocFmt == 0 && len(emb.T("glyf")) > 65535 {
				c.Count("subset beyond 64 KB, short locations", 1)
			}
			if g == src.NumGlyphs-1 {
				c.Count("the last glyph", 1)
			}
			if len(po) == 0 {
				c.Count("empty glyphs", 1)
			}
			if n := src.Depth(g); n > 0 {
				c.Count("composites", 1)
				if n > 1 {
					c.Count("nested composites", 1)
				}
			}
			// hinting instructions and everything else of the glyph
			if src.Depth(g) == 0 && strings.TrimRight(string(src.GlyphBytes(g)), "\x00") != strings.TrimRight(string(emb.GlyphBytes(g)), "\x00") {
				c.Fail("glyph-data", "font %d: the data of glyph %d differs from the source's", fo, g)
			}
			if emb.Adv[g] != src.Adv[g] || g < len(emb.LSB) && g < len(src.LSB) && emb.LSB[g] != src.LSB[g] {
				c.Fail("metrics", "font %d: glyph %d advance %d, source %d", fo, g, emb.Adv[g], src.Adv[g])
				return
			}
			if g >= src.NumHM {
				c.Count("glyphs beyond the metrics", 1)
			}
			ww, ok := w.W[g]
			if !ok {
				ww = w.DW
			}
			if math.Abs(ww-e.A.W(g)) > 1 {
				c.Fail("width", "font %d (%s): width of glyph %d is declared as %.3f, the source's is %.3f", fo, e.A.Desc, g, ww, e.A.W(g))
				return
			}
		}
		// descriptor
		up := float64(src.UPEM)
		num := func(k string) float64 {
			if x, ok := d.Float(fd[pdfr.Name(k)]); ok {
				return x
			}
			return math.NaN()
		}
		is := func(k string, vals ...int) {
			got := num(k)
			for _, x := range vals {
				if math.Abs(got-float64(x)*1000/up) <= 1 {
					return
				}
			}
			c.Fail("descriptor:"+k, "font %d (%s): %s is %.2f, source has %v units of %d", fo, e.A.Desc, k, got, vals, src.UPEM)
		}
		is("Ascent", src.TypoAsc, src.WinAsc, src.Asc)
		is("Descent", src.TypoDesc, -src.WinDesc, src.WinDesc, src.Desc)
		if src.Desc < 0 && src.TypoDesc < 0 && num("Descent") > 0 {
			c.Fail("descriptor:Descent-sign", "font %d: Descent %.2f", fo, num("Descent"))
		}
		if src.OS2Ver >= 2 {
			is("CapHeight", src.CapHeight)
			if src.XHeight != 0 && fd["XHeight"] != nil {
				is("XHeight", src.XHeight)
			}
		}
		if math.Abs(num("ItalicAngle")-float64(src.ItalicAngle)) > 1 {
			c.Fail("descriptor:ItalicAngle", "font %d: ItalicAngle %.2f, source %v", fo, num("ItalicAngle"), src.ItalicAngle)
		}
		bb := d.Floats(fd["FontBBox"])
		for i, x := range []int{src.XMin, src.YMin, src.XMax, src.YMax} {
			if len(bb) != 4 || math.Abs(bb[i]-float64(x)*1000/up) > 1 {
				c.Fail("descriptor:FontBBox", "font %d: FontBBox %v, source [%d %d %d %d] of %d", fo, bb, src.XMin, src.YMin, src.XMax, src.YMax, src.UPEM)
				break
			}
		}
		c.Distinct(fmt.Sprintf("%s %d %d %d", e.A.Desc, src.UPEM, src.NumGlyphs, len(used[fo])))
	}
}
