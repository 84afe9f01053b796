package main

import (
	"fmt"

	"vmon/pdfr"
)

// C06: text can be read back exactly as written.

type wantGlyph struct {
	ch  rune
	gid int
	fa  *FontAsset
}

func init() {
	register(&Check{ID: "C06", Quick: 8000, Deep: 60000, Rule: "random histories of text calls (text, cells, multi-line cells, placeholders, callbacks) over several fonts and pages with characters the fonts lack; every glyph code is decoded through the embedded map",
		Need: []string{"characters", "missing characters", "callbacks", "supplementary characters", "shared glyphs", "fonts with over 100 characters", "placeholders filled", "encrypted", "glyph tests", "multi-line cells", "mid-document outputs"},
		Run:  runC06})
}

func runC06(c *Case) {
	r := c.R
	p := Profile{W: mergeW(wText, wMove, wPage, wPH, map[string]int{"hasglyph": 4, "line": 2, "multicell": 3, "multicellopt": 3, "save": 1, "restore": 1, "txt": 2, "gfill": 1, "compress": 1, "tr": 1, "out": 1}),
		Steps: 5 + r.Intn(40), Bulk: 20, Header: true, Sizes: true, Missing: true, RealFont: r.Intn(3) == 0, Protect: r.Intn(6) == 0}
	if c.Thorough() && r.Intn(3) == 0 {
		p.Steps += 80
	}
	g := newGen(r, p)
	sc := g.build()
	// every multi-line cell gets all the room it needs; words keep their blanks
	for i := range sc.Ops {
		o := &sc.Ops[i]
		switch o.K {
		case "multicell", "multicellopt":
			o.F = []float64{150 + 3*o.F[0], 1e7}
			if len(o.I) > 4 {
				o.I[3] = 0
			}
			if len(o.S) > 1 {
				o.S[1] = ""
			}
		case "hasglyph":
			if r.Intn(2) == 0 && len(sc.Fonts) > 0 {
				a := sc.Fonts[r.Intn(len(sc.Fonts))]
				o.I[0] = int(a.Runes[r.Intn(len(a.Runes))]) + r.Intn(3) - 1
			}
		}
	}
	// sometimes a text with very many characters
	if r.Intn(5) == 0 {
		a := g.curFont()
		n := 101 + r.Intn(300)
		var t []rune
		off := r.Intn(len(a.Runes))
		for i := 0; i < n && i < len(a.Runes); i++ {
			t = append(t, a.Runes[(off+i)%len(a.Runes)])
		}
		sc.Ops = append(sc.Ops, Op{K: "text", S: []string{string(t)}})
	}
	unit := randUnit(r)
	c.trace = func() string { return fmt.Sprintf("unit %+v\n%s", unit, sc) }
	type fnt struct {
		fa  *FontAsset
		sub rune
		rep bool
	}
	fonts := map[string]fnt{}
	key := func(fam string, st int) string { return fmt.Sprintf("%s|%d", fam, st&3|st&8) }
	_ = key
	var cur fnt
	type slot struct{ t []wantGlyph }
	var pages [][]*slot
	pg := -1
	phs := map[string][]*slot{}
	phF := map[*slot]fnt{}
	conv := func(f fnt, s string, nl bool) (o []wantGlyph, miss []rune) {
		for _, ch := range s {
			if nl && ch == '\n' {
				continue
			}
			gid := f.fa.Gid(ch)
			if gid == 0 {
				if f.rep {
					miss = append(miss, ch)
				}
				ch = f.sub
				gid = f.fa.Gid(ch)
				c.Count("missing characters", 1)
			}
			if ch > 0xFFFF {
				c.Count("supplementary characters", 1)
			}
			o = append(o, wantGlyph{ch, gid, f.fa})
		}
		return
	}
	vm := newVM(sc, unit)
	defer vm.Clean()
	var wantMiss []rune
	vm.Enter = func(op *Op) {
		if op.K == "addpage" {
			pages = append(pages, nil)
			pg = len(pages) - 1
		}
	}
	vm.Leave = func(op *Op, rec *Rec) {
		if rec.Err != "" {
			c.Fail("error:"+op.K, "%s: %s", op.K, rec.Err)
			return
		}
		wantMiss = nil
		add := func(s string, nl bool) {
			t, m := conv(cur, s, nl)
			pages[pg] = append(pages[pg], &slot{t})
			wantMiss = append(wantMiss, m...)
		}
		switch op.K {
		case "setpage":
			pg = op.I[0] - 1
		case "addfont":
			f := fnt{fa: sc.Fonts[op.I[0]], sub: rune(op.I[5]), rep: op.I[4] != 0}
			if f.sub == 0 {
				f.sub = ' '
			}
			fonts[fmt.Sprintf("%s|%d", op.S[0], op.I[2])] = f
		case "setfont":
			cur = fonts[fmt.Sprintf("%s|%d", op.S[0], op.I[0]&^4)]
		case "text", "cell", "cellopt", "multicell":
			add(op.S[0], false)
			if op.K == "multicell" {
				c.Count("multi-line cells", 1)
			}
		case "multicellopt":
			add(op.S[0], true)
			c.Count("multi-line cells", 1)
		case "ph":
			s := &slot{}
			pages[pg] = append(pages[pg], s)
			phs[op.S[0]] = append(phs[op.S[0]], s)
			phF[s] = cur
		case "fillph":
			for _, s := range phs[op.S[0]] {
				t, m := conv(phF[s], op.S[1], false)
				s.t = t
				wantMiss = append(wantMiss, m...)
				c.Count("placeholders filled", 1)
			}
		case "hasglyph":
			c.Count("glyph tests", 1)
			has := cur.fa.Gid(rune(op.I[0])) != 0
			if has != (rec.N[0] == 1) {
				c.Fail("contains", "IsCurrFontContainGlyph(%U) answers %v", op.I[0], rec.N[0] == 1)
			}
			return
		case "out":
			c.Count("mid-document outputs", 1)
		default:
			return
		}
		if op.K == "addpage" || vm.depth < 0 {
			return
		}
		if string(wantMiss) != string(rec.Miss) {
			c.Fail("reported:"+op.K, "%s %q: the callback got %q, the characters without a glyph are %q", op.K, op.S, string(rec.Miss), string(wantMiss))
		}
		c.Count("callbacks", len(wantMiss))
	}
	vm.Run()
	b, err := vm.G.GetBytesPdfReturnErr()
	if err != nil {
		c.Fail("output", "%v", err)
		return
	}
	d := openDoc(c, sc, b)
	if d == nil {
		return
	}
	pp, err := d.Pages()
	if err != nil || len(pp) != len(pages) {
		c.Fail("pages", "%d pages, expected %d, %v", len(pp), len(pages), err)
		return
	}
	fi := d.LoadFonts()
	for _, o := range sortedInts(fi) {
		f := fi[o]
		if f.Problem != "" || f.CMapErr != "" {
			c.Fail("cmap:"+slug(f.CMapErr+f.Problem), "font %d: %s %s", o, f.CMapErr, f.Problem)
		}
		if len(f.ToUni) > 100 {
			c.Count("fonts with over 100 characters", 1)
		}
	}
	if sc.Cfg.Protect {
		c.Count("encrypted", 1)
	}
	for i, p := range pp {
		content, err := d.PageContent(p)
		if err != nil {
			c.Fail("content", "page %d: %v", i+1, err)
			continue
		}
		it := d.Run(content, p.Res, pdfr.InitialGS(), fi, false)
		var want []wantGlyph
		for _, s := range pages[i] {
			want = append(want, s.t...)
		}
		k := 0
		for _, ev := range it.Events {
			if ev.Kind != "text" {
				continue
			}
			f := fi[ev.GS.FontObj]
			for _, gl := range ev.Glyphs {
				if k >= len(want) {
					c.Fail("extra", "page %d shows more than the %d characters written", i+1, len(want))
					return
				}
				w := want[k]
				k++
				if f == nil {
					c.Fail("font", "page %d: text in font object %d, which is no composite font", i+1, ev.GS.FontObj)
					return
				}
				u, ok := f.ToUni[gl.GID]
				if !ok {
					c.Fail("unmapped", "page %d character %d: glyph %d of %q has no entry in the character map", i+1, k-1, gl.GID, w.ch)
					return
				}
				if string(u) != string(w.ch) {
					if len(u) == 1 && w.gid != 0 && w.fa.Gid(u[0]) == w.gid {
						c.Count("shared glyphs", 1)
					} else {
						c.Fail("text", "page %d character %d: glyph %d reads as %q, %q was written", i+1, k-1, gl.GID, string(u), string(w.ch))
						return
					}
				}
				if gl.GID != w.gid {
					c.Fail("glyph", "page %d character %d %q: glyph %d, the font has it at %d", i+1, k-1, w.ch, gl.GID, w.gid)
					return
				}
				c.Count("characters", 1)
			}
		}
		if k < len(want) {
			c.Fail("lost", "page %d shows %d of %d characters written, the next is %q", i+1, k, len(want), string(want[k].ch))
			return
		}
		c.Distinct(fmt.Sprintf("%d %x", len(want), len(content)))
	}
}

func sortedInts[V any](m map[int]V) []int {
	var o []int
	for k := range m {
		o = append(o, k)
	}
	for i := 1; i < len(o); i++ {
		for j := i; j > 0 && o[j] < o[j-1]; j-- {
			o[j], o[j-1] = o[j-1], o[j]
		}
	}
	return o
}
