package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/signintech/gopdf"
	"vmon/pdfr"
	"vmon/ttfx"
)

// C22: tables.

func init() {
	register(&Check{ID: "C22", Quick: 9000, Deep: 80000, Rule: "random tables (columns, widths, alignments, texts, empty rows, styles of table, header, cells and single cells, several fonts and units) read back as fills, border lines and lines of text",
		Need: []string{"tables", "cells", "styled cells", "empty rows", "fills", "border lines", "left", "centre", "right", "wrapped cells", "overfull cells", "default styles", "short rows", "too many cells", "plain cells in styled rows", "cell fonts", "document font", "drawn twice", "long tables", "made before they are drawn", "drawn again with more rows"},
		Run:  runC22})
}

type tabLine struct {
	x0, y0, x1, y1 float64 // top-down, ordered
	lw             float64
	col            [3]float64
	pos            int
}

// want22 is one border asked for.
type want22 struct {
	x0, y0, x1, y1 float64
	lw             float64 // negative: the library's choice
	col            [3]float64
	rank           int // 0 cell, 1 table, 2 header
}

func randTabStyle(r interface {
	Intn(int) int
	Float64() float64
}, fams int) *TabStyle {
	s := &TabStyle{BW: round3(0.2 + r.Float64()*3), Size: []float64{5, 7, 8.5, 10, 13}[r.Intn(5)]}
	if r.Intn(8) == 0 {
		s.BW = 0
	}
	if r.Intn(3) > 0 {
		s.Font = famName(r.Intn(fams))
	}
	for i := range s.Sides {
		s.Sides[i] = r.Intn(3) > 0
	}
	part := func() uint8 {
		if r.Intn(4) == 0 {
			return 0
		}
		return uint8(r.Intn(256))
	}
	for i := 0; i < 3; i++ {
		s.BC[i], s.Text[i] = part(), part()
	}
	if r.Intn(3) > 0 {
		for i := 0; i < 3; i++ {
			s.Fill[i] = part()
		}
	}
	return s
}

func rgbOf(c [3]uint8) [3]float64 {
	return [3]float64{float64(c[0]) / 255, float64(c[1]) / 255, float64(c[2]) / 255}
}

func sameCol(a, b [3]float64) bool {
	return math.Abs(a[0]-b[0])+math.Abs(a[1]-b[1])+math.Abs(a[2]-b[2]) < 0.002
}

func colOf(k pdfr.Color) ([3]float64, bool) {
	switch k.Space {
	case "RGB":
		return [3]float64{k.V[0], k.V[1], k.V[2]}, true
	case "Gray":
		return [3]float64{k.V[0], k.V[0], k.V[0]}, true
	}
	return [3]float64{}, false
}

func runC22(c *Case) {
	r := c.R
	sc := &Script{Cfg: Cfg{W: 1200, H: 1500}}
	page := func() Op {
		if r.Intn(3) == 0 {
			return Op{K: "addpage", F: []float64{1300, float64(1200 + r.Intn(1000))}}
		}
		return Op{K: "addpage"}
	}
	nf := 1 + r.Intn(2)
	var envs []*textEnv
	for i := 0; i < nf; i++ {
		e := randTextEnv(c, sc)
		e.Sp = 0
		if e.A.F.TypoAsc-e.A.F.TypoDesc <= 0 {
			return
		}
		envs = append(envs, e)
	}
	unit := randUnit(r)
	sp := []float64{0, 0, 0.5, -0.2}[r.Intn(4)]
	type job struct {
		t    *TabSpec
		doc  textEnv
		bad  bool
		n    int // times drawn
		page int
	}
	var jobs []job
	for k := 1 + r.Intn(3); k > 0; k-- {
		j := job{n: 1}
		di := r.Intn(nf)
		j.doc = *envs[di]
		j.doc.Size = []float64{6, 8, 9.5, 12}[r.Intn(4)]
		sc.Ops = append(sc.Ops, page(), Op{K: "setfont", S: []string{famName(di)}, I: []int{0, 0, 0}, N: []float64{j.doc.Size}}, Op{K: "spacing", F: []float64{sp}})
		// state that must not leak into the table or matter to it
		for r.Intn(2) == 0 {
			switch r.Intn(5) {
			case 0:
				sc.Ops = append(sc.Ops, Op{K: "lw", F: []float64{7}})
			case 1:
				sc.Ops = append(sc.Ops, Op{K: "fill", I: []int{9, 99, 199}})
			case 2:
				sc.Ops = append(sc.Ops, Op{K: "txt", I: []int{200, 30, 3}})
			case 3:
				sc.Ops = append(sc.Ops, Op{K: "gfill", N: []float64{0.5}})
			default:
				sc.Ops = append(sc.Ops, Op{K: "stroke", I: []int{1, 2, 250}})
			}
		}
		t := &TabSpec{X: round3(r.Float64() * 200), Y: round3(r.Float64() * 200), RowH: round3(20 + r.Float64()*40)}
		nc := 1 + r.Intn(5)
		wide, long := r.Intn(15) == 0, r.Intn(15) == 0
		if wide {
			nc = 8 + r.Intn(8)
			t.X = round3(r.Float64() * 20)
		}
		text := func(e *textEnv) string {
			if r.Intn(8) == 0 {
				return ""
			}
			max := 6
			if r.Intn(3) == 0 {
				max = 30
			}
			s := string(splitAlphabet(r, e, max, ' '))
			// nothing that looks like the break indicator
			s = strings.Map(func(ch rune) rune {
				for _, e := range envs {
					if _, g, _ := e.sub(ch); ch != ' ' && ch != '\n' && g == e.A.Gid(' ') {
						return -1
					}
				}
				return ch
			}, s)
			var ws []string
			for _, l := range strings.Split(s, "\n") {
				if l = strings.Join(strings.Fields(l), " "); l != "" {
					ws = append(ws, l)
				}
			}
			return strings.Join(ws, "\n")
		}
		for i := 0; i < nc; i++ {
			t.Heads = append(t.Heads, text(&j.doc))
			w := 30 + r.Float64()*110
			if wide {
				w = 20 + r.Float64()*50
			}
			t.Widths = append(t.Widths, round3(w))
			t.Aligns = append(t.Aligns, []string{"left", "center", "right", "", "right"}[r.Intn(5)])
		}
		rows := r.Intn(6)
		if long {
			t.RowH = round3(20 + r.Float64()*8)
			rows = 12 + r.Intn(18)
			c.Count("long tables", 1)
		}
		t.MaxRows = rows + r.Intn(4) - 1
		if t.MaxRows < 0 || r.Intn(10) == 0 {
			t.MaxRows = 0
		}
		if t.MaxRows > rows {
			c.Count("empty rows", 1)
		}
		for i := 0; i < rows; i++ {
			var row []TabCell
			n := nc
			if r.Intn(10) == 0 {
				n = r.Intn(nc + 1)
				if n < nc {
					c.Count("short rows", 1)
				}
			}
			if r.Intn(60) == 0 {
				n = nc + 1 + r.Intn(2)
				j.bad = true
			}
			styled := r.Intn(3) == 0
			for q := 0; q < n; q++ {
				cell := TabCell{}
				if styled && q > 0 && r.Intn(6) == 0 { // nothing, in the table's style
					row = append(row, cell)
					c.Count("plain cells in styled rows", 1)
					continue
				}
				if styled {
					cell.Style = randTabStyle(r, nf)
					c.Count("styled cells", 1)
				}
				cell.Text = text(&j.doc)
				row = append(row, cell)
			}
			t.Rows = append(t.Rows, row)
		}
		if r.Intn(2) == 0 {
			t.Table = randTabStyle(r, nf)
		}
		if r.Intn(2) == 0 {
			t.Head = randTabStyle(r, nf)
		}
		if r.Intn(2) == 0 {
			t.Cell = randTabStyle(r, nf)
		} else {
			c.Count("default styles", 1)
		}
		// styles that agree in something
		if t.Table != nil {
			all := []*TabStyle{t.Head, t.Cell}
			for _, row := range t.Rows {
				for q := range row {
					all = append(all, row[q].Style)
				}
			}
			for _, s := range all {
				if s == nil || r.Intn(4) > 0 {
					continue
				}
				switch r.Intn(5) {
				case 0:
					s.Fill = t.Table.Fill
				case 1:
					s.BC, s.BW = t.Table.BC, t.Table.BW
				case 2:
					s.Text = t.Table.Text
				case 3:
					s.Font, s.Size = t.Table.Font, t.Table.Size
				default:
					*s = *t.Table
				}
			}
		}
		j.t = t
		t.Later = !j.bad && r.Intn(5) == 0
		if t.Later { // the font in force when it is made does not matter
			ops := []Op{{K: "setfont", S: []string{famName(r.Intn(nf))}, I: []int{0, 0, 0}, N: []float64{14}}, {K: "table", Tab: t}}
			if r.Intn(2) == 0 { // nor where
				ops = append(ops, Op{K: "setfont", S: []string{famName(di)}, I: []int{0, 0, 0}, N: []float64{j.doc.Size}})
			} else {
				last := len(sc.Ops) - 1
				for sc.Ops[last].K != "addpage" {
					last--
				}
				sc.Ops = append(append(append([]Op{}, sc.Ops[:last]...), ops...), sc.Ops[last:]...)
				ops = nil
			}
			sc.Ops = append(append(sc.Ops, ops...), Op{K: "redraw"})
			c.Count("made before they are drawn", 1)
		} else {
			sc.Ops = append(sc.Ops, Op{K: "table", Tab: t})
		}
		jobs = append(jobs, j)
		if !j.bad && r.Intn(6) == 0 { // the same table again
			if r.Intn(2) == 0 { // in another font
				size := []float64{5, 7, 11}[r.Intn(3)]
				di = r.Intn(nf)
				j.doc = *envs[di]
				j.doc.Size = size
			}
			again := Op{K: "redraw"}
			if r.Intn(2) == 0 { // with more rows
				u := *t
				u.Rows = append([][]TabCell{}, t.Rows...)
				again.Tab = &TabSpec{}
				for q := 1 + r.Intn(3); q > 0; q-- {
					var row []TabCell
					for range t.Heads {
						row = append(row, TabCell{Text: text(&j.doc)})
					}
					u.Rows = append(u.Rows, row)
					again.Tab.Rows = append(again.Tab.Rows, row)
				}
				j.t = &u
				c.Count("drawn again with more rows", 1)
			}
			sc.Ops = append(sc.Ops, page(), Op{K: "setfont", S: []string{famName(di)}, I: []int{0, 0, 0}, N: []float64{j.doc.Size}}, again)
			jobs = append(jobs, j)
			c.Count("drawn twice", 1)
		}
	}
	c.trace = func() string { return fmt.Sprintf("unit %+v\n%s", unit, sc) }
	v, b := runScript(sc, unit, nil)
	ti := 0
	for _, q := range v.Recs {
		bad := false
		if q.K == "redraw" || q.K == "table" && !sc.Ops[q.I].Tab.Later {
			bad = jobs[ti].bad
			ti++
		}
		if bad && q.Err == "" {
			c.Fail("no-error", "a row with more cells than columns is accepted")
			return
		}
		if !bad && q.Err != "" {
			c.Fail("error:"+q.K, "%s: %s", q.K, q.Err)
			return
		}
	}
	d := openDoc(c, sc, b)
	if d == nil {
		return
	}
	pages, err := d.Pages()
	if err != nil || len(pages) != len(jobs) {
		c.Fail("pages", "%d pages for %d, %v", len(pages), len(jobs), err)
		return
	}
	fonts := d.LoadFonts()
	emb := map[int]*ttfx.Font{}
	for k := range jobs {
		content, err := d.PageContent(pages[k])
		if err != nil {
			c.Fail("content", "%v", err)
			return
		}
		it := d.Run(content, pages[k].Res, pdfr.InitialGS(), fonts, false)
		if jobs[k].bad {
			c.Count("too many cells", 1)
			if len(it.Events) > 0 {
				c.Fail("drawn-on-error", "page %d: a table that is refused draws %d items", k+1, len(it.Events))
			}
			continue
		}
		tab22(c, d, it.Events, jobs[k].t, jobs[k].doc, envs, sp, pages[k].MediaBox[3], fmt.Sprintf("page %d", k+1), emb)
		if c.Failed() {
			return
		}
	}
}

func tab22(c *Case, d *pdfr.Doc, evs []pdfr.Event, t *TabSpec, doc textEnv, envs []*textEnv, sp, H float64, where string, emb map[int]*ttfx.Font) {
	c.Count("tables", 1)
	// what is on the page
	type fill struct {
		x, y, w, h float64
		col        [3]float64
		pos        int
		used       bool
	}
	type txt struct {
		ev  *pdfr.Event
		pos int
	}
	var fills []*fill
	var lines []*tabLine
	var texts []txt
	for i := range evs {
		ev := &evs[i]
		switch ev.Kind {
		case "path":
			x0, y0, x1, y1 := math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)
			for _, s := range ev.Path {
				if s.K == 'M' || s.K == 'L' {
					p := s.P[0]
					x0, x1 = math.Min(x0, p.X), math.Max(x1, p.X)
					y0, y1 = math.Min(y0, H-p.Y), math.Max(y1, H-p.Y)
				}
			}
			if strings.ContainsAny(ev.Paint, "f") {
				k, ok := colOf(ev.GS.Fill)
				if !ok {
					c.Fail("fill-colour", "%s: fill in %+v", where, ev.GS.Fill)
					return
				}
				fills = append(fills, &fill{x0, y0, x1 - x0, y1 - y0, k, i, false})
			} else {
				k, ok := colOf(ev.GS.Stroke)
				if !ok {
					c.Fail("border-colour", "%s: border in %+v", where, ev.GS.Stroke)
					return
				}
				lines = append(lines, &tabLine{x0, y0, x1, y1, ev.GS.LW, k, i})
			}
		case "text":
			if len(ev.Glyphs) > 0 {
				texts = append(texts, txt{ev, i})
			}
		default:
			c.Fail("item", "%s: a %s in a table", where, ev.Kind)
			return
		}
	}
	// what is asked for
	type cell struct {
		x, y, w float64
		text    string
		align   string
		st      *TabStyle
		name    string
		fillPos int
	}
	def := func(head bool) *TabStyle {
		s := &TabStyle{BW: -1, Sides: [4]bool{true, true, true, true}}
		if head {
			s.Fill = [3]uint8{240, 240, 240}
		}
		return s
	}
	hs, cs, ts := t.Head, t.Cell, t.Table
	if hs == nil {
		hs = def(true)
	}
	if cs == nil {
		cs = def(false)
	}
	if ts == nil {
		ts = def(false)
	}
	var cells []*cell
	var want []want22
	border := func(x0, y0, x1, y1 float64, s *TabStyle, rank int) {
		if s.BW == 0 {
			return
		}
		k := rgbOf(s.BC)
		for i, on := range s.Sides { // top, left, right, bottom
			if !on {
				continue
			}
			w := want22{x0, y0, x1, y1, s.BW, k, rank}
			switch i {
			case 0:
				w.y1 = y0
			case 1:
				w.x1 = x0
			case 2:
				w.x0 = x1
			case 3:
				w.y0 = y1
			}
			want = append(want, w)
		}
	}
	x := t.X
	for i, h := range t.Heads {
		cells = append(cells, &cell{x: x, y: t.Y, w: t.Widths[i], text: h, align: "center", st: hs, name: fmt.Sprintf("header %d", i), fillPos: -1})
		x += t.Widths[i]
	}
	right := x
	rows := len(t.Rows)
	if t.MaxRows > rows {
		rows = t.MaxRows
	}
	for q := 0; q < rows; q++ {
		x := t.X
		y := t.Y + float64(q+1)*t.RowH
		for i := range t.Heads {
			if q < len(t.Rows) && i >= len(t.Rows[q]) {
				break
			}
			k := &cell{x: x, y: y, w: t.Widths[i], align: t.Aligns[i], st: cs, name: fmt.Sprintf("row %d cell %d", q, i), fillPos: -1}
			if q < len(t.Rows) {
				k.text = t.Rows[q][i].Text
				if s := t.Rows[q][i].Style; s != nil {
					k.st = s
				}
			}
			border(k.x, k.y, k.x+k.w, k.y+t.RowH, k.st, 0)
			cells = append(cells, k)
			x += k.w
		}
	}
	border(t.X, t.Y, right, t.Y+float64(rows+1)*t.RowH, ts, 1)
	border(t.X, t.Y, right, t.Y+t.RowH, hs, 2)
	c.Count("cells", len(cells))

	const tol = 0.016
	near := func(a, b float64) bool { return math.Abs(a-b) <= tol }
	// fills
	for _, k := range cells {
		if k.st.Fill == [3]uint8{} {
			continue
		}
		c.Count("fills", 1)
		ok := false
		for _, f := range fills {
			if !f.used && near(f.x, k.x) && near(f.y, k.y) && near(f.w, k.w) && near(f.h, t.RowH) {
				if !sameCol(f.col, rgbOf(k.st.Fill)) {
					c.Fail("fill-colour", "%s: %s is filled with %v, its style asks for %v", where, k.name, f.col, rgbOf(k.st.Fill))
					return
				}
				f.used, ok, k.fillPos = true, true, f.pos
				break
			}
		}
		if !ok {
			c.Fail("fill-missing", "%s: %s at %.3f,%.3f is not filled", where, k.name, k.x, k.y)
			return
		}
	}
	for _, f := range fills {
		if !f.used {
			c.Fail("fill-extra", "%s: a fill at %.3f,%.3f %.3f x %.3f that no style asks for", where, f.x, f.y, f.w, f.h)
			return
		}
	}
	// borders
	fits := func(l *tabLine, w want22) bool {
		half := l.lw / 2
		ends := func(a0, a1, b0, b1 float64) bool {
			return a0 <= b0+tol && a0 >= b0-half-tol && a1 >= b1-tol && a1 <= b1+half+tol
		}
		if w.y0 == w.y1 {
			if !near(l.y0, w.y0) || !near(l.y1, w.y1) || !ends(l.x0, l.x1, w.x0, w.x1) {
				return false
			}
		} else if !near(l.x0, w.x0) || !near(l.x1, w.x1) || !ends(l.y0, l.y1, w.y0, w.y1) {
			return false
		}
		if w.lw >= 0 && math.Abs(l.lw-w.lw) > 0.0051 {
			return false
		}
		return sameCol(l.col, w.col)
	}
	okLine := make([]bool, len(lines))
	rank := make([]int, len(lines))
	for _, w := range want {
		c.Count("border lines", 1)
		ok := false
		for i, l := range lines {
			if fits(l, w) {
				okLine[i] = true
				ok = true
				if w.rank > rank[i] {
					rank[i] = w.rank
				}
			}
		}
		if !ok {
			c.Fail("border-missing", "%s: no border from %.3f,%.3f to %.3f,%.3f of width %.3f colour %.3v (rank %d)", where, w.x0, w.y0, w.x1, w.y1, w.lw, w.col, w.rank)
			return
		}
	}
	for i, l := range lines {
		if !okLine[i] {
			c.Fail("border-extra", "%s: a line from %.3f,%.3f to %.3f,%.3f of width %.3f colour %.3v that no style asks for", where, l.x0, l.y0, l.x1, l.y1, l.lw, l.col)
			return
		}
	}
	// the table's own border and the header's are not drawn over by cells
	for i, l := range lines {
		for q, m := range lines {
			if m.pos > l.pos && rank[q] < rank[i] && rank[q] == 0 {
				vert := l.x0 == l.x1
				same := vert && m.x0 == m.x1 && near(l.x0, m.x0) && m.y0 > l.y0-1 && m.y1 < l.y1+1 || !vert && m.y0 == m.y1 && near(l.y0, m.y0) && m.x0 > l.x0-1 && m.x1 < l.x1+1
				if same && !(fitsAny(lines[q], want, 1, fits)) {
					c.Fail("border-covered", "%s: the table's border from %.3f,%.3f to %.3f,%.3f is drawn over by a cell's", where, l.x0, l.y0, l.x1, l.y1)
					return
				}
			}
		}
	}
	// text: in order, cell by cell
	pad := math.NaN()
	li := 0
	type judged struct {
		k     *cell
		e     textEnv
		lines []string
	}
	var js []judged
	for _, k := range cells {
		if k.text == "" {
			continue
		}
		e := doc
		if k.st.Font != "" {
			e = *envs[famIndex(k.st.Font)]
			e.Size = k.st.Size
			c.Count("cell fonts", 1)
		} else {
			c.Count("document font", 1)
		}
		e.Sp = sp
		lh := float64(e.A.F.TypoAsc-e.A.F.TypoDesc) * e.Size / float64(e.A.F.UPEM)
		mid := float64(e.A.F.TypoAsc+e.A.F.TypoDesc) * e.Size / float64(e.A.F.UPEM) / 2
		text := []rune(k.text)
		// the positions in the text the lines so far can have reached; a break indicator or newline after a
		// line is dropped
		reach := map[int][]string{0: nil}
		var ls []txt
		// how many lines there are shows in the place of the first: the block is centred
		lines := 1
		if li < len(texts) && lh > 0 {
			lines = 1 + int(math.Round((k.y+t.RowH/2+mid-(H-texts[li].ev.TextMat[5]))*2/lh))
		}
		for len(ls) < lines || reach[len(text)] == nil && len(ls) < 2*len(text) {
			if li >= len(texts) {
				c.Fail("text-missing", "%s: %s shows %d lines of %q and ends early", where, k.name, len(ls), k.text)
				return
			}
			ev := texts[li].ev
			next := map[int][]string{}
			for p, g := range reach {
				if q := p + len(ev.Glyphs); startsWith(ev, text[p:], &e) {
					g := append(append([]string{}, g...), string(text[p:q]))
					next[q] = g
					if q < len(text) && (text[q] == ' ' || text[q] == '\n') {
						next[q+1] = g
					}
				}
			}
			if len(next) == 0 {
				c.Fail("text", "%s: line %d of %s shows something else than %q", where, len(ls), k.name, k.text)
				return
			}
			reach = next
			ls = append(ls, texts[li])
			li++
		}
		got := reach[len(text)]
		// blank lines of the text are lines too
		js = append(js, judged{k, e, got})
		if len(ls) > 1 {
			c.Count("wrapped cells", 1)
		}
		n := len(ls)
		for i, l := range ls {
			ev := l.ev
			if l.pos < k.fillPos {
				c.Fail("text-under", "%s: the text of %s is drawn before its fill", where, k.name)
				return
			}
			// style
			if math.Abs(ev.GS.FontSize-e.Size) > 0.0006 {
				c.Fail("text-size", "%s: %s has size %.3f, its style asks for %.3f", where, k.name, ev.GS.FontSize, e.Size)
				return
			}
			f := emb[ev.GS.FontObj]
			if f == nil {
				f = embedded(d, ev.GS.FontObj)
				if f == nil {
					c.Fail("font", "%s: font %d has no program", where, ev.GS.FontObj)
					return
				}
				emb[ev.GS.FontObj] = f
			}
			src := e.A.F
			same := len(f.Adv) == len(src.Adv) && f.UPEM == src.UPEM
			for g := 0; same && g < len(f.Adv); g++ {
				same = f.Adv[g] == src.Adv[g]
			}
			if !same {
				c.Fail("text-font", "%s: %s is not in the font its style asks for (%q)", where, k.name, k.st.Font)
				return
			}
			if col, ok := colOf(ev.GS.Fill); !ok || !sameCol(col, rgbOf(k.st.Text)) {
				c.Fail("text-colour", "%s: the text of %s is %v, its style asks for %v", where, k.name, col, rgbOf(k.st.Text))
				return
			}
			// place
			t0 := []rune(got[i])
			w, wt := e.width(t0)
			wt += 0.012
			x0 := ev.TextMat[4] + ev.Glyphs[0].X
			g := ev.Glyphs[len(ev.Glyphs)-1]
			x1 := ev.TextMat[4] + g.X + g.Advance
			if math.Abs(x1-x0-w) > wt+0.0006*float64(len(t0)) {
				c.Fail("text-width", "%s: line %d of %s is %.3f wide, expected %.3f", where, i, k.name, x1-x0, w)
				return
			}
			switch k.align {
			case "center":
				c.Count("centre", 1)
				if m := (x0 + x1) / 2; math.Abs(m-k.x-k.w/2) > wt {
					c.Fail("text-x", "%s: the middle of line %d of %s is at %.3f, the cell's at %.3f", where, i, k.name, m, k.x+k.w/2)
					return
				}
			default:
				p := x0 - k.x
				c.Count(map[bool]string{true: "right", false: "left"}[k.align == "right"], 1)
				if k.align == "right" {
					p = k.x + k.w - x1
				}
				if math.IsNaN(pad) {
					pad = p
				}
				if math.Abs(p-pad) > wt*2 || p < -wt {
					c.Fail("text-x", "%s: line %d of %s (%s) is %.3f from the side, others %.3f", where, i, k.name, k.align, p, pad)
					return
				}
			}
			want := k.y + t.RowH/2 + mid + (float64(i)-float64(n-1)/2)*lh
			if y := H - ev.TextMat[5]; math.Abs(y-want) > 0.012 {
				c.Fail("text-y", "%s: the baseline of line %d of %d of %s is at %.3f, expected %.3f", where, i, n, k.name, y, want)
				return
			}
		}
		if float64(n)*lh > t.RowH {
			c.Count("overfull cells", 1)
		}
	}
	if li != len(texts) {
		c.Fail("text-extra", "%s: %d lines of text more than the cells have", where, len(texts)-li)
		return
	}
	if pad < 12 {
		for _, q := range js {
			splitJudge(c, &q.e, []rune(q.k.text), q.k.w-2*pad, true, ' ', "", q.lines, where+" "+q.k.name)
			if c.Failed() {
				return
			}
		}
	}
	var al []string
	al = append(al, t.Aligns...)
	sort.Strings(al)
	c.Distinct(fmt.Sprintf("%v %d %d %v", al, len(t.Rows), rows, t.Cell != nil))
	c.Sample("%d cells, %d border lines", len(cells), len(lines))
}

func fitsAny(l *tabLine, want []want22, rank int, fits func(*tabLine, want22) bool) bool {
	for _, w := range want {
		if w.rank >= rank && fits(l, w) {
			return true
		}
	}
	return false
}

// startsWith tells whether a line of text is the beginning of t.
func startsWith(ev *pdfr.Event, t []rune, e *textEnv) bool {
	if len(ev.Glyphs) > len(t) {
		return false
	}
	for i, g := range ev.Glyphs {
		if t[i] == '\n' {
			return false
		}
		if _, w, _ := e.sub(t[i]); w != g.GID {
			return false
		}
	}
	return true
}

var _ = gopdf.Left
