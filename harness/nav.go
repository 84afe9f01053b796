package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"time"

	"vmon/pdfr"
)

// C19 (information and outlines) and C20 (links).

// nestPlan draws a tree over n outline entries: every entry after its parent.
func nestPlan(seed int64, n int, some bool) []nestEntry {
	r := rand.New(rand.NewSource(seed))
	o := []nestEntry{}
	perm := r.Perm(n)
	if r.Intn(2) == 0 {
		for i := range perm {
			perm[i] = i
		}
	}
	var in []int
	wide := r.Intn(4) == 0
	for _, i := range perm {
		if some && r.Intn(3) == 0 {
			continue
		}
		p := -1
		if len(in) > 0 && r.Intn(3) > 0 {
			p = in[r.Intn(len(in))]
			if wide {
				p = in[0]
				if r.Intn(6) == 0 {
					p = in[r.Intn(len(in))]
				}
			} else if r.Intn(2) == 0 {
				p = in[len(in)-1]
			}
		}
		in = append(in, i)
		o = append(o, nestEntry{i, p})
	}
	return o
}

// pageTrack follows which page is current.
type pageTrack struct {
	v      *VM
	n, cur int
}

func (t *pageTrack) sync() {
	if k := t.v.G.GetNumberOfPages(); k > t.n {
		t.n, t.cur = k, k
	}
}

// navEvent is one navigation call with the place it was made at.
type navEvent struct {
	op   *Op
	page int
	y    float64 // points from the top
	size float64 // font size in force
}

func randTitle(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return ""
	case 1:
		return "a(b\\c)d) \r\n\t\x00>"
	case 2:
		return "Zürich – 日本語 – 😀𝄞"
	case 3:
		return "\xff\xfebroken\xc3"
	}
	n := r.Intn(30)
	var o []rune
	for i := 0; i < n; i++ {
		c := rune(r.Intn(0x110000))
		switch r.Intn(3) {
		case 0:
			c = rune(r.Intn(128))
		case 1:
			c = rune(r.Intn(0x3000))
		}
		o = append(o, c)
	}
	return string(o)
}

func randURL(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		return fmt.Sprintf("http://example.com/%d?(a\\b)", r.Intn(100))
	case 1:
		return "mailto:x@y.z?subject=(\r\n)\\)"
	}
	n := 1 + r.Intn(60)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(33 + r.Intn(94))
		switch r.Intn(12) {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1:
			b[i] = "()\\\r\n"[r.Intn(5)]
		}
	}
	return string(b)
}

var infoKeys = []string{"Title", "Author", "Subject", "Creator", "Producer"}

// navScript draws a document with many navigation calls.
func navScript(c *Case, outl, links int) *Script {
	r := c.R
	w := mergeW(wText, wMove, wPage, wMarg, wPH, wOut, map[string]int{"line": 4, "image": 2, "compress": 1, "save": 1, "restore": 2, "rotate": 1})
	for k := range wOutl {
		w[k] = outl
	}
	for k := range wLink {
		w[k] = links
	}
	w["addpage"], w["setpage"] = 8, 5
	p := Profile{W: w, Steps: 5 + r.Intn(50), Images: 1, Header: true, Sizes: true, Bulk: 12, Protect: r.Intn(5) == 0, Fonts: 1}
	if r.Intn(8) == 0 && !p.Protect {
		p.PDFs = 1
		w["imp"], w["use"], w["impall"] = 1, 2, 3
	}
	g := newGen(r, p)
	return g.build()
}

// eachOp visits the calls, those in callbacks too.
func eachOp(ops []Op, f func(o *Op)) {
	for i := range ops {
		f(&ops[i])
		eachOp(ops[i].Sub, f)
	}
}

// runNav runs a script and returns the navigation calls in order.
func runNav(sc *Script, unit Unit) (*VM, []byte, []navEvent) {
	var ev []navEvent
	t := &pageTrack{}
	size := 0.0
	v, b := runScript(sc, unit, func(v *VM) {
		t.v = v
		v.Enter = func(op *Op) {
			t.sync()
			switch op.K {
			case "outline", "outlinepos", "extlink", "intlink", "anchor":
				ev = append(ev, navEvent{op, t.cur, v.p(v.G.GetY()), size})
			}
		}
		v.Leave = func(op *Op, rec *Rec) {
			t.sync()
			if op.K == "setpage" && rec.Err == "" {
				t.cur = op.I[0]
			}
			if (op.K == "setfont" || op.K == "fontsize") && rec.Err == "" {
				size = op.N[0]
			}
		}
	})
	return v, b, ev
}

func init() {
	register(&Check{ID: "C19", Quick: 8000, Deep: 60000, Rule: "random histories over pages of different sizes with outline entries (also from callbacks, with and without position, nested into random trees) and document information of random Unicode text, units and protection; read back by walking the outline tree and the trailer",
		Need: []string{"entries", "positioned entries", "nested entries", "depth 3", "entries after nesting", "unnested entries", "entries in callbacks", "info", "info fields", "dates", "half-hour zones", "info replaced", "no info", "encrypted", "mid-document outputs"},
		Run:  runC19})
	register(&Check{ID: "C20", Quick: 8000, Deep: 60000, Rule: "random histories over pages of different sizes with external links of random bytes and internal links before and after their anchors, on any page, re-defined anchors, callbacks, units and protection; annotations read back and compared",
		Need: []string{"external links", "internal links", "anchor on another page", "anchor after the link", "anchor redefined", "undefined anchors", "links in callbacks", "encrypted", "odd addresses", "mid-document outputs"},
		Run:  runC20})
}

func runC19(c *Case) {
	r := c.R
	sc := navScript(c, 10, 1)
	n := 0
	inCB := 0
	for i := range sc.Ops {
		if sc.Ops[i].K == "header" || sc.Ops[i].K == "footer" {
			if r.Intn(2) == 0 {
				sc.Ops[i].Sub = append(sc.Ops[i].Sub, Op{K: []string{"outline", "outlinepos"}[r.Intn(2)], S: []string{""}})
			}
		}
	}
	eachOp(sc.Ops, func(o *Op) {
		if o.K == "outline" || o.K == "outlinepos" {
			n++
			o.S = []string{randTitle(r)}
		}
	})
	// nesting somewhere in the second half; information anywhere
	insert := func(at int, o Op) {
		sc.Ops = append(sc.Ops[:at], append([]Op{o}, sc.Ops[at:]...)...)
	}
	var ops []Op
	for _, o := range sc.Ops {
		if o.K != "info" {
			ops = append(ops, o)
		}
	}
	sc.Ops = ops
	if r.Intn(2) == 0 {
		at := len(sc.Ops) - r.Intn(1+len(sc.Ops)/3)
		o := Op{K: "nest2", I: []int{r.Intn(1 << 30), r.Intn(2)}}
		insert(at, o)
		if r.Intn(4) == 0 {
			insert(at, o) // the same again changes nothing
		}
		if r.Intn(2) == 0 {
			o := Op{K: "nest2", I: []int{r.Intn(1 << 30), 0, 1}}
			insert(at+1+r.Intn(len(sc.Ops)-at), o)
		}
	}
	ni := r.Intn(3)
	for i := 0; i < ni; i++ {
		o := Op{K: "info"}
		for range infoKeys {
			s := ""
			if r.Intn(3) > 0 {
				s = randTitle(r)
			}
			o.S = append(o.S, s)
		}
		if r.Intn(3) > 0 {
			z := []int{0, 3600, -18000, 19800, -12600, 45900, -34200, 20700}[r.Intn(8)]
			o.I = []int{r.Intn(4000000000) - 1000000000, z}
		}
		at := r.Intn(len(sc.Ops) + 1)
		insert(at, o)
		if r.Intn(2) == 0 {
			insert(at+1, Op{K: "getinfo"})
		}
	}
	if ni == 0 && r.Intn(3) == 0 {
		insert(r.Intn(len(sc.Ops)+1), Op{K: "getinfo"})
	}
	unit := randUnit(r)
	c.trace = func() string { return fmt.Sprintf("unit %+v\n%s", unit, sc) }
	v, b, ev := runNav(sc, unit)
	d := openDoc(c, sc, b)
	if d == nil {
		return
	}
	if sc.Cfg.Protect {
		c.Count("encrypted", 1)
	}
	pages, err := d.Pages()
	if err != nil {
		c.Fail("pages", "%v", err)
		return
	}
	_ = inCB
	// expected entries
	type entry struct {
		title  string
		page   int
		y      float64
		pos    bool
		parent int
		kids   []int
		depth  int
	}
	var es []entry
	var posIdx []int // positioned entries -> entry
	for _, e := range ev {
		if e.op.K != "outline" && e.op.K != "outlinepos" {
			continue
		}
		if e.op.K == "outlinepos" {
			posIdx = append(posIdx, len(es))
			c.Count("positioned entries", 1)
		}
		es = append(es, entry{title: string([]rune(e.op.S[0])), page: e.page, y: e.y, pos: e.op.K == "outlinepos", parent: -1})
		c.Count("entries", 1)
	}
	for i := range sc.Ops {
		for _, o := range sc.Ops[i].Sub {
			if strings.HasPrefix(o.K, "outline") && len(pages) > 1 {
				c.Count("entries in callbacks", 1)
			}
		}
	}
	listed := map[int]bool{}
	var topListed []int
	for _, e := range v.Nest {
		i := posIdx[e.I]
		if e.Parent >= 0 {
			p := posIdx[e.Parent]
			es[i].parent = p
			es[i].depth = es[p].depth + 1
			es[p].kids = append(es[p].kids, i)
			c.Count("nested entries", 1)
			if es[i].depth == 2 {
				c.Count("depth 3", 1)
			}
		} else {
			listed[i] = true
			topListed = append(topListed, i)
		}
	}
	var top []int
	seenNest := len(v.Nest) > 0
	for i := range es {
		if es[i].parent >= 0 {
			continue
		}
		if listed[i] {
			i = topListed[0]
			topListed = topListed[1:]
		} else if seenNest {
			c.Count("unnested entries", 1)
		}
		top = append(top, i)
	}
	if seenNest && len(posIdx) > 0 {
		last := posIdx[len(posIdx)-1]
		inPlan := false
		for _, e := range v.Nest {
			if posIdx[e.I] == last {
				inPlan = true
			}
		}
		if !inPlan {
			c.Count("entries after nesting", 1)
		}
	}
	cat := d.Dict(d.Trailer["Root"])
	ol := d.Dict(cat["Outlines"])
	if len(es) == 0 {
		if ol != nil && (ol["First"] != nil || d.Int(ol["Count"], 0) != 0) {
			c.Fail("outline-extra", "no entries were added, the outline dictionary is %v", ol)
		}
	} else if ol == nil {
		c.Fail("outline-missing", "%d entries were added, the catalog has no outline", len(es))
		return
	} else {
		seen := map[int]bool{}
		var walk func(parentObj int, pd pdfr.Dict, kids []int, path string) bool
		walk = func(parentObj int, pd pdfr.Dict, kids []int, path string) bool {
			ref, ok := pd["First"].(pdfr.Ref)
			if len(kids) == 0 {
				if ok || pd["Last"] != nil || d.Int(pd["Count"], 0) != 0 {
					c.Fail("outline-extra", "%s has no children, its dictionary is %v", path, pd)
				}
				return true
			}
			cnt := d.Int(pd["Count"], 0)
			if path == "root" && cnt != len(kids) || path != "root" && cnt != -len(kids) && cnt != len(kids) {
				c.Fail("outline-count", "%s has %d children, Count is %d", path, len(kids), cnt)
			}
			prev := -1
			for k, i := range kids {
				p := fmt.Sprintf("%s/%d", path, k)
				if !ok {
					c.Fail("outline-chain", "%s: entry %q is missing (the chain ends)", p, es[i].title)
					return false
				}
				if seen[ref.Num] {
					c.Fail("outline-cycle", "%s: object %d appears twice", p, ref.Num)
					return false
				}
				seen[ref.Num] = true
				ed := d.Dict(ref)
				if ed == nil {
					c.Fail("outline-chain", "%s: object %d is no dictionary", p, ref.Num)
					return false
				}
				ts, _ := d.R(ed["Title"]).(pdfr.Str)
				tt, isU := pdfr.UTF16Text(d.DecString(ref.Num, ts))
				if tt != es[i].title || !isU && tt != "" {
					c.Fail("outline-title", "%s: title %q, want %q", p, tt, es[i].title)
				}
				if pr, _ := ed["Parent"].(pdfr.Ref); pr.Num != parentObj {
					c.Fail("outline-parent", "%s: Parent %v, want object %d", p, ed["Parent"], parentObj)
				}
				pv, has := ed["Prev"].(pdfr.Ref)
				if prev < 0 && has || prev >= 0 && pv.Num != prev {
					c.Fail("outline-prev", "%s: Prev %v, want %d", p, ed["Prev"], prev)
				}
				de := d.Arr(ed["Dest"])
				if len(de) < 2 {
					c.Fail("outline-dest", "%s: Dest %v", p, ed["Dest"])
					return false
				}
				pr, _ := de[0].(pdfr.Ref)
				pg := 0
				for q := range pages {
					if pages[q].Num == pr.Num {
						pg = q + 1
					}
				}
				if pg != es[i].page {
					c.Fail("outline-page", "%s: %q leads to page %d, was added on page %d", p, es[i].title, pg, es[i].page)
					return false
				}
				if es[i].pos {
					H := pages[pg-1].MediaBox[3]
					y := math.NaN()
					if len(de) >= 4 && d.Name(de[1]) == "XYZ" {
						if f, ok := d.Float(de[3]); ok {
							y = f
						}
					}
					// the line above the cursor may be shown too
					if !(y >= H-es[i].y-0.02 && y <= H-es[i].y+20.02) {
						c.Fail("outline-height", "%s: %q leads to height %v, was added at %.3f on a page %.2f high", p, es[i].title, de, H-es[i].y, H)
					}
				}
				if !walk(ref.Num, ed, es[i].kids, p) {
					return false
				}
				if k == len(kids)-1 {
					if l, _ := pd["Last"].(pdfr.Ref); l.Num != ref.Num {
						c.Fail("outline-last", "%s: Last %v, want %d", path, pd["Last"], ref.Num)
					}
				}
				prev = ref.Num
				ref, ok = ed["Next"].(pdfr.Ref)
			}
			if ok {
				c.Fail("outline-extra", "%s: more entries than were added: %v", path, ref)
			}
			return true
		}
		or, _ := cat["Outlines"].(pdfr.Ref)
		walk(or.Num, ol, top, "root")
	}
	// information
	var info *Op
	infos := 0
	for i := range sc.Ops {
		if sc.Ops[i].K == "info" {
			info = &sc.Ops[i]
			infos++
		}
	}
	if infos > 1 {
		c.Count("info replaced", 1)
	}
	id := d.Dict(d.Trailer["Info"])
	if info == nil {
		c.Count("no info", 1)
		if len(id) != 0 {
			c.Fail("info-extra", "no information was set, the file has %v", id)
		}
	} else {
		c.Count("info", 1)
		num := 0
		if rf, ok := d.Trailer["Info"].(pdfr.Ref); ok {
			num = rf.Num
		}
		want := map[pdfr.Name]bool{}
		for i, k := range infoKeys {
			if info.S[i] == "" {
				continue
			}
			want[pdfr.Name(k)] = true
			c.Count("info fields", 1)
			s, ok := d.R(id[pdfr.Name(k)]).(pdfr.Str)
			var raw []byte = s
			if num != 0 {
				raw = d.DecString(num, s)
			}
			t, isU := pdfr.UTF16Text(raw)
			if !ok || !isU || t != string([]rune(info.S[i])) {
				c.Fail("info-"+k, "%s is %q, was set to %q", k, t, info.S[i])
			}
		}
		if len(info.I) >= 2 {
			want["CreationDate"] = true
			c.Count("dates", 1)
			s, _ := d.R(id["CreationDate"]).(pdfr.Str)
			var raw []byte = s
			if num != 0 {
				raw = d.DecString(num, s)
			}
			at, off, ok := pdfDate(string(raw))
			if info.I[1]%3600 != 0 {
				c.Count("half-hour zones", 1)
			}
			if !ok || at != int64(info.I[0]) || off != info.I[1] {
				c.Fail("info-date", "CreationDate %q (%d, zone %d), was set to %v", raw, at, off, time.Unix(int64(info.I[0]), 0).In(time.FixedZone("z", info.I[1])))
			}
		}
		for k := range id {
			if !want[k] {
				c.Fail("info-extra", "%s is present and was not set", k)
			}
		}
	}
	var set *Op
	k := 0
	for _, q := range v.Recs {
		for ; k < len(sc.Ops) && k <= q.I; k++ {
			if sc.Ops[k].K == "info" {
				set = &sc.Ops[k]
			}
		}
		if q.K == "getinfo" && q.Sub == 0 {
			for i := range infoKeys {
				w := ""
				if set != nil {
					w = set.S[i]
				}
				if q.S[i] != w {
					c.Fail("getinfo", "GetInfo gives %s %q, was set to %q", infoKeys[i], q.S[i], w)
				}
			}
		}
		if q.K == "out" {
			c.Count("mid-document outputs", 1)
		}
	}
	c.Distinct(fmt.Sprintf("%d %d %v %d", len(es), len(pages), v.Nest, infos))
}

// pdfDate reads a PDF date: the moment, and the zone's offset in seconds.
func pdfDate(s string) (int64, int, bool) {
	if !strings.HasPrefix(s, "D:") || len(s) < 16 {
		return 0, 0, false
	}
	t, err := time.Parse("20060102150405", s[2:16])
	if err != nil {
		return 0, 0, false
	}
	z := s[16:]
	if z == "" || z == "Z" {
		return t.Unix(), 0, true
	}
	p := strings.Split(strings.TrimSuffix(z[1:], "'"), "'")
	h, e1 := strconv.Atoi(p[0])
	m := 0
	var e2 error
	if len(p) > 1 {
		m, e2 = strconv.Atoi(p[1])
	}
	if e1 != nil || e2 != nil || len(p) > 2 || len(p[0]) != 2 {
		return 0, 0, false
	}
	off := h*3600 + m*60
	if z[0] == '-' {
		off = -off
	} else if z[0] != '+' {
		return 0, 0, false
	}
	return t.Unix() - int64(off), off, true
}

func runC20(c *Case) {
	r := c.R
	sc := navScript(c, 1, 12)
	for i := range sc.Ops {
		if sc.Ops[i].K == "header" || sc.Ops[i].K == "footer" {
			for k := r.Intn(3); k > 0; k-- {
				o := Op{K: "extlink", S: []string{"x"}, F: []float64{10, 20, 30, 40}}
				switch r.Intn(3) {
				case 0:
					o = Op{K: "intlink", S: []string{"a1"}, F: []float64{10, 20, 30, 40}}
				case 1:
					o = Op{K: "anchor", S: []string{"a2"}}
				}
				sc.Ops[i].Sub = append(sc.Ops[i].Sub, o)
			}
		}
	}
	drop := r.Intn(4) == 0 // some anchors stay undefined
	var ops []Op
	for _, o := range sc.Ops {
		if drop && o.K == "anchor" && o.S[0] == "a3" {
			continue
		}
		ops = append(ops, o)
	}
	sc.Ops = ops
	eachOp(sc.Ops, func(o *Op) {
		switch o.K {
		case "extlink":
			o.S = []string{randURL(r)}
		}
		if (o.K == "extlink" || o.K == "intlink") && r.Intn(6) == 0 {
			o.F[2], o.F[3] = round3(r.Float64()*3), round3(r.Float64()*3)
		}
	})
	unit := randUnit(r)
	c.trace = func() string { return fmt.Sprintf("unit %+v\n%s", unit, sc) }
	v, b, ev := runNav(sc, unit)
	d := openDoc(c, sc, b)
	if d == nil {
		return
	}
	if sc.Cfg.Protect {
		c.Count("encrypted", 1)
	}
	for _, q := range v.Recs {
		if q.K == "out" {
			c.Count("mid-document outputs", 1)
		}
	}
	pages, err := d.Pages()
	if err != nil {
		c.Fail("pages", "%v", err)
		return
	}
	anchors := map[string]navEvent{}
	at := map[string]int{}
	for i, e := range ev {
		if e.op.K == "anchor" {
			if _, ok := anchors[e.op.S[0]]; ok {
				c.Count("anchor redefined", 1)
			}
			anchors[e.op.S[0]] = e
			at[e.op.S[0]] = i
		}
	}
	next := make([]int, len(pages)+1)
	for i, e := range ev {
		if e.op.K != "extlink" && e.op.K != "intlink" {
			continue
		}
		if e.page < 1 || e.page > len(pages) {
			c.Fail("page-count", "a link was added on page %d of %d", e.page, len(pages))
			return
		}
		p := pages[e.page-1]
		H := p.MediaBox[3]
		an := d.Arr(p.D["Annots"])
		k := next[e.page]
		next[e.page]++
		if k >= len(an) {
			c.Fail("link-missing", "link %d of page %d (%s) is missing", k+1, e.page, cut(e.op.S[0], 60))
			return
		}
		num := 0
		if rf, ok := an[k].(pdfr.Ref); ok {
			num = rf.Num
		}
		ad := d.Dict(an[k])
		rc := d.Floats(ad["Rect"])
		if len(rc) != 4 {
			c.Fail("link-rect", "Rect %v", ad["Rect"])
			return
		}
		x0, x1 := math.Min(rc[0], rc[2]), math.Max(rc[0], rc[2])
		y0, y1 := math.Min(rc[1], rc[3]), math.Max(rc[1], rc[3])
		F := e.op.F
		if !(pdfr.Near(x0, F[0], 0.011) && pdfr.Near(x1, F[0]+F[2], 0.011) && pdfr.Near(y1, H-F[1], 0.011) && pdfr.Near(y0, H-F[1]-F[3], 0.011)) {
			c.Fail("link-rect", "link on page %d (height %.2f) asked for %v (x y w h from the top) covers %v", e.page, H, F, rc)
			return
		}
		if e.op.K == "extlink" {
			c.Count("external links", 1)
			ac := d.Dict(ad["A"])
			s, _ := d.R(ac["URI"]).(pdfr.Str)
			u := string(d.DecString(num, s))
			if d.Name(ac["S"]) != "URI" || u != e.op.S[0] {
				c.Fail("link-address", "address %q, asked for %q", u, e.op.S[0])
			}
			if ad["Dest"] != nil {
				c.Fail("link-dest-extra", "an external link has a destination %v", ad["Dest"])
			}
			if strings.ContainsAny(u, "()\\\r\n") {
				c.Count("odd addresses", 1)
			}
			continue
		}
		c.Count("internal links", 1)
		a, ok := anchors[e.op.S[0]]
		de := d.Arr(ad["Dest"])
		if !ok {
			c.Count("undefined anchors", 1)
			if ad["Dest"] != nil || ad["A"] != nil {
				c.Fail("link-dest-extra", "the link to the undefined anchor %q leads to %v %v", e.op.S[0], ad["Dest"], ad["A"])
			}
			continue
		}
		if ad["A"] != nil || len(de) < 4 || d.Name(de[1]) != "XYZ" {
			c.Fail("link-dest", "internal link to %q has Dest %v and action %v", e.op.S[0], ad["Dest"], ad["A"])
			return
		}
		rf, _ := de[0].(pdfr.Ref)
		pg := 0
		for q := range pages {
			if pages[q].Num == rf.Num {
				pg = q + 1
			}
		}
		if a.page != e.page {
			c.Count("anchor on another page", 1)
		}
		if at[e.op.S[0]] > i {
			c.Count("anchor after the link", 1)
		}
		if pg != a.page {
			c.Fail("link-page", "link to %q leads to page %d, the anchor is on page %d", e.op.S[0], pg, a.page)
			return
		}
		AH := pages[pg-1].MediaBox[3]
		y, okY := d.Float(de[3])
		if !okY || y < AH-a.y-0.02 || y > AH-a.y+a.size+0.02 {
			c.Fail("link-height", "link to %q leads to height %v, the anchor was set at %.3f with font size %g on a page %.2f high", e.op.S[0], de[3], AH-a.y, a.size, AH)
		}
	}
	for i, p := range pages {
		if n := len(d.Arr(p.D["Annots"])); n != next[i+1] {
			c.Fail("link-extra", "page %d has %d annotations, %d links were added", i+1, n, next[i+1])
		}
	}
	for i := range sc.Ops {
		for _, o := range sc.Ops[i].Sub {
			if strings.HasSuffix(o.K, "link") && len(pages) > 1 {
				c.Count("links in callbacks", 1)
			}
		}
	}
	c.Distinct(fmt.Sprintf("%v %d %d", next, len(anchors), len(ev)))
}
