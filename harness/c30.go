package main

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/signintech/gopdf"
	"github.com/signintech/gopdf/fontmaker/core"

	"vmon/pdfr"
	"vmon/ttfx"
)

// C30: fonts load the same by every route and report the font's true metrics.

func init() {
	register(&Check{ID: "C30", Quick: 6500, Deep: 80000, Rule: "random and real fonts loaded by every route; random families and styles selected in random order; every accessor of the parser, lookup, width and kerning pair compared with an independent reading of the file",
		Need: []string{"fonts parsed", "parsers used again", "characters looked up", "absent characters", "supplementary characters", "kerning pairs", "glyph widths", "routes compared", "selections", "styles of one family", "unregistered refused", "font maker infos", "embedding refused", "definition files"},
		Run: func(c *Case) {
			switch c.R.Intn(4) {
			case 0:
				c30select(c)
			case 1:
				c30routes(c)
			default:
				c30parse(c)
			}
		}})
}

// wildFont is a well-formed font with metrics of any sign and size.
func wildFont(r *rand.Rand) *FontAsset {
	s := ttfx.Gen(r, ttfx.GenOpt{})
	any := func(p *int, lo, hi int) {
		if r.Intn(3) == 0 {
			*p = lo + r.Intn(hi-lo+1)
		}
	}
	any(&s.Asc, -32768, 32767)
	any(&s.Desc, -32768, 32767)
	any(&s.TypoAsc, -32768, 32767)
	any(&s.TypoDesc, -32768, 32767)
	any(&s.TypoGap, -32768, 32767)
	any(&s.WinAsc, 0, 65535)
	any(&s.WinDesc, 0, 65535)
	any(&s.XHeight, 1, 32767)
	any(&s.CapHeight, -32768, 32767)
	any(&s.UnderPos, -32768, 32767)
	any(&s.UnderThick, -32768, 32767)
	any(&s.ItalicAngle, -90, 90)
	any(&s.XMin, -32768, 32767)
	any(&s.YMin, -32768, 32767)
	any(&s.XMax, -32768, 32767)
	any(&s.YMax, -32768, 32767)
	if r.Intn(6) == 0 {
		s.TypoAsc = 0
	}
	if r.Intn(6) == 0 {
		s.TypoDesc = 0
	}
	if r.Intn(3) == 0 {
		s.FsType = []int{0, 2, 4, 8, 0x100, 0x200, 0x208, 0x300}[r.Intn(8)]
	}
	for i := range s.Glyphs {
		if r.Intn(10) == 0 {
			s.Glyphs[i].Adv = r.Intn(65536)
		}
	}
	a := newFontAsset(ttfx.Build(s, r), fmt.Sprintf("synthetic upem %d glyphs %d segments %d holes %v", s.UPEM, len(s.Glyphs), s.Seg, s.Holes))
	a.Spec = s
	return a
}

var keptParser core.TTFParser

func c30parse(c *Case) {
	r := c.R
	var a *FontAsset
	if r.Intn(10) == 0 {
		a = realFont(r.Intn(3))
	} else {
		a = wildFont(r)
	}
	f := a.F
	c.trace = func() string { return fmt.Sprintf("font: %s\n%+v", a.Desc, a.Spec) }
	kern := r.Intn(2) == 0
	p := &core.TTFParser{}
	if r.Intn(3) == 0 {
		p = &keptParser
		c.Count("parsers used again", 1)
		if r.Intn(4) == 0 { // after a failed parse
			p.ParseFontData(a.Data[:r.Intn(len(a.Data))])
		}
	}
	p.SetUseKerning(kern)
	dir, err := os.MkdirTemp("", "c30")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "Some Font.TTF")
	if err := os.WriteFile(path, a.Data, 0o600); err != nil {
		panic(err)
	}
	route := r.Intn(3)
	switch route {
	case 0:
		err = p.Parse(path)
	case 1:
		err = p.ParseByReader(&slowReader{b: a.Data, r: r})
	default:
		err = p.ParseFontData(append([]byte{}, a.Data...))
	}
	if err != nil {
		c.Fail("parse", "%s: a well-formed font is refused: %v", a.Desc, err)
		return
	}
	c.Count("fonts parsed", 1)
	eq := func(name string, got, want int) {
		if got != want {
			c.Fail("metric:"+name, "%s: %s is reported as %d, the font file says %d", a.Desc, name, got, want)
		}
	}
	eq("UnitsPerEm", int(p.UnitsPerEm()), f.UPEM)
	eq("NumGlyphs", int(p.NumGlyphs()), f.NumGlyphs)
	eq("NumberOfHMetrics", int(p.NumberOfHMetrics()), f.NumHM)
	eq("XMin", p.XMin(), f.XMin)
	eq("YMin", p.YMin(), f.YMin)
	eq("XMax", p.XMax(), f.XMax)
	eq("YMax", p.YMax(), f.YMax)
	eq("ItalicAngle", p.ItalicAngle(), f.ItalicAngle)
	eq("UnderlinePosition", p.UnderlinePosition(), f.UnderPos)
	eq("UnderlineThickness", p.UnderlineThickness(), f.UnderThick)
	eq("TypoAscender", p.TypoAscender(), f.TypoAsc)
	eq("TypoDescender", p.TypoDescender(), f.TypoDesc)
	asc, desc := f.WinAsc, f.WinDesc
	if f.TypoAsc == 0 {
		asc = f.Asc
	}
	if f.Desc < 0 {
		desc = -desc
	}
	if f.TypoDesc == 0 {
		desc = f.Desc
	}
	eq("Ascender", p.Ascender(), asc)
	eq("Descender", p.Descender(), desc)
	if f.OS2Ver >= 2 {
		eq("CapHeight", p.CapHeight(), f.CapHeight)
		if f.XHeight != 0 {
			eq("XHeight", p.XHeight(), f.XHeight)
		}
	}
	if got, want := p.Embeddable, f.FsType != 2 && f.FsType&0x200 == 0; got != want {
		c.Fail("metric:Embeddable", "%s: embeddable %v with fsType %#x", a.Desc, got, f.FsType)
	}
	if got, want := p.Bold, f.FsSel&32 != 0; got != want {
		c.Fail("metric:Bold", "%s: bold %v with fsSelection %#x", a.Desc, got, f.FsSel)
	}
	if !bytes.Equal(p.FontData(), a.Data) {
		c.Fail("data", "%s: the font data kept is not the font's", a.Desc)
	}
	if p.IsShortIndex != (f.LocFmt == 0) {
		c.Fail("metric:IsShortIndex", "%s: %v", a.Desc, p.IsShortIndex)
	}
	for i, x := range f.Loca {
		if i >= len(p.LocaTable) || int(p.LocaTable[i]) != x {
			c.Fail("metric:Loca", "%s: location %d differs", a.Desc, i)
			break
		}
	}
	tb := p.GetTables()
	for tag, t := range f.Tables {
		g, ok := tb[tag]
		if !ok || int(g.Offset) != t.Off || int(g.Length) != t.Len || uint32(g.CheckSum) != t.Sum {
			c.Fail("tables", "%s: table %q reported as %+v, the directory has %+v", a.Desc, tag, g, t)
		}
	}
	if len(tb) != len(f.Tables) {
		c.Fail("tables", "%s: %d tables reported, the directory has %d", a.Desc, len(tb), len(f.Tables))
	}
	// widths
	w := p.Widths()
	if len(w) < f.NumGlyphs {
		c.Fail("widths", "%s: %d widths for %d glyphs", a.Desc, len(w), f.NumGlyphs)
		return
	}
	for g := 0; g < f.NumGlyphs; g++ {
		if int(w[g]) != f.Adv[g] {
			c.Fail("widths", "%s: glyph %d has width %d, the font file says %d (%d metrics)", a.Desc, g, w[g], f.Adv[g], f.NumHM)
			return
		}
	}
	c.Count("glyph widths", f.NumGlyphs)
	// characters
	chars := p.Chars()
	n := 0
	for ch, g := range f.Cmap {
		if ch <= 0xFFFF && g < f.NumGlyphs {
			n++
			if int(chars[int(ch)]) != g {
				c.Fail("chars", "%s: character %#x has glyph %d, the font file says %d", a.Desc, ch, chars[int(ch)], g)
				return
			}
		}
	}
	for ch, g := range chars {
		if f.Cmap[rune(ch)] != int(g) {
			c.Fail("chars", "%s: character %#x has glyph %d, the font file says %d", a.Desc, ch, g, f.Cmap[rune(ch)])
			return
		}
	}
	// kerning
	if !kern && p.Kern() != nil {
		c.Fail("kern:unasked", "%s: kerning without asking", a.Desc)
	}
	if kern && p.Kern() == nil && f.T("kern") != nil {
		c.Fail("kern:none", "%s: no kerning", a.Desc)
	}
	if kern && p.Kern() != nil {
		tot := 0
		for l, m := range p.Kern().Kerning {
			for rr, v := range m {
				tot++
				if f.Kern[[2]int{int(l), int(rr)}] != int(v) {
					c.Fail("kern:value", "%s: pair %d %d is %d, the font file says %d", a.Desc, l, rr, v, f.Kern[[2]int{int(l), int(rr)}])
					return
				}
			}
		}
		for k, v := range f.Kern {
			m := p.Kern().Kerning[uint(k[0])]
			if int(m[uint(k[1])]) != v {
				c.Fail("kern:value", "%s: pair %v is %d, the font file says %d", a.Desc, k, m[uint(k[1])], v)
				return
			}
			ok, got := m.ValueByRight(uint(k[1]))
			if !ok || int(got) != v {
				c.Fail("kern:lookup", "%s: pair %v: %v %d", a.Desc, k, ok, got)
				return
			}
		}
		c.Count("kerning pairs", tot)
	}
	c30subset(c, a, kern)
	c30maker(c, a, dir, path)
	c.Distinct(a.Desc + fmt.Sprint(len(f.Cmap), f.Asc, f.WinAsc))
}

// c30subset checks the lookups of the font object.
func c30subset(c *Case, a *FontAsset, kern bool) {
	r := c.R
	f := a.F
	var s gopdf.SubsetFontObj
	s.CharacterToGlyphIndex = gopdf.NewMapOfCharacterToGlyphIndex()
	s.SetTtfFontOption(gopdf.TtfOption{UseKerning: kern})
	var err error
	if r.Intn(2) == 0 {
		err = s.SetTTFData(a.Data)
	} else {
		err = s.SetTTFByReader(&slowReader{b: a.Data, r: r})
	}
	if err != nil {
		c.Fail("parse", "%s: %v", a.Desc, err)
		return
	}
	look := func(ch rune) {
		g, err := s.CharCodeToGlyphIndex(ch)
		want := f.Cmap[ch]
		if want >= f.NumGlyphs {
			want = 0
		}
		if want == 0 {
			c.Count("absent characters", 1)
			if err == nil {
				c.Fail("lookup:invented", "%s: character %#x has glyph %d, the font has none", a.Desc, ch, g)
			}
			return
		}
		c.Count("characters looked up", 1)
		if ch > 0xFFFF {
			c.Count("supplementary characters", 1)
		}
		if err != nil || int(g) != want {
			c.Fail("lookup", "%s: character %#x has glyph %d (%v), the font file says %d", a.Desc, ch, g, err, want)
		}
	}
	for _, ch := range a.Runes {
		look(ch)
		look(ch + 1)
		look(ch - 1)
		if c.Failed() {
			return
		}
	}
	for i := 0; i < 200; i++ {
		look(rune(r.Intn(0x11000)))
	}
	for _, ch := range []rune{0, 1, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF} {
		look(ch)
	}
	for g := 0; g < f.NumGlyphs; g++ {
		if d := float64(s.GlyphIndexToPdfWidth(uint(g))) - a.W(g); math.Abs(d) >= 1 {
			c.Fail("width", "%s: glyph %d has width %d, the font file says %.3f", a.Desc, g, s.GlyphIndexToPdfWidth(uint(g)), a.W(g))
			return
		}
	}
	var ks [][2]int
	for k := range f.Kern {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i][0] < ks[j][0] || ks[i][0] == ks[j][0] && ks[i][1] < ks[j][1] })
	for _, k := range ks {
		ok, kv := s.KernValueByLeft(uint(k[0]))
		if !kern {
			if ok {
				c.Fail("kern:unasked", "%s: kerning without asking", a.Desc)
			}
			break
		}
		if !ok {
			c.Fail("kern:lookup", "%s: no pair begins with %d", a.Desc, k[0])
			return
		}
		if ok, v := kv.ValueByRight(uint(k[1])); !ok || int(v) != f.Kern[k] {
			c.Fail("kern:lookup", "%s: pair %v is %d", a.Desc, k, v)
			return
		}
	}
	// added characters
	txt := string([]rune{a.Runes[r.Intn(len(a.Runes))], a.Runes[r.Intn(len(a.Runes))]})
	if got, err := s.AddChars(txt); err != nil || got != txt {
		c.Fail("addchars", "%s: AddChars(%q) gives %q, %v", a.Desc, txt, got, err)
	}
	for _, ch := range txt {
		g, err := s.CharIndex(ch)
		w, err2 := s.CharWidth(ch)
		if err != nil || err2 != nil || int(g) != a.Gid(ch) || math.Abs(float64(w)-a.W(a.Gid(ch))) >= 1 {
			c.Fail("charindex", "%s: %q: glyph %d %v width %d %v", a.Desc, ch, g, err, w, err2)
		}
	}
	if _, err := s.CharIndex(0xE123); err == nil && !strings.ContainsRune(txt, 0xE123) {
		c.Fail("charindex", "%s: a character that was not added has an index", a.Desc)
	}
	size := 1 + 50*r.Float64()
	for _, x := range []struct {
		n    string
		v    int
		px   float64
		want int
	}{
		{"Ascender", s.GetAscender(), s.GetAscenderPx(size), s.GetTTFParser().Ascender()},
		{"Descender", s.GetDescender(), s.GetDescenderPx(size), s.GetTTFParser().Descender()},
		{"UnderlinePosition", s.GetUnderlinePosition(), s.GetUnderlinePositionPx(size), f.UnderPos},
		{"UnderlineThickness", s.GetUnderlineThickness(), s.GetUnderlineThicknessPx(size), f.UnderThick},
	} {
		if x.v != x.want || math.Abs(x.px-float64(x.want)*size/float64(f.UPEM)) > 1e-6*(1+math.Abs(x.px)) {
			c.Fail("metric:"+x.n, "%s: %s is %d, %.4f at size %.4f; the font file says %d of %d", a.Desc, x.n, x.v, x.px, size, x.want, f.UPEM)
		}
	}
}

func roundAway(v float64) int {
	if v < 0 {
		return int(v - 0.5)
	}
	return int(v + 0.5)
}

var cwLine = regexp.MustCompile(`(?m)^\tme\.cw\[gopdf\.(?:Chr\((\d+)\)|ToByte\("(\\?.)"\))\]=(-?\d+)$`)

// c30maker checks the font maker's view of the same file.
func c30maker(c *Case, a *FontAsset, dir, path string) {
	r := c.R
	f := a.F
	maps := make([]core.FontMap, 256)
	var lines strings.Builder
	for i := range maps {
		maps[i] = core.FontMap{Uv: -1, Name: ".notdef"}
		if i >= 32 && r.Intn(6) > 0 {
			ch := rune(i)
			if r.Intn(3) == 0 {
				ch = a.Runes[r.Intn(len(a.Runes))]
			}
			if r.Intn(10) == 0 {
				ch = rune(r.Intn(0x3000))
			}
			if ch > 0xFFFF {
				continue
			}
			maps[i] = core.FontMap{Uv: int(ch), Name: fmt.Sprintf("g%04X", ch)}
			fmt.Fprintf(&lines, "!%02X U+%04X g%04X\n", i, ch, ch)
		}
	}
	enc := "some"
	os.WriteFile(filepath.Join(dir, enc+".map"), []byte(lines.String()), 0o600)
	os.WriteFile(filepath.Join(dir, "cp1252.map"), []byte("!20 U+0020 space\n!41 U+0041 g0041\n"), 0o600)
	fm := core.NewFontMaker()
	lm, err := fm.LoadMap(filepath.Join(dir, enc+".map"))
	if err != nil || len(lm) != 256 {
		c.Fail("maker:map", "LoadMap: %v", err)
		return
	}
	for i := range lm {
		if lm[i] != maps[i] {
			c.Fail("maker:map", "LoadMap: code %d is %v, the file says %v", i, lm[i], maps[i])
			return
		}
	}
	info, err := fm.GetInfoFromTrueType(path, maps)
	embed := f.FsType != 2 && f.FsType&0x200 == 0
	if !embed {
		c.Count("embedding refused", 1)
		if err == nil {
			c.Fail("maker:license", "%s: fsType %#x does not allow embedding, and no error", a.Desc, f.FsType)
		}
		return
	}
	if err != nil {
		c.Fail("maker:error", "%s: %v", a.Desc, err)
		return
	}
	c.Count("font maker infos", 1)
	k := 1000 / float64(f.UPEM)
	near := func(name string, got int, want int) {
		if d := math.Abs(float64(got) - float64(want)*k); d > 0.5001 {
			c.Fail("maker:"+name, "%s: %s is %d, the font file says %d of %d", a.Desc, name, got, want, f.UPEM)
		}
	}
	num := func(name string, want int) {
		v, err := info.GetInt64(name)
		if err != nil {
			c.Fail("maker:"+name, "%v", err)
			return
		}
		near(name, v, want)
	}
	if s, err := info.GetString("FontName"); err != nil || s != f.PSName {
		c.Fail("maker:FontName", "%s: name %q (%v), the font file says %q", a.Desc, s, err, f.PSName)
	}
	if b, err := info.GetBool("Bold"); err != nil || b != (f.FsSel&32 != 0) {
		c.Fail("maker:Bold", "%v %v", b, err)
	}
	if b, err := info.GetBool("IsFixedPitch"); err != nil || b != f.Fixed {
		c.Fail("maker:IsFixedPitch", "%s: %v %v, the font file says %v", a.Desc, b, err, f.Fixed)
	}
	if v, err := info.GetInt64("ItalicAngle"); err != nil || v != f.ItalicAngle {
		c.Fail("maker:ItalicAngle", "%v %v", v, err)
	}
	num("Ascender", f.TypoAsc)
	num("Descender", f.TypoDesc)
	num("UnderlineThickness", f.UnderThick)
	num("UnderlinePosition", f.UnderPos)
	if f.OS2Ver >= 2 {
		num("CapHeight", f.CapHeight)
	}
	num("MissingWidth", f.Adv[0])
	bb, err := info.GetInt64s("FontBBox")
	if err != nil || len(bb) != 4 {
		c.Fail("maker:FontBBox", "%v %v", bb, err)
	} else {
		for i, x := range []int{f.XMin, f.YMin, f.XMax, f.YMax} {
			near("FontBBox", bb[i], x)
		}
	}
	ws, err := info.GetMapIntInt64("Widths")
	if err != nil {
		c.Fail("maker:Widths", "%v", err)
		return
	}
	want := make([]int, 256)
	for i := range want {
		g := 0
		if maps[i].Name != ".notdef" {
			g = f.Cmap[rune(maps[i].Uv)]
		}
		want[i] = f.Adv[g]
		if v, ok := ws[i]; !ok || math.Abs(float64(v)-float64(want[i])*k) > 0.5001 {
			c.Fail("maker:Widths", "%s: width of code %d (%v) is %d, the font file says %d of %d", a.Desc, i, maps[i], v, want[i], f.UPEM)
			return
		}
	}
	if r.Intn(3) > 0 {
		return
	}
	out := filepath.Join(dir, "out")
	os.Mkdir(out, 0o700)
	if err := fm.MakeFont(path, dir, enc, out); err != nil {
		c.Fail("maker:make", "%s: %v", a.Desc, err)
		return
	}
	z, err := os.ReadFile(filepath.Join(out, "Some_Font.z"))
	if err != nil {
		c.Fail("maker:file", "%v", err)
		return
	}
	zr, err := zlib.NewReader(bytes.NewReader(z))
	if err == nil {
		z, err = io.ReadAll(zr)
	}
	if err != nil || !bytes.Equal(z, a.Data) {
		c.Fail("maker:file", "%s: the packed font is not the font (%v)", a.Desc, err)
	}
	g, err := os.ReadFile(filepath.Join(out, "Some_Font.font.go"))
	if err != nil {
		c.Fail("maker:definition", "%v", err)
		return
	}
	seen := map[int]bool{}
	for _, m := range cwLine.FindAllStringSubmatch(string(g), -1) {
		code, v := 0, 0
		if m[1] != "" {
			fmt.Sscan(m[1], &code)
		} else {
			code = int(m[2][len(m[2])-1])
		}
		fmt.Sscan(m[3], &v)
		seen[code] = true
		if math.Abs(float64(v)-float64(want[code])*k) > 0.5001 {
			c.Fail("maker:definition", "%s: the definition gives code %d width %d, the font file says %d of %d", a.Desc, code, v, want[code], f.UPEM)
			return
		}
	}
	if len(seen) != 256 {
		c.Fail("maker:definition", "%s: the definition has %d widths", a.Desc, len(seen))
	}
	for _, x := range []string{
		fmt.Sprintf("me.name = %q", f.PSName), fmt.Sprintf("me.enc = %q", enc),
		fmt.Sprintf("me.up = %d\n", roundAway(float64(f.UnderPos)*k)), fmt.Sprintf("me.ut = %d\n", roundAway(float64(f.UnderThick)*k)),
		fmt.Sprintf(`Key:"Ascent",Val : "%d"`, roundAway(float64(f.TypoAsc)*k)), fmt.Sprintf(`Key: "Descent", Val : "%d"`, roundAway(float64(f.TypoDesc)*k)),
		fmt.Sprintf(`Key:"FontBBox", Val :  "[%d %d %d %d]"`, bb[0], bb[1], bb[2], bb[3]), `me.diff = "`,
	} {
		if x == `me.diff = "` {
			var s []string
			last := 0
			for i := range maps {
				ref := ".notdef"
				if i == 0x20 {
					ref = "space"
				}
				if i == 0x41 {
					ref = "g0041"
				}
				if maps[i].Name != ref {
					if i != last+1 {
						s = append(s, fmt.Sprint(i))
					}
					last = i
					s = append(s, "/"+maps[i].Name)
				}
			}
			x += strings.Join(s, " ") + `"`
		}
		if !strings.Contains(string(g), x) {
			c.Fail("maker:definition", "%s: the definition lacks %s", a.Desc, x)
			return
		}
	}
	c.Count("definition files", 1)
}

// c30routes loads one font by every route and compares the documents.
func c30routes(c *Case) {
	r := c.R
	g := newGen(r, Profile{W: mergeW(wText, wMulti, wMove, wPage, wMisc), Steps: 2 + r.Intn(25), RealFont: true})
	sc := g.build()
	unit := randUnit(r)
	c.trace = func() string { return fmt.Sprintf("unit %+v\n%s", unit, sc) }
	var first []byte
	var recs []string
	for route := 0; route < 6; route++ {
		s2 := *sc
		s2.Ops = append([]Op{}, sc.Ops...)
		var cont *gopdf.FontContainer
		for i := range s2.Ops {
			if s2.Ops[i].K == "addfont" {
				o := s2.Ops[i]
				o.I = append([]int{}, o.I...)
				o.I[1] = route
				if route > 3 {
					o.I[1] = 3
				}
				s2.Ops[i] = o
			}
		}
		v, b := runScript(&s2, unit, func(v *VM) {
			v.Cont = cont
			if route >= 3 {
				v.ContRoute = route - 3
			}
		})
		l := recLines(v.Recs)
		if route == 0 {
			first, recs = b, l
			continue
		}
		c.Count("routes compared", 1)
		if d := diffLines(recs, l); d != "" {
			c.Fail("route:returns", "loaded by route %d the calls return something else: %s", route, d)
			return
		}
		if !bytes.Equal(first, b) {
			c.Fail("route:bytes", "loaded by route %d the document differs: %s", route, firstDiff(first, b))
			return
		}
	}
	c.Distinct(fmt.Sprint(recs))
}

var pool30 []*FontAsset

// c30select registers fonts under random families and styles and selects them.
func c30select(c *Case) {
	r := c.R
	if pool30 == nil {
		rr := rand.New(rand.NewSource(30))
		for i := 0; i < 14; i++ {
			pool30 = append(pool30, synthFont(rr, ttfx.GenOpt{}))
		}
		pool30 = append(pool30, realFont(0), realFont(1))
	}
	fams := []string{"F", "f", "F1", "F 1", "F+1", "Font", "font", "B", "I", "", "Füñt", "F/1", "(F)", "a#b", "ทดสอบ", "F ", " F", "f\t"}
	type reg struct {
		fam   string
		style int
	}
	sc := &Script{Cfg: Cfg{W: 600, H: 800}}
	regs := map[reg]int{}
	var order []reg
	var note []string
	addfont := func() {
		q := reg{fams[r.Intn(len(fams))], r.Intn(4)}
		if len(order) > 0 && r.Intn(2) == 0 {
			q.fam = order[r.Intn(len(order))].fam
		}
		if _, dup := regs[q]; dup {
			return
		}
		i := len(sc.Fonts)
		a := pool30[r.Intn(len(pool30))]
		sc.Fonts = append(sc.Fonts, a)
		for o := range regs {
			if o.fam == q.fam {
				c.Count("styles of one family", 1)
				break
			}
		}
		regs[q] = i
		order = append(order, q)
		note = append(note, fmt.Sprintf("font %d: %q style %d", i, q.fam, q.style))
		sc.Ops = append(sc.Ops, Op{K: "addfont", S: []string{q.fam}, I: []int{i, r.Intn(4), q.style, 0, 0, 0}})
	}
	early := r.Intn(3) == 0
	if early {
		addfont()
		addfont()
	}
	sc.Ops = append(sc.Ops, Op{K: "addpage"})
	addfont()
	if r.Intn(12) == 0 {
		for i := 0; i < 16; i++ {
			addfont()
		}
	}
	type sel struct {
		op   int
		font int // -1: an error is expected
	}
	var sels []sel
	var want []int
	cur := -1
	y := 20.0
	for k := 4 + r.Intn(14); k > 0; k-- {
		if r.Intn(3) == 0 {
			addfont()
		}
		if r.Intn(8) == 0 {
			sc.Ops = append(sc.Ops, Op{K: "addpage"})
			y = 20
		}
		q := order[r.Intn(len(order))]
		if r.Intn(4) == 0 {
			q = reg{fams[r.Intn(len(fams))], r.Intn(4)}
		}
		i, ok := regs[q]
		if !ok {
			i = -1
		} else {
			cur = i
		}
		st := q.style
		if r.Intn(5) == 0 {
			st |= gopdf.Underline
		}
		sels = append(sels, sel{len(sc.Ops), i})
		sc.Ops = append(sc.Ops, Op{K: "setfont", S: []string{q.fam}, I: []int{st, r.Intn(2), r.Intn(5)}, N: []float64{float64(6 + r.Intn(20))}})
		if cur < 0 {
			continue
		}
		a := sc.Fonts[cur]
		var t []rune
		for n := 1 + r.Intn(8); n > 0; n-- {
			t = append(t, a.Runes[r.Intn(len(a.Runes))])
		}
		sc.Ops = append(sc.Ops, Op{K: "setxy", F: []float64{20, y}}, Op{K: []string{"text", "cell"}[r.Intn(2)], S: []string{string(t)}})
		y += 40
		for range t {
			want = append(want, cur)
		}
	}
	sc.Desc = note
	unit := randUnit(r)
	c.trace = func() string { return fmt.Sprintf("unit %+v\n%s", unit, sc) }
	v, b := runScript(sc, unit, nil)
	for _, s := range sels {
		c.Count("selections", 1)
		for _, q := range v.Recs {
			if q.I != s.op {
				continue
			}
			if s.font < 0 {
				c.Count("unregistered refused", 1)
				if q.Err == "" {
					c.Fail("select:unregistered", "op %d selects a family and style that is not registered, without an error", s.op)
				}
			} else if q.Err != "" {
				c.Fail("select:error", "op %d: %s", s.op, q.Err)
			}
		}
	}
	for _, q := range v.Recs {
		if q.Err != "" && q.K != "setfont" {
			c.Fail("error:"+q.K, "%s: %s", q.K, q.Err)
			return
		}
	}
	d := openDoc(c, sc, b)
	if d == nil {
		return
	}
	pages, err := d.Pages()
	if err != nil {
		c.Fail("pages", "%v", err)
		return
	}
	fi := d.LoadFonts()
	emb := map[int]*ttfx.Font{}
	var got []int
	for _, pg := range pages {
		content, err := d.PageContent(pg)
		if err != nil {
			c.Fail("content", "%v", err)
			return
		}
		it := d.Run(content, pg.Res, pdfr.InitialGS(), fi, false)
		for _, ev := range it.Events {
			if ev.Kind == "text" {
				for range ev.Glyphs {
					got = append(got, ev.GS.FontObj)
				}
			}
		}
	}
	if len(got) != len(want) {
		c.Fail("select:count", "%d characters drawn, %d expected", len(got), len(want))
		return
	}
	for i, fo := range got {
		e := emb[fo]
		if e == nil {
			e = embedded(d, fo)
			if e == nil {
				c.Fail("select:program", "font %d has no readable program", fo)
				return
			}
			emb[fo] = e
		}
		src := sc.Fonts[want[i]].F
		same := len(e.Adv) == len(src.Adv) && e.UPEM == src.UPEM
		for g := 0; same && g < len(e.Adv); g++ {
			same = e.Adv[g] == src.Adv[g]
		}
		if !same {
			c.Fail("select:font", "character %d is drawn with font object %d (%q), which is not font %d (%s)", i, fo, fi[fo].Base, want[i], note[want[i]])
			return
		}
	}
	c.Distinct(fmt.Sprint(note))
}

// embedded reads the font program of a composite font.
func embedded(d *pdfr.Doc, fo int) *ttfx.Font {
	f := d.Dict(pdfr.Ref{Num: fo})
	df := d.Arr(f["DescendantFonts"])
	if len(df) != 1 {
		return nil
	}
	fd := d.Dict(d.Dict(df[0])["FontDescriptor"])
	s, ok := d.R(fd["FontFile2"]).(*pdfr.Stream)
	if !ok {
		return nil
	}
	b, err := d.Decode(s)
	if err != nil {
		return nil
	}
	e, err := ttfx.Parse(b, true)
	if err != nil {
		return nil
	}
	return e
}
