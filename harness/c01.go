package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"vmon/imgx"
	"vmon/pdfr"
	"vmon/ttfx"
)

type issue struct{ Sig, Msg string }

type issues struct {
	l    []issue
	seen map[string]bool
}

func (s *issues) add(sig, f string, a ...interface{}) {
	m := fmt.Sprintf(f, a...)
	if s.seen == nil {
		s.seen = map[string]bool{}
	}
	if len(s.l) < 50 && !s.seen[sig+m] {
		s.seen[sig+m] = true
		s.l = append(s.l, issue{sig, m})
	}
}

// slug turns a message into a stable signature: digits and quoted parts removed.
func slug(m string) string {
	var o strings.Builder
	inq := false
	for _, c := range m {
		switch {
		case c == '"':
			inq = !inq
		case inq:
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			o.WriteRune(c)
		default:
			if s := o.String(); len(s) > 0 && s[len(s)-1] != '-' {
				o.WriteByte('-')
			}
		}
		if o.Len() > 50 {
			break
		}
	}
	return strings.Trim(o.String(), "-")
}

// structural is the file-level oracle: what every written document must satisfy.
func structural(d *pdfr.Doc) (is issues, st map[string]int) {
	st = map[string]int{}
	for _, p := range d.Problems {
		is.add("syntax:"+slug(p), "%s", p)
	}
	reached := map[int]bool{}
	var reach func(o interface{})
	checkRefs := func(where string, o interface{}) {
		pdfr.Walk(o, func(x interface{}) {
			if r, ok := x.(pdfr.Ref); ok {
				st["refs"]++
				v, exists := d.Objs[r.Num]
				if !exists || r.Gen != 0 {
					is.add("dangling-ref", "%s refers to object %d %d, which does not exist", where, r.Num, r.Gen)
				} else if v == nil && d.Empty[r.Num] {
					is.add("ref-to-empty", "%s refers to object %d, which has no body", where, r.Num)
				}
			}
		})
	}
	reach = func(o interface{}) {
		pdfr.Walk(o, func(x interface{}) {
			if r, ok := x.(pdfr.Ref); ok && !reached[r.Num] {
				reached[r.Num] = true
				reach(d.Objs[r.Num])
			}
		})
	}
	for n, o := range d.Objs {
		st["objects"]++
		checkRefs(fmt.Sprintf("object %d", n), o)
		if d.Empty[n] {
			is.add("empty-object", "object %d has no body", n)
		}
		if s, ok := o.(*pdfr.Stream); ok {
			st["streams"]++
			if nm := d.Name(s.D["Filter"]); nm == "FlateDecode" {
				if _, err := d.Decode(s); err != nil {
					is.add("bad-stream:"+slug(err.Error()), "stream %d: %v", n, err)
				}
			}
		}
	}
	checkRefs("trailer", d.Trailer)
	reach(d.Trailer)
	st["reached"] = len(reached)
	cat := d.Dict(d.Trailer["Root"])
	if cat == nil || d.Name(cat["Type"]) != "Catalog" {
		is.add("catalog", "trailer Root is not a catalog")
		return
	}
	pages, err := d.Pages()
	if err != nil {
		is.add("page-tree:"+slug(err.Error()), "page tree: %v", err)
		return
	}
	nPageObj := 0
	for _, o := range d.Objs {
		if dd, ok := o.(pdfr.Dict); ok && d.Name(dd["Type"]) == "Page" {
			nPageObj++
		}
	}
	if nPageObj != len(pages) {
		is.add("stray-page", "%d page objects, %d in the page tree", nPageObj, len(pages))
	}
	fonts := d.LoadFonts()
	for n, f := range fonts {
		if f.Problem != "" {
			is.add("font:"+slug(f.Problem), "font object %d: %s", n, f.Problem)
		}
		if f.CMapErr != "" {
			is.add("cmap:"+slug(f.CMapErr), "font object %d: %s", n, f.CMapErr)
		}
		checkFontDict(d, n, &is)
	}
	seenRes := map[string]bool{}
	for i, p := range pages {
		st["pages"]++
		c, err := d.PageContent(p)
		if err != nil {
			is.add("content:"+slug(err.Error()), "page %d: %v", i+1, err)
			continue
		}
		it := d.Run(c, p.Res, pdfr.InitialGS(), fonts, true)
		for _, m := range it.Problems {
			is.add("content:"+slug(m), "page %d: %s", i+1, m)
		}
		if it.EndQ != 0 {
			is.add("unbalanced-q", "page %d ends with %d q not closed", i+1, it.EndQ)
		}
		if it.Underrun != 0 {
			is.add("unbalanced-Q", "page %d has %d Q without q", i+1, it.Underrun)
		}
		for k, n := range it.Ops {
			st["operators"] += n
			st["op "+k] += n
		}
		for j := range it.Events {
			if it.Events[j].Kind == "text" && it.Events[j].GS.Font == "" {
				is.add("text-without-font", "page %d shows text without a font", i+1)
			}
		}
		key := fmt.Sprint(p.D["Resources"])
		if !seenRes[key] {
			seenRes[key] = true
			checkResources(d, fmt.Sprintf("page %d", i+1), p.Res, fonts, &is, st, 0)
		}
		for _, a := range d.Arr(p.D["Annots"]) {
			st["annotations"]++
			checkAnnot(d, i+1, a, &is)
		}
	}
	if o := cat["Outlines"]; o != nil {
		od := d.Dict(o)
		if od == nil {
			is.add("outlines-kind", "Outlines is not a dictionary")
		}
	}
	return
}

func checkAnnot(d *pdfr.Doc, page int, a interface{}, is *issues) {
	ad := d.Dict(a)
	if ad == nil {
		is.add("annot-kind", "page %d: annotation is not a dictionary: %v", page, a)
		return
	}
	if t := d.Name(ad["Type"]); t != "Annot" {
		is.add("annot-kind", "page %d: annotation has Type %q", page, t)
	}
	if d.Name(ad["Subtype"]) != "Link" {
		is.add("annot-subtype", "page %d: annotation subtype %v", page, ad["Subtype"])
	}
	if len(d.Floats(ad["Rect"])) != 4 {
		is.add("annot-rect", "page %d: annotation Rect %v", page, ad["Rect"])
	}
	// neither A nor Dest: an internal link whose anchor is not defined (yet); C20 judges targets
	if de := d.Arr(ad["Dest"]); ad["Dest"] != nil {
		if len(de) == 0 {
			is.add("annot-dest", "page %d: Dest %v", page, ad["Dest"])
		} else if pd := d.Dict(de[0]); pd == nil || d.Name(pd["Type"]) != "Page" {
			is.add("annot-dest", "page %d: Dest does not name a page: %v", page, de[0])
		}
	}
	if ac := ad["A"]; ac != nil {
		m := d.Dict(ac)
		_, ok := d.R(m["URI"]).(pdfr.Str)
		if m == nil || d.Name(m["S"]) != "URI" || !ok {
			is.add("annot-action", "page %d: action %v", page, ac)
		}
	}
}

func checkFontDict(d *pdfr.Doc, n int, is *issues) {
	f := d.Dict(pdfr.Ref{Num: n})
	if d.Name(f["Encoding"]) != "Identity-H" {
		is.add("font-encoding", "font %d: Encoding %v", n, f["Encoding"])
	}
	df := d.Arr(f["DescendantFonts"])
	if len(df) != 1 {
		return
	}
	cf := d.Dict(df[0])
	if cf == nil {
		return
	}
	if d.Name(cf["Subtype"]) != "CIDFontType2" {
		is.add("font-descendant", "font %d: descendant subtype %v", n, cf["Subtype"])
	}
	if m := cf["CIDToGIDMap"]; m != nil && d.Name(m) != "Identity" {
		is.add("font-gidmap", "font %d: CIDToGIDMap %v", n, m)
	}
	si := d.Dict(cf["CIDSystemInfo"])
	if si == nil {
		is.add("font-sysinfo", "font %d: no CIDSystemInfo", n)
	}
	fd := d.Dict(cf["FontDescriptor"])
	if fd == nil {
		is.add("font-descriptor", "font %d: no FontDescriptor", n)
		return
	}
	if d.Name(fd["FontName"]) != d.Name(f["BaseFont"]) || d.Name(cf["BaseFont"]) != d.Name(f["BaseFont"]) {
		is.add("font-name", "font %d: names differ: %v %v %v", n, f["BaseFont"], cf["BaseFont"], fd["FontName"])
	}
	for _, k := range []string{"Flags", "ItalicAngle", "Ascent", "Descent", "CapHeight", "StemV"} {
		if _, ok := d.R(fd[pdfr.Name(k)]).(pdfr.Num); !ok {
			is.add("font-descriptor-"+k, "font %d: descriptor %s is %v", n, k, fd[pdfr.Name(k)])
		}
	}
	if len(d.Floats(fd["FontBBox"])) != 4 {
		is.add("font-bbox", "font %d: FontBBox %v", n, fd["FontBBox"])
	}
	ff, ok := d.R(fd["FontFile2"]).(*pdfr.Stream)
	if !ok {
		is.add("font-file", "font %d: no FontFile2 stream", n)
		return
	}
	b, err := d.Decode(ff)
	if err != nil {
		is.add("font-file", "font %d: FontFile2: %v", n, err)
		return
	}
	if l := d.Int(ff.D["Length1"], -1); l != len(b) {
		is.add("font-length1", "font %d: Length1 %d, program has %d bytes", n, l, len(b))
	}
	if _, err := ttfx.Parse(b, true); err != nil {
		is.add("font-program:"+slug(err.Error()), "font %d: embedded program: %v", n, err)
	}
}

func checkResources(d *pdfr.Doc, where string, res pdfr.Dict, fonts map[int]*pdfr.FontInfo, is *issues, st map[string]int, depth int) {
	if res == nil {
		is.add("no-resources", "%s has no resources", where)
		return
	}
	if depth > 6 {
		return
	}
	for k, o := range d.Dict(res["Font"]) {
		fd := d.Dict(o)
		if fd == nil || d.Name(fd["Type"]) != "Font" {
			is.add("resource-font", "%s: font %s is %v", where, k, o)
		}
		st["resource fonts"]++
	}
	for k, o := range d.Dict(res["ExtGState"]) {
		gd := d.Dict(o)
		if gd == nil {
			is.add("resource-gs", "%s: graphics state %s is %v", where, k, o)
			continue
		}
		if t := gd["Type"]; t != nil && d.Name(t) != "ExtGState" {
			is.add("resource-gs", "%s: graphics state %s has type %v", where, k, t)
		}
		st["resource graphics states"]++
		for _, a := range []string{"ca", "CA"} {
			if v, present := gd[pdfr.Name(a)]; present {
				if f, ok := d.Float(v); !ok || f < 0 || f > 1 {
					is.add("gs-alpha", "%s: %s %s = %v", where, k, a, v)
				}
			}
		}
		if sm := gd["SMask"]; sm != nil && d.Name(sm) != "None" {
			sd := d.Dict(sm)
			g, ok := d.R(sd["G"]).(*pdfr.Stream)
			if sd == nil || !ok || d.Name(sd["S"]) == "" {
				is.add("gs-smask", "%s: %s SMask %v", where, k, sm)
			} else {
				if d.Name(g.D["Subtype"]) != "Form" || d.Dict(g.D["Group"]) == nil {
					is.add("gs-smask-group", "%s: %s mask group is %v", where, k, g.D)
				}
				if len(d.Floats(g.D["BBox"])) != 4 {
					is.add("gs-smask-bbox", "%s: %s mask BBox %v", where, k, g.D["BBox"])
				}
				c, err := d.Decode(g)
				if err != nil {
					is.add("gs-smask-content", "%s: %v", where, err)
				} else {
					r := d.Dict(g.D["Resources"])
					it := d.Run(c, r, pdfr.InitialGS(), fonts, true)
					for _, m := range it.Problems {
						is.add("mask-content:"+slug(m), "%s: mask group: %s", where, m)
					}
					if it.EndQ != 0 || it.Underrun != 0 {
						is.add("mask-unbalanced", "%s: mask group unbalanced", where)
					}
				}
				st["soft masks"]++
			}
		}
	}
	for k, o := range d.Dict(res["ColorSpace"]) {
		a, isArr := d.R(o).(pdfr.Array)
		st["resource colour spaces"]++
		if isArr {
			if len(a) == 4 && d.Name(a[0]) == "Separation" {
				if d.Dict(a[3]) == nil {
					is.add("resource-cs", "%s: colour space %s tint function %v", where, k, a[3])
				}
				continue
			}
			if len(a) >= 2 {
				continue
			}
		}
		if _, ok := d.R(o).(pdfr.Name); ok {
			continue
		}
		is.add("resource-cs", "%s: colour space %s is %v", where, k, d.R(o))
	}
	for k, o := range d.Dict(res["XObject"]) {
		s, ok := d.R(o).(*pdfr.Stream)
		if !ok {
			is.add("resource-xobject", "%s: XObject %s is %v", where, k, o)
			continue
		}
		switch d.Name(s.D["Subtype"]) {
		case "Image":
			st["resource images"]++
			if strings.HasPrefix(string(k), "GOF") {
				continue
			}
			if d.Name(s.D["Filter"]) == "DCTDecode" || d.Int(s.D["Width"], 0) > 0 {
				if _, err := imgx.FromPDF(d, s); err != nil {
					is.add("image:"+slug(err.Error()), "%s: image %s: %v", where, k, err)
				}
			} else {
				is.add("image-size", "%s: image %s is %v", where, k, s.D)
			}
		case "Form":
			st["resource forms"]++
			if len(d.Floats(s.D["BBox"])) != 4 {
				is.add("form-bbox", "%s: form %s BBox %v", where, k, s.D["BBox"])
			}
		default:
			is.add("resource-xobject", "%s: XObject %s has subtype %v", where, k, s.D["Subtype"])
		}
	}
}

// parseOut parses an output and reports a failure to do so under the check's property.
var dumpN int

func parseOut(c *Case, b []byte) *pdfr.Doc {
	if dir := os.Getenv("VMON_DUMP"); dir != "" {
		dumpN++
		os.WriteFile(fmt.Sprintf("%s/out%d.pdf", dir, dumpN), b, 0644)
	}
	d, err := pdfr.Parse(b)
	if err != nil {
		c.Fail("unparsable", "the output does not parse: %v", err)
		return nil
	}
	return d
}

func openDoc(c *Case, sc *Script, b []byte) *pdfr.Doc {
	d := parseOut(c, b)
	if d != nil && sc.Cfg.Protect {
		ok, err := d.AuthUser([]byte(sc.Cfg.User))
		if !ok || err != nil {
			c.Fail("password", "user password %q does not open the file: %v", sc.Cfg.User, err)
			return nil
		}
	}
	return d
}

func randUnit(r interface{ Intn(int) int }) Unit {
	switch r.Intn(6) {
	case 0:
		return Unit{U: 2}
	case 1:
		return Unit{U: 3}
	case 2:
		return Unit{U: 4}
	case 3:
		return Unit{U: 5}
	case 4:
		return Unit{U: 0, Conv: 0.5 + float64(r.Intn(100))/20}
	}
	return Unit{U: 1}
}

func init() {
	register(&Check{ID: "C01", Quick: 8000, Deep: 100000, Rule: "random call histories over the whole API",
		Need: []string{"objects", "refs", "operators", "pages", "annotations", "soft masks", "resource forms", "outlines", "encrypted", "cases with missing glyphs", "files of over ten megabytes"},
		Run: func(c *Case) {
			p := Profile{Big: 200, W: wAll, Steps: 5 + c.R.Intn(60), Images: 1 + c.R.Intn(4), Header: true, Sizes: true, Missing: c.R.Intn(3) == 0, Bulk: 20, Protect: c.R.Intn(6) == 0}
			if c.R.Intn(3) == 0 && !p.Protect {
				p.PDFs = 1 + c.R.Intn(2)
			}
			if c.R.Intn(10) == 0 {
				p.Steps = 1
			}
			if c.R.Intn(4) == 0 {
				p.W = mergeW(wAll, wOut)
			}
			g := newGen(c.R, p)
			sc := g.build()
			unit := randUnit(c.R)
			c.trace = func() string { return fmt.Sprintf("unit %+v\n%s", unit, sc) }
			vm, b := runScript(sc, unit, nil)
			for _, rec := range vm.Recs {
				c.Count("calls", 1)
				if rec.K == "out" && rec.Out != nil {
					if d := openDoc(c, sc, rec.Out); d != nil {
						is, _ := structural(d)
						c.Count("mid-document outputs", 1)
						for _, x := range is.l {
							if x.Sig == "unbalanced-q" || x.Sig == "unbalanced-Q" {
								continue // the caller's own scope may be open
							}
							c.Fail(x.Sig, "mid-document output: %s", x.Msg)
						}
					}
				}
			}
			d := openDoc(c, sc, b)
			if d == nil {
				return
			}
			if len(b) > 9_999_999 {
				c.Count("files of over ten megabytes", 1)
			}
			is, st := structural(d)
			for _, x := range is.l {
				c.Fail(x.Sig, "%s", x.Msg)
			}
			for k, n := range st {
				c.Count(k, n)
			}
			if p.Protect {
				c.Count("encrypted", 1)
			}
			if p.Missing && len(vm.Miss) > 0 {
				c.Count("cases with missing glyphs", 1)
			}
			if d.Dict(d.Dict(d.Trailer["Root"])["Outlines"]) != nil {
				c.Count("outlines", 1)
			}
			var ks []string
			for k := range st {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			c.Distinct(fmt.Sprint(st))
			c.Sample("unit %v, %d calls, %d bytes: %d objects, %d pages, operators %v", unit, len(vm.Recs), len(b), st["objects"], st["pages"], ks)
		}})
}
