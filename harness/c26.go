package main

import (
	"bytes"
	"fmt"
)

func init() {
	register(&Check{ID: "C26", Quick: 3200, Deep: 60000, Rule: "random histories with repeated calls, run plainly, with every passed value overwritten after its call, and with equal values passed as the same value again",
		Need: []string{"values passed", "values passed again", "values overwritten", "image uses", "masks", "encrypted", "output slices overwritten"},
		Run: func(c *Case) {
			p := Profile{W: mergeW(wAll, wOut, map[string]int{"clt": 6, "polygon": 8, "imageopt": 12, "image": 8, "cellopt": 16, "multicellopt": 8, "addpage": 5, "clip": 5}), Steps: 3 + c.R.Intn(50), Images: 1 + c.R.Intn(4), Header: true, Sizes: true, Bulk: 40, Protect: c.R.Intn(6) == 0}
			if c.R.Intn(10) == 0 && !p.Protect {
				p.PDFs = 1
			}
			g := newGen(c.R, p)
			sc := g.build()
			// repeat calls, so that values are passed again
			rep := map[string]bool{"clt": true, "polygon": true, "imageopt": true, "image": true, "cellopt": true, "cell": true, "multicell": true, "multicellopt": true, "rectulo": true, "rectllo": true, "tr": true, "split": true, "isfit": true, "isfitnl": true}
			var ops []Op
			for _, o := range sc.Ops {
				ops = append(ops, o)
				for rep[o.K] && c.R.Intn(3) == 0 {
					ops = append(ops, o)
				}
				if o.K == "imageopt" {
					c.Count("image uses", 1)
					if o.Img.Mask != nil {
						c.Count("masks", 1)
					}
				}
			}
			sc.Ops = ops
			unit := randUnit(c.R)
			c.trace = func() string { return fmt.Sprintf("unit %+v\n%s", unit, sc) }
			va, a := runScript(sc, unit, nil)
			for mode := 0; mode < 2; mode++ {
				o := &owner{Scramble: mode == 0, Reuse: mode == 1, Fail: func(k, w string) { c.Fail(k, "%s", w) }}
				vb, b := runScript(sc, unit, func(v *VM) { v.Own = o })
				c.Count("values passed", o.Passed)
				c.Count("values passed again", o.Reused)
				name := "overwritten after the call"
				sig := "retained"
				if mode == 0 {
					c.Count("values overwritten", o.Passed)
				} else {
					name = "passed again"
					sig = "reuse"
				}
				if x, y := recLines(va.Recs), recLines(vb.Recs); diffLines(x, y) != "" {
					c.Fail(sig+":returns", "with values %s the calls return something else: %s", name, diffLines(x, y))
				}
				if p.PDFs > 0 || !bytes.Equal(a, b) {
					la, lb := canonOf(c, sc, a), canonOf(c, sc, b)
					if la == nil || lb == nil {
						return
					}
					if d := diffLines(la, lb); d != "" {
						c.Fail(sig+":"+diffKind(la, lb), "with values %s the document differs: %s", name, d)
					}
				}
				if mode == 0 {
					// what an output call returned is the caller's, too
					w1 := vb.G.GetBytesPdf()
					keep := append([]byte{}, w1...)
					for i := range w1 {
						w1[i] = 0
					}
					w2, _ := vb.G.GetBytesPdfReturnErr()
					c.Count("output slices overwritten", 1)
					if !bytes.Equal(keep, w2) {
						c.Fail("output-shared", "overwriting a returned output changes the next: %s", firstDiff(keep, w2))
					}
				}
			}
			if p.Protect {
				c.Count("encrypted", 1)
			}
			c.Distinct(fmt.Sprintf("%x", fnv64(string(a))))
			c.Sample("%d calls, %d bytes", len(sc.Ops), len(a))
		}})
}
