package main

import (
	"bytes"
	"fmt"
	"io"
)

// C31: Start on an object that was used before begins an empty document.

func init() {
	register(&Check{ID: "C31", Quick: 2000, Deep: 60000, Rule: "one history per case on a fresh object and on an object that built, or began to build, one to three other documents before",
		Need: []string{"documents before", "left half way", "written half way", "calls compared", "bytes compared", "pages before", "failed calls before", "protected before", "imports before"},
		Run: func(c *Case) {
			mk := func(n int) (*Script, Unit) {
				p := Profile{W: wAll, Steps: 3 + c.R.Intn(n), Images: 1 + c.R.Intn(2), Header: true, Sizes: true, Bulk: 20, Protect: c.R.Intn(6) == 0, Loose: c.R.Intn(2) == 0}
				if c.R.Intn(8) == 0 && !p.Protect {
					p.PDFs = 1
				}
				g := newGen(c.R, p)
				return g.build(), randUnit(c.R)
			}
			sc, unit := mk(60)
			nb := 1 + c.R.Intn(3)
			var before []*Script
			var units []Unit
			for i := 0; i < nb; i++ {
				s, u := mk(50)
				if c.R.Intn(3) == 0 { // the fonts and pictures of the document to come
					s, u = &Script{}, unit
					*s = *sc
				}
				if c.R.Intn(3) > 0 {
					s.Ops = append([]Op{}, s.Ops[:c.R.Intn(len(s.Ops)+1)]...)
					c.Count("left half way", 1)
				}
				if s.Cfg.Protect {
					c.Count("protected before", 1)
				}
				before = append(before, s)
				units = append(units, u)
			}
			ends := make([]int, nb)
			for i := range ends {
				ends[i] = c.R.Intn(6)
			}
			c.trace = func() string {
				o := ""
				for i, s := range before {
					o += fmt.Sprintf("before, unit %+v, ended %d\n%s\n", units[i], ends[i], s)
				}
				return o + fmt.Sprintf("then, unit %+v\n%s", unit, sc)
			}
			var fresh, again *VM
			var a, b []byte
			var na, nb2 []string
			quietStderr(func() {
				watch := func(v *VM, log *[]string) {
					v.Leave = func(op *Op, rec *Rec) {
						*log = append(*log, fmt.Sprintf("%s %d pages, next object %d", op.K, v.G.GetNumberOfPages(), v.G.GetNextObjectID()))
					}
				}
				fresh, a = runScript(sc, unit, func(v *VM) { watch(v, &na) })
				again, b = runScript(sc, unit, func(v *VM) {
					watch(v, &nb2)
					for i, s := range before {
						w := newVM(s, units[i])
						w.G = v.G
						w.Run()
						for _, r := range w.Recs {
							if r.Err != "" {
								c.Count("failed calls before", 1)
							}
							switch r.K {
							case "addpage":
								c.Count("pages before", 1)
							case "imp", "impall", "impraw":
								c.Count("imports before", 1)
							}
						}
						switch ends[i] {
						case 0:
							v.G.GetBytesPdfReturnErr()
							c.Count("written before", 1)
						case 1:
							v.G.WriteTo(&limitWriter{n: 1 + c.R.Intn(5000)})
							c.Count("written half way", 1)
						case 2: // a reader left in the middle
							io.ReadFull(v.G, make([]byte, 1+c.R.Intn(3000)))
							c.Count("written half way", 1)
						case 3:
							v.G.Close()
						}
						// the callbacks belong to the object and its caller
						v.G.AddHeader(nil)
						v.G.AddFooter(nil)
						w.Clean()
						c.Count("documents before", 1)
					}
				})
			})
			if d := diffLines(na, nb2); d != "" {
				c.Fail("counts", "pages and objects are counted on from the document before: %s", d)
				return
			}
			la, lb := recLines(fresh.Recs), recLines(again.Recs)
			c.Count("calls compared", len(la))
			if d := diffLines(la, lb); d != "" {
				c.Fail("calls", "a call on an object used before returns something else than on a fresh one: %s", d)
				return
			}
			if !bytes.Equal(a, b) {
				ca, cb := canonOf(c, sc, a), canonOf(c, sc, b)
				if ca == nil || cb == nil {
					return
				}
				if d := diffLines(ca, cb); d != "" {
					c.Fail("document:"+diffKind(ca, cb), "the document built on an object used before differs: %s", d)
					return
				}
				if len(sc.PDFs) == 0 && !sc.Cfg.Protect {
					c.Fail("bytes", "the file built on an object used before differs: %s", firstDiff(a, b))
					return
				}
			}
			c.Count("bytes compared", len(a))
			c.Distinct(fmt.Sprintf("%x %d", fnv64(string(a)), nb))
			c.Sample("%d documents before, %d calls, %d bytes", nb, len(sc.Ops), len(a))
		}})
}

// limitWriter takes n bytes and fails then.
type limitWriter struct{ n int }

func (w *limitWriter) Write(p []byte) (int, error) {
	if len(p) > w.n {
		n := w.n
		w.n = 0
		return n, io.ErrShortWrite
	}
	w.n -= len(p)
	return len(p), nil
}
