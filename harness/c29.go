package main

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"os"
	"syscall"

	"vmon/pdfr"
)

// C29: compression.

// quietStderr hides what the library prints about out-of-range levels.
func quietStderr(f func()) {
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		f()
		return
	}
	old, err := syscall.Dup(2)
	if err != nil {
		f()
		return
	}
	syscall.Dup2(int(null.Fd()), 2)
	defer func() {
		syscall.Dup2(old, 2)
		syscall.Close(old)
		null.Close()
	}()
	f()
}

func stripOps(ops []Op, drop map[string]bool) []Op {
	var o []Op
	for _, x := range ops {
		if !drop[x.K] {
			o = append(o, x)
		}
	}
	return o
}

func init() {
	register(&Check{ID: "C29", Quick: 2400, Deep: 60000, Rule: "one random history per case, written at the default level and at drawn levels, set at the start, at the end or several times on the way",
		Need: []string{"content streams stored", "content streams deflated", "out of range levels", "level changes on the way", "other streams compared", "encrypted", "pages"},
		Run: func(c *Case) {
			p := Profile{W: wAll, Steps: 3 + c.R.Intn(60), Images: 1 + c.R.Intn(2), Header: true, Sizes: true, Bulk: 20, Protect: c.R.Intn(6) == 0}
			if c.R.Intn(8) == 0 && !p.Protect {
				p.PDFs = 1
			}
			g := newGen(c.R, p)
			sc := g.build()
			sc.Ops = stripOps(sc.Ops, map[string]bool{"compress": true, "nocompress": true})
			unit := randUnit(c.R)
			var history string
			c.trace = func() string { return fmt.Sprintf("unit %+v\n%s\nlevels: %s", unit, sc, history) }
			quietStderr(func() {
				_, base := runScript(sc, unit, nil)
				la := canonOf(c, sc, base)
				if la == nil {
					return
				}
				levels := []int{0, []int{-2, -1, 1, 2, 3, 4, 5, 6, 7, 8, 9}[c.R.Intn(11)], []int{10, 11, 100, 1 << 30, -3, -4, -100, -1 << 40}[c.R.Intn(8)]}
				for _, lv := range levels {
					eff := lv
					if lv < -2 {
						eff = -1
						c.Count("out of range levels", 1)
					} else if lv > 9 {
						eff = 9
						c.Count("out of range levels", 1)
					}
					s2 := *sc
					s2.Ops = append([]Op{}, sc.Ops...)
					set := Op{K: "compress", I: []int{lv}}
					if lv == 0 && c.R.Intn(2) == 0 {
						set = Op{K: "nocompress"}
					}
					how := c.R.Intn(3)
					switch how {
					case 0: // at the start
						s2.Ops = append([]Op{set}, s2.Ops...)
					case 1: // at the end
						s2.Ops = append(s2.Ops, set)
					default: // other levels on the way, also inside output
						var o []Op
						for _, x := range s2.Ops {
							if c.R.Intn(5) == 0 {
								o = append(o, Op{K: "compress", I: []int{c.R.Intn(16) - 4}})
								c.Count("level changes on the way", 1)
							}
							if c.R.Intn(30) == 0 {
								o = append(o, Op{K: "out", I: []int{c.R.Intn(4)}})
							}
							o = append(o, x)
						}
						s2.Ops = append(o, set)
					}
					history = fmt.Sprintf("level %d placed %d", lv, how)
					_, b := runScript(&s2, unit, nil)
					d := openDoc(c, sc, b)
					if d == nil {
						return
					}
					lb, err := canon(d)
					if err != nil {
						c.Fail("undecodable", "level %d: %v", lv, err)
						return
					}
					if x := diffLines(la, lb); x != "" {
						c.Fail("level-changes-document:"+diffKind(la, lb), "level %d says something else than the default level: %s", lv, x)
						return
					}
					ps, _ := d.Pages()
					isContent := map[int]bool{}
					for i, pg := range ps {
						c.Count("pages", 1)
						for _, s := range pg.Contents {
							isContent[s.Num] = true
							f := s.D["Filter"]
							raw := d.Bytes(s)
							plain, err := d.Decode(s)
							if err != nil {
								c.Fail("undecodable", "level %d page %d: %v", lv, i+1, err)
								continue
							}
							if eff == 0 {
								c.Count("content streams stored", 1)
								if f != nil {
									c.Fail("level0-filter", "level 0 set by %s: page %d content has filter %v", set.K, i+1, f)
								}
								continue
							}
							c.Count("content streams deflated", 1)
							if d.Name(f) != "FlateDecode" {
								c.Fail("not-compressed", "level %d: page %d content (%d bytes) has filter %v", lv, i+1, len(plain), f)
							} else if want := deflated(plain, eff); len(raw) >= len(plain) && want < len(plain)*3/4 {
								c.Fail("not-smaller", "level %d: page %d content of %d bytes takes %d bytes", lv, i+1, len(plain), len(raw))
							} else if len(raw) > want+want/6+64 {
								c.Fail("weaker", "level %d: page %d content of %d bytes takes %d bytes, the level gives %d", lv, i+1, len(plain), len(raw), want)
							}
						}
					}
					// an out-of-range level is the nearest level, byte for byte
					if eff != lv && how != 2 {
						s3 := s2
						s3.Ops = append([]Op{}, s2.Ops...)
						for i := range s3.Ops {
							if s3.Ops[i].K == "compress" {
								s3.Ops[i] = Op{K: "compress", I: []int{eff}}
							}
						}
						_, b3 := runScript(&s3, unit, nil)
						if p.PDFs == 0 && !bytes.Equal(b, b3) {
							c.Fail("out-of-range-level", "level %d does not give what level %d gives: %s", lv, eff, firstDiff(b, b3))
						}
					}
					// streams that are not page content are stored the same at every level
					if p.PDFs == 0 && !p.Protect && how != 2 {
						d0, _ := pdfr.Parse(base)
						for n, o := range d0.Objs {
							if s0, ok := o.(*pdfr.Stream); ok && !isContent[n] {
								s1, ok := d.Objs[n].(*pdfr.Stream)
								c.Count("other streams compared", 1)
								if !ok || !bytes.Equal(s0.Raw, s1.Raw) {
									c.Fail("other-stream", "level %d changes how stream %d %v is stored", lv, n, s0.D)
								}
							}
						}
					}
				}
				if p.Protect {
					c.Count("encrypted", 1)
				}
				c.Distinct(fmt.Sprintf("%x %v", fnv64(string(base)), levels))
				c.Sample("%d calls, %d bytes, levels %v", len(sc.Ops), len(base), levels)
			})
		}})
}

// deflated is the size of the data when it is compressed at a level.
func deflated(b []byte, level int) int {
	var z bytes.Buffer
	w, err := zlib.NewWriterLevel(&z, level)
	if err != nil {
		return len(b)
	}
	w.Write(b)
	w.Close()
	return z.Len()
}
