package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
)

// C03: routes and repetition.

// firstDiff locates the first differing byte of two outputs.
func firstDiff(a, b []byte) string {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	i := 0
	for i < n && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	sl := func(x []byte) string {
		hi := i + 60
		if hi > len(x) {
			hi = len(x)
		}
		if lo > hi {
			return ""
		}
		return fmt.Sprintf("%q", x[lo:hi])
	}
	return fmt.Sprintf("lengths %d and %d, first difference at byte %d:\n  %s\n  %s", len(a), len(b), i, sl(a), sl(b))
}

// randRead drains the document through Read in drawn chunk sizes, checking the reader contract.
func randRead(c *Case, v *VM) []byte {
	var out []byte
	for n := 0; ; n++ {
		k := []int{1, 2, 7, 100, 511, 4096, 1 << 20}[c.R.Intn(7)]
		if len(out) > 3000 && k < 100 && n > 200 {
			k = 4096
		}
		if c.R.Intn(20) == 0 {
			k = 0
		}
		p := bytes.Repeat([]byte{0xA5}, k+3)
		m, err := v.G.Read(p[:k:k])
		if m > k || m < 0 {
			c.Fail("read-count", "Read returned %d for a buffer of %d", m, k)
			return out
		}
		if p[k] != 0xA5 || p[k+1] != 0xA5 {
			c.Fail("read-overrun", "Read wrote past the buffer")
		}
		out = append(out, p[:m]...)
		if err == io.EOF {
			if m2, e2 := v.G.Read(make([]byte, 10)); m2 != 0 || e2 != io.EOF {
				c.Fail("read-after-eof", "Read after the end returned %d, %v", m2, e2)
			}
			return out
		}
		if err != nil {
			c.Fail("read-error", "Read failed: %v", err)
			return out
		}
		if len(out) > 1<<28 || n > 1<<20 {
			c.Fail("read-endless", "Read never ends")
			return out
		}
	}
}

type chunkWriter struct {
	b bytes.Buffer
	n int
}

func (w *chunkWriter) Write(p []byte) (int, error) { w.n++; return w.b.Write(p) }

func init() {
	register(&Check{ID: "C03", Quick: 2500, Deep: 50000, Rule: "random call histories; every output route, repeated, in random order; mid-document outputs; twin without them",
		Need: []string{"outputs compared", "mid-document outputs", "read chunks", "file outputs", "encrypted", "with imports", "multi-page"},
		Run: func(c *Case) {
			p := Profile{Big: 200, W: mergeW(wAll, map[string]int{"out": 3 * c.R.Intn(2)}), Steps: 3 + c.R.Intn(50), Images: 1 + c.R.Intn(3), Header: true, Sizes: true, Missing: c.R.Intn(4) == 0, Bulk: 30, Protect: c.R.Intn(5) == 0}
			if c.R.Intn(6) == 0 && !p.Protect {
				p.PDFs = 1
			}
			g := newGen(c.R, p)
			sc := g.build()
			unit := randUnit(c.R)
			c.trace = func() string { return fmt.Sprintf("unit %+v\n%s", unit, sc) }
			v := newVM(sc, unit)
			defer v.Clean()
			v.Run()
			nMid := 0
			for _, rec := range v.Recs {
				if rec.K == "out" {
					nMid++
					c.Count("mid-document outputs", 1)
					if rec.Err != "" {
						c.Fail("mid-output-error", "call %d: %s", rec.I, rec.Err)
					}
				}
			}
			ref := append([]byte{}, v.G.GetBytesPdf()...)
			if !bytes.HasPrefix(ref, []byte("%PDF-")) {
				c.Fail("no-header", "output starts %q", ref[:min(len(ref), 20)])
				return
			}
			cmp := func(how string, b []byte) {
				c.Count("outputs compared", 1)
				if !bytes.Equal(ref, b) {
					c.Fail("differs:"+how, "output by %s differs from the first: %s", how, firstDiff(ref, b))
				}
			}
			order := c.R.Perm(9)
			for _, o := range order {
				switch o {
				case 0:
					cmp("GetBytesPdf", v.G.GetBytesPdf())
				case 1:
					b, err := v.G.GetBytesPdfReturnErr()
					if err != nil {
						c.Fail("error:GetBytesPdfReturnErr", "%v", err)
					}
					cmp("GetBytesPdfReturnErr", b)
				case 2, 3:
					w := &chunkWriter{}
					n, err := v.G.WriteTo(w)
					if err != nil {
						c.Fail("error:WriteTo", "%v", err)
					}
					if n != int64(w.b.Len()) {
						c.Fail("count:WriteTo", "WriteTo reports %d bytes, the writer received %d", n, w.b.Len())
					}
					cmp("WriteTo", w.b.Bytes())
				case 4:
					w := &chunkWriter{}
					if err := v.G.Write(w); err != nil {
						c.Fail("error:Write", "%v", err)
					}
					cmp("Write", w.b.Bytes())
				case 5, 6:
					v.G.Close()
					b := randRead(c, v)
					c.Count("read chunks", 1)
					cmp("Read", b)
					v.G.Close()
				case 7:
					d, err := os.MkdirTemp("", "c03")
					if err != nil {
						panic("harness: " + err.Error())
					}
					f := filepath.Join(d, "o.pdf")
					if c.R.Intn(2) == 0 { // an existing longer file is replaced
						os.WriteFile(f, bytes.Repeat([]byte("x"), len(ref)+1000), 0o644)
					}
					if err := v.G.WritePdf(f); err != nil {
						c.Fail("error:WritePdf", "%v", err)
					}
					b, _ := os.ReadFile(f)
					os.RemoveAll(d)
					c.Count("file outputs", 1)
					cmp("WritePdf", b)
				case 8:
					d, err := os.MkdirTemp("", "c03")
					if err != nil {
						panic("harness: " + err.Error())
					}
					// half-read, then written by another route, then read from the start again
					v.G.Close()
					buf := make([]byte, 50)
					v.G.Read(buf)
					cmp("GetBytesPdf after a partial Read", v.G.GetBytesPdf())
					v.G.Close()
					cmp("Read after Close", randRead(c, v))
					cmp("GetBytesPdf after Read", v.G.GetBytesPdf())
					cmp("Read after GetBytesPdf", randRead(c, v)) // no Close in between: the one before is read to its end
					v.G.Close()
					os.RemoveAll(d)
				}
			}
			// the twin that never produced output on the way
			if nMid > 0 {
				v2 := newVM(sc, unit)
				v2.NoOut = true
				defer v2.Clean()
				v2.Run()
				b := append([]byte{}, v2.G.GetBytesPdf()...)
				c.Count("twins without mid-document output", 1)
				if !bytes.Equal(ref, b) {
					// object numbers may differ (the encryption dictionary is made at the first output): compare meaning
					la, lb := canonOf(c, sc, ref), canonOf(c, sc, b)
					if la == nil || lb == nil {
						return
					}
					if d := diffLines(la, lb); d != "" {
						c.Fail("mid-output-disturbs:"+diffKind(la, lb), "a document output on the way differs from its twin: %s", d)
					}
					c.Count("twins equal in meaning only", 1)
				}
				ra, rb := noOut(v.Recs), noOut(v2.Recs)
				if ra != rb {
					c.Fail("mid-output-returns", "calls return other values when the document is output on the way: %s", lineDiff(ra, rb))
				}
			}
			if p.Protect {
				c.Count("encrypted", 1)
			}
			if p.PDFs > 0 {
				c.Count("with imports", 1)
			}
			if v.G.GetNumberOfPages() > 1 {
				c.Count("multi-page", 1)
			}
			c.Count("calls", len(v.Recs))
			c.Distinct(fmt.Sprintf("%x", fnv64(string(ref))))
			c.Sample("%d calls, %d bytes, routes in order %v, %d outputs on the way", len(v.Recs), len(ref), order, nMid)
		}})
}

// recLines writes what the calls returned.
func recLines(rs []Rec) []string {
	var o []string
	for _, r := range rs {
		o = append(o, fmt.Sprintf("%s %q L%.4f N%v S%q at %.4f %.4f miss %q", r.K, r.Err, r.L, r.N, r.S, r.X, r.Y, string(r.Miss)))
	}
	return o
}
func noOut(rs []Rec) string {
	var k []Rec
	for _, r := range rs {
		if r.K != "out" {
			k = append(k, r)
		}
	}
	return strings.Join(recLines(k), "\n")
}
func lineDiff(a, b string) string { return diffLines(strings.Split(a, "\n"), strings.Split(b, "\n")) }
