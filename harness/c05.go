package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/signintech/gopdf"
)

// job05 is a set of documents built side by side.
type job05 struct {
	sc    []*Script
	unit  []Unit
	cont  []Op  // fonts of the shared container
	runs  []int // which script each goroutine builds
	exact []bool
	jit   []int64
	extra bool
}

func plan05(r *rand.Rand) *job05 {
	j := &job05{}
	n := 2 + r.Intn(3)
	prof := func() Profile {
		p := Profile{W: mergeW(wAll, wOut), Steps: 4 + r.Intn(25), Images: 1 + r.Intn(3), Header: true, Fonts: 1 + r.Intn(4), RealFont: true}
		if r.Intn(4) == 0 {
			p.Protect = true
		}
		if r.Intn(4) == 0 {
			p.PDFs = 1
		}
		return p
	}
	// the fonts: one list of registrations shared by all documents
	base := newGen(r, prof())
	for i := range base.Sc.Fonts {
		base.addFont(i)
	}
	seen := map[string]bool{}
	for i := range base.out {
		o := &base.out[i]
		o.I[4] = 0 // the harness's own callback would be shared
		if !seen[o.S[0]] {
			seen[o.S[0]] = true
			if r.Intn(4) > 0 {
				o.I[1] = 3
				j.cont = append(j.cont, *o)
				continue
			}
		}
		if o.I[1] == 3 {
			o.I[1] = r.Intn(3)
		}
	}
	for i := 0; i < n; i++ {
		p := prof()
		g := newGen(r, p)
		g.Sc.Fonts = base.Sc.Fonts
		if r.Intn(4) > 0 {
			g.Sc.Images = base.Sc.Images
		}
		g.fixed = base.out
		g.fixedFonts = base.fonts
		sc := g.build()
		if r.Intn(2) == 0 {
			sc.Ops = append(sc.Ops, Op{K: "preset", I: []int{r.Intn(9)}}, Op{K: "setxy", F: []float64{30, 40}}, Op{K: "text", S: []string{"preset"}})
		}
		if r.Intn(2) == 0 {
			sc.Ops = append(sc.Ops, Op{K: "arabic", S: []string{"السلام عليكم لا"}})
		}
		// a few outputs on the way
		for k := r.Intn(3); k > 0; k-- {
			sc.Ops = append(sc.Ops, Op{K: "out", I: []int{r.Intn(8)}})
		}
		j.sc = append(j.sc, sc)
		u := Unit{U: gopdf.UnitPT}
		if r.Intn(3) == 0 {
			u = randUnit(r)
		}
		j.unit = append(j.unit, u)
		j.exact = append(j.exact, p.PDFs == 0)
	}
	for i := range j.sc {
		j.runs = append(j.runs, i)
	}
	for len(j.runs) < 6 && r.Intn(3) > 0 {
		j.runs = append(j.runs, r.Intn(n))
	}
	for range j.runs {
		j.jit = append(j.jit, r.Int63())
	}
	j.extra = r.Intn(2) == 0
	return j
}

func (j *job05) container(v *VM) *gopdf.FontContainer {
	c := &gopdf.FontContainer{}
	for i := range j.cont {
		o := &j.cont[i]
		if err := c.AddTTFFontDataWithOption(o.S[0], v.Sc.Fonts[o.I[0]].Data, v.ttfOption(o)); err != nil {
			panic("harness: " + err.Error())
		}
	}
	return c
}

// canon gives what is compared: the bytes, or the meaning where the dependency that reads
// imported files orders its output at random.
func (j *job05) form(c *Case, i int, b []byte) string {
	if j.exact[i] {
		return string(b)
	}
	l := canonOf(c, j.sc[i], b)
	return strings.Join(l, "\n")
}

func (j *job05) solo(i int, cont *gopdf.FontContainer) (*VM, []byte) {
	return runScript(j.sc[i], j.unit[i], func(v *VM) { v.Cont = cont })
}

func (j *job05) hashes() string {
	var o []string
	cont := j.container(newVM(j.sc[0], j.unit[0]))
	for i := range j.sc {
		v, b := j.solo(i, cont)
		h := sha256.New()
		for _, l := range recLines(v.Recs) {
			fmt.Fprintln(h, l)
		}
		if j.exact[i] {
			h.Write(b)
			for _, r := range v.Recs {
				h.Write(r.Out)
			}
		}
		o = append(o, fmt.Sprintf("%x", h.Sum(nil)[:12]))
	}
	return strings.Join(o, " ")
}

// hash05 prints what a fresh process builds.
func hash05(tier string, seed int64, idx int) {
	c := newCase("C05", tier, seed, idx)
	fmt.Println(plan05(c.R).hashes())
}

func init() {
	register(&Check{ID: "C05", Quick: 160, Deep: 4000, Workers: 3, MemMB: 6000, CPU: 240, Rule: "sets of random documents sharing fonts, a font container, images, settings and the package's pools, each built alone, then 3 to 6 at once, then alone again, and again in a new process",
		Need: []string{"goroutines", "container fonts shared", "interleavings", "overlapping calls", "same document at once", "new process", "containers filled while in use", "protected documents", "imported pages"},
		Run: func(c *Case) {
			j := plan05(c.R)
			c.trace = func() string {
				s := fmt.Sprintf("goroutines build scripts %v; container %v\n", j.runs, j.cont)
				for i, x := range j.sc {
					s += fmt.Sprintf("--- script %d, unit %+v\n%s", i, j.unit[i], x)
				}
				return s
			}
			// alone
			want := make([]string, len(j.sc))
			recs := make([][]string, len(j.sc))
			outs := make([][][]byte, len(j.sc))
			cont0 := j.container(newVM(j.sc[0], j.unit[0]))
			var total int
			for i := range j.sc {
				v, b := j.solo(i, cont0)
				want[i] = j.form(c, i, b)
				recs[i] = recLines(v.Recs)
				outs[i] = outsOf(v)
				total += len(v.Recs)
				if j.sc[i].Cfg.Protect {
					c.Count("protected documents", 1)
				}
				for _, o := range j.sc[i].Ops {
					if o.K == "use" || o.K == "impall" {
						c.Count("imported pages", 1)
					}
				}
			}
			// side by side
			type stamp struct {
				t time.Duration
				g int
			}
			type res struct {
				recs []string
				outs [][]byte
				b    []byte
				log  []stamp
				pan  string
			}
			rs := make([]res, len(j.runs))
			cont := j.container(newVM(j.sc[0], j.unit[0]))
			var wg sync.WaitGroup
			start := make(chan bool)
			t0 := time.Now()
			for k := range j.runs {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					r := &rs[k]
					i := j.runs[k]
					jit := rand.New(rand.NewSource(j.jit[k]))
					<-start
					defer func() {
						if e := recover(); e != nil {
							r.pan = fmt.Sprintf("%v\n%s", e, trimStack(stack()))
						}
					}()
					if j.extra && k == 0 && len(j.cont) > 0 {
						// another family arrives in the container while it is being read
						o := j.cont[0]
						v := newVM(j.sc[i], j.unit[i])
						if err := cont.AddTTFFontDataWithOption("late", v.Sc.Fonts[o.I[0]].Data, v.ttfOption(&o)); err != nil {
							panic(err)
						}
					}
					v, b := runScript(j.sc[i], j.unit[i], func(v *VM) {
						v.Cont = cont
						v.Enter = func(op *Op) {
							r.log = append(r.log, stamp{time.Since(t0), k})
							for n := jit.Intn(4); n > 0; n-- {
								runtime.Gosched()
							}
						}
					})
					r.log = append(r.log, stamp{time.Since(t0), k})
					r.b = b
					r.recs = recLines(v.Recs)
					r.outs = outsOf(v)
				}(k)
			}
			close(start)
			wg.Wait()
			c.Count("goroutines", len(j.runs))
			if j.extra && len(j.cont) > 0 {
				c.Count("containers filled while in use", 1)
			}
			c.Count("container fonts shared", len(j.cont))
			c.Count("same document at once", len(j.runs)-len(j.sc))
			var all []stamp
			for k := range rs {
				all = append(all, rs[k].log...)
			}
			sort.SliceStable(all, func(a, b int) bool { return all[a].t < all[b].t })
			var order strings.Builder
			sw := 0
			for i, s := range all {
				fmt.Fprintf(&order, "%d", s.g)
				if i > 0 && all[i-1].g != s.g {
					sw++
				}
			}
			c.Count("overlapping calls", sw)
			if sw > len(rs) {
				c.Count("interleavings", 1)
			}
			c.Distinct(order.String())
			c.Sample("%d goroutines building %d documents, %d calls, %d switches between goroutines seen between calls", len(rs), len(j.sc), total, sw)
			for k := range rs {
				i := j.runs[k]
				if rs[k].pan != "" {
					c.Fail("concurrent:panic:"+panicSite(rs[k].pan), "goroutine %d building script %d panics: %s", k, i, rs[k].pan)
					continue
				}
				if d := diffLines(recs[i], rs[k].recs); d != "" {
					c.Fail("concurrent:returns", "script %d: calls return something else when built with others: %s", i, d)
				}
				j.compare(c, "concurrent", i, want[i], rs[k].b, outs[i], rs[k].outs)
			}
			// alone again
			for i := range j.sc {
				_, b := j.solo(i, cont)
				j.compare(c, "again", i, want[i], b, nil, nil)
			}
			// in a new process
			if c.Index%12 == 0 {
				h := j.hashes()
				cmd := exec.Command(os.Args[0], "-hash05", c.Tier, fmt.Sprint(c.Seed), fmt.Sprint(c.Index))
				out, err := cmd.Output()
				if err != nil {
					panic("harness: " + err.Error())
				}
				if got := strings.TrimSpace(string(out)); got != h {
					c.Fail("process", "a new process builds other documents: hashes %s here, %s there", h, got)
				}
				c.Count("new process", len(j.sc))
			}
		}})
}

func outsOf(v *VM) (o [][]byte) {
	for _, r := range v.Recs {
		if r.K == "out" {
			o = append(o, r.Out)
		}
	}
	return
}

func stack() string {
	b := make([]byte, 1<<15)
	return string(b[:runtime.Stack(b, false)])
}

func (j *job05) compare(c *Case, kind string, i int, want string, b []byte, wo, go_ [][]byte) {
	if got := j.form(c, i, b); got != want {
		at := ""
		if j.exact[i] {
			at = firstDiff([]byte(want), b)
		} else {
			at = diffLines(strings.Split(want, "\n"), strings.Split(got, "\n"))
		}
		c.Fail(kind+":bytes", "script %d gives another document (%s): %s", i, kind, at)
	}
	if !j.exact[i] {
		return
	}
	for k := range wo {
		if k < len(go_) && !bytes.Equal(wo[k], go_[k]) {
			c.Fail(kind+":mid-output", "script %d: output number %d differs (%s): %s", i, k, kind, firstDiff(wo[k], go_[k]))
		}
	}
}
