package main

import (
	"bytes"
	"fmt"
	"image"
	"image/jpeg"
	"io"
	"math/rand"
	"strings"

	"vmon/imgx"
	"vmon/pdfr"
)

// C16: embedded images keep every pixel.

func init() {
	register(&Check{ID: "C16", Quick: 9000, Deep: 80000, Rule: "images of every supported kind, encoding and size, given by path, bytes, reader (in small pieces) or memory, alone or many to a document, decoded from the written file and compared pixel by pixel with the source",
		Need: []string{"images", "pixels", "png ct0", "png ct2", "png ct3", "png ct4", "png ct6", "trns", "gif", "jpeg grey", "jpeg rgb", "jpeg cmyk", "memory", "memory as jpeg", "path", "bytes", "reader", "slow reader", "encrypted", "partly transparent", "large", "shared"},
		Run:  runC16})
}

// slowReader delivers a few bytes at a time.
type slowReader struct {
	b []byte
	r *rand.Rand
}

func (s *slowReader) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := 1 + s.r.Intn(97)
	if s.r.Intn(9) == 0 {
		n = 0
	}
	n = copy(p, s.b[:min(n, len(s.b))])
	s.b = s.b[n:]
	if len(s.b) == 0 && s.r.Intn(2) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// largeImage draws an image of many pixels.
func largeImage(r *rand.Rand) *ImgAsset {
	if r.Intn(4) == 0 {
		m := image.NewGray(image.Rect(0, 0, 300+r.Intn(400), 200+r.Intn(100)))
		r.Read(m.Pix)
		var b bytes.Buffer
		jpeg.Encode(&b, m, nil)
		d, _ := jpeg.Decode(bytes.NewReader(b.Bytes()))
		return &ImgAsset{Data: append([]byte{}, b.Bytes()...), Img: d, Pic: imgx.FromImage(d), Kind: "jpeg grey"}
	}
	s := imgx.RandPNGSpec(r)
	s.W, s.H = 200+r.Intn(300), 100+r.Intn(300)
	if r.Intn(3) == 0 {
		s.W, s.H = 1+r.Intn(3), 3000
	}
	if r.Intn(3) == 0 {
		s.W, s.H = 5000, 1+r.Intn(3)
	}
	return imgAsset(imgx.MakePNG(r, s))
}

func runC16(c *Case) {
	r := c.R
	sc := &Script{Cfg: Cfg{W: 600, H: 800}}
	if r.Intn(6) == 0 {
		sc.Cfg.Protect, sc.Cfg.User, sc.Cfg.Owner = true, "user", "owner"
		c.Count("encrypted", 1)
	}
	n := 1
	if r.Intn(2) == 0 {
		n = 2 + r.Intn(6)
	}
	for i := 0; i < n; i++ {
		var a *ImgAsset
		switch r.Intn(5) {
		case 0:
			a = memImage(r)
		default:
			a = randImage(r)
		}
		if i == 0 && r.Intn(12) == 0 {
			a = largeImage(r)
			c.Count("large", 1)
		}
		if i == n-1 && i > 0 && r.Intn(8) == 0 {
			sc.Images[i-1], a = siblings(r)
			c.Count("siblings", 1)
		}
		sc.Images = append(sc.Images, a)
		sc.Desc = append(sc.Desc, fmt.Sprintf("image %s %dx%d", a.Kind, a.Pic.W, a.Pic.H))
	}
	if r.Intn(3) == 0 {
		sc.Ops = append(sc.Ops, Op{K: "compress", I: []int{r.Intn(12) - 2}})
	}
	sc.Ops = append(sc.Ops, Op{K: "addpage"})
	type use struct{ op, img, route int }
	uses := map[int]use{} // by op index
	slow := r.Intn(3) == 0
	k := n
	if r.Intn(2) == 0 {
		k += r.Intn(5)
		c.Count("shared", 1)
	}
	for j := 0; j < k; j++ {
		i := j
		if j >= n {
			i = r.Intn(n)
		}
		route := r.Intn(6)
		a := sc.Images[i]
		if a.Img != nil && strings.HasPrefix(a.Kind, "memory") {
			route = r.Intn(7)
		}
		if route >= 4 && !strings.HasPrefix(a.Kind, "memory") && !strings.HasPrefix(a.Kind, "png") {
			route = r.Intn(4)
		}
		at := len(sc.Ops)
		if r.Intn(4) == 0 && route <= 3 && route > 0 {
			sc.Ops = append(sc.Ops, Op{K: "imageopt", Img: &ImgOpt{Img: i, Route: route - 1, X: 10 * float64(j), Y: 10, W: 30, H: 30, HasRect: true, Angle: []float64{0, 30}[r.Intn(2)], VF: r.Intn(3) == 0, HF: r.Intn(3) == 0}})
		} else {
			o := Op{K: "image", I: []int{i, route}, F: []float64{float64(10 * j), float64(10 * j)}}
			if r.Intn(2) == 0 || a.Pic.W < 2 || a.Pic.H < 2 {
				o.F = append(o.F, 20, 20)
			}
			sc.Ops = append(sc.Ops, o)
		}
		uses[at] = use{at, i, route}
		if r.Intn(5) == 0 {
			sc.Ops = append(sc.Ops, Op{K: "addpage"})
		}
		if r.Intn(8) == 0 {
			sc.Ops = append(sc.Ops, Op{K: "out", I: []int{0}})
		}
	}
	unit := randUnit(r)
	c.trace = func() string { return fmt.Sprintf("unit %+v\n%s", unit, sc) }
	rr := rand.New(rand.NewSource(r.Int63()))
	v, b := runScript(sc, unit, func(v *VM) {
		if slow {
			v.Reader = func(b []byte) io.Reader { return &slowReader{b, rr} }
			c.Count("slow reader", 1)
		}
	})
	for _, q := range v.Recs {
		if q.Err != "" {
			u := uses[q.I]
			c.Fail("error:"+q.K, "%s of image %d (%s, route %d): %s", q.K, u.img, sc.Desc[min(u.img, len(sc.Desc)-1)], u.route, q.Err)
			return
		}
	}
	d := openDoc(c, sc, b)
	if d == nil {
		return
	}
	pages, err := d.Pages()
	if err != nil {
		c.Fail("pages", "%v", err)
		return
	}
	var events []pdfr.Event
	fi := d.LoadFonts()
	for _, p := range pages {
		content, err := d.PageContent(p)
		if err != nil {
			c.Fail("content", "%v", err)
			return
		}
		for _, e := range d.Run(content, p.Res, pdfr.InitialGS(), fi, false).Events {
			if e.Kind == "image" {
				events = append(events, e)
			}
		}
	}
	var order []use
	for i := range sc.Ops {
		if u, ok := uses[i]; ok {
			order = append(order, u)
		}
	}
	if len(events) != len(order) {
		c.Fail("count", "%d images drawn, %d asked for", len(events), len(order))
		return
	}
	got := map[int]*imgx.Pic{}
	for k, u := range order {
		a := sc.Images[u.img]
		st, ok := d.R(pdfr.Ref{Num: events[k].XObj}).(*pdfr.Stream)
		if !ok {
			c.Fail("xobject", "use %d: object %d is no stream", k, events[k].XObj)
			return
		}
		p := got[events[k].XObj]
		if p == nil {
			p, err = imgx.FromPDF(d, st)
			if err != nil {
				c.Fail("decode:"+kindClass(a.Kind), "%s (route %d): the embedded image does not decode: %v", sc.Desc[u.img], u.route, err)
				return
			}
			got[events[k].XObj] = p
		}
		want := a.Pic
		if u.route == 6 {
			want = jpegPic(a.Img)
			c.Count("memory as jpeg", 1)
		} else if u.route >= 4 {
			c.Count("memory", 1)
		}
		c.Count([]string{"path", "path", "bytes", "reader", "memory", "memory", "memory"}[u.route], 1)
		for _, pre := range []string{"png ct0", "png ct2", "png ct3", "png ct4", "png ct6", "gif", "jpeg grey", "jpeg rgb", "jpeg cmyk"} {
			if strings.HasPrefix(a.Kind, pre) {
				c.Count(pre, 1)
			}
		}
		if strings.Contains(a.Kind, "trns") {
			c.Count("trns", 1)
		}
		tol := float32(0.003)
		if df := imgx.Diff(want, p, tol); df != "" {
			c.Fail("pixels:"+kindClass(a.Kind), "%s (route %d): %s", sc.Desc[u.img], u.route, df)
			return
		}
		// a JPEG file is passed on as it is
		if strings.HasPrefix(a.Kind, "jpeg") && u.route < 4 && !bytes.Equal(d.Bytes(st), a.Data) {
			c.Fail("jpeg-bytes", "%s: the embedded JPEG is %d bytes, the source %d, or differs", sc.Desc[u.img], len(d.Bytes(st)), len(a.Data))
		}
		for _, px := range want.P {
			if px.A > 0 && px.A < 1 {
				c.Count("partly transparent", 1)
				break
			}
		}
		c.Count("images", 1)
		c.Count("pixels", len(want.P))
		c.Distinct(fmt.Sprintf("%s %dx%d %d", a.Kind, want.W, want.H, u.route))
	}
	c.Sample("%v", sc.Desc)
}

func kindClass(k string) string {
	f := strings.Fields(k)
	if len(f) > 2 {
		f = f[:2]
	}
	return strings.Join(f, "-")
}
