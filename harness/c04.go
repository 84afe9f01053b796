package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"

	"github.com/signintech/gopdf"
	"github.com/signintech/gopdf/fontmaker/core"
	"vmon/ttfx"
)

// C04: failures of destinations and sources are reported.

var errInjected = errors.New("injected I/O failure")

// faultWriter accepts n bytes and then fails in the given manner.
type faultWriter struct {
	n      int
	mode   int
	got    bytes.Buffer
	failed int // calls refused
}

func (w *faultWriter) Write(p []byte) (int, error) {
	room := w.n - w.got.Len()
	if room >= len(p) && !(w.mode == 2 && room == len(p)) {
		w.got.Write(p)
		return len(p), nil
	}
	w.failed++
	switch w.mode {
	case 0: // takes what fits and reports the failure
		if room > len(p) {
			room = len(p)
		}
		w.got.Write(p[:room])
		return room, errInjected
	case 1: // takes what fits and says so, without an error
		w.got.Write(p[:room])
		return room, nil
	case 2: // takes everything and then reports a failure; afterwards refuses
		if w.failed == 1 {
			if room > len(p) {
				room = len(p)
			}
			w.got.Write(p[:room])
			return room, errInjected
		}
		return 0, errInjected
	case 3: // refuses the whole piece, once; later pieces would be taken
		if w.failed == 1 {
			return 0, errInjected
		}
		w.got.Write(p)
		return len(p), nil
	default: // fails once with a part, later pieces would be taken
		if w.failed == 1 {
			w.got.Write(p[:room])
			return room, nil
		}
		w.got.Write(p)
		return len(p), nil
	}
}

// faultReader delivers data in drawn pieces and fails after n bytes.
type faultReader struct {
	data  []byte
	n     int
	piece func() int
	with  bool // the error comes together with the last bytes
	at    int
	err   error
	zero  bool
}

func (r *faultReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.zero {
		r.zero = false
		return 0, nil
	}
	end := r.n
	if end > len(r.data) {
		end = len(r.data)
	}
	if r.at >= end {
		return 0, r.err
	}
	k := r.piece()
	if k > len(p) {
		k = len(p)
	}
	if k > end-r.at {
		k = end - r.at
	}
	copy(p, r.data[r.at:r.at+k])
	r.at += k
	if r.with && r.at >= end {
		return k, r.err
	}
	return k, nil
}

type faultHolder struct {
	*faultReader
	id string
}

func (h faultHolder) ID() string { return h.id }

func sinkFaults(c *Case) {
	r := c.R
	p := Profile{W: wAll, Steps: 2 + r.Intn(25), Images: 1 + r.Intn(2), Header: true, Protect: r.Intn(5) == 0}
	g := newGen(r, p)
	sc := g.build()
	unit := randUnit(r)
	what := ""
	c.trace = func() string { return fmt.Sprintf("%s\nunit %+v\n%s", what, unit, sc) }
	v := newVM(sc, unit)
	defer v.Clean()
	v.Run()
	ref, err := v.G.GetBytesPdfReturnErr()
	if err != nil {
		c.Fail("output", "output fails without a fault: %v", err)
		return
	}
	ref = append([]byte{}, ref...)
	n := 60
	if c.Thorough() {
		n = 250
	}
	for k := 0; k < n; k++ {
		at := r.Intn(len(ref))
		switch {
		case k == 0:
			at = 0
		case k == 1:
			at = len(ref) - 1
		case k < 10: // within the trailer and the cross-reference table
			at = len(ref) - 1 - r.Intn(min(len(ref)-1, 400))
		case k < 14:
			at = r.Intn(min(len(ref), 40))
		}
		w := &faultWriter{n: at, mode: r.Intn(5)}
		what = fmt.Sprintf("writer of mode %d failing at byte %d of %d", w.mode, at, len(ref))
		c.Count("faults injected into writers", 1)
		c.Count(fmt.Sprintf("writer mode %d", w.mode), 1)
		if r.Intn(3) == 0 {
			err = v.G.Write(w)
			if w.failed > 0 && err == nil {
				c.Fail("swallowed:Write", "Write reports success although %s", what)
			}
		} else {
			var m int64
			m, err = v.G.WriteTo(w)
			if w.failed > 0 && err == nil {
				c.Fail("swallowed:WriteTo", "WriteTo reports success although %s", what)
			}
			if m != int64(w.got.Len()) {
				c.Fail("count", "WriteTo reports %d bytes, %d were accepted: %s", m, w.got.Len(), what)
			}
		}
		if w.failed == 0 {
			c.Fail("no-fault", "harness: no write reached byte %d", at)
		}
		if w.mode < 3 && !bytes.HasPrefix(ref, w.got.Bytes()) {
			c.Fail("prefix", "the bytes accepted before the failure are not the beginning of the document: %s", what)
		}
		if w.mode >= 3 && w.failed > 0 && w.got.Len() > 0 && !bytes.HasPrefix(ref, w.got.Bytes()) {
			// a hole in the middle: bytes after the failed piece must not be counted as a success; err was checked
			c.Count("writes attempted after a failure", 1)
		}
		if c.Failed() {
			return
		}
		c.Distinct(fmt.Sprint(w.mode, at, len(ref)))
	}
	// files
	dir, err := os.MkdirTemp("", "vmon")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for _, path := range []string{filepath.Join(dir, "no", "such", "o.pdf"), dir, "", "/dev/full"} {
		what = "file " + path
		if err := v.G.WritePdf(path); err == nil {
			c.Fail("swallowed:WritePdf", "WritePdf to %q reports success", path)
		}
		c.Count("faults injected into files", 1)
	}
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old) == nil {
		for k := 0; k < 6; k++ {
			at := r.Intn(len(ref))
			if k == 0 {
				at = len(ref) - 1
			}
			path := filepath.Join(dir, fmt.Sprintf("o%d.pdf", k))
			lim := old
			lim.Cur = uint64(at)
			if syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim) != nil {
				break
			}
			err := v.G.WritePdf(path)
			syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
			what = fmt.Sprintf("file limited to %d of %d bytes", at, len(ref))
			if err == nil {
				c.Fail("swallowed:WritePdf", "WritePdf reports success: %s", what)
			}
			c.Count("files full at a byte", 1)
		}
	}
	// afterwards the document is still whole
	what = "after the failures"
	again, err := v.G.GetBytesPdfReturnErr()
	if err != nil || !bytes.Equal(ref, again) {
		c.Fail("after-failure", "after failed outputs the document differs (error %v): %s", err, firstDiff(ref, again))
	}
	rd, _ := output(v.G, 4, v)
	if !bytes.Equal(ref, rd) {
		c.Fail("after-failure", "after failed outputs the reader delivers something else: %s", firstDiff(ref, rd))
	}
	c.Sample("%d bytes, failures at %d places", len(ref), n)
}

func sourceFaults(c *Case) {
	r := c.R
	g := &gopdf.GoPdf{}
	g.Start(gopdf.Config{PageSize: *gopdf.PageSizeA4})
	g.AddPage()
	what := ""
	c.trace = func() string { return what }
	for k := 0; k < 12; k++ {
		piece := func() int { return 1 + r.Intn(5000) }
		if r.Intn(4) == 0 {
			piece = func() int { return 1 + r.Intn(7) }
		}
		fr := &faultReader{piece: piece, with: r.Intn(2) == 0, zero: r.Intn(3) == 0, err: []error{errInjected, io.ErrUnexpectedEOF, io.ErrClosedPipe}[r.Intn(3)]}
		var call func(rd io.Reader) error
		kind := ""
		var img *ImgAsset
		switch r.Intn(6) {
		case 0, 1:
			a := synthFont(r, ttfx.GenOpt{})
			fr.data = a.Data
			fam := fmt.Sprintf("f%d", k)
			switch r.Intn(4) {
			case 0:
				kind = "AddTTFFontByReader"
				call = func(rd io.Reader) error { return g.AddTTFFontByReader(fam, rd) }
			case 1:
				kind = "AddTTFFontByReaderWithOption"
				call = func(rd io.Reader) error {
					return g.AddTTFFontByReaderWithOption(fam, rd, gopdf.TtfOption{UseKerning: true})
				}
			case 2:
				kind = "FontContainer.AddTTFFontByReader"
				call = func(rd io.Reader) error { return new(gopdf.FontContainer).AddTTFFontByReader(fam, rd) }
			default:
				kind = "TTFParser.ParseByReader"
				call = func(rd io.Reader) error { return new(core.TTFParser).ParseByReader(rd) }
			}
		case 2:
			img = randImage(r)
			fr.data = img.Data
			kind = "ImageHolderByReader"
			call = func(rd io.Reader) error {
				h, err := gopdf.ImageHolderByReader(rd)
				if err != nil {
					return err
				}
				return g.ImageByHolder(h, 10, 10, nil)
			}
		case 3:
			img = randImage(r)
			fr.data = img.Data
			kind = "ImageByHolder"
			var rect *gopdf.Rect
			if r.Intn(2) == 0 {
				rect = &gopdf.Rect{W: 20, H: 20}
			}
			call = func(rd io.Reader) error {
				return g.ImageByHolder(faultHolder{rd.(*faultReader), fmt.Sprint("id", k)}, 10, 10, rect)
			}
		case 4:
			img = randImage(r)
			fr.data = img.Data
			kind = "ImageObj.SetImage"
			call = func(rd io.Reader) error {
				o := new(gopdf.ImageObj)
				if err := o.SetImage(rd); err != nil {
					return err
				}
				return o.Parse()
			}
		default:
			img = alphaImage(r)
			fr.data = img.Data
			kind = "mask holder"
			call = func(rd io.Reader) error {
				h, err := gopdf.ImageHolderByBytes(img.Data)
				if err != nil {
					return err
				}
				return g.ImageByHolderWithOptions(h, gopdf.ImageOptions{X: 5, Y: 5, Rect: &gopdf.Rect{W: 20, H: 20},
					Mask: &gopdf.MaskOptions{Holder: faultHolder{rd.(*faultReader), fmt.Sprint("mask", k)}, ImageOptions: gopdf.ImageOptions{X: 5, Y: 5, Rect: &gopdf.Rect{W: 20, H: 20}}}})
			}
		}
		fr.n = r.Intn(len(fr.data) + 1)
		if r.Intn(3) == 0 {
			fr.n = len(fr.data) // everything arrives, the failure comes at the end
		}
		fault := r.Intn(4) != 0
		if !fault {
			fr.n = len(fr.data)
			fr.err = io.EOF
		}
		what = fmt.Sprintf("%s from a reader of %d bytes that ends after %d with %v (together with data: %v)", kind, len(fr.data), fr.n, fr.err, fr.with)
		before := g.GetNextObjectID()
		err := call(fr)
		if fault {
			c.Count("faults injected into sources", 1)
			c.Count("faults "+kind, 1)
			if err == nil {
				c.Fail("swallowed-read:"+kind, "%s reports success", what)
			}
			if g.GetNextObjectID() != before {
				c.Fail("left-behind:"+kind, "%s failed and left objects in the document", what)
			}
		} else {
			c.Count("short reads without fault", 1)
			if err != nil {
				c.Fail("short-read:"+kind, "%s fails: %v", what, err)
			}
		}
		c.Distinct(fmt.Sprint(kind, fr.n == len(fr.data), fr.with, fr.err, err))
	}
	dir, err := os.MkdirTemp("", "vmon")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for _, path := range []string{filepath.Join(dir, "none"), dir, "", "/dev/null"} {
		what = fmt.Sprintf("path %q", path)
		bad := map[string]error{
			"AddTTFFont":               g.AddTTFFont("x", path),
			"AddTTFFontWithOption":     g.AddTTFFontWithOption("x", path, gopdf.TtfOption{}),
			"FontContainer.AddTTFFont": new(gopdf.FontContainer).AddTTFFont("x", path),
			"TTFParser.Parse":          new(core.TTFParser).Parse(path),
			"Image":                    g.Image(path, 1, 1, nil),
			"Image with rect":          g.Image(path, 1, 1, &gopdf.Rect{W: 5, H: 5}),
			"ImageObj.SetImagePath": func() error {
				o := new(gopdf.ImageObj)
				e := o.SetImagePath(path)
				if e == nil {
					e = o.Parse()
				}
				return e
			}(),
		}
		for k, e := range bad {
			c.Count("unreadable paths", 1)
			if e == nil {
				c.Fail("swallowed-read:"+k, "%s of %q reports success", k, path)
			}
		}
	}
	out, err := g.GetBytesPdfReturnErr()
	if err != nil {
		c.Fail("output", "the document cannot be completed: %v", err)
		return
	}
	finished(c, out)
}

func init() {
	register(&Check{ID: "C04", Quick: 1000, Deep: 15000, Rule: "random documents written to writers failing at drawn bytes in five manners (and at the first, the last and in the trailer), to full and unwritable files; fonts and images read from sources failing at drawn bytes",
		Need: []string{"faults injected into writers", "faults injected into files", "files full at a byte", "faults injected into sources", "short reads without fault", "unreadable paths"},
		Run: func(c *Case) {
			if c.R.Intn(3) != 0 {
				sinkFaults(c)
			} else {
				sourceFaults(c)
			}
		}})
}
