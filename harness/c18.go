package main

import (
	"bytes"
	"fmt"

	"vmon/pdfr"
)

// C18: protection.

func init() {
	register(&Check{ID: "C18", Quick: 2000, Deep: 60000, Rule: "one random history per case, written without protection and with drawn passwords and permissions; the protected file is opened by the standard algorithms with both passwords and with wrong ones, decrypted completely and compared with the plain twin",
		Need: []string{"opened by the user password", "opened by the owner password", "wrong passwords refused", "permissions", "lines compared", "streams", "strings", "imported pages", "mid-document outputs", "long passwords", "empty user password", "empty owner password", "titles", "addresses", "owner passwords chosen", "more than 65535 objects", "more than 255 objects"},
		Run:  runC18})
}

var pad18 = []byte{0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41, 0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08, 0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80, 0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A}

func padded(p string) string { return string(append([]byte(p), pad18...)[:32]) }

func runC18(c *Case) {
	r := c.R
	p := Profile{Big: 200, W: mergeW(wAll, wOut), Steps: 3 + r.Intn(50), Images: 1 + r.Intn(3), Header: true, Sizes: true, Missing: r.Intn(4) == 0, Bulk: 12}
	p.W["outline"], p.W["outlinepos"], p.W["extlink"], p.W["info"] = 3, 3, 5, 2
	if r.Intn(4) == 0 {
		p.PDFs = 1 + r.Intn(2)
	}
	g := newGen(r, p)
	sc := g.build()
	if r.Intn(3) == 0 {
		eachOp(sc.Ops, func(o *Op) {
			if o.K == "outline" || o.K == "outlinepos" {
				o.S = []string{randTitle(r)}
			}
			if o.K == "extlink" {
				o.S = []string{randURL(r)}
			}
		})
	}
	if c.Index == 3 || r.Intn(3000) == 0 { // object numbers of three bytes
		links := make([]Op, 65600)
		for i := range links {
			links[i] = Op{K: "extlink", S: []string{fmt.Sprintf("http://example.com/%d", i)}, F: []float64{1, 2, 3, 4}}
		}
		at := 0
		for sc.Ops[at].K != "addpage" {
			at++
		}
		ops := append([]Op{}, sc.Ops[:at+1]...)
		sc.Ops = append(append(ops, links...), sc.Ops[at+1:]...)
	}
	pass := func() string {
		switch r.Intn(6) {
		case 0:
			return "a long password that is longer than thirty-two bytes"
		case 1:
			return "0123456789012345678901234567890123456789"[:30+r.Intn(5)]
		case 2:
			return string(pad18[:r.Intn(6)]) + "x"
		case 3:
			return []string{"pass\x00", "\x00pass", "pass ", " pass", "Pass", "pass\n", "\x00"}[r.Intn(7)]
		}
		b := make([]byte, 1+r.Intn(20))
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
		return string(b)
	}
	s2 := *sc
	s2.Cfg.Protect = true
	s2.Cfg.Perm = 4 * r.Intn(16)
	s2.Cfg.User, s2.Cfg.Owner = pass(), pass()
	if r.Intn(4) == 0 {
		s2.Cfg.User = ""
	}
	if r.Intn(8) == 0 {
		s2.Cfg.Owner = ""
	}
	if r.Intn(8) == 0 {
		s2.Cfg.Owner = s2.Cfg.User
	}
	unit := randUnit(r)
	c.trace = func() string { return fmt.Sprintf("unit %+v\n%s", unit, &s2) }
	v1, plain := runScript(sc, unit, nil)
	v2, prot := runScript(&s2, unit, nil)
	type pair struct{ a, b []byte }
	pairs := []pair{{plain, prot}}
	for i := range v1.Recs {
		if i >= len(v2.Recs) {
			c.Fail("calls", "%d calls without protection, %d with it", len(v1.Recs), len(v2.Recs))
			return
		}
		a, b := v1.Recs[i], v2.Recs[i]
		if a.K == "out" && a.Err == "" && b.Err == "" {
			c.Count("mid-document outputs", 1)
			pairs = append(pairs, pair{a.Out, b.Out})
		}
		a.Out, b.Out = nil, nil
		if x, y := recLines([]Rec{a}), recLines([]Rec{b}); len(x) > 0 && x[0] != y[0] {
			c.Fail("result:"+a.K, "without protection: %s; with: %s", x[0], y[0])
			return
		}
	}
	for i, q := range pairs {
		if i > 0 && r.Intn(2) == 0 {
			continue
		}
		c18pair(c, &s2, q.a, q.b, len(sc.PDFs) > 0)
		if c.Failed() {
			return
		}
	}
	if s2.Cfg.Owner == "" {
		// no password opens the file as its owner, so the one chosen for it is not always the same
		seen := map[string]bool{}
		for i := 0; i < 4; i++ {
			_, b := runScript(&Script{Cfg: s2.Cfg, Ops: []Op{{K: "addpage"}}}, unit, nil)
			d := parseOut(c, b)
			if d == nil {
				return
			}
			e, err := d.EncDict()
			if err != nil {
				c.Fail("encrypt", "%v", err)
				return
			}
			seen[string(e.O)] = true
		}
		c.Count("owner passwords chosen", len(seen))
		if len(seen) == 1 {
			c.Fail("known-owner-password", "four documents protected without an owner password have the same one")
			return
		}
	}
	if bytes.Contains(plain, []byte("\n65600 0 obj")) {
		c.Count("more than 65535 objects", 1)
	}
	if bytes.Contains(plain, []byte("\n256 0 obj")) {
		c.Count("more than 255 objects", 1)
	}
	c.Distinct(fmt.Sprintf("%x %x %d %d", s2.Cfg.User, s2.Cfg.Owner, s2.Cfg.Perm, len(plain)))
}

func c18pair(c *Case, sc *Script, a, b []byte, imported bool) {
	r := c.R
	da := parseOut(c, a)
	if da == nil {
		return
	}
	if da.Trailer["Encrypt"] != nil {
		c.Fail("plain-encrypted", "the document without protection has an Encrypt entry")
		return
	}
	la, err := canon(da)
	if err != nil {
		c.Fail("undecodable", "plain: %v", err)
		return
	}
	open := func() *pdfr.Doc { return parseOut(c, b) }
	d := open()
	if d == nil {
		return
	}
	e, err := d.EncDict()
	if err != nil {
		c.Fail("encrypt", "%v", err)
		return
	}
	c.Count("permissions", 1)
	if e.PRaw != float64(int32(-64+sc.Cfg.Perm)) {
		c.Fail("permissions", "permissions %d requested, P is %v", sc.Cfg.Perm, e.PRaw)
	}
	user, owner := sc.Cfg.User, sc.Cfg.Owner
	if len(user) > 32 || len(owner) > 32 {
		c.Count("long passwords", 1)
	}
	// wrong passwords
	wrong := []string{"", "x" + user, user + "x", owner, owner + "x", "user", "\x00" + user, padded(user)[1:]}
	if len(user) > 0 {
		wrong = append(wrong, user[:len(user)-1], string(user[0]^1)+user[1:])
	}
	rb := make([]byte, 1+r.Intn(32))
	r.Read(rb)
	wrong = append(wrong, string(rb))
	for _, w := range wrong {
		if padded(w) != padded(user) {
			if ok, _ := d.AuthUser([]byte(w)); ok {
				c.Fail("wrong-user-password", "the user password is %q, %q opens the file", user, w)
				return
			}
			c.Count("wrong passwords refused", 1)
		}
	}
	for _, w := range append(wrong, user) {
		if owner != "" && padded(w) != padded(owner) || owner == "" && padded(w) != padded(user) {
			d2 := open()
			if ok, _, _ := d2.AuthOwner([]byte(w)); ok {
				c.Fail("wrong-owner-password", "the owner password is %q, %q opens the file", owner, w)
				return
			}
			c.Count("wrong passwords refused", 1)
		}
	}
	if user == "" {
		c.Count("empty user password", 1)
	}
	ways := []string{"user"}
	if owner != "" {
		ways = append(ways, "owner")
	} else {
		c.Count("empty owner password", 1)
	}
	for _, way := range ways {
		d := open()
		if way == "user" {
			if ok, err := d.AuthUser([]byte(user)); !ok {
				c.Fail("user-password", "the user password %q does not open the file: %v", user, err)
				return
			}
		} else {
			ok, u, err := d.AuthOwner([]byte(owner))
			if !ok {
				c.Fail("owner-password", "the owner password %q does not open the file: %v", owner, err)
				return
			}
			if string(u) != padded(user) {
				c.Fail("owner-password", "the owner password gives the user password %q, it is %q", u, user)
				return
			}
		}
		c.Count("opened by the "+way+" password", 1)
		lb, err := canon(d)
		if err != nil {
			c.Fail("undecodable", "opened by the %s password: %v", way, err)
			return
		}
		if df := diffLines(la, lb); df != "" {
			c.Fail("content:"+diffKind(la, lb), "decrypted, the document differs from the plain one: %s", df)
			return
		}
		c.Count("lines compared", len(la))
	}
	if imported {
		c.Count("imported pages", 1)
	}
	// what is stored must not be the plain content
	for n, o := range d.Objs {
		if s, ok := o.(*pdfr.Stream); ok && len(s.Raw) > 16 {
			c.Count("streams", 1)
			plain := d2raw(d, s)
			if plain != nil && bytes.Equal(plain, s.Raw) {
				c.Fail("stream-not-encrypted", "stream %d is stored in plain", n)
			}
		}
		pdfr.Walk(o, func(x interface{}) {
			if _, ok := x.(pdfr.Str); ok {
				c.Count("strings", 1)
			}
		})
		if dd, ok := o.(pdfr.Dict); ok {
			if dd["Title"] != nil {
				c.Count("titles", 1)
			}
			if dd["A"] != nil {
				c.Count("addresses", 1)
			}
		}
	}
}

// d2raw is the decrypted form of a stream.
func d2raw(d *pdfr.Doc, s *pdfr.Stream) []byte {
	if !d.Enc {
		return nil
	}
	return d.Bytes(s)
}
