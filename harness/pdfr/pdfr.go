// Package pdfr is an independent, strict PDF reader used as the oracle's eyes.
// It shares no code with the library under test.
package pdfr

import (
	"bytes"
	"compress/zlib"
	"crypto/md5"
	"crypto/rc4"
	"errors"
	"fmt"
	"io"
	"sort"
	"strconv"
)

type Name string
type Ref struct{ Num, Gen int }
type Dict map[Name]interface{}
type Array []interface{}
type Str []byte
type Num struct {
	V   float64
	Int bool
}
type Op string
type Stream struct {
	D        Dict
	Raw      []byte // as stored
	Num      int
	LenValid bool
}

// Doc is one parsed file.
type Doc struct {
	Data     []byte
	Objs     map[int]interface{}
	Offsets  map[int]int
	Trailer  Dict
	Version  string
	Problems []string // structural defects
	NumXref  int
	key      []byte
	Enc      bool
	Empty    map[int]bool
	Keys     map[int][]string // duplicate keys per object
}

func (d *Doc) prob(f string, a ...interface{}) {
	d.Problems = append(d.Problems, fmt.Sprintf(f, a...))
}

// ---------------------------------------------------------------- lexer

type Lexer struct {
	B       []byte
	P       int
	Content bool // content stream mode: bare words are operators
	Dup     []string
}

var errEOF = errors.New("eof")

func IsSpace(c byte) bool {
	return c == 0 || c == 9 || c == 10 || c == 12 || c == 13 || c == 32
}
func isDelim(c byte) bool {
	switch c {
	case '(', ')', '<', '>', '[', ']', '{', '}', '/', '%':
		return true
	}
	return false
}

func (l *Lexer) Skip() {
	for l.P < len(l.B) {
		c := l.B[l.P]
		if IsSpace(c) {
			l.P++
		} else if c == '%' {
			for l.P < len(l.B) && l.B[l.P] != '\n' && l.B[l.P] != '\r' {
				l.P++
			}
		} else {
			return
		}
	}
}

func hexv(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// Next parses the next object or operator.
func (l *Lexer) Next() (interface{}, error) {
	l.Skip()
	if l.P >= len(l.B) {
		return nil, errEOF
	}
	c := l.B[l.P]
	switch {
	case c == '/':
		l.P++
		var nm []byte
		for l.P < len(l.B) && !IsSpace(l.B[l.P]) && !isDelim(l.B[l.P]) {
			if l.B[l.P] == '#' {
				if l.P+2 >= len(l.B) || hexv(l.B[l.P+1]) < 0 || hexv(l.B[l.P+2]) < 0 {
					return nil, fmt.Errorf("bad #-escape in name at %d", l.P)
				}
				nm = append(nm, byte(hexv(l.B[l.P+1])<<4|hexv(l.B[l.P+2])))
				l.P += 3
				continue
			}
			nm = append(nm, l.B[l.P])
			l.P++
		}
		return Name(nm), nil
	case c == '(':
		return l.litString()
	case c == '<':
		if l.P+1 < len(l.B) && l.B[l.P+1] == '<' {
			return l.dict()
		}
		return l.hexString()
	case c == '[':
		l.P++
		arr := Array{}
		for {
			l.Skip()
			if l.P >= len(l.B) {
				return nil, errors.New("unterminated array")
			}
			if l.B[l.P] == ']' {
				l.P++
				return arr, nil
			}
			o, err := l.Next()
			if err != nil {
				return nil, err
			}
			if op, ok := o.(Op); ok {
				if op == "R" && !l.Content && len(arr) >= 2 {
					a, ok1 := arr[len(arr)-2].(Num)
					b, ok2 := arr[len(arr)-1].(Num)
					if ok1 && ok2 && a.Int && b.Int {
						arr = append(arr[:len(arr)-2], Ref{int(a.V), int(b.V)})
						continue
					}
				}
				return nil, fmt.Errorf("unexpected word %q in array", op)
			}
			arr = append(arr, o)
		}
	case c == '+' || c == '-' || c == '.' || (c >= '0' && c <= '9'):
		s := l.P
		for l.P < len(l.B) && !IsSpace(l.B[l.P]) && !isDelim(l.B[l.P]) {
			l.P++
		}
		t := string(l.B[s:l.P])
		isInt := true
		for i := 0; i < len(t); i++ {
			ch := t[i]
			if ch == '.' {
				isInt = false
			} else if (ch == '+' || ch == '-') && i == 0 {
			} else if ch < '0' || ch > '9' {
				return nil, fmt.Errorf("malformed number %q at %d", t, s)
			}
		}
		v, err := strconv.ParseFloat(t, 64)
		if err != nil {
			return nil, fmt.Errorf("malformed number %q", t)
		}
		return Num{v, isInt}, nil
	case isDelim(c):
		return nil, fmt.Errorf("unexpected delimiter %q at %d", c, l.P)
	}
	s := l.P
	for l.P < len(l.B) && !IsSpace(l.B[l.P]) && !isDelim(l.B[l.P]) {
		l.P++
	}
	w := string(l.B[s:l.P])
	switch w {
	case "true":
		return true, nil
	case "false":
		return false, nil
	case "null":
		return nil, nil
	}
	return Op(w), nil
}

func (l *Lexer) litString() (interface{}, error) {
	l.P++
	depth := 1
	var out Str = Str{}
	for l.P < len(l.B) {
		c := l.B[l.P]
		l.P++
		switch c {
		case '\\':
			if l.P >= len(l.B) {
				return nil, errors.New("unterminated string")
			}
			e := l.B[l.P]
			l.P++
			switch e {
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case '\r':
				if l.P < len(l.B) && l.B[l.P] == '\n' {
					l.P++
				}
			case '\n':
			default:
				if e >= '0' && e <= '7' {
					v := int(e - '0')
					for k := 0; k < 2 && l.P < len(l.B) && l.B[l.P] >= '0' && l.B[l.P] <= '7'; k++ {
						v = v*8 + int(l.B[l.P]-'0')
						l.P++
					}
					out = append(out, byte(v))
				} else {
					out = append(out, e)
				}
			}
		case '\r':
			// an unescaped end-of-line inside a string reads as \n
			if l.P < len(l.B) && l.B[l.P] == '\n' {
				l.P++
			}
			out = append(out, '\n')
		case '(':
			depth++
			out = append(out, c)
		case ')':
			depth--
			if depth == 0 {
				return out, nil
			}
			out = append(out, c)
		default:
			out = append(out, c)
		}
	}
	return nil, errors.New("unterminated string")
}

func (l *Lexer) hexString() (interface{}, error) {
	l.P++
	out := Str{}
	hi := -1
	for l.P < len(l.B) {
		c := l.B[l.P]
		l.P++
		if c == '>' {
			if hi >= 0 {
				out = append(out, byte(hi<<4))
			}
			return out, nil
		}
		if IsSpace(c) {
			continue
		}
		v := hexv(c)
		if v < 0 {
			return nil, fmt.Errorf("bad hex digit %q in string", c)
		}
		if hi < 0 {
			hi = v
		} else {
			out = append(out, byte(hi<<4|v))
			hi = -1
		}
	}
	return nil, errors.New("unterminated hex string")
}

func (l *Lexer) dict() (interface{}, error) {
	l.P += 2
	d := Dict{}
	var stack []interface{}
	flush := func() error {
		if len(stack)%2 != 0 {
			return errors.New("odd dictionary")
		}
		for i := 0; i < len(stack); i += 2 {
			k, ok := stack[i].(Name)
			if !ok {
				return fmt.Errorf("dictionary key %v is not a name", stack[i])
			}
			if _, dup := d[k]; dup {
				l.Dup = append(l.Dup, string(k))
			}
			d[k] = stack[i+1]
		}
		return nil
	}
	for {
		l.Skip()
		if l.P+1 < len(l.B) && l.B[l.P] == '>' && l.B[l.P+1] == '>' {
			l.P += 2
			return d, flush()
		}
		o, err := l.Next()
		if err != nil {
			if err == errEOF {
				err = errors.New("unterminated dictionary")
			}
			return nil, err
		}
		if op, ok := o.(Op); ok {
			if op == "R" && len(stack) >= 2 {
				a, ok1 := stack[len(stack)-2].(Num)
				b, ok2 := stack[len(stack)-1].(Num)
				if ok1 && ok2 && a.Int && b.Int {
					stack = append(stack[:len(stack)-2], Ref{int(a.V), int(b.V)})
					continue
				}
			}
			return nil, fmt.Errorf("unexpected word %q in dictionary", op)
		}
		stack = append(stack, o)
	}
}

// Object parses one complete object (resolving "n g R").
func (l *Lexer) Object() (interface{}, error) {
	o, err := l.Next()
	if err != nil {
		return nil, err
	}
	if n, ok := o.(Num); ok && n.Int {
		save := l.P
		g, err := l.Next()
		if gn, ok := g.(Num); err == nil && ok && gn.Int {
			r, err := l.Next()
			if err == nil && r == Op("R") {
				return Ref{int(n.V), int(gn.V)}, nil
			}
		}
		l.P = save
	}
	return o, nil
}

// ---------------------------------------------------------------- document

func Parse(data []byte) (*Doc, error) {
	d := &Doc{Data: data, Objs: map[int]interface{}{}, Offsets: map[int]int{}, Empty: map[int]bool{}, Keys: map[int][]string{}}
	if !bytes.HasPrefix(data, []byte("%PDF-1.")) {
		return nil, errors.New("no %PDF header")
	}
	if len(data) > 8 {
		d.Version = string(data[5:8])
	}
	t := bytes.TrimRight(data, "\r\n \x00")
	if !bytes.HasSuffix(t, []byte("%%EOF")) {
		return nil, errors.New("no %%EOF at end of file")
	}
	if i := bytes.Count(data, []byte("%%EOF")); i < 1 {
		d.prob("no EOF marker")
	}
	sx := bytes.LastIndex(t, []byte("startxref"))
	if sx < 0 {
		return nil, errors.New("no startxref")
	}
	lx := &Lexer{B: data, P: sx + len("startxref")}
	o, err := lx.Next()
	n, ok := o.(Num)
	if err != nil || !ok || !n.Int {
		return nil, errors.New("bad startxref value")
	}
	xo := int(n.V)
	if xo < 0 || xo >= len(data) || !bytes.HasPrefix(data[xo:], []byte("xref")) {
		return nil, fmt.Errorf("startxref %d does not point at xref", xo)
	}
	p := xo + 4
	for p < len(data) && IsSpace(data[p]) {
		p++
	}
	lx = &Lexer{B: data, P: p}
	type ent struct {
		num, off int
		inuse    bool
	}
	var ents []ent
	for {
		lx.Skip()
		save := lx.P
		o, err := lx.Next()
		if err != nil {
			return nil, fmt.Errorf("xref: %v", err)
		}
		if o == Op("trailer") {
			break
		}
		st, ok := o.(Num)
		if !ok {
			return nil, fmt.Errorf("xref: unexpected %v at %d", o, save)
		}
		o, _ = lx.Next()
		cn, ok := o.(Num)
		if !ok {
			return nil, errors.New("xref: bad subsection header")
		}
		for lx.P < len(data) && (data[lx.P] == ' ' || data[lx.P] == '\r') {
			lx.P++
		}
		if lx.P < len(data) && data[lx.P] == '\n' {
			lx.P++
		}
		for i := 0; i < int(cn.V); i++ {
			if lx.P+20 > len(data) {
				return nil, errors.New("xref: truncated")
			}
			e := data[lx.P : lx.P+20]
			okd := true
			for k := 0; k < 10; k++ {
				okd = okd && e[k] >= '0' && e[k] <= '9'
			}
			for k := 11; k < 16; k++ {
				okd = okd && e[k] >= '0' && e[k] <= '9'
			}
			eol := string(e[18:20])
			if !okd || e[10] != ' ' || e[16] != ' ' || (e[17] != 'n' && e[17] != 'f') || (eol != " \n" && eol != " \r" && eol != "\r\n") {
				return nil, fmt.Errorf("xref: entry %d is malformed: %q", i, e)
			}
			off, _ := strconv.Atoi(string(e[:10]))
			ents = append(ents, ent{int(st.V) + i, off, e[17] == 'n'})
			lx.P += 20
		}
	}
	to, err := lx.Next()
	if err != nil {
		return nil, fmt.Errorf("trailer: %v", err)
	}
	tr, ok := to.(Dict)
	if !ok {
		return nil, errors.New("trailer is not a dictionary")
	}
	d.Trailer = tr
	if len(lx.Dup) > 0 {
		d.prob("trailer has duplicate keys %v", lx.Dup)
	}
	lx.Skip()
	if nx, _ := lx.Next(); nx != Op("startxref") {
		d.prob("trailer is not followed by startxref")
	}
	d.NumXref = len(ents)
	maxn := -1
	seen := map[int]bool{}
	for _, e := range ents {
		if seen[e.num] {
			d.prob("xref lists object %d twice", e.num)
		}
		seen[e.num] = true
		if e.num > maxn {
			maxn = e.num
		}
		if e.num == 0 && e.inuse {
			d.prob("object 0 is in use")
		}
		if e.inuse {
			d.Offsets[e.num] = e.off
		}
	}
	if sz, ok := tr["Size"].(Num); !ok || int(sz.V) != maxn+1 {
		d.prob("trailer Size %v, xref needs %d", tr["Size"], maxn+1)
	}
	nums := make([]int, 0, len(d.Offsets))
	for k := range d.Offsets {
		nums = append(nums, k)
	}
	sort.Ints(nums)
	type span struct{ s, e, n int }
	var spans []span
	for _, k := range nums {
		e, err := d.parseAt(k, d.Offsets[k])
		if err != nil {
			d.prob("object %d: %v", k, err)
			continue
		}
		spans = append(spans, span{d.Offsets[k], e, k})
	}
	sort.Slice(spans, func(i, j int) bool { return spans[i].s < spans[j].s })
	// the body may contain nothing but the objects listed in xref
	pos := 0
	for _, s := range spans {
		if s.s < pos {
			d.prob("object %d overlaps its predecessor", s.n)
			continue
		}
		if !onlyWS(data[pos:s.s], pos == 0) {
			d.prob("unlisted bytes before object %d", s.n)
		}
		pos = s.e
	}
	if xo < pos || !onlyWS(data[pos:xo], false) {
		d.prob("unlisted bytes before xref")
	}
	return d, nil
}

func onlyWS(b []byte, comments bool) bool {
	for i := 0; i < len(b); i++ {
		if comments && b[i] == '%' {
			for i < len(b) && b[i] != '\n' {
				i++
			}
			continue
		}
		if !IsSpace(b[i]) {
			return false
		}
	}
	return true
}

func (d *Doc) parseAt(num, off int) (end int, err error) {
	if off < 0 || off >= len(d.Data) {
		return 0, fmt.Errorf("offset %d out of file", off)
	}
	if d.Data[off] < '0' || d.Data[off] > '9' {
		return 0, fmt.Errorf("offset %d does not point at an object header", off)
	}
	lx := &Lexer{B: d.Data, P: off}
	a, e1 := lx.Next()
	b, e2 := lx.Next()
	c, e3 := lx.Next()
	an, ok := a.(Num)
	bn, ok2 := b.(Num)
	if e1 != nil || e2 != nil || e3 != nil || !ok || !ok2 || c != Op("obj") {
		return 0, fmt.Errorf("offset %d does not point at an object header", off)
	}
	if int(an.V) != num || int(bn.V) != 0 {
		return 0, fmt.Errorf("offset %d points at object %v %v", off, an.V, bn.V)
	}
	lx.Skip()
	save := lx.P
	o, err := lx.Object()
	if err != nil {
		return 0, fmt.Errorf("body: %v", err)
	}
	if o == Op("endobj") {
		d.Empty[num] = true
		d.Objs[num] = nil
		return lx.P, nil
	}
	if op, ok := o.(Op); ok {
		return 0, fmt.Errorf("body is bare word %q at %d", op, save)
	}
	d.Keys[num] = lx.Dup
	if len(lx.Dup) > 0 {
		d.prob("object %d has duplicate keys %v", num, lx.Dup)
	}
	if dict, ok := o.(Dict); ok {
		lx.Skip()
		if bytes.HasPrefix(d.Data[lx.P:], []byte("stream")) {
			p := lx.P + 6
			if p < len(d.Data) && d.Data[p] == '\r' {
				p++
				if p >= len(d.Data) || d.Data[p] != '\n' {
					return 0, errors.New("bare CR after stream keyword")
				}
			}
			if p >= len(d.Data) || d.Data[p] != '\n' {
				return 0, errors.New("no EOL after stream keyword")
			}
			p++
			st := &Stream{D: dict, Num: num}
			ln := -1
			switch v := dict["Length"].(type) {
			case Num:
				ln = int(v.V)
			case Ref:
				// resolve textually
				if off, ok := d.Offsets[v.Num]; ok {
					l2 := &Lexer{B: d.Data, P: off}
					l2.Next()
					l2.Next()
					l2.Next()
					if x, err := l2.Next(); err == nil {
						if xn, ok := x.(Num); ok {
							ln = int(xn.V)
						}
					}
				}
			}
			if ln < 0 || p+ln > len(d.Data) {
				return 0, fmt.Errorf("stream Length %v invalid", dict["Length"])
			}
			st.Raw = d.Data[p : p+ln]
			q := p + ln
			for q < len(d.Data) && (d.Data[q] == '\n' || d.Data[q] == '\r') {
				q++
			}
			if !bytes.HasPrefix(d.Data[q:], []byte("endstream")) {
				return 0, fmt.Errorf("stream Length %d does not end at endstream", ln)
			}
			if q-(p+ln) > 3 {
				d.prob("object %d: stream Length %d is %d bytes short", num, ln, q-p-ln)
			}
			st.LenValid = true
			lx.P = q + len("endstream")
			o = st
		}
	}
	e, err := lx.Next()
	if err != nil || e != Op("endobj") {
		return 0, fmt.Errorf("not terminated by endobj (found %v)", e)
	}
	d.Objs[num] = o
	return lx.P, nil
}

// ---------------------------------------------------------------- access

func (d *Doc) R(o interface{}) interface{} {
	for i := 0; i < 32; i++ {
		r, ok := o.(Ref)
		if !ok {
			return o
		}
		o = d.Objs[r.Num]
	}
	return nil
}
func (d *Doc) Dict(o interface{}) Dict {
	switch v := d.R(o).(type) {
	case Dict:
		return v
	case *Stream:
		return v.D
	}
	return nil
}
func (d *Doc) Arr(o interface{}) Array {
	a, _ := d.R(o).(Array)
	return a
}
func (d *Doc) Int(o interface{}, def int) int {
	if n, ok := d.R(o).(Num); ok {
		return int(n.V)
	}
	return def
}
func (d *Doc) Float(o interface{}) (float64, bool) {
	n, ok := d.R(o).(Num)
	return n.V, ok
}
func (d *Doc) Floats(o interface{}) []float64 {
	a := d.Arr(o)
	var out []float64
	for _, v := range a {
		f, ok := d.Float(v)
		if !ok {
			return nil
		}
		out = append(out, f)
	}
	return out
}
func (d *Doc) Name(o interface{}) Name {
	n, _ := d.R(o).(Name)
	return n
}

// Walk calls f for every value reachable inside o (not through refs).
func Walk(o interface{}, f func(interface{})) {
	f(o)
	switch v := o.(type) {
	case Dict:
		for _, x := range v {
			Walk(x, f)
		}
	case Array:
		for _, x := range v {
			Walk(x, f)
		}
	case *Stream:
		Walk(v.D, f)
	}
}

// ---------------------------------------------------------------- encryption (independent implementation, V1 R2)

var pad = []byte{
	0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41, 0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
	0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80, 0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A}

func pad32(p []byte) []byte {
	b := append(append([]byte{}, p...), pad...)
	return b[:32]
}

func xor(key, b []byte) []byte {
	c, err := rc4.NewCipher(key)
	if err != nil {
		panic(err)
	}
	o := make([]byte, len(b))
	c.XORKeyStream(o, b)
	return o
}

// EncDict describes the encryption dictionary.
type EncDict struct {
	O, U []byte
	P    int32
	PRaw float64
	V, R int
	Filt Name
}

func (d *Doc) EncDict() (*EncDict, error) {
	e := d.Dict(d.Trailer["Encrypt"])
	if e == nil {
		return nil, errors.New("no Encrypt dictionary")
	}
	o, ok1 := d.R(e["O"]).(Str)
	u, ok2 := d.R(e["U"]).(Str)
	p, ok3 := d.R(e["P"]).(Num)
	if !ok1 || !ok2 || !ok3 {
		return nil, errors.New("Encrypt lacks O, U or P")
	}
	return &EncDict{O: o, U: u, P: int32(int64(p.V)), PRaw: p.V, V: d.Int(e["V"], 0), R: d.Int(e["R"], 0), Filt: d.Name(e["Filter"])}, nil
}

func (d *Doc) fileID() []byte {
	a := d.Arr(d.Trailer["ID"])
	if len(a) > 0 {
		if s, ok := a[0].(Str); ok {
			return s
		}
	}
	return nil
}

func (d *Doc) userKey(user []byte, e *EncDict) []byte {
	m := md5.New()
	m.Write(pad32(user))
	m.Write(e.O)
	p := uint32(e.P)
	m.Write([]byte{byte(p), byte(p >> 8), byte(p >> 16), byte(p >> 24)})
	m.Write(d.fileID())
	return m.Sum(nil)[:5]
}

// AuthUser tries a user password. On success the document decrypts from then on.
func (d *Doc) AuthUser(user []byte) (bool, error) {
	e, err := d.EncDict()
	if err != nil {
		return false, err
	}
	if e.V != 1 || e.R != 2 || e.Filt != "Standard" {
		return false, fmt.Errorf("unexpected security handler %v V%d R%d", e.Filt, e.V, e.R)
	}
	if len(e.O) != 32 || len(e.U) != 32 {
		return false, fmt.Errorf("O/U length %d/%d, want 32", len(e.O), len(e.U))
	}
	k := d.userKey(user, e)
	if !bytes.Equal(xor(k, pad), e.U) {
		return false, nil
	}
	d.key = k
	d.Enc = true
	return true, nil
}

// AuthOwner recovers the padded user password from the owner password and tries it.
func (d *Doc) AuthOwner(owner []byte) (bool, []byte, error) {
	e, err := d.EncDict()
	if err != nil {
		return false, nil, err
	}
	k := md5.Sum(pad32(owner))
	u := xor(k[:5], e.O)
	ok, err := d.AuthUser(u)
	return ok, u, err
}

func (d *Doc) objKey(num int) []byte {
	m := md5.Sum(append(append([]byte{}, d.key...), byte(num), byte(num>>8), byte(num>>16), 0, 0))
	n := len(d.key) + 5
	if n > 16 {
		n = 16
	}
	return m[:n]
}

// DecString decrypts a string found in indirect object num.
func (d *Doc) DecString(num int, s Str) []byte {
	if !d.Enc {
		return s
	}
	return xor(d.objKey(num), s)
}

// Bytes returns the (decrypted, still filtered) stream bytes.
func (d *Doc) Bytes(s *Stream) []byte {
	if !d.Enc {
		return s.Raw
	}
	return xor(d.objKey(s.Num), s.Raw)
}

// Decode returns the decrypted, Flate-decoded stream, undoing PNG predictors.
func (d *Doc) Decode(s *Stream) ([]byte, error) {
	b := d.Bytes(s)
	f := d.R(s.D["Filter"])
	if f == nil {
		return b, nil
	}
	nm, ok := f.(Name)
	if a, isA := f.(Array); isA && len(a) == 1 {
		nm, ok = d.R(a[0]).(Name)
	}
	if !ok {
		return nil, fmt.Errorf("unsupported filter %v", f)
	}
	if nm != "FlateDecode" {
		return nil, fmt.Errorf("unsupported filter %v", nm)
	}
	rd := bytes.NewReader(b)
	z, err := zlib.NewReader(rd)
	if err != nil {
		return nil, fmt.Errorf("flate: %v", err)
	}
	out, err := io.ReadAll(z)
	if err != nil {
		return nil, fmt.Errorf("flate: %v", err)
	}
	for _, c := range b[len(b)-rd.Len():] {
		if !IsSpace(c) {
			return nil, fmt.Errorf("flate: %d stray bytes after data", rd.Len())
		}
	}
	if dp := d.Dict(s.D["DecodeParms"]); dp != nil {
		if pr := d.Int(dp["Predictor"], 1); pr >= 10 {
			return unpredict(out, d.Int(dp["Colors"], 1), d.Int(dp["BitsPerComponent"], 8), d.Int(dp["Columns"], 1))
		} else if pr != 1 {
			return nil, fmt.Errorf("predictor %d", pr)
		}
	}
	return out, nil
}

func unpredict(b []byte, colors, bpc, cols int) ([]byte, error) {
	bpp := (colors*bpc + 7) / 8
	row := (colors*bpc*cols + 7) / 8
	if row == 0 {
		return nil, errors.New("zero row")
	}
	if len(b)%(row+1) != 0 {
		return nil, fmt.Errorf("predicted data length %d is no multiple of row %d", len(b), row+1)
	}
	prev := make([]byte, row)
	var out []byte
	for i := 0; i < len(b); i += row + 1 {
		ft := b[i]
		cur := append([]byte{}, b[i+1:i+1+row]...)
		for x := range cur {
			var l, u, ul int
			if x >= bpp {
				l = int(cur[x-bpp])
				ul = int(prev[x-bpp])
			}
			u = int(prev[x])
			switch ft {
			case 0:
			case 1:
				cur[x] += byte(l)
			case 2:
				cur[x] += byte(u)
			case 3:
				cur[x] += byte((l + u) / 2)
			case 4:
				p := l + u - ul
				pa, pb, pc := abs(p-l), abs(p-u), abs(p-ul)
				pr := ul
				if pa <= pb && pa <= pc {
					pr = l
				} else if pb <= pc {
					pr = u
				}
				cur[x] += byte(pr)
			default:
				return nil, fmt.Errorf("bad PNG filter %d", ft)
			}
		}
		out = append(out, cur...)
		prev = cur
	}
	return out, nil
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

// ---------------------------------------------------------------- pages

type Page struct {
	Num      int
	D        Dict
	MediaBox []float64
	Res      Dict
	Contents []*Stream
}

// Pages walks the page tree in order.
func (d *Doc) Pages() ([]*Page, error) {
	root := d.Dict(d.Trailer["Root"])
	if root == nil || d.Name(root["Type"]) != "Catalog" {
		return nil, errors.New("Root is not a Catalog")
	}
	var out []*Page
	seen := map[int]bool{}
	var walk func(ref interface{}, parent *Ref, mb []float64, res interface{}) (int, error)
	walk = func(ref interface{}, parent *Ref, mb []float64, res interface{}) (int, error) {
		r, ok := ref.(Ref)
		if !ok {
			return 0, errors.New("page tree node is not a reference")
		}
		if seen[r.Num] {
			return 0, fmt.Errorf("page tree visits object %d twice", r.Num)
		}
		seen[r.Num] = true
		n, ok := d.Objs[r.Num].(Dict)
		if !ok {
			return 0, fmt.Errorf("page tree node %d is not a dictionary", r.Num)
		}
		if parent != nil {
			if p, ok := n["Parent"].(Ref); !ok || p != *parent {
				return 0, fmt.Errorf("node %d has Parent %v, want %v", r.Num, n["Parent"], *parent)
			}
		}
		if v := d.Floats(n["MediaBox"]); v != nil {
			mb = v
		}
		if n["Resources"] != nil {
			res = n["Resources"]
		}
		switch d.Name(n["Type"]) {
		case "Pages":
			c := 0
			for _, k := range d.Arr(n["Kids"]) {
				x, err := walk(k, &r, mb, res)
				if err != nil {
					return 0, err
				}
				c += x
			}
			if d.Int(n["Count"], -1) != c {
				return 0, fmt.Errorf("Pages %d has Count %v but %d leaves", r.Num, n["Count"], c)
			}
			return c, nil
		case "Page":
			p := &Page{Num: r.Num, D: n, MediaBox: mb, Res: d.Dict(res)}
			switch v := n["Contents"].(type) {
			case nil:
			case Ref:
				switch c := d.R(v).(type) {
				case *Stream:
					p.Contents = []*Stream{c}
				case Array:
					for _, x := range c {
						s, ok := d.R(x).(*Stream)
						if !ok {
							return 0, fmt.Errorf("page %d: Contents element is not a stream", r.Num)
						}
						p.Contents = append(p.Contents, s)
					}
				default:
					return 0, fmt.Errorf("page %d: Contents is not a stream", r.Num)
				}
			case Array:
				for _, x := range v {
					s, ok := d.R(x).(*Stream)
					if !ok {
						return 0, fmt.Errorf("page %d: Contents element is not a stream", r.Num)
					}
					p.Contents = append(p.Contents, s)
				}
			default:
				return 0, fmt.Errorf("page %d: Contents is %T", r.Num, v)
			}
			out = append(out, p)
			return 1, nil
		}
		return 0, fmt.Errorf("page tree node %d has Type %v", r.Num, n["Type"])
	}
	_, err := walk(root["Pages"], nil, nil, nil)
	return out, err
}

// PageContent concatenates the decoded content streams.
func (d *Doc) PageContent(p *Page) ([]byte, error) {
	var b []byte
	for _, s := range p.Contents {
		c, err := d.Decode(s)
		if err != nil {
			return nil, fmt.Errorf("content %d: %v", s.Num, err)
		}
		b = append(b, c...)
		b = append(b, '\n')
	}
	return b, nil
}
