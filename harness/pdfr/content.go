package pdfr

import (
	"fmt"
	"math"
	"sort"
)

// Mat is a PDF transformation matrix [a b c d e f].
type Mat [6]float64

var Ident = Mat{1, 0, 0, 1, 0, 0}

// Mul returns m applied first, then n (m x n in PDF row-vector notation).
func (m Mat) Mul(n Mat) Mat {
	return Mat{
		m[0]*n[0] + m[1]*n[2], m[0]*n[1] + m[1]*n[3],
		m[2]*n[0] + m[3]*n[2], m[2]*n[1] + m[3]*n[3],
		m[4]*n[0] + m[5]*n[2] + n[4], m[4]*n[1] + m[5]*n[3] + n[5],
	}
}
func (m Mat) Apply(x, y float64) (float64, float64) {
	return m[0]*x + m[2]*y + m[4], m[1]*x + m[3]*y + m[5]
}

type Pt struct{ X, Y float64 }

// Seg is one path segment in device space: "M", "L", "C" (3 points), "Z".
type Seg struct {
	K byte
	P [3]Pt
}
type Path []Seg

type Color struct {
	Space string // "Gray","RGB","CMYK", or colour-space resource "CS:<objnum>"
	V     [4]float64
}

// GS is the graphics state visible to a paint event.
type GS struct {
	CTM          Mat
	Fill, Stroke Color
	LW           float64
	Dash         []float64
	DashPh       float64
	FA, SA       float64
	BM           string
	SMask        int // object number of the soft mask dictionary, 0 = none
	Clips        []Path
	Cap, Join    int
	// text
	Font     Name
	FontObj  int
	FontSize float64
	Tc, Tw   float64
	Tz, TL   float64
	Rise     float64
	Mode     int
}

// Glyph is one shown glyph.
type Glyph struct {
	GID     int
	X       float64 // offset from run origin in unscaled text space (points along the baseline)
	AdjPre  float64 // TJ number(s) applied just before this glyph (sum)
	Advance float64
}

// Event is one paint operation.
type Event struct {
	Kind    string // "path","text","image","form"
	GS      GS
	Path    Path
	Paint   string // "S","f","f*","B","B*" with close folded into Path
	Glyphs  []Glyph
	TextMat Mat // text rendering origin in device space
	Width   float64
	TailAdj float64 // TJ numbers after the last glyph
	XObj    int
	Name    Name
	Depth   int // q nesting when painted
	Pos     int // byte position in the stream
	InForm  int // object number of enclosing form, 0 = page
}

// Interp is the result of running one content stream.
type Interp struct {
	Events   []Event
	Problems []string
	Ops      map[string]int
	Final    GS
	MaxQ     int
	EndQ     int // unbalanced q at the end (before automatic pop)
	Underrun int // Q without q
}

func (it *Interp) prob(f string, a ...interface{}) {
	if len(it.Problems) < 40 {
		it.Problems = append(it.Problems, fmt.Sprintf(f, a...))
	}
}

var argc = map[Op]int{
	"q": 0, "Q": 0, "cm": 6, "w": 1, "J": 1, "j": 1, "M": 1, "d": 2, "ri": 1, "i": 1, "gs": 1,
	"m": 2, "l": 2, "c": 6, "v": 4, "y": 4, "h": 0, "re": 4,
	"S": 0, "s": 0, "f": 0, "F": 0, "f*": 0, "B": 0, "B*": 0, "b": 0, "b*": 0, "n": 0,
	"W": 0, "W*": 0, "BT": 0, "ET": 0,
	"Tc": 1, "Tw": 1, "Tz": 1, "TL": 1, "Tf": 2, "Tr": 1, "Ts": 1, "Td": 2, "TD": 2, "Tm": 6, "T*": 0,
	"Tj": 1, "TJ": 1, "'": 1, "\"": 3,
	"CS": 1, "cs": 1, "G": 1, "g": 1, "RG": 3, "rg": 3, "K": 4, "k": 4, "Do": 1,
	"BMC": 1, "BDC": 2, "EMC": 0, "MP": 1, "DP": 2, "sh": 1,
}

// Widths of a Type0 font: default and per-CID.
type FontInfo struct {
	Obj     int
	W       map[int]float64
	DW      float64
	Base    string
	Problem string
	ToUni   map[int][]rune
	CMapErr string
}

// InitialGS is the state at the beginning of a page.
func InitialGS() GS {
	return GS{CTM: Ident, Fill: Color{Space: "Gray"}, Stroke: Color{Space: "Gray"}, LW: 1, FA: 1, SA: 1, BM: "Normal", Tz: 100}
}

// Run interprets content with the given resources.
func (d *Doc) Run(content []byte, res Dict, gs GS, fonts map[int]*FontInfo, recurse bool) *Interp {
	it := &Interp{Ops: map[string]int{}}
	d.run(it, content, res, gs, fonts, recurse, 0, 0)
	return it
}

func (d *Doc) run(it *Interp, content []byte, res Dict, gs GS, fonts map[int]*FontInfo, recurse bool, inForm int, depthForm int) {
	lx := &Lexer{B: content, Content: true}
	var st []interface{}
	var stack []GS
	var path Path
	var cur, start Pt
	havePt := false
	inText := false
	var tm, tlm Mat
	pendingClip := ""
	var num []float64
	dp := func(x, y float64) Pt {
		a, b := gs.CTM.Apply(x, y)
		return Pt{a, b}
	}
	resOf := func(cat Name, nm Name) (interface{}, int, bool) {
		dd := d.Dict(res[cat])
		if dd == nil {
			return nil, 0, false
		}
		o, ok := dd[nm]
		if !ok {
			return nil, 0, false
		}
		n := 0
		if r, isr := o.(Ref); isr {
			n = r.Num
			if _, exists := d.Objs[r.Num]; !exists {
				return nil, n, false
			}
		}
		v := d.R(o)
		return v, n, v != nil
	}
	endPath := func(paint string, close bool) {
		if close && len(path) > 0 {
			path = append(path, Seg{K: 'Z'})
		}
		if len(path) == 0 && paint != "n" {
			it.prob("paint operator with empty path at %d", lx.P)
		}
		if paint != "n" {
			p := append(Path{}, path...)
			it.Events = append(it.Events, Event{Kind: "path", GS: gs.clone(), Path: p, Paint: paint, Depth: len(stack), Pos: lx.P, InForm: inForm})
		}
		if pendingClip != "" {
			gs.Clips = append(append([]Path{}, gs.Clips...), append(Path{}, path...))
			pendingClip = ""
		}
		path = nil
		havePt = false
	}
	show := func(arr Array) {
		fi := fonts[gs.FontObj]
		ev := Event{Kind: "text", GS: gs.clone(), Depth: len(stack), Pos: lx.P, InForm: inForm}
		trm := tm.Mul(gs.CTM)
		ev.TextMat = trm
		x := 0.0
		adj := 0.0
		for _, e := range arr {
			switch v := e.(type) {
			case Num:
				x -= v.V / 1000 * gs.FontSize
				adj += v.V
			case Str:
				if fi == nil {
					// a simple font (imported pages only): no glyph codes to read
					continue
				}
				if len(v)%2 != 0 {
					it.prob("odd-length glyph string %q", v)
				}
				for i := 0; i+1 < len(v); i += 2 {
					g := int(v[i])<<8 | int(v[i+1])
					w := 1000.0
					if fi != nil {
						w = fi.DW
						if ww, ok := fi.W[g]; ok {
							w = ww
						}
					}
					a := w/1000*gs.FontSize + gs.Tc
					ev.Glyphs = append(ev.Glyphs, Glyph{GID: g, X: x, AdjPre: adj, Advance: a})
					adj = 0
					x += a
				}
			default:
				it.prob("TJ element %T", e)
			}
		}
		ev.TailAdj = adj
		ev.Width = x
		it.Events = append(it.Events, ev)
		tm = Mat{1, 0, 0, 1, x, 0}.Mul(tm)
	}
	for {
		o, err := lx.Next()
		if err == errEOF {
			break
		}
		if err != nil {
			it.prob("content syntax: %v", err)
			return
		}
		op, ok := o.(Op)
		if !ok {
			st = append(st, o)
			continue
		}
		it.Ops[string(op)]++
		if n, known := argc[op]; known {
			if len(st) != n {
				it.prob("operator %s has %d operands, wants %d (at %d)", op, len(st), n, lx.P)
				st = st[:0]
				continue
			}
		} else if op != "SCN" && op != "scn" && op != "SC" && op != "sc" {
			it.prob("unknown operator %q at %d", op, lx.P)
			st = st[:0]
			continue
		}
		num = num[:0]
		bad := false
		for _, a := range st {
			if v, ok := a.(Num); ok {
				num = append(num, v.V)
			}
		}
		switch op {
		case "cm", "w", "J", "j", "M", "m", "l", "c", "v", "y", "re", "Tc", "Tw", "Tz", "TL", "Tr", "Ts", "Td", "TD", "Tm", "G", "g", "RG", "rg", "K", "k":
			if len(num) != len(st) {
				it.prob("operator %s has non-numeric operand", op)
				bad = true
			}
		}
		if bad {
			st = st[:0]
			continue
		}
		isText := map[Op]bool{"Td": true, "TD": true, "Tm": true, "T*": true, "Tj": true, "TJ": true, "'": true, "\"": true}
		if isText[op] && !inText {
			it.prob("text operator %s outside BT/ET", op)
		}
		switch op {
		case "q", "Q", "cm", "m", "re", "Do":
			if inText {
				it.prob("operator %s inside BT/ET", op)
			}
		}
		switch op {
		case "q":
			stack = append(stack, gs.clone())
			if len(stack) > it.MaxQ {
				it.MaxQ = len(stack)
			}
		case "Q":
			if len(stack) == 0 {
				it.Underrun++
			} else {
				gs = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
			}
		case "cm":
			gs.CTM = Mat{num[0], num[1], num[2], num[3], num[4], num[5]}.Mul(gs.CTM)
		case "w":
			gs.LW = num[0]
		case "J":
			gs.Cap = int(num[0])
		case "j":
			gs.Join = int(num[0])
		case "d":
			a, ok1 := st[0].(Array)
			ph, ok2 := st[1].(Num)
			if !ok1 || !ok2 {
				it.prob("operator d has bad operands")
				break
			}
			gs.Dash = nil
			for _, v := range a {
				if n, ok := v.(Num); ok {
					gs.Dash = append(gs.Dash, n.V)
				} else {
					it.prob("dash array element %T", v)
				}
			}
			gs.DashPh = ph.V
		case "gs":
			nm, _ := st[0].(Name)
			v, n, ok := resOf("ExtGState", nm)
			dd, isd := v.(Dict)
			if !ok || !isd {
				it.prob("gs %s: no such ExtGState resource", nm)
				break
			}
			_ = n
			if f, ok := d.Float(dd["ca"]); ok {
				gs.FA = f
			}
			if f, ok := d.Float(dd["CA"]); ok {
				gs.SA = f
			}
			if b := d.Name(dd["BM"]); b != "" {
				gs.BM = string(b)
			}
			switch s := dd["SMask"].(type) {
			case Name:
				gs.SMask = 0
			case Ref:
				gs.SMask = s.Num
			case Dict:
				gs.SMask = -1
			}
		case "m":
			cur = Pt{num[0], num[1]}
			start = cur
			havePt = true
			path = append(path, Seg{K: 'M', P: [3]Pt{dp(cur.X, cur.Y)}})
		case "l":
			if !havePt {
				it.prob("l without current point")
			}
			cur = Pt{num[0], num[1]}
			path = append(path, Seg{K: 'L', P: [3]Pt{dp(cur.X, cur.Y)}})
		case "c":
			if !havePt {
				it.prob("c without current point")
			}
			path = append(path, Seg{K: 'C', P: [3]Pt{dp(num[0], num[1]), dp(num[2], num[3]), dp(num[4], num[5])}})
			cur = Pt{num[4], num[5]}
		case "v":
			path = append(path, Seg{K: 'C', P: [3]Pt{dp(cur.X, cur.Y), dp(num[0], num[1]), dp(num[2], num[3])}})
			cur = Pt{num[2], num[3]}
		case "y":
			path = append(path, Seg{K: 'C', P: [3]Pt{dp(num[0], num[1]), dp(num[2], num[3]), dp(num[2], num[3])}})
			cur = Pt{num[2], num[3]}
		case "h":
			path = append(path, Seg{K: 'Z'})
			cur = start
		case "re":
			x, y, w, h := num[0], num[1], num[2], num[3]
			path = append(path, Seg{K: 'M', P: [3]Pt{dp(x, y)}}, Seg{K: 'L', P: [3]Pt{dp(x+w, y)}}, Seg{K: 'L', P: [3]Pt{dp(x+w, y+h)}}, Seg{K: 'L', P: [3]Pt{dp(x, y+h)}}, Seg{K: 'Z'})
			cur = Pt{x, y}
			start = cur
			havePt = true
		case "S":
			endPath("S", false)
		case "s":
			endPath("S", true)
		case "f", "F":
			endPath("f", false)
		case "f*":
			endPath("f*", false)
		case "B":
			endPath("B", false)
		case "B*":
			endPath("B*", false)
		case "b":
			endPath("B", true)
		case "b*":
			endPath("B*", true)
		case "n":
			endPath("n", false)
		case "W":
			pendingClip = "W"
		case "W*":
			pendingClip = "W*"
		case "BT":
			if inText {
				it.prob("nested BT")
			}
			inText = true
			tm, tlm = Ident, Ident
		case "ET":
			if !inText {
				it.prob("ET without BT")
			}
			inText = false
		case "Tc":
			gs.Tc = num[0]
		case "Tw":
			gs.Tw = num[0]
		case "Tz":
			gs.Tz = num[0]
		case "TL":
			gs.TL = num[0]
		case "Ts":
			gs.Rise = num[0]
		case "Tr":
			gs.Mode = int(num[0])
		case "Tf":
			nm, ok1 := st[0].(Name)
			sz, ok2 := st[1].(Num)
			if !ok1 || !ok2 {
				it.prob("bad Tf")
				break
			}
			_, n, ok := resOf("Font", nm)
			if !ok {
				it.prob("Tf %s: no such Font resource", nm)
			}
			gs.Font, gs.FontObj, gs.FontSize = nm, n, sz.V
		case "Td":
			tlm = Mat{1, 0, 0, 1, num[0], num[1]}.Mul(tlm)
			tm = tlm
		case "TD":
			gs.TL = -num[1]
			tlm = Mat{1, 0, 0, 1, num[0], num[1]}.Mul(tlm)
			tm = tlm
		case "Tm":
			tm = Mat{num[0], num[1], num[2], num[3], num[4], num[5]}
			tlm = tm
		case "T*":
			tlm = Mat{1, 0, 0, 1, 0, -gs.TL}.Mul(tlm)
			tm = tlm
		case "Tj":
			show(Array{st[0]})
		case "TJ":
			a, ok := st[0].(Array)
			if !ok {
				it.prob("TJ operand is %T", st[0])
				break
			}
			show(a)
		case "G":
			gs.Stroke = Color{"Gray", [4]float64{num[0]}}
		case "g":
			gs.Fill = Color{"Gray", [4]float64{num[0]}}
		case "RG":
			gs.Stroke = Color{"RGB", [4]float64{num[0], num[1], num[2]}}
		case "rg":
			gs.Fill = Color{"RGB", [4]float64{num[0], num[1], num[2]}}
		case "K":
			gs.Stroke = Color{"CMYK", [4]float64{num[0], num[1], num[2], num[3]}}
		case "k":
			gs.Fill = Color{"CMYK", [4]float64{num[0], num[1], num[2], num[3]}}
		case "CS", "cs":
			nm, _ := st[0].(Name)
			sp := string(nm)
			switch sp {
			case "DeviceGray", "DeviceRGB", "DeviceCMYK", "Pattern":
			default:
				_, n, ok := resOf("ColorSpace", nm)
				if !ok {
					it.prob("%s %s: no such ColorSpace resource", op, nm)
				}
				sp = fmt.Sprintf("CS:%d", n)
			}
			c := Color{sp, [4]float64{}}
			if sp == "DeviceCMYK" {
				c.V[3] = 1
			} else if len(sp) > 3 && sp[:3] == "CS:" {
				c.V[0] = 1
			}
			if op == "CS" {
				gs.Stroke = c
			} else {
				gs.Fill = c
			}
		case "SCN", "SC", "scn", "sc":
			if len(num) != len(st) || len(num) > 4 || len(num) == 0 {
				it.prob("%s operands", op)
				break
			}
			var v [4]float64
			copy(v[:], num)
			if op[0] == 'S' {
				gs.Stroke.V = v
			} else {
				gs.Fill.V = v
			}
		case "Do":
			nm, _ := st[0].(Name)
			v, n, ok := resOf("XObject", nm)
			s, iss := v.(*Stream)
			if !ok || !iss {
				it.prob("Do %s: no such XObject resource", nm)
				break
			}
			k := "image"
			if d.Name(s.D["Subtype"]) == "Form" {
				k = "form"
			}
			it.Events = append(it.Events, Event{Kind: k, GS: gs.clone(), XObj: n, Name: nm, Depth: len(stack), Pos: lx.P, InForm: inForm})
			if k == "form" && recurse && depthForm < 12 {
				c, err := d.Decode(s)
				if err != nil {
					it.prob("form %d: %v", n, err)
					break
				}
				g2 := gs.clone()
				if m := d.Floats(s.D["Matrix"]); len(m) == 6 {
					g2.CTM = Mat{m[0], m[1], m[2], m[3], m[4], m[5]}.Mul(g2.CTM)
				}
				r2 := d.Dict(s.D["Resources"])
				if r2 == nil {
					r2 = res
				}
				d.run(it, c, r2, g2, fonts, recurse, n, depthForm+1)
			}
		}
		st = st[:0]
	}
	if len(st) > 0 {
		it.prob("trailing operands at end of content")
	}
	if inText {
		it.prob("BT without ET at end of content")
	}
	if inForm == 0 {
		it.EndQ = len(stack)
		it.Final = gs
	}
}

func (g GS) clone() GS {
	g.Dash = append([]float64{}, g.Dash...)
	g.Clips = append([]Path{}, g.Clips...)
	return g
}

// LoadFonts reads every Type0 font dictionary in the document.
func (d *Doc) LoadFonts() map[int]*FontInfo {
	out := map[int]*FontInfo{}
	for n, o := range d.Objs {
		f, ok := o.(Dict)
		if !ok || d.Name(f["Type"]) != "Font" || d.Name(f["Subtype"]) != "Type0" {
			continue
		}
		fi := &FontInfo{Obj: n, W: map[int]float64{}, DW: 1000, Base: string(d.Name(f["BaseFont"])), ToUni: map[int][]rune{}}
		out[n] = fi
		df := d.Arr(f["DescendantFonts"])
		if len(df) != 1 {
			fi.Problem = "DescendantFonts"
			continue
		}
		cf := d.Dict(df[0])
		if cf == nil {
			fi.Problem = "descendant font missing"
			continue
		}
		if v, ok := d.Float(cf["DW"]); ok {
			fi.DW = v
		}
		w := d.Arr(cf["W"])
		for i := 0; i < len(w); {
			a, ok := d.Float(w[i])
			if !ok || i+1 >= len(w) {
				fi.Problem = "W array malformed"
				break
			}
			if arr, ok := d.R(w[i+1]).(Array); ok {
				for k, x := range arr {
					v, ok := d.Float(x)
					if !ok {
						fi.Problem = "W array malformed"
					}
					if old, dup := fi.W[int(a)+k]; dup && old != v {
						fi.Problem = fmt.Sprintf("W gives glyph %d two widths", int(a)+k)
					}
					fi.W[int(a)+k] = v
				}
				i += 2
			} else {
				b, ok1 := d.Float(w[i+1])
				if i+2 >= len(w) || !ok1 {
					fi.Problem = "W array malformed"
					break
				}
				v, _ := d.Float(w[i+2])
				for g := int(a); g <= int(b) && g < 70000; g++ {
					fi.W[g] = v
				}
				i += 3
			}
		}
		if tu, ok := d.R(f["ToUnicode"]).(*Stream); ok {
			b, err := d.Decode(tu)
			if err != nil {
				fi.CMapErr = err.Error()
			} else {
				fi.ToUni, err = ParseCMap(b)
				if err != nil {
					fi.CMapErr = err.Error()
				}
			}
		} else {
			fi.CMapErr = "no ToUnicode"
		}
	}
	return out
}

// ParseCMap reads a ToUnicode CMap (2-byte codes).
func ParseCMap(b []byte) (map[int][]rune, error) {
	out := map[int][]rune{}
	lx := &Lexer{B: b, Content: true}
	var st []interface{}
	type rg struct{ lo, hi int }
	var spaces []rg
	n := 0 // entries the open block announces
	code := func(o interface{}) (int, bool) {
		s, ok := o.(Str)
		if !ok || len(s) == 0 || len(s) > 3 {
			return 0, false
		}
		v := 0
		for _, c := range s {
			v = v<<8 | int(c)
		}
		return v, true
	}
	for {
		o, err := lx.Next()
		if err == errEOF {
			break
		}
		if err != nil {
			return out, err
		}
		op, ok := o.(Op)
		if !ok {
			st = append(st, o)
			continue
		}
		// an operator consumes what is on the stack, the count operand of begin* excepted
		per := map[Op]int{"endcodespacerange": 2, "endbfrange": 3, "endbfchar": 2}[op]
		if per > 0 && (len(st) != n*per || n > 100) {
			return out, fmt.Errorf("%s after %d operands in a block of %d entries (at most 100)", op, len(st), n)
		}
		switch op {
		case "begincodespacerange", "beginbfrange", "beginbfchar":
			n = -1
			if len(st) > 0 {
				if v, ok := st[len(st)-1].(Num); ok {
					n = int(v.V)
				}
			}
			st = st[:0]
			continue
		case "endcodespacerange":
			for i := 0; i+1 < len(st); i += 2 {
				a, ok1 := code(st[i])
				z, ok2 := code(st[i+1])
				if !ok1 || !ok2 {
					return out, fmt.Errorf("bad codespace range %v", st)
				}
				spaces = append(spaces, rg{a, z})
			}
		case "endbfrange":
			if len(st)%3 != 0 {
				return out, fmt.Errorf("bfrange with %d operands", len(st))
			}
			for i := 0; i+2 < len(st); i += 3 {
				a, ok1 := code(st[i])
				z, ok2 := code(st[i+1])
				if !ok1 || !ok2 {
					return out, fmt.Errorf("bad bfrange codes")
				}
				switch dst := st[i+2].(type) {
				case Str:
					r := utf16be(dst)
					for c := a; c <= z; c++ {
						rr := append([]rune{}, r...)
						if len(rr) > 0 {
							rr[len(rr)-1] += rune(c - a)
						}
						if _, dup := out[c]; !dup {
							out[c] = rr
						}
					}
				case Array:
					for k, e := range dst {
						if s, ok := e.(Str); ok {
							out[a+k] = utf16be(s)
						}
					}
				default:
					return out, fmt.Errorf("bfrange target %T", dst)
				}
			}
		case "endbfchar":
			if len(st)%2 != 0 {
				return out, fmt.Errorf("bfchar with %d operands", len(st))
			}
			for i := 0; i+1 < len(st); i += 2 {
				a, ok1 := code(st[i])
				s, ok2 := st[i+1].(Str)
				if !ok1 || !ok2 {
					return out, fmt.Errorf("bad bfchar")
				}
				if _, dup := out[a]; !dup {
					out[a] = utf16be(s)
				}
			}
		}
		st = st[:0]
	}
	for c := range out {
		in := false
		for _, s := range spaces {
			if c >= s.lo && c <= s.hi {
				in = true
			}
		}
		if !in {
			return out, fmt.Errorf("code %04X outside the codespace", c)
		}
	}
	return out, nil
}

func utf16be(s []byte) []rune {
	var u []uint16
	for i := 0; i+1 < len(s); i += 2 {
		u = append(u, uint16(s[i])<<8|uint16(s[i+1]))
	}
	if len(s)%2 == 1 {
		u = append(u, 0xFFFD)
	}
	var out []rune
	for i := 0; i < len(u); i++ {
		if u[i] >= 0xD800 && u[i] < 0xDC00 && i+1 < len(u) && u[i+1] >= 0xDC00 && u[i+1] < 0xE000 {
			out = append(out, (rune(u[i])-0xD800)<<10+(rune(u[i+1])-0xDC00)+0x10000)
			i++
		} else {
			out = append(out, rune(u[i]))
		}
	}
	return out
}

// UTF16Text decodes a PDF text string (UTF-16BE with BOM, else Latin-1-like bytes).
func UTF16Text(s []byte) (string, bool) {
	if len(s) >= 2 && s[0] == 0xFE && s[1] == 0xFF {
		return string(utf16be(s[2:])), true
	}
	return string(s), false
}

// SortedKeys helps deterministic iteration.
func SortedKeys(m map[int]interface{}) []int {
	out := make([]int, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// Near compares floats with absolute tolerance.
func Near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }
