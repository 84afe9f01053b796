package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"github.com/signintech/gopdf"
)

// C15: units are interchangeable.

func init() {
	register(&Check{ID: "C15", Quick: 5000, Deep: 80000, Rule: "one random history per case, made once in points and once in another unit with every length converted; every returned length (converted back) and the finished documents are compared",
		Need: []string{"mm", "cm", "in", "px", "custom", "lengths read back", "numbers compared", "page breaks", "splits", "links", "imported pages", "set and read back", "predefined sizes"},
		Run:  runC15})
}

var numRe = regexp.MustCompile(`-?\d*\.?\d+(e[-+]?\d+)?`)

// nearLine compares two canonical lines up to rounding of the numbers in them.
func nearLine(a, b string, tol float64) (bool, int) {
	if a == b {
		return true, 0
	}
	ia, ib := numRe.FindAllStringIndex(a, -1), numRe.FindAllStringIndex(b, -1)
	if len(ia) != len(ib) {
		return false, 0
	}
	pa, pb := 0, 0
	for k := range ia {
		if a[pa:ia[k][0]] != b[pb:ib[k][0]] {
			return false, 0
		}
		x, _ := strconv.ParseFloat(a[ia[k][0]:ia[k][1]], 64)
		y, _ := strconv.ParseFloat(b[ib[k][0]:ib[k][1]], 64)
		if math.Abs(x-y) > tol {
			return false, 0
		}
		pa, pb = ia[k][1], ib[k][1]
	}
	return a[pa:] == b[pb:], len(ia)
}

func runC15(c *Case) {
	r := c.R
	p := Profile{W: mergeW(wAll, map[string]int{"table": 0, "split": 3, "isfit": 3, "setnewy": 3, "setnewyn": 3, "setnewxy": 3, "extlink": 3}), Steps: 3 + r.Intn(50), Bulk: 30, Images: 1 + r.Intn(2), Header: true, Sizes: true}
	delete(p.W, "table")
	if r.Intn(8) == 0 {
		p.PDFs = 1
	}
	g := newGen(r, p)
	sc := g.build()
	// margins are given: the default ones are a number of units
	m := []float64{g.f(5, 50), g.f(5, 50), g.f(5, 50), g.f(5, 50)}
	sc.Ops = append([]Op{{K: "margins", F: m}}, sc.Ops...)
	for i := len(sc.Ops); i > 0; i-- {
		if r.Intn(6) == 0 {
			sc.Ops = append(sc.Ops[:i], append([]Op{{K: "getmargins"}}, sc.Ops[i:]...)...)
		}
	}
	units := []Unit{{U: gopdf.UnitMM}, {U: gopdf.UnitCM}, {U: gopdf.UnitIN}, {U: gopdf.UnitPX}, {U: r.Intn(6), Conv: 0.25 + float64(r.Intn(200))/20}}
	k := r.Intn(5)
	unit := units[k]
	c.Count([]string{"mm", "cm", "in", "px", "custom"}[k], 1)
	c.trace = func() string { return fmt.Sprintf("unit %+v against points\n%s", unit, sc) }
	v1, b1 := runScript(sc, Unit{U: gopdf.UnitPT}, nil)
	v2, b2 := runScript(sc, unit, nil)
	if len(v1.Recs) != len(v2.Recs) {
		c.Fail("calls", "%d calls in points, %d in the unit", len(v1.Recs), len(v2.Recs))
		return
	}
	for i := range v1.Recs {
		a, b := v1.Recs[i], v2.Recs[i]
		bad := ""
		near := func(x, y float64) bool { return math.Abs(x-y) <= 1e-5+1e-9*math.Abs(x) }
		switch {
		case a.Err != b.Err:
			bad = fmt.Sprintf("error %q, in points %q", b.Err, a.Err)
		case len(a.S) != len(b.S) || len(a.L) != len(b.L) || len(a.N) != len(b.N):
			bad = fmt.Sprintf("returns %d/%d/%d values, in points %d/%d/%d", len(b.S), len(b.L), len(b.N), len(a.S), len(a.L), len(a.N))
		case !near(a.X, b.X) || !near(a.Y, b.Y):
			bad = fmt.Sprintf("the cursor is at (%.6f, %.6f) points, in points (%.6f, %.6f)", b.X, b.Y, a.X, a.Y)
		default:
			for j := range a.S {
				if a.S[j] != b.S[j] {
					bad = fmt.Sprintf("line %d is %q, in points %q", j, b.S[j], a.S[j])
				}
			}
			for j := range a.L {
				c.Count("lengths read back", 1)
				if !near(a.L[j], b.L[j]) {
					bad = fmt.Sprintf("returned length %d is %.6f points, in points %.6f", j, b.L[j], a.L[j])
				}
			}
			for j := range a.N {
				if a.N[j] != b.N[j] {
					bad = fmt.Sprintf("result %d is %v, in points %v", j, b.N[j], a.N[j])
				}
			}
		}
		if bad != "" {
			c.Fail("result:"+a.K, "call %d (%s): %s", a.I, a.K, bad)
			return
		}
		if a.K == "split" {
			c.Count("splits", 1)
		}
		if a.Sub == 0 && a.I < len(sc.Ops) {
			op := &sc.Ops[a.I]
			if op.K == "setxy" {
				c.Count("set and read back", 1)
				if !near(op.F[0], b.X) || !near(op.F[1], b.Y) {
					c.Fail("read-back", "set (%v, %v), read back (%v, %v) points", op.F[0], op.F[1], b.X, b.Y)
				}
			}
		}
	}
	d1, d2 := parseOut(c, b1), parseOut(c, b2)
	if d1 == nil || d2 == nil {
		return
	}
	l1, e1 := canon(d1)
	l2, e2 := canon(d2)
	if e1 != nil || e2 != nil {
		c.Fail("undecodable", "%v, %v", e1, e2)
		return
	}
	for i := range l1 {
		if i >= len(l2) {
			break
		}
		tol := 0.0101
		if strings.HasSuffix(l1[i], " TJ") {
			tol = 1.01 // thousandths of the font size, whole
		}
		ok, n := nearLine(l1[i], l2[i], tol)
		c.Count("numbers compared", n)
		if !ok {
			c.Fail("document", "line %d of the document is %s, in points %s (in %s)", i, cut(l2[i], 200), cut(l1[i], 200), diffKind(l1, l2))
			return
		}
	}
	if len(l1) != len(l2) {
		c.Fail("document-length", "the document has %d lines, in points %d", len(l2), len(l1))
	}
	if p1, _ := d1.Pages(); len(p1) > 1 {
		c.Count("page breaks", len(p1)-1)
		for _, p := range p1 {
			c.Count("links", len(d1.Arr(p.D["Annots"])))
		}
	}
	if len(sc.PDFs) > 0 {
		c.Count("imported pages", 1)
	}
	c.Distinct(fmt.Sprintf("%v %d %d", unit, len(l1), len(sc.Ops)))
	c15funcs(c, unit)
}

var presets = []*gopdf.Rect{gopdf.PageSizeA3, gopdf.PageSizeA4, gopdf.PageSizeA5, gopdf.PageSizeLetter, gopdf.PageSizeLegal, gopdf.PageSizeA4Landscape, gopdf.PageSizeTabloid, gopdf.PageSizeB5, gopdf.PageSizeA2, gopdf.PageSizeStatement}

// c15funcs judges the conversion functions and the predefined page sizes, which are in points whatever the unit.
func c15funcs(c *Case, unit Unit) {
	r := c.R
	f := unit.factor()
	near := func(x, y float64) bool { return math.Abs(x-y) <= 1e-9*(1+math.Abs(y)) }
	p1, p2 := presets[r.Intn(len(presets))], presets[r.Intn(len(presets))]
	w1, w2 := *p1, *p2
	g := &gopdf.GoPdf{}
	g.Start(gopdf.Config{Unit: unit.U, ConversionForUnit: unit.Conv, PageSize: *p1})
	g.AddPage()
	g.AddPageWithOption(gopdf.PageOption{PageSize: p2})
	g.AddPage()
	for i := 0; i < 4; i++ {
		u := r.NormFloat64() * 500
		if x := g.UnitsToPoints(u); !near(x, u*f) {
			c.Fail("units-to-points", "%v units are %v points, want %v", u, x, u*f)
		}
		if x := g.PointsToUnits(u); !near(x, u/f) {
			c.Fail("points-to-units", "%v points are %v units, want %v", u, x, u/f)
		}
		a, b, e := u, u+1, u*2
		g.UnitsToPointsVar(&a, &b, &e)
		g.PointsToUnitsVar(&a, &b, &e)
		if !near(a, u) || !near(b, u+1) || !near(e, u*2) {
			c.Fail("units-round-trip", "%v comes back as %v, %v, %v", u, a, b, e)
		}
		x, y := u, u*3
		g.UnitsToPointsVar(&x, &y)
		if !near(x, u*f) || !near(y, u*3*f) {
			c.Fail("units-to-points", "%v and %v units are %v and %v points", u, u*3, x, y)
		}
		for t := 1; t <= 5; t++ {
			k := (Unit{U: t}).factor()
			rc := (&gopdf.Rect{W: u, H: u / 3}).UnitsToPoints(t)
			rb := (&gopdf.Rect{W: u, H: u / 3}).PointsToUnits(t)
			bx := (&gopdf.Box{Left: u, Top: 2 * u, Right: 3 * u, Bottom: 4 * u}).UnitsToPoints(t)
			va, vb, vc, vd := u, u/3, u, u/3
			gopdf.UnitsToPointsVar(t, &va, &vb)
			gopdf.PointsToUnitsVar(t, &vc, &vd)
			if !near(va, u*k) || !near(vb, u/3*k) || !near(vc, u/k) || !near(vd, u/3/k) {
				c.Fail("units-functions", "unit %d: %v and %v are %v and %v points, %v and %v units", t, u, u/3, va, vb, vc, vd)
			}
			if !near(gopdf.UnitsToPoints(t, u), u*k) || !near(gopdf.PointsToUnits(t, u), u/k) || !near(rc.W, u*k) || !near(rc.H, u/3*k) || !near(rb.W, u/k) || !near(rb.H, u/3/k) ||
				!near(bx.Left, u*k) || !near(bx.Top, 2*u*k) || !near(bx.Right, 3*u*k) || !near(bx.Bottom, 4*u*k) {
				c.Fail("units-functions", "unit %d: %v is %v points and %v units; rectangle %v and %v; box %v", t, u, gopdf.UnitsToPoints(t, u), gopdf.PointsToUnits(t, u), *rc, *rb, *bx)
			}
		}
	}
	d := parseOut(c, g.GetBytesPdf())
	if d == nil {
		return
	}
	ps, err := d.Pages()
	if err != nil || len(ps) != 3 {
		c.Fail("preset-pages", "%d pages, %v", len(ps), err)
		return
	}
	c.Count("predefined sizes", 3)
	for i, w := range []gopdf.Rect{w1, w2, w1} {
		m := ps[i].MediaBox
		if math.Abs(m[2]-m[0]-w.W) > 0.011 || math.Abs(m[3]-m[1]-w.H) > 0.011 {
			c.Fail("preset-size", "page %d asked for the predefined size %gx%g points, its box is %v", i+1, w.W, w.H, m)
		}
	}
	if *p1 != w1 || *p2 != w2 {
		c.Fail("preset-changed", "a predefined page size was changed: %v, %v", *p1, *p2)
	}
}
