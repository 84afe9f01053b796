package main

import (
	"fmt"
	"sort"
	"strings"

	"vmon/pdfr"
)

// canonDoc writes what a document says, independent of object numbers, resource names, compression and
// encryption: the object graph from the catalogue in a canonical order, streams decoded, and page contents
// with every resource name replaced by the object it stands for. Unused resources do not count.
type canonDoc struct {
	d    *pdfr.Doc
	ids  map[int]int
	out  []string
	todo []int
	res  []pdfr.Dict // resources of the content being written
	err  error
	page map[int]*pdfr.Page
	form map[int]bool
}

func canon(d *pdfr.Doc) ([]string, error) {
	c := &canonDoc{d: d, ids: map[int]int{}, page: map[int]*pdfr.Page{}}
	ps, err := d.Pages()
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		c.page[p.Num] = p
	}
	c.out = append(c.out, "root "+c.val(d.Trailer["Root"], 0))
	c.out = append(c.out, "info "+c.val(d.Trailer["Info"], 0))
	for len(c.todo) > 0 {
		n := c.todo[0]
		c.todo = c.todo[1:]
		c.object(n)
	}
	return c.out, c.err
}

func (c *canonDoc) id(n int) string {
	k, ok := c.ids[n]
	if !ok {
		k = len(c.ids) + 1
		c.ids[n] = k
		c.todo = append(c.todo, n)
	}
	return fmt.Sprintf("@%d", k)
}

func (c *canonDoc) val(o interface{}, num int) string {
	switch v := o.(type) {
	case nil:
		return "null"
	case pdfr.Ref:
		return c.id(v.Num)
	case pdfr.Str:
		if num == 0 {
			return fmt.Sprintf("%q", []byte(v))
		}
		return fmt.Sprintf("%q", c.d.DecString(num, v))
	case pdfr.Num:
		return num2s(v.V)
	case pdfr.Name:
		return fmt.Sprintf("/%q", string(v))
	case pdfr.Array:
		var s []string
		for _, x := range v {
			s = append(s, c.val(x, num))
		}
		return "[" + strings.Join(s, " ") + "]"
	case pdfr.Dict:
		return c.dict(v, num, nil)
	}
	return fmt.Sprint(o)
}

func num2s(v float64) string {
	s := fmt.Sprintf("%.5f", v)
	s = strings.TrimRight(strings.TrimRight(s, "0"), ".")
	if s == "-0" {
		s = "0"
	}
	return s
}

func (c *canonDoc) dict(v pdfr.Dict, num int, skip map[string]bool) string {
	var ks []string
	for k := range v {
		if !skip[string(k)] {
			ks = append(ks, string(k))
		}
	}
	sort.Strings(ks)
	var s []string
	for _, k := range ks {
		s = append(s, fmt.Sprintf("/%q %s", k, c.val(v[pdfr.Name(k)], num)))
	}
	return "<<" + strings.Join(s, " ") + ">>"
}

func (c *canonDoc) object(n int) {
	id := c.ids[n]
	emit := func(s string) { c.out = append(c.out, fmt.Sprintf("@%d %s", id, s)) }
	if p := c.page[n]; p != nil {
		// resources count as far as the content uses them
		emit(c.dict(p.D, n, map[string]bool{"Resources": true, "Contents": true}))
		b, err := c.d.PageContent(p)
		if err != nil {
			c.err = err
			return
		}
		for i, l := range c.content(b, p.Res) {
			emit(fmt.Sprintf("content %d: %s", i, l))
		}
		return
	}
	switch v := c.d.Objs[n].(type) {
	case *pdfr.Stream:
		b := c.d.Bytes(v)
		skip := map[string]bool{"Length": true}
		if c.d.Name(v.D["Filter"]) == "FlateDecode" {
			x, err := c.d.Decode(v)
			if err != nil {
				c.err = fmt.Errorf("stream %d: %v", n, err)
				return
			}
			b = x
			skip["Filter"], skip["DecodeParms"] = true, true
		}
		if c.d.Name(v.D["Subtype"]) == "Form" {
			// a form without resources of its own uses none here
			skip["Resources"] = true
			emit("form " + c.dict(v.D, n, skip))
			for i, l := range c.content(b, c.d.Dict(v.D["Resources"])) {
				emit(fmt.Sprintf("content %d: %s", i, l))
			}
			return
		}
		emit("stream " + c.dict(v.D, n, skip))
		if len(b) < 4000 {
			emit(fmt.Sprintf("data %q", b))
		} else {
			emit(fmt.Sprintf("data %d bytes %x", len(b), fnv64(string(b))))
		}
	default:
		emit(c.val(v, n))
	}
}

// content rewrites a content stream, one operator a line, resource names replaced by objects.
func (c *canonDoc) content(b []byte, res pdfr.Dict) []string {
	lx := &pdfr.Lexer{B: b, Content: true}
	var out []string
	var st []interface{}
	cat := map[pdfr.Op]string{"Tf": "Font", "gs": "ExtGState", "Do": "XObject", "cs": "ColorSpace", "CS": "ColorSpace"}
	for {
		o, err := lx.Next()
		if err != nil {
			break
		}
		op, ok := o.(pdfr.Op)
		if !ok {
			st = append(st, o)
			continue
		}
		var s []string
		for i, x := range st {
			t := ""
			if k := cat[op]; k != "" && i == 0 {
				if nm, isn := x.(pdfr.Name); isn {
					if r, have := c.d.Dict(res[pdfr.Name(k)])[nm]; have {
						t = c.val(r, 0)
					}
				}
			}
			if t == "" {
				t = c.val(x, 0)
			}
			s = append(s, t)
		}
		out = append(out, strings.Join(s, " ")+" "+string(op))
		st = st[:0]
	}
	return out
}

// diffLines names the first difference of two canonical forms.
func diffLines(a, b []string) string {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("line %d differs:\n  %s\n  %s", i, cut(a[i], 700), cut(b[i], 700))
		}
	}
	if len(a) != len(b) {
		x := a
		who := "the first"
		if len(b) > len(a) {
			x, who = b, "the second"
		}
		return fmt.Sprintf("%s goes on: %s", who, cut(x[n], 700))
	}
	return ""
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// diffKind turns a difference into a stable signature.
func diffKind(a []string, b []string) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			s := a[i]
			switch {
			case strings.Contains(s, " content "):
				f := strings.Fields(s)
				return "content-" + f[len(f)-1]
			case strings.HasPrefix(s, "info"):
				return "info"
			case strings.Contains(s, `"Page"`):
				return "page"
			case strings.Contains(s, " data "):
				return "stream-data"
			case strings.Contains(s, "stream "):
				return "stream-dict"
			}
			return "object"
		}
	}
	return "length"
}

// canonOf opens an output and canonicalises it.
func canonOf(c *Case, sc *Script, b []byte) []string {
	d := openDoc(c, sc, b)
	if d == nil {
		return nil
	}
	l, err := canon(d)
	if err != nil {
		c.Fail("undecodable", "%v", err)
		return nil
	}
	return l
}
