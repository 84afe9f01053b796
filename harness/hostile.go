package main

import (
	"math/rand"
)

// mutate damages a file: truncation, bit flips, overwritten fields, removed and repeated pieces.
func mutate(r *rand.Rand, b []byte) ([]byte, string) {
	b = append([]byte{}, b...)
	if len(b) == 0 {
		return b, "empty"
	}
	switch r.Intn(9) {
	case 0:
		n := r.Intn(len(b))
		return b[:n], "truncated"
	case 1:
		for i := 1 + r.Intn(4); i > 0; i-- {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		}
		return b, "bits flipped"
	case 2:
		for i := 1 + r.Intn(8); i > 0; i-- {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
		return b, "bytes changed"
	case 3: // a field set to an extreme
		p := r.Intn(len(b))
		n := []int{1, 2, 4}[r.Intn(3)]
		v := []byte{0, 0xff, 0x7f, 0x80}[r.Intn(4)]
		for i := 0; i < n && p+i < len(b); i++ {
			b[p+i] = v
			if i > 0 && v == 0x7f {
				b[p+i] = 0xff
			} else if i > 0 && v == 0x80 {
				b[p+i] = 0
			}
		}
		return b, "field extreme"
	case 4:
		p := r.Intn(len(b))
		n := 1 + r.Intn(40)
		if p+n > len(b) {
			n = len(b) - p
		}
		return append(b[:p:p], b[p+n:]...), "piece removed"
	case 5:
		p := r.Intn(len(b))
		n := 1 + r.Intn(40)
		if p+n > len(b) {
			n = len(b) - p
		}
		o := append([]byte{}, b[:p+n]...)
		return append(o, b[p:]...), "piece repeated"
	case 6:
		p := r.Intn(len(b))
		n := 1 + r.Intn(200)
		for i := p; i < p+n && i < len(b); i++ {
			b[i] = 0
		}
		return b, "zeroed"
	case 7:
		n := r.Intn(60)
		if n > len(b) {
			n = len(b)
		}
		for i := 0; i < n; i++ { // only the head
			if r.Intn(4) == 0 {
				b[i] = byte(r.Intn(256))
			}
		}
		return b, "head changed"
	default:
		o := make([]byte, r.Intn(200))
		r.Read(o)
		return o, "noise"
	}
}

// badImageData draws data no decoder can accept.
func badImageData(r *rand.Rand) []byte {
	a := randImage(r)
	switch r.Intn(4) {
	case 0:
		return a.Data[:r.Intn(9)]
	case 1:
		o := make([]byte, 1+r.Intn(60))
		r.Read(o)
		return o
	case 2:
		return nil
	default: // the signature and little more
		n := 8 + r.Intn(12)
		if n > len(a.Data) {
			n = len(a.Data)
		}
		return append([]byte{}, a.Data[:n]...)
	}
}
