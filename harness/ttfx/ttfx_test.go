package ttfx

import (
	"math/rand"
	"os"
	"testing"
)

func TestGen(t *testing.T) {
	for i := 0; i < 300; i++ {
		r := rand.New(rand.NewSource(int64(i)))
		s := Gen(r, GenOpt{})
		b := Build(s, r)
		f, err := Parse(b, false)
		if err != nil {
			t.Fatal(i, err)
		}
		if len(f.Problems) > 0 {
			t.Fatal(i, f.Problems)
		}
		for c, g := range s.Map {
			if f.Cmap[c] != g {
				t.Fatal(i, c, g, f.Cmap[c])
			}
		}
		for g := 0; g < f.NumGlyphs; g++ {
			if _, err := f.Outline(g); err != nil {
				t.Fatal(i, err)
			}
		}
	}
	for _, p := range []string{"/repo/test/res/LiberationSerif-Regular.ttf", "/repo/examples/outline_example/Ubuntu-L.ttf", "/repo/examples/arabic/Amiri-Regular.ttf"} {
		b, _ := os.ReadFile(p)
		f, err := Parse(b, false)
		t.Log(p, err, f != nil && len(f.Cmap) > 0, len(f.Kern), f.Problems, f.UPEM, f.NumGlyphs)
		for g := 0; g < f.NumGlyphs; g++ {
			if _, err := f.Outline(g); err != nil {
				t.Fatal(err)
			}
		}
	}
}
