//go:build go1.22

// Command core checks the colour, pixel image, composition and layer parts.
package main

import (
	"image/color"
	"math"

	"vimagination.zapto.org/limage/zzverif/vh"
)

func main() {
	vh.Main(c01, c02, c03, c04, c05, c06, c07, c08, c09)
}

// straight gives the un-premultiplied 16-bit colour, by the standard library
// alone unless the type is one of the library's own.
func straight(c color.Color) color.NRGBA64 {
	switch c := c.(type) {
	case color.NRGBA64:
		return c
	case color.NRGBA:
		return color.NRGBA64{uint16(c.R) * 257, uint16(c.G) * 257, uint16(c.B) * 257, uint16(c.A) * 257}
	}
	if n, ok := c.(interface{ ToNRGBA() color.NRGBA64 }); ok {
		return n.ToNRGBA()
	}
	return color.NRGBA64Model.Convert(c).(color.NRGBA64)
}

func rgba(c color.Color) [4]uint32 {
	r, g, b, a := c.RGBA()
	return [4]uint32{r, g, b, a}
}

// premul gives the premultiplied components of a straight colour.
func premul(c color.NRGBA64) [4]uint32 {
	a := uint32(c.A)
	return [4]uint32{uint32(c.R) * a / 0xffff, uint32(c.G) * a / 0xffff, uint32(c.B) * a / 0xffff, a}
}

func near4(a, b [4]uint32, tol int) bool {
	for i := range a {
		if d := int(a[i]) - int(b[i]); d > tol || d < -tol {
			return false
		}
	}
	return true
}

func absf(f float64) float64 { return math.Abs(f) }

func valid(c [4]uint32) bool {
	return c[3] <= 0xffff && c[0] <= c[3] && c[1] <= c[3] && c[2] <= c[3]
}

// boundary values of a 16-bit component, with n evenly spaced others.
func values16(n int, around ...int) []uint16 {
	seen := map[uint16]bool{}
	var out []uint16
	add := func(v int) {
		if v < 0 || v > 0xffff || seen[uint16(v)] {
			return
		}
		seen[uint16(v)] = true
		out = append(out, uint16(v))
	}
	for _, c := range append([]int{0, 0xffff}, around...) {
		for d := -2; d <= 2; d++ {
			add(c + d)
		}
	}
	for i := 0; i < n; i++ {
		add(i * 0xffff / max(n-1, 1))
	}
	return out
}
