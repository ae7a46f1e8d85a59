//go:build go1.22

package main

import (
	"image/color"

	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/zzverif/vh"
)

// custom is a colour type the library knows nothing about.
type custom struct{ r, g, b, a uint32 }

func (c custom) RGBA() (r, g, b, a uint32) { return c.r, c.g, c.b, c.a }

// forms gives a colour in each of the representations that can hold it.
func forms(r, g, b, a uint8) []color.Color {
	n := color.NRGBA{r, g, b, a}
	pr, pg, pb, pa := n.RGBA()
	f := []color.Color{
		n,
		color.NRGBA64{uint16(r) * 257, uint16(g) * 257, uint16(b) * 257, uint16(a) * 257},
		color.RGBA{uint8(pr >> 8), uint8(pg >> 8), uint8(pb >> 8), uint8(pa >> 8)},
		color.RGBA64{uint16(pr), uint16(pg), uint16(pb), uint16(pa)},
		custom{pr, pg, pb, pa},
	}
	if r == g && g == b {
		f = append(f, lcolor.GrayAlpha{Y: r, A: a})
		if a == 255 {
			f = append(f, color.Gray{r}, color.Gray16{uint16(r)*256 + uint16(r)})
		}
		if r == 255 {
			f = append(f, color.Alpha{a}, color.Alpha16{uint16(a) * 257})
		}
	}
	if a == 255 {
		y, cb, cr := color.RGBToYCbCr(r, g, b)
		cc, m, ye, k := color.RGBToCMYK(r, g, b)
		f = append(f, lcolor.RGB{R: r, G: g, B: b}, color.YCbCr{y, cb, cr}, color.CMYK{cc, m, ye, k})
	}
	y, cb, cr := color.RGBToYCbCr(r, g, b)
	return append(f, color.NYCbCrA{color.YCbCr{y, cb, cr}, a})
}

func lum(c color.NRGBA64) float64 {
	return (0.299*float64(c.R) + 0.587*float64(c.G) + 0.114*float64(c.B)) / 257
}

var c01 = vh.Check{
	ID: "C01", Level: "exploration",
	Rule: "every colour of the stated grids, in every standard and library colour representation, is converted by every model and compared with an independent computation; a case is non-trivial when the colour is not the zero colour, and cases are distinct by construction",
	Assume: []string{
		"palette entries are opaque (the library's palettes carry alpha separately)",
		"the standard library's NRGBA64 conversion defines the straight colour of a premultiplied one",
	},
	Run: runC01,
}

func runC01(t *vh.T) {
	// Exact components of the library's own colours, for every value.
	t.Par("rgb-colours", 256, func(b *vh.B, r int) {
		for g := 0; g < 256; g++ {
			for bl := 0; bl < 256; bl++ {
				c := lcolor.RGB{R: uint8(r), G: uint8(g), B: uint8(bl)}
				want := color.NRGBA64{uint16(r) * 257, uint16(g) * 257, uint16(bl) * 257, 0xffff}
				if got := rgba(c); got != [4]uint32{uint32(r) * 257, uint32(g) * 257, uint32(bl) * 257, 0xffff} {
					b.Fail("rgb-components", "RGB{%d,%d,%d}.RGBA() = %v", r, g, bl, got)
					return
				}
				if got := c.ToNRGBA(); got != want {
					b.Fail("rgb-straight", "RGB{%d,%d,%d}.ToNRGBA() = %v", r, g, bl, got)
					return
				}
				if got := lcolor.RGBModel.Convert(c); got != color.Color(c) {
					b.Fail("rgb-identity", "RGBModel.Convert(%v) = %v", c, got)
					return
				}
			}
		}
		b.Eval(65536, 65536)
	})
	t.Par("gray-colours", 256, func(b *vh.B, y int) {
		for a := 0; a < 256; a++ {
			c := lcolor.GrayAlpha{Y: uint8(y), A: uint8(a)}
			got := rgba(c)
			w := float64(y*257) * float64(a) / 255
			if got[0] != got[1] || got[1] != got[2] || got[3] != uint32(a)*257 || absf(float64(got[0])-w) > 1 || !valid(got) {
				b.Fail("gray-components", "GrayAlpha{%d,%d}.RGBA() = %v, want premultiplied %v", y, a, got, w)
				return
			}
			if n := c.ToNRGBA(); n != (color.NRGBA64{uint16(y) * 257, uint16(y) * 257, uint16(y) * 257, uint16(a) * 257}) {
				b.Fail("gray-straight", "GrayAlpha{%d,%d}.ToNRGBA() = %v", y, a, n)
				return
			}
			if got := lcolor.GrayAlphaModel.Convert(c); got != color.Color(c) {
				b.Fail("gray-identity", "GrayAlphaModel.Convert(%v) = %v", c, got)
				return
			}
		}
		b.Eval(256, 256)
	})
	// Conversion of every representation.
	lv := vh.Pick(t, []int{0, 1, 63, 127, 128, 200, 254, 255}, []int{0, 1, 2, 15, 31, 63, 64, 90, 126, 127, 128, 129, 160, 191, 200, 230, 253, 254, 255})
	pals := []lcolor.AlphaPalette{
		{color.RGBA{0, 0, 0, 255}},
		{color.RGBA{0, 0, 0, 255}, color.RGBA{255, 255, 255, 255}},
		{color.RGBA{255, 0, 0, 255}, color.RGBA{128, 0, 0, 255}, color.RGBA{20, 0, 0, 255}},
		{color.RGBA{200, 100, 50, 255}, lcolor.RGB{R: 100, G: 50, B: 25}, color.Gray{90}, color.NRGBA{0, 0, 255, 255}, color.NRGBA{0, 255, 0, 255}, color.White},
		{color.NRGBA{17, 34, 51, 255}, color.NRGBA{17, 34, 52, 255}, color.NRGBA{17, 33, 51, 255}, color.NRGBA{17, 34, 51, 255}},
	}
	check := func(b *vh.B, c color.Color) bool {
		s := straight(c)
		p := rgba(c)
		rgb, ok := lcolor.RGBModel.Convert(c).(lcolor.RGB)
		if !ok || rgb != (lcolor.RGB{R: uint8(p[0] >> 8), G: uint8(p[1] >> 8), B: uint8(p[2] >> 8)}) {
			b.Fail("to-rgb", "RGBModel.Convert(%T %v) = %v, want premultiplied %v", c, c, lcolor.RGBModel.Convert(c), p)
			return false
		}
		ga, ok := lcolor.GrayAlphaModel.Convert(c).(lcolor.GrayAlpha)
		if !ok || uint32(ga.A) != p[3]>>8 || absf(float64(ga.Y)-lum(s)) > 1.1 {
			b.Fail("to-gray", "GrayAlphaModel.Convert(%T %v) = %v, want luminance %.2f alpha %d", c, c, lcolor.GrayAlphaModel.Convert(c), lum(s), p[3]>>8)
			return false
		}
		for _, pal := range pals {
			if !checkPalette(b, pal, c) {
				return false
			}
		}
		return true
	}
	alphas := vh.Pick(t, []int{0, 1, 2, 40, 127, 128, 200, 254, 255}, lv)
	t.Par("conversions", len(lv)*len(alphas), func(b *vh.B, i int) {
		r, a := lv[i/len(alphas)], alphas[i%len(alphas)]
		for _, g := range lv {
			for _, bl := range lv {
				for _, c := range forms(uint8(r), uint8(g), uint8(bl), uint8(a)) {
					if !check(b, c) {
						return
					}
					nt := 1
					if r|g|bl|a == 0 {
						nt = 0
					}
					b.Eval(1, nt)
				}
			}
		}
		if i == 5 {
			t.Sample(map[string]any{"colour": []int{r, lv[2], lv[3], a}, "luminance": lum(straight(color.NRGBA{uint8(r), uint8(lv[2]), uint8(lv[3]), uint8(a)}))})
		}
	})
	// Every value and alpha in one channel, as an 8-bit and as a 16-bit colour.
	t.Par("value-by-alpha", 256, func(b *vh.B, v int) {
		for a := 0; a < 256; a++ {
			for _, c := range []color.Color{
				color.NRGBA{uint8(v), 77, 200, uint8(a)}, color.NRGBA{77, uint8(v), 200, uint8(a)}, color.NRGBA{77, 200, uint8(v), uint8(a)},
				color.NRGBA64{uint16(v)*257 + 100, uint16(255-v) * 256, 4000, uint16(a)*256 + uint16(v)},
			} {
				if !check(b, c) {
					return
				}
				b.Eval(1, 1)
			}
		}
	})
	// Palettes of many colours.
	sizes := vh.Pick(t, []int{3, 16, 17, 127, 128, 129, 200, 201, 255, 256, 257, 1000}, []int{2, 3, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 199, 200, 201, 254, 255, 256, 257, 511, 512, 1000, 4096})
	t.Par("large-palettes", len(sizes)*3, func(b *vh.B, i int) {
		n := sizes[i/3]
		var pal lcolor.AlphaPalette
		for k := 0; k < n; k++ {
			switch i % 3 {
			case 0: // scattered
				pal = append(pal, color.NRGBA{uint8(k * 67), uint8(k*31 + k>>8*9), uint8(k*k + k>>4), 255})
			case 1: // a ramp, with all that is bright at the end
				v := uint8(k * 255 / n)
				pal = append(pal, lcolor.RGB{R: v, G: v, B: uint8(k >> 2)})
			case 2: // all the same, but for one
				pal = append(pal, color.Gray{7})
			}
		}
		step := max(1, n/257)
		for k := 0; k < n; k += step {
			if i%3 == 2 {
				if k > 0 {
					pal[k-step] = color.Gray{7}
				}
				pal[k] = color.NRGBA{200, 100, 0, 255}
				for _, c := range []color.Color{color.NRGBA{200, 100, 0, 255}, color.NRGBA{199, 101, 1, 80}, color.Gray{8}} {
					if !checkPalette(b, pal, c) {
						return
					}
					b.Eval(1, 1)
				}
				continue
			}
			e := rgba(pal[k])
			for _, a := range []uint8{255, 128, 1} {
				for d := -1; d < 2; d++ {
					c := color.NRGBA{uint8(int(e[0]>>8) + d), uint8(e[1] >> 8), uint8(int(e[2]>>8) - d), a}
					if !checkPalette(b, pal, c) {
						return
					}
					b.Eval(1, 1)
				}
			}
		}
	})
}

// checkPalette compares a conversion by a palette with its definition.
func checkPalette(b *vh.B, pal lcolor.AlphaPalette, c color.Color) bool {
	s, p := straight(c), rgba(c)
	best := int64(1) << 62
	dist := func(e color.Color) int64 {
		q := rgba(e)
		dr, dg, db := int64(q[0])-int64(s.R), int64(q[1])-int64(s.G), int64(q[2])-int64(s.B)
		return dr*dr + dg*dg + db*db
	}
	for _, e := range pal {
		best = min(best, dist(e))
	}
	i := pal.Index(c)
	if i < 0 || i >= len(pal) || dist(pal[i]) > best+16 {
		b.Fail("palette-index", "AlphaPalette%v.Index(%T %v) = %d, not nearest to the straight colour %v", pal, c, c, i, s)
		return false
	}
	got := straight(pal.Convert(c))
	e := rgba(pal[i])
	if uint32(got.A) != p[3] {
		b.Fail("palette-alpha", "AlphaPalette.Convert(%T %v) has alpha %#x, want %#x", c, c, got.A, p[3])
		return false
	}
	if uint32(got.R) != e[0] || uint32(got.G) != e[1] || uint32(got.B) != e[2] {
		b.Fail("palette-colour", "AlphaPalette%v.Convert(%T %v) = %v, want the entry %v", pal, c, c, got, e)
		return false
	}
	if q := rgba(pal.Convert(c)); !near4(q, premul(got), 1) {
		b.Fail("palette-components", "AlphaPalette.Convert(%T %v).RGBA() = %v, not the premultiplied form of %v", c, c, q, got)
		return false
	}
	return true
}
