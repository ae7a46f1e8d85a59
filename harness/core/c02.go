//go:build go1.22

package main

import (
	"image/color"
	"math"

	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/zzverif/vh"
)

var c02 = vh.Check{
	ID: "C02", Level: "exploration",
	Rule: "every 8-bit colour, a dense 16-bit grid including all extremes, and every hue on a grid of saturations and lightnesses are converted and compared with a real-valued reference; cases are distinct by construction, non-trivial when not grey",
	Assume: []string{
		"tolerance of 14/65535 on colours, hues and saturations (16-bit hue quantisation alone moves a colour by up to 6/65535)",
	},
	Run: runC02,
}

const tolHue = 14

// refHue gives the hue in [0,1), and whether it is defined.
func refHue(r, g, b float64) (float64, bool) {
	mx, mn := math.Max(r, math.Max(g, b)), math.Min(r, math.Min(g, b))
	c := mx - mn
	if c == 0 {
		return 0, false
	}
	var h float64
	switch mx {
	case r:
		h = math.Mod((g-b)/c+6, 6)
	case g:
		h = (b-r)/c + 2
	default:
		h = (r-g)/c + 4
	}
	return h / 6, true
}

func refHueToRGB(h, c, m float64) [3]float64 {
	h = math.Mod(h*6, 6)
	x := c * (1 - math.Abs(math.Mod(h, 2)-1))
	var r [3]float64
	switch int(h) {
	case 0:
		r = [3]float64{c, x, 0}
	case 1:
		r = [3]float64{x, c, 0}
	case 2:
		r = [3]float64{0, c, x}
	case 3:
		r = [3]float64{0, x, c}
	case 4:
		r = [3]float64{x, 0, c}
	default:
		r = [3]float64{c, 0, x}
	}
	for i := range r {
		r[i] += m
	}
	return r
}

func refHSV(h, s, v float64) [3]float64 { return refHueToRGB(h, v*s, v-v*s) }

func refHSL(h, s, l float64) [3]float64 {
	c := (1 - math.Abs(2*l-1)) * s
	return refHueToRGB(h, c, l-c/2)
}

// hueDiff is the circular distance of two hues, in 1/65535.
func hueDiff(a uint16, b float64) float64 {
	d := math.Abs(float64(a)/65535 - b)
	if d > 0.5 {
		d = 1 - d
	}
	return d * 65535
}

func rgbNear(n color.NRGBA64, w [3]float64, tol float64) bool {
	return absf(float64(n.R)-w[0]*65535) <= tol && absf(float64(n.G)-w[1]*65535) <= tol && absf(float64(n.B)-w[2]*65535) <= tol
}

// forward checks one colour both ways.
func forward(b *vh.B, in color.Color) bool {
	s := straight(in)
	r, g, bl := float64(s.R)/65535, float64(s.G)/65535, float64(s.B)/65535
	mx, mn := math.Max(r, math.Max(g, bl)), math.Min(r, math.Min(g, bl))
	hue, coloured := refHue(r, g, bl)
	hl, hv := lcolor.RGBToHSL(in), lcolor.RGBToHSV(in)
	if hl.A != s.A || hv.A != s.A {
		b.Fail("alpha", "conversion of %T %v changes alpha: %v %v", in, in, hl, hv)
		return false
	}
	if absf(float64(hl.L)-(mx+mn)/2*65535) > 2 || absf(float64(hv.V)-mx*65535) > 2 {
		b.Fail("lightness", "lightness/value of %T %v: %v %v", in, in, hl, hv)
		return false
	}
	var sl, sv float64
	if mx > 0 {
		sv = (mx - mn) / mx
	}
	if coloured {
		sl = (mx - mn) / (1 - math.Abs(mx+mn-1))
	}
	if absf(float64(hl.S)-sl*65535) > 2 || absf(float64(hv.S)-sv*65535) > 2 {
		b.Fail("saturation", "saturation of %T %v: HSL %v want %.2f, HSV %v want %.2f", in, in, hl, sl*65535, hv, sv*65535)
		return false
	}
	if coloured && (hueDiff(hl.H, hue) > 2.5 || hueDiff(hv.H, hue) > 2.5) {
		b.Fail("hue", "hue of %T %v: HSL %v HSV %v want %.2f", in, in, hl, hv, hue*65535)
		return false
	}
	w := [3]float64{r, g, bl}
	if n := hl.ToNRGBA(); !rgbNear(n, w, tolHue) || n.A != s.A {
		b.Fail("hsl-roundtrip", "%T %v -> %v -> %v", in, in, hl, n)
		return false
	}
	if n := hv.ToNRGBA(); !rgbNear(n, w, tolHue) || n.A != s.A {
		b.Fail("hsv-roundtrip", "%T %v -> %v -> %v", in, in, hv, n)
		return false
	}
	return true
}

func backward(b *vh.B, h, s, l, a uint16) bool {
	hf, sf, lf := float64(h)/65535, float64(s)/65535, float64(l)/65535
	c := lcolor.HSLA{H: h, S: s, L: l, A: a}
	if n := c.ToNRGBA(); !rgbNear(n, refHSL(hf, sf, lf), tolHue) || n.A != a {
		b.Fail("hsl-to-rgb", "%v -> %v, want %v", c, n, refHSL(hf, sf, lf))
		return false
	} else if got := rgba(c); !near4(got, premul(n), 1) || !valid(got) {
		b.Fail("hsl-components", "%v.RGBA() = %v, straight %v", c, got, n)
		return false
	}
	d := lcolor.HSVA{H: h, S: s, V: l, A: a}
	if n := d.ToNRGBA(); !rgbNear(n, refHSV(hf, sf, lf), tolHue) || n.A != a {
		b.Fail("hsv-to-rgb", "%v -> %v, want %v", d, n, refHSV(hf, sf, lf))
		return false
	} else if got := rgba(d); !near4(got, premul(n), 1) || !valid(got) {
		b.Fail("hsv-components", "%v.RGBA() = %v, straight %v", d, got, n)
		return false
	}
	return true
}

func runC02(t *vh.T) {
	t.Par("all-8bit", 256, func(b *vh.B, r int) {
		gs := 1
		n := 0
		for g := 0; g < 256; g++ {
			if gs > 1 && g%gs != 0 && g > 3 && g < 252 && g != 127 && g != 128 && g != r {
				continue
			}
			for bl := 0; bl < 256; bl++ {
				n++
				if !forward(b, color.NRGBA{uint8(r), uint8(g), uint8(bl), uint8(g*7 + bl)}) {
					return
				}
			}
		}
		b.Eval(n, n-1)
	})
	vs := vh.Pick(t, values16(90, 0x7fff, 0x5555, 0xaaaa, 5, 11, 100, 1000), values16(700, 0x7fff, 0x5555, 0xaaaa, 5, 11, 100, 1000))
	t.Par("grid-16bit", len(vs), func(b *vh.B, i int) {
		n := 0
		for _, g := range vs {
			for _, bl := range vs {
				n++
				if !forward(b, color.NRGBA64{vs[i], g, bl, vs[(n+i)%len(vs)]}) {
					return
				}
			}
		}
		b.Eval(n, n-1)
		if i == 7 {
			c := color.NRGBA64{vs[i], vs[3], vs[9], 0xffff}
			t.Sample(map[string]any{"colour": c, "hsl": lcolor.RGBToHSL(c), "hsv": lcolor.RGBToHSV(c)})
		}
	})
	lv := []int{0, 1, 50, 127, 128, 200, 254, 255}
	t.Par("forms", len(lv)*len(lv), func(b *vh.B, i int) {
		for _, g := range lv {
			for _, bl := range lv {
				for _, c := range forms(uint8(lv[i%len(lv)]), uint8(g), uint8(bl), uint8(lv[i/len(lv)])) {
					if !forward(b, c) {
						return
					}
					b.Eval(1, 1)
				}
			}
		}
	})
	sl := vh.Pick(t, values16(20, 0x7fff, 3, 100), values16(160, 0x7fff, 3, 100))
	t.Par("all-hues", 256, func(b *vh.B, hi int) {
		step := 1
		n := 0
		for lo := 0; lo < 256; lo++ {
			h := hi*256 + lo
			edge := h%10922 < 4 || h%10922 > 10918 || h%10923 < 4 || h > 0xfff0
			if h%step != 0 && !edge {
				continue
			}
			for _, s := range sl {
				for j, l := range sl {
					n++
					if !backward(b, uint16(h), s, l, sl[(j*5+lo)%len(sl)]) {
						return
					}
				}
			}
		}
		b.Eval(n, n)
	})
	av := values16(10)
	t.Par("alphas", len(av), func(b *vh.B, i int) {
		for _, h := range values16(12) {
			for _, s := range values16(4) {
				for _, l := range values16(4, 0x7fff) {
					if !backward(b, h, s, l, av[i]) {
						return
					}
					b.Eval(1, 1)
				}
			}
		}
	})
}
