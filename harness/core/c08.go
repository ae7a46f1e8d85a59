//go:build go1.22

package main

import (
	"image/color"
	"math"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/zzverif/vh"
)

var c08 = vh.Check{
	ID: "C08", Level: "exploration",
	Rule: "every 16-bit value of the bottom channel against a dense grid of values of the top including all extremes (thorough: every pair of 16-bit values), three pairs to a composition, in every channel-formula mode, against the real-valued formula; and every pair of alphas of a grid; distinct by construction",
	Assume: []string{
		"opaque results may differ by 3/65535 from the real formula, mixed ones by 4/65535 plus the relative rounding of the 16-bit mixing ratio",
	},
	Run: runC08,
}

// formula is the GIMP formula on [0,1], clamped.
func formula(m limage.Composite, x, y float64) float64 {
	var v float64
	switch m {
	case limage.CompositeMultiply:
		v = x * y
	case limage.CompositeScreen:
		v = 1 - (1-x)*(1-y)
	case limage.CompositeOverlay, limage.CompositeSoftLight:
		v = (1-y)*x*x + y*(1-(1-x)*(1-x))
	case limage.CompositeDifference:
		v = math.Abs(x - y)
	case limage.CompositeAddition:
		v = x + y
	case limage.CompositeSubtract:
		v = x - y
	case limage.CompositeDarkenOnly:
		v = math.Min(x, y)
	case limage.CompositeLightenOnly:
		v = math.Max(x, y)
	case limage.CompositeDivide:
		if y == 0 {
			if x == 0 {
				return 0
			}
			return 1
		}
		v = x / y
	case limage.CompositeDodge:
		if y == 1 {
			if x == 0 {
				return 0
			}
			return 1
		}
		v = x / (1 - y)
	case limage.CompositeBurn:
		if y == 0 {
			if x == 1 {
				return 1
			}
			return 0
		}
		v = 1 - (1-x)/y
	case limage.CompositeHardLight:
		if y <= 0.5 {
			v = 2 * x * y
		} else {
			v = 1 - 2*(1-x)*(1-y)
		}
	case limage.CompositeGrainExtract:
		v = x - y + 0.5
	case limage.CompositeGrainMerge:
		v = x + y - 0.5
	}
	return math.Min(1, math.Max(0, v))
}

// mixRatio is min(a,b)/(a+b-ab), and the tolerance its rounding allows.
func mixRatio(a1, a2 uint16) (k, tol float64) {
	a, b := float64(a1)/65535, float64(a2)/65535
	m := math.Min(a, b)
	d := a + m - a*m
	return m / d, 4 + 1.5/d
}

func runC08(t *vh.T) {
	xs := values16(65536)
	ys := vh.Pick(t, values16(1800, 0x7fff, 0x5555, 0x8080, 0x101), xs)
	nb := 64
	t.Par("opaque", len(formulaModes)*nb, func(b *vh.B, i int) {
		mode, part := formulaModes[i/nb], i%nb
		n := 0
		var cx, cy [3]uint16
		k := 0
		flush := func() bool {
			c := straight(mode.Composite(color.NRGBA64{cx[0], cx[1], cx[2], 0xffff}, color.NRGBA64{cy[0], cy[1], cy[2], 0xffff}))
			if c.A != 0xffff {
				b.Fail("alpha:"+mode.String(), "%v of opaque colours has alpha %#x", mode, c.A)
				return false
			}
			for j, v := range [3]uint16{c.R, c.G, c.B} {
				if w := formula(mode, float64(cx[j])/65535, float64(cy[j])/65535) * 65535; absf(float64(v)-w) > 3 {
					b.Fail("formula:"+mode.String(), "%v of %#x and %#x is %#x, the formula gives %.2f (%#x)", mode, cx[j], cy[j], v, w, int(w))
					return false
				}
			}
			return true
		}
		for xi := part; xi < len(xs); xi += nb {
			if b.Stop() {
				return
			}
			b.Tick()
			for _, y := range ys {
				cx[k], cy[k] = xs[xi], y
				n++
				if k++; k == 3 {
					k = 0
					if !flush() {
						return
					}
				}
			}
		}
		if !flush() {
			return
		}
		b.Eval(n, n)
		if part == 0 && i/nb < 4 {
			t.Sample(map[string]any{"mode": mode.String(), "x": xs[9], "y": ys[11], "want": formula(mode, float64(xs[9])/65535, float64(ys[11])/65535) * 65535})
		}
	})
	vs := vh.Pick(t, []uint16{0, 1, 0x2000, 0x7fff, 0x8000, 0xb333, 0xfffe, 0xffff}, []uint16{0, 1, 2, 0x100, 0x2000, 0x5555, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xb333, 0xe000, 0xfffe, 0xffff})
	as := vh.Pick(t, values16(18, 0x101, 0x8080), values16(70, 0x101, 0x8080, 0x4040))
	t.Par("translucent", len(formulaModes)*len(as), func(b *vh.B, i int) {
		mode, a1 := formulaModes[i/len(as)], as[i%len(as)]
		if a1 == 0 {
			return
		}
		for _, a2 := range as {
			k, tol := mixRatio(a1, a2)
			for xi, x := range vs {
				for yi, y := range vs {
					bot := color.NRGBA64{x, vs[(xi+3)%len(vs)], vs[(xi+5)%len(vs)], a1}
					top := color.NRGBA64{y, vs[(yi+1)%len(vs)], vs[(yi+2)%len(vs)], a2}
					c := straight(mode.Composite(bot, top))
					b.Eval(1, 1)
					for j, v := range [3]uint16{c.R, c.G, c.B} {
						bx, ty := [3]uint16{bot.R, bot.G, bot.B}[j], [3]uint16{top.R, top.G, top.B}[j]
						w := (1-k)*float64(bx) + k*formula(mode, float64(bx)/65535, float64(ty)/65535)*65535
						if absf(float64(v)-w) > tol {
							b.Fail("mix:"+mode.String(), "%v of %v and %v: channel %d is %d, want %.1f", mode, bot, top, j, v, w)
							return
						}
					}
				}
			}
		}
	})
}
