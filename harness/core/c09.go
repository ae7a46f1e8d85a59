//go:build go1.22

package main

import (
	"image/color"
	"math"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/zzverif/vh"
)

var c09 = vh.Check{
	ID: "C09", Level: "exploration",
	Rule: "every pair of colours from grids over all hue sectors, saturations and lightnesses (8- and 16-bit) in the five hue/saturation modes against a real-valued reference, opaque and with every pair of alphas of a grid; distinct by construction, non-trivial when the two colours differ",
	Assume: []string{
		"tolerance of 30/65535 on opaque results (quantised hue), plus the rounding of the mixing ratio on translucent ones",
		"the hue of a grey is red or none: for a grey bottom in saturation mode both are accepted",
	},
	Run: runC09,
}

type fhs struct {
	h, sv, v, sl, l float64
	col             bool
}

func toF(c color.NRGBA64) fhs {
	r, g, b := float64(c.R)/65535, float64(c.G)/65535, float64(c.B)/65535
	mx, mn := math.Max(r, math.Max(g, b)), math.Min(r, math.Min(g, b))
	var f fhs
	f.h, f.col = refHue(r, g, b)
	f.v, f.l = mx, (mx+mn)/2
	if f.col {
		f.sv = (mx - mn) / mx
		f.sl = (mx - mn) / (1 - math.Abs(mx+mn-1))
	}
	return f
}

// refHS gives the accepted results of the mode for opaque colours.
func refHS(m limage.Composite, bot, top color.NRGBA64) [][3]float64 {
	a, t := toF(bot), toF(top)
	self := [3]float64{float64(bot.R) / 65535, float64(bot.G) / 65535, float64(bot.B) / 65535}
	switch m {
	case limage.CompositeHue:
		if !t.col {
			return [][3]float64{self}
		}
		return [][3]float64{refHSV(t.h, a.sv, a.v)}
	case limage.CompositeSaturation:
		r := [][3]float64{refHSV(a.h, t.sv, a.v)}
		if !a.col {
			r = append(r, self)
		}
		return r
	case limage.CompositeValue:
		return [][3]float64{refHSV(a.h, a.sv, t.v)}
	case limage.CompositeColor:
		return [][3]float64{refHSL(t.h, t.sl, a.l)}
	default:
		return [][3]float64{refHSL(a.h, a.sl, t.l)}
	}
}

func checkHS(b *vh.B, m limage.Composite, bot, top color.NRGBA64) bool {
	c := straight(m.Composite(bot, top))
	k, tol := 1.0, 30.0
	if bot.A != 0xffff || top.A != 0xffff {
		var t2 float64
		k, t2 = mixRatio(bot.A, top.A)
		tol += t2
	}
	for _, w := range refHS(m, bot, top) {
		ok := true
		for j, v := range [3]uint16{c.R, c.G, c.B} {
			x := float64([3]uint16{bot.R, bot.G, bot.B}[j])
			if absf(float64(v)-((1-k)*x+k*w[j]*65535)) > tol {
				ok = false
			}
		}
		if ok && c.A == bot.A {
			return true
		}
	}
	b.Fail("mode:"+m.String(), "%v of %v and %v is %v, want (mixed by %.4f) %v", m, bot, top, c, k, refHS(m, bot, top))
	return false
}

func runC09(t *vh.T) {
	var grid []color.NRGBA64
	ch := vh.Pick(t, []uint16{0, 1, 0x0101, 0x5555, 0x7fff, 0x8080, 0xc000, 0xfefe, 0xfffe, 0xffff}, []uint16{0, 2, 0x00fe, 0x1999, 0x4545, 0x9000, 0xbbbb, 0xd111, 0xf123, 1, 0x0101, 0x3000, 0x5555, 0x7fff, 0x8080, 0xaaaa, 0xc000, 0xe0e0, 0xfefe, 0xfffe, 0xffff})
	for _, r := range ch {
		for _, g := range ch {
			for _, bl := range ch {
				grid = append(grid, color.NRGBA64{r, g, bl, 0xffff})
			}
		}
	}
	t.Par("opaque", len(grid), func(b *vh.B, i int) {
		n := 0
		for j, top := range grid {
			for _, m := range hsvModes {
				if !checkHS(b, m, grid[i], top) {
					return
				}
			}
			if j != i {
				n += len(hsvModes)
			}
		}
		b.Eval(len(grid)*len(hsvModes), n)
		if i == 100 {
			t.Sample(map[string]any{"bottom": grid[i], "top": grid[77], "hue": refHS(limage.CompositeHue, grid[i], grid[77])})
		}
	})
	// every hue of the colour wheel against a set of colours
	others := []color.NRGBA64{{0, 0, 0, 0xffff}, {0xffff, 0xffff, 0xffff, 0xffff}, {0x8080, 0x8080, 0x8080, 0xffff}, {0xffff, 0x4000, 0x2000, 0xffff}, {0x1000, 0x2000, 0x9000, 0xffff}, {0xf000, 0xe800, 0xff00, 0xffff}}
	t.Par("wheel", 360, func(b *vh.B, d int) {
		for _, s := range []float64{1, 0.5, 0.02} {
			for _, v := range []float64{1, 0.6, 0.1} {
				f := refHSV(float64(d)/360, s, v)
				c := color.NRGBA64{uint16(f[0]*65535 + .5), uint16(f[1]*65535 + .5), uint16(f[2]*65535 + .5), 0xffff}
				for _, o := range others {
					for _, m := range hsvModes {
						if !checkHS(b, m, c, o) || !checkHS(b, m, o, c) {
							return
						}
						b.Eval(2, 2)
					}
				}
			}
		}
	})
	var few []color.NRGBA64
	for i := 0; i < len(grid); i += vh.Pick(t, 19, 53) {
		few = append(few, grid[i])
	}
	as := vh.Pick(t, values16(8, 0x8080, 0x101), values16(24, 0x8080, 0x101))
	t.Par("translucent", len(as)*len(few), func(b *vh.B, i int) {
		bot := few[i%len(few)]
		if bot.A = as[i/len(few)]; bot.A == 0 {
			return
		}
		for _, a2 := range as {
			for _, top := range few {
				top.A = a2
				for _, m := range hsvModes {
					if !checkHS(b, m, bot, top) {
						return
					}
					b.Eval(1, 1)
				}
			}
		}
	})
}
