//go:build go1.22

package main

import (
	"image/color"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/zzverif/vh"
)

var c07 = vh.Check{
	ID: "C07", Level: "exploration",
	Rule: "every pair of colours from a grid of component and alpha values including all extremes, in every blend mode (and values that name no mode), against the alpha laws; channel independence is checked against a table of the mode computed on grey pairs; pairs are distinct by construction, non-trivial when both are not fully transparent",
	Assume: []string{
		"colours are compared premultiplied, with a tolerance of 6/65535",
	},
	Run: runC07,
}

var formulaModes = []limage.Composite{
	limage.CompositeMultiply, limage.CompositeScreen, limage.CompositeOverlay, limage.CompositeDifference,
	limage.CompositeAddition, limage.CompositeSubtract, limage.CompositeDarkenOnly, limage.CompositeLightenOnly,
	limage.CompositeDivide, limage.CompositeDodge, limage.CompositeBurn, limage.CompositeHardLight,
	limage.CompositeSoftLight, limage.CompositeGrainExtract, limage.CompositeGrainMerge,
}

var hsvModes = []limage.Composite{limage.CompositeHue, limage.CompositeSaturation, limage.CompositeColor, limage.CompositeValue, limage.CompositeLuminosity}

func inModes(c limage.Composite, l []limage.Composite) bool {
	for _, m := range l {
		if m == c {
			return true
		}
	}
	return false
}

func noFormula(c limage.Composite) bool { return c >= limage.CompositeColorErase }

func porterDuff(c limage.Composite) bool {
	return c >= limage.CompositePlus && c <= limage.CompositeDestinationAtop
}

func runC07(t *vh.T) {
	vals := vh.Pick(t, []uint16{0, 1, 0x1234, 0x7fff, 0x8000, 0xfffe, 0xffff}, []uint16{0, 1, 2, 0xff, 0x1234, 0x7ffe, 0x7fff, 0x8000, 0xc0de, 0xfffe, 0xffff})
	alphas := vh.Pick(t, []uint16{0, 1, 0x0101, 0x7fff, 0x8080, 0xfffe, 0xffff}, []uint16{0, 1, 2, 0x0101, 0x4000, 0x7fff, 0x8080, 0xfefe, 0xfffe, 0xffff})
	modes := allModes()
	nv, na := len(vals), len(alphas)
	nt := nv * na // greys with alpha of the top
	// Channel tables on grey pairs, each a stage block; and the laws on all pairs.
	t.Par("laws", len(modes)*nv, func(b *vh.B, i int) {
		mode, r1 := modes[i/nv], vals[i%nv]
		sep := inModes(mode, formulaModes)
		var table []color.NRGBA64 // [v1][a1][v2][a2]
		if sep || mode == limage.CompositeNormal || noFormula(mode) {
			table = make([]color.NRGBA64, nt*nt)
			for j := 0; j < nt; j++ {
				for k := 0; k < nt; k++ {
					v1, a1, v2, a2 := vals[j/na], alphas[j%na], vals[k/na], alphas[k%na]
					table[j*nt+k] = straight(mode.Composite(color.NRGBA64{v1, v1, v1, a1}, color.NRGBA64{v2, v2, v2, a2}))
				}
			}
		}
		normal := mode == limage.CompositeNormal || noFormula(mode)
		n := 0
		for gi, g1 := range vals {
			if b.Stop() {
				return
			}
			for bi, b1 := range vals {
				for ai, a1 := range alphas {
					bot := color.NRGBA64{r1, g1, b1, a1}
					pb := premul(bot)
					for r2i, r2 := range vals {
						for g2i, g2 := range vals {
							// every pair of red and of green values, blue by a covering pattern
							for _, b2i := range [2]int{(r2i + g2i + bi) % nv, (r2i*3 + g2i*2 + gi) % nv} {
								for a2i, a2 := range alphas {
									top := color.NRGBA64{r2, g2, vals[b2i], a2}
									c := mode.Composite(bot, top)
									n++
									p := rgba(c)
									if !valid(p) {
										b.Fail("valid", "%v.Composite(%v, %v) = %v is not a valid colour", mode, bot, top, c)
										return
									}
									s := straight(c)
									if s.A != uint16(p[3]) {
										b.Fail("valid", "%v.Composite(%v, %v): alpha %v and %v", mode, bot, top, s, p)
										return
									}
									if a2 == 0 && !porterDuff(mode) && !near4(p, pb, 6) {
										b.Fail("transparent-top", "mode %d %v.Composite(%v, %v) = %v: a transparent top changed the bottom", uint32(mode), mode, bot, top, c)
										return
									}
									if normal {
										w := float64(a1) + float64(a2) - float64(a1)*float64(a2)/65535
										if absf(float64(p[3])-w) > 1.5 {
											b.Fail("normal-alpha", "mode %d Composite(%v, %v): alpha %d, want %.1f", uint32(mode), bot, top, p[3], w)
											return
										}
										pt := premul(top)
										for k := 0; k < 3; k++ {
											w := float64(pt[k]) + float64(pb[k])*(1-float64(a2)/65535)
											if absf(float64(p[k])-w) > 6 {
												b.Fail("source-over", "mode %d Composite(%v, %v) = %v: component %d is %d, want %.1f", uint32(mode), bot, top, c, k, p[k], w)
												return
											}
										}
									}
									if (sep || inModes(mode, hsvModes)) && (s.A != a1 || a1 == 0 && p != [4]uint32{}) {
										b.Fail("keeps-alpha", "%v.Composite(%v, %v) = %v does not keep the bottom's alpha", mode, bot, top, c)
										return
									}
									if sep && a1 != 0 {
										k1, k2 := ai, a2i
										r := table[((i%nv)*na+k1)*nt+r2i*na+k2].R
										g := table[(gi*na+k1)*nt+g2i*na+k2].G
										bl := table[(bi*na+k1)*nt+b2i*na+k2].B
										if s.R != r || s.G != g || s.B != bl {
											b.Fail("channels", "%v.Composite(%v, %v) = %v, but the channels on their own give %d %d %d", mode, bot, top, s, r, g, bl)
											return
										}
									}
								}
							}
						}
					}
				}
			}
		}
		b.Eval(n, n-n/len(alphas))
		if i == 20 {
			t.Sample(map[string]any{"mode": mode.String(), "bottom_red": r1, "pairs": n, "values": vals, "alphas": alphas})
		}
	})
	// A transparent top over every alpha, and every alpha over a transparent bottom.
	t.Par("every-alpha", len(modes)*16, func(b *vh.B, i int) {
		mode := modes[i/16]
		if porterDuff(mode) {
			return
		}
		top := color.NRGBA64{0x9000, 0xffff, 1, 0}
		for a := i % 16 << 12; a < (i%16+1)<<12; a++ {
			for _, bot := range [2]color.NRGBA64{{0xffff, 0x4001, 0, uint16(a)}, {0x7fff, 0x7fff, 0x7fff, uint16(a)}} {
				if c := mode.Composite(bot, top); !near4(rgba(c), premul(bot), 1+a*6/0xffff) || rgba(c)[3] != uint32(a) {
					b.Fail("transparent-top", "mode %d %v.Composite(%v, %v) = %v: a transparent top changed the bottom", uint32(mode), mode, bot, top, c)
					return
				}
			}
			if !(inModes(mode, formulaModes) || inModes(mode, hsvModes)) {
				continue
			}
			bot, over := color.NRGBA64{0x1111, 0xffff, 5, 0}, color.NRGBA64{0xffff, 0x4001, 0, uint16(a)}
			if c := mode.Composite(bot, over); rgba(c) != [4]uint32{} {
				b.Fail("keeps-alpha", "%v.Composite(%v, %v) = %v does not keep the bottom's alpha", mode, bot, over, c)
				return
			}
			if bot.A = 0x8000; straight(mode.Composite(bot, over)).A != 0x8000 {
				b.Fail("keeps-alpha", "%v.Composite(%v, %v) = %v does not keep the bottom's alpha", mode, bot, over, mode.Composite(bot, over))
				return
			}
		}
		b.Eval(2<<12, 2<<12)
	})
	// The same colour in any representation composes the same.
	lv := []uint8{0, 1, 127, 200, 255}
	t.Par("representations", len(modes), func(b *vh.B, i int) {
		mode := modes[i]
		if mode == limage.CompositeDissolve {
			return
		}
		for _, v := range lv {
			for _, a := range lv {
				for _, c1 := range forms(v, 255-v, v/2, a) {
					for _, c2 := range forms(255-v, v, 9, 255-a/2) {
						x, y := mode.Composite(c1, c2), mode.Composite(straight(c1), straight(c2))
						b.Eval(1, 1)
						if !near4(rgba(x), rgba(y), 1) {
							b.Fail("representation", "%v.Composite(%T%v, %T%v) = %v, straight colours give %v", mode, c1, c1, c2, c2, x, y)
							return
						}
					}
				}
			}
		}
	})
	// The alpha of Normal for every pair of 8-bit alphas, and a dense 16-bit grid.
	t.Par("normal-alphas", 256, func(b *vh.B, a1 int) {
		as := values16(vh.Pick(t, 200, 3000), 0x7fff)
		for j := 0; j < 256; j++ {
			as = append(as, uint16(j*257))
		}
		for _, base := range []uint16{uint16(a1 * 257), uint16(a1*257 ^ 0x35)} {
			for _, a2 := range as {
				bot, top := color.NRGBA64{0x8000, 0xffff, 3, base}, color.NRGBA64{0x10, 0x7000, 0xffff, a2}
				c := rgba(limage.CompositeNormal.Composite(bot, top))
				w := float64(base) + float64(a2) - float64(base)*float64(a2)/65535
				b.Eval(1, 1)
				if absf(float64(c[3])-w) > 1.5 || !valid(c) {
					b.Fail("normal-alpha", "Normal over %v of %v: alpha %d, want %.1f", bot, top, c[3], w)
					return
				}
			}
		}
	})
}
