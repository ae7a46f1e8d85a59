//go:build go1.22

// Command dissolve checks the dissolve mode over an enumerated random source.
package main

import (
	"image"
	"image/color"
	"math"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/zzverif/lim"
	"vimagination.zapto.org/limage/zzverif/venum"
	"vimagination.zapto.org/limage/zzverif/vh"
)

var c10 = vh.Check{
	ID: "C10", Level: "exploration",
	Rule: "the random source behind the library is replaced by one the check enumerates; for every pair of alphas of a grid (every 8-bit alpha of the top, extremes and 16-bit values) all draws of an equidistributed enumeration, and the smallest and largest draws, are given to the real composition; distinct by construction, non-trivial when the top is translucent",
	Assume: []string{
		"the random numbers come from math/rand or math/rand/v2 package functions (otherwise free draws are sampled, and the run says it is not exhaustive)",
		"proportions may differ from the top's alpha by 1/500",
	},
	Run: runC10,
}

func main() { vh.Main(c10) }

const golden = 0x9e3779b97f4a7c15

func runC10(t *vh.T) {
	// Does the library draw from the enumerated source at all?
	venum.Draws = 0
	for i := 0; i < 64; i++ {
		venum.Next = func() uint64 { return uint64(i) * golden }
		limage.CompositeDissolve.Composite(color.NRGBA{1, 2, 3, 255}, color.NRGBA{4, 5, 6, 128})
	}
	enumerated := venum.Draws > 0
	if !enumerated {
		t.Truncated()
	}
	n := vh.Pick(t, 1<<15, 1<<18)
	tol := 0.002
	if !enumerated {
		n = 1 << 18
		tol = 0.01
	}
	var alphas []uint16
	for i := 0; i < 256; i++ {
		alphas = append(alphas, uint16(i*257))
	}
	for _, a := range []int{1, 2, 0x100, 0x7ffe, 0x8000, 0xfffd, 0xfffe} {
		alphas = append(alphas, uint16(a))
	}
	bots := []uint16{0, 1, 0x8080, 0xffff}
	rgb := [][3]uint16{{0, 0, 0}, {0xffff, 0x1234, 0x8000}, {0x0101, 0xfefe, 0x7777}}
	outcome := func(b *vh.B, bot, top color.NRGBA64) (shown, ok bool) {
		c := limage.CompositeDissolve.Composite(bot, top)
		o := top
		o.A = 0xffff
		isTop, isBot := lim.Dist(c, o) == 0, lim.Dist(c, bot) == 0
		if !isTop && !isBot {
			b.Fail("mixture", "Dissolve of %v and %v is %v, neither the bottom nor the opaque top", bot, top, c)
			return false, false
		}
		if isTop && isBot {
			return top.A == 0xffff, true
		}
		return isTop, true
	}
	t.Seq("proportion", len(alphas)*len(bots), func(b *vh.B, i int) {
		a, ba := alphas[i/len(bots)], bots[i%len(bots)]
		bot := color.NRGBA64{rgb[1][0], rgb[1][1], rgb[1][2], ba}
		top := color.NRGBA64{rgb[2][0], rgb[2][1], rgb[2][2], a}
		count := 0
		var x uint64
		venum.Next = func() uint64 { x += golden; return x }
		for j := 0; j < n; j++ {
			s, ok := outcome(b, bot, top)
			if !ok {
				return
			}
			if s {
				count++
			}
		}
		p, w := float64(count)/float64(n), float64(a)/65535
		if math.Abs(p-w) > tol || a == 0 && count > 0 || a == 0xffff && count < n {
			b.Fail("proportion", "a top of alpha %#x over a bottom of alpha %#x is shown in %d of %d draws, want a proportion of %.5f", a, ba, count, n, w)
			return
		}
		nt := 0
		if a != 0 && a != 0xffff {
			nt = n
		}
		b.Eval(n, nt)
		if i == 400 {
			t.Sample(map[string]any{"top_alpha": a, "bottom_alpha": ba, "draws": n, "shown": count})
		}
	})
	// The extremes must hold for every draw, also the smallest and largest.
	ext := []uint64{}
	for i := uint64(0); i < 4096; i++ {
		ext = append(ext, i, i<<32, i<<11, i<<48, ^i, ^(i << 32), ^(i << 11), ^(i << 48))
	}
	if enumerated {
		for i := uint64(0); i <= 0x10001; i++ {
			ext = append(ext, i<<33, i<<32|0xffffffff, i<<47)
		}
	}
	t.Seq("extremes", len(rgb)*len(rgb), func(b *vh.B, i int) {
		for _, ba := range bots {
			for _, a := range []uint16{0, 0xffff} {
				bot := color.NRGBA64{rgb[i%3][0], rgb[i%3][1], rgb[i%3][2], ba}
				top := color.NRGBA64{rgb[i/3][0], rgb[i/3][1], rgb[i/3][2], a}
				for _, e := range ext {
					first := true
					y := e
					venum.Next = func() uint64 {
						if !first {
							y += golden // a rejected draw is followed by others
						}
						first = false
						return y
					}
					c := limage.CompositeDissolve.Composite(bot, top)
					want := bot
					if a == 0xffff {
						want = top
					}
					if lim.Dist(c, want) != 0 {
						b.Fail("extreme", "with the draw %#x, a top of alpha %#x over %v gives %v", e, a, bot, c)
						return
					}
				}
				b.Eval(len(ext), 0)
			}
		}
	})
	// Through a layer: its opacity scales the alpha.
	t.Seq("layers", 256, func(b *vh.B, tr int) {
		top := color.NRGBA{9, 200, 7, 255}
		under := color.NRGBA{77, 0, 255, 255}
		g := limage.Image{
			{LayerBounds: image.Rect(0, 0, 1, 1), Mode: limage.CompositeDissolve, Transparency: uint8(tr), Image: image.NewUniform(top)},
			{LayerBounds: image.Rect(0, 0, 1, 1), Image: image.NewUniform(under)},
		}
		var x uint64
		venum.Next = func() uint64 { x += golden; return x }
		count := 0
		m := n / 4
		for j := 0; j < m; j++ {
			c := g.At(0, 0)
			switch {
			case lim.Dist(c, top) == 0:
				count++
			case lim.Dist(c, under) != 0:
				b.Fail("layer-mixture", "a dissolved layer of opacity %d shows %v", 255-tr, c)
				return
			}
		}
		if math.Abs(float64(count)/float64(m)-float64(255-tr)/255) > tol*2 {
			b.Fail("layer-proportion", "a dissolved layer of opacity %d is shown in %d of %d draws", 255-tr, count, m)
			return
		}
		b.Eval(m, m)
	})
}
