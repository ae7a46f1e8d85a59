//go:build go1.22

package main

import (
	"fmt"
	"image"
	"image/color"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/zzverif/lim"
	"vimagination.zapto.org/limage/zzverif/vh"
)

var c06 = vh.Check{
	ID: "C06", Level: "exploration",
	Rule: "every crop rectangle of a window, and every sequence of up to three crops over a smaller set, applied to layered images and layers of every picture kind; each is compared at every point with the picture it was cut from; distinct by construction, non-trivial when the crop cuts something off and leaves something",
	Assume: []string{
		"dissolve mode is left out, its colours being random",
	},
	Run: runC06,
}

type base struct {
	name string
	m    limage.Image
	mut  []*image.NRGBA // pictures to change
}

func bases(quick bool) []base {
	var out []base
	r3 := image.Rect(0, 0, 3, 4)
	for i, k := range lim.Kinds() {
		for j, at := range []image.Point{{0, 0}, {-2, 1}} {
			out = append(out, base{name: fmt.Sprint(k.Name, at), m: limage.Image{
				{Name: "a", LayerBounds: r3.Add(at), Transparency: uint8(j * 90), Mode: limage.CompositeNormal, Image: k.Make(r3, i)},
			}})
		}
		// over another layer, with the picture larger than the bounds
		under := lim.NRGBAOf(image.Rect(0, 0, 5, 3), 5)
		over := lim.NRGBAOf(image.Rect(0, 0, 2, 2), 6)
		out = append(out, base{name: "over-" + k.Name, mut: []*image.NRGBA{under, over}, m: limage.Image{
			{Name: "t", LayerBounds: image.Rect(2, 1, 4, 3), Mode: limage.CompositeScreen, Image: over},
			{Name: "h", LayerBounds: image.Rect(0, 0, 4, 4), Invisible: true, Image: over},
			{Name: "k", LayerBounds: image.Rect(1, 0, 4, 3), Mode: limage.CompositeOverlay, Image: k.Make(image.Rect(-1, -1, 4, 5), i)},
			{Name: "u", LayerBounds: image.Rect(-1, 1, 4, 4), Transparency: 30, Image: under},
		}})
	}
	deep := lim.NRGBAOf(image.Rect(0, 0, 4, 4), 9)
	g := limage.Image{{Name: "deep", LayerBounds: image.Rect(1, 1, 4, 4), Image: deep}, {Name: "deep2", LayerBounds: image.Rect(-1, 0, 3, 3), Mode: limage.CompositeAddition, Image: deep}}
	gg := limage.Image{{Name: "g", LayerBounds: image.Rect(0, -1, 4, 3), Image: g}, {Name: "p", LayerBounds: image.Rect(-1, -1, 2, 2), Image: &g}}
	out = append(out, base{"nest", limage.Image{{Name: "gg", LayerBounds: image.Rect(-2, 0, 3, 4), Transparency: 20, Image: gg}, {Name: "m", LayerBounds: image.Rect(0, 0, 4, 4), Image: limage.MaskedImage{Image: &gg, Mask: lim.MaskOf(image.Rect(0, 0, 4, 3), 2)}}}, []*image.NRGBA{deep}})
	return out
}

// pairs are pictures in which the first layer, which decides how all are
// composed, covers only part of what the others do.
func pairs(quick bool) []base {
	var out []base
	kinds := lim.Kinds()
	for i, first := range kinds {
		for j, k := range kinds {
			if quick && i != j && i%3 != 0 && j%3 != 0 {
				if _, ok := lim.Model(first.Make(image.Rect(0, 0, 2, 2), i)).(color.Palette); !ok {
					continue
				}
			}
			for v, at := range []image.Rectangle{image.Rect(2, 1, 4, 3), image.Rect(-2, -1, 0, 1)} {
				g := limage.Image{
					{Name: "f", LayerBounds: at, Invisible: v == 1, Image: first.Make(image.Rect(0, 0, 2, 2), i)},
					{Name: "k", LayerBounds: image.Rect(-1, 0, 4, 4), Transparency: uint8(70 * v), Image: k.Make(image.Rect(0, 0, 5, 4), j)},
				}
				if v == 0 {
					g = append(g, limage.Layer{Name: "b", LayerBounds: image.Rect(0, 1, 5, 3), Mode: limage.CompositeMultiply, Image: lim.NRGBAOf(image.Rect(0, 0, 5, 2), i+j)})
				}
				out = append(out, base{name: fmt.Sprint(first.Name, "-then-", k.Name, v), m: g})
				if i%4 == 1 || j%4 == 1 {
					out = append(out, base{name: fmt.Sprint("group-of-", first.Name, "-then-", k.Name, v), m: limage.Image{
						{Name: "g", LayerBounds: image.Rect(-1, -1, 5, 4), Mode: limage.CompositeScreen, Transparency: 9, Image: g},
						{Name: "u", LayerBounds: image.Rect(-3, 0, 4, 5), Image: lim.NRGBAOf(image.Rect(0, 0, 7, 5), j)},
					}})
				}
			}
		}
	}
	return out
}

func snapshot(m image.Image, win image.Rectangle) string {
	s := lim.Describe(m)
	for y := win.Min.Y; y < win.Max.Y; y++ {
		for x := win.Min.X; x < win.Max.X; x++ {
			s += fmt.Sprint(m.At(x, y))
		}
	}
	return s
}

func runC06(t *vh.T) {
	win := image.Rect(-3, -2, 6, 6)
	area := image.Rect(-3, -2, 6, 6)
	bs := bases(t.Quick)
	single := lim.Rects(area, 1, false)
	single = append(single, image.Rect(2, 2, 2, 2), image.Rect(100, 100, 101, 101), image.Rectangle{Min: image.Pt(3, 3), Max: image.Pt(1, 1)}, image.Rect(-1<<40, -1<<40, 1<<40, 1<<40))
	check := func(b *vh.B, key string, orig limage.Image, cut image.Image, req, ob image.Rectangle, how func() string) bool {
		if cb := cut.Bounds(); !cb.Empty() && (!cb.In(req) || !cb.In(ob)) {
			b.Fail("bounds:"+key, "%s: bounds %v outside %v or %v", how(), cb, req, ob)
			return false
		}
		for y := win.Min.Y; y < win.Max.Y; y++ {
			for x := win.Min.X; x < win.Max.X; x++ {
				want := color.Color(color.Alpha{})
				if (image.Point{x, y}).In(req) {
					want = orig.At(x, y)
				}
				if got := cut.At(x, y); lim.Dist(got, want) > 1 {
					b.Fail("pixel:"+key, "%s: at (%d,%d) %v, the original has %v", how(), x, y, straight(got), straight(want))
					return false
				}
			}
		}
		nt := 0
		if cb := cut.Bounds(); !cb.Empty() && cb != ob {
			nt = 1
		}
		b.Eval(1, nt)
		return true
	}
	all := append(append([]base(nil), bs...), pairs(false)...)
	t.Par("one-crop", len(all), func(b *vh.B, i int) {
		bs := all
		m := bs[i].m
		before := snapshot(m, win)
		ob := union(m)
		for _, r := range single {
			if b.Stop() {
				return
			}
			if !check(b, "image", m, m.SubImage(r), r, ob, func() string { return fmt.Sprintf("%s %s cropped to %v", bs[i].name, lim.Describe(m), r) }) {
				return
			}
			for li, l := range m {
				sl := l.SubImageLayer(r)
				si := l.SubImage(r)
				if sl.Name != l.Name || sl.Mode != l.Mode || sl.Invisible != l.Invisible || sl.Transparency != l.Transparency {
					b.Fail("layer-props", "cropping layer %d of %s to %v changes its properties: %s", li, bs[i].name, r, lim.Describe(sl))
					return
				}
				q := r.Intersect(l.LayerBounds)
				if got := sl.Bounds(); got != q && !(got.Empty() && q.Empty()) {
					b.Fail("layer-bounds", "layer %d of %s cropped to %v: bounds %v, want %v", li, bs[i].name, r, got, q)
					return
				}
				if got := si.Bounds(); got != q && !(got.Empty() && q.Empty()) {
					b.Fail("layer-bounds", "layer %d of %s cropped to %v: bounds %v, want %v", li, bs[i].name, r, got, q)
					return
				}
				for y := q.Min.Y; y < q.Max.Y; y++ {
					for x := q.Min.X; x < q.Max.X; x++ {
						w := l.At(x, y)
						if lim.Dist(sl.At(x, y), w) > 1 || lim.Dist(si.At(x, y), w) > 1 {
							b.Fail("layer-pixel", "layer %d of %s %s cropped to %v: at (%d,%d) %v, the original has %v", li, bs[i].name, lim.Describe(l), r, x, y, straight(sl.At(x, y)), straight(w))
							return
						}
					}
				}
				b.Eval(1, 1)
			}
		}
		if snapshot(m, win) != before {
			b.Fail("original", "cropping changed the original %s", bs[i].name)
		}
		if i == 4 {
			t.Sample(map[string]any{"picture": lim.Describe(m), "crops": len(single)})
		}
	})
	few := lim.Rects(image.Rect(-3, -2, 6, 6), vh.Pick(t, 2, 1), false)
	few = append(few, image.Rect(1, 1, 3, 3), image.Rect(0, 1, 2, 4), image.Rect(2, 2, 2, 2))
	tiny := []image.Rectangle{image.Rect(-1, 0, 4, 4), image.Rect(1, 1, 5, 3), image.Rect(-3, 1, 2, 6), image.Rect(0, -2, 3, 3), image.Rect(2, 2, 4, 4), image.Rect(1, 2, 3, 5)}
	t.Par("crop-sequences", len(bs), func(b *vh.B, i int) {
		m := bs[i].m
		before := snapshot(m, win)
		ob := union(m)
		first := map[image.Rectangle]limage.Image{}
		for n, r1 := range few {
			b.Tick()
			if b.Stop() {
				return
			}
			c1 := m.SubImage(r1)
			g1, ok := c1.(limage.Image)
			if !ok {
				if li, ok := c1.(interface {
					SubImage(image.Rectangle) image.Image
				}); ok {
					for _, r2 := range few {
						if !check(b, "image2", m, li.SubImage(r2), r1.Intersect(r2), ob, func() string { return fmt.Sprintf("%s cropped to %v then %v", bs[i].name, r1, r2) }) {
							return
						}
					}
				}
				continue
			}
			first[r1] = g1
			s1 := ""
			if n%7 == 0 {
				s1 = snapshot(g1, win)
			}
			for _, r2 := range few {
				g2 := g1.SubImage(r2)
				if !check(b, "image2", m, g2, r1.Intersect(r2), ob, func() string {
					return fmt.Sprintf("%s %s cropped to %v then %v", bs[i].name, lim.Describe(m), r1, r2)
				}) {
					return
				}
			}
			if s1 != "" && snapshot(g1, win) != s1 {
				b.Fail("original2", "cropping a crop of %s to %v changed it", bs[i].name, r1)
				return
			}
		}
		for _, r1 := range tiny {
			for _, r2 := range tiny {
				for _, r3 := range tiny {
					c := image.Image(m)
					for _, r := range []image.Rectangle{r1, r2, r3} {
						s, ok := c.(interface {
							SubImage(image.Rectangle) image.Image
						})
						if !ok {
							c = nil
							break
						}
						c = s.SubImage(r)
					}
					if c != nil && !check(b, "image3", m, c, r1.Intersect(r2).Intersect(r3), ob, func() string { return fmt.Sprintf("%s cropped to %v, %v, %v", bs[i].name, r1, r2, r3) }) {
						return
					}
					for li, l := range m {
						q := l.SubImageLayer(r1).SubImageLayer(r2).SubImageLayer(r3)
						w := r1.Intersect(r2).Intersect(r3).Intersect(l.LayerBounds)
						for y := w.Min.Y; y < w.Max.Y; y++ {
							for x := w.Min.X; x < w.Max.X; x++ {
								if lim.Dist(q.At(x, y), l.At(x, y)) > 1 {
									b.Fail("layer-pixel3", "layer %d of %s cropped to %v, %v, %v differs at (%d,%d)", li, bs[i].name, r1, r2, r3, x, y)
									return
								}
							}
						}
						b.Eval(1, 1)
					}
				}
			}
		}
		if snapshot(m, win) != before {
			b.Fail("original", "cropping changed the original %s", bs[i].name)
			return
		}
		// Pixels are shared: changes below show through every crop.
		for mi, p := range bs[i].mut {
			for k := 0; k < p.Bounds().Dx()*p.Bounds().Dy(); k++ {
				p.SetNRGBA(p.Rect.Min.X+k%p.Rect.Dx(), p.Rect.Min.Y+k/p.Rect.Dx(), color.NRGBA{uint8(k * 16), uint8(200 - k), uint8(mi * 90), 220})
				if k%3 == 0 {
					for r1, g1 := range first {
						if !check(b, "shared", m, g1, r1, ob, func() string { return fmt.Sprintf("%s cropped to %v, then picture %d changed", bs[i].name, r1, mi) }) {
							return
						}
					}
				}
			}
		}
	})
	// Many layers, and large pictures cropped again and again.
	many := vh.Pick(t, []int{5, 17, 25, 33, 65, 129, 257}, []int{5, 9, 16, 17, 24, 25, 32, 33, 64, 65, 128, 129, 256, 257, 1025})
	t.Par("many-layers", len(many)*2, func(b *vh.B, i int) {
		n := many[i/2]
		var m limage.Image
		kinds := lim.Kinds()
		for k := 0; k < n; k++ {
			r := image.Rect(0, 0, 2, 2)
			l := limage.Layer{LayerBounds: r.Add(image.Pt(k%7-2, k/7%6-2)), Transparency: uint8(k % 7), Image: lim.NRGBAOf(r, k)}
			if i%2 == 1 {
				l.Image = kinds[k%len(kinds)].Make(r, k)
			}
			m = append(m, l)
		}
		ob := union(m)
		for _, r := range append(tiny, few[len(few)/2], few[len(few)/3]) {
			c := m.SubImage(r)
			if !check(b, "many", m, c, r, ob, func() string { return fmt.Sprintf("%d layers cropped to %v", n, r) }) {
				return
			}
			g, ok := c.(limage.Image)
			if !ok {
				continue
			}
			for li, l := range m {
				if li < len(g) && len(g) == len(m) {
					if q := l.LayerBounds.Intersect(r); g[li].Bounds() != q && !(q.Empty() && g[li].Bounds().Empty()) {
						b.Fail("many-bounds", "%d layers cropped to %v: layer %d has bounds %v, want %v", n, r, li, g[li].Bounds(), q)
						return
					}
				}
			}
			for _, r2 := range tiny {
				if !check(b, "many2", m, g.SubImage(r2), r.Intersect(r2), ob, func() string { return fmt.Sprintf("%d layers cropped to %v, then %v", n, r, r2) }) {
					return
				}
			}
		}
	})
	big := lim.Kinds()
	t.Par("large-pictures", len(big)*2, func(b *vh.B, i int) {
		at := []image.Point{{0, 0}, {-130, 70}}[i%2]
		r := image.Rect(0, 0, 310, 70)
		if i/2%2 == 1 {
			r = image.Rect(0, 0, 70, 310)
		}
		m := limage.Image{{LayerBounds: r.Add(at), Image: big[i/2].Make(r, i)}}
		axis := func(n int) []int { return []int{0, 1, 33, 63, 64, 65, n / 2, n - 1} }
		cuts := []image.Rectangle{image.Rect(1, 1, r.Dx(), r.Dy()), image.Rect(64, 3, r.Dx(), r.Dy()), image.Rect(5, 65, r.Dx(), r.Dy()), image.Rect(66, 67, r.Dx()-1, r.Dy()-1), image.Rect(r.Dx()-4, r.Dy()-4, r.Dx(), r.Dy()), image.Rect(r.Dx()*5/6, 2, r.Dx(), r.Dy()), image.Rect(2, r.Dy()*5/6, r.Dx(), r.Dy())}
		for _, c1 := range cuts {
			for _, c2 := range cuts {
				for _, c3 := range append(cuts, r) {
					b.Tick()
					r1, r2, r3 := c1.Add(at), c2.Add(at), c3.Add(at)
					q := r1.Intersect(r2).Intersect(r3)
					l := m[0].SubImageLayer(r1).SubImageLayer(r2).SubImageLayer(r3)
					var si image.Image = m
					for _, r := range []image.Rectangle{r1, r2, r3} {
						s, ok := si.(interface {
							SubImage(image.Rectangle) image.Image
						})
						if !ok {
							si = nil
							break
						}
						si = s.SubImage(r)
					}
					if got := l.Bounds(); got != q && !(got.Empty() && q.Empty()) {
						b.Fail("large-bounds", "%s cropped to %v, %v, %v: bounds %v", big[i/2].Name, r1, r2, r3, got)
						return
					}
					for _, y := range axis(q.Dy()) {
						for _, x := range axis(q.Dx()) {
							p := q.Min.Add(image.Pt(x, y))
							if !p.In(q) {
								continue
							}
							w := m.At(p.X, p.Y)
							if lim.Dist(l.At(p.X, p.Y), m[0].At(p.X, p.Y)) > 1 || si != nil && lim.Dist(si.At(p.X, p.Y), w) > 1 {
								b.Fail("large-pixel", "%s of %v cropped to %v, %v, %v: differs at %v", big[i/2].Name, r.Add(at), r1, r2, r3, p)
								return
							}
						}
					}
					b.Eval(1, 1)
				}
			}
		}
	})
}
