//go:build go1.22

package main

import (
	"image"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/zzverif/vh"
)

var c04 = vh.Check{
	ID: "C04", Level: "exploration",
	Rule:   "every assignment of alphas from {0,254,255} (or {0..255 in one pixel}) to images of up to 3x3 pixels, and every sub-image and sub-image of a sub-image of each, compared with the definition; distinct by construction, non-trivial when the image has both opaque and non-opaque pixels",
	Assume: []string{"the answer of an empty image is true, as in the standard library"},
	Run:    runC04,
}

func runC04(t *vh.T) {
	type shape struct{ r image.Rectangle }
	shapes := []image.Rectangle{image.Rect(0, 0, 1, 1), image.Rect(-1, -1, 1, 1), image.Rect(2, -5, 5, -4), image.Rect(-9, 3, -8, 6), image.Rect(0, 0, 3, 2), image.Rect(-2, 1, 0, 4)}
	shapes = append(shapes, image.Rect(-1, -1, 2, 2), image.Rect(0, 0, 4, 2))
	if !t.Quick {
		shapes = append(shapes, image.Rect(-5, -1, 0, 1), image.Rect(0, 3, 2, 8))
	}
	alphas := []uint8{255, 254, 0}
	t.Par("all-alphas", len(shapes)*2*3, func(b *vh.B, i int) {
		r := shapes[i/6]
		kind := i / 3 % 2
		n := r.Dx() * r.Dy()
		total := 1
		for j := 0; j < n; j++ {
			total *= 3
		}
		g := limage.NewGrayAlpha(r)
		p := limage.NewPalettedAlpha(r, testPal)
		var root image.Image = g
		if kind == 1 {
			root = p
		}
		type v2 struct {
			m image.Image
			r image.Rectangle
		}
		views := []v2{{root, r}}
		for _, q := range rects(r.Inset(-1)) {
			s := sub(root, q)
			views = append(views, v2{s, q.Intersect(r)})
			for _, q2 := range rects(r) {
				{
					views = append(views, v2{sub(s, q2), q2.Intersect(q).Intersect(r)})
				}
			}
		}
		// dedupe views by rectangle and emptiness, keeping up to three of each
		cnt := map[image.Rectangle]int{}
		var vs []v2
		for _, v := range views {
			if cnt[v.r]++; cnt[v.r] <= 3 {
				vs = append(vs, v)
			}
		}
		for code := i % 3; code < total; code += 3 {
			c := code
			al := make([]uint8, n)
			mixed := 0
			for j := range al {
				al[j] = alphas[c%3]
				c /= 3
				x, y := r.Min.X+j%r.Dx(), r.Min.Y+j/r.Dx()
				if kind == 0 {
					g.SetGrayAlpha(x, y, lcolor.GrayAlpha{Y: uint8(j), A: al[j]})
				} else {
					p.SetIndexAlpha(x, y, lcolor.IndexedAlpha{I: uint8(j % 3), A: al[j]})
				}
				if al[j] != al[0] {
					mixed = 1
				}
			}
			for _, v := range vs {
				want := true
				for y := v.r.Min.Y; y < v.r.Max.Y; y++ {
					for x := v.r.Min.X; x < v.r.Max.X; x++ {
						want = want && al[(y-r.Min.Y)*r.Dx()+x-r.Min.X] == 255
					}
				}
				if got := v.m.(interface{ Opaque() bool }).Opaque(); got != want {
					k := "opaque:GrayAlpha"
					if kind == 1 {
						k = "opaque:PalettedAlpha"
					}
					b.Fail(k, "%T %v with alphas %v: view %v reports opaque %v", root, r, al, v.r, got)
					return
				}
				b.Eval(1, mixed)
			}
		}
		if i == 8 {
			t.Sample(map[string]any{"bounds": r.String(), "views": len(vs), "assignments": total})
		}
	})
	t.Par("one-pixel", 256, func(b *vh.B, a int) {
		for k := 0; k < 12; k++ {
			g := limage.NewGrayAlpha(image.Rect(-2, -1, 2, 2))
			p := limage.NewPalettedAlpha(image.Rect(-2, -1, 2, 2), testPal)
			for j := range g.Pix {
				g.Pix[j] = lcolor.GrayAlpha{Y: uint8(a), A: 255}
				p.Pix[j].A = 255
			}
			g.Pix[k].A = uint8(a)
			p.Pix[k].A = uint8(a)
			if g.Opaque() != (a == 255) {
				b.Fail("opaque:GrayAlpha", "pixel %d alpha %d", k, a)
			}
			if p.Opaque() != (a == 255) {
				b.Fail("opaque:PalettedAlpha", "pixel %d alpha %d", k, a)
			}
			b.Eval(2, 2)
		}
	})
	// One pixel anywhere in a large image.
	t.Par("large-images", 2*len(largeShapes), func(b *vh.B, i int) {
		r := largeShapes[i/2]
		g := limage.NewGrayAlpha(r)
		p := limage.NewPalettedAlpha(r, testPal)
		root := image.Image(g)
		if i%2 == 1 {
			root = p
		}
		set := func(k int, a uint8) {
			if i%2 == 0 {
				g.Pix[k].A = a
			} else {
				p.Pix[k].A = a
			}
		}
		for k := 0; k < r.Dx()*r.Dy(); k++ {
			set(k, 255)
		}
		views := []view{{root, r, "image"}}
		for k := 0; k < 6; k++ {
			q := r
			switch d := r.Size().Div(3); k {
			case 0:
				q.Min.X += d.X
			case 1:
				q.Max.X -= d.X
			case 2:
				q.Min.Y += d.Y
			case 3:
				q.Max.Y -= d.Y
			case 4:
				q = image.Rectangle{Min: r.Min.Add(d), Max: r.Max.Sub(d)}
			case 5:
				q.Max = q.Min.Add(image.Pt(min(r.Dx(), 257), min(r.Dy(), 257)))
			}
			views = append(views, view{sub(root, q), q, "part"})
		}
		for _, y := range marks(r.Dy()) {
			for _, x := range marks(r.Dx()) {
				q := r.Min.Add(image.Pt(x, y))
				set(y*r.Dx()+x, uint8(x%255))
				for _, v := range views {
					if got, want := v.m.(interface{ Opaque() bool }).Opaque(), !q.In(v.r); got != want {
						b.Fail([]string{"opaque:GrayAlpha", "opaque:PalettedAlpha"}[i%2], "%T %v with all opaque but %v: view %v reports opaque %v", root, r, q, v.r, got)
						return
					}
				}
				b.Eval(1, 1)
				set(y*r.Dx()+x, 255)
			}
			b.Tick()
		}
	})
	t.Par("rgb", 1, func(b *vh.B, _ int) {
		m := limage.NewRGB(image.Rect(-1, -1, 2, 2))
		for _, q := range rects(image.Rect(-2, -2, 3, 3)) {
			if !m.Opaque() || !sub(m, q).(interface{ Opaque() bool }).Opaque() {
				b.Fail("opaque:RGB", "an RGB image reports that it is not opaque")
				return
			}
			b.Eval(1, 1)
		}
	})
}
