//go:build go1.22

package main

import (
	"image"
	"image/color"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/zzverif/lim"
	"vimagination.zapto.org/limage/zzverif/vh"
)

var c05 = vh.Check{
	ID: "C05", Level: "exploration",
	Rule: "every layered picture of one to three layers over the stated alphabets of picture kinds, blend modes, opacities, visibility and bounds, at every point of a window around it, compared with the definition of rendering as a fold; pictures are distinct by construction; a picture is non-trivial when some point of it is not transparent",
	Assume: []string{
		"the pairwise composition itself is decided by C07-C10: the fold uses the implementation's",
		"premultiplied components are compared with a tolerance of 16/65535",
		"in dissolve mode the colour must be one of the possible outcomes",
	},
	Run: runC05,
}

// renders compares an image with its definition over the window.
func renders(b *vh.B, m image.Image, win image.Rectangle) (ok, nontrivial bool) {
	for y := win.Min.Y; y < win.Max.Y; y++ {
		for x := win.Min.X; x < win.Max.X; x++ {
			want := lim.At(m, x, y)
			got := m.At(x, y)
			if !lim.Among(got, want, 16) {
				b.Fail("render", "%s at (%d,%d) is %v, want one of %v", lim.Describe(m), x, y, straight(got), want)
				return false, true
			}
			nontrivial = nontrivial || want[0].A > 0
		}
	}
	return true, nontrivial
}

func union(g limage.Image) image.Rectangle {
	var r image.Rectangle
	for _, l := range g {
		b := l.LayerBounds
		if b.Empty() {
			continue
		}
		if r.Empty() {
			r = b
			continue
		}
		r.Min.X, r.Min.Y = min(r.Min.X, b.Min.X), min(r.Min.Y, b.Min.Y)
		r.Max.X, r.Max.Y = max(r.Max.X, b.Max.X), max(r.Max.Y, b.Max.Y)
	}
	return r
}

func checkImage(b *vh.B, g limage.Image, win image.Rectangle) bool {
	if got, want := g.Bounds(), union(g); got != want && !(got.Empty() && want.Empty()) {
		b.Fail("bounds", "bounds of %s: %v, want %v", lim.Describe(g), got, want)
		return false
	}
	if got, want := g.ColorModel(), lim.Model(g); !sameModel(got, want) {
		b.Fail("model", "colour model of %s", lim.Describe(g))
		return false
	}
	ok, nt := renders(b, g, win)
	n := 0
	if nt {
		n = 1
	}
	b.Eval(1, n)
	b.Case(func() string { return lim.Describe(g) })
	return ok
}

func sameModel(a, b color.Model) bool {
	for _, c := range []color.Color{color.NRGBA{200, 10, 30, 128}, color.NRGBA{3, 200, 30, 255}, color.Gray16{0x1234}} {
		if straight(a.Convert(c)) != straight(b.Convert(c)) {
			return false
		}
	}
	_, pa := a.(color.Palette)
	_, pb := b.(color.Palette)
	return pa == pb
}

func allModes() []limage.Composite {
	var m []limage.Composite
	for c := limage.Composite(0); c <= limage.CompositePassThrough+2; c++ {
		m = append(m, c)
	}
	// Of those that are no modes, those that differ from one in one bit.
	for bit := 6; bit < 32; bit += 2 {
		m = append(m, 1<<bit|limage.Composite(bit*7%28), 2<<bit|limage.CompositeMultiply+limage.Composite(bit)%20)
	}
	return append(m, 1000, 1<<31, 1<<32-1)
}

func runC05(t *vh.T) {
	kinds := lim.Kinds()
	modes := allModes()
	win := image.Rect(-3, -3, 6, 6)
	boxes := []image.Rectangle{image.Rect(0, 0, 3, 3), image.Rect(-2, 1, 1, 3), image.Rect(2, -1, 5, 2), image.Rect(1, 1, 1, 1), image.Rect(-1, -2, 1, 0)}
	// The picture may start elsewhere and be larger or smaller than the bounds.
	pics := []image.Rectangle{image.Rect(0, 0, 3, 3), image.Rect(-1, -1, 2, 4), image.Rect(1, 0, 3, 2)}
	trs := []uint8{0, 1, 100, 127, 128, 254, 255}

	t.Par("empty", 1, func(b *vh.B, _ int) {
		checkImage(b, limage.Image{}, win)
		checkImage(b, nil, win)
	})
	t.Par("one-layer", len(kinds)*len(boxes), func(b *vh.B, i int) {
		k, box := kinds[i/len(boxes)], boxes[i%len(boxes)]
		for pi, pr := range pics {
			pic := k.Make(pr, i+pi)
			for _, mode := range modes {
				for _, tr := range trs {
					for _, inv := range []bool{false, true} {
						g := limage.Image{{Name: "a", LayerBounds: box, Mode: mode, Invisible: inv, Transparency: tr, Image: pic}}
						if !checkImage(b, g, win) {
							return
						}
					}
				}
			}
		}
	})
	t.Par("all-opacities", 256, func(b *vh.B, tr int) {
		for _, k := range kinds {
			l := limage.Layer{LayerBounds: boxes[0], Transparency: uint8(tr), Image: k.Make(pics[0], 4)}
			if !checkImage(b, limage.Image{l}, win) {
				return
			}
			if ok, _ := renders(b, l, win); !ok { // a layer on its own
				return
			}
			if !checkImage(b, limage.Image{l, {LayerBounds: win, Image: image.NewUniform(color.NRGBA{uint8(tr), 3, 200, 200})}}, win) {
				return
			}
		}
	})
	t.Par("masks", 256, func(b *vh.B, v int) {
		for ki, k := range lim.Flat {
			m := image.NewGray(image.Rect(0, -1, 3, 2))
			for i := range m.Pix {
				m.Pix[i] = uint8(v)
				if i%4 == 3 {
					m.Pix[i] = uint8(i * 20)
				}
			}
			mi := limage.MaskedImage{Image: k.Make(image.Rect(-1, -1, 3, 3), ki), Mask: m}
			if ok, _ := renders(b, mi, win); !ok {
				return
			}
			if !checkImage(b, limage.Image{{LayerBounds: boxes[1], Image: mi}, {LayerBounds: boxes[0], Image: &mi}}, win) {
				return
			}
		}
	})
	bx2 := boxes
	t2 := vh.Pick(t, []uint8{0, 100}, []uint8{0, 1, 100, 255})
	t.Par("two-layers", len(kinds)*len(kinds), func(b *vh.B, i int) {
		k1, k2 := kinds[i/len(kinds)], kinds[i%len(kinds)]
		for _, b1 := range bx2 {
			p1 := k1.Make(image.Rectangle{Max: b1.Size()}, i)
			for _, b2 := range bx2 {
				p2 := k2.Make(image.Rectangle{Max: b2.Size()}, i+50)
				for mi, mode := range modes {
					for ti, tr := range t2 {
						g := limage.Image{
							{LayerBounds: b1, Mode: mode, Transparency: tr, Image: p1},
							{LayerBounds: b2, Mode: modes[(mi*7+i)%len(modes)], Transparency: t2[(ti+1)%len(t2)], Image: p2},
						}
						if !checkImage(b, g, win) || b.Stop() {
							return
						}
					}
				}
			}
		}
		if i == 3 {
			t.Sample(lim.Describe(limage.Image{{LayerBounds: boxes[0], Mode: modes[9], Transparency: 100, Image: k1.Make(pics[0], 1)}, {LayerBounds: boxes[1], Image: k2.Make(pics[1], 2)}}))
		}
	})
	k3 := []lim.Kind{kinds[0], kinds[3], kinds[9], kinds[13]}
	if !t.Quick {
		k3 = []lim.Kind{kinds[0], kinds[1], kinds[2], kinds[3], kinds[7], kinds[9], kinds[13], kinds[15]}
	}
	m3 := []limage.Composite{limage.CompositeNormal, limage.CompositeMultiply, limage.CompositeDissolve, limage.CompositeHue, limage.CompositeSubtract}
	nk := len(k3)
	t.Par("three-layers", nk*nk*nk, func(b *vh.B, i int) {
		ks := []lim.Kind{k3[i/nk/nk], k3[i/nk%nk], k3[i%nk]}
		for bi := 0; bi < 27; bi++ {
			bs := []image.Rectangle{boxes[bi%3], boxes[bi/3%3], boxes[bi/9]}
			var ps [3]image.Image
			for j := range ps {
				ps[j] = ks[j].Make(image.Rectangle{Max: bs[j].Size()}, i*3+j)
			}
			for mi := 0; mi < len(m3)*len(m3); mi++ {
				for vis := 0; vis < 8; vis++ {
					if t.Quick && (bi+mi+vis)%2 != 0 {
						continue
					}
					var g limage.Image
					for j := range ps {
						md := limage.CompositeNormal
						if j == 0 {
							md = m3[mi%len(m3)]
						} else if j == 1 {
							md = m3[mi/len(m3)]
						}
						g = append(g, limage.Layer{LayerBounds: bs[j], Mode: md, Invisible: vis>>j&1 == 1, Transparency: uint8(j * 60), Image: ps[j]})
					}
					if !checkImage(b, g, win) || b.Stop() {
						return
					}
				}
			}
		}
	})
	// Many layers, deep groups, and pictures far away.
	many := vh.Pick(t, []int{4, 17, 33, 65, 129, 257}, []int{4, 8, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1025})
	t.Par("many-layers", len(many)*6, func(b *vh.B, i int) {
		n := many[i/6]
		var g limage.Image
		for k := 0; k < n; k++ {
			bx := image.Rect(0, 0, 1, 1).Add(image.Pt(k%6-1, k/6%6-1))
			if i%3 == 1 {
				bx = boxes[k%len(boxes)]
			}
			l := limage.Layer{LayerBounds: bx, Transparency: uint8(200 - k%9), Image: kinds[k%len(kinds)].Make(image.Rectangle{Max: bx.Size()}, k)}
			if i%3 == 2 { // only the deepest shows
				l.Invisible = k < n-1
				l.LayerBounds = boxes[0]
				l.Transparency = 0
				l.Image = lim.NRGBAOf(pics[0], k)
			}
			if i%6 > 2 {
				l.Mode = modes[k%len(modes)]
			}
			g = append(g, l)
		}
		checkImage(b, g, win)
	})
	depths := vh.Pick(t, []int{3, 9, 17, 33, 65}, []int{3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 129})
	t.Par("deep-groups", len(depths)*2, func(b *vh.B, i int) {
		g := limage.Image{{LayerBounds: boxes[0], Image: kinds[0].Make(pics[0], i)}}
		for k := 0; k < depths[i/2]; k++ {
			r := union(g)
			if k%5 == 4 {
				r = r.Add(image.Pt(k%2*2-1, 0))
			}
			m := image.Image(g)
			if i%2 == 1 {
				c := g
				m = &c
			}
			g = limage.Image{{LayerBounds: r, Transparency: uint8(k % 3), Image: m}}
		}
		checkImage(b, g, win)
	})
	offs := []int{127, 255, 256, 4096, 32768, 65536, 1 << 24, 1 << 31, 1 << 33, -1 << 33, -65537, -256}
	t.Par("far-away", len(offs)*len(offs), func(b *vh.B, i int) {
		off := image.Pt(offs[i%len(offs)], offs[i/len(offs)])
		for ki, k := range kinds {
			g := limage.Image{{LayerBounds: boxes[0].Add(off), Mode: limage.CompositeScreen, Transparency: 9, Image: k.Make(pics[0], ki)}, {LayerBounds: boxes[2].Add(off), Image: lim.NRGBAOf(pics[1], i)}}
			if !checkImage(b, g, win.Add(off)) {
				return
			}
			if !checkImage(b, limage.Image{{LayerBounds: image.Rect(0, 0, 9, 9).Add(off), Image: limage.Image{{LayerBounds: boxes[1], Image: g[0].Image}}}}, win.Add(off)) {
				return
			}
			// A large picture of which the far end is seen.
			if off.X > 0 && off.Y > 0 && off.X <= 1<<20 && off.Y <= 1<<20 && off.X*off.Y <= 70000*16 {
				r := image.Rectangle{Max: off.Add(image.Pt(2, 2))}
				if !checkImage(b, limage.Image{{LayerBounds: r, Image: limage.MaskedImage{Image: lim.Flat[ki%len(lim.Flat)].Make(r, ki), Mask: lim.MaskOf(r, ki)}}}, image.Rect(-4, -4, 4, 4).Add(off)) {
					return
				}
			}
			if b.Stop() {
				return
			}
		}
	})
	// With a paletted first layer, every 16-bit alpha around the threshold.
	al := values16(40, 0x7fff, 0x8000, 0x0100, 0xff00)
	t.Par("paletted-first", len(al), func(b *vh.B, i int) {
		for _, tr := range []uint8{0, 1, 127, 128, 255} {
			for _, mode := range modes {
				for _, first := range []bool{true, false} {
					pl := limage.Layer{LayerBounds: boxes[0], Image: lim.Flat[3].Make(pics[0], i), Mode: mode, Transparency: tr}
					ol := limage.Layer{LayerBounds: boxes[0].Inset(-1), Mode: mode, Transparency: tr, Image: image.NewUniform(color.NRGBA64{0x1234, 0xff00, uint16(i), al[i]})}
					g := limage.Image{ol, pl}
					if first {
						g = limage.Image{{LayerBounds: image.Rect(5, 5, 6, 6), Image: lim.Flat[3].Make(pics[0], i)}, ol, pl}
					}
					if !checkImage(b, g, win) {
						return
					}
				}
			}
		}
	})
}
