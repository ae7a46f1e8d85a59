//go:build go1.22

package main

import (
	"fmt"
	"image"
	"image/color"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/zzverif/lim"
	"vimagination.zapto.org/limage/zzverif/vh"
)

var c11 = vh.Check{
	ID: "C11", Level: "exploration",
	Rule: "every picture of the stated alphabets (kinds of picture, origins, picture extents, modes, opacities, visibility, names, nesting, crops, flat and single-layer forms) is encoded, decoded and compared layer by layer, pixel by pixel and as rendered; an execution is non-trivial and counted distinct by the hash of the archive written",
	Assume: []string{
		"pictures that are not plainly 8- or 16-bit straight colour, gray or paletted may differ by one 8-bit step of colour and of alpha",
		"names consist of characters XML can hold; layers are not empty; modes OpenRaster has no name for are not compared",
		"a picture whose first layer is paletted under a mask or text is compared layer by layer, not as rendered (a PNG cannot hold a palette and a mask)",
		"bounds of a group are those of its layers",
	},
	Run: runC11,
}

var names = []string{"", "a", "Layer #1", "a b", " lead", "trail ", "tab\there", "new\nline", "cr\rx", "quote\"s", "apos'", "<tag>&amp;", "]]>", "ünïcødé 日本語 🎨", "very long " + fmt.Sprintf("%0500d", 7), "data/1.png", "stack.xml", "--"}

func oneLayer(k lim.Kind, at image.Point, pic image.Rectangle, salt int) limage.Layer {
	return limage.Layer{Name: k.Name, LayerBounds: image.Rect(0, 0, 4, 3).Add(at), Image: k.Make(pic, salt)}
}

func runC11(t *vh.T) {
	kinds := lim.Kinds()
	origins := []image.Point{{0, 0}, {-3, 2}, {4, -5}, {7, 1}}
	pics := []image.Rectangle{image.Rect(0, 0, 4, 3), image.Rect(-1, -2, 5, 3), image.Rect(1, 0, 3, 3), image.Rect(0, 0, 9, 8)}
	t.Par("one-layer", len(kinds)*len(origins), func(b *vh.B, i int) {
		k, at := kinds[i/len(origins)], origins[i%len(origins)]
		for pi, pic := range pics {
			for mi, mode := range oraModes {
				if t.Quick && mi != 0 && (mi+pi+i)%3 != 0 {
					continue
				}
				l := oneLayer(k, at, pic, i+mi)
				l.Mode = mode
				l.Transparency = uint8(mi * 13)
				l.Invisible = mi%4 == 3
				l.Name = names[(i+mi)%len(names)]
				if !roundTrip(b, limage.Image{l}) {
					return
				}
				// over a base, so that the mode shows
				if !roundTrip(b, limage.Image{l, {Name: "base", LayerBounds: image.Rect(-1, -1, 6, 5), Image: lim.NRGBAOf(image.Rect(0, 0, 7, 6), mi)}}) {
					return
				}
			}
		}
		if i == 3 {
			t.Sample(lim.Describe(limage.Image{oneLayer(k, at, pics[1], i)}))
		}
	})
	wrapped := lim.Wrapped()
	t.Par("wrapped", len(wrapped)*len(pics), func(b *vh.B, i int) {
		l := oneLayer(wrapped[i/len(pics)], origins[i%len(origins)], pics[i%len(pics)], i)
		l.Transparency = uint8(i * 3)
		base := limage.Layer{Name: "base", LayerBounds: image.Rect(-1, -1, 6, 5), Image: lim.NRGBAOf(image.Rect(0, 0, 7, 6), i)}
		if roundTrip(b, limage.Image{l}) && roundTrip(b, limage.Image{base, l}) && roundTrip(b, limage.Image{{Name: "g", LayerBounds: l.LayerBounds, Image: limage.Image{l}}, base}) {
			roundTrip(b, l)
		}
	})
	t.Par("every-opacity", 256, func(b *vh.B, tr int) {
		for j, inv := range []bool{false, true} {
			l := limage.Layer{Name: "o", LayerBounds: image.Rect(0, 0, 2, 2), Transparency: uint8(tr), Invisible: inv, Image: lim.NRGBAOf(image.Rect(0, 0, 2, 2), tr)}
			g := limage.Image{l, {Name: "b", LayerBounds: image.Rect(0, 0, 2, 2), Image: lim.NRGBAOf(image.Rect(0, 0, 2, 2), 5)}}
			if !roundTrip(b, g) {
				return
			}
			gl := limage.Layer{Name: "g", LayerBounds: image.Rect(1, 1, 3, 3), Transparency: uint8(tr), Invisible: j == 1, Image: g}
			if !roundTrip(b, limage.Image{gl, g[1]}) {
				return
			}
		}
	})
	t.Par("names", len(names), func(b *vh.B, i int) {
		l := limage.Layer{Name: names[i], LayerBounds: image.Rect(0, 0, 1, 1), Image: lim.NRGBAOf(image.Rect(0, 0, 1, 1), i)}
		roundTrip(b, limage.Image{l, {Name: names[(i+1)%len(names)], LayerBounds: image.Rect(0, 0, 1, 1), Image: limage.Image{l}}})
		for r := rune(0x20); i == 0 && r < 0x400; r++ {
			l.Name = "x" + string(r) + "y"
			if r >= 0x7f && r < 0xa0 {
				continue
			}
			if !roundTrip(b, limage.Image{l}) {
				return
			}
		}
	})
	t.Par("flat", len(kinds)*len(origins), func(b *vh.B, i int) {
		k, at := kinds[i/len(origins)], origins[i%len(origins)]
		for _, size := range []image.Point{{4, 3}, {1, 1}, {1, 7}, {9, 2}, {65, 3}} {
			m := k.Make(image.Rectangle{at, at.Add(size)}, i)
			if !roundTrip(b, m) {
				return
			}
			l := limage.Layer{Name: "single", LayerBounds: image.Rect(0, 0, 4, 3).Add(at), Transparency: uint8(i), Mode: limage.CompositeNormal, Image: k.Make(pics[i%len(pics)], i)}
			if !roundTrip(b, l) || !roundTrip(b, &l) {
				return
			}
			l.Mode = limage.CompositeScreen
			l.Invisible = true
			if !roundTrip(b, l) {
				return
			}
			g := limage.Image{l, oneLayer(k, image.Pt(1, 1), pics[0], 2)}
			if !roundTrip(b, &g) {
				return
			}
		}
	})
	t.Par("pairs", len(kinds)*len(kinds), func(b *vh.B, i int) {
		k1, k2 := kinds[i/len(kinds)], kinds[i%len(kinds)]
		n := vh.Pick(t, 4, len(origins)*len(pics))
		for j := 0; j < n; j++ {
			o1, o2 := origins[j%len(origins)], origins[(j+i)%len(origins)]
			g := limage.Image{oneLayer(k1, o1, pics[(j/4+i)%len(pics)], i), oneLayer(k2, o2, pics[(i/2+j)%len(pics)], j)}
			g[0].Mode = oraModes[(i+j)%len(oraModes)]
			g[0].Transparency = uint8(j * 11)
			g[1].Transparency = uint8(i)
			if !roundTrip(b, g) || b.Stop() {
				return
			}
		}
	})
	// Nested groups at every small offset; group bounds equal to, larger and
	// smaller than the layers in them.
	offs := vh.Pick(t, []int{-3, 0, 2}, []int{-3, -1, 0, 2, 5})
	no := len(offs)
	t.Par("nested", no*no*no*no, func(b *vh.B, i int) {
		p1 := image.Pt(offs[i%no], offs[i/no%no])
		p2 := image.Pt(offs[i/no/no%no], offs[i/no/no/no])
		for j, box := range []image.Rectangle{image.Rect(0, 0, 3, 3), image.Rect(0, 0, 5, 4), image.Rect(0, 0, 2, 1), image.Rect(-2, -2, 2, 2), image.Rect(1, 1, 6, 6)} {
			inner := limage.Image{
				{Name: "i1", LayerBounds: image.Rect(0, 0, 2, 2).Add(p2), Mode: limage.CompositeScreen, Image: lim.NRGBAOf(image.Rect(0, 0, 2, 2), i)},
				{Name: "i2", LayerBounds: image.Rect(1, 0, 3, 3), Transparency: 80, Image: lim.NRGBAOf(image.Rect(0, 0, 2, 3), j)},
			}
			mid := limage.Image{
				{Name: "g2", LayerBounds: box.Add(p1), Image: inner, Transparency: 30},
				{Name: "f", LayerBounds: image.Rect(0, 0, 3, 3), Image: lim.NRGBAOf(image.Rect(0, 0, 3, 3), 8)},
			}
			g := limage.Image{
				{Name: "g1", LayerBounds: image.Rect(0, 0, 4, 4).Add(p2), Mode: limage.CompositeMultiply, Image: &mid},
				{Name: "base", LayerBounds: image.Rect(-1, -1, 4, 4).Add(p1), Image: lim.NRGBAOf(image.Rect(0, 0, 5, 5), 3)},
			}
			if !roundTrip(b, g) {
				return
			}
		}
	})
	t.Par("crops", len(kinds), func(b *vh.B, i int) {
		k := kinds[i]
		g := limage.Image{
			oneLayer(k, image.Pt(1, -1), pics[0], i),
			{Name: "grp", LayerBounds: image.Rect(-2, 0, 3, 4), Transparency: 20, Image: lim.GroupOf(image.Rect(0, 0, 5, 4), i)},
			{Name: "base", LayerBounds: image.Rect(-3, -3, 5, 5), Image: lim.NRGBAOf(image.Rect(0, 0, 8, 8), 3)},
		}
		for n, r := range lim.Rects(image.Rect(-3, -3, 6, 6), 3, false) {
			if t.Quick && (n+i)%4 != 0 {
				continue
			}
			c := g.SubImage(r)
			if c.Bounds().Empty() {
				continue
			}
			if !roundTrip(b, c) || b.Stop() {
				return
			}
			if c2 := g[0].SubImage(r); !c2.Bounds().Empty() && !roundTrip(b, c2) {
				return
			}
		}
	})
	structures(t, roundTrip)
	// Colour and alpha of a single pixel, in every kind that can hold it.
	vals := []uint8{0, 1, 127, 128, 254, 255}
	t.Par("pixel-values", len(vals)*len(vals), func(b *vh.B, i int) {
		a, v := vals[i%len(vals)], vals[i/len(vals)]
		n := image.NewNRGBA(image.Rect(0, 0, 6, 1))
		n16 := image.NewNRGBA64(image.Rect(0, 0, 6, 1))
		for j, w := range vals {
			n.SetNRGBA(j, 0, color.NRGBA{v, w, 255 - v, a})
			n16.SetNRGBA64(j, 0, color.NRGBA64{uint16(v) << 8, uint16(w)*257 ^ 3, 0x1234, uint16(a)<<8 | 7})
		}
		roundTrip(b, limage.Image{{LayerBounds: n.Rect, Image: n}, {LayerBounds: n16.Rect, Image: n16}})
		roundTrip(b, n)
		roundTrip(b, n16)
	})
}

// structures calls check with pictures of every small shape and with large,
// deep and wide ones.
func structures(t *vh.T, check func(b *vh.B, m image.Image) bool) {
	pic := func(w, h, salt int) image.Image { return lim.NRGBAOf(image.Rect(0, 0, w, h), salt) }
	shapes := lim.Forests(vh.Pick(t, 5, 6))
	t.Par("forests", len(shapes), func(b *vh.B, i int) {
		for v := 0; v < 3; v++ {
			if g := shape(shapes[i], v); !g.Bounds().Empty() && !check(b, g) {
				return
			}
		}
	})
	many := []int{8, 9, 10, 11, 99, 100, 101, 1000}
	t.Par("many", len(many), func(b *vh.B, i int) {
		g := make(limage.Image, many[i])
		for j := range g {
			g[j] = limage.Layer{Name: fmt.Sprint(j), LayerBounds: image.Rect(j%5, 0, j%5+1, 1), Image: pic(1, 1, j%250)}
			if j > len(g)-8 || j%10 == 3 {
				g[j].Image = limage.Image{{Name: fmt.Sprint("in ", j), LayerBounds: image.Rect(0, 0, 1, 1), Image: pic(1, 1, j%240)}, {Name: "below", LayerBounds: image.Rect(0, 0, 1, 1), Image: pic(1, 1, j%230)}}
			}
		}
		if check(b, g) {
			check(b, limage.Image{{Name: "all", LayerBounds: image.Rect(0, 0, 5, 1), Image: g}, g[0]})
		}
	})
	depths := []int{3, 10, 40, 150}
	t.Par("deep", len(depths), func(b *vh.B, i int) {
		m := pic(2, 2, i)
		for j := 0; j < depths[i]; j++ {
			m = limage.Image{{Name: fmt.Sprint("level ", j), LayerBounds: image.Rect(0, 0, 2, 2), Transparency: uint8(j), Image: m}, {Name: "by", LayerBounds: image.Rect(0, 0, 2, 2), Image: pic(2, 2, j)}}
		}
		check(b, m)
	})
	far := []int{-3000, -300, -129, 127, 256, 2000}
	t.Par("far", 2*len(far), func(b *vh.B, i int) {
		p := image.Pt(far[i/2], i%3)
		if i%2 == 1 {
			p = image.Pt(i%3, far[i/2])
		}
		at := limage.Layer{Name: "far", LayerBounds: image.Rect(0, 0, 3, 2).Add(p), Image: pic(3, 2, i)}
		near := limage.Layer{Name: "near", LayerBounds: image.Rect(0, 0, 2, 2), Image: pic(2, 2, i+1)}
		check(b, limage.Image{at, near})
		check(b, limage.Image{{Name: "group", LayerBounds: at.LayerBounds.Union(near.LayerBounds).Sub(p), Image: limage.Image{at, near}}, near})
	})
}

// shape makes the picture with the given depths of its layers.
func shape(d []int, v int) limage.Image {
	i := 0
	var rec func(depth int) limage.Image
	rec = func(depth int) limage.Image {
		g := limage.Image{}
		for i < len(d) && d[i] == depth {
			k := i
			i++
			l := limage.Layer{Name: fmt.Sprintf("L%d", k), LayerBounds: image.Rect(0, 0, 3+k%2, 3).Add(image.Pt(k%3-1, (k*v)%3)), Transparency: uint8(k * 40 * (v & 1)), Invisible: (k+v)%4 == 3, Mode: oraModes[(k*7+v)%len(oraModes)]}
			if i < len(d) && d[i] > depth {
				in := rec(depth + 1)
				l.Image = in
				if (k+v)%2 == 1 {
					l.Image = &in
				}
			} else {
				l.Image = lim.NRGBAOf(image.Rect(0, 0, 4, 3), k+v)
			}
			g = append(g, l)
		}
		return g
	}
	return rec(0)
}
