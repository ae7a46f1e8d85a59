//go:build go1.22

package main

import (
	"fmt"
	"image"
	"image/color"
	"strings"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/zzverif/lim"
	"vimagination.zapto.org/limage/zzverif/vh"
	"vimagination.zapto.org/limage/zzverif/xfmt"
)

var c16 = vh.Check{
	ID: "C16", Level: "exploration",
	Rule: "every picture of the stated alphabets (kinds of picture, origins, picture extents, every mode XCF has, every opacity, names, nesting, masks, sizes around tile boundaries, run patterns, flat and single-layer forms) is encoded, decoded and compared layer by layer and pixel by pixel; an execution is non-trivial and counted distinct by the hash of the file written",
	Assume: []string{
		"pictures that are not plainly 8-bit straight colour, gray or paletted may differ by one 8-bit step of colour and of alpha",
		"names are valid UTF-8 without NUL, of less than 16 MiB; modes XCF has no number for (Luminosity and the Porter-Duff operations) are not used; indexed pictures keep only Normal, Dissolve and Behind",
		"vimagination.zapto.org/byteio, memio and parser cannot be fetched here; stand-ins written from their documentation are used",
	},
	Run: func(t *vh.T) { explorePictures(t, roundTrip) },
}

var c17 = vh.Check{
	ID: "C17", Level: "exploration",
	Rule: "every picture of the round-trip alphabets is encoded and the bytes are read by an independent strict reader, which checks every length, count, pointer, run and overlap and compares the picture it recovers; an execution is non-trivial and counted distinct by the hash of the file written",
	Assume: []string{
		"the independent reader implements the published format description: layers' tiles are in order, runs do not cross channels, blocks do not overlap",
		"as for C16",
	},
	Run: func(t *vh.T) {
		explorePictures(t, readBack)
		exploreHuge(t)
	},
}

func roundTrip(b *vh.B, m image.Image) bool {
	desc := lim.Describe(m)
	before := ""
	if !dissolves(asLayers(m)) {
		before = snapshot(m)
	}
	data, err := encode(m)
	if err != nil {
		b.Fail("encode", "Encode(%s): %v", desc, err)
		return false
	}
	if before != "" && snapshot(m) != before {
		b.Fail("modified", "Encode modified its input %s", desc)
		return false
	}
	d, err := decode(data)
	if err != nil {
		b.Fail("decode", "decoding what Encode wrote for %s: %v", desc, err)
		return false
	}
	b.EvalH(vh.HashBytes(data))
	want, k, win := wantNodes(m)
	got := xfmt.Picture(d, image.Point{})
	o := xfmt.Options{Clip: win, BottomMode: true, Text: true, GrayExact: k == 1}
	if key, diff := xfmt.Compare("", want, got, o); key != "" {
		b.Fail(key, "%s: %s", desc, diff)
		return false
	}
	bad := ""
	leaves(d, func(m image.Image) {
		n := 0
		switch c := lim.Model(m).(type) {
		case lcolor.AlphaPalette:
			n = 2
		default:
			if c == lcolor.GrayAlphaModel {
				n = 1
			}
		}
		if n != k {
			bad = fmt.Sprintf("as %T, not with base type %d", m, k)
		}
	})
	if bad != "" {
		b.Fail("base", "%s is kept %s", desc, bad)
		return false
	}
	return true
}

func readBack(b *vh.B, m image.Image) bool {
	desc := lim.Describe(m)
	data, err := encode(m)
	if err != nil {
		b.Fail("encode", "Encode(%s): %v", desc, err)
		return false
	}
	f, err := xfmt.Parse(data)
	if err != nil {
		b.Fail("structure", "%s is written as an invalid file: %v", desc, err)
		return false
	}
	b.EvalH(vh.HashBytes(data))
	want, k, win := wantNodes(m)
	if f.W != win.Dx() || f.H != win.Dy() {
		b.Fail("canvas", "%s of %v is written with a canvas of %dx%d", desc, win, f.W, f.H)
		return false
	}
	if f.Base != k {
		b.Fail("base", "%s is written with base type %d, not %d", desc, f.Base, k)
		return false
	}
	o := xfmt.Options{BottomMode: true, KeepOutside: true, GrayExact: k == 1, AnyModes: k == 2}
	if key, diff := xfmt.Compare("", want, f.Nodes(), o); key != "" {
		b.Fail(key, "%s: %s", desc, diff)
		return false
	}
	return true
}

var names = []string{"", "a", "Layer #1", "a b", " lead", "trail ", "tab\there", "new\nline", "quote\"s", "<tag>&amp;", "ünïcødé 日本語 🎨", "very long " + fmt.Sprintf("%0500d", 7), "\x01\x7f"}

func oneLayer(k lim.Kind, at image.Point, pic image.Rectangle, salt int) limage.Layer {
	return limage.Layer{Name: k.Name, LayerBounds: image.Rect(0, 0, 4, 3).Add(at), Image: k.Make(pic, salt)}
}

func nr(w, h, salt int) image.Image { return lim.NRGBAOf(image.Rect(0, 0, w, h), salt) }

var modeList = func() []limage.Composite {
	var out []limage.Composite
	for m := limage.Composite(0); m < 256; m++ {
		if xcfMode[m] {
			out = append(out, m)
		}
	}
	return out
}()

// runGray is a gray picture 64 wide whose first tile holds the given runs.
func runGray(runs []int, vals []uint8) image.Image {
	n := 0
	for _, r := range runs {
		n += r
	}
	m := image.NewGray(image.Rect(0, 0, min(n, 64), (n+63)/64))
	if n <= 64 {
		m = image.NewGray(image.Rect(0, 0, n, 1))
	}
	i := 0
	for k, r := range runs {
		for ; r > 0; r-- {
			m.Pix[i] = vals[k%len(vals)]
			i++
		}
	}
	for ; i < len(m.Pix); i++ {
		m.Pix[i] = uint8(i*37 + 11)
	}
	return m
}

func explorePictures(t *vh.T, check func(b *vh.B, m image.Image) bool) {
	kinds := lim.Kinds()
	origins := []image.Point{{0, 0}, {-3, 2}, {4, -5}, {7, 1}}
	pics := []image.Rectangle{image.Rect(0, 0, 4, 3), image.Rect(-1, -2, 5, 3), image.Rect(1, 0, 3, 3), image.Rect(0, 0, 9, 8)}
	t.Par("one-layer", len(kinds)*len(origins), func(b *vh.B, i int) {
		k, at := kinds[i/len(origins)], origins[i%len(origins)]
		for pi, pic := range pics {
			for mi, mode := range modeList {
				if t.Quick && mi != 0 && (mi+pi+i)%3 != 0 {
					continue
				}
				l := oneLayer(k, at, pic, i+mi)
				l.Mode = mode
				l.Transparency = uint8(mi * 13)
				l.Invisible = mi%4 == 3
				l.Name = names[(i+mi)%len(names)]
				if !check(b, limage.Image{l}) {
					return
				}
				if !check(b, limage.Image{l, {Name: "base", LayerBounds: image.Rect(-1, -1, 6, 5), Image: nr(7, 6, mi)}}) {
					return
				}
			}
		}
		if i == 3 {
			t.Sample(lim.Describe(limage.Image{oneLayer(k, at, pics[1], i)}))
		}
	})
	wrapped := lim.Wrapped()
	t.Par("wrapped", len(wrapped)*len(pics), func(b *vh.B, i int) {
		l := oneLayer(wrapped[i/len(pics)], origins[i%len(origins)], pics[i%len(pics)], i)
		l.Transparency = uint8(i * 3)
		base := limage.Layer{Name: "base", LayerBounds: image.Rect(-1, -1, 6, 5), Image: nr(7, 6, i)}
		if check(b, limage.Image{l}) && check(b, limage.Image{base, l}) && check(b, limage.Image{{Name: "g", LayerBounds: l.LayerBounds, Image: limage.Image{l}}, l}) {
			check(b, l)
		}
	})
	t.Par("every-opacity", 256, func(b *vh.B, tr int) {
		for j, inv := range []bool{false, true} {
			l := limage.Layer{Name: "o", LayerBounds: image.Rect(0, 0, 2, 2), Transparency: uint8(tr), Invisible: inv, Image: nr(2, 2, tr)}
			g := limage.Image{l, {Name: "b", LayerBounds: image.Rect(0, 0, 2, 2), Image: nr(2, 2, 5)}}
			if !check(b, g) {
				return
			}
			gl := limage.Layer{Name: "g", LayerBounds: image.Rect(1, 1, 3, 3), Transparency: uint8(tr), Invisible: j == 1, Image: g}
			if !check(b, limage.Image{gl, g[1]}) {
				return
			}
		}
	})
	t.Par("names", len(names), func(b *vh.B, i int) {
		l := limage.Layer{Name: names[i], LayerBounds: image.Rect(0, 0, 1, 1), Image: nr(1, 1, i)}
		check(b, limage.Image{l, {Name: names[(i+1)%len(names)], LayerBounds: image.Rect(0, 0, 1, 1), Image: limage.Image{l}}})
		for _, n := range []int{126, 127, 128, 254, 255, 256, 4095, 4096, 32767, 32768, 65533, 65534, 65535, 65536, 70001, 131072} {
			if i == 1 {
				check(b, limage.Image{{Name: strings.Repeat("ab", n/2) + "c"[:n%2], LayerBounds: image.Rect(0, 0, 1, 1), Image: nr(1, 1, n)}, l})
			}
		}
		for r := rune(1); i == 0 && r < 0x400; r++ {
			l.Name = "x" + string(r) + "y"
			if !check(b, limage.Image{l}) {
				return
			}
		}
	})
	t.Par("flat", len(kinds)*len(origins), func(b *vh.B, i int) {
		k, at := kinds[i/len(origins)], origins[i%len(origins)]
		for _, size := range []image.Point{{4, 3}, {1, 1}, {1, 7}, {9, 2}, {65, 3}} {
			m := k.Make(image.Rectangle{at, at.Add(size)}, i)
			if k.Name == "Text" || k.Name == "TextPtr" || k.Name == "Masked" || k.Name == "MaskedPtrSmall" || k.Name == "MaskedGroup" {
				continue
			}
			if !check(b, m) {
				return
			}
			l := limage.Layer{Name: "single", LayerBounds: image.Rect(0, 0, 4, 3).Add(at), Transparency: uint8(i), Mode: limage.CompositeNormal, Image: k.Make(pics[i%len(pics)], i)}
			if !check(b, l) || !check(b, &l) {
				return
			}
			l.Mode = limage.CompositeScreen
			l.Invisible = true
			if !check(b, l) {
				return
			}
			g := limage.Image{l, oneLayer(k, image.Pt(1, 1), pics[0], 2)}
			if !check(b, &g) {
				return
			}
		}
	})
	t.Par("flat-rich", len(lim.Rich)*len(origins), func(b *vh.B, i int) {
		k, at := lim.Rich[i/len(origins)], origins[i%len(origins)]
		m := k.Make(image.Rectangle{at, at.Add(image.Pt(5, 4))}, i)
		if group, ok := group(m); ok && group != nil {
			return
		}
		flatRendered(b, m)
	})
	t.Par("pairs", len(kinds)*len(kinds), func(b *vh.B, i int) {
		k1, k2 := kinds[i/len(kinds)], kinds[i%len(kinds)]
		n := vh.Pick(t, 4, len(origins)*len(pics))
		for j := 0; j < n; j++ {
			o1, o2 := origins[j%len(origins)], origins[(j+i)%len(origins)]
			g := limage.Image{oneLayer(k1, o1, pics[(j/4+i)%len(pics)], i), oneLayer(k2, o2, pics[(i/2+j)%len(pics)], j)}
			g[0].Mode = modeList[(i+j)%len(modeList)]
			g[0].Transparency = uint8(j * 11)
			g[1].Transparency = uint8(i)
			if !check(b, g) || b.Stop() {
				return
			}
		}
	})
	offs := vh.Pick(t, []int{-3, 0, 2}, []int{-3, -1, 0, 2, 5})
	no := len(offs)
	t.Par("nested", no*no*no*no, func(b *vh.B, i int) {
		p1 := image.Pt(offs[i%no], offs[i/no%no])
		p2 := image.Pt(offs[i/no/no%no], offs[i/no/no/no])
		for j, box := range []image.Rectangle{image.Rect(0, 0, 3, 3), image.Rect(0, 0, 5, 4), image.Rect(0, 0, 2, 1), image.Rect(-2, -2, 2, 2), image.Rect(1, 1, 6, 6)} {
			inner := limage.Image{
				{Name: "i1", LayerBounds: image.Rect(0, 0, 2, 2).Add(p2), Mode: limage.CompositeScreen, Image: nr(2, 2, i)},
				{Name: "i2", LayerBounds: image.Rect(1, 0, 3, 3), Transparency: 80, Image: nr(2, 3, j)},
			}
			mid := limage.Image{
				{Name: "g2", LayerBounds: box.Add(p1), Image: inner, Transparency: 30},
				{Name: "f", LayerBounds: image.Rect(0, 0, 3, 3), Image: nr(3, 3, 8)},
			}
			var in image.Image = &mid
			if j%2 == 1 {
				in = limage.MaskedImage{Image: mid, Mask: lim.MaskOf(image.Rect(0, 0, 4, 3), i)}
			}
			g := limage.Image{
				{Name: "g1", LayerBounds: image.Rect(0, 0, 4, 4).Add(p2), Mode: limage.CompositeMultiply, Image: in},
				{Name: "base", LayerBounds: image.Rect(-1, -1, 4, 4).Add(p1), Image: nr(5, 5, 3)},
			}
			if !check(b, g) {
				return
			}
		}
	})
	// Every forest of up to n layers, by its bracket structure.
	n := vh.Pick(t, 5, 6)
	shapes := lim.Forests(n)
	t.Par("forests", len(shapes), func(b *vh.B, i int) {
		for v := 0; v < 4; v++ {
			g := build(shapes[i], v)
			if !check(b, g) {
				return
			}
		}
	})
	t.Par("crops", len(kinds), func(b *vh.B, i int) {
		k := kinds[i]
		g := limage.Image{
			oneLayer(k, image.Pt(1, -1), pics[0], i),
			{Name: "grp", LayerBounds: image.Rect(-2, 0, 3, 4), Transparency: 20, Image: lim.GroupOf(image.Rect(0, 0, 5, 4), i)},
			{Name: "base", LayerBounds: image.Rect(-3, -3, 5, 5), Image: nr(8, 8, 3)},
		}
		for n, r := range lim.Rects(image.Rect(-3, -3, 6, 6), 3, false) {
			if t.Quick && (n+i)%4 != 0 {
				continue
			}
			c := g.SubImage(r).(limage.Image)
			if c.Bounds().Empty() || anyEmpty(c) {
				continue
			}
			if !check(b, c) || b.Stop() {
				return
			}
		}
	})
	// Sizes around tile boundaries.
	sizes := vh.Pick(t, []int{1, 2, 63, 64, 65, 128, 129}, []int{1, 2, 31, 62, 63, 64, 65, 66, 127, 128, 129, 191, 192, 193, 257})
	bigKinds := append(append([]lim.Kind{}, lim.Flat...), lim.Rich[0])
	t.Par("sizes", len(sizes)*len(sizes), func(b *vh.B, i int) {
		w, h := sizes[i%len(sizes)], sizes[i/len(sizes)]
		for j, k := range bigKinds {
			if (w*h > 10000 || t.Quick && w*h > 4000) && (i+j)%5 != 0 {
				continue
			}
			l := limage.Layer{Name: k.Name, LayerBounds: image.Rect(0, 0, w, h).Add(image.Pt(i%3-1, j%3-1)), Image: k.Make(image.Rect(0, 0, w, h), i+j)}
			if !check(b, limage.Image{l}) || b.Stop() {
				return
			}
		}
	})
	// Pictures that are long, far away or made of many layers.
	long := []int{4096, 4097, 16385, 32768, 65535, 65536, 65537, 70000}
	t.Par("long", 2*len(long), func(b *vh.B, i int) {
		for j, k := range bigKinds {
			if t.Quick && (i+j)%3 != 0 {
				continue
			}
			r := image.Rect(0, 0, long[i/2], 1+j%2)
			if i%2 == 1 {
				r = image.Rect(0, 0, 1+j%2, long[i/2])
			}
			l := limage.Layer{Name: "long", LayerBounds: r, Image: k.Make(r, i)}
			if !check(b, limage.Image{l}) || b.Stop() {
				return
			}
		}
	})
	// More tiles than 16 bits count.
	t.Par("tiles", 1, func(b *vh.B, i int) {
		m := image.NewGray(image.Rect(0, 0, 64*65536+3, 1))
		for x := range m.Pix {
			m.Pix[x] = uint8(x / 640)
		}
		check(b, limage.Image{{Name: "tiles", LayerBounds: m.Rect, Image: m}})
	})
	far := []int{-1 << 29, -1000000, -65536, -32769, -257, 300, 32768, 65535, 70000, 1 << 29}
	t.Par("far", len(far)*len(far), func(b *vh.B, i int) {
		p := image.Pt(far[i%len(far)], far[i/len(far)])
		at := limage.Layer{Name: "far", LayerBounds: image.Rect(0, 0, 3, 2).Add(p), Image: nr(3, 2, i)}
		near := limage.Layer{Name: "near", LayerBounds: image.Rect(0, 0, 2, 2), Image: nr(2, 2, i+1)}
		mid := limage.Layer{Name: "mid", LayerBounds: image.Rect(0, 0, 9, 9).Add(p), Image: limage.Image{near, {Name: "in", LayerBounds: image.Rect(1, 2, 4, 4), Image: nr(3, 2, i+2)}}}
		check(b, limage.Image{at, near})
		check(b, limage.Image{near, at})
		check(b, limage.Image{near, mid, at})
		at.LayerBounds = at.LayerBounds.Sub(p)
		near.LayerBounds = near.LayerBounds.Add(p)
		if r := (image.Rectangle{image.Pt(min(p.X, 0), min(p.Y, 0)), image.Pt(max(p.X, 0)+3, max(p.Y, 0)+2)}); r.Dx()*r.Dy() < 1<<18 {
			check(b, limage.Image{{Name: "group", LayerBounds: r, Image: limage.Image{at, near}}})
		}
	})
	// The layers of a group are numbered, and 0xd800-0xdfff are no code points.
	many := []int{31, 32, 33, 127, 128, 255, 256, 257, 1000, 0xd800 + 9}
	t.Par("many", len(many), func(b *vh.B, i int) {
		g := make(limage.Image, many[i])
		for j := range g {
			g[j] = limage.Layer{Name: fmt.Sprint(j), LayerBounds: image.Rect(0, 0, 1, 1), Image: nr(1, 1, j%250)}
			if j > len(g)-8 || j%100 == 3 {
				g[j].Image = limage.Image{{Name: fmt.Sprint("in ", j), LayerBounds: image.Rect(0, 0, 1, 1), Image: nr(1, 1, j%240)}, {Name: "below", LayerBounds: image.Rect(0, 0, 1, 1), Image: nr(1, 1, j%230)}}
			}
		}
		if check(b, g) && len(g) < 300 {
			check(b, limage.Image{{Name: "all", LayerBounds: image.Rect(0, 0, 1, 1), Image: g}, g[0]})
		}
	})
	depths := []int{3, 10, 40, 200}
	t.Par("deep", len(depths), func(b *vh.B, i int) {
		var m image.Image = nr(2, 2, i)
		for j := 0; j < depths[i]; j++ {
			m = limage.Image{{Name: fmt.Sprint("level ", j), LayerBounds: image.Rect(0, 0, 2, 2), Transparency: uint8(j), Image: m}, {Name: "by", LayerBounds: image.Rect(0, 0, 2, 2), Image: nr(2, 2, j)}}
		}
		check(b, m)
	})
	// Every content of a small channel through the run-length coder.
	al, ln := 3, vh.Pick(t, 8, 10)
	pow := func(n int) int {
		p := 1
		for ; n > 0; n-- {
			p *= al
		}
		return p
	}
	t.Par("channel-contents", pow(4), func(b *vh.B, i int) {
		for l := 4; l <= ln; l++ {
			for rest := 0; rest < pow(l-4); rest++ {
				m := image.NewGray(image.Rect(0, 0, l, 1))
				v := i + rest*pow(4)
				for x := 0; x < l; x++ {
					m.Pix[x] = uint8(v % al * 127)
					v /= al
				}
				if !check(b, limage.Image{{LayerBounds: m.Rect, Image: m}}) {
					return
				}
			}
			if b.Stop() {
				return
			}
		}
	})
	// Runs and literals around the limits of the coder.
	rl := []int{1, 2, 3, 4, 5, 126, 127, 128, 129, 254, 255, 256, 257}
	t.Par("runs", len(rl)*len(rl), func(b *vh.B, i int) {
		for _, third := range []int{0, 1, 3, 4, 127, 128, 129} {
			for _, fourth := range []int{0, 2, 128} {
				m := runGray([]int{rl[i%len(rl)], rl[i/len(rl)], third, fourth}, []uint8{7, 200, 7, 9})
				if !check(b, limage.Image{{LayerBounds: m.Bounds(), Image: m}}) || b.Stop() {
					return
				}
			}
		}
	})
	// Literals of every length up to a full tile.
	t.Par("literals", 64, func(b *vh.B, i int) {
		for j := vh.Pick(t, i%7, 0); j < 64; j += vh.Pick(t, 7, 1) {
			n := i*64 + j + 1
			m := image.NewGray(image.Rect(0, 0, 64, 64))
			for x := 0; x < 4096; x++ {
				m.Pix[x] = uint8(x ^ x>>8)
				if x >= n {
					m.Pix[x] = uint8(i)
				}
			}
			if !check(b, limage.Image{{LayerBounds: m.Rect, Image: m}}) || b.Stop() {
				return
			}
		}
	})
	vals := []uint8{0, 1, 127, 128, 254, 255}
	t.Par("pixel-values", len(vals)*len(vals), func(b *vh.B, i int) {
		a, v := vals[i%len(vals)], vals[i/len(vals)]
		m := image.NewNRGBA(image.Rect(0, 0, 6, 1))
		g := limage.NewGrayAlpha(m.Rect)
		for j, w := range vals {
			m.SetNRGBA(j, 0, color.NRGBA{v, w, 255 - v, a})
			g.SetGrayAlpha(j, 0, lcolor.GrayAlpha{Y: w ^ v&1, A: a})
		}
		check(b, limage.Image{{LayerBounds: m.Rect, Image: m}, {LayerBounds: m.Rect, Image: g}})
		check(b, limage.Image{{LayerBounds: m.Rect, Image: g}})
		check(b, m)
		check(b, g)
	})
	t.Par("palettes", 258, func(b *vh.B, n int) {
		if n == 0 {
			return
		}
		for v := 0; v < 4; v++ {
			p := make(color.Palette, n)
			for i := range p {
				c := color.NRGBA{uint8(i * 7), uint8(i*i + v), uint8(255 - i), 255}
				if v == 1 && i == n/2 {
					c = color.NRGBA{}
				}
				if v == 2 && i%3 == 1 {
					c.A = 128
				}
				p[i] = c
			}
			r := image.Rect(0, 0, 16, 17)
			m := image.NewPaletted(r, p)
			for i := range m.Pix {
				m.Pix[i] = uint8(i % min(n, 256))
			}
			if v == 3 {
				q := limage.NewPalettedAlpha(r, lcolor.AlphaPalette(p))
				for i := range q.Pix {
					q.Pix[i] = lcolor.IndexedAlpha{I: uint8(i % min(n, 256)), A: uint8(i)}
				}
				check(b, limage.Image{{LayerBounds: r, Image: q}})
			} else {
				check(b, limage.Image{{LayerBounds: r, Image: m}, {LayerBounds: r, Image: m}})
				check(b, m)
			}
			// Layers whose palettes differ in one place only.
			for _, k := range []int{0, n / 2, n - 1} {
				if v != 0 || n > 256 {
					break
				}
				q := append(color.Palette{}, p...)
				q[k] = color.NRGBA{uint8(k), 1, 2, 255}
				o := image.NewPaletted(r, q)
				copy(o.Pix, m.Pix)
				check(b, limage.Image{{LayerBounds: r, Image: m}, {LayerBounds: r, Image: o}})
			}
			other := image.NewPaletted(r, append(color.Palette{color.Black}, p[:max(1, min(n, 255)-1)]...))
			if !check(b, limage.Image{{LayerBounds: r, Image: other}, {LayerBounds: r, Image: m}}) {
				return
			}
		}
	})
}

// flatRendered checks a masked or text picture that is written by itself: its
// look is kept, however it is stored.
func flatRendered(b *vh.B, m image.Image) {
	desc := lim.Describe(m)
	data, err := encode(m)
	if err != nil {
		b.Fail("encode", "Encode(%s): %v", desc, err)
		return
	}
	if _, err := xfmt.Parse(data); err != nil {
		b.Fail("structure", "%s is written as an invalid file: %v", desc, err)
		return
	}
	d, err := decode(data)
	if err != nil {
		b.Fail("decode", "decoding what Encode wrote for %s: %v", desc, err)
		return
	}
	b.EvalH(vh.HashBytes(data))
	r := m.Bounds()
	if d.Bounds() != (image.Rectangle{Max: r.Size()}) {
		b.Fail("position", "%s decodes with bounds %v", desc, d.Bounds())
		return
	}
	if diff, ok := lim.Same(d, m, d.Bounds(), r.Min, 520); !ok {
		b.Fail("pixel", "%s: decoded and original differ %s", desc, diff)
	}
}

func anyEmpty(g limage.Image) bool {
	for _, l := range g {
		if l.LayerBounds.Empty() {
			return true
		}
		if in, ok := group(l.Image); ok && anyEmpty(in) {
			return true
		}
	}
	return false
}

// build makes the picture with the given shape: inner nodes are groups.
func build(d []int, v int) limage.Image {
	i := 0
	var rec func(depth int) limage.Image
	rec = func(depth int) limage.Image {
		g := limage.Image{}
		for i < len(d) && d[i] == depth {
			k := i
			i++
			l := limage.Layer{Name: fmt.Sprintf("L%d", k), LayerBounds: image.Rect(0, 0, 3+k%2, 3).Add(image.Pt(k%3-1, (k*v)%3)), Transparency: uint8(k * 40 * (v & 1)), Invisible: (k+v)%4 == 3, Mode: modeList[(k*7+v)%len(modeList)]}
			if i < len(d) && d[i] > depth {
				in := rec(depth + 1)
				switch (k + v) % 3 {
				case 0:
					l.Image = in
				case 1:
					l.Image = &in
				case 2:
					l.Image = &limage.MaskedImage{Image: in, Mask: lim.MaskOf(image.Rectangle{Max: l.LayerBounds.Size()}, k)}
				}
			} else {
				switch (k + v) % 4 {
				case 0:
					l.Image = limage.Image{} // an empty group
				case 1:
					l.Image = limage.MaskedImage{Image: nr(4, 3, k), Mask: lim.MaskOf(image.Rect(0, 0, 4, 3), k)}
				default:
					l.Image = nr(4, 3, k+v)
				}
			}
			g = append(g, l)
		}
		return g
	}
	return rec(0)
}
