//go:build go1.22

package main

import (
	"fmt"
	"image"
	"math"

	"vimagination.zapto.org/limage/zzverif/lim"
	"vimagination.zapto.org/limage/zzverif/vh"
	"vimagination.zapto.org/limage/zzverif/xfmt"
)

var palette = [][3]byte{{0, 0, 0}, {255, 0, 0}, {0, 255, 0}, {10, 20, 250}, {255, 255, 255}, {1, 128, 127}, {77, 77, 77}}

// fill gives a layer its pixels.
func fill(f *xfmt.File, l *xfmt.Layer, salt int) {
	bpp := f.BPP(l)
	w, h := l.Rect.Dx(), l.Rect.Dy()
	l.Pix = make([]byte, w*h*bpp)
	for i := 0; i < w*h; i++ {
		x, y := i%w, i/w
		if salt%3 == 1 { // with long runs
			x, y = x/5, y/3
		}
		c := lim.Col(x, y, salt)
		p := l.Pix[i*bpp : (i+1)*bpp]
		switch f.Base {
		case 0:
			p[0], p[1], p[2] = c.R, c.G, c.B
		case 1:
			p[0] = c.R
		case 2:
			p[0] = byte(int(c.R) % len(f.Palette))
		}
		if !l.NoAlpha {
			p[bpp-1] = c.A
		}
	}
}

// fillMask gives a layer a mask.
func fillMask(l *xfmt.Layer, salt int) {
	l.Mask = lim.MaskOf(image.Rectangle{Max: l.Rect.Size()}, salt).Pix
}

func newFile(version, base, comp, w, h int) *xfmt.File {
	f := &xfmt.File{Version: version, Base: base, W: w, H: h}
	if base == 2 {
		f.Palette = palette
	}
	if comp > 0 {
		f.Compression, f.Runs = 1, comp-1
	}
	return f
}

func addLayer(f *xfmt.File, name string, r image.Rectangle, mode uint32, noAlpha bool, salt int) *xfmt.Layer {
	l := &xfmt.Layer{Name: name, Rect: r, Opacity: 255, Mode: mode, NoAlpha: noAlpha}
	fill(f, l, salt)
	f.Layers = append(f.Layers, l)
	return l
}

func describe(f *xfmt.File) string {
	s := fmt.Sprintf("version %d base %d compression %d/%d %dx%d palette %d levels %d channels %d gap %d paths %v", f.Version, f.Base, f.Compression, f.Runs, f.W, f.H, len(f.Palette), f.Levels, f.Channels, f.Gap, f.PathAll)
	for _, p := range append(append([]xfmt.Prop{}, f.Before...), f.After...) {
		s += fmt.Sprintf(" property %d % x", p.ID, p.Data)
	}
	var rec func(ls []*xfmt.Layer) string
	rec = func(ls []*xfmt.Layer) string {
		s := "["
		for _, l := range ls {
			s += fmt.Sprintf(" %q@%v mode %d opacity %d hidden %v alpha %v mask %v text %q", l.Name, l.Rect, l.Mode, l.Opacity, l.Hidden, !l.NoAlpha, l.Mask != nil, l.Text)
			for _, p := range append(append(append([]xfmt.Prop{}, l.Before...), l.After...), l.MaskProps...) {
				s += fmt.Sprintf(" property %d % x", p.ID, p.Data)
			}
			if l.Group {
				s += rec(l.Kids)
			}
		}
		return s + " ]"
	}
	return s + " " + rec(f.Layers)
}

func f32(v float32) uint32 { return math.Float32bits(v) }

func cat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

// imageProps are properties of images that do not change how it looks.
var imageProps = []xfmt.Prop{
	{18, nil}, // guides
	{18, cat(xfmt.U32(3), []byte{1})},
	{18, cat(xfmt.U32(3), []byte{1}, xfmt.U32(0xffffffff), []byte{2})},
	{18, cat(xfmt.U32(0), []byte{1}, xfmt.U32(0), []byte{1}, xfmt.U32(17), []byte{2})},
	{19, xfmt.U32(f32(72), f32(300))}, // resolution
	{20, xfmt.U32(12)},                // tattoo
	{21, xfmt.Parasite("gimp-comment", 1, "Created with GIMP\x00")},
	{21, cat(xfmt.Parasite("gimp-image-grid", 1, "(style solid)\n\x00"), xfmt.Parasite("empty", 0, ""), xfmt.Parasite("icc-profile", 1, string(make([]byte, 300))))},
	{21, nil},
	{22, xfmt.U32(1)}, // unit
	{22, xfmt.U32(4)},
	{24, cat(xfmt.U32(f32(2.54), 3), xfmt.Str("elbow"), xfmt.Str("e"), xfmt.Str("el."), xfmt.Str("elbow"), xfmt.Str("elbows"))},
	{24, cat(xfmt.U32(f32(1), 0), xfmt.U32(0), xfmt.Str(""), xfmt.Str("é"), xfmt.U32(0), xfmt.Str("x"))},
	{25, cat(xfmt.U32(1, 0, 0))}, // vectors: none
	{25, cat(xfmt.U32(1, 0, 1), xfmt.Str("Path"), xfmt.U32(7, 1, 1, 1, 1), xfmt.Parasite("p", 0, "q"), xfmt.U32(1, 0, 2, 1, 3), xfmt.U32(0, f32(1), f32(2)), xfmt.U32(1, f32(1), f32(2)))},
	{23, cat(xfmt.U32(0, 0))}, // paths of old versions
	{23, cat(xfmt.U32(0, 1), xfmt.Str("Path 1"), xfmt.U32(1), []byte{0}, xfmt.U32(1, 1, 3, 1, 9), xfmt.U32(1, f32(3), f32(4)))},
	{27, xfmt.U32(3, 4)},    // sample points of old versions
	{39, xfmt.U32(3, 4, 1)}, // sample points
	{39, xfmt.U32(3, 4, 1, 5, 6, 2)},
	{39, nil},
	{40, xfmt.U32(1, 2)}, // unknown
	{77, []byte{1}},
	{1000, make([]byte, 70000)},
	{0x7fffffff, nil},
}

// layerProps are properties of layers that do not change how they look.
var layerProps = []xfmt.Prop{
	{2, nil},                           // active
	{9, xfmt.U32(0)}, {9, xfmt.U32(1)}, // linked
	{10, xfmt.U32(1)}, {11, xfmt.U32(1)}, {12, xfmt.U32(0)}, {12, xfmt.U32(1)}, {13, xfmt.U32(0)},
	{20, xfmt.U32(9)},
	{21, xfmt.Parasite("gimp-comment", 1, "x\x00")},
	{21, cat(xfmt.Parasite("a", 1, "1"), xfmt.Parasite("gimp-text", 2, "22"), xfmt.Parasite("", 3, ""))},
	{26, xfmt.U32(0)},
	{28, xfmt.U32(1)}, {31, xfmt.U32(0)}, {31, xfmt.U32(1)}, {32, xfmt.U32(1)}, {34, xfmt.U32(3)},
	{35, xfmt.U32(0xffffffff)}, {36, xfmt.U32(1)}, {37, xfmt.U32(2)},
	{40, xfmt.U32(1, 2)}, {77, []byte{1}}, {1000, make([]byte, 70000)}, {0x7fffffff, nil},
}

// maskProps are properties of masks that do not change how they look.
var maskProps = []xfmt.Prop{
	{6, xfmt.U32(0)}, {6, xfmt.U32(255)}, {8, xfmt.U32(0)}, {8, xfmt.U32(1)}, {9, xfmt.U32(1)}, {14, xfmt.U32(1)},
	{16, []byte{1, 2, 3}}, {38, xfmt.U32(f32(0), f32(0.5), f32(1))}, {20, xfmt.U32(4)}, {28, xfmt.U32(0)}, {33, xfmt.U32(f32(0.5))},
	{3, nil}, {4, nil}, {34, xfmt.U32(1)}, {21, xfmt.Parasite("a", 0, "1")}, {77, []byte{1, 2, 3, 4, 5}}, {15, xfmt.U32(3, 4)},
}

func withData(p xfmt.Prop) bool { return p.ID != 5 }

// exploreFiles gives every file of the alphabet to check.
func exploreFiles(t *vh.T, check func(b *vh.B, f *xfmt.File) bool) {
	versions := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}
	sizes := vh.Pick(t, []image.Point{{1, 1}, {3, 2}, {64, 64}, {65, 63}, {130, 70}}, []image.Point{{1, 1}, {3, 2}, {64, 1}, {1, 64}, {64, 64}, {65, 63}, {63, 65}, {128, 128}, {130, 70}, {193, 129}})
	comps := xfmt.Strategies + 1
	t.Par("file-formats", len(versions)*3*comps, func(b *vh.B, i int) {
		v, base, comp := versions[i%len(versions)], i/len(versions)%3, i/len(versions)/3
		if v == 0 && base == 2 {
			return // colour maps of version 0 are broken
		}
		for si, s := range sizes {
			for _, noAlpha := range []bool{false, true} {
				for ex := 0; ex < 2; ex++ {
					f := newFile(v, base, comp, s.X, s.Y)
					f.Levels, f.Channels = ex*2, ex*2
					f.NoCompProp = comp == 0 && ex == 1
					l := addLayer(f, "top", image.Rect(-1, 1, s.X-1, s.Y+1), 0, false, si)
					if ex == 1 {
						fillMask(l, si)
					}
					l = addLayer(f, "bottom", image.Rect(0, 0, s.X, s.Y), 0, noAlpha, si+1)
					if ex == 1 && noAlpha {
						fillMask(l, si+3)
					}
					if !check(b, f) || b.Stop() {
						return
					}
				}
			}
		}
	})
	t.Par("file-image-properties", len(imageProps)*len(versions), func(b *vh.B, i int) {
		p, v := imageProps[i%len(imageProps)], versions[i/len(imageProps)]
		for base := 0; base < 3; base++ {
			if v == 0 && base == 2 {
				continue
			}
			for where := 0; where < 4; where++ {
				f := newFile(v, base, 1, 5, 4)
				addLayer(f, "l", image.Rect(0, 0, 5, 4), 0, false, i)
				if where == 0 || where == 2 {
					f.Before = append(f.Before, p)
				}
				if where == 1 || where == 2 {
					f.After = append(f.After, p)
				}
				if where == 3 {
					for _, q := range imageProps {
						if !t.Quick || (int(q.ID)+len(q.Data)+i)%3 == 0 {
							f.Before = append(f.Before, p, q)
						}
					}
				}
				if !check(b, f) {
					return
				}
			}
		}
	})
	t.Par("file-image-property-pairs", len(imageProps)*len(imageProps), func(b *vh.B, i int) {
		f := newFile(3+8*(i%2), i%3, 1, 3, 2)
		f.Before = []xfmt.Prop{imageProps[i%len(imageProps)]}
		f.After = []xfmt.Prop{imageProps[i/len(imageProps)]}
		addLayer(f, "l", image.Rect(0, 0, 3, 2), 0, false, i)
		check(b, f)
	})
	t.Par("file-layer-properties", len(layerProps)*len(layerProps), func(b *vh.B, i int) {
		p, q := layerProps[i%len(layerProps)], layerProps[i/len(layerProps)]
		for _, v := range []int{0, 3, 4, 10, 11, 13} {
			for base := 0; base < 3; base++ {
				if v == 0 && base == 2 {
					continue
				}
				f := newFile(v, base, 1, 5, 4)
				l := addLayer(f, "l", image.Rect(0, 0, 5, 4), 3, false, i)
				l.Before, l.After = []xfmt.Prop{p}, []xfmt.Prop{q}
				l.Opacity, l.Hidden = 99, i%2 == 0
				l.Rot = i
				fillMask(l, i)
				l = addLayer(f, "m", image.Rect(1, 0, 5, 4), 0, true, i)
				l.Before = []xfmt.Prop{q}
				l.Rot = i + v
				if !check(b, f) {
					return
				}
				g := &xfmt.Layer{Name: "g", Group: true, Rect: image.Rect(0, 0, 5, 4), Opacity: 7, Kids: f.Layers[:1], Before: []xfmt.Prop{q}, After: []xfmt.Prop{p}, Rot: i / 3}
				f.Layers = []*xfmt.Layer{g, f.Layers[1]}
				if !check(b, f) {
					return
				}
			}
		}
	})
	floats := []xfmt.Prop{{5, xfmt.U32(0)}, {5, xfmt.U32(1234)}, {5, xfmt.U32(0, 77)}}
	t.Par("file-floating-selections", len(floats)*14, func(b *vh.B, i int) {
		p, v := floats[i/14], i%14
		if (v >= 11) != (len(p.Data) == 8) {
			return
		}
		for base := 0; base < 3; base++ {
			if v == 0 && base == 2 {
				continue
			}
			f := newFile(v, base, 1, 5, 4)
			addLayer(f, "floating", image.Rect(0, 0, 5, 4), 3, false, i).Before = []xfmt.Prop{p}
			addLayer(f, "m", image.Rect(1, 0, 5, 4), 0, false, i).After = []xfmt.Prop{{2, nil}}
			if !check(b, f) {
				return
			}
		}
	})
	t.Par("file-mask-properties", len(maskProps)*len(maskProps), func(b *vh.B, i int) {
		for _, v := range []int{3, 10, 11} {
			for base := 0; base < 3; base++ {
				f := newFile(v, base, i%comps, 66, 3)
				l := addLayer(f, "l", image.Rect(-1, -1, 65, 2), 3, false, i)
				l.MaskProps = []xfmt.Prop{maskProps[i%len(maskProps)], maskProps[i/len(maskProps)]}
				fillMask(l, i)
				addLayer(f, "m", image.Rect(1, 0, 5, 3), 0, true, i)
				if !check(b, f) {
					return
				}
			}
		}
	})
	t.Par("file-modes", 62*3, func(b *vh.B, i int) {
		mode, base := uint32(i%62), i/62
		for _, v := range []int{2, 9, 12} {
			f := newFile(v, base, 1, 3, 3)
			addLayer(f, "top", image.Rect(0, 0, 3, 3), mode, false, i)
			g := addLayer(f, "group", image.Rect(0, 0, 3, 3), mode, false, i)
			g.Group, g.Kids = true, nil
			k := &xfmt.Layer{Name: "kid", Rect: image.Rect(0, 0, 3, 3), Mode: mode, Opacity: 200}
			fill(f, k, i)
			g.Kids = []*xfmt.Layer{k}
			addLayer(f, "bottom", image.Rect(0, 0, 3, 3), mode, true, i)
			if !check(b, f) {
				return
			}
		}
	})
	t.Par("file-opacities", 256, func(b *vh.B, o int) {
		for v := 0; v < 14; v++ {
			for fl := 0; fl < 3; fl++ {
				f := newFile(v, v%2, 1, 2, 2)
				l := addLayer(f, "o", image.Rect(0, 0, 2, 2), 0, false, o)
				l.Opacity = uint8(o)
				l.Float = fl > 0
				l.Rot = fl - 1 + v
				if fl == 0 {
					l.Rot = 0
				}
				l.Hidden = o%2 == 0
				addLayer(f, "b", image.Rect(0, 0, 2, 2), 0, false, o)
				if !check(b, f) {
					return
				}
			}
		}
	})
	// Opacities between the steps of a byte, to the nearest of which they go.
	t.Par("file-float-opacities", 1024, func(b *vh.B, j int) {
		o := float32(j) / 1023
		n := math.Floor(float64(o)*255 + 0.5)
		if math.Abs(float64(o)*255+0.5-n) < 0.01 || n+1-(float64(o)*255+0.5) < 0.01 {
			return
		}
		for v := 0; v < 14; v++ {
			f := newFile(v, v%2, 1, 2, 2)
			l := addLayer(f, "o", image.Rect(0, 0, 2, 2), 0, false, j)
			l.Opacity = uint8(n)
			l.After = []xfmt.Prop{{ID: 33, Data: xfmt.U32(math.Float32bits(o))}}
			addLayer(f, "b", image.Rect(0, 0, 2, 2), 0, false, j)
			if !check(b, f) {
				return
			}
		}
	})
	// Layers anywhere around the canvas.
	step := vh.Pick(t, 3, 1)
	var rects []image.Rectangle
	for x := -5; x <= 8; x += step {
		for y := -5; y <= 7; y += step {
			for _, s := range []image.Point{{1, 1}, {4, 3}, {9, 2}, {12, 11}} {
				rects = append(rects, image.Rectangle{Max: s}.Add(image.Pt(x, y)))
			}
		}
	}
	t.Par("file-offsets", len(rects), func(b *vh.B, i int) {
		r := rects[i]
		for base := 0; base < 3; base++ {
			for comp := 0; comp < 2; comp++ {
				f := newFile(3+9*comp, base, comp, 6, 5)
				fillMask(addLayer(f, "t", r, 0, false, i), i)
				addLayer(f, "n", r.Sub(image.Pt(1, 1)), 4, false, i)
				g := &xfmt.Layer{Name: "g", Group: true, Rect: r, Opacity: 255, Kids: f.Layers[:2:2]}
				if i%2 == 0 {
					fillMask(g, i)
				}
				f.Layers = []*xfmt.Layer{f.Layers[0], g}
				addLayer(f, "b", r.Add(image.Pt(2, 0)), 0, true, i)
				if !check(b, f) {
					return
				}
			}
		}
	})
	shapes := lim.Forests(vh.Pick(t, 5, 7))
	t.Par("file-forests", len(shapes), func(b *vh.B, i int) {
		for v := 0; v < 4; v++ {
			f := newFile([]int{1, 3, 10, 11}[v], i%3, 1+(i+v)%xfmt.Strategies, 6, 5)
			f.PathAll = v%2 == 1
			f.Layers = buildFile(f, shapes[i], v)
			if !check(b, f) || b.Stop() {
				return
			}
		}
	})
	t.Par("file-palettes", 256, func(b *vh.B, i int) {
		for _, v := range []int{1, 3, 4, 13} {
			for _, na := range []bool{false, true} {
				f := newFile(v, 2, 1, 17, 16)
				f.Palette = nil
				for j := 0; j <= i; j++ {
					f.Palette = append(f.Palette, [3]byte{byte(j * 3), byte(j ^ 0x55), byte(255 - j)})
				}
				l := addLayer(f, "p", image.Rect(0, 0, 17, 16), 0, na, 1)
				for j := 0; j < 17*16; j++ {
					l.Pix[j*f.BPP(l)] = byte(j % (i + 1))
				}
				if !check(b, f) {
					return
				}
			}
		}
	})
	// Layers of one colour, and of nothing but changes, of whole tiles.
	flats := []image.Point{{64, 1}, {127, 1}, {128, 1}, {129, 1}, {64, 4}, {64, 64}, {128, 64}, {70, 130}}
	t.Par("file-flat", len(flats)*comps*3, func(b *vh.B, i int) {
		s, comp, base := flats[i%len(flats)], i/len(flats)%comps, i/len(flats)/comps
		for period := 0; period < 5; period++ {
			f := newFile(3+8*(period%2), base, comp, s.X, s.Y)
			l := addLayer(f, "flat", image.Rect(0, 0, s.X, s.Y), 0, i%2 == 1, i)
			bpp := f.BPP(l)
			for j := range l.Pix {
				c := j%bpp*3 + 1
				switch p := j / bpp; period {
				case 1: // changes at the very end
					if p == s.X*s.Y-1 {
						c++
					}
				case 2: // one colour, but for the first pixel
					if p == 0 {
						c++
					}
				case 3:
					c += p % 2
				case 4:
					c += p % s.X % 3
				}
				if base == 2 && j%bpp == 0 {
					c %= len(f.Palette)
				}
				l.Pix[j] = byte(c)
			}
			if !check(b, f) || b.Stop() {
				return
			}
		}
	})
	// Many layers, and groups within groups.
	counts := vh.Pick(t, []int{17, 33, 65, 129, 257, 1030}, []int{17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1025, 4099})
	t.Par("file-many", len(counts)*4, func(b *vh.B, i int) {
		n, in := counts[i/4], i%4
		f := newFile(3+8*(i%2), i%3, 1, 3, 2)
		for j := 0; j < n; j++ {
			addLayer(f, fmt.Sprint("number ", j), image.Rect(0, 0, 1+j%2, 1).Add(image.Pt(j%2, j%2)), 0, j == n-1, j).Opacity = uint8(j)
		}
		f.PathAll = i%2 == 0
		if in > 1 { // all in a group, below another one
			g := &xfmt.Layer{Name: "g", Group: true, Rect: image.Rect(0, 0, 3, 2), Opacity: 255, Kids: f.Layers}
			for _, k := range g.Kids {
				k.NoAlpha = false
				fill(f, k, 1)
			}
			f.Layers = nil
			addLayer(f, "top", image.Rect(0, 0, 2, 2), 0, false, 3)
			f.Layers = append(f.Layers, g)
			addLayer(f, "bottom", image.Rect(0, 0, 2, 2), 0, false, 3)
		}
		check(b, f)
	})
	deep := vh.Pick(t, []int{8, 15, 16, 17, 31, 33, 65, 130}, []int{8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 129, 255, 257})
	t.Par("file-deep", len(deep)*2, func(b *vh.B, i int) {
		f := newFile(3+8*(i%2), i%3, 1, 3, 2)
		for j := 0; j < deep[i/2]; j++ {
			inner := f.Layers
			f.Layers = nil
			addLayer(f, fmt.Sprint("beside ", j), image.Rect(0, 0, 1, 1), 0, false, j)
			f.Layers = append(f.Layers, &xfmt.Layer{Name: fmt.Sprint("level ", j), Group: true, Rect: image.Rect(0, 0, 3, 2), Opacity: uint8(255 - j), Kids: inner})
			if j%3 == 0 {
				f.Layers[0], f.Layers[1] = f.Layers[1], f.Layers[0]
			}
		}
		check(b, f)
	})
	fnames := []string{"", "a", "Layer #1", "é 日本 🎨", string(make([]byte, 0)), fmt.Sprintf("%03000d", 1), "new\nline", "q\"\\", fmt.Sprintf("%070000d", 1)}
	t.Par("file-names", len(fnames), func(b *vh.B, i int) {
		for v := 0; v < 14; v++ {
			f := newFile(v, 0, 1, 2, 2)
			fillMask(addLayer(f, fnames[i], image.Rect(0, 0, 2, 2), 0, false, v), i)
			addLayer(f, fnames[(i+1)%len(fnames)], image.Rect(0, 0, 2, 2), 0, false, v)
			if !check(b, f) {
				return
			}
		}
	})
}

// buildFile makes layers with the given shape.
func buildFile(f *xfmt.File, d []int, v int) []*xfmt.Layer {
	i := 0
	var rec func(depth int) []*xfmt.Layer
	rec = func(depth int) []*xfmt.Layer {
		var out []*xfmt.Layer
		for i < len(d) && d[i] == depth {
			k := i
			i++
			l := &xfmt.Layer{Name: fmt.Sprintf("L%d", k), Rect: image.Rect(0, 0, 3+k%2, 3).Add(image.Pt(k%5-2, (k*v)%4)), Opacity: uint8(255 - k*30*(v&1)), Hidden: (k+v)%4 == 3, Mode: uint32((k*7 + v) % 62), Rot: k + v}
			if (k+v)%3 == 0 {
				fillMask(l, k)
			}
			if i < len(d) && d[i] > depth {
				l.Group = true
				l.Kids = rec(depth + 1)
			} else if (k+v)%5 == 0 {
				l.Group = true // an empty group
			} else {
				l.NoAlpha = i == len(d) && v%2 == 0
				fill(f, l, k+v)
			}
			out = append(out, l)
		}
		return out
	}
	return rec(0)
}
