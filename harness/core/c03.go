//go:build go1.22

package main

import (
	"fmt"
	"image"
	"image/color"
	"math"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/zzverif/vh"
)

var c03 = vh.Check{
	ID: "C03", Level: "model_checking",
	Rule:   "breadth-first search to the fixpoint over the pixel states of a small image: each transition is one write (direct or by colour) through one view (the image, a sub-image, or a sub-image of a sub-image) at one coordinate inside or outside it, executed on the real image and compared, through every view and at every coordinate, with an array model",
	Assume: []string{"pixel values come from a small alphabet per type; rectangles of at most six pixels at positive and negative origins"},
	Run:    runC03,
}

// pix adapts the three image types; a pixel value is a small alphabet index.
type pix struct {
	name  string
	alpha []uint16 // encoded pixel values, the first is zero
	make  func(r image.Rectangle) image.Image
	raw   func(m image.Image, i int, v uint16) // write Pix[i]
	set   func(m image.Image, x, y int, v uint16)
	get   func(m image.Image, x, y int) uint16
	at    func(c color.Color) (uint16, bool) // what At returned
	cols  []colv                             // colours to Set, with the value they must become
	off   func(m image.Image, x, y int) int
}

type colv struct {
	c color.Color
	v uint16
}

var testPal = lcolor.AlphaPalette{color.NRGBA{10, 20, 30, 255}, color.NRGBA{255, 0, 0, 255}, color.NRGBA{0, 0, 255, 255}}

var pixTypes = []pix{
	{
		name:  "RGB",
		alpha: []uint16{0, 1, 2},
		make:  func(r image.Rectangle) image.Image { return limage.NewRGB(r) },
		raw:   func(m image.Image, i int, v uint16) { m.(*limage.RGB).Pix[i] = rgbVals[v] },
		set:   func(m image.Image, x, y int, v uint16) { m.(*limage.RGB).SetRGB(x, y, rgbVals[v]) },
		get: func(m image.Image, x, y int) uint16 {
			return rgbIdx(m.(*limage.RGB).RGBAt(x, y))
		},
		at: func(c color.Color) (uint16, bool) { v, ok := c.(lcolor.RGB); return rgbIdx(v), ok },
		cols: []colv{
			{color.RGBA{10, 200, 3, 255}, 1},
			{color.NRGBA{255, 255, 255, 0}, 0},
			{color.NRGBA{255, 255, 255, 128}, 2},
			{color.NRGBA64{0x8080, 0x8080, 0x8080, 0xffff}, 2},
		},
		off: func(m image.Image, x, y int) int { return m.(*limage.RGB).PixOffset(x, y) },
	},
	{
		name:  "GrayAlpha",
		alpha: []uint16{0, 1, 2},
		make:  func(r image.Rectangle) image.Image { return limage.NewGrayAlpha(r) },
		raw:   func(m image.Image, i int, v uint16) { m.(*limage.GrayAlpha).Pix[i] = gaVals[v] },
		set:   func(m image.Image, x, y int, v uint16) { m.(*limage.GrayAlpha).SetGrayAlpha(x, y, gaVals[v]) },
		get:   func(m image.Image, x, y int) uint16 { return gaIdx(m.(*limage.GrayAlpha).GrayAlphaAt(x, y)) },
		at:    func(c color.Color) (uint16, bool) { v, ok := c.(lcolor.GrayAlpha); return gaIdx(v), ok },
		cols: []colv{
			{color.Gray{200}, 1},
			{color.NRGBA{90, 90, 90, 128}, 2},
			{color.Transparent, 0},
		},
		off: func(m image.Image, x, y int) int { return m.(*limage.GrayAlpha).PixOffset(x, y) },
	},
	{
		name:  "PalettedAlpha",
		alpha: []uint16{0, 1, 2},
		make:  func(r image.Rectangle) image.Image { return limage.NewPalettedAlpha(r, testPal) },
		raw:   func(m image.Image, i int, v uint16) { m.(*limage.PalettedAlpha).Pix[i] = iaVals[v] },
		set: func(m image.Image, x, y int, v uint16) {
			m.(*limage.PalettedAlpha).SetIndexAlpha(x, y, iaVals[v])
		},
		get: func(m image.Image, x, y int) uint16 { return iaIdx(m.(*limage.PalettedAlpha).IndexAlphaAt(x, y)) },
		at: func(c color.Color) (uint16, bool) {
			n := straight(c)
			for i, v := range iaVals {
				if w := straight(testPal[v.I]); n.R == w.R && n.G == w.G && n.B == w.B && n.A == uint16(v.A)*257 {
					return uint16(i), true
				}
			}
			return 99, false
		},
		cols: []colv{
			{color.NRGBA{250, 10, 0, 255}, 1},
			{color.NRGBA{0, 30, 200, 77}, 2},
			{color.NRGBA{10, 20, 30, 0}, 0},
		},
		off: func(m image.Image, x, y int) int { return m.(*limage.PalettedAlpha).PixOffset(x, y) },
	},
}

var (
	rgbVals = []lcolor.RGB{{}, {R: 10, G: 200, B: 3}, {R: 128, G: 128, B: 128}}
	gaVals  = []lcolor.GrayAlpha{{}, {Y: 200, A: 255}, {Y: 90, A: 128}}
	iaVals  = []lcolor.IndexedAlpha{{}, {I: 1, A: 255}, {I: 2, A: 77}}
)

func idx[T comparable](v T, vals []T) uint16 {
	for i, w := range vals {
		if v == w {
			return uint16(i)
		}
	}
	return 99
}

func rgbIdx(v lcolor.RGB) uint16         { return idx(v, rgbVals) }
func gaIdx(v lcolor.GrayAlpha) uint16    { return idx(v, gaVals) }
func iaIdx(v lcolor.IndexedAlpha) uint16 { return idx(v, iaVals) }

type view struct {
	m    image.Image
	r    image.Rectangle
	desc string
}

func sub(m image.Image, r image.Rectangle) image.Image {
	return m.(interface {
		SubImage(image.Rectangle) image.Image
	}).SubImage(r)
}

func rects(r image.Rectangle) []image.Rectangle {
	var out []image.Rectangle
	for x0 := r.Min.X; x0 <= r.Max.X; x0++ {
		for x1 := x0; x1 <= r.Max.X; x1++ {
			for y0 := r.Min.Y; y0 <= r.Max.Y; y0++ {
				for y1 := y0; y1 <= r.Max.Y; y1++ {
					out = append(out, image.Rect(x0, y0, x1, y1))
				}
			}
		}
	}
	return out
}

// largeShapes are rectangles whose coordinates and offsets pass the limits of
// small integers.
var largeShapes = []image.Rectangle{image.Rect(0, 0, 515, 3), image.Rect(-3, -260, 0, 255), image.Rect(-7, 5, 70000, 6), image.Rect(9, -65540, 10, 70), image.Rect(-100, -100, 200, 160), image.Rect(1<<33, -1<<34, 1<<33+5, 3-1<<34)}

// marks are the positions on an axis at which something may change.
func marks(n int) []int {
	var out []int
	for _, k := range []int{0, 1, 2, 3, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, n - 2, n - 1} {
		if k >= 0 && k < n && (len(out) == 0 || k > out[len(out)-1]) {
			out = append(out, k)
		}
	}
	return out
}

// largeImages writes to images that are large, through views of them.
func largeImages(t *vh.T) {
	t.Par("large-images", len(pixTypes)*len(largeShapes), func(b *vh.B, i int) {
		p, r := pixTypes[i%len(pixTypes)], largeShapes[i/len(pixTypes)]
		root := p.make(r)
		views := []view{{root, r, "image"}}
		in := r
		if r.Dx() > 4 {
			in.Min.X += 2
			in.Max.X--
		}
		if r.Dy() > 4 {
			in.Min.Y += 2
			in.Max.Y--
		}
		s := sub(root, in)
		mid := image.Rect((r.Min.X+r.Max.X)/2, r.Min.Y, r.Max.X, r.Max.Y)
		if r.Dy() > r.Dx() {
			mid = image.Rect(r.Min.X, (r.Min.Y+r.Max.Y)/2, r.Max.X, r.Max.Y)
		}
		views = append(views, view{s, in, "inner"}, view{sub(s, mid), mid.Intersect(in), "second half of inner"}, view{sub(root, mid), mid, "second half"})
		model := map[image.Point]uint16{}
		n := 0
		for _, y := range marks(r.Dy()) {
			for _, x := range marks(r.Dx()) {
				q := image.Pt(r.Min.X+x, r.Min.Y+y)
				v := views[n%len(views)]
				n++
				val := p.alpha[1+n%2]
				p.set(v.m, q.X, q.Y, val)
				if q.In(v.r) {
					model[q] = val
				}
				// Where a written pixel might also be.
				for _, w := range views {
					for _, d := range []int{0, 1, -1, 64, -64, 256, -256, 65536, -65536} {
						for _, o := range []image.Point{q.Add(image.Pt(d, 0)), q.Add(image.Pt(0, d))} {
							want := uint16(0)
							if o.In(w.r) {
								want = model[o]
							}
							if got := p.get(w.m, o.X, o.Y); got != want {
								b.Fail("large:"+p.name, "%s %v: after a write to %v through %s, %v of %s reads %d, want %d", p.name, r, q, v.desc, o, w.desc, got, want)
								return
							}
						}
					}
				}
				b.Eval(1, 1)
			}
			b.Tick()
		}
		for _, w := range views {
			for y := w.r.Min.Y - 1; y <= w.r.Max.Y; y++ {
				for x := w.r.Min.X - 1; x <= w.r.Max.X; x++ {
					want := uint16(0)
					if (image.Point{x, y}).In(w.r) {
						want = model[image.Pt(x, y)]
					}
					if got := p.get(w.m, x, y); got != want {
						b.Fail("large:"+p.name, "%s %v: after all writes, (%d,%d) of %s reads %d, want %d", p.name, r, x, y, w.desc, got, want)
						return
					}
				}
			}
		}
	})
}

func runC03(t *vh.T) {
	largeImages(t)
	shapes := []image.Rectangle{image.Rect(0, 0, 2, 2), image.Rect(-1, -2, 1, 0), image.Rect(5, -3, 8, -2), image.Rect(-7, 4, -6, 7), image.Rect(0, 0, 1, 1), image.Rect(3, 3, 3, 3), image.Rect(0, 0, 0, 4)}
	shapes = append(shapes, image.Rect(-2, 1, 1, 3), image.Rect(-1, -1, 1, 2), image.Rect(100, 7, 105, 8))
	if !t.Quick {
		shapes = append(shapes, image.Rect(-3, 0, 0, 2), image.Rect(4, 4, 11, 5), image.Rect(-1, -3, 1, 1))
	}
	t.Par("bfs", len(pixTypes)*len(shapes), func(b *vh.B, i int) {
		bfsPixels(t, b, pixTypes[i/len(shapes)], shapes[i%len(shapes)])
	})
	// The colour given to Set goes through the image's own colour model.
	lv := []int{0, 1, 100, 127, 128, 129, 254, 255}
	t.Par("set-by-colour", len(lv)*len(lv), func(b *vh.B, i int) {
		for _, g := range lv {
			for _, bl := range lv {
				for _, c := range forms(uint8(lv[i/len(lv)]), uint8(g), uint8(bl), uint8(lv[i%len(lv)])) {
					for _, p := range pixTypes {
						m := p.make(image.Rect(-1, -1, 1, 1))
						m.(interface{ Set(x, y int, c color.Color) }).Set(-1, 0, c)
						got, want := straight(m.At(-1, 0)), straight(m.ColorModel().Convert(c))
						d := 0
						if p.name == "PalettedAlpha" { // the alpha of a pixel has 8 bits
							want.A = want.A >> 8 * 257
						}
						if got != want || d != 0 {
							b.Fail("set-model:"+p.name, "%s: Set(%T %v) reads back %v, the colour model gives %v", p.name, c, c, got, want)
							return
						}
						b.Eval(1, 1)
						for y := -2; y < 3; y++ {
							for x := -2; x < 3; x++ {
								if (x != -1 || y != 0) && p.get(m, x, y) != 0 {
									b.Fail("set-other:"+p.name, "%s: Set(-1,0) changed (%d,%d)", p.name, x, y)
									return
								}
							}
						}
					}
				}
			}
		}
	})
	far := []int{math.MinInt64, math.MinInt64 + 1, -1 << 40, -1 << 31, -100, 100, 1 << 31, 1<<40 + 1, math.MaxInt64 - 1, math.MaxInt64, 0, -1, 1}
	t.Par("far-coordinates", len(pixTypes), func(b *vh.B, i int) {
		p := pixTypes[i]
		root := p.make(image.Rect(-1, -1, 1, 1))
		for _, m := range []image.Image{root, sub(root, image.Rect(0, 0, 1, 1)), sub(root, image.Rect(math.MinInt64, math.MinInt64, math.MaxInt64, 0)), sub(root, image.Rect(50, 50, 60, 60)), sub(sub(root, image.Rect(50, 50, 60, 60)), image.Rect(0, 0, 1, 1))} {
			for _, x := range far {
				for _, y := range far {
					if (image.Point{x, y}).In(image.Rect(-1, -1, 1, 1)) {
						continue
					}
					b.Eval(1, 1)
					p.set(m, x, y, 1)
					m.(interface{ Set(x, y int, c color.Color) }).Set(x, y, p.cols[0].c)
					if p.get(m, x, y) != 0 {
						b.Fail("far:"+p.name, "%s: read at (%d,%d) is not the zero colour", p.name, x, y)
						return
					}
					m.At(x, y)
				}
			}
			for y := -1; y < 1; y++ {
				for x := -1; x < 1; x++ {
					if p.get(root, x, y) != 0 {
						b.Fail("far-write:"+p.name, "%s: a write outside changed (%d,%d)", p.name, x, y)
						return
					}
				}
			}
		}
	})
	t.Par("empty-palette", 2, func(b *vh.B, i int) {
		m := limage.NewPalettedAlpha(image.Rect(0, 0, 2, 2), []lcolor.AlphaPalette{nil, {}}[i])
		for y := -1; y < 3; y++ {
			for x := -1; x < 3; x++ {
				m.At(x, y)
				m.Set(x, y, color.White)
				m.SetIndexAlpha(x, y, lcolor.IndexedAlpha{A: 3})
				m.At(x, y)
				b.Eval(1, 1)
			}
		}
		sub(m, image.Rect(1, 1, 5, 5)).At(1, 1)
	})
}

func bfsPixels(t *vh.T, b *vh.B, p pix, r image.Rectangle) {
	n := r.Dx() * r.Dy()
	root := p.make(r)
	win := r.Inset(-2)
	if r.Empty() {
		win = image.Rect(r.Min.X-2, r.Min.Y-2, r.Min.X+3, r.Min.Y+3)
	}
	views := []view{{root, r, "image"}}
	outer := rects(r.Inset(-1))
	if len(outer) > 120 {
		var o []image.Rectangle
		for i, q := range outer {
			if i%(len(outer)/100+1) == 0 || q.Eq(r) {
				o = append(o, q)
			}
		}
		outer = o
	}
	seen := map[string]bool{}
	add := func(m image.Image, lim image.Rectangle, desc string) {
		k := fmt.Sprint(lim, desc[:4])
		if seen[k] {
			return
		}
		seen[k] = true
		views = append(views, view{m, lim, desc})
	}
	for i, q := range outer {
		s := sub(root, q)
		lim := q.Intersect(r)
		if lim.Empty() {
			lim = image.Rectangle{}
		}
		add(s, lim, fmt.Sprint("sub1", q))
		q2 := outer[(i*7+3)%len(outer)]
		lim2 := q2.Intersect(lim)
		if lim2.Empty() {
			lim2 = image.Rectangle{}
		}
		add(sub(s, q2), lim2, fmt.Sprint("sub2", q, q2))
	}
	for _, v := range views {
		if v.m.Bounds() != v.r && !(v.m.Bounds().Empty() && v.r.Empty()) {
			b.Fail("bounds:"+p.name, "%s %v: bounds %v of %s, want %v", p.name, r, v.m.Bounds(), v.desc, v.r)
			return
		}
	}
	// Offsets of distinct pixels are distinct and inside Pix: learnt by the
	// raw writes below, which must be seen by every view.
	load := func(st string) {
		for i := 0; i < n; i++ {
			x, y := r.Min.X+i%max(r.Dx(), 1), r.Min.Y+i/max(r.Dx(), 1)
			p.raw(root, p.off(root, x, y), uint16(st[i]))
		}
	}
	verified := 0
	verify := func(st string, how func() string) bool {
		verified++
		for _, v := range views {
			for y := win.Min.Y; y < win.Max.Y; y++ {
				for x := win.Min.X; x < win.Max.X; x++ {
					want := uint16(0)
					if (image.Point{x, y}).In(v.r) {
						want = uint16(st[(y-r.Min.Y)*r.Dx()+x-r.Min.X])
					}
					if got := p.get(v.m, x, y); got != want {
						b.Fail("read:"+p.name, "%s %v: after %s, (%d,%d) of %s reads %d, want %d", p.name, r, how(), x, y, v.desc, got, want)
						return false
					}
				}
			}
		}
		return true
	}
	init := string(make([]byte, n))
	states := map[string]bool{init: true}
	frontier := []string{init}
	trans := 0
	for len(frontier) > 0 && !b.Stop() {
		st := frontier[0]
		frontier = frontier[1:]
		b.Tick()
		load(st)
		if !verify(st, func() string { return "loading" }) {
			return
		}
		// What At returns agrees with the value of the pixel.
		for _, v := range views {
			for y := v.r.Min.Y; y < v.r.Max.Y; y++ {
				for x := v.r.Min.X; x < v.r.Max.X; x++ {
					if got, ok := p.at(v.m.At(x, y)); !ok || got != uint16(st[(y-r.Min.Y)*r.Dx()+x-r.Min.X]) {
						b.Fail("at:"+p.name, "%s %v: At(%d,%d) of %s is %v", p.name, r, x, y, v.desc, v.m.At(x, y))
						return
					}
				}
			}
		}
		for _, v := range views {
			for y := win.Min.Y; y < win.Max.Y; y++ {
				for x := win.Min.X; x < win.Max.X; x++ {
					in := (image.Point{x, y}).In(v.r)
					for op := 0; op < len(p.alpha)+len(p.cols); op++ {
						next := st
						var val uint16
						if op < len(p.alpha) {
							val = p.alpha[op]
							p.set(v.m, x, y, val)
						} else {
							c := p.cols[op-len(p.alpha)]
							val = c.v
							v.m.(interface{ Set(x, y int, c color.Color) }).Set(x, y, c.c)
						}
						if in {
							k := (y-r.Min.Y)*r.Dx() + x - r.Min.X
							next = st[:k] + string([]byte{byte(val)}) + st[k+1:]
						}
						trans++
						// The whole of the root first, then the other views only
						// when something must have changed.
						how := func() string {
							return fmt.Sprintf("state %v, write %d of op %d at (%d,%d) through %s", []byte(st), val, op, x, y, v.desc)
						}
						for k := 0; k < n; k++ {
							if got := p.get(root, r.Min.X+k%r.Dx(), r.Min.Y+k/r.Dx()); got != uint16(next[k]) {
								b.Fail("write:"+p.name, "%s %v: after %s, pixel %d is %d, want %d", p.name, r, how(), k, got, next[k])
								return
							}
						}
						if in && !states[next] {
							if !verify(next, how) {
								return
							}
							states[next] = true
							frontier = append(frontier, next)
						}
						if next != st {
							load(st)
						}
					}
				}
			}
		}
	}
	b.States(len(states), trans, verified)
	b.Eval(trans, trans)
	if n == 4 {
		t.Sample(map[string]any{"type": p.name, "bounds": r.String(), "views": len(views), "states": len(states), "transitions": trans})
	}
}
