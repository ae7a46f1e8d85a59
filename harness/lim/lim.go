//go:build go1.22

// Package lim holds the layered pictures the checks enumerate, and the
// reference rendering of them.
package lim

import (
	"fmt"
	"image"
	"image/color"
	"math/bits"
	"strings"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
)

// Straight gives the un-premultiplied 16-bit colour.
func Straight(c color.Color) color.NRGBA64 {
	switch c := c.(type) {
	case color.NRGBA64:
		return c
	case color.NRGBA:
		return color.NRGBA64{uint16(c.R) * 257, uint16(c.G) * 257, uint16(c.B) * 257, uint16(c.A) * 257}
	}
	if n, ok := c.(interface{ ToNRGBA() color.NRGBA64 }); ok {
		return n.ToNRGBA()
	}
	return color.NRGBA64Model.Convert(c).(color.NRGBA64)
}

// Premul gives the premultiplied components.
func Premul(c color.Color) [4]int {
	r, g, b, a := c.RGBA()
	return [4]int{int(r), int(g), int(b), int(a)}
}

// Dist is the largest difference of the premultiplied components.
func Dist(a, b color.Color) int {
	p, q := Premul(a), Premul(b)
	d := 0
	for i := range p {
		d = max(d, p[i]-q[i], q[i]-p[i])
	}
	return d
}

func scale(c color.NRGBA64, o uint8) color.NRGBA64 {
	c.A = uint16(uint32(c.A) * uint32(o) / 255)
	if o == 0 {
		return color.NRGBA64{}
	}
	return c
}

func scaleAll(cs []color.NRGBA64, o uint8) []color.NRGBA64 {
	out := make([]color.NRGBA64, len(cs))
	for i, c := range cs {
		out[i] = scale(c, o)
	}
	return out
}

// Model gives the colour model of a picture, by its definition.
func Model(m image.Image) color.Model {
	switch m := m.(type) {
	case limage.Image:
		if len(m) == 0 {
			return color.AlphaModel
		}
		return Model(m[0].Image)
	case *limage.Image:
		return Model(*m)
	case limage.Layer:
		return Model(m.Image)
	case *limage.Layer:
		return Model(m.Image)
	case limage.MaskedImage:
		return Model(m.Image)
	case *limage.MaskedImage:
		return Model(m.Image)
	case limage.Text:
		return Model(m.Image)
	case *limage.Text:
		return Model(m.Image)
	}
	return m.ColorModel()
}

// At gives the possible colours of a picture at a point, by the definition of
// rendering. There is more than one only because of dissolve mode.
func At(m image.Image, x, y int) []color.NRGBA64 {
	switch m := m.(type) {
	case limage.Image:
		return fold(m, x, y)
	case *limage.Image:
		return fold(*m, x, y)
	case limage.Layer:
		return layerAt(m, x, y)
	case *limage.Layer:
		return layerAt(*m, x, y)
	case limage.MaskedImage:
		return masked(m, x, y)
	case *limage.MaskedImage:
		return masked(*m, x, y)
	case limage.Text:
		return At(m.Image, x, y)
	case *limage.Text:
		return At(m.Image, x, y)
	}
	return []color.NRGBA64{Straight(m.At(x, y))}
}

func masked(m limage.MaskedImage, x, y int) []color.NRGBA64 {
	o := uint8(0)
	if r := m.Mask.Rect; x >= r.Min.X && x < r.Max.X && y >= r.Min.Y && y < r.Max.Y {
		o = m.Mask.Pix[(y-r.Min.Y)*m.Mask.Stride+x-r.Min.X]
	}
	return scaleAll(At(m.Image, x, y), o)
}

func layerAt(l limage.Layer, x, y int) []color.NRGBA64 {
	return scaleAll(At(l.Image, x-l.LayerBounds.Min.X, y-l.LayerBounds.Min.Y), 255-l.Transparency)
}

func fold(g limage.Image, x, y int) []color.NRGBA64 {
	cur := []color.NRGBA64{{}}
	if len(g) == 0 {
		return cur
	}
	_, paletted := Model(g).(color.Palette)
	for i := len(g) - 1; i >= 0; i-- {
		l := g[i]
		r := l.LayerBounds
		if l.Invisible || x < r.Min.X || x >= r.Max.X || y < r.Min.Y || y >= r.Max.Y {
			continue
		}
		tops := layerAt(l, x, y)
		var next []color.NRGBA64
		for _, c := range cur {
			for _, t := range tops {
				switch {
				case l.Mode == limage.CompositeDissolve:
					if t.A > 0 {
						o := t
						o.A = 0xffff
						next = append(next, o)
					}
					if t.A < 0xffff {
						next = append(next, c)
					}
				case paletted:
					if t.A > 0x7fff {
						t.A = 0xffff
						next = append(next, t)
					} else {
						next = append(next, c)
					}
				default:
					next = append(next, Straight(l.Mode.Composite(c, t)))
				}
			}
		}
		cur = dedupe(next)
	}
	return cur
}

func dedupe(cs []color.NRGBA64) []color.NRGBA64 {
	if len(cs) < 2 {
		return cs
	}
	seen := map[color.NRGBA64]bool{}
	var out []color.NRGBA64
	for _, c := range cs {
		if !seen[c] {
			seen[c] = true
			out = append(out, c)
		}
	}
	return out
}

// Among says whether c is one of the possible colours, within tol.
func Among(c color.Color, want []color.NRGBA64, tol int) bool {
	for _, w := range want {
		if Dist(c, w) <= tol {
			return true
		}
	}
	return false
}

// Same compares two renderings over a window; it reports the first difference.
func Same(a, b image.Image, win image.Rectangle, shift image.Point, tol int) (string, bool) {
	for y := win.Min.Y; y < win.Max.Y; y++ {
		for x := win.Min.X; x < win.Max.X; x++ {
			p, q := a.At(x, y), b.At(x+shift.X, y+shift.Y)
			if Dist(p, q) > tol {
				return fmt.Sprintf("at (%d,%d): %v and %v", x, y, Straight(p), Straight(q)), false
			}
		}
	}
	return "", true
}

// Kind makes a picture of the given kind over r; salt varies the pixels.
type Kind struct {
	Name string
	Make func(r image.Rectangle, salt int) image.Image
}

func mixBits(x, y, salt int) uint32 {
	h := uint32(x+1000)*2654435761 ^ uint32(y+1000)*2246822519 ^ uint32(salt+7)*3266489917
	h ^= h >> 15
	h *= 2246822519
	h ^= h >> 13
	return bits.RotateLeft32(h, 7) * 3266489917
}

// Col is the test colour of a pixel: alpha is 0, full, or in between.
func Col(x, y, salt int) color.NRGBA {
	h := mixBits(x, y, salt)
	a := uint8(255)
	switch h % 5 {
	case 0:
		a = 0
	case 1:
		a = uint8(h >> 8)
	case 2:
		a = 128 - uint8(h>>9&1)
	}
	c := color.NRGBA{uint8(h >> 16), uint8(h >> 24), uint8(h>>3) ^ uint8(h>>20), a}
	if h>>5&7 == 0 {
		c.G, c.B = c.R, c.R
	}
	return c
}

func each(r image.Rectangle, f func(x, y int)) {
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			f(x, y)
		}
	}
}

// Pal is the palette of the paletted kinds.
var Pal = color.Palette{color.NRGBA{0, 0, 0, 255}, color.NRGBA{255, 0, 0, 255}, color.NRGBA{0, 255, 0, 255}, color.NRGBA{10, 20, 250, 255}, color.NRGBA{255, 255, 255, 255}}

// MaskOf makes a mask over r.
func MaskOf(r image.Rectangle, salt int) *image.Gray {
	m := image.NewGray(r)
	each(r, func(x, y int) {
		h := mixBits(x, y, salt+77)
		v := uint8(255)
		switch h % 4 {
		case 0:
			v = 0
		case 1, 2:
			v = uint8(h >> 8)
		}
		m.SetGray(x, y, color.Gray{v})
	})
	return m
}

// NRGBAOf makes a plain picture.
func NRGBAOf(r image.Rectangle, salt int) *image.NRGBA {
	m := image.NewNRGBA(r)
	each(r, func(x, y int) { m.SetNRGBA(x, y, Col(x, y, salt)) })
	return m
}

// Flat kinds: no layers inside.
var Flat = []Kind{
	{"NRGBA", func(r image.Rectangle, s int) image.Image { return NRGBAOf(r, s) }},
	{"GrayAlpha", func(r image.Rectangle, s int) image.Image {
		m := limage.NewGrayAlpha(r)
		each(r, func(x, y int) { c := Col(x, y, s); m.SetGrayAlpha(x, y, lcolor.GrayAlpha{Y: c.R, A: c.A}) })
		return m
	}},
	{"PalettedAlpha", func(r image.Rectangle, s int) image.Image {
		m := limage.NewPalettedAlpha(r, lcolor.AlphaPalette(Pal))
		each(r, func(x, y int) {
			c := Col(x, y, s)
			m.SetIndexAlpha(x, y, lcolor.IndexedAlpha{I: c.R % uint8(len(Pal)), A: c.A})
		})
		return m
	}},
	{"Paletted", func(r image.Rectangle, s int) image.Image {
		m := image.NewPaletted(r, Pal)
		each(r, func(x, y int) { m.SetColorIndex(x, y, Col(x, y, s).R%uint8(len(Pal))) })
		return m
	}},
	{"RGB", func(r image.Rectangle, s int) image.Image {
		m := limage.NewRGB(r)
		each(r, func(x, y int) { c := Col(x, y, s); m.SetRGB(x, y, lcolor.RGB{R: c.R, G: c.G, B: c.B}) })
		return m
	}},
	{"Gray", func(r image.Rectangle, s int) image.Image {
		m := image.NewGray(r)
		each(r, func(x, y int) { m.SetGray(x, y, color.Gray{Col(x, y, s).R}) })
		return m
	}},
	{"RGBA", func(r image.Rectangle, s int) image.Image {
		m := image.NewRGBA(r)
		each(r, func(x, y int) { m.Set(x, y, Col(x, y, s)) })
		return m
	}},
	{"NRGBA64", func(r image.Rectangle, s int) image.Image {
		m := image.NewNRGBA64(r)
		each(r, func(x, y int) {
			c := Col(x, y, s)
			k := uint16(mixBits(x, y, s) >> 7 & 0xff)
			a := uint16(c.A)<<8 | uint16(c.A)
			if a != 0 && a != 0xffff {
				a = 0x7fff + uint16(k&1)
			}
			m.SetNRGBA64(x, y, color.NRGBA64{uint16(c.R)<<8 | k, uint16(c.G)<<8 | k, uint16(c.B)<<8 | k, a})
		})
		return m
	}},
	{"Gray16", func(r image.Rectangle, s int) image.Image {
		m := image.NewGray16(r)
		each(r, func(x, y int) { m.SetGray16(x, y, color.Gray16{uint16(Col(x, y, s).R) * 257}) })
		return m
	}},
}

// Rich kinds wrap flat ones.
var Rich = []Kind{
	{"Masked", func(r image.Rectangle, s int) image.Image {
		return limage.MaskedImage{Image: NRGBAOf(r, s), Mask: MaskOf(r, s)}
	}},
	{"MaskedPtrSmall", func(r image.Rectangle, s int) image.Image {
		q := r
		if q.Dx() > 1 {
			q.Max.X--
		}
		return &limage.MaskedImage{Image: limageRGB(r, s), Mask: MaskOf(q, s)}
	}},
	{"Text", func(r image.Rectangle, s int) image.Image {
		return limage.Text{Image: NRGBAOf(r, s), TextData: limage.TextData{{Data: "abc", Font: "Sans", Size: 12, ForeColor: lcolor.RGB{R: 255}, BackColor: color.Alpha{}}}}
	}},
	{"TextPtr", func(r image.Rectangle, s int) image.Image {
		return &limage.Text{Image: NRGBAOf(r, s+1), TextData: limage.TextData{{Data: "xyz", Font: "Serif", Size: 7, ForeColor: lcolor.RGB{G: 255}, BackColor: color.Alpha{}}}}
	}},
	{"Group", func(r image.Rectangle, s int) image.Image { return GroupOf(r, s) }},
	{"GroupPtr", func(r image.Rectangle, s int) image.Image { g := GroupOf(r, s+3); return &g }},
	{"MaskedGroup", func(r image.Rectangle, s int) image.Image {
		return limage.MaskedImage{Image: GroupOf(r, s), Mask: MaskOf(r, s)}
	}},
	{"NestedGroup", func(r image.Rectangle, s int) image.Image {
		g := GroupOf(r, s)
		return limage.Image{
			{Name: "in", LayerBounds: r, Transparency: 60, Mode: limage.CompositeMultiply, Image: relocate(g, r.Min)},
			{Name: "flat", LayerBounds: r, Image: NRGBAOf(image.Rectangle{Max: r.Size()}, s+9)},
		}
	}},
}

func limageRGB(r image.Rectangle, s int) image.Image {
	m := limage.NewRGB(r)
	each(r, func(x, y int) { c := Col(x, y, s); m.SetRGB(x, y, lcolor.RGB{R: c.R, G: c.G, B: c.B}) })
	return m
}

func relocate(g limage.Image, p image.Point) limage.Image {
	for i := range g {
		g[i].LayerBounds = g[i].LayerBounds.Sub(p)
	}
	return g
}

// GroupOf makes a group of three layers whose union is r.
func GroupOf(r image.Rectangle, s int) limage.Image {
	sz := r.Size()
	hw := image.Rectangle{r.Min, image.Pt(r.Min.X+(sz.X+1)/2, r.Max.Y)}
	hh := image.Rectangle{image.Pt(r.Min.X, r.Min.Y+sz.Y/2), r.Max}
	return limage.Image{
		{Name: "left", LayerBounds: hw, Mode: limage.CompositeScreen, Image: NRGBAOf(image.Rectangle{Max: hw.Size()}, s+1)},
		{Name: "low", LayerBounds: hh, Transparency: 100, Mode: limage.CompositeDifference, Image: NRGBAOf(image.Rectangle{Max: hh.Size()}, s+2)},
		{Name: "all", LayerBounds: r, Image: NRGBAOf(image.Rectangle{Max: sz}, s+3)},
	}
}

// Wrapped are the flat kinds, masked, as text and both.
func Wrapped() []Kind {
	var ks []Kind
	text := limage.TextData{{Data: "ab", Font: "Sans", Size: 12, ForeColor: lcolor.RGB{B: 255}, BackColor: color.Alpha{}}}
	for _, k := range Flat {
		make := k.Make
		ks = append(ks,
			Kind{"Masked" + k.Name, func(r image.Rectangle, s int) image.Image {
				return limage.MaskedImage{Image: make(r, s), Mask: MaskOf(r, s)}
			}},
			Kind{"Text" + k.Name, func(r image.Rectangle, s int) image.Image {
				return limage.Text{Image: make(r, s), TextData: text}
			}},
			Kind{"MaskedText" + k.Name, func(r image.Rectangle, s int) image.Image {
				return &limage.MaskedImage{Image: &limage.Text{Image: make(r, s), TextData: text}, Mask: MaskOf(r, s+1)}
			}})
	}
	return ks
}

// Kinds are all kinds.
func Kinds() []Kind { return append(append([]Kind{}, Flat...), Rich...) }

// Rects gives every rectangle with corners in r, with the given step.
func Rects(r image.Rectangle, step int, empty bool) []image.Rectangle {
	var out []image.Rectangle
	for x0 := r.Min.X; x0 <= r.Max.X; x0 += step {
		for x1 := x0; x1 <= r.Max.X; x1 += step {
			for y0 := r.Min.Y; y0 <= r.Max.Y; y0 += step {
				for y1 := y0; y1 <= r.Max.Y; y1 += step {
					q := image.Rect(x0, y0, x1, y1)
					if empty || !q.Empty() {
						out = append(out, q)
					}
				}
			}
		}
	}
	return out
}

// Describe prints the tree of a picture.
func Describe(m image.Image) string {
	switch m := m.(type) {
	case limage.Image:
		var s strings.Builder
		s.WriteByte('[')
		for i, l := range m {
			if i > 0 {
				s.WriteByte(' ')
			}
			s.WriteString(Describe(l))
		}
		s.WriteByte(']')
		return s.String()
	case *limage.Image:
		return "&" + Describe(*m)
	case limage.Layer:
		s := fmt.Sprintf("%q@%v/%s", m.Name, m.LayerBounds, ModeName(m.Mode))
		if m.Transparency != 0 {
			s += fmt.Sprintf("/t%d", m.Transparency)
		}
		if m.Invisible {
			s += "/hidden"
		}
		return s + ":" + Describe(m.Image)
	case limage.MaskedImage:
		return fmt.Sprintf("masked%v(%s)", m.Mask.Rect, Describe(m.Image))
	case *limage.MaskedImage:
		return "&" + Describe(*m)
	case limage.Text:
		return fmt.Sprintf("text%q(%s)", m.TextData.String(), Describe(m.Image))
	case *limage.Text:
		return "&" + Describe(*m)
	case nil:
		return "nil"
	}
	return fmt.Sprintf("%T%v", m, m.Bounds())
}

// ModeName names a mode unambiguously.
func ModeName(c limage.Composite) string { return fmt.Sprintf("%s(%d)", c, uint32(c)) }
