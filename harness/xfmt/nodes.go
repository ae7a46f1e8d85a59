//go:build go1.22

package xfmt

import (
	"fmt"
	"image"
	"image/color"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/zzverif/lim"
)

// Modes gives the blend mode of each mode number of the format.
var Modes = [62]limage.Composite{
	limage.CompositeNormal, limage.CompositeDissolve, limage.CompositeBehind, limage.CompositeMultiply, limage.CompositeScreen,
	limage.CompositeOverlay, limage.CompositeDifference, limage.CompositeAddition, limage.CompositeSubtract, limage.CompositeDarkenOnly,
	limage.CompositeLightenOnly, limage.CompositeHue, limage.CompositeSaturation, limage.CompositeColor, limage.CompositeValue,
	limage.CompositeDivide, limage.CompositeDodge, limage.CompositeBurn, limage.CompositeHardLight, limage.CompositeSoftLight,
	limage.CompositeGrainExtract, limage.CompositeGrainMerge, limage.CompositeColorErase, limage.CompositeOverlay, limage.CompositeHue,
	limage.CompositeChroma, limage.CompositeColor, limage.CompositeLightness, limage.CompositeNormal, limage.CompositeBehind,
	limage.CompositeMultiply, limage.CompositeScreen, limage.CompositeDifference, limage.CompositeAddition, limage.CompositeSubtract,
	limage.CompositeDarkenOnly, limage.CompositeLightenOnly, limage.CompositeHue, limage.CompositeSaturation, limage.CompositeColor,
	limage.CompositeValue, limage.CompositeDivide, limage.CompositeDodge, limage.CompositeBurn, limage.CompositeHardLight,
	limage.CompositeSoftLight, limage.CompositeGrainExtract, limage.CompositeGrainMerge, limage.CompositeVividLight, limage.CompositePinLight,
	limage.CompositeLinearLight, limage.CompositeHardMix, limage.CompositeExclusion, limage.CompositeLinearBurn, limage.CompositeDarkenOnly,
	limage.CompositeLightenOnly, limage.CompositeLuminance, limage.CompositeColorErase, limage.CompositeErase, limage.CompositeMerge,
	limage.CompositeSplit, limage.CompositePassThrough,
}

// Node is one layer, however it is stored.
type Node struct {
	Name         string
	Rect         image.Rectangle // absolute
	Mode         limage.Composite
	Hidden       bool
	Transparency uint8
	Group        bool
	Kids         []*Node
	Masked       bool
	Mask         func(x, y int) uint8 // at absolute coordinates
	Pix          func(x, y int) color.Color
	Tol          int // of the premultiplied colour; -1 means exact straight colour
	HasText      bool
	Text         limage.TextData
	Type         string
}

// Picture gives the nodes of the layers of a picture, with p added to their
// places.
func Picture(g limage.Image, p image.Point) []*Node {
	var out []*Node
	for _, l := range g {
		n := &Node{Name: l.Name, Rect: l.LayerBounds.Add(p), Mode: l.Mode, Hidden: l.Invisible, Transparency: l.Transparency, Tol: -1}
		m := l.Image
		min := n.Rect.Min
		setMask := func(i limage.MaskedImage) {
			n.Masked = true
			n.Mask = func(x, y int) uint8 { return i.Mask.GrayAt(x-min.X, y-min.Y).Y }
			m = i.Image
		}
		switch i := m.(type) {
		case limage.MaskedImage:
			setMask(i)
		case *limage.MaskedImage:
			setMask(*i)
		}
		switch i := m.(type) {
		case limage.Text:
			n.HasText, n.Text, m = true, i.TextData, i.Image
		case *limage.Text:
			n.HasText, n.Text, m = true, i.TextData, i.Image
		}
		n.Type = fmt.Sprintf("%T", m)
		switch i := m.(type) {
		case limage.Image:
			n.Group, n.Kids = true, Picture(i, min)
		case *limage.Image:
			n.Group, n.Kids = true, Picture(*i, min)
		case nil:
		default:
			switch i.(type) {
			case *image.NRGBA, *limage.RGB, *image.Gray, *image.Paletted, *limage.PalettedAlpha:
			case *limage.GrayAlpha:
				n.Tol = 260 // exact only in a gray file
			default:
				n.Tol = 520
			}
			n.Pix = func(x, y int) color.Color { return i.At(x-min.X, y-min.Y) }
		}
		out = append(out, n)
	}
	return out
}

// Nodes gives the nodes of the layers of a file.
func (f *File) Nodes() []*Node { return f.nodes(f.Layers, true) }

func (f *File) nodes(ls []*Layer, top bool) []*Node {
	var out []*Node
	for i, l := range ls {
		n := &Node{Name: l.Name, Rect: l.Rect, Hidden: l.Hidden, Transparency: 255 - l.Opacity, Group: l.Group, Tol: -1, HasText: l.HasText}
		n.Mode = Modes[l.Mode]
		if f.Base == 2 && n.Mode != limage.CompositeDissolve && n.Mode != limage.CompositeBehind {
			n.Mode = limage.CompositeNormal
		}
		if top && i == len(ls)-1 && n.Mode != limage.CompositeDissolve {
			n.Mode = limage.CompositeNormal
		}
		w, bpp := l.Rect.Dx(), f.BPP(l)
		if l.Mask != nil {
			n.Masked = true
			n.Mask = func(x, y int) uint8 { return l.Mask[(y-l.Rect.Min.Y)*w+x-l.Rect.Min.X] }
		}
		if l.Group {
			n.Kids = f.nodes(l.Kids, false)
		} else {
			n.Pix = func(x, y int) color.Color {
				p := l.Pix[((y-l.Rect.Min.Y)*w+x-l.Rect.Min.X)*bpp:]
				c := color.NRGBA{A: 255}
				switch f.Base {
				case 0:
					c.R, c.G, c.B = p[0], p[1], p[2]
				case 1:
					c.R, c.G, c.B = p[0], p[0], p[0]
				case 2:
					e := f.Palette[0]
					if int(p[0]) < len(f.Palette) {
						e = f.Palette[p[0]]
					}
					c.R, c.G, c.B = e[0], e[1], e[2]
				}
				if !l.NoAlpha {
					c.A = p[bpp-1]
				}
				return c
			}
		}
		out = append(out, n)
	}
	return out
}

// Eight gives the straight 8-bit colour of a colour that has one.
func Eight(c color.Color) color.NRGBA {
	switch c := c.(type) {
	case color.NRGBA:
		return c
	case lcolor.RGB:
		return color.NRGBA{c.R, c.G, c.B, 255}
	case color.Gray:
		return color.NRGBA{c.Y, c.Y, c.Y, 255}
	case lcolor.GrayAlpha:
		return color.NRGBA{c.Y, c.Y, c.Y, c.A}
	}
	s := lim.Straight(c)
	return color.NRGBA{uint8(s.R >> 8), uint8(s.G >> 8), uint8(s.B >> 8), uint8(s.A >> 8)}
}

// Options of a comparison.
type Options struct {
	Clip        image.Rectangle // the canvas
	AnyModes    bool            // modes are compared elsewhere
	Hidden      bool            // colours of transparent pixels matter too
	Text        bool            // text data matters
	OnePart     bool            // only what a text of one part keeps
	BottomMode  bool            // the mode of the bottom layer is not compared
	GrayExact   bool            // gray+alpha is kept exactly
	KeepOutside bool            // nothing is cropped
}

// Compare gives the first difference of what is wanted and what there is, with
// a short key.
func Compare(path string, want, got []*Node, o Options) (key, diff string) {
	if len(want) != len(got) {
		return "tree", fmt.Sprintf("%s: %d layers, not %d", path, len(got), len(want))
	}
	for i, w := range want {
		g := got[i]
		p := fmt.Sprintf("%s/%d", path, i)
		if w.Name != g.Name {
			return "name", fmt.Sprintf("%s: name %q, not %q", p, g.Name, w.Name)
		}
		if w.Group != g.Group {
			return "tree", fmt.Sprintf("%s: group %v, not %v", p, g.Group, w.Group)
		}
		if w.Hidden != g.Hidden || w.Transparency != g.Transparency {
			return "opacity", fmt.Sprintf("%s: hidden %v transparency %d, not %v %d", p, g.Hidden, g.Transparency, w.Hidden, w.Transparency)
		}
		if !o.AnyModes && w.Mode != g.Mode && !(o.BottomMode && i == len(want)-1) {
			return "mode", fmt.Sprintf("%s: mode %s, not %s", p, lim.ModeName(g.Mode), lim.ModeName(w.Mode))
		}
		r := w.Rect
		if !o.KeepOutside {
			r = r.Intersect(o.Clip)
		}
		if r.Empty() != g.Rect.Empty() || (!r.Empty() && r != g.Rect) {
			return "position", fmt.Sprintf("%s: at %v, not %v", p, g.Rect, r)
		}
		if w.Masked != g.Masked {
			return "mask", fmt.Sprintf("%s: masked %v, not %v", p, g.Masked, w.Masked)
		}
		if o.Text {
			if w.HasText != g.HasText {
				return "text", fmt.Sprintf("%s: text %v, not %v", p, g.HasText, w.HasText)
			}
			if d := SameText(w.Text, g.Text); w.HasText && d != "" {
				return "text", fmt.Sprintf("%s: %s", p, d)
			}
		}
		if w.Group {
			oo := o
			oo.BottomMode = false
			if k, d := Compare(p, w.Kids, g.Kids, oo); k != "" {
				return k, d
			}
		}
		if w.Group && !w.Masked {
			continue
		}
		for y := r.Min.Y; y < r.Max.Y; y++ {
			for x := r.Min.X; x < r.Max.X; x++ {
				if w.Masked {
					if a, b := w.Mask(x, y), g.Mask(x, y); a != b {
						return "mask", fmt.Sprintf("%s: mask at (%d,%d) is %d, not %d", p, x, y, b, a)
					}
				}
				if w.Group {
					continue
				}
				a, b := w.Pix(x, y), g.Pix(x, y)
				if a == b {
					continue
				}
				tol := w.Tol
				if o.GrayExact && tol == 260 {
					tol = -1
				}
				if tol >= 0 {
					if lim.Dist(a, b) > tol {
						return "pixel", fmt.Sprintf("%s %s: (%d,%d) is %v, not %v", p, w.Type, x, y, b, a)
					}
					continue
				}
				ea, eb := Eight(a), Eight(b)
				if ea != eb && (o.Hidden || ea.A != eb.A || ea.A != 0) {
					return "pixel", fmt.Sprintf("%s %s: (%d,%d) is %v, not %v", p, w.Type, x, y, eb, ea)
				}
			}
		}
	}
	return "", ""
}

func rgb(c color.Color) [3]uint32 {
	if c == nil {
		return [3]uint32{}
	}
	r, g, b, _ := c.RGBA()
	return [3]uint32{r >> 8, g >> 8, b >> 8}
}

func opaque(c color.Color) bool {
	if c == nil {
		return false
	}
	_, _, _, a := c.RGBA()
	return a == 0xffff
}

// SameText compares what the format keeps of a text.
func SameText(a, b limage.TextData) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d parts, not %d", len(b), len(a))
	}
	for i, p := range a {
		q := b[i]
		if p.Data != q.Data || p.Font != q.Font || p.Size != q.Size || rgb(p.ForeColor) != rgb(q.ForeColor) {
			return fmt.Sprintf("part %d: %q font %q size %d colour %v, not %q %q %d %v", i, q.Data, q.Font, q.Size, rgb(q.ForeColor), p.Data, p.Font, p.Size, rgb(p.ForeColor))
		}
		if len(a) == 1 {
			continue
		}
		if p.Bold != q.Bold || p.Italic != q.Italic || p.Underline != q.Underline || p.Strikethrough != q.Strikethrough || p.LetterSpacing != q.LetterSpacing || p.Rise != q.Rise {
			return fmt.Sprintf("part %d: style %v, not %v", i, q, p)
		}
		if opaque(p.BackColor) && rgb(p.BackColor) != rgb(q.BackColor) {
			return fmt.Sprintf("part %d: background %v, not %v", i, rgb(q.BackColor), rgb(p.BackColor))
		}
	}
	return ""
}
