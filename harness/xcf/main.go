//go:build go1.22

// Command xcf checks the XCF part, and the two formats together.
package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"io"
	"strings"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/xcf"
	"vimagination.zapto.org/limage/zzverif/lim"
	"vimagination.zapto.org/limage/zzverif/vh"
	"vimagination.zapto.org/limage/zzverif/xfmt"
)

func main() {
	vh.Main(c16, c17, c18, c19, c20, c21, c22, c25, c26, c27, c28)
}

// memW is a file in memory.
type memW struct{ d []byte }

func (m *memW) WriteAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, fmt.Errorf("negative offset %d", off)
	}
	if n := int(off) + len(p); n > len(m.d) {
		m.d = append(m.d, make([]byte, n-len(m.d))...)
	}
	return copy(m.d[off:], p), nil
}

func encode(m image.Image) ([]byte, error) {
	var w memW
	err := xcf.Encode(&w, m)
	return w.d, err
}

func decode(d []byte) (limage.Image, error) { return xcf.Decode(bytes.NewReader(d)) }

func deferred(d []byte) (limage.Image, error) { return xcf.DecodeCompressed(bytes.NewReader(d)) }

// asLayers is the layered picture that any picture stands for.
func asLayers(m image.Image) limage.Image {
	switch m := m.(type) {
	case limage.Image:
		return m
	case *limage.Image:
		return *m
	case limage.Layer:
		return limage.Image{m}
	case *limage.Layer:
		return limage.Image{*m}
	}
	return limage.Image{{LayerBounds: m.Bounds(), Image: flat{m}}}
}

// flat is a picture seen from its own corner.
type flat struct{ image.Image }

func (f flat) At(x, y int) color.Color {
	p := f.Image.Bounds().Min
	return f.Image.At(x+p.X, y+p.Y)
}

func group(m image.Image) (limage.Image, bool) {
	switch m := m.(type) {
	case limage.Image:
		return m, true
	case *limage.Image:
		return *m, true
	case limage.MaskedImage:
		return group(m.Image)
	case *limage.MaskedImage:
		return group(m.Image)
	}
	return nil, false
}

// leaves calls f with the picture of every layer that is not a group.
func leaves(g limage.Image, f func(m image.Image)) {
	for _, l := range g {
		if in, ok := group(l.Image); ok {
			leaves(in, f)
		} else {
			f(l.Image)
		}
	}
}

// base is the kind of file a picture is to be written as: 0 colour, 1 gray,
// 2 palette.
func base(g limage.Image) int {
	all := -1
	var pal string
	leaves(g, func(m image.Image) {
		n, p := 0, ""
		switch c := lim.Model(m).(type) {
		case color.Palette:
			if len(c) <= 256 {
				n, p = 2, fmt.Sprint(c)
			}
		case lcolor.AlphaPalette:
			if len(c) <= 256 {
				n, p = 2, fmt.Sprint(color.Palette(c))
			}
		default:
			if c == color.GrayModel || c == color.Gray16Model || c == lcolor.GrayAlphaModel {
				n = 1
			}
		}
		switch {
		case all == -1:
			all, pal = n, p
		case all != n || pal != p:
			all = 0
		}
	})
	return max(all, 0)
}

var xcfMode = func() map[limage.Composite]bool {
	m := map[limage.Composite]bool{}
	for _, c := range xfmt.Modes {
		m[c] = true
	}
	return m
}()

// wantNodes describes what a picture is to be kept as.
func wantNodes(m image.Image) ([]*xfmt.Node, int, image.Rectangle) {
	g := asLayers(m)
	b := m.Bounds()
	k := base(g)
	ns := xfmt.Picture(g, image.Point{}.Sub(b.Min))
	var fix func(ns []*xfmt.Node)
	fix = func(ns []*xfmt.Node) {
		for _, n := range ns {
			if !xcfMode[n.Mode] {
				panic("a mode that XCF does not have: " + n.Mode.String())
			}
			if k == 2 && n.Mode != limage.CompositeDissolve && n.Mode != limage.CompositeBehind {
				n.Mode = limage.CompositeNormal
			}
			fix(n.Kids)
		}
	}
	fix(ns)
	return ns, k, image.Rectangle{Max: b.Size()}
}

func dissolves(g limage.Image) bool {
	for _, l := range g {
		if l.Mode == limage.CompositeDissolve {
			return true
		}
		if in, ok := group(l.Image); ok && dissolves(in) {
			return true
		}
	}
	return false
}

func snapshot(m image.Image) string {
	var s strings.Builder
	s.WriteString(lim.Describe(m))
	b := m.Bounds().Inset(-1)
	for y := b.Min.Y; y < b.Max.Y && y < b.Min.Y+8; y++ {
		for x := b.Min.X; x < b.Max.X && x < b.Min.X+8; x++ {
			fmt.Fprint(&s, m.At(x, y))
		}
	}
	return s.String()
}

// readAll reads a whole stream as a reader that can be placed.
var _ io.ReaderAt = (*xfmt.Sparse)(nil)
