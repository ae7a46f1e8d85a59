//go:build go1.22

// Command ora checks the OpenRaster part.
package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"image"
	"image/color"
	"math"
	"strings"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/ora"
	"vimagination.zapto.org/limage/zzverif/lim"
	"vimagination.zapto.org/limage/zzverif/vh"
)

func main() {
	vh.Main(c11, c12, c13, c14, c15)
}

var oraModes = []limage.Composite{
	limage.CompositeNormal, limage.CompositeMultiply, limage.CompositeScreen, limage.CompositeOverlay, limage.CompositeDarkenOnly,
	limage.CompositeLightenOnly, limage.CompositeDodge, limage.CompositeBurn, limage.CompositeHardLight, limage.CompositeSoftLight,
	limage.CompositeDifference, limage.CompositeColor, limage.CompositeLuminosity, limage.CompositeHue, limage.CompositeSaturation,
	limage.CompositePlus, limage.CompositeDestinationIn, limage.CompositeDestinationOut, limage.CompositeSourceAtop, limage.CompositeDestinationAtop,
}

var oraOps = []string{
	"svg:src-over", "svg:multiply", "svg:screen", "svg:overlay", "svg:darken", "svg:lighten", "svg:color-dodge", "svg:color-burn",
	"svg:hard-light", "svg:soft-light", "svg:difference", "svg:color", "svg:luminosity", "svg:hue", "svg:saturation", "svg:plus",
	"svg:dst-in", "svg:dst-out", "svg:src-atop", "svg:dst-atop",
}

func opOf(m limage.Composite) (string, bool) {
	for i, o := range oraModes {
		if o == m {
			return oraOps[i], true
		}
	}
	return "", false
}

func encode(m image.Image) ([]byte, error) {
	var buf bytes.Buffer
	err := ora.Encode(&buf, m)
	return buf.Bytes(), err
}

func decode(data []byte) (limage.Image, error) {
	zr, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		return nil, err
	}
	return ora.Decode(zr)
}

// asLayers is the layered picture that any picture stands for.
func asLayers(m image.Image) limage.Image {
	switch m := m.(type) {
	case limage.Image:
		return m
	case *limage.Image:
		return *m
	case limage.Layer:
		return limage.Image{m}
	case *limage.Layer:
		return limage.Image{*m}
	}
	return nil
}

// group says whether a layer's picture is a group.
func group(m image.Image) (limage.Image, bool) {
	switch m := m.(type) {
	case limage.Image:
		return m, true
	case *limage.Image:
		return *m, true
	}
	return nil, false
}

// exact kinds of pictures lose nothing in a PNG.
func exact(m image.Image) bool {
	switch m := m.(type) {
	case *image.NRGBA, *image.NRGBA64, *image.Gray, *image.Gray16, *image.Paletted, *limage.RGB:
		return true
	case limage.Image:
		for _, l := range m {
			if !exact(l.Image) {
				return false
			}
		}
		return true
	case *limage.Image:
		return exact(*m)
	}
	return false
}

func plainPalette(g limage.Image) bool {
	if len(g) == 0 {
		return true
	}
	if _, ok := lim.Model(g).(color.Palette); !ok {
		return true
	}
	for {
		if g[0].LayerBounds.Empty() {
			return false // the picture of an empty layer is not kept
		}
		in, ok := group(g[0].Image)
		if !ok {
			_, ok = g[0].Image.(*image.Paletted)
			return ok
		}
		g = in
		if len(g) == 0 {
			return true
		}
	}
}

// compareTrees checks the decoded layers d, whose coordinates start at dOff,
// against the original ones, at oOff and cut to clip. All are absolute, with
// the top left of the picture as the origin.
func compareTrees(b *vh.B, path string, o, d limage.Image, oOff, dOff image.Point, clip image.Rectangle) bool {
	if len(o) != len(d) {
		b.Fail("tree", "%s: %d layers, decoded %d", path, len(o), len(d))
		return false
	}
	for i := range o {
		ol, dl := o[i], d[i]
		p := fmt.Sprintf("%s/%d", path, i)
		if ol.Name != dl.Name {
			b.Fail("name", "%s: name %q decodes as %q", p, ol.Name, dl.Name)
			return false
		}
		if ol.Invisible != dl.Invisible || ol.Transparency != dl.Transparency {
			b.Fail("opacity", "%s: hidden %v transparency %d decode as %v %d", p, ol.Invisible, ol.Transparency, dl.Invisible, dl.Transparency)
			return false
		}
		if _, ok := opOf(ol.Mode); ok && ol.Mode != dl.Mode {
			b.Fail("mode", "%s: mode %v decodes as %v", p, ol.Mode, dl.Mode)
			return false
		}
		og, isG := group(ol.Image)
		dg, isDG := group(dl.Image)
		if isG != isDG {
			b.Fail("tree", "%s: group %v decodes as group %v", p, isG, isDG)
			return false
		}
		ob := ol.LayerBounds.Add(oOff)
		db := dl.LayerBounds.Add(dOff)
		want := ob.Intersect(clip)
		if isG {
			if !compareTrees(b, p, og, dg, ob.Min, db.Min, want) {
				return false
			}
			continue
		}
		if want.Empty() {
			continue
		}
		if db != want {
			b.Fail("position", "%s %q: a layer at %v is decoded at %v", p, ol.Name, want, db)
			return false
		}
		tol := 0
		if !exact(ol.Image) {
			tol = 520 // one step of 8 bits, in colour and in alpha
		}
		for y := want.Min.Y; y < want.Max.Y; y++ {
			for x := want.Min.X; x < want.Max.X; x++ {
				w, g := ol.Image.At(x-ob.Min.X, y-ob.Min.Y), dl.Image.At(x-db.Min.X, y-db.Min.Y)
				if lim.Dist(w, g) > tol {
					b.Fail("pixel", "%s %s: pixel (%d,%d) is %v, decoded %v", p, lim.Describe(ol), x, y, lim.Straight(w), lim.Straight(g))
					return false
				}
			}
		}
	}
	return true
}

// renderable says whether every mode in the tree can be represented.
func representable(g limage.Image) bool {
	for _, l := range g {
		if _, ok := opOf(l.Mode); !ok {
			return false
		}
		if in, ok := group(l.Image); ok && !representable(in) {
			return false
		}
	}
	return true
}

// rebuild is the original tree with the pictures of the decoded one.
func rebuild(o, d limage.Image, dOff, oOff image.Point) limage.Image {
	n := make(limage.Image, len(o))
	for i := range o {
		l := o[i]
		db := d[i].LayerBounds.Add(dOff)
		ob := l.LayerBounds.Add(oOff)
		if og, ok := group(l.Image); ok {
			dg, _ := group(d[i].Image)
			l.Image = rebuild(og, dg, db.Min, ob.Min)
		} else {
			l.Image = at{d[i].Image, ob.Min.Sub(db.Min)}
		}
		n[i] = l
	}
	return n
}

// at moves a picture; outside of it everything is transparent.
type at struct {
	image.Image
	off image.Point
}

func (a at) At(x, y int) color.Color {
	p := image.Pt(x, y).Add(a.off)
	if !p.In(a.Image.Bounds()) {
		return color.Transparent
	}
	return a.Image.At(p.X, p.Y)
}

func snapshot(m image.Image) string {
	var s strings.Builder
	s.WriteString(lim.Describe(m))
	b := m.Bounds().Inset(-1)
	for y := b.Min.Y; y < b.Max.Y && y < b.Min.Y+8; y++ {
		for x := b.Min.X; x < b.Max.X && x < b.Min.X+8; x++ {
			fmt.Fprint(&s, m.At(x, y))
		}
	}
	return s.String()
}

// dissolves says whether any colour is random.
func dissolves(g limage.Image) bool {
	for _, l := range g {
		if l.Mode == limage.CompositeDissolve {
			return true
		}
		if in, ok := group(l.Image); ok && dissolves(in) {
			return true
		}
	}
	return false
}

// roundTrip encodes and decodes a picture and compares.
func roundTrip(b *vh.B, m image.Image) bool {
	desc := lim.Describe(m)
	g := asLayers(m)
	before := ""
	if !dissolves(g) {
		before = snapshot(m)
	}
	data, err := encode(m)
	if err != nil {
		b.Fail("encode", "Encode(%s): %v", desc, err)
		return false
	}
	if before != "" && snapshot(m) != before {
		b.Fail("modified", "Encode modified its input %s", desc)
		return false
	}
	d, err := decode(data)
	if err != nil {
		b.Fail("decode", "decoding what Encode wrote for %s: %v", desc, err)
		return false
	}
	b.EvalH(vh.HashBytes(data))
	ob := m.Bounds()
	win := image.Rectangle{Max: ob.Size()}
	if g == nil { // a flat image
		if len(d) != 1 {
			b.Fail("flat-tree", "the flat image %s decodes as %d layers", desc, len(d))
			return false
		}
		tol := 0
		if !exact(m) {
			tol = 520 // one step of 8 bits, in colour and in alpha
		}
		if d.Bounds() != win {
			b.Fail("flat-bounds", "the flat image %s decodes with bounds %v", desc, d.Bounds())
			return false
		}
		if diff, ok := lim.Same(d, m, win, ob.Min, tol); !ok {
			b.Fail("flat-pixel", "the flat image %s: decoded and original differ %s", desc, diff)
			return false
		}
		return true
	}
	if !compareTrees(b, desc+": ", g, d, image.Point{}.Sub(ob.Min), image.Point{}, win) {
		return false
	}
	if representable(g) && plainPalette(g) {
		e := rebuild(g, d, image.Point{}, image.Point{}.Sub(ob.Min))
		if diff, ok := lim.Same(d, e, win, ob.Min, 16); !ok && !hasPaletted(g) {
			b.Fail("render", "%s: decoded and expected rendering differ %s", desc, diff)
			return false
		}
		if exact(g) && allExact(g) {
			if diff, ok := lim.Same(d, g, win, ob.Min, 16); !ok {
				b.Fail("render", "%s: decoded and original rendering differ %s", desc, diff)
				return false
			}
		}
	}
	return true
}

// hasPaletted says that a group starts with a palette: whether its layers are
// blended or replaced then depends on the kind of its first picture.
func hasPaletted(g limage.Image) bool {
	if _, ok := lim.Model(g).(color.Palette); ok {
		return true
	}
	for _, l := range g {
		if in, ok := group(l.Image); ok && hasPaletted(in) {
			return true
		}
	}
	return false
}

func allExact(g limage.Image) bool {
	for _, l := range g {
		if in, ok := group(l.Image); ok {
			if !allExact(in) {
				return false
			}
			continue
		}
		if !exact(l.Image) || l.Image.Bounds() != (image.Rectangle{Max: l.LayerBounds.Size()}) {
			if _, p := l.Image.(*image.Paletted); p && !(image.Rectangle{Max: l.LayerBounds.Size()}).In(l.Image.Bounds()) {
				return false // the part outside a paletted picture is not paletted
			}
		}
		if !exact(l.Image) {
			return false
		}
	}
	return true
}

func round255(o float64) float64 { return math.Floor(255*o + 0.5) }
