//go:build go1.22

package main

import (
	"archive/zip"
	"bytes"
	"encoding/binary"
	"encoding/xml"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"io"
	"strconv"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/zzverif/lim"
	"vimagination.zapto.org/limage/zzverif/vh"
)

var c12 = vh.Check{
	ID: "C12", Level: "exploration",
	Rule: "archives written for pictures of every kind, origin, nesting and of canvas sizes around the thumbnail limit, down to one pixel and very long ones, are read by an independent reader (archive/zip, encoding/xml, image/png) and checked entry by entry; an execution is non-trivial and counted distinct by the hash of the archive",
	Assume: []string{
		"a thumbnail sample may come from anywhere within 1.5 samples of its exact place",
		"a pixel of the merged image may differ by two roundings to 8 bits",
	},
	Run: runC12,
}

type node struct {
	XMLName  xml.Name
	Attrs    []xml.Attr `xml:",any,attr"`
	Children []node     `xml:",any"`
}

func (n node) attr(name string) (string, bool) {
	for _, a := range n.Attrs {
		if a.Name.Local == name {
			return a.Value, true
		}
	}
	return "", false
}

// readArchive parses an archive; files maps names to contents.
func readArchive(data []byte) (files map[string][]byte, order []*zip.File, err error) {
	zr, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		return nil, nil, err
	}
	files = map[string][]byte{}
	for _, f := range zr.File {
		r, err := f.Open()
		if err != nil {
			return nil, nil, err
		}
		c, err := io.ReadAll(r)
		if err != nil {
			return nil, nil, err
		}
		r.Close()
		if _, ok := files[f.Name]; ok {
			return nil, nil, fmt.Errorf("two entries %q", f.Name)
		}
		files[f.Name] = c
	}
	return files, zr.File, nil
}

func checkArchive(b *vh.B, m image.Image, merged bool) bool {
	desc := lim.Describe(m)
	data, err := encode(m)
	if err != nil {
		b.Fail("encode", "Encode(%s): %v", desc, err)
		return false
	}
	b.EvalH(vh.HashBytes(data))
	b.Case(func() string { return desc })
	files, order, err := readArchive(data)
	if err != nil {
		b.Fail("zip", "archive of %s: %v", desc, err)
		return false
	}
	const mime = "image/openraster"
	if len(order) == 0 || order[0].Name != "mimetype" || order[0].Method != zip.Store || string(files["mimetype"]) != mime {
		b.Fail("mimetype", "archive of %s does not start with a stored mimetype", desc)
		return false
	}
	// The local header is the first thing in the file.
	if binary.LittleEndian.Uint32(data) != 0x04034b50 || binary.LittleEndian.Uint16(data[8:]) != 0 || string(data[30:38]) != "mimetype" {
		b.Fail("mimetype", "archive of %s: bad first local header", desc)
		return false
	}
	if off, err := order[0].DataOffset(); err != nil || string(data[off:off+int64(len(mime))]) != mime {
		b.Fail("mimetype", "archive of %s: mimetype not stored as it is", desc)
		return false
	}
	var root node
	dec := xml.NewDecoder(bytes.NewReader(files["stack.xml"]))
	if err := dec.Decode(&root); err != nil {
		b.Fail("stack", "stack.xml of %s: %v\n%s", desc, err, files["stack.xml"])
		return false
	}
	if tok, err := dec.Token(); err != io.EOF {
		if _, ok := tok.(xml.CharData); !ok {
			b.Fail("stack", "stack.xml of %s goes on after its root: %v %v", desc, tok, err)
			return false
		}
	}
	size := m.Bounds().Size()
	w, _ := root.attr("w")
	h, _ := root.attr("h")
	if root.XMLName.Local != "image" || w != strconv.Itoa(size.X) || h != strconv.Itoa(size.Y) {
		b.Fail("canvas", "stack.xml of %s says %s %sx%s", desc, root.XMLName.Local, w, h)
		return false
	}
	if len(root.Children) != 1 || root.Children[0].XMLName.Local != "stack" {
		b.Fail("stack", "stack.xml of %s does not hold one stack:\n%s", desc, files["stack.xml"])
		return false
	}
	leaves := 0
	var walk func(n node) bool
	walk = func(n node) bool {
		switch n.XMLName.Local {
		case "stack":
			for _, c := range n.Children {
				if !walk(c) {
					return false
				}
			}
		case "layer":
			leaves++
			src, _ := n.attr("src")
			pic, ok := files[src]
			if !ok {
				b.Fail("source", "archive of %s: no entry for src %q", desc, src)
				return false
			}
			if _, err := png.Decode(bytes.NewReader(pic)); err != nil {
				b.Fail("source", "archive of %s: entry %q: %v", desc, src, err)
				return false
			}
		default:
			b.Fail("stack", "stack.xml of %s has an element %s", desc, n.XMLName.Local)
			return false
		}
		return true
	}
	if !walk(root.Children[0]) {
		return false
	}
	if g := asLayers(m); g != nil && leaves != countLeaves(g) || g == nil && leaves != 1 {
		b.Fail("stack", "stack.xml of %s names %d layers", desc, leaves)
		return false
	}
	mi, err := png.Decode(bytes.NewReader(files["mergedimage.png"]))
	if err != nil || mi.Bounds().Size() != size {
		b.Fail("merged", "merged image of %s: %v", desc, err)
		return false
	}
	if merged {
		if diff, ok := lim.Same(mi, m, image.Rectangle{Max: size}, m.Bounds().Min, 600); !ok {
			b.Fail("merged-pixel", "merged image of %s differs %s", desc, diff)
			return false
		}
	}
	th, err := png.Decode(bytes.NewReader(files["Thumbnails/thumbnail.png"]))
	if err != nil {
		b.Fail("thumbnail", "thumbnail of %s: %v", desc, err)
		return false
	}
	ts := th.Bounds().Size()
	if ts.X < 1 || ts.Y < 1 || ts.X > 256 || ts.Y > 256 {
		b.Fail("thumbnail-size", "thumbnail of %s (%v) is %v", desc, size, ts)
		return false
	}
	if size.X <= 256 && size.Y <= 256 {
		if ts != size {
			b.Fail("thumbnail-size", "thumbnail of %s (%v) is %v", desc, size, ts)
			return false
		}
		if merged {
			if diff, ok := lim.Same(th, m, image.Rectangle{Max: size}, m.Bounds().Min, 600); !ok {
				b.Fail("thumbnail-pixel", "thumbnail of %s differs %s", desc, diff)
				return false
			}
		}
	} else {
		scale := float64(max(size.X, size.Y)) / 256
		if absf(float64(size.X)/scale-float64(ts.X)) > 2.01 || absf(float64(size.Y)/scale-float64(ts.Y)) > 2.01 || max(ts.X, ts.Y) < 200 {
			b.Fail("thumbnail-size", "thumbnail of %s (%v) is %v", desc, size, ts)
			return false
		}
	}
	return true
}

func absf(f float64) float64 {
	if f < 0 {
		return -f
	}
	return f
}

func countLeaves(g limage.Image) int {
	n := 0
	for _, l := range g {
		if in, ok := group(l.Image); ok {
			n += countLeaves(in)
		} else {
			n++
		}
	}
	return n
}

// ramp is a picture whose colour tells the place: red and green are x and y
// scaled to 16 bits.
type ramp struct{ r image.Rectangle }

func (p ramp) Bounds() image.Rectangle { return p.r }
func (p ramp) ColorModel() color.Model { return color.NRGBA64Model }
func (p ramp) At(x, y int) color.Color {
	return color.NRGBA64{uint16((x - p.r.Min.X) * 65535 / max(p.r.Dx()-1, 1)), uint16((y - p.r.Min.Y) * 65535 / max(p.r.Dy()-1, 1)), 0x8000, 0xffff}
}

func runC12(t *vh.T) {
	kinds := lim.Kinds()
	origins := []image.Point{{0, 0}, {-3, 2}, {4, -5}}
	pics := []image.Rectangle{image.Rect(0, 0, 4, 3), image.Rect(-1, -2, 5, 3), image.Rect(1, 0, 3, 3)}
	t.Par("kinds", len(kinds)*len(origins), func(b *vh.B, i int) {
		k, at := kinds[i/len(origins)], origins[i%len(origins)]
		for pi, pic := range pics {
			l := oneLayer(k, at, pic, i)
			for ki, k2 := range kinds {
				l2 := oneLayer(k2, origins[(i+ki)%len(origins)], pics[(pi+ki)%len(pics)], ki)
				l.Mode = oraModes[(i+ki)%len(oraModes)]
				l.Transparency = uint8(ki * 9)
				if !checkArchive(b, limage.Image{l, l2}, true) {
					return
				}
			}
			l.Mode = limage.CompositeNormal
			if !checkArchive(b, k.Make(pic.Add(at), pi), true) || !checkArchive(b, l, true) || !checkArchive(b, &l, true) {
				return
			}
		}
	})
	wrapped := lim.Wrapped()
	t.Par("wrapped", len(wrapped)*len(pics), func(b *vh.B, i int) {
		k, at := wrapped[i/len(pics)], origins[i%len(origins)]
		l := oneLayer(k, at, pics[i%len(pics)], i)
		if checkArchive(b, limage.Image{l}, true) && checkArchive(b, k.Make(pics[i%len(pics)].Add(at), i), true) {
			checkArchive(b, limage.Image{{Name: "g", LayerBounds: l.LayerBounds, Image: limage.Image{l}}, l}, true)
		}
	})
	t.Par("trees", 81, func(b *vh.B, i int) {
		p := image.Pt(i%3-1, i/3%3-1)
		q := image.Pt(i/9%3*2-1, i/27*2-1)
		in := lim.GroupOf(image.Rect(0, 0, 4, 4).Add(p), i)
		g := limage.Image{
			{Name: names[i%len(names)], LayerBounds: image.Rect(0, 0, 4, 4).Add(q), Image: in},
			{Name: "e", LayerBounds: image.Rect(1, 1, 3, 3), Image: limage.Image{}},
			{Name: "p", LayerBounds: image.Rect(-1, -1, 2, 2), Image: &in},
			{Name: "b", LayerBounds: image.Rect(-2, -2, 5, 5), Image: lim.NRGBAOf(image.Rect(0, 0, 7, 7), i)},
		}
		checkArchive(b, g, true)
		checkArchive(b, g.SubImage(image.Rect(0, 0, 3, 3)), true)
		checkArchive(b, &g, true)
	})
	structures(t, func(b *vh.B, m image.Image) bool { return checkArchive(b, m, true) })
	sizes := []int{1, 2, 3, 127, 255, 256, 257, 258, 300, 511, 512, 513, 700}
	t.Par("thumbnails", len(sizes)*len(sizes), func(b *vh.B, i int) {
		w, h := sizes[i%len(sizes)], sizes[i/len(sizes)]
		if t.Quick && w > 258 && h > 258 && i%3 != 0 {
			return
		}
		at := origins[i%len(origins)]
		m := ramp{image.Rect(0, 0, w, h).Add(at)}
		checkThumb(b, m)
	})
	long := [][2]int{{1000, 1}, {1, 1000}, {5000, 3}, {3, 5000}, {20000, 1}, {1, 70000}, {66000, 2}, {1025, 257}, {257, 1025}}
	t.Par("long", len(long), func(b *vh.B, i int) {
		checkThumb(b, ramp{image.Rect(0, 0, long[i][0], long[i][1]).Add(origins[i%3])})
	})
}

func checkThumb(b *vh.B, m ramp) bool {
	for _, pic := range []image.Image{m, limage.Image{{LayerBounds: m.r, Image: ramp{image.Rectangle{Max: m.r.Size()}}}}} {
		if !checkArchive(b, pic, m.r.Dx()*m.r.Dy() < 200000) {
			return false
		}
		data, _ := encode(pic)
		files, _, err := readArchive(data)
		if err != nil {
			b.Fail("zip", "%v", err)
			return false
		}
		th, err := png.Decode(bytes.NewReader(files["Thumbnails/thumbnail.png"]))
		if err != nil {
			b.Fail("thumbnail", "%v", err)
			return false
		}
		ts := th.Bounds().Size()
		for y := 0; y < ts.Y; y++ {
			for x := 0; x < ts.X; x++ {
				c := lim.Straight(th.At(th.Bounds().Min.X+x, th.Bounds().Min.Y+y))
				for j, v := range [2]uint16{c.R, c.G} {
					n, tn, p := m.r.Dx(), ts.X, x
					if j == 1 {
						n, tn, p = m.r.Dy(), ts.Y, y
					}
					// the place in the picture the sample came from
					got := float64(v) * float64(max(n-1, 1)) / 65535
					want := (float64(p) + 0.5) * float64(n) / float64(tn)
					if absf(got+0.5-want) > 2.2*float64(n)/float64(tn)+0.6+float64(n)/2000 {
						b.Fail("thumbnail-place", "thumbnail of a %dx%d picture (%v): sample (%d,%d) comes from %.1f on axis %d, want %.1f", m.r.Dx(), m.r.Dy(), ts, x, y, got, j, want)
						return false
					}
				}
			}
		}
	}
	return true
}
