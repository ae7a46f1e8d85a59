//go:build go1.22

package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"image"
	"time"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/ora"
	"vimagination.zapto.org/limage/zzverif/lim"
	"vimagination.zapto.org/limage/zzverif/vh"
)

var c26 = vh.Check{
	ID: "C26", Level: "exploration",
	Rule: "from every starting picture the graph of all pictures reachable by saving and loading (OpenRaster, XCF, XCF with deferred decoding), cropping and hiding or showing layers is explored breadth first to its end or the stated depth, and every state is compared with the crops and visibility changes alone; a state is the whole content of the picture, the reference and the offset between them",
	Assume: []string{
		"modes are those both formats have and the bottom layer of each group is Normal; pictures of one palette are only Normal",
		"OpenRaster keeps no masks, so masked pictures may differ by one 8-bit step after it",
		"vimagination.zapto.org/byteio, memio and parser cannot be fetched here; stand-ins written from their documentation are used",
	},
	Run: runC26,
}

// driftState is a picture with what it should look like.
type driftState struct {
	pic, ref limage.Image
	off      image.Point // from pic to ref
	path     *driftStep
	depth    int
}

type driftStep struct {
	up *driftStep
	op string
}

func (s *driftStep) String() string {
	if s == nil {
		return "load"
	}
	return s.up.String() + ", " + s.op
}

func (s *driftState) hash() uint64 {
	var b bytes.Buffer
	lim.Content(&b, s.pic)
	lim.Content(&b, s.ref)
	fmt.Fprint(&b, s.off)
	return vh.HashBytes(b.Bytes())
}

// plainGroup gives the layers of a group that is not masked; OpenRaster keeps
// those that are as one picture.
func plainGroup(m image.Image) (limage.Image, bool) {
	switch m.(type) {
	case limage.MaskedImage, *limage.MaskedImage:
		return nil, false
	}
	return group(m)
}

// seenLayer is a layer in a list of what can be seen of each.
type seenLayer struct {
	name   string
	mode   limage.Composite
	hidden bool
	trans  uint8
	group  bool
	at     image.Rectangle
}

func seenLayers(out []seenLayer, g limage.Image, p image.Point, clip image.Rectangle) []seenLayer {
	for _, l := range g {
		at := l.LayerBounds.Add(p).Intersect(clip)
		in, ok := plainGroup(l.Image)
		sl := seenLayer{l.Name, l.Mode, l.Invisible, l.Transparency, ok, at}
		if ok {
			sl.at = image.Rectangle{}
		}
		out = append(out, sl)
		if ok {
			out = seenLayers(out, in, p.Add(l.LayerBounds.Min), at)
			out = append(out, seenLayer{name: "end"})
		}
	}
	return out
}

var everywhere = image.Rect(-1<<20, -1<<20, 1<<20, 1<<20)

func (s *driftState) check(b *vh.B, what string, tol int) bool {
	want := seenLayers(nil, s.ref, image.Point{}, everywhere)
	got := seenLayers(nil, s.pic, s.off, everywhere)
	if len(want) != len(got) {
		b.Fail("layers", "%s (%s): %d layers, not %d: %s instead of %s", what, s.path, len(got), len(want), lim.Describe(s.pic), lim.Describe(s.ref))
		return false
	}
	for i := range want {
		if want[i].at.Empty() {
			got[i].at = want[i].at
		}
		if want[i] != got[i] {
			b.Fail("layer", "%s (%s): layer %v instead of %v", what, s.path, got[i], want[i])
			return false
		}
	}
	if p := s.pic.Bounds().Add(s.off); !p.In(s.ref.Bounds()) {
		b.Fail("bounds", "%s (%s): bounds %v instead of %v: %s instead of %s", what, s.path, p, s.ref.Bounds(), lim.Describe(s.pic), lim.Describe(s.ref))
		return false
	}
	win := s.ref.Bounds().Union(s.pic.Bounds().Add(s.off)).Inset(-1)
	if msg, ok := lim.Same(s.ref, s.pic, win, s.off.Mul(-1), tol); !ok {
		b.Fail("render", "%s (%s): %s; %s instead of %s", what, s.path, msg, lim.Describe(s.pic), lim.Describe(s.ref))
		return false
	}
	return true
}

func toggle(g limage.Image, path []int) limage.Image {
	h := append(limage.Image{}, g...)
	l := &h[path[0]]
	if len(path) == 1 {
		l.Invisible = !l.Invisible
		return h
	}
	switch m := l.Image.(type) {
	case limage.Image:
		l.Image = toggle(m, path[1:])
	case *limage.Image:
		l.Image = toggle(*m, path[1:])
	default:
		panic("not a group")
	}
	return h
}

// layerPaths are the ways to the layers of a picture.
func layerPaths(g limage.Image, up []int, out [][]int) [][]int {
	for i, l := range g {
		p := append(append([]int{}, up...), i)
		out = append(out, p)
		if in, ok := plainGroup(l.Image); ok {
			out = layerPaths(in, p, out)
		}
	}
	return out
}

var formats = []struct {
	name string
	save func(m image.Image) ([]byte, error)
	load func(d []byte) (limage.Image, error)
}{
	{"ora", func(m image.Image) ([]byte, error) {
		var w bytes.Buffer
		err := ora.Encode(&w, m)
		return w.Bytes(), err
	}, func(d []byte) (limage.Image, error) {
		z, err := zip.NewReader(bytes.NewReader(d), int64(len(d)))
		if err != nil {
			return nil, err
		}
		return ora.Decode(z)
	}},
	{"xcf", encode, decode},
	{"deferred", encode, deferred},
}

// drift explores everything that can be reached from a picture.
func drift(t *vh.T, b *vh.B, name string, start limage.Image, first int, crops []image.Rectangle, toggles, depth, tol int) {
	data, err := formats[first].save(start)
	if err != nil {
		b.Fail("encode", "saving %s as %s: %v", name, formats[first].name, err)
		return
	}
	pic, err := formats[first].load(data)
	if err != nil {
		b.Fail("decode", "loading %s as %s: %v", name, formats[first].name, err)
		return
	}
	b.EvalH(vh.HashBytes(data))
	s0 := &driftState{pic: pic, ref: pic}
	canvas := pic.Bounds()
	paths := layerPaths(pic, nil, nil)
	if len(paths) > toggles {
		paths = paths[:toggles]
	}
	known := map[uint64]bool{s0.hash(): true}
	queue := []*driftState{s0}
	trans := 0
	for len(queue) > 0 && !b.Stop() {
		s := queue[0]
		queue = queue[1:]
		b.Tick()
		add := func(n *driftState, op string) bool {
			n.path = &driftStep{s.path, op}
			n.depth = s.depth + 1
			trans++
			h := n.hash()
			b.EvalH(h)
			if known[h] {
				return true
			}
			known[h] = true
			if !n.check(b, name+" as "+formats[first].name, tol) {
				return false
			}
			if n.depth < depth {
				queue = append(queue, n)
			}
			return true
		}
		for _, f := range formats {
			d, err := f.save(s.pic)
			if err != nil {
				b.Fail("encode", "%s (%s): saving %s as %s: %v", name, s.path, lim.Describe(s.pic), f.name, err)
				return
			}
			if d2, err := f.save(s.pic); err != nil || !bytes.Equal(d, d2) {
				b.Fail("deterministic", "%s (%s): saving %s as %s a second time gives something else (%v)", name, s.path, lim.Describe(s.pic), f.name, err)
				return
			}
			p, err := f.load(d)
			if err != nil {
				b.Fail("decode", "%s (%s): loading %s as %s: %v", name, s.path, lim.Describe(s.pic), f.name, err)
				return
			}
			if !add(&driftState{pic: p, ref: s.ref, off: s.off.Add(s.pic.Bounds().Min)}, f.name) {
				return
			}
		}
		for _, c := range crops {
			r := c.Add(canvas.Min)
			p := s.pic.SubImage(r.Sub(s.off)).(limage.Image)
			ref := s.ref.SubImage(r).(limage.Image)
			if ref.Bounds().Empty() {
				continue
			}
			if !add(&driftState{pic: p, ref: ref, off: s.off}, fmt.Sprintf("crop%v", r)) {
				return
			}
		}
		for _, path := range paths {
			if !add(&driftState{pic: toggle(s.pic, path), ref: toggle(s.ref, path), off: s.off}, fmt.Sprintf("toggle%v", path)) {
				return
			}
		}
	}
	b.States(len(known), trans, 0)
}

type driftStart struct {
	name  string
	pic   limage.Image
	tol   int
	quick bool
}

func driftStarts() []driftStart {
	lay := func(n string, r image.Rectangle, m image.Image) limage.Layer {
		return limage.Layer{Name: n, LayerBounds: r, Image: m}
	}
	kind := func(n string, w, h, salt int) image.Image {
		for _, k := range lim.Kinds() {
			if k.Name == n {
				return k.Make(image.Rect(0, 0, w, h), salt)
			}
		}
		panic(n)
	}
	set := func(l limage.Layer, mode limage.Composite, tr uint8, inv bool) limage.Layer {
		l.Mode, l.Transparency, l.Invisible = mode, tr, inv
		return l
	}
	base := lay("base", image.Rect(0, 0, 5, 4), nr(5, 4, 1))
	inner := limage.Image{
		set(lay("i1", image.Rect(0, 1, 2, 3), nr(2, 2, 2)), limage.CompositeScreen, 40, false),
		lay("i2", image.Rect(1, 0, 3, 2), nr(2, 2, 3)),
	}
	var out []driftStart
	add := func(n string, quick bool, tol int, ls ...limage.Layer) {
		out = append(out, driftStart{name: n, pic: ls, tol: tol, quick: quick})
	}
	add("two", true, 0, set(lay("top", image.Rect(1, 1, 4, 3), nr(3, 2, 4)), limage.CompositeMultiply, 77, false), base)
	add("negative", true, 0, set(lay("a b", image.Rect(-3, -2, 0, 1), nr(3, 3, 5)), limage.CompositeOverlay, 1, false), lay("", image.Rect(-2, -1, 3, 2), nr(5, 3, 6)))
	add("apart", true, 0, lay("one", image.Rect(0, 0, 2, 2), nr(2, 2, 7)), set(lay("two", image.Rect(3, 2, 5, 4), nr(2, 2, 8)), limage.CompositeNormal, 254, false))
	add("group", true, 0, set(lay("g", image.Rect(1, 1, 4, 4), inner), limage.CompositeDifference, 128, false), base)
	add("nested", true, 0, lay("o", image.Rect(0, 0, 4, 4), limage.Image{set(lay("g", image.Rect(1, 1, 4, 4), inner), limage.CompositeNormal, 3, false), lay("l", image.Rect(0, 0, 2, 2), nr(2, 2, 9))}), base)
	add("hidden", false, 0, set(lay("h", image.Rect(1, 0, 4, 2), nr(3, 2, 10)), limage.CompositeHardLight, 9, true), set(lay("v", image.Rect(0, 2, 5, 4), nr(5, 2, 11)), limage.CompositeHue, 200, false), base)
	add("gray", true, 0, set(lay("y", image.Rect(1, 0, 4, 2), kind("GrayAlpha", 3, 2, 1)), limage.CompositeScreen, 10, false), lay("z", image.Rect(0, 0, 5, 4), kind("Gray", 5, 4, 2)))
	add("palette", true, 0, lay("p", image.Rect(1, 0, 4, 2), kind("PalettedAlpha", 3, 2, 1)), lay("q", image.Rect(0, 0, 5, 4), kind("Paletted", 5, 4, 2)))
	add("mixed", false, 520, set(lay("p", image.Rect(1, 0, 4, 2), kind("RGB", 3, 2, 1)), limage.CompositeDarkenOnly, 50, false), lay("q", image.Rect(2, 1, 5, 4), kind("GrayAlpha", 3, 3, 2)), base)
	add("text", true, 0, lay("t", image.Rect(1, 1, 4, 3), kind("Text", 3, 2, 1)), base)
	add("masked", true, 520, lay("m", image.Rect(1, 0, 4, 3), kind("Masked", 3, 3, 1)), lay("opaque", image.Rect(0, 0, 5, 4), kind("RGB", 5, 4, 4)))
	add("masked-group", true, 520, lay("m", image.Rect(1, 0, 4, 3), limage.MaskedImage{Image: inner, Mask: lim.MaskOf(image.Rect(0, 0, 3, 3), 2)}), lay("opaque", image.Rect(0, 0, 5, 4), kind("RGB", 5, 4, 4)))
	add("tall-group", false, 0, lay("g", image.Rect(2, -3, 5, 3), limage.Image{lay("x", image.Rect(0, 0, 1, 6), nr(1, 6, 3)), lay("y", image.Rect(0, 2, 3, 3), nr(3, 1, 4))}), lay("only", image.Rect(0, 0, 2, 2), nr(2, 2, 8)))
	add("sole", true, 0, set(lay("sole", image.Rect(2, 3, 6, 6), nr(4, 3, 3)), limage.CompositeNormal, 33, false))
	add("empty-group", false, 0, lay("none", image.Rect(0, 0, 2, 2), limage.Image{}), base)
	add("tile", false, 0, lay("t", image.Rect(60, 0, 68, 2), nr(8, 2, 3)), lay("wide", image.Rect(0, 0, 66, 3), kind("RGB", 66, 3, 3)))
	return out
}

// later saves equal pictures, made anew, at times that file formats can tell
// apart (the coarsest of them count in steps of two seconds).
func later(t *vh.T) {
	type saved struct {
		start, format string
		data          []byte
	}
	all := func(b *vh.B) (out []saved) {
		for _, s := range driftStarts() {
			for _, f := range formats[:2] {
				for n := 0; n < 3; n++ {
					d, err := f.save(s.pic)
					if err != nil {
						b.Fail("encode", "saving %s as %s: %v", s.name, f.name, err)
						return nil
					}
					out = append(out, saved{s.name, f.name, d})
				}
			}
		}
		return out
	}
	t.Par("later", 1, func(b *vh.B, _ int) {
		first := all(b)
		for n := 0; n < 2 && !b.Stop(); n++ {
			time.Sleep(2100 * time.Millisecond)
			for i, s := range all(b) {
				if !bytes.Equal(s.data, first[i].data) {
					b.Fail("deterministic", "saving %s as %s later gives other bytes", s.start, s.format)
					return
				}
				b.Eval(1, 1)
			}
		}
	})
}

func runC26(t *vh.T) {
	later(t)
	starts := driftStarts()
	t.Par("graph", len(starts)*2, func(b *vh.B, i int) {
		s, first := starts[i/2], i%2
		if t.Quick && !s.quick {
			return
		}
		r := s.pic.Bounds()
		if s.name == "nested" && first == 0 {
			t.Sample(map[string]any{"start": s.name, "picture": lim.Describe(s.pic), "first saved as": formats[first].name})
		}
		w, h := r.Dx(), r.Dy()
		crops := []image.Rectangle{image.Rect(1, 0, w, h), image.Rect(0, 0, w-1, h), image.Rect(0, 1, w, h), image.Rect(0, 0, w, h-1), image.Rect(w/2, h/2, w+3, h+3), image.Rect(-2, -2, w/2+1, h/2+1)}
		if !t.Quick {
			crops = append(crops, image.Rect(1, 1, w-1, h-1), image.Rect(w/2, 0, w/2+1, h), image.Rect(0, h/2, w, h/2+1))
		}
		drift(t, b, s.name, s.pic, first, crops, vh.Pick(t, 2, 5), vh.Pick(t, 6, 100), s.tol)
	})
}
