//go:build go1.22

package main

import (
	"fmt"
	"image"
	"image/color"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/xcf"
	"vimagination.zapto.org/limage/zzverif/lim"
	"vimagination.zapto.org/limage/zzverif/vh"
	"vimagination.zapto.org/limage/zzverif/xfmt"
)

var c19 = vh.Check{
	ID: "C19", Level: "exploration",
	Rule: "every file of the alphabets of C18, decoded with DecodeCompressed, is compared with its description and, point by point inside and around every layer and of the rendered picture, with what Decode gives, in four orders of reading; every sequence of reads up to the stated length over points that represent all tiles (corners, both sides of every edge, outside) is replayed on a freshly decoded image and compared with the eager image; states are the positions of the tile cache reached by those sequences",
	Assume: []string{
		"the assumptions of C18 about files",
		"vimagination.zapto.org/byteio, memio and parser cannot be fetched here; stand-ins written from their documentation are used",
	},
	Run: func(t *vh.T) {
		readSequences(t)
		manyTiles(t)
		oddRuns(t)
		exploreFiles(t, checkDeferred)
	},
}

func sameColour(a, b color.Color) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	return lim.Straight(a) == lim.Straight(b) && lim.Premul(a) == lim.Premul(b)
}

// pairs gives the pictures of matching layers.
func pairs(a, b image.Image, f func(a, b image.Image)) {
	switch m := a.(type) {
	case limage.Image:
		n, ok := b.(limage.Image)
		if !ok || len(n) != len(m) {
			f(a, nil)
			return
		}
		for i := range m {
			pairs(m[i].Image, n[i].Image, f)
		}
	case limage.MaskedImage:
		n, ok := b.(limage.MaskedImage)
		if !ok {
			f(a, nil)
			return
		}
		f(a, b)
		pairs(m.Image, n.Image, f)
	default:
		f(a, b)
	}
}

func checkDeferred(b *vh.B, f *xfmt.File) bool {
	s := f.Write()
	b.EvalH(fileHash(s))
	b.Case(func() string { return describe(f) })
	e, err := xcf.Decode(s)
	if err != nil {
		b.Fail("decode", "Decode of a valid file: %v: %s", err, describe(f))
		return false
	}
	d, err := xcf.DecodeCompressed(s)
	if err != nil {
		b.Fail("deferred", "DecodeCompressed of a valid file: %v: %s", err, describe(f))
		return false
	}
	if !matches(b, "DecodeCompressed", f, d) {
		return false
	}
	o := xfmt.Options{Clip: image.Rect(0, 0, f.W, f.H), Hidden: true}
	if key, diff := xfmt.Compare("", xfmt.Picture(e, image.Point{}), xfmt.Picture(d, image.Point{}), o); key != "" {
		b.Fail("eager-"+key, "DecodeCompressed, compared with Decode: %s: %s", diff, describe(f))
		return false
	}
	ok := true
	n := 0
	pairs(e, d, func(x, y image.Image) {
		if !ok {
			return
		}
		n++
		if msg := samePicture(x, y, n); msg != "" {
			b.Fail("picture", "layer picture %d, %s: %s", n, msg, describe(f))
			ok = false
		}
	})
	if ok && !dissolves(e) {
		if msg := samePicture(e, d, f.W); msg != "" {
			b.Fail("picture", "the whole picture, %s: %s", msg, describe(f))
			ok = false
		}
	}
	return ok
}

// samePicture compares pictures at every point in and a little around them, in
// one of several orders.
func samePicture(x, y image.Image, order int) string {
	if x == nil || y == nil {
		if x != y {
			return fmt.Sprintf("%T is decoded as %T", x, y)
		}
		return ""
	}
	r := x.Bounds()
	if r != y.Bounds() && !(r.Empty() && y.Bounds().Empty()) {
		return fmt.Sprintf("%T bounds %v, deferred %T %v", x, r, y, y.Bounds())
	}
	for _, c := range []color.Color{color.NRGBA{1, 200, 30, 77}, color.Gray{9}} {
		if !sameColour(x.ColorModel().Convert(c), y.ColorModel().Convert(c)) {
			return fmt.Sprintf("the colour models of %T and %T convert %v to %v and %v", x, y, c, x.ColorModel().Convert(c), y.ColorModel().Convert(c))
		}
	}
	w := r.Inset(-2)
	at := func(px, py int) string {
		a, b := x.At(px, py), y.At(px, py)
		if !sameColour(a, b) {
			return fmt.Sprintf("%T bounds %v at (%d,%d) is %v, deferred %T %v", x, r, px, py, a, y, b)
		}
		return ""
	}
	for _, p := range []image.Point{r.Min.Sub(image.Pt(64, 64)), r.Max.Add(image.Pt(64, 64)), {r.Min.X, r.Max.Y + 130}, {-1 << 30, 1 << 30}} {
		if s := at(p.X, p.Y); s != "" {
			return s
		}
	}
	width, height := w.Dx(), w.Dy()
	n := width * height
	for k := 0; k < n; k++ {
		i := k
		switch order % 4 {
		case 1:
			i = n - 1 - k
		case 2: // by column
			i = (k%height)*width + k/height
		case 3: // from both ends
			if g := n/200 + 1; k/g%2 == 1 {
				i = n - 1 - (k/g/2*g + k%g)
			} else {
				i = k/g/2*g + k%g
			}
			if i < 0 || i >= n {
				i = k
			}
		}
		if s := at(w.Min.X+i%width, w.Min.Y+i/width); s != "" {
			return s
		}
	}
	return ""
}

// manyTiles goes between all pairs of tiles of pictures with many of them.
func manyTiles(t *vh.T) {
	sizes := []image.Point{{1090, 70}, {70, 1090}, {2100, 66}, {66, 2100}, {4200, 65}, {320, 325}, {16500, 2}, {1, 16500}}
	type job struct {
		size image.Point
		base int
		na   bool
	}
	var jobs []job
	for i, s := range sizes {
		for base := 0; base < 3; base++ {
			for n, na := range []bool{false, true} {
				if !t.Quick || (i+base+n)%3 == 0 {
					jobs = append(jobs, job{s, base, na})
				}
			}
		}
	}
	if !t.Quick {
		jobs = append(jobs, job{image.Pt(16500, 65), 1, false}, job{image.Pt(65, 16500), 0, false}, job{image.Pt(33000, 1), 2, false})
	}
	t.Par("many-tiles", len(jobs), func(b *vh.B, i int) {
		j := jobs[i]
		f := newFile(3+8*(i%2), j.base, 2, j.size.X, j.size.Y)
		addLayer(f, "l", image.Rectangle{Max: j.size}, 0, j.na, i)
		s := f.Write()
		b.Tick()
		e, err := xcf.Decode(s)
		if err != nil {
			b.Fail("decode", "%v: %s", err, describe(f))
			return
		}
		d, err := xcf.DecodeCompressed(s)
		if err != nil {
			b.Fail("deferred", "%v: %s", err, describe(f))
			return
		}
		var pts []image.Point
		var want []color.Color
		for y := 0; y < j.size.Y; y += 64 {
			for x := 0; x < j.size.X; x += 64 {
				for _, p := range []image.Point{{x, y}, {min(x+63, j.size.X-1), min(y+63, j.size.Y-1)}} {
					pts = append(pts, p)
					want = append(want, e[0].Image.At(p.X, p.Y))
				}
			}
		}
		read := func(from, k int) bool {
			if c := d[0].Image.At(pts[k].X, pts[k].Y); !sameColour(c, want[k]) {
				b.Fail("tiles", "%v, read after %v, is %v, not %v: %s", pts[k], pts[from], c, want[k], describe(f))
				return false
			}
			return true
		}
		n := len(pts) / 2
		for from := 0; from < n; from++ {
			b.Tick()
			if b.Stop() {
				return
			}
			for to := 0; to < n; to++ {
				if !read(from, 2*from) || !read(2*from, 2*to) || !read(2*from, 2*to+1) {
					return
				}
			}
		}
		b.Eval(n*n, n*n)
		b.States(n, n*n, 0)
	})
}

// oddRuns compares the decoders on runs of every small form, whether or not they
// fit what they are to fill: both give an error, or both the same picture.
func oddRuns(t *vh.T) {
	type shape struct {
		size          image.Point
		tile, channel int
	}
	shapes := []shape{{image.Pt(1, 1), 0, 0}, {image.Pt(3, 1), 0, 1}, {image.Pt(130, 1), 0, 0}, {image.Pt(66, 2), 1, 1}, {image.Pt(64, 64), 0, 1}, {image.Pt(65, 1), 0, 0}}
	if !t.Quick {
		shapes = append(shapes, shape{image.Pt(1, 200), 2, 0}, shape{image.Pt(64, 128), 1, 0}, shape{image.Pt(2, 65), 1, 1})
	}
	t.Par("odd-runs", len(shapes)*2, func(b *vh.B, i int) {
		sh := shapes[i/2]
		f := newFile(3+8*(i%2), 1, 2, sh.size.X, sh.size.Y)
		addLayer(f, "l", image.Rectangle{Max: sh.size}, 0, false, i)
		// The size of the tile in question.
		nx := (sh.size.X + 63) / 64
		w, h := min(64, sh.size.X-sh.tile%nx*64), min(64, sh.size.Y-sh.tile/nx*64)
		n := w * h
		var forms [][]byte
		seen := map[int]bool{}
		for _, c := range []int{0, 1, 2, n / 2, n - 1, n, n + 1, 127, 128, 129, 4096, 65535} {
			if c < 0 || seen[c] {
				continue
			}
			seen[c] = true
			lit := make([]byte, c)
			for j := range lit {
				lit[j] = byte(j*5 + c)
			}
			if c > 0 && c < 128 {
				forms = append(forms, []byte{byte(c - 1), byte(c)}, append([]byte{byte(256 - c)}, lit...))
			}
			forms = append(forms, []byte{127, byte(c >> 8), byte(c), 77}, append([]byte{128, byte(c >> 8), byte(c)}, lit...))
		}
		try := func(what string, stream []byte) bool {
			f.Recode = func(tile, channel int, usual []byte) []byte {
				if tile == sh.tile && channel == sh.channel {
					return stream
				}
				return usual
			}
			s := f.Write()
			b.EvalH(fileHash(s))
			e, errE := xcf.Decode(s)
			d, errD := xcf.DecodeCompressed(s)
			if (errE == nil) != (errD == nil) {
				b.Fail("odd-runs", "%s in channel %d of tile %d of %v: Decode gives %v, DecodeCompressed %v", what, sh.channel, sh.tile, sh.size, errE, errD)
				return false
			}
			if errE == nil {
				if msg := samePicture(e[0].Image, d[0].Image, len(stream)); msg != "" {
					b.Fail("odd-runs", "%s in channel %d of tile %d of %v: %s", what, sh.channel, sh.tile, sh.size, msg)
					return false
				}
			}
			return true
		}
		depth := vh.Pick(t, 2, 3)
		var rec func(stream []byte, left int, what string) bool
		rec = func(stream []byte, left int, what string) bool {
			if b.Stop() {
				return false
			}
			if len(stream) > 0 && !try("runs"+what, stream) {
				return false
			}
			for k := 0; left > 0 && k < len(forms); k++ {
				if n > 1000 && left != depth && k%3 != 0 {
					continue
				}
				if !rec(append(stream[:len(stream):len(stream)], forms[k]...), left-1, fmt.Sprintf("%s %x", what, forms[k][:min(3, len(forms[k]))])) {
					return false
				}
			}
			return true
		}
		if !rec(nil, depth, "") {
			return
		}
		// Runs of nothing, in numbers around every power of two.
		for k := 1; k <= 1<<14; k *= 2 {
			for _, c := range []int{k - 1, k, k + 1} {
				empty := make([]byte, 0, 4*c+4)
				for j := 0; j < c; j++ {
					if j%2 == i%2 {
						empty = append(empty, 127, 0, 0, 1)
					} else {
						empty = append(empty, 128, 0, 0)
					}
				}
				fill := []byte{127, byte(n >> 8), byte(n), 9}
				b.Tick()
				if !try(fmt.Sprint(c, " empty runs and a full one"), append(empty[:len(empty):len(empty)], fill...)) || !try(fmt.Sprint("a full run and ", c, " empty ones"), append(fill, empty...)) {
					return
				}
			}
		}
	})
}

// readSequences reads fresh images in all short orders.
func readSequences(t *vh.T) {
	sizes := []image.Point{{1, 1}, {64, 64}, {65, 64}, {64, 65}, {70, 66}, {129, 67}, {30, 130}}
	depth := vh.Pick(t, 3, 4)
	type job struct {
		size image.Point
		base int
		na   bool
		runs int
	}
	var jobs []job
	for _, s := range sizes {
		for base := 0; base < 3; base++ {
			for _, na := range []bool{false, true} {
				jobs = append(jobs, job{s, base, na, len(jobs) % xfmt.Strategies})
				if !t.Quick {
					jobs = append(jobs, job{s, base, na, (len(jobs) + 3) % xfmt.Strategies})
				}
			}
		}
	}
	t.Par("read-sequences", len(jobs), func(b *vh.B, i int) {
		j := jobs[i]
		f := newFile(3+8*(i%2), j.base, 1+j.runs, j.size.X, j.size.Y)
		addLayer(f, "l", image.Rectangle{Max: j.size}, 0, j.na, i)
		s := f.Write()
		e, err := xcf.Decode(s)
		if err != nil {
			b.Fail("decode", "%v: %s", err, describe(f))
			return
		}
		d, err := xcf.DecodeCompressed(s)
		if err != nil {
			b.Fail("deferred", "%v: %s", err, describe(f))
			return
		}
		// Two points in each tile, at its edges, and two outside.
		pts := []image.Point{{-1, 0}, {0, j.size.Y}}
		tiles := 1
		for y := 0; y < j.size.Y; y += 64 {
			for x := 0; x < j.size.X; x += 64 {
				tiles++
				m := image.Pt(min(x+63, j.size.X-1), min(y+63, j.size.Y-1))
				pts = append(pts, image.Pt(x, y), m)
				if j.size.X*j.size.Y < vh.Pick(t, 4500, 5000) {
					pts = append(pts, image.Pt(m.X, y), image.Pt(x, m.Y), image.Pt((x+m.X)/2, (y+m.Y)/2))
				}
			}
		}
		want := make([]color.Color, len(pts))
		for k, p := range pts {
			want[k] = e[0].Image.At(p.X, p.Y)
		}
		// A fresh cache needs a fresh image: the file is decoded again for every
		// first read, and the later reads follow without another decoding only
		// where a sequence is a prefix of the next one.
		depth, n := depth, 1
		if len(pts) > 15 {
			depth = 3
		}
		for k := 0; k < depth; k++ {
			n *= len(pts)
		}
		for q := 0; q < n; q++ {
			if q%len(pts) == 0 && q%(len(pts)*len(pts)) == 0 {
				if d, err = xcf.DecodeCompressed(s); err != nil {
					b.Fail("deferred", "%v: %s", err, describe(f))
					return
				}
				if b.Stop() {
					return
				}
			}
			b.EvalH(vh.Hash(i, q))
			for k, v := 0, q; k < depth; k, v = k+1, v/len(pts) {
				p := pts[v%len(pts)]
				if c := d[0].Image.At(p.X, p.Y); !sameColour(c, want[v%len(pts)]) {
					b.Fail("sequence", "sequence %d of %d points: read %d, of %v, is %v, not %v: %s", q, len(pts), k, p, c, want[v%len(pts)], describe(f))
					return
				}
			}
		}
		b.States(tiles, tiles*len(pts), n)
	})
}
