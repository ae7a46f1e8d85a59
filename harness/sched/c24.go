//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"image"
	"image/color"
	"io"

	"verif.local/vsched"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/xcf"
	"vimagination.zapto.org/limage/zzverif/lim"
	"vimagination.zapto.org/limage/zzverif/vh"
	"vimagination.zapto.org/limage/zzverif/xfmt"
)

var c24 = vh.Check{
	ID: "C24", Level: "exploration",
	Rule: "every schedule with the stated number of preemptions, at every statement of packages xcf and internal, of the goroutines of Decode, DecodeCompressed and image.Decode over files of one to three layers, good and with every number in them corrupted, and of two and three readers of the pixels of deferred images, which must find what the file was written with; distinct by construction",
	Assume: []string{
		"schedules are explored at the granularity of statements, and between the read and the write of compound assignments, with sync and sync/atomic replaced by models of them",
		"which of several errors is given may depend on the schedule",
		"vimagination.zapto.org/byteio, memio and parser cannot be fetched here; stand-ins written from their documentation are used",
	},
	Run: runC24, Races: racesC24,
}

var palette = [][3]byte{{0, 0, 0}, {255, 0, 0}, {0, 255, 0}, {10, 20, 250}, {255, 255, 255}}

func newFile(version, base, comp, w, h int) *xfmt.File {
	f := &xfmt.File{Version: version, Base: base, W: w, H: h, Compression: min(comp, 1)}
	if base == 2 {
		f.Palette = palette
	}
	return f
}

// fill gives a layer its pixels, in runs.
func fill(f *xfmt.File, l *xfmt.Layer, run, salt int) {
	bpp := f.BPP(l)
	w, h := l.Rect.Dx(), l.Rect.Dy()
	l.Pix = make([]byte, w*h*bpp)
	for i := 0; i < w*h; i++ {
		c := lim.Col(i%w/run, i/w, salt)
		p := l.Pix[i*bpp : (i+1)*bpp]
		switch f.Base {
		case 0:
			p[0], p[1], p[2] = c.R, c.G, c.B
		case 1:
			p[0] = c.R
		case 2:
			p[0] = byte((i%w/run + i/w + salt) % len(f.Palette))
		}
		if !l.NoAlpha {
			p[bpp-1] = c.A
		}
	}
}

func addLayer(f *xfmt.File, name string, r image.Rectangle, noAlpha bool, salt int) *xfmt.Layer {
	l := &xfmt.Layer{Name: name, Rect: r, Opacity: uint8(255 - salt), NoAlpha: noAlpha}
	fill(f, l, 1, salt)
	f.Layers = append(f.Layers, l)
	return l
}

type decFile struct {
	name  string
	f     *xfmt.File
	data  []byte // when not what f is written as
	quick bool
}

func decodeFiles() []decFile {
	var out []decFile
	one := image.Rect(0, 0, 1, 1)
	for base := 0; base < 3; base++ {
		for comp := 0; comp < 2; comp++ {
			f := newFile(4+base*3, base, comp, 2, 1)
			addLayer(f, "a", one, false, 1+base)
			addLayer(f, "b", image.Rect(1, 0, 2, 1), comp == 1, 2)
			out = append(out, decFile{fmt.Sprintf("two layers, base %d, compression %d", base, comp), f, nil, comp == 1 || base == 0})
		}
	}
	f := newFile(3, 0, 1, 2, 2)
	addLayer(f, "m", one, false, 3).Mask = []byte{100}
	addLayer(f, "n", image.Rect(0, 1, 2, 2), false, 4).Mask = []byte{200, 7}
	out = append(out, decFile{"masks", f, nil, true})
	f = newFile(11, 1, 1, 2, 2)
	g := &xfmt.Layer{Name: "g", Rect: image.Rect(0, 0, 2, 1), Opacity: 255, Group: true}
	k := *addLayer(f, "in", one, false, 3)
	f.Layers = f.Layers[:0]
	g.Kids = []*xfmt.Layer{&k}
	f.Layers = append(f.Layers, g)
	addLayer(f, "base", image.Rect(0, 0, 2, 2), true, 5)
	out = append(out, decFile{"group", f, nil, true})
	f = newFile(5, 0, 1, 2, 1)
	for i := range 3 {
		addLayer(f, string(rune('a'+i)), image.Rect(i&1, 0, i&1+1, 1), i == 2, i)
	}
	out = append(out, decFile{"three layers", f, nil, false})
	f = newFile(5, 0, 1, 1, 1)
	t := addLayer(f, "text", one, false, 9)
	t.Before = []xfmt.Prop{{ID: 21, Data: xfmt.Parasite("gimp-text-layer", 1, "(text \"ab\")\n(font \"Sans\")\n(font-size 9.0)\x00")}}
	t = addLayer(f, "other", one, false, 8)
	t.Before = []xfmt.Prop{{ID: 21, Data: xfmt.Parasite("gimp-text-layer", 1, "(markup \"<b>x</b>y\")\n(font \"Serif\")\x00")}}
	out = append(out, decFile{"texts", f, nil, false})

	// Layers that share what is written once.
	shared := func(ptrs ...int) *xfmt.File {
		f := newFile(3, 0, 0, 1, 1)
		for i := range 3 {
			l := addLayer(f, "l", one, false, i)
			l.Before = []xfmt.Prop{{ID: 21, Data: xfmt.Parasite("p", 1, string(make([]byte, 300)))}}
			l.Mask = []byte{1}
		}
		return f
	}
	for _, order := range [][3]int{{2, 0, 0}, {0, 0, 2}, {0, 2, 0}, {1, 1, 1}, {0, 0, 0}} {
		f := shared()
		d := f.Write().Bytes()
		at := layerPointers(d)
		p := append([]byte(nil), d...)
		for i, o := range order {
			copy(p[at+4*i:at+4*i+4], d[at+4*o:])
		}
		out = append(out, decFile{fmt.Sprintf("shared layers %v", order), nil, p, order[0] != 1})
	}
	return out
}

// layerPointers gives the place of the pointers in a file of an old version
// without a palette.
func layerPointers(d []byte) int {
	at := 14 + 12
	for {
		id, n := binary.BigEndian.Uint32(d[at:]), binary.BigEndian.Uint32(d[at+4:])
		at += 8 + int(n)
		if id == 0 {
			return at
		}
	}
}

// seekOnly hides everything but reading and seeking.
type seekOnly struct{ io.ReadSeeker }

var decoders = []struct {
	name string
	dec  func(d []byte) (limage.Image, error)
}{
	{"Decode", func(d []byte) (limage.Image, error) { return xcf.Decode(bytes.NewReader(d)) }},
	{"DecodeCompressed", func(d []byte) (limage.Image, error) { return xcf.DecodeCompressed(bytes.NewReader(d)) }},
	{"image.Decode", func(d []byte) (limage.Image, error) {
		m, _, err := image.Decode(seekOnly{bytes.NewReader(d)})
		if err != nil {
			return nil, err
		}
		return m.(limage.Image), nil
	}},
}

// outcome of a decoder, as text.
func outcome(dec func(d []byte) (limage.Image, error), d []byte) (string, limage.Image) {
	m, err := dec(d)
	if err != nil {
		return "an error", nil
	}
	var s bytes.Buffer
	lim.Content(&s, m)
	return s.String(), m
}

// schedules explores a decoder.
func schedules(t *vh.T, b *vh.B, what string, f *xfmt.File, data []byte, dec func(d []byte) (limage.Image, error), bound, part, parts int) bool {
	want, first := "", true
	st := vsched.Explore(bound, part, parts, func() ([]func(), func(*vsched.Exec) bool) {
		var (
			got string
			m   limage.Image
		)
		return []func(){func() { got, m = outcome(dec, data) }}, func(e *vsched.Exec) bool {
			w := fmt.Sprintf("%s, schedule %s", what, e.Schedule())
			switch {
			case e.Deadlock:
				b.Fail("blocked", "%s: does not finish", w)
				return false
			case e.Panic != nil:
				b.Fail("panic", "%s: panic: %v\n%s", w, e.Panic, e.Stack)
				return false
			}
			b.Tick()
			if first {
				first, want = false, got
				if f == nil {
					return true
				}
				if m == nil {
					b.Fail("decode", "%s: an error for a valid file", w)
					return false
				}
				o := xfmt.Options{Clip: image.Rect(0, 0, f.W, f.H), Hidden: true}
				if key, diff := xfmt.Compare("", f.Nodes(), xfmt.Picture(m, image.Point{}), o); key != "" {
					b.Fail(key, "%s: %s", w, diff)
					return false
				}
				return true
			}
			if got != want {
				b.Fail("schedule", "%s gives %s instead of %s", w, short(got), short(want))
				return false
			}
			return true
		}
	}, b.Stop)
	b.Eval(st.Schedules, st.Schedules)
	b.States(st.Choices, st.Points, 0)
	if !st.Complete && !b.Failed() {
		t.Truncated()
	}
	return !b.Failed()
}

func short(s string) string {
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return fmt.Sprintf("%q", s)
}

func runC24(t *vh.T) {
	files := decodeFiles()
	const parts = 16
	t.Par("decode", len(files)*len(decoders)*parts, func(b *vh.B, i int) {
		part, i := i%parts, i/parts
		d, f := decoders[i%len(decoders)], files[i/len(decoders)]
		if t.Quick && !f.quick {
			return
		}
		data := f.data
		if data == nil {
			data = f.f.Write().Bytes()
		}
		schedules(t, b, d.name+" of "+f.name, f.f, data, d.dec, 1, part, parts)
	})
	runPixels(t, "pixels", 1)
	faulty := faultyFiles(t, files)
	t.Par("faulty", len(faulty), func(b *vh.B, i int) {
		f := faulty[i]
		for j, d := range decoders {
			if (i+j)%3 != 0 {
				continue
			}
			if !schedules(t, b, d.name+" of "+f.name, nil, f.data, d.dec, 1, 0, 1) {
				return
			}
		}
	})
	// Two preemptions, for the smallest files.
	deep := vh.Pick(t, 0, 2)
	const deepParts = 64
	t.Par("decode-deep", deep*2*deepParts, func(b *vh.B, i int) {
		part, i := i%deepParts, i/deepParts
		d, f := decoders[i%2], files[1+2*(i/2)]
		schedules(t, b, d.name+" of "+f.name, f.f, f.f.Write().Bytes(), d.dec, 2, part, deepParts)
	})
}

// racesC24 looks for accesses that nothing orders, whatever their order was.
func racesC24(t *vh.T) {
	files := decodeFiles()
	t.Par(vh.RacePrefix+"decode", len(files)*len(decoders), func(b *vh.B, i int) {
		d, f := decoders[i%len(decoders)], files[i/len(decoders)]
		data := f.data
		if data == nil {
			data = f.f.Write().Bytes()
		}
		schedules(t, b, d.name+" of "+f.name, f.f, data, d.dec, vh.Pick(t, 0, 1), 0, 1)
	})
	faulty := faultyFiles(t, files)
	t.Par(vh.RacePrefix+"faulty", len(faulty), func(b *vh.B, i int) {
		f := faulty[i]
		for _, d := range decoders {
			if !schedules(t, b, d.name+" of "+f.name, nil, f.data, d.dec, vh.Pick(t, 0, 1), 0, 1) {
				return
			}
		}
	})
	runPixels(t, vh.RacePrefix+"pixels", 0)
}

// faultyFiles are files of which every number is corrupted, and cut ones.
func faultyFiles(t *vh.T, files []decFile) []decFile {
	var faulty []decFile
	for _, f := range files {
		if f.f == nil || len(f.f.Layers) > 2 || t.Quick && !f.quick {
			continue
		}
		s := f.f.Write()
		data := s.Bytes()
		for _, at := range s.Fields {
			for k, v := range []uint32{0xffffffff, 0, binary.BigEndian.Uint32(data[at:]) + 1, 0x7f} {
				if t.Quick && (int(at)+k)%4 != 0 {
					continue
				}
				d := append([]byte(nil), data...)
				binary.BigEndian.PutUint32(d[at:], v)
				if !bytes.Equal(d, data) {
					faulty = append(faulty, decFile{fmt.Sprintf("%s, %#x at %d", f.name, v, at), nil, d, true})
				}
			}
		}
		for n := 60; n < len(data); n += vh.Pick(t, 13, 2) {
			faulty = append(faulty, decFile{fmt.Sprintf("%s, cut to %d", f.name, n), nil, data[:n], true})
		}
	}
	return faulty
}

// deferredFile is a picture of two tiles in every form that pixels have.
func deferredFile(base int, alpha bool, comp, second int) *xfmt.File {
	f := newFile(4+base*3, base, comp, 66, second+1)
	l := &xfmt.Layer{Name: "l", Rect: image.Rect(0, 0, 66, 1), Opacity: 255, NoAlpha: !alpha}
	fill(f, l, 24, 3+base)
	if second > 0 {
		u := &xfmt.Layer{Name: "u", Rect: image.Rect(0, 0, 66, 2), Opacity: 255, NoAlpha: !alpha}
		fill(f, u, 33, 7)
		l.NoAlpha = false
		fill(f, l, 24, 3+base)
		l.Mask = make([]byte, 66)
		for i := range l.Mask {
			l.Mask[i] = byte(255 - i/20*40)
		}
		f.Layers = []*xfmt.Layer{l, u}
		return f
	}
	f.Layers = []*xfmt.Layer{l}
	return f
}

// typedAt reads a pixel by the method of its type.
func typedAt(m image.Image, x, y int) color.Color {
	switch m := m.(type) {
	case *xcf.CompressedRGB:
		return m.RGBAt(x, y)
	case *xcf.CompressedNRGBA:
		return m.NRGBAAt(x, y)
	case *xcf.CompressedGray:
		return m.GrayAt(x, y)
	case *xcf.CompressedGrayAlpha:
		return m.GrayAlphaAt(x, y)
	}
	return m.At(x, y)
}

func straight(c color.Color) string {
	n := lim.Straight(c)
	return fmt.Sprintf("%04x%04x%04x/%04x", n.R, n.G, n.B, n.A)
}

func runPixels(t *vh.T, stage string, bound int) {
	xs := []int{0, 63, 64, 65}
	pairs := 2
	if bound == 0 {
		pairs = vh.Pick(t, 0, 1)
	}
	type plan struct {
		reads [][]int
		bound int
	}
	var plans []plan
	for _, a := range xs {
		for _, b := range xs {
			for _, c := range xs {
				for _, d := range xs {
					if t.Quick && (a+2*b+3*c+5*d)%5 != 0 {
						continue
					}
					plans = append(plans, plan{[][]int{{a, b}, {c, d}}, bound})
				}
				if !t.Quick || (a+2*b+3*c)%5 == 0 {
					plans = append(plans, plan{[][]int{{a}, {b}, {c}}, bound})
				}
			}
			plans = append(plans, plan{[][]int{{a}, {b}}, pairs})
		}
	}
	// Pictures that are not compressed in the file are not deferred.
	forms := 3 * 2 * 4
	t.Par(stage, forms*len(plans), func(b *vh.B, i int) {
		p := plans[i/forms]
		n := i % forms
		base, alpha, comp, how := n%3, n/3%2 == 1, 1, n/6
		if p.bound > bound && (how == 3 || t.Quick && (how > 0 || base == 0)) {
			return
		}
		second := 0
		if how >= 2 {
			second = 1
		}
		f := deferredFile(base, alpha, comp, second)
		data := f.Write().Bytes()
		whole, err := xcf.Decode(bytes.NewReader(data))
		if err != nil {
			b.Fail("decode", "Decode of a valid file: %v", err)
			return
		}
		o := xfmt.Options{Clip: image.Rect(0, 0, f.W, f.H), Hidden: true}
		if key, diff := xfmt.Compare("", f.Nodes(), xfmt.Picture(whole, image.Point{}), o); key != "" {
			b.Fail(key, "Decode: %s", diff)
			return
		}
		what := fmt.Sprintf("base %d, alpha %v, compression %d, %s", base, alpha, comp, [...]string{"At", "the method of the type", "At of a masked layer", "At of the image"}[how])
		read := func(m limage.Image, x int) color.Color {
			switch how {
			case 1:
				return typedAt(m[0].Image, x, 0)
			case 3:
				return m.At(x, 0)
			}
			return m[0].Image.At(x, 0)
		}
		want := map[int]string{}
		for _, x := range xs {
			want[x] = straight(read(whole, x))
		}
		st := vsched.Explore(p.bound, 0, 1, func() ([]func(), func(*vsched.Exec) bool) {
			m, err := xcf.DecodeCompressed(bytes.NewReader(data))
			if err != nil {
				b.Fail("decode", "DecodeCompressed of a valid file: %v", err)
				return []func(){func() {}}, func(*vsched.Exec) bool { return false }
			}
			got := make([][]color.Color, len(p.reads))
			var bodies []func()
			for k, r := range p.reads {
				bodies = append(bodies, func() {
					for _, x := range r {
						got[k] = append(got[k], read(m, x))
					}
				})
			}
			return bodies, func(e *vsched.Exec) bool {
				w := fmt.Sprintf("%s, readers %v, schedule %s", what, p.reads, e.Schedule())
				b.Tick()
				switch {
				case e.Deadlock:
					b.Fail("blocked-reader", "%s: readers never finish", w)
					return false
				case e.Panic != nil:
					b.Fail("panic-reader", "%s: panic: %v\n%s", w, e.Panic, e.Stack)
					return false
				}
				for k, r := range p.reads {
					for j, x := range r {
						if g := straight(got[k][j]); g != want[x] {
							b.Fail("pixel", "%s: reader %d sees %s at %d, not %s", w, k, g, x, want[x])
							return false
						}
					}
				}
				return true
			}
		}, b.Stop)
		b.Tick()
		b.Eval(st.Schedules, st.Schedules)
		b.States(st.Choices, st.Points, 0)
		if !st.Complete && !b.Failed() {
			t.Truncated()
		}
		if i < 48 {
			t.Sample(fmt.Sprintf("%s, readers %v: %d schedules, %d points", what, p.reads, st.Schedules, st.Points))
		}
	})
}
