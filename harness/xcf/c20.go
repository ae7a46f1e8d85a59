//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"image"
	"io"
	"runtime/metrics"
	"sync"
	"sync/atomic"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/xcf"
	"vimagination.zapto.org/limage/zzverif/lim"
	"vimagination.zapto.org/limage/zzverif/vh"
	"vimagination.zapto.org/limage/zzverif/xfmt"
)

const (
	allocBase  = 64 << 20
	allocRatio = 20000
)

var c20 = vh.Check{
	ID: "C20", Level: "fault_enumeration",
	Rule: "files that hold every structure of the format (all versions' pointer widths, base types, compression, masks, groups, text, parasites, paths, guides, units) are damaged in every stated way: cut at every length, every byte replaced by each of a set of values (all 255 in the thorough tier), every 32-bit word at every offset replaced by each of a set of hostile values and by every pointer of the file, every byte deleted or doubled, every pair of numeric fields (adjacent fields in the quick tier) replaced by hostile values, every sequence of tokens up to a length as a text description, and amplifying layouts (shared layers, shared tiles, empty runs, deep groups); each is given to Decode, DecodeCompressed and DecodeConfig, accepted images are rendered, and bytes allocated and reads made are compared with the size of the file; distinct by the hash of the file",
	Assume: []string{
		fmt.Sprintf("allocation is out of proportion when it exceeds %d MiB + %d times the file (legal run-length tiles reach a few thousand times); reads when they exceed 10^6 + %d times the file", allocBase>>20, allocRatio, allocRatio),
		"a file cut after its last pixel (for instance in the unused levels of a group) need not be refused",
		"vimagination.zapto.org/byteio, memio and parser cannot be fetched here; stand-ins written from their documentation are used",
	},
	Run: runC20,
}

var allocLock sync.RWMutex

func allocated() uint64 {
	s := [1]metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s[:])
	return s[0].Value.Uint64()
}

// counted counts what is read.
type counted struct {
	r   io.ReaderAt
	n   atomic.Int64
	max int64
}

func (c *counted) ReadAt(p []byte, off int64) (int, error) {
	if c.n.Add(1) > c.max {
		return 0, errEnough
	}
	return c.r.ReadAt(p, off)
}

func renderXCF(b *vh.B, what string, m limage.Image) bool {
	ok := true
	var walk func(g limage.Image, path string)
	walk = func(g limage.Image, path string) {
		for i, l := range g {
			if l.Image == nil {
				b.Fail("nil-picture", "%s: layer %s/%d has no picture", what, path, i)
				ok = false
				return
			}
			if in, is := group(l.Image); is {
				walk(in, fmt.Sprintf("%s/%d", path, i))
			}
		}
	}
	walk(m, "")
	if !ok {
		return false
	}
	m.ColorModel()
	leaves(m, func(p image.Image) {
		for _, q := range spots(p.Bounds()) {
			p.At(q.X, q.Y).RGBA()
		}
	})
	for _, q := range spots(m.Bounds()) {
		m.At(q.X, q.Y).RGBA()
	}
	return true
}

// spots are points that represent all of a picture.
func spots(r image.Rectangle) []image.Point {
	axis := func(a, z int) []int {
		out := []int{a - 1, a, z - 1, z}
		if z-a <= 12 {
			for v := a + 1; v < z-1; v++ {
				out = append(out, v)
			}
			return out
		}
		for v := a + 63; v < z && v < a+300; v += 64 {
			out = append(out, v, v+1)
		}
		return append(out, (a+z)/2)
	}
	var out []image.Point
	for _, y := range axis(r.Min.Y, r.Max.Y) {
		for _, x := range axis(r.Min.X, r.Max.X) {
			out = append(out, image.Pt(x, y))
		}
	}
	return out
}

// damaged decodes anything in all ways. It returns the results.
func damaged(b *vh.B, what string, d []byte) (errs [3]error, ok bool) {
	return damagedLimit(b, what, d, uint64(allocBase+allocRatio*len(d)), int64(1000000+allocRatio*len(d)))
}

// errEnough is what a reader gives that has been read from too often.
var errEnough = errors.New("too many reads")

// damagedLimit has its own limits for what is allocated and for reads.
func damagedLimit(b *vh.B, what string, d []byte, limit uint64, reads int64) (errs [3]error, ok bool) {
	b.EvalH(vh.HashBytes(d))
	b.Case(func() string { return fmt.Sprintf("%s, %d bytes", what, len(d)) })
	run := func(i int) (limage.Image, error) {
		r := &counted{r: bytes.NewReader(d), max: reads}
		var m limage.Image
		var err error
		switch i {
		case 0:
			m, err = xcf.Decode(r)
		case 1:
			m, err = xcf.DecodeCompressed(r)
		case 2:
			var c image.Config
			if c, err = xcf.DecodeConfig(r); err == nil && c.ColorModel == nil {
				b.Fail("no-model", "%s: DecodeConfig gives neither an error nor a colour model", what)
			}
		}
		if n := r.n.Load(); n > reads {
			b.Fail("reads", "%s: %d reads of %d bytes by %s", what, n, len(d), entry[i])
		}
		return m, err
	}
	for i := range errs {
		allocLock.RLock()
		a := allocated()
		m, err := run(i)
		a = allocated() - a
		allocLock.RUnlock()
		if a > limit {
			allocLock.Lock()
			a = allocated()
			run(i)
			a = allocated() - a
			allocLock.Unlock()
			if a > limit {
				b.Fail("memory", "%s: %s of %d bytes allocates %d bytes", what, entry[i], len(d), a)
				return errs, false
			}
		}
		errs[i] = err
		if err == nil && i < 2 && !renderXCF(b, what+" "+entry[i], m) {
			return errs, false
		}
		if b.Failed() {
			return errs, false
		}
	}
	return errs, true
}

var entry = [3]string{"Decode", "DecodeCompressed", "DecodeConfig"}

const (
	plainText  = "(text \"a \\\"q\\\" \\\\ b\\n\\303\\251\")\n(font \"Sans\")\n(font-size 18.000000)\n(font-size-unit pixels)\n(antialias yes)\n(language \"en-us\")\n(base-direction ltr)\n(color (color-rgb 0.000000 0.500000 1.000000))\n(justify left)\n(box-mode dynamic)\n(box-width 10.0)\n(box-unit pixels)\n(hinting yes)\n\x00"
	markupText = "(markup \"<markup>a<b>b</b><span foreground=\\\"#ff00Ff\\\" size=\\\"2048\\\" font=\\\"Serif\\\" letter_spacing=\\\"1024\\\" rise=\\\"1024\\\" background=\\\"#123\\\"><i>&lt;c</i><s>d</s><u>e</u></span></markup>\")\n(font \"Sans\")\n(font-size 9.5)\n(color (color-rgb 1 1 1))\n\x00"
)

// smallFiles hold all structures.
func smallFiles(t *vh.T) map[string]*xfmt.Sparse {
	out := map[string]*xfmt.Sparse{}
	sample := func(name string, version, base, comp int, change func(f *xfmt.File)) {
		f := newFile(version, base, comp, 5, 4)
		addLayer(f, "top", image.Rect(-1, 0, 4, 3), 3, false, 1)
		addLayer(f, "b", image.Rect(0, 0, 5, 4), 0, true, 2)
		if change != nil {
			change(f)
		}
		out[name] = f.Write()
	}
	grouped := func(f *xfmt.File) {
		fillMask(f.Layers[0], 1)
		g := &xfmt.Layer{Name: "g", Group: true, Rect: image.Rect(0, 0, 4, 3), Opacity: 100, Kids: f.Layers[:1:1]}
		fillMask(g, 2)
		f.Layers = []*xfmt.Layer{g, f.Layers[1]}
	}
	sample("v0-rgb", 0, 0, 0, nil)
	sample("v1-indexed", 1, 2, 1, func(f *xfmt.File) { fillMask(f.Layers[0], 3) })
	sample("v3-group", 3, 0, 1, grouped)
	sample("v4-gray", 4, 1, 2, func(f *xfmt.File) { f.Levels = 1; f.Channels = 1 })
	sample("v11-group", 11, 1, 1, grouped)
	sample("v12-indexed", 12, 2, 0, func(f *xfmt.File) { f.Layers[0].Float = true; f.Layers[0].Hidden = true })
	sample("v13-text", 13, 0, 1, func(f *xfmt.File) { f.Layers[0].HasText, f.Layers[0].Text = true, plainText })
	sample("v3-markup", 3, 0, 1, func(f *xfmt.File) { f.Layers[1].HasText, f.Layers[1].Text = true, markupText })
	sample("v10-properties", 10, 2, 1, func(f *xfmt.File) {
		for _, p := range imageProps {
			if len(p.Data) < 400 {
				f.Before = append(f.Before, p)
			}
		}
	})
	sample("v11-layer-properties", 11, 0, 3, func(f *xfmt.File) {
		for _, p := range layerProps {
			if len(p.Data) < 400 {
				f.Layers[0].Before = append(f.Layers[0].Before, p)
			}
		}
		f.Layers[0].After = []xfmt.Prop{{5, xfmt.U32(0, 77)}}
		fillMask(f.Layers[0], 1)
		for _, p := range maskProps {
			f.Layers[0].MaskProps = append(f.Layers[0].MaskProps, p)
		}
	})
	// Several tiles, with runs that are long.
	f := newFile(3, 1, 1, 66, 65)
	l := addLayer(f, "tiles", image.Rect(0, 0, 66, 65), 0, true, 1)
	for i := range l.Pix {
		l.Pix[i] = byte(i / 700)
	}
	out["v3-tiles"] = f.Write()
	f = newFile(11, 0, 4, 65, 3)
	l = addLayer(f, "tiles", image.Rect(0, 0, 65, 3), 0, false, 1)
	for i := range l.Pix {
		l.Pix[i] = byte(i % 4)
	}
	out["v11-tiles"] = f.Write()
	var w memW
	if err := xcf.Encode(&w, limage.Image{
		{Name: "t", LayerBounds: image.Rect(0, 0, 2, 2), Image: limage.MaskedImage{Image: limage.Text{Image: lim.NRGBAOf(image.Rect(0, 0, 2, 2), 1), TextData: limage.TextData{{Data: "a", Size: 3}, {Data: "b", Bold: true}}}, Mask: lim.MaskOf(image.Rect(0, 0, 2, 2), 1)}},
		{Name: "g", LayerBounds: image.Rect(0, 0, 3, 3), Image: limage.Image{{LayerBounds: image.Rect(0, 0, 3, 3), Image: lim.NRGBAOf(image.Rect(0, 0, 3, 3), 2)}}},
	}); err != nil {
		panic(err)
	}
	out["encoded"] = &xfmt.Sparse{Segs: []xfmt.Seg{{Data: w.d}}, Props: 0, Last: 0}
	return out
}

func runC20(t *vh.T) {
	files := smallFiles(t)
	var names []string
	for _, n := range []string{"v0-rgb", "v1-indexed", "v3-group", "v4-gray", "v11-group", "v12-indexed", "v13-text", "v3-markup", "v10-properties", "v11-layer-properties", "v3-tiles", "v11-tiles", "encoded"} {
		if files[n] == nil {
			panic(n)
		}
		names = append(names, n)
	}
	for _, n := range names {
		n, s := n, files[n]
		d := s.Bytes()
		if _, err := decode(d); err != nil {
			t.Seq("valid-"+n, 1, func(b *vh.B, i int) { b.Fail("valid", "%s: %v", n, err) })
			continue
		}
		t.Par("cuts-"+n, len(d), func(b *vh.B, i int) {
			errs, ok := damaged(b, fmt.Sprintf("%s cut at %d of %d", n, i, len(d)), d[:i])
			if !ok {
				return
			}
			for j := 0; j < 2; j++ {
				if int64(i) < s.Last && errs[j] == nil {
					b.Fail("cut", "%s of %s, cut at %d of %d (the last pixel ends at %d), gives no error", entry[j], n, i, len(d), s.Last)
				}
			}
			head := int64(26)
			if n[1:2] != "0" && n[:2] != "v3" && n != "v1-indexed" && n != "encoded" {
				head = 30
			}
			if d[25] == 2 { // indexed
				head = s.Props
			}
			if int64(i) < head && errs[2] == nil {
				b.Fail("cut-config", "DecodeConfig of %s, cut at %d of %d, gives no error", n, i, len(d))
			}
		})
		t.Par("bytes-"+n, len(d), func(b *vh.B, i int) {
			vals := []int{0, 1, 2, 3, 4, 5, 7, 8, 0x10, 0x20, 0x40, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff, '"', '\\', '(', ')', '<', '0'}
			if !t.Quick {
				vals = nil
				for v := 0; v < 256; v++ {
					vals = append(vals, v)
				}
			}
			for _, v := range append(vals, int(d[i])+1, int(d[i])-1, int(d[i])^0x80) {
				x := bytes.Clone(d)
				x[i] = byte(v)
				if _, ok := damaged(b, fmt.Sprintf("%s with byte %d being %d", n, i, byte(v)), x); !ok || b.Stop() {
					return
				}
			}
			for k := 1; k <= 4; k++ {
				if i+k <= len(d) {
					if _, ok := damaged(b, fmt.Sprintf("%s without bytes %d to %d", n, i, i+k), append(bytes.Clone(d[:i]), d[i+k:]...)); !ok {
						return
					}
					if _, ok := damaged(b, fmt.Sprintf("%s with bytes %d to %d doubled", n, i, i+k), append(bytes.Clone(d[:i+k]), d[i:]...)); !ok {
						return
					}
				}
			}
		})
		hostile := []uint32{0, 1, 2, 3, 4, 5, 29, 30, 64, 65, 255, 256, 257, 4096, 65535, 65536, 1 << 20, 1<<24 - 1, 1 << 24, 1<<24 + 1, 1<<28 - 1, 0x7fffffff, 0x80000000, 0xfffffff0, 0xfffffffb, 0xfffffffc, 0xffffffff, uint32(len(d)), uint32(len(d) - 1), 0x7fc00000}
		words := append([]uint32{}, hostile...)
		for o := 0; o+4 <= len(d); o++ {
			if v := binary.BigEndian.Uint32(d[o:]); v > 13 && v < uint32(len(d)) && len(words) < vh.Pick(t, 60, 120) {
				words = append(words, v)
			}
		}
		t.Par("words-"+n, len(d)-3, func(b *vh.B, i int) {
			for _, v := range words {
				x := bytes.Clone(d)
				binary.BigEndian.PutUint32(x[i:], v)
				if _, ok := damaged(b, fmt.Sprintf("%s with word %d being %#x", n, i, v), x); !ok || b.Stop() {
					return
				}
			}
		})
		fields := s.Fields
		if n == "encoded" {
			for i := 14; i+4 <= len(d) && i < 500; i += 4 {
				fields = append(fields, int64(i))
			}
		}
		pairVals := []uint32{0, 1, 3, 0xff, 0x10000, 0x7fffffff, 0xfffffffc, 0xffffffff}
		t.Par("pairs-"+n, len(fields), func(b *vh.B, i int) {
			for j := i + 1; j < len(fields); j++ {
				if t.Quick && j > i+3 && !(d[fields[i]+3] == d[fields[j]+3] && j < i+40) {
					continue
				}
				for _, u := range pairVals {
					for _, v := range pairVals {
						if !t.Quick && j > i+8 && u != v && u != 0xffffffff && v != 0xffffffff {
							continue
						}
						x := bytes.Clone(d)
						binary.BigEndian.PutUint32(x[fields[i]:], u)
						binary.BigEndian.PutUint32(x[fields[j]:], v)
						if _, ok := damaged(b, fmt.Sprintf("%s with words %d and %d being %#x and %#x", n, fields[i], fields[j], u, v), x); !ok || b.Stop() {
							return
						}
					}
				}
			}
		})
	}
	amplify(t)
	textTokens(t)
}

// putAll replaces all fields that hold a value.
func putAll(d []byte, fields []int64, old, v uint32) []byte {
	d = bytes.Clone(d)
	for _, o := range fields {
		if binary.BigEndian.Uint32(d[o:]) == old {
			binary.BigEndian.PutUint32(d[o:], v)
		}
	}
	return d
}

// amplify makes small files that say that they are large.
func amplify(t *vh.T) {
	sizes := []uint32{0, 1, 63, 64, 65, 127, 1000, 4096, 65535, 65536, 1 << 20, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 64, 1<<32 - 63, 1<<32 - 1}
	t.Par("claimed-sizes", len(sizes)*3*2, func(b *vh.B, i int) {
		base, na := i%3, i/3%2 == 1
		wv := sizes[i/6]
		for _, hv := range sizes {
			for v := 0; v < 2; v++ {
				for comp := 0; comp < 3; comp++ {
					for mask := 0; mask < 2; mask++ {
						f := newFile(3+8*v, base, comp, 33, 39)
						l := addLayer(f, "l", image.Rect(0, 0, 33, 39), 0, na, i)
						if mask == 1 {
							fillMask(l, i)
						}
						s := f.Write()
						d := putAll(putAll(s.Bytes(), s.Fields, 33, wv), s.Fields, 39, hv)
						if _, ok := damaged(b, fmt.Sprintf("a file that says to be %d×%d (base %d compression %d version %d)", wv, hv, base, comp, f.Version), d); !ok || b.Stop() {
							return
						}
					}
				}
			}
		}
	})
	// The same layer, many times.
	counts := vh.Pick(t, []int{2, 50, 3000}, []int{2, 50, 3000, 20000})
	t.Seq("shared-layers", len(counts)*2*2*3, func(b *vh.B, i int) {
		n, wide, comp, kind := counts[i%len(counts)], i/len(counts)%2 == 1, i/len(counts)/2%2, i/len(counts)/4
		v := 3
		if wide {
			v = 11
		}
		f := newFile(v, 0, comp, 64, 64)
		for k := 0; k < n; k++ {
			f.Layers = append(f.Layers, &xfmt.Layer{Name: "", Rect: image.Rect(0, 0, 1, 1), Opacity: 255, Pix: []byte{1, 2, 3, 4}})
		}
		l := &xfmt.Layer{Name: "big", Rect: image.Rect(0, 0, 128, 128), Opacity: 255, Pix: make([]byte, 128*128*4), Rot: 2}
		switch kind {
		case 1:
			l.HasText, l.Text = true, plainText
			fillMask(l, 1)
		case 2: // groups with the same path
			l.Group = true
			l.Before = []xfmt.Prop{{30, xfmt.U32(0)}}
		}
		f.Layers = append(f.Layers, l)
		s := f.Write()
		d := s.Bytes()
		ps := 4
		if wide {
			ps = 8
		}
		p := int(s.Props)
		last := bytes.Clone(d[p+n*ps : p+n*ps+ps])
		for k := 0; k < n; k++ {
			copy(d[p+k*ps:], last)
		}
		damaged(b, fmt.Sprintf("%d times the same layer (kind %d wide %v compression %d)", n+1, kind, wide, comp), d)
	})
	// The same tile, many times, and tiles of empty runs.
	sides := vh.Pick(t, []int{64, 200, 1000}, []int{64, 200, 1000, 4000})
	t.Seq("shared-tiles", len(sides)*2*2*4, func(b *vh.B, i int) {
		n, v, base, kind := sides[i%len(sides)], 3+8*(i/len(sides)%2), i/len(sides)/2%2, i/len(sides)/4
		f := newFile(v, base, 4, n, n)
		l := addLayer(f, "l", image.Rect(0, 0, 1, 1), 0, true, 1)
		l.Rect = image.Rect(0, 0, n, n)
		l.Pix = make([]byte, n*n*f.BPP(l))
		s := f.Write()
		d := s.Bytes()
		// The tile pointers are the last fields but none: find the first tile.
		ps := 4
		if v > 10 {
			ps = 8
		}
		tiles := (n + 63) / 64 * ((n + 63) / 64)
		end := int(s.Fields[len(s.Fields)-1]) + 4 // the end of the pointers
		at := end - (tiles+1)*ps
		tail := end
		var run []byte
		switch kind {
		case 0:
			run = []byte{127, 16, 0, 7}
			run = bytes.Repeat(run, 4)
		case 1: // empty runs
			run = bytes.Repeat([]byte{127, 0, 0, 7}, 1000)
		case 2:
			run = append(bytes.Repeat([]byte{128, 0, 0}, 5000), 127, 16, 0, 7)
		case 3:
			run = bytes.Repeat([]byte{127, 0xff, 0xff, 7}, 10)
		}
		d = append(bytes.Clone(d[:tail]), run...)
		for k := 0; k < tiles; k++ {
			if ps == 8 {
				binary.BigEndian.PutUint64(d[at+k*8:], uint64(tail))
			} else {
				binary.BigEndian.PutUint32(d[at+k*4:], uint32(tail))
			}
		}
		damaged(b, fmt.Sprintf("%d×%d of the same tile (kind %d base %d version %d)", n, n, kind, base, v), d)
	})
	// Few and small pointers to large blocks: what is read again and again.
	t.Seq("shared-blocks", 10, func(b *vh.B, i int) {
		kind, v := i/2, 3+8*(i%2)
		n := 1000
		f := newFile(v, 1, 1, 1, 1)
		l := addLayer(f, "l", image.Rect(0, 0, 1, 1), 0, true, 1)
		var claim int64
		switch kind {
		case 0:
			l.Name = string(bytes.Repeat([]byte("x"), 1<<20))
		case 1:
			l.Before = append(l.Before, xfmt.Prop{21, xfmt.Parasite("p", 1, string(make([]byte, 1<<20)))})
		case 2:
			l.Before = append(l.Before, xfmt.Prop{30, xfmt.U32(make([]uint32, 1<<18)...)})
		case 3: // a name that would end beyond the file
			n, claim = 200, 12
		}
		s := f.Write()
		d := s.Bytes()
		ps := 4
		if v > 10 {
			ps = 8
		}
		// Room for more pointers is made at the end: the head is repeated there.
		p := int(s.Props)
		get := func(o int) uint64 {
			if ps == 8 {
				return binary.BigEndian.Uint64(d[o:])
			}
			return uint64(binary.BigEndian.Uint32(d[o:]))
		}
		first := get(p)
		shift := uint64((n - 1) * ps)
		head := bytes.Clone(d[:p])
		for k := 0; k < n; k++ {
			if ps == 8 {
				head = binary.BigEndian.AppendUint64(head, first+shift)
			} else {
				head = binary.BigEndian.AppendUint32(head, uint32(first+shift))
			}
		}
		body := bytes.Clone(d[p+ps : first]) // the ends of the lists
		rest := bytes.Clone(d[first:])
		if kind == 4 { // many tiles
			// one level of 256×256 tiles, which all are the same
			var q bytes.Buffer
			w32 := func(v ...uint32) { q.Write(xfmt.U32(v...)) }
			at := int(first) + int(shift)
			wp := func(v int) {
				if ps == 8 {
					w32(0)
				}
				w32(uint32(v))
			}
			w32(64<<8, 64<<8, 2)
			q.Write(xfmt.Str("l"))
			w32(0, 0)
			wp(at + q.Len() + 2*ps)
			wp(0)
			w32(64<<8, 64<<8, 1)
			wp(at + q.Len() + 2*ps)
			wp(0)
			w32(64<<8, 64<<8)
			end := at + q.Len() + (65536+1)*ps
			for k := 0; k < 65536; k++ {
				wp(end)
			}
			wp(0)
			q.Write(bytes.Repeat([]byte{127, 16, 0, 7}, 4))
			rest = q.Bytes()
		}
		if claim > 0 {
			rest = rest[:claim]
			rest = append(rest, xfmt.U32(1<<24-1)...)
			rest = append(rest, 'x')
		}
		x := append(append(head, body...), rest...)
		if _, ok := damagedLimit(b, fmt.Sprintf("%d times a layer of %d bytes (kind %d version %d)", n, len(rest), kind, v), x, 320<<20, 20000000); !ok {
			return
		}
	})
	// Many pointers to one block of runs that are empty.
	t.Seq("empty-runs", 2, func(b *vh.B, i int) {
		v, ps := 3+8*i, 4+4*i
		const n = 128
		f := newFile(v, 1, 1, n*64, n*64)
		f.Layers = nil
		s := f.Write()
		d := bytes.Clone(s.Bytes()[:s.Props])
		wp := func(v int) {
			if ps == 8 {
				d = append(d, 0, 0, 0, 0)
			}
			d = append(d, xfmt.U32(uint32(v))...)
		}
		wp(len(d) + 3*ps)
		wp(0)
		wp(0)
		d = append(d, xfmt.U32(n*64, n*64, 2)...)
		d = append(append(d, xfmt.Str("l")...), xfmt.U32(0, 0)...)
		wp(len(d) + 2*ps)
		wp(0)
		d = append(d, xfmt.U32(n*64, n*64, 1)...)
		wp(len(d) + 2*ps)
		wp(0)
		d = append(d, xfmt.U32(n*64, n*64)...)
		end := len(d) + (n*n+1)*ps
		for k := 0; k < n*n; k++ {
			wp(end)
		}
		wp(0)
		d = append(d, bytes.Repeat([]byte{127, 0, 0, 7}, 1<<18)...)
		d = append(d, 127, 16, 0, 7)
		damagedLimit(b, fmt.Sprintf("%d tiles of the same empty runs (version %d)", n*n, v), d, uint64(allocBase+allocRatio*len(d)), 500000)
	})
	// Item paths.
	t.Par("item-paths", 400, func(b *vh.B, i int) {
		f := newFile(3, 0, 1, 3, 3)
		vals := []uint32{0, 1, 2, 0x7fffffff, 0x80000000, 0xffffffff, 0xd800, 0xfffd, 0x110000}
		for k := 0; k < 3; k++ {
			l := addLayer(f, "l", image.Rect(0, 0, 3, 3), 0, false, k)
			var path []uint32
			for q, v := 0, i*(k+1)+k; q < (i+k)%4; q, v = q+1, v/3 {
				path = append(path, vals[v%len(vals)])
			}
			l.Before = append(l.Before, xfmt.Prop{30, xfmt.U32(path...)})
			if (i>>k)&1 == 1 {
				l.Before = append(l.Before, xfmt.Prop{29, nil})
			}
		}
		damaged(b, fmt.Sprintf("item paths %d", i), f.Write().Bytes())
	})
	depths := vh.Pick(t, []int{10, 300}, []int{10, 300, 2000})
	t.Seq("deep", len(depths)*2, func(b *vh.B, i int) {
		n := depths[i/2]
		f := newFile(3+8*(i%2), 0, 1, 2, 2)
		var kids []*xfmt.Layer
		l := &xfmt.Layer{Name: "leaf", Rect: image.Rect(0, 0, 2, 2), Opacity: 255}
		fill(f, l, 1)
		kids = []*xfmt.Layer{l}
		for k := 0; k < n; k++ {
			kids = []*xfmt.Layer{{Name: "g", Rect: image.Rect(0, 0, 2, 2), Opacity: 255, Group: true, Kids: kids}}
		}
		f.Layers = kids
		damaged(b, fmt.Sprintf("%d nested groups", n), f.Write().Bytes())
	})
}

// textTokens gives layers every short text description.
func textTokens(t *vh.T) {
	tokens := []string{"(", ")", "text", "markup", "color", "color-rgb", "font", "font-size", " ", "\"", "\\", "\\1", "\\777", "1.5", "1..", "-1", "999999999999999999999999999999", "1e400", ".", "\x00", "\n", "é", "\xff", "\"<markup>", "<b>", "</b>", "</markup>\"", "<span size=\\\"", "\\\">", "&amp;", "&", "<!--", "-->", "<?", "\"a\"", "(text \"a\")", "(color (color-rgb 1 1 1))", "(color (color-rgb \"a\" b (c 1)))", "(markup \"<markup><span foreground=\\\"#zz\\\">\")", "(markup \"<span foreground=\\\"#12345g\\\" background=\\\"#xyz\\\" rise=\\\"-1\\\">a</span>\")", "(markup \"</b>\")", "(markup \"<b></i>\")"}
	f := newFile(3, 0, 1, 1, 1)
	l := addLayer(f, "t", image.Rect(0, 0, 1, 1), 0, false, 1)
	depth := vh.Pick(t, 3, 4)
	small := len(tokens)
	if depth == 4 {
		small = 24
	}
	_ = l
	t.Par("text-tokens", len(tokens)*len(tokens), func(b *vh.B, i int) {
		g := *f
		k := *l
		g.Layers = []*xfmt.Layer{&k}
		k.HasText = true
		two := tokens[i%len(tokens)] + tokens[i/len(tokens)]
		n := 1
		for q := 2; q < depth; q++ {
			n *= small
		}
		for q := -1; q < n; q++ {
			k.Text = two
			for v, z := q, 2; q >= 0 && z < depth; v, z = v/small, z+1 {
				k.Text += tokens[v%small]
			}
			if _, ok := damaged(b, fmt.Sprintf("text %q", k.Text), g.Write().Bytes()); !ok || b.Stop() {
				return
			}
		}
	})
	long := []string{"(", "(a", "((", "(a(", "\"", "(text \"\\", "(text \"" + string(bytes.Repeat([]byte("\\303"), 100)), "(a \"<markup>", "(markup \"<b>", "(markup \"a<b/>", "(color ", "(a 1", "(a 1 ", "(a \"x\" ", "(markup \"&amp;"}
	t.Seq("deepest-text", 3, func(b *vh.B, i int) {
		// So deep that no stack would hold a call for each level.
		p := []string{"(a", "(", "(a 1 "}[i]
		g := *f
		k := *l
		k.HasText, k.Text = true, string(bytes.Repeat([]byte(p), 16<<20/len(p)-9))
		g.Layers = []*xfmt.Layer{&k}
		damaged(b, fmt.Sprintf("%d bytes of %q", len(k.Text), p), g.Write().Bytes())
	})
	counts := vh.Pick(t, []int{1, 60, 70, 1000, 100000}, []int{1, 60, 70, 1000, 100000, 2000000})
	t.Seq("long-text", len(long)*len(counts), func(b *vh.B, i int) {
		g := *f
		k := *l
		g.Layers = []*xfmt.Layer{&k}
		k.HasText = true
		p := long[i%len(long)]
		n := counts[i/len(long)]
		if len(p)*n > 8<<20 {
			n = 8 << 20 / len(p)
		}
		for _, prefix := range []string{"", "(markup \"", "(text \""} {
			k.Text = prefix + string(bytes.Repeat([]byte(p), n))
			for _, end := range []string{"", "\")", "</markup>\")\x00"} {
				s := g
				kk := k
				kk.Text += end
				s.Layers = []*xfmt.Layer{&kk}
				if _, ok := damaged(b, fmt.Sprintf("%q %d times %q %q", prefix, n, p, end), s.Write().Bytes()); !ok {
					return
				}
			}
		}
	})
}
