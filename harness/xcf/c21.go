//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"image"
	"image/color"
	"io"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/xcf"
	"vimagination.zapto.org/limage/zzverif/lim"
	"vimagination.zapto.org/limage/zzverif/vh"
)

var c21 = vh.Check{
	ID: "C21", Level: "exploration",
	Rule: "for each picture, every write the destination sees is made to fail, in each of six ways (nothing, half or all of it written; only that write or every write from then on; io.EOF and io.ErrShortWrite as errors), and Encode must return the injected error; in the thorough tier every picture of the forest and kind alphabets too and every pair of failing writes of the small pictures; distinct by construction, non-trivial when the fault was reached",
	Assume: []string{
		"a destination that writes less than asked says so, as io.WriterAt demands",
		"vimagination.zapto.org/byteio, memio and parser cannot be fetched here; stand-ins written from their documentation are used",
	},
	Run: runC21,
}

var errWrite = errors.New("injected fault")

// faultyAt is a destination that fails.
type faultyAt struct {
	memW
	at, at2 int
	mode    int
	calls   int
	hit     int
}

func (f *faultyAt) err() error {
	switch f.mode {
	case 4:
		return io.EOF
	case 5:
		return io.ErrShortWrite
	}
	return errWrite
}

func (f *faultyAt) WriteAt(p []byte, off int64) (int, error) {
	k := f.calls
	f.calls++
	if f.at >= 0 && (k == f.at || k == f.at2 || f.mode == 1 && k > f.at) {
		f.hit++
		n := 0
		switch f.mode {
		case 2:
			n = len(p) / 2
		case 3:
			n = len(p)
		}
		f.memW.WriteAt(p[:n], off)
		return n, f.err()
	}
	return f.memW.WriteAt(p, off)
}

func writePictures() []image.Image {
	pal := image.NewPaletted(image.Rect(0, 0, 5, 4), color.Palette{color.Black, color.White, color.NRGBA{1, 2, 3, 255}})
	for i := range pal.Pix {
		pal.Pix[i] = uint8(i % 3)
	}
	ga := limage.NewGrayAlpha(image.Rect(0, 0, 5, 4))
	for i := range ga.Pix {
		ga.Pix[i] = lcolor.GrayAlpha{Y: uint8(i * 9), A: uint8(i * 13)}
	}
	long := image.NewGray(image.Rect(0, 0, 64, 6))
	for i := range long.Pix {
		long.Pix[i] = uint8(i * 7)
		if i > 200 {
			long.Pix[i] = 3
		}
	}
	text := limage.Text{Image: nr(2, 2, 1), TextData: limage.TextData{{Data: "a", Size: 3}, {Data: "b", Bold: true}}}
	r := image.Rect(0, 0, 2, 2)
	return []image.Image{
		limage.Image{{Name: "a", LayerBounds: r, Image: nr(2, 2, 1)}},
		limage.Image{},
		nr(1, 1, 1),
		pal,
		ga,
		long,
		limage.Image{{Name: "g", LayerBounds: image.Rect(0, 0, 4, 4), Image: lim.GroupOf(image.Rect(0, 0, 4, 4), 2)}, {Name: "m", LayerBounds: image.Rect(1, 1, 4, 4), Image: limage.MaskedImage{Image: nr(3, 3, 1), Mask: lim.MaskOf(image.Rect(0, 0, 3, 3), 1)}}},
		limage.Image{{Name: "empty", LayerBounds: r, Image: limage.Image{}}, {Name: "t", LayerBounds: r, Image: text}},
		limage.Image{{Name: "mt", LayerBounds: r, Image: limage.MaskedImage{Image: text, Mask: lim.MaskOf(r, 1)}}, {Name: "p", LayerBounds: pal.Rect, Image: pal}},
		limage.Layer{Name: "l", LayerBounds: image.Rect(-2, 1, 0, 3), Transparency: 3, Invisible: true, Image: text},
		limage.Image{{Name: "tiles", LayerBounds: image.Rect(0, 0, 65, 66), Image: lim.MaskOf(image.Rect(0, 0, 65, 66), 7)}},
		limage.Image{{Name: "mg", LayerBounds: r, Image: limage.MaskedImage{Image: limage.Image{{LayerBounds: r, Image: nr(2, 2, 3)}}, Mask: lim.MaskOf(r, 2)}}},
		// Larger ones, of which runs are long and the file is, too.
		limage.Image{{Name: "noise", LayerBounds: image.Rect(0, 0, 190, 200), Image: nr(190, 200, 5)}},
		nr(64, 64, 9),
		limage.Image{{Name: "1", LayerBounds: r, Image: pal}, {Name: "2", LayerBounds: r, Image: pal}, {Name: "3", LayerBounds: r, Image: pal}},
	}
}

func runC21(t *vh.T) {
	pics := writePictures()
	if !t.Quick {
		for i, s := range lim.Forests(5) {
			pics = append(pics, build(s, i%4))
		}
		for i, k := range lim.Kinds() {
			pics = append(pics, limage.Image{oneLayer(k, image.Pt(i%3-1, 1), image.Rect(0, 0, 4, 3), i)})
		}
	}
	const parts = 16
	t.Par("writes", len(pics)*parts, func(b *vh.B, i int) {
		m, part := pics[i/parts], i%parts
		f := &faultyAt{at: -1}
		if err := xcf.Encode(f, m); err != nil {
			b.Fail("encode", "Encode(%s): %v", lim.Describe(m), err)
			return
		}
		n, whole := f.calls, f.d
		if part == 0 {
			t.Extra("writes", int64(n))
			t.Sample(map[string]any{"picture": lim.Describe(m), "writes": n, "bytes": len(whole)})
		}
		for at := part; at < n; at += parts {
			for mode := 0; mode < 6; mode++ {
				f := &faultyAt{at: at, at2: -1, mode: mode}
				err := xcf.Encode(f, m)
				b.Eval(1, min(1, f.hit))
				if f.hit == 0 {
					b.Fail("not-reached", "%s: a fault at write %d of %d was not reached", lim.Describe(m), at, n)
					return
				}
				if err == nil {
					b.Fail("unreported", "%s: write %d of %d failed (mode %d), Encode returned no error", lim.Describe(m), at, n, mode)
					return
				}
				if !errors.Is(err, f.err()) {
					b.Fail("other-error", "%s: write %d of %d failed (mode %d) with %q, Encode returned %q", lim.Describe(m), at, n, mode, f.err(), err)
					return
				}
				if b.Stop() {
					return
				}
			}
		}
		// What is written without faults does not depend on when it is written.
		if part == 0 {
			g := &faultyAt{at: -1}
			if err := xcf.Encode(g, m); err != nil || !bytes.Equal(g.d, whole) {
				b.Fail("different", "%s: encoded again, %d and not %d bytes, or others (%v)", lim.Describe(m), len(g.d), len(whole), err)
			}
		}
	})
	// Two failures, of which one must be returned, and a destination that was
	// not empty.
	t.Par("two-writes", len(pics), func(b *vh.B, i int) {
		m := pics[i]
		f := &faultyAt{at: -1}
		xcf.Encode(f, m)
		n, whole := f.calls, f.d
		h := &faultyAt{at: -1}
		h.d = bytes.Repeat([]byte{0xa5}, len(whole)+9)
		if err := xcf.Encode(h, m); err != nil || !bytes.Equal(h.d[:len(whole)], whole) {
			k := 0
			for k < len(whole) && h.d[k] == whole[k] {
				k++
			}
			b.Fail("unwritten", "%s: byte %d of %d was not written (%v)", lim.Describe(m), k, len(whole), err)
			return
		}
		b.Eval(1, 1)
		if n > vh.Pick(t, 150, 400) {
			return
		}
		for at := 0; at < n; at++ {
			for at2 := at + 1; at2 < n; at2++ {
				for mode := 0; mode < 4; mode += 3 {
					f := &faultyAt{at: at, at2: at2, mode: mode}
					b.Eval(1, 1)
					if err := xcf.Encode(f, m); !errors.Is(err, errWrite) {
						b.Fail("unreported", "%s: writes %d and %d of %d failed, Encode returned %v", lim.Describe(m), at, at2, n, err)
						return
					}
				}
			}
			if b.Stop() {
				return
			}
		}
	})
}
