//go:build go1.22

package main

import (
	"errors"
	"image"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/ora"
	"vimagination.zapto.org/limage/zzverif/lim"
	"vimagination.zapto.org/limage/zzverif/vh"
)

var c13 = vh.Check{
	ID: "C13", Level: "fault_enumeration",
	Rule:   "for each picture, every fault point of the destination: failing at every byte (writing what came before it, or nothing of the call), at every call and only at that call; distinct by construction, non-trivial when the fault was reached",
	Assume: []string{"a destination that writes less than asked says so, as io.Writer demands"},
	Run:    runC13,
}

var errInjected = errors.New("injected fault")

// faulty fails according to its mode.
type faulty struct {
	at      int // byte or call
	mode    int
	written int
	calls   int
	hit     bool
	data    []byte
}

func (f *faulty) Write(p []byte) (int, error) {
	f.calls++
	switch f.mode {
	case 0: // fail at byte at, having written up to it; fail ever after
		if f.written+len(p) > f.at {
			f.hit = true
			n := max(f.at-f.written, 0)
			f.data = append(f.data, p[:n]...)
			f.written += n
			return n, errInjected
		}
	case 1: // the call that reaches byte at writes nothing and fails; later calls succeed
		if !f.hit && f.written+len(p) > f.at {
			f.hit = true
			return 0, errInjected
		}
	case 2: // call number at fails, once
		if f.calls-1 == f.at {
			f.hit = true
			return 0, errInjected
		}
	case 4: // call number at and later ones fail
		if f.calls-1 >= f.at {
			f.hit = true
			return 0, errInjected
		}
	case 3: // call number at writes everything and still fails
		if f.calls-1 == f.at {
			f.hit = true
			f.written += len(p)
			f.data = append(f.data, p...)
			return len(p), errInjected
		}
	}
	f.written += len(p)
	f.data = append(f.data, p...)
	return len(p), nil
}

func runC13(t *vh.T) {
	big := lim.NRGBAOf(image.Rect(0, 0, 70, 60), 3)
	pics := []image.Image{
		limage.Image{{Name: "a", LayerBounds: image.Rect(0, 0, 2, 2), Image: lim.NRGBAOf(image.Rect(0, 0, 2, 2), 1)}},
		limage.Image{
			{Name: "g", LayerBounds: image.Rect(0, 0, 4, 4), Image: lim.GroupOf(image.Rect(0, 0, 4, 4), 2)},
			{Name: "m", LayerBounds: image.Rect(1, 1, 4, 4), Image: limage.MaskedImage{Image: lim.NRGBAOf(image.Rect(0, 0, 3, 3), 1), Mask: lim.MaskOf(image.Rect(0, 0, 3, 3), 1)}},
		},
		lim.NRGBAOf(image.Rect(-2, 0, 3, 3), 2),
		limage.Image{{Name: "noise", LayerBounds: big.Rect, Image: big}, {Name: "noise2", LayerBounds: big.Rect, Image: lim.NRGBAOf(big.Rect, 8)}},
		limage.Layer{Name: "l", LayerBounds: image.Rect(0, 0, 2, 2), Image: lim.NRGBAOf(image.Rect(0, 0, 2, 2), 1)},
	}
	parts := 32
	type info struct{ size, calls int }
	infos := make([]info, len(pics))
	for i, m := range pics {
		f := &faulty{mode: -1}
		if err := ora.Encode(f, m); err != nil {
			panic(err)
		}
		infos[i] = info{len(f.data), f.calls}
		if _, err := decode(f.data); err != nil {
			panic(err)
		}
	}
	t.Par("bytes", len(pics)*parts, func(b *vh.B, i int) {
		m, in := pics[i/parts], infos[i/parts]
		step := 1
		if in.size > 8000 && t.Quick {
			step = 7
		}
		for at := i % parts * step; at < in.size; at += parts * step {
			for mode := 0; mode < 2; mode++ {
				if b.Stop() {
					return
				}
				f := &faulty{at: at, mode: mode}
				err := ora.Encode(f, m)
				b.Eval(1, 1)
				if !f.hit {
					b.Fail("not-reached", "picture %d: a fault at byte %d of %d was not reached", i/parts, at, in.size)
					return
				}
				if err == nil {
					b.Fail("unreported", "picture %d: the destination failed at byte %d of %d (mode %d), Encode returned no error", i/parts, at, in.size, mode)
					return
				}
			}
		}
		// the very last bytes, always
		for at := in.size - 30; at < in.size; at++ {
			if f := (&faulty{at: at}); ora.Encode(f, m) == nil {
				b.Fail("unreported", "picture %d: the destination failed at byte %d of %d, Encode returned no error", i/parts, at, in.size)
				return
			}
			b.Eval(1, 1)
		}
	})
	t.Par("calls", len(pics), func(b *vh.B, i int) {
		for at := 0; at < infos[i].calls; at++ {
			for mode := 2; mode < 4; mode++ {
				f := &faulty{at: at, mode: mode}
				err := ora.Encode(f, pics[i])
				b.Eval(1, 1)
				if f.hit && err == nil {
					b.Fail("unreported", "picture %d: call %d of %d failed (mode %d), Encode returned no error", i, at, infos[i].calls, mode)
					return
				}
			}
		}
		t.Sample(map[string]any{"picture": lim.Describe(pics[i]), "bytes": infos[i].size, "calls": infos[i].calls})
	})
	// The archive is written in blocks of 4096 bytes: pictures of all sizes put
	// every part of it at the border of two blocks.
	step := vh.Pick(t, 4, 1)
	t.Par("alignments", 1100/step, func(b *vh.B, i int) {
		noise := image.NewNRGBA(image.Rect(0, 0, 1+i*step, 1))
		x := uint32(12345)
		for k := range noise.Pix {
			x = x*1664525 + 1013904223
			noise.Pix[k] = uint8(x >> 24)
		}
		small := lim.NRGBAOf(image.Rect(0, 0, 2, 1), 1)
		m := limage.Image{
			{Name: "noise", LayerBounds: noise.Rect, Image: noise},
			{Name: "g", LayerBounds: image.Rect(0, 0, 2, 1), Image: limage.Image{{Name: "s", LayerBounds: image.Rect(0, 0, 2, 1), Image: small}}},
			{Name: "t", LayerBounds: image.Rect(0, 0, 2, 1), Image: small},
		}
		for at := 0; ; at++ {
			hit := false
			for _, mode := range []int{2, 4} {
				f := &faulty{at: at, mode: mode}
				err := ora.Encode(f, m)
				if !f.hit {
					continue
				}
				hit = true
				b.Eval(1, 1)
				if err == nil {
					b.Fail("unreported", "picture of %d pixels: call %d failed (mode %d), Encode returned no error", noise.Rect.Dx(), at, mode)
					return
				}
			}
			if !hit || b.Stop() {
				return
			}
		}
	})
}
