//go:build go1.22

package main

import (
	"image"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/xcf"
	"vimagination.zapto.org/limage/zzverif/vh"
	"vimagination.zapto.org/limage/zzverif/xfmt"
)

var c18 = vh.Check{
	ID: "C18", Level: "exploration",
	Rule: "every file of the stated alphabets (versions 0-13, base types, alpha, compression with seven ways of choosing runs, sizes around tile boundaries, all properties at all places, modes, opacities, offsets around the canvas, group forests, palettes, names), made by an independent writer, is decoded and compared layer by layer and pixel by pixel with its description; an execution is non-trivial and counted distinct by the hash of the file",
	Assume: []string{
		"only the bottom layer may lack alpha (others are refused by design); a mask that is present is applied; version 0 has no usable colour maps",
		"indexed layers keep only Normal, Dissolve and Behind; the bottom layer's mode becomes Normal unless it is Dissolve",
		"vimagination.zapto.org/byteio, memio and parser cannot be fetched here; stand-ins written from their documentation are used",
	},
	Run: func(t *vh.T) {
		exploreFiles(t, checkFile)
		// The blocks of a file beyond what 31, 32 and 40 bits can address.
		gaps := []int64{1 << 16, 1 << 24, 1<<29 - 3, 1<<31 + 5, 1 << 32, 3<<32 + 1, 1<<40 + 7, 1 << 52}
		t.Par("far-blocks", len(gaps)*3*2, func(b *vh.B, i int) {
			gap, v := gaps[i%len(gaps)], 3
			if i/len(gaps)/3 == 1 {
				v = 12
			} else if gap > 1<<29 {
				return
			}
			for comp := 0; comp < 3; comp++ {
				f := newFile(v, i/len(gaps)%3, comp, 66, 3)
				fillMask(addLayer(f, "far", image.Rect(0, 0, 66, 2), 0, false, i), i)
				addLayer(f, "farther", image.Rect(1, 0, 4, 3), 0, true, i)
				f.Gap = gap
				if !checkFile(b, f) {
					return
				}
			}
		})
	},
}

func checkFile(b *vh.B, f *xfmt.File) bool {
	s := f.Write()
	b.EvalH(fileHash(s))
	b.Case(func() string { return describe(f) })
	d, err := xcf.Decode(s)
	if err != nil {
		b.Fail("decode", "Decode of a valid file: %v: %s", err, describe(f))
		return false
	}
	return matches(b, "Decode", f, d)
}

func fileHash(s *xfmt.Sparse) uint64 {
	h := uint64(0)
	for _, g := range s.Segs {
		h = h*31 + uint64(g.Off) ^ vh.HashBytes(g.Data)
	}
	return h
}

func matches(b *vh.B, what string, f *xfmt.File, d limage.Image) bool {
	o := xfmt.Options{Clip: image.Rect(0, 0, f.W, f.H), Hidden: true}
	if key, diff := xfmt.Compare("", f.Nodes(), xfmt.Picture(d, image.Point{}), o); key != "" {
		b.Fail(key, "%s: %s: %s", what, diff, describe(f))
		return false
	}
	return true
}
