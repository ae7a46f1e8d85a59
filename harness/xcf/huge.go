//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"image"
	"sort"
	"strings"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/xcf"
	"vimagination.zapto.org/limage/zzverif/lim"
	"vimagination.zapto.org/limage/zzverif/vh"
	"vimagination.zapto.org/limage/zzverif/xfmt"
)

const pageSize = 4096

// holes is a file of which the long texts are not kept.
type holes struct {
	text  []byte
	pages map[int64]*[pageSize]byte
	texts map[int64]int64
	size  int64
}

func (h *holes) WriteAt(p []byte, off int64) (int, error) {
	if len(p) > 1<<20 && len(p) <= len(h.text) && bytes.Equal(p, h.text[:len(p)]) {
		h.texts[off] = int64(len(p))
	} else {
		for i, c := range p {
			at := off + int64(i)
			pg := h.pages[at/pageSize]
			if pg == nil {
				pg = new([pageSize]byte)
				h.pages[at/pageSize] = pg
			}
			pg[at%pageSize] = c
		}
	}
	h.size = max(h.size, off+int64(len(p)))
	return len(p), nil
}

func (h *holes) Size() int64 { return h.size }

func (h *holes) Bytes(off, n int64) []byte {
	out := make([]byte, n)
	for i := range out {
		if pg := h.pages[(off+int64(i))/pageSize]; pg != nil {
			out[i] = pg[(off+int64(i))%pageSize]
		}
	}
	return out
}

func (h *holes) Filler(off, n int64) bool { return n > 1<<20 && h.texts[off] == n }

// encodeHuge writes a picture of layers with long names, the last of which are
// the ones whose pointers are near the limit, moved on by the given number of
// bytes from that of short names.
func encodeHuge(text string, names []int64) (*holes, limage.Image, error) {
	var g limage.Image
	for i, n := range names {
		g = append(g, limage.Layer{Name: text[:n], LayerBounds: image.Rect(0, 0, 1, 1), Image: nr(1, 1, i)})
	}
	g = append(g,
		limage.Layer{Name: "m", LayerBounds: image.Rect(0, 0, 65, 66), Image: limage.MaskedImage{Image: nr(65, 66, 1), Mask: lim.MaskOf(image.Rect(0, 0, 65, 66), 3)}},
		limage.Layer{Name: "g", LayerBounds: image.Rect(0, 0, 2, 2), Image: limage.Image{{Name: "in", LayerBounds: image.Rect(0, 0, 2, 2), Image: nr(2, 2, 2)}}},
		limage.Layer{Name: "last", LayerBounds: image.Rect(0, 0, 2, 2), Image: nr(2, 2, 2)},
	)
	h := &holes{text: []byte(text), pages: map[int64]*[pageSize]byte{}, texts: map[int64]int64{}}
	err := xcf.Encode(h, g)
	return h, g, err
}

// exploreHuge writes files around the size at which the numbers of the format
// end, with every one of the last blocks at the limit.
func exploreHuge(t *vh.T) {
	const long = 1 << 26
	text := strings.Repeat("a", long)
	names := make([]int64, 65)
	h, _, err := encodeHuge(text, names)
	if err != nil {
		t.Par("huge", 1, func(b *vh.B, _ int) { b.Fail("huge", "Encode gives %v", err) })
		return
	}
	small := h.size
	// All places where a block may begin, by the distance to the end.
	data := h.Bytes(0, h.size)
	ends := map[int64]bool{0: true, 1: true, small: true}
	for off := 0; off+4 <= len(data); off++ {
		if v := int64(data[off])<<24 | int64(data[off+1])<<16 | int64(data[off+2])<<8 | int64(data[off+3]); v > small/2 && v < small {
			ends[small-v] = true
		}
	}
	var dist []int64
	for e := range ends {
		dist = append(dist, e)
	}
	sort.Slice(dist, func(i, j int) bool { return dist[i] < dist[j] })
	if n := vh.Pick(t, 24, 120); len(dist) > n {
		for i := range n {
			dist[i] = dist[i*len(dist)/n]
		}
		dist = dist[:n]
	}
	t.Par("huge", 3*len(dist), func(b *vh.B, i int) {
		total := int64(1)<<32 + dist[i/3] + int64(i%3) - 1 // size of the file
		names := make([]int64, 65)
		for k, left := 0, total-small; k < len(names); k++ {
			names[k] = left / int64(len(names)-k)
			left -= names[k]
		}
		h, g, err := encodeHuge(text, names)
		b.Eval(1, 1)
		if err != nil {
			if total <= 1<<32 {
				b.Fail("huge", "Encode gives %v for a picture of %d bytes", err, total)
			}
			return
		}
		f, err := xfmt.ParseSource(h)
		if err != nil {
			b.Fail("huge", "a picture of %d bytes is written as an invalid file: %v", total, err)
			return
		}
		for k, n := range names {
			g[k].Name = fmt.Sprint("filler of ", n)
		}
		want, _, _ := wantNodes(g)
		if key, diff := xfmt.Compare("", want, f.Nodes(), xfmt.Options{BottomMode: true, KeepOutside: true}); key != "" {
			b.Fail("huge", "a picture of %d bytes: %s", total, diff)
		}
	})
}
