//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"image"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing/iotest"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/xcf"
	"vimagination.zapto.org/limage/zzverif/lim"
	"vimagination.zapto.org/limage/zzverif/vh"
)

var c28 = vh.Check{
	ID: "C28", Level: "exploration",
	Rule: "image.Decode and image.DecodeConfig are called on every kind of source (random access, seeking, both, files, sections, plain streams) wrapped in every way up to three buffers of stated sizes, in every sequence of stated operations (peeking, configuration, decoding) up to a length; what is returned must be what decoding the bytes directly gives, or for plain streams the documented error; distinct by source, wrapping and sequence",
	Assume: []string{
		"the file starts where the source does; buffers have been peeked into but not read from, as image.Decode does",
		"vimagination.zapto.org/byteio, memio and parser cannot be fetched here; stand-ins written from their documentation are used",
	},
	Run: runC28,
}

// onlyAt offers reading and random access.
type onlyAt struct {
	io.Reader
	io.ReaderAt
}

// plain offers reading only.
type plain struct{ io.Reader }

// peeker is a reader with its own Peek, which image.Decode then does not wrap.
type peeker struct {
	*bytes.Reader
	d []byte
}

func (p peeker) Peek(n int) ([]byte, error) {
	if n > len(p.d) {
		return p.d, io.EOF
	}
	return p.d[:n], nil
}

type source struct {
	name string
	open func(d []byte) (io.Reader, func() error, func()) // rewind and close
	ok   bool
}

func sources(dir string) []source {
	none := func() {}
	return []source{
		{"bytes.Reader", func(d []byte) (io.Reader, func() error, func()) {
			r := bytes.NewReader(d)
			return r, func() error { _, err := r.Seek(0, 0); return err }, none
		}, true},
		{"strings.Reader", func(d []byte) (io.Reader, func() error, func()) {
			r := strings.NewReader(string(d))
			return r, func() error { _, err := r.Seek(0, 0); return err }, none
		}, true},
		{"os.File", func(d []byte) (io.Reader, func() error, func()) {
			f, err := os.CreateTemp(dir, "x")
			if err != nil {
				panic(err)
			}
			f.Write(d)
			f.Seek(0, 0)
			return f, func() error { _, err := f.Seek(0, 0); return err }, func() { f.Close(); os.Remove(f.Name()) }
		}, true},
		{"io.SectionReader", func(d []byte) (io.Reader, func() error, func()) {
			p := append(append([]byte("junk in front"), d...), "and behind"...)
			r := io.NewSectionReader(bytes.NewReader(p), 13, int64(len(d)))
			return r, func() error { _, err := r.Seek(0, 0); return err }, none
		}, true},
		{"io.ReadSeeker", func(d []byte) (io.Reader, func() error, func()) {
			r := seeker{&stream{d: d}}
			return r, func() error { r.pos = 0; return nil }, none
		}, true},
		{"io.ReadSeeker in pieces", func(d []byte) (io.Reader, func() error, func()) {
			r := seeker{&stream{d: d, piece: 3, eof: true}}
			return r, func() error { r.pos = 0; return nil }, none
		}, true},
		{"io.Reader with io.ReaderAt", func(d []byte) (io.Reader, func() error, func()) {
			r := bytes.NewReader(d)
			return onlyAt{plain{r}, bytes.NewReader(d)}, func() error { _, err := r.Seek(0, 0); return err }, none
		}, true},
		{"reader with Peek", func(d []byte) (io.Reader, func() error, func()) {
			r := peeker{bytes.NewReader(d), d}
			return r, func() error { _, err := r.Seek(0, 0); return err }, none
		}, true},
		{"bytes.Buffer", func(d []byte) (io.Reader, func() error, func()) {
			r := bytes.NewBuffer(bytes.Clone(d))
			return r, func() error { r.Reset(); r.Write(d); return nil }, none
		}, false},
		{"io.LimitReader", func(d []byte) (io.Reader, func() error, func()) {
			u := bytes.NewReader(d)
			r := &io.LimitedReader{R: u, N: int64(len(d))}
			return r, func() error { u.Seek(0, 0); r.N = int64(len(d)); return nil }, none
		}, false},
		{"plain io.Reader", func(d []byte) (io.Reader, func() error, func()) {
			r := bytes.NewReader(d)
			return plain{r}, func() error { _, err := r.Seek(0, 0); return err }, none
		}, false},
		{"iotest.OneByteReader", func(d []byte) (io.Reader, func() error, func()) {
			r := bytes.NewReader(d)
			return iotest.OneByteReader(r), func() error { _, err := r.Seek(0, 0); return err }, none
		}, false},
		{"io.MultiReader", func(d []byte) (io.Reader, func() error, func()) {
			a, z := bytes.NewReader(d[:len(d)/2]), bytes.NewReader(d[len(d)/2:])
			r := &again{}
			set := func() error { a.Seek(0, 0); z.Seek(0, 0); r.Reader = io.MultiReader(a, z); return nil }
			set()
			return r, set, none
		}, false},
		{"io.TeeReader", func(d []byte) (io.Reader, func() error, func()) {
			r := bytes.NewReader(d)
			return io.TeeReader(r, io.Discard), func() error { _, err := r.Seek(0, 0); return err }, none
		}, false},
	}
}

type again struct{ io.Reader }

func sameConfig(a, b image.Config) bool {
	if a.Width != b.Width || a.Height != b.Height {
		return false
	}
	x, ok1 := a.ColorModel.(lcolor.AlphaPalette)
	y, ok2 := b.ColorModel.(lcolor.AlphaPalette)
	if ok1 || ok2 {
		if len(x) != len(y) || !ok1 || !ok2 {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return true
	}
	return a.ColorModel == b.ColorModel
}

func runC28(t *vh.T) {
	dir, err := os.MkdirTemp("", "verif-c28-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(filepath.Clean(dir))
	small := smallFiles(t)
	files := map[string][]byte{}
	for n, s := range small {
		files[n] = s.Bytes()
	}
	big := newFile(3, 0, 0, 70, 66) // larger than buffers
	addLayer(big, "big", image.Rect(0, 0, 70, 66), 0, false, 1)
	files["big"] = big.Write().Bytes()
	gap := newFile(11, 1, 1, 5, 4)
	gap.Gap = 70000
	addLayer(gap, "gap", image.Rect(0, 0, 5, 4), 0, false, 1)
	addLayer(gap, "gap", image.Rect(0, 0, 5, 4), 0, true, 2)
	files["gap"] = gap.Write().Bytes()
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	srcs := sources(dir)
	// Wrappings: no buffer, or up to three of growing sizes.
	sizes := []int{16, 64, 512, 4096, 65536, 1 << 17}
	wraps := [][]int{nil}
	for i, a := range sizes {
		wraps = append(wraps, []int{a})
		for j := i + 1; j < len(sizes); j++ {
			wraps = append(wraps, []int{a, sizes[j]})
			for k := j + 1; k < len(sizes); k++ {
				wraps = append(wraps, []int{a, sizes[j], sizes[k]})
			}
		}
	}
	// Operations: 0 decode, 1 configuration, 2.. peek.
	peeks := []int{1, 9, 13, 14, 15, 16}
	ops := 2 + len(peeks)
	depth := vh.Pick(t, 2, 3)
	seqs := 1
	for i := 0; i < depth; i++ {
		seqs *= ops
	}
	t.Par("sources", len(names)*len(srcs), func(b *vh.B, i int) {
		n, src := names[i%len(names)], srcs[i/len(names)]
		d := files[n]
		want, err := decode(d)
		if err != nil {
			b.Fail("valid", "%s: %v", n, err)
			return
		}
		conf, err := xcf.DecodeConfig(bytes.NewReader(d))
		if err != nil {
			b.Fail("valid", "%s: %v", n, err)
			return
		}
		states := map[uint64]bool{}
		trans := 0
		for wi, wrap := range wraps {
			for q := 0; q < seqs; q++ {
				if t.Quick && len(d) > 5000 && (q+wi)%8 != 0 {
					continue
				}
				r, rewind, done := src.open(d)
				for _, s := range wrap {
					r = bufio.NewReaderSize(r, s)
				}
				b.EvalH(vh.Hash(i, wi, q))
				for k, v := 0, q; k < depth; k, v = k+1, v/ops {
					trans++
					what := fmt.Sprintf("%s from %s in %v buffers, operation %d of sequence %d", n, src.name, wrap, k, q)
					b.Case(func() string { return what })
					op := v % ops
					if op >= 2 {
						if br, ok := r.(*bufio.Reader); ok {
							br.Peek(peeks[op-2])
						}
						continue
					}
					if len(wrap) == 0 {
						if err := rewind(); err != nil {
							panic(err)
						}
					}
					var f string
					var m image.Image
					var c image.Config
					if op == 0 {
						m, f, err = image.Decode(r)
					} else {
						c, f, err = image.DecodeConfig(r)
					}
					states[vh.Hash(wi, op, k)] = true
					if !src.ok {
						if !errors.Is(err, xcf.ErrNeedReaderAt) {
							b.Fail("plain", "%s: error %v, not %v", what, err, xcf.ErrNeedReaderAt)
							done()
							return
						}
						continue
					}
					if err != nil || f != "xcf" {
						b.Fail("source", "%s: format %q, error %v", what, f, err)
						done()
						return
					}
					if op == 1 {
						if !sameConfig(c, conf) {
							b.Fail("config", "%s: configuration %v, not %v", what, c, conf)
							done()
							return
						}
						continue
					}
					lm, ok := m.(limage.Image)
					if !ok {
						b.Fail("image", "%s: a %T", what, m)
						done()
						return
					}
					if s := sameImages(want, lm); s != "" {
						b.Fail("image", "%s: %s", what, s)
						done()
						return
					}
				}
				done()
				if b.Stop() {
					return
				}
			}
		}
		b.States(len(states), trans, len(wraps)*seqs)
	})
	// Other formats and damaged heads are not taken for XCF, nor the reverse.
	t.Par("heads", 14, func(b *vh.B, i int) {
		d := files["v3-group"]
		for v := 0; v < 256; v++ {
			x := bytes.Clone(d)
			x[i] = byte(v)
			m, f, err := image.Decode(bytes.NewReader(x))
			dm, derr := decode(x)
			b.EvalH(vh.HashBytes(x))
			if i < 9 && x[i] != d[i] {
				if err != image.ErrFormat {
					b.Fail("head", "byte %d being %d: %q %v", i, v, f, err)
					return
				}
				continue
			}
			if (err == nil) != (derr == nil) || err == nil && f != "xcf" {
				b.Fail("head", "byte %d being %d: %q %v, directly %v", i, v, f, err, derr)
				return
			}
			if err == nil {
				if s := sameImages(dm, m.(limage.Image)); s != "" {
					b.Fail("head", "byte %d being %d: %s", i, v, s)
					return
				}
			}
		}
	})
	// What Encode writes opens as well.
	kinds := lim.Kinds()
	t.Par("encoded", len(kinds), func(b *vh.B, i int) {
		m := limage.Image{oneLayer(kinds[i], image.Pt(1, -2), image.Rect(0, 0, 4, 3), i), {Name: "base", LayerBounds: image.Rect(0, 0, 5, 5), Image: nr(5, 5, i)}}
		d, err := encode(m)
		if err != nil {
			b.Fail("encode", "%s: %v", lim.Describe(m), err)
			return
		}
		want, err := decode(d)
		if err != nil {
			b.Fail("decode", "%s: %v", lim.Describe(m), err)
			return
		}
		for _, src := range srcs {
			r, _, done := src.open(d)
			got, f, err := image.Decode(r)
			done()
			b.Eval(1, 1)
			if !src.ok {
				if !errors.Is(err, xcf.ErrNeedReaderAt) {
					b.Fail("plain", "%s from %s: %v", lim.Describe(m), src.name, err)
				}
				continue
			}
			if err != nil || f != "xcf" {
				b.Fail("source", "%s from %s: %q %v", lim.Describe(m), src.name, f, err)
				return
			}
			if s := sameImages(want, got.(limage.Image)); s != "" {
				b.Fail("image", "%s from %s: %s", lim.Describe(m), src.name, s)
				return
			}
		}
	})
}
