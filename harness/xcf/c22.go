//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"image"
	"io"
	"sort"
	"sync"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/xcf"
	"vimagination.zapto.org/limage/zzverif/vh"
	"vimagination.zapto.org/limage/zzverif/xfmt"
)

var c22 = vh.Check{
	ID: "C22", Level: "fault_enumeration",
	Rule: "for files that hold every structure of the format, every read that decoding makes is made to fail in each of five ways (nothing or half of it read; once or from then on; io.EOF and io.ErrUnexpectedEOF as errors), for Decode, DecodeCompressed and DecodeConfig, which must then return an error; every legal variation of answering (end of file reported with the last bytes or after them, streams in pieces of every size up to a bound, positioned at every byte beforehand, empty reads, every failing Read and Seek of a stream) and every placing of the blocks beyond 16 MiB, 2 GiB and (with wide pointers) 4 GiB must give the image that the file describes; distinct by construction, non-trivial when the departure was reached",
	Assume: []string{
		"reads are told apart by their offset, length and repetition, since layers are read concurrently",
		"a read that delivers everything together with an error other than io.EOF is left out (io.ReaderAt callers may rely on the data)",
		"vimagination.zapto.org/byteio, memio and parser cannot be fetched here; stand-ins written from their documentation are used",
	},
	Run: runC22,
}

var errRead = errors.New("injected fault")

type readID struct {
	off      int64
	len, rep int
}

// departing is a reader that departs from the usual at some reads.
type departing struct {
	sync.Mutex
	r     io.ReaderAt
	size  int64
	seen  map[readID]int
	at    *readID // nil: record
	mode  int
	hit   bool
	after bool
	eof   bool // report the end with the last bytes
	all   map[readID]bool
}

func (d *departing) err() error {
	switch d.mode {
	case 3:
		return io.EOF
	case 4:
		return io.ErrUnexpectedEOF
	}
	return errRead
}

func (d *departing) ReadAt(p []byte, off int64) (int, error) {
	d.Lock()
	k := readID{off, len(p), 0}
	k.rep = d.seen[k]
	d.seen[readID{off, len(p), 0}]++
	if d.all != nil {
		d.all[k] = true
	}
	fail := d.at != nil && (k == *d.at || d.mode == 1 && d.hit)
	if fail {
		d.hit = true
	}
	d.Unlock()
	if fail {
		n := 0
		if d.mode == 2 {
			n, _ = d.r.ReadAt(p[:len(p)/2], off)
		}
		return n, d.err()
	}
	n, err := d.r.ReadAt(p, off)
	if err == nil && d.eof && off+int64(n) == d.size {
		err = io.EOF
	}
	return n, err
}

func depart(r io.ReaderAt, size int64) *departing {
	return &departing{r: r, size: size, seen: map[readID]int{}}
}

func callEntry(i int, r io.ReaderAt) (limage.Image, image.Config, error) {
	switch i {
	case 0:
		m, err := xcf.Decode(r)
		return m, image.Config{}, err
	case 1:
		m, err := xcf.DecodeCompressed(r)
		return m, image.Config{}, err
	}
	c, err := xcf.DecodeConfig(r)
	return nil, c, err
}

func sameImages(a, b limage.Image) string {
	o := xfmt.Options{Hidden: true, KeepOutside: true, Text: true}
	if key, diff := xfmt.Compare("", xfmt.Picture(a, image.Point{}), xfmt.Picture(b, image.Point{}), o); key != "" {
		return diff
	}
	return ""
}

// stream is a source without random access.
type stream struct {
	d      []byte
	pos    int64
	piece  int
	eof    bool // with the last bytes
	empty  bool // some reads give nothing
	n      int
	failAt int // operation that fails
	hit    bool
}

func (s *stream) op() bool {
	s.n++
	if s.failAt > 0 && s.n == s.failAt {
		s.hit = true
		return true
	}
	return false
}

func (s *stream) Read(p []byte) (int, error) {
	if s.op() {
		return 0, errRead
	}
	if len(p) == 0 || s.empty && s.n%3 == 0 {
		return 0, nil
	}
	if s.pos >= int64(len(s.d)) {
		return 0, io.EOF
	}
	if s.piece > 0 && len(p) > s.piece {
		p = p[:s.piece]
	}
	n := copy(p, s.d[s.pos:])
	s.pos += int64(n)
	if s.eof && s.pos == int64(len(s.d)) {
		return n, io.EOF
	}
	return n, nil
}

// seeker is a stream that can be placed.
type seeker struct{ *stream }

func (s seeker) Seek(off int64, whence int) (int64, error) {
	if s.op() {
		return 0, errRead
	}
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += int64(len(s.d))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	s.pos = off
	return off, nil
}

func runC22(t *vh.T) {
	files := smallFiles(t)
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	type base struct {
		d    []byte
		ids  [3][]readID
		want limage.Image
		conf image.Config
		def  limage.Image
	}
	bases := map[string]*base{}
	for _, n := range names {
		x := &base{d: files[n].Bytes()}
		for e := 0; e < 3; e++ {
			r := depart(bytes.NewReader(x.d), int64(len(x.d)))
			r.all = map[readID]bool{}
			m, c, err := callEntry(e, r)
			if err != nil {
				n := n
				t.Seq("valid-"+n, 1, func(b *vh.B, i int) { b.Fail("valid", "%s: %v", n, err) })
				return
			}
			switch e {
			case 0:
				x.want = m
			case 1:
				x.def = m
			case 2:
				x.conf = c
			}
			for k := range r.all {
				x.ids[e] = append(x.ids[e], k)
			}
			sort.Slice(x.ids[e], func(a, b int) bool {
				p, q := x.ids[e][a], x.ids[e][b]
				if p.off != q.off {
					return p.off < q.off
				}
				if p.len != q.len {
					return p.len < q.len
				}
				return p.rep < q.rep
			})
			t.Extra("reads", int64(len(x.ids[e])))
		}
		bases[n] = x
	}
	for _, n := range names {
		n, x := n, bases[n]
		for e := 0; e < 3; e++ {
			e := e
			t.Par(fmt.Sprintf("faults-%s-%s", n, entry[e]), len(x.ids[e]), func(b *vh.B, i int) {
				for mode := 0; mode < 5; mode++ {
					r := depart(bytes.NewReader(x.d), int64(len(x.d)))
					r.at, r.mode = &x.ids[e][i], mode
					_, _, err := callEntry(e, r)
					b.Eval(1, 1)
					b.Case(func() string {
						return fmt.Sprintf("read of %d bytes at %d, repetition %d, ends in way %d", x.ids[e][i].len, x.ids[e][i].off, x.ids[e][i].rep, mode)
					})
					if !r.hit {
						b.Fail("not-reached", "%s of %s: read %v was not made again", entry[e], n, x.ids[e][i])
						return
					}
					if err == nil {
						b.Fail("hidden", "%s of %s: the read of %d bytes at %d failed (mode %d, %v), there is no error", entry[e], n, x.ids[e][i].len, x.ids[e][i].off, mode, r.err())
						return
					}
				}
			})
		}
		t.Par("ends-"+n, 1, func(b *vh.B, i int) {
			for e := 0; e < 3; e++ {
				// The file as it is and ending anywhere behind its last pixel.
				for cut := len(x.d); cut == len(x.d) || cut >= int(files[n].Last) && files[n].Last > 0; cut-- {
					r := depart(bytes.NewReader(x.d[:cut]), int64(cut))
					r.eof = true
					m, c, err := callEntry(e, r)
					b.Eval(1, 1)
					if err != nil {
						b.Fail("end", "%s of %s with its end (%d of %d) reported with the last bytes: %v", entry[e], n, cut, len(x.d), err)
						return
					}
					if e < 2 {
						if s := sameImages(x.want, m); s != "" {
							b.Fail("end", "%s of %s with its end reported with the last bytes: %s", entry[e], n, s)
							return
						}
					} else if c.Width != x.conf.Width || c.Height != x.conf.Height {
						b.Fail("end", "%s: configuration %v, not %v", n, c, x.conf)
					}
				}
			}
		})
		// Streams that can be placed.
		pieces := []int{0, 1, 2, 3, 4, 5, 7, 8, 13, 64, 100, 4095, 4096, 5000}
		t.Par("streams-"+n, len(pieces)*4, func(b *vh.B, i int) {
			for pos := 0; pos <= len(x.d)+1; pos += vh.Pick(t, 1+len(x.d)/7, 1+len(x.d)/60) {
				s := &stream{d: x.d, piece: pieces[i/4], eof: i&1 == 1, empty: i&2 == 2}
				// The format is recognised from what is buffered, wherever the
				// stream stands by then.
				rd := bufio.NewReaderSize(seeker{s}, 16+pos%100)
				rd.Peek(14)
				s.pos = int64(pos)
				m, f, err := image.Decode(rd)
				b.Eval(1, 1)
				if err != nil || f != "xcf" {
					b.Fail("stream", "%s as a stream in pieces of %d: %s %v", n, s.piece, f, err)
					return
				}
				if d := sameImages(x.want, m.(limage.Image)); d != "" {
					b.Fail("stream", "%s as a stream in pieces of %d: %s", n, s.piece, d)
					return
				}
			}
		})
		ops := &stream{d: x.d}
		image.Decode(seeker{ops})
		step := 1
		if t.Quick {
			step = 1 + ops.n/300
		}
		// The first operation is package image's, to see which format it is,
		// and is made again for the next format.
		t.Par("stream-faults-"+n, ops.n/step, func(b *vh.B, i int) {
			for e := 0; e < 2; e++ {
				s := &stream{d: x.d, failAt: i*step + 2}
				var err error
				if e == 0 {
					_, _, err = image.Decode(seeker{s})
				} else {
					_, _, err = image.DecodeConfig(seeker{s})
				}
				h := 0
				if s.hit {
					h = 1
				}
				b.Eval(1, h)
				if s.hit && err == nil {
					b.Fail("hidden-stream", "%s as a stream (%d): operation %d failed, there is no error", n, e, s.failAt)
					return
				}
			}
		})
	}
	// Files with blocks far apart.
	gaps := []int64{1, 4096, 1<<24 - 700, 1 << 24, 1<<24 + 1, 1 << 26, 1<<29 + 3}
	wide := []int64{1<<31 - 300, 1 << 31, 1<<32 - 500, 1 << 32, 1<<32 + 77, 1 << 40, 1 << 52}
	t.Par("far", (len(gaps)*2+len(wide))*3*2, func(b *vh.B, i int) {
		comp, j := i%2, i/2/3
		base := i / 2 % 3
		var f *xfmt.File
		if j < len(gaps) {
			f = newFile(3, base, comp*3, 5, 4)
			f.Gap = gaps[j]
		} else if j < 2*len(gaps) {
			f = newFile(11, base, comp*3, 70, 3)
			f.Gap = gaps[j-len(gaps)]
		} else {
			f = newFile(13, base, comp*3, 70, 3)
			f.Gap = wide[j-2*len(gaps)]
		}
		fillMask(addLayer(f, "top", image.Rect(0, 0, f.W, f.H), 3, false, i), i)
		addLayer(f, "bottom", image.Rect(1, 1, f.W, f.H), 0, true, i)
		s := f.Write()
		for e := 0; e < 3; e++ {
			for _, eof := range []bool{false, true} {
				r := depart(s, s.Size())
				r.eof = eof
				m, c, err := callEntry(e, r)
				b.Eval(1, 1)
				if err != nil {
					b.Fail("far", "%s of a file of %d bytes: %v: %s", entry[e], s.Size(), err, describe(f))
					return
				}
				if e < 2 && !matches(b, entry[e]+" of a large file", f, m) {
					return
				}
				if e == 2 && (c.Width != f.W || c.Height != f.H) {
					b.Fail("far", "configuration %v: %s", c, describe(f))
				}
			}
		}
	})
	// The end is reported with the last bytes, for all files.
	exploreFiles(t, func(b *vh.B, f *xfmt.File) bool {
		s := f.Write()
		r := depart(s, s.Size())
		r.eof = true
		m, err := xcf.Decode(r)
		b.EvalH(fileHash(s))
		if err != nil {
			b.Fail("end", "Decode with the end reported with the last bytes: %v: %s", err, describe(f))
			return false
		}
		return matches(b, "Decode with the end reported with the last bytes", f, m)
	})
}
