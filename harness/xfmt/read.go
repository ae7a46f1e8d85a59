//go:build go1.22

package xfmt

import (
	"encoding/binary"
	"fmt"
	"image"
	"io"
	"sort"
	"unicode/utf8"
)

var eof = io.EOF

type extent struct {
	from, to int64
	what     string
}

// Source is a file that is not all in memory.
type Source interface {
	Size() int64
	// Bytes gives a few bytes.
	Bytes(off, n int64) []byte
	// Filler says whether these are the bytes of a long text.
	Filler(off, n int64) bool
}

type parser struct {
	d    []byte
	src  Source
	pos  int64
	wide bool
	ext  []extent
	f    *File
}

type bad struct{ s string }

func (p *parser) fail(format string, args ...any) { panic(bad{fmt.Sprintf(format, args...)}) }

func (p *parser) bytes(n int64) []byte {
	if p.src != nil {
		if n < 0 || n > 1<<24 || p.pos+n > p.src.Size() {
			p.fail("%d bytes at %d are outside the file of %d bytes", n, p.pos, p.src.Size())
		}
		p.pos += n
		return p.src.Bytes(p.pos-n, n)
	}
	if n < 0 || p.pos+n > int64(len(p.d)) {
		p.fail("%d bytes at %d are outside the file of %d bytes", n, p.pos, len(p.d))
	}
	b := p.d[p.pos : p.pos+n]
	p.pos += n
	return b
}

func (p *parser) u8() byte    { return p.bytes(1)[0] }
func (p *parser) u32() uint32 { return binary.BigEndian.Uint32(p.bytes(4)) }

func (p *parser) ptr() int64 {
	if p.wide {
		v := binary.BigEndian.Uint64(p.bytes(8))
		if v > 1<<62 {
			p.fail("pointer %x", v)
		}
		return int64(v)
	}
	return int64(p.u32())
}

func (p *parser) str() string {
	n := p.u32()
	if n == 0 {
		return ""
	}
	if m := int64(n) - 1; p.src != nil && p.src.Filler(p.pos, m) {
		p.pos += m
		if p.u8() != 0 {
			p.fail("string of %d bytes without an end", m)
		}
		return fmt.Sprint("filler of ", m)
	}
	b := p.bytes(int64(n))
	if b[n-1] != 0 || !utf8.Valid(b) {
		p.fail("string %q", b)
	}
	for _, c := range b[:n-1] {
		if c == 0 {
			p.fail("string %q", b)
		}
	}
	return string(b[:n-1])
}

// block runs f at a place and notes what it reads.
func (p *parser) block(what string, at int64, f func()) {
	p.pos = at
	f()
	p.ext = append(p.ext, extent{at, p.pos, what})
}

var propLen = map[uint32]int{2: 0, 3: 0, 6: 4, 7: 4, 8: 4, 9: 4, 10: 4, 11: 4, 12: 4, 13: 4, 15: 8, 16: 3, 17: 1, 19: 8, 20: 4, 22: 4, 26: 4, 28: 4, 29: 0, 31: 4, 32: 4, 33: 4}

func (p *parser) props(f func(id uint32, d []byte)) {
	seen := map[uint32]bool{}
	for {
		id, n := p.u32(), p.u32()
		d := p.bytes(int64(n))
		if want, ok := propLen[id]; ok && want != len(d) {
			p.fail("property %d of %d bytes", id, len(d))
		}
		if id == 0 {
			if n != 0 {
				p.fail("end of properties of %d bytes", n)
			}
			return
		}
		if id > 45 {
			p.fail("unknown property %d", id)
		}
		if seen[id] {
			p.fail("property %d is repeated", id)
		}
		seen[id] = true
		f(id, d)
	}
}

// Parse reads a file strictly.
func Parse(d []byte) (f *File, err error) { return parse(&parser{d: d, f: new(File)}) }

// ParseSource reads a file strictly that is not all in memory.
func ParseSource(src Source) (f *File, err error) { return parse(&parser{src: src, f: new(File)}) }

func parse(p *parser) (f *File, err error) {
	defer func() {
		if r := recover(); r != nil {
			b, ok := r.(bad)
			if !ok {
				panic(r)
			}
			f, err = nil, fmt.Errorf("%s", b.s)
		}
	}()
	p.file()
	return p.f, nil
}

func (p *parser) file() {
	f := p.f
	var lptrs []int64
	p.block("image", 0, func() {
		h := string(p.bytes(14))
		if h[:9] != "gimp xcf " || h[13] != 0 {
			p.fail("header %q", h)
		}
		if h[9:13] != "file" {
			if _, err := fmt.Sscanf(h[9:13], "v%03d", &f.Version); err != nil || f.Version > 13 {
				p.fail("version %q", h)
			}
		}
		p.wide = f.Version >= 11
		f.W, f.H, f.Base = int(p.u32()), int(p.u32()), int(p.u32())
		if f.Base > 2 {
			p.fail("base type %d", f.Base)
		}
		if f.Version >= 4 {
			p.u32()
		}
		p.props(func(id uint32, d []byte) {
			switch id {
			case 1:
				if len(d) < 4 {
					p.fail("colour map of %d bytes", len(d))
				}
				n := binary.BigEndian.Uint32(d)
				if n > 256 || len(d) != int(4+3*n) {
					p.fail("colour map of %d colours in %d bytes", n, len(d))
				}
				for i := 0; i < int(n); i++ {
					f.Palette = append(f.Palette, [3]byte(d[4+3*i:]))
				}
			case 17:
				f.Compression = int(d[0])
				if f.Compression > 1 {
					p.fail("compression %d", f.Compression)
				}
			case 6, 7, 8, 15, 29, 30, 26, 33:
				p.fail("property %d on the image", id)
			}
		})
		if (f.Base == 2) != (f.Palette != nil) {
			p.fail("base type %d with %d colours", f.Base, len(f.Palette))
		}
		for {
			v := p.ptr()
			if v == 0 {
				break
			}
			lptrs = append(lptrs, v)
		}
		for p.ptr() != 0 {
			p.fail("a channel")
		}
	})
	type node struct {
		l    *Layer
		kids *[]*Layer
	}
	groups := map[string]*[]*Layer{"": &f.Layers}
	for _, at := range lptrs {
		l, path := p.layer(at)
		key := ""
		if len(path) == 0 {
			path = []uint32{uint32(len(f.Layers))}
		}
		for _, v := range path[:len(path)-1] {
			key += fmt.Sprint("/", v)
		}
		g := groups[key]
		if g == nil {
			p.fail("layer %q in the unknown group %s", l.Name, key)
		}
		if int(path[len(path)-1]) != len(*g) {
			p.fail("layer %q has the path %v but is number %d of its group", l.Name, path, len(*g))
		}
		*g = append(*g, l)
		if l.Group {
			groups[key+fmt.Sprint("/", path[len(path)-1])] = &l.Kids
		}
	}
	sort.Slice(p.ext, func(i, j int) bool { return p.ext[i].from < p.ext[j].from })
	for i := 1; i < len(p.ext); i++ {
		if a, b := p.ext[i-1], p.ext[i]; a.to > b.from {
			p.fail("%s at %d to %d overlaps %s at %d to %d", a.what, a.from, a.to, b.what, b.from, b.to)
		}
	}
}

func (p *parser) layer(at int64) (*Layer, []uint32) {
	l := &Layer{Opacity: 255}
	var (
		path       []uint32
		off        image.Point
		hptr, mptr int64
		w, h       int
	)
	p.block("layer", at, func() {
		w, h = int(p.u32()), int(p.u32())
		t := p.u32()
		if int(t>>1) != p.f.Base {
			p.fail("layer of type %d in an image of type %d", t, p.f.Base)
		}
		l.NoAlpha = t&1 == 0
		l.Name = p.str()
		p.props(func(id uint32, d []byte) {
			v := uint32(0)
			if len(d) >= 4 {
				v = binary.BigEndian.Uint32(d)
			}
			switch id {
			case 6:
				if v > 255 {
					p.fail("opacity %d", v)
				}
				l.Opacity = uint8(v)
			case 7:
				if v > 61 {
					p.fail("mode %d", v)
				}
				l.Mode = v
			case 8:
				if v > 1 {
					p.fail("visibility %d", v)
				}
				l.Hidden = v == 0
			case 15:
				off = image.Pt(int(int32(v)), int(int32(binary.BigEndian.Uint32(d[4:]))))
			case 21:
				for len(d) > 0 {
					q := &parser{d: d}
					name := q.str()
					q.u32()
					data := q.bytes(int64(q.u32()))
					if name == "gimp-text-layer" {
						l.HasText, l.Text = true, string(data)
					}
					d = d[q.pos:]
				}
			case 29:
				l.Group = true
			case 30:
				if len(d)%4 != 0 || len(d) == 0 {
					p.fail("item path of %d bytes", len(d))
				}
				for ; len(d) > 0; d = d[4:] {
					path = append(path, binary.BigEndian.Uint32(d))
				}
			case 1, 17:
				p.fail("property %d on a layer", id)
			}
		})
		hptr, mptr = p.ptr(), p.ptr()
	})
	l.Rect = image.Rectangle{Max: image.Pt(w, h)}.Add(off)
	l.Pix = p.hierarchy(hptr, w, h, p.f.BPP(l))
	if mptr != 0 {
		p.block("mask", mptr, func() {
			mw, mh := int(p.u32()), int(p.u32())
			if mw != w || mh != h {
				p.fail("mask of %dx%d for a layer of %dx%d", mw, mh, w, h)
			}
			p.str()
			p.props(func(uint32, []byte) {})
			hptr = p.ptr()
		})
		l.Mask = p.hierarchy(hptr, w, h, 1)
	}
	return l, path
}

func (p *parser) size(what string, w, h int) {
	if a, b := int(p.u32()), int(p.u32()); a != w || b != h {
		p.fail("%s of %dx%d for a layer of %dx%d", what, a, b, w, h)
	}
}

func (p *parser) hierarchy(at int64, w, h, bpp int) []byte {
	var level, first int64
	p.block("hierarchy", at, func() {
		p.size("hierarchy", w, h)
		if n := p.u32(); int(n) != bpp {
			p.fail("%d bytes per pixel, not %d", n, bpp)
		}
		level = p.ptr()
		if level == 0 {
			p.fail("no level")
		}
		for p.ptr() != 0 {
			first++
		}
	})
	var tiles []int64
	p.block("level", level, func() {
		p.size("level", w, h)
		for {
			t := p.ptr()
			if t == 0 {
				break
			}
			tiles = append(tiles, t)
		}
	})
	nx, ny := (w+63)/64, (h+63)/64
	if len(tiles) != nx*ny {
		p.fail("%d tiles for %dx%d", len(tiles), w, h)
	}
	pix := make([]byte, w*h*bpp)
	for i, t := range tiles {
		if i > 0 && t < p.pos {
			p.fail("tile %d at %d, before %d, the end of the one before", i, t, p.pos)
		}
		tx, ty := i%nx*64, i/nx*64
		tw, th := min(64, w-tx), min(64, h-ty)
		p.block("tile", t, func() {
			if p.f.Compression == 0 {
				d := p.bytes(int64(tw * th * bpp))
				for y := 0; y < th; y++ {
					copy(pix[((ty+y)*w+tx)*bpp:], d[y*tw*bpp:(y+1)*tw*bpp])
				}
				return
			}
			for c := 0; c < bpp; c++ {
				d := p.unpack(tw * th)
				for k, v := range d {
					pix[((ty+k/tw)*w+tx+k%tw)*bpp+c] = v
				}
			}
		})
	}
	return pix
}

func (p *parser) unpack(n int) []byte {
	out := make([]byte, 0, n)
	for len(out) < n {
		op := p.u8()
		switch {
		case op <= 127:
			m := int(op) + 1
			if op == 127 {
				m = int(p.u8()) << 8
				m |= int(p.u8())
			}
			v := p.u8()
			for ; m > 0; m-- {
				out = append(out, v)
			}
		case op == 128:
			m := int(p.u8()) << 8
			m |= int(p.u8())
			out = append(out, p.bytes(int64(m))...)
		default:
			out = append(out, p.bytes(int64(256-int(op)))...)
		}
	}
	if len(out) != n {
		p.fail("a channel of %d bytes in place of %d", len(out), n)
	}
	return out
}
