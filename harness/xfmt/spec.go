//go:build go1.22

// Package xfmt is an independent description, writer and reader of XCF files,
// made from the description of the format and not from the code under test.
package xfmt

import (
	"encoding/binary"
	"fmt"
	"image"
	"math"
)

// Prop is a property that is written as it is.
type Prop struct {
	ID   uint32
	Data []byte
}

// Layer is one layer of a file; bounds are absolute.
type Layer struct {
	Name    string
	Rect    image.Rectangle
	Opacity uint8
	Hidden  bool
	Mode    uint32
	NoAlpha bool
	Group   bool
	Kids    []*Layer
	Pix     []byte // interleaved, unless a group
	Mask    []byte
	HasText bool
	Text    string // content of the text parasite

	Rot           int  // order of the usual properties
	Float         bool // opacity as a floating point number (too)
	Before, After []Prop
	MaskProps     []Prop
}

// File is a whole file.
type File struct {
	Version       int
	W, H          int
	Base          int
	Palette       [][3]byte
	Compression   int // 0 none, 1 run length
	NoCompProp    bool
	Runs          int // how runs are chosen
	Layers        []*Layer
	Before, After []Prop
	Levels        int   // further levels, as GIMP writes
	Channels      int   // further channels
	PathAll       bool  // item paths for top-level layers too
	Gap           int64 // unused bytes before each layer and each tile
	// Recode, if set, gives what is written for a channel of a tile in place of
	// its usual form.
	Recode func(tile, channel int, usual []byte) []byte
}

// BPP is the number of bytes of a pixel.
func (f *File) BPP(l *Layer) int {
	n := 1
	if f.Base == 0 {
		n = 3
	}
	if !l.NoAlpha {
		n++
	}
	return n
}

func (f *File) wide() bool { return f.Version >= 11 }

// Sparse is what is written: a reader that needs no room for gaps.
type Sparse struct {
	Segs   []Seg
	Fields []int64 // where numbers and pointers are
	Props  int64   // where the properties of the image end
	Last   int64   // where the last pixel ends
	pos    int64
}

// Seg is a written piece.
type Seg struct {
	Off  int64
	Data []byte
}

// Size is the length of the file.
func (s *Sparse) Size() int64 {
	var n int64
	for _, g := range s.Segs {
		n = max(n, g.Off+int64(len(g.Data)))
	}
	return n
}

// ReadAt reads as a file does.
func (s *Sparse) ReadAt(p []byte, off int64) (int, error) {
	size := s.Size()
	if off >= size {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, eof
	}
	var err error
	if off+int64(len(p)) > size {
		p = p[:size-off]
		err = eof
	}
	clear(p)
	for _, g := range s.Segs {
		if g.Off < off+int64(len(p)) && off < g.Off+int64(len(g.Data)) {
			if g.Off >= off {
				copy(p[g.Off-off:], g.Data)
			} else {
				copy(p, g.Data[off-g.Off:])
			}
		}
	}
	return len(p), err
}

// Bytes is the file without gaps.
func (s *Sparse) Bytes() []byte {
	b := make([]byte, s.Size())
	for _, g := range s.Segs {
		copy(b[g.Off:], g.Data)
	}
	return b
}

func (s *Sparse) write(b []byte) {
	if n := len(s.Segs); n > 0 && s.Segs[n-1].Off+int64(len(s.Segs[n-1].Data)) == s.pos {
		s.Segs[n-1].Data = append(s.Segs[n-1].Data, b...)
	} else {
		s.Segs = append(s.Segs, Seg{s.pos, append([]byte{}, b...)})
	}
	s.pos += int64(len(b))
}

func (s *Sparse) u32(v uint32) {
	s.Fields = append(s.Fields, s.pos)
	s.write(binary.BigEndian.AppendUint32(nil, v))
}

func (s *Sparse) ptr(wide bool, v int64) {
	if wide {
		s.Fields = append(s.Fields, s.pos, s.pos+4)
		s.write(binary.BigEndian.AppendUint64(nil, uint64(v)))
	} else {
		if v > math.MaxUint32 {
			panic("pointer too large")
		}
		s.u32(uint32(v))
	}
}

// patch writes a pointer at an earlier place.
func (s *Sparse) patch(at int64, wide bool, v int64) {
	var b []byte
	if wide {
		b = binary.BigEndian.AppendUint64(nil, uint64(v))
	} else {
		if v > math.MaxUint32 {
			panic("pointer too large")
		}
		b = binary.BigEndian.AppendUint32(nil, uint32(v))
	}
	for _, g := range s.Segs {
		if g.Off <= at && at+int64(len(b)) <= g.Off+int64(len(g.Data)) {
			copy(g.Data[at-g.Off:], b)
			return
		}
	}
	panic("patch of nothing")
}

func (s *Sparse) prop(id uint32, data []byte) {
	s.u32(id)
	s.u32(uint32(len(data)))
	for i := 0; i+4 <= len(data) && i < 64; i += 4 {
		s.Fields = append(s.Fields, s.pos+int64(i))
	}
	s.write(data)
}

// U32 makes property data.
func U32(v ...uint32) []byte {
	var b []byte
	for _, x := range v {
		b = binary.BigEndian.AppendUint32(b, x)
	}
	return b
}

// Str makes a string as it is stored.
func Str(v string) []byte { return append(U32(uint32(len(v)+1)), append([]byte(v), 0)...) }

// Parasite makes a parasite.
func Parasite(name string, flags uint32, data string) []byte {
	b := append(Str(name), U32(flags, uint32(len(data)))...)
	return append(b, data...)
}

type flatLayer struct {
	l    *Layer
	path []uint32
}

func flatten(ls []*Layer, path []uint32, out []flatLayer) []flatLayer {
	for i, l := range ls {
		p := append(append([]uint32{}, path...), uint32(i))
		out = append(out, flatLayer{l, p})
		out = flatten(l.Kids, p, out)
	}
	return out
}

// Write makes the file.
func (f *File) Write() *Sparse {
	s := new(Sparse)
	v := "file"
	if f.Version > 0 {
		v = fmt.Sprintf("v%03d", f.Version)
	}
	s.write([]byte("gimp xcf " + v + "\x00"))
	s.u32(uint32(f.W))
	s.u32(uint32(f.H))
	s.u32(uint32(f.Base))
	switch {
	case f.Version == 4:
		s.u32(0)
	case f.Version > 4:
		s.u32(150)
	}
	for _, p := range f.Before {
		s.prop(p.ID, p.Data)
	}
	if f.Base == 2 {
		d := U32(uint32(len(f.Palette)))
		for _, c := range f.Palette {
			d = append(d, c[:]...)
		}
		s.prop(1, d)
	}
	if !f.NoCompProp {
		s.prop(17, []byte{byte(f.Compression)})
	}
	for _, p := range f.After {
		s.prop(p.ID, p.Data)
	}
	s.prop(0, nil)
	s.Props = s.pos
	flat := flatten(f.Layers, nil, nil)
	ptrs := s.pos
	ps := int64(4)
	if f.wide() {
		ps = 8
	}
	for range flat {
		s.ptr(f.wide(), 0)
	}
	s.ptr(f.wide(), 0)
	cptrs := s.pos
	for i := 0; i < f.Channels; i++ {
		s.ptr(f.wide(), 0)
	}
	s.ptr(f.wide(), 0)
	for i, fl := range flat {
		s.pos += f.Gap
		s.patch(ptrs+int64(i)*ps, f.wide(), s.pos)
		f.layer(s, fl, ps)
	}
	for i := 0; i < f.Channels; i++ {
		s.patch(cptrs+int64(i)*ps, f.wide(), s.pos)
		f.channel(s, image.Pt(f.W, f.H), make([]byte, f.W*f.H), "channel", []Prop{{6, U32(100)}, {16, []byte{1, 2, 3}}}, ps)
	}
	return s
}

func (f *File) layer(s *Sparse, fl flatLayer, ps int64) {
	l := fl.l
	s.u32(uint32(l.Rect.Dx()))
	s.u32(uint32(l.Rect.Dy()))
	t := uint32(f.Base) * 2
	if !l.NoAlpha {
		t++
	}
	s.u32(t)
	s.Fields = append(s.Fields, s.pos)
	s.write(Str(l.Name))
	for _, p := range l.Before {
		s.prop(p.ID, p.Data)
	}
	std := []Prop{{6, U32(uint32(l.Opacity))}}
	if l.Float {
		std = append(std, Prop{33, U32(math.Float32bits(float32(l.Opacity) / 255))})
	}
	vis := uint32(1)
	if l.Hidden {
		vis = 0
	}
	std = append(std, Prop{8, U32(vis)}, Prop{15, U32(uint32(int32(l.Rect.Min.X)), uint32(int32(l.Rect.Min.Y)))}, Prop{7, U32(l.Mode)})
	if len(fl.path) > 1 || f.PathAll {
		std = append(std, Prop{30, U32(fl.path...)})
	}
	if l.Group {
		std = append(std, Prop{29, nil}, Prop{31, U32(1)})
	}
	for i := range std {
		p := std[(i+l.Rot)%len(std)]
		s.prop(p.ID, p.Data)
	}
	if l.HasText {
		s.prop(26, U32(1))
		s.prop(21, append(Parasite("other", 1, "x"), Parasite("gimp-text-layer", 1, l.Text)...))
	}
	for _, p := range l.After {
		s.prop(p.ID, p.Data)
	}
	s.prop(0, nil)
	hp := s.pos
	s.ptr(f.wide(), 0)
	s.ptr(f.wide(), 0)
	s.patch(hp, f.wide(), s.pos)
	pix := l.Pix
	if l.Group {
		pix = make([]byte, l.Rect.Dx()*l.Rect.Dy()*f.BPP(l))
	}
	f.hierarchy(s, l.Rect.Size(), f.BPP(l), pix, ps)
	if !l.Group && f.Levels == 0 {
		s.Last = s.pos
	}
	if l.Mask != nil {
		s.patch(hp+ps, f.wide(), s.pos)
		f.channel(s, l.Rect.Size(), l.Mask, "mask", l.MaskProps, ps)
		if f.Levels == 0 {
			s.Last = s.pos
		}
	}
}

func (f *File) channel(s *Sparse, size image.Point, pix []byte, name string, props []Prop, ps int64) {
	s.u32(uint32(size.X))
	s.u32(uint32(size.Y))
	s.write(Str(name))
	for _, p := range props {
		s.prop(p.ID, p.Data)
	}
	s.prop(0, nil)
	s.ptr(f.wide(), s.pos+ps)
	f.hierarchy(s, size, 1, pix, ps)
}

func (f *File) hierarchy(s *Sparse, size image.Point, bpp int, pix []byte, ps int64) {
	s.u32(uint32(size.X))
	s.u32(uint32(size.Y))
	s.u32(uint32(bpp))
	lp := s.pos
	for i := 0; i <= f.Levels; i++ {
		s.ptr(f.wide(), 0)
	}
	s.ptr(f.wide(), 0)
	s.patch(lp, f.wide(), s.pos)
	s.u32(uint32(size.X))
	s.u32(uint32(size.Y))
	nx, ny := (size.X+63)/64, (size.Y+63)/64
	tp := s.pos
	for i := 0; i <= nx*ny; i++ {
		s.ptr(f.wide(), 0)
	}
	for ty := 0; ty < ny; ty++ {
		for tx := 0; tx < nx; tx++ {
			w, h := min(64, size.X-tx*64), min(64, size.Y-ty*64)
			tile := make([]byte, 0, w*h*bpp)
			for y := 0; y < h; y++ {
				o := ((ty*64+y)*size.X + tx*64) * bpp
				tile = append(tile, pix[o:o+w*bpp]...)
			}
			s.pos += f.Gap
			s.patch(tp+int64(ty*nx+tx)*ps, f.wide(), s.pos)
			if f.Compression == 0 {
				s.write(tile)
				continue
			}
			ch := make([]byte, w*h)
			for c := 0; c < bpp; c++ {
				for i := range ch {
					ch[i] = tile[i*bpp+c]
				}
				p := Pack(ch, f.Runs)
				if f.Recode != nil {
					p = f.Recode(ty*nx+tx, c, p)
				}
				s.write(p)
			}
		}
	}
	for i := 1; i <= f.Levels; i++ {
		size = image.Pt((size.X+1)/2, (size.Y+1)/2)
		s.patch(lp+int64(i)*ps, f.wide(), s.pos)
		s.u32(uint32(size.X))
		s.u32(uint32(size.Y))
		s.ptr(f.wide(), 0)
	}
}

// Strategies is the number of ways to choose runs.
const Strategies = 7

// Pack compresses one channel of one tile, in one of several legal ways.
func Pack(d []byte, how int) []byte {
	var out []byte
	same := func(i int) int {
		n := 1
		for i+n < len(d) && d[i+n] == d[i] {
			n++
		}
		return n
	}
	lit := func(b []byte, long bool) {
		if long || len(b) > 127 {
			out = append(out, 128, byte(len(b)>>8), byte(len(b)))
		} else {
			out = append(out, byte(256-len(b)))
		}
		out = append(out, b...)
	}
	run := func(n int, v byte, long bool) {
		if long || n > 127 {
			out = append(out, 127, byte(n>>8), byte(n), v)
		} else {
			out = append(out, byte(n-1), v)
		}
	}
	for i, step := 0, 0; i < len(d); step++ {
		n := same(i)
		left := len(d) - i
		switch how {
		case 0: // the longest run, else the longest literal
			if n > 1 || left == 1 {
				run(n, d[i], false)
				i += n
			} else {
				m := 1
				for i+m < len(d) && same(i+m) == 1 {
					m++
				}
				lit(d[i:i+m], false)
				i += m
			}
		case 1: // short literals
			m := min(left, 127)
			lit(d[i:i+m], false)
			i += m
		case 2: // one long literal
			lit(d[i:], true)
			i = len(d)
		case 3: // long runs
			run(n, d[i], true)
			i += n
		case 4: // runs of one
			run(1, d[i], false)
			i++
		case 5: // all kinds in turn, of sizes 1, 2, 3, ...
			m := min(left, step%5+1)
			switch step % 4 {
			case 0:
				lit(d[i:i+m], false)
			case 1:
				m = min(m, n)
				run(m, d[i], true)
			case 2:
				lit(d[i:i+m], true)
			case 3:
				m = min(m, n)
				run(m, d[i], false)
			}
			i += m
		case 6: // the largest short forms
			if n > 127 {
				run(127, d[i], false)
				i += 127
			} else {
				m := min(left, 127)
				lit(d[i:i+m], false)
				i += m
			}
		}
	}
	return out
}
