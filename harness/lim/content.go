//go:build go1.22

package lim

import (
	"bytes"
	"fmt"
	"image"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
)

// Content writes down everything in a picture.
func Content(s *bytes.Buffer, g limage.Image) {
	s.WriteByte('[')
	for _, l := range g {
		fmt.Fprintf(s, "%q%v,%d,%v,%d", l.Name, l.LayerBounds, l.Mode, l.Invisible, l.Transparency)
		m := l.Image
		switch i := m.(type) {
		case limage.MaskedImage:
			fmt.Fprint(s, "M", i.Mask.Rect)
			each(i.Mask.Rect, func(x, y int) { s.WriteByte(i.Mask.GrayAt(x, y).Y) })
			m = i.Image
		case limage.Text:
			fmt.Fprint(s, "T", i.TextData)
			m = i.Image
		}
		if in, ok := Group(m); ok {
			Content(s, in)
			continue
		}
		b := m.Bounds()
		fmt.Fprint(s, b, Model(m) == lcolor.GrayAlphaModel)
		each(b, func(x, y int) {
			c := Straight(m.At(x, y))
			s.Write([]byte{byte(c.R >> 8), byte(c.R), byte(c.G >> 8), byte(c.G), byte(c.B >> 8), byte(c.B), byte(c.A >> 8), byte(c.A)})
		})
	}
	s.WriteByte(']')
}

// Group gives the layers of a group, masked or not.
func Group(m image.Image) (limage.Image, bool) {
	switch m := m.(type) {
	case limage.Image:
		return m, true
	case *limage.Image:
		return *m, true
	case limage.MaskedImage:
		return Group(m.Image)
	case *limage.MaskedImage:
		return Group(m.Image)
	}
	return nil, false
}

// Forests gives every ordered forest of 1 to n nodes, as the depths of its
// nodes.
func Forests(n int) [][]int {
	var out [][]int
	var rec func(d []int)
	rec = func(d []int) {
		if len(d) > 0 {
			out = append(out, append([]int{}, d...))
		}
		if len(d) == n {
			return
		}
		top := 0
		if len(d) > 0 {
			top = d[len(d)-1] + 1
		}
		for k := 0; k <= top; k++ {
			rec(append(d, k))
		}
	}
	rec(nil)
	return out
}
