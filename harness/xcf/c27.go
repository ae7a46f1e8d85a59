//go:build go1.22

package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/png"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/ora"
	"vimagination.zapto.org/limage/xcf"
	"vimagination.zapto.org/limage/zzverif/lim"
	"vimagination.zapto.org/limage/zzverif/vh"
	"vimagination.zapto.org/limage/zzverif/xfmt"
)

var c27 = vh.Check{
	ID: "C27", Level: "exploration",
	Rule: "DecodeConfig of every XCF file of the alphabets of C18, of canvas sizes up to the limits of the format in every version and base type, of every OpenRaster document of an alphabet of prologs, attributes, sizes and archive layouts, and of everything both encoders write for the pictures of C16 is compared with the description, and the colour model with the layers that are decoded; distinct by the hash of the file",
	Assume: []string{
		"the assumptions of C16 and C18",
		"vimagination.zapto.org/byteio, memio and parser cannot be fetched here; stand-ins written from their documentation are used",
	},
	Run: runC27,
}

func checkConfig(b *vh.B, f *xfmt.File) bool {
	s := f.Write()
	b.EvalH(fileHash(s))
	b.Case(func() string { return describe(f) })
	c, err := xcf.DecodeConfig(s)
	if err != nil {
		b.Fail("config", "DecodeConfig of a valid file: %v: %s", err, describe(f))
		return false
	}
	if c.Width != f.W || c.Height != f.H {
		b.Fail("size", "DecodeConfig gives %d×%d: %s", c.Width, c.Height, describe(f))
		return false
	}
	if msg := wrongModel(c.ColorModel, f.Base, f.Palette); msg != "" {
		b.Fail("model", "DecodeConfig gives %s: %s", msg, describe(f))
		return false
	}
	return true
}

// wrongModel says what is wrong with a colour model.
func wrongModel(m color.Model, base int, pal [][3]byte) string {
	var p []color.Color
	switch m := m.(type) {
	case lcolor.AlphaPalette:
		p = m
	case color.Palette:
		p = m
	}
	switch base {
	case 0:
		if m != color.NRGBAModel {
			return fmt.Sprintf("the model %v, not straight RGBA", m)
		}
	case 1:
		if m != lcolor.GrayAlphaModel {
			return fmt.Sprintf("the model %v, not gray with alpha", m)
		}
	case 2:
		if len(p) != len(pal) {
			return fmt.Sprintf("%d colours, not %d", len(p), len(pal))
		}
		for i, c := range p {
			if xfmt.Eight(c) != (color.NRGBA{pal[i][0], pal[i][1], pal[i][2], 255}) {
				return fmt.Sprintf("colour %d of the palette is %v, not %v", i, c, pal[i])
			}
		}
	}
	return ""
}

func runC27(t *vh.T) {
	exploreFiles(t, checkConfig)
	dims := []int{1, 2, 3, 63, 64, 65, 255, 256, 257, 65535, 65536, 1 << 19, 1<<24 + 1, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	if !t.Quick {
		dims = append(dims, 127, 128, 4095, 4096, 1<<16+1, 1<<20, 1<<28, 1<<31-2, 1<<31+1, 3<<30)
	}
	t.Par("canvas-sizes", len(dims)*14, func(b *vh.B, i int) {
		v := i % 14
		for _, h := range dims {
			for base := 0; base < 3; base++ {
				if v == 0 && base == 2 {
					continue
				}
				f := newFile(v, base, 1, dims[i/14], h)
				addLayer(f, "l", image.Rect(0, 0, 1, 1), 0, false, i)
				if (i+h)%3 == 0 {
					f.Before = imageProps[:12]
				}
				if !checkConfig(b, f) {
					return
				}
			}
		}
	})
	explorePictures(t, func(b *vh.B, m image.Image) bool {
		d, err := encode(m)
		if err != nil {
			b.Fail("encode", "Encode(%s): %v", lim.Describe(m), err)
			return false
		}
		b.EvalH(vh.HashBytes(d))
		c, err := xcf.DecodeConfig(bytes.NewReader(d))
		if err != nil {
			b.Fail("config", "DecodeConfig of what Encode wrote for %s: %v", lim.Describe(m), err)
			return false
		}
		r := m.Bounds()
		if c.Width != r.Dx() || c.Height != r.Dy() {
			b.Fail("size", "DecodeConfig of what Encode wrote for %s of %v gives %d×%d", lim.Describe(m), r, c.Width, c.Height)
			return false
		}
		dm, err := decode(d)
		if err != nil {
			b.Fail("decode", "decoding what Encode wrote for %s: %v", lim.Describe(m), err)
			return false
		}
		k := base(asLayers(m))
		ok := true
		leaves(dm, func(p image.Image) {
			switch lm := lim.Model(p).(type) {
			case lcolor.AlphaPalette:
				var pal [][3]byte
				for _, c := range lm {
					e := xfmt.Eight(c)
					pal = append(pal, [3]byte{e.R, e.G, e.B})
				}
				if msg := wrongModel(c.ColorModel, 2, pal); msg != "" && ok {
					b.Fail("model", "DecodeConfig of what Encode wrote for %s gives %s", lim.Describe(m), msg)
					ok = false
				}
			default:
				if ok && c.ColorModel != lm {
					b.Fail("model", "DecodeConfig of what Encode wrote for %s gives another model than that of its layer %T", lim.Describe(m), p)
					ok = false
				}
			}
		})
		if ok && k < 2 {
			if msg := wrongModel(c.ColorModel, k, nil); msg != "" {
				b.Fail("model", "DecodeConfig of what Encode wrote for %s gives %s", lim.Describe(m), msg)
				ok = false
			}
		}
		if !ok {
			return false
		}
		if r.Dx()*r.Dy() > 600 && t.Quick {
			return true
		}
		return oraConfig(b, m)
	})
	oraDocuments(t)
}

func oraConfig(b *vh.B, m image.Image) bool {
	var buf bytes.Buffer
	if err := ora.Encode(&buf, m); err != nil {
		if m.Bounds().Empty() || hugePalette(m) {
			return true // PNG cannot hold them
		}
		b.Fail("ora-encode", "ora.Encode(%s): %v", lim.Describe(m), err)
		return false
	}
	zr, err := zip.NewReader(bytes.NewReader(buf.Bytes()), int64(buf.Len()))
	if err != nil {
		b.Fail("ora-zip", "%s: %v", lim.Describe(m), err)
		return false
	}
	c, err := ora.DecodeConfig(zr)
	r := m.Bounds()
	if err != nil || c.Width != r.Dx() || c.Height != r.Dy() || c.ColorModel != color.NRGBAModel {
		b.Fail("ora-config", "ora.DecodeConfig of what Encode wrote for %s of %v gives %v (%v)", lim.Describe(m), r, c, err)
		return false
	}
	b.Eval(1, 1)
	return true
}

func hugePalette(m image.Image) bool {
	huge := false
	leaves(asLayers(m), func(p image.Image) {
		switch c := lim.Model(p).(type) {
		case color.Palette:
			huge = huge || len(c) > 256
		case lcolor.AlphaPalette:
			huge = huge || len(c) > 256
		}
	})
	return huge
}

func oraDocuments(t *vh.T) {
	var pic bytes.Buffer
	png.Encode(&pic, lim.NRGBAOf(image.Rect(0, 0, 2, 2), 1))
	dims := []string{"1", "2", "3", "9", "10", "255", "256", "1000", "65535", "65536", "524288", "2147483647", "007", "0"}
	prologs := []string{"", `<?xml version="1.0" encoding="UTF-8"?>`, "<?xml version='1.0'?>\n<!-- a > comment <image w=\"5\" h=\"6\"> -->\n", "\n\t ", `<?xml version="1.0" encoding="UTF-8" standalone="yes"?><?pi image w="9"?>`, "<!DOCTYPE image>\n"}
	attrs := []string{`w="%s" h="%s"`, `version="0.0.3" w="%s" h="%s"`, `h="%[2]s" w="%[1]s"`, `w='%s'  h='%s' xres="72" yres="300"`, "xmlns:x=\"u\" name=\"n\"\n w=\"%s\"\th=\"%s\" version=\"0.0.1\"", `width="7" height="8" w="%s" h="%s" W="4" H="5"`}
	bodies := []string{`<stack/>`, `<stack><layer src="a.png"/></stack>`, "\n <stack x=\"1\" y=\"2\">\n<stack><layer src=\"data/b.png\" x=\"-1\" y=\"4\" w=\"99\" h=\"98\"/></stack></stack>\n", `<metadata w="1" h="2"><a/></metadata><stack w="77" h="78"><layer src="a.png" name="image" opacity="0.5"/></stack>`, `text<stack><!-- <image w="1"/> --></stack>`}
	t.Par("ora-documents", len(dims)*len(dims), func(b *vh.B, i int) {
		w, h := dims[i%len(dims)], dims[i/len(dims)]
		var wi, hi int
		fmt.Sscanf(w, "%d", &wi)
		fmt.Sscanf(h, "%d", &hi)
		for pi, p := range prologs {
			for ai, a := range attrs {
				for bi, body := range bodies {
					doc := p + "<image " + fmt.Sprintf(a, w, h) + ">" + body + "</image>"
					var buf bytes.Buffer
					zw := zip.NewWriter(&buf)
					put := func(name, data string, how uint16) {
						f, _ := zw.CreateHeader(&zip.FileHeader{Name: name, Method: how})
						f.Write([]byte(data))
					}
					layout := (pi + ai + bi + i) % 4
					if layout < 3 {
						put("mimetype", "image/openraster", zip.Store)
					}
					if layout == 1 {
						put("stack.xml", doc, zip.Store)
					}
					put("a.png", pic.String(), zip.Store)
					put("data/b.png", pic.String(), zip.Deflate)
					put("data/stack.xml", `<image w="41" h="42"/>`, zip.Deflate)
					if layout != 1 {
						put("stack.xml", doc, zip.Deflate)
					}
					if layout == 3 {
						put("mimetype", "image/openraster", zip.Store)
					}
					zw.Close()
					b.EvalH(vh.HashBytes(buf.Bytes()))
					zr, err := zip.NewReader(bytes.NewReader(buf.Bytes()), int64(buf.Len()))
					if err != nil {
						panic(err)
					}
					c, err := ora.DecodeConfig(zr)
					if err != nil || c.Width != wi || c.Height != hi || c.ColorModel != color.NRGBAModel {
						b.Fail("ora-config", "ora.DecodeConfig of %q (layout %d) gives %v (%v)", doc, layout, c, err)
						return
					}
					m, err := ora.Decode(zr)
					if err != nil {
						b.Fail("ora-decode", "ora.Decode of %q (layout %d): %v", doc, layout, err)
						return
					}
					if r := (image.Rectangle{Max: image.Pt(wi, hi)}); !within(m, r, image.Point{}) {
						b.Fail("ora-canvas", "ora.Decode of %q gives a picture beyond the canvas: %s", doc, lim.Describe(m))
						return
					}
				}
			}
			if b.Stop() {
				return
			}
		}
	})
}

// within says whether all layers lie on the canvas.
func within(g limage.Image, r image.Rectangle, p image.Point) bool {
	for _, l := range g {
		lb := l.LayerBounds.Add(p)
		if !lb.Empty() && !lb.In(r) {
			return false
		}
		if in, ok := group(l.Image); ok && !within(in, r, lb.Min) {
			return false
		}
	}
	return true
}
