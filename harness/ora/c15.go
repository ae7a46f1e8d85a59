//go:build go1.22

package main

import (
	"archive/zip"
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"image"
	"strings"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/ora"
	"vimagination.zapto.org/limage/zzverif/lim"
	"vimagination.zapto.org/limage/zzverif/vh"
)

var c15 = vh.Check{
	ID: "C15", Level: "fault_enumeration",
	Rule: "every truncation, every single-byte change (of stated values) of an archive, of its stack document and of its pictures (with and without checksums corrected), every sequence of document tokens up to a length, every pairing of attributes with extreme values, and nesting up to millions of elements is decoded; an accepted image must have a picture in every layer and render at sampled points; distinct by the hash of the input",
	Assume: []string{
		"sizes declared by PNG headers are left to image/png, which allocates what they ask for; they are kept below 2^20 pixels",
	},
	Run: runC15,
}

// sound checks that an accepted tree can be used.
func sound(b *vh.B, what string, m limage.Image) bool {
	var walk func(g limage.Image, depth int) bool
	walk = func(g limage.Image, depth int) bool {
		if depth > 50 {
			return true
		}
		for i, l := range g {
			if l.Image == nil {
				b.Fail("nil-picture", "%s: layer %d has no picture", what, i)
				return false
			}
			if in, ok := group(l.Image); ok && !walk(in, depth+1) {
				return false
			}
		}
		return true
	}
	if !walk(m, 0) {
		return false
	}
	m.ColorModel()
	r := m.Bounds()
	for _, y := range points(r.Min.Y, r.Max.Y) {
		for _, x := range points(r.Min.X, r.Max.X) {
			m.At(x, y).RGBA()
		}
	}
	return true
}

func points(a, z int) []int {
	p := []int{a - 1, a, a + 1, z - 1, z, 0, 1}
	for i := a; i < z && i < a+4; i++ {
		p = append(p, i)
	}
	return p
}

// hostile decodes anything.
func hostile(b *vh.B, what string, data []byte) bool {
	b.EvalH(vh.HashBytes(data))
	b.Case(func() string { return fmt.Sprintf("%s, %d bytes", what, len(data)) })
	zr, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		return true
	}
	ora.DecodeConfig(zr)
	m, err := ora.Decode(zr)
	if err != nil {
		return true
	}
	return sound(b, what, m)
}

func fixCRC(p []byte) []byte {
	p = bytes.Clone(p)
	for o := 8; o+12 <= len(p); {
		n := int(binary.BigEndian.Uint32(p[o:]))
		if n < 0 || o+12+n > len(p) {
			break
		}
		binary.BigEndian.PutUint32(p[o+8+n:], crc32.ChecksumIEEE(p[o+4:o+8+n]))
		o += 12 + n
	}
	return p
}

func runC15(t *vh.T) {
	for n, m := range oraPics {
		oraPNG[n] = pngOf(m)
	}
	doc := head + `<image w="4" h="3"><stack><layer src="data/a.png" name="a" x="1" y="-1" opacity="0.5"/><stack x="1" visibility="hidden" composite-op="svg:screen"><layer src="g.png"/><!-- c --></stack></stack></image>`
	base := archive(oraEntries(doc)...)
	var mulBuf bytes.Buffer
	if err := ora.Encode(&mulBuf, limage.Image{{Name: "g", LayerBounds: image.Rect(0, 0, 4, 4), Image: lim.GroupOf(image.Rect(0, 0, 4, 4), 2)}}); err != nil {
		panic(err)
	}
	archs := [][]byte{base, mulBuf.Bytes()}
	for ai, a := range archs {
		a := a
		t.Par(fmt.Sprintf("archive-%d", ai), len(a), func(b *vh.B, i int) {
			if !hostile(b, fmt.Sprintf("archive %d cut at %d", ai, i), a[:i]) {
				return
			}
			vals := []int{1, 2, 0x80, 0xff}
			if !t.Quick {
				vals = vals[:0]
				for v := 1; v < 256; v++ {
					vals = append(vals, v)
				}
			}
			for _, v := range vals {
				m := bytes.Clone(a)
				m[i] ^= byte(v)
				if !hostile(b, fmt.Sprintf("archive %d with byte %d xor %d", ai, i, v), m) {
					return
				}
			}
		})
	}
	t.Par("document-bytes", len(doc), func(b *vh.B, i int) {
		put := func(what, s string) bool {
			return hostile(b, what+": "+s, archive(append(oraEntries(doc)[:1], append([]entry{{"stack.xml", zip.Store, []byte(s)}}, oraEntries(doc)[2:]...)...)...))
		}
		put("cut", doc[:i])
		put("deleted", doc[:i]+doc[i+1:])
		put("doubled", doc[:i]+doc[i:i+1]+doc[i:])
		for _, c := range "<>/\"'= &;-!?]0aé\x00\xff" {
			put("replaced", doc[:i]+string(c)+doc[i+1:])
			put("inserted", doc[:i]+string(c)+doc[i:])
		}
		if !t.Quick {
			for j := i + 1; j <= len(doc); j++ {
				if !put("range deleted", doc[:i]+doc[j:]) {
					return
				}
			}
		}
	})
	toks := []string{`<stack>`, `</stack>`, `<layer src="one.png">`, `</layer>`, `<image w="2" h="2">`, `</image>`, `<stack/>`, `<layer/>`, `x`, `<!--`, `<?`, `<![CDATA[`, `</x>`, `<x>`, `<stack`, `&bad;`}
	n := len(toks)
	depth := vh.Pick(t, 4, 6)
	t.Par("tokens", n*n, func(b *vh.B, i int) {
		one := oraPNG["one.png"]
		var rec func(s string, left int) bool
		rec = func(s string, left int) bool {
			if b.Stop() {
				return true
			}
			if !hostile(b, s, archive(entry{"stack.xml", zip.Store, []byte(s)}, entry{"one.png", zip.Store, one})) {
				return false
			}
			if left == 0 {
				return true
			}
			for _, k := range toks {
				if !rec(s+k, left-1) {
					return false
				}
			}
			return true
		}
		for _, start := range []string{"", `<image w="3" h="2"><stack>`} {
			d := depth
			if start == "" {
				d = min(depth, 5)
			}
			if !rec(start+toks[i/n]+toks[i%n], d-2) {
				return
			}
		}
	})
	weird := []string{"", "-", "0", "-0", "-1", "1", "2147483647", "-2147483648", "2147483648", "4294967296", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "1e400", "-1e400", "NaN", "Inf", "-inf", "0x10", " 1", "1_0", "1.5", "4611686018427387904", "9223372036854775804", "-9223372036854775806", strings.Repeat("9", 400), "é"}
	t.Par("attribute-values", len(weird), func(b *vh.B, i int) {
		w := weird[i]
		for _, at := range []string{"x", "y", "opacity", "name", "visibility", "composite-op", "src"} {
			for _, w2 := range weird {
				for _, at2 := range []string{"x", "y", "opacity"} {
					for _, size := range []string{`w="3" h="2"`, `w="9223372036854775807" h="9223372036854775807"`, `w="-3" h="2"`} {
						s := fmt.Sprintf(`<image %s><stack><layer src="one.png" %s="%s"/><stack %s="%s"><layer src="one.png" %s="%s" %s="%s"/><layer src="data/a.png"/></stack></stack></image>`, size, at, w, at2, w2, at, w, at2, w2)
						if !hostile(b, s, archive(oraEntries(s)...)) {
							return
						}
					}
				}
			}
		}
		for _, w2 := range weird {
			s := fmt.Sprintf(`<image w="%s" h="%s"><stack><layer src="one.png" x="1"/><layer src="data/a.png"/></stack></image>`, w, w2)
			if !hostile(b, s, archive(oraEntries(s)...)) {
				return
			}
		}
	})
	depths := []int{1, 2, 10, 500, 999, 1000, 1001, 5000, 100000, vh.Pick(t, 3000000, 6000000)}
	t.Par("nesting", len(depths)*3, func(b *vh.B, i int) {
		d := depths[i%len(depths)]
		tag := []string{"stack", "layer", "x"}[i/len(depths)]
		open, cl := "<"+tag+">", "</"+tag+">"
		if tag == "layer" {
			open = `<layer src="one.png">`
		}
		for _, closed := range []bool{true, false} {
			s := `<image w="2" h="2"><stack>` + strings.Repeat(open, d)
			if closed {
				s += strings.Repeat(cl, d) + `</stack></image>`
			}
			data := archive(entry{"stack.xml", zip.Deflate, []byte(s)}, entry{"one.png", zip.Store, oraPNG["one.png"]})
			if !hostile(b, fmt.Sprintf("%d nested %s, closed %v", d, tag, closed), data) {
				return
			}
		}
		// as much nesting before the stack
		s := `<image w="2" h="2">` + strings.Repeat("<x>", d) + strings.Repeat("</x>", d) + `<stack/></image>`
		hostile(b, fmt.Sprintf("%d nested before the stack", d), archive(entry{"stack.xml", zip.Deflate, []byte(s)}))
	})
	var pics []string
	for n := range oraPNG {
		pics = append(pics, n)
	}
	sortStrings(pics)
	t.Par("picture-bytes", len(pics)*16, func(b *vh.B, i int) {
		name := pics[i/16]
		p := oraPNG[name]
		s := fmt.Sprintf(`<image w="4" h="4"><stack><layer src="%s"/><stack><layer src="%s" x="-1"/></stack></stack></image>`, name, name)
		put := func(what string, q []byte) bool {
			if len(q) >= 24 && string(q[12:16]) == "IHDR" && uint64(binary.BigEndian.Uint32(q[16:]))*uint64(binary.BigEndian.Uint32(q[20:])) > 1<<20 {
				return true
			}
			return hostile(b, name+" "+what, archive(entry{"stack.xml", zip.Store, []byte(s)}, entry{name, zip.Store, q}))
		}
		for o := i % 16; o < len(p); o += 16 {
			if !put(fmt.Sprintf("cut at %d", o), p[:o]) {
				return
			}
			step := vh.Pick(t, 29, 1)
			for v := 1; v < 256; v += step {
				q := bytes.Clone(p)
				q[o] ^= byte(v)
				if !put(fmt.Sprintf("byte %d xor %d", o, v), q) || !put(fmt.Sprintf("byte %d xor %d, checksums corrected", o, v), fixCRC(q)) {
					return
				}
			}
		}
	})
	t.Par("entries", 1, func(b *vh.B, _ int) {
		one := oraPNG["one.png"]
		st := []byte(`<image w="2" h="2"><stack><layer src="one.png"/></stack></image>`)
		for _, n1 := range []string{"stack.xml", "stack.xml/", "mimetype", "one.png", "../one.png", ""} {
			for _, d1 := range [][]byte{nil, st, one, []byte(mime)} {
				for _, n2 := range []string{"stack.xml", "mimetype", "one.png", "one.png/"} {
					for _, d2 := range [][]byte{nil, st, one, []byte(mime)} {
						if strings.HasSuffix(n1, "/") && d1 != nil || strings.HasSuffix(n2, "/") && d2 != nil {
							continue
						}
						for rot := 0; rot < 4; rot++ {
							es := []entry{{n1, zip.Store, d1}, {n2, zip.Store, d2}, {"stack.xml", zip.Deflate, st}, {"one.png", zip.Store, one}}
							es = append(es[rot:], es[:rot]...)
							if !hostile(b, fmt.Sprintf("entries %q %q rotated %d", n1, n2, rot), archive(es...)) {
								return
							}
						}
					}
				}
			}
		}
	})
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
