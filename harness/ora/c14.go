//go:build go1.22

package main

import (
	"archive/zip"
	"bytes"
	"errors"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"math"
	"strconv"
	"strings"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/ora"
	"vimagination.zapto.org/limage/zzverif/lim"
	"vimagination.zapto.org/limage/zzverif/vh"
)

var c14 = vh.Check{
	ID: "C14", Level: "exploration",
	Rule: "archives are written by an independent writer from every abstract stack of the stated alphabets (placement of nested layers, attribute values, every sequence of child tokens up to a length, entry order and compression) and the decoded tree is compared with the abstract one; distinct by the hash of the archive",
	Assume: []string{
		"pictures are PNG files; the document is UTF-8 without name space prefixes",
		"an opacity exactly half way between two steps may go either way",
	},
	Run: runC14,
}

// wnode is a layer or a stack as written into the document.
type wnode struct {
	stack    bool
	name     string
	x, y     int
	trans    []uint8 // any of these
	hidden   bool
	mode     limage.Composite
	src      string
	children []*wnode
}

type entry struct {
	name   string
	method uint16
	data   []byte
}

func archive(es ...entry) []byte {
	var buf bytes.Buffer
	zw := zip.NewWriter(&buf)
	for _, e := range es {
		w, err := zw.CreateHeader(&zip.FileHeader{Name: e.name, Method: e.method})
		if err != nil {
			panic(err)
		}
		w.Write(e.data)
	}
	zw.Close()
	return buf.Bytes()
}

func pngOf(m image.Image) []byte {
	var buf bytes.Buffer
	if err := png.Encode(&buf, m); err != nil {
		panic(err)
	}
	return buf.Bytes()
}

const mime = "image/openraster"

var oraPics = map[string]image.Image{}

func init() {
	r := image.Rect(0, 0, 3, 2)
	oraPics["data/a.png"] = lim.NRGBAOf(r, 1)
	oraPics["data/b.png"] = lim.NRGBAOf(r, 2)
	g := image.NewGray(image.Rect(0, 0, 2, 3))
	for i := range g.Pix {
		g.Pix[i] = uint8(40*i + 7)
	}
	oraPics["g.png"] = g
	p := image.NewPaletted(r, color.Palette{color.NRGBA{255, 0, 0, 255}, color.NRGBA{0, 200, 9, 255}, color.NRGBA{0, 0, 255, 255}})
	for i := range p.Pix {
		p.Pix[i] = uint8(i % 3)
	}
	oraPics["data/deep/p.png"] = p
	n := image.NewNRGBA64(r)
	for i := range n.Pix {
		n.Pix[i] = uint8(i*37 + 11)
	}
	oraPics["n 16.png"] = n
	oraPics["one.png"] = lim.NRGBAOf(image.Rect(0, 0, 1, 1), 4)
}

var oraPNG = map[string][]byte{}

func oraEntries(stack string) []entry {
	es := []entry{{"mimetype", zip.Store, []byte(mime)}, {"stack.xml", zip.Deflate, []byte(stack)}}
	for _, n := range []string{"data/a.png", "data/b.png", "g.png", "data/deep/p.png", "n 16.png", "one.png"} {
		if strings.Contains(stack, n) {
			es = append(es, entry{n, zip.Store, oraPNG[n]})
		}
	}
	return es
}

// checkTree compares a decoded tree with what was written. Offsets of the
// enclosing stacks sum up in off, those of the decoded groups in dOff.
func checkTree(b *vh.B, what string, want []*wnode, got limage.Image, off, dOff image.Point, canvas image.Rectangle) bool {
	if len(want) != len(got) {
		b.Fail("tree", "%s: %d layers, want %d", what, len(got), len(want))
		return false
	}
	for i, w := range want {
		g := got[i]
		ok := false
		for _, t := range w.trans {
			ok = ok || t == g.Transparency
		}
		if len(w.trans) == 0 {
			ok = g.Transparency == 0
		}
		if !ok {
			b.Fail("opacity", "%s: layer %d has transparency %d, want %v", what, i, g.Transparency, w.trans)
			return false
		}
		if g.Name != w.name || g.Invisible != w.hidden || g.Mode != w.mode {
			b.Fail("attributes", "%s: layer %d is %q hidden %v %v, want %q %v %v", what, i, g.Name, g.Invisible, g.Mode, w.name, w.hidden, w.mode)
			return false
		}
		gg, isG := group(g.Image)
		if isG != w.stack {
			b.Fail("tree", "%s: layer %d is a group: %v, want %v", what, i, isG, w.stack)
			return false
		}
		at := off.Add(image.Pt(w.x, w.y))
		lb := g.LayerBounds.Add(dOff)
		if isG {
			if !checkTree(b, what, w.children, gg, at, lb.Min, canvas) {
				return false
			}
			continue
		}
		pic := oraPics[w.src]
		want := pic.Bounds().Add(at).Intersect(canvas)
		if want.Empty() && lb.Empty() {
			continue
		}
		if lb != want {
			b.Fail("position", "%s: layer %d is at %v, want %v", what, i, lb, want)
			return false
		}
		for y := want.Min.Y; y < want.Max.Y; y++ {
			for x := want.Min.X; x < want.Max.X; x++ {
				if lim.Dist(g.Image.At(x-lb.Min.X, y-lb.Min.Y), pic.At(x-at.X, y-at.Y)) != 0 {
					b.Fail("pixel", "%s: layer %d at (%d,%d) is %v, want %v", what, i, x, y, g.Image.At(x-lb.Min.X, y-lb.Min.Y), pic.At(x-at.X, y-at.Y))
					return false
				}
			}
		}
	}
	return true
}

func groupBounds(b *vh.B, what string, got limage.Image) bool {
	for i, l := range got {
		if g, ok := group(l.Image); ok {
			if g.Bounds().Size() != l.LayerBounds.Size() && !(g.Bounds().Empty() && l.LayerBounds.Empty()) {
				b.Fail("group-bounds", "%s: group %d has bounds %v around layers of %v", what, i, l.LayerBounds, g.Bounds())
				return false
			}
			if !groupBounds(b, what, g) {
				return false
			}
		}
	}
	return true
}

func checkDoc(b *vh.B, doc string, want []*wnode, canvas image.Point) bool {
	return checkArch(b, doc, archive(oraEntries(doc)...), want, canvas)
}

func checkArch(b *vh.B, doc string, data []byte, want []*wnode, canvas image.Point) bool {
	b.EvalH(vh.HashBytes(data))
	zr, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		panic(err)
	}
	m, err := ora.Decode(zr)
	if err != nil {
		b.Fail("error", "%s: %v", doc, err)
		return false
	}
	c, err := ora.DecodeConfig(zr)
	if err != nil || c.Width != canvas.X || c.Height != canvas.Y {
		b.Fail("config", "%s: DecodeConfig gives %dx%d, %v", doc, c.Width, c.Height, err)
		return false
	}
	return checkTree(b, doc, want, m, image.Point{}, image.Point{}, image.Rectangle{Max: canvas}) && groupBounds(b, doc, m)
}

const head = `<?xml version="1.0" encoding="UTF-8"?>` + "\n"

func leaf(src string) *wnode { return &wnode{src: src} }

// tokens of the structure stage; open and close change the depth.
type token struct {
	text  string
	delta int
	src   string
}

var tokens = []token{
	{`<layer src="data/a.png" name="a"/>`, 0, "data/a.png"},
	{`<layer x="1" name="g" src="g.png" y="0"></layer>`, 0, "g.png"},
	{`<stack>`, 1, ""},
	{`</stack>`, -1, ""},
	{`<!-- <layer src="x"/> -->`, 0, ""},
	{`<filter a="b"><layer src="nowhere"/><stack><layer/></stack></filter>`, 0, ""},
	{"some &amp; text", 0, ""},
	{`<layer src="one.png" name="1" y="2"><layer src="nowhere"/>x<stack/></layer>`, 0, "one.png"},
	{`<?pi stack?><![CDATA[<layer>]]>`, 0, ""},
	{`<stack/>`, 0, "stack"},
}

func build(seq []token) ([]*wnode, string, bool) {
	root := &wnode{stack: true}
	path := []*wnode{root}
	var s strings.Builder
	for _, k := range seq {
		s.WriteString(k.text)
		top := path[len(path)-1]
		switch {
		case k.delta > 0:
			n := &wnode{stack: true}
			top.children = append(top.children, n)
			path = append(path, n)
		case k.delta < 0:
			if len(path) == 1 {
				return nil, "", false
			}
			path = path[:len(path)-1]
		case k.src == "stack":
			top.children = append(top.children, &wnode{stack: true})
		case k.src == "g.png":
			top.children = append(top.children, &wnode{name: "g", x: 1, src: k.src})
		case k.src == "one.png":
			top.children = append(top.children, &wnode{name: "1", y: 2, src: k.src})
		case k.src != "":
			top.children = append(top.children, &wnode{name: "a", src: k.src})
		}
	}
	return root.children, s.String(), len(path) == 1
}

func runC14(t *vh.T) {
	for n, m := range oraPics {
		oraPNG[n] = pngOf(m)
	}
	canvas := image.Pt(5, 4)
	hdr := `<image w="5" h="4">`
	t.Par("placement", 12*10, func(b *vh.B, i int) {
		x, y := i%12-5, i/12-4
		for gx := -4; gx <= 4; gx += vh.Pick(t, 2, 1) {
			for gy := -3; gy <= 3; gy += vh.Pick(t, 3, 1) {
				doc := fmt.Sprintf(`%s%s<stack><layer src="data/a.png" x="%d" y="%d"/><stack x="%d" y="%d"><layer y="%d" x="%d" src="data/b.png"/><stack x="%d" y="1"><layer src="g.png" x="%d"/><layer src="one.png"/></stack></stack></stack></image>`, head, hdr, x, y, gx, gy, y, x, x, gx)
				a, c, d := leaf("data/a.png"), leaf("data/b.png"), leaf("g.png")
				a.x, a.y, c.x, c.y, d.x = x, y, x, y, gx
				want := []*wnode{a, {stack: true, x: gx, y: gy, children: []*wnode{c, {stack: true, x: x, y: 1, children: []*wnode{d, leaf("one.png")}}}}}
				if !checkDoc(b, doc, want, canvas) {
					return
				}
			}
		}
		if i == 50 {
			t.Sample(fmt.Sprintf("layer at (%d,%d) and inside stacks at every offset", x, y))
		}
	})
	t.Par("opacity", 256, func(b *vh.B, k int) {
		var strs []string
		o := float64(k) / 255
		for _, f := range []string{"%g", "%.4f", "%.6f", "%.17g", "%e", "%.3f", "%.2f"} {
			strs = append(strs, fmt.Sprintf(f, o))
		}
		strs = append(strs, fmt.Sprintf("%.6f", (float64(k)+0.4)/255.9), fmt.Sprintf("%.9f", math.Max(0, (float64(k)-0.4)/255)))
		if k == 0 {
			strs = append(strs, "1", "1.0", "0", "0.0", ".5", "1.", "5e-1", "0.999999", "0.001", "0.002", "-0", "1e0", "00.5")
		}
		for _, s := range strs {
			f, err := strconv.ParseFloat(s, 64)
			if err != nil {
				panic(err)
			}
			v := math.Floor(255*f + .5)
			tr := []uint8{255 - uint8(v)}
			if d := math.Abs(255*f - math.Floor(255*f) - .5); d < 1e-9 {
				tr = append(tr, 255-uint8(math.Floor(255*f)), 255-uint8(math.Ceil(255*f)))
			}
			doc := fmt.Sprintf(`%s<stack><layer src="one.png" opacity="%s"/><stack opacity="%s"><layer opacity="1" src="one.png"/></stack></stack></image>`, hdr, s, s)
			l := leaf("one.png")
			l.trans = tr
			if !checkDoc(b, doc, []*wnode{l, {stack: true, trans: tr, children: []*wnode{leaf("one.png")}}}, canvas) {
				return
			}
		}
	})
	type vis struct {
		s      string
		hidden bool
	}
	viss := []vis{{"", false}, {` visibility="visible"`, false}, {` visibility="hidden"`, true}, {` visibility="collapse"`, false}}
	t.Par("attributes", len(oraOps)+3, func(b *vh.B, i int) {
		op, mode := "", limage.CompositeNormal
		switch {
		case i < len(oraOps):
			op, mode = fmt.Sprintf(` composite-op="%s"`, oraOps[i]), oraModes[i]
		case i == len(oraOps):
			op = ` composite-op="x:unknown"`
		case i == len(oraOps)+1:
			op = ` composite-op=""`
		}
		for ni, name := range []string{"", ` name=""`, ` name="n"`, ` name="a &lt;&quot;&#x41; b"`, " name='日本'"} {
			nm := []string{"", "", "n", `a <"A b`, "日本"}[ni]
			for _, v := range viss {
				for _, extra := range []string{"", ` selected="true"`, ` zz='"' edit-locked="x"`} {
					for order := 0; order < 3; order++ {
						attrs := [][]string{{op, name, v.s, extra}, {extra, v.s, op, name}, {name, extra, op, v.s}}[order]
						at := strings.Join(attrs, "")
						doc := hdr + `<stack><layer src="data/a.png"` + at + ` /><stack` + at + `><layer` + at + ` src="one.png"/></stack></stack></image>`
						mk := func(src string) *wnode { return &wnode{src: src, name: nm, mode: mode, hidden: v.hidden} }
						g := mk("")
						g.stack, g.children = true, []*wnode{mk("one.png")}
						if !checkDoc(b, doc, []*wnode{mk("data/a.png"), g}, canvas) {
							return
						}
					}
				}
			}
		}
	})
	// Long names.
	t.Par("names", 1, func(b *vh.B, _ int) {
		for _, n := range []int{63, 64, 127, 128, 255, 256, 257, 1025, 65535, 65537, 200000} {
			nm := strings.Repeat("ab", n/2) + "c"[:n%2]
			doc := fmt.Sprintf(`%s<stack><layer src="one.png" name="%s"/><stack name="%s"/></stack></image>`, hdr, nm, nm)
			if !checkDoc(b, doc, []*wnode{{src: "one.png", name: nm}, {stack: true, name: nm}}, canvas) {
				return
			}
		}
	})
	depth := vh.Pick(t, 4, 6)
	n := len(tokens)
	t.Par("structure", n*n*n, func(b *vh.B, i int) {
		var rec func(seq []token, left int) bool
		rec = func(seq []token, left int) bool {
			if nodes, body, ok := build(seq); ok {
				if !checkDoc(b, head+hdr+"<stack>"+body+"</stack></image>", nodes, canvas) {
					return false
				}
			}
			if left == 0 || b.Stop() {
				return true
			}
			for _, k := range tokens {
				if !rec(append(seq[:len(seq):len(seq)], k), left-1) {
					return false
				}
			}
			return true
		}
		if i == 0 {
			for _, x := range tokens {
				for _, y := range tokens {
					rec([]token{x, y}, 0)
				}
				rec([]token{x}, 0)
			}
			rec(nil, 0)
		}
		rec([]token{tokens[i%n], tokens[i/n%n], tokens[i/n/n]}, depth-3)
	})
	// Many children, and stacks within stacks.
	counts := vh.Pick(t, []int{15, 16, 17, 31, 33, 64, 65, 127, 129, 257, 1025}, []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1025, 4097})
	t.Par("many", len(counts)*4, func(b *vh.B, i int) {
		n := counts[i/4]
		var s strings.Builder
		var kids []*wnode
		for j := 0; j < n; j++ {
			x := j%5 - 1
			if i%4 == 1 || i%4 == 3 && j%2 == 0 {
				fmt.Fprintf(&s, `<stack name="%d" x="%d"><layer src="one.png"/></stack>`, j, x)
				kids = append(kids, &wnode{stack: true, name: fmt.Sprint(j), x: x, children: []*wnode{leaf("one.png")}})
			} else {
				fmt.Fprintf(&s, `<layer src="one.png" name="%d" x="%d"/>`, j, x)
				kids = append(kids, &wnode{src: "one.png", name: fmt.Sprint(j), x: x})
			}
		}
		body := s.String()
		if i%4 == 2 {
			body, kids = `<stack>`+body+`</stack>`, []*wnode{{stack: true, children: kids}}
		}
		checkDoc(b, head+hdr+"<stack>"+body+"</stack></image>", kids, canvas)
	})
	depths := vh.Pick(t, []int{9, 15, 17, 31, 33, 65, 101, 129, 257, 900}, []int{9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 513, 900})
	t.Par("deep", len(depths)*2, func(b *vh.B, i int) {
		body, kids := `<layer src="one.png" name="in"/>`, []*wnode{{src: "one.png", name: "in"}}
		for j := 0; j < depths[i/2]; j++ {
			body, kids = fmt.Sprintf(`<stack name="%d">%s</stack>`, j, body), []*wnode{{stack: true, name: fmt.Sprint(j), children: kids}}
			if i%2 == 1 {
				body += `<layer src="one.png"/>`
				kids = append(kids, leaf("one.png"))
			}
		}
		checkDoc(b, head+hdr+"<stack>"+body+"</stack></image>", kids, canvas)
	})
	t.Par("outside", 1, func(b *vh.B, _ int) {
		st := `<stack><layer src="one.png"/></stack>`
		want := []*wnode{leaf("one.png")}
		junk := []string{"", "text", "<!-- <stack> -->", "<meta/>", "<meta><stack><layer src='nowhere'/></stack></meta>", "<layer src='data/a.png'/>", "<?x y?>"}
		for _, j1 := range junk {
			for _, j2 := range junk {
				for _, tail := range append([]string{`<stack><layer src="data/a.png"/></stack>`, `<stack/>`}, junk...) {
					for _, h := range []string{`<image w="5" h="4">`, `<image h="4" w="5" xres="600" version="0.0.3">`, "\n<!-- c --><image\nw='5' h='4' name='x'>", head + `<!DOCTYPE x><image w="5" h="4">`} {
						if !checkDoc(b, h+j1+j2+st+tail+"</image>", want, canvas) {
							return
						}
					}
				}
			}
		}
	})
	t.Par("sources", 1, func(b *vh.B, _ int) {
		var names []string
		for n := range oraPNG {
			names = append(names, n)
		}
		for _, n1 := range names {
			for _, n2 := range names {
				doc := fmt.Sprintf(`%s<stack><layer src="%s"/><layer src="%s" x="1"/><layer src="%s"/></stack></image>`, hdr, n1, n2, n1)
				w := leaf(n2)
				w.x = 1
				want := []*wnode{leaf(n1), w, leaf(n1)}
				es := oraEntries(doc)
				for rot := range es {
					for _, method := range []uint16{zip.Store, zip.Deflate} {
						var o []entry
						for k := range es {
							e := es[(k+rot)%len(es)]
							e.method = method
							o = append(o, e, entry{fmt.Sprint("unused", k), method, []byte("junk")})
						}
						if !checkArch(b, doc, archive(o...), want, canvas) {
							return
						}
					}
				}
			}
		}
	})
	t.Par("canvas", 1, func(b *vh.B, _ int) {
		for _, w := range []int{1, 2, 3, 7, 1000, 65536, 1 << 30} {
			for _, h := range []int{1, 2, 3, 7, 1000, 65536, 1 << 30} {
				doc := fmt.Sprintf(`<image w="%d" h="%d"><stack><layer src="data/a.png" x="1" y="-1"/></stack></image>`, w, h)
				a := leaf("data/a.png")
				a.x, a.y = 1, -1
				if !checkDoc(b, doc, []*wnode{a}, image.Pt(w, h)) {
					return
				}
			}
		}
	})
	t.Par("errors", 1, func(b *vh.B, _ int) {
		good := `<image w="5" h="4"><stack><layer src="data/a.png"/></stack></image>`
		pic := entry{"data/a.png", zip.Store, oraPNG["data/a.png"]}
		mt := entry{"mimetype", zip.Store, []byte(mime)}
		xmlE := func(s string) entry { return entry{"stack.xml", zip.Deflate, []byte(s)} }
		type tc struct {
			what     string
			es       []entry
			dec, cfg error // nil: no error; errAny: any
		}
		errAny := errors.New("any")
		var cases []tc
		cases = append(cases,
			tc{"no stack.xml", []entry{mt, pic}, ora.ErrMissingStack, ora.ErrMissingStack},
			tc{"stack.xml elsewhere", []entry{mt, {"data/stack.xml", zip.Store, []byte(good)}, pic}, ora.ErrMissingStack, ora.ErrMissingStack},
			tc{"empty archive", nil, ora.ErrMissingStack, ora.ErrMissingStack},
			tc{"no picture", []entry{mt, xmlE(good)}, ora.ErrInvalidSource, nil},
			tc{"picture elsewhere", []entry{mt, xmlE(good), {"a.png", zip.Store, pic.data}}, ora.ErrInvalidSource, nil},
			tc{"picture in another case", []entry{mt, xmlE(good), {"data/A.png", zip.Store, pic.data}}, ora.ErrInvalidSource, nil},
			tc{"picture no image", []entry{mt, xmlE(good), {"data/a.png", zip.Store, []byte("not a picture")}}, errAny, nil},
			tc{"good", []entry{mt, xmlE(good), pic}, nil, nil},
		)
		for _, m := range []string{"", "image/openraste", "image/openrasteR", "image/openraster\n", "image/openraster ", "application/zip", "xmage/openraster", strings.Repeat(mime, 9)} {
			for _, me := range []uint16{zip.Store, zip.Deflate} {
				e := entry{"mimetype", me, []byte(m)}
				cases = append(cases, tc{"mimetype " + m, []entry{e, xmlE(good), pic}, ora.ErrInvalidMimeType, ora.ErrInvalidMimeType},
					tc{"mimetype last " + m, []entry{xmlE(good), pic, e}, ora.ErrInvalidMimeType, ora.ErrInvalidMimeType})
			}
		}
		for _, s := range []string{`<image w="5"><stack/></image>`, `<image h="5"><stack/></image>`, `<image><stack/></image>`, `<picture w="5" h="4"><stack/></picture>`, ``, `text`, `<!-- <image w="1" h="1"/> -->`, `<stack><layer src="data/a.png"/></stack>`, `<x><image w="5" h="4"/></x>`, `<image W="5" H="4"><stack/></image>`} {
			cases = append(cases, tc{"document " + s, []entry{mt, xmlE(s), pic}, ora.ErrInvalidStack, ora.ErrInvalidStack})
		}
		for _, s := range []string{`<image w="5x" h="4"><stack/></image>`, `<image w="5" h=""><stack/></image>`, `<image w="1.5" h="1"><stack/></image>`, `<image w="5" h="4`} {
			cases = append(cases, tc{"document " + s, []entry{mt, xmlE(s), pic}, errAny, errAny})
		}
		for _, s := range []string{`<image w="5" h="4"/>`, `<image w="5" h="4"></image>`, `<image w="5" h="4"><layer src="data/a.png"/></image>`, `<image w="5" h="4"><stack>`, `<image w="5" h="4"><stack><layer src="data/a.png">`, `<image w="5" h="4"><stack><layer src="data/a.png"/>`, `<image w="5" h="4"><stack><stack></image>`, `<image w="5" h="4"><stack></layer></stack></image>`} {
			cases = append(cases, tc{"document " + s, []entry{mt, xmlE(s), pic}, errAny, nil})
		}
		for _, at := range []string{`x="a"`, `y="1.5"`, `opacity="half"`, `opacity=""`, `x=""`} {
			for _, el := range []string{`<layer src="data/a.png" %s/>`, `<stack %s/>`, `<stack><layer %s src="data/a.png"/></stack>`} {
				cases = append(cases, tc{"attribute " + at, []entry{mt, xmlE(`<image w="5" h="4"><stack>` + fmt.Sprintf(el, at) + `</stack></image>`), pic}, errAny, nil})
			}
		}
		for _, el := range []string{`<layer/>`, `<layer src=""/>`, `<layer src="data/b.png"/>`, `<layer name="data/a.png"/>`, `<layer src="/data/a.png"/>`} {
			cases = append(cases, tc{"source " + el, []entry{mt, xmlE(`<image w="5" h="4"><stack>` + el + `</stack></image>`), pic}, ora.ErrInvalidSource, nil},
				tc{"nested source " + el, []entry{mt, xmlE(`<image w="5" h="4"><stack><layer src="data/a.png"/><stack>` + el + `</stack></stack></image>`), pic}, ora.ErrInvalidSource, nil})
		}
		match := func(err, want error) bool {
			switch want {
			case nil:
				return err == nil
			case errAny:
				return err != nil
			}
			return errors.Is(err, want)
		}
		for _, c := range cases {
			data := archive(c.es...)
			b.EvalH(vh.HashBytes(data))
			zr, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
			if err != nil {
				panic(err)
			}
			if m, err := ora.Decode(zr); !match(err, c.dec) || err != nil && m != nil {
				b.Fail("decode-error", "%s: Decode gives %v, %v, want %v", c.what, m, err, c.dec)
				return
			}
			if _, err := ora.DecodeConfig(zr); !match(err, c.cfg) {
				b.Fail("config-error", "%s: DecodeConfig gives %v, want %v", c.what, err, c.cfg)
				return
			}
		}
	})
	// Archives of many entries, with those that matter anywhere.
	sizes := vh.Pick(t, []int{3, 9, 17, 33, 65, 101, 129, 257, 1025}, []int{3, 5, 9, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 255, 256, 257, 513, 1025, 5000})
	t.Par("many-entries", len(sizes), func(b *vh.B, i int) {
		n := sizes[i]
		doc := `<image w="5" h="4"><stack><layer src="data/a.png"/></stack></image>`
		pic := entry{"data/a.png", zip.Store, oraPNG["data/a.png"]}
		var fill []entry
		for k := 0; k < n; k++ {
			fill = append(fill, entry{fmt.Sprintf("data/%d.png", k), zip.Store, []byte("other")})
		}
		at := []int{0, 1, n / 2, n - 1, n}
		put := func(es []entry, e entry, k int) []entry {
			return append(append(append([]entry{}, es[:k]...), e), es[k:]...)
		}
		for _, sp := range at {
			for _, pp := range at {
				for _, mp := range at {
					for kind, m := range []string{mime, "image/openrasters", "image/png"} {
						es := put(put(fill, pic, pp), entry{"stack.xml", zip.Deflate, []byte(doc)}, sp)
						es = put(es, entry{"mimetype", zip.Store, []byte(m)}, mp)
						if kind == 0 {
							if !checkArch(b, doc, archive(es...), []*wnode{leaf("data/a.png")}, canvas) {
								return
							}
							continue
						}
						data := archive(es...)
						b.EvalH(vh.HashBytes(data))
						zr, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
						if err != nil {
							panic(err)
						}
						_, e1 := ora.Decode(zr)
						_, e2 := ora.DecodeConfig(zr)
						if !errors.Is(e1, ora.ErrInvalidMimeType) || !errors.Is(e2, ora.ErrInvalidMimeType) {
							b.Fail("mimetype", "a mimetype of %q at %d of %d entries: Decode gives %v, DecodeConfig %v", m, mp, len(es), e1, e2)
							return
						}
					}
				}
				// Without a picture, and without a stack.
				es := put(fill, entry{"stack.xml", zip.Deflate, []byte(doc)}, sp)
				zr, _ := zip.NewReader(bytes.NewReader(archive(es...)), int64(len(archive(es...))))
				if _, err := ora.Decode(zr); !errors.Is(err, ora.ErrInvalidSource) {
					b.Fail("no-picture", "no picture among %d entries: Decode gives %v", len(es), err)
					return
				}
				es = put(fill, pic, pp)
				zr, _ = zip.NewReader(bytes.NewReader(archive(es...)), int64(len(archive(es...))))
				if _, err := ora.Decode(zr); !errors.Is(err, ora.ErrMissingStack) {
					b.Fail("no-stack", "no stack.xml among %d entries: Decode gives %v", len(es), err)
					return
				}
				b.Eval(2, 2)
			}
		}
	})
}
