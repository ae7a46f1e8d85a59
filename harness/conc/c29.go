//go:build go1.22

package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"hash/fnv"
	"image"
	"image/color"
	"io"
	"sync"

	"verif.local/vsched"
	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/ora"
	"vimagination.zapto.org/limage/xcf"
	"vimagination.zapto.org/limage/zzverif/lim"
	"vimagination.zapto.org/limage/zzverif/vh"
)

var c29 = vh.Check{
	ID: "C29", Level: "exploration",
	Rule: "every ordered pair of operations of the alphabet (reading pixels, converting colours, cropping, encoding and decoding in both formats, configurations, the registry, composing in every mode), on pictures of their own and, where both only read, on the same one, of every kind: with the race detector, which sees every conflicting access that nothing orders whatever the schedule was, and under every schedule with one preemption at any statement of the library; each must give what it gives alone; distinct by construction",
	Assume: []string{
		"schedules are explored at the granularity of statements, with sync and sync/atomic replaced by models of them",
		"the result of Dissolve is random: it is judged by being one of those there can be",
		"vimagination.zapto.org/byteio, memio and parser cannot be fetched here; stand-ins written from their documentation are used",
	},
	Run: runC29, Races: racesC29,
}

// subject is what operations are made on: a picture and files of it.
type subject struct {
	m        image.Image
	xcf, ora []byte
	xr       *bytes.Reader
	zr       *zip.Reader
	salt     int
}

type op struct {
	name  string
	write bool // changes the picture
	run   func(s *subject) string
}

func sum(f func(w io.Writer)) string {
	h := fnv.New64a()
	f(h)
	return fmt.Sprintf("%016x", h.Sum64())
}

func pixels(m image.Image) string {
	return sum(func(w io.Writer) {
		b := m.Bounds()
		fmt.Fprint(w, b)
		for y := b.Min.Y - 1; y <= b.Max.Y; y++ {
			for x := b.Min.X - 1; x <= b.Max.X; x++ {
				c := lim.Straight(m.At(x, y))
				fmt.Fprintln(w, c.R, c.G, c.B, c.A)
			}
		}
	})
}

func content(m limage.Image, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	var s bytes.Buffer
	lim.Content(&s, m)
	return sum(func(w io.Writer) { w.Write(s.Bytes()) })
}

// file is an io.WriterAt.
type file []byte

func (f *file) WriteAt(p []byte, off int64) (int, error) {
	if n := int(off) + len(p) - len(*f); n > 0 {
		*f = append(*f, make([]byte, n)...)
	}
	return copy((*f)[off:], p), nil
}

// seekOnly hides everything but reading and seeking.
type seekOnly struct{ io.ReadSeeker }

func archive(d []byte) *zip.Reader {
	zr, err := zip.NewReader(bytes.NewReader(d), int64(len(d)))
	if err != nil {
		panic(err)
	}
	return zr
}

var colours = []color.Color{color.NRGBA{200, 100, 50, 128}, color.RGBA64{0x1000, 0x2000, 0x3000, 0x4000}, color.Gray{77}, lcolor.HSLA{H: 0x1234, S: 0x8000, L: 0x9000, A: 0xffff}, lcolor.HSVA{H: 0x1234, S: 0x8000, V: 0x9000, A: 0xffff}, lcolor.RGB{R: 1, G: 2, B: 3}, lcolor.GrayAlpha{Y: 9, A: 200}, color.Alpha{33}}

var ops = []op{
	{"At", false, func(s *subject) string { return pixels(s.m) }},
	{"colours", false, func(s *subject) string {
		return sum(func(w io.Writer) {
			model := s.m.ColorModel()
			for i, c := range colours {
				fmt.Fprintln(w, model.Convert(c), lcolor.RGBToHSL(c), lcolor.RGBToHSV(c), lcolor.GrayAlphaModel.Convert(c), lcolor.RGBModel.Convert(c), lcolor.AlphaPalette(lim.Pal).Index(c), i+s.salt)
			}
		})
	}},
	{"Opaque", false, func(s *subject) string {
		if o, ok := s.m.(interface{ Opaque() bool }); ok {
			return fmt.Sprint(o.Opaque())
		}
		return "none"
	}},
	{"SubImage", false, func(s *subject) string {
		sub, ok := s.m.(interface {
			SubImage(image.Rectangle) image.Image
		})
		if !ok {
			return "none"
		}
		b := s.m.Bounds()
		if b.Dx() > 1 {
			b.Min.X++
		}
		return pixels(sub.SubImage(b))
	}},
	{"xcf.Encode", false, func(s *subject) string {
		var f file
		err := xcf.Encode(&f, s.m)
		return fmt.Sprint(sum(func(w io.Writer) { w.Write(f) }), err)
	}},
	{"ora.Encode", false, func(s *subject) string {
		var f bytes.Buffer
		if err := ora.Encode(&f, s.m); err != nil {
			return "error " + err.Error()
		}
		return sum(func(w io.Writer) {
			// without the times
			for _, e := range archive(f.Bytes()).File {
				r, err := e.Open()
				if err == nil {
					_, err = io.Copy(w, r)
				}
				fmt.Fprintln(w, e.Name, e.Method, err)
			}
		})
	}},
	{"xcf.Decode", false, func(s *subject) string { return content(xcf.Decode(s.xr)) }},
	{"xcf.DecodeCompressed", false, func(s *subject) string { return content(xcf.DecodeCompressed(s.xr)) }},
	{"xcf.DecodeConfig", false, func(s *subject) string {
		c, err := xcf.DecodeConfig(s.xr)
		return fmt.Sprint(c.Width, c.Height, err)
	}},
	{"image.Decode", false, func(s *subject) string {
		m, f, err := image.Decode(seekOnly{bytes.NewReader(s.xcf)})
		if err != nil {
			return "error " + err.Error()
		}
		return f + pixels(m)
	}},
	{"ora.Decode", false, func(s *subject) string { return content(ora.Decode(s.zr)) }},
	{"ora.DecodeConfig", false, func(s *subject) string {
		c, err := ora.DecodeConfig(s.zr)
		return fmt.Sprint(c.Width, c.Height, err)
	}},
	{"broken xcf", false, func(s *subject) string { return content(xcf.Decode(bytes.NewReader(s.xcf[:len(s.xcf)-9-s.salt]))) }},
	{"broken ora", false, func(s *subject) string {
		d := append([]byte(nil), s.ora...)
		d[60+s.salt] ^= 0x55
		zr, err := zip.NewReader(bytes.NewReader(d), int64(len(d)))
		if err != nil {
			return "no archive"
		}
		_, err = ora.Decode(zr)
		return fmt.Sprint(err)
	}},
	{"compose", false, func(s *subject) string {
		return sum(func(w io.Writer) {
			b := s.m.Bounds()
			top := limage.Layer{LayerBounds: image.Rectangle{Max: b.Size()}, Transparency: uint8(30 + s.salt), Image: s.m}
			base := limage.Layer{LayerBounds: image.Rect(0, 0, 2, 2), Image: lim.NRGBAOf(image.Rect(0, 0, 2, 2), s.salt)}
			for mode := limage.CompositeNormal; mode <= limage.CompositeDestinationAtop; mode++ {
				if mode == limage.CompositeDissolve {
					continue
				}
				top.Mode = mode
				fmt.Fprintln(w, lim.Straight(limage.Image{top, base}.At(b.Min.X, b.Min.Y)))
			}
		})
	}},
	{"dissolve", false, func(s *subject) string {
		b := s.m.Bounds()
		base := limage.Layer{LayerBounds: image.Rectangle{Max: b.Size()}, Image: lim.NRGBAOf(image.Rectangle{Max: b.Size()}, s.salt)}
		top := limage.Layer{LayerBounds: base.LayerBounds, Mode: limage.CompositeDissolve, Transparency: 100, Image: lim.NRGBAOf(base.LayerBounds, s.salt+1)}
		g := limage.Image{top, base}
		for i := 0; i < 3; i++ {
			x := i % b.Dx()
			got, over, under := lim.Straight(g.At(x, 0)), lim.Straight(top.At(x, 0)), lim.Straight(limage.Image{base}.At(x, 0))
			if over.A != 0 {
				over.A = 0xffff
				if got == over {
					continue
				}
			}
			if got != under {
				return fmt.Sprintf("%v dissolved over %v is %v", over, under, got)
			}
		}
		return "one of the two"
	}},
	{"Set", true, func(s *subject) string {
		m, ok := s.m.(interface{ Set(x, y int, c color.Color) })
		if !ok {
			return "none"
		}
		b := s.m.Bounds()
		for i, c := range colours {
			m.Set(b.Min.X+i%b.Dx(), b.Min.Y, c)
		}
		return pixels(s.m)
	}},
	{"text", false, func(s *subject) string {
		d := limage.TextData{{Data: fmt.Sprint("a<b&c>", s.salt), Font: "Sans", Size: uint32(9 + s.salt), Bold: true, ForeColor: lcolor.RGB{R: 1}, BackColor: color.Alpha{}}, {Data: "z", Font: "Serif", Size: 7, Italic: true, ForeColor: lcolor.RGB{G: 200}, BackColor: color.Alpha{}}}
		m := limage.Image{{Name: "t", LayerBounds: image.Rect(0, 0, 1, 1), Image: limage.Text{Image: lim.NRGBAOf(image.Rect(0, 0, 1, 1), s.salt), TextData: d}}}
		var f file
		if err := xcf.Encode(&f, m); err != nil {
			return "error " + err.Error()
		}
		return d.String() + content(xcf.Decode(bytes.NewReader(f)))
	}},
}

// kinds of pictures, among them those that the decoders give.
func kinds() []lim.Kind {
	ks := lim.Kinds()
	layers := func(r image.Rectangle, salt int) limage.Image {
		return limage.Image{
			{Name: "g", LayerBounds: r, Mode: limage.CompositeScreen, Transparency: 9, Image: limage.Image{{Name: "in", LayerBounds: image.Rectangle{Max: r.Size()}, Image: lim.NRGBAOf(image.Rectangle{Max: r.Size()}, salt)}}},
			{Name: "m", LayerBounds: r, Image: limage.MaskedImage{Image: lim.NRGBAOf(image.Rectangle{Max: r.Size()}, salt+1), Mask: lim.MaskOf(image.Rectangle{Max: r.Size()}, salt)}},
		}
	}
	for _, n := range []string{"xcf.Decode", "xcf.DecodeCompressed", "ora.Decode"} {
		ks = append(ks, lim.Kind{Name: "from " + n, Make: func(r image.Rectangle, salt int) image.Image {
			m := layers(r, salt)
			var (
				d   limage.Image
				err error
			)
			switch n {
			case "ora.Decode":
				var f bytes.Buffer
				if err = ora.Encode(&f, m); err == nil {
					d, err = ora.Decode(archive(f.Bytes()))
				}
			default:
				var f file
				if err = xcf.Encode(&f, m); err == nil {
					if n == "xcf.Decode" {
						d, err = xcf.Decode(bytes.NewReader(f))
					} else {
						d, err = xcf.DecodeCompressed(bytes.NewReader(f))
					}
				}
			}
			if err != nil {
				panic(err)
			}
			return d
		}})
	}
	return ks
}

type files struct{ xcf, ora []byte }

var (
	cached = map[string]files{}
	alone  = map[string]string{} // results of operations
	cacheM sync.Mutex
)

func filesOf(k lim.Kind, r image.Rectangle, salt int) files {
	key := fmt.Sprint(k.Name, r, salt)
	cacheM.Lock()
	f, ok := cached[key]
	cacheM.Unlock()
	if ok {
		return f
	}
	m := k.Make(r, salt)
	var x file
	if err := xcf.Encode(&x, m); err != nil {
		panic(err)
	}
	var o bytes.Buffer
	if err := ora.Encode(&o, m); err != nil {
		panic(err)
	}
	f = files{x, o.Bytes()}
	cacheM.Lock()
	cached[key] = f
	cacheM.Unlock()
	return f
}

func (f files) subject(k lim.Kind, r image.Rectangle, salt int) *subject {
	return &subject{k.Make(r, salt), f.xcf, f.ora, bytes.NewReader(f.xcf), archive(f.ora), salt}
}

// pair explores two operations at the same time.
func pair(t *vh.T, b *vh.B, k lim.Kind, r image.Rectangle, p, q op, shared bool, bound, part, parts int) bool {
	salts := [2]int{3, 4}
	if shared {
		salts[1] = 3
	}
	var fs [2]files
	for i := range fs {
		if i == 1 && shared {
			fs[1] = fs[0]
		} else {
			fs[i] = filesOf(k, r, salts[i])
		}
	}
	os := [2]op{p, q}
	var want [2]string
	for i := range want {
		key := fmt.Sprint(os[i].name, k.Name, r, salts[i])
		cacheM.Lock()
		w, ok := alone[key]
		cacheM.Unlock()
		if !ok {
			w = os[i].run(fs[i].subject(k, r, salts[i]))
			cacheM.Lock()
			alone[key] = w
			cacheM.Unlock()
		}
		want[i] = w
	}
	st := vsched.Explore(bound, part, parts, func() ([]func(), func(*vsched.Exec) bool) {
		var (
			ss     [2]*subject
			got    [2]string
			bodies []func()
		)
		for i := range ss {
			if i == 1 && shared {
				ss[1] = ss[0]
			} else {
				ss[i] = fs[i].subject(k, r, salts[i])
			}
		}
		for i := range ss {
			bodies = append(bodies, func() { got[i] = os[i].run(ss[i]) })
		}
		return bodies, func(e *vsched.Exec) bool {
			b.Tick()
			what := fmt.Sprintf("%s and %s of %s %v, same picture %v, schedule %s", p.name, q.name, k.Name, r, shared, e.Schedule())
			switch {
			case e.Deadlock:
				b.Fail("blocked", "%s: never finish", what)
				return false
			case e.Panic != nil:
				b.Fail("panic", "%s: panic: %v\n%s", what, e.Panic, e.Stack)
				return false
			case got != want:
				b.Fail("result", "%s: %q, alone %q", what, got, want)
				return false
			}
			return true
		}
	}, b.Stop)
	b.Eval(st.Schedules, st.Schedules)
	b.States(st.Choices, st.Points, 0)
	b.Case(func() string {
		return fmt.Sprintf("%s and %s of %s, same picture %v: %d schedules, %d points", p.name, q.name, k.Name, shared, st.Schedules, st.Points)
	})
	if !st.Complete && !b.Failed() {
		t.Truncated()
	}
	return !b.Failed()
}

func pairs(t *vh.T, stage string, ks []lim.Kind, r image.Rectangle, bound int) {
	n := len(ops)
	t.Par(stage, len(ks)*n*n, func(b *vh.B, i int) {
		p, q, k := ops[i%n], ops[i/n%n], ks[i/n/n]
		if bound == vsched.Delays(1) && i%n < i/n%n {
			return // the same as the other way round
		}
		if vsched.Racing && p.name == "ora.Encode" && i/n/n%3 != 0 {
			return // slow, since pools are off; the kinds are no different to it
		}
		for _, shared := range []bool{false, true} {
			if shared && (p.write || q.write) {
				continue
			}
			if !pair(t, b, k, r, p, q, shared, bound, 0, 1) {
				return
			}
		}
	})
}

func runC29(t *vh.T) {
	ks := kinds()
	pairs(t, "sequence", ks, image.Rect(0, 0, 2, 1), vsched.Delays(0))
	var some []lim.Kind
	for _, k := range ks {
		switch k.Name {
		case "NRGBA", "NestedGroup", "Paletted", "GrayAlpha", "MaskedPtrSmall", "Text", "from ora.Decode", "from xcf.Decode":
			if t.Quick {
				continue
			}
		case "PalettedAlpha", "from xcf.DecodeCompressed":
		default:
			continue
		}
		some = append(some, k)
	}
	pairs(t, "overlap", some, image.Rect(0, 0, 1, 1), vsched.Delays(1))
}

// racesC29 looks for memory that operations share and that nothing orders.
func racesC29(t *vh.T) {
	pairs(t, vh.RacePrefix+"pairs", kinds(), image.Rect(0, 0, 3, 2), vsched.Delays(0))
}
