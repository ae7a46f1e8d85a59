//go:build go1.22

package main

import (
	"fmt"
	"image"
	"image/color"
	"strconv"
	"strings"

	"vimagination.zapto.org/limage"
	"vimagination.zapto.org/limage/lcolor"
	"vimagination.zapto.org/limage/xcf"
	"vimagination.zapto.org/limage/zzverif/lim"
	"vimagination.zapto.org/limage/zzverif/vh"
	"vimagination.zapto.org/limage/zzverif/xfmt"
)

var c25 = vh.Check{
	ID: "C25", Level: "exploration",
	Rule: "every text of the stated alphabets (every character of the first planes used and of special ones in five surroundings, every string up to a length over characters that are special to the description, its quoting and its markup, fonts likewise, extreme sizes, spacings and rises, every level of every colour channel, every combination of styles over two parts, numbers of parts, places of a text layer) is saved and loaded and compared part by part, and the stored description is also read by an independent reader; every markup tree up to a size, and every quoting, as GIMP may write them, is decoded and compared with an independent interpretation; every sequence of tokens up to a length is decoded; distinct by the hash of the file",
	Assume: []string{
		"texts are valid UTF-8; texts of several parts hold only characters XML can hold, and no empty part; a text of one part keeps text, font, size and colour only; a text without parts may be left out",
		"foreground colours are opaque and have 8 bits",
		"vimagination.zapto.org/byteio, memio and parser cannot be fetched here; stand-ins written from their documentation are used",
	},
	Run: runC25,
}

// sexp is a value of a text description: a string, a float64 or a list.
type sexp struct {
	str  string
	num  float64
	kind byte // 's', 'n', 'w' or 'l'
	list []sexp
}

// readSexp reads a description as GIMP's scanner does.
func readSexp(s string) (out []sexp, err error) {
	i := 0
	var list func(depth int) []sexp
	fail := func(f string, a ...any) []sexp {
		if err == nil {
			err = fmt.Errorf(f+" at %d", append(a, i)...)
		}
		return nil
	}
	list = func(depth int) []sexp {
		var l []sexp
		for err == nil {
			if i >= len(s) {
				return fail("no end")
			}
			c := s[i]
			switch {
			case c == 0 && depth == 0:
				if i != len(s)-1 {
					return fail("data behind the end")
				}
				return l
			case c == ' ' || c == '\n':
				i++
			case c == '(':
				i++
				l = append(l, sexp{kind: 'l', list: list(depth + 1)})
			case c == ')':
				if depth == 0 {
					return fail("unexpected )")
				}
				i++
				return l
			case c == '"':
				var b []byte
				for i++; ; i++ {
					if i >= len(s) || s[i] == 0 {
						return fail("open string")
					}
					if s[i] == '"' {
						i++
						break
					}
					if s[i] != '\\' {
						b = append(b, s[i])
						continue
					}
					i++
					if i >= len(s) {
						return fail("open escape")
					}
					if e := strings.IndexByte("ntrbf", s[i]); e >= 0 {
						b = append(b, "\n\t\r\b\f"[e])
					} else if s[i] >= '0' && s[i] <= '7' {
						n := 0
						for k := 0; k < 3 && i < len(s) && s[i] >= '0' && s[i] <= '7'; k++ {
							n = n*8 + int(s[i]-'0')
							i++
						}
						i--
						b = append(b, byte(n))
					} else {
						b = append(b, s[i])
					}
				}
				l = append(l, sexp{kind: 's', str: string(b)})
			default:
				j := i
				for i < len(s) && (s[i] >= 'a' && s[i] <= 'z' || s[i] >= '0' && s[i] <= '9' || s[i] == '-' || s[i] == '.') {
					i++
				}
				if i == j {
					return fail("unexpected %q", c)
				}
				w := s[j:i]
				if n, e := strconv.ParseFloat(w, 64); e == nil {
					l = append(l, sexp{kind: 'n', num: n})
				} else {
					l = append(l, sexp{kind: 'w', str: w})
				}
			}
		}
		return nil
	}
	out = list(0)
	return out, err
}

// descOf gives the values of a description by name.
func descOf(s string) (map[string][]sexp, error) {
	l, err := readSexp(s)
	if err != nil {
		return nil, err
	}
	m := map[string][]sexp{}
	for _, e := range l {
		if e.kind != 'l' || len(e.list) == 0 || e.list[0].kind != 'w' {
			return nil, fmt.Errorf("no list with a name")
		}
		if _, ok := m[e.list[0].str]; ok {
			return nil, fmt.Errorf("%s occurs twice", e.list[0].str)
		}
		m[e.list[0].str] = e.list[1:]
	}
	return m, nil
}

// textTrip saves and loads a text.
func textTrip(b *vh.B, td limage.TextData, place int) bool {
	desc := fmt.Sprintf("%+v", td)
	r := image.Rect(0, 0, 2, 2)
	txt := limage.Text{Image: nr(2, 2, 1), TextData: td}
	var in image.Image = txt
	switch place % 3 {
	case 1:
		in = &txt
	case 2:
		in = limage.MaskedImage{Image: txt, Mask: lim.MaskOf(r, 1)}
	}
	g := limage.Image{{Name: "t", LayerBounds: r, Image: in}, {Name: "b", LayerBounds: r, Image: nr(2, 2, 2)}}
	if place >= 3 {
		g = limage.Image{{Name: "g", LayerBounds: r, Image: g}, g[1]}
	}
	d, err := encode(g)
	if err != nil {
		b.Fail("encode", "Encode of text %s: %v", desc, err)
		return false
	}
	b.EvalH(vh.HashBytes(d))
	m, err := decode(d)
	if err != nil {
		b.Fail("decode", "decoding a saved text %s: %v", desc, err)
		return false
	}
	if place >= 3 {
		in, ok := group(m[0].Image)
		if !ok || len(in) != 2 {
			b.Fail("tree", "group with text is lost: %s", lim.Describe(m))
			return false
		}
		m = in
	}
	got := m[0].Image
	if mi, ok := got.(limage.MaskedImage); ok != (place%3 == 2) {
		b.Fail("mask", "mask of text is lost or new: %s", lim.Describe(m))
		return false
	} else if ok {
		got = mi.Image
	}
	var gt limage.TextData
	switch x := got.(type) {
	case limage.Text:
		gt = x.TextData
	case *limage.Text:
		gt = x.TextData
	default:
		if len(td) == 0 {
			return true
		}
		b.Fail("lost", "text %s is loaded as %T", desc, got)
		return false
	}
	if s := xfmt.SameText(td, gt); s != "" {
		b.Fail("text", "text %s is loaded as %+v: %s", desc, gt, s)
		return false
	}
	// What is stored.
	f, err := xfmt.Parse(d)
	if err != nil {
		b.Fail("structure", "text %s is saved in an invalid file: %v", desc, err)
		return false
	}
	l := f.Layers[0]
	if place >= 3 {
		l = l.Kids[0]
	}
	if !l.HasText {
		b.Fail("lost", "text %s is not stored", desc)
		return false
	}
	v, err := descOf(l.Text)
	if err != nil {
		b.Fail("description", "text %s is stored as %q: %v", desc, l.Text, err)
		return false
	}
	one := func(name string, kind byte) (sexp, bool) {
		x := v[name]
		if len(x) != 1 || x[0].kind != kind {
			b.Fail("description", "text %s is stored without a good %q: %q", desc, name, l.Text)
			return sexp{}, false
		}
		return x[0], true
	}
	if len(td) == 1 {
		t, ok1 := one("text", 's')
		fo, ok2 := one("font", 's')
		sz, ok3 := one("font-size", 'n')
		if !ok1 || !ok2 || !ok3 {
			return false
		}
		if t.str != td[0].Data || fo.str != td[0].Font || sz.num != float64(td[0].Size) {
			b.Fail("description", "text %s is stored as %q", desc, l.Text)
			return false
		}
		c, ok := one("color", 'l')
		if !ok || len(c.list) != 4 || c.list[0].str != "color-rgb" {
			b.Fail("description", "text %s is stored without a colour: %q", desc, l.Text)
			return false
		}
		if td[0].ForeColor != nil {
			want := color.NRGBAModel.Convert(td[0].ForeColor).(color.NRGBA)
			for k, w := range []uint8{want.R, want.G, want.B} {
				if x := c.list[k+1]; x.kind != 'n' || x.num < 0 || x.num > 1 || uint8(x.num*255+0.5) != w {
					b.Fail("description", "the colour of text %s is stored as %q", desc, l.Text)
					return false
				}
			}
		}
	} else if len(td) > 1 {
		if mk, ok := one("markup", 's'); !ok || !strings.HasPrefix(mk.str, "<markup>") || !strings.HasSuffix(mk.str, "</markup>") {
			b.Fail("description", "text %s is stored as %q", desc, l.Text)
			return false
		}
	}
	return true
}

// strs gives every string of up to n characters of the alphabet.
func strs(alphabet []string, n int) []string {
	out := []string{""}
	for from := 0; n > 0; n-- {
		to := len(out)
		for _, s := range out[from:to] {
			for _, a := range alphabet {
				out = append(out, s+a)
			}
		}
		from = to
	}
	return out
}

func xmlChar(r rune) bool {
	return r == '\t' || r == '\n' || r == '\r' || r >= 0x20 && r <= 0xd7ff || r >= 0xe000 && r <= 0xfffd || r >= 0x10000
}

func runC25(t *vh.T) {
	rgb := func(r, g, b uint8) color.Color { return lcolor.RGB{R: r, G: g, B: b} }
	top := vh.Pick(t, 0x250, 0x3000)
	extra := []rune{0x2028, 0x2029, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f3a8, 0x10ffff}
	t.Par("characters", top+len(extra), func(b *vh.B, i int) {
		r := rune(i)
		if i >= top {
			r = extra[i-top]
		}
		if r >= 0xd800 && r < 0xe000 {
			return
		}
		c := string(r)
		for j, s := range []string{c, "a" + c + "b", c + c, c + "1", "\\" + c, c + "\\", "\"" + c + "\"", " " + c + " "} {
			if !textTrip(b, limage.TextData{{Data: s, Font: "Sans" + c, Size: 12, ForeColor: rgb(1, 2, 3)}}, j%6) {
				return
			}
			if xmlChar(r) && !textTrip(b, limage.TextData{{Data: s, Font: c + "Sans", Size: 12, ForeColor: rgb(1, 2, 3)}, {Data: c, Font: "x"}}, j%6) {
				return
			}
		}
	})
	alphabet := []string{"a", "\"", "\\", "<", "&", "\n", "7", "(", ")", "é", ";", " ", ">", "'", "n"}
	ss := strs(alphabet, vh.Pick(t, 4, 5))
	t.Par("strings", 512, func(b *vh.B, i int) {
		for k := i; k < len(ss); k += 512 {
			if !textTrip(b, limage.TextData{{Data: ss[k], Font: "Sans", Size: 18}}, 0) || b.Stop() {
				return
			}
		}
	})
	s3 := strs(alphabet, 3)
	t.Par("part-strings", 512, func(b *vh.B, i int) {
		for k := i; k < len(s3); k += 512 {
			if s3[k] == "" {
				continue
			}
			o := s3[1+(k*31+7)%(len(s3)-1)]
			if !textTrip(b, limage.TextData{{Data: s3[k]}, {Data: o}}, 0) || !textTrip(b, limage.TextData{{Data: o}, {Data: s3[k], Bold: true}, {Data: s3[k]}}, 0) || b.Stop() {
				return
			}
			if !textTrip(b, limage.TextData{{Data: "x", Font: s3[k]}, {Data: "y", Font: o}}, 0) || !textTrip(b, limage.TextData{{Data: "z", Font: s3[k]}}, 0) {
				return
			}
		}
	})
	nums := []uint32{0, 1, 2, 9, 17, 18, 19, 255, 256, 1023, 1024, 65535, 65536, 1<<22 - 1, 1 << 22, 1<<22 + 1, 1 << 24, 1<<24 + 1, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	t.Par("numbers", len(nums)*len(nums), func(b *vh.B, i int) {
		x, y := nums[i%len(nums)], nums[i/len(nums)]
		textTrip(b, limage.TextData{{Data: "a", Font: "f", Size: x}}, i%6)
		textTrip(b, limage.TextData{{Data: "a", Size: x, LetterSpacing: y, Rise: x ^ y}, {Data: "b", Size: y, Rise: x}}, i%6)
		textTrip(b, limage.TextData{{Data: "a", LetterSpacing: x}, {Data: "b", Rise: y}, {Data: "c", LetterSpacing: y, Size: x}}, i%6)
	})
	t.Par("colours", 256, func(b *vh.B, i int) {
		v := uint8(i)
		for j, c := range []color.Color{rgb(v, 0, 255), rgb(255, v, 0), rgb(0, 255, v), rgb(v, v, v), color.Gray{v}, color.NRGBA{v, 3, v ^ 0x55, 255}, color.RGBA{1, v, 255 - v, 255}, color.NRGBA64{uint16(v) * 257, 0x1111, 0xffff, 0xffff}, nil} {
			if !textTrip(b, limage.TextData{{Data: "a", ForeColor: c}}, j%6) ||
				!textTrip(b, limage.TextData{{Data: "a", ForeColor: c}, {Data: "b", BackColor: c}, {Data: "c", BackColor: color.Alpha{}}, {Data: "d", ForeColor: rgb(v, 1, 2), BackColor: rgb(3, v, 4)}}, j%6) {
				return
			}
		}
	})
	style := func(k int) limage.TextDatum {
		d := limage.TextDatum{Data: fmt.Sprintf("p%d", k), Font: "Sans", Size: 18, Bold: k&1 != 0, Italic: k&2 != 0, Underline: k&4 != 0, Strikethrough: k&8 != 0}
		if k&16 != 0 {
			d.LetterSpacing = 3
		}
		if k&32 != 0 {
			d.Rise = 5
		}
		if k&64 != 0 {
			d.Font, d.Size = "Serif \"Bold\"", 7
		}
		if k&128 != 0 {
			d.ForeColor, d.BackColor = rgb(uint8(k), 1, 2), rgb(9, uint8(k), 8)
		}
		return d
	}
	t.Par("styles", 256, func(b *vh.B, i int) {
		for j := 0; j < 256; j++ {
			if t.Quick && (i*7+j)%8 != 0 {
				continue
			}
			if !textTrip(b, limage.TextData{style(i), style(j)}, (i+j)%6) || b.Stop() {
				return
			}
		}
		textTrip(b, limage.TextData{style(i)}, i%6)
		textTrip(b, limage.TextData{style(i), style(255 - i), style(i), style(i ^ 85)}, i%6)
	})
	t.Par("parts", 200, func(b *vh.B, n int) {
		var td limage.TextData
		for k := 0; k < n; k++ {
			td = append(td, style(k*37%256))
			td[k].Data = strings.Repeat("x<\"\\", k%5+1)
		}
		textTrip(b, td, n%6)
	})
	if t.Quick {
		t.Sample(fmt.Sprintf("%+v", limage.TextData{style(77), style(200)}))
	}
	markups(t)
	quotings(t)
	textTokens(t)
}

// readText decodes a layer with the description.
func readText(desc string) (limage.TextData, bool, error) {
	f := newFile(3, 0, 1, 1, 1)
	l := addLayer(f, "t", image.Rect(0, 0, 1, 1), 0, false, 1)
	l.HasText, l.Text = true, desc
	m, err := xcf.Decode(f.Write())
	if err != nil {
		return nil, false, err
	}
	x, ok := m[0].Image.(limage.Text)
	return x.TextData, ok, nil
}

// markups decodes every small tree of markup.
func markups(t *vh.T) {
	type tag struct {
		open, end string
		set       func(d *limage.TextDatum)
	}
	tags := []tag{
		{"<b>", "</b>", func(d *limage.TextDatum) { d.Bold = true }},
		{"<i>", "</i>", func(d *limage.TextDatum) { d.Italic = true }},
		{"<u>", "</u>", func(d *limage.TextDatum) { d.Underline = true }},
		{"<s>", "</s>", func(d *limage.TextDatum) { d.Strikethrough = true }},
		{`<span font="Serif">`, "</span>", func(d *limage.TextDatum) { d.Font = "Serif" }},
		{`<span font="A&amp;B">`, "</span>", func(d *limage.TextDatum) { d.Font = "A&B" }},
		{`<span size="20480">`, "</span>", func(d *limage.TextDatum) { d.Size = 20 }},
		{`<span letter_spacing="2048">`, "</span>", func(d *limage.TextDatum) { d.LetterSpacing = 2 }},
		{`<span rise="3072">`, "</span>", func(d *limage.TextDatum) { d.Rise = 3 }},
		{`<span foreground="#ff8001">`, "</span>", func(d *limage.TextDatum) { d.ForeColor = lcolor.RGB{R: 255, G: 128, B: 1} }},
		{`<span foreground="#0AF">`, "</span>", func(d *limage.TextDatum) { d.ForeColor = lcolor.RGB{R: 0, G: 170, B: 255} }},
		{`<span background="#010203">`, "</span>", func(d *limage.TextDatum) { d.BackColor = lcolor.RGB{R: 1, G: 2, B: 3} }},
		{`<span font="X" size="1024" foreground="#000001">`, "</span>", func(d *limage.TextDatum) {
			d.Font, d.Size, d.ForeColor = "X", 1, lcolor.RGB{B: 1}
		}},
		{`<span lang="en">`, "</span>", func(d *limage.TextDatum) {}},
	}
	// A document is a sequence of text and tags; every shape of at most n
	// elements, with tags chosen in all ways for the first two.
	shapes := lim.Forests(vh.Pick(t, 4, 5))
	t.Par("markup", len(tags)*len(tags), func(b *vh.B, i int) {
		for si, shape := range shapes {
			if t.Quick && len(shape) == 4 && (si+i)%4 != 0 {
				continue
			}
			for fill := 0; fill < 4; fill++ {
				var s strings.Builder
				var want limage.TextData
				base := limage.TextDatum{Font: "Base", Size: 9, ForeColor: lcolor.RGB{G: 255}, BackColor: color.Alpha{}}
				n := 0
				text := func(cur limage.TextDatum, on bool) {
					if on {
						v := fmt.Sprintf("t%d", len(want))
						if len(want)%3 == 1 {
							v += " <&>\"'"
						}
						s.WriteString(strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\"", "&quot;", "'", "&apos;").Replace(v))
						cur.Data = v
						want = append(want, cur)
					}
				}
				k := 0
				var rec func(depth int, cur limage.TextDatum)
				rec = func(depth int, cur limage.TextDatum) {
					text(cur, fill&1 == 0 || depth > 0 && fill == 1)
					for k < len(shape) && shape[k] == depth {
						tg := tags[[]int{i % len(tags), i / len(tags), (i + 3) % len(tags), (i*5 + 1) % len(tags), (i + 9) % len(tags)}[n]]
						n++
						k++
						s.WriteString(tg.open)
						in := cur
						tg.set(&in)
						rec(depth+1, in)
						s.WriteString(tg.end)
						text(cur, fill&2 == 0)
					}
				}
				rec(0, base)
				doc := s.String()
				q := strings.NewReplacer("\\", "\\\\", "\"", "\\\"").Replace("<markup>" + doc + "</markup>")
				desc := "(markup \"" + q + "\")\n(font \"Base\")\n(font-size 9.000000)\n(font-size-unit pixels)\n(antialias yes)\n(color (color-rgb 0.000000 1.000000 0.000000))\n\x00"
				got, ok, err := readText(desc)
				b.EvalH(vh.HashBytes([]byte(desc)))
				if err != nil || !ok {
					b.Fail("markup", "decoding %q: text %v, %v", desc, ok, err)
					return
				}
				if len(want) == 1 { // all of it, although there is one part
					w, g := append(limage.TextData{}, want[0], want[0]), append(limage.TextData{}, got...)
					if len(got) == 1 {
						g = append(g, got[0])
					}
					if d := xfmt.SameText(w, g); d != "" {
						b.Fail("markup", "decoding %q: %s", desc, d)
						return
					}
				} else if d := xfmt.SameText(want, got); d != "" {
					b.Fail("markup", "decoding %q: %s", desc, d)
					return
				}
			}
			if b.Stop() {
				return
			}
		}
	})
}

// quotings decodes every way to quote a text and to order a description.
func quotings(t *vh.T) {
	units := [][2]string{{"a", "a"}, {`\"`, "\""}, {`\\`, "\\"}, {`\n`, "\n"}, {"\n", "\n"}, {`\t`, "\t"}, {"\t", "\t"}, {`\r`, "\r"}, {`\b`, "\b"}, {`\f`, "\f"}, {`\303\251`, "é"}, {"é", "é"}, {`\101`, "A"}, {`\7`, "\a"}, {`\61`, "1"}, {"(", "("}, {")", ")"}, {"1", "1"}, {"n", "n"}, {`\360\237\216\250`, "🎨"}, {"🎨", "🎨"}, {" ", " "}, {"<b>", "<b>"}}
	n := vh.Pick(t, 3, 4)
	t.Par("quoting", len(units)*len(units), func(b *vh.B, i int) {
		rest := 1
		for k := 2; k < n; k++ {
			rest *= len(units)
		}
		for q := -1; q < rest; q++ {
			sel := []int{i % len(units), i / len(units)}
			for k, v := 2, q; q >= 0 && k < n; k, v = k+1, v/len(units) {
				sel = append(sel, v%len(units))
			}
			var src, want string
			skip := false
			for k, u := range sel {
				// Short octal numbers end at the next octal digit.
				if k > 0 && (units[sel[k-1]][0] == `\7` || units[sel[k-1]][0] == `\61`) && units[u][0] == "1" {
					skip = true
				}
				src += units[u][0]
				want += units[u][1]
			}
			if skip {
				continue
			}
			desc := "(text \"" + src + "\")\n(font \"" + src + "\")\n(font-size 18.5)\n(color (color-rgb 1.000000 0.501961 0.0))\x00"
			got, ok, err := readText(desc)
			b.EvalH(vh.HashBytes([]byte(desc)))
			w := limage.TextData{{Data: want, Font: want, Size: 18, ForeColor: lcolor.RGB{R: 255, G: 128}}}
			if err != nil || !ok {
				b.Fail("quoting", "decoding %q: text %v, %v", desc, ok, err)
				return
			}
			if d := xfmt.SameText(w, got); d != "" {
				b.Fail("quoting", "decoding %q: %s", desc, d)
				return
			}
			if b.Stop() {
				return
			}
		}
	})
	// Every colour of three digits, and every value of each part of one of six.
	t.Par("colour-codes", 16+3, func(b *vh.B, i int) {
		for v := 0; v < 256; v++ {
			var code string
			var c lcolor.RGB
			if i < 16 {
				code = fmt.Sprintf("#%x%02x", i, v)
				c = lcolor.RGB{R: uint8(i * 17), G: uint8((v >> 4) * 17), B: uint8((v & 15) * 17)}
			} else {
				ch := [3]uint8{uint8(v ^ 0x55), uint8(v + 7), uint8(255 - v)}
				ch[i-16] = uint8(v)
				code = fmt.Sprintf("#%02x%02x%02x", ch[0], ch[1], ch[2])
				c = lcolor.RGB{R: ch[0], G: ch[1], B: ch[2]}
			}
			if v%3 == 0 {
				code = strings.ToUpper(code)
			}
			desc := `(markup "<markup><span foreground=\"` + code + `\">x</span></markup>")` + "\n(font \"f\")\n(font-size 18.0)\n(color (color-rgb 1.0 0.0 0.0))\x00"
			got, ok, err := readText(desc)
			b.EvalH(vh.HashBytes([]byte(desc)))
			w := limage.TextData{{Data: "x", Font: "f", Size: 18, ForeColor: c}}
			if err != nil || !ok {
				b.Fail("colour-code", "decoding %q: text %v, %v", desc, ok, err)
				return
			}
			if d := xfmt.SameText(w, got); d != "" {
				b.Fail("colour-code", "decoding %q: %s", desc, d)
				return
			}
		}
	})
	// Every character by its number, in each length of number, before everything
	// that can be told from a digit of it.
	t.Par("octals", 128, func(b *vh.B, i int) {
		if i == 0 {
			return
		}
		for _, form := range []string{"\\%o", "\\%02o", "\\%03o"} {
			for _, next := range []string{"", "8", "a", "\\n", "\\\\", "7"} {
				src := fmt.Sprintf(form, i)
				if next == "7" && len(src) < 4 {
					continue
				}
				want := string(rune(i)) + map[string]string{"\\n": "\n", "\\\\": "\\"}[next]
				if next == "8" || next == "a" || next == "7" {
					want += next
				}
				desc := "(text \"" + src + next + "\")\n(font \"f\")\n(font-size 18.0)\n(color (color-rgb 1.0 0.0 0.0))\x00"
				got, ok, err := readText(desc)
				b.EvalH(vh.HashBytes([]byte(desc)))
				w := limage.TextData{{Data: want, Font: "f", Size: 18, ForeColor: lcolor.RGB{R: 255}}}
				if err != nil || !ok {
					b.Fail("octal", "decoding %q: text %v, %v", desc, ok, err)
					return
				}
				if d := xfmt.SameText(w, got); d != "" {
					b.Fail("octal", "decoding %q: %s", desc, d)
					return
				}
			}
		}
	})
	// The description among other parasites, with any flags.
	flags := []uint32{0, 1, 2, 3, 4, 5, 7, 8, 0x100, 0x80000000, 0xffffffff}
	numbers := vh.Pick(t, []int{0, 1, 2, 7, 31, 32, 33, 100}, []int{0, 1, 2, 3, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 257, 1000})
	t.Par("among-parasites", len(flags)*len(numbers), func(b *vh.B, i int) {
		fl, before := flags[i%len(flags)], numbers[i/len(flags)]
		for _, after := range numbers {
			for _, name := range []string{"", "x", "gimp-text-laye", "gimp-text-layers", "Gimp-text-layer", "gimp-text-layer-2", "icc-profile"} {
				for order := 0; order < 2; order++ {
					f := newFile(3+8*(i%2), 0, 1, 1, 1)
					l := addLayer(f, "t", image.Rect(0, 0, 1, 1), 0, false, 1)
					var d []byte
					for k := 0; k < before; k++ {
						d = append(d, xfmt.Parasite(name, uint32(k), `(text "other")`)...)
					}
					d = append(d, xfmt.Parasite("gimp-text-layer", fl, "(text \"T\")\n(font \"F\")\x00")...)
					for k := 0; k < after; k++ {
						d = append(d, xfmt.Parasite(name, fl, string(make([]byte, k)))...)
					}
					ps := []xfmt.Prop{{21, d}, {26, xfmt.U32(1)}}
					if order == 1 {
						ps[0], ps[1] = ps[1], ps[0]
					}
					l.After = append(l.After, ps...)
					s := f.Write()
					b.EvalH(fileHash(s))
					what := fmt.Sprintf("a description with flags %#x behind %d and before %d parasites %q", fl, before, after, name)
					m, err := xcf.Decode(s)
					if err != nil {
						b.Fail("among-parasites", "%s: %v", what, err)
						return
					}
					x, ok := m[0].Image.(limage.Text)
					if !ok {
						b.Fail("among-parasites", "%s: no text layer", what)
						return
					}
					if diff := xfmt.SameText(limage.TextData{{Data: "T", Font: "F", ForeColor: color.Gray{}}}, x.TextData); diff != "" {
						b.Fail("among-parasites", "%s: %s", what, diff)
						return
					}
				}
			}
		}
	})
	parts := []string{`(font "F")`, `(font-size 7.000000)`, `(font-size-unit pixels)`, `(antialias yes)`, `(language "en-us")`, `(base-direction ltr)`, `(color (color-rgb 0.000000 0.250980 1.000000))`, `(justify left)`, `(box-mode dynamic)`, `(box-width 100.000000)`, `(box-height 50.0)`, `(box-unit pixels)`, `(hinting yes)`, `(hint-style medium)`, `(kerning yes)`, `(outline none)`, `(gimp-unknown "a" 1 (b 2))`}
	seps := []string{"\n", " ", "", "\r\n", "\n\n  "}
	ends := []string{"\x00", "", "\n\x00", "\n", "\n\x00\x00"}
	t.Par("descriptions", (len(parts)+1)*(len(parts)+1), func(b *vh.B, i int) {
		for sep := range seps {
			for end := range ends {
				// The text moves through a rotated description that lacks a part.
				at, rot := i%(len(parts)+1), i/(len(parts)+1)
				w := limage.TextDatum{Data: "T x", ForeColor: color.Gray{}}
				var all []string
				for k := range parts {
					j := (k + rot) % len(parts)
					if k == at {
						all = append(all, `(text "T x")`)
					}
					if j == (i+sep+end)%len(parts) {
						continue
					}
					switch j {
					case 0:
						w.Font = "F"
					case 1:
						w.Size = 7
					case 6:
						w.ForeColor = lcolor.RGB{G: 64, B: 255}
					}
					all = append(all, parts[j])
				}
				if at == len(parts) {
					all = append(all, `(text "T x")`)
				}
				desc := strings.Join(all, seps[sep]) + ends[end]
				got, ok, err := readText(desc)
				b.EvalH(vh.HashBytes([]byte(desc)))
				if err != nil || !ok {
					b.Fail("description", "decoding %q: text %v, %v", desc, ok, err)
					return
				}
				if d := xfmt.SameText(limage.TextData{w}, got); d != "" {
					b.Fail("description", "decoding %q: %s", desc, d)
					return
				}
			}
		}
	})
}
