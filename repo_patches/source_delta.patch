From d8c918a5c47f686d20e0a4f6ac5a2a2400e26fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:06 +0000
Subject: [PATCH 01/66] fix: blend the green and blue channels of formula modes
 with their own channel

---
 composite.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composite.go b/composite.go
index 0033617..4b099f1 100644
--- a/composite.go
+++ b/composite.go
@@ -171,8 +171,8 @@ func (c Composite) Composite(b, t color.Color) color.Color {
 
 	return color.NRGBA64{
 		R: blend(bottom.A, bottom.R, ma, f(bottom.R, top.R)),
-		G: blend(bottom.A, bottom.G, ma, f(bottom.R, top.G)),
-		B: blend(bottom.A, bottom.B, ma, f(bottom.R, top.B)),
+		G: blend(bottom.A, bottom.G, ma, f(bottom.G, top.G)),
+		B: blend(bottom.A, bottom.B, ma, f(bottom.B, top.B)),
 		A: bottom.A,
 	}
 }
-- 
2.43.0


From efe80147c27fa1b981b78ee6b79e00046a650528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:06 +0000
Subject: [PATCH 02/66] fix: do not wrap around in burn mode

---
 composite.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/composite.go b/composite.go
index 4b099f1..4092109 100644
--- a/composite.go
+++ b/composite.go
@@ -271,13 +271,13 @@ func compositeDodge(x, y uint16) uint16 {
 func compositeBurn(x, y uint16) uint16 {
 	if y == 0 {
 		if x == 0xffff {
-			return 0
+			return 0xffff
 		}
 
-		return 0xffff
+		return 0
 	}
 
-	return clamp(0xffff - 0xffff*(0xffff-uint32(x))/uint32(y))
+	return 0xffff - clamp(0xffff*(0xffff-uint32(x))/uint32(y))
 }
 
 func compositeHardLight(x, y uint16) uint16 {
-- 
2.43.0


From b1467894740687c84483aaf138dd1c574a1a35f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:06 +0000
Subject: [PATCH 03/66] fix: do not wrap around in hard light mode at the
 midpoint

---
 composite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index 4092109..0b61dc6 100644
--- a/composite.go
+++ b/composite.go
@@ -281,7 +281,7 @@ func compositeBurn(x, y uint16) uint16 {
 }
 
 func compositeHardLight(x, y uint16) uint16 {
-	if y < 0x7fff {
+	if y <= 0x7fff {
 		return uint16(uint32(x) * (uint32(y) << 1) / 0xffff)
 	}
 
-- 
2.43.0


From 348c7ef6cb04ba224ef6ae7271729c129d8a7197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:06 +0000
Subject: [PATCH 04/66] fix: grain merge subtracts the midpoint

---
 composite.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index 0b61dc6..2071f1f 100644
--- a/composite.go
+++ b/composite.go
@@ -304,7 +304,13 @@ func compositeGrainExtract(ax, ay uint16) uint16 {
 }
 
 func compositeGrainMerge(x, y uint16) uint16 {
-	return clamp(uint32(x) + uint32(y) + 0x7fff)
+	n := uint32(x) + uint32(y)
+
+	if n < 0x7fff {
+		return 0
+	}
+
+	return clamp(n - 0x7fff)
 }
 
 func compositeHue(bottom, top color.NRGBA64) color.Color {
-- 
2.43.0


From d37cc75b032b0b34d3bba833ec64d1a467fbc0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:06 +0000
Subject: [PATCH 05/66] fix: overlay screens the bottom colour with itself

---
 composite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index 2071f1f..b458c27 100644
--- a/composite.go
+++ b/composite.go
@@ -211,7 +211,7 @@ func compositeScreen(x, y uint16) uint16 {
 func compositeOverlay(ax, ay uint16) uint16 {
 	x := uint32(ax)
 	y := uint32(ay)
-	t := 0xffff - y
+	t := 0xffff - x
 
 	return uint16((0xffff-y)*(x*x/0xffff)/0xffff + y*(0xffff-(t*t/0xffff))/0xffff)
 }
-- 
2.43.0


From 933493449b71794a7128f7f890f6ccc82247a13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:06 +0000
Subject: [PATCH 06/66] fix: dissolve by the alpha of the top layer

---
 composite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index b458c27..e719393 100644
--- a/composite.go
+++ b/composite.go
@@ -191,7 +191,7 @@ func compositeNormal(bottom, top color.NRGBA64) color.NRGBA64 {
 }
 
 func compositeDissolve(bottom, top color.NRGBA64) color.NRGBA64 {
-	if uint16(rand.Int31n(0xffff)) < bottom.A {
+	if uint16(rand.Int31n(0xffff)) < top.A {
 		top.A = 0xffff
 
 		return top
-- 
2.43.0


From 6a749e0f7e85a883df450adb3302d2801d5dd5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:56 +0000
Subject: [PATCH 07/66] fix: respect both alpha channels in hue, saturation,
 color, value and luminosity modes

---
 composite.go | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/composite.go b/composite.go
index e719393..4cbf1ec 100644
--- a/composite.go
+++ b/composite.go
@@ -148,7 +148,7 @@ func (c Composite) Composite(b, t color.Color) color.Color {
 	case CompositeValue:
 		return compositeValue(bottom, top)
 	case CompositeLuminosity:
-		return compositeColor(top, bottom)
+		return compositeLuminosity(bottom, top)
 	case CompositePlus:
 		return compositePlus(bottom, top)
 	case CompositeDestinationIn:
@@ -314,24 +314,24 @@ func compositeGrainMerge(x, y uint16) uint16 {
 }
 
 func compositeHue(bottom, top color.NRGBA64) color.Color {
-	br, bg, bb, _ := top.RGBA()
+	a := lcolor.RGBToHSV(bottom)
+	b := lcolor.RGBToHSV(top)
 
-	if br == bg && br == bb {
+	if b.S == 0 {
 		return bottom
 	}
 
-	a := lcolor.RGBToHSV(bottom)
-	b := lcolor.RGBToHSV(top)
 	a.H = b.H
 
-	return a
+	return mix(bottom, a.ToNRGBA(), top.A)
 }
 
 func compositeSaturation(bottom, top color.NRGBA64) color.Color {
 	a := lcolor.RGBToHSV(bottom)
 	b := lcolor.RGBToHSV(top)
 	a.S = b.S
-	return a
+
+	return mix(bottom, a.ToNRGBA(), top.A)
 }
 
 func compositeColor(bottom, top color.NRGBA64) color.Color {
@@ -339,7 +339,15 @@ func compositeColor(bottom, top color.NRGBA64) color.Color {
 	b := lcolor.RGBToHSL(top)
 	b.L = a.L
 
-	return b
+	return mix(bottom, b.ToNRGBA(), top.A)
+}
+
+func compositeLuminosity(bottom, top color.NRGBA64) color.Color {
+	a := lcolor.RGBToHSL(bottom)
+	b := lcolor.RGBToHSL(top)
+	a.L = b.L
+
+	return mix(bottom, a.ToNRGBA(), top.A)
 }
 
 func compositeValue(bottom, top color.NRGBA64) color.Color {
@@ -347,7 +355,7 @@ func compositeValue(bottom, top color.NRGBA64) color.Color {
 	b := lcolor.RGBToHSV(top)
 	a.V = b.V
 
-	return a
+	return mix(bottom, a.ToNRGBA(), top.A)
 }
 
 func compositePlus(bottom, top color.NRGBA64) color.NRGBA64 {
@@ -366,6 +374,23 @@ func compositeAtop(bottom, top color.NRGBA64) color.NRGBA64 {
 	return compositeNormal(bottom, top)
 }
 
+// mix mixes the given colour into the bottom colour, limited by the smaller of
+// the two alpha channels, keeping the alpha channel of the bottom colour.
+func mix(bottom, c color.NRGBA64, topAlpha uint16) color.NRGBA64 {
+	if bottom.A == 0 {
+		return color.NRGBA64{}
+	}
+
+	ma := internal.Min(bottom.A, topAlpha)
+
+	return color.NRGBA64{
+		R: blend(bottom.A, bottom.R, ma, c.R),
+		G: blend(bottom.A, bottom.G, ma, c.G),
+		B: blend(bottom.A, bottom.B, ma, c.B),
+		A: bottom.A,
+	}
+}
+
 func clamp(n uint32) uint16 {
 	if n > 0xffff {
 		return 0xffff
-- 
2.43.0


From 3947ffdae823edccc31d0056be4c7704b16a0b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:56 +0000
Subject: [PATCH 08/66] fix: convert light HSL colours to RGB without wrapping

---
 lcolor/hsl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcolor/hsl.go b/lcolor/hsl.go
index b623cef..978d35e 100644
--- a/lcolor/hsl.go
+++ b/lcolor/hsl.go
@@ -57,13 +57,13 @@ func (h HSLA) ToNRGBA() color.NRGBA64 {
 	}
 
 	c := uint32(h.L) << 1
-	if c < 0x7fff {
+	if c > 0xffff {
 		c = 0x1fffe - c
 	}
 
 	c = c * uint32(h.S) / 0xffff
 
-	return hcmaToColour(uint32(h.H), c, h.L-uint16(c>>2), h.A)
+	return hcmaToColour(uint32(h.H), c, h.L-uint16(c>>1), h.A)
 }
 
 // HSVA represents the Hue, Saturation, Value and Alpha of a pixel.
-- 
2.43.0


From 3788444783127bd5f9eb60363fac533efdbee0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:56 +0000
Subject: [PATCH 09/66] fix: convert to gray alpha by the straight colour

---
 lcolor/gray.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lcolor/gray.go b/lcolor/gray.go
index 71a16dc..ab625be 100644
--- a/lcolor/gray.go
+++ b/lcolor/gray.go
@@ -1,6 +1,10 @@
 package lcolor
 
-import "image/color"
+import (
+	"image/color"
+
+	"vimagination.zapto.org/limage/internal"
+)
 
 // GrayAlpha represents a Gray color with an Alpha channel.
 type GrayAlpha struct {
@@ -30,10 +34,12 @@ func (c GrayAlpha) ToNRGBA() color.NRGBA64 {
 }
 
 func grayAlphaColourModel(c color.Color) color.Color {
-	_, _, _, a := c.RGBA()
+	n := internal.ColourToNRGBA(c)
+	a := n.A
+	n.A = 0xffff
 
 	return GrayAlpha{
-		Y: color.GrayModel.Convert(c).(color.Gray).Y,
+		Y: color.GrayModel.Convert(n).(color.Gray).Y,
 		A: uint8(a >> 8),
 	}
 }
-- 
2.43.0


From 57ee6cf6ac32431d2a6d330d0a7e5131284fb676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:56 +0000
Subject: [PATCH 10/66] fix: match palette colours by the straight colour

---
 lcolor/indexed.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lcolor/indexed.go b/lcolor/indexed.go
index 27afb72..1f767a0 100644
--- a/lcolor/indexed.go
+++ b/lcolor/indexed.go
@@ -1,6 +1,10 @@
 package lcolor
 
-import "image/color"
+import (
+	"image/color"
+
+	"vimagination.zapto.org/limage/internal"
+)
 
 // AlphaPalette is an extension to the normal color.Palette type.
 type AlphaPalette color.Palette
@@ -8,7 +12,7 @@ type AlphaPalette color.Palette
 // Convert converts the given color to the nearest color in the palette, but
 // preserves the alpha channel.
 func (ap AlphaPalette) Convert(c color.Color) color.Color {
-	r, g, b, _ := color.Palette(ap).Convert(c).RGBA()
+	r, g, b, _ := color.Palette(ap).Convert(opaque(c)).RGBA()
 	_, _, _, a := c.RGBA()
 
 	return color.NRGBA64{
@@ -21,7 +25,14 @@ func (ap AlphaPalette) Convert(c color.Color) color.Color {
 
 // Index returns the palette index of the nearest color.
 func (ap AlphaPalette) Index(c color.Color) int {
-	return color.Palette(ap).Index(c)
+	return color.Palette(ap).Index(opaque(c))
+}
+
+func opaque(c color.Color) color.Color {
+	n := internal.ColourToNRGBA(c)
+	n.A = 0xffff
+
+	return n
 }
 
 // IndexedAlpha is the combination of a palette index and an Alpha channel.
-- 
2.43.0


From 2aeca608ed6451859f2c8582292a2b5cc7b84b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:56 +0000
Subject: [PATCH 11/66] fix: report paletted images with alpha as opaque only
 when they are

---
 indexedalpha.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indexedalpha.go b/indexedalpha.go
index dd51a6f..c6f3d5a 100644
--- a/indexedalpha.go
+++ b/indexedalpha.go
@@ -68,11 +68,11 @@ func (p *PalettedAlpha) IndexAlphaAt(x, y int) lcolor.IndexedAlpha {
 func (p *PalettedAlpha) Opaque() bool {
 	for _, c := range p.Pix {
 		if c.A != 255 {
-			return true
+			return false
 		}
 	}
 
-	return false
+	return true
 }
 
 // PixOffset returns the index of the Pix array corresponding to the given
-- 
2.43.0


From 566d5bab6aebf0a3d09cb0deb889d2378cb07834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:36 +0000
Subject: [PATCH 12/66] fix: decide opacity of sub-images by their own pixels

---
 grayalpha.go    | 10 +++++++---
 indexedalpha.go | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/grayalpha.go b/grayalpha.go
index 2349a4b..0fcdc82 100644
--- a/grayalpha.go
+++ b/grayalpha.go
@@ -52,9 +52,13 @@ func (g *GrayAlpha) GrayAlphaAt(x, y int) lcolor.GrayAlpha {
 
 // Opaque returns true if all pixels have full alpha.
 func (g *GrayAlpha) Opaque() bool {
-	for _, c := range g.Pix {
-		if c.A != 255 {
-			return false
+	for y := g.Rect.Min.Y; y < g.Rect.Max.Y; y++ {
+		i := g.PixOffset(g.Rect.Min.X, y)
+
+		for _, c := range g.Pix[i : i+g.Rect.Dx()] {
+			if c.A != 255 {
+				return false
+			}
 		}
 	}
 
diff --git a/indexedalpha.go b/indexedalpha.go
index c6f3d5a..c45b57b 100644
--- a/indexedalpha.go
+++ b/indexedalpha.go
@@ -66,9 +66,13 @@ func (p *PalettedAlpha) IndexAlphaAt(x, y int) lcolor.IndexedAlpha {
 
 // Opaque returns true if the image is completely opaque.
 func (p *PalettedAlpha) Opaque() bool {
-	for _, c := range p.Pix {
-		if c.A != 255 {
-			return false
+	for y := p.Rect.Min.Y; y < p.Rect.Max.Y; y++ {
+		i := p.PixOffset(p.Rect.Min.X, y)
+
+		for _, c := range p.Pix[i : i+p.Rect.Dx()] {
+			if c.A != 255 {
+				return false
+			}
 		}
 	}
 
-- 
2.43.0


From c6acc3106175b3ae86b4f1ba37378e8e8f84e25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:36 +0000
Subject: [PATCH 13/66] fix: do not panic when reading an image with an empty
 palette

---
 indexedalpha.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedalpha.go b/indexedalpha.go
index c45b57b..20fd94d 100644
--- a/indexedalpha.go
+++ b/indexedalpha.go
@@ -29,7 +29,7 @@ func NewPalettedAlpha(r image.Rectangle, p lcolor.AlphaPalette) *PalettedAlpha {
 
 // At returns the color of the pixel at the given coords.
 func (p *PalettedAlpha) At(x, y int) color.Color {
-	if p.Palette == nil {
+	if len(p.Palette) == 0 {
 		return nil
 	}
 
-- 
2.43.0


From 562cc54a61c1056899bae103be591533c2df2727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:15 +0000
Subject: [PATCH 14/66] fix: keep pixels in place when cropping a layer

---
 layer.go | 74 +++++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 73 insertions(+), 1 deletion(-)

diff --git a/layer.go b/layer.go
index f156769..bec8073 100644
--- a/layer.go
+++ b/layer.go
@@ -34,7 +34,79 @@ func (l Layer) SubImage(r image.Rectangle) image.Image {
 // SubImageLayer returns an image representing the portion of the image p
 // visible through r. The returned value shares pixels with the original image.
 func (l Layer) SubImageLayer(r image.Rectangle) Layer {
-	l.LayerBounds = r.Intersect(l.LayerBounds)
+	r = r.Intersect(l.LayerBounds)
+
+	if !r.Empty() {
+		l.Image = shift(l.Image, r.Min.Sub(l.LayerBounds.Min))
+	}
+
+	l.LayerBounds = r
 
 	return l
 }
+
+// shift returns the given image with the point p moved to the origin.
+func shift(m image.Image, p image.Point) image.Image {
+	if p == (image.Point{}) {
+		return m
+	}
+
+	switch m := m.(type) {
+	case nil:
+		return nil
+	case Image:
+		h := make(Image, len(m))
+
+		for n, l := range m {
+			l.LayerBounds = l.LayerBounds.Sub(p)
+			h[n] = l
+		}
+
+		return h
+	case *Image:
+		return shift(*m, p)
+	case MaskedImage:
+		m.Image = shift(m.Image, p)
+
+		if m.Mask != nil {
+			mask := *m.Mask
+			mask.Rect = mask.Rect.Sub(p)
+			m.Mask = &mask
+		}
+
+		return m
+	case *MaskedImage:
+		return shift(*m, p)
+	case Text:
+		m.Image = shift(m.Image, p)
+
+		return m
+	case *Text:
+		return shift(*m, p)
+	case *image.Paletted:
+		i := *m
+		i.Rect = i.Rect.Sub(p)
+
+		return &i
+	case shifted:
+		return shift(m.Image, p.Add(m.offset))
+	}
+
+	return shifted{Image: m, offset: p}
+}
+
+// shifted is an image that is viewed with its origin at the given offset.
+type shifted struct {
+	image.Image
+	offset image.Point
+}
+
+// At returns the colour at the specified coords.
+func (s shifted) At(x, y int) color.Color {
+	return s.Image.At(x+s.offset.X, y+s.offset.Y)
+}
+
+// Bounds returns the limits of the image.
+func (s shifted) Bounds() image.Rectangle {
+	return s.Image.Bounds().Sub(s.offset)
+}
-- 
2.43.0


From 3862bfbf7901aee9b11bce8f3c1c373b34c833bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:15 +0000
Subject: [PATCH 15/66] fix: write the opacity of ora layers

---
 ora/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ora/encode.go b/ora/encode.go
index f1bd534..f6f0c5a 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -195,7 +195,7 @@ func writeStack(e *xml.Encoder, lim limage.Layer, layerNum int) (int, error) {
 
 	if lim.Transparency != 0 {
 		attrs = append(attrs, xml.Attr{
-			Name:  xml.Name{Local: "visibility"},
+			Name:  xml.Name{Local: "opacity"},
 			Value: strconv.FormatFloat(float64(255-lim.Transparency)/255, 'f', -1, 64),
 		})
 	}
-- 
2.43.0


From fd2841f2185769d08730e9a40727d636ba234428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:15 +0000
Subject: [PATCH 16/66] fix: write negative ora layer offsets

---
 ora/encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index f6f0c5a..033ba52 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -172,14 +172,14 @@ func writeStack(e *xml.Encoder, lim limage.Layer, layerNum int) (int, error) {
 		})
 	}
 
-	if b.X > 0 {
+	if b.X != 0 {
 		attrs = append(attrs, xml.Attr{
 			Name:  xml.Name{Local: "x"},
 			Value: strconv.Itoa(b.X),
 		})
 	}
 
-	if b.Y > 0 {
+	if b.Y != 0 {
 		attrs = append(attrs, xml.Attr{
 			Name:  xml.Name{Local: "y"},
 			Value: strconv.Itoa(b.Y),
-- 
2.43.0


From 0afd347a9fff253369445c0326c22533a2b944cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:15 +0000
Subject: [PATCH 17/66] fix: report failure to finish an ora archive

---
 ora/encode.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index 033ba52..e17c801 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -21,7 +21,6 @@ func Encode(w io.Writer, m image.Image) error {
 	lim.LayerBounds.Max.Y = b.Dy()
 
 	zw := zip.NewWriter(w)
-	defer zw.Close()
 
 	fw, err := zw.CreateHeader(&zip.FileHeader{
 		Name:   "mimetype",
@@ -65,7 +64,11 @@ func Encode(w io.Writer, m image.Image) error {
 		return err
 	}
 
-	return writeImage(e, zw, m, lim)
+	if err = writeImage(e, zw, m, lim); err != nil {
+		return err
+	}
+
+	return zw.Close()
 }
 
 func toLayer(m image.Image) limage.Layer {
-- 
2.43.0


From 94131e47c45647b19d995b3dcaa2b68848fde980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:15 +0000
Subject: [PATCH 18/66] fix: write single layers and flat images as an ora
 stack

---
 ora/encode.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index e17c801..7a0fd70 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -4,6 +4,7 @@ import (
 	"archive/zip"
 	"encoding/xml"
 	"image"
+	"image/color"
 	"image/png"
 	"io"
 	"strconv"
@@ -15,8 +16,8 @@ const mimetypeStr = "image/openraster"
 
 // Encode encodes the given image as an ORA file to the given Writer.
 func Encode(w io.Writer, m image.Image) error {
-	lim := toLayer(m)
 	b := m.Bounds()
+	lim := toLayer(m)
 	lim.LayerBounds.Max.X = b.Dx()
 	lim.LayerBounds.Max.Y = b.Dy()
 
@@ -73,21 +74,47 @@ func Encode(w io.Writer, m image.Image) error {
 
 func toLayer(m image.Image) limage.Layer {
 	switch im := m.(type) {
+	case limage.Image, *limage.Image:
+		return limage.Layer{
+			Image: m,
+		}
 	case limage.Layer:
 		return limage.Layer{
-			Image: im.Image,
+			Image: limage.Image{im},
 		}
 	case *limage.Layer:
 		return limage.Layer{
-			Image: im.Image,
+			Image: limage.Image{*im},
 		}
 	default:
 		return limage.Layer{
-			Image: m,
+			Image: limage.Image{
+				{
+					LayerBounds: m.Bounds(),
+					Image:       view{Image: m, offset: m.Bounds().Min, size: m.Bounds().Size()},
+				},
+			},
 		}
 	}
 }
 
+// view is the part of an image with the given offset and size, placed at the
+// origin.
+type view struct {
+	image.Image
+	offset, size image.Point
+}
+
+// At returns the colour at the specified coords.
+func (v view) At(x, y int) color.Color {
+	return v.Image.At(x+v.offset.X, y+v.offset.Y)
+}
+
+// Bounds returns the limits of the image.
+func (v view) Bounds() image.Rectangle {
+	return image.Rectangle{Max: v.size}
+}
+
 func writeImage(e *xml.Encoder, zw *zip.Writer, m image.Image, lim limage.Layer) error {
 	var fw io.Writer
 
-- 
2.43.0


From efe0d926176a1e9e67c9e091aa2a9d472535900c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:11 +0000
Subject: [PATCH 19/66] fix: place ora layers relative to the top left of the
 picture

---
 ora/encode.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index 7a0fd70..eed414c 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -74,23 +74,21 @@ func Encode(w io.Writer, m image.Image) error {
 
 func toLayer(m image.Image) limage.Layer {
 	switch im := m.(type) {
-	case limage.Image, *limage.Image:
+	case limage.Image:
 		return limage.Layer{
-			Image: m,
+			Image: subtract(im, m.Bounds().Min),
 		}
+	case *limage.Image:
+		return toLayer(*im)
 	case limage.Layer:
-		return limage.Layer{
-			Image: limage.Image{im},
-		}
+		return toLayer(limage.Image{im})
 	case *limage.Layer:
-		return limage.Layer{
-			Image: limage.Image{*im},
-		}
+		return toLayer(limage.Image{*im})
 	default:
 		return limage.Layer{
 			Image: limage.Image{
 				{
-					LayerBounds: m.Bounds(),
+					LayerBounds: image.Rectangle{Max: m.Bounds().Size()},
 					Image:       view{Image: m, offset: m.Bounds().Min, size: m.Bounds().Size()},
 				},
 			},
@@ -98,6 +96,18 @@ func toLayer(m image.Image) limage.Layer {
 	}
 }
 
+// subtract moves the layers of an image by the given offset.
+func subtract(m limage.Image, offset image.Point) limage.Image {
+	n := make(limage.Image, len(m))
+
+	for i, l := range m {
+		l.LayerBounds = l.LayerBounds.Sub(offset)
+		n[i] = l
+	}
+
+	return n
+}
+
 // view is the part of an image with the given offset and size, placed at the
 // origin.
 type view struct {
-- 
2.43.0


From f685906eb6f37f60848d9e51e851671c63d8f58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:11 +0000
Subject: [PATCH 20/66] fix: write only the part of a picture within its ora
 layer

---
 ora/encode.go | 42 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index eed414c..be054a1 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -108,6 +108,38 @@ func subtract(m limage.Image, offset image.Point) limage.Image {
 	return n
 }
 
+// picture returns the image of the layer, cut to the bounds of the layer. As a
+// PNG cannot be empty, that of an empty layer is a transparent pixel.
+func picture(l limage.Layer) image.Image {
+	bounds := image.Rectangle{Max: l.LayerBounds.Size()}
+
+	if bounds.Empty() {
+		return image.NewNRGBA(image.Rect(0, 0, 1, 1))
+	} else if l.Image.Bounds() == bounds {
+		return l.Image
+	} else if s, ok := l.Image.(*image.Paletted); ok && bounds.In(s.Rect) {
+		return s.SubImage(bounds)
+	}
+
+	return view{Image: l.Image, size: bounds.Max}
+}
+
+// children returns the layers of a group, cut to the bounds of the group.
+func children(lim limage.Layer, group limage.Image) limage.Image {
+	bounds := image.Rectangle{Max: lim.LayerBounds.Size()}
+	children := make(limage.Image, len(group))
+
+	for n, l := range group {
+		if !l.LayerBounds.In(bounds) {
+			l = l.SubImageLayer(bounds)
+		}
+
+		children[n] = l
+	}
+
+	return children
+}
+
 // view is the part of an image with the given offset and size, placed at the
 // origin.
 type view struct {
@@ -167,9 +199,9 @@ func writeLayers(zw *zip.Writer, lim limage.Layer, layerNum int) (int, error) {
 
 	switch im := lim.Image.(type) {
 	case limage.Image:
-		layerNum, err = writeGroup(zw, im, layerNum)
+		layerNum, err = writeGroup(zw, children(lim, im), layerNum)
 	case *limage.Image:
-		layerNum, err = writeGroup(zw, *im, layerNum)
+		layerNum, err = writeGroup(zw, children(lim, *im), layerNum)
 	// case limage.Text, *limage.Text: // text is not yet in the spec
 	default:
 		layerNum++
@@ -179,7 +211,7 @@ func writeLayers(zw *zip.Writer, lim limage.Layer, layerNum int) (int, error) {
 			return 0, err
 		}
 
-		err = png.Encode(f, lim.Image)
+		err = png.Encode(f, picture(lim))
 		if err != nil {
 			return 0, err
 		}
@@ -296,9 +328,9 @@ func writeStack(e *xml.Encoder, lim limage.Layer, layerNum int) (int, error) {
 
 	switch im := lim.Image.(type) {
 	case limage.Image:
-		layerNum, err = writeGroupStack(e, im, attrs, layerNum)
+		layerNum, err = writeGroupStack(e, children(lim, im), attrs, layerNum)
 	case *limage.Image:
-		layerNum, err = writeGroupStack(e, *im, attrs, layerNum)
+		layerNum, err = writeGroupStack(e, children(lim, *im), attrs, layerNum)
 	// case limage.Text, *limage.Text: // text is not yet in the spec
 	default:
 		layerNum++
-- 
2.43.0


From eccb9133f7882ab9ff20b11e12bb80471b9df73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:11 +0000
Subject: [PATCH 21/66] fix: keep colour and transparency in the pictures of
 ora files

---
 ora/encode.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index be054a1..79aa886 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -140,6 +140,32 @@ func children(lim limage.Layer, group limage.Image) limage.Image {
 	return children
 }
 
+// trueColour returns an image that does not claim to be gray unless it is, as
+// the color model of a layered image is that of its first layer and that of a
+// masked image is that of the image that is masked.
+func trueColour(m image.Image) image.Image {
+	switch m.ColorModel() {
+	case color.GrayModel, color.Gray16Model:
+		switch m.(type) {
+		case *image.Gray, *image.Gray16:
+		default:
+			return coloured{m}
+		}
+	}
+
+	return m
+}
+
+// coloured is an image with a color model that holds all colours.
+type coloured struct {
+	image.Image
+}
+
+// ColorModel returns the color model of the image.
+func (coloured) ColorModel() color.Model {
+	return color.NRGBA64Model
+}
+
 // view is the part of an image with the given offset and size, placed at the
 // origin.
 type view struct {
@@ -172,7 +198,7 @@ func writeImage(e *xml.Encoder, zw *zip.Writer, m image.Image, lim limage.Layer)
 		return err
 	} else if fw, err = zw.Create("mergedimage.png"); err != nil {
 		return err
-	} else if err = png.Encode(fw, m); err != nil {
+	} else if err = png.Encode(fw, trueColour(m)); err != nil {
 		return err
 	} else if fw, err = zw.Create("Thumbnails/thumbnail.png"); err != nil {
 		return err
@@ -188,7 +214,7 @@ func writeImage(e *xml.Encoder, zw *zip.Writer, m image.Image, lim limage.Layer)
 		m = thumbnail{Image: m, scale: scale}
 	}
 
-	return png.Encode(fw, m)
+	return png.Encode(fw, trueColour(m))
 }
 
 func writeLayers(zw *zip.Writer, lim limage.Layer, layerNum int) (int, error) {
@@ -211,7 +237,7 @@ func writeLayers(zw *zip.Writer, lim limage.Layer, layerNum int) (int, error) {
 			return 0, err
 		}
 
-		err = png.Encode(f, picture(lim))
+		err = png.Encode(f, trueColour(picture(lim)))
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From 948ef74afbafb837f7477ef3f943dff8a9aecd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:12 +0000
Subject: [PATCH 22/66] fix: take the pixels of ora thumbnails from the
 matching place

---
 ora/thumbnail.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ora/thumbnail.go b/ora/thumbnail.go
index cf12819..93c264e 100644
--- a/ora/thumbnail.go
+++ b/ora/thumbnail.go
@@ -21,5 +21,7 @@ func (t thumbnail) Bounds() image.Rectangle {
 }
 
 func (t thumbnail) At(x, y int) color.Color {
-	return t.Image.At(int(float64(x)/t.scale), int(float64(x)/t.scale))
+	b, o := t.Bounds().Min, t.Image.Bounds().Min
+
+	return t.Image.At(o.X+int(float64(x-b.X)*t.scale), o.Y+int(float64(y-b.Y)*t.scale))
 }
-- 
2.43.0


From b0a1f617dbb24c05aaef62cbbdd486106a7eee61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:12 +0000
Subject: [PATCH 23/66] fix: never write an empty ora thumbnail

---
 ora/thumbnail.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ora/thumbnail.go b/ora/thumbnail.go
index 93c264e..9fdb7fe 100644
--- a/ora/thumbnail.go
+++ b/ora/thumbnail.go
@@ -17,6 +17,14 @@ func (t thumbnail) Bounds() image.Rectangle {
 	b.Max.X = int(float64(b.Max.X) / t.scale)
 	b.Max.Y = int(float64(b.Max.Y) / t.scale)
 
+	if b.Max.X <= b.Min.X {
+		b.Max.X = b.Min.X + 1
+	}
+
+	if b.Max.Y <= b.Min.Y {
+		b.Max.Y = b.Min.Y + 1
+	}
+
 	return b
 }
 
-- 
2.43.0


From 811749fd03de584b18e9972d4653ab98cdaf6518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:32 +0000
Subject: [PATCH 24/66] fix: place nested ora layers relative to their stack
 and crop them in place

---
 ora/stack.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ora/stack.go b/ora/stack.go
index ef75333..d87d1b4 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -59,12 +59,21 @@ func (d decoder) readLayer(s xml.StartElement, offset image.Point) (limage.Layer
 	}
 
 	if s.Name.Local == "stack" {
-		var err error
-
-		l.Image, err = d.readStack(offset.Add(l.LayerBounds.Min))
+		g, err := d.readStack(offset.Add(l.LayerBounds.Min))
 		if err != nil {
 			return l, err
 		}
+
+		bounds := g.Bounds()
+
+		for n := range g {
+			g[n].LayerBounds = g[n].LayerBounds.Sub(bounds.Min)
+		}
+
+		l.Image = g
+		l.LayerBounds = bounds.Add(l.LayerBounds.Min)
+
+		return l, nil
 	} else {
 		for _, f := range d.zr.File {
 			if f.Name == source {
@@ -93,9 +102,9 @@ func (d decoder) readLayer(s xml.StartElement, offset image.Point) (limage.Layer
 		}
 	}
 
-	l.LayerBounds = l.Image.Bounds().Add(l.LayerBounds.Min).Intersect(image.Rectangle{Max: d.limits.Add(offset)}).Sub(offset)
+	l.LayerBounds = l.Image.Bounds().Add(l.LayerBounds.Min)
 
-	return l, nil
+	return l.SubImageLayer(image.Rectangle{Max: d.limits}.Sub(offset)), nil
 }
 
 func processLayerAttrs(l *limage.Layer, s xml.StartElement) (string, error) {
-- 
2.43.0


From aa19a01636924e42009398803d64667839d2ce81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:32 +0000
Subject: [PATCH 25/66] fix: round and limit the opacity of ora layers

---
 ora/stack.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ora/stack.go b/ora/stack.go
index d87d1b4..cbb1e1d 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -134,7 +134,13 @@ func processLayerAttrs(l *limage.Layer, s xml.StartElement) (string, error) {
 				return "", err
 			}
 
-			l.Transparency = uint8(255 * (1 - o))
+			if !(o > 0) {
+				o = 0
+			} else if o > 1 {
+				o = 1
+			}
+
+			l.Transparency = 255 - uint8(255*o+0.5)
 		case "visibility":
 			l.Invisible = a.Value == "hidden"
 		case "composite-op":
-- 
2.43.0


From 57ecae8b87faa1ca24c184d5e31ccf422224eb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:32 +0000
Subject: [PATCH 26/66] fix: limit the nesting of ora stacks

---
 ora/decode.go | 1 +
 ora/stack.go  | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/ora/decode.go b/ora/decode.go
index 0d2c16f..e4b6a77 100644
--- a/ora/decode.go
+++ b/ora/decode.go
@@ -16,6 +16,7 @@ type decoder struct {
 	zr     *zip.Reader
 	x      *xml.Decoder
 	limits image.Point
+	depth  int
 }
 
 func (d *decoder) getStack() (stack *zip.File, err error) {
diff --git a/ora/stack.go b/ora/stack.go
index cbb1e1d..996141c 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -50,6 +50,9 @@ Loop:
 	return i, nil
 }
 
+// maxDepth is the deepest that stacks can be nested.
+const maxDepth = 1000
+
 func (d decoder) readLayer(s xml.StartElement, offset image.Point) (limage.Layer, error) {
 	var l limage.Layer
 
@@ -59,6 +62,10 @@ func (d decoder) readLayer(s xml.StartElement, offset image.Point) (limage.Layer
 	}
 
 	if s.Name.Local == "stack" {
+		if d.depth++; d.depth > maxDepth {
+			return l, ErrInvalidStack
+		}
+
 		g, err := d.readStack(offset.Add(l.LayerBounds.Min))
 		if err != nil {
 			return l, err
-- 
2.43.0


From d7ec0c4e1add37ea82f2af91fd7138af0cbbaa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:58 +0000
Subject: [PATCH 27/66] fix: keep the position and the lock right when a
 seekable stream fails

---
 internal/bufioToReader.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/internal/bufioToReader.go b/internal/bufioToReader.go
index 0a64028..703aedc 100644
--- a/internal/bufioToReader.go
+++ b/internal/bufioToReader.go
@@ -2,6 +2,7 @@ package internal // import "vimagination.zapto.org/limage/internal"
 
 import (
 	"bufio"
+	"errors"
 	"io"
 	"sync"
 	"unsafe"
@@ -21,26 +22,32 @@ type readerAt struct {
 	readMutex  sync.Mutex
 	ReadSeeker io.ReadSeeker
 	pos        int64
+	posKnown   bool
 }
 
 func (r *readerAt) ReadAt(p []byte, offset int64) (int, error) {
+	if offset < 0 {
+		return 0, errNegativeOffset
+	}
+
 	r.readMutex.Lock()
+	defer r.readMutex.Unlock()
 
-	var (
-		n   int
-		err error
-	)
+	if !r.posKnown || offset != r.pos {
+		r.posKnown = false
 
-	if offset != r.pos {
-		r.pos, err = r.ReadSeeker.Seek(offset, io.SeekStart)
-		if err != nil {
+		if _, err := r.ReadSeeker.Seek(offset, io.SeekStart); err != nil {
 			return 0, err
 		}
 	}
 
-	n, err = r.ReadSeeker.Read(p)
-	r.pos += int64(n)
-	r.readMutex.Unlock()
+	n, err := io.ReadFull(r.ReadSeeker, p)
+	r.pos = offset + int64(n)
+	r.posKnown = err == nil
+
+	if errors.Is(err, io.ErrUnexpectedEOF) {
+		err = io.EOF
+	}
 
 	return n, err
 }
@@ -51,8 +58,6 @@ func bufioToReader(b *bufio.Reader) io.ReaderAt {
 	if ra, ok := br.rd.(io.ReaderAt); ok {
 		return ra
 	} else if rs, ok := br.rd.(io.ReadSeeker); ok {
-		rs.Seek(0, 0)
-
 		return &readerAt{
 			ReadSeeker: rs,
 		}
@@ -61,6 +66,8 @@ func bufioToReader(b *bufio.Reader) io.ReaderAt {
 	return nil
 }
 
+var errNegativeOffset = errors.New("negative offset")
+
 // GetReaderAt tries to make a io.ReaderAt from an io.Reader.
 func GetReaderAt(r io.Reader) io.ReaderAt {
 	if bb, ok := r.(*bufio.Reader); ok {
-- 
2.43.0


From 0cc7d9d79d45fcfa428f858515cb56fb58575317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:58 +0000
Subject: [PATCH 28/66] fix: find the source of a stream that is buffered twice

---
 internal/bufioToReader.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/internal/bufioToReader.go b/internal/bufioToReader.go
index 703aedc..474e32f 100644
--- a/internal/bufioToReader.go
+++ b/internal/bufioToReader.go
@@ -55,15 +55,7 @@ func (r *readerAt) ReadAt(p []byte, offset int64) (int, error) {
 func bufioToReader(b *bufio.Reader) io.ReaderAt {
 	br := (*bufioReader)(unsafe.Pointer(b))
 
-	if ra, ok := br.rd.(io.ReaderAt); ok {
-		return ra
-	} else if rs, ok := br.rd.(io.ReadSeeker); ok {
-		return &readerAt{
-			ReadSeeker: rs,
-		}
-	}
-
-	return nil
+	return GetReaderAt(br.rd)
 }
 
 var errNegativeOffset = errors.New("negative offset")
-- 
2.43.0


From 7ec122d528096956863e4e4e4a53d693d3bd3734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:13 +0000
Subject: [PATCH 29/66] fix: read xcf files larger than 16MiB

---
 xcf/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcf/reader.go b/xcf/reader.go
index 7926f6f..3d1a281 100644
--- a/xcf/reader.go
+++ b/xcf/reader.go
@@ -3,6 +3,7 @@ package xcf
 import (
 	"errors"
 	"io"
+	"math"
 	"unicode/utf8"
 
 	"vimagination.zapto.org/byteio"
@@ -15,7 +16,7 @@ type reader struct {
 
 func newReader(r io.ReaderAt) reader {
 	nr := reader{
-		rs: io.NewSectionReader(r, 0, maxString),
+		rs: io.NewSectionReader(r, 0, math.MaxInt64),
 	}
 
 	nr.StickyBigEndianReader = &byteio.StickyBigEndianReader{Reader: nr.rs}
-- 
2.43.0


From ca2f2ecb72c222141b62196d3d06e49b2a13521d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:13 +0000
Subject: [PATCH 30/66] fix: accept readers that report the end of an xcf file
 with its last bytes

---
 xcf/reader.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xcf/reader.go b/xcf/reader.go
index 3d1a281..a7e0026 100644
--- a/xcf/reader.go
+++ b/xcf/reader.go
@@ -14,12 +14,21 @@ type reader struct {
 	rs *io.SectionReader
 }
 
+// fullReader reads all that is asked for or gives an error.
+type fullReader struct {
+	io.Reader
+}
+
+func (f fullReader) Read(p []byte) (int, error) {
+	return io.ReadFull(f.Reader, p)
+}
+
 func newReader(r io.ReaderAt) reader {
 	nr := reader{
 		rs: io.NewSectionReader(r, 0, math.MaxInt64),
 	}
 
-	nr.StickyBigEndianReader = &byteio.StickyBigEndianReader{Reader: nr.rs}
+	nr.StickyBigEndianReader = &byteio.StickyBigEndianReader{Reader: fullReader{nr.rs}}
 
 	return nr
 }
-- 
2.43.0


From 59482954069b635fe43ad58948a2cb07599a5388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:13 +0000
Subject: [PATCH 31/66] fix: report failed seeks in xcf files

---
 xcf/reader.go | 4 +++-
 xcf/skip.go   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/xcf/reader.go b/xcf/reader.go
index a7e0026..ac4987f 100644
--- a/xcf/reader.go
+++ b/xcf/reader.go
@@ -63,7 +63,9 @@ func (r *reader) ReadString() string {
 }
 
 func (r *reader) Goto(n uint64) {
-	r.rs.Seek(int64(n), io.SeekStart)
+	if _, err := r.rs.Seek(int64(n), io.SeekStart); err != nil {
+		r.SetError(ErrInvalidSeek)
+	}
 }
 
 func (r *reader) SetError(err error) {
diff --git a/xcf/skip.go b/xcf/skip.go
index 078fca3..57acdd3 100644
--- a/xcf/skip.go
+++ b/xcf/skip.go
@@ -3,7 +3,9 @@ package xcf
 import "io"
 
 func (r *reader) Skip(n uint32) {
-	r.rs.Seek(int64(n), io.SeekCurrent)
+	if _, err := r.rs.Seek(int64(n), io.SeekCurrent); err != nil {
+		r.SetError(ErrInvalidSeek)
+	}
 }
 
 func (r *reader) SkipBoolProperty() {
-- 
2.43.0


From 05d9ce93dddf99576def4556915b52057b34953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:33 +0000
Subject: [PATCH 32/66] fix: read the precision of xcf files from version 4 in
 DecodeConfig

---
 xcf/decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 7b60fbc..205f45f 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -86,8 +86,8 @@ func DecodeConfig(r io.ReaderAt) (image.Config, error) {
 	c.Height = int(dr.ReadUint32())
 	baseType := dr.ReadUint32()
 
-	if mode == 2 {
-		dr.ReadUint32()
+	if mode > 0 {
+		dr.ReadUint32() // precision
 	}
 
 	switch baseType {
-- 
2.43.0


From c0d8a9faebf1b60c71eca83263dc15cd8c74a109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:33 +0000
Subject: [PATCH 33/66] fix: skip the colour map of xcf files that are not
 indexed and limit its size

---
 xcf/decoder.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 205f45f..06b1f08 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -61,6 +61,8 @@ const (
 	baseIndexed = 2
 )
 
+const maxColours = 256
+
 type decoder struct {
 	reader
 	compression uint8
@@ -242,9 +244,16 @@ PropertyLoop:
 		case propColorMap:
 			if baseType != baseIndexed {
 				dr.Skip(plength) // skip
+
+				continue
+			}
+
+			colours := dr.ReadUint32()
+			if colours > maxColours {
+				return nil, 0, ErrInvalidProperties
 			}
 
-			palette = make(lcolor.AlphaPalette, dr.ReadUint32())
+			palette = make(lcolor.AlphaPalette, colours)
 
 			for n := range palette {
 				palette[n] = lcolor.RGB{
-- 
2.43.0


From b88b04abddfc6c4479cfde2c6599b7e665d88ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:41 +0000
Subject: [PATCH 34/66] fix: skip xcf guides, paths, sample points and vectors
 by their length

---
 xcf/decoder.go | 18 +++------
 xcf/skip.go    | 99 --------------------------------------------------
 2 files changed, 5 insertions(+), 112 deletions(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 06b1f08..ac46755 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -267,18 +267,13 @@ PropertyLoop:
 				return nil, 0, ErrUnknownCompression
 			}
 		case propGuides:
-			ng := plength / 5
-
-			if ng*5 != plength {
+			if plength%5 != 0 {
 				return nil, 0, ErrInvalidGuideLength
 			}
 
-			for n := uint32(0); n < ng; n++ {
-				dr.SkipUint32()
-				dr.SkipBoolProperty()
-			}
+			dr.Skip(plength)
 		case propPaths:
-			dr.SkipPaths()
+			dr.Skip(plength)
 		case propResolution:
 			dr.SkipFloat32() // x
 			dr.SkipFloat32() // y
@@ -287,10 +282,7 @@ PropertyLoop:
 				return nil, 0, ErrInvalidSampleLength
 			}
 
-			for i := uint32(0); i < plength>>1; i++ {
-				dr.SkipUint32()
-				dr.SkipUint32()
-			}
+			dr.Skip(plength)
 		case propUnit:
 			if dr.ReadUint32() > 4 {
 				return nil, 0, ErrInvalidUnit
@@ -304,7 +296,7 @@ PropertyLoop:
 			dr.SkipString()  // singular name
 			dr.SkipString()  // plural name
 		case propVectors:
-			dr.SkipVectors()
+			dr.Skip(plength)
 		default:
 			dr.Skip(plength)
 		}
diff --git a/xcf/skip.go b/xcf/skip.go
index 57acdd3..c167f34 100644
--- a/xcf/skip.go
+++ b/xcf/skip.go
@@ -12,10 +12,6 @@ func (r *reader) SkipBoolProperty() {
 	r.Skip(4)
 }
 
-func (r *reader) SkipByte() {
-	r.Skip(1)
-}
-
 func (r *reader) SkipUint32() {
 	r.Skip(4)
 }
@@ -27,98 +23,3 @@ func (r *reader) SkipFloat32() {
 func (r *reader) SkipString() {
 	r.Skip(r.ReadUint32())
 }
-
-func (r *reader) SkipParasites(l uint32) {
-	r.Skip(l)
-}
-
-func (r *reader) SkipParasite() {
-	r.SkipString()         // name
-	r.SkipUint32()         // flags
-	r.Skip(r.ReadUint32()) // data[length]
-}
-
-func (r *reader) SkipPaths() {
-	r.SkipUint32() // aIndex
-
-	n := r.ReadUint32()
-
-	for i := uint32(0); i < n; i++ {
-		r.SkipString()       // name
-		r.SkipBoolProperty() // linked
-		r.SkipByte()         // state
-		r.SkipBoolProperty() // closed
-
-		np := r.ReadUint32()
-
-		switch r.ReadUint32() { // version
-		case 1:
-		case 2:
-			r.SkipUint32()
-		case 3:
-			r.SkipUint32()
-			r.SkipUint32() // tattoo
-		default:
-			r.SetError(ErrUnknownPathsVersion)
-
-			return
-		}
-
-		r.Skip(12 * np) // (control[4] + x[4] + y[4]) * np
-	}
-}
-
-func (r *reader) SkipVectors() {
-	if r.ReadUint32() != 1 { // version
-		r.SetError(ErrUnknownVectorVersion)
-
-		return
-	}
-
-	r.SkipUint32() // aIndex
-
-	n := r.ReadUint32()
-
-	for i := uint32(0); i < n; i++ {
-		r.SkipString()       // name
-		r.SkipUint32()       // tattoo
-		r.SkipBoolProperty() // visible
-		r.SkipBoolProperty() // linked
-
-		m := r.ReadUint32()
-		k := r.ReadUint32()
-
-		for j := uint32(0); j < m; j++ {
-			r.SkipParasite()
-		}
-
-		for j := uint32(0); j < k; j++ {
-			if r.ReadUint32() != 1 { // stroke type
-				r.SetError(ErrUnknownStrokeType)
-
-				return
-			}
-
-			r.SkipBoolProperty() // closed
-
-			nf := r.ReadUint32()
-			np := r.ReadUint32()
-
-			switch nf {
-			case 2, 3, 4, 5, 6:
-				/*
-					2: Bool + Float32 + Float32 = 5
-					3: +Float32 = 9
-					4: +Float32 = 13
-					5: +Float32 = 17
-					6: +Float32 = 21
-				*/
-				r.Skip(np * (nf*4 + 1))
-			default:
-				r.SetError(ErrInvalidFloatsNumber)
-
-				return
-			}
-		}
-	}
-}
-- 
2.43.0


From 24e71447eacc69d9be59c539a145087fb5a73e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:11 +0000
Subject: [PATCH 35/66] fix: skip the floating selection of xcf files by its
 length

---
 xcf/layer_decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index e8d4bcd..ab0ed5a 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -114,7 +114,7 @@ PropertyLoop:
 		case propEditMask:
 			d.SkipBoolProperty()
 		case propFloatingSelection:
-			d.SkipUint32()
+			d.Skip(plength)
 		case propGroupItem:
 			l.group = true
 		case propItemPath:
-- 
2.43.0


From e2edca8987fd2a56f25753a8b302c693a98fbe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:11 +0000
Subject: [PATCH 36/66] fix: read xcf strings, parasites and paths no further
 than the data

---
 xcf/layer_decode.go |  6 +++---
 xcf/parasites.go    | 20 +++++++++-----------
 xcf/reader.go       | 17 ++++++++++++-----
 3 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index ab0ed5a..e7089f8 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -236,10 +236,10 @@ func (l *layer) readItemPath(d *decoder, plength uint32) {
 		d.SetError(ErrInvalidItemPathLength)
 	}
 
-	l.itemPath = make([]rune, plength>>2)
+	l.itemPath = nil
 
-	for i := uint32(0); i < plength>>2; i++ {
-		l.itemPath[i] = rune(d.ReadUint32())
+	for i := uint32(0); i < plength>>2 && d.Err == nil; i++ {
+		l.itemPath = append(l.itemPath, rune(d.ReadUint32()))
 	}
 }
 
diff --git a/xcf/parasites.go b/xcf/parasites.go
index d36bdc6..b6a3240 100644
--- a/xcf/parasites.go
+++ b/xcf/parasites.go
@@ -36,27 +36,27 @@ func (p parasites) Get(name string) *parasite {
 func (d *reader) ReadParasites(l uint32) parasites {
 	ps := make(parasites, 0, 32)
 
-	for l > 0 {
+	for left := uint64(l); left > 0; {
 		var p parasite
 
 		p.name = d.ReadString()
 		p.flags = d.ReadUint32()
 		pplength := d.ReadUint32()
-		read := 4 + uint32(len(p.name)) + 1 // length (uint32) + string([]byte) + \0 (byte)
+		read := 4 + uint64(len(p.name)) + 1 // length (uint32) + string([]byte) + \0 (byte)
 		read += 4                           // flags
 		read += 4                           // pplength
-		read += pplength                    // len(data)
+		read += uint64(pplength)            // len(data)
 
-		if read > l {
+		if read > left {
 			d.SetError(ErrInvalidParasites)
+		}
 
+		if d.Err != nil {
 			return nil
 		}
 
-		l -= read
-		p.data = make([]byte, pplength)
-
-		d.Read(p.data)
+		left -= read
+		p.data = d.readBlock(pplength)
 
 		ps = append(ps, p)
 	}
@@ -71,9 +71,7 @@ func (d *reader) ReadParasite() parasite {
 	p.flags = d.ReadUint32()
 	pplength := d.ReadUint32()
 
-	p.data = make([]byte, pplength)
-
-	d.Read(p.data)
+	p.data = d.readBlock(pplength)
 
 	return p
 }
diff --git a/xcf/reader.go b/xcf/reader.go
index ac4987f..a49450c 100644
--- a/xcf/reader.go
+++ b/xcf/reader.go
@@ -1,6 +1,7 @@
 package xcf
 
 import (
+	"bytes"
 	"errors"
 	"io"
 	"math"
@@ -45,11 +46,8 @@ func (r *reader) ReadString() string {
 		return ""
 	}
 
-	b := make([]byte, length)
-
-	if _, err := io.ReadFull(r, b); err != nil {
-		r.Err = err
-
+	b := r.readBlock(length)
+	if r.Err != nil {
 		return ""
 	}
 
@@ -62,6 +60,15 @@ func (r *reader) ReadString() string {
 	return string(b[:length-1])
 }
 
+// readBlock reads a block whose size is not known to be right.
+func (r *reader) readBlock(length uint32) []byte {
+	var buf bytes.Buffer
+
+	io.CopyN(&buf, r, int64(length))
+
+	return buf.Bytes()
+}
+
 func (r *reader) Goto(n uint64) {
 	if _, err := r.rs.Seek(int64(n), io.SeekStart); err != nil {
 		r.SetError(ErrInvalidSeek)
-- 
2.43.0


From 6f6529248a341c819ae079427a66d6cab54d9e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:11 +0000
Subject: [PATCH 37/66] fix: read xcf tiles before making room for the image

---
 xcf/image_decode.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 9bb1b4c..147ccc8 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -4,7 +4,6 @@ import (
 	"image"
 	"image/color"
 	"io"
-	"math"
 
 	"vimagination.zapto.org/limage"
 	"vimagination.zapto.org/limage/lcolor"
@@ -38,6 +37,9 @@ func (d *decoder) ReadImage(width, height, mode uint32) image.Image {
 
 	if d.ReadUint32() != 0 {
 		d.SetError(ErrInconsistantData)
+	}
+
+	if d.Err != nil {
 		return nil
 	}
 
@@ -90,16 +92,12 @@ func (d *decoder) readLayerPointer() uint64 {
 }
 
 func (d *decoder) readTiles(width, height uint32) []uint64 {
-	tiles := make([]uint64, int(math.Ceil(float64(width)/64)*math.Ceil(float64(height)/64)))
+	var tiles []uint64
 
-	if d.mode < 2 {
-		for i := range tiles {
-			tiles[i] = uint64(d.ReadUint32())
-		}
-	} else {
-		for i := range tiles {
-			tiles[i] = d.ReadUint64()
-		}
+	n := (uint64(width) + 63) / 64 * ((uint64(height) + 63) / 64)
+
+	for i := uint64(0); i < n && d.Err == nil; i++ {
+		tiles = append(tiles, d.readLayerPointer())
 	}
 
 	return tiles
-- 
2.43.0


From d04e82431eb17f6050ddb7a008bbfc88c558b2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:12 +0000
Subject: [PATCH 38/66] fix: read xcf layer masks in deferred decoding and away
 from the origin

---
 xcf/channel.go      | 2 ++
 xcf/layer_decode.go | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/xcf/channel.go b/xcf/channel.go
index 56e79c6..67aff53 100644
--- a/xcf/channel.go
+++ b/xcf/channel.go
@@ -19,6 +19,8 @@ func (d *decoder) ReadChannel() *image.Gray {
 
 	d.Goto(hptr)
 
+	d.decompress = true // masks are always a *image.Gray
+
 	if im := d.ReadImage(width, height, 2); im != nil {
 		return im.(*image.Gray) // gray
 	}
diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index e7089f8..7e54f01 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -252,7 +252,7 @@ func (l *layer) readMask(d *decoder) {
 		return
 	}
 
-	if !l.LayerBounds.Eq(m.Mask.Bounds()) {
+	if l.LayerBounds.Size() != m.Mask.Bounds().Size() {
 		d.SetError(ErrInconsistantData)
 
 		return
-- 
2.43.0


From 249147521e587546fa2cf09e9a533215e466d929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:12 +0000
Subject: [PATCH 39/66] fix: refuse xcf images that are indexed without a
 palette and keep indexes in it

---
 xcf/compressed.go   |  5 +++--
 xcf/image_decode.go | 17 +++++++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/xcf/compressed.go b/xcf/compressed.go
index a2c4264..b559666 100644
--- a/xcf/compressed.go
+++ b/xcf/compressed.go
@@ -192,7 +192,7 @@ func (c *CompressedPaletted) At(x, y int) color.Color {
 	}
 
 	p := c.decompressTile(x, y)
-	i := c.decompressed[p]
+	i := validIndex(c.decompressed[p], len(c.Palette))
 	r, g, b, _ := c.Palette[i].RGBA()
 
 	return color.NRGBA{
@@ -228,7 +228,8 @@ func (c *CompressedPalettedAlpha) At(x, y int) color.Color {
 	}
 
 	p := c.decompressTile(x, y)
-	r, g, b, _ := c.Palette[c.decompressed[p]].RGBA()
+	i := validIndex(c.decompressed[p], len(c.Palette))
+	r, g, b, _ := c.Palette[i].RGBA()
 
 	return color.NRGBA{
 		R: uint8(r >> 8),
diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 147ccc8..6bda937 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -39,6 +39,10 @@ func (d *decoder) ReadImage(width, height, mode uint32) image.Image {
 		d.SetError(ErrInconsistantData)
 	}
 
+	if mode>>1 == baseIndexed && len(d.palette) == 0 {
+		d.SetError(ErrInconsistantData)
+	}
+
 	if d.Err != nil {
 		return nil
 	}
@@ -279,12 +283,21 @@ func (g grayImageReader) ReadColour(x, y int, pixel []byte) {
 	g.SetGray(x, y, color.Gray{pixel[0]})
 }
 
+// validIndex returns the first index in place of those not in the palette.
+func validIndex(index uint8, colours int) uint8 {
+	if int(index) >= colours {
+		return 0
+	}
+
+	return index
+}
+
 type indexedImageReader struct {
 	*image.Paletted
 }
 
 func (p indexedImageReader) ReadColour(x, y int, pixel []byte) {
-	p.SetColorIndex(x, y, pixel[0])
+	p.SetColorIndex(x, y, validIndex(pixel[0], len(p.Palette)))
 }
 
 type grayAlphaImageReader struct {
@@ -301,7 +314,7 @@ type palettedAlphaReader struct {
 
 func (p palettedAlphaReader) ReadColour(x, y int, pixels []byte) {
 	p.SetIndexAlpha(x, y, lcolor.IndexedAlpha{
-		I: pixels[0],
+		I: validIndex(pixels[0], len(p.Palette)),
 		A: pixels[1],
 	})
 }
-- 
2.43.0


From 124167243021640f22eb3952e0321e6abaee3e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:12 +0000
Subject: [PATCH 40/66] fix: read the same colour outside of deferred and other
 paletted xcf images

---
 xcf/compressed.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xcf/compressed.go b/xcf/compressed.go
index b559666..18f9c48 100644
--- a/xcf/compressed.go
+++ b/xcf/compressed.go
@@ -188,7 +188,7 @@ func (c *CompressedPaletted) At(x, y int) color.Color {
 	}
 
 	if !(image.Point{x, y}).In(c.Rect) {
-		return color.Gray{}
+		return c.Palette[0]
 	}
 
 	p := c.decompressTile(x, y)
@@ -224,7 +224,13 @@ func (c *CompressedPalettedAlpha) At(x, y int) color.Color {
 	}
 
 	if !(image.Point{x, y}).In(c.Rect) {
-		return color.Gray{}
+		r, g, b, _ := c.Palette[0].RGBA()
+
+		return color.NRGBA{
+			R: uint8(r >> 8),
+			G: uint8(g >> 8),
+			B: uint8(b >> 8),
+		}
 	}
 
 	p := c.decompressTile(x, y)
-- 
2.43.0


From cfb43e915055ae301c2dc1b15351392f4117b805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:12 +0000
Subject: [PATCH 41/66] fix: round the floating point opacity of xcf layers

---
 xcf/layer_decode.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index 7e54f01..e2155c0 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -143,7 +143,14 @@ PropertyLoop:
 		case propTextLayerFlags:
 			d.SkipUint32()
 		case propFloatOpacity:
-			l.Transparency = 255 - uint8(d.ReadFloat32()*255)
+			o := d.ReadFloat32()
+			if !(o >= 0 && o <= 1) {
+				d.SetError(ErrInvalidOpacity)
+
+				o = 1
+			}
+
+			l.Transparency = 255 - uint8(o*255+0.5)
 		default:
 			d.Skip(plength)
 		}
-- 
2.43.0


From 63e8f090e9b91c7be35a10a04d41148c7c2d9287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:12 +0000
Subject: [PATCH 42/66] fix: keep the blend modes of gray xcf layers and
 dissolve in indexed ones

---
 xcf/layer_decode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index e2155c0..13b27ea 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -124,9 +124,11 @@ PropertyLoop:
 		case propLockAlpha:
 			d.SkipBoolProperty()
 		case propMode:
-			if d.baseType != 0 {
+			if d.baseType == baseIndexed {
 				switch d.ReadUint32() {
-				case 2: // Behind
+				case 1:
+					l.Mode = limage.CompositeDissolve
+				case 2, 29: // Behind
 					l.Mode = limage.CompositeBehind
 				default:
 					l.Mode = limage.CompositeNormal
-- 
2.43.0


From aa4dfeac95bfd9f38e1c474d2ddf1667eaedf2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:12 +0000
Subject: [PATCH 43/66] fix: crop xcf layers to the canvas without moving their
 pixels and keep the masks of groups

---
 xcf/decoder.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index ac46755..2c60554 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -392,7 +392,13 @@ func makeGroups(layers []layer, bounds image.Rectangle) (map[string]*groupOffset
 			return nil, ErrInvalidGroup
 		}
 
+		l.Layer = l.SubImageLayer(bounds)
+
 		if l.group {
+			if groups[string(l.itemPath)] != nil {
+				return nil, ErrInvalidGroup
+			}
+
 			groups[string(l.itemPath)] = &groupOffset{
 				Group:   make(limage.Image, 0, 32),
 				OffsetX: l.LayerBounds.Min.X,
@@ -402,7 +408,7 @@ func makeGroups(layers []layer, bounds image.Rectangle) (map[string]*groupOffset
 			}
 		}
 
-		l.LayerBounds = l.LayerBounds.Intersect(bounds).Sub(image.Pt(g.OffsetX, g.OffsetY))
+		l.LayerBounds = l.LayerBounds.Sub(image.Pt(g.OffsetX, g.OffsetY))
 		g.Group = append(g.Group, l.Layer)
 	}
 
@@ -421,6 +427,9 @@ func makeImage(groups map[string]*groupOffset) limage.Image {
 
 		if g.Parent == nil {
 			im = ng
+		} else if m, ok := (*g.Parent)[g.Offset].Image.(limage.MaskedImage); ok {
+			m.Image = ng
+			(*g.Parent)[g.Offset].Image = m
 		} else {
 			(*g.Parent)[g.Offset].Image = ng
 		}
-- 
2.43.0


From 2dd4e928fc9c06f2d99e1c98c2d7349b7d73ecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:22 +0000
Subject: [PATCH 44/66] fix: do not let runs of xcf tiles cross channels

---
 xcf/image_decode.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 6bda937..41c561b 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -171,12 +171,16 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 			}
 
 			n := w * h
-			_, err := cr.Read(pixBuffer[:n*bpp])
-
-			d.SetError(err)
 
 			for i := uint32(0); i < bpp; i++ {
 				channels[i] = pixBuffer[n*i : n*(i+1)]
+				_, err := cr.Read(channels[i])
+
+				d.SetError(err)
+			}
+
+			if d.Err != nil {
+				return nil
 			}
 
 			for j := uint32(0); j < h; j++ {
-- 
2.43.0


From daf842f1cb1095e18f12b80fb895dafbda2ccda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:22 +0000
Subject: [PATCH 45/66] fix: limit the empty runs of xcf tiles

---
 xcf/rle.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/xcf/rle.go b/xcf/rle.go
index 8e5ee55..3dcbf8c 100644
--- a/xcf/rle.go
+++ b/xcf/rle.go
@@ -16,7 +16,7 @@ type rle struct {
 }
 
 func (r *rle) Read(p []byte) (int, error) {
-	var n int
+	var n, empty int
 
 	for len(p) > 0 && r.Reader.Err == nil {
 		if r.count == 0 {
@@ -49,6 +49,12 @@ func (r *rle) Read(p []byte) (int, error) {
 
 				return n, r.Reader.Err
 			}
+
+			if r.count == 0 {
+				if empty++; empty > maxEmptyRuns {
+					return n, ErrInvalidRLE
+				}
+			}
 		}
 
 		c := int(r.count)
@@ -77,7 +83,10 @@ func (r *rle) Read(p []byte) (int, error) {
 	return n, r.Reader.Err
 }
 
-const minRunLength = 3
+const (
+	minRunLength = 3
+	maxEmptyRuns = 64 * 64
+)
 
 func (w *writer) WriteRLE(data []byte) {
 	if len(data) == 0 {
@@ -154,8 +163,10 @@ func (w *writer) WriteRLEData(data []byte, run int, last byte) {
 
 func (d *decoder) readRLE(count int, buf *memio.Buffer) error {
 	bw := byteio.BigEndianWriter{Writer: buf}
+	empty := 0
 
-	for count > 0 {
+	for count > 0 && d.Err == nil {
+		left := count
 		c := d.reader.ReadUint8()
 
 		bw.WriteUint8(c)
@@ -185,6 +196,12 @@ func (d *decoder) readRLE(count int, buf *memio.Buffer) error {
 
 			io.CopyN(buf, d, 256-int64(c))
 		}
+
+		if count == left {
+			if empty++; empty > maxEmptyRuns {
+				return ErrInvalidRLE
+			}
+		}
 	}
 
 	if count < 0 {
-- 
2.43.0


From 6a26cab200897d22f088333474e01e281a0c5389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:22 +0000
Subject: [PATCH 46/66] fix: limit the memory used for overlapping blocks of
 xcf files

---
 xcf/decoder.go      |  1 +
 xcf/image_decode.go |  2 ++
 xcf/layer_decode.go |  2 ++
 xcf/parasites.go    |  2 ++
 xcf/reader.go       | 49 ++++++++++++++++++++++++++++++++++++++++++---
 5 files changed, 53 insertions(+), 3 deletions(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 2c60554..2407937 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -347,6 +347,7 @@ func readLayers(dr reader, r io.ReaderAt, layerptrs []uint64, baseType uint32, p
 				mode:        mode,
 			}
 
+			d.used = dr.used
 			d.Goto(lptr)
 
 			layers[n] = d.ReadLayer()
diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 41c561b..32602c5 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -101,6 +101,8 @@ func (d *decoder) readTiles(width, height uint32) []uint64 {
 	n := (uint64(width) + 63) / 64 * ((uint64(height) + 63) / 64)
 
 	for i := uint64(0); i < n && d.Err == nil; i++ {
+		d.use(4)
+
 		tiles = append(tiles, d.readLayerPointer())
 	}
 
diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index 13b27ea..c8798a7 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -248,6 +248,8 @@ func (l *layer) readItemPath(d *decoder, plength uint32) {
 	l.itemPath = nil
 
 	for i := uint32(0); i < plength>>2 && d.Err == nil; i++ {
+		d.use(4)
+
 		l.itemPath = append(l.itemPath, rune(d.ReadUint32()))
 	}
 }
diff --git a/xcf/parasites.go b/xcf/parasites.go
index b6a3240..ba64b1b 100644
--- a/xcf/parasites.go
+++ b/xcf/parasites.go
@@ -39,6 +39,8 @@ func (d *reader) ReadParasites(l uint32) parasites {
 	for left := uint64(l); left > 0; {
 		var p parasite
 
+		d.use(4)
+
 		p.name = d.ReadString()
 		p.flags = d.ReadUint32()
 		pplength := d.ReadUint32()
diff --git a/xcf/reader.go b/xcf/reader.go
index a49450c..72ab712 100644
--- a/xcf/reader.go
+++ b/xcf/reader.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"io"
 	"math"
+	"sync"
 	"unicode/utf8"
 
 	"vimagination.zapto.org/byteio"
@@ -12,9 +13,18 @@ import (
 
 type reader struct {
 	*byteio.StickyBigEndianReader
-	rs *io.SectionReader
+	rs   *io.SectionReader
+	used *used
 }
 
+// used adds up the sizes of blocks that do not overlap in valid files.
+type used struct {
+	sync.Mutex
+	size, end int64
+}
+
+const maxBlock = 64 * 1024
+
 // fullReader reads all that is asked for or gives an error.
 type fullReader struct {
 	io.Reader
@@ -26,7 +36,8 @@ func (f fullReader) Read(p []byte) (int, error) {
 
 func newReader(r io.ReaderAt) reader {
 	nr := reader{
-		rs: io.NewSectionReader(r, 0, math.MaxInt64),
+		rs:   io.NewSectionReader(r, 0, math.MaxInt64),
+		used: new(used),
 	}
 
 	nr.StickyBigEndianReader = &byteio.StickyBigEndianReader{Reader: fullReader{nr.rs}}
@@ -64,11 +75,43 @@ func (r *reader) ReadString() string {
 func (r *reader) readBlock(length uint32) []byte {
 	var buf bytes.Buffer
 
-	io.CopyN(&buf, r, int64(length))
+	for length > 0 && r.Err == nil {
+		n := length
+		if n > maxBlock {
+			n = maxBlock
+		}
+
+		r.use(int64(n))
+		io.CopyN(&buf, r, int64(n))
+
+		length -= n
+	}
 
 	return buf.Bytes()
 }
 
+// use notes that the next n bytes are read, which fails when more has been
+// read than there can be without overlaps.
+func (r *reader) use(n int64) {
+	pos, err := r.rs.Seek(0, io.SeekCurrent)
+	if err != nil {
+		r.SetError(ErrInvalidSeek)
+
+		return
+	}
+
+	r.used.Lock()
+	defer r.used.Unlock()
+
+	if end := pos + n; end > r.used.end {
+		r.used.end = end
+	}
+
+	if r.used.size += n; r.used.size > r.used.end {
+		r.SetError(ErrInconsistantData)
+	}
+}
+
 func (r *reader) Goto(n uint64) {
 	if _, err := r.rs.Seek(int64(n), io.SeekStart); err != nil {
 		r.SetError(ErrInvalidSeek)
-- 
2.43.0


From 461f1c5b2842daac38ff5ac32974bf0a1f939324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:22 +0000
Subject: [PATCH 47/66] fix: allow reading deferred xcf images from several
 goroutines

---
 xcf/compressed.go   | 28 ++++++++++++++++++++++++----
 xcf/image_decode.go | 29 ++++++++++++++++-------------
 2 files changed, 40 insertions(+), 17 deletions(-)

diff --git a/xcf/compressed.go b/xcf/compressed.go
index 18f9c48..1176b65 100644
--- a/xcf/compressed.go
+++ b/xcf/compressed.go
@@ -5,6 +5,7 @@ import (
 	"image"
 	"image/color"
 	"io"
+	"sync"
 
 	"vimagination.zapto.org/byteio"
 	"vimagination.zapto.org/limage/lcolor"
@@ -14,6 +15,7 @@ import (
 type compressedImage struct {
 	tiles        [][][]byte
 	width        int
+	lock         sync.Mutex
 	tile         int
 	decompressed [64 * 64 * 4]byte
 }
@@ -53,7 +55,7 @@ type CompressedRGB struct {
 }
 
 // ColorModel returns the RGB Color Model.
-func (CompressedRGB) ColorModel() color.Model { return lcolor.RGBModel }
+func (*CompressedRGB) ColorModel() color.Model { return lcolor.RGBModel }
 
 // Bounds returns a Rect containing the boundary data for the image.
 func (c *CompressedRGB) Bounds() image.Rectangle { return c.Rect }
@@ -67,6 +69,9 @@ func (c *CompressedRGB) RGBAt(x, y int) lcolor.RGB {
 		return lcolor.RGB{}
 	}
 
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	p := c.decompressTile(x, y)
 
 	return lcolor.RGB{
@@ -84,7 +89,7 @@ type CompressedNRGBA struct {
 }
 
 // ColorModel returns the NRGBA Color Model.
-func (CompressedNRGBA) ColorModel() color.Model { return color.NRGBAModel }
+func (*CompressedNRGBA) ColorModel() color.Model { return color.NRGBAModel }
 
 // Bounds returns a Rect containing the boundary data for the image.
 func (c *CompressedNRGBA) Bounds() image.Rectangle { return c.Rect }
@@ -98,6 +103,9 @@ func (c *CompressedNRGBA) NRGBAAt(x, y int) color.NRGBA {
 		return color.NRGBA{}
 	}
 
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	p := c.decompressTile(x, y)
 
 	return color.NRGBA{
@@ -116,7 +124,7 @@ type CompressedGray struct {
 }
 
 // ColorModel returns the Gray Color Model.
-func (CompressedGray) ColorModel() color.Model { return color.GrayModel }
+func (*CompressedGray) ColorModel() color.Model { return color.GrayModel }
 
 // Bounds returns a Rect containing the boundary data for the image.
 func (c *CompressedGray) Bounds() image.Rectangle { return c.Rect }
@@ -130,6 +138,9 @@ func (c *CompressedGray) GrayAt(x, y int) color.Gray {
 		return color.Gray{}
 	}
 
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	p := c.decompressTile(x, y)
 
 	return color.Gray{
@@ -145,7 +156,7 @@ type CompressedGrayAlpha struct {
 }
 
 // ColorModel returns the Gray Alpha Color Model.
-func (CompressedGrayAlpha) ColorModel() color.Model { return lcolor.GrayAlphaModel }
+func (*CompressedGrayAlpha) ColorModel() color.Model { return lcolor.GrayAlphaModel }
 
 // Bounds returns a Rect containing the boundary data for the image.
 func (c *CompressedGrayAlpha) Bounds() image.Rectangle { return c.Rect }
@@ -159,6 +170,9 @@ func (c *CompressedGrayAlpha) GrayAlphaAt(x, y int) lcolor.GrayAlpha {
 		return lcolor.GrayAlpha{}
 	}
 
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	p := c.decompressTile(x, y)
 
 	return lcolor.GrayAlpha{
@@ -191,6 +205,9 @@ func (c *CompressedPaletted) At(x, y int) color.Color {
 		return c.Palette[0]
 	}
 
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	p := c.decompressTile(x, y)
 	i := validIndex(c.decompressed[p], len(c.Palette))
 	r, g, b, _ := c.Palette[i].RGBA()
@@ -233,6 +250,9 @@ func (c *CompressedPalettedAlpha) At(x, y int) color.Color {
 		}
 	}
 
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	p := c.decompressTile(x, y)
 	i := validIndex(c.decompressed[p], len(c.Palette))
 	r, g, b, _ := c.Palette[i].RGBA()
diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 32602c5..f5c02a4 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -202,12 +202,7 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 }
 
 func (d *decoder) readCompressedImage(mode uint32, r image.Rectangle, bpp, width, height uint32, tiles []uint64) image.Image {
-	ci := compressedImage{
-		tiles: make([][][]byte, 0, len(tiles)),
-		width: int(width),
-		tile:  -1,
-	}
-
+	cTiles := make([][][]byte, 0, len(tiles))
 	buf := make(memio.Buffer, 0, 64*64*4)
 
 	for y := uint32(0); y < height; y += 64 {
@@ -240,23 +235,31 @@ func (d *decoder) readCompressedImage(mode uint32, r image.Rectangle, bpp, width
 				ts = append(ts, b)
 			}
 
-			ci.tiles = append(ci.tiles, ts)
+			cTiles = append(cTiles, ts)
+		}
+	}
+
+	ci := func() compressedImage {
+		return compressedImage{
+			tiles: cTiles,
+			width: int(width),
+			tile:  -1,
 		}
 	}
 
 	switch mode {
 	case 0: // rgb
-		return &CompressedRGB{ci, r}
+		return &CompressedRGB{ci(), r}
 	case 1: // rgba
-		return &CompressedNRGBA{ci, r}
+		return &CompressedNRGBA{ci(), r}
 	case 2: // gray
-		return &CompressedGray{ci, r}
+		return &CompressedGray{ci(), r}
 	case 3: // gray + alpha
-		return &CompressedGrayAlpha{ci, r}
+		return &CompressedGrayAlpha{ci(), r}
 	case 4: // indexed
-		return &CompressedPaletted{ci, r, color.Palette(d.palette)}
+		return &CompressedPaletted{ci(), r, color.Palette(d.palette)}
 	case 5: // indexed + alpha
-		return &CompressedPalettedAlpha{ci, r, d.palette}
+		return &CompressedPalettedAlpha{ci(), r, d.palette}
 	default:
 		return nil
 	}
-- 
2.43.0


From 669db9aed6f6deb320be22f91f581e5faf429625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:31 +0000
Subject: [PATCH 48/66] fix: write xcf layers at and over the bounds they are
 shown in

---
 xcf/channel.go      | 10 ++++------
 xcf/encoder.go      | 48 +++++++++++++++++++++++++++++++++------------
 xcf/image_encode.go |  4 ++--
 xcf/layer_encode.go |  8 ++++----
 4 files changed, 46 insertions(+), 24 deletions(-)

diff --git a/xcf/channel.go b/xcf/channel.go
index 67aff53..dd23976 100644
--- a/xcf/channel.go
+++ b/xcf/channel.go
@@ -52,16 +52,14 @@ func (d *decoder) skipProperties() {
 	}
 }
 
-func (e *encoder) WriteChannel(c *image.Gray) {
-	b := c.Bounds()
-
-	e.WriteUint32(uint32(b.Dx()))
-	e.WriteUint32(uint32(b.Dy()))
+func (e *encoder) WriteChannel(c *image.Gray, size image.Point) {
+	e.WriteUint32(uint32(size.X))
+	e.WriteUint32(uint32(size.Y))
 	e.WriteString("")
 
 	e.WriteUint32(0) // No properties
 	e.WriteUint32(0)
 
 	e.WriteUint32(uint32(e.pos) + 4) // hptr
-	e.WriteImage(c, (*encoder).grayToBuf, 1)
+	e.WriteImage(c, size, (*encoder).grayToBuf, 1)
 }
diff --git a/xcf/encoder.go b/xcf/encoder.go
index 2a3e9b2..b23be17 100644
--- a/xcf/encoder.go
+++ b/xcf/encoder.go
@@ -36,14 +36,19 @@ func Encode(w io.WriterAt, im image.Image) error {
 		im = limage.Image{*imt}
 	}
 
+	b := im.Bounds()
+
+	layers, ok := im.(limage.Image)
+	if !ok {
+		layers = flatImage(im)
+	}
+
 	e := encoder{
 		writer: newWriter(w),
 	}
 
 	e.Write(header)
 
-	b := im.Bounds()
-
 	e.WriteUint32(uint32(b.Dx()))
 	e.WriteUint32(uint32(b.Dy()))
 
@@ -95,20 +100,39 @@ func Encode(w io.WriterAt, im image.Image) error {
 	e.WriteUint32(0)
 	e.WriteUint32(0)
 
-	switch im := im.(type) {
-	case limage.Image:
-		pw := e.ReservePointerList(layerCount(im))
+	pw := e.ReservePointerList(layerCount(layers))
 
-		e.WriteUint32(0) // no channels
-		e.WriteLayers(im, 0, 0, make([]uint32, 0, 32), pw)
-	default:
-		pw := e.ReservePointerList(1)
+	e.WriteUint32(0) // no channels
+	e.WriteLayers(layers, -int32(b.Min.X), -int32(b.Min.Y), make([]uint32, 0, 32), pw)
+
+	return e.Err
+}
+
+// flatImage returns an image with a single layer that shows the given image.
+func flatImage(im image.Image) limage.Image {
+	b := im.Bounds()
 
-		e.WriteUint32(0) // no channels
-		e.WriteLayer(limage.Layer{Image: im}, 0, 0, []uint32{}, pw)
+	if b.Min != (image.Point{}) {
+		im = shifted{im, b.Min}
 	}
 
-	return e.Err
+	return limage.Image{
+		{
+			LayerBounds: b,
+			Image:       im,
+		},
+	}
+}
+
+// shifted is an image viewed with the given point at its origin.
+type shifted struct {
+	image.Image
+	origin image.Point
+}
+
+// At returns the colour at the specified coords.
+func (s shifted) At(x, y int) color.Color {
+	return s.Image.At(x+s.origin.X, y+s.origin.Y)
 }
 
 func layerCount(g limage.Image) uint32 {
diff --git a/xcf/image_encode.go b/xcf/image_encode.go
index 0d58042..d621418 100644
--- a/xcf/image_encode.go
+++ b/xcf/image_encode.go
@@ -7,8 +7,8 @@ import (
 	"vimagination.zapto.org/limage/lcolor"
 )
 
-func (e *encoder) WriteImage(im image.Image, colourFunc colourBufFunc, colourChannels uint8) {
-	bounds := im.Bounds()
+func (e *encoder) WriteImage(im image.Image, size image.Point, colourFunc colourBufFunc, colourChannels uint8) {
+	bounds := image.Rectangle{Max: size}
 
 	dx := int64(bounds.Dx())
 	dy := int64(bounds.Dy())
diff --git a/xcf/layer_encode.go b/xcf/layer_encode.go
index 22c49e2..a793026 100644
--- a/xcf/layer_encode.go
+++ b/xcf/layer_encode.go
@@ -47,7 +47,7 @@ func (e *encoder) WriteLayer(im limage.Layer, offsetX, offsetY int32, groups []u
 
 	writeProperties(e, im, offsetX, offsetY, groups, group, text)
 	e.WriteUint32(0)
-	writeLayer(e, img, mask)
+	writeLayer(e, img, mask, im.LayerBounds.Size())
 
 	if group != nil {
 		e.WriteLayers(group, offsetX, offsetY, groups, pw)
@@ -186,16 +186,16 @@ func modeID(mode limage.Composite) uint32 {
 	}
 }
 
-func writeLayer(e *encoder, img image.Image, mask *image.Gray) {
+func writeLayer(e *encoder, img image.Image, mask *image.Gray, size image.Point) {
 	ptrs := e.ReservePointers(2)
 
 	ptrs.WritePointer(uint32(e.pos))
 
-	e.WriteImage(img, e.colourFunc, e.colourChannels)
+	e.WriteImage(img, size, e.colourFunc, e.colourChannels)
 
 	if mask != nil {
 		ptrs.WritePointer(uint32(e.pos))
-		e.WriteChannel(mask)
+		e.WriteChannel(mask, size)
 	} else {
 		ptrs.WritePointer(0)
 	}
-- 
2.43.0


From 0406e504156615e1c9c917504db81b26574c5366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:31 +0000
Subject: [PATCH 49/66] fix: write groups and text layers that are masked to
 xcf files

---
 xcf/encoder.go      | 11 ++++++++++-
 xcf/layer_encode.go |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/xcf/encoder.go b/xcf/encoder.go
index b23be17..4597d5d 100644
--- a/xcf/encoder.go
+++ b/xcf/encoder.go
@@ -139,7 +139,16 @@ func layerCount(g limage.Image) uint32 {
 	count := uint32(len(g))
 
 	for _, l := range g {
-		switch g := l.Image.(type) {
+		im := l.Image
+
+		switch m := im.(type) {
+		case limage.MaskedImage:
+			im = m.Image
+		case *limage.MaskedImage:
+			im = m.Image
+		}
+
+		switch g := im.(type) {
 		case limage.Image:
 			count += layerCount(g)
 		case *limage.Image:
diff --git a/xcf/layer_encode.go b/xcf/layer_encode.go
index a793026..ea0c637 100644
--- a/xcf/layer_encode.go
+++ b/xcf/layer_encode.go
@@ -34,7 +34,7 @@ func (e *encoder) WriteLayer(im limage.Layer, offsetX, offsetY int32, groups []u
 		img = im.Image
 	}
 
-	switch i := im.Image.(type) {
+	switch i := img.(type) {
 	case limage.Text:
 		text = i.TextData
 	case *limage.Text:
-- 
2.43.0


From 98e8fefbb1f63eb781bcaa1dff43e297c9942438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:31 +0000
Subject: [PATCH 50/66] fix: use straight colours for the palette and pixels of
 xcf files

---
 xcf/encoder.go      | 52 ++++++++++++++++++++++++++++++++++++---------
 xcf/image_encode.go | 11 ++++++----
 2 files changed, 49 insertions(+), 14 deletions(-)

diff --git a/xcf/encoder.go b/xcf/encoder.go
index 4597d5d..bbb7144 100644
--- a/xcf/encoder.go
+++ b/xcf/encoder.go
@@ -58,23 +58,20 @@ func Encode(w io.WriterAt, im image.Image) error {
 		e.colourFunc = (*encoder).grayAlphaToBuf
 		e.colourChannels = 2
 	default:
-		switch m := cm.(type) {
-		case color.Palette:
-			e.colourPalette = lcolor.AlphaPalette(m)
-			e.colourType = 2
-			e.colourFunc = (*encoder).paletteAlphaToBuf
-			e.colourChannels = 2
-		case lcolor.AlphaPalette:
-			e.colourPalette = m
+		e.colourPalette = modelPalette(cm)
+
+		if l := len(e.colourPalette); l > 0 && l <= maxColours {
 			e.colourType = 2
 			e.colourFunc = (*encoder).paletteAlphaToBuf
 			e.colourChannels = 2
-		default:
+		} else {
+			e.colourPalette = nil
 			e.colourType = 0
 			e.colourFunc = (*encoder).rgbAlphaToBuf
 			e.colourChannels = 4
 		}
 	}
+
 	e.WriteUint32(uint32(e.colourType))
 
 	// write property list
@@ -85,7 +82,7 @@ func Encode(w io.WriterAt, im image.Image) error {
 		e.WriteUint32(uint32(len(e.colourPalette)))
 
 		for _, colour := range e.colourPalette {
-			rgb := lcolor.RGBModel.Convert(colour).(lcolor.RGB)
+			rgb := colour.(lcolor.RGB)
 
 			e.WriteUint8(rgb.R)
 			e.WriteUint8(rgb.G)
@@ -135,6 +132,41 @@ func (s shifted) At(x, y int) color.Color {
 	return s.Image.At(x+s.origin.X, y+s.origin.Y)
 }
 
+// modelPalette returns the colours that are written for a palette.
+func modelPalette(m color.Model) lcolor.AlphaPalette {
+	switch m := m.(type) {
+	case color.Palette:
+		return straightPalette(m)
+	case lcolor.AlphaPalette:
+		return opaquePalette(m)
+	}
+
+	return nil
+}
+
+// straightPalette returns the colours of a palette without their alpha.
+func straightPalette(p color.Palette) lcolor.AlphaPalette {
+	colours := make(lcolor.AlphaPalette, len(p))
+
+	for n, c := range p {
+		colours[n] = straight(color.NRGBAModel.Convert(c).(color.NRGBA))
+	}
+
+	return colours
+}
+
+// opaquePalette returns the colours of a palette as they appear over black,
+// which is how the images with such a palette show them.
+func opaquePalette(p lcolor.AlphaPalette) lcolor.AlphaPalette {
+	colours := make(lcolor.AlphaPalette, len(p))
+
+	for n, c := range p {
+		colours[n] = lcolor.RGBModel.Convert(c)
+	}
+
+	return colours
+}
+
 func layerCount(g limage.Image) uint32 {
 	count := uint32(len(g))
 
diff --git a/xcf/image_encode.go b/xcf/image_encode.go
index d621418..6d31928 100644
--- a/xcf/image_encode.go
+++ b/xcf/image_encode.go
@@ -86,8 +86,11 @@ func (e *encoder) grayToBuf(c color.Color) {
 }
 
 func (e *encoder) paletteAlphaToBuf(c color.Color) {
-	r, g, b, a := c.RGBA()
-	i := e.colourPalette.Index(lcolor.RGB{R: uint8(r), G: uint8(g), B: uint8(b)})
-	e.colourBuf[0] = uint8(i)
-	e.colourBuf[1] = uint8(a)
+	nrgba := color.NRGBAModel.Convert(c).(color.NRGBA)
+	e.colourBuf[0] = uint8(e.colourPalette.Index(straight(nrgba)))
+	e.colourBuf[1] = nrgba.A
+}
+
+func straight(c color.NRGBA) lcolor.RGB {
+	return lcolor.RGB{R: c.R, G: c.G, B: c.B}
 }
-- 
2.43.0


From 2132c89329799142c389e51f6bac152bf1a894e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:31 +0000
Subject: [PATCH 51/66] fix: write xcf files as gray or indexed only when all
 layers are

---
 xcf/encoder.go | 70 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 69 insertions(+), 1 deletion(-)

diff --git a/xcf/encoder.go b/xcf/encoder.go
index bbb7144..4fdd877 100644
--- a/xcf/encoder.go
+++ b/xcf/encoder.go
@@ -52,7 +52,7 @@ func Encode(w io.WriterAt, im image.Image) error {
 	e.WriteUint32(uint32(b.Dx()))
 	e.WriteUint32(uint32(b.Dy()))
 
-	switch cm := im.ColorModel(); cm {
+	switch cm := colourModel(im); cm {
 	case color.GrayModel, color.Gray16Model, lcolor.GrayAlphaModel:
 		e.colourType = 1
 		e.colourFunc = (*encoder).grayAlphaToBuf
@@ -132,6 +132,74 @@ func (s shifted) At(x, y int) color.Color {
 	return s.Image.At(x+s.origin.X, y+s.origin.Y)
 }
 
+// colourModel returns the model that is shared by all of the layers of the
+// given image.
+func colourModel(im image.Image) color.Model {
+	switch i := im.(type) {
+	case *limage.Image:
+		return colourModel(*i)
+	case limage.Image:
+		var model color.Model
+
+		for _, l := range i {
+			cm := colourModel(l.Image)
+
+			if model == nil {
+				model = cm
+			} else if cm != nil && !sameModel(model, cm) {
+				return color.NRGBAModel
+			}
+		}
+
+		return model
+	case limage.Layer:
+		return colourModel(i.Image)
+	case *limage.Layer:
+		return colourModel(i.Image)
+	case limage.MaskedImage:
+		return colourModel(i.Image)
+	case *limage.MaskedImage:
+		return colourModel(i.Image)
+	case limage.Text:
+		return colourModel(i.Image)
+	case *limage.Text:
+		return colourModel(i.Image)
+	}
+
+	return im.ColorModel()
+}
+
+// sameModel returns true if colours of both models can be written in the same
+// way.
+func sameModel(a, b color.Model) bool {
+	pa, pb := modelPalette(a), modelPalette(b)
+
+	if pa == nil && pb == nil {
+		return isGray(a) == isGray(b)
+	}
+
+	if len(pa) != len(pb) {
+		return false
+	}
+
+	for n := range pa {
+		if pa[n] != pb[n] {
+			return false
+		}
+	}
+
+	return true
+}
+
+func isGray(m color.Model) bool {
+	switch m {
+	case color.GrayModel, color.Gray16Model, lcolor.GrayAlphaModel:
+		return true
+	}
+
+	return false
+}
+
 // modelPalette returns the colours that are written for a palette.
 func modelPalette(m color.Model) lcolor.AlphaPalette {
 	switch m := m.(type) {
-- 
2.43.0


From e274a9ab2b91411d48bd607d333d93cb5dc8fe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:46 +0000
Subject: [PATCH 52/66] fix: keep the luminance mode in xcf files

---
 xcf/layer_encode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xcf/layer_encode.go b/xcf/layer_encode.go
index ea0c637..53dcb07 100644
--- a/xcf/layer_encode.go
+++ b/xcf/layer_encode.go
@@ -173,6 +173,8 @@ func modeID(mode limage.Composite) uint32 {
 		return 52
 	case limage.CompositeLinearBurn:
 		return 53
+	case limage.CompositeLuminance:
+		return 56
 	case limage.CompositeErase:
 		return 58
 	case limage.CompositeMerge:
-- 
2.43.0


From 38ee0bd64c1f5287b399a1693642a9e4c33eec98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:44 +0000
Subject: [PATCH 53/66] fix: accept text layers without colours when writing
 xcf files

---
 xcf/text.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/xcf/text.go b/xcf/text.go
index 8344279..3271d9b 100644
--- a/xcf/text.go
+++ b/xcf/text.go
@@ -228,7 +228,7 @@ func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
 		data = append(data, "</markup>\")\n"...)
 	}
 
-	r, g, b, _ := base.ForeColor.RGBA()
+	r, g, b := foreground(base)
 
 	data = fmt.Appendf(data, "(font %q)\n"+
 		"(font-size %d.000000000)\n"+
@@ -258,17 +258,30 @@ func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
 	e.Write(data)
 }
 
+// foreground returns the colour of the text, which is black when not set.
+func foreground(td limage.TextDatum) (uint32, uint32, uint32) {
+	if td.ForeColor == nil {
+		return 0, 0, 0
+	}
+
+	r, g, b, _ := td.ForeColor.RGBA()
+
+	return r, g, b
+}
+
 func writeTextMarkup(td limage.TextDatum, data []byte) []byte {
 	closers := make([]string, 0)
 
-	if r, g, b, _ := td.ForeColor.RGBA(); r != 0 || g != 0 || b != 0 {
+	if r, g, b := foreground(td); r != 0 || g != 0 || b != 0 {
 		data = fmt.Appendf(data, "<span foreground=\\\"#%02X%02X%02X\\\">", r>>8, g>>8, b>>8)
 		closers = append(closers, "</span>")
 	}
 
-	if r, g, b, _ := td.BackColor.RGBA(); r != 0 || g != 0 || b != 0 {
-		data = fmt.Appendf(data, "<span background=\\\"#%02X%02X%02X\\\">", r, g, b)
-		closers = append(closers, "</span>")
+	if td.BackColor != nil {
+		if r, g, b, a := td.BackColor.RGBA(); a != 0 {
+			data = fmt.Appendf(data, "<span background=\\\"#%02X%02X%02X\\\">", r>>8, g>>8, b>>8)
+			closers = append(closers, "</span>")
+		}
 	}
 
 	if td.Font != "Sans" {
-- 
2.43.0


From 310deab32eb2e61f32f2927ace73348b9080c000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:45 +0000
Subject: [PATCH 54/66] fix: write and read the colour of xcf text in the range
 of GIMP

---
 xcf/text.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/xcf/text.go b/xcf/text.go
index 3271d9b..ed25a83 100644
--- a/xcf/text.go
+++ b/xcf/text.go
@@ -96,11 +96,12 @@ func parseText(tags []tag) (string, limage.TextDatum) {
 			if len(tg.Values) == 1 {
 				t, _ := tg.Values[0].(tag)
 
-				if t.Name == "color-rgb" && len(t.Values) != 3 {
-					r, _ := t.Values[0].(float64)
-					g, _ := t.Values[1].(float64)
-					b, _ := t.Values[2].(float64)
-					defaultText.ForeColor = lcolor.RGB{R: uint8(r), G: uint8(g), B: uint8(b)}
+				if t.Name == "color-rgb" && len(t.Values) == 3 {
+					defaultText.ForeColor = lcolor.RGB{
+						R: colourValue(t.Values[0]),
+						G: colourValue(t.Values[1]),
+						B: colourValue(t.Values[2]),
+					}
 				}
 			}
 		case "justify":
@@ -115,6 +116,17 @@ func parseText(tags []tag) (string, limage.TextDatum) {
 	return textData, defaultText
 }
 
+// colourValue converts a value in the range of 0 to 1.
+func colourValue(v interface{}) uint8 {
+	f, _ := v.(float64)
+
+	if f >= 1 {
+		return 255
+	}
+
+	return uint8(f*255 + 0.5)
+}
+
 func processText(t xml.StartElement, nt limage.TextDatum) (limage.TextDatum, error) {
 	switch t.Name.Local {
 	case "markup":
@@ -232,17 +244,17 @@ func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
 
 	data = fmt.Appendf(data, "(font %q)\n"+
 		"(font-size %d.000000000)\n"+
-		"(font-size-units pixels)\n"+
+		"(font-size-unit pixels)\n"+
 		"(antialias yes)\n"+
 		"(base-direction ltr)\n"+
-		"(color (color-rgb %d.000000 %d.000000 %d.000000))\n"+
+		"(color (color-rgb %.6f %.6f %.6f))\n"+
 		"(justify left)\n"+
 		"(box-mode dynamic)\n"+
 		"(box-width %d.000000)\n"+
 		"(box-height %d.000000)\n"+
 		"(box-unit pixels)\n"+
 		"(hinting yes)\n"+
-		"\x00", base.Font, base.Size, r>>8, g>>8, b>>8, dx, dy)
+		"\x00", base.Font, base.Size, float64(r>>8)/255, float64(g>>8)/255, float64(b>>8)/255, dx, dy)
 
 	// write base
 
-- 
2.43.0


From 68dc0490a02897c47d482e916348d29ebe97b4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:58 +0000
Subject: [PATCH 55/66] fix: quote the text of xcf files so that it is read
 unchanged

---
 xcf/parasites.go | 43 +++++++++++++++++++-----
 xcf/text.go      | 86 ++++++++++++++++++++++++++++--------------------
 2 files changed, 85 insertions(+), 44 deletions(-)

diff --git a/xcf/parasites.go b/xcf/parasites.go
index ba64b1b..79ad93b 100644
--- a/xcf/parasites.go
+++ b/xcf/parasites.go
@@ -107,6 +107,7 @@ const (
 	chars      = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
 	valName    = chars + "-"
 	digit      = "1234567890"
+	octal      = "01234567"
 	quoted     = "\""
 	whitespace = "\n\r "
 )
@@ -287,17 +288,10 @@ func quotedString(t *parser.Tokeniser) string {
 		s += t.Get()
 
 		if t.Accept("\\") {
-			c := string(t.Peek())
-			switch c {
-			case "\"", "\\":
-				s += c
-			default:
-				s += "\\" + c
-			}
-
-			t.Accept(c)
 			t.Get()
 
+			s += escaped(t)
+
 			continue
 		}
 
@@ -310,6 +304,37 @@ func quotedString(t *parser.Tokeniser) string {
 	return s
 }
 
+// escaped reads what follows a backslash.
+func escaped(t *parser.Tokeniser) string {
+	if t.Accept(octal) {
+		for i := 0; i < 2 && t.Accept(octal); i++ {
+		}
+
+		n, _ := strconv.ParseUint(t.Get(), 8, 32)
+
+		return string([]byte{byte(n)})
+	}
+
+	t.Accept(string(t.Peek()))
+
+	switch c := t.Get(); c {
+	case "\"", "\\":
+		return c
+	case "n":
+		return "\n"
+	case "t":
+		return "\t"
+	case "r":
+		return "\r"
+	case "b":
+		return "\b"
+	case "f":
+		return "\f"
+	default:
+		return "\\" + c
+	}
+}
+
 // Errors.
 var (
 	ErrInvalidParasites = errors.New("invalid parasites layout")
diff --git a/xcf/text.go b/xcf/text.go
index ed25a83..b808604 100644
--- a/xcf/text.go
+++ b/xcf/text.go
@@ -5,12 +5,10 @@ import (
 	"encoding/xml"
 	"errors"
 	"fmt"
-	"html"
 	"image/color"
 	"io"
 	"strconv"
 	"strings"
-	"unsafe"
 
 	"vimagination.zapto.org/limage"
 	"vimagination.zapto.org/limage/lcolor"
@@ -193,27 +191,34 @@ func processText(t xml.StartElement, nt limage.TextDatum) (limage.TextDatum, err
 	return nt, nil
 }
 
-type quoteWriter struct {
-	*bytes.Buffer
-}
-
-func (q *quoteWriter) Write(b []byte) (int, error) {
-	return q.WriteString(*(*string)(unsafe.Pointer(&b)))
-}
-
-func (q *quoteWriter) WriteString(s string) (int, error) {
-	for _, r := range s {
-		switch r {
-		case '\\':
-			q.Buffer.WriteString("\\\\")
-		case '"':
-			q.Buffer.WriteString("\\\"")
+// appendQuoted appends the string with quotes and, like GIMP, with all control
+// characters escaped.
+func appendQuoted(data []byte, str string) []byte {
+	data = append(data, '"')
+
+	for _, c := range []byte(str) {
+		switch {
+		case c == '"' || c == '\\':
+			data = append(data, '\\', c)
+		case c == '\n':
+			data = append(data, "\\n"...)
+		case c < ' ' || c == 0x7f:
+			data = fmt.Appendf(data, "\\%03o", c)
 		default:
-			q.Buffer.WriteRune(r)
+			data = append(data, c)
 		}
 	}
 
-	return len(s), nil
+	return append(data, '"')
+}
+
+// appendEscaped appends the string as XML text.
+func appendEscaped(data []byte, str string) []byte {
+	var buf bytes.Buffer
+
+	xml.EscapeText(&buf, []byte(str))
+
+	return append(data, buf.Bytes()...)
 }
 
 func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
@@ -224,25 +229,33 @@ func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
 
 	if len(text) == 1 {
 		base = text[0]
-		data = fmt.Appendf(data, "(text %q)\n", base.Data)
+		data = append(data, "(text "...)
+		data = appendQuoted(data, base.Data)
+		data = append(data, ")\n"...)
 	} else {
 		base = limage.TextDatum{
 			Font: "Sans",
 			Size: 18,
 		}
 
-		data = append(data, "(markup \"<markup>"...)
+		markup := []byte("<markup>")
 
 		for _, td := range text {
-			data = writeTextMarkup(td, data)
+			markup = writeTextMarkup(td, markup)
 		}
 
-		data = append(data, "</markup>\")\n"...)
+		markup = append(markup, "</markup>"...)
+
+		data = append(data, "(markup "...)
+		data = appendQuoted(data, string(markup))
+		data = append(data, ")\n"...)
 	}
 
 	r, g, b := foreground(base)
 
-	data = fmt.Appendf(data, "(font %q)\n"+
+	data = append(data, "(font "...)
+	data = appendQuoted(data, base.Font)
+	data = fmt.Appendf(data, ")\n"+
 		"(font-size %d.000000000)\n"+
 		"(font-size-unit pixels)\n"+
 		"(antialias yes)\n"+
@@ -254,7 +267,7 @@ func (e *encoder) WriteText(text limage.TextData, dx, dy uint32) {
 		"(box-height %d.000000)\n"+
 		"(box-unit pixels)\n"+
 		"(hinting yes)\n"+
-		"\x00", base.Font, base.Size, float64(r>>8)/255, float64(g>>8)/255, float64(b>>8)/255, dx, dy)
+		"\x00", base.Size, float64(r>>8)/255, float64(g>>8)/255, float64(b>>8)/255, dx, dy)
 
 	// write base
 
@@ -284,20 +297,23 @@ func foreground(td limage.TextDatum) (uint32, uint32, uint32) {
 func writeTextMarkup(td limage.TextDatum, data []byte) []byte {
 	closers := make([]string, 0)
 
-	if r, g, b := foreground(td); r != 0 || g != 0 || b != 0 {
-		data = fmt.Appendf(data, "<span foreground=\\\"#%02X%02X%02X\\\">", r>>8, g>>8, b>>8)
-		closers = append(closers, "</span>")
-	}
+	r, g, b := foreground(td)
+
+	// always written, so that the parts are kept apart.
+	data = fmt.Appendf(data, "<span foreground=\"#%02X%02X%02X\">", r>>8, g>>8, b>>8)
+	closers = append(closers, "</span>")
 
 	if td.BackColor != nil {
 		if r, g, b, a := td.BackColor.RGBA(); a != 0 {
-			data = fmt.Appendf(data, "<span background=\\\"#%02X%02X%02X\\\">", r>>8, g>>8, b>>8)
+			data = fmt.Appendf(data, "<span background=\"#%02X%02X%02X\">", r>>8, g>>8, b>>8)
 			closers = append(closers, "</span>")
 		}
 	}
 
 	if td.Font != "Sans" {
-		data = fmt.Appendf(data, "<span font=%q>", td.Font)
+		data = append(data, "<span font=\""...)
+		data = appendEscaped(data, td.Font)
+		data = append(data, "\">"...)
 		closers = append(closers, "</span>")
 	}
 
@@ -322,21 +338,21 @@ func writeTextMarkup(td limage.TextDatum, data []byte) []byte {
 	}
 
 	if td.LetterSpacing != 0 {
-		data = fmt.Appendf(data, "<span letter_spacing=\\\"%d\\\">", td.LetterSpacing<<10)
+		data = fmt.Appendf(data, "<span letter_spacing=\"%d\">", uint64(td.LetterSpacing)<<10)
 		closers = append(closers, "</span>")
 	}
 
 	if td.Size != 18 {
-		data = fmt.Appendf(data, "<span size=\\\"%d\\\">", td.Size<<10)
+		data = fmt.Appendf(data, "<span size=\"%d\">", uint64(td.Size)<<10)
 		closers = append(closers, "</span>")
 	}
 
 	if td.Rise != 0 {
-		data = fmt.Appendf(data, "<span rise=\\\"%d\\\">", td.Rise<<10)
+		data = fmt.Appendf(data, "<span rise=\"%d\">", uint64(td.Rise)<<10)
 		closers = append(closers, "</span>")
 	}
 
-	data = fmt.Appendf(data, "%q", html.EscapeString(td.Data))
+	data = appendEscaped(data, td.Data)
 
 	for i := len(closers) - 1; i >= 0; i-- {
 		data = append(data, closers[i]...)
-- 
2.43.0


From e022da52eab4a2a08e111336e065fbfefad1dfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:24 +0000
Subject: [PATCH 56/66] fix: do not panic on or lose xcf text without values

---
 xcf/text.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/xcf/text.go b/xcf/text.go
index b808604..31f7276 100644
--- a/xcf/text.go
+++ b/xcf/text.go
@@ -20,9 +20,9 @@ func parseTextData(t *parasite) (limage.TextData, error) {
 		return nil, err
 	}
 
-	textData, defaultText := parseText(tags)
+	textData, defaultText, hasText := parseText(tags)
 
-	if defaultText.Data != "" {
+	if hasText {
 		return limage.TextData{defaultText}, nil
 	}
 
@@ -60,10 +60,11 @@ func parseTextData(t *parasite) (limage.TextData, error) {
 	return td, nil
 }
 
-func parseText(tags []tag) (string, limage.TextDatum) {
+func parseText(tags []tag) (string, limage.TextDatum, bool) {
 	var (
 		textData    string
 		defaultText limage.TextDatum
+		hasText     bool
 	)
 
 	defaultText.BackColor = color.Alpha{}
@@ -72,7 +73,9 @@ func parseText(tags []tag) (string, limage.TextDatum) {
 	for _, tg := range tags {
 		switch tg.Name {
 		case "text":
-			defaultText.Data, _ = tg.Values[0].(string)
+			if len(tg.Values) == 1 {
+				defaultText.Data, hasText = tg.Values[0].(string)
+			}
 		case "markup":
 			if len(tg.Values) == 1 {
 				textData, _ = tg.Values[0].(string)
@@ -111,7 +114,7 @@ func parseText(tags []tag) (string, limage.TextDatum) {
 		}
 	}
 
-	return textData, defaultText
+	return textData, defaultText, hasText
 }
 
 // colourValue converts a value in the range of 0 to 1.
-- 
2.43.0


From 249ab73166af047b9d57591c4c71e9e0199c7f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:24 +0000
Subject: [PATCH 57/66] fix: accept all sizes, spacings and rises in xcf text
 and read its background

---
 xcf/text.go | 76 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 44 insertions(+), 32 deletions(-)

diff --git a/xcf/text.go b/xcf/text.go
index 31f7276..d0a3acc 100644
--- a/xcf/text.go
+++ b/xcf/text.go
@@ -137,48 +137,31 @@ func processText(t xml.StartElement, nt limage.TextDatum) (limage.TextDatum, err
 			case "font":
 				nt.Font = a.Value
 			case "foreground":
-				if len(a.Value) == 7 && a.Value[0] == '#' {
-					n, err := strconv.ParseUint(a.Value[1:], 16, 32)
-					if err != nil {
-						return nt, err
-					}
-
-					nt.ForeColor = color.RGBA{uint8(n >> 16), uint8((n >> 8) & 255), uint8(n & 255), 255}
-				} else if len(a.Value) == 4 && a.Value[0] == '#' {
-					n, err := strconv.ParseUint(a.Value[1:], 16, 32)
-					if err != nil {
-						return nt, err
-					}
-
-					r := (n >> 4) & 240
-					r |= r >> 4
-					g := n & 240
-					g |= g >> 4
-					b := n & 15
-					b |= b << 4
-					nt.ForeColor = color.RGBA{uint8(r), uint8(g), uint8(b), 255}
-				}
-			case "size":
-				s, err := strconv.ParseUint(a.Value, 10, 32)
+				c, err := textColour(a.Value, nt.ForeColor)
 				if err != nil {
 					return nt, err
 				}
 
-				nt.Size = uint32(s) >> 10
-			case "letter_spacing":
-				ls, err := strconv.ParseUint(a.Value, 10, 32)
+				nt.ForeColor = c
+			case "background":
+				c, err := textColour(a.Value, nt.BackColor)
 				if err != nil {
 					return nt, err
 				}
 
-				nt.LetterSpacing = uint32(ls) >> 10
+				nt.BackColor = c
+			case "size":
+				if s, err := strconv.ParseUint(a.Value, 10, 42); err == nil {
+					nt.Size = uint32(s >> 10)
+				}
+			case "letter_spacing":
+				if ls, err := strconv.ParseUint(a.Value, 10, 42); err == nil {
+					nt.LetterSpacing = uint32(ls >> 10)
+				}
 			case "rise":
-				r, err := strconv.ParseUint(a.Value, 10, 32)
-				if err != nil {
-					return nt, err
+				if r, err := strconv.ParseUint(a.Value, 10, 42); err == nil {
+					nt.Rise = uint32(r >> 10)
 				}
-
-				nt.Rise = uint32(r) >> 10
 			}
 		}
 	case "b":
@@ -194,6 +177,35 @@ func processText(t xml.StartElement, nt limage.TextDatum) (limage.TextDatum, err
 	return nt, nil
 }
 
+// textColour reads a colour of the form #rgb or #rrggbb, giving the current one
+// for other forms.
+func textColour(value string, current color.Color) (color.Color, error) {
+	if len(value) == 7 && value[0] == '#' {
+		n, err := strconv.ParseUint(value[1:], 16, 32)
+		if err != nil {
+			return nil, err
+		}
+
+		return color.RGBA{uint8(n >> 16), uint8((n >> 8) & 255), uint8(n & 255), 255}, nil
+	} else if len(value) == 4 && value[0] == '#' {
+		n, err := strconv.ParseUint(value[1:], 16, 32)
+		if err != nil {
+			return nil, err
+		}
+
+		r := (n >> 4) & 240
+		r |= r >> 4
+		g := n & 240
+		g |= g >> 4
+		b := n & 15
+		b |= b << 4
+
+		return color.RGBA{uint8(r), uint8(g), uint8(b), 255}, nil
+	}
+
+	return current, nil
+}
+
 // appendQuoted appends the string with quotes and, like GIMP, with all control
 // characters escaped.
 func appendQuoted(data []byte, str string) []byte {
-- 
2.43.0


From 16af4180f9f725688d176ac20eef673f052592df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:24 +0000
Subject: [PATCH 58/66] fix: stop at invalid and deeply nested xcf text
 descriptions

---
 xcf/parasites.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/xcf/parasites.go b/xcf/parasites.go
index 79ad93b..24f314f 100644
--- a/xcf/parasites.go
+++ b/xcf/parasites.go
@@ -86,7 +86,7 @@ func (ps *parasite) Parse() ([]tag, error) {
 	tags := make([]tag, 0, 32)
 
 	for {
-		tag, err := readTag(&p)
+		tag, err := readTag(&p, maxTagDepth)
 		if err != nil {
 			if !errors.Is(p.Err, io.EOF) {
 				return nil, err
@@ -120,13 +120,19 @@ const (
 	tokenValueNumber
 )
 
+const maxTagDepth = 64
+
 // Tag represents a single tag from a parsed Parasite.
 type tag struct {
 	Name   string
 	Values []interface{}
 }
 
-func readTag(p *parser.Parser) (tag, error) {
+func readTag(p *parser.Parser, depth int) (tag, error) {
+	if depth == 0 {
+		return tag{}, ErrInvalidParasites
+	}
+
 	if p.Accept(parser.TokenDone) {
 		return tag{}, io.EOF
 	}
@@ -171,7 +177,7 @@ func readTag(p *parser.Parser) (tag, error) {
 
 			return tg, nil
 		case tokenOpen:
-			ttg, err := readTag(p)
+			ttg, err := readTag(p, depth-1)
 
 			p.TokeniserState(valueTK)
 
@@ -268,6 +274,12 @@ func valueTK(t *parser.Tokeniser) (parser.Token, parser.TokenFunc) {
 		}, valueTK
 	}
 
+	if !t.Accept(valName) {
+		t.Err = ErrInvalidParasites
+
+		return t.Error()
+	}
+
 	t.AcceptRun(valName)
 
 	return parser.Token{
-- 
2.43.0


From 1f1755b5377c7da3bdbfdf2edbc99c5211ae52f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:25 +0000
Subject: [PATCH 59/66] fix: stop reading deferred xcf tiles at the first error

---
 xcf/image_decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index f5c02a4..ec176fc 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -236,6 +236,10 @@ func (d *decoder) readCompressedImage(mode uint32, r image.Rectangle, bpp, width
 			}
 
 			cTiles = append(cTiles, ts)
+
+			if d.Err != nil {
+				return nil
+			}
 		}
 	}
 
-- 
2.43.0


From 5580338e233a5fd551d61900af936151f2f9b98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:40 +0000
Subject: [PATCH 60/66] fix: do not copy xcf text for every escape in it

---
 xcf/parasites.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xcf/parasites.go b/xcf/parasites.go
index 24f314f..190337b 100644
--- a/xcf/parasites.go
+++ b/xcf/parasites.go
@@ -292,17 +292,17 @@ func quotedString(t *parser.Tokeniser) string {
 	t.Accept(quoted)
 	t.Get()
 
-	var s string
+	var s strings.Builder
 
 	for {
 		t.ExceptRun(quoted + "\\")
 
-		s += t.Get()
+		s.WriteString(t.Get())
 
 		if t.Accept("\\") {
 			t.Get()
 
-			s += escaped(t)
+			s.WriteString(escaped(t))
 
 			continue
 		}
@@ -313,7 +313,7 @@ func quotedString(t *parser.Tokeniser) string {
 	t.Accept(quoted)
 	t.Get()
 
-	return s
+	return s.String()
 }
 
 // escaped reads what follows a backslash.
-- 
2.43.0


From dbdbea79a3ee354ec75541b7608b9829345e7e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:47 +0000
Subject: [PATCH 61/66] fix: read xcf tiles that are not compressed pixel by
 pixel

---
 xcf/image_decode.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index ec176fc..97a8d05 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -3,7 +3,6 @@ package xcf
 import (
 	"image"
 	"image/color"
-	"io"
 
 	"vimagination.zapto.org/limage"
 	"vimagination.zapto.org/limage/lcolor"
@@ -146,13 +145,7 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 		imReader = palettedAlphaReader{in}
 	}
 
-	var cr io.Reader
-
-	if d.compression == 0 { // no compression
-		cr = &d.reader
-	} else { // rle
-		cr = &rle{Reader: d.reader.StickyBigEndianReader}
-	}
+	cr := &rle{Reader: d.reader.StickyBigEndianReader}
 
 	pixel := make([]byte, bpp)
 	channels := make([][]byte, bpp)
@@ -174,19 +167,35 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 
 			n := w * h
 
-			for i := uint32(0); i < bpp; i++ {
-				channels[i] = pixBuffer[n*i : n*(i+1)]
-				_, err := cr.Read(channels[i])
+			if d.compression == 0 { // no compression
+				_, err := d.Read(pixBuffer[:n*bpp])
 
 				d.SetError(err)
+			} else { // rle
+				for i := uint32(0); i < bpp; i++ {
+					channels[i] = pixBuffer[n*i : n*(i+1)]
+					_, err := cr.Read(channels[i])
+
+					d.SetError(err)
+				}
 			}
 
 			if d.Err != nil {
 				return nil
 			}
 
+			pixels := pixBuffer[:n*bpp]
+
 			for j := uint32(0); j < h; j++ {
 				for i := uint32(0); i < w; i++ {
+					if d.compression == 0 {
+						imReader.ReadColour(int(x+i), int(y+j), pixels[:bpp])
+
+						pixels = pixels[bpp:]
+
+						continue
+					}
+
 					for k := uint32(0); k < bpp; k++ {
 						pixel[k] = channels[k][0]
 						channels[k] = channels[k][1:]
-- 
2.43.0


From 35612ba1baad1d9366fec91a969615b79c44c9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:00 +0000
Subject: [PATCH 62/66] fix: do not loop forever on xcf layers without a width

---
 xcf/image_decode.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 97a8d05..c985b82 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -150,8 +150,8 @@ func (d *decoder) readAndDecompressImage(mode uint32, r image.Rectangle, bpp, wi
 	pixel := make([]byte, bpp)
 	channels := make([][]byte, bpp)
 
-	for y := uint32(0); y < height; y += 64 {
-		for x := uint32(0); x < width; x += 64 {
+	for y := uint32(0); len(tiles) > 0 && y < height; y += 64 {
+		for x := uint32(0); len(tiles) > 0 && x < width; x += 64 {
 			d.Goto(tiles[0])
 			tiles = tiles[1:]
 
@@ -214,8 +214,8 @@ func (d *decoder) readCompressedImage(mode uint32, r image.Rectangle, bpp, width
 	cTiles := make([][][]byte, 0, len(tiles))
 	buf := make(memio.Buffer, 0, 64*64*4)
 
-	for y := uint32(0); y < height; y += 64 {
-		for x := uint32(0); x < width; x += 64 {
+	for y := uint32(0); len(tiles) > 0 && y < height; y += 64 {
+		for x := uint32(0); len(tiles) > 0 && x < width; x += 64 {
 			d.Goto(tiles[0])
 
 			tiles = tiles[1:]
-- 
2.43.0


From 162f185491a0dd0c4eb4e0b984f0aae9f6d5601f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 63/66] fix: refuse xcf images whose base type is unknown

---
 xcf/decoder.go      | 2 ++
 xcf/image_decode.go | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 2407937..209657e 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -104,6 +104,8 @@ func DecodeConfig(r io.ReaderAt) (image.Config, error) {
 		}
 
 		c.ColorModel = palette
+	default:
+		dr.SetError(ErrInvalidHeader)
 	}
 
 	return c, dr.Err
diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index c985b82..46183af 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -81,6 +81,10 @@ func (d *decoder) validBPP(mode, bpp uint32) bool {
 
 			return false
 		}
+	default:
+		d.SetError(ErrInvalidLayerType)
+
+		return false
 	}
 
 	return true
-- 
2.43.0


From 9e0f087d4bb6f19977d57c3ed0e6477ecd017e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:16 +0000
Subject: [PATCH 64/66] fix: do not let the order in which xcf layers are read
 decide whether a file is valid

---
 xcf/reader.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xcf/reader.go b/xcf/reader.go
index 72ab712..4c8258f 100644
--- a/xcf/reader.go
+++ b/xcf/reader.go
@@ -108,7 +108,14 @@ func (r *reader) use(n int64) {
 	}
 
 	if r.used.size += n; r.used.size > r.used.end {
-		r.SetError(ErrInconsistantData)
+		// Other layers, which have not been read yet, may be further on.
+		var last [1]byte
+
+		if n, _ := r.rs.ReadAt(last[:], r.used.size-1); n == 0 {
+			r.SetError(ErrInconsistantData)
+		} else {
+			r.used.end = r.used.size
+		}
 	}
 }
 
-- 
2.43.0


From f00974244bd3aa7c2999965f4196099e395948f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:45 +0000
Subject: [PATCH 65/66] fix: keep item paths apart whose numbers are not code
 points

---
 xcf/decoder.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 209657e..404f088 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -390,7 +390,7 @@ func makeGroups(layers []layer, bounds image.Rectangle) (map[string]*groupOffset
 			n++
 		}
 
-		g := groups[string(l.itemPath[:len(l.itemPath)-1])]
+		g := groups[pathKey(l.itemPath[:len(l.itemPath)-1])]
 		if g == nil {
 			return nil, ErrInvalidGroup
 		}
@@ -398,11 +398,11 @@ func makeGroups(layers []layer, bounds image.Rectangle) (map[string]*groupOffset
 		l.Layer = l.SubImageLayer(bounds)
 
 		if l.group {
-			if groups[string(l.itemPath)] != nil {
+			if groups[pathKey(l.itemPath)] != nil {
 				return nil, ErrInvalidGroup
 			}
 
-			groups[string(l.itemPath)] = &groupOffset{
+			groups[pathKey(l.itemPath)] = &groupOffset{
 				Group:   make(limage.Image, 0, 32),
 				OffsetX: l.LayerBounds.Min.X,
 				OffsetY: l.LayerBounds.Min.Y,
@@ -418,6 +418,18 @@ func makeGroups(layers []layer, bounds image.Rectangle) (map[string]*groupOffset
 	return groups, nil
 }
 
+// pathKey gives an item path as the key of a map. It is not just converted to a
+// string, as that would make the same of all numbers that are not code points.
+func pathKey(path []rune) string {
+	key := make([]byte, 0, 4*len(path))
+
+	for _, n := range path {
+		key = append(key, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
+	}
+
+	return string(key)
+}
+
 func makeImage(groups map[string]*groupOffset) limage.Image {
 	var im limage.Image
 
-- 
2.43.0


From 920b68b4124f10f5d216e2106b02148cd49388ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:37 +0000
Subject: [PATCH 66/66] fix: refuse to write XCF files whose pointers do not
 fit

---
 xcf/channel.go      |  2 +-
 xcf/image_encode.go |  4 ++--
 xcf/layer_encode.go |  6 +++---
 xcf/writer.go       | 13 +++++++++++++
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/xcf/channel.go b/xcf/channel.go
index dd23976..1d714d4 100644
--- a/xcf/channel.go
+++ b/xcf/channel.go
@@ -60,6 +60,6 @@ func (e *encoder) WriteChannel(c *image.Gray, size image.Point) {
 	e.WriteUint32(0) // No properties
 	e.WriteUint32(0)
 
-	e.WriteUint32(uint32(e.pos) + 4) // hptr
+	e.WriteUint32(e.pointer(4)) // hptr
 	e.WriteImage(c, size, (*encoder).grayToBuf, 1)
 }
diff --git a/xcf/image_encode.go b/xcf/image_encode.go
index 6d31928..86fd5de 100644
--- a/xcf/image_encode.go
+++ b/xcf/image_encode.go
@@ -19,7 +19,7 @@ func (e *encoder) WriteImage(im image.Image, size image.Point, colourFunc colour
 	e.WriteUint32(uint32(dy))
 	e.WriteUint32(uint32(colourChannels))
 
-	e.WriteUint32(uint32(e.pos) + 8) // currPos + this pointer (4) + zero pointer (4)
+	e.WriteUint32(e.pointer(8)) // currPos + this pointer (4) + zero pointer (4)
 	e.WriteUint32(0)
 
 	// Level
@@ -58,7 +58,7 @@ func (e *encoder) WriteImage(im image.Image, size image.Point, colourFunc colour
 				}
 			}
 
-			w.WritePointer(uint32(e.pos))
+			w.WritePointer(e.pointer(0))
 
 			for n := uint8(0); n < colourChannels; n++ {
 				e.WriteRLE(e.channelBuf[n][:l])
diff --git a/xcf/layer_encode.go b/xcf/layer_encode.go
index 53dcb07..9d00e14 100644
--- a/xcf/layer_encode.go
+++ b/xcf/layer_encode.go
@@ -15,7 +15,7 @@ func (e *encoder) WriteLayers(layers limage.Image, offsetX, offsetY int32, group
 }
 
 func (e *encoder) WriteLayer(im limage.Layer, offsetX, offsetY int32, groups []uint32, pw *pointerWriter) {
-	pw.WritePointer(uint32(e.pos))
+	pw.WritePointer(e.pointer(0))
 
 	var (
 		mask  *image.Gray
@@ -191,12 +191,12 @@ func modeID(mode limage.Composite) uint32 {
 func writeLayer(e *encoder, img image.Image, mask *image.Gray, size image.Point) {
 	ptrs := e.ReservePointers(2)
 
-	ptrs.WritePointer(uint32(e.pos))
+	ptrs.WritePointer(e.pointer(0))
 
 	e.WriteImage(img, size, e.colourFunc, e.colourChannels)
 
 	if mask != nil {
-		ptrs.WritePointer(uint32(e.pos))
+		ptrs.WritePointer(e.pointer(0))
 		e.WriteChannel(mask, size)
 	} else {
 		ptrs.WritePointer(0)
diff --git a/xcf/writer.go b/xcf/writer.go
index f30e8e4..93cc260 100644
--- a/xcf/writer.go
+++ b/xcf/writer.go
@@ -3,6 +3,7 @@ package xcf
 import (
 	"errors"
 	"io"
+	"math"
 
 	"vimagination.zapto.org/byteio"
 )
@@ -44,6 +45,18 @@ func (w writer) WriteString(str string) {
 	w.WriteUint8(0)
 }
 
+// pointer returns the current position, moved on by the given offset, which is
+// an error when it does not fit into a pointer.
+func (w writer) pointer(offset int64) uint32 {
+	ptr := w.pos + offset
+
+	if ptr > math.MaxUint32 && w.Err == nil {
+		w.Err = ErrTooBig
+	}
+
+	return uint32(ptr)
+}
+
 type pointerWriter struct {
 	bw      *byteio.StickyBigEndianWriter
 	toWrite uint32
-- 
2.43.0

