#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing; both files are committed)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

p("C01","Colour models convert by straight colour and keep alpha",
 "Converting a colour to the library's RGB space gives the colour as it appears over black; to gray+alpha gives the luminance of its straight (un-premultiplied) colour together with its alpha; to an alpha-palette gives the palette entry nearest to its straight colour together with its alpha. A colour already in the target space converts to itself. The library's RGB and gray+alpha colours always report the correct alpha-premultiplied components, and their straight form, whatever their values.",
 ["inputs"],"every RGB value, every gray+alpha value, and every straight or premultiplied source colour",
 "No test touches the colour models at all; the value space (2^24 RGB, 2^16 gray+alpha, translucent colours) is far beyond a table of examples.",
 ["lcolor/rgb.go","lcolor/gray.go","lcolor/indexed.go","lcolor/models.go","internal/nrgba.go"],
 [("GrayAlpha.RGBA / grayAlphaColourModel","lcolor/gray.go"),("RGB.RGBA / rgbColourModel","lcolor/rgb.go"),("AlphaPalette.Convert/Index","lcolor/indexed.go")],
 ["RGBModel.Convert","GrayAlphaModel.Convert","AlphaPalette.Convert","AlphaPalette.Index","RGBA()","ToNRGBA()"])
p("C02","HSL and HSV conversions are standard, reversible and never wrap",
 "For every colour, conversion to HSL or HSV gives the standard hue, saturation and lightness (or value) of its straight colour with alpha unchanged, and converting back gives the original colour up to the quantisation of 16-bit components. Converting any HSL or HSV value to RGB follows the standard definition, with no component overflowing or wrapping, and its reported components are the alpha-premultiplied form of that result.",
 ["inputs"],"all 2^24 8-bit RGB colours, 16-bit boundary colours, and all hues against boundary saturations/lightnesses",
 "The conversions have no tests; wrong arithmetic shows only for particular hue sectors, lightness halves or extreme components.",
 ["lcolor/hsl.go","internal/minmax.go","internal/nrgba.go"],
 [("RGBToHSL/RGBToHSV/colourToHue","lcolor/hsl.go"),("HSLA.ToNRGBA/HSVA.ToNRGBA/hcmaToColour","lcolor/hsl.go")],
 ["RGBToHSL","RGBToHSV","HSLA.ToNRGBA","HSVA.ToNRGBA","RGBA()"])
p("C03","Pixel images behave as bounded arrays with shared sub-image views",
 "An RGB, gray+alpha or palette+alpha image is an array over its rectangle: a write (direct, or by colour through the image's colour model) changes exactly the addressed pixel if it is inside the bounds and nothing otherwise, and a read gives the last value written there or the zero colour outside the bounds. A sub-image, at any nesting, is a view of the same pixels under the same coordinates limited to the intersection, so writes through either are seen by both. No such operation panics.",
 ["histories","inputs"],"every reachable content of small images, every operation on the image and on every (nested) sub-image, at points in and around the bounds",
 "There are no tests of the pixel types; aliasing between a sub-image and its parent and stride/offset errors need a sequence of operations on particular rectangles to show.",
 ["rgb.go","grayalpha.go","indexedalpha.go"],
 [("PixOffset/Set/At/SubImage","rgb.go"),("PixOffset/Set/At/SubImage","grayalpha.go"),("PixOffset/Set/At/SubImage","indexedalpha.go")],
 ["At","Set","SetRGB/SetGrayAlpha/SetIndexAlpha","RGBAt/GrayAlphaAt/IndexAlphaAt","SubImage","Bounds"],
 state=[dict(name="Pix",meaning="the shared pixel array",where="rgb.go, grayalpha.go, indexedalpha.go")])
p("C04","Opaque is reported exactly when every visible pixel is opaque",
 "An image with per-pixel alpha, and any sub-image of it, reports itself opaque if and only if every pixel within its own bounds has full alpha; pixels of the parent outside a sub-image's bounds never influence the answer. An image without alpha always reports itself opaque.",
 ["inputs","histories"],"every assignment of alpha values to small images and every (nested) sub-rectangle",
 "No test calls it; PNG encoding consults it to decide whether to store alpha at all, so a wrong answer silently discards transparency.",
 ["grayalpha.go","indexedalpha.go","rgb.go"],[("Opaque","grayalpha.go"),("Opaque","indexedalpha.go")],["Opaque"])
p("C05","A layered image renders as the bottom-to-top fold of its visible layers",
 "The colour of a layered image at a point is obtained by starting from transparent and, from the last layer to the first, composing each visible layer whose bounds contain the point using that layer's blend mode and opacity, reading the layer's picture (flat, masked, text or nested group) relative to the layer's top-left corner; a mask scales the alpha of the picture under it and is transparent outside itself. If the first layer is paletted, a layer pixel with more than half alpha replaces what is below and any other leaves it, except in dissolve mode. The image's bounds are the union of its layers' bounds and its colour model is that of its first layer.",
 ["inputs","configurations"],"every stack of up to three layers (and nested groups) over an alphabet of offsets, sizes, modes, opacities, visibility and picture kinds, at every point in and around the image",
 "The tests only compare whole decoded files of opaque single-colour layers; combinations of order, offset, nesting, masks, opacity and visibility are untested.",
 ["image.go","layer.go","misc.go","composite.go"],[("Image.At","image.go"),("Layer.At","layer.go"),("MaskedImage.At/transparency","misc.go")],
 ["Image.At","Layer.At","MaskedImage.At","Image.Bounds","Image.ColorModel"])
p("C06","Cropping an image or layer shows the same pixels at the same place",
 "A sub-image of a layered image or of a layer has, at every point of the requested rectangle, exactly the colour the original has there, its bounds lie within the requested rectangle and the original's bounds, and a sub-image of a layered image is transparent outside the requested rectangle. Cropping repeatedly equals cropping to the intersection, the original is left unchanged, and pixels are shared, so later changes to the underlying pictures show through.",
 ["inputs","histories"],"every rectangle in a window around every small layered image (offsets, groups, masks, text) and every second crop of the result",
 "Cropping is never tested; errors only show when the crop starts away from a layer's corner or cuts a nested group or mask.",
 ["layer.go","image.go","misc.go"],[("Layer.SubImageLayer","layer.go"),("Image.SubImage","image.go")],["Image.SubImage","Layer.SubImage","Layer.SubImageLayer"])
p("C07","Composition obeys the alpha laws of every blend mode",
 "For every blend mode and every pair of colours the composition is a valid colour. A fully transparent top never changes the bottom (except for the Porter-Duff operations, which may erase it); Normal gives source-over with alpha a+b-ab; the channel-formula and hue/saturation/colour/value/luminosity modes keep the bottom's alpha, and are fully transparent over a fully transparent bottom. Each colour channel of a channel-formula mode depends only on the same channel of the inputs and the two alphas, and modes with no formula of their own (from Color Erase on, and any unknown value) compose as Normal.",
 ["inputs","configurations"],"every blend mode value (known and unknown) and every pair from a grid of 16-bit colours including the extremes",
 "No test composes two translucent colours; the modes multiplied by the colour space are out of reach for examples.",
 ["composite.go","internal/nrgba.go","internal/minmax.go"],[("Composite.Composite/blend","composite.go")],["Composite.Composite"])
p("C08","Each channel-formula blend mode computes its published formula",
 "For the multiply, screen, overlay, difference, addition, subtract, darken, lighten, divide, dodge, burn, hard light, soft light, grain extract and grain merge modes, each channel of the composition of two opaque colours is the GIMP formula of that mode of the two channel values, clamped to the valid range and correct to the 16-bit rounding, at every value including the extremes where the formula divides by zero. With translucent colours the result is that value mixed with the bottom in proportion min(a,b)/(a+b-ab).",
 ["inputs"],"quick: every bottom channel value against a dense set of top values and vice versa; thorough: every pair of 16-bit channel values, per mode",
 "No test uses any of these modes when rendering; failures sit at single points (equal halves, zero divisors, overflow).",
 ["composite.go"],[("compositeMultiply..compositeGrainMerge, clamp, blend","composite.go")],["Composite.Composite"])
p("C09","Hue, saturation, colour, value and luminosity modes mix the right parts",
 "For two opaque colours: hue mode gives the hue of the top with the saturation and value of the bottom (the bottom itself if the top is grey); saturation mode the HSV saturation of the top with the hue and value of the bottom; value mode the HSV value of the top with hue and saturation of the bottom; colour mode the HSL hue and saturation of the top with the lightness of the bottom; luminosity mode the reverse of colour mode. With translucent colours the result is that colour mixed with the bottom in proportion min(a,b)/(a+b-ab).",
 ["inputs"],"every pair from a grid of 8-bit and 16-bit boundary colours, crossed with alpha pairs",
 "No test renders with these modes.",
 ["composite.go","lcolor/hsl.go"],[("compositeHue/Saturation/Color/Value","composite.go")],["Composite.Composite"])
p("C10","Dissolve shows the top with probability equal to its alpha",
 "Composing in dissolve mode always gives either exactly the bottom colour or the top colour made fully opaque, never a mixture. Over the possible outcomes of the random source the top is chosen in proportion to the top's alpha: never when it is fully transparent, always when it is fully opaque, whatever the bottom's alpha is.",
 ["inputs","fault_sequences"],"every answer class of the random source for every alpha on a grid that includes the extremes",
 "The outcome depends on a random source no test controls.",
 ["composite.go"],[("compositeDissolve","composite.go")],["Composite.Composite"])
p("C11","Saving to OpenRaster and loading gives the same layered picture",
 "Decoding what Encode wrote gives the same tree of layers in the same order, each with the same name, absolute position relative to the picture's top-left corner, visibility, opacity (all 256 values) and blend mode (all that OpenRaster can represent), and the same pixels, including masked and text layers flattened with their transparency, gray pictures and crops. This holds for layered images, a single layer, and flat images, wherever their bounds start; the picture renders the same, and the input is not modified.",
 ["inputs","configurations"],"every layer tree up to three layers / three nesting levels over an alphabet of offsets (negative included), modes, opacities, visibility, picture kinds and names",
 "The only round-trip test is not even run here (it needs an unavailable module) and uses opaque layers in normal mode at default offsets.",
 ["ora/encode.go","ora/decode.go","ora/stack.go"],[("Encode/writeStack/writeLayers","ora/encode.go"),("Decode/readStack/readLayer/processLayerAttrs","ora/decode.go, ora/stack.go")],
 ["ora.Encode","ora.Decode"])
p("C12","OpenRaster archives are well formed and carry the merged image",
 "Every archive Encode writes starts with an uncompressed mimetype entry naming image/openraster, holds exactly one well-formed stack.xml whose canvas size is the picture's, and holds the picture file of every layer the stack names. The merged image is the flattened picture at canvas size, and the thumbnail is a downscaled copy of it (each sample taken from the matching place, at most 256 pixels on a side and never empty), or a same-size copy if it already fits.",
 ["inputs","configurations"],"every layer tree of the round-trip alphabet, and every canvas shape over a range crossing the 256-pixel limit including one-pixel-wide ones",
 "Nothing ever inspects an archive except through this library's own decoder.",
 ["ora/encode.go","ora/thumbnail.go"],[("Encode/writeImage","ora/encode.go"),("thumbnail","ora/thumbnail.go")],["bytes written by ora.Encode"])
p("C13","A failed write is never reported as a saved OpenRaster file",
 "If the destination fails at any point while an OpenRaster file is being written, including at the very last bytes, Encode returns an error. If Encode returns no error, everything was written and the archive decodes to the picture.",
 ["fault_sequences","crash_points"],"a destination failing at every possible byte position, by every style of failure (error, short write), for archives below and above the internal buffer size",
 "No test uses a failing writer.",
 ["ora/encode.go"],[("Encode, zip writer close","ora/encode.go")],["ora.Encode error"])
p("C14","OpenRaster stacks are interpreted as the format describes",
 "Decoding an archive gives the layers of the first top-level stack in document order, nested stacks as groups, each layer taken from the picture its src names and placed at its x,y offset relative to the enclosing stack, cropped to the canvas without moving its pixels. Name, visibility, opacity (rounded to 1/255), and composite-op are honoured, missing attributes take their defaults, and unknown elements, attributes, comments and text are ignored. A missing stack file, wrong mimetype, missing size, or layer whose picture is missing gives the documented error, and DecodeConfig reports the canvas size.",
 ["inputs"],"every document up to a bounded size from a grammar of stack files (elements, nesting, attribute values, noise)",
 "Seven sample files produced by one program; most attributes never appear in them.",
 ["ora/decode.go","ora/stack.go"],[("Decode/getDimensions","ora/decode.go"),("readStack/readLayer/processLayerAttrs/skipTag","ora/stack.go")],["ora.Decode","ora.DecodeConfig"])
p("C15","Damaged OpenRaster input gives an error, never a crash",
 "For any archive contents, decoding returns either an error or an image that can be rendered at every point; it never panics, hangs or reports success with a layer that has no picture.",
 ["inputs","crash_points"],"every truncation of and every single-token and single-byte damage to sample archives' stack and picture files",
 "Tests only decode valid files.",
 ["ora/decode.go","ora/stack.go"],[("error returns","ora/decode.go, ora/stack.go")],["ora.Decode","ora.DecodeConfig"])
p("C16","Saving to XCF and loading gives the same layered picture",
 "Decoding what Encode wrote gives the same tree of layers in the same order, each with the same name, absolute position relative to the picture's top-left corner, visibility, opacity, blend mode (all that XCF can represent; the bottom layer's may become Normal), mask and pixels, where the pixels are those of the layers converted to 8-bit colour, or kept as gray+alpha or palette index+alpha when all layers are gray or share a palette. This holds for layered images, a single layer and flat images of any size (tile boundaries included), wherever their bounds start, and the input is not modified.",
 ["inputs","configurations"],"every layer tree up to three layers / three levels over an alphabet of offsets, modes, opacities, picture kinds and names; every size around tile boundaries; every byte pattern up to a bounded length through the run-length coder",
 "The package's tests cannot even be built here; they cover opaque RGB layers at few sizes.",
 ["xcf/encoder.go","xcf/layer_encode.go","xcf/image_encode.go","xcf/channel.go","xcf/rle.go","xcf/writer.go","xcf/decoder.go","xcf/layer_decode.go","xcf/image_decode.go"],
 [("Encode/WriteLayers/WriteImage/WriteRLE","xcf/*_encode.go, xcf/rle.go"),("decodeImage/ReadLayer/ReadImage","xcf/decoder.go, xcf/*_decode.go")],["xcf.Encode","xcf.Decode"])
p("C17","Written XCF files are structurally valid",
 "Every file Encode writes is a valid XCF file to an independent reader: header, canvas size, base type, property lists, layer list, item paths, hierarchies, levels and tile pointers are consistent with each other, every tile decompresses to exactly its size, all pointers lie inside the file, and no two blocks overlap. The picture an independent reader recovers is the picture that was encoded.",
 ["inputs","configurations"],"the layer trees, sizes and byte patterns of the XCF round-trip alphabet",
 "Files are only ever read back by this package's own decoder, so an error made on both sides is invisible.",
 ["xcf/encoder.go","xcf/layer_encode.go","xcf/image_encode.go","xcf/channel.go","xcf/rle.go","xcf/writer.go"],[("ReservePointers/WritePointer","xcf/writer.go"),("WriteRLE","xcf/rle.go")],["bytes written by xcf.Encode"])
p("C18","XCF files are interpreted as the format describes",
 "Decoding a valid XCF file of any supported version (0-13), base type (RGB, gray, indexed, with or without alpha), compression (none or run-length, by any legal choice of runs) and pointer width gives its layers in order with their names, offsets (relative to their group, cropped to the canvas without moving pixels), opacity, visibility, blend mode, mask, grouping and exact pixels. Properties that carry no rendering meaning (guides, vectors, paths, sample points, parasites, user units, resolution, and unknown ones) are skipped without disturbing what follows, wherever they occur.",
 ["inputs","configurations"],"every combination of version class, base type, alpha, compression and pointer width with every property of the format, over files made by an independent writer",
 "Seven sample files of one GIMP version; most properties and all uncompressed, gray and indexed forms never occur in them.",
 ["xcf/decoder.go","xcf/layer_decode.go","xcf/image_decode.go","xcf/channel.go","xcf/skip.go","xcf/parasites.go","xcf/reader.go","xcf/rle.go"],
 [("readImageProperties/readLayers/makeGroups","xcf/decoder.go"),("ReadLayer/readProperties/readMode","xcf/layer_decode.go"),("Skip*","xcf/skip.go")],["xcf.Decode"])
p("C19","Deferred XCF decoding shows the same pixels as eager decoding",
 "For every XCF file, the image from DecodeCompressed has the same layers and properties as that from Decode and the same colour at every point, for every order in which points are read, however often and wherever they lie (in, across and outside tiles).",
 ["histories","inputs"],"every sequence of pixel reads up to a bounded length over representatives of every tile class and pixel format, and every pixel of every sample",
 "One test reads each pixel once in raster order; the tile cache makes the answer depend on the history of reads.",
 ["xcf/compressed.go","xcf/image_decode.go"],[("decompressTile cache","xcf/compressed.go")],["xcf.DecodeCompressed","At"],
 state=[dict(name="tile cache",meaning="index and contents of the last tile decompressed",where="xcf/compressed.go")])
p("C20","Damaged XCF input gives an error, never a crash, hang or huge allocation",
 "For any input bytes, Decode, DecodeCompressed and DecodeConfig return an error or an image that can be rendered at every point; they never panic (in any goroutine), loop without bound, or allocate memory out of proportion to the input. Truncating a file before its last meaningful byte is reported as an error.",
 ["inputs","crash_points"],"every truncation of, and every single-byte and single-word extreme-value damage to, a set of small files that exercises every structure of the format",
 "Tests only decode valid files.",
 ["xcf/decoder.go","xcf/layer_decode.go","xcf/image_decode.go","xcf/parasites.go","xcf/text.go","xcf/skip.go","xcf/reader.go"],[("sticky errors, size checks","xcf/reader.go, xcf/decoder.go")],["xcf.Decode","xcf.DecodeCompressed","xcf.DecodeConfig"])
p("C21","A failed write is never reported as a saved XCF file",
 "If any single write to the destination fails while an XCF file is being written, whichever one it is, Encode returns that error; if Encode returns no error, every byte of the file was written. Encode never panics on a failing destination.",
 ["fault_sequences"],"a fault at each individual write, transient or permanent, for files that use every structure the encoder writes",
 "No test uses a failing writer; the encoder interleaves two writers that share one error.",
 ["xcf/writer.go","xcf/encoder.go"],[("sticky error shared by pointerWriter","xcf/writer.go")],["xcf.Encode error"])
p("C22","XCF decoding works over every legal reader and never hides a read error",
 "The image decoded from a file does not depend on how its reader legally answers: reporting end-of-file together with the last bytes, delivering data in short pieces when read as a stream, being positioned elsewhere beforehand, or the file being larger than 16 MiB. If the reader fails at any read, decoding returns an error, not an image with wrong pixels.",
 ["fault_sequences","inputs"],"every single departure from the default reader answer (end-of-file with data, short read, error) at every read of files using every structure",
 "Tests always read from a byte slice that never departs from the simplest answers.",
 ["xcf/reader.go","xcf/decoder.go","internal/bufioToReader.go"],[("reader/newReader","xcf/reader.go"),("GetReaderAt","internal/bufioToReader.go")],["xcf.Decode","image.Decode"])
p("C23","Random access over a seekable stream is exact under faults and concurrency",
 "Random-access reads made through the adapter over a seekable stream return exactly the bytes at the requested offset, a full buffer or an error, whatever the stream's starting position, in every interleaving of concurrent readers. After a failed seek or read the adapter keeps working: no later read blocks or returns bytes from another place.",
 ["schedules","fault_sequences"],"every interleaving of two or three readers (two reads each, overlapping and distinct offsets) at every seek/read of the stream, combined with every placement of a seek error, read error or short read",
 "No test touches the adapter; it is used by concurrent goroutines whose interleaving tests cannot choose.",
 ["internal/bufioToReader.go"],[("readerAt.ReadAt mutex and position","internal/bufioToReader.go")],["GetReaderAt(...).ReadAt"],
 state=[dict(name="stream position",meaning="where the adapter believes the shared stream stands",where="internal/bufioToReader.go")])
p("C24","Concurrency inside and over decoded XCF images never changes the result",
 "Layers are decoded concurrently, but in every interleaving Decode returns the same image as a sequential decode, returns an error whenever some layer is faulty, and always finishes. Reading pixels of a deferred-decoding image from several goroutines at once gives each of them the right colours in every interleaving.",
 ["schedules"],"every interleaving up to a preemption bound, at statement granularity, of the decoder's goroutines over small multi-layer files (good and faulty) and of two or three concurrent pixel readers",
 "Tests see whichever interleaving the runtime happens to choose.",
 ["xcf/decoder.go","xcf/compressed.go","internal/bufioToReader.go"],[("readLayers goroutines, errLock, WaitGroup","xcf/decoder.go"),("decompressTile","xcf/compressed.go")],["xcf.Decode","xcf.DecodeCompressed","At"])
p("C25","Text layers survive XCF and text markup is read correctly",
 "A text layer saved to XCF and loaded again has the same text (any characters, including quotes, backslashes, markup characters and newlines), and for a text of one part the same font, size and foreground colour; for a text of several parts the sequence of parts with their text, font, size, foreground colour, bold, italic, underline, strikethrough, letter spacing and rise. A text description, however malformed, never makes encoding or decoding panic.",
 ["inputs"],"every text up to a bounded length over an alphabet of special characters, every combination of style attributes, and every small text description from a token alphabet",
 "No test encodes or decodes a text layer.",
 ["xcf/text.go","xcf/parasites.go","misc.go"],[("WriteText/writeTextMarkup","xcf/text.go"),("parseTextData/parseText/processText","xcf/text.go"),("Parse/readTag/quotedString","xcf/parasites.go")],["xcf.Encode","xcf.Decode"])
p("C26","Repeated saving, loading and cropping never drifts",
 "Starting from any layered picture, every sequence of saves and loads in OpenRaster and XCF, mixed with crops and visibility changes, leaves the rendered picture equal to that obtained by doing the crops and visibility changes alone on the first loaded picture; opacities, offsets, names and modes do not creep with the number of cycles. Encoding is deterministic: the same picture gives the same bytes.",
 ["histories"],"every sequence of the operations up to a bounded depth from several starting pictures, explored as a state graph",
 "Tests do at most one cycle.",
 ["ora/encode.go","ora/decode.go","ora/stack.go","xcf/encoder.go","xcf/decoder.go","layer.go"],[("Encode/Decode pairs","ora, xcf"),("SubImage","image.go, layer.go")],["ora.Encode","ora.Decode","xcf.Encode","xcf.Decode","Image.SubImage"])
p("C27","The configuration reported agrees with the file and its decoded image",
 "For every valid OpenRaster or XCF file, DecodeConfig succeeds and reports the canvas width and height stored in the file, and a colour model fitting its layers: for an indexed XCF file of any version the file's palette, for a gray one gray+alpha, for RGB and OpenRaster straight RGBA. Whatever Encode wrote reports the size of the encoded picture.",
 ["inputs","configurations"],"every version, base type and property placement of the XCF file alphabet, and every encoded picture of the round-trip alphabets",
 "Only two fixed RGB configurations are tested.",
 ["xcf/decoder.go","ora/decode.go"],[("DecodeConfig","xcf/decoder.go"),("DecodeConfig/getDimensions","ora/decode.go")],["xcf.DecodeConfig","ora.DecodeConfig"])
p("C28","XCF files open through the standard image registry from any source",
 "Once the XCF package is linked in, image.Decode and image.DecodeConfig recognise an XCF file and give the same result as decoding it directly, from any source offering random access or seeking (buffered or not, whatever has already been buffered by format detection). From a plain stream they return the documented error rather than misreading.",
 ["inputs","configurations"],"every kind of source (random access, seek only, plain, pre-buffered, minimal/short reads) crossed with the XCF sample files",
 "No test goes through the registry.",
 ["xcf/decoder.go","internal/bufioToReader.go"],[("init/decode/decodeConfig","xcf/decoder.go"),("GetReaderAt/bufioToReader","internal/bufioToReader.go")],["image.Decode","image.DecodeConfig"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
