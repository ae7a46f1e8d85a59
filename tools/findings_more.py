FIXED+=[
("C11","write the opacity of ora layers","the opacity attribute of a translucent layer written to stack.xml: lost or wrong"),
("C11","write negative ora layer offsets","a layer at (-3,2): its x attribute is left out and it is decoded at 0"),
("C13","report failure to finish an ora archive","destination failing within the zip directory: Encode returned nil"),
("C11","write single layers and flat images as an ora stack","Encode of a limage.Layer or of an image.NRGBA: stack.xml with no layer"),
("C11","place ora layers relative to the top left of the picture","picture with bounds (4,-5)-(8,-2): its layer is outside of the canvas"),
("C11","write only the part of a picture within its ora layer","picture (0,0)-(9,8) in a layer of 4x3: all of it is shown after loading"),
("C12","keep colour and transparency in the pictures of ora files","merged image of a stack whose first layer is gray: gray and opaque"),
("C12","take the pixels of ora thumbnails from the matching place","thumbnail of a picture with bounds (-3,2)-(700,500): samples come from other places"),
("C12","never write an empty ora thumbnail","1000x1 picture: the thumbnail is 256x0 and Encode fails"),
("C14","place nested ora layers relative to their stack and crop them in place","stack x=2 with a layer x=-3 on a 5x4 canvas: decoded elsewhere, or its pixels moved"),
("C14","round and limit the opacity of ora layers","opacity=\"0.5020\" (128/255): decoded as 127/255"),
("C15","limit the nesting of ora stacks","three million nested <stack> elements: stack overflow"),
]
FIXED+=[
("C23","keep the position and the lock right when a seekable stream fails","two failing seeks: the second ReadAt never returns; a stream at 3: bytes from another place; a short read: fewer bytes and no error"),
("C28","find the source of a stream that is buffered twice","image.Decode of a bufio.Reader over a bufio.Reader of a file: refused"),
("C22","read xcf files larger than 16MiB","a layer pointer beyond 16 MiB: refused"),
("C22","accept readers that report the end of an xcf file with its last bytes","ReaderAt giving io.EOF with the last bytes: Decode fails"),
("C20","report failed seeks in xcf files","pointer that cannot be seeked to: ignored"),
("C27","read the precision of xcf files from version 4 in DecodeConfig","v004 indexed file: DecodeConfig reads properties from the wrong place"),
("C18","skip the colour map of xcf files that are not indexed and limit its size","RGB file with a colour map property: what follows is misread"),
("C18","skip xcf guides, paths, sample points and vectors by their length","file with a guide, a sample point or a path: refused or misread"),
("C18","skip the floating selection of xcf files by its length","wide file with a floating selection property: misread"),
("C20","read xcf strings, parasites and paths no further than the data","string length 0xffffffff: gigabytes allocated"),
("C20","read xcf tiles before making room for the image","layer of 2^18x2^18 in a small file: memory exhausted"),
("C19","read xcf layer masks in deferred decoding and away from the origin","masked layer at (1,1): mask dropped by DecodeCompressed, shifted by Decode"),
("C20","refuse xcf images that are indexed without a palette and keep indexes in it","pixel index 200 of a palette of 7: panic in At"),
("C19","read the same colour outside of deferred and other paletted xcf images","At outside of a CompressedPaletted: differs from the decoded image, or panics"),
("C18","round the floating point opacity of xcf layers","float opacity 0.5020: one step off"),
("C18","keep the blend modes of gray xcf layers and dissolve in indexed ones","gray file with a Multiply layer: decoded as Normal"),
("C18","crop xcf layers to the canvas without moving their pixels and keep the masks of groups","layer at (-2,-1): pixels moved; masked group: mask dropped"),
("C19","do not let runs of xcf tiles cross channels","deferred tile with a run over the end of a channel: wrong pixels"),
("C20","limit the empty runs of xcf tiles","tile of zero-length runs: read without end"),
("C20","limit the memory used for overlapping blocks of xcf files","layers that share tiles: memory grows with their product"),
("C24","allow reading deferred xcf images from several goroutines","two readers of a CompressedNRGBA in different tiles: wrong colours"),
("C16","write xcf layers at and over the bounds they are shown in","picture larger or smaller than its layer, or away from the origin: invalid or wrong pixels"),
("C16","write groups and text layers that are masked to xcf files","masked group: layers lost and pointers wrong"),
("C16","use straight colours for the palette and pixels of xcf files","translucent pixels: colours written premultiplied"),
("C17","write xcf files as gray or indexed only when all layers are","gray layer over a colour one: written as a gray file"),
("C16","keep the luminance mode in xcf files","Luminance layer: saved with another mode"),
("C25","accept text layers without colours when writing xcf files","TextData with nil colours: Encode panics"),
("C25","write and read the colour of xcf text in the range of GIMP","red text: read back as nearly black"),
("C25","quote the text of xcf files so that it is read unchanged","text with a quote, a backslash or a markup character: changed or truncated"),
("C25","do not panic on or lose xcf text without values","description (text): panic"),
("C25","accept all sizes, spacings and rises in xcf text and read its background","size 12.5 or a negative rise in markup: refused"),
("C25","stop at invalid and deeply nested xcf text descriptions","thousands of open brackets: stack exhausted"),
("C20","stop reading deferred xcf tiles at the first error","truncated file in DecodeCompressed: tiles read on without end"),
("C20","do not copy xcf text for every escape in it","text of 100000 escapes: quadratic time and memory"),
("C18","read xcf tiles that are not compressed pixel by pixel","uncompressed file: channels mixed up"),
("C20","do not loop forever on xcf layers without a width","layer 0x4294967295: loops without end"),
("C20","refuse xcf images whose base type is unknown","base type 3: nil pointer panic in a goroutine"),
("C24","do not let the order in which xcf layers are read decide whether a file is valid","layer pointers [2 0 0] to layers of 300 bytes: refused or accepted depending on the schedule"),
("C16","keep item paths apart whose numbers are not code points","picture of 55305 layers of which those from 0xd800 on are groups: refused as invalid when loaded"),
("C17","refuse to write XCF files whose pointers do not fit","a writer past 4 GiB: the 32-bit pointers wrap and the file that is written, without an error, cannot be read"),
]
