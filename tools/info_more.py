INFO.update({
"C11":("exploration","exhaustive enumeration of small layered pictures through encode and decode","All pictures over 17 kinds, 4 origins, 4 picture extents, 20 modes, 256 opacities, nested groups and crops; compared layer by layer and as rendered by a reference renderer."),
"C12":("exploration","exhaustive enumeration of small layered pictures, archives read independently","Archive read with archive/zip, encoding/xml and image/png and compared with a reference rendering; thumbnails of all pairs of 13 extents and long strips."),
"C13":("fault_enumeration","exhaustive enumeration of write faults","A fault at every byte and every call of the destination, four ways, for five pictures."),
"C14":("exploration","exhaustive enumeration of stack documents written by an independent writer","Every placement over 120x9x7 offsets, every opacity step in 9 notations, all operations and attributes, every sequence of child tokens up to 4 (thorough 6), archives of up to 1000 entries with each at every place, hundreds of layers, deep stacks, and the documented errors."),
"C15":("fault_enumeration","exhaustive enumeration of corruptions","Every truncation and byte change of two archives, of the document and of six pictures, every token sequence up to length 4 (thorough 6), extreme attribute values, nesting to millions."),
})
INFO.update({
"C16":("exploration","exhaustive enumeration of small layered pictures through encode and decode","All pictures over 17 kinds, 4 origins, 4 picture extents, all XCF modes, 256 opacities, forests, masks, run patterns and sizes around tile borders; compared layer by layer and pixel by pixel. Stand-ins for three dependencies."),
"C17":("exploration","exhaustive enumeration of small layered pictures, files read by an independent strict reader","The pictures of C16; every length, count, pointer, run and overlap of the file is checked and the picture recovered is compared; files that pass 4 GiB must be refused."),
"C18":("exploration","exhaustive enumeration of file descriptions, written by an independent writer","Every version, base type, compression, property, order of properties, placement, nesting, mask and mode of the stated alphabets, up to a thousand layers, deep groups and blocks up to 2^52 into the file; decoded picture compared with the description."),
"C19":("exploration","exhaustive enumeration of files and of tile contents, deferred against immediate decoding","Every pixel (and outside pixel) of both decoders compared for the files of C18 and for tile contents from an alphabet of runs; all sequences of up to 2 runs (thorough 3), fitting or not, and all numbers of empty runs around powers of two must be accepted or refused by both."),
"C20":("fault_enumeration","exhaustive enumeration of corruptions of files","Every cut, byte replacement, hostile word, pair of hostile fields, removal and doubling of bytes in 13 small files of all structures, amplifying layouts and every short sequence of text tokens; all three entry points, limits on memory and reads, results rendered."),
"C21":("fault_enumeration","exhaustive enumeration of write faults","Every write of Encode fails, in six ways, singly and (small pictures) in pairs, for pictures of all structures and one of more than 64 KiB; the injected error must be returned, and every byte must be written."),
"C22":("fault_enumeration","exhaustive enumeration of read faults and of legal ways of answering","Every read of the three entry points fails in five ways; every legal variation of answering, streams in every piece size, blocks beyond 4 GiB."),
"C23":("fault_enumeration","exhaustive fault placement and preemption-bounded schedule enumeration of the real adapter under a controlled scheduler","All sequences of reads with up to two faults; all schedules with 2 (thorough 3) preemptions of two and three readers with every single fault. sync is replaced by a model."),
"C24":("exploration","preemption-bounded schedule enumeration of the real code under a controlled scheduler","Every schedule with one (thorough: also two) preemptions, at every statement of xcf and internal, of the decoders over good and corrupted files and of readers of deferred pixels. sync is replaced by a model."),
"C25":("exploration","exhaustive enumeration of texts, attributes and descriptions","Every text to a length over special characters, every combination of style attributes, every description from a token alphabet to a depth, descriptions among up to 100 other parasites."),
"C26":("exploration","explicit-state BFS over pictures reachable by saves, loads, crops and visibility changes of the real code","The whole graph (quick: to depth 6) from 15 starting pictures in both formats, compared with the crops and visibility changes alone."),
"C27":("exploration","exhaustive enumeration of files and documents","DecodeConfig of all files of C18, canvas sizes to the limits, OpenRaster documents of an alphabet, and everything both encoders write."),
"C28":("exploration","exhaustive enumeration of headers, readers and registrations through package image","Every prefix and byte change of the magic, every reader kind and buffering, both formats."),
"C29":("exploration","exhaustive enumeration of pairs of operations and of their schedules on the real code, with the race detector as monitor","Every ordered pair of 18 operations on separate and shared pictures of 20 kinds: under the race detector (whatever the schedule), and, for 2 kinds (thorough 10), under every schedule with one deviation at any statement of any package. Statement granularity; Dissolve left out."),
})
