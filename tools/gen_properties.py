import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","Short and interrupted reads never change a result",
"Every observable of a raw file opened by path or through a reader of the caller's (type, identifiers, thumbnails, raw pixel data, directories, metadata, rendered image, dump, or the error returned) is the same however the operating system splits the reads: reads that return fewer bytes than asked, down to one byte at a time, and reads that are interrupted by a signal and may be retried change nothing.",
["inputs","fault_sequences"],"all files of all supported formats x all sequences of legal short-read lengths and EINTR returns",
"Tests read small local files or in-memory cursors, where every read returns everything asked for; no test ever sees a short or interrupted read.",
["src/container.rs","src/io.rs","src/identify.rs","src/tiff/container.rs","src/tiff/entry.rs","src/mp4/container.rs","src/canon/crw/ciff.rs","src/fujifilm/raf.rs","src/minolta.rs"],
[("all bytes are obtained through views over one shared seekable reader","src/io.rs View::read/seek"),("bulk loads","src/container.rs load_buffer8/load_buffer16_endian/make_thumbnail"),("content sniffing","src/identify.rs type_for_content")])

p("C02","I/O errors surface as an error or absence, never as a crash or wrong data",
"When opening, reading or seeking the file fails at any point, for any number of operations or for any damaged byte range, every call returns without crashing or hanging. Every raw pixel buffer, thumbnail or metadata value that is delivered all the same is one the undamaged file would have delivered; bytes that could not be read are never replaced by invented ones.",
["inputs","fault_sequences","histories"],"all files x all sequences of calls x all placements of transient and permanent open/read/seek errors and bad sectors",
"No test injects an I/O error; the error branches of the loaders are dead code in the test suite.",
["src/container.rs","src/io.rs","src/rawfile.rs","src/tiff/container.rs","src/tiff/entry.rs","src/dng.rs","src/canon/crw.rs","src/canon/cr3.rs","src/fujifilm/raf.rs","src/minolta.rs"],
[("error propagation from the reader to the public calls","src/rawfile.rs RawFileImpl"),("lazily initialised caches filled while reading","src/rawfile.rs, src/*/*.rs OnceCell fields"),("bulk loads","src/container.rs load_buffer8/load_buffer16_endian")])

p("C03","A truncated file gives an error or data that agrees with the complete file",
"For a file cut short at any byte, every call returns without crashing or hanging. A thumbnail delivered from the truncated file is a prefix of, or equal to, one of the complete file's thumbnails; a metadata value delivered is the complete file's value; uncompressed raw pixel data delivered agrees with the complete file's over its whole length, so nothing that was never in the file is delivered as image content.",
["inputs","crash_points"],"all files x all truncation lengths (torn writes, interrupted copies)",
"Tests use complete sample files; the number of truncation points is the length of the file.",
["src/container.rs","src/io.rs","src/thumbnail.rs","src/decompress/ljpeg.rs","src/decompress/bit_reader.rs","src/decompress.rs","src/rawfile.rs"],
[("loads past the end of the file","src/container.rs load_buffer8/load_buffer16_endian/make_thumbnail"),("decoders at end of input","src/decompress.rs, src/decompress/ljpeg.rs")])

p("C04","Corrupted bytes never crash or hang the library",
"For any content of the file, however damaged, every call on it returns a value or an error after an amount of work bounded by the size of the file and the image dimensions it declares: no panic, no abort, no endless loop and no access outside the buffers concerned.",
["inputs","fault_sequences"],"all byte strings offered as any supported type; all damage (flipped, lost, swapped, zeroed sectors, stray pointers) to well-formed files",
"The fuzz corpus is not part of the test suite, the tests feed well-formed samples; the input space is unbounded.",
["src/tiff/container.rs","src/tiff/entry.rs","src/tiff/dir.rs","src/canon/crw/ciff.rs","src/mp4/container.rs","src/minolta.rs","src/fujifilm/raf.rs","src/decompress/ljpeg.rs","src/decompress.rs","src/olympus/decompress.rs","src/panasonic/decompress.rs","src/rawimage.rs"],
[("directory walkers","src/tiff/container.rs dirs/dir_at; src/canon/crw/ciff.rs Heap::load; src/mp4/parse"),("value readers","src/tiff/entry.rs"),("decoders","src/decompress/*.rs")])

p("C05","Results do not depend on which calls were made before on the same handle",
"On one raw file handle, each query (type, identifiers, thumbnail sizes, thumbnail of a size, raw data with or without decompression, rendered image, directories, metadata value, metadata enumeration, orientation, colour data, dump) returns the same answer whatever queries were made before it, in whatever order and however often, as it does when it is the first query on a fresh handle.",
["inputs","histories"],"all files x all sequences of public calls on one handle",
"Tests issue a handful of calls in one fixed order; lazily filled caches and the shared file position make the order matter in ways a fixed order cannot show.",
["src/rawfile.rs","src/io.rs","src/tiff/container.rs","src/canon/crw.rs","src/canon/cr2.rs","src/canon/cr3.rs","src/nikon.rs","src/olympus.rs","src/panasonic.rs","src/fujifilm/raf.rs","src/minolta.rs","src/sony.rs","src/metadata.rs"],
[("lazy caches","OnceCell fields of every RawFile implementation"),("one file cursor shared by all views","src/io.rs Viewer/View")],
[("lazily built directories, thumbnails and previews","must be a pure function of the file")])

p("C06","A file gives the same answers however it is opened",
"Opening the same bytes by path, from memory, through a reader of the caller's or through the C interface, with the correct type given (whatever the name says) or left to be detected, gives the same type, vendor, thumbnails, raw data, metadata and errors, and the C accessors report exactly the values the Rust accessors report.",
["inputs","configurations"],"all files x {path, memory, C path, C memory} x {type hint, no hint} x all accessors",
"Tests open each sample one way; the cross product of entry points, hints and accessors is never compared.",
["src/rawfile.rs","src/factory.rs","src/identify.rs","src/capi/rawfile.rs","src/capi/rawdata.rs","src/capi/thumbnail.rs","src/capi/metavalue.rs","src/capi/ifd.rs","src/capi/iterator.rs","src/capi/bitmap.rs","src/capi/mosaic.rs"],
[("constructors","src/rawfile.rs rawfile_from_file/rawfile_from_memory/rawfile_from_io"),("C wrappers","src/capi/*.rs")])

p("C07","Parallel decoding gives the stored pixels under every schedule",
"Decoding raw data whose tiles, strips or lines are decoded in parallel gives the same pixels, or the same kind of error, under every thread count and every interleaving of the parallel parts, always terminates, and for a well-formed file the pixels are exactly those that were stored.",
["inputs","schedules","configurations"],"all parallel-decoded files (tiled and compressed) x all worker counts x all interleavings of the parallel tasks",
"Tests run whatever schedule the thread pool happens to take on a few-core machine and cannot reproduce or enumerate interleavings.",
["src/decompress/tiled.rs","src/decompress.rs","src/olympus.rs","src/fujifilm/decompress.rs","src/dng.rs"],
[("parallel tile decoding and recombination","src/decompress/tiled.rs"),("parallel line decoding","src/olympus.rs"),("parallel strips","src/fujifilm/decompress.rs")])

p("C08","Files used on different threads do not affect each other",
"Any number of threads that each open and query their own raw files at the same time all get exactly the results they would get running alone, under every interleaving, including one thread's failing or damaged file next to another thread's good one; no deadlock occurs.",
["schedules","histories","fault_sequences"],"all sets of concurrent clients, each with its own file, call sequence and I/O faults x all interleavings",
"Tests run one client at a time; an interference needs a particular interleaving inside shared tables, lazily initialised globals or the decoders.",
["src/rawfile.rs","src/camera_ids.rs","src/factory.rs","src/capi/rawfile.rs","src/decompress.rs","src/utils.rs"],
[("process-wide lazily initialised tables","statics in src/*.rs (type, maker and matrix tables)"),("per-handle state","src/rawfile.rs")])

p("C09","C objects stay valid until their own release and are released exactly once",
"An object or pointer obtained from the C interface keeps its content unchanged until that object itself is released, in whatever order other objects, including the file it came from, are used and released; an iterator keeps working after its file was released. Releasing everything once returns all memory and file descriptors and never frees anything twice.",
["histories"],"all interleavings of creating, reading and releasing files, raw data, thumbnails, bitmaps, metadata values and iterators through the C interface",
"The C tests release objects in one fixed order and check nothing after release.",
["src/capi/rawfile.rs","src/capi/rawdata.rs","src/capi/thumbnail.rs","src/capi/bitmap.rs","src/capi/metavalue.rs","src/capi/iterator.rs","src/capi/mosaic.rs","src/capi/ifd.rs","src/capi.rs"],
[("ownership transfer with into_raw/from_raw","src/capi/*.rs"),("iterator holding its file","src/capi/iterator.rs")])

p("C10","The C interface reports every failure by its code and never aborts the caller",
"A C call that cannot deliver (null handle, missing file, absent thumbnail or value, buffer too small, out-of-range index, damaged or unreadable file) returns the documented error code or a null or zero value and leaves the process alive and the caller's buffers unharmed, and a call that succeeds reports success. Strings handed out are NUL-terminated.",
["inputs","histories","fault_sequences"],"all C calls with all legal argument combinations including null handles and all buffer sizes, on good, damaged, unreadable and absent files",
"The C tests cover a few successful calls; a panic crossing the C boundary aborts the host program.",
["src/capi.rs","src/capi/rawfile.rs","src/capi/rawdata.rs","src/capi/thumbnail.rs","src/capi/bitmap.rs","src/capi/metavalue.rs","src/capi/ifd.rs","src/capi/iterator.rs","src/capi/mime.rs","src/capi/mosaic.rs","include/libopenraw/rawfile.h"],
[("error mapping","src/capi.rs From<Error>"),("null checks and out parameters","src/capi/*.rs")])

p("C11","After faults stop, opening the file again gives the full result",
"Whatever sequence of failed, interrupted or damaged accesses went before, in the same process and on the same or on other handles, opening the file again once the faults have stopped gives exactly the results of an undisturbed process; a query that failed because of a read error and is repeated on the same handle afterwards returns either its proper result or an error, never a different value.",
["histories","fault_sequences"],"all histories of faulty accesses followed by a fault-free access",
"No test injects a fault, so none observes what a failure leaves behind in caches, shared tables or the file position.",
["src/rawfile.rs","src/io.rs","src/container.rs","src/camera_ids.rs","src/tiff/container.rs"],
[("caches that may be initialised while a fault is present","OnceCell get_or_try_init in src/*.rs"),("file position after a failed operation","src/io.rs")])

p("C12","Results depend only on the bytes of the file",
"Two runs on the same bytes give identical results, including every byte of pixel and thumbnail data, whatever the memory contained before, whatever the hash seeds, clock, time zone, environment, working directory, log level and process history.",
["inputs","configurations","histories"],"all files (good, truncated, damaged) x all prior memory contents, hash seeds, environments",
"A test sees one memory image and cannot tell a value that was computed from one that happened to be left in memory.",
["src/container.rs","src/decompress/tiled.rs","src/tiff/entry.rs","src/fujifilm/raf.rs","src/utils.rs","src/factory.rs","src/metadata.rs"],
[("buffers created without initialisation","uninit_vec! users"),("hash tables that are enumerated","src/factory.rs extensions; src/*.rs maps")])

p("C13","A file is identified as what it is, or not at all",
"Opened from memory, or under a name whose extension says nothing, a file whose content carries the signature of a supported format is identified as that format, and under a name with the extension of a supported format, in whatever case, it is taken for that format; either way it has that format's media type and the vendor its content names. The detection of an unsupported, truncated or unreadable file ends in no type or an error, never in a crash, and detection leaves the file usable for all later queries.",
["inputs","fault_sequences","configurations"],"all contents and names, all truncations of the signature area, all read errors while sniffing",
"Tests identify a few fixed buffers that are complete and readable.",
["src/identify.rs","src/factory.rs","src/rawfile.rs","src/dng.rs","src/tiff/container.rs"],
[("content sniffing","src/identify.rs type_for_content"),("extension table","src/identify.rs, src/factory.rs"),("media type tables","src/factory.rs")])

p("C14","Thumbnails are the stored ones, and the requested size selects by the rule",
"The list of thumbnail sizes is exactly that of the previews the file stores; each thumbnail delivers exactly the stored bytes with the stored format and dimensions; and asking for a size delivers the thumbnail of that size or else the smallest larger one or else the largest smaller one, with size zero refused and a file without previews reporting not found.",
["inputs","histories"],"all placements, sizes, formats and numbers of previews in all supported formats x all requested sizes x all call orders and I/O chunkings",
"Tests check the sizes of one or two thumbnails of fixed samples and hardly ever their bytes.",
["src/rawfile.rs","src/container.rs","src/thumbnail.rs","src/tiff/container.rs","src/canon/crw.rs","src/canon/cr3.rs","src/fujifilm/raf.rs","src/minolta.rs","src/olympus.rs","src/panasonic.rs","src/dng.rs","src/jpeg/container.rs"],
[("thumbnail selection","src/rawfile.rs thumbnail()"),("preview discovery","src/tiff/container.rs add_thumbnails and per-format thumbnails()"),("byte delivery","src/container.rs make_thumbnail; src/rawfile.rs")])

p("C15","Raw pixel data is exactly what the file stores",
"For a well-formed file, undecompressed raw data is exactly the stored bytes, and decompressed raw data has the stored dimensions and exactly the pixel values that were encoded, for every supported packing, compression, byte order, slice, strip and tile layout, with the stored bit depth, levels, mosaic pattern and active area, and the colour matrices and illuminants it stores or else those built in for its camera.",
["inputs","configurations"],"all images x all supported formats, bit depths, byte orders, compressions and strip/tile/slice layouts, under arbitrary legal I/O chunkings",
"Tests compare checksums of sample images that are not shipped, and unit tests unpack a few bytes; the layouts and pixel values are unbounded.",
["src/decompress.rs","src/decompress/ljpeg.rs","src/decompress/tiled.rs","src/decompress/sliced_buffer.rs","src/utils.rs","src/dng.rs","src/canon/cr2.rs","src/olympus.rs","src/olympus/decompress.rs","src/epson.rs","src/pentax.rs","src/nikon.rs","src/sony.rs","src/panasonic.rs","src/minolta.rs","src/fujifilm/raf.rs"],
[("raw data extraction","get_raw_data/load_rawdata of each format"),("decoders","src/decompress*.rs and per-vendor decompress.rs")])

p("C16","Metadata is what the file stores, and enumeration agrees with lookup",
"Each metadata value reported has exactly the type and content stored in the file in its byte order, wherever and in whatever order entries are stored; a tag that is not stored is not reported; enumeration lists every stored entry of the exposed directories exactly once, under its standard name, and looking up an enumerated key gives the enumerated value.",
["inputs","histories"],"all directory contents, entry types, counts, byte orders and placements in all supported formats x all call orders and I/O chunkings",
"Tests read a few fixed keys of fixed samples; neither the placement nor the value space is sampled.",
["src/tiff/dir.rs","src/tiff/entry.rs","src/tiff/container.rs","src/tiff/iterator.rs","src/metadata.rs","src/rawfile.rs","src/jpeg/container.rs","src/canon/crw.rs","src/canon/cr3.rs","src/fujifilm/raf.rs","src/minolta.rs"],
[("entry decoding","src/tiff/entry.rs"),("directory enumeration","src/metadata.rs, src/tiff/iterator.rs"),("key lookup","src/rawfile.rs metadata_value")])

p("C17","No history leaks descriptors or memory",
"After every handle and object obtained has been dropped or released, the number of open file descriptors and the amount of allocated memory are what they were before, whatever calls were made and whether they succeeded or failed, with or without I/O faults.",
["histories","fault_sequences"],"all call sequences x all fault placements, repeated any number of times",
"Tests never count descriptors or live allocations, and the error paths where leaks hide are not executed.",
["src/rawfile.rs","src/io.rs","src/capi/rawfile.rs","src/capi/iterator.rs","src/capi/thumbnail.rs","src/capi/rawdata.rs","src/capi/bitmap.rs","src/capi/metavalue.rs"],
[("handle ownership","src/rawfile.rs RawFileHandle; src/capi/*.rs release functions"),("views sharing the reader","src/io.rs Viewer (reference counted)")])

p("C18","Dumping survives failing output and loses or repeats nothing",
"Dumping a file's structure shows every directory the file stores with its entries, and writes the same bytes to every writer, however short the writes it accepts and however often they are interrupted; when the output fails at any point (full disk, closed pipe) or the input does, the call returns without crashing, and what was written until the output first failed is a prefix of the complete dump when only the output failed.",
["inputs","fault_sequences"],"all files x all sequences of short, interrupted and failing writes and input errors",
"The dump is only exercised by hand through a command-line tool writing to a terminal.",
["src/dump.rs","src/tiff/container.rs","src/tiff/dir.rs","src/tiff/entry.rs","src/canon/crw/ciff.rs","src/fujifilm/raf.rs","src/minolta.rs","src/mp4/container.rs","src/rawfile.rs"],
[("dump formatting","src/dump.rs dump_writeln and write_dump implementations")])

p("C19","Memory use is bounded by the file and the image it declares",
"Opening and querying a file never needs more memory than a small multiple of the file size plus the size of the image it declares and actually delivers; a small damaged or hostile file cannot make any query allocate out of proportion.",
["inputs","fault_sequences"],"all byte strings; all damage to counts, lengths, dimensions and offsets of well-formed files",
"Tests do not observe allocation, and feed only well-formed sizes.",
["src/container.rs","src/tiff/entry.rs","src/decompress/ljpeg.rs","src/decompress/tiled.rs","src/canon/crw/ciff.rs","src/mp4/parse/mod.rs","src/rawimage.rs","src/fujifilm/raf.rs"],
[("allocations sized by file fields","load_buffer8, load_data_impl, decoders' output buffers")])

p("C20","Rendering delivers the requested stage consistently",
"Rendering to the raw stage is refused or gives exactly the raw pixels, rendering to the linear stage maps each pixel between its black and white level monotonically into the full range, and rendering further has the dimensions of the image it describes and one triple per pixel, which after interpolation holds the value measured there in the channel of its place in the mosaic pattern and the medians of the neighbouring measurements in the others, and after the colour stage that triple taken through the inverse of the image's D65 matrix to sRGB and its transfer function; rendering never changes the file's other answers, and a file without usable pixels or levels gives an error instead of an image.",
["inputs","histories","configurations"],"all images x all rendering options x all call orders and damaged inputs",
"Tests render no file; the pixel and option space is unbounded.",
["src/rawimage.rs","src/render.rs","src/render/demosaic.rs","src/render/grayscale.rs","src/rawfile.rs","src/capi/rawfile.rs","src/capi/bitmap.rs"],
[("render pipeline","src/rawimage.rs rendered_image; src/render/*.rs")])

p("C21","The command line tools report every file and write what they say they wrote",
"Given several files, ordiag, ordump, identify, probe and the metadata lister report for each of them, in order, what the library answers for it, and go on with the next after one that is missing, unreadable or damaged or whose output can't be written; a thumbnail ordiag extracts is in its file completely and unchanged, the raw image as a PGM of the right size, depth and sample order with every sample limited to the white it declares, and the data the rawdata tool extracts likewise, however short or interrupted the writes are; an output that can't be written is reported on stderr, never announced as written, and no tool crashes on any file.",
["inputs","faults","configurations"],"all lists of files x all damage x all outcomes of creating and writing outputs",
"No test runs the tools; a short write or a full disk never happens in one.",
["src/bin/ordiag.rs","src/bin/ordump.rs","src/bin/metadata.rs","src/bin/identify.rs","src/bin/probe.rs","src/bin/rawdata.rs"],
[("extraction","src/bin/ordiag.rs save_thumbnail, save_raw"),("listing","src/bin/ordiag.rs process_file; src/bin/ordump.rs; src/bin/metadata.rs; src/bin/identify.rs; src/bin/probe.rs")])

p("N01","Built-in colour matrices match the published calibration",
"For every camera the library knows, the built-in colour matrix, black and white levels are those published for that camera.",
["inputs"],"all supported cameras",
"The tables are constants; only the published data can settle them.",
["src/canon/matrices.rs","src/nikon/matrices.rs","src/olympus/matrices.rs","src/fujifilm/matrices.rs","src/colour/matrix.rs"],
[("constant tables","src/*/matrices.rs")])
with open(__import__("os").path.join(__import__("os").path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
