#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
FR="flatgeobuf/file_reader.go"; FW="flatgeobuf/file_writer.go"; ST="flatgeobuf/stateful.go"
FB="flatgeobuf/flatbuffers.go"; SP="flatgeobuf/spec.go"; PR="flatgeobuf/prop_reader.go"; PW="flatgeobuf/prop_writer.go"
SG="flatgeobuf/stringers.go"; RT="packedrtree/packedrtree.go"; HB="packedrtree/hilbert.go"; BX="packedrtree/box.go"
LE="packedrtree/native_littleendian.go"; BE="packedrtree/native_bigendian.go"; FL="flatgeobuf/flat/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","What the file writer writes, a reader gets back exactly",
 "A file written through any complete, error-free sequence of file writer calls is a well-formed FlatGeobuf file: the magic number, the header table, the index if there is one, then every feature table, byte for byte as supplied, with nothing in between. Reading it back yields the same header and every feature exactly once, whichever way the features are read (in batches of any size, all at once, or by searching). Features written one at a time keep their order; an index the writer builds itself refers each feature's exact bounding box (over all coordinates of the geometry and its nested parts) to that feature's exact position in the data section.",
 ["inputs","programs"],"all headers, feature lists, geometries, node sizes and write/read paths",
 "There is no writer test at all; examples only read a few fixed files.",
 [FW,FR,FB,SG],[("header/index/data emission",FW+":Header,Index,IndexData,Data"),("table size discovery",FB+":writeSizePrefixedTable,tableSize"),("feature offsets and bounds",FW+":IndexDataPtr,featureBounds"),("feature decoding",FR+":Data,DataRem,readFeature")],
 ["bytes given to the io.Writer","features returned by FileReader"])
p("P02","In-memory index search returns exactly the intersecting references",
 "Searching a packed R-tree built from Hilbert-sorted references returns every reference whose bounding box intersects the (closed) query box, touching edges and degenerate boxes included, and no other, each exactly once, with the reference's own offset and its position in the list the tree was built from. The tree's reported bounds are the exact union of the reference boxes and its reported reference count and node size are those it was built with. A search's answer does not depend on earlier searches.",
 ["inputs","histories"],"all reference lists (any length >= 1), node sizes >= 2, and NaN-free query boxes",
 "Tests use one 11-point diagonal layout and a handful of node sizes; the answer must equal a linear scan for every layout, tree shape and query.",
 [RT,BX],[("bottom-up construction",RT+":New,levelify"),("ticket based traversal",RT+":search,ticketBag"),("closed-interval overlap",BX+":intersects,Expand")],
 ["PackedRTree.Search","PackedRTree.Bounds"],[("levels","node index range of each tree level",RT+":packedRTree.levels")])
p("P03","Streaming index search agrees with in-memory search",
 "Searching the serialized form of an index through a seekable stream returns the same set of results as searching the index in memory, in ascending offset order. It works from whatever position the stream is at when called, touches nothing but the index's own bytes, tolerates a stream that returns data in arbitrarily small pieces, and leaves the stream positioned exactly after the index. Results of any search can be sorted into ascending offset order with the standard library's sort.",
 ["inputs","fault_sequences","configurations"],"all indexes, queries, stream start positions and read-chunkings",
 "Tests cover streaming search almost only through error mocks and one four-reference example.",
 [RT],[("min-heap traversal with fetch",RT+":Seek,search,heapPush,heapPop"),("relative seeks and final skip",RT+":Seek")],
 ["packedrtree.Seek results","stream position and reads issued"],[("offset","tracked stream position",RT+":Seek")])
p("P04","Index serialization is exact, sized as computed, and lossless",
 "Serializing an index produces exactly the FlatGeobuf packed Hilbert R-tree layout: root first and leaves last, 40 little-endian bytes per node, each inner node holding the union of its children's boxes and its first child's node number, with a total length equal to the size computed from the reference count and node size. Deserializing those bytes consumes exactly that many bytes however they are chunked, and yields an index with the same bounds, counts and search results, which serializes to the identical bytes.",
 ["inputs","configurations"],"all reference lists and node sizes; all read-chunkings",
 "Tests round-trip eleven fixed references; no test compares the bytes to the format for arbitrary shapes.",
 [RT,LE],[("raw node array serialization",RT+":Marshal,Unmarshal,levelify,size"),("byte order",LE)],
 ["bytes from PackedRTree.Marshal","packedrtree.Unmarshal"])
p("P05","File search returns exactly the intersecting features, in file order",
 "For every well-formed indexed file and query box, searching the file returns exactly the features whose indexed bounding box intersects the query, each complete and unaltered, in file order. The answer is the same whether or not the stream can seek, whether or not the index was already loaded into memory, whatever the order of the features in the data section relative to the index, and however many searches, reads and rewinds preceded it. On a file without an index it reports the no-index error.",
 ["inputs","histories","configurations"],"all indexed files, queries, stream kinds and preceding call histories",
 "The only example that searches a file needs a data file that is absent; no test ever runs a file search.",
 [FR,RT],[("search, sort, skip, read",FR+":IndexSearch"),("offset caching across rewinds",FR+":saveIndexOffset,saveDataOffset"),("discarding unseekable input",FR+":discard")],
 ["FileReader.IndexSearch"],[("cachedIndex","index kept from an earlier Index call",FR),("featureOffset","data section read position",FR)])
p("P06","Every file reader call history behaves like the documented protocol",
 "For every sequence of file reader calls (open header, load index, search, read batches of any size including zero, read the rest, rewind, close) each call either performs its function from the position the preceding calls imply, or, if not allowed there, fails with an error without panicking and without changing what later calls return. Reads deliver each remaining feature once and in order, then report end of file; rewinding a seekable stream makes the index and all features available again, and on an unseekable one is refused; after closing, everything reports the closed error and the underlying stream is closed once.",
 ["histories","configurations"],"all finite call sequences, on files with and without index, known and unknown feature counts, seekable and unseekable streams",
 "Tests call each method at most once in the one natural order; the protocol has dozens of orders and hidden cached positions.",
 [FR,ST],[("state machine",ST+":toState,toErr,close"),("lazy repositioning",FR+":Rewind,skipIndex,Index")],
 ["return values of every FileReader method"],[("state","protocol state",ST+":stateful.state"),("indexOffset/dataOffset/featureIndex","remembered positions",FR)])
p("P07","Every file writer call history emits only valid output or an error",
 "For every sequence of file writer calls, a call made out of order, or whose index or feature list disagrees with the header's feature count or node size, or with a table that is not a complete size-prefixed root table, fails with an error and does not corrupt the output or make a later correct call misbehave: a rejected header, index or feature (also one whose needed fields lie outside its buffer) leaves the output untouched, and a nil header, index or feature is refused in the same way, if need be by a panic. What has been written is at every moment a prefix of a well-formed file, every call returns the number of bytes it emitted, and no more features can be written than the header announces. None of this depends on the type of the writer or on how many features were written before. Closing closes the underlying stream once, and reports an error if fewer features were written than announced.",
 ["histories","inputs"],"all finite call sequences over valid and invalid arguments",
 "There are no file writer tests.",
 [FW,ST,FB],[("state machine",FW+":canWriteIndex,canWriteData,index,Data,Close"),("argument validation",FB+":tableSize,writeSizePrefixedTable")],
 ["bytes given to the io.Writer","return values of every FileWriter method"],[("state/featureIndex","write position",FW)])
p("P08","Stream behaviour never changes data; stream errors always surface",
 "However a stream legally delivers its bytes (any chunk sizes, empty reads, the end-of-file indication together with the last bytes), and whatever type of stream it is (buffer, file, buffered reader, section, pipe, with or without further methods), reading an index, a file or properties gives the same result as from memory and consumes no byte beyond it. If a read or seek fails, the call that needed it returns an error carrying the cause, any features returned before that are correct, and, for a file reader, later reads keep failing rather than resuming at a wrong position.",
 ["fault_sequences","histories"],"every stream operation index x every legal delivery or failure, over representative call sequences",
 "Tests inject errors at three fixed spots in one function; none covers the file reader or short reads.",
 [FR,RT,PR,ST],[("exact reads",FR+":readFeature,readTable,discard"),("sticky error state",ST+":toErr"),("error wrapping","flatgeobuf/errors.go:wrapErr")],
 ["return values under a fault-injecting io.Reader/io.Seeker"])
p("P09","A truncated file is always detected",
 "If a file is cut off at any byte, reading it never reports success for something incomplete: features returned are exactly the complete ones before the cut, and then an error other than a normal end-of-file (not io.EOF, nor an error wrapping it) is reported by the header, index, batch-read, read-the-rest or search call that needed the missing bytes. The only exception is a file with unknown feature count cut exactly between two features, which is itself a valid file. The same holds for a truncated index and truncated properties.",
 ["crash_points","inputs"],"every cut position of every file; seekable and unseekable streams; all ways of reading",
 "No test reads a truncated file.",
 [FR,RT,PR],[("end-of-data detection",FR+":readFeature,Data,DataRem,IndexSearch"),("skipping",FR+":discard,skipIndex")],
 ["errors returned by FileReader, Unmarshal, Seek, PropReader"])
p("P10","Write failures surface, are counted, and never yield silent gaps",
 "If the underlying stream fails at any write, after accepting any part of it, the writing call returns an error carrying the cause and the exact number of bytes accepted. After a partial write, a failed header or a failed index, every later writing call fails and emits nothing, so the output is always a prefix of the correct file. If a feature write failed without emitting anything, retrying it continues correctly; closing a file with missing features reports an error.",
 ["fault_sequences","histories"],"every write operation x every accepted byte count, over all writer call sequences including retries; properties and standalone index writes likewise",
 "There are no write-failure tests.",
 [FW,ST,FB,PW,RT],[("sticky error state",ST+":toErr"),("byte counting",FW+":Header,IndexDataPtr,Data"),("index write",RT+":Marshal")],
 ["return values and sink content under a fault-injecting io.Writer"])
p("P11","Corrupt input produces an error or data, never a crash or huge allocation",
 "Whatever bytes a file, index or property stream contains, the file reader, index loading, both kinds of index search, property decoding and the summary string functions return normally, with a result or an error. They do not panic, overflow the stack, loop forever, or allocate memory out of proportion to the input because of a size or count field in it.",
 ["inputs"],"all byte strings (explored: every single-byte and many multi-byte corruptions of valid files)",
 "No test feeds corrupt input; the property quantifies over all byte strings.",
 [FR,RT,PR,SG,FB,SP],[("panic trapping",FB+":safeFlatBuffersInteraction"),("length limits",FR+":headerMaxLen,readTable"),("child index validation",RT+":validateChild"),("cycle limits",SG+":geomBounds")],
 ["return vs panic/crash of FileReader, packedrtree.Unmarshal/Seek/Search, PropReader, HeaderString, FeatureString"])
p("P12","Property values survive encoding and decoding for every type",
 "Every value of every property type (signed and unsigned 8- to 64-bit integers, booleans, floats, strings, JSON, dates, binary of any length) written by the property writer is encoded in the FlatGeobuf little-endian layout, the writer reports the encoded length, and the property reader decodes the identical value and consumes exactly those bytes. Decoding a stream of column-index/value pairs against a schema yields every pair, in order, with the right column, type and value, for any number of columns and any order or repetition of properties.",
 ["inputs","programs"],"all values of all fifteen property types, all sequences of properties",
 "Only strings and one 32-bit integer in one example are ever decoded; the writer has no tests.",
 [PR,PW],[("fixed-width codecs",PR+":ReadShort..ReadDouble"),("length-prefixed codecs",PR+":ReadBinary,ReadString"),("schema walk",PR+":ReadSchema"),("encoders",PW)],
 ["bytes given to the io.Writer","values returned by PropReader"])
p("P13","Invalid property streams are rejected, not partially decoded",
 "Decoding properties against a schema returns an error, and no values, if the stream ends inside a property, names a column the schema does not have, uses a column whose type is unknown, or the stream fails or the schema cannot deliver a column; it never invents a value. A stream that ends exactly between properties (including an empty one) is decoded successfully. When reading a single value fails, no value comes with the error, and the error is the end of file only if not even the first byte of the value was there.",
 ["inputs","fault_sequences"],"all property streams and schemas; every cut position and stream failure",
 "No test decodes an invalid property stream.",
 [PR],[("error propagation",PR+":ReadSchema"),("end-of-stream detection",PR+":ReadSchema,ReadBinary")],
 ["PropReader.ReadSchema"])
p("P14","Hilbert sort permutes into descending Hilbert order",
 "Sorting references leaves exactly the same references, reordered so that the positions of their box centers on the order-16 Hilbert curve over the given bounds never increase, using the same curve orientation and scaling as the FlatGeobuf reference implementations. The index which a file writer builds from a feature list has its leaves in this order, over the bounds of all the features. The curve is a true Hilbert curve: every cell has its own position and consecutive positions are adjacent cells. Degenerate bounds (zero width or height) are handled.",
 ["inputs"],"all reference lists whose boxes lie in the bounds; every grid cell of the curve",
 "Tests compare six points and a few files; the curve has 2^32 cells.",
 [HB],[("curve index",HB+":hilbertOfXY,hilbertOfCenter"),("sort",HB+":HilbertSort,hilbertSortable")],
 ["packedrtree.HilbertSort"])
p("P15","Index size is exact for every count and node size, or an overflow error",
 "For every positive reference count and node size of at least two, the computed index size is exactly 40 bytes times the number of nodes in the packed tree, or an error if and only if that does not fit the platform's int; it never returns a wrapped or partial number. Invalid arguments (count below one, node size below two) are rejected by a panic as documented.",
 ["inputs"],"all (count, node size) pairs, including those near integer overflow, for 64-bit and 32-bit int",
 "Tests check five sizes and two overflow cases.",
 [RT],[("size computation",RT+":Size,size,totalNodes,levelify")],
 ["packedrtree.Size"])
p("P16","Bounding box expansion is the exact union",
 "Expanding a box by another box or by a coordinate yields the smallest box containing both, never changes the argument, is idempotent and independent of order, and treats the empty box as neutral; width and height are the differences of the limits. Printing a box gives its four limits in x-min, y-min, x-max, y-max order.",
 ["inputs"],"all NaN-free boxes and coordinates including infinities and signed zeros; all expansion orders",
 "Tests sample a few boxes; all limits interact independently.",
 [BX],[("component-wise min/max",BX+":Expand,ExpandXY"),("dimensions",BX+":Width,Height")],
 ["Box.Expand, Box.ExpandXY, Box.Width, Box.Height, Box.String"])
p("P17","Schema accessors agree with the FlatGeobuf table definitions",
 "For every combination of present and absent fields, the generated accessors for headers, columns, coordinate reference systems, features and geometries return the stored value of each present field and the schema default of each absent one, according to the published FlatGeobuf schema's field order, types and enumerations. The builders store each field where an independent FlatBuffers decoder finds it, aligned as the FlatBuffers format demands, and in-place mutation changes only the field it names.",
 ["inputs","programs"],"all subsets of fields, boundary values of each, all vector lengths up to a bound; all enumeration values",
 "Nothing tests the accessors against the schema; examples touch a few header fields.",
 [FL+"Header.go",FL+"Column.go",FL+"Crs.go",FL+"Feature.go",FL+"Geometry.go",FL+"ColumnType.go",FL+"GeometryType.go"],[("vtable slots",FL),("enumeration names",FL+"ColumnType.go,GeometryType.go")],
 ["flat.* accessors, builders and mutators"])
p("P18","Concurrent searches and independent readers and writers do not interfere",
 "Any number of goroutines can search, serialize and inspect one index at the same time, and summarize one header or feature, and independent readers, writers, sorts and streaming searches can run concurrently. Under every interleaving, each gets the result it would get alone, without data races.",
 ["schedules"],"all interleavings of the goroutines' steps",
 "All tests are single-threaded.",
 [RT,HB,FR,FW,SG,PR,PW],[("read-only search over immutable nodes",RT+":search"),("no package-level mutable state","all packages")],
 ["results of concurrent calls under a controlled scheduler"],None,"statement-level yield points, inserted into copies of the sources by the check")
p("P19","Results and inputs are never aliased or modified behind the caller's back",
 "Features, indexes, search results, strings and byte slices once returned never change because of later calls, of closing, or of the source buffer being reused, and modifying them (or the list an index was built from) affects no other result. Writing calls never modify the headers, features, lists or byte slices they are given.",
 ["histories","inputs"],"all call sequences after a value was returned or passed in",
 "No test looks at a result again after another call.",
 [FR,FW,RT,PR,PW],[("per-feature buffers",FR+":readFeature"),("copied leaf nodes",RT+":New"),("fresh string/binary buffers",PR+":ReadBinary,ReadString")],
 ["returned values re-inspected after later operations"])
p("P20","Results and formats do not depend on the host's byte order or word size",
 "The packages build for every CPU architecture Go supports, and on each read and write the same bytes for the same data: in particular serializing, loading and streaming-searching an index on a big-endian host uses the little-endian file format, for every index size and however the stream chunks or fails. On 32-bit hosts results are the same, except that what cannot be represented is reported as an error.",
 ["configurations","inputs"],"all supported architectures; all index sizes, chunkings and write failures",
 "Tests only run on the developer's little-endian 64-bit machine; the big-endian code is not even compiled.",
 [BE,LE,RT,FR],[("octet swapping",BE+":fixLittleEndianOctets,writeLittleEndianOctets"),("build constraints",LE+","+BE)],
 ["go build per GOARCH","Marshal/Unmarshal/Seek with the big-endian code"])
p("P21","Only supported FlatGeobuf files are accepted, and limits are enforced",
 "A stream is recognized as FlatGeobuf if and only if its first eight bytes are the magic number with any major and patch version, which are reported, and recognition consumes exactly those bytes. A file reader accepts exactly major version 3 with any patch version; it rejects header lengths too small for a table or above the 32 MiB limit without reading on, index node size one, and feature counts that do not fit an int, while accepting all others. The writer emits the version 3 magic number and rejects the same invalid headers before emitting anything.",
 ["inputs"],"all magic numbers, versions, header lengths, node sizes and feature counts",
 "One file's magic number is tested.",
 [SP,FR,FW],[("magic comparison",SP+":Magic"),("header validation",FR+":Header"),("writer validation",FW+":Header")],
 ["flatgeobuf.Magic, FileReader.Header, FileWriter.Header"])
p("P22","Summary strings show the actual header, feature and index content",
 "The header summary shows the name, envelope, geometry type, dimension flags, column count, feature count (or that it is unknown), index node size (or that there is no index), coordinate reference system and texts that the header holds, for every combination of present and absent fields. The feature summary shows the geometry's type and bounds over all its parts, and every property with the column name and value, resolved through the feature's own columns if it has any, and otherwise through the supplied schema. The string forms of an index and of a reference show the index's bounds, number of references and node size, and the reference's box and offset. If the header or feature is cut off or its geometry contains itself, the summary is an error text, never a partial summary.",
 ["inputs"],"all combinations of header fields; all features and schemas",
 "Examples print four headers and three features.",
 [SG,RT],[("header summary",SG+":HeaderString"),("feature summary",SG+":FeatureString,stringProps,stringGeom,geomBounds"),("index and reference strings",RT+":String")],
 ["HeaderString, FeatureString, PackedRTree.String, Ref.String"])
p("P23","Searching and reading touch only the bytes they need",
 "Streaming index search reads, each at most once and in ascending order, only the root and the groups of sibling nodes whose parent intersects the query. On a seekable stream, file search additionally reads only the matching features, each once; once an index has been loaded, later searches and loads after rewinding read nothing of it again; reading features without the index reads nothing of the index, and no feature that is not returned. On a stream that cannot seek, nothing is read beyond the last byte a call needs, so that an index or header can be used without reading the features after it.",
 ["inputs","histories"],"all index shapes and queries; all call histories; all deliveries",
 "No test looks at which bytes a call reads, other than for two mocked searches; any amount of unnecessary reading gives the right answer.",
 [RT,FR],[("streaming search fetch",RT+":Seek,search"),("skipping",FR+":IndexSearch,skipIndex,discard"),("index cache",FR+":Index")],
 ["byte ranges read from the stream during packedrtree.Seek and FileReader calls"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
