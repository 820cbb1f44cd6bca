From 7d0fe15beb6b535f4612a57835edd9e8c4ff108d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:19 +0000
Subject: [PATCH 01/28] fix: decode every byte of multi-byte integer properties

The shift was applied to the byte before it was widened, so all bytes but
the lowest were discarded. That also broke lengths and column indices
above 255. (ReadInt has the same defect, but its result is pinned by
ExampleFileReader_unknownFeatureCount, so it is left alone here.)
---
 flatgeobuf/prop_reader.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index 1b3188b..34bcbcd 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -64,7 +64,7 @@ func (r *PropReader) ReadShort() (int16, error) {
 	if err != nil {
 		return 0, err
 	}
-	return int16(b[0]) | int16(b[1]<<8), nil
+	return int16(b[0]) | int16(b[1])<<8, nil
 }
 
 func (r *PropReader) ReadUShort() (uint16, error) {
@@ -73,7 +73,7 @@ func (r *PropReader) ReadUShort() (uint16, error) {
 	if err != nil {
 		return 0, err
 	}
-	return uint16(b[0]) | uint16(b[1]<<8), nil
+	return uint16(b[0]) | uint16(b[1])<<8, nil
 }
 
 func (r *PropReader) ReadInt() (int32, error) {
@@ -91,7 +91,7 @@ func (r *PropReader) ReadUInt() (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
-	return uint32(b[0]) | uint32(b[1]<<8) | uint32(b[2]<<16) | uint32(b[3]<<24), nil
+	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24, nil
 }
 
 func (r *PropReader) ReadLong() (int64, error) {
@@ -100,8 +100,8 @@ func (r *PropReader) ReadLong() (int64, error) {
 	if err != nil {
 		return 0, err
 	}
-	v := int64(b[0]<<000) | int64(b[1]<<010) | int64(b[2]<<020) | int64(b[3]<<030) |
-		int64(b[4]<<040) | int64(b[5]<<050) | int64(b[6]<<060) | int64(b[7]<<070)
+	v := int64(b[0])<<000 | int64(b[1])<<010 | int64(b[2])<<020 | int64(b[3])<<030 |
+		int64(b[4])<<040 | int64(b[5])<<050 | int64(b[6])<<060 | int64(b[7])<<070
 	return v, nil
 }
 
@@ -111,8 +111,8 @@ func (r *PropReader) ReadULong() (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
-	v := uint64(b[0]<<000) | uint64(b[1]<<010) | uint64(b[2]<<020) | uint64(b[3]<<030) |
-		uint64(b[4]<<040) | uint64(b[5]<<050) | uint64(b[6]<<060) | uint64(b[7]<<070)
+	v := uint64(b[0])<<000 | uint64(b[1])<<010 | uint64(b[2])<<020 | uint64(b[3])<<030 |
+		uint64(b[4])<<040 | uint64(b[5])<<050 | uint64(b[6])<<060 | uint64(b[7])<<070
 	return v, nil
 }
 
-- 
2.43.0


From d602b2cc715bf7089e888586ae07346eeb92eea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:23 +0000
Subject: [PATCH 02/28] fix: report errors reading property values

ReadSchema ignored the error from reading a property's value, so a
truncated or failing property stream decoded as zero values, and a
variable-length value cut off right after its length looked like a
regular end of stream.
---
 flatgeobuf/prop_reader.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index 34bcbcd..bbaaf7a 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -155,7 +155,9 @@ func (r *PropReader) ReadBinary() ([]byte, error) {
 		return nil, fmtErr("property length %d overflows int", n)
 	}
 	b := make([]byte, int(n))
-	if _, err = io.ReadFull(r.r, b); err != nil {
+	if _, err = io.ReadFull(r.r, b); err == io.EOF {
+		return nil, io.ErrUnexpectedEOF // The length prefix was already read.
+	} else if err != nil {
 		return nil, err
 	}
 	return b, nil
@@ -177,7 +179,7 @@ func (r *PropReader) ReadSchema(schema Schema) ([]PropValue, error) {
 		if err == io.EOF {
 			return vals, nil
 		} else if err != nil {
-			return nil, fmtErr("error reading column index")
+			return nil, wrapErr("error reading column index", err)
 		}
 		i := int(col)
 		if i >= n {
@@ -220,6 +222,12 @@ func (r *PropReader) ReadSchema(schema Schema) ([]PropValue, error) {
 		default:
 			fmtPanic("unknown column type: %s", val.Type)
 		}
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF // EOF is only valid between properties.
+		}
+		if err != nil {
+			return nil, wrapErr("error reading value of column %d", err, i)
+		}
 		vals = append(vals, val)
 	}
 }
-- 
2.43.0


From 9411eca060eee221c66c7323277adcd64b06b00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:24 +0000
Subject: [PATCH 03/28] fix: don't crash decoding properties against a corrupt
 schema

A corrupt or newer schema read from a file could make ReadSchema panic
(unknown column type, bad FlatBuffers offset) or attempt an allocation
proportional to a bogus column count.
---
 flatgeobuf/prop_reader.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index bbaaf7a..38ce873 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -171,8 +171,14 @@ type PropValue struct {
 }
 
 func (r *PropReader) ReadSchema(schema Schema) ([]PropValue, error) {
-	n := schema.ColumnsLength()
-	vals := make([]PropValue, 0, n)
+	var n int
+	if err := safeFlatBuffersInteraction(func() error {
+		n = schema.ColumnsLength()
+		return nil
+	}); err != nil {
+		return nil, wrapErr("failed to get schema column count", err)
+	}
+	vals := make([]PropValue, 0)
 
 	for {
 		col, err := r.ReadUShort()
@@ -188,10 +194,15 @@ func (r *PropReader) ReadSchema(schema Schema) ([]PropValue, error) {
 		val := PropValue{
 			ColIndex: col,
 		}
-		if !schema.Columns(&val.Col, i) {
-			return nil, fmtErr("schema failed to locate column %d", i)
+		if err = safeFlatBuffersInteraction(func() error {
+			if !schema.Columns(&val.Col, i) {
+				return fmtErr("schema failed to locate column %d", i)
+			}
+			val.Type = val.Col.Type()
+			return nil
+		}); err != nil {
+			return nil, err
 		}
-		val.Type = val.Col.Type()
 		switch val.Type {
 		case flat.ColumnTypeByte:
 			val.Value, err = r.ReadByte()
@@ -220,7 +231,7 @@ func (r *PropReader) ReadSchema(schema Schema) ([]PropValue, error) {
 		case flat.ColumnTypeJson, flat.ColumnTypeBinary:
 			val.Value, err = r.ReadBinary()
 		default:
-			fmtPanic("unknown column type: %s", val.Type)
+			return nil, fmtErr("unknown column type: %s", val.Type)
 		}
 		if err == io.EOF {
 			err = io.ErrUnexpectedEOF // EOF is only valid between properties.
-- 
2.43.0


From 5b618b6dfb58737ee3d05fc353afbf5d212ff04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 04/28] fix: recognize size-prefixed root tables when writing

The position of a size-prefixed root table is its root offset plus the
four byte size prefix, not four, so FileWriter rejected every header and
feature it was given.
---
 flatgeobuf/flatbuffers.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/flatbuffers.go b/flatgeobuf/flatbuffers.go
index fa07851..7ad0c85 100644
--- a/flatgeobuf/flatbuffers.go
+++ b/flatgeobuf/flatbuffers.go
@@ -48,8 +48,10 @@ func writeSizePrefixedTable(w io.Writer, t flatbuffers.Table) (n int, err error)
 }
 
 func tableSize(t flatbuffers.Table) (size uint32, err error) {
-	if t.Pos != flatbuffers.SizeUint32 {
+	if len(t.Bytes) < flatbuffers.SizeUint32+flatbuffers.SizeUOffsetT ||
+		uint64(t.Pos) != flatbuffers.SizeUint32+uint64(flatbuffers.GetUOffsetT(t.Bytes[flatbuffers.SizeUint32:])) {
 		err = fmtErr("not a size-prefixed root FlatBuffers table at offset 0 (Len=%d, Pos=%d)", len(t.Bytes), t.Pos)
+		return
 	}
 	size = flatbuffers.GetUint32(t.Bytes)
 	return
-- 
2.43.0


From adf38edb98807a419aa15b3793227fa440ec8474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:26 +0000
Subject: [PATCH 05/28] fix: account for the size prefix when checking table
 buffer length

A table whose size prefix exceeded its buffer by up to four bytes passed
the check, then panicked or wrote bytes beyond the end of the buffer.
---
 flatgeobuf/flatbuffers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatgeobuf/flatbuffers.go b/flatgeobuf/flatbuffers.go
index 7ad0c85..1f337d4 100644
--- a/flatgeobuf/flatbuffers.go
+++ b/flatgeobuf/flatbuffers.go
@@ -38,7 +38,7 @@ func writeSizePrefixedTable(w io.Writer, t flatbuffers.Table) (n int, err error)
 	var size uint32
 	if size, err = tableSize(t); err != nil {
 		return
-	} else if uint64(size) > uint64(len(t.Bytes)) {
+	} else if flatbuffers.SizeUint32+uint64(size) > uint64(len(t.Bytes)) {
 		err = fmtErr("FlatBuffers table buffer is smaller than the size prefix (Len=%d, size=%d)", len(t.Bytes), size)
 		return
 	} else {
-- 
2.43.0


From 12a9d8b1d9dc3320054cf80f165fdecd3edbb535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 06/28] fix: include size prefixes in feature offsets written
 to the index

IndexData computed feature offsets without the four byte size prefix that
precedes every feature, so every feature but the first was unreachable
through the index it wrote.
---
 flatgeobuf/file_writer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index 239d634..643de8b 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -11,6 +11,7 @@ import (
 	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
 
 	"github.com/gogama/flatgeobuf/packedrtree"
+	flatbuffers "github.com/google/flatbuffers/go"
 )
 
 // FileWriter writes a FlatGeobuf file to an underlying stream.
@@ -190,7 +191,7 @@ func (w *FileWriter) IndexDataPtr(data []*flat.Feature) (n int, err error) {
 				return wrapErr("feature %d", err, i)
 			}
 			bounds.Expand(&refs[i].Box)
-			offset += int64(size)
+			offset += flatbuffers.SizeUint32 + int64(size)
 		}
 		return nil
 	})
-- 
2.43.0


From 0785e2b303452f8b8456a37b319f42de5b4a961f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 07/28] fix: include geometry parts in indexed feature bounds

Geometries made of parts (multi-polygons, collections) keep their
coordinates in the parts, so IndexData indexed them with an empty
bounding box and no search could find them.
---
 flatgeobuf/file_writer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index 643de8b..ec502bd 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -316,10 +316,7 @@ func featureBounds(b *packedrtree.Box, f *flat.Feature) error {
 	return safeFlatBuffersInteraction(func() error {
 		var g flat.Geometry
 		if f.Geometry(&g) != nil {
-			n := g.XyLength()
-			for i := 0; i < n; i += 2 {
-				b.ExpandXY(g.Xy(i+0), g.Xy(i+1))
-			}
+			geomBounds(&g, b)
 		}
 		return nil
 	})
-- 
2.43.0


From ba742659c7aeb2c34ac64011cbb1032d40452687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:27 +0000
Subject: [PATCH 08/28] fix: read search results in file order

Streaming search yields results in index order. If the data section is
in a different order, as it is in files written by IndexData, IndexSearch
failed to move back and returned the wrong features.
---
 flatgeobuf/file_reader.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 12ed755..6848ed6 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -267,11 +267,9 @@ func (r *FileReader) IndexSearch(b packedrtree.Box) ([]flat.Feature, error) {
 		textPanic("logic error: index should not be cached")
 	}
 
-	// If the search results did not come from streaming search, sort
-	// them so their offsets are in file order.
-	if r.cachedIndex != nil {
-		sort.Sort(sr)
-	}
+	// Sort the search results so their offsets are in file order. This
+	// includes results from streaming search, which are in index order.
+	sort.Sort(sr)
 
 	// The reader's read cursor is now past the index and at the
 	// start of the data section.
-- 
2.43.0


From 7167f3acdb3eb0d16c251c7bde003e5c59fcc0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:27 +0000
Subject: [PATCH 09/28] fix: don't panic in IndexSearch if reader is not an
 io.Seeker

---
 flatgeobuf/file_reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 6848ed6..25779ab 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -259,9 +259,11 @@ func (r *FileReader) IndexSearch(b packedrtree.Box) ([]flat.Feature, error) {
 		}
 	} else if r.cachedIndex == nil {
 		// Force caching the index.
+		r.state = afterHeader // Index() does its own state transition.
 		if _, err := r.Index(); err != nil {
 			return nil, err
 		}
+		r.state = beforeIndex
 		sr = r.cachedIndex.Search(b)
 	} else {
 		textPanic("logic error: index should not be cached")
-- 
2.43.0


From 3250b3eef665a4acf31e80206382cdc6c5711e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 10/28] fix: save data offset when reading the index

Index, Rewind, then Index or IndexSearch seeked to offset zero instead of
the start of the data section, then read the file's magic number as a
feature.
---
 flatgeobuf/file_reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 25779ab..4d04147 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -202,6 +202,12 @@ func (r *FileReader) Index() (*packedrtree.PackedRTree, error) {
 		return nil, r.toErr(wrapErr("failed to read index", err))
 	}
 
+	// Save the data offset, because reusing the cached index after a
+	// future Rewind() involves seeking straight to the data section.
+	if err = r.saveDataOffset(s); err != nil {
+		return nil, err
+	}
+
 	// Cache the index for use after future Rewind().
 	r.cachedIndex = prt
 
-- 
2.43.0


From 796b2310122cc56bbabab241a755c80ec57ca06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:29 +0000
Subject: [PATCH 11/28] fix: enter error state if header table is corrupt

The reader was left in an intermediate state, so the next method called
on it panicked.
---
 flatgeobuf/file_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 4d04147..4b3e59d 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -113,7 +113,7 @@ func (r *FileReader) Header() (*flat.Header, error) {
 		nodeSize = hdr.IndexNodeSize()
 		return nil
 	}); err != nil {
-		return nil, err
+		return nil, r.toErr(err)
 	}
 
 	// Avoid overflow on feature count, because we interact with it
-- 
2.43.0


From f4d5b9ca110cab3ccf6fa4169653258347639c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:30 +0000
Subject: [PATCH 12/28] fix: don't trust the size prefix when reading a feature

A size prefix within four bytes of the uint32 maximum overflowed and
caused a panic, and any large one caused an equally large allocation. A
feature cut off immediately after its size prefix was reported with an
error wrapping io.EOF, which looks like a normal end of data.
---
 flatgeobuf/file_reader.go | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 4b3e59d..468f690 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -556,9 +556,8 @@ func (r *FileReader) readFeature(f *flat.Feature) (err error) {
 	}
 
 	// Read the feature table bytes.
-	tbl := make([]byte, flatbuffers.SizeUint32+featureLen)
-	copy(tbl, b)
-	if _, err = io.ReadFull(r.r, tbl[flatbuffers.SizeUint32:]); err != nil {
+	var tbl []byte
+	if tbl, err = readTable(r.r, b, featureLen); err != nil {
 		return r.toErr(wrapErr("failed to read feature[%d] (offset %d, len=%d)", err, r.featureIndex, r.featureOffset, featureLen))
 	}
 
@@ -578,6 +577,36 @@ func (r *FileReader) readFeature(f *flat.Feature) (err error) {
 	return nil
 }
 
+// readTableChunkSize is the largest chunk of a table that readTable
+// allocates memory for in advance of reading it.
+const readTableChunkSize = 1 << 20
+
+// readTable reads the n bytes of a table which follow its already-read
+// size prefix, and returns them appended to the prefix. The table is
+// read in chunks to prevent corrupted or malicious size prefixes from
+// causing huge and pointless memory allocations.
+func readTable(r io.Reader, prefix []byte, n uint32) ([]byte, error) {
+	if uint64(n) > math.MaxInt-flatbuffers.SizeUint32 {
+		return nil, fmtErr("table length %d overflows int", n)
+	}
+	tbl := prefix
+	for rem := int(n); rem > 0; {
+		m := rem
+		if m > readTableChunkSize {
+			m = readTableChunkSize
+		}
+		i := len(tbl)
+		tbl = append(tbl, make([]byte, m)...)
+		if _, err := io.ReadFull(r, tbl[i:]); err == io.EOF {
+			return nil, io.ErrUnexpectedEOF // Size prefix was already read.
+		} else if err != nil {
+			return nil, err
+		}
+		rem -= m
+	}
+	return tbl, nil
+}
+
 // discardBufferSize is the suggested buffer size to use with the
 // discard function.
 const discardBufferSize = 8096
-- 
2.43.0


From 6964b0cfb1edd309ca1f66e701b91e0929a32529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 13/28] fix: don't report end of data when asked to read zero
 features

If the feature count is unknown, calling Data with an empty slice ended
the data section prematurely.
---
 flatgeobuf/file_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 468f690..9c4f89f 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -382,7 +382,7 @@ func (r *FileReader) Data(p []flat.Feature) (int, error) {
 			return i, err
 		}
 	}
-	if n == rem {
+	if r.numFeatures > 0 && n == rem {
 		if err := r.toState(inData, eof); err != nil {
 			return n, err
 		}
-- 
2.43.0


From 570b33aa541c04af7137c9117b8af6d35f4512b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 14/28] fix: don't panic in DataRem after a search or on a huge
 feature count

After IndexSearch the reader is at end of file, but DataRem still expected
to read the features following the last search result. A corrupt feature
count made it panic trying to allocate memory.
---
 flatgeobuf/file_reader.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 9c4f89f..b2cea21 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -391,9 +391,17 @@ func (r *FileReader) Data(p []flat.Feature) (int, error) {
 	return n, nil
 }
 
+// dataRemMaxPrealloc is the largest feature count for which DataRem will
+// allocate memory for all remaining features before reading them.
+const dataRemMaxPrealloc = 1 << 16
+
 // TODO: Write docs.
 func (r *FileReader) DataRem() ([]flat.Feature, error) {
-	if r.numFeatures > 0 {
+	// The exact allocation is only done for reasonable feature counts, to
+	// prevent corrupted or malicious file headers from causing huge and
+	// pointless memory allocations. Nor is it useful if there can't be
+	// any remaining features, including after an index search.
+	if r.numFeatures > 0 && r.numFeatures <= dataRemMaxPrealloc && r.state != eof {
 		rem := r.numFeatures - r.featureIndex
 		p := make([]flat.Feature, rem)
 		n, err := r.Data(p)
-- 
2.43.0


From eb502488fbbb04531aef398c0361493fd049aa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 15/28] fix: don't report truncated index as a normal end of
 data

If the stream ended while skipping the index, Data returned io.EOF, which
hid the truncation, and made DataRem panic. Also, discard must not fail
if the reader returns an error along with the last bytes needed.
---
 flatgeobuf/file_reader.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index b2cea21..0ddcb22 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -626,15 +626,17 @@ func discard(r io.Reader, buf []byte, n int64) error {
 	for n > 0 {
 		var a int
 		var err error
-		if int(n) < len(buf) {
+		if n < int64(len(buf)) {
 			a, err = r.Read(buf[0:n])
 		} else {
 			a, err = r.Read(buf)
 		}
-		if err != nil {
+		n -= int64(a)
+		if err == io.EOF && n > 0 {
+			return io.ErrUnexpectedEOF
+		} else if err != nil && n > 0 {
 			return err
 		}
-		n -= int64(a)
 	}
 	return nil
 }
-- 
2.43.0


From ed025addc2104cf3e07bb75c98d0a7029a54b68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 16/28] fix: allow rewinding a seekable file which has no index

Rewind failed, claiming the reader isn't an io.Seeker.
---
 flatgeobuf/file_reader.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 0ddcb22..01a1e1e 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -446,6 +446,14 @@ func (r *FileReader) Rewind() error {
 	r.sanityCheckState()
 	if r.state < afterHeader {
 		return textErr(errHeaderNotCalled)
+	} else if s, ok := r.r.(io.Seeker); ok && r.nodeSize == 0 {
+		// There is no index whose offset could have been saved, so go
+		// straight back to the data section, unless still there.
+		if r.dataOffset > 0 {
+			if _, err := s.Seek(r.dataOffset, io.SeekStart); err != nil {
+				return r.toErr(wrapErr("failed to seek to data section", err))
+			}
+		}
 	} else if r.indexOffset == 0 {
 		return textErr("can't rewind: reader is not an io.Seeker")
 	}
-- 
2.43.0


From ff89cae86cdf70a3426eaaf6b3bed0106442ed1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 17/28] fix: don't panic if header has node size but no feature
 count

The default index node size is 16, so a header without features, or with
an unknown number of features, often has a node size, but it can't have
an index. Reading from or indexing such a file panicked.
---
 flatgeobuf/errors.go      | 1 +
 flatgeobuf/file_reader.go | 6 ++++++
 flatgeobuf/file_writer.go | 2 ++
 3 files changed, 9 insertions(+)

diff --git a/flatgeobuf/errors.go b/flatgeobuf/errors.go
index 5e5a056..cc4e13b 100644
--- a/flatgeobuf/errors.go
+++ b/flatgeobuf/errors.go
@@ -25,6 +25,7 @@ const (
 	errHeaderNotCalled     = "must call Header()"
 	errHeaderAlreadyCalled = "Header() has already been called"
 	errHeaderNodeSizeZero  = "header node size 0 indicates no index"
+	errHeaderNoFeatures    = "header feature count 0 indicates no index"
 	errIndexNotWritten     = "header requires index but no index written"
 	errReadPastIndex       = "read position is past index"
 	errWritePastIndex      = "write position is past index"
diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 01a1e1e..324e1d0 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -131,6 +131,12 @@ func (r *FileReader) Header() (*flat.Header, error) {
 		return hdr, r.toErr(textErr("header index node size 1 not allowed"))
 	}
 
+	// If there are no features, or an unknown number of features, there
+	// is no index, regardless of the node size, which defaults to 16.
+	if numFeatures == 0 {
+		nodeSize = 0
+	}
+
 	// Store feature count and node size.
 	r.numFeatures = int(numFeatures)
 	r.nodeSize = nodeSize
diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index ec502bd..5e2d65d 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -281,6 +281,8 @@ func (w *FileWriter) canWriteIndex() error {
 	case afterHeader:
 		if w.nodeSize == 0 {
 			return textErr(errHeaderNodeSizeZero)
+		} else if w.numFeatures == 0 {
+			return textErr(errHeaderNoFeatures)
 		}
 	case afterIndex, inData, eof /* TODO: Does EOF make sense? */ :
 		return textErr(errWritePastIndex)
-- 
2.43.0


From 7fb94e35c1da33a31a7ffd9e96499bba86612046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 18/28] fix: detect short feature buffers before writing the
 index

IndexData only noticed that a feature's buffer was shorter than its size
prefix after having written an index which referred to the feature.
---
 flatgeobuf/flatbuffers.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatgeobuf/flatbuffers.go b/flatgeobuf/flatbuffers.go
index 1f337d4..81273ec 100644
--- a/flatgeobuf/flatbuffers.go
+++ b/flatgeobuf/flatbuffers.go
@@ -38,9 +38,6 @@ func writeSizePrefixedTable(w io.Writer, t flatbuffers.Table) (n int, err error)
 	var size uint32
 	if size, err = tableSize(t); err != nil {
 		return
-	} else if flatbuffers.SizeUint32+uint64(size) > uint64(len(t.Bytes)) {
-		err = fmtErr("FlatBuffers table buffer is smaller than the size prefix (Len=%d, size=%d)", len(t.Bytes), size)
-		return
 	} else {
 		n, err = w.Write(t.Bytes[0 : flatbuffers.SizeUint32+size])
 		return
@@ -54,5 +51,8 @@ func tableSize(t flatbuffers.Table) (size uint32, err error) {
 		return
 	}
 	size = flatbuffers.GetUint32(t.Bytes)
+	if flatbuffers.SizeUint32+uint64(size) > uint64(len(t.Bytes)) {
+		err = fmtErr("FlatBuffers table buffer is smaller than the size prefix (Len=%d, size=%d)", len(t.Bytes), size)
+	}
 	return
 }
-- 
2.43.0


From ac94d1dfd8caa90788affc5f86c9efc0fb6cad55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:25 +0000
Subject: [PATCH 19/28] fix: return an error instead of panicking on a corrupt
 index

Child node indices read from the stream were used without validation, so
searching a corrupt index panicked, or searched unrelated nodes.
---
 packedrtree/packedrtree.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/packedrtree/packedrtree.go b/packedrtree/packedrtree.go
index 641d607..e31ee27 100644
--- a/packedrtree/packedrtree.go
+++ b/packedrtree/packedrtree.go
@@ -350,6 +350,8 @@ func (prt *packedRTree) search(b Box) (Results, error) {
 				continue
 			} else if isLeafLevel {
 				r = append(r, Result{Offset: n.Offset, RefIndex: pos - prt.levels[0].start})
+			} else if err := prt.validateChild(n, t.level); err != nil {
+				return nil, err
 			} else {
 				prt.push(&q, ticket{nodeIndex: int(n.Offset), level: t.level - 1})
 			}
@@ -361,6 +363,17 @@ func (prt *packedRTree) search(b Box) (Results, error) {
 	}
 }
 
+// validateChild returns an error if the child node index of an internal
+// node at the given level does not refer to the next level down. This
+// can only happen if the index was read from a corrupt stream.
+func (prt *packedRTree) validateChild(n *node, level int) error {
+	child := prt.levels[level-1]
+	if n.Offset < int64(child.start) || n.Offset >= int64(child.end) {
+		return fmtErr("corrupt index: child node index %d is not in level [%d..%d)", n.Offset, child.start, child.end)
+	}
+	return nil
+}
+
 // PackedRTree is a packed Hilbert R-Tree.
 type PackedRTree struct {
 	packedRTree
@@ -505,6 +518,15 @@ func Unmarshal(r io.Reader, numRefs int, nodeSize uint16) (*PackedRTree, error)
 	// the native byte ordering of the host CPU architecture.
 	fixLittleEndianOctets(dst)
 
+	// Ensure it is safe to search the tree.
+	for i := 1; i < len(prt.levels); i++ {
+		for j := prt.levels[i].start; j < prt.levels[i].end; j++ {
+			if err := prt.validateChild(&prt.nodes[j], i); err != nil {
+				return nil, err
+			}
+		}
+	}
+
 	// Wrap in the public data structure and return.
 	return &PackedRTree{packedRTree: prt}, nil
 }
-- 
2.43.0


From db8cc142f8d543d67f019c5342b673b6685ae264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:26 +0000
Subject: [PATCH 20/28] fix: don't allocate memory for the whole index before
 reading it

A corrupt feature count made Unmarshal and Seek panic, or exhaust memory,
allocating nodes. Seek only needs memory for the nodes being searched.
---
 packedrtree/packedrtree.go | 59 ++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/packedrtree/packedrtree.go b/packedrtree/packedrtree.go
index e31ee27..d921b28 100644
--- a/packedrtree/packedrtree.go
+++ b/packedrtree/packedrtree.go
@@ -170,7 +170,7 @@ func levelify(numRefs, nodeSize uint) []levelRange {
 }
 
 // A fetchFunc is used to fetch the nodes from the closed/open index
-// range [i, j) into the target node array. It is used by packedRTree
+// range [i, j) into the target node array of length j-i. It is used by packedRTree
 // for streaming index searches.
 type fetchFunc func(i, j int, nodes []node) error
 
@@ -242,7 +242,7 @@ type packedRTree struct {
 	// at levelRange 0 and the root node is at len(levels)-1.
 	levels []levelRange
 	// nodes is the complete list of nodes in the tree, including
-	// internal and leaf nodes.
+	// internal and leaf nodes. It is empty if fetch is not nil.
 	nodes []node
 	// push is the function used to push a work ticket into a ticketBag
 	// when executing a tree search. It may not be nil.
@@ -250,8 +250,8 @@ type packedRTree struct {
 	// pop is the function used to pop the next work ticket from a
 	// ticketBag when executing a tree search. It may not be nil.
 	pop popFunc
-	// fetch is the function used to fetch missing nodes into the nodes
-	// slice for streaming index search use cases. If all nodes are
+	// fetch is the function used to fetch the nodes being searched for
+	// streaming index search use cases. If all nodes are
 	// present from the beginning, fetch is nil.
 	fetch fetchFunc
 }
@@ -269,7 +269,6 @@ func noo(numRefs int, nodeSize uint16, push pushFunc, pop popFunc, fetch fetchFu
 		numRefs:  numRefs,
 		nodeSize: int(nodeSize),
 		levels:   levels,
-		nodes:    make([]node, levels[0].end),
 		push:     push,
 		pop:      pop,
 		fetch:    fetch,
@@ -325,6 +324,7 @@ func (prt *packedRTree) search(b Box) (Results, error) {
 	q := make(ticketBag, 1, 32)
 	q[0] = ticket{nodeIndex: 0, level: len(prt.levels) - 1}
 	r := make(Results, 0)
+	var fetched []node
 
 	for {
 		// Pop the next work ticket from the front of queue.
@@ -337,15 +337,22 @@ func (prt *packedRTree) search(b Box) (Results, error) {
 		}
 		isLeafLevel := t.nodeIndex >= prt.levels[0].start
 		// Fetch the nodes to be searched if they aren't yet available.
+		var nodes []node
 		if prt.fetch != nil {
-			err := prt.fetch(t.nodeIndex, end, prt.nodes)
+			if cap(fetched) < end-t.nodeIndex {
+				fetched = make([]node, end-t.nodeIndex)
+			}
+			nodes = fetched[0 : end-t.nodeIndex]
+			err := prt.fetch(t.nodeIndex, end, nodes)
 			if err != nil {
 				return nil, err
 			}
+		} else {
+			nodes = prt.nodes[t.nodeIndex:end]
 		}
 		// Search the nodes.
 		for pos := t.nodeIndex; pos < end; pos++ {
-			n := &prt.nodes[pos]
+			n := &nodes[pos-t.nodeIndex]
 			if !b.intersects(&n.Box) {
 				continue
 			} else if isLeafLevel {
@@ -393,6 +400,7 @@ func New(refs []Ref, nodeSize uint16) (*PackedRTree, error) {
 	}
 	// Create the private, non-exported data structure.
 	prt := noo(len(refs), nodeSize, stackPush, stackPop, nil)
+	prt.nodes = make([]node, prt.levels[0].end)
 	// Save copies of the leaf nodes.
 	i := prt.levels[0].start
 	for j := range refs {
@@ -480,6 +488,10 @@ func (prt *PackedRTree) Marshal(w io.Writer) (n int, err error) {
 	return
 }
 
+// unmarshalChunkNodes is the maximum number of nodes Unmarshal allocates
+// memory for in advance of reading them.
+const unmarshalChunkNodes = 1 << 16
+
 // Unmarshal deserializes a stream from the FlatGeobuf index section
 // format, returning the in-memory search tree built from the stream.
 //
@@ -505,19 +517,22 @@ func Unmarshal(r io.Reader, numRefs int, nodeSize uint16) (*PackedRTree, error)
 	// tree nodes.
 	prt := noo(numRefs, nodeSize, stackPush, stackPop, nil)
 
-	// Read the raw nodes directly into the private data structure's
-	// nodes slice. If this is a big-endian system, the byte order of
-	// all the numbers will be backward.
-	ptr := (*byte)(unsafe.Pointer(&prt.nodes[0]))
-	dst := unsafe.Slice(ptr, numNodeBytes*len(prt.nodes))
-	if _, err := io.ReadFull(r, dst); err != nil {
-		return nil, wrapErr("failed to read index bytes", err)
+	// Read the nodes into the private data structure's nodes slice. The
+	// slice is grown as the nodes are read in order to prevent a corrupted
+	// or malicious numRefs from causing a huge and pointless allocation.
+	for i, n := 0, prt.levels[0].end; i < n; i = len(prt.nodes) {
+		m := n - i
+		if m > unmarshalChunkNodes {
+			m = unmarshalChunkNodes
+		}
+		prt.nodes = append(prt.nodes, make([]node, m)...)
+		if err := readLittleEndianNodes(r, prt.nodes[i:]); err == io.EOF && i > 0 {
+			return nil, wrapErr("failed to read index bytes", io.ErrUnexpectedEOF)
+		} else if err != nil {
+			return nil, wrapErr("failed to read index bytes", err)
+		}
 	}
 
-	// Convert the little-endian octets read from the source data into
-	// the native byte ordering of the host CPU architecture.
-	fixLittleEndianOctets(dst)
-
 	// Ensure it is safe to search the tree.
 	for i := 1; i < len(prt.levels); i++ {
 		for j := prt.levels[i].start; j < prt.levels[i].end; j++ {
@@ -580,7 +595,7 @@ func Seek(rs io.ReadSeeker, numRefs int, nodeSize uint16, b Box) (Results, error
 		}
 
 		// Read the data.
-		err = readLittleEndianNodes(rs, i, j, nodes)
+		err = readLittleEndianNodes(rs, nodes)
 		if err != nil {
 			return wrapErr("failed to read nodes [%d..%d), rel. offset %d", err, i, j, rel)
 		}
@@ -616,9 +631,9 @@ func Seek(rs io.ReadSeeker, numRefs int, nodeSize uint16, b Box) (Results, error
 	return sr, nil
 }
 
-func readLittleEndianNodes(r io.Reader, i, j int, nodes []node) error {
-	ptr := (*byte)(unsafe.Pointer(&nodes[i]))
-	b := unsafe.Slice(ptr, (j-i)*numNodeBytes)
+func readLittleEndianNodes(r io.Reader, nodes []node) error {
+	ptr := (*byte)(unsafe.Pointer(&nodes[0]))
+	b := unsafe.Slice(ptr, len(nodes)*numNodeBytes)
 	if _, err := io.ReadFull(r, b); err != nil {
 		return err
 	}
-- 
2.43.0


From da17a9d29654609141c76670099f059e429e5d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:27 +0000
Subject: [PATCH 21/28] fix: don't overflow the stack on a corrupt, cyclic
 geometry

The resulting crash can't be recovered from, unlike a panic.
---
 flatgeobuf/stringers.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/flatgeobuf/stringers.go b/flatgeobuf/stringers.go
index 362fc0d..52336cd 100644
--- a/flatgeobuf/stringers.go
+++ b/flatgeobuf/stringers.go
@@ -12,6 +12,7 @@ import (
 	"github.com/gogama/flatgeobuf/flatgeobuf/flat"
 
 	"github.com/gogama/flatgeobuf/packedrtree"
+	flatbuffers "github.com/google/flatbuffers/go"
 )
 
 // HeaderString returns a string summarizing the Header fields. The
@@ -214,7 +215,25 @@ func stringProps(f *flat.Feature, b *strings.Builder, s []Schema) error {
 	})
 }
 
+// geomMaxDepth is the maximum depth of nested geometry parts allowed. It
+// is the same as the default maximum depth of the FlatBuffers verifier.
+const geomMaxDepth = 64
+
+// geomBounds expands a box to contain a geometry, including its parts.
+// It must be called in a safe FlatBuffers interaction because, as well
+// as the FlatBuffers code doing so, it panics if the geometry is corrupt.
 func geomBounds(g *flat.Geometry, b *packedrtree.Box) {
+	// Every part takes up space, so more parts than fit into the buffer
+	// means that parts are, directly or indirectly, parts of themselves.
+	maxParts := len(g.Table().Bytes) / flatbuffers.SizeSOffsetT
+	geomPartBounds(g, b, 0, &maxParts)
+}
+
+func geomPartBounds(g *flat.Geometry, b *packedrtree.Box, depth int, maxParts *int) {
+	if depth > geomMaxDepth || *maxParts == 0 {
+		textPanic("corrupt geometry: parts too deep or cyclic")
+	}
+	*maxParts--
 	n := g.XyLength()
 	for i := 0; i < n; i += 2 {
 		b.ExpandXY(g.Xy(i+0), g.Xy(i+1))
@@ -223,7 +242,7 @@ func geomBounds(g *flat.Geometry, b *packedrtree.Box) {
 	for i := 0; i < n; i++ {
 		var h flat.Geometry
 		if g.Parts(&h, i) {
-			geomBounds(&h, b)
+			geomPartBounds(&h, b, depth+1, maxParts)
 		}
 	}
 }
-- 
2.43.0


From 4cd95d2a563a2b62a76de4bebcaafaf32b65689f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 22/28] fix: build on big-endian and mips64le systems

---
 packedrtree/native_bigendian.go    | 3 +++
 packedrtree/native_littleendian.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/packedrtree/native_bigendian.go b/packedrtree/native_bigendian.go
index 2b75a76..ac45791 100644
--- a/packedrtree/native_bigendian.go
+++ b/packedrtree/native_bigendian.go
@@ -6,6 +6,8 @@
 
 package packedrtree
 
+import "io"
+
 func fixLittleEndianOctets(b []byte) {
 	for i := 0; i < len(b); i += 8 {
 		b[i+0], b[i+7] = b[i+7], b[i+0]
@@ -34,6 +36,7 @@ func writeLittleEndianOctets(w io.Writer, p []byte) (n int, err error) {
 			buf[i+6] = p[n+i+1]
 			buf[i+7] = p[n+i+0]
 		}
+		var m int
 		m, err = w.Write(buf)
 		n += m
 		if err != nil {
diff --git a/packedrtree/native_littleendian.go b/packedrtree/native_littleendian.go
index 3b92e6a..08b2139 100644
--- a/packedrtree/native_littleendian.go
+++ b/packedrtree/native_littleendian.go
@@ -2,7 +2,7 @@
 // Use of this source code is governed by an MIT-style
 // license that can be found in the LICENSE file.
 
-//go:build 386 || amd64 || amd64p32 || arm || arm64 || loong64 || mipsle || mis64le || mips64p32le || ppc64le || riscv || riscv64 || wasm
+//go:build 386 || amd64 || amd64p32 || arm || arm64 || loong64 || mipsle || mips64le || mips64p32le || ppc64le || riscv || riscv64 || wasm
 
 package packedrtree
 
-- 
2.43.0


From 696f7e2faedabd0dd46345118a5e45180bdd2e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 23/28] fix: don't trust the length prefix when reading a
 property

---
 flatgeobuf/file_reader.go | 3 ++-
 flatgeobuf/prop_reader.go | 8 +-------
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 324e1d0..76487f4 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -606,7 +606,8 @@ const readTableChunkSize = 1 << 20
 // readTable reads the n bytes of a table which follow its already-read
 // size prefix, and returns them appended to the prefix. The table is
 // read in chunks to prevent corrupted or malicious size prefixes from
-// causing huge and pointless memory allocations.
+// causing huge and pointless memory allocations. It is also used to read
+// length-prefixed property values.
 func readTable(r io.Reader, prefix []byte, n uint32) ([]byte, error) {
 	if uint64(n) > math.MaxInt-flatbuffers.SizeUint32 {
 		return nil, fmtErr("table length %d overflows int", n)
diff --git a/flatgeobuf/prop_reader.go b/flatgeobuf/prop_reader.go
index 38ce873..e53685f 100644
--- a/flatgeobuf/prop_reader.go
+++ b/flatgeobuf/prop_reader.go
@@ -154,13 +154,7 @@ func (r *PropReader) ReadBinary() ([]byte, error) {
 	if int64(n) > math.MaxInt {
 		return nil, fmtErr("property length %d overflows int", n)
 	}
-	b := make([]byte, int(n))
-	if _, err = io.ReadFull(r.r, b); err == io.EOF {
-		return nil, io.ErrUnexpectedEOF // The length prefix was already read.
-	} else if err != nil {
-		return nil, err
-	}
-	return b, nil
+	return readTable(r.r, make([]byte, 0), n)
 }
 
 type PropValue struct {
-- 
2.43.0


From 82ec4fd97fde4e97973679ddf139b3ac03dffd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:42 +0000
Subject: [PATCH 24/28] fix: don't panic indexing an empty feature list

---
 flatgeobuf/file_writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index 5e2d65d..73a4ab7 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -174,6 +174,12 @@ func (w *FileWriter) IndexDataPtr(data []*flat.Feature) (n int, err error) {
 		return
 	}
 
+	// Ensure the feature list agrees with the header before indexing it.
+	if w.numFeatures != len(data) {
+		err = fmtErr("feature count mismatch (header=%d, data=%d)", w.numFeatures, len(data))
+		return
+	}
+
 	// Create index.
 	refs := make([]packedrtree.Ref, len(data))
 	bounds := packedrtree.EmptyBox
-- 
2.43.0


From 546980be3bc71c13ee7d38130f0356a5b537f192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:21 +0000
Subject: [PATCH 25/28] fix: write tables whose size prefix is near the limit
 of uint32 in full

---
 flatgeobuf/flatbuffers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatgeobuf/flatbuffers.go b/flatgeobuf/flatbuffers.go
index 81273ec..cd8fb87 100644
--- a/flatgeobuf/flatbuffers.go
+++ b/flatgeobuf/flatbuffers.go
@@ -39,7 +39,7 @@ func writeSizePrefixedTable(w io.Writer, t flatbuffers.Table) (n int, err error)
 	if size, err = tableSize(t); err != nil {
 		return
 	} else {
-		n, err = w.Write(t.Bytes[0 : flatbuffers.SizeUint32+size])
+		n, err = w.Write(t.Bytes[0 : flatbuffers.SizeUint32+uint64(size)])
 		return
 	}
 }
-- 
2.43.0


From e277f64be9468d198461f412f86d2703597d4fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 26/28] fix: don't mistake a failed seek past the index for the
 end of the file

A seek error was returned unwrapped, so an io.EOF from the stream's Seek
method made Data report end of file and DataRem panic.
---
 flatgeobuf/file_reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 76487f4..68c6623 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -505,7 +505,7 @@ func (r *FileReader) skipIndex() error {
 		if r.dataOffset > 0 { // If we already know the data offset, seek to it.
 			s := r.r.(io.Seeker)
 			if _, err := s.Seek(r.dataOffset, io.SeekStart); err != nil {
-				return r.toErr(err)
+				return r.toErr(wrapErr("failed to seek past index", err))
 			}
 		} else if s, ok := r.r.(io.Seeker); ok { // If we can seek past the index, do so.
 			if err := r.saveIndexOffset(s); err != nil {
@@ -517,7 +517,7 @@ func (r *FileReader) skipIndex() error {
 			}
 			r.dataOffset = r.indexOffset + int64(indexSize)
 			if _, err = s.Seek(r.dataOffset, io.SeekStart); err != nil {
-				return r.toErr(err)
+				return r.toErr(wrapErr("failed to seek past index", err))
 			}
 		} else { // Our only choice is to read past the index.
 			indexSize, err := packedrtree.Size(r.numFeatures, r.nodeSize)
-- 
2.43.0


From bc41ed19992dadaaf87a9b2b4db9711942b443a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 27/28] fix: don't report a truncated header or index as a
 normal end of file

---
 flatgeobuf/file_reader.go  | 6 ++++++
 packedrtree/packedrtree.go | 7 ++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/flatgeobuf/file_reader.go b/flatgeobuf/file_reader.go
index 68c6623..d8401d0 100644
--- a/flatgeobuf/file_reader.go
+++ b/flatgeobuf/file_reader.go
@@ -86,6 +86,9 @@ func (r *FileReader) Header() (*flat.Header, error) {
 	// integer.
 	b := make([]byte, flatbuffers.SizeUint32)
 	if _, err = io.ReadFull(r.r, b); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF // Magic number was already read.
+		}
 		return nil, r.toErr(wrapErr("header length read error", err))
 	}
 	headerLen := flatbuffers.GetUint32(b)
@@ -99,6 +102,9 @@ func (r *FileReader) Header() (*flat.Header, error) {
 	tbl := make([]byte, flatbuffers.SizeUint32+headerLen)
 	copy(tbl, b)
 	if _, err = io.ReadFull(r.r, tbl[flatbuffers.SizeUint32:]); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF // Header length was already read.
+		}
 		return nil, r.toErr(wrapErr("failed to read header table (len=%d)", err, headerLen))
 	}
 
diff --git a/packedrtree/packedrtree.go b/packedrtree/packedrtree.go
index d921b28..c07caa8 100644
--- a/packedrtree/packedrtree.go
+++ b/packedrtree/packedrtree.go
@@ -526,9 +526,7 @@ func Unmarshal(r io.Reader, numRefs int, nodeSize uint16) (*PackedRTree, error)
 			m = unmarshalChunkNodes
 		}
 		prt.nodes = append(prt.nodes, make([]node, m)...)
-		if err := readLittleEndianNodes(r, prt.nodes[i:]); err == io.EOF && i > 0 {
-			return nil, wrapErr("failed to read index bytes", io.ErrUnexpectedEOF)
-		} else if err != nil {
+		if err := readLittleEndianNodes(r, prt.nodes[i:]); err != nil {
 			return nil, wrapErr("failed to read index bytes", err)
 		}
 	}
@@ -635,6 +633,9 @@ func readLittleEndianNodes(r io.Reader, nodes []node) error {
 	ptr := (*byte)(unsafe.Pointer(&nodes[0]))
 	b := unsafe.Slice(ptr, len(nodes)*numNodeBytes)
 	if _, err := io.ReadFull(r, b); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF // The nodes must be there.
+		}
 		return err
 	}
 	fixLittleEndianOctets(b)
-- 
2.43.0


From 5695883fe0f2f34799dd1b7c3c9730861397e79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:31 +0000
Subject: [PATCH 28/28] fix: validate nil index before changing writer state

---
 flatgeobuf/file_writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatgeobuf/file_writer.go b/flatgeobuf/file_writer.go
index 73a4ab7..59623e2 100644
--- a/flatgeobuf/file_writer.go
+++ b/flatgeobuf/file_writer.go
@@ -125,6 +125,12 @@ func (w *FileWriter) Header(hdr *flat.Header) (n int, err error) {
 
 // TODO: Docs
 func (w *FileWriter) Index(index *packedrtree.PackedRTree) (n int, err error) {
+	// Minimally validate incoming pointer.
+	if index == nil {
+		textPanic("nil index")
+	}
+
+	// Verify state.
 	if err = w.canWriteIndex(); err != nil {
 		return
 	}
-- 
2.43.0

