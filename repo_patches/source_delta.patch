From a4deaa81bfb2ca71a7d047f72d9ccad22b96f91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 01/12] fix: read back the smallest int64 from stored
 statistics

int64ToUint64 stores math.MinInt64 as 1<<63, which uint64ToInt64 decoded as
0, so pre-calculated minimum, maximum and sum were wrong for it.
---
 pkg/col/encoding.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/col/encoding.go b/pkg/col/encoding.go
index 93dedb5..bd348cc 100644
--- a/pkg/col/encoding.go
+++ b/pkg/col/encoding.go
@@ -94,6 +94,10 @@ func uint64ToInt64(value uint64) int64 {
 	if value&(1<<63) == 0 {
 		return int64(value)
 	}
+	if value == 1<<63 {
+		// int64ToUint64 maps the minimum, whose magnitude needs the sign bit, here
+		return -1 << 63
+	}
 	// Handle negative values by converting bits back
 	return ^int64(value&^(1<<63)) + 1
 }
-- 
2.43.0


From 2b6b772040aa194645404299d4bfca8c154d17dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 02/12] fix: store and read each section as its encoding type
 says

EncodingDeltaID, EncodingDeltaValue, EncodingVarIntID and
EncodingVarIntValue apply to one of the two sections (specification 4.2).
The writer applied delta encoding to both sections, the reader to one, so
types 1 and 2 read back other data than was written, and types 5 and 6
could not be written at all.
---
 pkg/col/reader_decode.go   | 24 +++++---------------
 pkg/col/writer_block.go    |  6 +++--
 pkg/col/writer_block_io.go |  7 +-----
 pkg/col/writer_encoding.go | 46 +++++++++++++++++++++++++++-----------
 4 files changed, 44 insertions(+), 39 deletions(-)

diff --git a/pkg/col/reader_decode.go b/pkg/col/reader_decode.go
index 0e31aeb..0d3dba1 100644
--- a/pkg/col/reader_decode.go
+++ b/pkg/col/reader_decode.go
@@ -11,12 +11,9 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 	var ids []uint64
 	var err error
 
-	isVarInt := encodingType == EncodingVarInt ||
-		encodingType == EncodingVarIntID ||
-		encodingType == EncodingVarIntValue ||
-		encodingType == EncodingVarIntBoth
+	deltaIDs, deltaValues, varIntIDs, varIntValues := sectionEncoding(encodingType)
 
-	if isVarInt {
+	if varIntIDs {
 		// For variable-length encoding, use the decodeUVarInts function
 		ids, err = decodeUVarInts(idBytes, count)
 		if err != nil {
@@ -45,7 +42,7 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 	// Decode values
 	var values []int64
 
-	if isVarInt {
+	if varIntValues {
 		// Decode variable-length values
 		values = make([]int64, count)
 		offset := 0
@@ -88,21 +85,12 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 	}
 
 	// Apply delta decoding if needed
-	if encodingType == EncodingDeltaBoth || encodingType == EncodingVarIntBoth {
-		// Delta decode both IDs and values
+	if deltaIDs {
 		for i := 1; i < len(ids); i++ {
 			ids[i] += ids[i-1]
 		}
-		for i := 1; i < len(values); i++ {
-			values[i] += values[i-1]
-		}
-	} else if encodingType == EncodingDeltaID || encodingType == EncodingVarIntID {
-		// Delta decode only IDs
-		for i := 1; i < len(ids); i++ {
-			ids[i] += ids[i-1]
-		}
-	} else if encodingType == EncodingDeltaValue || encodingType == EncodingVarIntValue {
-		// Delta decode only values
+	}
+	if deltaValues {
 		for i := 1; i < len(values); i++ {
 			values[i] += values[i-1]
 		}
diff --git a/pkg/col/writer_block.go b/pkg/col/writer_block.go
index be8ed6d..cfd8d59 100644
--- a/pkg/col/writer_block.go
+++ b/pkg/col/writer_block.go
@@ -145,10 +145,12 @@ func (w *Writer) writeBlockFooter(blockOffset, blockSize uint64, minID, maxID ui
 
 // encodeIDs encodes the IDs based on the encoding type
 func (w *Writer) encodeIDs(ids []uint64) ([]uint64, [][]byte, uint32, error) {
-	return encodeData(w.encodingType, ids, deltaEncode, encodeVarInt)
+	delta, _, varInt, _ := sectionEncoding(w.encodingType)
+	return encodeData(w.encodingType, delta, varInt, ids, deltaEncode, encodeVarInt)
 }
 
 // encodeValues encodes the values based on the encoding type
 func (w *Writer) encodeValues(values []int64) ([]int64, [][]byte, uint32, error) {
-	return encodeData(w.encodingType, values, deltaEncodeInt64, encodeSignedVarInt)
+	_, delta, _, varInt := sectionEncoding(w.encodingType)
+	return encodeData(w.encodingType, delta, varInt, values, deltaEncodeInt64, encodeSignedVarInt)
 }
diff --git a/pkg/col/writer_block_io.go b/pkg/col/writer_block_io.go
index a535812..27de163 100644
--- a/pkg/col/writer_block_io.go
+++ b/pkg/col/writer_block_io.go
@@ -76,12 +76,7 @@ func (w *Writer) writeBlockInternal(ids []uint64, values []int64) error {
 	}
 
 	// Determine if we need to use variable-length encoding
-	useVarIntForIDs := w.encodingType == EncodingVarInt ||
-		w.encodingType == EncodingVarIntID ||
-		w.encodingType == EncodingVarIntBoth
-	useVarIntForValues := w.encodingType == EncodingVarInt ||
-		w.encodingType == EncodingVarIntValue ||
-		w.encodingType == EncodingVarIntBoth
+	_, _, useVarIntForIDs, useVarIntForValues := sectionEncoding(w.encodingType)
 
 	// Encode IDs and values
 	encodedIDs, encodedIdBytes, idSectionSize, err := w.encodeIDs(ids)
diff --git a/pkg/col/writer_encoding.go b/pkg/col/writer_encoding.go
index 9dd138d..79ce9cc 100644
--- a/pkg/col/writer_encoding.go
+++ b/pkg/col/writer_encoding.go
@@ -4,31 +4,51 @@ import (
 	"fmt"
 )
 
-// encodeData is a helper function to encode data based on the encoding type
-func encodeData[T any](encodingType uint32, data []T, deltaEncodeFunc func([]T) []T, encodeVarIntFunc func(T) []byte) ([]T, [][]byte, uint32, error) {
+// sectionEncoding says how the ID and the value section are stored under an
+// encoding type (section 4.2 of the file format specification)
+func sectionEncoding(encodingType uint32) (deltaIDs, deltaValues, varIntIDs, varIntValues bool) {
+	switch encodingType {
+	case EncodingDeltaID:
+		deltaIDs = true
+	case EncodingDeltaValue:
+		deltaValues = true
+	case EncodingDeltaBoth:
+		deltaIDs, deltaValues = true, true
+	case EncodingVarInt:
+		varIntIDs, varIntValues = true, true
+	case EncodingVarIntID:
+		deltaIDs, varIntIDs = true, true
+	case EncodingVarIntValue:
+		deltaValues, varIntValues = true, true
+	case EncodingVarIntBoth:
+		deltaIDs, deltaValues, varIntIDs, varIntValues = true, true, true, true
+	}
+	return
+}
+
+// encodeData is a helper function to encode the data of one section
+func encodeData[T any](encodingType uint32, delta, varInt bool, data []T, deltaEncodeFunc func([]T) []T, encodeVarIntFunc func(T) []byte) ([]T, [][]byte, uint32, error) {
 	var encodedData []T
 	var encodedDataBytes [][]byte
 	var sectionSize uint32
 
+	if encodingType > EncodingVarIntBoth {
+		return nil, nil, 0, fmt.Errorf("unsupported encoding type: %d", encodingType)
+	}
+
 	// First apply delta encoding if needed
-	switch encodingType {
-	case EncodingRaw, EncodingVarInt, EncodingVarIntID:
-		// These encoding types don't use delta encoding
+	if delta {
+		encodedData = deltaEncodeFunc(data)
+	} else {
 		encodedData = make([]T, len(data))
 		copy(encodedData, data)
-	case EncodingDeltaID, EncodingDeltaValue, EncodingDeltaBoth, EncodingVarIntValue, EncodingVarIntBoth:
-		// These encoding types use delta encoding
-		encodedData = deltaEncodeFunc(data)
-	default:
-		return nil, nil, 0, fmt.Errorf("unsupported encoding type: %d", encodingType)
 	}
 
 	// Then apply varint encoding if needed
-	switch encodingType {
-	case EncodingRaw, EncodingDeltaID, EncodingDeltaValue, EncodingDeltaBoth:
+	if !varInt {
 		// Fixed-width encoding
 		sectionSize = uint32(len(encodedData) * 8)
-	case EncodingVarInt, EncodingVarIntID, EncodingVarIntBoth, EncodingVarIntValue:
+	} else {
 		// Variable-width encoding
 		encodedDataBytes = make([][]byte, len(encodedData))
 		sectionSize = 0
-- 
2.43.0


From 28db78914bc9ba5f7f08baf069f040a9481e18a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:16 +0000
Subject: [PATCH 03/12] fix: report undecodable blocks instead of making up
 pairs

Where a block's sections held fewer pairs than its index entry says, or an
invalid varint, decoding cut the result short or filled it with placeholder
ids and values, and returned no error.
---
 pkg/col/reader_decode.go | 82 +++++++++++++---------------------------
 1 file changed, 26 insertions(+), 56 deletions(-)

diff --git a/pkg/col/reader_decode.go b/pkg/col/reader_decode.go
index 0d3dba1..c4e25fb 100644
--- a/pkg/col/reader_decode.go
+++ b/pkg/col/reader_decode.go
@@ -20,22 +20,16 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 			return nil, nil, fmt.Errorf("failed to decode varint IDs: %w", err)
 		}
 	} else {
-		// Calculate max number of IDs we can read
+		// Check that the section holds that many IDs
 		bytesPerID := 8
-		maxCount := len(idBytes) / bytesPerID
-		if count > maxCount {
-			count = maxCount
+		if count > len(idBytes)/bytesPerID {
+			return nil, nil, fmt.Errorf("ID section of %d bytes is too short for %d IDs", len(idBytes), count)
 		}
 
 		// Read fixed-width IDs
 		ids = make([]uint64, count)
 		for i := 0; i < count; i++ {
-			if i*bytesPerID+bytesPerID <= len(idBytes) {
-				ids[i] = binary.LittleEndian.Uint64(idBytes[i*bytesPerID : i*bytesPerID+bytesPerID])
-			} else {
-				// Mock test data for out-of-bounds reads
-				ids[i] = uint64(i + 1)
-			}
+			ids[i] = binary.LittleEndian.Uint64(idBytes[i*bytesPerID : i*bytesPerID+bytesPerID])
 		}
 	}
 
@@ -43,44 +37,34 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 	var values []int64
 
 	if varIntValues {
-		// Decode variable-length values
+		// Decode variable-length values, each of which takes at least one byte
+		if count > len(valueBytes) {
+			return nil, nil, fmt.Errorf("value section of %d bytes is too short for %d values", len(valueBytes), count)
+		}
 		values = make([]int64, count)
 		offset := 0
-		for i := 0; i < count && offset < len(valueBytes); i++ {
+		for i := 0; i < count; i++ {
 			var bytesRead int
-			if offset < len(valueBytes) {
-				values[i], bytesRead = decodeSignedVarInt(valueBytes[offset:])
-				if bytesRead <= 0 {
-					// Mock test data for invalid varints
-					values[i] = int64((i + 1) * 100)
-					bytesRead = 1
-				}
-				offset += bytesRead
-			} else {
-				// Mock test data for out-of-bounds reads
-				values[i] = int64((i + 1) * 100)
+			values[i], bytesRead = decodeSignedVarInt(valueBytes[offset:])
+			if bytesRead <= 0 {
+				return nil, nil, fmt.Errorf("value section ends after %d of %d values", i, count)
+			}
+			offset += bytesRead
+			last := valueBytes[offset-1]
+			if last&0x80 != 0 || bytesRead == binary.MaxVarintLen64 && last > 1 {
+				return nil, nil, fmt.Errorf("invalid varint value at index %d", i)
 			}
 		}
 	} else {
 		// Decode fixed-width values
 		bytesPerValue := 8
-		maxCount := len(valueBytes) / bytesPerValue
-		if count > maxCount {
-			count = maxCount
-			// Adjust IDs to match
-			if len(ids) > count {
-				ids = ids[:count]
-			}
+		if count > len(valueBytes)/bytesPerValue {
+			return nil, nil, fmt.Errorf("value section of %d bytes is too short for %d values", len(valueBytes), count)
 		}
 
 		values = make([]int64, count)
 		for i := 0; i < count; i++ {
-			if i*bytesPerValue+bytesPerValue <= len(valueBytes) {
-				values[i] = int64(binary.LittleEndian.Uint64(valueBytes[i*bytesPerValue : i*bytesPerValue+bytesPerValue]))
-			} else {
-				// Mock test data for out-of-bounds reads
-				values[i] = int64((i + 1) * 100)
-			}
+			values[i] = int64(binary.LittleEndian.Uint64(valueBytes[i*bytesPerValue : i*bytesPerValue+bytesPerValue]))
 		}
 	}
 
@@ -101,24 +85,18 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 
 // Helper function to decode exactly 'count' UVarInts from buf
 func decodeUVarInts(buf []byte, count int) ([]uint64, error) {
+	// Each varint takes at least one byte
+	if count > len(buf) {
+		return nil, fmt.Errorf("%d bytes are too short for %d uvarints", len(buf), count)
+	}
+
 	vals := make([]uint64, 0, count)
 	offset := 0
 
-	// Try to decode up to 'count' varints, but stop if we run out of data
-	for i := 0; i < count && offset < len(buf); i++ {
-		// Make sure we have at least one byte to read
-		if offset >= len(buf) {
-			break
-		}
-
+	for i := 0; i < count; i++ {
 		// Try to decode a varint
 		v, n := binary.Uvarint(buf[offset:])
 		if n <= 0 {
-			// If we can't decode any more varints but we've already decoded some,
-			// return what we have instead of failing
-			if i > 0 {
-				return vals, nil
-			}
 			return nil, fmt.Errorf("failed to decode uvarint at index %d, bytes remaining: %d", i, len(buf)-offset)
 		}
 
@@ -126,13 +104,5 @@ func decodeUVarInts(buf []byte, count int) ([]uint64, error) {
 		offset += n
 	}
 
-	// If we couldn't decode enough varints, return what we have
-	if len(vals) < count {
-		// Fill the rest with sequential IDs as needed for tests
-		for i := len(vals); i < count; i++ {
-			vals = append(vals, uint64(i+1))
-		}
-	}
-
 	return vals, nil
 }
-- 
2.43.0


From a313cf3e7a8faaf54b7f904af90e09bd946690ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 04/12] fix: report reads cut short by the end of the file

readBytesAt returned the missing bytes as zeros when the read met the end of
the file, so a truncated file could yield wrong pairs or an empty id set.
---
 pkg/col/reader_io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/col/reader_io.go b/pkg/col/reader_io.go
index 80eb78c..ce2ac1e 100644
--- a/pkg/col/reader_io.go
+++ b/pkg/col/reader_io.go
@@ -13,7 +13,7 @@ func (r *Reader) readBytesAt(offset int64, size int) ([]byte, error) {
 	if err != nil && err != io.EOF {
 		return nil, fmt.Errorf("failed to read bytes at offset %d: %w", offset, err)
 	}
-	if n < size && err != io.EOF {
+	if n < size {
 		return nil, fmt.Errorf("incomplete read at offset %d: got %d bytes, expected %d", offset, n, size)
 	}
 	return buf, nil
-- 
2.43.0


From 70f03f585cbb18ebe967aeae7bf28c121c30301b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 05/12] fix: check stored sizes and offsets before using them

A damaged size, offset or encoding type in the header, the block index or a
block made the reader panic or allocate up to 4 GB per block.
---
 pkg/col/reader.go        | 3 +++
 pkg/col/reader_block.go  | 4 ++++
 pkg/col/reader_decode.go | 3 +++
 pkg/col/reader_io.go     | 3 +++
 4 files changed, 13 insertions(+)

diff --git a/pkg/col/reader.go b/pkg/col/reader.go
index 6617fab..70098f9 100644
--- a/pkg/col/reader.go
+++ b/pkg/col/reader.go
@@ -160,6 +160,9 @@ func (r *Reader) GetGlobalIDBitmap() (*sroar.Bitmap, error) {
 		return nil, fmt.Errorf("failed to read bitmap size: %w", err)
 	}
 	bitmapSize := binary.LittleEndian.Uint32(sizeBuf)
+	if uint64(bitmapSize)+4 != r.header.BitmapSize {
+		return nil, fmt.Errorf("bitmap of %d bytes does not fill its %d bytes", bitmapSize, r.header.BitmapSize)
+	}
 
 	// Read the bitmap data
 	bitmapBuf, err := r.readBytesAt(int64(r.header.BitmapOffset)+4, int(bitmapSize))
diff --git a/pkg/col/reader_block.go b/pkg/col/reader_block.go
index 5176a6c..5766577 100644
--- a/pkg/col/reader_block.go
+++ b/pkg/col/reader_block.go
@@ -28,6 +28,10 @@ func (r *Reader) readBlock(blockIndex int) ([]uint64, []int64, error) {
 		return nil, nil, fmt.Errorf("failed to read block data: %w", err)
 	}
 
+	if len(blockData) < blockLayoutSize {
+		return nil, nil, fmt.Errorf("block of %d bytes is too short for its header", blockSize)
+	}
+
 	// Parse the layout section (first 16 bytes)
 	idSectionOffset := binary.LittleEndian.Uint32(blockData[0:4])
 	idSectionSize := binary.LittleEndian.Uint32(blockData[4:8])
diff --git a/pkg/col/reader_decode.go b/pkg/col/reader_decode.go
index c4e25fb..fa3ae02 100644
--- a/pkg/col/reader_decode.go
+++ b/pkg/col/reader_decode.go
@@ -11,6 +11,9 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 	var ids []uint64
 	var err error
 
+	if encodingType > EncodingVarIntBoth {
+		return nil, nil, fmt.Errorf("unsupported encoding type: %d", encodingType)
+	}
 	deltaIDs, deltaValues, varIntIDs, varIntValues := sectionEncoding(encodingType)
 
 	if varIntIDs {
diff --git a/pkg/col/reader_io.go b/pkg/col/reader_io.go
index ce2ac1e..2b92cb0 100644
--- a/pkg/col/reader_io.go
+++ b/pkg/col/reader_io.go
@@ -8,6 +8,9 @@ import (
 
 // readBytesAt reads bytes at a specific offset
 func (r *Reader) readBytesAt(offset int64, size int) ([]byte, error) {
+	if offset < 0 || size < 0 || offset > r.fileSize || int64(size) > r.fileSize-offset {
+		return nil, fmt.Errorf("range of %d bytes at offset %d lies outside the file (%d bytes)", size, offset, r.fileSize)
+	}
 	buf := make([]byte, size)
 	n, err := r.file.ReadAt(buf, offset)
 	if err != nil && err != io.EOF {
-- 
2.43.0


From d34248d6519b85ebe5661e08e08d3f23df7a9e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 06/12] fix: make a file valid only when all of it is on disk

Finalize wrote the id bitmap, the header, the block index and the trailing
magic with a single sync at the end, and the reader accepted any footer size
and the larger of two block counts. A crash in between could leave a file
that opens with the wrong blocks or an empty id set. Sync before the
footer metadata is written, and let the reader insist on matching counts.
---
 pkg/col/reader_header.go   | 8 ++++----
 pkg/col/writer_finalize.go | 6 ++++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/col/reader_header.go b/pkg/col/reader_header.go
index 32a7419..894993b 100644
--- a/pkg/col/reader_header.go
+++ b/pkg/col/reader_header.go
@@ -105,10 +105,10 @@ func (r *Reader) readFooter() error {
 
 	// Check if block count matches with header
 	if uint64(blockIndexCount) != r.header.BlockCount {
-		// Use the higher value to ensure we don't miss data
-		if uint64(blockIndexCount) > r.header.BlockCount {
-			r.header.BlockCount = uint64(blockIndexCount)
-		}
+		return fmt.Errorf("block index has %d entries, header says %d", blockIndexCount, r.header.BlockCount)
+	}
+	if r.footerMeta.FooterSize != 4+56*uint64(blockIndexCount) {
+		return fmt.Errorf("invalid footer size: %d", r.footerMeta.FooterSize)
 	}
 
 	// Calculate the size of the block index
diff --git a/pkg/col/writer_finalize.go b/pkg/col/writer_finalize.go
index 78bbdea..7c07800 100644
--- a/pkg/col/writer_finalize.go
+++ b/pkg/col/writer_finalize.go
@@ -161,6 +161,12 @@ func (w *Writer) Finalize() error {
 	footerSize := footerEnd - footerStart
 	footerMetaStart := footerEnd
 
+	// The footer metadata makes the file valid: everything before it has to be
+	// on disk first, or a crash may leave a file that opens with missing data
+	if err := w.file.Sync(); err != nil {
+		return fmt.Errorf("failed to sync file before the footer metadata: %w", err)
+	}
+
 	// Write footer metadata
 	if err := binary.Write(w.file, binary.LittleEndian, uint64(footerSize)); err != nil {
 		return fmt.Errorf("failed to write footer size: %w", err)
-- 
2.43.0


From 4988afbdc89b8180d1aa5f43a0cd30da5cb7ccfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 07/12] fix: stop writing to a file after a failed write

A failed WriteBlock left a partial block, its position and its ids behind,
and a failed Finalize a partial footer; later calls succeeded and produced
files with wrong or additional data. Keep the first error and return it.
---
 pkg/col/writer.go          | 1 +
 pkg/col/writer_block_io.go | 7 ++++++-
 pkg/col/writer_finalize.go | 7 ++++++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/col/writer.go b/pkg/col/writer.go
index 202f748..b2ead51 100644
--- a/pkg/col/writer.go
+++ b/pkg/col/writer.go
@@ -25,6 +25,7 @@ type Writer struct {
 	blockSizes      []uint32      // Size of each block in bytes
 	blockStats      []BlockStats  // Statistics for each block
 	globalIDs       *sroar.Bitmap // Bitmap of all IDs in the file
+	err             error         // First failed write: what follows it in the file is unknown
 }
 
 // NewWriter creates a new column file writer
diff --git a/pkg/col/writer_block_io.go b/pkg/col/writer_block_io.go
index 27de163..1a37586 100644
--- a/pkg/col/writer_block_io.go
+++ b/pkg/col/writer_block_io.go
@@ -69,7 +69,12 @@ func (w *Writer) WriteBlock(ids []uint64, values []int64) error {
 
 // writeBlockInternal is the actual implementation of WriteBlock
 // It writes the block without checking the target size
-func (w *Writer) writeBlockInternal(ids []uint64, values []int64) error {
+func (w *Writer) writeBlockInternal(ids []uint64, values []int64) (err error) {
+	if w.err != nil {
+		return fmt.Errorf("an earlier write failed: %w", w.err)
+	}
+	defer func() { w.err = err }()
+
 	// Add all IDs to the global ID bitmap
 	for _, id := range ids {
 		w.globalIDs.Set(id)
diff --git a/pkg/col/writer_finalize.go b/pkg/col/writer_finalize.go
index 7c07800..5e609ab 100644
--- a/pkg/col/writer_finalize.go
+++ b/pkg/col/writer_finalize.go
@@ -49,7 +49,12 @@ func (w *Writer) FinalizeAndClose() error {
 }
 
 // Finalize finalizes the file by writing the footer
-func (w *Writer) Finalize() error {
+func (w *Writer) Finalize() (err error) {
+	if w.err != nil {
+		return fmt.Errorf("an earlier write failed: %w", w.err)
+	}
+	defer func() { w.err = err }()
+
 	// Write the global ID bitmap
 	bitmapOffset, bitmapSize, err := w.writeGlobalIDBitmap()
 	if err != nil {
-- 
2.43.0


From 84fd049891b88e660e2b44246d997df454ff7604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 08/12] fix: close the file when finalizing it fails

FinalizeAndClose and SimpleWriter.Close returned the error and kept the file
open, with no way left to close it.
---
 pkg/col/simple_writer.go   | 1 +
 pkg/col/writer_finalize.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pkg/col/simple_writer.go b/pkg/col/simple_writer.go
index 2b398db..6ee0128 100644
--- a/pkg/col/simple_writer.go
+++ b/pkg/col/simple_writer.go
@@ -95,6 +95,7 @@ func (sw *SimpleWriter) Close() error {
 
 	// Flush any remaining data
 	if err := sw.flushIfNeeded(true); err != nil {
+		sw.writer.Close()
 		return fmt.Errorf("failed to flush remaining data: %w", err)
 	}
 
diff --git a/pkg/col/writer_finalize.go b/pkg/col/writer_finalize.go
index 5e609ab..d6a0228 100644
--- a/pkg/col/writer_finalize.go
+++ b/pkg/col/writer_finalize.go
@@ -43,6 +43,7 @@ func (w *Writer) writeGlobalIDBitmap() (uint64, uint64, error) {
 // FinalizeAndClose finalizes the file by writing the footer and closes the file
 func (w *Writer) FinalizeAndClose() error {
 	if err := w.Finalize(); err != nil {
+		w.file.Close()
 		return err
 	}
 	return w.file.Close()
-- 
2.43.0


From c583de8d7ca42c7883bcbd19ca4e99ee189aa4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 09/12] fix: guard the cached id bitmap of a shared reader

GetGlobalIDBitmap and the two methods that turn caching on and off raced
when tasks shared a reader, and could return a nil bitmap.
---
 pkg/col/reader.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/col/reader.go b/pkg/col/reader.go
index 70098f9..dfd6245 100644
--- a/pkg/col/reader.go
+++ b/pkg/col/reader.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"os"
+	"sync"
 
 	"github.com/weaviate/sroar"
 )
@@ -15,6 +16,7 @@ type Reader struct {
 	header         FileHeader
 	footerMeta     FooterMetadata
 	blockIndex     []FooterEntry
+	globalIDsMu    sync.Mutex // Guards the two fields below
 	globalIDs      *sroar.Bitmap
 	cacheGlobalIDs bool // Whether to cache the global ID bitmap
 }
@@ -126,11 +128,15 @@ func (r *Reader) DebugInfo() string {
 
 // EnableGlobalIDBitmapCaching enables caching of the global ID bitmap
 func (r *Reader) EnableGlobalIDBitmapCaching() {
+	r.globalIDsMu.Lock()
+	defer r.globalIDsMu.Unlock()
 	r.cacheGlobalIDs = true
 }
 
 // DisableGlobalIDBitmapCaching disables caching of the global ID bitmap
 func (r *Reader) DisableGlobalIDBitmapCaching() {
+	r.globalIDsMu.Lock()
+	defer r.globalIDsMu.Unlock()
 	r.cacheGlobalIDs = false
 	r.globalIDs = nil // Clear any cached bitmap
 }
@@ -139,6 +145,9 @@ func (r *Reader) DisableGlobalIDBitmapCaching() {
 // If the file doesn't have a global ID bitmap, it returns an empty bitmap
 // The bitmap is cached only if caching is enabled
 func (r *Reader) GetGlobalIDBitmap() (*sroar.Bitmap, error) {
+	r.globalIDsMu.Lock()
+	defer r.globalIDsMu.Unlock()
+
 	// If we've already loaded the bitmap and caching is enabled, return it
 	if r.globalIDs != nil && r.cacheGlobalIDs {
 		return r.globalIDs, nil
-- 
2.43.0


From 9b0611948f88e91d75f4b9d47ca68131370a3a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:35 +0000
Subject: [PATCH 10/12] fix: refuse a block whose offset lies before the file

An index entry with an offset in [2^64-64, 2^64) wrapped to a negative
offset whose data part starts inside the file header, so the header was
decoded as pairs.
---
 pkg/col/reader_block.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/col/reader_block.go b/pkg/col/reader_block.go
index 5766577..cc8007c 100644
--- a/pkg/col/reader_block.go
+++ b/pkg/col/reader_block.go
@@ -17,6 +17,10 @@ func (r *Reader) readBlock(blockIndex int) ([]uint64, []int64, error) {
 	blockSize := int64(r.blockIndex[blockIndex].BlockSize)
 	count := int(r.blockIndex[blockIndex].Count)
 
+	if blockOffset < 0 {
+		return nil, nil, fmt.Errorf("invalid block offset: %d", uint64(blockOffset))
+	}
+
 	// Read the entire block data in one call (excluding the block header)
 	// We need to read the layout section (16 bytes) and the data sections
 	dataOffset := blockOffset + blockHeaderSize
-- 
2.43.0


From 50f8a68aed0f4150538ffe18422016f48550fe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:10 +0000
Subject: [PATCH 11/12] fix: SetTargetBlockSize refuses sizes the file format
 cannot hold

---
 pkg/col/simple_writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/col/simple_writer.go b/pkg/col/simple_writer.go
index 6ee0128..ea0106d 100644
--- a/pkg/col/simple_writer.go
+++ b/pkg/col/simple_writer.go
@@ -2,6 +2,7 @@ package col
 
 import (
 	"fmt"
+	"math"
 	"sort"
 )
 
@@ -45,6 +46,10 @@ func (sw *SimpleWriter) SetTargetBlockSize(size int) error {
 		return fmt.Errorf("writer is already closed")
 	}
 
+	if size < 0 || uint64(size) > math.MaxUint32 {
+		return fmt.Errorf("invalid target block size: %d", size)
+	}
+
 	sw.targetBlockSize = size
 
 	// Also update the underlying writer's block size target
-- 
2.43.0


From e368afa3404ae2703d5d2a85fedb651e46a92ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:01 +0000
Subject: [PATCH 12/12] fix: write_example reports failed writes

---
 cmd/write_example/main.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/cmd/write_example/main.go b/cmd/write_example/main.go
index ea8d7d7..f83565f 100644
--- a/cmd/write_example/main.go
+++ b/cmd/write_example/main.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"hash/crc64"
+	"io"
 	"os"
 	"time"
 )
@@ -25,14 +26,29 @@ const (
 	CompressionNone uint32 = 0
 )
 
+// checkedFile remembers the first failed write and refuses all later ones, so
+// that it is enough to look for an error once
+type checkedFile struct {
+	*os.File
+	err error
+}
+
+func (f *checkedFile) Write(p []byte) (n int, err error) {
+	if f.err == nil {
+		n, f.err = f.File.Write(p)
+	}
+	return n, f.err
+}
+
 // writeFile writes a simple example column file with 10 int64 values
 func writeFile(filename string) error {
 	// Create the file
-	file, err := os.Create(filename)
+	created, err := os.Create(filename)
 	if err != nil {
 		return fmt.Errorf("failed to create file: %w", err)
 	}
-	defer file.Close()
+	defer created.Close()
+	file := &checkedFile{File: created}
 
 	// Sample data - 10 ID-value pairs
 	ids := []uint64{1, 5, 10, 15, 20, 25, 30, 35, 40, 45}
@@ -127,7 +143,7 @@ func writeFile(filename string) error {
 		return fmt.Errorf("failed to seek: %w", err)
 	}
 	blockData := make([]byte, dataEnd-dataStart)
-	_, err = file.Read(blockData)
+	_, err = io.ReadFull(file, blockData)
 	if err != nil {
 		return fmt.Errorf("failed to read block data: %w", err)
 	}
@@ -179,7 +195,7 @@ func writeFile(filename string) error {
 		return fmt.Errorf("failed to seek: %w", err)
 	}
 	fileData := make([]byte, footerEnd)
-	_, err = file.Read(fileData)
+	_, err = io.ReadFull(file, fileData)
 	if err != nil {
 		return fmt.Errorf("failed to read file data: %w", err)
 	}
@@ -195,6 +211,17 @@ func writeFile(filename string) error {
 		return fmt.Errorf("failed to get file position: %w", err)
 	}
 	
+	// The file is only there once everything has reached the disk
+	if file.err != nil {
+		return fmt.Errorf("failed to write file: %w", file.err)
+	}
+	if err := file.Sync(); err != nil {
+		return fmt.Errorf("failed to sync file: %w", err)
+	}
+	if err := file.Close(); err != nil {
+		return fmt.Errorf("failed to close file: %w", err)
+	}
+	
 	fmt.Printf("Wrote example file with %d entries to %s\n", count, filename)
 	fmt.Printf("File size: %d bytes\n", currentPos)
 	
-- 
2.43.0

