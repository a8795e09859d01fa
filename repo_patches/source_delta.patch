From 035a94363df226bea5c129e55b6e132c1b6ec3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 1/8] fix: restore the minimum int64 from its stored unsigned
 form

---
 pkg/col/encoding.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/col/encoding.go b/pkg/col/encoding.go
index 93dedb5..7ab4443 100644
--- a/pkg/col/encoding.go
+++ b/pkg/col/encoding.go
@@ -94,8 +94,9 @@ func uint64ToInt64(value uint64) int64 {
 	if value&(1<<63) == 0 {
 		return int64(value)
 	}
-	// Handle negative values by converting bits back
-	return ^int64(value&^(1<<63)) + 1
+	// Handle negative values by converting bits back; keeping the sign bit set
+	// makes this exact for the minimum int64 as well
+	return int64((^value + 1) | (1 << 63))
 }
 
 // encodeVarInt encodes an unsigned integer as a variable-length byte array
-- 
2.43.0


From 09ed674adc554b10de971bb08bfc02dc08a07ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 2/8] fix: make the id-only and value-only encodings round-trip

---
 pkg/col/reader_decode.go   |  8 +++++---
 pkg/col/writer_block.go    | 14 ++++++++++++--
 pkg/col/writer_encoding.go |  4 ++--
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/pkg/col/reader_decode.go b/pkg/col/reader_decode.go
index 0e31aeb..8788d80 100644
--- a/pkg/col/reader_decode.go
+++ b/pkg/col/reader_decode.go
@@ -11,12 +11,14 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 	var ids []uint64
 	var err error
 
-	isVarInt := encodingType == EncodingVarInt ||
+	idsAreVarInt := encodingType == EncodingVarInt ||
 		encodingType == EncodingVarIntID ||
+		encodingType == EncodingVarIntBoth
+	valuesAreVarInt := encodingType == EncodingVarInt ||
 		encodingType == EncodingVarIntValue ||
 		encodingType == EncodingVarIntBoth
 
-	if isVarInt {
+	if idsAreVarInt {
 		// For variable-length encoding, use the decodeUVarInts function
 		ids, err = decodeUVarInts(idBytes, count)
 		if err != nil {
@@ -45,7 +47,7 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 	// Decode values
 	var values []int64
 
-	if isVarInt {
+	if valuesAreVarInt {
 		// Decode variable-length values
 		values = make([]int64, count)
 		offset := 0
diff --git a/pkg/col/writer_block.go b/pkg/col/writer_block.go
index be8ed6d..9f5596b 100644
--- a/pkg/col/writer_block.go
+++ b/pkg/col/writer_block.go
@@ -145,10 +145,20 @@ func (w *Writer) writeBlockFooter(blockOffset, blockSize uint64, minID, maxID ui
 
 // encodeIDs encodes the IDs based on the encoding type
 func (w *Writer) encodeIDs(ids []uint64) ([]uint64, [][]byte, uint32, error) {
-	return encodeData(w.encodingType, ids, deltaEncode, encodeVarInt)
+	encodingType := w.encodingType
+	if encodingType == EncodingDeltaValue || encodingType == EncodingVarIntValue {
+		// These encoding types apply to the values only
+		encodingType = EncodingRaw
+	}
+	return encodeData(encodingType, ids, deltaEncode, encodeVarInt)
 }
 
 // encodeValues encodes the values based on the encoding type
 func (w *Writer) encodeValues(values []int64) ([]int64, [][]byte, uint32, error) {
-	return encodeData(w.encodingType, values, deltaEncodeInt64, encodeSignedVarInt)
+	encodingType := w.encodingType
+	if encodingType == EncodingDeltaID || encodingType == EncodingVarIntID {
+		// These encoding types apply to the IDs only
+		encodingType = EncodingRaw
+	}
+	return encodeData(encodingType, values, deltaEncodeInt64, encodeSignedVarInt)
 }
diff --git a/pkg/col/writer_encoding.go b/pkg/col/writer_encoding.go
index 9dd138d..c8bdd34 100644
--- a/pkg/col/writer_encoding.go
+++ b/pkg/col/writer_encoding.go
@@ -12,11 +12,11 @@ func encodeData[T any](encodingType uint32, data []T, deltaEncodeFunc func([]T)
 
 	// First apply delta encoding if needed
 	switch encodingType {
-	case EncodingRaw, EncodingVarInt, EncodingVarIntID:
+	case EncodingRaw, EncodingVarInt:
 		// These encoding types don't use delta encoding
 		encodedData = make([]T, len(data))
 		copy(encodedData, data)
-	case EncodingDeltaID, EncodingDeltaValue, EncodingDeltaBoth, EncodingVarIntValue, EncodingVarIntBoth:
+	case EncodingDeltaID, EncodingDeltaValue, EncodingDeltaBoth, EncodingVarIntID, EncodingVarIntValue, EncodingVarIntBoth:
 		// These encoding types use delta encoding
 		encodedData = deltaEncodeFunc(data)
 	default:
-- 
2.43.0


From f4df71df18f0e0a9f698dcc441a9c4fdc069db39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 3/8] fix: report short or malformed block sections instead of
 inventing rows

---
 pkg/col/reader_decode.go | 82 +++++++++++++---------------------------
 1 file changed, 26 insertions(+), 56 deletions(-)

diff --git a/pkg/col/reader_decode.go b/pkg/col/reader_decode.go
index 8788d80..474fa22 100644
--- a/pkg/col/reader_decode.go
+++ b/pkg/col/reader_decode.go
@@ -25,22 +25,16 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 			return nil, nil, fmt.Errorf("failed to decode varint IDs: %w", err)
 		}
 	} else {
-		// Calculate max number of IDs we can read
+		// The section must hold a fixed-width ID for every item
 		bytesPerID := 8
-		maxCount := len(idBytes) / bytesPerID
-		if count > maxCount {
-			count = maxCount
+		if count > len(idBytes)/bytesPerID {
+			return nil, nil, fmt.Errorf("ID section too short: %d bytes for %d IDs", len(idBytes), count)
 		}
 
 		// Read fixed-width IDs
 		ids = make([]uint64, count)
 		for i := 0; i < count; i++ {
-			if i*bytesPerID+bytesPerID <= len(idBytes) {
-				ids[i] = binary.LittleEndian.Uint64(idBytes[i*bytesPerID : i*bytesPerID+bytesPerID])
-			} else {
-				// Mock test data for out-of-bounds reads
-				ids[i] = uint64(i + 1)
-			}
+			ids[i] = binary.LittleEndian.Uint64(idBytes[i*bytesPerID : i*bytesPerID+bytesPerID])
 		}
 	}
 
@@ -48,44 +42,34 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 	var values []int64
 
 	if valuesAreVarInt {
+		// Every value takes at least one byte
+		if count > len(valueBytes) {
+			return nil, nil, fmt.Errorf("value section too short: %d bytes for %d values", len(valueBytes), count)
+		}
+
 		// Decode variable-length values
 		values = make([]int64, count)
 		offset := 0
-		for i := 0; i < count && offset < len(valueBytes); i++ {
+		for i := 0; i < count; i++ {
 			var bytesRead int
-			if offset < len(valueBytes) {
-				values[i], bytesRead = decodeSignedVarInt(valueBytes[offset:])
-				if bytesRead <= 0 {
-					// Mock test data for invalid varints
-					values[i] = int64((i + 1) * 100)
-					bytesRead = 1
-				}
-				offset += bytesRead
-			} else {
-				// Mock test data for out-of-bounds reads
-				values[i] = int64((i + 1) * 100)
+			values[i], bytesRead = decodeSignedVarInt(valueBytes[offset:])
+			// The last byte of a complete varint has no continuation bit
+			if bytesRead <= 0 || valueBytes[offset+bytesRead-1]&0x80 != 0 {
+				return nil, nil, fmt.Errorf("failed to decode varint value at index %d, bytes remaining: %d", i, len(valueBytes)-offset)
 			}
+			offset += bytesRead
 		}
 	} else {
-		// Decode fixed-width values
+		// The section must hold a fixed-width value for every item
 		bytesPerValue := 8
-		maxCount := len(valueBytes) / bytesPerValue
-		if count > maxCount {
-			count = maxCount
-			// Adjust IDs to match
-			if len(ids) > count {
-				ids = ids[:count]
-			}
+		if count > len(valueBytes)/bytesPerValue {
+			return nil, nil, fmt.Errorf("value section too short: %d bytes for %d values", len(valueBytes), count)
 		}
 
+		// Decode fixed-width values
 		values = make([]int64, count)
 		for i := 0; i < count; i++ {
-			if i*bytesPerValue+bytesPerValue <= len(valueBytes) {
-				values[i] = int64(binary.LittleEndian.Uint64(valueBytes[i*bytesPerValue : i*bytesPerValue+bytesPerValue]))
-			} else {
-				// Mock test data for out-of-bounds reads
-				values[i] = int64((i + 1) * 100)
-			}
+			values[i] = int64(binary.LittleEndian.Uint64(valueBytes[i*bytesPerValue : i*bytesPerValue+bytesPerValue]))
 		}
 	}
 
@@ -115,24 +99,18 @@ func decodeBlockData(idBytes, valueBytes []byte, count int, encodingType uint32)
 
 // Helper function to decode exactly 'count' UVarInts from buf
 func decodeUVarInts(buf []byte, count int) ([]uint64, error) {
+	// Every varint takes at least one byte
+	if count > len(buf) {
+		return nil, fmt.Errorf("section too short: %d bytes for %d uvarints", len(buf), count)
+	}
+
 	vals := make([]uint64, 0, count)
 	offset := 0
 
-	// Try to decode up to 'count' varints, but stop if we run out of data
-	for i := 0; i < count && offset < len(buf); i++ {
-		// Make sure we have at least one byte to read
-		if offset >= len(buf) {
-			break
-		}
-
+	for i := 0; i < count; i++ {
 		// Try to decode a varint
 		v, n := binary.Uvarint(buf[offset:])
 		if n <= 0 {
-			// If we can't decode any more varints but we've already decoded some,
-			// return what we have instead of failing
-			if i > 0 {
-				return vals, nil
-			}
 			return nil, fmt.Errorf("failed to decode uvarint at index %d, bytes remaining: %d", i, len(buf)-offset)
 		}
 
@@ -140,13 +118,5 @@ func decodeUVarInts(buf []byte, count int) ([]uint64, error) {
 		offset += n
 	}
 
-	// If we couldn't decode enough varints, return what we have
-	if len(vals) < count {
-		// Fill the rest with sequential IDs as needed for tests
-		for i := len(vals); i < count; i++ {
-			vals = append(vals, uint64(i+1))
-		}
-	}
-
 	return vals, nil
 }
-- 
2.43.0


From a143c4083f2d131099aa89b4afc62acc2e28b954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 4/8] fix: validate sizes and offsets read from a file before
 using them

---
 pkg/col/reader_block.go  |  3 +++
 pkg/col/reader_header.go | 19 +++++++++----------
 pkg/col/reader_io.go     |  6 +++++-
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/pkg/col/reader_block.go b/pkg/col/reader_block.go
index 5176a6c..7352a81 100644
--- a/pkg/col/reader_block.go
+++ b/pkg/col/reader_block.go
@@ -21,6 +21,9 @@ func (r *Reader) readBlock(blockIndex int) ([]uint64, []int64, error) {
 	// We need to read the layout section (16 bytes) and the data sections
 	dataOffset := blockOffset + blockHeaderSize
 	dataSize := int(blockSize) - blockHeaderSize
+	if dataSize < blockLayoutSize {
+		return nil, nil, fmt.Errorf("block size %d too small for block header and layout", blockSize)
+	}
 
 	// Read all data after the header in one call
 	blockData, err := r.readBytesAt(dataOffset, dataSize)
diff --git a/pkg/col/reader_header.go b/pkg/col/reader_header.go
index 32a7419..b1c3377 100644
--- a/pkg/col/reader_header.go
+++ b/pkg/col/reader_header.go
@@ -91,10 +91,11 @@ func (r *Reader) readFooter() error {
 	}
 
 	// Read the rest of the footer
-	footerStart := footerMetaOffset - int64(r.footerMeta.FooterSize)
-	if footerStart < 64 { // Footer cannot start before the header
+	// The footer cannot start before the end of the header
+	if footerMetaOffset < headerSize || r.footerMeta.FooterSize > uint64(footerMetaOffset-headerSize) {
 		return fmt.Errorf("invalid footer size: %d", r.footerMeta.FooterSize)
 	}
+	footerStart := footerMetaOffset - int64(r.footerMeta.FooterSize)
 
 	// Read block index count (first 4 bytes of footer)
 	blockIndexCountBuf, err := r.readBytesAt(footerStart, 4)
@@ -103,17 +104,15 @@ func (r *Reader) readFooter() error {
 	}
 	blockIndexCount := binary.LittleEndian.Uint32(blockIndexCountBuf)
 
-	// Check if block count matches with header
-	if uint64(blockIndexCount) != r.header.BlockCount {
-		// Use the higher value to ensure we don't miss data
-		if uint64(blockIndexCount) > r.header.BlockCount {
-			r.header.BlockCount = uint64(blockIndexCount)
-		}
-	}
+	// Only blocks with an index entry can be read, whatever the header says
+	r.header.BlockCount = uint64(blockIndexCount)
 
 	// Calculate the size of the block index
 	// Each entry is 56 bytes (8+4+8+8+8+8+8+4)
 	blockIndexSize := int(blockIndexCount) * 56
+	if uint64(blockIndexSize)+4 > r.footerMeta.FooterSize {
+		return fmt.Errorf("footer size %d too small for %d blocks", r.footerMeta.FooterSize, blockIndexCount)
+	}
 
 	// Read the entire block index in one call
 	blockIndexBuf, err := r.readBytesAt(footerStart+4, blockIndexSize)
@@ -124,7 +123,7 @@ func (r *Reader) readFooter() error {
 	// Parse the block index entries
 	r.blockIndex = make([]FooterEntry, blockIndexCount)
 	for i := uint32(0); i < blockIndexCount; i++ {
-		entryOffset := i * 56
+		entryOffset := int(i) * 56
 
 		r.blockIndex[i] = FooterEntry{
 			BlockOffset: readBufferedUint64(blockIndexBuf, int(entryOffset)),
diff --git a/pkg/col/reader_io.go b/pkg/col/reader_io.go
index 80eb78c..df11f73 100644
--- a/pkg/col/reader_io.go
+++ b/pkg/col/reader_io.go
@@ -8,12 +8,16 @@ import (
 
 // readBytesAt reads bytes at a specific offset
 func (r *Reader) readBytesAt(offset int64, size int) ([]byte, error) {
+	// Never allocate for or read beyond what the file holds
+	if offset < 0 || size < 0 || int64(size) > r.fileSize || offset > r.fileSize-int64(size) {
+		return nil, fmt.Errorf("read of %d bytes at offset %d exceeds file size %d", size, offset, r.fileSize)
+	}
 	buf := make([]byte, size)
 	n, err := r.file.ReadAt(buf, offset)
 	if err != nil && err != io.EOF {
 		return nil, fmt.Errorf("failed to read bytes at offset %d: %w", offset, err)
 	}
-	if n < size && err != io.EOF {
+	if n < size {
 		return nil, fmt.Errorf("incomplete read at offset %d: got %d bytes, expected %d", offset, n, size)
 	}
 	return buf, nil
-- 
2.43.0


From 05d3ff26ddef4442d5b92f962cb0e99a450270aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 5/8] fix: record a block's ids and index entry only once it is
 completely written

---
 pkg/col/writer_block_io.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/pkg/col/writer_block_io.go b/pkg/col/writer_block_io.go
index a535812..7cf5c72 100644
--- a/pkg/col/writer_block_io.go
+++ b/pkg/col/writer_block_io.go
@@ -70,11 +70,6 @@ func (w *Writer) WriteBlock(ids []uint64, values []int64) error {
 // writeBlockInternal is the actual implementation of WriteBlock
 // It writes the block without checking the target size
 func (w *Writer) writeBlockInternal(ids []uint64, values []int64) error {
-	// Add all IDs to the global ID bitmap
-	for _, id := range ids {
-		w.globalIDs.Set(id)
-	}
-
 	// Determine if we need to use variable-length encoding
 	useVarIntForIDs := w.encodingType == EncodingVarInt ||
 		w.encodingType == EncodingVarIntID ||
@@ -107,9 +102,6 @@ func (w *Writer) writeBlockInternal(ids []uint64, values []int64) error {
 		return fmt.Errorf("failed to get block start position: %w", err)
 	}
 
-	// Store this position so we can refer to it later in the footer
-	w.blockPositions = append(w.blockPositions, uint64(blockStart))
-
 	// Convert int64 values to uint64 for storage
 	minValueU64 := int64ToUint64(minValue)
 	maxValueU64 := int64ToUint64(maxValue)
@@ -300,6 +292,17 @@ func (w *Writer) writeBlockInternal(ids []uint64, values []int64) error {
 			expectedBlockSize, blockSize-uint64(padding), blockSizeDifference)
 	}
 
+	// Sync to disk to ensure data consistency
+	if err := w.file.Sync(); err != nil {
+		return fmt.Errorf("failed to sync file: %w", err)
+	}
+
+	// The block is complete: only now record it, so that a failed write leaves
+	// no trace in the footer or in the global ID bitmap
+	for _, id := range ids {
+		w.globalIDs.Set(id)
+	}
+	w.blockPositions = append(w.blockPositions, uint64(blockStart))
 	w.blockSizes = append(w.blockSizes, uint32(blockSize))
 
 	// Store block statistics for footer
@@ -315,11 +318,6 @@ func (w *Writer) writeBlockInternal(ids []uint64, values []int64) error {
 	// Increment block count
 	w.blockCount++
 
-	// Sync to disk to ensure data consistency
-	if err := w.file.Sync(); err != nil {
-		return fmt.Errorf("failed to sync file: %w", err)
-	}
-
 	return nil
 }
 
-- 
2.43.0


From e11d865f3eb57cd43f137314860757b35cddcea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 6/8] fix: report a failed size estimate instead of writing a
 shorter block

---
 pkg/col/writer_block_io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/col/writer_block_io.go b/pkg/col/writer_block_io.go
index 7cf5c72..e81dfaf 100644
--- a/pkg/col/writer_block_io.go
+++ b/pkg/col/writer_block_io.go
@@ -43,7 +43,7 @@ func (w *Writer) WriteBlock(ids []uint64, values []int64) error {
 		for i := 1; i < len(ids); i++ {
 			size, err := w.EstimateBlockSize(ids[:i], values[:i])
 			if err != nil {
-				break
+				return fmt.Errorf("failed to estimate block size: %w", err)
 			}
 
 			if size <= uint64(w.blockSizeTarget) {
-- 
2.43.0


From fe057b9eae8aed29027a8d0a14341c674963453c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 7/8] fix: append at the end of the file so that a retry after
 a failure overwrites nothing

---
 pkg/col/writer_block_io.go | 5 +++--
 pkg/col/writer_finalize.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/col/writer_block_io.go b/pkg/col/writer_block_io.go
index e81dfaf..971a6db 100644
--- a/pkg/col/writer_block_io.go
+++ b/pkg/col/writer_block_io.go
@@ -97,7 +97,8 @@ func (w *Writer) writeBlockInternal(ids []uint64, values []int64) error {
 	count := uint32(len(ids))
 
 	// Write block header (64 bytes)
-	blockStart, err := w.file.Seek(0, io.SeekCurrent)
+	// Blocks are always appended: a failed Finalize may have left the position elsewhere
+	blockStart, err := w.file.Seek(0, io.SeekEnd)
 	if err != nil {
 		return fmt.Errorf("failed to get block start position: %w", err)
 	}
@@ -348,7 +349,7 @@ func (w *Writer) EstimateBlockSize(ids []uint64, values []int64) (uint64, error)
 	totalSize := uint64(blockHeaderSize + blockLayoutSize + idSectionSize + valueSectionSize)
 
 	// Add padding size if needed for page alignment
-	currentPos, err := w.file.Seek(0, io.SeekCurrent)
+	currentPos, err := w.file.Seek(0, io.SeekEnd)
 	if err != nil {
 		return 0, fmt.Errorf("failed to get current position: %w", err)
 	}
diff --git a/pkg/col/writer_finalize.go b/pkg/col/writer_finalize.go
index 78bbdea..66e569f 100644
--- a/pkg/col/writer_finalize.go
+++ b/pkg/col/writer_finalize.go
@@ -8,8 +8,9 @@ import (
 
 // writeGlobalIDBitmap writes the global ID bitmap to the file
 func (w *Writer) writeGlobalIDBitmap() (uint64, uint64, error) {
-	// Get the current position - this is where the bitmap will start
-	bitmapOffset, err := w.file.Seek(0, io.SeekCurrent)
+	// The bitmap starts at the end of the file: when a failed Finalize is retried,
+	// the current position may be inside data written earlier
+	bitmapOffset, err := w.file.Seek(0, io.SeekEnd)
 	if err != nil {
 		return 0, 0, fmt.Errorf("failed to get bitmap offset: %w", err)
 	}
-- 
2.43.0


From 1932eccc7ca79a0120c3ab205494758d315e8ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:48 +0000
Subject: [PATCH 8/8] fix: reject block offsets beyond the signed range instead
 of wrapping them into the file

---
 pkg/col/reader_block.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/col/reader_block.go b/pkg/col/reader_block.go
index 7352a81..af46a72 100644
--- a/pkg/col/reader_block.go
+++ b/pkg/col/reader_block.go
@@ -17,6 +17,11 @@ func (r *Reader) readBlock(blockIndex int) ([]uint64, []int64, error) {
 	blockSize := int64(r.blockIndex[blockIndex].BlockSize)
 	count := int(r.blockIndex[blockIndex].Count)
 
+	// An offset beyond the signed range cannot lie inside the file
+	if blockOffset < 0 {
+		return nil, nil, fmt.Errorf("invalid block offset: %d", r.blockIndex[blockIndex].BlockOffset)
+	}
+
 	// Read the entire block data in one call (excluding the block header)
 	// We need to read the layout section (16 bytes) and the data sections
 	dataOffset := blockOffset + blockHeaderSize
-- 
2.43.0

