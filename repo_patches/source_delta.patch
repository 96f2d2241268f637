From 251592ed52cb67c5106d1f90e8c14a1d870de20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 01/68] fix: stream-backed block cache must accept blocks added
 by a resize

The bounds check of the callbacks used the number of blocks the cache was
created with, so blocks appended by Resize() could never be flushed or
fetched.
---
 file_systems/common/blockcache/blockcache.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index bdcb43a..0aaf40a 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -117,8 +117,11 @@ func WrapStream(
 	// This function performs the function of the read and write callbacks. It's
 	// put into one function because reading and writing differ only by a single
 	// method call on the stream.
+	// The bounds check must use the cache's current size, which changes if the
+	// cache is resized after creation.
+	var cache *BlockCache
 	runCb := func(block c.LogicalBlock, buffer []byte, read bool) error {
-		err := seekToBlock(stream, block, c.LogicalBlock(totalBlocks), bytesPerBlock)
+		err := seekToBlock(stream, block, c.LogicalBlock(cache.totalBlocks), bytesPerBlock)
 		if err != nil {
 			return err
 		}
@@ -164,7 +167,8 @@ func WrapStream(
 		}
 	}
 
-	return New(bytesPerBlock, totalBlocks, fetchCb, flushCb, resizeCb)
+	cache = New(bytesPerBlock, totalBlocks, fetchCb, flushCb, resizeCb)
+	return cache
 }
 
 func WrapStreamWithInferredSize(
-- 
2.43.0


From 5c36459ac07f1bb8107beae786a442880fdc61e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 02/68] fix: stream-backed block cache must handle short reads
 and failed writes

A partial Read() left stale bytes in the block, and a Write() that reported
io.EOF (or wrote less than asked) was treated as a successful flush.
---
 file_systems/common/blockcache/blockcache.go | 21 +++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index 0aaf40a..0590dca 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -126,16 +126,23 @@ func WrapStream(
 			return err
 		}
 
-		if read {
-			_, err = stream.Read(buffer)
-		} else {
-			_, err = stream.Write(buffer)
+		if !read {
+			n, err := stream.Write(buffer)
+			if err == nil && n < len(buffer) {
+				err = io.ErrShortWrite
+			}
+			return err
 		}
 
-		if err != nil && err != io.EOF {
-			return err
+		// A single Read() is allowed to return fewer bytes than requested, so
+		// keep going until we have the whole block. The stream may end partway
+		// through (or even before) the block; anything past the end is null.
+		n, err := io.ReadFull(stream, buffer)
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
+			clear(buffer[n:])
+			err = nil
 		}
-		return nil
+		return err
 	}
 
 	fetchCb := func(block c.LogicalBlock, buffer []byte) error {
-- 
2.43.0


From cfd88a77dfac827c1ae59a8c6685fc40eaee75c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 03/68] fix: flushing or loading an empty block cache must
 succeed

Flush(), LoadAll() and Data() failed with an out-of-range error on a cache
with no blocks, e.g. after truncating a stream to zero bytes.
---
 file_systems/common/blockcache/blockcache.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index 0590dca..0f14995 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -367,12 +367,18 @@ func (cache *BlockCache) flushBlockRange(start c.LogicalBlock, count uint) error
 
 // LoadAll ensures all missing blocks are loaded from storage into the cache.
 func (cache *BlockCache) LoadAll() error {
+	if cache.totalBlocks == 0 {
+		return nil
+	}
 	return cache.loadBlockRange(0, cache.totalBlocks)
 }
 
 // Flush flushes all dirty blocks from the cache into storage, and marks them
 // as clean.
 func (cache *BlockCache) Flush() error {
+	if cache.totalBlocks == 0 {
+		return nil
+	}
 	return cache.flushBlockRange(0, cache.totalBlocks)
 }
 
-- 
2.43.0


From d70314ae3dbab2583a5a87999f2d5ea79200af4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 04/68] fix: block cache bounds checks must not overflow

A huge block count or buffer size wrapped around, passed the bounds check
and then crashed with an out-of-range slice access.
---
 file_systems/common/blockcache/blockcache.go | 32 +++++++++++++++++---
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index 0f14995..0c7fb35 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -231,7 +231,11 @@ func (cache *BlockCache) Size() int64 {
 // GetMinBlocksForSize gives the minimum number of blocks required to hold the
 // given number of bytes.
 func (cache *BlockCache) GetMinBlocksForSize(size uint) uint {
-	return (size + cache.bytesPerBlock - 1) / cache.bytesPerBlock
+	numBlocks := size / cache.bytesPerBlock
+	if size%cache.bytesPerBlock != 0 {
+		numBlocks++
+	}
+	return numBlocks
 }
 
 // CheckBounds verifies that `bufferSize` bytes can be accessed in the cache
@@ -245,7 +249,7 @@ func (cache *BlockCache) CheckBounds(start c.LogicalBlock, bufferSize uint) erro
 			fmt.Sprintf("block %d not in range [0, %d)", start, cache.totalBlocks),
 		)
 	}
-	if uint(start)+numBlocks > cache.totalBlocks {
+	if numBlocks > cache.totalBlocks-uint(start) {
 		return disko.ErrArgumentOutOfRange.WithMessage(
 			fmt.Sprintf(
 				"can't access %d bytes (%d blocks) starting at block %d; requested"+
@@ -260,6 +264,24 @@ func (cache *BlockCache) CheckBounds(start c.LogicalBlock, bufferSize uint) erro
 	return nil
 }
 
+// checkBlockRange verifies that `count` blocks can be accessed in the cache
+// starting from block `start`. Unlike [BlockCache.CheckBounds], it can't overflow
+// regardless of how large `count` is.
+func (cache *BlockCache) checkBlockRange(start c.LogicalBlock, count uint) error {
+	if count > cache.totalBlocks {
+		return disko.ErrArgumentOutOfRange.WithMessage(
+			fmt.Sprintf(
+				"can't access %d blocks starting at block %d; requested range not"+
+					" in [0, %d)",
+				count,
+				start,
+				cache.totalBlocks,
+			),
+		)
+	}
+	return cache.CheckBounds(start, count*cache.bytesPerBlock)
+}
+
 // GetSlice returns a slice pointing to the cache's storage, beginning at block
 // `start` and continuing for `count` blocks.
 //
@@ -296,7 +318,7 @@ func (cache *BlockCache) Data() ([]byte, error) {
 // loadBlockRange ensures that all blocks in the range [start, start + count) are
 // present in the cache, and loads any missing ones from storage.
 func (cache *BlockCache) loadBlockRange(start c.LogicalBlock, count uint) error {
-	err := cache.CheckBounds(start, count*cache.bytesPerBlock)
+	err := cache.checkBlockRange(start, count)
 	if err != nil {
 		return err
 	}
@@ -333,7 +355,7 @@ func (cache *BlockCache) loadBlockRange(start c.LogicalBlock, count uint) error
 // flushBlockRange writes out all dirty blocks (and only dirty blocks) to the
 // underlying storage and marks them as clean.
 func (cache *BlockCache) flushBlockRange(start c.LogicalBlock, count uint) error {
-	err := cache.CheckBounds(start, count*cache.bytesPerBlock)
+	err := cache.checkBlockRange(start, count)
 	if err != nil {
 		return err
 	}
@@ -489,7 +511,7 @@ func (cache *BlockCache) MarkBlockRangeDirty(
 	start c.LogicalBlock,
 	count uint,
 ) error {
-	err := cache.CheckBounds(start, count*cache.bytesPerBlock)
+	err := cache.checkBlockRange(start, count)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 848ed0e2f9b5b84120eb0bec644af2462bf8f048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 05/68] fix: BlockCache.ReadAt must return the number of bytes
 read into the buffer

It returned the size of the blocks read, which exceeds len(buffer) if the
buffer is not a multiple of the block size.
---
 file_systems/common/blockcache/blockcache.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index 0c7fb35..9caca55 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -428,8 +428,7 @@ func (cache *BlockCache) ReadAt(buffer []byte, start c.LogicalBlock) (int, error
 		return 0, err
 	}
 
-	copy(buffer, sourceData)
-	return len(sourceData), nil
+	return copy(buffer, sourceData), nil
 }
 
 // WriteAt copies data into the cache from `buffer`, beginning at block `start`.
-- 
2.43.0


From 52626c61a3f087fb6e0ea99b5736d995daacf790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 06/68] fix: marking an unloaded block dirty must not erase it

MarkBlockRangeDirty flagged blocks that were never fetched as present, so
they read as null bytes and the next flush wiped them from storage.
---
 file_systems/common/blockcache/blockcache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index 9caca55..9d9c200 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -510,7 +510,9 @@ func (cache *BlockCache) MarkBlockRangeDirty(
 	start c.LogicalBlock,
 	count uint,
 ) error {
-	err := cache.checkBlockRange(start, count)
+	// Blocks that aren't in the cache yet must be loaded first, or we'd end up
+	// overwriting them in the backing storage with null bytes.
+	err := cache.loadBlockRange(start, count)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 8b3a6bd3261cf7f38f83c09e1827a648ff4e01cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 07/68] fix: resizing a block cache beyond the addressable size
 must fail, not panic

---
 file_systems/common/blockcache/blockcache.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index 9d9c200..f839272 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -9,6 +9,7 @@ package blockcache
 import (
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/boljen/go-bitmap"
 	"github.com/dargueta/disko"
@@ -469,6 +470,12 @@ func (cache *BlockCache) WriteAt(buffer []byte, start c.LogicalBlock) (int, erro
 // the slice. These new blocks are treated as dirty, so flushing the cache will
 // write them out.
 func (cache *BlockCache) Resize(newTotalBlocks uint) error {
+	if newTotalBlocks > math.MaxInt/cache.bytesPerBlock {
+		return disko.ErrFileTooLarge.WithMessage(
+			fmt.Sprintf("can't resize to %d blocks", newTotalBlocks),
+		)
+	}
+
 	err := cache.resize(c.LogicalBlock(newTotalBlocks))
 	if err != nil {
 		return err
-- 
2.43.0


From 48ade304cd0c9296f8ef50a7fa3d92706f5e9e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 08/68] fix: stream writes must only request the blocks they
 touch

implWriteAt passed the last block index as the block count, so any write
that didn't start in the first block asked for blocks past the end of the
stream and failed.
---
 file_systems/common/basicstream/basicstream.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index e555f38..371f642 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -290,7 +290,8 @@ func (stream *BasicStream) implWriteAt(buffer []byte, offset int64) (int, error)
 		}
 	}
 
-	targetSlice, err := stream.data.GetSlice(startBlock, uint(lastBlock)+1)
+	numBlocks := uint(lastBlock-startBlock) + 1
+	targetSlice, err := stream.data.GetSlice(startBlock, numBlocks)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From ab303b307be716c6f4ca951062ff8f06f74a5d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 09/68] fix: stream writes must mark the modified blocks dirty

Data written to existing blocks of a stream was never flushed to the
underlying storage, not even by Sync() or Close().
---
 file_systems/common/basicstream/basicstream.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index 371f642..4cfd80d 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -298,6 +298,11 @@ func (stream *BasicStream) implWriteAt(buffer []byte, offset int64) (int, error)
 
 	copy(targetSlice[startOffset:], buffer)
 
+	err = stream.data.MarkBlockRangeDirty(startBlock, numBlocks)
+	if err != nil {
+		return 0, err
+	}
+
 	if stream.ioFlags.Synchronous() {
 		return len(buffer), stream.Sync()
 	}
-- 
2.43.0


From cea494e784be1c178ce7f13932af6fb634ca0794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 10/68] fix: writing past the end of a stream must extend it
 correctly

- The size wasn't updated if the write fit into already allocated blocks.
- A write ending exactly on the boundary of the last block tried to grow the
  stream by another block.
- Growing a stream exposed whatever bytes followed its end in the last block
  instead of nulls.
- Writing zero bytes past the end extended the stream.
---
 .../common/basicstream/basicstream.go         | 72 +++++++++++++++++--
 1 file changed, 66 insertions(+), 6 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index 4cfd80d..a922b97 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -234,9 +234,18 @@ func (stream *BasicStream) Truncate(size int64) error {
 	}
 	newTotalBlocks := stream.data.GetMinBlocksForSize(uint(size))
 
-	err := stream.data.Resize(newTotalBlocks)
-	if err != nil {
-		return err
+	if size > stream.size {
+		err := stream.zeroFill(stream.size, size)
+		if err != nil {
+			return err
+		}
+	}
+
+	if newTotalBlocks != stream.data.TotalBlocks() {
+		err := stream.data.Resize(newTotalBlocks)
+		if err != nil {
+			return err
+		}
 	}
 
 	stream.size = size
@@ -247,6 +256,48 @@ func (stream *BasicStream) Truncate(size int64) error {
 	return nil
 }
 
+// extend grows the stream to `newSize` bytes. Unlike [BasicStream.Truncate], it
+// only resizes the underlying storage if it's too small.
+func (stream *BasicStream) extend(newSize int64) error {
+	err := stream.zeroFill(stream.size, newSize)
+	if err != nil {
+		return err
+	}
+
+	newTotalBlocks := stream.data.GetMinBlocksForSize(uint(newSize))
+	if newTotalBlocks > stream.data.TotalBlocks() {
+		err = stream.data.Resize(newTotalBlocks)
+		if err != nil {
+			return err
+		}
+	}
+
+	stream.size = newSize
+	return nil
+}
+
+// zeroFill nulls out the bytes in the range `[start, end)` that are already
+// allocated in the block cache. It's used when growing the stream so that stale
+// data past the current end isn't exposed.
+func (stream *BasicStream) zeroFill(start, end int64) error {
+	end = min(end, stream.data.Size())
+	if start >= end {
+		return nil
+	}
+
+	startBlock, startOffset := stream.convertLinearAddr(start)
+	lastBlock, _ := stream.convertLinearAddr(end - 1)
+	numBlocks := uint(lastBlock-startBlock) + 1
+
+	slice, err := stream.data.GetSlice(startBlock, numBlocks)
+	if err != nil {
+		return err
+	}
+
+	clear(slice[startOffset : int64(startOffset)+end-start])
+	return stream.data.MarkBlockRangeDirty(startBlock, numBlocks)
+}
+
 // Write implements [io.Writer].
 func (stream *BasicStream) Write(buffer []byte) (int, error) {
 	var err error
@@ -277,14 +328,23 @@ func (stream *BasicStream) implWriteAt(buffer []byte, offset int64) (int, error)
 		return 0, disko.ErrNotPermitted
 	}
 
+	// The address computations below assume we're writing at least one byte.
+	// Writing nothing never extends the stream.
 	bufLen := int64(len(buffer))
+	if bufLen == 0 {
+		return 0, nil
+	}
+	if offset > math.MaxInt64-bufLen {
+		return 0, disko.ErrFileTooLarge
+	}
+
 	startBlock, startOffset := stream.convertLinearAddr(offset)
-	lastBlock, _ := stream.convertLinearAddr(offset + bufLen)
+	lastBlock, _ := stream.convertLinearAddr(offset + bufLen - 1)
 
 	// If we're going to end up writing past the end of the stream we need to
 	// grow the file first.
-	if uint(lastBlock) >= stream.data.TotalBlocks() {
-		err := stream.Truncate(offset + bufLen)
+	if offset+bufLen > stream.size {
+		err := stream.extend(offset + bufLen)
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From faf00629f352125d8ad7f34d0a5609a831f85b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 11/68] fix: Read() must advance the stream pointer when it
 hits EOF

A read that returned the last few bytes of the stream along with io.EOF left
the pointer where it was, so the next read returned the same bytes again.
---
 file_systems/common/basicstream/basicstream.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index a922b97..49c09b2 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -78,9 +78,7 @@ func (stream *BasicStream) Close() error {
 // Read implements [io.Reader].
 func (stream *BasicStream) Read(buffer []byte) (int, error) {
 	totalRead, err := stream.ReadAt(buffer, stream.position)
-	if err == nil {
-		stream.position += int64(totalRead)
-	}
+	stream.position += int64(totalRead)
 	return totalRead, err
 }
 
-- 
2.43.0


From 98606b5d1061a700ed868aae5d3a60ab99195e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 12/68] fix: positioned reads and writes at a negative offset
 must fail, not panic

---
 file_systems/common/basicstream/basicstream.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index 49c09b2..e519d11 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -88,6 +88,12 @@ func (stream *BasicStream) ReadAt(buffer []byte, offset int64) (int, error) {
 		return 0, disko.ErrNotPermitted
 	}
 
+	if offset < 0 {
+		return 0, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("read failed: negative offset %d", offset),
+		)
+	}
+
 	// The address computations below assume we're reading at least one byte. If
 	// the target buffer is empty, we have nothing further to do.
 	bufLen := int64(len(buffer))
@@ -326,6 +332,12 @@ func (stream *BasicStream) implWriteAt(buffer []byte, offset int64) (int, error)
 		return 0, disko.ErrNotPermitted
 	}
 
+	if offset < 0 {
+		return 0, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("write failed: negative offset %d", offset),
+		)
+	}
+
 	// The address computations below assume we're writing at least one byte.
 	// Writing nothing never extends the stream.
 	bufLen := int64(len(buffer))
-- 
2.43.0


From 28b66f5d2b11a3976582a9dbad1cf0ee0e29a2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 13/68] fix: ReadFrom() must not drop write errors

If the write of the last chunk failed, the error was discarded because the
reader had hit EOF, and the returned count included the lost bytes.
---
 file_systems/common/basicstream/basicstream.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index e519d11..1091757 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -149,18 +149,19 @@ func (stream *BasicStream) ReadFrom(r io.Reader) (n int64, err error) {
 
 	buffer := make([]byte, blockSize)
 
-	totalBytesRead := int64(0)
+	totalBytesCopied := int64(0)
 	for {
 		lastReadSize, readErr := r.Read(buffer)
-		totalBytesRead += int64(lastReadSize)
 
-		_, writeErr := stream.Write(buffer[:lastReadSize])
-		if readErr == io.EOF {
-			return totalBytesRead, nil
+		lastWriteSize, writeErr := stream.Write(buffer[:lastReadSize])
+		totalBytesCopied += int64(lastWriteSize)
+
+		if writeErr != nil {
+			return totalBytesCopied, writeErr
+		} else if readErr == io.EOF {
+			return totalBytesCopied, nil
 		} else if readErr != nil {
-			return totalBytesRead, readErr
-		} else if writeErr != nil {
-			return totalBytesRead, writeErr
+			return totalBytesCopied, readErr
 		}
 	}
 }
-- 
2.43.0


From 0bd39e71f2145ce82b860e6b7612958b3086b0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 14/68] fix: WriteTo() must report write errors and short
 writes

---
 file_systems/common/basicstream/basicstream.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index 1091757..ab43d6a 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -405,8 +405,14 @@ func (stream *BasicStream) WriteTo(w io.Writer) (n int64, err error) {
 		// Always write the data we've read in regardless of whether an error
 		// occurred or not.
 		if blockSize > 0 {
-			w.Write(buffer[:blockSize])
-			totalWritten += int64(blockSize)
+			bytesWritten, writeErr := w.Write(buffer[:blockSize])
+			totalWritten += int64(bytesWritten)
+
+			if writeErr != nil {
+				return totalWritten, writeErr
+			} else if bytesWritten < blockSize {
+				return totalWritten, io.ErrShortWrite
+			}
 		}
 
 		// If we hit EOF, we're done. Any other error is fatal.
-- 
2.43.0


From 0cd4ab20025c10c63ef772cd2fe2e3e29e6d495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 15/68] fix: DecompressRLERecursive must decompress

It was a copy of the compressor, so it encoded its input a second time
instead of decoding it.
---
 utilities/compression/rle8.go | 69 ++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 33 deletions(-)

diff --git a/utilities/compression/rle8.go b/utilities/compression/rle8.go
index c9d20c6..42747fd 100644
--- a/utilities/compression/rle8.go
+++ b/utilities/compression/rle8.go
@@ -176,51 +176,54 @@ func CompressRLERecursive(input io.Reader, output io.Writer) (int64, error) {
 
 // DecompressRLERecursive is the decompression counterpart to CompressRLERecursive.
 func DecompressRLERecursive(input io.Reader, output io.Writer) (int64, error) {
-	grouper := NewRLEGrouperFromReader(input)
-
+	source := bufio.NewReader(input)
+	lastByteRead := -1
 	totalBytesWritten := int64(0)
+
 	for {
-		run, getRunErr := grouper.GetNextRun()
-		if getRunErr != nil && !errors.Is(getRunErr, io.EOF) {
-			// An error was encountered and it's *not* EOF.
-			return totalBytesWritten, getRunErr
+		currentByte, err := source.ReadByte()
+		if err != nil {
+			if errors.Is(err, io.EOF) {
+				return totalBytesWritten, nil
+			}
+			return totalBytesWritten, fmt.Errorf("error reading input: %w", err)
 		}
 
-		if run.RunLength == 1 {
-			_, err := output.Write([]byte{run.Byte})
-			if err != nil {
-				return totalBytesWritten, err
-			}
-			totalBytesWritten++
-		} else if run.RunLength >= 2 {
-			_, err := output.Write([]byte{run.Byte, run.Byte})
-			if err != nil {
-				return totalBytesWritten, err
-			}
-			totalBytesWritten += 2
+		n, err := output.Write([]byte{currentByte})
+		if err != nil {
+			return totalBytesWritten, fmt.Errorf("failed to write to output: %w", err)
+		}
+		totalBytesWritten += int64(n)
 
-			num255Repetitions := (run.RunLength - 2) / 255
-			remainder := (run.RunLength - 2) % 255
+		if int(currentByte) != lastByteRead {
+			lastByteRead = int(currentByte)
+			continue
+		}
 
-			_, err = output.Write(bytes.Repeat([]byte{255}, num255Repetitions))
+		// Got two bytes in a row that are the same. The following bytes give the
+		// number of additional repetitions. Each 255 is followed by another
+		// count byte; anything less than that marks the end of the run.
+		for repeatCountByte := byte(255); repeatCountByte == 255; {
+			repeatCountByte, err = source.ReadByte()
 			if err != nil {
-				return totalBytesWritten, err
+				if errors.Is(err, io.EOF) {
+					err = fmt.Errorf(
+						"%w: missing repeat count after two %02x bytes",
+						io.ErrUnexpectedEOF,
+						uint(lastByteRead),
+					)
+				}
+				return totalBytesWritten, fmt.Errorf("error reading input: %w", err)
 			}
-			totalBytesWritten += int64(num255Repetitions)
 
-			_, err = output.Write([]byte{byte(remainder)})
+			n, err = output.Write(bytes.Repeat([]byte{currentByte}, int(repeatCountByte)))
 			if err != nil {
-				return totalBytesWritten, err
+				return totalBytesWritten, fmt.Errorf("failed to write to output: %w", err)
 			}
-
-			totalBytesWritten++
+			totalBytesWritten += int64(n)
 		}
 
-		// We bail at the beginning of the loop if an error occurred and it's
-		// *not* EOF, so if the error here is non-nil then that means it *must*
-		// be EOF. That means we finished without errors.
-		if getRunErr != nil {
-			return totalBytesWritten, nil
-		}
+		// Reset the last byte read since we're done with this run.
+		lastByteRead = -1
 	}
 }
-- 
2.43.0


From 36abc19fa5599143e9e120e06d3437e4e31ca11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 16/68] fix: wrapped object handles must refer to the
 implementation's handle

wrapObjectHandle() discarded the handle it was given, so every operation on
an object crashed with a nil pointer dereference. The wrapper also hid the
optional interfaces (ListDir, Chmod, ...), and implementations were given
wrappers instead of their own handles.
---
 driver/driver.go   | 17 ++++++-----
 driver/fsobject.go | 71 ++++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 76 insertions(+), 12 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 114a5ba..bcaad2e 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -201,7 +201,8 @@ func (driver *BaseDriver) getContentsOfObject(
 func (driver *BaseDriver) getExtObjectInDir(
 	baseName string, parentObject extObjectHandle,
 ) (extObjectHandle, disko.DriverError) {
-	object, err := driver.implementation.GetObject(baseName, parentObject)
+	object, err := driver.implementation.GetObject(
+		baseName, unwrapObjectHandle(parentObject))
 	if err != nil {
 		return nil, err
 	}
@@ -217,7 +218,7 @@ func (driver *BaseDriver) createExtObject(
 ) (extObjectHandle, disko.DriverError) {
 	rawObject, err := driver.implementation.CreateObject(
 		baseName,
-		parentObject,
+		unwrapObjectHandle(parentObject),
 		perm,
 	)
 	if err != nil {
@@ -461,7 +462,8 @@ func (driver *BaseDriver) readDir(
 			continue
 		}
 
-		direntObject, err := driver.implementation.GetObject(name, directory)
+		direntObject, err := driver.implementation.GetObject(
+			name, unwrapObjectHandle(directory))
 		if err != nil {
 			return output, err
 		}
@@ -502,7 +504,8 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 		return err
 	}
 
-	_, err = linker.CreateHardLink(oldHandle, parentHandle, targetName)
+	_, err = linker.CreateHardLink(
+		unwrapObjectHandle(oldHandle), unwrapObjectHandle(parentHandle), targetName)
 	return err
 }
 
@@ -688,7 +691,7 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 		)
 	}
 
-	object, err := driver.implementation.CreateObject(baseName, parentObject, perm)
+	object, err := driver.createExtObject(baseName, parentObject, perm)
 	if err == nil {
 		object.Close()
 	}
@@ -716,7 +719,7 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 	}
 	defer parentObject.Close()
 
-	object, err := driver.implementation.CreateObject(baseName, parentObject, perm)
+	object, err := driver.createExtObject(baseName, parentObject, perm)
 	if err == nil {
 		object.Close()
 	}
@@ -738,7 +741,7 @@ func (driver *BaseDriver) RemoveAll(path string) error {
 
 	// Block an attempt at `rm -rf /`, because some clown is gonna try it.
 	root := driver.implementation.GetRootDirectory()
-	if root.SameAs(directory) {
+	if root.SameAs(unwrapObjectHandle(directory)) {
 		return disko.ErrPermissionDenied.WithMessage(
 			"you can't remove the root directory",
 		)
diff --git a/driver/fsobject.go b/driver/fsobject.go
index 65f008c..2064da9 100644
--- a/driver/fsobject.go
+++ b/driver/fsobject.go
@@ -1,6 +1,11 @@
 package driver
 
-import "github.com/dargueta/disko"
+import (
+	"os"
+	"time"
+
+	"github.com/dargueta/disko"
+)
 
 type extObjectHandle interface {
 	disko.ObjectHandle
@@ -8,19 +13,75 @@ type extObjectHandle interface {
 }
 
 type tExtObjectHandle struct {
-	extObjectHandle
+	disko.ObjectHandle
 	absolutePath string
 }
 
-// wrapObjectHandle combines
+// wrapObjectHandle combines an object handle with the absolute path it was found
+// at. Optional interfaces the handle supports are available via the wrapper.
 func wrapObjectHandle(handle disko.ObjectHandle, absolutePath string) extObjectHandle {
 	return &tExtObjectHandle{
-		// FIXME (dargueta): This is hella wrong
-		//extObjectHandle.ObjectHandle: handle,
+		ObjectHandle: unwrapObjectHandle(handle),
 		absolutePath: absolutePath,
 	}
 }
 
+// unwrapObjectHandle is the inverse of [wrapObjectHandle]. Handles passed to a
+// file system implementation must be the ones the implementation gave us.
+func unwrapObjectHandle(handle disko.ObjectHandle) disko.ObjectHandle {
+	if wrapper, ok := handle.(*tExtObjectHandle); ok {
+		return wrapper.ObjectHandle
+	}
+	return handle
+}
+
 func (xh tExtObjectHandle) AbsolutePath() string {
 	return xh.absolutePath
 }
+
+// SameAs implements [disko.ObjectHandle].
+func (xh tExtObjectHandle) SameAs(other disko.ObjectHandle) bool {
+	return xh.ObjectHandle.SameAs(unwrapObjectHandle(other))
+}
+
+// ListDir implements [disko.SupportsListDirHandle].
+func (xh tExtObjectHandle) ListDir() ([]string, disko.DriverError) {
+	handle, ok := xh.ObjectHandle.(disko.SupportsListDirHandle)
+	if !ok {
+		return nil, disko.ErrNotADirectory.WithMessage(xh.absolutePath)
+	}
+	return handle.ListDir()
+}
+
+// Chmod implements [disko.SupportsChmodHandle].
+func (xh tExtObjectHandle) Chmod(mode os.FileMode) disko.DriverError {
+	handle, ok := xh.ObjectHandle.(disko.SupportsChmodHandle)
+	if !ok {
+		return disko.ErrNotImplemented
+	}
+	return handle.Chmod(mode)
+}
+
+// Chown implements [disko.SupportsChownHandle].
+func (xh tExtObjectHandle) Chown(uid, gid int) disko.DriverError {
+	handle, ok := xh.ObjectHandle.(disko.SupportsChownHandle)
+	if !ok {
+		return disko.ErrNotImplemented
+	}
+	return handle.Chown(uid, gid)
+}
+
+// Chtimes implements [disko.SupportsChtimesHandle].
+func (xh tExtObjectHandle) Chtimes(
+	createdAt,
+	lastAccessed,
+	lastModified,
+	lastChanged,
+	deletedAt time.Time,
+) disko.DriverError {
+	handle, ok := xh.ObjectHandle.(disko.SupportsChtimesHandle)
+	if !ok {
+		return disko.ErrNotImplemented
+	}
+	return handle.Chtimes(createdAt, lastAccessed, lastModified, lastChanged, deletedAt)
+}
-- 
2.43.0


From e7c5e84653706649a12ff14d7d5503b5c3ad5e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 17/68] fix: resolving a path below a subdirectory must not
 recurse forever

path.Split() leaves a trailing slash on the directory, and splitting that
yields the same directory again with an empty base name.
---
 driver/driver.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index bcaad2e..bd3839a 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -128,7 +128,7 @@ func (driver *BaseDriver) getObjectAtPathNoFollow(
 		return wrapObjectHandle(root, path), nil
 	}
 
-	parentPath, baseName := posixpath.Split(path)
+	parentPath, baseName := posixpath.Dir(path), posixpath.Base(path)
 	parentObject, err := driver.getObjectAtPathFollowingLink(parentPath)
 	if err != nil {
 		return nil, err
@@ -262,7 +262,7 @@ func (driver *BaseDriver) OpenFile(
 				// To create the missing file, we need to get a handle for its
 				// parent directory, then call CreateObject() for the file in
 				// that directory.
-				parentDir, baseName := posixpath.Split(absPath)
+				parentDir, baseName := posixpath.Dir(absPath), posixpath.Base(absPath)
 				parentObject, err = driver.getObjectAtPathFollowingLink(parentDir)
 				if err != nil {
 					// Parent directory doesn't exist
@@ -498,7 +498,7 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 		return disko.ErrExists.WithMessage("hard link target already exists: " + absNew)
 	}
 
-	targetParentPath, targetName := posixpath.Split(absNew)
+	targetParentPath, targetName := posixpath.Dir(absNew), posixpath.Base(absNew)
 	parentHandle, err := driver.getObjectAtPathFollowingLink(targetParentPath)
 	if err != nil {
 		return err
@@ -672,7 +672,7 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 	perm |= os.ModeDir
 
 	absPath := driver.NormalizePath(path)
-	parentDir, baseName := posixpath.Split(absPath)
+	parentDir, baseName := posixpath.Dir(absPath), posixpath.Base(absPath)
 
 	parentObject, err := driver.getObjectAtPathFollowingLink(parentDir)
 	if err != nil {
@@ -700,7 +700,7 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 
 func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 	absPath := driver.NormalizePath(path)
-	parentDir, baseName := posixpath.Split(absPath)
+	parentDir, baseName := posixpath.Dir(absPath), posixpath.Base(absPath)
 
 	// Force the permissions flags to indicate this is a directory so that the
 	// caller doesn't have to remember to do it themselves.
-- 
2.43.0


From 1c554258ad5956640430d8c16680df187a3219bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 18/68] fix: "." must refer to the working directory, not the
 root directory

---
 driver/driver.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index bd3839a..a7dc785 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -41,9 +41,6 @@ func New(
 // from the current working directory (see [Getwd] for more).
 func (driver *BaseDriver) NormalizePath(path string) string {
 	path = posixpath.Clean(filepath.ToSlash(path))
-	if path == "." {
-		path = "/"
-	}
 	if posixpath.IsAbs(path) {
 		return path
 	}
-- 
2.43.0


From 61b606bd9bdee2cd54f3703395361de694dd8804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 19/68] fix: the driver must close every object handle exactly
 once

- Chmod, Chown, Lchown, Chtimes, Link and RemoveAll leaked handles, as did
  OpenFile on errors.
- File.Close() didn't close the object handle of the file.
- Dereferencing a symlink closed its handle several times.
- Lstat() dereferenced symlinks.
---
 driver/driver.go | 61 +++++++++++++++++++++++++++---------------------
 driver/file.go   | 30 +++++++++++++++++++++++-
 2 files changed, 63 insertions(+), 28 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index a7dc785..2e96abf 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -50,6 +50,9 @@ func (driver *BaseDriver) NormalizePath(path string) string {
 // resolveSymlink dereferences `object` (if it's a symlink), following multiple
 // levels of indirection if needed to get to a file system object. If `object`
 // isn't a symlink, this becomes a no-op and returns the handle unmodified.
+//
+// This takes ownership of `object`. The caller must only close the returned
+// handle, and nothing at all if an error occurred.
 func (driver *BaseDriver) resolveSymlink(
 	object extObjectHandle,
 ) (extObjectHandle, disko.DriverError) {
@@ -157,23 +160,12 @@ func (driver *BaseDriver) getObjectAtPathFollowingLink(
 		return nil, err
 	}
 
-	stat := object.Stat()
-	for stat.IsSymlink() {
-		nextObject, err := driver.resolveSymlink(object)
-		object.Close()
-		if err != nil {
-			return nil, err
-		}
-		stat = nextObject.Stat()
-		object = nextObject
-	}
-
-	return object, nil
+	return driver.resolveSymlink(object)
 }
 
 // getContentsOfObject returns the contents of an object as it exists on the
 // file system, regardless of whether it's a file or directory. Symbolic links
-// are not followed.
+// are not followed. The caller is still responsible for closing `object`.
 func (driver *BaseDriver) getContentsOfObject(
 	object extObjectHandle,
 ) ([]byte, disko.DriverError) {
@@ -181,7 +173,6 @@ func (driver *BaseDriver) getContentsOfObject(
 	if err != nil {
 		return nil, disko.ErrIOFailed.Wrap(err)
 	}
-	defer handle.Close()
 
 	stat := object.Stat()
 	buffer := make([]byte, int(stat.Size))
@@ -289,10 +280,15 @@ func (driver *BaseDriver) OpenFile(
 
 	stat := object.Stat()
 	if !stat.IsFile() {
+		object.Close()
 		return File{}, disko.ErrIsADirectory.WithMessage(absPath)
 	}
 
-	return NewFileFromObjectHandle(driver, object, flags)
+	file, err := NewFileFromObjectHandle(driver, object, flags)
+	if err != nil {
+		object.Close()
+	}
+	return file, err
 }
 
 func (driver *BaseDriver) Chdir(path string) error {
@@ -326,6 +322,8 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 		return err
 	}
 
+	defer object.Close()
+
 	chmodObject, ok := object.(disko.SupportsChmodHandle)
 	if !ok {
 		return disko.ErrNotImplemented
@@ -340,6 +338,8 @@ func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 		return err
 	}
 
+	defer object.Close()
+
 	chmownObject, ok := object.(disko.SupportsChownHandle)
 	if !ok {
 		return disko.ErrNotImplemented
@@ -357,6 +357,8 @@ func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
 		return err
 	}
 
+	defer object.Close()
+
 	chmownObject, ok := object.(disko.SupportsChownHandle)
 	if !ok {
 		return disko.ErrNotImplemented
@@ -371,6 +373,8 @@ func (driver *BaseDriver) Chtimes(name string, atime time.Time, mtime time.Time)
 		return err
 	}
 
+	defer object.Close()
+
 	chmownObject, ok := object.(disko.SupportsChtimesHandle)
 	if !ok {
 		return disko.ErrNotImplemented
@@ -485,13 +489,16 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 		return err
 	}
 
+	defer oldHandle.Close()
+
 	absNew := driver.NormalizePath(newname)
 	// Technically checking to see if the file exists before attempting the link
 	// can result in a TOCTOU bug. If this were a more serious project, we would
 	// do some sort of locking or push the check into the underlying implementation.
 	// This is supposed to be a fun little thing, so I'm ignoring that edge case.
-	_, err = driver.getObjectAtPathFollowingLink(absNew)
+	existingHandle, err := driver.getObjectAtPathFollowingLink(absNew)
 	if err == nil {
+		existingHandle.Close()
 		return disko.ErrExists.WithMessage("hard link target already exists: " + absNew)
 	}
 
@@ -501,9 +508,15 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 		return err
 	}
 
-	_, err = linker.CreateHardLink(
+	defer parentHandle.Close()
+
+	newHandle, err := linker.CreateHardLink(
 		unwrapObjectHandle(oldHandle), unwrapObjectHandle(parentHandle), targetName)
-	return err
+	if err != nil {
+		return err
+	}
+	newHandle.Close()
+	return nil
 }
 
 func (driver *BaseDriver) Readlink(path string) (string, error) {
@@ -540,15 +553,8 @@ func (driver *BaseDriver) Lstat(path string) (disko.FileStat, error) {
 	}
 	defer object.Close()
 
-	// Unconditionally try to resolve `object` as a symlink. If it isn't one,
-	// nothing happens and we get `object` back.
-	realObject, err := driver.resolveSymlink(object)
-	if err != nil {
-		return disko.FileStat{}, err
-	}
-	defer realObject.Close()
-
-	return realObject.Stat(), nil
+	// Unlike Stat(), a symlink must not be dereferenced.
+	return object.Stat(), nil
 }
 
 // Create creates a file and opens it for reading and writing. It fails if the
@@ -738,6 +744,7 @@ func (driver *BaseDriver) RemoveAll(path string) error {
 
 	// Block an attempt at `rm -rf /`, because some clown is gonna try it.
 	root := driver.implementation.GetRootDirectory()
+	defer root.Close()
 	if root.SameAs(unwrapObjectHandle(directory)) {
 		return disko.ErrPermissionDenied.WithMessage(
 			"you can't remove the root directory",
diff --git a/driver/file.go b/driver/file.go
index c6d7dff..714394d 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -92,6 +92,9 @@ type File struct {
 	fileInfo     FileInfo
 	ioFlags      disko.IOFlags
 
+	// isClosed is a pointer so that it's shared between copies of the struct.
+	isClosed *bool
+
 	lastReadDirResult    []disko.DirectoryEntry
 	readDirResultPointer int
 }
@@ -103,13 +106,24 @@ func NewFileFromObjectHandle(
 	object extObjectHandle,
 	ioFlags disko.IOFlags,
 ) (File, error) {
+	isClosed := false
+
 	fetchCb := func(index common.LogicalBlock, buffer []byte) error {
+		if isClosed {
+			return disko.ErrFileDescriptorBadState
+		}
 		return object.ReadBlocks(index, buffer)
 	}
 	flushCb := func(index common.LogicalBlock, buffer []byte) error {
+		if isClosed {
+			return disko.ErrFileDescriptorBadState
+		}
 		return object.WriteBlocks(index, buffer)
 	}
 	resizeCb := func(newSize common.LogicalBlock) error {
+		if isClosed {
+			return disko.ErrFileDescriptorBadState
+		}
 		return object.Resize(uint64(newSize))
 	}
 
@@ -132,6 +146,7 @@ func NewFileFromObjectHandle(
 		objectHandle: object,
 		ioFlags:      ioFlags,
 		BasicStream:  stream,
+		isClosed:     &isClosed,
 		fileInfo: FileInfo{
 			FileStat:     stat,
 			absolutePath: object.AbsolutePath(),
@@ -159,8 +174,21 @@ func (file *File) Chown(uid, gid int) error {
 	return disko.ErrNotSupported
 }
 
+// Close writes out all pending changes and releases the object handle. The handle
+// is released even if writing the changes failed.
 func (file *File) Close() error {
-	return file.BasicStream.Close()
+	if *file.isClosed {
+		return disko.ErrFileDescriptorBadState
+	}
+
+	err := file.BasicStream.Close()
+	*file.isClosed = true
+
+	closeErr := file.objectHandle.Close()
+	if err != nil {
+		return err
+	}
+	return closeErr
 }
 
 func (file *File) Name() string {
-- 
2.43.0


From 95bb9b0bbaafda9e091a72fa5aa1d857772bc858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 20/68] fix: resolve relative symlinks against their directory
 and detect all cycles

The target of a relative symlink was resolved against the working directory
instead of the directory containing the link. A cycle that involved an
intermediate directory of a link's target recursed until the stack overflowed.
---
 driver/driver.go | 52 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 2e96abf..0e2e6fc 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -47,6 +47,10 @@ func (driver *BaseDriver) NormalizePath(path string) string {
 	return posixpath.Join(driver.workingDirPath, path)
 }
 
+// maxSymlinksFollowed is the maximum number of symbolic links that are followed
+// when resolving a path.
+const maxSymlinksFollowed = 255
+
 // resolveSymlink dereferences `object` (if it's a symlink), following multiple
 // levels of indirection if needed to get to a file system object. If `object`
 // isn't a symlink, this becomes a no-op and returns the handle unmodified.
@@ -55,6 +59,7 @@ func (driver *BaseDriver) NormalizePath(path string) string {
 // handle, and nothing at all if an error occurred.
 func (driver *BaseDriver) resolveSymlink(
 	object extObjectHandle,
+	linksFollowed *int,
 ) (extObjectHandle, disko.DriverError) {
 	stat := object.Stat()
 	if !stat.IsSymlink() {
@@ -71,7 +76,19 @@ func (driver *BaseDriver) resolveSymlink(
 	pathCache[currentPath] = true
 
 	for stat.IsSymlink() {
+		// A cycle can also go through the intermediate directories of a link's
+		// target, so put a limit on the total number of links we follow.
+		*linksFollowed++
+		if *linksFollowed > maxSymlinksFollowed {
+			object.Close()
+			return nil,
+				disko.ErrLinkCycleDetected.WithMessage(
+					fmt.Sprintf("too many links resolving symlink %q", originalPath),
+				)
+		}
+
 		symlinkText, err := driver.getContentsOfObject(object)
+		linkDirPath := posixpath.Dir(object.AbsolutePath())
 		object.Close()
 
 		if err != nil {
@@ -88,7 +105,12 @@ func (driver *BaseDriver) resolveSymlink(
 
 		// Compute the next path in this chain; if it's already in the cache
 		// then we hit a cycle.
-		nextPath := driver.NormalizePath(string(symlinkText))
+		nextPath := filepath.ToSlash(string(symlinkText))
+		if !posixpath.IsAbs(nextPath) {
+			// Relative links are relative to the directory containing the link.
+			nextPath = posixpath.Join(linkDirPath, nextPath)
+		}
+		nextPath = posixpath.Clean(nextPath)
 		_, exists := pathCache[nextPath]
 		if exists {
 			return nil,
@@ -102,7 +124,7 @@ func (driver *BaseDriver) resolveSymlink(
 		}
 
 		// Get the object at the next path but don't dereference it.
-		object, err = driver.getObjectAtPathNoFollow(nextPath)
+		object, err = driver.lookUpNoFollow(nextPath, linksFollowed)
 		if err != nil {
 			return nil, err
 		}
@@ -122,6 +144,16 @@ func (driver *BaseDriver) resolveSymlink(
 // `path` must be a normalized absolute path.
 func (driver *BaseDriver) getObjectAtPathNoFollow(
 	path string,
+) (extObjectHandle, disko.DriverError) {
+	linksFollowed := 0
+	return driver.lookUpNoFollow(path, &linksFollowed)
+}
+
+// lookUpNoFollow implements [getObjectAtPathNoFollow]. `linksFollowed` counts
+// the symbolic links dereferenced so far.
+func (driver *BaseDriver) lookUpNoFollow(
+	path string,
+	linksFollowed *int,
 ) (extObjectHandle, disko.DriverError) {
 	if path == "/" || path == "" {
 		root := driver.implementation.GetRootDirectory()
@@ -129,7 +161,7 @@ func (driver *BaseDriver) getObjectAtPathNoFollow(
 	}
 
 	parentPath, baseName := posixpath.Dir(path), posixpath.Base(path)
-	parentObject, err := driver.getObjectAtPathFollowingLink(parentPath)
+	parentObject, err := driver.lookUpFollowingLink(parentPath, linksFollowed)
 	if err != nil {
 		return nil, err
 	}
@@ -155,12 +187,22 @@ func (driver *BaseDriver) getObjectAtPathNoFollow(
 func (driver *BaseDriver) getObjectAtPathFollowingLink(
 	path string,
 ) (extObjectHandle, disko.DriverError) {
-	object, err := driver.getObjectAtPathNoFollow(path)
+	linksFollowed := 0
+	return driver.lookUpFollowingLink(path, &linksFollowed)
+}
+
+// lookUpFollowingLink implements [getObjectAtPathFollowingLink]. `linksFollowed`
+// counts the symbolic links dereferenced so far.
+func (driver *BaseDriver) lookUpFollowingLink(
+	path string,
+	linksFollowed *int,
+) (extObjectHandle, disko.DriverError) {
+	object, err := driver.lookUpNoFollow(path, linksFollowed)
 	if err != nil {
 		return nil, err
 	}
 
-	return driver.resolveSymlink(object)
+	return driver.resolveSymlink(object, linksFollowed)
 }
 
 // getContentsOfObject returns the contents of an object as it exists on the
-- 
2.43.0


From d5f2798419dec419d6c737ab7b2ad26b9b67597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 21/68] fix: OpenFile must honor O_EXCL and create the target
 of dangling symlinks

- Create() opened existing files although it's documented to fail.
- Opening a dangling symlink with O_CREATE tried to create an object with the
  name of the link, which already exists.
- A file could be created with a parent that isn't a directory, or with
  directory mode bits.
---
 driver/driver.go | 86 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 78 insertions(+), 8 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 0e2e6fc..78b06d0 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -87,8 +87,7 @@ func (driver *BaseDriver) resolveSymlink(
 				)
 		}
 
-		symlinkText, err := driver.getContentsOfObject(object)
-		linkDirPath := posixpath.Dir(object.AbsolutePath())
+		nextPath, err := driver.readSymlink(object)
 		object.Close()
 
 		if err != nil {
@@ -105,12 +104,6 @@ func (driver *BaseDriver) resolveSymlink(
 
 		// Compute the next path in this chain; if it's already in the cache
 		// then we hit a cycle.
-		nextPath := filepath.ToSlash(string(symlinkText))
-		if !posixpath.IsAbs(nextPath) {
-			// Relative links are relative to the directory containing the link.
-			nextPath = posixpath.Join(linkDirPath, nextPath)
-		}
-		nextPath = posixpath.Clean(nextPath)
 		_, exists := pathCache[nextPath]
 		if exists {
 			return nil,
@@ -260,6 +253,64 @@ func (driver *BaseDriver) createExtObject(
 	return object, nil
 }
 
+// resolveCreationPath returns the absolute path of the file that opening `path`
+// with [disko.O_CREATE] refers to. If `path` is a symlink then this is what it
+// (ultimately) points to, regardless of whether that exists.
+//
+// If `exclusive` is true, this fails if there's already something at `path`,
+// including a symlink.
+func (driver *BaseDriver) resolveCreationPath(
+	path string, exclusive bool,
+) (string, disko.DriverError) {
+	linksFollowed := 0
+	for {
+		object, err := driver.lookUpNoFollow(path, &linksFollowed)
+		if errors.Is(err, disko.ErrNotFound) {
+			return path, nil
+		} else if err != nil {
+			return "", err
+		}
+
+		stat := object.Stat()
+		if exclusive {
+			object.Close()
+			return "", disko.ErrExists.WithMessage(path)
+		} else if !stat.IsSymlink() {
+			object.Close()
+			return path, nil
+		}
+
+		path, err = driver.readSymlink(object)
+		object.Close()
+		if err != nil {
+			return "", err
+		}
+
+		linksFollowed++
+		if linksFollowed > maxSymlinksFollowed {
+			return "", disko.ErrLinkCycleDetected.WithMessage(path)
+		}
+	}
+}
+
+// readSymlink returns the normalized absolute path that a symlink points to. The
+// caller is still responsible for closing `object`.
+func (driver *BaseDriver) readSymlink(
+	object extObjectHandle,
+) (string, disko.DriverError) {
+	symlinkText, err := driver.getContentsOfObject(object)
+	if err != nil {
+		return "", err
+	}
+
+	targetPath := filepath.ToSlash(string(symlinkText))
+	if !posixpath.IsAbs(targetPath) {
+		// Relative links are relative to the directory containing the link.
+		targetPath = posixpath.Join(posixpath.Dir(object.AbsolutePath()), targetPath)
+	}
+	return posixpath.Clean(targetPath), nil
+}
+
 // OpenFile opens a file for I/O.
 func (driver *BaseDriver) OpenFile(
 	path string,
@@ -269,6 +320,9 @@ func (driver *BaseDriver) OpenFile(
 	absPath := driver.NormalizePath(path)
 	ioFlags := disko.IOFlags(flags)
 
+	// The object being opened is always a file, ignore any type bits.
+	perm &^= os.ModeType
+
 	if ioFlags.RequiresWritePerm() && !driver.mountFlags.CanWrite() {
 		return File{}, disko.ErrReadOnlyFileSystem.WithMessage(
 			fmt.Sprintf(
@@ -282,6 +336,16 @@ func (driver *BaseDriver) OpenFile(
 	var parentObject extObjectHandle
 	var err error
 
+	if ioFlags.Create() {
+		// If the file is a symlink to something that doesn't exist, the target
+		// of the link gets created, not the link. In exclusive mode a symlink
+		// counts as an existing file.
+		absPath, err = driver.resolveCreationPath(absPath, ioFlags.Exclusive())
+		if err != nil {
+			return File{}, err
+		}
+	}
+
 	object, err = driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
 		// An error occurred. If the file is missing we may be able to create it
@@ -299,6 +363,12 @@ func (driver *BaseDriver) OpenFile(
 					return File{}, err
 				}
 
+				parentStat := parentObject.Stat()
+				if !parentStat.IsDir() {
+					parentObject.Close()
+					return File{}, disko.ErrNotADirectory.WithMessage(parentDir)
+				}
+
 				object, err = driver.createExtObject(
 					baseName,
 					parentObject,
-- 
2.43.0


From d1c83aeb7b7c5f79535dbd035b0fdb967344922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 22/68] fix: Mkdir and MkdirAll must check what already exists

- Mkdir called CreateObject for names that already exist.
- MkdirAll crashed if the parent directory was missing, ignored errors when
  creating it, and created a second object if the directory already existed.
---
 driver/driver.go | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 78b06d0..538666f 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -806,6 +806,15 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 		)
 	}
 
+	// CreateObject() must not be called for something that already exists.
+	existingObject, err := driver.getObjectAtPathNoFollow(absPath)
+	if err == nil {
+		existingObject.Close()
+		return disko.ErrExists.WithMessage(absPath)
+	} else if !errors.Is(err, disko.ErrNotFound) {
+		return err
+	}
+
 	object, err := driver.createExtObject(baseName, parentObject, perm)
 	if err == nil {
 		object.Close()
@@ -815,30 +824,28 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 
 func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 	absPath := driver.NormalizePath(path)
-	parentDir, baseName := posixpath.Dir(absPath), posixpath.Base(absPath)
 
-	// Force the permissions flags to indicate this is a directory so that the
-	// caller doesn't have to remember to do it themselves.
-	perm &^= os.ModeType
-	perm |= os.ModeDir
+	object, err := driver.getObjectAtPathFollowingLink(absPath)
+	if err == nil {
+		// Already exists, which is fine if it's a directory.
+		defer object.Close()
 
-	parentObject, err := driver.getObjectAtPathFollowingLink(parentDir)
-	if err != nil {
-		if errors.Is(err, disko.ErrNotFound) {
-			// Parent directory doesn't exist, create it.
-			driver.MkdirAll(parentDir, perm)
-		} else {
-			// Different error, we won't handle it.
-			return err
+		stat := object.Stat()
+		if !stat.IsDir() {
+			return disko.ErrNotADirectory.WithMessage(absPath)
 		}
+		return nil
+	} else if !errors.Is(err, disko.ErrNotFound) {
+		// Different error, we won't handle it.
+		return err
 	}
-	defer parentObject.Close()
 
-	object, err := driver.createExtObject(baseName, parentObject, perm)
-	if err == nil {
-		object.Close()
+	// The root directory always exists so this recursion will terminate.
+	mkdirErr := driver.MkdirAll(posixpath.Dir(absPath), perm)
+	if mkdirErr != nil {
+		return mkdirErr
 	}
-	return err
+	return driver.Mkdir(absPath, perm)
 }
 
 func (driver *BaseDriver) RemoveAll(path string) error {
-- 
2.43.0


From 82f56f2014326a802e4ddb73490e0a0cc11e4aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 23/68] fix: Link must check its arguments as promised to
 implementations

It allowed hard links to directories, treated every lookup error (and
dangling symlinks) as a nonexistent target, and didn't ensure that the parent
of the new link is a directory.
---
 driver/driver.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/driver/driver.go b/driver/driver.go
index 538666f..df5d153 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -603,15 +603,24 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 
 	defer oldHandle.Close()
 
+	oldStat := oldHandle.Stat()
+	if oldStat.IsDir() {
+		return disko.ErrNotPermitted.WithMessage(
+			"can't create a hard link to a directory: " + absOld,
+		)
+	}
+
 	absNew := driver.NormalizePath(newname)
 	// Technically checking to see if the file exists before attempting the link
 	// can result in a TOCTOU bug. If this were a more serious project, we would
 	// do some sort of locking or push the check into the underlying implementation.
 	// This is supposed to be a fun little thing, so I'm ignoring that edge case.
-	existingHandle, err := driver.getObjectAtPathFollowingLink(absNew)
+	existingHandle, err := driver.getObjectAtPathNoFollow(absNew)
 	if err == nil {
 		existingHandle.Close()
 		return disko.ErrExists.WithMessage("hard link target already exists: " + absNew)
+	} else if !errors.Is(err, disko.ErrNotFound) {
+		return err
 	}
 
 	targetParentPath, targetName := posixpath.Dir(absNew), posixpath.Base(absNew)
@@ -622,6 +631,11 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 
 	defer parentHandle.Close()
 
+	parentStat := parentHandle.Stat()
+	if !parentStat.IsDir() {
+		return disko.ErrNotADirectory.WithMessage(targetParentPath)
+	}
+
 	newHandle, err := linker.CreateHardLink(
 		unwrapObjectHandle(oldHandle), unwrapObjectHandle(parentHandle), targetName)
 	if err != nil {
-- 
2.43.0


From 66f4f320b25f813d0ed05ab0139601f4f3c6f675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 24/68] fix: Remove and RemoveAll must remove what they're told
 to

- Both followed symlinks and deleted the target instead of the link.
- RemoveAll emptied the directory but didn't delete the directory itself.
- Remove() could be used on the root directory.
---
 driver/driver.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index df5d153..3f2c068 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -723,7 +723,14 @@ func removeDotsFromSlice(arr []string) []string {
 
 func (driver *BaseDriver) Remove(path string) error {
 	absPath := driver.NormalizePath(path)
-	object, err := driver.getObjectAtPathFollowingLink(absPath)
+	if absPath == "/" {
+		return disko.ErrPermissionDenied.WithMessage(
+			"you can't remove the root directory",
+		)
+	}
+
+	// Symlinks are removed themselves, not what they point to.
+	object, err := driver.getObjectAtPathNoFollow(absPath)
 	if err != nil {
 		return err
 	}
@@ -748,7 +755,7 @@ func (driver *BaseDriver) Remove(path string) error {
 				fmt.Sprintf("can't remove %q: directory not empty", absPath),
 			)
 		}
-	} else if !stat.IsFile() {
+	} else if !stat.IsFile() && !stat.IsSymlink() {
 		return disko.ErrInvalidArgument.WithMessage(
 			fmt.Sprintf("can't remove %q: not a file or directory", absPath),
 		)
@@ -864,7 +871,7 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 
 func (driver *BaseDriver) RemoveAll(path string) error {
 	path = driver.NormalizePath(path)
-	directory, err := driver.getObjectAtPathFollowingLink(path)
+	directory, err := driver.getObjectAtPathNoFollow(path)
 	if err != nil {
 		return err
 	}
@@ -884,10 +891,15 @@ func (driver *BaseDriver) RemoveAll(path string) error {
 		)
 	}
 
-	return driver.removeDirectory(directory)
+	rmErr := driver.removeDirectory(directory)
+	if rmErr != nil {
+		return rmErr
+	}
+	return directory.Unlink()
 }
 
-// removeDirectory is equivalent to `rm -rf` for a directory handle.
+// removeDirectory deletes everything inside a directory, but not the directory
+// itself.
 //
 // Deletion is depth-first, and terminates on the first error encountered.
 // Ownership and other permissions are not checked.
-- 
2.43.0


From 6a8558752c737730292bdec84149d041b2fb20ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 25/68] fix: ReadDir must fail on files, and its entries must
 support Stat()

Stat() on a directory entry crashed because it called the method of the nil
embedded interface.
---
 driver/dirent.go | 5 +++++
 driver/driver.go | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/driver/dirent.go b/driver/dirent.go
index 7579a01..dfe8ef3 100644
--- a/driver/dirent.go
+++ b/driver/dirent.go
@@ -51,6 +51,11 @@ func (dirent DirectoryEntry) ModTime() time.Time {
 	return dirent.stat.LastModified
 }
 
+// Stat implements [disko.DirectoryEntry].
+func (dirent DirectoryEntry) Stat() disko.FileStat {
+	return dirent.stat
+}
+
 func (dirent DirectoryEntry) Sys() any {
 	return dirent.stat
 }
diff --git a/driver/driver.go b/driver/driver.go
index 3f2c068..3fbf9d9 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -556,6 +556,10 @@ func (driver *BaseDriver) ReadDir(path string) ([]disko.DirectoryEntry, error) {
 	}
 	defer directory.Close()
 
+	stat := directory.Stat()
+	if !stat.IsDir() {
+		return nil, disko.ErrNotADirectory.WithMessage(absPath)
+	}
 	return driver.readDir(directory)
 }
 
-- 
2.43.0


From 6a3d283a2720e32a4ade297086954baaf3fa9dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 26/68] fix: WriteFile must report errors from flushing the
 data

---
 driver/driver.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 3fbf9d9..2a80af3 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -799,10 +799,15 @@ func (driver *BaseDriver) WriteFile(
 	if err != nil {
 		return err
 	}
-	defer handle.Close()
 
 	_, err = handle.Write(data)
-	return err
+
+	// Closing the file flushes the data, so we can't ignore errors here.
+	closeErr := handle.Close()
+	if err != nil {
+		return err
+	}
+	return closeErr
 }
 
 func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
-- 
2.43.0


From fa2a236b2065430e23aadcf2a9e95352b355cb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 27/68] fix: enforce the mount flags on all operations

Only opening a file for writing was checked. A volume mounted read-only could
be modified with Truncate, Mkdir, Link, Remove, Chmod, ... and files could be
created by opening them read-only with O_CREATE. On the other hand, creating
new files required write permission although insert permission is enough.
---
 api.go           |  8 ++++++
 driver/driver.go | 65 ++++++++++++++++++++++++++++++++++++++++++------
 driver/file.go   |  8 ++++++
 3 files changed, 73 insertions(+), 8 deletions(-)

diff --git a/api.go b/api.go
index 5cce507..b9876c7 100644
--- a/api.go
+++ b/api.go
@@ -63,6 +63,14 @@ func (flags MountFlags) CanWrite() bool {
 	return flags&MountFlagsAllowWrite != 0
 }
 
+func (flags MountFlags) CanInsert() bool {
+	return flags&MountFlagsAllowInsert != 0
+}
+
+func (flags MountFlags) CanAdminister() bool {
+	return flags&MountFlagsAllowAdminister != 0
+}
+
 func (flags MountFlags) CanDelete() bool {
 	return flags&MountFlagsAllowDelete != 0
 }
diff --git a/driver/driver.go b/driver/driver.go
index 2a80af3..50f227e 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -323,13 +323,19 @@ func (driver *BaseDriver) OpenFile(
 	// The object being opened is always a file, ignore any type bits.
 	perm &^= os.ModeType
 
-	if ioFlags.RequiresWritePerm() && !driver.mountFlags.CanWrite() {
-		return File{}, disko.ErrReadOnlyFileSystem.WithMessage(
-			fmt.Sprintf(
-				"can't open %q for writing: image is mounted read-only",
-				absPath,
-			),
-		)
+	// Existing files can't be modified without write permissions, but a new file
+	// can be created and written to with insert permissions.
+	readOnlyErr := disko.ErrReadOnlyFileSystem.WithMessage(
+		fmt.Sprintf(
+			"can't open %q for writing: image is mounted read-only",
+			absPath,
+		),
+	)
+	mustBeNew := ioFlags.RequiresWritePerm() && !driver.mountFlags.CanWrite()
+	canCreate := ioFlags.Create() && driver.mountFlags.CanInsert()
+
+	if mustBeNew && !canCreate {
+		return File{}, readOnlyErr
 	}
 
 	var object extObjectHandle
@@ -352,7 +358,11 @@ func (driver *BaseDriver) OpenFile(
 		// and proceed.
 		if errors.Is(err, disko.ErrNotFound) {
 			// File does not exist, can we create it?
-			if ioFlags.Create() {
+			if ioFlags.Create() && !canCreate {
+				return File{}, disko.ErrReadOnlyFileSystem.WithMessage(
+					fmt.Sprintf("can't create %q: no insert permission", absPath),
+				)
+			} else if ioFlags.Create() {
 				// To create the missing file, we need to get a handle for its
 				// parent directory, then call CreateObject() for the file in
 				// that directory.
@@ -388,6 +398,9 @@ func (driver *BaseDriver) OpenFile(
 		if err != nil {
 			return File{}, err
 		}
+	} else if mustBeNew {
+		object.Close()
+		return File{}, readOnlyErr
 	}
 
 	stat := object.Stat()
@@ -428,6 +441,10 @@ func (driver *BaseDriver) chdirToObject(object extObjectHandle) error {
 }
 
 func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
+	if !driver.mountFlags.CanAdminister() {
+		return disko.ErrReadOnlyFileSystem.WithMessage("no permission to change mode flags")
+	}
+
 	absPath := driver.NormalizePath(name)
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
@@ -444,6 +461,10 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 }
 
 func (driver *BaseDriver) Chown(name string, uid, gid int) error {
+	if !driver.mountFlags.CanAdminister() {
+		return disko.ErrReadOnlyFileSystem.WithMessage("no permission to change ownership")
+	}
+
 	absPath := driver.NormalizePath(name)
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
@@ -463,6 +484,10 @@ func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 // [BaseDriver.getObjectAtPathNoFollow] instead of [BaseDriver.getObjectAtPathFollowingLink].
 // Surely there's a cleaner way to do this.
 func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
+	if !driver.mountFlags.CanAdminister() {
+		return disko.ErrReadOnlyFileSystem.WithMessage("no permission to change ownership")
+	}
+
 	absPath := driver.NormalizePath(name)
 	object, err := driver.getObjectAtPathNoFollow(absPath)
 	if err != nil {
@@ -479,6 +504,10 @@ func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
 }
 
 func (driver *BaseDriver) Chtimes(name string, atime time.Time, mtime time.Time) error {
+	if !driver.mountFlags.CanWrite() {
+		return disko.ErrReadOnlyFileSystem.WithMessage("no permission to change timestamps")
+	}
+
 	absPath := driver.NormalizePath(name)
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
@@ -594,6 +623,10 @@ func (driver *BaseDriver) readDir(
 }
 
 func (driver *BaseDriver) Link(oldname, newname string) error {
+	if !driver.mountFlags.CanInsert() {
+		return disko.ErrReadOnlyFileSystem.WithMessage("no permission to create links")
+	}
+
 	linker, ok := driver.implementation.(disko.HardLinkImplementer)
 	if !ok {
 		return disko.ErrNotSupported
@@ -726,6 +759,10 @@ func removeDotsFromSlice(arr []string) []string {
 }
 
 func (driver *BaseDriver) Remove(path string) error {
+	if !driver.mountFlags.CanDelete() {
+		return disko.ErrReadOnlyFileSystem.WithMessage("no permission to delete")
+	}
+
 	absPath := driver.NormalizePath(path)
 	if absPath == "/" {
 		return disko.ErrPermissionDenied.WithMessage(
@@ -770,6 +807,10 @@ func (driver *BaseDriver) Remove(path string) error {
 
 // Truncate sets the size of a file to 0.
 func (driver *BaseDriver) Truncate(path string) error {
+	if !driver.mountFlags.CanWrite() {
+		return disko.ErrReadOnlyFileSystem.WithMessage("no permission to modify files")
+	}
+
 	absPath := driver.NormalizePath(path)
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
@@ -811,6 +852,10 @@ func (driver *BaseDriver) WriteFile(
 }
 
 func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
+	if !driver.mountFlags.CanInsert() {
+		return disko.ErrReadOnlyFileSystem.WithMessage("no permission to create directories")
+	}
+
 	// Force the permissions flags to indicate this is a directory so that the
 	// caller doesn't have to remember to do it themselves.
 	perm &^= os.ModeType
@@ -879,6 +924,10 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 }
 
 func (driver *BaseDriver) RemoveAll(path string) error {
+	if !driver.mountFlags.CanDelete() {
+		return disko.ErrReadOnlyFileSystem.WithMessage("no permission to delete")
+	}
+
 	path = driver.NormalizePath(path)
 	directory, err := driver.getObjectAtPathNoFollow(path)
 	if err != nil {
diff --git a/driver/file.go b/driver/file.go
index 714394d..5e355c7 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -159,6 +159,10 @@ func (file *File) Chdir() error {
 }
 
 func (file *File) Chmod(mode os.FileMode) error {
+	if !file.owningDriver.mountFlags.CanAdminister() {
+		return disko.ErrReadOnlyFileSystem.WithMessage("no permission to change mode flags")
+	}
+
 	chmodHandle, ok := file.objectHandle.(disko.SupportsChmodHandle)
 	if ok {
 		return chmodHandle.Chmod(mode)
@@ -167,6 +171,10 @@ func (file *File) Chmod(mode os.FileMode) error {
 }
 
 func (file *File) Chown(uid, gid int) error {
+	if !file.owningDriver.mountFlags.CanAdminister() {
+		return disko.ErrReadOnlyFileSystem.WithMessage("no permission to change ownership")
+	}
+
 	chownHandle, ok := file.objectHandle.(disko.SupportsChownHandle)
 	if ok {
 		return chownHandle.Chown(uid, gid)
-- 
2.43.0


From 0f15767ba91c63d142fc19f68776e1f277c719bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 28/68] fix: only pass permission bits to Chmod, as promised to
 implementations

---
 driver/driver.go | 2 +-
 driver/file.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 50f227e..5e195a9 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -457,7 +457,7 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 	if !ok {
 		return disko.ErrNotImplemented
 	}
-	return chmodObject.Chmod(mode)
+	return chmodObject.Chmod(mode & os.ModePerm)
 }
 
 func (driver *BaseDriver) Chown(name string, uid, gid int) error {
diff --git a/driver/file.go b/driver/file.go
index 5e355c7..5d897ec 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -165,7 +165,7 @@ func (file *File) Chmod(mode os.FileMode) error {
 
 	chmodHandle, ok := file.objectHandle.(disko.SupportsChmodHandle)
 	if ok {
-		return chmodHandle.Chmod(mode)
+		return chmodHandle.Chmod(mode & os.ModePerm)
 	}
 	return disko.ErrNotSupported
 }
-- 
2.43.0


From dfa90a5e011914bf316ad23fd43251de49abddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 29/68] fix: resizing an open file must use bytes and keep its
 exact size

- The resize callback passed the number of blocks to ObjectHandle.Resize(),
  which takes a number of bytes, so growing a file truncated it instead.
- The exact size of the file was never set, only whole blocks.
- File.Stat() returned the size the file had when it was opened.
---
 driver/file.go | 76 ++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 70 insertions(+), 6 deletions(-)

diff --git a/driver/file.go b/driver/file.go
index 5d897ec..6828ea9 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -120,17 +120,21 @@ func NewFileFromObjectHandle(
 		}
 		return object.WriteBlocks(index, buffer)
 	}
-	resizeCb := func(newSize common.LogicalBlock) error {
+
+	stat := object.Stat()
+
+	resizeCb := func(newTotalBlocks common.LogicalBlock) error {
 		if isClosed {
 			return disko.ErrFileDescriptorBadState
 		}
-		return object.Resize(uint64(newSize))
+		return object.Resize(uint64(newTotalBlocks) * uint64(stat.BlockSize))
 	}
 
-	stat := object.Stat()
+	// Ignore any blocks allocated past the end of the file, if there are any.
+	numBlocks := (stat.Size + stat.BlockSize - 1) / stat.BlockSize
 	blockCache := blockcache.New(
 		uint(stat.BlockSize),
-		uint(stat.NumBlocks),
+		uint(min(numBlocks, stat.NumBlocks)),
 		fetchCb,
 		flushCb,
 		resizeCb,
@@ -189,7 +193,7 @@ func (file *File) Close() error {
 		return disko.ErrFileDescriptorBadState
 	}
 
-	err := file.BasicStream.Close()
+	err := file.Sync()
 	*file.isClosed = true
 
 	closeErr := file.objectHandle.Close()
@@ -199,6 +203,63 @@ func (file *File) Close() error {
 	return closeErr
 }
 
+// Sync writes out all pending changes and updates the size of the object.
+func (file *File) Sync() error {
+	err := file.BasicStream.Sync()
+	if err != nil || !file.ioFlags.Write() {
+		return err
+	}
+	return file.updateObjectSize()
+}
+
+// updateObjectSize sets the size of the object to the exact size of the stream.
+// This is necessary because the block cache can only resize in whole blocks.
+func (file *File) updateObjectSize() error {
+	stat := file.objectHandle.Stat()
+	if stat.Size == file.Size() {
+		return nil
+	}
+
+	return file.objectHandle.Resize(uint64(file.Size()))
+}
+
+// finishWrite updates the size of the object after an operation that modified
+// the file, if it was opened for synchronous I/O.
+func (file *File) finishWrite(err error) error {
+	if err == nil && file.ioFlags.Synchronous() {
+		return file.updateObjectSize()
+	}
+	return err
+}
+
+// ReadFrom implements [io.ReaderFrom].
+func (file *File) ReadFrom(r io.Reader) (n int64, err error) {
+	n, err = file.BasicStream.ReadFrom(r)
+	return n, file.finishWrite(err)
+}
+
+// Truncate is equivalent to [os.File.Truncate].
+func (file *File) Truncate(size int64) error {
+	return file.finishWrite(file.BasicStream.Truncate(size))
+}
+
+// Write implements [io.Writer].
+func (file *File) Write(buffer []byte) (int, error) {
+	n, err := file.BasicStream.Write(buffer)
+	return n, file.finishWrite(err)
+}
+
+// WriteAt implements [io.WriterAt].
+func (file *File) WriteAt(buffer []byte, offset int64) (int, error) {
+	n, err := file.BasicStream.WriteAt(buffer, offset)
+	return n, file.finishWrite(err)
+}
+
+// WriteString implements [io.StringWriter].
+func (file *File) WriteString(s string) (int, error) {
+	return file.Write([]byte(s))
+}
+
 func (file *File) Name() string {
 	return file.objectHandle.Name()
 }
@@ -290,5 +351,8 @@ func (file *File) Readdirnames(n int) ([]string, error) {
 }
 
 func (file *File) Stat() (os.FileInfo, error) {
-	return file.fileInfo.Info()
+	// The size in the cached information is the one from when the file was opened.
+	info := file.fileInfo
+	info.FileStat.Size = file.BasicStream.Size()
+	return &info, nil
 }
-- 
2.43.0


From a38265582e5eca1734bca53c25f458f15723a28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 30/68] fix: reading all entries of an empty directory isn't an
 error

[os.File.ReadDir] only returns io.EOF if the number of entries is positive.
---
 driver/file.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/driver/file.go b/driver/file.go
index 6828ea9..1cdd42b 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -293,10 +293,14 @@ func (file *File) ReadDir(n int) ([]os.DirEntry, error) {
 
 	result := make([]os.DirEntry, numToCopy)
 
-	// If there are no entries remaining, return an empty slice and io.EOF.
+	// If there are no entries remaining, return an empty slice. It's only an EOF
+	// error if the caller asked for a specific number of entries.
 	if entriesRemaining == 0 {
 		file.lastReadDirResult = nil
 		file.readDirResultPointer = 0
+		if n <= 0 {
+			return result, nil
+		}
 		return result, io.EOF
 	}
 
-- 
2.43.0


From d6befe6c9b6bc0aa9d80568399c2e78e2938095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 31/68] fix: FAT8 must allow reading the last sector, and
 bounds must not overflow

ReadDiskBlocks refused to read the last sector of the image, while huge sector
numbers wrapped around and passed the check.
---
 file_systems/fat8/iobase.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat8/iobase.go b/file_systems/fat8/iobase.go
index d9dab62..00143d6 100644
--- a/file_systems/fat8/iobase.go
+++ b/file_systems/fat8/iobase.go
@@ -10,7 +10,8 @@ import (
 // BLOCK-LEVEL ACCESS ==========================================================
 
 func (driver *FAT8Driver) ReadDiskBlocks(start PhysicalBlock, count uint) ([]byte, error) {
-	if (uint(start) + count) >= uint(driver.stat.TotalBlocks) {
+	totalBlocks := uint(driver.stat.TotalBlocks)
+	if count > totalBlocks || uint(start) > totalBlocks-count {
 		return nil, fmt.Errorf(
 			"refusing to read past end of image: %d blocks at %d exceeds limit of %d",
 			start,
@@ -35,7 +36,8 @@ func (driver *FAT8Driver) WriteDiskBlocks(start PhysicalBlock, data []byte) erro
 	}
 
 	numBlocksToWrite := uint64(len(data) / 128)
-	if uint64(start)+numBlocksToWrite > driver.stat.TotalBlocks {
+	totalBlocks := driver.stat.TotalBlocks
+	if numBlocksToWrite > totalBlocks || uint64(start) > totalBlocks-numBlocksToWrite {
 		return disko.ErrIOFailed.WithMessage(
 			fmt.Sprintf(
 				"refusing to write past end of image: %d blocks at %d exceeds limit of %d",
-- 
2.43.0


From 08413b6c6f8349203618b9e708942a5d8cf351e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 32/68] fix: FAT8 cluster reads and writes must use the same
 sectors

WriteAbsoluteCluster multiplied by the size of a track instead of a cluster,
and ReadFileCluster didn't take into account that clusters start at 1.
---
 file_systems/fat8/iobase.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat8/iobase.go b/file_systems/fat8/iobase.go
index 00143d6..37c477b 100644
--- a/file_systems/fat8/iobase.go
+++ b/file_systems/fat8/iobase.go
@@ -90,7 +90,7 @@ func (driver *FAT8Driver) WriteAbsoluteCluster(clusterID PhysicalCluster, data [
 			len(data))
 	}
 
-	physicalBlock := uint(clusterID-1) * driver.geometry.SectorsPerTrack
+	physicalBlock := uint(clusterID-1) * driver.geometry.SectorsPerCluster
 	return driver.WriteDiskBlocks(PhysicalBlock(physicalBlock), data)
 }
 
@@ -147,8 +147,7 @@ func (driver *FAT8Driver) ReadFileCluster(
 	}
 
 	physicalCluster := dirent.clusters[cluster]
-	physicalBlock := PhysicalBlock(uint(physicalCluster) * driver.geometry.SectorsPerCluster)
-	return driver.ReadDiskBlocks(physicalBlock, driver.geometry.SectorsPerCluster)
+	return driver.ReadAbsoluteCluster(physicalCluster)
 }
 
 func (driver *FAT8Driver) WriteFileCluster(
-- 
2.43.0


From fa03c9f9f63be7356dba9caf167438814bfeb546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 33/68] fix: FAT8 formatting must reserve the directory's
 clusters

It marked the entries at the track number instead of the cluster number as
reserved, and ignored errors from resizing the image.
---
 file_systems/fat8/formattingdriver.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat8/formattingdriver.go b/file_systems/fat8/formattingdriver.go
index 6ea1815..a83c58f 100644
--- a/file_systems/fat8/formattingdriver.go
+++ b/file_systems/fat8/formattingdriver.go
@@ -60,7 +60,10 @@ func (driver *FAT8Driver) FormatImage(options disks.BasicFormatterOptions) error
 
 	// Create a blank image filled with null bytes
 	fileSize := 128 * geo.TrueTotalTracks * geo.SectorsPerTrack
-	driver.image.Truncate(int64(fileSize))
+	err = driver.image.Truncate(int64(fileSize))
+	if err != nil {
+		return err
+	}
 
 	// According to the documentation, a newly formatted image must have the
 	// directory entries filled with 0xFF. Write out FF to all the dirents, up
@@ -86,7 +89,7 @@ func (driver *FAT8Driver) FormatImage(options disks.BasicFormatterOptions) error
 	// reserved by putting 0xFE in its cluster entry. (It's always the middle
 	// track.)
 	fat := bytes.Repeat([]byte{0xff}, int(geo.SectorsPerFAT)*128)
-	directoryClusterNumber := uint(geo.DirectoryTrackStart) / geo.SectorsPerTrack
+	directoryClusterNumber := uint(geo.DirectoryTrackStart) / geo.SectorsPerCluster
 	fat[directoryClusterNumber] = 0xfe
 	fat[directoryClusterNumber+1] = 0xfe
 
-- 
2.43.0


From 869a96e17cae067b404e6f8af4247d953af8b435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 34/68] fix: FAT8 images must be mountable

Mount() didn't set the number of blocks of the image, so reading the FAT was
refused as being past the end and mounting always failed. The list of free
clusters included FAT entries past the last cluster.
---
 file_systems/fat8/driver.go           |  8 +++-
 file_systems/fat8/formattingdriver.go | 53 +++++++++++++++------------
 2 files changed, 36 insertions(+), 25 deletions(-)

diff --git a/file_systems/fat8/driver.go b/file_systems/fat8/driver.go
index 1fae1ba..be834b1 100644
--- a/file_systems/fat8/driver.go
+++ b/file_systems/fat8/driver.go
@@ -67,6 +67,7 @@ func (driver *FAT8Driver) Mount(flags disko.MountFlags) error {
 		return disko.ErrFileSystemCorrupted.Wrap(err)
 	}
 	driver.geometry = geo
+	driver.stat = makeFSStat(geo, uint64(offset)/128)
 
 	// All FATs are identical on a clean volume, so we only need to store the
 	// first one. We might add dirty volume checking later.
@@ -77,12 +78,17 @@ func (driver *FAT8Driver) Mount(flags disko.MountFlags) error {
 	driver.fat = fat
 
 	// Build a list of all currently free clusters.
-	for i, clusterNumber := range fat {
+	driver.freeClusters = nil
+	for i, clusterNumber := range fat[:geo.TotalClusters] {
 		if clusterNumber == 0xff {
 			driver.freeClusters = append(driver.freeClusters, uint8(i+1))
 		}
 	}
 
+	blocksFree := uint64(len(driver.freeClusters)) * uint64(geo.SectorsPerCluster)
+	driver.stat.BlocksFree = blocksFree
+	driver.stat.BlocksAvailable = blocksFree
+
 	// Get the info sector, which always immediately precedes the FATs. The first
 	// byte of the info sector tells us what the default attributes should be for
 	// new files; the rest is not defined by the standard.
diff --git a/file_systems/fat8/formattingdriver.go b/file_systems/fat8/formattingdriver.go
index a83c58f..17af761 100644
--- a/file_systems/fat8/formattingdriver.go
+++ b/file_systems/fat8/formattingdriver.go
@@ -32,31 +32,8 @@ func (driver *FAT8Driver) FormatImage(options disks.BasicFormatterOptions) error
 		return err
 	}
 
-	// We reserve one track for the directory, so the total number of available
-	// blocks is one track's worth of blocks fewer.
-	availableBlocks := uint64((geo.TotalTracks - 1) * geo.SectorsPerTrack)
-
-	// The maximum number of files is:
-	// (SectorsPerTrack - 1 - (FatSizeInSectors * 3)) * DirentsPerSector
-	//   * We subtract one for the information sector.
-	//   * A directory entry is 16 bytes, so there are 8 dirents per sector.
-	direntSectors := geo.SectorsPerTrack - 1 - (geo.SectorsPerFAT * 3)
-	totalDirents := direntSectors * 8
-
 	driver.geometry = geo
-	driver.stat = disko.FSStat{
-		BlockSize:       128,
-		TotalBlocks:     totalBlocks,
-		BlocksFree:      availableBlocks,
-		BlocksAvailable: availableBlocks,
-		Files:           0,
-		FilesFree:       uint64(totalDirents),
-		// This isn't completely accurate; names are 6.3 format so the longest
-		// bare name is six characters, plus an extra three for the extension,
-		// plus one more for the ".". Problem is, "ABCDEFGHI" is interpreted as
-		// "ABCDEF.GHI" because of the implicit period.
-		MaxNameLength: 10,
-	}
+	driver.stat = makeFSStat(geo, totalBlocks)
 
 	// Create a blank image filled with null bytes
 	fileSize := 128 * geo.TrueTotalTracks * geo.SectorsPerTrack
@@ -97,3 +74,31 @@ func (driver *FAT8Driver) FormatImage(options disks.BasicFormatterOptions) error
 	allFATs := bytes.Repeat(fat, 3)
 	return driver.WriteDiskBlocks(geo.FATsStart, allFATs)
 }
+
+// makeFSStat creates the file system statistics for an empty image.
+func makeFSStat(geo Geometry, totalBlocks uint64) disko.FSStat {
+	// We reserve one track for the directory, so the total number of available
+	// blocks is one track's worth of blocks fewer.
+	availableBlocks := uint64((geo.TotalTracks - 1) * geo.SectorsPerTrack)
+
+	// The maximum number of files is:
+	// (SectorsPerTrack - 1 - (FatSizeInSectors * 3)) * DirentsPerSector
+	//   * We subtract one for the information sector.
+	//   * A directory entry is 16 bytes, so there are 8 dirents per sector.
+	direntSectors := geo.SectorsPerTrack - 1 - (geo.SectorsPerFAT * 3)
+	totalDirents := direntSectors * 8
+
+	return disko.FSStat{
+		BlockSize:       128,
+		TotalBlocks:     totalBlocks,
+		BlocksFree:      availableBlocks,
+		BlocksAvailable: availableBlocks,
+		Files:           0,
+		FilesFree:       uint64(totalDirents),
+		// This isn't completely accurate; names are 6.3 format so the longest
+		// bare name is six characters, plus an extra three for the extension,
+		// plus one more for the ".". Problem is, "ABCDEFGHI" is interpreted as
+		// "ABCDEF.GHI" because of the implicit period.
+		MaxNameLength: 10,
+	}
+}
-- 
2.43.0


From 779b0036e95ce3becd4f44f092d38d7919e83a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:10 +0000
Subject: [PATCH 35/68] fix: a wrapped stream failing with an unexpected EOF
 error isn't the end of the stream

---
 file_systems/common/blockcache/blockcache.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index f839272..6dd19b7 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -138,12 +138,20 @@ func WrapStream(
 		// A single Read() is allowed to return fewer bytes than requested, so
 		// keep going until we have the whole block. The stream may end partway
 		// through (or even before) the block; anything past the end is null.
-		n, err := io.ReadFull(stream, buffer)
-		if err == io.EOF || err == io.ErrUnexpectedEOF {
-			clear(buffer[n:])
-			err = nil
+		// NB: io.ReadFull() can't be used since its io.ErrUnexpectedEOF can't be
+		// told apart from the stream failing with that same error.
+		for n := 0; n < len(buffer); {
+			count, err := stream.Read(buffer[n:])
+			n += count
+
+			if err == io.EOF {
+				clear(buffer[n:])
+				break
+			} else if err != nil && n < len(buffer) {
+				return err
+			}
 		}
-		return err
+		return nil
 	}
 
 	fetchCb := func(block c.LogicalBlock, buffer []byte) error {
-- 
2.43.0


From ff1a98139c19f2d64997d4a6b018ef66c098fb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:17 +0000
Subject: [PATCH 36/68] fix: report a failure to close the output of zipimage
 and unzipimage

---
 cmd/unzipimage/main.go | 4 +++-
 cmd/zipimage/main.go   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/unzipimage/main.go b/cmd/unzipimage/main.go
index b5a88d7..4a08a9e 100644
--- a/cmd/unzipimage/main.go
+++ b/cmd/unzipimage/main.go
@@ -33,9 +33,11 @@ func main() {
 			os.Stderr, "Failed to open file for writing: `%v`: %s\n", outputFilePath, errOut)
 		os.Exit(1)
 	}
-	defer outFile.Close()
 
 	nWritten, err := compression.DecompressImage(sourceFile, outFile)
+	if closeErr := outFile.Close(); err == nil {
+		err = closeErr
+	}
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "Error expanding file: %s\n", err)
 		os.Exit(2)
diff --git a/cmd/zipimage/main.go b/cmd/zipimage/main.go
index c26bea7..920107c 100644
--- a/cmd/zipimage/main.go
+++ b/cmd/zipimage/main.go
@@ -33,9 +33,11 @@ func main() {
 			os.Stderr, "failed to open file for writing: `%v`: %s\n", outputFilePath, errOut)
 		os.Exit(1)
 	}
-	defer outFile.Close()
 
 	nWritten, err := compression.CompressImage(sourceFile, outFile)
+	if closeErr := outFile.Close(); err == nil {
+		err = closeErr
+	}
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "error compressing file: %s\n", err)
 		os.Exit(2)
-- 
2.43.0


From fcb711a6b20b8e8dacb8b6995ec12c02986f5a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:17 +0000
Subject: [PATCH 37/68] fix: don't let zipimage and unzipimage overwrite their
 input

---
 cmd/unzipimage/main.go | 24 +++++++++++++++++++++++-
 cmd/zipimage/main.go   | 24 +++++++++++++++++++++++-
 2 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/cmd/unzipimage/main.go b/cmd/unzipimage/main.go
index 4a08a9e..680faa8 100644
--- a/cmd/unzipimage/main.go
+++ b/cmd/unzipimage/main.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"errors"
 	"fmt"
 	"os"
 
@@ -27,7 +28,7 @@ func main() {
 	}
 	defer sourceFile.Close()
 
-	outFile, errOut := os.Create(outputFilePath)
+	outFile, errOut := createOutput(outputFilePath, sourceFile)
 	if errOut != nil {
 		fmt.Fprintf(
 			os.Stderr, "Failed to open file for writing: `%v`: %s\n", outputFilePath, errOut)
@@ -45,3 +46,24 @@ func main() {
 
 	fmt.Printf("Uncompressed input file to %d bytes.\n", nWritten)
 }
+
+// createOutput creates the output file, or truncates it if it already exists. It
+// refuses to do so if that would destroy the input.
+func createOutput(path string, source *os.File) (*os.File, error) {
+	sourceInfo, err := source.Stat()
+	if err != nil {
+		return nil, err
+	}
+
+	outputInfo, err := os.Stat(path)
+	if errors.Is(err, os.ErrNotExist) {
+		return os.Create(path)
+	} else if err != nil {
+		return nil, err
+	}
+
+	if outputInfo.Mode().IsRegular() && os.SameFile(sourceInfo, outputInfo) {
+		return nil, errors.New("input and output are the same file")
+	}
+	return os.Create(path)
+}
diff --git a/cmd/zipimage/main.go b/cmd/zipimage/main.go
index 920107c..098aae1 100644
--- a/cmd/zipimage/main.go
+++ b/cmd/zipimage/main.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"errors"
 	"fmt"
 	"os"
 
@@ -27,7 +28,7 @@ func main() {
 	}
 	defer sourceFile.Close()
 
-	outFile, errOut := os.Create(outputFilePath)
+	outFile, errOut := createOutput(outputFilePath, sourceFile)
 	if errOut != nil {
 		fmt.Fprintf(
 			os.Stderr, "failed to open file for writing: `%v`: %s\n", outputFilePath, errOut)
@@ -45,3 +46,24 @@ func main() {
 
 	fmt.Printf("Compressed input file to %d bytes.\n", nWritten)
 }
+
+// createOutput creates the output file, or truncates it if it already exists. It
+// refuses to do so if that would destroy the input.
+func createOutput(path string, source *os.File) (*os.File, error) {
+	sourceInfo, err := source.Stat()
+	if err != nil {
+		return nil, err
+	}
+
+	outputInfo, err := os.Stat(path)
+	if errors.Is(err, os.ErrNotExist) {
+		return os.Create(path)
+	} else if err != nil {
+		return nil, err
+	}
+
+	if outputInfo.Mode().IsRegular() && os.SameFile(sourceInfo, outputInfo) {
+		return nil, errors.New("input and output are the same file")
+	}
+	return os.Create(path)
+}
-- 
2.43.0


From 88c7bfd1b8c7bcd730f5fa139c4599474457b3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:47 +0000
Subject: [PATCH 38/68] fix: reading a FAT boot sector always panicked because
 of unexported fields

---
 file_systems/fat/common.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/file_systems/fat/common.go b/file_systems/fat/common.go
index 43e7195..1c015ff 100644
--- a/file_systems/fat/common.go
+++ b/file_systems/fat/common.go
@@ -25,13 +25,13 @@ type RawFATBootSectorWithBPB struct {
 	ReservedSectors   uint16
 	NumFATs           uint8
 	RootEntryCount    uint16
-	totalSectors16    uint16
+	TotalSectors16    uint16
 	Media             uint8
-	sectorsPerFAT16   uint16
+	SectorsPerFAT16   uint16
 	SectorsPerTrack   uint16
 	NumHeads          uint16
 	HiddenSectors     uint32
-	totalSectors32    uint32
+	TotalSectors32    uint32
 }
 
 // FATBootSector extends RawFATBootSectorWithBPB with precomputed fields useful in other
@@ -83,17 +83,17 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 	}
 
 	var sectorsPerFAT uint
-	if rawHeader.sectorsPerFAT16 != 0 {
-		sectorsPerFAT = uint(rawHeader.sectorsPerFAT16)
+	if rawHeader.SectorsPerFAT16 != 0 {
+		sectorsPerFAT = uint(rawHeader.SectorsPerFAT16)
 	} else {
 		sectorsPerFAT = uint(sectorsPerFAT32)
 	}
 
 	var totalSectors uint
-	if rawHeader.totalSectors16 != 0 {
-		totalSectors = uint(rawHeader.totalSectors16)
+	if rawHeader.TotalSectors16 != 0 {
+		totalSectors = uint(rawHeader.TotalSectors16)
 	} else {
-		totalSectors = uint(rawHeader.totalSectors32)
+		totalSectors = uint(rawHeader.TotalSectors32)
 	}
 
 	// The number of sectors taken up by the root directory. On FAT32 systems, this will
@@ -163,13 +163,13 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 			ReservedSectors:   rawHeader.ReservedSectors,
 			NumFATs:           rawHeader.NumFATs,
 			RootEntryCount:    rawHeader.RootEntryCount,
-			totalSectors16:    rawHeader.totalSectors16,
+			TotalSectors16:    rawHeader.TotalSectors16,
 			Media:             rawHeader.Media,
-			sectorsPerFAT16:   rawHeader.sectorsPerFAT16,
+			SectorsPerFAT16:   rawHeader.SectorsPerFAT16,
 			SectorsPerTrack:   rawHeader.SectorsPerTrack,
 			NumHeads:          rawHeader.NumHeads,
 			HiddenSectors:     rawHeader.HiddenSectors,
-			totalSectors32:    rawHeader.totalSectors32,
+			TotalSectors32:    rawHeader.TotalSectors32,
 		},
 		SectorsPerFAT:     sectorsPerFAT,
 		TotalFATSectors:   totalFATSectors,
-- 
2.43.0


From b31657d1d3b6fee377d83f91c9557059f0b5fff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:17 +0000
Subject: [PATCH 39/68] fix: FAT boot sectors were decoded wrongly, or crashed
 with zero or inconsistent fields

---
 file_systems/fat/common.go | 42 ++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/file_systems/fat/common.go b/file_systems/fat/common.go
index 1c015ff..1bd6862 100644
--- a/file_systems/fat/common.go
+++ b/file_systems/fat/common.go
@@ -96,15 +96,6 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 		totalSectors = uint(rawHeader.TotalSectors32)
 	}
 
-	// The number of sectors taken up by the root directory. On FAT32 systems, this will
-	// be 0.
-	rootDirSectors := uint(
-		((rawHeader.RootEntryCount * 32) + (rawHeader.BytesPerSector - 1)) / rawHeader.BytesPerSector)
-
-	totalFATSectors := uint(rawHeader.NumFATs) * sectorsPerFAT
-	dataSectors := totalSectors - uint(rawHeader.ReservedSectors) + totalFATSectors + uint(rootDirSectors)
-	totalClusters := dataSectors / uint(rawHeader.SectorsPerCluster)
-
 	// BytesPerSector must be 512, 1024, 2048, or 4096.
 	switch rawHeader.BytesPerSector {
 	case 512:
@@ -135,6 +126,35 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 		return nil, disko.ErrFileSystemCorrupted.WithMessage(message)
 	}
 
+	if rawHeader.ReservedSectors == 0 || rawHeader.NumFATs == 0 || sectorsPerFAT == 0 {
+		message := fmt.Sprintf(
+			"corruption detected: need at least one reserved sector and one FAT, got %d"+
+				" reserved sectors and %d FATs of %d sectors",
+			rawHeader.ReservedSectors,
+			rawHeader.NumFATs,
+			sectorsPerFAT)
+		return nil, disko.ErrFileSystemCorrupted.WithMessage(message)
+	}
+
+	// The number of sectors taken up by the root directory. On FAT32 systems, this will
+	// be 0.
+	bytesPerSector := uint(rawHeader.BytesPerSector)
+	rootDirSectors := (uint(rawHeader.RootEntryCount)*DirentSize + bytesPerSector - 1) / bytesPerSector
+
+	totalFATSectors := uint(rawHeader.NumFATs) * sectorsPerFAT
+	metadataSectors := uint(rawHeader.ReservedSectors) + totalFATSectors + rootDirSectors
+	if metadataSectors > totalSectors {
+		message := fmt.Sprintf(
+			"corruption detected: reserved sectors, FATs, and root directory need %d sectors"+
+				" but there are only %d",
+			metadataSectors,
+			totalSectors)
+		return nil, disko.ErrFileSystemCorrupted.WithMessage(message)
+	}
+
+	dataSectors := totalSectors - metadataSectors
+	totalClusters := dataSectors / uint(rawHeader.SectorsPerCluster)
+
 	fatVersion := DetermineFATVersion(totalClusters)
 	if fatVersion == 32 && rootDirSectors != 0 {
 		message := fmt.Sprintf(
@@ -176,8 +196,8 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 		RootDirSectors:    rootDirSectors,
 		BytesPerCluster:   bytesPerCluster,
 		TotalClusters:     totalClusters,
-		TotalDataSectors:  totalSectors - (uint(rawHeader.ReservedSectors) + totalFATSectors + rootDirSectors),
-		FirstDataSector:   SectorID(uint(rawHeader.ReservedSectors) + rootDirSectors),
+		TotalDataSectors:  dataSectors,
+		FirstDataSector:   SectorID(metadataSectors),
 		FATVersion:        fatVersion,
 		DirentsPerCluster: int(bytesPerCluster) / DirentSize,
 	}
-- 
2.43.0


From 98ddab1e7f2337ec38ac1493b1e7b90e1c493526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:17 +0000
Subject: [PATCH 40/68] fix: FAT clusters were read from the wrong place, and
 only in part

---
 file_systems/fat/driverbase.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index c250927..86b9596 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -34,24 +34,31 @@ type FATDriver struct {
 }
 
 func (drv *FATDriver) getFirstSectorOfCluster(cluster ClusterID) (SectorID, error) {
+	if cluster < 2 || !drv.fs.IsValidCluster(cluster) {
+		return 0, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("invalid cluster 0x%x", cluster))
+	}
+
+	// Clusters are numbered from 2.
 	bootSector := drv.fs.GetBootSector()
 	return bootSector.FirstDataSector + SectorID(
-		uint32(bootSector.SectorsPerCluster)*uint32(cluster)), nil
+		uint32(bootSector.SectorsPerCluster)*uint32(cluster-2)), nil
 }
 
 func (drv *FATDriver) readAbsoluteSectors(sector SectorID, numSectors uint) ([]byte, error) {
 	bootSector := drv.fs.GetBootSector()
 
-	buffer := make([]byte, bootSector.BytesPerSector)
+	buffer := make([]byte, uint(bootSector.BytesPerSector)*numSectors)
 	diskFile := drv.diskFile.(io.ReaderAt)
 
-	nRead, err := diskFile.ReadAt(buffer, int64(bootSector.BytesPerSector)*int64(sector)*int64(numSectors))
+	nRead, err := diskFile.ReadAt(buffer, int64(bootSector.BytesPerSector)*int64(sector))
 
-	if err != nil {
+	// A read which ends exactly at the end of the disk may give io.EOF.
+	if err != nil && (err != io.EOF || nRead < len(buffer)) {
 		return buffer, err
-	} else if nRead < int(bootSector.BytesPerSector) {
+	} else if nRead < len(buffer) {
 		return nil, fmt.Errorf(
-			"unexpected short read. Wanted %d bytes, got %d", bootSector.BytesPerSector, nRead)
+			"unexpected short read. Wanted %d bytes, got %d", len(buffer), nRead)
 	}
 
 	return buffer, nil
-- 
2.43.0


From 32864554bcbe7486c2d9dbb6124a8af4819b9fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:17 +0000
Subject: [PATCH 41/68] fix: reading FAT files failed, hung or crashed
 depending on their cluster chain

---
 file_systems/fat/driverbase.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 86b9596..62c9e24 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -80,7 +80,7 @@ func (drv *FATDriver) readCluster(cluster ClusterID) ([]byte, error) {
 // The returned list will always have chainStart as its first member, unless chainStart
 // is an EOF marker (e.g. 0xFFF on FAT12 systems). In this case, the list is empty.
 func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
-	if !drv.fs.IsValidCluster(chainStart) {
+	if !drv.fs.IsEndOfChain(chainStart) && !drv.fs.IsValidCluster(chainStart) {
 		return nil, disko.ErrInvalidArgument.WithMessage(
 			fmt.Sprintf("invalid cluster 0x%x cannot start a cluster chain", chainStart))
 	}
@@ -89,7 +89,13 @@ func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
 	currentCluster := chainStart
 	i := 0
 
+	totalClusters := drv.fs.GetBootSector().TotalClusters
+
 	for !drv.fs.IsEndOfChain(currentCluster) {
+		if uint(len(chain)) >= totalClusters {
+			return chain, disko.ErrFileSystemCorrupted.WithMessage(
+				fmt.Sprintf("the cluster chain from %d never ends", chainStart))
+		}
 		chain = append(chain, currentCluster)
 
 		nextCluster, err := drv.fs.GetClusterAtIndex(uint(currentCluster))
@@ -97,7 +103,7 @@ func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
 			return nil, err
 		}
 
-		if !drv.fs.IsValidCluster(nextCluster) {
+		if !drv.fs.IsEndOfChain(nextCluster) && !drv.fs.IsValidCluster(nextCluster) {
 			// Hit an invalid cluster. This is not the same as EOF, and usually indicates
 			// corruption of some sort.
 			return chain, disko.ErrFileSystemCorrupted.WithMessage(
@@ -296,19 +302,28 @@ func (drv *FATDriver) ReadFile(path string) ([]byte, error) {
 		return nil, disko.ErrIsADirectory
 	}
 
+	bs := drv.fs.GetBootSector()
+	bytesRemaining := dirent.size
+	if bytesRemaining == 0 {
+		// Empty files usually have no clusters at all.
+		return []byte{}, nil
+	}
+
 	allClusters, err := drv.listClusters(dirent.FirstCluster)
 	if err != nil {
 		return nil, err
 	}
 
-	bs := drv.fs.GetBootSector()
-	bytesRemaining := dirent.size
-
 	// Now that we have a list of all the clusters in this file, we can stitch the file
 	// together by concatenating their contents. The last cluster may not be completely
 	// used.
 	buffer := new(bytes.Buffer)
 	for _, clusterID := range allClusters {
+		if bytesRemaining <= 0 {
+			// More clusters were allocated than the file needs.
+			break
+		}
+
 		clusterContents, err := drv.readCluster(clusterID)
 		if err != nil {
 			return nil, err
@@ -332,6 +347,14 @@ func (drv *FATDriver) ReadFile(path string) ([]byte, error) {
 		bytesRemaining -= int64(bs.BytesPerCluster)
 	}
 
+	if bytesRemaining > 0 {
+		return nil, disko.ErrFileSystemCorrupted.WithMessage(
+			fmt.Sprintf(
+				"%q has a size of %d bytes but its cluster chain is %d bytes shorter",
+				path,
+				dirent.size,
+				bytesRemaining))
+	}
 	return buffer.Bytes(), nil
 }
 
-- 
2.43.0


From 52d56b9d5511d070cd41a9394a32c24d260248f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:41 +0000
Subject: [PATCH 42/68] fix: every field of a FAT directory entry after the
 name was read one byte too late

---
 file_systems/fat/dirent.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index aff9323..3576292 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -225,18 +225,22 @@ func AttrFlagsToFileMode(flags uint8) os.FileMode {
 // NewRawDirentFromBytes deserializes 32 bytes into a RawDirent struct for further
 // processing.
 func NewRawDirentFromBytes(data []byte) (RawDirent, error) {
+	if len(data) < DirentSize {
+		return RawDirent{}, disko.ErrInvalidArgument.WithMessage("directory entry is too short")
+	}
+
 	dirent := RawDirent{
-		AttributeFlags:    data[12],
-		NTReserved:        data[13],
-		CreatedTimeMillis: data[14],
-		CreatedTime:       binary.LittleEndian.Uint16(data[15:17]),
-		CreatedDate:       binary.LittleEndian.Uint16(data[17:19]),
-		LastAccessedDate:  binary.LittleEndian.Uint16(data[19:21]),
-		FirstClusterHigh:  binary.LittleEndian.Uint16(data[21:23]),
-		LastModifiedTime:  binary.LittleEndian.Uint16(data[23:25]),
-		LastModifiedDate:  binary.LittleEndian.Uint16(data[25:27]),
-		FirstClusterLow:   binary.LittleEndian.Uint16(data[27:29]),
-		FileSize:          binary.LittleEndian.Uint32(data[29:32]),
+		AttributeFlags:    data[11],
+		NTReserved:        data[12],
+		CreatedTimeMillis: data[13],
+		CreatedTime:       binary.LittleEndian.Uint16(data[14:16]),
+		CreatedDate:       binary.LittleEndian.Uint16(data[16:18]),
+		LastAccessedDate:  binary.LittleEndian.Uint16(data[18:20]),
+		FirstClusterHigh:  binary.LittleEndian.Uint16(data[20:22]),
+		LastModifiedTime:  binary.LittleEndian.Uint16(data[22:24]),
+		LastModifiedDate:  binary.LittleEndian.Uint16(data[24:26]),
+		FirstClusterLow:   binary.LittleEndian.Uint16(data[26:28]),
+		FileSize:          binary.LittleEndian.Uint32(data[28:32]),
 	}
 
 	copy(dirent.Name[:], data[:8])
-- 
2.43.0


From 9c074a6ca5797c09241e9030759a2cc1afe82924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:41 +0000
Subject: [PATCH 43/68] fix: converting a FAT timestamp always panicked, and
 the hundredths of a second were wrong

---
 file_systems/fat/dirent.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index 3576292..53b3aa8 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -175,7 +175,7 @@ func DateFromInt(value uint16) time.Time {
 	createMonth := time.Month((value >> 5) & 0x000f)
 	createYear := int(1980 + (value >> 9))
 
-	return time.Date(createYear, createMonth, createDay, 0, 0, 0, 0, nil)
+	return time.Date(createYear, createMonth, createDay, 0, 0, 0, 0, time.Local)
 }
 
 // TimestampFromParts converts a FAT timestamp into a [time.Time] object.
@@ -192,10 +192,10 @@ func TimestampFromParts(datePart uint16, timePart uint16, hundredths uint8) time
 
 	minutes := int((timePart >> 5) & 0x003f)
 	hours := int(timePart >> 11)
-	nanoseconds := int(timePart * 10000)
+	nanoseconds := int(hundredths) * 10_000_000
 
 	return time.Date(
-		dateDt.Year(), dateDt.Month(), dateDt.Day(), hours, minutes, seconds, nanoseconds, nil)
+		dateDt.Year(), dateDt.Month(), dateDt.Day(), hours, minutes, seconds, nanoseconds, time.Local)
 }
 
 // AttrFlagsToFileMode converts FAT attribute flags into the mode flags used by
-- 
2.43.0


From b17a6ec32de5cba4adce4aa90b1af7712301a9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 44/68] fix: FAT directories weren't recognised as such, and
 entries with blank names crashed

---
 file_systems/fat/dirent.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index 53b3aa8..abe678d 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -199,7 +199,7 @@ func TimestampFromParts(datePart uint16, timePart uint16, hundredths uint8) time
 }
 
 // AttrFlagsToFileMode converts FAT attribute flags into the mode flags used by
-// [syscall.Stat_t.Mode].
+// [os.FileInfo].
 func AttrFlagsToFileMode(flags uint8) os.FileMode {
 	var mode os.FileMode
 
@@ -212,11 +212,9 @@ func AttrFlagsToFileMode(flags uint8) os.FileMode {
 	}
 
 	if (flags & AttrDirectory) != 0 {
-		mode |= syscall.S_IFDIR
+		mode |= os.ModeDir
 	} else if (flags & AttrDevice) != 0 {
-		mode |= syscall.S_IFCHR
-	} else {
-		mode |= syscall.S_IFREG
+		mode |= os.ModeDevice | os.ModeCharDevice
 	}
 
 	return mode
@@ -306,14 +304,14 @@ func NewDirentFromRaw(bootSector *FATBootSector, rawDirent *RawDirent) (Dirent,
 	trimmedName := strings.TrimRight(string(rawDirent.Name[:]), " ")
 	trimmedExt := strings.TrimRight(string(rawDirent.Extension[:]), " ")
 
-	if trimmedName[0] == 0xE5 {
+	if rawDirent.Name[0] == 0xE5 {
 		// Represents a deleted file. The real first character of the filename is in
 		// CreatedTimeMillis.
 		trimmedName = string([]byte{rawDirent.CreatedTimeMillis}) + trimmedName[1:]
-	} else if trimmedName[0] == 0x05 {
+	} else if rawDirent.Name[0] == 0x05 {
 		// First character of the filename is E5.
 		trimmedName = "\xe5" + trimmedName[1:]
-	} else if trimmedName[0] == 0 {
+	} else if rawDirent.Name[0] == 0 {
 		// This directory entry is free and thus invalid.
 		return Dirent{}, disko.ErrNotFound
 	}
-- 
2.43.0


From 6736b63b0fee4f36be85879041f1f2b6362da317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 45/68] fix: listing a FAT directory included deleted entries,
 failed if it fills its clusters, and could hang

---
 file_systems/fat/driverbase.go | 70 +++++++++-------------------------
 1 file changed, 19 insertions(+), 51 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 62c9e24..12abcdb 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -123,51 +123,6 @@ func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
 
 }
 
-// getClusterInChain returns the ID of the `index`th cluster in the chain starting at
-// `firstCluster`. Indexing begins at 0. A cluster ID of 0 indicates an error occurred,
-// and the Error object in the second return value will indicate what went wrong.
-func (drv *FATDriver) getClusterInChain(firstCluster ClusterID, index uint) (ClusterID, error) {
-	currentCluster := firstCluster
-
-	for i := uint(0); i < index; i++ {
-		nextCluster, err := drv.fs.GetClusterAtIndex(uint(currentCluster))
-		if err != nil {
-			return 0, err
-		}
-
-		if drv.fs.IsEndOfChain(nextCluster) {
-			// Hit EOF
-			return 0, disko.ErrInvalidArgument.WithMessage(
-				fmt.Sprintf(
-					"cluster index %d out of bounds -- chain from 0x%x has %d clusters",
-					index,
-					firstCluster,
-					i+1))
-		} else if !drv.fs.IsValidCluster(nextCluster) {
-			// Hit an invalid cluster. This is not the same as EOF, and usually indicates
-			// corruption of some sort.
-			return 0, disko.ErrFileSystemCorrupted.WithMessage(
-				fmt.Sprintf(
-					"cluster %d followed by invalid cluster 0x%x at index %d in chain from %d",
-					currentCluster,
-					nextCluster,
-					i,
-					firstCluster))
-		}
-		currentCluster = nextCluster
-	}
-
-	return currentCluster, nil
-}
-
-func (drv *FATDriver) readClusterOfDirent(dirent *Dirent, index uint) ([]byte, error) {
-	cluster, err := drv.getClusterInChain(dirent.FirstCluster, index)
-	if err != nil {
-		return nil, err
-	}
-	return drv.readCluster(cluster)
-}
-
 ////////////////////////////////////////////////////////////////////////////////////////
 // Parts of the Driver interface that can be implemented with little knowledge of the
 // underlying file system.
@@ -220,9 +175,13 @@ func (drv *FATDriver) readDirFromDirent(directoryDirent *Dirent) ([]Dirent, erro
 	bootSector := drv.fs.GetBootSector()
 	allDirents := []Dirent{}
 
-	i := uint(0)
-	for {
-		clusterData, err := drv.readClusterOfDirent(directoryDirent, i)
+	clusters, err := drv.listClusters(directoryDirent.FirstCluster)
+	if err != nil {
+		return nil, err
+	}
+
+	for _, cluster := range clusters {
+		clusterData, err := drv.readCluster(cluster)
 		if err != nil {
 			return nil, err
 		}
@@ -232,17 +191,26 @@ func (drv *FATDriver) readDirFromDirent(directoryDirent *Dirent) ([]Dirent, erro
 			return nil, err
 		}
 
-		allDirents = append(allDirents, clusterDirents...)
+		allDirents = append(allDirents, withoutDeleted(clusterDirents)...)
 		if len(clusterDirents) < bootSector.DirentsPerCluster {
 			break
 		}
-
-		i++
 	}
 
 	return allDirents, nil
 }
 
+// withoutDeleted returns the directory entries that haven't been deleted.
+func withoutDeleted(dirents []Dirent) []Dirent {
+	liveDirents := []Dirent{}
+	for _, dirent := range dirents {
+		if !dirent.isDeleted {
+			liveDirents = append(liveDirents, dirent)
+		}
+	}
+	return liveDirents
+}
+
 //////////////////////////////////////////////////////////////////////////////////////////
 // IMPLEMENTATION OF PUBLIC DRIVER INTERFACE
 //
-- 
2.43.0


From cebaad7d0dac727f688559372f4f7649da1c0e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 46/68] fix: looking up a path on a FAT volume never worked

---
 file_systems/fat/driverbase.go | 84 ++++++++++++++++++++++++----------
 1 file changed, 59 insertions(+), 25 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 12abcdb..3d17ca8 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -6,6 +6,8 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"slices"
+	"strings"
 	"time"
 
 	"github.com/dargueta/disko"
@@ -131,40 +133,72 @@ func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
 // path. If an error occurs, the second return value is an Error object indicating what
 // went wrong.
 func (drv *FATDriver) resolvePathToDirent(path string) (Dirent, error) {
-	cleanedPath := filepath.Clean(path)
-	pathParts := filepath.SplitList(cleanedPath)
-
-	if len(pathParts) == 0 {
-		// Caller gave us an empty path after components were resolved.
-		return Dirent{}, disko.ErrInvalidArgument.WithMessage(
-			fmt.Sprintf("file path %q resolves to empty path", path))
+	if path == "" {
+		return Dirent{}, disko.ErrInvalidArgument.WithMessage("path is empty")
 	}
 
-	// Get a listing for the root directory. We need to call a separate function because
-	// unlike FAT 32, FAT 12/16 have fixed-size root directories that aren't actually files.
-	// Drivers must give us a list of directory entries in the root directory.
-	currentDirContents, err := drv.fs.ListRootDirectory()
-	if err != nil {
-		return Dirent{}, nil
-	}
+	// All paths are relative to the root directory.
+	cleanedPath := filepath.ToSlash(filepath.Clean("/" + path))
+	pathParts := strings.FieldsFunc(cleanedPath, func(c rune) bool { return c == '/' })
 
-	var currentDirent Dirent
+	currentDirent := drv.rootDirent()
+	for i, component := range pathParts {
+		if !currentDirent.IsDir() {
+			return Dirent{}, disko.ErrNotADirectory.WithMessage(
+				fmt.Sprintf("%q in %q", pathParts[i-1], path))
+		}
 
-	for _, component := range pathParts {
-		for _, entry := range currentDirContents {
-			if entry.name == component {
-				currentDirent = entry
-				currentDirContents, err = drv.readDirFromDirent(&entry)
-				if err != nil {
-					return Dirent{}, err
-				}
-			}
+		contents, err := drv.listDirectory(&currentDirent)
+		if err != nil {
+			return Dirent{}, err
 		}
+
+		index := slices.IndexFunc(contents, func(entry Dirent) bool { return entry.name == component })
+		if index < 0 {
+			return Dirent{}, disko.ErrNotFound.WithMessage(fmt.Sprintf("%q", path))
+		}
+		currentDirent = contents[index]
 	}
 
 	return currentDirent, nil
 }
 
+// rootName is the name of the root directory. No other directory entry that can be found
+// by its path has a name like that.
+const rootName = "/"
+
+// rootDirent returns a directory entry which stands for the root directory.
+func (drv *FATDriver) rootDirent() Dirent {
+	mode := AttrFlagsToFileMode(AttrDirectory)
+	return Dirent{
+		name:           rootName,
+		AttributeFlags: AttrDirectory,
+		mode:           mode,
+		stat: disko.FileStat{
+			Nlinks:    1,
+			ModeFlags: mode,
+			BlockSize: int64(drv.fs.GetBootSector().BytesPerCluster),
+		},
+	}
+}
+
+// listDirectory returns the directory entries found in directoryDirent, which may be
+// the root directory.
+func (drv *FATDriver) listDirectory(directoryDirent *Dirent) ([]Dirent, error) {
+	if directoryDirent.name != rootName {
+		return drv.readDirFromDirent(directoryDirent)
+	}
+
+	// The root directory. We need to call a separate function because unlike FAT 32,
+	// FAT 12/16 have fixed-size root directories that aren't actually files. Drivers must
+	// give us a list of directory entries in the root directory.
+	contents, err := drv.fs.ListRootDirectory()
+	if err != nil {
+		return nil, err
+	}
+	return withoutDeleted(contents), nil
+}
+
 // readDirFromDirent returns a list of the directory entries found in directoryDirent,
 // including the `.` and `..` entries.
 func (drv *FATDriver) readDirFromDirent(directoryDirent *Dirent) ([]Dirent, error) {
@@ -246,7 +280,7 @@ func (drv *FATDriver) Readdir(path string) ([]os.FileInfo, error) {
 		return nil, disko.ErrNotADirectory
 	}
 
-	dirContents, err := drv.readDirFromDirent(&dirent)
+	dirContents, err := drv.listDirectory(&dirent)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From a47beedabd1da544ed2ac06937468d55e021fe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 47/68] fix: removing a FAT file freed the wrong clusters

---
 file_systems/fat/driverbase.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 3d17ca8..917c4e8 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -462,7 +462,12 @@ func (drv *FATDriver) Remove(path string) error {
 		return err
 	}
 
-	// Successfully deleted the directory entry. Now we release its clusters.
+	// Successfully deleted the directory entry. Now we release its clusters. Empty files
+	// usually don't have any.
+	if dirent.FirstCluster == 0 && dirent.size == 0 {
+		return nil
+	}
+
 	fileClusters, err := drv.listClusters(dirent.FirstCluster)
 	if err != nil {
 		return err
@@ -472,7 +477,7 @@ func (drv *FATDriver) Remove(path string) error {
 	// if we hit an error then the dirent still points to the beginning of the cluster
 	// chain and we don't end up with an orphaned chain that would take up disk space.
 	for i := len(fileClusters) - 1; i >= 0; i-- {
-		err = drv.fs.FreeCluster(ClusterID(i))
+		err = drv.fs.FreeCluster(fileClusters[i])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 4304a12f7772f41f142f12f63644044acc429fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 48/68] fix: setting unsupported timestamps on a FAT volume
 changed only some of them, without an error

---
 file_systems/fat/driverbase.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 917c4e8..0ec7ad4 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -417,8 +417,12 @@ func (drv *FATDriver) Chtimes(path string, atime, mtime time.Time) error {
 		return err
 	}
 
-	dirent.SetLastAccessedAt(atime)
-	dirent.SetLastModifiedAt(mtime)
+	if err = dirent.SetLastAccessedAt(atime); err != nil {
+		return err
+	}
+	if err = dirent.SetLastModifiedAt(mtime); err != nil {
+		return err
+	}
 	return drv.fs.UpdateDirent(&dirent)
 }
 
-- 
2.43.0


From ffe4a573a1dd34c4267bef73dc86d7911c97fa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 49/68] fix: comparing FAT files always panicked

---
 file_systems/fat/driverbase.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 0ec7ad4..c3fc59b 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -260,10 +260,11 @@ func (drv *FATDriver) Readlink(path string) (string, error) {
 
 // SameFile determines if two FileInfos reference the same file.
 func (drv *FATDriver) SameFile(fi1, fi2 os.FileInfo) bool {
-	dirLeft := fi1.Sys().(Dirent)
-	dirRight := fi2.Sys().(Dirent)
+	statLeft, okLeft := fi1.Sys().(disko.FileStat)
+	statRight, okRight := fi2.Sys().(disko.FileStat)
 
-	return dirLeft.FirstCluster == dirRight.FirstCluster
+	// Files are identified by their first cluster.
+	return okLeft && okRight && statLeft.InodeNumber == statRight.InodeNumber
 }
 
 // TODO: Open
-- 
2.43.0


From cff9aae3567269f275fabad1d1bbf2953763df31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:59 +0000
Subject: [PATCH 50/68] fix: adding a message to a new basic error dropped its
 own text

---
 errors.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/errors.go b/errors.go
index b4fe158..61e859d 100644
--- a/errors.go
+++ b/errors.go
@@ -70,6 +70,9 @@ func (e baseDiskoError) RootCause() DriverError {
 }
 
 func (e baseDiskoError) WithMessage(message string) DriverError {
+	if e != rootError {
+		message = fmt.Sprintf("%s: %s", e.Error(), message)
+	}
 	return customDriverError{
 		message:       message,
 		originalError: e,
-- 
2.43.0


From 5522215361ed902058ba45e4077e96b788be7b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:49 +0000
Subject: [PATCH 51/68] fix: setting the deletion time of a FAT directory entry
 always failed

The entry is marked as deleted before the time is passed to SetCreatedAt,
which refuses deleted entries; nothing ever stored the deletion time.
---
 file_systems/fat/dirent.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index abe678d..c257fa9 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -162,7 +162,8 @@ func (d *Dirent) SetDeletedAt(t time.Time) error {
 		return disko.ErrArgumentOutOfRange
 	}
 	d.isDeleted = true
-	return d.SetCreatedAt(t)
+	d.stat.DeletedAt = t
+	return nil
 }
 
 // DirentSize is the size of a single raw directory entry, in bytes.
-- 
2.43.0


From 90b8142792c7919c9ded2d4ea1edc413a252b229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:51 +0000
Subject: [PATCH 52/68] fix: read-only FAT files were reported as writable by
 their owner

---
 file_systems/fat/dirent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index c257fa9..77c4b70 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -207,7 +207,7 @@ func AttrFlagsToFileMode(flags uint8) os.FileMode {
 	// FAT has no way to mark files as executable or not, so the executable bit
 	// is always set.
 	if (flags & AttrReadOnly) != 0 {
-		mode = 0o755
+		mode = 0o555
 	} else {
 		mode = 0o777
 	}
-- 
2.43.0


From e76b4db35f8932711e665c09c871c82087882353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:52 +0000
Subject: [PATCH 53/68] fix: changing the mode of a FAT entry left its
 attribute flags as they were

The volume was asked to store an entry whose mode and attribute flags
disagree about whether it's read-only.
---
 file_systems/fat/driverbase.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index c3fc59b..9db257e 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -397,10 +397,13 @@ func (drv *FATDriver) Chmod(path string, mode os.FileMode) error {
 	// anything beyond that.
 	if (mode & 0b010010010) == 0 {
 		// No one has write access
+		dirent.AttributeFlags |= AttrReadOnly
 		dirent.stat.ModeFlags &= ^os.FileMode(0b010010010)
 	} else {
+		dirent.AttributeFlags &= ^AttrReadOnly
 		dirent.stat.ModeFlags |= 0b010010010
 	}
+	dirent.mode = dirent.stat.ModeFlags
 
 	return drv.fs.UpdateDirent(&dirent)
 }
-- 
2.43.0


From d46c71e9a7b54da25c5eb3f5f4b95e44d293dda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:05 +0000
Subject: [PATCH 54/68] fix: closed files could still be used

Except for a few cases, using a file after closing it went on using the object
handle the implementation had already been told to release, or reported writes as
done which never reached the object.
---
 driver/file.go | 82 ++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 79 insertions(+), 3 deletions(-)

diff --git a/driver/file.go b/driver/file.go
index 1cdd42b..d16aa09 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -89,6 +89,7 @@ type File struct {
 	// Fields
 	owningDriver *BaseDriver
 	objectHandle extObjectHandle
+	name         string
 	fileInfo     FileInfo
 	ioFlags      disko.IOFlags
 
@@ -148,6 +149,7 @@ func NewFileFromObjectHandle(
 	return File{
 		owningDriver: driver,
 		objectHandle: object,
+		name:         object.Name(),
 		ioFlags:      ioFlags,
 		BasicStream:  stream,
 		isClosed:     &isClosed,
@@ -158,11 +160,26 @@ func NewFileFromObjectHandle(
 	}, nil
 }
 
+// checkOpen returns an error if the file has been closed. The object handle can't be
+// used any more then.
+func (file *File) checkOpen() error {
+	if *file.isClosed {
+		return disko.ErrFileDescriptorBadState.WithMessage("file already closed")
+	}
+	return nil
+}
+
 func (file *File) Chdir() error {
+	if err := file.checkOpen(); err != nil {
+		return err
+	}
 	return file.owningDriver.chdirToObject(file.objectHandle)
 }
 
 func (file *File) Chmod(mode os.FileMode) error {
+	if err := file.checkOpen(); err != nil {
+		return err
+	}
 	if !file.owningDriver.mountFlags.CanAdminister() {
 		return disko.ErrReadOnlyFileSystem.WithMessage("no permission to change mode flags")
 	}
@@ -175,6 +192,9 @@ func (file *File) Chmod(mode os.FileMode) error {
 }
 
 func (file *File) Chown(uid, gid int) error {
+	if err := file.checkOpen(); err != nil {
+		return err
+	}
 	if !file.owningDriver.mountFlags.CanAdminister() {
 		return disko.ErrReadOnlyFileSystem.WithMessage("no permission to change ownership")
 	}
@@ -189,8 +209,8 @@ func (file *File) Chown(uid, gid int) error {
 // Close writes out all pending changes and releases the object handle. The handle
 // is released even if writing the changes failed.
 func (file *File) Close() error {
-	if *file.isClosed {
-		return disko.ErrFileDescriptorBadState
+	if err := file.checkOpen(); err != nil {
+		return err
 	}
 
 	err := file.Sync()
@@ -205,6 +225,10 @@ func (file *File) Close() error {
 
 // Sync writes out all pending changes and updates the size of the object.
 func (file *File) Sync() error {
+	if err := file.checkOpen(); err != nil {
+		return err
+	}
+
 	err := file.BasicStream.Sync()
 	if err != nil || !file.ioFlags.Write() {
 		return err
@@ -232,25 +256,69 @@ func (file *File) finishWrite(err error) error {
 	return err
 }
 
+// Read implements [io.Reader].
+func (file *File) Read(buffer []byte) (int, error) {
+	if err := file.checkOpen(); err != nil {
+		return 0, err
+	}
+	return file.BasicStream.Read(buffer)
+}
+
+// ReadAt implements [io.ReaderAt].
+func (file *File) ReadAt(buffer []byte, offset int64) (int, error) {
+	if err := file.checkOpen(); err != nil {
+		return 0, err
+	}
+	return file.BasicStream.ReadAt(buffer, offset)
+}
+
+// Seek implements [io.Seeker].
+func (file *File) Seek(offset int64, whence int) (int64, error) {
+	if err := file.checkOpen(); err != nil {
+		return 0, err
+	}
+	return file.BasicStream.Seek(offset, whence)
+}
+
+// WriteTo implements [io.WriterTo].
+func (file *File) WriteTo(w io.Writer) (n int64, err error) {
+	if err = file.checkOpen(); err != nil {
+		return 0, err
+	}
+	return file.BasicStream.WriteTo(w)
+}
+
 // ReadFrom implements [io.ReaderFrom].
 func (file *File) ReadFrom(r io.Reader) (n int64, err error) {
+	if err = file.checkOpen(); err != nil {
+		return 0, err
+	}
 	n, err = file.BasicStream.ReadFrom(r)
 	return n, file.finishWrite(err)
 }
 
 // Truncate is equivalent to [os.File.Truncate].
 func (file *File) Truncate(size int64) error {
+	if err := file.checkOpen(); err != nil {
+		return err
+	}
 	return file.finishWrite(file.BasicStream.Truncate(size))
 }
 
 // Write implements [io.Writer].
 func (file *File) Write(buffer []byte) (int, error) {
+	if err := file.checkOpen(); err != nil {
+		return 0, err
+	}
 	n, err := file.BasicStream.Write(buffer)
 	return n, file.finishWrite(err)
 }
 
 // WriteAt implements [io.WriterAt].
 func (file *File) WriteAt(buffer []byte, offset int64) (int, error) {
+	if err := file.checkOpen(); err != nil {
+		return 0, err
+	}
 	n, err := file.BasicStream.WriteAt(buffer, offset)
 	return n, file.finishWrite(err)
 }
@@ -261,11 +329,15 @@ func (file *File) WriteString(s string) (int, error) {
 }
 
 func (file *File) Name() string {
-	return file.objectHandle.Name()
+	return file.name
 }
 
 // ReadDir is equivalent to [os.File.ReadDir].
 func (file *File) ReadDir(n int) ([]os.DirEntry, error) {
+	if err := file.checkOpen(); err != nil {
+		return nil, err
+	}
+
 	stat := file.objectHandle.Stat()
 	if !stat.IsDir() {
 		return nil, disko.ErrNotADirectory
@@ -355,6 +427,10 @@ func (file *File) Readdirnames(n int) ([]string, error) {
 }
 
 func (file *File) Stat() (os.FileInfo, error) {
+	if err := file.checkOpen(); err != nil {
+		return nil, err
+	}
+
 	// The size in the cached information is the one from when the file was opened.
 	info := file.fileInfo
 	info.FileStat.Size = file.BasicStream.Size()
-- 
2.43.0


From b7bc5565e1a265af84c4d11649926ad352371110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:06 +0000
Subject: [PATCH 55/68] fix: the status of an open file was the one from when
 it was opened

---
 driver/file.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/driver/file.go b/driver/file.go
index d16aa09..9dd818a 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -431,8 +431,10 @@ func (file *File) Stat() (os.FileInfo, error) {
 		return nil, err
 	}
 
-	// The size in the cached information is the one from when the file was opened.
+	// The cached information is from when the file was opened, and the object doesn't
+	// have its final size until everything has been written.
 	info := file.fileInfo
+	info.FileStat = file.objectHandle.Stat()
 	info.FileStat.Size = file.BasicStream.Size()
 	return &info, nil
 }
-- 
2.43.0


From e1109a4ca47da397e7ea4ae04bc020407bb9edb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:06 +0000
Subject: [PATCH 56/68] fix: a no-op handle crashed when closed or compared,
 and couldn't refuse setting times

It has neither Close nor SameAs of its own, and the signature of Chtimes isn't the
one of SupportsChtimesHandle.
---
 driver/nopobject.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/driver/nopobject.go b/driver/nopobject.go
index 2c34e6f..9650d7a 100644
--- a/driver/nopobject.go
+++ b/driver/nopobject.go
@@ -69,7 +69,7 @@ func (obj NopObjectHandle) Chtimes(
 	lastModified,
 	lastChanged,
 	deletedAt time.Time,
-) error {
+) disko.DriverError {
 	return disko.ErrNotImplemented
 }
 
@@ -87,3 +87,13 @@ func (obj NopObjectHandle) Name() string {
 func (obj NopObjectHandle) AbsolutePath() string {
 	return ""
 }
+
+// SameAs always returns false.
+func (obj NopObjectHandle) SameAs(other disko.ObjectHandle) bool {
+	return false
+}
+
+// Close does nothing.
+func (obj NopObjectHandle) Close() error {
+	return disko.ErrNotImplemented
+}
-- 
2.43.0


From 52ec54ad81aa91768b172c0df0418cef17516c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:40 +0000
Subject: [PATCH 57/68] fix: FAT8 file clusters with numbers beyond the range
 of int crashed instead of being refused

---
 file_systems/fat8/iobase.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat8/iobase.go b/file_systems/fat8/iobase.go
index 37c477b..f8c9f54 100644
--- a/file_systems/fat8/iobase.go
+++ b/file_systems/fat8/iobase.go
@@ -138,7 +138,7 @@ func (driver *FAT8Driver) writeFAT() error {
 func (driver *FAT8Driver) ReadFileCluster(
 	dirent *DirectoryEntry, cluster LogicalCluster,
 ) ([]byte, error) {
-	if int(cluster) >= len(dirent.clusters) {
+	if uint(cluster) >= uint(len(dirent.clusters)) {
 		return nil, fmt.Errorf(
 			"cluster index out of bounds: %d not in [0, %d)",
 			cluster,
@@ -153,7 +153,7 @@ func (driver *FAT8Driver) ReadFileCluster(
 func (driver *FAT8Driver) WriteFileCluster(
 	dirent *DirectoryEntry, cluster LogicalCluster, data []byte,
 ) error {
-	if int(cluster) >= len(dirent.clusters) {
+	if uint(cluster) >= uint(len(dirent.clusters)) {
 		return fmt.Errorf(
 			"cluster index out of bounds: %d not in [0, %d)",
 			cluster,
-- 
2.43.0


From 129979e0dcfa054987adb04e2e6fb5ce86dbf5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:03 +0000
Subject: [PATCH 58/68] fix: removing a FAT file by a path ending in a slash or
 dot looked for its entry in the wrong directory

---
 file_systems/fat/driverbase.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 9db257e..bfc1502 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -456,7 +456,8 @@ func (drv *FATDriver) Remove(path string) error {
 		return disko.ErrIsADirectory
 	}
 
-	parentDirent, err := drv.resolvePathToDirent(filepath.Dir(path))
+	// The path may end with a slash or with components like `.`.
+	parentDirent, err := drv.resolvePathToDirent(filepath.Dir(filepath.Clean("/" + path)))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 842d52d185e422ffc0f3bf2016729f9fb56ab22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:59 +0000
Subject: [PATCH 59/68] fix: closing a file that hadn't been changed undid a
 resize made by other means in the meantime

---
 driver/file.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/driver/file.go b/driver/file.go
index 9dd818a..3f18495 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -96,6 +96,10 @@ type File struct {
 	// isClosed is a pointer so that it's shared between copies of the struct.
 	isClosed *bool
 
+	// objectSize is the size this file last gave the object, or the object's size
+	// when it was opened. Like isClosed, it's shared between copies of the struct.
+	objectSize *int64
+
 	lastReadDirResult    []disko.DirectoryEntry
 	readDirResultPointer int
 }
@@ -123,12 +127,21 @@ func NewFileFromObjectHandle(
 	}
 
 	stat := object.Stat()
+	objectSize := stat.Size
 
 	resizeCb := func(newTotalBlocks common.LogicalBlock) error {
 		if isClosed {
 			return disko.ErrFileDescriptorBadState
 		}
-		return object.Resize(uint64(newTotalBlocks) * uint64(stat.BlockSize))
+
+		newSize := int64(newTotalBlocks) * stat.BlockSize
+		err := object.Resize(uint64(newSize))
+		if err == nil {
+			objectSize = newSize
+		} else {
+			objectSize = object.Stat().Size
+		}
+		return err
 	}
 
 	// Ignore any blocks allocated past the end of the file, if there are any.
@@ -153,6 +166,7 @@ func NewFileFromObjectHandle(
 		ioFlags:      ioFlags,
 		BasicStream:  stream,
 		isClosed:     &isClosed,
+		objectSize:   &objectSize,
 		fileInfo: FileInfo{
 			FileStat:     stat,
 			absolutePath: object.AbsolutePath(),
@@ -237,14 +251,20 @@ func (file *File) Sync() error {
 }
 
 // updateObjectSize sets the size of the object to the exact size of the stream.
-// This is necessary because the block cache can only resize in whole blocks.
+// This is necessary because the block cache can only resize in whole blocks. It
+// leaves the object alone if the size of the stream is what this file last set, since
+// the object may have been resized in some other way in the meantime.
 func (file *File) updateObjectSize() error {
-	stat := file.objectHandle.Stat()
-	if stat.Size == file.Size() {
+	newSize := file.Size()
+	if *file.objectSize == newSize {
 		return nil
 	}
 
-	return file.objectHandle.Resize(uint64(file.Size()))
+	err := file.objectHandle.Resize(uint64(newSize))
+	if err == nil {
+		*file.objectSize = newSize
+	}
+	return err
 }
 
 // finishWrite updates the size of the object after an operation that modified
-- 
2.43.0


From 99684ff83d8425532c1526059d4d7a9904c553d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:08 +0000
Subject: [PATCH 60/68] fix: a file accessed blocks past the end of the object
 if it had been truncated by other means

---
 driver/file.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/driver/file.go b/driver/file.go
index 3f18495..3035b5c 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -117,12 +117,18 @@ func NewFileFromObjectHandle(
 		if isClosed {
 			return disko.ErrFileDescriptorBadState
 		}
+		if err := checkBlockExists(object, index); err != nil {
+			return err
+		}
 		return object.ReadBlocks(index, buffer)
 	}
 	flushCb := func(index common.LogicalBlock, buffer []byte) error {
 		if isClosed {
 			return disko.ErrFileDescriptorBadState
 		}
+		if err := checkBlockExists(object, index); err != nil {
+			return err
+		}
 		return object.WriteBlocks(index, buffer)
 	}
 
@@ -174,6 +180,17 @@ func NewFileFromObjectHandle(
 	}, nil
 }
 
+// checkBlockExists returns an error if a block is past the end of an object. A file
+// can attempt to access such a block if the object was truncated by other means after
+// the file was opened.
+func checkBlockExists(object extObjectHandle, index common.LogicalBlock) error {
+	stat := object.Stat()
+	if int64(index)*stat.BlockSize >= stat.Size {
+		return disko.ErrIOFailed.WithMessage("block is past the end of the object")
+	}
+	return nil
+}
+
 // checkOpen returns an error if the file has been closed. The object handle can't be
 // used any more then.
 func (file *File) checkOpen() error {
-- 
2.43.0


From 08912d19bddc1a3559f0a2ec1365d114c7a06cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:23 +0000
Subject: [PATCH 61/68] fix: opening a file with O_NOFOLLOW followed symlinks

---
 driver/driver.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/driver/driver.go b/driver/driver.go
index 5e195a9..b83b796 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -293,6 +293,26 @@ func (driver *BaseDriver) resolveCreationPath(
 	}
 }
 
+// checkNotSymlink returns an error if there's a symlink at `path`, a normalized
+// absolute path. It's not an error if there's nothing there.
+func (driver *BaseDriver) checkNotSymlink(path string) error {
+	object, err := driver.getObjectAtPathNoFollow(path)
+	if errors.Is(err, disko.ErrNotFound) {
+		return nil
+	} else if err != nil {
+		return err
+	}
+	defer object.Close()
+
+	stat := object.Stat()
+	if stat.IsSymlink() {
+		return disko.ErrLinkCycleDetected.WithMessage(
+			fmt.Sprintf("%q is a symlink, which must not be followed", path),
+		)
+	}
+	return nil
+}
+
 // readSymlink returns the normalized absolute path that a symlink points to. The
 // caller is still responsible for closing `object`.
 func (driver *BaseDriver) readSymlink(
@@ -342,6 +362,14 @@ func (driver *BaseDriver) OpenFile(
 	var parentObject extObjectHandle
 	var err error
 
+	if ioFlags.NoFollow() && !(ioFlags.Create() && ioFlags.Exclusive()) {
+		// Exclusive mode never follows the last component anyway.
+		err = driver.checkNotSymlink(absPath)
+		if err != nil {
+			return File{}, err
+		}
+	}
+
 	if ioFlags.Create() {
 		// If the file is a symlink to something that doesn't exist, the target
 		// of the link gets created, not the link. In exclusive mode a symlink
-- 
2.43.0


From f2fd8cfaf668c6123e4702524066bf7dfe814764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:22 +0000
Subject: [PATCH 62/68] fix: the run grouper ignored a failure to unread a byte
 and lost it

---
 utilities/compression/rle_grouper.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utilities/compression/rle_grouper.go b/utilities/compression/rle_grouper.go
index 75df424..16c225f 100644
--- a/utilities/compression/rle_grouper.go
+++ b/utilities/compression/rle_grouper.go
@@ -71,8 +71,12 @@ func (grouper RLEGrouper) GetNextRun() (ByteRun, error) {
 		}
 
 		if currentByte != firstByte {
-			// Hit a different byte, back up and return.
-			grouper.rd.UnreadByte()
+			// Hit a different byte, back up and return. If we can't back up then
+			// the next run would be missing its first byte.
+			err = grouper.rd.UnreadByte()
+			if err != nil {
+				return InvalidRLERun, err
+			}
 			return ByteRun{Byte: firstByte, RunLength: runLength}, nil
 		}
 	}
-- 
2.43.0


From b74f07e8748d2408dc4a769004b6c4fa910c0a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:23 +0000
Subject: [PATCH 63/68] fix: a cache over a stream whose size couldn't be
 determined crashed or destroyed its contents

---
 file_systems/common/blockcache/blockcache.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index 6dd19b7..0df9432 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -192,9 +192,17 @@ func WrapStreamWithInferredSize(
 	bytesPerBlock uint,
 	allowResize bool,
 ) *BlockCache {
-	// TODO (dargueta): Should we ignore seeking errors?
-	eofOffset, _ := stream.Seek(0, io.SeekEnd)
+	eofOffset, err := stream.Seek(0, io.SeekEnd)
+	if err != nil {
+		// We have no way of reporting the error here. Create an empty cache that
+		// can't be resized, or else the contents of the stream would be lost.
+		return New(bytesPerBlock, 0, nil, nil, func(c.LogicalBlock) error {
+			return fmt.Errorf("failed to determine the size of the stream: %w", err)
+		})
+	}
+
 	totalBlocks := uint(eofOffset) / bytesPerBlock
+	// Ignore any error; the pointer is repositioned on every access anyway.
 	stream.Seek(0, io.SeekStart)
 	return WrapStream(stream, bytesPerBlock, totalBlocks, allowResize)
 }
-- 
2.43.0


From 0d9277e156b173a702871ba762d06235797bffc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:24 +0000
Subject: [PATCH 64/68] fix: truncating a file by its path ignored a failure to
 release the truncated file

---
 driver/driver.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index b83b796..c37bf8f 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -844,13 +844,22 @@ func (driver *BaseDriver) Truncate(path string) error {
 	if err != nil {
 		return err
 	}
-	defer object.Close()
 
 	stat := object.Stat()
 	if stat.IsDir() {
+		object.Close()
 		return disko.ErrIsADirectory.WithMessage(absPath)
 	}
-	return object.Resize(0)
+
+	resizeErr := object.Resize(0)
+
+	// The new size may not take effect until the object is closed, so we can't
+	// ignore errors here.
+	closeErr := object.Close()
+	if resizeErr != nil {
+		return resizeErr
+	}
+	return closeErr
 }
 
 // WriteFile sets the contents of a file to the given data, creating it if
-- 
2.43.0


From de45a04da3d67aaf9b5479fb24234d5d5f468f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:06 +0000
Subject: [PATCH 65/68] fix: flushing an unmounted FAT8 volume overwrote the
 image's tables with stale ones

---
 file_systems/fat8/driver.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/file_systems/fat8/driver.go b/file_systems/fat8/driver.go
index be834b1..24138aa 100644
--- a/file_systems/fat8/driver.go
+++ b/file_systems/fat8/driver.go
@@ -103,6 +103,11 @@ func (driver *FAT8Driver) Mount(flags disko.MountFlags) error {
 
 // Flush implements [disko.FileSystemImplementer].
 func (driver *FAT8Driver) Flush() error {
+	// What was on a volume which has been unmounted must not be written to what's
+	// been put in its place.
+	if !driver.isMounted {
+		return nil
+	}
 	return driver.writeFAT()
 }
 
-- 
2.43.0


From 9d5b2fe1db14b7bc75fc596424a7b53ab8f58d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:50 +0000
Subject: [PATCH 66/68] fix: opening an object whose implementation gives no
 status crashed

---
 driver/file.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/driver/file.go b/driver/file.go
index 3035b5c..44d31e3 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -135,6 +135,11 @@ func NewFileFromObjectHandle(
 	stat := object.Stat()
 	objectSize := stat.Size
 
+	// An implementation may not provide any information about the object.
+	if stat.BlockSize <= 0 {
+		return File{}, disko.ErrNotSupported.WithMessage("object has no valid block size")
+	}
+
 	resizeCb := func(newTotalBlocks common.LogicalBlock) error {
 		if isClosed {
 			return disko.ErrFileDescriptorBadState
-- 
2.43.0


From a0bc72cf47081fb143b33eb223514cd9c81df40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:17 +0000
Subject: [PATCH 67/68] fix: compression took a failure of its input for the
 end if the error wraps io.EOF

---
 utilities/compression/rle8.go        | 13 ++++++-------
 utilities/compression/rle_grouper.go |  4 ++--
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/utilities/compression/rle8.go b/utilities/compression/rle8.go
index 42747fd..40271e0 100644
--- a/utilities/compression/rle8.go
+++ b/utilities/compression/rle8.go
@@ -3,7 +3,6 @@ package compression
 import (
 	"bufio"
 	"bytes"
-	"errors"
 	"fmt"
 	"io"
 )
@@ -17,7 +16,7 @@ func CompressRLE8(input io.Reader, output io.Writer) (int64, error) {
 	totalBytesWritten := int64(0)
 	for {
 		run, getRunErr := grouper.GetNextRun()
-		if getRunErr != nil && !errors.Is(getRunErr, io.EOF) {
+		if getRunErr != nil && getRunErr != io.EOF {
 			// An error was encountered and it's *not* EOF.
 			return totalBytesWritten, getRunErr
 		}
@@ -63,7 +62,7 @@ func DecompressRLE8(input io.Reader, output io.Writer) (int64, error) {
 	for {
 		currentByte, err := source.ReadByte()
 		if err != nil {
-			if errors.Is(err, io.EOF) {
+			if err == io.EOF {
 				return totalBytesWritten, nil
 			}
 			return totalBytesWritten, fmt.Errorf("error reading input: %w", err)
@@ -75,7 +74,7 @@ func DecompressRLE8(input io.Reader, output io.Writer) (int64, error) {
 			// count.
 			repeatCountByte, err := source.ReadByte()
 			if err != nil {
-				if errors.Is(err, io.EOF) {
+				if err == io.EOF {
 					err = fmt.Errorf(
 						"%w: missing repeat count after two %02x bytes",
 						io.ErrUnexpectedEOF,
@@ -130,7 +129,7 @@ func CompressRLERecursive(input io.Reader, output io.Writer) (int64, error) {
 	totalBytesWritten := int64(0)
 	for {
 		run, getRunErr := grouper.GetNextRun()
-		if getRunErr != nil && !errors.Is(getRunErr, io.EOF) {
+		if getRunErr != nil && getRunErr != io.EOF {
 			// An error was encountered and it's *not* EOF.
 			return totalBytesWritten, getRunErr
 		}
@@ -183,7 +182,7 @@ func DecompressRLERecursive(input io.Reader, output io.Writer) (int64, error) {
 	for {
 		currentByte, err := source.ReadByte()
 		if err != nil {
-			if errors.Is(err, io.EOF) {
+			if err == io.EOF {
 				return totalBytesWritten, nil
 			}
 			return totalBytesWritten, fmt.Errorf("error reading input: %w", err)
@@ -206,7 +205,7 @@ func DecompressRLERecursive(input io.Reader, output io.Writer) (int64, error) {
 		for repeatCountByte := byte(255); repeatCountByte == 255; {
 			repeatCountByte, err = source.ReadByte()
 			if err != nil {
-				if errors.Is(err, io.EOF) {
+				if err == io.EOF {
 					err = fmt.Errorf(
 						"%w: missing repeat count after two %02x bytes",
 						io.ErrUnexpectedEOF,
diff --git a/utilities/compression/rle_grouper.go b/utilities/compression/rle_grouper.go
index 16c225f..e107fce 100644
--- a/utilities/compression/rle_grouper.go
+++ b/utilities/compression/rle_grouper.go
@@ -2,7 +2,6 @@ package compression
 
 import (
 	"bufio"
-	"errors"
 	"io"
 	"math"
 )
@@ -61,7 +60,8 @@ func (grouper RLEGrouper) GetNextRun() (ByteRun, error) {
 		// reached the end of the file on the previous read. On this read,
 		// currentByte is invalid.
 		if err != nil {
-			if errors.Is(err, io.EOF) {
+			// NB: An error which merely wraps io.EOF is a failure, not the end.
+			if err == io.EOF {
 				// Hit EOF. If we get here then the previous byte we read was part
 				// of the current run, so we don't unread the last byte we saw.
 				return ByteRun{Byte: firstByte, RunLength: runLength}, io.EOF
-- 
2.43.0


From 752e304b5f4d06550df08962a6db69df3b11f998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:06 +0000
Subject: [PATCH 68/68] fix: SameFile crashed on information from outside the
 driver

Comparing information which isn't about a file of this driver, e.g. of a file
on the host system, panicked because of an unchecked type assertion. It's
simply not the same file, as with os.SameFile.
---
 driver/driver.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index c37bf8f..c08d21f 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -587,9 +587,10 @@ func (driver *BaseDriver) ReadFile(path string) ([]byte, error) {
 }
 
 func (driver *BaseDriver) SameFile(fi1, fi2 os.FileInfo) bool {
-	stat1 := fi1.Sys().(disko.FileStat)
-	stat2 := fi2.Sys().(disko.FileStat)
-	return stat1.InodeNumber == stat2.InodeNumber
+	// Like [os.SameFile], this returns false for information from anywhere else.
+	stat1, ok1 := fi1.Sys().(disko.FileStat)
+	stat2, ok2 := fi2.Sys().(disko.FileStat)
+	return ok1 && ok2 && stat1.InodeNumber == stat2.InodeNumber
 }
 
 func (driver *BaseDriver) Stat(path string) (disko.FileStat, error) {
-- 
2.43.0

