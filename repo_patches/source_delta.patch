From 5efb7ea0873dd272e103ee99755df30457e7723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:19 +0000
Subject: [PATCH 01/40] fix: FileSystem_POSIX::makeDir reports AccessDenied for
 EACCES as documented

---
 .../runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index 6d6fd5e..4818fcc 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -123,6 +123,8 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::makeDir(FileSystem*, StringView path) {
             case EISDIR: {
                 return FileSystem::setLastResult(FSResult::AlreadyExists);
             }
+            case EACCES:
+                return FileSystem::setLastResult(FSResult::AccessDenied);
             default: {
                 PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
                 return FileSystem::setLastResult(FSResult::Unknown);
-- 
2.43.0


From 040bffd5a2d3d00561ffb191a98e37a304d319a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:19 +0000
Subject: [PATCH 02/40] fix: FileSystem_POSIX::removeDirTree reports
 AccessDenied for EACCES as documented

---
 .../ply-runtime/filesystem/impl/FileSystem_POSIX.cpp        | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index 4818fcc..47aa5d9 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -279,6 +279,9 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::removeDirTree(FileSystem* fs, StringVie
         } else {
             int rc = unlink(joined.withNullTerminator().bytes);
             if (rc != 0) {
+                if (errno == EACCES) {
+                    return FileSystem::setLastResult(FSResult::AccessDenied);
+                }
                 PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
                 return FileSystem::setLastResult(FSResult::Unknown);
             }
@@ -286,6 +289,9 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::removeDirTree(FileSystem* fs, StringVie
     }
     int rc = rmdir(dirPath.withNullTerminator().bytes);
     if (rc != 0) {
+        if (errno == EACCES) {
+            return FileSystem::setLastResult(FSResult::AccessDenied);
+        }
         PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
         return FileSystem::setLastResult(FSResult::Unknown);
     }
-- 
2.43.0


From 3bf7bf12c0577e91427b099a51cfc3494180d467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:19 +0000
Subject: [PATCH 03/40] fix: directory iteration keeps the Unknown result code
 when stat fails instead of reporting OK

---
 .../runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp   | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index 47aa5d9..5b61996 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -84,8 +84,7 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::DirImpl::nextImpl(ply::Directory::Impl*
                         }
                         default: {
                             PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
-                            FileSystem::setLastResult(FSResult::Unknown);
-                            break;
+                            return FileSystem::setLastResult(FSResult::Unknown);
                         }
                     }
                 } else {
-- 
2.43.0


From 618caa23f79a7afdd624f8e28cfaee342b5f4e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:26 +0000
Subject: [PATCH 04/40] fix: TCPListener_POSIX::accept treats descriptor 0 as a
 connection instead of leaking it

---
 .../src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp
index 86e5f74..04203ed 100644
--- a/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/network/impl/Socket_POSIX.cpp
@@ -78,7 +78,7 @@ PLY_NO_INLINE Owned<TCPConnection_POSIX> TCPListener_POSIX::accept() {
     socklen_t passedAddrLen = remoteAddrLen;
     int hostSocket = ::accept(this->listenSocket, (struct sockaddr*) &remoteAddr, &remoteAddrLen);
 
-    if (hostSocket <= 0) {
+    if (hostSocket < 0) {
         // FIXME: Check errno
         PLY_ASSERT(PLY_IPPOSIX_ALLOW_UNKNOWN_ERRORS);
         Socket_POSIX::lastResult_.store(IPResult::Unknown);
-- 
2.43.0


From b64955ffb2e2432b597985ce52e8f4836cd3b258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:48 +0000
Subject: [PATCH 05/40] fix: iterating block views up to an end position stops
 in the end block instead of dereferencing null

---
 repos/plywood/src/runtime/ply-runtime/container/BlockList.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/BlockList.h b/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
index f002996..2602970 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
@@ -153,7 +153,11 @@ struct BlockList {
             return *this;
         }
         PLY_INLINE void operator++() {
-            this->curPos = this->curPos.block->weakRefToNext();
+            if (this->curPos.block == this->endPos.block) {
+                this->curPos = this->endPos; // The last block was just visited
+            } else {
+                this->curPos = this->curPos.block->weakRefToNext();
+            }
         }
         PLY_INLINE bool operator!=(const RangeForIterator&) const {
             return this->curPos != this->endPos;
-- 
2.43.0


From 8ae10b720fd214b2265441d687aab24af4b734f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:42 +0000
Subject: [PATCH 06/40] fix: InStream::tryMakeBytesAvailable keeps unread bytes
 when a request extends past the current block

---
 .../src/runtime/ply-runtime/io/InStream.cpp   | 110 +++++++++---------
 1 file changed, 54 insertions(+), 56 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp b/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
index ca9a764..b0eeba9 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
@@ -65,69 +65,80 @@ PLY_NO_INLINE u32 InStream::tryMakeBytesAvailableInternal(u32 numRequestedBytes)
         return 0;
     }
 
-    Reference<BlockList::Footer> overlayBlock;
-    u32 numBytesNeededToCompleteRequest = numRequestedBytes;
     for (;;) {
         // this->curByte points to the read position in the current block.
         // this->endByte points to the write position in the current block.
         PLY_ASSERT(this->block->viewUsedBytes().contains(this->curByte));
         PLY_ASSERT(this->endByte == this->block->unused());
 
-        u32 numUnreadBytesInCurrentBlock = safeDemote<u32>(this->block->unused() - this->curByte);
-        if (numBytesNeededToCompleteRequest <= numUnreadBytesInCurrentBlock)
-            break; // Current block has enough data to fulfill the remainder of the request.
+        u32 numUnreadBytes = safeDemote<u32>(this->block->unused() - this->curByte);
+        if (numRequestedBytes <= numUnreadBytes)
+            break; // Current block has enough data to fulfill the request.
 
-        if (this->block->nextBlock) {
+        StringView nextBytes; // Unread data in the next block, if any.
+        if (BlockList::Footer* nextBlock = this->block->nextBlock) {
             // Another block follows this one in the list, and we already know, from the previous
-            // check, that this block doesn't contain enough unread data to fulfill the rest of the
-            // request.
-            PLY_ASSERT(numUnreadBytesInCurrentBlock < numBytesNeededToCompleteRequest);
-            if (numUnreadBytesInCurrentBlock > 0) {
-                // Copy unread data to overlayBlock (creating overlayBlock first, if needed).
-                if (!overlayBlock) {
-                    PLY_ASSERT(numBytesNeededToCompleteRequest == numRequestedBytes);
-                    overlayBlock = BlockList::createOverlayBlock({this->block, this->block->bytes},
-                                                                 numRequestedBytes);
-                }
-                if (overlayBlock) {
-                    memcpy(overlayBlock->bytes + numRequestedBytes -
-                               numBytesNeededToCompleteRequest,
-                           this->curByte, numUnreadBytesInCurrentBlock);
-                }
-                numBytesNeededToCompleteRequest -= numUnreadBytesInCurrentBlock;
-            }
-            // Advance to next block.
-            BlockList::Footer* nextBlock = this->block->nextBlock;
+            // check, that this block doesn't contain enough unread data to fulfill the request.
             u32 offsetIntoNextBlock =
                 this->block->numBytesUsed -
                 safeDemote<u32>(nextBlock->fileOffset - this->block->fileOffset);
-            this->block = nextBlock;
             PLY_ASSERT(offsetIntoNextBlock <= nextBlock->numBytesUsed);
-            this->curByte = nextBlock->bytes + offsetIntoNextBlock;
-            this->endByte = nextBlock->bytes + nextBlock->numBytesUsed;
+            nextBytes = StringView::fromRange(nextBlock->bytes + offsetIntoNextBlock,
+                                              nextBlock->unused());
+            if (numUnreadBytes == 0) {
+                // Advance to next block.
+                this->block = nextBlock;
+                this->curByte = nextBytes.bytes;
+                this->endByte = nextBytes.end();
+                continue;
+            }
         } else {
-            u32 unreadStorageInCurrentBlock = safeDemote<u32>(this->block->end() - this->curByte);
-            if (unreadStorageInCurrentBlock < numBytesNeededToCompleteRequest) {
-                // Append a new block
-                BlockList::appendBlockWithRecycle(this->block, max(numBytesNeededToCompleteRequest, this->getBlockSize()));
+            u32 unreadStorage = safeDemote<u32>(this->block->end() - this->curByte);
+            if (numRequestedBytes <= unreadStorage)
+                break; // Current block has enough storage to fulfill the request.
+            if (numUnreadBytes == 0) {
+                // Append a new block.
+                BlockList::appendBlockWithRecycle(this->block,
+                                                  max(numRequestedBytes, this->getBlockSize()));
                 this->curByte = this->block->bytes;
                 this->endByte = this->block->bytes; // nothing written to this block yet
+                break;
             }
-            // Current block has enough storage to fulfill the remainder of the request.
-            break;
         }
+
+        // The request extends past the end of the current block, which still contains unread data.
+        // End the current block here and follow it with an overlay block that begins at the current
+        // read position. The overlay block takes the place of the next block, if there was one.
+        u32 numBytesInOverlay = numUnreadBytes + nextBytes.numBytes;
+        Reference<BlockList::Footer> overlayBlock = BlockList::createOverlayBlock(
+            {this->block, const_cast<char*>(this->curByte)},
+            max(max(numRequestedBytes, numBytesInOverlay), this->getBlockSize()));
+        memcpy(overlayBlock->bytes, this->curByte, numUnreadBytes);
+        memcpy(overlayBlock->bytes + numUnreadBytes, nextBytes.bytes, nextBytes.numBytes);
+        overlayBlock->numBytesUsed = numBytesInOverlay;
+        this->block->numBytesUsed = this->block->offsetOf(const_cast<char*>(this->curByte));
+        overlayBlock->prevBlock = this->block;
+        overlayBlock->nextBlock = nullptr;
+        if (this->block->nextBlock) {
+            overlayBlock->nextBlock = this->block->nextBlock->nextBlock;
+        }
+        this->block->nextBlock = overlayBlock;
+        if (overlayBlock->nextBlock) {
+            overlayBlock->nextBlock->prevBlock = overlayBlock;
+        }
+        this->block = std::move(overlayBlock);
+        this->curByte = this->block->bytes;
+        this->endByte = this->block->unused();
     }
 
-    // Current block has enough storage to fulfill the remainder of the request, but we still might
-    // need to fill it with data from the underlying pipe.
-    PLY_ASSERT(numBytesNeededToCompleteRequest <=
-               safeDemote<u32>(this->block->end() - this->curByte));
-    u32 numBytesAvailableToReadInBlock;
+    // Current block has enough storage to fulfill the request, but we still might need to fill it
+    // with data from the underlying pipe.
+    u32 numBytesToReturn;
     for (;;) {
-        numBytesAvailableToReadInBlock =
-            safeDemote<u32>(this->block->unused() - this->curByte);
-        if (numBytesAvailableToReadInBlock >= numBytesNeededToCompleteRequest)
-            break; // Current block has enough data to fulfill remainder of request.
+        PLY_ASSERT(numRequestedBytes <= safeDemote<u32>(this->block->end() - this->curByte));
+        numBytesToReturn = safeDemote<u32>(this->block->unused() - this->curByte);
+        if (numBytesToReturn >= numRequestedBytes)
+            break; // Current block has enough data to fulfill the request.
 
         PLY_ASSERT(!this->block->nextBlock); // We can only write to the end of the block list.
         // Read more data from the underlying pipe.
@@ -141,19 +152,6 @@ PLY_NO_INLINE u32 InStream::tryMakeBytesAvailableInternal(u32 numRequestedBytes)
         PLY_ASSERT(this->endByte == this->block->unused());
     }
 
-    u32 numBytesToReturn =
-        numRequestedBytes - numBytesNeededToCompleteRequest + numBytesAvailableToReadInBlock;
-
-    // If we created a overlayBlock, finish copying data to it now, and expose the overlayBlock to
-    // the caller.
-    if (overlayBlock) {
-        PLY_ASSERT(numBytesNeededToCompleteRequest > 0);
-        memcpy(overlayBlock->bytes + numRequestedBytes - numBytesNeededToCompleteRequest,
-               this->curByte, numBytesNeededToCompleteRequest);
-        this->curByte = overlayBlock->bytes;
-        this->endByte = overlayBlock->bytes + numBytesToReturn;
-    }
-
     return numBytesToReturn;
 }
 
-- 
2.43.0


From a5028c02274313e5228cb0975e7c56216958919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:34 +0000
Subject: [PATCH 07/40] fix: Array::adopt records the allocated size instead of
 an uninitialised value

---
 repos/plywood/src/runtime/ply-runtime/container/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Array.h b/repos/plywood/src/runtime/ply-runtime/container/Array.h
index 421a2dd..62b84f4 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Array.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Array.h
@@ -50,7 +50,7 @@ private:
     template <typename>
     friend class Array;
 
-    PLY_INLINE Array(T* items, u32 numItems, u32 allocator)
+    PLY_INLINE Array(T* items, u32 numItems, u32 allocated)
         : items{items}, numItems_{numItems}, allocated{allocated} {
     }
 
-- 
2.43.0


From 5bf349e4dc4fbe9dc3319502cd770944e0f437cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:11 +0000
Subject: [PATCH 08/40] fix: OutPipe_FD retries write() when it is interrupted
 by a signal

---
 repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
index 8913365..bc7e9b8 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
@@ -66,6 +66,8 @@ PLY_NO_INLINE bool OutPipe_FD_write(OutPipe* outPipe_, StringView buf) {
     PLY_ASSERT(outPipe->fd >= 0);
     while (buf.numBytes > 0) {
         s32 sent = (s32)::write(outPipe->fd, buf.bytes, buf.numBytes);
+        if (sent < 0 && errno == EINTR)
+            continue;
         if (sent <= 0)
             return false;
         PLY_ASSERT((u32) sent <= buf.numBytes);
-- 
2.43.0


From d8978ef877f44c3cb1339b1952100c81b9c03344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:11 +0000
Subject: [PATCH 09/40] fix: flushing or destroying an OutStream after a failed
 write no longer asserts

---
 repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp b/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp
index 85938ed..57a341a 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp
@@ -60,7 +60,9 @@ PLY_NO_INLINE bool OutStream::flushInternal() {
         return true;
 
     // this->block->numBytesUsed is the last flushed offset
-    PLY_ASSERT(this->endByte == this->block->bytes + this->block->blockSize);
+    // (After a failed flush, endByte is equal to curByte.)
+    PLY_ASSERT(this->endByte == this->block->bytes + this->block->blockSize ||
+               this->status.eof);
     u32 newWritePos = safeDemote<u32>(this->curByte - this->block->bytes);
     PLY_ASSERT(newWritePos >= this->block->numBytesUsed);
     PLY_ASSERT(newWritePos <= this->block->blockSize);
-- 
2.43.0


From 9cf47d857b2e89fa6d52c8d99537682596596b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:11 +0000
Subject: [PATCH 10/40] fix: OutStream::writeByte returns !atEOF() as
 documented

---
 repos/plywood/src/runtime/ply-runtime/io/OutStream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/OutStream.h b/repos/plywood/src/runtime/ply-runtime/io/OutStream.h
index 3bc3866..35f5996 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/OutStream.h
+++ b/repos/plywood/src/runtime/ply-runtime/io/OutStream.h
@@ -222,7 +222,7 @@ public:
             return false;
         *this->curByte = byte;
         this->curByte++;
-        return true;
+        return this->status.eof == 0;
     }
 
     PLY_DLL_ENTRY bool writeSlowPath(StringView src);
-- 
2.43.0


From 12d3038380760bb9fb613334256d53911e6aeb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:11 +0000
Subject: [PATCH 11/40] fix: TextConverter keeps input bytes that do not
 complete the buffered code point

---
 .../src/runtime/ply-runtime/io/text/TextConverter.cpp     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
index 2c0fdf2..3748d2f 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
@@ -63,8 +63,14 @@ PLY_NO_INLINE bool TextConverter::convert(MutableStringView* dstBuf, StringView*
             PLY_ASSERT((decoded.point >= 0) == (decoded.numBytes > 0));
             // If flush is true and there's an (invalid) point to consume, we'll consume it below.
             // Otherwise, don't consume anything and return from here:
-            if (!(flush && decoded.point >= 0))
+            if (!(flush && decoded.point >= 0)) {
+                if (!flush) {
+                    // Keep the input that was appended to srcSmallBuf.
+                    this->srcSmallBuf.numBytes += numCopiedFromSrc;
+                    srcBuf->offsetHead(numCopiedFromSrc);
+                }
                 return wroteAnything;
+            }
         }
         PLY_ASSERT((decoded.point >= 0) && (decoded.numBytes > 0));
 
-- 
2.43.0


From 0ce84d8ab0c7a0d5e303f764ab7366146cc95bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:15 +0000
Subject: [PATCH 12/40] fix: InPipe_FD::readSome returns 0 on error as
 documented instead of asserting

---
 repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
index bc7e9b8..cb5bd8c 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
@@ -27,9 +27,8 @@ PLY_NO_INLINE u32 InPipe_FD_readSome(InPipe* inPipe_, MutableStringView buf) {
     do {
         rc = (s32)::read(inPipe->fd, buf.bytes, buf.numBytes);
     } while (rc == -1 && errno == EINTR);
-    PLY_ASSERT(rc >= 0); // Note: Will probably need to detect closed pipes here
     if (rc < 0)
-        return 0;
+        return 0; // For example, the connection was reset by the peer
     return rc;
 }
 
-- 
2.43.0


From 2d186536098884cd07813cc6b69a9db69b713059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:15 +0000
Subject: [PATCH 13/40] fix: InStream::read and skip consume the bytes that are
 still available after a lookahead reached end of file

---
 repos/plywood/src/runtime/ply-runtime/io/InStream.cpp | 6 ------
 repos/plywood/src/runtime/ply-runtime/io/InStream.h   | 4 ++--
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp b/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
index b0eeba9..74fe508 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
@@ -181,9 +181,6 @@ PLY_NO_INLINE void InStream::rewind(const BlockList::WeakRef& pos) {
 }
 
 PLY_NO_INLINE bool InStream::readSlowPath(MutableStringView dst) {
-    if (this->status.eof)
-        return false;
-
     while (dst.numBytes > 0) {
         if (!this->tryMakeBytesAvailable()) {
             memset(dst.bytes, 0, dst.numBytes);
@@ -199,9 +196,6 @@ PLY_NO_INLINE bool InStream::readSlowPath(MutableStringView dst) {
 }
 
 PLY_NO_INLINE bool InStream::skipSlowPath(u32 numBytes) {
-    if (this->status.eof)
-        return false;
-
     while (numBytes > 0) {
         if (!this->tryMakeBytesAvailable()) {
             return false;
diff --git a/repos/plywood/src/runtime/ply-runtime/io/InStream.h b/repos/plywood/src/runtime/ply-runtime/io/InStream.h
index 3127bd6..4016b8b 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/InStream.h
+++ b/repos/plywood/src/runtime/ply-runtime/io/InStream.h
@@ -243,7 +243,7 @@ public:
         // implement memcpy() as a MOV:
         memcpy(dst.bytes, this->curByte, dst.numBytes);
         this->curByte += dst.numBytes;
-        return this->status.eof == 0;
+        return true;
     }
 
     PLY_DLL_ENTRY bool skipSlowPath(u32 numBytes);
@@ -259,7 +259,7 @@ public:
             return this->skipSlowPath(numBytes);
         }
         this->curByte += numBytes;
-        return this->status.eof == 0;
+        return true;
     }
 
     /*!
-- 
2.43.0


From 371ff4a0335a8c6567342c2696e4e38af8ef6cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:09 +0000
Subject: [PATCH 14/40] fix: compare instead of assign in
 BlockList::jumpToNextBlock/jumpToPrevBlock assertions

---
 repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp b/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
index f505e16..1862e39 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
@@ -91,7 +91,7 @@ PLY_NO_INLINE void BlockList::appendBlockWithRecycle(Reference<Footer>& block, u
 }
 
 PLY_NO_INLINE u32 BlockList::jumpToNextBlock(WeakRef* weakRef) {
-    PLY_ASSERT(weakRef->byte = weakRef->block->unused());
+    PLY_ASSERT(weakRef->byte == weakRef->block->unused());
     if (!weakRef->block->nextBlock)
         return 0;
     weakRef->block = weakRef->block->nextBlock;
@@ -100,7 +100,7 @@ PLY_NO_INLINE u32 BlockList::jumpToNextBlock(WeakRef* weakRef) {
 }
 
 PLY_NO_INLINE u32 BlockList::jumpToPrevBlock(WeakRef* weakRef) {
-    PLY_ASSERT(weakRef->byte = weakRef->block->start());
+    PLY_ASSERT(weakRef->byte == weakRef->block->start());
     if (!weakRef->block->prevBlock)
         return 0;
     weakRef->block = weakRef->block->prevBlock;
-- 
2.43.0


From fd84a8b35c98e13eea6d81eb3f5243e87a6414c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:46 +0000
Subject: [PATCH 15/40] fix: Float4x4::makeProjection scales the vertical
 offset by the vertical extent

---
 repos/plywood/src/math/math/ply-math/Matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/math/math/ply-math/Matrix.cpp b/repos/plywood/src/math/math/ply-math/Matrix.cpp
index b0903ed..cc284e1 100644
--- a/repos/plywood/src/math/math/ply-math/Matrix.cpp
+++ b/repos/plywood/src/math/math/ply-math/Matrix.cpp
@@ -285,7 +285,7 @@ PLY_NO_INLINE Float4x4 Float4x4::makeProjection(const Rect& frustum, float zNear
     result.col[0].x = 2.f * ooXDenom;
     result.col[2].x = (frustum.mins.x + frustum.maxs.x) * ooXDenom;
     result.col[1].y = 2.f * ooYDenom;
-    result.col[2].y = (frustum.mins.y + frustum.maxs.y) * ooXDenom;
+    result.col[2].y = (frustum.mins.y + frustum.maxs.y) * ooYDenom;
     result.col[2].z = (zNear + zFar) * ooZDenom;
     result.col[2].w = -1.f;
     result.col[3].z = (2 * zNear * zFar) * ooZDenom;
-- 
2.43.0


From 4727db18d59a7ac9cf5549534058b3627692f56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:46 +0000
Subject: [PATCH 16/40] fix: ScalePos2::makeTranslation keeps the scale at one

---
 repos/plywood/src/math/math/ply-math/QuatPos.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/math/math/ply-math/QuatPos.h b/repos/plywood/src/math/math/ply-math/QuatPos.h
index bf9d301..c95a925 100644
--- a/repos/plywood/src/math/math/ply-math/QuatPos.h
+++ b/repos/plywood/src/math/math/ply-math/QuatPos.h
@@ -31,7 +31,7 @@ struct ScalePos2 {
     }
 
     static ScalePos2 makeTranslation(const Float2& pos) {
-        return {{0, 0}, pos};
+        return {{1, 1}, pos};
     }
 
     static ScalePos2 mapToRect(const Rect& r) {
-- 
2.43.0


From 6d7d823d3e6d3018de9b3e5103dea27231f775a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:46 +0000
Subject: [PATCH 17/40] fix: Box::full spans every value

---
 repos/plywood/src/math/math/ply-math/Box.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/math/math/ply-math/Box.h b/repos/plywood/src/math/math/ply-math/Box.h
index cfacd94..84b883b 100644
--- a/repos/plywood/src/math/math/ply-math/Box.h
+++ b/repos/plywood/src/math/math/ply-math/Box.h
@@ -170,7 +170,7 @@ struct Box {
     }
 
     static Box full() {
-        return {V{Limits<T>::Min}, V{Limits<T>::Min}};
+        return {V{Limits<T>::Min}, V{Limits<T>::Max}};
     }
 };
 
-- 
2.43.0


From 014c5064c7030e64f48401a29033534a185bf3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:46 +0000
Subject: [PATCH 18/40] fix: AxisRotPos::toFloat4x4 keeps the translation

---
 repos/plywood/src/math/math/ply-math/AxisVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/math/math/ply-math/AxisVector.h b/repos/plywood/src/math/math/ply-math/AxisVector.h
index f4cb51a..9d8de94 100644
--- a/repos/plywood/src/math/math/ply-math/AxisVector.h
+++ b/repos/plywood/src/math/math/ply-math/AxisVector.h
@@ -299,7 +299,7 @@ struct AxisRotPos {
     }
 
     Float4x4 toFloat4x4() const {
-        return Float4x4{rot.toFloat3x3()};
+        return Float4x4{rot.toFloat3x3(), pos};
     }
 };
 
-- 
2.43.0


From db1869173cc511cdedbbaee29c7e8175ed00304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:53 +0000
Subject: [PATCH 19/40] fix: NativeEndianReader::read returns zero instead of
 an uninitialised value when the input ends early

---
 repos/plywood/src/runtime/ply-runtime/io/InStream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/InStream.h b/repos/plywood/src/runtime/ply-runtime/io/InStream.h
index 4016b8b..5ff4dff 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/InStream.h
+++ b/repos/plywood/src/runtime/ply-runtime/io/InStream.h
@@ -482,7 +482,7 @@ public:
 
     template <typename T, typename = std::enable_if_t<std::is_arithmetic<T>::value>>
     PLY_INLINE T read() {
-        T value;
+        T value{};
         ins->read({(char*) &value, sizeof(value)});
         return value;
     }
-- 
2.43.0


From 314b47efaae1fd0b6391d9e8536df37a1567f3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:15 +0000
Subject: [PATCH 20/40] fix: dependency loop message has a placeholder for the
 kind of dependency

---
 .../src/build/repo/ply-build-repo/ProjectInstantiator.cpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/build/repo/ply-build-repo/ProjectInstantiator.cpp b/repos/plywood/src/build/repo/ply-build-repo/ProjectInstantiator.cpp
index be40e98..37ab47f 100644
--- a/repos/plywood/src/build/repo/ply-build-repo/ProjectInstantiator.cpp
+++ b/repos/plywood/src/build/repo/ply-build-repo/ProjectInstantiator.cpp
@@ -20,7 +20,7 @@ Dependency* ProjectInstantiator::instantiate(const DependencySource* depSrc, boo
         Dependency* dep = this->result->dependencies[*depCursor].dep;
         if (dep && !dep->initialized) {
             instantiatorError(
-                String::format("Loop detected for '{}'",
+                String::format("Loop detected for {} '{}'",
                                depSrc->type == DependencySource::Extern ? "extern" : "target",
                                RepoRegistry::get()->getShortDepSourceName(depSrc)));
             return nullptr;
-- 
2.43.0


From a5fa05ae95c6c2cb48be22106e76362341399b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:15 +0000
Subject: [PATCH 21/40] fix: escape the brace in crowbar's embedded expression
 error message

---
 repos/plywood/src/crowbar/ply-crowbar/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp b/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
index 63cf8a6..0eab014 100644
--- a/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
+++ b/repos/plywood/src/crowbar/ply-crowbar/Parser.cpp
@@ -163,7 +163,7 @@ void parseInterpolatedString(Parser* parser, Expression* expr) {
                 if (closeToken.type != TokenType::CloseCurly) {
                     error(parser, closeToken, ErrorTokenAction::HandleUnexpected,
                           String::format(
-                              "expected '}' to close embedded expression at {}; got {}",
+                              "expected '}}' to close embedded expression at {}; got {}",
                               parser->tkr->fileLocationMap.formatFileLocation(token.fileOffset),
                               closeToken.desc()));
                     skipAnyScope(parser, nullptr, TokenType::OpenCurly);
-- 
2.43.0


From 6ac2c4dba0773281b78262206e2558f445b36595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:11 +0000
Subject: [PATCH 22/40] fix: failed pylon parse returns an invalid node instead
 of dereferencing a null pointer

---
 repos/plywood/src/pylon/pylon/pylon/Parse.cpp | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
index d4542b6..f11427f 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
@@ -360,17 +360,17 @@ Owned<Node> Parser::readObject(const Token& startToken) {
                                      "separator between properties \"{}\" and \"{}\"",
                                      fmt::EscapedString{prevProperty.text, 20},
                                      fmt::EscapedString{firstToken.text, 20}));
-                return {};
+                return Node::createInvalid();
             }
         } else if (prevProperty.isValid()) {
             error(firstToken.fileOfs,
                   String::format("Unexpected {} after property \"{}\"", toString(firstToken),
                                  fmt::EscapedString{prevProperty.text, 20}));
-            return {};
+            return Node::createInvalid();
         } else {
             error(firstToken.fileOfs,
                   String::format("Expected property, got {}", toString(firstToken)));
-            return {};
+            return Node::createInvalid();
         }
 
         auto propLocationCursor = propLocations.insertOrFind(firstToken.text);
@@ -379,7 +379,7 @@ Owned<Node> Parser::readObject(const Token& startToken) {
                                         ParseError::Scope::duplicate(propLocationCursor->fileOfs)};
             error(firstToken.fileOfs, String::format("Duplicate property \"{}\"",
                                                       fmt::EscapedString{firstToken.text, 20}));
-            return {};
+            return Node::createInvalid();
         }
 
         Token colon = readToken();
@@ -387,7 +387,7 @@ Owned<Node> Parser::readObject(const Token& startToken) {
             error(colon.fileOfs,
                   String::format("Expected \":\" or \"=\" after \"{}\", got {}",
                                  fmt::EscapedString{firstToken.text, 20}, toString(colon)));
-            return {};
+            return Node::createInvalid();
         }
 
         {
@@ -404,7 +404,7 @@ Owned<Node> Parser::readObject(const Token& startToken) {
 
         prevProperty = std::move(firstToken);
     }
-    return {};
+    return Node::createInvalid();
 }
 
 Owned<Node> Parser::readArray(const Token& startToken) {
@@ -451,7 +451,7 @@ Owned<Node> Parser::readExpression(Token&& firstToken, const Token* afterToken)
             return Node::createText(std::move(firstToken.text), firstToken.fileOfs);
 
         case Token::Invalid:
-            return {};
+            return Node::createInvalid();
 
         default: {
             MemOutStream mout;
@@ -460,7 +460,7 @@ Owned<Node> Parser::readExpression(Token&& firstToken, const Token* afterToken)
                 mout << " after " << toString(*afterToken);
             }
             error(firstToken.fileOfs, mout.moveToString());
-            return {};
+            return Node::createInvalid();
         }
     }
 }
@@ -474,13 +474,13 @@ Parser::Result Parser::parse(StringView srcView_) {
     Token rootToken = readToken();
     Owned<Node> root = readExpression(std::move(rootToken));
     if (!root->isValid())
-        return {};
+        return {std::move(root), {}};
 
     Token nextToken = readToken();
     if (nextToken.type != Token::EndOfFile) {
         error(nextToken.fileOfs,
               String::format("Unexpected {} after {}", toString(nextToken), toString(root)));
-        return {};
+        return {Node::createInvalid(), {}};
     }
 
     return {std::move(root), std::move(this->fileLocMap)};
-- 
2.43.0


From acb2aecd25eb0812637236d3492598a5bc9a5060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:24 +0000
Subject: [PATCH 23/40] fix: pylon parser stops at the end of the text and
 reads non-ASCII bytes as bytes

---
 repos/plywood/src/pylon/pylon/pylon/Parse.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
index f11427f..e20f49b 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
@@ -10,7 +10,7 @@ namespace pylon {
 
 bool isAlnumUnit(u32 c) {
     return (c == '_') || (c == '$') || (c == '-') || (c == '.') || (c >= 'a' && c <= 'z') ||
-           (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || (c >= 128);
+           (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || (c >= 128 && c != (u32) -1);
 }
 
 void Parser::dumpError(const ParseError& error, OutStream& outs) const {
@@ -53,8 +53,9 @@ void Parser::error(u32 fileOfs, HybridString&& message) {
 void Parser::advanceChar() {
     if (readOfs + 1 < srcView.numBytes) {
         readOfs++;
-        nextUnit = srcView.bytes[readOfs];
+        nextUnit = (u8) srcView.bytes[readOfs];
     } else {
+        readOfs = srcView.numBytes;
         nextUnit = -1;
     }
 }
@@ -467,7 +468,7 @@ Owned<Node> Parser::readExpression(Token&& firstToken, const Token* afterToken)
 
 Parser::Result Parser::parse(StringView srcView_) {
     srcView = srcView_;
-    nextUnit = srcView.numBytes > 0 ? srcView[0] : -1;
+    nextUnit = srcView.numBytes > 0 ? (u8) srcView[0] : -1;
 
     this->fileLocMap = FileLocationMap::fromView(srcView_);
 
-- 
2.43.0


From 38c62b6a05a59418de9df89406de2937684e3757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:39 +0000
Subject: [PATCH 24/40] fix: pylon parser reads hexadecimal escapes instead of
 asserting

---
 repos/plywood/src/pylon/pylon/pylon/Parse.cpp | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
index e20f49b..02b7956 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
@@ -67,8 +67,24 @@ Parser::Token Parser::readPlainToken(Token::Type type) {
 }
 
 bool Parser::readEscapedHex(OutStream* outs, u32 escapeFileOfs) {
-    PLY_ASSERT(0); // FIXME
-    return false;
+    u32 code = 0;
+    for (u32 i = 0; i < 2; i++) {
+        s32 digit = 0;
+        if (nextUnit >= '0' && nextUnit <= '9') {
+            digit = nextUnit - '0';
+        } else if (nextUnit >= 'a' && nextUnit <= 'f') {
+            digit = nextUnit - 'a' + 10;
+        } else if (nextUnit >= 'A' && nextUnit <= 'F') {
+            digit = nextUnit - 'A' + 10;
+        } else {
+            error(escapeFileOfs, "Expected two hexadecimal digits after \"\\x\"");
+            return false;
+        }
+        code = code * 16 + digit;
+        advanceChar();
+    }
+    outs->writeByte((char) code);
+    return true;
 }
 
 Parser::Token Parser::readQuotedString() {
-- 
2.43.0


From dfe694d4cfd6de3d509992bd7bb158fb30554fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:37 +0000
Subject: [PATCH 25/40] fix: FileLocationMap handles positions at and after a
 chunk boundary

---
 .../runtime/ply-runtime/io/text/FileLocationMap.cpp    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
index 7371f75..e2e70d8 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
@@ -25,8 +25,9 @@ FileLocationMap FileLocationMap::fromView(StringView src) {
 
         DecodeResult decoded = UTF8::decodePoint(src);
         u32 nextOfs = ofs + decoded.numBytes;
-        if (nextOfs > nextChunkOfs) {
-            result.table.append({lineNumber, nextChunkOfs - lineStartOfs, columnNumber, ofs - 256});
+        if (nextOfs >= nextChunkOfs) {
+            result.table.append(
+                {lineNumber, nextChunkOfs - lineStartOfs, columnNumber, nextChunkOfs - ofs});
             nextChunkOfs += 256;
         }
         ofs = nextOfs;
@@ -66,6 +67,11 @@ FileLocation FileLocationMap::getFileLocation(u32 offset) const {
 
         // FIXME: Unify with similar code in previous function
         DecodeResult decoded = UTF8::decodePoint(src);
+        if (target - src.bytes < (sreg) decoded.numBytes) {
+            // Lands in the middle of a multibyte character
+            u32 nb = safeDemote<u32>(target - src.bytes);
+            return {lineNumber, safeDemote<u32>(target - lineStart), columnNumber, nb};
+        }
         src.offsetHead(decoded.numBytes);
 
         if (decoded.point == '\n') {
-- 
2.43.0


From b72bc714c86473f05b9fc83104af40686850d89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:59 +0000
Subject: [PATCH 26/40] fix: Functor destroys its callable and releases the one
 it replaces

---
 .../src/runtime/ply-runtime/container/Functor.h      | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Functor.h b/repos/plywood/src/runtime/ply-runtime/container/Functor.h
index 6ce6846..72761c2 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Functor.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Functor.h
@@ -15,6 +15,7 @@ struct Functor<Return(Args...)> {
 private:
     struct BaseWrapper {
         Return (*thunk)(BaseWrapper* wrapper, Args... args) = nullptr;
+        void (*destroy)(BaseWrapper* wrapper) = nullptr;
     };
 
     template <typename Callable>
@@ -24,9 +25,12 @@ private:
         static PLY_NO_INLINE Return thunk(BaseWrapper* wrapper, Args... args) {
             return static_cast<Wrapper*>(wrapper)->callable(std::forward<Args>(args)...);
         }
+        static PLY_NO_INLINE void destroy(BaseWrapper* wrapper) {
+            delete static_cast<Wrapper*>(wrapper);
+        }
         template <typename I>
         PLY_INLINE Wrapper(I&& callable)
-            : BaseWrapper{&thunk}, callable{std::forward<I>(callable)} {
+            : BaseWrapper{&thunk, &destroy}, callable{std::forward<I>(callable)} {
         }
     };
 
@@ -44,12 +48,16 @@ public:
     }
     PLY_INLINE ~Functor() {
         if (this->wrapper) {
-            delete this->wrapper;
+            this->wrapper->destroy(this->wrapper);
         }
     }
     PLY_INLINE void operator=(Functor&& other) {
+        BaseWrapper* oldWrapper = this->wrapper;
         this->wrapper = other.wrapper;
         other.wrapper = nullptr;
+        if (oldWrapper) {
+            oldWrapper->destroy(oldWrapper);
+        }
     }
     PLY_INLINE bool isValid() const {
         return this->wrapper != nullptr;
-- 
2.43.0


From bcdf02c527ccfcdf463f2b1495edc06ce487bf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:08 +0000
Subject: [PATCH 27/40] fix: shared null descriptors are read under the lock
 that guards them

---
 .../process/impl/Subprocess_POSIX.cpp         | 28 ++++++++-----------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp
index d976939..5426ed1 100644
--- a/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/process/impl/Subprocess_POSIX.cpp
@@ -59,15 +59,13 @@ struct Subprocess_POSIX : Subprocess {
 //--------------------------------
 PLY_NO_INLINE int getNullInFD_POSIX() {
     static int fd = -1;
+    static Mutex mutex;
+    LockGuard<Mutex> guard{mutex};
     if (fd == -1) {
-        static Mutex mutex;
-        LockGuard<Mutex> guard{mutex};
-        if (fd == -1) {
-            // FIXME: If open() fails, create a pipe here and spawn a thread that
-            // infinitely consumes the pipe's output.
-            fd = open("/dev/null", O_RDONLY);
-            PLY_ASSERT(fd != -1);
-        }
+        // FIXME: If open() fails, create a pipe here and spawn a thread that
+        // infinitely consumes the pipe's output.
+        fd = open("/dev/null", O_RDONLY);
+        PLY_ASSERT(fd != -1);
     }
     int fd2 = dup(fd);
     PLY_ASSERT(fd2 != -1);
@@ -76,15 +74,13 @@ PLY_NO_INLINE int getNullInFD_POSIX() {
 
 PLY_NO_INLINE int getNullOutFD_POSIX() {
     static int fd = -1;
+    static Mutex mutex;
+    LockGuard<Mutex> guard{mutex};
     if (fd == -1) {
-        static Mutex mutex;
-        LockGuard<Mutex> guard{mutex};
-        if (fd == -1) {
-            // FIXME: If open() fails, create a pipe here and spawn a thread that
-            // infinitely consumes the pipe's output.
-            fd = open("/dev/null", O_WRONLY);
-            PLY_ASSERT(fd != -1);
-        }
+        // FIXME: If open() fails, create a pipe here and spawn a thread that
+        // infinitely consumes the pipe's output.
+        fd = open("/dev/null", O_WRONLY);
+        PLY_ASSERT(fd != -1);
     }
     int fd2 = dup(fd);
     PLY_ASSERT(fd2 != -1);
-- 
2.43.0


From bf302fc6cc975696d65863c74441dcd7fb73dc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:22 +0000
Subject: [PATCH 28/40] fix: documentation server reads its contents under the
 lock that guards them

---
 .../ply-web-serve-docs/DocServer.cpp          | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
index 4889afc..f0d32d7 100644
--- a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
+++ b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
@@ -139,7 +139,12 @@ void DocServer::serve(StringView requestPath, ResponseIface* responseIface) {
         }
     }
 
-    if (!this->contents) {
+    bool haveContents = false;
+    {
+        ply::LockGuard<ply::Mutex> guard{this->contentsMutex};
+        haveContents = !this->contents.isEmpty();
+    }
+    if (!haveContents) {
         responseIface->respondGeneric(ResponseCode::InternalError);
         return;
     }
@@ -151,9 +156,12 @@ void DocServer::serve(StringView requestPath, ResponseIface* responseIface) {
     ViewInStream vins{pageHtml};
     String pageTitle = vins.readView<fmt::Line>().trim(isWhite);
 
-    // Figure out which TOC entries to expand
-    Array<const Contents*> expandTo;
+    // Render the TOC while the contents can't be reloaded
+    String sidebar;
     {
+        ply::LockGuard<ply::Mutex> guard{this->contentsMutex};
+        // Figure out which TOC entries to expand
+        Array<const Contents*> expandTo;
         auto cursor = this->pathToContents.find(
             requestPath ? (StringView{"/docs/"} + requestPath).view() : StringView{"/"});
         if (cursor.wasFound()) {
@@ -163,6 +171,11 @@ void DocServer::serve(StringView requestPath, ResponseIface* responseIface) {
                 node = node->parent;
             }
         }
+        MemOutStream mout;
+        for (const Contents* node : this->contents) {
+            dumpContents(&mout, node, expandTo);
+        }
+        sidebar = mout.moveToString();
     }
 
     OutStream* outs = responseIface->beginResponseHeader(ResponseCode::OK);
@@ -200,9 +213,7 @@ void DocServer::serve(StringView requestPath, ResponseIface* responseIface) {
       <div class="inner">
         <ul>
 )#";
-    for (const Contents* node : this->contents) {
-        dumpContents(outs, node, expandTo);
-    }
+    *outs << sidebar;
     outs->format(R"(
         </ul>
       </div>
-- 
2.43.0


From 751ed86d27105502430d1dc6a2db72c6e54a605b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:49 +0000
Subject: [PATCH 29/40] fix: type-id error names the first token of the
 qualified id it kept

---
 repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp b/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
index 80a5619..7a08bcc 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseSpecifiersAndDeclarators.cpp
@@ -195,7 +195,7 @@ void parseDeclarator(Parser* parser, grammar::Declarator& dcor,
                 // Qualified ID is not allowed here
                 // FIXME: Should rewind instead of consuming the qualified-id????
                 // The caller may log a more informative error at this token! (check test suite)
-                parser->error(false, {ParseError::TypeIDCannotHaveName, qid.getFirstToken()});
+                parser->error(false, {ParseError::TypeIDCannotHaveName, dcor.qid.getFirstToken()});
                 // Don't mute errors
             }
             break; // Got qualified-id
-- 
2.43.0


From 0c8c69e37a967427d8754852e56fbeb7164313b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:47 +0000
Subject: [PATCH 30/40] fix: skip unknown root targets when building the
 dependency tree

---
 repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp b/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp
index 8cb4c6e..0a75f49 100644
--- a/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp
+++ b/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp
@@ -210,6 +210,8 @@ PLY_NO_INLINE DependencyTree BuildFolder::buildDepTree() const {
             return instResult;
         }
         */
+        if (!targetInst)
+            continue; // findTargetInstantiator() has already reported the error
         bool makeShared = find(this->makeShared, targetName) >= 0;
         projInst.instantiate(targetInst, makeShared);
     }
-- 
2.43.0


From dd9a619f938d8bb6f94359f4925c510768c2b727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:47 +0000
Subject: [PATCH 31/40] fix: preprocessor errors reach the default supervisor
 when the caller passes none

---
 repos/plywood/src/cpp/ply-cpp/ParseAPI.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/ParseAPI.cpp b/repos/plywood/src/cpp/ply-cpp/ParseAPI.cpp
index 2584b95..e88fe2d 100644
--- a/repos/plywood/src/cpp/ply-cpp/ParseAPI.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/ParseAPI.cpp
@@ -54,7 +54,9 @@ grammar::TranslationUnit parse(String&& sourceCode, PPVisitedFiles* visitedFiles
     ParseSupervisor emptyVisor;
     parser.visor = visor ? visor : &emptyVisor;
 
-    pp.errorHandler = [&](Owned<BaseError>&& err) { visor->handleError(std::move(err)); };
+    pp.errorHandler = [&](Owned<BaseError>&& err) {
+        parser.visor->handleError(std::move(err));
+    };
 
     // Do parse
     grammar::TranslationUnit tu = parseTranslationUnit(&parser);
-- 
2.43.0


From 8f04a3740ea9cbe8e2a4e048b3ec176f7b0ffa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:47 +0000
Subject: [PATCH 32/40] fix: dumping an enum value that has no identifier
 prints its number

---
 repos/plywood/src/cpp/ply-cpp/DumpParseTree.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/DumpParseTree.cpp b/repos/plywood/src/cpp/ply-cpp/DumpParseTree.cpp
index 3154ade..fd4d6f7 100644
--- a/repos/plywood/src/cpp/ply-cpp/DumpParseTree.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/DumpParseTree.cpp
@@ -50,7 +50,12 @@ void dumpParseTree(OutStream* outs, AnyObject any, u32 indent, const PPVisitedFi
         } else {
             PLY_ASSERT(0);
         }
-        outs->format("{}::{}\n", enumType->name, enumType->findValue(runTimeValue)->name);
+        const auto* identifier = enumType->findValue(runTimeValue);
+        if (identifier) {
+            outs->format("{}::{}\n", enumType->name, identifier->name);
+        } else {
+            outs->format("{}::{}\n", enumType->name, runTimeValue);
+        }
     } else if (typeKey == TypeDescriptor_Array::typeKey) {
         TypeDescriptor_Array* arrayType = any.type->cast<TypeDescriptor_Array>();
         TypeDescriptor* itemType = arrayType->itemType;
-- 
2.43.0


From e81c4546554b83505bc8b9b189f6b5bbb8b02d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:47 +0000
Subject: [PATCH 33/40] fix: exporting an enum value that has no identifier
 gives an invalid node

---
 repos/plywood/src/pylon/reflect/pylon-reflect/Export.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/pylon/reflect/pylon-reflect/Export.cpp b/repos/plywood/src/pylon/reflect/pylon-reflect/Export.cpp
index 97f803f..27d1bae 100644
--- a/repos/plywood/src/pylon/reflect/pylon-reflect/Export.cpp
+++ b/repos/plywood/src/pylon/reflect/pylon-reflect/Export.cpp
@@ -59,7 +59,10 @@ PLY_NO_INLINE Owned<pylon::Node> exportObj(AnyObject obj, const FilterFunc& filt
         } else {
             PLY_ASSERT(0);
         }
-        return Node::createText(enumType->findValue(enumValue)->name.view());
+        const auto* identifier = enumType->findValue(enumValue);
+        if (!identifier)
+            return Node::createInvalid();
+        return Node::createText(identifier->name.view());
     } else if (obj.type->typeKey == &TypeKey_Owned) {
         auto* ownedDesc = obj.type->cast<TypeDescriptor_Owned>();
         AnyObject child{*(void**) obj.data, ownedDesc->targetType};
-- 
2.43.0


From e742cdb0ded17c0caf7ffa74cd798f2c07639dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:58 +0000
Subject: [PATCH 34/40] fix: RPC command reports a missing repo instead of
 dereferencing a failed lookup

---
 repos/plywood/src/apps/plytool/plytool/Command_RPC.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/apps/plytool/plytool/Command_RPC.cpp b/repos/plywood/src/apps/plytool/plytool/Command_RPC.cpp
index 76373f2..15035a6 100644
--- a/repos/plywood/src/apps/plytool/plytool/Command_RPC.cpp
+++ b/repos/plywood/src/apps/plytool/plytool/Command_RPC.cpp
@@ -10,6 +10,7 @@
 #include <ply-build-repo/ModuleArgs.h>
 #include <ply-build-folder/BuildFolder.h>
 #include <ply-build-repo/RepoRegistry.h>
+#include <ply-build-repo/ErrorHandler.h>
 #include <ply-build-provider/ExternFolderRegistry.h>
 #include <plytool-client/Command.h>
 #include <ConsoleUtils.h>
@@ -26,7 +27,11 @@ PLY_NO_INLINE void buildAndRun(const tool::Command::Type::Run& runCmd) {
     }
 
     PLY_SET_IN_SCOPE(RepoRegistry::instance_, RepoRegistry::create());
-    const Repo* plyRepo = RepoRegistry::get()->repos.find("ply")->get();
+    auto plyRepoCursor = RepoRegistry::get()->repos.find("ply");
+    if (!plyRepoCursor.wasFound()) {
+        ErrorHandler::log(ErrorHandler::Fatal, "Can't find repo 'ply'\n");
+    }
+    const Repo* plyRepo = plyRepoCursor->get();
     PLY_SET_IN_SCOPE(ExternFolderRegistry::instance_, ExternFolderRegistry::create());
     TargetInstantiator targetInst;
     targetInst.name = "AutoDiagramMaker"; // FIXME: generalize
-- 
2.43.0


From 0c5ec8cc0f3012482461cd1444dd8efa71875211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:03 +0000
Subject: [PATCH 35/40] fix: link destinations in the documentation sidebar are
 escaped

---
 .../plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
index f0d32d7..21f7363 100644
--- a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
+++ b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
@@ -22,7 +22,7 @@ void dumpContents(OutStream* outs, const Contents* node, ArrayView<const Content
     }
 
     if (node->linkDestination) {
-        outs->format("<a href=\"{}\">", node->linkDestination);
+        outs->format("<a href=\"{}\">", fmt::XMLEscape{node->linkDestination});
     }
     *outs << "<li";
     bool anyClasses = false;
-- 
2.43.0


From 0d7142ce550a462eac5016fa7768eefa0b5c8762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:25 +0000
Subject: [PATCH 36/40] fix: normalizing a path keeps every leading '..' and
 never goes above the root

---
 repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
index 1a11c52..88e0788 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
@@ -157,10 +157,14 @@ struct PathCompIterator {
         this->iterateOver(pathFmt, components, [&](StringView comp) { //
             if (comp == "..") {
                 if (normComps.numItems() > upCount) {
-                    normComps.pop();
+                    // The parent of the root folder is the root folder itself
+                    if (!pathFmt->isSepByte(normComps.back().back())) {
+                        normComps.pop();
+                    }
                 } else {
                     PLY_ASSERT(normComps.numItems() == upCount);
                     normComps.append("..");
+                    upCount++;
                 }
             } else if (comp != "." && !comp.isEmpty()) {
                 normComps.append(comp);
-- 
2.43.0


From 8e8a2bd154d113f20b31b8d871bccc3fb5f161b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:25 +0000
Subject: [PATCH 37/40] fix: virtual file system doesn't reach outside its root
 folder

---
 .../runtime/ply-runtime/filesystem/Path.cpp   | 20 +++++++++++++++++++
 .../src/runtime/ply-runtime/filesystem/Path.h |  6 ++++++
 .../filesystem/impl/FileSystem_Virtual.cpp    |  3 ++-
 3 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
index 88e0788..234c5ab 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
@@ -261,6 +261,26 @@ PLY_NO_INLINE String PathFormat::makeRelative(StringView ancestor, StringView de
     return mout.moveToString();
 }
 
+PLY_NO_INLINE bool PathFormat::staysInside(StringView path) const {
+    if (this->isAbsolute(path) || this->hasDriveLetter(path))
+        return false;
+    bool inside = true;
+    u32 depth = 0;
+    PathCompIterator compIter;
+    compIter.iterateOver(this, {path}, [&](StringView comp) {
+        if (comp == "..") {
+            if (depth == 0) {
+                inside = false;
+            } else {
+                depth--;
+            }
+        } else if (comp != ".") {
+            depth++;
+        }
+    });
+    return inside;
+}
+
 PLY_NO_INLINE HybridString PathFormat::from(const PathFormat& srcFormat, StringView srcPath) const {
     if (this->isWindows == srcFormat.isWindows)
         return srcPath;
diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.h b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.h
index 0d7d0c4..620249d 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.h
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.h
@@ -70,6 +70,9 @@ struct PathFormat {
         return joinAndNormalize(components);
     }
     PLY_DLL_ENTRY String makeRelative(StringView ancestor, StringView descendant) const;
+    // Returns true if path is relative and none of its components leads out of the folder that it's
+    // relative to:
+    PLY_DLL_ENTRY bool staysInside(StringView path) const;
     PLY_DLL_ENTRY HybridString from(const PathFormat& srcFormat, StringView srcPath) const;
     template <typename OtherTraits>
     PLY_INLINE HybridString from(StringView path) const {
@@ -115,6 +118,9 @@ struct Path {
     static PLY_INLINE String makeRelative(StringView ancestor, StringView descendant) {
         return PathFormat{IsWindows}.makeRelative(ancestor, descendant);
     }
+    static PLY_INLINE bool staysInside(StringView path) {
+        return PathFormat{IsWindows}.staysInside(path);
+    }
     template <typename... StringViews>
     static PLY_INLINE String normalize(StringViews&&... pathComponentArgs) {
         FixedArray<StringView, sizeof...(StringViews)> components{
diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
index e1f67f9..364b3fd 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
@@ -15,9 +15,10 @@ struct FileSystem_Virtual : FileSystem {
     FileSystem_Virtual();
 
     PLY_NO_INLINE String convertToTargetPath(StringView path) const {
-        // FIXME: should also detect and prohibit ".."
         PathFormat pathFmt = this->targetFS->pathFormat();
         PLY_ASSERT(!pathFmt.isAbsolute(path));
+        if (!pathFmt.staysInside(path))
+            return {}; // There's nothing at an empty path
         return pathFmt.join(this->targetRoot, PosixPath::from(pathFmt, path));
     }
 
-- 
2.43.0


From 2ddd5d84fcebc3a75e0f4bc02f88dddddad71a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:25 +0000
Subject: [PATCH 38/40] fix: web requests don't reach files outside the served
 folder

---
 .../src/web/common/web-common/FetchFromFileSystem.cpp     | 8 ++++++--
 repos/plywood/src/web/common/web-common/SourceCode.cpp    | 4 ++++
 .../src/web/serve-docs/ply-web-serve-docs/DocServer.cpp   | 2 +-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp b/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp
index 6e1c13e..f4c2ef8 100644
--- a/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp
+++ b/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp
@@ -49,8 +49,12 @@ PLY_NO_INLINE void FetchFromFileSystem::serve(const FetchFromFileSystem* params,
         return;
     }
 
-    String nativePath =
-        NativePath::join(params->rootDir, requestPath.ltrim([](char c) { return c == '/'; }));
+    StringView relPath = requestPath.ltrim([](char c) { return c == '/'; });
+    if (!NativePath::staysInside(relPath)) {
+        responseIface->respondGeneric(ResponseCode::NotFound);
+        return;
+    }
+    String nativePath = NativePath::join(params->rootDir, relPath);
 
     // FIXME: Don't load the whole file completely in memory first.
     // Could open the raw pipe and feed it to outs.
diff --git a/repos/plywood/src/web/common/web-common/SourceCode.cpp b/repos/plywood/src/web/common/web-common/SourceCode.cpp
index ad2c2a0..f633952 100644
--- a/repos/plywood/src/web/common/web-common/SourceCode.cpp
+++ b/repos/plywood/src/web/common/web-common/SourceCode.cpp
@@ -13,6 +13,10 @@ PLY_NO_INLINE void SourceCode::serve(const SourceCode* params, StringView reques
     // FIXME: Use FileSystem_Virtual and make really, really sure an adversary can't read files
     // outside the rootDir
     String normRequestPath = NativePath::normalize(requestPath.ltrim(NativePath::isSepByte));
+    if (!NativePath::staysInside(normRequestPath)) {
+        responseIface->respondGeneric(ResponseCode::NotFound);
+        return;
+    }
     Owned<InStream> ins =
         FileSystem::native()
             ->openTextForReadAutodetect(NativePath::join(params->rootDir, normRequestPath))
diff --git a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
index 21f7363..5875114 100644
--- a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
+++ b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
@@ -103,7 +103,7 @@ void DocServer::reloadContents() {
 
 String getPageSource(DocServer* ds, StringView requestPath, ResponseIface* responseIface) {
     FileSystem* fs = FileSystem::native();
-    if (NativePath::isAbsolute(requestPath)) {
+    if (!NativePath::staysInside(requestPath)) {
         responseIface->respondGeneric(ResponseCode::NotFound);
         return {};
     }
-- 
2.43.0


From b929eee0ef26ce9b502e9ab9e76268241adf7420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:35 +0000
Subject: [PATCH 39/40] fix: loading or saving a whole file reports failed
 reads and writes

---
 .../src/runtime/ply-runtime/filesystem/FileSystem.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
index 88a373b..66c4796 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
@@ -140,7 +140,11 @@ PLY_NO_INLINE String FileSystem::loadBinary(StringView path) {
         u64 fileSize = inPipe->getFileSize();
         // Files >= 4GB cannot be loaded this way:
         result.resize(safeDemote<u32>(fileSize));
-        inPipe->read({result.bytes, result.numBytes});
+        if (!inPipe->read({result.bytes, result.numBytes})) {
+            // Couldn't read the whole file. For example, the path refers to a directory.
+            FileSystem::setLastResult(FSResult::Unknown);
+            return {};
+        }
     }
     return result;
 }
@@ -201,7 +205,10 @@ PLY_NO_INLINE FSResult FileSystem::makeDirsAndSaveBinaryIfDifferent(StringView p
     if (result != FSResult::OK) {
         return result;
     }
-    outPipe->write(view);
+    if (!outPipe->write(view)) {
+        // Couldn't write the whole file. For example, the disk is full.
+        return FileSystem::setLastResult(FSResult::Unknown);
+    }
     return result;
 }
 
-- 
2.43.0


From bf8f19b0a912372784b359ae372cf18bcbe1c961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:35 +0000
Subject: [PATCH 40/40] fix: bytes that begin no UTF-8 sequence are invalid,
 not truncated

---
 repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp b/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp
index 097ec1f..42c835f 100644
--- a/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp
@@ -62,6 +62,8 @@ PLY_NO_INLINE DecodeResult UTF8::decodePointSlowPath(StringView view) {
         }
 
         default:
+            // No sequence begins with this byte
+            result.status = DecodeResult::Status::Invalid;
             break;
     }
 
-- 
2.43.0

