From 2a41b81a4cc2d4623bbbe9a0da9aa83b6be1d855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:35 +0000
Subject: [PATCH 01/38] Guarded small tuning constants for simulation
 (FL2_SIM_TUNING, off by default)

---
 fast-lzma2.h | 6 +++++-
 lzma2_dec.h  | 2 +-
 lzma2_enc.h  | 6 +++++-
 radix_mf.c   | 4 ++++
 radix_mf.h   | 6 +++++-
 5 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/fast-lzma2.h b/fast-lzma2.h
index 1ad31fe..7e764b5 100644
--- a/fast-lzma2.h
+++ b/fast-lzma2.h
@@ -450,7 +450,11 @@ FL2LIB_API size_t FL2LIB_CALL FL2_decompressStream(FL2_DStream* fds, FL2_outBuff
  *  the current parameters.
  * *******************************************************************************/
 
-#define FL2_DICTLOG_MIN      20
+#ifdef FL2_SIM_TUNING /* small sizes for simulation; never defined in a normal build */
+#  define FL2_DICTLOG_MIN    12
+#else
+#  define FL2_DICTLOG_MIN    20
+#endif
 #define FL2_DICTLOG_MAX_32   27
 #define FL2_DICTLOG_MAX_64   30
 #define FL2_DICTLOG_MAX      ((unsigned)(sizeof(size_t) == 4 ? FL2_DICTLOG_MAX_32 : FL2_DICTLOG_MAX_64))
diff --git a/lzma2_dec.h b/lzma2_dec.h
index ba0c2e3..2248890 100644
--- a/lzma2_dec.h
+++ b/lzma2_dec.h
@@ -209,7 +209,7 @@ typedef struct
     size_t unpack_size;
 } LZMA2_chunk;
 
-#if defined(FL2_DEBUG) && (FL2_DEBUG>=1)
+#if (defined(FL2_DEBUG) && (FL2_DEBUG>=1)) || defined(FL2_SIM_TUNING)
 #  define LZMA2_MT_INPUT_SIZE 0x400
 #else
 #  define LZMA2_MT_INPUT_SIZE 0x40000
diff --git a/lzma2_enc.h b/lzma2_enc.h
index 6e7dcbb..04382d3 100644
--- a/lzma2_enc.h
+++ b/lzma2_enc.h
@@ -19,7 +19,11 @@ extern "C" {
 #define kFastDistBits 12U
 
 #define LZMA2_END_MARKER '\0'
-#define ENC_MIN_BYTES_PER_THREAD 0x1C000 /* Enough for 8 threads, 1 Mb dict, 2/16 overlap */
+#ifdef FL2_SIM_TUNING
+#  define ENC_MIN_BYTES_PER_THREAD 0x200
+#else
+#  define ENC_MIN_BYTES_PER_THREAD 0x1C000 /* Enough for 8 threads, 1 Mb dict, 2/16 overlap */
+#endif
 
 
 typedef struct LZMA2_ECtx_s LZMA2_ECtx;
diff --git a/radix_mf.c b/radix_mf.c
index 346f894..688a100 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -101,7 +101,11 @@ static RMF_builder** RMF_createBuilderTable(U32* const match_table, size_t const
 
 static int RMF_isStruct(size_t const dictionary_size)
 {
+#ifdef FL2_SIM_TUNING
+    return dictionary_size > ((size_t)1 << 14);
+#else
     return dictionary_size > ((size_t)1 << RADIX_LINK_BITS);
+#endif
 }
 
 /* RMF_clampParams() :
diff --git a/radix_mf.h b/radix_mf.h
index f6ec88c..d5eb531 100644
--- a/radix_mf.h
+++ b/radix_mf.h
@@ -22,7 +22,11 @@ typedef struct FL2_matchTable_s FL2_matchTable;
 
 #define OVERLAP_FROM_DICT_SIZE(d, o) (((d) >> 4) * (o))
 
-#define RMF_MIN_BYTES_PER_THREAD 1024
+#ifdef FL2_SIM_TUNING
+#  define RMF_MIN_BYTES_PER_THREAD 256
+#else
+#  define RMF_MIN_BYTES_PER_THREAD 1024
+#endif
 
 typedef struct
 {
-- 
2.43.0


From c72ad0ded6cb57c9eb77f71b17383c4cfd9f10e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:02 +0000
Subject: [PATCH 02/38] fix: FL2_remainingOutputSize counted output already
 copied from a partly read slice

---
 fl2_compress.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 0ffeab0..a13e2b0 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1124,7 +1124,8 @@ FL2LIB_API size_t FL2LIB_CALL FL2_remainingOutputSize(const FL2_CStream* fcs)
     for (size_t u = fcs->outThread; u < fcs->threadCount; ++u)
         cSize += fcs->jobs[u].cSize;
 
-    return cSize;
+    /* part of the current slice may already be copied out */
+    return cSize - fcs->outPos;
 }
 
 /* Write the properties byte (if required), the hash and the end marker
-- 
2.43.0


From 5a0d9fd514c080c17c44e100e1c537676781a513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 03/38] fix: match finder read past the end of the block when
 extending a repeat

---
 radix_internal.h |  1 +
 radix_mf.c       | 15 ++++++++++-----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/radix_internal.h b/radix_internal.h
index 9bede0c..a835c08 100644
--- a/radix_internal.h
+++ b/radix_internal.h
@@ -80,6 +80,7 @@ typedef struct
 typedef struct
 {
     unsigned max_len;
+    size_t block_end;
     U32* table;
     size_t match_buffer_size;
     size_t match_buffer_limit;
diff --git a/radix_mf.c b/radix_mf.c
index 688a100..6c024cd 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -296,15 +296,18 @@ static void RMF_handleRepeat(RMF_buildMatch* const match_buffer,
     U32 count,
     U32 const rpt_len,
     U32 const depth,
-    U32 const max_len)
+    U32 const max_len,
+    size_t const block_end)
 {
     size_t pos = next;
     U32 length = depth + rpt_len;
+    /* Don't read beyond the end of the block */
+    size_t const limit = MIN(max_len, block_end - match_buffer[pos].from);
 
     const BYTE* const data = data_block + match_buffer[pos].from;
     const BYTE* const data_2 = data - rpt_len;
 
-    while (data[length] == data_2[length] && length < max_len)
+    while (length < limit && data[length] == data_2[length])
         ++length;
 
     for (; length <= max_len && count; --count) {
@@ -563,7 +566,7 @@ void RMF_recurseListChunk_generic(RMF_builder* const tbl,
                 size_t const next_link = tbl->match_buffer[next_index].from;
                 if ((link - next_link) > rpt_depth) {
                     if (rpt > 0)
-                        RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len);
+                        RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len, tbl->block_end);
 
                     rpt = -1;
                     U32 const prev = tbl->tails_8[radix_8].prev_index;
@@ -585,7 +588,7 @@ void RMF_recurseListChunk_generic(RMF_builder* const tbl,
                     U32 const dist = (U32)(link - next_link);
                     if (rpt < 0 || dist != rpt_dist) {
                         if (rpt > 0)
-                            RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len);
+                            RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len, tbl->block_end);
 
                         rpt = 0;
                         rpt_head_next = next_index;
@@ -612,7 +615,7 @@ void RMF_recurseListChunk_generic(RMF_builder* const tbl,
             } while (--list_count != 0);
 
             if (rpt > 0)
-                RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len);
+                RMF_handleRepeat(tbl->match_buffer, data_block, rpt_head_next, rpt, rpt_dist, rpt_depth, tbl->max_len, tbl->block_end);
 
             size_t const radix_8 = tbl->match_buffer[pos].src.chars[slot];
             U32 const prev = tbl->tails_8[radix_8].prev_index;
@@ -684,6 +687,8 @@ int RMF_buildTable(FL2_matchTable* const tbl,
 {
     DEBUGLOG(5, "RMF_buildTable : thread %u", (U32)job);
 
+    tbl->builders[job]->block_end = block.end;
+
     if (tbl->is_struct)
         RMF_structuredBuildTable(tbl, job, multi_thread, block);
     else
-- 
2.43.0


From 52d925e297ca879fa8e0e1e90aece57f5740761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:30 +0000
Subject: [PATCH 04/38] Simulation tuning: keep match buffers above their
 minimum size

---
 radix_mf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/radix_mf.c b/radix_mf.c
index 6c024cd..a2ef4b0 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -22,7 +22,11 @@
 #  pragma warning(disable : 4701) /* warning: 'rpt_head_next' may be used uninitialized in this function */
 #endif
 
+#ifdef FL2_SIM_TUNING
+#  define MATCH_BUFFER_SHIFT 3
+#else
 #define MATCH_BUFFER_SHIFT 8;
+#endif
 #define MATCH_BUFFER_ELBOW_BITS 17
 #define MATCH_BUFFER_ELBOW (1UL << MATCH_BUFFER_ELBOW_BITS)
 #define MIN_MATCH_BUFFER_SIZE 256U /* min buffer size at least FL2_SEARCH_DEPTH_MAX + 2 for bounded build */
-- 
2.43.0


From 2d2443632a6806b86a14d2aaf6c7e812ccc4a5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 05/38] fix: FL2_compressCCtx left the parameters locked after
 an error

---
 fl2_compress.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index a13e2b0..fc9eff5 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -562,6 +562,9 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
 
     size_t const cSize = FL2_compressBuffer(cctx, src, srcSize, dst, dstCapacity);
 
+    /* Unlock the parameters even if an error occurred */
+    FL2_endFrame(cctx);
+
     if (FL2_isError(cSize))
         return cSize;
 
@@ -588,8 +591,6 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
         dstBuf += XXHASH_SIZEOF;
     }
 #endif
-    
-    FL2_endFrame(cctx);
 
     return dstBuf - (BYTE*)dst;
 }
-- 
2.43.0


From c5640eb1a4b93c5a090cb894a350a32d3f6e1e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 06/38] fix: FL2_compressCCtx wrote an omitted property byte
 for empty input

---
 fl2_compress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index fc9eff5..f57a03e 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -575,7 +575,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
     if(dstBuf >= end)
         return FL2_ERROR(dstSize_tooSmall);
 
-    if (cSize == 0)
+    if (cSize == 0 && !cctx->params.omitProp)
         *dstBuf++ = FL2_getProp(cctx, 0);
 
     *dstBuf++ = LZMA2_END_MARKER;
-- 
2.43.0


From 106a9914a265f0b8c65c28f0ca2ac4d7615f7e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:21 +0000
Subject: [PATCH 07/38] fix: match buffer allocation failure was ignored and
 crashed the match finder

---
 fl2_compress.c | 2 +-
 radix_mf.c     | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index f57a03e..e90f39a 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -453,7 +453,7 @@ static size_t FL2_beginFrame(FL2_CCtx* const cctx, size_t const dictReduce)
     }
     else {
         DEBUGLOG(5, "Have compatible match table");
-        RMF_applyParameters(cctx->matchTable, &cctx->params.rParams, dictReduce);
+        CHECK_F(RMF_applyParameters(cctx->matchTable, &cctx->params.rParams, dictReduce));
     }
 
     cctx->dictMax = 0;
diff --git a/radix_mf.c b/radix_mf.c
index a2ef4b0..9623b8c 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -236,7 +236,10 @@ FL2_matchTable* RMF_createMatchTable(const RMF_parameters* const p, size_t const
     tbl->unreduced_dict_size = unreduced_dict_size;
     tbl->builders = NULL;
 
-    RMF_applyParameters_internal(tbl, &params);
+    if (FL2_isError(RMF_applyParameters_internal(tbl, &params))) {
+        RMF_freeMatchTable(tbl);
+        return NULL;
+    }
 
     RMF_initListHeads(tbl);
 
-- 
2.43.0


From 74045c8741837745f54927773d7d278c93107d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:44 +0000
Subject: [PATCH 08/38] fix: match buffer size depended on parameters of
 earlier operations

---
 radix_mf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/radix_mf.c b/radix_mf.c
index 9623b8c..491fcf0 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -270,6 +270,8 @@ BYTE RMF_compatibleParameters(const FL2_matchTable* const tbl, const RMF_paramet
 size_t RMF_applyParameters(FL2_matchTable* const tbl, const RMF_parameters* const p, size_t const dict_reduce)
 {
     RMF_parameters params = RMF_clampParams(*p);
+    /* Match buffer size must not depend on the parameters the table was created with */
+    tbl->unreduced_dict_size = params.dictionary_size;
     RMF_reduceDict(&params, dict_reduce);
     return RMF_applyParameters_internal(tbl, &params);
 }
-- 
2.43.0


From faedb990cd66d0b6eebddd80906ca36932cc3be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 09/38] fix: FL2POOL_waitAll reported completion while a job
 was queued or starting

---
 fl2_pool.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fl2_pool.c b/fl2_pool.c
index 8f90b44..64ad31b 100644
--- a/fl2_pool.c
+++ b/fl2_pool.c
@@ -174,8 +174,9 @@ void FL2POOL_add(void* ctxVoid, FL2POOL_function function, void *opaque, ptrdiff
 int FL2POOL_waitAll(void *ctxVoid, unsigned timeout)
 {
     FL2POOL_ctx* const ctx = (FL2POOL_ctx*)ctxVoid;
-    if (!ctx || (!ctx->numThreadsBusy && ctx->queueIndex >= ctx->queueEnd) || ctx->shutdown) { return 0; }
+    if (!ctx) { return 0; }
 
+    /* The state is only valid while the mutex is held: a thread popping a job changes both the queue index and the busy count */
     FL2_pthread_mutex_lock(&ctx->queueMutex);
     /* Need to test for ctx->queueIndex < ctx->queueEnd in case not all jobs have started */
     if (timeout != 0) {
@@ -186,8 +187,9 @@ int FL2POOL_waitAll(void *ctxVoid, unsigned timeout)
         while ((ctx->numThreadsBusy || ctx->queueIndex < ctx->queueEnd) && !ctx->shutdown)
             FL2_pthread_cond_wait(&ctx->busyCond, &ctx->queueMutex);
     }
+    int const busy = (ctx->numThreadsBusy || ctx->queueIndex < ctx->queueEnd) && !ctx->shutdown;
     FL2_pthread_mutex_unlock(&ctx->queueMutex);
-    return ctx->numThreadsBusy && !ctx->shutdown;
+    return busy;
 }
 
 size_t FL2POOL_threadsBusy(void * ctx)
-- 
2.43.0


From 4dc1ac12824d59a9f4e9971c73803c6b8e0b88e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:29 +0000
Subject: [PATCH 10/38] fix: FL2_flushStream reported completion with input or
 output outstanding

---
 fl2_compress.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index e90f39a..a9c2982 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1197,13 +1197,15 @@ FL2LIB_API size_t FL2LIB_CALL FL2_flushStream(FL2_CStream* fcs, FL2_outBuffer *o
     if (output != NULL && fcs->outThread < fcs->threadCount)
         FL2_copyCStreamOutput(fcs, output);
 
-    size_t res = FL2_flushStream_internal(fcs, 0);
-    CHECK_F(res);
+    CHECK_F(FL2_flushStream_internal(fcs, 0));
 
-    if (output != NULL && res != 0) {
+    /* Asynchronous compression must complete before the output is known */
+    CHECK_F(FL2_waitCStream(fcs));
+
+    if (output != NULL)
         FL2_copyCStreamOutput(fcs, output);
-        res = fcs->outThread < fcs->threadCount;
-    }
+
+    size_t const res = fcs->outThread < fcs->threadCount || DICT_hasUnprocessed(&fcs->buf);
 
     CHECK_F(FL2_loopCheck(fcs, output != NULL && prevOut == output->pos));
 
-- 
2.43.0


From eaa565ee0c2299fe64b83ee420f1df25ffdb530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:33 +0000
Subject: [PATCH 11/38] fix: 2-byte repeat crossing the start of a block kept
 stale match lengths

---
 radix_engine.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix_engine.h b/radix_engine.h
index 7bccaab..aaa224f 100644
--- a/radix_engine.h
+++ b/radix_engine.h
@@ -60,7 +60,7 @@ static size_t RMF_handleRepeat2(RMF_builder* const tbl, const BYTE* const data_b
 
     ptrdiff_t const rpt_index = i;
     /* No point if it's in the overlap region */
-    if (i >= (ptrdiff_t)start) {
+    if (last_2 >= (ptrdiff_t)start) {
         U32 len = depth + (data_block[last_2 + depth] == data_block[last_2]);
         /* Set matches at distance 2 and available length */
         for (i = last_2; i > rpt_index && len <= RADIX_MAX_LENGTH; i -= 2) {
-- 
2.43.0


From de46b57d2b858a9929f4894d506b06b0ba53919a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:03 +0000
Subject: [PATCH 12/38] fix: encoder used a hash chain whose allocation had
 failed

---
 lzma2_enc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lzma2_enc.c b/lzma2_enc.c
index da2e09b..5d92a43 100644
--- a/lzma2_enc.c
+++ b/lzma2_enc.c
@@ -852,8 +852,10 @@ static int LZMA_hashCreate(LZMA2_ECtx *const enc, unsigned const dictionary_bits
     enc->hash_alloc_3 = (ptrdiff_t)1 << dictionary_bits_3;
     enc->hash_buf = malloc(sizeof(LZMA2_hc3) + (enc->hash_alloc_3 - 1) * sizeof(S32));
 
-    if (enc->hash_buf == NULL)
+    if (enc->hash_buf == NULL) {
+        enc->hash_alloc_3 = 0;
         return 1;
+    }
 
     LZMA_hashReset(enc, dictionary_bits_3);
 
-- 
2.43.0


From 815a0844519ea1dab3d1f7714c3e68aab82049bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:03 +0000
Subject: [PATCH 13/38] fix: leak when the compression thread of a dual buffer
 stream cannot be created

---
 fl2_compress.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index a9c2982..618392d 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -164,8 +164,10 @@ static FL2_CCtx* FL2_createCCtx_internal(unsigned nbThreads, int const dualBuffe
     }
     if (dualBuffer) {
       cctx->compressThread = FL2POOL_create(1);
-      if (cctx->compressThread == NULL)
+      if (cctx->compressThread == NULL) {
+        FL2_freeCCtx(cctx);
         return NULL;
+      }
     }
 #endif
 
-- 
2.43.0


From ab0286433d39d655556a11b557d36b1b666743e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:03 +0000
Subject: [PATCH 14/38] fix: freeing a stream freed buffers in use by
 asynchronous compression

---
 fl2_compress.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fl2_compress.c b/fl2_compress.c
index 618392d..2566917 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -205,6 +205,9 @@ FL2LIB_API void FL2LIB_CALL FL2_freeCCtx(FL2_CCtx* cctx)
 
     DEBUGLOG(3, "FL2_freeCCtx : %u threads", cctx->jobCount);
 
+    /* Asynchronous compression uses the objects freed below */
+    FL2_cancelCStream(cctx);
+
     DICT_destruct(&cctx->buf);
 
     for (unsigned u = 0; u < cctx->jobCount; ++u) {
-- 
2.43.0


From 9f5460b76237510a08bcb29973fb94ed12fccc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 15/38] fix: initializing an unfinished stream changed buffers
 in use and ignored the level

---
 fl2_compress.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fl2_compress.c b/fl2_compress.c
index 2566917..af34907 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -861,6 +861,9 @@ FL2LIB_API size_t FL2LIB_CALL FL2_initCStream(FL2_CStream* fcs, int compressionL
 {
     DEBUGLOG(4, "FL2_initCStream level %d", compressionLevel);
 
+    /* Abandon any unfinished stream. Compression may be running, and the parameters are locked */
+    FL2_cancelCStream(fcs);
+
     fcs->endMarked = 0;
     fcs->wroteProp = 0;
     fcs->loopCount = 0;
-- 
2.43.0


From 06371e6821eb210a8ff8895f533182642ed0f201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 16/38] fix: failed initialization left output and progress
 state of a freed match table

---
 fl2_compress.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index af34907..c47ba4e 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -439,6 +439,17 @@ static BYTE FL2_getProp(FL2_CCtx* const cctx, size_t const dictionarySize)
 
 static void FL2_preBeginFrame(FL2_CCtx* const cctx, size_t const dictReduce)
 {
+    /* Output of an earlier frame is lost even if an error occurs */
+    cctx->outThread = 0;
+    cctx->threadCount = 0;
+    cctx->outPos = 0;
+    cctx->progressIn = 0;
+    cctx->progressOut = 0;
+    cctx->streamTotal = 0;
+    cctx->streamCsize = 0;
+    cctx->curBlock.start = 0;
+    cctx->curBlock.end = 0;
+
     /* Free unsuitable match table before reallocating anything else */
     if (cctx->matchTable && !RMF_compatibleParameters(cctx->matchTable, &cctx->params.rParams, dictReduce)) {
         RMF_freeMatchTable(cctx->matchTable);
@@ -462,17 +473,8 @@ static size_t FL2_beginFrame(FL2_CCtx* const cctx, size_t const dictReduce)
     }
 
     cctx->dictMax = 0;
-    cctx->streamTotal = 0;
-    cctx->streamCsize = 0;
-    cctx->progressIn = 0;
-    cctx->progressOut = 0;
     RMF_initProgress(cctx->matchTable);
     cctx->asyncRes = 0;
-    cctx->outThread = 0;
-    cctx->threadCount = 0;
-    cctx->outPos = 0;
-    cctx->curBlock.start = 0;
-    cctx->curBlock.end = 0;
     cctx->lockParams = 1;
 
     return FL2_error_no_error;
-- 
2.43.0


From a11f64ae66e83890100a8552efae8e40b2358204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 17/38] fix: end marker could be written outside the match
 table

---
 fl2_compress.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fl2_compress.c b/fl2_compress.c
index c47ba4e..4e67425 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1149,6 +1149,7 @@ static void FL2_writeEnd(FL2_CStream* const fcs)
         fcs->outThread = 0; 
         fcs->threadCount = 1;
         fcs->jobs[0].cSize = 0;
+        fcs->jobs[0].block.start = 0; /* may be stale and outside the match table */
         thread = 0;
     }
     BYTE *const dst = RMF_getTableAsOutputBuffer(fcs->matchTable, fcs->jobs[thread].block.start)
-- 
2.43.0


From 35c2e2a0e0f527e004eb293e71211f67f3a618dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:18 +0000
Subject: [PATCH 18/38] fix: freeing or canceling a decompression stream with a
 timeout freed buffers in use or crashed

---
 fl2_decompress.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 048b03c..be8a219 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1069,6 +1069,8 @@ FL2LIB_API size_t FL2LIB_CALL FL2_freeDStream(FL2_DStream* fds)
 {
     if (fds != NULL) {
         DEBUGLOG(3, "FL2_freeDStream");
+        /* Asynchronous decompression must end before anything it uses is freed */
+        FL2_cancelDStream(fds);
         LZMA_destructDCtx(&fds->dec);
 #ifndef FL2_SINGLETHREAD
         FL2POOL_free(fds->decompressThread);
@@ -1140,11 +1142,13 @@ FL2LIB_API void FL2LIB_CALL FL2_cancelDStream(FL2_DStream *fds)
 {
 #ifndef FL2_SINGLETHREAD
     if (fds->decompressThread != NULL) {
-        fds->decmt->canceled = 1;
+        if (fds->decmt != NULL)
+            fds->decmt->canceled = 1;
 
         FL2POOL_waitAll(fds->decompressThread, 0);
 
-        fds->decmt->canceled = 0;
+        if (fds->decmt != NULL)
+            fds->decmt->canceled = 0;
     }
     FL2_lzma2DecMt_cleanup(fds->decmt);
 #endif
-- 
2.43.0


From ce31982996bf2b2d80af8a82ced982975e1e8bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:18 +0000
Subject: [PATCH 19/38] fix: decompression stream with a timeout waited for
 itself when no progress was possible

---
 fl2_decompress.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index be8a219..69388de 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1255,7 +1255,10 @@ static size_t FL2_decompressStream_blocking(FL2_DStream* fds, FL2_outBuffer* out
         /* No progress was made */
         ++fds->loopCount;
         if (fds->loopCount > 2) {
-            FL2_cancelDStream(fds);
+            /* Not FL2_cancelDStream() because this may be decompressThread, which cannot wait for itself */
+#ifndef FL2_SINGLETHREAD
+            FL2_lzma2DecMt_cleanup(decmt);
+#endif
             return FL2_ERROR(buffer);
         }
     }
-- 
2.43.0


From 386b5c271aab48326190c3886fff8737b519ff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:44 +0000
Subject: [PATCH 20/38] fix: decompression stream ignored failure of its
 initialization

---
 fl2_decompress.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 69388de..70736f3 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1163,6 +1163,7 @@ static size_t FL2_initDStream_prop(FL2_DStream* const fds, BYTE prop)
 {
     fds->doHash = prop >> FL2_PROP_HASH_BIT;
     prop &= FL2_LZMA_PROP_MASK;
+    CHECK_F(LZMA2_getDictSizeFromProp(prop));
 
     /* If MT decoding is enabled and the dict is not too large, decoder init will occur elsewhere */
 #ifndef FL2_SINGLETHREAD
@@ -1207,8 +1208,8 @@ static size_t FL2_decompressStream_blocking(FL2_DStream* fds, FL2_outBuffer* out
         ) {
         if (fds->stage == FL2DEC_STAGE_INIT) {
             BYTE prop = ((const BYTE*)input->src)[input->pos];
+            CHECK_F(FL2_initDStream_prop(fds, prop));
             ++input->pos;
-            FL2_initDStream_prop(fds, prop);
             fds->stage = FL2DEC_STAGE_DECOMP;
         }
 #ifndef FL2_SINGLETHREAD
-- 
2.43.0


From 709a8b0fe1099102009bee112d14d767e023b4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:44 +0000
Subject: [PATCH 21/38] fix: FL2_decompressDCtx read before empty input and
 kept the property byte after an error

---
 fl2_decompress.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 70736f3..50ca9ec 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -180,7 +180,7 @@ static void FL2_decompressCtxBlock(void* const jobDescription, ptrdiff_t const n
         blocks[n].res = blocks[n].dec->dic_pos;
 }
 
-static size_t FL2_decompressCtxBlocksMt(FL2_DCtx* const dctx, const BYTE *const src, BYTE *const dst, size_t const dstCapacity, size_t const nbThreads)
+static size_t FL2_decompressCtxBlocksMt(FL2_DCtx* const dctx, BYTE const prop, const BYTE *const src, BYTE *const dst, size_t const dstCapacity, size_t const nbThreads)
 {
     FL2_blockDecMt* const blocks = dctx->blocks;
 
@@ -192,8 +192,6 @@ static size_t FL2_decompressCtxBlocksMt(FL2_DCtx* const dctx, const BYTE *const
     blocks[0].unpackPos = 0;
     blocks[0].src = src;
 
-    BYTE const prop = dctx->lzma2prop & FL2_LZMA_PROP_MASK;
-
     for (size_t thread = 1; thread < nbThreads; ++thread) {
         blocks[thread].packPos = blocks[thread - 1].packPos + blocks[thread - 1].packSize;
         blocks[thread].unpackPos = blocks[thread - 1].unpackPos + blocks[thread - 1].unpackSize;
@@ -231,7 +229,7 @@ static void FL2_resetMtBlocks(FL2_DCtx* const dctx)
 }
 
 /* Decompress an entire stream stored in memory */
-static size_t FL2_decompressDCtxMt(FL2_DCtx* const dctx,
+static size_t FL2_decompressDCtxMt(FL2_DCtx* const dctx, BYTE const prop,
     void* dst, size_t dstCapacity,
     const void* src, size_t *const srcLen)
 {
@@ -268,7 +266,7 @@ static size_t FL2_decompressDCtxMt(FL2_DCtx* const dctx,
             ++thread;
         }
         if (type == CHUNK_FINAL || (type == CHUNK_DICT_RESET && thread == dctx->nbThreads)) {
-            size_t res = FL2_decompressCtxBlocksMt(dctx, (BYTE*)src, dst, dstCapacity, thread);
+            size_t res = FL2_decompressCtxBlocksMt(dctx, prop, (BYTE*)src, dst, dstCapacity, thread);
             if (FL2_isError(res))
                 return res;
 
@@ -319,7 +317,12 @@ FL2LIB_API size_t FL2LIB_CALL FL2_decompressDCtx(FL2_DCtx* dctx,
     BYTE prop = dctx->lzma2prop;
     const BYTE *srcBuf = src;
 
+    /* The property set by FL2_initDCtx() applies to this operation only, even if it fails */
+    dctx->lzma2prop = LZMA2_PROP_UNINITIALIZED;
+
     if (prop == LZMA2_PROP_UNINITIALIZED) {
+        if (srcSize == 0)
+            return FL2_ERROR(srcSize_wrong);
         prop = *(const BYTE*)src;
         ++srcBuf;
         --srcSize;
@@ -338,8 +341,7 @@ FL2LIB_API size_t FL2LIB_CALL FL2_decompressDCtx(FL2_DCtx* dctx,
     size_t res;
 #ifndef FL2_SINGLETHREAD
     if (dctx->blocks != NULL) {
-        dctx->lzma2prop = prop;
-        res = FL2_decompressDCtxMt(dctx, dst, dstCapacity, srcBuf, &srcPos);
+        res = FL2_decompressDCtxMt(dctx, prop, dst, dstCapacity, srcBuf, &srcPos);
     }
     else 
 #endif
@@ -351,8 +353,6 @@ FL2LIB_API size_t FL2LIB_CALL FL2_decompressDCtx(FL2_DCtx* dctx,
         res = LZMA2_decodeToDic(&dctx->dec, dstCapacity, srcBuf, &srcPos, LZMA_FINISH_END);
     }
 
-    dctx->lzma2prop = LZMA2_PROP_UNINITIALIZED;
-
     if (FL2_isError(res))
         return res;
     /* All src data must be in memory */
-- 
2.43.0


From 48767f4b32fbd7c4f7dff3da9140218d8c2fd333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 22/38] fix: memory limit of multi-threaded decompression
 drifted with each failed allocation and each stream

---
 fl2_decompress.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 50ca9ec..4b28d16 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -596,7 +596,6 @@ static void FL2_lzma2DecMt_init(FL2_decMt *const decmt)
         decmt->failState = 0;
         decmt->isFinal = 0;
         decmt->canceled = 0;
-        decmt->memTotal = 0;
         FL2_freeOutputBuffers(decmt);
         LZMA2_freeExtraInbufNodes(decmt);
         decmt->threads[0].inBlock.first = decmt->head;
@@ -623,14 +622,15 @@ static int FL2_lzma2DecMt_initProp(FL2_decMt *const decmt, BYTE prop)
 
 static FL2_decInbuf * FL2_createInbufNode(FL2_decMt *const decmt, FL2_decInbuf *const prev)
 {
-    decmt->memTotal += sizeof(FL2_decInbuf) + LZMA2_MT_INPUT_SIZE - 1;
-    if (decmt->memTotal > decmt->memLimit)
+    if (decmt->memTotal + sizeof(FL2_decInbuf) + LZMA2_MT_INPUT_SIZE - 1 > decmt->memLimit)
         return NULL;
 
     FL2_decInbuf *const node = malloc(sizeof(FL2_decInbuf) + LZMA2_MT_INPUT_SIZE - 1);
     if (node == NULL)
         return NULL;
 
+    decmt->memTotal += sizeof(FL2_decInbuf) + LZMA2_MT_INPUT_SIZE - 1;
+
     node->next = NULL;
     node->length = 0;
     if (prev) {
@@ -845,8 +845,7 @@ static size_t FL2_handleFinalChunkMt(FL2_decMt *const decmt, size_t res)
     ++decmt->numThreads;
 
     done->bufSize = done->inBlock.unpackSize;
-    decmt->memTotal += done->bufSize;
-    if (decmt->memTotal > decmt->memLimit)
+    if (decmt->memTotal + done->bufSize > decmt->memLimit)
         return FL2_ERROR(memory_allocation);
 
     /* Decompressed data will be stored in outBuf */
@@ -854,6 +853,9 @@ static size_t FL2_handleFinalChunkMt(FL2_decMt *const decmt, size_t res)
     if (done->outBuf == NULL)
         return FL2_ERROR(memory_allocation);
 
+    /* Counted only once allocated because FL2_freeOutputBuffers() subtracts it */
+    decmt->memTotal += done->bufSize;
+
     decmt->isFinal = (res == CHUNK_FINAL);
 
     if (decmt->numThreads == decmt->maxThreads || decmt->isFinal)
-- 
2.43.0


From ef80e3fedf3e1f3c0b9f55f696e853c2a46575b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:30 +0000
Subject: [PATCH 23/38] fix: decompression stream read past empty input or left
 output pending

---
 fl2_decompress.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 4b28d16..d8883ec 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -516,9 +516,7 @@ static size_t FL2_decompressOverlappedInput(FL2_DStream* fds, FL2_outBuffer* out
             memmove(fds->overlap, fds->overlap + temp.pos, fds->overlapSize);
         }
     }
-    if(input->pos == input->size)
-        return FL2_error_no_error;
-
+    /* Decode even if there is no input, because the decoder may have output pending */
     if(fds->overlapSize == 0)
         CHECK_F(FL2_decompressInput(fds, output, input));
 
@@ -1203,11 +1201,8 @@ static size_t FL2_decompressStream_blocking(FL2_DStream* fds, FL2_outBuffer* out
     size_t const prevOut = output->pos;
     size_t const prevIn = input->pos;
 
-    if (input->pos < input->size
-#ifndef FL2_SINGLETHREAD
-        || decmt
-#endif
-        ) {
+    /* The property byte is needed to begin. After that, output may be pending even if there is no input. */
+    if (input->pos < input->size || fds->stage != FL2DEC_STAGE_INIT) {
         if (fds->stage == FL2DEC_STAGE_INIT) {
             BYTE prop = ((const BYTE*)input->src)[input->pos];
             CHECK_F(FL2_initDStream_prop(fds, prop));
-- 
2.43.0


From 58317cb98b810fe0f26872cc6df59ab32c88c314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:30 +0000
Subject: [PATCH 24/38] fix: multi-threaded decompression stream moved the
 input position back below its starting value

---
 fl2_decompress.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index d8883ec..c2557d3 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -882,6 +882,8 @@ static size_t FL2_loadInputMt(FL2_decMt *const decmt, FL2_inBuffer* const input)
 {
     FL2_decBlock *inBlock = &decmt->threads[decmt->numThreads].inBlock;
     LZMA2_parseRes res = CHUNK_CONTINUE;
+    /* Input can be returned only if it was read in this call */
+    size_t const startPos = input->pos;
     /* Continue while input is available or the parse pos is not beyond the end */
     while (input->pos < input->size || inBlock->endPos < inBlock->last->length) {
         if (inBlock->endPos < inBlock->last->length) {
@@ -898,7 +900,7 @@ static size_t FL2_loadInputMt(FL2_decMt *const decmt, FL2_inBuffer* const input)
                 if (end != 0) {
                     inBlock = &decmt->threads[decmt->numThreads - 1].inBlock;
                     /* rewind input in case data beyond terminator was read. Required for xxhash and container formats */
-                    size_t back = MIN(input->pos, inBlock->last->length - inBlock->endPos);
+                    size_t back = MIN(input->pos - startPos, inBlock->last->length - inBlock->endPos);
                     input->pos -= back;
                     inBlock->last->length -= back;
                     return end;
@@ -911,7 +913,7 @@ static size_t FL2_loadInputMt(FL2_decMt *const decmt, FL2_inBuffer* const input)
             FL2_decInbuf *const next = FL2_createInbufNode(decmt, inBlock->last);
             if (next == NULL) {
                 if (inBlock->endPos < inBlock->last->length) {
-                    size_t back = MIN(input->pos, inBlock->last->length - inBlock->endPos);
+                    size_t back = MIN(input->pos - startPos, inBlock->last->length - inBlock->endPos);
                     input->pos -= back;
                     inBlock->last->length -= back;
                 }
-- 
2.43.0


From 4dbd7d3dcdb4b7941533eb24b6350ffe1220a87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:07 +0000
Subject: [PATCH 25/38] fix: continuing a canceled or failed multi-threaded
 decompression stream used freed buffers

---
 fl2_decompress.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index c2557d3..d22b3ad 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -388,6 +388,7 @@ typedef enum
     FL2DEC_STAGE_DECOMP,
 #ifndef FL2_SINGLETHREAD
     FL2DEC_STAGE_MT_WRITE,
+    FL2DEC_STAGE_MT_ABORTED,
 #endif
     FL2DEC_STAGE_HASH,
     FL2DEC_STAGE_FINISHED
@@ -1140,6 +1141,19 @@ FL2LIB_API size_t FL2LIB_CALL FL2_waitDStream(FL2_DStream * fds)
     return fds->asyncRes;
 }
 
+#ifndef FL2_SINGLETHREAD
+/* End MT decompression before the stream is complete. The input already read is lost so
+ * the stream cannot continue until it is initialized again. */
+static void FL2_abortDStreamMt(FL2_DStream *const fds)
+{
+    if (fds->decmt != NULL) {
+        FL2_lzma2DecMt_cleanup(fds->decmt);
+        if (fds->stage != FL2DEC_STAGE_INIT && fds->stage != FL2DEC_STAGE_FINISHED)
+            fds->stage = FL2DEC_STAGE_MT_ABORTED;
+    }
+}
+#endif
+
 FL2LIB_API void FL2LIB_CALL FL2_cancelDStream(FL2_DStream *fds)
 {
 #ifndef FL2_SINGLETHREAD
@@ -1152,7 +1166,7 @@ FL2LIB_API void FL2LIB_CALL FL2_cancelDStream(FL2_DStream *fds)
         if (fds->decmt != NULL)
             fds->decmt->canceled = 0;
     }
-    FL2_lzma2DecMt_cleanup(fds->decmt);
+    FL2_abortDStreamMt(fds);
 #endif
 }
 
@@ -1203,6 +1217,10 @@ static size_t FL2_decompressStream_blocking(FL2_DStream* fds, FL2_outBuffer* out
     size_t const prevOut = output->pos;
     size_t const prevIn = input->pos;
 
+#ifndef FL2_SINGLETHREAD
+    if (fds->stage == FL2DEC_STAGE_MT_ABORTED)
+        return FL2_ERROR(stage_wrong);
+#endif
     /* The property byte is needed to begin. After that, output may be pending even if there is no input. */
     if (input->pos < input->size || fds->stage != FL2DEC_STAGE_INIT) {
         if (fds->stage == FL2DEC_STAGE_INIT) {
@@ -1215,7 +1233,7 @@ static size_t FL2_decompressStream_blocking(FL2_DStream* fds, FL2_outBuffer* out
         if (decmt) {
             size_t res = FL2_decompressStreamMt(fds, output, input);
             if (FL2_isError(res)) {
-                FL2_lzma2DecMt_cleanup(decmt);
+                FL2_abortDStreamMt(fds);
                 return res;
             }
         }
@@ -1257,7 +1275,7 @@ static size_t FL2_decompressStream_blocking(FL2_DStream* fds, FL2_outBuffer* out
         if (fds->loopCount > 2) {
             /* Not FL2_cancelDStream() because this may be decompressThread, which cannot wait for itself */
 #ifndef FL2_SINGLETHREAD
-            FL2_lzma2DecMt_cleanup(decmt);
+            FL2_abortDStreamMt(fds);
 #endif
             return FL2_ERROR(buffer);
         }
-- 
2.43.0


From 309961838fbda9d6ff41cef714bb550c2bbf13e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:41 +0000
Subject: [PATCH 26/38] fix: corrupt compressed data made the decoder read
 beyond the end of the input

---
 lzma2_dec.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index 80bfcd7..163c342 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -862,16 +862,27 @@ static size_t LZMA_decodeToDic(LZMA2_DCtx *const p, size_t const dic_limit, cons
         if (p->need_init_state)
             LZMA_initStateReal(p);
 
-        const BYTE *buf_limit;
-        if (finish_mode == LZMA_FINISH_END) {
-            buf_limit = src + in_size;
-        }
-        else {
-            if (in_size <= LZMA_REQUIRED_INPUT_MAX) {
-                return LZMA_STATUS_NEEDS_MORE_INPUT;
-            }
-            buf_limit = src + in_size - LZMA_REQUIRED_INPUT_MAX;
+        if (finish_mode == LZMA_FINISH_END && in_size <= LZMA_REQUIRED_INPUT_MAX) {
+            /* The end of the chunk. A corrupt symbol may extend beyond it, where there may be nothing to read. */
+            BYTE tail[LZMA_REQUIRED_INPUT_MAX * 2 + 1];
+            memcpy(tail, src, in_size);
+            memset(tail + in_size, 0, sizeof(tail) - in_size);
+            p->buf = tail;
+
+            CHECK_F(LZMA_decodeReal2(p, dic_limit, tail + in_size));
+
+            size_t const used = (size_t)(p->buf - tail);
+            p->buf = src;
+            if (used > in_size)
+                return FL2_ERROR(corruption_detected);
+            (*src_len) += used;
+            src += used;
+            in_size -= used;
+            continue;
         }
+        if (in_size <= LZMA_REQUIRED_INPUT_MAX)
+            return LZMA_STATUS_NEEDS_MORE_INPUT;
+        const BYTE *const buf_limit = src + in_size - LZMA_REQUIRED_INPUT_MAX;
         p->buf = src;
 
         CHECK_F(LZMA_decodeReal2(p, dic_limit, buf_limit));
-- 
2.43.0


From 601a5ed8535ed085c40d2a1a2900f046a2293571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:16 +0000
Subject: [PATCH 27/38] fix: decoder used uninitialized properties for a chunk
 without them

---
 lzma2_dec.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lzma2_dec.c b/lzma2_dec.c
index 163c342..57c4aab 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -969,7 +969,7 @@ size_t LZMA2_initDecoder(LZMA2_DCtx *const p, BYTE const dict_prop, BYTE *const
     p->dic_buf_size = dic_buf_size;
     p->prop.lc = 3;
     p->prop.lp = 0;
-    p->prop.lc = 2;
+    p->prop.pb = 2;
     p->prop.dic_size = (U32)dict_size;
 
     p->state2 = LZMA2_STATE_CONTROL;
@@ -1072,12 +1072,14 @@ static size_t LZMA2_decodeChunkToDic(LZMA2_DCtx *const p, size_t const dic_limit
             unsigned const mode = LZMA2_GET_LZMA_MODE(p->control);
             BYTE const init_dic = (mode == 3);
             BYTE const init_state = (mode != 0);
-            if ((!init_dic && p->need_init_dic) || (!init_state && p->need_init_state2))
+            if ((!init_dic && p->need_init_dic) || (!init_state && p->need_init_state2)
+                || (!LZMA2_IS_THERE_PROP(mode) && p->need_init_prop))
                 return FL2_ERROR(corruption_detected);
 
             LZMA_initDicAndState(p, init_dic, init_state);
             p->need_init_dic = 0;
             p->need_init_state2 = 0;
+            p->need_init_prop = 0;
         }
     }
     if (p->state2 == LZMA2_STATE_DATA) {
-- 
2.43.0


From ffa821c6d7cf8c8c42a507ac898609b93a5dab2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:16 +0000
Subject: [PATCH 28/38] fix: corrupt chunk sizes were accepted, left output
 unwritten or hung multi-threaded decompression

---
 fl2_decompress.c | 9 +++++++--
 lzma2_dec.c      | 7 ++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index d22b3ad..b05c179 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -177,7 +177,7 @@ static void FL2_decompressCtxBlock(void* const jobDescription, ptrdiff_t const n
 
     /* If no error occurred, store into res the dic_pos value, which is the end of the decompressed data in the buffer */
     if (!FL2_isError(blocks[n].res))
-        blocks[n].res = blocks[n].dec->dic_pos;
+        blocks[n].res = (blocks[n].dec->dic_pos == blocks[n].unpackSize) ? blocks[n].dec->dic_pos : FL2_ERROR(corruption_detected);
 }
 
 static size_t FL2_decompressCtxBlocksMt(FL2_DCtx* const dctx, BYTE const prop, const BYTE *const src, BYTE *const dst, size_t const dstCapacity, size_t const nbThreads)
@@ -747,7 +747,8 @@ static size_t FL2_decompressBlockMt(FL2_DStream* const fds, size_t const thread)
         if (res == LZMA_STATUS_FINISHED)
             DEBUGLOG(4, "Found end mark");
 
-        if (cur == ti->inBlock.last)
+        /* If the output is full the decoder read the header of the next block and cannot advance */
+        if (cur == ti->inBlock.last || res == LZMA_STATUS_OUTPUT_FULL)
             break;
 
         /* Advance the position and switch to the next input buffer in the chain if necessary */
@@ -761,6 +762,10 @@ static size_t FL2_decompressBlockMt(FL2_DStream* const fds, size_t const thread)
     if (decmt->canceled)
         return FL2_ERROR(canceled);
 
+    /* The entire output buffer will be written */
+    if (dec->dic_pos != ti->bufSize)
+        return FL2_ERROR(corruption_detected);
+
     return FL2_error_no_error;
 }
 
diff --git a/lzma2_dec.c b/lzma2_dec.c
index 57c4aab..797f6a7 100644
--- a/lzma2_dec.c
+++ b/lzma2_dec.c
@@ -834,7 +834,8 @@ static size_t LZMA_decodeToDic(LZMA2_DCtx *const p, size_t const dic_limit, cons
     {
         if (in_size < RC_INIT_SIZE)
         {
-            return LZMA_STATUS_NEEDS_MORE_INPUT;
+            /* If the entire chunk is available it is too short */
+            return (finish_mode == LZMA_FINISH_END) ? FL2_ERROR(corruption_detected) : LZMA_STATUS_NEEDS_MORE_INPUT;
         }
         if (src[0] != 0)
             return FL2_ERROR(corruption_detected);
@@ -1132,6 +1133,10 @@ static size_t LZMA2_decodeChunkToDic(LZMA2_DCtx *const p, size_t const dic_limit
             if (res != LZMA_STATUS_FINISHED && p->unpack_size == 0)
                 return FL2_ERROR(corruption_detected);
 
+            /* error if chunk output is complete but compressed data remains. The next chunk follows all of it. */
+            if (p->unpack_size == 0 && p->pack_size != 0)
+                return FL2_ERROR(corruption_detected);
+
             /* Error conditions:
                1. need input but chunk is finished
                2. have output space, input not needed, but nothing was written*/
-- 
2.43.0


From 891fd2ae4b9a614fc845a12998dca24694970080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:25 +0000
Subject: [PATCH 29/38] fix: a refused FL2_decompressStream call lost progress
 of the call still running

---
 fl2_decompress.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index b05c179..1d0785b 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -1313,15 +1313,17 @@ static void FL2_decompressStream_async(void* const jobDescription, ptrdiff_t con
 
 FL2LIB_API size_t FL2LIB_CALL FL2_decompressStream(FL2_DStream* fds, FL2_outBuffer* output, FL2_inBuffer* input)
 {
+#ifndef FL2_SINGLETHREAD
+    /* Calling FL2_decompressStream() while waiting for decompressThread to fall idle is not allowed */
+    if (fds->decompressThread != NULL && fds->wait)
+        return FL2_ERROR(stage_wrong);
+#endif
+
     fds->streamTotal += fds->progress;
     fds->progress = 0;
 
 #ifndef FL2_SINGLETHREAD
     if (fds->decompressThread != NULL) {
-        /* Calling FL2_decompressStream() while waiting for decompressThread to fall idle is not allowed */
-        if (fds->wait)
-            return FL2_ERROR(stage_wrong);
-
         fds->asyncOutput = output;
         fds->asyncInput = input;
         /* FL2_decompressStream_async will reset fds->wait upon completion */
-- 
2.43.0


From 7643d05991c3f461e90092c98245ffddcf9878be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:02 +0000
Subject: [PATCH 30/38] fix: compression stream with a timeout reported no
 progress although blocks were compressed

---
 fl2_compress.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fl2_compress.c b/fl2_compress.c
index 4e67425..6f182dd 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -924,6 +924,9 @@ static size_t FL2_compressStream_internal(FL2_CStream* const fcs, int const endi
 
     /* no compression can occur while compressed output exists */
     if (fcs->outThread == fcs->threadCount && DICT_hasUnprocessed(buf)) {
+        /* Progress is made even if the current call times out */
+        fcs->loopCount = 0;
+
         fcs->streamTotal += fcs->curBlock.end - fcs->curBlock.start;
 
         DICT_getBlock(buf, &fcs->curBlock);
-- 
2.43.0


From 0e17f432d141ef46e3deb351bedec8ed4c6393ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 31/38] Guarded small chunk sizes for simulation
 (FL2_SIM_TUNING > 1, off by default)

---
 lzma2_enc.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lzma2_enc.c b/lzma2_enc.c
index 5d92a43..72c0966 100644
--- a/lzma2_enc.c
+++ b/lzma2_enc.c
@@ -78,10 +78,19 @@ Public domain
 
 #define kMaxMatchEncodeSize 20
 
+#if defined(FL2_SIM_TUNING) && FL2_SIM_TUNING > 1 /* small chunks for simulation; never defined in a normal build */
+#define kMaxChunkCompressedSize (1UL << 13U)
+#define kSqrtChunkSize 78U
+#define kMaxChunkUncompressedSize (1UL << 14U)
+#define kMinTestChunkSize 0x400U
+#else
 #define kMaxChunkCompressedSize (1UL << 16U)
+#define kSqrtChunkSize 252U
+#define kMaxChunkUncompressedSize (1UL << 21U)
+#define kMinTestChunkSize 0x4000U
+#endif
 /* Need to leave sufficient space for expanded output from a full opt buffer with bad starting probs */
 #define kChunkSize (kMaxChunkCompressedSize - 2048U)
-#define kSqrtChunkSize 252U
 
 /* Hard to define where the match table read pos definitely catches up with the output size, but
  * 64 bytes of input expanding beyond 256 bytes right after an encoder reset is most likely impossible.
@@ -89,8 +98,6 @@ Public domain
 #define kTempMinOutput 256U
 #define kTempBufferSize (kTempMinOutput + kOptimizerBufferSize + kOptimizerBufferSize / 4U)
 
-#define kMaxChunkUncompressedSize (1UL << 21U)
-
 #define kChunkHeaderSize 5U
 #define kChunkResetShift 5U
 #define kChunkUncompressedDictReset 1U
@@ -105,7 +112,6 @@ Public domain
 #define kHash3Bits 14U
 #define kNullLink -1
 
-#define kMinTestChunkSize 0x4000U
 #define kRandomFilterMarginBits 8U
 
 #define kState_LitAfterMatch 4
-- 
2.43.0


From 6ba43032564f48f8fac61ade1cb802c456b60cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:12 +0000
Subject: [PATCH 32/38] fix: decoding after a failed allocation ended one call
 late when the end marker began a buffer

---
 fl2_decompress.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/fl2_decompress.c b/fl2_decompress.c
index 1d0785b..cfc537d 100644
--- a/fl2_decompress.c
+++ b/fl2_decompress.c
@@ -966,29 +966,32 @@ static size_t FL2_decompressFailedMt(FL2_DStream* const fds, FL2_outBuffer* cons
 
         CHECK_F(LZMA2_initDecoder(&fds->dec, decmt->prop, NULL, 0));
     }
-    FL2_decInbuf *const cur = decmt->cur;
+    /* Continue into the next buffer when one is used up, because it may begin with the terminator */
+    for (;;) {
+        FL2_decInbuf *const cur = decmt->cur;
 
-    FL2_inBuffer temp;
-    temp.src = cur->inBuf;
-    temp.pos = decmt->curPos;
-    temp.size = cur->length;
+        FL2_inBuffer temp;
+        temp.src = cur->inBuf;
+        temp.pos = decmt->curPos;
+        temp.size = cur->length;
 
-    CHECK_F(FL2_decompressInput(fds, output, &temp));
+        CHECK_F(FL2_decompressInput(fds, output, &temp));
+
+        decmt->curPos = temp.pos;
 
-    decmt->curPos = temp.pos;
+        if (temp.pos + LZMA_REQUIRED_INPUT_MAX < temp.size)
+            break;
 
-    if (temp.pos + LZMA_REQUIRED_INPUT_MAX >= temp.size) {
         if (cur->next == NULL) {
             /* The last buffer in the chain */
             fds->overlapSize = temp.size - temp.pos;
             memcpy(fds->overlap, cur->inBuf + temp.pos, fds->overlapSize);
             decmt->cur = NULL;
             LZMA2_freeExtraInbufNodes(decmt);
+            break;
         }
-        else {
-            decmt->curPos -= cur->length - LZMA_REQUIRED_INPUT_MAX;
-            decmt->cur = cur->next;
-        }
+        decmt->curPos -= cur->length - LZMA_REQUIRED_INPUT_MAX;
+        decmt->cur = cur->next;
     }
 
     return FL2_error_no_error;
-- 
2.43.0


From e3dbcd7e064619352e111eccef506e8a420fca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 33/38] fix: counting processor cores crashed on an unusual
 /proc/cpuinfo

---
 util.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util.c b/util.c
index d646606..610c80d 100644
--- a/util.c
+++ b/util.c
@@ -612,7 +612,7 @@ int UTIL_countPhysicalCores(void)
             if (fgets(buff, BUF_SIZE, cpuinfo) != NULL) {
                 if (strncmp(buff, "siblings", 8) == 0) {
                     const char* const sep = strchr(buff, ':');
-                    if (*sep == '\0') {
+                    if (sep == NULL) {
                         /* formatting was broken? */
                         goto failed;
                     }
@@ -621,7 +621,7 @@ int UTIL_countPhysicalCores(void)
                 }
                 if (strncmp(buff, "cpu cores", 9) == 0) {
                     const char* const sep = strchr(buff, ':');
-                    if (*sep == '\0') {
+                    if (sep == NULL) {
                         /* formatting was broken? */
                         goto failed;
                     }
@@ -633,7 +633,7 @@ int UTIL_countPhysicalCores(void)
                 goto failed;
             }
         }
-        if (siblings && cpu_cores) {
+        if (cpu_cores > 0 && siblings > cpu_cores) {
             ratio = siblings / cpu_cores;
         }
 failed:
-- 
2.43.0


From 0c98fd7f6860200021a92629bfac2f67295ad195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 34/38] fix: concurrent callers could see an unfinished
 processor count

---
 util.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/util.c b/util.c
index 610c80d..d1e763a 100644
--- a/util.c
+++ b/util.c
@@ -584,10 +584,12 @@ int UTIL_countPhysicalCores(void)
 {
     static int numPhysicalCores = 0;
 
-    if (numPhysicalCores != 0) return numPhysicalCores;
+    /* Stored only when complete because other threads may call this function at the same time */
+    int count = numPhysicalCores;
+    if (count != 0) return count;
 
-    numPhysicalCores = (int)sysconf(_SC_NPROCESSORS_ONLN);
-    if (numPhysicalCores == -1) {
+    count = (int)sysconf(_SC_NPROCESSORS_ONLN);
+    if (count == -1) {
         /* value not queryable, fall back on 1 */
         return numPhysicalCores = 1;
     }
@@ -603,7 +605,7 @@ int UTIL_countPhysicalCores(void)
 
         if (cpuinfo == NULL) {
             /* fall back on the sysconf value */
-            return numPhysicalCores;
+            return numPhysicalCores = count;
         }
 
         /* assume the cpu cores/siblings values will be constant across all
@@ -638,7 +640,7 @@ int UTIL_countPhysicalCores(void)
         }
 failed:
         fclose(cpuinfo);
-        return numPhysicalCores = numPhysicalCores / ratio;
+        return numPhysicalCores = count / ratio;
     }
 }
 
-- 
2.43.0


From e625e3bf97b28f2b49c5d31644165552fea414c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 35/38] fix: a hash chain was allocated for the strategy of the
 previous operation

---
 lzma2_enc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lzma2_enc.c b/lzma2_enc.c
index 72c0966..6443f95 100644
--- a/lzma2_enc.c
+++ b/lzma2_enc.c
@@ -874,7 +874,7 @@ static int LZMA_hashCreate(LZMA2_ECtx *const enc, unsigned const dictionary_bits
  */
 int LZMA2_hashAlloc(LZMA2_ECtx *const enc, const FL2_lzma2Parameters* const options)
 {
-    if (enc->strategy == FL2_ultra && enc->hash_alloc_3 < ((ptrdiff_t)1 << options->second_dict_bits))
+    if (options->strategy == FL2_ultra && enc->hash_alloc_3 < ((ptrdiff_t)1 << options->second_dict_bits))
         return LZMA_hashCreate(enc, options->second_dict_bits);
 
     return 0;
-- 
2.43.0


From 18c176f296b6a2f3782f2f55812a8ef6dc784201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 36/38] fix: memory estimates left out the match table
 structure

---
 radix_mf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix_mf.c b/radix_mf.c
index 491fcf0..afe8ced 100644
--- a/radix_mf.c
+++ b/radix_mf.c
@@ -747,7 +747,7 @@ BYTE* RMF_getTableAsOutputBuffer(FL2_matchTable* const tbl, size_t const pos)
 
 size_t RMF_memoryUsage(size_t const dict_size, unsigned const buffer_resize, unsigned const thread_count)
 {
-    size_t size = (size_t)(4U + RMF_isStruct(dict_size)) * dict_size;
+    size_t size = sizeof(FL2_matchTable) + (size_t)(4U + RMF_isStruct(dict_size)) * dict_size;
     size_t const buf_size = RMF_calBufSize(dict_size, buffer_resize);
     size += ((buf_size - 1) * sizeof(RMF_buildMatch) + sizeof(RMF_builder)) * thread_count;
     return size;
-- 
2.43.0


From e02a231c6aef66de00feb9fb802fe818e4a42363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 37/38] fix: FL2_compressCCtx ignored the level when a stream
 was unfinished

---
 fl2_compress.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fl2_compress.c b/fl2_compress.c
index 6f182dd..8492ac3 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -552,6 +552,9 @@ FL2LIB_API size_t FL2LIB_CALL FL2_compressCCtx(FL2_CCtx* cctx,
     if (dstCapacity < 2U - cctx->params.omitProp) /* empty LZMA2 stream is byte sequence {0, 0} */
         return FL2_ERROR(dstSize_tooSmall);
 
+    /* Abandon any unfinished stream because the parameters are locked */
+    FL2_cancelCStream(cctx);
+
     if (compressionLevel > 0)
         FL2_CCtx_setParameter(cctx, FL2_p_compressionLevel, compressionLevel);
 
-- 
2.43.0


From 56d5d06e13e263bcb1fbbfb0c9aecb67a99aa763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 38/38] fix: memory estimates of compression streams left out
 dictionary buffers or read outside the table

---
 fl2_compress.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/fl2_compress.c b/fl2_compress.c
index 8492ac3..f47e4c9 100644
--- a/fl2_compress.c
+++ b/fl2_compress.c
@@ -1314,8 +1314,12 @@ FL2LIB_API size_t FL2LIB_CALL FL2_estimateCCtxSize_usingCCtx(const FL2_CCtx * cc
 
 FL2LIB_API size_t FL2LIB_CALL FL2_estimateCStreamSize(int compressionLevel, unsigned nbThreads, int dualBuffer)
 {
-    return FL2_estimateCCtxSize(compressionLevel, nbThreads)
-        + (FL2_defaultCParameters[compressionLevel].dictionarySize << (dualBuffer != 0));
+    if (compressionLevel == 0)
+        compressionLevel = FL2_CLEVEL_DEFAULT;
+
+    CLAMPCHECK(compressionLevel, 1, FL2_MAX_CLEVEL);
+
+    return FL2_estimateCStreamSize_byParams(FL2_defaultCParameters + compressionLevel, nbThreads, dualBuffer);
 }
 
 FL2LIB_API size_t FL2LIB_CALL FL2_estimateCStreamSize_byParams(const FL2_compressionParameters * params, unsigned nbThreads, int dualBuffer)
@@ -1326,5 +1330,9 @@ FL2LIB_API size_t FL2LIB_CALL FL2_estimateCStreamSize_byParams(const FL2_compres
 
 FL2LIB_API size_t FL2LIB_CALL FL2_estimateCStreamSize_usingCStream(const FL2_CStream* fcs)
 {
-    return FL2_estimateCCtxSize_usingCCtx(fcs);
+    /* The dictionary buffers are allocated when the stream is initialized */
+    size_t const dictAlloc = DICT_memUsage(&fcs->buf);
+    size_t const dictNeeded = (1 + fcs->buf.async) * fcs->params.rParams.dictionary_size;
+
+    return FL2_estimateCCtxSize_usingCCtx(fcs) + (dictNeeded > dictAlloc ? dictNeeded - dictAlloc : 0);
 }
-- 
2.43.0

