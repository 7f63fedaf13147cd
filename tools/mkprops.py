#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements are reviewable as text)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            observe_at=observe or ["return codes and buffers of the public API in fast-lzma2.h"],
            hook_needed=hook)))

C="fl2_compress.c"; D="fl2_decompress.c"; POOL="fl2_pool.c"; E="lzma2_enc.c"; R="radix_mf.c"; RE="radix_engine.h"; B="dict_buffer.c"; L="lzma2_dec.c"; T="fl2_threading.h"

prop("C01","One-shot compression is lossless under every thread schedule",
 "Compressing a buffer in one call, with any supported parameters and thread count, into a destination of at least the documented bound succeeds, returns a size no larger than that bound, and produces a stream that decompresses to exactly the original bytes. This holds however the worker threads are scheduled, delayed or stalled, and the call terminates without altering the source or touching memory outside the buffers it was given.",
 ["schedules","inputs","configurations"],
 "all inputs x compression parameters x thread counts x interleavings of the match-finder and encoder workers",
 "The fuzzer runs one OS-chosen interleaving per input on an idle machine; a result that depends on which worker takes which list or finishes first is never steered into.",
 [C,R,RE,E,POOL,"radix_bitpack.c","radix_struct.c","range_enc.c"],
 [("slices per thread, encoder output stored in the match table","FL2_compressCurBlock_blocking"),("atomic list hand-out","RMF_getNextList_mt"),("pool barrier between build and encode","FL2POOL_addRange / FL2POOL_waitAll")],
 [("match table","links/lengths then reused as output buffer","radix_internal.h FL2_matchTable_s"),("jobs[]","slice bounds and compressed size per thread","fl2_compress_internal.h")])

prop("C02","Streaming compression is lossless for every segmentation and mode",
 "However the input is cut into pieces, whichever interface supplies it (copying calls or direct writes to the dictionary buffer), whichever interface takes the output (copied, of any buffer size, or read in place), with one or two dictionary buffers, with or without timeouts, and under every thread schedule, all input is accepted and the collected output, once ending the stream reports completion, is one complete stream that decompresses to exactly the concatenated input. Every compressed byte is handed out exactly once and in order.",
 ["schedules","inputs","histories","configurations"],
 "all sequences of feed/read/flush/wait/end calls x segmentations x single/dual buffering x schedules of the background compression and its workers",
 "The fuzzer uses a handful of call patterns; short reads, tiny output buffers and slow background compression at a block boundary are sampled a few times with whatever timing the OS gives.",
 [C,B,POOL,E,R],
 [("dictionary fill/shift/overlap","DICT_put, DICT_get, DICT_update, DICT_shift, DICT_needShift"),("async block hand-off","FL2_compressStream_internal, FL2_waitCStream"),("end marker and hash","FL2_writeEnd")],
 [("outThread/threadCount/outPos","compressed output not yet taken","fl2_compress_internal.h"),("DICT_buffer start/end/index","unprocessed input","dict_buffer.h")])

prop("C03","Streaming decompression is exact for every segmentation and mode",
 "A valid stream fed to the streaming decompressor in pieces of any size and drained into output pieces of any size, with any number of threads, with or without timeouts, yields exactly the original bytes and reports completion on the call that delivers the last of them (or consumes the rest of the trailer), never before. On completion the input position is exactly past the stream, so bytes that follow it are not consumed, and this holds under every thread schedule.",
 ["schedules","inputs","histories","configurations"],
 "all valid streams x input and output segmentations x thread counts x timeouts x schedules",
 "Tests decode with one or two fixed chunk sizes; look-ahead handling at piece boundaries and hand-over between parallel blocks depends on where the cuts fall and when the workers finish.",
 [D,L,POOL],
 [("look-ahead carry between inputs","FL2_decompressOverlappedInput"),("input chain and block parsing","FL2_loadInputMt, FL2_parseMt"),("block decode and ordered write","FL2_decompressBlocksMt, FL2_writeStreamBlocks")],
 [("stage","progress through prop/data/hash","FL2_DStream_s"),("inBlock chain","compressed input per block","FL2_decJob")])

prop("C04","Multi-threaded one-shot decompression equals single-threaded",
 "Decompressing a complete in-memory stream with several threads gives the same bytes and size as with one thread for every thread schedule, and the caller's destination capacity is enforced identically: success when it is large enough for the content, an error otherwise, and never a write beyond it. The result is returned only after every worker has finished writing to the destination.",
 ["schedules","inputs","configurations"],
 "all streams with any number of dictionary resets x thread counts x capacities x schedules",
 "A worker still writing after the call returned, or a block decoded into the wrong place, needs a slow worker at a particular moment.",
 [D,L,POOL],
 [("block splitting at dictionary resets","FL2_decompressDCtxMt"),("parallel decode and barrier","FL2_decompressCtxBlocksMt")])

prop("C05","A completed flush makes everything supplied so far decodable",
 "When a flush reports completion (and the output it made available has been taken), the bytes produced so far decode to exactly the input supplied so far, in every buffering mode and under every schedule, and the stream can be continued and ended normally afterwards. A single-threaded streaming decompressor given those bytes, in any pieces and with output space supplied in any pieces, delivers all of that data without needing any further input.",
 ["schedules","histories","crash_points","inputs"],
 "all positions of one or more flushes in a stream x buffering modes x timeouts x schedules; reader cut off at the flush point",
 "Tests only decode whole streams; nothing decodes the prefix at a flush, or flushes while background compression is still running.",
 [C,B,D],
 [("flush completion report","FL2_flushStream, FL2_flushStream_internal"),("delivery of pending data","FL2_decompressStream_blocking, FL2_decompressOverlappedInput")])

prop("C06","Timeouts never report unfinished work as done and never lose data",
 "With a timeout set on a compression or decompression stream, a call either returns the timeout code or a result that reflects work actually completed; a timed-out call can be repeated or waited for until it completes, and the final data is identical to that obtained without timeouts. This holds for every timeout value, worker delay, spurious wake-up and jump of the system clock, and a timed call never waits longer than its timeout for background work (at most once for each block it completes) while the clock runs normally.",
 ["schedules","fault_sequences","histories"],
 "all timeouts x worker start and finish delays x spurious wake-ups x clock jumps x retry patterns",
 "Timeout paths are exercised with whatever delays the machine produces; a worker that has not even started when the timeout fires is practically never observed.",
 [POOL,T,C,D],
 [("timed wait","FL2POOL_waitAll, FL2_pthread_cond_timedwait"),("retry protocol","FL2_waitCStream, FL2_waitDStream")],
 [("numThreadsBusy, queueIndex, queueEnd","what is still running or queued","FL2POOL_ctx_s")])

prop("C07","Cancelling compression at any instant is safe and leaves the object usable",
 "Cancelling a compression stream at any moment returns with no work left running in the background, releases nothing the caller still owns, and leaves the object uninitialised but usable: initialising it again, with the same or other parameters, compresses new data correctly with no trace of the cancelled data. The outcome does not depend on how far the workers had got.",
 ["schedules","crash_points","histories"],
 "all instants of a cancel relative to match finding, encoding and hand-off x thread counts x schedules x what is done next",
 "No test cancels a compression that is under way, and the instant of the cancel relative to each worker is decided by the OS.",
 [C,R,RE,POOL],
 [("cancel flag and build abort","FL2_cancelCStream, RMF_cancelBuild, RMF_resetIncompleteBuild"),("abort checks","LZMA2_encode, FL2_compressCurBlock_blocking")])

prop("C08","Cancelling decompression at any instant is safe and leaves the object usable",
 "Cancelling a decompression stream at any moment, in any mode, returns with no work left running, so that the caller's input and output buffers are no longer touched, frees the memory held for multi-threaded decoding, and leaves the object able to decode another stream correctly after initialisation. The outcome does not depend on how far the workers had got.",
 ["schedules","crash_points","histories"],
 "all instants of a cancel relative to loading, decoding and writing x thread counts x schedules x what is done next",
 "No test cancels a decompression that is under way.",
 [D,POOL],
 [("cancel","FL2_cancelDStream"),("clean up","FL2_lzma2DecMt_cleanup, FL2_lzma2DecMt_init")])

prop("C09","Compression survives failed allocations and failed thread creation",
 "When any memory allocation or thread creation made on behalf of a compression call fails, that call reports failure (a null object or an error code) or succeeds with correct output; it never crashes, hangs, leaks or returns wrong data. The object can then be freed or used again, and once resources are available it compresses correctly.",
 ["fault_sequences","schedules","histories"],
 "every position of one or more failing allocations / thread creations in any sequence of creation, parameter, one-shot and streaming compression calls",
 "The tests never make an allocation or a thread creation fail.",
 [C,R,B,E,POOL],
 [("creation unwinding","FL2_createCCtx_internal, FL2POOL_create"),("table and builder allocation","RMF_createMatchTable, RMF_applyParameters"),("dictionary and hash allocation","DICT_init, LZMA2_hashAlloc")])

prop("C10","Decompression survives failed allocations and failed thread creation",
 "When any memory allocation or thread creation made on behalf of a decompression call fails, that call reports failure or completes correctly, for example by continuing with a single thread; it never crashes, hangs, leaks, reports completion early or returns wrong data. The object can then be freed or initialised again and decodes correctly once resources are available.",
 ["fault_sequences","schedules","histories"],
 "every position of one or more failing allocations / thread creations in any sequence of creation, one-shot and streaming decompression calls",
 "The tests never make an allocation or a thread creation fail; the single-thread fallback in mid-stream is reached only through them or the memory limit.",
 [D,L,POOL],
 [("fallback to one thread","FL2_decompressFailedMt"),("creation unwinding","FL2_createDCtxMt, FL2_lzma2DecMt_create"),("stream start","FL2_initDStream_prop")])

prop("C11","Corrupted streams are never accepted as different data",
 "If the stored bytes of a hashed stream are altered in any way (other than clearing the flag that says it has a hash), every decompression interface (one-shot or streaming, any segmentation and thread count, any schedule) either reports an error or returns exactly the original data; it never reports success with other data. On any bytes whatever it terminates and never reads outside the input, writes outside the output, or crashes.",
 ["inputs","fault_sequences","schedules","configurations"],
 "all byte flips, overwrites, lost, duplicated and transposed ranges of stored streams x interfaces x segmentations x thread counts x schedules",
 "The fuzzer's corruption tests use one-shot decoding and accept any outcome but a crash.",
 [D,L,"xxhash.c"],
 [("hash check","FL2_decompressDCtx, FL2_decompressStream_blocking"),("chunk validation","LZMA2_decodeChunkToDic, LZMA2_parseInput")])

prop("C12","A torn stream is never reported complete",
 "Given only a strict prefix of a valid stream, as left by a writer that stopped at any byte, the one-shot decompressor reports an error and the streaming decompressor never reports completion; whatever the streaming decompressor delivered is a prefix of the original data. This holds for every cut point, segmentation, thread count and schedule, and nothing is read beyond the cut.",
 ["crash_points","inputs","schedules","configurations"],
 "every cut point of every stream (property byte, chunk headers, chunk data, terminator, hash) x interfaces x segmentations x thread counts",
 "Tests check a few truncations of one-shot streams.",
 [D,L],
 [("end detection","LZMA2_decodeToDic, FL2_decompressDCtxMt, FL2_loadInputMt"),("trailer","FL2_decompressStream_blocking")])

prop("C13","Compression results do not depend on the object's history",
 "After any sequence of earlier operations on a compression object (completed, abandoned, cancelled, timed-out or failed for lack of output space or memory, with other parameters and sizes), starting a new operation behaves as on a new object with the same parameters: it accepts parameter changes, succeeds, and produces exactly the same compressed bytes. An operation that failed leaves no lock, stale data or error behind.",
 ["histories","fault_sequences","schedules"],
 "all sequences of operations on one object ending in a fresh operation",
 "Reuse is tested only after successful operations with compatible parameters.",
 [C,B,R,E],
 [("frame begin/end","FL2_beginFrame, FL2_endFrame, FL2_preBeginFrame"),("stream init","FL2_initCStream"),("table compatibility","RMF_compatibleParameters, RMF_applyParameters")])

prop("C14","Decompression results do not depend on the object's history",
 "After any sequence of earlier operations on a decompression object (completed, abandoned half way, cancelled, timed-out, or failed on corrupt, truncated or oversized data), initialising and decoding another stream behaves as on a new object: same bytes, same consumption of input, same errors. An object whose previous stream is still being worked on says so instead of starting another.",
 ["histories","fault_sequences","schedules"],
 "all sequences of operations on one object ending in a fresh decode",
 "Reuse is tested only after successful decodes.",
 [D,L],
 [("init","FL2_initDStream, FL2_lzma2DecMt_init, FL2_initDCtx"),("property handling","FL2_decompressDCtx")])

prop("C15","The multi-threaded decoder's memory limit is respected",
 "With a memory limit set on a multi-threaded decompression stream, the memory obtained for input and output buffers of multi-threaded decoding never exceeds the limit at any moment; when the limit does not allow it, decoding goes on with a single thread and still yields exactly the original data for every segmentation and schedule. The limit also holds when an object is reused after completed, failed or cancelled streams, without the earlier use reducing what later streams may use.",
 ["configurations","histories","schedules","inputs"],
 "all limits x streams x thread counts x segmentations x object histories",
 "Tests set the limit once; nothing measures the memory actually held, or crosses the limit at each possible point of a stream.",
 [D],
 [("accounting","FL2_createInbufNode, FL2_handleFinalChunkMt, FL2_freeOutputBuffers"),("fallback","FL2_lzma2DecMt_initProp, FL2_decompressFailedMt")],
 [("memTotal","bytes counted against the limit","FL2_decMt")],
 ["allocator calls made by the library between stream init and completion"])

prop("C16","Calls out of sequence are refused and parameters stay fixed in a stream",
 "While a compression stream is open, a parameter whose change would break it is refused and keeps its value, and the stream still decodes; using a compression stream before it is initialised or after it was cancelled or ended, or a decompression stream while its previous call is still running, returns an error without side effects. Once a stream or one-shot operation has ended, been cancelled or failed, parameters can be set again.",
 ["histories","schedules"],
 "all sequences of API calls including out-of-order ones, while background work is or is not in progress",
 "Tests call in the documented order.",
 [C,D],
 [("parameter lock","FL2_CCtx_setParameter, lockParams"),("stage checks","FL2_compressStream, FL2_flushStream, FL2_endStream, FL2_initDStream, FL2_decompressStream")])

prop("C17","Progress reports are monotonic, bounded and end at the true totals",
 "Sampled at any moments by the thread that owns the object, the reported input progress of a compression stream and output progress of a decompression stream never decrease within a stream and never exceed what has been supplied or can be produced. When all work is done they equal the true totals (up to rounding of the compression estimate by under one unit per block), including the reported number of compressed bytes.",
 ["schedules","histories","inputs"],
 "all sampling instants relative to worker steps x schedules x streams",
 "No test checks a progress value.",
 [C,D,E,RE],
 [("estimate","FL2_getCStreamProgress, FL2_initProgress"),("updates","LZMA2_encode, RMF_buildTable, FL2_decompressBlockMt, FL2_decompressInput")])

prop("C18","Independent objects used from different threads do not affect each other",
 "Any number of compression and decompression objects used at the same time, each from its own caller thread, give the same results as when each is used alone, under every schedule. No call on one object waits for, corrupts or leaks into another.",
 ["schedules","histories"],
 "all interleavings of calls on several objects by several caller threads",
 "Tests use one caller thread.",
 [C,D,"util.c","fl2_threading.c",R],
 [("absence of shared mutable state","whole library; the cached core count in UTIL_countPhysicalCores is the exception")])

prop("C19","Compressed output is a function of input and settings, not of timing",
 "For given data, parameters and number of threads, the compressed bytes are identical for every thread schedule and timing; for a stream without flushes they are also identical for every input segmentation, output buffer size, use of timeouts and use of one or two dictionary buffers.",
 ["schedules","inputs","configurations"],
 "pairs of schedules, segmentations and modes for the same data and settings",
 "Tests never compare two compressed outputs.",
 [C,R,RE,E,B],
 [("static slicing by thread count","FL2_compressCurBlock_blocking"),("per-list ownership","RMF_getNextList_mt"),("block boundaries fixed by dictionary size","DICT_getBlock, DICT_shift")])

prop("C20","The reported amount of remaining compressed output is exact",
 "At any time when no background work is running, the reported amount of compressed data remaining equals the number of bytes that can be taken before more input is compressed, whatever mix of copying and in-place reading has been used, and the return values that say whether output remains agree with it. Output taken in part is counted only for the part not yet taken.",
 ["histories","configurations","schedules"],
 "all histories of partial copies and in-place reads of compressed output x modes",
 "No test calls the function.",
 [C],
 [("accounting","FL2_remainingOutputSize, FL2_copyCStreamOutput, FL2_getNextCompressedBuffer")])

prop("C21","Every call returns: no schedule, wake-up order or stall causes a hang",
 "Every API call terminates within a bounded number of steps once all runnable threads are given turns, for every order in which threads run, are woken (including spuriously) or stall; no wake-up is lost and no two threads wait for each other. This includes creation and destruction of multi-threaded objects and repeated operations on them.",
 ["schedules","fault_sequences"],
 "all schedules, wake-up orders, spurious wake-ups and bounded stalls of pool threads and the background thread",
 "A lost wake-up needs one particular order of lock, test, wait and signal.",
 [POOL,C,D],
 [("queue protocol","FL2POOL_thread, FL2POOL_addRange, FL2POOL_waitAll, FL2POOL_join")])

prop("C22","Objects can be freed at any moment without leak, crash or stray work",
 "Freeing a compression or decompression object at any moment, including while a timed-out operation is still running in the background, after errors, and half way through a stream, waits for or stops that work, returns all memory and threads, and touches neither freed memory nor the caller's buffers afterwards. Abandoning an operation by starting a new one on the same object is equally safe.",
 ["crash_points","schedules","histories","fault_sequences"],
 "all instants of a free or re-initialisation relative to background work x schedules x histories",
 "Tests free only idle objects.",
 [C,D,POOL],
 [("teardown order","FL2_freeCCtx, FL2_freeDStream, FL2_freeDCtx, FL2POOL_join")])

prop("C23","Destination space is respected and running out of it is always reported",
 "For every destination capacity, a one-shot compression or decompression call writes nothing beyond the capacity, and returns an error when the result does not fit instead of truncated data; a compression call succeeds with any capacity that is at least the compressed size. After such an error the object works normally, with larger or equal destinations.",
 ["inputs","configurations","fault_sequences","histories","schedules"],
 "all capacities from zero to the bound x inputs x thread counts, followed by further use",
 "Tests try one or two capacities and never look at the bytes past the end or use the object again.",
 [C,D,L],
 [("capacity checks","FL2_compressBuffer, FL2_compressCCtx, FL2_decompressCtxBlocksMt, LZMA2_decodeToDic")])

prop("C24","Default thread counts are right, stable and safe to determine",
 "An object created with a thread count of zero gets the number of processor cores that the system's processor information gives (the number of processors, divided by the number of siblings per core where that is known), at least one and at most the maximum; a count beyond the maximum is reduced to it. Determining the count never crashes, hangs or leaks a file whatever that information contains, whether it is missing, torn, malformed or inconsistent or reading it fails at any point, and every object created this way in a process gets the same count, also when several callers need it for the first time at the same moment.",
 ["fault_sequences","schedules","histories","configurations"],
 "all contents and read failures of the processor information x several callers' first calls in any interleaving x kinds of object",
 "Tests run with the one processor description of the machine they run on, from one thread.",
 ["util.c",C,D,"fl2_common.c"],
 [("processor probe and cached count","UTIL_countPhysicalCores"),("limit on threads","FL2_checkNbThreads")])

prop("C30","The compression bound and memory estimates cover actual use",
 "The documented bound on compressed size is enough for every input, settings and thread count. The memory estimates (by level, by parameters or from an object) cover what a new compression object with those settings allocates over its lifetime, whatever operations it is used for, whatever the schedule and whichever allocations fail, as do the estimates for a one-shot decompression object and a single-threaded decompression stream (thread pool bookkeeping of about a kilobyte aside). The estimate for a level covers all lower levels, level 0 means the default level, and a level that does not exist gives an error.",
 ["inputs","configurations","histories","fault_sequences"],
 "all sizes, parameters and thread counts x sequences of operations on a new object x failing allocations, with every allocation of the library counted",
 "No test measures memory, and the bound is tested for a few sizes.",
 [C,E,R,B,D],
 [("bound","LZMA2_compressBound"),("estimates","FL2_estimateCCtxSize*, FL2_estimateCStreamSize*, FL2_estimateDCtxSize, FL2_estimateDStreamSize, RMF_memoryUsage, LZMA2_encMemoryUsage, DICT_memUsage")],
 observe=["return values of the estimate functions; calls of malloc, calloc, realloc and free made by the library"])

prop("C31","The size found in a stored stream equals its decoded size",
 "For a complete stream in memory, however it was written (any settings, flushes, with or without property byte or hash, with bytes after its end), the function that finds the decompressed size returns the number of bytes that decoding it yields, also beyond 32 bits. For what is left of a stream whose writer stopped at any byte before the end marker it returns its error value. On any bytes it reads only the bytes given, and if they can be decoded the size found is the size decoded.",
 ["crash_points","inputs","fault_sequences","configurations"],
 "all streams x all positions where writing them was cut off x altered bytes",
 "Tests pass complete streams of the library only.",
 [L,D],[("header walk","LZMA2_getUnpackSize, LZMA2_parseInput")])

prop("C32","Parameters are exactly what the accepted calls made of them",
 "At every moment the values read back from a compression object are those of a new object changed by the accepted calls only: a parameter that was accepted reads back as set through both interfaces; an unknown parameter, a value out of range, a level that does not exist and a change refused in an open stream have no effect (literal context and position bits that together exceed 4 are kept but reported by an error); selecting a level (or high compression, which applies the current level again), also by passing it to an initialisation or a one-shot call, sets the parameters that the level query reports, returns the literal and position bits and the match buffer size to their defaults and leaves the others alone. No compression, flush, cancellation, timeout, error or failed allocation changes a parameter.",
 ["histories","fault_sequences","schedules","configurations"],
 "all sequences of parameter changes, valid or not, and operations, completed, cancelled or failed",
 "Tests read back hardly any parameter, and none after an operation failed or was cancelled.",
 [C],[("parameter table","FL2_CCtx_setParameter, FL2_CCtx_getParameter, FL2_getLevelParameters"),("level as an argument","FL2_initCStream, FL2_compressCCtx")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P))
