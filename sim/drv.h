// Workload driver: cases, operations, reference models.
#pragma once
#include "sim.h"
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "fast-lzma2.h"
#include "fl2_errors.h"

using namespace sim;
typedef std::vector<u8> Bytes;

#define FL2_API(X) X(compress) X(createCCtx) X(createCStream) X(createDCtx) X(createDStream) X(maxCLevel) X(maxHighCLevel) X(versionNumber) X(compressMt) X(compressCCtx) X(createCCtxMt) X(createCStreamMt) X(freeCCtx) X(freeCStream) X(compressBound) X(isError) X(isTimedOut) X(getErrorName) \
 X(getCCtxDictProp) X(initCStream) X(setCStreamTimeout) X(compressStream) X(copyCStreamOutput) X(getDictionaryBuffer) X(updateDictionary) \
 X(getNextCompressedBuffer) X(getCStreamProgress) X(waitCStream) X(cancelCStream) X(remainingOutputSize) X(flushStream) X(endStream) \
 X(CCtx_setParameter) X(CCtx_getParameter) X(getCCtxThreadCount) X(getLevelParameters) \
 X(CStream_setParameter) X(CStream_getParameter) X(estimateCCtxSize) X(estimateCCtxSize_byParams) X(estimateCCtxSize_usingCCtx) X(estimateCStreamSize) X(estimateCStreamSize_byParams) X(estimateCStreamSize_usingCStream) \
 X(estimateDCtxSize) X(estimateDStreamSize) X(getDictSizeFromProp) \
 X(decompress) X(decompressMt) X(createDCtxMt) X(freeDCtx) X(initDCtx) X(decompressDCtx) X(createDStreamMt) X(freeDStream) X(setDStreamMemoryLimitMt) \
 X(setDStreamTimeout) X(waitDStream) X(cancelDStream) X(getDStreamProgress) X(initDStream) X(initDStream_withProp) X(decompressStream) X(findDecompressedSize) X(getDCtxThreadCount)

struct Api {
#define X(n) decltype(&FL2_##n) n = nullptr;
    FL2_API(X)
#undef X
    void load(Lib& l) {
#define X(n) n = (decltype(n))lib_sym(l, "FL2_" #n);
        FL2_API(X)
#undef X
    }
};

bool for_prop(const char* p);            // the check being run is the one of this property
u64 found_size(Api& A, const Bytes& z, bool noprop);
Bytes repeated_stream(u32 chunk, u32 n, u64 seed);    // n chunks of equal size, each one with all resets, and the end marker
struct Op {
    std::string name; std::map<std::string, i64> a;
    i64 get(const char* k, i64 d = 0) const { auto it = a.find(k); return it == a.end() ? d : it->second; }
    Op() {}
    Op(const std::string& n) : name(n) {}
    Op& set(const char* k, i64 v) { a[k] = v; return *this; }
};

struct Case {
    std::string prop, lib = "small";
    u8 fill = 0xA5; u64 budget = 0;
    SchedCfg sched;
    std::vector<std::vector<Op>> clients;
};
std::string to_text(const Case&);
bool from_text(const std::string&, Case&);

// ---- one compressed stream (reference material) ----------------------------------------------------
struct Stream { Bytes data, comp; bool hash = true; bool ok = false; std::vector<size_t> blocks; };
Bytes gen_data(size_t len, int kind, u64 seed);
std::shared_ptr<Stream> make_stream(const Op& spec);    // keyed by ss,len,kind,dseed,... of the operation
u32 xxh32(const u8* p, size_t n);
// decodes a (prefix of a) LZMA2 stream with liblzma. Returns false on malformed input.
// `complete`: the end marker was reached; `used`: bytes consumed including the marker and hash
bool ref_decode(const Bytes& comp, size_t from, int dictprop, size_t limit, Bytes& out, bool& complete, size_t& used);

// ---- execution ---------------------------------------------------------------------------------------
struct CRec {                 // a finished compression, for comparison with a fresh object
    std::vector<size_t> params; unsigned threads; bool oneshot; Bytes in, out; std::string where; bool flushed; int level; unsigned mtapi;
};
struct World {
    Lib* lib; Api* api; const Case* c; std::vector<CRec> recs; bool faulty = false; bool has_jumps = false; bool has_spur = false; unsigned auto_th = 0; bool probe_faulty = false;
    unsigned auto_threads(unsigned got);
};
struct Outcome { Result r; };
bool load_libs(const std::string& dir);
Outcome exec_case(const Case& c);
void prepare_case(const Case& c);
Case gen_case(const std::string& prop, u64 seed, bool thorough);
extern const unsigned MAX_THREADS;
void run_client(World& w, const std::vector<Op>& ops, int idx);
Lib* get_lib(const std::string& n); Api* get_api(const std::string& n);
