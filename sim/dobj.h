#pragma once
#include <set>
#include "drv.h"

// A decompression object (stream or one-shot context) and the model of what the caller may rely on.
struct DObj {
    World& w; Api& A;
    FL2_DStream* s = nullptr; FL2_DCtx* x = nullptr;
    unsigned th = 1, tmo = 0; size_t limit = (size_t)1 << 29;
    u64 base = 0;                     // live library bytes right after creation
    std::set<size_t> dicts;           // sizes of the single-threaded dictionary that may be allocated
    bool dirty = false;               // an earlier stream was abandoned or failed
    bool nodecomp = false;            // this object is itself a comparison object
    DObj(World& w_) : w(w_), A(*w_.api) {}
    void op(const Op& o);
    void destroy();

    // what one decoding did, for comparison with a fresh object
    struct Trace { std::vector<u64> calls; Bytes out; size_t consumed = 0; int code = -1; u64 mtsteps = 0; bool timed = false; u64 peak = 0; };
private:
    // a call in flight: the buffers stay valid until the call is known to be over
    struct Pending { u8 *in = nullptr, *out = nullptr; FL2_inBuffer* ib = nullptr; FL2_outBuffer* ob = nullptr; bool live = false; };
    Pending p;
    void release(bool poison_only = false); void more(const Op&); Bytes rest; bool inited = false;
    void create(const Op&); void stream(const Op&, Trace* cmp); void oneshot(const Op&); void mtapi(const Op&);
    void cancel(); void wait_pending(const Op&); void checkmem(const char* when); void checkfreed(); void timed(const char* what);
    u64 est0 = 0; void est_check(const char* when, size_t est); void find_check(const Stream& S, const Bytes& in, bool corrupt, bool wp, bool ok, size_t got);
    u64 ff0 = 0; bool faulted() const { return faults_fired() != ff0; }
    void input(const Op& o, Stream& S, Bytes& in, bool& corrupt, bool& cut, bool& flushcut, size_t& expect);
};
