#pragma once
#include "drv.h"

// violation helpers
void soft(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));   // ignored where the property does not state it
[[noreturn]] void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
std::string hex(const Bytes& b, size_t n = 32);

struct CObj {
    World& w; Api& A; FL2_CCtx* c = nullptr;
    unsigned th = 1; bool dual = false; unsigned tmo = 0;
    enum { NEW, OPEN, ENDED } st = NEW;   // ENDED: end marker written (the object is unlocked)
    Bytes in, out; bool flushed = false, mixed = false, endwritten = false, wasasync = false;
    int idle = 0;
    std::vector<size_t> par;
    u64 lastp = 0, lasto = 0;
    bool busy_possible = false;     // compression may be running in the background
    size_t last = 0;                // last return value (1: output must be read)
    CObj(World& w_) : w(w_), A(*w_.api) {}
    void op(const Op& o);
    void destroy();
private:
    bool async() const { return dual || tmo != 0; }
    std::vector<size_t> params();
    void create(const Op&); void setp(const Op&); void init(const Op&); void feed(const Op&); void flush(const Op&); void end(const Op&);
    void cancel(); void oneshot(const Op&); void mtapi(const Op&); void remain(); void progress(bool final_ = false); void misuse(const Op&); void poke(u64 seed, bool idle); void level(const Op&); void check_level(int lvl);
    bool step(Rng& r, size_t rc, const char* what, const Op& o);    // handles the return code; false: stop this operation
    bool drain(Rng& r, int mode, size_t cap, const Op& o, bool mustall);
    void take(const void* p, size_t n);
    void verify_end(); void verify_flush();
    void failed_state();
    FL2_outBuffer mkout(size_t cap); void rdout(FL2_outBuffer& ob);
    bool faulted(const Op& o); u64 ff0 = 0;
    std::vector<size_t> mod; void model_level(int lvl); void model_check(const Op& o); void badparam(const Op&); // what the accepted calls made of the parameters
    bool isstream = false; size_t est = 0, est0 = 0; void estimate(const Op&); void bound(const Op&); void est_check();        // what the object may allocate
    int steps_ = 0; size_t in_mark = 0;
    void timed(const char* what);
};
