#include "cobj.h"
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <algorithm>

extern "C" void* sim_memcpy(void*, const void*, size_t);

// secondary oracles belong to the properties that state them
std::string current_prop;
static bool relevant(const char* kind) {
    auto is = [&](const char* p) { return !strncmp(kind, p, strlen(p)); };
    auto prop = [&](std::initializer_list<const char*> l) { if (current_prop.empty()) return true; for (auto x : l) if (current_prop == x) return true; return false; };
    if (is("progress-")) return prop({"C17"});
    if (is("remaining")) return prop({"C20"});
    if (is("mem-limit")) return prop({"C15"});
    if (is("cancel-memory")) return prop({"C08", "C15"});
    return true;
}
bool for_prop(const char* p) { return current_prop.empty() || current_prop == p; }
bool wants_reference() { return current_prop.empty() || current_prop == "C06" || current_prop == "C07" || current_prop == "C13" || current_prop == "C18" || current_prop == "C19"; }

void fail(const char* kind, const char* fmt, ...) {
    char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    violate(std::string("oracle:") + kind, b);
}
void soft(const char* kind, const char* fmt, ...) {
    if (!relevant(kind)) return;
    char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    violate(std::string("oracle:") + kind, b);
}
static const FL2_cParameter PARS[] = { FL2_p_dictionarySize, FL2_p_overlapFraction, FL2_p_resetInterval, FL2_p_bufferResize, FL2_p_hybridChainLog, FL2_p_hybridCycles,
    FL2_p_searchDepth, FL2_p_fastLength, FL2_p_divideAndConquer, FL2_p_strategy, FL2_p_literalCtxBits, FL2_p_literalPosBits, FL2_p_posBits, FL2_p_omitProperties, FL2_p_doXXHash };
static const int NP = 15;

std::vector<size_t> CObj::params() { std::vector<size_t> v; for (int i = 0; i < NP; ++i) v.push_back(A.CCtx_getParameter(c, PARS[i])); return v; }
bool CObj::faulted(const Op&) { return faults_fired() != ff0; }

static const u32 REMCHK = 500;

FL2_outBuffer CObj::mkout(size_t cap) { FL2_outBuffer o; o.dst = buf_alloc(cap); o.size = cap; o.pos = 0; return o; }
void CObj::rdout(FL2_outBuffer& ob) {
    if (ob.pos > ob.size) fail("outpos", "output position %zu beyond size %zu", ob.pos, ob.size);
    out.insert(out.end(), (u8*)ob.dst, (u8*)ob.dst + ob.pos); buf_free((u8*)ob.dst); ob.dst = nullptr;
}
void CObj::take(const void* p, size_t n) {
    // the bytes must be readable at this moment
    u8* t = buf_alloc(n); sim_memcpy(t, p, n); out.insert(out.end(), t, t + n); buf_free(t);
}

// the small library makes more slices than the documented bound allows for
size_t bound_for(Lib* l, Api& A, size_t n) { size_t b = A.compressBound(n); return l->name == "std" ? b : b + 6 * (n / 256 + 8); }

// ---- the size found in a stream in memory ----
// what the chunk headers say: the sum of the sizes, or no end marker inside the n bytes
static bool header_walk(const u8* b, size_t n, u64& sum) {
    sum = 0; size_t p = 1;
    while (p < n) {
        u8 k = b[p]; if (!k) return true;
        if (k > 2 && k < 0x80) return false;
        size_t h = k < 0x80 ? 3 : 5 + (k >= 0xC0); if (p + h > n) return false;
        u64 u = ((u64)b[p + 1] << 8 | b[p + 2]) + 1; if (k >= 0x80) u += (u64)(k & 0x1F) << 16;
        p += k < 0x80 ? 3 + (size_t)u : h + ((size_t)b[p + 3] << 8 | b[p + 4]) + 1; sum += u;
    }
    return false;
}
// `noprop`: the stream has no property byte and the one before it must not be read
u64 found_size(Api& A, const Bytes& z, bool noprop) {
    size_t n = z.size(); u8* p = buf_alloc(n); if (n) memcpy(p, z.data(), n); buf_readonly(p, n);
    u64 v = A.findDecompressedSize(noprop ? p - 1 : p, n + (noprop ? 1 : 0)); trace(v); buf_free(p);
    u64 sum; Bytes t; if (noprop) { t.push_back(0); t.insert(t.end(), z.begin(), z.end()); }
    const Bytes& q = noprop ? t : z; bool full = header_walk(q.data(), q.size(), sum);
    if (!full && v != FL2_CONTENTSIZE_ERROR) fail("content-size", "size %llu was found in %zu bytes that contain no end of a stream", (unsigned long long)v, n);
    if (full && v != sum && v != FL2_CONTENTSIZE_ERROR) fail("content-size", "size %llu was found, the chunks hold %llu", (unsigned long long)v, (unsigned long long)sum);
    sim::probe(17); return v;
}

void CObj::progress(bool final_) {
    if (!c || (st == NEW)) return;
    unsigned long long o = 0; u64 p = A.getCStreamProgress(c, &o);
    trace(p); trace(o);
    if (p < lastp) soft("progress-decreased", "compression progress went from %llu to %llu", (unsigned long long)lastp, (unsigned long long)p);
    if (p > in.size()) soft("progress-bound", "compression progress %llu exceeds the %zu bytes supplied", (unsigned long long)p, in.size());
    if (o < lasto) soft("progress-decreased", "compressed size progress went from %llu to %llu", (unsigned long long)lasto, (unsigned long long)o);
    lastp = p; lasto = o;
    if (final_) {
        size_t ovh = 1 + (par[14] && !par[13] ? 4 : 0) + (in.empty() && !par[13] ? 1 : 0);
        if (p + 2 < in.size()) soft("progress-total", "progress is %llu after all %zu bytes were compressed", (unsigned long long)p, in.size());
        if (o + ovh != out.size()) soft("progress-total", "compressed size progress is %llu, %zu bytes were produced (%zu of them trailer)", (unsigned long long)o, out.size(), ovh);
    }
}

void CObj::failed_state() { st = NEW; in.clear(); out.clear(); idle = 0; last = 0; }

void CObj::timed(const char* what) {
    u64 blk = take_blocked(), sum = take_blocked_sum(), blocks = par.empty() || in.size() <= in_mark ? 0 : (in.size() - in_mark) / (par[0] / 16 + 1); in_mark = in.size();
    // a call may wait once for the blocks in work, once for each block it completes, once for the end
    if (tmo && !w.has_jumps && sum > ((u64)tmo * 1000000 + 300000 + 50 * w.c->sched.nsps) * (3 + blocks)) fail("timeout-exceeded", "%s was blocked for %llu us in all with a timeout of %u ms", what, (unsigned long long)(sum / 1000), tmo);
    if (tmo && !w.has_jumps && blk > (u64)tmo * 1000000 + 300000 + 50 * w.c->sched.nsps) fail("timeout-exceeded", "%s was blocked for %llu us with a timeout of %u ms", what, (unsigned long long)(blk / 1000), tmo);
}

// true: go on (or retry); false: operation over
bool CObj::step(Rng& r, size_t rc, const char* what, const Op& o) {
    trace(rc);
    timed(what);
    if (++steps_ > 200000) fail("no-progress", "%s: no completion after many calls", what);
    if (!A.isError(rc)) return true;
    if (A.isTimedOut(rc)) {
        if (!tmo) fail("timeout-unset", "%s returned the timeout code without a timeout set", what);
        sim::probe(1);
        if (steps_ > 200) sleep_steps(std::min<u64>(2000000, (u64)steps_ * 100));      // a short timeout in a long operation: fewer calls, the work goes on
        switch (r.below(4)) {
        case 0: break;
        case 1: sleep_steps(r.logu(1, 20000)); break;
        case 2: progress(); break;
        case 3: { size_t x = A.waitCStream(c); timed("waitCStream"); if (A.isError(x) && !A.isTimedOut(x) && !faulted(o)) fail("error", "waitCStream: %s", A.getErrorName(x)); break; }
        }
        return true;
    }
    if (faulted(o)) { failed_state(); poke(r.next(), false); A.cancelCStream(c); poke(r.next(), true); take_blocked(); take_blocked_sum(); return false; }
    fail("error", "%s failed: %s", what, A.getErrorName(rc));
}

bool CObj::drain(Rng& r, int mode, size_t cap, const Op& o, bool mustall) {
    bool quiet = !async();
    if (async() && r.below(2)) { size_t x = A.waitCStream(c); if (!step(r, x, "waitCStream", o)) return false; if (!A.isError(x)) quiet = true; }
    size_t R = 0; if (quiet) { R = A.remainingOutputSize(c); if (!step(r, R, "remainingOutputSize", o)) return false; }
    size_t start = out.size();
    for (;;) {
        int m = mode == 2 ? (int)r.below(2) : mode;
        size_t before = out.size(); bool more;
        if (m == 0) {
            FL2_cBuffer cb; size_t x = A.getNextCompressedBuffer(c, &cb);
            if (!step(r, x, "getNextCompressedBuffer", o)) return false;
            if (A.isTimedOut(x)) { if (cb.size) fail("timeout-data", "timed-out call returned a buffer"); continue; }
            if (x != cb.size) fail("retval", "getNextCompressedBuffer returned %zu for a buffer of %zu", x, cb.size);
            if (!x) { more = false; quiet = true; } else { take(cb.src, cb.size); more = true; }
            if (!quiet) quiet = false;
        } else {
            size_t k = cap ? cap : r.logu(1, 5000);
            FL2_outBuffer ob = mkout(k); size_t x = A.copyCStreamOutput(c, &ob); size_t got = ob.pos; rdout(ob); trace(x);
            if (A.isError(x)) fail("error", "copyCStreamOutput: %s", A.getErrorName(x));
            more = x != 0; if (more && got != k) fail("retval", "copyCStreamOutput reports remaining output but left %zu of %zu bytes free", k - got, k);
        }
        if (quiet && R + start >= out.size()) {
            size_t q = A.remainingOutputSize(c);
            if (q != R - (out.size() - start)) soft("remaining", "remaining output reported as %zu after taking %zu of %zu bytes", q, out.size() - start, R);
        }
        if (!more) break;
        if (out.size() != before) idle = 0;
        if (!mustall && r.below(6) == 0) return true;
    }
    if (quiet && R != 0 && out.size() - start != R) soft("remaining", "remaining output was %zu but %zu bytes were taken", R, out.size() - start);
    last = 0;
    return true;
}

void CObj::create(const Op& o) {
    destroy();
    th = (unsigned)o.get("th", 1); dual = o.get("dual") != 0; tmo = 0;
    reset_peak(); est0 = live_bytes(); est = 0; isstream = dual || o.get("stream");
    bool plain = o.get("plain") && th == 1 && !dual;
    c = plain ? isstream ? A.createCStream() : A.createCCtx() : isstream ? A.createCStreamMt(th, dual) : A.createCCtxMt(th);
    st = NEW; trace(c != nullptr);
    if (!c) { if (!faulted(o)) fail("create", "creation failed without a fault"); return; }
    unsigned n = A.getCCtxThreadCount(c);
    if (th && n != std::min(th, MAX_THREADS)) fail("threads", "thread count %u, %u requested", n, th);
    if (!th) { w.auto_threads(n); sim::probe(15); }
    th = n;
    mod = params(); mod.push_back(A.CCtx_getParameter(c, FL2_p_compressionLevel)); mod.push_back(A.CCtx_getParameter(c, FL2_p_highCompression));
    std::vector<size_t> m = mod; model_level((int)mod[15]); m[2] = mod[2]; if (m != mod) fail("param-state", "a new object's parameters are not those of its level %zu", m[15]);
}
// ---- reference model of the parameters ----
static const struct { size_t lo, hi; } RANGE[] = { {FL2_DICTSIZE_MIN, FL2_DICTSIZE_MAX}, {0, FL2_BLOCK_OVERLAP_MAX}, {0, FL2_RESET_INTERVAL_MAX}, {0, FL2_BUFFER_RESIZE_MAX}, {FL2_CHAINLOG_MIN, FL2_CHAINLOG_MAX},
    {FL2_HYBRIDCYCLES_MIN, FL2_HYBRIDCYCLES_MAX}, {FL2_SEARCH_DEPTH_MIN, FL2_SEARCH_DEPTH_MAX}, {FL2_FASTLENGTH_MIN, FL2_FASTLENGTH_MAX}, {0, ~(size_t)0}, {0, 2}, {0, FL2_LC_MAX}, {0, FL2_LP_MAX}, {0, FL2_PB_MAX}, {0, ~(size_t)0}, {0, ~(size_t)0} };
void CObj::model_level(int lvl) {
    FL2_compressionParameters q; memset(&q, 0, sizeof q); size_t x = A.getLevelParameters(lvl, (int)mod[16], &q); if (A.isError(x)) fail("param-state", "level %d has no parameters", lvl);
    size_t e[] = { q.dictionarySize, q.overlapFraction, mod[2], 2 /* buffer resize */, q.chainLog, (size_t)1 << q.cyclesLog, q.searchDepth, q.fastLength, q.divideAndConquer, (size_t)q.strategy, 3, 0, 2, mod[13], mod[14], (size_t)lvl, mod[16] };
    mod.assign(e, e + 17);
}
void CObj::model_check(const Op& o) {
    if (!c || mod.empty()) return;
    std::vector<size_t> v = params(); v.push_back(A.CStream_getParameter(c, FL2_p_compressionLevel)); v.push_back(A.CStream_getParameter(c, FL2_p_highCompression));
    for (int i = 0; i < 17; ++i) if (v[i] != mod[i]) fail("param-state", "after %s parameter %d is %zu, the calls made it %zu", o.name.c_str(), i < NP ? (int)PARS[i] : i == 15 ? FL2_p_compressionLevel : FL2_p_highCompression, v[i], mod[i]);
    size_t l = A.CCtx_getParameter(c, FL2_p_dictionaryLog); if (l >= 64 || ((size_t)1 << l) < mod[0] || (l > 12 && ((size_t)1 << (l - 1)) >= mod[0] && w.lib->name != "std")) fail("param-state", "dictionary of %zu bytes is reported as log %zu", mod[0], l);
}
// a value outside the range, an unknown parameter, a level that does not exist: refused, without effect
void CObj::badparam(const Op& o) {
    int p = (int)o.get("p"); size_t v; const char* what = "value";
    FL2_cParameter id;
    if (p < NP) { id = PARS[p]; if (RANGE[p].hi == ~(size_t)0) return; i64 k = o.get("k"); v = k < 0 ? RANGE[p].lo ? RANGE[p].lo - 1 : ~(size_t)0 : RANGE[p].hi + (size_t)std::max<i64>(1, k); if (k < 0 && p == 2 && v == 0) v = 17;
        if (p == 0 && k < 0) v = (w.lib->name == "std" ? (size_t)1 << 20 : 4096) - (size_t)std::min<i64>(-k, 4096); }
    else if (p == 15) { id = FL2_p_compressionLevel; v = o.get("k") < 0 ? 0 : 10 + (size_t)std::max<i64>(1, o.get("k")); what = "level"; }
    else if (p == 16) { id = FL2_p_dictionaryLog; v = o.get("k") < 0 ? 11 : 30 + (size_t)std::max<i64>(1, o.get("k")); what = "log"; }
    else { id = (FL2_cParameter)(1000 + p); v = 1; what = "unknown parameter"; if (!A.isError(A.CCtx_getParameter(c, id))) fail("param-range", "unknown parameter %d has a value", (int)id); }
    size_t rc = o.get("via") ? A.CStream_setParameter(c, id, v) : A.CCtx_setParameter(c, id, v); trace(rc);
    if (!A.isError(rc)) fail("param-range", "%s %zu of parameter %d was accepted", what, v, (int)id);
}
// ---- memory ----
void CObj::estimate(const Op& o) {
    FL2_compressionParameters q; memset(&q, 0, sizeof q); std::vector<size_t> v = params(); int lg = 0; while (((size_t)1 << lg) < v[5]) ++lg;
    q.dictionarySize = v[0]; q.overlapFraction = (unsigned)v[1]; q.chainLog = (unsigned)v[4]; q.cyclesLog = (unsigned)lg; q.searchDepth = (unsigned)v[6]; q.fastLength = (unsigned)v[7]; q.divideAndConquer = (unsigned)v[8]; q.strategy = (FL2_strategy)v[9];
    est = isstream ? A.estimateCStreamSize_usingCStream(c) : A.estimateCCtxSize_usingCCtx(c);
    if (v[3] == 2) est = std::min(est, isstream ? A.estimateCStreamSize_byParams(&q, th, dual) : A.estimateCCtxSize_byParams(&q, th));
    // the level estimates cover every level up to theirs
    int l = (int)o.get("l", 3); FL2_compressionParameters p; memset(&p, 0, sizeof p);
    for (int k = 1; k <= l; ++k) if (!A.isError(A.getLevelParameters(k, 0, &p))) {
        size_t a = A.estimateCCtxSize(l, th), b = A.estimateCCtxSize_byParams(&p, th), d = A.estimateCStreamSize(l, th, dual), e = A.estimateCStreamSize_byParams(&p, th, dual);
        if (a < b || d < e) fail("estimate", "the estimate of level %d (%zu, stream %zu) does not cover level %d (%zu, %zu)", l, a, d, k, b, e);
        if (k == l && (a != b || d != e)) fail("estimate", "the estimate of level %d (%zu, stream %zu) is not that of its parameters (%zu, %zu)", l, a, d, b, e);
    }
    if (A.estimateCCtxSize(0, th) != A.estimateCCtxSize(6, th) || A.estimateCStreamSize(0, th, dual) != A.estimateCStreamSize(6, th, dual)) fail("estimate", "the estimate of level 0 is not that of the default level");
    if (!A.isError(A.estimateCCtxSize(11, th)) || !A.isError(A.estimateCStreamSize(11, th, dual))) fail("estimate", "level 11 has an estimate");
}
void CObj::est_check() {
    if (!est || w.c->clients.size() != 1 || !c) return;
    size_t used = peak_bytes() - est0, spare = 1024 + 64 * th;      // pools and hash state
    if (used > est + spare) fail("estimate", "%zu bytes were allocated, the estimate for %u threads was %zu", used, th, est);
    sim::probe(16);
}
void CObj::destroy() { mod.clear(); est = 0; if (c) { FL2_CCtx* x = c; c = nullptr; if (dual) A.freeCStream(x); else A.freeCCtx(x); } failed_state(); par.clear(); }

void CObj::setp(const Op& o) {
    int p = (int)o.get("p"); size_t v = (size_t)o.get("v");
    if (p < 0 || p >= NP) return;
    std::vector<size_t> before = params();
    size_t rc = o.get("via") ? A.CStream_setParameter(c, PARS[p], v) : A.CCtx_setParameter(c, PARS[p], v); trace(rc);
    if (o.get("log") && !p) { rc = A.CCtx_setParameter(c, FL2_p_dictionaryLog, (size_t)o.get("log")); v = (size_t)1 << o.get("log"); }
    est = 0;
    std::vector<size_t> after = params();
    bool lits = p >= 10 && p <= 12;
    if (st == OPEN && !lits) {
        if (!A.isError(rc)) fail("locked-accepted", "parameter %d was accepted while a stream is open", (int)PARS[p]);
        if (before != after) fail("locked-changed", "a refused parameter change had an effect");
        sim::probe(2);
    } else {
        if (after[p] != (p == 8 || p >= 13 ? (size_t)(v != 0) : v)) {
            if (A.isError(rc) && before == after) fail("param-refused", "parameter %d value %zu refused: %s", (int)PARS[p], v, A.getErrorName(rc));
            fail("param-value", "parameter %d set to %zu reads back %zu", (int)PARS[p], v, after[p]);
        }
        mod[p] = after[p];
        if ((p == 10 || p == 11) && A.isError(rc) != (after[10] + after[11] > 4)) fail("param-range", "literal bits %zu and %zu: %s", after[10], after[11], A.getErrorName(rc));
        if (st == OPEN && lits) mixed = true;
    }
}

// selecting a level sets every parameter the level defines
void CObj::check_level(int lvl) {
    FL2_compressionParameters q; memset(&q, 0, sizeof q); size_t x = A.getLevelParameters(lvl, (int)A.CCtx_getParameter(c, FL2_p_highCompression), &q); if (A.isError(x)) return;
    std::vector<size_t> v = params(); size_t e[] = { q.dictionarySize, q.overlapFraction, v[2], v[3], q.chainLog, (size_t)1 << q.cyclesLog, q.searchDepth, q.fastLength, q.divideAndConquer, (size_t)q.strategy };
    for (int i = 0; i < 10; ++i) if (v[i] != e[i]) fail("level-ignored", "after level %d was selected parameter %d is %zu, not %zu", lvl, (int)PARS[i], v[i], e[i]);
}
void CObj::level(const Op& o) {
    int lvl = (int)o.get("v", 1); bool only = lvl == 0; std::vector<size_t> before = params();       // 0: only switches between normal and high compression
    size_t h = A.CCtx_setParameter(c, FL2_p_highCompression, (size_t)o.get("high")), x = only ? h : A.CCtx_setParameter(c, FL2_p_compressionLevel, (size_t)lvl); if (only) lvl = (int)mod[15]; trace(h); trace(x);
    if (st == OPEN) {
        if (!A.isError(x) || !A.isError(h)) fail("locked-accepted", "the level was accepted while a stream is open");
        if (before != params()) fail("locked-changed", "a refused level change had an effect");
        sim::probe(2);
    } else {
        if (A.isError(x)) fail("param-refused", "level %d refused: %s", lvl, A.getErrorName(x));
        check_level(lvl);
        mod[16] = o.get("high") != 0; model_level(lvl); est = 0;
    }
}

void CObj::init(const Op& o) {
    failed_state();
    if (o.get("lvl")) { model_level((int)o.get("lvl")); est = 0; }
    size_t rc = A.initCStream(c, (int)o.get("lvl")); trace(rc); take_blocked(); take_blocked_sum();
    if (A.isError(rc)) { if (!faulted(o)) fail("error", "initCStream failed: %s", A.getErrorName(rc)); poke((u64)o.get("seed", 1) + rc, true); return; }
    if (o.get("lvl")) check_level((int)o.get("lvl"));
    st = OPEN; par = params(); flushed = mixed = endwritten = false; lastp = lasto = 0; wasasync = async();
    if (A.remainingOutputSize(c) != 0) fail("stale-output", "output remains after initialisation");
    progress();
}

void CObj::feed(const Op& o) {
    Rng r((u64)o.get("seed", 1));
    if (st != OPEN) { misuse(o); return; }
    Bytes data = gen_data((size_t)o.get("len"), (int)o.get("kind"), (u64)o.get("dseed"));
    int iface = (int)o.get("if", 0), om = (int)o.get("om", 0); size_t seg = (size_t)std::max<i64>(1, o.get("seg", 1000)), cap = (size_t)o.get("cap", 0);
    int sl = (int)o.get("sl", 0), pg = (int)o.get("pg", 0);
    size_t off = 0, nopoff = ~(size_t)0; int nop = 0;
    while (off < data.size()) {
        if (sl && r.chance((u32)sl)) sleep_steps(r.logu(1, 30000));
        if (pg && r.chance((u32)pg)) progress();
        size_t n = std::min(data.size() - off, (size_t)(1 + r.below(seg)));
        bool dictif = iface == 1 || (iface == 2 && r.below(2));
        if (dictif) {
            FL2_dictBuffer d; size_t x = A.getDictionaryBuffer(c, &d);
            if (!step(r, x, "getDictionaryBuffer", o)) return;
            if (A.isTimedOut(x)) continue;
            if (d.size == 0) {
                // full: compressed output must be read first
                if (off != nopoff) { nop = 0; nopoff = off; }
                if (++nop > 5) fail("no-progress", "getDictionaryBuffer gives no space although all output was read");
                if (!drain(r, om, cap, o, true)) return;
                continue;
            }
            nop = 0;
            n = std::min<size_t>(n, d.size);
            u8* t = buf_alloc(n); memcpy(t, &data[off], n); sim_memcpy(d.dst, t, n); buf_free(t);
            in.insert(in.end(), &data[off], &data[off] + n); off += n;
            x = A.updateDictionary(c, n);
            if (!step(r, x, "updateDictionary", o)) return;
            idle = 0;
            if (x == 1) { if (!drain(r, om, cap, o, true)) return; }
        } else {
            FL2_inBuffer ib; u8* t = buf_alloc(n); memcpy(t, &data[off], n); buf_readonly(t, n); ib.src = t; ib.size = n; ib.pos = 0;
            bool useout = om == 1 || (om >= 2 && r.below(2)) || last == 1;
            FL2_outBuffer ob{}; if (useout) ob = mkout(cap ? cap : r.logu(1, 5000));
            size_t x = A.compressStream(c, useout ? &ob : nullptr, &ib);
            size_t acc = ib.pos; bool moved = acc != 0 || (useout && ob.pos);
            if (acc > n) fail("inpos", "input position beyond its size");
            if (memcmp(t, &data[off], n)) fail("input-changed", "input was modified");
            in.insert(in.end(), t, t + acc); off += acc; buf_free(t);
            if (useout) rdout(ob);
            if (!step(r, x, "compressStream", o)) return;
            if (A.isTimedOut(x)) continue;
            if (moved) idle = 0; else ++idle;
            if (x > 1) fail("retval", "compressStream returned %zu", x);
            last = x;
            if (x == 1) {
                if (idle >= 7 || !useout || r.below(3) == 0) { if (!drain(r, om == 3 ? 2 : om, cap, o, true)) return; }
            }
            if (idle > 9) fail("no-progress", "compressStream makes no progress");
        }
    }
    if (pg) progress();
}

void CObj::verify_flush() {
    sim::NoPreempt np;
    Bytes d; bool comp; size_t used;
    if (in.empty()) { return; }
    size_t from = par[13] ? 0 : 1; int prop = par[13] ? 40 : (out.empty() ? 0 : out[0] & 0x3F);
    if (!ref_decode(out, from, prop, in.size() + 1, d, comp, used)) fail("flush-corrupt", "flushed data is not decodable");
    if (comp) fail("flush-ended", "end marker in flushed data");
    if (d != in) fail("flush-incomplete", "after flushing, %zu of %zu bytes can be decoded%s", d.size(), in.size(), d.size() == in.size() ? " (different data)" : "");
    sim::probe(3);
}

void CObj::flush(const Op& o) {
    Rng r((u64)o.get("seed", 1)); int om = (int)o.get("om", 0); size_t cap = (size_t)o.get("cap", 0);
    if (st != OPEN) { misuse(o); return; }
    flushed = true; int n = 0;
    for (;;) {
        if (idle > 7) { idle = 0; if (!in.empty() || n == 0) return; }
        bool useout = om == 1 || (om >= 2 && r.below(2)); size_t before = out.size();
        FL2_outBuffer ob{}; if (useout) ob = mkout(cap ? cap : r.logu(1, 5000));
        size_t x = A.flushStream(c, useout ? &ob : nullptr);
        if (useout) rdout(ob);
        if (!step(r, x, "flushStream", o)) return;
        if (A.isTimedOut(x)) continue;
        if (x > 1) fail("retval", "flushStream returned %zu", x);
        if (useout) { if (out.size() == before) ++idle; else idle = 0; }
        last = x;
        if (x == 0) break;
        if (!useout) { if (!drain(r, om == 1 ? 0 : om, cap, o, true)) return; }
        if (++n > 100000) fail("no-progress", "flushStream never completes");
        if (o.get("sl") && r.chance((u32)o.get("sl"))) sleep_steps(r.logu(1, 30000));
    }
    last = 0;
    size_t R = A.remainingOutputSize(c); if (!A.isError(R) && R != 0) fail("flush-remaining", "flush reports completion but %zu bytes of output remain", R);
    verify_flush();
}

void CObj::verify_end() {
    sim::NoPreempt np;
    Bytes d; bool comp; size_t used; int prop = par[13] ? (c ? A.getCCtxDictProp(c) : 40) : (out.empty() ? 0 : out[0] & 0x3F);
    if (out.empty()) fail("end-corrupt", "no output at all");
    if (!par[13] && ((out[0] & 0x40) || (out[0] & 0x80 ? 1 : 0) != (par[14] ? 1 : 0))) fail("end-corrupt", "property byte %02x", out[0]);
    if (!ref_decode(out, par[13] ? 0 : 1, prop, in.size() + 1, d, comp, used)) fail("end-corrupt", "the stream is not decodable (%zu of %zu bytes decoded)", d.size(), in.size());
    if (d.size() > in.size() || memcmp(d.data(), in.data(), d.size())) fail("end-wrong-data", "the stream decodes to different data");
    if (!comp) fail("end-incomplete", "the stream has no end marker (%zu of %zu bytes decoded)", d.size(), in.size());
    if (d != in) fail("end-wrong-data", "the stream decodes to %zu bytes, %zu were supplied", d.size(), in.size());
    size_t t = par[14] && !par[13] ? 4 : 0;
    if (used + t != out.size()) fail("end-trailer", "%zu bytes follow the end marker, %zu expected", out.size() - used, t);
    if (t) { u32 h = xxh32(in.data(), in.size()); for (int i = 0; i < 4; ++i) if (out[used + (size_t)i] != (u8)(h >> (24 - 8 * i))) fail("end-hash", "stored hash does not match the input"); }
    if (for_prop("C31")) {
        u64 v = found_size(A, out, par[13] != 0); if (v != in.size()) fail("content-size", "size %llu was found in a stream of %zu bytes", (unsigned long long)v, in.size());
        size_t mark = used - 1; Rng r(in.size() * 31 + out.size()); Bytes z(out.begin(), out.begin() + (long)(r.below(3) ? r.below(mark + 1) : mark));
        if (found_size(A, z, par[13] != 0) != FL2_CONTENTSIZE_ERROR) fail("content-size", "a size was found in %zu bytes of a stream of %zu", z.size(), out.size());
    }
    sim::probe(4);
}

void CObj::end(const Op& o) {
    Rng r((u64)o.get("seed", 1)); int om = (int)o.get("om", 0); size_t cap = (size_t)o.get("cap", 0);
    if (st != OPEN) { misuse(o); return; }
    int n = 0;
    for (;;) {
        bool useout = om == 1 || (om >= 2 && r.below(2)); size_t before = out.size();
        if (idle > 7) useout = false;
        FL2_outBuffer ob{}; if (useout) ob = mkout(cap ? cap : r.logu(1, 5000));
        size_t x = A.endStream(c, useout ? &ob : nullptr);
        if (useout) rdout(ob);
        if (!step(r, x, "endStream", o)) return;
        if (A.isTimedOut(x)) continue;
        if (x > 1) fail("retval", "endStream returned %zu", x);
        if (useout) { if (out.size() == before) ++idle; else idle = 0; }
        if (x == 0) break;
        if (!useout) { if (!drain(r, om == 1 ? 0 : om, cap, o, true)) return; }
        if (++n > 100000) fail("no-progress", "endStream never completes");
        if (o.get("pg") && r.chance((u32)o.get("pg"))) progress();
    }
    progress(true);
    { size_t R = A.remainingOutputSize(c); if (R != 0) fail("end-remaining", "%zu bytes of output remain after endStream returned 0", R); }
    verify_end();
    if (!mixed) w.recs.push_back({par, th, false, in, out, "stream", flushed, 0, 0});
    st = NEW; idle = 0; last = 0;
    if (o.get("twice")) {   // using an ended stream
        Op f("cfeed"); f.set("len", 10); misuse(f);
    }
}

void CObj::cancel() {
    bool was = st != NEW;
    A.cancelCStream(c); failed_state(); take_blocked(); take_blocked_sum();
    if (was) {
        // no work left: the counters stand still
        unsigned long long o1 = 0, o2 = 0; u64 p1 = A.getCStreamProgress(c, &o1); sleep_steps(3000); u64 p2 = A.getCStreamProgress(c, &o2);
        if (p1 != p2 || o1 != o2) fail("cancel-running", "work goes on after cancelling");
        sim::probe(5);
    }
    poke(w.recs.size() + (u64)(was ? 17 : 3) + in.size() + w.c->sched.seed, true);
}

// read-out calls on an object without a stream in a known state: any answer is right, but what they give out must be readable.
// inert: nothing is open (cancelled, ended, or its initialisation failed)
void CObj::poke(u64 seed, bool inert) {
    if (!c) return;
    Rng r(seed); int n = (int)r.below(4); sim::probe(12);
    for (int i = 0; i < n; ++i) switch (r.below(inert ? 5 : 7)) {
    case 0: { size_t x = A.remainingOutputSize(c); trace(x); break; }
    case 1: { FL2_cBuffer cb{nullptr, 0}; size_t x = A.getNextCompressedBuffer(c, &cb); trace(x); if (!A.isError(x) && cb.size) { take(cb.src, cb.size); out.clear(); } break; }
    case 2: { FL2_outBuffer ob = mkout(r.logu(1, 300)); size_t x = A.copyCStreamOutput(c, &ob); trace(x); rdout(ob); out.clear(); break; }
    case 3: { unsigned long long q = 0; u64 x = A.getCStreamProgress(c, &q); trace(x); trace(q); break; }
    case 4: { size_t x = A.waitCStream(c); trace(x); break; }
    // continuing after a failure: any answer, but nothing may break
    case 5: { u8* t = buf_alloc(64); memset(t, 'x', 64); buf_readonly(t, 64); FL2_inBuffer ib{t, 64, 0}; FL2_outBuffer ob = mkout(100); size_t x = A.compressStream(c, &ob, &ib); trace(x); if (ib.pos > 64) fail("inpos", "input position beyond its size"); rdout(ob); out.clear(); while (A.isError(x) && A.isTimedOut(x)) x = A.waitCStream(c); buf_free(t); break; }
    case 6: { FL2_outBuffer ob = mkout(100); size_t x = r.below(2) ? A.flushStream(c, &ob) : A.endStream(c, &ob); trace(x); rdout(ob); out.clear(); break; }
    }
}

// calls on a stream that is not open
void CObj::misuse(const Op& o) {
    if (!c) return;
    u8* t = buf_alloc(8); memset(t, 1, 8); buf_readonly(t, 8); FL2_inBuffer ib{t, 8, 0}; FL2_outBuffer ob = mkout(16); FL2_dictBuffer d{nullptr, 0};
    size_t x = 0; const char* what = "";
    int k = (int)(o.get("seed") & 3); if (o.name == "cflush") k = 2;
    switch (k) {
    case 0: x = A.compressStream(c, &ob, &ib); what = "compressStream"; break;
    case 1: x = A.getDictionaryBuffer(c, &d); what = "getDictionaryBuffer"; break;
    case 2: x = A.flushStream(c, &ob); what = "flushStream"; break;
    case 3: x = A.compressStream(c, nullptr, &ib); what = "compressStream"; break;
    }
    trace(x);
    if (!A.isError(x)) fail("uninit-accepted", "%s was accepted on a stream that is not open", what);
    if (ib.pos || ob.pos) fail("uninit-effect", "%s on a stream that is not open moved its buffers", what);
    buf_free(t); buf_free((u8*)ob.dst);
    sim::probe(6);
}

void CObj::remain() {
    if (st != OPEN) return;
    size_t x = A.waitCStream(c); if (A.isError(x)) return;
    size_t R = A.remainingOutputSize(c); trace(R);
    if (!A.isError(R) && (R != 0) != (x == 1)) soft("remaining", "waitCStream returned %zu, %zu bytes remain", x, R);
}

void CObj::oneshot(const Op& o) {
    Rng r((u64)o.get("seed", 1));
    if (st != NEW) { if (o.get("dirty")) { sim::probe(14); in.clear(); out.clear(); st = NEW; } else { A.cancelCStream(c); failed_state(); } }
    Bytes data = gen_data((size_t)o.get("len"), (int)o.get("kind"), (u64)o.get("dseed"));
    int lvl = (int)o.get("lvl"); size_t n = data.size(), bound = bound_for(w.lib, A, n);
    if (lvl) { model_level(lvl); est = 0; }
    u8* src = buf_alloc(n); memcpy(src, data.data(), n); buf_readonly(src, n);
    auto call = [&](size_t cap, Bytes& res) -> size_t {
        u8* dst = buf_alloc(cap); size_t x = A.compressCCtx(c, dst, cap, src, n, lvl); trace(x);
        if (!A.isError(x)) { if (x > cap) fail("size", "compressed size %zu exceeds the capacity %zu", x, cap); res.assign(dst, dst + x); }
        buf_free(dst); tmo = 0; return x;
    };
    Bytes z; size_t x;
    int cm = (int)o.get("cm"); size_t capx = 0;
    if (cm == 2) { capx = (size_t)o.get("cap"); x = call(capx, z); }
    else x = call(bound, z);
    if (memcmp(src, data.data(), n)) fail("input-changed", "input was modified");
    auto check = [&](const Bytes& zz) {
        if (lvl) check_level(lvl);
        par = params(); in = data; out = zz; verify_end();
        w.recs.push_back({par, th, true, in, out, "oneshot", false, 0, 0});
    };
    if (A.isError(x)) {
        if (cm == 2 && capx < bound) {
            sim::probe(7);
            if (strcmp(A.getErrorName(x), A.getErrorName((size_t)-(i64)FL2_error_dstSize_tooSmall)) && !faulted(o)) fail("error", "too small a destination is reported as: %s", A.getErrorName(x));
            // with enough space it must work now; and the refused capacity must have been too small
            x = call(bound, z);
            if (A.isError(x)) { if (!faulted(o)) fail("error", "compressCCtx failed after a too small destination: %s", A.getErrorName(x)); buf_free(src); failed_state(); return; }
            if (z.size() <= capx && !faulted(o)) fail("capacity", "refused capacity %zu although %zu bytes suffice", capx, z.size());
            check(z);
        } else if (!faulted(o)) fail("error", "compressCCtx failed: %s", A.getErrorName(x));
        buf_free(src); failed_state(); return;
    }
    if (x > bound) fail("bound", "compressed size %zu exceeds the bound %zu", x, bound);
    check(z);
    if (cm == 1) {     // capacities around the exact size
        for (int k = 0; k < 3; ++k) {
            i64 d = k == 0 ? 0 : k == 1 ? -(i64)(1 + r.below(6)) : -(i64)r.below(z.size());
            if (k == 2 && r.below(2)) d = 1 + (i64)r.below(8);
            size_t cap = (size_t)std::max<i64>(0, (i64)z.size() + d); Bytes y; size_t q = call(cap, y);
            if (A.isError(q)) { if (cap >= z.size() && !faulted(o)) fail("capacity", "capacity %zu refused, %zu bytes suffice: %s", cap, z.size(), A.getErrorName(q)); }
            else { if (cap < z.size()) fail("capacity", "success with capacity %zu, %zu bytes needed", cap, z.size()); if (y != z) fail("history", "the same input compressed differently with another capacity"); }
        }
        // parameters are free again
        size_t q = A.CCtx_setParameter(c, FL2_p_searchDepth, par[6]); if (A.isError(q)) fail("param-refused", "parameters are locked after a one-shot operation: %s", A.getErrorName(q));
    }
    buf_free(src); failed_state();
}

void CObj::mtapi(const Op& o) {
    Bytes data = gen_data((size_t)o.get("len"), (int)o.get("kind"), (u64)o.get("dseed"));
    size_t n = data.size(), bound = bound_for(w.lib, A, n); unsigned t = (unsigned)o.get("th", 1); int lvl = (int)o.get("lvl", 1);
    if (!t) { FL2_CCtx* q = A.createCCtxMt(0); if (!q) { if (!faulted(o)) fail("create", "creation failed without a fault"); return; } t = w.auto_threads(A.getCCtxThreadCount(q)); A.freeCCtx(q); }
    u8* src = buf_alloc(n); memcpy(src, data.data(), n); buf_readonly(src, n); u8* dst = buf_alloc(bound);
    size_t x = o.get("th", 1) == 1 && o.get("plain") ? A.compress(dst, bound, src, n, lvl) : A.compressMt(dst, bound, src, n, lvl, (unsigned)o.get("th", 1)); trace(x);
    if (memcmp(src, data.data(), n)) fail("input-changed", "input was modified");
    if (A.isError(x)) { if (!faulted(o)) fail("error", "compressMt failed: %s", A.getErrorName(x)); }
    else {
        if (x > bound) fail("bound", "compressed size %zu exceeds the bound %zu", x, bound);
        CObj t2(w); t2.par.assign(NP, 0); t2.par[14] = 1; t2.in = data; t2.out.assign(dst, dst + x); t2.verify_end();
        w.recs.push_back({{}, t, true, data, t2.out, "compressMt", false, lvl, 1});
    }
    buf_free(src); buf_free(dst);
}

// any size: at least the chunk headers of stored data and the ends of the stream
void CObj::bound(const Op& o) {
    Rng r((u64)o.get("seed", 1));
    for (int i = 0; i < 40; ++i) {
        size_t n = (size_t)r.logu(1, (u64)1 << 48) - 1; if (r.below(3) == 0) n = (n + 65535) / 65536 * 65536 + r.below(5) - std::min<size_t>(n ? 2 : 0, 2);
        size_t b = A.compressBound(n), need = n + (n / 65536 + (n % 65536 != 0)) * 3 + 6; if (b < need) fail("bound", "the bound of %zu bytes is %zu, stored data alone takes %zu", n, b, need);
    }
}

void CObj::op(const Op& o) {
    ff0 = faults_fired(); steps_ = 0; take_blocked(); take_blocked_sum(); stall_others((u32)o.get("st"));
    if (o.name == "cnew") create(o);
    else if (o.name == "cmt") mtapi(o);
    else if (!c) return;
    else if (o.name == "cset") setp(o);
    else if (o.name == "clevel") level(o);
    else if (o.name == "cbad") badparam(o);
    else if (o.name == "cest") estimate(o);
    else if (o.name == "cbound") bound(o);
    else if (o.name == "ctmo") {
        unsigned t = (unsigned)o.get("ms"); size_t x = A.setCStreamTimeout(c, t); trace(x);
        if (A.isError(x)) { if (!faulted(o)) fail("error", "setCStreamTimeout failed"); } else tmo = t;
    }
    else if (o.name == "cinit") init(o);
    else if (o.name == "cfeed") feed(o);
    else if (o.name == "cflush") flush(o);
    else if (o.name == "cend") end(o);
    else if (o.name == "ccancel") cancel();
    else if (o.name == "cfree") destroy();
    else if (o.name == "cone") oneshot(o);
    else if (o.name == "csleep") { sleep_steps((u64)o.get("n", 100)); }
    else if (o.name == "cprog") progress();
    else if (o.name == "cremain") remain();
    else if (o.name == "cpoke") { if (st == NEW) poke((u64)o.get("seed"), true); }
    else if (o.name == "cmisuse") { if (st == NEW) misuse(o); }
    else if (o.name == "cwait") { if (st == OPEN) { Rng r(1); step(r, A.waitCStream(c), "waitCStream", o); } }
    if (for_prop("C32")) model_check(o);
    est_check();
}
