#include "dobj.h"
#include "cobj.h"
#include <cstring>
#include <algorithm>

// sizes of chunks of an LZMA2 stream: positions (after the property byte) where everything before is decodable
static void chunk_bounds(const Bytes& c, std::vector<std::pair<size_t, size_t>>& v) {
    size_t p = 1, u = 0; v.clear(); v.push_back({1, 0});
    while (p < c.size()) {
        u8 k = c[p]; if (!k) break;
        if (p + 3 > c.size()) break;
        size_t n, m;
        if (k < 0x80) { m = ((size_t)c[p + 1] << 8 | c[p + 2]) + 1; n = 3 + m; }
        else { if (p + 6 > c.size()) break; m = ((size_t)(k & 0x1F) << 16 | (size_t)c[p + 1] << 8 | c[p + 2]) + 1; n = 5 + (k >= 0xC0) + ((size_t)c[p + 3] << 8 | c[p + 4]) + 1; }
        p += n; u += m; if (p > c.size()) break; v.push_back({p, u});
    }
}

static void corrupt_bytes(Bytes& b, const Stream& S, int mode, int n, u64 seed) {
    Rng r(seed ^ 0xC0447);
    std::vector<std::pair<size_t, size_t>> cb; if (mode == 6 || mode == 7 || mode >= 10) chunk_bounds(S.comp, cb);
    bool h = !b.empty() && (b[0] & 0x80);
    for (int i = 0; i < n && !b.empty(); ++i) {
        size_t p = r.below(8) == 0 ? r.below(std::min<size_t>(b.size(), 16)) : r.below(b.size());
        if (p == 0 && r.below(4)) p = b.size() - 1;
        switch (mode) {
        case 1: b[p] ^= (u8)(1 << r.below(8)); break;
        case 2: b[p] = (u8)r.next(); break;
        case 3: b.insert(b.begin() + (long)p, (u8)r.next()); break;
        case 4: b.erase(b.begin() + (long)p); break;
        case 5: { size_t m = std::min<size_t>(b.size() - p, r.logu(1, 64)); size_t q = r.below(b.size()); m = std::min(m, b.size() - q); if (p) memmove(&b[p], &b[q], m); break; }
        case 6: { // a chunk header
            size_t k = r.below(cb.size()); size_t q = cb[k].first; if (q >= b.size()) break;
            q += r.below(6); if (q < b.size()) b[q] = r.below(2) ? (u8)(b[q] ^ (1 << r.below(8))) : (u8)r.next(); break; }
        case 7: { // drop, repeat or swap whole chunks
            if (cb.size() < 3) break; size_t k = 1 + r.below(cb.size() - 1); size_t a = cb[k - 1].first, e = cb[k].first; if (e > b.size()) break;
            Bytes ch(b.begin() + (long)a, b.begin() + (long)e);
            switch (r.below(3)) { case 0: b.erase(b.begin() + (long)a, b.begin() + (long)e); break; case 1: b.insert(b.begin() + (long)a, ch.begin(), ch.end()); break;
                default: { size_t j = 1 + r.below(cb.size() - 1); b.insert(b.begin() + (long)std::min(cb[j].first, b.size()), ch.begin(), ch.end()); } }
            break; }
        case 8: { size_t m = std::min<size_t>(b.size() - p, r.logu(1, 300)); for (size_t k = p ? 0 : 1; k < m; ++k) b[p + k] = (u8)r.next(); break; }
        case 10: case 11: { // sizes (10) or control byte (11) of a chunk, still well formed
            size_t k = r.below(cb.size()); size_t q = cb[k].first; if (q + 6 > b.size() || !b[q]) break; u8 c = b[q];
            if (mode == 11) { static const u8 V[] = {0x80, 0xA0, 0xC0, 0xE0, 1, 2}; u8 v = V[r.below(6)];
                if (c >= 0x80 && v < 0x80) v = V[r.below(4)];
                if (c < 0x80) { if (r.below(3)) v = (u8)(3 - c); b[q] = v; break; }
                u8 nc = v < 0x80 ? v : (u8)(v | (c & 0x1F));
                if (nc >= 0xC0 && c < 0xC0 && c >= 0x80) b.insert(b.begin() + (long)q + 5, (u8)(r.below(4) ? 0x5D : r.below(225))); else if (nc < 0xC0 && c >= 0xC0) b.erase(b.begin() + (long)q + 5);
                b[q] = nc; break; }
            bool pack = c >= 0x80 && r.below(2); size_t at = q + (pack ? 3 : 1); i64 v = (i64)b[at] << 8 | b[at + 1]; if (!pack && c >= 0x80) v |= (i64)(c & 0x1F) << 16;
            switch (r.below(5)) { case 0: v += 1 + (i64)r.below(5); break; case 1: v -= 1 + (i64)r.below(5); break; case 2: v = (i64)r.below(8); break; case 3: v = (i64)r.logu(1, (u64)v + 2); break; default: v += (i64)r.logu(1, 3000); }
            if (v < 0) v = 0;
            b[at] = (u8)(v >> 8); b[at + 1] = (u8)v; if (!pack && c >= 0x80) b[q] = (u8)((c & 0xE0) | ((v >> 16) & 0x1F));
            break; }
        case 12: { // a chunk stored instead of compressed, and the next one relying on it
            if (i || cb.size() < 2) break; size_t k = r.below(3) ? 0 : r.below(cb.size() - 1); size_t a = cb[k].first, e = cb[k + 1].first, u = cb[k].second, v = cb[k + 1].second;
            if (v - u > 65536 || v == u || v > S.data.size() || e + 6 > b.size() || a >= e) break;
            Bytes st; st.push_back((u8)(r.below(5) ? (b[a] == 1 || b[a] >= 0xE0 ? 1 : 2) : 1 + r.below(2))); st.push_back((u8)((v - u - 1) >> 8)); st.push_back((u8)(v - u - 1)); st.insert(st.end(), S.data.begin() + (long)u, S.data.begin() + (long)v);
            if (b[e] >= 0x80) { u8 m = (u8)(r.below(5) * 0x20); if (m > 0x60) m = 0x60; u8 nc = (u8)(0x80 | m | (b[e] & 0x1F)); if (nc >= 0xC0 && b[e] < 0xC0) nc &= 0xBF; if (nc < 0xC0 && b[e] >= 0xC0) b.erase(b.begin() + (long)e + 5); b[e] = nc; }
            b.erase(b.begin() + (long)a, b.begin() + (long)e); b.insert(b.begin() + (long)a, st.begin(), st.end());
            break; }
        case 9: if (b.size() > 5) b[b.size() - 1 - r.below(4)] ^= (u8)(1 << r.below(8)); break;   // the stored hash
        }
    }
    if (h && !b.empty()) b[0] |= 0x80;
}

// the bytes to decode, as the operation describes them
void DObj::input(const Op& o, Stream& S, Bytes& in, bool& corrupt, bool& cut, bool& flushcut, size_t& expect) {
    in = S.comp; corrupt = cut = flushcut = false; expect = S.data.size();
    if (o.get("cor")) { Bytes b = in; corrupt_bytes(b, S, (int)o.get("cor"), (int)std::max<i64>(1, o.get("cn", 1)), (u64)o.get("cseed")); if (b != in) { in = b; corrupt = true; } }
    if (o.get("fl")) {
        std::vector<std::pair<size_t, size_t>> cb; chunk_bounds(S.comp, cb); auto k = cb[(size_t)o.get("fl") % cb.size()];
        if (!corrupt) { in.resize(k.first); expect = k.second; flushcut = cut = true; }
    } else if (o.a.count("cut")) { size_t k = (size_t)o.get("cut"); if (o.get("cutb")) k = in.size() - std::min(in.size(), (size_t)o.get("cutb")); else k = in.empty() ? 0 : k % in.size(); in.resize(k); cut = true; }
    size_t tr = (size_t)o.get("tr"); if (!cut && tr) { Rng r((u64)o.get("dseed") + 5); for (size_t i = 0; i < tr; ++i) in.push_back((u8)r.next()); }
}

void DObj::release(bool) {
    if (!p.live) return;
    buf_free(p.in); buf_free(p.out); buf_free((u8*)p.ib); buf_free((u8*)p.ob); p = Pending();
}

void DObj::checkmem(const char* when) {
    if (!s || th < 2) return;
    u64 live = live_bytes(); if (live <= base) return;
    u64 extra = live - base; for (auto it = dicts.rbegin(); it != dicts.rend(); ++it) if (extra >= *it && count_live(*it)) { extra -= *it; break; }   // the one dictionary kept for single-threaded decoding
    if (extra > (u64)limit + 320) soft("mem-limit", "%s: %llu bytes of buffers are allocated with a limit of %zu", when, (unsigned long long)extra, limit);
}
void DObj::checkfreed() {
    if (!s || w.c->clients.size() > 1) return;
    u64 live = live_bytes(); if (live <= base) return;
    u64 extra = live - base; for (auto it = dicts.rbegin(); it != dicts.rend(); ++it) if (extra >= *it && count_live(*it)) { extra -= *it; break; }   // the one dictionary kept for single-threaded decoding
    if (extra > 320) soft("cancel-memory", "%llu of %llu bytes of decoding buffers are still allocated after cancelling", (unsigned long long)extra, (unsigned long long)(live - base));
}

// the size found in the bytes agrees with what decoding them gave
void DObj::find_check(const Stream& S, const Bytes& in, bool corrupt, bool wp, bool ok, size_t got) {
    if (!for_prop("C31") || (wp && in.empty())) return;
    Bytes z(in.begin() + (wp ? 1 : 0), in.end()); u64 v = found_size(A, z, wp);
    if (ok && v != got) fail("content-size", "size %llu was found, decoding gave %zu bytes", (unsigned long long)v, got);
    if (corrupt) return;
    size_t mark = S.comp.size() - 1 - (S.hash ? 4 : 0);
    if (in.size() > mark) { if (v != S.data.size()) fail("content-size", "size %llu was found in a stream of %zu bytes", (unsigned long long)v, S.data.size()); }
    else if (v != FL2_CONTENTSIZE_ERROR) fail("content-size", "a size was found in %zu bytes of a stream of %zu", in.size(), S.comp.size());
}
// an object that gets its memory once: never more than the estimate
void DObj::est_check(const char* when, size_t est) {
    if (!for_prop("C30") || w.c->clients.size() != 1) return;
    size_t used = peak_bytes() - est0, spare = 1024 + 64 * th;
    if (used > est + spare) fail("estimate", "%s: %zu bytes were allocated, the estimate for %u threads was %zu", when, used, th, est);
    sim::probe(16);
}

void DObj::create(const Op& o) {
    destroy(); reset_peak(); est0 = live_bytes(); th = (unsigned)o.get("th", 1); tmo = 0; limit = (size_t)1 << 29; dirty = inited = false; rest.clear(); dicts.clear();
    if (o.get("kind") == 1) {
        x = th == 1 && o.get("plain") ? A.createDCtx() : A.createDCtxMt(th); trace(x != nullptr);
        if (!x) { if (!faulted()) fail("create", "creation failed without a fault"); return; }
        unsigned n = A.getDCtxThreadCount(x);
        if (!th) { if (!faulted()) w.auto_threads(n); th = n; sim::probe(15); }
        if (n != std::min(th, MAX_THREADS) && !(faulted() && n < th)) fail("threads", "thread count %u, %u requested", n, th);
    } else {
        s = th == 1 && o.get("plain") ? A.createDStream() : A.createDStreamMt(th); trace(s != nullptr);
        if (!s && !faulted()) fail("create", "creation failed without a fault");
    }
    base = live_bytes();
}
void DObj::destroy() {
    if (s) { FL2_DStream* q = s; s = nullptr; A.freeDStream(q); }
    if (x) { FL2_DCtx* q = x; x = nullptr; A.freeDCtx(q); }
    release();
}

void DObj::timed(const char* what) {
    u64 blk = take_blocked(), sum = take_blocked_sum();
    if (tmo && !w.has_jumps && sum > 2 * ((u64)tmo * 1000000 + 300000 + 50 * w.c->sched.nsps)) fail("timeout-exceeded", "%s was blocked for %llu us in all with a timeout of %u ms", what, (unsigned long long)(sum / 1000), tmo);
    if (tmo && !w.has_jumps && blk > (u64)tmo * 1000000 + 300000 + 50 * w.c->sched.nsps) fail("timeout-exceeded", "%s was blocked for %llu us with a timeout of %u ms", what, (unsigned long long)(blk / 1000), tmo);
}

void DObj::cancel() {
    if (!s) return;
    A.cancelDStream(s); release(); dirty = true; sim::probe(5);
    checkfreed();
}

// calls go on after a stream was cancelled, failed, was abandoned or completed, without initialisation: any answer, but nothing may break
void DObj::more(const Op& o) {
    if (!s || !inited) return;
    if (p.live) wait_pending(o);
    Rng r((u64)o.get("seed", 1)); size_t off = 0; sim::probe(13);
    for (int i = 0, k = (int)o.get("n", 3); i < k; ++i) {
        size_t n = (size_t)r.logu(1, 3000), m = (size_t)r.logu(1, 9000); if (r.below(5) == 0) n = 0; if (r.below(5) == 0) m = 0; n = std::min(n, rest.size() - off);
        p.in = buf_alloc(n); p.out = buf_alloc(m); p.ib = (FL2_inBuffer*)buf_alloc(sizeof(FL2_inBuffer)); p.ob = (FL2_outBuffer*)buf_alloc(sizeof(FL2_outBuffer)); p.live = true;
        if (n) memcpy(p.in, &rest[off], n);
        buf_readonly(p.in, n); *p.ib = FL2_inBuffer{p.in, n, 0}; *p.ob = FL2_outBuffer{p.out, m, 0};
        size_t rc = A.decompressStream(s, p.ob, p.ib); trace(rc);
        for (int q = 0; A.isError(rc) && A.isTimedOut(rc); ++q) { if (q > 100000) fail("no-progress", "waitDStream never completes"); if (!tmo) fail("timeout-unset", "the timeout code was returned without a timeout set"); if (q > 200) sleep_steps(std::min<u64>(2000000, (u64)q * 100)); rc = A.waitDStream(s); trace(rc); }
        if (p.ib->pos > n) fail("inpos", "input position beyond its size"); if (p.ob->pos > m) fail("outpos", "output position beyond its size");
        off += p.ib->pos; release();
    }
    dirty = true;
}

void DObj::wait_pending(const Op&) {
    if (!s || !p.live) return;
    for (int i = 0;; ++i) {
        size_t rc = A.waitDStream(s); trace(rc);
        if (!A.isError(rc) || !A.isTimedOut(rc)) break;
        if (i > 100000) fail("no-progress", "waitDStream never completes");
        sleep_steps(std::min<u64>(2000000, 2000 + (u64)i * 100));
    }
    release();
}

void DObj::stream(const Op& o, Trace* cmp) {
    auto SP = make_stream(o); Stream& S = *SP; if (!S.ok) return;
    Bytes in; bool corrupt, cut, flushcut; size_t expect; input(o, S, in, corrupt, cut, flushcut, expect);
    Rng r((u64)o.get("seed", 1)), r2((u64)o.get("seed", 1) + 77);
    bool wp = o.get("wp") != 0 && !in.empty();
    size_t rc;
    // starting while the previous stream is being worked on
    if (p.live) {
        rc = wp ? A.initDStream_withProp(s, in[0]) : A.initDStream(s); trace(rc);
        if (A.isError(rc)) {
            sim::probe(9);
            if (strcmp(A.getErrorName(rc), A.getErrorName((size_t)-(i64)FL2_error_stage_wrong)) && !corrupt && !faulted()) fail("error", "initDStream while busy: %s", A.getErrorName(rc));
            // the pending call must still be intact
            if (r2.below(2)) cancel(); else wait_pending(o);
            rc = wp ? A.initDStream_withProp(s, in[0]) : A.initDStream(s); trace(rc);
        } else release();     // it says the work is over: the buffers are the caller's again
    } else { rc = wp ? A.initDStream_withProp(s, in[0]) : A.initDStream(s); trace(rc); }
    u8 pb = S.comp.empty() ? 0 : (u8)(S.comp[0] & 0x3F); if (corrupt && !in.empty()) pb = in[0] & 0x3F;
    if (pb < 40) { size_t d = (size_t)((2u | (pb & 1)) << (pb / 2 + 11)), m = d >= (1u << 30) ? (1u << 22) - 1 : d >= (1u << 22) ? (1u << 20) - 1 : 4095; dicts.insert((d + m) & ~m); }
    if (A.isError(rc)) {
        if (!corrupt && !faulted()) fail("error", "initDStream failed: %s", A.getErrorName(rc));
        dirty = true; if (cmp) { cmp->code = 2; cmp->calls.push_back(rc); } return;
    }
    size_t off = wp ? 1 : 0, total = in.size(); size_t streamlen = S.comp.size();
    size_t iseg = (size_t)std::max<i64>(1, o.get("iseg", 1000)), oseg = (size_t)std::max<i64>(1, o.get("oseg", 1000));
    u32 ez = (u32)o.get("ez"); u64 ioff = (u64)o.get("ioff"), ooff = (u64)o.get("ooff");
    int sl = (int)o.get("sl"), pg = (int)o.get("pg"), tr = (int)o.get("try"); i64 stop = o.get("stop");
    if (o.get("lim2")) A.setDStreamMemoryLimitMt(s, (size_t)(limit = (size_t)o.get("lim2")));
    Bytes out; int nop = 0, calls = 0, stuck = 0; u64 lastp = 0; bool finished = false;
    auto prog = [&] {
        u64 q = A.getDStreamProgress(s); trace(q);
        if (q < lastp) soft("progress-decreased", "decompression progress went from %llu to %llu", (unsigned long long)lastp, (unsigned long long)q);
        if (!corrupt && q > S.data.size()) soft("progress-bound", "decompression progress %llu exceeds the %zu bytes of the stream", (unsigned long long)q, S.data.size());
        lastp = q;
    };
    inited = true; rest.assign(in.begin() + (long)std::min(off, in.size()), in.end());
    struct Rest { DObj& d; const Bytes& in; size_t& off; Rng r; ~Rest() { d.rest.assign(in.begin() + (long)std::min(off, in.size()), in.end()); for (int i = 0; i < 600; ++i) d.rest.push_back((u8)r.next()); } } rst{*this, in, off, Rng(in.size())};
    if (A.getDStreamProgress(s) != 0) soft("progress-stale", "progress is not zero after initialisation");
    bool watch = th > 1 && w.c->clients.size() == 1;
    if (watch) { set_alloc_hook([this](size_t) { checkmem("while decoding"); }); reset_peak(); }
    struct Unhook { bool on; ~Unhook() { if (on) set_alloc_hook(nullptr); } } unhook{watch};
    size_t gi = 0, go = 0;
    auto harvest = [&](Pending& P, size_t n, size_t m, size_t io, size_t oo, u8 guard) {
        FL2_inBuffer ib = *P.ib; FL2_outBuffer ob = *P.ob;
        if (ib.pos < io || ib.pos > io + n) fail("inpos", "input position %zu outside the buffer part given (%zu to %zu)", ib.pos, io, io + n);
        if (ob.pos < oo || ob.pos > oo + m) fail("outpos", "output position %zu outside the buffer part given (%zu to %zu)", ob.pos, oo, oo + m);
        if (n && memcmp(P.in + io, &in[off], n)) fail("input-changed", "input was modified");
        if (oo && P.out[0] != guard) fail("output-before", "bytes before the output position were modified");
        gi += ib.pos - io; go += ob.pos - oo;
        out.insert(out.end(), P.out + oo, P.out + ob.pos); off += ib.pos - io;
        buf_free(P.in); buf_free(P.out); buf_free((u8*)P.ib); buf_free((u8*)P.ob); P = Pending();
    };
    for (;;) {
        if (stop && calls >= stop) { dirty = true; break; }
        ++calls;
        size_t n = std::min(total - off, (size_t)r.logu(1, iseg)), m = (size_t)r.logu(1, oseg);
        bool forced = nop >= 2;
        if (!forced && ez && r.chance(ez)) n = 0;
        if (!forced && ez && r.chance(ez)) m = 0;
        if (forced) { n = std::min(total - off, std::max<size_t>(n, 64)); m = std::max<size_t>(m, 64); }
        size_t io = ioff ? r.below(ioff + 1) : 0, oo = ooff ? r.below(ooff + 1) : 0;
        p.in = buf_alloc(io + n); p.out = buf_alloc(oo + m); p.ib = (FL2_inBuffer*)buf_alloc(sizeof(FL2_inBuffer)); p.ob = (FL2_outBuffer*)buf_alloc(sizeof(FL2_outBuffer)); p.live = true;
        for (size_t i = 0; i < io; ++i) p.in[i] = (u8)r.next();
        if (n) memcpy(p.in + io, &in[off], n);
        buf_readonly(p.in, io + n);
        p.ib->src = p.in; p.ib->size = io + n; p.ib->pos = io; p.ob->dst = p.out; p.ob->size = oo + m; p.ob->pos = oo;
        u8 guard = oo ? p.out[0] : 0; gi = go = 0; size_t at = out.size(); bool tried = false; size_t n0 = 0, m0 = 0;
        take_blocked(); take_blocked_sum(); rc = A.decompressStream(s, p.ob, p.ib); trace(rc); timed("decompressStream");
        int waits = 0;
        while (A.isError(rc) && A.isTimedOut(rc)) {
            if (!tmo) fail("timeout-unset", "the timeout code was returned without a timeout set");
            sim::probe(1); if (cmp) cmp->timed = true;
            if (stop && calls >= stop && r2.below(3)) { dirty = true; return; }      // abandoned while busy
            if (sl && r2.chance((u32)sl)) sleep_steps(r2.logu(1, 30000));
            if (pg && r2.chance((u32)pg)) prog();
            if (tr && !corrupt && !nop && n && m && r2.chance((u32)tr)) {
                // a call while the previous one is running is refused without effect; if it is accepted, the previous one must be over
                Pending q = p; p = Pending();
                p.in = buf_alloc(0); p.out = buf_alloc(0); p.ib = (FL2_inBuffer*)buf_alloc(sizeof(FL2_inBuffer)); p.ob = (FL2_outBuffer*)buf_alloc(sizeof(FL2_outBuffer)); p.live = true;
                *p.ib = FL2_inBuffer{p.in, 0, 0}; *p.ob = FL2_outBuffer{p.out, 0, 0};
                size_t x = A.decompressStream(s, p.ob, p.ib); trace(x);
                if (A.isError(x) && !A.isTimedOut(x) && !strcmp(A.getErrorName(x), A.getErrorName((size_t)-(i64)FL2_error_stage_wrong))) {
                    if (p.ib->pos || p.ob->pos) fail("busy-effect", "a refused decompression call moved its buffers");
                    sim::probe(10); release(); p = q;
                } else { harvest(q, n, m, io, oo, guard); tried = true; n0 = n; m0 = m; n = m = io = oo = 0; rc = x; continue; }
            }
            take_blocked(); take_blocked_sum(); rc = A.waitDStream(s); trace(rc); timed("waitDStream");
            if (++waits > 100000) fail("no-progress", "waitDStream never completes");
            if (waits > 200) sleep_steps(std::min<u64>(2000000, (u64)waits * 100));
        }
        // the call is over
        harvest(p, n, m, io, oo, guard);
        if (cmp) { cmp->calls.push_back(gi); cmp->calls.push_back(go); cmp->calls.push_back(rc); }
        if (!corrupt || S.hash == false) {
            if (!corrupt && (out.size() > S.data.size() || memcmp(out.data() + at, S.data.data() + at, out.size() - at))) fail("wrong-data", "output differs from the original data (after %zu bytes)", at);
        }
        if (A.isError(rc)) {
            if (rc == (size_t)-(i64)FL2_error_buffer && nop >= 2 && cut && off >= total) { nop = 3; }   // no more input: a legitimate answer
            else if (!corrupt && !faulted()) fail("error", "decompressStream failed after %zu of %zu bytes: %s", out.size(), S.data.size(), A.getErrorName(rc));
            dirty = true; if (cmp) { cmp->code = 3; }
            if (flushcut && !faulted() && out.size() < expect && th == 1) fail("flush-undelivered", "%zu of %zu flushed bytes were delivered", out.size(), expect);
            break;
        }
        if (rc > 1) fail("retval", "decompressStream returned %zu", rc);
        if (pg && r2.chance((u32)pg)) prog();
        if (rc == 0) {
            finished = true;
            if (cut && !corrupt) fail("torn-accepted", "completion was reported with %zu of %zu stream bytes", off, streamlen);
            if (corrupt && S.hash && out != S.data) fail("corrupt-accepted", "an altered stream was decoded to different data without an error");
            if (!corrupt) {
                if (out.size() != S.data.size()) fail("short-data", "completion was reported after %zu of %zu bytes", out.size(), S.data.size());
                if (off != streamlen) fail("consumed", "completion was reported with %zu bytes consumed of a stream of %zu", off, streamlen);
                if (A.getDStreamProgress(s) != S.data.size()) soft("progress-total", "progress is %llu after %zu bytes", (unsigned long long)A.getDStreamProgress(s), S.data.size());
            }
            sim::probe(8);
            break;
        }
        if (!corrupt && !cut) {
            if (off > streamlen) fail("consumed", "bytes after the stream were consumed");
            if (off == streamlen && out.size() == S.data.size()) fail("not-reported", "everything was consumed and delivered but completion is not reported");
        }
        if (gi || go) { nop = tried ? 1 : 0; stuck = 0; }
        else {
            nop += tried ? 2 : 1; if (tried) { n = n0; m = m0; }
            if (n && m && !corrupt) { if (++stuck > 3) fail("no-progress", "no progress with %zu input bytes and %zu bytes of space", n, m); }
            // nothing more to give
            if (off >= total && m >= 64 && nop >= 2) {
                if (!cut && !corrupt) fail("no-progress", "all %zu input bytes were consumed, %zu of %zu bytes delivered, no completion", total, out.size(), S.data.size());
                if (flushcut && th == 1 && out.size() < expect) fail("flush-undelivered", "%zu of %zu flushed bytes were delivered", out.size(), expect);
                dirty = true; break;
            }
            if (nop > 4) { dirty = true; break; }
        }
        if (calls > 400000) fail("no-progress", "decoding does not end");
    }
    if (cmp) { cmp->out = out; cmp->consumed = off; if (cmp->code < 0) cmp->code = finished ? 0 : 1; cmp->peak = peak_bytes(); }
    if (watch) checkmem("after decoding");
    find_check(S, in, corrupt, wp, finished, out.size());
    if (th == 1 && !dirty && pb <= 40 && o.get("est")) est_check("streaming decompression", A.estimateDStreamSize(A.getDictSizeFromProp(pb), 1));
}

void DObj::oneshot(const Op& o) {
    auto SP = make_stream(o); Stream& S = *SP; if (!S.ok) return;
    Bytes in; bool corrupt, cut, flushcut; size_t expect; input(o, S, in, corrupt, cut, flushcut, expect);
    bool wp = o.get("wp") != 0 && !in.empty(); size_t n = in.size() - (wp ? 1 : 0);
    Rng r((u64)o.get("seed", 1)); int cm = (int)o.get("cm");
    size_t cap = S.data.size(); if (cm == 1) cap += r.logu(1, 300); else if (cm == 2) cap = r.below(cap + 1); else if (cm == 3) cap -= std::min(cap, 1 + r.below(4)); else if (cm == 4) cap = cap * 2 + 100;
    auto run1 = [&](FL2_DCtx* c, size_t cap_, Bytes& res, bool prop) -> size_t {
        if (wp && prop) { size_t q = A.initDCtx(c, in[0]); trace(q); if (A.isError(q)) return q; }
        u8* src = buf_alloc(n); if (n) memcpy(src, &in[wp ? 1 : 0], n); buf_readonly(src, n); u8* dst = buf_alloc(cap_);
        size_t q = c ? A.decompressDCtx(c, dst, cap_, src, n) : o.get("th") == 1 ? A.decompress(dst, cap_, src, n) : A.decompressMt(dst, cap_, src, n, (unsigned)o.get("th", 1));
        trace(q);
        if (n && memcmp(src, &in[wp ? 1 : 0], n)) fail("input-changed", "input was modified");
        if (!A.isError(q)) { if (q > cap_) fail("size", "size %zu exceeds the capacity %zu", q, cap_); res.assign(dst, dst + q); }
        if (!redzone_ok(dst)) fail("dst-overflow", "bytes around the destination were overwritten");
        buf_free(src); buf_free(dst);
        return q;
    };
    FL2_DCtx* c = o.name == "dmt" ? nullptr : x;
    if (!c && wp) return;
    if (!c && o.name != "dmt") return;
    Bytes res; size_t q = run1(c, cap, res, true); bool f1 = faulted();
    if (c && th) est_check("one-shot decompression", A.estimateDCtxSize(th));
    find_check(S, in, corrupt, wp, !A.isError(q), res.size());
    sim::probe(8);
    if (A.isError(q)) {
        if (!corrupt && !cut && cap >= S.data.size() && !f1) fail("error", "decompression failed: %s", A.getErrorName(q));
        if (!corrupt && !cut && cap < S.data.size() && !f1) sim::probe(7);
    } else {
        if (cut && !corrupt) fail("torn-accepted", "%zu of %zu stream bytes were accepted as a complete stream", in.size(), S.comp.size());
        if (corrupt && S.hash && res != S.data) fail("corrupt-accepted", "an altered stream was decoded to different data without an error");
        if (!corrupt) {
            if (cap < S.data.size()) fail("capacity", "success with capacity %zu, %zu bytes needed", cap, S.data.size());
            if (res != S.data) fail("wrong-data", "decompressed data differs (%zu bytes, %zu expected)", res.size(), S.data.size());
        }
    }
    if (c && o.get("cmp") && !f1) {
        // the same call on a fresh object of the same kind and on a single-threaded one
        for (int k = 0; k < 2; ++k) {
            FL2_DCtx* f = A.createDCtxMt(k ? 1 : th); if (!f) return;
            Bytes r2; size_t q2 = run1(f, cap, r2, true); A.freeDCtx(f);
            if (k == 0 && q2 != q) fail("history", "result %s (%zu bytes) differs from %s (%zu) of a fresh object", A.getErrorName(q), A.isError(q) ? 0 : q, A.getErrorName(q2), A.isError(q2) ? 0 : q2);
            if (k == 1 && A.isError(q2) != A.isError(q) && !corrupt) fail("mt-differs", "result %s with %u threads, %s with one", A.getErrorName(q), th, A.getErrorName(q2));
            if (!A.isError(q) && !A.isError(q2) && (r2 != res)) fail("mt-differs", "output differs between %u threads and %s", th, k ? "one" : "a fresh object");
        }
    }
}

void DObj::op(const Op& o) {
    ff0 = faults_fired(); stall_others((u32)o.get("st"));
    if (o.name == "dfind") {
        u32 ch = (u32)std::min<i64>(1 << 21, std::max<i64>(1, o.get("chunk", 1))), n = (u32)o.get("n", 1); Bytes z = repeated_stream(ch, n, (u64)o.get("seed")); u64 v = found_size(A, z, false);
        if (v != (u64)ch * n) fail("content-size", "size %llu was found in a stream of %llu bytes", (unsigned long long)v, (unsigned long long)ch * n);
    }
    else if (o.name == "dnew") create(o);
    else if (o.name == "dmt") oneshot(o);
    else if (o.name == "done") { if (x) oneshot(o); }
    else if (!s) return;
    else if (o.name == "dtmo") {
        unsigned t = (unsigned)o.get("ms"); u64 l0 = live_bytes(); size_t q = A.setDStreamTimeout(s, t); trace(q);
        if (A.isError(q)) { if (!faulted()) fail("error", "setDStreamTimeout failed"); } else tmo = t;
        if (!p.live) base += live_bytes() - l0;      // the thread that serves timeouts
    }
    else if (o.name == "dmem") { if (!p.live) { limit = (size_t)o.get("n"); A.setDStreamMemoryLimitMt(s, limit); } }
    else if (o.name == "dstream") {
        if (!o.get("cmp")) { stream(o, nullptr); return; }
        Trace a, b; stream(o, &a);
        if (p.live || faulted() || a.code < 0) return;
        DObj f(w); f.s = A.createDStreamMt(th); if (!f.s) return; f.th = th; f.base = live_bytes(); f.ff0 = ff0;
        A.setDStreamMemoryLimitMt(f.s, limit); f.limit = limit;
        f.stream(o, &b); f.destroy();
        if (faulted() || b.code < 0) return;
        if (a.out != b.out || a.consumed != b.consumed || a.code != b.code || a.calls != b.calls) {
            size_t i = 0; while (i < a.calls.size() && i < b.calls.size() && a.calls[i] == b.calls[i]) ++i;
            fail("history", "decoding on a used object differs from decoding on a fresh one: %zu/%zu bytes, consumed %zu/%zu, outcome %d/%d, first difference at call %zu (%lld/%lld)", a.out.size(), b.out.size(), a.consumed, b.consumed, a.code, b.code, i / 3,
                 i < a.calls.size() ? (long long)a.calls[i] : -1ll, i < b.calls.size() ? (long long)b.calls[i] : -1ll);
        }
        sim::probe(11);
    }
    else if (o.name == "dcancel") cancel();
    else if (o.name == "dmore") more(o);
    else if (o.name == "dwait") wait_pending(o);
    else if (o.name == "dfree") destroy();
    else if (o.name == "dsleep") sleep_steps((u64)o.get("n", 100));
    else if (o.name == "dprog") { trace(A.getDStreamProgress(s)); }
}
