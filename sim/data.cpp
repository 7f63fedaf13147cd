#include "drv.h"
#include <algorithm>
#include <cstring>
#include <lzma.h>
#include <cstdlib>

Bytes gen_data(size_t len, int kind, u64 seed) {
    Bytes b(len); Rng r(seed * 77 + (u64)kind);
    switch (kind) {
    case 0: { u8 c = (u8)r.below(256); std::fill(b.begin(), b.end(), c); break; }
    case 1: for (auto& x : b) x = (u8)r.next(); break;
    case 2: {
        static const char* W[] = {"the ", "quick ", "brown ", "fox ", "jumps ", "over ", "lazy ", "dog ", "compression ", "dictionary ", "radix ", "match ", "finder\n", "0123456789 ", "a ", "of "};
        std::string s; while (s.size() < len) { s += W[r.below(16)]; if (r.below(12) == 0) s += std::to_string(r.below(100000)); }
        memcpy(b.data(), s.data(), len); break; }
    case 3: {
        size_t i = 0; while (i < len) {
            size_t n = std::min<size_t>(len - i, r.logu(1, 400));
            if (i > 8 && r.below(3)) { size_t d = 1 + r.below(std::min<u64>(i, r.logu(1, i))); for (size_t k = 0; k < n; ++k) b[i + k] = b[i + k - d]; }
            else for (size_t k = 0; k < n; ++k) b[i + k] = (u8)r.next();
            i += n; } break; }
    case 4: { size_t p = r.logu(1, 700); for (size_t i = 0; i < len; ++i) b[i] = i < p ? (u8)r.next() : b[i - p]; break; }
    case 5: { u64 m = 2 + r.below(6); for (auto& x : b) x = (u8)('a' + r.below(m)); break; }
    case 6: { u32 v = (u32)r.next(); for (size_t i = 0; i < len; ++i) { if (i % 4 == 0) v += (u32)r.below(9); b[i] = (u8)(v >> (8 * (i % 4))); } break; }
    case 8: { // one byte or a short period, broken at rare places
        size_t p = 1 + (r.below(3) ? 0 : r.below(6)), gap = (size_t)r.logu(20, 5000); for (size_t i = 0; i < len; ++i) b[i] = (i < p || r.below(gap) == 0) ? (u8)r.next() : b[i - p]; break; }
    case 9: { // Fibonacci word: repeats of every length
        std::string x = "a", y = "ab"; while (y.size() < len) { std::string t = y + x; x = y; y = t; } memcpy(b.data(), y.data(), len); for (u64 k = r.below(4); k && len; --k) b[r.below(len)] ^= 1; break; }
    case 10: { // the same material again and again with small changes: many candidates of nearly the same length
        size_t p = (size_t)r.logu(200, 9000), gap = (size_t)r.logu(30, 3000); for (size_t i = 0; i < len; ++i) b[i] = i < p ? (u8)('a' + r.below(20)) : r.below(gap) ? b[i - p] : (u8)r.next(); break; }
    case 11: { // runs of many lengths of few values
        size_t i = 0; while (i < len) { size_t n = std::min<size_t>(len - i, r.logu(1, 700)); u8 v = (u8)("ab\0c"[r.below(4)]); while (n--) b[i++] = v; } break; }
    default: { // alternating random and compressible segments
        size_t i = 0; while (i < len) { size_t n = std::min<size_t>(len - i, r.logu(64, 6000)); Bytes s = gen_data(n, kind == 7 ? (int)r.below(7) : (int)(8 + r.below(4)) - (r.below(2) ? 8 : 0), r.next()); memcpy(&b[i], s.data(), n); i += n; } break; }
    }
    return b;
}

u32 xxh32(const u8* p, size_t len) {
    const u32 P1 = 2654435761u, P2 = 2246822519u, P3 = 3266489917u, P4 = 668265263u, P5 = 374761393u;
    auto rd = [](const u8* q) { return (u32)q[0] | (u32)q[1] << 8 | (u32)q[2] << 16 | (u32)q[3] << 24; };
    auto rot = [](u32 x, int r) { return x << r | x >> (32 - r); };
    const u8* e = p + len; u32 h;
    if (len >= 16) {
        u32 v1 = P1 + P2, v2 = P2, v3 = 0, v4 = 0u - P1;
        do { v1 = rot(v1 + rd(p) * P2, 13) * P1; v2 = rot(v2 + rd(p + 4) * P2, 13) * P1; v3 = rot(v3 + rd(p + 8) * P2, 13) * P1; v4 = rot(v4 + rd(p + 12) * P2, 13) * P1; p += 16; } while (p + 16 <= e);
        h = rot(v1, 1) + rot(v2, 7) + rot(v3, 12) + rot(v4, 18);
    } else h = P5;
    h += (u32)len;
    while (p + 4 <= e) { h += rd(p) * P3; h = rot(h, 17) * P4; p += 4; }
    while (p < e) { h += *p++ * P5; h = rot(h, 11) * P1; }
    h ^= h >> 15; h *= P2; h ^= h >> 13; h *= P3; h ^= h >> 16; return h;
}

bool ref_decode(const Bytes& comp, size_t from, int prop, size_t limit, Bytes& out, bool& complete, size_t& used) {
    complete = false; used = from; out.clear();
    if (from > comp.size()) { used = comp.size(); return true; }
    lzma_options_lzma o; memset(&o, 0, sizeof o);
    o.dict_size = prop < 40 ? (2u | (prop & 1)) << (prop / 2 + 11) : 0xFFFFFFFFu;
    if (o.dict_size < 4096) o.dict_size = 4096;
    lzma_filter f[2] = {{LZMA_FILTER_LZMA2, &o}, {LZMA_VLI_UNKNOWN, nullptr}};
    lzma_stream s = LZMA_STREAM_INIT;
    if (lzma_raw_decoder(&s, f) != LZMA_OK) return false;
    s.next_in = comp.data() + from; s.avail_in = comp.size() - from;
    std::vector<u8> buf(65536); lzma_ret rc;
    do {
        s.next_out = buf.data(); s.avail_out = buf.size();
        rc = lzma_code(&s, LZMA_RUN);
        out.insert(out.end(), buf.data(), buf.data() + (buf.size() - s.avail_out));
    } while (rc == LZMA_OK && (s.avail_in || s.avail_out == 0) && out.size() <= limit);
    used = comp.size() - s.avail_in;
    lzma_end(&s);
    if (rc == LZMA_STREAM_END) { complete = true; return true; }
    return rc == LZMA_OK || rc == LZMA_BUF_ERROR;
}

static u8 dict_prop(u32 d) { for (int p = 0; p < 40; ++p) if (((u64)(2 | (p & 1)) << (p / 2 + 11)) >= d) return (u8)p; return 40; }

static std::map<std::string, std::shared_ptr<Stream>> cache;

static std::string skey(const Op& o) {
    std::string k; for (const char* n : {"ss", "len", "kind", "dseed", "blk", "dict", "lclppb", "nice", "hash", "sth", "slev", "sflush", "sri", "sov", "mix"}) k += std::to_string(o.get(n, -1)) + ","; return k;
}

// chunks made by liblzma, without the end marker; with data before it, they do not reset the dictionary
static void encode_piece(const u8* src, size_t n, const u8* before, size_t w, u32 dict, int props, int nice, Rng& r, Bytes& to) {
    lzma_options_lzma opt; lzma_lzma_preset(&opt, (u32)(1 + r.below(5)));
    opt.dict_size = dict; opt.lc = (u32)(props / 100); opt.lp = (u32)(props / 10 % 10); opt.pb = (u32)(props % 10);
    if (opt.lc + opt.lp > 4) opt.lc = 4 - opt.lp;
    if (nice) opt.nice_len = (u32)std::min(273, std::max(8, nice));
    if (w) { opt.preset_dict = before; opt.preset_dict_size = (u32)w; }
    lzma_filter f[2] = {{LZMA_FILTER_LZMA2, &opt}, {LZMA_VLI_UNKNOWN, nullptr}};
    lzma_stream s = LZMA_STREAM_INIT;
    if (lzma_raw_encoder(&s, f) != LZMA_OK) abort();
    Bytes out(n + n / 2 + 4096); s.next_in = src; s.avail_in = n; s.next_out = out.data(); s.avail_out = out.size();
    // sometimes flush inside: more chunks
    if (r.below(3) == 0 && n > 100) { size_t h = n / 2; s.avail_in = h; while (lzma_code(&s, LZMA_SYNC_FLUSH) == LZMA_OK) {} s.avail_in = n - h; }
    lzma_ret rc; while ((rc = lzma_code(&s, LZMA_FINISH)) == LZMA_OK) {}
    if (rc != LZMA_STREAM_END) abort();
    out.resize(out.size() - s.avail_out); lzma_end(&s);
    to.insert(to.end(), out.begin(), out.end() - 1);
}

// stream made by liblzma, one raw LZMA2 stream (dictionary reset) for each block
static std::shared_ptr<Stream> lzma_stream_make(const Op& o) {
    auto S = std::make_shared<Stream>();
    S->data = gen_data((size_t)o.get("len"), (int)o.get("kind"), (u64)o.get("dseed"));
    S->hash = o.get("hash", 1) != 0;
    u32 dict = (u32)std::max<i64>(4096, o.get("dict", 4096));
    S->comp.push_back((u8)(dict_prop(dict) | (S->hash ? 0x80 : 0)));
    Rng r((u64)o.get("dseed") ^ 0x5151);
    size_t blk = (size_t)std::max<i64>(1, o.get("blk", 1 << 20)), pos = 0;
    int props = (int)o.get("lclppb", 302), nice = (int)o.get("nice"); bool mix = o.get("mix") != 0;
    while (pos < S->data.size()) {
        size_t n = std::min(S->data.size() - pos, blk / 2 + r.below(blk) + 1);
        S->blocks.push_back(S->comp.size());
        if (!mix || r.below(3) == 0) { encode_piece(S->data.data() + pos, n, nullptr, 0, dict, props, nice, r, S->comp); pos += n; continue; }
        // pieces of a block: stored chunks of any size, and compressed chunks that refer to the data before them and set new properties, or keep the earlier ones
        size_t off = 0; int last = -1;
        while (off < n) {
            size_t m = std::min<size_t>(n - off, r.below(3) ? r.logu(1, 3000) : n);
            if (r.below(2)) {
                size_t e = off + m; u64 mx = r.below(4); mx = mx == 0 ? 4 : mx == 1 ? 40 : mx == 2 ? 400 : 65536;
                while (off < e) { size_t k = std::min<size_t>(e - off, r.logu(1, mx)); bool reset = off == 0; if (reset) last = -1;
                    S->comp.push_back(reset ? 1 : 2); S->comp.push_back((u8)((k - 1) >> 8)); S->comp.push_back((u8)(k - 1)); S->comp.insert(S->comp.end(), S->data.begin() + (long)(pos + off), S->data.begin() + (long)(pos + off + k)); off += k; }
            } else {
                size_t w = std::min<size_t>(off, dict); w -= (w - off) & 15; // the same position modulo 16
                int q = last >= 0 && r.below(2) ? last : r.below(2) ? props : (int)(r.below(5) * 100 + r.below(5)); size_t at = S->comp.size();
                encode_piece(S->data.data() + pos + off, m, S->data.data() + pos + off - w, w, dict, q, nice, r, S->comp);
                if (S->comp[at] >= 0xC0 && S->comp[at] < 0xE0 && q == last && r.below(2)) { S->comp[at] &= 0xBF; S->comp.erase(S->comp.begin() + (long)at + 5); }   // state reset only
                if (S->comp[at] >= 0xC0) last = q; else if (S->comp[at] < 0x80) last = -1;
                off += m;
            }
        }
        pos += n;
    }
    S->comp.push_back(0);
    if (S->hash) { u32 h = xxh32(S->data.data(), S->data.size()); for (int i = 3; i >= 0; --i) S->comp.push_back((u8)(h >> (8 * i))); }
    S->ok = true;
    return S;
}

Bytes repeated_stream(u32 chunk, u32 n, u64 seed) {
    Bytes d(chunk), one, s; Rng r(seed); u8 a = (u8)r.next(); for (u32 i = 0; i < chunk; ++i) d[i] = (u8)(a + i / 4096 % 3);
    Rng q(seed); encode_piece(d.data(), chunk, nullptr, 0, 1 << 20, 302, 0, q, one); s.push_back(24 | 0x80);
    for (u32 i = 0; i < n; ++i) s.insert(s.end(), one.begin(), one.end());
    s.push_back(0); for (int i = 0; i < 4; ++i) s.push_back((u8)r.next());
    return s;
}

static bool stream_valid(const Stream& s) {
    if (s.comp.empty()) return false;
    Bytes out; bool c; size_t used;
    if (!ref_decode(s.comp, 1, s.comp[0] & 0x3F, s.data.size() + 1, out, c, used) || !c || out != s.data) return false;
    size_t t = s.hash ? 4 : 0; if (used + t != s.comp.size()) return false;
    if (s.hash) { u32 h = xxh32(s.data.data(), s.data.size()); for (int i = 0; i < 4; ++i) if (s.comp[used + (size_t)i] != (u8)(h >> (24 - 8 * i))) return false; }
    return true;
}

std::shared_ptr<Stream> fl2_stream_make(const Op& o);

std::shared_ptr<Stream> make_stream(const Op& o) {
    std::string k = skey(o); auto it = cache.find(k); if (it != cache.end()) return it->second;
    if (cache.size() > 400) cache.clear();
    std::shared_ptr<Stream> s;
    if (o.get("ss") == 0) s = lzma_stream_make(o); else s = fl2_stream_make(o);
    if (!stream_valid(*s)) s->ok = false;
    cache[k] = s; return s;
}
