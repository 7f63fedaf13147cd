// Workload generator: for each property, a distribution over operation sequences, faults and schedules.
#include "drv.h"
#include <set>
#include <algorithm>
#include <cstdlib>

namespace {
struct G {
    Rng r; Case c; bool tho; bool big = false;
    G(u64 seed, bool t) : r(seed), tho(t) {}
    i64 pick(std::initializer_list<i64> l) { auto it = l.begin(); std::advance(it, (long)r.below(l.size())); return *it; }
    bool p(u32 permille) { return r.chance(permille); }
    std::vector<Op>* o = nullptr;
    Op& add(const char* n) { o->push_back(Op(n)); return o->back(); }

    void sched(bool timeouts, bool jumps) {
        SchedCfg& s = c.sched; s.seed = r.next();
        u64 m = r.below(10); s.mode = m < 5 ? 0 : m < 8 ? 1 : 2;
        s.psync = (u32)pick({0, 50, 200, 500, 900}); s.acc = (u32)pick({0, 0, 20000, 3000, 500, 60}); s.site = (u32)pick({0, 0, 60, 400});
        if (s.mode == 2) { s.acc = (u32)pick({100, 1000, 10000}); }
        if (p(350)) { s.stalls = (u32)r.range(1, 4); s.stallspan = r.logu(1000, 3000000); s.stalllen = p(500) ? 0 : r.logu(1000, 2000000); }
        if (p(250)) s.spur = (u32)r.logu(2, 150);
        if (jumps) s.jumps = (u32)pick({0, 30, 200});
        s.nsps = timeouts ? r.logu(1, 3000) : 10;
        s.pctd = s.mode == 1 ? (u32)r.below(12) : 0; s.pctspan = r.logu(1000, 2000000);
    }
    void lib(u32 stdpm) {
        u64 k = r.below(1000); if (k < stdpm) { c.lib = "std"; big = true; c.budget = 1500000000; } else c.lib = k % 4 == 3 ? "smallasm" : "small";
    }
    i64 kd() { return p(650) ? (i64)r.below(8) : 8 + (i64)r.below(5); }
    size_t len(size_t mx) { if (p(40)) return 0; return (size_t)r.logu(1, mx); }
    size_t maxlen() { return big ? (2500u << 10) : p(150) ? 120000 : 30000; }

    // ---- compression
    int dictv = 4096;
    void cparams(bool omit_ok = true) {
        dictv = big ? 1 << 20 : (int)(4096 << r.below(p(200) ? 5 : 3)); if (!big && p(300)) dictv += (int)r.below(4000);
        add("cset").set("p", 0).set("v", dictv);
        add("cset").set("p", 9).set("v", (i64)r.below(3));
        if (p(500)) add("cset").set("p", 1).set("v", r.range(0, 14));
        if (p(500)) add("cset").set("p", 2).set("v", p(500) ? r.range(1, 3) : r.range(1, 16));
        if (p(300)) add("cset").set("p", 3).set("v", r.range(0, 4));
        if (p(300)) add("cset").set("p", 4).set("v", r.range(4, 14));
        if (p(300)) add("cset").set("p", 5).set("v", (i64)r.logu(1, 64));
        if (p(400)) add("cset").set("p", 6).set("v", p(500) ? r.range(6, 40) : r.range(6, 254));
        if (p(300)) add("cset").set("p", 7).set("v", r.range(6, 273));
        if (p(300)) add("cset").set("p", 8).set("v", r.range(0, 1));
        if (p(250)) lits();
        if (omit_ok && p(120)) add("cset").set("p", 13).set("v", 1);
        if (p(250)) add("cset").set("p", 14).set("v", 0);
    }
    void lits() { i64 lc = r.range(0, 4), lp = r.range(0, 4 - lc); add("cset").set("p", 11).set("v", 0); add("cset").set("p", 10).set("v", lc); add("cset").set("p", 11).set("v", lp); add("cset").set("p", 12).set("v", r.range(0, 4)); }
    unsigned threads() { return (unsigned)pick({1, 2, 2, 3, 4, 4, 7}); }
    bool cdual = false; unsigned ctmo = 0;
    void cnew(int dual = -1, int tmopm = 250, bool stream = true) {
        cdual = dual < 0 ? p(450) : dual; ctmo = 0;
        add("cnew").set("th", threads()).set("dual", stream && cdual).set("stream", stream);
        cparams();
        if (stream && p((u32)tmopm)) { ctmo = (unsigned)(p(600) ? 1 : r.range(1, 20)); add("ctmo").set("ms", ctmo); }
    }
    int sl = 0, pg = 0;
    // a stream of no or few bytes with a smaller dictionary than before
    void tiny() {
        dictv = p(500) ? 4096 : std::max(4096, dictv >> (int)r.range(1, 4)); add("cset").set("p", 0).set("v", dictv); if (p(300)) add("cset").set("p", 3).set("v", r.range(0, 4));
        add("cinit"); if (p(400)) { if (p(500)) add("cflush").set("om", (i64)r.below(4)).set("seed", (i64)r.below(1000000)); else feed((size_t)r.below(40)); } endop();
    }
    // a larger dictionary whose initialisation fails, then another stream
    void growfail() {
        dictv = std::min(1 << 18, dictv * (int)r.range(2, 6)); add("cset").set("p", 0).set("v", dictv); Op& i = add("cinit"); i.set("fa", r.range(1, 10)); if (p(500)) i.set("fac", 30);
        if (p(300)) add("cpoke").set("seed", (i64)r.below(1000000)); tiny();
    }
    // a stream whose encoders need a longer hash chain than the last one gave them, with failing allocations
    void hashgrow() {
        add("cset").set("p", 9).set("v", (i64)r.below(2)); add("cset").set("p", 4).set("v", r.range(4, 8)); add("cinit"); feed((size_t)r.range(300, 6000)); endop();
        add("cset").set("p", 9).set("v", 2); add("cset").set("p", 4).set("v", r.range(9, 14)); add("cinit"); feed((size_t)r.range(1000, 9000));
        Op& f = o->back(); f.set("fa", r.range(1, 8)); if (p(200)) f.set("fac", (i64)r.range(1, 8)); endop();
    }
    void feed(size_t n) {
        Op& f = add("cfeed"); f.set("len", (i64)n).set("kind", kd()).set("dseed", (i64)r.below(1000000)).set("seed", (i64)r.below(1000000)).set("if", (i64)r.below(3)).set("om", (i64)r.below(4))
            .set("seg", p(500) ? (i64)r.logu(1, 400 + n) : (i64)n + 1);
        if (n > 20000 && f.get("seg") < 50) f.set("seg", 50 + (i64)r.below(500));
        if (big) f.set("seg", (i64)r.logu(20000, n + 20000));
        if (p(300)) f.set("cap", (i64)r.logu(big ? 5000 : 1, 3000 * (big ? 100 : 1))); if (n > 20000 && f.get("cap") && f.get("cap") < 20) f.set("cap", 20);
        else if (big) f.set("cap", 100000);
        if (sl) f.set("sl", sl); if (pg) f.set("pg", pg);
    }
    void flushop() { Op& f = add("cflush"); f.set("om", (i64)r.below(4)).set("seed", (i64)r.below(1000000)); caps(f); if (sl) f.set("sl", sl); }
    void caps(Op& f) { if (p(300)) f.set("cap", (i64)r.logu(big ? 5000 : 2, 3000)); else if (big) f.set("cap", 100000); }
    void endop() { Op& f = add("cend"); f.set("om", (i64)r.below(4)).set("seed", (i64)r.below(1000000)); caps(f); if (pg) f.set("pg", pg); if (p(100)) f.set("twice", 1); }
    void cstream(u32 flushpm, bool end = true, bool first = true, size_t mx = 0) {
        if (!mx) mx = maxlen();
        if (first) { Op& i = add("cinit"); if (!big && p(30)) i.set("lvl", p(700) ? 1 : r.range(1, 3)); else if (!big && p(20)) { Op l("clevel"); l.set("v", r.range(1, 3)).set("high", (i64)r.below(2)); o->insert(o->end() - (p(800) ? 1 : 0), l); } }
        int n = (int)r.range(p(100) ? 0 : 1, 3);
        for (int i = 0; i < n; ++i) { feed(len(mx / (size_t)n)); if (p(flushpm)) flushop(); }
        if (end) endop();
    }
    void one(int cm, size_t mx) { Op& f = add("cone"); f.set("len", (i64)len(mx)).set("kind", kd()).set("dseed", (i64)r.below(1000000)).set("seed", (i64)r.below(1000000)).set("cm", cm); if (cm == 2) f.set("cap", (i64)r.logu(1, mx / 2 + 2) - 1); if (big && p(500)) f.set("lvl", 1); if (!big && p(30)) f.set("lvl", p(700) ? 1 : r.range(1, 3)); if (p(200)) f.set("dirty", 1); }

    // ---- decompression
    void spec(Op& f, size_t mx, bool hashed = false) {
        bool lz = p(600) || big; size_t n = p(450) ? (size_t)r.logu(1500, mx) : len(mx); f.set("ss", lz ? 0 : (i64)r.range(1, 2)).set("len", (i64)n).set("kind", kd()).set("dseed", (i64)r.below(p(500) ? 40 : 100000));
        i64 dict = big ? 1 << 20 : 4096 << r.below(3); f.set("dict", dict);
        if (lz) { f.set("blk", p(700) ? (i64)r.logu(200, 20000) : (i64)r.logu(1, 60000)); if (big) f.set("blk", (i64)r.logu(50000, 1000000)); if (n / 200 > (size_t)f.get("blk")) f.set("blk", (i64)n / 200 + 1); if (p(300)) f.set("nice", (i64)r.range(8, 273)); if (p(300)) f.set("mix", 1); }
        else { f.set("sth", (i64)threads()).set("slev", (i64)r.below(3)).set("sri", (i64)r.range(1, 4)).set("sov", (i64)r.range(0, 8)); }
        if (p(250)) { i64 lc = r.range(0, 4), lp = r.range(0, 4 - lc), pb = r.range(0, 4); f.set("lclppb", lc * 100 + lp * 10 + pb); }
        if (!hashed && p(300)) f.set("hash", 0);
        f.set("seed", (i64)r.below(1000000));
    }
    void segs(Op& f) {
        size_t n = (size_t)f.get("len");
        i64 a = p(250) ? (i64)n + 1000 : (i64)r.logu(2, 4000), b = p(250) ? (i64)n + 1000 : (i64)r.logu(2, 6000);
        if (n > 8000) { if (a < 40) a = 40; if (b < 100) b = 100; }
        if (big) { a = (i64)r.logu(20000, n + 20000); b = (i64)r.logu(20000, n + 20000); }
        f.set("iseg", a).set("oseg", b);
        if (p(300)) f.set("ez", (i64)r.range(30, 400));
        if (p(300)) f.set("ioff", (i64)r.range(1, 40)); if (p(300)) f.set("ooff", (i64)r.range(1, 40));
        if (p(400)) f.set("tr", (i64)r.logu(1, 60));
        if (p(200)) f.set("wp", 1);
        if (sl) f.set("sl", sl); if (pg) f.set("pg", pg);
    }
    Op& dstream(size_t mx, bool hashed = false) { Op& f = add("dstream"); spec(f, mx, hashed); segs(f); return f; }
    unsigned dth() { return (unsigned)pick({1, 2, 2, 3, 4, 4, 6}); }
    unsigned dtmo = 0; unsigned dn = 1;
    void dnew(int kind, int tmopm = 250, bool mt = false) {
        dn = mt ? (unsigned)pick({2, 2, 3, 4, 5}) : dth(); dtmo = 0; add("dnew").set("kind", kind).set("th", dn);
        if (kind == 0 && p((u32)tmopm)) { dtmo = (unsigned)(p(600) ? 1 : r.range(1, 20)); add("dtmo").set("ms", dtmo); }
    }
    void done(size_t mx, int cm, bool hashed = false) { Op& f = add("done"); spec(f, mx, hashed); f.set("cm", cm); if (p(250)) f.set("wp", 1); if (p(300)) f.set("tr", (i64)r.logu(1, 40)); }
    void corrupt(Op& f) { f.set("cor", r.range(1, 12)).set("cn", (i64)(p(600) ? 1 : r.logu(1, 12))).set("cseed", (i64)r.below(1000000)); }
    void dmore() { add("dmore").set("n", r.range(1, 6)).set("seed", (i64)r.below(1000000)); }
    // a memory limit reached while the input of one block is loaded
    void tight(Op& f) {
        i64 n = (i64)r.logu(12000, 50000); f.set("ss", 0).set("dict", 4096).set("len", n).set("blk", (i64)r.logu(8000, 60000)).set("kind", pick({1, 1, 7, 3})).set("mix", p(700)); f.a.erase("nice");
        for (const char* k : {"sth", "slev", "sri", "sov"}) f.a.erase(k);
        if (f.get("iseg") < 40) f.set("iseg", 40 + (i64)r.below(2000)); if (f.get("oseg") < 100) f.set("oseg", 100 + (i64)r.below(20000));
        Op m("dmem"); m.set("n", (i64)r.logu(9560, 30000)); Op c = f; o->back() = m; o->push_back(c);
    }
    void dmem() { add("dmem").set("n", (i64)(p(400) ? r.logu(1000, 9000) : r.logu(6000, 200000))); }
};

void gen_dhist(G& g, u32 tmo, bool cmp, bool limit, bool pendings) {
    Rng& r = g.r; g.dnew(0, (int)tmo, g.p(700)); if (limit) g.dmem();
    int n = (int)r.range(1, 4);
    for (int i = 0; i < n; ++i) {
        g.dstream(g.maxlen(), g.p(600)); if (!g.big && g.p(limit ? 250 : 60)) g.tight(g.o->back());
        Op& f = g.o->back();
        switch (r.below(6)) {
        case 0: f.set("stop", (i64)r.logu(1, 40)); break;
        case 1: g.corrupt(f); if (cmp && g.p(400)) f.set("cor", 12).set("hash", 0); break;
        case 2: f.set("cut", (i64)r.below(1000000)); break;
        case 3: f.set("stop", (i64)r.logu(1, 40)); if (g.p(800)) g.add("dcancel"); break;
        default: break;
        }
        if (cmp && g.p(300)) g.o->back().name == "dstream" ? (void)g.o->back().set("cmp", 1) : (void)0;
        if (pendings && g.p(200)) g.add("dcancel");
        if (g.p(250)) g.dmore();
        if (limit && g.p(300)) g.dmem();
        if (g.p(100)) g.add("dwait");
        if (g.p(150)) g.add("dprog");
        if (g.p(120)) g.add("dtmo").set("ms", (i64)r.below(6));
    }
    Op& f = g.dstream(g.maxlen()); if (cmp) f.set("cmp", 1);
}

void gen_chist(G& g, bool cancel, bool faults, u32 tmo) {
    Rng& r = g.r; g.cnew(-1, (int)tmo);
    int n = (int)r.range(1, 3);
    for (int i = 0; i < n; ++i) {
        size_t a = g.o->size();
        switch (r.below(cancel ? 3 : 6)) {
        case 0: g.cstream(200, false); if (g.p(700) || cancel) g.add("ccancel"); break;
        case 1: g.cstream(200, false); if (g.p(500)) { g.add("csleep").set("n", (i64)r.logu(10, 200000)); } g.add("ccancel"); break;
        case 2: g.cstream(150, true); break;
        case 3: g.one(2, 20000); break;
        case 4: g.one(0, 20000); break;
        case 5: g.add("cinit"); break;
        }
        if (g.p(120)) g.add("cpoke").set("seed", (i64)r.below(1000000));
        if (g.p(150) && !g.big) g.tiny();
        if (faults && g.p(600) && g.o->size() > a) { Op& f = (*g.o)[a + r.below(g.o->size() - a)]; f.set("fa", (i64)r.logu(1, 12)); if (g.p(300)) f.set("fac", (i64)r.logu(1, 50)); }
        if (g.p(500)) g.cparams();
        if (g.p(150) && !g.big) g.add("ctmo").set("ms", (i64)r.below(5));
        if (g.p(120)) g.add("cmisuse").set("seed", (i64)r.below(4));
    }
    if (cancel && g.p(300)) { g.add("cinit"); g.add("ccancel"); }
    if (g.p(700)) g.cstream(0); else g.one((int)r.below(2), 20000);
}
}

static Case gen_case_(const std::string& prop, u64 seed, bool tho);
Case gen_case(const std::string& prop, u64 seed, bool tho) {
    Case c = gen_case_(prop, seed, tho);
    // threads stalled at the start of an operation that ends or replaces the work they do
    Rng r(seed ^ 0x57A11); u32 pm = r.chance(400) ? (u32)r.range(100, 900) : 0;
    if (pm) for (auto& cl : c.clients) for (auto& o : cl)
        if ((o.name == "ccancel" || o.name == "dcancel" || o.name == "cfree" || o.name == "dfree" || o.name == "cinit" || o.name == "dstream" || o.name == "cnew" || o.name == "dnew") && r.chance(600)) o.set("st", pm);
    for (auto& cl : c.clients) for (auto& o : cl) if (o.get("th", 9) == 1 && r.chance(400)) o.set("plain", 1);
    if (c.lib != "std") c.sched.race = r.chance(350);
    return c;
}
static Case gen_case_(const std::string& prop, u64 seed, bool tho) {
    G g(seed, tho); Rng& r = g.r; Case& c = g.c; c.prop = prop; c.fill = (u8)r.below(256); if (g.p(300)) c.fill = (u8)g.pick({0, 0xFF, 0xA5});
    c.clients.resize(1); g.o = &c.clients[0];
    int id = atoi(prop.c_str() + 1);
    bool timed = id == 6 || id == 7 || id == 8 || id == 21 || id == 22, jumps = (id == 6 || id == 21 || id == 8 || id == 7) && g.p(400);
    g.lib(id == 9 || id == 10 || id == 11 || id == 18 ? 0 : tho ? 25 : 6);
    g.sched(true, jumps); (void)timed;
    size_t M = g.maxlen();
    auto sleeps = [&] { if (g.p(400)) g.sl = (int)r.range(20, 700); if (g.p(300)) g.pg = (int)r.range(20, 700); };
    switch (id) {
    case 1:
        if (g.p(60) && !g.big) { g.add("cmt").set("len", (i64)g.len(1500)).set("kind", g.kd()).set("dseed", (i64)r.below(10000)).set("th", (i64)r.range(1, 4)).set("lvl", 1); if (g.p(700)) c.lib = "small"; break; }
        g.cnew(0, 0, false);
        for (int i = 0, n = (int)r.range(1, 3); i < n; ++i) { g.one((int)r.below(2), M); if (g.p(300)) g.cparams(); }
        break;
    case 2: g.cnew(); for (int i = 0, n = g.p(250) ? 2 : 1; i < n; ++i) { g.cstream(150, i + 1 < n ? g.p(600) : true); if (g.p(120) && !g.big) g.tiny(); } break;
    case 3: g.dnew(0, 250); if (g.p(300)) g.dmem(); for (int i = 0, n = g.p(300) ? 2 : 1; i < n; ++i) { Op& f = g.dstream(M); if (!g.big && g.p(150)) g.tight(f); } break;
    case 4: g.dnew(1, 0, g.p(900)); for (int i = 0, n = (int)r.range(1, 3); i < n; ++i) { g.done(M, (int)r.below(5)); if (g.p(500)) g.o->back().set("cmp", 1); if (g.p(100)) g.corrupt(g.o->back()); else if (g.p(100)) g.o->back().set("cut", (i64)r.below(1000000)); }
        if (g.p(150)) { Op& f = g.add("dmt"); g.spec(f, M); f.set("th", g.dth()).set("cm", (i64)r.below(5)); } break;
    case 5:
        if (g.p(350)) { g.add("dnew").set("kind", 0).set("th", 1); if (g.p(300)) g.add("dtmo").set("ms", (i64)r.range(1, 4)); Op& f = g.dstream(M); f.set("fl", r.range(1, 400)); f.a.erase("tr"); }
        else { g.cnew(); g.cstream(700); if (g.p(200)) g.cstream(600); }
        break;
    case 6: sleeps();
        if (g.p(500)) { g.cnew(-1, 1000); for (int i = 0, n = g.p(250) ? 2 : 1; i < n; ++i) g.cstream(250); }
        else { g.dnew(0, 1000); for (int i = 0, n = g.p(300) ? 2 : 1; i < n; ++i) g.dstream(M).set("try", g.p(300) ? 300 : 0); }
        break;
    case 7: sleeps(); gen_chist(g, true, false, g.p(600) ? 900 : 200); break;
    case 8: { sleeps(); g.dnew(0, 750, g.p(700));
        for (int i = 0, n = (int)r.range(1, 3); i < n; ++i) {
            Op& f = g.dstream(M); f.set("stop", (i64)r.logu(1, 30)); if (g.p(600)) f.set("iseg", f.get("len") + 1000).set("oseg", f.get("len") + 1000);
            if (g.p(300)) g.add("dsleep").set("n", (i64)r.logu(10, 100000)); g.add("dcancel"); if (g.p(150)) g.add("dcancel"); if (g.p(300)) g.dmore(); }
        Op& f = g.dstream(M); if (g.p(400)) f.set("cmp", 1); break; }
    case 9: { gen_chist(g, g.p(300), true, 300); if (g.p(150) && !g.big) { if (g.p(300)) g.cstream(100, false); g.growfail(); }
        if (g.p(120) && !g.big) g.hashgrow();
        if (g.p(600)) { // failing creation
            Op n = (*g.o)[0]; if (g.p(600)) n.set("fa", (i64)r.range(1, 14)); else n.set("ft", (i64)r.range(1, 8)); if (g.p(200)) n.set("fac", 30); g.o->insert(g.o->begin(), n); }
        if (g.p(300)) for (auto& o : *g.o) if (o.name == "ctmo") { if (g.p(500)) o.set("fa", 1); else o.set("ft", 1); }
        if (g.p(200)) for (auto& o : *g.o) if (g.p(300)) o.set("fc", 1);
        if (g.p(60)) { g.add("cmt").set("len", (i64)g.len(1500)).set("kind", 2).set("dseed", 5).set("th", (i64)r.range(1, 4)).set("lvl", 1).set("fa", (i64)r.range(1, 14)); }
        break; }
    case 10: {
        int n = (int)r.range(1, 3);
        if (g.p(700)) {
            g.dnew(0, 300, g.p(700));
            if (g.p(300)) for (auto& o : *g.o) if (o.name == "dnew" || o.name == "dtmo") { if (g.p(500)) o.set("fa", (i64)r.range(1, 8)); else o.set("ft", (i64)r.range(1, 5)); }
            for (int i = 0; i < n; ++i) { Op& f = g.dstream(M); if (g.p(800)) { f.set("fa", (i64)r.logu(1, 40)); if (g.p(300)) f.set("fac", (i64)r.logu(1, 60)); } if (g.p(150)) f.set("stop", (i64)r.logu(1, 30)); if (g.p(150)) g.add("dcancel"); if (g.p(200)) g.dmore(); }
            g.dstream(M);
        } else {
            g.dnew(1, 0, g.p(700)); if (g.p(400)) { Op& q = g.o->back(); if (g.p(500)) q.set("fa", (i64)r.range(1, 8)); else q.set("ft", (i64)r.range(1, 5)); Op again("dnew"); again.set("kind", 1).set("th", q.get("th")); if (g.p(500)) g.o->push_back(again); }
            for (int i = 0; i < n; ++i) { g.done(M, (int)r.below(5)); if (g.p(700)) g.o->back().set("fa", (i64)r.range(1, 4)); }
            if (g.p(300)) { Op& f = g.add("dmt"); g.spec(f, M); f.set("th", g.dth()).set("fa", (i64)r.range(1, 8)); }
            g.done(M, 0);
        }
        break; }
    case 11:
        if (g.p(600)) { g.dnew(0, 200); for (int i = 0, n = (int)r.range(1, 3); i < n; ++i) { Op& f = g.dstream(M, g.p(850)); g.corrupt(f); if (g.p(100)) f.set("cut", (i64)r.below(1000000)); if (g.p(200)) g.dmore(); } }
        else { g.dnew(1, 0); for (int i = 0, n = (int)r.range(1, 4); i < n; ++i) { g.done(M, (int)r.below(5), g.p(850)); g.corrupt(g.o->back()); if (g.p(150)) g.o->back().set("cut", (i64)r.below(1000000)); }
            if (g.p(300)) { Op& f = g.add("dmt"); g.spec(f, M, true); f.set("th", g.dth()); g.corrupt(f); } }
        break;
    case 12:
        if (g.p(600)) { g.dnew(0, 200); for (int i = 0, n = (int)r.range(1, 3); i < n; ++i) { Op& f = g.dstream(M); if (g.p(700)) f.set("cut", (i64)r.below(1000000)); else f.set("cut", 1).set("cutb", (i64)r.range(1, 12)); f.a.erase("tr"); } }
        else { g.dnew(1, 0); for (int i = 0, n = (int)r.range(1, 4); i < n; ++i) { g.done(M, (int)g.pick({0, 1, 4})); Op& f = g.o->back(); if (g.p(700)) f.set("cut", (i64)r.below(1000000)); else f.set("cut", 1).set("cutb", (i64)r.range(1, 12)); f.a.erase("tr"); }
            if (g.p(200)) { Op& f = g.add("dmt"); g.spec(f, M); f.set("th", g.dth()).set("cut", (i64)r.below(1000000)); } }
        break;
    case 13: gen_chist(g, false, g.p(300), 250); break;
    case 14: if (g.p(700)) gen_dhist(g, g.p(400) ? 900 : 0, true, false, true);
        else { g.dnew(1, 0, g.p(700)); for (int i = 0, n = (int)r.range(2, 5); i < n; ++i) { g.done(M, (int)r.below(5)); Op& f = g.o->back(); if (g.p(300)) g.corrupt(f); else if (g.p(200)) f.set("cut", (i64)r.below(1000000)); f.set("cmp", 1); } }
        break;
    case 15: gen_dhist(g, 150, true, true, g.p(300)); break;
    case 16: {
        if (g.p(700)) {
            g.cnew();
            if (g.p(300)) g.add("cmisuse").set("seed", (i64)r.below(4));
            for (int i = 0, n = (int)r.range(1, 2); i < n; ++i) {
                size_t a = g.o->size(); g.cstream(150, g.p(800)); size_t e = g.o->size();
                for (int k = 0; k < 3; ++k) { size_t at = a + 1 + r.below(e - a); if (at > g.o->size()) continue; Op s("cset"); int pi = (int)r.below(15); s.set("p", pi);
                    static const i64 LO[] = {4096, 0, 1, 0, 4, 1, 6, 6, 0, 0, 0, 0, 0, 0, 0}, HI[] = {65536, 14, 16, 4, 14, 64, 254, 273, 1, 2, 0, 0, 0, 1, 1};
                    i64 v = r.range(LO[pi], HI[pi]); if (g.big && pi == 0) v = 1 << 20; if (pi >= 10 && pi <= 12) { if (pi == 10) v = r.range(0, 4); else if (pi == 12) v = r.range(0, 4); s.set("v", v); if (pi != 12) { Op z("cset"); z.set("p", 11).set("v", 0); g.o->insert(g.o->begin() + (long)at, z); } }
                    s.set("v", v); g.o->insert(g.o->begin() + (long)std::min(at + 1, g.o->size()), s); }
                if (g.p(400)) g.add("ccancel"); if (g.p(500)) g.add("cmisuse").set("seed", (i64)r.below(4)); if (g.p(300)) g.one((int)r.below(3), 8000);
                if (g.p(300)) g.cparams();
            }
        } else { g.dnew(0, 1000); for (int i = 0, n = (int)r.range(1, 3); i < n; ++i) { Op& f = g.dstream(M); f.set("try", 600); if (g.p(300)) f.set("stop", (i64)r.logu(1, 10)); } }
        break; }
    case 17: g.sl = (int)r.range(50, 600); g.pg = (int)r.range(200, 900);
        if (g.p(500)) { g.cnew(-1, 600); for (int i = 0, n = g.p(300) ? 2 : 1; i < n; ++i) g.cstream(200); }
        else { g.dnew(0, 600); for (int i = 0, n = g.p(300) ? 2 : 1; i < n; ++i) { Op& f = g.dstream(M); if (g.p(600)) f.set("iseg", f.get("len") + 1000); if (g.p(300)) f.set("try", 400); } }
        break;
    case 18: {
        int k = (int)r.range(2, 4); c.clients.resize((size_t)k);
        for (int i = 0; i < k; ++i) { g.o = &c.clients[(size_t)i]; size_t m = 12000;
            switch (r.below(5)) { case 0: g.cnew(); g.cstream(150, true, true, m); break; case 1: g.cnew(0, 0, false); g.one((int)r.below(3), m); break; case 2: g.dnew(0, 250); g.dstream(m); break; case 3: g.dnew(1, 0); g.done(m, (int)r.below(5)); break;
                default: g.cnew(); g.cstream(150, false, true, m); g.add("ccancel"); g.cstream(0, true, true, m); } 
            if (g.p(200)) { g.add("dnew").set("kind", 0).set("th", g.dth()); Op& f = g.dstream(m); if (g.p(500)) g.corrupt(f); } }
        break; }
    case 19: if (g.p(700)) { g.cnew(); g.cstream(0); } else { g.cnew(0, 0, false); g.one(0, M); } break;
    case 20: { g.cnew(); g.add("cinit"); for (int i = 0, n = (int)r.range(1, 4); i < n; ++i) { g.feed(g.len(M / 2)); if (g.p(500)) g.o->back().set("cap", (i64)r.logu(1, 300) + (g.big ? 9000 : 0)); if (g.p(400)) g.add("cremain"); if (g.p(300)) g.flushop(); } g.endop(); break; }
    case 21: { sleeps();
        int n = (int)r.range(1, 3);
        for (int i = 0; i < n; ++i) switch (r.below(6)) {
            case 0: g.cnew(-1, 400); g.cstream(250, g.p(800), true, M / 2); break;
            case 1: g.dnew(0, 400); g.dstream(M / 2); break;
            case 2: g.cnew(0, 0, false); g.one(0, M / 2); break;
            case 3: g.dnew(1, 0, true); g.done(M / 2, 0); break;
            case 4: for (int k = 0; k < 3; ++k) { g.add("cnew").set("th", (i64)r.range(1, 6)).set("dual", (i64)r.below(2)).set("stream", 1); if (g.p(300)) g.add("ctmo").set("ms", 1); } break;
            case 5: for (int k = 0; k < 3; ++k) { g.add("dnew").set("th", (i64)r.range(1, 6)).set("kind", (i64)r.below(2)); if (g.p(300)) g.add("dtmo").set("ms", 1); } break; }
        break; }
    case 22: {
        int n = (int)r.range(1, 3);
        for (int i = 0; i < n; ++i) {
            if (g.p(500)) { g.cnew(-1, 700); g.cstream(200, g.p(200)); if (g.p(300)) g.add("csleep").set("n", (i64)r.logu(10, 200000)); if (g.p(250)) { g.add("cinit"); g.cstream(0, g.p(300), false); } if (g.p(150)) g.one(0, 3000); g.add("cfree"); }
            else { g.dnew(0, 800, g.p(700)); Op& f = g.dstream(M); if (g.p(800)) f.set("stop", (i64)r.logu(1, 12)); if (g.p(600)) f.set("iseg", f.get("len") + 1000).set("oseg", f.get("len") + 1000); if (g.p(150)) g.corrupt(f); if (g.p(250)) g.dstream(M / 2); if (g.p(150)) g.add("dtmo").set("ms", (i64)r.below(3)); g.add("dfree"); }
        }
        break; }
    case 23: if (g.p(550)) { g.cnew(0, 0, false); for (int i = 0, n = (int)r.range(1, 3); i < n; ++i) { g.one((int)g.pick({1, 1, 2, 2, 0}), M / 2); if (g.p(250)) g.cparams(); } }
        else { g.dnew(1, 0); for (int i = 0, n = (int)r.range(1, 4); i < n; ++i) { g.done(M, (int)r.below(5)); g.o->back().set("cmp", (i64)r.below(2)); } if (g.p(250)) { Op& f = g.add("dmt"); g.spec(f, M); f.set("th", g.dth()).set("cm", (i64)r.below(5)); } }
        break;
    case 24: {      // default thread counts, the processor probe, thread counts beyond the limit
        if (!g.big) c.budget = 30000000;
        int k = g.p(500) ? (int)r.range(2, 4) : 1; c.clients.resize((size_t)k); g.o = &c.clients[0];
        if (g.p(900)) { Op& e = g.add("ecpu"); e.set("sys", g.pick({-1, 1, 2, 3, 4, 4, 8, 16})); 
            if (g.p(700)) { int cores = (int)r.range(1, 8); e.set("cores", cores).set("sib", cores * (int)r.range(1, 4)); }
            else { e.set("cores", g.pick({-1, 0, 1, 2, 4, 8})).set("sib", g.pick({-1, 0, 1, 2, 4, 8})); }
            if (g.p(400)) e.set("cut", (i64)r.below(700)); if (g.p(150)) e.set("err", (i64)r.logu(1, 60)); if (g.p(60)) e.set("missing", 1); }
        bool fc = g.p(100);
        for (int i = 0; i < k; ++i) { g.o = &c.clients[(size_t)i];
            for (int j = 0, n = (int)r.range(1, 3); j < n; ++j) {
                size_t at = g.o->size(), m = 4000; i64 th = g.p(750) ? 0 : g.p(900) ? (i64)g.threads() : (i64)r.logu(150, 100000);
                switch (r.below(6)) {
                case 0: g.cnew(); if (th < 10 && g.p(500)) g.cstream(50, true, true, m); break;
                case 1: g.cnew(0, 0, false); if (th < 10 && g.p(500)) g.one(0, m); break;
                case 2: g.dnew(0, 250); g.o->at(at).set("th", th); if (th < 10) g.dstream(m); break;
                case 3: g.dnew(1, 0); g.done(m, 0); break;
                case 4: if (th > 10 || !g.p(500)) th = 0; g.add("cmt").set("len", (i64)g.len(1000)).set("kind", g.kd()).set("dseed", (i64)r.below(10000)).set("lvl", 1); break;
                default: { Op& f = g.add("dmt"); g.spec(f, m); f.set("cm", 0); if (th > 10) th = 0; } }
                g.o->at(at).set("th", th); if (fc && g.p(500)) g.o->at(at).set("fc", 1);
            } }
        break; }
    case 30: {      // the bound, and the memory of new objects against the estimate of their settings
        if (g.p(150)) g.add("cbound").set("seed", (i64)r.below(1000000));
        u64 k = r.below(10);
        if (k < 6) {
            bool stream = g.p(600); g.cnew(-1, 300, stream); size_t at = 1; while (at < g.o->size() && (*g.o)[at].name == "cset") ++at;
            if (g.p(120)) { g.o->erase(g.o->begin() + 1, g.o->begin() + (long)at); at = 1; if (g.big || g.p(700)) g.o->insert(g.o->begin() + (long)at++, Op("clevel").set("v", r.range(1, g.big ? 2 : 3)).set("high", (i64)r.below(2))); }
            g.o->insert(g.o->begin() + (long)at, Op("cest").set("l", r.range(1, 10)));
            if (g.p(200)) (*g.o)[0].set("th", (i64)r.range(1, 12));
            if (!stream) for (int i = 0, n = (int)r.range(1, 2); i < n; ++i) { g.one((int)g.pick({0, 0, 1}), M); Op& f = g.o->back(); f.a.erase("lvl"); if (g.p(500)) f.set("kind", 0); }
            else for (int i = 0, n = (int)r.range(1, 2); i < n; ++i) { size_t b = g.o->size(); g.cstream(200, g.p(800)); for (size_t j = b; j < g.o->size();) { if ((*g.o)[j].name == "clevel") g.o->erase(g.o->begin() + (long)j); else { (*g.o)[j].a.erase("lvl"); ++j; } } if (g.p(200)) g.add("ccancel"); }
            if (g.p(150)) { Op& f = (*g.o)[1 + r.below(g.o->size() - 1)]; if (f.name != "cset" && f.name != "cest") f.set("fa", (i64)r.logu(1, 12)); }
        } else if (k < 8) {     // data that cannot be compressed, at the bound of the unscaled library
            c.lib = "std"; c.budget = 1500000000; g.big = true; g.add("cnew").set("th", g.threads()).set("dual", 0).set("stream", 0); g.add("cset").set("p", 0).set("v", 1 << 20); g.add("cset").set("p", 9).set("v", (i64)r.below(2));
            if (g.p(300)) g.add("cset").set("p", 1).set("v", r.range(0, 14));
            for (int i = 0, n = (int)r.range(1, 3); i < n; ++i) { i64 m = g.p(400) ? 65536 * r.range(1, 3) + r.range(-5, 5) : (i64)r.logu(1, 200000); g.add("cone").set("len", m).set("kind", 0).set("dseed", (i64)r.below(1000000)).set("seed", 1).set("cm", 0); }
        } else if (k == 8) { g.dnew(1, 0); for (int i = 0, n = (int)r.range(1, 2); i < n; ++i) g.done(M, 0); }
        else { g.add("dnew").set("kind", 0).set("th", 1); g.dstream(M).set("est", 1); }
        break; }
    case 31: {
        u64 k = r.below(10);
        if (k < 4) { g.cnew(); for (int i = 0, n = (int)r.range(1, 2); i < n; ++i) g.cstream(300); if (g.p(300)) g.one(0, M); }
        else if (k < 7) { g.dnew(1, 0); for (int i = 0, n = (int)r.range(2, 6); i < n; ++i) { g.done(M, 4); Op& f = g.o->back(); u64 q = r.below(10); if (q < 4) g.corrupt(f); else if (q < 7) { if (g.p(500)) f.set("cut", (i64)r.below(1000000)); else f.set("cut", 1).set("cutb", (i64)r.range(1, 12)); f.a.erase("tr"); } } }
        else if (k < 9) { g.dnew(0, 200); for (int i = 0, n = (int)r.range(1, 2); i < n; ++i) { Op& f = g.dstream(M); u64 q = r.below(10); if (q < 3) g.corrupt(f); else if (q < 5) { f.set("cut", (i64)r.below(1000000)); f.a.erase("tr"); } } }
        else g.add("dfind").set("chunk", g.p(600) ? (i64)(1 << 21) : (i64)r.logu(1, 1 << 21)).set("n", (i64)r.logu(1, 3000)).set("seed", (i64)r.below(1000));
        break; }
    case 32: {      // what the accepted calls made of the parameters
        auto tweak = [&] { int n = (int)r.range(0, 4); for (int i = 0; i < n; ++i) switch (r.below(8)) {
            case 0: case 1: { Op& f = g.add("cbad"); f.set("p", r.range(0, 18)).set("k", g.p(400) ? -(i64)r.logu(1, 4096) : g.p(500) ? r.range(0, 2) : g.p(300) ? ((i64)1 << 32) - r.range(0, 60) : (i64)r.logu(1, (u64)1 << 40)); f.set("via", (i64)r.below(2)); break; }
            case 2: g.add("clevel").set("v", r.range(g.p(300) ? 0 : 1, 10)).set("high", (i64)r.below(2)); if (g.p(700)) g.cparams(); break;
            case 3: if (!g.big) { Op& f = g.add("cset"); f.set("p", 0).set("v", 4096).set("log", r.range(12, 16)); } break;
            case 4: { static const i64 LO[] = {4096, 0, 1, 0, 4, 1, 6, 6, 0, 0}, HI[] = {65536, 14, 16, 4, 14, 64, 254, 273, 1, 2}; i64 p = (i64)r.below(10); if (!g.big || p) g.add("cset").set("p", p).set("v", g.p(500) ? (g.p(500) ? LO[p] : HI[p]) : r.range(LO[p], HI[p])); break; }
            case 5: if (g.p(600)) g.lits(); else g.add("cset").set("p", g.pick({10, 11})).set("v", r.range(0, 4)); break;
            default: g.cparams(); }
            for (auto& o : *g.o) if (o.name == "cset" && g.p(400)) o.set("via", 1); };
        g.cnew(); tweak();
        auto small = [&] { g.add("cset").set("p", 0).set("v", g.big ? 1 << 20 : 4096 << r.below(4)); };
        for (int i = 0, n = (int)r.range(1, 4); i < n; ++i) {
            small(); 
            switch (r.below(6)) {
            case 0: case 1: { size_t a = g.o->size(); g.cstream(150, g.p(700), true, 6000); if (g.p(400)) { std::vector<Op> keep(g.o->begin() + (long)a, g.o->end()); g.o->resize(a + 1); tweak(); g.o->insert(g.o->end(), keep.begin() + 1, keep.end()); } break; }
            case 2: g.one((int)r.below(3), 6000); break;
            case 3: g.cstream(150, false, true, 6000); g.add("ccancel"); break;
            case 4: { size_t a = g.o->size(); g.cstream(100, true, true, 6000); (*g.o)[a + r.below(g.o->size() - a)].set("fa", (i64)r.logu(1, 10)); break; }
            default: g.add("cmisuse").set("seed", (i64)r.below(4)); }
            tweak();
        }
        small(); if (g.p(500)) g.cstream(0, true, true, 6000); else g.one(0, 6000);
        break; }
    default: g.cnew(); g.cstream(100);
    }
    return c;
}
