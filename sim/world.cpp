#include "cobj.h"
#include "dobj.h"
#include <cstdio>
#include <cstring>
#include <sstream>
#include <algorithm>

static std::map<std::string, Lib> libs; static std::map<std::string, Api> apis;
bool load_libs(const std::string& dir) {
    for (const char* n : {"small", "smallasm", "std"}) {
        if (!load_lib(libs[n], dir + "/lib_" + n + ".so")) return false;
        libs[n].name = n; apis[n].load(libs[n]);
    }
    return true;
}
Lib* get_lib(const std::string& n) { auto it = libs.find(n); return it == libs.end() ? nullptr : &it->second; }
Api* get_api(const std::string& n) { auto it = apis.find(n); return it == apis.end() ? nullptr : &it->second; }

std::string hex(const Bytes& b, size_t n) { std::string s; char t[4]; for (size_t i = 0; i < b.size() && i < n; ++i) { snprintf(t, sizeof t, "%02x", b[i]); s += t; } return s; }

// ---- text form -------------------------------------------------------------------------------------
std::string to_text(const Case& c) {
    std::ostringstream s; const SchedCfg& k = c.sched;
    s << "case prop=" << c.prop << " lib=" << c.lib << " fill=" << (int)c.fill << " budget=" << c.budget << "\n";
    s << "sched seed=" << k.seed << " mode=" << k.mode << " psync=" << k.psync << " acc=" << k.acc << " site=" << k.site << " stalls=" << k.stalls << " stallspan=" << k.stallspan
      << " stalllen=" << k.stalllen << " nsps=" << k.nsps << " spur=" << k.spur << " jumps=" << k.jumps << " pctd=" << k.pctd << " pctspan=" << k.pctspan << " race=" << (int)k.race << " explicit=" << (int)k.explicit_ << "\n";
    for (size_t i = 0; i < c.clients.size(); ++i) for (auto& o : c.clients[i]) { s << "op " << i << " " << o.name; for (auto& kv : o.a) s << " " << kv.first << "=" << kv.second; s << "\n"; }
    static const char* N[] = {"switch", "block", "signal", "spurious", "jump"};
    if (k.explicit_) for (auto& d : k.decisions) s << "sw " << N[d.kind] << " fiber=" << d.fiber << " step=" << d.step << " value=" << d.value << "\n";
    return s.str();
}
bool from_text(const std::string& t, Case& c) {
    std::istringstream in(t); std::string line; c = Case();
    while (std::getline(in, line)) {
        std::istringstream l(line); std::string w; l >> w; if (w.empty() || w[0] == '#') continue;
        std::map<std::string, std::string> kv; auto rest = [&] { std::string p; while (l >> p) { size_t e = p.find('='); if (e != std::string::npos) kv[p.substr(0, e)] = p.substr(e + 1); } };
        auto U = [&](const char* n) -> u64 { auto it = kv.find(n); return it == kv.end() ? 0 : strtoull(it->second.c_str(), nullptr, 10); };
        if (w == "case") { rest(); c.prop = kv["prop"]; c.lib = kv["lib"]; c.fill = (u8)U("fill"); c.budget = U("budget"); }
        else if (w == "sched") { rest(); auto& k = c.sched; k.seed = U("seed"); k.mode = (int)U("mode"); k.psync = (u32)U("psync"); k.acc = (u32)U("acc"); k.site = (u32)U("site"); k.stalls = (u32)U("stalls"); k.stallspan = U("stallspan");
            k.stalllen = U("stalllen"); k.nsps = U("nsps"); k.spur = (u32)U("spur"); k.jumps = (u32)U("jumps"); k.pctd = (u32)U("pctd"); k.pctspan = U("pctspan"); k.explicit_ = U("explicit") != 0; k.race = U("race") != 0; }
        else if (w == "op") { size_t i; Op o; l >> i >> o.name; rest(); for (auto& p : kv) o.a[p.first] = strtoll(p.second.c_str(), nullptr, 10); if (c.clients.size() <= i) c.clients.resize(i + 1); c.clients[i].push_back(o); }
        else if (w == "sw") { std::string n; l >> n; rest(); Decision d; d.fiber = (int)U("fiber"); d.step = U("step"); d.value = strtoll(kv["value"].c_str(), nullptr, 10);
            d.kind = n == "switch" ? D_SWITCH : n == "block" ? D_BLOCK : n == "signal" ? D_SIGNAL : n == "spurious" ? D_SPUR : D_JUMP; c.sched.decisions.push_back(d); }
        else if (w == "expect" || w == "stack" || w == "detail") {}
        else return false;
    }
    return true;
}

// ---- thread counts -----------------------------------------------------------------------------------
const unsigned MAX_THREADS = FL2_MAXTHREADS;
// the count of an object created with 0 threads
unsigned World::auto_threads(unsigned got) {
    unsigned m = sim::cpu.sys > 0 ? (unsigned)sim::cpu.sys : 1, ratio = 1; char b[200];
    if (m > MAX_THREADS) m = MAX_THREADS;
    if (got < 1 || got > m) { snprintf(b, sizeof b, "%u threads by default with %d processors", got, sim::cpu.sys); violate("oracle:threads", b); }
    if (probe_faulty) return got;
    if (sim::cpu.sib > 0 && sim::cpu.cores > 0 && sim::cpu.sib > sim::cpu.cores && sim::cpu.cut < 0) ratio = (unsigned)(sim::cpu.sib / sim::cpu.cores);
    if (sim::cpu.cut < 0 && got != std::max(1u, (unsigned)std::max(1, sim::cpu.sys) / ratio)) { snprintf(b, sizeof b, "%u threads by default with %d processors, %d siblings and %d cores", got, sim::cpu.sys, sim::cpu.sib, sim::cpu.cores); violate("oracle:threads", b); }
    if (auto_th && got != auto_th) { snprintf(b, sizeof b, "%u threads by default, an earlier object got %u", got, auto_th); violate("oracle:threads", b); }
    return auto_th = got;
}

// ---- clients -----------------------------------------------------------------------------------------
void run_client(World& w, const std::vector<Op>& ops, int idx) {
    CObj c(w); DObj d(w);
    for (auto& o : ops) {
        trace(0x09 + (u64)idx);
        std::vector<Fault> f;
        if (o.get("fa")) f.push_back({F_ALLOC, (u64)o.get("fa"), (u64)o.get("fac", 1)});
        if (o.get("ft")) f.push_back({F_THREAD, (u64)o.get("ft"), (u64)o.get("ftc", 1)});
        if (o.get("fc")) f.push_back({F_CPUINFO, (u64)o.get("fc"), 1});
        if (!f.empty()) arm_faults(f);
        if (o.name == "ecpu") {} else if (o.name[0] == 'c') c.op(o); else if (o.name[0] == 'd') d.op(o); else if (o.name == "sleep") sleep_steps((u64)o.get("n", 100));
        if (!f.empty()) disarm_faults();
    }
    c.destroy(); d.destroy();
}

static const u64 DEFBUDGET = 60000000;

// ---- reference results: a fresh object, one call, fixed schedule ---------------------------------------
static std::map<std::string, Bytes> refcache;
static const FL2_cParameter PARS[] = { FL2_p_dictionarySize, FL2_p_overlapFraction, FL2_p_resetInterval, FL2_p_bufferResize, FL2_p_hybridChainLog, FL2_p_hybridCycles,
    FL2_p_searchDepth, FL2_p_fastLength, FL2_p_divideAndConquer, FL2_p_strategy, FL2_p_literalCtxBits, FL2_p_literalPosBits, FL2_p_posBits, FL2_p_omitProperties, FL2_p_doXXHash };

size_t bound_for(Lib*, Api&, size_t);
static bool reference(Lib& lib, Api& A, const CRec& r, Bytes& out, Result& res) {
    std::string key = lib.name + (r.oneshot ? "O" : "S") + std::to_string(r.threads) + "," + std::to_string(r.mtapi) + "," + std::to_string(r.level);
    for (size_t p : r.params) key += "," + std::to_string(p);
    key += ":" + std::to_string(xxh32(r.in.data(), r.in.size())) + ":" + std::to_string(r.in.size());
    auto it = refcache.find(key); if (it != refcache.end()) { out = it->second; return true; }
    SchedCfg sc; sc.mode = 2; sc.nsps = 1;
    bool ok = false; Bytes o;
    res = run(lib, sc, 0x5C, 400000000, [&] {
        size_t n = r.in.size(), bound = bound_for(&lib, A, n) + 64; u8* src = buf_alloc(n); memcpy(src, r.in.data(), n); u8* dst = buf_alloc(bound);
        if (r.mtapi) { size_t x = A.compressMt(dst, bound, src, n, r.level, r.threads); if (!A.isError(x)) { o.assign(dst, dst + x); ok = true; } return; }
        FL2_CCtx* c = A.createCCtxMt(r.threads); if (!c) return;
        for (size_t i = 0; i < r.params.size(); ++i) A.CCtx_setParameter(c, PARS[i], r.params[i]);
        if (r.oneshot) { size_t x = A.compressCCtx(c, dst, bound, src, n, 0); if (!A.isError(x)) { o.assign(dst, dst + x); ok = true; } }
        else {
            size_t x = A.initCStream(c, 0);
            if (!A.isError(x)) {
                FL2_inBuffer ib{src, n, 0}; u8* big = buf_alloc(2 * bound + 4096); FL2_outBuffer ob{big, 2 * bound + 4096, 0};
                int guard = 0; do x = A.compressStream(c, &ob, &ib); while (!A.isError(x) && ib.pos < n && ++guard < 100000);
                if (!A.isError(x) && ib.pos == n) { x = A.endStream(c, &ob); if (x == 0) { o.assign(big, big + ob.pos); ok = true; } }
            }
        }
        A.freeCCtx(c);
    });
    if (res.violated || !ok) return false;
    if (refcache.size() > 600) refcache.clear();
    refcache[key] = o; out = o; return true;
}

std::shared_ptr<Stream> fl2_stream_make(const Op& o) {
    auto S = std::make_shared<Stream>();
    S->data = gen_data((size_t)o.get("len"), (int)o.get("kind"), (u64)o.get("dseed")); S->hash = o.get("hash", 1) != 0;
    CRec r; int props = (int)o.get("lclppb", 302);
    size_t d = (size_t)std::max<i64>(4096, o.get("dict", 4096));
    r.params = {d, (size_t)(o.get("sov", 2)), (size_t)o.get("sri", 1), 2, 9, 1, 42, 48, 1, (size_t)o.get("slev", 1), (size_t)(props / 100), (size_t)(props / 10 % 10), (size_t)(props % 10), 0, (size_t)S->hash};
    if (r.params[10] + r.params[11] > 4) r.params[11] = 4 - r.params[10];
    r.threads = (unsigned)o.get("sth", 1); r.oneshot = o.get("ss") == 1; r.in = S->data; r.mtapi = 0; r.level = 0;
    Result res; S->ok = reference(libs["small"], apis["small"], r, S->comp, res);
    return S;
}

extern std::string current_prop; bool wants_reference();
void prepare_case(const Case& c) { for (auto& cl : c.clients) for (auto& o : cl) if (o.a.count("ss")) make_stream(o); }

Outcome exec_case(const Case& c) {
    current_prop = c.prop;
    prepare_case(c);
    Outcome oc; Lib& lib = libs.at(c.lib); Api& A = apis.at(c.lib);
    World w; w.lib = &lib; w.api = &A; w.c = &c; w.has_jumps = c.sched.jumps != 0; w.has_spur = c.sched.spur != 0;
    u64 budget = c.budget ? c.budget : DEFBUDGET;
    oc.r = run(lib, c.sched, c.fill, budget, [&] {
        for (auto& cl : c.clients) for (auto& o : cl) {
            if (o.name == "ecpu") { auto& m = sim::cpu; m.sys = (int)o.get("sys", 4); m.sib = (int)o.get("sib", 4); m.cores = (int)o.get("cores", 2); m.cut = (int)o.get("cut", -1); m.err = (int)o.get("err"); m.missing = o.get("missing") != 0; w.probe_faulty |= m.err || m.missing; }
            w.probe_faulty |= o.get("fc") != 0;
        }
        sim::cpu.unsteady = w.probe_faulty;
        if (c.clients.size() == 1) { run_client(w, c.clients[0], 0); return; }
        std::vector<int> ids;
        for (size_t i = 0; i < c.clients.size(); ++i) ids.push_back(spawn([&w, &c, i] { run_client(w, c.clients[i], (int)i); }));
        for (int i : ids) sim::join(i);
    });
    if (!oc.r.violated) for (auto& r : w.recs) {
        oc.r.hash = oc.r.hash * 0x9FB21C651E98DF25ull ^ xxh32(r.out.data(), r.out.size());
        if (r.flushed || !wants_reference()) continue;
        Bytes ref; Result rr;
        if (!reference(lib, A, r, ref, rr)) { oc.r.violated = true; oc.r.kind = rr.violated ? rr.kind : "oracle:reference"; oc.r.detail = "reference run with a fresh object: " + (rr.violated ? rr.detail : std::string("failed")); break; }
        if (ref != r.out) {
            size_t i = 0; while (i < ref.size() && i < r.out.size() && ref[i] == r.out[i]) ++i;
            oc.r.violated = true; oc.r.kind = "oracle:output-differs";
            char b[200]; snprintf(b, sizeof b, "%s of %zu bytes with %u threads: output (%zu bytes) differs from that of a fresh object on one schedule (%zu bytes), first at %zu", r.where.c_str(), r.in.size(), r.threads, r.out.size(), ref.size(), i);
            oc.r.detail = b; break;
        }
    }
    return oc;
}
