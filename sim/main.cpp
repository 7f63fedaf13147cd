#include "drv.h"
#include <cstdio>
#include <cstring>
#include <fstream>
#include <sstream>
#include <set>
#include <ctime>
#include <sys/personality.h>
#include <unistd.h>
#include <fcntl.h>
#include <algorithm>

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((u8)c < 32) o += ' '; else o += c; } return o; }
static std::string slurp(const char* p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }

static std::string res_json(const Outcome& o) {
    std::ostringstream s; const Result& r = o.r;
    s << "{\"violated\":" << (r.violated ? "true" : "false") << ",\"kind\":\"" << jesc(r.kind) << "\",\"detail\":\"" << jesc(r.detail) << "\",\"hash\":\"" << std::hex << r.hash << std::dec << "\",\"steps\":" << r.st.steps
      << ",\"switches\":" << r.st.switches << ",\"stack\":[";
    for (size_t i = 0; i < r.stack.size(); ++i) s << (i ? "," : "") << "\"" << r.stack[i] << "\"";
    s << "]}"; return s.str();
}

static int minimise(Case c, const std::string& kind, double limit);

int main(int argc, char** argv) {
    if (!getenv("SIM_NOASLR")) {
        if (personality(ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NOASLR", "1", 1); execv("/proc/self/exe", argv); }
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (argc < 2) { fprintf(stderr, "usage\n"); return 2; }
    std::string mode = argv[1];
    std::string dir; { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0; dir = b; dir = dir.substr(0, dir.rfind('/')); }
    sim::init();
    if (!load_libs(dir)) return 3;
    if (mode == "gen") { Case c = gen_case(argv[2], strtoull(argv[3], nullptr, 10), argc > 4); fputs(to_text(c).c_str(), stdout); return 0; }
    if (mode == "run") {       // run FILE
        Case c; if (!from_text(slurp(argv[2]), c)) { fprintf(stderr, "bad case file\n"); return 3; }
        Outcome o = exec_case(c); printf("%s\n", res_json(o).c_str()); return 0;
    }
    if (mode == "min") {       // min FILE KIND SECONDS
        Case c; if (!from_text(slurp(argv[2]), c)) return 3;
        return minimise(c, argv[3], atof(argv[4]));
    }
    if (mode == "work") {      // work PROP BASESEED FIRST STRIDE SECONDS MAXRUNS THOROUGH [det]
        std::string prop = argv[2]; u64 base = strtoull(argv[3], nullptr, 10), first = strtoull(argv[4], nullptr, 10), stride = strtoull(argv[5], nullptr, 10);
        double secs = atof(argv[6]); u64 maxruns = strtoull(argv[7], nullptr, 10); bool tho = atoi(argv[8]) != 0; bool det = argc > 9 && !strcmp(argv[9], "det"); bool keep = argc > 9 && !strcmp(argv[9], "keep");
        double t0 = now(); u64 n = 0; Stats tot; std::set<u64> scheds, hashes; std::vector<u32> pb; u64 nontrivial = 0, inconclusive = 0; u64 libn[3] = {0, 0, 0}; std::string sample; u64 modes[3] = {0,0,0}, raced = 0;
        int curfd = getenv("SIM_CUR") ? open(getenv("SIM_CUR"), O_CREAT | O_WRONLY | O_TRUNC, 0644) : -1;
        for (u64 i = first; n < maxruns && now() - t0 < secs; i += stride, ++n) {
            u64 seed = Rng(base * 1000003ull + i).next();
            if (curfd >= 0) { char b[64]; int k = snprintf(b, sizeof b, "%20llu %20llu\n", (unsigned long long)i, (unsigned long long)seed); if (pwrite(curfd, b, (size_t)k, 0) < 0) {} }
            Case c = gen_case(prop, seed, tho);
            Outcome o = exec_case(c);
            const Stats& s = o.r.st;
            if (det) { Outcome o2 = exec_case(c); printf("DET %llu %llx %s\n", (unsigned long long)i, (unsigned long long)o.r.hash, o2.r.hash == o.r.hash ? "same" : "DIFFERENT"); }
            tot.steps += s.steps; tot.switches += s.switches; tot.preempts += s.preempts; tot.syncops += s.syncops; tot.allocs += s.allocs; tot.threads += s.threads; tot.simns += s.simns;
            tot.f_alloc += s.f_alloc; tot.f_thread += s.f_thread; tot.f_cpuinfo += s.f_cpuinfo; tot.f_spur += s.f_spur; tot.f_jump += s.f_jump; tot.f_jumpback += s.f_jumpback; tot.f_stall += s.f_stall; tot.f_timeout += s.f_timeout; tot.f_startdelay += s.f_startdelay;
            for (int k = 0; k < 64; ++k) tot.probes[k] += s.probes[k];
            libn[c.lib == "small" ? 0 : c.lib == "smallasm" ? 1 : 2]++; modes[c.sched.mode]++; raced += c.sched.race;
            if (s.switches >= 4 || s.f_alloc || s.f_thread || (c.clients.size() == 1 && s.probes[8])) if (hashes.insert(o.r.hash).second) ++nontrivial;
            scheds.insert(o.r.sched_hash);
            if (sample.empty() && s.switches >= 4) sample = to_text(c);
            if (o.r.violated && o.r.kind.substr(0, 4) == "sim-") { ++inconclusive; continue; }
            if (o.r.violated) {
                printf("FOUND {\"index\":%llu,\"seed\":%llu,\"result\":%s,\"case\":\"%s\"}\n", (unsigned long long)i, (unsigned long long)seed, res_json(o).c_str(), jesc(to_text(c)).c_str());
                if (!keep || o.r.kind.substr(0, 5) == "crash" || o.r.kind == "hang") { ++n; break; }
            }
        }
        pairs_dump(pb); size_t pc = pairs_count();
        printf("STATS {\"runs\":%llu,\"wall\":%.3f,\"nontrivial\":%llu,\"inconclusive\":%llu,\"steps\":%llu,\"switches\":%llu,\"preempts\":%llu,\"syncops\":%llu,\"allocs\":%llu,\"threads\":%llu,\"simns\":%llu,"
               "\"alloc_failures\":%llu,\"thread_create_failures\":%llu,\"cpuinfo_failures\":%llu,\"spurious_wakeups\":%llu,\"clock_jumps_forward\":%llu,\"clock_jumps_back\":%llu,\"stalls\":%llu,\"timer_expiries\":%llu,\"thread_start_delays\":%llu,"
               "\"lib_small\":%llu,\"lib_smallasm\":%llu,\"lib_std\":%llu,\"mode_random\":%llu,\"mode_pct\":%llu,\"mode_rr\":%llu,\"raced\":%llu,\"pairs\":%zu,\"probes\":[",
               (unsigned long long)n, now() - t0, (unsigned long long)nontrivial, (unsigned long long)inconclusive, (unsigned long long)tot.steps, (unsigned long long)tot.switches, (unsigned long long)tot.preempts, (unsigned long long)tot.syncops, (unsigned long long)tot.allocs, (unsigned long long)tot.threads, (unsigned long long)tot.simns,
               (unsigned long long)tot.f_alloc, (unsigned long long)tot.f_thread, (unsigned long long)tot.f_cpuinfo, (unsigned long long)tot.f_spur, (unsigned long long)tot.f_jump, (unsigned long long)tot.f_jumpback, (unsigned long long)tot.f_stall, (unsigned long long)tot.f_timeout, (unsigned long long)tot.f_startdelay,
               (unsigned long long)libn[0], (unsigned long long)libn[1], (unsigned long long)libn[2], (unsigned long long)modes[0], (unsigned long long)modes[1], (unsigned long long)modes[2], (unsigned long long)raced, pc);
        for (int k = 0; k < 64; ++k) printf("%s%llu", k ? "," : "", (unsigned long long)tot.probes[k]);
        printf("],\"sample\":\"%s\",\"scheds\":[", jesc(sample).c_str());
        size_t k = 0; for (u64 x : scheds) printf("%s\"%llx\"", k++ ? "," : "", (unsigned long long)x);
        printf("],\"nthashes\":["); k = 0; for (u64 x : hashes) printf("%s\"%llx\"", k++ ? "," : "", (unsigned long long)x);
        if (getenv("SIM_CUR")) { FILE* f = fopen((std::string(getenv("SIM_CUR")) + ".pairs").c_str(), "wb"); if (f) { fwrite(pb.data(), 4, pb.size(), f); fclose(f); } }
        printf("]}\n");
        return 0;
    }
    return 2;
}

// ---- minimisation -----------------------------------------------------------------------------------------
static double deadline; static std::string want; static u64 tries;
static std::string wantd;
static std::string shape(const std::string& d) { std::string o; for (char ch : d) { if (ch == '[') break; if (!(ch >= '0' && ch <= '9')) o += ch; } return o; }
static bool same(const Outcome& o) { return o.r.violated && o.r.kind == want && (want.substr(0, 7) != "oracle:" || shape(o.r.detail) == wantd); }
static bool test(const Case& c) { if (now() > deadline) return false; ++tries; return same(exec_case(c)); }

static bool crash_kind() { return want.substr(0, 5) == "crash" || want == "hang"; }

// tries the case with its own and some other schedule seeds
static bool test_seeds(Case& c, int extra) {
    if (test(c)) return true;
    Case d = c; for (int i = 0; i < extra; ++i) { d.sched.seed = c.sched.seed + 1000003ull * (u64)(i + 1); if (test(d)) { c = d; return true; } if (now() > deadline) break; }
    return false;
}

static int minimise(Case c, const std::string& kind, double limit) {
    want = kind; deadline = now() + limit;
    Outcome o = exec_case(c); wantd = shape(o.r.detail); if (!same(o)) { printf("MINFAIL\n"); return 1; }
    if (!crash_kind()) {
        bool progress = true;
        while (progress && now() < deadline) {
            progress = false;
            // clients
            for (size_t i = 0; i < c.clients.size() && c.clients.size() > 1; ++i) { Case d = c; d.clients.erase(d.clients.begin() + (long)i); if (test_seeds(d, 3)) { c = d; progress = true; break; } }
            // operations
            for (size_t k = 0; k < c.clients.size(); ++k) for (size_t n = c.clients[k].size() / 2 + 1; n >= 1; n /= 2) for (size_t i = 0; i + n <= c.clients[k].size();) {
                Case d = c; d.clients[k].erase(d.clients[k].begin() + (long)i, d.clients[k].begin() + (long)(i + n));
                if (test_seeds(d, 3)) { c = d; progress = true; } else ++i;
                if (now() > deadline) break;
            }
            // schedule features
            auto zero = [&](auto f) { Case d = c; f(d.sched); if (to_text(d) != to_text(c) && test_seeds(d, 2)) { c = d; progress = true; } };
            zero([](SchedCfg& s) { s.spur = 0; }); zero([](SchedCfg& s) { s.jumps = 0; }); zero([](SchedCfg& s) { s.stalls = 0; }); zero([](SchedCfg& s) { s.site = 0; }); zero([](SchedCfg& s) { s.acc = 0; }); zero([](SchedCfg& s) { s.pctd = 0; s.mode = 0; });
            // arguments
            for (size_t k = 0; k < c.clients.size(); ++k) for (size_t i = 0; i < c.clients[k].size(); ++i) {
                std::vector<std::string> keys; for (auto& kv : c.clients[k][i].a) keys.push_back(kv.first);
                for (auto& key : keys) {
                    { Case d = c; d.clients[k][i].a.erase(key); if (test(d)) { c = d; progress = true; continue; } }
                    if (key == "seed" || key == "dseed") continue;
                    for (int it = 0; it < 12; ++it) { i64 v = c.clients[k][i].a[key]; if (v <= 1) break; Case d = c; d.clients[k][i].a[key] = v / 2; if (test(d)) { c = d; progress = true; } else { d.clients[k][i].a[key] = v - v / 4; if (v / 4 && test(d)) { c = d; progress = true; } else break; } }
                    if (now() > deadline) break;
                }
            }
        }
    }
    // explicit schedule
    o = exec_case(c);
    if (same(o) && want != "livelock" && want != "hang" && !c.sched.explicit_ && o.r.recorded.size() < 400000) {
        Case d = c; d.sched.explicit_ = true; d.sched.decisions = o.r.recorded;
        if (now() > deadline - limit * 0.2) deadline = now() + limit * 0.5;
        if (same(exec_case(d))) {
            if (!crash_kind()) {
                Case e = d; e.sched.decisions.clear(); if (test(e)) d = e;
                for (size_t n = std::max<size_t>(1, d.sched.decisions.size() / 2); n >= 1; n /= 2) {
                    for (size_t i = 0; i < d.sched.decisions.size();) {
                        Case e2 = d; size_t m = std::min(n, d.sched.decisions.size() - i); e2.sched.decisions.erase(e2.sched.decisions.begin() + (long)i, e2.sched.decisions.begin() + (long)(i + m));
                        if (test(e2)) d = e2; else i += m;
                        if (now() > deadline) break;
                    }
                    if (now() > deadline) break;
                }
            }
            c = d;
        }
    }
    o = exec_case(c); if (!same(o)) { printf("MINFAIL\n"); return 1; }
    printf("MIN {\"tries\":%llu,\"result\":%s,\"case\":\"%s\"}\n", (unsigned long long)tries, res_json(o).c_str(), jesc(to_text(c)).c_str());
    return 0;
}
