#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <ctime>
#include <dlfcn.h>
#include <link.h>
#include <map>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>

namespace sim {

u64 Rng::logu(u64 a, u64 b) {
    if (b <= a) return a;
    // integer-only log-uniform: choose a bit length, then a value of that length
    int la = 63 - __builtin_clzll(a | 1), lb = 63 - __builtin_clzll(b | 1);
    int l = (int)range(la, lb);
    u64 lo = std::max<u64>(a, 1ull << l), hi = std::min<u64>(b, (l >= 63 ? ~0ull : (2ull << l) - 1));
    if (hi < lo) return a;
    return lo + below(hi - lo + 1);
}

// ------------------------------------------------------------------------------------------------
static const uintptr_t ARENA = 0x200000000000ull;
static const size_t ARENA_SIZE = 1ull << 30;
static const uintptr_t SHADOW = 0x280000000000ull;
static const uintptr_t STACKS = 0x300000000000ull;
static const size_t STK = 256 << 10, STKGAP = 64 << 10;
CpuModel cpu;
static const int MAXF = 512;

enum St { FREE = 0, READY, B_MUTEX, B_COND, B_JOIN, B_SLEEP, DONE };

struct Fiber {
    St st; void* sp; void* (*fn)(void*); void* arg; std::function<void()> body; void* ret;
    bool lib, joined;
    u64 base, in;               // local step count at last switch-in, global step then
    void* waiton; u64 condseq; bool timed; i64 deadline; bool timedout, spurious;
    u64 stall_until; i64 prio; u64 blk_from, blk_max, blk_sum, own_mark;
    u64 wake_step; int joinwho;
    uintptr_t lastpc;
    std::vector<Decision> dec; size_t dcur;   // explicit switches
    int depth; uintptr_t cs[96];
};

static Fiber F[MAXF];
static int nf;                 // highest used + 1
static Fiber* cur; static int curid;
static void* main_sp;
static sigjmp_buf crash_jb; static bool in_run;

static u64 gstep, nxt;         // global step, next step at which slow_event is due
static u64 budget, fairbudget; static bool fair; static u64 fair_next;
static SchedCfg cfg; static Rng rng(1);
static u64 next_acc, next_stall, next_pct; static std::vector<u64> stall_at, pct_at; static size_t stall_i, pct_i;
static i64 low_prio;
static u64 skip_ns; static i64 jump_ns; static u64 jump_count, last_jump_step;
static u64 condseq; static int nowait_timed;
static Result* R; static u64 th, sh;
static int nopre;
static Lib* lib; static uintptr_t libbase;
static u8 fillb;
static uint16_t left_[65536]; static uint16_t* left_init;
static std::vector<Fault> faults; static u64 fcount[F_NKINDS]; static u64 ffired;
static u64 deadmask;
static bool rec;
static std::unordered_map<u64, int> decmap; // explicit: (fiber,kind,step) -> index in cfg.decisions
static std::vector<uint32_t> pairbits;     // bitmap of seen (out pc,in pc) pairs hashed to 2^23
static std::function<void(size_t)> alloc_hook;

static inline void mix(u64& h, u64 v) { h ^= v; h *= 0x9FB21C651E98DF25ull; h ^= h >> 32; }
static const i64 EPOCH = 1700000000ll * 1000000000ll;
static inline u64 mono() { return gstep * cfg.nsps + skip_ns; }
static inline i64 realtime() { return EPOCH + (i64)mono() + jump_ns; }

[[noreturn]] static void finish_violation();
[[noreturn]] void violate(const std::string& kind, const std::string& detail) {
    if (!R->violated) {
        R->violated = true; R->kind = kind; R->detail = detail;
        char b[200];
        if (cur) {
            snprintf(b, sizeof b, " [fiber %d step %llu]", curid, (unsigned long long)gstep); R->detail += b;
            for (int i = std::min(cur->depth, 96) - 1; i >= 0 && i > cur->depth - 12; --i) {
                snprintf(b, sizeof b, "%lx", (unsigned long)(cur->cs[i] - libbase)); R->stack.push_back(b);
            }
        }
        mix(th, 0xDEAD);
    }
    finish_violation();
}
static void vf(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
static void vf(const char* kind, const char* fmt, ...) {
    char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    violate(kind, b);
}

// ---- happens-before -------------------------------------------------------------------------------
// Vector clocks over locks, thread start and end, and atomics; for every eight bytes the last write and the last read.
static bool race_on; static const bool race_log = getenv("SIM_RACE_LOG") != nullptr;
struct Cell { u32 we, re, wp, rp; u8 wm, rm, bulk; };      // for eight bytes: last write and last read (thread and epoch, place, bytes)
static Cell* const CELLS = (Cell*)0x400000000000ull;
static const size_t RACE_MAX = 96u << 20, STATIC_OFF = ARENA_SIZE;                                // the library's static data follows the arena
typedef std::vector<u32> VC;
static VC vc[MAXF]; static std::unordered_map<uintptr_t, VC> syncvc;
// what a thread knew at the end of each of its epochs (kept only where it changed): a plain scalar in the library's own
// memory that another thread wrote is a flag, and whoever reads it learns what its writer knew (total store order)
static std::vector<std::pair<u32, VC>> hist[MAXF]; static bool dirty[MAXF];
static const u32 CLK = (1u << 23) - 1;
static inline void vjoin(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); ++i) if (b[i] > a[i]) a[i] = b[i]; }
static inline VC& myvc() { VC& v = vc[curid]; if (v.size() <= (size_t)curid) v.resize((size_t)curid + 1, 1); return v; }
static void hb_acquire(uintptr_t k) { if (!race_on) return; auto it = syncvc.find(k); if (it != syncvc.end()) { myvc(); vjoin(vc[curid], it->second); dirty[curid] = true; } }
static inline void epoch_end(int i) { VC& v = vc[i]; if (dirty[i]) { if (hist[i].size() < 200000) hist[i].push_back({v[(size_t)i], v}); else race_on = false; dirty[i] = false; } if (++v[(size_t)i] >= CLK) race_on = false; }
static void hb_flag(u32 e) { int t = (int)(e >> 23); u32 c = e & CLK; auto& h = hist[t];
    auto it = std::lower_bound(h.begin(), h.end(), c, [](const std::pair<u32, VC>& a, u32 c) { return a.first < c; });
    VC& v = myvc(); const VC& s = it == h.end() ? vc[t] : it->second; u32 own = t < (int)v.size() ? v[(size_t)t] : 0;
    vjoin(v, s); v[(size_t)t] = std::max(own, c); dirty[curid] = true; }
static void hb_release(uintptr_t k) { if (!race_on) return; VC& v = myvc(); vjoin(syncvc[k], v); epoch_end(curid); }
static void hb_start(int child) { if (!race_on) return; VC& v = myvc(); u32 own = vc[child].size() > (size_t)child ? vc[child][(size_t)child] : 0; VC n = v; if (n.size() <= (size_t)child) n.resize((size_t)child + 1, 0); n[(size_t)child] = own + 1; vc[child] = n; dirty[child] = true; epoch_end(curid); }
static void hb_end(int child) { if (!race_on) return; vjoin(myvc(), vc[child]); dirty[curid] = true; }
static void race_report(size_t o, bool w, bool prevw, u32 prev, uintptr_t pc);
static inline bool race_caller(size_t o);
// Unordered scalar accesses to static data are reported only when somebody could see two different values there (a cache
// which every thread fills with the same value is harmless): from the first such access on the value, once set, must not change.
struct Watch { u8 mask; u64 val; u32 by; uintptr_t pc; bool w, prevw; }; static std::map<size_t, Watch> watches;
static u64 cell_value(size_t g, u8 mask); static void watch_check(bool end);
static void watch(size_t o, u8 mask, bool w, bool prevw, u32 prev, uintptr_t pc) { size_t g = o >> 3; if (!watches.count(g)) watches[g] = {mask, cell_value(g, mask), prev, pc, w, prevw}; }
static inline bool unordered(u32 e, const VC& v) { return e && (e >> 23) != (u32)curid && (e & CLK) > ((e >> 23) < v.size() ? v[e >> 23] : 0); }
static void race_access(size_t o, size_t n, bool w, uintptr_t pc, bool bulk) {
    const VC& v = myvc(); u32 const me = ((u32)curid << 23) | v[(size_t)curid];
    bulk = bulk && n >= 40;
    if (o >= ARENA_SIZE && !watches.empty()) watch_check(false);
    for (size_t i = o, e = o + n; i < e;) {
        size_t g = i >> 3, m = std::min(e, (g + 1) << 3); Cell& c = CELLS[g];
        u8 const mask = (u8)(((1u << (m - i)) - 1) << (i & 7));
        if (c.we != me && (c.wm & mask) && unordered(c.we, v)) {
            if (i >= ARENA_SIZE && !bulk && !c.bulk) watch(i, mask, w, true, c.we, pc);
            else if (bulk || c.bulk || race_caller(i)) race_report(i, w, true, c.we, pc);
            else if (!w) hb_flag(c.we);
        }
        if (w) {
            if (c.re != me && (c.rm & mask) && unordered(c.re, v)) { if (i >= ARENA_SIZE && !bulk) watch(i, mask, w, false, c.re, pc); else if (bulk || race_caller(i)) race_report(i, w, false, c.re, pc); }
            if (c.we == me) c.wm |= mask; else { c.we = me; c.wm = mask; } c.bulk = bulk; c.wp = (u32)(pc - libbase);
        }
        else { if (c.re == me) c.rm |= mask; else { c.re = me; c.rm = mask; } c.rp = (u32)(pc - libbase); }
        i = m;
    }
}

// ---- fiber switching -----------------------------------------------------------------------------
extern "C" void sim_ctx_switch(void** save, void* to);
asm(R"(
.text
.globl sim_ctx_switch
.type sim_ctx_switch,@function
sim_ctx_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_ctx_switch,.-sim_ctx_switch
)");

static void finish_violation() { void* dummy; static void* d2; (void)dummy; in_run = false; sim_ctx_switch(&d2, main_sp); __builtin_unreachable(); }

static void recompute();
static void pick_and_block();

static void fiber_main() {
    Fiber* f = cur; int id = curid;
    if (f->fn) f->ret = f->fn(f->arg); else f->body();
    f->st = DONE;
    if (id == 0) { static void* d; in_run = false; sim_ctx_switch(&d, main_sp); }
    for (int i = 0; i < nf; ++i) if (F[i].st == B_JOIN && F[i].joinwho == id) F[i].st = READY;
    pick_and_block();
    abort();
}

static void* stack_top(int i) { return (void*)(STACKS + (STK + STKGAP) * (size_t)i + STKGAP + STK); }

static void setup_fiber(int i) {
    Fiber& f = F[i];
    memset((char*)stack_top(i) - 49152, fillb, 49152);
    void** sp = (void**)stack_top(i);
    *--sp = nullptr;                           // a null return address (keeps the ABI alignment)
    *--sp = (void*)fiber_main;
    for (int k = 0; k < 6; ++k) *--sp = nullptr;
    f.sp = sp; f.base = 0; f.in = 0; f.st = READY; f.stall_until = 0; f.timed = false; f.dcur = 0; f.depth = 0;
    f.waiton = nullptr; f.lastpc = 0; f.joined = false; f.ret = nullptr; f.timedout = f.spurious = false;
    f.prio = (i64)(rng.next() >> 8); f.wake_step = 0; f.blk_from = f.blk_max = f.blk_sum = f.own_mark = 0;
    f.dec.clear();
    if (cfg.explicit_) for (auto& d : cfg.decisions) if (d.fiber == i && d.kind == D_SWITCH) f.dec.push_back(d);
    std::sort(f.dec.begin(), f.dec.end(), [](const Decision& a, const Decision& b) { return a.step < b.step; });
}

static inline u64 lstep() { return cur->base + (gstep - cur->in); }

static void pair_seen(uintptr_t a, uintptr_t b) {
    u64 h = (a - libbase) * 0x9E3779B97F4A7C15ull ^ (b - libbase) * 0xC2B2AE3D27D4EB4Full; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull;
    u32 k = (u32)(h >> 41); pairbits[k >> 5] |= 1u << (k & 31);
}

static void switch_to(int id) {
    if (id == curid) return;
    Fiber* from = cur;
    from->base = lstep();
    ++R->st.switches;
    mix(sh, ((u64)curid << 56) ^ from->base ^ ((u64)id << 48)); mix(th, sh);
    pair_seen(from->lastpc, F[id].lastpc);
    cur = &F[id]; curid = id; cur->in = gstep;
    recompute();
    sim_ctx_switch(&from->sp, cur->sp);
    // resumed
}

static inline bool ready(int i) { return F[i].st == READY; }

static int default_next() {       // cyclic order after the current one
    for (int k = 1; k <= nf; ++k) { int i = (curid + k) % nf; if (ready(i)) return i; }
    return -1;
}

static int choose(bool excl_cur) {  // policy choice among the ready ones, not stalled ones if possible
    int cand[MAXF], n = 0, all[MAXF], m = 0;
    for (int i = 0; i < nf; ++i) if (ready(i) && !(excl_cur && i == curid)) {
        all[m++] = i; if (fair || F[i].stall_until <= gstep) cand[n++] = i;
    }
    if (!m) return -1;
    int* c = cand; if (!n) {
        c = all; n = m;
    }
    if (fair || cfg.mode == 2) { for (int k = 1; k <= nf; ++k) { int i = (curid + k) % nf; for (int j = 0; j < n; ++j) if (c[j] == i) return i; } }
    if (cfg.mode == 1) { int b = c[0]; for (int j = 1; j < n; ++j) if (F[c[j]].prio > F[b].prio) b = c[j]; return b; }
    return c[rng.below((u64)n)];
}

static void record(int kind, i64 v) { if (rec) R->recorded.push_back({curid, lstep(), kind, v}); }
static u64 dkey(int f, int kind, u64 step) { return ((u64)f << 52) ^ ((u64)kind << 48) ^ step; }
static bool lookup(int kind, i64& v) {
    auto it = decmap.find(dkey(curid, kind, lstep())); if (it == decmap.end()) return false;
    v = cfg.decisions[(size_t)it->second].value; return true;
}

// a fiber blocked on a condition becomes ready
static inline void wake(Fiber& f) { f.st = READY; f.timed = false; u64 d = mono() - f.blk_from; if (d > f.blk_max) f.blk_max = d; f.blk_sum += d; }

static int fire_timers() {
    int n = 0; i64 rt = realtime();
    for (int i = 0; i < nf; ++i) {
        if (F[i].st == B_COND && F[i].timed && rt >= F[i].deadline) { wake(F[i]); F[i].timedout = true; ++n; ++R->st.f_timeout; }
        if (F[i].st == B_SLEEP && gstep >= F[i].wake_step) { F[i].st = READY; ++n; }
    }
    return n;
}

static void recompute() {
    u64 n = fair ? fairbudget : budget;
    if (fair) n = std::min(n, fair_next);
    else if (cfg.explicit_) {
        u64 l = lstep();
        while (cur->dcur < cur->dec.size() && cur->dec[cur->dcur].step <= l) ++cur->dcur;
        if (cur->dcur < cur->dec.size()) n = std::min(n, gstep + (cur->dec[cur->dcur].step - l));
    } else {
        n = std::min(n, next_acc);
        if (stall_i < stall_at.size()) n = std::min(n, stall_at[stall_i]);
        if (pct_i < pct_at.size()) n = std::min(n, pct_at[pct_i]);
    }
    i64 rt = realtime();
    for (int i = 0; i < nf; ++i) {
        if (F[i].st == B_COND && F[i].timed) {
            u64 d = F[i].deadline <= rt ? 1 : (u64)(F[i].deadline - rt) / cfg.nsps + 1; n = std::min(n, gstep + d);
        }
        if (F[i].st == B_SLEEP) n = std::min(n, std::max(F[i].wake_step, gstep + 1));
    }
    nxt = std::max(n, gstep + 1);
}

static void preempt_to(int t) {
    if (t < 0 || t == curid) return;
    record(D_SWITCH, t); ++R->st.preempts;
    switch_to(t);
}

static void fail_deadlock() {
    std::string s;
    for (int i = 0; i < nf; ++i) if (F[i].st != FREE && F[i].st != DONE) {
        char b[160]; const char* w = F[i].st == B_MUTEX ? "mutex" : F[i].st == B_COND ? "condition" : F[i].st == B_JOIN ? "join" : "?";
        int who = F[i].st == B_MUTEX ? *((int*)F[i].waiton + 1) : F[i].joinwho;
        snprintf(b, sizeof b, "fiber %d waits for %s", i, w); s += b;
        if (F[i].st != B_COND) { snprintf(b, sizeof b, " (of fiber %d)", who); s += b; }
        s += "; ";
    }
    vf("deadlock", "no thread can run: %s", s.c_str());
}

// the current fiber cannot go on (its state is not READY): choose another
static void pick_and_block() {
    fire_timers();
    int n;
    for (;;) {
        i64 v;
        if (cfg.explicit_ && !fair) {
            n = default_next();
            if (lookup(D_BLOCK, v) && v >= 0 && v < nf && ready((int)v)) n = (int)v;
        } else {
            n = choose(false);
            if (n >= 0 && n != default_next()) record(D_BLOCK, n);
        }
        if (n >= 0) break;
        // idle: advance the clock to the next deadline
        i64 best = INT64_MAX; u64 wk = ~0ull; i64 rt = realtime();
        for (int i = 0; i < nf; ++i) {
            if (F[i].st == B_COND && F[i].timed) best = std::min(best, F[i].deadline);
            if (F[i].st == B_SLEEP) wk = std::min(wk, F[i].wake_step);
        }
        if (wk != ~0ull) { if (wk > gstep) { cur->base = lstep(); u64 d = wk - gstep; if (best != INT64_MAX) d = std::min(d, best > rt ? (u64)(best - rt) / cfg.nsps + 1 : 1); gstep += d; cur->in = gstep; } }
        else if (best != INT64_MAX) { if (best > rt) skip_ns += (u64)(best - rt); }
        else fail_deadlock();
        fire_timers();
    }
    if (F[n].stall_until > gstep) F[n].stall_until = 0;  // nothing else could run: the stall ends
    if (n == curid) { recompute(); return; }
    switch_to(n);
}

static void slow_event() {
    fire_timers();
    if (fair) {
        if (gstep >= fairbudget) vf("livelock", "no completion within the step budget under a fair schedule without faults");
        if (gstep >= fair_next) { fair_next = gstep + 3000; if (!nopre) { int t = choose(true); if (t >= 0) { ++R->st.preempts; recompute(); switch_to(t); } } }
        recompute(); return;
    }
    if (gstep >= budget) { fair = true; fairbudget = gstep + std::max<u64>(budget * 4, budget < 50000000 ? 300000000 : 2000000000); fair_next = gstep + 3000; recompute(); return; }
    if (cfg.explicit_) {
        u64 l = lstep();
        while (cur->dcur < cur->dec.size() && cur->dec[cur->dcur].step < l) ++cur->dcur;
        if (cur->dcur < cur->dec.size() && cur->dec[cur->dcur].step == l) {
            int t = (int)cur->dec[cur->dcur].value; ++cur->dcur;
            if (!nopre && t >= 0 && t < nf && ready(t)) { preempt_to(t); }
        }
        recompute(); return;
    }
    bool want = false;
    if (gstep >= next_acc) { next_acc = gstep + 1 + rng.below(2ull * cfg.acc); want = true; }
    if (stall_i < stall_at.size() && gstep >= stall_at[stall_i]) {
        ++stall_i; ++R->st.f_stall; cur->stall_until = cfg.stalllen ? gstep + cfg.stalllen : ~0ull; want = true;
    }
    if (pct_i < pct_at.size() && gstep >= pct_at[pct_i]) { ++pct_i; cur->prio = --low_prio; want = true; }
    if (want && !nopre) { int t = choose(cfg.mode != 1 || cur->stall_until > gstep); if (t >= 0) preempt_to(t); }
    recompute();
}

static void site_event(u32 h) {
    if (fair || cfg.explicit_ || !cfg.site) { left_[h] = 0; return; }
    // next consideration is geometrically further away
    u32 seen = left_init[h] = (uint16_t)std::min<u32>(30000, left_init[h] * 2u + 1);
    left_[h] = (uint16_t)(1 + rng.below(seen));
    if (nopre || !rng.chance(cfg.site)) return;
    int t = choose(true);
    if (t >= 0) { if (cfg.mode == 1) cur->prio = --low_prio; preempt_to(t); }
}

// a synchronisation operation
static void sync_point(u32 op, uintptr_t pc) {
    if (!in_run) return;
    ++gstep; ++R->st.syncops; cur->lastpc = pc;
    mix(th, ((u64)op << 32) ^ (u64)curid);
    if (cfg.spur && !fair && !cfg.explicit_) {
        if (rng.chance(cfg.spur)) {
            int w[MAXF], n = 0; for (int i = 0; i < nf; ++i) if (F[i].st == B_COND) w[n++] = i;
            if (n) { int i = w[rng.below((u64)n)]; wake(F[i]); F[i].spurious = true; ++R->st.f_spur; record(D_SPUR, i); }
        }
    } else if (cfg.explicit_ && !fair) {
        i64 v; if (lookup(D_SPUR, v) && v >= 0 && v < nf && F[v].st == B_COND) { wake(F[v]); F[v].spurious = true; ++R->st.f_spur; }
    }
    if (gstep >= nxt) slow_event();
    else if (!fair && !cfg.explicit_ && !nopre) {
        if (cfg.mode == 1) { int t = choose(false); if (t >= 0 && t != curid && F[t].prio > cur->prio) preempt_to(t); }
        else if (cfg.psync && rng.chance(cfg.psync)) { int t = choose(true); if (t >= 0) preempt_to(t); }
    }
}

// ---- arena heap ------------------------------------------------------------------------------------
struct Block { size_t off, n, total; bool freed, driver; u64 id; };
static std::vector<Block> blocks; static std::unordered_map<size_t, size_t> byoff;
static size_t bump, bump_high; static u64 live_b, live_n, peak_b;
static std::vector<size_t> recyc; static size_t recyc_i;
static u8* const sh_ = (u8*)SHADOW;

static inline void sh_set(size_t off, size_t n, u8 v) { memset(sh_ + (off >> 3), v, (n + 7) >> 3); }
static void sh_open(size_t off, size_t n, bool ro) {
    memset(sh_ + (off >> 3), ro ? 0x88 : 0, n >> 3);
    if (n & 7) sh_[(off + n) >> 3] = (u8)((ro ? 0x80 : 0) | (n & 7));
}

static u8* arena_alloc(size_t n, bool driver, size_t align = 16) {
    size_t need = ((n + 15) & ~(size_t)15) + 64;
    size_t off = (bump + 32 + align - 1) & ~(align - 1);
    if (off + need > ARENA_SIZE) return nullptr;
    bump = off + need;
    if (bump > bump_high) {
        // fresh region: mark as red zone
        size_t a = bump_high & ~(size_t)7; memset(sh_ + (a >> 3), 0xF0, ((bump - a) >> 3) + 8); bump_high = bump;
    }
    u8* p = (u8*)ARENA + off;
    size_t pre = blocks.empty() ? 0 : blocks.back().off + blocks.back().total;
    memset((u8*)ARENA + pre, 0xCB, off - pre);
    sh_set(pre, off - pre, 0xF0);
    memset(p + n, 0xCB, need - n);
    sh_set(off, need, 0xF0);
    sh_open(off, n, false);
    if (n) memset(p, fillb, n);
    byoff[off] = blocks.size();
    blocks.push_back({off, n, need, false, driver, (u64)blocks.size()});
    if (!driver) { live_b += n; ++live_n; peak_b = std::max(peak_b, live_b); }
    return p;
}

static bool zones_ok(const Block& b) {
    const u8* p = (u8*)ARENA + b.off;
    for (size_t i = 1; i <= 16; ++i) if (*(p - i) != 0xCB) return false;
    for (size_t i = b.n; i < b.total; ++i) if (p[i] != 0xCB) return false;
    if (b.freed) { for (size_t i = 0; i < b.n && i < 4096; ++i) if (p[i] != 0xCB) return false; }
    return true;
}

static Block* find_block(void* p) {
    uintptr_t a = (uintptr_t)p; if (a < ARENA || a >= ARENA + ARENA_SIZE) return nullptr;
    auto it = byoff.find(a - ARENA); return it == byoff.end() ? nullptr : &blocks[it->second];
}
static Block* containing(uintptr_t a) {
    size_t off = a - ARENA; Block* best = nullptr;
    size_t lo = 0, hi = blocks.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (blocks[m].off <= off + 32) { lo = m + 1; best = &blocks[m]; } else hi = m; }
    if (best && best->off > off && lo >= 2) { Block* p = &blocks[lo - 2]; if (off < p->off + p->n + 32) best = p; }
    return best;
}

static void arena_free(Block* b, bool driver) {
    u8* p = (u8*)ARENA + b->off;
    if (!zones_ok(*b)) vf("heap-overflow-write", "bytes around a %zu byte block were overwritten", b->n);
    b->freed = true;
    sh_set(b->off, b->n ? b->n : 1, 0xF1);
    memset(p, 0xCB, b->n);
    if (!driver) { live_b -= b->n; --live_n; }
}

static inline size_t race_off(uintptr_t a) { if (a - ARENA < RACE_MAX) return a - ARENA; if (a - libbase < lib->end - lib->base) return STATIC_OFF + (a - libbase); return 0; }
static inline bool race_caller(size_t o) { if (o >= ARENA_SIZE) return true; Block* b = containing(ARENA + o); return b && b->driver; }
static std::map<std::string, int> race_seen;
static void race_report(size_t o, bool w, bool prevw, u32 prev, uintptr_t pc) {
    Block* b = o < ARENA_SIZE ? containing(ARENA + o) : nullptr; char d[300];
    if (race_log) {
        snprintf(d, sizeof d, "RACE %s %s %lx after %s %x %s %zu+%zu", lib->name.c_str(), w ? "w" : "r", (unsigned long)(pc - libbase), prevw ? "w" : "r", prevw ? CELLS[o >> 3].wp : CELLS[o >> 3].rp, b ? b->driver ? "caller" : "block" : "static", b ? b->n : 0, b ? o - b->off : o - STATIC_OFF);
        if (!race_seen[d]++) fprintf(stderr, "%s\n", d);
        return;
    }
    size_t at = b ? o - b->off : o - STATIC_OFF; u32 pp = prevw ? CELLS[o >> 3].wp : CELLS[o >> 3].rp;
    cur->lastpc = pc; if (pc > libbase + 16 && cur->depth < 96) cur->cs[cur->depth++] = pc;
    const char* now = pc <= libbase + 16 ? b && b->driver ? "release" : "free" : w ? "write" : "read";
    vf(w ? "race-write" : "race-read", "%s not ordered after the %s by thread %u: byte %zu of %s%s (pc %lx, earlier pc %x)", now, pp <= 16 ? "release" : prevw ? "write" : "read", prev >> 23, at,
       b ? b->driver ? "a caller's " : "a library block of " : "static data", b ? (std::to_string(b->n) + " bytes").c_str() : "", (unsigned long)(pc - libbase), pp);
}

static u64 cell_value(size_t g, u8 mask) { u64 x; memcpy(&x, (void*)(libbase + ((g << 3) - STATIC_OFF)), 8); u64 m = 0; for (int i = 0; i < 8; ++i) if (mask >> i & 1) m |= 0xFFull << (8 * i); return x & m; }
static void watch_check(bool end) {
    for (auto& q : watches) { Watch& k = q.second; u64 x = cell_value(q.first, k.mask);
        if (k.val && x != k.val && !race_log && !cpu.unsteady) {
            if (end) { R->violated = true; R->kind = k.w ? "race-write" : "race-read"; char b[200]; snprintf(b, sizeof b, "static data at %zx is changed from %llx to %llx without order (pc %lx)", (q.first << 3) - STATIC_OFF, (unsigned long long)k.val, (unsigned long long)x, (unsigned long)(k.pc - libbase)); R->detail = b; return; }
            race_report(q.first << 3, k.w, k.prevw, k.by, k.pc);
        }
        if (!k.val) k.val = x;
    }
}

[[noreturn]] static void bad_access(uintptr_t a, size_t n, bool w, uintptr_t pc) {
    u8 s = sh_[(a - ARENA) >> 3], s2 = sh_[(a + n - 1 - ARENA) >> 3];
    Block* b = containing(a);
    const char* k = "heap-overflow"; if (s == 0xF1 || s2 == 0xF1) k = "use-after-free";
    else if (w && ((s >= 0x81 && s <= 0x88) || (s2 >= 0x81 && s2 <= 0x88))) k = "readonly";
    else if (s == 0xF2 || s2 == 0xF2) k = "revoked-buffer";
    char kind[64]; snprintf(kind, sizeof kind, "%s-%s", k, w ? "write" : "read");
    cur->lastpc = pc;
    if (cur->depth < 96) cur->cs[cur->depth++] = pc;
    vf(kind, "%s of %zu bytes at offset %lld of a %zu byte %s block%s (pc %lx)", w ? "write" : "read", n,
       b ? (long long)(a - ARENA) - (long long)b->off : -1ll, b ? b->n : 0, b && b->driver ? "caller" : "library", b && b->freed ? " (freed)" : "",
       (unsigned long)(pc - libbase));
}

static bool slow_check(uintptr_t a, size_t n, bool w) { // true = fine
    for (size_t i = 0; i < n;) {
        uintptr_t x = a + i; if (x < ARENA || x >= ARENA + ARENA_SIZE) return true;
        u8 s = sh_[(x - ARENA) >> 3]; unsigned o = x & 7; size_t m = std::min<size_t>(8 - o, n - i);
        if (s) {
            if (s < 8) { if (o + m > s) return false; }
            else if (s >= 0x81 && s <= 0x88) { if (w || o + m > (size_t)(s & 0xF)) return false; }
            else return false;
        }
        i += m;
    }
    return true;
}

static inline void check_range(const void* p, size_t n, bool w, uintptr_t pc);
static inline void check_sync(const void* p, size_t n, bool w, uintptr_t pc) { bool r = race_on; race_on = false; check_range(p, n, w, pc); race_on = r; }
static inline void check_range(const void* p, size_t n, bool w, uintptr_t pc) {
    uintptr_t a = (uintptr_t)p;
    if (race_on && n) { size_t o = race_off(a); if (o) race_access(o, n, w, pc, true); }
    if (!n || a - ARENA >= ARENA_SIZE) { if (n && a < 4096) vf(w ? "null-write" : "null-read", "access to address %lx (pc %lx)", (unsigned long)a, (unsigned long)(pc - libbase)); return; }
    if (!slow_check(a, n, w)) bad_access(a, n, w, pc);
}

static inline __attribute__((always_inline)) void on_access(void* p, size_t n, bool w, uintptr_t pc) {
    uintptr_t a = (uintptr_t)p, o = a - ARENA;
    if (o < ARENA_SIZE) {
        if (__builtin_expect(sh_[o >> 3] | sh_[(o + n - 1) >> 3], 0)) { if (!slow_check(a, n, w)) bad_access(a, n, w, pc); }
    }
    if (__builtin_expect(race_on, 0)) { size_t r = race_off(a); if (r) race_access(r, n, w, pc, false); }
    ++gstep;
    u32 h = (u32)(pc - libbase) & 0xFFFF;
    if (__builtin_expect(--left_[h] == 0, 0)) { cur->lastpc = pc; site_event(h); }
    if (__builtin_expect(gstep >= nxt, 0)) { cur->lastpc = pc; slow_event(); }
}

} // namespace sim
using namespace sim;
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) { if (!in_run) return; if (cur->depth < 96) cur->cs[cur->depth] = PC; ++cur->depth; }
void __tsan_func_exit() { if (in_run && cur->depth) --cur->depth; }
#define RW(n) \
 void __tsan_read##n(void* p) { on_access(p, n, false, PC); } \
 void __tsan_write##n(void* p) { on_access(p, n, true, PC); }
#define URW(n) \
 void __tsan_unaligned_read##n(void* p) { on_access(p, n, false, PC); } \
 void __tsan_unaligned_write##n(void* p) { on_access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16) URW(2) URW(4) URW(8) URW(16)
#define VRW(n) \
 void __tsan_volatile_read##n(void* p) { on_access(p, n, false, PC); } \
 void __tsan_volatile_write##n(void* p) { on_access(p, n, true, PC); }
VRW(1) VRW(2) VRW(4) VRW(8) VRW(16)
void __tsan_read_range(void* p, unsigned long n) { check_range(p, n, false, PC); on_access(p, 1, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { check_range(p, n, true, PC); on_access(p, 1, true, PC); }
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
static void hb_atomic(uintptr_t p) { hb_acquire(p); hb_release(p); }
#define AT(bits, T) \
 T __tsan_atomic##bits##_load(const volatile T* p, int) { check_sync((void*)p, sizeof(T), false, PC); sync_point(1, PC); hb_atomic((uintptr_t)p); return *p; } \
 void __tsan_atomic##bits##_store(volatile T* p, T v, int) { check_sync((void*)p, sizeof(T), true, PC); sync_point(2, PC); hb_atomic((uintptr_t)p); *p = v; } \
 T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { check_sync((void*)p, sizeof(T), true, PC); sync_point(3, PC); hb_atomic((uintptr_t)p); T o = *p; *p = v; return o; } \
 T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { check_sync((void*)p, sizeof(T), true, PC); sync_point(4, PC); hb_atomic((uintptr_t)p); T o = *p; *p = (T)(o + v); return o; } \
 T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { check_sync((void*)p, sizeof(T), true, PC); sync_point(5, PC); hb_atomic((uintptr_t)p); T o = *p; *p = (T)(o - v); return o; } \
 T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { check_sync((void*)p, sizeof(T), true, PC); sync_point(6, PC); hb_atomic((uintptr_t)p); T o = *p; *p = (T)(o & v); return o; } \
 T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { check_sync((void*)p, sizeof(T), true, PC); sync_point(7, PC); hb_atomic((uintptr_t)p); T o = *p; *p = (T)(o | v); return o; } \
 T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { check_sync((void*)p, sizeof(T), true, PC); sync_point(8, PC); hb_atomic((uintptr_t)p); T o = *p; *p = (T)(o ^ v); return o; } \
 T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int) { check_sync((void*)p, sizeof(T), true, PC); sync_point(8, PC); hb_atomic((uintptr_t)p); T o = *p; *p = (T)~(o & v); return o; } \
 int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { check_sync((void*)p, sizeof(T), true, PC); sync_point(9, PC); hb_atomic((uintptr_t)p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
 int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { check_sync((void*)p, sizeof(T), true, PC); sync_point(10, PC); hb_atomic((uintptr_t)p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
 T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int, int) { check_sync((void*)p, sizeof(T), true, PC); sync_point(10, PC); hb_atomic((uintptr_t)p); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (in_run) { sync_point(11, PC); hb_atomic(1); } }
void __tsan_atomic_signal_fence(int) {}

// ---- malloc family ---------------------------------------------------------------------------------
static bool fault_hit(int kind) {
    ++fcount[kind];
    for (auto& f : faults) if (f.kind == kind && fcount[kind] >= f.nth && fcount[kind] - f.nth < f.count) {
        ++ffired; mix(th, 0xFA17 + (u64)kind * 131 + fcount[kind]); return true; }
    return false;
}
static void* do_alloc(size_t n, size_t align, bool zero) {
    ++R->st.allocs; mix(th, 0xA110C ^ n);
    if (fault_hit(F_ALLOC)) { ++R->st.f_alloc; return nullptr; }
    u8* p = n <= (64u << 20) ? arena_alloc(n, false, align) : nullptr;   // the simulated machine has no larger blocks
    if (!p) { probe(63); ++ffired; return nullptr; }
    if (zero) memset(p, 0, n);
    if (alloc_hook) alloc_hook(n);
    return p;
}
void* sim_malloc(size_t n) { sync_point(20, PC); return do_alloc(n, 16, false); }
void* sim_calloc(size_t a, size_t b) { sync_point(21, PC); if (b && a > SIZE_MAX / b) return nullptr; return do_alloc(a * b, 16, true); }
static void free_checked(void* p, const char* who) {
    Block* b = find_block(p);
    if (!b || b->driver) vf("bad-free", "%s of a pointer that was not allocated", who);
    if (b->freed) vf("double-free", "%s of a %zu byte block already freed", who, b->n);
    if (race_on && b->off + b->n <= RACE_MAX) race_access(b->off, b->n, true, libbase + 1, true);
    arena_free(b, false);
}
void sim_free(void* p) { sync_point(22, PC); if (p) free_checked(p, "free"); }
void* sim_realloc(void* p, size_t n) {
    sync_point(23, PC);
    if (!p) return do_alloc(n, 16, false);
    Block* b = find_block(p); if (!b || b->driver || b->freed) vf("bad-free", "realloc of a pointer that is not live");
    size_t old = b->n; void* q = do_alloc(n, 16, false); if (!q) return nullptr;
    memcpy(q, p, std::min(old, n)); free_checked(p, "realloc"); return q;
}
int sim_posix_memalign(void** out, size_t al, size_t n) { sync_point(24, PC); void* p = do_alloc(n, std::max<size_t>(16, al), false); if (!p) return ENOMEM; *out = p; return 0; }
void* sim_aligned_alloc(size_t al, size_t n) { sync_point(24, PC); return do_alloc(n, std::max<size_t>(16, al), false); }

// ---- memory functions ----------------------------------------------------------------------------------
static void chunk_point(uintptr_t pc) { if (pc - libbase >= lib->end - lib->base) pc = libbase + 1;   // called by the driver
    ++gstep; u32 h = (u32)(pc - libbase + 7) & 0xFFFF; cur->lastpc = pc;
    if (--left_[h] == 0) site_event(h); if (gstep >= nxt) slow_event(); }
void* sim_memcpy(void* d, const void* s, size_t n) {
    if (!in_run) return memcpy(d, s, n);
    check_range(s, n, false, PC); check_range(d, n, true, PC);
    if (n && (u8*)d != (u8*)s && (u8*)d < (const u8*)s + n && (const u8*)s < (u8*)d + n) vf("memcpy-overlap", "memcpy of %zu bytes between overlapping regions (pc %lx)", n, (unsigned long)(PC - libbase));
    chunk_point(PC);
    if (n < 64) { memcpy(d, s, n); return d; }
    size_t h = n / 2; memcpy(d, s, h); chunk_point(PC);
    check_range((const u8*)s + h, n - h, false, PC); check_range((u8*)d + h, n - h, true, PC);
    memcpy((u8*)d + h, (const u8*)s + h, n - h); return d;
}
void* sim_memmove(void* d, const void* s, size_t n) { if (!in_run) return memmove(d, s, n); check_range(s, n, false, PC); check_range(d, n, true, PC); chunk_point(PC); return memmove(d, s, n); }
void* sim_memset(void* d, int c, size_t n) { if (!in_run) return memset(d, c, n); check_range(d, n, true, PC); chunk_point(PC); return memset(d, c, n); }
int sim_memcmp(const void* a, const void* b, size_t n) { if (!in_run) return memcmp(a, b, n); check_range(a, n, false, PC); check_range(b, n, false, PC); return memcmp(a, b, n); }
void* sim_memcpy_chk(void* d, const void* s, size_t n, size_t dn) { if (n > dn) vf("heap-overflow-write", "memcpy_chk"); return sim_memcpy(d, s, n); }

// ---- threads -----------------------------------------------------------------------------------------
struct SM { u32 magic; int owner; };      // owner: fiber id, or -1
struct SC { u32 magic; u32 pad; };
static const u32 MM = 0x4D555458, CM = 0x434F4E44, DEADM = 0xDEAD4D58;
int sim_pthread_mutex_init(pthread_mutex_t* m, const void*) { check_sync(m, sizeof *m, true, PC); syncvc.erase((uintptr_t)m); sync_point(30, PC); memset((void*)m, 0, sizeof *m); SM* s = (SM*)m; s->magic = MM; s->owner = -1; return 0; }
static SM* mtx(void* m, uintptr_t pc) { check_sync(m, sizeof(pthread_mutex_t), true, pc); SM* s = (SM*)m; if (s->magic != MM) vf("bad-mutex", "use of a mutex that is not initialised (pc %lx)", (unsigned long)(pc - libbase)); return s; }
int sim_pthread_mutex_destroy(pthread_mutex_t* m) { SM* s = mtx(m, PC); sync_point(31, PC); if (s->owner != -1) vf("bad-mutex", "destroying a locked mutex"); s->magic = DEADM; return 0; }
static void lock_loop(SM* s) { while (s->owner != -1) { if (s->owner == curid) vf("deadlock", "thread locks a mutex it holds"); cur->st = B_MUTEX; cur->waiton = s; pick_and_block(); } s->owner = curid; hb_acquire((uintptr_t)s); }
int sim_pthread_mutex_lock(pthread_mutex_t* m) { mtx(m, PC); sync_point(32, PC); lock_loop(mtx(m, PC)); return 0; }
int sim_pthread_mutex_trylock(pthread_mutex_t* m) { mtx(m, PC); sync_point(32, PC); SM* s = mtx(m, PC); if (s->owner != -1) return EBUSY; s->owner = curid; hb_acquire((uintptr_t)s); return 0; }
static void unlock(SM* s) { if (s->owner != curid) vf("bad-mutex", "unlocking a mutex the thread does not hold"); hb_release((uintptr_t)s); s->owner = -1; for (int i = 0; i < nf; ++i) if (F[i].st == B_MUTEX && F[i].waiton == s) F[i].st = READY; }
int sim_pthread_mutex_unlock(pthread_mutex_t* m) { unlock(mtx(m, PC)); sync_point(33, PC); return 0; }
int sim_pthread_cond_init(pthread_cond_t* c, const void*) { check_sync(c, sizeof *c, true, PC); sync_point(34, PC); memset((void*)c, 0, sizeof *c); ((SC*)c)->magic = CM; return 0; }
static SC* cnd(void* c, uintptr_t pc) { check_sync(c, sizeof(pthread_cond_t), true, pc); SC* s = (SC*)c; if (s->magic != CM) vf("bad-cond", "use of a condition variable that is not initialised"); return s; }
int sim_pthread_cond_destroy(pthread_cond_t* c) { SC* s = cnd(c, PC); sync_point(35, PC); for (int i = 0; i < nf; ++i) if (F[i].st == B_COND && F[i].waiton == s) vf("bad-cond", "destroying a condition variable with waiters"); s->magic = DEADM; return 0; }
static void maybe_jump() {
    i64 v = 0;
    if (cfg.explicit_) { if (!fair && lookup(D_JUMP, v)) { jump_ns += v; } else return; }
    else { if (fair || !cfg.jumps || !rng.chance(cfg.jumps)) return;
        v = (i64)rng.logu(1000000, 100000000000000ull) * (rng.below(2) ? 1 : -1); jump_ns += v; record(D_JUMP, v); }
    ++jump_count; if (v > 0) ++R->st.f_jump; else ++R->st.f_jumpback;
    mix(th, (u64)v);
}
static int cond_wait(void* c, void* m, bool timed, i64 deadline, uintptr_t pc) {
    SC* s = cnd(c, pc); SM* x = mtx(m, pc);
    sync_point(36, pc);
    s = cnd(c, pc);
    unlock(x);
    cur->st = B_COND; cur->blk_from = mono(); cur->waiton = s; cur->condseq = ++condseq; cur->timed = timed; cur->deadline = deadline; cur->timedout = cur->spurious = false;
    if (timed) { maybe_jump(); if (realtime() >= deadline) { cur->st = READY; cur->timedout = true; cur->timed = false; ++R->st.f_timeout; } }
    if (cur->st == B_COND) pick_and_block();
    else { // expired at once: still a release point
        sync_point(37, pc);
    }
    cur->timed = false;
    bool to = cur->timedout;
    lock_loop(mtx(m, pc));
    return to ? ETIMEDOUT : 0;
}
int sim_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, false, 0, PC); }
int sim_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    check_range(ts, sizeof *ts, false, PC);
    if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
    return cond_wait(c, m, true, (i64)ts->tv_sec * 1000000000ll + ts->tv_nsec, PC);
}
int sim_pthread_cond_signal(pthread_cond_t* c) {
    SC* s = cnd(c, PC); sync_point(38, PC); cnd(c, PC);
    int w[MAXF], n = 0; for (int i = 0; i < nf; ++i) if (F[i].st == B_COND && F[i].waiton == s) w[n++] = i;
    if (!n) return 0;
    int d = w[0]; for (int i = 1; i < n; ++i) if (F[w[i]].condseq < F[d].condseq) d = w[i];
    if (n > 1) {
        i64 v;
        if (cfg.explicit_ && !fair) { if (lookup(D_SIGNAL, v)) for (int i = 0; i < n; ++i) if (w[i] == v) d = (int)v; }
        else if (!fair) { int k = w[rng.below((u64)n)]; if (k != d) { d = k; record(D_SIGNAL, d); } }
    }
    wake(F[d]); recompute();
    sync_point(39, PC);
    return 0;
}
int sim_pthread_cond_broadcast(pthread_cond_t* c) {
    SC* s = cnd(c, PC); sync_point(40, PC); cnd(c, PC);
    for (int i = 0; i < nf; ++i) if (F[i].st == B_COND && F[i].waiton == s) wake(F[i]);
    recompute(); sync_point(41, PC); return 0;
}
static int new_fiber() { for (int i = 0; i < MAXF; ++i) if (F[i].st == FREE) { if (i >= nf) nf = i + 1; return i; } vf("too-many-threads", "more than %d threads", MAXF); }
int sim_pthread_create(pthread_t* t, const void*, void* (*fn)(void*), void* arg) {
    check_range(t, sizeof *t, true, PC); sync_point(42, PC);
    if (fault_hit(F_THREAD)) { ++R->st.f_thread; return EAGAIN; }
    int i = new_fiber(); setup_fiber(i); Fiber& f = F[i]; f.fn = fn; f.arg = arg; f.lib = true; hb_start(i); ++R->st.threads;
    *t = (pthread_t)(i + 1);
    if (cfg.stalls && !cfg.explicit_ && !fair && rng.chance(150)) { f.stall_until = cfg.stalllen ? gstep + cfg.stalllen : ~0ull; ++R->st.f_startdelay; }
    sync_point(43, PC);
    return 0;
}
int sim_pthread_join(pthread_t t, void** ret) {
    sync_point(44, PC);
    long i = (long)t - 1;
    if (i < 0 || i >= nf || F[i].st == FREE || !F[i].lib || F[i].joined) vf("bad-join", "joining something that is not a live thread");
    while (F[i].st != DONE) { cur->st = B_JOIN; cur->joinwho = (int)i; pick_and_block(); }
    hb_end((int)i); if (ret) *ret = F[i].ret;
    F[i].joined = true; F[i].st = FREE; return 0;
}
unsigned long sim_pthread_self() { return (unsigned long)curid + 1; }
int sim_pthread_detach(pthread_t) { vf("bad-join", "detached thread"); }
int sim_sched_yield() { sync_point(45, PC); if (!cfg.explicit_ && !nopre) { int t = choose(true); if (t >= 0) preempt_to(t); } return 0; }
int sim_usleep(unsigned us) { sync_point(45, PC); cur->st = B_SLEEP; cur->wake_step = gstep + (u64)us * 1000 / cfg.nsps + 1; recompute(); pick_and_block(); return 0; }
int sim_nanosleep(const struct timespec* ts, struct timespec*) { return sim_usleep((unsigned)(ts->tv_sec * 1000000 + ts->tv_nsec / 1000)); }

// ---- clock ---------------------------------------------------------------------------------------------
int sim_gettimeofday(struct timeval* tv, void*) { check_range(tv, sizeof *tv, true, PC); sync_point(50, PC); maybe_jump(); i64 t = realtime(); tv->tv_sec = t / 1000000000; tv->tv_usec = (t % 1000000000) / 1000; return 0; }
int sim_clock_gettime(int id, struct timespec* ts) { check_range(ts, sizeof *ts, true, PC); sync_point(51, PC); i64 t; if (id == CLOCK_MONOTONIC) t = (i64)mono(); else { maybe_jump(); t = realtime(); } ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0; }
time_t sim_time(time_t* p) { sync_point(52, PC); time_t t = realtime() / 1000000000; if (p) *p = t; return t; }
long sim_clock() { return (long)(mono() / 1000); }

// ---- processor probe -------------------------------------------------------------------------------------
static char fakefile[4][8]; static size_t fpos_[4]; static bool fused[4], ferr_[4]; static int fgets_no; static std::string cputext;
static void cpu_reset() { cpu = CpuModel(); memset(fused, 0, sizeof fused); fgets_no = 0; }
static void cpu_text() {
    std::string t; char b[200];
    for (int i = 0; i < (cpu.sys > 0 ? cpu.sys : 1); ++i) {
        snprintf(b, sizeof b, "processor\t: %d\nvendor_id\t: Simulated\nmodel name\t: Simulated processor\n", i); t += b;
        if (cpu.sib >= 0) { snprintf(b, sizeof b, "siblings\t: %d\n", cpu.sib); t += b; }
        if (cpu.cores >= 0) { snprintf(b, sizeof b, "cpu cores\t: %d\n", cpu.cores); t += b; }
        t += "flags\t\t: fpu vme de pse tsc msr pae mce cx8 apic sep mtrr pge mca cmov pat pse36 clflush mmx fxsr sse sse2 ss ht syscall nx\n\n";
    }
    if (cpu.cut >= 0 && (size_t)cpu.cut < t.size()) t.resize((size_t)cpu.cut);
    cputext = t;
}
static int file_ix(void* f) { int i = (int)(((char*)f - fakefile[0]) / 8); if (i < 0 || i > 3 || !fused[i]) vf("bad-file", "use of a file that is not open"); return i; }
void* sim_fopen(const char*, const char*) {
    sync_point(60, PC); if (cpu.missing || fault_hit(F_CPUINFO)) { ++R->st.f_cpuinfo; return nullptr; }
    for (int i = 0; i < 4; ++i) if (!fused[i]) { fused[i] = true; ferr_[i] = false; fpos_[i] = 0; cpu_text(); return fakefile[i]; }
    vf("file-leak", "more than four files are open");
}
char* sim_fgets(char* b, int n, void* f) {
    check_range(b, (size_t)n, true, PC); sync_point(62, PC); int i = file_ix(f);
    if (cpu.err && ++fgets_no >= cpu.err) { if (fgets_no == cpu.err) ++R->st.f_cpuinfo; ferr_[i] = true; return nullptr; }
    size_t k = 0; while (k + 1 < (size_t)n && fpos_[i] < cputext.size()) { char ch = cputext[fpos_[i]++]; b[k++] = ch; if (ch == '\n') break; }
    if (!k) { fpos_[i] = ~(size_t)0 >> 1; return nullptr; }
    if (fpos_[i] == cputext.size() && b[k - 1] != '\n') fpos_[i] = ~(size_t)0 >> 1;   // the end was met
    b[k] = 0; return b;
}
int sim_feof(void* f) { return fpos_[file_ix(f)] > cputext.size(); }
int sim_ferror(void* f) { return ferr_[file_ix(f)]; }
int sim_fclose(void* f) { sync_point(61, PC); fused[file_ix(f)] = false; return 0; }
long sim_sysconf(int) { sync_point(63, PC); if (cpu.sys < 0) ++R->st.f_cpuinfo; return cpu.sys; }
int sim_fprintf(void*, const char*, ...) { return 0; }
int sim_printf(const char*, ...) { return 0; }
size_t sim_fwrite(const void*, size_t, size_t n, void*) { return n; }
int sim_fputc(int c, void*) { return c; }
int sim_fflush(void*) { return 0; }
[[noreturn]] void sim_abort() { vf("abort", "abort called"); }
[[noreturn]] void sim_exit(int c) { vf("exit", "exit(%d) called", c); }
[[noreturn]] void sim_assert_fail(const char* e, const char* f, unsigned l, const char*) { vf("assert", "assertion %s at %s:%u", e, f, l); }
[[noreturn]] void sim_stack_chk_fail() { vf("stack-smash", "stack protector"); }

// the assembler decoder is not instrumented: a scheduling point before and after
size_t sim_asm_enter_exit(void* pc) { chunk_point((uintptr_t)pc); return 0; }
} // extern C

namespace sim {
// ---- library loading ---------------------------------------------------------------------------------------
struct Find { uintptr_t base; Lib* l; };
static int phdr_cb(struct dl_phdr_info* i, size_t, void* d) {
    Find* f = (Find*)d; if (i->dlpi_addr != f->base) return 0;
    uintptr_t ro_a = 0, ro_e = 0;
    for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { ro_a = f->base + i->dlpi_phdr[k].p_vaddr; ro_e = (ro_a + i->dlpi_phdr[k].p_memsz) & ~4095ull; }
    for (int k = 0; k < i->dlpi_phnum; ++k) { auto& p = i->dlpi_phdr[k]; if (p.p_type != PT_LOAD) continue;
        uintptr_t a = f->base + p.p_vaddr, e = a + p.p_memsz; f->l->end = std::max(f->l->end, e);
        if (!(p.p_flags & PF_W)) continue;
        if (ro_e > a && ro_a <= a) a = ro_e;
        if (a < e) f->l->segs.push_back({a, e - a, std::vector<u8>((u8*)a, (u8*)e)}); }
    return 1;
}
bool load_lib(Lib& l, const std::string& path) {
    l.path = path; l.handle = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!l.handle) { fprintf(stderr, "dlopen %s: %s\n", path.c_str(), dlerror()); return false; }
    struct link_map* lm; dlinfo(l.handle, RTLD_DI_LINKMAP, &lm); l.base = lm->l_addr;
    Find f{l.base, &l}; dl_iterate_phdr(phdr_cb, &f); return true;
}
void* lib_sym(Lib& l, const char* n) { void* p = dlsym(l.handle, n); if (!p) { fprintf(stderr, "symbol %s missing\n", n); exit(3); } return p; }

static void crash_handler(int sig, siginfo_t* si, void*) {
    if (!in_run) { signal(sig, SIG_DFL); raise(sig); return; }
    const char* n = sig == SIGSEGV ? "crash-segv" : sig == SIGFPE ? "crash-fpe" : sig == SIGILL ? "crash-ill" : sig == SIGBUS ? "crash-bus" : sig == SIGVTALRM ? "hang" : "crash";
    if (!R->violated) { R->violated = true; R->kind = n; char b[80]; snprintf(b, sizeof b, "signal %d address %p [fiber %d]", sig, si->si_addr, curid); R->detail = b;
        for (int i = std::min(cur->depth, 96) - 1; i >= 0 && i > cur->depth - 12; --i) { snprintf(b, sizeof b, "%lx", (unsigned long)(cur->cs[i] - libbase)); R->stack.push_back(b); } }
    in_run = false; siglongjmp(crash_jb, 1);
}

void init() {
    auto mm = [](uintptr_t a, size_t n, int prot) { void* p = mmap((void*)a, n, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void*)a) { fprintf(stderr, "cannot map %lx\n", (unsigned long)a); exit(3); } };
    mm(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE); mm(SHADOW, (ARENA_SIZE >> 3) + 4096, PROT_READ | PROT_WRITE);
    mm((uintptr_t)CELLS, ((ARENA_SIZE + (64 << 20)) >> 3) * sizeof(Cell), PROT_READ | PROT_WRITE);
    mm(STACKS, (STK + STKGAP) * MAXF, PROT_READ | PROT_WRITE);
    for (int i = 0; i < MAXF; ++i) mprotect((void*)(STACKS + (STK + STKGAP) * (size_t)i), STKGAP, PROT_NONE);
    madvise((void*)ARENA, ARENA_SIZE, MADV_NOHUGEPAGE); 
    left_init = new uint16_t[65536]; pairbits.assign(1 << 18, 0);
    static u8 alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = crash_handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGVTALRM}) sigaction(s, &sa, nullptr);
}

static void oldbufs_clear();
Result run(Lib& l, const SchedCfg& c, u8 fill, u64 bud, const std::function<void()>& body) {
    Result res; R = &res; lib = &l; libbase = l.base; cfg = c; if (!cfg.nsps) cfg.nsps = 1; rng = Rng(c.seed); fillb = fill;
    for (auto& s : l.segs) memcpy((void*)s.a, s.copy.data(), s.n);
    // world
    static size_t race_used = 0;
    if (race_used) { size_t m = (std::min(race_used, RACE_MAX) >> 3) * sizeof(Cell); if (m < (64u << 20)) memset((void*)CELLS, 0, m); else madvise((void*)CELLS, m, MADV_DONTNEED);
        memset((void*)(CELLS + (STATIC_OFF >> 3)), 0, ((l.end - l.base) >> 3) * sizeof(Cell)); race_used = 0; }
    race_on = cfg.race || race_log; for (auto& v : vc) v.clear(); for (auto& h : hist) h.clear(); watches.clear(); cpu_reset(); memset(dirty, 0, sizeof dirty); syncvc.clear(); bool const raced = race_on;
    if (bump > (192u << 20)) { madvise((void*)ARENA, ARENA_SIZE, MADV_DONTNEED); }
    blocks.clear(); byoff.clear(); oldbufs_clear(); bump = 0; live_b = live_n = peak_b = 0;
    for (int i = 0; i < MAXF; ++i) { F[i].st = FREE; if (i < nf) { F[i].body = nullptr; } }
    nf = 1; gstep = 0; budget = bud; fair = false; skip_ns = 0; jump_ns = 0; jump_count = 0; condseq = 0; nopre = 0; low_prio = 0;
    th = 0x1234567 ^ c.seed * 0; sh = 0x7654321; faults.clear(); memset(fcount, 0, sizeof fcount); ffired = 0; alloc_hook = nullptr;
    rec = !cfg.explicit_;
    decmap.clear(); if (cfg.explicit_) for (size_t i = 0; i < cfg.decisions.size(); ++i) { auto& d = cfg.decisions[i]; if (d.kind != D_SWITCH) decmap[dkey(d.fiber, d.kind, d.step)] = (int)i; }
    if (cfg.site && !cfg.explicit_) { u64 s = rng.next(); for (int i = 0; i < 65536; ++i) { s = s * 6364136223846793005ull + 1442695040888963407ull; left_init[i] = 2; left_[i] = (uint16_t)(1 + ((s >> 60) & 3)); } }
    else memset(left_, 0, sizeof left_);
    next_acc = cfg.acc && !cfg.explicit_ ? 1 + rng.below(2ull * cfg.acc) : ~0ull;
    stall_at.clear(); pct_at.clear(); stall_i = pct_i = 0;
    if (!cfg.explicit_) {
        for (u32 i = 0; i < cfg.stalls; ++i) stall_at.push_back(rng.logu(1, std::max<u64>(2, cfg.stallspan)));
        for (u32 i = 0; i < cfg.pctd; ++i) pct_at.push_back(rng.logu(1, std::max<u64>(2, cfg.pctspan)));
        std::sort(stall_at.begin(), stall_at.end()); std::sort(pct_at.begin(), pct_at.end());
    }
    setup_fiber(0); F[0].fn = nullptr; F[0].body = body; F[0].lib = false;
    cur = &F[0]; curid = 0; recompute(); in_run = true;
    struct itimerval it{}; it.it_value.tv_sec = 120; setitimer(ITIMER_VIRTUAL, &it, nullptr);
    if (!sigsetjmp(crash_jb, 1)) sim_ctx_switch(&main_sp, cur->sp);
    in_run = false; race_on = false; if (raced) race_used = bump + 4096;
    memset(&it, 0, sizeof it); setitimer(ITIMER_VIRTUAL, &it, nullptr);
    if (!res.violated) {
        for (int i = 1; i < nf; ++i) if (F[i].st != FREE && !res.violated) { res.violated = true; res.kind = "thread-leak"; char b[100]; snprintf(b, sizeof b, "thread (fiber %d) never joined", i); res.detail = b; }
        for (int i = 0; i < 4; ++i) if (fused[i] && !res.violated) { res.violated = true; res.kind = "file-leak"; res.detail = "a file is still open"; }
        if (!res.violated) watch_check(true);
        if (!res.violated && live_n) { res.violated = true; res.kind = "leak"; std::string d = "blocks still allocated:"; int k = 0; for (auto& b : blocks) if (!b.freed && !b.driver && k++ < 8) { char t[60]; snprintf(t, sizeof t, " #%llu:%zu", (unsigned long long)b.id, b.n); d += t; } res.detail = d; }
        if (!res.violated) for (auto& b : blocks) if (!zones_ok(b)) { res.violated = true; res.kind = b.freed ? "use-after-free-write" : "heap-overflow-write"; char t[80]; snprintf(t, sizeof t, "bytes of or around a %zu byte %s block were overwritten", b.n, b.driver ? "caller" : "library"); res.detail = t; break; }
    }
    if (res.violated) { for (char ch : res.kind) mix(th, (u8)ch); }
    mix(th, gstep);
    res.hash = th; res.sched_hash = sh; res.st.steps = gstep; res.st.simns = mono(); res.leaked = live_b;
    R = nullptr; cur = nullptr;
    for (int i = 0; i < nf; ++i) F[i].body = nullptr;
    return res;
}

int spawn(const std::function<void()>& f) { int i = new_fiber(); setup_fiber(i); F[i].fn = nullptr; F[i].body = f; F[i].lib = false; hb_start(i); sync_point(70, 0); return i; }
void join(int i) { while (F[i].st != DONE) { cur->st = B_JOIN; cur->joinwho = i; pick_and_block(); } hb_end(i); F[i].st = FREE; }
void yield_point() { sync_point(71, 0); }
void sleep_steps(u64 n) { sync_point(72, 0); cur->st = B_SLEEP; cur->wake_step = gstep + n; recompute(); pick_and_block(); }
void stall_others(u32 pm) { if (fair || cfg.explicit_ || !pm) return; for (int i = 0; i < nf; ++i) if (F[i].lib && F[i].st != FREE && F[i].st != DONE && rng.chance(pm)) { F[i].stall_until = ~0ull; ++R->st.f_stall; } }
u64 take_blocked() { u64 b = cur->blk_max; cur->blk_max = 0; return b; }
u64 take_blocked_sum() { u64 b = cur->blk_sum; cur->blk_sum = 0; return b; }
u64 take_own_steps() { u64 n = lstep(), d = n - cur->own_mark; cur->own_mark = n; return d; }
void arm_faults(const std::vector<Fault>& f) { faults = f; memset(fcount, 0, sizeof fcount); }
void disarm_faults() { faults.clear(); }
u64 faults_fired() { return ffired; }
void trace(u64 v) { mix(th, v); }
void probe(int i) { if (R) ++R->st.probes[i]; }
u64 steps() { return gstep; }
u64 now_ns() { return mono(); }
u64 clock_mark() { return jump_count; }
bool clock_jumped_since(u64 m) { return jump_count != m; }
u64 count_live(size_t n) { u64 k = 0; for (auto& b : blocks) if (!b.freed && !b.driver && b.n == n) ++k; return k; }
int lib_call_depth() { int d = 0; for (int i = 0; i < nf; ++i) if (F[i].lib && F[i].st != FREE && F[i].st != DONE && F[i].st != B_COND) d = std::max(d, F[i].depth); return d; }
u64 worker_steps() { u64 n = 0; for (int i = 0; i < nf; ++i) if (F[i].lib && F[i].st != FREE) n += F[i].base; return n; }
u64 live_bytes() { return live_b; } u64 live_blocks() { return live_n; } u64 peak_bytes() { return peak_b; } void reset_peak() { peak_b = live_b; }
int live_threads() { int n = 0; for (int i = 0; i < nf; ++i) if (F[i].lib && F[i].st != FREE && F[i].st != DONE) ++n; return n; }
int active_threads() { int n = 0; for (int i = 0; i < nf; ++i) if (F[i].lib && F[i].st != FREE && F[i].st != DONE && F[i].st != B_COND) ++n; return n; }
void set_alloc_hook(const std::function<void(size_t)>& f) { alloc_hook = f; }
int current() { return curid; }
static std::map<size_t, std::pair<size_t, std::vector<size_t>>> oldbufs;    // large driver buffers are reused after a long quarantine
static void oldbufs_clear() { oldbufs.clear(); }
u8* buf_alloc(size_t n) {
    if (n >= 8192) {
        auto& q = oldbufs[n];
        if (q.second.size() - q.first > 24) {
            Block& b = blocks[q.second[q.first++]]; u8* p = (u8*)ARENA + b.off;
            if (!zones_ok(b)) vf("use-after-free-write", "bytes of or around a %zu byte caller block were overwritten", b.n);
            b.freed = false; sh_set(b.off, b.total, 0xF0); sh_open(b.off, n, false); memset(p, fillb, n); if (race_on && b.off + n <= RACE_MAX) memset((void*)(CELLS + (b.off >> 3)), 0, ((n + 7) >> 3) * sizeof(Cell)); return p;
        }
    }
    u8* p = arena_alloc(n, true); if (!p) vf("sim-arena", "arena exhausted"); return p;
}
void buf_readonly(u8* p, size_t n) { sh_open((uintptr_t)p - ARENA, n, true); }
void buf_readwrite(u8* p, size_t n) { sh_open((uintptr_t)p - ARENA, n, false); }
void buf_touch(u8* p, size_t n, bool w) { size_t o = (uintptr_t)p - ARENA; if (race_on && o + n <= RACE_MAX) race_access(o, n, w, libbase + 2, true); }
void buf_poison(u8* p, size_t n) { buf_touch(p, n, true); sh_set((uintptr_t)p - ARENA, n, 0xF2); }
void buf_free(u8* p) { Block* b = find_block(p); if (!b || b->freed || !b->driver) { fprintf(stderr, "driver bad free\n"); abort(); } buf_touch(p, b->n, true); arena_free(b, true); if (b->n >= 8192) oldbufs[b->n].second.push_back((size_t)(b - &blocks[0])); }
bool redzone_ok(u8* p) { Block* b = find_block(p); return b && zones_ok(*b); }
NoPreempt::NoPreempt() { ++nopre; } NoPreempt::~NoPreempt() { --nopre; }
size_t pairs_count() { size_t n = 0; for (u32 w : pairbits) n += (size_t)__builtin_popcount(w); return n; }
void pairs_dump(std::vector<u32>& out) { out = pairbits; }
} // namespace sim
