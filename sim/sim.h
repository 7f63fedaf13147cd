// Deterministic simulator core: fibers, scheduler, clock, arena heap with shadow, fault injection.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace sim {

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef int64_t i64;

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed) { next(); }
    u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
                 z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
    bool chance(u32 permille) { return below(1000) < permille; }
    u64 logu(u64 a, u64 b);           // log-uniform in [a,b]
};

// ---- schedule configuration -------------------------------------------------------------------
struct Decision { int fiber; u64 step; int kind; i64 value; };
enum { D_SWITCH = 0, D_BLOCK = 1, D_SIGNAL = 2, D_SPUR = 3, D_JUMP = 4 };

struct SchedCfg {
    u64 seed = 1;
    int mode = 0;          // 0 random, 1 priorities (PCT), 2 round robin
    u32 psync = 0;         // permille: preempt at a synchronisation operation
    u32 acc = 0;           // mean number of memory accesses between preemptions, 0 = none
    u32 site = 0;          // permille: preempt at a (geometrically spaced) visit of a code site, 0 = none
    u32 stalls = 0;        // number of long stalls of a thread
    u64 stallspan = 0;     // stalls begin within this many steps
    u64 stalllen = 0;      // steps; 0 = until nothing else can run
    u64 nsps = 10;         // simulated nanoseconds per step
    u32 spur = 0;          // permille: spurious wake-up at a scheduling point
    u32 jumps = 0;         // permille: clock jump at a clock read or timed wait
    u32 pctd = 0;          // PCT change points
    u64 pctspan = 0;       // range of steps for them
    bool race = false;     // check that accesses to shared data are ordered
    bool explicit_ = false; // follow `decisions`, default choices otherwise
    std::vector<Decision> decisions;
};

enum FaultKind { F_ALLOC = 0, F_THREAD = 1, F_CPUINFO = 2, F_NKINDS };
struct Fault { int kind; u64 nth; u64 count; };   // fails occurrences nth .. nth+count-1 (1-based, per run or per arm point)

// what the processor probe finds; sys: answer of sysconf, sib and cores: lines of cpuinfo (-1: absent), cut: the text ends there, err: the n-th read fails
struct CpuModel { int sys = 4, sib = 4, cores = 2, cut = -1, err = 0; bool missing = false; bool unsteady = false; };   // unsteady: different threads may rightly find different counts
extern CpuModel cpu;

struct Stats {
    u64 steps = 0, switches = 0, preempts = 0, syncops = 0, allocs = 0, threads = 0;
    u64 simns = 0;
    u64 f_alloc = 0, f_thread = 0, f_cpuinfo = 0, f_spur = 0, f_jump = 0, f_jumpback = 0, f_stall = 0,
        f_timeout = 0, f_startdelay = 0;
    u64 probes[64] = {0};
};

struct Result {
    bool violated = false;
    std::string kind;      // class, e.g. "heap-overflow-read", "deadlock", "oracle:..."
    std::string detail;
    u64 hash = 0;          // trace hash of the complete run
    u64 sched_hash = 0;    // hash of the switch sequence only
    u64 leaked = 0;
    Stats st;
    std::vector<Decision> recorded;
    std::vector<std::string> stack;
};

// ---- library variants -------------------------------------------------------------------------
struct Lib { std::string name, path; void* handle = nullptr; uintptr_t base = 0, end = 0;
             struct Seg { uintptr_t a; size_t n; std::vector<u8> copy; }; std::vector<Seg> segs; };
bool load_lib(Lib&, const std::string& path);
void* lib_sym(Lib&, const char* name);

// ---- one run ----------------------------------------------------------------------------------
// Executes `body` on fiber 0 of a fresh simulated world around `lib`.
void init();
Result run(Lib& lib, const SchedCfg& cfg, u8 fill, u64 budget, const std::function<void()>& body);

// ---- services for the driver, callable on a fiber ----------------------------------------------
int  spawn(const std::function<void()>& f);   // caller thread
void join(int id);
void yield_point();                           // plain scheduling point
void sleep_steps(u64 n);                      // let others run for about n steps
void stall_others(u32 permille);              // each thread of the library is stalled, with this probability, until nothing else can run
u64  take_blocked_sum();                      // total of these times since the last call
u64  take_own_steps();                        // steps executed by the current fiber itself since the last call
u64  take_blocked();                          // longest time (ns) the current fiber was blocked on a condition since the last call
void arm_faults(const std::vector<Fault>& f); // counted from now on
void disarm_faults();
u64  faults_fired();
[[noreturn]] void violate(const std::string& kind, const std::string& detail);
void trace(u64 v);                            // mix into the trace hash
void probe(int i);
u64  steps();
u64  now_ns();                                // monotonic simulated time
bool clock_jumped_since(u64 mark); u64 clock_mark();
u64  count_live(size_t n);                     // live library blocks of exactly n bytes
int  lib_call_depth();                        // deepest call nesting of the library's threads (not blocked on a condition)
u64  worker_steps();                          // steps executed so far by the library's threads
u64  live_bytes(); u64 live_blocks(); u64 peak_bytes(); void reset_peak();
int  live_threads();                          // threads created by the library and not finished
int  active_threads();                        // of those, not blocked
void set_alloc_hook(const std::function<void(size_t)>& f); // after each library allocation
int  current();
u64  block_bytes_from(void* p);

// driver buffers, in the arena
u8* buf_alloc(size_t n);                      // exact size, poisoned around, filled with the run's pattern
void buf_readonly(u8* p, size_t n);
void buf_readwrite(u8* p, size_t n);
void buf_touch(u8* p, size_t n, bool w);      // the caller reads or writes these bytes now
void buf_poison(u8* p, size_t n);             // revoke: any access by the library is a violation
void buf_free(u8* p);                         // poisons forever
bool redzone_ok(u8* p);                       // for uninstrumented code: bytes around still hold the pattern
struct NoPreempt { NoPreempt(); ~NoPreempt(); };

// statistics across runs of the process
size_t pairs_count(); void pairs_dump(std::vector<u32>& out);
} // namespace sim
