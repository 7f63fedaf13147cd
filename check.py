#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--seconds N]: simulates fast-lzma2 for one property.
check.py --replay FILE: runs one replay file and reports whether it gives exactly the recorded violation.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (build or harness failure)."""
import sys, os, json, subprocess, time, glob, re, signal, tempfile, shutil
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT + "/sim")
import build as simbuild

QUICK, THOROUGH = 36, 900
GATE = 12                                   # runs per worker process of the determinism gate
PROBES = ["timeouts_reported", "locked_parameter_refused", "flush_verified", "end_verified", "cancels", "misuse_refused", "capacity_too_small", "decodes_finished",
          "init_refused_while_busy", "busy_call_refused", "compared_with_fresh_object", "read_out_without_a_stream", "continued_after_failure_or_cancel", "one_shot_over_open_stream", "default_thread_counts", "memory_within_estimate", "sizes_found"]
FAULTS = ["alloc_failures", "thread_create_failures", "cpuinfo_failures", "spurious_wakeups", "clock_jumps_forward", "clock_jumps_back", "stalls", "timer_expiries", "thread_start_delays"]

def nworkers():
    try: return max(1, min(16, len(os.sched_getaffinity(0))))
    except Exception: return max(1, os.cpu_count() or 1)

def run_case(exe, path, timeout=400):
    """-> result dict; a dead process is a result of its own"""
    try: r = subprocess.run([exe, "run", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
    except subprocess.TimeoutExpired: return {"violated": True, "kind": "hang", "detail": "the simulation of the case does not end", "hash": "", "stack": []}
    if r.returncode == 0:
        for l in r.stdout.split("\n"):
            if l.startswith("{"): return json.loads(l)
    return {"violated": True, "kind": "process-died", "detail": "the simulator process died (status %d)" % r.returncode, "hash": "", "stack": []}

def symbolise(d, text, stack):
    m = re.search(r"\blib=(\w+)", text)
    if not stack or not m: return []
    a = [hex(int(x, 16) - 1) for x in stack if int(x, 16) < 1 << 40]
    o = subprocess.run(["addr2line", "-f", "-s", "-e", "%s/lib_%s.so" % (d, m.group(1))] + a, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.split("\n")
    return ["%s %s" % (o[i], o[i + 1]) for i in range(0, len(o) - 1, 2)]

def known():
    """known_findings.txt: 'finding: property=<id> kind=<kind> match=<regex over detail and stack functions> | <text>'"""
    k = []
    f = ROOT + "/known_findings.txt"
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) kind=(\S+) match=(.*?) \| (.*)$", l.strip())
            if m: k.append(m.groups())
    return k

def is_known(k, prop, res, sym):
    t = res["detail"] + " " + " ".join(sym)
    for p, kind, rx, text in k:
        if p == prop and kind == res["kind"] and re.search(rx, t): return text
    return None

def write_replay(d, prop, text, res, extra, name=None):
    os.makedirs(ROOT + "/replays", exist_ok=True)
    path = "%s/replays/%s_%s.txt" % (ROOT, prop, name or res["hash"] or "x")
    with open(path, "w") as f:
        f.write("# property %s: %s\n# %s\n" % (prop, res["kind"], res["detail"]))
        for s in symbolise(d, text, res["stack"]): f.write("#   at %s\n" % s)
        for x in extra: f.write("# %s\n" % x)
        f.write("expect kind=%s hash=%s\n" % (res["kind"], res["hash"]))
        f.write(text)
    return path

def replay(path):
    d = simbuild.build(); exe = d + "/simfl2"
    m = re.search(r"^expect kind=(\S+) hash=(\S*)", open(path).read(), re.M)
    r = run_case(exe, path); print(json.dumps(r))
    if r["violated"]:
        for s in symbolise(d, open(path).read(), r["stack"]): print("   at", s)
    same = m and r["violated"] and r["kind"] == m.group(1) and (r["hash"] == m.group(2) or r["kind"] in ("hang", "process-died"))
    print("replay reproduces the recorded violation exactly" if same else "replay differs from the record (expected %s)" % (m.group(0) if m else "nothing"))
    return 0 if same else 1

class Check:
    def __init__(self, prop, tier, seed, secs):
        self.prop, self.tier, self.seed, self.secs = prop, tier, seed, secs
        self.t0 = time.time(); self.tmp = tempfile.mkdtemp(prefix="simfl2_"); self.notes = []
        self.knownhits = {}; self.viol = None

    def work(self, first, stride, secs, maxruns, mode=None, tag=""):
        cur = "%s/cur_%s%d" % (self.tmp, tag, first); out = "%s/out_%s%d" % (self.tmp, tag, first)
        a = [self.exe, "work", self.prop, str(self.seed), str(first), str(stride), str(secs), str(maxruns), "1" if self.tier == "thorough" else "0"] + ([mode] if mode else [])
        p = subprocess.Popen(a, stdout=open(out, "w"), stderr=subprocess.DEVNULL, env=dict(os.environ, SIM_CUR=cur))
        return dict(p=p, cur=cur, out=out, first=first)

    def finish(self, ws, limit):
        """waits for the workers; once one has found something the others get little more time"""
        end = time.time() + limit; found = False
        while any(w["p"].poll() is None for w in ws) and time.time() < end:
            time.sleep(0.1)
            if not found and any(w["p"].poll() is not None and "FOUND " in open(w["out"]).read(200) for w in ws if os.path.exists(w["out"])):
                found = True; end = min(end, time.time() + 3)
        for w in ws:
            w["killed"] = w["p"].poll() is None
            if w["killed"]: w["p"].kill()
            w["p"].wait(); w["found"] = []; w["stats"] = None; w["det"] = []
            for l in open(w["out"]):
                if l.startswith("FOUND "):
                    try: w["found"].append(json.loads(l[6:]))
                    except ValueError: pass
                elif l.startswith("STATS "):
                    try: w["stats"] = json.loads(l[6:])
                    except ValueError: pass
                elif l.startswith("DET "): w["det"].append(l.split()[1:])
        return found

    def candidate(self, text, source):
        """a case that is said to violate: gate it, minimise it, write the replay. True if it is a violation to report"""
        path = "%s/cand_%d" % (self.tmp, int(time.time() * 1e6)); open(path, "w").write(text)
        a, b = run_case(self.exe, path), run_case(self.exe, path)
        if not a["violated"] and not b["violated"]: self.notes.append("not reproduced: " + source); return False
        if a["kind"] != b["kind"] or a["hash"] != b["hash"]: self.notes.append("two replays of a case differ: %s %s / %s %s (%s)" % (a["kind"], a["hash"], b["kind"], b["hash"], source))
        if a["kind"].startswith("sim-"): self.notes.append("inconclusive: %s %s" % (a["kind"], a["detail"])); return False
        t = is_known(known(), self.prop, a, symbolise(self.d, text, a["stack"]))
        if t: self.knownhits[t] = self.knownhits.get(t, 0) + 1; return False
        final, res, info = text, a, ["from " + source]
        if a["kind"] != "process-died":
            lim = 25 if self.tier == "quick" else 90
            try:
                m = subprocess.run([self.exe, "min", path, a["kind"], str(lim)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=lim * 4 + 120)
                for l in m.stdout.split("\n"):
                    if l.startswith("MIN "):
                        j = json.loads(l[4:]); mp = path + "m"; open(mp, "w").write(j["case"])
                        r1, r2 = run_case(self.exe, mp), run_case(self.exe, mp)
                        if r1["violated"] and r1["kind"] == a["kind"] and r1["hash"] == r2["hash"] and not is_known(known(), self.prop, r1, symbolise(self.d, j["case"], r1["stack"])):
                            final, res = j["case"], r1; info.append("minimised in %d runs from %d to %d lines; replayed twice in fresh processes with the same trace hash" % (j["tries"], text.count("\n"), final.count("\n")))
            except (subprocess.TimeoutExpired, ValueError): info.append("not minimised")
        orig = path + "o"; shutil.copy(path, orig)
        rp = write_replay(self.d, self.prop, final, res, info)
        self.viol = (rp, res, final)
        return True

    def run(self):
        self.d = simbuild.build(); self.exe = self.d + "/simfl2"; tb = time.time() - self.t0
        n = nworkers(); cases = 0
        # 1. committed cases: replays of defects found before
        corpus = sorted(glob.glob("%s/corpus/%s_*.txt" % (ROOT, self.prop)))
        def one(c): return c, run_case(self.exe, c)
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(n) as ex:
            for c, r in ex.map(one, corpus):
                cases += 1
                if r["violated"] and not self.viol:
                    text = "\n".join(l for l in open(c).read().split("\n") if l and not l.startswith("#") and not l.startswith("expect")) + "\n"
                    self.candidate(text, "corpus/" + os.path.basename(c))
        st = []; allw = []
        # 2. determinism gate: the same seeds twice in one process and once more in another process
        gate = 0
        if not self.viol:
            ws = [self.work(i, n, 3, GATE, "det", "a") for i in range(n)]; self.finish(ws, 120)
            ws2 = [self.work(i, n, 3, GATE, "det", "b") for i in range(n)]; self.finish(ws2, 120)
            for a, b in zip(ws, ws2):
                da, db = {x[0]: x for x in a["det"]}, {x[0]: x for x in b["det"]}
                for k in da:
                    if da[k][2] != "same" or (k in db and db[k][1] != da[k][1]): self.notes.append("determinism gate: run %s differs between executions (%s, %s)" % (k, da[k], db.get(k)))
                    else: gate += 1
            allw = [ws]
            # 3. search
            if not any(w["found"] for w in ws):
                ws = [self.work(GATE * n + i, n, self.secs, 10 ** 9, None, "s") for i in range(n)]
                self.finish(ws, self.secs * 2 + 240); allw.append(ws)
            founds = sorted((f for w in ws for f in w["found"]), key=lambda f: len(f["case"]) + (10 ** 6 if f["result"]["kind"].startswith(("livelock", "hang", "sim-")) else 0))
            seen = set()
            for f in founds:
                if f["result"]["kind"] in seen and len(seen) > 3: continue
                seen.add(f["result"]["kind"])
                if self.candidate(f["case"], "seed %d (base seed %d, run %d)" % (f["seed"], self.seed, f["index"])): break
            if not self.viol:
                for w in ws:       # a worker that died or never ended
                    if w["stats"] is None and not w["found"] and os.path.exists(w["cur"]):
                        try: idx, seed = open(w["cur"]).read().split()[:2]
                        except ValueError: continue
                        g = subprocess.run([self.exe, "gen", self.prop, seed] + (["1"] if self.tier == "thorough" else []), stdout=subprocess.PIPE, text=True)
                        self.notes.append("worker %d ended without a result in run %s" % (w["first"], idx))
                        if self.candidate(g.stdout, "seed %s (base seed %d, run %s)" % (seed, self.seed, idx)): break
        st = [w["stats"] for ws in allw for w in ws if w["stats"]]
        # 4. a worker stops at its first violation; if all were known findings, the rest of the time is still unexplored: continue past them
        rounds = 0
        while self.knownhits and not self.viol and rounds < 3 and time.time() - self.t0 < self.secs + 60:
            rounds += 1; base = 10 ** 6 * rounds
            ws = [self.work(base + i, n, self.secs / 3, 10 ** 9, "keep", "k%d" % rounds) for i in range(n)]; self.finish(ws, self.secs + 200)
            st += [w["stats"] for w in ws if w["stats"]]
            for w in ws:
                for f in w["found"][:6]:
                    if not self.viol: self.candidate(f["case"], "seed %d" % f["seed"])
        self.evidence(st, cases, gate, n, tb)
        for t, k in sorted(self.knownhits.items()): print("KNOWN-FINDING: property=%s %s" % (self.prop, t))
        for x in self.notes[:10]: print("note: " + x)
        if self.viol:
            rp, res, _ = self.viol
            print("%s: %s" % (res["kind"], res["detail"]))
            for s in symbolise(self.d, self.viol[2], res["stack"])[:6]: print("   at", s)
            print("replay with: python3 check.py --replay %s" % os.path.relpath(rp, ROOT))
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(rp, ROOT))); return 1
        if not st: print("no worker gave a result"); return 2
        tot = sum(s["runs"] for s in st)
        print("%s: held on %d simulated runs (%.0f s, %d processes)" % (self.prop, tot, time.time() - self.t0, n))
        return 0

    def evidence(self, st, cases, gate, n, tb):
        S = lambda k: sum(s[k] for s in st)
        wall = time.time() - self.t0; sw = sum(s["wall"] for s in st) / max(1, n)
        scheds = set(x for s in st for x in s["scheds"]); nt = set(x for s in st for x in s["nthashes"]); pairs = 0
        for f in glob.glob(self.tmp + "/*.pairs"): pairs |= int.from_bytes(open(f, "rb").read(), "little")
        runs = S("runs") + cases; samples = [s["sample"] for s in st if s["sample"]][:2]
        meta = json.load(open(ROOT + "/tools/rules.json"))
        cov = dict(evaluations=runs, distinct_nontrivial=len(nt), rule=meta["common"] + " " + meta[self.prop],
            samples=samples or ["(none)"], committed_cases_replayed=cases, determinism_gate_runs=gate, inconclusive_runs=S("inconclusive"), processes=n,
            runs_per_hour=int(runs / max(sw, 0.001) * 3600), simulated_seconds=round(S("simns") / 1e9, 6), simulated_steps=S("steps"),
            faults_injected={k: S(k) for k in FAULTS},
            interleavings=dict(distinct_switch_sequences=len(scheds), switches=S("switches"), preemptions=S("preempts"), distinct_site_pairs=bin(pairs).count("1"),
                               measure="distinct_switch_sequences: hashes of (step, from, to) of all context switches of a run; distinct_site_pairs: (code location switched out, code location switched in), hashed to 2^23"),
            synchronisation_operations=S("syncops"), allocations=S("allocs"), library_threads=S("threads"),
            library_variants={k: S("lib_" + k) for k in ("small", "smallasm", "std")}, scheduler_modes={k: S("mode_" + k) for k in ("random", "pct", "rr")},
            reached={PROBES[i]: sum(s["probes"][i + 1] for s in st) for i in range(len(PROBES))},
            real_components="all C sources of the library, its LZMA decoder assembly in variants smallasm and std", stubs="pthreads, clocks, malloc family, memcpy family, cpu count files and sysconf: simulated; liblzma: reference decoder and stream source",
            build_s=round(tb, 1), notes=self.notes[:20])
        e = dict(property=self.prop, tier=self.tier, seed=self.seed, level="exploration", coverage=cov,
            assumptions=["sequentially consistent memory: reorderings by the processor or between instrumented accesses by the compiler are not simulated",
                         "accesses of the assembler decoder are atomic blocks between calls, checked by redzones only"],
            wall_s=round(wall, 2), violations=1 if self.viol else 0)
        os.makedirs(ROOT + "/evidence", exist_ok=True)
        p = "%s/evidence/%s.json" % (ROOT, self.prop)
        with open(p + ".t", "w") as f: json.dump(e, f, indent=1)
        os.rename(p + ".t", p)

def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay": return replay(a[1])
    if a and a[0] == "--build": print(simbuild.build()); return 0
    prop = a[0]; tier = os.environ.get("VERIF_TIER") or "quick"; secs = None
    for i, x in enumerate(a):
        if x == "--tier": tier = a[i + 1]
        if x == "--seconds": secs = float(a[i + 1])
    seed = int(os.environ.get("VERIF_SEED") or "1") & ((1 << 40) - 1)
    c = Check(prop, tier, seed, secs or (THOROUGH if tier == "thorough" else QUICK))
    try: return c.run()
    finally: shutil.rmtree(c.tmp, ignore_errors=True)

if __name__ == "__main__":
    try: sys.exit(main())
    except SystemExit: raise
    except BaseException as e:
        import traceback; traceback.print_exc(); sys.exit(2)
