#!/usr/bin/env python3
"""Builds the simulator and the library variants from /repo's working tree, keyed by content."""
import hashlib, os, subprocess, sys, glob, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
REPO = os.environ.get("FL2_REPO", "/repo"); OUT = os.path.join(ROOT, "build")

SYMS = """malloc calloc realloc free posix_memalign aligned_alloc memcpy memmove memset memcmp
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
pthread_create pthread_join pthread_self pthread_detach sched_yield usleep nanosleep
gettimeofday clock_gettime time clock fopen fgets feof ferror fclose sysconf fprintf printf fwrite fputc fflush abort exit""".split()
SPECIAL = {"__memcpy_chk": "sim_memcpy_chk", "__assert_fail": "sim_assert_fail", "__stack_chk_fail": "sim_stack_chk_fail"}

def h(files, extra=""):
    m = hashlib.sha256(extra.encode())
    for f in sorted(files):
        m.update(os.path.basename(f).encode()); m.update(open(f, "rb").read())
    return m.hexdigest()[:16]

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise RuntimeError("build failed: %s\n%s" % (" ".join(cmd), r.stdout))

GLUE = r'''
#include <stddef.h>
int LZMA_decodeReal_3(void *p, size_t limit, const unsigned char *b);
size_t sim_asm_enter_exit(void*);
int sim_LZMA_decodeReal_3(void *p, size_t limit, const unsigned char *b) {
  void* ra = __builtin_return_address(0);
  sim_asm_enter_exit(ra); int r = LZMA_decodeReal_3(p, limit, b); sim_asm_enter_exit(ra); return r; }
'''

def build():
    srcs = sorted(glob.glob(REPO + "/*.c")); hdrs = sorted(glob.glob(REPO + "/*.h")); asm = sorted(glob.glob(REPO + "/*.S"))
    mine = sorted(glob.glob(HERE + "/*.cpp") + glob.glob(HERE + "/*.h"))
    key = h(srcs + hdrs + asm + mine + [os.path.abspath(__file__)])
    d = os.path.join(OUT, key)
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(d + "/ok"): return d
        tmp = d + ".tmp"; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        rs = tmp + "/syms"
        with open(rs, "w") as f:
            for s in SYMS: f.write("%s sim_%s\n" % (s, s))
            for a, b in SPECIAL.items(): f.write("%s %s\n" % (a, b))
        jobs = []
        libs = {"small": ["-DFL2_SIM_TUNING=2"], "smallasm": ["-DFL2_SIM_TUNING", "-DLZMA2_DEC_OPT"], "std": ["-DLZMA2_DEC_OPT"]}
        base = ["gcc", "-O2", "-g1", "-w", "-pthread", "-fPIC", "-fsanitize=thread", "-fno-builtin", "-fstack-protector-strong", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-omit-frame-pointer", "-ffile-prefix-map=%s=." % REPO]
        for n, fl in libs.items():
            for s in srcs:
                o = "%s/%s_%s.o" % (tmp, n, os.path.basename(s)[:-2])
                def job(s=s, fl=fl, o=o, n=n):
                    sh(base + fl + ["-I" + REPO, "-c", s, "-o", o])
                    sh(["objcopy", "--redefine-syms=" + rs, o])
                    if "-DLZMA2_DEC_OPT" in fl: sh(["objcopy", "--redefine-sym", "LZMA_decodeReal_3=sim_LZMA_decodeReal_3", o])
                jobs.append(job)
        glue = tmp + "/glue.c"; open(glue, "w").write(GLUE)
        jobs.append(lambda: sh(["gcc", "-O2", "-fPIC", "-c", glue, "-o", tmp + "/glue.o"]))
        for s in asm:
            jobs.append(lambda s=s: sh(["gcc", "-DMS_x64_CALL=0", "-fPIC", "-c", s, "-o", tmp + "/asm_%s.o" % os.path.basename(s)[:-2]]))
        # simulator objects are cached separately: they depend on fast-lzma2.h only
        for m in mine:
            if not m.endswith(".cpp"): continue
            k = h([x for x in mine if x.endswith(".h")] + [m, REPO + "/fast-lzma2.h", REPO + "/fl2_errors.h"])
            o = os.path.join(OUT, "obj_%s_%s.o" % (os.path.basename(m)[:-4], k))
            def job(m=m, o=o):
                if not os.path.exists(o):
                    sh(["g++", "-std=c++17", "-O2", "-g1", "-w", "-I" + REPO, "-c", m, "-o", o + ".t"]); os.rename(o + ".t", o)
                shutil.copy(o, "%s/sim_%s.o" % (tmp, os.path.basename(m)[:-4]))
            jobs.append(job)
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for f in [ex.submit(j) for j in jobs]: f.result()
        for n, fl in libs.items():
            objs = sorted(glob.glob("%s/%s_*.o" % (tmp, n)))
            objs = [o for o in objs if os.path.basename(o).split("_")[0] == n]
            if "-DLZMA2_DEC_OPT" in fl: objs += [tmp + "/glue.o"] + sorted(glob.glob(tmp + "/asm_*.o"))
            sh(["gcc", "-shared", "-Wl,-Bsymbolic", "-Wl,-z,noexecstack", "-o", "%s/lib_%s.so" % (tmp, n)] + objs)
        sh(["g++", "-rdynamic", "-o", tmp + "/simfl2"] + sorted(glob.glob(tmp + "/sim_*.o")) + ["-ldl", "-lpthread", "-l:liblzma.a"])
        for f in glob.glob(tmp + "/*.o"): os.remove(f)
        open(tmp + "/ok", "w").close()
        shutil.rmtree(d, ignore_errors=True); os.rename(tmp, d)
        # keep the cache small
        old = sorted((x for x in glob.glob(OUT + "/*/ok")), key=os.path.getmtime)[:-4]
        for x in old: shutil.rmtree(os.path.dirname(x), ignore_errors=True)
        for x in glob.glob(OUT + "/obj_*.o"):
            pass
    return d

if __name__ == "__main__":
    print(build())
