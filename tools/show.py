#!/usr/bin/env python3
"""show.py WORKFILE [kind] [n]: prints violations of a work run with symbolised stacks"""
import sys, json, subprocess, glob, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sym(d, lib, st):
    if not st: return []
    o = subprocess.run(["addr2line", "-f", "-s", "-e", "%s/lib_%s.so" % (d, lib)] + [hex(int(x, 16) - 1) if int(x,16) < 1<<40 else x for x in st], stdout=subprocess.PIPE, text=True).stdout.split("\n")
    return ["%s %s" % (o[i], o[i + 1]) for i in range(0, len(o) - 1, 2)]
if __name__ == "__main__":
    d = subprocess.run(["python3", ROOT + "/sim/build.py"], stdout=subprocess.PIPE, text=True).stdout.strip()
    kind = sys.argv[2] if len(sys.argv) > 2 else ""; n = int(sys.argv[3]) if len(sys.argv) > 3 else 3
    for l in open(sys.argv[1]):
        if not l.startswith("FOUND "): continue
        j = json.loads(l[6:]); r = j["result"]
        if kind and kind not in r["kind"] + r["detail"]: continue
        print("#%d %s: %s  steps %d" % (j["index"], r["kind"], r["detail"], r["steps"]))
        lib = [x.split("lib=")[1].split()[0] for x in j["case"].split("\n") if "lib=" in x][0]
        for s in sym(d, lib, r["stack"]): print("     ", s)
        if len(sys.argv) > 4: print(j["case"])
        n -= 1
        if n <= 0: break
