#!/usr/bin/env python3
"""Writes known_findings.txt: repaired defects (they suppress nothing) and, if any, open findings."""
import subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = """56d5d06 C30
e02a231 C13
18c176f C30
e625e3b C30
0c98fd7 C24
e3dbcd7 C24
6ba4303 C10
7643d05 C06
891fd2a C17
ffa821c C11
601a5ed C11
3099618 C11
4dbd7d3 C14
58317cb C03
ef80e3f C05
48767f4 C15
709a8b0 C14
386b5c2 C10
ce31982 C06
35c2e2a C22
a11f64a C02
06371e6 C09
9f5460b C13
ab02864 C22
815a084 C09
de46b57 C09
eaa565e C19
4dc1ac1 C05
faedb99 C06
74045c8 C13
106a991 C09
c5640eb C01
2d24436 C13
5a0d9fd C01
c72ad0d C20"""
OPEN = []
with open(ROOT + "/known_findings.txt", "w") as f:
    f.write("# fixed: property=<id> <commit> <what failed>          (repaired; suppresses nothing)\n# finding: property=<id> kind=<kind> match=<regex over detail and stack> | <what fails>   (open; none at present unless listed below)\n")
    for l in FIX.split("\n"):
        c, p = l.split()
        s = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%s", c], stdout=subprocess.PIPE, text=True).stdout.strip()
        f.write("fixed: property=%s %s %s\n" % (p, c, s.replace("fix: ", "")))
    for o in OPEN: f.write("finding: " + o + "\n")
