#!/bin/bash
# sweep.sh SECONDS SEED [props...]: runs the generator of each property and prints the classes of what was found
S=$1; SEED=$2; shift 2; P="$@"; [ -z "$P" ] && P="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C30 C31 C32"
D=$(python3 /verif/sim/build.py) || exit 1
for p in $P; do (timeout $((S*3+60)) $D/simfl2 work $p $SEED 0 1 $S 100000 0 keep > /tmp/w$p.txt 2>&1) & while [ $(jobs -r | wc -l) -ge 8 ]; do wait -n; done; done; wait
for p in $P; do echo "$p found $(grep -c FOUND /tmp/w$p.txt) $(grep -o '"runs":[0-9]*' /tmp/w$p.txt) $(grep -o '"steps":[0-9]*' /tmp/w$p.txt | tail -1)"; grep -o '"kind":"[^"]*"' /tmp/w$p.txt | sort | uniq -c | sort -rn | head -8; done
