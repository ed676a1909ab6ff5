#!/bin/bash
# run1.sh PROPSRC TARGET [vpse args]: compile one harness for one target and run it, print a summary (development aid).
p=$1; t=$2; shift 2; fl=gcc; case $t in dl|emu|spr|zen4) fl=clang;; esac; fl=${FL:-$fl}
bash /verif/tools/cc.sh /verif/harness/$p.cc $t $fl /tmp/${p}_$t.bc > /tmp/${p}_$t.log 2>&1 || { grep -E "error" /tmp/${p}_$t.log | head -12; exit 1; }
(time timeout 900 /verif/build/vpse /tmp/${p}_$t.bc --out /tmp/o_${p}_$t.json -j ${J:-3} --goal-s ${GS:-60} "$@") > /tmp/${p}_$t.run 2>&1
python3 /verif/tools/sum.py /tmp/o_${p}_$t.json | cut -c1-${W:-260} | head -${L:-25}; grep real /tmp/${p}_$t.run
