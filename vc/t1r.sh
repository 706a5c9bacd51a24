#!/bin/bash
# run several filters in parallel
m=$1; shift
for f in "$@"; do (VC_INV=1 timeout ${T:-600} python3-vt t1.py $m $f > /tmp/o_$f.txt 2>&1; echo "== $f"; cut -c1-${W:-1200} /tmp/o_$f.txt | tail -${L:-12}) & done; wait
