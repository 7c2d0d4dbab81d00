#!/bin/bash
# runs all (or given) checks, printing rc, time
cd /verif
for p in ${@:-$(ls harness | grep -o 'p[0-9][0-9]' | tr p P)}; do
 s=$(date +%s); timeout 890 python3-vt run.py $p > /tmp/allout/$p.txt 2>&1; rc=$?; e=$(date +%s)
 echo "$p rc=$rc $((e-s))s $(grep -c 'not exhaustive' /tmp/allout/$p.txt) $(grep 'not exhaustive' /tmp/allout/$p.txt | head -1 | cut -c1-150)"
done
