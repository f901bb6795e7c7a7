#!/bin/bash
# all.sh [TIER] [ID...]: runs the checks, one line each
T=${1:-quick}; shift
cd /verif
for p in ${@:-$(python3 -c "from props import PROPS; print(*PROPS)")}; do
 s=$(date +%s); o=$(VERIF_SEED=1 VERIF_TIER=$T python3 check.py $p $T 2>&1); r=$?
 echo "$p rc=$r $(( $(date +%s)-s ))s $(echo "$o" | tail -1 | cut -c1-300)"
done
