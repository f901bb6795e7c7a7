#!/bin/bash
# dev.sh build | run ENTRY... 
T=${RT:-tk}
if [ $1 = build ]; then
 cd /verif/harness
 RUSTFLAGS="--cfg sx -C no-vectorize-loops -C no-vectorize-slp" cargo rustc --offline --release --no-default-features --features $T --target-dir /tmp/ht-sx-$T -- --emit=llvm-ir -C linker=/bin/true 2>&1 | grep -E "^(warning: unused|error|  -->)|Finished" | head -60
 exit
fi
LL=$(ls -t /tmp/ht-sx-$T/release/deps/harness-*.ll | head -1)
shift
for e in "$@"; do
 /usr/bin/time -f "%es %MKB" -o /tmp/time timeout ${TO:-300} /verif/symex/target/release/symex $LL --entries $e --out /tmp/r-$e.json --threads 8 --time ${TL:-200} --steps 40000000 --samples 5 --tier ${TIER:-0} --seed 1 --stop ${STOP:-0} --solver-ms 60000 --src /repo/src/ 2>&1 | tail -3
 python3 - $e <<'P'
import json,sys
e=sys.argv[1]
r=json.load(open('/tmp/r-%s.json'%e)); x=r['entries'][e]
print(e, open('/tmp/time').read().strip().split('\n')[-1], '' if r['complete'] else '!!! INCOMPLETE timed_out=%s crashed=%s'%(r['timed_out'],r['crashed']), 'instr=%.0fM'%(r['instructions']/1e6),'q=%d solver=%.1fs'%(r['queries'],r['solver_seconds']), {k:x[k] for k in x if k!='covers'}, x['covers'], r['errors'][:3] or '')
for v in r['violations'][:4]: print('   V',v['kind'],v['detail'],v['inputs'],v['stack'][-3:])
P
done
