#!/bin/bash
# runs each planted bug's check against a scratch copy of the sources
for d in ${@:-$(ls /verif/seeded)}; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
 rm -rf /tmp/w/rs; cp -a /repo /tmp/w/rs; git -C /tmp/w/rs apply /verif/seeded/$d/patch.diff || echo APPLYFAIL
 t0=$(date +%s); QSRC=/tmp/w/rs/src/qutip_qtrl timeout 900 python3-vt /verif/check.py $p > /tmp/w/rs.out 2>&1; rc=$?
 echo "$d $p rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 VIOLATION /tmp/w/rs.out) | $(grep -v VIOLATION /tmp/w/rs.out | head -2 | cut -c1-150| tr '\n' ' ')"
done
