#!/bin/bash
# developer helper: bt.sh cNN fn... : compile one harness and run functions
h=$1; shift
cd /verif/build
../bcc.sh ../harness/$h.cpp $h.bc -ferror-limit=4 -ftemplate-backtrace-limit=2 2>&1 | grep error -A3 | head -16
for f in "$@"; do
  timeout ${T:-300} ./bsx $h.bc -fn $f -out /tmp/o_$f -time ${T:-280} $BOPT 2>&1 | head -20
  python3 - /tmp/o_$f.jsonl <<'P'
import json,sys
n={}
for l in open(sys.argv[1]):
    try: d=json.loads(l)
    except Exception: print("BAD",l[:200]); continue
    k=d['kind']; n[k]=n.get(k,0)+1
    if k in('violation','inconclusive','error') and n[k]<=int(__import__('os').environ.get('NV','3')): print(' ',l.strip()[:1500])
    if k=='summary': print(sys.argv[1],{a:b for a,b in d.items() if b and a!='kind'})
P
done
