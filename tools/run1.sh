#!/bin/bash
# developer helper: run1.sh KIND CONTRACT...   (KIND sym|native)
cd /verif
b=$(python3 tools/overlay.py $1) || { echo "$b"; exit 2; }
shift
for c in "$@"; do timeout ${T:-300} $b run --only $c --threads 8 --budget ${B:-200} --samples ${S:-200} > /tmp/o.json 2>/tmp/o.err; echo "rc=$?"; tail -3 /tmp/o.err; python3 - <<'P'
import json
for l in open('/tmp/o.json'):
    d=json.loads(l)
    if 'paths' in d:
        print(d['contract'],'paths',d['paths'],'inf',d['infeasible'],'conf',d['confirmed'],{k:v for k,v in d['obligations'].items()},'FAILED',len(d['failed']),'UND',len(d['undecided']),'UNS',d['unsupported'][:3],'smt',d['smt_queries'],round(d['smt_ms']),'trunc',d['truncated'],'wall',d['wall_s'],'unkbr',d['unknown_branches'])
        for f in d['failed'][:4]: print('  F',f['obligation'],f['detail'][:300],f['labels'],{k:v for k,v in list(f['model'].items())[:8]})
        for f in d['undecided'][:3]: print('  U',f['obligation'],f['detail'][:300])
    else:
        print({k:v for k,v in d.items() if k!='failed'})
        for f in d['failed'][:3]: print('  F',f['obligation'],f['detail'],str(f['inputs'])[:400])
P
done
