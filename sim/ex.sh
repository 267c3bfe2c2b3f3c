#!/bin/bash
# dev: ex.sh BIN PROP SECS [extra]
B=$1; P=$2; T=$3; shift 3
O=/tmp/b/out-$P; mkdir -p $O; rm -f $O/*.json
$B explore --prop $P --time $T --out $O "$@" 2>&1 | tail -5
python3 - $O $P <<'P'
import json,sys
try: j=json.load(open(sorted(__import__('glob').glob(sys.argv[1]+'/explore-*.json'))[0]))
except Exception as e: print('NO RESULT',e); sys.exit()
print(sys.argv[2],{k:j[k] for k in ('runs','ops','interesting','distinct_runs','distinct_states','unreproducible','unreproducible_kind','nondeterministic','det_fresh','det_fresh_bad','wall')})
v=j['violation']
if v: print('VIOLATION',v['kind'],v['orig_ops'],'->',v['min_ops'],v['msg'][:300]); print('\n'.join(l for l in open(v['replay']).read().split('\n') if not l.startswith('#')))
P
