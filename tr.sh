#!/bin/bash
# dev: tr.sh bc time "params" [engine opts]
bc=$1; tm=$2; shift 2; p=$1; shift
timeout $((tm*3+30)) /verif/build/symx $(for x in $p; do echo --param $x; done) --time $tm "$@" --out /tmp/o-$$.json $bc 2>&1 | tail -4 | cut -c1-400
python3 - /tmp/o-$$.json "$p" <<'P'
import json,sys; d=json.load(open(sys.argv[1])); print('==',sys.argv[2],'exh',d['exhausted'],'paths',d['paths'],'q',d['queries'],'solver',round(d['solver_s'],1),d['unsupported'],d['reached'],[(v['kind'],v['label'],v['msg'][:80],v['loc'][:300]) for v in d['violations']][:6])
P
rm -f /tmp/o-$$.json
