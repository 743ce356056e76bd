#!/bin/bash
# r.sh unit [verus args]
u=$1; shift
cd /verif && build/vx/debug/vx units/$u/overlay.vx ${REPO:-/repo} /tmp/vt/$u.rs /tmp/vt/$u.json $VXARGS && cd /tmp/vt && python3 - $u <<'P'
import json,sys
d=json.load(open(f'/tmp/vt/{sys.argv[1]}.json'))
for f in d['fns']:
    if f['lost'] or f['missing']: print('LOST',f['name'],f['lost'])
P
verus $u.rs "$@" 2>&1 | grep -v "rust_verify/src"
