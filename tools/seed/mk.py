#!/usr/bin/env python3
"""Makes /verif/seeded/* from bugs.py: mk.py [ID...] (all if none named); confirms each one in a scratch copy."""
import os, shutil, subprocess, sys, json
here = os.path.dirname(os.path.abspath(__file__)); S = os.path.join(here, '../../seeded')
sys.path.insert(0, here)
from bugs import BUGS
W = '/tmp/seedrepo'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
want = sys.argv[1:] or list(BUGS)
if not os.path.exists(W): sh('cp -a /repo %s' % W)
sh('git fetch -q /repo && git reset -q --hard FETCH_HEAD', cwd=W)
for id in want:
    b = BUGS[id]; d = os.path.join(S, id)
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    sh('git checkout -q -- .', cwd=W)
    for f, old, new in b['edits']:
        p = os.path.join(W, f); t = open(p).read()
        assert t.count(old) == 1, (id, f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    open(d + '/patch.diff', 'w').write(sh('git diff', cwd=W).stdout)
    shutil.copy(here + '/demo.sh', d); os.chmod(d + '/demo.sh', 0o755)
    if 'main' in b: open(d + '/main.rs', 'w').write(b['main'].lstrip())
    else: shutil.copy(here + '/host.rs', d + '/main.rs')
    if 'py' in b: open(d + '/demo.py', 'w').write(open(here + '/ptylib.py').read() + b['py'].lstrip())
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    env = dict(os.environ, CARGO_TARGET_DIR=W + '/target')
    o = sh('bash -c ". /opt/vp/env.sh; cargo test --workspace --no-fail-fast --offline -- --test-threads 8; cargo check -q --all-features --offline"', cwd=W, env=env)
    bad = [l for l in o.stdout.split('\n') if 'FAILED' in l or l.startswith('error')]
    r1 = sh('bash %s/demo.sh 2>&1 | grep -v "^ \\|warning\\|^$"; exit ${PIPESTATUS[0]}' % d, cwd=W, executable='/bin/bash')
    sh('git checkout -q -- .', cwd=W)
    r0 = sh('bash %s/demo.sh 2>&1 | grep -v "^ \\|warning\\|^$"; exit ${PIPESTATUS[0]}' % d, cwd=W, executable='/bin/bash')
    print(id, 'tests:', bad[:3] or 'ok', 'with:', r1.returncode, 'without:', r0.returncode, '' if r0.returncode == 0 and r1.returncode != 0 else 'BAD')
    print('   ', r1.stdout.strip()[-300:]); 
    if r0.returncode: print('   clean:', r0.stdout.strip()[-600:])
