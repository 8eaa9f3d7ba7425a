#!/usr/bin/env python3
"""replant.py [ids]: re-confirms every planted bug against the repository's own tests in a scratch copy"""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tmp = '/tmp/plant'
def sh(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.exists(tmp):
    shutil.copytree('/repo', tmp, symlinks=True)
for i in sys.argv[1:] or sorted(os.listdir(os.path.join(V, 'seeded'))):
    d = os.path.join(V, 'seeded', i)
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', tmp)
    a = sh('git apply ' + os.path.join(d, 'patch.diff'), tmp)
    t = sh('. /opt/vp/env.sh; cd /tmp/plant; export CARGO_TARGET_DIR=/tmp/plant/target; cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 2>&1', tmp, timeout=900)
    fails = [l for l in t.stdout.splitlines() if l.endswith('FAILED') or l.startswith('error')]
    d1 = sh('timeout 200 ' + os.path.join(d, 'demo.sh'), tmp)
    print(i, 'apply', a.returncode, 'tests', t.returncode, fails[:3], 'demo', d1.returncode, flush=True)
sh('git checkout -q -- .', tmp)
