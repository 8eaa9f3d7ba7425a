#!/usr/bin/env python3
"""proofonly.py [ID ...] : what the verifier alone says about each planted bug (run in a copy of /repo); no harness
prints one line per bug: VIOLATED / undecided / proved, and the reasons"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TMP = '/tmp/proofonly'
os.environ['VERIF_REPO'] = TMP + '/repo'
sys.path.insert(0, V)
import check
check.HERE = TMP
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    shutil.rmtree(TMP, ignore_errors=True)
    os.makedirs(TMP + '/build')
    subprocess.run('git clone -q /repo %s/repo && cd %s/repo && git apply %s/seeded/%s/patch.diff && cp -a /repo/Cargo.lock . 2>/dev/null' % (TMP, TMP, V, i), shell=True, stderr=subprocess.DEVNULL)
    p = json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']
    v = check.run_verifier(p, 'quick', TMP)
    w = 'VIOLATED' if v['violated'] else 'undecided' if v['undecided'] else 'proved'
    print('== %s %s %s | %s' % (i, p, w, ', '.join(v['violated'])))
    for n in v['notes']:
        print('   note ' + n[:300].replace('\n', ' '))
    for k, r in v['undecided'].items():
        print('   %s: %s' % (k, r[:220].replace('\n', ' ')))
    sys.stdout.flush()
shutil.rmtree(TMP, ignore_errors=True)
