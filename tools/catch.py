#!/usr/bin/env python3
"""catch.py [ID...]: applies each planted bug to /repo, runs its property's check, undoes it, records what caught it"""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
for i in ids:
    d = V + '/seeded/' + i
    m = json.load(open(d + '/meta.json'))
    a = sh('git -C /repo apply %s/patch.diff' % d)
    if a.returncode: print(i, 'does not apply', a.stdout); continue
    try:
        r = sh('cd %s && ./check.py %s' % (V, m['property']))
    finally:
        sh('git -C /repo checkout -- .')
    v = re.findall(r'^VIOLATION.*$', r.stdout, re.M)
    ob = re.findall(r'^obligation failed: (.*)$', r.stdout, re.M)
    un = re.findall(r'^undecided: (.*)$', r.stdout, re.M)
    how = []
    if ob: how.append('proof: ' + ', '.join(ob))
    elif un: how.append('proof undecided: ' + ', '.join(u.split(':')[0] + '::' + u.split(':')[2] if '::' in u else u for u in un)[:120])
    if v and 'no-failing' not in v[0]: how.append('failing input by harness')
    m['caught_by'] = ('check %s: ' % m['property'] + '; '.join(how)) if v else 'missed by check ' + m['property']
    json.dump(m, open(d + '/meta.json', 'w'), indent=1)
    print(i, r.returncode, m['caught_by'], v[:1])
