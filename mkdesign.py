#!/usr/bin/env python3
"""writes DESIGN.md from design.tmpl, design_props.md, the contracts and seeded/*/meta.json"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import contracts
fns, drops = contracts.parse()
notes = {}
cur = None
for l in open('design_props.md'):
    if l.startswith('## '):
        cur = l[3:].strip(); notes[cur] = ''
    elif cur:
        notes[cur] += l
out = []
for l in open('properties.jsonl'):
    d = json.loads(l); p = d['id']
    mine = {k: c for k, c in fns.items() if p in c.get('props', []) and c.get('kind') == 'fn'}
    pr = sorted(k for k, c in mine.items() if 'trusted' not in c and 'bounded' not in c)
    out.append('### %s %s\n' % (p, d['title']))
    out.append('Under discharged contracts (%d): %s\n' % (len(pr), ', '.join('`%s`' % k for k in pr) or 'none yet'))
    for w in ('trusted', 'bounded'):
        ks = sorted(k for k, c in mine.items() if w in c)
        if ks: out.append('%s: %s\n' % (w.capitalize(), '; '.join('`%s` (%s)' % (k, mine[k][w]) for k in ks)))
    out.append(notes.get(p, '').strip() + '\n')
seed = ['| id | property | needs | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir('seeded')):
    m = json.load(open(os.path.join('seeded', i, 'meta.json')))
    seed.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], m.get('caught_by', '')))
t = open('design.tmpl').read().replace('@@PROPS@@', '\n'.join(out)).replace('@@SEEDED@@', '\n'.join(seed))
open('DESIGN.md', 'w').write(t)
