#!/usr/bin/env python3
"""development aid: verify everything (or some modules) and print what fails"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import verify, gen
args = sys.argv[1:]
full = '-v' in args
if full: args.remove('-v')
o = verify.verify("/tmp/vwork", args, log=print, full_log=full, rounds=int(os.environ.get("R","14")))
print('rounds', o.rounds, 'wall %.1f' % o.wall, o.results)
for e in o.crate.errors: print('extract:', e)
for t, ds in o.failed.items():
    for d in ds:
        print('----', t); print(d['rendered'])
if not o.json: print(o.stderr[-3000:])
for k, v in o.external.items(): print('EXTERNAL', k, v)
print('retried', o.retried)
print('DROPPED', sorted(o.dropped))
slow = sorted(o.fn_time.items(), key=lambda x: -x[1])[:8]
print('slow', [(k, round(v, 2)) for k, v in slow])
ok = [k for k, p in o.crate.pieces.items() if not p['external'] and p['body'] is not None]
print('verified bodies', len(ok), 'of', len(o.crate.pieces))
if os.environ.get('SHAPE'):
    import json, check
    json.dump(check.shapes(o.crate), open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'contracts', 'shape.json'), 'w'), indent=0, sort_keys=True)
