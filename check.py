#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decides one property on /repo's current tree.

1. the functions under contract for the property are extracted from /repo/src and given to Verus;
2. the harness (bounded stand-in and counterexample search) runs the real crate.

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
"""
import concurrent.futures, json, os, re, shutil, signal, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib import contracts, gen, verify

EVID = os.path.join(HERE, 'evidence')
SHAPE = os.path.join(HERE, 'contracts', 'shape.json')
HARNESS = os.path.join(HERE, 'harness')
LOCAL_ZONE = '<+1330>-13:30'  # the harness runs on a machine that is not in UTC: nothing in the crate may depend on that


def build_harness():
    r = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=HARNESS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError('building the harness against /repo failed:\n' + r.stdout[-4000:])
    return os.path.join(HARNESS, 'target', 'debug', 'harness')


def run_harness(prop, seed, tier, out, limit=None, scale=None):
    t0 = time.time()
    os.makedirs(out, exist_ok=True)
    exe = build_harness()
    built = time.time() - t0
    for n in ('%s.json' % prop, '%s.replay.json' % prop):
        p = os.path.join(out, n)
        if os.path.exists(p):
            os.remove(p)
    r = subprocess.Popen([exe, 'run', prop, str(seed), tier, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True,
                         env=dict(os.environ, TZ=LOCAL_ZONE, **({'HARNESS_SCALE': str(scale)} if scale else {})))
    try:
        said, _ = r.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(r.pid, signal.SIGKILL)
        r.communicate()
        return {'fail': None}
    if r.returncode not in (0, 1):
        raise RuntimeError('harness ended with %d:\n%s' % (r.returncode, said[-3000:]))
    h = {}
    p = os.path.join(out, '%s.json' % prop)
    if os.path.exists(p):
        h = json.load(open(p))
    h['build_s'] = round(built, 1)
    h['fail'] = None
    if r.returncode == 1:
        m = re.search(r'^FAIL (.*)$', said, re.M)
        h['fail'] = m.group(1) if m else os.path.join(out, '%s.replay.json' % prop)
    k = subprocess.run([exe, 'known', prop], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    h['known'] = re.findall(r'^KNOWN (.*)$', k.stdout, re.M)
    return h


def shapes(crate):
    return {k: p['shape'] for k, p in sorted(crate.pieces.items()) if p.get('shape') and p['body'] is not None}


# properties that also need the plain safety (no panic, termination, callees' preconditions) of functions whose
# functional contract belongs to other properties
SAFETY = {'C15': re.compile(
    r'^parser::|^value_types::|::FromStr for |::TryFrom<|::get_\w+$|::from_property$|::from_\w*str(ing)?$|::parse_\w+$|::try_into_utc$|'
    r'::(properties|multi_properties|components|append_component|append_property|append_multi_property|property_value|insert_multi|done|as_event|as_todo)$|'
    r'^properties::Property::(new|key|value|params|value_type|append_parameter)|^properties::Parameter::|'
    r'::From<(InnerComponent|Other|Event|Todo|Venue|Alarm|\(String,InnerComponent\))> for \w+::from$|::Calendar::(push|empty|default)$')}
FUNCTIONAL = re.compile(r'postcondition not satisfied|ensures not satisfied|invariant not satisfied|assertion failed|assertion not satisfied')


def safety_only(d):
    """a diagnostic about what the function computes, or about a proof step in a hint, not about a panic or a loop"""
    return not FUNCTIONAL.search(d['message']) and 'lemma' not in d.get('rendered', '')


def run_verifier(prop, tier, out):
    """-> dict with the obligations of this property and what became of each"""
    fns, _ = contracts.parse()
    mine = sorted(k for k, c in fns.items() if prop in c.get('props', []))
    safe = SAFETY.get(prop)
    extra = set(k for k in fns if safe and k not in mine and safe.search(k) and fns[k].get('kind') == 'fn')
    mine = sorted(extra | set(mine))
    proved_kind = [k for k in mine if fns[k].get('kind') == 'fn' and 'trusted' not in fns[k] and 'bounded' not in fns[k]]
    v = {'functions': {}, 'undecided': {}, 'violated': {}, 'trusted': {}, 'bounded': {}, 'lemmas': {}, 'wall': 0.0, 'solver': 0.0, 'notes': [], 'elsewhere': []}
    for k in mine:
        for w in ('trusted', 'bounded'):
            if w in fns[k]:
                v[w][k] = fns[k][w]
    if not proved_kind:
        return v
    work = os.path.join(HERE, 'build', 'verify-' + prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    t0 = time.time()
    try:
        args = ['--num-threads', '6', '--rlimit', '240' if tier == 'thorough' else '60']
        o = verify.verify(work, args, timeout=500)
    except Exception as e:
        v['notes'].append('the extractor gave no crate: %s' % str(e)[:500])
        for k in proved_kind:
            v['undecided'][k] = 'extraction failed'
        v['wall'] = time.time() - t0
        return v
    v['wall'] = time.time() - t0
    # a default method that is verified once per implementing type
    for k in list(proved_kind):
        if 'mono' in fns[k]:
            for n, p in o.crate.pieces.items():
                if p.get('of') == k and n not in fns:
                    fns[n] = fns[k]
                    v.setdefault('copies', {})[n] = k
                    extra.update([n] if k in extra else [])
                    proved_kind.append(n)
    base = json.load(open(SHAPE)) if os.path.exists(SHAPE) else {}
    now = shapes(o.crate)
    new = set(now) - set(base)
    finished = bool(o.results) and not o.results.get('encountered-vir-error') and not o.front
    if not finished:
        v['notes'].append('Verus gave no verdict: ' + '; '.join(d['message'][:200] for d in o.front)[:600] + (o.stderr[-300:] if not o.front else ''))
    spec_fail = [(t, ds) for t, ds in o.failed.items() if t[0] != 'fn']
    if spec_fail:
        v['notes'].append('lemma not proved: %s' % spec_fail[0][1][0]['message'])
    for k in proved_kind:
        p = o.crate.pieces.get(k)
        c = fns[k]
        if not finished:
            v['undecided'][k] = 'no verdict from Verus'
        elif p is None:
            v['undecided'][k] = 'the function is not in the source any more, or was left out: ' + ('dropped' if k in o.dropped else 'not found')
        elif p['external']:
            v['undecided'][k] = p['external']
        elif ('fn', k) in o.failed:
            ds = o.failed[('fn', k)]
            msgs = [d.get('rendered', d['message']) for d in ds]
            timeout = any('esource limit' in d['message'] or 'rlimit' in d['message'] for d in ds)
            callees = [n for n in new if re.search(r'\b%s\b' % re.escape(n.split('::')[-1]), p.get('text') or '')]
            changed = base.get(k) != now.get(k)
            guided = bool(c.get('loops') or c.get('hints') or c.get('closures'))
            # a loop or a closure that was not there when the contract was written has no invariant or contract of its own
            b, n = base.get(k) or {}, now.get(k) or {}
            guided = guided or any(n.get(w, 0) > b.get(w, 0) for w in ('loops', 'closures'))
            if timeout:
                v['undecided'][k] = 'solver gave up: ' + msgs[0][:300]
            elif callees:
                v['undecided'][k] = 'it now calls functions that have no contract: %s' % ', '.join(callees)
            elif k in extra and not any(safety_only(d) for d in ds):
                v['undecided'][k] = 'it does not meet its functional contract, which is not this property\'s; callers rely on it: ' + msgs[0][:200]
            elif changed and guided:
                v['undecided'][k] = 'its loops or closures changed, the committed invariants do not fit: ' + msgs[0][:300]
            else:
                v['violated'][k] = msgs
        else:
            v['functions'][k] = {'clauses': clauses(c)}
    # functions of other properties that are not proved any more: what they break may show in this property as well
    for k, c in fns.items():
        p = o.crate.pieces.get(k)
        if k not in mine and k not in proved_kind and c.get('kind') == 'fn' and (p is None or p['external'] or ('fn', k) in o.failed):
            v['elsewhere'].append(k)
    specs = {n: ok for n, ok in o.fn_ok.items()}
    v['lemmas'] = {n: ok for n, ok in specs.items() if n.startswith('lib::spec') or n.startswith('crate::spec') or '::lemma' in n}
    v['units'] = specs
    v['solver'] = sum(o.fn_time.values())
    v['rounds'] = o.rounds
    v['crate'] = os.path.join(work, 'crate.rs')
    v['dropped'] = sorted(o.dropped)
    v['nom'], v['nom_errors'] = getattr(o.crate, 'nom', []), getattr(o.crate, 'nom_errors', [])
    v['no_contract'] = sum(1 for p in o.crate.pieces.values() if p['external'])
    v['total_functions'] = len(o.crate.pieces)
    if tier == 'thorough' and finished:
        v['vacuity'] = vacuity(work, proved_kind, v)
    return v


def clauses(c):
    n = sum(1 for x in re.split(r',\s*\n', c.get('ensures', '') + '\n') if x.strip())
    n += sum(len([y for y in l.get('invariant', '').split(',') if y.strip()]) for l in c.get('loops', {}).values())
    return n


def vacuity(work, ks, v):
    """no contract may be provable together with false: assert(false) at the end of each function must fail"""
    fns, drops = contracts.parse()
    for k in ks:
        c = fns[k] if k in fns else fns[v['copies'][k]]
        h = c.setdefault('hints', {})
        if 'assert(false)' not in h.get('exit', ''):
            h['exit'] = h.get('exit', '') + '\nproof { assert(false); }'
    try:
        orig = contracts.parse
        contracts.parse = lambda: (fns, drops)
        o = verify.verify(work + '-vac', ['--num-threads', '6', '--rlimit', '20'], timeout=500)
    finally:
        contracts.parse = orig
    bad = [k for k in ks if k in v['functions'] and ('fn', k) not in o.failed and not (o.crate.pieces.get(k) or {}).get('external')
           and (o.crate.pieces.get(k) or {}).get('body') is not None and k not in v.get('copies', {}).values()]
    if bad:
        v['notes'].append('contract holds vacuously: %s' % bad)
    return {'checked': len(ks), 'vacuous': bad}


def trusted_base(v):
    out = ['Verus 0.2026.09.13 with its bundled Z3, and the vstd axioms',
           'vx (extractor): /verif/vx/src/main.rs, the rewriting it applies is listed in DESIGN.md',
           'contracts of std and chrono functions and of nom\'s compare, assumed in /verif/verus/shim*.rs (audited against the libraries in the thorough tier)']
    if v.get('nom'):
        out.append('nom 7: %s are verified against their contracts from the nom source in the cargo registry (FnMut as Fn, without Incomplete, error values as arbitrary values)' % ', '.join(v['nom']))
    if v.get('nom_errors'):
        out.append('nom 7 combinators assumed: ' + '; '.join(v['nom_errors']))
    out += ['trusted %s: %s' % kv for kv in sorted(v['trusted'].items())]
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    out = os.path.join(HERE, 'build', 'run-' + prop)
    os.makedirs(out, exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fh = ex.submit(run_harness, prop, seed, tier, out)
        fv = ex.submit(run_verifier, prop, tier, out)
        h, v = fh.result(), fv.result()
    if tier == 'quick' and not h['fail'] and (v['violated'] or v['undecided'] or v['elsewhere']):
        # the proof does not hold any more: look longer for an input that shows it
        limit = 240 if v['violated'] or v['undecided'] else 90
        x = run_harness(prop, seed + 1000, 'thorough', out + '-search', limit, 15)
        h['search'] = x.get('evaluations', 'stopped after %d s' % limit)
        h['fail'] = x['fail']
    audit = None
    if tier == 'thorough':
        # the assumed contracts of the libraries, run against the libraries
        a = run_harness('AUDIT', seed, 'thorough', out + '-audit', 600, 10)
        audit = {k: a.get(k) for k in ('evaluations', 'distinct_nontrivial', 'rule')}
        audit['held'] = not a['fail']
        if a['fail']:
            v['notes'].append('an assumed contract of a library does not hold: %s' % open(a['fail']).read()[:600] if os.path.exists(a['fail']) else '?')
    replay = os.path.join(EVID, '%s.replay.json' % prop)
    if os.path.exists(replay):
        os.remove(replay)

    fixed = len(v['functions']) + len(v['undecided']) + len(v['violated'])
    cov = {
        'evaluations': h.get('evaluations', 0), 'distinct_nontrivial': h.get('distinct_nontrivial', 0),
        'rule': h.get('rule', ''), 'samples': h.get('samples', []), 'harness_build_s': h['build_s'],
        'bounded': 'the harness part samples (or enumerates, where its rule says so) and is bounded by the counts given in rule; it is never counted as proved',
    }
    level = 'proof' if fixed else 'exploration'
    if fixed:
        lem = [n for n, ok in v['lemmas'].items()]
        cov.update({
            'obligations': fixed + len(lem), 'discharged': len(v['functions']) + sum(1 for n in lem if v['lemmas'][n]),
            'checker_cmd': 'python3 check.py %s  (verus build/verify-%s/crate.rs --num-threads 6)' % (prop, prop),
            'trusted_base': trusted_base(v),
            'functions_proved': v['functions'], 'functions_undecided': v['undecided'],
            'functions_of_other_properties_not_proved': v['elsewhere'],
            'functions_failed': {k: m[0][:400] for k, m in v['violated'].items()},
            'functions_trusted': v['trusted'], 'functions_bounded_only': v['bounded'],
            'lemmas': len(lem), 'back_end': 'Verus / Z3', 'solver_s': round(v['solver'], 2), 'verifier_wall_s': round(v['wall'], 2),
            'functions_in_crate': v.get('total_functions'), 'functions_without_contract': v.get('no_contract'),
        })
        if 'vacuity' in v:
            cov['vacuity'] = v['vacuity']
    if audit:
        cov['assumed_contracts_audited'] = audit
    if 'search' in h:
        cov['search_after_failed_proof'] = h['search']
    if v['notes']:
        cov['notes'] = v['notes']
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - t0, 2)}
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)

    known = [l.strip() for l in open(os.path.join(HERE, 'known_findings.txt'))]
    known = [l[len('known: '):] for l in known if l.startswith('known: property=%s ' % prop)]
    for l in known:
        if h['known']:
            print('KNOWN-FINDING: ' + l)
    print('%s: harness %d cases, %d distinct; proof %d/%d obligations, %d undecided, %.1f s' % (
        prop, cov['evaluations'], cov['distinct_nontrivial'], cov.get('discharged', 0), cov.get('obligations', 0), len(v['undecided']), time.time() - t0))
    for k, w in v['undecided'].items():
        print('undecided: %s: %s' % (k, w.split('\n')[0]))
    for n in v['notes']:
        print('note: ' + n.split('\n')[0])
    if h['fail']:
        rep = json.load(open(h['fail'])) if os.path.exists(h['fail']) else {'property': prop}
        rep['failed_obligations'] = {k: m for k, m in v['violated'].items()}
        rep['how'] = '/verif/harness/target/debug/harness replay ' + replay
        json.dump(rep, open(replay, 'w'), indent=1)
        for m in v['violated']:
            print('obligation failed: ' + m)
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if v['violated']:
        json.dump({'property': prop, 'failed_obligations': v['violated'], 'verifier': 'verus', 'crate': v.get('crate'),
                   'searched': 'harness found no failing input in %d cases' % cov['evaluations']}, open(replay, 'w'), indent=1)
        for m in v['violated']:
            print('obligation failed: ' + m)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
