"""Runs Verus on the generated crate and maps its answers back to functions."""
import json, os, re, subprocess, time
from . import contracts, gen


class Outcome:
    pass


# messages that mean "an obligation was not proved", everything else is a front-end error
OBLIGATION = re.compile(r'postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|'
                        r'possible arithmetic|decreases not satisfied|possible division|recommendation not met|'
                        r'assertion not satisfied|unable to prove|possible bit shift|loop must have a decreases|'
                        r'cannot show|ensures not satisfied|constructed value may fail|Resource limit|rlimit|fail(ed|s) to satisfy|'
                        r'may not terminate|termination')


def run_verus(path, args, timeout):
    t0 = time.time()
    try:
        r = subprocess.run(['verus', path, '--output-json', '--time-expanded', '--error-format=json', '--triggers-mode', 'silent'] + args,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                           cwd=os.path.dirname(os.path.abspath(path)), env=dict(os.environ, RUST_MIN_STACK='1000000000'))
        out, err, rc = r.stdout, r.stderr, r.returncode
    except subprocess.TimeoutExpired as e:
        out, err, rc = '', '', -1
    diags = []
    for ln in err.splitlines():
        if ln.startswith('{'):
            try:
                d = json.loads(ln)
            except ValueError:
                continue
            if d.get('level') == 'error' and not d['message'].startswith('aborting due to'):
                diags.append(d)
    try:
        js = json.loads(out)
    except ValueError:
        js = {}
    return js, diags, err, rc, time.time() - t0


def verify(work, args=(), timeout=600, rounds=14, only=None, log=None, specs=None, full_log=None):
    fns, drops = contracts.parse()
    files = gen.extract(work, fns, drops)
    external, dropped, nohide = {}, set(drops), set()
    o = Outcome()
    path = os.path.join(work, 'crate.rs')
    for k in range(rounds):
        c = gen.Crate(files, fns, external, dropped, specs, nohide)
        open(path, 'w').write(c.text())
        js, diags, err, rc, dt = run_verus(path, list(args), timeout)
        front = [d for d in diags if not OBLIGATION.search(d['message'])]
        vr = js.get('verification-results', {})
        # Verus stops at a hidden function that the module does not reach: nothing to hide then
        m = re.findall(r"undeclared variable fuel%crate!(?:[^' .]*\.)*(\w+)\.'", err) if not front and not vr.get('verified') else []
        if m and not set(m) <= nohide:
            nohide |= set(m)
            continue
        if not front:
            break
        progressed, ext0 = False, set(external)
        def tag_of(d):
            for prefer in (True, False):
                for s in d['spans']:
                    if s['is_primary'] == prefer and s['file_name'].endswith('crate.rs'):
                        t = c.at(s['line_start'])
                        if t:
                            return t
        in_fn = [d for d in front if (tag_of(d) or ('', ''))[0] == 'fn']
        if in_fn and not log:
            front = in_fn
        for d in front:
            tags = []
            for prefer in (True, False):
                for s in d['spans']:
                    if s['is_primary'] == prefer and s['file_name'].endswith('crate.rs'):
                        tags.append(c.at(s['line_start']))
            tags = [t for t in tags if t]
            if log:
                log('front-end: %s  [%s]' % (d['message'][:300], tags[:2]))
                if full_log: log(d.get('rendered', '')[:2000])
            for t in tags[:1]:
                if t[0] == 'fn':
                    if t[1] in external and t[1] not in ext0:
                        continue
                    if t[1] in external or (c.pieces[t[1]]['body'] is None) or c.pieces[t[1]].get('external'):
                        if t[1] not in dropped:
                            dropped.add(t[1])
                            progressed = True
                    else:
                        external[t[1]] = 'front end: ' + d['message'][:200]
                        progressed = True
                elif t[0] in ('use', 'const', 'type', 'open'):
                    if t[1] not in dropped:
                        dropped.add(t[1])
                        progressed = True
        if not progressed:
            break
    o.crate, o.json, o.diags, o.stderr, o.wall, o.rounds = c, js, diags, err, dt, k + 1
    o.front = front
    o.external, o.dropped = external, dropped - set(drops)
    o.results = js.get('verification-results', {})
    # function results
    o.fn_ok, o.fn_time, o.failed = {}, {}, {}
    for m in js.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            n = f['function']
            o.fn_ok[n] = o.fn_ok.get(n, True) and f['success']
            o.fn_time[n] = o.fn_time.get(n, 0) + f['time-micros'] / 1e6
    for d in diags:
        if not OBLIGATION.search(d['message']):
            continue
        tag = None
        spans = sorted(d['spans'], key=lambda s: not s['is_primary'])
        # the span inside a function body names the function that failed
        cands = [c.at(s['line_start']) for s in spans if s['file_name'].endswith('crate.rs')]
        labels = [(s.get('label') or '') for s in spans if s['file_name'].endswith('crate.rs')]
        for t, l in zip(cands, labels):
            if t and ('at the end of the function body' in l or 'at this' in l):
                tag = t
        if tag is None:
            fn_tags = [t for t in cands if t]
            tag = fn_tags[0] if fn_tags else ('?', '?')
            if 'precondition' in d['message']:
                # primary span is the precondition? the call site is the other one
                for s, t in zip([s for s in spans if s['file_name'].endswith('crate.rs')], cands):
                    if t and 'failed precondition' not in (s.get('label') or ''):
                        tag = t
        o.failed.setdefault(tag, []).append(d)
    o.retried = []
    if not front:
        retry(o, path, list(args), timeout)
    return o


GAVE_UP = re.compile(r'Resource limit|rlimit')


def retry(o, path, args, timeout):
    """the solver can run out of its limit because of what it proved before in the same module: try such a function alone"""
    late = {t: ds for t, ds in o.failed.items() if all(GAVE_UP.search(d['message']) for d in ds)}
    if not late or len(late) > 4:
        return
    for m in o.json.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            if f['success']:
                continue
            last = f['function'].split('::')[-1]
            tags = [t for t in late if t[1].split('::')[-1] == last]
            if len(tags) != 1:
                continue
            mod = re.sub(r'^crate::', '', m['module'])
            name = re.sub(r'^crate::', '', f['function'])
            if name.startswith(mod + '::'):
                name = name[len(mod) + 2:]
            js, diags, err, rc, dt = run_verus(path, args + ['--verify-only-module', mod, '--verify-function', name], timeout)
            vr = js.get('verification-results', {})
            o.wall += dt
            if vr.get('errors') == 0 and vr.get('verified', 0) >= 1 and not diags:
                o.retried.append(f['function'])
                o.fn_ok[f['function']] = True
                o.failed.pop(tags[0], None)
