#!/usr/bin/env python3
"""mutate.py N K [file..]: worker K of N. Mutates /repo's source line by line in a scratch copy; a mutant that builds, passes the
repository's tests and that the harness does not notice is printed as SURVIVED (then judged by the verifier: tools/mutjudge.py).
Used while building the checks; no check runs it."""
import json, os, re, shutil, subprocess, sys
N, K = int(sys.argv[1]), int(sys.argv[2])
W = '/tmp/mut%d' % K
OUT = '/tmp/mut.out.%d' % K
PROPS = ['C%02d' % i for i in range(1, 16)]
if os.path.exists(W): shutil.rmtree(W)
os.makedirs(W)
subprocess.run('cp -a /tmp/mutorig %s/repo && cp -a /verif/harness %s/harness && sed -i s,\\"/repo\\",\\"%s/repo\\", %s/harness/Cargo.toml' % (W, W, W, W), shell=True, check=True)
def sh(c, t):
    try:
        r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, cwd=W, errors='replace')
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
def code_end(s):
    i = s.find('#[cfg(test)]\nmod ')
    return len(s) if i < 0 else i
RULES = [
    (r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' > ', ' >= '), (r' >= ', ' > '), (r' <= ', ' < '), (r'&&', '||'), (r'\|\|(?! )', '&&'), (r' \|\| ', ' && '),
    (r' \+ 1\b', ''), (r' - 1\b', ''), (r'\b75\b', '74'), (r'\b75\b', '76'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
    (r'\.rev\(\)', ''), (r'\.flatten\(\)', '.flatten().take(1)'), (r'\bif ', 'if !'), (r'\.push\(', '.insert(0, '), (r'\.find\(', '.rfind('),
    (r'"([A-Z][A-Z-]+)"', None), (r'\bSome\(([^()]*)\)', 'None'), (r'\.last\(', '.first('), (r'\.first\(', '.last('), (r'\.or_else\(', '.and_then('), (r'\bmany0\b', 'many1'),
    (r'\.next\(\)', '.nth(1)'), (r'\.trim_start_matches\(', '.trim_end_matches('), (r'to_uppercase', 'to_lowercase'), (r'to_lowercase', 'to_uppercase'), (r'to_ascii_uppercase', 'to_ascii_lowercase'),
    (r'\btag_no_case\b', 'tag'), (r'\bself\.', None), (r"'(.)'", None), (r'\.or_insert\(', '.or_default();//('), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b10\b', '9'), (r'\b-', ''),
    (r'%M', '%m'), (r'%d', '%e'), (r'Z"', '"'), (r'\babs\(\)', ''), (r'num_seconds\(\)', 'num_minutes()'), (r'is_alphanumeric\(\)', 'is_ascii_alphanumeric()'), (r'\.chars\(\)', '.chars().rev()'),
    (r'\.contains\(', '.starts_with('), (r'\.starts_with\(', '.contains('), (r'\bcut\(', '('), (r'\bopt\(', 'cut('), (r'\.skip\(1\)', ''), (r'\.clone\(\)', '.clone()'), (r'\.min\(', '.max('), (r'\.extend\(', '.splice(0..0, '),
]
NAMES = ['START', 'END', 'SUMMARY', 'X-Y', 'DTSTART']
def mutants():
    files = sys.argv[3:] or subprocess.run('cd /tmp/mutorig/src && find . -name "*.rs" | sort', shell=True, stdout=subprocess.PIPE, text=True).stdout.split()
    for f in files:
        f = f.lstrip('./')
        if f in ('assert.rs', 'parser/tests.rs', 'period.rs', 'repeats.rs'): continue
        s = open('/tmp/mutorig/src/' + f).read()
        end = code_end(s)
        pos = 0
        intest = False
        lines = s.split('\n')
        for n, l in enumerate(lines):
            at, pos = pos, pos + len(l) + 1
            if at >= end: break
            t = l.strip()
            # tests inside parser files: functions under #[test]
            if t.startswith('#[test]'): intest = True
            if intest:
                if l == '}' or l == '    }': intest = False
                continue
            if not t or t.startswith(('//', '#', 'use ', 'pub use', 'mod ', 'pub mod', 'println', 'print')): continue
            if 'assert' in t: continue
            for a, b in RULES:
                for m in list(re.finditer(a, l))[:3]:
                    if b is None:
                        if a.startswith('"'): r = '"%sQ"' % m.group(1)
                        elif a.startswith("'"): r = "'%s'" % ('x' if m.group(1) != 'x' else 'y')
                        else: continue
                    else: r = b
                    yield f, n, l[:m.start()] + r + l[m.end():]
            if t.endswith(';') and not t.startswith(('let ', 'return', 'type ', 'const ', '}')) and t.count('(') == t.count(')'):
                yield f, n, '// ' + l
            if re.match(r'\s*(\w+::)*\w+(\([^)]*\))? (if .*)?=> ', l) and l.rstrip().endswith(','):
                yield f, n, '// ' + l
            # swap with the next line
            if n + 1 < len(lines) and t.endswith((';', ',')) and lines[n + 1].strip().endswith((';', ',')) and t != lines[n + 1].strip() and t[0] not in '})' and not t.startswith('//'):
                yield f, n, lines[n + 1] + '\n' + l + '\0'
FIRST = {'properties.rs': 'C02 C04 C01 C12', 'components.rs': 'C11 C05', 'components/alarm.rs': 'C10 C11', 'components/date_time.rs': 'C09 C11', 'calendar.rs': 'C13',
    'calendar/calendar_component.rs': 'C05 C08 C13', 'parser/components.rs': 'C08 C07 C14', 'parser/properties.rs': 'C04 C12 C14', 'parser/parameters.rs': 'C04 C14 C07', 'parser/utils.rs': 'C03 C07',
    'parser/calendar.rs': 'C08 C07 C14', 'parser/parsed_string.rs': 'C02 C08', 'value_types.rs': 'C12', 'components/todo.rs': 'C11', 'components/venue.rs': 'C11', 'components/event.rs': 'C11', 'components/other.rs': 'C08'}
def order(f):
    a = FIRST.get(f, '').split()
    return a + [p for p in PROPS if p not in a]
res = open(OUT, 'a', buffering=1)
seen = set(open('/tmp/mut.seen.%d' % K).read().split('\n')) if os.path.exists('/tmp/mut.seen.%d' % K) else set()
sf = open('/tmp/mut.seen.%d' % K, 'a', buffering=1)
c = dict(build=0, tests=0, harness=0, survived=0)
for i, (f, n, l) in enumerate(mutants()):
    if i % N != K: continue
    key = '%s:%d:%s' % (f, n, repr(l))
    if key in seen: continue
    s = open('/tmp/mutorig/src/' + f).read().split('\n')
    o = s[n]
    if l.endswith('\0'): s[n:n + 2] = l[:-1].split('\n')
    else: s[n] = l
    p = '%s/repo/src/%s' % (W, f)
    open(p, 'w').write('\n'.join(s))
    try:
        rc, out = sh('cd harness && cargo build --offline -q', 300)
        if rc: c['build'] += 1; continue
        hit = None
        for q in order(f):
            rc, out = sh('timeout 100 harness/target/debug/harness run %s 1 quick %s' % (q, W), 120)
            if rc: hit = q; break
        if hit: c['harness'] += 1; res.write('CAUGHT %s %s\n   - %s\n   + %s\n' % (hit, f + ':' + str(n + 1), o.strip(), l.strip('\0').strip())); continue
        rc, out = sh('cd repo && CARGO_TARGET_DIR=%s/t timeout 200 cargo test --workspace --all-features --offline -q 2>&1' % W, 300)
        if rc: c['tests'] += 1; continue
        c['survived'] += 1
        res.write('SURVIVED %s\n   - %s\n   + %s\n' % (f + ':' + str(n + 1), o.strip(), l.strip('\0').strip()))
        json.dump({'file': f, 'line': n, 'new': l}, open('/tmp/surv/%s-%d-%d.json' % (f.replace('/', '_'), n + 1, i), 'w'))
    finally:
        shutil.copy('/tmp/mutorig/src/' + f, p)
        sf.write(key + '\n')
res.write('DONE %s\n' % c)
