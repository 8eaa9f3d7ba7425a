#!/usr/bin/env python3
"""plant.py DEF.py ... : confirms planted bugs in a scratch copy and keeps them under seeded/
A DEF file sets BUGS = [dict(id, property, file, old, new, demo, needs, breaks)] (edits: list of (file, old, new))."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/sh
# builds and runs a small program against the crate in the current directory; exits 0 iff the property held
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
[ -f "$here/Cargo.lock" ] && cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
icalendar = { path = "$(pwd)", features = ["chrono-tz"] }
chrono = "0.4"
chrono-tz = "0.10"
[workspace]
T
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo run --offline -q
'''
PRE = '#![allow(unused_imports)]\nuse icalendar::*;\nuse chrono::*;\nuse std::str::FromStr;\n'
def sh(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    tmp = '/tmp/plant'
    if not os.path.exists(tmp):
        shutil.copytree('/repo', tmp, symlinks=True)
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if False else None
    bad = 0
    for f in sys.argv[1:]:
        g = {}
        exec(open(f).read(), g)
        for b in g['BUGS']:
            out = os.path.join(V, 'seeded', b['id'])
            if os.path.exists(os.path.join(out, 'meta.json')) and not os.environ.get('REDO'):
                continue
            sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', tmp)
            for file, old, new in b.get('edits') or [(b['file'], b['old'], b['new'])]:
                p = os.path.join(tmp, 'src', file)
                t = open(p).read()
                if t.count(old) != 1:
                    print(b['id'], 'OLD TEXT COUNT', t.count(old), repr(old)); bad += 1; break
                open(p, 'w').write(t.replace(old, new))
            else:
                os.makedirs(out, exist_ok=True)
                diff = sh('git diff', tmp).stdout
                open(os.path.join(out, 'patch.diff'), 'w').write(diff)
                open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
                os.chmod(os.path.join(out, 'demo.sh'), 0o755)
                open(os.path.join(out, 'main.rs'), 'w').write(PRE + b['demo'])
                shutil.copy(os.path.join(V, 'harness', 'Cargo.lock'), os.path.join(out, 'Cargo.lock'))
                t = sh('. /opt/vp/env.sh; cd /tmp/plant; export CARGO_TARGET_DIR=/tmp/plant/target; cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 2>&1', tmp, timeout=900)
                fails = [l for l in t.stdout.splitlines() if l.endswith('FAILED') or l.startswith('error')]
                d1 = sh('timeout 200 ' + os.path.join(out, 'demo.sh'), tmp)
                d0 = sh('timeout 200 ' + os.path.join(out, 'demo.sh'), '/repo')
                ok = t.returncode == 0 and d1.returncode != 0 and d0.returncode == 0 and 'could not compile' not in d1.stdout
                print(b['id'], 'OK' if ok else 'BAD', 'tests', t.returncode, fails[:3], 'patched demo', d1.returncode, 'clean demo', d0.returncode)
                if not ok:
                    print(d0.stdout[-1500:] if d0.returncode else d1.stdout[-600:]); bad += 1
                    shutil.rmtree(out)
                else:
                    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    sh('git checkout -q -- .', tmp)
    sys.exit(1 if bad else 0)
main()
