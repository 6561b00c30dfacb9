#!/usr/bin/env python3
"""
Development aid: mkseed.py SPEC.py [ID ...]

SPEC.py defines SEEDS, a list of dict(id, property, edits=[(file, old, new), ...], needs, what, demo, checks).
Each is applied to /repo, built, tested against the stable tests and demonstrated, then undone.  Kept under
/verif/seeded/<id> only if everything is as it should be.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
from pathlib import Path

REPO = Path('/repo')
SEEDED = Path('/verif/seeded')
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds in the demonstrated situation; non-zero: it does not
here="$(cd "$(dirname "$0")" && pwd)"
export PROJ_DATA=/opt/vp/proj-data PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
timeout 250 /opt/venv/bin/python -B "$here/demo.py" "$work"
'''


def undo():
    subprocess.run(['git', '-C', str(REPO), 'checkout', '-q', '--', '.'], check=True)


def demo(d):
    r = subprocess.run(['bash', str(d / 'demo.sh')], cwd=REPO, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-600:]


spec = runpy.run_path(sys.argv[1])['SEEDS']
only = sys.argv[2:]
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for s in spec:
    if only and s['id'] not in only:
        continue
    if not only and (SEEDED / s['id'] / 'patch.diff').exists():
        continue
    assert not subprocess.run(['git', '-C', str(REPO), 'status', '--porcelain'], capture_output=True).stdout
    d = SEEDED / s['id']
    if d.exists():
        shutil.rmtree(d)
    d.mkdir(parents=True)
    (d / 'demo.sh').write_text(DEMO_SH)
    os.chmod(d / 'demo.sh', 0o755)
    (d / 'demo.py').write_text(s['demo'].lstrip('\n'))
    ok = True
    rc, out = demo(d)
    if rc:
        print(s['id'], 'demo FAILS on the unchanged tree', out)
        ok = False
    try:
        for f, a, b in s['edits']:
            p = REPO / 'orthority' / f
            t = p.read_text()
            assert t.count(a) == 1, (s['id'], f, t.count(a), a)
            p.write_text(t.replace(a, b))
        diff = subprocess.run(['git', '-C', str(REPO), 'diff'], capture_output=True, text=True).stdout
        (d / 'patch.diff').write_text(diff)
        rc, out = demo(d)
        if rc == 0:
            print(s['id'], 'demo PASSES with the change', out)
            ok = False
        if ok:
            subprocess.run(['bash', '/opt/vp/build.sh'], check=True, capture_output=True)
            subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/x/seed.json'], capture_output=True)
            miss = stable - set(json.load(open('/tmp/x/seed.json'))['passed'])
            if miss:
                print(s['id'], 'tests fail:', sorted(miss)[:4], len(miss))
                ok = False
        caught = []
        if ok:
            for c in s.get('checks', [s['property']]):
                r = subprocess.run(['/verif/check', c, '--tier', 'quick'], capture_output=True, text=True)
                caught.append(f'{c}:{"CAUGHT" if r.returncode == 1 and "VIOLATION" in r.stdout else "missed"}')
    finally:
        undo()
    (d / 'meta.json').write_text(json.dumps(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']),
                                            indent=1) + '\n')
    if not ok:
        shutil.rmtree(d)
    else:
        print(s['id'], 'kept', *caught)
    sys.stdout.flush()
