#!/usr/bin/env python3
"""Development aid: mut.py CHECKS FILE OLD NEW [FILE OLD NEW ...] - run checks on a scratch copy of /repo with a textual
change."""
import os
import shutil
import subprocess
import sys
import tempfile

checks, rest = sys.argv[1].split(','), sys.argv[2:]
root = tempfile.mkdtemp(prefix='mut_')
repo = root + '/repo'
try:
    subprocess.run(['cp', '-a', '/repo', repo], check=True)
    subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'], check=True)
    for k in range(0, len(rest), 3):
        f, a, b = rest[k:k + 3]
        p = repo + '/orthority/' + f
        s = open(p).read()
        a, b = a.encode().decode('unicode_escape'), b.encode().decode('unicode_escape')
        assert s.count(a) >= 1, ('not found', a)
        open(p, 'w').write(s.replace(a, b, 1))
    for c in checks:
        r = subprocess.run(['/verif/check', c], capture_output=True, text=True,
                           env=dict(os.environ, MC_REPO=repo, MC_EVID=root + '/evidence'))
        out = r.stdout.strip().splitlines()
        viol = [o for o in out if o.startswith('VIOLATION')]
        first = next((out[i + 1].strip() for i, o in enumerate(out) if o.startswith('VIOLATION')), '')
        print(c, 'rc', r.returncode, 'CAUGHT' if viol and r.returncode == 1 else 'MISSED', '|', first[:160], '|',
              out[-1] if out else r.stderr[-500:])
finally:
    shutil.rmtree(root)
