#!/usr/bin/env python3
"""mc/main.py PID [--tier quick|thorough] [--replay FILE]"""
import argparse
import json
import os
import sys
from pathlib import Path

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=None, choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--procs', type=int)
    ap.add_argument('--worker')
    ap.add_argument('--out')
    ap.add_argument('--scratch')
    ap.add_argument('--only')
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    if a.worker:
        s, n = map(int, a.worker.split('/'))
        only = json.loads(a.only) if a.only else None
        core.worker(a.pid, tier, s, n, Path(a.out), Path(a.scratch), only)
        sys.stdout.flush()
        # skip interpreter teardown: a suspended thread of an aborted schedule must not hang the exit
        os._exit(0)
    sys.exit(core.run_check(a.pid, tier, a.procs, a.replay))


if __name__ == '__main__':
    main()
