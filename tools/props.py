#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run from /verif: python3 tools/props.py)."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
PROPS, CHECKS, NA = [], [], []


def P(pid, title, statement, over, quant, why, files, mech, technique, level, note, state=None, observe=None):
    assert len(title) <= 80, (pid, len(title))
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        anchors['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        anchors['observe_at'] = observe
    anchors['hook_needed'] = None
    PROPS.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=quant),
                      why_tests_cant=why, anchors=anchors))
    if not (ROOT / 'mc' / 'checks' / f'{pid.lower()}.py').exists():
        raise SystemExit(f'no check for {pid}')
    CHECKS.append(dict(property=pid, quick_cmd=f'./check {pid} --tier quick', thorough_cmd=f'./check {pid} --tier thorough',
                       technique=technique, level=level, level_note=note))


exec((ROOT / 'tools' / 'props_data.py').read_text())

(ROOT / 'properties.jsonl').write_text(''.join(json.dumps(p) + '\n' for p in PROPS))
(ROOT / 'MANIFEST.json').write_text(json.dumps(dict(
    version=1,
    setup_cmd='./setup',
    checks=CHECKS,
    not_applicable=NA,
    notes='All checks execute the code of /repo\'s working tree directly (Python, nothing to build); no hooks in /repo.',
), indent=1) + '\n')
print(len(PROPS), 'properties')
