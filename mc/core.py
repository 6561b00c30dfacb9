"""
Check driver.

A check enumerates a finite list of *cases* (each one a JSON value that fully determines one explored
execution, group of executions, or state-space exploration) and decides the property on each of them.
The driver shards the list over worker processes, merges the counts, writes the evidence file and
prints the verdict.  Nothing is sampled: every case of the tier's space is run.
"""
from __future__ import annotations

import fnmatch
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from pathlib import Path

from mc import env as mcenv

VERIF = Path(mcenv.VERIF)
CHECKS = {}  # filled from registry


class Violation(Exception):
    """The property does not hold for the current case."""

    def __init__(self, what: str, key: str = '', detail=None):
        super().__init__(what)
        self.what = what
        self.key = key or what
        self.detail = detail
        self.more = []  # further violations found in the same case


def raise_all(found: dict):
    """Raise the violations collected by key, if any."""
    if found:
        first, *rest = found.values()
        first.more = rest
        raise first


class Tally:
    """Counts measured while exploring."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.executions = 0
        self.traces = 0
        self.outcomes = set()
        self.extra = {}

    def outcome(self, *obj):
        """Record a distinct (non-trivial) observed outcome."""
        h = hashlib.sha1(repr(obj).encode()).hexdigest()[:12]
        self.outcomes.add(h)

    def add(self, states=0, transitions=0, executions=0, traces=0, **extra):
        self.states += states
        self.transitions += transitions
        self.executions += executions
        self.traces += traces
        for k, v in extra.items():
            self.extra[k] = self.extra.get(k, 0) + v


class Check:
    pid: str = ''
    level: str = 'model_checking'
    rule: str = ''
    assumptions: list = []
    # sys-level hooks that have to be installed before orthority is imported
    needs_sched = False
    max_procs = 8
    case_timeout = 200.0

    def cases(self, tier: str) -> list:
        raise NotImplementedError

    def setup(self, scratch: Path, tier: str):
        """Run once per worker process, after orthority is imported."""

    def run_case(self, case, tally: Tally, scratch: Path):
        raise NotImplementedError

    def bounds(self, tier: str) -> dict:
        return {}

    def sample(self, case):
        return case


def jdump(obj) -> str:
    return json.dumps(obj, sort_keys=True, default=str)


def _load(pid: str) -> Check:
    mod = importlib.import_module(f'mc.checks.{pid.lower()}')
    return mod.CHECK


# ---------------------------------------------------------------------------------------- worker
def _describe(ex: BaseException) -> str:
    tb = traceback.extract_tb(ex.__traceback__)
    where = ''
    for fr in reversed(tb):
        if fr.filename.startswith(mcenv.REPO):
            where = f' at {os.path.relpath(fr.filename, mcenv.REPO)}:{fr.name}'
            break
    return f'{type(ex).__name__}: {str(ex)[:300]}{where}'


def worker(pid: str, tier: str, shard: int, nshard: int, out: Path, scratch: Path, only=None):
    mcenv.prepare()
    check = _load(pid)
    if check.needs_sched:
        from mc import sched

        sched.install()
    os.cpu_count = lambda: 2  # bounds the native thread pools of the code under test, not its schedules
    mcenv.load_target()
    import warnings

    warnings.simplefilter('ignore')
    import logging

    logging.disable(logging.CRITICAL)
    scratch.mkdir(parents=True, exist_ok=True)
    os.chdir(scratch)
    cases = check.cases(tier)
    tally = Tally()
    nviol = 0
    known = [k['key'] for k in known_findings(pid)]
    with open(out, 'w') as f:

        def emit(**rec):
            f.write(json.dumps(rec, default=str) + '\n')
            f.flush()

        try:
            check.setup(scratch, tier)
        except Violation as v:
            emit(viol=dict(case=None, what='setup: ' + v.what, key=v.key))
            emit(done=_tally_rec(tally))
            return
        except Exception as ex:
            emit(viol=dict(case=None, what='setup: unexpected ' + _describe(ex), key='setup',
                           tb=traceback.format_exc()[-3000:]))
            emit(done=_tally_rec(tally))
            return
        todo = list(enumerate(cases)) if only is None else [(-1, only)]
        for i, case in todo:
            if only is None and i % nshard != shard:
                continue
            emit(start=i)
            cdir = scratch / 'case'
            try:
                if cdir.exists():
                    shutil.rmtree(cdir)
                cdir.mkdir()
                os.chdir(cdir)
                check.run_case(case, tally, cdir)
            except Violation as v:
                for v in [v, *v.more]:
                    nviol += not any(fnmatch.fnmatchcase(v.key, k) for k in known)
                    emit(viol=dict(case=case, what=v.what, key=v.key, detail=v.detail))
            except Exception as ex:
                nviol += 1
                emit(
                    viol=dict(
                        case=case,
                        what='unexpected ' + _describe(ex),
                        key='unexpected ' + type(ex).__name__,
                        tb=traceback.format_exc()[-3000:],
                    )
                )
            finally:
                os.chdir(scratch)
            if nviol >= 12:
                break
        shutil.rmtree(scratch / 'case', ignore_errors=True)
        emit(done=_tally_rec(tally))


def _tally_rec(t: Tally) -> dict:
    return dict(
        states=t.states,
        transitions=t.transitions,
        executions=t.executions,
        traces=t.traces,
        outcomes=sorted(t.outcomes),
        extra=t.extra,
    )


# ---------------------------------------------------------------------------------------- parent
def known_findings(pid: str) -> list:
    path = VERIF / 'known_findings.json'
    if not path.exists():
        return []
    data = json.loads(path.read_text())
    return [k for k in data.get('known', []) if k['property'] == pid]


def run_check(pid: str, tier: str, procs: int | None = None, replay: str | None = None) -> int:
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mcenv.prepare()
    check = _load(pid)
    evid = Path(os.environ.get('MC_EVID', VERIF / 'evidence'))
    evid.mkdir(exist_ok=True)
    rdir = evid / 'replay'
    rdir.mkdir(exist_ok=True)
    root = Path(tempfile.mkdtemp(prefix=f'mc_{pid}_'))
    try:
        return _run(check, pid, tier, procs, replay, seed, t0, evid, rdir, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _run(check, pid, tier, procs, replay, seed, t0, evid, rdir, root) -> int:
    only = None
    if replay:
        only = json.loads(Path(replay).read_text())['case']
        procs = 1
    n = procs or min(check.max_procs, os.cpu_count() or 8)
    ncases = None
    if not replay:
        # the number of cases is needed only for the evidence; enumerating them imports no target
        ncases = len(check.cases(tier))
        n = max(1, min(n, ncases))
    children = []
    for s in range(n):
        out = root / f'out{s}.jsonl'
        cmd = [
            sys.executable,
            '-X',
            'faulthandler',
            str(VERIF / 'mc' / 'main.py'),
            pid,
            '--tier',
            tier,
            '--worker',
            f'{s}/{n}',
            '--out',
            str(out),
            '--scratch',
            str(root / f's{s}'),
        ]
        if replay:
            cmd += ['--only', jdump(only)]
        err = open(root / f'err{s}.txt', 'wb')
        p = subprocess.Popen(
            cmd, env=mcenv.fixed_env(), stdout=err, stderr=err, cwd=root, start_new_session=True
        )
        children.append(dict(p=p, out=out, err=root / f'err{s}.txt', size=0, t=time.time(), hung=False))

    while any(c['p'].poll() is None for c in children):
        time.sleep(0.05)
        now = time.time()
        for c in children:
            if c['p'].poll() is not None:
                continue
            size = c['out'].stat().st_size if c['out'].exists() else 0
            if size != c['size']:
                c['size'], c['t'] = size, now
            elif now - c['t'] > check.case_timeout:
                c['hung'] = True
                try:
                    os.killpg(c['p'].pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass

    viols, tallies, started = [], [], 0
    for s, c in enumerate(children):
        last, done = None, False
        if c['out'].exists():
            for line in c['out'].read_text().splitlines():
                rec = json.loads(line)
                if 'start' in rec:
                    last = rec['start']
                    started += 1
                elif 'viol' in rec:
                    viols.append(rec['viol'])
                elif 'done' in rec:
                    tallies.append(rec['done'])
                    done = True
        if not done:
            tail = c['err'].read_text(errors='replace')[-1500:]
            case = None
            if last is not None and last >= 0:
                case = check.cases(tier)[last]
            elif only is not None:
                case = only
            what = (
                f'no result within {check.case_timeout:.0f} s (hang / deadlock)'
                if c['hung']
                else f'process died (exit {c["p"].returncode}) while exploring this case'
            )
            viols.append(dict(case=case, what=what, key='process', tb=tail))

    # known findings
    known = known_findings(pid)
    hits, fresh = {}, []
    for v in viols:
        for k in known:
            if fnmatch.fnmatchcase(v['key'], k['key']):
                hits.setdefault(k['key'], (k, v))
                break
        else:
            fresh.append(v)

    states = sum(t['states'] for t in tallies)
    transitions = sum(t['transitions'] for t in tallies)
    executions = sum(t['executions'] for t in tallies)
    traces = sum(t['traces'] for t in tallies)
    outcomes = set()
    extra = {}
    for t in tallies:
        outcomes.update(t['outcomes'])
        for k, v in t['extra'].items():
            extra[k] = extra.get(k, 0) + v

    lines = []
    seen = set()
    for i, v in enumerate(fresh):
        if v['key'] in seen and i > 5:
            continue
        seen.add(v['key'])
        path = rdir / f'{pid}-{hashlib.sha1(jdump(v).encode()).hexdigest()[:10]}.json'
        path.write_text(json.dumps(dict(property=pid, tier=tier, **v), indent=1, default=str))
        lines.append((path, v))
        if len(lines) >= 10:
            break

    if not replay:
        all_cases = check.cases(tier)
        step = max(1, len(all_cases) // 4)
        samples = [check.sample(c) for c in all_cases[::step][:5]]
        cov = dict(
            states=states,
            transitions=transitions,
            traces_validated_against_impl=traces,
            samples=samples,
            exhaustive=(started == ncases and not fresh),
            evaluations=executions,
            distinct_nontrivial=len(outcomes),
            rule=check.rule,
            cases=started,
            bounds=check.bounds(tier),
            **{k: v for k, v in sorted(extra.items())},
        )
        rec = dict(
            property=pid,
            tier=tier,
            seed=seed,
            level=check.level,
            coverage=cov,
            assumptions=list(check.assumptions),
            wall_s=round(time.time() - t0, 2),
            violations=len(fresh),
        )
        (evid / f'{pid}.json').write_text(json.dumps(rec, indent=1, default=str) + '\n')

    for key, (k, v) in hits.items():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for path, v in lines:
        print(f'VIOLATION property={pid} replay={path}')
        print(f'  {v["what"]}')
        print(f'  case: {jdump(v["case"])[:600]}')
        if v.get('detail'):
            print(f'  detail: {jdump(v["detail"])[:600]}')
    ok = not fresh
    print(
        f'{pid} [{tier}] {"ok" if ok else "VIOLATED"}: cases={started} executions={executions} '
        f'states={states} transitions={transitions} distinct outcomes={len(outcomes)} '
        f'wall={time.time() - t0:.1f}s'
    )
    sys.stdout.flush()
    return 0 if ok else 1
