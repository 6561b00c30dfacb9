"""C04: a failing read, write or computation is never lost: process() raises, cleans up, and can be retried."""
from __future__ import annotations

import os

import numpy as np

from mc import core, data

VISIBLE = ['lock', 'io', 'task', 'fut']

OPTS = dict(tiled=True, blockxsize=16, blockysize=16, compress='deflate')

SCENARIOS = {
    # Ortho; kind of (source, dem) arguments and of the output argument
    'ortho': dict(op='ortho'),
    'ortho-mask-ovw': dict(op='ortho', write_mask=True, ovw=True),
    'ortho-perband': dict(op='ortho', per_band=True),
    'ortho-undist': dict(op='ortho', cam='brown', distort=False, inp='ds'),
    'ortho-mem': dict(op='ortho', out='mem', write_mask=True, inp='ds'),
    'ortho-cog': dict(op='ortho', driver='cog', write_mask=True),
    # PanSharpen
    'pan': dict(op='pan'),
    'pan-mask-ovw': dict(op='pan', write_mask=True, ovw=True),
    'pan-weights': dict(op='pan', weights=[1, 1, 2], inp='ds'),
    'pan-stats': dict(op='pan', ms=(1030, 3), block=(1024, 16)),
    'pan-mem': dict(op='pan', out='mem', write_mask=True, inp='ds'),
    'pan-cog': dict(op='pan', driver='cog'),
}


OTHER = ['mem', 'os', 'value', 'runtime', 'cv']


def make_error(name):
    import cv2
    from rasterio.errors import RasterioIOError

    return {
        'rio': lambda: RasterioIOError('injected fault'),
        'mem': lambda: MemoryError('injected fault'),
        'os': lambda: OSError(28, 'injected fault'),
        'runtime': lambda: RuntimeError('injected fault'),
        'cv': lambda: cv2.error('injected fault'),
        'value': lambda: ValueError('injected fault'),
    }[name]()


class Injector:
    """Counts the operations of the code under test and makes the ``at``-th one fail."""

    def __init__(self):
        self.on = False
        self.reset()

    def reset(self, at=None, mode='before', error='rio'):
        self.n = 0
        self.at, self.mode, self.error = at, mode, error
        self.fired = None
        self.names = []

    def __call__(self, name, call):
        if not self.on:
            return call()
        i = self.n
        self.n += 1
        self.names.append(name)
        if i != self.at:
            return call()
        ex = make_error(self.error)
        self.fired = (name, ex)
        if self.mode == 'after':
            call()
        raise ex


INJ = Injector()


def patch():
    """Route dataset opening and the resampling primitive through the injector, as sched does for dataset I/O."""
    import cv2
    import rasterio
    import rasterio.vrt
    from mc import sched

    sched.IO_HOOK = INJ
    r_open, r_remap, r_init = rasterio.open, cv2.remap, rasterio.vrt.WarpedVRT.__init__

    def r_open_(*a, **k):
        if not INJ.on:
            return r_open(*a, **k)
        got = []

        def call():
            got.append(r_open(*a, **k))
            return got[0]

        try:
            return INJ('open', call)
        except BaseException:
            if got:
                got[0].close()  # an open that fails leaves nothing open
            raise

    rasterio.open = r_open_
    cv2.remap = lambda *a, **k: INJ('remap', lambda: r_remap(*a, **k))

    def init(self, *a, **k):
        INJ('vrt', lambda: None)
        r_init(self, *a, **k)

    rasterio.vrt.WarpedVRT.__init__ = init


def open_fds(root):
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink(f'/proc/self/fd/{fd}')
        except OSError:
            continue
        if p.startswith(f'{root}/'):
            out.append(os.path.relpath(p, root))
    return sorted(out)


class C04(core.Check):
    pid = 'C04'
    needs_sched = True
    rule = (
        'one execution = one construction + process() run with one injected fault (the i-th open, read, write, '
        'write_mask, build_overviews, warp or remap operation fails before or after taking effect) under one schedule '
        '(at most one deviation from run-to-block order), followed by a fault-free retry; outcomes = distinct '
        '(scenario, failing operation, exception type) triples'
    )
    assumptions = [
        'a failing operation raises from the rasterio / OpenCV call; errors GDAL only logs when a dataset is closed are '
        'not observable through rasterio and are out of scope',
        'worker pool capped at 2 workers; one fault per execution',
    ]

    def bounds(self, tier):
        return dict(faults_per_execution=1, schedule_deviations=1 if tier == 'quick' else 2, workers=2,
                    errors=self.errors(tier), modes=['before', 'after'])

    def errors(self, tier):
        return ['rio'] + OTHER

    def cases(self, tier):
        out = []
        for sc in SCENARIOS:
            n = 8
            for part in range(n):
                out.append(dict(sc=sc, part=part, n=n, bound=1, errors=['rio'], modes=['before', 'after']))
                out.append(dict(sc=sc, part=part, n=n, bound=0, errors=OTHER, modes=['before']))
                if tier == 'thorough':
                    out.append(dict(sc=sc, part=part, n=n, bound=1, errors=OTHER, modes=['before', 'after']))
                    if 'stats' not in sc:
                        out.append(dict(sc=sc, part=part, n=n, bound=2, errors=['rio'], modes=['before']))
        return sorted(out, key=lambda c: (c['sc'], c['bound'], len(c['errors']), c['part']))

    def setup(self, scratch, tier):
        patch()
        self.scratch = scratch
        self.cache = {}

    def scene(self, name):
        import rasterio as rio

        if name in self.cache:
            return self.cache[name]
        sc = SCENARIOS[name]
        d = self.scratch / f'in_{name}'
        d.mkdir()
        if sc['op'] == 'ortho':
            from mc import scenes

            s = scenes.ortho_scene(d, cam=sc.get('cam', 'pinhole'), size=(14, 8), bands=2, distort=sc.get('distort', True),
                                   dem_shape=(30, 34))
            scenes.memo_boundary(s['camera'])
            s['files'] = [s['src'], s['dem']]
            if sc.get('driver') == 'cog':
                s['res'] = (s['res'][0] / 14, s['res'][1])
        else:
            from mc.checks.c02 import make

            s = make(d, dict(ms=sc.get('ms', (130, 4) if sc.get('driver') == 'cog' else (14, 6))))
            s['files'] = [s['pan'], s['ms']]
        if sc.get('inp') == 'ds':
            import warnings

            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                s['args'] = [rio.open(f) for f in s['files']]
        else:
            s['args'] = s['files']
        self.cache[name] = s
        return s

    def run_case(self, case, tally, scratch):
        import fsspec
        import rasterio as rio
        from mc import sched
        from orthority.ortho import Ortho
        from orthority.pan_sharp import PanSharpen

        name = case['sc']
        sc = SCENARIOS[name]
        s = self.scene(name)
        mem = sc.get('out') == 'mem'
        path = scratch / 'out.tif'
        url = f'memory://c04_{os.getpid()}/out.tif'
        if sc.get('driver') == 'cog':
            co = dict(blocksize=128, compress='deflate')
        else:
            bx, by = sc.get('block', (16, 16))
            co = dict(OPTS, blockxsize=bx, blockysize=by)
        kw = dict(write_mask=sc.get('write_mask', False), creation_options=co, driver=sc.get('driver', 'gtiff'),
                  build_ovw=sc.get('ovw', False), overwrite=True)
        if sc['op'] == 'ortho':
            kw.update(resolution=s['res'], per_band=sc.get('per_band', False), interp='bilinear')
        else:
            kw.update(weights=sc.get('weights'), dtype='float64')

        def out_arg():
            return fsspec.open(url, 'wb') if mem else str(path)

        def reset():
            if mem:
                fs = fsspec.filesystem('memory')
                if fs.exists(url):
                    fs.rm(url)
            elif path.exists():
                path.unlink()

        def state():
            if not mem:
                return data.file_state(path)
            with fsspec.open(url, 'rb') as f:
                raw = f.read()
            with rio.MemoryFile(raw) as mf:
                return data.file_state(mf.name)

        def construct():
            if sc['op'] == 'ortho':
                return Ortho(*s['args'], s['camera'], s['crs'])
            return PanSharpen(*s['args'])

        box = {}

        def body():
            box.clear()
            reset()
            S = sched.ACTIVE
            INJ.on = True
            try:
                box['obj'] = construct()
                box['obj'].process(out_arg(), **kw)
            except Exception as ex:
                box['ex'] = ex
            finally:
                INJ.on = False
                box['live'] = [t.name for t in S.threads[1:] if not t.done]
                box['fds'] = open_fds(scratch)
                if sc.get('inp') != 'ds':
                    box['fds'] += open_fds(self.scratch / f'in_{name}')
            return None

        def same(a, b):
            # order of summed statistics may differ between schedules
            if sc['op'] == 'ortho':
                return a == b
            x, y = np.frombuffer(a[0], 'float64'), np.frombuffer(b[0], 'float64')
            return a[1:] == b[1:] and x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-9, equal_nan=True)

        # fault free run (after one that fills the memoised world boundary)
        INJ.reset()
        sched.execute(body, (), ('fut',), 2)
        INJ.reset()
        r = sched.execute(body, (), ('fut',), 2)
        if r.aborted or 'ex' in box:
            raise core.Violation(f'{name}: fault-free run fails: {r.aborted or core._describe(box["ex"])}', key='fault-free')
        ref = state()
        nops = INJ.n
        tally.add(operations=nops)
        found = {}

        def judge(r, plan):
            fired = INJ.fired
            ops = list(INJ.names)
            where = f'{name}: fault in {fired[0] if fired else "no"} (operation {INJ.at + 1} of {nops}, {INJ.mode})'

            def bad(key, what):
                v = core.Violation(f'{where}: {what}', key=f'{key}', detail=dict(plan=plan, at=INJ.at, mode=INJ.mode,
                                                                                error=INJ.error, ops=ops))
                found.setdefault(key, v)

            tally.outcome(name, fired and fired[0], type(box.get('ex')).__name__)
            if r.aborted:
                return bad('deadlock', r.aborted)
            if fired is None:
                if 'ex' in box:
                    return bad('spurious', f'raised {core._describe(box["ex"])}')
                if not same(state(), ref):
                    return bad('content', 'different file content')
                return
            ex = box.get('ex')
            if ex is None:
                return bad('lost', 'process() returned normally')
            chain, e = [], ex
            while e is not None and e not in chain:
                chain.append(e)
                e = e.__cause__ or e.__context__
            if fired[1] not in chain:
                return bad('cause', f'raised {core._describe(ex)} that does not carry the original error')
            if box['live']:
                return bad('threads', f'raised with worker threads still running: {box["live"]}')
            if r.stuck:
                return bad('stuck', f'threads left blocked: {r.stuck}')
            if r.races:
                return bad('race', r.races[0])
            if box['fds']:
                return bad('open', f'files left open: {box["fds"]}')
            if sc.get('inp') == 'ds':
                for ds in s['args']:
                    if ds.closed:
                        bad('caller', "the caller's dataset was closed")
                        s['args'] = [rio.open(f) for f in s['files']]
                        return
                    ds.read(1)
            # retry on the same object
            INJ.reset(at=INJ.at, mode=INJ.mode, error=INJ.error)
            at = INJ.at
            INJ.at = None
            obj = box.get('obj') or construct()
            box.clear()
            try:
                rr = sched.execute(lambda: obj.process(out_arg(), **kw), (), ('fut',), 2)
                if rr.aborted or rr.outcome[0] != 'ok':
                    return bad('retry', f'retry fails: {rr.aborted or rr.outcome[1:]}')
                if not same(state(), ref):
                    return bad('retry', 'retry gives a different file')
            finally:
                INJ.at = at

        for error in case['errors']:
            for mode in case['modes']:
                for at in range(nops):
                    if at % case['n'] != case['part']:
                        continue

                    def before(at=at, mode=mode, error=error):
                        INJ.reset(at=at, mode=mode, error=error)

                    sched.explore(body, judge, tally, VISIBLE, case['bound'], 2, before=before)
        core.raise_all(found)


CHECK = C04()
