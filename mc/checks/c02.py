"""C02: the pan-sharpened image does not depend on how tile work is scheduled."""
from __future__ import annotations

import warnings

import numpy as np

from mc import core, data

VISIBLE = ['lock', 'io', 'task', 'fut']
LINES = ['line', 'lock', 'io', 'task', 'fut']

SCENARIOS = {
    # several statistics tiles (these are 1024 x 1024), of very different size and content
    'stats': dict(ms=(1030, 4), block=(1024, 16), dtype='float64'),
    'stats-rows': dict(ms=(4, 1030), block=(16, 1024), dtype='float64', lines=False, deep=False),
    'stats-weights-mask': dict(ms=(1030, 4), block=(1024, 16), dtype='uint16', write_mask=True, weights=[1, 2, 1]),
    'stats-hole': dict(ms=(1030, 4), block=(1024, 16), dtype='float64', hole=True, lines=False, deep=False),
    # several output tiles
    'tiles': dict(ms=(20, 8), block=(16, 16), dtype='uint16'),
    'tiles-mask': dict(ms=(20, 8), block=(16, 16), dtype='uint16', write_mask=True, hole=True),
    'tiles-weights': dict(ms=(20, 8), block=(32, 16), dtype='float32', weights=[1, 0, 1], indexes=[3, 1, 2]),
    'tiles-cog': dict(ms=(260, 4), driver='cog', dtype='uint16', hole=True, lines=False, deep=False),
}


def make(d, sc):
    from rasterio.transform import from_origin

    w, h = sc['ms']
    ms = data.texture(3, h, w, 'uint16', 200, 3000)
    # trend, so that each statistics tile has other means and covariances
    ms = (ms + np.linspace(0, 2500, w)[None, None] + np.array([0, 900, 300])[:, None, None]
          + np.linspace(0, 1500, h)[None, :, None]).astype('uint16')
    ms[1] = (0.6 * ms[0] + 0.4 * ms[1]).astype('uint16')
    up = ms.repeat(2, 1).repeat(2, 2).astype('float64')
    pan = (0.4 * up[0] + 0.3 * up[1] + 0.2 * up[2] + data.texture(1, 2 * h, 2 * w, 'uint16', 0, 800)[0]).astype('uint16')
    if sc.get('hole'):
        pan[1:5, 3:12] = 0
        ms[:, 2:4, w - 5:w - 2] = 0
    kw = dict(crs=data.UTM, nodata=0)
    return dict(
        pan=data.write_image(d / 'pan.tif', pan[None], transform=from_origin(data.X0, data.Y0, 1, 1), **kw),
        ms=data.write_image(d / 'ms.tif', ms, transform=from_origin(data.X0, data.Y0, 2, 2), **kw),
    )


def same(a, b):
    """Equal up to the rounding of differently ordered floating point sums."""
    if a[0] != b[0] or a[1].tobytes() != b[1].tobytes():
        return False
    x, y = a[2], b[2]
    if np.issubdtype(x.dtype, np.floating):
        tol = 1e-9 if x.dtype == 'float64' else 1e-5
        return np.array_equal(np.isnan(x), np.isnan(y)) and np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True)
    diff = np.abs(x.astype('int64') - y.astype('int64'))
    return diff.max() <= 1 and (diff > 0).mean() <= 0.002


class C02(core.Check):
    pid = 'C02'
    needs_sched = True
    rule = (
        'one execution = one complete PanSharpen.process run under one schedule; schedules are all those with at most '
        '`bound` deviations from run-to-block order; states/transitions = scheduling choice-tree nodes/edges visited'
    )
    assumptions = [
        'scheduling points are source lines of orthority, lock, future, task and dataset operations; native code '
        'between two points runs atomically',
        'worker pool capped at 2-3 workers',
        'results equal up to rounding of the order in which tile statistics are summed (1e-9 relative, or 1 count in '
        'at most 0.2 % of integer pixels)',
    ]

    def bounds(self, tier):
        return dict(deviations_line=1 if tier == 'quick' else 2, deviations_visible=2 if tier == 'quick' else 3,
                    workers='2-3', statistics_tiles='1-2', output_tiles='2-3')

    def cases(self, tier):
        out = []
        for name, sc in SCENARIOS.items():
            n = 4
            for part in range(n):
                if sc.get('lines', True):
                    out.append(dict(sc=name, kinds='lines', bound=1, w=2, part=part, n=n))
                if sc.get('deep', True):
                    out.append(dict(sc=name, kinds='visible', bound=2, w=2, part=part, n=n))
                else:
                    out.append(dict(sc=name, kinds='visible', bound=1, w=2, part=part, n=n))
        for name in ('tiles-mask', 'stats'):
            for part in range(8):
                out.append(dict(sc=name, kinds='visible', bound=1, w=3, part=part, n=8))
        if tier == 'thorough':
            for name, sc in SCENARIOS.items():
                for part in range(16):
                    out.append(dict(sc=name, kinds='visible', bound=3, w=2, part=part, n=16))
                    out.append(dict(sc=name, kinds='lines', bound=1, w=3, part=part, n=16))
            for name in ('tiles', 'tiles-mask'):
                for part in range(64):
                    out.append(dict(sc=name, kinds='lines', bound=2, w=2, part=part, n=64))
        return sorted(out, key=lambda c: (c['part'], c['sc'], c['kinds'], c['bound'], c['w']))

    def setup(self, scratch, tier):
        self.scratch = scratch
        self.cache = {}

    def run_case(self, case, tally, scratch):
        import rasterio as rio
        from mc import sched
        from orthority.pan_sharp import PanSharpen

        sc = SCENARIOS[case['sc']]
        if case['sc'] not in self.cache:
            d = self.scratch / case['sc']
            d.mkdir()
            self.cache[case['sc']] = make(d, sc)
        s = self.cache[case['sc']]
        out = scratch / 'out.tif'
        if sc.get('driver') == 'cog':
            co = dict(blocksize=128, compress='deflate')
        else:
            co = dict(tiled=True, blockxsize=sc['block'][0], blockysize=sc['block'][1], compress='deflate')
        kw = dict(weights=sc.get('weights'), ms_indexes=sc.get('indexes'), write_mask=sc.get('write_mask', False),
                  dtype=sc['dtype'], creation_options=co, driver=sc.get('driver', 'gtiff'), build_ovw=False, overwrite=True)

        def body():
            if out.exists():
                out.unlink()
            PanSharpen(s['pan'], s['ms']).process(str(out), **kw)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with rio.open(out) as ds:
                    return (ds.profile['dtype'], ds.transform, str(ds.crs), ds.nodata is None), ds.read_masks(), ds.read()

        ref = sched.execute(body, (), ('fut',), 1)
        if ref.outcome[0] != 'ok':
            raise core.Violation(f'{case["sc"]}: sequential run fails: {ref.outcome}', key='sequential')
        tally.outcome(case['sc'], ref.outcome[1][2].sum(dtype='float64'))

        def judge(r, plan):
            if r.aborted:
                raise core.Violation(f'{case["sc"]}: {r.aborted}', key='deadlock', detail=dict(plan=plan))
            if r.races:
                raise core.Violation(f'{case["sc"]}: unsynchronised dataset use: {r.races[0]}', key='race',
                                     detail=dict(plan=plan))
            if r.outcome[0] != 'ok':
                raise core.Violation(f'{case["sc"]}: schedule raises {r.outcome[1:]}', key='raised', detail=dict(plan=plan))
            if not same(ref.outcome[1], r.outcome[1]):
                raise core.Violation(f'{case["sc"]}: schedule changes the result', key='schedule', detail=dict(plan=plan))
            if r.stuck:
                raise core.Violation(f'{case["sc"]}: threads left blocked: {r.stuck}', key='stuck')

        kinds = LINES if case['kinds'] == 'lines' else VISIBLE
        sched.explore(body, judge, tally, kinds, case['bound'], case['w'], case['part'], case['n'])


CHECK = C02()
