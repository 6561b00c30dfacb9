"""C01: the ortho image does not depend on how tile work is scheduled."""
from __future__ import annotations

from mc import core, data

VISIBLE = ['lock', 'io', 'task', 'fut']
LINES = ['line', 'lock', 'io', 'task', 'fut']

SCENARIOS = {
    # name: (camera, distort, per_band, write_mask, dtype, interp, bands, size)
    'brown': dict(cam='brown', distort=True),
    'brown-undist': dict(cam='brown', distort=False, interp='bilinear'),
    'brown-perband-mask': dict(cam='brown', per_band=True, write_mask=True, size=(16, 10)),
    'opencv-mask': dict(cam='opencv', write_mask=True, interp='nearest'),
    'fisheye-undist-perband': dict(cam='fisheye', distort=False, per_band=True, dtype='int16', size=(14, 9)),
    'pinhole-float': dict(cam='pinhole', dtype='float32', interp='cubic'),
    'rpc': dict(cam='rpc', write_mask=True),
    'cog': dict(cam='pinhole', driver='cog', size=(40, 12)),
}


class C01(core.Check):
    pid = 'C01'
    needs_sched = True
    rule = (
        'one execution = one complete Ortho.process run under one schedule; schedules are all those with at '
        'most `bound` deviations from run-to-block order; states/transitions = scheduling choice-tree nodes/edges '
        'visited; outcomes = distinct scenario outputs'
    )
    assumptions = [
        'scheduling points are source lines of orthority, lock, future, task and dataset operations; native code '
        'between two points runs atomically',
        'worker pool capped at 2-3 workers',
    ]

    def bounds(self, tier):
        return dict(deviations_line=1 if tier == 'quick' else 2, deviations_visible=2 if tier == 'quick' else 3,
                    workers='2-3', tiles='2-6')

    def cases(self, tier):
        out = []
        for name in SCENARIOS:
            np_ = 4
            for part in range(np_):
                out.append(dict(sc=name, kinds='lines', bound=1, w=2, part=part, n=np_))
            for part in range(np_):
                out.append(dict(sc=name, kinds='visible', bound=2, w=2, part=part, n=np_))
        for name in ('brown-perband-mask',):
            for part in range(8):
                out.append(dict(sc=name, kinds='visible', bound=2, w=3, part=part, n=8))
        if tier == 'thorough':
            for name in SCENARIOS:
                for part in range(16):
                    out.append(dict(sc=name, kinds='visible', bound=3, w=2, part=part, n=16))
                for part in range(16):
                    out.append(dict(sc=name, kinds='lines', bound=1, w=3, part=part, n=16))
            for name in ('brown', 'brown-undist', 'rpc'):
                for part in range(64):
                    out.append(dict(sc=name, kinds='lines', bound=2, w=2, part=part, n=64, small=True))
        # interleave so that shards are balanced
        return sorted(out, key=lambda c: (c['part'], c['sc'], c['kinds'], c['bound'], c['w']))

    def setup(self, scratch, tier):
        from mc import scenes

        self.scenes = scenes
        self.scratch = scratch
        self.cache = {}

    def scene(self, name, small):
        key = (name, small)
        if key not in self.cache:
            sc = SCENARIOS[name]
            d = self.scratch / f'scene_{name}_{small}'
            d.mkdir(exist_ok=True)
            size = sc.get('size', (22, 17))
            if small:
                size = (16, 9)
            s_ = self.cache[key] = self.scenes.ortho_scene(
                d, cam=sc['cam'], size=size, bands=3, distort=sc.get('distort', True), dtype=sc.get('dtype', 'uint8'))
            self.scenes.memo_boundary(s_['camera'])
        return self.cache[key]

    def run_case(self, case, tally, scratch):
        from mc import sched
        from orthority.ortho import Ortho

        sc = SCENARIOS[case['sc']]
        small = case.get('small', False)
        s = self.scene(case['sc'], small)
        out = scratch / 'out.tif'
        if sc.get('driver') == 'cog':
            co = dict(blocksize=128, compress='deflate')
        else:
            co = dict(tiled=True, blockxsize=16, blockysize=16, compress='deflate')
        kw = dict(
            interp=sc.get('interp', 'cubic'), per_band=sc.get('per_band', False),
            write_mask=sc.get('write_mask', False), creation_options=co, driver=sc.get('driver', 'gtiff'),
            build_ovw=False, overwrite=True, resolution=s['res'] if not small else (s['res'][0], s['res'][1]),
        )
        if sc.get('driver') == 'cog':
            kw['resolution'] = (s['res'][0] / 16, s['res'][1])

        def body():
            if out.exists():
                out.unlink()
            Ortho(s['src'], s['dem'], s['camera'], s['crs']).process(str(out), **kw)
            return data.file_state(out)

        ref = sched.execute(body, (), ('fut',), 1)
        if ref.outcome[0] != 'ok':
            raise core.Violation(f'sequential run fails: {ref.outcome}', key='sequential')
        import rasterio as rio

        tally.outcome(case['sc'], hash(ref.outcome))

        def judge(r, plan):
            if r.aborted:
                raise core.Violation(f'{case["sc"]}: {r.aborted}', key='deadlock', detail=dict(plan=plan))
            if r.races:
                raise core.Violation(f'{case["sc"]}: unsynchronised dataset use: {r.races[0]}', key='race',
                                     detail=dict(plan=plan))
            if r.outcome != ref.outcome:
                what = 'raised ' + str(r.outcome[1:]) if r.outcome[0] != 'ok' else 'different file content'
                raise core.Violation(f'{case["sc"]}: schedule changes the result: {what}', key='schedule',
                                     detail=dict(plan=plan))
            if r.stuck:
                raise core.Violation(f'{case["sc"]}: threads left blocked: {r.stuck}', key='stuck')

        kinds = LINES if case['kinds'] == 'lines' else VISIBLE
        sched.explore(body, judge, tally, kinds, case['bound'], case['w'], case['part'], case['n'])


CHECK = C01()
