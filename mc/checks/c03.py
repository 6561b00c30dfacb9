"""C03: reading parameters from many images gives each image's own parameters in list order, under every schedule."""
from __future__ import annotations

import os
from itertools import product

from mc import core, data, tags

VISIBLE = ['lock', 'io', 'task', 'fut']
LINES = ['line'] + VISIBLE

KINDS = {
    'exif': ['a', 'b', 'c', 'missing', 'garbage', 'badtag'],
    'rpc': ['a', 'b', 'c', 'missing', 'garbage', 'none'],
    'gcp': ['a', 'b', 'c', 'missing', 'garbage', 'none'],
}
ARGS = ['str', 'path', 'ofile', 'ds']


class C03(core.Check):
    pid = 'C03'
    needs_sched = True
    rule = (
        'one execution = one multi-image read (ExifReader, read_im_rpc_param or read_im_gcps) of one list of files under one '
        'schedule; lists are all sequences of up to `files` entries over good, missing, unreadable and untagged images; '
        'schedules are all those with at most `bound` deviations from run-to-block order'
    )
    assumptions = ['worker pool capped at 2-3 workers; native code between two scheduling points runs atomically']

    def bounds(self, tier):
        return dict(files=3 if tier == 'quick' else 4, deviations='1 at line level, 1-2 at synchronisation level', workers='2-3')

    def cases(self, tier):
        out = []
        for what, kinds in KINDS.items():
            lists = [list(p) for n in (0, 1, 2, 3) for p in product(kinds, repeat=n)]
            if tier == 'thorough':
                lists += [list(p) for p in product(kinds, repeat=4)]
            n = 16 if tier == 'quick' else 64
            for k in range(n):
                group = lists[k::n]
                out.append(dict(what=what, mode='visible', bound=1, w=2, lists=group))
            deep = [['a', 'b', 'c'], ['c', 'a', 'b', 'a'], ['a', 'missing', 'garbage'], ['garbage', kinds[-1], 'b'],
                    ['b', 'a'], ['b', kinds[-1], 'missing']]
            for lst in deep:
                out.append(dict(what=what, mode='visible', bound=2, w=3, lists=[lst]))
                out.append(dict(what=what, mode='lines', bound=1, w=2, lists=[lst]))
            for k in range(8):
                out.append(dict(what=what, mode='lines', bound=2, w=2, lists=[['b', 'a']], part=k, n=8))
            for lst in deep:
                if tier == 'thorough':
                    out.append(dict(what=what, mode='visible', bound=3, w=3, lists=[lst]))
                    out.append(dict(what=what, mode='lines', bound=2, w=2, lists=[lst[:2]]))
        out.sort(key=lambda c: (c['bound'], c['mode'], c['w']))
        return out

    def setup(self, scratch, tier):
        from rasterio.control import GroundControlPoint
        from rasterio.transform import RPC
        from mc import scenes

        d = self.dir = scratch / 'in'
        d.mkdir()
        for k, name in enumerate('abc'):
            e = dict(Make=f'Make{k % 2}', Model='M', FocalLength=f'({8.0 + k})', FocalPlaneResolutionUnit='3',
                     FocalPlaneXResolution='(10)', FocalPlaneYResolution='(10)')
            tags.write_tagged(d / f'exif_{name}.tif', (8 + k, 6), exif=e,
                              xmp=tags.xmp_packet(tags.dji_props((-33.1 + k * 0.01, 21.5, 100 + k), (k, -90 + k, 30 * k))))
            r = scenes.make_rpc((8 + k, 6), lon=21.0 + k, h_off=30.0 + k)
            tags.write_tagged(d / f'rpc_{name}.tif', (8 + k, 6), rpcs=RPC(**r))
            g = [GroundControlPoint(row=i + k, col=2 * i, x=21.0 + k + i * 0.1, y=-33 - i * 0.2, z=float(10 * k + i), id=f'{name}{i}',
                                    info='i') for i in range(2 + k)]
            tags.write_tagged(d / f'gcp_{name}.tif', (8 + k, 6), gcps=(g, 'EPSG:4979'))
        for what in KINDS:
            (d / f'{what}_garbage.tif').write_bytes(b'this is not an image')
            tags.write_tagged(d / f'{what}_none.tif')
        tags.write_tagged(d / 'exif_badtag.tif', exif=dict(FocalLength='(x)'))
        self.single = {}

    def read(self, what, files):
        from orthority import param_io

        if what == 'exif':
            r = param_io.ExifReader(files, crs='EPSG:32734')
            return list(r.read_int_param().items()), list(r.read_ext_param().items())
        fn = param_io.read_im_rpc_param if what == 'rpc' else param_io.read_im_gcps
        return (list(fn(files).items()),)

    def expected(self, what, lst):
        """Outcome of reading the list, from reading its files one at a time."""
        from orthority.errors import ParamError

        ints, exts = {}, {}
        # an image listed twice is read as one
        for k in dict.fromkeys(lst):
            path = str(self.dir / f'{what}_{k}.tif')
            if k == 'missing':
                return ('raised', FileNotFoundError, f'{what}_{k}')
            if k == 'none':
                return ('raised', ParamError, f'{what}_{k}')
            if k in ('garbage', 'badtag'):
                return ('raised', RuntimeError, f'{what}_{k}')
            if path not in self.single:
                self.single[path] = self.read(what, [path])
            res = self.single[path]
            ints.update(dict(res[0]))
            if what == 'exif':
                exts.update(dict(res[1]))
        return ('ok', (list(ints.items()), list(exts.items())) if what == 'exif' else (list(ints.items()),))

    def run_case(self, case, tally, scratch):
        import warnings
        from pathlib import Path

        import fsspec
        import rasterio as rio
        from mc import sched
        from mc.checks.c04 import open_fds

        what = case['what']
        kinds = LINES if case['mode'] == 'lines' else VISIBLE
        found = {}
        for num, lst in enumerate(case['lists']):
            exp = self.expected(what, lst)
            dss = []
            box = {}

            def make_args():
                args = []
                for i, k in enumerate(lst):
                    p = str(self.dir / f'{what}_{k}.tif')
                    kind = ARGS[(i + num + len(lst)) % 4]
                    if kind == 'ds' and k not in ('missing', 'garbage'):
                        ds = rio.open(p)
                        dss.append(ds)
                        args.append(ds)
                    elif kind == 'ofile':
                        args.append(fsspec.open(p, 'rb'))
                    elif kind == 'path':
                        args.append(Path(p))
                    else:
                        args.append(p)
                return args

            args = make_args()
            base_fds = open_fds(self.dir)

            def body():
                box.clear()
                filters = list(warnings.filters)
                try:
                    return self.read(what, args)
                except Exception as ex:
                    box['ex'] = ex
                    raise
                finally:
                    box['live'] = [t.name for t in sched.ACTIVE.threads[1:] if not t.done]
                    box['leak'] = list(warnings.filters) != filters
                    warnings.filters[:] = filters
                    warnings._filters_mutated()

            def judge(r, plan):
                def bad(key, text):
                    found.setdefault(key, core.Violation(f'{what} {lst}: {text}', key=key, detail=dict(plan=plan)))

                if r.aborted:
                    return bad('deadlock', r.aborted)
                if r.races:
                    bad('race', r.races[0])
                if exp[0] == 'ok':
                    if r.outcome[0] != 'ok':
                        return bad('raised', f'raised {r.outcome[1:]}')
                    if repr(r.outcome[1]) != repr(exp[1]):
                        got = [[k for k, _ in part] for part in r.outcome[1]]
                        return bad('result', f'result differs from reading the files one at a time, in list order (got {got})')
                else:
                    if r.outcome[0] == 'ok':
                        return bad('lost', f'returned normally, {exp[1].__name__} for {exp[2]} expected')
                    ex = box['ex']
                    if not isinstance(ex, exp[1]) or exp[2] not in str(ex):
                        return bad('error', f'raised {core._describe(ex)}, {exp[1].__name__} naming {exp[2]} expected')
                if box['live'] or r.stuck:
                    bad('threads', f'worker threads still running: {box["live"] or r.stuck}')
                if any(ds.closed for ds in dss):
                    bad('caller', "the caller's dataset was closed")
                left = open_fds(self.dir)
                if left != base_fds:
                    bad('open', f'files left open: {left}')
                if box['leak']:
                    bad('warnings', 'the process-wide warning filters were changed by the call')
                tally.outcome(what, tuple(lst), r.outcome[0])

            sched.explore(body, judge, tally, kinds, case['bound'], case['w'], case.get('part', 0), case.get('n', 1))
            for ds in dss:
                ds.close()
        core.raise_all(found)


CHECK = C03()
