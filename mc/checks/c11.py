"""C11: ortho content does not depend on output layout, processing options or earlier processing."""
from __future__ import annotations

import warnings

import numpy as np

from mc import core, data, scenes, space

SCENES = dict(
    cam=['pinhole', 'brown', 'fisheye', 'rpc', 'opencv'],
    und=[False, True],
    interp=['cubic', 'nearest', 'lanczos', 'average'],
    dtype=['uint8', 'uint16', 'int16', 'float32', 'float64'],
    bands=[3, 1, 5],
    zeros=[False, True],
    res=['gsd', 'dem', 'fine'],
)
LAYOUTS = dict(
    block=[('tiled', 512, 512), ('tiled', 16, 16), ('tiled', 32, 48), ('tiled', 64, 16), ('strip', 1), ('strip', 3),
           ('strip', 1000), 'cog', 'default'],
    per_band=[False, True],
    write_mask=[False, True, None],
    compress=['deflate', 'lzw', 'none'],
    interleave=['band', 'pixel'],
    ovw=[False, True],
    out=['str', 'path', 'ofile', 'mem'],
    progress=[False, True, 'dict'],
)
CALLS = [
    dict(), dict(per_band=True), dict(interp='nearest'), dict(resolution='fine'), dict(dtype='float32'),
    dict(write_mask=True), dict(dem_interp='nearest'), dict(driver='cog'),
]


def lvalid(c):
    if c['block'] in ('cog', 'default') and (c['interleave'] != 'band' or c['compress'] == 'none'):
        return False
    return True


class C11(core.Check):
    pid = 'C11'
    rule = (
        'one execution = one process() run; its pixels and validity are compared with those of the reference layout '
        '(or of a fresh object, for call histories); states = runs, transitions = compared pixels'
    )
    assumptions = ['lossless compression', 'native threads left to the OS here (C01 controls them)']

    def bounds(self, tier):
        return dict(scene_deviations=2 if tier == 'quick' else 3, layout_deviations=2 if tier == 'quick' else 3,
                    call_history_depth=2 if tier == 'quick' else 3)

    def cases(self, tier):
        k = 2 if tier == 'quick' else 3
        lay = space.deviations(LAYOUTS, 1, valid=lvalid)
        lay2 = space.deviations(LAYOUTS, k, valid=lvalid)
        pbm = space.product(LAYOUTS, ['block', 'per_band', 'write_mask'], valid=lambda c: lvalid(c) and c['block'] in (
            ('tiled', 16, 16), ('strip', 3), 'cog'))
        sc = space.unique(space.deviations(SCENES, k) + space.deviations(SCENES, k - 1, base=dict(cam='brown', und=True)))
        sc = [s for s in sc if not (s['und'] and s['cam'] in ('pinhole', 'rpc'))]
        out = []
        for s in sc:
            core_ = space.deviations(SCENES, 0) == [s] or (s['und'] and s['cam'] == 'brown' and s['bands'] == 3
                                                          and s['interp'] == 'cubic' and s['dtype'] == 'uint8')
            ls = lay2 if core_ else lay + pbm if s['zeros'] else lay
            for p in range(0, len(ls), 24):
                out.append(dict(scene=s, layouts=ls[p:p + 24]))
        depth = 2 if tier == 'quick' else 3
        hs = [[]]
        hist = []
        for _ in range(depth):
            hs = [h + [c] for h in hs for c in range(len(CALLS))]
        hist = hs
        for cam, und, res in (('pinhole', False, 'dem'), ('brown', True, 'gsd'), ('rpc', False, 'gsd'),
                              ('brown', False, 'dem'), ('fisheye', True, 'dem')):
            n = 8 if tier == 'quick' else 32
            for p in range(n):
                out.append(dict(hist=hist[p::n], cam=cam, und=und, res=res))
        return out

    def sample(self, case):
        return dict(scene=case['scene'], layout=case['layouts'][0]) if 'scene' in case else dict(
            case, hist=case['hist'][:2])

    def setup(self, scratch, tier):
        self.n = 0
        self.scratch = scratch

    # ------------------------------------------------------------------------------------------
    def build(self, d, s):
        size = (44, 34)
        sc = scenes.ortho_scene(d, cam=s['cam'], size=size, distort=not s['und'], dtype=s['dtype'], bands=s['bands'],
                                lo=90, hi=160)
        nod = {'uint8': 0, 'uint16': 0, 'int16': -32768}.get(s['dtype'], np.nan)
        if s['zeros']:
            import rasterio as rio

            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with rio.open(sc['src'], 'r+') as ds:
                    a = ds.read()
                    a[0, 8:20, 10:30] = nod  # first band only
                    a[:, 22:28, 5:16] = nod  # all bands
                    a[-1, 10:15, 25:40] = nod
                    ds.write(a)
        res = dict(gsd=sc['res'], dem=None, fine=tuple(r * 0.4 for r in sc['res']))[s['res']]
        if s['res'] == 'dem':
            import rasterio as rio

            with rio.open(sc['dem']) as ds:
                res = ds.res
        scenes.memo_boundary(sc['camera'])
        return sc, res

    def run(self, ortho, d, res, interp, lay=None, **kw):
        from pathlib import Path

        import fsspec
        import rasterio as rio

        self.n += 1
        out = f'{d}/o{self.n}.tif'
        kw = dict(dict(resolution=res, interp=interp), **kw)
        target = out
        if lay:
            kw.update(per_band=lay['per_band'], write_mask=lay['write_mask'], build_ovw=lay['ovw'])
            pr = lay['progress']
            kw['progress'] = dict(disable=True) if pr == 'dict' else pr
            b = lay['block']
            if b == 'cog':
                kw.update(driver='cog', compress=lay['compress'])
            elif b == 'default':
                kw.update(compress=lay['compress'])
            else:
                co = dict(tiled=b[0] == 'tiled', interleave=lay['interleave'])
                if lay['compress'] != 'none':
                    co['compress'] = lay['compress']
                if b[0] == 'tiled':
                    co.update(blockxsize=b[1], blockysize=b[2])
                else:
                    co.update(blockysize=b[1])
                kw['creation_options'] = co
            if lay['out'] == 'path':
                target = Path(out)
            elif lay['out'] == 'ofile':
                target = fsspec.open(out, 'wb')
            elif lay['out'] == 'mem':
                out = f'memory://o{self.n}.tif'
                target = out
        import contextlib
        import io

        with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()):
            warnings.simplefilter('ignore')
            ortho.process(target, **kw)
            if out.startswith('memory:'):
                fs = fsspec.filesystem('memory')
                buf = fs.cat(out)
                fs.rm(out)
                with rio.MemoryFile(buf) as mf, mf.open() as ds:
                    return self.content(ds)
            with rio.open(out) as ds:
                r = self.content(ds)
        for f in Path(d).glob(f'o{self.n}.tif*'):
            f.unlink()
        return r

    @staticmethod
    def content(ds):
        return dict(a=ds.read(), m=ds.dataset_mask() > 0, tr=tuple(ds.transform), crs=ds.crs.to_wkt(),
                    ci=tuple(x.name for x in ds.colorinterp), dt=ds.dtypes, nod=ds.nodata)

    def run_case(self, case, tally, d):
        from orthority.ortho import Ortho

        if 'hist' in case:
            return self.history(case, tally, d)
        s = case['scene']
        sc, res = self.build(d, s)
        ortho = Ortho(sc['src'], sc['dem'], sc['camera'], sc['crs'])
        interp = s['interp']
        ref = self.run(ortho, d, res, interp, space.default(LAYOUTS))
        gsd = ortho._gsd if hasattr(ortho, '_gsd') else min(sc['res'])
        found = {}
        for lay in case['layouts']:
            # JPEG is never selected here, so write_mask=None means no mask
            got = self.run(Ortho(sc['src'], sc['dem'], sc['camera'], sc['crs']), d, res, interp, lay)
            v = self.compare(ref, got, s, lay, res, gsd)
            tally.add(states=1, executions=1, transitions=int(got['m'].size), traces=1)
            if v:
                found.setdefault(v.key, v)
        tally.outcome(s, ref['a'].tobytes())
        core.raise_all(found)

    def compare(self, ref, got, s, lay, res, gsd):
        det = dict(scene=s, layout=lay)
        for k, what in (('tr', 'transform'), ('crs', 'CRS'), ('ci', 'colour interpretation'), ('dt', 'data type')):
            if ref[k] != got[k]:
                return core.Violation(f'layout changes the {what}: {lay}', key='layout ' + what, detail=det)
        a, b = ref['a'], got['a']
        if a.shape != b.shape:
            return core.Violation(f'layout changes the shape: {lay}', key='layout shape', detail=det)
        same = (a == b) | ((a != a) & (b != b))
        if a.dtype.kind == 'f':  # vectorised float code of the resampling library rounds differently at row ends
            same |= np.isclose(a, b, rtol=1e-5, atol=0)
        diff = ~same.all(axis=0) | (ref['m'] != got['m'])
        if not diff.any():
            return None
        nod = {'uint8': 0, 'uint16': 0, 'int16': -32768}.get(s['dtype'], np.nan)
        isnod = (lambda x: x != x) if nod != nod else (lambda x: x == nod)
        h, w = diff.shape
        # the two recorded findings, recognised by exactly what they do
        dil = s['und'] and s['interp'] != 'nearest' and nod == nod
        blk = lay['block']
        if dil:
            # nodata dilation stops at tile edges: pixels near an edge differ, one of the two being nodata
            kx = max(int(np.ceil(5 * gsd / abs(ref['tr'][0]))), 3) // 2 + 1
            ky = max(int(np.ceil(5 * gsd / abs(ref['tr'][4]))), 3) // 2 + 1
            if blk in ('cog', 'default'):
                bx, by = 512, 512
            elif blk[0] == 'tiled':
                bx, by = blk[1], blk[2]
            else:
                bx, by = 10**6, blk[1]
            jj, ii = np.meshgrid(np.arange(w), np.arange(h))
            ex = np.minimum(jj % bx, bx - 1 - jj % bx) < kx
            ey = np.minimum(ii % by, by - 1 - ii % by) < ky
            one = isnod(a).all(axis=0) ^ isnod(b).all(axis=0)
            near = (ex & (w > bx)) | (ey & (h > by))
            if not s['zeros'] and (diff <= (near & one)).all():
                return core.Violation(f'nodata dilation stops at tile edges: {lay}', key='known-tile-dilation',
                                      detail=det)
        if s['zeros'] and s['bands'] > 1 and lay['per_band'] and lay['write_mask']:
            if same.all() and (diff <= (isnod(a[0]) & ref['m'])).all():
                return core.Violation(f'per-band mask is that of the first band: {lay}', key='known-per-band-mask',
                                      detail=det)
        if s['zeros'] and dil:
            # dilation of nodata valued source pixels, per tile and per band
            if (diff <= (isnod(a).any(axis=0) | isnod(b).any(axis=0))).all():
                return core.Violation(f'dilation of nodata valued source pixels: {lay}', key='known-zeros-dilation',
                                      detail=det)
        if not s['zeros'] and dil and lay['per_band']:
            # a band whose interpolated value next to nodata happens to equal nodata is dilated on its own
            part = isnod(a).any(axis=0) ^ isnod(a).all(axis=0) | isnod(b).any(axis=0) ^ isnod(b).all(axis=0)
            if (diff <= (part | near & one)).all():
                return core.Violation(f'per-band nodata dilation: {lay}', key='known-per-band-dilation', detail=det)
        k = np.argwhere(diff)[0]
        return core.Violation(f'layout changes the content: {lay}', key='layout content',
                              detail=dict(det, n=int(diff.sum()), pixel=k.tolist(), ref=a[:, k[0], k[1]].tolist(),
                                          got=b[:, k[0], k[1]].tolist()))

    def history(self, case, tally, d):
        from orthority.ortho import Ortho

        s = dict(space.default(SCENES), cam=case['cam'], und=case['und'], res=case['res'], bands=3)
        sc, res = self.build(d, s)
        fresh = {}

        def kw(i):
            k = dict(CALLS[i], creation_options=dict(tiled=True, blockxsize=16, blockysize=16))
            if k.get('driver'):
                del k['creation_options']
                k['compress'] = 'deflate'
            if k.get('resolution') == 'fine':
                k['resolution'] = tuple(r * 0.45 for r in sc['res'])
            return k

        def norm(r):
            return (r['a'].tobytes(), r['m'].tobytes(), r['tr'], r['dt'], str(r['nod']))

        for h in case['hist']:
            ortho = Ortho(sc['src'], sc['dem'], sc['camera'], sc['crs'])
            for n, i in enumerate(h):
                k = kw(i)
                if i not in fresh:
                    fresh[i] = norm(self.run(Ortho(sc['src'], sc['dem'], sc['camera'], sc['crs']), d, k.pop(
                        'resolution', res), k.pop('interp', 'cubic'), **k))
                    k = kw(i)
                got = norm(self.run(ortho, d, k.pop('resolution', res), k.pop('interp', 'cubic'), **k))
                tally.add(states=1, transitions=1, executions=1, traces=1)
                if got != fresh[i]:
                    raise core.Violation(f'result of {CALLS[i]} depends on earlier calls {[CALLS[x] for x in h[:n]]}',
                                         key='history', detail=dict(cam=case['cam'], und=case['und'], hist=h))
        tally.outcome(sorted((k, hash(v)) for k, v in fresh.items()))


CHECK = C11()
