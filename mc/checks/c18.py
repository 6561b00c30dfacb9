"""C18: pan-sharpened values, grid and validity follow the Gram-Schmidt definition."""
from __future__ import annotations

import warnings

import numpy as np

from mc import core, data, space

X0, Y0 = 500000.0, 6200000.0
UTM = 'EPSG:32634'
OTHER = 'EPSG:32633'

DIMS = dict(
    bands=[3, 1, 2, 4],
    indexes=[None, 'rev', 'dup', 'last', 'empty'],
    pan=[(1, 1), (2, 1), (2, 2)],               # (pan band count, pan index)
    weights=[None, 'uniform', 'scaled', 'zero', 'unit', 'empty'],
    content=['pos', 'neg', 'const', 'mixed', 'refl', 'offset'],
    interp=['nearest', 'cubic', 'bilinear', 'lanczos', 'average'],
    src=['uint16', 'uint8', 'int16', 'float32', 'float64'],
    dtype=[None, 'uint8', 'uint16', 'int16', 'float32', 'float64'],
    ms_mask=['none', 'nodata', 'nodata1', 'internal', 'alpha'],
    pan_mask=['none', 'nodata', 'internal'],
    ratio=[(2, 2), (3, 3), (4, 2), (1, 1)],
    extent=['same', 'pan-in', 'ms-in', 'ne', 'sw', 'sub', 'sub-in'],
    georef=['both', 'noms', 'nopan', 'none', 'crs'],
    write_mask=[False, True, None],
    block=[('tiled', 16, 16), ('strip', 2), 'default', 'cog'],
    order=['alone', 'after'],
    size=[(11, 9), (1030, 5), (6, 1040)],
    pansrc=['same', 'uint8', 'float32', 'int16'],
)
DIMS_REJECT = dict(
    what=['pan-index-0', 'pan-index-3', 'ms-index-0', 'ms-index-9', 'weights-len', 'weights-long', 'weights-sel', 'weights-neg', 'weights-zero', 'neg-all', 'neg-one', 'apart', 'res-x', 'res-y',
          'res-both', 'dtype'],
    georef=['both', 'noms', 'nopan', 'none'],
)


def valid(c):
    nb = nsel(c)
    if c['indexes'] == 'rev' and c['bands'] < 2:
        return False
    if c['content'] == 'neg' and (c['bands'] < 2 or c['indexes'] in ('dup', 'last') or c['weights'] not in (None, 'empty')):
        return False
    if c['content'] in ('const', 'mixed') and (c['bands'] < 2 or c['indexes'] == 'last'):
        return False
    if c['content'] in ('refl', 'offset') and (
            c['src'] != 'float64' or not pan_dtype(c).startswith('float') or c['dtype'] not in (None, 'float32', 'float64')):
        return False
    if c['content'] == 'offset' and (c['dtype'] == 'float32' or c['pansrc'] != 'same'):
        return False
    if c['weights'] in ('zero', 'unit') and nb < 2:
        return False
    if c['content'] == 'const' and c['weights'] is not None and c['weights'] != 'uniform':
        return False
    if c['georef'] in ('noms', 'nopan', 'none') and c['extent'] != 'same':
        return False
    if c['ratio'] == (1, 1) and c['extent'].startswith('sub') and c['interp'] != 'nearest':
        return False  # GDAL's kernel scale estimate depends on the chunk here
    if c['ms_mask'] == 'nodata1' and not c['src'].startswith('float'):
        return False  # GDAL takes a pixel as nodata only when all of its bands are, other than for NaN
    if c['size'][1] < 6 and c['extent'] in ('pan-in', 'ne', 'sw'):
        return False
    return True


def nsel(c):
    n = c['bands']
    return {'dup': n + 1, 'last': 1}.get(c['indexes'], n)


def sel_indexes(c):
    n = c['bands']
    return {None: None, 'empty': [], 'rev': list(range(n, 0, -1)), 'dup': [1] + list(range(1, n + 1)), 'last': [n]}[c['indexes']]


def sel_weights(c):
    n = nsel(c)
    return {None: None, 'empty': [], 'uniform': [1.0] * n, 'scaled': [3.0 + 2 * k for k in range(n)],
            'zero': [0.0] + [1.0 + k for k in range(n - 1)], 'unit': [0.0] * (n - 1) + [1.0]}[c['weights']]


LOHI = {'uint8': (20, 220), 'uint16': (500, 9000), 'int16': (-3000, 3000), 'float32': (0.1, 5.0),
        'float64': (1000.0, 1250.0)}


def pan_dtype(c):
    return c['src'] if c['pansrc'] == 'same' else c['pansrc']


def scene(c):
    """Pan and MS arrays (float64, NaN = masked), transforms and CRSs."""
    rx, ry = c['ratio']
    # MS grid: 1 unit = rx x ry pan pixels of 1 x 1 m; sizes in MS pixels
    mw, mh = c['size']
    ms_x0, ms_y0 = X0, Y0
    pw, ph = mw * rx, mh * ry
    pan_x0, pan_y0 = X0, Y0
    ext = c['extent']
    if ext == 'pan-in':          # pan covers the inside of the MS
        pan_x0, pan_y0, pw, ph = X0 + 2 * rx, Y0 - 1 * ry, 7 * rx, 6 * ry
    elif ext == 'ms-in':
        pan_x0, pan_y0, pw, ph = X0 - 3, Y0 + 2, pw + 7, ph + 5
    elif ext == 'sub-in':
        pan_x0, pan_y0, pw, ph = X0 - 1.75, Y0 + 2.5, pw + 5, ph + 6
    elif ext == 'ne':
        pan_x0, pan_y0 = X0 + 3 * rx, Y0 + 2 * ry
    elif ext == 'sw':
        pan_x0, pan_y0 = X0 - 2 * rx, Y0 - 3 * ry
    elif ext == 'sub':           # pan not aligned with the MS grid
        pan_x0, pan_y0 = X0 + rx + 0.5, Y0 - ry - 0.25
        pw, ph = pw - 2 * rx, ph - 2 * ry
    # an underlying high resolution scene evaluated at pan / MS pixel centres
    def field(k, x, y):
        u, v = x - X0, Y0 - y
        return (0.5 + 0.22 * np.sin(0.31 * u + 0.7 * k) * np.cos(0.23 * v - 0.4 * k) + 0.12 * np.sin(0.9 * u * (k + 1) / 2 + k)
                + 0.1 * np.cos(0.8 * v + 1.3 * k * k))

    def grid(x0, y0, w, h, sx, sy):
        j, i = np.meshgrid(np.arange(w) + 0.5, np.arange(h) + 0.5)
        return x0 + j * sx, y0 - i * sy

    lohi = dict(LOHI)
    if c['content'] == 'refl':  # e.g. reflectance of water
        lohi = dict.fromkeys(LOHI, (0.001, 0.02))
    elif c['content'] == 'offset':  # small variation about a large value
        lohi = dict.fromkeys(LOHI, (1e6, 1e6 + 1))
    lo, hi = lohi[c['src']]
    xm, ym = grid(ms_x0, ms_y0, mw, mh, rx, ry)
    xp, yp = grid(pan_x0, pan_y0, pw, ph, 1, 1)
    n = c['bands']
    ms = np.stack([field(k, xm, ym) for k in range(n)])
    fine = np.stack([field(k, xp, yp) for k in range(n)])
    w = np.array([0.5, 0.3, 0.15, 0.25])[:n]
    pan = np.tensordot(w, fine, 1) / w.sum() * 0.8 + 0.1 + 0.03 * np.sin(3.1 * xp + 2.3 * yp)
    if c['content'] == 'neg':
        ms[-1] = 1.0 - pan_like(ms, n) + 0.05 * np.sin(2.0 * xm)
    elif c['content'] == 'mixed':
        ms[-1] = 0.5 * ms[0] + 0.25
    elif c['content'] == 'const':
        ms[1] = 0.4
    ms = lo + ms * (hi - lo)
    psrc = pan_dtype(c)
    lo, hi = lohi[psrc]
    pan = lo + pan * (hi - lo)
    if np.issubdtype(np.dtype(c['src']), np.integer):
        ms = np.round(ms)
    if np.issubdtype(np.dtype(psrc), np.integer):
        pan = np.round(pan)
    ms, pan = ms.astype(c['src']), pan.astype(psrc)[None]
    if c['pan'][0] == 2:
        other = (data.texture(1, ph, pw, 'float64', 20, 200)).astype(psrc)
        pan = np.concatenate([pan, other]) if c['pan'][1] == 1 else np.concatenate([other, pan])
    return ms, pan, (ms_x0, ms_y0, rx, ry), (pan_x0, pan_y0, 1, 1)


def pan_like(ms, n):
    w = np.array([0.5, 0.3, 0.15, 0.25])[:n]
    return np.tensordot(w, ms, 1) / w.sum()


NODATA = dict(uint8=0, uint16=0, int16=-32768, float32=float('nan'), float64=float('nan'))


def holes(c, ms, pan):
    """Validity patterns: (per band MS mask, pan mask)."""
    mm = np.ones(ms.shape, bool)
    pm = np.ones(pan.shape[1:], bool)
    if c['ms_mask'] == 'nodata1':
        mm[0, 2:4, 3:5] = False
    elif c['ms_mask'] != 'none':
        mm[:, 2:4, 3:5] = False
        mm[:, -1, :3] = False
    if c['pan_mask'] != 'none':
        pm[2:7, 3:9] = False
        pm[-2:, -3:] = False
    return mm, pm


def write_scene(d, c):
    import rasterio as rio
    from rasterio.enums import ColorInterp
    from rasterio.transform import from_origin
    from rasterio.warp import transform_bounds

    ms, pan, mt, pt = scene(c)
    mm, pm = holes(c, ms, pan)
    files = {}
    for name, a, m, t, kind in (('ms', ms, mm, mt, c['ms_mask']), ('pan', pan, pm, pt, c['pan_mask'])):
        geo = {}
        if not (c['georef'] == 'none' or c['georef'] == 'no' + name):
            crs = UTM
            geo = dict(crs=crs, transform=from_origin(*t))
        a = a.copy()
        extra = {}
        dt = c['src'] if name == 'ms' else pan_dtype(c)
        if kind.startswith('nodata'):
            extra['nodata'] = NODATA[dt]
            if name == 'ms':
                a[~m] = NODATA[dt]
            else:
                a[:, ~m] = NODATA[dt]
        m2 = m.all(axis=0) if m.ndim == 3 else m
        if kind == 'alpha':
            top = np.iinfo(c['src']).max if np.issubdtype(np.dtype(c['src']), np.integer) else 255
            a = np.concatenate([a, np.where(m2, top, 0)[None].astype(a.dtype)])
        path = d / f'{name}.tif'
        with warnings.catch_warnings(), rio.Env(GDAL_TIFF_INTERNAL_MASK=True):
            warnings.simplefilter('ignore')
            prof = dict(driver='GTiff', count=a.shape[0], height=a.shape[1], width=a.shape[2], dtype=dt,
                        photometric='minisblack', **geo, **extra)
            with rio.open(path, 'w', **prof) as ds:
                if kind == 'alpha':
                    ds.colorinterp = [ColorInterp.gray] + [ColorInterp.undefined] * (a.shape[0] - 2) + [ColorInterp.alpha]
                ds.write(a)
                if kind == 'internal':
                    ds.write_mask(m2)
        files[name] = str(path)
    return files, ms, pan, mm, pm, mt, pt


def resample(src, sgrid, dgrid, dshape, how):
    """GDAL resampling (trusted) of a float64 array with NaN nodata, between plain grids."""
    from rasterio.transform import from_origin
    from rasterio.warp import reproject
    from rasterio.enums import Resampling

    dst = np.full(dshape, np.nan)
    reproject(src, dst, src_crs=UTM, dst_crs=UTM, src_transform=from_origin(*sgrid), dst_transform=from_origin(*dgrid),
              src_nodata=float('nan'), dst_nodata=float('nan'), resampling=Resampling[how])
    return dst


def crop(g, shape, o, oshape):
    """Grid g cropped to its intersection with grid o, expanded to whole pixels: (row, col, h, w)."""
    x0, y0, rx, ry = g
    ox0, oy0, orx, ory = o
    left, right = max(x0, ox0), min(x0 + shape[1] * rx, ox0 + oshape[1] * orx)
    top, bottom = min(y0, oy0), max(y0 - shape[0] * ry, oy0 - oshape[0] * ory)
    c0, c1 = np.floor((left - x0) / rx), np.ceil((right - x0) / rx)
    r0, r1 = np.floor((y0 - top) / ry), np.ceil((y0 - bottom) / ry)
    return int(r0), int(c0), int(r1 - r0), int(c1 - c0)


def reference(c, ms, pan, mm, pm, mt, pt):
    """Expected (values float64 with NaN invalid, grid) per the Gram-Schmidt definition in closed form."""
    idx = sel_indexes(c) or list(range(1, c['bands'] + 1))
    pan = pan[c['pan'][1] - 1].astype('float64')
    pan[~pm] = np.nan
    sel = np.stack([ms[i - 1].astype('float64') for i in idx])
    selm = np.stack([mm[i - 1] for i in idx])
    sel[~selm] = np.nan
    pr0, pc0, ph, pw = crop(pt, pan.shape, mt, ms.shape[1:])
    mr0, mc0, mh, mw = crop(mt, ms.shape[1:], pt, pan.shape)
    pg = (pt[0] + pc0 * pt[2], pt[1] - pr0 * pt[3], pt[2], pt[3])
    mg = (mt[0] + mc0 * mt[2], mt[1] - mr0 * mt[3], mt[2], mt[3])
    # statistics on the MS grid
    pan_m = resample(pan, pt, mg, (mh, mw), 'average')
    ms_m = sel[:, mr0:mr0 + mh, mc0:mc0 + mw]
    ok = ~np.isnan(pan_m) & ~np.isnan(ms_m).any(axis=0)
    P, M = pan_m[ok], ms_m[:, ok]
    pmean, mmean = P.mean(), M.mean(axis=1)
    n = P.size
    cov = (M - mmean[:, None]) @ (M - mmean[:, None]).T / (n - 1)
    cpm = (M - mmean[:, None]) @ (P - pmean) / (n - 1)
    wts = sel_weights(c)
    if not wts:
        wts = np.linalg.lstsq(cov, cpm, rcond=None)[0]
        if (wts < 0).any():
            pos = np.where(wts > 0)[0]
            w2 = np.linalg.lstsq(cov[np.ix_(pos, pos)], cpm[pos], rcond=None)[0]
            if (w2 >= 0).all():
                wts = np.zeros(len(wts))
                wts[pos] = w2
            wts = np.clip(wts, 0, None)
    wts = np.array(wts, dtype='float64')
    wts = wts / wts.sum()
    sim_var = wts @ cov @ wts
    gain = np.sqrt(sim_var) / np.sqrt(((P - pmean) ** 2).sum() / (n - 1))
    bias = wts @ mmean - gain * pmean
    inject = cov @ wts / sim_var
    # pan grid
    up = np.stack([resample(b, mt, pg, (ph, pw), c['interp']) for b in sel])
    pan_c = pan[pr0:pr0 + ph, pc0:pc0 + pw]
    out = up + inject[:, None, None] * (gain * pan_c + bias - np.tensordot(wts, up, 1))[None]
    out[:, np.isnan(out).any(axis=0)] = np.nan
    return out, pg


class C18(core.Check):
    pid = 'C18'
    rule = (
        'one execution = one PanSharpen.process run; every output pixel is compared with a closed form Gram-Schmidt '
        'reference computed from the input arrays; states = configurations, transitions = compared pixels'
    )
    assumptions = ['GDAL resampling kernels are trusted (reference resamples with rasterio.warp.reproject on plain grids)',
                   'pan and MS have non-zero variance; at least one estimated weight is positive']

    def bounds(self, tier):
        return dict(deviations=2 if tier == 'quick' else 3)

    def cases(self, tier):
        k = 2 if tier == 'quick' else 3
        cs = space.deviations(DIMS, k, valid=valid)
        if tier == 'quick':
            cs += space.deviations(DIMS, 1, base=dict(content='refl', src='float64'), valid=valid)
            cs += space.deviations(DIMS, 1, base=dict(content='offset', src='float64'), valid=valid)
            cs += space.deviations(DIMS, 1, base=dict(ms_mask='nodata', pan_mask='nodata', interp='cubic', extent='sub'), valid=valid)
        cs = space.unique(cs)
        n = 64 if tier == 'quick' else 512
        out = [dict(group=cs[p::n]) for p in range(n)]
        rj = space.product(DIMS_REJECT)
        out += [dict(reject=rj[p::8]) for p in range(8)]
        return [o for o in out if next(iter(o.values()))]

    def sample(self, case):
        return {k: v[:2] for k, v in case.items()}

    def run_case(self, case, tally, scratch):
        found = {}
        for c in case.get('group', []):
            try:
                self.one({k: tuple(v) if isinstance(v, list) else v for k, v in c.items()}, tally, scratch)
            except core.Violation as v:
                v.detail = dict(config=c, info=v.detail)
                found.setdefault(v.key, v)
        for c in case.get('reject', []):
            try:
                self.reject(c, tally, scratch)
            except core.Violation as v:
                v.detail = dict(config=c, info=v.detail)
                found.setdefault(v.key, v)
        core.raise_all(found)

    def reject(self, c, tally, d):
        from orthority.errors import OrthorityError
        from orthority.pan_sharp import PanSharpen
        from rasterio.transform import from_origin

        ms, pan = data.texture(3, 6, 7, 'uint16'), data.texture(2, 12, 14, 'uint16')
        mr, pr = (2, 2), (1, 1)
        what = c['what']
        if what in ('neg-all', 'neg-one'):
            pan = np.stack([5000 - 3 * ms.sum(axis=0).repeat(2, 0).repeat(2, 1), pan[0]]).astype('uint16')
        kw = {'pan-index-0': dict(pan_index=0), 'pan-index-3': dict(pan_index=3), 'ms-index-0': dict(ms_indexes=[1, 0]),
              'ms-index-9': dict(ms_indexes=[1, 4]), 'weights-len': dict(weights=[1, 1]),
              'weights-long': dict(weights=[1, 1, 1, 1]), 'weights-sel': dict(ms_indexes=[3, 1], weights=[1, 1, 1]),
              'weights-neg': dict(weights=[1, -1, 1]), 'weights-zero': dict(weights=[0, 0, 0]), 'neg-one': dict(ms_indexes=[2]), 'dtype': dict(dtype='int32')}.get(what, {})
        if what.startswith('res'):
            pan = data.texture(2, 3 if what != 'res-x' else 12, 3 if what != 'res-y' else 14, 'uint16')
            pr = (14 / pan.shape[2], 12 / pan.shape[1])
        mx, my = (X0, Y0) if what != 'apart' else (X0 + 100, Y0)
        if what == 'apart' and c['georef'] != 'both':
            return
        mg = dict(crs=UTM, transform=from_origin(mx, my, *mr)) if c['georef'] in ('both', 'nopan') else {}
        pg = dict(crs=UTM, transform=from_origin(X0, Y0, *pr)) if c['georef'] in ('both', 'noms') else {}
        mf, pf = data.write_image(d / 'ms.tif', ms, **mg), data.write_image(d / 'pan.tif', pan, **pg)
        out = d / 'out.tif'
        if out.exists():
            out.unlink()
        tally.add(executions=1, states=1, traces=1)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                PanSharpen(pf, mf).process(str(out), **kw)
        except OrthorityError as ex:
            tally.outcome(what, c['georef'], str(ex)[:40])
            if out.exists() and what not in ('weights-zero', 'neg-all', 'neg-one'):  # (these follow from the statistics)
                raise core.Violation(f'{what}: rejected, but an output file was created', key=f'reject-file {what}')
            return
        except Exception as ex:
            raise core.Violation(f'{what}: raised {type(ex).__name__}: {ex} rather than OrthorityError', key=f'reject {what}')
        raise core.Violation(f'{what}: accepted', key=f'reject {what}')

    def one(self, c, tally, d):
        import rasterio as rio
        from orthority.pan_sharp import PanSharpen

        files, ms, pan, mm, pm, mt, pt = write_scene(d, c)
        exp, grid = reference(c, ms, pan, mm, pm, mt, pt)
        out = d / 'out.tif'
        blk = c['block']
        kw = {}
        if blk == 'cog':
            kw = dict(driver='cog', compress='deflate')
        elif blk == 'default':
            kw = dict(compress='deflate')
        elif blk[0] == 'tiled':
            kw = dict(creation_options=dict(tiled=True, blockxsize=blk[1], blockysize=blk[2], compress='lzw'))
        else:
            kw = dict(creation_options=dict(tiled=False, blockysize=blk[1], compress='deflate'))
        ms_file = files['ms']
        if c['georef'] == 'crs':
            # the same MS image seen through another, equivalent, CRS definition (its WKT / axis swapped name)
            ms_file = recrs(d, files['ms'])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ps = PanSharpen(files['pan'], ms_file)
            if c['order'] == 'after':
                ps.process(str(d / 'first.tif'), pan_index=1, ms_indexes=[1], weights=[1.0], interp='bilinear', dtype='float32',
                           write_mask=True, overwrite=True)
            ps.process(str(out), pan_index=c['pan'][1], ms_indexes=sel_indexes(c), weights=sel_weights(c), interp=c['interp'],
                       dtype=c['dtype'], write_mask=c['write_mask'], build_ovw=False, overwrite=True, **kw)
            with rio.open(out) as ds:
                got, gmask, prof, tr, crs = ds.read(), ds.read_masks() > 0, ds.profile, ds.transform, ds.crs
        tally.add(executions=1, states=1, traces=1, transitions=int(got.size))
        dt = c['dtype'] or c['src']
        if got.dtype != dt:
            raise core.Violation(f'output dtype {got.dtype}, not {dt}', key='dtype')
        if got.shape != exp.shape:
            raise core.Violation(f'output shape {got.shape}, not {exp.shape}', key='shape')
        # georeferencing
        if c['georef'] in ('both', 'noms', 'crs'):
            want, wcrs = rio.Affine(grid[2], 0, grid[0], 0, -grid[3], grid[1]), True
        elif c['georef'] == 'nopan':
            # pan spans the MS bounds
            want, wcrs = rio.Affine(grid[2], 0, grid[0], 0, -grid[3], grid[1]), True
        else:
            want, wcrs = rio.Affine.identity(), False
        if not np.allclose(tuple(tr)[:6], tuple(want)[:6], rtol=0, atol=1e-6):
            raise core.Violation(f'output transform {tuple(tr)[:6]}, not {tuple(want)[:6]}', key='transform')
        if c['georef'] != 'nopan' and (crs is not None) != wcrs:
            raise core.Violation(f'output CRS {crs}', key='crs')
        # expected stored values
        bad = np.isnan(exp[0])
        nod = NODATA[dt]
        if np.issubdtype(np.dtype(dt), np.integer):
            info = np.iinfo(dt)
            lo, hi = np.clip(exp - 0.5001, info.min, info.max), np.clip(exp + 0.5001, info.min, info.max)
            err = ~bad[None] & ((got < np.ceil(lo - 1e-3)) | (got > np.floor(hi + 1e-3)))
        else:
            lo = hi = exp
            tol = 2e-5 if 'float32' in (dt, ) else 1e-8
            with np.errstate(invalid='ignore'):
                err = ~bad[None] & ~(np.abs(got - exp) <= tol * (np.nanmax(np.abs(exp)) + (c['content'] != 'refl')))
            if c['content'] == 'offset':
                err |= ~bad[None] & ~(np.abs(got - exp) <= 2e-5)
        if err.any():
            b, i, j = [int(v[0]) for v in np.where(err)]
            raise core.Violation(f'value {got[b, i, j]} at band {b + 1} pixel ({j}, {i}), expected {exp[b, i, j]:.6f} '
                                 f'({int(err.sum())} of {got.size} wrong)', key='value')
        wm = c['write_mask'] is True
        nodv = 0 if wm else nod
        ok = (got[:, bad] == nodv) | (np.isnan(got[:, bad]) & (nodv != nodv)) if got.dtype.kind == 'f' else got[:, bad] == nodv
        if not np.all(ok):
            raise core.Violation('invalid pixels do not hold the nodata value', key='nodata')
        if wm:
            if (gmask != ~bad[None]).any():
                raise core.Violation('internal mask differs from the validity of pan and MS', key='mask')
        else:
            isn = np.isnan(got) if nod != nod else got == nod
            if (gmask != ~isn).any():
                raise core.Violation('nodata mask inconsistent with values', key='mask')
        tally.outcome(c['bands'], c['weights'], c['content'], c['interp'], dt, bool(bad.any()), got.shape)


def recrs(d, path):
    """Rewrite the MS image with its CRS given in another, equivalent, form."""
    import rasterio as rio

    with rio.open(path, 'r+') as ds:
        ds.crs = rio.CRS.from_proj4('+proj=utm +zone=34 +datum=WGS84 +units=m +no_defs')
    return path


CHECK = C18()
