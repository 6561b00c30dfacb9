"""C10: every ortho pixel holds the source image value at the projection of its ground point."""
from __future__ import annotations

import warnings

import numpy as np

from mc import core, data, scenes, space
from mc.ref import cam as rcam

FT = '+proj=utm +zone=34 +datum=WGS84 +vunits=us-ft'
K_FT = 3937.0 / 1200.0
VERT = {  # name: (dem crs, ortho crs)
    'same': ('EPSG:32634', 'EPSG:32634'),
    'geo': ('EPSG:4326', 'EPSG:32634'),
    'zone': ('EPSG:32633', 'EPSG:32634'),
    'same-egm': ('EPSG:32634+5773', 'EPSG:32634+5773'),
    'ell-egm': ('EPSG:4979', 'EPSG:32634+5773'),
    'ell-ft': ('EPSG:4979', FT),
    'egm-ft': ('EPSG:32634+5773', FT),
    'ft-egm': (FT, 'EPSG:32634+5773'),
    'nov-egm': ('EPSG:32634', 'EPSG:32634+5773'),
}

DIMS = dict(
    cam=['pinhole', 'brown', 'opencv', 'fisheye', 'rpc'],
    mode=['distort', 'und1', 'und0', 'und.5'],
    interp=['cubic', 'nearest', 'bilinear', 'average', 'lanczos'],
    dem_interp=['cubic', 'nearest', 'bilinear', 'average', 'lanczos'],
    dtype=['uint16', 'uint8', 'int16', 'float32', 'float64'],
    out_dtype=[None, 'float32', 'uint16'],
    res=['gsd', 'auto', 'coarse', 'fine', 'aniso', 'dem', 'demx', 'demy', 'demyx'],
    crs=list(VERT),
    dem=['plane', 'flat', 'holes', 'part', 'hills', 'int-holes', 'band2'],
    alt=[30.0, 2900.0, -95.0, -400.0],
    opk=['tilt', 'nadir', 'kappa', 'strong'],
    shape=[(44, 34), (31, 47), (40, 40)],
    layout=['tile16', 'default', 'strip', 'cog'],
    mask=[False, True],
    per_band=[False, True],
    src=['plain', 'band3-nodata', 'band12-nodata'],
    crsarg=['str', 'obj', 'wkt', 'from-src', 'over-src'],
)
NODATA = dict(uint8=0, uint16=0, int16=-32768, float32=np.nan, float64=np.nan)  # documented nodata values
OPK = dict(tilt=(0.06, -0.05, 0.3), nadir=(0.0, 0.0, 0.0), kappa=(0.03, 0.04, 2.6), strong=(-0.35, 0.3, -1.2))


def valid(c):
    if c['cam'] in ('pinhole', 'rpc') and c['mode'] != 'distort':
        return False
    if c['cam'] == 'rpc' and (c['opk'] != 'tilt' or c['crs'] not in ('same', 'geo', 'zone')):
        return False
    if c['dem'] == 'hills' and not (c['res'] == 'dem' and c['crs'] in ('same', 'same-egm')):
        return False
    if c['src'] != 'plain' and (c['out_dtype'] or c['per_band']):
        return False  # (per-band processing: known findings of C11)
    if c['crsarg'] in ('from-src', 'wkt') and c['crs'] not in ('same', 'geo', 'zone'):
        return False
    if c['res'] == 'dem' and c['crs'] not in ('same', 'same-egm'):
        return False
    return True


class C10(core.Check):
    pid = 'C10'
    rule = (
        'one execution = one Ortho + process() run on a scene whose source bands encode their own pixel coordinates '
        'and whose DEM is an analytic surface; every output pixel (a state) is decoded and compared with the '
        'independent projection of its ground point; all configurations within the deviation bound are run'
    )
    assumptions = [
        'DEM is an analytic plane wherever it has to be resampled, so that any exact resampling agrees',
        'PROJ (through rasterio) is the reference for CRS transforms',
        'sub-pixel tolerance: 0.05 - 0.11 px plus the quantisation of the data type; 0.55 px with nearest',
    ]

    def bounds(self, tier):
        return dict(deviations=2 if tier == 'quick' else 3, image='<= 47 x 47')

    def cases(self, tier):
        cs = space.deviations(DIMS, 2 if tier == 'quick' else 3, valid=valid)
        # configurations that need two settings to make sense at all get their own neighbourhoods
        for base in (dict(res='dem', dem='hills'), dict(dem='flat', opk='nadir'), dict(cam='brown', mode='und1'), dict(cam='rpc', crs='geo'),
                     dict(src='band3-nodata', mask=True),
                     *(dict(cam='brown', mode='und1', layout='default', res=r) for r in ('gsd', 'aniso', 'fine'))):
            cs += space.deviations(DIMS, 1 if tier == 'quick' else 2, base=base, valid=valid)
        cs = space.unique(cs)
        n = 96 if tier == 'quick' else 1536
        return [dict(group=cs[i::n]) for i in range(n) if cs[i::n]] + [
            dict(reject=r) for r in ('no-crs', 'dem-band 0', 'dem-band 3', 'dem-band -1', 'camera', 'dem-apart')]

    def sample(self, case):
        return case['group'][0] if 'group' in case else case

    def run_case(self, case, tally, scratch):
        if 'reject' in case:
            return self.reject(case['reject'], tally, scratch)
        for c in case['group']:
            self.one(c, tally, scratch)

    def reject(self, what, tally, d):
        """Arguments that do not make sense raise the documented kind of error before anything is written."""
        from orthority import errors
        from orthority.camera import create_camera
        from orthority.ortho import Ortho
        from rasterio.transform import from_origin

        sp = data.write_image(d / 'src.tif', data.texture(1, 20, 24, 'uint8'))
        x = data.X0 + (9000.0 if what == 'dem-apart' else 0.0)
        dp = data.write_image(d / 'dem.tif', np.zeros((2, 20, 20), 'float32'), crs='EPSG:32634',
                              transform=from_origin(x - 200, data.Y0 + 200, 20, 20))
        cam = create_camera('pinhole', (24, 20), 1.0, xyz=(data.X0, data.Y0, 150.0), opk=(0.0, 0.0, 0.0))
        band = int(what.split()[1]) if what.startswith('dem-band') else 2
        want = {'no-crs': errors.CrsMissingError, 'camera': TypeError}.get(what, errors.OrthorityError)
        tally.add(states=1, executions=1, traces=1)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                Ortho(sp, dp, 'camera' if what == 'camera' else cam, crs=None if what == 'no-crs' else 'EPSG:32634',
                      dem_band=band).process(str(d / 'o.tif'))
        except want as ex:
            tally.outcome(what, type(ex).__name__)
            if (d / 'o.tif').exists():
                raise core.Violation(f'{what}: rejected, but an output file is left', key='reject')
            return
        except Exception as ex:
            raise core.Violation(f'{what}: raised {type(ex).__name__}: {ex}', key='reject')
        raise core.Violation(f'{what}: accepted', key='reject')

    def one(self, c, tally, d):
        import rasterio as rio
        from orthority.camera import RpcCamera
        from orthority.ortho import Ortho
        from rasterio.transform import from_origin
        from rasterio.warp import transform

        def bad(what, detail=None):
            raise core.Violation(what, key=what, detail=dict(config=c, got=detail))

        dem_crs, crs = VERT[c['crs']]
        zk = K_FT if crs == FT else 1.0
        w, h = c['shape']
        # ------------------------------------------------ source image: band 1 = column, 2 = row, 3 = both
        dt = np.dtype(c['dtype'])
        gain, off = (4.0, 20.0) if dt == 'uint8' else (25.0, 100.0) if dt.kind in 'iu' else (1.0, 10.0)
        jj, ii = np.meshgrid(np.arange(w), np.arange(h))
        src = np.array([jj * gain + off, ii * gain + off, (jj + ii) * gain / 2 + off]).astype(dt)
        # bands that hold the nodata value of the ortho everywhere: the other band(s) keep the pixel valid
        empty = {'plain': (), 'band3-nodata': (2,), 'band12-nodata': (0, 1)}[c['src']]
        for b in empty:
            src[b] = NODATA[c['dtype']]
        geo = {'from-src': VERT[c['crs']][1], 'over-src': 'EPSG:32650'}.get(c['crsarg'])
        geo = dict(crs=geo, transform=from_origin(0, 0, 1, 1)) if geo else {}
        sp = data.write_image(d / 'src.tif', src, **geo)

        # ------------------------------------------------ camera
        x0, y0, zc = data.X0, data.Y0, c['alt']
        hgt = 400.0
        focal = 2.2
        gsd = hgt / (focal * max(w, h))
        rpc = None
        if c['cam'] == 'rpc':
            rpc = scenes.make_rpc((w, h), lon=21.0, lat=55.94, gsd_deg=(gsd / 62400.0, gsd / 111300.0), h_off=zc)
            (x0,), (y0,) = transform('EPSG:4326', 'EPSG:32634', [21.0], [55.94])
            camera = RpcCamera((w, h), dict(rpc), crs=crs)

            def project(xyz):
                return rcam.rpc_project(rpc, *np.array(transform(crs, 'EPSG:4979', *xyz)))
        else:
            from orthority.camera import create_camera

            opk = OPK[c['opk']]
            R = rcam.rot_opk(*opk)
            fwd = -R[:, 2]
            # place the camera so that it looks at (x0, y0, zc)
            pos = np.array([x0, y0, zc]) - fwd * (hgt / -fwd[2])
            pos[2] *= zk
            sensor = (36.0 * w / max(w, h), 36.0 * h / max(w, h))
            kw = {} if c['cam'] == 'pinhole' else dict(
                distort=c['mode'] == 'distort',
                alpha={'distort': 1.0, 'und1': 1.0, 'und0': 0.0, 'und.5': 0.5}[c['mode']])
            if zk != 1.0:
                # ground metres and vertical feet: scale the vertical axis out by working in a frame where the
                # camera model's own (x, y, z) units are mixed, as the user supplies them
                focal = focal * zk
            coef = scenes.INT[c['cam']]
            camera = create_camera(c['cam'], (w, h), focal * 36.0, sensor_size=sensor, xyz=tuple(pos), opk=opk,
                                   **coef, **kw)
            ref = rcam.Frame(c['cam'], (w, h), focal * 36.0, sensor, xyz=tuple(pos), opk=opk, **coef)
            project = ref.project

        # ------------------------------------------------ DEM
        ext = 1.6 if c['opk'] == 'strong' or zk != 1 else 1.0
        half = np.array([200.0, 190.0]) * ext
        dres = (10.0, 12.5) if not c['res'].startswith('dem') else (gsd * 1.7, gsd * 1.3)
        slope = (0.0, 0.0) if c['dem'] == 'flat' else (0.22, -0.15)
        (cx,), (cy,) = transform(crs, dem_crs, [x0], [y0])
        geo = dem_crs in ('EPSG:4326', 'EPSG:4979')
        ux, uy = (62400.0, 111300.0) if geo else (1.0, 1.0)  # metres per DEM horizontal unit
        if c['dem'] == 'part':
            half = np.array([60.0, 190.0]) * ext
            cx = cx + 40.0 / ux
        nx, ny = int(2 * half[0] / dres[0]), int(2 * half[1] / dres[1])
        tr = from_origin(cx - nx / 2 * dres[0] / ux, cy + ny / 2 * dres[1] / uy, dres[0] / ux, dres[1] / uy)
        gj, gi = np.meshgrid(np.arange(nx) + 0.5, np.arange(ny) + 0.5)
        gx, gy = tr * (gj, gi)

        def surf(x, y):
            z = zc + slope[0] * (x - cx) * ux + slope[1] * (y - cy) * uy
            if c['dem'] == 'hills':
                z = z + 6.0 * np.sin((x - cx) / 23.0) * np.cos((y - cy) / 31.0)
            return z

        z = surf(gx, gy)
        # the DEM is in its own vertical datum: bring the heights around zc there
        (_,), (_,), (dz0,) = transform(crs, dem_crs, [x0], [y0], [zc * zk])
        dz = dz0 - zc
        z = z + dz
        hole = np.zeros(z.shape, bool)
        nod, ddt = float('nan'), 'float32'
        if c['dem'] in ('holes', 'int-holes'):
            hole = (np.abs(gx - cx) * ux < 24) & (np.abs(gy - cy) * uy < 26)
            if c['dem'] == 'int-holes':
                nod, ddt = -32768, 'int16'
                z = np.round(z)
            z = np.where(hole, nod, z)
        arr = z[None] if c['dem'] != 'band2' else np.array([z * 0 - 500.0, z])
        dp = data.write_image(d / 'dem.tif', arr.astype(ddt), crs=dem_crs, transform=tr, nodata=nod)

        # ------------------------------------------------ run
        res = dict(gsd=(gsd * 0.97, gsd * 0.97), auto=None, coarse=(gsd * 2.3, gsd * 2.3), fine=(gsd / 2.2, gsd / 2.2),
                   aniso=(gsd * 0.6, gsd * 1.3), dem=dres, demx=(dres[0], gsd * 0.9), demy=(gsd * 0.9, dres[1]), demyx=dres[::-1])[c['res']]
        kw = dict(resolution=res, interp=c['interp'], dem_interp=c['dem_interp'], write_mask=c['mask'],
                  per_band=c['per_band'], dtype=c['out_dtype'], build_ovw=False, compress='deflate')
        if c['layout'] == 'tile16':
            kw['creation_options'] = dict(tiled=True, blockxsize=16, blockysize=16)
        elif c['layout'] == 'strip':
            kw['creation_options'] = dict(tiled=False, blockysize=3)
        elif c['layout'] == 'cog':
            kw['driver'] = 'cog'
        out = d / 'ortho.tif'
        for f in d.glob('ortho.tif*'):
            f.unlink()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            crs_arg = {'obj': lambda: rio.CRS.from_string(crs), 'wkt': lambda: rio.CRS.from_string(crs).to_wkt(),
                       'from-src': lambda: None}.get(c['crsarg'], lambda: crs)()
            Ortho(sp, dp, camera, crs=crs_arg, dem_band=2 if c['dem'] == 'band2' else 1).process(str(out), **kw)
            with rio.open(out) as ds:
                arr = ds.read().astype('float64')
                msk = ds.dataset_mask() > 0
                otr = ds.transform
                nodata = ds.nodata
                if crs != FT and ds.crs != rio.CRS.from_string(crs):
                    bad('CRS of the ortho', str(ds.crs))
        # ------------------------------------------------ oracle
        if res is not None and not np.allclose((otr.a, -otr.e), res, rtol=1e-9):
            bad('resolution', (otr.a, otr.e))
        oh, ow = msk.shape
        pad = 6
        pj, pi = np.meshgrid(np.arange(-pad, ow + pad) + 0.5, np.arange(-pad, oh + pad) + 0.5)
        px, py = otr * (pj, pi)
        shp = px.shape
        X, Y = px.ravel(), py.ravel()
        dx, dy = np.array(transform(crs, dem_crs, X, Y)) if crs != dem_crs else (X, Y)
        dj, di = ~tr * (dx, dy)  # DEM cell coordinates, integer + 0.5 = centre
        zd = surf(dx, dy) + dz
        if crs != dem_crs:
            zz = np.array(transform(dem_crs, crs, dx, dy, zd))[2]
        else:
            zz = zd
        ji = project(np.array([X, Y, zz])).reshape(2, *shp)
        # valid DEM support: all cells within r of the point exist and are valid; no support: none are
        fl = np.zeros((ny + 2, nx + 2), bool)
        fl[1:-1, 1:-1] = ~hole
        exact = c['res'] == 'dem'
        r = 0 if exact else 3

        def at(a, b):
            return fl[np.clip(a + 1, 0, ny + 1), np.clip(b + 1, 0, nx + 1)]

        bi, bj = np.floor(di).astype(int), np.floor(dj).astype(int)
        full = np.ones(X.shape, bool)
        any_ = np.zeros(X.shape, bool)
        for a in range(-r, r + 1):
            for b in range(-r, r + 1):
                v = at(bi + a, bj + b)
                full &= v
                any_ |= v
        full, any_ = full.reshape(shp), any_.reshape(shp)

        # tolerance
        q = 0.5 / gain if dt.kind in 'iu' or c['out_dtype'] == 'uint16' else 0.0
        if c['out_dtype'] == 'uint16' and dt.kind == 'f':
            q = 1.0  # undistorted / encoded values are truncated or rounded to whole pixels
        tol = 0.05 + q
        if c['interp'] == 'cubic':
            tol += 0.06  # OpenCV's cubic kernel (a = -0.75) does not reproduce linear functions exactly
        if c['interp'] == 'nearest':
            tol += 0.5
        if c['interp'] == 'lanczos':
            tol += 0.06
        if c['dem_interp'] in ('nearest', 'average') and not exact and c['dem'] != 'flat':
            tol += (0.5 * (dres[0] * abs(slope[0]) + dres[1] * abs(slope[1]))) / gsd * 0.75
        if c['dem'] == 'int-holes':
            tol += 0.15
        if c['dem'] in ('holes', 'int-holes') and not exact:
            tol += 0.0
        und = c['mode'] != 'distort'
        if und:
            tol += 0.15 + (0.5 if c['interp'] == 'nearest' else 0.0)
        if c['crs'] in ('ell-ft', 'egm-ft', 'ft-egm', 'zone', 'geo', 'ell-egm'):
            tol += 0.04
        rx, ry = otr.a / gsd, -otr.e / gsd
        # the ortho polygon is rounded to whole ortho pixels; without rotation and relief that loses nothing
        straight = c['dem'] == 'flat' and c['opk'] == 'nadir' and c['cam'] == 'pinhole' and zk == 1
        margin = 0.05 + (0.02 if straight else 0.55 if c['dem'] == 'flat' else 0.9) * max(rx, ry)
        if zk != 1:
            margin += 0.5
        inside_ji = ji
        if und:
            margin += 1.0 + max(max(np.ceil(5 / r_), 3) * r_ for r_ in (rx, ry)) / 2
            inside_ji = camera.world_to_pixel(np.array([X, Y, zz])).reshape(2, *shp)
        lim = np.array([w - 1, h - 1]).reshape(2, 1, 1)

        def inside(c_, m):
            return np.all((c_ >= m) & (c_ <= lim - m), axis=0)

        must = inside(ji, margin) & inside(inside_ji, margin) & full
        must_not = ~inside(ji, -1.0 - tol) | ~any_
        V = np.zeros(shp, bool)
        V[pad:-pad, pad:-pad] = msk
        if not must.any() and c['dem'] not in ('part', 'holes', 'int-holes'):
            raise RuntimeError('harness: empty scene ' + str(c))
        miss = must & ~V
        if miss.any():
            k = np.argwhere(miss)[0]
            inb = pad <= k[0] < oh + pad and pad <= k[1] < ow + pad
            bad('imaged ground is missing from the ortho' if inb else 'ortho bounds do not cover the image footprint',
                dict(n=int(miss.sum()), of=int(must.sum()), pixel=(k - pad).tolist(), ji=ji[:, k[0], k[1]].tolist()))
        extra = must_not & V
        if extra.any():
            k = np.argwhere(extra)[0]
            bad('ortho pixel is valid where there is no source image or DEM',
                dict(n=int(extra.sum()), pixel=(k - pad).tolist(), ji=ji[:, k[0], k[1]].tolist()))
        core_ = V & inside(ji, margin if und else 1.0 + (3.0 if c['interp'] == 'lanczos' else 0.0)) & full
        if not exact and c['dem'] in ('holes', 'int-holes', 'part'):
            pass
        C = core_[pad:-pad, pad:-pad]
        J = ji[:, pad:-pad, pad:-pad]
        dec = (arr - off) / gain
        for b, e in ((0, J[0]), (1, J[1]), (2, (J[0] + J[1]) / 2)):
            if b in empty:
                if not (np.isnan(arr[b]).all() if NODATA[c['dtype']] != NODATA[c['dtype']] else (arr[b] == NODATA[c['dtype']]).all()):
                    bad('a band of nodata values is changed', b + 1)
                continue
            err = np.abs(dec[b] - e)[C]
            if err.size and not err.max() <= tol:
                k = np.argwhere(C)[int(err.argmax())]
                bad('ortho pixel does not hold the source value at its projection',
                    dict(band=b + 1, pixel=k.tolist(), got=float(dec[b][tuple(k)]), expected=float(e[tuple(k)]),
                         err=float(err.max()), tol=tol))
        # border pixels stay within a pixel of the (clipped) projection
        B = V[pad:-pad, pad:-pad] & ~C & any_[pad:-pad, pad:-pad] & full[pad:-pad, pad:-pad]
        # (an undistorted image is surrounded by nodata, which no valid pixel may be blurred with - see the known findings of
        # C11 for what happens at tile edges and with per-band processing)
        if not und or (c['layout'] in ('default', 'cog') and not c['per_band']):
            for b in {0, 1}.difference(empty):
                err = np.abs(dec[b] - np.clip(J[b], 0, (w, h)[b] - 1))[B]
                btol = tol + 1.0 + (2.5 if c['interp'] == 'lanczos' else 0.0)
                if err.size and not err.max() <= btol:
                    bad('ortho border pixel does not hold a nearby source value', [b + 1, float(err.max()), btol])
        if nodata is not None:
            nd = np.isnan(arr) if np.isnan(nodata) else arr == nodata
            if not np.array_equal(~nd.all(axis=0), msk):
                bad('validity does not follow the nodata value')
        # natural resolution gives about as many ortho pixels as source pixels
        if c['res'] == 'auto' and c['dem'] in ('plane', 'flat', 'band2') and c['mode'] == 'distort':
            ratio = msk.sum() / (w * h)
            if not 0.8 < ratio < 1.15:
                bad('automatic resolution', float(ratio))
        tally.add(states=int(ow * oh), transitions=int(C.sum()), executions=1, traces=1)
        tally.outcome(ow, oh, int(msk.sum()), arr[:, C].sum().tobytes())


CHECK = C10()
