"""C21: the ortho covers exactly the imaged ground that the DEM covers, for every placement of the DEM."""
from __future__ import annotations

import warnings
from itertools import combinations

import numpy as np

from mc import core, data, scenes

RES = 8.0
N = 44  # DEM rows & columns
CAMS = ['nadir', 'pinhole', 'oblique', 'brown', 'brown-undistorted', 'curved', 'rpc']
SIDES = ['side0', 'side1', 'side2', 'side3']
# resolutions: on the DEM grid (no resampling), finer and coarser than the DEM
GRIDS = {'aligned': (RES, RES), 'fine': (5.0, 6.0), 'coarse': (11.0, 13.0)}
EDGES = {
    'quick': [0, 11, 17, 22, 26, 31, 44],
    'thorough': [0, 9, 13, 16, 19, 22, 25, 29, 34, 44],
}
SURROUNDS = ['low', 'high', 'above-camera', 'nodata', 'sloped', 'spikes', 'cropped']
HOLES = {'quick': [1, 3], 'thorough': [1, 2, 3, 5]}


def dilate(a, n=1):
    for _ in range(n):
        p = np.pad(a, 1)
        a = np.any([p[i:i + a.shape[0], j:j + a.shape[1]] for i in range(3) for j in range(3)], axis=0)
    return a


def erode(a, n=1):
    return ~dilate(~a, n)


def camera_for(name, size):
    if name == 'rpc':
        from orthority.camera import RpcCamera
        from rasterio.warp import transform

        rpc = scenes.make_rpc(size, gsd_deg=(1.3e-4, 7e-5))
        cam = RpcCamera(size, rpc, crs=data.UTM)
        xs, ys = transform('EPSG:4326', data.UTM, [rpc['long_off']], [rpc['lat_off']])
        return cam, (round(xs[0] / RES) * RES, round(ys[0] / RES) * RES)
    opk = dict(nadir=(0.0, 0.0, 0.0), oblique=(0.5, -0.1, 0.7)).get(name, (0.06, -0.04, 0.3))
    xyz = (data.X0, data.Y0, 220.0)
    if name == 'oblique':
        xyz = (data.X0 - 26.0, data.Y0 - 124.0, 190.0)
    if name.startswith('side'):
        # long focal length, looking to one side
        k = int(name[4:])
        opk = [(0.9, 0.0, 0.0), (-0.9, 0.0, 0.0), (0.0, 0.9, 0.0), (0.0, -0.9, 0.0)][k]
        off = [(0, -250.0), (0, 250.0), (250.0, 0), (-250.0, 0)][k]
        return scenes.make_camera('pinhole', size, xyz=(data.X0 + off[0], data.Y0 + off[1], 220.0), opk=opk, focal=3.0), (data.X0, data.Y0)
    if name == 'curved':
        return scenes.make_camera('brown', size, xyz=(data.X0, data.Y0, 185.0), opk=(0.0, 0.0, 0.2), focal=0.5, k1=0.35, k2=0.0,
                                  p1=0.0, p2=0.0, k3=0.0), (data.X0, data.Y0)
    kind = 'brown' if name.startswith('brown') else 'pinhole'
    return scenes.make_camera(kind, size, xyz=xyz, opk=opk, distort=name != 'brown-undistorted'), (data.X0, data.Y0)


class C21(core.Check):
    pid = 'C21'
    rule = (
        'one execution = one orthorectification (construct and process) of one camera with one DEM: every rectangular DEM extent '
        'with edges in the edge set, every nodata hole position and size, every kind of terrain around the footprint, every DEM '
        'band index; validity of every pixel, coverage warning and error are compared with the projection of the DEM cells'
    )
    assumptions = ['cells within two of the footprint or DEM edge are not judged']

    def bounds(self, tier):
        return dict(edges=EDGES[tier], holes=HOLES[tier], hole_step='4-8' if tier == 'quick' else '2-4', cameras=len(CAMS), dem_cells=N)

    def cases(self, tier):
        e = EDGES[tier]
        spans = list(combinations(e, 2))
        out = []
        for cam in CAMS:
            for grid in GRIDS:
                sub = spans if grid == 'aligned' or tier == 'thorough' else list(combinations(e[::2], 2))
                for rows in sub:
                    out.append(dict(part='windows', cam=cam, grid=grid, rows=list(rows), spans=[list(s) for s in sub]))
            for grid in GRIDS:
                for kind in SURROUNDS:
                    out.append(dict(part='surround', cam=cam, grid=grid, kind=kind))
                step = (2 if grid == 'aligned' else 4) * (1 if tier == 'thorough' else 2)
                for r in range(0, N, step):
                    for nod in ('nan', 'value'):
                        if grid == 'aligned' or nod == 'nan':
                            out.append(dict(part='holes', cam=cam, grid=grid, row=r, nod=nod, step=step, sizes=HOLES[tier]))
            out.append(dict(part='bands', cam=cam, grid='aligned'))
            out.append(dict(part='empty', cam=cam, grid='aligned'))
        for cam in CAMS + SIDES:
            out += [dict(part='ramp', cam=cam, grid=grid) for grid in GRIDS]
        out.append(dict(part='edges', cam='nadir', grid='aligned'))
        return out

    def setup(self, scratch, tier):
        self.scene_cache = {}
        self.base = scratch / 'scenes'
        self.base.mkdir()

    def scene(self, cam, grid, scratch):
        key = (cam, grid)
        if key in self.scene_cache:
            return self.scene_cache[key]
        d = self.base / f'{cam}_{grid}'
        d.mkdir(exist_ok=True)
        size = (22, 17)
        src = data.write_image(d / 'src.tif', data.texture(1, size[1], size[0], 'uint8', 20, 250, smooth=True))
        camera, center = camera_for(cam, size)
        z = data.dem_array((N, N), 'hills')
        s = dict(cam=cam, d=d, src=src, camera=camera, center=center, z=z, size=size)
        # cell centre coordinates of the full DEM
        s['x'] = center[0] + (np.arange(N) - N / 2 + 0.5) * RES
        s['y'] = center[1] - (np.arange(N) - N / 2 + 0.5) * RES
        self.scene_cache[key] = s
        s['foot'] = self.footprint(s, z)
        s['full'] = self.ortho(s, z, (0, N), (0, N), grid)
        return s

    def footprint(self, s, z):
        """Cells whose ground point projects into the image."""
        xg, yg = np.meshgrid(s['x'], s['y'])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ji = s['camera'].world_to_pixel(np.array([xg.ravel(), yg.ravel(), z.astype('float64').ravel()]))
        w, h = s['size']
        if getattr(s['camera'], 'distort', True):
            ok = (ji[0] >= 0) & (ji[0] <= w - 1) & (ji[1] >= 0) & (ji[1] <= h - 1)
        else:
            # undistorted image: valid where the pixel comes from inside the source image
            dji = s['camera']._distort_pixel(ji)
            ok = (dji[0] >= 0) & (dji[0] <= w - 1) & (dji[1] >= 0) & (dji[1] <= h - 1)
            ok &= (ji[0] >= 0) & (ji[0] <= w - 1) & (ji[1] >= 0) & (ji[1] <= h - 1)
        return ok.reshape(z.shape)

    def ortho(self, s, z, rows, cols, grid, nodata=float('nan'), band=1, bands=None):
        """Process with the given part of the DEM; returns (error, warnings, pixels, valid, transform)."""
        import rasterio as rio
        from orthority.errors import OrthorityWarning
        from orthority.ortho import Ortho
        from rasterio.transform import from_origin

        sub = z[rows[0]:rows[1], cols[0]:cols[1]][None] if bands is None else bands
        tr = from_origin(s['center'][0] + (cols[0] - N / 2) * RES, s['center'][1] - (rows[0] - N / 2) * RES, RES, RES)
        dem = data.write_image(s['d'] / 'dem.tif', np.ascontiguousarray(sub, dtype='float32'), crs=data.UTM, transform=tr,
                               nodata=nodata)
        out = s['d'] / 'out.tif'
        warns = []
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            try:
                o = Ortho(s['src'], dem, s['camera'], crs=data.UTM, dem_band=band)
                o.process(out, resolution=GRIDS[grid], overwrite=True, compress='deflate', interp='bilinear', build_ovw=False,
                          write_mask=False)
                err = None
            except Exception as ex:
                err = ex
            warns = [str(w.message) for w in rec if issubclass(w.category, OrthorityWarning)]
        if err is not None:
            return dict(err=err, warns=warns)
        with rio.open(out) as ds:
            a = ds.read(1)
            return dict(err=None, warns=warns, pix=a, valid=a != ds.nodata, tr=ds.transform)

    def judge(self, s, r, have, grid, tag, found, tally, foot=None, quiet=True, slack=0):
        """``have``: mask of the full grid cells with valid heights in the DEM given."""
        from orthority.errors import OrthorityError

        def bad(key, text):
            found.setdefault(key, core.Violation(f'{tag}: {text}', key=key))

        foot = s['foot'] if foot is None else foot
        # pixels blurred with the nodata surround of an undistorted image are removed
        soft = not getattr(s['camera'], 'distort', True)
        thin, wide = erode(foot, (5 if soft else 1) + slack), dilate(foot, 2 + slack)
        # resampling the DEM reaches two of its cells
        reach = (0 if grid == 'aligned' else 3) + (5 if soft else 0)
        sure = erode(np.pad(have, 1), reach)[1:-1, 1:-1] if reach else have
        tally.add(states=1, transitions=int(have.size), executions=1)
        if not (wide & have).any():
            if r['err'] is None:
                bad('accepted', f'no error though the DEM has no valid height in the footprint ({int(r["valid"].sum())} valid pixels)')
            elif not isinstance(r['err'], OrthorityError):
                bad('error-type', f'DEM without valid height in the footprint reported as {core._describe(r["err"])}')
            tally.outcome('none', tag[:6])
            return
        if r['err'] is not None:
            if not isinstance(r['err'], OrthorityError):
                bad('error-type', f'raised {core._describe(r["err"])}')
            elif (thin & sure).any():
                bad('rejected', f'raised {core._describe(r["err"])}, though the DEM covers {int((thin & sure).sum())} footprint cells')
            tally.outcome('error', tag[:6])
            return
        warned = any('not fully covered' in w for w in r['warns'])
        gone = erode(np.pad(~have, 4, constant_values=True), reach)[4:-4, 4:-4]
        if (thin & gone).any() and not warned:
            bad('no-warning', f'no coverage warning though {int((thin & gone).sum())} footprint cells are not covered')
        if quiet and not (wide & ~have).any() and warned:
            bad('warning', 'coverage warning though the DEM covers the footprint')
        tally.outcome(warned, tag[:6])
        # map DEM cells to ortho pixels
        if grid == 'aligned':
            off = ~r['tr'] * (s['x'][0] - RES / 2, s['y'][0] + RES / 2)
            if any(abs(o - round(o)) > 1e-6 for o in off) or abs(r['tr'].a - RES) > 1e-9 or abs(r['tr'].e + RES) > 1e-9:
                return bad('grid', f'ortho grid {tuple(r["tr"])[:6]} is not that of the DEM')
        xg, yg = np.meshgrid(s['x'], s['y'])
        jj, ii = ~r['tr'] * (xg, yg)
        jj, ii = np.floor(jj).astype(int), np.floor(ii).astype(int)
        h, w = r['pix'].shape
        inb = (jj >= 0) & (jj < w) & (ii >= 0) & (ii < h)
        got = np.zeros(foot.shape, bool)
        got[inb] = r['valid'][ii[inb], jj[inb]]
        miss = thin & sure & ~got
        if miss.any():
            k = np.argwhere(miss)[0]
            bad('missing', f'{int(miss.sum())} covered footprint cells are nodata or outside the ortho, e.g. row {k[0]}, col {k[1]}')
        # a pixel is valid only over a covered cell of the footprint
        allowed = (wide & have) if grid == 'aligned' else dilate(wide & have, 1)
        pi, pj = np.nonzero(r['valid'])
        px, py = r['tr'] * (pj + 0.5, pi + 0.5)
        cj = np.floor((px - (s['x'][0] - RES / 2)) / RES).astype(int)
        ci = np.floor(((s['y'][0] + RES / 2) - py) / RES).astype(int)
        ok = (cj >= 0) & (cj < N) & (ci >= 0) & (ci < N)
        ok[ok] = allowed[ci[ok], cj[ok]]
        if not ok.all():
            bad('extra', f'{int((~ok).sum())} valid ortho pixels lie off the footprint or the valid DEM')
        # the ortho has no needless nodata border
        if have.all():
            edge = (7 if soft else 3) * (1 if grid == "aligned" else 2)
            for ax in (0, 1):
                k = np.nonzero(r['valid'].any(axis=ax))[0]
                if k.min() > edge or k.max() < r['valid'].shape[1 - ax] - 1 - edge:
                    bad('crop', 'the ortho is not cropped to the footprint')
        if grid == 'aligned':
            f = s['full']
            fj, fi = ~f['tr'] * (xg, yg)
            fj, fi = np.floor(fj).astype(int), np.floor(fi).astype(int)
            cells = got & thin & sure
            a = r['pix'][ii[cells], jj[cells]].astype(int)
            b = f['pix'][fi[cells], fj[cells]].astype(int)
            if cells.any() and np.abs(a - b).max() > 1:
                bad('values', f'{int((np.abs(a - b) > 1).sum())} pixels differ from the ortho made with the full DEM (max {np.abs(a - b).max()})')

    def run_case(self, case, tally, scratch):
        found = {}
        s = self.scene(case['cam'], case['grid'], scratch)
        grid, cam = case['grid'], case['cam']
        tag = f'{cam} {grid}'
        if s['full']['err'] is not None or s['foot'][[0, 1, 2, -3, -2, -1]].any() or s['foot'][:, [0, 1, 2, -3, -2, -1]].any():
            raise core.Violation(f'{tag}: full DEM does not cover the footprint: {s["full"]["err"]}', key='full')
        z = s['z']
        if case['part'] == 'windows':
            rows = case['rows']
            for cols in case['spans']:
                have = np.zeros((N, N), bool)
                have[rows[0]:rows[1], cols[0]:cols[1]] = True
                r = self.ortho(s, z, rows, cols, grid)
                self.judge(s, r, have, grid, f'{tag} DEM rows {rows} cols {cols}', found, tally)
        elif case['part'] == 'surround':
            wide = dilate(s['foot'], 4)
            i, j = np.meshgrid(np.arange(N), np.arange(N), indexing='ij')
            k = case['kind']
            zz = z.copy()
            rows = cols = (0, N)
            if k == 'cropped':
                ii, jj = np.nonzero(wide)
                rows, cols = (max(ii.min(), 0), min(ii.max() + 1, N)), (max(jj.min(), 0), min(jj.max() + 1, N))
            else:
                val = dict(low=-40.0, high=35.0, nodata=np.nan, spikes=np.where((i + j) % 7, 20.0, 34.0), sloped=15 + 0.4 * i)
                val['above-camera'] = 400.0
                zz[~wide] = np.broadcast_to(val[k], z.shape)[~wide]
            if k == 'above-camera' and cam == 'oblique':
                # terrain between camera & footprint would hide the footprint
                return
            r = self.ortho(s, zz, rows, cols, grid)
            have = np.zeros((N, N), bool)
            have[rows[0]:rows[1], cols[0]:cols[1]] = True
            have &= ~np.isnan(zz)
            self.judge(s, r, have, grid, f'{tag} surroundings {k}', found, tally, quiet=grid == 'aligned')
        elif case['part'] == 'holes':
            for size in case['sizes']:
                for c in range(0, N, case['step']):
                    have = np.ones((N, N), bool)
                    have[case['row']:case['row'] + size, c:c + size] = False
                    nod = float('nan') if case['nod'] == 'nan' else -9999.0
                    r = self.ortho(s, np.where(have, z, nod), (0, N), (0, N), grid, nodata=nod)
                    self.judge(s, r, have, grid, f'{tag} {case["nod"]} hole of {size} at row {case["row"]} col {c}', found, tally)
        elif case['part'] == 'bands':
            from orthority.errors import OrthorityError

            flat = np.full_like(z, 20.0)
            for count in (1, 2, 3):
                for band in range(-1, count + 2):
                    stack = np.stack([np.full_like(z, np.nan)] * count)
                    if 1 <= band <= count:
                        stack[band - 1] = z
                    r = self.ortho(s, z, (0, N), (0, N), grid, band=band, bands=stack)
                    t = f'{tag} band {band} of {count}'
                    if 1 <= band <= count:
                        self.judge(s, r, np.ones((N, N), bool), grid, t, found, tally)
                    else:
                        tally.add(executions=1)
                        if r['err'] is None or not isinstance(r['err'], OrthorityError):
                            what = 'accepted' if r['err'] is None else core._describe(r['err'])
                            found.setdefault('band', core.Violation(f'{t}: {what}, an OrthorityError expected', key='band'))
        elif case['part'] == 'ramp':
            # sloping terrain in every direction
            i, j = np.meshgrid((np.arange(N) - N / 2) * RES, (np.arange(N) - N / 2) * RES, indexing='ij')
            for g in (0.12, 0.3):
                for d in range(8):
                    zz = (20 + g * (i * np.cos(d * np.pi / 4) + j * np.sin(d * np.pi / 4))).astype('float32')
                    foot = self.footprint(s, zz)
                    if foot[[0, 1, 2, -3, -2, -1]].any() or foot[:, [0, 1, 2, -3, -2, -1]].any():
                        tally.outcome('skip', cam, d, g)
                        continue
                    r = self.ortho(s, zz, (0, N), (0, N), grid)
                    s2 = dict(s, full=r)
                    self.judge(s2, r, np.ones((N, N), bool), grid, f'{tag} terrain slope {g} towards {d}', found, tally, foot=foot,
                               quiet=grid == 'aligned', slack=int(grid != 'aligned'))
        elif case['part'] == 'edges':
            self.run_edges(s, tag, found, tally)
        else:
            nowhere = np.zeros((N, N), bool)
            for nod in (float('nan'), -9999.0, 0.0):
                r = self.ortho(s, np.full_like(z, nod), (0, N), (0, N), grid, nodata=nod)
                self.judge(s, r, nowhere, grid, f'{tag} DEM all nodata ({nod})', found, tally)
            for n in (2, 3, 5):
                # heights around the image only
                hole = dilate(s['foot'], n)
                r = self.ortho(s, np.where(hole, np.nan, z), (0, N), (0, N), grid)
                self.judge(s, r, ~hole, grid, f'{tag} DEM valid outside the footprint only', found, tally)
            for dr, dc in [(200, 0), (0, 200), (-200, 0), (0, -200), (150, 150), (-150, 150), (5000, 0), (0, -9000)]:
                s2 = dict(s, center=(s['center'][0] + dc * RES, s['center'][1] - dr * RES))
                r = self.ortho(s2, z, (0, N), (0, N), grid)
                self.judge(s, r, nowhere, grid, f'{tag} DEM {dr} rows, {dc} cols away', found, tally)
        core.raise_all(found)

    def run_edges(self, s, tag, found, tally):
        """Level camera & terrain: coverage decided exactly, for DEM edges at every cell about each image edge."""
        w, h = s['size']
        z = np.full((N, N), 20.0, 'float32')
        for dx, dy in [(0.0, 0.0), (2.5, -1.5), (-3.0, 3.0)]:
            xyz = (data.X0 + dx, data.Y0 + dy, 220.0)
            gsd = 200.0 / (1.1 * w)
            s2 = dict(s, camera=scenes.make_camera('pinhole', s['size'], xyz=xyz, opk=(0, 0, 0)))
            # first and last DEM column and row of the image corners
            c0, c1 = [(xyz[0] + k * (w - 1) / 2 * gsd - (s['x'][0] - RES / 2)) / RES for k in (-1, 1)]
            r0, r1 = [((s['y'][0] + RES / 2) - (xyz[1] - k * (h - 1) / 2 * gsd)) / RES for k in (-1, 1)]
            if min(abs(v - round(v)) for v in (c0, c1, r0, r1)) < 0.02:
                raise core.Violation(f'{tag}: ambiguous edge scene', key='scene')
            c0, c1, r0, r1 = (int(np.floor(v)) for v in (c0, c1, r0, r1))
            for side in range(4):
                for d in range(-4, 5):
                    rows, cols = [0, N], [0, N]
                    if side == 0:
                        rows[0] = r0 + d
                    elif side == 1:
                        rows[1] = r1 + 1 + d
                    elif side == 2:
                        cols[0] = c0 + d
                    else:
                        cols[1] = c1 + 1 + d
                    exp = d > 0 if side in (0, 2) else d < 0
                    r = self.ortho(s2, z, rows, cols, 'aligned')
                    tally.add(executions=1, states=1)
                    t = f'{tag} level scene, DEM rows {rows} cols {cols}'
                    if r['err'] is not None:
                        found.setdefault('rejected', core.Violation(f'{t}: {core._describe(r["err"])}', key='rejected'))
                        continue
                    warned = any('not fully covered' in m for m in r['warns'])
                    if warned != exp:
                        found.setdefault('edge-warning', core.Violation(
                            f'{t}: ' + ('no coverage warning, image edge not covered' if exp else 'coverage warning, image covered'),
                            key='edge-warning'))
                    tally.outcome('edge', warned)
                    # ortho bounds: image edge cells or DEM edge
                    got = [round(v) for v in (~from_grid(s) * (r['tr'].c, r['tr'].f))]
                    got += [got[0] + r['pix'].shape[1], got[1] + r['pix'].shape[0]]
                    want = [max(c0, cols[0]), max(r0, rows[0]), min(c1 + 1, cols[1]), min(r1 + 1, rows[1])]
                    if got != want:
                        found.setdefault('edge-bounds', core.Violation(f'{t}: ortho columns & rows {got}, {want} expected', key='edge-bounds'))


def from_grid(s):
    from rasterio.transform import from_origin

    return from_origin(s['x'][0] - RES / 2, s['y'][0] + RES / 2, RES, RES)


CHECK = C21()
