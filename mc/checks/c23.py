"""C23: boundary polygons follow the image edge and meet the ground where the edge rays do."""
from __future__ import annotations

import warnings

import numpy as np

from mc import core, data, scenes
from mc.ref import cam as refcam

SIZES = [(22, 17), (15, 24), (31, 8), (2, 2), (7, 7)]
POSES = {
    'nadir': ((data.X0, data.Y0, 220.0), (0.0, 0.0, 0.0)),
    'tilted': ((data.X0, data.Y0, 220.0), (0.06, -0.04, 0.3)),
    'oblique': ((data.X0 + 30, data.Y0 - 60, 180.0), (0.55, -0.2, 1.9)),
}
KINDS = ['pinhole', 'brown', 'opencv', 'fisheye', 'brown-und', 'opencv-und', 'fisheye-und', 'fisheye-und0', 'brown-und0', 'rpc']
SURFACES = ['flat', 'plane', 'hills', 'ridge', 'step', 'spike', 'canyon', 'holes', 'small', 'corner', 'above', 'tower']
INTERPS = ['nearest', 'bilinear', 'cubic', 'lanczos']


def boundary_pixels(size):
    w, h = size[0] - 1, size[1] - 1
    return np.array([[0, 0], [w / 2, 0], [w, 0], [w, h / 2], [w, h], [w / 2, h], [0, h], [0, h / 2]]).T


def build(kind, size, pose):
    if kind == 'rpc':
        from orthority.camera import RpcCamera
        from rasterio.warp import transform

        rpc = scenes.make_rpc(size, gsd_deg=(1.3e-4, 7e-5))
        xs, ys = transform('EPSG:4326', data.UTM, [rpc['long_off']], [rpc['lat_off']])
        return RpcCamera(size, rpc, crs=data.UTM), (xs[0], ys[0])
    xyz, opk = POSES[pose]
    base, _, und = kind.partition('-')
    kw = dict(distort=not und)
    if und.endswith('0'):
        kw['alpha'] = 0.0
    elif und:
        kw['alpha'] = 1.0
    cam = scenes.make_camera(base, size, xyz=xyz, opk=opk, **kw)
    c = cam.pixel_to_world_z(np.array([[(size[0] - 1) / 2], [(size[1] - 1) / 2]]), 20.0)
    return cam, (c[0, 0], c[1, 0])


def surface(kind, center, res):
    """Returns (z, transform)."""
    from rasterio.transform import from_origin

    rx, ry = res
    n, m = int(560 / rx) + 1, int(560 / ry) + 1
    i, j = np.meshgrid(np.arange(m), np.arange(n), indexing='ij')
    u, v = (j - n / 2) * rx, (i - m / 2) * ry  # metres from the centre
    hills = 20 + 8 * (np.sin(u / 45) * np.cos(v / 38) + 0.4 * np.sin(v / 60 + 1))
    z = dict(
        flat=np.full((m, n), 20.0), plane=20 + 0.04 * u - 0.03 * v, hills=hills, ridge=20 + 60 * np.exp(-(u / 40) ** 2),
        step=np.where(u > 40, 45.0, 15.0), spike=20 + 70 * np.exp(-(u**2 + v**2) / 40**2),
        canyon=20 - 60 * np.exp(-(v / 45) ** 2),
    ).get(kind, hills).astype('float32')
    tr = from_origin(center[0] - n * rx / 2, center[1] + m * ry / 2, rx, ry)
    if kind == 'holes':
        z[(u > 30) & (v < -20)] = np.nan
    elif kind == 'small':
        k, p = n // 4, m // 4
        z = z[p:2 * p + p // 2, k:3 * k]
        tr = tr * tr.translation(k, p)
    elif kind == 'corner':
        z = z[: m // 2, : n // 2]
    elif kind == 'above':
        z[:, j[0] > n - 3] = 600.0  # a wall above the camera, beyond the footprint of the image centre
    elif kind == 'tower':
        # a few cells of nearly level ground, and apart from it, a much higher and a lower cell: rays are much longer than the surface
        z = (20 + 0.02 * u + 0.01 * v).astype('float32')[m // 2 - 3:m // 2 + 4, n // 2 - 4:n // 2 + 6]
        z[:, 8] = z[:, 9] = np.nan
        z[0, 9], z[6, 9] = 165.0, -10.0
        tr = tr * tr.translation(n // 2 - 4, m // 2 - 3)
    return np.ascontiguousarray(z), tr


def sample(z, tr, x, y, interp):
    """Reference surface value; NaN off the cell centres' hull or next to NaN."""
    jj, ii = ~tr * (x, y)
    jj, ii = np.asarray(jj) - 0.5, np.asarray(ii) - 0.5
    out = np.full(jj.shape, np.nan)
    h, w = z.shape
    ok = (jj >= 0) & (jj <= w - 1) & (ii >= 0) & (ii <= h - 1)
    j, i = jj[ok], ii[ok]
    if interp == 'nearest':
        out[ok] = z[np.round(i).astype(int), np.round(j).astype(int)]
    else:
        j0, i0 = np.minimum(np.floor(j).astype(int), w - 2), np.minimum(np.floor(i).astype(int), h - 2)
        a, b = j - j0, i - i0
        out[ok] = (z[i0, j0] * (1 - a) * (1 - b) + z[i0, j0 + 1] * a * (1 - b) + z[i0 + 1, j0] * (1 - a) * b
                   + z[i0 + 1, j0 + 1] * a * b)
    return out


class C23(core.Check):
    pid = 'C23'
    rule = (
        'one execution = one boundary query (pixel or world, scalar height or surface) of one camera, image size, pose, surface, '
        'resolution, interpolation and point count; every returned point is compared with the reference ray'
    )
    assumptions = ['surfaces are smooth at the scale of the ray step, except at isolated steps']

    def bounds(self, tier):
        return dict(sizes=SIZES, kinds=KINDS, surfaces=SURFACES, num_pts='None, 4-60 (quick) / 4-400')

    def cases(self, tier):
        out = []
        q = tier == 'quick'
        for kind in KINDS:
            for size in SIZES:
                out.append(dict(part='pixel', kind=kind, size=size, top=60 if q else 400))
                for pose in POSES if kind != 'rpc' else ['nadir']:
                    out.append(dict(part='scalar', kind=kind, size=size, pose=pose))
            for size in SIZES[:2] if q else SIZES[:3]:
                for pose in POSES if kind != 'rpc' else ['nadir']:
                    for surf in SURFACES:
                        for res in ((7, 7), (15, 15), (25, 6), (6, 25)) if q else ((4, 4), (7, 7), (15, 15), (29, 29), (25, 6), (6, 25)):
                            out.append(dict(part='surface', kind=kind, size=size, pose=pose, surf=surf, res=res, pts=[None, 26, 5] if q else
                                            [None, 26, 5, 9, 16, 60, 100]))
            out.append(dict(part='errors', kind=kind))
            if kind != 'rpc':
                out.append(dict(part='horizon', kind=kind, step=10 if q else 3))
        return out

    def run_case(self, case, tally, scratch):
        found = {}
        np.seterr(all='ignore')

        def bad(key, text):
            found.setdefault(key, core.Violation(f'{core.jdump({k: v for k, v in case.items() if k != "pts"})}: {text}', key=key))

        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            getattr(self, 'run_' + case['part'])(case, tally, bad)
        core.raise_all(found)

    # ------------------------------------------------------------------------------------------------
    def expected_pixels(self, cam, rect):
        """Rectangle points as seen in the image the camera works with."""
        if getattr(cam, 'distort', True):
            return rect
        # through the world: distorted pixel -> ray -> undistorted pixel, kept inside the image
        cam.distort = True
        p = cam.pixel_to_world_z(rect, 20.0)
        cam.distort = False
        return np.clip(cam.world_to_pixel(p).T, 0, np.array(cam.im_size) - 1).T

    def run_pixel(self, case, tally, bad):
        size = tuple(case['size'])
        cam, _ = build(case['kind'], size, 'tilted')
        for num in [None, *range(4, case['top'] + 1)]:
            tally.add(executions=1, states=1)
            ji = cam.pixel_boundary() if num is None else cam.pixel_boundary(num_pts=num)
            if ji.ndim != 2 or ji.shape[0] != 2:
                bad('shape', f'num_pts {num}: shape {ji.shape}')
                continue
            tally.outcome(ji.shape)
            w, h = size[0] - 1, size[1] - 1
            per = 2 * (w + h)
            if num is None:
                exp = self.expected_pixels(cam, boundary_pixels(size))
                if ji.shape != exp.shape or np.abs(ji - exp).max() > 2e-3:
                    bad('eight', f'eight point boundary is {ji.round(3).T.tolist()}, {exp.round(3).T.tolist()} expected')
                continue
            n = ji.shape[1]
            if abs(n - num) > 2:
                bad('count', f'{n} points returned for {num}')
            # rectangle positions that the points should have, in order, every side started at its corner
            cnr = [0, w, w + h, 2 * w + h]
            if getattr(cam, 'distort', True):
                inside = (ji[0] >= -1e-9) & (ji[0] <= w + 1e-9) & (ji[1] >= -1e-9) & (ji[1] <= h + 1e-9)
                edge = np.isclose(ji[0], 0) | np.isclose(ji[0], w) | np.isclose(ji[1], 0) | np.isclose(ji[1], h)
                if not (inside & edge).all():
                    bad('edge', f'num_pts {num}: points off the image boundary')
                    continue
                t = np.where(np.isclose(ji[1], 0), ji[0], np.nan)
                t = np.where(np.isclose(ji[0], w) & np.isnan(t), w + ji[1], t)
                t = np.where(np.isclose(ji[1], h) & np.isnan(t), w + h + (w - ji[0]), t)
                t = np.where(np.isnan(t), 2 * w + h + (h - ji[1]), t)
                if not (np.diff(t) > 0).all():
                    bad('order', f'num_pts {num}: points do not follow the boundary once around')
                gaps = np.diff(np.append(t, t[0] + per))
                if gaps.max() > 1.6 * per / num + 1e-9 and num >= 12 and min(w, h) * num / per > 1:
                    bad('spacing', f'num_pts {num}: largest gap {gaps.max():.2f} of a {per} boundary')
                if min(w, h) * num / per > 1:
                    miss = [c for c in cnr if not np.isclose(t, c).any()]
                    if miss:
                        bad('corners', f'num_pts {num}: boundary without the image corner(s) at {miss}')
            else:
                lo, hi = ji.min(), (ji.max(axis=1) - np.array([w, h])).max()
                if lo < -1e-6 or hi > 1e-6:
                    bad('edge', f'num_pts {num}: points off the undistorted image')
                cam.distort = True
                rect = cam.pixel_boundary(num_pts=num)
                cam.distort = False
                exp = self.expected_pixels(cam, rect)
                if exp.shape != ji.shape or np.abs(exp - ji).max() > 2e-3:
                    bad('undistorted', f'num_pts {num}: points are not on the boundary of the undistorted image')

    # ------------------------------------------------------------------------------------------------
    def run_scalar(self, case, tally, bad):
        cam, _ = build(case['kind'], tuple(case['size']), case['pose'])
        pos_z = getattr(cam, 'pos', (0, 0, np.inf))[2]
        for num in (None, 4, 9, 30):
            ji = cam.pixel_boundary(num_pts=num)
            for z in (0, 20.0, np.float32(33.5), np.int64(7), -450.0, 179.0, np.float64(100), 219.9, 260.0, 9000.0):
                for clip in (None, True, False):
                    kw = {} if clip is None else dict(clip=clip)
                    tally.add(executions=1, states=1)
                    xyz = cam.world_boundary(z, num_pts=num, **kw)
                    zz = float(z)
                    if clip is not False:
                        zz = min(zz, pos_z)
                    tag = f'z {z!r}, num_pts {num}, clip {clip}'
                    if xyz.shape != (3, ji.shape[1]):
                        bad('shape', f'{tag}: shape {xyz.shape}')
                        continue
                    if np.abs(xyz[2] - zz).max() > 1e-5:
                        bad('height', f'{tag}: points at heights {sorted(set(xyz[2].round(3)))[:3]}, {zz} expected')
                        continue
                    tally.outcome(case['kind'], num, zz)
                    if zz < pos_z - 0.05:
                        back = cam.world_to_pixel(xyz)
                        tol = 0.11 if case['kind'] == 'rpc' else 5e-3
                        if not np.abs(back - ji).max() < tol:
                            bad('rays', f'{tag}: points project {np.abs(back - ji).max():.3f} pixel from the image boundary')
                    elif zz == pos_z:
                        if np.abs(xyz - np.array(cam.pos).reshape(3, 1)).max() > 1e-6:
                            bad('clip', f'{tag}: points clipped to the camera height are not at the camera')

    # ------------------------------------------------------------------------------------------------
    def run_surface(self, case, tally, bad):
        from orthority.enums import Interp

        cam, center = build(case['kind'], tuple(case['size']), case['pose'])
        if case['surf'] == 'tower':
            center = cam.pixel_to_world_z(cam.pixel_boundary()[:, [0]], 20.0)[:2, 0]
        z0, tr = surface(case['surf'], center, case['res'])
        pos_z = getattr(cam, 'pos', (0, 0, np.inf))[2]
        rpc = case['kind'] == 'rpc'
        min_z, max_z = float(np.nanmin(z0)), min(float(np.nanmax(z0)), pos_z)
        for num in case['pts']:
            ji = cam.pixel_boundary(num_pts=num)
            # reference rays: dense heights, from the highest to the lowest terrain
            dense = np.linspace(max_z, min_z, 600)
            refs = {}
            rays = np.stack([cam.pixel_to_world_z(ji[:, [k]], dense) for k in range(ji.shape[1])])
            for interp in INTERPS:
                for form in ('str', 'enum', 'float64') if num is None else ('str',):
                    z = z0.astype('float64') if form == 'float64' else z0.copy()
                    keep = z.copy()
                    tally.add(executions=1, states=1, transitions=ji.shape[1])
                    try:
                        got = cam.world_boundary(z, num_pts=num, transform=tr, interp=Interp[interp] if form == 'enum' else interp)
                    except Exception as ex:
                        bad('raised', f'{interp} {form} num_pts {num}: raised {core._describe(ex)}')
                        continue
                    if not np.array_equal(z, keep, equal_nan=True):
                        bad('modified', 'the surface array passed was modified')
                    self.judge_surface(case, cam, ji, z0, tr, interp, got, rays, dense, min_z, max_z, bad,
                                       f'{interp} {form} num_pts {num}', tally, refs, rpc)

    def judge_surface(self, case, cam, ji, z, tr, interp, got, rays, dense, min_z, max_z, bad, tag, tally, refs, rpc):
        if got.shape != (3, ji.shape[1]):
            return bad('shape', f'{tag}: shape {got.shape}')
        # on the rays
        on = cam.pixel_to_world_z(ji, got[2])
        if not np.abs(on - got).max() < (0.2 if rpc else 1e-3):
            return bad('rays', f'{tag}: points lie {np.abs(on - got).max():.3f} m off the image boundary rays')
        if got[2].min() < min_z - 1e-3 or got[2].max() > max_z + 1e-3:
            return bad('range', f'{tag}: heights {got[2].min():.2f} to {got[2].max():.2f} outside {min_z:.2f} to {max_z:.2f}')
        loose = dict(nearest=0.0, bilinear=0.0, cubic=1.5, lanczos=1.5)[interp]
        if case['surf'] in ('flat', 'plane'):
            loose = min(loose, 0.7)
        if interp in ('cubic', 'lanczos') and case['surf'] == 'above':
            return tally.outcome('ringing')
        if interp in ('cubic', 'lanczos') and case['surf'] in ('step', 'holes', 'above', 'small', 'corner'):
            loose = 6.0
        # OpenCV rounds sample positions to 1/32 cell; cubic kernels differ from linear with the relief between cells
        grad = float(np.nanmax([np.nanmax(np.abs(np.diff(z, axis=0))), np.nanmax(np.abs(np.diff(z, axis=1)))]))
        eps = 0.35 + grad / 16
        if interp in ('cubic', 'lanczos'):
            loose += 0.15 * grad
        for k in range(ji.shape[1]):
            ray = rays[k]
            key = (k, interp == 'nearest')
            if key not in refs:
                refs[key] = sample(z, tr, ray[0], ray[1], 'nearest' if interp == 'nearest' else 'bilinear')
            surf = refs[key]
            # terrain is undefined for part of the ray: only points clear of it are judged
            nan = np.isnan(surf)
            hit = np.nonzero(ray[2] <= surf)[0]
            gz = got[2, k]
            if nan.all():
                j0, i0 = ~tr * (ray[0], ray[1])
                off = ((j0 < -0.5) | (j0 > z.shape[1] + 0.5) | (i0 < -0.5) | (i0 > z.shape[0] + 0.5)).all()
                if off and abs(gz - min_z) > 1e-3:
                    return bad('outside', f'{tag}: point {k} off the surface is at {gz:.2f}, the minimum {min_z:.2f} expected')
                tally.outcome('off')
                continue
            span = max(abs(ray[0, 0] - ray[0, -1]) / tr.a, abs(ray[1, 0] - ray[1, -1]) / -tr.e)
            step = (max_z - min_z) / max(np.ceil(span), 1)  # height difference of one ray step
            below = np.interp(gz, dense[::-1], np.nan_to_num(surf, nan=1e9)[::-1])
            # a returned point above the minimum is at or under the surface
            if gz > min_z + 1e-3 and below < 1e8 and gz > below + loose + eps + (step if interp == 'nearest' else 0):
                return bad('above', f'{tag}: point {k} at {gz:.2f} is above the surface ({below:.2f})')
            if nan.any() and len(hit) == 0:
                continue
            if len(hit) == 0:
                continue
            first = ray[2, hit[0]]
            if nan[max(hit[0] - 1, 0)] or (nan[: hit[0]].any() and interp != 'nearest'):
                continue
            # narrow crossings may fall between two steps
            run = hit[0]
            while run < len(surf) and (ray[2, run] <= surf[run] - loose):
                run += 1
            deep = first - ray[2, min(run, len(surf) - 1)]
            if deep < 2.2 * step + 0.5 and run < len(surf):
                tally.outcome('narrow')
                continue
            near_nan = nan[hit[0]: run].any()
            if near_nan:
                continue
            tally.add(judged=1)
            if gz < first - step - loose - eps:
                return bad('late', f'{tag}: point {k} at {gz:.2f} is more than one ray step ({step:.2f}) under the first '
                                   f'intersection ({first:.2f})')
            if gz > first + loose + eps:
                return bad('early', f'{tag}: point {k} at {gz:.2f} is before the first intersection ({first:.2f})')
            tally.outcome(case['surf'], round(gz))

    # ------------------------------------------------------------------------------------------------
    def run_errors(self, case, tally, bad):
        from orthority.errors import CameraInitError

        kind = case['kind']
        cam, center = build(kind, (22, 17), 'tilted')
        z, tr = surface('hills', center, (15, 15))

        def expect(ex_type, tag, fn):
            tally.add(executions=1, states=1)
            try:
                fn()
            except ex_type:
                tally.outcome('error', tag)
            except Exception as ex:
                bad('error-type', f'{tag}: {core._describe(ex)}, {ex_type.__name__} expected')
            else:
                bad('accepted', f'{tag}: accepted, {ex_type.__name__} expected')

        expect(ValueError, 'surface without transform', lambda: cam.world_boundary(z))
        expect(ValueError, 'list of heights', lambda: cam.world_boundary([1.0, 2.0]))
        expect(ValueError, '1D heights', lambda: cam.world_boundary(np.arange(8.0), transform=tr))
        expect(ValueError, '3D heights', lambda: cam.world_boundary(z[None], transform=tr))
        expect(ValueError, 'no height', lambda: cam.world_boundary(None))
        expect(ValueError, 'unsupported type', lambda: cam.world_boundary(z.astype('complex64'), transform=tr))
        if kind != 'rpc':
            expect(ValueError, 'DEM higher than camera', lambda: cam.world_boundary(z + 400, transform=tr))
            from orthority.camera import create_camera

            raw = create_camera(kind.partition('-')[0], (22, 17), 39.6, sensor_size=(36.0, 27.8))
            expect(CameraInitError, 'uninitialised', lambda: raw.world_boundary(20.0))
            expect(CameraInitError, 'uninitialised', lambda: raw.world_boundary(z, transform=tr))
            # a DEM part of which is above the camera is used
            zz = z.copy()
            zz[:2] = 500
            tally.add(executions=1)
            try:
                a = cam.world_boundary(zz, transform=tr, interp='bilinear')
                if a[2].max() > cam.pos[2] + 1e-6:
                    bad('clip', f'boundary at {a[2].max()} above the camera at {cam.pos[2]}')
            except Exception as ex:
                bad('raised', f'DEM with some terrain above the camera: {core._describe(ex)}')

    def run_horizon(self, case, tally, bad):
        from orthority.errors import OrthorityError

        base = case['kind'].partition('-')[0]
        for size in SIZES[:2]:
            # rays of the eight boundary points from a nadir camera
            for focal in (0.5, 1.1, 3.0):
                cam = scenes.make_camera(base, size, xyz=(0, 0, 100.0), opk=(0, 0, 0), focal=focal)
                p = cam.pixel_to_world_z(boundary_pixels(size), 0.0)
                rays = p - np.array([[0.0], [0.0], [100.0]])
                rays /= np.linalg.norm(rays, axis=0)
                if not (rays[2] < -0.05).all():
                    continue
                for axis in (0, 1):
                    for kappa in (0.0, 0.7):
                        for deg in range(-180, 181, case['step']):
                            opk = [0.0, 0.0, kappa]
                            opk[axis] = np.radians(deg)
                            r = (refcam.rot_opk(*opk) @ rays)[2]
                            tally.add(executions=1, states=1)
                            if np.abs(r).min() < 1e-3:
                                continue
                            cam.update((0.0, 0.0, 100.0), tuple(opk))
                            for z in (0.0, np.zeros((9, 9), 'float32')):
                                kw = dict(transform=data_tr()) if not np.isscalar(z) else {}
                                try:
                                    cam.world_boundary(z, **kw)
                                    got = False
                                except OrthorityError:
                                    got = True
                                tally.outcome(got)
                                if got != bool((r >= 0).any()):
                                    bad('horizon', f'focal {focal}, size {size}, opk {np.degrees(opk).tolist()}: '
                                        + ('reported as including the horizon, it does not' if got else 'includes the horizon, no error'))


def data_tr():
    from rasterio.transform import from_origin

    return from_origin(-45.0, 45.0, 10.0, 10.0)


CHECK = C23()
