"""C08: frame camera projection agrees with an independent model of each camera type, in both directions."""
from __future__ import annotations

import numpy as np

from mc import core, data, space
from mc.ref import cam as rcam

COEF = {
    'pinhole': {},
    'brown': dict(k1=-0.12, k2=0.03, p1=0.004, p2=-0.003, k3=0.01),
    'opencv': dict(k1=-0.10, k2=0.02, k3=0.01, p1=0.003, p2=-0.002, k4=0.02, k5=-0.01, k6=0.005, s1=0.002,
                   s2=-0.001, s3=0.0015, s4=0.002, tx=0.01, ty=-0.008),
    'fisheye': dict(k1=-0.05, k2=0.012, k3=-0.004, k4=0.001),
}
CAMS = list(COEF)


def coef_sets(cam):
    """All coefficients, none, each alone, and each prefix of the documented order."""
    c = COEF[cam]
    names = list(c)
    out = [tuple(names), ()]
    out += [(n,) for n in names]
    out += [tuple(names[:k]) for k in range(2, len(names))]
    return list(dict.fromkeys(out))


DIMS = dict(
    im=[(40, 30), (30, 40), (33, 33), (401, 260)],
    focal=[1.1, (1.1, 1.07), 0.8],
    sensor=['square', None, 'nonsquare', 'portrait'],
    cxy=[(0.0, 0.0), (0.02, 0.0), (0.0, -0.03), (-0.04, 0.05)],
    opk=[(0.06, -0.04, 0.3), (0.0, 0.0, 0.0), (0.15, 0.0, 0.0), (0.0, -0.2, 0.0), (0.0, 0.0, 2.5),
         (-0.1, 0.12, -1.7), (0.05, 0.05, 3.14159)],
    xyz=[(data.X0, data.Y0, 220.0), (0.0, 0.0, 100.0), (-12.5, 7.25, 3.0)],
    z=[20.0, 0.0, -35.5],
    distort=[True, False],
    alpha=[1.0, 0.0, 0.35],
)


def sensor_of(kind, im):
    w, h = im
    if kind is None:
        return None
    m = max(w, h)
    if kind == 'square':
        return (36.0 * w / m, 36.0 * h / m)
    if kind == 'nonsquare':
        return (w / m, 0.93 * h / m)
    return (0.75, 1.0)


def focal_of(c):
    f = c['focal']
    if c['sensor'] == 'portrait' and f != 0.8:
        f = 0.9 if np.isscalar(f) else (0.9, 0.92)
    k = 36.0 if c['sensor'] == 'square' else 1.0
    return f * k if np.isscalar(f) else (f[0] * k, f[1] * k)


class C08(core.Check):
    pid = 'C08'
    rule = (
        'one execution = one projection configuration (camera type, coefficient subset, image size, focal, sensor, '
        'principal point, orientation, position, height, distort, alpha) decided on a grid of image points; states '
        '= configurations, transitions = point evaluations; every assignment within the deviation bound is run'
    )
    assumptions = ['reference formulas in mc/ref/cam.py', 'moderate distortion (invertible over the image)']
    case_timeout = 300

    def bounds(self, tier):
        return dict(deviations=3 if tier == 'quick' else 4, coefficient_subsets='all/none/each/prefixes',
                    points='7x7 image grid')

    def cases(self, tier):
        k = 3 if tier == 'quick' else 4
        out = []
        for cam in CAMS:
            for n, c in enumerate(space.deviations(DIMS, k)):
                out.append(dict(cam=cam, coef=list(COEF[cam]), **c))
            for cs in coef_sets(cam)[1:]:
                for c in space.deviations(dict(DIMS), k - 1):
                    out.append(dict(cam=cam, coef=list(cs), **c))
        # group into chunks: a case is a list of configurations
        n = 64 if tier == 'quick' else 256
        return [dict(group=out[i::n]) for i in range(n)]

    def sample(self, case):
        return case['group'][0]

    def setup(self, scratch, tier):
        self.scratch = scratch
        self.ims = {}
        for im in DIMS['im']:
            w, h = im
            j, i = np.meshgrid(np.arange(w), np.arange(h))
            a = np.stack([j, i]).astype('float32')
            p = data.write_image(scratch / f'coord_{w}_{h}.tif', a)
            import rasterio as rio

            self.ims[im] = rio.open(p)

    def run_case(self, case, tally, scratch):
        for c in case['group']:
            self.one(c, tally)

    def one(self, c, tally):
        from orthority.camera import create_camera

        im = tuple(c['im'])
        w, h = im
        foc = focal_of(c)
        sens = sensor_of(c['sensor'], im)
        coef = {k: COEF[c['cam']][k] for k in c['coef']}
        kw = dict(cx=c['cxy'][0], cy=c['cxy'][1], xyz=tuple(c['xyz']), opk=tuple(c['opk']), **coef)
        cam = create_camera(c['cam'], im, foc, sensor_size=sens, distort=c['distort'], alpha=c['alpha'], **kw)
        full = create_camera(c['cam'], im, foc, sensor_size=sens, distort=True, **kw)
        ref = rcam.Frame(c['cam'], im, foc, sens, **kw)
        key = f'{c["cam"]}'

        def bad(what, d=None):
            raise core.Violation(f'{key}: {what}', key=key + ' ' + what.split(':')[0],
                                 detail=dict(config=c, got=d))

        if tuple(cam.im_size) != im or not np.allclose(cam.pos, c['xyz']):
            bad('im_size / pos not as given')
        J, I = np.meshgrid(np.linspace(0, w - 1, 7), np.linspace(0, h - 1, 7))
        ji = np.array([J.ravel(), I.ravel()])
        z = c['z'] if c['xyz'][2] > 50 else c['z'] / 100 - 1
        # cv2.undistortPoints() does a fixed number of iterations, which leaves more error at wide angles
        tol = (2e-2 if np.min(c['focal']) < 1 else 2e-3) * max(im) / 40 if coef else 1e-6
        # pixel -> world at z (full model), against the reference forward model
        ji0 = ji.copy()
        xyz = full.pixel_to_world_z(ji, z)
        if xyz.shape != (3, ji.shape[1]):
            bad('pixel_to_world_z: shape', xyz.shape)
        if not np.array_equal(ji, ji0):
            bad('pixel_to_world_z: modifies its input')
        if not np.allclose(xyz[2], z, atol=1e-6):
            bad('pixel_to_world_z: z is not the requested z')
        rji = ref.project(xyz)
        e = np.abs(rji - ji).max()
        if not e < tol:
            bad('pixel_to_world_z: does not map back to the pixel under the model', float(e))
        # world -> pixel, exact
        pts = xyz.copy()
        pts[:, ::3] += np.array([[0.3], [-0.2], [0.9]]) * (1 if c['xyz'][2] > 50 else 0.02)
        p0 = pts.copy()
        got = full.world_to_pixel(pts)
        if not np.array_equal(pts, p0):
            bad('world_to_pixel: modifies its input')
        if got.shape != (2, pts.shape[1]):
            bad('world_to_pixel: shape', got.shape)
        e = np.abs(got - ref.project(pts)).max()
        if not e < 1e-5:
            bad('world_to_pixel: differs from the model', float(e))
        # principal ray
        axis = ref.T + ref.R @ np.array([[0.0], [0.0], [-1.0]]) * (5.0 if c['xyz'][2] > 50 else 1.0)
        got = full.world_to_pixel(axis)
        e = np.abs(got - ref.project(axis)).max()
        if not e < 1e-5:
            bad('world_to_pixel: wrong on the optical axis', float(e))
        # broadcasting: one pixel to many z values & many pixels to one-element z
        zs = np.array([z, z - 1.5, z + 0.5])
        one = full.pixel_to_world_z(ji[:, 8:9], zs)
        for n, zz in enumerate(zs):
            if not np.allclose(one[:, n], full.pixel_to_world_z(ji[:, 8:9], float(zz))[:, 0], atol=1e-6):
                bad('pixel_to_world_z: one pixel to many z differs from one at a time')
        many = full.pixel_to_world_z(ji, np.full(ji.shape[1], z))
        if not np.allclose(many, xyz, atol=1e-6):
            bad('pixel_to_world_z: z array differs from scalar z')
        # whole pixel coordinates as an integer array, and not contiguous in memory
        for f in (lambda a: a.astype(int), lambda a: np.asfortranarray(a), lambda a: np.repeat(a, 2, axis=1)[:, ::2]):
            g = np.floor(ji)
            a, b = full.pixel_to_world_z(f(g), z), full.pixel_to_world_z(g, z)
            if a.dtype != b.dtype or not np.allclose(a, b, atol=1e-6):
                bad('pixel_to_world_z: depends on the data type or memory layout of the pixel coordinates')
            if not np.array_equal(full.world_to_pixel(np.asfortranarray(pts)), full.world_to_pixel(pts)):
                bad('world_to_pixel: depends on the memory layout of the world coordinates')
        # this camera (distort / alpha): consistent inverse
        cxyz = cam.pixel_to_world_z(ji, z)
        e = np.abs(cam.world_to_pixel(cxyz) - ji).max()
        if not e < tol:
            bad('world_to_pixel is not the inverse of pixel_to_world_z', float(e))
        if c['distort']:
            if not np.allclose(cxyz, xyz, atol=1e-6):
                bad('alpha changes the full model')
        else:
            self.undistorted(c, cam, full, ref, xyz, bad, im, z, coef, tol)
        tally.add(states=1, executions=1, transitions=ji.shape[1] * 4, traces=1)
        tally.outcome(np.round(xyz, 3).tobytes())

    def undistorted(self, c, cam, full, ref, xyz, bad, im, z, coef, tol):
        from orthority.camera import create_camera

        w, h = im
        # the undistorted image and model together reproduce the source geometry
        und = cam.read(self.ims[im], nodata=float('nan'), interp='bilinear')
        p = cam.world_to_pixel(xyz)
        src = full.world_to_pixel(xyz)
        inside = (p[0] >= 1) & (p[0] <= w - 2) & (p[1] >= 1) & (p[1] <= h - 2)
        inside &= (src[0] > 1.2) & (src[0] < w - 2.2) & (src[1] > 1.2) & (src[1] < h - 2.2)
        n = 0
        for k in np.nonzero(inside)[0]:
            x, y = p[:, k]
            x0, y0 = int(x), int(y)
            fx, fy = x - x0, y - y0
            v = (und[:, y0, x0] * (1 - fx) * (1 - fy) + und[:, y0, x0 + 1] * fx * (1 - fy)
                 + und[:, y0 + 1, x0] * (1 - fx) * fy + und[:, y0 + 1, x0 + 1] * fx * fy)
            if np.isnan(v).any():
                continue
            n += 1
            if not np.abs(v - src[:, k]).max() < 0.08:
                bad('undistorted image does not match the undistorted model', [v.tolist(), src[:, k].tolist()])
        if inside.any() and not n:
            bad('undistorted image has no valid pixels')
        if c['cam'] == 'pinhole' or not coef:
            if c['cam'] == 'pinhole' and not np.allclose(p, src, atol=1e-6):
                bad('pinhole model changes with distort=False')
            if c['cam'] == 'pinhole' and not np.array_equal(und, self.ims[im].read().astype('float32')):
                bad('pinhole image changes with distort=False')
        # straight lines: the undistorted model is a pinhole, i.e. linear in the ideal image plane
        if c['cam'] != 'pinhole':
            rx, ry = ref.rays(xyz)
            for d, r in ((p[0], rx), (p[1], ry)):
                A = np.stack([r, np.ones_like(r)]).T
                sol, res, *_ = np.linalg.lstsq(A, d, rcond=None)
                if not np.abs(A @ sol - d).max() < 1e-5 * max(im) or not sol[0] > 0:
                    bad('undistorted model is not an axis aligned pinhole')
            # alpha: 1 includes every source pixel, in between is a linear blend of the extremes
            if c['alpha'] == 1.0:
                if (p.min() < -0.05 * 1 - tol or p[0].max() > w - 1 + 0.05 + tol or p[1].max() > h - 1 + 0.05 + tol):
                    bad('alpha=1 leaves source pixels outside the undistorted image', float(p.min()))
                if p[0].min() > 0.2 + tol * 4 or p[0].max() < w - 1.2 - tol * 4:
                    bad('alpha=1 undistorted image is not filled', [float(p[0].min()), float(p[0].max())])
            kw = dict(cx=c['cxy'][0], cy=c['cxy'][1], xyz=tuple(c['xyz']), opk=tuple(c['opk']), **coef)
            foc = focal_of(c)
            a0, a1 = [create_camera(c['cam'], im, foc, sensor_size=sensor_of(c['sensor'], im), distort=False,
                                    alpha=a, **kw).world_to_pixel(xyz) for a in (0.0, 1.0)]
            if not np.abs(p - (a0 * (1 - c['alpha']) + a1 * c['alpha'])).max() < 1e-6 * max(im):
                bad('alpha does not blend the two extremes')
            if c['alpha'] == 0.0:
                valid = ~np.isnan(und).any(axis=0)
                if valid.mean() < 0.97 or not valid[2:-2, 2:-2].all():
                    bad('alpha=0 leaves invalid pixels in the undistorted image', float(valid.mean()))


CHECK = C08()
