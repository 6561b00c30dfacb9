"""C06: a frame camera behaves as its current settings say, whatever was done with it before."""
from __future__ import annotations

from itertools import product

import numpy as np

from mc import core, data

EXT = {
    'A': dict(xyz=(data.X0, data.Y0, 220.0), opk=(0.06, -0.04, 0.3)),
    'B': dict(xyz=(data.X0 + 31.0, data.Y0 - 12.0, 240.0), opk=(-0.05, 0.08, -2.1)),
    # nearly A
    'C': dict(xyz=(data.X0 + 0.004, data.Y0, 220.0), opk=(0.06, -0.0401, 0.3)),
}
CAMS = ['pinhole', 'brown', 'opencv', 'fisheye']
SET = ['d0', 'd1', 'a0', 'a.4', 'a.404', 'a1', 'uA', 'uB', 'uC']
USE = ['read', 'remap', 'wb', 'proj']
OPS = SET + USE


class C06(core.Check):
    pid = 'C06'
    rule = (
        'one execution = one history (sequence of property assignments, exterior updates and uses) run on one camera '
        'object, with every observation compared after the last step to a new camera constructed with the settings '
        'the model predicts; all histories up to the depth are run'
    )
    assumptions = ['22x17 two-band image, 3 exterior settings and 4 alpha values, of which two are nearly the same']

    def depth(self, tier):
        return 4 if tier == 'quick' else 5

    def bounds(self, tier):
        return dict(depth=self.depth(tier), operations=OPS, cameras=CAMS, starts=['A', 'none'])

    def cases(self, tier):
        out = []
        for first in product(OPS, OPS):
            for cam in CAMS:
                for start in ('d1a1A', 'd0a1-', 'd0a.4B'):
                    out.append(dict(cam=cam, start=start, prefix=list(first)))
        return out

    def sample(self, case):
        return dict(case, history=case['prefix'] + ['d0', 'read'])

    def setup(self, scratch, tier):
        import rasterio as rio
        from rasterio.transform import from_origin

        self.tier = tier
        a = data.texture(2, 17, 22, 'uint8', 1, 255, smooth=True)
        self.src = rio.open(data.write_image(scratch / 'src.tif', a))
        self.arr = a
        jj, ii = np.meshgrid(np.arange(12), np.arange(10))
        self.x = data.X0 - 60 + jj * 11.0
        self.y = data.Y0 + 50 - ii * 11.0
        self.z = np.full(self.x.shape, 20.0)
        self.dem = data.dem_array((30, 30), 'hills')
        self.dem_tr = from_origin(data.X0 - 300, data.Y0 + 300, 20, 20)
        self.memo = {}
        self.pts = np.array([self.x.ravel()[::7], self.y.ravel()[::7], self.z.ravel()[::7]])
        self.ji = np.array([[0.0, 5.5, 21, 10, 3], [0.0, 8, 16, 2.25, 15]])
        self.zs = np.array([15.0, 3.0, 21.5, 0.0, -4.0])
        self.given = {k: (getattr(self, k), getattr(self, k).copy()) for k in ('arr', 'x', 'y', 'z', 'dem', 'pts', 'ji', 'zs')}

    def unchanged(self, what):
        for k, (a, b) in self.given.items():
            if not np.array_equal(a, b, equal_nan=True):
                a[...] = b
                raise core.Violation(f'{what}: array "{k}" that was passed in is changed', key=f'modified {k}')

    def make(self, cam, distort, alpha, ext):
        from mc import scenes

        e = EXT[ext] if ext else dict(xyz=None, opk=None)
        kw = dict(distort=distort, alpha=alpha)
        if cam == 'pinhole':
            from orthority.camera import create_camera

            return create_camera('pinhole', (22, 17), 1.1 * 36, sensor_size=(36.0, 36.0 * 17 / 22), **e, **kw)
        return scenes.make_camera(cam, (22, 17), **e, **kw)

    def guard(self, f):
        try:
            return f()
        except Exception as ex:
            return ('raised', type(ex).__name__)

    def observe(self, c):
        return dict(
            distort=c.distort,
            alpha=c.alpha,
            pos=self.guard(lambda: c.pos),
            pixel=self.guard(lambda: c.world_to_pixel(self.pts)),
            world=self.guard(lambda: c.pixel_to_world_z(self.ji, self.zs)),
            pbound=self.guard(lambda: c.pixel_boundary(20)),
            wbound=self.guard(lambda: c.world_boundary(10.0)),
            read=self.guard(lambda: c.read(self.src, indexes=[2, 1], nodata=0)),
            remap=self.guard(lambda: c.remap(self.arr, self.x, self.y, self.z, nodata=0)[0]),
        )

    def apply(self, c, op, st):
        """Do ``op`` on the camera and on the model state st = [distort, alpha, ext]."""
        if op[0] == 'd' and len(op) == 2:
            c.distort = op == 'd1'
            st[0] = op == 'd1'
        elif op[0] == 'a':
            c.alpha = float(op[1:])
            st[1] = float(op[1:])
        elif op[0] == 'u':
            xyz, opk = (np.array(EXT[op[1]][k]) for k in ('xyz', 'opk'))
            c.update(xyz=xyz, opk=opk)
            if xyz.tolist() != list(EXT[op[1]]['xyz']) or opk.tolist() != list(EXT[op[1]]['opk']):
                raise core.Violation('update() changes the position or angles passed to it', key='modified ext')
            xyz += 5.0
            opk += 1.0
            st[2] = op[1]
        elif op == 'read':
            c.read(self.src, nodata=0, interp='nearest')
        elif op == 'remap':
            self.guard(lambda: c.remap(self.arr, self.x, self.y, self.z, nodata=0, interp='bilinear'))
        elif op == 'wb':
            from orthority.enums import Interp

            self.guard(lambda: c.world_boundary(self.dem, num_pts=6, transform=self.dem_tr, interp=Interp.bilinear))
        elif op == 'proj':
            self.guard(lambda: c.world_to_pixel(self.pts[:, :2].copy()))
            self.guard(lambda: c.pixel_to_world_z(self.ji, 3.0))

    @staticmethod
    def same(a, b):
        if isinstance(a, np.ndarray) != isinstance(b, np.ndarray):
            return False
        if isinstance(a, np.ndarray):
            if a.shape != b.shape:
                return False
            if a.dtype.kind in 'ui':
                d = np.abs(a.astype('int32') - b.astype('int32'))
                return d.max(initial=0) <= 1
            return np.allclose(a, b, rtol=0, atol=1e-6, equal_nan=True)
        return a == b

    def run_case(self, case, tally, scratch):
        d = self.depth(self.tier) - (case['cam'] == 'pinhole')
        tails = [()]
        for k in range(1, d - 1):
            # a setting followed by a setting or use; the last step of a history is always observed
            tails += list(product(OPS, repeat=k)) if k < 3 else [
                t for t in product(OPS, repeat=k) if t[-1] in SET]
        for tail in tails:
            ops = list(case['prefix']) + list(tail)
            st = [case['start'][1] == '1', float(case['start'][3:-1]), case['start'][-1].replace('-', '') or None]
            c = self.make(case['cam'], *st)
            for op in ops:
                self.apply(c, op, st)
            key = (case['cam'], *st)
            if key not in self.memo:
                self.memo[key] = self.observe(self.make(case['cam'], *st))
                for k, v in self.memo[key].items():
                    if not st[2] and k in ('pixel', 'world', 'wbound', 'remap') and v != ('raised', 'CameraInitError'):
                        raise core.Violation(f'{case["cam"]} without exterior parameters: {k} gives {str(v)[:80]}', key='uninit ' + k)
                    if isinstance(v, tuple) and v and v[0] == 'raised' and st[2]:
                        raise core.Violation(f'{case["cam"]} {st}: {k} {v}', key='fresh ' + k)
                tally.outcome(key)
            obs = self.observe(c)
            self.unchanged(f'{case["cam"]}: {ops}')
            tally.add(states=1, transitions=len(ops), executions=1, traces=1)
            for k, v in self.memo[key].items():
                if not self.same(obs[k], v):
                    raise core.Violation(
                        f'{case["cam"]}: after {ops} "{k}" differs from a new camera with distort={st[0]} '
                        f'alpha={st[1]} exterior={st[2]}', key=f'history {k}', detail=dict(start=case['start']))


CHECK = C06()
