"""C09: RPC camera projection agrees with the RPC00B model in both directions, in any supported world CRS."""
from __future__ import annotations

import numpy as np

from mc import core, scenes, space
from mc.ref import cam as rcam

CO = ['line_num_coeff', 'line_den_coeff', 'samp_num_coeff', 'samp_den_coeff']
DIMS = dict(
    crs=[None, 'EPSG:32634', 'EPSG:4979', 'EPSG:4326', 'EPSG:3857', 'obj:EPSG:32634', '+proj=utm +zone=34 +south'],
    im=[(60, 40), (40, 60), (501, 400)],
    loc=[(21.0, 55.94), (24.4, -33.6), (-70.2, 0.01)],
    off=[(30.0, 200.0), (0.0, 500.0), (-50.0, 30.0)],
    h=[0.3, -0.9, 0.0, 0.99],
    form=['dict', 'RPC'],
    tilt=[0.15, 0.0, -0.3],
    shift=[0.0, 3.5],
)


class C09(core.Check):
    pid = 'C09'
    rule = (
        'one execution = one RPC model / CRS / height / size configuration decided on a 6x6 point grid; all '
        'configurations within the deviation bound, and each of the 80 coefficients perturbed alone, are run; '
        'states = configurations, transitions = point evaluations'
    )
    assumptions = ['RPC00B reference in mc/ref/cam.py', 'PROJ (through rasterio.warp) is trusted for CRS transforms']

    def bounds(self, tier):
        return dict(deviations=3 if tier == 'quick' else 4, coefficients=80, points=36)

    def cases(self, tier):
        out = [dict(c, coef=None) for c in space.deviations(DIMS, 3 if tier == 'quick' else 4)]
        for name in CO:
            for k in range(20):
                for crs in DIMS['crs'][:2]:
                    for d in (0.004, -0.007):
                        out.append(dict(space.default(DIMS), crs=crs, coef=[name, k, d]))
        out.append(dict(kind='errors'))
        n = 64
        return [dict(group=out[i::n]) for i in range(n)]

    def sample(self, case):
        return case['group'][0]

    def run_case(self, case, tally, scratch):
        for c in case['group']:
            self.errors(tally) if c.get('kind') else self.one(c, tally)

    def errors(self, tally):
        """World CRSs with other than ellipsoidal height are refused."""
        from orthority.camera import RpcCamera
        from orthority.errors import OrthorityError
        from rasterio.crs import CRS

        rpc = scenes.make_rpc((60, 40))
        for crs in ['EPSG:32634+5773', CRS.from_string('EPSG:32634+5773'), 'EPSG:4326+5773',
                    '+proj=utm +zone=34 +datum=WGS84 +vunits=us-ft']:
            try:
                RpcCamera((60, 40), rpc, crs=crs)
            except OrthorityError:
                pass
            else:
                raise core.Violation(f'non-ellipsoidal height CRS {crs} accepted', key='vertical crs')
            tally.add(states=1, executions=1, transitions=1, traces=1)
        cam = RpcCamera((60, 40), rpc)
        for f in (lambda: cam.world_to_pixel(np.zeros((2, 4))), lambda: cam.pixel_to_world_z(np.zeros((3, 4)), 1.0),
                  lambda: cam.world_to_pixel(np.zeros((3, 4), 'float32')),
                  lambda: cam.pixel_to_world_z(np.zeros((2, 4)), np.zeros(3))):
            try:
                f()
            except ValueError:
                continue
            raise core.Violation('malformed coordinate array accepted', key='shapes')

    def one(self, c, tally):
        from orthority.camera import RpcCamera
        from rasterio.crs import CRS
        from rasterio.rpc import RPC
        from rasterio.warp import transform

        im = tuple(c['im'])
        rpc = scenes.make_rpc(im, lon=c['loc'][0], lat=c['loc'][1], h_off=c['off'][0], h_scale=c['off'][1],
                              tilt=c['tilt'])
        rpc['samp_off'] += c['shift']
        rpc['line_off'] -= c['shift']
        if c['coef']:
            name, k, d = c['coef']
            rpc[name] = list(rpc[name])
            rpc[name][k] += d
        crs = c['crs']
        if crs and '+south' in crs and c['loc'][1] > 0:
            crs = crs.replace(' +south', '')
        if crs and ('utm' in crs or '32634' in crs) and abs(c['loc'][0] - 21) > 6:
            zone = int((c['loc'][0] + 180) // 6 + 1)
            crs = crs.replace('zone=34', f'zone={zone}').replace('32634', str(32600 + zone + 100 * (c['loc'][1] < 0)))
        arg = crs
        if crs and crs.startswith('obj:'):
            crs = crs[4:]
            arg = CRS.from_string(crs)
        given = RPC(**rpc) if c['form'] == 'RPC' else dict(rpc)
        cam = RpcCamera(im, given, crs=arg)

        def bad(what, d=None):
            raise core.Violation(what, key=what.split(':')[0], detail=dict(config=c, got=d))

        if tuple(cam.im_size) != im:
            bad('im_size')
        want_crs = CRS.from_string(crs) if crs else CRS.from_epsg(4979)
        if cam.crs != want_crs:
            bad('crs property: not the given CRS', str(cam.crs))
        L, P = np.meshgrid(np.linspace(-0.9, 0.9, 6), np.linspace(-0.9, 0.9, 6))
        lon = rpc['long_off'] + L.ravel() * rpc['long_scale']
        lat = rpc['lat_off'] + P.ravel() * rpc['lat_scale']
        h = np.full(lon.shape, rpc['height_off'] + c['h'] * rpc['height_scale'])
        h[::2] += 0.01 * rpc['height_scale'] * np.arange(h[::2].size)
        ref = rcam.rpc_project(rpc, lon, lat, h)

        def to_world(lon, lat, h):
            if not crs:
                return np.array([lon, lat, h])
            return np.array(transform(CRS.from_epsg(4979), CRS.from_string(crs), lon, lat, h))

        xyz = to_world(lon, lat, h)
        x0 = xyz.copy()
        ji = cam.world_to_pixel(xyz)
        if not np.array_equal(xyz, x0):
            bad('world_to_pixel: modifies its input')
        # metres -> degrees round trip limits the accuracy of the comparison
        if ji.shape != ref.shape or not np.abs(ji - ref).max() < 1e-4:
            bad('world_to_pixel: differs from the RPC model', float(np.abs(ji - ref).max()))
        # nan in any coordinate gives nan only for that point
        for k in range(3):
            x = xyz.copy()
            x[k, 3] = np.nan
            got = cam.world_to_pixel(x)
            if not np.isnan(got[:, 3]).all() or not np.allclose(np.delete(got, 3, 1), np.delete(ji, 3, 1), atol=1e-7):
                bad('world_to_pixel: nan handling')
        # inverse
        zz = float(h[1])
        J, I = np.meshgrid(np.linspace(0, im[0] - 1, 6), np.linspace(0, im[1] - 1, 6))
        grid = np.array([J.ravel(), I.ravel()])
        w = cam.pixel_to_world_z(grid, zz)
        if w.shape != (3, grid.shape[1]) or not np.allclose(w[2], zz, atol=1e-6):
            bad('pixel_to_world_z: z')
        back = cam.world_to_pixel(w)
        if not np.abs(back - grid).max() < 0.11:
            bad('pixel_to_world_z: not the inverse of world_to_pixel', float(np.abs(back - grid).max()))
        fine = RpcCamera(im, given, crs=arg, rpc_options=dict(rpc_pixel_error_threshold=1e-4))
        back = fine.world_to_pixel(fine.pixel_to_world_z(grid, zz))
        if not np.abs(back - grid).max() < 1e-3:
            bad('rpc_options: not used for the inverse', float(np.abs(back - grid).max()))
        zs = np.array([zz, zz - 1.0, zz + 2.0])
        one = cam.pixel_to_world_z(grid[:, 7:8], zs)
        for n, z in enumerate(zs):
            if not np.allclose(one[:, n], cam.pixel_to_world_z(grid[:, 7:8], float(z))[:, 0], atol=1e-7):
                bad('pixel_to_world_z: one pixel to many z')
        za = np.full(grid.shape[1], zz)
        za0 = za.copy()
        g = grid.copy()
        g[0, 2] = np.nan
        za[5] = np.nan
        got = cam.pixel_to_world_z(g, za)
        keep = [k for k in range(grid.shape[1]) if k not in (2, 5)]
        if not np.isnan(got[:2, [2, 5]]).all() or not np.allclose(got[:, keep], w[:, keep], atol=1e-7):
            bad('pixel_to_world_z: nan handling')
        if not np.array_equal(np.isnan(za), np.arange(len(za)) == 5) or not np.array_equal(za0[keep], za[keep]):
            bad('pixel_to_world_z: modifies its input')
        tally.add(states=1, executions=1, transitions=4 * 36, traces=1)
        tally.outcome(np.round(ref, 3).tobytes(), crs)


CHECK = C09()
