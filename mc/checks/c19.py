"""C19: RPC refinement and frame exterior fitting recover the model that explains the GCPs."""
from __future__ import annotations

import copy

import numpy as np

from mc import core, data, scenes, space
from mc.ref import cam as rcam

RPC_DIMS = dict(
    method=['shift', 'shift-drift'],
    n=[6, 1, 2, 3, 12],
    shift=[(2.5, -4.0), (0.0, 0.0), (-11.25, 0.5), (0.0, 7.0)],
    drift=[(1.0, 1.0), (1.01, 1.0), (1.0, 0.985), (1.004, 0.996)],
    noise=[0.0, 0.8],
    form=['dict', 'RPC', 'enum'],
    im=[(60, 40), (400, 501)],
)
FR_DIMS = dict(
    cam=['pinhole', 'brown', 'opencv', 'fisheye'],
    n=[12, 4, 6],
    opk=[(0.06, -0.04, 0.3), (0.0, 0.0, 0.0), (-0.3, 0.2, 2.9), (0.5, 0.0, -1.5)],
    crs=[None, data.UTM, 'EPSG:32634+5773'],
    cxy=[(0.0, 0.0), (0.02, -0.03)],
    images=[1, 2, 3],
    cams=[1, 2],
    surf=['rough', 'plane'],
    im=[(60, 40), (40, 60)],
    sensor=[True, False],
    coef=['all', 'none', 'odd', 'even', 'last'],
    names=['asc', 'desc', 'mixed'],
    count=['same', 'more', 'few'],
    obj=[False, True],
)


def lattice(n):
    """n well spread points in [-1, 1]^2 (deterministic, non collinear from 3 on)."""
    base = [(-0.7, 0.6), (0.8, -0.5), (0.55, 0.75), (-0.6, -0.8), (0.1, 0.05), (-0.3, 0.25), (0.35, -0.85),
            (-0.9, -0.1), (0.9, 0.2), (0.0, 0.9), (-0.2, -0.45), (0.45, 0.3), (-0.75, 0.15)]
    return np.array(base[:n]).T


class C19(core.Check):
    pid = 'C19'
    rule = (
        'one execution = one fitting problem (GCPs synthesised by the independent model from a known bias / pose); '
        'all configurations within the deviation bound are run; states = problems, transitions = GCPs'
    )
    assumptions = ['reference models in mc/ref/cam.py', 'GCPs are well distributed (not collinear)']

    def bounds(self, tier):
        k = 4 if tier == 'quick' else 5
        return dict(rpc_deviations=k + 1, frame_deviations=k)

    def cases(self, tier):
        k = 4 if tier == 'quick' else 5
        out = [dict(c, what='rpc') for c in space.deviations(RPC_DIMS, k + 1)]
        out += [dict(c, what='frame') for c in space.deviations(FR_DIMS, k)]
        n = 64
        return [dict(group=out[i::n]) for i in range(n)]

    def sample(self, case):
        return case['group'][0]

    def run_case(self, case, tally, scratch):
        for c in case['group']:
            (self.rpc if c['what'] == 'rpc' else self.frame)(c, tally)
            tally.add(states=1, executions=1, transitions=c['n'], traces=1)

    # ---------------------------------------------------------------- RPC
    def rpc(self, c, tally):
        from orthority.enums import RpcRefine
        from orthority.fit import refine_rpc
        from rasterio.rpc import RPC

        im = tuple(c['im'])
        rpc = scenes.make_rpc(im)
        LP = lattice(c['n'])
        lon = rpc['long_off'] + 0.9 * LP[0] * rpc['long_scale']
        lat = rpc['lat_off'] + 0.9 * LP[1] * rpc['lat_scale']
        h = rpc['height_off'] + rpc['height_scale'] * 0.4 * np.sin(np.arange(c['n']))
        ji = rcam.rpc_project(rpc, lon, lat, h)
        off = np.array([[rpc['samp_off']], [rpc['line_off']]])
        tgt = (ji - off) * np.array([[c['drift'][0]], [c['drift'][1]]]) + off + np.array([[c['shift'][0]],
                                                                                          [c['shift'][1]]])
        k = np.arange(c['n'])
        tgt = tgt + c['noise'] * np.array([np.cos(2.3 * k + 0.4), np.sin(1.7 * k)])
        gcps = [dict(ji=tuple(map(float, tgt[:, n])), xyz=(float(lon[n]), float(lat[n]), float(h[n])), id=str(n),
                     info=None) for n in range(c['n'])]
        given = RPC(**rpc) if c['form'] == 'RPC' else copy.deepcopy(rpc)
        g0, r0 = copy.deepcopy(gcps), copy.deepcopy(rpc)
        method = RpcRefine(c['method']) if c['form'] == 'enum' else c['method']

        def bad(what, d=None):
            raise core.Violation('refine_rpc: ' + what, key='refine ' + what, detail=dict(config=c, got=d))

        if c['method'] == 'shift-drift' and c['n'] < 2:
            try:
                refine_rpc(given, gcps, method)
            except ValueError:
                return
            bad('one GCP accepted for shift-drift')
        new = refine_rpc(given, gcps, method)
        if gcps != g0 or (c['form'] != 'RPC' and given != r0):
            bad('modifies its inputs')
        if not isinstance(new, dict) or set(new) < set(r0) - {'err_bias', 'err_rand'}:
            bad('incomplete result')
        for key in r0:
            if key not in ('line_num_coeff', 'samp_num_coeff') and new[key] != r0[key]:
                bad('changes parameters other than the numerators', key)
        # expected least squares solution per axis, in the reference model
        exp = np.empty_like(tgt)
        for a in range(2):
            if c['method'] == 'shift':
                m, b = 1.0, (tgt[a] - ji[a]).mean()
            else:
                x, y = ji[a], tgt[a]
                m = ((x - x.mean()) * (y - y.mean())).sum() / ((x - x.mean()) ** 2).sum()
                b = y.mean() - m * x.mean()
            exp[a] = m * ji[a] + b
        got = rcam.rpc_project(new, lon, lat, h)
        if not np.abs(got - exp).max() < 1e-5 * max(im):
            bad('refined model is not the least squares fit', float(np.abs(got - exp).max()))
        tally.outcome(np.round(got, 3).tobytes())

    # ---------------------------------------------------------------- frame exterior
    def frame(self, c, tally):
        from orthority.enums import CameraType
        from orthority.fit import fit_frame_exterior

        im = tuple(c['im'])
        w, h = im
        coef = list(scenes.INT[c['cam']].items())
        coef = dict({'all': coef, 'none': [], 'odd': coef[1::2], 'even': coef[::2], 'last': coef[-1:]}[c['coef']])
        int_param = dict(cam_type=CameraType(c['cam']), im_size=im, cx=c['cxy'][0], cy=c['cxy'][1], **coef)
        if c['sensor']:
            int_param.update(focal_len=1.1 * 36, sensor_size=(36.0 * w / max(im), 36.0 * h / max(im)))
        else:
            int_param.update(focal_len=1.1)
        ints = {'cam a': int_param}
        if c['cams'] == 2:
            ints['cam b'] = dict(int_param, focal_len=int_param['focal_len'] * 1.5)
        gcp_dict, truth = {}, {}
        fns = {'asc': ['im0.tif', 'im1.tif', 'im2.tif'], 'desc': ['im9.tif', 'im10.tif', 'im0.tif'],
               'mixed': ['b.tif', 'c.tif', 'a.tif']}[c['names']]
        for n in range(c['images']):
            xyz = (data.X0 + 20.0 * n, data.Y0 - 15.0 * n, 220.0 + 5 * n)
            opk = tuple(o + 0.03 * n for o in c['opk'])
            ref = rcam.Frame(c['cam'], im, int_param['focal_len'], int_param.get('sensor_size'), cx=c['cxy'][0],
                             cy=c['cxy'][1], xyz=xyz, opk=opk, **coef)
            # GCPs under the image: intersect rough rays with the ground
            m = {'same': c['n'], 'more': c['n'] + (n == 0), 'few': 2 if n == c['images'] - 1 else c['n']}[c['count']]
            s = lattice(m) * np.array([[0.36 * w / max(im)], [0.36 * h / max(im)]])
            rays = ref.R @ np.vstack([s, -np.ones(s.shape[1])])
            zg = 20.0 + (8.0 * np.sin(1.3 * np.arange(s.shape[1]) + n) if c['surf'] == 'rough' else 0.0)
            wld = ref.T + rays * ((zg - xyz[2]) / rays[2])
            ji = ref.project(wld)
            if c['crs']:
                from rasterio.warp import transform

                pts = np.array(transform(c['crs'], 'EPSG:4979', *wld))
            else:
                pts = wld
            gcp_dict[fns[n]] = [
                dict(ji=tuple(map(float, ji[:, k])), xyz=tuple(map(float, pts[:, k])), id=None, info=None)
                for k in range(s.shape[1])]
            truth[fns[n]] = ref
        g0, i0 = copy.deepcopy(gcp_dict), copy.deepcopy(ints)
        crs = c['crs']
        if crs and c['obj']:
            from rasterio.crs import CRS

            crs = CRS.from_string(crs)
        if c['count'] == 'few':
            try:
                fit_frame_exterior(ints, gcp_dict, crs=crs)
            except ValueError:
                return
            raise core.Violation('fit_frame_exterior: an image with two GCPs was accepted', key='fit few', detail=c)
        ext = fit_frame_exterior(ints, gcp_dict, crs=crs)

        def bad(what, d=None):
            raise core.Violation(f'fit_frame_exterior {c["cam"]}: ' + what, key=f'fit {c["cam"]} ' + what,
                                 detail=dict(config=c, got=d))

        if gcp_dict != g0 or ints != i0:
            bad('modifies its inputs')
        if set(ext) != set(gcp_dict):
            bad('images', list(ext))
        for name, ref in truth.items():
            if ext[name]['camera'] != 'cam a':
                bad('camera id')
            dp = np.abs(np.array(ext[name]['xyz']) - ref.T.ravel()).max()
            dr = np.abs(rcam.rot_opk(*ext[name]['opk']) - ref.R).max()
            if not (dp < 0.05 and dr < 5e-4):
                bad('pose not recovered', [float(dp), float(dr)])
        tally.outcome(c['cam'], np.round(np.array(ext[fns[0]]['xyz']), 1).tobytes(), c['n'], c['opk'])


CHECK = C19()
