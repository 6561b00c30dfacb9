"""C15: OpenDroneMap / OpenSfM parameter files."""
from __future__ import annotations

import itertools
import json
import warnings

import numpy as np

from mc import core, space

MODELS = dict(
    perspective=(['focal'], ['k1', 'k2']),
    simple_radial=(['focal_x', 'focal_y', 'c_x', 'c_y'], ['k1']),
    radial=(['focal_x', 'focal_y', 'c_x', 'c_y'], ['k1', 'k2']),
    brown=(['focal_x', 'focal_y', 'c_x', 'c_y'], ['k1', 'k2', 'p1', 'p2', 'k3']),
    fisheye=(['focal'], ['k1', 'k2']),
)
COEF = dict(k1=-0.11, k2=0.043, p1=0.0037, p2=-0.0051, k3=0.017)
ROT = [(0.0, 0.0, 0.0), (3.141592653589793, 0.0, 0.0), (2.9, 0.3, -0.2), (-2.1, 2.2, 0.05), (0.4, -0.9, 1.7), (1.2, 1.1, -0.6),
       (0.0, 0.0, 1.5707963267948966), (2.2214414690791831, 2.2214414690791831, 0.0),
       # looking along the world axes
       (1.2091995761561452, 1.2091995761561452, -1.2091995761561452), (-1.2091995761561452, -1.2091995761561452, -1.2091995761561452),
       (0.0, 1.5707963267948966, 0.0), (0.0, -1.5707963267948966, 0.0), (-1.5707963267948966, 0.0, 0.0),
       # close to the x axis
       (0.0, 1.5647963267948966, 0.0), (0.003, -1.5687963267948966, 0.002), (1.2071995761561452, 1.2101995761561452, -1.2091995761561452)]
TRANS = [(0.0, 0.0, 0.0), (12.5, -3.25, 81.0), (-40.0, 22.0, 5.5)]
# latitude, longitude
REFS = [(55.94, 22.6), (-33.25, 21.5), (0.0, 0.0), (-1e-9, 179.9999), (10.0, 180.0), (10.0, -180.0), (60.5, -0.001), (45.0, 6.0), (45.0, 5.999999),
        (-45.0, 11.25), (64.0, -177.0), (24.68, 120.9517), (1e-9, -6.0)]
DIMS = dict(
    model=list(MODELS),
    focal=['usual', 'other', 'equal xy', 'unequal xy', 'near xy'],
    size=[(20, 14), (14, 20), (16, 16)],
    drop=['none', 'all', 'first', 'last', 'c', 'c_x', 'c_y'],
    ids=['plain', 'v2 both', 'v2 camera', 'v2 shot', 'unicode', 'v2 twice', 'v2 inside', 'vendor'],
    ints=['rec', 'cameras.json', 'reader'],
    case=['lower', 'UPPER'],
    rot=list(range(len(ROT))),
    trans=list(range(len(TRANS))),
    ref=list(range(len(REFS))),
    crs=['none', 'utm', 'str', 'next zone', 'vertical'],
    lla=['default', 'ED50'],
    extra=['no', 'yes'],
    shots=[2, 1, 3],
)
PTS = np.array([[0.31, -0.22, 1.0], [-0.4, 0.17, 1.0], [0.05, 0.33, 1.0], [0.0, 0.0, 1.0], [-0.21, -0.37, 1.0]]).T * np.array([20.0, 31.0, 8.0, 50.0, 12.5])
BAD = ['no projection_type', 'no width', 'no height', 'no focal', 'only focal_x', 'unknown model', 'unknown key', 'spherical', 'rpc', 'no cameras', 'no shots',
       'no reference_lla', 'no rotation', 'short rotation', 'no translation', 'no shot camera', 'no altitude', 'int rotation', 'not a list', 'empty list',
       'not json', 'empty', 'cameras list', 'camera not dict', 'shots list', 'text rotation', 'text latitude']


def zone(lat, lon):
    """UTM zone from the definition: 60 zones of 6 degrees eastwards from 180 W."""
    lon = (lon + 180.0) % 360.0
    z = 1
    while lon >= 6.0:
        lon -= 6.0
        z += 1
    return (32600 if lat >= 0 else 32700) + z


def rodrigues(v):
    v = np.array(v, 'float64')
    a = np.linalg.norm(v)
    if a == 0:
        return np.eye(3)
    k = v / a
    s = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + np.sin(a) * s + (1 - np.cos(a)) * s @ s


def osfm_project(cam, xyz):
    """OpenSfM camera coordinates (x right, y down, z forward) to pixel coordinates, from its documentation."""
    g = lambda n: cam.get(n, 0.0)  # noqa: E731
    x, y = xyz[0] / xyz[2], xyz[1] / xyz[2]
    fx, fy = (cam['focal'],) * 2 if 'focal' in cam else (cam['focal_x'], cam['focal_y'])
    if cam['projection_type'].lower() == 'fisheye':
        r = np.hypot(x, y)
        t = np.arctan(r)
        d = t * (1 + g('k1') * t**2 + g('k2') * t**4)
        s = np.where(r > 0, d / np.where(r > 0, r, 1), 1)
        x, y = x * s, y * s
    else:
        r2 = x * x + y * y
        d = 1 + r2 * (g('k1') + r2 * (g('k2') + r2 * g('k3')))
        x, y = (d * x + 2 * g('p1') * x * y + g('p2') * (r2 + 2 * x * x), d * y + 2 * g('p2') * x * y + g('p1') * (r2 + 2 * y * y))
    m = max(cam['width'], cam['height'])
    return np.array([(fx * x + g('c_x')) * m + (cam['width'] - 1) / 2, (fy * y + g('c_y')) * m + (cam['height'] - 1) / 2])


class C15(core.Check):
    pid = 'C15'
    rule = (
        'one execution = one reconstruction / cameras file read into a FrameCameras factory; world points are projected with the cameras and '
        'with the OpenSfM equations; states = files, transitions = projected points'
    )
    assumptions = ['the topocentric and world axes are taken to be parallel (documented approximation)']

    def bounds(self, tier):
        return dict(dimensions={k: [str(v) for v in d] for k, d in DIMS.items()}, deviations=2 if tier == 'quick' else 3, malformed=BAD)

    def cases(self, tier):
        k = 2 if tier == 'quick' else 3
        out = [dict(part='good', **c) for b in (dict(), dict(model='brown'), dict(model='fisheye', rot=2, trans=1))
               for c in space.deviations(DIMS, k, base=b)]
        out = space.unique(out)
        out += [dict(part='zones', lat=la) for la in (-80.0, -1e-12, 0.0, 56.5, 75.0, 84.0)]
        out += [dict(part='bad', kind=b, ints=i) for b in BAD for i in ('rec', 'cameras')]
        return out

    def camera(self, case):
        base, coef = MODELS[case['model']]
        f = case['focal']
        cam = dict(projection_type=case['model'].upper() if case['case'] == 'UPPER' else case['model'], width=case['size'][0], height=case['size'][1])
        two = ('focal_x' in base) if f in ('usual', 'other') else True
        if f == 'other':
            two = not two
        cam.update(dict(focal_x=0.93, focal_y=0.9304 if f == 'near xy' else 1.07 if f == 'unequal xy' or (f == 'usual' and case['model'] == 'brown') else 0.93) if two else dict(focal=0.93))
        if 'c_x' in base and case['drop'] != 'c':
            cam.update({k: v for k, v in dict(c_x=0.013, c_y=-0.021).items() if k != case['drop']})
        use = list(coef)
        if case['drop'] == 'all':
            use = []
        elif case['drop'] == 'first':
            use = use[1:]
        elif case['drop'] == 'last':
            use = use[:-1]
        cam.update({k: COEF[k] for k in use})
        return cam

    def build(self, case):
        cam = self.camera(case)
        ids = {'plain': ('cam', 'cam'), 'v2 both': ('v2 cam', 'v2 cam'), 'v2 camera': ('v2 cam', 'cam'), 'v2 shot': ('cam', 'v2 cam'),
               'v2 twice': ('v2 v2 cam', 'v2 v2 cam'), 'v2 inside': ('cam v2 b', 'cam v2 b'), 'vendor': ('vx cam', 'vx cam'),
               'unicode': ('c\u00fcm \u6f22 0.66', 'c\u00fcm \u6f22 0.66')}[case['ids']]
        cams = {ids[0]: cam, 'v2 other': dict(projection_type='perspective', width=9, height=7, focal=2.0)}
        shots = {}
        for n in range(case['shots']):
            shots[f'im{n}.tif'] = dict(rotation=list(ROT[(case['rot'] + 2 * n) % len(ROT)]), translation=list(TRANS[(case['trans'] + n) % len(TRANS)]),
                                       camera=ids[1])
        ref = REFS[case['ref']]
        rec = dict(cameras=cams, shots=shots, reference_lla=dict(latitude=ref[0], longitude=ref[1], altitude=37.5))
        if case['extra'] == 'yes':
            rec['points'] = {'1': dict(coordinates=[0.0, 0.0, 0.0])}
            rec['biases'] = {}
            for s in shots.values():
                s.update(gps_position=[1.0, 2.0, 3.0], orientation=1)
        return rec, cam, ids

    def run_case(self, case, tally, scratch):
        if case['part'] == 'zones':
            return self.run_zones(case, tally, scratch)
        if case['part'] == 'bad':
            return self.run_bad(case, tally, scratch)
        import rasterio as rio
        from orthority.factory import FrameCameras
        from orthority.param_io import OsfmReader, read_osfm_int_param
        from rasterio.warp import transform

        case = dict(case, size=tuple(case['size']))
        rec, cam, ids = self.build(case)
        f = scratch / 'reconstruction.json'
        f.write_text(json.dumps([rec]))
        g = scratch / 'cameras.json'
        g.write_text(json.dumps(rec['cameras']))
        lat, lon = REFS[case['ref']]
        auto = zone(lat, lon)
        crs = {'none': None, 'utm': f'EPSG:{auto}', 'str': f'EPSG:{auto}', 'next zone': f'EPSG:{auto // 100 * 100 + auto % 100 % 60 + 1}',
               'vertical': f'EPSG:{auto}+5773'}[case['crs']]
        kw = {}
        if crs:
            kw['crs'] = crs if case['crs'] == 'str' else rio.CRS.from_string(crs)
        lla_crs = 'EPSG:4326'
        if case['lla'] != 'default':
            lla_crs = 'EPSG:4230'
            kw['lla_crs'] = lla_crs
        what = f'{json.dumps(rec)[:400]} with {kw}'
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if case['ints'] == 'reader':
                    r = OsfmReader(str(f), **kw)
                    facs = FrameCameras(r.read_int_param(), r.read_ext_param())
                    got_crs = r.crs
                    direct = read_osfm_int_param(str(f))
                    if direct != r.read_int_param() or direct != read_osfm_int_param(str(g)):
                        raise core.Violation(f'interior parameters differ between files for {what}', 'int')
                else:
                    facs = FrameCameras(str(f if case['ints'] == 'rec' else g), str(f), io_kwargs=kw)
                    got_crs = facs.crs
                cams = {n: facs.get(n).world_to_pixel for n in rec['shots']} if case['shots'] == 1 else None
                want_crs = rio.CRS.from_string(crs or f'EPSG:{auto}')
                if got_crs != want_crs:
                    raise core.Violation(f'CRS {got_crs}, not {want_crs} for {what}', 'crs')
                if list(facs.filenames) != list(rec['shots']) and set(facs.filenames) != set(rec['shots']):
                    raise core.Violation(f"images {facs.filenames} for {what}", 'names')
                ref = np.ravel(transform(lla_crs, want_crs, [lon], [lat], [37.5])).reshape(3, 1)
                for n, s in rec['shots'].items():
                    c = facs.get(n)
                    if tuple(c.im_size) != tuple(case['size']):
                        raise core.Violation(f'image size {c.im_size} for {what}', 'size')
                    R, t = rodrigues(s['rotation']), np.array(s['translation']).reshape(3, 1)
                    topo = R.T @ (PTS - t)  # camera = R * world + t
                    want = osfm_project(cam, PTS)
                    got = c.world_to_pixel(topo + ref)
                    if not np.allclose(got, want, rtol=0, atol=1e-4):
                        raise core.Violation(f'{n}: pixels {got.tolist()}, not {want.tolist()} for {what}', 'project')
                    tally.add(transitions=PTS.shape[1])
        except core.Violation:
            raise
        except Exception as ex:
            raise core.Violation(f'{core._describe(ex)} for {what}', 'error')
        tally.add(states=1, executions=1, traces=1)
        tally.outcome(case['model'], case['crs'], case['ints'])
        del cams

    def run_zones(self, case, tally, scratch):
        """Automatic CRS of reference points all round the globe."""
        from orthority.param_io import OsfmReader

        lons = sorted({z + e for z in range(-180, 181, 3) for e in (0.0, 1e-9, -1e-9, 1.5) if -180 <= z + e <= 180})
        f = scratch / 'r.json'
        for lon in lons:
            rec = dict(cameras={}, shots={}, reference_lla=dict(latitude=case['lat'], longitude=lon, altitude=0.0))
            rec['cameras'] = {'c': dict(projection_type='brown', width=2, height=2, focal=1.0)}
            rec['shots'] = {'a': dict(rotation=[0.0] * 3, translation=[0.0] * 3, camera='c')}
            f.write_text(json.dumps([rec]))
            got = OsfmReader(str(f)).crs
            want = zone(case['lat'], lon)
            if got.to_epsg() != want:
                raise core.Violation(f"CRS at {case['lat']}, {lon} is {got}, not EPSG:{want}", 'zone')
            tally.add(states=1, executions=1, transitions=1, traces=1)
            tally.outcome('zone', want)

    def run_bad(self, case, tally, scratch):
        """Malformed files are reported as ParamError that names the file."""
        from orthority.errors import ParamError
        from orthority.param_io import OsfmReader, read_osfm_int_param

        rec, cam, ids = self.build(space.default(DIMS))
        k = case['kind']
        text = None
        shot = rec['shots']['im0.tif']
        cams_bad = True
        if k in ('no projection_type', 'no width', 'no height', 'no focal'):
            cam.pop(k[3:])
        elif k == 'only focal_x':
            cam['focal_x'] = cam.pop('focal')
        elif k == 'unknown model':
            cam['projection_type'] = 'magic'
        elif k == 'rpc':
            cam['projection_type'] = 'rpc'
        elif k == 'spherical':
            cam['projection_type'] = 'spherical'
        elif k == 'unknown key':
            cam['k9'] = 0.5
        elif k == 'camera not dict':
            rec['cameras']['cam'] = [1.0]
        elif k == 'cameras list':
            rec['cameras'] = [cam]
        elif k == 'not json':
            text = '{"a": '
        elif k == 'empty':
            text = ''
        else:
            cams_bad = False
            if k in ('no cameras', 'no shots', 'no reference_lla'):
                rec.pop(k[3:])
            elif k == 'no rotation':
                shot.pop('rotation')
            elif k == 'no translation':
                shot.pop('translation')
            elif k == 'no shot camera':
                shot.pop('camera')
            elif k == 'short rotation':
                shot['rotation'] = [0.0, 0.0]
            elif k == 'int rotation':
                shot['rotation'] = None
            elif k == 'text rotation':
                shot['rotation'] = ['a', 'b', 'c']
            elif k == 'text latitude':
                rec['reference_lla']['latitude'] = 'x'
            elif k == 'no altitude':
                rec['reference_lla'].pop('altitude')
            elif k == 'shots list':
                rec['shots'] = [shot]
            elif k == 'not a list':
                text = json.dumps(rec)
            elif k == 'empty list':
                text = '[]'
        if case['ints'] == 'cameras':
            if not cams_bad:
                return
            text = json.dumps(rec['cameras']) if text is None else text
        text = json.dumps([rec]) if text is None else text
        f = scratch / 'bad file.json'
        f.write_text(text)
        reader = OsfmReader if case['ints'] == 'rec' else read_osfm_int_param
        try:
            reader(str(f))
        except ParamError as ex:
            if 'bad file.json' not in str(ex):
                raise core.Violation(f'{k}: the message does not name the file: {ex}', 'message')
        except Exception as ex:
            raise core.Violation(f'{k}: {core._describe(ex)} and not ParamError', 'bad')
        else:
            raise core.Violation(f'{k}: no error', 'bad')
        tally.add(states=1, executions=1, transitions=1, traces=1)
        tally.outcome('bad', k)


CHECK = C15()
