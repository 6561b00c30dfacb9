"""C13: parameter files written by orthority read back as the parameters they were written from."""
from __future__ import annotations

import copy
import itertools
import warnings

import numpy as np

from mc import cliscene, core, data, scenes

IDS = ['cam', 'with space', 'unicode \u00fc \u6f22', '123', 'null', 'yes', '1.5', 'a: b', '# x', 'quote\'"', 'name', 'v2 x', '-', '[x]',
       '2020-01-01', '!tag', '&a', 'x' * 150 + ' ' + 'y' * 50, 'multi\nline', 'tab\tx', '~', '{', 'a,b', '=', '<<', ' lead', 'trail ', 'type',
       'im_size', 'camera']
FILES = ['a.tif', 'a', 'dir.x.tif', 'with space.jpg', 'ünï.tif', '1.tif', 'null', "q'\"uote.tif", 'x' * 120 + '.tif', 'a,b.tif', 'A.TIF', '123']
NUMS = [0.0, -0.25, 1e-05, 1e-17, 1 / 3, 123456789.12345679, -1e300, 5, 0.1 + 0.2, 2.0 ** -1074, -0.0, 1e16, 1e22]
OPT = dict(
    pinhole=['cx', 'cy'], brown=['cx', 'cy', 'k1', 'k2', 'p1', 'p2', 'k3'], fisheye=['cx', 'cy', 'k1', 'k2', 'k3', 'k4'],
    opencv=['cx', 'cy', 'k1', 'k2', 'p1', 'p2', 'k3', 'k4', 'k5', 'k6', 's1', 's2', 's3', 's4', 'tx', 'ty'],
)
FOCAL = [1.1, 35, (35.0, 36.5), (1, 2.0), 1e-05, 1 / 3, (35.0, 35.00001), (0.5, 0.5000000001)]
SENSOR = [None, (36.0, 24.0), (36, 24), (1 / 3, 0.1 + 0.2), (1e-05, 2e-05)]
SIZES = [(20, 14), (1, 1), (100000, 3)]
CRSS = ['EPSG:32634', 'EPSG:32634+5773', '+proj=utm +zone=34 +datum=WGS84 +vunits=us-ft', '+proj=tmerc +lon_0=21.5 +k=0.9999 +x_0=1e5 +ellps=GRS80',
        'EPSG:3857', 'EPSG:2048', 'wkt']
RPC_KEYS = ['height_off', 'height_scale', 'lat_off', 'lat_scale', 'line_off', 'line_scale', 'long_off', 'long_scale', 'samp_off', 'samp_scale']


def same(a, b):
    """Equal values and structure; numbers exactly (int / float alike), sequences of the same kind; images & cameras in order."""
    if isinstance(a, dict):
        return isinstance(b, dict) and (set(a) == set(b) if 'cam_type' in a or 'xyz' in a or 'line_off' in a else list(a) == list(b)) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and not isinstance(a, bool):
        return isinstance(b, (int, float)) and not isinstance(b, bool) and a == b
    return a == b and type(a) is type(b)


def same_crs(a, b):
    """Two CRSs under which the same coordinates are the same place."""
    from rasterio.warp import transform

    if a == b:
        return True
    for x, y, z in ((500000.0, 6200000.0, 100.0), (480000.0, 6250000.0, -20.0)):
        pa, pb = (np.ravel(transform(c, 'EPSG:4979', [x], [y], [z])) for c in (a, b))
        if not np.allclose(pa, pb, rtol=0, atol=1e-9):
            return False
    return True


class C13(core.Check):
    pid = 'C13'
    rule = (
        'one execution = one set of parameters written to a file and read back; the two sets, and the cameras made from them, are '
        'compared exactly; states = parameter sets, transitions = write / read operations'
    )
    assumptions = ['parameter values are finite Python numbers']

    def bounds(self, tier):
        return dict(ids=len(IDS), files=len(FILES), numbers=NUMS, optional=OPT, crs=CRSS, ids_per_file=2 if tier == 'quick' else 3)

    def cases(self, tier):
        out = [dict(part='int', type=t, sub=list(s), nums=6 if tier == 'quick' else len(NUMS)) for t, o in OPT.items()
               for s in [*itertools.combinations(o, 0), *itertools.combinations(o, 1), *itertools.combinations(o, 2), tuple(o)]]
        out += [dict(part='ids', first=i, n=2 if tier == 'quick' else 3) for i in range(len(IDS))]
        out += [dict(part='ext', crs=c) for c in CRSS]
        out += [dict(part='ext-files', first=i, n=2 if tier == 'quick' else 3) for i in range(len(FILES))]
        out += [dict(part='rpc', key=k) for k in [*RPC_KEYS, 'coeff', 'err', 'files', 'size']]
        out += [dict(part='gcps', n=n) for n in range(4)]
        out += [dict(part='factory', kind=k) for k in ('frame', 'csv', 'osfm', 'exif', 'rpc', 'rpc-gcp', 'rpc-im')]
        return out

    # ------------------------------------------------------------------------------------ helpers
    def trip(self, tally, found, key, write, read, params, what, path):
        """Write, read, compare, write again."""
        kept = copy.deepcopy(params)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                write(str(path), params)
                got = read(str(path))
                first = path.read_bytes()
                write(str(path), got)
        except Exception as ex:
            ek = key if key == 'id-camera' else key + ' error'
            found.setdefault(ek, core.Violation(f'{what}: {core._describe(ex)}', ek, dict(params=repr(params)[:300])))
            return
        if not same(kept, params):
            found.setdefault(key + ' changed', core.Violation(f'{what}: writing changed the parameters', key + ' changed'))
        if not same(kept, got):
            found.setdefault(key, core.Violation(f'{what}: read back as {repr(got)[:200]}, not {repr(kept)[:200]}', key))
        elif path.read_bytes() != first:
            found.setdefault(key + ' again', core.Violation(f'{what}: written differently the second time', key + ' again'))
        tally.add(states=1, transitions=3, executions=1, traces=1)
        tally.outcome(key, len(first) % 97)

    def run_case(self, case, tally, scratch):
        from orthority import param_io as pio
        from orthority.enums import CameraType

        self.pio = pio
        found = {}
        p = scratch / 'f.json'
        wi = lambda f, d: pio.write_int_param(f, d, overwrite=True)  # noqa: E731
        base = dict(cam_type=CameraType.pinhole, im_size=(20, 14), focal_len=1.1)
        part = case['part']
        if part == 'int':
            t = case['type']
            for im, fl, ss in itertools.product(SIZES, FOCAL, SENSOR):
                d = dict(cam_type=CameraType(t), im_size=im, focal_len=fl)
                if ss:
                    d['sensor_size'] = ss
                combos = itertools.product(NUMS, repeat=1) if len(case['sub']) > 2 or (im, fl, ss) != (SIZES[0], FOCAL[0], SENSOR[0]) \
                    else itertools.product(NUMS[:case['nums']] if len(case['sub']) > 1 else NUMS, repeat=len(case['sub']))
                for n, vals in enumerate(combos):
                    if (im, fl, ss) != (SIZES[0], FOCAL[0], SENSOR[0]) and n:
                        break
                    vals = (vals * len(case['sub']))[:len(case['sub'])] if len(vals) != len(case['sub']) else vals
                    q = {'c': dict(d, **dict(zip(case['sub'], vals)))}
                    self.trip(tally, found, 'int', wi, pio.read_oty_int_param, q, f"{t} camera with {q}", p)
        elif part == 'ids':
            for rest in itertools.permutations(IDS, case['n'] - 1):
                ids = [IDS[case['first']], *rest]
                if len(set(ids)) < len(ids):
                    continue
                for m in range(1, len(ids) + 1):
                    if m < len(ids) and rest != tuple(IDS[:case['n'] - 1]) and m > 1:
                        continue
                    q = {i: dict(base, im_size=(20 + k, 14), focal_len=1.0 + k) for k, i in enumerate(ids[:m])}
                    key = "id-camera" if 'camera' in q else 'ids'
                    self.trip(tally, found, key, wi, pio.read_oty_int_param, q, f'cameras {ids[:m]}', p)
        elif part in ('ext', 'ext-files'):
            import rasterio as rio

            crss = [case.get('crs', CRSS[0])]
            for crs in crss:
                c = rio.CRS.from_epsg(32634).to_wkt() if crs == 'wkt' else crs
                c = rio.CRS.from_string(c)

                def read(f):
                    r = pio.OtyReader(f)
                    if not same_crs(r.crs, c):
                        raise AssertionError(f'CRS read back as {r.crs}')
                    return r.read_ext_param()

                for form in (c, c.to_wkt()):
                    we = lambda f, d: pio.write_ext_param(f, d, form, overwrite=True)  # noqa: E731
                    if part == 'ext':
                        for v in itertools.product([500000.0, 0.1 + 0.2, 7], [6200000.5, -1 / 3], [222.0, -5, 1e-05]):
                            for o in itertools.product([0.0, 1 / 3, -3], [0.1 + 0.2, -1e-17], [3.141592653589793, 2]):
                                q = {'a.tif': dict(xyz=v, opk=o, camera='x'), 'b': dict(xyz=v[:2] + (1.5,), opk=o[::-1], camera=None)}
                                self.trip(tally, found, 'ext', we, read, q, f'exterior parameters {q} in {crs}', p)
                    else:
                        for rest in itertools.permutations(FILES, case['n'] - 1):
                            fs = [FILES[case['first']], *rest]
                            if len(set(fs)) < len(fs):
                                continue
                            q = {f: dict(xyz=(1.0 * k, 2.0, 3.0), opk=(0.1 * k, 0.2, 0.3), camera=IDS[k]) for k, f in enumerate(fs)}
                            self.trip(tally, found, 'ext-files', we, read, q, f'exterior parameters of {fs}', p)
                        for i in IDS:
                            q = {FILES[case['first']]: dict(xyz=(1.0, 2.0, 3.0), opk=(0.1, 0.2, 0.3), camera=i)}
                            self.trip(tally, found, 'ext-ids', we, read, q, f'exterior parameters with camera {i!r}', p)
        elif part == 'rpc':
            wr = lambda f, d: pio.write_rpc_param(f, d, overwrite=True)  # noqa: E731
            rpc = scenes.make_rpc((20, 14))
            k = case['key']
            qs = []
            if k in RPC_KEYS:
                qs = [{'a.tif': dict(cam_type=CameraType.rpc, im_size=(20, 14), rpc=dict(rpc, **{k: float(v)}))} for v in NUMS]
                if k in ('line_off', 'line_scale', 'samp_off', 'samp_scale'):
                    qs.append({'a.tif': dict(cam_type=CameraType.rpc, im_size=(20, 14), rpc=dict(rpc, **{k: 7}))})
            elif k == 'coeff':
                for name in ('line_num_coeff', 'line_den_coeff', 'samp_num_coeff', 'samp_den_coeff'):
                    for i in range(20):
                        for v in NUMS:
                            a = list(rpc[name])
                            a[i] = float(v)
                            qs.append({'a.tif': dict(cam_type=CameraType.rpc, im_size=(20, 14), rpc=dict(rpc, **{name: a}))})
            elif k == 'err':
                for a, b in itertools.product([None, 0.5, 1e-05], repeat=2):
                    qs.append({'a.tif': dict(cam_type=CameraType.rpc, im_size=(20, 14), rpc=dict(rpc, err_bias=a, err_rand=b))})
                qs.append({'a.tif': dict(cam_type=CameraType.rpc, im_size=(20, 14),
                                         rpc={m: v for m, v in rpc.items() if not m.startswith('err')})})
            elif k == 'files':
                for a, b in itertools.permutations(FILES, 2):
                    qs.append({f: dict(cam_type=CameraType.rpc, im_size=(20 + n, 14), rpc=dict(rpc, lat_off=50.0 + n))
                               for n, f in enumerate((a, b))})
            else:
                qs = [{'a.tif': dict(cam_type=CameraType.rpc, im_size=s, rpc=rpc)} for s in SIZES]
            for q in qs:
                self.trip(tally, found, 'rpc', wr, pio.read_oty_rpc_param, q, f'RPC parameters ({k})', p)
        elif part == 'gcps':
            wg = lambda f, d: pio.write_gcps(f, d, overwrite=True)  # noqa: E731
            if case['n'] == 0:
                for v in itertools.product([0, 1.5, -2.25, 1 / 3], [7, 1e-05], [21.0, -180.0, 0.1 + 0.2], [0.0, -90.0], [12, -1e3, 1 / 3]):
                    for i, info in itertools.product([None, '1', '', 'x y', 'ünï'], [None, 'text', '']):
                        q = {'a.tif': [dict(ji=v[:2], xyz=v[2:], id=i, info=info)]}
                        self.trip(tally, found, 'gcps', wg, pio.read_oty_gcps, q, f'GCPs {q}', p)
            else:
                for fs in itertools.permutations(FILES, min(case['n'], 2)):
                    for counts in itertools.product(range(1, 4), repeat=len(fs)):
                        q = {f: [dict(ji=(1.0 * i, 2.0 * m), xyz=(21.0 + i, 55.0, 1.0), id=str(i), info=None) for i in range(c)]
                             for m, (f, c) in enumerate(zip(fs, counts))}
                        self.trip(tally, found, 'gcps-files', wg, pio.read_oty_gcps, q, f'GCPs of {fs}', p)
        else:
            self.run_factory(case, tally, scratch)
        core.raise_all(found)

    def run_factory(self, case, tally, scratch):
        """Export of a factory read from each format, and the cameras of the exported files."""
        from orthority.factory import FrameCameras, RpcCameras

        kind = case['kind']
        out = scratch / 'out'
        out.mkdir()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if kind in ('frame', 'csv'):
                s = cliscene.frame(scratch / 'in')
                a = FrameCameras(s['int'], s['ext' if kind == 'frame' else 'csv'], **({} if kind == 'frame' else dict(io_kwargs=dict(crs=data.UTM))))
            elif kind == 'osfm':
                s = cliscene.odm(scratch / 'in')
                a = FrameCameras(s['rec'], s['rec'])
            elif kind == 'exif':
                s = cliscene.exif(scratch / 'in')
                a = FrameCameras.from_images(s['srcs'])
            else:
                s = cliscene.rpc(scratch / 'in')
                a = RpcCameras(s['rpc']) if kind == 'rpc' else RpcCameras.from_images(s['srcs'])
                if kind == 'rpc-gcp':
                    a.refine(s['srcs'])
            a.write_param(out)
            if kind.startswith('rpc'):
                b = RpcCameras(out / 'rpc_param.yaml')
            else:
                b = FrameCameras(out / 'int_param.yaml', out / 'ext_param.geojson')
                if not same_crs(a.crs, b.crs):
                    raise core.Violation(f'{kind}: world CRS {a.crs} read back as {b.crs}', 'factory-crs')
            if a.filenames != b.filenames:
                raise core.Violation(f'{kind}: images {a.filenames} read back as {b.filenames}', 'factory-files')
            for f in s['srcs']:
                ca, cb = a.get(f), b.get(f)
                if kind.startswith('rpc'):
                    pts = np.array([[21.0, 21.0003, 20.9996], [55.94, 55.9402, 55.9399], [20.0, 40.0, 10.0]])
                else:
                    pts = np.array([[data.X0, data.X0 + 20, data.X0 - 31], [data.Y0, data.Y0 - 13, data.Y0 + 22], [0.0, 25.0, 8.0]])
                if type(ca) is not type(cb) or ca.im_size != cb.im_size or not np.array_equal(ca.world_to_pixel(pts), cb.world_to_pixel(pts)):
                    raise core.Violation(f'{kind}: camera of {f} is another one after export', 'factory-camera')
                tally.add(transitions=1)
            out2 = scratch / 'out2'
            out2.mkdir()
            b.write_param(out2)
            for q in out2.iterdir():
                if q.read_bytes() != (out / q.name).read_bytes():
                    raise core.Violation(f'{kind}: {q.name} is another one when exported again', 'factory-again')
        tally.add(states=1, executions=1, traces=1)
        tally.outcome(kind)


CHECK = C13()
