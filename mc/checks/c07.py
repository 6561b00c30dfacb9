"""C07: a camera factory gives each image the camera its own parameters define, whatever was asked of it before."""
from __future__ import annotations

import copy
import itertools
import json
import warnings
from pathlib import Path

import numpy as np
import yaml

from mc import cliscene, core, data, scenes

SIZES = {'A': (20, 14), 'B': (16, 18), 'C': (18, 12)}
FRAME_OPS = ['get a.tif', 'get b.tif', 'get c.tif', 'get d', 'get e.tif', 'get f.tif', 'get h.tif', 'get i.v2', 'missing', 'nocam', 'write']
RPC_OPS = ['get p.tif', 'get q', 'get r.tif', 'missing', 'refine p', 'refine all', 'refine file', 'refine images', 'refine bad', 'refine few', 'refine drift',
           'write']
FORMS = ['str', 'dir', 'path', 'uri', 'ofile', 'dataset', 'memory']
SOURCES = ['csv xyz', 'csv rad', 'csv lla', 'osfm', 'osfm ofile', 'exif', 'geojson', 'dict']
WORLD = [None, 'EPSG:32634', 'EPSG:32635', 'obj 32635', '+proj=utm +zone=35 +datum=WGS84', 'none']
CAM_KW = [{}, dict(distort=False), dict(distort=False, alpha=0.0)]


class C07(core.Check):
    pid = 'C07'
    rule = (
        'one execution = one sequence of calls on a camera factory; after every call the returned camera and all earlier ones are '
        'compared, by their projections, with cameras built directly from the parameters the sequence implies; states = (factory, '
        'call) pairs, transitions = compared cameras'
    )
    assumptions = ['refine_rpc() itself is judged by C19; here it is the oracle for the effect of refine()']

    def bounds(self, tier):
        return dict(depth=4 if tier == 'quick' else 5, frame=FRAME_OPS, rpc=RPC_OPS, forms=FORMS)

    def cases(self, tier):
        out = []
        for src in ('dict', 'file'):
            for kw in range(len(CAM_KW)):
                d = (4 if kw == 0 else 3) if tier == 'quick' else (5 if kw == 0 and src == 'dict' else 4)
                for seq in itertools.product(range(len(FRAME_OPS)), repeat=d - 2):
                    out.append(dict(kind='frame', src=src, kw=kw, prefix=list(seq), depth=d if src == 'dict' else 2))
        for seq in itertools.product(range(len(FRAME_OPS)), repeat=1):
            out.append(dict(kind='frame', src='single', kw=0, prefix=list(seq), depth=3))
        d = 4 if tier == 'quick' else 5
        for src in ('dict', 'file'):
            for seq in itertools.product(range(len(RPC_OPS)), repeat=d - 2):
                out.append(dict(kind='rpc', src=src, kw=0, prefix=list(seq), depth=d if src == 'dict' else max(d - 1, 2)))
        for kind in ('frame', 'rpc'):
            out.append(dict(kind='forms', fac=kind))
        out += [dict(kind='io', src=s, crs=c) for s in SOURCES for c in WORLD]
        return out

    def setup(self, scratch, tier):
        from orthority.enums import CameraType

        self.dir = scratch / 'inp'
        self.dir.mkdir()
        types = dict(A=('pinhole', {}), B=('brown', scenes.INT['brown']), C=('fisheye', scenes.INT['fisheye']))
        self.int = {}
        for k, (t, p) in types.items():
            w, h = SIZES[k]
            self.int[k] = dict(cam_type=CameraType(t), im_size=(w, h), focal_len=40.0, sensor_size=(36.0, 36.0 * h / w), **p)
        P = cliscene.POSES

        def ext(k, cam, dz=0.0):
            (x, y, z), opk = P[k]
            return dict(xyz=(x, y, z + dz), opk=tuple(opk), camera=cam)

        self.ext = {
            'a.tif': ext(0, 'A'), 'b.tif': ext(1, 'A'), 'c.tif': ext(2, 'B'), 'd': ext(0, 'B', 7), 'e.tif': ext(1, 'C', 3),
            # a full name takes precedence over a stem; f.tif is near a.tif
            'f.tif': dict(ext(2, 'A'), xyz=(P[0][0][0] + 2.5, P[0][0][1] - 1.5, P[0][0][2] + 0.001)), 'f': ext(2, 'C', 17),
            # same position as, and other orientation than a.tif; same orientation and other position than c.tif
            'h.tif': dict(ext(0, 'A'), opk=P[1][1]), 'i.v2': ext(2, 'B', 5),
        }
        self.bad_ext = {'g.tif': ext(0, 'Z')}
        self.rpc = {n: dict(cam_type=CameraType.rpc, im_size=(20, 14), rpc=scenes.make_rpc((20, 14), lon=21 + 0.0003 * i,
                    gsd_deg=(1.3e-4, 7e-5))) for i, n in enumerate(['p.tif', 'q', 'r.tif'])}
        for v in self.rpc.values():
            for k in ('err_bias', 'err_rand'):
                v['rpc'].pop(k)
        self.gcps = {n: self.make_gcps(r, 0.6 + 0.2 * i) for i, (n, r) in enumerate(self.rpc.items())}
        # files, written by hand
        (self.dir / 'int.yaml').write_text(json.dumps({k: dict({a: b for a, b in v.items() if a != 'cam_type'},
                                                               type=v['cam_type'].value) for k, v in self.int.items()}))
        feats = []
        for n, e in {**self.ext, **self.bad_ext}.items():
            lla = cliscene.to_lla(e['xyz'])
            feats.append(dict(type='Feature', properties=dict(filename=n, camera=e['camera'], xyz=e['xyz'], opk=e['opk']),
                              geometry=dict(type='Point', coordinates=[lla[1], lla[0], lla[2]])))
        (self.dir / 'ext.geojson').write_text(json.dumps(dict(type='FeatureCollection', world_crs=data.UTM, features=feats)))
        (self.dir / 'rpc.yaml').write_text(json.dumps({k: {a: b for a, b in v.items() if a != 'cam_type'}
                                                       for k, v in self.rpc.items()}))
        feats = [dict(type='Feature', properties=dict(filename=n, ji=g['ji'], id=g['id'], info=g['info']),
                      geometry=dict(type='Point', coordinates=g['xyz'])) for n, gs in self.gcps.items() for g in gs]
        (self.dir / 'gcps.geojson').write_text(json.dumps(dict(type='FeatureCollection', features=feats)))
        (self.dir / 'bad.geojson').write_text('{"type": "nonsense"}')
        from rasterio.control import GroundControlPoint

        self.im_gcps = {}
        for i, n in enumerate(['p.tif', 'q.tif']):
            key = 'q' if n == 'q.tif' else n
            gs = self.make_gcps(self.rpc[key], -0.4 - 0.3 * i)
            self.im_gcps[n] = gs
            g = [GroundControlPoint(row=v['ji'][1], col=v['ji'][0], x=v['xyz'][0], y=v['xyz'][1], z=v['xyz'][2],
                                    id=v['id'], info='') for v in gs]
            data.write_image(self.dir / n, data.texture(1, 14, 20), gcps=(g, 'EPSG:4979'))
        for n in ('a.tif', 'd.tif', 'r.tif', 'f.tif'):
            data.write_image(self.dir / n, data.texture(1, 14, 20))
        self.pts = np.array([[data.X0 + dx, data.Y0 + dy, z] for dx, dy, z in
                             [(0, 0, 0), (20, -13, 25), (-31, 22, 8), (12, 30, 40), (-15, -25, -5)]], float).T
        self.ll = np.array([[21.0 + dx, 55.94 + dy, z] for dx, dy, z in
                            [(0, 0, 20), (3e-4, -2e-4, 40), (-5e-4, 1e-4, 10), (6e-4, 2e-4, 60)]], float).T
        self.fp = {}

    @staticmethod
    def make_gcps(r, shift):
        from orthority.camera import RpcCamera

        cam = RpcCamera(r['im_size'], r['rpc'])
        ji = np.array([[2.0, 3.0], [17.0, 2.0], [4.0, 11.0], [16.0, 12.0], [10.0, 7.0]]).T
        xyz = cam.pixel_to_world_z(ji, np.array([20.0, 25.0, 30.0, 22.0, 28.0]))
        return [dict(ji=(float(ji[0, i] + shift), float(ji[1, i] - 0.5 * shift)), xyz=tuple(float(v) for v in xyz[:, i]),
                     id=f'g{i}', info='') for i in range(5)]

    # ------------------------------------------------------------------------------------ observations
    def look(self, cam, kind):
        """What a user sees of a camera."""
        if kind == 'frame':
            return (type(cam).__name__, tuple(cam.im_size), bool(cam.distort), float(cam.alpha) if hasattr(cam, 'alpha') else None,
                    cam.world_to_pixel(self.pts), cam.pixel_to_world_z(np.array([[1.0, 9, 15], [2, 7, 10]]), 10.0))
        return type(cam).__name__, tuple(cam.im_size), cam.world_to_pixel(self.ll)

    @staticmethod
    def eq(a, b):
        return all(np.allclose(x, y, rtol=0, atol=1e-5) if isinstance(x, np.ndarray) else x == y for x, y in zip(a, b))

    def want_frame(self, name, kw, single=False):
        from orthority.camera import create_camera

        key = (name, kw, single)
        if key not in self.fp:
            e = self.ext[name]
            cam = create_camera(**copy.deepcopy(self.int['A' if single else e['camera']]), xyz=e['xyz'], opk=e['opk'], **CAM_KW[kw])
            self.fp[key] = self.look(cam, 'frame')
        return self.fp[key]

    def want_rpc(self, im_size, rpc):
        from orthority.camera import RpcCamera

        return self.look(RpcCamera(im_size, rpc), 'rpc')

    # ------------------------------------------------------------------------------------ run
    def run_case(self, case, tally, scratch):
        if case['kind'] == 'forms':
            return self.run_forms(case, tally)
        if case['kind'] == 'io':
            return self.run_io(case, tally, scratch)
        ops = FRAME_OPS if case['kind'] == 'frame' else RPC_OPS
        found = {}
        prefix = [ops[i] for i in case['prefix']][:case['depth']]
        for rest in itertools.product(ops, repeat=max(0, case['depth'] - len(prefix))):
            seq = prefix + list(rest)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                try:
                    getattr(self, 'seq_' + case['kind'])(case, seq, tally, scratch, found)
                except core.Violation as v:
                    found.setdefault(v.key, v)
        core.raise_all(found)

    def seq_frame(self, case, seq, tally, scratch, found):
        from orthority.errors import ParamError
        from orthority.factory import FrameCameras

        exts, all_int = {**self.ext, **self.bad_ext}, self.int
        single = case['src'] == 'single'
        if single:
            # one camera, which images need not name
            exts = {k: dict(v, camera=None if k in self.ext else 'Z') for k, v in exts.items()}
            all_int = {'A': self.int['A']}
        if case['src'] != 'file':
            ints, ext = copy.deepcopy(all_int), copy.deepcopy(exts)
            fac = FrameCameras(ints, ext, io_kwargs=dict(crs=data.UTM), cam_kwargs=dict(CAM_KW[case['kw']]))
        else:
            ints = ext = None
            fac = FrameCameras(str(self.dir / 'int.yaml'), str(self.dir / 'ext.geojson'), cam_kwargs=dict(CAM_KW[case['kw']]))
        held = []
        wrote = None
        for n, op in enumerate(seq):
            where = f'{op}, call {n} of {seq}'
            if op.startswith('get'):
                name = op[4:]
                cam = fac.get(name if name.endswith('.tif') else name + '.tif')
                if not self.eq(self.look(cam, 'frame'), self.want_frame(name, case['kw'], single)):
                    raise core.Violation(f'{where}: not the camera of this image\'s parameters', 'get')
                held.append((name, cam))
            elif op in ('missing', 'nocam'):
                try:
                    fac.get('zz.tif' if op == 'missing' else 'g.tif')
                except ParamError:
                    pass
                else:
                    raise core.Violation(f'{where}: ParamError expected', op)
            elif op == 'write':
                out = scratch / 'w'
                out.mkdir(exist_ok=True)
                fac.write_param(out, overwrite=True)
                got = {f: (out / f).read_text() for f in ('int_param.yaml', 'ext_param.geojson')}
                y, j = yaml.safe_load(got['int_param.yaml']), json.loads(got['ext_param.geojson'])
                want = {k: json.loads(json.dumps(dict({a: b for a, b in v.items() if a != 'cam_type'}, type=v['cam_type'].value)))
                        for k, v in all_int.items()}
                if json.loads(json.dumps(y)) != want:
                    raise core.Violation(f'{where}: interior parameters not those given', 'write-int')
                pe = {f['properties']['filename']: f['properties'] for f in j['features']}
                if set(pe) != set(exts) or any(tuple(pe[k]['xyz']) != tuple(v['xyz']) or tuple(pe[k]['opk']) != tuple(v['opk'])
                                               or pe[k]['camera'] != v['camera'] for k, v in exts.items()):
                    raise core.Violation(f'{where}: exterior parameters not those given', 'write-ext')
                if wrote is not None and got != wrote:
                    raise core.Violation(f'{where}: wrote something else than before', 'write-again')
                wrote = got
            if set(fac.filenames) != set(exts):
                raise core.Violation(f'{where}: filenames is {sorted(fac.filenames)}', 'names')
            if ints is not None and (ints != all_int or ext != exts):
                raise core.Violation(f'{where}: the dictionaries passed in were changed', 'dict-changed')
            # cameras handed out before
            for k, (name, cam) in enumerate(held[:-1] if op.startswith('get') else held):
                if not self.eq(self.look(cam, 'frame'), self.want_frame(name, case['kw'], single)):
                    last = held[-1][0]
                    alias = op.startswith('get') and last != name and exts[last]['camera'] == exts[name]['camera'] and \
                        cam is held[-1][1]
                    key = 'alias frame' if alias or any(cam is c for m, c in held[k + 1:] if m != name) else 'held'
                    found.setdefault(key, core.Violation(f'{where}: the camera returned for {name} changed', key))
                tally.add(transitions=1)
            tally.add(states=1, transitions=1)
        tally.add(executions=1, traces=1)
        tally.outcome('frame', case['src'], case['kw'], seq[-1])

    def seq_rpc(self, case, seq, tally, scratch, found):
        from orthority.errors import OrthorityError, ParamError
        from orthority.factory import RpcCameras
        from orthority.fit import refine_rpc

        if case['src'] == 'dict':
            rpc = copy.deepcopy(self.rpc)
            fac = RpcCameras(rpc)
        else:
            rpc = None
            fac = RpcCameras(str(self.dir / 'rpc.yaml'))
        cur = {n: copy.deepcopy(v['rpc']) for n, v in self.rpc.items()}
        gcps = None
        held = []
        for n, op in enumerate(seq):
            where = f'{op}, call {n} of {seq}'
            if op.startswith('get'):
                name = op[4:]
                cam = fac.get(name if name != 'q' else 'some/q.tif')
                want = self.want_rpc((20, 14), copy.deepcopy(cur[name]))
                if not self.eq(self.look(cam, 'rpc'), want):
                    raise core.Violation(f'{where}: not the camera of this image\'s (refined) parameters', 'get')
                held.append((name, cam, want))
            elif op == 'missing':
                try:
                    fac.get('zz.tif')
                except ParamError:
                    pass
                else:
                    raise core.Violation(f'{where}: ParamError expected', op)
            elif op == 'refine bad':
                try:
                    fac.refine(str(self.dir / 'bad.geojson'))
                except ParamError:
                    pass
                else:
                    raise core.Violation(f'{where}: ParamError expected', op)
            elif op == 'refine few':
                # the last image has too few GCPs
                few = {k: v if k != 'r.tif' else v[:1] for k, v in copy.deepcopy(self.gcps).items()}
                try:
                    fac.refine(few, fit_kwargs=dict(method='shift-drift'))
                except (ValueError, OrthorityError):
                    pass
                else:
                    raise core.Violation(f'{where}: an error is expected', op)
            elif op.startswith('refine'):
                how = op[7:]
                kw = {}
                if how == 'p':
                    new = {'p.tif': self.gcps['p.tif']}
                    arg = copy.deepcopy(new)
                elif how == 'drift':
                    # found by name without extension
                    kw = dict(method='shift-drift')
                    new = {'p': self.gcps['p.tif'], 'r.tif': self.gcps['r.tif']}
                    arg = copy.deepcopy(new)
                elif how == 'all':
                    new, arg = self.gcps, copy.deepcopy(self.gcps)
                elif how == 'file':
                    new, arg = self.gcps, str(self.dir / 'gcps.geojson')
                else:
                    new, arg = self.im_gcps, [str(self.dir / k) for k in self.im_gcps]
                fac.refine(arg, **(dict(fit_kwargs=dict(kw)) if kw else {}))
                if isinstance(arg, dict) and arg != new:
                    raise core.Violation(f'{where}: the GCP dictionary passed in was changed', 'gcps-changed')
                gcps = new
                for k in cur:
                    g = new.get(k, new.get(Path(k).stem))
                    if how == 'images' and k == 'q':
                        g = None  # GCPs of q.tif: an image key without its suffix does not match
                    if g:
                        cur[k] = refine_rpc(copy.deepcopy(cur[k]), g, **kw)
            elif op == 'write':
                out = scratch / 'w'
                out.mkdir(exist_ok=True)
                for f in out.iterdir():
                    f.unlink()
                fac.write_param(out)
                y = yaml.safe_load((out / 'rpc_param.yaml').read_text())
                for k, v in cur.items():
                    if k not in y or tuple(y[k]['im_size']) != (20, 14) or any(
                            not np.allclose(y[k]['rpc'][a], b, rtol=1e-6, atol=1e-9) for a, b in v.items() if b is not None):
                        raise core.Violation(f'{where}: RPC parameters of {k} not the current ones', 'write-rpc')
                gf = out / 'gcps.geojson'
                if gf.exists() != bool(gcps):
                    raise core.Violation(f'{where}: GCP file written: {gf.exists()}', 'write-gcps')
                if gcps:
                    j = json.loads(gf.read_text())
                    have = {}
                    for f in j['features']:
                        have.setdefault(f['properties']['filename'], []).append(
                            (tuple(np.round(f['properties']['ji'], 6)), tuple(np.round(f['geometry']['coordinates'], 9))))
                    want = {k: [(tuple(np.round(g['ji'], 6)), tuple(np.round(g['xyz'], 9))) for g in v] for k, v in gcps.items()}
                    if have != want:
                        raise core.Violation(f'{where}: GCPs written are not those of the last refinement', 'write-gcps')
            if set(fac.filenames) != set(self.rpc):
                raise core.Violation(f'{where}: filenames is {sorted(fac.filenames)}', 'names')
            if rpc is not None and rpc != self.rpc:
                raise core.Violation(f'{where}: the dictionary passed in was changed', 'dict-changed')
            for name, cam, want in held:
                if not self.eq(self.look(cam, 'rpc'), want):
                    raise core.Violation(f'{where}: the camera returned for {name} changed', 'held')
                tally.add(transitions=1)
            tally.add(states=1, transitions=1)
        tally.add(executions=1, traces=1)
        tally.outcome('rpc', case['src'], seq[-1], gcps is None)

    def run_forms(self, case, tally):
        """Each way of naming an image; history of two, as the second finds the first one's camera."""
        import fsspec
        import rasterio as rio
        from orthority.factory import FrameCameras, RpcCameras

        from contextlib import ExitStack

        names = ['a.tif', 'd', 'f.tif'] if case['fac'] == 'frame' else ['p.tif', 'q', 'r.tif']
        fs = fsspec.filesystem('memory')
        found = {}
        for (n1, f1), (n2, f2) in itertools.product(itertools.product(names, FORMS), repeat=2):
            if case['fac'] == 'frame':
                fac = FrameCameras(copy.deepcopy(self.int), copy.deepcopy(self.ext))
            else:
                fac = RpcCameras(copy.deepcopy(self.rpc))
            with ExitStack() as st:
                for n, f in ((n1, f1), (n2, f2)):
                    fn = n if n.endswith('.tif') else n + '.tif'
                    p = self.dir / fn
                    if f == 'str':
                        arg = fn
                    elif f == 'dir':
                        arg = f'/no/such/place/{fn}'
                    elif f == 'path':
                        arg = Path('rel') / fn
                    elif f == 'uri':
                        arg = f'https://host/dir/{fn}'
                    elif f == 'ofile':
                        arg = fsspec.open(str(p), 'rb')
                    elif f == 'memory':
                        fs.pipe('/d/' + fn, p.read_bytes())
                        arg = fsspec.open('memory://d/' + fn, 'rb')
                    else:
                        with warnings.catch_warnings():
                            warnings.simplefilter('ignore')
                            arg = st.enter_context(rio.open(p))
                    cam = fac.get(arg)
                    got = self.look(cam, case['fac'])
                    want = self.want_frame(n, 0) if case['fac'] == 'frame' else self.want_rpc((20, 14), self.rpc[n]['rpc'])
                    if not self.eq(got, want):
                        found.setdefault('form ' + f, core.Violation(
                            f'get({arg!r}) after {n1} as {f1}: not the camera of this image', 'form ' + f))
                    tally.add(states=1, transitions=1)
            tally.add(executions=1, traces=1)
        core.raise_all(found)

    def run_io(self, case, tally, scratch):
        """Each source of parameters with each world CRS, with the position it gives every image."""
        import fsspec
        import rasterio as rio
        from orthority.factory import FrameCameras
        from rasterio.warp import transform

        src, crs, d = case['src'], case['crs'], scratch / 'io'
        obj = rio.CRS.from_epsg(32635) if crs == 'obj 32635' else crs
        kw = {} if crs is None else dict(crs=None if crs == 'none' else obj)
        given = rio.CRS.from_user_input(obj) if crs not in (None, 'none') else None
        auto = rio.CRS.from_string(data.UTM)
        for sub in (list(range(1, 4)) if src in ('osfm', 'exif', 'csv xyz') else [3]):
            for c in CAM_KW:
                for order in itertools.permutations(range(sub)):
                    kw2 = dict(kw)
                    if src.startswith('osfm'):
                        inp = cliscene.odm(d / 'od', sub)
                        rec = fsspec.open(inp['rec'], 'rt') if src == 'osfm ofile' else inp['rec']
                        fac = FrameCameras(rec, rec, io_kwargs=kw2, cam_kwargs=c)
                        names, want = [f'od{k}.tif' for k in range(sub)], given or auto
                    elif src == 'exif':
                        inp = cliscene.exif(d / 'ex', sub)
                        fac = FrameCameras.from_images(inp['srcs'], io_kwargs=kw2, cam_kwargs=c)
                        names, want = [f'ex{k}.tif' for k in range(sub)], given or auto
                    elif src == 'dict':
                        inp = cliscene.frame(d / 'fr', sub)
                        fac = FrameCameras(inp['int'], {f'im{k}.tif': dict(xyz=cliscene.POSES[k][0], opk=cliscene.POSES[k][1],
                                                        camera='cam A') for k in range(sub)}, io_kwargs=kw2, cam_kwargs=c)
                        names, want = [f'im{k}.tif' for k in range(sub)], given
                    else:
                        inp = cliscene.frame(d / 'fr', sub)
                        names, want = [f'im{k}.tif' for k in range(sub)], given
                        if src == 'geojson':
                            path, want = inp['ext'], auto  # the file has its own CRS
                        elif src == 'csv xyz':
                            path = inp['csv']
                        else:
                            path = str(d / 'fr' / 'alt.csv')
                            rows = ['filename,x,y,z,omega,phi,kappa,camera' if src == 'csv rad' else
                                    'filename,latitude,longitude,altitude,roll,pitch,yaw,camera']
                            for k in range(sub):
                                xyz, opk = cliscene.POSES[k]
                                v = [*xyz, *opk] if src == 'csv rad' else [*cliscene.to_lla(xyz), 1.0, -2.0, 15.0 * k]
                                rows.append(','.join([names[k], *(repr(float(x)) for x in v), 'cam A' if k != 1 else 'cam B']))
                            Path(path).write_text('\n'.join(rows) + '\n')
                            if src == 'csv rad':
                                kw2['radians'] = True
                            else:
                                want = given or auto
                        fac = FrameCameras(inp['int'], path, io_kwargs=kw2, cam_kwargs=c)
                    if kw2 != dict(kw, **(dict(radians=True) if src == 'csv rad' else {})):
                        raise core.Violation(f'{case}: io_kwargs was changed', 'io kwargs')
                    if (fac.crs is None) != (want is None) or (want is not None and fac.crs != want):
                        raise core.Violation(f'{case}: world CRS is {fac.crs}, not {want}', 'io crs')
                    if set(fac.filenames) != set(names):
                        raise core.Violation(f'{case}: filenames is {sorted(fac.filenames)}', 'io names')
                    for k in order:
                        cam = fac.get(names[k])
                        xyz, opk = cliscene.POSES[k]
                        moved = src in ('csv lla', 'exif', 'osfm', 'osfm ofile')
                        exp = np.array(transform(auto, want, *([v] for v in xyz))).ravel() if moved else np.array(xyz)
                        # an OpenSfM position is an offset from a reference: the convergence of the other zone may be left out
                        tol = 2.0 if src.startswith('osfm') and want != auto else 0.02
                        if not np.allclose(np.ravel(cam.pos), exp, rtol=0, atol=tol):
                            raise core.Violation(f'{case}: position of {names[k]} is {np.ravel(cam.pos)}, not {exp}', 'io position')
                        if want in (None, auto) and not src.endswith('lla') and src != 'exif':
                            # orientation: the axis of the camera
                            jc, ic = (np.array(cam.im_size) - 1) / 2
                            axis = cliscene.opk_matrix(opk) @ np.array([0, 0, -1.0])
                            p = cam.world_to_pixel((np.array(xyz) + 100 * axis)[:, None]).ravel()
                            if np.any(np.abs(p - [jc, ic]) > 1.5):
                                raise core.Violation(f'{case}: orientation of {names[k]}: {p}', 'io orientation')
                        tally.add(states=1, transitions=1)
                    tally.add(executions=1, traces=1)
        tally.outcome('io', src, crs)


CHECK = C07()
