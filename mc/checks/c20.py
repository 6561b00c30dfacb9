"""C20: an oty command writes, for each image, what the documented API calls write; anything else is a non-zero exit."""
from __future__ import annotations

import itertools
import json
import logging
import warnings
from contextlib import ExitStack
from pathlib import Path

import numpy as np

from mc import cliscene, core, data, space

ALL = ['0', '1', '2']
COMMON = dict(
    order=['012', '20', '1', 'glob', '2 glob'],
    r=[(9,), None, (8, 11), (9, 9)],
    i=[None, 'nearest', 'average', 'lanczos', 'bilinear'],
    di=[None, 'nearest', 'bilinear'],
    pb=[None, 'true', 'false'],
    wm=[None, 'true', 'false'],
    dt=[None, 'uint16', 'float32', 'float64', 'int16'],
    cm=[None, 'deflate', 'lzw', 'jpeg'],
    bo=[None, 'false', 'true'],
    co=[None, [('compress', 'lzw'), ('tiled', 'yes'), ('blockxsize', '32'), ('blockysize', '16')], [('COMPRESS', 'DEFLATE'), ('predictor', '2')],
        [('tiled', 'no')], [('compress', 'none'), ('tiled', 'on')], [('compress', 'Packbits'), ('interleave', 'BAND'), ('tiled', 'False')],
        [('compress', 'deflate'), ('zlevel', '9'), ('bigtiff', 'YES')]],
    dv=[None, 'cog', 'gtiff'],
)
FRAME_KW = dict(fr=[None, 'false', 'true'], a=[None, '0', '0.5'])
DIMS = {
    'frame': dict(COMMON, **FRAME_KW, db=[None, '2'], ep=['geojson', 'csv', 'csv-rad', 'csv-lla', 'csv-ed50'],
                  c=[None, 'epsg', 'file', 'tif', 'proj', 'egm']),
    'exif': dict({k: v for k, v in COMMON.items()}, **FRAME_KW, db=[None, '2'], c=[None, 'epsg', 'file', 'tif', 'zone35', 'egm'],
                 lc=[None, '4326+5773', '4230']),
    'odm': dict({k: v for k, v in COMMON.items() if k != 'order'}, **FRAME_KW, c=[None, 'epsg', 'zone35']),
    'rpc': dict(COMMON, db=[None, '2'], rp=[None, 'file'], gr=[None, 'tags', 'file', 'TAGS'], rm=[None, 'shift-drift', 'shift'],
                c=['epsg', None, 'file', 'zone35']),
    'sharpen': dict({k: v for k, v in COMMON.items() if k in ('i', 'wm', 'dt', 'cm', 'bo', 'co', 'dv')},
                    pi=[None, '1', '2'], mi=[None, '3 1', '2', '1 2 3'], w=[None, '1 2 3', '0.2 0 0.7', '1 1', '2']),
}
CRS = dict(epsg='EPSG:32634', proj='+proj=utm +zone=34 +datum=WGS84', zone35='EPSG:32635', egm='EPSG:32634+5773')

# command lines that have to be rejected: (command, argument edits)
REJECT = [(cmd, e) for cmd in ('frame', 'exif', 'odm', 'rpc') for e in (
    dict(add=['-r', '1', '-r', '2', '-r', '3']), dict(add=['-c', 'nonsense']), dict(add=['-i', 'nonsense']), dict(add=['-di', 'x']),
    dict(add=['-dt', 'int32']), dict(add=['-cm', 'zip']), dict(add=['-dv', 'png']), dict(add=['-co', 'novalue']),
    dict(od='missing'), dict(add=['-dt', 'float32', '-cm', 'jpeg']), dict(add=['--no-such-option']))]
REJECT += [(cmd, e) for cmd in ('frame', 'exif', 'rpc') for e in (
    dict(add=['-db', '0']), dict(add=['-db', '3']), dict(set={'-d': 'missing.tif'}), dict(drop='-d'), dict(src='missing'),
    dict(src='no-glob'))]
REJECT += [(cmd, e) for cmd in ('frame', 'exif', 'odm') for e in (dict(add=['-a', '2']), dict(add=['-a', '-0.1']))]
REJECT += [('frame', e) for e in (
    dict(set={'-ip': 'missing.yaml'}), dict(set={'-ep': 'missing.geojson'}), dict(set={'-ip': 'dem.tif'}),
    dict(set={'-ep': 'int.yaml'}), dict(drop='-ip'), dict(drop='-ep'), dict(set={'-ep': 'ext.csv'}), dict(add=['-lc', 'EPSG:32634']),
    dict(src='unknown'))]
REJECT += [('exif', e) for e in (dict(add=['-lc', 'EPSG:32634']), dict(add=['-lc', 'x']), dict(src='untagged'))]
REJECT += [('odm', e) for e in (dict(rm='odm_dem/dsm.tif'), dict(rm='opensfm/reconstruction.json'), dict(rm='images/*'),
                                dict(drop='-dd'), dict(set={'-dd': 'missing'}))]
REJECT += [('rpc', e) for e in (dict(add=['-rp', 'missing.yaml']), dict(add=['-gr', 'missing.geojson']), dict(add=['-rm', 'x', '-gr', 'tags']),
                                dict(src='untagged'), dict(add=['-gr', 'tags'], src='nogcp'), dict(add=['-rp', 'dem.tif']))]
REJECT += [('sharpen', e) for e in (
    dict(set={'-p': 'missing.tif'}), dict(set={'-ms': 'missing.tif'}), dict(add=['-pi', '0']), dict(add=['-pi', '3']),
    dict(add=['-mi', '4']), dict(add=['-mi', '0', '-mi', '1']), dict(add=['-w', '-1', '-w', '1', '-w', '1']), dict(add=['-w', '1', '-w', '1']),
    dict(add=['-i', 'x']), dict(add=['-dt', 'int8']), dict(drop='-p'), dict(drop='-ms'), dict(drop='-of'),
    dict(add=['-dt', 'float32', '-cm', 'jpeg']))]


def boolean(v):
    return None if v is None else v == 'true'


def valid(cmd):
    def f(c):
        if c.get('co') and c.get('dv') == 'cog':
            return False
        if c.get('cm') == 'jpeg' and c.get('dt') is not None:
            return False  # 12 bit / unsupported JPEG: C12
        if cmd == 'sharpen' and c.get('cm') == 'jpeg' and c.get('dt') != 'uint8':
            return False
        return True

    return f


class C20(core.Check):
    pid = 'C20'
    rule = (
        'one execution = one oty command line, run in a directory of known inputs; each image it writes is compared with the image '
        'written by the equivalent API calls for that source alone, and rejected command lines must exit non-zero and write no '
        'image; states = command lines, transitions = compared output files'
    )
    assumptions = ['commands are run in process (click test runner), not through the installed script']

    def bounds(self, tier):
        return dict(deviations=2 if tier == 'thorough' else '1, and 2 for the order, interpolation, CRS and data type options',
                    options={k: len(v) for k, v in DIMS.items()}, rejected=len(REJECT), histories=2)

    def cases(self, tier):
        out = []
        for cmd, dims in DIMS.items():
            if tier == 'thorough':
                cs = space.deviations(dims, 2, valid=valid(cmd))
            else:
                cs = space.deviations(dims, 1, valid=valid(cmd))
                pair = [k for k in ('order', 'c', 'ep', 'lc', 'gr', 'rm', 'rp', 'fr', 'a', 'mi', 'w', 'pi', 'db', 'dt') if k in dims]
                cs += space.deviations({k: v for k, v in dims.items() if k in pair}, 2,
                                       base=space.default(dims), valid=valid(cmd))
                cs = space.unique(cs)
            out += [dict(part='run', cmd=cmd, opt=c) for c in cs]
        for cmd, e in REJECT:
            out.append(dict(part='reject', cmd=cmd, edit=e))
        # one image of the batch fails
        for cmd in ('frame', 'exif', 'rpc', 'odm'):
            for k in range(3):
                for how in ('nodem', 'noparam', 'corrupt'):
                    out.append(dict(part='batch', cmd=cmd, bad=k, how=how))
        # images with CRSs of their own, and exterior parameters without one
        for seq in itertools.product('450', repeat=3):
            out.append(dict(part='imcrs', seq=''.join(seq)))
            out.append(dict(part='imcrs', seq=''.join(seq), given='EPSG:32634'))
        for cmd in ('frame', 'exif', 'odm', 'rpc'):
            dims = {k: v for k, v in DIMS[cmd].items() if k in ('order', 'c', 'ep', 'lc', 'rp', 'gr', 'rm')}
            out += [dict(part='export', cmd=cmd, opt=c) for c in space.deviations(dims, 2)]
        # two commands in one process
        seqs = ['frame', 'frame -c 35', 'exif', 'exif -c 35', 'odm', 'odm -c 35', 'rpc', 'rpc -c 35', 'rpc -gr']
        for a, b in itertools.product(seqs, repeat=2):
            out.append(dict(part='pair', first=a, second=b))
        return out

    # ------------------------------------------------------------------------------------ inputs
    def setup(self, scratch, tier):
        self.dir = scratch / 'inp'
        self.sc = dict(frame=cliscene.frame(self.dir / 'frame'), exif=cliscene.exif(self.dir / 'exif'), odm=cliscene.odm(self.dir / 'odm'),
                       rpc=cliscene.rpc(self.dir / 'rpc'))
        for k, s in self.sc.items():
            # a second DEM band, and DEMs that cover all of the images
            import rasterio as rio

            with rio.open(s['dem']) as ds:
                z, c = ds.read(1), ds.transform * (ds.width / 2, ds.height / 2)
            if k != 'odm':
                z = np.stack([z, z + 9.0])
            data.write_dem(s['dem'], z, res=(12.0, 12.0), center=c)
        f = self.dir / 'frame'
        rows = (f / 'ext.csv').read_text().splitlines()
        rad, lla = [rows[0]], ['filename,latitude,longitude,altitude,omega,phi,kappa,camera']
        ed50 = list(lla)
        for k, row in enumerate(rows[1:]):
            v = row.split(',')
            xyz, opk = cliscene.POSES[k]
            rad.append(','.join(v[:4] + [repr(float(a)) for a in opk] + v[7:]))
            lla.append(','.join([v[0], *(repr(float(a)) for a in cliscene.to_lla(xyz)), *v[4:]]))
            ed50.append(','.join([v[0], *(repr(float(a)) for a in cliscene.to_lla(xyz, lla='EPSG:4230')), *v[4:]]))
        for n, r in (('rad', rad), ('lla', lla), ('ed50', ed50)):
            (f / f'ext-{n}.csv').write_text('\n'.join(r) + '\n')
        import rasterio as rio

        (self.dir / 'crs.prj').write_text(rio.CRS.from_epsg(32634).to_wkt())
        p = cliscene.pan(self.dir / 'pan')
        # a second, different pan band
        with rio.open(p['pan']) as ds:
            a, prof = ds.read(1), dict(crs=ds.crs, transform=ds.transform, nodata=0)
        data.write_image(p['pan'], np.stack([a, a[::-1, ::-1]]), **prof)
        self.sc['sharpen'] = p
        # GCP file for the RPC images, other than the tags
        feats = []
        from rasterio.control import GroundControlPoint  # noqa: F401

        for k, s in enumerate(self.sc['rpc']['srcs']):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with rio.open(s) as ds:
                    gs, _ = ds.gcps
            for g in gs:
                feats.append(dict(type='Feature', properties=dict(filename=Path(s).name, ji=[g.col + 1.5, g.row - 2.0], id=g.id, info=''),
                                  geometry=dict(type='Point', coordinates=[g.x, g.y, g.z])))
        (self.dir / 'rpc' / 'gcps.geojson').write_text(json.dumps(dict(type='FeatureCollection', features=feats)))
        # RPC file other than the tags
        params = json.loads((self.dir / 'rpc' / 'rpc.yaml').read_text())
        for v in params.values():
            v['rpc']['line_off'] += 1.0
        (self.dir / 'rpc' / 'rpc.yaml').write_text(json.dumps(params))
        self.cache = {}

    # ------------------------------------------------------------------------------------ running oty
    def oty(self, argv):
        from click.testing import CliRunner
        from orthority.cli import cli

        show, handlers = warnings.showwarning, list(logging.getLogger('orthority').handlers)
        try:
            return CliRunner().invoke(cli, [str(a) for a in argv])
        finally:
            warnings.showwarning = show
            logging.getLogger('orthority').handlers[:] = handlers

    def argv(self, cmd, c, out, root=None):
        """(arguments, indexes of the sources) for a command with the given options."""
        s = self.sc[cmd]
        a = [cmd]
        if cmd in ('frame', 'exif', 'rpc'):
            a += ['-d', s['dem']]
        if cmd == 'frame':
            ep = dict(geojson='ext.geojson', csv='ext.csv').get(c['ep']) or f"ext-{c['ep'][4:]}.csv"
            a += ['-ip', s['int'], '-ep', str(self.dir / 'frame' / ep)]
            if c['ep'] == 'csv-rad':
                a += ['-rd']
            if c['ep'] == 'csv-ed50':
                a += ['-lc', 'EPSG:4230']
            if c['ep'] in ('csv', 'csv-rad') and c.get('c') is None:
                a += ['-c', CRS['epsg']]
        if cmd == 'odm':
            a += ['-dd', s['dir']]
        if cmd == 'sharpen':
            a += ['-p', s['pan'], '-ms', s['ms'], '-of', str(out / 'ps.tif')]
            for k in ('pi', 'mi', 'w'):
                for v in (c.get(k) or '').split():
                    a += ['-' + k, v]
        else:
            a += ['-od', str(out)]
        if c.get('c'):
            a += ['-c', {'file': str(self.dir / 'crs.prj'), 'tif': s.get('dem')}.get(c['c']) or CRS[c['c']]]
        if c.get('lc'):
            a += ['-lc', 'EPSG:' + c['lc']]
        for v in self.res(cmd, c):
            a += ['-r', repr(v)]
        for k in ('i', 'di', 'dt', 'cm', 'dv', 'a', 'db', 'rm'):
            if c.get(k) is not None:
                a += ['-' + k, c[k]]
        for k in ('pb', 'wm', 'bo', 'fr'):
            if c.get(k) is not None:
                a += ['-' + ('' if boolean(c[k]) else 'n') + k]
        for k, v in c.get('co') or ():
            a += ['-co', f'{k}={v}']
        if c.get('rp'):
            a += ['-rp', s['rpc']]
        if c.get('gr'):
            a += ['-gr', c['gr'] if c['gr'].lower() == 'tags' else str(self.dir / 'rpc' / 'gcps.geojson')]
        idx = [0, 1, 2]
        if cmd in ('frame', 'exif', 'rpc'):
            o = c.get('order', '012')
            if o == 'glob':
                a += [str(Path(s['srcs'][0]).parent / (Path(s['srcs'][0]).stem[:2] + '?.tif'))]
            elif o == '2 glob':
                a += [s['srcs'][2], str(Path(s['srcs'][0]).parent / (Path(s['srcs'][0]).stem[:2] + '[01].tif'))]
            else:
                idx = [int(v) for v in o]
                a += [s['srcs'][k] for k in idx]
        return a, idx

    @staticmethod
    def res(cmd, c):
        # degrees for the default CRS of RPC cameras
        return tuple(float(v) * (1.2e-5 if cmd == 'rpc' and c.get('c') is None else 1) for v in c.get('r') or ())

    # ------------------------------------------------------------------------------------ the equivalent API calls
    def reference(self, cmd, c, k, path):
        from orthority.ortho import Ortho
        from orthority.pan_sharp import PanSharpen

        s = self.sc[cmd]
        kw = {}
        for opt, name in (('i', 'interp'), ('di', 'dem_interp'), ('dt', 'dtype'), ('cm', 'compress'), ('dv', 'driver')):
            if c.get(opt) is not None:
                kw[name] = c[opt]
        for opt, name in (('pb', 'per_band'), ('wm', 'write_mask'), ('bo', 'build_ovw')):
            if c.get(opt) is not None:
                kw[name] = boolean(c[opt])
        if c.get('co'):
            kw['creation_options'] = {a.lower(): {'yes': True, 'on': True, 'no': False, 'False': False, 'YES': True, 'none': None}.get(b, int(b) if b.isdigit() else b.lower()) for a, b in c['co']}
        r = self.res(cmd, c)
        if r:
            kw['resolution'] = r if len(r) == 2 else r * 2
        if cmd == 'sharpen':
            if c.get('pi'):
                kw['pan_index'] = int(c['pi'])
            if c.get('mi'):
                kw['ms_indexes'] = [int(v) for v in c['mi'].split()]
            if c.get('w'):
                kw['weights'] = [float(v) for v in c['w'].split()]
            PanSharpen(s['pan'], s['ms']).process(path, **kw)
            return
        src = s['srcs'][k]
        fac, crs = self.factory(cmd, c, [src])
        Ortho(src, s['dem'], fac.get(src), crs, **(dict(dem_band=int(c['db'])) if c.get('db') else {})).process(path, **kw)

    def factory(self, cmd, c, srcs):
        """Camera factory and world CRS."""
        import rasterio as rio
        from orthority.enums import RpcRefine
        from orthority.factory import FrameCameras, RpcCameras

        s = self.sc[cmd]
        crs = {None: None, 'epsg': 'EPSG:32634', 'file': 'EPSG:32634', 'tif': 'EPSG:32634', 'proj': CRS['proj'],
               'zone35': 'EPSG:32635', 'egm': CRS['egm']}[c.get('c')]
        crs = rio.CRS.from_string(crs) if crs else None
        cam_kw = {}
        if c.get('fr') is not None:
            cam_kw['distort'] = boolean(c['fr'])
        if c.get('a') is not None:
            cam_kw['alpha'] = float(c['a'])
        if cmd == 'frame':
            ep = dict(geojson='ext.geojson', csv='ext.csv').get(c['ep']) or f"ext-{c['ep'][4:]}.csv"
            if c['ep'] in ('csv', 'csv-rad') and crs is None:
                crs = rio.CRS.from_epsg(32634)
            io = dict(crs=crs)
            if c['ep'] == 'csv-rad':
                io['radians'] = True
            if c['ep'] == 'csv-ed50':
                io['lla_crs'] = rio.CRS.from_string('EPSG:4230')
            fac = FrameCameras(s['int'], str(self.dir / 'frame' / ep), io_kwargs=io, cam_kwargs=cam_kw)
            crs = crs or fac.crs
        elif cmd == 'exif':
            # the automatic CRS is that of all images; here they are all in one zone
            io = dict(crs=crs, **(dict(lla_crs=rio.CRS.from_string('EPSG:' + c['lc'])) if c.get('lc') else {}))
            fac = FrameCameras.from_images(srcs, io_kwargs=io, cam_kwargs=cam_kw)
            crs = crs or fac.crs
        elif cmd == 'odm':
            crs = crs or rio.CRS.from_epsg(32634)
            fac = FrameCameras(s['rec'], s['rec'], io_kwargs=dict(crs=crs), cam_kwargs=cam_kw)
        else:
            ckw = dict(crs=crs) if crs else {}
            crs = crs or rio.CRS.from_epsg(4979)
            fac = RpcCameras(s['rpc'], cam_kwargs=ckw) if c.get('rp') else RpcCameras.from_images(srcs, cam_kwargs=ckw)
            if c.get('gr'):
                fit = dict(method=RpcRefine(c['rm'])) if c.get('rm') else {}
                fac.refine(srcs if c['gr'].lower() == 'tags' else str(self.dir / 'rpc' / 'gcps.geojson'), fit_kwargs=fit)
        return fac, crs

    def want(self, cmd, c, k, scratch):
        """Observed state of the reference output, or the error it raises; cached by what it can depend on."""
        key = core.jdump([cmd, {a: b for a, b in c.items() if a != 'order'}, k])
        if key not in self.cache:
            p = scratch / 'ref.tif'
            p.unlink(missing_ok=True)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    self.reference(cmd, c, k, str(p))
                self.cache[key] = self.state(p)
            except Exception as ex:
                self.cache[key] = ex
        return self.cache[key]

    @staticmethod
    def state(p):
        import rasterio as rio

        with rio.open(p) as ds:
            extra = (ds.profile.get('tiled'), ds.profile.get('blockxsize'), ds.profile.get('blockysize'), ds.profile.get('interleave'),
                     str(ds.compression), str(ds.photometric), ds.tags(ns='IMAGE_STRUCTURE').get('LAYOUT'),
                     tuple(str(f) for f in ds.mask_flag_enums[0]))
        return data.file_state(p) + extra

    def names(self, cmd):
        return ['ps.tif'] if cmd == 'sharpen' else [Path(s).stem + '_ORTHO.tif' for s in self.sc[cmd]['srcs']]

    # ------------------------------------------------------------------------------------ cases
    def run_case(self, case, tally, scratch):
        before = cliscene.snapshot(self.dir)
        getattr(self, 'run_' + case['part'])(case, tally, scratch)
        if cliscene.snapshot(self.dir) != before:
            raise core.Violation('input files changed', 'inputs')

    def judge(self, cmd, c, idx, out, res, scratch, tally, where):
        names = self.names(cmd)
        idx = [0] if cmd == 'sharpen' else idx
        want = {names[k]: self.want(cmd, c, k, scratch) for k in idx}
        errs = [w for w in want.values() if isinstance(w, Exception)]
        have = sorted(p.name for p in out.iterdir())
        if errs:
            if res.exit_code == 0:
                raise core.Violation(f'{where}: exit status 0 although the API raises {errs[0]!r}', 'exit')
        else:
            if res.exit_code != 0:
                raise core.Violation(f'{where}: exit status {res.exit_code}, {res.output[-300:]} {res.exception!r}', 'fails')
            if have != sorted(want):
                raise core.Violation(f'{where}: wrote {have}, expected {sorted(want)}', 'files')
        for n in have:
            if n not in want:
                raise core.Violation(f'{where}: wrote {n}', 'files')
            if not isinstance(want[n], Exception):
                st = self.state(out / n)
                if st != want[n]:
                    names_ = ['pixels', 'masks', 'count', 'width', 'height', 'dtypes', 'nodata', 'transform', 'crs', 'colorinterp', 'overviews',
                              'tiled', 'blockxsize', 'blockysize', 'interleave', 'compression', 'photometric', 'layout', 'mask flags']
                    diff = [m for m, x, y in zip(names_, st, want[n]) if x != y]
                    raise core.Violation(f'{where}: {n} differs from the API output in {diff}', 'differs')
                tally.add(transitions=1)
        tally.add(states=1, executions=1, traces=len(have))
        tally.outcome(cmd, res.exit_code, len(have))

    def run_run(self, case, tally, scratch):
        out = scratch / 'out'
        out.mkdir()
        a, idx = self.argv(case['cmd'], case['opt'], out)
        res = self.oty(a)
        self.judge(case['cmd'], case['opt'], idx, out, res, scratch, tally, 'oty ' + ' '.join(str(v) for v in a[:40]))

    def run_export(self, case, tally, scratch):
        cmd, c = case['cmd'], case['opt']
        out, ref = scratch / 'out', scratch / 'ref'
        out.mkdir()
        ref.mkdir()
        a, idx = self.argv(cmd, c, out)
        res = self.oty(a + ['-e'])
        where = f'oty {cmd} -e with {c}'
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                fac, _ = self.factory(cmd, c, [self.sc[cmd]['srcs'][k] for k in idx])
                fac.write_param(ref)
            except Exception as ex:
                if res.exit_code == 0:
                    raise core.Violation(f'{where}: exit status 0 although the API raises {ex!r}', 'export-exit')
                tally.add(states=1, executions=1)
                tally.outcome('export', cmd, type(ex).__name__)
                return
        if res.exit_code != 0:
            raise core.Violation(f'{where}: exit status {res.exit_code}, {res.output[-300:]} {res.exception!r}', 'export-fails')
        got, want = cliscene.snapshot(out), cliscene.snapshot(ref)
        norm = lambda t: {k: json.loads(b) if k.endswith('json') else b for k, b in t.items()}  # noqa: E731
        if case['opt'].get('order') == '2 glob':  # order of the files in a pattern's expansion
            got, want = ({k: sorted(b.splitlines()) for k, b in t.items()} for t in (got, want))
            norm = lambda t: {k: [v.rstrip(b',') for v in b] for k, b in t.items()}  # noqa: E731
        if norm(got) != norm(want):
            raise core.Violation(f'{where}: not the parameters the factory writes ({sorted(got)})', 'export')
        tally.add(states=1, executions=1, transitions=len(got), traces=1)
        tally.outcome('export', cmd, sorted(got))

    def run_pair(self, case, tally, scratch):
        for n, spec in enumerate((case['first'], case['second'])):
            cmd, *rest = spec.split(' ', 1)
            c = space.default(DIMS[cmd])
            if rest and rest[0].startswith('-c'):
                if cmd == 'frame':
                    c.update(ep='csv-lla')
                    c['c'] = 'zone35'
                else:
                    c['c'] = 'zone35'
            elif rest:
                c['gr'] = 'tags'
            out = scratch / f'out{n}'
            out.mkdir()
            a, idx = self.argv(cmd, c, out)
            res = self.oty(a)
            self.judge(cmd, c, idx, out, res, scratch, tally, f"oty {spec} as command {n} of {case['first']!r}, {case['second']!r}")

    def run_reject(self, case, tally, scratch):
        import shutil

        cmd, e = case['cmd'], case['edit']
        out = scratch / 'out'
        out.mkdir()
        c = space.default(DIMS[cmd])
        a, _ = self.argv(cmd, c, out)
        base = self.dir / dict(sharpen='pan').get(cmd, cmd)
        if 'rm' in e:
            d = scratch / 'odm'
            shutil.copytree(self.dir / 'odm', d)
            for p in d.glob(e['rm']):
                p.unlink()
            a[a.index('-dd') + 1] = str(d)
        for k, v in e.get('set', {}).items():
            a[a.index(k) + 1] = str(base / v)
        if 'od' in e:
            a[a.index('-od') + 1] = str(scratch / e['od'])
        if 'drop' in e:
            i = a.index(e['drop'])
            del a[i:i + 2]
        if e.get('src'):
            n = len(self.sc[cmd]['srcs'])
            a = a[:-n]
            if e['src'] == 'missing':
                a += [str(base / (Path(self.sc[cmd]['srcs'][0]).name + '.missing.tif'))]
            elif e['src'] == 'no-glob':
                a += [str(base / 'zz*.tif')]
            else:
                bad = data.write_image(scratch / 'other.tif', data.texture(2, 14, 20))
                if e['src'] == 'nogcp':
                    from rasterio.transform import RPC

                    params = json.loads((self.dir / 'rpc' / 'rpc.yaml').read_text())
                    r = next(iter(params.values()))['rpc']
                    bad = data.write_image(scratch / 'other.tif', data.texture(2, 14, 20), rpcs=RPC(**r))
                a += [bad]
        a = a + e.get('add', [])
        a = [str(base / v) if v in ('missing.yaml', 'missing.geojson', 'dem.tif') else v for v in a]
        res = self.oty(a)
        made = [p.name for p in out.iterdir()] + [p.name for p in scratch.glob('missing/*')]
        where = f'oty {cmd} with {e}'
        if res.exit_code == 0:
            raise core.Violation(f'{where}: exit status 0', 'reject')
        if made:
            raise core.Violation(f'{where}: rejected, but wrote {made}', 'reject-files')
        if res.exception is not None and not isinstance(res.exception, SystemExit):
            tally.add(tracebacks=1)
        tally.add(states=1, transitions=1, executions=1, traces=1)
        tally.outcome(cmd, e, res.exit_code)

    def run_imcrs(self, case, tally, scratch):
        """frame: the CRS is that of each image when there is no other (4: UTM 34, 5: UTM 35, 0: none); names with dots."""
        from orthority.factory import FrameCameras
        from orthority.ortho import Ortho
        from rasterio.warp import transform

        d, out = scratch / 'in', scratch / 'out'
        out.mkdir()
        s = cliscene.frame(d)
        rows, srcs, crss = ['filename,x,y,z,omega,phi,kappa,camera'], [], []
        for k, z in enumerate(case['seq']):
            crs = {'4': 'EPSG:32634', '5': 'EPSG:32635', '0': None}[z]
            xyz, opk = cliscene.POSES[k]
            if case.get('given'):
                crs = case['given']
            elif z == '5':
                x, y = transform('EPSG:32634', 'EPSG:32635', [xyz[0]], [xyz[1]])
                xyz = (x[0], y[0], xyz[2])
            rows.append(','.join([f'im.{k}.v.tif', *(repr(float(v)) for v in xyz), *(repr(float(np.degrees(v))) for v in opk),
                                  ['cam A', 'cam B', 'cam A'][k]]))
            own = {'4': 'EPSG:32634', '5': 'EPSG:32635', '0': None}[z]
            srcs.append(cliscene.write_src(d / f'im.{k}.v.tif', k, **(dict(crs=own) if own else {})))
            crss.append(crs)
        (d / 'x.csv').write_text('\n'.join(rows) + '\n')
        res = self.oty(['frame', '-d', s['dem'], '-ip', s['int'], '-ep', d / 'x.csv', '-r', 9, '-od', out,
                        *(['-c', case['given']] if case.get('given') else []), *srcs])
        where = f"oty frame with --crs {case.get('given')}, images in {case['seq']}"
        if (res.exit_code == 0) != (None not in crss):
            raise core.Violation(f'{where}: exit status {res.exit_code} {res.output[-200:]}', 'imcrs-exit')
        for k, crs in enumerate(crss):
            p = out / f'im.{k}.v_ORTHO.tif'
            if not p.exists():
                if res.exit_code == 0:
                    raise core.Violation(f'{where}: {p.name} not written', 'imcrs-missing')
                continue
            if crs is None:
                raise core.Violation(f'{where}: wrote {p.name} although it has no CRS', 'imcrs-none')
            ref = scratch / 'ref.tif'
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                cam = FrameCameras(s['int'], str(d / 'x.csv')).get(srcs[k])
                Ortho(srcs[k], s['dem'], cam, crs).process(str(ref), resolution=(9, 9), overwrite=True)
            if self.state(p) != self.state(ref):
                raise core.Violation(f'{where}: {p.name} is not the ortho in its own CRS', 'imcrs-differs')
            tally.add(transitions=1)
        tally.add(states=1, executions=1, traces=1)
        tally.outcome('imcrs', case['seq'], res.exit_code)

    def run_batch(self, case, tally, scratch):
        """One image of the batch can not be processed."""
        import shutil

        cmd, bad = case['cmd'], case['bad']
        d = scratch / 'in'
        shutil.copytree(self.dir / cmd, d)
        out = scratch / 'out'
        out.mkdir()
        c = space.default(DIMS[cmd])
        a, idx = self.argv(cmd, c, out)
        a = [str(v).replace(str(self.dir / cmd), str(d)) for v in a]
        name = Path(self.sc[cmd]['srcs'][bad]).name
        src = (d / 'images' / name) if cmd == 'odm' else d / name
        if case['how'] == 'corrupt':
            b = src.read_bytes()
            src.write_bytes(b'\0' * 8 + b[8:])
        elif case['how'] == 'noparam':
            if cmd in ('exif', 'rpc'):
                data.write_image(src, data.texture(2, 14, 20))
            elif cmd == 'frame':
                p = d / 'ext.geojson'
                j = json.loads(p.read_text())
                j['features'] = [f for f in j['features'] if f['properties']['filename'] != name]
                p.write_text(json.dumps(j))
            else:
                p = d / 'opensfm' / 'reconstruction.json'
                j = json.loads(p.read_text())
                del j[0]['shots'][name]
                p.write_text(json.dumps(j))
        else:  # far away from the DEM
            if cmd == 'frame':
                p = d / 'ext.geojson'
                j = json.loads(p.read_text())
                for f in j['features']:
                    if f['properties']['filename'] == name:
                        f['properties']['xyz'][0] += 1e5
                p.write_text(json.dumps(j))
            elif cmd == 'odm':
                p = d / 'opensfm' / 'reconstruction.json'
                j = json.loads(p.read_text())
                j[0]['shots'][name]['translation'][0] += 1e5
                p.write_text(json.dumps(j))
            else:
                return  # position is in the image tags
        res = self.oty(a)
        where = f"oty {cmd}, image {bad} of 3: {case['how']}"
        if res.exit_code == 0:
            raise core.Violation(f'{where}: exit status 0', 'batch-exit')
        names = self.names(cmd)
        for p in out.iterdir():
            if p.name not in names or p.name == names[bad]:
                raise core.Violation(f'{where}: wrote {p.name}', 'batch-files')
            k = names.index(p.name)
            w = self.want(cmd, c, k, scratch)
            if self.state(p) != w:
                raise core.Violation(f'{where}: {p.name} differs from the API output', 'batch-differs')
            tally.add(transitions=1)
        tally.add(states=1, executions=1, traces=1)
        tally.outcome(cmd, case['how'], bad, res.exit_code, len(list(out.iterdir())))


CHECK = C20()
