"""C25: the legacy simple-ortho command orthorectifies each image with its own pose and the configured camera."""
from __future__ import annotations

import itertools
import json
import logging
import shutil
import warnings
from pathlib import Path

import numpy as np

from mc import core, data, space

SIZE = (20, 14)
CAM = {
    'pinhole': dict(focal_len=40.0, sensor_size=[36.0, 25.2]),
    'brown': dict(focal_len=40.0, sensor_size=[36.0, 25.2], k1=-0.12, k2=0.03, p1=0.004, p2=-0.003, k3=0.01, cx=0.01, cy=-0.02),
    'opencv': dict(focal_len=[1.2, 1.15], k1=-0.10, k2=0.02, p1=0.003, p2=-0.002, k3=0.01),
    'fisheye': dict(focal_len=1.1, k1=-0.05, k2=0.01, k3=-0.004, k4=0.001),
}
# stem, directory, position, (omega, phi, kappa) in degrees
IMS = [
    ('im0', 'one', (data.X0, data.Y0, 222.0), (3.0, -2.0, 17.0)),
    ('im1', 'one', (data.X0 + 25.25, data.Y0 - 12.5, 214.0), (-4.0, 2.0, -70.5)),
    ('im.b2', 'two', (data.X0 - 18.0, data.Y0 + 9.75, 230.0), (1.0, 3.5, 145.0)),
    # near the first, at its position, and with its angles
    ('im3', 'three', (data.X0 + 2.5, data.Y0 - 1.5, 222.001), (-3.0, 2.0, 105.0)),
    ('im4', 'three', (data.X0, data.Y0, 222.0), (-2.5, 1.0, -40.0)),
    ('im5', 'three', (data.X0 - 9.0, data.Y0 + 14.0, 217.0), (3.0, -2.0, 17.0)),
]
UTM, ALT = 'EPSG:32634', 'EPSG:32635'
DIMS = dict(
    src=['0', '1', '01', '10', '02', '20', '012', 'glob', '2 glob', 'glob glob', '0 glob', '03', '40', '05', '304'],
    od=[None, 'new', 'exists'],
    rel=[False, True],
    type=['pinhole', None, 'brown', 'opencv', 'fisheye'],
    cam=[None, 'name', 'principal', 'offset'],
    crs=['epsg', 'wkt', 'proj', 'src', 'over'],
    dem_band=[None, 1, 2],
    interp=[None, 'nearest', 'average', 'lanczos', 'cubic_spline'],
    dem_interp=[None, 'nearest', 'bilinear', 'cubic_spline'],
    full_remap=[None, True, False],
    old=[(), ('driver', 'tile_size', 'nodata', 'interleave', 'photometric'), ('nodata',), ('tile_size',)],
    dtype=[None, 'null', 'uint16', 'float32'],
    compress=[None, 'null', 'deflate', 'lzw'],
    write_mask=[None, 'null', True, False],
    build_ovw=[None, False],
    per_band=[None, True, False],
    resolution=[[9.0, 9.0], [8, 11]],
    rows=['012', '210', 'extra'],
    v=[None, '1', '4'],
    opt=['after', 'before', 'long'],
)
OLD = dict(driver='GTiff', tile_size=[16, 32], nodata=7, interleave='pixel', photometric='ycbcr')
REJECT = ['no-src', 'no-src-2', 'no-glob', 'no-dem', 'no-pos', 'no-conf', 'no-row', 'no-row-2', 'case-row', 'bad-row', 'camera-type',
          'dem-band', 'no-crs', 'no-arg', 'bad-opt', 'dem-apart', 'no-camera', 'interp', 'bad-key', 'corrupt', 'no-parent']


def observed(path):
    return data.file_state(path)


class C25(core.Check):
    pid = 'C25'
    rule = (
        'one execution = one simple-ortho command line and configuration; each image it writes is compared with the image written by '
        'a camera made with that image\'s own pose through the API, and nothing else may be written; states = command lines, '
        'transitions = compared output files'
    )
    assumptions = ['the command is run in process through its entry point', 'API results are decided by other properties']

    def bounds(self, tier):
        return dict(deviations=2 if tier == 'quick' else 3, dimensions={k: len(v) for k, v in DIMS.items()}, rejected=len(REJECT),
                    histories='all pairs of commands on one output, all 1-3 image orders')

    @staticmethod
    def valid(c):
        return True

    def cases(self, tier):
        base = [dict(part='run', opt=c) for c in space.deviations(DIMS, 2, base=dict(src='02'), valid=self.valid)]
        if tier == 'thorough':
            base = [dict(part='run', opt=c) for c in space.deviations(DIMS, 3, base=dict(src='02'), valid=self.valid)]
        # every order of every subset, for each camera and remap
        for n in (1, 2, 3):
            for s in itertools.permutations('012', n):
                for t in CAM:
                    for fr in (True, False):
                        for od in (None, 'new'):
                            base.append(dict(part='run', opt=dict(space.default(DIMS), src=''.join(s), type=t, full_remap=fr, od=od)))
        for n, ids in ((2, '012345'), (3, '0345')):
            for s in itertools.permutations(ids, n):
                for t in ('pinhole', 'brown'):
                    base.append(dict(part='run', opt=dict(space.default(DIMS), src=''.join(s), type=t)))
        base = space.unique(base)
        for r in REJECT:
            for od in (None, 'exists'):
                base.append(dict(part='reject', how=r, od=od))
        for a, b in itertools.product(('none', 'plain', 'other'), (None, True, False)):
            for od in (None, 'exists'):
                base.append(dict(part='over', first=a, overwrite=b, od=od))
        for rc in ('default', 'given'):
            for s in ('0', '01', 'missing'):
                for od in (None, 'new'):
                    base.append(dict(part='conf', rc=rc, src=s, od=od))
        n = 96
        return [dict(group=base[i::n]) for i in range(n)]

    def sample(self, case):
        return case['group'][0]

    # ------------------------------------------------------------------------------------ inputs
    def setup(self, scratch, tier):
        import rasterio as rio

        self.inp = scratch / 'inp'
        self.inp.mkdir(parents=True, exist_ok=True)
        for k, (stem, d, *_ ) in enumerate(IMS):
            a = np.roll(data.texture(2, SIZE[1], SIZE[0]), 3 * k, axis=2)
            for kind, crs in (('plain', None), ('crs', UTM)):
                p = self.inp / kind / d
                p.mkdir(parents=True, exist_ok=True)
                tr = None if crs is None else rio.transform.from_origin(data.X0 - 5, data.Y0 + 5, 1.0, 1.0)
                data.write_image(p / f'{stem}.tif', a, crs=crs, transform=tr)
        z = data.dem_array((44, 48), 'hills')
        data.write_dem(self.inp / 'dem.tif', np.stack([z, z + 9.0]), res=(12.0, 12.0))
        self.wkt = rio.CRS.from_string(UTM).to_wkt()
        # the same world coordinates, declared to be in another zone
        self.cache = {}

    def row(self, k):
        stem, _, xyz, opk = IMS[k]
        return ' '.join([stem, *(repr(float(v)) for v in (*xyz, *opk))])

    def config(self, c):
        cam = dict(im_size=list(SIZE), **CAM[(c['type'] or 'pinhole').lower()])
        if c['type'] is not None:
            cam['type'] = c['type'].lower()
        if c['cam'] == 'name':
            cam['name'] = 'A camera'
        elif c['cam'] == 'principal':
            cam.update(cx=0.03, cy=-0.04)
        elif c['cam'] == 'offset':
            cam.update(cx=0, cy=0.02)
        o = dict(resolution=c['resolution'])
        if c['crs'] != 'src':
            o['crs'] = dict(epsg=UTM, wkt=self.wkt, proj='+proj=utm +zone=34 +datum=WGS84', over=UTM)[c['crs']]
        for k in ('dem_band', 'interp', 'dem_interp', 'full_remap', 'dtype', 'compress', 'write_mask', 'build_ovw', 'per_band'):
            if c[k] is not None:
                o[k] = None if c[k] == 'null' else c[k]
        for k in c['old']:
            o[k] = OLD[k]
        return dict(camera=cam, ortho=o)

    def layout(self, scratch, c):
        """A directory of sources for one command."""
        w = scratch / 'w'
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree(self.inp / ('crs' if c['crs'] in ('src', 'over') else 'plain'), w)
        rows = [self.row(k) for k in range(len(IMS))]
        if c['rows'] == '210':
            rows = rows[::-1]
        if c['rows'] == 'extra':
            rows = ['im0_x 1.0 2.0 3.0 4.0 5.0 6.0', *rows, 'im 1.0 2.0 3.0 4.0 5.0 6.0', 'other 1.0 2.0 3.0 4.0 5.0 6.0']
        (w / 'pos.txt').write_text('\n'.join(rows) + '\n')
        (w / 'conf.yaml').write_text(json.dumps(self.config(c)))
        if c['od'] == 'exists':
            (w / 'out').mkdir()
        return w

    @staticmethod
    def sources(spec, w):
        """(arguments, image indexes)"""
        path = [w / d / f'{stem}.tif' for stem, d, *_ in IMS]
        if spec == 'glob':
            return [w / 'one' / 'im?.tif'], [0, 1]
        if spec == '2 glob':
            return [path[2], w / 'one' / 'im*.tif'], [0, 1, 2]
        if spec == 'glob glob':
            return [w / 'two' / '*.tif', w / 'one' / '*[01].tif'], [0, 1, 2]
        if spec == '0 glob':
            return [path[0], w / 'two' / 'im*.tif'], [0, 2]
        idx = [int(v) for v in spec]
        return [path[k] for k in idx], idx

    def simple_ortho(self, argv):
        from orthority.cli import simple_ortho

        show, lg = warnings.showwarning, logging.getLogger('orthority')
        handlers, level = list(lg.handlers), lg.level
        err, out = None, None
        import contextlib
        import io

        try:
            with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                simple_ortho([str(a) for a in argv])
        except SystemExit as ex:
            err = ex if ex.code not in (None, 0) else None
        except Exception as ex:
            err = ex
        finally:
            warnings.showwarning = show
            lg.handlers[:] = handlers
            lg.setLevel(level)
            logging.captureWarnings(False)
        return err

    def argv(self, c, w, srcs):
        o = []
        long = c['opt'] == 'long'
        o += ['--read-conf' if long else '-rc', w / 'conf.yaml']
        if c['od']:
            o += ['--ortho-dir' if long else '-od', w / 'out']
        if c['v']:
            o += ['--verbosity' if long else '-v', c['v']]
        pos = [*srcs, w / 'dem.tif' if (w / 'dem.tif').exists() else self.inp / 'dem.tif', w / 'pos.txt']
        return o + pos if c['opt'] == 'before' else pos + o

    # ------------------------------------------------------------------------------------ oracle
    def want(self, c, k, scratch):
        """State of the image that the API writes for source k with the configuration."""
        key = json.dumps([{n: c[n] for n in DIMS if n not in ('src', 'od', 'rel', 'rows', 'v', 'opt', 'old')}, k], sort_keys=True)
        if key not in self.cache:
            from orthority.camera import create_camera
            from orthority.ortho import Ortho

            stem, d, xyz, opk = IMS[k]
            cam = dict(self.config(dict(c, type=c['type'] or 'pinhole'))['camera'])
            kind = cam.pop('type')
            cam.pop('name', None)
            size, focal = cam.pop('im_size'), cam.pop('focal_len')
            if kind != 'pinhole':
                cam['distort'] = c['full_remap'] is not False
            camera = create_camera(kind, size, focal, xyz=xyz, opk=tuple(np.radians(v) for v in opk), **cam)
            kw = dict(resolution=tuple(c['resolution']))
            for n in ('interp', 'dem_interp'):
                if c[n] is not None:
                    kw[n] = 'cubic' if c[n] == 'cubic_spline' else c[n]
            for n in ('dtype', 'compress', 'write_mask', 'build_ovw', 'per_band'):
                if c[n] not in (None, 'null'):
                    kw[n] = c[n]
            src = self.inp / ('crs' if c['crs'] in ('src', 'over') else 'plain') / d / f'{stem}.tif'
            out = scratch / 'ref.tif'
            out.unlink(missing_ok=True)
            crs = '+proj=utm +zone=34 +datum=WGS84' if c['crs'] == 'proj' else UTM
            Ortho(src, self.inp / 'dem.tif', camera, crs, dem_band=c['dem_band'] or 1).process(out, **kw)
            self.cache[key] = observed(out)
            out.unlink()
        return self.cache[key]

    def check_files(self, c, w, before, idx, scratch, tally, what):
        after = {p for p in w.rglob('*') if p.is_file()}
        want = {(w / 'out' if c['od'] else w / IMS[k][1]) / (IMS[k][0] + '_ORTHO.tif'): k for k in idx}
        new = after - before
        if new != set(want) - before:
            raise core.Violation(f'{what}: wrote other files than the ortho images', key='files', detail=dict(
                config=c, got=sorted(str(p.relative_to(w)) for p in new), want=sorted(str(p.relative_to(w)) for p in want)))
        for p, k in want.items():
            if observed(p) != self.want(c, k, scratch):
                raise core.Violation(f'{what}: ortho is not that of the image with its own pose and configuration', key='pixels',
                                     detail=dict(config=c, image=IMS[k][0]))
            tally.add(transitions=1)

    # ------------------------------------------------------------------------------------ cases
    def run_case(self, case, tally, scratch):
        import os

        cwd = os.getcwd()
        for c in case['group']:
            try:
                getattr(self, 'part_' + c['part'])(c, tally, scratch)
            except core.Violation as ex:
                ex.detail = dict(ex.detail or {}, case=c)
                raise
            finally:
                os.chdir(cwd)
                shutil.rmtree(scratch / 'w', ignore_errors=True)
            tally.add(states=1, executions=1, traces=1)

    def part_run(self, case, tally, scratch):
        import os

        c = case['opt']
        w = self.layout(scratch, c)
        before = {p for p in w.rglob('*') if p.is_file()}
        digest = {p: p.read_bytes() for p in before}
        if c['rel']:
            os.chdir(w)
            rel = Path('.')
            shutil.copy(self.inp / 'dem.tif', w / 'dem.tif')
            before |= {w / 'dem.tif'}
            srcs, idx = self.sources(c['src'], rel)
            argv = self.argv(c, rel, srcs)
        else:
            srcs, idx = self.sources(c['src'], w)
            argv = self.argv(c, w, srcs)
        err = self.simple_ortho(argv)
        if err is not None:
            raise core.Violation('a valid command failed', key='failed', detail=dict(config=c, error=repr(err)[:300]))
        self.check_files(c, w, before, idx, scratch, tally, 'run')
        for p, b in digest.items():
            if p.read_bytes() != b:
                raise core.Violation('an input file was changed', key='input', detail=dict(config=c, file=p.name))
        tally.outcome(f"{c['src']}:{c['od']}:{c['type']}")

    def part_over(self, case, tally, scratch):
        c = dict(space.default(DIMS), src='02', od=case['od'])
        w = self.layout(scratch, c)
        conf = self.config(c)
        srcs, idx = self.sources(c['src'], w)
        paths = [(w / 'out' if c['od'] else w / IMS[k][1]) / (IMS[k][0] + '_ORTHO.tif') for k in idx]
        if case['first'] == 'plain':
            assert self.simple_ortho(self.argv(c, w, srcs)) is None
        elif case['first'] == 'other':
            for p in paths:
                data.write_image(p, data.texture(1, 9, 7))
        before = {p for p in w.rglob('*') if p.is_file()}
        old = {p: p.read_bytes() for p in paths if p.exists()}
        if case['overwrite'] is not None:
            conf['ortho']['overwrite'] = case['overwrite']
        c2 = dict(c, interp='nearest')
        conf['ortho']['interp'] = 'nearest'
        (w / 'conf.yaml').write_text(json.dumps(conf))
        err = self.simple_ortho(self.argv(c2, w, srcs))
        if case['first'] == 'none' or case['overwrite']:
            if err is not None:
                raise core.Violation('a valid command failed', key='failed', detail=dict(config=case, error=repr(err)[:300]))
            self.check_files(c2, w, before, idx, scratch, tally, 'overwrite')
        else:
            if err is None:
                raise core.Violation('existing ortho overwritten without the overwrite option', key='overwrite', detail=case)
            for p, b in old.items():
                if p.read_bytes() != b:
                    raise core.Violation('existing ortho changed by a refused command', key='overwrite', detail=case)

    def part_conf(self, case, tally, scratch):
        import yaml
        from orthority import root_path

        c = dict(space.default(DIMS), src='01', od=case['od'])
        w = self.layout(scratch, c)
        srcs = [w / 'one' / 'none.tif'] if case['src'] == 'missing' else self.sources(case['src'], w)[0]
        a = [*srcs, self.inp / 'dem.tif', w / 'pos.txt', '-wc', w / 'new.yaml']
        src = root_path / 'config.yaml'
        if case['rc'] == 'given':
            a += ['-rc', w / 'conf.yaml']
            src = w / 'conf.yaml'
        if c['od']:
            a += ['-od', w / 'out']
        before = {p for p in w.rglob('*') if p.is_file()}
        err = self.simple_ortho(a)
        got = {p for p in w.rglob('*') if p.is_file()} - before
        if case['src'] == 'missing':
            if got - {w / 'new.yaml'}:
                raise core.Violation('writing the configuration wrote something else', key='conf', detail=case)
            return
        if err is not None or got != {w / 'new.yaml'}:
            raise core.Violation('writing the configuration failed or wrote something else', key='conf',
                                 detail=dict(case=case, error=repr(err), got=sorted(map(str, got))))
        if yaml.safe_load((w / 'new.yaml').read_text()) != yaml.safe_load(src.read_text()):
            raise core.Violation('written configuration is not the configuration read', key='conf', detail=case)
        tally.add(transitions=1)

    def part_reject(self, case, tally, scratch):
        how = case['how']
        c = dict(space.default(DIMS), src='02', od=case['od'])
        w = self.layout(scratch, c)
        srcs, idx = self.sources('02', w)
        conf = self.config(c)
        dem, pos, rc, extra = self.inp / 'dem.tif', w / 'pos.txt', w / 'conf.yaml', []
        none = [0, 2]  # images that were never started
        if how == 'no-src':
            srcs = [w / 'one' / 'none.tif']
        elif how == 'no-src-2':
            srcs[1] = w / 'two' / 'none.tif'
            none = [2]
        elif how == 'no-glob':
            srcs = [w / 'one' / '*.png']
        elif how == 'no-dem':
            dem = w / 'none.tif'
        elif how == 'no-pos':
            pos = w / 'none.txt'
        elif how == 'no-conf':
            rc = w / 'none.yaml'
        elif how == 'no-row':
            pos.write_text(self.row(1) + '\n')
        elif how == 'no-row-2':
            pos.write_text(self.row(1) + '\n' + self.row(0) + '\n')
            none = [2]
        elif how == 'case-row':
            pos.write_text(pos.read_text().replace('im', 'IM'))
        elif how == 'bad-row':
            pos.write_text(pos.read_text().replace('222.0', 'high'))
        elif how == 'camera-type':
            conf['camera']['type'] = 'plenoptic'
        elif how == 'dem-band':
            conf['ortho']['dem_band'] = 3
        elif how == 'no-crs':
            del conf['ortho']['crs']
        elif how == 'no-arg':
            srcs = []
        elif how == 'bad-opt':
            extra = ['-x', '3']
        elif how == 'dem-apart':
            dem = w / 'apart.tif'
            data.write_dem(dem, data.dem_array((20, 20)), center=(data.X0 + 50000, data.Y0))
        elif how == 'no-camera':
            del conf['camera']
        elif how == 'interp':
            conf['ortho']['interp'] = 'sinc'
            none = [2]  # what is left of an image that failed part way is not specified
        elif how == 'bad-key':
            conf['ortho']['no_such_option'] = 1
        elif how == 'corrupt':
            srcs[1].write_bytes(b'not an image')
            none = [2]
        elif how == 'no-parent':
            extra = ['-od', w / 'a' / 'b']
        (w / 'conf.yaml').write_text(json.dumps(conf))
        a = [*srcs, dem, pos, '-rc', rc]
        if how == 'no-arg':
            a = [dem, pos, '-rc', rc]
        if c['od']:
            a += ['-od', w / 'out']
        err = self.simple_ortho(a + extra)
        if err is None:
            raise core.Violation('a command with invalid inputs succeeded', key='accepted', detail=case)
        for k in none:
            for p in w.rglob(IMS[k][0] + '_ORTHO.tif'):
                raise core.Violation('a failed command left an ortho', key='left over', detail=dict(case=case, file=p.name))


CHECK = C25()
