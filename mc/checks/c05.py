"""C05: nothing that exists is replaced or altered unless asked: overwrite histories over outputs, and inputs."""
from __future__ import annotations

import itertools
import warnings
from pathlib import Path

import numpy as np

from mc import cliscene, core, data, scenes

PRODUCTS = ['ortho-a', 'ortho-b', 'pan', 'int', 'ext', 'rpc', 'gcps']
REJECTS = ['ortho-dtype', 'pan-index', 'ext-crs']
OPS = [(p, o) for p in PRODUCTS + REJECTS for o in (False, True)]
INITIAL = ['absent', 'garbage', 'empty', 'ortho-b', 'int']
KINDS = ['str', 'path', 'ofile', 'memstr', 'memofile', 'uri']
RASTER = ('ortho-a', 'ortho-b', 'pan', 'ortho-dtype', 'pan-index')
GARBAGE = b'II*\x00 not really a tiff \x00\x01\x02' * 40

# CLI commands, with the outputs each makes
CLI = {
    'frame': ['im0_ORTHO.tif', 'im1_ORTHO.tif'],
    'exif': ['ex0_ORTHO.tif', 'ex1_ORTHO.tif'],
    'odm': ['od0_ORTHO.tif', 'od1_ORTHO.tif'],
    'odm-default': ['od0_ORTHO.tif', 'od1_ORTHO.tif'],
    'rpc': ['rp0_ORTHO.tif', 'rp1_ORTHO.tif'],
    'sharpen': ['ps.tif'],
    'frame-e': ['int_param.yaml', 'ext_param.geojson'],
    'exif-e': ['int_param.yaml', 'ext_param.geojson'],
    'odm-e': ['int_param.yaml', 'ext_param.geojson'],
    'rpc-e': ['rpc_param.yaml', 'gcps.geojson'],
}


def content(b: bytes):
    """Comparable content of a product's bytes."""
    if b[:2] in (b'II', b'MM') and b != GARBAGE:
        from rasterio.io import MemoryFile

        with MemoryFile(b) as m:
            return data.file_state(m.name)
    return b


class C05(core.Check):
    pid = 'C05'
    rule = (
        'one execution = one sequence of write operations on a target path (or one factory / CLI export or run on a directory '
        'with some outputs already there); after every operation the whole tree is compared with a model in which an operation '
        'replaces an existing file only when overwriting was asked for; states = (tree, operation) pairs, transitions = operations'
    )
    assumptions = ['sidecar files of an overwritten image (.aux.xml, .msk, .ovr) are not judged']

    def bounds(self, tier):
        return dict(operations=len(OPS), depth=2 if tier == 'quick' else 3, initial=INITIAL, kinds=KINDS, cli=list(CLI))

    def cases(self, tier):
        out = []
        for name, outs in CLI.items():
            for r in range(len(outs) + 1):
                for sub in itertools.combinations(outs, r):
                    for o in (False, True):
                        out.append(dict(part='cli', cmd=name, there=list(sub), overwrite=o))
        for fac in ('frame', 'rpc', 'rpc-gcp'):
            outs = CLI['frame-e'] if fac == 'frame' else CLI['rpc-e']
            for kind in KINDS:
                out.append(dict(part='factory', fac=fac, kind=kind, outs=outs))
        for part in range(16):
            out.append(dict(part='torn', shard=part, step=97 if tier == 'quick' else 7))
        for kind in KINDS:
            for init in INITIAL:
                for first in range(len(OPS)):
                    out.append(dict(part='hist', kind=kind, init=init, first=first, depth=2))
        if tier == 'thorough':
            for init in INITIAL:
                for first in range(len(OPS)):
                    for second in range(len(OPS)):
                        out.append(dict(part='hist', kind='str', init=init, first=first, second=second, depth=3))
        return out

    # ------------------------------------------------------------------------------------ setup
    def setup(self, scratch, tier):
        from orthority.camera import create_camera  # noqa: F401
        from orthority.ortho import Ortho
        from orthority.pan_sharp import PanSharpen
        from orthority.enums import CameraType

        self.inp = scratch / 'inputs'
        sc = scenes.ortho_scene(self._mk(self.inp / 'sc'), size=(20, 14), bands=2)
        scenes.memo_boundary(sc['camera'])
        self.orth = Ortho(sc['src'], sc['dem'], sc['camera'], sc['crs'])
        self.res = sc['res']
        pan = cliscene.pan(self.inp / 'pan')
        self.pan = PanSharpen(pan['pan'], pan['ms'])
        self.params = dict(
            int={'cam x': dict(cam_type=CameraType.pinhole, im_size=(20, 14), focal_len=1.1)},
            ext={'a.tif': dict(xyz=(data.X0, data.Y0, 200.0), opk=(0.1, 0.2, 0.3), camera='cam x')},
            rpc={'a.tif': dict(cam_type=CameraType.rpc, im_size=(20, 14), rpc=scenes.make_rpc((20, 14)))},
            gcps={'a.tif': [dict(ji=(1.0, 2.0), xyz=(21.0, 55.9, 20.0), id='1', info='x')]},
        )
        self.fresh = {}
        d = self._mk(scratch / 'fresh')
        for p in PRODUCTS:
            self.apply(p, False, str(d / p))
            self.fresh[p] = content((d / p).read_bytes())
        if len({repr(v)[:4000] if isinstance(v, bytes) else hash(v) for v in self.fresh.values()}) != len(PRODUCTS):
            raise core.Violation('the products of different operations are not distinct', 'fresh')
        self.made = {}
        self.inputs = cliscene.snapshot(self.inp)

    @staticmethod
    def _mk(d):
        d.mkdir(parents=True, exist_ok=True)
        return d

    def apply(self, op, overwrite, target):
        from orthority import param_io

        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if op == 'ortho-a':
                self.orth.process(target, resolution=self.res, overwrite=overwrite)
            elif op == 'ortho-b':
                self.orth.process(target, resolution=(self.res[0] * 2, self.res[1] * 2), dtype='float32', build_ovw=False,
                                  overwrite=overwrite)
            elif op == 'ortho-dtype':
                self.orth.process(target, resolution=self.res, dtype='int32', overwrite=overwrite)
            elif op == 'pan':
                self.pan.process(target, overwrite=overwrite)
            elif op == 'pan-index':
                self.pan.process(target, pan_index=7, overwrite=overwrite)
            elif op == 'int':
                param_io.write_int_param(target, self.params['int'], overwrite=overwrite)
            elif op == 'ext':
                param_io.write_ext_param(target, self.params['ext'], data.UTM, overwrite=overwrite)
            elif op == 'ext-crs':
                param_io.write_ext_param(target, self.params['ext'], 'EPSG:4326', overwrite=overwrite)
            elif op == 'rpc':
                param_io.write_rpc_param(target, self.params['rpc'], overwrite=overwrite)
            elif op == 'gcps':
                param_io.write_gcps(target, self.params['gcps'], overwrite=overwrite)
            else:
                raise AssertionError(op)

    def target(self, kind, path, mode):
        """``path`` is a local Path, or a memory:// path string for the mem kinds."""
        import fsspec

        if kind in ('str', 'memstr'):
            return str(path)
        if kind == 'path':
            return Path(path)
        if kind == 'uri':
            return 'file://' + str(path)
        return fsspec.open(str(path), mode)

    def run_case(self, case, tally, scratch):
        getattr(self, 'run_' + case['part'])(case, tally, scratch)
        if cliscene.snapshot(self.inp) != self.inputs:
            raise core.Violation('an input file or its directory was changed', 'inputs')

    # ------------------------------------------------------------------------------------ histories
    def run_hist(self, case, tally, scratch):
        import fsspec

        mem = case['kind'].startswith('mem')
        prefix = [OPS[case['first']]] + ([OPS[case['second']]] if 'second' in case else [])
        rest = case['depth'] - len(prefix)
        found = {}
        for last in itertools.product(OPS, repeat=rest):
            seq = prefix + list(last)
            if mem:
                fs = fsspec.filesystem('memory')
                fs.store.clear()
                fs.pseudo_dirs[:] = ['']
                path = 'memory://out/prod.tif'
                fs.pipe('/out/bystander.tif', b'bystander')
                put = lambda b: fs.pipe('/out/prod.tif', b)  # noqa: E731
                tree = lambda: {k: v.getvalue() for k, v in fs.store.items()}  # noqa: E731
                name = '/out/prod.tif'
            else:
                root = self._mk(scratch / 'out')
                for f in root.iterdir():
                    f.unlink()
                path = root / 'prod.tif'
                (root / 'bystander.tif').write_bytes(b'bystander')
                put = path.write_bytes
                tree = lambda: {str(k): v for k, v in cliscene.snapshot(root).items()}  # noqa: E731
                name = 'prod.tif'
            # raw model: bytes of every file known to be there; the target's content in addition
            if case['init'] == 'garbage':
                put(GARBAGE)
            elif case['init'] == 'empty':
                put(b'')
            elif case['init'] != 'absent':
                p = scratch / 'init'
                self.apply(case['init'], True, str(p))
                put(p.read_bytes())
            before = tree()
            for n, (op, ovw) in enumerate(seq):
                exists = name in before
                mode = 'wb' if op in RASTER else 'wt'
                err = None
                try:
                    self.apply(op, ovw, self.target(case['kind'], path, mode))
                except Exception as ex:
                    err = ex
                after = tree()
                where = f"{op} overwrite={ovw}, step {n} of {seq} on {case['init']} ({case['kind']})"
                if op in REJECTS:
                    if err is None:
                        found.setdefault('accepted ' + op, core.Violation(f'{where}: should have been rejected', 'accepted ' + op))
                        break
                    if after != before:
                        found.setdefault('reject-changed ' + op, core.Violation(
                            f'{where}: rejected ({core._describe(err)}) but the output directory changed', 'reject-changed ' + op))
                        break
                elif exists and not ovw:
                    if not isinstance(err, FileExistsError):
                        what = 'replaced' if err is None else f'raised {core._describe(err)}'
                        found.setdefault('no-error ' + op, core.Violation(
                            f'{where}: existing file, FileExistsError expected but {what}', 'no-error ' + op))
                        break
                    if after != before:
                        found.setdefault('refuse-changed ' + op, core.Violation(
                            f'{where}: refused, but the output directory changed', 'refuse-changed ' + op))
                        break
                else:
                    if err is not None:
                        found.setdefault('error ' + op, core.Violation(f'{where}: raised {core._describe(err)}', 'error ' + op))
                        break
                    if {k: v for k, v in after.items() if k != name} != {k: v for k, v in before.items() if k != name}:
                        found.setdefault('other ' + op, core.Violation(
                            f'{where}: changed other files: {sorted(set(after) ^ set(before))}', 'other ' + op))
                        break
                    if name not in after or content(after[name]) != self.fresh[op]:
                        found.setdefault('product ' + op, core.Violation(
                            f'{where}: the file is not what the operation writes to a new file', 'product ' + op))
                        break
                before = after
                tally.add(states=1, transitions=1)
                tally.outcome(op, ovw, exists, type(err).__name__)
            tally.add(executions=1, traces=1)
        core.raise_all(found)

    # ------------------------------------------------------------------------------------ torn files
    def run_torn(self, case, tally, scratch):
        """Overwriting what an interrupted earlier run left: every prefix (in steps) of each kind of product."""
        found = {}
        for was in ('ortho-a', 'ortho-b', 'pan', 'ext'):
            p = scratch / 'was'
            self.apply(was, True, str(p))
            full = p.read_bytes()
            cuts = sorted({*range(0, min(len(full), 64), 3), *range(64, len(full), case['step'])})
            for cut in cuts[case['shard']::16]:
                for op in ('ortho-a', 'pan', 'ext'):
                    t = scratch / 'torn.tif'
                    for ovw in (False, True):
                        t.write_bytes(full[:cut])
                        where = f'{op} overwrite={ovw} on the first {cut} of {len(full)} bytes of {was}'
                        err = None
                        try:
                            self.apply(op, ovw, str(t))
                        except Exception as ex:
                            err = ex
                        if not ovw and (not isinstance(err, FileExistsError) or t.read_bytes() != full[:cut]):
                            found.setdefault('torn-kept', core.Violation(f'{where}: not refused ({err!r}) or changed', 'torn-kept'))
                        if ovw and err is not None:
                            found.setdefault('torn', core.Violation(f'{where}: {core._describe(err)}', 'torn'))
                        elif ovw and content(t.read_bytes()) != self.fresh[op]:
                            found.setdefault('torn-product', core.Violation(f'{where}: wrong product', 'torn-product'))
                        tally.add(states=1, transitions=1, executions=1, traces=1)
        core.raise_all(found)

    # ------------------------------------------------------------------------------------ factories
    def run_factory(self, case, tally, scratch):
        import fsspec
        from orthority.factory import FrameCameras, RpcCameras

        mem = case['kind'].startswith('mem')
        fs = fsspec.filesystem('memory')
        if case['fac'] == 'frame':
            src = cliscene.frame(self._mk(scratch / 'in'))
            cams = FrameCameras(src['int'], src['ext'])
        else:
            src = cliscene.rpc(self._mk(scratch / 'in'))
            cams = RpcCameras(src['rpc'])
            if case['fac'] == 'rpc-gcp':
                from orthority import param_io

                cams.refine(param_io.read_im_gcps(src['srcs']))
        made = case['outs'] if case['fac'] != 'rpc' else case['outs'][:1]
        fresh = None
        found = {}
        for r in range(len(made) + 1):
            for sub in itertools.combinations(made, r):
                for ovw in (False, True):
                    if mem:
                        fs.store.clear()
                        fs.pseudo_dirs[:] = ['']
                        path = 'memory://out'
                        put = lambda n, b: fs.pipe('/out/' + n, b)  # noqa: E731
                        tree = lambda: {k.split('/')[-1]: v.getvalue() for k, v in fs.store.items()}  # noqa: E731
                    else:
                        path = self._mk(scratch / 'out')
                        for f in path.iterdir():
                            f.unlink()
                        put = lambda n, b: (path / n).write_bytes(b)  # noqa: E731
                        tree = lambda: cliscene.snapshot(path)  # noqa: E731
                    put('bystander', b'x')
                    for n in sub:
                        put(n, b'old ' * 4000)
                    before = tree()
                    err = None
                    try:
                        cams.write_param(self.target(case['kind'], path, 'rt'), overwrite=ovw)
                    except Exception as ex:
                        err = ex
                    after = tree()
                    where = f"{case['fac']}.write_param overwrite={ovw}, {sub} already there ({case['kind']})"
                    if sub and not ovw:
                        if not isinstance(err, FileExistsError):
                            found.setdefault('no-error', core.Violation(f'{where}: FileExistsError expected, got {err!r}', 'no-error'))
                        elif any(after.get(n) != before[n] for n in before) or set(after) - set(before) - set(made):
                            found.setdefault('changed', core.Violation(f'{where}: existing files were changed', 'changed'))
                    elif err is not None:
                        found.setdefault('error', core.Violation(f'{where}: {core._describe(err)}', 'error'))
                    else:
                        fresh = fresh or after
                        if after != fresh or set(after) != {'bystander', *made} or after['bystander'] != b'x':
                            found.setdefault('product', core.Violation(f'{where}: not the files written to a new directory', 'product'))
                    tally.add(states=1, transitions=1, executions=1, traces=1)
                    tally.outcome(case['fac'], sub, ovw, type(err).__name__)
        core.raise_all(found)

    # ------------------------------------------------------------------------------------ CLI
    def args(self, cmd, d, out):
        base, exp = (cmd[:-2], ['-e']) if cmd.endswith('-e') else (cmd, [])
        if base == 'frame':
            s = cliscene.frame(d, 2)
            a = ['frame', '-ip', s['int'], '-ep', s['ext'], *(['-d', s['dem'], '-r', 9] if not exp else []), '-od', out, *s['srcs']]
        elif base == 'exif':
            s = cliscene.exif(d, 2)
            a = ['exif', *(['-d', s['dem'], '-r', 9] if not exp else []), '-od', out, *s['srcs']]
        elif base in ('odm', 'odm-default'):
            s = cliscene.odm(d, 2)
            a = ['odm', '-dd', s['dir'], *(['-r', 9] if not exp else []), *(['-od', out] if base == 'odm' else [])]
        elif base == 'rpc':
            s = cliscene.rpc(d, 2)
            a = ['rpc', '-gr', 'tags', *(['-d', s['dem'], '-r', 9] if not exp else []), '-c', data.UTM, '-od', out, *s['srcs']]
        else:
            s = cliscene.pan(d)
            a = ['sharpen', '-p', s['pan'], '-ms', s['ms'], '-of', out / 'ps.tif']
        return [str(v) for v in [a[0], *exp, *a[1:]]]

    def run_cli(self, case, tally, scratch):
        from click.testing import CliRunner
        from orthority.cli import cli

        d, outs = scratch / 'in', CLI[case['cmd']]
        out = self._mk(d / 'orthority' if case['cmd'] == 'odm-default' else scratch / 'out')
        argv = self.args(case['cmd'], d, out)
        old = data.write_image(scratch / 'old.tif', data.texture(1, 9, 9, 'float32'))
        old = Path(old).read_bytes()
        for n in case['there']:
            (out / n).write_bytes(old)
        (out / 'bystander.tif').write_bytes(b'x')
        before = cliscene.snapshot(scratch)
        res = CliRunner().invoke(cli, argv + (['-o'] if case['overwrite'] else []))
        after = cliscene.snapshot(scratch)
        where = f"oty {case['cmd']} overwrite={case['overwrite']}, {case['there']} already there"
        rel = {str((out / n).relative_to(scratch)): n for n in outs}
        for k in sorted(set(before) | set(after)):
            if k not in rel and before.get(k) != after.get(k):
                raise core.Violation(f'{where}: {k} was changed', 'cli-other')
        if case['there'] and not case['overwrite']:
            if res.exit_code == 0:
                raise core.Violation(f'{where}: exit status 0 although outputs exist', 'cli-no-error')
            for k, n in rel.items():
                if n in case['there'] and after.get(k) != old:
                    raise core.Violation(f'{where}: existing {k} was changed', 'cli-replaced')
        else:
            if res.exit_code != 0:
                raise core.Violation(f'{where}: exit status {res.exit_code}: {res.output[-300:]}', 'cli-error')
            for k in rel:
                if not after.get(k) or after[k] == old:
                    raise core.Violation(f'{where}: {k} was not written', 'cli-missing')
        tally.add(states=1, transitions=len(outs), executions=1, traces=1)
        tally.outcome(case['cmd'], case['there'], case['overwrite'], res.exit_code)


CHECK = C05()
