"""C22: every documented form of a file argument gives the same result, and the caller's objects are left open."""
from __future__ import annotations

import io
import json
import warnings
from itertools import product
from pathlib import Path

import numpy as np

from mc import cliscene, core, data

MEM = '/mcmem'  # not a local path
TEXT = ['str', 'path', 'uri', 'ofile', 'mem', 'memofile', 'fobj', 'sio']
RAST = ['str', 'path', 'uri', 'ofile', 'mem', 'memofile', 'ds', 'ds+']
OUT = ['str', 'path', 'uri', 'ofile']
READERS = ['oty_int', 'osfm_int', 'oty_rpc', 'oty_gcps', 'csv', 'csv_prj', 'osfm_ext', 'oty_ext']
IMREADERS = ['exif_int', 'exif', 'im_rpc', 'im_gcps', 'exif_obj', 'cam_read', 'cam_read_und']
WRITERS = ['int', 'ext', 'rpc', 'gcps']
SUFFIX = dict(oty_ext=['.geojson', '.GEOJSON', '.GeoJSON'], csv=['.csv', '.CSV', '.txt', '.TXT', '.Csv'], csv_prj=['.csv', '.CSV', '.txt', '.TXT'],
              osfm_ext=['.json', '.JSON'])
ERRORS_TEXT = ['closed', 'wmode', 'bmode', 'ofile-w', 'ofile-b', 'none', 'int', 'list', 'missing-str', 'missing-ofile', 'missing-mem']
ERRORS_RAST = ['closed', 'ds-w', 'ofile-t', 'ofile-w', 'none', 'int', 'bytesio', 'missing-str', 'missing-ofile', 'missing-uri']
ERRORS_OUT = ['ofile-r', 'ofile-t', 'none', 'int']


def norm(obj):
    """Result as comparable text."""
    if isinstance(obj, dict):
        return {str(k): norm(v) for k, v in obj.items()}
    if isinstance(obj, np.ndarray):
        return (obj.shape, str(obj.dtype), obj.tobytes())
    if isinstance(obj, (list, tuple)):
        return [norm(v) for v in obj]
    return repr(obj)


class C22(core.Check):
    pid = 'C22'
    rule = (
        'one execution = one public call with one combination of file argument forms (path string, path object, URI, OpenFile, in-'
        'memory file system, file object or dataset); results are compared with the path string call, and every object passed '
        'must be open, unmoved to an unusable state and readable afterwards, every other file closed'
    )
    assumptions = ['remote file systems are represented by the fsspec memory file system']

    def bounds(self, tier):
        return dict(text_forms=TEXT, raster_forms=RAST, out_forms=OUT, combinations='all pairs of input forms x output forms')

    def cases(self, tier):
        out = []
        for r in READERS:
            out.append(dict(part='read', what=r, kinds=TEXT))
            out.append(dict(part='read-error', what=r, kinds=ERRORS_TEXT))
        for r in IMREADERS:
            out.append(dict(part='imread', what=r, kinds=RAST))
            out.append(dict(part='imread-error', what=r, kinds=ERRORS_RAST))
        for w in WRITERS:
            out.append(dict(part='write', what=w))
        for r in ('exif', 'im_rpc', 'im_gcps'):
            for n in (1, 2, 3) if tier == 'thorough' else (1, 2):
                combos = [list(p) for p in product(RAST, repeat=n)]
                for k in range(0, len(combos), 64):
                    out.append(dict(part='list', what=r, combos=combos[k:k + 64]))
        for ext in ('oty_ext', 'csv', 'csv_prj', 'osfm_ext'):
            for a in TEXT[:-1]:
                out.append(dict(part='frames', ext=ext, a=a))
        for a in ('dict', *TEXT[:-1]):
            out.append(dict(part='rpcs', a=a))
        for a in RAST:
            out.append(dict(part='ortho', a=a))
            out.append(dict(part='pan', a=a))
        out += [dict(part='suffix', ext=e) for e in SUFFIX]
        out.append(dict(part='out-error'))
        out.append(dict(part='same'))
        return out

    # ------------------------------------------------------------------------------------------------
    def setup(self, scratch, tier):
        import fsspec
        import rasterio as rio

        d = self.dir = scratch / 'in'
        self.frame = cliscene.frame(d / 'frame')
        self.exif = cliscene.exif(d / 'exif')
        self.odm = cliscene.odm(d / 'odm')
        self.rpc = cliscene.rpc(d / 'rpc')
        self.pan = cliscene.pan(d / 'pan')
        (d / 'frame' / 'ext.prj').write_text(rio.CRS.from_string(data.UTM).to_wkt())
        # a CSV without a .prj file
        (d / 'csv').mkdir()
        (d / 'csv' / 'ext.csv').write_text((d / 'frame' / 'ext.csv').read_text())
        from orthority import param_io

        rpcs = param_io.read_im_rpc_param(self.rpc['srcs'])
        gcps = param_io.read_im_gcps(self.rpc['srcs'])
        (d / 'rpcfile').mkdir()
        param_io.write_rpc_param(d / 'rpcfile' / 'rpc.yaml', rpcs)
        param_io.write_gcps(d / 'rpcfile' / 'gcps.geojson', gcps)
        self.text = dict(
            oty_int=self.frame['int'], osfm_int=self.odm['rec'], oty_rpc=str(d / 'rpcfile' / 'rpc.yaml'),
            oty_gcps=str(d / 'rpcfile' / 'gcps.geojson'), csv=str(d / 'csv' / 'ext.csv'), csv_prj=self.frame['csv'],
            osfm_ext=self.odm['rec'], oty_ext=self.frame['ext'],
        )
        self.image = dict(exif_int=self.exif['srcs'], exif=self.exif['srcs'], exif_obj=self.exif['srcs'], im_rpc=self.rpc['srcs'],
                          im_gcps=self.rpc['srcs'], cam_read=self.frame['srcs'], cam_read_und=self.frame['srcs'])
        # copies on the in-memory file system
        fs = self.fs = fsspec.filesystem('memory')
        for p in d.rglob('*'):
            if p.is_file():
                fs.pipe(MEM + str(p), p.read_bytes())
        self.ref_cache = {}

    def call(self, what, f):
        from orthority import param_io
        from orthority.exif import Exif

        if what == 'oty_int':
            return norm(param_io.read_oty_int_param(f))
        if what == 'osfm_int':
            return norm(param_io.read_osfm_int_param(f))
        if what == 'oty_rpc':
            return norm(param_io.read_oty_rpc_param(f))
        if what == 'oty_gcps':
            return norm(param_io.read_oty_gcps(f))
        if what in ('csv', 'csv_prj'):
            r = param_io.CsvReader(f, **(dict(crs=data.UTM) if what == 'csv' else {}))
            return norm(r.read_ext_param()), str(r.crs)
        if what == 'osfm_ext':
            r = param_io.OsfmReader(f, crs=data.UTM)
            return norm(r.read_ext_param()), norm(r.read_int_param()), str(r.crs)
        if what == 'oty_ext':
            r = param_io.OtyReader(f)
            return norm(r.read_ext_param()), str(r.crs)
        if what == 'exif_int':
            return norm(param_io.read_exif_int_param(f))
        if what == 'exif_obj':
            e = Exif(f)
            return norm([e.filename, e.make, e.model, e.im_size, e.lla, e.rpy, e.focal_len, e.dewarp, e.tag_im_size])
        if what == 'exif':
            r = param_io.ExifReader(f if isinstance(f, list) else [f], crs=data.UTM)
            return norm(r.read_int_param()), norm(r.read_ext_param())
        if what == 'im_rpc':
            return norm(param_io.read_im_rpc_param(f if isinstance(f, list) else [f]))
        if what == 'im_gcps':
            return norm(param_io.read_im_gcps(f if isinstance(f, list) else [f]))
        if what in ('cam_read', 'cam_read_und'):
            from mc import scenes

            cam = scenes.make_camera('brown', cliscene.SIZE, distort=what == 'cam_read')
            return norm([cam.read(f), cam.read(f, indexes=2), cam.read(f, indexes=[2, 1], dtype='float32')])
        raise ValueError(what)

    def form(self, kind, path, held):
        """The file argument form ``kind`` of ``path``; caller owned objects are added to ``held``."""
        import fsspec
        import rasterio as rio

        if kind == 'str':
            return str(path)
        if kind == 'path':
            return Path(path)
        if kind == 'uri':
            return Path(path).as_uri()
        if kind == 'mem':
            return f'memory://{MEM}{path}'
        if kind in ('ofile', 'memofile'):
            mode = 'rb' if str(path).endswith('.tif') else 'rt'
            return fsspec.open(('memory://' + MEM if kind == 'memofile' else '') + str(path), mode)
        if kind == 'fobj':
            o = open(path, 'rt')
        elif kind == 'sio':
            o = io.StringIO(Path(path).read_text())
        elif kind in ('ds', 'ds+'):
            o = rio.open(path, 'r' if kind == 'ds' else 'r+')
        else:
            raise ValueError(kind)
        held.append((kind, o, path))
        return o

    def after(self, held, tag, bad):
        """The caller's objects are open & usable, everything else is closed."""
        from mc.checks.c04 import open_fds

        for kind, o, path in held:
            if o.closed:
                bad('closed', f"{tag}: the caller's {'dataset' if kind.startswith('ds') else 'file object'} was closed")
                continue
            if kind.startswith('ds'):
                import rasterio as rio

                with rio.open(path) as ds:
                    if not np.array_equal(ds.read(), o.read()):
                        bad('dataset', f"{tag}: the caller's dataset reads differently after the call")
            else:
                o.seek(0)
                if o.read() != Path(path).read_text():
                    bad('fileobj', f"{tag}: the caller's file object reads differently after the call")
            o.close()
        left = [f for f in open_fds(self.dir) if not f.endswith('.ovr')]
        if left:
            bad('open', f'{tag}: files left open: {left}')

    def reference(self, key, fn):
        if key not in self.ref_cache:
            self.ref_cache[key] = fn()
        return self.ref_cache[key]

    # ------------------------------------------------------------------------------------------------
    def run_case(self, case, tally, scratch):
        found = {}

        def bad(key, text):
            found.setdefault(key, core.Violation(text, key=key))

        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            getattr(self, 'run_' + case['part'].replace('-', '_'))(case, tally, scratch, bad)
        core.raise_all(found)

    def compare(self, tag, ref, fn, held, tally, bad, outcome):
        tally.add(executions=1, states=1)
        try:
            got = fn()
        except Exception as ex:
            bad('raised', f'{tag}: raised {core._describe(ex)}')
            got = None
        else:
            if got != ref:
                bad('result', f'{tag}: result differs from that with path strings')
            tally.outcome(*outcome)
        self.after(held, tag, bad)

    def run_read(self, case, tally, scratch, bad):
        w = case['what']
        path = self.text[w]
        ref = self.reference(w, lambda: self.call(w, path))
        for kind in case['kinds']:
            if w == 'csv_prj' and kind in ('fobj', 'sio'):
                continue  # a .prj file cannot be found for a file object
            held = []
            f = self.form(kind, path, held)
            self.compare(f'{w} from {kind}', ref, lambda: self.call(w, f), held, tally, bad, (w, kind))
            if not held:
                # the argument can be used again
                self.compare(f'{w} from {kind}, second time', ref, lambda: self.call(w, f), held, tally, bad, (w, kind))

    def run_imread(self, case, tally, scratch, bad):
        w = case['what']
        path = self.image[w][0]
        ref = self.reference(w, lambda: self.call(w, path))
        for kind in case['kinds']:
            for times in (1, 2):
                held = []
                f = self.form(kind, path, held)

                def fn():
                    for _ in range(times):
                        r = self.call(w, f)
                    return r

                self.compare(f'{w} from {kind}', ref, fn, held, tally, bad, (w, kind))

    def run_list(self, case, tally, scratch, bad):
        w = case['what']
        for combo in case['combos']:
            paths = self.image[w][: len(combo)]
            ref = self.reference((w, len(combo)), lambda: self.call(w, list(paths)))
            held = []
            files = [self.form(k, p, held) for k, p in zip(combo, paths)]
            self.compare(f'{w} from {combo}', ref, lambda: self.call(w, files), held, tally, bad, (w, *combo))

    def expect(self, tag, types, fn, tally, bad):
        tally.add(executions=1, states=1)
        try:
            fn()
        except types as ex:
            tally.outcome(tag, type(ex).__name__)
        except Exception as ex:
            bad('error-type', f'{tag}: {core._describe(ex)}, {types} expected')
        else:
            bad('accepted', f'{tag}: accepted, {types} expected')

    def run_read_error(self, case, tally, scratch, bad):
        import fsspec

        w = case['what']
        path = self.text[w]
        text = Path(path).read_text()
        for kind in case['kinds']:
            obj, types, held = None, (OSError,), []
            tmp = scratch / Path(path).name
            tmp.write_text(text)
            if kind == 'closed':
                obj = open(path, 'rt')
                obj.close()
            elif kind == 'wmode':
                tmp.unlink()
                obj = open(tmp, 'wt')
                held.append(obj)
            elif kind == 'bmode':
                obj = open(path, 'rb')
                held.append(obj)
            elif kind == 'ofile-w':
                obj = fsspec.open(str(tmp), 'wt')
            elif kind == 'ofile-b':
                obj = fsspec.open(path, 'rb')
            elif kind == 'none':
                obj, types = None, (TypeError,)
            elif kind == 'int':
                obj, types = 5, (TypeError,)
            elif kind == 'list':
                obj, types = [path], (TypeError,)
            else:
                types = (FileNotFoundError,)
                miss = str(scratch / 'absent' / Path(path).name)
                obj = dict(str=miss, ofile=fsspec.open(miss, 'rt'), mem='memory://' + miss)[kind.partition('-')[2]]
            self.expect(f'{w} from {kind}', types, lambda: self.call(w, obj), tally, bad)
            for o in held:
                if o.closed:
                    bad('closed', f"{w} from {kind}: the caller's file object was closed")
                o.close()
            if kind == 'ofile-w' and tmp.read_text() != text:
                bad('truncated', f'{w} from {kind}: the file was changed')

    def run_imread_error(self, case, tally, scratch, bad):
        import fsspec
        import rasterio as rio
        w = case['what']
        path = self.image[w][0]
        for kind in case['kinds']:
            held = []
            tmp = scratch / Path(path).name
            tmp.write_bytes(Path(path).read_bytes())
            types = (OSError, RuntimeError)
            if kind == 'closed':
                obj = rio.open(path)
                obj.close()
            elif kind == 'ds-w':
                obj = rio.open(scratch / 'w.tif', 'w', driver='GTiff', width=20, height=14, count=2, dtype='uint8')
                held.append(obj)
            elif kind == 'ofile-t':
                obj = fsspec.open(path, 'rt')
            elif kind == 'ofile-w':
                obj = fsspec.open(str(tmp), 'wb')
            elif kind in ('none', 'int', 'bytesio'):
                obj = dict(none=None, int=5, bytesio=io.BytesIO(Path(path).read_bytes()))[kind]
                types = (TypeError, RuntimeError)
            else:
                types = (FileNotFoundError,)
                miss = str(scratch / 'absent' / Path(path).name)
                obj = dict(str=miss, ofile=fsspec.open(miss, 'rb'), uri='file://' + miss)[kind.partition('-')[2]]
            self.expect(f'{w} from {kind}', types, lambda: self.call(w, obj), tally, bad)
            for o in held:
                if o.closed:
                    bad('closed', f"{w} from {kind}: the caller's dataset was closed")
                o.close()
            if kind == 'ofile-w' and tmp.read_bytes() != Path(path).read_bytes():
                bad('truncated', f'{w} from {kind}: the image was changed')

    # ------------------------------------------------------------------------------------------------
    def run_write(self, case, tally, scratch, bad):
        import fsspec
        from mc.checks.c04 import open_fds
        from orthority import param_io

        w = case['what']
        if w == 'int':
            obj = param_io.read_oty_int_param(self.text['oty_int'])
            write = lambda f, **k: param_io.write_int_param(f, obj, **k)  # noqa: E731
        elif w == 'ext':
            obj = param_io.OtyReader(self.text['oty_ext']).read_ext_param()
            write = lambda f, **k: param_io.write_ext_param(f, obj, crs=data.UTM, **k)  # noqa: E731
        elif w == 'rpc':
            obj = param_io.read_oty_rpc_param(self.text['oty_rpc'])
            write = lambda f, **k: param_io.write_rpc_param(f, obj, **k)  # noqa: E731
        else:
            obj = param_io.read_oty_gcps(self.text['oty_gcps'])
            write = lambda f, **k: param_io.write_gcps(f, obj, **k)  # noqa: E731
        ref = scratch / 'ref'
        write(str(ref))
        ref = ref.read_text()
        for kind, exists, over in product(['str', 'path', 'uri', 'ofile', 'mem', 'memofile', 'fobj', 'sio'], [False, True], [None, False, True]):
            p = scratch / f'{kind}.out'
            mem = MEM + str(p)
            if p.exists():
                p.unlink()
            if self.fs.exists(mem):
                self.fs.rm(mem)
            if exists:
                p.write_text('old')
                self.fs.pipe(mem, b'old')
            held = []
            f = dict(str=lambda: str(p), path=lambda: p, uri=lambda: p.as_uri(), ofile=lambda: fsspec.open(str(p), 'wt'),
                     mem=lambda: 'memory://' + mem, memofile=lambda: fsspec.open('memory://' + mem, 'wt'),
                     fobj=lambda: open(p, 'wt'), sio=io.StringIO)[kind]()
            if kind in ('fobj', 'sio'):
                held.append(f)
            kw = {} if over is None else dict(overwrite=over)
            tag = f'write {w} to {kind}, exists {exists}, overwrite {over}'
            tally.add(executions=1, states=1)
            try:
                write(f, **kw)
                err = None
            except Exception as ex:
                err = ex
            blocked = exists and not over and kind not in ('fobj', 'sio')
            if blocked != isinstance(err, FileExistsError) or (err is not None and not blocked):
                bad('exists', f'{tag}: ' + (core._describe(err) if err else 'accepted'))
            if any(o.closed for o in held):
                bad('closed', f"{tag}: the caller's file object was closed")
                continue
            if kind == 'sio':
                got = f.getvalue()
            elif kind.startswith('mem'):
                got = self.fs.cat(mem).decode() if self.fs.exists(mem) else None
            else:
                for o in held:
                    o.flush()
                got = p.read_text() if p.exists() else None
            want = 'old' if blocked else ref
            if got != want:
                bad('content', f'{tag}: file content differs from that written to a path string' if not blocked else f'{tag}: file changed')
            for o in held:
                o.close()
            if open_fds(scratch):
                bad('open', f'{tag}: files left open {open_fds(scratch)}')
            tally.outcome(w, kind, blocked)
        # objects that cannot be written to
        for kind in ('closed', 'rmode', 'ofile-r', 'ofile-b', 'none', 'int'):
            p = scratch / 'err.out'
            p.write_text('old')
            types = (OSError,)
            held = []
            if kind == 'closed':
                f = io.StringIO()
                f.close()
                types = (OSError, ValueError)
            elif kind == 'rmode':
                f = open(p, 'rt')
                held.append(f)
            elif kind == 'ofile-r':
                f = fsspec.open(str(p), 'rt')
            elif kind == 'ofile-b':
                f = fsspec.open(str(p), 'wb')
            else:
                f, types = dict(none=None, int=7)[kind], (TypeError,)
            self.expect(f'write {w} to {kind}', types, lambda: write(f, overwrite=True), tally, bad)
            if p.read_text() != 'old':
                bad('truncated', f'write {w} to {kind}: the file was changed')
            for o in held:
                o.close()

    # ------------------------------------------------------------------------------------------------
    def cams(self, factory, names):
        out = [sorted(factory.filenames), str(getattr(factory, 'crs', None))]
        ji = np.array([[0.0, 5, 12], [3.0, 9, 0]])
        for n in names:
            c = factory.get(n)
            out.append((n, type(c).__name__, c.im_size, c.pixel_to_world_z(ji, 20.0).tobytes()))
        return out

    def run_frames(self, case, tally, scratch, bad):
        from orthority.factory import FrameCameras

        ext = case['ext']
        int_path = self.text['osfm_int' if ext == 'osfm_ext' else 'oty_int']
        names = [Path(p).name for p in (self.odm if ext == 'osfm_ext' else self.frame)['srcs']]
        kw = dict(io_kwargs=dict(crs=data.UTM)) if ext in ('csv', 'osfm_ext') else {}

        def fn(a, b):
            return self.cams(FrameCameras(a, b, **kw), names)

        ref = self.reference(('frames', ext), lambda: fn(int_path, self.text[ext]))
        for b in TEXT[:-1]:
            if ext == 'csv_prj' and b == 'fobj':
                continue
            held = []
            fa, fb = self.form(case['a'], int_path, held), self.form(b, self.text[ext], held)
            self.compare(f'FrameCameras({ext}) from {case["a"]}, {b}', ref, lambda: fn(fa, fb), held, tally, bad, (ext, case['a'], b))
        # the image can be given in any form too
        f = FrameCameras(int_path, self.text[ext], **kw)
        for src in (self.odm if ext == 'osfm_ext' else self.frame)['srcs']:
            one = self.cams(f, [Path(src).name])[2:][0][1:]
            for k in RAST:
                held = []
                arg = self.form(k, src, held)
                self.compare(f'FrameCameras.get({k})', one, lambda: self.cams(f, [arg])[2:][0][1:], held, tally, bad, ('get', k))

    def run_suffix(self, case, tally, scratch, bad):
        """File name extensions that a factory knows a format by, in any case; others are refused."""
        import shutil

        from orthority.errors import ParamError
        from orthority.factory import FrameCameras

        ext = case['ext']
        int_path = self.text['osfm_int' if ext == 'osfm_ext' else 'oty_int']
        names = [Path(p).name for p in (self.odm if ext == 'osfm_ext' else self.frame)['srcs']]
        kw = dict(io_kwargs=dict(crs=data.UTM)) if ext in ('csv', 'osfm_ext') else {}
        d = scratch / 'sfx'
        d.mkdir(exist_ok=True)

        def fn(a, b):
            return self.cams(FrameCameras(a, b, **kw), names)

        ref = self.reference(('frames', ext), lambda: fn(int_path, self.text[ext]))
        isfx = ['.json', '.JSON'] if ext == 'osfm_ext' else ['.yaml', '.yml', '.YAML', '.YML', '.Yaml']
        for a in isfx + ['.txt', '.int', '']:
            for b in SUFFIX[ext] + ['.dat', '.tsv', '']:
                fa, fb = d / ('int' + a), d / ('ext.v1' + b if b else 'ext')
                shutil.copy(int_path, fa)
                shutil.copy(self.text[ext], fb)
                if ext == 'csv_prj':
                    shutil.copy(Path(self.text[ext]).with_suffix('.prj'), fb.with_suffix('.prj'))
                tag = f'FrameCameras(int{a}, {fb.name})'
                for form in (str, Path):
                    if a in isfx and b in SUFFIX[ext]:
                        self.compare(tag, ref, lambda: fn(form(fa), form(fb)), [], tally, bad, ('suffix', ext, a, b))
                    else:
                        self.expect(tag, ParamError, lambda: fn(form(fa), form(fb)), tally, bad)

    def run_rpcs(self, case, tally, scratch, bad):
        from orthority import param_io
        from orthority.factory import RpcCameras

        names = [Path(p).name for p in self.rpc['srcs']]
        path, gcp = self.text['oty_rpc'], self.text['oty_gcps']

        def fn(a, g):
            f = RpcCameras(a, cam_kwargs=dict(crs=data.UTM))
            if g is not None:
                f.refine(g)
            return self.cams(f, names)

        for g in [None, *TEXT[:-1], 'dict', *(f'im-{k}' for k in RAST)]:
            ref = self.reference(('rpcs', g is None), lambda: fn(path, None if g is None else gcp))
            held = []
            fa = param_io.read_oty_rpc_param(path) if case['a'] == 'dict' else self.form(case['a'], path, held)
            if g is None:
                fg = None
            elif g == 'dict':
                fg = param_io.read_oty_gcps(gcp)
            elif g.startswith('im-'):
                fg = [self.form(g[3:], p, held) for p in self.rpc['srcs']]
            else:
                fg = self.form(g, gcp, held)
            self.compare(f'RpcCameras from {case["a"]}, refined with {g}', ref, lambda: fn(fa, fg), held, tally, bad, (case['a'], g))

    def run_same(self, case, tally, scratch, bad):
        """One OpenSfM file for interior and exterior parameters."""
        from orthority.factory import FrameCameras

        path = self.text['osfm_ext']
        names = [Path(p).name for p in self.odm['srcs']]
        kw = dict(io_kwargs=dict(crs=data.UTM))
        ref = self.cams(FrameCameras(path, str(path) + '', **kw), names)
        for kind in TEXT[:-1]:
            held = []
            f = self.form(kind, path, held)
            self.compare(f'FrameCameras from one {kind}', ref, lambda: self.cams(FrameCameras(f, f, **kw), names), held, tally, bad, ('same', kind))

    # ------------------------------------------------------------------------------------------------
    def out_form(self, kind, p):
        import fsspec

        return dict(str=lambda: str(p), path=lambda: p, uri=lambda: p.as_uri(), ofile=lambda: fsspec.open(str(p), 'wb'))[kind]()

    def run_ortho(self, case, tally, scratch, bad):
        from mc import scenes
        from mc.checks.c04 import open_fds
        from orthority.ortho import Ortho

        src, dem = self.frame['srcs'][0], self.frame['dem']
        cam = scenes.make_camera('pinhole', cliscene.SIZE)

        def fn(a, b, o):
            out = scratch / 'ortho.tif'
            Ortho(a, b, cam, crs=data.UTM).process(self.out_form(o, out), resolution=(12.0, 12.0), overwrite=True, compress='deflate')
            if open_fds(scratch):
                bad('open', f'output left open {open_fds(scratch)}')
            return data.file_state(out)

        ref = self.reference('ortho', lambda: fn(src, dem, 'str'))
        for b, o in product(RAST, OUT):
            held = []
            fa, fb = self.form(case['a'], src, held), self.form(b, dem, held)
            self.compare(f'Ortho from {case["a"]}, {b} to {o}', ref, lambda: fn(fa, fb, o), held, tally, bad, (case['a'], b, o))

    def run_pan(self, case, tally, scratch, bad):
        from mc.checks.c04 import open_fds
        from orthority.pan_sharp import PanSharpen

        pan, ms = self.pan['pan'], self.pan['ms']

        def fn(a, b, o):
            out = scratch / 'pan.tif'
            PanSharpen(a, b).process(self.out_form(o, out), overwrite=True, compress='deflate')
            if open_fds(scratch):
                bad('open', f'output left open {open_fds(scratch)}')
            return data.file_state(out)

        ref = self.reference('pan', lambda: fn(pan, ms, 'str'))
        for b, o in product(RAST, OUT):
            held = []
            fa, fb = self.form(case['a'], pan, held), self.form(b, ms, held)
            self.compare(f'PanSharpen from {case["a"]}, {b} to {o}', ref, lambda: fn(fa, fb, o), held, tally, bad, (case['a'], b, o))

    def run_out_error(self, case, tally, scratch, bad):
        import fsspec
        from mc import scenes
        from orthority.ortho import Ortho
        from orthority.pan_sharp import PanSharpen

        cam = scenes.make_camera('pinhole', cliscene.SIZE)
        for what in ('ortho', 'pan'):
            obj = Ortho(self.frame['srcs'][0], self.frame['dem'], cam, crs=data.UTM) if what == 'ortho' else PanSharpen(
                self.pan['pan'], self.pan['ms'])
            for kind in ERRORS_OUT:
                p = scratch / 'o.tif'
                p.write_bytes(Path(self.frame['srcs'][0]).read_bytes())
                types = (OSError,)
                if kind == 'ofile-r':
                    f = fsspec.open(str(p), 'rb')
                elif kind == 'ofile-t':
                    f = fsspec.open(str(p), 'wt')
                else:
                    f, types = dict(none=None, int=7)[kind], (TypeError,)
                self.expect(f'{what} to {kind}', types, lambda: obj.process(f, overwrite=True), tally, bad)
                if p.read_bytes() != Path(self.frame['srcs'][0]).read_bytes():
                    bad('truncated', f'{what} to {kind}: the file was changed')


CHECK = C22()
