"""C26: Camera.read and Camera.remap show each point at its projected position, in any data type, band selection and grid."""
from __future__ import annotations

import warnings

import numpy as np

from mc import core, data, scenes, space
from mc.ref import cam as rcam

SIZE = (24, 19)
FOCAL = dict(distort=1.1, und1=0.7, und0=0.7)
# more distortion for the undistorting cameras, so that the undistorted image has pixels well outside of the source
WIDE = dict(brown=dict(k1=-0.25, k2=0.03, p1=0.004, p2=-0.003, k3=0.002), opencv=dict(scenes.INT['opencv'], k1=-0.24),
            fisheye=dict(k1=-0.12, k2=0.01, k3=-0.004, k4=0.001))
DIMS = dict(
    cam=['pinhole', 'brown', 'opencv', 'fisheye', 'rpc'],
    mode=['distort', 'und1', 'und0'],
    dtype=['uint8', 'uint16', 'int16', 'float32', 'float64'],
    read_dtype=[None, 'float32', 'float64', 'uint16', 'int16'],
    indexes=[None, [2, 1], 2, [3], [1, 3], [3, 1, 2], [2, 1, 2], (1, 3)],
    interp=['bilinear', 'cubic', 'nearest', 'average', 'lanczos', 'obj:cubic'],
    nodata=[None, 0, 7, 250, -9, 'nan'],
    holes=[None, 'band', 'all'],
    kernel=[None, (7, 7), (9, 3), (1, 5), (1, 1)],
    grid=['plain', '1x1', 'row', 'col', 'turned', 'fortran', 'strided', 'flip', 'transposed', 'shuffled'],
    z=['flat', 'float32', 'slope', 'scatter'],
    nan=[None, 'z', 'x', 'y', 'one', 'all'],
    place=['over', 'inside', 'apart', 'part'],
    form=['path', 'dataset', 'Path'],
)
BAD = ['int32', 'bool', '2d', '4d', 'shape', '1d', 'x32', 'y32', 'zint', 'interp', 'x3d', 'uint32']


class C26(core.Check):
    pid = 'C26'
    rule = (
        'one execution = one read() and remap() of an image of coordinate ramps with one camera, data type, band selection, '
        'interpolation, nodata value, grid shape and layout; every grid node and undistorted pixel is judged against independent '
        'projection equations; all configurations within the deviation bound are run; states = configurations, transitions = nodes'
    )
    assumptions = [
        'reference projections in mc/ref/cam.py', '24x19 image of linear ramps, which every interpolation reproduces to 0.1 pixel',
        'nodes within 1 pixel of the image edge (or interpolation kernel of it) may be valid or not',
    ]

    def bounds(self, tier):
        return dict(deviations=3 if tier == 'quick' else 4, bases=5, dimensions={k: len(v) for k, v in DIMS.items()}, rejected=len(BAD))

    @staticmethod
    def valid(c):
        if c['cam'] in ('pinhole', 'rpc') and c['mode'] != 'distort':
            return False
        t = c['read_dtype'] or c['dtype']
        if c['nodata'] == 'nan' and not t.startswith('float'):
            return False
        if c['nodata'] == -9 and t.startswith('uint'):
            return False
        # a conversion that does not change the values
        if c['read_dtype'] and c['dtype'] in ('float32', 'float64', 'uint16', 'int16') and not c['read_dtype'].startswith('float'):
            return c['dtype'] not in ('float32', 'float64')
        return True

    def cases(self, tier):
        out = []
        for base in (dict(), dict(cam='brown', mode='und1'), dict(cam='opencv', mode='und0', dtype='float32'), dict(cam='fisheye', mode='und1', interp='cubic'),
                     dict(cam='rpc', interp='cubic')):
            out += space.deviations(DIMS, 3 if tier == 'quick' else 4, base=base, valid=self.valid)
        out = space.unique(out)
        out += [dict(bad=b, cam=cam, mode=m) for b in BAD for cam in DIMS['cam'] for m in DIMS['mode'] if cam not in ('pinhole', 'rpc') or m == 'distort']
        out += [dict(size=s, cam=cam) for s in ('small', 'large', 'turned') for cam in DIMS['cam']]
        n = 96
        return [dict(group=out[i::n]) for i in range(n)]

    def sample(self, case):
        return case['group'][0]

    @staticmethod
    def ramp(dtype, size=SIZE):
        """Bands 50 + 5 j, 45 + 6 i and 200 - 3 j - 2 i."""
        j, i = np.meshgrid(np.arange(size[0], dtype='float64'), np.arange(size[1], dtype='float64'))
        return np.stack([50 + 5 * j, 45 + 6 * i, 200 - 3 * j - 2 * i]).astype(dtype)

    @staticmethod
    def value(band, j, i):
        return [50 + 5 * j, 45 + 6 * i, 200 - 3 * j - 2 * i][band - 1]

    def setup(self, scratch, tier):
        self.src = {t: data.write_image(scratch / f'src_{t}.tif', self.ramp(t)) for t in DIMS['dtype']}
        self.cams = {}

    def camera(self, cam, mode):
        """(camera, full model reference: xyz -> ji)"""
        key = (cam, mode)
        if key not in self.cams:
            xyz, opk = (data.X0, data.Y0, 220.0), (0.06, -0.04, 0.3)
            if cam == 'rpc':
                from orthority.camera import RpcCamera
                from rasterio.warp import transform

                lon, lat = (float(v[0]) for v in transform(data.UTM, 'EPSG:4979', [data.X0], [data.Y0]))
                rpc = scenes.make_rpc(SIZE, lon=lon, lat=lat, gsd_deg=(7.5 / 62400, 7.5 / 111300), h_off=20.0)
                c = RpcCamera(SIZE, rpc, crs=data.UTM)

                def ref(p):
                    lo, la, h = transform(data.UTM, 'EPSG:4979', p[0], p[1], p[2])
                    return rcam.rpc_project(rpc, np.array(lo), np.array(la), np.array(h))
            else:
                kw = {} if cam == 'pinhole' else dict(distort=mode == 'distort', alpha=0.0 if mode == 'und0' else 1.0)
                par = scenes.INT[cam] if mode == 'distort' else WIDE[cam]
                c = scenes.make_camera(cam, SIZE, xyz=xyz, opk=opk, focal=FOCAL[mode], **kw, **par)
                f = rcam.Frame(cam, SIZE, FOCAL[mode] * 36, (36.0, 36.0 * SIZE[1] / SIZE[0]), xyz=xyz, opk=opk, **par)
                ref = f.project
            self.cams[key] = c, ref
        return self.cams[key]

    def grid(self, c):
        """World grids x, y, z."""
        kind = c['grid']
        shape = {'1x1': (1, 1), 'row': (1, 33), 'col': (29, 1)}.get(kind, (26, 30))
        r = 200 / FOCAL[c['mode']] / SIZE[0] * (0.5 if c['place'] == 'inside' else 1.05)
        ii, jj = np.meshgrid(np.arange(shape[0]), np.arange(shape[1]), indexing='ij')
        u, v = (jj - (shape[1] - 1) / 2) * r, ((shape[0] - 1) / 2 - ii) * r
        t = 0.6 if kind == 'turned' else 0.0
        off = dict(apart=(5000.0, 0.0), part=(70.0, 45.0)).get(c['place'], (3.0, -2.0))
        x = data.X0 + off[0] + u * np.cos(t) - v * np.sin(t)
        y = data.Y0 + off[1] + u * np.sin(t) + v * np.cos(t)
        z = np.full(x.shape, 20.0)
        if c['z'] == 'slope':
            z = 20 + 0.05 * (x - data.X0) - 0.04 * (y - data.Y0)
        elif c['z'] == 'scatter':
            z = 20.0 + (ii * 7 + jj * 5) % 11
        if kind == 'shuffled':
            o = np.argsort((np.arange(x.size) * 7919) % 1009, kind='stable')
            x, y, z = (a.ravel()[o].reshape(a.shape) for a in (x, y, z))
        n = c['nan']
        for name, a in (('z', z), ('x', x), ('y', y)):
            if n == name:
                a[::3, ::2] = np.nan
            if n == 'all' or n == 'one' and name == 'y' and a.size > 1:
                a[(slice(None), slice(None)) if n == 'all' else (a.shape[0] // 2, a.shape[1] // 2)] = np.nan
        if c['z'] == 'float32':
            z = z.astype('float32')

        def layout(a):
            if kind == 'fortran':
                return np.asfortranarray(a)
            if kind == 'strided':
                b = np.full((a.shape[0] * 2, a.shape[1] * 3), -1e9, a.dtype)
                b[::2, ::3] = a
                return b[::2, ::3]
            if kind == 'flip':
                return a[::-1, ::-1]
            if kind == 'transposed':
                return a.T
            return a

        return [layout(a) for a in (x, y, z)]

    def run_case(self, case, tally, scratch):
        for c in case['group']:
            if 'bad' in c:
                self.bad(c)
                tally.add(states=1, executions=1, transitions=1, traces=1)
            elif 'size' in c:
                self.size(c)
                tally.add(states=1, executions=1, transitions=1, traces=1)
            else:
                self.one(c, tally)

    # ------------------------------------------------------------------------------------ judging
    @staticmethod
    def inside(ji, margin, lo=0.0, size=SIZE):
        lim = np.array(size, 'float64') - 1
        with np.errstate(invalid='ignore'):
            return ((ji[0] >= lo + margin) & (ji[0] <= lim[0] - lo - margin) & (ji[1] >= lo + margin) & (ji[1] <= lim[1] - lo - margin))

    @staticmethod
    def dilate(m, kernel):
        """Dilation of a 2D mask with a (width, height) kernel of odd sizes."""
        w, h = kernel
        pad = np.pad(m, ((h // 2, h // 2), (w // 2, w // 2)))
        return np.any([pad[a:a + m.shape[0], b:b + m.shape[1]] for a in range(h) for b in range(w)], axis=0)

    def one(self, c, tally):
        import rasterio as rio
        from pathlib import Path

        from orthority.enums import Interp
        from orthority.errors import OrthorityWarning

        cam, ref = self.camera(c['cam'], c['mode'])
        und = c['mode'] != 'distort'
        t = c['read_dtype'] or c['dtype']

        def bad(what, d=None):
            raise core.Violation(f"{c['cam']} {c['mode']}: {what}", key=what.split(':')[0], detail=dict(config=c, got=d))

        nodata = float('nan') if c['nodata'] == 'nan' else c['nodata']
        nd = nodata if nodata is not None else dict(uint8=0, uint16=0, int16=np.iinfo('int16').min).get(t, float('nan'))
        interp = Interp[c['interp'][4:]] if c['interp'].startswith('obj:') else c['interp']
        name = c['interp'].split(':')[-1]
        indexes = c['indexes']
        bands = [1, 2, 3] if indexes is None else [indexes] if np.isscalar(indexes) else list(indexes)
        src = self.src[c['dtype']]
        kw = dict(indexes=indexes, dtype=c['read_dtype'])
        if und or c['cam'] != 'rpc':
            kw.update(nodata=nodata, interp=interp)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if c['form'] == 'dataset':
                with rio.open(src) as ds:
                    im = cam.read(ds, **kw)
                    if ds.closed:
                        bad('read: dataset passed in is closed')
            else:
                im = cam.read(Path(src) if c['form'] == 'Path' else src, **kw)
        if im.shape != (len(bands), SIZE[1], SIZE[0]) or str(im.dtype) != t:
            bad('read: shape or data type', (im.shape, str(im.dtype)))
        tol = dict(bilinear=0.05, average=0.05, nearest=0.75, cubic=0.13, lanczos=0.13)[name]
        radius = dict(bilinear=0.0, average=0.0, nearest=0.0, cubic=1.01, lanczos=3.01)[name]
        J, I = np.meshgrid(np.arange(SIZE[0], dtype='float64'), np.arange(SIZE[1], dtype='float64'))

        def is_nd(a):
            return np.isnan(a) if np.isnan(nd) else a == nd

        def judge(what, arr, ji, keep, gone, tol):
            """Valid values at ``keep``, nodata at ``gone``."""
            for k, b in enumerate(bands):
                slope = [5, 6, 5][b - 1]
                e = np.abs(arr[k].astype('float64') - self.value(b, *ji))
                if np.any(~(e[keep] <= tol * slope + 0.51)):
                    bad(f'{what}: value is not that of the projected position', float(np.nanmax(e[keep])))
                if not np.all(is_nd(arr[k][gone])):
                    bad(f'{what}: not nodata outside of the image or at NaN coordinates')

        if c['holes']:
            # nodata valued pixels in one or all bands of the image to remap
            im[(slice(None) if c['holes'] == 'all' else slice(0, 1)), 6:12, 7:15] = nd
        hole = np.zeros(SIZE[::-1], bool)
        hole[6:12, 7:15] = bool(c['holes'])
        if not und:
            want = self.ramp(t)[[b - 1 for b in bands]]
            if not np.array_equal(im[:, ~hole], want[:, ~hole]):
                bad('read: not the image bands')
        else:
            # source position of each undistorted pixel: the ray of that pixel, through the full model
            w = cam.pixel_to_world_z(np.array([J.ravel(), I.ravel()]), 20.0)
            sji = ref(w).reshape(2, *J.shape)
            keep = self.inside(sji, 0.05 + radius)
            gone = ~self.inside(sji, 0, lo=-1.1 - radius)
            judge('undistorted image', im, sji, keep & ~hole, gone & ~hole, tol + 0.03)
            tally.outcome(('und', int(keep.sum()), int(gone.sum())))
        x, y, z = self.grid(c)
        given = [a.copy() for a in (im, x, y, z)]
        rkw = dict(nodata=nodata, interp=interp)
        if c['kernel']:
            rkw['kernel_size'] = tuple(c['kernel'])
        with warnings.catch_warnings():
            warnings.simplefilter('error', OrthorityWarning)
            out, mask = cam.remap(im, x, y, z, **rkw)
        for a, b, n in zip((im, x, y, z), given, ('im_array', 'x', 'y', 'z')):
            if not np.array_equal(a, b, equal_nan=True):
                bad(f'remap: changes {n}')
        if out.shape != (len(bands), *x.shape) or out.dtype != im.dtype:
            bad('remap: shape or data type', (out.shape, str(out.dtype)))
        if mask.shape != x.shape or mask.dtype != bool:
            bad('remap: mask shape or data type', (mask.shape, str(mask.dtype)))
        if not np.array_equal(mask, np.all(is_nd(out), axis=0)):
            bad('remap: mask is not where all bands are nodata')
        nan = np.isnan(x) | np.isnan(y) | np.isnan(z)
        p = np.array([np.where(nan, v, a).ravel() for a, v in zip((x, y, z), (data.X0, data.Y0, 20.0))], dtype='float64')
        ji = ref(p).reshape(2, *x.shape)
        ok = ~nan
        kernel = tuple(c['kernel'] or (3, 3))
        r2 = radius + (0.05 if not und else 1.3 + radius)
        keep = ok & self.inside(ji, r2)
        gone = ~ok | ~self.inside(ji, 0, lo=-(1.1 + radius) * (2.0 if und else 1.0))
        if und:
            uji = cam.world_to_pixel(p).reshape(2, *x.shape)
            keep &= self.inside(uji, r2)
            # what the nodata dilation can reach is not judged
            keep = ~self.dilate(~keep, kernel)
        if c['holes']:
            pji = cam.world_to_pixel(p).reshape(2, *x.shape)
            near = 2.5 + radius
            clear = (pji[0] < 7 - near) | (pji[0] > 14 + near) | (pji[1] < 6 - near) | (pji[1] > 11 + near)
            # wholly inside of the hole
            deep = ok & (np.abs(pji[0] - 10.5) < 2) & (np.abs(pji[1] - 8.5) < 1) & (radius < 1.5 if t[0] != 'f' else radius < 1)
            keep, gone = keep & clear, gone & clear
            for k in range(len(bands) if c['holes'] == 'all' else 1):
                if not np.all(is_nd(out[k][deep])):
                    bad('remap: nodata pixels of the image are not nodata')
            if und:
                keep &= ~self.dilate(~clear, kernel)
        judge('remap', out, ji, keep, gone, tol * (2 if und else 1) + 0.04)
        # the nodata mask is dilated by the kernel where the undistorted image can be blurred with nodata, and only there
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            out1, mask1 = cam.remap(im, x, y, z, **dict(rkw, kernel_size=(1, 1)))
        want = self.dilate(mask1, kernel) if und and name != 'nearest' and not np.isnan(nd) else mask1
        if not np.array_equal(mask, want):
            bad('remap: mask is not dilated by the kernel', int((mask != want).sum()))
        if not np.array_equal(out[:, ~mask], out1[:, ~mask], equal_nan=True):
            bad('remap: valid pixels depend on the kernel')
        if und and not c['holes'] and not np.isnan(nd) and name in ('bilinear', 'average') and kernel == (7, 7) and c['grid'] in (
                'plain', 'turned', 'fortran', 'strided', 'flip') and c['z'] != 'scatter' and not nan.any():
            # no blurring with the nodata surroundings is left (where they are in the grid)
            core_ = np.zeros(mask.shape, bool)
            core_[3:-3, 3:-3] = True
            for k, b in enumerate(bands):
                e = np.abs(out[k].astype('float64') - self.value(b, *ji))[core_ & ~mask]
                if np.any(e > tol * 12 + 1.1):
                    bad('remap: blurred with nodata at the edge of the undistorted image', float(e.max()))
        tally.add(states=1, executions=1, transitions=x.size, traces=1)
        tally.outcome((int(keep.sum()), int(gone.sum())))

    def size(self, c):
        """An image of another size gives a warning, and is remapped with the same pixel coordinates."""
        from orthority.errors import OrthorityWarning

        cam, ref = self.camera(c['cam'], 'distort')
        size = dict(small=(SIZE[0] - 4, SIZE[1] - 3), large=(SIZE[0] + 5, SIZE[1] + 4), turned=SIZE[::-1])[c['size']]
        im = self.ramp('uint16', size)
        x, y, z = self.grid(dict(space.default(DIMS)))
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            out, mask = cam.remap(im, x, y, z, interp='bilinear')
        if not any(issubclass(w.category, OrthorityWarning) for w in rec):
            raise core.Violation('no warning for an image of another size than the camera', key='size', detail=c)
        ji = ref(np.array([x.ravel(), y.ravel(), z.ravel()])).reshape(2, *x.shape)
        # (RPC and frame cameras both project without limits)
        keep, gone = self.inside(ji, 0.05, size=np.minimum(size, SIZE)), ~self.inside(ji, 0, lo=-1.1, size=size)
        for b in (1, 2, 3):
            e = np.abs(out[b - 1].astype('float64') - self.value(b, *ji))
            if np.any(e[keep] > 1.0) or np.any(out[b - 1][gone]):
                raise core.Violation('image of another size than the camera is misplaced', key='size', detail=c)

    def bad(self, c):
        cam, _ = self.camera(c['cam'], c['mode'])
        x, y, z = self.grid(dict(space.default(DIMS)))
        im, kw, b = self.ramp('uint8'), dict(interp='bilinear'), c['bad']
        if b in ('int32', 'uint32', 'bool'):
            im = im.astype(b)
        elif b == '2d':
            im = im[0]
        elif b == '4d':
            im = im[None]
        elif b == 'shape':
            y = y[:-1]
        elif b == '1d':
            x, y, z = x[0], y[0], z[0]
        elif b == 'x3d':
            x, y, z = x[None], y[None], z[None]
        elif b == 'x32':
            x = x.astype('float32')
        elif b == 'y32':
            y = y.astype('float32')
        elif b == 'zint':
            z = z.astype(int)
        elif b == 'interp':
            kw = dict(interp='sinc')
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                cam.remap(im, x, y, z, **kw)
        except (ValueError, KeyError) as ex:
            if b == 'interp' or isinstance(ex, ValueError):
                return
        except Exception as ex:
            raise core.Violation(f'remap: {b} gives {type(ex).__name__}, not a ValueError', key='invalid ' + b, detail=c)
        raise core.Violation(f'remap: {b} is accepted', key='invalid ' + b, detail=c)


CHECK = C26()
