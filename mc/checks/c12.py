"""C12: output file format, masking, overviews and option validation."""
from __future__ import annotations

import warnings

import numpy as np

from mc import core, data, scenes, space

DT = ['uint8', 'uint16', 'int16', 'float32', 'float64']
NOD = dict(uint8=0, uint16=0, int16=-32768, float32=float('nan'), float64=float('nan'))
DIMS = dict(
    proc=['ortho', 'pan'],
    src=['uint8', 'uint16', 'int16', 'float32', 'float64', 'int32', 'uint32'],
    dtype=[None, 'uint8', 'uint16', 'int16', 'float32', 'float64', 'int32', 'uint32', 'int8', 'complex64'],
    bands=[3, 1, 5],
    ci=['rgb', 'gray', 'mixed'],
    driver=['gtiff', 'cog', 'Driver.gtiff', 'Driver.cog', 'other'],
    compress=[None, 'jpeg', 'deflate', 'lzw', 'Compress.jpeg', 'Compress.lzw', 'zip'],
    write_mask=[None, True, False],
    opts=[None, 'empty', 'lzw', 'jpeg', 'JPEG', 'none', 'strips'],
    ovw=[True, False],
    size=['small', 'wide', 'big'],
    hole=[True, False],
    env=[None, 'nomask'],
    sel=[None, 'rev'],
)
OPTS = dict(
    empty={}, lzw=dict(compress='lzw', tiled=True, blockxsize=256, blockysize=256),
    jpeg=dict(compress='jpeg', tiled=True, blockxsize=256, blockysize=256),
    JPEG=dict(COMPRESS='JPEG', tiled=True, blockxsize=256, blockysize=256),
    none=dict(tiled=True, blockxsize=64, blockysize=64), strips=dict(tiled=False, blockysize=8, compress='deflate'),
)
COG_OPTS = dict(empty={}, lzw=dict(compress='lzw', blocksize=256), jpeg=dict(compress='jpeg', blocksize=256),
                JPEG=dict(COMPRESS='JPEG', blocksize=256), none=dict(blocksize=128), strips=dict(compress='deflate'))
# pan-sharpened sizes straddling the overview thresholds
OVW_SIZES = [(255, 255), (511, 600), (512, 512), (513, 800), (1023, 1030), (1024, 1024), (2048, 2050), (600, 4100), (4100, 600), (600, 300), (300, 1100), (1030, 520)]


def valid(c):
    if c['size'] != 'small' and c['src'] not in DT:
        return False
    if c['sel'] and c['proc'] != 'pan':
        return False
    return True


def expect(c):
    """The expected outcome: ('error', types) or ('ok', dict(...)), from the documented rules."""
    dt = c['dtype'] or c['src']
    drv = c['driver'].replace('Driver.', '')
    comp = c['compress'].replace('Compress.', '') if c['compress'] else None
    if drv == 'other':
        return 'error', ('ValueError', 'OrthorityError')
    if dt not in DT:
        return 'error', ('OrthorityError',)
    if c['opts'] in (None, 'empty'):
        if comp == 'zip':
            return 'error', ('ValueError',)
        if comp == 'jpeg' and dt not in ('uint8', 'uint16'):
            return 'error', ('OrthorityError',)
        out = comp or ('jpeg' if dt == 'uint8' else 'deflate')
    else:
        o = OPTS[c['opts']]
        out = (o.get('compress') or o.get('COMPRESS') or ('lzw' if drv == 'cog' else 'none')).lower()  # COG default
    mask = (out == 'jpeg') if c['write_mask'] is None else c['write_mask']
    return 'ok', dict(dtype=dt, driver=drv, compress=out, mask=mask, nodata=None if mask else NOD[dt])


def untestable(c, e):
    """Outcomes that depend on the GDAL build or on JPEG limits rather than on orthority."""
    if e[0] == 'error':
        return False
    e = e[1]
    # pixel interleaved JPEG is limited to 4 bands (COG always is, as are given creation options): GDAL reports an error
    many = c['bands'] > 4 and (e['driver'] == 'cog' or c['opts'] not in (None, 'empty'))
    return e['compress'] == 'jpeg' and (e['dtype'] != 'uint8' or many)


class C12(core.Check):
    pid = 'C12'
    rule = (
        'one execution = one process() call; its output file (or rejection) is compared with the outcome derived from the '
        'documented option rules; states = configurations, transitions = inspected output pixels'
    )
    assumptions = ['12 bit JPEG (build dependent) and JPEG creation options with other than uint8 data are not judged']

    def bounds(self, tier):
        return dict(deviations=2 if tier == 'quick' else 3, overview_sizes=OVW_SIZES)

    def cases(self, tier):
        k = 2 if tier == 'quick' else 3
        cs = space.deviations(DIMS, k, valid=valid)
        cs += space.deviations(DIMS, 1, base=dict(proc='pan', src='uint16', compress='deflate', write_mask=True), valid=valid)
        cs += space.deviations(DIMS, 1, base=dict(proc='pan', sel='rev', ci='mixed'), valid=valid)
        if tier == 'thorough':
            cs += space.deviations(DIMS, 2, base=dict(proc='pan', src='uint16', compress='deflate', write_mask=True), valid=valid)
        cs = space.unique(cs)
        cs.sort(key=lambda c: (c['proc'], c['src'], c['bands'], c['ci'], c['size'], c['hole']))
        n = 96 if tier == 'quick' else 512
        out = [dict(group=cs[p::n]) for p in range(n)]
        out += [dict(size=s, driver=d, write_mask=m, dtype=dt) for s in OVW_SIZES for d in ('gtiff', 'cog')
                for m in (False, True) for dt in ('uint8', 'float32') if tier == 'thorough' or max(s) < 2000 or dt == 'uint8']
        return out

    def sample(self, case):
        return dict(group=case['group'][:2]) if 'group' in case else case

    def setup(self, scratch, tier):
        self.scratch = scratch
        self.cache = {}

    def ci(self, c):
        from rasterio.enums import ColorInterp as CI

        n = c['bands']
        if c['ci'] == 'rgb' and n == 3:
            return [CI.red, CI.green, CI.blue]
        if c['ci'] == 'mixed':
            return [CI.gray, CI.blue, CI.undefined, CI.green, CI.red][:n]
        return [CI.gray] + [CI.undefined] * (n - 1)

    def processor(self, c):
        from orthority.ortho import Ortho
        from orthority.pan_sharp import PanSharpen
        from rasterio.transform import from_origin

        key = (c['proc'], c['src'], c['bands'], c['ci'], c['size'], c['hole'])
        if key not in self.cache:
            d = self.scratch / ('sc_' + '_'.join(str(k) for k in key))
            d.mkdir()
            lo, hi = (20, 230)
            photo = dict(photometric='rgb') if c['ci'] == 'rgb' and c['bands'] == 3 else dict(photometric='minisblack')
            if c['proc'] == 'ortho':
                size = (22, 17)
                a = data.texture(c['bands'], size[1], size[0], 'float64', lo, hi, smooth=True)
                if c['hole']:
                    a[:, 5:8, 6:10] = 0
                src = data.write_image(d / 'src.tif', np.round(a).astype(c['src']), colorinterp=self.ci(c),
                                       **photo)
                cam = scenes.memo_boundary(scenes.make_camera('pinhole', size))
                dem = data.write_dem(d / 'dem.tif', data.dem_array((40, 44), 'hills'), res=(10.0, 10.0))
                gsd = 200.0 / (1.1 * size[0])
                res = {'small': (gsd, gsd), 'wide': (gsd / 32, gsd), 'big': (gsd / 32, gsd / 34)}[c['size']]
                self.cache[key] = (Ortho(src, dem, cam, data.UTM), dict(resolution=res))
            else:
                w, h = {'small': (24, 20), 'wide': (600, 12), 'big': (530, 522)}[c['size']]
                ms = data.texture(c['bands'], h // 2, w // 2, 'float64', lo, hi, smooth=True)
                pan = data.texture(1, h, w, 'float64', lo, hi, smooth=True)
                extra = {}
                if c['hole']:
                    pan[:, 3:9, 4:12] = 0
                    extra['nodata'] = 0
                pf = data.write_image(d / 'pan.tif', np.round(pan).astype(c['src']), crs=data.UTM,
                                      transform=from_origin(data.X0, data.Y0, 1, 1), **extra)
                mf = data.write_image(d / 'ms.tif', np.round(ms).astype(c['src']), crs=data.UTM, colorinterp=self.ci(c),
                                      transform=from_origin(data.X0, data.Y0, 2, 2), **photo)
                self.cache[key] = (PanSharpen(pf, mf), dict(weights=[1.0] * c['bands']))
        return self.cache[key]

    def run_case(self, case, tally, scratch):
        if 'size' in case:
            return self.overviews(case, tally, scratch)
        found = {}
        for c in case['group']:
            try:
                self.one(c, tally, scratch)
            except core.Violation as v:
                v.detail = dict(config=c, info=v.detail)
                found.setdefault(v.key, v)
        core.raise_all(found)

    def one(self, c, tally, d):
        import rasterio as rio
        from orthority.enums import Compress, Driver

        exp = expect(c)
        if untestable(c, exp):
            return
        for f in d.iterdir():
            f.unlink()
        enum = dict({f'Driver.{m.value}': m for m in Driver}, **{f'Compress.{m.value}': m for m in Compress})
        cog = 'cog' in c['driver']
        opts = None if c['opts'] is None else dict((COG_OPTS if cog else OPTS)[c['opts']])
        opts0 = dict(opts) if opts is not None else None
        env = dict(GDAL_TIFF_INTERNAL_MASK=False) if c['env'] == 'nomask' else {}
        out = d / 'out.tif'
        err = None
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            proc, kw = self.processor(c)
            if c['sel']:
                kw = dict(kw, ms_indexes=list(range(c['bands'], 0, -1)))
            try:
                with rio.Env(**env):
                    proc.process(str(out), driver=enum.get(c['driver'], c['driver']), dtype=c['dtype'],
                                 compress=enum.get(c['compress'], c['compress']), write_mask=c['write_mask'],
                                 build_ovw=c['ovw'], creation_options=opts, **kw)
            except Exception as ex:
                err = ex
        tally.add(executions=1, states=1, traces=1)
        if opts != opts0:
            raise core.Violation('creation_options argument was modified', key='opts-modified')
        if exp[0] == 'error':
            if err is None:
                raise core.Violation(f'accepted, expected {exp[1]}', key='accepted')
            if type(err).__name__ not in exp[1]:
                raise core.Violation(f'raised {type(err).__name__}: {err}, expected {exp[1]}', key='error-type')
            if list(d.iterdir()):
                raise core.Violation(f'rejected, but created {[f.name for f in d.iterdir()]}', key='error-file')
            tally.outcome('error', type(err).__name__, str(err)[:60])
            return
        if err is not None:
            raise core.Violation(f'raised {core._describe(err)}', key='raised')
        e = exp[1]
        extra = [f.name for f in d.iterdir() if f.name != 'out.tif' and not f.name.endswith('.aux.xml')]
        if extra:
            raise core.Violation(f'sidecar files {extra}: mask or overviews are not internal', key='sidecar')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with rio.open(out) as ds:
                self.inspect(c, e, ds, tally)
                shape, ovs = ds.shape, ds.overviews(1)
                n = 0
                while c['ovw'] and min(shape) / 2 ** (n + 1) >= 256 and n < 8:
                    n += 1
                if list(ovs) != [2 ** m for m in range(1, n + 1)]:
                    raise core.Violation(f'overviews {ovs} for shape {shape}, build_ovw={c["ovw"]}', key='overviews')
        tally.outcome(e['driver'], e['compress'], e['mask'], e['dtype'], c['bands'], shape, len(ovs))

    def inspect(self, c, e, ds, tally):
        from rasterio.enums import MaskFlags

        if ds.driver != 'GTiff':
            raise core.Violation(f'driver {ds.driver}', key='driver')
        layout = ds.tags(ns='IMAGE_STRUCTURE').get('LAYOUT')
        if (layout == 'COG') != (e['driver'] == 'cog'):
            raise core.Violation(f'layout {layout} for driver {e["driver"]}', key='driver')
        if set(ds.dtypes) != {e['dtype']} or ds.count != c['bands']:
            raise core.Violation(f'{ds.count} bands of {ds.dtypes[0]}, expected {c["bands"]} of {e["dtype"]}', key='dtype')
        comp = ds.tags(ns='IMAGE_STRUCTURE').get('COMPRESSION', 'none').lower()
        if comp not in (e['compress'], 'ycbcr jpeg' if e['compress'] == 'jpeg' else ''):
            raise core.Violation(f'compression {comp}, expected {e["compress"]}', key='compress')
        deflt = c['opts'] in (None, 'empty')
        if deflt and e['compress'] == 'jpeg' and c['bands'] == 3 and e['driver'] == 'gtiff' and comp != 'ycbcr jpeg':
            raise core.Violation('3 band JPEG is not YCbCr', key='photometric')
        if deflt and c['size'] == 'big' and set(ds.block_shapes) != {(512, 512)}:
            raise core.Violation(f'block shapes {ds.block_shapes}', key='blocks')
        if not deflt and c['opts'] in ('lzw', 'jpeg') and c['size'] == 'big' and set(ds.block_shapes) != {(256, 256)}:
            raise core.Violation(f'block shapes {ds.block_shapes} with creation options', key='blocks')
        same = ds.nodata == e['nodata'] or (ds.nodata is not None and e['nodata'] is not None and ds.nodata != ds.nodata
                                            and e['nodata'] != e['nodata'])
        if not same:
            raise core.Violation(f'nodata {ds.nodata}, expected {e["nodata"]}', key='nodata')
        flags = set(f for fl in ds.mask_flag_enums for f in fl)
        if e['mask'] != (MaskFlags.per_dataset in flags) or (not e['mask'] and MaskFlags.nodata not in flags):
            raise core.Violation(f'mask flags {flags}, internal mask expected: {e["mask"]}', key='mask')
        want = [i.name for i in self.ci(c)][:: -1 if c['sel'] else 1]
        got = [i.name for i in ds.colorinterp]
        jpegrgb = e['compress'] == 'jpeg' and c['bands'] == 3
        if not jpegrgb and got != want or jpegrgb and c['ci'] == 'rgb' and not c['sel'] and got != want:
            raise core.Violation(f'colour interpretation {got}, expected {want}', key='colorinterp')
        # validity: masked pixels are those without data
        a, m = ds.read(), ds.read_masks() > 0
        tally.add(transitions=int(a.size))
        if not m.any() or (c['proc'] == 'ortho' or c['hole']) and m.all():
            raise core.Violation('all or no pixels are valid', key='validity')
        if e['mask']:
            if (m != m[0]).any():
                raise core.Violation('band masks differ', key='validity')
        key = (c['proc'], c['src'], c['bands'], c['ci'], c['size'], c['hole'])
        ref = self.reference(c, key)
        if ref is not None:
            ra, rm = ref
            ra = ra[:: -1 if c['sel'] else 1]
            if a.shape != ra.shape:
                raise core.Violation(f'shape {a.shape}, not {ra.shape}', key='shape')
            if not (e['compress'] == 'jpeg' and not e['mask']):
                # an exactly zero valid pixel can not be told from nodata
                ambiguous = (ra < 0.6).any(axis=0) & rm
                bad = ((m.any(axis=0) if not e['mask'] else m[0]) != rm) & ~ambiguous
                if bad.any():
                    raise core.Violation(f'validity differs from that of the reference layout at {int(bad.sum())} pixels',
                                         key='validity')
            if np.issubdtype(np.dtype(e['dtype']), np.integer):
                ra = np.clip(ra, np.iinfo(e['dtype']).min, np.iinfo(e['dtype']).max)
            both = rm & m.all(axis=0)
            if e['compress'] != 'jpeg':
                diff = np.abs(a.astype('float64') - ra)[:, both]
                tol = 0.501 if np.issubdtype(np.dtype(e['dtype']), np.integer) else 1e-3
                tol = tol if c['proc'] == 'pan' else 1.01  # integer remapping uses fixed point weights
                if diff.size and np.nanmax(diff) > tol:
                    raise core.Violation(f'values differ by {np.nanmax(diff)} from those of the reference layout', key='value')
            else:
                # away from the edges of the valid area, which lossy compression disturbs
                diff = np.abs(a.astype('float64') - ra)[:, both]
                if diff.size and np.nanmean(diff) > 25:
                    raise core.Violation(f'JPEG values differ by {np.nanmean(diff):.1f} on average', key='value')

    def reference(self, c, key):
        """Float reference (values, validity) of the scene, with internal mask and lossless compression."""
        import rasterio as rio

        if c['src'] not in DT:
            return None
        rk = ('ref', *key)
        if rk not in self.cache:
            proc, kw = self.processor(c)
            p = self.scratch / 'ref.tif'
            kw = dict(kw, interp='nearest') if False else kw
            proc.process(str(p), dtype='float64' if c['proc'] == 'pan' else c['src'], write_mask=True, compress='deflate',
                         build_ovw=False, overwrite=True, **kw)
            with rio.open(p) as ds:
                self.cache[rk] = ds.read().astype('float64'), ds.dataset_mask() > 0
        return self.cache[rk] if c['proc'] == 'pan' or c['dtype'] in (None, c['src']) else None

    def overviews(self, case, tally, d):
        """Levels and content of the overviews of a pan-sharpened image of given size."""
        import rasterio as rio
        from orthority.pan_sharp import PanSharpen
        from rasterio.transform import from_origin

        h, w = case['size']
        rows, cols = -(-h // 4), -(-w // 4)
        ms = data.texture(1, rows, cols, 'uint16', 100, 150)
        pan = data.texture(1, h, w, 'uint16', 100, 150)
        pan[:, 40:90, 17:63] = 0
        pf = data.write_image(d / 'pan.tif', pan, crs=data.UTM, transform=from_origin(data.X0, data.Y0, 1, 1), nodata=0)
        mf = data.write_image(d / 'ms.tif', ms, crs=data.UTM, transform=from_origin(data.X0, data.Y0, 4, 4))
        out = d / 'out.tif'
        PanSharpen(pf, mf).process(str(out), dtype=case['dtype'], compress='deflate', write_mask=case['write_mask'],
                                   driver=case['driver'], interp='nearest', weights=[1.0])
        n = 0
        while min(h, w) / 2 ** (n + 1) >= 256:
            n += 1
        with rio.open(out) as ds:
            got = ds.overviews(1)
            a, m = ds.read(1).astype('float64'), ds.read_masks(1) > 0
        tally.add(executions=1, states=1, traces=1)
        tally.outcome('ovw', h, w, len(got))
        if got != [2 ** k for k in range(1, n + 1)]:
            raise core.Violation(f'overviews {got} for shape {(h, w)}', key='overviews')
        for k in range(n):
            f = 2 ** (k + 1)
            with rio.open(out, overview_level=k) as ds:
                o, om = ds.read(1).astype('float64'), ds.read_masks(1) > 0
            tally.add(transitions=int(o.size))
            if o.shape != (-(-h // f), -(-w // f)):
                raise core.Violation(f'overview {f} has shape {o.shape}', key='overviews')
            hh, ww = h // f, w // f
            blk = a[:hh * f, :ww * f].reshape(hh, f, ww, f)
            bm = m[:hh * f, :ww * f].reshape(hh, f, ww, f)
            cnt = bm.sum(axis=(1, 3))
            with np.errstate(invalid='ignore'):
                mean = np.where(bm, blk, 0).sum(axis=(1, 3)) / cnt
            # interior of each axis (odd sizes stretch the last rows / columns)
            full = (cnt == f * f)
            none = (cnt == 0)
            exact = h % f == 0 and w % f == 0
            o, om = o[:hh, :ww], om[:hh, :ww]
            tol = (0.6 if f == 2 else 1.2) if case['dtype'] == 'uint8' else 1e-3
            if exact:
                if (np.abs(o - mean)[full] > tol).any():
                    raise core.Violation(f'overview {f} is not the average of the image', key='overview-content')
                if om[none].any() or not om[full].all():
                    raise core.Violation(f'overview {f} mask is not that of the image', key='overview-content')
            else:
                if abs(o[full].mean() - mean[full].mean()) > 2:
                    raise core.Violation(f'overview {f} is not the average of the image', key='overview-content')
                if om[5:-5, 5:-5][none[5:-5, 5:-5]].mean() > 0.2 or om[full].mean() < 0.98:
                    raise core.Violation(f'overview {f} mask is not that of the image', key='overview-content')


CHECK = C12()
