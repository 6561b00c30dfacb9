"""C16: camera parameters from EXIF / XMP tags."""
from __future__ import annotations

import warnings

import numpy as np

from mc import core, space, tags
from mc.cliscene import opk_matrix
from mc.ref.orient import rpy_matrix

LLA = [(55.9452, 22.6009, 222.125), (-33.1206, 21.5307, 120.5), (1.25, -0.5, -3.75), (-0.0001, 179.99, 8848.0)]  # image n uses LLA[(first + n)]
DEWARP = (25.5, 24.75, 1.25, -0.75, -0.11, 0.043, 0.0037, -0.0051, 0.017)
# positions around the corner of 4 UTM zones; images with them are read in all orders
SPREAD = [(-0.6, 17.0), (-0.01, 17.99), (0.02, 17.99), (0.9, 17.0), (-0.01, 18.01), (0.02, 18.5), (0.9, 23.5), (-0.6, 23.5)]
DIMS = dict(
    dewarp=['absent', 'good', 'zeros', 'short', 'no date', 'element', 'some zeros'],
    dim=['same', 'absent', 'double', 'zero'],
    focal=['yes', 'no'],
    unit=['4', '2', '3', '5', 'absent', '1', '9'],
    res=['both', 'no x', 'no y'],
    f35=['yes', 'no'],
    xlla=['full', 'no lat', 'no alt', 'absent', 'other ns'],
    ella=['full', 'absent', 'no lat', 'no lon', 'no latref', 'no lonref'],
    altref=['absent', '0x00', '0x01', '0', '1', 'no alt'],
    rpy=['dji', 'sensefly', 'pix4d', 'dji+sensefly', 'dji-part+pix4d', 'sensefly+pix4d', 'absent', 'dji-part'],
    angles=[(0.0, -90.0, 30.0), (0.0, -60.5, -120.25), (2.5, -85.0, 179.9), (-1.0, -110.0, 0.0), (0.0, 0.0, 90.0), (0.0, 0.0, 0.0), (0.0, -90.0, 0.0)],
    style=['attr', 'elem', 'split', 'pretty', 'pretty elem'],
    ns=['', 'EXIF'],
    ident=['make+model', 'all', 'make', 'model', 'serial', 'none'],
    size=[(8, 6), (6, 8)],
    lla0=[0, 1, 2, 3],
    crs=['none', 'utm', 'str', 'vertical'],
    lla=['default', 'ED50'],
    n=[1, 2, 3],
    via=['factory', 'reader', 'ints'],
    orient=['absent', '1', '6'],
)


def valid(c):
    return not (c['res'] != 'both' and c['unit'] == 'absent')


class C16(core.Check):
    pid = 'C16'
    rule = (
        'one execution = one set of tagged images read with ExifReader / FrameCameras.from_images; parameters are compared with those of '
        'the tags by the documented tables; states = image sets, transitions = images'
    )
    assumptions = ['rasterio / GDAL gives the tags as they were written', 'an image without an altitude tag is not judged']

    def bounds(self, tier):
        return dict(dimensions={k: [str(v) for v in d] for k, d in DIMS.items()}, deviations=2 if tier == 'quick' else 3,
                    spread=dict(positions=len(SPREAD), images=3 if tier == 'quick' else 4))

    def cases(self, tier):
        k = 2 if tier == 'quick' else 3
        out = []
        for b in (dict(), dict(xlla='absent', rpy='sensefly', dewarp='good', lla0=1), dict(unit='absent', focal='no', n=2)):
            out += space.deviations(DIMS, k, base=b, valid=valid)
        return space.unique(out) + [dict(part='spread', first=i, n=3 if tier == 'quick' else 4) for i in range(len(SPREAD))]

    # ------------------------------------------------------------------------------------ images
    def make(self, case, n, scratch):
        """Write image n; return (path, expected)."""
        w, h = case['size']
        lla = LLA[case['lla0']]
        lla = (lla[0] + 0.001 * n, lla[1] - 0.002 * n, lla[2] + n)
        ang = tuple(a + b for a, b in zip(case['angles'], (0.0, 0.25 * n, 3.0 * n)))
        e, want = {}, {}
        ident = []
        if 'make' in case['ident'] or case['ident'] == 'all':
            e['Make'] = 'MaKe'
            ident.append('make')
        if 'model' in case['ident'] or case['ident'] == 'all':
            e['Model'] = f'Mod{n}'
            ident.append(f'mod{n}')
        if case['ident'] in ('serial', 'all'):
            e['BodySerialNumber'] = f'SN{n}x'
            ident.append(f'SN{n}x')
        want['camera'] = ' '.join(ident) or 'unknown'
        # interior
        per = dict(zip('2345', (25.4, 10.0, 1.0, 0.001))).get(case['unit'])
        fl, res = 7.25 + n, (0.5, 0.625)
        if case['focal'] == 'yes':
            e['FocalLength'] = f'({fl})'
        if case['unit'] != 'absent':
            e['FocalPlaneResolutionUnit'] = case['unit']
            if case['res'] != 'no x':
                e['FocalPlaneXResolution'] = f'({res[0]})'
            if case['res'] != 'no y':
                e['FocalPlaneYResolution'] = f'({res[1]})'
        sensor = (per * w / res[0], per * h / res[1]) if per and case['res'] == 'both' else None
        f35 = 27.0 + n
        if case['f35'] == 'yes':
            e['FocalLengthIn35mmFilm'] = f'({f35})'
        if case['orient'] != 'absent':
            e['Orientation'] = case['orient']
        dim = {'same': (w, h), 'absent': None, 'double': (2 * w, 2 * h), 'zero': (0, 0)}[case['dim']]
        if dim:
            e.update(PixelXDimension=str(dim[0]), PixelYDimension=str(dim[1]))
        props, elems = {}, {}
        dw = {'absent': None, 'zeros': (0.0,) * 9, 'short': DEWARP[:8], 'some zeros': DEWARP[:2] + (0.0, 0.0) + DEWARP[4:8] + (0.0,)}.get(case['dewarp'], DEWARP)
        if dw:
            (elems if case['dewarp'] == 'element' else props)[(tags.DJI, 'DewarpData')] = (
                '' if case['dewarp'] == 'no date' else '2018-09-07;') + ','.join(map(str, dw))
        if dw and len(dw) == 9 and any(dw) and dim and all(dim):
            m = max(dim)
            want['int'] = dict(type='brown', fpix=(dw[0] * w / dim[0], dw[1] * h / dim[1]), cx=dw[2] / m, cy=dw[3] / m,
                               **dict(zip(['k1', 'k2', 'p1', 'p2', 'k3'], dw[4:])))
        elif case['focal'] == 'yes' and sensor:
            want['int'] = dict(type='pinhole', fpix=(fl * w / sensor[0], fl * h / sensor[1]))
        elif case['f35'] == 'yes':
            if sensor:
                f = max(sensor) * f35 / 36
                want['int'] = dict(type='pinhole', fpix=(f * w / sensor[0], f * h / sensor[1]))
            else:
                want['int'] = dict(type='pinhole', fpix=(f35 / 36 * max(w, h),) * 2)
        else:
            want['int'] = None
        # position
        x = case['xlla']
        xl = (lla[0] + 0.01, lla[1] + 0.01, lla[2] + 50)
        if x != 'absent':
            ns = 'http://example.com/1.0/' if x == 'other ns' else tags.DJI
            for k, v in zip(('GpsLatitude', 'GpsLongtitude', 'AbsoluteAltitude'), xl):
                if (x, k) not in (('no lat', 'GpsLatitude'), ('no alt', 'AbsoluteAltitude')):
                    props[(ns, k)] = f'{v:+.7f}'
        el = case['ella']
        want['lla'] = tuple(float(f'{v:+.7f}') for v in xl) if x == 'full' else None
        if el != 'absent':
            def dms(v):
                v = abs(v)
                d = int(v)
                m = int((v - d) * 60)
                return f'({d}) ({m}) ({(v - d) * 3600 - m * 60:.6f})'

            if el != 'no lat':
                e['GPSLatitude'] = dms(lla[0])
            if el != 'no lon':
                e['GPSLongitude'] = dms(lla[1])
            if el != 'no latref':
                e['GPSLatitudeRef'] = 'N' if lla[0] >= 0 else 'S'
            if el != 'no lonref':
                e['GPSLongitudeRef'] = 'E' if lla[1] >= 0 else 'W'
            alt = abs(lla[2])
            if case['altref'] != 'no alt':
                e['GPSAltitude'] = f'({alt})'
                if case['altref'] != 'absent':
                    e['GPSAltitudeRef'] = case['altref']
            if el == 'full' and want['lla'] is None:
                sign = -1 if case['altref'] in ('0x01', '1') else 1
                want['lla'] = (lla[0], lla[1], None if case['altref'] == 'no alt' else sign * alt)
        # orientation
        sets = dict(dji=(tags.DJI, ('GimbalRollDegree', 'GimbalPitchDegree', 'GimbalYawDegree')), sensefly=(tags.SENSEFLY, ('Roll', 'Pitch', 'Yaw')),
                    pix4d=(tags.PIX4D, ('Roll', 'Pitch', 'Yaw')))
        want['rpy'] = None
        for k, name in enumerate(case['rpy'].split('+') if case['rpy'] != 'absent' else []):
            part = name.endswith('-part')
            ns, keys = sets[name.replace('-part', '')]
            v = tuple(a + 11.0 * k for a in ang)
            for i, (key, a) in enumerate(zip(keys, v)):
                if not (part and i == 1):
                    props[(ns, key)] = f'{a:+.4f}'
            if not part and want['rpy'] is None:
                v = tuple(float(f'{a:+.4f}') for a in v)
                want['rpy'] = (v[0], v[1] + 90.0, v[2]) if name == 'dji' else v
        path = scratch / f'im {n}.tif'
        if case['style'].endswith('elem'):
            elems, props = {**props, **elems}, {}
        xmp = None
        if props or elems:
            xmp = self.packet(props, elems, case['style'] == 'split', '\n   ' if 'pretty' in case['style'] else '')
        tags.write_tagged(path, case['size'], exif=e or None, xmp=xmp, ns=case['ns'] or None)
        return str(path), want

    @staticmethod
    def packet(props, elems, split, gap=''):
        """Packet of attributes and elements, in one or several descriptions."""
        parts = []
        groups = [({k: v}, {}) for k, v in props.items()] + [({}, {k: v}) for k, v in elems.items()] if split else [(props, elems)]
        for a, b in groups:
            nss = {}
            for ns, _ in [*a, *b]:
                nss.setdefault(ns, f'n{len(nss)}')
            decl = ' '.join(f'xmlns:{p}="{ns}"' for ns, p in nss.items())
            at = ' '.join(f'{nss[ns]}:{k}="{v}"' for (ns, k), v in a.items())
            body = gap + ''.join(f'<{nss[ns]}:{k}>{v}</{nss[ns]}:{k}>{gap}' for (ns, k), v in b.items())
            parts.append(f'<rdf:Description rdf:about="" {decl} {at}>{body}</rdf:Description>')
        head, tail = ('<?xpacket begin="\ufeff" id="W5M0MpCehiHzreSzNTczkc9d"?>\n', '\n<?xpacket end="w"?>') if gap else ('', '')
        return (f'{head}<x:xmpmeta xmlns:x="adobe:ns:meta/">{gap}<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#">{gap}'
                + gap.join(parts) + f'{gap}</rdf:RDF>{gap}</x:xmpmeta>{tail}')

    # ------------------------------------------------------------------------------------ run
    def run_spread(self, case, tally, scratch):
        """The automatic CRS of every list of images."""
        import itertools

        import rasterio as rio
        from mc.checks.c15 import zone
        from orthority.param_io import ExifReader

        def dms(v):
            v = abs(v)
            d = int(v)
            m = int((v - d) * 60)
            return f'({d}) ({m}) ({(v - d) * 3600 - m * 60:.6f})'

        for k, (la, lo) in enumerate(SPREAD):
            tags.write_tagged(scratch / f's{k}.tif', (8, 6), exif=dict(
                GPSLatitude=dms(la), GPSLongitude=dms(lo), GPSLatitudeRef='N' if la >= 0 else 'S', GPSLongitudeRef='E', GPSAltitude='(100)'), xmp=None)
        for n in range(case['n']):
            for rest in itertools.permutations([k for k in range(len(SPREAD)) if k != case['first']], n):
                ks = [case['first'], *rest]
                m = np.mean([SPREAD[k] for k in ks], axis=0)
                if abs(m[0]) < 1e-6 or min(abs(m[1] - 18), abs(m[1] - 24)) < 1e-6:
                    continue
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    got = ExifReader([str(scratch / f's{k}.tif') for k in ks]).crs
                want = rio.CRS.from_epsg(zone(*m))
                if got != want:
                    raise core.Violation(f'CRS {got}, not {want} for positions {[SPREAD[k] for k in ks]}', 'spread')
                tally.add(states=1, executions=1, traces=1, transitions=n + 1)
        tally.outcome('spread')

    def run_case(self, case, tally, scratch):
        import rasterio as rio
        from orthority.errors import ParamError
        from orthority.factory import FrameCameras
        from orthority.param_io import ExifReader, read_exif_int_param
        from mc.checks.c15 import zone

        if case.get('part') == 'spread':
            return self.run_spread(case, tally, scratch)
        case = dict(case, size=tuple(case['size']), angles=tuple(case['angles']))
        ims = [self.make(case, n, scratch) for n in range(case['n'])]
        files = [f for f, _ in ims]
        wants = [w for _, w in ims]
        names = [f.split('/')[-1] for f in files]
        what = f'tags {case}'
        llas = [w['lla'] for w in wants]
        auto = zone(*np.mean([v[:2] for v in llas], axis=0)) if all(llas) else None
        crs = {'none': None, 'utm': f'EPSG:{auto}', 'str': f'EPSG:{auto}', 'vertical': f'EPSG:{auto}+5773'}[case['crs']] if auto else (
            None if case['crs'] == 'none' else 'EPSG:32634')
        kw = {}
        if crs:
            kw['crs'] = crs if case['crs'] == 'str' else rio.CRS.from_string(crs)
        lla_crs = 'EPSG:4979'
        if case['lla'] != 'default':
            lla_crs = kw['lla_crs'] = 'EPSG:4230'
        error = any(w['int'] is None or w['lla'] is None or w['rpy'] is None for w in wants)
        if case['via'] == 'ints':
            error = any(w['int'] is None for w in wants)
        ints = exts = None
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                if case['via'] == 'ints':
                    ints = {}
                    for f in files:
                        ints.update(read_exif_int_param(f))
                elif case['via'] == 'reader':
                    r = ExifReader(files, **kw)
                    ints, exts = r.read_int_param(), r.read_ext_param()
                    got_crs = r.crs
                else:
                    fac = FrameCameras.from_images(files, io_kwargs=kw)
                    got_crs = fac.crs
            except ParamError as ex:
                if not error:
                    raise core.Violation(f'{core._describe(ex)} for {what}', 'error')
                if not any(n in str(ex) for n in names):
                    raise core.Violation(f'no file in {ex!s} for {what}', 'message')
                tally.add(states=1, executions=1, traces=1)
                tally.outcome('ParamError')
                return
            except Exception as ex:
                raise core.Violation(f'{core._describe(ex)} for {what}', 'error')
        if error:
            raise core.Violation(f'no ParamError for {what}', 'no-error')
        # interior (the last image of each camera ID)
        by_id = {w['camera']: w for w in wants}
        if ints is not None and set(ints) != set(by_id):
            raise core.Violation(f'cameras {list(ints)}, not {list(by_id)} for {what}', 'ids')
        for k, w in by_id.items():
            if ints is not None:
                self.check_int(ints[k], w['int'], case['size'], what)
        if case['via'] != 'ints':
            want_crs = rio.CRS.from_string(crs or f'EPSG:{auto}')
            if got_crs != want_crs:
                raise core.Violation(f'CRS {got_crs}, not {want_crs} for {what}', 'crs')
        if case['via'] == 'factory':
            for f, n, w in zip(files, names, wants):
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    self.check_camera(fac.get(f), w, by_id[w['camera']]['int'], case['size'], want_crs, lla_crs, what)
                tally.add(transitions=1)
        elif exts is not None:
            if list(exts) != names:
                raise core.Violation(f'images {list(exts)}, not {names} for {what}', 'names')
            for n, w in zip(names, wants):
                self.check_ext(exts[n], w, want_crs, lla_crs, what)
                tally.add(transitions=1)
        tally.add(states=1, executions=1, traces=1)
        tally.outcome(case['via'], *(w['int']['type'] for w in wants))

    def check_int(self, got, want, size, what):
        t = got['cam_type']
        if getattr(t, 'value', t) != want['type'] or tuple(got['im_size']) != size:
            raise core.Violation(f'{got} is not a {size} {want["type"]} camera for {what}', 'int-type')
        f = got['focal_len']
        f = (f, f) if np.isscalar(f) else f
        ss = got.get('sensor_size')
        fpix = (f[0] * size[0] / ss[0], f[1] * size[1] / ss[1]) if ss else (f[0] * max(size), f[1] * max(size))
        if not np.allclose(fpix, want['fpix'], rtol=1e-9, atol=0):
            raise core.Violation(f"focal length {fpix}, not {want['fpix']} pixels for {what}", 'int-focal')
        for k in ('cx', 'cy', 'k1', 'k2', 'p1', 'p2', 'k3'):
            if abs(got.get(k, 0.0) - want.get(k, 0.0)) > 1e-9:
                raise core.Violation(f'{k} is {got.get(k)}, not {want.get(k)} for {what}', 'int-coef')

    def check_camera(self, cam, w, want, size, crs, lla_crs, what):
        """Projections of the factory's camera against those of a reference camera."""
        from rasterio.warp import transform
        from mc.ref import cam as ref

        if tuple(cam.im_size) != size:
            raise core.Violation(f'image size {cam.im_size} for {what}', 'int-type')
        lat, lon, alt = w['lla']
        if alt is None:
            return
        xyz = np.ravel(transform(lla_crs, crs, [lon], [lat], [alt]))
        coef = {k: v for k, v in want.items() if k not in ('type', 'fpix')}
        r = ref.Frame(want['type'], size, want['fpix'], sensor=size, xyz=xyz, **coef)
        r.R = rpy_matrix(np.radians(w['rpy']), (lat, lon, alt), crs, lla_crs)
        # points in front of the camera
        pts = r.T + r.R @ np.array([[0.1, -0.12, 0.05, 0.0], [0.07, 0.04, -0.11, 0.0], [-1.0, -1.0, -1.0, -1.0]]) * np.array([100.0, 60.0, 200.0, 80.0])
        want_ji, got = r.project(pts), cam.world_to_pixel(pts)
        if not np.allclose(got, want_ji, rtol=0, atol=1e-3 * max(1.0, max(want['fpix']))):
            raise core.Violation(f'pixels {got.tolist()}, not {want_ji.tolist()} for {what}', 'project')

    def check_ext(self, got, w, crs, lla_crs, what):
        from rasterio.warp import transform

        if got['camera'] != w['camera']:
            raise core.Violation(f"camera {got['camera']} not {w['camera']} for {what}", 'camera')
        lat, lon, alt = w['lla']
        xyz = np.ravel(transform(lla_crs, crs, [lon], [lat], [alt or 0.0]))
        use = slice(None) if alt is not None else slice(2)
        if not np.allclose(np.array(got['xyz'])[use], xyz[use], rtol=0, atol=1e-3):
            raise core.Violation(f"position {got['xyz']}, not {xyz.tolist()} for {what}", 'position')
        want = rpy_matrix(np.radians(w['rpy']), (lat, lon, alt or 0.0), crs, lla_crs)
        if not np.allclose(opk_matrix(got['opk']), want, rtol=0, atol=1e-4):
            raise core.Violation(f"orientation {got['opk']} is not that of {w['rpy']} for {what}", 'orientation')


CHECK = C16()
