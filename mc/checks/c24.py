"""C24: hand-written parameter files in the native formats mean what the format documentation says."""
from __future__ import annotations

import itertools
import json
import warnings

import numpy as np

from mc import core, data, scenes, space
from mc.ref import cam as refcam

COEF = dict(
    pinhole=[], brown=['k1', 'k2', 'p1', 'p2', 'k3'], fisheye=['k1', 'k2', 'k3', 'k4'],
    opencv=['k1', 'k2', 'p1', 'p2', 'k3', 'k4', 'k5', 'k6', 's1', 's2', 's3', 's4', 'tx', 'ty'],
)
VALUES = dict(k1=-0.11, k2=0.043, p1=0.0037, p2=-0.0051, k3=0.017, k4=0.012, k5=-0.007, k6=0.003, s1=0.002, s2=-0.001, s3=0.0015, s4=-0.0005,
              tx=0.004, ty=-0.003)
# ------------------------------------------------------------------------------------ interior parameters
INT = dict(
    type=['pinhole', 'brown', 'fisheye', 'opencv'],
    layout=['nested', 'nested 2', 'nested 3', 'flat named', 'flat', 'config', 'config full'],
    style=['block', 'flow', 'json', 'comments', 'quoted', 'document', 'crlf', 'alias', 'merge'],
    order=['usual', 'reverse', 'sorted', 'rotated'],
    spelling=['lower', 'UPPER', 'Title'],
    focal=['one', 'int', 'pair', 'equal pair', 'near pair', 'int pair'],
    sensor=['none', 'float', 'int', 'square'],
    point=['both', 'none', 'cx', 'cy', 'zero', 'int'],
    coef=['all', 'none', 'first', 'last', 'but first', 'zero'],
    size=[(20, 14), (14, 20), (16, 16)],
    id=['cam', 'a b', 'x.y-z', 'ünï'],
)
# ------------------------------------------------------------------------------------ exterior parameters & GCPs
GEO = dict(
    images=[2, 1, 3],
    names=['ext', 'stem', 'mixed', 'spaces', 'ünï'],
    order=['usual', 'reverse', 'sorted', 'interleaved'],
    keys=['usual', 'reverse'],
    style=['plain', 'compact', 'ascii', 'crlf', 'tabs'],
    extra=['none', 'root', 'feature', 'property', 'all'],
    numbers=['float', 'int', 'exp', 'negative', 'zero'],
    geometry=['usual', 'elsewhere', '2d'],
    third=['text', 'null', 'same', 'missing', 'number'],  # camera, or GCP id & info
    crs=['EPSG:32634', 'proj4', 'wkt', 'EPSG:32634+5773'],
)
RPC = dict(
    images=[1, 2, 3],
    style=['block', 'flow', 'json', 'comments', 'crlf', 'alias', 'merge'],
    order=['usual', 'reverse', 'sorted'],
    numbers=['float', 'int offsets'],
    err=['none', 'null', 'value'],
    names=['ext', 'stem', 'spaces', 'ünï'],
    size=[(20, 14), (14, 20)],
    extra=['none', 'root'],
)
TAGS = dict(
    crs=['EPSG:4979', 'EPSG:4326', 'EPSG:32634', 'EPSG:4230', 'EPSG:4258', 'EPSG:3857', 'EPSG:32634+5773', 'EPSG:4326+5773', 'EPSG:2180'],
    n=[4, 1, 2, 9],
    images=[1, 2, 3],
    mixed=[False, True],
    z=['some', 'zero', 'negative', 'same'],
    ji=['centre', 'corner', 'outside', 'fraction'],
    via=['str', 'Path', 'dataset', 'ofile'],
)
SIDE = ['tag', '_RPC.TXT', '_rpc.txt', '.RPB', '.rpb', 'aux']
PTS = np.array([[0.31, -0.22, 1.0], [-0.4, 0.17, 1.0], [0.05, 0.33, 1.0], [0.0, 0.0, 1.0], [-0.21, -0.37, 1.0]]).T * np.array([20.0, 31.0, 8.0, 50.0, 12.5])


def scalar(v):
    if v is None:
        return 'null'
    if isinstance(v, float):
        s = repr(v)
        if 'e' in s and '.' not in s:  # YAML 1.1 numbers with an exponent have a decimal point
            s = s.replace('e', '.0e')
        return s
    return str(v) if isinstance(v, int) else v


def quote(s):
    return json.dumps(s, ensure_ascii=False)


def flow(v):
    if isinstance(v, dict):
        return '{' + ', '.join(f'{quote(k)}: {flow(x)}' for k, x in v.items()) + '}'
    if isinstance(v, (list, tuple)):
        return '[' + ', '.join(flow(x) for x in v) + ']'
    return quote(v) if isinstance(v, str) else scalar(v)


def block(d, depth, style, lists='flow'):
    """YAML text of a dictionary, written without a YAML library."""
    out = []
    for n, (k, v) in enumerate(d.items()):
        pad = ' ' * 4 * depth
        key = quote(k) if style == 'quoted' else k
        tail = '   # comment: [x, {' if style == 'comments' and n % 2 == 0 else ''
        if isinstance(v, dict):
            out.append(f'{pad}{key}:{tail}')
            out += block(v, depth + 1, style, lists)
        elif isinstance(v, (list, tuple)):
            if style == 'comments':
                out.append(f'{pad}{key}:{tail}')
                out += [f'{pad}    - {scalar(x)}' for x in v]
            elif len(v) > 5:
                out.append(f'{pad}{key}: [{", ".join(map(scalar, v[:5]))},')
                out.append(f'{pad}    {", ".join(map(scalar, v[5:]))}]{tail}')
            else:
                out.append(f'{pad}{key}: [{", ".join(map(scalar, v))}]{tail}')
        else:
            text = scalar(v)
            if style == 'quoted' and isinstance(v, str):
                text = f"'{v}'"
            out.append(f'{pad}{key}: {text}{tail}')
        if style == 'comments' and n % 3 == 1:
            out += ['', f'{pad}# k9: 5.0']
    return out


def yaml_text(d, style):
    if style == 'json':
        return json.dumps(d, ensure_ascii=False, indent=1)
    if style == 'flow':
        return ''.join(f'{quote(k)}: {flow(v)}\n' for k, v in d.items())
    lines = block(d, 0, style)
    if style == 'document':
        lines = ['%YAML 1.1', '---', *lines, '...']
    if style == 'comments':
        lines = ['# top', '', *lines, '# end']
    return ('\r\n' if style == 'crlf' else '\n').join(lines) + '\n'


def reorder(d, how):
    keys = list(d)
    if how == 'reverse':
        keys = keys[::-1]
    elif how == 'sorted':
        keys = sorted(keys)
    elif how == 'rotated':
        keys = keys[2:] + keys[:2]
    return {k: d[k] for k in keys}


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and not isinstance(a, bool):
        return isinstance(b, (int, float)) and not isinstance(b, bool) and a == b
    return a == b and type(a) is type(b)


class C24(core.Check):
    pid = 'C24'
    rule = (
        'one execution = one hand-written parameter file (or image with RPCs) read with its reader and, for interior & RPC parameters, made into '
        'cameras; the parameters and projections are compared with what the documentation says they are; states = files, transitions = '
        'values and projected points compared'
    )
    assumptions = ['YAML numbers with an exponent are written with a decimal point (YAML 1.1)', 'camera and image names are unique in a file']

    def bounds(self, tier):
        return dict(interior={k: [str(x) for x in v] for k, v in INT.items()}, geojson={k: [str(x) for x in v] for k, v in GEO.items()},
                    rpc={k: [str(x) for x in v] for k, v in RPC.items()}, rpc_images=SIDE, gcp_images={k: [str(x) for x in v] for k, v in TAGS.items()}, deviations=2 if tier == 'quick' else 3)

    def cases(self, tier):
        k = 2 if tier == 'quick' else 3
        out = []
        for t in INT['type']:
            for b in (dict(type=t), dict(type=t, layout='config', sensor='float'), dict(type=t, layout='nested 2', focal='pair')):
                out += [dict(part='int', **c) for c in space.deviations({n: v for n, v in INT.items() if n != 'type'}, k, base=b)]
        for part in ('ext', 'gcps'):
            for b in (dict(), dict(images=3, order='interleaved')):
                out += [dict(part=part, **c) for c in space.deviations(GEO, k + 1, base=b)
                        if not (part == 'gcps' and (c['crs'] != GEO['crs'][0] or c['geometry'] == '2d'))
                        and not (part == 'ext' and (c['order'] == 'interleaved' or c['third'] in ('missing', 'number')))]
        out += [dict(part='rpc', **c) for c in space.deviations(RPC, k + 1)]
        out += [dict(part='side', side=s, size=z, err=e) for s in SIDE for z in RPC['size'] for e in ('none', 'value')]
        out += [dict(part='tags', **c) for c in space.deviations(TAGS, k)]
        out = space.unique(out)
        # several files per case
        groups = {}
        for c in out:
            key = (c['part'], c.get('type'), c.get('layout'), c.get('style'), c.get('images'), c.get('side'))
            groups.setdefault(key, []).append(c)
        return [dict(part=key[0], files=g[i:i + 150]) for key, g in groups.items() for i in range(0, len(g), 150)]

    def run_case(self, case, tally, scratch):
        found = {}
        run = dict(int=self.run_int, ext=self.run_geo, gcps=self.run_geo, rpc=self.run_rpc, side=self.run_side, tags=self.run_tags)[case['part']]
        for c in case['files']:
            c = dict(c)
            if 'size' in c:
                c['size'] = tuple(c['size'])
            try:
                with warnings.catch_warnings(record=True) as caught:
                    warnings.simplefilter('always')
                    run(c, tally, scratch, caught)
            except core.Violation as v:
                found.setdefault(v.key, v)
            except Exception as ex:
                key = f"{c['part']} error {type(ex).__name__}"
                found.setdefault(key, core.Violation(f'{core._describe(ex)} for {c}', key))
            tally.add(states=1, executions=1, traces=1)
        tally.outcome(case['part'], case['files'][0].get('style'), case['files'][0].get('layout'))
        core.raise_all(found)

    # ------------------------------------------------------------------------------------ interior
    def camera(self, c, n=0):
        """(YAML parameters, parameters as documented) of the n-th camera in a file."""
        t = (COEF and list(COEF))[(list(COEF).index(c['type']) + n) % 4]
        size = tuple(s + 2 * n for s in c['size'])
        f = {'one': 0.93, 'int': 1, 'pair': [0.93, 1.07], 'equal pair': [0.93, 0.93], 'near pair': [0.93, 0.9304], 'int pair': [1, 2]}[c['focal']]
        ss = {'none': None, 'float': [1.3, 1.1], 'int': [2, 1], 'square': [1.2, 1.2]}[c['sensor']]
        d = dict(type={'lower': t, 'UPPER': t.upper(), 'Title': t.title()}[c['spelling']], im_size=list(size), focal_len=f)
        if ss:
            d['sensor_size'] = ss
        p = dict(both=dict(cx=0.013, cy=-0.021), none={}, cx=dict(cx=0.013), cy=dict(cy=-0.021), zero=dict(cx=0.0, cy=0.0), int=dict(cx=0, cy=0))[c['point']]
        d.update(p)
        names = COEF[t]
        use = {'all': names, 'none': [], 'first': names[:1], 'last': names[-1:], 'but first': names[1:], 'zero': names}[c['coef']]
        k = {m: (0 if c['coef'] == 'zero' else VALUES[m]) for m in use}
        d.update(k)
        want = dict(d, cam_type=t, im_size=size, focal_len=tuple(f) if isinstance(f, list) else f)
        del want['type']
        if ss:
            want['sensor_size'] = tuple(ss)
        return reorder(d, c['order']), want, dict(name=t, size=size, focal=f, sensor=ss, point=p, coef=k)

    def run_int(self, c, tally, scratch, caught):
        from orthority.camera import create_camera
        from orthority.param_io import read_oty_int_param

        lay = c['layout']
        n = int(lay[-1]) if lay[-1].isdigit() else 1
        cams = [self.camera(c, m) for m in range(n)]
        ids = [c['id'], 'second', 'third'][:n]
        style = c['style']
        if lay.startswith('nested'):
            if style in ('alias', 'merge'):
                # cameras that share parameters through YAML anchors
                text = yaml_text({ids[0]: cams[0][0]}, 'block').replace(f'{ids[0]}:\n', f'{ids[0]}: &a\n', 1)
                for m in ids[1:]:
                    text += f'{m}: *a\n' if style == 'alias' else f'{m}:\n    <<: *a\n    cx: 0.5\n'
                if style == 'merge':
                    cams = [cams[0], *[(None, dict(cams[0][1], cx=0.5), dict(cams[0][2], point=dict(cams[0][2]['point'], cx=0.5)))] * (n - 1)]
                else:
                    cams = [cams[0]] * n
            else:
                text = yaml_text({i: d[0] for i, d in zip(ids, cams)}, style)
        elif lay.startswith('flat'):
            d = cams[0][0]
            if lay == 'flat named':
                d = dict(name=c['id'], **d) if c['order'] != 'reverse' else dict(d, name=c['id'])
            else:
                ids = ['unknown']
            text = yaml_text(d, style if style not in ('alias', 'merge') else 'block')
        else:
            d = dict(camera=dict(name=c['id'], **cams[0][0]))
            if lay == 'config full':
                d = dict(ortho=dict(dem_interp='cubic', tile_size=[512, 512], compress='deflate'), **d, other=5)
            text = yaml_text(d, style if style not in ('alias', 'merge') else 'block')
        f = scratch / 'int.yaml'
        f.write_bytes(text.encode('utf-8'))
        got = read_oty_int_param(str(f))
        if list(got) != ids:
            raise core.Violation(f'cameras {list(got)}, not {ids} in {text!r}', 'int ids')
        for i, (_, want, spec) in zip(ids, cams):
            g = dict(got[i])
            g['cam_type'] = getattr(g.get('cam_type'), 'value', None)
            tally.add(transitions=len(want))
            if not same(want, g):
                raise core.Violation(f'parameters {g}, not {want} read from {text!r}', 'int values')
            # the documented meaning of the parameters
            kw = dict(got[i])
            cam = create_camera(kw.pop('cam_type'), xyz=(10.0, 20.0, 300.0), opk=(0.06, -0.04, 0.3), **kw)
            pix = self.project(spec, (10.0, 20.0, 300.0), (0.06, -0.04, 0.3))
            xyz = self.world((10.0, 20.0, 300.0), (0.06, -0.04, 0.3))
            if not np.allclose(cam.world_to_pixel(xyz), pix, rtol=0, atol=1e-6):
                raise core.Violation(f'pixels {cam.world_to_pixel(xyz).tolist()}, not {pix.tolist()} with {text!r}', 'int project')
            tally.add(transitions=xyz.shape[1])
        legacy = any(issubclass(w.category, FutureWarning) for w in caught)
        if legacy != lay.startswith('config'):
            raise core.Violation(f'{"a" if legacy else "no"} deprecation warning with {lay} layout', 'int warning')

    @staticmethod
    def world(xyz, opk):
        d = PTS * np.array([[1.0], [-1.0], [-1.0]])
        return refcam.rot_opk(*opk) @ d + np.array(xyz).reshape(3, 1)

    def project(self, s, xyz, opk):
        fx, fy = refcam.focal_pixels(s['size'], tuple(s['focal']) if isinstance(s['focal'], list) else s['focal'], tuple(s['sensor']) if s['sensor'] else None)
        x, y = PTS[0] / PTS[2], PTS[1] / PTS[2]
        g = lambda n: s['coef'].get(n, 0.0)  # noqa: E731
        if s['name'] == 'fisheye':
            r = np.hypot(x, y)
            t = np.arctan(r)
            d = t * (1 + g('k1') * t**2 + g('k2') * t**4 + g('k3') * t**6 + g('k4') * t**8)
            q = np.where(r > 0, d / np.where(r > 0, r, 1), 1)
            x, y = x * q, y * q
        elif s['name'] != 'pinhole':
            r2 = x * x + y * y
            d = (1 + r2 * (g('k1') + r2 * (g('k2') + r2 * g('k3')))) / (1 + r2 * (g('k4') + r2 * (g('k5') + r2 * g('k6'))))
            x, y = (d * x + 2 * g('p1') * x * y + g('p2') * (r2 + 2 * x * x) + g('s1') * r2 + g('s2') * r2 * r2,
                    d * y + 2 * g('p2') * x * y + g('p1') * (r2 + 2 * y * y) + g('s3') * r2 + g('s4') * r2 * r2)
            if g('tx') or g('ty'):
                a, b = g('tx'), g('ty')
                R = np.array([[np.cos(b), 0, -np.sin(b)], [0, 1, 0], [np.sin(b), 0, np.cos(b)]]) @ \
                    np.array([[1, 0, 0], [0, np.cos(a), np.sin(a)], [0, -np.sin(a), np.cos(a)]])
                v = np.array([[R[2, 2], 0, -R[0, 2]], [0, R[2, 2], -R[1, 2]], [0, 0, 1]]) @ R @ np.array([x, y, np.ones_like(x)])
                x, y = v[:2] / v[2]
        m = max(s['size'])
        return np.array([fx * x + s['point'].get('cx', 0.0) * m + (s['size'][0] - 1) / 2, fy * y + s['point'].get('cy', 0.0) * m + (s['size'][1] - 1) / 2])

    # ------------------------------------------------------------------------------------ GeoJSON
    def run_geo(self, c, tally, scratch, caught):
        import rasterio as rio
        from orthority.param_io import OtyReader, read_oty_gcps

        gcps = c['part'] == 'gcps'
        stems = {'spaces': ['b im', 'a im', 'c im']}.get(c['names'], ['b', 'a', 'c'])
        if c['names'] == 'ünï':
            stems = [s + 'ü漢' for s in stems]
        names = [s + ('' if c['names'] == 'stem' or (c['names'] == 'mixed' and k % 2) else '.tif') for k, s in enumerate(stems)][:c['images']]
        num = {'float': lambda v: float(v) + 0.25, 'int': lambda v: int(v), 'exp': lambda v: v * 1e-7, 'negative': lambda v: -v - 0.5, 'zero': lambda v: 0}[c['numbers']]
        recs = []
        for k, n in enumerate(names):
            for m in range(3 if gcps else 1):
                base = 10 * k + m
                recs.append((n, [num(base + 1), num(base + 2)], [num(20 + base), num(base + 3), num(base + 4)],
                             [num(base + 5), num(base + 6), num(base + 7)], f'i{base}', f'info {base}'))
        if c['order'] == 'reverse':
            recs = recs[::-1]
        elif c['order'] == 'sorted':
            recs = sorted(recs, key=lambda r: r[0])
        elif c['order'] == 'interleaved':
            recs = [r for m in range(3) for r in recs[m::3]]
        feats, want = [], {}
        for q, (n, ji, xyz, opk, i, info) in enumerate(recs):
            third = {'text': (i, info), 'null': (None, None), 'same': ('x', 'x'), 'missing': (None, None), 'number': (7, 8.5)}[c['third']]
            if gcps:
                props = dict(filename=n, ji=ji, id=third[0], info=third[1])
                if c['third'] == 'missing':
                    props = dict(filename=n, ji=ji)
                coords = xyz
                want.setdefault(n, []).append(dict(ji=ji, xyz=xyz, id=third[0], info=third[1]))
            else:
                props = dict(filename=n, camera=third[0], xyz=xyz, opk=opk)
                coords = {'usual': [21.0, 55.0, 10.0], 'elsewhere': [0, 0, 0], '2d': [21.0, 55.0]}[c['geometry']]
                want[n] = dict(xyz=xyz, opk=opk, camera=third[0])
            if c['extra'] in ('property', 'all'):
                props.update({'name': 'x', 'xyz_': [1, 2], 'z': None, 'lat': 4.0})
            feat = dict(type='Feature', properties=props, geometry=dict(type='Point', coordinates=coords))
            if c['extra'] in ('feature', 'all'):
                feat.update(id=q, bbox=[0, 0, 1, 1], filename='other.tif')
            if c['keys'] == 'reverse':
                feat['properties'] = dict(reversed(list(props.items())))
                feat['geometry'] = dict(reversed(list(feat['geometry'].items())))
                feat = dict(reversed(list(feat.items())))
            feats.append(feat)
        crs = rio.CRS.from_epsg(32634)
        text_crs = {'proj4': '+proj=utm +zone=34 +datum=WGS84 +units=m +no_defs', 'wkt': crs.to_wkt()}.get(c['crs'], c['crs'])
        d = dict(type='FeatureCollection', features=feats) if gcps else dict(type='FeatureCollection', world_crs=text_crs, features=feats)
        if c['extra'] in ('root', 'all'):
            d.update(name='x', crs=dict(type='name', properties=dict(name='urn:ogc:def:crs:OGC:1.3:CRS84')), bbox=[0, 0, 1, 1])
        if c['keys'] == 'reverse':
            d = dict(reversed(list(d.items())))
        text = {'plain': lambda: json.dumps(d, indent=4, ensure_ascii=False), 'compact': lambda: json.dumps(d, separators=(',', ':'), ensure_ascii=False),
                'ascii': lambda: json.dumps(d), 'crlf': lambda: json.dumps(d, indent=2, ensure_ascii=False).replace('\n', '\r\n'),
                'tabs': lambda: json.dumps(d, indent='\t', ensure_ascii=False)}[c['style']]()
        f = scratch / 'f.geojson'
        f.write_bytes(text.encode('utf-8'))
        if gcps:
            got = read_oty_gcps(str(f))
        else:
            r = OtyReader(str(f))
            got = r.read_ext_param()
            wc = rio.CRS.from_string(text_crs)
            if r.crs != wc:
                raise core.Violation(f'world CRS {r.crs}, not {wc} for {c}', 'ext crs')
            if not same(r.read_ext_param(), got):
                raise core.Violation(f'parameters differ when read again for {c}', 'ext again')
        tally.add(transitions=5 * len(recs))
        if list(got) != list(want):
            raise core.Violation(f'images {list(got)}, not {list(want)} for {c}', f"{c['part']} images")
        if not same(want, got):
            raise core.Violation(f'{got}, not {want} for {c}', f"{c['part']} values")

    # ------------------------------------------------------------------------------------ RPCs
    def rpc(self, c, n=0):
        r = dict(scenes.make_rpc(c['size'], lon=21.0 + n, lat=55.94 - n))
        r = {k: (list(map(float, v)) if isinstance(v, (list, tuple)) else v) for k, v in r.items() if not k.startswith('err')}
        r.update(line_off=6.75, samp_off=9.25, line_scale=8.5, samp_scale=11.0)
        if c.get('numbers') == 'int offsets':
            r.update(line_off=7, samp_off=9, line_scale=8, samp_scale=11)
        if c['err'] != 'none':
            r.update(err_bias=None if c['err'] == 'null' else 0.5, err_rand=None if c['err'] == 'null' else 0.25)
        return r

    def judge_rpc(self, got, want, size, c, tally):
        from orthority.camera import create_camera

        g = dict(got)
        if getattr(g.get('cam_type'), 'value', None) != 'rpc' or not same(tuple(size), g.get('im_size')):
            raise core.Violation(f'camera {g.get("cam_type")} of size {g.get("im_size")}, not rpc {size} for {c}', 'rpc size')
        r = {k: v for k, v in g['rpc'].items() if k in want or not k.startswith('err')}
        tally.add(transitions=len(want))
        for k, v in want.items():
            if k.startswith('err') and v is None:
                continue
            if k not in r or not np.allclose(r[k], v, rtol=1e-12, atol=0):
                raise core.Violation(f'{k} {r.get(k)}, not {v} for {c}', f'rpc {k}')
        p = np.array([[want['long_off'], want['long_off'] + 1e-4, want['long_off'] - 2e-4], [want['lat_off'], want['lat_off'] - 1e-4, want['lat_off'] + 5e-5], [20.0, 40.0, -10.0]])
        cam = create_camera(g['cam_type'], im_size=g['im_size'], rpc=g['rpc'])
        pix = cam.world_to_pixel(p)
        ref = np.array(refcam.rpc_project(want, *p))
        if not np.allclose(pix, ref, rtol=0, atol=1e-6):
            raise core.Violation(f'pixels {pix.tolist()}, not {ref.tolist()} for {c}', 'rpc project')
        tally.add(transitions=3)

    def run_rpc(self, c, tally, scratch, caught):
        from orthority.param_io import read_oty_rpc_param

        stems = {'spaces': ['b im', 'a im', 'c im'], 'ünï': ['bü', 'aü', 'cü']}.get(c['names'], ['b', 'a', 'c'])
        names = [s + ('' if c['names'] == 'stem' else '.tif') for s in stems][:c['images']]
        specs = [(n, tuple(s + k for s in c['size']), self.rpc(c, k)) for k, n in enumerate(names)]
        d = {}
        for n, size, r in specs:
            rr = reorder(r, c['order'])
            d[n] = reorder(dict(im_size=list(size), rpc=rr), c['order'])
            if c['extra'] == 'root':
                d[n]['note'] = 'x'
        if c['style'] in ('alias', 'merge'):
            text = yaml_text({names[0]: d[names[0]]}, 'block').replace(f'{names[0]}:\n', f'{names[0]}: &a\n', 1)
            for n, size, _ in specs[1:]:
                text += f'{n}: *a\n' if c['style'] == 'alias' else f'{n}:\n    <<: *a\n    im_size: [{size[0]}, {size[1]}]\n'
            specs = [(n, specs[0][1] if c['style'] == 'alias' else size, specs[0][2]) for n, size, _ in specs]
        else:
            text = yaml_text(d, c['style'])
        f = scratch / 'rpc.yaml'
        f.write_bytes(text.encode('utf-8'))
        got = read_oty_rpc_param(str(f))
        if list(got) != names:
            raise core.Violation(f'images {list(got)}, not {names} for {c}', 'rpc images')
        for n, size, r in specs:
            self.judge_rpc(got[n], r, size, c, tally)

    def run_side(self, c, tally, scratch, caught):
        """RPCs of an image: tags, sidecar files, and .aux.xml."""
        import rasterio as rio
        from orthority.param_io import read_im_rpc_param
        from rasterio.rpc import RPC as RioRPC

        for p in scratch.glob('im*'):
            p.unlink()
        f = scratch / 'im.tif'
        r = self.rpc(c)
        side = c['side']
        a = data.texture(1, c['size'][1], c['size'][0])
        data.write_image(f, a)
        full = dict(dict(err_bias=None, err_rand=None), **r)
        if side == 'tag':
            with rio.open(f, 'r+') as ds:
                ds.rpcs = RioRPC(**full)
        elif side.lower() == '_rpc.txt':
            lines = []
            if c['err'] == 'value':
                lines += [f'ERR_BIAS: {r["err_bias"]}', f'ERR_RAND: {r["err_rand"]}']
            for k, unit in (('line_off', 'pixels'), ('samp_off', 'pixels'), ('lat_off', 'degrees'), ('long_off', 'degrees'), ('height_off', 'meters'),
                            ('line_scale', 'pixels'), ('samp_scale', 'pixels'), ('lat_scale', 'degrees'), ('long_scale', 'degrees'), ('height_scale', 'meters')):
                lines.append(f'{k.upper()}: {r[k]!r} {unit}')
            for k in ('line_num_coeff', 'line_den_coeff', 'samp_num_coeff', 'samp_den_coeff'):
                lines += [f'{k.upper()}_{i + 1}: {v!r}' for i, v in enumerate(r[k])]
            (scratch / f'im{side}').write_text('\n'.join(lines) + '\n')
        elif side.lower() == '.rpb':
            names = dict(lineOffset='line_off', sampOffset='samp_off', latOffset='lat_off', longOffset='long_off', heightOffset='height_off',
                         lineScale='line_scale', sampScale='samp_scale', latScale='lat_scale', longScale='long_scale', heightScale='height_scale')
            lines = ['satId = "QB02";', 'bandId = "P";', 'SpecId = "RPC00B";', 'BEGIN_GROUP = IMAGE']
            lines += [f'\terrBias = {r.get("err_bias", 0.0)};', f'\terrRand = {r.get("err_rand", 0.0)};']
            lines += [f'\t{a} = {r[b]!r};' for a, b in names.items()]
            for a_, b in dict(lineNumCoef='line_num_coeff', lineDenCoef='line_den_coeff', sampNumCoef='samp_num_coeff', sampDenCoef='samp_den_coeff').items():
                lines.append(f'\t{a_} = (')
                lines += [f'\t\t\t{v!r}{"," if i < 19 else ");"}' for i, v in enumerate(r[b])]
            lines += ['END_GROUP = IMAGE', 'END;']
            (scratch / f'im{side}').write_text('\n'.join(lines) + '\n')
        else:
            md = {k.upper(): ' '.join(map(repr, v)) if isinstance(v, list) else repr(v) for k, v in r.items()}
            items = ''.join(f'<MDI key="{k}">{v}</MDI>' for k, v in md.items())
            (scratch / 'im.tif.aux.xml').write_text(f'<PAMDataset><Metadata domain="RPC">{items}</Metadata></PAMDataset>')
        got = read_im_rpc_param([str(f)])
        if list(got) != ['im.tif']:
            raise core.Violation(f'images {list(got)} for {c}', 'side images')
        self.judge_rpc(got['im.tif'], r, c['size'], c, tally)

    def run_tags(self, c, tally, scratch, caught):
        """GCPs of images: pixel coordinates, names and order as they are, and positions in EPSG:4979."""
        from contextlib import ExitStack
        from pathlib import Path

        import fsspec
        import rasterio as rio
        from orthority.param_io import read_im_gcps
        from rasterio.control import GroundControlPoint
        from rasterio.warp import transform

        files, want = [], {}
        for m in range(c['images']):
            crs = TAGS['crs'][(TAGS['crs'].index(c['crs']) + m) % len(TAGS['crs'])] if c['mixed'] else c['crs']
            gcps, exp = [], []
            for i in range(c['n']):
                lon, lat = 21.01 + 0.0007 * ((3 * i + m) % 7), 55.93 + 0.0004 * ((5 * i + 2 * m) % 9)
                z = {'some': 20.0 + 3.25 * i, 'zero': 0.0, 'negative': -12.5 - i, 'same': 33.0}[c['z']]
                x, y = (v[0] for v in transform('EPSG:4326', crs.split('+')[0], [lon], [lat]))
                j, k = {'centre': (3.0 + i, 7.0 - i), 'corner': ((0.0, 19.0)[i % 2], (0.0, 13.0)[i // 2 % 2]), 'outside': (-2.5 * i, 22.0 + i),
                        'fraction': (3.125 + i, 9.9375 - i)}[c['ji']]
                gcps.append(GroundControlPoint(row=k, col=j, x=x, y=y, z=z, id=str(i), info=''))
                exp.append((j, k, [v[0] for v in transform(crs, 'EPSG:4979', [x], [y], [z])]))
            f = scratch / f'im{m}.tif'
            f.unlink(missing_ok=True)
            data.write_image(f, data.texture(1, 14, 20), gcps=(gcps, crs))
            files.append(f)
            want[f.name] = exp
            with rio.open(f) as ds:
                if ds.gcps[1] != rio.CRS.from_string(crs):
                    tally.outcome('tags', 'CRS not kept by the format', crs)
                    return
                want[f.name] = [(*e, g.id, g.info) for e, g in zip(exp, ds.gcps[0])]
        with ExitStack() as st:
            arg = {'str': lambda f: str(f), 'Path': Path, 'dataset': lambda f: st.enter_context(rio.open(f)),
                   'ofile': lambda f: fsspec.open(str(f), 'rb')}[c['via']]
            got = read_im_gcps([arg(f) for f in files])
        if list(got) != list(want):
            raise core.Violation(f'GCPs of {list(got)}, not {list(want)} for {c}', 'tags images')
        for n, exp in want.items():
            if len(got[n]) != len(exp):
                raise core.Violation(f'{len(got[n])} GCPs, not {len(exp)} for {c}', 'tags count')
            for g, (j, k, xyz, name, info) in zip(got[n], exp):
                if tuple(g['ji']) != (j, k):
                    raise core.Violation(f"GCP pixel {g['ji']}, not {(j, k)} for {c}", 'tags pixel')
                if len(g['xyz']) != 3 or np.abs(np.array(g['xyz'][:2]) - xyz[:2]).max() > 1e-9 or abs(g['xyz'][2] - xyz[2]) > 1e-4:
                    raise core.Violation(f"GCP position {g['xyz']}, not {xyz} for {c}", 'tags position')
                if g['id'] != name or (g['info'] or '') != (info or ''):
                    raise core.Violation(f"GCP {g['id']!r}, {g['info']!r}, not {name!r}, {info!r} for {c}", 'tags id')
                tally.add(transitions=4)
        tally.outcome('tags', c['crs'], c['images'])


CHECK = C24()
