"""C17: damaged parameter files are reported as parameter errors naming the file, never misread."""
from __future__ import annotations

import copy
import json
import warnings

import numpy as np

from mc import cliscene, core, data

NAME = 'damaged_file'
# values put in place of each item of a document
SUBST = [None, 'text', 7, 2.5, [], {}, [1.0, 2.0], {'a': 1.0}, '', -1, [[]]]
JSON = ['osfm_cams', 'osfm_rec', 'osfm_ext', 'oty_ext', 'oty_gcps']
YAML = ['oty_int', 'oty_int_flat', 'oty_int_legacy', 'oty_rpc']
CSV = ['xyz_opk', 'xyz_rpy', 'lla_rpy', 'lla_opk', 'legacy']


def docs():
    """Valid documents of each format."""
    from mc import scenes

    ints = {
        'cam A': dict(type='pinhole', im_size=[20, 14], focal_len=40.0, sensor_size=[36.0, 25.2]),
        'cam B': dict(type='brown', im_size=[16, 18], focal_len=[1.2, 1.3], k1=-0.1, k2=0.02, p1=0.002, p2=-0.001, k3=0.01, cx=0.01,
                      cy=-0.02),
    }
    cams = {
        'v2 cam a': dict(projection_type='perspective', width=20, height=14, focal=1.1, k1=0.01, k2=0.02),
        'v2 cam b': dict(projection_type='brown', width=16, height=18, focal_x=1.2, focal_y=1.3, c_x=0.01, c_y=-0.02, k1=-0.1, k2=0.02,
                         p1=0.002, p2=-0.001, k3=0.01),
    }
    shots = {f'{n}.tif': dict(rotation=[3.0, 0.1 * k, 0.2], translation=[1.5, 2.5 + k, -100.0], camera=f'v2 cam {n}')
             for k, n in enumerate('ab')}
    rec = [dict(cameras=cams, shots=shots, reference_lla=dict(latitude=55.9, longitude=21.0, altitude=12.5))]
    feats = [dict(type='Feature', properties=dict(filename=f'{n}.tif', camera=f'cam {n}', xyz=[5e5 + k, 6.2e6, 220.5], opk=[0.1, -0.2, 0.3 + k]),
                  geometry=dict(type='Point', coordinates=[21.0, 55.9, 200.5])) for k, n in enumerate('ab')]
    gcps = [dict(type='Feature', properties=dict(filename=f'{n}.tif', ji=[3.5, 4 + k], id=f'g{k}', info='i'),
                 geometry=dict(type='Point', coordinates=[21.0, 55.9 + k, 30.5])) for k, n in enumerate('aab')]
    rpc = {f'{n}.tif': dict(im_size=[20, 14 + k], rpc={kk: v for kk, v in scenes.make_rpc((20, 14 + k)).items() if v is not None})
           for k, n in enumerate('ab')}
    return dict(
        oty_int=ints, oty_int_flat=dict(ints['cam B'], name='my cam'), oty_int_legacy=dict(camera=dict(ints['cam A'], name='my cam'), ortho=dict(x=1)),
        osfm_cams=cams, osfm_rec=rec, osfm_ext=rec, oty_ext=dict(type='FeatureCollection', world_crs=data.UTM, features=feats),
        oty_gcps=dict(type='FeatureCollection', features=gcps), oty_rpc=rpc,
    )


def paths(doc, pre=()):
    out = [pre]
    if isinstance(doc, dict):
        for k in doc:
            out += paths(doc[k], pre + (k,))
    elif isinstance(doc, list):
        for k in range(len(doc)):
            out += paths(doc[k], pre + (k,))
    return out


def at(doc, path):
    for k in path:
        doc = doc[k]
    return doc


def edit(doc, path, op, val=None):
    doc = copy.deepcopy(doc)
    if not path:
        return val
    parent = at(doc, path[:-1])
    if op == 'del':
        del parent[path[-1]]
    elif op == 'dup':
        parent.insert(path[-1], copy.deepcopy(parent[path[-1]]))
    elif op == 'add':
        at(doc, path)['unknown_key'] = val
    else:
        parent[path[-1]] = val
    return doc


def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def num_list(v, n=None):
    return isinstance(v, list) and (n is None or len(v) == n) and all(is_num(x) for x in v)


def has(d, *keys):
    return isinstance(d, dict) and all(k in d for k in keys)


# ------------------------------------------------------------------------------- which documents are invalid
def bad_int_cam(c, kinds):
    if not has(c, 'type', 'im_size', 'focal_len') or not isinstance(c['type'], str) or c['type'].lower() not in kinds:
        return True
    if not isinstance(c['im_size'], list):
        return not isinstance(c['im_size'], (str, dict))
    return bool(set(c) - {'type', 'im_size', 'focal_len', 'sensor_size', 'cx', 'cy', 'name', *kinds[c['type'].lower()]})


KEYS = dict(pinhole=(), brown=('k1', 'k2', 'p1', 'p2', 'k3'), fisheye=('k1', 'k2', 'k3', 'k4'),
            opencv=('k1', 'k2', 'p1', 'p2', 'k3', 'k4', 'k5', 'k6', 's1', 's2', 's3', 's4', 'tx', 'ty'))


def bad_osfm_cams(d):
    if not isinstance(d, dict):
        return True
    types = dict(perspective=('k1', 'k2'), brown=('k1', 'k2', 'p1', 'p2', 'k3'))
    for c in d.values():
        if not has(c, 'projection_type', 'width', 'height') or not isinstance(c['projection_type'], str):
            return True
        if c['projection_type'] not in types or not (has(c, 'focal') or has(c, 'focal_x', 'focal_y')):
            return True
    return False


def bad_rec(d):
    if not (isinstance(d, list) and d and has(d[0], 'cameras', 'shots', 'reference_lla')):
        return True
    d = d[0]
    if bad_osfm_cams(d['cameras']) or not isinstance(d['shots'], dict):
        return True
    for s in d['shots'].values():
        if not has(s, 'rotation', 'translation', 'camera') or not isinstance(s['camera'], str):
            return True
        if not num_list(s['rotation'], 3) or not num_list(s['translation'], 3):
            return True
    r = d['reference_lla']
    return not (has(r, 'latitude', 'longitude', 'altitude') and all(is_num(r[k]) for k in ('latitude', 'longitude', 'altitude')))


def bad_features(d, props, n_coord):
    if not has(d, 'type', 'features') or d['type'] != 'FeatureCollection' or not isinstance(d['features'], list):
        return True
    for f in d['features']:
        if not has(f, 'type', 'properties', 'geometry') or f['type'] != 'Feature' or not has(f['properties'], *props):
            return True
        g = f['geometry']
        if not has(g, 'type', 'coordinates') or g['type'] != 'Point' or not num_list(g['coordinates'], n_coord):
            return True
        p = f['properties']
        if not isinstance(p['filename'], str) or any(not num_list(p[k], n) for k, n in (('xyz', 3), ('opk', 3), ('ji', 2)) if k in props):
            return True
    return False


def invalid(fmt, d):
    """True if the document certainly is not a valid one of the format."""
    if fmt == 'oty_int':
        if not isinstance(d, dict) or not d:
            return True
        if not isinstance(next(iter(d.values())), dict):
            d = {'unknown': d}  # flat format
        return any(not isinstance(c, dict) or bad_int_cam(c, KEYS) for c in d.values())
    if fmt == 'oty_int_flat':
        if isinstance(d, dict) and d and isinstance(next(iter(d.values())), dict):
            return any(not isinstance(c, dict) or bad_int_cam(c, KEYS) for c in d.values())
        return not isinstance(d, dict) or bad_int_cam(d, KEYS)
    if fmt == 'oty_int_legacy':
        return not has(d, 'camera') or invalid('oty_int_flat', d['camera'])
    if fmt == 'osfm_cams':
        return bad_osfm_cams(d)
    if fmt == 'osfm_rec':
        if isinstance(d, list) and len(d) == 1 and has(d[0], 'cameras'):
            d = d[0]['cameras']
        return bad_osfm_cams(d)
    if fmt == 'osfm_ext':
        return bad_rec(d)
    if fmt == 'oty_ext':
        return not has(d, 'world_crs') or not isinstance(d['world_crs'], str) or bad_features(d, ('filename', 'camera', 'xyz', 'opk'), None) \
            or d['world_crs'] != data.UTM
    if fmt == 'oty_gcps':
        return bad_features(d, ('filename', 'ji'), 3)  # id & info are optional
    if fmt == 'oty_rpc':
        if not isinstance(d, dict):
            return True
        for c in d.values():
            if not has(c, 'im_size', 'rpc') or not num_list(c['im_size'], 2) or not isinstance(c['rpc'], dict):
                return True
            for k in ('height_off', 'height_scale', 'lat_off', 'lat_scale', 'long_off', 'long_scale', 'line_off', 'line_scale', 'samp_off',
                      'samp_scale'):
                if not has(c['rpc'], k) or not is_num(c['rpc'][k]):
                    return True
            for k in ('line_num_coeff', 'line_den_coeff', 'samp_num_coeff', 'samp_den_coeff'):
                if not has(c['rpc'], k) or not num_list(c['rpc'][k], 20):
                    return True
        return False
    raise ValueError(fmt)


class C17(core.Check):
    pid = 'C17'
    rule = (
        'one execution = one read of one damaged file: every truncation of every format, and every document that differs from a valid '
        'one by deleting, duplicating, adding or replacing one (thorough: also two) items, or one CSV cell, column, header or line'
    )
    assumptions = ['the values of optional interior parameters are not judged']

    def bounds(self, tier):
        return dict(edits=1 if tier == 'quick' else 2, replacements=len(SUBST), truncations='every byte')

    def cases(self, tier):
        out = []
        for fmt in JSON + YAML:
            for p in range(8):
                out.append(dict(part='edit', fmt=fmt, k=p, n=8))
            for p in range(4):
                out.append(dict(part='trunc', fmt=fmt, k=p, n=4))
            if tier == 'thorough' and fmt != 'oty_rpc':
                for p in range(96):
                    out.append(dict(part='edit2', fmt=fmt, k=p, n=96))
        for fmt in CSV:
            for part in ('cells', 'lines', 'header', 'trunc'):
                out.append(dict(part='csv-' + part, fmt=fmt))
        out.append(dict(part='other'))
        return out

    # ------------------------------------------------------------------------------------------------
    def reader(self, fmt, path):
        from orthority import param_io

        if fmt.startswith('oty_int'):
            return param_io.read_oty_int_param(path)
        if fmt in ('osfm_cams', 'osfm_rec'):
            return param_io.read_osfm_int_param(path)
        if fmt == 'osfm_ext':
            r = param_io.OsfmReader(path)
            return dict(r.read_ext_param(), **r.read_int_param())
        if fmt == 'oty_ext':
            return param_io.OtyReader(path).read_ext_param()
        if fmt == 'oty_gcps':
            return param_io.read_oty_gcps(path)
        if fmt == 'oty_rpc':
            return param_io.read_oty_rpc_param(path)
        crs = dict(xyz_rpy=data.UTM, lla_opk=data.UTM).get(fmt)
        return param_io.CsvReader(path, crs=crs).read_ext_param()

    def judge(self, fmt, text, must, tag, tally, scratch, bad, orig=None):
        """Read the text; ``must``: True - has to be reported, False - has to be accepted, None - either."""
        from orthority.errors import OrthorityError, ParamError

        path = scratch / (NAME + {'j': '.json', 'y': '.yaml'}.get('j' if fmt in JSON else 'y' if fmt in YAML else 'c', '.csv'))
        if isinstance(text, bytes):
            path.write_bytes(text)
        else:
            path.write_text(text)
        tally.add(executions=1, states=1)
        try:
            got = self.reader(fmt, str(path))
        except ParamError as ex:
            tally.outcome(fmt, 'error', must)
            if NAME not in str(ex):
                bad('name', f'{fmt}, {tag}: the error does not name the file: {ex}')
            if must is False:
                bad('rejected', f'{fmt}, {tag}: rejected: {ex}')
            return None
        except Exception as ex:
            bad('type', f'{fmt}, {tag}: {core._describe(ex)}, a ParamError expected')
            return None
        tally.outcome(fmt, 'ok', must)
        if must:
            bad('accepted', f'{fmt}, {tag}: accepted')
        elif orig is not None:
            # entries that the edit does not touch are read as before
            for k, v in got.items():
                if k in orig and k not in self.touched and repr(v) != repr(orig[k]):
                    bad('changed', f'{fmt}, {tag}: entry {k} is read as {v}, {orig[k]} expected')
        return got

    def dump(self, fmt, doc):
        if fmt in JSON:
            return json.dumps(doc)
        import yaml

        return yaml.safe_dump(doc, sort_keys=False, default_flow_style=None)

    def edits(self, fmt, doc):
        """Every single edit of the document: (tag, path, new document)."""
        for p in paths(doc):
            if fmt == 'oty_rpc' and len(p) == 4 and p[3] not in (0, 1, 19):
                continue
            old = at(doc, p)
            for v in SUBST:
                if type(v) is type(old) and v == old:
                    continue
                yield f'{list(p)} = {v!r}', p, edit(doc, p, 'set', v)
            if p and isinstance(old, str):
                # keywords of this and other formats
                words = {'type': ['rpc', 'RPC', 'pinhole', 'Brown', 'fisheye', 'opencv', 'frame', 'Point', 'LineString', 'Feature', 'FeatureCollection'],
                         'projection_type': ['rpc', 'spherical', 'equirectangular', 'opencv7', 'dual', 'brown']}.get(p[-1], [])
                for v in words:
                    if v != old:
                        yield f'{list(p)} = {v!r}', p, edit(doc, p, 'set', v)
            if p:
                yield f'{list(p)} deleted', p, edit(doc, p, 'del')
                if isinstance(at(doc, p[:-1]), list):
                    yield f'{list(p)} duplicated', p, edit(doc, p, 'dup')
            if isinstance(old, dict) and p:
                for v in (None, 1.5, {}, 'x'):
                    yield f'{list(p)} with an unknown item {v!r}', p, edit(doc, p, 'add', v)

    def entry(self, fmt, p):
        """Names of the entries (cameras, images) that an edit at the path touches."""
        d = docs()[fmt]
        if fmt in ('oty_int', 'oty_rpc'):
            return {p[0]} if p else None
        if fmt == 'osfm_cams':
            return {p[0][3:]} if p else None
        if fmt in ('osfm_rec', 'osfm_ext'):
            if len(p) >= 3 and p[1] == 'cameras':
                return {p[2][3:]}
            if len(p) >= 3 and p[1] == 'shots':
                return {p[2]}
            return None
        if fmt in ('oty_ext', 'oty_gcps'):
            if len(p) >= 2 and p[0] == 'features':
                f = d['features'][p[1]]
                return {f['properties']['filename']}
            return None
        return None

    def run_case(self, case, tally, scratch):
        found = {}

        def bad(key, text):
            found.setdefault((case.get('fmt'), key), core.Violation(text, key=f'{case.get("fmt")} {key}'))

        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            part = case['part']
            if part in ('edit', 'edit2', 'trunc'):
                self.run_tree(case, tally, scratch, bad)
            elif part == 'other':
                self.run_other(tally, scratch, bad)
            else:
                self.run_csv(case, tally, scratch, bad)
        core.raise_all(found)

    def run_tree(self, case, tally, scratch, bad):
        fmt = case['fmt']
        doc = docs()[fmt]
        if invalid(fmt, doc):
            raise core.Violation(f'{fmt}: reference document taken as invalid', key='scene')
        text = self.dump(fmt, doc)
        self.touched = set()
        orig = self.judge(fmt, text, False, 'valid file', tally, scratch, bad)
        if case['part'] == 'trunc':
            for k in range(case['k'], len(text), case['n']):
                must = True if fmt in JSON else None
                if fmt in YAML:
                    import yaml

                    try:
                        must = True if invalid(fmt, yaml.safe_load(text[:k])) else None
                    except Exception:
                        must = True
                self.judge(fmt, text[:k], must, f'first {k} of {len(text)} characters', tally, scratch, bad)
            return
        if case['part'] == 'edit':
            for i, (tag, p, d) in enumerate(self.edits(fmt, doc)):
                if i % case['n'] != case['k']:
                    continue
                must = True if invalid(fmt, d) else None
                touched = self.entry(fmt, p)
                self.touched = touched or set()
                self.judge(fmt, self.dump(fmt, d), must, tag, tally, scratch, bad, orig if touched else None)
            return
        for i, (tag, p, d) in enumerate(self.edits(fmt, doc)):
            if i % case['n'] != case['k'] or not isinstance(d, (dict, list)):
                continue
            for tag2, p2, d2 in self.edits(fmt, d):
                self.touched = set()
                self.judge(fmt, self.dump(fmt, d2), True if invalid(fmt, d2) else None, f'{tag}; {tag2}', tally, scratch, bad)

    # ------------------------------------------------------------------------------------------------
    def csv_rows(self, fmt):
        xyz, lla = [[500012.25 + k, 6199987.5 - k, 222.125] for k in range(4)], [[55.93 + k * 0.001, 21.01, 222.125] for k in range(4)]
        ang = [[2.5, -30.25 + k, 93.5] for k in range(4)]
        head = ['filename']
        head += ['latitude', 'longitude', 'altitude'] if fmt.startswith('lla') else ['x', 'y', 'z']
        head += ['roll', 'pitch', 'yaw'] if fmt.endswith('rpy') else ['omega', 'phi', 'kappa']
        head += ['camera'] if fmt != 'legacy' else []
        rows = [[f'image_{k}.tif', *(repr(v) for v in (lla if fmt.startswith('lla') else xyz)[k] + ang[k])] + (
            [f'cam {k % 2}'] if fmt != 'legacy' else []) for k in range(4)]
        return head, rows

    def csv_text(self, head, rows):
        return '\n'.join(','.join(r) for r in ([head] if head else []) + rows) + '\n'

    def run_csv(self, case, tally, scratch, bad):
        fmt, part = case['fmt'], case['part'][4:]
        head, rows = self.csv_rows(fmt)
        shown = None if fmt == 'legacy' else head
        text = self.csv_text(shown, rows)
        self.touched = set()
        orig = self.judge(fmt, text, False, 'valid file', tally, scratch, bad)
        if orig is None or list(orig) != [r[0] for r in rows]:
            bad('scene', f'{fmt}: valid file read as {orig}')
            return
        if part == 'trunc':
            for k in range(len(text)):
                t = text[:k]
                got = self.judge(fmt, t, True if not t.strip() else None, f'first {k} of {len(text)} characters', tally, scratch, bad)
                # complete lines are read as in the whole file
                done = t.count('\n') - (0 if fmt == 'legacy' else 1)
                if got is not None and done >= 2:
                    for r in rows[:done]:
                        if repr(got.get(r[0])) != repr(orig[r[0]]) and fmt != 'lla_rpy':
                            bad('changed', f'{fmt}, first {k} characters: image {r[0]} read as {got.get(r[0])}, {orig[r[0]]} expected')
        elif part == 'cells':
            for i in range(len(rows)):
                for j in range(len(head)):
                    for v in ('', 'abc', '1.2.3', '--5', '1e', 'nan x'):
                        if j in (0, 7):
                            continue
                        rr = [list(r) for r in rows]
                        rr[i][j] = v
                        # a damaged first row of a file without header can be taken for a header
                        must = True
                        self.judge(fmt, self.csv_text(shown, rr), must, f'row {i}, {head[j]} = {v!r}', tally, scratch, bad)
        elif part == 'lines':
            for i in range(len(rows)):
                for n in range(1, 7):
                    rr = [list(r) for r in rows]
                    rr[i] = rr[i][:n]
                    self.judge(fmt, self.csv_text(shown, rr), True, f'row {i} cut to {n} fields', tally, scratch, bad)
                # the same with the file name as the last field
                for n in range(1, 7):
                    if not shown:
                        break
                    rr = [r[1:7] + r[:1] for r in rows]
                    rr[i] = rr[i][:n]
                    self.judge(fmt, self.csv_text(head[1:7] + head[:1], rr), True, f'file name last, row {i} cut to {n} fields', tally, scratch, bad)
                rr = [list(r) for r in rows]
                rr[i] = rr[i] + ['extra', '5']
                self.judge(fmt, self.csv_text(shown, rr), None, f'row {i} with extra fields', tally, scratch, bad)
        elif part == 'header' and shown:
            for j in range(len(head)):
                must = True if j < 7 else None
                for v in ('other', '', head[j] + 'x', head[(j + 1) % len(head)]):
                    hh = list(head)
                    hh[j] = v
                    self.judge(fmt, self.csv_text(hh, rows), must, f'header {head[j]} replaced by {v!r}', tally, scratch, bad)
                rr = [r[:j] + r[j + 1:] for r in rows]
                self.judge(fmt, self.csv_text(head[:j] + head[j + 1:], rr), must, f'column {head[j]} removed', tally, scratch, bad)
            self.judge(fmt, self.csv_text(head, []), None, 'header only', tally, scratch, bad)

    # ------------------------------------------------------------------------------------------------
    def run_other(self, tally, scratch, bad):
        """Files that are not of the format at all."""
        contents = {'empty': '', 'blank': '\n\n  \n', 'number': '5', 'null': 'null', 'string': '"x"', 'text': 'hello there', 'list': '[1, 2, 3]',
                    'emptylist': '[]', 'emptydict': '{}', 'xml': '<a><b/></a>', 'nul': '\x00\x01\x02', 'colon': ': : :', 'tabs': '\t\t:\t-',
                    'listdict': '[{}]', 'nested': '{"a": {"b": {}}}', 'true': 'true', 'yaml-null': 'a: null', 'yaml-list': 'a: [1, 2]',
                    'dash': '- a\n- b\n', 'camera-null': 'camera: null', 'camera-list': 'camera: [1]', 'camera-text': 'camera: x',
                    'not-utf8': b'\xff\xfe\x00\xd8\x80\n\x81,\x82\n', 'latin1': 'filename,x,y\nimag\xe9.tif,1,2\n'.encode('latin1'),
                    'camera-empty': 'camera: {}', 'int-keys': '{1: {type: pinhole, im_size: [2, 3], focal_len: 1}}'}
        for fmt in JSON + YAML + ['xyz_opk', 'lla_rpy']:
            for name, text in contents.items():
                self.touched = set()
                must = True
                if (fmt == 'oty_rpc' and name == 'emptydict') or (fmt in ('osfm_cams', 'osfm_rec') and name == 'emptydict'):
                    must = None
                self.judge(fmt, text, must, f'content {name}', tally, scratch, bad)
        # a reconstruction file with two components is read, with the first
        # files that refer to unknown cameras
        from orthority.errors import ParamError
        from orthority.factory import FrameCameras

        d = docs()
        i, e = scratch / 'i.yaml', scratch / 'e.geojson'
        i.write_text(self.dump('oty_int', d['oty_int']))
        for cam in ('cam A', 'cam B', 'other', '', None):
            g = copy.deepcopy(d['oty_ext'])
            for f in g['features']:
                f['properties']['camera'] = cam
            e.write_text(json.dumps(g))
            tally.add(executions=1, states=1)
            try:
                FrameCameras(str(i), str(e)).get('a.tif')
                ok = True
            except ParamError:
                ok = False
            if ok != (cam in ('cam A', 'cam B')):
                bad('camera', f'image with camera ID {cam!r}: ' + ('accepted' if ok else 'rejected'))


CHECK = C17()
