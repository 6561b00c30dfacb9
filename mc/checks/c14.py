"""C14: CSV exterior parameter files."""
from __future__ import annotations

import csv
import io
import warnings

import numpy as np

from mc import core, data, space
from mc.cliscene import opk_matrix
from mc.ref.orient import rpy_matrix

ROWS = [  # name, world position, (a, b, c) angles in degrees, camera
    ('a_0005_0018.tif', (600012.25, 6199987.5, 222.125), (2.5, -30.25, 93.5), 'cam A'),
    ('a_0005_0136.jpg', (599971.5, 6200043.75, 214.5), (-0.75, 4.125, -175.5), 'cam B 1 0.5'),
    ('b_0007_0140', (600100.125, 6199899.25, -3.5), (179.5, -89.5, 0.25), 'cam A'),
    ('b_0007_0141.tif', (599899.0, 6200101.0, 2222.0), (0.5, 0.125, 12.5), ''),
]
WKT = object()
# positions around the corner of 4 UTM zones, read in all orders
SPREAD = [(la, lo) for la in (-0.6, -0.01, 0.02, 0.9) for lo in (17.0, 17.99, 18.01, 18.5, 23.5)]
DIMS = dict(
    pos=['xyz', 'lla', 'xyz+lla'],
    ang=['opk', 'rpy', 'opk+rpy'],
    names=['header', 'fieldnames', 'header+fieldnames', 'legacy'],
    order=['usual', 'reversed', 'angles first', 'name last'],
    case=['lower', 'Title', 'UPPER', 'spaced'],
    delim=[',', ';', ':', ' ', '\t'],
    quote=['none', '"', "'", 'all"', "all'"],
    eol=['\n', '\r\n', 'no-last'],
    camera=['all', 'absent', 'some', 'one', 'short'],
    small=[False, True],  # angles of less than a tenth of a degree
    extra=['no', 'first', 'last', 'middle'],
    radians=[False, True],
    dialect=[False, True],
    crs=['arg', 'prj-wkt', 'prj-epsg', 'prj-proj4', 'prj+arg', 'none', 'arg-str', 'prj-bad', 'prj-geog', 'arg-vert', 'prj-geocentric', 'prj-local'],
    lla=['default', 'ED50', 'str'],
    rows=[4, 3, 2, 1, 250],  # 250 rows are more than the part that is examined for the dialect
    number=['repr', 'exp', 'plus', 'int'],
    path=['plain', 'folder', 'dots', 'windows-safe'],
    kind=['str', 'Path', 'OpenFile', 'text'],
    south=[False, True],
    pad=[False, True, 'some'],  # a space after delimiters, of some rows
)
FIELDS = dict(xyz=['x', 'y', 'z'], lla=['latitude', 'longitude', 'altitude'], opk=['omega', 'phi', 'kappa'], rpy=['roll', 'pitch', 'yaw'])


def valid(c):
    if c['names'] == 'legacy' and not (c['pos'] == 'xyz' and c['ang'] == 'opk' and c['order'] == 'usual' and c['camera'] == 'absent'
                                       and c['extra'] == 'no' and c['case'] == 'lower'):
        return False
    if c['case'] == 'spaced' and (c['quote'] != 'none' or c['delim'] == ' '):
        return False  # not among the documented dialects
    if c['camera'] == 'short' and (not c['dialect'] or c['quote'] == 'none' or c['order'] != 'usual' or c['extra'] == 'last' or c['pad']):
        return False
    if c['camera'] == 'some' and c['delim'] == ' ' and c['quote'] == 'none':
        return False  # an empty value can not be told from a space
    if c['pad'] == 'some' and c['quote'] != 'none':
        return False
    if c['pad'] and (c['delim'] in ' :' or c['case'] == 'spaced'):
        return False
    if c['path'] == 'dots' and c['kind'] == 'text':
        return False
    return True


class C14(core.Check):
    pid = 'C14'
    rule = (
        'one execution = one CSV file read by CsvReader; positions are compared with those the file gives (projected where '
        'geographic), orientations as rotation matrices; states = files, transitions = image rows'
    )
    assumptions = ['rasterio / PROJ transformations are right', 'dialects are detected from files of 1 or more rows']

    def bounds(self, tier):
        return dict(dimensions={k: [str(v) for v in d] for k, d in DIMS.items()}, deviations=2 if tier == 'quick' else 3,
                    spread=dict(positions=len(SPREAD), rows=3 if tier == 'quick' else 4))

    def cases(self, tier):
        k = 2 if tier == 'quick' else 3
        bases = [dict(), dict(pos='lla', ang='rpy', crs='none', delim=' ', quote='"'),
                 dict(names='legacy', camera='absent', crs='prj-wkt')]
        out = []
        for b in bases:
            out += space.deviations(DIMS, k, base=b, valid=valid)
        return space.unique(out) + [dict(part='spread', first=i, n=3 if tier == 'quick' else 4) for i in range(len(SPREAD))]

    # ------------------------------------------------------------------------------------ file
    def make(self, case, scratch):
        from rasterio.warp import transform

        crs = self.world(case)
        lla_crs = {'default': 'EPSG:4979', 'ED50': 'EPSG:4230', 'str': 'EPSG:4979'}[case['lla']]
        cols = ['filename']
        groups = case['pos'].split('+') + case['ang'].split('+')
        for g in groups:
            cols += FIELDS[g]
        if case['camera'] != 'absent':
            cols.append('camera')
        if case['extra'] != 'no':
            cols.insert({'first': 0, 'last': len(cols), 'middle': 3}[case['extra']], 'other')
        if case['order'] == 'reversed':
            cols = cols[::-1]
        elif case['order'] == 'angles first':
            a = [f for g in case['ang'].split('+') for f in FIELDS[g]]
            cols = a + [f for f in cols if f not in a]
        elif case['order'] == 'name last':
            cols = [f for f in cols if f != 'filename'] + ['filename']
        rows = []
        for n in range(case['rows']):
            name, xyz, ang, cam = ROWS[n % len(ROWS)]
            if n >= len(ROWS):
                name, xyz = f'{n}_{name}', (xyz[0] + n / 8, xyz[1] - n / 4, xyz[2] + n / 2)
            if case['small']:
                ang = (0.0625 - n % 4 / 64, -0.03125, 0.015625 * (n % 5))
            if case['number'] == 'int':
                xyz, ang = tuple(map(round, xyz)), tuple(map(round, ang))
            y = xyz[1] if not case['south'] else xyz[1] - 6300000.0
            xyz = (xyz[0], y, xyz[2])
            la = np.round(np.ravel(transform(data.UTM, lla_crs, [xyz[0]], [xyz[1]], [xyz[2]])), 8)
            r = dict(filename=name, camera={'all': cam or 'cam C', 'some': cam, 'short': cam, 'one': 'cam A', 'absent': None}[case['camera']], other=f'x{n}')
            r.update(zip(FIELDS['xyz'], xyz))
            r.update(latitude=float(la[1]), longitude=float(la[0]), altitude=float(la[2]))
            if case['radians']:
                ang = tuple(np.round(np.radians(ang), 9).tolist())
            r.update(zip(FIELDS['opk'], ang))
            r.update(zip(FIELDS['rpy'], ang if 'opk' not in case['ang'] else ang[::-1]))
            if case['quote'] == 'none' and case['delim'] in ' :' and r['camera']:
                r['camera'] = r['camera'].replace(' ', '_')  # values that contain the delimiter have to be quoted
            rows.append(r)
        # text
        d, q = case['delim'], case['quote']

        def number(v):
            if case['number'] == 'exp':
                return f'{v:.17e}'
            if case['number'] == 'int' and float(v).is_integer():
                return str(int(v))
            return ('+' if case['number'] == 'plus' and v >= 0 else '') + repr(float(v))

        def cell(v, force=False):
            s = v if isinstance(v, str) else number(v) if v is not None else ''
            if q.startswith('all') or (q != 'none' and isinstance(v, str) and force):
                return q[-1] + s + q[-1]
            return s

        def needs(s):
            return q != 'none' and isinstance(s, str)

        lines = []
        fmt = dict(lower=str, Title=str.title, UPPER=str.upper, spaced=lambda s: f' {s} ')[case['case']]
        prefix = {'plain': '', 'folder': 'some/dir/', 'dots': 'dir.x/', 'windows-safe': './'}[case['path']]
        if case['names'] in ('header', 'header+fieldnames'):
            lines.append(d.join(cell(fmt(f), q != 'none') for f in cols))
        if case['pad'] is True:
            d += ' '
            lines = [d.join(ln.split(case['delim'])) for ln in lines]
        for r in rows:
            lines.append((d + ' ' * (case['pad'] == 'some' and r is not rows[0])).join(cell(prefix + r[f] if f == 'filename' else r[f], needs(r[f])) for f in cols))
        if case['camera'] == 'short':
            # rows without a camera end before it
            lines = [ln if n < len(lines) - len(rows) or rows[n - len(lines)]['camera'] else ln[:ln.rindex(d)] for n, ln in enumerate(lines)]
        eol = '\r\n' if case['eol'] == '\r\n' else '\n'
        text = eol.join(lines) + ('' if case['eol'] == 'no-last' else eol)
        folder = scratch / ('dir.v1' if case['path'] == 'dots' else 'dir')
        folder.mkdir()
        path = folder / ('ext.v2.csv' if case['path'] == 'dots' else 'ext.csv')
        path.write_bytes(text.encode())
        prj = {'prj-wkt': lambda: self.rio.CRS.from_string(data.UTM).to_wkt(), 'prj-epsg': lambda: data.UTM,
               'prj-proj4': lambda: '+proj=utm +zone=34 +datum=WGS84 +units=m +no_defs', 'prj+arg': lambda: 'EPSG:3857',
               'prj-bad': lambda: 'nonsense', 'prj-geog': lambda: 'EPSG:4326', 'prj-geocentric': lambda: 'EPSG:4978',
               'prj-local': lambda: 'LOCAL_CS["here",UNIT["metre",1]]'}.get(case['crs'])
        if prj:
            path.with_suffix('.prj').write_text(prj())
        return path, text, cols, rows, crs, lla_crs

    def world(self, case):
        import rasterio as rio

        self.rio = rio
        return {'arg-vert': 'EPSG:32634+5773'}.get(case['crs'], data.UTM)

    def run_case(self, case, tally, scratch):
        import fsspec
        from orthority import errors
        from orthority.param_io import CsvReader

        if case.get('part') == 'spread':
            return self.run_spread(case, tally, scratch)
        path, text, cols, rows, crs, lla_crs = self.make(case, scratch)
        kw = dict(radians=case['radians'])
        if case['lla'] != 'default':
            kw['lla_crs'] = lla_crs if case['lla'] == 'str' else self.rio.CRS.from_string(lla_crs)
        if case['crs'] in ('arg', 'prj+arg', 'arg-vert'):
            kw['crs'] = self.rio.CRS.from_string(crs)
        elif case['crs'] == 'arg-str':
            kw['crs'] = crs
        if 'fieldnames' in case['names']:
            kw['fieldnames'] = cols
        if case['dialect']:
            class D(csv.excel):
                delimiter = case['delim']
                quotechar = case['quote'][-1] if case['quote'] != 'none' else '"'
                skipinitialspace = True
            kw['dialect'] = D()
        f = {'str': lambda: str(path), 'Path': lambda: path, 'OpenFile': lambda: fsspec.open(str(path), 'rt'),
             'text': lambda: io.StringIO(text.replace('\r\n', '\n'))}[case['kind']]()
        # expected outcome
        is_xyz, is_opk = 'xyz' in case['pos'], 'opk' in case['ang']
        given = case['crs'] in ('arg', 'prj+arg', 'arg-vert', 'arg-str')
        prj = case['crs'].startswith('prj') and case['crs'] != 'prj+arg' and case['kind'] != 'text' and is_xyz
        error = None
        if prj and case['crs'] in ('prj-bad', 'prj-geog', 'prj-geocentric', 'prj-local'):
            error = errors.ParamError
        elif not given and not prj and ((is_xyz and not is_opk) or (not is_xyz and is_opk)):
            error = errors.CrsMissingError
        has = 'none' if is_xyz and is_opk and not given and not prj else 'utm' if not given and not prj else 'given'
        what = f'{text!r} with {kw}'
        # a single row without a header is taken for a header (known finding)
        single = 'single row' if case['rows'] == 1 and case['names'] in ('fieldnames', 'legacy') else None
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                r = CsvReader(f, **kw)
                got = r.read_ext_param()
                again = r.read_ext_param()
            except Exception as ex:
                if error and isinstance(ex, error):
                    tally.add(states=1, executions=1, traces=1)
                    tally.outcome(type(ex).__name__)
                    return
                raise core.Violation(f'{core._describe(ex)} for {what}', single or 'error')
        if error:
            raise core.Violation(f'no {error.__name__} for {what}', 'no-error')
        if got != again:
            raise core.Violation(f'a second read gives {again}, not {got}', 'again')
        want_crs = None if has == 'none' else self.rio.CRS.from_string(crs if has == 'given' else
                                                                       'EPSG:32734' if case['south'] else data.UTM)
        if r.crs != want_crs:
            raise core.Violation(f'CRS {r.crs}, not {want_crs} for {what}', 'crs')
        names = [q['filename'] for q in rows]
        if list(got) != names:
            raise core.Violation(f'images {list(got)}, not {names} for {what}', single or 'names')
        for q in rows:
            g = got[q['filename']]
            cam = q['camera'] or None
            if (g['camera'] or None) != cam:
                raise core.Violation(f"camera {g['camera']!r}, not {cam!r} for {what}", 'camera')
            self.compare(q, g, is_xyz, is_opk, want_crs, lla_crs, case['radians'], what)
            tally.add(transitions=1)
        tally.add(states=1, executions=1, traces=1)
        tally.outcome(case['pos'], case['ang'], case['names'], has)

    def run_spread(self, case, tally, scratch):
        """The automatic CRS of every sequence of positions."""
        import itertools

        import rasterio as rio
        from mc.checks.c15 import zone
        from orthority.param_io import CsvReader

        found = {}
        for n in range(1, case['n'] + 1):
            for rest in itertools.product(SPREAD, repeat=n - 1):
                pts = [SPREAD[case['first']], *rest]
                m = np.mean(pts, axis=0)
                if abs(m[0]) < 1e-9 or min(abs(m[1] - 18), abs(m[1] - 24)) < 1e-9:
                    continue
                text = 'filename,latitude,longitude,altitude,roll,pitch,yaw\n'
                text += ''.join(f'im_{k}.tif,{a!r},{b!r},200.5,1.5,-2.5,3.5\n' for k, (a, b) in enumerate(pts))
                want = rio.CRS.from_epsg(zone(*m))
                try:
                    got = CsvReader(io.StringIO(text)).crs
                except Exception as ex:
                    found.setdefault('spread error', core.Violation(f'{core._describe(ex)} for {text!r}', 'spread error'))
                    continue
                if got != want:
                    found.setdefault('spread', core.Violation(f'CRS {got}, not {want} for positions {pts}', 'spread'))
                tally.add(states=1, executions=1, traces=1, transitions=n)
        tally.outcome('spread')
        core.raise_all(found)

    def compare(self, q, g, is_xyz, is_opk, crs, lla_crs, radians, what):
        from rasterio.warp import transform

        ang = [q[f] for f in FIELDS['opk' if is_opk else 'rpy']]
        ang = np.array(ang) if radians else np.radians(ang)
        if is_xyz:
            xyz = tuple(q[f] for f in FIELDS['xyz'])
            if not is_opk:
                lon, lat, alt = np.ravel(transform(crs, lla_crs, *[[v] for v in xyz]))
        else:
            lat, lon, alt = (q[f] for f in FIELDS['lla'])
            xyz = tuple(np.ravel(transform(lla_crs, crs, [lon], [lat], [alt])))
        if len(g['xyz']) != 3 or not np.allclose(g['xyz'], xyz, rtol=0, atol=0 if is_xyz else 1e-6):
            raise core.Violation(f"position {g['xyz']}, not {xyz} for {what}", 'position')
        want = opk_matrix(ang) if is_opk else rpy_matrix(ang, (lat, lon, alt), crs, lla_crs)
        tol = 1e-9 if is_opk else 1e-4
        if not np.allclose(opk_matrix(g['opk']), want, rtol=0, atol=tol):
            raise core.Violation(f"orientation {g['opk']} is not that of {ang.tolist()} for {what}", 'orientation')


CHECK = C14()
