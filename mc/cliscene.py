"""Complete input directories for each CLI command, written without orthority's own writers."""
from __future__ import annotations

import json

import numpy as np

from mc import data, tags

SIZE = (20, 14)
H = 200.0
POSES = [((data.X0, data.Y0, 222.0), (0.05, -0.04, 0.3)), ((data.X0 + 25, data.Y0 - 12, 214.0), (-0.06, 0.03, -1.2)),
         ((data.X0 - 18, data.Y0 + 9, 230.0), (0.02, 0.05, 2.5))]


def opk_matrix(opk):
    o, p, k = opk
    rx = np.array([[1, 0, 0], [0, np.cos(o), -np.sin(o)], [0, np.sin(o), np.cos(o)]])
    ry = np.array([[np.cos(p), 0, np.sin(p)], [0, 1, 0], [-np.sin(p), 0, np.cos(p)]])
    rz = np.array([[np.cos(k), -np.sin(k), 0], [np.sin(k), np.cos(k), 0], [0, 0, 1]])
    return rx @ ry @ rz


def to_lla(xyz, crs=data.UTM, lla='EPSG:4979'):
    from rasterio.warp import transform

    x, y, z = transform(crs, lla, [xyz[0]], [xyz[1]], [xyz[2]])
    return y[0], x[0], z[0]


def write_src(path, k, bands=2, **kw):
    size = SIZE if k != 1 else (16, 18)
    return data.write_image(path, np.roll(data.texture(bands, size[1], size[0]), 3 * k, axis=2), **kw)


def dem(path, shape=(44, 48), res=(12.0, 12.0)):
    return data.write_dem(path, data.dem_array(shape, 'hills'), res=res)


def frame(d, n=3):
    """Interior YAML, exterior GeoJSON & CSV, images and DEM."""
    d.mkdir(parents=True, exist_ok=True)
    ints = {
        'cam A': dict(type='pinhole', im_size=list(SIZE), focal_len=40.0, sensor_size=[36.0, 25.2]),
        'cam B': dict(type='brown', im_size=[16, 18], focal_len=1.2, k1=-0.1, k2=0.02, p1=0.002, p2=-0.001, k3=0.01,
                      cx=0.01, cy=-0.02),
    }
    (d / 'int.yaml').write_text(json.dumps(ints))
    feats, rows, srcs = [], ['filename,x,y,z,omega,phi,kappa,camera'], []
    for k in range(n):
        xyz, opk = POSES[k]
        name, cam = f'im{k}.tif', ['cam A', 'cam B', 'cam A'][k]
        srcs.append(write_src(d / name, k))
        lla = to_lla(xyz)
        feats.append(dict(type='Feature', properties=dict(filename=name, camera=cam, xyz=list(xyz), opk=list(opk)),
                          geometry=dict(type='Point', coordinates=[lla[1], lla[0], lla[2]])))
        rows.append(','.join([name, *(repr(float(v)) for v in xyz), *(repr(float(np.degrees(v))) for v in opk), cam]))
    (d / 'ext.geojson').write_text(json.dumps(dict(type='FeatureCollection', world_crs=data.UTM, features=feats)))
    (d / 'ext.csv').write_text('\n'.join(rows) + '\n')
    dem(d / 'dem.tif')
    return dict(srcs=srcs, dem=str(d / 'dem.tif'), int=str(d / 'int.yaml'), ext=str(d / 'ext.geojson'), csv=str(d / 'ext.csv'))


def exif(d, n=3):
    d.mkdir(parents=True, exist_ok=True)
    srcs = []
    for k in range(n):
        xyz, _ = POSES[k]
        lla = to_lla(xyz)
        e = dict(Make='Mk', Model=f'Mod{k % 2}', FocalLength=f'({40.0 + k % 2})', FocalPlaneResolutionUnit='4',
                 FocalPlaneXResolution=f'({20 / 36!r})', FocalPlaneYResolution=f'({20 / 36!r})')
        srcs.append(tags.write_tagged(d / f'ex{k}.tif', SIZE, exif=e, bands=2, xmp=tags.xmp_packet(
            tags.dji_props(lla, (0.5, -88.0 + k, 30.0 * k)))))
    dem(d / 'dem.tif')
    return dict(srcs=srcs, dem=str(d / 'dem.tif'))


def odm(d, n=3):
    import cv2
    from rasterio.warp import transform

    for sub in ('images', 'odm_dem', 'opensfm'):
        (d / sub).mkdir(parents=True, exist_ok=True)
    ref = (data.X0 + 3.0, data.Y0 - 2.0, 100.0)
    la = to_lla(ref, lla='EPSG:4326')
    x, y, z = transform('EPSG:4326', data.UTM, [la[1]], [la[0]], [la[2]])
    ref = np.array([x[0], y[0], z[0]])
    cams = {
        'v2 cam a': dict(projection_type='perspective', width=20, height=14, focal=1.1, k1=0.0, k2=0.0),
        'v2 cam b': dict(projection_type='brown', width=16, height=18, focal_x=1.2, focal_y=1.2, c_x=0.01, c_y=-0.02, k1=-0.1,
                         k2=0.02, p1=0.002, p2=-0.001, k3=0.01),
    }
    shots, srcs = {}, []
    for k in range(n):
        xyz, opk = POSES[k]
        name = f'od{k}.tif'
        srcs.append(write_src(d / 'images' / name, k))
        rt = opk_matrix(opk) @ np.diag([1, -1, -1])
        r = rt.T
        t = -r @ (np.array(xyz) - ref)
        shots[name] = dict(rotation=cv2.Rodrigues(r)[0].ravel().tolist(), translation=t.tolist(),
                           camera=['v2 cam a', 'v2 cam b', 'v2 cam a'][k])
    rec = [dict(cameras=cams, shots=shots, reference_lla=dict(latitude=la[0], longitude=la[1], altitude=la[2]))]
    (d / 'opensfm' / 'reconstruction.json').write_text(json.dumps(rec))
    dem(d / 'odm_dem' / 'dsm.tif')
    return dict(srcs=srcs, dem=str(d / 'odm_dem' / 'dsm.tif'), rec=str(d / 'opensfm' / 'reconstruction.json'), dir=str(d))


def rpc(d, n=3):
    from rasterio.control import GroundControlPoint
    from rasterio.transform import RPC
    from mc import scenes

    d.mkdir(parents=True, exist_ok=True)
    srcs, params = [], {}
    for k in range(n):
        r = scenes.make_rpc(SIZE, lon=21.0 + 0.0002 * k, lat=55.94 - 0.0001 * k, gsd_deg=(1.3e-4, 7e-5))
        from orthority.camera import RpcCamera

        # GCPs: the model's own points, moved by a pixel or so
        cam = RpcCamera(SIZE, r)
        ji = np.array([[2.0, 3.0], [17.0, 2.0], [4.0, 11.0], [16.0, 12.0], [10.0, 7.0]]).T
        xyz = cam.pixel_to_world_z(ji, np.array([20.0, 25.0, 30.0, 22.0, 28.0]))
        g = [GroundControlPoint(row=ji[1, i] + 0.7, col=ji[0, i] - 0.5 - 0.1 * k, x=xyz[0, i], y=xyz[1, i], z=xyz[2, i], id=f'g{i}',
                                info='') for i in range(5)]
        name = f'rp{k}.tif'
        arr = np.roll(data.texture(2, SIZE[1], SIZE[0]), 3 * k, axis=2)
        srcs.append(data.write_image(d / name, arr, rpcs=RPC(**r), gcps=(g, 'EPSG:4979')))
        params[name] = dict(im_size=list(SIZE), rpc=r)
    (d / 'rpc.yaml').write_text(json.dumps(params))
    data.write_dem(d / 'dem.tif', data.dem_array((44, 48), 'hills'), res=(12.0, 12.0),
                   center=(lambda t: (t[0][0], t[1][0]))(__import__('rasterio.warp', fromlist=['x']).transform(
                       'EPSG:4326', data.UTM, [21.0], [55.94])))
    return dict(srcs=srcs, dem=str(d / 'dem.tif'), rpc=str(d / 'rpc.yaml'))


def pan(d):
    from mc.checks.c02 import make

    d.mkdir(parents=True, exist_ok=True)
    return make(d, dict(ms=(14, 6)))


def snapshot(root, skip=()):
    """{relative path: bytes} of a directory tree."""
    out = {}
    for p in sorted(root.rglob('*')):
        rel = str(p.relative_to(root))
        if rel in skip:
            continue
        out[rel] = p.read_bytes() if p.is_file() else None
    return out
