"""Small complete scenes (source image + DEM + camera) used by several checks."""
from __future__ import annotations

import numpy as np

from mc import data

INT = {
    'pinhole': dict(),
    'brown': dict(k1=-0.12, k2=0.03, p1=0.004, p2=-0.003, k3=0.01),
    'opencv': dict(k1=-0.10, k2=0.02, p1=0.003, p2=-0.002, k3=0.01, k4=0.02, k5=-0.01, k6=0.005, s1=0.002,
                   s2=-0.001, s3=0.001, s4=0.002, tx=0.01, ty=-0.008),
    'fisheye': dict(k1=-0.05, k2=0.01, k3=-0.004, k4=0.001),
}


def make_camera(name, im_size, xyz=(data.X0, data.Y0, 220.0), opk=(0.06, -0.04, 0.3), focal=1.1, **kw):
    from orthority.camera import create_camera

    w, h = im_size
    params = dict(INT[name])
    params.update(kw)
    if name == 'pinhole':
        for k in ('distort', 'alpha'):
            params.pop(k, None)
    return create_camera(name, im_size, focal * 36.0, sensor_size=(36.0, 36.0 * h / w), xyz=xyz, opk=opk, **params)


def make_rpc(im_size, lon=21.0, lat=55.94, gsd_deg=(4.5e-5, 2.5e-5), h_off=30.0, h_scale=200.0, tilt=0.15):
    """A well conditioned synthetic RPC (dict)."""
    w, h = im_size
    lon_scale = gsd_deg[0] * w / 2
    lat_scale = gsd_deg[1] * h / 2
    z = [0.0] * 20

    def c(**kw):
        v = list(z)
        names = ['1', 'L', 'P', 'H', 'LP', 'LH', 'PH', 'LL', 'PP', 'HH', 'PLH', 'LLL', 'LPP', 'LHH', 'LLP', 'PPP',
                 'PHH', 'LLH', 'PPH', 'HHH']
        for k, x in kw.items():
            v[names.index(k.replace('one', '1'))] = x
        return v

    return dict(
        height_off=h_off, height_scale=h_scale, lat_off=lat, lat_scale=lat_scale, long_off=lon, long_scale=lon_scale,
        line_off=(h - 1) / 2, line_scale=h / 2, samp_off=(w - 1) / 2, samp_scale=w / 2,
        line_num_coeff=c(one=0.001, P=-1.0, L=0.05, H=0.02, LP=0.002, PP=0.003, PH=-0.001, LLP=1e-4, HH=5e-4),
        line_den_coeff=c(one=1.0, P=0.002, L=-0.001, H=0.0005, LH=1e-4),
        samp_num_coeff=c(one=-0.002, L=1.0, P=0.04, H=tilt, LP=-0.003, LL=0.002, LH=0.001, PPH=1e-4, LLL=2e-4),
        samp_den_coeff=c(one=1.0, P=-0.001, L=0.003, H=-0.0004, PH=-2e-4),
        err_bias=None, err_rand=None,
    )


def ortho_scene(d, cam='pinhole', size=(22, 17), distort=True, dtype='uint8', bands=2, dem_kind='hills',
                dem_shape=(40, 44), dem_res=(10.0, 10.0), smooth=False, lo=1, hi=255):
    """Write a scene into ``d``; returns paths, camera, crs & natural resolution."""
    src = data.write_image(d / 'src.tif', data.texture(bands, size[1], size[0], dtype, lo, hi, smooth=smooth))
    if cam == 'rpc':
        from orthority.camera import RpcCamera

        crs = data.UTM
        rpc = make_rpc(size, gsd_deg=(1.3e-4, 7e-5))
        camera = RpcCamera(size, {k: v for k, v in rpc.items()}, crs=crs)
        from rasterio.warp import transform

        xs, ys = transform('EPSG:4326', crs, [rpc['long_off']], [rpc['lat_off']])
        center = (xs[0], ys[0])
        res = (8.5, 7.5)
        dem_res = (12.0, 12.0)
    else:
        crs = data.UTM
        camera = make_camera(cam, size, distort=distort)
        center = (data.X0, data.Y0)
        gsd = 200.0 / (1.1 * size[0])
        res = (gsd * 0.9, gsd)
    dem = data.write_dem(d / 'dem.tif', data.dem_array(dem_shape, dem_kind), res=dem_res, center=center, crs=crs)
    return dict(src=src, dem=dem, camera=camera, crs=crs, res=res, center=center)


def memo_boundary(camera):
    """Memoise the (pure) ``world_boundary`` of a camera instance, so that repeated executions of one scene do
    not recompute 400 ray / surface intersections each time."""
    orig = camera.world_boundary
    cache = {}

    def world_boundary(z, *a, **k):
        key = (z.tobytes(), z.shape) if isinstance(z, np.ndarray) else float(z)
        key = (key, repr(a), repr(sorted(k.items())), getattr(camera, 'distort', None), getattr(camera, 'pos', None))
        if key not in cache:
            cache[key] = orig(z, *a, **k)
        return cache[key].copy()

    camera.world_boundary = world_boundary
    return camera
