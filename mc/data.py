"""Synthetic images, DEMs and cameras (deterministic; no randomness)."""
from __future__ import annotations

import numpy as np

UTM = 'EPSG:32634'
X0, Y0 = 500000.0, 6200000.0


def texture(bands, h, w, dtype='uint8', lo=1, hi=255, smooth=False):
    """Deterministic textured array with values in [lo, hi)."""
    b, i, j = np.meshgrid(np.arange(bands), np.arange(h), np.arange(w), indexing='ij')
    if smooth:
        v = 0.5 + 0.25 * np.sin(0.35 * i + b) + 0.25 * np.cos(0.27 * j - 0.5 * b)
    else:
        v = ((i * 37 + j * 101 + b * 57 + (i * j) % 29 * 13 + (i // 3) * (j // 5) * 7) % 251) / 251.0
    a = lo + v * (hi - 1 - lo)
    return np.round(a).astype(dtype) if np.issubdtype(np.dtype(dtype), np.integer) else a.astype(dtype)


def write_image(path, array, crs=None, transform=None, nodata=None, rpcs=None, gcps=None, tags=None,
                colorinterp=None, driver='GTiff', **kw):
    import rasterio as rio
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        prof = dict(driver=driver, count=array.shape[0], height=array.shape[1], width=array.shape[2],
                    dtype=str(array.dtype), **kw)
        if crs is not None:
            prof['crs'] = crs
        if transform is not None:
            prof['transform'] = transform
        if nodata is not None:
            prof['nodata'] = nodata
        with rio.open(path, 'w', **prof) as ds:
            ds.write(array)
            if rpcs is not None:
                ds.rpcs = rpcs
            if gcps is not None:
                ds.gcps = gcps
            if tags:
                ds.update_tags(**tags)
            if colorinterp:
                ds.colorinterp = colorinterp
    return str(path)


def dem_array(shape, kind='hills', base=20.0, amp=6.0):
    h, w = shape
    i, j = np.meshgrid(np.arange(h), np.arange(w), indexing='ij')
    if kind == 'flat':
        z = np.full(shape, base)
    elif kind == 'plane':
        z = base + amp * (0.5 * i / max(h - 1, 1) + 0.8 * j / max(w - 1, 1))
    elif kind == 'hills':
        z = base + amp * (np.sin(i * 0.7) * np.cos(j * 0.5) + 0.3 * np.sin(j * 0.9 + 1))
    elif kind == 'step':
        z = np.where(j > w // 2, base + amp, base)
    else:
        raise ValueError(kind)
    return z.astype('float32')


def write_dem(path, z, res=(10.0, 10.0), center=(X0, Y0), crs=UTM, nodata=float('nan'), dtype='float32',
              bands=None):
    from rasterio.transform import from_origin

    z = np.atleast_3d(z.T).T if z.ndim == 2 else z
    z = z if z.ndim == 3 else z[None]
    h, w = z.shape[-2:]
    tr = from_origin(center[0] - w * res[0] / 2, center[1] + h * res[1] / 2, res[0], res[1])
    return write_image(path, z.astype(dtype), crs=crs, transform=tr, nodata=nodata)


def file_state(path):
    """Content observed through rasterio: pixels, masks, georeferencing (hashable)."""
    import rasterio as rio
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with rio.open(path) as ds:
            return (
                ds.read().tobytes(),
                ds.read_masks().tobytes(),
                ds.count, ds.width, ds.height, tuple(ds.dtypes), str(ds.nodata),
                tuple(ds.transform), str(ds.crs), tuple(c.name for c in ds.colorinterp),
                tuple(tuple(ds.overviews(b)) for b in ds.indexes),
            )
