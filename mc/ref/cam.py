"""
Reference camera models, written from the published formulas (Pix4D opk / PATB convention, OpenCV general and
fisheye models, RPC00B), independent of the code under test.
"""
from __future__ import annotations

import numpy as np

OPENCV = ['k1', 'k2', 'k3', 'p1', 'p2', 'k4', 'k5', 'k6', 's1', 's2', 's3', 's4', 'tx', 'ty']


def rot_opk(o, p, k):
    """Camera (PATB: x right, y up, z back) to world rotation."""
    co, so, cp, sp, ck, sk = np.cos(o), np.sin(o), np.cos(p), np.sin(p), np.cos(k), np.sin(k)
    return np.array([
        [cp * ck, -cp * sk, sp],
        [co * sk + so * sp * ck, co * ck - so * sp * sk, -so * cp],
        [so * sk - co * sp * ck, so * ck + co * sp * sk, co * cp],
    ])


def focal_pixels(im_size, focal, sensor):
    w, h = im_size
    fx, fy = (focal, focal) if np.isscalar(focal) else focal
    if sensor is None:
        m = max(w, h)
        return fx * m, fy * m
    return fx * w / sensor[0], fy * h / sensor[1]


class Frame:
    """Frame camera: forward projection only."""

    def __init__(self, kind, im_size, focal, sensor=None, cx=0.0, cy=0.0, xyz=(0, 0, 0), opk=(0, 0, 0), **coef):
        self.kind = kind
        self.fx, self.fy = focal_pixels(im_size, focal, sensor)
        self.cx = (im_size[0] - 1) / 2 + max(im_size) * cx
        self.cy = (im_size[1] - 1) / 2 + max(im_size) * cy
        self.R = rot_opk(*opk)
        self.T = np.array(xyz, dtype='float64').reshape(3, 1)
        self.c = coef

    def rays(self, xyz):
        """Ideal (undistorted) image plane coordinates, x right & y down."""
        p = self.R.T @ (np.asarray(xyz, 'float64') - self.T)
        return p[0] / -p[2], p[1] / p[2]

    def distort(self, x, y):
        g = lambda n: self.c.get(n, 0.0)  # noqa: E731
        if self.kind == 'pinhole':
            return x, y
        if self.kind == 'fisheye':
            r = np.hypot(x, y)
            t = np.arctan(r)
            td = t + g('k1') * t**3 + g('k2') * t**5 + g('k3') * t**7 + g('k4') * t**9
            s = np.where(r > 0, td / np.where(r > 0, r, 1), 1.0)
            return x * s, y * s
        r2 = x * x + y * y
        rad = (1 + g('k1') * r2 + g('k2') * r2**2 + g('k3') * r2**3) / (
            1 + g('k4') * r2 + g('k5') * r2**2 + g('k6') * r2**3)
        xd = x * rad + 2 * g('p1') * x * y + g('p2') * (r2 + 2 * x * x) + g('s1') * r2 + g('s2') * r2**2
        yd = y * rad + g('p1') * (r2 + 2 * y * y) + 2 * g('p2') * x * y + g('s3') * r2 + g('s4') * r2**2
        if g('tx') or g('ty'):
            a, b = g('tx'), g('ty')
            Rt = np.array([[np.cos(b), 0, -np.sin(b)], [0, 1, 0], [np.sin(b), 0, np.cos(b)]]) @ np.array(
                [[1, 0, 0], [0, np.cos(a), np.sin(a)], [0, -np.sin(a), np.cos(a)]])
            P = np.array([[Rt[2, 2], 0, -Rt[0, 2]], [0, Rt[2, 2], -Rt[1, 2]], [0, 0, 1]]) @ Rt
            q = P @ np.array([xd, yd, np.ones_like(xd)])
            xd, yd = q[0] / q[2], q[1] / q[2]
        return xd, yd

    def project(self, xyz):
        x, y = self.distort(*self.rays(xyz))
        return np.array([self.fx * x + self.cx, self.fy * y + self.cy])


_TERMS = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (2, 0, 0), (0, 2, 0),
          (0, 0, 2), (1, 1, 1), (3, 0, 0), (1, 2, 0), (1, 0, 2), (2, 1, 0), (0, 3, 0), (0, 1, 2), (2, 0, 1),
          (0, 2, 1), (0, 0, 3)]


def rpc_project(rpc, lon, lat, h):
    """RPC00B forward model: geographic to (sample, line) with integer = pixel centre."""
    L = (np.asarray(lon) - rpc['long_off']) / rpc['long_scale']
    P = (np.asarray(lat) - rpc['lat_off']) / rpc['lat_scale']
    H = (np.asarray(h) - rpc['height_off']) / rpc['height_scale']
    t = [L**a * P**b * H**c for a, b, c in _TERMS]

    def poly(c):
        return sum(ci * ti for ci, ti in zip(c, t))

    j = poly(rpc['samp_num_coeff']) / poly(rpc['samp_den_coeff']) * rpc['samp_scale'] + rpc['samp_off']
    i = poly(rpc['line_num_coeff']) / poly(rpc['line_den_coeff']) * rpc['line_scale'] + rpc['line_off']
    return np.array([j, i])
