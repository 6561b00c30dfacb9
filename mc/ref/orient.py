"""Camera orientation from (roll, pitch, yaw), from first principles."""
from __future__ import annotations

import numpy as np


def rpy_matrix(rpy, lla, crs, lla_crs):
    """
    Rotation from camera (x right, y up, z back) to world (east, north, up) axes, of a camera looking down from a
    body with x forward, y right and z down, whose yaw is from true north, pitch is up and roll is right wing down.
    """
    from rasterio.warp import transform

    r, p, y = rpy
    # body axes in north, east, down: start level and heading north, and turn about the moved axes
    fwd, right, down = np.eye(3)

    def turn(v, axis, a):
        return v * np.cos(a) + np.cross(axis, v) * np.sin(a) + axis * np.dot(axis, v) * (1 - np.cos(a))

    fwd, right = turn(fwd, down, y), turn(right, down, y)
    fwd, down = turn(fwd, right, p), turn(down, right, p)
    right, down = turn(right, fwd, r), turn(down, fwd, r)
    # true north in the world CRS, over a short arc of the meridian
    d = 2e-5
    e, n, _ = transform(lla_crs, crs, [lla[1]] * 2, [lla[0] - d, lla[0] + d], [lla[2]] * 2)
    north = np.array([e[1] - e[0], n[1] - n[0], 0.0])
    north /= np.linalg.norm(north)
    east = np.array([north[1], -north[0], 0.0])
    up = np.array([0.0, 0.0, 1.0])

    def world(v):
        return v[0] * north + v[1] * east - v[2] * up

    # top of the image is forward, right is right, the camera looks along down (its z axis points back)
    return np.array([world(right), world(fwd), -world(down)]).T
