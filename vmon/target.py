"""Rendered calibration targets: dots, lines and chessboards, seen under any
rotation, pitch and (optionally) distortion, with exact geometry known."""
import numpy as np


class Target:
    """Lattice frame: u along the rows, v across them, origin at (xc, yc)
    shifted by (xo, yo); a pixel (y, x) has lattice coordinates uv(y, x).
    warp, if given, maps pixel coordinates to undistorted coordinates."""

    def __init__(self, h, w, px, py, rot, xo=0.0, yo=0.0, warp=None):
        self.h, self.w, self.px, self.py, self.rot = h, w, px, py, rot
        self.t = np.deg2rad(rot)
        self.xo, self.yo, self.warp = xo, yo, warp
        self.xc, self.yc = (w - 1) / 2.0, (h - 1) / 2.0
        self.slope_hor = float(np.tan(self.t))    # dy/dx of the rows
        self.slope_ver = float(-np.tan(self.t))   # dx/dy of the columns

    def uv(self, y, x):
        y, x = np.asarray(y, float), np.asarray(x, float)
        if self.warp is not None:
            y, x = self.warp(y, x)
        c, s = np.cos(self.t), np.sin(self.t)
        u = (x - self.xc) * c + (y - self.yc) * s - self.xo
        v = -(x - self.xc) * s + (y - self.yc) * c - self.yo
        return u, v

    def grid_uv(self):
        y, x = np.mgrid[:self.h, :self.w]
        return self.uv(y, x)

    def nodes(self, margin=0.0):
        """{(row, col): (y, x)} in undistorted pixel coordinates."""
        c, s = np.cos(self.t), np.sin(self.t)
        n = int(np.hypot(self.h, self.w) / min(self.px, self.py)) + 4
        out = {}
        for i in range(-n, n + 1):
            for j in range(-n, n + 1):
                u, v = j * self.px + self.xo, i * self.py + self.yo
                x = self.xc + u * c - v * s
                y = self.yc + u * s + v * c
                if margin <= x <= self.w - 1 - margin and \
                        margin <= y <= self.h - 1 - margin:
                    out[(i, j)] = (y, x)
        return out

    def dist_hor(self, y, x):
        """signed distance (lattice units of px) to the nearest row line."""
        _, v = self.uv(y, x)
        return v - np.round(v / self.py) * self.py

    def dist_ver(self, y, x):
        u, _ = self.uv(y, x)
        return u - np.round(u / self.px) * self.px

    def lines(self, width, soft=0.4):
        """bright lines (1) on 0."""
        u, v = self.grid_uv()
        du = np.abs(u - np.round(u / self.px) * self.px)
        dv = np.abs(v - np.round(v / self.py) * self.py)
        return 1 / (1 + np.exp((np.minimum(du, dv) - width / 2) / soft))

    def dots(self, radius, soft=0.35):
        u, v = self.grid_uv()
        du = u - np.round(u / self.px) * self.px
        dv = v - np.round(v / self.py) * self.py
        z = np.clip((np.hypot(du, dv) - radius) / soft, -50, 50)
        return 1 / (1 + np.exp(z))

    def chess(self, soft=0.8):
        u, v = self.grid_uv()

        def s(a, p):
            return np.tanh(np.sin(np.pi * a / p) * p / np.pi / soft)
        return 0.5 + 0.5 * s(u, self.px) * s(v, self.py)


def shade(rng, img, dtype="float64", noise=0.0, uneven=0.0, lo=0.1, hi=0.9):
    """[0,1] picture -> intensities of the asked type."""
    h, w = img.shape
    out = lo + (hi - lo) * img
    if uneven:
        y, x = np.mgrid[:h, :w]
        g = rng.uniform(-1, 1, 2)
        out = out * (1 + uneven * (g[0] * (x / w - .5) + g[1] * (y / h - .5)))
    if noise:
        out = out + rng.normal(0, noise, out.shape)
    out = np.clip(out, 0, None)
    dt = np.dtype(dtype)
    if dt.kind in "ui":
        top = 255 if dt.itemsize == 1 else 40000 if dt == np.uint16 else 30000
        return np.clip(np.round(out / 1.3 * top), 0, top).astype(dt)
    return (out * 10.0 ** rng.integers(-1, 4)).astype(dt)
