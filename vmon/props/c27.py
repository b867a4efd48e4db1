"""Geometry of the synthetic targets."""
import numpy as np
from scipy import ndimage as ndi
from .. import gen

ID = "C27"
RULE = ("random frame sizes (16-400, odd/even), pitches, feature sizes (odd/"
        "even, larger than the clip limit), scalar/tuple/list margins, grey "
        "levels; every pixel compared with the closed-form pattern; "
        "non-trivial: at least one feature and one background pixel")
ASSUMPTIONS = ["dots of an even size have no central pixel: position and area "
               "checked to one pixel"]
MUST_SEE = {"circle": 60, "dots": 60, "lines": 60, "chessboard": 60,
            "raises:make_dot_pattern": 10}


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    yield from gen.stream(seed, "circle", 90 * k)
    yield from gen.stream(seed, "dot", 110 * k)
    yield from gen.stream(seed, "line", 110 * k)
    yield from gen.stream(seed, "chess", 110 * k)
    yield from gen.stream(seed, "bad", 20 * k)
    yield from gen.stream(seed, "default", 6)


def run(ctx, p):
    rng = ctx.rng
    kind = p["kind"]
    h, w = [int(v) for v in rng.integers(40, 300, 2)]
    if kind == "circle":
        n = int(rng.integers(1, 130))
        ratio = gen.pick(rng, [1.0, 0.92, 0.0, 0.5, 1.5,
                               float(rng.uniform(0.1, 1.3))])
        func = gen.pick(rng, ["util.make_circle_mask"])
        out = np.asarray(ctx.call(func, n, ratio))
        c = n // 2
        y, x = np.mgrid[:n, :n] - c
        d2 = (y * y + x * x).astype(float)
        want = (d2 <= (ratio * c) ** 2).astype(float)
        sure = np.abs(d2 - (ratio * c) ** 2) > 1e-9 * max(n, 1) ** 2
        if ratio in (1.0, 0.0, 0.5, 1.5):
            sure[:] = True
        ctx.note(n, ratio)
        ctx.nontrivial = bool(0 < want.sum() < n * n)
        ctx.need(out.shape == (n, n), "circle", got=list(out.shape))
        ctx.check(np.array_equal(out[sure], want[sure]), "circle", n=n,
                  ratio=ratio)
        return
    if kind == "default":
        i = p["i"]
        h, w = 1800, 2000
        mv = mh = [150, 100, 100][i % 3]
        if i % 3 == 0:
            out = np.asarray(ctx.call("util.make_dot_pattern"))
            return dots(ctx, out, h, w, 90, 15, mv, mh)
        if i % 3 == 1:
            out = np.asarray(ctx.call("util.make_line_pattern"))
            return lines(ctx, out, h, w, 90, 7, mv, mh)
        out = np.asarray(ctx.call("util.make_chessboard"))
        return chess(ctx, out, h, w, 100, 100, 0.95)
    how = gen.pick(rng, ["int", "tuple", "list", "zero"])
    mv, mh = [int(v) for v in rng.integers(0, min(h, w) // 4, 2)]
    if how == "zero":
        mv = mh = 0
    if how in ("int", "zero"):
        mh = mv
        marg = mv
    else:
        marg = (mv, mh) if how == "tuple" else [mv, mh]
    ctx.seen("margin", how)
    if kind in ("dot", "line", "chess") and p["i"] % 22 == 9:
        n = int(rng.integers(4100, 9000))       # very long targets
        h, w = (n, w) if p["i"] % 44 == 9 else (h, n)
        ctx.seen("long target", kind)
    if kind == "dot":
        size = int(rng.integers(1, 20))
        if p["i"] % 8 == 3:     # large dots in a large frame
            h, w = [int(v) for v in rng.integers(400, 620, 2)]
            size = int(rng.integers(30, 70))
        clip = int(np.clip(size, 1, min(h, w) // 8))
        dist = int(rng.integers(clip + 2, clip + 40))
        if clip % 2 and p["i"] % 6 == 0:
            # touching dots are allowed: size equal to the distance
            dist = clip + int(p["i"] % 12 == 6)
            ctx.seen("dots", "as wide as their distance" if dist == clip
                     else "nearly touching")
        out = np.asarray(ctx.call("util.make_dot_pattern", height=h, width=w,
                                  dot_distance=dist, dot_size=size,
                                  margin=marg))
        return dots(ctx, out, h, w, dist, clip, mv, mh)
    if kind == "bad":
        size = int(rng.integers(3, min(h, w) // 8 + 1))
        dist = int(rng.integers(1, size))
        ctx.nontrivial = True
        ctx.note(h, w, dist, size)
        ctx.raises(ValueError, "util.make_dot_pattern", height=h, width=w,
                   dot_distance=dist, dot_size=size, margin=marg)
        return
    if kind == "line":
        size = int(rng.integers(1, 12))
        if p["i"] % 8 == 3:     # thick lines in a large frame
            h, w = [int(v) for v in rng.integers(400, 620, 2)]
            size = int(rng.integers(12, 70))
        clip = int(np.clip(size, 1, min(h, w) // 8))
        dist = int(rng.integers(clip + 1, clip + 60))
        out = np.asarray(ctx.call("util.make_line_pattern", height=h, width=w,
                                  line_distance=dist, line_size=size,
                                  margin=marg))
        return lines(ctx, out, h, w, dist, clip, mv, mh)
    size = int(rng.integers(2, 50))
    m = int(rng.integers(0, min(h, w) // 4))
    gs = gen.pick(rng, [0.95, 0.0, 1.0, 0.5, float(rng.uniform(0, 1))])
    out = np.asarray(ctx.call("util.make_chessboard", height=h, width=w,
                              size=size, margin=m, margin_grayscale=gs))
    chess(ctx, out, h, w, size, m, gs)


def dots(ctx, out, h, w, dist, size, mv, mh):
    half = size // 2 + 1
    ys = np.arange(mv + half, h - mv - half, dist)
    xs = np.arange(mh + half, w - mh - half, dist)
    ctx.note(h, w, dist, size, mv, mh)
    ctx.sample = {"frame": [h, w], "dist": dist, "size": size,
                  "margin": [mv, mh], "dots": len(ys) * len(xs)}
    ctx.need(out.shape == (h, w), "dots", got=list(out.shape))
    ctx.check(np.all((out == 0) | (out == 1)), "dot pattern is 0/1")
    ctx.nontrivial = len(ys) * len(xs) > 0
    c = size // 2
    if size % 2 == 1:
        want = np.ones((h, w))
        oy, ox = np.mgrid[-c:c + 1, -c:c + 1]
        sel = oy ** 2 + ox ** 2 <= c * c
        oy, ox = oy[sel], ox[sel]
        for y in ys:
            for x in xs:
                yy, xx = y + oy, x + ox
                ok = (yy >= 0) & (yy < h) & (xx >= 0) & (xx < w)
                want[yy[ok], xx[ok]] = 0
        ctx.check(np.array_equal(out, want), "dots",
                  bad=int((out != want).sum()))
        return
    lab, n = ndi.label(out == 0)
    if not ctx.check(n == len(ys) * len(xs), "dots", found=n,
                     want=len(ys) * len(xs)):
        return
    if n == 0:
        return
    cents = np.array(ndi.center_of_mass(out == 0, lab, range(1, n + 1)))
    area = ndi.sum(out == 0, lab, range(1, n + 1))
    want = np.array([(y, x) for y in ys for x in xs], float)
    want = want[np.lexsort((want[:, 1], want[:, 0]))]
    cents = cents[np.lexsort((np.round(cents[:, 1]), np.round(cents[:, 0])))]
    ctx.close(cents, want, 1.01, "dot positions")
    disc = int(((np.mgrid[-c:size - c, -c:size - c] ** 2).sum(0)
                <= c * c).sum())
    ctx.close(area, np.full(n, disc), 0.5, "dot area")


def lines(ctx, out, h, w, dist, size, mv, mh):
    ys = np.arange(mv, h - mv - size, dist)
    xs = np.arange(mh, w - mh - size, dist)
    ctx.note(h, w, dist, size, mv, mh)
    ctx.need(out.shape == (h, w), "lines", got=list(out.shape))
    want = np.ones((h, w))
    for y in ys:
        want[y:y + size, xs[0]:xs[-1] + size] = 0
    for x in xs:
        want[ys[0]:ys[-1] + size, x:x + size] = 0
    ctx.nontrivial = bool(0 < want.sum() < h * w)
    ctx.sample = {"frame": [h, w], "dist": dist, "size": size,
                  "lines": [len(ys), len(xs)]}
    ctx.check(np.array_equal(out, want), "lines",
              bad=int((out != want).sum()))


def chess(ctx, out, h, w, size, m, gs):
    want = np.full((h, w), gs)
    ys = list(range(size + m, h - m - size, size))
    xs = list(range(size + m, w - m - size, size))
    for a, y in enumerate(ys):
        for b, x in enumerate(xs):
            want[y:y + size, x:x + size] = 1.0 if (a + b) % 2 == 0 else 0.0
    ctx.note(h, w, size, m, gs)
    ctx.nontrivial = len(ys) > 1 and len(xs) > 1
    ctx.sample = {"frame": [h, w], "size": size, "margin": m,
                  "cells": [len(ys), len(xs)]}
    ctx.close(out, want, 1e-6, "chessboard")
