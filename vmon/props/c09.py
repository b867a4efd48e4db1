"""Perspective coefficients, line and image correction."""
import numpy as np
from .. import gen, refs

ID = "C09"
RULE = ("random projective maps without a horizon in the frame x 4 to 60 "
        "points in any order and numeric type, both directions; lines of any "
        "shape; images of 6 dtypes/layouts, spline orders 0-5, 8 boundary "
        "modes, direct or through a map index; non-trivial: the map moves "
        "some point by more than 2 px")
ASSUMPTIONS = ["no three of the points of a 4-point set nearly collinear"]
MUST_SEE = {"source to target": 100, "inverse pair": 60, "same map": 60,
            "line points": 60, "image samples": 80, "map index used": 20,
            "missing pixels": 12, "many points": 8, "small units": 10,
            "raises:correct_perspective_line": 6,
            "raises:correct_perspective_image": 6}
CALC = "proc.calc_perspective_coefficients"
LINE = "post.correct_perspective_line"
IMG = "post.correct_perspective_image"


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    yield from gen.stream(seed, "coef", 160 * k)
    yield from gen.stream(seed, "fit", 30 * k)
    yield from gen.stream(seed, "line", 90 * k)
    yield from gen.stream(seed, "image", 140 * k)
    yield from gen.stream(seed, "wide", 4 * min(k, 4))
    yield from gen.stream(seed, "horizon", 16 * min(k, 4))
    yield from gen.stream(seed, "bad", 12 * k)
    yield from gen.stream(seed, "nan", 24 * k)


def sane_map(rng, h, w, tilt=None):
    """8 coefs whose denominator stays in [0.5, 2] over twice the frame."""
    while True:
        c = gen.homography(rng, h, w, tilt or float(
            rng.choice([0.02, 0.1, 0.25])))
        ys, xs = np.meshgrid([-0.5 * h, 1.5 * h], [-0.5 * w, 1.5 * w])
        d = c[6] * xs + c[7] * ys + 1
        m = refs.homography_matrix(c)
        if d.min() > 0.4 and d.max() < 2.5 and \
                abs(np.linalg.det(m[:2, :2])) > 0.3:
            return c


def spread_points(rng, h, w, n):
    while True:
        if n == 4 or rng.random() < 0.3:
            q = np.array([[0.1, 0.1], [0.1, 0.9], [0.9, 0.1], [0.9, 0.9]]) \
                + rng.uniform(-0.09, 0.09, (4, 2))
            q = np.concatenate([q, rng.random((n - 4, 2))])
        else:
            q = rng.random((n, 2))
        q = q[rng.permutation(n)] * [h, w]
        if n > 6 or n == 4:
            return q
        # 5 or 6 points: stay away from degenerate sets
        sv = np.linalg.svd(np.c_[q / [h, w], np.ones(n)])[1]
        if sv[-1] > 0.3 and min_gap(q / [h, w]) > 0.15:
            return np.concatenate([q, [[0, 0], [0, w], [h, 0], [h, w]]])


def min_gap(q):
    d = np.hypot(*(q[:, None] - q[None]).T)
    return float(d[~np.eye(len(q), dtype=bool)].min())


def run(ctx, p):
    rng, kind = ctx.rng, p["kind"]
    h, w = [int(v) for v in rng.integers(200, 3000, 2)]
    if kind == "coef" and p["i"] % 5 == 3:
        # large mosaics
        h, w = [int(v) for v in rng.integers(4000, 25000, 2)]
        ctx.seen("large frame")
    if kind == "coef" and p["i"] % 10 in (1, 6):
        # other units of length
        h, w = rng.uniform(1, 2, 2) * 10.0 ** rng.uniform(-4, 2)
        ctx.seen("small units")
    if kind == "coef" and p["i"] % 10 == 7:
        h, w = rng.uniform(4e4, 1e5, 2)
        ctx.seen("huge frame")
    big = max(1.0, max(h, w) / 3000) ** 2
    c = sane_map(rng, h, w)
    ctx.nontrivial = True
    if kind in ("coef", "fit"):
        n = 4 if p["i"] % 2 else int(rng.integers(5, 60))
        if kind == "coef" and p["i"] % 20 in (4, 18):
            n = int(rng.integers(800, 3000))
            ctx.seen("many points")
        src = spread_points(rng, h, w, n)
        dt = gen.cyc(p, ["float64", "float32", "list", "int16", "uint16",
                         "int32", "tuple"])
        if dt in ("int16", "uint16", "int32") and max(h, w) < 200:
            dt = "float64"
        if dt in ("int16", "uint16", "int32"):
            # integer coordinates: 4 points always define a map exactly
            src = np.round(src[:4] if n == 4 else spread_points(
                rng, h, w, 4))
            dst = np.round(refs.apply_homography(c, src))
            if dt == "uint16":
                dst = dst - min(0, dst.min())
            if dst.max() > 32000 or dst.min() < -32000:
                dt = "int32"
        else:
            dst = refs.apply_homography(c, src)
        ctx.seen("points", len(src) if len(src) < 6 else "6+")
        ctx.seen("type", dt)

        def cast(a):
            if dt == "list":
                return a.tolist()
            if dt == "tuple":
                return tuple(map(tuple, a))
            return a.astype(dt)
        s, d = cast(src), cast(dst)
        s64 = np.asarray(s, float)
        d64 = np.asarray(d, float)
        if kind == "fit":
            return fit(ctx, p, s64, d64, h, w)
        unit = min(1.0, max(h, w) / 200)
        tol = 1e-5 * big if dt != "float32" else 0.01 + 1e-5 * max(h, w)
        tol = tol * unit * (20 if max(h, w) > 3e3 else 1)
        f = ctx.call(CALC, s, d, mapping="forward")
        b = ctx.call(CALC, s, d) if p["i"] % 3 else \
            ctx.call(CALC, s, d, mapping="backward")
        f, b = np.asarray(f, float), np.asarray(b, float)
        ctx.need(f.shape == (8,) and b.shape == (8,), "8 coefficients")
        ctx.close(refs.apply_homography(f, s64), d64, tol,
                  "source to target", direction="forward")
        ctx.close(refs.apply_homography(b, d64), s64, 3 * tol,
                  "source to target", direction="backward")
        q = rng.random((30, 2)) * [h, w]
        fq = refs.apply_homography(f, q)
        if dt in ("float64", "list", "tuple", "float32"):
            ctx.close(fq, refs.apply_homography(c, q), 40 * tol, "same map")
        ctx.close(refs.apply_homography(b, fq), q, 100 * tol,
                  "inverse pair")
        g = ctx.call(CALC, d, s, mapping="forward")
        ctx.close(refs.apply_homography(np.asarray(g, float), fq), q,
                  100 * tol, "inverse pair")
        ctx.note(src, dst)
        ctx.sample = {"n": len(src), "type": dt, "coef": f}
        return
    if kind == "line":
        lines = []
        for _ in range(int(rng.integers(1, 6))):
            m = int(rng.integers(1, 30))
            lines.append(rng.uniform(-0.2, 1.2, (m, 2)) * [h, w])
        dt = gen.cyc(p, ["float64", "list", "int32", "float32", "tuple"])
        if p["i"] % 7 == 3 and dt != "list":
            lines.insert(int(rng.integers(len(lines) + 1)), np.zeros((0, 2)))
        if dt == "int32":
            lines = [np.round(l).astype(np.int32) for l in lines]
        elif dt == "float32":
            lines = [l.astype(np.float32) for l in lines]
        inp = [l.tolist() for l in lines] if dt == "list" else \
            tuple(lines) if dt == "tuple" else lines
        coef = gen.fact_container(rng, c)
        out = ctx.call(LINE, inp, coef)
        ctx.need(len(out) == len(lines), "line structure", got=len(out))
        for o, l in zip(out, lines):
            if not len(l):
                ctx.check(len(o) == 0, "line structure", got=len(o))
                continue
            ctx.close(o, refs.apply_homography(c, l),
                      1e-6 if dt != "float32" else 2e-3, "line points")
        ctx.note(*lines, c)
        ctx.sample = {"lines": len(lines), "type": dt}
        return
    h, w = [int(v) for v in rng.integers(4, 70, 2)]
    if kind == "wide":
        h, w = [(300, 700), (33500, 20), (20, 33500), (1100, 400)][p["i"] % 4]
    c = sane_map(rng, h, w)
    if kind == "horizon":
        # the horizon of the view runs through the frame: behind it the map
        # is still the quotient, clipped to the frame
        c = np.array(c, float)
        k = rng.uniform(0, 1)
        f = rng.uniform(0.35, 0.8)
        c[6], c[7] = -k / (f * w), -(1 - k) / (f * h)
        yy, xx = np.mgrid[:h, :w]
        den = 1 + c[6] * xx + c[7] * yy
        if np.abs(den).min() < 1e-7:
            c[6] *= 1.0001
    dtype = gen.cyc(p, gen.DTYPES)
    if kind == "nan":
        dtype = gen.cyc(p, ["float64", "float32"])
    img = gen.image(rng, h, w, dtype)
    if kind == "nan":
        y, x = np.mgrid[:h, :w].astype(float)
        pos = refs.apply_homography(c, np.stack([y.ravel(), x.ravel()], 1))
        img, bad, clean = refs.spoil_image(rng, img)
        ctx.note(img, c)
        return refs.judge_missing(
            ctx, ctx.call(IMG, img, gen.fact_container(rng, c)), bad, clean,
            pos[:, 0].reshape(h, w), pos[:, 1].reshape(h, w),
            "image samples")
    if kind == "bad":
        n = int(rng.choice([0, 1, 4, 6, 7, 9, 12]))
        bad = list(rng.random(n))
        ctx.raises(ValueError, IMG, img, bad)
        ctx.raises(ValueError, LINE, [rng.random((4, 2))], bad)
        ctx.note(n, img)
        return
    order = gen.cyc(p, [1, 1, 0, 2, 3, 5, 1, 4])
    mode = gen.cyc(p, gen.MODES, stride=3)
    lay = gen.cyc(p, gen.LAYOUTS, stride=2)
    y, x = np.mgrid[:h, :w].astype(float)
    kw = {}
    if order != 1:
        kw["order"] = order
    if order > 1 or p["i"] % 2:
        kw["mode"] = mode
    used = kw.get("mode", "reflect")
    if p["i"] % 5 == 4:
        # a given map index replaces the coefficients
        yd = rng.uniform(0, h - 1, (h, w))
        xd = rng.uniform(0, w - 1, (h, w))
        kw["map_index"] = (yd.reshape(-1, 1), xd.reshape(-1, 1))
        ctx.asserts["map index used"] += 1
    else:
        pos = refs.apply_homography(c, np.stack([y.ravel(), x.ravel()], 1))
        yd, xd = pos[:, 0].reshape(h, w), pos[:, 1].reshape(h, w)
    out = ctx.call(IMG, gen.layout(rng, img, lay),
                   gen.fact_container(rng, c), **kw)
    refs.judge_sampling(ctx, out, img, yd, xd, order, used, "image samples")
    ctx.check(np.asarray(out).dtype == img.dtype, "dtype kept",
              got=str(np.asarray(out).dtype))
    ctx.seen("order", order)
    ctx.seen("layout", lay)
    ident = [1, 0, 0, 0, 1, 0, 0, 0]
    if p["i"] % 9 == 0 and order < 2:
        same = ctx.call(IMG, img, ident, order=order)
        ctx.check(np.array_equal(same, img), "identity map")
    ctx.note(img, c, order, used)
    ctx.sample = {"shape": [h, w], "order": order, "mode": used}


def fit(ctx, p, s, d, h, w):
    """More than four noisy correspondences: the least-squares map of all of
    them, so no single point is thrown away or given undue weight."""
    rng = ctx.rng
    n = len(s)
    if n < 12:
        s = np.concatenate([s, rng.random((20, 2)) * [h, w]])
        c0 = ctx.call(CALC, s[:n], d, mapping="forward")
        d = np.concatenate([d, refs.apply_homography(c0, s[n:])])
    noise = rng.normal(0, 0.3, d.shape)
    got = np.asarray(ctx.call(CALC, s, d + noise, mapping="forward"), float)
    err = refs.apply_homography(got, s) - (d + noise)
    base = float(np.sqrt(np.mean(noise ** 2)))
    ctx.at_most(float(np.sqrt(np.mean(err ** 2))), 1.15 * base + 1e-3,
                "least squares", noise=base)
    k = rng.permutation(len(s))
    again = np.asarray(ctx.call(CALC, s[k], (d + noise)[k],
                                mapping="forward"), float)
    ctx.close(refs.apply_homography(again, s), refs.apply_homography(got, s),
              1e-4, "order of points irrelevant")
    ctx.note(s, d, noise)
