"""Generation of perspective targets."""
import itertools
import numpy as np
from .. import gen, refs

ID = "C10"
RULE = ("lattices of 3-22 x 3-22 lines (rotated up to 8 deg, tilted up to "
        "0.2) x equal_dist x scale (mean/median/min/max/float) x optimizing, "
        "lines with ragged and jittered points; quadrilaterals in all 24 "
        "orders, xy and yx; non-trivial: perspective or rotation present")
ASSUMPTIONS = ["the four corners: the two top corners are the two with the "
               "smallest y (moderate rotation)"]
MUST_SEE = {"right angles": 100, "equal spacing": 100, "one projective map":
            60, "spacing as documented": 60, "sources are intersections": 40,
            "four: correspondence": 60, "four: sides": 60,
            "raises:generate_4_source_target_perspective_points": 6,
            "optimizing probed": 10}
GEN = "proc.generate_undistorted_perspective_lines"
PTS = "proc.generate_source_target_perspective_points"
FOUR = "proc.generate_4_source_target_perspective_points"
KEY = "optimizing-no-effect-on-perspective-line-distance"


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    yield from gen.stream(seed, "lattice", 110 * k)
    yield from gen.stream(seed, "points", 60 * k)
    yield from gen.stream(seed, "four", 130 * k)
    yield from gen.stream(seed, "rect", 40 * k)
    yield from gen.stream(seed, "optim", 16 * k)
    yield from gen.stream(seed, "bad4", 10 * k)


def view(rng, ny=None, nx=None, tilt=None, rot=None, sq=True):
    h, w = [float(v) for v in rng.integers(300, 2500, 2)]
    if ny is None and nx is None and rng.random() < 0.06:
        ny, nx = [int(v) for v in rng.integers(20, 64, 2)]   # many lines
        h, w = max(h, 900.0), max(w, 900.0)
    ny = ny or int(rng.integers(3, 23))
    nx = nx or int(rng.integers(3, 23))
    pitch = 0.8 * min(h / ny, w / nx)
    py = pitch if sq else pitch * rng.uniform(0.7, 1.0)
    th = np.deg2rad(rng.uniform(-8, 8)) if rot is None else rot
    t = float(rng.choice([0.0, 0.02, 0.1, 0.2])) if tilt is None else tilt
    g = rng.uniform(-t, t, 2) / max(h, w)
    i, j = np.mgrid[:ny, :nx]
    gx, gy = (j - (nx - 1) / 2) * pitch, (i - (ny - 1) / 2) * py
    x = gx * np.cos(th) - gy * np.sin(th)
    y = gx * np.sin(th) + gy * np.cos(th)
    d = 1 + g[0] * x + g[1] * y
    return np.stack([y / d + h / 2, x / d + w / 2], -1), pitch, th, t


def ragged(rng, pts):
    """Lines of points on the drawn lines, not only at the crossings."""
    def resample(l):
        n = int(rng.integers(3, 30))
        if rng.random() < 0.02:
            n = int(rng.integers(200, 600))
        k = np.sort(rng.uniform(-0.02, 1.02, n))
        return l[0] + k[:, None] * (l[-1] - l[0])
    return ([resample(l) for l in pts],
            [resample(l) for l in pts.transpose(1, 0, 2)])


def fit_lines(hor, ver):
    ch = np.array([np.polyfit(l[:, 1], l[:, 0], 1) for l in hor])
    cv = np.array([np.polyfit(l[:, 0], l[:, 1], 1) for l in ver])
    return ch, cv


def crossings(ch, cv):
    a, b = ch[:, None, 0], ch[:, None, 1]
    c, d = cv[None, :, 0], cv[None, :, 1]
    y = (a * d + b) / (1 - a * c)
    return np.stack([y, c * y + d], -1)


def distances(ch, cv, scale):
    """Reference line distances (along the axes) of the two families."""
    n = min(max(len(ch) // 2 - 1, 1), max(len(cv) // 2 - 1, 1))
    out = []
    for c in (ch[:, 1], cv[:, 1]):
        k = len(c) // 2
        d = np.abs(np.diff(c[max(0, k - n):k + n + 1]))
        f = {"max": np.max, "min": np.min, "median": np.median}.get(
            scale, np.mean)
        d = float(f(d))
        out.append(d * scale if isinstance(scale, float) else d)
    return out


def best_distances(ch, cv):
    """Least-squares distance of equidistant lines about the middle one."""
    out = []
    for c in (ch[:, 1], cv[:, 1]):
        k = np.arange(len(c)) - len(c) // 2
        out.append(float(np.sum(k * (c - c[len(c) // 2])) / np.sum(k * k)))
    return out


def merge(dh, dv, equal, scale):
    if not equal:
        return dh, dv
    d = max(dh, dv) if scale == "max" else min(dh, dv) if scale == "min" \
        else 0.5 * (dh + dv)
    return d, d


def lattice_checks(ctx, t, tol):
    """t: (rows, cols, 2).  Returns spacing along rows, columns and angle."""
    ny, nx = t.shape[:2]
    ex = (t[:, -1] - t[:, 0]).mean(axis=0) / (nx - 1)
    ey = (t[-1] - t[0]).mean(axis=0) / (ny - 1)
    i, j = np.mgrid[:ny, :nx]
    want = t[0, 0] + i[..., None] * ey + j[..., None] * ex
    ctx.close(t, want, tol, "equal spacing")
    dx, dy = float(np.hypot(*ex)), float(np.hypot(*ey))
    ctx.at_most(abs(float(ex @ ey)) / (dx * dy), tol / min(dx, dy) + 1e-5,
                "right angles")
    ctx.check(ex[1] > 0 and ey[0] > 0, "orientation kept", ex=ex, ey=ey)
    return dx, dy, float(np.arctan2(ex[0], ex[1]))


def run(ctx, p):
    rng, kind = ctx.rng, p["kind"]
    if kind in ("four", "rect", "bad4"):
        return four(ctx, p)
    sq = p["i"] % 3 != 2
    pts, pitch, th, t = view(rng, sq=sq)
    if kind == "points":
        hor, ver = ragged(rng, pts)
    else:
        hor, ver = list(pts), list(pts.transpose(1, 0, 2))
    if kind == "optim":
        return optim(ctx, p)
    equal = bool((p["i"] + p["i"] // 12) % 2)
    scale = gen.cyc(p, ["mean", "median", "min", "max",
                        float(rng.uniform(1, 5)),
                        float(10 ** rng.uniform(-2, 0))], stride=2)
    ch, cv = fit_lines(hor, ver)
    kw = {"equal_dist": equal, "scale": scale, "optimizing": False}
    opt = p["i"] % 5 == 4
    if opt:
        kw["optimizing"] = True
    if scale == "mean" and (p["i"] // 24) % 2 == 0:
        del kw["scale"]
    size = float(np.abs(pts).max())
    eps = 3e-6 * size + 2e-3
    if kind == "lattice":
        u, v = ctx.call(GEN, hor, ver, **kw)
        u, v = np.asarray(u, float), np.asarray(v, float)
        ctx.need(u.shape == pts.shape and v.shape == (
            pts.shape[1], pts.shape[0], 2), "one point per crossing",
            got=[u.shape, v.shape])
        ctx.close(v, u.transpose(1, 0, 2), 1e-9, "both families agree")
    else:
        s, q = ctx.call(PTS, hor, ver, **kw)
        s, q = np.asarray(s, float), np.asarray(q, float)
        n = pts.shape[0] * pts.shape[1]
        ctx.need(s.shape == (n, 2) and q.shape == (n, 2),
                 "one point per crossing", got=[s.shape, q.shape])
        s, u = s.reshape(pts.shape), q.reshape(pts.shape)
        ctx.close(s, crossings(ch, cv), 3 * eps, "sources are intersections")
        if kind == "points":
            ctx.close(s, pts, 3 * eps, "sources are the grid nodes")
        # lines are re-fitted to the single-precision sources
        ch, cv = fit_lines(list(s), list(s.transpose(1, 0, 2)))
    dx, dy, ang = lattice_checks(ctx, u, 3 * eps)
    dh, dv = merge(*distances(ch, cv, scale), equal, scale)
    c = np.cos(ang)
    if opt:
        # with optimisation: the documented scale or the best-fitting distance
        bh, bv = merge(*best_distances(ch, cv), equal, scale)
        if abs(dy / (bh * c) - 1) + abs(dx / (bv * c) - 1) < \
                abs(dy / (dh * c) - 1) + abs(dx / (dv * c) - 1):
            dh, dv = bh, bv
    ctx.at_most(abs(dy / (dh * c) - 1), 2e-3 + eps / dh,
                "spacing as documented", scale=scale, equal=equal, got=dy,
                want=dh * c, which="between horizontal lines")
    ctx.at_most(abs(dx / (dv * c) - 1), 2e-3 + eps / dv,
                "spacing as documented", scale=scale, equal=equal, got=dx,
                want=dv * c, which="between vertical lines")
    if equal:
        ctx.at_most(abs(dx / dy - 1), 1e-3 + eps / dy, "same spacing")
    ctx.at_most(abs(ang - th), 0.6 * t + 1e-3, "orientation of the view",
                ang=ang, th=th)
    # the middle lines keep their intercepts, so the target stays in place
    mh, mv = len(ch) // 2, len(cv) // 2
    b = np.polyfit(u[mh][:, 1], u[mh][:, 0], 1)[1]
    ctx.at_most(abs(b - ch[mh, 1]), 3 * eps + 1e-3 * abs(ch[mh, 1]),
                "stays in place", got=b, want=ch[mh, 1])
    b = np.polyfit(u[:, mv][:, 0], u[:, mv][:, 1], 1)[1]
    ctx.at_most(abs(b - cv[mv, 1]), 3 * eps + 1e-3 * abs(cv[mv, 1]),
                "stays in place", got=b, want=cv[mv, 1])
    projective(ctx, pts.reshape(-1, 2), u.reshape(-1, 2), 40 * eps + 2e-3)
    ctx.nontrivial = t > 0 or abs(th) > 0.01
    ctx.seen("scale", scale if isinstance(scale, str) else "float")
    ctx.seen("equal_dist", equal)
    ctx.note(hor, ver, scale, equal)
    ctx.sample = {"lines": list(pts.shape[:2]), "spacing": [dx, dy],
                  "scale": scale, "equal": equal}


def projective(ctx, a, b, tol):
    """One projective map takes a to b, point by point (normalised DLT)."""
    def norm(q):
        m = q.mean(axis=0)
        s = np.abs(q - m).max()
        return (q - m) / s, s
    x, _ = norm(a)
    y, sb = norm(b)
    rows = []
    for (v, u), (q, p) in zip(x, y):
        rows.append([u, v, 1, 0, 0, 0, -p * u, -p * v])
        rows.append([0, 0, 0, u, v, 1, -q * u, -q * v])
    c = np.linalg.lstsq(np.array(rows), y[:, ::-1].ravel(), rcond=None)[0]
    err = np.abs(refs.apply_homography(c, x) - y).max() * sb
    ctx.at_most(err, tol, "one projective map")


def optim(ctx, p):
    """optimizing=True must leave a lattice, with the line distance that fits
    all lines best.  It has no effect on the current tree: known finding."""
    rng = ctx.rng
    pts, pitch, th, t = view(rng, ny=int(rng.integers(8, 20)),
                             nx=int(rng.integers(8, 20)), tilt=0.2)
    hor, ver = list(pts), list(pts.transpose(1, 0, 2))
    on, _ = ctx.call(GEN, hor, ver, equal_dist=False, optimizing=True)
    off, _ = ctx.call(GEN, hor, ver, equal_dist=False, optimizing=False)
    dflt, _ = ctx.call(GEN, hor, ver, equal_dist=False)
    on, off = np.asarray(on, float), np.asarray(off, float)
    ctx.check(np.array_equal(on, np.asarray(dflt, float)),
              "optimisation is the default")
    eps = 3e-6 * float(np.abs(pts).max()) + 2e-3
    dx, dy, ang = lattice_checks(ctx, on, 3 * eps)
    ox, oy, _ = lattice_checks(ctx, off, 3 * eps)
    ch, cv = fit_lines(hor, ver)
    best = [d * np.cos(ang) for d in best_distances(ch, cv)]
    ctx.asserts["optimizing probed"] += 1
    if max(abs(oy / best[0] - 1), abs(ox / best[1] - 1)) > 2e-3:
        if abs(dy / oy - 1) < 1e-5 and abs(dx / ox - 1) < 1e-5:
            ctx.known.append(KEY)
        else:
            ctx.at_most(max(abs(dy / best[0] - 1), abs(dx / best[1] - 1)),
                        1e-3, "optimised distance", got=[dy, dx], best=best,
                        off=[oy, ox])
    ctx.nontrivial = True
    ctx.note(pts)


def quad(rng):
    """Corners TL, TR, BL, BR of a perspective view of a rectangle."""
    while True:
        w, h = rng.uniform(80, 1500, 2)
        th = np.deg2rad(rng.uniform(-25, 25))
        cx, cy = rng.uniform(-100, 2000, 2)
        q = np.array([[-h, -w], [-h, w], [h, -w], [h, w]]) / 2
        y = q[:, 1] * np.sin(th) + q[:, 0] * np.cos(th)
        x = q[:, 1] * np.cos(th) - q[:, 0] * np.sin(th)
        g = rng.uniform(-0.25, 0.25, 2) / max(h, w)
        d = 1 + g[0] * x + g[1] * y
        rect = np.stack([y + cy, x + cx], 1)
        q = np.stack([y / d + cy, x / d + cx], 1)
        gap = 0.02 * max(h, w)
        if all(max(a[0, 0], a[1, 0]) + gap < min(a[2, 0], a[3, 0])
               and a[0, 1] + gap < a[1, 1] and a[2, 1] + gap < a[3, 1]
               for a in (q, rect)):
            return q, rect, th


def four(ctx, p):
    rng, kind = ctx.rng, p["kind"]
    q, rect, th = quad(rng)
    if kind == "bad4":
        n = int(rng.choice([1, 2, 3, 5, 6, 9]))
        pts = rng.uniform(0, 900, (n, 2))
        ctx.raises(ValueError, FOUR, pts, **gen.pick(
            rng, [{}, {"input_order": "xy"}, {"scale": "max"}]))
        ctx.note(pts)
        return
    if kind == "rect":
        q = rect
    unit = gen.cyc(p, [1.0, 1.0, 0.004, 1.0, 30.0, 1.0, 1e-6])
    q = q * unit      # pixels, or any other unit of length
    ctx.seen("unit", unit)
    perm = list(itertools.permutations(range(4)))[p["i"] % 24]
    xy = bool((p["i"] // 24) % 2) if kind == "four" else bool(p["i"] % 2)
    inp = q[list(perm)]
    inp = inp[:, ::-1] if xy else inp
    inp = gen.cyc(p, [inp, inp.tolist(), tuple(map(tuple, inp))])
    equal = bool((p["i"] // 3) % 2)
    scale = gen.cyc(p, ["mean", "min", "max",
                        float(10 ** rng.uniform(-2, 0)),
                        float(rng.uniform(1, 5))], stride=2)
    if kind == "rect":
        equal, scale = False, gen.cyc(p, ["mean", "min", "max"])
    s, t = ctx.call(FOUR, inp, input_order="xy" if xy else "yx",
                    equal_dist=equal, scale=scale)
    s, t = np.asarray(s, float), np.asarray(t, float)
    ctx.need(s.shape == (4, 2) and t.shape == (4, 2), "four points each")
    eps = 1e-6 * float(np.abs(q).max()) + 1e-3 * unit
    ctx.close(s, q, eps, "four: sources are the corners", perm=perm, xy=xy)
    size = float(np.abs(t).max())
    e = 1e-5 * size + 1e-2 * unit
    ctx.close(t[0] + t[3], t[1] + t[2], e, "four: parallelogram")
    ex, ey = t[1] - t[0], t[2] - t[0]
    dx, dy = np.hypot(*ex), np.hypot(*ey)
    ctx.at_most(abs(float(ex @ ey)) / (dx * dy), 1e-4 + e / min(dx, dy),
                "four: right angles")
    ctx.check(ex[1] > 0 and ey[0] > 0, "four: correspondence", ex=ex, ey=ey)

    def side(a, b):
        return float(np.hypot(*(q[a] - q[b])))
    hh, vv = (side(0, 1), side(2, 3)), (side(0, 2), side(1, 3))
    f = {"min": min, "max": max}.get(scale, lambda *a: sum(a) / len(a))
    k = scale if isinstance(scale, float) else 1.0
    wx, wy = k * f(*hh), k * f(*vv)
    if equal:
        wx = wy = f(wx, wy)
    ctx.at_most(abs(dx - wx), e + 1e-4 * wx, "four: sides", scale=scale,
                equal=equal, got=[dx, dy], want=[wx, wy])
    ctx.at_most(abs(dy - wy), e + 1e-4 * wy, "four: sides", scale=scale,
                equal=equal, got=[dx, dy], want=[wx, wy])
    ang = float(np.arctan2(ex[0], ex[1]))
    sl = [np.arctan2(*(q[1] - q[0])), np.arctan2(*(q[3] - q[2])),
          -np.arctan2(*(q[2] - q[0])[::-1]), -np.arctan2(*(q[3] - q[1])[::-1])]
    if min(sl) > 0.02 or max(sl) < -0.02:
        # all four sides agree on the sense of the rotation
        ctx.check(min(sl) - 1e-3 <= ang <= max(sl) + 1e-3,
                  "four: orientation", got=ang, sides=sl)
    if kind == "rect":
        ctx.close(t, q, 2 * e, "four: a rectangle is its own target")
    ctx.nontrivial = True
    ctx.seen("order", "xy" if xy else "yx")
    ctx.note(inp, equal, scale)
    ctx.sample = {"perm": perm, "sides": [dx, dy], "scale": scale}
