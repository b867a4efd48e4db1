"""Grid regeneration, correction of the perspective effect, update_center."""
import numpy as np
from scipy import optimize
from .. import gen, refs, calib
from .c07 import make
from .c10 import view, ragged, fit_lines, crossings, projective

ID = "C11"
RULE = ("straight grids (perspective views, ragged lines, coefficient input), "
        "radially distorted grids (barrel/pincushion) with and without "
        "perspective, representative-line methods mean/median/min/max and "
        "scales; non-trivial: at least 9 crossings of non-parallel lines")
ASSUMPTIONS = ["perspective-effect correction: barrel or pincushion grids "
               "whose centre lies inside the grid"]
MUST_SEE = {"linear crossings": 60, "parabola crossings": 30,
            "coefficient input": 15, "effect: one projective map": 30,
            "effect: parallel": 30, "effect: perpendicular": 30,
            "effect: as documented": 30, "perspective removed": 12,
            "raises:correct_perspective_effect": 12, "translated": 20}
LIN = "proc.regenerate_grid_points_linear"
PAR = "proc.regenerate_grid_points_parabola"
EFF = "proc.correct_perspective_effect"
UPD = "proc.update_center"


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    yield from gen.stream(seed, "linear", 80 * k)
    yield from gen.stream(seed, "para", 40 * k)
    yield from gen.stream(seed, "pers", 24 * k)
    yield from gen.stream(seed, "effect", 60 * k)
    yield from gen.stream(seed, "bad", 16 * k)
    yield from gen.stream(seed, "center", 30 * k)


def pair(ctx, out, ny, nx):
    u, v = [np.asarray(o, float) for o in out]
    ctx.need(u.shape == (ny, nx, 2) and v.shape == (nx, ny, 2),
             "one point per pair of lines", got=[u.shape, v.shape])
    ctx.close(v, u.transpose(1, 0, 2), 1e-9, "[i,j] is [j,i]")
    return u


def distorted(rng, tilt=0.0, aspect=(1.0, 1.0), many=False):
    """Radially distorted grid, seen with a perspective tilt; `aspect`: the
    undistorted view compressed in (y, x), as by a strong tilt."""
    while True:
        hor, ver, xc, yc, fact, nodes, dist, pitch, s, rmax = make(
            rng, "grid" if many else "few")
        if many and max(len(hor), len(ver)) < 28:
            continue
        if not many and (len(hor) > 16 or len(ver) > 16):
            continue
        t = rng.uniform(-1, 1, 2) * tilt / rmax

        def look(q):
            d = (q - [yc, xc]) * aspect
            w = 1 + d[:, 0] * t[0] + d[:, 1] * t[1]
            return gen.apply_radial(d / w[:, None] + [yc, xc], xc, yc, fact)
        hor, ver = gen.lines_of(gen.map_nodes(nodes, look))
        ch, cv = calib.para_hor(hor, xc, yc), calib.para_ver(ver, xc, yc)
        if min(np.abs(ch[:, 0]).min(), np.abs(cv[:, 0]).min()) < 1e-9:
            continue
        # lines of both curvatures on both sides
        if all((c[:, 0] > 0).sum() > 1 and (c[:, 0] < 0).sum() > 1
               for c in (ch, cv)):
            return hor, ver, xc, yc, pitch, s, rmax, ch, cv


def para_cross(ch, cv, start):
    ny, nx = len(ch), len(cv)
    out = np.zeros((ny, nx, 2))
    for i in range(ny):
        for j in range(nx):
            x, y = start[i, j, 1], start[i, j, 0]
            for _ in range(60):
                f = np.polyval(ch[i], x) - y
                g = np.polyval(cv[j], y) - x
                fx = 2 * ch[i, 0] * x + ch[i, 1]
                gy = 2 * cv[j, 0] * y + cv[j, 1]
                dx, dy = np.linalg.solve([[fx, -1], [-1, gy]], [-f, -g])
                x, y = x + dx, y + dy
                if abs(dx) + abs(dy) < 1e-11:
                    break
            out[i, j] = y, x
    return out


def run(ctx, p):
    rng, kind = ctx.rng, p["kind"]
    ctx.nontrivial = True
    if kind == "linear":
        pts = view(rng, sq=(p["i"] // 4) % 2 == 0)[0]
        hor, ver = ragged(rng, pts)
        if p["i"] % 3 == 0:
            hor = [l + rng.normal(0, 0.4, l.shape) for l in hor]
            ver = [l + rng.normal(0, 0.4, l.shape) for l in ver]
        if p["i"] % 5 == 0:
            hor, ver = hor[::-1], ver[::-1]
        ch, cv = fit_lines(hor, ver)
        eps = 1e-5 * np.abs(pts).max() + 2e-3
        ny, nx = len(hor), len(ver)
        u = pair(ctx, ctx.call(LIN, hor, ver), ny, nx)
        ctx.close(u, crossings(ch, cv), eps, "linear crossings")
        if p["i"] % 2:
            c = [a.tolist() for a in (ch, cv)] if p["i"] % 4 == 1 else \
                (ch, cv)
            u2 = pair(ctx, ctx.call(LIN, *c, is_coef=True), ny, nx)
            ctx.close(u2, crossings(ch, cv), eps, "linear crossings")
            ctx.asserts["coefficient input"] += 1
        ctx.note(hor, ver)
        ctx.sample = {"lines": [ny, nx]}
        return
    if kind == "center":
        lines = [rng.normal(0, 500, (int(rng.integers(1, 20)), 2))
                 for _ in range(int(rng.integers(1, 9)))]
        if p["i"] % 3 == 1:
            lines = [np.round(l).astype(np.int32) for l in lines]
        a, b = [float(v) for v in rng.normal(0, 700, 2)]
        inp = [l.tolist() for l in lines] if p["i"] % 2 else lines
        out = ctx.call(UPD, inp, a, b)
        ctx.need(len(out) == len(lines), "line structure")
        for o, l in zip(out, lines):
            ctx.close(o, l + np.array([b, a]), 1e-9, "translated")
        back = ctx.call(UPD, out, -a, -b)
        for o, l in zip(back, lines):
            ctx.close(o, l, 1e-9, "translated back")
        ctx.note(lines, a, b)
        return
    if kind == "para":
        hor, ver, xc, yc, pitch, s, rmax, ch, cv = distorted(
            rng, 0.05 * (p["i"] % 2), many=p["i"] % 20 == 13)
        ny, nx = len(hor), len(ver)
        fc = p["i"] % 3 != 0
        u = pair(ctx, ctx.call(PAR, hor, ver, find_center=True) if fc else
                 ctx.call(PAR, hor, ver), ny, nx)
        start = np.array([[hor[i][j] for j in range(nx)] for i in range(ny)])
        want = para_cross(ch, cv, start - [yc, xc]) + [yc, xc]
        ctx.close(u, want, 1e-6 * rmax + 4e-3, "parabola crossings",
                  find_center=fc)
        ctx.at_most(np.abs(u - start).max(), 0.2 * pitch + 2,
                    "near the measured points")
        ctx.note(hor, ver, fc)
        ctx.sample = {"lines": [ny, nx], "find_center": fc}
        return
    if kind == "pers":
        return pers(ctx, p)
    if kind == "bad":
        return bad(ctx, p)
    effect(ctx, p)


def pers(ctx, p):
    """perspective=True: a grid of parabolas with one common tilt, square
    near the centre."""
    rng = ctx.rng
    f = float(rng.uniform(0.72, 0.93))
    aspect = gen.cyc(p, [(1.0, 1.0), (1.0, f), (f, 1.0), (1.0, 1.0)])
    ctx.seen("aspect", ["square", "narrow", "flat"][
        (aspect[1] < 1) + 2 * (aspect[0] < 1)])
    hor, ver, xc, yc, pitch, s, rmax, ch, cv = distorted(rng, 0.06, aspect)
    ny, nx = len(hor), len(ver)
    u = pair(ctx, ctx.call(PAR, hor, ver, perspective=True), ny, nx)
    bx, by = calib.bailey(hor, ver)
    nh = calib.para_hor(list(u), bx, by)
    nv = calib.para_ver(list(u.transpose(1, 0, 2)), bx, by)
    oh, ov = calib.para_hor(hor, bx, by), calib.para_ver(ver, bx, by)
    tilt = np.concatenate([nh[:, 1], -nv[:, 1]])
    before = np.concatenate([oh[:, 1], -ov[:, 1]])
    ctx.at_most(np.ptp(tilt), 1e-3, "perspective removed",
                before=float(np.ptp(before)))
    # same distance between lines near the centre in both directions
    n = min(3, ny // 2 - 1, nx // 2 - 1)
    d = []
    for c in (nh, nv):
        k = int(np.argmax(np.abs(np.diff(np.sign(c[:, 0]))))) + 1
        d.append(np.mean(np.abs(np.diff(
            c[max(0, k - n):k + n + 1, 2]))))
    ctx.at_most(abs(d[0] / d[1] - 1), 5e-3, "square near the centre", d=d)
    # the distortion itself is kept: the same bend at the same (undistorted)
    # place in units of the pitch, for the stretched family too
    for old, new in ((oh, nh), (ov, nv)):
        k = [np.polyfit(c[:, 2], c[:, 0], 1)[0] for c in (old, new)]
        ctx.at_most(abs(k[1] / k[0] - 1), 0.02, "same distortion", k=k,
                    aspect=aspect)
    start = np.array([[hor[i][j] for j in range(nx)] for i in range(ny)])
    if aspect == (1.0, 1.0):
        ctx.at_most(np.abs(u - start).max(), 1.5 * pitch,
                    "near the measured points")
    ctx.note(hor, ver)
    ctx.sample = {"tilt_before": float(np.ptp(before)),
                  "tilt_after": float(np.ptp(tilt))}


def bad(ctx, p):
    rng = ctx.rng
    hor, ver, xc, yc, pitch, s, rmax, ch, cv = distorted(rng, 0.03)
    k = p["i"] % 8
    up_h = [l for l, c in zip(hor, ch) if c[0] > 0]
    dn_h = [l for l, c in zip(hor, ch) if c[0] < 0]
    up_v = [l for l, c in zip(ver, cv) if c[0] > 0]
    dn_v = [l for l, c in zip(ver, cv) if c[0] < 0]
    a = [(up_h, ver), (dn_h, ver), (hor, up_v), (hor, dn_v), (hor[:1], ver),
         (hor, ver[:1]), (up_h, up_v), (dn_h, dn_v)][k]
    m = gen.cyc(p, ["mean", "median", "min", "max"])
    ctx.raises(ValueError, EFF, *a, xc, yc, method=m)
    ctx.seen("rejected", k)
    ctx.note(hor, ver, k)


def representative(c, sel, method):
    c = c[sel]
    if method == "median":
        return float(np.median(c[:, 1])), float(np.median(c[:, 2]))
    if method in ("min", "max"):
        k = (np.argmin if method == "min" else np.argmax)(np.abs(c[:, 0]))
        return float(c[k, 1]), float(c[k, 2])
    return float(np.mean(c[:, 1])), float(np.mean(c[:, 2]))


def effect(ctx, p):
    rng = ctx.rng
    hor, ver, xc, yc, pitch, s, rmax, ch, cv = distorted(
        rng, float(rng.choice([0.0, 0.05, 0.12])))
    if p["i"] % 5 == 2:
        # two lines, one bent each way, are enough
        k = [gen.pick(rng, list(np.flatnonzero(ch[:, 0] * s_ > 0)))
             for s_ in (1, -1)]
        hor, ch = [hor[i] for i in sorted(k)], ch[sorted(k)]
        ctx.seen("two lines")
    if p["i"] % 5 in (2, 4) and p["i"] % 2:
        k = [gen.pick(rng, list(np.flatnonzero(cv[:, 0] * s_ > 0)))
             for s_ in (1, -1)]
        ver, cv = [ver[i] for i in sorted(k)], cv[sorted(k)]
        ctx.seen("two lines")
    method = gen.cyc(p, ["mean", "median", "min", "max"])
    scale = gen.cyc(p, ["mean", "max", "min", 1.3], stride=4)
    kw = {}
    if method != "mean" or p["i"] % 8:
        kw["method"] = method
    if scale != "mean" or p["i"] % 3 == 0:
        kw["scale"] = scale
    oh, ov = ctx.call(EFF, hor, ver, xc, yc, **kw)
    ctx.need(len(oh) == len(hor) and len(ov) == len(ver) and all(
        np.shape(a) == np.shape(b) for a, b in zip(
            list(oh) + list(ov), hor + ver)), "line structure")
    src = np.concatenate(hor + ver)
    dst = np.concatenate([np.asarray(l, float) for l in
                          list(oh) + list(ov)])
    b = {}
    for name, c, k in (("h", ch, 0), ("v", cv, 1)):
        for sgn, sel in (("+", c[:, 0] > 0), ("-", c[:, 0] < 0)):
            b[name + sgn] = representative(c, sel, method)
    # the four representative lines must become a rectangle
    rep = crossings(np.array([b["h+"], b["h-"]]), np.array([b["v+"],
                                                            b["v-"]]))
    rep = rep.reshape(4, 2)
    projective(ctx, src, dst, 1e-3 + 1e-6 * rmax)
    ctx.asserts["effect: one projective map"] += 1
    coef = dlt(src - [yc, xc], dst - [yc, xc])
    t = refs.apply_homography(coef, rep)
    e1, e2, f1, f2 = t[1] - t[0], t[3] - t[2], t[2] - t[0], t[3] - t[1]
    size = max(np.hypot(*e1), np.hypot(*f1))
    tol = 2e-5
    ctx.at_most(np.hypot(*(e1 - e2)) / size, tol, "effect: parallel",
                method=method)
    ctx.at_most(np.hypot(*(f1 - f2)) / size, tol, "effect: parallel",
                method=method)
    ctx.at_most(abs(float(e1 @ f1)) / (np.hypot(*e1) * np.hypot(*f1)), tol,
                "effect: perpendicular", method=method)
    # sides as the scale option says
    def side(a, c):
        return float(np.hypot(*(rep[a] - rep[c])))
    f = {"min": min, "max": max}.get(scale, lambda *a: sum(a) / len(a))
    k = scale if isinstance(scale, float) else 1.0
    for got, w1, w2 in ((e1, side(0, 1), side(2, 3)),
                        (f1, side(0, 2), side(1, 3))):
        want = k * f(w1, w2)
        ctx.at_most(abs(np.hypot(*got) / want - 1), 1e-3,
                    "effect: as documented", scale=scale, method=method)
    # what a user sees: the tangents of both families at the centre agree
    nh = calib.para_hor([np.asarray(l, float) for l in oh], xc, yc)
    nv = calib.para_ver([np.asarray(l, float) for l in ov], xc, yc)
    ptp = np.ptp(np.concatenate([nh[:, 1], -nv[:, 1]]))
    was = np.ptp(np.concatenate([ch[:, 1], -cv[:, 1]]))
    if scale == "mean" and method in ("mean", "median"):
        ctx.at_most(ptp, 0.2 * was + 3e-3, "effect: visible", before=was)
    ctx.note(hor, ver, method, scale)
    ctx.seen("method", method)
    ctx.sample = {"method": method, "scale": scale, "tilt_before": was,
                  "tilt_after": ptp}


def dlt(a, b):
    """8 coefs taking (y,x) points a to b; scaled for conditioning."""
    s = float(max(np.abs(a).max(), np.abs(b).max()))
    x, y = a / s, b / s
    rows = []
    for (v, u), (q, r) in zip(x, y):
        rows.append([u, v, 1, 0, 0, 0, -r * u, -r * v])
        rows.append([0, 0, 0, u, v, 1, -q * u, -q * v])
    c = np.linalg.lstsq(np.array(rows), y[:, ::-1].ravel(), rcond=None)[0]
    c = c * np.array([1, 1, s, 1, 1, s, 1 / s, 1 / s])
    return c
