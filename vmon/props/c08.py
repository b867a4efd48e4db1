"""Centre-of-distortion estimators."""
import numpy as np
from .. import gen, refs, calib
from .c07 import make

ID = "C08"
RULE = ("lattices as in C07 (14-28 lines a side, rotated up to 3 deg or "
        "aligned, centre up to 6 % off the middle, barrel and pincushion "
        "0.8-6 %), optionally seen in mild perspective; every estimator, its "
        "translated, transposed and mirrored input, list/tuple/float32 "
        "containers; non-trivial: the middle of the grid is more than 3 px "
        "away from the centre")
ASSUMPTIONS = [
    "accuracy asked for: that of an independent float64 implementation of "
    "the published estimators on the same grid, plus a quarter and 0.1 px "
    "(0.8 px for the 0.5 px search lattice of the fine estimator)",
    "vanishing points: barrel distortion only, as documented"]
MUST_SEE = {"coarse accuracy": 60, "bailey accuracy": 60,
            "vanishing accuracy": 30, "iteration accuracy": 30,
            "fine accuracy": 8, "equivariance": 100, "fine/aligned": 3, "fine/one-sided": 4,
            "within a pitch": 60}


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    yield from gen.stream(seed, "fine", 12 * k)
    yield from gen.stream(seed, "far", 2 * k)
    yield from gen.stream(seed, "grid", 120 * k)
    yield from gen.stream(seed, "pers", 40 * k)
    yield from gen.stream(seed, "moved", 40 * k)


def far(a, b):
    return float(np.hypot(float(a[0]) - b[0], float(a[1]) - b[1]))


def contain(i, hor, ver):
    if i % 4 == 1:
        return [l.tolist() for l in hor], [l.tolist() for l in ver]
    if i % 4 == 2:
        return tuple(hor), tuple(ver)
    return hor, ver


def few_make(rng, aligned):
    """Small grids for the (slow) fine search."""
    while True:
        r = make(rng, "few")
        hor, ver, xc, yc = r[:4]
        if len(hor) > 13 or len(ver) > 13:
            continue
        if aligned:
            nodes, fact = r[5], r[4]
            mid = hor[len(hor) // 2]
            t = np.arctan(np.polyfit(mid[:, 1], mid[:, 0], 1)[0])
            c, s = np.cos(-t), np.sin(-t)

            def turn(q):
                d = q - [yc, xc]
                return np.array([yc, xc]) + np.stack(
                    [s * d[:, 1] + c * d[:, 0], c * d[:, 1] - s * d[:, 0]], 1)
            nodes = gen.map_nodes(nodes, turn)
            hor, ver = gen.lines_of(gen.map_nodes(
                nodes, lambda q: gen.apply_radial(q, xc, yc, fact)))
        return (hor, ver) + r[2:]


def run(ctx, p):
    rng, kind = ctx.rng, p["kind"]
    i = p["i"]
    if kind == "fine":
        return fine(ctx, p)
    if kind == "far":
        return far_start(ctx, p)
    hor, ver, xc, yc, fact, nodes, dist, pitch, s, rmax = make(rng, "grid")
    c = (xc, yc)
    mid = np.mean([v for v in nodes.values()], axis=0)
    ctx.nontrivial = far((mid[1], mid[0]), c) > 3
    ctx.note(hor, ver)
    ctx.seen("case", kind)
    if kind == "pers":
        return pers(ctx, p, c, fact, nodes, s, rmax)
    if i % 4 == 3:
        hor = [l.astype(np.float32) for l in hor]
        ver = [l.astype(np.float32) for l in ver]
    a = contain(i, hor, ver)
    if kind == "moved":
        return moved(ctx, p, a, hor, ver, s, pitch)
    rc, rb = calib.coarse(hor, ver), calib.bailey(hor, ver)
    gc = ctx.call("proc.find_cod_coarse", *a)
    gb = ctx.call("proc.find_cod_bailey", *a)
    ctx.at_most(far(gc, c), 1.25 * far(rc, c) + 0.1, "coarse accuracy",
                got=gc, want=c, ref=rc)
    ctx.at_most(far(gc, c), 1.0 * pitch, "within a pitch")
    ctx.at_most(far(gb, c), 1.25 * far(rb, c) + 0.1, "bailey accuracy",
                got=gb, want=c, ref=rb)
    ctx.at_most(far(gb, c), max(0.3 * pitch, 2.0) + 2, "few pixels")
    it = int(rng.integers(0, 5))
    g = ctx.call("proc.find_cod_bailey", *a, iteration=it)
    r = calib.bailey(hor, ver, it)
    ctx.at_most(far(g, c), 1.25 * far(r, c) + 0.1, "bailey accuracy",
                got=g, want=c, ref=r, iteration=it)
    if s < 0:
        v = ctx.call("proc.find_center_based_vanishing_points", *a)
        rv = calib.vanishing(hor, ver) or rb
        ctx.at_most(far(v, c), 1.25 * far(rv, c) + 0.1, "vanishing accuracy",
                    got=v, want=c, ref=rv)
        m = gen.cyc(p, ["mean", "median", "min", "max"])
        n = int(rng.integers(0, 4))
        v = ctx.call("proc.find_center_based_vanishing_points_iteration", *a,
                     iteration=n, method=m)
        rv = calib.vanishing(hor, ver, calib.flattest_pairs) or rb
        ctx.at_most(far(v, c), 1.3 * far(rv, c) + 0.3, "iteration accuracy",
                    got=v, want=c, ref=rv, method=m, n=n)
    ctx.sample = {"centre": c, "coarse": gc, "bailey": gb, "pitch": pitch}


def pers(ctx, p, c, fact, nodes, s, rmax):
    """Perspective before the lens: the estimators of vanishing points."""
    rng = ctx.rng
    xc, yc = c
    if s > 0:
        fact = fact.copy()
        fact[1:] *= -1
    t = rng.uniform(-0.08, 0.08, 2) / rmax

    def view(q):
        d = q - [yc, xc]
        w = 1 + d[:, 0] * t[0] + d[:, 1] * t[1]
        return gen.apply_radial(d / w[:, None] + [yc, xc], xc, yc, fact)
    hor, ver = gen.lines_of(gen.map_nodes(nodes, view))
    a = contain(p["i"], hor, ver)
    rb = calib.bailey(hor, ver)
    v = ctx.call("proc.find_center_based_vanishing_points", *a)
    rv = calib.vanishing(hor, ver) or rb
    ctx.at_most(far(v, c), 1.25 * far(rv, c) + 0.1, "vanishing accuracy",
                got=v, want=c, ref=rv)
    v = ctx.call("proc.find_center_based_vanishing_points_iteration", *a,
                 iteration=0)
    rv = calib.vanishing(hor, ver, calib.flattest_pairs) or rb
    ctx.at_most(far(v, c), 1.25 * far(rv, c) + 0.1, "iteration accuracy",
                got=v, want=c, ref=rv)
    v = ctx.call("proc.find_center_based_vanishing_points_iteration", *a)
    ctx.at_most(far(v, c), 30.0, "iteration stays near", got=v, want=c)
    ctx.sample = {"centre": c, "vanishing": rv, "found": v}


def moved(ctx, p, a, hor, ver, s, pitch):
    """Translating, transposing or mirroring the points does the same to the
    estimate."""
    rng = ctx.rng
    fns = ["find_cod_coarse", "find_cod_bailey"]
    if s < 0:
        fns += ["find_center_based_vanishing_points",
                "find_center_based_vanishing_points_iteration"]
    h64 = [np.asarray(l, float) for l in hor]
    v64 = [np.asarray(l, float) for l in ver]
    tx, ty = rng.uniform(-600, 900, 2)
    t = np.array([ty, tx])
    for fn in fns:
        # the coarse estimate reads curved lines where they meet the axes, so
        # it follows a translation only to a fraction of the pitch
        tol = {"find_cod_coarse": 0.25 * pitch,
               "find_cod_bailey": 0.1}.get(fn, 0.5)
        x, y = [float(v) for v in ctx.call("proc." + fn, *a)]
        x1, y1 = ctx.call("proc." + fn, [l + t for l in h64],
                          [l + t for l in v64])
        ctx.at_most(far((x1, y1), (x + tx, y + ty)), tol, "equivariance",
                    fn=fn, what="translate", got=[x1, y1],
                    want=[x + tx, y + ty])
        y1, x1 = ctx.call("proc." + fn, [l[:, ::-1] for l in v64],
                          [l[:, ::-1] for l in h64])
        ctx.at_most(far((x1, y1), (x, y)), min(tol, 0.5), "equivariance", fn=fn,
                    what="transpose", got=[x1, y1], want=[x, y])
        m = np.array([1.0, -1.0])
        x1, y1 = ctx.call("proc." + fn, [l[::-1] * m for l in h64],
                          [l * m for l in v64[::-1]])
        ctx.at_most(far((x1, y1), (-x, y)), min(tol, 0.5), "equivariance", fn=fn,
                    what="mirror", got=[x1, y1], want=[-x, y])
    ctx.sample = {"shift": [tx, ty], "estimators": fns}


def far_start(ctx, p):
    """A start a good part of a (large) pitch away from the centre, on the few
    lines around the centre (the search is slow)."""
    rng = ctx.rng
    hor, ver, xc, yc, fact, nodes, dist, pitch, s, rmax = few_make(rng, False)
    i, j = [int(np.argmin([abs(np.mean(l[:, k]) - q) for l in g]))
            for g, k, q in ((hor, 0, yc), (ver, 1, xc))]
    i, j = min(max(i, 2), len(hor) - 3), min(max(j, 2), len(ver) - 3)
    hor, ver = hor[i - 2:i + 3], ver[j - 2:j + 3]
    best = calib.fine(hor, ver, xc, yc, 4.0)
    reach = float(rng.uniform(54, 58))
    off = rng.choice([-1, 1], 2) * [rng.uniform(49, 53), rng.uniform(0, 53)]
    off = off if p["i"] % 2 else off[::-1]
    x0, y0 = best[0] - off[0], best[1] - off[1]
    g = ctx.call("proc.find_cod_fine", hor, ver, x0, y0, reach)
    r = calib.fine(hor, ver, x0, y0, reach)
    ctx.at_most(far(g, r), 2.0, "fine accuracy", got=g, ref=r,
                true=[xc, yc], start=[x0, y0])
    ctx.seen("fine/far start")
    ctx.nontrivial = True
    ctx.note(hor, ver, x0, y0)


def fine(ctx, p):
    rng = ctx.rng
    aligned = p["i"] % 3 == 0
    hor, ver, xc, yc, fact, nodes, dist, pitch, s, rmax = few_make(
        rng, aligned)
    c = (xc, yc)
    if p["i"] % 4 in (1, 2):
        # the centre near one side of the grid: fewer lines there
        mean = [np.mean([l[:, k] for l in g], axis=1) - q
                for g, k, q in ((hor, 0, yc), (ver, 1, xc))]
        side = p["i"] % 4 - 1
        k = max(0, int(np.argmin(np.abs(mean[side]))) - 2)
        if side == 0:
            hor, ver = hor[k:], [l[k:] for l in ver]
        else:
            hor, ver = [l[k:] for l in hor], ver[k:]
        ctx.seen("fine/one-sided")
    reach = float(rng.choice([5.0, 6.0, 7.3]))
    off = rng.uniform(0.55, 0.95, 2) * reach * rng.choice([-1, 1], 2)
    if p["i"] % 2:
        off[int(rng.integers(2))] *= 0.2
    # the search finds the optimum of its metric: start off that point
    best = calib.fine(hor, ver, xc, yc, 4.0)
    x0, y0 = best[0] - off[0], best[1] - off[1]
    g = ctx.call("proc.find_cod_fine", hor, ver, x0, y0, reach)
    r = calib.fine(hor, ver, x0, y0, reach)
    ctx.at_most(far(g, r), 0.8, "fine accuracy", got=g, ref=r, true=c,
                start=[x0, y0])
    if p["i"] % 4 not in (1, 2):
        # (with lines on one side only the optimum itself is biased)
        ctx.at_most(far(g, c), far(best, c) + 1.6, "fine improves", got=g,
                    true=c, start=[x0, y0])
    if aligned:
        ctx.seen("fine/aligned")
    ctx.nontrivial = True
    ctx.note(hor, ver, x0, y0)
    ctx.sample = {"true": c, "start": [x0, y0], "fine": g}
