"""Residual tables and the distortion verdict."""
import numpy as np
from .. import gen

ID = "C24"
RULE = ("random sets of 1-12 lines of 3-40 points (or 60-140 lines of 3-80) (bent, noisy, steep up to "
        "+-35 deg, ragged, integer coordinates, any order) x centres; residual"
        " tables of 1-400 or 1000-12000 rows at, just below and just above the 15 % and "
        "1 px limits; non-trivial: residuals not all zero")
ASSUMPTIONS = []
MUST_SEE = {"residual rows": 60, "sorted by radius": 60, "verdict": 100,
            "verdict/at limit": 8}


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    yield from gen.stream(seed, "hor", 110 * k)
    yield from gen.stream(seed, "ver", 110 * k)
    yield from gen.stream(seed, "verdict", 160 * k)
    yield from gen.stream(seed, "both", 30 * k)


def lines(rng, ver, many=False):
    n = int(rng.integers(60, 140) if many else rng.integers(1, 13))
    out = []
    scale = 10 ** rng.uniform(0.5, 3.4)
    ang = np.tan(np.deg2rad(rng.uniform(-35, 35)))
    for i in range(n):
        m = 2 if rng.random() < 0.1 else int(rng.integers(3, 41) * (1 + many))
        t = rng.uniform(0, 1, m) * scale
        if rng.random() < 0.7:
            t = np.sort(t)
        s = ang * t + rng.uniform(-1, 1) * scale \
            + rng.uniform(-1, 1) * 20 * ((t - scale / 2) / scale) ** 2 \
            + rng.normal(size=m) * rng.choice([0, 0.3, 3])
        a = np.stack([s, t], axis=1)
        if ver:
            a = a[:, ::-1]
        a = np.ascontiguousarray(a)
        if rng.random() < 0.15:
            a = np.round(a).astype(int)
            if len(np.unique(a[:, 0 if ver else 1])) < min(3, m):
                a = a + np.stack([np.arange(m)] * 2, 1) * 7
        out.append(a)
    return out, scale


def expected(ls, xc, yc, ver):
    rows = []
    for a in ls:
        y, x = a[:, 0].astype(float), a[:, 1].astype(float)
        t, s = (y, x) if ver else (x, y)
        tm, sm = t.mean(), s.mean()
        slope = np.sum((t - tm) * (s - sm)) / np.sum((t - tm) ** 2)
        d = np.abs(s - sm - slope * (t - tm)) / np.hypot(1, slope)
        r = np.hypot(x - xc, y - yc)
        rows.append(np.stack([r, d], axis=1))
    return np.vstack(rows)


def run(ctx, p):
    rng = ctx.rng
    kind = p["kind"]
    if kind == "verdict":
        n = int(rng.integers(1, 401))
        n = gen.pick(rng, [n, n, 20, 40, 100, 200, 1, 2,
                         int(rng.integers(1000, 12000))])
        lim = 0.15 * n
        k = gen.pick(rng, [int(lim), int(lim) + 1, max(0, int(lim) - 1), 0, n,
                           int(rng.integers(0, n + 1))])
        k = min(max(k, 0), n)
        res = np.concatenate([1.0 + 10 ** rng.uniform(-6, 3, k),
                              1.0 - rng.uniform(0, 1, n - k)])
        ex = int(rng.integers(0, n - k + 1))
        res[k:k + ex] = 1.0          # exactly one pixel does not count
        if rng.random() < 0.3:
            # points that lie exactly on their line count as points
            z = k + ex
            res[z + int(rng.integers(0, n - z + 1)):] = 0.0
        tab = np.stack([np.sort(rng.uniform(0, 2000, n)),
                        res[rng.permutation(n)]], axis=1)
        out = ctx.call("post.check_distortion", tab)
        want = 20 * k > 3 * n        # k/n > 0.15 in integers
        ctx.note(tab)
        ctx.nontrivial = True
        if 20 * k == 3 * n:
            # 0.15 itself: k/n and 0.15 as doubles; 15 % exactly is not more
            ctx.seen("verdict", "at limit")
        ctx.sample = {"n": n, "above": k, "verdict": bool(out)}
        ctx.check(bool(out) == want, "verdict", n=n, above=k, got=str(out),
                  want=want)
        return
    ver = kind == "ver" or (kind == "both" and p["i"] % 2 == 1)
    ls, scale = lines(rng, ver, p["i"] % 22 == 21)
    xc, yc = rng.uniform(-0.3, 1.3, 2) * scale
    func = "post.calc_residual_" + ("ver" if ver else "hor")
    inp = ls
    if rng.random() < 0.3:
        inp = [a.tolist() for a in ls]
    out = np.asarray(ctx.call(func, inp, xc, yc), dtype=float)
    want = expected(ls, xc, yc, ver)
    ctx.note(*ls)
    ctx.nontrivial = bool(want[:, 1].max() > 1e-6)
    ctx.sample = {"lines": len(ls), "points": len(want), "center": [xc, yc],
                  "max_residual": float(want[:, 1].max())}
    ctx.need(out.shape == want.shape, "residual rows", got=list(out.shape),
             want=list(want.shape))
    ctx.check(np.all(np.diff(out[:, 0]) >= 0), "sorted by radius")
    so = np.lexsort((out[:, 1], np.round(out[:, 0], 6)))
    sw = np.lexsort((want[:, 1], np.round(want[:, 0], 6)))
    ctx.close(out[so], want[sw], 1e-6 * scale + 1e-9, "residual rows")
    if kind == "both":
        # transposed points seen by the other function: same table
        other = "post.calc_residual_" + ("hor" if ver else "ver")
        tr = np.asarray(ctx.call(other, [a[:, ::-1] for a in ls], yc, xc))
        ctx.close(tr, out, 1e-6 * scale + 1e-9, "hor/ver duality")
