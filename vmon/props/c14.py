"""Grouping of points into grid lines; removal of residual dots."""
import numpy as np
from .. import gen

ID = "C14"
RULE = ("grids of 4-26 x 4-26 nodes (any pitch, rotation +-25 deg, barrel, "
        "pincushion or parabolic curvature, jitter, missing and spurious "
        "points) in random order, as float/int/list coordinates or as a "
        "binary image, both methods, both directions, accepted_ratio from 0 "
        "to 1; arbitrary point clouds; lines with outliers for the residual "
        "filter; non-trivial: more than one line returned")
ASSUMPTIONS = ["exact grouping is demanded where neighbouring points of a "
               "line satisfy the acceptance rule, and points of different "
               "lines violate it, with a 10% margin"]
MUST_SEE = {"lines are the grid rows": 120, "lines are the grid columns": 120,
            "only input points": 200, "no point twice": 200,
            "ordered": 200, "method/polyfit": 80, "method/chain": 80,
            "consecutive points acceptable": 30, "accepted_ratio exact": 16,
            "order of the input irrelevant": 60, "residual dots": 80,
            "judged by the whole row": 20, "raises:group_dots_hor_lines": 2,
            "raises:remove_residual_dots_hor": 4,
            "raises:remove_residual_dots_ver": 4, "order/3": 6,
            "stagger/long runs": 8, "input/image": 20}
CH = {"hor": "prep.group_dots_hor_lines", "ver": "prep.group_dots_ver_lines"}
PF = {"hor": "prep.group_dots_hor_lines_based_polyfit",
      "ver": "prep.group_dots_ver_lines_based_polyfit"}
RES = {"hor": "prep.remove_residual_dots_hor",
       "ver": "prep.remove_residual_dots_ver"}


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    yield from gen.stream(seed, "chain", 150 * k)
    yield from gen.stream(seed, "polyfit", 150 * k)
    yield from gen.stream(seed, "image", 30 * k)
    yield from gen.stream(seed, "accept", 30 * k)
    yield from gen.stream(seed, "beyond", 32 * k)
    yield from gen.stream(seed, "cloud", 40 * k)
    yield from gen.stream(seed, "stagger", 40 * k)
    yield from gen.stream(seed, "order", 24 * k)
    yield from gen.stream(seed, "residual", 100 * k)
    yield from gen.stream(seed, "bad", 12 * k)


def swap(a):
    return np.asarray(a, float)[:, ::-1]


def make(rng, p, curved):
    """rows = list of (n, 2) arrays of 'horizontal' lines in a frame where
    rows run along x with the given slope."""
    nr, nc = [int(v) for v in rng.integers(4, 26, 2)]
    pitch = float(rng.uniform(8, 80))
    t = np.deg2rad(float(rng.choice([0, rng.uniform(-3, 3),
                                     rng.uniform(-25, 25)])))
    i, j = np.mgrid[:nr, :nc].astype(float)
    u = (j - (nc - 1) / 2 + rng.uniform(-.3, .3)) * pitch
    v = (i - (nr - 1) / 2 + rng.uniform(-.3, .3)) * pitch
    rm = 0.5 * pitch * max(nr, nc)
    how = gen.pick(rng, ["flat", "barrel", "pincushion"]) if curved is None \
        else curved
    if how in ("barrel", "pincushion"):
        s = rng.uniform(0.005, 0.05) * (-1 if how == "barrel" else 1)
        f = 1 + s * (u * u + v * v) / rm ** 2
        u, v = u * f, v * f
    elif how == "parabola":
        # rows bend one way at the top, the other way at the bottom
        s = rng.uniform(0.05, 1.5) * pitch / max(1, nc * pitch / 2) ** 2
        v = v + s * u * u * (v / rm) * rng.choice([-1, 1])
    jit = float(rng.choice([0, 0.004])) * pitch
    u = u + rng.normal(0, 1, u.shape) * jit
    v = v + rng.normal(0, 1, u.shape) * jit
    x = u * np.cos(t) - v * np.sin(t)
    y = u * np.sin(t) + v * np.cos(t)
    off = rng.uniform(0, 3000, 2)
    pts = np.stack([y - y.min() + off[0], x - x.min() + off[1]], 2)
    return pts, pitch, float(np.tan(t)), how


def perp(a, b, slope):
    return np.abs((b[..., 0] - a[..., 0]) - slope * (b[..., 1] - a[..., 1])) \
        / np.sqrt(1 + slope * slope)


def separable(rows, slope, pitch, ratio, miss, extra):
    """The acceptance rule links exactly the points of a row, with margin."""
    for r in rows:
        if np.any(np.diff(r[:, 1]) < 1e-3 * pitch) or \
                np.any(np.diff(r[:, 1]) > 0.9 * miss * pitch) or \
                np.any(perp(r[:-1], r[1:], slope) > 0.9 * ratio * pitch):
            return False
    allp = rows + [e[None] for e in extra]
    lab = np.concatenate([np.full(len(r), k) for k, r in enumerate(allp)])
    q = np.concatenate(allp)
    near = np.abs(q[:, None, 1] - q[None, :, 1]) < miss * pitch * 1.001
    d = perp(q[:, None], q[None], slope)
    return not np.any(near & (d < 1.1 * ratio * pitch)
                      & (lab[:, None] != lab[None]))


def canon(lines):
    return [np.asarray(l, float) for l in lines]


def structure(ctx, lines, pts, d, tol, slope=0.0, **det):
    """Conservation and order, whatever the input."""
    ax = 1 if d == "hor" else 0
    ok = all(l.ndim == 2 and l.shape[1] == 2 and len(l) for l in lines)
    if not ctx.check(ok, "only input points", reason="shape", **det):
        return False
    if not lines:
        return True
    q = np.concatenate(lines)
    src = np.asarray(pts, float)
    dist = np.abs(q[:, None] - src[None]).max(2)
    who = dist.argmin(1)
    ctx.check(dist.min(1).max() <= tol, "only input points",
              worst=float(dist.min(1).max()), **det)
    ctx.check(len(set(who.tolist())) == len(who), "no point twice",
              points=len(who), distinct=len(set(who.tolist())), **det)
    ctx.check(all(np.all(np.diff(l[:, ax]) >= -tol) for l in lines),
              "ordered", what="along the line", **det)
    m = [l[:, 1 - ax].mean() for l in lines]
    ctx.check(np.all(np.diff(m) >= -tol), "ordered", what="across the grid",
              **det)
    return True


def same_lines(ctx, lines, want, d, tol, **det):
    name = "lines are the grid " + ("rows" if d == "hor" else "columns")
    if not ctx.check(len(lines) == len(want), name, got=len(lines),
                     want=len(want), sizes=[len(l) for l in lines], **det):
        return
    ok, first = True, None
    for k, (a, b) in enumerate(zip(lines, want)):
        if a.shape != b.shape or np.abs(a - b).max() > tol:
            ok, first = False, k
            break
    ctx.check(ok, name, line=first, got_points=None if ok else len(
        lines[first]), want_points=None if ok else len(want[first]), **det)


def holes(rng, pts, frac, edge_only=False):
    """rows with some points missing, never two ends of everything."""
    nr, nc = pts.shape[:2]
    keep = rng.random((nr, nc)) >= frac
    rows = []
    for k in range(nr):
        r = pts[k][keep[k]]
        rows.append(r if len(r) >= 4 else pts[k])
    return rows


def spurious(rng, pts, n):
    nr, nc = pts.shape[:2]
    out = []
    for _ in range(n):
        i, j = int(rng.integers(nr - 1)), int(rng.integers(nc - 1))
        out.append((pts[i, j] + pts[i + 1, j] + pts[i, j + 1]
                    + pts[i + 1, j + 1]) / 4)
    return np.array(out).reshape(-1, 2)


def give(rng, p, pts):
    how = gen.cyc(p, ["float64", "list", "float32", "F", "float64"])
    pts = pts[rng.permutation(len(pts))]
    if how == "list":
        return pts.tolist(), 1e-6
    if how == "float32":
        return pts.astype(np.float32), 2e-3
    if how == "F":
        return np.asfortranarray(pts), 1e-6
    return pts, 1e-6


def run(ctx, p):
    rng, kind = ctx.rng, p["kind"]
    d = "hor" if p["i"] % 2 == 0 else "ver"
    if kind == "bad":
        return bad(ctx, p, d)
    if kind == "residual":
        return residual(ctx, p, d)
    if kind == "cloud":
        return cloud(ctx, p, d)
    if kind == "stagger":
        return stagger(ctx, p, d)
    if kind == "order":
        return order(ctx, p, d)
    if kind == "accept":
        return accept(ctx, p, d)
    if kind == "beyond":
        return beyond(ctx, p, d)
    if kind == "image":
        return image(ctx, p, d)
    for attempt in range(400):
        ratio = float(rng.uniform(0.1, 0.35))
        miss = int(rng.integers(2, 8))
        acc = float(rng.choice([0.3, 0.5, 0.65, 0.75]))
        pts, pitch, slope, how = make(rng, p, None if kind == "chain" else
                                      gen.pick(rng, ["flat", "parabola",
                                                     "parabola"]))
        rows = holes(rng, pts, float(rng.choice([0, 0, 0.03, 0.12])))
        extra = spurious(rng, pts, int(rng.choice([0, 0, 1, 3])))
        nmax = max(len(r) for r in rows)
        if len(extra) and nmax < 8:
            continue
        if kind == "chain":
            if separable(rows, slope, pitch, ratio, miss, extra) and \
                    clear_cut(rows, acc):
                break
        elif window_ok(rng, rows, slope, pitch, ratio, miss, acc, extra):
            break
    else:
        ctx.seen("no valid grid found")
        return
    want = [r for r in rows if len(r) >= acc * nmax]
    allp = np.concatenate(rows + [extra])
    if d == "ver":
        allp = swap(allp)
        want = [swap(r) for r in want]
    inp, tol = give(rng, p, allp)
    kw = dict(ratio=ratio, num_dot_miss=miss, accepted_ratio=acc)
    fn = CH[d] if kind == "chain" else PF[d]
    if kind == "polyfit":
        tol = max(tol, 1e-5)
        if p["i"] % 3 == 0:
            kw["overlap_ratio"] = float(rng.uniform(0.2, 1.0))
        if p["i"] % 5 == 0:
            kw["order"] = 2
    det = dict(dir=d, slope=slope, pitch=pitch, how=how, extra=len(extra),
               **kw)
    # row slope dy/dx; seen as columns the same number is dx/dy
    lines = canon(ctx.call(fn, inp, slope, pitch, **kw))
    ctx.seen("method", kind)
    ctx.seen("curvature", how)
    if extra.size:
        ctx.seen("spurious")
    if structure(ctx, lines, inp, d, tol, **det):
        same_lines(ctx, lines, want, d, tol, **det)
    if p["i"] % 2 == 0 or p["i"] % 3 == 0:
        again = np.asarray(inp)[rng.permutation(len(allp))]
        l2 = canon(ctx.call(fn, again, slope, pitch, **kw))
        ctx.check(len(l2) == len(lines) and all(
            a.shape == b.shape and np.abs(a - b).max() <= tol
            for a, b in zip(lines, l2)), "order of the input irrelevant",
            **det)
    ctx.nontrivial = len(lines) > 1
    ctx.note(allp, slope, pitch)
    ctx.sample = {"lines": len(lines), "points": len(allp), "dir": d}


def clear_cut(rows, acc):
    """no row length within rounding of the acceptance bound"""
    n = np.array([len(r) for r in rows])
    return np.all(np.abs(n - acc * n.max()) > 1e-6)


def window_ok(rng, rows, slope, pitch, ratio, miss, acc, extra, order=2):
    """The central window holds enough of every row whatever the rounding of
    its borders, grouping inside it is clear-cut, and the fit of its points
    (with the points then collected) predicts the rest of the row."""
    t = np.arctan(slope)

    def level(q):
        return np.stack([q[:, 0] * np.cos(t) - q[:, 1] * np.sin(t),
                         q[:, 0] * np.sin(t) + q[:, 1] * np.cos(t)], 1)
    rr = [level(r) for r in rows]
    ee = level(extra) if len(extra) else np.zeros((0, 2))
    allx = np.concatenate([r[:, 1] for r in rr] + [ee[:, 1]])
    mid = 0.5 * (allx.min() + allx.max())
    half = (miss + 0.5) * pitch
    win, cmin, cmax = [], [], []
    for r in rr:
        dx = np.abs(r[:, 1] - mid)
        cmin.append(int((dx < half - 0.02 * pitch).sum()))
        cmax.append(int((dx < half + 0.02 * pitch).sum()))
        win.append(r[dx < half + 0.02 * pitch])
    if min(cmin) < 4 or min(cmin) < acc * max(cmax) + 0.01:
        return False
    if min(len(r) for r in rows) < acc * max(len(r) for r in rows) + 0.01:
        return False
    if not separable([w for w in win], 0.0, pitch, ratio, miss, ee):
        return False
    med = np.sort([np.median(r[:, 0]) for r in rr])
    if np.any(np.diff(med) < 0.2 * pitch):
        return False
    # points of a row on either side follow each other within half a window
    for r, w in zip(rr, win):
        if np.any(np.diff(r[:, 1]) > 0.45 * half):
            return False
        core = r[np.abs(r[:, 1] - mid) < half - 0.02 * pitch]
        c = np.polyfit(core[:, 1] - mid, core[:, 0], order)
        res = np.abs(np.polyval(c, r[:, 1] - mid) - r[:, 0])
        if res.max() > 0.5 * ratio * pitch:
            return False
        for q in rr + [ee]:
            if q is r or len(q) == 0:
                continue
            far = np.abs(np.polyval(c, q[:, 1] - mid) - q[:, 0])
            if far.min() < 1.5 * ratio * pitch:
                return False
    return True


def image(ctx, p, d):
    """A binary image instead of coordinates."""
    rng = ctx.rng
    nr, nc = [int(v) for v in rng.integers(4, 11, 2)]
    pitch = int(rng.integers(12, 26))
    rad = float(rng.uniform(2, 0.3 * pitch))
    rot = float(rng.uniform(-8, 8))
    t = np.deg2rad(rot)
    i, j = np.mgrid[:nr, :nc].astype(float)
    x = j * pitch * np.cos(t) - i * pitch * np.sin(t)
    y = j * pitch * np.sin(t) + i * pitch * np.cos(t)
    m = rad + 4
    x, y = x - x.min() + m, y - y.min() + m
    h, w = int(y.max() + m + 1), int(x.max() + m + 1)
    b = gen.render_dots(h, w, np.stack([y.ravel(), x.ravel()], 1), rad) > 0.5
    from scipy import ndimage as ndi
    lab, n = ndi.label(b)
    c = np.array(ndi.center_of_mass(b, lab, np.arange(1, n + 1)))
    dt = gen.cyc(p, ["int16", "float32", "uint8", "bool"], stride=2)
    slope = float(np.tan(t)) * (1 if d == "hor" else -1)
    lines = canon(ctx.call(CH[d], b.astype(dt), slope, float(pitch)))
    ctx.seen("input/image")
    want = nr if d == "hor" else nc
    other = nc if d == "hor" else nr
    det = dict(dir=d, rot=rot, pitch=pitch)
    if structure(ctx, lines, c, d, 1e-4, **det):
        ctx.check(len(lines) == want and all(len(l) == other for l in lines),
                  "lines are the grid " + ("rows" if d == "hor" else
                                           "columns"), got=[
                      len(l) for l in lines], want=[want, other], **det)
    l2 = canon(ctx.call(CH[d], c, slope, float(pitch)))
    ctx.check(len(l2) == len(lines) and all(
        a.shape == b_.shape and np.abs(a - b_).max() < 1e-4
        for a, b_ in zip(l2, lines)), "image and coordinates agree", **det)
    ctx.nontrivial = True
    ctx.note(b, slope)


def accept(ctx, p, d):
    """Lines with exactly accepted_ratio times the longest are kept."""
    rng = ctx.rng
    acc = float(gen.cyc(p, [1.0, 0.5, 0.75, 0.25, 0.0], stride=2))
    nmax = int(rng.choice([8, 12, 16]))
    pitch = float(rng.uniform(10, 50))
    k = max(2, int(acc * nmax))
    lens = [nmax, k, max(2, k - 1), min(nmax, k + 1), nmax]
    lens = [lens[i] for i in rng.permutation(len(lens))]
    rows = [np.stack([np.full(n, 30 + i * pitch), 20 + pitch * np.arange(n)],
                     1) for i, n in enumerate(lens)]
    want = [r for r in rows if len(r) >= acc * nmax]
    pts = np.concatenate(rows)
    if d == "ver":
        pts, want = swap(pts), [swap(r) for r in want]
    inp, tol = give(rng, p, pts)
    lines = canon(ctx.call(CH[d], inp, 0.0, pitch, accepted_ratio=acc))
    ctx.asserts["accepted_ratio exact"] += 1
    if structure(ctx, lines, inp, d, tol):
        same_lines(ctx, lines, want, d, max(tol, 1e-6), acc=acc, lens=lens)
    # same lines, second method, all rows fully inside its central window
    if min(lens) >= 3:
        shift = [np.array(r) for r in rows]
        for r in shift:
            r[:, 1] += 0.5 * (nmax - len(r)) * pitch
        pts = np.concatenate(shift)
        want = [r for r in shift if len(r) >= acc * nmax]
        if d == "ver":
            pts, want = swap(pts), [swap(r) for r in want]
        lines = canon(ctx.call(PF[d], pts[rng.permutation(len(pts))], 0.0,
                               pitch, num_dot_miss=nmax, accepted_ratio=acc))
        if structure(ctx, lines, pts, d, 1e-5):
            same_lines(ctx, lines, want, d, 1e-5, acc=acc, lens=lens,
                       method="polyfit")
    ctx.nontrivial = len(want) > 1
    ctx.note(pts, acc)


def finish(ctx, p, d, fn, rows, slope, pitch, kw, det):
    allp = np.concatenate(rows)
    want = rows
    if d == "ver":
        allp, want = swap(allp), [swap(r) for r in rows]
    inp, tol = give(ctx.rng, p, allp)
    det = dict(dir=d, slope=slope, pitch=pitch, **det, **kw)
    lines = canon(ctx.call(fn, inp, slope, pitch, **kw))
    tol = max(tol, 1e-5)
    # with runs missing, tilted rows may swap places by their mean
    want = sorted(want, key=lambda r: r[:, 0 if d == "hor" else 1].mean())
    if structure(ctx, lines, inp, d, tol, **det):
        same_lines(ctx, lines, want, d, tol, **det)
    ctx.nontrivial = len(lines) > 1
    ctx.note(allp, slope, pitch)
    ctx.sample = {"lines": len(lines), "points": len(allp), "dir": d}


def stagger(ctx, p, d):
    """Rows tilted up to 40 degrees whose dots lie alternately on either side
    of the line, almost as far apart as the ratio allows, and with long runs
    of dots missing, almost as long as num_dot_miss allows."""
    rng = ctx.rng
    for attempt in range(400):
        t = np.deg2rad(float(rng.uniform(-40, 40)))
        slope = float(np.tan(t))
        ratio = float(rng.uniform(0.12, 0.33))
        miss = int(rng.integers(2, 14))
        nr, nc = int(rng.integers(3, 9)), int(rng.integers(12, 40))
        if p["i"] % 10 >= 8:
            nr, nc = int(rng.integers(26, 32)), int(rng.integers(42, 50))
        pitch = float(rng.uniform(8, 80))
        i, j = np.mgrid[:nr, :nc].astype(float)
        u = j * pitch
        f = float(rng.choice([0.0, 0.85]))
        v = i * pitch + (j % 2 - 0.5) * f * ratio * pitch
        keep = np.ones((nr, nc), bool)
        if miss > 2 and p["i"] % 4 != 3:
            for k in range(nr):
                g = int(miss * rng.uniform(0.6, 0.88) / np.cos(t)) - 1
                if 0 < g < nc - 6:
                    a = int(rng.integers(2, nc - g - 2))
                    keep[k, a:a + g] = False
        x = u * np.cos(t) - v * np.sin(t)
        y = u * np.sin(t) + v * np.cos(t)
        pts = np.stack([y, x], 2) + rng.uniform(0, 3000, 2) \
            + [max(0, -y.min()), max(0, -x.min())]
        rows = [pts[k][keep[k]] for k in range(nr)]
        if separable(rows, slope, pitch, ratio, miss, []):
            break
    else:
        ctx.seen("no valid grid found")
        return
    if nr > 20:
        ctx.seen("over 1000 points")
    ctx.seen("stagger", "long runs" if miss > 6 else "short runs")
    finish(ctx, p, d, CH[d], rows, slope, pitch,
           dict(ratio=ratio, num_dot_miss=miss, accepted_ratio=0.3),
           dict(f=f, gap=int(nc - min(map(len, rows)))))


def order(ctx, p, d):
    """Rows that only a polynomial of the given order follows."""
    rng = ctx.rng
    n = (1, 3, 2, 3)[p["i"] // 2 % 4]
    for attempt in range(600):
        t = np.deg2rad(float(rng.choice([0, rng.uniform(-20, 20)])))
        slope = float(np.tan(t))
        ratio = float(rng.uniform(0.08, 0.3))
        miss = int(rng.integers(4, 8))
        nr, nc = int(rng.integers(4, 12)), int(rng.integers(22, 36))
        pitch = float(rng.uniform(8, 60))
        i, j = np.mgrid[:nr, :nc].astype(float)
        u = (j - (nc - 1) / 2) / (nc / 2)
        c = rng.uniform(2.0, 6.0) * rng.choice([-1, 1])
        v = i * pitch
        if p["i"] % 3 == 0:
            # rows closer together on one side than on the other
            ratio = float(rng.uniform(0.08, 0.15))
            gap = np.sort(rng.uniform(0.42, 1.6, nr)) * pitch
            v = np.cumsum(gap[::int(rng.choice([-1, 1]))])[:, None] + 0 * j
        if n > 1:
            v = v + c * ratio * pitch * u ** n
        u = u * pitch * nc / 2
        x = u * np.cos(t) - v * np.sin(t)
        y = u * np.sin(t) + v * np.cos(t)
        pts = np.stack([y, x], 2) + rng.uniform(0, 1500, 2) \
            - [y.min(), x.min()]
        rows = list(pts)
        if window_ok(rng, rows, slope, pitch, ratio, miss, 0.5,
                     np.zeros((0, 2)), n):
            break
    else:
        ctx.seen("no valid grid found")
        return
    ctx.seen("order", n)
    if p["i"] % 3 == 0:
        ctx.seen("uneven rows")
    finish(ctx, p, d, PF[d], rows, slope, pitch,
           dict(ratio=ratio, num_dot_miss=miss, accepted_ratio=0.5, order=n),
           dict(c=c))


def beyond(ctx, p, d):
    """Second method: a row is judged by all its points, found in the central
    window or beyond it, and is returned once even if a hole in the window
    splits it."""
    rng = ctx.rng
    rot = float(rng.uniform(-12, 12))
    slope = float(np.tan(np.deg2rad(rot)))
    pitch = float(rng.uniform(8, 60))
    if (p["i"] // 2) % 2:
        acc = float(rng.choice([0.5, 0.75, 0.8]))
        miss, n = 3, int(rng.choice([24, 30, 33]))
        k = int(np.ceil(acc * n - 1e-9))
        lens = [n, k, k - 1, k + 1, n, max(10, k - 4)]
        lens = [lens[i] for i in rng.permutation(len(lens))]
        cols = [np.arange(m) - 0.5 * (m - 1) for m in lens]
    else:
        acc = float(rng.choice([0.1, 0.2]))
        miss, n = int(rng.integers(6, 9)), int(rng.choice([26, 31, 36]))
        full = np.arange(n) - 0.5 * (n - 1)
        nrow = int(gen.cyc(p, [1, 6, 2, 4, 3], stride=4))
        cols = [np.array(full) for _ in range(nrow)]
        for i in rng.permutation(nrow)[:int(rng.integers(1, nrow + 1))]:
            # hole of about `miss` dots, in the middle of the window
            c = float(rng.uniform(-0.6, 0.6))
            cols[i] = full[np.abs(full - c) > 0.5 * miss + 0.05]
            if np.diff(cols[i]).max() < miss + 1:
                cols[i] = np.array(full)
    nmax = max(len(c) for c in cols)
    rows = []
    t = np.deg2rad(rot)
    for i, c in enumerate(cols):
        x, y = c * pitch, np.full(len(c), i * pitch * 1.1)
        rows.append(np.stack([500 + x * np.sin(t) + y * np.cos(t),
                              500 + x * np.cos(t) - y * np.sin(t)], 1))
    want = [r for r in rows if len(r) >= acc * nmax - 1e-9]
    pts = np.concatenate(rows)
    if d == "ver":
        pts, want = swap(pts), [swap(r) for r in want]
    inp, tol = give(rng, p, pts)
    tol = max(tol, 1e-5)
    lines = canon(ctx.call(PF[d], inp, slope, 1.02 * pitch, ratio=0.2,
                           num_dot_miss=miss, accepted_ratio=acc))
    det = dict(acc=acc, miss=miss, lens=[len(c) for c in cols], slope=slope,
               method="polyfit", pitch=pitch)
    ctx.asserts["judged by the whole row"] += 1
    ctx.seen("rows", len(cols))
    if structure(ctx, lines, inp, d, tol, **dict(det, slope=slope)):
        same_lines(ctx, lines, want, d, tol, **det)
    ctx.nontrivial = len(want) > 1
    ctx.note(pts, acc)


def cloud(ctx, p, d):
    """Arbitrary points: terminates, conserves, orders, links acceptably."""
    rng = ctx.rng
    n = int(rng.choice([2, 3, 7, 40, 150]))
    how = gen.cyc(p, ["uniform", "collinear", "cluster", "same x", "int"],
                  stride=2)
    q = rng.random((n, 2)) * 300
    if how == "collinear":
        q[:, 0] = 0.1 * q[:, 1] + 5
    elif how == "cluster":
        q = q * 0.01 + rng.choice([0, 150], n)[:, None]
    elif how == "same x":
        q[:, 1] = np.round(q[:, 1] / 60) * 60
    elif how == "int":
        q = np.unique(np.round(q), axis=0)
    if d == "ver":
        q = swap(q)
    slope = float(rng.uniform(-.5, .5))
    pitch = float(rng.uniform(2, 40))
    ratio = float(rng.uniform(0.05, 0.6))
    miss = float(rng.uniform(1, 8))
    acc = float(rng.uniform(0, 1))
    kw = dict(ratio=ratio, num_dot_miss=miss, accepted_ratio=acc)
    q = q[rng.permutation(len(q))]
    lib = ctx.lib.prep
    name = CH[d].split(".")[1]
    try:
        lines = getattr(lib, name)(q, slope, pitch, **kw)
        ctx.calls[name] += 1
    except ValueError:
        # no two points of the cloud can be linked: nothing to return
        o = q if d == "hor" else swap(q)
        dx = np.abs(o[:, None, 1] - o[None, :, 1])
        link = (dx < miss * pitch) & (perp(o[:, None], o[None], slope)
                                      < ratio * pitch)
        link[np.eye(len(o), dtype=bool)] = False
        ctx.check(not link.any(), "refused only without any line",
                  n=len(q), pairs=int(link.sum()))
        return
    lines = canon(lines)
    det = dict(dir=d, how=how, n=n)
    if not structure(ctx, lines, q, d, 1e-9, **det):
        return
    for l in lines:
        o = l if d == "hor" else swap(l)
        ctx.check(len(o) >= 2 and np.all(
            np.diff(o[:, 1]) < miss * pitch + 1e-6) and np.all(
            perp(o[:-1], o[1:], slope) < ratio * pitch + 1e-6),
            "consecutive points acceptable", **det)
    if lines:
        n = [len(l) for l in lines]
        ctx.check(min(n) >= acc * max(n) - 1e-9, "accepted lengths", got=n,
                  acc=acc)
    ctx.nontrivial = len(lines) > 1
    ctx.seen("cloud", how)
    ctx.note(q, slope, pitch)


def residual(ctx, p, d):
    rng = ctx.rng
    slope = float(rng.choice([0.0, rng.uniform(-.1, .1), rng.uniform(-.8, .8)]))
    res = float(rng.choice([0.05, 0.2, 0.5, 1.0, 2.5, 4.0, 30.0]))
    lines, want, judged = [], [], []
    for k in range(int(rng.integers(1, 9))):
        n = int(rng.integers(5, 30))
        x = np.sort(rng.uniform(0, 2000, n))
        y = slope * x + rng.uniform(0, 2000) \
            + rng.normal() * 1e-5 * (x - 1000) ** 2
        y = y + rng.normal(0, 0.3 * res, n)
        bad = rng.random(n) < 0.15
        y = y + bad * rng.choice([-1, 1], n) * res * rng.uniform(1, 4, n)
        if rng.random() < 0.1:
            y = y + rng.choice([-1, 1], n) * 20 * res  # hopeless line
        xs = (x - x.mean()) / x.std()
        a = np.stack([xs * xs, xs, np.ones(n)], 1)
        c = np.linalg.lstsq(a, y, rcond=None)[0]
        e = np.abs(a @ c - y) / np.sqrt(1 + slope * slope)
        if np.any(np.abs(e - res) < min(1e-5, 1e-3 * res)):
            continue
        l = np.stack([y, x], 1)
        lines.append(l)
        if (e < res).any():
            want.append(l[e < res])
    if not lines:
        return
    fn = RES[d]
    if d == "ver":
        lines, want = [swap(l) for l in lines], [swap(l) for l in want]
    kw = {} if res == 2.5 and p["i"] % 4 < 2 else {"residual": res}
    if not want:
        ctx.raises(ValueError, fn, lines, slope, **kw)
        return
    out = canon(ctx.call(fn, lines, slope, **kw))
    ok = len(out) == len(want) and all(
        a.shape == b.shape and np.array_equal(a, b)
        for a, b in zip(out, want))
    ctx.check(ok, "residual dots", dir=d, slope=slope, residual=res,
              got=[len(o) for o in out], want=[len(o) for o in want],
              of=[len(o) for o in lines])
    ctx.nontrivial = sum(map(len, want)) < sum(map(len, lines))
    ctx.note(*lines, res)
    ctx.sample = {"lines": len(lines), "dropped": sum(map(len, lines))
                  - sum(map(len, want))}


def bad(ctx, p, d):
    rng = ctx.rng
    n = int(rng.integers(5, 20))
    l = np.stack([rng.uniform(0, 100, n), np.arange(n) * 10.0], 1)
    l[:, 0] += 1000 * (np.arange(n) % 2)
    if d == "ver":
        l = swap(l)
    ctx.raises(ValueError, RES[d], [l, l + 5], 0.0, residual=1e-3)
    empty = np.zeros((0, 2))
    ctx.raises(ValueError, CH[d], empty, 0.0, 10.0)
    ctx.raises(ValueError, PF[d], empty, 0.0, 10.0)
    ctx.nontrivial = True
    ctx.note(l)
