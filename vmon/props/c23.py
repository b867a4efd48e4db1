"""Parabolic masks, rotation of points, removal of subsets."""
import numpy as np
from scipy import ndimage as ndi
from .. import gen

ID = "C23"
RULE = ("frames of 5-300 px, curvatures 0-3 (zero included), scalar/tuple/list"
        " margins (equal, unequal, zero, exactly filling the frame), rotation "
        "angles incl. 0/90/180; points inside, on the border, outside and "
        "negative; non-trivial: mask neither full nor empty / at least one "
        "point kept and one dropped")
ASSUMPTIONS = ["within 4 px of a rotated boundary either value is accepted"]
MUST_SEE = {"mask = geometry": 100, "rotated mask": 30, "slight rotation": 5, "kept points": 60,
            "raises:make_parabola_mask": 15, "rotated points": 40,
            "subset removed": 40}


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    yield from gen.stream(seed, "mask", 160 * k)
    yield from gen.stream(seed, "rotmask", 60 * k)
    yield from gen.stream(seed, "points", 120 * k)
    yield from gen.stream(seed, "bad", 30 * k)
    yield from gen.stream(seed, "rot", 60 * k)
    yield from gen.stream(seed, "subset", 60 * k)
    yield from gen.stream(seed, "default", 8 * k)


def margin(rng, size):
    m = int(size * 0.33)
    how = gen.pick(rng, ["int", "tuple", "list", "zero", "one", "fill"])
    if how == "int":
        v = int(rng.integers(0, m + 1))
        return v, v, v
    if how == "zero":
        return 0, 0, 0
    if how == "fill":
        a = int(rng.integers(0, size + 1))
        return (a, size - a), a, size - a
    a, b = [int(v) for v in rng.integers(0, m + 1, 2)]
    if how == "one":
        a, b = (a, 0) if rng.random() < 0.5 else (0, b)
    return ((a, b) if how != "list" else [a, b]), a, b


def geometry(h, w, hc, vc, left, right, top, bot):
    """(inside, undecided): undecided = rounding could tip the comparison."""
    y, x = np.mgrid[:h, :w].astype(float)
    cx = vc / w * (x - w / 2) ** 2
    cy = hc / h * (y - h / 2) ** 2
    d = [y - (cx + top), (h - bot - cx) - y, x - (cy + left),
         (w - right - cy) - x]
    inside = np.ones((h, w), bool)
    und = np.zeros((h, w), bool)
    for i, q in enumerate(d):
        inside &= q > 0
        c = vc if i < 2 else hc
        if c != 0:
            und |= np.abs(q) < 1e-7 * max(h, w)
    return inside, und


def run(ctx, p):
    rng = ctx.rng
    kind = p["kind"]
    h, w = [int(v) for v in rng.integers(5, 200, 2)]
    if kind == "points" and p["i"] % 12 == 7:
        h, w = [(14, 36000), (34001, 11)][p["i"] // 12 % 2]
        ctx.seen("frame", "very long")
    if kind == "rot":
        n = int(rng.integers(1, 60))
        pts = rng.normal(size=(n, 2)) * 10 ** rng.uniform(0, 4)
        if rng.random() < 0.3:
            pts = np.round(pts).astype(int)
        deg = float(gen.pick(rng, [0, 90, 180, -90, 45, None, None, None])
                    if True else 0) if False else None
        deg = gen.pick(rng, [0, 90, 180, -90, 360, None, None, None, None])
        deg = rng.uniform(-400, 400) if deg is None else float(deg)
        a = np.deg2rad(deg)
        src = gen.pick(rng, ["array", "list", "F"])
        inp = pts.tolist() if src == "list" else (
            np.asfortranarray(pts) if src == "F" else pts)
        unit = gen.pick(rng, ["default", "deg", "rad"])
        kw = {} if unit == "default" else {"degree_unit": unit == "deg"}
        out = np.asarray(ctx.call("prep.rotate_points", inp,
                                  a if unit == "rad" else deg, **kw))
        c, s = np.cos(a), np.sin(a)
        want = np.stack([pts[:, 1] * s + pts[:, 0] * c,
                         pts[:, 1] * c - pts[:, 0] * s], axis=1)
        sc = np.abs(pts).max() + 1
        ctx.note(pts, deg)
        ctx.nontrivial = abs(np.sin(a)) > 1e-3
        ctx.close(out, want, 1e-9 * sc, "rotated points", unit=unit)
        back = np.asarray(ctx.call("prep.rotate_points", out,
                                   -a if unit == "rad" else -deg, **kw))
        ctx.close(back, pts.astype(float), 1e-8 * sc, "rotation undone")
        return
    if kind == "subset":
        n = int(rng.integers(1, 80))
        pts = np.round(rng.uniform(0, 200, (n, 2)), int(rng.integers(0, 3)))
        if rng.random() < 0.3:
            pts = np.vstack([pts, pts[:n // 2]])
        k = int(rng.integers(0, len(pts) + 1))
        sel = pts[rng.permutation(len(pts))[:k]]
        foreign = rng.uniform(300, 400, (int(rng.integers(0, 5)), 2))
        # one coordinate equal, the other not: must not be removed
        near = pts[:3] + np.array([[0.0, gen.cyc(p, [0.003, 1e-4, 3e-6,
                                                     1e-8])]])
        sel = np.vstack([sel, foreign, near, pts[:2][:, ::-1] + 1000])
        keys = set(map(tuple, sel.tolist()))
        want = np.array([q for q in pts.tolist() if tuple(q) not in keys])
        out = np.asarray(ctx.call("prep.remove_subset_points", sel, pts))
        ctx.note(pts, sel)
        ctx.nontrivial = 0 < len(want) < len(pts)
        if len(want) == 0:
            ctx.check(out.size == 0, "subset removed", left=out)
        else:
            ctx.close(out, want, 1e-12, "subset removed")
        return
    hm, left, right = margin(rng, w)
    vm, top, bot = margin(rng, h)
    hc, vc = [float(gen.pick(rng, [0, 0.3, None, None]) or 0)
              if rng.random() < 0.3 else rng.uniform(0, 1.2)
              for _ in range(2)]
    kw = dict(hor_curviness=hc, ver_curviness=vc, hor_margin=hm,
              ver_margin=vm)
    if kind == "bad":
        ctx.nontrivial = True
        ex = int(rng.integers(1, 40))
        if p["i"] % 2:
            a = int(rng.integers(0, w + ex + 1))
            kw["hor_margin"] = gen.pick(rng, [(a, w + ex - a),
                                              [a, w + ex - a], w // 2 + ex])
        else:
            a = int(rng.integers(0, h + ex + 1))
            kw["ver_margin"] = gen.pick(rng, [(a, h + ex - a),
                                              [a, h + ex - a], h // 2 + ex])
        ctx.note(h, w, str(kw))
        ctx.raises(ValueError, "prep.make_parabola_mask", h, w, **kw)
        ctx.raises(ValueError, "prep.remove_points_using_parabola_mask",
                   np.zeros((3, 2)), h, w, **kw)
        return
    if kind == "default":
        h, w = [int(v) for v in rng.integers(210, 400, 2)]
        kw, (hc, vc) = {}, (0.3, 0.3)
        left = right = top = bot = 100
    inside, und = geometry(h, w, hc, vc, left, right, top, bot)
    ctx.sample = {"frame": [h, w], "kw": {k: str(v) for k, v in kw.items()},
                  "inside": int(inside.sum())}
    if kind in ("mask", "default"):
        out = np.asarray(ctx.call("prep.make_parabola_mask", h, w, **kw))
        ctx.note(out, str(kw))
        ctx.nontrivial = 0 < inside.sum() < h * w
        ctx.need(out.shape == (h, w), "mask shape", got=list(out.shape))
        ctx.check(np.all((out == 0) | (out == 1)), "mask is 0/1")
        bad = ((out == 1) != inside) & ~und
        ctx.check(not bad.any(), "mask = geometry", bad=int(bad.sum()))
        return
    if kind == "rotmask" or (
            kind == "points" and max(h, w) < 999 and rng.random() < 0.3):
        h, w = [int(v) for v in rng.integers(40, 160, 2)]
        ang = gen.pick(rng, [90.0, 180.0, -90.0, None, None, None, None])
        ang = float(rng.uniform(-60, 60)) if ang is None else ang
        if kind == "rotmask" and p["i"] % 5 == 2:
            # slight rotations show in large frames
            h, w = [int(v) for v in rng.integers(900, 1300, 2)]
            ang = float(rng.choice([-1, 1]) * rng.uniform(0.5, 3))
            ctx.seen("slight rotation")
        hm, left, right = margin(rng, w)
        vm, top, bot = margin(rng, h)
        kw = dict(hor_curviness=hc, ver_curviness=vc, hor_margin=hm,
                  ver_margin=vm, rotate=ang)
        inside, und = geometry(h, w, hc, vc, left, right, top, bot)
        # position of every output pixel in the unrotated mask
        t = np.deg2rad(ang)
        y, x = np.mgrid[:h, :w].astype(float)
        cy, cx = (h - 1) / 2, (w - 1) / 2
        yy = np.cos(t) * (y - cy) + np.sin(t) * (x - cx) + cy
        xx = -np.sin(t) * (y - cy) + np.cos(t) * (x - cx) + cx
        pad = 8 + max(h, w)
        big = np.pad(inside, pad)
        core = ndi.binary_erosion(big, iterations=4)
        hull = ndi.binary_dilation(big, iterations=4)
        iy = np.clip(np.round(yy).astype(int) + pad, 0, big.shape[0] - 1)
        ix = np.clip(np.round(xx).astype(int) + pad, 0, big.shape[1] - 1)
        sure1, sure0 = core[iy, ix], ~hull[iy, ix]
        # the frame's own edge: ndi.rotate fills with 0 outside
        fr = np.pad(np.ones((h, w), bool), pad)
        near_edge = ~ndi.binary_erosion(fr, iterations=4)[iy, ix]
        sure1 &= ~near_edge
        if kind == "rotmask":
            out = np.asarray(ctx.call("prep.make_parabola_mask", h, w, **kw))
            ctx.note(out, str(kw))
            ctx.nontrivial = bool(sure1.any() and sure0.any())
            ctx.need(out.shape == (h, w), "mask shape", got=list(out.shape))
            ctx.check(np.all((out == 0) | (out == 1)), "mask is 0/1")
            ctx.check(np.all(out[sure1] == 1) and np.all(out[sure0] == 0),
                      "rotated mask", angle=ang,
                      bad=int((out[sure1] != 1).sum()
                              + (out[sure0] != 0).sum()))
            return
    else:
        sure1, sure0 = inside & ~und, ~inside & ~und
    n = int(rng.integers(1, 300))
    pts = rng.uniform(-0.15, 1.15, (n, 2)) * [h, w]
    # exact corners, edges and integers
    extra = np.array([[0, 0], [h - 1, w - 1], [h, w], [h - 0.01, w - 0.01],
                      [0, w - 1], [h - 1, 0], [h + 5, 3], [3, w + 5],
                      [-3, 5], [5, -3], [h // 2, w // 2]], float)
    pts = np.vstack([pts, extra])
    # (-1, 0): which pixel such a point belongs to is not specified
    pts = pts[~np.any((pts > -1) & (pts < 0), axis=1)]
    pts = pts[rng.permutation(len(pts))]
    out = np.asarray(ctx.call("prep.remove_points_using_parabola_mask",
                              pts.copy(), h, w, **kw))
    ctx.note(pts, str(kw))
    iy, ix = np.floor(pts[:, 0]).astype(int), np.floor(pts[:, 1]).astype(int)
    infr = (iy >= 0) & (iy < h) & (ix >= 0) & (ix < w)
    must = np.zeros(len(pts), bool)
    may = np.zeros(len(pts), bool)
    must[infr] = sure1[iy[infr], ix[infr]]
    may[infr] = ~sure0[iy[infr], ix[infr]]
    ctx.nontrivial = bool(must.any() and (~may).any())
    # output must be a subsequence: all `must`, only `may`, in order
    j, ok = 0, out.ndim == 2 or out.size == 0
    rows = out.tolist() if out.size else []
    for i, q in enumerate(pts.tolist()):
        if j < len(rows) and rows[j] == q and may[i]:
            j += 1
        elif must[i]:
            ok = False
            break
    ctx.check(ok and j == len(rows), "kept points", kept=len(rows),
              must=int(must.sum()), may=int(may.sum()))
