"""Slopes and pitches measured on dot, line and chessboard targets."""
import numpy as np
from .. import gen
from ..target import Target, shade

ID = "C15"
RULE = ("rendered targets, rotation +-20 deg (including 0 and a fraction of "
        "a degree), different pitches in the two directions, any offset and "
        "frame shape, bright or dark lines, 4 dtypes, noise up to 3%, all "
        "switches of the estimators; non-trivial: rotation above 0.3 deg")
ASSUMPTIONS = ["the region of interest holds at least 7 dots or 9 lines per "
               "direction; the pitches differ by less than 25%; dot targets "
               "of unequal pitches are rotated by at most 10 degrees"]
MUST_SEE = {"slope of dot rows": 40, "slope of dot columns": 40,
            "slope of rows": 60, "slope of columns": 60, "row pitch": 60,
            "column pitch": 60, "target/chess": 12, "target/line": 30,
            "bgr/dark": 12, "dots and lines agree": 12,
            "range restricts the search": 4, "fine angle": 12}
CALLS = {"hor": "linep.calc_slope_distance_hor_lines",
         "ver": "linep.calc_slope_distance_ver_lines"}


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    yield from gen.stream(seed, "dot", 48 * k)
    yield from gen.stream(seed, "line", 40 * k)
    yield from gen.stream(seed, "chess", 20 * k)
    yield from gen.stream(seed, "agree", 12 * k)
    yield from gen.stream(seed, "range", 6 * k)
    yield from gen.stream(seed, "sharp", 10 * k)
    yield from gen.stream(seed, "steep", 16 * k)
    yield from gen.stream(seed, "dense", 8 * k)


def angle(rng, p):
    return float(gen.cyc(p, [rng.uniform(-20, 20), rng.uniform(-3, 3), 0.0,
                             rng.uniform(-8, 8), rng.choice([-1, 1])
                             * rng.uniform(0.3, 1.0)]))


def make(rng, p, lo, hi, size, rot=None, aniso=1.25):
    h, w = [int(v) for v in rng.integers(*size, 2)]
    a = float(rng.uniform(lo, hi))
    b = float(a * rng.uniform(1, aniso))
    px, py = (a, b) if p["i"] % 2 else (b, a)
    rot = angle(rng, p) if rot is None else rot
    return Target(h, w, px, py, rot, rng.uniform(0, px), rng.uniform(0, py))


def sharp(ctx, p):
    """Thin clean lines off the axes, at every fraction of a degree: the
    angle is resolved far below a degree."""
    rng = ctx.rng
    h, w = [int(v) for v in rng.integers(300, 420, 2)]
    px, py = rng.uniform(22, 30, 2)
    base = float(rng.choice([-1, 1]) * rng.integers(2, 9))
    errs = {"hor": [], "ver": []}
    for f in np.linspace(-0.42, 0.42, 5) + rng.uniform(-.08, .08, 5):
        t = Target(h, w, px, py, base + f, rng.uniform(0, px),
                   rng.uniform(0, py))
        img = 1 - t.lines(rng.uniform(1.5, 2.0))
        for d, s0 in (("hor", t.slope_hor), ("ver", t.slope_ver)):
            s = ctx.call(CALLS[d], img, ratio=0.85, search_range=12.0)[0]
            errs[d].append(abs(float(s) - s0))
    ctx.note(h, w, px, py, base)
    ctx.nontrivial = True
    for d in errs:
        ctx.at_most(max(errs[d]), 0.0055, "fine angle", worst=d, h=h, w=w,
                    px=px, py=py, base=base)
        ctx.at_most(float(np.mean(errs[d])), 0.0019, "fine angle, mean",
                    worst=d, h=h, w=w, px=px, py=py, base=base)


def dot_grids(ctx, p):
    """Square dot grids at large angles, and dense ones over the whole
    frame."""
    rng = ctx.rng
    if p["kind"] == "steep":
        h, w = [int(v) for v in rng.integers(420, 560, 2)]
        pitch, rot = rng.uniform(22, 34), rng.uniform(10, 25)
        ratio = float(rng.uniform(10, 12.5) * pitch / min(h, w))
    else:
        h, w = [int(v) for v in rng.integers(760, 900, 2)]
        pitch, rot = rng.uniform(15, 18), rng.uniform(0, 9)
        ratio = float(rng.choice([0.95, 1.0]))
    t = Target(h, w, pitch, pitch, float(rot * rng.choice([-1, 1])),
               rng.uniform(0, pitch), rng.uniform(0, pitch))
    b = (t.dots(rng.uniform(0.26, 0.36) * pitch) > 0.5).astype(np.int16)
    det = dict(h=h, w=w, pitch=pitch, rot=t.rot, ratio=ratio)
    ctx.close(ctx.call("prep.calc_hor_slope", b, ratio=ratio), t.slope_hor,
              0.004, "slope of dot rows", **det)
    ctx.close(ctx.call("prep.calc_ver_slope", b, ratio=ratio), t.slope_ver,
              0.004, "slope of dot columns", **det)
    ctx.note(h, w, pitch, rot)
    ctx.seen("dots", p["kind"])
    ctx.nontrivial = abs(t.rot) > 0.3


def run(ctx, p):
    rng, kind = ctx.rng, p["kind"]
    if kind == "sharp":
        return sharp(ctx, p)
    if kind in ("steep", "dense"):
        return dot_grids(ctx, p)
    if kind in ("dot", "agree"):
        # beyond 10 deg a diagonal of the lattice enters the search range
        t = make(rng, p, 17 if kind == "dot" else 24, 40,
                 (340, 560) if kind == "dot" else (430, 620),
                 rot=0.5 * angle(rng, p), aniso=1.1)
    elif kind == "chess":
        t = make(rng, p, 24, 38, (430, 640))
    elif kind == "range":
        t = make(rng, p, 22, 36, (420, 600),
                 rot=float(rng.choice([-1, 1]) * rng.uniform(2, 4)))
    else:
        t = make(rng, p, 22, 40, (420, 640))
    ctx.note(t.h, t.w, t.px, t.py, t.rot, t.xo)
    ctx.nontrivial = abs(t.rot) > 0.3
    det = dict(h=t.h, w=t.w, px=t.px, py=t.py, rot=t.rot)
    if kind in ("dot", "agree"):
        rad = rng.uniform(0.22, 0.34) * min(t.px, t.py)
        b = (t.dots(max(2.5, rad)) > 0.5).astype(gen.cyc(
            p, ["int16", "float32", "uint8"], stride=2))
        ratio = max(0.3, 7.6 * max(t.px, t.py) / min(t.h, t.w))
        kw = {} if ratio == 0.3 else {"ratio": float(ratio)}
        sh = ctx.call("prep.calc_hor_slope", b, **kw)
        sv = ctx.call("prep.calc_ver_slope", b, **kw)
        # centroids of dots quantised to pixels, over >= 4 pitches
        ctx.close(sh, t.slope_hor, 0.005, "slope of dot rows", **det)
        ctx.close(sv, t.slope_ver, 0.005, "slope of dot columns", **det)
        if kind == "dot":
            return
    chess = kind == "chess"
    width = float(rng.uniform(2, 5))
    dark_lines = bool(p["i"] % 3)
    pic = t.chess() if chess else t.lines(width)
    if not chess and dark_lines:
        pic = 1 - pic
    dtype = gen.cyc(p, ["float64", "uint8", "float32", "uint16"])
    img = shade(rng, pic, dtype, float(gen.cyc(p, [0, 0.01, 0.03], 2)),
                float(gen.cyc(p, [0, 0.15], 3)))
    ratio = max(0.3, 9.8 * max(t.px, t.py) / min(t.h, t.w))
    kw = {"ratio": float(min(1.0, ratio))}
    if chess:
        kw["chessboard"] = True
    elif not dark_lines or p["i"] % 2:
        kw["bgr"] = "bright" if dark_lines else "dark"
    ctx.seen("target", "chess" if chess else "line")
    ctx.seen("bgr", "bright" if dark_lines or chess else "dark")
    ctx.seen("dtype", dtype)
    if p["i"] % 7 == 1:
        kw["subpixel"] = False
    if p["i"] % 7 == 2 and not chess:
        kw["norm"] = False
    if p["i"] % 7 == 3 and dtype == "float64" and not chess:
        kw["denoise"] = False
    if p["i"] % 7 == 4:
        kw["radius"] = int(rng.integers(5, 11))
    if p["i"] % 7 == 5:
        kw["search_range"] = float(rng.uniform(abs(t.rot) + 2, 40))
    if kind == "range":
        # a narrower search cannot answer outside its range
        kw["search_range"] = 1.0
        for d, sgn in (("hor", 1), ("ver", -1)):
            s, _ = ctx.call(CALLS[d], img, **kw)
            ctx.at_most(abs(np.rad2deg(np.arctan(s))), 2.1,
                        "range restricts the search", **det)
        return
    det.update(kw, dtype=dtype, width=width)
    tol_s = 0.012
    res = {}
    for d, s0, p0, nm in (("hor", t.slope_hor, t.py, "row"),
                          ("ver", t.slope_ver, t.px, "column")):
        out = ctx.call(CALLS[d], img, **kw)
        ctx.need(len(out) == 2, nm + " pitch")
        ctx.close(out[0], s0, tol_s, "slope of %ss" % nm, **det)
        tol = 0.02 * p0 + (0.6 if kw.get("subpixel") is False else 0.15)
        ctx.close(out[1], p0, tol, nm + " pitch", **det)
        res[d] = float(out[0])
    if kind == "agree":
        ctx.check(abs(res["hor"] - sh) < 0.015 and abs(res["ver"] - sv)
                  < 0.015, "dots and lines agree", dots=[sh, sv], lines=[
                      res["hor"], res["ver"]], **det)
    ctx.sample = {"rot": t.rot, "slopes": res}
