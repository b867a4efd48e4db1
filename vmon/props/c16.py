"""Cross points of line and chessboard targets; chessboard conversion."""
import numpy as np
from .. import gen
from ..target import Target, shade

ID = "C16"
RULE = ("rendered line targets and chessboards, rotation +-12 deg, different "
        "pitches per direction, any offset and frame shape, bright or dark "
        "lines 2-5 px wide, 4 dtypes, noise up to 2%, uneven light, all "
        "switches, probing density 0.2-0.6 pitch; non-trivial: at least 50 "
        "points found")
ASSUMPTIONS = ["points found while a probing profile runs along a line (or "
               "cell edge) of the other direction are judged loosely"]
MUST_SEE = {"on the row lines": 40, "on the column lines": 40,
            "every row line": 40, "every column line": 40,
            "target/line": 30, "target/chess": 12, "bgr/dark": 10,
            "subpixel/False": 4, "inside the frame": 80,
            "lines along the cell edges": 30, "unit mean": 30,
            "intensity scale irrelevant": 15}
CALLS = {"hor": "linep.get_cross_points_hor_lines",
         "ver": "linep.get_cross_points_ver_lines"}
CONV = "linep.convert_chessboard_to_linepattern"


def cases(tier, seed):
    k = 1 if tier == "quick" else 8
    yield from gen.stream(seed, "line", 44 * k)
    yield from gen.stream(seed, "chess", 16 * k)
    yield from gen.stream(seed, "convert", 40 * k)
    yield from gen.stream(seed, "long", 4 * k)


def make(rng, lo=24, hi=46, size=(280, 560)):
    h, w = [int(v) for v in rng.integers(*size, 2)]
    px, py = rng.uniform(lo, hi, 2)
    rot = float(rng.choice([0.0, rng.uniform(-12, 12), rng.uniform(-2, 2),
                            rng.uniform(-12, 12)]))
    return Target(h, w, float(px), float(py), rot, rng.uniform(0, px),
                  rng.uniform(0, py))


def run(ctx, p):
    rng, kind = ctx.rng, p["kind"]
    t = make(rng)
    if kind == "long":
        n, m = int(rng.integers(1050, 1500)), int(rng.integers(330, 380))
        t = Target(*((n, m) if p["i"] % 2 else (m, n)), t.px, t.py,
                   float(rng.uniform(-8, 8)), t.xo, t.yo)
        ctx.seen("long image")
    ctx.note(t.h, t.w, t.px, t.py, t.rot, t.xo)
    if kind == "convert":
        return convert(ctx, p, t)
    chess = kind == "chess"
    width = float(rng.uniform(2, 5))
    dark_lines = bool((p["i"] + p["i"] // 6) % 3)
    pic = t.chess() if chess else t.lines(width)
    if not chess and dark_lines:
        pic = 1 - pic
    dtype = gen.cyc(p, ["float64", "uint8", "float32", "uint16"])
    noise = float(gen.cyc(p, [0, 0.01, 0.02], 2))
    img = shade(rng, pic, dtype, noise, float(gen.cyc(p, [0, 0.15], 3)))
    kw = {}
    if chess:
        kw["chessboard"] = True
    elif not dark_lines or (p["i"] // 6) % 2:
        kw["bgr"] = "bright" if dark_lines else "dark"
    if p["i"] % 6 == 1:
        kw["subpixel"] = False
        ctx.seen("subpixel", False)
    if p["i"] % 6 == 2:
        kw["ratio"] = float(rng.uniform(0.2, 0.6))
        if p["i"] % 12 == 2:
            kw["ratio"] = float(rng.uniform(0.05, 0.06))   # many profiles
    if p["i"] % 6 == 3:
        kw["offset"] = int(rng.integers(1, min(t.h, t.w) // 8))
    if p["i"] % 6 == 4:
        kw["radius"] = int(rng.integers(7, 12))
    ctx.seen("target", kind)
    ctx.seen("bgr", "bright" if dark_lines or chess else "dark")
    det = dict(h=t.h, w=t.w, px=t.px, py=t.py, rot=t.rot, width=width,
               dtype=dtype, noise=noise, **kw)
    n = 0
    for d in ("hor", "ver"):
        n += judge(ctx, t, d, img, kw, det, chess)
    ctx.nontrivial = n >= 50
    ctx.sample = {"points": n, "rot": t.rot}


def judge(ctx, t, d, img, kw, det, chess):
    step, slope = (t.px, t.slope_ver) if d == "hor" else (t.py, t.slope_hor)
    pts = np.asarray(ctx.call(CALLS[d], img, slope, step, **kw))
    nm = "row" if d == "hor" else "column"
    if not ctx.check(pts.ndim == 2 and pts.shape[1] == 2,
                     "on the %s lines" % nm, shape=list(pts.shape), **det):
        return 0
    y, x = pts[:, 0], pts[:, 1]
    ctx.check(y.min() >= -1 and x.min() >= -1 and y.max() <= t.h
              and x.max() <= t.w, "inside the frame",
              y=[y.min(), y.max()], x=[x.min(), x.max()], **det)
    if d == "hor":
        off, other = t.dist_hor(y, x), np.abs(t.dist_ver(y, x))
    else:
        off, other = t.dist_ver(y, x), np.abs(t.dist_hor(y, x))
    clear = other > (6 if chess else 5)
    # profiles start in the range left by the tilt and the offset
    idx = x - y * t.slope_ver if d == "hor" else y - x * t.slope_hor
    size, ext, sl = (t.w, t.h, t.slope_ver) if d == "hor" else (
        t.h, t.w, t.slope_hor)
    lo = kw.get("offset", 0) + max(0.0, -sl * ext)
    hi = size - 1 - kw.get("offset", 0) - max(0.0, sl * ext)
    ctx.check(idx.min() > lo - 2.5 and idx.max() < hi + 2.5,
              "between the offsets", got=[idx.min(), idx.max()],
              want=[lo, hi], **det)
    reach = 3.0 + max(1.0, kw.get("ratio", 0.3) * step)
    ctx.check(idx.min() < lo + reach and idx.max() > hi - reach,
              "between the offsets", got=[idx.min(), idx.max()],
              want=[lo, hi], reason="not reached", **det)
    tol = 0.5 if kw.get("subpixel") is not False else 0.95
    ctx.at_most(np.abs(off[clear]).max() if clear.any() else 0, tol,
                "on the %s lines" % nm, **det)
    ctx.at_most(np.median(np.abs(off)), 0.3 if tol < 0.9 else 0.6,
                "on the %s lines (median)" % nm, **det)
    ctx.at_most(abs(float(np.median(off))), 0.25 if tol < 0.9 else 0.6,
                "on the %s lines (bias)" % nm, **det)
    # every line that crosses the probed region is represented by about one
    # point per probing profile
    u, v = t.uv(y, x)
    idx = np.round((v / t.py) if d == "hor" else (u / t.px)).astype(int)
    spacing = kw.get("ratio", 0.3) * step
    rows, want = expected(t, d, spacing, kw)
    got = np.array([(idx == k).sum() for k in rows])
    ctx.check(np.all(got >= 0.75 * want - 2.5), "every %s line" % nm,
              got=got, want=want, **det)
    ctx.check(np.all(got <= 1.3 * want + 5), "every %s line" % nm,
              reason="too many points", got=got, want=want, **det)
    return len(pts)


def expected(t, d, spacing, kw):
    """(line indices, expected number of points): lines whose part inside the
    probed region is long, counted at the spacing of the profiles."""
    tan = abs(np.tan(t.t))
    margin = kw.get("radius", 11) + 8
    off = kw.get("offset", 0)
    h, w = (t.h, t.w) if d == "hor" else (t.w, t.h)
    # probing profiles start at these positions along the first edge
    lo, hi = off, w - 1 - h * tan - off
    n = int(1.6 * np.hypot(h, w) / min(t.px, t.py)) + 2
    rows, want = [], []
    sgn = np.sign(t.t) if d == "hor" else -np.sign(t.t)
    # profile k: x = start + k*spacing (+ tilt along it); length in y: h
    starts = np.arange(lo, hi, spacing) + (h * tan if sgn > 0 else 0)
    ss = np.linspace(margin, h - 1 - margin, 400)
    cnt = {}
    for s0 in starts:
        a = s0 - sgn * tan * ss
        if d == "hor":
            yy, xx = ss, a
        else:
            yy, xx = a, ss
        u, v = t.uv(yy, xx)
        q = (v / t.py) if d == "hor" else (u / t.px)
        ks = np.arange(np.ceil(q.min()), np.floor(q.max()) + 1)
        for k in ks:
            cnt[int(k)] = cnt.get(int(k), 0) + 1
    for k in sorted(cnt):
        if cnt[k] >= 0.9 * len(starts):
            rows.append(k)
            want.append(cnt[k])
    return rows, np.array(want)


def convert(ctx, p, t):
    rng = ctx.rng
    dtype = gen.cyc(p, ["float64", "uint8", "float32", "uint16"])
    img = shade(rng, t.chess(), dtype, float(gen.cyc(p, [0, 0.01], 3)),
                float(gen.cyc(p, [0, 0.1], 5)))
    kw = {}
    if p["i"] % 2:
        kw["bgr"] = "dark"
    if p["i"] % 3 == 2:
        kw["sigma"] = int(rng.integers(2, 5))
    if p["i"] % 5 == 1:
        kw["smooth"] = False
    out = np.asarray(ctx.call(CONV, img, **kw))
    ctx.need(out.shape == img.shape and np.all(np.isfinite(out)),
             "lines along the cell edges", reason="shape or values")
    ctx.close(np.mean(np.abs(out)), 1.0, 1e-5, "unit mean")
    u, v = t.grid_uv()
    du = np.abs(u - np.round(u / t.px) * t.px)
    dv = np.abs(v - np.round(v / t.py) * t.py)
    inner = np.zeros(img.shape, bool)
    inner[8:-8, 8:-8] = True
    far = 0.34
    centre = inner & (du > far * t.px) & (dv > far * t.py)
    for nm, edge in (("row", inner & (dv < 0.8) & (du > far * t.px)),
                     ("column", inner & (du < 0.8) & (dv > far * t.py))):
        e, c = out[edge], out[centre]
        dark = kw.get("bgr", "bright") == "dark"
        if not dark:
            e, c = -e, -c
        ctx.check(np.percentile(e, 10) > np.percentile(c, 90),
                  "lines along the cell edges", which=nm, edges=[
                      float(np.percentile(e, 10))],
                  cells=[float(np.percentile(c, 90))], 
                  rot=t.rot, px=t.px, py=t.py, dtype=dtype, **kw)
    # ... centred on them to a fraction of a pixel
    sd = u - np.round(u / t.px) * t.px, v - np.round(v / t.py) * t.py
    for nm, s, o, pitch in (("row", sd[1], du, t.px), ("column", sd[0], dv,
                                                       t.py)):
        band = inner & (np.abs(s) < 8) & (o > far * pitch)
        val = out[band] if kw.get("bgr") == "dark" else \
            out.max() - out[band]
        # mean profile across the line, in half-pixel bins
        bins = np.round(s[band] * 2).astype(int) + 16
        cnt = np.bincount(bins, minlength=33)
        prof = np.bincount(bins, val, minlength=33) / np.maximum(cnt, 1)
        use = cnt > 0
        q = (np.arange(33) - 16) / 2.0
        wgt = np.where(use, prof - prof[use].min(), 0)
        ctx.at_most(abs(float((wgt * q).sum() / wgt.sum())), 0.3,
                    "lines centred on the cell edges", which=nm, rot=t.rot,
                    px=t.px, py=t.py, dtype=dtype, **kw)
    if dtype == "float64":
        k = 10.0 ** rng.integers(-3, 4)
        o2 = ctx.call(CONV, img * k, **kw)
        ctx.close(o2, out, 1e-6 * max(1, np.abs(out).max()),
                  "intensity scale irrelevant")
    elif dtype == "float32":
        o2 = ctx.call(CONV, img * np.float32(4), **kw)
        ctx.close(o2, out, 1e-3 * max(1, np.abs(out).max()),
                  "intensity scale irrelevant")
    ctx.nontrivial = True
    ctx.sample = {"bgr": kw.get("bgr", "bright"), "rot": t.rot}
