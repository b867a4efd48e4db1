"""Dot patterns: binarisation, centroids, size/distance, number of dots."""
import numpy as np
from scipy import ndimage as ndi
from .. import gen

ID = "C12"
RULE = ("rendered dot targets (pitch 14-46 px, radius 3 px to 0.34 pitch, "
        "any offset, rotation +-12 deg, bright or dark dots, 6 dtypes, "
        "uneven illumination up to 25%, noise up to 4%, hot pixels, holes, dots "
        "cut by the frame), threshold automatic or given; random and "
        "rendered binary images for sizes, distances and counts; "
        "non-trivial: at least 9 dots inside the frame")
ASSUMPTIONS = ["dots are at least 3 px in radius and 3 px apart, no dot "
               "barely touches the frame, intensities are non-negative when "
               "denoising"]
MUST_SEE = {"one component per dot": 120, "0/1 image": 120,
            "centre of every dot": 60, "median size": 60,
            "median distance": 60, "enough dots": 60,
            "polarity/dark": 30, "cut dots": 40, "hole": 8, "salt": 8,
            "dots/fat": 8,
            "dots/tight": 8, "dots/hollow": 6, "dots/near the frame": 8,
            "count 24": 3, "count 25": 3, "given threshold": 10,
            "raises:get_points_dot_pattern": 10}
BIN = "prep.binarization"
PTS = "prep.get_points_dot_pattern"
SIZ = "prep.calc_size_distance"
NUM = "prep.check_num_dots"


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    yield from gen.stream(seed, "bin", 200 * k)
    yield from gen.stream(seed, "levels", 24 * k)
    yield from gen.stream(seed, "points", 60 * k)
    yield from gen.stream(seed, "size", 110 * k)
    yield from gen.stream(seed, "count", 80 * k)
    yield from gen.stream(seed, "bad", 16 * k)
    yield from gen.stream(seed, "many", 4 * k)
    yield from gen.stream(seed, "fat", 20 * k)
    yield from gen.stream(seed, "tight", 16 * k)
    yield from gen.stream(seed, "hollow", 12 * k)
    yield from gen.stream(seed, "edge", 16 * k)
    yield from gen.stream(seed, "swarm", 1 * k)


def target(rng, rot=None, hmin=150, hmax=420, pitch=None, fill=None,
           near=2.5):
    """(centres inside, centres cut, h, w, pitch, radius)."""
    while True:
        h, w = [int(v) for v in rng.integers(hmin, hmax, 2)]
        pitch = float(rng.uniform(14, 46)) if pitch is None else pitch
        rad = float(rng.uniform(3.0, max(3.2, 0.34 * pitch)))
        rad = rad if fill is None else fill * pitch
        rot = float(rng.uniform(-12, 12)) if rot is None else rot
        if pitch - 2 * rad < 4:
            continue
        nodes = gen.grid(h, w, pitch, rot_deg=rot,
                         xo=rng.uniform(-.5, .5) * pitch,
                         yo=rng.uniform(-.5, .5) * pitch, margin=-2 * rad)
        inside, cut = [], []
        for y, x in nodes.values():
            m = min(y, x, h - 1 - y, w - 1 - x)
            if m >= rad + near:
                inside.append((y, x))
            elif -0.5 * rad <= m <= rad - 2:
                cut.append((y, x))
        if len(inside) >= 9:
            return (np.array(inside), np.array(cut).reshape(-1, 2), h, w,
                    pitch, rad)


def roi_ratio(h, w, pitch):
    return float(min(1.0, max(0.3, 2.6 * pitch / min(h, w))))


def paint(rng, img, dark, dtype, noise, uneven, lo=None, hi=None):
    """bright-on-dark [0,1] -> the asked polarity, illumination, dtype."""
    h, w = img.shape
    y, x = np.mgrid[:h, :w]
    base = 1 - img if dark else img
    lo = rng.uniform(0.05, 0.2) if lo is None else lo
    hi = rng.uniform(0.75, 1.0) if hi is None else hi
    out = lo + (hi - lo) * base
    if uneven:
        g = rng.uniform(-1, 1, 2)
        out = out * (1 + uneven * (g[0] * (x / w - .5) + g[1] * (y / h - .5)))
    out = out + rng.normal(0, 1, out.shape) * noise if noise else out
    out = np.clip(out, 0, None)
    dt = np.dtype(dtype)
    if dt.kind in "ui":
        top = np.iinfo(dt).max if dt.itemsize < 4 else 100000
        return np.clip(np.round(out / 1.3 * top), 0, top).astype(dt)
    return (out * 10.0 ** rng.integers(-1, 4)).astype(dt)


def nearest(a, b):
    d = np.hypot(a[:, None, 0] - b[None, :, 0], a[:, None, 1] - b[None, :, 1])
    return d.argmin(1), d.min(1)


def match(ctx, got, want, bias, name, **detail):
    """one-to-one match of the points; mean offset below bias (the 2x2 median
    of the denoising moves everything by half a pixel), single dots within
    0.8 px of the mean."""
    if not ctx.check(len(got) == len(want), "one component per dot",
                     got=len(got), want=len(want), **detail):
        return False
    idx, _ = nearest(want, got)
    if not ctx.check(len(set(idx.tolist())) == len(want),
                     "one component per dot", reason="not one to one",
                     **detail):
        return False
    off = got[idx] - want
    ctx.at_most(float(np.abs(off.mean(0)).max()),
                bias + 0.5 / np.sqrt(len(want)), name, **detail)
    ctx.at_most(float(np.abs(off - off.mean(0)).max()), 0.8,
                name + " (spread)", **detail)
    return True


def com(binary):
    lab, n = ndi.label(binary)
    return np.array(ndi.center_of_mass(binary, lab, np.arange(1, n + 1))
                    ).reshape(-1, 2), lab, n


def is01(ctx, b, shape):
    b = np.asarray(b)
    ctx.need(b.shape == shape, "0/1 image", got=list(b.shape))
    ctx.need(b.dtype.kind in "iub" and set(np.unique(b).tolist()) <= {0, 1},
             "0/1 image", dtype=str(b.dtype), values=np.unique(b)[:5])
    return b.astype(int)


def run(ctx, p):
    rng, kind = ctx.rng, p["kind"]
    if kind == "count":
        return count(ctx, p)
    if kind == "bad":
        return bad(ctx, p)
    if kind == "size":
        return size(ctx, p)
    if kind == "swarm":
        return swarm(ctx, p)
    if kind == "many":
        inside, cut, h, w, pitch, rad = target(rng, hmin=470, hmax=640,
                                               pitch=12.0)
        ctx.seen("more than 1024 dots" if len(inside) > 1024 else "many dots")
    elif kind == "fat":
        # dots that cover 42-45 % of the area
        inside, cut, h, w, pitch, rad = target(
            rng, pitch=float(rng.uniform(28, 46)), hmin=240,
            fill=float(rng.uniform(0.37, 0.378)))
        if p["i"] % 4 >= 2:
            # more than half of the target, less than half of the image
            inside, cut, h, w, pitch, rad = target(
                rng, pitch=float(rng.uniform(34, 42)), hmin=300,
                fill=float(rng.uniform(0.42, 0.435)))
            far = np.abs(inside / [(h - 1) / 2, (w - 1) / 2] - 1).max(1)
            inside, cut = inside[far < 0.72], cut[:0]
            ctx.seen("dots", "wide margin")
    elif kind == "tight":
        # a little over four pixels between dots
        pitch = float(rng.uniform(13.5, 14.5))
        inside, cut, h, w, pitch, rad = target(
            rng, pitch=pitch, fill=(pitch - 4.5) / 2 / pitch)
    elif kind == "hollow":
        inside, cut, h, w, pitch, rad = target(
            rng, pitch=float(rng.uniform(32, 46)), hmin=240,
            fill=float(rng.uniform(0.27, 0.33)))
    else:
        inside, cut, h, w, pitch, rad = target(rng)
    if kind == "edge":
        # some dots two to three pixels off the frame
        return edge(ctx, p)
    dark = bool(p["i"] % 2)
    dtype = gen.cyc(p, ["float32", "uint8", "uint16", "float64", "int32",
                        "int16"], stride=2)
    noise = float(gen.cyc(p, [0.0, 0.01, 0.04], stride=3))
    noise = noise / 4 if kind in ("fat", "tight", "hollow") else noise
    uneven = float(gen.cyc(p, [0, 0.1, 0.25], stride=5))
    ratio = roi_ratio(h, w, pitch)
    ctx.nontrivial = len(inside) >= 9
    ctx.note(inside, h, w, rad, noise, dark)
    ctx.seen("polarity", "dark" if dark else "bright")
    ctx.seen("dtype", dtype)
    img = gen.render_dots(h, w, np.concatenate([inside, cut]), rad)
    if len(cut):
        ctx.asserts["cut dots"] += 1
    det = dict(h=h, w=w, pitch=pitch, rad=rad, dark=dark, dtype=dtype,
               noise=noise, uneven=uneven)
    if kind == "levels":
        # two populations of dots: the given threshold decides
        keep = rng.random(len(inside)) < 0.6
        keep[:2] = [True, False]
        t = float(gen.cyc(p, [0.2, 0.7, 0.0]))
        if np.pi * (rad + 1.2) ** 2 > 0.42 * pitch ** 2:
            t = t or 0.2    # dots grown to half of the area count as ground
        ctx.seen("threshold", t)
        img = np.maximum(gen.render_dots(h, w, inside[keep], rad),
                         (0.4 if t else 0.04) * gen.render_dots(h, w, inside[~keep], rad))
        if t == 0:
            img[img < 0.02] = 0.0       # nothing between the dots
        scale = 10.0 ** rng.integers(-2, 4)
        b = is01(ctx, ctx.call(BIN, (img * scale).astype(dtype if dtype in (
            "float32", "float64") else "float64"), thres=t * scale,
            denoise=bool(p["i"] % 4 < 2)), (h, w))
        pts, _, _ = com(b)
        ctx.asserts["given threshold"] += 1
        match(ctx, pts, inside if t < 0.5 else inside[keep], 0.65,
              "centre of every dot", thres=t, **det)
        return
    if kind == "hollow":
        # rings: filled, and found at their centres
        img = img * (1 - gen.render_dots(h, w, inside, rad - 4.0))
    if kind in ("fat", "tight", "hollow"):
        ctx.seen("dots", kind)
    if kind in ("bin", "fat", "tight", "hollow"):
        if kind == "bin" and p["i"] % 9 == 3 and rad > 4.5:
            # bright-centred hole inside some dots
            hole = gen.render_dots(h, w, inside[::3], min(1.6, rad - 3.4), .3)
            img = img * (1 - hole)
            ctx.seen("hole")
        denoise = bool(p["i"] % 3)
        if kind == "bin" and p["i"] % 9 in (5, 8):
            # hot pixels away from the dots
            free = ndi.distance_transform_edt(img < 0.02) > 4
            ys, xs = np.nonzero(free)
            if len(ys):
                k = rng.choice(len(ys), min(len(ys), 12), replace=False)
                img[ys[k], xs[k]] = 1.0
                ctx.seen("salt")
        mat = paint(rng, img, dark, dtype, noise if denoise else noise / 3,
                    uneven)
        kw = {}
        if ratio != 0.3 or p["i"] % 2:
            kw["ratio"] = ratio
        if not denoise:
            kw["denoise"] = False
        b = is01(ctx, ctx.call(BIN, gen.layout(
            rng, mat, gen.cyc(p, gen.LAYOUTS, 4)), **kw), (h, w))
        pts, lab, n = com(b)
        ok = match(ctx, pts, inside, 0.65 if denoise else 0.2,
                   "centre of every dot", denoise=denoise, **det)
        if ok:
            # whole dots, not fragments of them
            area = ndi.sum(b, lab, np.arange(1, n + 1))
            lo = np.pi * max(rad - 1.1, 1) ** 2
            hi = np.pi * (rad + 1.1) ** 2
            ctx.check(area.min() >= lo and area.max() <= hi,
                      "whole dots", got=[float(area.min()),
                                         float(area.max())], want=[lo, hi],
                      denoise=denoise, **det)
            yy, xx = np.round(inside).astype(int).T
            ctx.check(b[yy, xx].all(), "whole dots", reason="hole", **det)
        ctx.sample = {"dots": len(inside), "cut": len(cut), "pitch": pitch}
        return
    # points straight from the image / from a binary image
    mat = paint(rng, img, dark, dtype, noise, uneven)
    got = np.asarray(ctx.call(PTS, mat, ratio=ratio))
    if not ctx.check(got.ndim == 2 and got.shape[1] == 2,
                     "one component per dot", shape=list(got.shape)):
        return
    match(ctx, got, inside, 0.65, "centre of every dot", **det)
    bw = (gen.render_dots(h, w, inside, rad) > 0.5)
    for dt in ("int16", "float32", "uint8"):
        g = np.asarray(ctx.call(PTS, bw.astype(dt), binarize=False))
        ref, _, _ = com(bw.astype(int))
        if ctx.check(g.shape == ref.shape, "one component per dot",
                     got=list(g.shape), want=list(ref.shape)):
            ctx.close(g[np.lexsort(g.T)], ref[np.lexsort(ref.T)], 1e-4,
                      "centre of mass")


def edge(ctx, p):
    """A dot that does not touch the border is a dot, however close."""
    rng = ctx.rng
    pitch, rad = float(rng.uniform(18, 36)), float(rng.uniform(3.5, 6))
    ny, nx = [int(v) for v in rng.integers(4, 9, 2)]
    gap = [float(v) for v in rng.uniform(2.2, 2.9, 4)]
    h = int(np.ceil(gap[0] + gap[1] + 2 * rad + (ny - 1) * pitch))
    w = int(np.ceil(gap[2] + gap[3] + 2 * rad + (nx - 1) * pitch))
    want = np.array([(gap[0] + rad + i * pitch, gap[2] + rad + j * pitch)
                     for i in range(ny) for j in range(nx)])
    dark, denoise = bool(p["i"] % 2), bool(p["i"] // 2 % 2)
    mat = paint(rng, gen.render_dots(h, w, want, rad, 0.3), dark,
                gen.cyc(p, ["float32", "uint8"], 4), 0.0, 0.0)
    kw = {} if denoise else {"denoise": False}
    b = is01(ctx, ctx.call(BIN, mat, ratio=1.0, **kw), (h, w))
    match(ctx, com(b)[0], want, 0.65 if denoise else 0.2,
          "centre of every dot", near="the frame", dark=dark,
          denoise=denoise, gap=gap)
    ctx.seen("dots", "near the frame")
    ctx.nontrivial = True
    ctx.note(want, h, w, rad)


def swarm(ctx, p):
    """Tens of thousands of dots."""
    n = int(ctx.rng.integers(182, 190))
    b = np.zeros((3 * n, 3 * n + 2), np.int16)
    b[1::3, 1:-2:3] = 1
    ctx.check(not ctx.call(NUM, b), "enough dots", dots=n * n)
    got = np.asarray(ctx.call(PTS, b, binarize=False))
    want = np.argwhere(b)
    ctx.need(got.shape == want.shape, "one component per dot",
             got=list(got.shape), want=list(want.shape))
    ctx.close(got[np.lexsort(got.T[::-1])], want, 1e-6, "centre of mass")
    ctx.nontrivial = True
    ctx.note(n)


def roi(b, ratio):
    h, w = b.shape
    r = min(max(ratio, 0.05), 1.0)
    a, c = int((h - r * h) / 2), int((w - r * w) / 2)
    return b[a:h - a, c:w - c]


def whole(b):
    """drop the (8-connected) components that touch the border."""
    lab, n = ndi.label(b, np.ones((3, 3)))
    edge = np.unique(np.concatenate([lab[0], lab[-1], lab[:, 0], lab[:, -1]]))
    return b * ~np.isin(lab, edge[edge > 0])


def size(ctx, p):
    rng = ctx.rng
    inside, cut, h, w, pitch, rad = target(rng)
    # vary the sizes so that the median is not the mean
    radii = rad * rng.uniform(0.75, 1.0, len(inside))
    big = rng.random(len(inside)) < 0.2
    radii[big] = np.maximum(3.0, 0.6 * rad)
    pts = inside + rng.normal(0, 0.02 * pitch, inside.shape)
    b = (gen.render_dots(h, w, pts, radii) > 0.5).astype(
        gen.cyc(p, ["int16", "float32", "uint8", "int64", "bool"]))
    ratio = roi_ratio(h, w, pitch) if p["i"] % 3 else 1.0
    r = whole(roi(b.astype(int), ratio))
    c, lab, n = com(r)
    if n < 3:
        ratio = 1.0
        r = whole(b.astype(int))
        c, lab, n = com(r)
    area = ndi.sum(r, lab, np.arange(1, n + 1))
    d = np.hypot(c[:, None, 0] - c[None, :, 0], c[:, None, 1] - c[None, :, 1])
    d[np.eye(n, dtype=bool)] = np.inf
    kw = {} if ratio == 0.3 and p["i"] % 2 else {"ratio": ratio}
    out = ctx.call(SIZ, b, **kw)
    ctx.need(len(out) == 2, "median size")
    # rounding of the region of interest may include or exclude a dot
    lo, hi, dlo, dhi = medians(b.astype(int), ratio, c, area, d.min(1))
    ctx.check(lo - 1e-6 <= out[0] <= hi + 1e-6, "median size",
              got=out[0], want=[lo, hi])
    ctx.check(dlo - 1e-6 <= out[1] <= dhi + 1e-6, "median distance",
              got=out[1], want=[dlo, dhi])
    ctx.check(abs(out[1] / pitch - 1) < 0.15, "distance is the pitch",
              got=out[1], want=pitch)
    ctx.nontrivial = n >= 9
    ctx.note(b, ratio)
    ctx.seen("ratio", "full" if ratio == 1 else "roi")
    ctx.sample = {"dots": n, "size": out[0], "dist": out[1]}


def medians(b, ratio, c, area, dmin):
    """ranges of the medians over regions whose sides differ by a pixel."""
    s, d = [float(np.median(area))], [float(np.median(dmin))]
    h, w = b.shape
    a0, c0 = int((h - ratio * h) / 2), int((w - ratio * w) / 2)
    for da in (0, 1):
        for dc in (0, 1):
            r = b[a0 + da:h - a0 - da, c0 + dc:w - c0 - dc]
            cc, lab, n = com(whole(r))
            if n < 2:
                continue
            s.append(float(np.median(ndi.sum(r, lab, np.arange(1, n + 1)))))
            dd = np.hypot(cc[:, None, 0] - cc[None, :, 0],
                          cc[:, None, 1] - cc[None, :, 1])
            dd[np.eye(n, dtype=bool)] = np.inf
            d.append(float(np.median(dd.min(1))))
    return min(s), max(s), min(d), max(d)


def count(ctx, p):
    rng = ctx.rng
    n = int(gen.cyc(p, [24, 25, 0, 1, 26, 100, 23, 400, 257, 1200]))
    side = int(np.ceil(np.sqrt(max(n, 1)))) + 1
    b = np.zeros((side * 6 + 3, side * 6 + 5), dtype=gen.cyc(
        p, ["int16", "uint8", "float32", "bool"], stride=3))
    cells = rng.permutation(side * side)[:n]
    for c in cells:
        y, x = 2 + 6 * (c // side), 2 + 6 * (c % side)
        s = int(rng.integers(1, 5))
        b[y:y + s, x:x + s] = 1
    out = ctx.call(NUM, b)
    ctx.check(isinstance(out, (bool, np.bool_)) and bool(out) == (n < 25),
              "enough dots", dots=n, got=out)
    ctx.seen("count %d" % n)
    ctx.nontrivial = n > 0
    ctx.note(b)


def bad(ctx, p):
    """Not a binary image: refused, never silently processed."""
    rng = ctx.rng
    b = (rng.random((40, 50)) < 0.2).astype(np.float64)
    how = gen.cyc(p, ["255", "half", "neg", "ones", "zeros"])
    m = {"255": b * 255, "half": b * 0.5, "neg": b * 2 - 1,
         "ones": np.ones_like(b), "zeros": np.zeros_like(b)}[how]
    ctx.raises(ValueError, PTS, m, binarize=False)
    ctx.seen("bad", how)
    ctx.nontrivial = True
    ctx.note(m)
