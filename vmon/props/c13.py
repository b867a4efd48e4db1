"""Dot filters by size, axes ratio and distance."""
import numpy as np
from scipy import ndimage as ndi
from .. import gen

ID = "C13"
RULE = ("binary images of lattices with discs, ellipses, rectangles, "
        "one-pixel specks, bars, rings, L-shapes, diagonal hairs whose "
        "bounding boxes enclose other dots, merged and displaced dots; "
        "thresholds random, tight or exactly on an area; "
        "non-trivial: some dots kept and some dropped")
ASSUMPTIONS = ["dots whose criterion lies within 1e-6 of the threshold are "
               "not judged, except sizes (integers), where the range is "
               "closed"]
MUST_SEE = {"made of whole dots": 250, "exact selection/size": 80,
            "exact selection/ratio": 80, "exact selection/distance": 80,
            "boxes overlap": 30, "size on the bound": 20,
            "clean lattice unchanged": 30}
SEL = {"size": "prep.select_dots_based_size",
       "ratio": "prep.select_dots_based_ratio",
       "distance": "prep.select_dots_based_distance"}
FOUR = [[0, 1, 0], [1, 1, 1], [0, 1, 0]]


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    yield from gen.stream(seed, "size", 110 * k)
    yield from gen.stream(seed, "ratio", 110 * k)
    yield from gen.stream(seed, "distance", 110 * k)
    yield from gen.stream(seed, "clean", 36 * k)
    yield from gen.stream(seed, "swarm", 1)


def ellipse(y, x, a, b, t, yy, xx):
    u = (xx - x) * np.cos(t) + (yy - y) * np.sin(t)
    v = -(xx - x) * np.sin(t) + (yy - y) * np.cos(t)
    return (u / a) ** 2 + (v / b) ** 2 <= 1


def scene(rng, p):
    h, w = [int(v) for v in rng.integers(80, 190, 2)]
    pitch = float(rng.uniform(11, 26))
    rad = float(rng.uniform(1.6, 0.36 * pitch))
    yy, xx = np.mgrid[:h, :w]
    b = np.zeros((h, w), bool)
    rot = float(rng.uniform(-15, 15))
    for y, x in gen.grid(h, w, pitch, rot_deg=rot,
                         xo=rng.uniform(0, pitch),
                         yo=rng.uniform(0, pitch)).values():
        u = rng.random()
        if u < 0.06:
            continue
        if u < 0.14:
            y, x = y + rng.uniform(-.5, .5) * pitch, \
                x + rng.uniform(-.5, .5) * pitch
        if u > 0.86:
            k = int(rng.integers(7))
            r = rad * rng.uniform(0.5, 1.6)
            if k == 0:
                b |= ellipse(y, x, r * 1.4, r * 0.7, rng.uniform(0, 3.2),
                             yy, xx)
            elif k == 1:
                iy, ix = int(y), int(x)
                b[iy:iy + 1 + int(r), ix:ix + 1 + int(2 * r)] = True
            elif k == 2:
                b[int(y), int(x)] = True
            elif k == 3:
                iy, ix, n = int(y), int(x), int(2 + rng.integers(1, 12))
                if rng.random() < 0.5:
                    b[iy, ix:ix + n] = True
                else:
                    b[iy:iy + n, ix] = True
            elif k == 4:
                d = np.hypot(yy - y, xx - x)
                b |= (d <= r) & (d >= 0.5 * r)
            elif k == 5:
                iy, ix, n = int(y), int(x), int(pitch * 0.8)
                b[iy:iy + n, ix] = True
                b[iy + n - 1 if iy + n - 1 < h else h - 1, ix:ix + n] = True
            else:
                b |= np.hypot(yy - y, xx - x) <= r
        else:
            b |= np.hypot(yy - y, xx - x) <= rad * rng.uniform(0.9, 1.1)
    if p["i"] % 3 == 0:
        # a hair across the target: its box encloses many dots
        n = int(min(h, w) * rng.uniform(0.3, 0.8))
        y0, x0 = int(rng.integers(h - n)), int(rng.integers(w - n))
        t = np.arange(n)
        hair = np.zeros_like(b)
        hair[y0 + t, x0 + t] = True
        hair[y0 + t[:-1], x0 + t[:-1] + 1] = True
        if rng.random() < 0.5:
            b = b & ~ndi.binary_dilation(hair, iterations=2)
        b = b | hair
    return b, pitch, rad


def props(b):
    lab, n = ndi.label(b, FOUR)
    out = []
    for i, sl in enumerate(ndi.find_objects(lab)):
        y, x = np.nonzero(lab[sl] == i + 1)
        d = dict(area=len(y), cy=y.mean() + sl[0].start,
                 cx=x.mean() + sl[1].start,
                 box=(sl[0].start, sl[0].stop, sl[1].start, sl[1].stop))
        dy, dx = y - y.mean(), x - x.mean()
        m = np.array([[np.mean(dy * dy), np.mean(dx * dy)],
                      [np.mean(dx * dy), np.mean(dx * dx)]])
        ev = np.linalg.eigvalsh(m)
        d["axes"] = float(np.sqrt(ev[1] / max(ev[0], 1e-9)))
        d["thin"] = (sl[0].stop - sl[0].start < 2
                     or sl[1].stop - sl[1].start < 2)
        out.append(d)
    return lab, out


def swarm(ctx, p):
    """More dots than 16 bits can number."""
    n = int(ctx.rng.integers(258, 264))
    b = np.zeros((4 * n + 3, 4 * n + 3), np.int16)
    b[2:-2:4, 2:-2:4] = 1
    want = b.copy()
    two = np.argwhere(b)[ctx.rng.random(int(b.sum())) < 0.3]
    b[two[:, 0], two[:, 1] + 1] = 1             # dots of two pixels
    want[two[:, 0], two[:, 1]] = 0
    out = np.asarray(ctx.call("prep.select_dots_based_size", b, 1, ratio=0.3))
    ctx.need(out.shape == b.shape, "exact selection/size")
    ctx.check(np.array_equal(out != 0, want != 0), "exact selection/size",
              wrong=int(((out != 0) != (want != 0)).sum()), dots=n * n)
    ctx.seen("more than 65535 dots")
    ctx.nontrivial = True
    ctx.note(b)


def run(ctx, p):
    rng, kind = ctx.rng, p["kind"]
    if kind == "clean":
        return clean(ctx, p)
    if kind == "swarm":
        return swarm(ctx, p)
    b, pitch, rad = scene(rng, p)
    lab, dots = props(b)
    n = len(dots)
    area = np.array([d["area"] for d in dots])
    edge = np.zeros(n, bool)
    if kind == "size":
        s = float(np.median(area))
        r = float(rng.choice([0.05, 0.15, 0.3, 0.5, 0.9, 1.2]))
        if p["i"] % 3 == 1:
            # put an existing area exactly on one bound
            a = int(rng.choice(area))
            r = float(rng.choice([0.25, 0.5, 0.125]))
            s = a / (1 + r) if rng.random() < 0.5 else a / (1 - r)
            ctx.seen("size on the bound")
            lo, hi = s - r * s, s + r * s
            # only bounds that float arithmetic reproduces are judged
            edge = ((np.abs(area - lo) < 1e-6) & (lo != area)) | \
                ((np.abs(area - hi) < 1e-6) & (hi != area))
        lo, hi = max(0.0, s - r * s), s + r * s
        want = (area >= lo) & (area <= hi)
        arg = (s,)
    elif kind == "ratio":
        r = float(rng.choice([0.1, 0.2, 0.3, 0.5, 1.0, 3.0]))
        v = np.array([abs(d["axes"] - 1.0) for d in dots])
        thin = np.array([d["thin"] for d in dots])
        want = (v < r) & ~thin
        edge = np.abs(v - r) < 1e-6
        arg = ()
    else:
        r = float(rng.choice([0.02, 0.05, 0.1, 0.3, 0.45]))
        dd = pitch * rng.uniform(0.97, 1.03)
        if p["i"] % 4 == 3:
            # the dots stand several spacings apart
            dd = dd / int(rng.integers(2, 9))
            ctx.seen("many spacings apart")
        c = np.array([(d["cy"], d["cx"]) for d in dots])
        dist = np.hypot(c[:, None, 0] - c[None, :, 0],
                        c[:, None, 1] - c[None, :, 1])
        dist[np.eye(n, dtype=bool)] = np.inf
        dist = np.sort(dist, 1)[:, :3]
        e = np.abs(dist - np.round(dist / dd) * dd) / dd
        want = (e < r).any(1)
        edge = (np.abs(e - r) < 1e-6).any(1)
        arg = (dd,)
    dtype = gen.cyc(p, ["int16", "float32", "uint8", "float64", "int32"])
    kw = {} if r == 0.3 and p["i"] % 2 else {"ratio": r}
    out = np.asarray(ctx.call(SEL[kind], gen.layout(
        rng, b.astype(dtype), gen.cyc(p, gen.LAYOUTS, 2)), *arg, **kw))
    ctx.need(out.shape == b.shape and set(np.unique(out).tolist()) <= {0, 1},
             "made of whole dots", reason="not a 0/1 image",
             values=np.unique(out)[:6])
    kept = ndi.sum(out, lab, np.arange(1, n + 1))
    ctx.check(int(out[~b].sum()) == 0 and np.all((kept == 0) | (kept == area)),
              "made of whole dots", invented=int(out[~b].sum()),
              parts=int(((kept != 0) & (kept != area)).sum()))
    wrong = ((kept > 0) != want) & ~edge
    ctx.check(not wrong.any(), "exact selection/" + kind, ratio=r,
              wrong=int(wrong.sum()), of=n, arg=arg,
              first=dots[int(np.argmax(wrong))], kept=bool(
                  kept[int(np.argmax(wrong))] > 0))
    boxes = np.array([d["box"] for d in dots])
    k = int(np.argmax((boxes[:, 1] - boxes[:, 0])
                      * (boxes[:, 3] - boxes[:, 2])))
    y0, y1, x0, x1 = boxes[k]
    if len(np.unique(lab[y0:y1, x0:x1])) > 2:
        ctx.seen("boxes overlap")
    ctx.nontrivial = 0 < int(want.sum()) < n
    ctx.note(b, r, arg)
    ctx.seen("outcome", "mixed" if ctx.nontrivial else "uniform")
    ctx.sample = {"dots": n, "kept": int((kept > 0).sum()), "ratio": r}


def clean(ctx, p):
    """A regular lattice of equal round dots passes every filter."""
    rng = ctx.rng
    h, w = [int(v) for v in rng.integers(120, 260, 2)]
    pitch = float(rng.uniform(12, 30))
    rad = float(rng.uniform(2.6, 0.34 * pitch))
    rot = float(rng.uniform(-10, 10))
    pts = list(gen.grid(h, w, pitch, rot_deg=rot, xo=rng.uniform(0, pitch),
                        yo=rng.uniform(0, pitch)).values())
    b = (gen.render_dots(h, w, pts, rad) > 0.5).astype(np.int16)
    size, dist = ctx.call("prep.calc_size_distance", b, ratio=1.0)
    for name, arg in (("size", (size,)), ("ratio", ()), ("distance", (dist,))):
        r = 0.35 if name == "size" else 0.3
        out = np.asarray(ctx.call(SEL[name], b, *arg, ratio=r))
        ctx.check(np.array_equal(out, b), "clean lattice unchanged",
                  filter=name, lost=int(b.sum() - out.sum()), pitch=pitch,
                  rad=rad)
    ctx.nontrivial = len(pts) > 9
    ctx.note(b)
