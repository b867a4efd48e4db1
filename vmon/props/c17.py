"""Tilted profiles, local extrema, sub-pixel positions, sliding slopes."""
import numpy as np
from scipy import ndimage as ndi
from .. import gen

ID = "C17"
RULE = ("smooth and band-limited images x angles +-40 deg x both directions "
        "x every allowed start; random, integer, plateau and noisy signals x "
        "radii, sensitivities and options; sums of Gaussian dips or peaks at "
        "known positions on uneven backgrounds; windows of any size; "
        "non-trivial: tilt above 0.5 deg, or at least two extrema")
ASSUMPTIONS = ["contrast within 1e-9 of the sensitivity, and the last "
               "admissible sample, are not judged; with background "
               "normalisation the features are sparse"]
MUST_SEE = {"profile is on the line": 80, "profile samples": 80,
            "profile spans the frame": 80, "raises:get_tilted_profile": 60,
            "exact extrema": 100, "sub-pixel vertex": 60,
            "max is min of the mirror": 40, "known extrema": 40,
            "sliding slope": 80, "raises:sliding_window_slope": 4,
            "good peaks": 30, "direction/vertical": 30,
            "direction/horizontal": 30}
PROF = "linep.get_tilted_profile"
EXT = "linep.get_local_extrema_points"
SUB = "linep.locate_subpixel_point"
SLO = "linep.sliding_window_slope"
PEAK = "linep.select_good_peaks"


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    yield from gen.stream(seed, "profile", 120 * k)
    yield from gen.stream(seed, "index", 60 * k)
    yield from gen.stream(seed, "exact", 140 * k)
    yield from gen.stream(seed, "known", 60 * k)
    yield from gen.stream(seed, "vertex", 90 * k)
    yield from gen.stream(seed, "slope", 110 * k)
    yield from gen.stream(seed, "peaks", 40 * k)


def run(ctx, p):
    globals()["do_" + p["kind"]](ctx, p)


# -- tilted profiles --------------------------------------------------------
def wave(rng, h, w):
    k = rng.uniform(-0.12, 0.12, (4, 2))
    ph = rng.uniform(0, 6.3, 4)
    amp = rng.uniform(0.3, 1, 4)

    def f(y, x):
        return sum(a * np.sin(q[0] * y + q[1] * x + s)
                   for a, q, s in zip(amp, k, ph))
    y, x = np.mgrid[:h, :w].astype(float)
    return f, f(y, x), float(np.sum(amp * np.hypot(*k.T)))


def allowed(h, w, a, direction):
    """range of starts for which the whole line stays inside the frame, and
    the tolerance of one or two pixels left to rounding."""
    t = np.tan(np.deg2rad(abs(a)))
    if direction == "horizontal":
        return (w * t, h - 1.0) if a > 0 else (0.0, h - 1.0 - w * t)
    return (0.0, w - 1.0 - h * t) if a > 0 else (h * t, w - 1.0)


def geometry(rng, p):
    direction = gen.cyc(p, ["horizontal", "vertical"])
    while True:
        h, w = [int(v) for v in rng.integers(20, 140, 2)]
        a = float(rng.choice([0.0, rng.uniform(-2, 2), rng.uniform(-15, 15),
                              rng.uniform(-40, 40)]))
        if p["i"] % 16 >= 14:        # a long image, well over 1000 pixels
            n = int(rng.integers(1050, 3200))
            h, w = (h, n) if direction == "horizontal" else (n, w)
            a = float(rng.uniform(-2.5, 2.5))
        lo, hi = allowed(h, w, a, direction)
        if hi - lo > 6:
            return h, w, a, direction, lo, hi


def do_profile(ctx, p):
    rng = ctx.rng
    h, w, a, d, lo, hi = geometry(rng, p)
    f, img, grad = wave(rng, h, w)
    dt = gen.cyc(p, ["float64", "float32", "int32", "uint16"], stride=2)
    scale = 1.0
    if dt in ("int32", "uint16"):
        scale = 5000.0
        img = np.round((img + 4) * scale).astype(dt)
    else:
        img = img.astype(dt)
    idx = rng.uniform(lo + 2, hi - 2)
    if p["i"] % 3:
        idx = int(np.clip(np.round(idx), np.ceil(lo + 1), np.floor(hi - 1)))
    out = ctx.call(PROF, gen.layout(rng, img, gen.cyc(p, gen.LAYOUTS, 3)),
                   idx, a, d)
    ctx.need(len(out) == 3, "profile is on the line")
    x, y, v = [np.asarray(o, float) for o in out]
    n = w if d == "horizontal" else h
    det = dict(h=h, w=w, angle=a, direction=d, index=idx, dtype=dt)
    ctx.need(x.shape == (n,) and y.shape == (n,) and v.shape == (n,),
             "profile spans the frame", shapes=[x.shape, y.shape, v.shape])
    t = np.tan(np.deg2rad(a))
    if d == "horizontal":
        along, across, want = x, y, idx - t * x
    else:
        along, across, want = y, x, idx + t * y
    # the last sample may be clipped to the frame (one pixel at most)
    ctx.close(across[:-1], np.clip(want[:-1], 0, (h if d == "horizontal"
                                                  else w) - 1.0),
              1e-6 + 1.2 * abs(t) * (along[:-1] >= n - 1), "profile is on "
              "the line", **det)
    ctx.at_most(abs(across[-1] - want[-1]), 1.2 * abs(t) + 1e-6,
                "profile is on the line", **det)
    ctx.check(abs(along[0]) < 1e-9 and along[-1] >= n - 2.5
              and np.all(np.diff(along) >= 0)
              and np.ptp(np.diff(along[:-1])) < 1e-6
              and along.max() <= n - 1 + 1e-9, "profile spans the frame",
              first=along[0], last=along[-1], n=n, **det)
    ref = f(y, x)
    if scale != 1:
        ref = (ref + 4) * scale
    inner = np.minimum.reduce([x, y, w - 1 - x, h - 1 - y]) > 3
    # band-limited picture: cubic interpolation is accurate to a small part
    # of the gradient; near the ends of the band that was cut out less so
    tol = (0.10 * grad + 2e-3) * scale + (0.51 if scale != 1 else 1e-5)
    ctx.close(v[inner], ref[inner], tol, "profile samples", **det)
    ctx.close(v, ref, 6 * tol, "profile samples", **det)
    ctx.seen("direction", d)
    ctx.nontrivial = abs(a) > 0.5
    ctx.note(img, idx, a, d)
    ctx.sample = {"angle": a, "direction": d, "n": n}


def do_index(ctx, p):
    rng = ctx.rng
    how = gen.cyc(p, ["below", "above", "steep", "90", "3d", "inside", "zero"])
    h, w, a, d, lo, hi = geometry(rng, p)
    img = rng.random((h, w))
    if how == "below":
        ctx.raises(ValueError, PROF, img, int(np.floor(lo - 2)), a, d)
    elif how == "above":
        ctx.raises(ValueError, PROF, img, int(np.ceil(hi + 2)), a, d)
    elif how == "zero":
        # without tilt the range is exactly the frame
        last = (h if d == "horizontal" else w) - 1
        for i in (-1, last + 1, -0.25, last + 0.25, float(-rng.random() / 4
                  - 1e-6), last + float(rng.random() / 4 + 1e-6)):
            ctx.raises(ValueError, PROF, img, i, 0.0, d)
        for i in (0, last):
            ctx.call(PROF, img, i, 0.0, d)
    elif how == "90":
        ctx.raises(ValueError, PROF, img, 5, float(rng.choice([-90, 90])), d)
    elif how == "3d":
        ctx.raises(ValueError, PROF, rng.random((h, w, 2)), h // 2, 0.0, d)
    elif how == "steep":
        s, o = (w, h) if d == "horizontal" else (h, w)
        a = np.rad2deg(np.arctan((o + 3.0) / s)) * rng.choice([-1, 1])
        for i in (0, o // 2, o - 1):
            ctx.raises(ValueError, PROF, img, i, float(a), d)
    else:
        for i in {int(np.ceil(lo + 1)), int(np.floor(hi - 1))}:
            out = ctx.call(PROF, img, i, a, d)
            ctx.check(len(out) == 3, "profile spans the frame")
    ctx.seen("index", how)
    ctx.nontrivial = True
    ctx.note(img, how)


# -- extrema ----------------------------------------------------------------
def signal(rng, n):
    how = gen.pick(rng, ["noise", "int", "sine", "plateau", "negative"])
    x = np.arange(n)
    if how == "noise":
        s = rng.random(n) + 0.1
    elif how == "int":
        s = rng.integers(0, 30, n)
    elif how == "sine":
        s = 2 + np.sin(x * rng.uniform(0.1, 1)) + 0.2 * np.sin(x * 1.7)
    elif how == "plateau":
        s = np.repeat(rng.integers(1, 9, n), 2)[:n].astype(float)
    else:
        s = rng.normal(size=n)
    return s, how


def vertex(a, b, c):
    """vertex of the parabola through (-1, a), (0, b), (1, c)"""
    q = a - 2 * b + c
    return 0.0 if q == 0 else 0.5 * (a - c) / q


def do_exact(ctx, p):
    rng = ctx.rng
    n = int(rng.integers(12, 160))
    if p["i"] % 20 >= 18:
        n = int(rng.integers(1050, 4000))
    s, how = signal(rng, n)
    if p["i"] % 5 == 2:
        s = s - s.max() - rng.uniform(0.1, 5)       # below zero throughout
    radius = int(rng.integers(1, 14))
    sens = float(rng.choice([0.0, 0.05, 0.1, 0.3, 0.8]))
    opt = gen.cyc(p, ["min", "max"])
    dt = gen.cyc(p, ["float64", "list", "float32", "asis"], stride=2)
    data = s.tolist() if dt == "list" else s if dt == "asis" else s.astype(dt)
    d = np.asarray(data)
    m = d.max() - d if opt == "max" else d
    m = np.asarray(m)
    r = int(min(max(radius, 1), n // 4))
    must, may = [], []
    for i in range(r, n - r):
        win = np.sort(np.asarray(m[i - r:i + r + 1], float))
        if float(m[i]) != win[0]:
            continue
        top = win[-r:].mean()
        con = abs((float(m[i]) - top) / top) if top != 0 else 0.0
        if con > sens + 1e-6 * (1 + sens) and abs(top) > 1e-6 \
                and i < n - r - 1:
            must.append(i)
        if con > sens - 1e-6 * (1 + sens) or abs(top) <= 1e-6:
            may.append(i)
    kw = dict(option=opt, radius=radius, sensitive=sens, denoise=False,
              norm=False, subpixel=False)
    got = [int(v) for v in np.asarray(ctx.call(EXT, data, **kw))]
    ctx.check(got == sorted(set(got)) and set(must) <= set(got)
              and set(got) <= set(may), "exact extrema", missing=sorted(
                  set(must) - set(got))[:5], extra=sorted(
                  set(got) - set(may))[:5], n=n, radius=radius, sens=sens,
              option=opt, signal=how)
    kw["subpixel"] = True
    sub = np.asarray(ctx.call(EXT, data, **kw), float)
    mm = np.asarray(m, float)
    want, judged = [], []
    for i in got:
        lo, mid, hi = mm[i - 1:i + 2]
        want.append(i + vertex(lo, mid, hi))
        judged.append(abs(lo - 2 * mid + hi) > 1e-6 * (1 + np.abs(mm).max()))
    if ctx.check(len(sub) == len(got), "sub-pixel vertex", got=len(sub),
                 want=len(got)) and got:
        j = np.array(judged)
        ctx.close(sub[j], np.array(want)[j], 1e-5 if dt != "float32"
                  else 1e-3, "sub-pixel vertex", option=opt)
    if opt == "max":
        kw["option"] = "min"
        mir = np.asarray(ctx.call(EXT, m, **kw), float)
        ctx.check(np.array_equal(mir, sub), "max is min of the mirror")
    ctx.nontrivial = len(got) > 1
    ctx.seen("signal", how)
    ctx.note(d, radius, sens, opt)
    ctx.sample = {"n": n, "found": len(got), "option": opt}


def do_known(ctx, p):
    """Dips (peaks) at known positions, default denoising/normalisation."""
    rng = ctx.rng
    n = int(rng.integers(300, 700))
    sig = float(rng.uniform(1.5, 3.5))
    # the normalisation expects features that are sparse against background
    norm = p["i"] % 4 != 3
    gap = 14 * np.hypot(sig, 3) + rng.uniform(0, 20) if norm else \
        float(rng.uniform(26, 60))
    pos = np.arange(30 + rng.uniform(0, 10), n - 34, gap)
    pos = pos + rng.uniform(-.5, .5, len(pos))
    x = np.arange(n)
    opt = gen.cyc(p, ["min", "max"])
    d = sum(np.exp(-(x - q) ** 2 / (2 * sig ** 2)) for q in pos)
    bg = rng.uniform(0.5, 2) * (1 + rng.uniform(-.15, .15) * (x / n - .5))
    s = bg * (1 - 0.6 * d) if opt == "min" else bg * (0.2 + 0.8 * d)
    s = s * 10.0 ** rng.integers(-2, 4)
    s = s * (1 + rng.normal(0, 0.002, n))
    rad = int(rng.integers(7, 12))
    kw = dict(option=opt) if p["i"] % 3 else dict(option=opt, radius=rad)
    if not norm:
        kw["norm"] = False
    got = np.asarray(ctx.call(EXT, s, **kw), float)
    ok = len(got) == len(pos)
    ctx.check(ok, "known extrema", got=len(got), want=len(pos), option=opt,
              kw=kw, gap=gap, sigma=sig)
    if ok:
        ctx.at_most(np.abs(np.sort(got) - pos).max(), 0.5,
                    "known extrema (position)", option=opt, kw=kw)
    ctx.nontrivial = len(pos) > 1
    ctx.note(s, opt)


def do_vertex(ctx, p):
    rng = ctx.rng
    n = int(gen.cyc(p, [3, 3, 4, 5, 7, 11]))
    opt = gen.cyc(p, ["min", "max"])
    how = gen.cyc(p, ["parabola", "random", "edge"], stride=2)
    x = np.arange(n)
    if how == "parabola":
        c = rng.uniform(0.05, n - 1.05)
        s = (1 if opt == "min" else -1) * rng.uniform(0.1, 9) * (x - c) ** 2 \
            + rng.normal()
    elif how == "random":
        s = rng.normal(size=n) * 10.0 ** rng.integers(-2, 3)
    else:
        c = rng.choice([-3.0, n + 2.0])
        s = (1 if opt == "min" else -1) * (x - c) ** 2
    a = np.stack([x * x, x, np.ones(n)], 1).astype(float)
    q = np.linalg.lstsq(a, s, rcond=None)[0]
    v = -q[1] / (2 * q[0])
    if abs(q[0]) < 1e-9 * np.abs(s).max() or abs(v) < 1e-4 or \
            abs(v - n) < 1e-4:
        return
    want = v if 0 <= v < n else float(np.argmin(s) if opt == "min"
                                      else np.argmax(s))
    arg = s.tolist() if p["i"] % 5 == 0 else s
    got = ctx.call(SUB, arg, option=opt) if p["i"] % 2 or opt == "max" else \
        ctx.call(SUB, arg)
    ctx.close(got, want, 1e-6 * (1 + abs(want)), "sub-pixel vertex", n=n,
              option=opt, how=how)
    if how == "parabola":
        ctx.close(got, c, 1e-6, "sub-pixel vertex", n=n)
    ctx.nontrivial = True
    ctx.note(s, opt)


# -- slopes -----------------------------------------------------------------
def do_slope(ctx, p):
    rng = ctx.rng
    if p["i"] % 18 == 17:
        ctx.raises(ValueError, SLO, list(rng.random(int(rng.integers(0, 3)))))
        return
    n = int(rng.choice([3, 4, 5, int(rng.integers(6, 120)),
                        int(rng.integers(1000, 4000))]))
    dt = gen.cyc(p, ["float64", "list", "int32", "uint8", "float32",
                     "int list"])
    s = rng.normal(size=n) * 10.0 ** rng.integers(-1, 3)
    if p["i"] % 7 == 5:
        s = np.full(n, 3.0)
    if dt in ("int32", "uint8", "int list"):
        s = np.round(s - s.min()).clip(0, 255)
    data = s.tolist() if dt == "list" else [int(v) for v in s] \
        if dt == "int list" else s.astype(dt)
    size = int(rng.choice([3, 1, 4, 5, 9, 200]))
    z = int(min(max(size, 3), n))
    z += z % 2 == 0
    r = z // 2
    v = np.asarray(data, float)
    pad = np.concatenate([np.full(r, v[0]), v, np.full(r, v[-1])])
    k = np.arange(z) - (z - 1) / 2.0
    ref = np.abs(np.array([np.sum(k * pad[i:i + z]) for i in range(n)])
                 / np.sum(k * k))
    norm = bool(p["i"] % 2)
    if norm and ref.mean() > 1e-9:
        ref = ref / ref.mean()
    kw = {} if norm and p["i"] % 3 else {"norm": norm}
    if size != 3 or p["i"] % 3 == 1:
        kw["size"] = size
    got = np.asarray(ctx.call(SLO, data, **kw))
    tol = (1e-6 if dt != "float32" else 1e-3) * (1 + np.abs(ref).max())
    if norm and np.ptp(v) == 0:
        ctx.check(np.all(np.isfinite(got)), "sliding slope")
    else:
        ctx.close(got, ref, tol, "sliding slope", n=n, size=size, norm=norm,
                  type=dt)
    ctx.nontrivial = np.ptp(v) > 0
    ctx.note(v, size, norm)


def do_peaks(ctx, p):
    """Clean Gaussian peaks are kept, other candidates dropped."""
    rng = ctx.rng
    n = 400
    x = np.arange(n)
    pos = np.arange(40, 370, 60)
    kindof = rng.integers(0, 3, len(pos))
    s = np.zeros(n)
    good = []
    for q, k in zip(pos, kindof):
        if k == 0:
            s += np.exp(-(x - q) ** 2 / (2 * rng.uniform(2, 3) ** 2))
            good.append(int(q))
        elif k == 1:
            s[q - 11:q + 12] += rng.random(23)       # rubbish
        # k == 2: nothing there at all
    s = s * 10.0 ** rng.integers(-2, 3)
    cand = [int(q) for q in pos]
    got = ctx.call(PEAK, s, cand) if p["i"] % 2 else \
        ctx.call(PEAK, s, cand, radius=int(rng.integers(9, 13)))
    got = [int(v) for v in np.asarray(got)]
    it = iter(cand)
    ctx.check(all(g in it for g in got), "good peaks",
              reason="not a subsequence of the candidates", got=got)
    ctx.check(got == good, "good peaks", got=got, want=good,
              kinds=kindof.tolist())
    # a peak without its foot, or with a hole beside it: the fitted base is
    # off, below or above, which counts unless use_offset is False
    amp = s.max() if s.max() > 0 else 1.0
    y = np.arange(101) - 50
    broad = amp * np.exp(-y ** 2 / (2 * rng.uniform(7, 10) ** 2))
    dip = amp * np.exp(-y ** 2 / (2 * rng.uniform(2, 3) ** 2))
    dip[50 + int(rng.choice([-8, -7, 7, 8]))] -= amp * rng.uniform(0.5, 1)
    for name, sig, use, want in [("broad", broad, True, 0), ("broad", broad,
                                 False, 1), ("hole", dip, True, 0)]:
        k = ctx.call(PEAK, sig, [50], **({} if use and p["i"] % 2 else
                                         {"use_offset": use}))
        ctx.check(len(np.asarray(k)) == want, "good peaks", peak=name,
                  use_offset=use)
    # a well fitted peak counts only near its top, on either side of it
    one = amp * np.exp(-y ** 2 / (2 * rng.uniform(2.0, 2.6) ** 2))
    for away in (-4, -1, 0, 1, 4):
        k = ctx.call(PEAK, one, [50 + away], radius=7)
        ctx.check(len(np.asarray(k)) == (abs(away) < 2), "good peaks",
                  candidate="%d samples from the top" % away)
    # the selection within the search for extrema: peaks (or dips) of the
    # right shape stay, shoulders of other shapes go
    opt = gen.cyc(p, ["min", "max"])
    top = (1.0 - s / amp if opt == "min" else s / amp) + 1.0
    kw = dict(option=opt, radius=11, denoise=False, norm=False)
    free = np.asarray(ctx.call(EXT, top, **kw), float)
    pick = np.asarray(ctx.call(EXT, top, select_peaks=True, **kw), float)
    ctx.check(all(np.any(f == free) for f in pick), "selected extrema",
              reason="not among the extrema", option=opt)
    for q, k in zip(pos, kindof):
        near = int(np.sum(np.abs(pick - q) < 1)) if pick.size else 0
        if k == 0:
            ctx.check(near == 1, "selected extrema", option=opt, near=near,
                      reason="a Gaussian peak lost", at=int(q))
    if p["i"] % 4 == 0:
        off = [q + 9 for q in good]
        got = ctx.call(PEAK, s, off)
        ctx.check(len(np.asarray(got)) == 0, "good peaks",
                  reason="candidates 9 samples away from the peak kept",
                  got=got)
    ctx.nontrivial = 0 < len(good) < len(cand)
    ctx.note(s)
