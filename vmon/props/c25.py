"""Background normalisation and threshold."""
import numpy as np
import scipy.ndimage as ndi

from .. import gen
from ..target import Target

ID = "C25"
RULE = ("images 3-70 px, even and odd, of every dtype, content, memory "
        "layout, with and without zero regions; median sizes 1-51 (even and "
        "odd), Fourier sigmas 1-40, pads 0-100, 5 padding modes; thresholds "
        "of ramps, noise and rendered targets with 2-20 % features, snr "
        "0-6, both background kinds; non-trivial: image not constant")
ASSUMPTIONS = [
    "the image is at least half as large as the median window (scipy's own "
    "filter is wrong for windows many times the image)",
    "the Fourier filter may be centred on the zero frequency or half a bin "
    "off; its background is compared within that difference",
    "threshold between background and features: features cover less than a "
    "fifth of the image and stand out by 15 noise sigmas or more"]
MUST_SEE = {"median reference": 80, "fourier reference": 60, "finite": 200,
            "constant unchanged": 40, "scaling commutes": 100,
            "threshold affine": 60, "threshold dual": 60,
            "threshold moves with snr": 60, "threshold span": 40,
            "threshold separates": 40, "zero region": 30}

NM, NF, TH = "prep.normalization", "prep.normalization_fft", \
    "prep.calculate_threshold"


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    for kind, n in [("median", 130), ("fourier", 110), ("constant", 60),
                    ("zero", 50), ("affine", 90), ("span", 60),
                    ("separate", 70)]:
        yield from gen.stream(seed, kind, n * k)


def sized(rng, p, lo=3, hi=71):
    h, w = int(rng.integers(lo, hi)), int(rng.integers(lo, hi))
    if p["i"] % 5 == 4:
        w = h
    return h, w


def positive(rng, h, w, dt):
    a = gen.image(rng, h, w, "float64")
    a = (a - a.min()) / max(np.ptp(a), 1e-12)
    a = 0.3 + a
    if dt.startswith("u") or dt.startswith("i"):
        return np.round(a * (190 if dt == "uint8" else 20000)).astype(dt)
    return (a * 10.0 ** rng.integers(-4, 5)).astype(dt)


DT = ["float64", "float32", "uint8", "uint16", "int32", "int16"]


def median_background(a, size):
    s0 = size // 2
    pad = np.pad(a, ((s0, size - 1 - s0), (s0, size - 1 - s0)), "symmetric")
    win = np.lib.stride_tricks.sliding_window_view(pad, (size, size))
    flat = np.sort(win.reshape(a.shape + (-1,)), axis=-1)
    return flat[..., size * size // 2]


def corrected(a, b):
    a, b = a.astype(float), b.astype(float)
    m = b.mean()
    ok = b != 0
    return np.where(ok, m * a / np.where(ok, b, 1), a)


def eps_of(dt):
    return 2e-4 if dt == "float32" else 1e-9


def basics(ctx, got, a, **det):
    got = np.asarray(got)
    ctx.need(got.shape == a.shape and np.all(np.isfinite(got)), "finite",
             got_shape=got.shape, want=a.shape, **det)
    return got


def do_median(ctx, p):
    rng = ctx.rng
    dt = gen.cyc(p, DT)
    size = int(gen.cyc(p, [3, 5, 4, 1, 7, 2, 9, 11, 8, 51]))
    h, w = sized(rng, p, max(3, size // 2 + 1))
    a = positive(rng, h, w, dt)
    if p["i"] % 9 == 8 and not dt.startswith("u"):
        a = a - a.dtype.type(a.mean())       # signed content
    if size > 20:
        a = a[:30, :27]
    det = dict(shape=a.shape, size=size, dtype=dt)
    kw = {} if size == 51 else {"size": size}
    give = gen.layout(rng, a, gen.cyc(p, gen.LAYOUTS))
    got = basics(ctx, ctx.call(NM, give, **kw), a, **det)
    bck = median_background(a, size)
    ref = corrected(a, bck)
    tol = eps_of(dt) * (np.abs(ref).max() + 1e-300)
    if p["i"] % 9 == 8:
        # the mean of a signed background is known to a rounding of its size
        b = np.abs(bck.astype(float))
        tol = eps_of(dt) * (np.abs(ref) + np.abs(ref).max() + b.max() * np.abs(
            a.astype(float)) / np.where(b > 0, b, 1)) + 1e-300
    ctx.close(got, ref, tol, "median reference", **det)
    c = 2 if dt in ("uint16", "int32") else float(2.0 ** rng.integers(-6, 7))
    if dt not in ("uint8", "int16"):
        b = a * a.dtype.type(c)
        out = ctx.call(NM, b, **kw)
        ctx.close(out, c * got.astype(float), 10 * c * np.maximum(eps_of(
            dt) * np.abs(got.astype(float)).max(), tol) + 1e-300, "scaling commutes", c=c, **det)
    ctx.nontrivial = np.ptp(a.astype(float)) > 0
    ctx.note(a, size)
    ctx.sample = det


def lowpass(a, sigma, pad, mode, off):
    b = np.pad(a.astype(float), pad, mode=mode)
    h, w = b.shape
    def g(n):
        k = np.fft.fftfreq(n) * n
        return np.exp(-(k + (0.5 * off if n % 2 == 0 else 0.0)) ** 2
                      / (2.0 * sigma ** 2))
    f = np.real(np.fft.ifft2(np.fft.fft2(b) * np.outer(g(h), g(w))))
    return f[pad:h - pad, pad:w - pad]


def do_fourier(ctx, p):
    rng = ctx.rng
    dt = gen.cyc(p, DT)
    h, w = sized(rng, p, 4)
    a = positive(rng, h, w, dt)
    sigma = gen.cyc(p, [10, 5, 2, 20, 40, 3.5, 1])
    pad = int(gen.cyc(p, [100, 10, 0, 25, 3, 60]))
    mode = gen.cyc(p, ["reflect", "edge", "symmetric", "mean", "wrap"], 2)
    kw = {}
    if sigma != 10:
        kw["sigma"] = sigma
    if pad != 100:
        kw["pad"] = pad
    if mode != "reflect":
        kw["mode"] = mode
    det = dict(shape=a.shape, dtype=dt, sigma=sigma, pad=pad, mode=mode)
    give = gen.layout(rng, a, gen.cyc(p, gen.LAYOUTS))
    got = basics(ctx, ctx.call(NF, give, **kw), a, **det)
    b0 = lowpass(a, sigma, pad, mode, 0)
    b1 = lowpass(a, sigma, pad, mode, 1)
    if b0.min() > 0.1 * b0.mean() and b1.min() > 0.1 * b1.mean():
        r0, r1 = corrected(a, b0), corrected(a, b1)
        tol = 1.3 * np.abs(r0 - r1).max() + 1e-6 * np.abs(r0).max()
        if dt == "float32" or mode == "mean":
            tol += 2e-4 * np.abs(r0).max()
        if mode == "mean" and a.dtype.kind in "iub":  # rounded padding values
            tol += 2.0 / min(b0.min(), b1.min()) * np.abs(r0).max()
        ctx.close(got, 0.5 * (r0 + r1), tol, "fourier reference", **det)
    if dt.startswith("float"):
        c = float(2.0 ** rng.integers(-6, 7))
        if rng.random() < 0.4:
            c = -c                           # a negated image
        out = ctx.call(NF, a * a.dtype.type(c), **kw)
        ctx.close(out, c * got.astype(float), 1e-3 * abs(c) * np.abs(
            got.astype(float)).max(), "scaling commutes", c=c, **det)
    ctx.nontrivial = np.ptp(a.astype(float)) > 0
    ctx.note(a, sigma, pad, mode)
    ctx.sample = det


def do_constant(ctx, p):
    rng = ctx.rng
    h, w = sized(rng, p, 2)
    dt = gen.cyc(p, DT)
    v = gen.cyc(p, [1, 7, 0, 200, 3], 2)
    if dt.startswith("float"):
        v = v * 10.0 ** rng.integers(-5, 6)
    a = np.full((h, w), v, dtype=dt)
    fn, kw = gen.cyc(p, [(NM, {"size": 3}), (NF, {}), (NM, {"size": 6}),
                         (NF, {"pad": 7, "sigma": 4}), (NF, {"pad": 0})])
    got = basics(ctx, ctx.call(fn, a, **kw), a, fn=fn)
    ctx.close(got, a.astype(float), 1e-5 * abs(float(v)) + 1e-300,
              "constant unchanged", fn=fn, kw=kw, shape=a.shape, value=v)
    ctx.nontrivial = False
    ctx.note(a, fn)


def do_zero(ctx, p):
    """Dead regions: the median of the neighbourhood is zero."""
    rng = ctx.rng
    dt = gen.cyc(p, DT)
    h, w = sized(rng, p, 20)
    a = positive(rng, h, w, dt)
    how = gen.cyc(p, ["block", "rows", "all", "sparse"])
    if how == "block":
        a[2:16, 3:17] = 0
        a[8, 8] = 5
    elif how == "rows":
        a[:h // 2] = 0
        a[4, ::7] = 9
    elif how == "all":
        a[:] = 0
    else:
        a = a * (rng.random(a.shape) < 0.1).astype(a.dtype)
    size = int(gen.cyc(p, [5, 4, 7, 3]))
    got = basics(ctx, ctx.call(NM, a, size=size), a, how=how, dtype=dt)
    ref = corrected(a, median_background(a, size))
    ctx.close(got, ref, eps_of(dt) * (np.abs(ref).max() + 1e-300),
              "median reference", how=how, dtype=dt, size=size)
    basics(ctx, ctx.call(NF, a, sigma=6, pad=20), a, how=how, dtype=dt)
    ctx.seen("zero region")
    ctx.nontrivial = how != "all"
    ctx.note(a, size)


# -- threshold ---------------------------------------------------------------
def grey(rng, p):
    h, w = int(rng.integers(8, 90)), int(rng.integers(8, 90))
    how = gen.cyc(p, ["noise", "image", "normal", "bimodal"])
    if how == "noise":
        return rng.random((h, w)), how
    if how == "image":
        return gen.image(rng, h, w, "float64"), how
    if how == "normal":
        return rng.normal(5, 1, (h, w)), how
    return np.where(rng.random((h, w)) < rng.uniform(.1, .9), 1.0, 5.0) \
        + rng.normal(0, .1, (h, w)), how


def wobble(a, snr):
    """How much the threshold depends on which side of the middle half of
    the sorted intensities the odd sample is counted."""
    v = ndi.zoom(np.sort(a.ravel()), max(a.shape) / a.size, mode="nearest")
    n = len(v)
    x, d = np.arange(n, dtype=float), int(0.25 * n)
    out = []
    for sl in (slice(d, n - d - 1), slice(d + 1, n - d), slice(d, n - d)):
        k, c = np.polyfit(x[sl], v[sl], 1)
        e = c + k * x[-1]
        out.append((c - abs(e - c) * snr / 2, e + abs(e - c) * snr / 2))
    return float(np.max(np.ptp(np.array(out), axis=0)))


def do_affine(ctx, p):
    rng = ctx.rng
    a, how = grey(rng, p)
    bgr = gen.cyc(p, ["bright", "dark"])
    other = "dark" if bgr == "bright" else "bright"
    snr = float(gen.cyc(p, [2.0, 1.0, 3.0, 0.0, 5.5], 3))
    kw = {"bgr": bgr}
    if snr != 2.0:
        kw["snr"] = snr
    if bgr == "bright" and p["i"] % 3 == 0:
        kw.pop("bgr")
    t = float(ctx.call(TH, a, **kw))
    kw["bgr"] = bgr
    span = np.ptp(a)
    c, d = float(10.0 ** rng.uniform(-3, 3)), float(rng.normal() * 50)
    t2 = float(ctx.call(TH, c * a + d, **kw))
    ctx.close(t2, c * t + d, 1e-7 * (c * (span + abs(t)) + abs(d)) * 100,
              "threshold affine", how=how, bgr=bgr, snr=snr)
    m = float(a.max() + a.min())
    t3 = float(ctx.call(TH, m - a, **dict(kw, bgr=other)))
    ctx.close(t3, m - t, 1e-6 * (span + abs(t) + abs(m)) + 1.5 * wobble(
        a, snr), "threshold dual", how=how, bgr=bgr, snr=snr)
    ts = [float(ctx.call(TH, a, bgr=bgr, snr=s)) for s in (0.0, 1.0, 2.0,
                                                           4.0)]
    steps = np.diff(ts) * (-1 if bgr == "bright" else 1)
    ctx.check(np.all(steps >= -1e-9 * span), "threshold moves with snr",
              values=ts, bgr=bgr)
    # linear in snr
    ctx.close([ts[2] - ts[1], (ts[3] - ts[2]) / 2], [ts[1] - ts[0]] * 2,
              1e-6 * (span + np.abs(ts).max()), "threshold moves with snr",
              values=ts, bgr=bgr)
    # the order of the pixels and the orientation do not matter
    b = rng.permutation(a.ravel()).reshape(a.shape[::-1])
    ctx.close(ctx.call(TH, b, **kw), t, 1e-7 * (span + abs(t)),
              "threshold affine", what="pixels permuted")
    if p["i"] % 4 == 0:
        q = np.round((a - a.min()) / span * 255).astype(np.uint8)
        ti = float(ctx.call(TH, q, **kw))
        tf = float(ctx.call(TH, q.astype(float), **kw))
        ctx.close(ti, tf, 0.04 * 255 * (1 + snr), "threshold affine",
                  what="8-bit image", how=how)
    ctx.nontrivial = True
    ctx.note(a, bgr, snr)
    ctx.sample = {"how": how, "bgr": bgr, "snr": snr, "threshold": t}


def do_span(ctx, p):
    """Intensities on an exact ramp: the fitted line is known."""
    rng = ctx.rng
    h, w = int(rng.integers(12, 80)), int(rng.integers(12, 80))
    lo = float(rng.normal() * 10)
    hi = lo + float(rng.uniform(0.5, 20))
    v = np.linspace(lo, hi, h * w)
    tail = p["i"] % 2
    if tail:
        # features: the first (last) eighth of the values is off the ramp
        k = h * w // 10
        if p["i"] % 4 == 1:
            v[:k] -= 40 * (hi - lo)
        else:
            v[-k:] += 40 * (hi - lo)
    a = rng.permutation(v).reshape(h, w)
    snr = float(gen.cyc(p, [2.0, 0.0, 1.0, 4.0], 4))
    for bgr in ("bright", "dark"):
        t = float(ctx.call(TH, a, bgr=bgr, snr=snr))
        want = lo - (hi - lo) * snr / 2 if bgr == "bright" else \
            hi + (hi - lo) * snr / 2
        tol = (1e-6 if not tail else 0.08) * (hi - lo) * (1 + snr)
        ctx.close(t, want, tol, "threshold span", bgr=bgr, snr=snr,
                  tail=tail, shape=a.shape)
    ctx.nontrivial = True
    ctx.note(a, snr)


def do_separate(ctx, p):
    rng = ctx.rng
    h, w = int(rng.integers(80, 240)), int(rng.integers(80, 240))
    pitch = float(rng.uniform(20, 36))
    t = Target(h, w, pitch, pitch, rng.uniform(-20, 20), rng.uniform(-9, 9))
    kind = gen.cyc(p, ["dots", "lines"])
    f = t.dots(pitch * rng.uniform(.1, .22)) if kind == "dots" else \
        t.lines(rng.uniform(1.2, 2.0), 0.2)
    frac = (f > 0.05).mean()
    if frac > 0.2:
        return
    bgr = gen.cyc(p, ["bright", "dark"], 2)
    base, con = rng.uniform(1, 5), rng.uniform(0.5, 1)
    sig = con / rng.uniform(15, 60)
    clean = base + (f if bgr == "dark" else 1 - f) * con
    a = clean + rng.normal(0, sig, f.shape)
    dt = gen.cyc(p, ["float64", "float32", "uint16"], 3)
    k = 1.0
    if dt == "uint16":
        k = 8000.0
    a = (a * k).astype(dt)
    thr = float(ctx.call(TH, a, bgr=bgr)) / k
    back, feat = (base + con, base) if bgr == "bright" else (base, base + con)
    away = (back - thr) * (1 if bgr == "bright" else -1)
    ctx.check(1.5 * sig < away < 0.9 * con, "threshold separates",
              bgr=bgr, threshold=thr, background=back, feature=feat,
              sigma=sig, fraction=frac)
    ctx.nontrivial = True
    ctx.note(a, bgr)
    ctx.sample = {"background": back, "feature": feat, "threshold": thr}


def run(ctx, p):
    globals()["do_" + p["kind"]](ctx, p)
