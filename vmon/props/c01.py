"""Backward image unwarping = sampling the input at the model positions."""
import numpy as np
from .. import gen, refs

ID = "C01"
RULE = ("random images (6 dtypes, 6 memory layouts, 1..2300 px sides, tall "
        "strips above 32767 rows) x random/wild radial models x centres "
        "inside/at the edge/far outside x spline orders 0-5 x 8 border modes;"
        " non-trivial: the model moves at least one pixel by >0.5 px and the "
        "image is not constant")
ASSUMPTIONS = ["scipy.ndimage spline sampling is trusted for orders > 1",
               "coordinates may be rounded to float32"]
MUST_SEE = {"sampled": 100, "order/0": 10, "order/1": 30, "order/3": 10,
            "identity": 5, "ramp": 10,
            "missing pixels": 20}


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    yield from gen.stream(seed, "random", 420 * k)
    yield from gen.stream(seed, "wild", 60 * k)
    yield from gen.stream(seed, "ramp", 60 * k)
    yield from gen.stream(seed, "identity", 24 * k)
    yield from gen.stream(seed, "tiny", 60 * k)
    yield from gen.stream(seed, "big", 6 * min(k, 4))
    yield from gen.stream(seed, "tall", 4 * min(k, 4))
    yield from gen.stream(seed, "const", 12 * k)
    yield from gen.stream(seed, "nan", 30 * k)


def run(ctx, p):
    rng = ctx.rng
    kind = p["kind"]
    h, w = [int(v) for v in rng.integers(20, 170, 2)]
    if rng.random() < 0.15:
        w = h
    if kind == "tiny":
        h, w = [int(v) for v in rng.integers(1, 9, 2)]
    elif kind == "big":
        h, w = [(2300, 1900), (1500, 2561), (2049, 2049), (1100, 4100),
                (4200, 1000), (1801, 2003)][p["i"] % 6]
    elif kind == "tall":
        h, w = [(33500, 9), (9, 33500), (66000, 5), (5, 70001)][p["i"] % 4]
    dtype = gen.cyc(p, gen.DTYPES)
    lay = gen.cyc(p, gen.LAYOUTS, shift=p["i"] // 6)
    order = gen.pick(rng, [1, 0, 1, 3, 1, 2, 1, 4, 5, None])
    mode = gen.pick(rng, gen.MODES + [None])
    if kind in ("big", "tall"):
        order = gen.cyc(p, [1, None, 1, 3, 0, 1])
    style = "ramp" if kind == "ramp" else None
    if kind in ("ramp", "nan"):
        dtype = gen.cyc(p, ["float64", "float32"])
    img = gen.image(rng, h, w, dtype, style)
    if kind == "const":
        img = np.full((h, w), img.ravel()[0], dtype=img.dtype)
    xc, yc, chow = gen.center(rng, h, w)
    rmax = gen.rmax_of(h, w, xc, yc)
    if kind == "identity":
        fact = np.array([1.0] + [0.0] * int(rng.integers(0, 4)))
    elif kind == "wild":
        n = int(rng.integers(1, 9))
        fact = rng.normal(size=n) * 10 ** rng.uniform(-1, 1) \
            / max(rmax, 1.0) ** np.arange(n)
        if rng.random() < 0.2:
            fact[:] = 0
        elif rng.random() < 0.35 and n > 1:
            fact[:int(rng.integers(1, n))] = 0   # leading zeros
    else:
        fact = gen.radial_model(rng, max(rmax, 2.0), nf=gen.many(p))
        if rng.random() < 0.3:
            fact = fact * rng.uniform(0.8, 1.25)
    yd, xd = refs.model_coords(np.arange(h), np.arange(w), xc, yc, fact)
    moved = float(np.max(np.hypot(yd - np.arange(h)[:, None],
                                  xd - np.arange(w)[None, :])))
    yd = np.clip(yd, 0, h - 1)
    xd = np.clip(xd, 0, w - 1)
    if kind == "nan":
        img, bad, clean = refs.spoil_image(rng, img)
        ctx.note(img, xc, yc, fact)
        out = ctx.call("post.unwarp_image_backward",
                       gen.layout(rng, img, lay), xc, yc,
                       gen.fact_container(rng, fact))
        return refs.judge_missing(ctx, out, bad, clean, yd, xd, "sampled")
    kw = {}
    if order is not None:
        kw["order"] = order
    if mode is not None:
        kw["mode"] = mode
    ctx.note(img, xc, yc, fact, kw)
    ctx.nontrivial = moved > 0.5 and float(img.max()) > float(img.min())
    fc = gen.fact_container(rng, fact)
    cxy = (xc, yc)
    if chow in ("int", "corner") and rng.random() < 0.5:
        cxy = (int(xc), int(yc))
    src = gen.layout(rng, img, lay)
    out = ctx.call("post.unwarp_image_backward", src, cxy[0], cxy[1], fc,
                   **kw)
    out = np.asarray(out)
    ctx.need(out.shape == (h, w), "shape", got=list(out.shape),
             want=[h, w])
    ctx.check(out.dtype == img.dtype, "dtype", got=str(out.dtype),
              want=str(img.dtype))
    o, m = (1 if order is None else order), (mode or "reflect")
    ctx.seen("order", o)
    ctx.seen("mode", m)
    ctx.seen("dtype", dtype)
    ctx.seen("layout", lay)
    ctx.seen("center", chow)
    ctx.sample = {"shape": [h, w], "dtype": dtype, "order": o, "mode": m,
                  "center": [xc, yc], "fact": [float(f) for f in fact],
                  "max_move_px": moved}
    if kind == "wild":
        # A steep model turns float32/64 rounding of the radius into larger
        # coordinate errors only where |coordinate| is large, i.e. clipped.
        pass
    if o == 0:
        cand = refs.nearest_candidates(img, yd, xd)
        got = out.astype(np.float64)
        ok = np.zeros((h, w), bool)
        tol = 1e-6 * np.abs(img.astype(float)).max() + 1e-12
        for c in cand:
            ok |= np.abs(got - c) <= tol
        ctx.check(ok.all(), "sampled", bad=int((~ok).sum()), of=h * w,
                  order=0)
    else:
        val, tol = refs.sample(img, yd, xd, o, m)
        if img.dtype.kind in "ui":
            # out-of-range spline overshoot may saturate or wrap: not judged
            ii = np.iinfo(img.dtype)
            good = (val > ii.min + 1) & (val < ii.max - 1)
            if o > 1:
                sel = good
            else:
                sel = np.ones_like(good)
            ctx.close(out[sel], val[sel], tol[sel], "sampled", order=o,
                      mode=m)
        else:
            ctx.close(out, val, tol, "sampled", order=o, mode=m)
    if kind == "identity":
        if o <= 1:
            ctx.check(np.array_equal(out, img), "identity")
        else:
            scale = float(np.abs(img.astype(float)).max()) + 1e-9
            ctx.close(out, img, 1e-3 * scale + (1.0 if img.dtype.kind in "ui"
                                                else 0.0), "identity")
    if kind == "ramp" and o >= 1 and h > 25 and w > 25:
        ctx.asserts["ramp"] += 1
    if kind == "const":
        if o <= 1:
            ctx.close(out, img, 1e-6 * abs(float(img.ravel()[0])) + 1e-12,
                      "constant stays constant")
